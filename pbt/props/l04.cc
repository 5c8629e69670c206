#include "../dc.h"
// L04: articulation of downloaded instruments: pitch, tremolo, pan, tone.
static double sec(int tc) { return tc == -32768 ? 0 : std::pow(2, tc / 1200.0); }
struct Lfo { double f = 5, delay = 0.01; double at(double t, double k = 1) const { double p = (t - delay * k) * f; if (p < 0) return 0; p -= std::floor(p); return p < .25 ? 4 * p : p < .75 ? 2 - 4 * p : 4 * p - 4; } };
struct Eg2 { double del = 0, att = 0, hold = 0, dec = 0, sus = 1, rel = 0;
  double held(double x, double k) const { if (x < del * k) return 0; x -= del * k; if (x < att) return x / att; x -= att; if (x < hold * k + (k > 1 ? BLKMS() / 1000 : 0)) return 1; x -= hold * k; double v = dec > 0 ? 1 - x / dec : 0; return std::max(v, sus); }
  double at(double t, double off, double k = 1) const { if (t < off) return held(t, k); double v = held(off, k); return rel > 0 ? std::max(0.0, v - (t - off) / rel) : 0; } };
struct Step { int blk, val; };
static int stepAt(const std::vector<Step>& v, double t) { int x = 0; for (auto& s : v) if (s.blk * BLKMS() / 1000 <= t) x = s.val; return x; }
struct Depth { int base = 0, cc1 = 0, cp = 0; double at(int m, int p) const { return base + cc1 * m / 128.0 + cp * p / 128.0; } double sum() const { return std::abs(base) + std::abs(cc1) + std::abs(cp); } };
struct Art { DArt a; void put(int dst, int v, int src = 0, int ctl = 0) { a.c.push_back(conn(dst, v, src, ctl)); } };
static void lfoParams(Gen& g, Art& a, Lfo& l, int fDst, int dDst, bool slow = false) { if (slow || g.chance(2, 3)) { double hz = slow ? 1 + g.draw(200) / 100.0 : 0.5 + g.draw(1950) / 100.0 * g.draw(101) / 100.0; int pc = (int)std::lround(1200 * std::log2(hz / 440) + 6900); a.put(fDst, pc); l.f = 440 * std::pow(2, (pc - 6900) / 1200.0); } if (g.flip()) { int tc = g.chance(1, 4) ? -32768 : g.range(-7973, 0); a.put(dDst, tc); l.delay = sec(tc); } }
static void depth(Gen& g, Art& a, Depth& d, int dst, int src, int maxv, bool all = false) { for (int i = 0; i < 3; i++) if (all || g.flip()) { int v = g.range(-maxv, maxv); a.put(dst, v, src, i == 0 ? 0 : i == 1 ? CS_CC1 : CS_CP); (i == 0 ? d.base : i == 1 ? d.cc1 : d.cp) = v; } }
static void noise(Gen& g, Art& a) { // connections this engine has no use for must be ignored
  for (int n = g.chance(1, 3) ? g.range(1, 3) : 0; n > 0; n--) switch (g.draw(5)) { case 0: a.put(CD_PITCH, g.range(-3000, 3000), CS_LFO, 0x82); break; case 1: a.put(CD_GAIN, g.range(-900, 900), CS_KEY); break; case 2: a.put(0x7777, g.range(-3000, 3000)); break; case 3: a.put(CD_PAN, g.range(-500, 500), CS_LFO); break; default: a.put(CD_PITCH, g.range(-3000, 3000), 0x55); } }
static Bytes place(Gen& g, Ctx& c, Art& a, DWave w, const DWsmp& m, Layout* = nullptr) {
  for (size_t i = a.a.c.size(); i > 1; i--) std::swap(a.a.c[i - 1], a.a.c[g.draw(i)]); a.a.v2 = g.flip(); Dls d; d.waves.push_back(w); DIns q; DRgn r; r.w = m; r.w.on = true;
  if (g.flip() || a.a.c.empty()) { q.art = a.a; if (a.a.c.empty()) q.art = basicArt(); } else { r.art = a.a; if (g.flip()) { Art x; x.put(CD_PITCH, g.range(-900, 900)); x.put(CD_PAN, g.range(-500, 500)); x.put(CD_GAIN, 100, CS_LFO); q.art = x.a; } }   // a region's articulation replaces the instrument's
  q.r.push_back(r); d.ins.push_back(q); describe(c, d); return encDls(d, g.flip() ? &g : nullptr); }
static std::vector<Step> steps(Gen& g, int blocks) { std::vector<Step> v; if (g.chance(2, 3)) v.push_back({0, (int)g.draw(128)}); for (int n = g.draw(3); n > 0; n--) v.push_back({(int)g.draw(blocks), (int)g.draw(128)}); std::sort(v.begin(), v.end(), [](const Step& a, const Step& b) { return a.blk < b.blk; }); return v; }
// plays one note; controllers by block
static Pcm playNote(Ctx& c, const Bytes& enc, int key, int vel, int off, int blocks, const std::vector<Step>& cc1, const std::vector<Step>& cp, const Bytes& pre = {}) {
  Eng e; MemFile f(enc); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), pre})); Pcm p;
  for (int b = 0; b < blocks; b++) { for (auto& x : cc1) if (x.blk == b) e.write(s, mCC(0, 1, x.val)); for (auto& x : cp) if (x.blk == b) e.write(s, Bytes{0xd0, (uint8_t)x.val}); if (b == 0) e.write(s, mNoteOn(0, key, vel)); if (b == off) e.write(s, mNoteOff(0, key)); e.render(p, 1); }
  c.say("key %d vel %d off %d of %d blocks;", key, vel, off, blocks); for (auto& x : cc1) c.say(" cc1@%d=%d", x.blk, x.val); for (auto& x : cp) c.say(" cp@%d=%d", x.blk, x.val); c.say("\n"); return p; }
static double freqOf(const Pcm& p, int b, double* amp = nullptr) { int n = BLK(); const int16_t* q = p.data() + (size_t)b * 2 * n; double sy = 0, sx = 0; for (int i = 1; i + 1 < n; i++) { double y = q[2 * i]; sy += y * y; sx += y * ((double)q[2 * i - 2] + q[2 * i + 2]); } if (amp) *amp = std::sqrt(2 * sy / n); if (sy == 0) return 0; double cw = sx / (2 * sy); return cw >= 1 ? 0 : std::acos(std::max(-1.0, cw)) * RATE() / (2 * M_PI); }
static void pitch(Gen& g, Ctx& c) {
  Art a; Lfo ml, vl; Depth md, vd; Eg2 E; int tune = 0, kp = 12800, eg = 0, vel = g.range(100, 127), key = g.range(20, 108);
  if (g.chance(1, 3)) a.put(CD_PITCH, tune = g.range(-600, 600)); if (g.chance(1, 3)) a.put(CD_PITCH, kp = g.pick({0, 6400, 12800, 3200, 9600, (int)g.draw(12801)}), CS_KEY);
  int mode = g.draw(4); if (mode != 1) { lfoParams(g, a, ml, CD_LFOF, CD_LFOD); depth(g, a, md, CD_PITCH, CS_LFO, 300); } if (mode != 0 && mode != 3) { lfoParams(g, a, vl, CD_VIBF, CD_VIBD); depth(g, a, vd, CD_PITCH, CS_VIB, 300); }
  if (mode >= 2 || g.flip()) { auto tc = [&]() { return g.range(-4800, 600); }; eg = g.range(-700, 700); a.put(CD_PITCH, eg, CS_EG2); if (g.chance(1, 3)) { int t = tc(); a.put(CD2_DEL, t); E.del = sec(t); }
    if (g.chance(2, 3)) { int t = tc(); a.put(CD2_AT, t); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.put(CD2_AT, k, CS_VEL); t += k * vel / 128; } E.att = sec(t); }
    if (g.chance(1, 3)) { int t = tc(); a.put(CD2_HOLD, t); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.put(CD2_HOLD, k, CS_KEY); t += k * key / 128; } E.hold = sec(t); }
    if (g.chance(2, 3)) { int t = g.range(-3600, 1200); a.put(CD2_DEC, t); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.put(CD2_DEC, k, CS_KEY); t += k * key / 128; } E.dec = sec(t); }
    if (g.chance(2, 3)) { int su = g.draw(1001); a.put(CD2_SUS, su); E.sus = su / 1000.0; } if (g.chance(2, 3)) { int t = tc(); a.put(CD2_REL, t); E.rel = sec(t); } }
  a.put(CD_REL, 1800); noise(g, a); DWave w = sineWave(32, 12000, 32); DWsmp m = w.w; int shift = g.range(-300, 300); double st = kp * (double)key / 128 + tune; int root = std::min(127, std::max(0, (int)std::lround((st - shift) / 100))); m.unity = root; m.fine = g.range(-50, 50); double base = st - root * 100 + m.fine;
  // the wave plays 'base' cents from its own pitch: keep the sum within two octaves
  if (std::fabs(base) > 900) throw Discard();
  Bytes enc = place(g, c, a, w, m); int off = 20 + g.draw(300), blocks = off + 20 + g.draw(60); auto c1 = steps(g, blocks), cp = steps(g, blocks); Pcm p = playNote(c, enc, key, vel, off, blocks, c1, cp);
  double bs = BLKMS() / 1000, f0 = RATE() / 32.0; double lo = 1e9, hi = -1e9; long used = 0;
  for (int b = 0; b < blocks; b++) { double am, f = freqOf(p, b, &am); if (am < 1500) { REQUIRE(b >= off + 40, "block %d: amplitude %.0f", b, am); continue; } double cents = 1200 * std::log2(std::max(1.0, f) / f0); double mn = 1e9, mx = -1e9; double t0 = (b + 0.5) * bs; lo = std::min(lo, cents); hi = std::max(hi, cents); used++;
    auto range = [&](const std::function<double(double sc, double sh, double s2, double k)>& f) { double x = 1e9, y = -1e9; for (double sc : {0.985, 1.0, 1.015}) for (double sh = -4.5; sh <= 4.51; sh += 0.25) for (double s2 : {-1.0, 0.0, 1.0}) for (double k : {1.0, 1.02, 1.045, 1.065}) { double v = f(sc, sh * bs, s2 * bs, k); x = std::min(x, v); y = std::max(y, v); } mn += x; mx += y; };
    mn = mx = base; auto lfo = [&](const Depth& d, const Lfo& l) { if (d.sum()) range([&](double sc, double sh, double s2, double k) { return d.at(stepAt(c1, t0 + s2), stepAt(cp, t0 + s2)) * l.at(std::max(0.0, t0 + sh + t0 * (sc - 1) * 0.4), k); }); }; lfo(md, ml); lfo(vd, vl);
    if (eg) range([&](double sc, double sh, double s2, double k) { return eg * E.at(std::max(0.0, t0 + sh) * sc, off * bs * sc + s2, k); });
    double tol = 8 + 0.015 * (md.sum() + vd.sum() + std::abs(eg)); if (cents < mn - tol || cents > mx + tol) fail(fmt("block %d (%.3f s): pitch %.1f cents from the wave's, expected %.1f..%.1f", b, t0, cents, mn, mx)); }
  c.nontrivial = hi - lo > 30 || tune || kp != 12800; c.label("pitch"); if (md.sum()) c.label("modulation LFO"); if (vd.sum()) c.label("vibrato LFO"); if (eg) c.label("envelope 2"); if (kp != 12800) c.label("key to pitch"); }
static double dcFull() { static double v = 0; if (v) return v; Art a; a.put(CD_REL, -32768); Dls d; d.waves.push_back(dcWave(18000)); DIns n; n.art = a.a; DRgn r; n.r.push_back(r); d.ins.push_back(n); Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mNoteOn(0, 60, 127)})); Pcm p = e.render(4); return v = levelOf(p, 3).l; }
static void tremolo(Gen& g, Ctx& c) {
  Art a; Lfo ml; Depth md; lfoParams(g, a, ml, CD_LFOF, CD_LFOD); depth(g, a, md, CD_GAIN, CS_LFO, 60); int vel = g.flip() ? 127 : g.range(40, 127), vg = -1; if (g.chance(1, 3)) a.put(CD_GAIN, vg = g.flip() ? 0 : 960, CS_VEL); noise(g, a); a.put(CD_REL, -32768);
  DWave w = dcWave(18000); DWsmp m = w.w; int att = g.chance(1, 4) ? g.draw(60) : g.range(60, 200); m.gain = -att * 65536; Bytes enc = place(g, c, a, w, m); int blocks = 40 + g.draw(260); auto c1 = steps(g, blocks), cp = steps(g, blocks); Pcm p = playNote(c, enc, g.range(0, 127), vel, blocks, blocks, c1, cp);
  double bs = BLKMS() / 1000, full = dcFull() * (vg == 0 ? 1 : vel * vel / 127.0 / 127.0); double lo = 1e9, hi = -1e9;
  for (int b = 0; b < blocks; b++) { double l = levelOf(p, b).l, mn = 1e9, mx = -1e9, t0 = (b + 0.5) * bs; for (double sc : {0.994, 1.0, 1.006}) for (double sh = -3; sh <= 3.01; sh += 0.25) for (double s2 : {-1.0, 0.0, 1.0}) for (double k : {1.0, 1.02, 1.045, 1.065}) { double tc = t0 + s2 * bs; double v = -att + md.at(stepAt(c1, tc), stepAt(cp, tc)) * ml.at(std::max(0.0, t0 * sc + sh * bs), k); v = std::min(v, 0.0); mn = std::min(mn, v); mx = std::max(mx, v); }
    double tol = 9 + 0.03 * md.sum(); double l0 = full * std::pow(10, (mn - tol) / 200) - 20, l1 = full * std::pow(10, (mx + tol) / 200) + 20; lo = std::min(lo, l); hi = std::max(hi, l); if (l < l0 || l > l1) fail(fmt("block %d (%.3f s): level %.0f (%.1f dB), expected %.0f..%.0f", b, t0, l, 20 * std::log10(std::max(1.0, l) / full), l0, l1)); }
  c.nontrivial = hi > lo * 1.1 || vg == 0; c.label("tremolo"); }
static void pan(Gen& g, Ctx& c) {
  int v = g.range(-500, 500), cc = g.flip() ? 64 : (int)g.draw(128); Art a; a.put(CD_PAN, v); noise(g, a); a.put(CD_REL, -32768); DWave w = dcWave(18000); Bytes enc = place(g, c, a, w, w.w); Pcm p = playNote(c, enc, 60, 127, 9, 4, {}, {}, mCC(0, 10, cc)); LR x = levelOf(p, 3);
  double pos = std::min(63.0, std::max(-63.0, cc - 64 + v * 63 / 500.0)); auto law = [&](double q) { double th = (q + 63) / 126 * M_PI / 2; return LR{std::cos(th), std::sin(th)}; }; double top = dcFull() * std::sqrt(2.0); LR y = law(pos); c.say("pan %d cc10 %d -> %.1f: %g %g (law %g %g)\n", v, cc, pos, x.l, x.r, top * y.l, top * y.r);
  if (std::fabs(x.l - top * y.l) > top * 0.06 || std::fabs(x.r - top * y.r) > top * 0.06) fail(fmt("pan %d (0.1%%) with channel pan %d: %g left, %g right, expected %.0f and %.0f", v, cc, x.l, x.r, top * y.l, top * y.r)); c.nontrivial = std::fabs(pos) > 2; c.label("pan"); }
static int fcOf(double hz) { return (int)std::lround(6900 + 1200 * std::log2(hz / 440)); }
static double rms(const Pcm& p, int b0, int b1) { double s = 0; int n = 0; for (int i = b0 * BLK(); i < b1 * BLK(); i++, n++) s += (double)p[2 * i] * p[2 * i]; return std::sqrt(2 * s / n); }
static void tone(Gen& g, Ctx& c) {
  int key = g.range(0, 127), vel = g.range(60, 127); double hz = 800 * std::pow(2, g.draw(1000) / 1000.0 * 2.3); int fc = fcOf(hz), q = g.flip() ? 0 : g.draw(200); double per = 64;
  auto wave = [&](double f, DWsmp& m) { DWave w = sineWave(per, 12000, 8); double cents = 1200 * std::log2(f * per / RATE()); int k = (int)std::lround(cents / 100); m = w.w; m.unity = key; m.fine = 0; (void)k; return std::make_pair(w, cents); };
  // one collection = one art; the wave is tuned to frequency f with a tuning connection
  auto play = [&](Art a, double f, int mod, int cp, int blocks, bool show) { DWsmp m; auto wc = wave(f, m); double cents = wc.second; a.put(CD_PITCH, (int)std::lround(cents)); a.put(CD_REL, -32768); Dls d; d.waves.push_back(wc.first); DIns n; n.art = a.a; DRgn r; r.w = m; n.r.push_back(r); d.ins.push_back(n); if (show) describe(c, d); Eng e; MemFile mf(encDls(d)); REQUIRE(e.loadDLS(mf) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.write(s, cat({mCC(0, 1, mod), Bytes{0xd0, (uint8_t)cp}, mNoteOn(0, key, vel)})); return e.render(blocks); };
  auto fixedArt = [&](int f) { Art a; a.put(CD_FC, f); if (q) a.put(CD_Q, q); return a; };
  int kind = g.draw(3); c.say("key %d vel %d cutoff %.0f Hz Q %.1f dB kind %d\n", key, vel, hz, q / 10.0, kind);
  if (kind == 0) { double r = g.pick({0.125, 0.25, 1.0, 2.0, 3.0}); Art none; double f = hz * r; if (f > 12000) { r = 0.25; f = hz * r; } double dry = rms(play(none, f, 0, 0, 14, false), 4, 14), wet = rms(play(fixedArt(fc), f, 0, 0, 14, true), 4, 14), db = 20 * std::log10(std::max(0.5, wet) / dry), Q = q / 10.0; c.say("%.0f Hz: %.1f dB\n", f, db); double l0, l1;
    if (r < 0.3) { l0 = -Q / 2 - 1.6; l1 = -Q / 2 + 1.6; } else if (r == 1) { l0 = -5 + std::min(Q / 4, 0.0); l1 = 4.5; } else { double want = -40 * std::log10(r) - Q / 2; l0 = want - 4; l1 = want + 4.5; } if (db < l0 || db > l1) fail(fmt("sine of %.0f Hz through a filter at %.0f Hz, Q %.1f dB: %.1f dB, expected %.1f..%.1f", f, hz, Q, db, l0, l1)); c.label("response"); }
  else if (kind == 1) { // a constant contribution equals a shifted cutoff
    int mod = 0, cp = 0, d = g.range(-1200, 1200); double eff = d; Art a; int k = g.draw(4); int fcA = fc; if (k == 0) { eff = d * vel / 128.0; a.put(CD_FC, d, CS_VEL); } else if (k == 1) { eff = d * key / 128.0; a.put(CD_FC, d, CS_KEY); } else if (k == 2) { a.put(CD_FC, d, CS_EG2); if (g.flip()) { int su = g.draw(1001); a.put(CD2_DEC, -9000); a.put(CD2_SUS, su); eff = d * su / 1000.0; } } else { mod = g.draw(128); cp = g.draw(128); a.put(CD_FC, 0, CS_LFO, CS_CC1); a.put(CD_PITCH, 0, CS_LFO); eff = 0; }
    if (hz * std::pow(2, eff / 1200) > 8000 || hz * std::pow(2, eff / 1200) < 700) throw Discard(); a.put(CD_FC, fcA); if (q) a.put(CD_Q, q); double f = hz * g.pick({0.5, 1.0, 2.0}); if (f > 12000) f = hz; double x = rms(play(a, f, mod, cp, 16, true), 6, 16), y = rms(play(fixedArt(fc + (int)std::lround(eff)), f, 0, 0, 16, false), 6, 16), z = rms(play(fixedArt(fc), f, 0, 0, 16, false), 6, 16); double db = 20 * std::log10(std::max(1.0, x) / std::max(1.0, y)); c.say("shift %.0f cents: %.0f vs %.0f (unshifted %.0f)\n", eff, x, y, z); if (std::fabs(db) > 0.35 && std::fabs(x - y) > 12) fail(fmt("cutoff moved by %.0f cents: level %.0f, with that cutoff %.0f", eff, x, y)); c.label("cutoff shift"); }
  else { // the LFO sweeps the cutoff between the extremes
    Art a; Lfo l; Depth md; lfoParams(g, a, l, CD_LFOF, CD_LFOD, true); depth(g, a, md, CD_FC, CS_LFO, 500); a.put(CD_FC, fc); if (q) a.put(CD_Q, q); int mod = g.draw(128), cp = g.draw(128); double D = md.at(mod, cp), f = std::min(12000.0, hz * 2); int blocks = (int)((l.delay + 1.3 / l.f) * 1000 / BLKMS()) + 4; Pcm p = play(a, f, mod, cp, blocks, true); double mx = 0, mn = 1e9; for (int b = 4; b < blocks; b++) { double v = rms(p, b, b + 1); mx = std::max(mx, v); mn = std::min(mn, v); }
    double hiFc = fc + std::fabs(D), loFc = fc - std::fabs(D); if (hiFc > fcOf(8500) || loFc < fcOf(700)) throw Discard(); double H = rms(play(fixedArt((int)std::lround(hiFc)), f, 0, 0, 12, false), 4, 12), L = rms(play(fixedArt((int)std::lround(loFc)), f, 0, 0, 12, false), 4, 12); c.say("LFO %.2f Hz depth %.0f: %.0f..%.0f, static %.0f..%.0f\n", l.f, D, mn, mx, L, H); if (mx < H * 0.86 - 20 || mx > H * 1.1 + 20 || mn < L * 0.7 - 25 || mn > L * 1.18 + 20) fail(fmt("cutoff swept by %.0f cents: level %.0f..%.0f, expected %.0f..%.0f", D, mn, mx, L, H)); c.nontrivial = std::fabs(D) > 100; c.label("cutoff sweep"); return; }
  c.nontrivial = true; }
static void l04(Gen& g, Ctx& c) { switch (g.weighted({5, 3, 1, 3})) { case 0: pitch(g, c); break; case 1: tremolo(g, c); break; case 2: pan(g, c); break; default: tone(g, c); } }
static Reg r("L04", l04, "random articulation connections (LFOs, second envelope, tuning, key scaling, pan, filter; at instrument or region level, with connections the engine must ignore) on sine and constant waves, mod wheel and channel pressure moving: pitch and level of every block vs. a model of the articulation, filter response vs. a 12 dB/octave resonant low-pass, moving cutoffs vs. fixed ones; non-trivial: the pitch moves by 30 cents or is scaled, the level swings by 10%, the pan is off centre, or the filter is on", 300000, 10000000, 20);
