#include "../dc.h"
// L01: downloaded waves: exact shape at octave ratios, measured speed at any ratio, EG1 in time.
struct V { int wave, key, vel, start; long inc; DWsmp w; double K = 0; std::vector<float> C; };
static const std::vector<float>& dcCurve(int gain, int vel) { static std::map<std::pair<int, int>, std::vector<float>> memo; auto k = std::make_pair(gain, vel); auto it = memo.find(k); if (it != memo.end()) return it->second; if (memo.size() > 4000) memo.clear(); Dls d; d.waves.push_back(dcWave(20000)); DIns n; n.art = basicArt(); DRgn r; r.w.on = true; r.w.gain = gain; r.w.loop = true; r.w.len = 16; n.r.push_back(r); d.ins.push_back(n); Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mNoteOn(0, 60, vel)})); Pcm p = e.render(3); std::vector<float> v; for (int i = 0; i < 3 * BLK(); i++) v.push_back(p[2 * i] / 20000.0f); return memo[k] = v; }
static double dcLevel(int gain, int vel) { return dcCurve(gain, vel).back(); }
// expected interpolated value of output sample n of a voice (false: voice has ended)
static bool valueAt(const DWave& w, const V& v, long n, double& out, double& slack) {
  long N = w.s.size(), le = v.w.loop ? (long)v.w.start + v.w.len : N; auto raw = [&](long i) { return w.bits == 16 ? (double)w.s[i] : (w.s[i] - 128) * 256.0; };
  auto S = [&](long k) { return v.w.loop ? raw(k >= le ? v.w.start + (k - v.w.start) % v.w.len : k) : k < N ? raw(k) : 0.0; };
  long ph = n * v.inc, i = ph >> 15; double f = (ph & 32767) / 32768.0; slack = 0; double u = v.inc == 32768 ? 0 : n * (v.inc / 32768.0) * 0.0006 + 0.001; if (u > 30) { out = 0; slack = 1e9; return true; }   // speed other than 1 is accurate to a cent
  long back = 1 + ((v.inc + 32767) >> 15) + (long)std::ceil(u); if (!v.w.loop && i >= N + 1 + (long)std::ceil(u)) return false; double a = S(i), b = S(i + 1); out = a + (b - a) * f;
  if (u > 0) { double var = 0; for (long k = std::max(0L, i - (long)std::ceil(u)); k <= i + (long)std::ceil(u); k++) var = std::max(var, std::fabs(S(k + 1) - S(k))); slack = var * u; }
  if (!v.w.loop && i >= N - 1 - back) for (long k = std::max(0L, N - 2 - back); k < N; k++) slack = std::max(slack, std::fabs(S(k)) + std::fabs(out));
  return true; }
static void shape(Gen& g, Ctx& c) {
  int nv = 1 + g.draw(3), nw = 1 + g.draw(4); Dls d; for (int i = 0; i < nw; i++) { DWave w; w.bits = g.pick({8, 16, 16}); w.rate = g.pick({(int)RATE(), (int)RATE(), (int)RATE() / 2, (int)RATE() * 2}); int n = g.chance(1, 5) ? g.range(4, 12) : g.range(8, 3000); int A = 18000 / nv, hold = g.pick({1, 1, 3, 17}); int kind = g.draw(3); int seed = g.draw(1 << 20); uint32_t x = seed * 2654435761u + 1;
    for (int k = 0; k < n; k++) { int v; if (kind == 0) { if (k % hold == 0) x = x * 1664525 + 1013904223; v = (int)((x >> 8) % (2 * A + 1)) - A; } else if (kind == 1) v = (int)std::lround(A * std::sin(k * (0.01 + (seed % 97) * 0.01))); else v = (k * (seed % 900 + 10)) % (2 * A) - A; w.s.push_back(w.bits == 16 ? v : 128 + v / 256); }
    auto ws = [&](int N) { DWsmp m; m.on = true; m.unity = g.chance(1, 3) ? g.range(0, 127) : g.chance(1, 9) ? (int)g.pick({0, 127}) : g.range(40, 84); m.gain = -(int)g.draw(g.flip() ? 1 : 150) * 65536; m.loop = g.flip(); if (m.loop) { m.start = g.flip() ? 0 : g.draw(N - 2); m.len = g.flip() ? N - m.start : 2 + g.draw(N - m.start - 1); } return m; };
    if (g.chance(3, 4)) w.w = ws(n); d.waves.push_back(w); int nr = 1 + g.draw(2); DIns q; q.prog = i; q.art = basicArt(); DRgn r; r.wave = i; r.opts = 1; if (g.flip()) r.w = ws(n); if (nr == 2) { r.velHi = 99; DRgn r2; r2.wave = g.draw(i + 1); r2.opts = 1; r2.velLo = 100; if (g.flip()) r2.w = ws((int)d.waves[r2.wave].s.size()); q.r.push_back(r); q.r.push_back(r2); } else q.r.push_back(r); d.ins.push_back(q); }
  describe(c, d); std::vector<V> vs; int blk = 1, off = 0; Hist h; h.ev.push_back({0, sysMasterVol(16383)});
  for (int i = 0; i < nv; i++) { int in = g.draw(nw); V v; v.vel = g.flip() ? 127 : g.range(60, 127); auto& q = d.ins[in]; auto& r = q.r.size() == 2 && v.vel >= 100 ? q.r[1] : q.r[0]; v.wave = r.wave; auto& w = d.waves[v.wave]; v.w = r.w.on ? r.w : w.w.on ? w.w : DWsmp(); int oct = w.rate == (uint32_t)RATE() ? 0 : w.rate == (uint32_t)RATE() / 2 ? -1 : 1; int k = g.pick({0, 0, -1, 1, 2, -2, 1, 3}); v.key = v.w.unity + 12 * k; while (v.key > 127) { v.key -= 12; k--; } while (v.key < 0) { v.key += 12; k++; } int o = k + oct; v.inc = o >= 0 ? 32768L << o : 32768L >> -o; v.start = blk; v.C = dcCurve(v.w.gain, v.vel); v.K = v.C.back(); int ch = i; h.ev.push_back({blk, cat({mProg(ch, in), mNoteOn(ch, v.key, v.vel)})}); vs.push_back(v); c.say("voice at block %d channel %d instrument %d wave %d key %d vel %d step %g loop %d %u+%u K %.4f\n", blk, ch, in, v.wave, v.key, v.vel, v.inc / 32768.0, v.w.loop, v.w.start, v.w.len, v.K); blk += g.chance(1, 3) ? 0 : g.draw(4); 
    double k0 = dcLevel(0, 127), law = std::pow(10, v.w.gain / 65536 / 200.0) * v.vel * v.vel / 127.0 / 127.0; if (std::fabs(v.K / k0 - law) > 0.075 * law + 0.0005) fail(fmt("attenuation %d/10 dB at velocity %d: level %.4f of full, expected %.4f", -v.w.gain / 65536, v.vel, v.K / k0, law)); }
  off = blk + 2 + g.draw(30); h.blocks = off; Eng e; MemFile f(encDls(d, &g)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); Pcm p; playHist(e, s, h, p);
  int loops = 0, ended = 0; for (auto& v : vs) loops += v.w.loop; double worst = 0;
  for (long n = 0; n < (long)off * BLK(); n++) { double x = 0, slack = 0; for (auto& v : vs) { long m = n - (long)v.start * BLK(); if (m < 0) continue; double o, sl; if (valueAt(d.waves[v.wave], v, m, o, sl)) { double k = v.C[std::min<long>(m, v.C.size() - 1)]; x += k * o; slack += k * sl; } else ended++; }
    for (int ch = 0; ch < 2; ch++) { double err = std::fabs(p[2 * n + ch] - x); if (err > 24.0 + 12 * nv + slack + std::fabs(x) * 0.002) fail(fmt("frame %ld (block %ld): %d, expected %.0f", n, n / BLK(), p[2 * n + ch], x)); worst = std::max(worst, err - slack); } }
  c.nontrivial = loops || ended; c.label("shape"); c.label("looped voices", loops); if (ended) c.label("wave ended"); }
static void speed(Gen& g, Ctx& c) {
  int L = 2000, step = 16; Dls d; DWave w; w.rate = g.flip() ? (int)g.pick({8000, 11025, 22050, 32000, 44100, 48000, 96000}) : g.range(6000, 96000); for (int i = 0; i < L; i++) w.s.push_back(-16000 + i * step); w.w.on = g.chance(3, 4); w.w.unity = g.chance(1, 8) ? (int)g.pick({0, 1, 126, 127}) : g.range(0, 127); w.w.fine = g.chance(1, 4) ? g.range(-1250, 1250) : g.range(-100, 100); w.w.loop = g.chance(1, 3); w.w.len = L; DRgn r; if (g.flip()) { r.w.on = true; r.w.unity = g.chance(1, 8) ? (int)g.pick({0, 1, 126, 127}) : g.range(0, 127); r.w.fine = g.chance(1, 4) ? g.range(-1250, 1250) : g.range(-100, 100); r.w.loop = g.chance(1, 3); r.w.len = L; } DWsmp m = r.w.on ? r.w : w.w.on ? w.w : DWsmp(); d.waves.push_back(w); DIns q; q.art = basicArt(); q.r.push_back(r); d.ins.push_back(q); describe(c, d);
  double base = 1200 * std::log2(w.rate / (double)RATE()); int lo = std::max(0, (int)std::ceil(m.unity - (3000 + base) / 100)), hi = std::min(127, (int)std::floor(m.unity + (3000 - base) / 100)); if (lo > hi) throw Discard(); int key = g.range(lo, hi); double cents = (key - m.unity) * 100 + m.fine + base, inc = std::pow(2, cents / 1200); c.say("key %d: %.1f cents, step %.4f\n", key, cents, inc);
  Eng e; MemFile f(encDls(d, &g)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mNoteOn(3, key, 127)})); double K = dcLevel(0, 127); int blocks = (int)std::ceil((L / inc + 300) / BLK()); if (m.loop) blocks = std::max(blocks, 24); Pcm p = e.render(blocks);
  // first pass of the ramp: position = sample/step
  long n1 = (long)((L - 3) / inc * 0.98) - 2; REQUIRE(n1 > 8, "harness"); double a = (p[2 * n1] / K + 16000) / step, inc1 = a / n1; double cerr = 1200 * std::log2(inc1 / inc); if (std::fabs(cerr) > 4 + 1200 * 1.5 / a) fail(fmt("wave advances %.5f samples per frame, expected %.5f (%.1f cents off)", inc1, inc, cerr));
  for (long n = 0; n < n1; n++) { double want = -16000 + n * inc1 * step; if (std::fabs(p[2 * n] - want * K) > 30 + step * K * (1 + n * 0.0002)) fail(fmt("frame %ld: %d instead of %.0f on a straight ramp", n, p[2 * n], want * K)); }
  if (!m.loop) { long end = (long)(L / inc); for (long n = end + 3 + end / 200; n < (long)blocks * BLK(); n++) if (p[2 * n] || p[2 * n + 1]) fail(fmt("frame %ld: sound after the end of the wave (frame %ld)", n, end)); c.label("one-shot"); }
  else { long wraps = 0, N = (long)blocks * BLK(); bool high = false; for (long n = 1; n < N; n++) { if (p[2 * n] > 6000) high = true; else if (p[2 * n] < -6000 && high) { high = false; wraps++; } } double want = N * inc / L; if (std::fabs(wraps - want) > 1.2 + want * 0.004) fail(fmt("%ld passes of the loop, expected %.1f", wraps, want)); c.label("looped"); }
  c.nontrivial = std::fabs(cents) > 1; c.label("speed"); }
// a wave without loop sounds until its last sample is reached, and no longer
static void length(Gen& g, Ctx& c) {
  Dls d; int N = g.chance(1, 3) ? g.range(4, 40) : g.range(20, 1200); DWave w = dcWave(20000, N); w.w.loop = false; w.w.len = 0; w.rate = g.flip() ? (int)RATE() : (int)g.pick({8000, 11025, 22050, 32000, 48000, 96000}); w.w.unity = g.range(30, 90); w.w.fine = g.flip() ? 0 : g.range(-50, 50); d.waves.push_back(w); DIns q; q.art = basicArt(); DRgn r; q.r.push_back(r); d.ins.push_back(q); describe(c, d); double base = 1200 * std::log2(w.rate / (double)RATE()) + w.w.fine; int key = w.w.unity + g.range(-24, 24) - (int)std::lround(base / 100); if (key < 0 || key > 127) throw Discard(); double cents = (key - w.w.unity) * 100 + base, inc = std::pow(2, cents / 1200); int o = (int)std::lround(cents / 1200); bool exact = std::fabs(cents - 1200 * o) < 0.01; c.say("%d samples, key %d: step %.4f\n", N, key, inc);
  Eng e; MemFile f(encDls(d, &g)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.skip(g.draw(3)); e.write(s, cat({sysMasterVol(16383), mNoteOn(2, key, 127)})); Pcm p = e.render((int)(N / inc * 1.01 / BLK()) + 3); long n = 0; for (long i = 0; i < (long)p.size() / 2; i++) if (p[2 * i]) n = i + 1;
  double tol = exact ? 0 : 0.0012; if (n < (N - 1) / inc * (1 - tol) - 0.02) fail(fmt("sound for %ld frames of a wave of %.1f", n, (N - 1) / inc)); if (n > (N + 1) / inc * (1 + tol) + 1) fail(fmt("sound for %ld frames of a wave of %.1f", n, N / inc)); c.nontrivial = std::fabs(cents) > 1; c.label("length"); if (exact) c.label("length, octave step"); }
struct Env { double del = 0, att = 0, hold = 0, dec = 0, sus = 0 /*dB*/, rel = 0; };
static double envDb(const Env& E, double t, double off /*<0: none*/, double sc, double sh) { // dB at time t (s)
  auto held = [&](double x) -> double { if (x < E.del * sc) return -200; x -= E.del * sc; if (x < E.att * sc) return 20 * std::log10(std::max(1e-6, x / (E.att * sc))); x -= E.att * sc; if (x < E.hold * sc) return 0; x -= E.hold * sc; double v = E.dec > 0 ? -96 * x / (E.dec * sc) : -200; return std::max(v, E.sus); };
  t += sh; if (off < 0 || t <= off) return t < 0 ? -200 : held(t); double at = held(off); if (E.rel <= 0) return -200; return at - 96 * (t - off) / (E.rel * sc); }
static double tcs(int tc) { return tc == -32768 ? 0 : std::pow(2, tc / 1200.0); }
static void envelope(Gen& g, Ctx& c) {
  Dls d; d.waves.push_back(dcWave(18000)); DIns q; DArt a; a.v2 = g.flip(); Env E; int key = g.range(0, 127), vel = g.range(80, 127); auto tc = [&]() { return g.range(-6600, 1800); }; auto put = [&](int dst, int v) { a.c.push_back(conn(dst, v)); return v; };
  E.rel = tcs(put(CD_REL, g.chance(1, 4) ? -32768 : tc())); if (g.chance(1, 3)) E.del = tcs(put(CD_DEL, g.range(-6600, 0))); if (g.flip()) { int t = put(CD_AT, tc()); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.c.push_back(conn(CD_AT, k, CS_VEL)); t += k * vel / 128; } E.att = tcs(t); }
  if (g.flip()) { int t = put(CD_HOLD, tc()); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.c.push_back(conn(CD_HOLD, k, CS_KEY)); t += k * key / 128; } E.hold = tcs(t); }
  if (g.flip()) { int t = put(CD_DEC, g.range(-3600, 2400)); if (g.chance(1, 3)) { int k = g.range(-1200, 1200); a.c.push_back(conn(CD_DEC, k, CS_KEY)); t += k * key / 128; } E.dec = tcs(t); int su = put(CD_SUS, g.flip() ? g.range(600, 1000) : g.range(0, 1000)); E.sus = -96 * (1 - su / 1000.0); } else if (g.chance(1, 3)) { int su = put(CD_SUS, g.flip() ? g.range(600, 1000) : g.range(0, 1000)); E.sus = -96 * (1 - su / 1000.0); }
  for (size_t i = a.c.size(); i > 1; i--) std::swap(a.c[i - 1], a.c[g.draw(i)]); DRgn r; bool atRegion = g.flip(); if (atRegion) { r.art = a; if (g.flip()) { q.art = basicArt(g.range(-6000, 0)); } } else q.art = a; q.r.push_back(r); d.ins.push_back(q); describe(c, d);
  int off = 1 + (g.flip() ? g.draw(12) : (int)g.draw(200)); int relb = (int)(E.rel / BLKMS() * 1000 * 1.1) + 12; if (relb > 500) relb = 500; c.say("key %d vel %d del %.3f att %.3f hold %.3f dec %.3f sus %.1f dB rel %.3f s, note off at %d\n", key, vel, E.del, E.att, E.hold, E.dec, E.sus, E.rel, off);
  Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mNoteOn(0, key, vel)})); Pcm p = e.render(off); e.write(s, mNoteOff(0, key)); e.render(p, relb); double full = dcLevel(0, vel) * 18000, bs = BLKMS() / 1000, offT = off * bs;
  for (int b = 0; b < off + relb; b++) { double l = levelOf(p, b).l, t = (b + 1) * bs, lmin = 0, lmax = 0; bool ok = false;
    for (int fine = 0; fine < 2 && !ok; fine++) { double lo = 1e9, hi = -1e9; for (double sc = 0.94; sc < 1.061; sc += fine ? 0.01 : 0.06) for (double sh = -3; sh <= 3.01; sh += fine ? 0.1 : 0.25) { double v = envDb(E, t, b >= off ? offT : -1, sc, sh * bs); if (b >= off) { v = std::min(v, 0.0); double w = envDb(E, t + sh * bs, std::max(0.0, offT + sh * bs), sc, 0); lo = std::min(lo, w); hi = std::max(hi, w); for (double s2 : {-2., 2.}) { w = envDb(E, t, std::max(0.0, offT + s2 * bs), sc, sh * bs); lo = std::min(lo, w); hi = std::max(hi, w); } } lo = std::min(lo, v); hi = std::max(hi, v); }
      double sl = 0; if (E.dec > 0) sl = std::max(sl, 96 * bs / E.dec); if (E.rel > 0) sl = std::max(sl, 96 * bs / E.rel); double tol = 1 + 0.14 * sl; lmin = full * std::pow(10, (lo - tol) / 20) - 20; lmax = full * std::pow(10, (hi + tol) / 20) + 20; ok = l >= lmin && l <= lmax; }
    if (!ok) fail(fmt("block %d (%.3f s, note off at block %d): level %.0f (%.1f dB), expected %.0f..%.0f", b, t, off, l, 20 * std::log10(std::max(1.0, l) / full), lmin, lmax)); }
  c.nontrivial = E.att > 0 || E.hold > 0 || E.dec > 0 || E.del > 0 || E.rel > 0.05; c.label("envelope"); }
static void l01(Gen& g, Ctx& c) { switch (g.weighted({5, 3, 4, 2})) { case 0: shape(g, c); break; case 1: speed(g, c); break; case 3: length(g, c); break; default: envelope(g, c); } }
static Reg r("L01", l01, "four kinds of case: arbitrary 8/16-bit waves, loops, region overrides and layouts played by 1..3 overlapping voices, every frame vs. an interpolating model; ramps at arbitrary rates, root keys and tunings, speed and loop count vs. the pitch law; constant waves without loop at arbitrary steps, frames of sound vs. the length of the wave; constant waves with random delay/attack/hold/decay/sustain/release, level of every block vs. an envelope model; non-trivial: a loop or the end of a wave is reached, the pitch is shifted, or a segment has a duration", 300000, 10000000, 20);
