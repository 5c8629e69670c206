// E02: reverb and chorus: wet part scales with its level on an intact dry signal, is bounded, decays, treats signals linearly; chorus delay law.
#include "eng.h"
#include "music.h"
#include "dc.h"
static const int RV = 2, CH = 3;
static void set(Eng& e, int m, int p, long v) { EAS_RESULT r = EAS_SetParameter(e.h, m, p, v); REQUIRE(r == EAS_SUCCESS, "EAS_SetParameter(%d,%d,%ld): %ld", m, p, v, (long)r); }
static int sat(long v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (int)v; }
struct Rec { std::vector<std::pair<int, Bytes>> w; int blocks; };   // block -> bytes
static Rec genRec(Gen& g, const std::vector<int>& chans, int blocks, int per) { Rec r; r.blocks = blocks; MusicOpts o; o.chans = chans; o.modes = false; MusicGen mg(o); int n = 4 + g.draw(per); std::vector<int> at; for (int i = 0; i < n; i++) at.push_back(g.draw(std::max(1, blocks - 4))); at[0] = 0; std::sort(at.begin(), at.end()); for (int b : at) { Bytes x; int q = 1 + g.draw(3); for (int i = 0; i < q; i++) app(x, mg.next(g)); r.w.push_back({b, x}); } return r; }
static void play(Eng& e, EAS_HANDLE s, const Rec& r, Pcm& out, const std::function<void(int)>& at = nullptr) { size_t k = 0; for (int b = 0; b < r.blocks; b++) { while (k < r.w.size() && r.w[k].first == b) e.write(s, r.w[k++].second); if (at) at(b); e.render(out); } }
static void on(Eng& e, int mod, int preset) { set(e, mod, 1, preset); set(e, mod, 0, 0); }
// (a) the wet part is proportional to its level, the dry part intact
static void scaling(Gen& g, Ctx& c, bool chorus) {
  int preset = g.draw(4), blocks = 30 + g.draw(60), en = g.draw(12); Rec r = genRec(g, genChans(g), blocks, 20); Eng d, u, e; EAS_HANDLE sd = d.live(), su = u.live(), se = e.live();
  long vol = 100 - g.draw(40); for (Eng* x : {&d, &u, &e}) EAS_SetVolume(x->h, nullptr, vol);
  int mod = chorus ? CH : RV, lp = chorus ? (int)EAS_PARAM_CHORUS_LEVEL : (int)EAS_PARAM_REVERB_WET; long unit = chorus ? 32767 : 16384;
  std::map<int, long> lev; lev[en] = g.edge(1, 32767); int ch = g.draw(4); for (int i = 0; i < ch; i++) lev[en + g.draw(blocks)] = g.edge(chorus ? 1 : 0, 32767);
  long rate = g.range(10, 50), depth = g.range(15, 60); bool rd = chorus && g.flip();
  Pcm pd, pu, pe; play(d, sd, r, pd);
  auto start = [&](Eng& x, long l) { on(x, mod, preset); if (!chorus) set(x, RV, EAS_PARAM_REVERB_DRY, 0); if (rd) { set(x, CH, EAS_PARAM_CHORUS_RATE, rate); set(x, CH, EAS_PARAM_CHORUS_DEPTH, depth); } set(x, mod, lp, l); };
  play(u, su, r, pu, [&](int b) { if (b == en) start(u, unit); });
  play(e, se, r, pe, [&](int b) { if (b == en) start(e, lev[en]); else if (b > en && lev.count(b)) set(e, mod, lp, lev[b]); });
  c.say("%s preset %d enabled at %d, levels:", chorus ? "chorus" : "reverb", preset, en); for (auto& l : lev) c.say(" %d:%ld", l.first, l.second); c.say("\n");
  long cur = 0; int wetPk = 0; size_t w = BLK() * 2;
  for (int b = 0; b < blocks; b++) { if (lev.count(b) && b >= en) cur = lev[b];
    for (size_t i = b * w; i < (b + 1) * w; i++) {
      if (b < en) { REQUIRE(pe[i] == pd[i] && pu[i] == pd[i], "before the effect is enabled sample %zu is %d instead of %d", i, pe[i], pd[i]); continue; }
      if (std::abs((int)pu[i]) >= 32767) continue;   // the unit-level wet signal is not known here
      long ws = pu[i] - pd[i]; wetPk = std::max<int>(wetPk, std::labs(ws)); double x = (double)ws * cur / unit; long lo = sat(pd[i] + (long)std::floor(x - 2.01)), hi = sat(pd[i] + (long)std::ceil(x + 2.01));
      if (cur == 0) lo = hi = pd[i];
      REQUIRE(pe[i] >= lo && pe[i] <= hi, "%s level %ld: block %d sample %zu: dry %d, wet at unit level %ld, output %d not in %ld..%ld", chorus ? "chorus" : "reverb", cur, b, i, pd[i], ws, pe[i], lo, hi); } }
  c.nontrivial = wetPk > 60; c.label(chorus ? "chorus scaling" : "reverb scaling");
}
// (b) after the music has stopped the wet part dies away (at once beyond the longest delay for the chorus)
static void decay(Gen& g, Ctx& c, bool chorus) {
  int preset = g.draw(4), blocks = 20 + g.draw(100); Rec r = genRec(g, genChans(g), blocks, 60); Eng e, d; EAS_HANDLE s = e.live(), sd = d.live();
  if (g.flip()) { Bytes loud; for (int k = 0; k < 16; k++) app(loud, mNoteOn(0, 36 + 3 * k, 127)); r.w[0].second.insert(r.w[0].second.end(), loud.begin(), loud.end()); }
  on(e, chorus ? CH : RV, preset); if (chorus) { set(e, CH, EAS_PARAM_CHORUS_DEPTH, g.range(15, 60)); set(e, CH, EAS_PARAM_CHORUS_RATE, g.range(10, 50)); }
  Pcm p, q; play(e, s, r, p); play(d, sd, r, q); int pk = peak(p); c.say("%s preset %d, %d blocks of music\n", chorus ? "chorus" : "reverb", preset, blocks);
  e.closeLive(s); d.closeLive(sd);
  Pcm dq; d.render(dq, 40); int last = -1; for (size_t i = 0; i < dq.size(); i++) if (dq[i]) last = (int)(i / 2);
  int quiet = (last + BLK()) / BLK();
  REQUIRE(quiet < 20, "dry music goes on for %d blocks after its stream was closed", quiet);
  if (chorus) { int dl = (int)std::ceil(0.0135 * RATE()); Pcm z; e.render(z, quiet + dl / BLK() + 20);
    for (size_t i = 0; i < z.size(); i++) if ((int)(i / 2) > last + dl) REQUIRE(z[i] == 0, "chorus still sounds %d samples after the music", (int)(i / 2) - last);
    c.nontrivial = pk > 100; c.label("chorus end"); return; }
  e.skip(quiet); static const double secs[4] = {6.0, 3.5, 3.5, 2.0}; static const int floor_[4] = {110, 50, 50, 30};
  double prev = 1e18; int n = (int)(secs[preset] * RATE() / BLK()); int win = n / 6; for (int i = 0; i < 6; i++) { Pcm z = e.render(win); double en = std::sqrt(energy(z) / z.size()); REQUIRE(en <= prev * 0.95 || en <= floor_[preset], "reverb preset %d does not decay: %g after %g (window %d)", preset, en, prev, i); prev = en; }
  Pcm z = e.render(20); REQUIRE(peak(z) <= floor_[preset], "reverb preset %d still at %d after %g seconds", preset, peak(z), secs[preset]);
  c.nontrivial = pk > 1000; c.label("reverb decay");
}
// (c) responses to two pieces of music superpose (both effects are linear systems whose modulation does not depend on the signal)
static void linear(Gen& g, Ctx& c, bool chorus) {
  int preset = g.draw(4), blocks = 40 + g.draw(60); int a = g.draw(4), b = 4 + g.draw(4); Rec x = genRec(g, {a}, blocks, 12), y = genRec(g, {b}, blocks, 12);
  Pcm o[3], dr[3]; 
  for (int k = 0; k < 3; k++) for (int wet = 0; wet < 2; wet++) { Eng e; if (wet) { on(e, chorus ? CH : RV, preset); set(e, chorus ? CH : RV, chorus ? (int)EAS_PARAM_CHORUS_LEVEL : (int)EAS_PARAM_REVERB_WET, chorus ? 32767 : 16384); }
    EAS_SetVolume(e.h, nullptr, 70); EAS_HANDLE s = e.live(), t = e.live(); size_t i = 0, j = 0; Pcm& out = wet ? o[k] : dr[k];
    for (int bl = 0; bl < blocks; bl++) { while (i < x.w.size() && x.w[i].first == bl) { if (k != 1) e.write(s, x.w[i].second); i++; } while (j < y.w.size() && y.w[j].first == bl) { if (k != 0) e.write(t, y.w[j].second); j++; } e.render(out); } }
  int pk = 0, wp = 0, tol = chorus ? 8 : preset == 0 ? 160 : 90; for (int k = 0; k < 3; k++) pk = std::max({pk, peak(dr[k]), peak(o[k])}); if (pk > 30000) throw Discard{};
  for (size_t i = 0; i < o[0].size(); i++) { REQUIRE(std::abs(dr[2][i] - dr[0][i] - dr[1][i]) <= 4, "dry signals do not add up"); int w0 = o[0][i] - dr[0][i], w1 = o[1][i] - dr[1][i], w2 = o[2][i] - dr[2][i]; wp = std::max({wp, std::abs(w0), std::abs(w1)});
    REQUIRE(std::abs(w2 - w0 - w1) <= tol, "%s preset %d: wet parts %d and %d of two pieces add to %d at frame %zu", chorus ? "chorus" : "reverb", preset, w0, w1, w2, i / 2); }
  c.nontrivial = wp > (chorus ? 100 : 400); c.label(chorus ? "chorus linear" : "reverb linear");
}

// (d) the chorus tap: 10 ms behind, swinging sinusoidally by depth x 0.05 ms at rate x 0.05 Hz, left and right a quarter apart
static void delayLaw(Gen& g, Ctx& c) {
  int N = g.range(16000, 30000); Dls d; { DIns n; n.prog = 0; n.art = basicArt(); DWave w; w.bits = 16; w.rate = RATE(); w.s.resize(N); int dir = g.flip() ? 1 : -1; for (int i = 0; i < N; i++) w.s[i] = (int16_t)(dir * (-12000 + 24000.0 * i / N)); w.w.on = true; w.w.unity = 60; w.w.loop = true; w.w.start = 0; w.w.len = N; DRgn rg; rg.wave = 0; n.r.push_back(rg); d.waves.push_back(w); d.ins.push_back(n); }
  MemFile f(encDls(d)); Eng e, y; REQUIRE(e.loadDLS(f) == EAS_SUCCESS && y.loadDLS(f) == EAS_SUCCESS, "collection refused"); EAS_HANDLE s = e.live(), t = y.live();
  int preset = g.draw(4), depth, rate; if (preset) { set(e, CH, EAS_PARAM_CHORUS_PRESET, preset); } EAS_I32 v = 0;
  if (g.flip()) { depth = g.edge(15, 60); rate = g.edge(10, 50); set(e, CH, EAS_PARAM_CHORUS_DEPTH, depth); set(e, CH, EAS_PARAM_CHORUS_RATE, rate); }
  else { EAS_GetParameter(e.h, CH, EAS_PARAM_CHORUS_DEPTH, &v); depth = (int)v; EAS_GetParameter(e.h, CH, EAS_PARAM_CHORUS_RATE, &v); rate = (int)v; }
  set(e, CH, EAS_PARAM_CHORUS_LEVEL, 32767); set(e, CH, 0, 0); c.say("chorus depth %d rate %d preset %d wave %d\n", depth, rate, preset, N);
  Bytes m = cat({mCC(0, 121, 0), mProg(0, 0), mNoteOn(0, 60, 127)}); e.write(s, m); y.write(t, m);
  double f0 = rate * 0.05; int blocks = (int)(std::max(1.3 / f0, 0.8) * RATE() / BLK()) + 6; Pcm a = e.render(blocks), b = y.render(blocks); REQUIRE(peak(b) > 4000 && peak(a) < 32767, "levels %d %d", peak(b), peak(a));
  double ph[2];
  for (int ch = 0; ch < 2; ch++) {
    std::vector<double> T, D; int maxd = (int)(0.0145 * RATE());
    for (size_t n = 5 * BLK(); n < a.size() / 2; n += 7) { bool jump = false; for (int q = 1; q <= 8 && !jump; q++) { int k0 = maxd * (q - 1) / 8, k1 = maxd * q / 8; if (std::abs(b[2 * (n - k0) + ch] - b[2 * (n - k1) + ch]) > 6000) jump = true; } if (jump) continue;
      double sl = (b[2 * n + ch] - b[2 * (n - maxd) + ch]) / (double)maxd; if (std::fabs(sl) < 0.3) continue; double tap = a[2 * n + ch] - b[2 * n + ch]; T.push_back(n / (double)RATE()); D.push_back((b[2 * n + ch] - tap) / sl); }
    REQUIRE(T.size() > 500, "too few measurements"); double best = 1e18, bf = 0, bA = 0, bm = 0, bp = 0;
    for (double k = 0.90; k <= 1.1001; k += 0.005) { double w = 2 * M_PI * f0 * k; double S[3][4] = {}; for (size_t i = 0; i < T.size(); i++) { double x[3] = {1, std::sin(w * T[i]), std::cos(w * T[i])}; for (int p = 0; p < 3; p++) { for (int q = 0; q < 3; q++) S[p][q] += x[p] * x[q]; S[p][3] += x[p] * D[i]; } }
      for (int p = 0; p < 3; p++) { double z = S[p][p]; for (int q = p; q < 4; q++) S[p][q] /= z; for (int o = 0; o < 3; o++) if (o != p) { double m2 = S[o][p]; for (int q = p; q < 4; q++) S[o][q] -= m2 * S[p][q]; } }
      double res = 0; for (size_t i = 0; i < T.size(); i++) { double q = D[i] - S[0][3] - S[1][3] * std::sin(w * T[i]) - S[2][3] * std::cos(w * T[i]); res += q * q; } res = std::sqrt(res / T.size()); if (res < best) { best = res; bf = k; bA = std::hypot(S[1][3], S[2][3]); bm = S[0][3]; bp = std::atan2(S[2][3], S[1][3]); } }
    double A = depth * 0.05e-3 * RATE(), M = 0.010 * RATE(); c.say("ch %d: mean %.2f amplitude %.2f freq x%.3f residual %.2f phase %.2f\n", ch, bm, bA, bf, best, bp);
    REQUIRE(best < 3.2 + A * 0.03, "chorus rate %d depth %d: tap does not swing as a sine at the set rate: residual %g samples", rate, depth, best);
    REQUIRE(std::fabs(bf - 1) < 0.075, "chorus rate %d: swings at %.3f of the set rate", rate, bf);
    REQUIRE(std::fabs(bA - A) < 1.6 + 0.02 * A, "chorus depth %d: tap swings by %.2f samples instead of %.2f", depth, bA, A);
    REQUIRE(std::fabs(bm - M) < 2, "chorus tap %.2f samples behind on average instead of %.2f", bm, M); ph[ch] = bp; }
  double dp = std::fabs(ph[0] - ph[1]); dp = std::min(dp, 2 * M_PI - dp); REQUIRE(std::fabs(dp - M_PI / 2) < 0.15, "left and right taps %.2f rad apart", dp);
  c.nontrivial = true; c.label("chorus delay");
}
// (d2) on a straight slope the copy moves on by the slope at every frame, but for the swing: no steps, no stray samples
static void smooth(Gen& g, Ctx& c) {
  int N = 2 * g.range(500, 1200), A = g.range(6000, 12000); Dls d; { DIns n; n.prog = 0; n.art = basicArt(); DWave w; w.bits = 16; w.rate = RATE(); w.s.resize(N); for (int i = 0; i < N; i++) w.s[i] = (int16_t)(-A + 2 * A * (i < N / 2 ? i : N - i) / (N / 2)); w.w.on = true; w.w.unity = 60; w.w.loop = true; w.w.start = 0; w.w.len = N; DRgn rg; rg.wave = 0; n.r.push_back(rg); d.waves.push_back(w); d.ins.push_back(n); }
  MemFile f(encDls(d)); Eng e, y; REQUIRE(e.loadDLS(f) == EAS_SUCCESS && y.loadDLS(f) == EAS_SUCCESS, "collection refused"); EAS_HANDLE s = e.live(), t = y.live(); int depth = g.edge(15, 60), rate = g.edge(10, 50); on(e, CH, g.draw(4)); set(e, CH, EAS_PARAM_CHORUS_DEPTH, depth); set(e, CH, EAS_PARAM_CHORUS_RATE, rate); set(e, CH, EAS_PARAM_CHORUS_LEVEL, 32767); c.say("chorus depth %d rate %d triangle of %d samples, amplitude %d\n", depth, rate, N, A);
  Bytes m = cat({mCC(0, 121, 0), mProg(0, 0), mNoteOn(0, 60, 127)}); e.write(s, m); y.write(t, m); int blocks = 20 + g.draw(180); Pcm a = e.render(blocks), b = y.render(blocks); REQUIRE(peak(b) > 1000, "level %d", peak(b)); if (peak(a) > 32700) throw Discard{};
  int lo = (int)((0.010 - depth * 0.05e-3) * RATE()) - 4, hi = (int)((0.010 + depth * 0.05e-3) * RATE()) + 4; double sw = depth * 0.05e-3 * 2 * M_PI * rate * 0.05; long used = 0;
  for (int ch = 0; ch < 2; ch++) for (size_t n = 5 * BLK() + hi; n + 1 < a.size() / 2; n++) { auto B = [&](size_t i) { return (double)b[2 * i + ch]; }; double sl = (B(n - lo) - B(n - hi)) / (hi - lo); if (std::fabs(B(n - (lo + hi) / 2) - (B(n - lo) + B(n - hi)) / 2) > 2 || std::fabs(sl) < 4) continue; used++;
    double step = a[2 * n + 2 + ch] - B(n + 1) - a[2 * n + ch] + B(n), l = 1e9, h = -1e9; for (int k = lo; k <= hi; k++) { double q = B(n + 1 - k) - B(n - k); l = std::min(l, q); h = std::max(h, q); } double x = 3.5 + std::fabs(sl) * (sw + 0.02);
    if (step < l - x || step > h + x) fail(fmt("chorus depth %d rate %d: frame %zu channel %d: the copy steps by %.0f where the music climbs %.0f..%.0f a frame", depth, rate, n, ch, step, l, h)); }
  c.nontrivial = used > 500; c.label("chorus smooth"); }
// (e) what is heard depends on the settings, not on how they were reached: presets via other presets, by parameters, in any order, with or without music before
static void settle(Gen& g, Ctx& c) {
  Eng a, b; bool chorus = g.flip(); int mod = chorus ? CH : RV, p = g.draw(4), blocks = 30 + g.draw(50); Rec r = genRec(g, genChans(g), blocks, 16); EAS_HANDLE sa = a.live(), sb = b.live();
  int n = g.draw(5); c.say("%s preset %d via:", chorus ? "chorus" : "reverb", p); auto junk = [&](Eng& e) { int q = g.draw(chorus ? 5 : 4); if (q == 0) return; long v = q == 1 ? (long)g.draw(4) : chorus && q == 2 ? g.range(10, 50) : chorus && q == 3 ? g.range(15, 60) : (long)g.draw(32768); c.say(" %d=%ld", q, v); set(e, mod, q, v); };
  for (int i = 0; i < n; i++) junk(a); c.say("\n");
  set(b, mod, 1, (p + 1) % 4); set(b, mod, 1, p);
  if (chorus && g.flip()) { // by parameters alone
    for (int q : {2, 3, 4}) { EAS_I32 v = 0; EAS_GetParameter(b.h, CH, q, &v); set(a, CH, q, v); } c.label("by parameters"); }
  else { set(a, mod, 1, (p + 2) % 4); set(a, mod, 1, p); }
  if (g.flip()) { long l = g.edge(1, 32767); int q = chorus ? (int)EAS_PARAM_CHORUS_LEVEL : (int)EAS_PARAM_REVERB_WET; bool first = g.flip(); if (first) { set(a, mod, 0, 0); set(a, mod, q, l); } else { set(a, mod, q, l); set(a, mod, 0, 0); } set(b, mod, q, l); set(b, mod, 0, 0); } else { set(a, mod, 0, 0); set(b, mod, 0, 0); }
  Pcm x, y; play(a, sa, r, x); play(b, sb, r, y); requireSame(x, y, "same effect settings reached in another way");
  for (int q = 0; q < (chorus ? 5 : 4); q++) { EAS_I32 v = 0, w = 0; if (chorus && q == 1) continue; EAS_GetParameter(a.h, mod, q, &v); EAS_GetParameter(b.h, mod, q, &w); REQUIRE(v == w, "parameter %d reads %ld / %ld", q, (long)v, (long)w); }
  c.nontrivial = peak(x) > 200; c.label("settle");
}
// (f) the reverb presets differ as their names say, and sound on both sides whatever side the music is on
static void rooms(Gen& g, Ctx& c) {
  int blocks = 30 + g.draw(30); Rec r = genRec(g, {(int)g.draw(4)}, blocks, 12); int ch = r.w[0].second.empty() ? 0 : 0; (void)ch; double tail[4]; int side = g.draw(3); Bytes pan; for (int q = 0; q < 16; q++) app(pan, mCC(q, 10, side == 0 ? 0 : side == 1 ? 127 : 64));
  for (int p = 0; p < 4; p++) { Eng e, d; on(e, RV, p); set(e, RV, EAS_PARAM_REVERB_WET, 16384); EAS_HANDLE s = e.live(), t = d.live(); Rec q = r; q.w.insert(q.w.begin(), {0, cat({pan, mCC(0, 121, 0)})});
    for (size_t i = 1; i < q.w.size(); i++) { auto& b = q.w[i].second; for (size_t k = 0; k + 2 < b.size();) { int l = msgLen(b[k]); if ((b[k] & 0xF0) == 0xB0 && b[k + 1] == 10) b[k + 1] = 3; k += l; } }
    Pcm x, y; play(e, s, q, x); play(d, t, q, y); if (peak(y) > 30000 || peak(x) > 32000) throw Discard{}; e.closeLive(s); d.closeLive(t); e.render(x, 10); d.render(y, 10);
    double el = 0, er = 0, dl = 0, dr = 0; for (size_t i = 0; i < x.size(); i += 2) { el += std::pow(x[i] - y[i], 2); er += std::pow(x[i + 1] - y[i + 1], 2); dl += (double)y[i] * y[i]; dr += (double)y[i + 1] * y[i + 1]; }
    if (dl + dr < 1e8) throw Discard{};
    REQUIRE(el + er > 1e-3 * (dl + dr), "reverb preset %d adds almost nothing: %g to %g", p, el + er, dl + dr);
    REQUIRE(el > 0.01 * er && er > 0.01 * el, "reverb preset %d: wet energy %g left, %g right (dry %g / %g)", p, el, er, dl, dr);
    e.skip(50); tail[p] = energy(e.render(40)); c.say("preset %d: wet %g/%g dry %g/%g tail %g\n", p, el, er, dl, dr, tail[p]); }
  c.nontrivial = true; c.label("rooms");
  if (tail[0] < 3e8) throw Discard{};
  REQUIRE(tail[0] > tail[1] * 0.3 && tail[1] > tail[2] * 0.3 && tail[2] > tail[3] * 0.3 && tail[0] > tail[2] * 1.5 && tail[1] > tail[3] * 1.5, "tails of large hall, hall, chamber, room: %g %g %g %g", tail[0], tail[1], tail[2], tail[3]);
}
static void e02(Gen& g, Ctx& c) { switch (g.draw(13)) { case 0: case 1: scaling(g, c, false); break; case 2: scaling(g, c, true); break; case 3: decay(g, c, false); break; case 4: decay(g, c, true); break; case 5: linear(g, c, false); break; case 6: linear(g, c, true); break; case 7: case 8: delayLaw(g, c); break; case 9: case 10: settle(g, c); break; case 11: smooth(g, c); break; default: rooms(g, c); } }
static Reg r("E02", e02, "random music through reverb or chorus, captured beside the same music dry: wet part at random and changing levels vs. unit level; decay after the end; superposition of two pieces; chorus delay, swing and rate measured on ramps, its copy free of steps; equal settings reached differently; presets and sides of the reverb; non-trivial: the wet part is audible", 15000, 1000000, 20, 30);
