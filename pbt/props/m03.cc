#include "../dc.h"
// M03: amplitude laws of velocity, volume, expression, pan, stream and master volume.
static double sq(double x) { return x * x; }
static int lv(Gen& g) { return g.chance(1, 6) ? g.edge(0, 127) : g.range(20, 127); }
static void laws(Gen& g, Ctx& c) {
  DcKit K(g, 1 + g.draw(4), 1 + g.draw(3), 4000, 64, false); K.calibrate(); describe(c, K.d); bool file = g.chance(1, 4); c.label(file ? "laws, file stream" : "laws, live stream");
  struct N { bool on = false; int key = 0, vel = 0, p = 0; }; N note[16]; int vol[16], ex[16], prog[16]; for (int i = 0; i < 16; i++) { vol[i] = 100; ex[i] = 127; prog[i] = 0; } Hist h; std::vector<std::pair<int, double>> want; int blk = 1, nch = 1 + g.draw(5); std::vector<int> chs; for (int i = 0; i < nch; i++) { int x = g.draw(15); if (x >= 9) x++; chs.push_back(x); }
  int steps = 2 + g.draw(10); for (int s = 0; s < steps; s++) { int m = 1 + g.draw(4); for (int i = 0; i < m; i++) { int ch = g.pick(chs); switch (g.draw(5)) { case 0: vol[ch] = lv(g); h.ev.push_back({blk, mCC(ch, 7, vol[ch])}); break; case 1: ex[ch] = lv(g); h.ev.push_back({blk, mCC(ch, 11, ex[ch])}); break;
        case 2: prog[ch] = g.draw(K.np); h.ev.push_back({blk, mProg(ch, prog[ch])}); break;
        case 3: if (!note[ch].on) { note[ch] = {true, (int)g.draw(128), g.chance(1, 4) ? g.edge(1, 127) : g.range(30, 127), prog[ch]}; h.ev.push_back({blk, mNoteOn(ch, note[ch].key, note[ch].vel)}); break; } [[fallthrough]];
        default: if (note[ch].on) { bool fresh = !h.ev.empty() && false; (void)fresh; bool same = false; for (auto& e : h.ev) if (e.blk == blk && e.b[0] == (0x90 | ch)) same = true; if (!same && g.flip()) { note[ch].on = false; h.ev.push_back({blk, mNoteOff(ch, note[ch].key)}); } } } }
    double w = 0; for (int i = 0; i < 16; i++) if (note[i].on) w += K.lev[note[i].p][K.zone(note[i].key)] * sq(note[i].vel / 127.0) * sq(vol[i] / 100.0) * sq(ex[i] / 127.0); want.push_back({blk + 3, w}); blk += 6; }
  h.blocks = blk; describe(c, h); Eng e; K.load(e); Pcm p;
  if (file) { Hist h2 = h; h2.ev.insert(h2.ev.begin(), {0, sysMasterVol(16383)}); Song s = histSong(h2, blk + 50); MemFile f(encSong(s)); EAS_HANDLE k = e.play(f); e.render(p, blk + 1); e.closeFile(k); } else { EAS_HANDLE s = e.live(); playHist(e, s, h, p); e.closeLive(s); }
  int aud = 0; for (auto& w : want) { double W = w.second; if (std::fabs(W) > 32000) continue; REQUIRE(steady(p, w.first), "output not constant in block %d", w.first); LR x = levelOf(p, w.first); double tol = 30 + std::fabs(W) * 0.01 + 0.003 * 20000; tol = 40 + std::fabs(W) * 0.015; if (std::fabs(W) > 300) aud++;
    if (std::fabs(x.l - W) > tol || std::fabs(x.r - W) > tol) fail(fmt("block %d: level %.0f/%.0f, expected %.0f", w.first, x.l, x.r, W)); }
  c.nontrivial = aud > 1; }
static void pan(Gen& g, Ctx& c) {
  DcKit K(g, 2, 1, 9000, 64, false); K.calibrate(); c.label("pan"); int p1 = g.edge(0, 127), p2 = g.edge(0, 127), vel = g.range(60, 127), ch = g.draw(15); if (ch == 9) ch = 8; int key = g.draw(128); c.say("pans %d %d velocity %d\n", p1, p2, vel);
  auto at = [&](int pan) { Eng e; K.load(e); EAS_HANDLE s = e.live(); e.write(s, cat({mCC(ch, 10, pan), mNoteOn(ch, key, vel)})); Pcm p; e.render(p, 3); return levelOf(p, 2); };
  LR a = at(p1), b = at(p2), m = at(64), n = at(p1 == 0 ? 127 : 128 - p1); double P = m.l * m.l + m.r * m.r, A = a.l * a.l + a.r * a.r, full = std::sqrt(P); c.nontrivial = p1 != 64 && full > 300;
  REQUIRE(std::fabs(m.l - m.r) <= 1, "centre is not in the centre: %g %g", m.l, m.r);
  REQUIRE(std::fabs(A / P - 1) < 0.05, "pan %d: power %.3f of the centre's", p1, A / P);
  REQUIRE(std::fabs(a.l - n.r) <= 8 + 0.01 * full && std::fabs(a.r - n.l) <= 8 + 0.01 * full, "pan %d gives %g/%g, its mirror %g/%g", p1, a.l, a.r, n.l, n.r);
  if (p1 <= p2) REQUIRE(std::fabs(a.l) + 2 >= std::fabs(b.l) && std::fabs(a.r) <= std::fabs(b.r) + 2, "pan %d %g/%g, pan %d %g/%g", p1, a.l, a.r, p2, b.l, b.r);
  if (p1 <= 1) REQUIRE(std::fabs(a.r) < 0.03 * full + 2, "hard left leaks: %g/%g", a.l, a.r); if (p1 >= 127) REQUIRE(std::fabs(a.l) < 0.03 * full + 2, "hard right leaks: %g/%g", a.l, a.r);
  if (p1 >= 74) REQUIRE(std::fabs(a.r) > std::fabs(a.l) * 1.1, "pan %d does not move right: %g/%g", p1, a.l, a.r); if (p1 <= 54) REQUIRE(std::fabs(a.l) > std::fabs(a.r) * 1.1, "pan %d does not move left: %g/%g", p1, a.l, a.r); }
static Pcm playH(const Setup& su, const Hist& h, bool file) { Eng e; su.apply(e); Pcm p; if (file) { Song s = histSong(h, h.blocks + 400); MemFile f(encSong(s)); EAS_HANDLE k = e.play(f); e.render(p, h.blocks + 1); e.closeFile(k); } else { EAS_HANDLE s = e.live(); playHist(e, s, h, p); } return p; }
static void products(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c); HistOpts o; o.m.chans = genChans(g, 4); o.m.smallProgs = su.hasDls; o.m.maxNotes = noteCap(su); Hist a = genHist(g, o), x, y; c.label("equal products"); bool file = g.chance(1, 3);
  auto vols = [&](Hist& q, Hist& r, int blk) { for (int ch : o.m.chans) { int u = lv(g), v = lv(g); q.ev.push_back({blk, mCC(ch, 7, u)}); q.ev.push_back({blk, mCC(ch, 11, v)}); r.ev.push_back({blk, mCC(ch, 7, v)}); r.ev.push_back({blk, mCC(ch, 11, u)}); } }; vols(x, y, 0); size_t n = 0; for (auto& e : a.ev) { bool skip = (e.b[0] & 0xF0) == 0xB0 && (e.b[1] == 7 || e.b[1] == 11 || e.b[1] == 121); if (skip) continue; x.ev.push_back(e); y.ev.push_back(e); if (++n % 8 == 0 && g.flip()) vols(x, y, e.blk); } x.blocks = y.blocks = a.blocks; describe(c, x);
  Pcm p = playH(su, x, file), q = playH(su, y, file); c.nontrivial = peak(p) > 50; requireSame(p, q, "volume a with expression b vs volume b with expression a"); }
static void zeros(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c, false); HistOpts o; o.m.chans = genChans(g, 4); o.m.smallProgs = su.hasDls; o.m.maxNotes = noteCap(su); o.resets = 0; Hist a = genHist(g, o), x; x.blocks = a.blocks; describe(c, a); bool file = g.chance(1, 3); int how = g.draw(4), at = g.range(0, a.blocks); c.label(fmt("zero %d", how)); c.say("zero setting %d from block %d\n", how, at);
  bool done = false; auto put = [&]() { if (done) return; done = true; if (how == 2) x.ev.push_back({at, sysMasterVol(0)}); else if (how < 2) for (int ch = 0; ch < 16; ch++) x.ev.push_back({at, mCC(ch, how == 0 ? 7 : 11, 0)}); };
  for (auto& e : a.ev) { if (e.blk >= at) put(); bool cc = (e.b[0] & 0xF0) == 0xB0; if (done && cc && how == 0 && e.b[1] == 7) continue; if (done && cc && how == 1 && (e.b[1] == 11 || e.b[1] == 121)) continue; x.ev.push_back(e); } put(); x.blocks = std::max(x.blocks, at + 6); Pcm p;
  if (how == 3) { Eng e; su.apply(e); EAS_HANDLE s = e.live(); playHist(e, s, x, p, 0, at); REQUIRE(EAS_SetVolume(e.h, nullptr, 0) == EAS_SUCCESS, "volume 0 refused"); playHist(e, s, x, p, at, x.blocks); REQUIRE(allZero(p, (size_t)at * 2 * BLK()), "sound at master volume 0"); c.nontrivial = peak(playH(su, x, false), (size_t)at * 2 * BLK()) > 50; return; }
  p = playH(su, x, file); size_t from = (size_t)(at + (file ? 3 : 2)) * 2 * BLK(); c.nontrivial = peak(playH(su, a, file), std::min(from, p.size())) > 50; REQUIRE(from >= p.size() || allZero(p, from), "sound (%d) although the level is zero", peak(p, from)); }
static void volumes(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c, true, false); bool str = g.flip(); HistOpts o; o.m.chans = genChans(g, 4); o.m.maxNotes = 8; o.m.modes = false; Hist a = genHist(g, o); for (auto& e : a.ev) if ((e.b[0] & 0xF0) == 0xB0 && e.b[1] == 7) e.b[2] = 100; describe(c, a); int v1 = 90, v2 = str ? g.range(75, 100) : g.edge(0, 100), at = g.range(0, a.blocks), n = std::max(a.blocks + 1, at + 6); c.say("%s volume %d -> %d at block %d\n", str ? "stream" : "master", v1, v2, at); su.rev = su.cho = -1; c.label(str ? "stream volume" : "master volume");
  Song s = histSong(a, n + 400); auto run = [&](int v) { Eng e; su.apply(e); MemFile f(encSong(s)); EAS_HANDLE k = e.play(f), t = str ? k : nullptr; Pcm p; REQUIRE(EAS_SetVolume(e.h, t, v1) == EAS_SUCCESS, "volume"); e.render(p, at); for (int bad : {-1, 101, 1000, -100000}) { REQUIRE(EAS_SetVolume(e.h, t, bad) != EAS_SUCCESS, "volume %d accepted", bad); REQUIRE(EAS_GetVolume(e.h, t) == v1, "refused volume changed the setting"); } REQUIRE(EAS_SetVolume(e.h, t, v) == EAS_SUCCESS, "volume %d refused", v); REQUIRE(EAS_GetVolume(e.h, t) == v, "volume %d reads back as %ld", v, (long)EAS_GetVolume(e.h, t)); if (str) { EAS_I32 q = EAS_GetVolume(e.h, nullptr); REQUIRE(q == 90, "stream volume changed the master volume: %ld", (long)q); } e.render(p, n - at); e.closeFile(k); return p; };
  Pcm p = run(v1), q = run(v2); int pk = peak(p); if (pk > 32000 || (v2 > v1 && pk * std::pow(10, (v2 - v1) / 20.0) > 32000)) { c.label("overload"); return; } c.nontrivial = pk > 300; size_t b = (size_t)at * 2 * BLK(); for (size_t i = 0; i < b; i++) if (p[i] != q[i]) fail("volume acts before it is set");
  double r = v2 <= 10 ? 0 : std::pow(10, (v2 - v1) / 20.0); double tol = str ? 60 + 0.01 * pk : 6; for (size_t i = b + (str ? 2 * 2 * BLK() : 0); i < p.size(); i++) { double w = p[i] * r; if (std::fabs(q[i] - w) > tol * std::max(1.0, r) + (str ? 0.07 : 0.03) * std::fabs(w) + (str ? 0 : std::abs(p[i]) * 0.006)) fail(fmt("%s volume %d: frame %zu is %d, expected about %.0f", str ? "stream" : "master", v2, i / 2, q[i], w)); } }
static void m03(Gen& g, Ctx& c) { switch (g.weighted({5, 2, 3, 2, 3})) { case 0: laws(g, c); break; case 1: pan(g, c); break; case 2: products(g, c); break; case 3: zeros(g, c); break; default: volumes(g, c); } }
static Reg r("M03", m03, "constant-wave collections: measured levels under random velocities, volumes, expressions, programs and note overlaps vs. the square laws; pan power/mirror/monotony; volume/expression exchanged (bit-exact); zero settings; master and stream volume steps on live and file streams; non-trivial: at least two audible measured levels, or an audible reference", 200000, 4000000, 20);
