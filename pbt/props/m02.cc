#include "../dc.h"
// M02: pitch.
// frequency from interpolated rising zero crossings (samples of the left channel)
static double freqOf(const Pcm& p, size_t from) { size_t n = p.size() / 2; double first = -1, last = -1; int k = 0; for (size_t i = from + 1; i < n; i++) { int a = p[2 * (i - 1)], b = p[2 * i]; if (a < 0 && b >= 0) { double x = i - 1 + (double)-a / (b - a); if (first < 0) first = x; else k++; last = x; } } return k < 3 ? 0 : k / (last - first); }
struct ChanState { int bend = 8192, range = 2, fine = 64, coarse = 64; int rpn = 0x3FFF; bool nrpn = false; double cents() const { return (bend - 8192) / 8192.0 * range * 100 + ((fine << 7) - 8192) * 100 / 8192.0 + (coarse - 64) * 100; } };
static int gOthers;   // idle streams opened first, so that the one under test takes another slot
static void others(Eng& e) { for (int i = 0; i < gOthers; i++) e.live(); }
static void sine(Gen& g, Ctx& c) {
  int period = 64, unity = g.range(48, 72), fine = g.chance(1, 3) ? g.range(-50, 50) : 0; Dls d; DWave w = sineWave(period, 12000, 8); uint32_t rate = g.pick({(uint32_t)RATE(), (uint32_t)RATE(), 22050u, 11025u}); w.rate = rate; w.w.unity = unity; w.w.fine = fine; d.waves.push_back(w); DIns in; in.art = basicArt(); DRgn r; in.r.push_back(r); d.ins.push_back(in); bool drum = g.chance(1, 5); int ch = drum && g.flip() ? 9 : (int)g.draw(16); bool byBank = drum != (ch == 9); if (drum) { d.ins[0].bank = 0x80000000u; } if (byBank) c.label(drum ? "percussion by bank" : "melodic channel 10 by bank");
  Eng e; others(e); MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); bool file = g.chance(1, 3); c.label(file ? "sine, file" : drum ? "sine, drum" : "sine"); describe(c, d); ChanState st; int tr = 0; double rateCents = 1200 * std::log2((double)rate / RATE()); int steps = 1 + g.draw(8); struct Step { Bytes b; double want; int tr; int key; }; std::vector<Step> S; int key = unity;
  auto total = [&](int k) { return (k - unity) * 100 + rateCents + fine + ((st.bend - 8192) / 8192.0 * st.range * 100) + (drum ? 0 : ((st.fine << 7) - 8192) * 100 / 8192.0 + (st.coarse - 64) * 100 + tr * 100); };
  int moved = 0; bool reset = false;
  for (int i = 0; i < steps; i++) { Step s; bool strike = i == 0 || g.chance(1, 3); int newTr = tr; if (i == 0 && byBank) app(s.b, cat({mCC(ch, 0, drum ? 120 : 121), mProg(ch, 0)}));
    for (int q = g.draw(4); q > 0; q--) switch (g.draw(drum ? 6 : 7)) {
        case 0: case 1: st.bend = g.chance(1, 3) ? g.edge(0, 16383) : g.range(0, 16383); app(s.b, mBend(ch, st.bend)); moved++; break;
        case 2: case 3: { int msb = g.chance(1, 6) ? g.pick({1, 64, 127}) : 0, lsb = g.chance(1, 8) ? g.pick({3, 5, 127}) : drum ? g.draw(2) : g.draw(3); bool two = g.flip(); Bytes x = mCC(ch, 101, msb), y = mCC(ch, 100, lsb); app(s.b, two ? x : y); app(s.b, two ? y : x); int v = lsb == 0 ? g.range(0, 24) : lsb == 1 ? g.draw(128) : g.range(52, 76); app(s.b, mCC(ch, 6, v)); if (g.flip()) app(s.b, mCC(ch, 38, 0)); st.rpn = msb << 7 | lsb; if (st.rpn == 0) st.range = v; if (st.rpn == 1) st.fine = v; if (st.rpn == 2) st.coarse = v; moved++; break; }
        case 4: app(s.b, mCC(ch, g.flip() ? 98 : 99, g.draw(128))); app(s.b, mCC(ch, 6, g.draw(128))); break;
        case 5: if (g.chance(1, 3)) { app(s.b, mCC(ch, 121, 0)); st = ChanState(); reset = true; } else app(s.b, cat({mCC(ch, 101, 127), mCC(ch, 100, 127), mCC(ch, 6, g.draw(128))})); break;
        default: if (file) newTr = g.range(-12, 12); }
    tr = newTr; if (strike) { for (int t = 0; t < 20; t++) { int k = g.range(std::max(0, unity - 30), std::min(127, unity + 24)); double x = total(k); if (x > -3600 && x < 2400) { if (i) app(s.b, mCC(ch, 120, 0)); app(s.b, mNoteOn(ch, k, 127)); key = k; break; } else if (i == 0 && t == 19) throw Discard(); } } 
    s.want = total(key); s.tr = tr; s.key = key; S.push_back(s); }
  (void)reset; int len = 28; Pcm p; std::unique_ptr<MemFile> mf; EAS_HANDLE h; Hist hh; if (file) { for (size_t i = 0; i < S.size(); i++) hh.ev.push_back({1 + (int)i * len, S[i].b}); std::vector<HEv> split; for (auto& x : hh.ev) for (size_t q = 0; q < x.b.size(); q += msgLen(x.b[q])) split.push_back({x.blk, Bytes(x.b.begin() + q, x.b.begin() + q + msgLen(x.b[q]))}); hh.ev = split; Song sg = histSong(hh, (int)S.size() * len + 60); mf.reset(new MemFile(encSong(sg))); h = e.play(*mf); e.render(p, 1); } else h = e.live();
  int cur = 0; for (size_t i = 0; i < S.size(); i++) { if (c.verbose) c.say(" step %zu: %s transpose %d -> key %d, %.1f cents\n", i, hexs(S[i].b).c_str(), S[i].tr, S[i].key, S[i].want); if (file) { if (S[i].tr != cur) { for (int bad : {-13, 13}) REQUIRE(EAS_SetTransposition(e.h, h, bad) != EAS_SUCCESS, "transposition %d accepted", bad); REQUIRE(EAS_SetTransposition(e.h, h, S[i].tr) == EAS_SUCCESS, "transposition refused"); cur = S[i].tr; } } else e.write(h, S[i].b); Pcm q; e.render(q, len); if (S[i].want < -3800 || S[i].want > 2600) { c.label("out of the measured range"); continue; } double fr = freqOf(q, (size_t)6 * BLK()); REQUIRE(fr > 0, "step %zu: no tone", i); double got = 1200 * std::log2(fr * period); if (std::fabs(got - S[i].want) > 4) fail(fmt("step %zu: pitch %.1f cents from the wave's own, expected %.1f", i, got, S[i].want)); }
  c.nontrivial = moved > 0; }
static double acPitch(const Pcm& p, size_t from, double f0) { std::vector<double> x; for (size_t i = from; i < p.size() / 2; i++) x.push_back(p[2*i] + p[2*i+1]); double lag0 = 1 / f0; int m = std::max(1, (int)(0.04 / (lag0 / RATE()) / 1)); (void)m; int mult = std::max(1, (int)std::lround(600 / lag0)); double best = -1, bl = 0; std::vector<double> r; int lo = (int)(lag0 * mult * 0.985), hi = (int)(lag0 * mult * 1.015) + 1; for (int L = lo; L <= hi; L++) { double s = 0, a = 0, b = 0; for (size_t i = 0; i + L < x.size(); i++) { s += x[i] * x[i + L]; a += x[i] * x[i]; b += x[i + L] * x[i + L]; } double q = s / std::sqrt(a * b + 1); r.push_back(q); if (q > best) { best = q; bl = L; } } int i = (int)bl - lo; double d = 0; if (i > 0 && i + 1 < (int)r.size()) { double y0 = r[i - 1], y1 = r[i], y2 = r[i + 1]; d = 0.5 * (y0 - y2) / (y0 - 2 * y1 + y2); } if (best < 0.9) return 9999; return 1200 * std::log2(lag0 * mult / (bl + d)); }
static void builtin(Gen& g, Ctx& c) {   // built-in sounds with a clear pitch
  int pr = g.pick({32, 33, 34, 35, 36, 37, 38, 39, 24, 99, 8, 12, 27, 29, 80, 19}), key = g.range(40, 90), ch = g.draw(15); if (ch == 9) ch = 8; int range = g.pick({2, 2, 1, 3, 12}), bend = g.range(0, 16383), fine = g.chance(1, 3) ? g.draw(128) : 64; double want = (bend - 8192) / 8192.0 * range * 100 + ((fine << 7) - 8192) * 100 / 8192.0; if (std::fabs(want) > 700) throw Discard(); bool before = g.flip(); c.say("program %d key %d bend %d range %d fine %d\n", pr, key, bend, range, fine); c.label("built-in pitch"); double f0 = 440 * std::pow(2, (key - 69) / 12.0) / RATE();
  auto run = [&](bool mod) { Eng e; EAS_HANDLE s = e.live(); Bytes m = mod ? cat({mCC(ch, 101, 0), mCC(ch, 100, 0), mCC(ch, 6, range), mBend(ch, bend), mCC(ch, 100, 1), mCC(ch, 6, fine)}) : Bytes(); e.write(s, mProg(ch, pr)); if (before) e.write(s, m); e.write(s, mNoteOn(ch, key, 110)); e.skip(1); if (!before) e.write(s, m); Pcm p = e.render(44); return acPitch(p, 4 * BLK(), f0 * (mod ? std::pow(2, want / 1200) : 1)); };
  double a = run(false), b = run(true); if (a > 9000 || b > 9000) { c.label("no clear pitch"); return; } c.nontrivial = true; REQUIRE(std::fabs(a) < 26, "program %d key %d sounds %.1f cents off equal temperament", pr, key, a); REQUIRE(std::fabs(b - a) < 6, "program %d key %d shifted by %.1f cents instead of %.1f", pr, key, want + b - a, want); }
static Hist cleaned(const Hist& h, bool bends) { Hist r; r.blocks = h.blocks; r.notes = h.notes; for (auto& e : h.ev) { int s = e.b[0] & 0xF0; if (s == 0xB0 && (e.b[1] == 6 || e.b[1] == 38 || (e.b[1] >= 98 && e.b[1] <= 101) || e.b[1] == 121 || e.b[1] == 0 || e.b[1] == 32)) continue; if (!bends && s == 0xE0) continue; r.ev.push_back(e); } return r; }
static Hist shifted(const Hist& h, int by, int only = -1) { Hist r = h; for (auto& e : r.ev) { int s = e.b[0] & 0xF0, ch = e.b[0] & 15; if ((s == 0x80 || s == 0x90) && ch != 9 && (only < 0 || ch == only)) e.b[1] += by; } return r; }
static Pcm playF(const Setup& su, const Hist& h, int tr, int at) { Eng e; others(e); su.apply(e); Song s = histSong(h, h.blocks + 400); MemFile f(encSong(s)); EAS_HANDLE k = e.play(f); Pcm p; e.render(p, at); if (tr) REQUIRE(EAS_SetTransposition(e.h, k, tr) == EAS_SUCCESS, "transposition"); e.render(p, h.blocks + 1 - at); e.closeFile(k); return p; }
static Pcm playL(const Setup& su, const Hist& h) { Eng e; others(e); su.apply(e); EAS_HANDLE s = e.live(); Pcm p; playHist(e, s, h, p); return p; }
static Bytes rpn(int ch, int n, int v) { return cat({mCC(ch, 101, 0), mCC(ch, 100, n), mCC(ch, 6, v), mCC(ch, 101, 127), mCC(ch, 100, 127)}); }
static void split(Hist& h, int blk, const Bytes& b) { for (size_t q = 0; q < b.size(); q += msgLen(b[q])) h.ev.push_back({blk, Bytes(b.begin() + q, b.begin() + q + msgLen(b[q]))}); }
static void metamorphic(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c, false); HistOpts o; o.m.chans = genChans(g, 4); o.m.smallProgs = su.hasDls; o.m.maxNotes = noteCap(su); o.m.keyLo = 30; o.m.keyHi = 97; int mode = g.draw(4);
  if (mode == 0) { su.hasDls = su.hasDls && true; Hist h = cleaned(genHist(g, o), true); describe(c, h); int t = g.range(1, 12); if (g.flip()) t = -t; c.say("transposition %d\n", t); c.label("transposition = shifted keys"); if (su.hasDls) { c.label("  with collection"); } Pcm a = playF(su, h, t, 0), b = playF(su, shifted(h, t), 0, 0); c.nontrivial = peak(a) > 50; if (su.hasDls) { /* percussion instruments may be chosen by bank; only bank 0 is used here */ } requireSame(b, a, "shifted keys vs transposition"); return; }
  if (mode == 1) { Hist h = cleaned(genHist(g, o), true); int ch = g.pick(o.m.chans), t = g.range(-24, 24); if (ch == 9) ch = o.m.chans[0] == 9 ? 3 : o.m.chans[0]; c.say("coarse tuning %d on channel %d\n", t, ch); describe(c, h); c.label("coarse tuning = shifted keys"); Hist x; split(x, 0, rpn(ch, 2, 64 + t)); for (auto& e : h.ev) x.ev.push_back(e); x.blocks = h.blocks; bool file = g.flip(); Hist y = shifted(h, t, ch); Pcm a = file ? playF(su, x, 0, 0) : playL(su, x), b = file ? playF(su, y, 0, 0) : playL(su, y); c.nontrivial = peak(b) > 50 && t; requireSame(b, a, "shifted keys vs coarse tuning"); return; }
  if (mode == 2) {   // equal bend x range products, and fine tuning against bend
    Hist h = cleaned(genHist(g, o), false), x, y; x.blocks = y.blocks = h.blocks; c.label("equal bends"); size_t n = 0; int lastFine[16]; for (int i = 0; i < 16; i++) lastFine[i] = 64;
    auto put = [&](int blk) { int ch = g.pick(o.m.chans); if (g.flip() || ch == 9) { int ra = g.pick({1, 2, 4, 8, 3, 6, 12}), m = g.pick({2, 4}), bend = g.range(-4096 / m * 2, 4096 / m * 2) * 1; int rb = ra * m; int ba = bend * m; if (std::abs(ba) > 8191 || rb > 24) return; split(x, blk, rpn(ch, 0, ra)); x.ev.push_back({blk, mBend(ch, 8192 + ba)}); split(y, blk, rpn(ch, 0, rb)); y.ev.push_back({blk, mBend(ch, 8192 + bend)}); split(x, blk, rpn(ch, 1, lastFine[ch])); split(y, blk, rpn(ch, 1, lastFine[ch])); }
      else { int v = 16 * g.range(0, 7); int cents = ((v << 7) - 8192) * 100 / 8192; /* whole cents for multiples of 16 */ split(x, blk, rpn(ch, 1, v)); x.ev.push_back({blk, mBend(ch, 8192)}); split(x, blk, rpn(ch, 0, 2)); split(y, blk, rpn(ch, 1, 64)); split(y, blk, rpn(ch, 0, 2)); y.ev.push_back({blk, mBend(ch, 8192 + cents * 8192 / 200)}); } };
    put(0); for (auto& e : h.ev) { x.ev.push_back(e); y.ev.push_back(e); if (++n % 4 == 0 && g.flip()) put(e.blk); } describe(c, x); describe(c, y, "equivalent"); bool file = g.chance(1, 3); Pcm a = file ? playF(su, x, 0, 0) : playL(su, x), b = file ? playF(su, y, 0, 0) : playL(su, y); c.nontrivial = peak(a) > 50; requireSame(a, b, "bends and tunings of equal size"); return; }
  // percussion ignores fine tuning and transposition
  c.label("percussion"); int ch = g.flip() ? 9 : (int)g.draw(16); o.m.chans = {ch}; Hist h = cleaned(genHist(g, o), true), x, z; x.blocks = z.blocks = h.blocks; size_t n = 0; if (ch != 9) { split(z, 0, cat({mCC(ch, 0, 120), mProg(ch, g.flip() ? 0 : g.draw(128))})); x.ev = z.ev; } split(x, 0, rpn(ch, 1, g.draw(128))); for (auto& e : h.ev) { z.ev.push_back(e); x.ev.push_back(e); if (++n % 6 == 0) split(x, e.blk, rpn(ch, 1, g.draw(128))); } describe(c, x); Pcm a = playF(su, z, 0, 0), b = playF(su, x, g.range(-12, 12), g.range(0, h.blocks)); c.nontrivial = peak(a) > 50; requireSame(a, b, "percussion vs percussion with tunings and transposition"); }
static void m02(Gen& g, Ctx& c) { gOthers = g.chance(1, 3) ? 1 + g.draw(2) : 0; if (gOthers) c.say("%d idle streams opened first\n", gOthers); switch (g.weighted({4, 3, 1})) { case 0: sine(g, c); break; case 1: metamorphic(g, c); break; default: builtin(g, c); } }
static Reg r("M02", m02, "looped sine waves (random root, fine tune and rate): measured pitch under random bends, bend ranges, tunings, NRPN/null selections, resets, re-strikes and transpositions vs. the cents formula (4 cents); bit-exact equivalences on built-in and downloaded sounds (transposition/coarse tuning = shifted keys, equal bends, percussion unaffected); non-trivial: at least one pitch message, or an audible reference", 200000, 5000000, 20);
