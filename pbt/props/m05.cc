#include "../hist.h"
// M05: channels are interchangeable and isolated.
static int chOf(const Bytes& b) { return b[0] & 15; }
static Hist rename(const Hist& h, const int* pi) { Hist r = h; for (auto& e : r.ev) if (e.b[0] < 0xF0) e.b[0] = (e.b[0] & 0xF0) | pi[e.b[0] & 15]; return r; }
static Hist merge(const Hist& a, const Hist& b) { Hist r; r.blocks = std::max(a.blocks, b.blocks); size_t i = 0, j = 0; while (i < a.ev.size() || j < b.ev.size()) { if (j >= b.ev.size() || (i < a.ev.size() && a.ev[i].blk <= b.ev[j].blk)) r.ev.push_back(a.ev[i++]); else r.ev.push_back(b.ev[j++]); } return r; }
static Pcm run(const Setup& su, const Hist& h, int blocks) { Eng e; su.apply(e); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); e.skip(1); Hist k = h; k.blocks = blocks; Pcm p; playHist(e, s, k, p); e.closeLive(s); return p; }
static void m05(Gen& g, Ctx& c) {
  int mode = g.draw(3); Setup su = genSetup(g, c, mode != 2); int cap = noteCap(su);
  HistOpts o; o.m.smallProgs = su.hasDls;
  if (mode == 0) {   // consistent renaming
    o.m.chans = genChans(g, 5); o.m.maxNotes = cap; o.resets = 40; Hist h = genHist(g, o); describe(c, h);
    int pi[16], pool[15], n = 0; for (int i = 0; i < 16; i++) if (i != 9) pool[n++] = i; for (int i = 14; i > 0; i--) std::swap(pool[i], pool[g.draw(i + 1)]); n = 0; for (int i = 0; i < 16; i++) pi[i] = i == 9 ? 9 : pool[n++];
    Pcm a = run(su, h, h.blocks), b = run(su, rename(h, pi), h.blocks); c.nontrivial = peak(a) > 50; c.label("renamed"); requireSame(a, b, "history vs the same with its channels renamed"); return; }
  // two disjoint channel sets
  std::vector<int> A, B; for (int i = 0; i < 16; i++) { int w = g.draw(5); if (w == 1) A.push_back(i); else if (w == 2) B.push_back(i); } if (A.empty() && !B.empty()) { A.push_back(B.back()); B.pop_back(); } if (A.empty()) A.push_back(0); if (B.empty()) for (int i = 0; i < 16; i++) if (std::find(A.begin(), A.end(), i) == A.end()) { B.push_back(i); break; } if (B.empty()) throw Discard();
  o.m.chans = A; o.m.maxNotes = cap / 2; Hist a = genHist(g, o); describe(c, a, "A");
  o.m.chans = B; o.m.maxNotes = mode == 1 ? (g.flip() ? 0 : cap / 2) : cap / 2; Hist b = genHist(g, o);
  if (mode == 1) {   // foreign channels silenced: their messages and notes must not change a single sample
    Hist q; q.blocks = b.blocks + 1; for (int x : B) q.ev.push_back({0, mCC(x, 7, 0)}); for (auto& e : b.ev) { if ((e.b[0] & 0xF0) == 0xB0 && (e.b[1] == 7)) continue; q.ev.push_back({e.blk + 1, e.b}); } describe(c, q, "silent others");
    Hist m = merge(a, q); Pcm x = run(su, a, a.blocks), y = run(su, m, a.blocks); c.nontrivial = peak(x) > 50; c.label("silent others"); requireSame(x, y, "channels alone vs together with silent other channels"); return; }
  describe(c, b, "B"); for (auto* h : {&a, &b}) { std::vector<HEv> v; std::vector<int>& S = h == &a ? A : B; for (int x : S) v.push_back({0, mCC(x, 7, 60)}); for (auto& e : h->ev) if (!((e.b[0] & 0xF0) == 0xB0 && e.b[1] == 7)) v.push_back(e); h->ev = v; }
  int n = std::max(a.blocks, b.blocks); Pcm x = run(su, a, n), y = run(su, b, n), z = run(su, merge(a, b), n); c.nontrivial = peak(x) > 50 && peak(y) > 50; c.label("superposed");
  for (size_t i = 0; i < z.size(); i++) { int s = x[i] + y[i]; if (abs(s) > 32000 || abs(x[i]) > 32000 || abs(y[i]) > 32000) continue; if (abs(z[i] - s) > 3) fail(fmt("block %zu frame %zu ch %zu: together %d, sum of the channel sets alone %d", i / (2 * BLK()), i / 2 % BLK(), i & 1, z[i], s)); }
}
static Reg r("M05", m05, "live histories over random channel sets (built-in and downloaded sounds, effects): renaming of melodic channels, silent foreign channels, superposition of disjoint channel sets; non-trivial: the reference output(s) peak above 50", 100000, 3000000, 20);
