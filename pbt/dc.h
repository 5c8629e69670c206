// "DC" collections: looped constant waves, so the steady output level tells which voices sound and how loud.
#pragma once
#include "hist.h"
inline DWave dcWave(int v, int n = 16) { DWave w; w.bits = 16; w.rate = RATE(); w.s.assign(n, (int16_t)v); w.w.on = true; w.w.unity = 60; w.w.loop = true; w.w.start = 0; w.w.len = n; return w; }
struct LR { double l = 0, r = 0; };
inline LR levelOf(const Pcm& p, size_t blk) { LR x; int n = BLK(); const int16_t* q = p.data() + blk * 2 * n; x.l = q[2 * (n - 1)]; x.r = q[2 * (n - 1) + 1]; return x; }
inline bool steady(const Pcm& p, size_t blk, int tol = 0) { int n = BLK(); const int16_t* q = p.data() + blk * 2 * n; for (int i = 1; i < n; i++) if (std::abs(q[2 * i] - q[0]) > tol || std::abs(q[2 * i + 1] - q[1]) > tol) return false; return true; }
// instruments x key zones, one constant wave each
struct DcKit {
  Dls d; int np, nk; std::vector<int> lo; std::vector<std::vector<int>> val; std::vector<std::vector<double>> lev; Bytes enc;
  int zone(int key) const { int z = 0; while (z + 1 < nk && key >= lo[z + 1]) z++; return z; }
  DcKit(Gen& g, int np_, int nk_, int total /*sum of output levels must stay below*/, int maxVoices, bool nonExcl) : np(np_), nk(nk_) {
    for (int i = 0; i < nk; i++) lo.push_back(i * 128 / nk);
    std::set<int> used; int cap = std::min(32000, total);
    for (int p = 0; p < np; p++) { DIns n; n.prog = p; n.art = basicArt(); val.push_back({}); for (int k = 0; k < nk; k++) { int v = 0; for (int t = 0; t < 50; t++) { v = cap / 6 + g.draw(cap * 5 / 6); if (g.flip()) v = -v; if (used.insert(v / 64).second) break; } val[p].push_back(v); d.waves.push_back(dcWave(v)); DRgn r; r.keyLo = lo[k]; r.keyHi = k + 1 < nk ? lo[k + 1] - 1 : 127; r.wave = d.waves.size() - 1; r.opts = nonExcl ? 1 : 0; n.r.push_back(r); } d.ins.push_back(n); }
    (void)maxVoices; enc = encDls(d); }
  void load(Eng& e) const { MemFile f(enc); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); }
  // level of each sound alone at velocity 127 and power-on controllers
  void calibrate() { Eng e; load(e); EAS_HANDLE s = e.live(); lev.assign(np, std::vector<double>(nk, 0));
    for (int p = 0; p < np; p++) for (int k = 0; k < nk; k++) { e.write(s, cat({mProg(0, p), mNoteOn(0, lo[k], 127)})); Pcm q = e.render(3); LR x = levelOf(q, 2); REQUIRE(steady(q, 2), "a looped constant wave does not play as a constant"); REQUIRE(std::fabs(x.l - x.r) <= 1, "centred note is louder on one side: %g %g", x.l, x.r); REQUIRE(std::fabs(x.l) >= 60, "note is silent"); lev[p][k] = x.l; e.write(s, mNoteOff(0, lo[k])); e.skip(4); Pcm z = e.render(1); REQUIRE(allZero(z), "a note with zero release still sounds 4 blocks after its end"); } }
};
// file stream equivalent of a live history: block b's messages at a time safely inside block b
inline Song histSong(const Hist& h, int endBlocks) { Song s; s.format = 0; s.division = 500; s.tracks.resize(1); auto tick = [](int b) { return (uint32_t)std::lround(b * BLKMS() + BLKMS() * 0.55); };
  for (auto& e : h.ev) s.tracks[0].ev.push_back({tick(e.blk), e.b}); s.tracks[0].endTick = tick(endBlocks); return s; }
