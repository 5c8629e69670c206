// Random musical material as channel messages.
#pragma once
#include "smf.h"
struct MusicOpts {
  std::vector<int> chans{0}; int maxHeld = 24; bool prog = true, cc = true, bend = true, modes = true, poly = true; int keyLo = 20, keyHi = 108; bool edgeVel = true; bool sustain = true; int maxNotes = 1 << 30; bool smallProgs = false; bool bank = true; bool rpn = true;
};
inline std::vector<int> genChans(Gen& g, int maxN = 4, bool drums = true) {
  std::vector<int> c; int n = 1 + g.draw(maxN); for (int i = 0; i < n; i++) { int x = g.draw(20); if (x >= 16) x = x == 16 ? 15 : 9; if (x == 9 && !drums) x = 8; if (std::find(c.begin(), c.end(), x) == c.end()) c.push_back(x); } return c; }
struct MusicGen {
  MusicOpts o; std::vector<std::pair<int, int>> held; uint64_t notes = 0; std::vector<Bytes> queue;   // rest of a parameter-setting sequence
  explicit MusicGen(const MusicOpts& o_) : o(o_) {}
  Bytes next(Gen& g) {
    if (!queue.empty()) { Bytes b = queue.front(); queue.erase(queue.begin()); return b; }
    int c = g.pick(o.chans);
    int w = g.weighted({8, 5, o.cc ? 4 : 0, o.prog ? 2 : 0, o.bend ? 2 : 0, o.poly ? 1 : 0});
    switch (w) {
      case 0: {
        if ((int)notes >= o.maxNotes) return mCC(c, g.pick({1, 7, 11, 10}), g.draw(128));
        if ((int)held.size() >= o.maxHeld) { auto h = held.front(); held.erase(held.begin()); return mNoteOff(h.first, h.second); }
        int k = g.range(o.keyLo, o.keyHi), v = o.edgeVel && g.chance(1, 12) ? g.edge(1, 127) : g.range(60, 127);
        held.push_back({c, k}); notes++; return mNoteOn(c, k, v); }
      case 1: {
        if (held.empty()) { if ((int)notes >= o.maxNotes) return mCC(c, 11, g.draw(128)); int k = g.range(o.keyLo, o.keyHi); held.push_back({c, k}); notes++; return mNoteOn(c, k, 100); }
        size_t i = g.draw(held.size()); auto h = held[i]; held.erase(held.begin() + i);
        return g.flip() ? mNoteOff(h.first, h.second, g.draw(128)) : mNoteOn(h.first, h.second, 0); }
      case 2: {
        if (o.rpn && g.chance(1, 10)) { int n = g.pick({0, 1, 2}); if (g.flip()) { queue.push_back(mCC(c, 100, n)); queue.push_back(mCC(c, 6, n == 0 ? g.range(0, 24) : n == 1 ? g.draw(128) : g.range(52, 76))); return mCC(c, 101, 0); } queue.push_back(mCC(c, 101, 0)); queue.push_back(mCC(c, 6, n == 0 ? g.range(0, 24) : n == 1 ? g.draw(128) : g.range(52, 76))); return mCC(c, 100, n); }
        static const std::vector<int> ccs{7, 11, 10, 1, 64, 6, 38, 98, 99, 100, 101, 0, 32, 121, 91, 93, 5, 65, 84, 96, 97, 2, 123, 120, 124, 126};
        int n = ccs[g.draw(o.modes ? ccs.size() : 11)]; if (!o.sustain && n == 64) n = 11; if (!o.bank && (n == 0 || n == 32)) n = 7;
        if (g.chance(1, 16)) { n = o.modes ? g.draw(128) : 2; if ((!o.bank && (n == 0 || n == 32)) || (!o.sustain && n == 64)) n = 2; }
        int v = n == 64 ? (g.flip() ? 127 : 0) : n == 100 || n == 101 ? g.pick({0, 0, 1, 2, 127}) : n == 0 ? g.pick({0, 0x78, 0x79, 0x79, 1}) : g.edge(0, 127);
        return mCC(c, n, v); }
      case 3: return mProg(c, o.smallProgs && !g.chance(1, 5) ? g.draw(4) : g.draw(128));
      case 4: return mBend(c, g.chance(1, 3) ? g.edge(0, 16383) : g.range(4096, 12288));
      default: return g.flip() ? mPress(c, g.draw(128)) : mPoly(c, g.draw(128), g.draw(128));
    }
  }
};
// a scalable-polyphony table: most of the channels in use, cumulative voice counts
inline Bytes genMip(Gen& g, const std::vector<int>& chans) { Bytes b{0xf0, 0x7f, 0x7f, 0x0b, 0x01}; int v = 0; std::vector<int> c = chans; for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[g.draw(i)]); for (int x : c) { if (g.chance(1, 4)) continue; v += g.chance(1, 6) ? g.range(1, 64) : g.draw(8); b.push_back(x); b.push_back(std::min(127, v)); } b.push_back(0xf7); return b; }
inline void describe(Ctx& c, const Song& s) {
  if (!c.verbose) return; c.say("song: format %d division %d tracks %zu\n", s.format, s.division, s.tracks.size());
  for (size_t t = 0; t < s.tracks.size() && t < 6; t++) { c.say(" track %zu:", t); size_t n = 0; for (auto& e : s.tracks[t].ev) { if (n++ > 14) { c.say(" ..."); break; } c.say(" %u:%s", e.tick, hexs(e.b, 12).c_str()); } c.say(" end %u\n", s.tracks[t].endTick); }
}
