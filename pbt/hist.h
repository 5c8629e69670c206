// Live-stream histories (messages per render block) and engine set-ups.
#pragma once
#include "music.h"
#include "dls.h"
struct HEv { int blk; Bytes b; };
struct Hist { std::vector<HEv> ev; int blocks = 0; uint64_t notes = 0; };
struct HistOpts { MusicOpts m; int maxEvents = 60, maxGap = 6, tail = 8, resets = 0; bool mip = false; };
inline Hist genHist(Gen& g, const HistOpts& o) {
  Hist h; MusicGen mg(o.m); int n = 1 + g.size(o.maxEvents), b = 0;
  for (int i = 0; i < n; i++) { if (!g.chance(1, 3)) b += g.chance(1, 10) ? g.range(0, o.maxGap * 6) : g.range(0, o.maxGap);
    if (o.resets && g.chance(1, o.resets)) h.ev.push_back({b, g.flip() ? sysGmOn() : o.mip && g.flip() ? genMip(g, o.m.chans) : sysMasterVol(g.draw(16384))}); else h.ev.push_back({b, mg.next(g)}); }
  h.blocks = b + 1 + g.range(0, o.tail); h.notes = mg.notes; return h; }
inline void playHist(Eng& e, EAS_HANDLE s, const Hist& h, Pcm& out, int from = 0, int to = -1) {
  if (to < 0) to = h.blocks; size_t i = 0; while (i < h.ev.size() && h.ev[i].blk < from) i++;
  for (int b = from; b < to; b++) { Bytes w; while (i < h.ev.size() && h.ev[i].blk <= b) app(w, h.ev[i++].b); e.write(s, w); e.render(out, 1); } }
inline void describe(Ctx& c, const Hist& h, const char* name = "history") { if (!c.verbose) return; c.say("%s: %d blocks:", name, h.blocks); size_t n = 0; for (auto& e : h.ev) { if (n++ > 60) { c.say(" ..."); break; } c.say(" %d:%s", e.blk, hexs(e.b, 12).c_str()); } c.say("\n"); }
// Optional collection and effects, applied to a new engine.
struct Setup {
  Bytes dls; bool hasDls = false; int rev = -1, revWet = -1, cho = -1, choLevel = -1; int layers = 1;
  void apply(Eng& e) const {
    if (hasDls) { MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); }
    if (rev >= 0) { REQUIRE(EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_FALSE) == EAS_SUCCESS, "reverb on"); REQUIRE(EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, rev) == EAS_SUCCESS, "preset"); if (revWet >= 0) EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, revWet); }
    if (cho >= 0) { REQUIRE(EAS_SetParameter(e.h, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_FALSE) == EAS_SUCCESS, "chorus on"); REQUIRE(EAS_SetParameter(e.h, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_PRESET, cho) == EAS_SUCCESS, "preset"); if (choLevel >= 0) EAS_SetParameter(e.h, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, choLevel); }
  }
};
inline Dls genBenignDls(Gen& g) { int H; return genHostileDls(g, H, 0); }
inline Setup genSetup(Gen& g, Ctx& c, bool effects = true, bool dls = true) {
  Setup s; if (dls && g.flip()) { Dls d = genBenignDls(g); s.hasDls = true; s.dls = encDls(d); s.layers = 4; describe(c, d); c.label("with collection"); }
  if (effects && g.chance(1, 4)) { s.rev = g.draw(4); if (g.flip()) s.revWet = g.draw(32768); c.label("with reverb"); c.say("reverb %d wet %d\n", s.rev, s.revWet); }
  if (effects && g.chance(1, 4)) { s.cho = g.draw(4); if (g.flip()) s.choLevel = g.draw(32768); c.label("with chorus"); c.say("chorus %d level %d\n", s.cho, s.choLevel); }
  return s; }
inline int noteCap(const Setup& s) { return s.hasDls ? 15 : 60; }
