#include "../dls.h"
#include "../music.h"
// S02: arbitrary collection bytes are handled safely; a rejected collection leaves no trace.
static void noteStorm(Gen& g, Ctx& c, Eng& e, EAS_HANDLE s, Pcm& p, const std::vector<int>& progs) {
  MusicOpts mo; mo.chans = {0, 1, 9, 3}; mo.maxHeld = 80; mo.keyLo = 0; mo.keyHi = 127; MusicGen mg(mo);
  Bytes w; for (int ch : mo.chans) { int bank = g.pick({0, 0x79, 0x78, 1}); app(w, mCC(ch, 0, bank)); app(w, mProg(ch, progs[g.draw(progs.size())])); }
  int n = 3 + g.draw(12); for (int i = 0; i < n; i++) { int m = 1 + g.draw(6); for (int k = 0; k < m; k++) app(w, g.chance(1, 6) ? mCC(g.pick(mo.chans), g.pick({1, 7, 11}), g.draw(128)) : mg.next(g)); Bytes b = w; EAS_WriteMIDIStream(e.h, s, b.data(), b.size()); w.clear(); e.render(p, 1 + g.draw(6)); }
  w = {}; for (int ch : mo.chans) app(w, mCC(ch, 123, 0)); EAS_WriteMIDIStream(e.h, s, w.data(), w.size()); e.render(p, 4); }
static void s02(Gen& g, Ctx& c) {
  int variant = g.draw(4);   // global before stream / after stream / per file stream / replace
  MemFile f(genHostileDlsBytes(g, c)); c.say("dls %zu bytes variant %d\n", f.data.size(), variant); Eng e; Pcm p; std::vector<int> progs{0, 1, 2, 3};
  if (variant == 2) {
    Song s; s.division = 96; s.tracks.resize(1); MusicOpts mo; mo.chans = {0, 1, 9}; MusicGen mg(mo); uint32_t t = 0; for (int i = 0; i < 20; i++) { t += g.draw(30); s.tracks[0].ev.push_back({t, mg.next(g)}); } s.tracks[0].endTick = t + 50; MemFile sf(encSong(s)); EAS_HANDLE h = e.open(sf);
    REQUIRE(EAS_Prepare(e.h, h) == EAS_SUCCESS, "prepare"); if (g.flip()) e.render(p, g.draw(20)); EAS_RESULT r = e.loadDLS(f, h); c.say("load on stream -> %ld\n", (long)r); e.render(p, 60); if (r == EAS_SUCCESS) { c.label("accepted"); } c.nontrivial = f.data.size() > 20; e.closeFile(h); e.render(p, 2); return; }
  EAS_RESULT r;
  if (variant == 1) { EAS_HANDLE s0 = e.live(); e.write(s0, mNoteOn(0, 60, 100)); e.render(p, 2); r = e.loadDLS(f); noteStorm(g, c, e, s0, p, progs); e.closeLive(s0); }
  else { r = e.loadDLS(f); if (variant == 3) { MemFile f2(genHostileDlsBytes(g, c)); EAS_HANDLE s0 = e.live(); noteStorm(g, c, e, s0, p, progs); EAS_RESULT r2 = e.loadDLS(f2); if (r2 == EAS_SUCCESS) r = r2; noteStorm(g, c, e, s0, p, progs); e.closeLive(s0); } }
  c.say("load -> %ld\n", (long)r); c.label(r == EAS_SUCCESS ? "accepted" : "rejected"); c.nontrivial = f.data.size() > 20;
  for (int i = 0; i < 60; i++) { Pcm q; e.render(q, 1); if (allZero(q)) break; }
  EAS_HANDLE s = e.live(); uint64_t seed = g.draw(0); Pcm a; { ChoiceLog* L = new ChoiceLog; Gen g2(nullptr, 0, false, seed, L); noteStorm(g2, c, e, s, a, progs); delete L; }
  if (r != EAS_SUCCESS) { Eng e2; EAS_HANDLE s2 = e2.live(); Pcm b; ChoiceLog* L = new ChoiceLog; Gen g2(nullptr, 0, false, seed, L); noteStorm(g2, c, e2, s2, b, progs); delete L; requireSame(a, b, "after a rejected collection vs without it"); }
  e.closeLive(s);
}
static Reg r("S02", s02, "generated DLS collections with hostile fields (sizes, indices, loops, rates, articulations, conditional code), layout shuffles and byte mutations, then random notes; non-trivial: more than 20 bytes of collection", 110000, 3000000, 20, 15);
