#include "../badsmf.h"
// S01: arbitrary song bytes are handled safely, and the engine stays usable.
static Bytes goodSong() { Song s; s.format = 1; s.division = 96; s.tracks.resize(2);
  s.tracks[0].ev = {{0, metaTempo(400000)}, {0, mProg(0, 4)}, {0, mNoteOn(0, 60, 100)}, {40, mNoteOff(0, 60)}, {41, mNoteOn(0, 67, 90)}, {90, mNoteOff(0, 67)}}; s.tracks[1].ev = {{0, mProg(1, 33)}, {10, mNoteOn(1, 40, 110)}, {30, mBend(1, 10000)}, {60, mNoteOff(1, 40)}, {20, mNoteOn(9, 38, 100)}};
  std::stable_sort(s.tracks[1].ev.begin(), s.tracks[1].ev.end(), [](const TEv& a, const TEv& b) { return a.tick < b.tick; }); s.tracks[0].endTick = s.tracks[1].endTick = 100; return encSong(s); }
static char g_meta[4200]; static int g_metaSize; static long g_metaCalls;
static void metaCb(E_EAS_METADATA_TYPE, char* b, EAS_VOID_PTR u) { g_metaCalls++; (void)u; size_t n = strnlen(b, (size_t)g_metaSize); if ((int)n >= g_metaSize) fail("metadata text not terminated inside the buffer"); }
static Pcm playGood(Eng& e) { MemFile f(goodSong()); EAS_HANDLE s = e.play(f); Pcm p; e.render(p, 90); e.closeFile(s); return p; }
static void s01(Gen& g, Ctx& c) {
  static Pcm want; if (want.empty()) { Eng e; want = playGood(e); }
  MemFile f(genBadSong(g, c)); c.say("file %zu bytes: %s\n", f.data.size(), hexs(f.data, 400).c_str());
  Eng e; bool rendered = false, opened = false; Pcm p; EAS_I32 v; EAS_HANDLE s = nullptr;
  if (g.chance(1, 4)) { EAS_SetHeaderSearchFlag(e.h, EAS_TRUE); c.say("header search on\n"); }
  EAS_RESULT r = EAS_OpenFile(e.h, &f.loc, &s); c.say("open -> %ld\n", (long)r);
  if (r == EAS_SUCCESS) {
    REQUIRE(s != nullptr, "open succeeded without a handle"); opened = true;
    g_metaSize = g.pick({1, 2, 8, 64, 4096}); memset(g_meta, 0x7e, sizeof g_meta);
    if (g.flip()) { c.say("metadata buffer %d\n", g_metaSize); EAS_RegisterMetaDataCallback(e.h, s, metaCb, g_meta, g_metaSize, nullptr); }
    r = EAS_Prepare(e.h, s); c.say("prepare -> %ld\n", (long)r); if (r == EAS_SUCCESS) c.label("prepared");
    int nops = r == EAS_SUCCESS ? 2 + g.draw(6) : g.draw(3);
    for (int i = 0; i < nops; i++) {
      switch (g.weighted({5, 2, 2, 1, 1, 1, 1, 1})) {
        case 0: { int n = 1 + g.draw(12); c.say("render %d\n", n); for (int k = 0; k < n; k++) { size_t o = p.size(); p.resize(o + BLK() * 2); EAS_I32 got; if (EAS_Render(e.h, p.data() + o, BLK(), &got) == EAS_SUCCESS) rendered = true; } break; }
        case 1: { EAS_I32 ms = g.chance(1, 5) ? (EAS_I32)g.draw(0) : (EAS_I32)g.draw(3000); bool off = g.chance(1, 4); c.say("locate %ld %d\n", (long)ms, off); EAS_Locate(e.h, s, ms, off); break; }
        case 2: c.say("parsemeta\n"); EAS_ParseMetaData(e.h, s, &v); break;
        case 3: c.say("pause\n"); EAS_Pause(e.h, s); break;
        case 4: c.say("resume\n"); EAS_Resume(e.h, s); break;
        case 5: EAS_GetLocation(e.h, s, &v); EAS_State(e.h, s, &v); EAS_GetNoteCount(e.h, s, &v); EAS_GetFileType(e.h, s, &v); break;
        case 6: { int rep = g.range(-1, 3); c.say("repeat %d\n", rep); EAS_SetRepeat(e.h, s, rep); break; }
        default: c.say("prepare again\n"); EAS_Prepare(e.h, s); }
      for (int k = g_metaSize; k < 4200 && k < g_metaSize + 64; k++) REQUIRE(g_meta[k] == 0x7e, "metadata written beyond its buffer");
    }
    r = EAS_CloseFile(e.h, s); REQUIRE(r == EAS_SUCCESS, "close -> %ld", (long)r);
  }
  c.nontrivial = opened; if (rendered && !allZero(p)) c.label("audible"); if (g_metaCalls) c.label("metadata seen");
  // wait for the mix to fall silent, then a well-formed song must play as on a new engine
  for (int i = 0; i < 40; i++) { Pcm q; e.render(q, 1); if (allZero(q)) break; }
  EAS_SetHeaderSearchFlag(e.h, EAS_FALSE);
  Pcm got = playGood(e); requireSame(got, want, "well-formed song after the hostile one");
}
static Reg r("S01", s01, "generated song files: valid structure with hostile fields, malformed headers/chunks/lengths/varlens, mutated bytes, raw bytes; random playback calls; non-trivial: the file was recognised as a song", 100000, 3000000, 20, 10);
