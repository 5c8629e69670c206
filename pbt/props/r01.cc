#include "../script.h"
// R01: every allocation and file handle is released exactly once; slots stay reusable.
static Bytes wideSong(int nt) { Song s; s.format = nt > 1; s.division = 96; s.tracks.resize(nt); for (int i = 0; i < nt; i++) { if (i < 3) s.tracks[i].ev.push_back({0, mNoteOn(i, 60, 90)}); s.tracks[i].endTick = 10; } return encSong(s); }
static bool prepares(EAS_DATA_HANDLE h, int nt) { MemFile f(wideSong(nt)); EAS_HANDLE s = nullptr; if (EAS_OpenFile(h, &f.loc, &s) != EAS_SUCCESS) return false; bool ok = EAS_Prepare(h, s) == EAS_SUCCESS; EAS_CloseFile(h, s); return ok; }
static int maxTracks() { static int n = 0; if (!n) for (n = 2; n < 400; n++) { Eng e; if (!prepares(e.h, n + 1)) break; } return n; }
static long dlsLive(const Bytes& b) { Eng e; long l = mt_live(); MemFile f(b); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "a collection that loaded before is refused by a new engine"); return mt_live() - l; }
static long engLive() { Eng e; return mt_live(); }
static void probe(Runner& R, int width) {
  EAS_HANDLE s[5]; for (int i = 0; i < 4; i++) REQUIRE(EAS_OpenMIDIStream(R.h, &s[i], nullptr) == EAS_SUCCESS, "only %d of four streams can be opened", i);
  REQUIRE(EAS_OpenMIDIStream(R.h, &s[4], nullptr) != EAS_SUCCESS, "a fifth stream was opened"); for (int i = 0; i < 4; i++) REQUIRE(EAS_CloseMIDIStream(R.h, s[i]) == EAS_SUCCESS, "close");
  REQUIRE(prepares(R.h, width), "a song of %d tracks cannot be prepared any more (file handles lost)", width); }
static void r01(Gen& g, Ctx& c) {
  int W = maxTracks(); REQUIRE(W >= 17, "only %d tracks can be prepared", W);
  ScriptOpts o; o.wild = true; o.fx = true; o.raw = g.flip(); o.badSongs = g.chance(2, 3); o.maxRender = g.pick({2, 6, 30}); o.maxOps = 40;
  Assets A = genAssets(g, c, o); if (g.flip()) { int w = g.range(8, W + 3); A.songs.push_back(wideSong(w)); A.good.push_back(0); c.say("song of %d tracks\n", w); } for (auto& q : A.songs) if (q.size() > 13 && q[0] == 'M' && ((q[10] << 8) | q[11]) > 20) { for (auto& x : A.good) x = 0; break; }   // handles may run out
  std::vector<Script> rounds; int nr = 1 + g.draw(3); for (int i = 0; i < nr; i++) rounds.push_back(genScript(g, c, A, o)); int end = g.draw(3);   // 0, 1: close all before shutdown  2: shut down with streams open
  mt_reset(); long bare = engLive(); REQUIRE(mt_live() == 0, "%ld allocations left after init and shutdown", mt_live()); int opens = 0, refused = 0, loads = 0, global = -1;
  { Runner R(&A); REQUIRE(R.h, "EAS_Init failed"); long base = mt_live(); REQUIRE(base == bare, "allocations of two new engines differ");
    for (int k = 0; k < nr; k++) {
      for (auto& op : rounds[k]) { int n = R.openCount(); bool isOpen = !R.sl[op.s % NSLOT].kind && (op.k == oOpen || op.k == oOpenLive); EAS_RESULT r = R.exec(op); if (r == 9999) continue;
        if (isOpen) { if (n >= 4) { refused++; REQUIRE(r != EAS_SUCCESS, "a fifth stream was opened"); } else if (op.k == oOpenLive || A.good[op.a % A.songs.size()]) { opens++; REQUIRE(r == EAS_SUCCESS, "open with %d streams open -> %ld", n, (long)r); } }
        if (op.k == oLoadDls && r == EAS_SUCCESS) { loads++; global = op.a % A.dls.size(); } if (op.k == oStrmDls) loads++; if (op.k == oClose) REQUIRE(r == EAS_SUCCESS, "close -> %ld", (long)r); }
      if (k == nr - 1 && end == 2) { c.label("shut down with open streams", R.openCount() > 0); break; }
      R.closeAll(); if (g.flip()) { Pcm q(BLK() * 2); EAS_I32 got; for (int j = g.draw(8); j > 0; j--) EAS_Render(R.h, q.data(), BLK(), &got); }
      long want = base + (global >= 0 ? dlsLive(A.dls[global]) : 0); REQUIRE(mt_live() == want, "%ld allocations live with all streams closed, a new engine%s has %ld", mt_live(), global >= 0 ? " with the same collection" : "", want);
      probe(R, W); REQUIRE(mt_live() == want, "probe left %ld allocations", mt_live() - want); REQUIRE(mt_bad_frees() == 0, "%ld releases of memory that is not allocated", mt_bad_frees()); }
    EAS_RESULT r = R.shutdown(); REQUIRE(r == EAS_SUCCESS, "shutdown -> %ld", (long)r); }
  REQUIRE(mt_live() == 0, "%ld allocations left after shutdown", mt_live()); REQUIRE(mt_bad_frees() == 0, "%ld releases of memory that is not allocated", mt_bad_frees());
  c.nontrivial = opens >= 3; c.label("opens", opens); c.label("refused fifth opens", refused); c.label("collection loads", loads); }
static Reg r("R01", r01, "one to three histories of all public calls per engine (valid, hostile and very wide songs, collections, failed opens and prepares, five slots of which four may open), closing everything between them or shutting down with streams open; counted allocations against a new engine, all file handles reusable; non-trivial: at least three successful opens", 400000, 16000000, 20, 15);
