#include "../songgen.h"
#include "../hist.h"
// M11: live streams opened on a song share its channels: the song plus their messages == one live stream with both.
static void refusals(Gen& g, Ctx& c) {   // opening on something that has no synthesizer yet
  SongOpts so; so.maxEvents = 12; so.maxMs = 400; GenSong gs = genSong(g, so); MemFile mf(encSong(gs.song)); Eng e; std::vector<EAS_HANDLE> lv; int pre = g.draw(3); for (int i = 0; i < pre; i++) lv.push_back(e.live());
  EAS_HANDLE s = e.open(mf); int n = 1 + g.draw(8); for (int i = 0; i < n; i++) { EAS_HANDLE on = !lv.empty() && g.flip() ? lv[g.draw(lv.size())] : s, x = (EAS_HANDLE)&n; EAS_RESULT r = EAS_OpenMIDIStream(e.h, &x, on); c.say("open on %s\n", on == s ? "an unprepared song" : "a live stream"); REQUIRE(r != EAS_SUCCESS, "opened on a stream without a song's synthesizer"); REQUIRE(x == nullptr, "handle returned by a failed open"); }
  REQUIRE(EAS_Prepare(e.h, s) == EAS_SUCCESS, "prepare"); for (int i = pre + 1; i < 4; i++) { EAS_HANDLE x = nullptr; REQUIRE(EAS_OpenMIDIStream(e.h, &x, g.flip() ? s : nullptr) == EAS_SUCCESS && x, "%d of 4 streams open after refused opens: no more", i); lv.push_back(x); }
  EAS_HANDLE x = nullptr; REQUIRE(EAS_OpenMIDIStream(e.h, &x, s) != EAS_SUCCESS, "fifth stream"); for (auto l : lv) e.closeLive(l); e.closeFile(s); c.nontrivial = n > 2; c.label("refused"); }
static void m11(Gen& g, Ctx& c) {
  if (g.chance(1, 12)) { refusals(g, c); return; }
  SongOpts so; so.maxEvents = 40; so.maxTracks = 3; so.manyTracks = false; so.maxMs = 1500; so.music.chans = genChans(g); so.music.maxNotes = 30; GenSong gs = genSong(g, so); describe(c, gs.song);
  double d = BLKMS(); long nb = (long)(gs.endMs / d) - 2; if (nb < 4) nb = 4;
  int nl = 1 + g.draw(2); Hist h[2]; long from[2], to[2];
  for (int i = 0; i < nl; i++) { HistOpts o; o.m.chans = g.flip() ? so.music.chans : genChans(g); o.m.maxNotes = 20; o.maxEvents = 40; o.resets = g.flip() ? 12 : 0; o.mip = true; h[i] = genHist(g, o); describe(c, h[i], i ? "second stream" : "live messages"); from[i] = g.flip() ? 0 : g.draw(nb); to[i] = -1; }
  long close = g.chance(1, 3) ? 1 + (long)g.draw(nb) : -1; if (close < 0 && g.chance(1, 3)) { int i = g.draw(nl); to[i] = from[i] + g.draw(nb - from[i] + 1); } long total = close < 0 ? nb : close + g.draw(80); if (total > 600) total = 600;
  int tr = g.chance(1, 4) ? g.range(-12, 12) : 0, vol = g.chance(1, 4) ? g.range(60, 100) : -1, pol = g.chance(1, 6) ? g.range(1, 12) : 0; long when = g.flip() ? 0 : g.draw(total); Setup su = genSetup(g, c, true, false); Bytes coll; if (g.chance(1, 3)) { Dls q = genBenignDls(g); describe(c, q); coll = encDls(q); c.label("own collection"); }
  c.say("%ld blocks, song closed at %ld, settings at %ld: transposition %d volume %d polyphony %d\n", total, close, when, tr, vol, pol); for (int i = 0; i < nl; i++) c.say("stream %d: blocks %ld to %ld\n", i, from[i], to[i]);
  auto set = [&](Eng& e, EAS_HANDLE s) { if (!s) return; if (tr) REQUIRE(EAS_SetTransposition(e.h, s, tr) == EAS_SUCCESS, "transposition"); if (vol >= 0) REQUIRE(EAS_SetVolume(e.h, s, vol) == EAS_SUCCESS, "volume"); if (pol) REQUIRE(EAS_SetPolyphony(e.h, s, pol) == EAS_SUCCESS, "polyphony"); };
  bool plain = g.chance(7, 8); Pcm a, b; MemFile mf(encSong(gs.song)), m1(coll), m2(coll); long used = 0;
  { Eng e; su.apply(e); EAS_HANDLE s = e.open(mf); REQUIRE(EAS_Prepare(e.h, s) == EAS_SUCCESS, "prepare"); if (!coll.empty()) REQUIRE(e.loadDLS(m1, s) == EAS_SUCCESS, "collection refused"); EAS_HANDLE l[2] = {nullptr, nullptr}; size_t at[2] = {0, 0};
    for (long k = 0; k < total; k++) { if (k == close) { for (int i = 0; i < nl; i++) if (!l[i] && to[i] < 0) { EAS_RESULT r = EAS_OpenMIDIStream(e.h, &l[i], s); REQUIRE(r == EAS_SUCCESS, "open on the song: %ld", (long)r); } REQUIRE(EAS_State(e.h, s, (EAS_STATE*)&used) == EAS_SUCCESS, "state"); e.closeFile(s); s = nullptr; }
      for (int i = 0; i < nl; i++) { if (k == to[i] && l[i]) { e.closeLive(l[i]); l[i] = nullptr; } if (k == from[i] && k != to[i] && !l[i]) { EAS_RESULT r = EAS_OpenMIDIStream(e.h, &l[i], s); REQUIRE(r == EAS_SUCCESS && l[i], "open on the song: %ld", (long)r); } }
      if (k == when && s) set(e, s);
      for (int i = 0; i < nl; i++) { Bytes w; while (at[i] < h[i].ev.size() && h[i].ev[at[i]].blk <= k) { if (l[i]) app(w, h[i].ev[at[i]].b); at[i]++; } if (l[i]) e.write(l[i], w); }
      e.render(a, 1); }
    if (s) { REQUIRE(e.state(s) == EAS_STATE_PLAY, "song state %ld while playing", e.state(s)); long lc = e.loc(s); REQUIRE(std::labs(lc - std::lround(total * d)) <= 2, "song location %ld after %ld blocks", lc, total); if (g.flip()) { e.closeFile(s); s = nullptr; } }
    for (int i = 0; i < nl; i++) if (l[i]) e.closeLive(l[i]); if (s) e.closeFile(s); }
  { Eng e; su.apply(e); EAS_HANDLE s = nullptr, q = nullptr; MemFile empty(encSong(songFromBlocks({}, d, total + 4)));   // settings and collections are given to an empty song
    if (coll.empty() && !tr && vol < 0 && !pol && plain) s = e.live(); else { q = e.open(empty); REQUIRE(EAS_Prepare(e.h, q) == EAS_SUCCESS, "prepare"); if (!coll.empty()) REQUIRE(e.loadDLS(m2, q) == EAS_SUCCESS, "collection refused"); REQUIRE(EAS_OpenMIDIStream(e.h, &s, q) == EAS_SUCCESS, "open on the empty song"); } size_t j = 0, at[2] = {0, 0}; bool open[2] = {false, false}; long opens = 0;
    for (long k = 0; k < total; k++) { bool song = close < 0 || k < close; for (int i = 0; i < nl; i++) { if (k == close && to[i] < 0) open[i] = true; if (k == to[i]) open[i] = false; else if (k == from[i]) open[i] = true; opens += open[i]; }
      if (k == when && song) set(e, q);
      for (int i = 0; i < nl; i++) { Bytes w; while (at[i] < h[i].ev.size() && h[i].ev[at[i]].blk <= k) { if (open[i]) { app(w, h[i].ev[at[i]].b); used++; } at[i]++; } e.write(s, w); }
      Bytes w; while (song && j < gs.sched.size() && blockOf(gs.sched[j].ms, d) <= k) { const Bytes& m = *gs.sched[j].b; if (m[0] != 0xFF) app(w, m); j++; } e.write(s, w); e.render(b, 1); }
    e.closeLive(s); if (q) e.closeFile(q); }
  c.nontrivial = gs.notes >= 1 && used >= 2 && peak(b) > 20; c.label(close >= 0 ? "song closed first" : "song plays on"); c.label(nl == 2 ? "two live streams" : "one live stream");
  requireSame(a, b, "song with live streams on it vs all messages on one stream");
}
static Reg r("M11", m11, "random songs with one or two live streams opened on them (at any block, closed again or outliving the song), settings made on the song, song-level collections and effects, compared with one live stream receiving all messages; opens on unprepared songs and live streams; non-trivial: song notes, at least two live messages, audible (or more than two refused opens)", 100000, 3000000, 20);
