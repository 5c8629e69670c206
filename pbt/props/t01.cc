#include "../songgen.h"
// T01: file playback == live writes at the blocks prescribed by an independent scheduler.
static void t01(Gen& g, Ctx& c) {
  SongOpts o; o.music.chans = genChans(g); GenSong gs = genSong(g, o);
  if (g.chance(1, 50)) { std::vector<int> ts; for (size_t i = 0; i < gs.song.tracks.size(); i++) if (!gs.song.tracks[i].ev.empty()) ts.push_back(i);   // a burst: hundreds of events at once
    if (!ts.empty()) { auto& ev = gs.song.tracks[ts[g.draw(ts.size())]].ev; size_t at = g.draw(ev.size()); uint32_t tick = ev[at].tick, n = g.range(200, 2500), x = g.draw(65536); int ch = o.music.chans[g.draw(o.music.chans.size())]; std::vector<TEv> burst; for (uint32_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; int v = (x >> 16) & 127, k = (x >> 24) & 7; Bytes b = k < 2 ? mBend(ch, v << 7) : k == 2 ? mProg(ch, v) : k == 3 && i % 16 == 0 ? mNoteOn(ch, 40 + v / 4, 90) : mCC(ch, k == 4 ? 1 : k == 5 ? 10 : 11, v); burst.push_back({tick, b}); } ev.insert(ev.begin() + at + 1, burst.begin(), burst.end()); gs.sched = schedule(gs.song, &gs.endMs); c.label("burst"); c.say("burst of %u\n", n); } }
  describe(c, gs.song);
  double d = BLKMS(); long nb = (long)(gs.endMs / d) - 2; if (nb < 4) nb = 4; if (nb > 2000) nb = 2000;
  Bytes file = encSong(gs.song);
  MemFile mf(file); Pcm a, b;
  { Eng e; EAS_HANDLE s = e.play(mf); e.render(a, nb); e.closeFile(s); }
  { Eng e; EAS_HANDLE s = e.live(); size_t i = 0;
    // every track has its own message parser: complete messages only, so plain concatenation is equivalent
    for (long k = 0; k < nb; k++) { Bytes w; while (i < gs.sched.size() && blockOf(gs.sched[i].ms, d) <= k) { const Bytes& m = *gs.sched[i].b; if (m[0] != 0xFF) app(w, m); i++; } e.write(s, w); e.render(b, 1); }
    e.closeLive(s); }
  c.nontrivial = gs.notes >= 2 && !allZero(a); c.label(gs.tempos ? "with tempo change" : "no tempo"); c.label(gs.song.tracks.size() > 5 ? "many tracks" : "few tracks"); if (!allZero(a)) c.label("audible");
  requireSame(a, b, "song file vs live writes");
}
static Reg r("T01", t01, "random well-formed songs (1..96 tracks, random division, tempo changes, all channel messages, sysex); non-trivial: at least two notes and audible output", 100000, 3000000, 20);
