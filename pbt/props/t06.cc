#include "../songgen.h"
// T06: pausing freezes a song, resuming continues it; each stretch between pauses equals a song of the settings in force and the events of that stretch.
static void t06(Gen& g, Ctx& c) {
  double d = BLKMS(); SongOpts o; o.music.chans = genChans(g); o.maxMs = 1200; o.manyTracks = g.chance(1, 6); EAS_U32 rate = g.chance(1, 5) ? genRate(g) : 1u << 28; o.rate = rate / (double)(1u << 28); o.d2 = frameMs(rate); GenSong gs = genSong(g, o); describe(c, gs.song); double ds = d * o.rate;
  long endBlk = (long)std::floor(gs.endMs / ds); if (!gs.endRobust) endBlk -= 3; if (endBlk < 6) { c.nontrivial = false; return; } if (endBlk > 400) endBlk = 400;
  int np = 1 + g.draw(3); std::vector<std::pair<long, long>> pauses; for (int i = 0; i < np; i++) pauses.push_back({g.draw(endBlk), g.weighted({4, 1, 1}) == 0 ? 5 + g.draw(30) : g.flip() ? 0 : g.draw(5)}); std::sort(pauses.begin(), pauses.end());
  int other = g.draw(3);   // another stream plays on: none, live, song
  std::vector<Bytes> om; Bytes of; if (other == 1) { MusicOpts m; m.chans = genChans(g, 2); m.maxHeld = 6; m.keyLo = 40; m.keyHi = 80; MusicGen mg(m); int n = 6 + g.draw(20); for (int i = 0; i < n; i++) om.push_back(mg.next(g)); } if (other == 2) { SongOpts q; q.music.chans = genChans(g, 2); q.music.maxHeld = 6; q.maxEvents = 25; q.manyTracks = false; of = encSong(genSong(g, q).song); }
  auto liveAt = [&](long k) -> Bytes { return other == 1 && k % 5 == 0 && (size_t)(k / 5) < om.size() ? om[k / 5] : Bytes(); };
  if (c.verbose) { c.say("rate %.4f, pauses (song block, length):", o.rate); for (auto& p : pauses) c.say(" %ld+%ld", p.first, p.second); c.say(", other stream %s\n", other == 0 ? "none" : other == 1 ? "live" : "song"); }
  Bytes file = encSong(gs.song); MemFile mf(file), mo(of), mo2(of); Eng e; EAS_HANDLE h = e.play(mf); REQUIRE(EAS_SetPlaybackRate(e.h, h, rate) == EAS_SUCCESS, "rate refused"); EAS_HANDLE oh = nullptr; if (other == 1) oh = e.live(); if (other == 2) oh = e.play(mo);
  Eng q; EAS_HANDLE qh = nullptr; if (other == 1) qh = q.live(); if (other == 2) qh = q.play(mo2);   // the other stream alone
  long real = 0; Pcm a, alone; auto step = [&]() { Bytes w = liveAt(real); if (!w.empty()) { e.write(oh, w); q.write(qh, w); } e.render(a, 1); if (other) { q.render(alone, 1); if (other == 2) REQUIRE(q.loc(qh) == e.loc(oh), "other song at %ld instead of %ld", e.loc(oh), q.loc(qh)); } real++; };
  struct Seg { long song0, real0, n, quiet; }; std::vector<Seg> segs; long blk = 0, lastPauseLen = 1000; size_t pi = 0; long state; bool silentChecked = false; std::set<long> muted; 
  auto playTo = [&](long to) { Seg s{blk, real, to - blk, lastPauseLen}; while (blk < to) { step(); blk++; double want = blk * ds; long loc = e.loc(h); if (want + 2 < gs.endMs) REQUIRE(loc <= want + 0.02 && loc + 1.02 + blk * 3 / 256.0 > want, "location %ld after %ld song blocks (%.3f ms)", loc, blk, want); } segs.push_back(s); };
  for (; pi < pauses.size(); pi++) {
    playTo(pauses[pi].first); long loc = e.loc(h); state = e.state(h); EAS_RESULT r = EAS_Pause(e.h, h); if (state > EAS_STATE_PLAY) { REQUIRE(r != EAS_SUCCESS, "pause accepted in state %ld", state); c.nontrivial = false; return; } REQUIRE(r == EAS_SUCCESS, "pause in state %ld: %ld", state, (long)r);
    state = e.state(h); REQUIRE(state == EAS_STATE_PAUSING || state == EAS_STATE_PAUSED, "state %ld after pausing", state); bool twice = g.chance(1, 6); if (twice) REQUIRE(EAS_Pause(e.h, h) == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "second pause accepted");
    size_t at = a.size(); long n = pauses[pi].second; for (long i = 0; i < n; i++) { step(); long st = e.state(h); REQUIRE(st == EAS_STATE_PAUSING || st == EAS_STATE_PAUSED, "state %ld while paused", st); if (i >= 6) REQUIRE(st == EAS_STATE_PAUSED, "state %ld, %ld blocks after pausing", st, i); REQUIRE(e.loc(h) == loc, "location moved from %ld to %ld while paused", loc, e.loc(h)); }
    size_t q0 = std::min(a.size(), at + (size_t)4 * 2 * BLK()); if (n > 4) { silentChecked = true; if (!other) REQUIRE(allZero(a, q0), "sound while paused"); else requireSame(Pcm(a.begin() + q0, a.end()), Pcm(alone.begin() + q0, alone.end()), "while paused vs the other stream alone"); }
    r = EAS_Resume(e.h, h); REQUIRE(r == EAS_SUCCESS, "resume: %ld", (long)r); state = e.state(h); REQUIRE(state == EAS_STATE_PLAY || state == EAS_STATE_READY, "state %ld after resuming", state); REQUIRE(EAS_Resume(e.h, h) != EAS_SUCCESS, "second resume accepted"); REQUIRE(e.loc(h) == loc, "location moved by resuming"); lastPauseLen = n; if (n == 0) c.label("resumed at once"); }
  playTo(endBlk); c.label(other == 0 ? "alone" : other == 1 ? "with live stream" : "with another song"); if (silentChecked) c.label("silence checked");
  // each stretch: the settings in force at its start, then its own events. With another stream playing only the stretches of the song alone are compared.
  if (!other) for (auto& s : segs) {
    std::vector<std::vector<Bytes>> bl(1); long notes = 0; for (auto& ev : gs.sched) { if ((*ev.b)[0] == 0xFF) continue; long k = (long)std::floor(ev.ms / ds); if (k < s.song0) { if (!isNote(*ev.b)) bl[0].push_back(*ev.b); continue; } if (k >= s.song0 + s.n) continue; k -= s.song0; if ((long)bl.size() <= k) bl.resize(k + 1); bl[k].push_back(*ev.b); notes++; }
    Bytes f2 = encSong(songFromBlocks(bl, d, s.n + 50)); MemFile m2(f2); Eng e2; EAS_HANDLE h2 = e2.play(m2); Pcm b; e2.render(b, s.n); e2.closeFile(h2);
    long skip = s.song0 == 0 && s.real0 == 0 ? 0 : std::max(0L, 5 - s.quiet); if (skip >= s.n) continue; size_t w = (size_t)2 * BLK(); if (notes) c.label("stretches compared");
    requireSame(Pcm(a.begin() + (s.real0 + skip) * w, a.begin() + (s.real0 + s.n) * w), Pcm(b.begin() + skip * w, b.begin() + s.n * w), fmt("stretch from song block %ld (played at block %ld) vs its settings and events", s.song0, s.real0).c_str()); }
  e.closeFile(h); c.nontrivial = gs.notes >= 2 && !allZero(a) && silentChecked; }
static Reg r("T06", t06, "random songs with up to three pauses of 0 to 34 blocks, alone or next to a live stream or another song, at random rates; oracle per stretch: a song of the settings in force at its start and the events of the stretch; while paused: silence or exactly the other stream; non-trivial: at least two notes, audible, a pause long enough to check silence", 60000, 3000000, 20, 15);
