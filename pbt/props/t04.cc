#include "../songgen.h"
// T04: after a seek everything equals a song made of the settings in force at that time followed by the remaining events.
static long blkFrom(double base, double ms, double d) { return (long)std::floor((ms - base) / d); }
static void t04(Gen& g, Ctx& c) {
  SongOpts o; o.music.chans = genChans(g); o.maxMs = 1500; o.manyTracks = g.chance(1, 6); long T = g.range(2, 1200); o.baseMs = T; EAS_U32 rate = 1u << 28; if (g.chance(1, 4)) rate = genRate(g); o.rate = rate / (double)(1u << 28); o.d2 = frameMs(rate); int vol = g.chance(1, 4) ? g.range(70, 100) : -1; if (vol >= 0) o.sysex = o.normVolume = false; GenSong gs = genSong(g, o); describe(c, gs.song);
  double d = BLKMS() * o.rate, etol = 2.1 + gs.song.tracks[0].endTick * 0.502 / 1024 + 70 / 256.0; long nb = blkFrom(T, gs.endMs, d) + 2; bool beyond = gs.endMs < T; bool robustEnd = gs.endRobust; 
  int transp = g.chance(1, 4) ? g.range(-12, 12) : 0; int when = g.draw(3); long dur = (long)std::ceil(gs.endMs);
  Bytes file = encSong(gs.song); MemFile mf(file); Eng e; EAS_HANDLE h = e.play(mf); bool rateFirst = g.flip(); if (rateFirst) REQUIRE(EAS_SetPlaybackRate(e.h, h, rate) == EAS_SUCCESS, "rate refused");
  auto set = [&](EAS_DATA_HANDLE eh, EAS_HANDLE s) { if (transp) REQUIRE(EAS_SetTransposition(eh, s, transp) == EAS_SUCCESS, "transposition refused"); if (vol >= 0) REQUIRE(EAS_SetVolume(eh, s, vol) == EAS_SUCCESS, "volume refused"); };
  if (when == 0) set(e.h, h);
  // anything may have happened before the seek
  int n = g.chance(1, 4) ? 0 : 1 + g.draw(6); bool rendered = false; std::string hist;
  for (int i = 0; i < n; i++) switch (g.weighted({4, 3, 1, 1})) {
    case 0: { int k = g.chance(1, 6) ? g.range(100, 500) : 1 + g.draw(60); e.skip(k); rendered = true; hist += fmt(" render %d", k); } break;
    case 1: { long to = g.chance(1, 5) ? dur + g.draw(500) : g.chance(1, 8) ? -(long)(1 + g.draw(3000)) : g.draw(dur + 1); bool off = g.flip(); long cur = e.loc(h); EAS_RESULT r = EAS_Locate(e.h, h, off ? to - cur : to, off); to = std::max(0L, to); REQUIRE(r == EAS_SUCCESS, "locate to %ld from %ld: %ld", to, cur, (long)r); long now = e.loc(h); REQUIRE(now == to || (to >= gs.endMs - etol && std::fabs(now - gs.endMs) <= etol), "location %ld after locating to %ld in a song of %.3f ms", now, to, gs.endMs); rendered = true; hist += fmt(" seek %ld", to); } break;
    case 2: { long st = e.state(h); EAS_RESULT r = EAS_Pause(e.h, h); REQUIRE((r == EAS_SUCCESS) == (st == EAS_STATE_PLAY || st == EAS_STATE_READY), "pause in state %ld: %ld", st, (long)r); if (r == EAS_SUCCESS) { int k = g.draw(20); e.skip(k); rendered = true; r = EAS_Resume(e.h, h); REQUIRE(r == EAS_SUCCESS, "resume: %ld", (long)r); hist += fmt(" pause %d", k); } } break;
    case 3: { EAS_I32 l; REQUIRE(EAS_ParseMetaData(e.h, h, &l) == EAS_SUCCESS, "EAS_ParseMetaData failed"); hist += " parse"; } break; }
  long cur = e.loc(h); if (cur == T) { REQUIRE(EAS_Locate(e.h, h, T > 700 ? 0 : T + 300, 0) == EAS_SUCCESS, "locate failed"); cur = e.loc(h); }
  bool off = g.chance(1, 3); c.say("history:%s; then seek %s to %ld of %.3f, transposition %d volume %d set %s\n", hist.c_str(), off ? "by offset" : "", T, gs.endMs, transp, vol, when == 0 ? "first" : when == 1 ? "before the seek" : "after the seek");
  if (cur == T) { c.nontrivial = false; return; }
  if (when == 1) set(e.h, h);
  EAS_RESULT r = EAS_Locate(e.h, h, off ? T - cur : T, off); REQUIRE(r == EAS_SUCCESS, "locate to %ld from %ld: %ld", T, cur, (long)r);
  if (!rateFirst) REQUIRE(EAS_SetPlaybackRate(e.h, h, rate) == EAS_SUCCESS, "rate refused"); if (rate != 1u << 28) c.label("other rate");
  if (when == 2) set(e.h, h);
  c.label(cur > T ? "backward" : "forward"); 
  if (gs.endMs + etol < T && gs.endRobust) { // beyond the end
    c.label("beyond the end"); long st = e.state(h); REQUIRE(st == EAS_STATE_STOPPED || st == EAS_STATE_STOPPING, "state %ld after seeking to %ld in a song of %.3f ms", st, T, gs.endMs); long l = e.loc(h); REQUIRE(std::fabs(l - gs.endMs) <= etol, "location %ld after seeking to %ld in a song of %.3f ms", l, T, gs.endMs);
    Pcm p; for (int i = 0; i < 10; i++) { e.render(p, 1); } REQUIRE(e.state(h) == EAS_STATE_STOPPED, "state %ld long after seeking beyond the end", e.state(h)); REQUIRE(allZero(p, 6 * 2 * BLK()), "sound after seeking beyond the end"); REQUIRE(e.loc(h) == l, "location moved from %ld to %ld after the end", l, e.loc(h)); c.nontrivial = gs.notes >= 1; e.closeFile(h); return; }
  if (beyond || (T > gs.endMs - etol && e.loc(h) != T)) { c.nontrivial = false; return; }
  REQUIRE(e.loc(h) == T, "location %ld after seeking to %ld", e.loc(h), T); { long st = e.state(h); REQUIRE(st == EAS_STATE_PLAY || st == EAS_STATE_READY, "state %ld after seeking into the song", st); }
  if (!robustEnd) nb -= 4; if (nb < 3) { c.nontrivial = false; return; } if (nb > 300) nb = 300; if (robustEnd) nb += 6;
  Pcm a; std::vector<long> la; for (long i = 0; i < nb; i++) { e.render(a, 1); la.push_back(e.loc(h)); } e.closeFile(h);
  for (long i = 0; i < nb; i++) { double want = T + i * d; if (want + d < gs.endMs - 1) REQUIRE(std::fabs(la[i] - want) <= 1.01 + i * 3 / 256.0, "location %ld, %ld blocks after seeking to %ld", la[i], i + 1, T); }
  // the song that is left: settings, then the remaining events; the first block after a seek plays nothing
  std::vector<std::vector<Bytes>> bl(1); long notes = 0, before = 0; for (auto& ev : gs.sched) { if (ev.ms < T) { if (isNote(*ev.b)) { before++; continue; } if ((*ev.b)[0] != 0xFF) bl[0].push_back(*ev.b); continue; } if ((*ev.b)[0] == 0xFF) continue; size_t k = 1 + blkFrom(T, ev.ms, d); if (bl.size() <= k) bl.resize(k + 1); bl[k].push_back(*ev.b); notes += isNote(*ev.b); }
  Song left = songFromBlocks(bl, BLKMS(), 1 + blkFrom(T, gs.endMs, d)); Bytes f2 = encSong(left); MemFile m2(f2); Eng e2; EAS_HANDLE h2 = e2.play(m2); set(e2.h, h2); Pcm b; e2.render(b, nb); e2.closeFile(h2);
  long from = rendered ? std::min(nb, 5L) : 0; Pcm a2(a.begin() + from * 2 * BLK(), a.end()), b2(b.begin() + from * 2 * BLK(), b.end());
  c.nontrivial = notes && (before || rendered) && !allZero(b2); if (rendered) c.label("played before"); if (before) c.label("notes skipped", before);
  requireSame(a2, b2, rendered ? "after the seek (from block 5 on) vs the song that is left" : "after the seek vs the song that is left");
}
static Reg r("T04", t04, "random songs, any history of playing, seeking, pausing and parsing, then a seek (absolute or relative) to a random millisecond, with transposition and volume set before or after; oracle: a song holding the settings in force at that time and the remaining events; non-trivial: notes remain and are audible, and something was skipped or played before", 80000, 3000000, 20, 15);
