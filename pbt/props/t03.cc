#include "../songgen.h"
// T03: length, location and completion of a song follow its tempo map (checked against exact arithmetic).
// the engine's documented resolution: ticks are 1/1024 ms long units, times are kept in 1/256 ms
static double tempoTol(const Song& s, const std::vector<SEv>& v, uint32_t endTick) { std::set<uint32_t> at; for (auto& e : v) at.insert(e.tick); for (auto& t : s.tracks) at.insert(t.endTick); return endTick * 0.502 / 1024 + at.size() / 256.0; }
static void t03(Gen& g, Ctx& c) {
  bool lng = g.chance(1, 3); Song s; int nt = g.chance(1, 25) ? g.range(8, 96) : 1 + g.draw(5); s.format = nt > 1 ? 1 : g.draw(2); s.tracks.resize(nt);
  s.division = g.weighted({3, 2, 1}) == 0 ? g.pick({24, 48, 96, 120, 192, 240, 384, 480, 960}) : g.flip() ? g.range(1, 32767) : g.edge(1, 32767);
  MusicOpts mo; mo.chans = genChans(g); MusicGen mg(mo); int n = 1 + g.size(60); double maxMs = lng ? g.pick({5e3, 6e4, 6e5, 4e6, 7.5e6}) : 1500;
  double ms = 0, tm = 500.0 / s.division; uint64_t tick = 0; std::vector<std::pair<uint64_t, std::pair<int, Bytes>>> ev; int tempos = 0; int lastT = -1; uint64_t lastTick = ~0ull;
  for (int i = 0; i < n; i++) {
    double gap = g.chance(1, 3) ? 0 : lng ? maxMs / n * (g.draw(200) / 100.0) : g.draw(100); uint64_t dl = g.chance(1, 10) ? g.draw(3) : (uint64_t)(gap / tm); if (ms + dl * tm > maxMs) dl = 0; if (tick + dl > 0x60000000) dl = 0; ms += dl * tm; tick += dl;
    Bytes b; int tr = g.draw(nt); if (g.chance(1, 8)) { uint32_t us = g.weighted({3, 1, 1}) == 0 ? g.range(200000, 1500000) : g.flip() ? g.edge(1, 0xFFFFFF) : g.range(1, 0xFFFFFF); b = metaTempo(us); tm = us / 1000.0 / s.division; tempos++; if (lastTick == tick && lastT >= 0) tr = lastT; lastT = tr; lastTick = tick; } else b = mg.next(g);
    if (b[0] == 0xFF && tempos && b[1] == 0x51 && g.chance(1, 6)) c.label("odd tempo");
    ev.push_back({tick, {tr, b}}); }
  for (auto& e : ev) s.tracks[e.second.first].ev.push_back({(uint32_t)e.first, e.second.second});
  uint64_t tail = (uint64_t)((lng ? g.draw(1000) : g.draw(300)) / tm); if (tail * tm > 1000) tail = 0; for (auto& t : s.tracks) { uint32_t lo = t.ev.empty() ? 0 : t.ev.back().tick; t.endTick = g.flip() ? lo : (uint32_t)std::max<uint64_t>(lo, tick); } s.tracks[g.draw(nt)].endTick = (uint32_t)(tick + tail);
  double endMs; std::vector<SEv> sch = schedule(s, &endMs); uint32_t endTick = (uint32_t)(tick + tail); for (auto& t : s.tracks) endTick = std::max(endTick, t.endTick); double tol = tempoTol(s, sch, endTick);
  describe(c, s); c.say("ends at %.3f ms (tick %u), tolerance %.3f ms\n", endMs, endTick, tol); c.label(lng ? "long song, length only" : "rendered to its end"); if (tempos) c.label("tempo changes"); 
  Bytes file = encSong(s); MemFile mf(file); Eng e; EAS_HANDLE h = e.play(mf); REQUIRE(e.state(h) == EAS_STATE_READY, "not ready after prepare"); REQUIRE(e.loc(h) == 0, "location %ld before playing", e.loc(h));
  bool parse = lng || g.flip(); long len = -1;
  if (parse) { EAS_I32 l = -1; EAS_RESULT r = EAS_ParseMetaData(e.h, h, &l); REQUIRE(r == EAS_SUCCESS, "EAS_ParseMetaData: %ld", (long)r); len = l; REQUIRE(l <= endMs + tol && l + 1 >= endMs - tol, "length %ld ms, the song ends at %.3f ms (tolerance %.3f)", len, endMs, tol); REQUIRE(e.state(h) == EAS_STATE_READY, "not ready after parsing: %ld", e.state(h)); REQUIRE(e.loc(h) == 0, "location %ld after parsing", e.loc(h));
    if (g.chance(1, 4)) { l = -1; r = EAS_ParseMetaData(e.h, h, &l); REQUIRE(r == EAS_SUCCESS && l == len, "second length %ld after %ld", (long)l, len); } }
  EAS_U32 rate = 1u << 28; if (!lng && g.flip()) { rate = g.flip() ? (EAS_U32)g.edge(1 << 27, 1 << 29) : (EAS_U32)g.range(1 << 27, 1 << 29); REQUIRE(EAS_SetPlaybackRate(e.h, h, rate) == EAS_SUCCESS, "rate refused"); c.label("other rate"); }
  double rr = rate / (double)(1u << 28), d = BLKMS() * rr, dmin = d - (1 + rr) / 256.0;
  c.nontrivial = mg.notes >= 1 && endMs > 20;
  if (lng) { // the same length again in the middle of playing, the song starts over
    if (g.flip()) { e.skip(1 + g.draw(20)); EAS_I32 l = -1; EAS_RESULT r = EAS_ParseMetaData(e.h, h, &l); REQUIRE(r == EAS_SUCCESS && l == len, "length %ld while playing, %ld before", (long)l, len); }
    if (g.flip()) { // locate shortly before the end and play through it
      long to = std::max(1L, len - (long)g.draw(400)); long st; EAS_RESULT r = EAS_Locate(e.h, h, to, 0); REQUIRE(r == EAS_SUCCESS, "locate to %ld of %ld: %ld", to, len, (long)r); REQUIRE(e.loc(h) == to || (to >= len && e.loc(h) == len), "location %ld after locating to %ld", e.loc(h), to);
      long k = 0; while ((st = e.state(h)) != EAS_STATE_STOPPED) { REQUIRE(st == EAS_STATE_PLAY || st == EAS_STATE_STOPPING || st == EAS_STATE_READY, "state %ld", st); double pos = to + std::max(0L, k - 1) * d; REQUIRE(k < 2000, "still in state %ld, %ld blocks after the song was located to %ld of %ld", st, k, to, len); if (st > EAS_STATE_PLAY) REQUIRE(pos + d >= len - 1, "state %ld at %.1f of %ld", st, pos, len); else REQUIRE(pos < len + 2 * d + 2, "playing at %.1f of %ld", pos, len); e.skip(1); k++; } c.label("played through the end"); }
    e.closeFile(h); return; }
  // played to its end: states in order, location follows the rendered time, never early, never late
  Pcm pcm; long st = EAS_STATE_READY, prev = st, k = 0, stopAt = -1; Song sx = s; for (auto& t : sx.tracks) t.ev.push_back({t.endTick, {0xFF, 1}}); double firstMs = schedule(sx)[0].ms;
  double first = endMs - tol, last = endMs + tol;
  while (st != EAS_STATE_STOPPED) {
    e.render(pcm, 1); k++; st = e.state(h); long loc = e.loc(h);
    if (st == EAS_STATE_READY) { REQUIRE((k - 1) * dmin - 1 <= firstMs + tol, "still waiting for the first event at %.3f ms after block %ld", firstMs, k); st = EAS_STATE_PLAY; }
    REQUIRE(st == EAS_STATE_PLAY || st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED, "state %ld after block %ld", st, k); REQUIRE(st >= prev, "state %ld after %ld", st, prev); prev = st;
    if (st == EAS_STATE_PLAY) { REQUIRE(loc <= k * d + 1e-6 && loc + 1 > k * dmin, "location %ld after %ld blocks (%.3f ms)", loc, k, k * d); REQUIRE((k - 1) * dmin - 1 <= last, "still playing after %ld blocks (%.3f ms), the song ends at %.3f", k, k * d, endMs); }
    else { if (stopAt < 0) { stopAt = k; REQUIRE(k * d + 1 >= first, "state %ld after %ld blocks (%.3f ms) although the song ends at %.3f", st, k, k * d, endMs); } REQUIRE(k - stopAt < 40000, "still stopping %ld blocks after the end", k - stopAt); REQUIRE(loc <= k * d + 1e-6 && loc + d + 1 >= first, "location %ld after the end at %.3f", loc, endMs); } }
  long loc = e.loc(h); size_t at = pcm.size(); e.render(pcm, 6); REQUIRE(e.state(h) == EAS_STATE_STOPPED && e.loc(h) == loc, "stopped song moved: state %ld location %ld -> %ld", e.state(h), loc, e.loc(h)); REQUIRE(allZero(pcm, at), "sound after the song has stopped");
  e.closeFile(h); if (!allZero(pcm)) c.label("audible");
  // parsing has no effect on playback
  { MemFile m2(file); Eng e2; EAS_HANDLE h2 = e2.play(m2); if (!parse) { EAS_I32 l; REQUIRE(EAS_ParseMetaData(e2.h, h2, &l) == EAS_SUCCESS, "EAS_ParseMetaData failed"); REQUIRE(l <= endMs + tol && l + 1 >= endMs - tol, "length %ld ms, the song ends at %.3f ms (tolerance %.3f)", (long)l, endMs, tol); } REQUIRE(EAS_SetPlaybackRate(e2.h, h2, rate) == EAS_SUCCESS, "rate refused"); Pcm p2; e2.render(p2, k + 6); e2.closeFile(h2); requireSame(pcm, p2, parse ? "parsed first vs not" : "not parsed vs parsed first"); }
}
static Reg r("T03", t03, "random songs with any division 1..32767 and tempo 1..16777215 us, up to 96 tracks, hours long for the reported length, short ones rendered to their end at any rate; exact tempo arithmetic as oracle with the engine's tick resolution (1/1024 ms) as tolerance; non-trivial: a note and longer than 20 ms", 50000, 2000000, 20, 15);
