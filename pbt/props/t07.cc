#include "../songgen.h"
// T07: the playback rate moves events in time and changes nothing else.
static void t07(Gen& g, Ctx& c) {
  double b = BLKMS(); int nseg = 1 + (g.flip() ? 1 + g.draw(3) : 0); std::vector<EAS_U32> rate; std::vector<long> at; SongOpts o; double ms = 0; long blk = 0; o.maxMs = 1500;
  for (int i = 0; i < nseg; i++) { rate.push_back(i == 0 && g.chance(1, 5) ? 1u << 28 : genRate(g)); double r = rate[i] / (double)(1u << 28); at.push_back(blk); 
    // blocks are counted from the exact engine position: frame lengths are whole 1/256 ms
    o.segs.push_back({ms, b * r, frameMs(rate[i])}); long n = 1 + g.draw(120); blk += n; ms += n * frameMs(rate[i]); }
  o.music.chans = genChans(g); o.manyTracks = g.chance(1, 6); GenSong gs = genSong(g, o); describe(c, gs.song);
  if (c.verbose) for (int i = 0; i < nseg; i++) c.say("rate %#lx (%.4f) from block %ld, %.3f ms\n", (long)rate[i], rate[i] / (double)(1u << 28), at[i], o.segs[i].first);
  auto posBlock = [&](double t) { size_t i = 0; while (i + 1 < o.segs.size() && o.segs[i + 1].first <= t) i++; return at[i] + (long)std::floor((t - o.segs[i].first) / o.segs[i].second); };
  long nb = posBlock(gs.endMs) + (gs.endRobust ? 8 : -2); if (nb < 4) { c.nontrivial = false; return; } if (nb > 600) nb = 600;
  Bytes file = encSong(gs.song); MemFile mf(file); Eng e; EAS_HANDLE h = nullptr; bool early = g.flip(); h = e.open(mf); if (early) REQUIRE(EAS_SetPlaybackRate(e.h, h, rate[0]) == EAS_SUCCESS, "rate refused"); REQUIRE(EAS_Prepare(e.h, h) == EAS_SUCCESS, "EAS_Prepare"); if (!early) REQUIRE(EAS_SetPlaybackRate(e.h, h, rate[0]) == EAS_SUCCESS, "rate refused");
  Pcm a; long lastLoc = 0; int bad = 0; for (long k = 0, i = 0; k < nb; k++) {
    if (i + 1 < nseg && k == at[i + 1]) { i++; REQUIRE(EAS_SetPlaybackRate(e.h, h, rate[i]) == EAS_SUCCESS, "rate %#lx refused", (long)rate[i]); }
    if (g.chance(1, 40)) { EAS_U32 r = g.flip() ? (EAS_U32)g.range(0, (1 << 27) - 1) : g.flip() ? (1u << 29) + 1 + g.draw(1 << 29) : g.pick({0u, 1u, (1u << 27) - 1, (1u << 29) + 1, 0xFFFFFFFFu, 0x80000000u, 1u << 26}); EAS_RESULT q = EAS_SetPlaybackRate(e.h, h, r); REQUIRE(q != EAS_SUCCESS, "rate %#lx accepted", (long)r); bad++; }
    e.render(a, 1); long loc = e.loc(h); double want = o.segs[i].first + (k + 1 - at[i]) * o.segs[i].second; if (want + 2 < gs.endMs) REQUIRE(loc <= want + 1e-6 + 0.01 && loc + 1.02 + (k + 1) * 3 / 256.0 > want, "location %ld after block %ld, expected %.3f", loc, k, want); lastLoc = loc; }
  e.closeFile(h); if (bad) c.label("rates refused", bad); (void)lastLoc;
  std::vector<std::vector<Bytes>> bl(1); for (auto& ev : gs.sched) { if ((*ev.b)[0] == 0xFF) continue; size_t k = posBlock(ev.ms); if (bl.size() <= k) bl.resize(k + 1); bl[k].push_back(*ev.b); }
  Song s2 = songFromBlocks(bl, b, posBlock(gs.endMs)); Bytes f2 = encSong(s2); MemFile m2(f2); Eng e2; EAS_HANDLE h2 = e2.play(m2); Pcm p; e2.render(p, nb); e2.closeFile(h2);
  c.nontrivial = gs.notes >= 2 && !allZero(p) && (nseg > 1 || rate[0] != 1u << 28); c.label(nseg > 1 ? "rate changes while playing" : "one rate");
  requireSame(a, p, "song at another rate vs song with its events at the stretched times"); }
static Reg r("T07", t07, "random songs with up to four playback rates from one half to two, refused rates in between; oracle: a song at the nominal rate with each event in the block its stretched time falls into; non-trivial: at least two notes, audible, a rate other than one", 70000, 3000000, 20, 15);
