#include "../songgen.h"
// T08: a leading set-up bar is skipped: a song that opens with tempo, time signature and GM system on plays exactly like the same song cut to begin at its first note, in every pass, after every seek, and in the reported length; any other song keeps its lead-in.
struct Lead { Song full, other; uint32_t gap = 0; int notes = 0; double msPerTick = 1; };
enum Kind { kSetup, kNoTempo, kNoGm, kLateTempo, kLateGm, kLateSig, kGmOff };
static Bytes timeSig(Gen& g) { return {0xFF, 0x58, (uint8_t)g.range(1, 12), (uint8_t)g.range(1, 4), (uint8_t)g.pick({24, 12, 36}), 8}; }
static Bytes noSig(Bytes b) { if (b[0] == 0xFF && b[1] == 0x58) b[1] = 6; return b; }   // a marker in its place
static Lead genLead(Gen& g, Kind kind) {
  Lead L; Song s; int nt = 1 + g.draw(4); s.format = nt > 1 ? 1 : g.draw(2); s.division = g.pick({96, 120, 192, 240, 384, 480, 960}); s.tracks.resize(nt);
  uint32_t us = g.range(60000, 900000); double mpt = (kind == kNoTempo || kind == kLateTempo ? 500000 : us) / 1000.0 / s.division; L.msPerTick = mpt;
  auto ticks = [&](double ms) { return (uint32_t)std::ceil(ms / mpt); };
  double lead = g.chance(1, 10) ? 0 : g.chance(1, 6) ? g.range(1, 8) : g.range(20, 700); L.gap = lead > 0 ? ticks(lead) + 1 : 0; uint32_t late = ticks(3) + 1; if (kind >= kLateTempo && kind <= kLateSig && L.gap < late + 2) L.gap = late + 2;
  struct Item { uint32_t tick; int tr; Bytes b; }; std::vector<Item> pre, rest;
  // the set-up events at the very start
  std::vector<std::pair<int, Bytes>> head; Bytes gm = sysGmOn(); if (kind != kGmOff) { if (g.flip()) gm[gm.size() - 2] = 3; } else gm[gm.size() - 2] = 2;
  int sigTr = g.draw(nt), tempoTr = g.draw(nt);
  uint32_t lateAt = kind >= kLateTempo && kind <= kLateSig ? late + g.draw(L.gap - late) : 0;
  if (kind != kNoGm) pre.push_back({kind == kLateGm ? lateAt : 0, 0, gm});
  if (kind != kNoTempo) pre.push_back({kind == kLateTempo ? lateAt : 0, tempoTr, metaTempo(us)});
  pre.push_back({kind == kLateSig ? lateAt : 0, sigTr, timeSig(g)});
  for (int i = (int)pre.size() - 1; i > 0; i--) std::swap(pre[i], pre[g.draw(i + 1)]);
  if (g.flip()) pre.push_back({0, 0, sysMasterVol(g.range(6000, 16383))});
  // what else is set up before the first note: each track speaks to channels of its own
  auto chanOf = [&](int tr) { int c = tr * 3 + g.draw(3); return c; };
  int np = g.draw(8); for (int i = 0; i < np; i++) { int tr = g.draw(nt), c = chanOf(tr); uint32_t at = L.gap ? g.draw(L.gap + 1) : 0; if (kind == kLateGm && at <= lateAt) at = std::min(L.gap, lateAt + 1); Bytes b; switch (g.draw(6)) { case 0: b = mProg(c, g.draw(128)); break; case 1: b = mCC(c, 7, g.range(60, 127)); break; case 2: b = mCC(c, 10, g.draw(128)); break; case 3: b = mBend(c, g.draw(16384)); break; case 4: b = mNoteOff(c, g.draw(128)); break; default: b = Bytes{(uint8_t)(0x90 | c), (uint8_t)g.draw(128), 0}; } pre.push_back({at, tr, b}); }
  if (g.chance(1, 4) && kind != kNoTempo && L.gap > 4) { pre.push_back({1 + g.draw(L.gap - 1), tempoTr, metaTempo(us / 2 + g.draw(us))}); }
  if (g.flip()) pre.push_back({0, (int)g.draw(nt), Bytes{0xFF, 0x03, 'a', 'b'}});
  std::stable_sort(pre.begin(), pre.end(), [](const Item& a, const Item& b) { return a.tick < b.tick; });
  // the music
  uint32_t at = L.gap; int n = 1 + g.size(14); std::vector<std::pair<int, std::pair<int, int>>> on; bool silent = g.chance(1, 25);
  if (!silent) for (int i = 0; i < n; i++) { int tr = g.draw(nt), c = chanOf(tr), k = g.range(40, 84); if (i && g.chance(2, 3)) at += ticks(g.range(1, 90)); if (i && !on.empty() && g.chance(2, 5)) { auto o = on[g.draw((int)on.size())]; rest.push_back({at, o.first, mNoteOff(o.second.first, o.second.second)}); } else if (i && g.chance(1, 5)) rest.push_back({at, tr, g.flip() ? mCC(c, g.pick({1, 7, 10, 11, 64}), g.draw(128)) : mProg(c, g.draw(128))}); else { rest.push_back({at, tr, mNoteOn(c, k, g.range(40, 127))}); on.push_back({tr, {c, k}}); L.notes++; } }
  uint32_t end = at + ticks(g.range(0, 150));
  L.full = s; L.other = s; bool cut = kind == kSetup;
  if (silent && cut) { for (auto& i : pre) { L.full.tracks[i.tr].ev.push_back({i.tick, i.b}); L.other.tracks[i.tr].ev.push_back({0, noSig(i.b)}); } for (auto& t : L.full.tracks) t.endTick = end; for (auto& t : L.other.tracks) t.endTick = 0; return L; }   // no note at all: nothing is left
  for (auto& i : pre) { L.full.tracks[i.tr].ev.push_back({i.tick, i.b}); L.other.tracks[i.tr].ev.push_back({cut ? 0 : i.tick, noSig(i.b)}); }
  for (auto& i : rest) { L.full.tracks[i.tr].ev.push_back({i.tick, i.b}); L.other.tracks[i.tr].ev.push_back({cut ? i.tick - L.gap : i.tick, i.b}); }
  for (int t = 0; t < nt; t++) { uint32_t e = std::max(end, L.full.tracks[t].ev.empty() ? 0 : L.full.tracks[t].ev.back().tick); L.full.tracks[t].endTick = e; L.other.tracks[t].endTick = cut ? e - L.gap : e; }
  return L; }
static long blockPeak(const Pcm& p, size_t from) { long m = 0; for (size_t i = from; i < p.size(); i++) m = std::max(m, std::labs((long)p[i])); return m; }
static void run(Gen& g, Ctx& c, Kind kind) {
  static const char* const nm[] = {"set-up bar", "no tempo", "no GM on", "late tempo", "late GM on", "late time signature", "GM off"};
  Lead L = genLead(g, kind); describe(c, L.full); c.say("%s, lead-in %u ticks of %.3f ms\n", nm[kind], L.gap, L.msPerTick); c.label(nm[kind]);
  MemFile fa(encSong(L.full)), fb(encSong(L.other)); Eng a, b; EAS_HANDLE ha = a.play(fa), hb = b.play(fb); Pcm pa, pb; long rep = g.chance(1, 3) ? 1 + g.draw(2) : 0;
  if (rep) { REQUIRE(EAS_SetRepeat(a.h, ha, rep) == EAS_SUCCESS && EAS_SetRepeat(b.h, hb, rep) == EAS_SUCCESS, "repeat refused"); c.label("repeated"); }
  EAS_I32 la = -1, lb = -2; bool asked = g.flip(); if (asked) { EAS_RESULT ra = EAS_ParseMetaData(a.h, ha, &la), rb = EAS_ParseMetaData(b.h, hb, &lb); REQUIRE(ra == EAS_SUCCESS && rb == EAS_SUCCESS, "EAS_ParseMetaData: %ld and %ld", (long)ra, (long)rb); REQUIRE(la == lb, "the song is reported %ld ms long, %s %ld ms", (long)la, kind == kSetup ? "without its set-up bar" : "without time signature", (long)lb); c.label("length compared"); }
  struct Op { long at; int k; long v; }; std::vector<Op> ops; int no = g.draw(4); for (int i = 0; i < no; i++) { Op o; o.at = g.draw(120); o.k = g.weighted({5, 2, 2, 1}); o.v = o.k == 0 ? (long)(g.chance(1, 6) ? g.range(0, 4) : g.draw(900)) : o.k == 1 ? g.range(0x10000000, 0x20000000) : 2 + g.draw(14); ops.push_back(o); }
  std::stable_sort(ops.begin(), ops.end(), [](const Op& x, const Op& y) { return x.at < y.at; });
  size_t k = 0; long blocks = 0, dead = 0, pauseLeft = 0; bool heard = false;
  while (blocks < 1500 && dead < 4) {
    while (k < ops.size() && ops[k].at <= blocks && !pauseLeft) { Op& o = ops[k++]; EAS_RESULT ra = 0, rb = 0; const char* w = "";
      switch (o.k) { case 0: w = "seek"; ra = EAS_Locate(a.h, ha, o.v, EAS_FALSE); rb = EAS_Locate(b.h, hb, o.v, EAS_FALSE); dead = 0; break;
        case 1: w = "rate"; ra = EAS_SetPlaybackRate(a.h, ha, (EAS_U32)o.v); rb = EAS_SetPlaybackRate(b.h, hb, (EAS_U32)o.v); break;
        case 2: w = "pause"; ra = EAS_Pause(a.h, ha); rb = EAS_Pause(b.h, hb); if (ra == EAS_SUCCESS) pauseLeft = o.v; break;
        default: w = "scan"; la = lb = -1; ra = EAS_ParseMetaData(a.h, ha, &la); rb = EAS_ParseMetaData(b.h, hb, &lb); if (ra == EAS_SUCCESS) REQUIRE(la == lb, "during playback the song is reported %ld ms long, the other %ld ms", (long)la, (long)lb); dead = 0; }
      c.say("%s %ld at block %ld\n", w, o.v, blocks); c.label(w); REQUIRE(ra == rb, "%s at block %ld: %ld, the other song %ld", w, blocks, (long)ra, (long)rb); }
    size_t from = pa.size(); a.render(pa, 1); b.render(pb, 1); blocks++;
    if (pauseLeft && !--pauseLeft) { EAS_RESULT ra = EAS_Resume(a.h, ha), rb = EAS_Resume(b.h, hb); REQUIRE(ra == rb, "resume: %ld and %ld", (long)ra, (long)rb); }
    long xa = a.loc(ha), xb = b.loc(hb), sa = a.state(ha), sb = b.state(hb); if (blockPeak(pa, from) > 20) heard = true;
    for (size_t i = from; i < pa.size(); i++) REQUIRE(pa[i] == pb[i], "sample %zu of block %ld differs from the song %s: %ld, %ld", i - from, blocks, kind == kSetup ? "cut to its first note" : "without time signature", (long)pa[i], (long)pb[i]);
    REQUIRE(xa == xb, "location %ld at block %ld, %ld in the song %s", xa, blocks, xb, kind == kSetup ? "cut to its first note" : "without time signature"); REQUIRE(sa == sb, "state %ld at block %ld, %ld in the other song", sa, blocks, sb);
    EAS_I32 qa = 0, qb = 0; EAS_GetRepeat(a.h, ha, &qa); EAS_GetRepeat(b.h, hb, &qb); REQUIRE(qa == qb, "repeat count %ld at block %ld, %ld in the other song", (long)qa, blocks, (long)qb);
    if (sa == EAS_STATE_STOPPED && (k >= ops.size() || ops[k].at > blocks + 40)) dead++; }
  a.closeFile(ha); b.closeFile(hb); c.nontrivial = heard && L.gap > 0; if (L.notes > 3) c.label("several notes"); if (L.full.tracks.size() > 1) c.label("several tracks"); }
static void t08(Gen& g, Ctx& c) { int w = g.weighted({5, 4}); run(g, c, w == 0 ? kSetup : (Kind)(1 + g.draw(6))); }
static Reg r("T08", t08, "songs with a lead-in before the first note: complete set-up bars against the same song cut to its first note, incomplete ones (no or late tempo, GM on or time signature, GM off) against the song without time signature; with repeats, seeks, rates, pauses and metadata scans; non-trivial: the song is heard and its lead-in is not empty", 60000, 3000000, 20);
