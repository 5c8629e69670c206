#include "../songgen.h"
// T05: stream states and repeats against a model of the documented state machine; every pass sounds like the first.
enum Ph { pOpen, pActive, pPaused, pEnded };
struct Single { Pcm pcm; long len = 0; };   // one pass: blocks until the song is reported stopped
struct Set { long rate = -1, vol = -1, transp = 99, poly = -1; void apply(Eng& e, EAS_HANDLE h) const { if (rate >= 0) REQUIRE(EAS_SetPlaybackRate(e.h, h, (EAS_U32)rate) == EAS_SUCCESS, "rate refused"); if (vol >= 0) REQUIRE(EAS_SetVolume(e.h, h, vol) == EAS_SUCCESS, "volume refused"); if (transp != 99) REQUIRE(EAS_SetTransposition(e.h, h, transp) == EAS_SUCCESS, "transposition refused"); if (poly >= 0) REQUIRE(EAS_SetPolyphony(e.h, h, poly) == EAS_SUCCESS, "polyphony refused"); } };   // what the host sets at first holds in every pass
static Single playOnce(const Bytes& file, const Set& set) { Single s; MemFile mf(file); Eng e; EAS_HANDLE h = e.play(mf); set.apply(e, h); while (e.state(h) != EAS_STATE_STOPPED) { REQUIRE(s.len < 40000, "a single pass does not stop"); e.render(s.pcm, 1); s.len++; } e.closeFile(h); return s; }
static void repeats(Gen& g, Ctx& c) {
  SongOpts o; o.music.chans = genChans(g); o.maxMs = g.flip() ? 120 : 400; o.maxEvents = 25; o.tailMs = g.draw(60); o.sysex = false; o.manyTracks = g.chance(1, 8); GenSong gs = genSong(g, o); describe(c, gs.song); Bytes file = encSong(gs.song);
  Set set; if (g.chance(1, 3)) { if (g.flip()) set.rate = g.range(1 << 27, 1 << 29); if (g.chance(1, 3)) set.vol = g.range(60, 100); if (g.chance(1, 3)) set.transp = g.range(-12, 12); if (g.chance(1, 3)) set.poly = g.range(1, 8); c.say("rate %ld volume %ld transposition %ld polyphony %ld\n", set.rate, set.vol, set.transp, set.poly); c.label("settings first"); }
  Single one = playOnce(file, set); if (one.len > 3000) { c.nontrivial = false; return; } long n = g.weighted({4, 2, 1}) == 0 ? g.draw(4) : g.flip() ? -(long)(1 + g.draw(3)) : g.range(4, 8); if (one.len > 600 && n > 2) n = 2; if (one.len < 4 && n < 0) n = 1; bool late = g.chance(1, 4); long changeTo = g.chance(1, 5) ? (long)g.draw(3) : -99; int poll = g.draw(3); bool pauseOnce = g.chance(1, 4) && set.poly < 0; long pauseAt = g.draw(one.len * 2 + 1);
  c.say("repeat %ld, one pass %ld blocks, set %s, change to %ld, polling %d, pause at %ld (%d)\n", n, one.len, late ? "late" : "first", changeTo, poll, pauseAt, pauseOnce);
  MemFile mf(file); Eng e; EAS_HANDLE h = e.play(mf); set.apply(e, h); EAS_I32 v = -77; REQUIRE(EAS_GetRepeat(e.h, h, &v) == EAS_SUCCESS && v == 0, "repeat count %ld at first", (long)v); long lateAt = late ? g.draw(std::max(1L, one.len - 3)) : 0; Pcm a; long real = 0, passStart = 0, passes = 1, count = 0; std::vector<std::pair<long, long>> pass; bool pausedSeen = false; long limitPasses = n < 0 ? 4 : n + 1, dead = 0; bool changed = false; long pausedBlocks = 0, pauseBlk = -1;
  if (!late) { REQUIRE(EAS_SetRepeat(e.h, h, n) == EAS_SUCCESS, "repeat %ld refused", n); count = n; }
  pass.push_back({0, 0}); long lastLoc = 0;
  for (;;) {
    if (late && real >= lateAt) { REQUIRE(EAS_SetRepeat(e.h, h, n) == EAS_SUCCESS, "repeat %ld refused", n); count = n; late = false; }
    if (changeTo != -99 && !changed && passes == 2 && real >= passStart + 1) { REQUIRE(EAS_SetRepeat(e.h, h, changeTo) == EAS_SUCCESS, "repeat refused"); count = changeTo; changed = true; n = changeTo; limitPasses = 2 + changeTo; c.label("changed between passes"); }
    if (pauseOnce && real >= pauseAt && !pausedSeen) { long st = e.state(h); pausedSeen = true; if (st <= EAS_STATE_PLAY) { EAS_RESULT r = EAS_Pause(e.h, h); if (r == EAS_SUCCESS) { pauseBlk = real; long k = 6 + g.draw(10); for (long i = 0; i < k; i++) { e.render(a, 1); real++; pausedBlocks++; st = e.state(h); REQUIRE(st == EAS_STATE_PAUSED || st == EAS_STATE_PAUSING, "state %ld while paused", st); } REQUIRE(EAS_Resume(e.h, h) == EAS_SUCCESS, "resume refused"); c.label("paused"); } } }
    e.render(a, 1); real++; long st = -1; if (poll == 0 || (poll == 1 && real % 3 == 0)) st = e.state(h); long loc = e.loc(h); EAS_I32 rc = -77; REQUIRE(EAS_GetRepeat(e.h, h, &rc) == EAS_SUCCESS, "EAS_GetRepeat");
    if (loc < lastLoc || (rc == count - 1 && loc == 0 && lastLoc == 0 && count > 0)) { // the next pass begins
      REQUIRE(loc == 0, "location fell from %ld to %ld", lastLoc, loc); passes++; passStart = real; if (count > 0) count--; else REQUIRE(count < 0, "pass %ld begins although the count had reached 0", passes); pass.push_back({real, 0}); if (passes > limitPasses && n >= 0) fail(fmt("pass %ld of a song set to repeat %ld times", passes, n)); }
    REQUIRE(rc == count, "repeat count %ld, expected %ld, in pass %ld", (long)rc, count, passes);
    lastLoc = loc; pass.back().second = real - pass.back().first;
    if (st >= 0) { REQUIRE(st == EAS_STATE_READY || st == EAS_STATE_PLAY || st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED, "state %ld in pass %ld", st, passes); if (count != 0) REQUIRE(st != EAS_STATE_STOPPED, "stopped with %ld passes to go", count); }
    if (real - passStart - (pauseBlk >= passStart ? pausedBlocks : 0) > one.len + 8) { if (count == 0) { REQUIRE(e.state(h) == EAS_STATE_STOPPED, "state %ld long after the last pass", e.state(h)); if (++dead > 6) break; } else fail(fmt("pass %ld has not ended after %ld blocks, one pass takes %ld", passes, real - passStart, one.len)); }
    if (n < 0 && passes > 4) break; }
  long want = n < 0 ? 5 : limitPasses; REQUIRE(passes == want, "%ld passes for repeat %ld", passes, n); e.closeFile(h);
  size_t w = 2 * BLK(); for (size_t i = 0; i < pass.size(); i++) { if (pauseBlk >= pass[i].first && (i + 1 == pass.size() || pauseBlk < pass[i + 1].first)) continue; long m = std::min(pass[i].second, one.len); requireSame(Pcm(a.begin() + pass[i].first * w, a.begin() + (pass[i].first + m) * w), Pcm(one.pcm.begin(), one.pcm.begin() + m * w), fmt("pass %zu vs a single pass", i + 1).c_str()); for (size_t k = (pass[i].first + m) * w; k < (pass[i].first + pass[i].second) * w; k++) REQUIRE(!a[k], "sound behind the end of pass %zu", i + 1); }
  c.nontrivial = passes > 1 && gs.notes && !allZero(one.pcm); c.label("passes", passes); if (n < 0) c.label("forever"); }

static void machine(Gen& g, Ctx& c) {
  SongOpts o; o.music.chans = genChans(g); o.maxMs = g.flip() ? 150 : 600; o.maxEvents = 25; o.tailMs = g.draw(100); o.manyTracks = false; o.normVolume = g.flip(); o.leadMs = g.flip() ? 0 : g.range(1, 200); GenSong gs = genSong(g, o); describe(c, gs.song); Bytes file = encSong(gs.song); double d = BLKMS(), first = gs.sched.empty() ? gs.endMs : gs.sched[0].ms, slack = 1.1 + gs.song.tracks[0].endTick * 0.502 / 1024 + 26 / 256.0, end = gs.endMs;
  MemFile mf(file); Eng e; EAS_HANDLE h = e.open(mf); Ph ph = pOpen; double pos = 0; bool fresh = true, resumed = false; int pausedBlocks = 0, endedBlocks = 0; bool sawStopped = false; int n = 4 + g.size(30), trans = 0; long skipBlock = 0;
  auto check = [&](const char* what) {
    EAS_STATE st = -1; EAS_RESULT r = EAS_State(e.h, h, &st); REQUIRE(r == EAS_SUCCESS, "EAS_State: %ld", (long)r); EAS_I32 l = -1; r = EAS_GetLocation(e.h, h, &l);
    if (ph == pOpen) { REQUIRE(st == EAS_STATE_OPEN, "after %s: state %ld before prepare", what, (long)st); REQUIRE(r != EAS_SUCCESS, "after %s: location reported before prepare", what); return; }
    REQUIRE(r == EAS_SUCCESS, "EAS_GetLocation: %ld", (long)r);
    if (ph == pActive && pos >= end - slack) if (st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED) { ph = pEnded; endedBlocks = 0; sawStopped = false; pos = l; REQUIRE(std::fabs(l - end) <= slack + d + 1, "after %s: ended at %ld, the song ends at %.3f", what, (long)l, end); }
    switch (ph) {
      case pActive: REQUIRE(pos <= end + slack + d, "after %s: state %ld at %.3f, the song ends at %.3f", what, (long)st, pos, end); if (st == EAS_STATE_READY) REQUIRE(pos <= first + slack + d, "after %s: ready at %.3f, first event at %.3f", what, pos, first); else REQUIRE(st == EAS_STATE_PLAY, "after %s: state %ld at %.3f of %.3f while playing", what, (long)st, pos, end); if (fresh) REQUIRE(st == EAS_STATE_READY, "after %s: state %ld, not ready", what, (long)st); if (st == EAS_STATE_READY && !resumed) REQUIRE(pos <= first + d + slack, "ready"); REQUIRE(l <= pos + 0.02 && l + 1.02 + 2 > pos, "after %s: location %ld, expected %.3f", what, (long)l, pos); break;
      case pPaused: REQUIRE(st == EAS_STATE_PAUSED || (st == EAS_STATE_PAUSING && pausedBlocks < 6), "after %s: state %ld, paused for %d blocks", what, (long)st, pausedBlocks); REQUIRE(l <= pos + 0.02 && l + 1.02 + 2 > pos, "after %s: location %ld, paused at %.3f", what, (long)l, pos); break;
      case pEnded: REQUIRE(st == EAS_STATE_STOPPED || (st == EAS_STATE_STOPPING && !sawStopped), "after %s: state %ld after the end", what, (long)st); if (st == EAS_STATE_STOPPED) sawStopped = true; REQUIRE(l == (long)pos, "after %s: location moved to %ld after the end at %ld", what, (long)l, (long)pos); break;
      default: break; } };
  check("open");
  for (int i = 0; i < n; i++) {
    int k = g.weighted({3, 8, 4, 4, 4, 1, 1}); static const char* const nm[] = {"prepare", "render", "pause", "resume", "locate", "parse", "reopen"}; c.say(" %s@%.1f", nm[k], pos);
    switch (k) {
      case 0: { EAS_RESULT r = EAS_Prepare(e.h, h); if (ph == pOpen) { REQUIRE(r == EAS_SUCCESS, "prepare: %ld", (long)r); ph = pActive; pos = 0; fresh = true; trans++; } else REQUIRE(r != EAS_SUCCESS, "second prepare accepted"); check("prepare"); } break;
      case 1: { int m = g.chance(1, 5) ? 1 + g.draw(150) : 1 + g.draw(12); for (int q = 0; q < m; q++) { e.skip(1); if (ph == pActive) { fresh = false; if (!skipBlock) pos += d; } skipBlock = 0; if (ph == pPaused) { pausedBlocks++; } if (ph == pEnded) endedBlocks++; if (g.chance(2, 3) || ph == pActive) check("render"); } c.label("rendered"); } break;
      case 2: { EAS_RESULT r = EAS_Pause(e.h, h); if (ph == pActive) { REQUIRE(r == EAS_SUCCESS, "pause at %.3f of %.3f: %ld", pos, end, (long)r); ph = pPaused; pausedBlocks = 0; fresh = false; trans++; c.label("pause"); } else REQUIRE(r == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "pause in phase %d: %ld", (int)ph, (long)r); check("pause"); } break;
      case 3: { EAS_RESULT r = EAS_Resume(e.h, h); if (ph == pPaused) { REQUIRE(r == EAS_SUCCESS, "resume: %ld", (long)r); ph = pActive; resumed = true; trans++; c.label("resume"); } else REQUIRE(r == EAS_ERROR_NOT_VALID_IN_THIS_STATE, "resume in phase %d: %ld", (int)ph, (long)r); check("resume"); } break;
      case 4: { long to = g.weighted({6, 1, 1}) == 0 ? g.draw((int)end + 1) : g.flip() ? 0 : (long)end + g.draw(300); bool off = ph != pOpen && g.flip(); EAS_I32 cur = 0; if (ph != pOpen) EAS_GetLocation(e.h, h, &cur); EAS_RESULT r = EAS_Locate(e.h, h, off ? to - (long)cur : to, off);
        if (ph == pOpen) { REQUIRE(r != EAS_SUCCESS, "locate accepted before prepare"); check("locate"); break; }
        REQUIRE(r == EAS_SUCCESS, "locate to %ld: %ld", to, (long)r); if (to == (long)cur) { check("locate to where it is"); break; }
        c.label("locate"); trans++; skipBlock = 1; long l = e.loc(h); long st = e.state(h); bool wasPaused = ph == pPaused; fresh = false; resumed = false;
        if (to > end + slack) { REQUIRE(st == EAS_STATE_STOPPED || st == EAS_STATE_STOPPING, "state %ld after locating to %ld of %.3f", st, to, end); ph = pEnded; pos = l; sawStopped = false; REQUIRE(std::fabs(l - end) <= slack + 1, "location %ld after locating beyond the end at %.3f", l, end); skipBlock = 0; }
        else if (to >= end - slack && (st == EAS_STATE_STOPPED || st == EAS_STATE_STOPPING)) { ph = pEnded; pos = l; sawStopped = false; skipBlock = 0; }
        else { REQUIRE(l == to, "location %ld after locating to %ld", l, to); pos = to; if (wasPaused) { ph = pPaused; } else ph = pActive; }
        check("locate"); } break;
      case 5: { EAS_I32 len = -1; EAS_RESULT r = EAS_ParseMetaData(e.h, h, &len); if (ph == pOpen) REQUIRE(r != EAS_SUCCESS, "parsed before prepare"); else { REQUIRE(r == EAS_SUCCESS, "parse: %ld", (long)r); REQUIRE(std::fabs(len - end) <= slack + 1, "length %ld of %.3f", (long)len, end); ph = pActive; pos = 0; fresh = true; resumed = false; skipBlock = 0; trans++; } check("parse"); } break;
      case 6: { e.closeFile(h); h = e.open(mf); ph = pOpen; pos = 0; skipBlock = 0; resumed = false; check("reopen"); c.label("reopened"); } break; } }
  e.closeFile(h); c.nontrivial = trans >= 3; }
static void t05(Gen& g, Ctx& c) { if (g.flip()) { c.label("repeats"); repeats(g, c); } else { c.label("state machine"); machine(g, c); } }
static Reg r("T05", t05, "songs with repeat counts 0..8 or negative, set first, late or changed, with a pause: number of passes, reported count, states, each pass against a single one; and histories of prepare, render, pause, resume, locate, parse and reopen against a model of the stream states; non-trivial: more than one audible pass, or at least three transitions", 60000, 3000000, 20, 15);
