// A01: settings accept their documented range, read back, persist, and are private to their stream.
#include "../songgen.h"
struct Set { long vol = 100, tr = 0, prio = 5, poly = 0, rep = 0; };
struct Slot { int kind = 0; EAS_HANDLE h = nullptr, h2 = nullptr; bool ready = false, gone = false; Set s; std::unique_ptr<MemFile> f, f2; double len = 0; bool repTouched = false, endless = false; };   // 0 empty 1 file 2 live
static void a01(Gen& g, Ctx& c) {
  Eng a, b; Slot S[3]; long master = -1, synth = -1; bool hs = false; int refused = 0, sets = 0, checks = 0; EAS_I32 v = 0; Pcm pa, pb;
  master = EAS_GetVolume(a.h, nullptr); REQUIRE(EAS_GetSynthPolyphony(a.h, 0, &v) == EAS_SUCCESS, "EAS_GetSynthPolyphony"); synth = v; REQUIRE(master == 90 || (master >= 0 && master <= 100), "initial volume %ld", master); REQUIRE(synth >= 1 && synth <= 64, "initial polyphony %ld", synth);
  auto checkAll = [&]() { checks++;
    REQUIRE(EAS_GetVolume(a.h, nullptr) == master, "master volume reads %ld instead of %ld", (long)EAS_GetVolume(a.h, nullptr), master);
    REQUIRE(EAS_GetSynthPolyphony(a.h, 0, &v) == EAS_SUCCESS && v == synth, "polyphony reads %ld instead of %ld", (long)v, synth);
    for (int i = 0; i < 3; i++) { Slot& s = S[i]; if (!s.kind) continue; EAS_HANDLE h = s.h; if (s.kind == 1) b.state(s.h2);   // observing a song may settle its end (stolen last voice): observe both
      EAS_I32 rp = -99; REQUIRE(EAS_GetRepeat(a.h, h, &rp) == EAS_SUCCESS, "EAS_GetRepeat"); if (s.s.rep <= 0) REQUIRE(rp == s.s.rep, "slot %d: repeat reads %ld instead of %ld", i, (long)rp, s.s.rep); else { REQUIRE(rp >= 0 && rp <= s.s.rep, "slot %d: repeat reads %ld, set to %ld", i, (long)rp, s.s.rep); if (rp < s.s.rep) s.s.rep = rp; }
      if (s.kind == 2 || !s.ready) { EAS_I32 z = 0; REQUIRE(EAS_GetVolume(a.h, h) < 0, "volume of a stream that is not prepared reads %ld", (long)EAS_GetVolume(a.h, h)); REQUIRE(EAS_GetPriority(a.h, h, &z) != EAS_SUCCESS && EAS_GetPolyphony(a.h, h, &z) != EAS_SUCCESS, "settings of a stream that is not prepared can be read"); continue; }
      REQUIRE(EAS_GetVolume(a.h, h) == s.s.vol, "slot %d: volume reads %ld instead of %ld", i, (long)EAS_GetVolume(a.h, h), s.s.vol);
      REQUIRE(EAS_GetPriority(a.h, h, &v) == EAS_SUCCESS && v == s.s.prio, "slot %d: priority reads %ld instead of %ld", i, (long)v, s.s.prio);
      REQUIRE(EAS_GetPolyphony(a.h, h, &v) == EAS_SUCCESS && v == s.s.poly, "slot %d: polyphony reads %ld instead of %ld", i, (long)v, s.s.poly);
    } };
  auto num = [&](long lo, long hi) -> long { switch (g.draw(9)) { case 0: return lo; case 1: return hi; case 2: return lo - 1; case 3: return hi + 1; case 4: return lo + g.pick({256L, 65536L, -256L, -65536L, 4294967296L, -4294967296L}); case 5: return (long)(int)g.draw(0); default: return lo + (long)g.draw(hi - lo + 1); } };
  int n = 10 + g.draw(60); bool audible = false;
  for (int k = 0; k < n; k++) {
    int i = g.draw(3); Slot& s = S[i]; int w = g.weighted({s.kind ? 0 : 8, 6, 12, 3, 2, 1, 2, 1});
    switch (w) {
      case 0: { bool file = g.chance(3, 4); s = Slot(); if (file) { SongOpts o; o.maxMs = 600; o.manyTracks = false; o.maxEvents = 30; o.music.chans = {0, 1, 9}; GenSong gs = genSong(g, o); Bytes enc = encSong(gs.song); bool junk = g.chance(1, 4); if (junk) { Bytes j{1, 2, 3, 'M', 'T'}; j.insert(j.end(), enc.begin(), enc.end()); enc = j; }
          s.f.reset(new MemFile(enc)); s.f2.reset(new MemFile(enc)); s.len = gs.endMs; EAS_RESULT r = EAS_OpenFile(a.h, &s.f->loc, &s.h), r2 = EAS_OpenFile(b.h, &s.f2->loc, &s.h2); REQUIRE(r == r2, "results differ"); c.say("open %d%s = %ld\n", i, junk ? " with leading bytes" : "", (long)r);
          REQUIRE((r == EAS_SUCCESS) == (!junk || hs), "song with%s leading bytes, header search %d: EAS_OpenFile = %ld", junk ? "" : "out", hs, (long)r); if (r != EAS_SUCCESS) { s = Slot(); break; } s.kind = 1; EAS_I32 rp = -1; REQUIRE(EAS_GetRepeat(a.h, s.h, &rp) == EAS_SUCCESS && rp == 0, "new stream repeats %ld times", (long)rp);
          if (g.chance(5, 6)) { REQUIRE(EAS_Prepare(a.h, s.h) == EAS_SUCCESS && EAS_Prepare(b.h, s.h2) == EAS_SUCCESS, "EAS_Prepare"); s.ready = true; long dv = EAS_GetVolume(a.h, s.h); REQUIRE(dv == s.s.vol, "new stream has volume %ld", dv); } }
        else { s.h = a.live(); s.h2 = b.live(); s.kind = 2; c.say("live %d\n", i); } break; }
      case 1: { // notes / render
        for (Slot& q : S) if (q.kind == 2 && g.flip()) { Bytes m = mNoteOn(g.draw(3), 40 + g.draw(40), 1 + g.draw(127)); a.write(q.h, m); b.write(q.h2, m); }
        int nb = 1 + g.draw(12); c.say("render %d\n", nb); size_t o0 = pa.size(); a.render(pa, nb); b.render(pb, nb); if (peak(pa, o0) > 50) audible = true; break; }
      case 2: { // a setting
        bool glob = !s.kind || g.chance(1, 4); EAS_RESULT r = 0; bool ok = false; 
        if (glob) { switch (g.draw(3)) {
            case 0: { long x = num(0, 100); ok = x >= 0 && x <= 100; r = EAS_SetVolume(a.h, nullptr, x); c.say("master volume %ld = %ld\n", x, (long)r); if (ok) { master = x; EAS_SetVolume(b.h, nullptr, x); } break; }
            case 1: { long x = num(1, 64); int y = g.chance(1, 6) ? g.pick({-1, 1, 2, 3, 256, 65536}) : 0; ok = y == 0; r = EAS_SetSynthPolyphony(a.h, y, x); c.say("synth polyphony %d %ld = %ld\n", y, x, (long)r); if (ok) { synth = x < 1 ? 1 : x > 64 ? 64 : x; EAS_SetSynthPolyphony(b.h, 0, synth); } else { EAS_I32 z = 0; REQUIRE(EAS_GetSynthPolyphony(a.h, y, &z) != EAS_SUCCESS, "polyphony of synth %d can be read", y); } break; }
            default: hs = g.flip(); ok = true; r = EAS_SetHeaderSearchFlag(a.h, hs); EAS_SetHeaderSearchFlag(b.h, hs); c.say("header search %d\n", hs); } }
        else { bool rd = s.kind == 1 && s.ready; switch (g.draw(7)) {
            case 0: { long x = num(0, 100); ok = rd && x >= 0 && x <= 100; r = EAS_SetVolume(a.h, s.h, x); c.say("volume %d %ld = %ld\n", i, x, (long)r); if (ok) { s.s.vol = x; EAS_SetVolume(b.h, s.h2, x); } break; }
            case 1: { long x = num(-12, 12); ok = rd && x >= -12 && x <= 12; r = EAS_SetTransposition(a.h, s.h, x); c.say("transposition %d %ld = %ld\n", i, x, (long)r); if (ok) { s.s.tr = x; EAS_SetTransposition(b.h, s.h2, x); } break; }
            case 2: { EAS_U32 x = g.chance(1, 3) ? g.draw(0) : g.chance(1, 4) ? g.pick({1u << 27, 1u << 29, (1u << 27) - 1, (1u << 29) + 1, 0u}) : (EAS_U32)g.range(1 << 27, 1 << 29); ok = x >= (1u << 27) && x <= (1u << 29); r = EAS_SetPlaybackRate(a.h, s.h, x); c.say("rate %d %#lx = %ld\n", i, (long)x, (long)r); if (ok) EAS_SetPlaybackRate(b.h, s.h2, x); break; }
            case 3: { long x = num(1, 15); ok = rd && x >= 1 && x <= 15; r = EAS_SetPriority(a.h, s.h, x); c.say("priority %d %ld = %ld\n", i, x, (long)r); if (ok) { s.s.prio = x; EAS_SetPriority(b.h, s.h2, x); } break; }
            case 4: { long x = num(0, 64); ok = rd && x >= 0; r = EAS_SetPolyphony(a.h, s.h, x); c.say("polyphony %d %ld = %ld\n", i, x, (long)r); if (ok) { s.s.poly = x > 64 ? 0 : x; EAS_SetPolyphony(b.h, s.h2, s.s.poly); } break; }
            case 5: { long x = g.flip() ? (long)g.draw(4) : num(-1, 5); if (x > 2147483647L || x < -2147483648L) x = 3; ok = true; r = EAS_SetRepeat(a.h, s.h, x); c.say("repeat %d %ld\n", i, x); s.s.rep = x; EAS_SetRepeat(b.h, s.h2, x); break; }
            default: { long x = g.pick({0, 1, 2, -1}); r = EAS_SetPlayMode(a.h, s.h, x); ok = false; c.say("play mode %d %ld = %ld\n", i, x, (long)r); } } }
        REQUIRE((r == EAS_SUCCESS) == ok, "setting %s: result %ld", ok ? "within its range refused" : "out of range or not possible accepted", (long)r); if (ok) sets++; else refused++; break; }
      case 3: if (s.kind == 1 && s.ready) { long x = g.draw(700); EAS_RESULT r = EAS_Locate(a.h, s.h, x, EAS_FALSE), r2 = EAS_Locate(b.h, s.h2, x, EAS_FALSE); REQUIRE(r == r2, "EAS_Locate results differ: %ld %ld", (long)r, (long)r2); c.say("locate %d %ld\n", i, x); } break;
      case 4: if (s.kind == 1 && s.ready) { bool p = g.flip(); EAS_RESULT r = p ? EAS_Pause(a.h, s.h) : EAS_Resume(a.h, s.h), r2 = p ? EAS_Pause(b.h, s.h2) : EAS_Resume(b.h, s.h2); REQUIRE(r == r2, "results differ"); c.say("%s %d\n", p ? "pause" : "resume", i); } break;
      case 5: if (s.kind == 1 && s.ready) { EAS_I32 l = 0; EAS_RESULT r = EAS_ParseMetaData(a.h, s.h, &l), r2 = EAS_ParseMetaData(b.h, s.h2, &l); REQUIRE(r == r2, "results differ"); c.say("parse %d = %ld\n", i, (long)r); } break;
      case 6: if (s.kind == 1 && !s.ready) { REQUIRE(EAS_Prepare(a.h, s.h) == EAS_SUCCESS && EAS_Prepare(b.h, s.h2) == EAS_SUCCESS, "EAS_Prepare"); s.ready = true; c.say("prepare %d\n", i); } break;
      default: if (s.kind == 1) { a.closeFile(s.h); b.closeFile(s.h2); s = Slot(); } else if (s.kind == 2) { a.closeLive(s.h); b.closeLive(s.h2); s = Slot(); } c.say("close %d\n", i); }
    checkAll();
  }
  requireSame(pa, pb, "history with refused settings vs without them"); c.nontrivial = audible && sets >= 3 && refused >= 1;
}
static Reg r("A01", a01, "random histories of every setting over three streams (files, prepared or not, and live) with arbitrary values, between opening, playing, seeking, pausing, scanning and closing; all settings of all streams read back after each step against a model; refused ones deleted: same samples; non-trivial: at least three accepted and one refused setting, audible", 60000, 3000000, 20);
