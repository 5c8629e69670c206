#include "../script.h"
// M08: streams mix independently.
// a song that is opened, parsed, sought in, set up and closed without playing, beside a live stream short of voices
static void visits(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c); HistOpts o; o.m.chans = genChans(g, 6); o.m.smallProgs = su.hasDls; o.m.maxNotes = su.hasDls ? 30 : 100; o.maxEvents = 120; o.maxGap = 3; o.m.cc = !g.chance(1, 3); Hist h = genHist(g, o); if (g.flip()) { std::vector<HEv> v; for (int i = g.range(20, su.hasDls ? 30 : 70); i > 0; i--) v.push_back({0, mNoteOn(g.pick(o.m.chans), g.range(40, 90), g.range(60, 127))}); h.notes += v.size(); h.ev.insert(h.ev.begin(), v.begin(), v.end()); } describe(c, h, "live stream");
  SongOpts so; so.maxMs = 1500; so.maxEvents = 80; so.normVolume = g.flip(); so.music.maxNotes = 60; std::vector<Bytes> songs; for (int i = 1 + g.draw(2); i > 0; i--) songs.push_back(encSong(genSong(g, so).song)); Bytes dls; if (g.chance(1, 4)) dls = encDls(genBenignDls(g));
  struct V { int at, song; std::vector<int> ops; bool pause; int stay; }; std::vector<V> vs; int b = 0; for (int i = 1 + g.draw(3); i > 0; i--) { V v; v.at = b = g.range(b, b + h.blocks / 2); v.song = g.draw(songs.size()); v.pause = g.chance(1, 3); v.stay = v.pause ? g.draw(12) : 0; for (int k = 1 + g.draw(5); k > 0; k--) v.ops.push_back(g.draw(7) + 7 * g.draw(2000)); vs.push_back(v); b += v.stay + 1; if (b >= h.blocks) break; }
  for (auto& v : vs) { c.say("visit at %d by song %d%s:", v.at, v.song, v.pause ? fmt(", paused for %d blocks", v.stay).c_str() : ""); for (int k : v.ops) c.say(" %d/%d", k % 7, k / 7); c.say("\n"); }
  auto play = [&](bool with) { std::vector<std::unique_ptr<MemFile>> fs; for (auto& x : songs) fs.emplace_back(new MemFile(x)); MemFile dl(dls); Eng e; su.apply(e); EAS_HANDLE s = e.live(); Pcm p; size_t i = 0, v = 0; EAS_HANDLE k = nullptr; int until = 0;
    for (int b = 0; b < h.blocks; b++) {
      if (k && b >= until) { e.closeFile(k); k = nullptr; }
      while (with && !k && v < vs.size() && vs[v].at <= b) { auto& x = vs[v++]; k = e.open(*fs[x.song]); bool prep = false; if (x.pause) { REQUIRE(EAS_Prepare(e.h, k) == EAS_SUCCESS, "EAS_Prepare"); prep = true; if (EAS_Pause(e.h, k) != EAS_SUCCESS) { x.pause = false; x.stay = 0; } }
        for (int op : x.ops) { int a = op / 7; EAS_I32 len; switch (op % 7) { case 0: case 1: if (!prep) { REQUIRE(EAS_Prepare(e.h, k) == EAS_SUCCESS, "EAS_Prepare"); prep = true; } if (op % 7) EAS_Locate(e.h, k, a, 0); break; case 2: if (prep && !x.pause) EAS_ParseMetaData(e.h, k, &len); break; case 3: if (prep) EAS_SetPlaybackRate(e.h, k, (1u << 28) + a * 1000); break; case 4: EAS_SetPolyphony(e.h, k, a % 65); break; case 5: EAS_SetPriority(e.h, k, 1 + a % 15); break; case 6: if (!dls.empty()) EAS_LoadDLSCollection(e.h, k, &dl.loc); else if (prep) EAS_SetTransposition(e.h, k, a % 25 - 12); } }
        bool paused = x.stay && (e.state(k) == EAS_STATE_PAUSING || e.state(k) == EAS_STATE_PAUSED);   // a seek beyond the end ends the pause
        if (!paused) { e.closeFile(k); k = nullptr; } else until = b + x.stay; }
      Bytes w; while (i < h.ev.size() && h.ev[i].blk <= b) app(w, h.ev[i++].b); e.write(s, w); e.render(p, 1); }
    return p; };
  Pcm p = play(false), q = play(true); c.nontrivial = peak(p) > 50 && h.notes > 3; c.label("silent visits"); if (h.notes > 64) c.label("silent visits, voices short"); requireSame(p, q, "alone vs with songs that are opened and closed without playing"); }
static void m08(Gen& g, Ctx& c) {
  if (g.chance(1, 6)) return visits(g, c);
  ScriptOpts o; o.share = false; o.maxOps = 50; bool dls = g.chance(1, 3); o.dls = dls; o.slots = dls ? 2 : 2 + g.draw(2); o.maxNotes = dls ? 5 : 8; o.songNotes = 5; o.repeats = !dls; bool mute = g.chance(1, 3); o.resets = !mute; o.maxRender = 25;
  Assets A = genAssets(g, c, o); if (dls && A.dls.empty()) { Dls d = genBenignDls(g); describe(c, d); A.dls.push_back(encDls(d)); } Script S0 = genScript(g, c, A, o), S;
  for (auto& p : S0) { if (p.k == oSynPoly || p.k == oPoly || p.k == oPrio) continue; if (mute && p.s != 0 && (p.k == oOpen)) p.k = oOpenLive; S.push_back(p); if (mute && p.k == oOpenLive && p.s != 0) { Op q; q.k = oWrite; q.s = p.s; q.d = sysMasterVol(0); S.push_back(q); } }
  Op e; e.k = oRender; e.a = 20; S.push_back(e); for (int i = 0; i < o.slots; i++) { Op q; q.k = oQuery; q.s = i; S.push_back(q); }
  bool used[NSLOT] = {0}; for (auto& p : S) if (p.k == oOpen || p.k == oOpenLive) used[p.s] = true;
  auto global = [](int k) { return k == oRender || k == oGVol || k == oLoadDls || k == oSetFx || k == oGetFx || k == oHdr || k == oBadRender || k == oMaxLoad; };
  auto play = [&](int only, std::vector<std::vector<long>>& logs) { Runner R(&A); REQUIRE(R.h, "init"); logs.assign(NSLOT, {}); for (auto& p : S) { bool gl = global(p.k); if (!gl && only >= 0 && p.s != only) continue; R.log.clear(); if (p.k == oQuery) { if (R.sl[p.s].kind) R.query(R.sl[p.s]); } else R.exec(p); if (!gl) logs[p.s].insert(logs[p.s].end(), R.log.begin(), R.log.end()); } REQUIRE(R.badRenders == 0, "a render call failed"); return std::move(R.pcm); };
  std::vector<std::vector<long>> all, one; Pcm z = play(-1, all); std::vector<Pcm> solo; int n = 0, aud = 0; 
  for (int i = 0; i < o.slots; i++) { if (!used[i] && i) continue; solo.push_back(play(i, one)); n++; aud += peak(solo.back()) > 50; requireLog(one[i], all[i], fmt("stream %d alone vs with the others", i).c_str()); }
  if (mute) { bool oth = false; for (int i = 1; i < o.slots; i++) oth |= used[i]; c.nontrivial = oth && peak(solo[0]) > 50; c.label("silent others"); requireSame(solo[0], z, "stream alone vs with silent other streams"); return; }
  c.nontrivial = aud >= 2; c.label(fmt("%d streams", n));
  for (size_t i = 0; i < z.size(); i++) { int s = 0; bool clip = std::abs(z[i]) > 32000; for (auto& p : solo) { s += p[i]; clip |= std::abs(p[i]) > 32000; } if (clip || std::abs(s) > 32000) continue; if (std::abs(z[i] - s) > 5 * n) fail(fmt("block %zu frame %zu ch %zu: together %d, sum of the streams alone %d", i / (2 * BLK()), i / 2 % BLK(), i & 1, z[i], s)); } }
static Reg r("M08", m08, "control histories over 2-3 file and live streams (open, play, pause, seek, rate, volume, collections, close), and a crowded live stream while songs are opened, parsed, sought in and closed without playing, compared with each stream played alone: sum of samples, equal answers, and exact equality when the others are silent; non-trivial: at least two audible streams", 150000, 3000000, 20);
