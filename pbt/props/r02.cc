#include "../script.h"
// R02: allocation and file faults are reported, contained and leave nothing behind.
static Song silentSong(Gen& g) {   // notes only in the track that turned its channels' volume off
  Song s; int nt = 1 + g.draw(4); s.format = nt > 1; s.division = g.pick({48, 96, 480}); s.tracks.resize(nt); uint32_t k = 0; auto& t = s.tracks[0].ev; for (int ch = 0; ch < 16; ch++) t.push_back({0, mCC(ch, 7, 0)}); if (g.flip()) { Bytes b = {0xFF, (uint8_t)g.range(1, 5)}; for (int q = g.range(1, 30); q > 0; q--) b.push_back('a' + q); t.insert(t.begin() + g.draw(4), {0, b}); }
  MusicOpts mo; mo.chans = genChans(g, 3); mo.maxNotes = 4; MusicGen mg(mo); int n = g.size(60);
  for (int i = 0; i < n; i++) { if (g.flip()) k += g.draw(s.division / 2); int tr = g.draw(nt); Bytes b; if (g.chance(1, 10)) b = metaTempo(g.range(200000, 700000)); else if (g.chance(1, 8)) { b = {0xFF, (uint8_t)g.range(1, 6)}; for (int q = g.draw(30); q > 0; q--) b.push_back('a' + q); } else b = mg.next(g); if ((b[0] & 0xF0) == 0x90) tr = 0; if ((b[0] & 0xF0) == 0xB0 && b[1] == 7) b[1] = 11; s.tracks[tr].ev.push_back({k, b}); }
  for (auto& x : s.tracks) x.endTick = k + g.draw(200); return s; }
static Bytes goodSong() { Song s; s.division = 96; s.tracks.resize(1); s.tracks[0].ev = {{0, mProg(0, 16)}, {0, mNoteOn(0, 60, 100)}, {20, mNoteOn(0, 64, 90)}, {40, mNoteOff(0, 60)}, {60, mNoteOn(9, 38, 100)}}; s.tracks[0].endTick = 90; return encSong(s); }
static Pcm playGood(EAS_DATA_HANDLE h) { MemFile f(goodSong()); EAS_HANDLE s = nullptr; EAS_RESULT r = EAS_OpenFile(h, &f.loc, &s); REQUIRE(r == EAS_SUCCESS, "a well-formed song is refused after the faults: open -> %ld", (long)r); r = EAS_Prepare(h, s); REQUIRE(r == EAS_SUCCESS, "a well-formed song is refused after the faults: prepare -> %ld", (long)r); Pcm p(BLK() * 2 * 60); for (int i = 0; i < 60; i++) { EAS_I32 got = 0; r = EAS_Render(h, p.data() + i * BLK() * 2, BLK(), &got); REQUIRE(r == EAS_SUCCESS && got == BLK(), "render after the faults -> %ld", (long)r); } REQUIRE(EAS_CloseFile(h, s) == EAS_SUCCESS, "close"); return p; }
static void r02(Gen& g, Ctx& c) {
  Assets A; for (int i = 1 + g.draw(2); i > 0; i--) { Song s = silentSong(g); describe(c, s); A.songs.push_back(encSong(s)); if (c.verbose) c.say("song: %s\n", hexs(A.songs.back(), 300).c_str()); } for (int i = 1 + g.draw(2); i > 0; i--) { Dls d = genBenignDls(g); describe(c, d); A.dls.push_back(encDls(d)); }
  HistOpts ho; ho.m.chans = genChans(g, 3); ho.m.maxNotes = 12; ho.maxEvents = 30; ho.m.maxHeld = 20; Hist by = genHist(g, ho); describe(c, by, "bystander");
  // operations on other streams, some of them with a fault armed
  struct F { int op, kind, n, mode; bool forever; }; std::vector<F> fs; Script s; int n = 3 + g.size(30), kind[4] = {0}, last = -1;
  for (int i = 0; i < n; i++) { Op p; p.s = last >= 0 && kind[last] == 4 ? last : g.draw(3); int& k = kind[p.s]; if (!k) { switch (g.weighted({5, 2, 2, 2})) { case 0: p.k = oOpen; p.a = g.draw(A.songs.size()); k = 1; break; case 1: p.k = oOpenLive; k = 3; break; case 2: p.k = oLoadDls; p.a = g.draw(A.dls.size()); break; default: p.k = oRender; p.a = 1 + g.draw(6); } }
    else if (k == 3) { switch (g.draw(3)) { case 0: p.k = oClose; k = 0; break; case 1: p.k = oRender; p.a = 1 + g.draw(4); break; default: p.k = oWrite; p.d = mCC(g.draw(16), 11, g.draw(128)); } }
    else if (k == 4 && last == p.s && g.chance(1, 2)) { p.k = oStrmDls; p.a = g.draw(A.dls.size()); }
    else if (k == 4 && last == p.s && g.chance(2, 3)) { p.k = oMetaCb; p.a = g.range(1, 40); p.b = 1; }
    else if (k == 1) { p.k = oPrepare; k = 4; if (g.chance(1, 8)) { p.k = oClose; k = 0; } }
    else { k = 2; switch (g.weighted({8, 2, 2, 1, 2, 1, 1})) { case 0: p.k = oRender; p.a = 1 + g.draw(12); break; case 1: p.k = oLocate; p.a = g.draw(1500); break; case 2: p.k = oParse; break; case 3: p.k = g.flip() ? oPause : oResume; break; case 4: p.k = oClose; k = 0; break; case 5: p.k = oRepeat; p.a = g.draw(3); break; default: p.k = oQuery; } }
    if (p.k == oOpen || p.k == oPrepare || p.k == oRender || p.k == oLocate || p.k == oParse || p.k == oLoadDls || p.k == oStrmDls || p.k == oOpenLive || p.k == oClose) if (g.chance(1, 3)) { F f{(int)s.size(), (int)g.draw(2), (int)g.draw(g.pick({12, 40, 120, 400})), (int)g.draw(3), g.chance(1, 3)}; fs.push_back(f); if (c.verbose) c.say("fault: %s %d%s mode %d during op %zu\n", f.kind ? "file read" : "allocation", f.n, f.forever ? " and all later" : "", f.mode, s.size()); }
    last = p.k == oPrepare ? p.s : -1; s.push_back(p); }
  if (c.verbose) { c.say("script:"); for (auto& p : s) c.say(" %s(%d,%ld)", opName[p.k], p.s, p.a); c.say("\n"); }
  // starting an engine without memory
  mt_reset(); { int k = g.draw(40); bool from = g.flip(); if (from) mt_fail_from(k); else mt_fail_at(k); EAS_DATA_HANDLE h = nullptr; EAS_RESULT r = EAS_Init(&h); mt_fail_off(); if (mt_faults()) { c.label("failed engine starts"); REQUIRE(r != EAS_SUCCESS, "EAS_Init succeeded although allocation %d failed", k); REQUIRE(!h, "EAS_Init failed but left a handle"); } else { REQUIRE(r == EAS_SUCCESS, "EAS_Init -> %ld", (long)r); EAS_Shutdown(h); } REQUIRE(mt_live() == 0 && mt_bad_frees() == 0, "EAS_Init without memory left %ld allocations, %ld bad frees", mt_live(), mt_bad_frees()); }
  mt_reset(); Pcm got, want; int delivered = 0, blocks = 0, global = -1, renderErr = 0;
  { Runner R(&A); REQUIRE(R.h, "EAS_Init failed"); EAS_HANDLE b = nullptr; REQUIRE(EAS_OpenMIDIStream(R.h, &b, nullptr) == EAS_SUCCESS, "open"); size_t fi = 0, bi = 0; MemFile* cur = nullptr; F* armed = nullptr; uint64_t f0 = 0; auto arm = [&](MemFile& m) { if (armed && armed->kind) { m.failAt = m.calls + armed->n; m.failForever = armed->forever; m.failMode = armed->mode; m.faults = 0; } cur = &m; };
    R.onFile = arm; auto feed = [&]() { while (bi < by.ev.size() && by.ev[bi].blk <= blocks) { Bytes w = by.ev[bi++].b; REQUIRE(EAS_WriteMIDIStream(R.h, b, w.data(), w.size()) == EAS_SUCCESS, "bystander write"); } };
    for (size_t i = 0; i < s.size(); i++) { auto& t = R.sl[s[i].s % NSLOT]; armed = fi < fs.size() && fs[fi].op == (int)i ? &fs[fi++] : nullptr; cur = nullptr; f0 = mt_faults();
      if (armed && !armed->kind) { if (armed->forever) mt_fail_from(armed->n); else mt_fail_at(armed->n); } else if (armed && t.f && s[i].k != oStrmDls) arm(*t.f); if (armed && armed->kind && s[i].k == oRender) for (auto& x : R.sl) if (x.f) { arm(*x.f); break; }
      EAS_RESULT r = EAS_SUCCESS; if (s[i].k == oRender) { for (int k = 0; k < s[i].a; k++) { feed(); size_t w = got.size(); got.resize(w + BLK() * 2); EAS_I32 nf = -1; EAS_RESULT q = EAS_Render(R.h, got.data() + w, BLK(), &nf); if (q == EAS_SUCCESS && nf == BLK()) blocks++, renderErr = 0; else { got.resize(w); if (q != EAS_SUCCESS) r = q; REQUIRE(++renderErr < 6, "render keeps failing: %ld, %ld frames", (long)q, (long)nf); } } }
      else r = R.exec(s[i]); mt_fail_off();
      uint64_t df = armed ? (armed->kind ? (cur && s[i].k != oLoadDls && s[i].k != oStrmDls && s[i].k != oOpen ? cur->faults : 0) : mt_faults() - f0) : 0; if (cur && s[i].k == oOpen && r == EAS_SUCCESS) df = t.f ? t.f->faults : 0;
      for (auto& x : R.sl) if (x.f) { x.f->failAt = -1; x.f->faults = 0; }
      if (df) { delivered++; c.label(fmt("%s faults in %s", armed->kind ? "file" : "allocation", opName[s[i].k])); if (!(armed->kind && armed->mode && (s[i].k == oRender || s[i].k == oLocate || s[i].k == oParse || s[i].k == oPrepare))) REQUIRE(r != EAS_SUCCESS, "%s succeeded although %s failed during it", opName[s[i].k], armed->kind ? "a file read" : "an allocation"); }
      else if (armed && armed->kind && r != EAS_SUCCESS) delivered++;
      if (s[i].k == oLoadDls && r == EAS_SUCCESS) global = s[i].a % A.dls.size();
      if (s[i].k == oOpen || s[i].k == oOpenLive) if (r != EAS_SUCCESS && r != 9999) REQUIRE(armed, "open without a fault -> %ld", (long)r); }
    for (auto& t : R.sl) if (t.kind) R.closeSlot(t); int more = 4; for (int k = 0; k < more; k++) { feed(); size_t w = got.size(); got.resize(w + BLK() * 2); EAS_I32 nf = -1; EAS_RESULT q = EAS_Render(R.h, got.data() + w, BLK(), &nf); REQUIRE(q == EAS_SUCCESS && nf == BLK(), "render after closing the faulty streams -> %ld", (long)q); blocks++; }
    REQUIRE(EAS_CloseMIDIStream(R.h, b) == EAS_SUCCESS, "close"); { Pcm q(BLK() * 2); EAS_I32 nf; for (int k = 0; k < 40; k++) EAS_Render(R.h, q.data(), BLK(), &nf); }
    Pcm p = playGood(R.h), q; { Eng e; if (global >= 0) { MemFile f(A.dls[global]); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "collection refused"); } q = playGood(e.h); } requireSame(q, p, "well-formed song after the faults");
    REQUIRE(R.shutdown() == EAS_SUCCESS, "shutdown failed"); }
  REQUIRE(mt_live() == 0, "%ld allocations left after shutdown", mt_live()); REQUIRE(mt_bad_frees() == 0, "%ld releases of memory that is not allocated", mt_bad_frees());
  { Eng e; EAS_HANDLE b = e.live(); size_t bi = 0; for (int k = 0; k < blocks; k++) { while (bi < by.ev.size() && by.ev[bi].blk <= k) e.write(b, by.ev[bi++].b); e.render(want, 1); } }
  c.nontrivial = delivered > 0 && !allZero(want); c.label("faults delivered", delivered); requireSame(want, got, "another stream alone vs beside failing calls"); }
static Reg r("R02", r02, "histories on up to three streams (silent songs, collections) beside a playing live stream, with single or lasting allocation and file-read faults armed at random positions of any call; also engine start without memory; non-trivial: at least one fault delivered and the bystander audible", 200000, 8000000, 20, 15);
