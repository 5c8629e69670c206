#include "../script.h"
// D02: after all streams are closed, the engine plays like a new one with the same settings.
static void d02(Gen& g, Ctx& c) {
  ScriptOpts o; o.badSongs = o.mip = true; o.raw = true; o.wild = g.chance(1, 4); Assets A = genAssets(g, c, o); Script h1 = genScript(g, c, A, o);
  // no effects switched on, no load limit, no foreign sound library: settings of the engine that persist are repeated below
  Script a; long gv = -1, hdr = -1, dls = -1, sp = -1; for (auto& p : h1) { if (p.k == oSndLib || p.k == oMaxLoad) continue; a.push_back(p); }
  bool settle = g.chance(1, 4);
  ScriptOpts o2 = o; o2.wild = false; Script h2 = genScript(g, c, A, o2); h2.push_back({oRender, 0, 20, 0, 0, {}}); for (int i = 0; i < NSLOT; i++) h2.push_back({oQuery, i, 0, 0, 0, {}});
  mt_poison(g.draw(256));
  Runner r(&A); REQUIRE(r.h, "init"); for (auto& p : a) { EAS_RESULT x = r.exec(p); if (x == EAS_SUCCESS) { if (p.k == oGVol) gv = p.a; if (p.k == oHdr) hdr = p.a; if (p.k == oSynPoly) sp = p.a; if (p.k == oLoadDls) { dls = p.a; } } }
  bool used = peak(r.pcm) > 50; r.closeAll(); EAS_I32 t0 = 0, t1 = 0; EAS_GetRenderTime(r.h, &t0);
  if (settle) { Op p; p.k = oRender; p.a = 30; r.exec(p); }
  { Op p; p.k = oRender; p.a = 1; r.pcm.clear(); r.exec(p); REQUIRE(allZero(r.pcm), "output after all streams are closed"); }
  r.pcm.clear(); r.log.clear(); (void)t1;
  Runner f(&A); if (dls >= 0) { Op p; p.k = oLoadDls; p.a = dls; f.exec(p); } if (gv >= 0) { Op p; p.k = oGVol; p.a = gv; f.exec(p); } if (hdr >= 0) { Op p; p.k = oHdr; p.a = hdr; f.exec(p); }
  if (sp >= 0) { Op p; p.k = oSynPoly; p.a = sp; f.exec(p); }
  f.log.clear();
  // render time is a property of the engine: compared as a difference
  EAS_GetRenderTime(r.h, &t0); 
  auto run = [&](Runner& x) { for (auto& p : h2) { if (p.k == oQuery) { auto& t = x.sl[p.s % NSLOT]; if (t.kind) x.query(t); } else x.exec(p); } };
  run(r); run(f);
  c.nontrivial = used && peak(f.pcm) > 50; if (settle) c.label("settled first"); if (dls >= 0) c.label("collection kept");
  requireSame(f.pcm, r.pcm, "fresh engine vs recycled engine"); requireLog(f.log, r.log, "fresh engine vs recycled engine");
}
static Reg r("D02", d02, "random API script on an engine, all streams closed, then a second script compared with the same script on a new engine with the same settings; non-trivial: both parts audible", 200000, 3000000, 20);
