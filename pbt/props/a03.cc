// A03: rendering is block exact, a refused or postponed render changes nothing, and the output is the saturated mix.
#include "../script.h"
static const int GUARD = 70;
struct GBuf { Pcm b; int off; int16_t fill; GBuf(int off_, int16_t f) : b(GUARD * 2 + BLK() * 2 + 8, f), off(GUARD + off_), fill(f) {}
  int16_t* p() { return b.data() + off; }
  void guards() const { for (size_t i = 0; i < b.size(); i++) if ((int)i < off || (int)i >= off + BLK() * 2) REQUIRE(b[i] == fill, "EAS_Render wrote outside its block: sample %ld of a block of %d is %d", (long)i - off, BLK() * 2, b[i]); }
  void untouched() const { for (auto x : b) REQUIRE(x == fill, "a refused render wrote to the buffer"); } };
// (a) whole blocks, nothing outside, refused sizes change nothing, render time counts blocks
static void blocks(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c); ScriptOpts o; o.maxOps = 40; o.fx = true; o.maxRender = 12; Assets A = genAssets(g, c, o); Script s = genScript(g, c, A, o); s.push_back({oRender, 0, 4, 0, 0, {}});
  Runner a(&A), b(&A); REQUIRE(a.h && b.h, "EAS_Init failed"); int off = g.draw(4); int16_t f1 = (int16_t)g.draw(65536), f2 = (int16_t)(f1 ^ (1 << g.draw(16))); long n = 0, refused = 0; bool heard = false; EAS_I32 v = 0;
  auto time = [&](Runner& x) { EAS_I32 t = -1; REQUIRE(EAS_GetRenderTime(x.h, &t) == EAS_SUCCESS, "EAS_GetRenderTime"); return (long)t; };
  REQUIRE(time(a) == 0, "render time starts at %ld", time(a));
  for (auto& p : s) {
    if (p.k == oMaxLoad || p.k == oBadRender) continue;
    if (p.k != oRender) { auto r1 = a.exec(p), r2 = b.exec(p); REQUIRE(r1 == r2, "%s: %ld in one engine, %ld in the other", opName[p.k], (long)r1, (long)r2); continue; }
    for (long i = 0; i < p.a; i++) {
      if (g.chance(1, 6)) { long sz; switch (g.draw(6)) { case 0: sz = 0; break; case 1: sz = -(long)BLK(); break; case 2: sz = BLK() + 1 + g.draw(BLK() * 3); break; case 3: sz = (long)g.draw(BLK()); break; case 4: sz = BLK() + (long)g.pick({65536L, 4294967296L, 256L, -4294967296L}); break; default: sz = (long)(int)g.draw(0); } if (sz == BLK()) sz++;
        GBuf q(off, f2); EAS_I32 got = -5; long t0 = time(b); EAS_RESULT r = EAS_Render(b.h, q.p(), sz, &got); refused++; REQUIRE(r != EAS_SUCCESS && got == 0, "render of %ld frames = %ld, %ld frames", sz, (long)r, (long)got); q.untouched(); REQUIRE(time(b) == t0, "a refused render took time"); }
      GBuf x(0, f1), y(off, f2); EAS_I32 g1 = -1, g2 = -1; long t0 = time(a); EAS_RESULT r1 = EAS_Render(a.h, x.p(), BLK(), &g1), r2 = EAS_Render(b.h, y.p(), BLK(), &g2); n++;
      REQUIRE(r1 == EAS_SUCCESS && r2 == EAS_SUCCESS && g1 == BLK() && g2 == BLK(), "EAS_Render = %ld with %ld frames, %ld with %ld frames", (long)r1, (long)g1, (long)r2, (long)g2); x.guards(); y.guards();
      for (int k = 0; k < BLK() * 2; k++) { REQUIRE(x.p()[k] == y.p()[k], "block %ld sample %d is %d or %d: %s", n, k, x.p()[k], y.p()[k], refused ? "not written or affected by refused calls" : "not written"); heard |= x.p()[k] != 0; }
      long t1 = time(a); double d = t1 - t0; REQUIRE(d >= std::floor(BLKMS()) && d <= std::ceil(BLKMS()), "a block of %.4f ms advanced the render time by %g ms", BLKMS(), d);
      double e = n * BLKMS(); REQUIRE(std::fabs(t1 - e) <= 1.01 + 1e-3 * e, "after %ld blocks (%.3f ms) the render time is %ld", n, e, t1); REQUIRE(time(b) == t1, "render times differ: %ld and %ld", t1, time(b)); } }
  (void)v; requireLog(a.log, b.log, "with vs without refused renders"); c.nontrivial = n > 20 && heard; c.label("blocks"); c.label("refused renders", refused); }
// (b) a limit on the work per call only spreads a block over several calls
static void workLimit(Gen& g, Ctx& c) {
  ScriptOpts o; o.maxOps = 50; o.maxRender = 20; bool many = g.flip(); if (many) { o.repeats = false; o.dls = false; o.songNotes = 5; o.maxNotes = 6; } else o.slots = 1;   // one stream taking the last voice of another that has run out ends that one, whenever it is next looked at
  Assets A = genAssets(g, c, o); Script s0 = genScript(g, c, A, o), s; for (auto& p : s0) if (p.k != oMaxLoad && p.k != oSndLib && !(many && (p.k == oSynPoly || p.k == oPoly))) s.push_back(p);
  s.push_back({oRender, 0, 8, 0, 0, {}}); for (int i = 0; i < NSLOT; i++) s.push_back({oQuery, i, 0, 0, 0, {}});
  Runner a(&A), b(&A); b.retryEmpty = true; REQUIRE(a.h && b.h, "EAS_Init failed"); long L = g.chance(1, 4) ? g.range(20, 400) : 1 + g.draw(g.flip() ? 3 : 20); c.say("limit %ld\n", L);
  bool mid = g.chance(1, 4); if (!mid) REQUIRE(EAS_SetMaxLoad(b.h, L) == EAS_SUCCESS, "EAS_SetMaxLoad"); size_t i = 0;
  for (auto& p : s) { if (mid && g.chance(1, 8)) { long x = g.chance(1, 3) ? 0 : L; EAS_SetMaxLoad(b.h, x); c.say("limit %ld at %zu\n", x, i); } auto r1 = a.exec(p), r2 = b.exec(p); REQUIRE(r1 == r2, "call %zu %s(%d,%ld): %ld without, %ld with a work limit of %ld", i, opName[p.k], p.s, p.a, (long)r1, (long)r2, L); i++; }
  requireLog(a.log, b.log, "without vs with a work limit"); requireSame(a.pcm, b.pcm, "without vs with a work limit"); c.nontrivial = b.empties > 0 && !allZero(a.pcm); c.label(b.empties ? "spread over several calls" : "limit never reached"); }
// (c) loud music saturates: the output is the scaled mix, clamped
static void volumeClip(Gen& g, Ctx& c) {
  HistOpts ho; ho.m.chans = genChans(g); ho.m.edgeVel = false; ho.maxEvents = 80; ho.maxGap = 3; ho.m.maxHeld = 60; ho.m.maxNotes = 60; ho.m.modes = false; Hist h = genHist(g, ho); int k = g.draw(24); Bytes m; for (int i = 0; i < k; i++) app(m, mNoteOn(ho.m.chans[g.draw(ho.m.chans.size())], g.range(24, 100), 127)); if (!m.empty()) h.ev.insert(h.ev.begin(), {0, m}); describe(c, h);
  int hi = g.range(84, 100), lo = hi - g.range(4, 16); Eng a, b; EAS_HANDLE s = a.live(), t = b.live(); EAS_SetVolume(a.h, nullptr, hi); EAS_SetVolume(b.h, nullptr, lo); Pcm p, q; playHist(a, s, h, p); playHist(b, t, h, q);
  double f = std::pow(10, (hi - lo) / 20.0); double res = 0.012 + 1 / (2048 * std::pow(10, (lo - 110) / 20.0)); long clipped = 0;   // gains have 11 bits
  c.say("volumes %d and %d\n", hi, lo);
  for (size_t i = 0; i < p.size(); i++) { if (std::abs((int)q[i]) >= 32767) { REQUIRE(std::abs((int)p[i]) >= 32767 && (p[i] > 0) == (q[i] > 0), "sample %zu is %d at volume %d and %d at %d", i, q[i], lo, p[i], hi); continue; }
    double e = q[i] * f, tol = res * std::fabs(e) + 1.5 * f + 2, l = std::max(-32768.0, e - tol), u = std::min(32767.0, e + tol); l = std::min(l, 32767.0); u = std::max(u, -32768.0); if (std::fabs(e) * (1 - res) > 32800) clipped++;
    REQUIRE(p[i] >= l - 1 && p[i] <= u + 1, "sample %zu: %d at volume %d, %d at volume %d (expected %.0f, clamped)", i, q[i], lo, p[i], hi, e); }
  c.nontrivial = clipped > 20; c.label(clipped > 20 ? "clips when louder" : "does not clip"); }
static void unisonClip(Gen& g, Ctx& c) {
  int K = 2 + g.draw(3); Setup su; if (g.flip()) { Dls d = genBenignDls(g); su.hasDls = true; su.dls = encDls(d); su.layers = 4; } HistOpts ho; ho.m.chans = genChans(g); ho.maxEvents = 40; ho.maxGap = 4; ho.m.maxNotes = su.hasDls ? 15 / K : 60 / K; ho.m.smallProgs = su.hasDls; Hist h = genHist(g, ho); describe(c, h);
  Eng a, b; su.apply(a); su.apply(b); long vol = g.range(70, 100); EAS_SetVolume(a.h, nullptr, vol); EAS_SetVolume(b.h, nullptr, vol); EAS_SetSynthPolyphony(a.h, 0, 64); EAS_SetSynthPolyphony(b.h, 0, 64); std::vector<EAS_HANDLE> s; for (int i = 0; i < K; i++) s.push_back(a.live()); EAS_HANDLE t = b.live(); Pcm p, q; size_t e = 0;
  for (int bl = 0; bl < h.blocks; bl++) { Bytes w; while (e < h.ev.size() && h.ev[e].blk <= bl) app(w, h.ev[e++].b); for (auto x : s) a.write(x, w); b.write(t, w); a.render(p); b.render(q); }
  long clipped = 0; int pk = 0; for (size_t i = 0; i < p.size(); i++) { if (q[i] == 32767 || q[i] == -32768) { REQUIRE(p[i] == q[i], "sample %zu: %d alone, %d together", i, q[i], p[i]); continue; }
    long x = (long)q[i] * K, l = std::max(-32768L, std::min(32767L, x - 5 * K - 2)), u = std::max(-32768L, std::min(32767L, x + 5 * K + 2)); pk = std::max(pk, std::abs((int)q[i])); if (std::labs(x) > 32800) clipped++;
    REQUIRE(p[i] >= l && p[i] <= u, "sample %zu: one stream gives %d, %d of them %d", i, q[i], K, p[i]); }
  c.nontrivial = pk > 100; c.label(clipped ? "streams clip together" : "streams add up"); }
static void t(Gen& g, Ctx& c) { switch (g.weighted({3, 3, 2, 2})) { case 0: blocks(g, c); break; case 1: workLimit(g, c); break; case 2: volumeClip(g, c); break; default: unisonClip(g, c); } }
static Reg r("A03", t, "audible output over more than 20 blocks with refused renders around; or a block really spread over several calls; or output that really clips (or sums above 100 units)", 200000, 2000000);
