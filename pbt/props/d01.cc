#include "../script.h"
// D01: same calls, same samples and answers - whatever memory held before and whatever other engines do in between.
static void churn(uint64_t seed) { Rng r(seed); std::vector<void*> v; for (int i = 0; i < 60; i++) { size_t n = 1 + r.next() % (r.next() % 4 ? 4096 : 200000); void* p = malloc(n); if (p) memset(p, (int)r.next(), n); v.push_back(p); } for (auto p : v) free(p); }
static void d01(Gen& g, Ctx& c) {
  ScriptOpts o; o.fx = true; o.badSongs = o.mip = true; o.raw = true; o.maxLoad = true; o.wild = g.chance(1, 3); Assets A = genAssets(g, c, o); Script a = genScript(g, c, A, o); a.push_back({oRender, 0, 12, 0, 0, {}}); for (int i = 0; i < NSLOT; i++) a.push_back({oQuery, i, 0, 0, 0, {}});
  Assets A2; Script b; int mode = g.draw(3); if (mode == 2) { A2 = genAssets(g, c, o); b = genScript(g, c, A2, o); }
  int p1 = g.draw(256), p2 = g.draw(256); uint64_t cs = g.draw(0); c.say("mode %d poison %02x %02x\n", mode, p1, p2);
  Pcm pa, pb; std::vector<long> la, lb;
  { mt_poison(p1); Runner r(&A); REQUIRE(r.h, "init"); r.run(a); r.closeAll(); pa = r.pcm; la = r.log; }
  if (mode >= 1) churn(cs);
  mt_poison(p2);
  if (mode == 2) { Runner other(&A2); REQUIRE(other.h, "init"); Runner r(&A); size_t i = 0; Rng rr(cs); for (auto& op : a) { for (int q = rr.next() % 4; q > 0 && i < b.size(); q--) other.exec(b[i++]); r.exec(op); } r.closeAll(); pb = r.pcm; lb = r.log; other.closeAll(); c.label("interleaved with another engine"); }
  else { Runner r(&A); r.run(a); r.closeAll(); pb = r.pcm; lb = r.log; c.label("same calls, other memory"); }
  c.nontrivial = peak(pa) > 50; requireSame(pa, pb, "same call history"); requireLog(la, lb, "same call history");
}
static Reg r("D01", d01, "random API scripts (files, live streams, shared synths, effects, collections, seeks, bad input) run twice with differently poisoned memory, half of them interleaved with another engine's script; non-trivial: the output peaks above 50", 200000, 3000000, 20);
