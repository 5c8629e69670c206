#include "../script.h"
// S03: arbitrary API histories and live bytes are safe; refused calls have no effect at all.
static bool mustRefuse(const Op& o, const Runner& R) {
  auto& t = R.sl[o.s % NSLOT]; bool file = t.kind == 1;
  switch (o.k) {
    case oRate: return file && ((EAS_U32)o.a < (1u << 27) || (EAS_U32)o.a > (1u << 29)); case oTransp: return file && (o.a < -12 || o.a > 12); case oVol: return file && (o.a < 0 || o.a > 100); case oGVol: return o.a < 0 || o.a > 100; case oPoly: return file && o.a < 0; case oBadRender: return true; case oWrongKind: return t.kind && !(t.kind == 2 && (o.a % 16 == 9 || o.a % 16 == 10 || o.a % 16 == 13 || o.a % 16 == 15));
    case oOpen: case oOpenLive: return !t.kind && R.openCount() >= 4; case oShareLive: return !t.kind && R.sl[o.a % NSLOT].kind && R.openCount() >= 4; case oPrepare: return file && t.ready; case oLocate: case oPause: case oResume: case oParse: return file && !t.ready && o.k != oParse ? true : false;
    case oSetFx: case oGetFx: return o.a != 2 && o.a != 3; case oWrite: return t.kind == 2 && o.a && o.b <= 0; default: return false; } }

static void s03(Gen& g, Ctx& c) {
  ScriptOpts o; o.wild = true; o.fx = true; o.raw = true; o.badSongs = g.flip(); o.maxLoad = g.chance(1, 4); o.maxRender = 12; o.maxOps = 60; Assets A = genAssets(g, c, o); Script s = genScript(g, c, A, o); s.push_back({oRender, 0, 6, 0, 0, {}}); for (int i = 0; i < NSLOT; i++) s.push_back({oQuery, i, 0, 0, 0, {}}); s.push_back({oRender, 0, 3, 0, 0, {}});
  // with a shared synthesizer, asking for its state settles a song that has run out: ask in both histories alike
  bool shares = false; for (auto& p : s) shares |= p.k == oShareLive; auto poll = [&](Runner& R) { EAS_I32 v; if (shares) for (auto& t : R.sl) if (t.kind == 1) EAS_State(R.h, t.s, &v); };
  Runner a(&A); REQUIRE(a.h, "EAS_Init failed"); std::vector<size_t> drop; std::vector<long> la; int must = 0, acts = 0;
  for (size_t i = 0; i < s.size(); i++) { bool m = mustRefuse(s[i], a); size_t l0 = a.log.size(); EAS_RESULT r = a.exec(s[i]); poll(a); if (r == 9999) continue; if (m) { must++; if (r == EAS_SUCCESS) fail(fmt("call %zu %s(%d,%ld,%ld,%ld) was accepted", i, opName[s[i].k], s[i].s, s[i].a, s[i].b, s[i].c)); }
    int k = s[i].k; bool acted = k == oRender || k == oPrepare || k == oClose || k == oParse || k == oQuery || k == oGetFx || (k == oLocate && r != EAS_ERROR_NOT_VALID_IN_THIS_STATE && r != EAS_ERROR_FEATURE_NOT_AVAILABLE);   // these fail after acting (a parse error, the end of the song)
    if (r != EAS_SUCCESS && !acted) drop.push_back(i); else { acts++; for (size_t q = l0; q < a.log.size(); q++) la.push_back(a.log[q]); } }
  a.closeAll(); REQUIRE(a.shutdown() == EAS_SUCCESS, "shutdown failed");
  if (c.verbose) { c.say("refused:"); for (auto i : drop) c.say(" %zu:%s", i, opName[s[i].k]); c.say("\n"); }
  // the same history without the refused calls
  Runner b(&A); std::vector<long> lb; size_t d = 0; for (size_t i = 0; i < s.size(); i++) { if (d < drop.size() && drop[d] == i) { d++; poll(b); continue; } size_t l0 = b.log.size(); auto rr = b.exec(s[i]); poll(b); if (rr == 9999) continue; for (size_t k = l0; k < b.log.size(); k++) lb.push_back(b.log[k]); }
  requireLog(la, lb, "with vs without the refused calls"); requireSame(a.pcm, b.pcm, "with vs without the refused calls"); c.nontrivial = acts > 5 && !drop.empty(); c.label("refused calls", drop.size()); c.label("calls that must be refused", must); if (!allZero(a.pcm)) c.label("audible"); }
static Reg r("S03", s03, "histories of all public calls over up to five handles (at most four may open) with in- and out-of-range arguments, raw live bytes, hostile songs and collections, run under sanitizers; calls the documentation excludes must fail, and the history with every refused call deleted must give the same samples and answers; non-trivial: at least one refused and several accepted calls", 120000, 6000000, 20, 15);
