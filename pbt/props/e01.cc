// E01: bypassed or zero-level effects are transparent; effect parameters accept their range and read back.
#include "eng.h"
#include "music.h"
static const int RV = 2, CH = 3;   // EAS_MODULE_REVERB, EAS_MODULE_CHORUS
struct P { int mod, par; long lo, hi; };
static const P PS[] = {{RV, EAS_PARAM_REVERB_BYPASS, 0, 1}, {RV, EAS_PARAM_REVERB_PRESET, 0, 3}, {RV, EAS_PARAM_REVERB_WET, 0, 32767}, {RV, EAS_PARAM_REVERB_DRY, 0, 32767},
  {CH, EAS_PARAM_CHORUS_BYPASS, 0, 1}, {CH, EAS_PARAM_CHORUS_PRESET, 0, 3}, {CH, EAS_PARAM_CHORUS_RATE, 10, 50}, {CH, EAS_PARAM_CHORUS_DEPTH, 15, 60}, {CH, EAS_PARAM_CHORUS_LEVEL, 0, 32767}};
static long get(EAS_DATA_HANDLE h, int m, int p) { EAS_I32 v = -77777; EAS_RESULT r = EAS_GetParameter(h, m, p, &v); REQUIRE(r == EAS_SUCCESS, "EAS_GetParameter(%d,%d): %ld", m, p, (long)r); return (long)v; }
// what a preset sets: learned from a new engine (order-independent by construction of the check)
struct Presets { long rw[4], rd[4], cr[4], cd[4], cl[4]; bool ok = false; };
static const Presets& presets() { static Presets s; if (s.ok) return s;
  for (int p = 0; p < 4; p++) { Eng e; int o = (p + 1) % 4;
    for (int q : {o, p}) { EAS_SetParameter(e.h, RV, EAS_PARAM_REVERB_PRESET, q); EAS_SetParameter(e.h, CH, EAS_PARAM_CHORUS_PRESET, q); }
    s.rw[p] = get(e.h, RV, EAS_PARAM_REVERB_WET); s.rd[p] = get(e.h, RV, EAS_PARAM_REVERB_DRY); s.cr[p] = get(e.h, CH, EAS_PARAM_CHORUS_RATE); s.cd[p] = get(e.h, CH, EAS_PARAM_CHORUS_DEPTH); s.cl[p] = get(e.h, CH, EAS_PARAM_CHORUS_LEVEL);
    REQUIRE(s.cr[p] >= 10 && s.cr[p] <= 50 && s.cd[p] >= 15 && s.cd[p] <= 60, "chorus preset %d reads back rate %ld depth %ld, outside what can be set", p, s.cr[p], s.cd[p]); }
  s.ok = true; return s; }
static void e01(Gen& g, Ctx& c) {
  const Presets& ps = presets();
  Eng a, d, b; EAS_HANDLE sa = a.live(), sd = d.live(), sb = b.live(); MusicOpts o; o.chans = genChans(g); MusicGen mg(o);
  long m[9]; for (int i = 0; i < 9; i++) { m[i] = get(a.h, PS[i].mod, PS[i].par); REQUIRE(m[i] == get(d.h, PS[i].mod, PS[i].par), "initial parameters differ"); }
  REQUIRE(m[0] && m[4], "effects not bypassed initially");
  bool everOn = false; int transp = 0, refused = 0, sets = 0; Pcm pa, pd, pb; size_t loud = 0;
  int n = 8 + g.draw(50);
  for (int k = 0; k < n; k++) {
    switch (g.weighted({5, 6, 5})) {
      case 0: { int q = 1 + g.draw(4); Bytes x; for (int i = 0; i < q; i++) app(x, mg.next(g)); a.write(sa, x); d.write(sd, x); b.write(sb, x); c.say("W%s\n", hexs(x).c_str()); break; }
      case 1: {
        int mod, par; long v; const P* p = nullptr; int idx = -1;
        if (g.chance(1, 8)) { mod = g.pick({-1, 0, 1, 2, 3, 4, 5, 6, 100, -100, 2147483647}); par = g.pick({-1, 0, 1, 2, 3, 4, 5, 6, 100, 2147483647}); v = g.range(0, 40); for (int i = 0; i < 9; i++) if (PS[i].mod == mod && PS[i].par == par) { p = &PS[i]; idx = i; } }
        else { idx = g.draw(9); p = &PS[idx]; mod = p->mod; par = p->par;
          switch (g.draw(8)) { case 0: v = p->lo; break; case 1: v = p->hi; break; case 2: v = p->lo - 1 - (long)(g.chance(1, 3) ? g.draw(1u << 31) : 0); break; case 3: v = p->hi + 1 + (long)(g.chance(1, 3) ? g.draw(1u << 31) : g.chance(1, 3) ? 65536L * (1 + g.draw(4)) - 1 : 0); break; case 4: v = g.pick({65536L, -65536L, 32768L, -32768L, 256L, 4294967296L}) + p->lo; break; default: v = p->lo + (long)g.draw(p->hi - p->lo + 1); } }
        bool byp = p && (p->lo == 0 && p->hi == 1); if (byp) v = v & 1;
        bool ok = p && v >= p->lo && v <= p->hi;
        EAS_RESULT r = EAS_SetParameter(a.h, mod, par, v); c.say("set(%d,%d,%ld)=%ld\n", mod, par, v, (long)r);
        REQUIRE((r == EAS_SUCCESS) == ok, "EAS_SetParameter(%d,%d,%ld) = %ld", mod, par, v, (long)r);
        if (!p) { EAS_I32 t = 0; REQUIRE(EAS_GetParameter(a.h, mod, par, &t) != EAS_SUCCESS, "EAS_GetParameter(%d,%d) succeeds", mod, par); }
        if (!ok) { refused++; break; }
        sets++; EAS_SetParameter(b.h, mod, par, v);
        if (idx == 1 && m[1] != v) { m[2] = ps.rw[v]; m[3] = ps.rd[v]; }
        if (idx == 5 && m[5] != v) { m[6] = ps.cr[v]; m[7] = ps.cd[v]; m[8] = ps.cl[v]; }
        m[idx] = v; break; }
      default: {
        int q = 1 + g.draw(4); bool t = (m[0] || m[2] == 0) && (m[4] || m[8] == 0); c.say("render %d %s\n", q, t ? "transparent" : "on");
        size_t o0 = pa.size(); a.render(pa, q); d.render(pd, q); b.render(pb, q); if (!t) everOn = true;
        if (t) { for (size_t i = o0; i < pa.size(); i++) { if (std::abs(pd[i]) > 50) loud++; REQUIRE(pa[i] == pd[i], "effects without effect: sample %zu is %d instead of %d (block %zu)", i, pa[i], pd[i], i / (2 * BLK())); } transp++; } }
    }
    for (int i = 0; i < 9; i++) { long v = get(a.h, PS[i].mod, PS[i].par); REQUIRE(v == m[i], "module %d parameter %d reads %ld instead of %ld", PS[i].mod, PS[i].par, v, m[i]); }
  }
  requireSame(pa, pb, "with refused settings vs without them");
  c.nontrivial = transp && sets > 2 && loud > 100; if (refused) c.label("refused"); if (everOn) c.label("effects on");
}
static Reg r("E01", e01, "random histories of effect settings (all modules and parameters, in and out of range) between live music, parameters read back after each step against a model; blocks rendered while both effects are bypassed or at level zero bit-exact vs. an engine that never touched them; refused settings deleted: same samples; non-trivial: an audible transparent stretch after at least three accepted settings", 60000, 2000000, 20);
