#include "../hist.h"
#include <deque>
// L03: layout rewrites, conditional chunks, rejected and replaced collections.
static Hist music(Gen& g, const Dls& d, const std::vector<int>& chs) { HistOpts o; o.m.chans = chs; o.m.maxHeld = 12; o.m.smallProgs = true; o.m.maxNotes = 200; o.maxEvents = 40; Hist h = genHist(g, o); Bytes pre; for (int ch : chs) { auto& n = d.ins[g.draw(d.ins.size())]; int b = n.bank & 0x7fff; app(pre, cat({mCC(ch, 0, (b >> 8) & 127), mCC(ch, 32, b & 127), mProg(ch, n.prog & 127)})); } h.ev.insert(h.ev.begin(), {0, pre}); return h; }
static Pcm playOn(Eng& e, const Hist& h) { EAS_HANDLE s = e.live(); Pcm p; playHist(e, s, h, p); e.closeLive(s); return p; }
static Pcm playWith(const Bytes* dls, const Hist& h, bool mustLoad = true) { Eng e; if (dls) { MemFile f(*dls); EAS_RESULT r = e.loadDLS(f); REQUIRE((r == EAS_SUCCESS) == mustLoad, "loading %s", mustLoad ? "a well-formed collection failed" : "a collection whose condition is false succeeded"); } return playOn(e, h); }
static void l03(Gen& g, Ctx& c) {
  Dls d = genBenignDls(g); for (auto& i : d.ins) { i.art.cdl.clear(); for (auto& r : i.r) { r.cdl.clear(); r.art.cdl.clear(); } } bool keepArt = false; for (auto& i : d.ins) keepArt |= i.art.present(); if (!keepArt) d.ins[0].art = basicArt();
  std::vector<int> chs = genChans(g, 3); if (g.chance(1, 3)) chs.push_back(9); Hist h = music(g, d, chs); describe(c, d); describe(c, h); Bytes plain = encDls(d); Pcm base = playWith(&plain, h);
  { Pcm none = playWith(nullptr, h); if (none == base) c.label("collection not heard"); else c.nontrivial = true; }
  switch (g.weighted({5, 4, 3})) {
    case 0: { // layout, unused parts
      Dls x = d; bool extra = g.flip(); if (extra) { for (auto& e : h.ev) for (size_t k = 0; k + 2 < e.b.size(); k++) if ((e.b[k] & 0xF0) == 0xB0 && e.b[k + 1] == 0 && e.b[k + 2] == 0x33) throw Discard(); int n = 1 + g.draw(3); for (int i = 0; i < n; i++) { DWave w; w.s.assign(1 + g.draw(50), (int16_t)g.draw(65536)); x.waves.push_back(w); if (g.flip()) { DIns q; q.bank = 0x3300 + i; q.prog = g.draw(128); q.art = genArt(g, false); DRgn r; r.wave = g.draw(x.waves.size()); q.r.push_back(r); size_t at = g.draw(x.ins.size() + 1); x.ins.insert(x.ins.begin() + at, q); } } c.label("unused parts added"); }
      if (g.chance(1, 3)) { std::set<uint64_t> keys; for (auto& i : x.ins) keys.insert((uint64_t)i.bank << 32 | i.prog); if (keys.size() == x.ins.size()) { for (size_t i = x.ins.size(); i > 1; i--) std::swap(x.ins[i - 1], x.ins[g.draw(i)]); c.label("instruments reordered"); } }
      Bytes b = encDls(x, &g); requireSame(base, playWith(&b, h), "original vs re-laid-out collection"); c.label("layout"); break; }
    case 1: { // conditions: with them / the parts they leave
      Dls x = d, y = d; bool fileOk = true; int n = 0, off = 0; auto cond = [&](Bytes& o) { uint32_t v = genCdl(g, o, 1 + g.draw(4)); n++; if (!v) off++; return v != 0; };
      if (g.chance(1, 6)) fileOk = cond(x.cdl);
      for (size_t i = 0; i < d.ins.size(); i++) { if (x.ins[i].art.present() && g.chance(1, 3) && i > 0) if (!cond(x.ins[i].art.cdl)) y.ins[i].art.c.clear(); std::vector<DRgn> kept; for (size_t k = 0; k < d.ins[i].r.size(); k++) { auto& r = x.ins[i].r[k]; DRgn yr = y.ins[i].r[k]; if (r.art.present() && g.chance(1, 3)) if (!cond(r.art.cdl)) yr.art.c.clear(); if (g.flip()) { if (cond(r.cdl)) kept.push_back(yr); } else kept.push_back(yr); } y.ins[i].r = kept; }
      bool art = false; std::vector<DIns> ki; for (auto& i : y.ins) { art |= i.art.present(); for (auto& r : i.r) art |= r.art.present(); if (!i.r.empty()) ki.push_back(i); } bool anyRgn = !ki.empty(); y.ins = ki; if (!anyRgn) throw Discard(); art = false; for (auto& i : y.ins) { art |= i.art.present(); for (auto& r : i.r) art |= r.art.present(); } if (!art) throw Discard();
      if (!n) throw Discard(); if (c.verbose) { c.say("conditions (%d, %d false):\n", n, off); describe(c, x); } Bytes bx = encDls(x, g.flip() ? &g : nullptr), by = encDls(y); if (!fileOk) { Pcm p = playWith(&bx, h, false); requireSame(playWith(nullptr, h), p, "built-in sounds vs. collection with a false condition"); c.label("whole collection excluded"); } else requireSame(playWith(&by, h), playWith(&bx, h), "remaining parts vs. conditional parts"); c.nontrivial = n > 0; c.label("conditions", n); c.label("false conditions", off); break; }
    default: { // histories of loads
      Eng e; std::vector<Bytes> ok; const Bytes* cur = nullptr; int n = 1 + g.draw(5), bad = 0; std::deque<Bytes> hold; EAS_HANDLE other = g.chance(1, 3) ? e.live() : nullptr;
      for (int i = 0; i < n; i++) { Dls o = g.flip() ? d : genBenignDls(g); if (i == n - 1 && g.flip()) o = d; Bytes b = encDls(o, g.flip() ? &g : nullptr); bool good = g.flip() || i == n - 1; if (!good) { int m = g.draw(3); bad++; if (m == 0) b.resize(g.draw(b.size() * 9 / 10)); else if (m == 1) { Dls z = o; z.ins[g.draw(z.ins.size())].r[0].wave = 99999; b = encDls(z); } else { Dls z = o; z.waves[g.draw(z.waves.size())].tag = 2; b = encDls(z); } } MemFile f(b); EAS_RESULT r = e.loadDLS(f); if (good) { REQUIRE(r == EAS_SUCCESS, "well-formed collection refused (%ld)", (long)r); } else if (r == EAS_SUCCESS) good = true; if (good) { hold.push_back(b); cur = &hold.back(); } c.say("load %d: %s -> %ld\n", i, good ? "good" : "bad", (long)r);
        if (g.chance(1, 3)) { playOn(e, h); } if (g.chance(1, 3)) e.skip(g.draw(20)); }
      if (other) e.closeLive(other); e.skip(2); { Pcm q; for (int i = 0; i < 400; i++) { q = e.render(1); if (allZero(q)) break; } if (!allZero(q)) throw Discard(); } Pcm p = playOn(e, h); Pcm q = playWith(cur, h); requireSame(q, p, "last accepted collection only vs. after the history of loads"); c.label("load history"); c.label("rejected loads", bad); } } }
static Reg r("L03", l03, "random collections and music; (a) chunk order, padding, unknown chunks, pool order, unused waves/instruments vs. the canonical layout, (b) random conditional expressions at file, region and articulation level with a reference evaluator vs. the collection reduced to the true parts, (c) histories of accepted and rejected loads vs. the last accepted one alone; bit-exact output; non-trivial: the collection is heard or a condition was evaluated", 200000, 8000000, 20);
