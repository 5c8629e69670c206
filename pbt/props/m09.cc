#include "../dc.h"
// M09: GM reset, reset-all-controllers, master volume; messages without effect.
static Bytes noop(Gen& g, const std::vector<int>& ch, bool file) {
  int c = g.pick(ch); auto rnd = [&](Bytes b, int n) { for (int i = g.draw(n); i > 0; i--) b.push_back(g.draw(128)); b.push_back(0xF7); return b; };
  switch (g.draw(file ? 10 : 8)) {
    case 0: { static std::vector<int> un; if (un.empty()) { std::set<int> known{0, 1, 6, 7, 10, 11, 32, 38, 64, 91, 93, 98, 99, 100, 101, 120, 121, 123, 124, 125, 126, 127}; for (int i = 0; i < 128; i++) if (!known.count(i)) un.push_back(i); } return mCC(c, g.pick(un), g.draw(128)); }
    case 1: return mPoly(c, g.draw(128), g.draw(128));
    case 2: return rnd({0xF0, (uint8_t)g.pick({0x41, 0x43, 0x00, 0x7D, 0x42})}, 24);
    case 3: return rnd({0xF0, 0x7E, 0x7F, (uint8_t)g.pick({0x06, 0x08, 0x05, 0x01, 0x0A})}, 8);
    case 4: return rnd({0xF0, 0x7F, 0x7F, 0x04, (uint8_t)g.pick({0x02, 0x03, 0x04, 0x05, 0x7F})}, 8);
    case 5: return rnd({0xF0, 0x7F, 0x7F, (uint8_t)g.pick({0x01, 0x02, 0x03, 0x06, 0x08})}, 8);
    case 6: return g.flip() ? Bytes{0xF0, 0xF7} : rnd({0xF0, 0x7E, 0x7F, 0x09, (uint8_t)g.pick({0x00, 0x04, 0x05, 0x7F})}, 3);
    case 7: {   // a supported exclusive with one byte wrong, or cut short
      Bytes b = g.pick({Bytes{0xF0, 0x7E, 0x7F, 0x09, 0x01, 0xF7}, Bytes{0xF0, 0x7E, 0x7F, 0x09, 0x03, 0xF7}, sysMasterVol(g.draw(16384)), Bytes{0xF0, 0x7F, 0x7F, 0x0B, 0x01, 0x00, 0x20, 0xF7}}); int keep = b[1] == 0x7E ? 4 : b[3] == 4 ? 6 : 4; int at = g.range(1, 4); uint8_t old = b[at];
      if (g.flip()) { b.resize(1 + g.draw(keep)); b.push_back(0xF7); return b; }
      b[at] = g.flip() ? old ^ (1 << g.draw(7)) : g.draw(128); if (b[at] == old) b[at] ^= 0x20; if (at == 1 && (b[at] == 0x7E || b[at] == 0x7F)) { b[at] = 0x3D; } if (at == 3 && b[1] == 0x7F && (b[at] == 0x04 || b[at] == 0x0B)) b[at] = 0x0A; if (at == 4 && old != b[at] && b[1] == 0x7E && (b[at] == 1 || b[at] == 3)) b[at] = 2; return b; }
    default: { Bytes b{0xFF, (uint8_t)g.pick({0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x20, 0x21, 0x54, 0x59, 0x60, 0x7F})}; for (int i = g.draw(12); i > 0; i--) b.push_back(g.draw(256)); return b; } } }
static Pcm playLive(const Setup& su, const Hist& h) { Eng e; su.apply(e); EAS_HANDLE s = e.live(); Pcm p; playHist(e, s, h, p); return p; }
static Pcm playFile(const Setup& su, const Hist& h) { Song s = histSong(h, h.blocks + 400); MemFile f(encSong(s)); Eng e; su.apply(e); EAS_HANDLE k = e.play(f); Pcm p; e.render(p, h.blocks + 1); e.closeFile(k); return p; }
static void m09(Gen& g, Ctx& c) {
  int mode = g.weighted({6, 6, 6, 4, 1}); Setup su = genSetup(g, c, mode == 1 || mode == 2, mode == 1 || mode == 2); if (mode == 0 && g.flip()) { Dls d = genBenignDls(g); auto strip = [](DArt& a) { for (auto& k : a.c) if (k.dst == CD_SHUT) k = conn(CD_AT, 0); }; for (auto& i : d.ins) { strip(i.art); for (auto& r : i.r) strip(r.art); } su.hasDls = true; su.layers = 4; su.dls = encDls(d); describe(c, d); }  int cap = noteCap(su); bool file = g.chance(1, 3); auto play = [&](const Hist& h) { return file ? playFile(su, h) : playLive(su, h); }; if (file) c.label("file stream");
  HistOpts o; o.m.chans = genChans(g, 4); o.m.smallProgs = su.hasDls; o.m.maxNotes = mode == 3 ? cap / 2 : cap; o.maxEvents = 40;
  if (mode == 0) {   // GM reset == new stream with the same master volume
    o.resets = 25; o.mip = g.chance(1, 3); Hist a = genHist(g, o); describe(c, a, "before"); o.m.chans = genChans(g, 4); Hist b = genHist(g, o); describe(c, b, "after"); int mv = g.flip() ? g.range(8000, 16383) : 16383; int at = a.blocks + 1, settle = 12; c.say("reset at block %d, master volume %d\n", at, mv);
    Hist x = a, y; Bytes gm = sysGmOn(); if (g.flip()) gm[4] = 3; bool volFirst = g.flip(); if (volFirst) x.ev.push_back({at, sysMasterVol(mv)}); x.ev.push_back({at, gm}); if (!volFirst) x.ev.push_back({at, sysMasterVol(mv)}); y.ev.push_back({at, sysMasterVol(mv)});
    // settings sent together with the reset count
    { MusicOpts mo = o.m; mo.maxNotes = 0; MusicGen mg(mo); for (int i = g.draw(8); i > 0; i--) { Bytes m = mg.next(g); if ((m[0] & 0xF0) == 0x90 || (m[0] & 0xF0) == 0x80) continue; x.ev.push_back({at, m}); y.ev.push_back({at, m}); } }
    for (auto& e : b.ev) { x.ev.push_back({at + settle + e.blk, e.b}); y.ev.push_back({at + settle + e.blk, e.b}); } x.blocks = y.blocks = at + settle + b.blocks; if (at < 2) throw Discard();
    Pcm p = play(x), q = play(y); size_t from = (size_t)(at + settle) * 2 * BLK(); Pcm pa(p.begin() + (at + settle - 4) * 2 * BLK(), p.end()), qa(q.begin() + (at + settle - 4) * 2 * BLK(), q.end()); c.nontrivial = peak(q, from) > 50 && a.ev.size() > 2; c.label("reset"); requireSame(qa, pa, "after a reset vs on a new stream"); return; }
  if (mode == 1) {   // reset all controllers == resetting each of them
    o.resets = 40; o.mip = g.chance(1, 4); Hist a = genHist(g, o); describe(c, a); size_t at = g.draw(a.ev.size()) + 1; int ch = g.pick(o.m.chans), blk = a.ev[at - 1].blk; c.say("reset-all-controllers on %d after event %zu\n", ch, at - 1);
    std::vector<Bytes> rs{mCC(ch, 1, 0), mCC(ch, 11, 127), mCC(ch, 64, 0), mBend(ch, 8192), mPress(ch, 0)}; for (size_t i = rs.size(); i > 1; i--) std::swap(rs[i - 1], rs[g.draw(i)]); Bytes ex; for (auto& m : rs) app(ex, m); int ord = g.draw(3); for (int i = 0; i < 3; i++) { int n = (i + ord) % 3; app(ex, cat({mCC(ch, 101, 0), mCC(ch, 100, n), mCC(ch, 6, n == 0 ? 2 : 64)})); } app(ex, cat({mCC(ch, 101, 127), mCC(ch, 100, 127)}));
    Hist x = a, y = a; x.ev.insert(x.ev.begin() + at, HEv{blk, mCC(ch, 121, g.draw(128))}); std::vector<HEv> v; for (size_t i = 0; i < ex.size(); i += msgLen(ex[i])) v.push_back({blk, Bytes(ex.begin() + i, ex.begin() + i + msgLen(ex[i]))}); y.ev.insert(y.ev.begin() + at, v.begin(), v.end());
    Pcm p = play(x), q = play(y); c.nontrivial = peak(q) > 50; c.label("controllers"); requireSame(q, p, "resetting each controller vs reset-all-controllers"); return; }
  if (mode == 2) {   // unsupported messages
    o.resets = 30; o.mip = g.chance(1, 4); Hist a = genHist(g, o); describe(c, a); Hist x, y; x.blocks = y.blocks = a.blocks; int n = 0; for (auto& e : a.ev) { while (g.chance(1, 4) && n < 40) { int lo = x.ev.empty() ? 0 : x.ev.back().blk, at = g.range(lo, e.blk); n++;
      if (g.chance(1, 5)) {   // data for a parameter the engine does not know; the reference only deselects
        int k = g.pick(o.m.chans); Bytes m; int hi = g.edge(0, 127), lw = g.pick({0, 1, 2, 3, 5, 127, 64}); bool nr = g.chance(1, 3); if (!nr && hi == 0 && lw < 3) hi = g.pick({1, 2, 0x20, 0x3d, 0x40, 0x7f}); Bytes s1 = mCC(k, nr ? 99 : 101, hi), s2 = mCC(k, nr ? 98 : 100, lw); if (g.flip()) std::swap(s1, s2); m = cat({s1, s2}); for (int i = 1 + g.draw(3); i > 0; i--) app(m, mCC(k, g.pick({6, 6, 38}), g.draw(128))); Bytes d = cat({mCC(k, 101, 127), mCC(k, 100, 127)}); app(m, d); for (size_t i = 0; i < m.size(); i += 3) x.ev.push_back({at, Bytes(m.begin() + i, m.begin() + i + 3)}); for (size_t i = 0; i < d.size(); i += 3) y.ev.push_back({at, Bytes(d.begin() + i, d.begin() + i + 3)}); c.label("unknown parameter number"); continue; }
      x.ev.push_back({at, noop(g, o.m.chans, file)}); } x.ev.push_back(e); y.ev.push_back(e); } describe(c, x, "with unsupported messages");
    Pcm p = play(y), q = play(x); c.nontrivial = n > 0 && peak(p) > 50; c.label("unsupported"); requireSame(p, q, "without vs with unsupported messages"); return; }
  if (mode == 4) {   // the whole 14-bit range, on a constant wave
    Dls d; d.waves.push_back(dcWave(g.range(3000, 8000))); DIns in; in.prog = 0; in.art = basicArt(); DRgn rg; rg.wave = 0; in.r.push_back(rg); d.ins.push_back(in); MemFile f(encDls(d)); Eng e; REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(), s2 = g.flip() ? e.live() : nullptr; c.label("master volume law"); Pcm p; int blk = 0;
    e.write(s, cat({sysMasterVol(16383), mProg(0, 0), mCC(0, 7, 127), mNoteOn(0, 60, 127)})); e.render(p, 3); blk += 3; double full = levelOf(p, 2).l; REQUIRE(full > 2000 && full < 25200, "full-level constant wave is played at %g", full); double other = 0; bool both = s2 && g.flip(); if (both) { e.write(s2, cat({mProg(1, 0), mCC(1, 7, 90), mNoteOn(1, 60, 100)})); e.render(p, 3); blk += 3; other = levelOf(p, blk - 1).l - full; }
    for (int i = 1 + g.draw(5); i > 0; i--) { int v = g.flip() ? g.edge(0, 16383) : std::min(16383, (int)(g.range(0, 127) * 128 + g.pick({0, 1, 63, 64, 127}))); c.say("master volume %d\n", v); Bytes m = sysMasterVol(v); if (s2 && g.chance(1, 4)) e.write(s2, sysMasterVol(16383 - g.draw(2))); e.write(s, m); e.render(p, 3); blk += 3; double x = levelOf(p, blk - 1).l - other, r = (double)v / 16383, w = full * r * r; if (std::fabs(x - w) > 9 + w * 0.015 + (both ? 4 + std::fabs(other) * 0.01 : 0)) fail(fmt("master volume %d: level %.0f, expected %.1f (full volume %.0f)", v, x, w, full)); }
    c.nontrivial = true; return; }
  // master volume scales this stream by the square of its value, others not
  o.m.cc = false; su.hasDls = false; o.m.maxNotes = 6; Hist a = genHist(g, o); describe(c, a); int v1 = 16383, v2 = g.range(6000, 16383), at = g.range(1, std::max(1, a.blocks)); int lev = g.range(80, 127); c.say("master volume %d from block %d\n", v2, at);
  Hist x; x.blocks = a.blocks; for (int ch : o.m.chans) x.ev.push_back({0, mCC(ch, 7, lev)}); x.ev.push_back({0, sysMasterVol(v1)}); Hist y = x; bool done = false; auto put = [&]() { if (!done) { x.ev.push_back({at, sysMasterVol(v1)}); y.ev.push_back({at, sysMasterVol(v2)}); done = true; } }; for (auto& e : a.ev) { if (e.blk >= at) put(); x.ev.push_back(e); y.ev.push_back(e); } put(); x.blocks = y.blocks = std::max(a.blocks, at + 6);
  Pcm p = play(x), q = play(y); double r = (double)v2 / 16383; r *= r; int off = file ? 1 : 0; size_t b0 = (size_t)(at + off) * 2 * BLK(); c.nontrivial = peak(p, b0) > 200; c.label("master volume"); int pk = peak(p); if (pk > 32000) return;
  for (size_t i = 0; i < std::min(b0 - off * 2 * BLK(), p.size()); i++) if (p[i] != q[i]) fail(fmt("master volume acts before it is sent: frame %zu", i / 2));
  for (size_t i = b0 + 2 * 2 * BLK(); i < p.size(); i++) { double w = p[i] * r; if (std::fabs(q[i] - w) > 16 + 6 * (int)std::min<uint64_t>(a.notes, 20) + std::fabs(w) * 0.03 + pk * 0.002) fail(fmt("master volume %d: block %zu frame %zu: %d, expected about %.0f (full volume %d)", v2, i / (2 * BLK()), i / 2 % BLK(), q[i], w, p[i])); } }
static Reg r("M09", m09, "live and file histories: random history + GM reset + history vs. new stream; reset-all-controllers vs. each reset explicitly; insertion of unsupported exclusives, controllers, poly pressure and metas; master volume scaling and its 14-bit law; non-trivial: the reference output peaks above 50", 120000, 3000000, 20);
