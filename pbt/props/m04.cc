#include "../dc.h"
// M04: bank/program selection against a model of the documented lookup.
static const std::vector<int> VALS{600, -600, 900, -900, 1350, -1350, 2000, -2000, 3000, -3000, 4500, -4500, 6700, -6700, 10000, -10000};
static const std::vector<double>& levels() { static std::vector<double> L; if (L.empty()) { Dls d; int i = 0; for (int v : VALS) { d.waves.push_back(dcWave(v)); DIns n; n.prog = i; n.art = basicArt(); DRgn r; r.wave = i; n.r.push_back(r); d.ins.push_back(n); i++; } Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); for (i = 0; i < (int)VALS.size(); i++) { e.write(s, cat({mProg(0, i), mNoteOn(0, 60, 127)})); Pcm p = e.render(3); L.push_back(levelOf(p, 2).l); e.write(s, mNoteOff(0, 60)); e.skip(4); } } return L; }
struct Sel { int bank, prog; bool rhythm; };
static void m04(Gen& g, Ctx& c) {
  const auto& L = levels(); Dls d; int n = 1 + g.draw(10); std::map<int, int> table; bool drumHeavy = g.chance(1, 3);
  for (int i = 0; i < n; i++) { bool drum = drumHeavy ? g.flip() : g.chance(1, 4); int bank = g.weighted({3, 3, 2, 2}) == 0 ? 0 : g.flip() ? (drum ? 0x7800 : 0x7900) : g.pick({1, 0x100, 0x7901, 0x7801, 0x203, 0x7F7F, 0x7800, 0x7900}); int prog = g.chance(1, 5) ? g.edge(0, 127) : g.draw(4); int key = (drum ? 0x1000000 : 0) | bank << 8 | prog; if (table.count(key)) continue; table[key] = d.ins.size(); d.waves.push_back(dcWave(VALS[d.ins.size()])); DIns q; q.bank = bank | (drum ? 0x80000000u : 0); q.prog = prog; q.art = basicArt(); DRgn r; r.wave = d.ins.size(); r.opts = 1; q.r.push_back(r); d.ins.push_back(q); }
  describe(c, d); auto has = [&](int bank, bool dr, int prog) { auto it = table.find((dr ? 0x1000000 : 0) | bank << 8 | prog); return it == table.end() ? -1 : it->second; };
  auto find = [&](const Sel& s) { int r = has(s.bank, s.rhythm, s.prog); int msb = s.bank & 0xFF00; if (r < 0 && (msb == 0x7900 || msb == 0x7800)) r = has(s.bank & 0xFF, s.rhythm, s.prog); bool def = s.rhythm ? s.bank == 0x7800 : s.bank == 0x7900; if (r < 0 && !def) { r = has(s.rhythm ? 0x7800 : 0x7900, s.rhythm, s.prog); if (r < 0) r = has(0, s.rhythm, s.prog); } if (r < 0 && s.rhythm && s.prog) { r = has(0x7800, true, 0); if (r < 0) r = has(0, true, 0); } return r; };
  std::vector<int> chs = genChans(g, 3); if (g.flip()) chs.push_back(9); int bank[16]; Sel sel[16]; auto power = [&]() { for (int i = 0; i < 16; i++) { bank[i] = i == 9 ? 0x7800 : 0x7900; sel[i] = {bank[i], 0, i == 9}; } }; power();
  // two histories: the collection and a reference without one, told the resulting selection in the plainest way
  Hist h, ref; struct Chk { int blk; int ins; int ch; Sel s; }; std::vector<Chk> chk; int blk = 2; int steps = 2 + g.draw(16), changes = 0; bool file = g.chance(1, 3); h.ev.push_back({1, sysMasterVol(16383)}); ref.ev.push_back({1, sysMasterVol(16383)});
  auto change = [&](int ch) { changes++; switch (g.weighted({3, 2, 5, 1})) { case 0: { int v = g.flip() ? g.pick({0, 0x78, 0x79}) : g.pick({1, 2, 0x7F, 0x77, 0x7A}); bank[ch] = v << 8; h.ev.push_back({blk, mCC(ch, 0, v)}); break; } case 1: { int v = g.flip() ? g.draw(4) : g.pick({0, 1, 3, 127}); bank[ch] = (bank[ch] & 0xFF00) | v; h.ev.push_back({blk, mCC(ch, 32, v)}); break; }
      case 2: { int p = g.chance(1, 5) ? g.edge(0, 127) : g.draw(4); int m = bank[ch] & 0xFF00; if (m == 0x7800) sel[ch].rhythm = true; else if (m == 0x7900) sel[ch].rhythm = false; sel[ch].bank = bank[ch]; sel[ch].prog = p; h.ev.push_back({blk, mProg(ch, p)}); break; } default: h.ev.push_back({blk, mCC(ch, 121, 0)}); } };
  for (int i = 0; i < steps; i++) {
    for (int k = g.draw(5); k > 0; k--) change(g.pick(chs)); if (g.chance(1, 25)) { h.ev.push_back({blk, sysGmOn()}); power(); blk += 4; }
    int ch = g.pick(chs), key = g.range(36, 80); Sel s = sel[ch]; int in = find(s); h.ev.push_back({blk, mNoteOn(ch, key, 127)}); ref.ev.push_back({blk, mCC(ch, 0, s.rhythm ? 0x78 : 0x79)}); ref.ev.push_back({blk, mCC(ch, 32, 0)}); ref.ev.push_back({blk, mProg(ch, s.prog)}); ref.ev.push_back({blk, mNoteOn(ch, key, 127)}); chk.push_back({blk, in, ch, s});
    blk += 2; for (int k = g.draw(4); k > 0; k--) change(g.flip() ? ch : g.pick(chs)); blk += 2; h.ev.push_back({blk, mCC(ch, 120, 0)}); ref.ev.push_back({blk, mCC(ch, 120, 0)}); blk += 5; }
  h.blocks = ref.blocks = blk; describe(c, h); Eng e; MemFile f(encDls(d)); bool onStream = file && g.flip(); Pcm p, q; if (!onStream) REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "collection refused"); EAS_HANDLE s; Song sg = histSong(h, blk + 100); MemFile mf(encSong(sg)); s = file ? e.play(mf) : e.live(); if (onStream) REQUIRE(e.loadDLS(f, s) == EAS_SUCCESS, "collection refused on a stream"); if (file) e.render(p, blk); else playHist(e, s, h, p);
  { Eng r; EAS_HANDLE t; Song rg = histSong(ref, blk + 100); MemFile rf(encSong(rg)); if (file) { t = r.play(rf); r.render(q, blk); } else { t = r.live(); playHist(r, t, ref, q); } }
  int nd = 0, ni = 0; for (auto& k : chk) { const char* w = k.s.rhythm ? "percussion" : "melodic"; if (k.ins >= 0) { nd++; for (int b = 2; b < 4; b++) { REQUIRE(steady(p, k.blk + b), "block %d: not the constant wave of instrument %d (bank %x program %d %s)", k.blk + b, k.ins, k.s.bank, k.s.prog, w); double l = levelOf(p, k.blk + b).l; if (std::fabs(l - L[k.ins]) > 8 + std::fabs(L[k.ins]) * 0.01) fail(fmt("block %d channel %d bank %x program %d %s: level %.0f, instrument %d would be %.0f", k.blk + b, k.ch, k.s.bank, k.s.prog, w, l, k.ins, L[k.ins])); } }
    else { ni++; for (size_t i = (size_t)k.blk * 2 * BLK(); i < (size_t)(k.blk + 4) * 2 * BLK(); i++) if (p[i] != q[i]) fail(fmt("block %zu channel %d bank %x program %d %s: not the built-in sound", i / (2 * BLK()), k.ch, k.s.bank, k.s.prog, w)); } }
  c.nontrivial = changes > 1 && nd > 0; c.label("downloaded", nd); c.label("built-in", ni); }
static Reg r("M04", m04, "random collections over banks/programs (melodic and percussion) with one constant wave per instrument; random bank/program/reset messages on several channels of live and file streams; each note's measured wave vs. a model of the lookup order, built-in fallback bit-exact vs. an engine without the collection; non-trivial: several selections and at least one downloaded note", 300000, 8000000, 20);
