#include "../hist.h"
// M06: an arbitrary byte stream plays like its complete, recognised messages (extracted by an independent parser).
struct Tok { Bytes b; bool whole; };   // whole: recognised exclusive, not to be cut over a block boundary
static void m06(Gen& g, Ctx& c) {
  Setup su = genSetup(g, c, false); HistOpts o; o.m.chans = genChans(g, 4); o.m.maxNotes = noteCap(su); o.m.smallProgs = su.hasDls; o.mip = g.flip(); o.resets = 20; Hist h = genHist(g, o);
  // raw stream: bytes with the block at which they are written
  std::vector<std::pair<int, uint8_t>> raw; int run = -1; uint64_t noise = 0; bool noRun = g.chance(1, 4);
  auto rt = [&](int blk) { while (g.chance(1, 10)) { raw.push_back({blk, (uint8_t)(0xF8 + g.draw(8))}); noise++; } };
  for (auto& e : h.ev) {
    int blk = e.blk;
    if (g.chance(1, 4)) { noise++; switch (g.draw(7)) {        // noise before the message
      case 0: { raw.push_back({blk, (uint8_t)g.pick({0x91, 0xB3, 0xE0, 0x85, 0xC2, 0xD1, 0xA9})}); uint8_t st = raw.back().second; if (msgLen(st) == 3 && g.flip()) raw.push_back({blk, (uint8_t)g.draw(128)}); run = -1; break; }   // incomplete
      case 1: { Bytes x{0xF0}; int l = g.draw(30); static const std::vector<uint8_t> ids{0x41, 0x43, 0x7D, 0x00, 0x42}; x.push_back(g.pick(ids)); for (int i = 0; i < l; i++) x.push_back(g.draw(128)); if (g.chance(3, 4)) { x.push_back(0xF7); for (int i = g.draw(3); i > 0; i--) x.push_back(g.draw(128)); } for (auto y : x) { raw.push_back({blk, y}); rt(blk); } run = -1; break; }   // unknown exclusive (maybe aborted) and stray data
      case 2: { int st = 0xF1 + g.draw(6); raw.push_back({blk, (uint8_t)st}); int nd = st == 0xF2 ? 2 : st == 0xF1 || st == 0xF3 ? 1 : 0; for (int i = 0; i < nd; i++) raw.push_back({blk, (uint8_t)g.draw(128)}); for (int i = g.draw(2); i > 0; i--) raw.push_back({blk, (uint8_t)g.draw(128)}); run = -1; break; }
      case 3: { if (run < 0) for (int i = g.draw(4); i > 0; i--) raw.push_back({blk, (uint8_t)g.draw(128)}); break; }   // stray data without a status
      case 4: { raw.push_back({blk, 0xF7}); run = -1; break; }
      case 5: { Bytes x{0xF0, 0x7E, 0x7F}; x.push_back(g.pick({0x06, 0x08, 0x05})); int l = g.draw(6); for (int i = 0; i < l; i++) x.push_back(g.draw(128)); x.push_back(0xF7); for (auto y : x) raw.push_back({blk, y}); run = -1; break; }   // other universal messages
      default: { Bytes x{0xF0, 0x7F, 0x7F, 0x04}; x.push_back(g.pick({0x02, 0x03, 0x04, 0x7F})); x.push_back(g.draw(128)); x.push_back(g.draw(128)); x.push_back(0xF7); for (auto y : x) raw.push_back({blk, y}); run = -1; break; } } }
    rt(blk); bool skip = e.b[0] < 0xF0 && run == e.b[0] && !noRun; if (skip) c.label("running status", 1);
    size_t cut = 0; int early = blk; if (e.b[0] < 0xF0 && g.chance(1, 4)) { int last = raw.empty() ? 0 : raw.back().first; early = g.range(std::min(last, blk), blk); cut = 1 + g.draw(e.b.size() - 1); if (early < blk) c.label("cut over blocks"); }
    for (size_t i = skip ? 1 : 0; i < e.b.size(); i++) { raw.push_back({i < cut ? early : blk, e.b[i]}); if (i + 1 < e.b.size()) rt(i < cut ? early : blk); }
    run = e.b[0] < 0xF0 ? e.b[0] : -1; }
  // independent parser
  Hist canon; canon.blocks = h.blocks; { int st = -1, need = 0; Bytes cur; bool sx = false; Bytes sxb;
    for (auto& r : raw) { uint8_t x = r.second; if (x >= 0xF8) continue;
      if (x == 0xF0) { sx = true; sxb = {0xF0}; st = -1; continue; }
      if (sx) { if (x < 0x80) { sxb.push_back(x); continue; } sx = false; if (x == 0xF7) { sxb.push_back(x); if (sxb == sysGmOn() || (sxb.size() == 8 && sxb[1] == 0x7F && sxb[2] == 0x7F && sxb[3] == 4 && sxb[4] == 1) || (sxb.size() >= 6 && sxb[1] == 0x7F && sxb[2] == 0x7F && sxb[3] == 0x0B && sxb[4] == 1)) canon.ev.push_back({r.first, sxb}); st = -1; continue; } }
      if (x >= 0xF0) { st = -1; continue; }
      if (x >= 0x80) { st = x; need = msgLen(x) - 1; cur.clear(); continue; }
      if (st < 0) continue;
      cur.push_back(x); if ((int)cur.size() == need) { Bytes m{(uint8_t)st}; app(m, cur); canon.ev.push_back({r.first, m}); cur.clear(); } } }
  describe(c, canon, "messages"); { Bytes all; for (auto& r : raw) all.push_back(r.second); c.say("raw %s\n", hexs(all, 200).c_str()); }
  REQUIRE(canon.ev.size() >= h.ev.size() || noise, "harness: messages lost");
  Pcm a, b; { Eng e; su.apply(e); EAS_HANDLE s = e.live(); playHist(e, s, canon, a); }
  { Eng e; su.apply(e); EAS_HANDLE s = e.live(); size_t i = 0; int style = g.draw(4);
    for (int k = 0; k < h.blocks; k++) { while (i < raw.size() && raw[i].first <= k) { Bytes w; int n = style == 0 ? 1 << 20 : style == 1 ? 1 : 1 + (int)g.draw(style == 2 ? 5 : 40); while (n-- > 0 && i < raw.size() && raw[i].first <= k) w.push_back(raw[i++].second); e.write(s, w); } e.render(b, 1); } }
  c.nontrivial = noise > 0 && peak(a) > 50; requireSame(a, b, "complete messages vs the raw byte stream");
}
static Reg r("M06", m06, "live histories encoded as byte streams with running status, real-time bytes anywhere, incomplete messages, unknown/aborted exclusives, system-common messages and stray data, cut into random writes, against an independent parser's messages; non-trivial: noise present and audible", 150000, 4000000, 20);
