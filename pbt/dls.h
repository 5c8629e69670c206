// DLS collection model, encoder with layout freedom, wave helpers, hostile generator.
#pragma once
#include "smf.h"
struct DConn { int src = 0, ctl = 0, dst = 0; int32_t scale = 0; int trn = 0; };
struct DArt { std::vector<DConn> c; bool v2 = false; Bytes cdl; bool present() const { return !c.empty(); } };
struct DWsmp { bool on = false; int unity = 60, fine = 0; int32_t gain = 0; bool loop = false; uint32_t start = 0, len = 0; uint32_t nloops = 1; uint32_t loopType = 0; };
struct DWave { int bits = 16; uint32_t rate = 44100; std::vector<int16_t> s; DWsmp w; int tag = 1, chans = 1; int id = 0; };   // 8 bit: s holds 0..255 unsigned values
struct DRgn { int keyLo = 0, keyHi = 127, velLo = 0, velHi = 127, opts = 0, group = 0; DWsmp w; uint32_t wave = 0; DArt art; bool rgn2 = false; Bytes cdl; };
struct DIns { uint32_t bank = 0, prog = 0; std::vector<DRgn> r; DArt art; int headerRegions = -1; };
struct Dls { std::vector<DIns> ins; std::vector<DWave> waves; Bytes cdl; };
enum { CS_NONE = 0, CS_LFO = 1, CS_VEL = 2, CS_KEY = 3, CS_EG2 = 5, CS_CP = 8, CS_VIB = 9, CS_CC1 = 0x81 };
enum { CD_GAIN = 1, CD_PITCH = 3, CD_PAN = 4, CD_LFOF = 0x104, CD_LFOD = 0x105, CD_VIBF = 0x114, CD_VIBD = 0x115, CD_AT = 0x206, CD_DEC = 0x207, CD_REL = 0x209, CD_SUS = 0x20a, CD_DEL = 0x20b, CD_HOLD = 0x20c, CD_SHUT = 0x20d,
       CD2_AT = 0x30a, CD2_DEC = 0x30b, CD2_REL = 0x30d, CD2_SUS = 0x30e, CD2_DEL = 0x30f, CD2_HOLD = 0x310, CD_FC = 0x500, CD_Q = 0x501, CD_CHORUS = 0x80, CD_REVERB = 0x81 };
inline DConn conn(int dst, int v, int src = 0, int ctl = 0) { DConn c; c.src = src; c.ctl = ctl; c.dst = dst; c.scale = (int32_t)((uint32_t)(int32_t)v << 16); return c; }

inline void le16(Bytes& o, int v) { o.push_back(v & 255); o.push_back((v >> 8) & 255); }
inline void le32(Bytes& o, uint32_t v) { le16(o, v & 0xffff); le16(o, v >> 16); }
inline Bytes chunk(const char* id, const Bytes& d) { Bytes o; putTag(o, id); le32(o, d.size()); app(o, d); if (d.size() & 1) o.push_back(0); return o; }
inline Bytes list(const char* type, const Bytes& d, const char* id = "LIST") { Bytes b; putTag(b, type); app(b, d); return chunk(id, b); }
// Layout: null = canonical. Otherwise random order / extra chunks wherever the format leaves them free.
struct Layout { Gen* g = nullptr; bool extras = true;
  Bytes junk() { Bytes d; for (int n = g->draw(9); n > 0; n--) d.push_back(g->draw(256)); switch (g->draw(4)) { case 0: return chunk("junk", d); case 1: return chunk("dlid", Bytes(16, 7)); case 2: return list("INFO", chunk("INAM", d)); default: return chunk("xyzw", d); } }
  Bytes join(std::vector<Bytes> parts) { if (g) { for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[i - 1 - g->draw(i)]); } Bytes o; for (auto& p : parts) { if (g && extras && g->chance(1, 4)) app(o, junk()); app(o, p); } if (g && extras && g->chance(1, 4)) app(o, junk()); return o; } };
inline Bytes encWsmp(const DWsmp& w, Layout& L) { Bytes d; int cb = L.g && L.extras && L.g->chance(1, 5) ? 24 : 20; le32(d, cb); le16(d, w.unity); le16(d, w.fine); le32(d, (uint32_t)w.gain); le32(d, 0); le32(d, w.loop ? w.nloops : 0); while ((int)d.size() < cb) d.push_back(0xEE);
  if (w.loop) { le32(d, 16); le32(d, w.loopType); le32(d, w.start); le32(d, w.len); } return chunk("wsmp", d); }
inline Bytes encArt(const DArt& a, Layout& L) { Bytes d; int cb = L.g && L.extras && L.g->chance(1, 5) ? 12 : 8; le32(d, cb); le32(d, a.c.size()); while ((int)d.size() < cb) d.push_back(0xEE); for (auto& c : a.c) { le16(d, c.src); le16(d, c.ctl); le16(d, c.dst); le16(d, c.trn); le32(d, (uint32_t)c.scale); }
  Bytes in; if (!a.cdl.empty()) app(in, chunk("cdl ", a.cdl)); if (L.g && L.extras && L.g->chance(1, 4)) app(in, L.junk()); app(in, chunk(a.v2 ? "art2" : "art1", d)); return list(a.v2 ? "lar2" : "lart", in); }
inline Bytes encRgn(const DRgn& r, Layout& L, const std::vector<uint32_t>& waveMap) {
  Bytes h; le16(h, r.keyLo); le16(h, r.keyHi); le16(h, r.velLo); le16(h, r.velHi); le16(h, r.opts); le16(h, r.group); if (L.g && L.extras && L.g->chance(1, 4)) le16(h, 0);
  Bytes k; le16(k, 0); le16(k, 0); le32(k, 1); le32(k, r.wave < waveMap.size() ? waveMap[r.wave] : r.wave);
  std::vector<Bytes> p{chunk("rgnh", h), chunk("wlnk", k)}; if (r.w.on) p.push_back(encWsmp(r.w, L)); if (r.art.present()) p.push_back(encArt(r.art, L));
  Bytes in; if (!r.cdl.empty()) app(in, chunk("cdl ", r.cdl)); app(in, L.join(p)); return list(r.rgn2 ? "rgn2" : "rgn ", in); }
inline Bytes encIns(const DIns& i, Layout& L, const std::vector<uint32_t>& waveMap) {
  Bytes h; le32(h, i.headerRegions >= 0 ? i.headerRegions : (uint32_t)i.r.size()); le32(h, i.bank); le32(h, i.prog); Bytes rg; for (auto& r : i.r) { if (L.g && L.extras && L.g->chance(1, 10)) app(rg, L.junk()); app(rg, encRgn(r, L, waveMap)); }
  std::vector<Bytes> p{chunk("insh", h), list("lrgn", rg)}; if (i.art.present()) p.push_back(encArt(i.art, L)); return list("ins ", L.join(p)); }
inline Bytes encWave(const DWave& w, Layout& L) {
  Bytes f; le16(f, w.tag); le16(f, w.chans); le32(f, w.rate); le32(f, w.rate * w.bits / 8 * w.chans); le16(f, w.bits / 8 * w.chans); le16(f, w.bits); if (L.g && L.extras && L.g->chance(1, 4)) le16(f, 0);
  Bytes d; for (int v : w.s) { if (w.bits == 16) le16(d, v); else d.push_back((uint8_t)v); } if (w.bits == 16 && L.g && L.extras && L.g->chance(1, 12)) d.push_back(0x5A);
  std::vector<Bytes> p{chunk("fmt ", f), chunk("data", d)}; if (w.w.on) p.push_back(encWsmp(w.w, L)); return list("wave", L.join(p)); }
inline Bytes encDls(const Dls& D, Gen* g = nullptr, bool shuffleWaves = true) {
  Layout L; L.g = g; size_t n = D.waves.size(); std::vector<uint32_t> cueOf(n), poolOrder(n);
  for (size_t i = 0; i < n; i++) cueOf[i] = poolOrder[i] = i;
  if (g && shuffleWaves) { for (size_t i = n; i > 1; i--) std::swap(cueOf[i - 1], cueOf[g->draw(i)]); for (size_t i = n; i > 1; i--) std::swap(poolOrder[i - 1], poolOrder[g->draw(i)]); }
  Bytes wv; std::vector<uint32_t> off(n); for (uint32_t w : poolOrder) { if (g && g->chance(1, 8)) app(wv, L.junk()); off[cueOf[w]] = wv.size(); app(wv, encWave(D.waves[w], L)); }
  Bytes pt; le32(pt, 8); le32(pt, n); for (uint32_t o : off) le32(pt, o);
  Bytes li; for (auto& i : D.ins) app(li, encIns(i, L, cueOf));
  Bytes ch; le32(ch, D.ins.size()); Bytes in; if (!D.cdl.empty()) app(in, chunk("cdl ", D.cdl));
  std::vector<Bytes> p{chunk("colh", ch), list("lins", li), chunk("ptbl", pt), list("wvpl", wv)}; app(in, L.join(p)); return list("DLS ", in, "RIFF"); }
inline DArt basicArt(int releaseTc = -32768) { DArt a; a.c.push_back(conn(CD_REL, releaseTc)); return a; }
inline DWave sineWave(double period, double amp, int cycles, bool loop = true, int bits = 16, uint32_t rate = 0) {
  DWave w; w.bits = bits; w.rate = rate ? rate : RATE(); int n = (int)std::lround(period * cycles); for (int i = 0; i < n; i++) { double v = amp * std::sin(2 * M_PI * i / period); w.s.push_back(bits == 16 ? (int)std::lround(v) : 128 + (int)std::lround(v / 256)); }
  w.w.on = true; w.w.loop = loop; w.w.start = 0; w.w.len = n; return w; }
inline void describe(Ctx& c, const Dls& d) { if (!c.verbose) return; c.say("dls: %zu waves, %zu instruments%s\n", d.waves.size(), d.ins.size(), d.cdl.empty() ? "" : " (conditional)");
  for (auto& w : d.waves) c.say(" wave %d bits %u Hz %zu samples wsmp %d unity %d fine %d gain %d loop %d %u+%u\n", w.bits, w.rate, w.s.size(), w.w.on, w.w.unity, w.w.fine, w.w.gain, w.w.loop, w.w.start, w.w.len);
  for (auto& i : d.ins) { c.say(" ins bank %x prog %u art %zu\n", i.bank, i.prog, i.art.c.size()); for (auto& r : i.r) { c.say("  rgn keys %d-%d vel %d-%d opts %d group %d wave %u cdl %s", r.keyLo, r.keyHi, r.velLo, r.velHi, r.opts, r.group, r.wave, hexs(r.cdl).c_str()); if (r.w.on) c.say(" wsmp unity %d fine %d gain %d loop %d %u+%u", r.w.unity, r.w.fine, r.w.gain, r.w.loop, r.w.start, r.w.len); for (auto& k : r.art.c) c.say(" [%x %x->%x %d]", k.src, k.ctl, k.dst, k.scale >> 16); c.say("\n"); } } }

// ---- conditional expressions: random program with its reference value ----
struct Cdl { Bytes code; };
inline const std::vector<std::pair<Bytes, int>>& knownGuids() {   // guid, kind: 0 supported (value known below), 1 supported value 0
  static std::vector<std::pair<Bytes, int>> v; if (v.empty()) { auto G = [](uint32_t a, int b, int c, std::initializer_list<int> d) { Bytes o; le32(o, a); le16(o, b); le16(o, c); for (int x : d) o.push_back(x); return o; };
    v = {{G(0x178f2f24, 0xc364, 0x11d1, {0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12}), 1}, {G(0x178f2f27, 0xc364, 0x11d1, {0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12}), 1}, {G(0xb03e1181, 0x8095, 0x11d2, {0xa1, 0xef, 0, 0x60, 8, 0x33, 0xdb, 0xd8}), 0x13A}, {G(0x178f2f28, 0xc364, 0x11d1, {0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12}), 65536}, {G(0x2a91f713, 0xa4bf, 0x11d2, {0xbb, 0xdf, 0, 0x60, 8, 0x33, 0xdb, 0xd8}), -1}}; } return v; }
inline uint32_t genCdl(Gen& g, Bytes& o, int depth) {     // emits code leaving one value; returns it. Only values whose truth is format-defined.
  int k = depth <= 0 ? g.draw(3) : g.draw(8);
  switch (k) {
    case 0: { uint32_t v = g.flip() ? g.draw(4) : g.draw(0); le16(o, 0x10); le32(o, v); return v; }
    case 1: { uint32_t v = g.flip() ? 1 : 0; le16(o, 0x10); le32(o, v); return v; }
    case 2: { auto& kg = g.pick(knownGuids()); bool unk = g.chance(1, 3); Bytes id = kg.first; if (unk) id[g.draw(16)] ^= 1 << g.draw(8); bool qs = g.flip() || unk;
      // unknown guid may by accident be another known one: only bit flips that stay unknown
      if (unk) for (auto& q : knownGuids()) if (q.first == id) unk = false;
      if (unk) { static const uint32_t other[] = {0x178f2f24, 0x178f2f25, 0x178f2f26, 0x178f2f27, 0x178f2f28, 0xb03e1181, 0xb03e1182, 0xf14599e5, 0x2a91f713}; uint32_t d1 = id[0] | id[1] << 8 | id[2] << 16 | (uint32_t)id[3] << 24; for (uint32_t x : other) if (x == d1) { id[0] = 0x77; } qs = true; }
      le16(o, qs ? 0x12 : 0x11); app(o, id); if (qs) return unk ? 0 : 1; return kg.second == -1 ? (uint32_t)RATE() : kg.second == 1 ? 0xffffffffu : (uint32_t)kg.second; }
    case 3: { uint32_t a = genCdl(g, o, depth - 1); le16(o, 0x0F); return !a; }
    default: { // binary: operands pushed y first then x  (x is the top of stack)
      int op = g.range(1, 14); uint32_t y = genCdl(g, o, depth - 1), x = genCdl(g, o, depth - 1); if (op == 7 && y == 0) op = 1; le16(o, op);
      switch (op) { case 1: return x & y; case 2: return x | y; case 3: return x ^ y; case 4: return x + y; case 5: return x - y; case 6: return x * y; case 7: return x / y; case 8: return x && y; case 9: return x || y; case 10: return x < y; case 11: return x <= y; case 12: return x > y; case 13: return x >= y; default: return x == y; } }
  }
}
// ---- arbitrary / hostile collections ----
inline int16_t hostileTc(Gen& g) { switch (g.draw(5)) { case 0: return (int16_t)-32768; case 1: return g.range(-12000, 8000); case 2: return g.edge(-32768, 32767); case 3: return 0; default: return g.range(-32768, 32767); } }
inline DArt genArt(Gen& g, bool hostile) {
  DArt a; a.v2 = g.flip(); static const int dst[] = {CD_REL, CD_AT, CD_DEC, CD_SUS, CD_DEL, CD_HOLD, CD_SHUT, CD2_AT, CD2_DEC, CD2_REL, CD2_SUS, CD2_DEL, CD2_HOLD, CD_FC, CD_Q, CD_LFOF, CD_LFOD, CD_VIBF, CD_VIBD, CD_PITCH, CD_PAN, CD_CHORUS, CD_REVERB};
  int n = 1 + g.draw(hostile ? 14 : 4);
  for (int i = 0; i < n; i++) { DConn c; int m = g.draw(hostile ? 5 : 1);
    if (m <= 1) c = conn(dst[g.draw(sizeof dst / sizeof *dst)], hostileTc(g));
    else if (m == 2) c = conn(g.pick({CD_PITCH, CD_GAIN, CD_FC}), hostileTc(g), g.pick({CS_LFO, CS_VIB, CS_EG2, CS_VEL, CS_KEY}), g.pick({(int)CS_NONE, (int)CS_CC1, (int)CS_CP}));
    else if (m == 3) c = conn(g.pick({CD_AT, CD_DEC, CD_HOLD, CD2_AT, CD2_DEC, CD2_HOLD}), hostileTc(g), g.pick({CS_VEL, CS_KEY}));
    else { c.src = g.draw(0x200); c.ctl = g.draw(0x200); c.dst = g.draw(0x600); c.scale = (int32_t)g.draw(0); }
    a.c.push_back(c); }
  return a; }
inline DWsmp genWsmp(Gen& g, size_t n, bool hostile) { DWsmp w; w.on = true; w.unity = hostile ? g.edge(0, 65535) : g.range(24, 96); w.fine = hostile ? g.edge(-32768, 32767) : g.range(-50, 50); w.gain = hostile ? (int32_t)g.draw(0) : -(int32_t)g.draw(200) * 65536; w.loop = g.flip();
  if (w.loop) { if (hostile && g.chance(1, 2)) { w.start = g.flip() ? g.draw(0) : g.edge(0, n + 2); w.len = g.flip() ? g.draw(0) : g.edge(0, n + 2); w.nloops = g.pick({1, 1, 2, 0x7fffffff}); } else { w.start = g.draw(n ? n : 1); w.len = n > w.start ? 1 + g.draw(n - w.start) : 0; } } return w; }
inline Dls genHostileDls(Gen& g, int& hostilityOut, int forceH = -1) {
  int H = forceH >= 0 ? forceH : g.weighted({4, 3, 2}); auto hz = [&](int n) { return H == 0 ? false : g.chance(1, H == 1 ? 6 * n : n); };
  Dls d; int nw = hz(20) ? g.draw(3) : 1 + g.draw(3);
  for (int i = 0; i < nw; i++) { DWave w; w.bits = hz(20) ? g.pick({0, 4, 24, 32}) : g.pick({8, 16}); w.rate = hz(4) ? g.pick({0u, 1u, 0xffffffffu, 0x7fffffffu, 11025u, 22050u}) : g.pick({8000u, 22050u, 44100u, 48000u}); if (hz(25)) w.tag = g.draw(4); if (hz(25)) w.chans = g.draw(3);
    int n = forceH == 0 ? 8 + g.draw(300) : hz(8) ? g.draw(4) : g.chance(1, 30) ? g.draw(3000) : g.draw(300); for (int k = 0; k < n; k++) w.s.push_back(k < 8 ? (int16_t)g.draw(65536) : (int16_t)(w.s[k & 7] * (k & 15))); if (w.bits == 8) for (auto& x : w.s) x &= 255; if (g.flip()) w.w = genWsmp(g, n, hz(2)); d.waves.push_back(w); }
  int ni = hz(20) ? 0 : 1 + g.draw(3);
  for (int i = 0; i < ni; i++) { DIns n; n.bank = hz(4) ? g.draw(0) : g.pick({0u, 0u, 0x7900u, 0x80000000u, 0x7800u, 1u}); n.prog = hz(8) ? g.draw(0) : g.draw(4); int nr = hz(10) ? 0 : 1 + g.draw(4);
    for (int k = 0; k < nr; k++) { DRgn r; if (g.chance(1, 3)) { r.keyLo = g.edge(0, 127); r.keyHi = H ? g.edge(0, 127) : g.range(r.keyLo, 127); } if (g.chance(1, 4)) { r.velLo = g.edge(0, 127); r.velHi = H ? g.edge(0, 127) : g.range(r.velLo, 127); } if (hz(8)) { r.keyLo = g.draw(65536); r.keyHi = g.draw(65536); } r.opts = g.draw(2); r.group = hz(3) ? g.edge(0, 65535) : g.draw(16);
      r.wave = hz(12) ? g.draw(0) : g.draw(nw + (hz(12) ? 1 : 0)); if (g.flip()) { size_t wn = r.wave < d.waves.size() ? d.waves[r.wave].s.size() : 10; r.w = genWsmp(g, wn, hz(2)); } if (g.chance(1, 2)) r.art = genArt(g, hz(2)); r.rgn2 = g.flip(); if (g.chance(1, 6)) { if (!hz(2)) genCdl(g, r.cdl, 3); else for (int q = g.draw(20); q > 0; q--) r.cdl.push_back(g.draw(q & 1 ? 19 : 2)); }
      if (r.art.present() && g.chance(1, 8)) genCdl(g, r.art.cdl, 2); n.r.push_back(r); }
    if (g.flip()) n.art = genArt(g, hz(2)); if (hz(6)) n.headerRegions = g.chance(1, 2) ? (int)(g.draw(0) & 0x7fffffff) : g.draw(5); d.ins.push_back(n); }
  bool any = false; for (auto& i : d.ins) { any |= i.art.present(); for (auto& r : i.r) any |= r.art.present(); } if (!any && !d.ins.empty() && !hz(10)) d.ins[0].art = basicArt();
  if (forceH == 0) { d.ins[0].r[0].cdl.clear(); if (!d.ins[0].art.present()) d.ins[0].art = basicArt(); d.ins[0].art.cdl.clear(); } else if (g.chance(1, 20)) genCdl(g, d.cdl, 2);
  hostilityOut = H; return d; }
inline Bytes genHostileDlsBytes(Gen& g, Ctx& c) {
  if (g.chance(1, 30)) { Bytes f; if (g.flip()) { putTag(f, "RIFF"); le32(f, g.draw(200)); putTag(f, "DLS "); } for (int n = g.draw(60); n > 0; n--) f.push_back(g.draw(256)); c.label("raw bytes"); return f; }
  int H; Dls d = genHostileDls(g, H); describe(c, d); bool lay = g.flip(); Bytes f = encDls(d, lay ? &g : nullptr);
  for (int m = H == 0 && !g.chance(1, 6) ? 0 : g.weighted({8, 3, 2, 1}); m > 0 && !f.empty(); m--) switch (g.draw(6)) {
    case 0: f[g.draw(f.size())] = g.draw(256); break; case 1: f.resize(g.draw(f.size() + 1)); break; case 2: f[g.draw(f.size())] ^= 1 << g.draw(8); break;
    case 3: { size_t p = g.draw(f.size()); f.insert(f.begin() + p, (uint8_t)g.draw(256)); break; } case 4: { size_t p = g.draw(f.size()); f.erase(f.begin() + p); break; }
    default: { size_t p = g.draw(f.size()) & ~1u; uint32_t v = g.pick({0u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0x100u, (uint32_t)f.size()}); for (int k = 0; k < 4 && p + k < f.size(); k++) f[p + k] = v >> (8 * k); } }
  return f; }
