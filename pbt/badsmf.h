// Arbitrary / malformed song files.
#pragma once
#include "music.h"
inline uint32_t weird32(Gen& g) { switch (g.draw(6)) { case 0: return g.draw(64); case 1: return 0xFFFFFFFFu - g.draw(64); case 2: return 0x7FFFFFFFu + g.draw(4); case 3: return g.draw(1 << 16); case 4: return 1u << g.draw(32); default: return g.draw(0); } }
inline void putBadVar(Gen& g, Bytes& o) { switch (g.draw(5)) { case 0: putVar(o, g.draw(4)); break; case 1: putVar(o, g.draw(300)); break; case 2: putVar(o, weird32(g), g.draw(3)); break; case 3: for (int n = g.draw(12); n > 0; n--) o.push_back(0x80 | g.draw(128)); o.push_back(g.draw(128)); break; default: putVar(o, 0); } }
inline void badEvent(Gen& g, Bytes& o, MusicGen& mg) {
  switch (g.weighted({8, 2, 2, 2, 2, 1, 1})) {
    case 0: app(o, mg.next(g)); break;
    case 1: { Bytes b = mg.next(g); o.insert(o.end(), b.begin() + 1, b.end()); break; }                       // running status
    case 2: { o.push_back(0xFF); o.push_back(g.pick({0x51, 0x2F, 0x01, 0x02, 0x03, 0x05, 0x58, 0x00, 0x7F, 0x54, 0x21})); int l = g.draw(12); if (g.chance(1, 4)) putBadVar(g, o); else putVar(o, l); for (int i = 0; i < l; i++) o.push_back(g.draw(256)); break; }
    case 3: { o.push_back(g.flip() ? 0xF0 : 0xF7); Bytes p; switch (g.draw(5)) { case 0: p = Bytes(sysGmOn().begin() + 1, sysGmOn().end()); break; case 1: { Bytes m = sysMasterVol(g.draw(16384)); p = Bytes(m.begin() + 1, m.end()); break; }
        case 2: { p = {0x7F, 0x7F, 0x0B, 0x01}; for (int i = g.draw(40); i > 0; i--) p.push_back(g.draw(g.flip() ? 16 : 128)); p.push_back(0xF7); break; } case 3: { p = {0x00, 0x01, 0x3A, 0x04, 0x01}; for (int i = g.draw(8); i > 0; i--) p.push_back(g.draw(128)); p.push_back(0xF7); break; } default: for (int i = g.draw(10); i > 0; i--) p.push_back(g.draw(256)); }
      if (g.chance(1, 5)) putBadVar(g, o); else putVar(o, p.size()); app(o, p); break; }
    case 4: for (int n = g.draw(6); n >= 0; n--) o.push_back(g.draw(256)); break;
    case 5: o.push_back(0xF0 | g.draw(16)); break;
    default: break; }
}
inline Bytes genBadSong(Gen& g, Ctx& c) {
  Bytes f; MusicOpts mo; mo.chans = genChans(g); mo.maxHeld = 80; MusicGen mg(mo);
  int kind = g.weighted({6, 3, 1});
  if (kind == 2) { if (g.flip()) putTag(f, "MThd"); int n = g.draw(80); for (int i = 0; i < n; i++) f.push_back(g.draw(256)); c.label("raw bytes"); }
  else {
    bool weird = kind == 1; if (g.chance(1, 10)) for (int i = g.draw(9); i > 0; i--) f.push_back("MThdR"[g.draw(6)]);
    putTag(f, "MThd"); put32(f, weird && g.chance(1, 3) ? weird32(g) : 6); put16(f, weird ? g.draw(65536) : g.draw(3)); int nt = weird && g.chance(1, 3) ? g.edge(0, 65535) : g.range(0, 6); put16(f, nt); put16(f, g.chance(1, 3) ? g.edge(0, 65535) : g.pick({96, 480, 24, 1, 0x7fff, 0xE728}));
    int real = std::max(0, std::min(nt, 7) + (g.chance(1, 4) ? g.range(-1, 1) : 0));
    for (int t = 0; t < real; t++) {
      Bytes d; int ne = g.size(30); for (int i = 0; i < ne; i++) { if (g.chance(1, 8)) putBadVar(g, d); else putVar(d, g.chance(1, 2) ? 0 : g.draw(200)); badEvent(g, d, mg); }
      if (!g.chance(1, 5)) { putBadVar(g, d); d.push_back(0xFF); d.push_back(0x2F); d.push_back(0); }
      if (g.chance(1, 12)) { putTag(f, "XFIH"); int l = g.draw(9); put32(f, g.chance(1, 4) ? weird32(g) : l); for (int i = 0; i < l; i++) f.push_back(g.draw(256)); }
      putTag(f, weird && g.chance(1, 8) ? "MTrj" : "MTrk"); put32(f, weird && g.chance(1, 4) ? weird32(g) : (uint32_t)d.size()); app(f, d);
    }
    c.label(weird ? "malformed structure" : "mostly valid structure");
  }
  for (int m = g.weighted({6, 2, 1, 1}); m > 0 && !f.empty(); m--) switch (g.draw(5)) {
      case 0: f[g.draw(f.size())] = g.draw(256); break; case 1: f.resize(g.draw(f.size() + 1)); break; case 2: f[g.draw(f.size())] ^= 1 << g.draw(8); break;
      case 3: { size_t p = g.draw(f.size()); f.insert(f.begin() + p, (uint8_t)g.draw(256)); break; } default: { size_t p = g.draw(f.size()); f.erase(f.begin() + p); } }
  return f;
}
