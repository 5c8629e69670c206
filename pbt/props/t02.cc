#include "../songgen.h"
// T02: re-encodings that leave the timed channel events alone leave everything observable alone.
static Bytes encRandom(Gen& g, Ctx& c, const Song& s, int fl) {
  Bytes f; putTag(f, "MThd"); int extra = (fl & 1) ? 1 + g.draw(24) : 0; put32(f, 6 + extra); put16(f, s.format); put16(f, (int)s.tracks.size()); put16(f, s.division); for (int i = 0; i < extra; i++) f.push_back(g.draw(256));
  auto junk = [&]() { const char* tags[] = {"XFIH", "MTrX", "LIST", "mtrk", "Cues", "MThd"}; putTag(f, tags[g.draw(6)]); int n = g.draw(40); if (g.chance(1, 40)) { int big = g.pick({200, 300, 4096, 32768, 65535, 65536, 65537, 70000, 131072, 150000}) + (int)g.draw(9); put32(f, big); while (n > big) n--; for (int i = 0; i < n; i++) f.push_back(g.draw(256)); for (int i = n; i < big; i++) f.push_back("MTrk\0\0\0\4\0\xff\x2f"[i % 11]); c.label("large unknown chunk"); return; } put32(f, n); for (int i = 0; i < n; i++) f.push_back(g.chance(1, 3) ? "MTrk\0\0\0\4"[g.draw(8)] : g.draw(256)); c.label("unknown chunk"); };
  for (auto& t : s.tracks) {
    while ((fl & 2) && g.chance(1, 2)) junk();
    Bytes d; uint32_t at = 0; int run = -1; int added = 0;
    auto var = [&](uint32_t v) { putVar(d, v, (fl & 4) && g.chance(1, 4) ? g.draw(6) : 0); };
    auto insert = [&](uint32_t delta) {      // something without musical meaning
      var(delta); run = -1;
      if ((fl & 8) && g.flip()) { int k = g.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x54, 0x59, 0x7F, 0, 0x60}); d.push_back(0xFF); d.push_back(k); int n = g.chance(1, 30) ? g.pick({127, 128, 129, 1000, 16383, 16384, 20000}) : g.pick({0, 1, 3, 20, 130, 300}); var(n); for (int i = 0; i < n; i++) d.push_back(g.draw(256)); c.label("inserted meta"); }
      else {
        Bytes x; int n = g.draw(30); int kind = g.draw(5);
        if (kind == 0) { x = {0x41, 0x10, 0x42, 0x12}; } else if (kind == 1) { x = {0x7E, 0x7F, 9, 2}; n = 0; } else if (kind == 2) { x = {0x43}; } else if (kind == 3) { x = {0x7F, 0x7F, 4, 2}; n = std::max(n, 2); } else { x = {0x7D}; }
        for (int i = 0; i < n; i++) x.push_back(g.draw(128)); x.push_back(0xF7);
        if ((fl & 16) && x.size() > 3 && g.flip()) { size_t cut = 1 + g.draw(x.size() - 2); d.push_back(0xF0); var(cut); d.insert(d.end(), x.begin(), x.begin() + cut); d.push_back(0); d.push_back(0xF7); var(x.size() - cut); d.insert(d.end(), x.begin() + cut, x.end()); c.label("continued sysex"); }
        else { d.push_back(0xF0); var(x.size()); d.insert(d.end(), x.begin(), x.end()); c.label("inserted sysex"); } } };
    for (auto& e : t.ev) {
      uint32_t dl = e.tick - at;
      while ((fl & 32) && g.chance(1, 5)) { uint32_t part = 0; if (dl && added < 8 && g.flip()) { part = dl == 1 ? 1 : 1 + g.draw(dl); added++; } insert(part); dl -= part; }
      var(dl); at = e.tick; uint8_t st = e.b[0];
      if (st == 0xFF) { d.push_back(st); d.push_back(e.b[1]); var(e.b.size() - 2); d.insert(d.end(), e.b.begin() + 2, e.b.end()); run = -1; }
      else if (st == 0xF0) {
        size_t n = e.b.size() - 1;
        if ((fl & 16) && g.flip()) { size_t cut = 1 + g.draw(n - 1); d.push_back(0xF0); var(cut); d.insert(d.end(), e.b.begin() + 1, e.b.begin() + 1 + cut); d.push_back(0); d.push_back(0xF7); var(n - cut); d.insert(d.end(), e.b.begin() + 1 + cut, e.b.end()); c.label("continued sysex"); }
        else { d.push_back(st); var(n); d.insert(d.end(), e.b.begin() + 1, e.b.end()); } run = -1; }
      else { Bytes m = e.b;
        if (fl & 64) { if ((m[0] >> 4) == 8) { if (g.flip()) { m[0] = 0x90 | (m[0] & 15); m[2] = 0; c.label("note-off as velocity 0"); } } else if ((m[0] >> 4) == 9 && m[2] == 0 && g.flip()) { m[0] = 0x80 | (m[0] & 15); m[2] = g.draw(128); c.label("velocity 0 as note-off"); } }
        bool omit = run == m[0] && !g.chance(1, 3); if (!omit) d.push_back(m[0]); else c.label("running status"); run = m[0]; d.insert(d.end(), m.begin() + 1, m.end()); }
    }
    while ((fl & 32) && g.chance(1, 4)) insert(0);
    var(std::max(t.endTick, at) - at); d.push_back(0xFF); d.push_back(0x2F); var(0);
    if ((fl & 128) && g.flip()) { int n = 1 + g.draw(30); for (int i = 0; i < n; i++) d.push_back(g.pick({0, 0x90, 0x3C, 0x7F, 0xFF, 0x2F})); c.label("bytes behind end of track"); }
    putTag(f, "MTrk"); put32(f, d.size()); f.insert(f.end(), d.begin(), d.end());
  }
  if ((fl & 2) && g.flip()) junk();
  return f;
}
// the same events distributed over another number of tracks, keeping the order of simultaneous events
static Song retrack(Gen& g, Ctx& c, const Song& s) {
  std::vector<SEv> sch = schedule(s); Song r = s; int n = g.chance(1, 3) ? 1 : g.range(1, 8); r.format = n == 1 ? g.draw(2) : 1; r.tracks.assign(n, {}); uint32_t end = 0; for (auto& t : s.tracks) { end = std::max(end, t.endTick); if (!t.ev.empty()) end = std::max(end, t.ev.back().tick); }
  int cur = 0; uint32_t last = 0xffffffff; for (auto& e : sch) { if (e.tick != last) { cur = g.draw(n); last = e.tick; } else if (cur < n - 1 && g.chance(1, 3)) cur += 1 + g.draw(n - 1 - cur); r.tracks[cur].ev.push_back({e.tick, *e.b}); }
  for (auto& t : r.tracks) { uint32_t lo = t.ev.empty() ? 0 : t.ev.back().tick; t.endTick = lo + (end > lo && g.flip() ? g.draw(end - lo) : 0); } r.tracks[g.draw(n)].endTick = end;
  c.label(n == 1 ? "merged into one track" : "split over tracks"); return r;
}
struct Seen { Pcm pcm; std::vector<long> st, loc; long len = -1; long opened = 0; };
static void playAll(const Bytes& file, int search, long nb, bool meta, Seen& r) {
  MemFile mf(file); Eng e; if (search) { REQUIRE(EAS_SetHeaderSearchFlag(e.h, search) == EAS_SUCCESS, "EAS_SetHeaderSearchFlag"); }
  EAS_HANDLE s = nullptr; r.opened = EAS_OpenFile(e.h, &mf.loc, &s); if (r.opened != EAS_SUCCESS) return;
  EAS_RESULT p = EAS_Prepare(e.h, s); REQUIRE(p == EAS_SUCCESS, "EAS_Prepare: %ld", (long)p);
  if (meta) { EAS_I32 l = -1; EAS_RESULT m = EAS_ParseMetaData(e.h, s, &l); REQUIRE(m == EAS_SUCCESS, "EAS_ParseMetaData: %ld", (long)m); r.len = l; }
  EAS_I32 t = -1; EAS_RESULT g = EAS_GetFileType(e.h, s, &t); REQUIRE(g == EAS_SUCCESS, "EAS_GetFileType: %ld", (long)g);
  for (long i = 0; i < nb; i++) { e.render(r.pcm, 1); r.st.push_back(e.state(s)); r.loc.push_back(e.loc(s)); }
  e.closeFile(s);
}
static void t02(Gen& g, Ctx& c) {
  SongOpts o; o.music.chans = genChans(g); o.maxMs = 1200; o.manyTracks = g.chance(1, 6); GenSong gs = genSong(g, o);
  describe(c, gs.song);
  int fl = g.chance(1, 4) ? 1 << g.draw(8) : g.draw(256); if (fl & 32) fl |= g.flip() ? 8 : 0; Song s2 = gs.song; bool ret = g.flip(); if (ret) s2 = retrack(g, c, s2);
  Bytes f1 = encSong(gs.song), f2 = encRandom(g, c, s2, fl); int search = g.chance(1, 3); size_t pre = 0;
  if (search) { pre = g.chance(1, 8) ? g.range(1000, 70000) : g.draw(300); Bytes p; for (size_t i = 0; i < pre; i++) p.push_back(g.chance(1, 6) ? "MThd"[g.draw(4)] : (uint8_t)(i * 37 + (i >> 5)));
    for (size_t i = 0; i + 3 < p.size(); i++) if (p[i] == 'M' && p[i + 1] == 'T' && p[i + 2] == 'h' && p[i + 3] == 'd') p[i] = 'm';
    f2.insert(f2.begin(), p.begin(), p.end());
    for (size_t i = 0; i < pre; i++) if (i + 3 < f2.size() && !memcmp(&f2[i], "MThd", 4)) f2[i] = 'm'; c.label("leading bytes"); }
  c.say("encoding flags %#x, %zu -> %zu tracks, %zu leading bytes, sizes %zu / %zu\n", fl, gs.song.tracks.size(), s2.tracks.size(), pre, f1.size(), f2.size());
  bool meta = g.flip(); long nb = (long)((gs.endMs + 400) / BLKMS()) + 4; if (nb > 500) nb = 500; if (!gs.endRobust) nb = std::min(nb, (long)(gs.endMs / BLKMS()) - 2);
  Seen a, b; playAll(f1, 0, nb, meta, a); playAll(f2, search, nb, meta, b);
  REQUIRE(a.opened == EAS_SUCCESS, "song refused: %ld", a.opened); REQUIRE(b.opened == EAS_SUCCESS, "re-encoded song refused: %ld", b.opened);
  requireSame(a.pcm, b.pcm, "original vs re-encoded song");
  REQUIRE(std::labs(a.len - b.len) <= 1, "length %ld ms, re-encoded %ld ms", a.len, b.len);
  for (long i = 0; i < nb; i++) { REQUIRE(a.loc[i] == b.loc[i], "location after block %ld: %ld, re-encoded %ld", i, a.loc[i], b.loc[i]); }
  long ea = 0, eb = 0; while (ea < nb && a.st[ea] != EAS_STATE_STOPPED) ea++; while (eb < nb && b.st[eb] != EAS_STATE_STOPPED) eb++; REQUIRE(ea == eb, "stopped after block %ld, re-encoded %ld", ea, eb);
  c.nontrivial = gs.notes >= 2 && !allZero(a.pcm) && (fl || ret || pre); }
static Reg r("T02", t02, "random songs and a re-encoding: running status, padded lengths, inserted text/unknown meta and system-exclusive events, continued sysex, unknown chunks, long header, bytes behind the end of a track, note-off spelling, events redistributed over other tracks, leading bytes with header search; non-trivial: at least two notes, audible, encoding changed", 60000, 2000000, 20, 15);
