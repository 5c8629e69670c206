#include "../dc.h"
// L02: key/velocity ranges, instruments and key groups of a collection: the set of sounding waves is read off the level.
static const std::vector<float>& velLaw() { static std::vector<float> v; if (v.empty()) { Dls d; d.waves.push_back(dcWave(20000)); DIns n; n.art = basicArt(); DRgn r; r.opts = 1; n.r.push_back(r); d.ins.push_back(n); Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); for (int i = 0; i < 128; i++) { if (i) e.write(s, mNoteOn(0, 60, i)); Pcm p = e.render(2); v.push_back(levelOf(p, 1).l / 20000.0f); e.write(s, mCC(0, 120, 0)); e.skip(5); } } return v; }
struct On { int ch, key, vel, group, wave, ins; bool excl; bool cut = false; };
static void l02(Gen& g, Ctx& c) {
  const auto& K = velLaw(); Dls d; int ni = 1 + g.draw(6), total = 0; std::map<int, int> table; int ngroups = g.pick({0, 0, 1, 2, 15}); bool many = g.chance(1, 6);
  for (int i = 0; i < ni; i++) { bool drum = g.chance(1, 3); int bank = g.flip() ? 0 : drum ? 0x7800 : 0x7900; int prog = g.draw(6); int key = (drum ? 0x1000 : 0) | prog; if (table.count(key)) continue; table[key] = d.ins.size(); DIns q; q.bank = bank | (drum ? 0x80000000u : 0); q.prog = prog; if (g.flip()) q.art = basicArt(); int nr = many ? 1 + g.draw(40) : 1 + g.draw(7); bool excl = g.chance(1, 3);
    for (int k = 0; k < nr; k++) { DRgn r; r.rgn2 = g.flip(); int a = g.edge(0, 127), b = g.edge(0, 127); switch (g.draw(4)) { case 0: r.keyLo = std::min(a, b); r.keyHi = std::max(a, b); break; case 1: r.keyLo = r.keyHi = a; break; case 2: r.keyLo = k * 128 / nr; r.keyHi = (k + 1) * 128 / nr - 1; break; default: r.keyLo = std::max(0, std::min(127, 60 + (int)g.draw(12) - 6)); r.keyHi = std::min(127, r.keyLo + (int)g.draw(10)); } a = g.edge(0, 127); b = g.edge(0, 127); if (g.chance(1, 2)) { r.velLo = std::min(a, b); r.velHi = std::max(a, b); } r.opts = excl ? 0 : 1; if (ngroups && g.flip()) r.group = 1 + g.draw(ngroups); r.wave = d.waves.size(); if (!q.art.present() || g.chance(1, 8)) r.art = basicArt(); int v = 800 + g.draw(3600); if (g.flip()) v = -v; d.waves.push_back(dcWave(v, 4 + g.draw(20))); q.r.push_back(r); total++; }
    d.ins.push_back(q); }
  describe(c, d); Eng e; MemFile f(encDls(d, &g)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "well-formed collection refused"); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); e.skip(1);
  std::vector<int> chs = genChans(g, 3); chs.push_back(9); std::map<int, int> cur; for (int ch : chs) cur[ch] = -1; std::vector<On> on; auto allOff = [&](int ch) { e.write(s, mCC(ch, 120, 0)); on.erase(std::remove_if(on.begin(), on.end(), [&](const On& o) { return o.ch == ch; }), on.end()); e.skip(5); };
  int steps = 2 + g.draw(30), hits = 0, misses = 0, cuts = 0, layered = 0; std::string log;
  for (int i = 0; i < steps; i++) {
    int ch = g.pick(chs); int want = -1; std::vector<int> mine; for (auto& t : table) if ((t.first >> 12) == (ch == 9)) mine.push_back(t.second); if (mine.empty()) continue;
    if (cur[ch] < 0 || g.chance(1, 3)) { want = g.pick(mine); allOff(ch); if (g.flip()) e.write(s, cat({mCC(ch, 0, ch == 9 ? 0x78 : 0x79), mCC(ch, 32, 0)})); e.write(s, mProg(ch, d.ins[want].prog)); cur[ch] = want; log += fmt(" ch%d:ins%d", ch, want); }
    auto& q = d.ins[cur[ch]]; int key, vel; if (g.chance(3, 4)) { auto& r = g.pick(q.r); key = g.chance(1, 2) ? g.range(r.keyLo, r.keyHi) : std::max(0, std::min(127, g.pick({r.keyLo, r.keyHi, r.keyLo - 1, r.keyHi + 1}))); vel = g.chance(1, 2) ? g.range(r.velLo, r.velHi) : std::max(0, std::min(127, g.pick({r.velLo, r.velHi, r.velLo - 1, r.velHi + 1}))); } else { key = g.draw(128); vel = g.draw(128); } if (vel == 0) vel = 1;
    // regions the note must use
    std::vector<On> add; std::set<int> groups; bool bad = false; for (auto& r : q.r) if (key >= r.keyLo && key <= r.keyHi && vel >= r.velLo && vel <= r.velHi) { add.push_back({ch, key, vel, r.group, (int)r.wave, cur[ch], r.opts == 0}); if (r.group && !groups.insert(r.group).second) bad = true; } if (!add.empty() && add[0].excl && add.size() > 2) bad = true; for (auto& o : on) if (o.ch == ch && o.key == key) bad = true; if (bad || add.size() > 12) continue;
    double sum = 0; for (auto& o : on) sum += std::fabs(d.waves[o.wave].s[0] * K[o.vel]); for (auto& o : add) sum += std::fabs(d.waves[o.wave].s[0] * K[o.vel]); if (sum > 30000 || on.size() + add.size() > 40) { allOff(ch); i--; if (g.chance(1, 50)) break; continue; }
    bool same = g.chance(1, 6) && groups.empty();   // sometimes send the off of an older note in the same block
    e.write(s, mNoteOn(ch, key, vel)); log += fmt(" %d:%d/%d", ch, key, vel); if (same && !on.empty()) { On o = g.pick(on); e.write(s, mNoteOff(o.ch, o.key)); log += fmt(" off%d:%d", o.ch, o.key); on.erase(std::remove_if(on.begin(), on.end(), [&](const On& x) { return x.ch == o.ch && x.key == o.key; }), on.end()); }
    if (!groups.empty()) { auto n0 = on.size(); on.erase(std::remove_if(on.begin(), on.end(), [&](const On& x) { return x.ch == ch && x.group && groups.count(x.group); }), on.end()); cuts += n0 - on.size(); }
    for (auto& o : add) on.push_back(o); if (add.empty()) misses++; else hits++; if (add.size() > 1) layered++; e.skip(5); Pcm p = e.render(1); double x = 0; for (auto& o : on) x += d.waves[o.wave].s[0] * K[o.vel]; double l = levelOf(p, 0).l;
    if (!steady(p, 0) || std::fabs(l - x) > 12 + 8 * on.size() + std::fabs(x) * 0.003) { c.say("notes:%s\n", log.c_str()); std::string ws; for (auto& o : on) ws += fmt(" wave %d (%d x %.3f)", o.wave, d.waves[o.wave].s[0], K[o.vel]); fail(fmt("after note %d velocity %d on channel %d (instrument %d): level %.0f%s, expected %.0f =%s", key, vel, ch, cur[ch], l, steady(p, 0) ? "" : " (not constant)", x, ws.c_str())); }
    if (!on.empty() && g.chance(1, 4)) { On o = g.pick(on); e.write(s, mNoteOff(o.ch, o.key)); log += fmt(" off%d:%d", o.ch, o.key); on.erase(std::remove_if(on.begin(), on.end(), [&](const On& x) { return x.ch == o.ch && x.key == o.key; }), on.end()); e.skip(4); } }
  c.say("notes:%s\n", log.c_str()); c.nontrivial = hits && (misses || layered || cuts || total > 1); c.label("hits", hits); c.label("outside all regions", misses); c.label("layered", layered); c.label("cut by group", cuts); }
static Reg r("L02", l02, "random collections (melodic and drum instruments, overlapping key/velocity ranges, key groups, random layout; one distinct constant wave per region), random notes at and around range edges; the level after every note vs. the sum of the waves a selection model prescribes; non-trivial: a region was hit and another note missed, layered, cut or chosen among several", 200000, 8000000, 20);
