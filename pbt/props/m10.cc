#include "../dc.h"
// M10: scalable polyphony (SP-MIDI): maximum instantaneous polyphony messages.
struct Mip { std::vector<std::pair<int, int>> e; };   // (channel, cumulative polyphony) in priority order
static Bytes mipBytes(const Mip& m) { Bytes b{0xf0, 0x7f, 0x7f, 0x0b, 0x01}; for (auto& x : m.e) { b.push_back(x.first); b.push_back(x.second); } b.push_back(0xf7); return b; }
static std::string show(const Mip& m) { std::string s; for (auto& x : m.e) s += fmt(" ch%d:%d", x.first, x.second); return s; }
enum Kind { NOTEON, NOTEOFF, CTRL, TABLE, DROP, IGNORED, RESET, LIMIT, ENGINE };
struct Op { int blk, kind; Bytes b; int ch = 0, key = 0, n = 0; Mip m; };
static void muting(Gen& g, Ctx& c) {
  std::vector<int> ch; int nc = g.range(2, 5); for (int i = 0; i < nc; i++) { int x = g.chance(1, 6) ? 9 : (int)g.draw(16); if (std::find(ch.begin(), ch.end(), x) == ch.end()) ch.push_back(x); }
  std::vector<Op> ops; int blk = 0, n = 3 + g.size(40), notes = 0, other = 0; std::vector<std::pair<int, int>> held; std::map<std::pair<int, int>, int> last; bool two = g.chance(1, 3), file = g.flip(); Hist oth;
  for (int i = 0; i < n; i++) { blk += g.chance(1, 3) ? g.range(1, 12) : g.draw(3); Op o; int x = g.pick(ch); o.ch = x;
    switch (g.weighted({10, 4, 4, 4, 2, 1, 1, file ? 2 : 0, 2})) {
      case 0: if (notes >= 12) continue; o.kind = NOTEON; o.key = g.range(24, 100); { auto& l = last[{x, o.key}]; if (l > 0 && blk + 100 - l < 12) continue; if (l < 0) continue; l = l ? -1 : blk + 100; } o.b = mNoteOn(x, o.key, g.range(50, 127)); held.push_back({x, o.key}); notes++; break;
      case 1: { if (held.empty()) continue; int j = g.draw(held.size()); o.kind = NOTEOFF; o.ch = held[j].first; o.key = held[j].second; held.erase(held.begin() + j); o.b = mNoteOff(o.ch, o.key); break; }
      case 2: o.kind = CTRL; o.b = g.flip() ? mCC(x, g.pick({1, 7, 10, 11, 91}), g.draw(128)) : g.flip() ? mProg(x, g.draw(128)) : mBend(x, g.draw(16384)); break;
      case 3: { o.kind = TABLE; int k = g.chance(1, 8) ? 0 : g.chance(1, 10) ? 16 : g.range(1, 6), v = 0; for (int j = 0; j < k; j++) { v += g.chance(1, 3) ? 0 : g.range(1, g.chance(1, 4) ? 24 : 6); o.m.e.push_back({g.chance(3, 4) ? g.pick(ch) : (int)g.draw(16), std::min(127, v)}); } if (k && g.chance(1, 12)) o.m.e[0].second = 0; o.b = mipBytes(o.m); if (g.chance(1, 6)) o.b.insert(o.b.begin() + 1 + g.draw(o.b.size() - 1), g.pick({0xf8, 0xfe, 0xfa})); if (k == 16 && g.chance(1, 3)) { Bytes extra; for (int j = g.range(1, 6); j > 0; j--) extra.push_back(g.draw(128)); o.b.insert(o.b.end() - 1, extra.begin(), extra.end()); } break; }
      case 4: { o.kind = DROP; Mip m; int k = g.draw(5), v = 0; for (int j = 0; j < k; j++) m.e.push_back({g.pick(ch), v += g.range(1, 5)}); Bytes b = mipBytes(m); b.pop_back(); switch (g.draw(file ? 2 : 3)) { case 0: b.push_back(g.range(16, 127)); for (int j = g.draw(4); j > 0; j--) b.push_back(g.draw(128)); b.push_back(0xf7); break; case 1: b.push_back(g.pick(ch)); b.push_back(0xf7); break; default: if (g.flip()) b.push_back(g.pick(ch)); app(b, mCC(x, 11, 100)); } o.b = b; break; }   // a channel out of range, or no end: no table
      case 5: { o.kind = IGNORED; o.b = mipBytes(Mip{{{x, 3}}}); switch (g.draw(3)) { case 0: o.b[1] = 0x7e; break; case 1: o.b[2] = g.draw(127); break; default: o.b[4] = 2 + g.draw(126); } break; }
      case 6: o.kind = RESET; o.b = sysGmOn(); held.clear(); if (g.flip()) o.b[4] = 3; break;
      case 7: o.kind = LIMIT; o.n = g.pick({0, 64, 65, 100, 12, 16, 20, 24, 12}); break;
      default: o.kind = ENGINE; o.n = g.pick({64, 16, 18, 24, 32, 100}); }
    if (o.kind == TABLE || o.kind == DROP || o.kind == RESET) blk += 2; if (o.kind >= LIMIT) blk++;   // notes started before have begun to sound
    o.blk = blk; ops.push_back(o); if (o.kind == RESET) blk += 2; if (o.kind >= LIMIT) blk++;
    if (two && other < 4 && g.chance(1, 4)) { oth.ev.push_back({blk, mNoteOn(g.pick(ch), 30 + 10 * other, 90)}); other++; } }
  int blocks = blk + 10 + g.draw(60); oth.blocks = blocks; bool dls = g.chance(1, 4); std::unique_ptr<DcKit> kit; if (dls) kit.reset(new DcKit(g, 4, 3, 2400, 12, false));
  if (c.verbose) { for (auto& o : ops) c.say("@%d %s %s%s%s\n", o.blk, o.kind == TABLE ? "table" : o.kind == DROP ? "bad table" : o.kind == IGNORED ? "ignored" : o.kind == LIMIT ? "stream limit" : o.kind == ENGINE ? "engine limit" : "message", hexs(o.b, 40).c_str(), o.kind == TABLE ? show(o.m).c_str() : "", o.kind >= LIMIT ? fmt("%d", o.n).c_str() : ""); if (two) describe(c, oth, "other stream"); }
  // the same history with the scalable polyphony applied by hand
  std::vector<Op> ref; bool on = false; Mip t; int lim = 64, eng = 64, silenced = 0, kept = 0, cut = 0; std::vector<std::pair<int, int>> sounding; bool muted[16] = {};
  auto apply = [&](int at) { for (int x = 0; x < 16; x++) { int mip = 0; for (auto& y : t.e) if (y.first == x) mip = y.second; bool m = on && (mip == 0 || mip > std::min(lim, eng)); muted[x] = m; if (!m) continue; for (size_t j = 0; j < sounding.size();) if (sounding[j].first == x) { Op o; o.blk = at; o.kind = NOTEOFF; o.b = mNoteOff(x, sounding[j].second); ref.push_back(o); sounding.erase(sounding.begin() + j); cut++; } else j++; } };
  for (auto& o : ops) switch (o.kind) {
      case NOTEON: if (muted[o.ch]) { silenced++; break; } if (on) kept++; sounding.push_back({o.ch, o.key}); ref.push_back(o); break;
      case NOTEOFF: { auto it = std::find(sounding.begin(), sounding.end(), std::make_pair(o.ch, o.key)); if (it != sounding.end()) sounding.erase(it); ref.push_back(o); break; }
      case TABLE: on = true; t = o.m; apply(o.blk); break;
      case DROP: { on = false; apply(o.blk); Op q = o; size_t i = 1; while (i < q.b.size() && q.b[i] < 0x80) i++; q.b.erase(q.b.begin(), q.b.begin() + i); if (q.b.size() == 1) q.b.clear(); q.kind = CTRL; ref.push_back(q); break; }
      case IGNORED: break;
      case RESET: on = false; apply(o.blk); sounding.clear(); ref.push_back(o); break;
      case LIMIT: lim = o.n == 0 || o.n > 64 ? 64 : o.n; ref.push_back(o); apply(o.blk); break;
      case ENGINE: eng = std::min(64, o.n); ref.push_back(o); apply(o.blk); break;
      default: ref.push_back(o); }
  auto run = [&](const std::vector<Op>& v) { Eng e; if (kit) kit->load(e); EAS_HANDLE s = nullptr, s2 = nullptr; std::unique_ptr<MemFile> mf; if (file) { Hist h; for (auto& o : v) if (o.kind < LIMIT && !o.b.empty()) h.ev.push_back({o.blk, o.b}); mf.reset(new MemFile(encSong(histSong(h, blocks + 20)))); s = e.play(*mf); } else s = e.live(); if (two) s2 = e.live(); Pcm p; size_t i = 0, j = 0;
    for (int b = 0; b < blocks; b++) { for (; i < v.size() && v[i].blk <= b; i++) { auto& o = v[i]; if (o.kind == LIMIT) REQUIRE(EAS_SetPolyphony(e.h, s, o.n) == EAS_SUCCESS, "stream polyphony %d refused", o.n); else if (o.kind == ENGINE) REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, o.n) == EAS_SUCCESS, "engine polyphony %d refused", o.n); else if (!file) e.write(s, o.b); } for (; two && j < oth.ev.size() && oth.ev[j].blk <= b; j++) e.write(s2, oth.ev[j].b); e.render(p, 1); } return p; };
  Pcm a = run(ops), b = run(ref); c.nontrivial = (silenced || cut) && (kept || peak(b) > 50); c.label("muting"); if (cut) c.label("table cuts sounding notes"); if (dls) c.label("with collection"); if (two) c.label("two streams"); c.label(file ? "song" : "live"); requireSame(b, a, "the table applied by hand vs by the engine"); }
static Bytes dcDls(std::vector<int> vals) { Dls d; int i = 0; for (int v : vals) { d.waves.push_back(dcWave(v)); DIns n; n.prog = i; n.art = basicArt(); DRgn r; r.wave = i; r.opts = 1; n.r.push_back(r); d.ins.push_back(n); i++; } return encDls(d); }
// voices run short: channels within their share keep theirs
static void shares(Gen& g, Ctx& c) {
  int nc = g.range(2, 4); std::vector<int> ch; while ((int)ch.size() < nc) { int x = g.draw(16); while (x == 9 || std::find(ch.begin(), ch.end(), x) != ch.end()) x = (x + 1) % 16; ch.push_back(x); }
  Bytes dls = dcDls({110, 1430}); double leak = 0; auto unit = [&](int prog) { Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mProg(0, prog), mCC(0, 10, 0)})); for (int i = 0; i < 12; i++) e.write(s, mNoteOn(0, i, 127)); Pcm p = e.render(4); LR x = levelOf(p, 3); leak = x.r / x.l; return (x.l - leak * x.r) / (1 - leak * leak) / 12; };
  double u[2] = {unit(0), unit(1)}; REQUIRE(u[0] > 20 && u[1] > 12.5 * u[0], "calibration"); Mip m; std::vector<int> pool, alloc; int v = 0; for (int i = 0; i < nc; i++) { int a = i && g.chance(1, 4) ? 0 : g.range(1, 4); v += a; if (a) { alloc.push_back(a); } pool.push_back(alloc.size() - 1); m.e.push_back({ch[i], v}); } int N = std::min(12, v + (g.chance(1, 3) ? (int)g.draw(4) : 0)); if (v > N) throw Discard();
  Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); Bytes b = sysMasterVol(16383); for (int i = 0; i < nc; i++) { app(b, mProg(ch[i], i & 1)); app(b, mCC(ch[i], 10, i < 2 ? 0 : 127)); } bool late = g.flip(); if (!late) app(b, mipBytes(m)); e.write(s, b); REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit");
  if (late) { if (g.flip()) e.write(s, mipBytes(Mip{{{ch[nc - 1], 1}, {ch[0], 2}}})); e.skip(g.draw(3)); e.write(s, mipBytes(m)); }
  c.say("limit %d table%s\n", N, show(m).c_str()); std::vector<int> cnt(nc, 0); std::vector<std::vector<int>> keys(nc); int steps = 4 + g.draw(30), key = 0, steals = 0;
  for (int st = 0; st < steps; st++) { int i = g.draw(nc); std::vector<int> cand; bool steal = false; std::vector<int> before = cnt;
    if (!keys[i].empty() && g.chance(1, 6)) { e.write(s, mCC(ch[i], 120, 0)); keys[i].clear(); cnt[i] = 0; before = cnt; c.say(" off(ch%d)", ch[i]); }
    else { int total = 0; for (int x : cnt) total += x; std::vector<int> pc(alloc.size(), 0); for (int k = 0; k < nc; k++) pc[pool[k]] += cnt[k]; if (total >= N) { steal = true; steals++; int best = -1; for (int k = 0; k < nc; k++) if (cnt[k]) { int ex = std::max(0, pc[pool[k]] - alloc[pool[k]] + 1); if (ex > best) { best = ex; cand.clear(); } if (ex == best) cand.push_back(k); } } e.write(s, mNoteOn(ch[i], key % 128, 127)); key++; keys[i].push_back(key); cnt[i]++; c.say(" on(ch%d)", ch[i]); }
    Pcm p = e.render(8); REQUIRE(steady(p, 7), "output of constant waves not constant"); LR l = levelOf(p, 7); std::vector<int> got(nc, 0);
    for (int side = 0; side < 2; side++) { double w = ((side ? l.r : l.l) - leak * (side ? l.l : l.r)) / (1 - leak * leak); int q1 = (int)std::floor((w + 0.5 * u[0]) / u[1]); int q0 = (int)std::lround((w - q1 * u[1]) / u[0]); REQUIRE(std::fabs(w - q1 * u[1] - q0 * u[0]) < 0.4 * u[0] && q0 >= 0 && q1 >= 0, "level %.0f is no number of notes (units %.1f %.1f)", w, u[0], u[1]); int k = side * 2; if (k < nc) got[k] = q0; else REQUIRE(!q0, "sound on the wrong side"); if (k + 1 < nc) got[k + 1] = q1; else REQUIRE(!q1, "sound on the wrong side"); }
    std::string gs, bs; for (int x : got) gs += fmt(" %d", x); for (int x : before) bs += fmt(" %d", x); bool ok = false; if (!steal) ok = got == cnt; else for (int k : cand) { auto w = cnt; w[k]--; if (w == got) ok = true; }
    if (!ok) { std::string cs; for (int k : cand) cs += fmt(" ch%d", ch[k]); fail(fmt("step %d: notes per channel%s, before%s and one more on ch%d; %s%s", st, gs.c_str(), bs.c_str(), ch[i], steal ? "one note had to go, of" : "none had to go", cs.c_str())); } cnt = got; }
  c.say("\n"); c.nontrivial = steals > 1; c.label("shares"); if (alloc.size() < pool.size()) c.label("shared pool"); }
static void m10(Gen& g, Ctx& c) { if (g.weighted({3, 2}) == 0) muting(g, c); else shares(g, c); }
static Reg r("M10", m10, "live histories with maximum-polyphony messages (valid, empty, malformed, aborted, to ignore), resets and polyphony changes vs the same history with the notes of the muted channels left out by hand (bit exact, half with a second stream); constant waves: per-channel voice counts when voices run short vs the channels' shares; non-trivial: notes are silenced while others sound, or voices are taken twice", 100000, 3000000, 20);
