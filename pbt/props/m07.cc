#include "../dc.h"
// M07: polyphony limits and voice stealing.
static double unitOf(const Bytes& dls, int prog, int n) { Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, cat({mProg(0, prog), sysMasterVol(16383)})); for (int i = 0; i < n; i++) e.write(s, mNoteOn(0, i, 127)); Pcm p = e.render(4); LR x = levelOf(p, 3); REQUIRE(steady(p, 3) && std::fabs(x.l) > 30 * n, "calibration"); return x.l / n; }
static Bytes dcDls(std::vector<int> vals) { Dls d; int i = 0; for (int v : vals) { d.waves.push_back(dcWave(v)); DIns n; n.prog = i; n.art = basicArt(); DRgn r; r.wave = i; r.opts = 1; n.r.push_back(r); d.ins.push_back(n); i++; } return encDls(d); }
static int countOf(const Pcm& p, int blk, double unit) { REQUIRE(steady(p, blk), "output of constant waves not constant in block %d", blk); double q = levelOf(p, blk).l / unit; int n = (int)std::lround(q); REQUIRE(std::fabs(q - n) < 0.3, "block %d: level is %.2f notes", blk, q); return n; }
// many notes before: the engine's 16-bit note ages are about to wrap around
static void preroll(Gen& g, Ctx& c, Eng& e, EAS_HANDLE s) { if (g.draw(250) != 249) return; c.costly = true; int n = g.chance(3, 4) ? 65536 - 10 + (int)g.draw(12) : 65536 - 90 + (int)g.draw(100); c.say("%d notes played before\n", n); c.label("after 65536 notes"); Bytes b; for (int i = 0; i < n; i++) { app(b, mNoteOn(15, i % 128, 1)); if (b.size() > 3000) { e.write(s, b); b.clear(); } } app(b, mCC(15, 120, 0)); e.write(s, b); Pcm p; e.render(p, 12); REQUIRE(allZero(p, 11 * 2 * BLK()), "sound after all-sound-off"); }
// one stream, equal notes, engine limit: exact count
static void counts(Gen& g, Ctx& c) {
  Bytes dls = dcDls({300}); double u = unitOf(dls, 0, 64); Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); preroll(g, c, e, s); int N = 64; std::set<std::pair<int, int>> held; int sounding = 0, over = 0; int steps = 2 + g.draw(12); std::set<std::pair<int, int>> lost;   // lost: held keys whose note may have been taken
  bool known = true; c.say("counts:");
  for (int i = 0; i < steps; i++) {
    switch (g.weighted({3, 6, 2, 2})) {
      case 0: { N = g.chance(1, 3) ? g.range(20, 64) : g.range(1, 16); c.say(" limit %d", N); REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit %d refused", N); EAS_I32 q = -1; REQUIRE(EAS_GetSynthPolyphony(e.h, EAS_MCU_SYNTH, &q) == EAS_SUCCESS && q == N, "limit %d reads back as %ld", N, (long)q); if (sounding > N) { sounding = N; known = false; over++; } break; }
      case 1: { int n = 1 + g.draw(g.chance(1, 4) ? 70 : 8), k = 0; Bytes b; for (int j = 0; j < n; j++) { int ch = g.draw(16), key = g.draw(128); if (ch == 9) ch = 8; if (!held.insert({ch, key}).second) continue; app(b, mNoteOn(ch, key, 127)); k++; } e.write(s, b); c.say(" +%d", k); if (sounding + k > N) { known = false; over++; } sounding = std::min(N, sounding + k); break; }
      case 2: { if (!known || held.empty()) { Bytes b; for (int ch = 0; ch < 16; ch++) app(b, mCC(ch, 123, 0)); e.write(s, b); held.clear(); sounding = 0; known = true; c.say(" alloff"); } else { int n = 1 + g.draw(held.size()); Bytes b; for (int j = 0; j < n; j++) { auto it = held.begin(); std::advance(it, g.draw(held.size())); app(b, mNoteOff(it->first, it->second)); held.erase(it); } e.write(s, b); sounding -= n; c.say(" -%d", n); } break; }
      default: { Bytes b; for (auto& h : held) app(b, mNoteOff(h.first, h.second)); e.write(s, b); held.clear(); sounding = 0; known = true; c.say(" -all"); } }
    Pcm p = e.render(8); int n = countOf(p, 7, u); if (n != sounding) fail(fmt("step %d: %d notes sound, expected %d (limit %d)", i, n, sounding, N)); }
  c.say("\n"); c.nontrivial = over > 0; c.label("counts"); }
// which notes are lost: binary-coded levels, one note per step; the newest note always sounds; equal levels: the oldest goes; one much quieter: it goes
static void which(Gen& g, Ctx& c) {
  int mode = g.draw(3); int N = 1 + g.draw(6); std::vector<int> vals; if (mode == 0) for (int i = 0; i < 8; i++) vals.push_back(80 << i); else for (int i = 0; i < 8; i++) vals.push_back(80 << i); Bytes dls = dcDls(vals); std::vector<double> u; for (int i = 0; i < 8; i++) u.push_back(unitOf(dls, i, 1));
  Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); preroll(g, c, e, s); REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit"); std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7}; for (int i = 7; i > 0; i--) std::swap(order[i], order[g.draw(i + 1)]); int quiet = mode == 2 ? (int)g.draw(std::max(1, N)) : -1;
  Bytes b; for (int i = 0; i < 8; i++) app(b, mProg(i, i)); e.write(s, b); std::vector<int> sound; int n = N + 1 + g.draw(8 - N); if (n > 8) n = 8; c.say("limit %d order", N); for (int i = 0; i < n; i++) c.say(" %d", order[i]); c.say(" quiet #%d\n", quiet); c.label(mode == 2 ? "quieter" : "older"); c.nontrivial = n > N;
  auto set = [&](const Pcm& p, int blk) { REQUIRE(steady(p, blk), "not constant"); double l = levelOf(p, blk).l; std::set<int> r; for (int m = 0; m < 256; m++) { double w = 0; for (int i = 0; i < 8; i++) if (m >> i & 1) w += u[i]; if (std::fabs(w - l) < u[0] * 0.45) { for (int i = 0; i < 8; i++) if (m >> i & 1) r.insert(i); return r; } } fail(fmt("level %.0f is no combination of notes", l)); };
  if (mode == 2) {   // all but one loud; the quiet one uses velocity 20 on the wave with the highest level, so it is known by its loss
    e.write(s, {}); for (int i = 0; i < N; i++) { e.write(s, mNoteOn(order[i], 60, i == quiet ? 12 : 127)); e.skip(1 + g.draw(4)); } Pcm p; e.render(p, 6); double before = levelOf(p, 5).l; (void)before; int nw = order[N < 8 ? N : 7]; if (N >= 8) return; e.write(s, mNoteOn(nw, 61, 127)); p.clear(); e.render(p, 8); double l = levelOf(p, 7).l, w = u[nw]; for (int i = 0; i < N; i++) if (i != quiet) w += u[order[i]]; if (std::fabs(l - w) > 8 + 0.3 * u[0]) fail(fmt("limit %d: after one note too many the level is %.0f; with only the quiet note lost it would be %.0f", N, l, w)); return; }
  int per = mode == 1 ? 1 + (int)g.draw(3) : 1; for (int i = 0; i < n;) { int k = std::min({per, n - i, N}); Bytes w; std::vector<int> nw; for (int j = 0; j < k; j++) { nw.push_back(order[i + j]); app(w, mNoteOn(order[i + j], 60 + g.draw(8), 127)); } e.write(s, w); i += k; for (int x : nw) sound.push_back(x); while ((int)sound.size() > N) sound.erase(sound.begin()); Pcm p = e.render(8); std::set<int> r = set(p, 7), want(sound.begin(), sound.end()); if (r != want) { std::string a, q; for (int x : r) a += fmt(" %d", x); for (int x : want) q += fmt(" %d", x); fail(fmt("limit %d after %d notes: sounding%s, expected the newest:%s", N, i, a.c_str(), q.c_str())); } } }
// two file streams with priorities and limits of their own
static void streams(Gen& g, Ctx& c) {
  Bytes dls = dcDls({1000, 50}); double u[2]; u[0] = unitOf(dls, 0, 16); { /* small unit measured with 16 */ } u[1] = unitOf(dls, 1, 16); int nn = 2 + g.draw(8); struct St { int kind, x, n, m; }; std::vector<St> plan; Hist h[2]; for (int x = 0; x < 2; x++) { h[x].ev.push_back({1, sysMasterVol(16383)}); for (int ch = 0; ch < 16; ch++) h[x].ev.push_back({1, mProg(ch, x)}); } int key[2] = {0, 0}; int blk = 4;
  for (int i = 0; i < nn; i++) { St s; s.kind = g.weighted({6, 2, 2, 2, 4}); s.x = g.draw(2); s.m = 0; s.n = s.kind == 0 || s.kind == 4 ? 1 + g.draw(g.chance(1, 4) ? 20 : 5) : s.kind == 2 ? g.range(1, 16) : s.kind == 3 ? g.range(0, 16) : 0; auto notes = [&](int x, int n) { for (int j = 0; j < n; j++) { int k = key[x]++ % 1800; h[x].ev.push_back({blk, mNoteOn(k / 120 == 9 ? 15 : k / 120, k % 120, 127)}); } }; if (s.kind == 4) { s.m = 1 + g.draw(5); s.x = 0; notes(1, s.m); } plan.push_back(s); if (s.kind == 0 || s.kind == 4) notes(s.x, s.n); if (s.kind == 1) for (int ch = 0; ch < 16; ch++) h[s.x].ev.push_back({blk, mCC(ch, 120, 0)}); blk += 8; }
  int pr[2] = {(int)g.range(1, 15), (int)g.range(1, 15)}, lim[2] = {g.flip() ? 0 : g.range(1, 16), g.flip() ? 0 : g.range(1, 16)}, N = g.range(1, 14); Eng e; MemFile f(dls); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load"); Song sg[2]; std::unique_ptr<MemFile> mf[2]; EAS_HANDLE k[2];
  for (int x = 0; x < 2; x++) { sg[x] = histSong(h[x], blk + 50); mf[x].reset(new MemFile(encSong(sg[x]))); k[x] = e.play(*mf[x]); REQUIRE(EAS_SetPriority(e.h, k[x], pr[x]) == EAS_SUCCESS, "priority"); EAS_I32 q = -1; REQUIRE(EAS_GetPriority(e.h, k[x], &q) == EAS_SUCCESS && q == pr[x], "priority reads back as %ld", (long)q); REQUIRE(EAS_SetPolyphony(e.h, k[x], lim[x]) == EAS_SUCCESS, "polyphony"); REQUIRE(EAS_GetPolyphony(e.h, k[x], &q) == EAS_SUCCESS && q == lim[x], "polyphony reads back as %ld", (long)q); }
  REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit"); c.say("engine limit %d, streams: priority %d %d limits %d %d; plan:", N, pr[0], pr[1], lim[0], lim[1]); for (auto& s : plan) c.say(" %s(%d,%d)", s.kind == 0 ? "notes" : s.kind == 1 ? "off" : s.kind == 2 ? "engine" : s.kind == 4 ? "both" : "limit", s.kind == 4 ? s.n : s.x, s.kind == 4 ? s.m : s.n); c.say("\n"); c.label("streams");
  int v[2] = {0, 0}, over = 0; Pcm pre; e.render(pre, 4); int st = 0;
  for (auto& s : plan) { int w[2][2] = {{v[0], v[0]}, {v[1], v[1]}}; auto cap = [&](int x) { return lim[x] ? std::min(lim[x], N) : N; }; int wantTotal;
    if (s.kind == 2) { N = s.n; REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit"); }
    if (s.kind == 3) { lim[s.x] = s.n; REQUIRE(EAS_SetPolyphony(e.h, k[s.x], s.n) == EAS_SUCCESS, "polyphony"); }
    int total = v[0] + v[1]; wantTotal = total;
    if (s.kind == 1) { wantTotal -= v[s.x]; w[s.x][0] = w[s.x][1] = 0; }
    if (s.kind == 2 && total > N) { over++; wantTotal = N; for (int x = 0; x < 2; x++) { w[x][0] = std::max(0, v[x] - (total - N)); } if (pr[0] != pr[1]) { int les = pr[0] > pr[1] ? 0 : 1; int cut = std::min(v[les], total - N); w[les][0] = w[les][1] = v[les] - cut; w[!les][0] = w[!les][1] = N - w[les][0]; } }
    if (s.kind == 3) { int n = std::min(v[s.x], cap(s.x)); if (n < v[s.x]) over++; wantTotal -= v[s.x] - n; w[s.x][0] = w[s.x][1] = n; }
    std::set<std::pair<int, int>> ok; if (s.kind == 0 || s.kind == 4) {   // the states possible after the notes of one stream, then the other
      ok.insert({v[0], v[1]}); auto add = [&](int x, int n) { std::set<std::pair<int, int>> r; for (auto& q : ok) { int vv[2] = {q.first, q.second}, y = !x, tot = vv[0] + vv[1], grow = std::max(0, std::min({n, cap(x) - vv[x], N - tot})), rest = n - grow, x0 = vv[x] + grow, take = rest && pr[y] >= pr[x] && x0 < cap(x) ? std::min({rest, vv[y], cap(x) - x0}) : 0; if (rest) over++; for (int t = x0 == 0 && take ? 1 : 0; t <= take; t++) { int z[2]; z[x] = x0 + t; z[y] = vv[y] - t; r.insert({z[0], z[1]}); } } ok = r; };
      if (s.kind == 0) add(s.x, s.n); else { add(0, s.n); add(1, s.m); } }
    Pcm p = e.render(8); REQUIRE(steady(p, 7), "not constant"); double l = levelOf(p, 7).l; int a = -1, b = -1; for (int q = 0; q <= 16 && a < 0; q++) for (int r = 0; r <= 16; r++) if (std::fabs(l - q * u[0] - r * u[1]) < u[1] * 0.45) { a = q; b = r; break; } REQUIRE(a >= 0, "step %d: level %.0f is no number of notes (units %.1f %.1f)", st, l, u[0], u[1]);
    if (!ok.empty()) { if (!ok.count({a, b})) { std::string t; for (auto& q : ok) t += fmt(" %d+%d", q.first, q.second); fail(fmt("step %d: %d+%d notes sound (before: %d+%d), possible:%s (engine limit %d)", st, a, b, v[0], v[1], t.c_str(), N)); } } else if (a + b != wantTotal || a < w[0][0] || a > w[0][1] || b < w[1][0] || b > w[1][1]) fail(fmt("step %d: %d+%d notes sound (before: %d+%d), expected %d in all, %d..%d and %d..%d (engine limit %d)", st, a, b, v[0], v[1], wantTotal, w[0][0], w[0][1], w[1][0], w[1][1], N)); v[0] = a; v[1] = b; st++; }
  c.nontrivial = over > 0; }
// within the limit nothing changes
static void within(Gen& g, Ctx& c) {
  int N = 2 + g.draw(40); HistOpts o; o.m.chans = genChans(g, 4); o.m.maxNotes = N; o.m.maxHeld = N; Hist h = genHist(g, o); describe(c, h); bool file = g.flip(); int how = file ? g.draw(3) : 0; c.say("limit %d by %d\n", N, how); c.label("within the limit");
  auto run = [&](bool lim) { Eng e; Pcm p; if (lim && how != 1) REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, N) == EAS_SUCCESS, "limit"); if (file) { Song s = histSong(h, h.blocks + 400); MemFile f(encSong(s)); EAS_HANDLE k = e.play(f); if (lim && how) REQUIRE(EAS_SetPolyphony(e.h, k, N) == EAS_SUCCESS, "limit"); e.render(p, h.blocks + 1); } else { EAS_HANDLE s = e.live(); playHist(e, s, h, p); } return p; };
  Pcm a = run(false), b = run(true); c.nontrivial = peak(a) > 50 && h.notes > 1; requireSame(a, b, "without vs within the polyphony limit"); }
static void m07(Gen& g, Ctx& c) { switch (g.weighted({3, 3, 3, 2})) { case 0: counts(g, c); break; case 1: which(g, c); break; case 2: streams(g, c); break; default: within(g, c); } }
static Reg r("M07", m07, "constant-wave collections make the number and identity of sounding notes measurable: random note/limit/priority histories on one live stream (exact counts; newest notes kept, oldest or quietest lost) and on two file streams with priorities and limits; built-in sounds within the limit vs. unlimited (bit-exact); non-trivial: demand exceeds the limit, or an audible reference", 150000, 5000000, 20);
