// A02: metadata callbacks and note counts report what the file contains, when it is played.
#include "../songgen.h"
struct Sink { std::vector<std::pair<int, std::string>> got; std::vector<char> mem; int size = 0; };
static Sink* gSink[2];
static const int G = 64; static const char CAN = 0x5A;
static void cb(E_EAS_METADATA_TYPE t, char* buf, EAS_VOID_PTR u) { Sink* s = (Sink*)u; REQUIRE(s == gSink[0] || s == gSink[1], "callback with a wrong user pointer"); REQUIRE(buf == s->mem.data() + G, "callback with another buffer");
  const char* e = (const char*)memchr(buf, 0, s->size); REQUIRE(e, "text in the %d byte buffer not terminated", s->size); s->got.push_back({(int)t, std::string(buf, e - buf)}); }
static void arm(Sink& s, int size) { s.size = size; s.mem.assign(size + 2 * G, CAN); }
static void guard(const Sink& s) { for (int i = 0; i < G; i++) REQUIRE(s.mem[i] == CAN && s.mem[G + s.size + i] == CAN, "written outside the %d byte buffer (offset %d)", s.size, s.mem[i] != CAN ? i - G : s.size + i); }
static int metaOf(const Bytes& b) { if (b[0] != 0xFF) return -1; switch (b[1]) { case 3: return EAS_METADATA_TITLE; case 1: return EAS_METADATA_TEXT; case 2: return EAS_METADATA_COPYRIGHT; case 5: return EAS_METADATA_LYRIC; default: return -1; } }
static std::string cut(const Bytes& b, int size) { std::string s((const char*)b.data() + 2, b.size() - 2); if ((int)s.size() > size - 1) s.resize(size - 1); return s.c_str(); }
static bool isOn(const Bytes& b) { return (b[0] & 0xF0) == 0x90 && b[2]; }
static void a02(Gen& g, Ctx& c) {
  SongOpts o; o.maxMs = 1200; o.music.chans = genChans(g); o.meta = false; bool reset = g.flip(); o.music.modes = true; (void)reset; GenSong gs = genSong(g, o); Song& s = gs.song;
  // add text events at the ticks of existing ones (or at 0), anywhere among them
  int nm = 1 + g.size(24);
  for (int i = 0; i < nm; i++) { auto& tr = s.tracks[g.draw(s.tracks.size())]; size_t at = tr.ev.empty() ? 0 : g.draw(tr.ev.size() + 1); uint32_t tick = tr.ev.empty() ? 0 : at == 0 ? (g.flip() ? 0 : tr.ev[0].tick) : tr.ev[at - 1].tick;
    Bytes b{0xFF, (uint8_t)(g.chance(1, 4) ? g.pick({4, 6, 7, 8, 15, 9, 0x7F, 0x54, 0x59}) : g.pick({1, 2, 3, 5}))}; int l = g.chance(1, 10) ? g.range(100, 400) : g.draw(24); for (int k = 0; k < l; k++) b.push_back(g.chance(1, 12) ? g.draw(256) : 32 + g.draw(90)); tr.ev.insert(tr.ev.begin() + at, {tick, b}); }
  std::vector<SEv> sched = schedule(s); describe(c, s);
  int size = g.chance(1, 6) ? g.pick({1, 2}) : g.chance(1, 3) ? g.range(1, 12) : g.range(1, 500);
  std::vector<std::pair<double, std::pair<int, std::string>>> want; for (auto& e : sched) { int m = metaOf(*e.b); if (m >= 0) want.push_back({e.ms, {m, cut(*e.b, size)}}); }
  c.say("buffer %d, %zu metadata events\n", size, want.size());
  Bytes f = encSong(s); MemFile mf(f); Eng e; EAS_HANDLE h = e.open(mf); Sink k, k2; gSink[0] = &k; gSink[1] = &k2; arm(k, size); arm(k2, g.range(1, 40));
  char dummy[4]; REQUIRE(EAS_RegisterMetaDataCallback(e.h, h, cb, dummy, 4, &k) != EAS_SUCCESS, "callback accepted before the song is prepared");
  REQUIRE(EAS_Prepare(e.h, h) == EAS_SUCCESS, "EAS_Prepare");
  auto reg = [&](Sink& x) { REQUIRE(EAS_RegisterMetaDataCallback(e.h, h, cb, x.mem.data() + G, x.size, &x) == EAS_SUCCESS, "EAS_RegisterMetaDataCallback"); };
  auto same = [&](const std::vector<std::pair<int, std::string>>& got, size_t n, const char* what) { REQUIRE(got.size() == n, "%s: %zu metadata events reported instead of %zu", what, got.size(), n); for (size_t i = 0; i < n; i++) REQUIRE(got[i] == want[i].second, "%s: event %zu: type %d '%s' instead of type %d '%s'", what, i, got[i].first, got[i].second.c_str(), want[i].second.first, want[i].second.second.c_str()); };
  auto count = [&]() { EAS_I32 n = -1; REQUIRE(EAS_GetNoteCount(e.h, h, &n) == EAS_SUCCESS, "EAS_GetNoteCount"); return (long)n; };
  reg(k); REQUIRE(k.got.empty(), "metadata before anything is parsed"); REQUIRE(count() == 0, "note count %ld before playing", count());
  int parses = g.draw(3); for (int p = 0; p < parses; p++) { EAS_I32 len = 0; REQUIRE(EAS_ParseMetaData(e.h, h, &len) == EAS_SUCCESS, "EAS_ParseMetaData"); guard(k); same(k.got, want.size(), "EAS_ParseMetaData"); k.got.clear(); REQUIRE(count() == 0, "note count %ld after a metadata scan", count()); }
  int rep = gs.endRobust && g.chance(1, 3) ? 1 + g.draw(2) : 0; if (rep) EAS_SetRepeat(e.h, h, rep);
  double b = BLKMS(); long nb = blockOf(gs.endMs, b) - 1, total = 0; for (auto& x : sched) total += isOn(*x.b); long playedBefore = 0; bool swapped = false; Pcm pcm; int swapAt = g.chance(1, 4) ? (int)g.draw(std::max(1L, nb)) : -1;
  for (long bl = 0; bl < nb; bl++) {
    if (bl == swapAt && !rep) { // another buffer and user pointer from now on
      size_t before = k.got.size(); reg(k2); swapped = true; (void)before; }
    e.render(pcm, 1); size_t w = 0; long n = 0; for (auto& x : sched) if (blockOf(x.ms, b) <= bl) n += isOn(*x.b); for (auto& x : want) if (blockOf(x.first, b) <= bl) w++;
    guard(k); guard(k2); long m = count(); REQUIRE(m == n, "note count %ld after block %ld instead of %ld", m, bl, n); 
    if (!swapped) same(k.got, w, "playing"); else { REQUIRE(k.got.size() + k2.got.size() == w, "playing: %zu + %zu metadata events in two buffers instead of %zu", k.got.size(), k2.got.size(), w); for (size_t i = 0; i < k2.got.size(); i++) { auto& y = want[k.got.size() + i]; REQUIRE(k2.got[i].first == y.second.first, "type %d instead of %d after the buffer was changed", k2.got[i].first, y.second.first); } } }
  if (rep) { // further passes repeat the list
    long st = 0; long guardN = (nb + 10 + 12000) * (rep + 1); for (long i = 0; i < guardN && k.got.size() < want.size() * (rep + 1); i++) { e.render(pcm, 1); guard(k); st = e.state(h); if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) break; }
    for (int i = 0; i < 6; i++) e.render(pcm, 1);
    REQUIRE(k.got.size() == want.size() * (rep + 1), "%d passes: %zu metadata events instead of %zu", rep + 1, k.got.size(), want.size() * (rep + 1));
    for (size_t i = 0; i < k.got.size(); i++) REQUIRE(k.got[i] == want[i % want.size()].second, "pass %zu: event %zu differs", i / want.size(), i % want.size());
    for (int i = 0; i < 12000 && e.state(h) != EAS_STATE_STOPPED; i++) e.render(pcm, 1);
    REQUIRE(count() == total * (rep + 1), "note count %ld after %d passes of %ld notes", count(), rep + 1, total); c.label("passes"); }
  (void)playedBefore; e.closeFile(h); guard(k); c.nontrivial = want.size() >= 2 && total >= 1 && nb > 0; if (parses) c.label("parsed"); if (swapped) c.label("buffer changed");
}
static Reg r("A02", a02, "random songs with up to 24 text events of all types (any bytes, 0..400 long) on any track; buffers of 1..500 bytes with guard bytes; the list reported by metadata scans, and after each rendered block, vs. the events due by then, cut to the buffer; note count after each block vs. the notes due; repeats; non-trivial: at least two reported events and a note", 60000, 3000000, 20);
