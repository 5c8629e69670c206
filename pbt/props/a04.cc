// A04: the command line renderer writes exactly what the library renders for its options and files, and reports what it cannot do.
#include "../script.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/stat.h>
struct Scratch { std::string d; std::vector<std::string> files; Scratch() { char t[] = "/tmp/verif-a04-XXXXXX"; if (!mkdtemp(t)) { fprintf(stderr, "no scratch directory\n"); abort(); } d = t; }
  ~Scratch() { for (auto& f : files) unlink(f.c_str()); rmdir(d.c_str()); }
  std::string put(const std::string& n, const Bytes& b) { std::string p = d + "/" + n; FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { fprintf(stderr, "cannot write %s\n", p.c_str()); abort(); } fclose(f); if (std::find(files.begin(), files.end(), p) == files.end()) files.push_back(p); return p; } };
struct Run { int exitCode = -1, sig = 0; bool timeout = false; Bytes out; std::string err; };
static Run run(const std::vector<std::string>& args, const std::string& dir) {
  Run r; int po[2], pe[2]; if (pipe(po) || pipe(pe)) abort(); const char* exe = getenv("VERIF_CLI"); if (!exe) { fprintf(stderr, "VERIF_CLI is not set\n"); abort(); }
  std::vector<char*> av{(char*)exe}; for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  pid_t p = fork(); if (p < 0) abort();
  if (!p) { dup2(po[1], 1); dup2(pe[1], 2); for (int i = 3; i < 64; i++) close(i); int z = open("/dev/null", O_RDONLY); dup2(z, 0); alarm(0); signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL); if (chdir(dir.c_str())) _exit(99); unsetenv("POSIXLY_CORRECT"); execv(exe, av.data()); _exit(98); }
  close(po[1]); close(pe[1]); struct pollfd q[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}}; int live = 2; uint8_t b[65536]; int idle = 0;
  while (live) { int n = poll(q, 2, 1000); if (n == 0 && ++idle > 15) { kill(p, SIGKILL); r.timeout = true; break; } if (n < 0) continue; for (int i = 0; i < 2; i++) if (q[i].fd >= 0 && q[i].revents) { ssize_t k = read(q[i].fd, b, sizeof b); if (k <= 0) { q[i].fd = -1; live--; } else { idle = 0; if (i) r.err.append((char*)b, k); else r.out.insert(r.out.end(), b, b + k); if (r.out.size() > (64u << 20)) { kill(p, SIGKILL); r.timeout = true; live = 0; } } } }
  close(po[0]); close(pe[0]); int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.exitCode = WEXITSTATUS(st); return r; }
struct Want { bool ok = true; Bytes out; long blocks = 0; };
static const long CAP = 3000;
struct FileIn { Bytes b; bool exists = true; double ms = -1e9; };
static Want model(const std::vector<FileIn>& in, const Bytes* dls, bool dlsMissing, int rev, int wet, Ctx& c, bool wetFirst = false) {
  Want w; if (dlsMissing) { w.ok = false; return w; } Eng e; 
  if (dls) { MemFile f(*dls); if (e.loadDLS(f) != EAS_SUCCESS) { w.ok = false; c.label("collection refused"); return w; } }
  if (rev >= 1) {
    auto set = [&](int p, int v) { REQUIRE(EAS_SetParameter(e.h, EAS_MODULE_REVERB, p, v) == EAS_SUCCESS, "reverb parameter %d", p); };
    if (wetFirst) set(EAS_PARAM_REVERB_WET, wet >= 0 ? wet : 0);
    set(EAS_PARAM_REVERB_PRESET, rev - 1); if (!wetFirst && wet >= 0) set(EAS_PARAM_REVERB_WET, wet); set(EAS_PARAM_REVERB_BYPASS, 0); }
  for (auto& f : in) {
    if (!f.exists) { w.ok = false; break; } MemFile m(f.b); EAS_HANDLE s = nullptr; EAS_I32 len = -1; 
    if (EAS_OpenFile(e.h, &m.loc, &s) != EAS_SUCCESS || !s) { w.ok = false; break; }
    if (EAS_Prepare(e.h, s) != EAS_SUCCESS) { w.ok = false; EAS_CloseFile(e.h, s); break; }
    if (EAS_ParseMetaData(e.h, s, &len) != EAS_SUCCESS || len == 0) { w.ok = false; EAS_CloseFile(e.h, s); break; }
    if (len > 15000) throw Discard{};
    for (;;) { EAS_STATE st; if (EAS_State(e.h, s, &st) != EAS_SUCCESS) { w.ok = false; break; } if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) break;
      Pcm p(BLK() * 2); EAS_I32 got = -1; if (EAS_Render(e.h, p.data(), BLK(), &got) != EAS_SUCCESS || got != BLK()) { w.ok = false; break; }
      w.out.insert(w.out.end(), (uint8_t*)p.data(), (uint8_t*)(p.data() + p.size())); if (++w.blocks > CAP) throw Discard{}; }
    EAS_RESULT r = EAS_CloseFile(e.h, s); if (r != EAS_SUCCESS) w.ok = false; if (!w.ok) break; }
  return w; }
static bool known(const char* id) { const char* k = getenv("VERIF_KNOWN"); return k && strstr(k, id); }
static void t(Gen& g, Ctx& c) {
  Scratch sc; std::vector<std::string> args, songs; std::vector<FileIn> in; Bytes dls; const Bytes* pd = nullptr; bool dlsMissing = false, usage = false, badOpt = false; int rev = -1, wet = -1; double minMs = 0; std::string shown;
  // options
  int no = g.weighted({3, 4, 3, 1}); auto arg = [&](char o, const std::string& v) { if (g.flip()) args.push_back(fmt("-%c%s", o, v.c_str())); else { args.push_back(fmt("-%c", o)); args.push_back(v); } };
  for (int i = 0; i < no; i++) switch (g.weighted({5, 5, 4, 1})) {
      case 0: { int n = g.chance(1, 12) ? g.pick({-1, 5, 6, 100, -2147483647, 2147483647, 260}) : g.draw(5); arg('r', fmt("%d", n)); if (n < 0 || n > 4) badOpt = true; else if (!badOpt && !usage) rev = n; break; }
      case 1: { int n = g.chance(1, 12) ? g.pick({-1, 32766, 32767, 40000, 65536, -32768, 2147483647}) : g.edge(0, 32765); arg('w', fmt("%d", n)); if (n < 0 || n > 32765) badOpt = true; else if (!badOpt && !usage) wet = n; break; }
      case 2: { if (g.chance(1, 10)) { arg('d', sc.d + "/absent.dls"); dlsMissing = true; pd = nullptr; break; } if (g.chance(1, 5)) dls = genHostileDlsBytes(g, c); else dls = encDls(genBenignDls(g)); pd = &dls; dlsMissing = false; std::string n = fmt("set %d.dls", i); std::string p = sc.put(n, dls); arg('d', g.flip() ? p : n); break; }
      default: if (g.chance(1, 3)) { args.push_back("-h"); if (!badOpt) usage = true; } else { args.push_back(g.pick({std::string("-x"), std::string("-q"), std::string("-?"), std::string("-R"), std::string("-Z3")})); if (!usage) badOpt = true; } }
  bool missingArg = false; if (g.chance(1, 60)) { args.push_back(g.pick({std::string("-r"), std::string("-w"), std::string("-d")})); missingArg = true; }
  bool bad = badOpt || usage || missingArg; if (!missingArg && g.chance(1, 6)) args.push_back("--");
  int nf = missingArg ? 0 : g.weighted({1, 8, 4, 2}); static const char* names[] = {"a.mid", "b c.mid", "song", "x.mid.gz", "\xc3\xa9t\xc3\xa9.MID", "a%s%n.mid", "..mid"};
  for (int i = 0; i < nf; i++) { FileIn f; std::string path; int k = g.weighted({12, 2, 1, 1, 1});
    if (k && bad) k = 0;
    switch (k) {
      case 0: { SongOpts o; o.maxMs = g.chance(1, 8) ? 6000 : 900; o.manyTracks = g.chance(1, 10); o.maxEvents = 40; o.music.chans = genChans(g); o.music.smallProgs = pd != nullptr; GenSong gs = genSong(g, o); f.b = encSong(gs.song); f.ms = gs.endMs; break; }
      case 1: f.b = genBadSong(g, c); break;
      case 2: f.exists = false; break;
      case 3: { Song s; s.tracks.resize(1); s.format = 0; s.division = 96; s.tracks[0].endTick = 0; if (g.flip()) s.tracks[0].ev.push_back({0, mNoteOn(0, 60, 100)}); f.b = encSong(s); c.label("song without length"); break; }
      default: f.b.clear(); }
    std::string n = fmt("%d", i) + names[g.draw(7)]; if (i && g.chance(1, 4) && in[0].exists) { f = in[0]; path = songs[0]; } else if (!f.exists) path = sc.d + "/" + n; else { path = sc.put(n, f.b); if (g.chance(1, 4)) path = n; else if (g.chance(1, 6)) path = "./" + n; }
    minMs += f.ms; songs.push_back(path); in.push_back(f); args.push_back(path); }
  if (c.verbose) { c.say("sonivoxrender"); for (auto& a : args) { std::string x = a; size_t p = x.find(sc.d); if (p != std::string::npos) x.replace(p, sc.d.size(), "$D"); c.say(" '%s'", x.c_str()); } c.say("\n"); for (auto& f : in) c.say("file: %s\n", f.exists ? hexs(f.b, 300).c_str() : "(absent)"); }
  Want w; if (bad) w.ok = false; else w = model(in, pd, dlsMissing, rev, wet, c);
  Run r = run(args, sc.d);
  REQUIRE(!r.timeout, "sonivoxrender does not end (%zu bytes written)", r.out.size()); REQUIRE(!r.sig, "sonivoxrender died of signal %d", r.sig);
  REQUIRE((r.exitCode == 0) == w.ok, "exit status %d, expected %s (%s)", r.exitCode, w.ok ? "0" : "a failure", r.err.substr(0, 200).c_str());
  if (r.exitCode) REQUIRE(!r.err.empty(), "failure without any message");
  if (r.out != w.out && rev >= 1 && known("wet-before-preset")) { Want alt = model(in, pd, dlsMissing, rev, wet, c, true); if (r.out == alt.out) { c.label("known finding: wet amount set before the preset"); w = alt; } }
  size_t n = std::min(r.out.size(), w.out.size()); for (size_t i = 0; i < n; i++) if (r.out[i] != w.out[i]) fail(fmt("output differs from the library's at byte %zu (block %zu)", i, i / (4 * BLK())));
  REQUIRE(r.out.size() == w.out.size(), "wrote %zu bytes, the library renders %zu", r.out.size(), w.out.size());
  if (usage && !badOpt) REQUIRE(r.err.find("-d") != std::string::npos && r.err.find("-r") != std::string::npos && r.err.find("-w") != std::string::npos, "no usage message");
  if (w.ok) REQUIRE(w.blocks * BLKMS() >= minMs - 30 * nf, "%ld blocks for %g ms of music", w.blocks, minMs);
  bool sound = false; for (auto x : r.out) sound |= x != 0; c.nontrivial = (w.ok && sound) || !w.ok; c.label(bad ? "bad options" : w.ok ? "rendered" : "failed"); if (w.ok && nf > 1) c.label("several files"); if (rev > 0 && w.ok) c.label("with reverb"); }
static Reg r("A04", t, "the program rendered audible output compared byte for byte, or had to report a failure", 30000, 400000);
