// Driver: runs generated cases in forked batches, coverage-guided, shrinks failures, writes evidence.
#include "pbt.h"
#include "memtrack.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
using namespace pbt;

std::vector<Prop>& pbt::registry() { static std::vector<Prop> r; return r; }

#ifdef VERIF_ASAN
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=97:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=0:print_legend=0:malloc_context_size=12:symbolize=1:handle_abort=1:quarantine_size_mb=16"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98:print_summary=1"; }
#endif

// ---- coverage (inline 8-bit counters of the library build) ----
static uint8_t *cov_beg, *cov_end;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* s, uint8_t* e) {
  // several modules: they are contiguous within one executable
  if (!cov_beg || s < cov_beg) cov_beg = s;
  if (e > cov_end) cov_end = e;
}
static inline uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }

// ---- shared slot ----
static const size_t CORPUS_WORDS = 4u << 20;      // per slot
static const size_t COVMAX = 1u << 16;
static const size_t MAXCORP = 4096;
static const size_t MAXDIG = 1u << 20;
struct Slot {
  volatile uint64_t cur;          // current case index
  volatile int status;            // 0 running, 1 batch done, 2 failed (Failure)
  volatile uint64_t beat;         // progress counter
  uint64_t evals, discards, nontriv;
  char msg[4096];
  ChoiceLog log;
  // results for a single evaluation (shrinking)
  // corpus
  uint32_t ncorp; uint32_t corpOff[MAXCORP], corpLen[MAXCORP]; size_t corpUsed;
  uint32_t corpus[CORPUS_WORDS];
  uint8_t cov[COVMAX];
  uint32_t ndig; uint64_t dig[MAXDIG];
  uint32_t nlab; struct { char name[48]; uint64_t n; } lab[256];
  uint32_t descLen; char desc[32768];
};
static Slot* newSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Slot*)p;
}

static std::string g_prop, g_tier = "quick", g_replaydir = "replays", g_out, g_replay, g_variant = "plain";
static uint64_t g_seed = 1; static long g_cases = -1; static double g_time = 0; static int g_workers = 8;
static bool g_cover = true;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void on_prof(int) { static const char m[] = "HANG: case exceeded its CPU budget\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(96); }
static void arm(double s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_PROF, &it, nullptr); }

static void addLabel(Slot* s, const std::string& k, uint64_t n) {
  for (uint32_t i = 0; i < s->nlab; i++) if (k == s->lab[i].name) { s->lab[i].n += n; return; }
  if (s->nlab < 256 && k.size() < 47) { strcpy(s->lab[s->nlab].name, k.c_str()); s->lab[s->nlab].n = n; s->nlab++; }
}

// run one case in this process. returns 0 ok, 1 discard, 2 failure (msg in slot)
static int runCase(const Prop& p, Slot* s, const uint32_t* pre, size_t npre, bool replay, uint64_t seed, bool verbose, Ctx* out = nullptr) {
  Ctx c; c.verbose = verbose; c.tier = g_tier;
  int r = 0;
  arm(p.hang_s);
  mt_reset();
  {
    Gen g(pre, npre, replay, seed, &s->log);
    try { p.fn(g, c); }
    catch (Discard&) { r = 1; }
    catch (Failure& f) { r = 2; snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str()); }
    catch (std::exception& e) { r = 2; snprintf(s->msg, sizeof s->msg, "harness exception: %s", e.what()); }
  }
  arm(0);
  if (verbose) { size_t n = std::min(c.desc.size(), sizeof s->desc - 1); memcpy(s->desc, c.desc.data(), n); s->desc[n] = 0; s->descLen = n; }
  if (out) *out = c;
  return r;
}

static void childSetup(int errfd) {
  if (!getenv("VERIF_KEEP_STDERR")) dup2(errfd, 2);
  if (!getenv("VERIF_KEEP_STDOUT")) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 1); }
  signal(SIGPROF, on_prof);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

static void mutate(std::vector<uint32_t>& v, Rng& r, Slot* s) {
  int k = 1 + r.next() % 4;
  while (k--) {
    size_t n = v.size(); if (!n) return;
    switch (r.next() % 7) {
      case 0: case 1: v[r.next() % n] = (uint32_t)r.next(); break;
      case 2: v[r.next() % n] = (uint32_t)(r.next() % 8); break;
      case 3: { size_t a = r.next() % n, l = 1 + r.next() % std::min<size_t>(n - a, 1 + r.next() % 32); v.erase(v.begin() + a, v.begin() + a + l); break; }
      case 4: { size_t a = r.next() % n, l = 1 + r.next() % std::min<size_t>(n - a, 1 + r.next() % 32); size_t b = r.next() % n;
        std::vector<uint32_t> t(v.begin() + a, v.begin() + a + l); v.insert(v.begin() + b, t.begin(), t.end()); break; }
      case 5: { if (s->ncorp) { uint32_t j = r.next() % s->ncorp; uint32_t L = s->corpLen[j]; if (L) { size_t a = r.next() % L, b = r.next() % n; 
        v.resize(b); v.insert(v.end(), s->corpus + s->corpOff[j] + a, s->corpus + s->corpOff[j] + L); } } break; }
      case 6: v.resize(1 + r.next() % n); break;
    }
  }
}

static void makeInput(Slot* s, uint64_t idx, uint64_t& caseSeed, std::vector<uint32_t>& pre) {
  caseSeed = hash64(g_seed, idx, 0x5eed);
  pre.clear();
  Rng r(hash64(g_seed, idx, 0xc0ffee));
  if (g_cover && s->ncorp && (r.next() % 2)) {
    uint32_t j = (r.next() % 3) ? s->ncorp - 1 - (uint32_t)(r.next() % std::min<uint32_t>(s->ncorp, 64)) : (uint32_t)(r.next() % s->ncorp);
    pre.assign(s->corpus + s->corpOff[j], s->corpus + s->corpOff[j] + s->corpLen[j]);
    mutate(pre, r, s);
  }
}

static void runBatch(const Prop& p, Slot* s, uint64_t first, int count, int stride, uint64_t limit) {
  std::vector<uint32_t> pre;
  size_t ncov = cov_end > cov_beg ? std::min<size_t>(cov_end - cov_beg, COVMAX) : 0;
  for (int i = 0; i < count; i++) {
    uint64_t idx = first + (uint64_t)i * stride;
    if (idx >= limit) break;
    s->cur = idx; s->beat++;
    uint64_t cs; makeInput(s, idx, cs, pre);
    if (ncov) memset(cov_beg, 0, cov_end - cov_beg);
    Ctx c;
    int r = runCase(p, s, pre.data(), pre.size(), false, cs, false, &c);
    if (r == 2) { s->status = 2; _exit(0); }
    s->evals++;
    if (r == 1) { s->discards++; continue; }
    for (auto& l : c.labels) addLabel(s, l.first, l.second);
    if (c.nontrivial) {
      uint64_t h = 1469598103934665603ULL; for (uint32_t k = 0; k < s->log.n; k++) { h ^= s->log.v[k] + 0x9e37; h *= 1099511628211ULL; h ^= h >> 29; }
      s->nontriv++; if (s->ndig < MAXDIG) s->dig[s->ndig++] = h;
    }
    if (ncov) {
      bool fresh = false;
      for (size_t k = 0; k < ncov; k++) if (cov_beg[k]) { uint8_t b = bucket(cov_beg[k]); if (b & ~s->cov[k]) { s->cov[k] |= b; fresh = true; } }
      uint32_t n = s->log.n;
      if (fresh && n && !c.costly && s->ncorp < MAXCORP && s->corpUsed + n <= CORPUS_WORDS) {
        memcpy(s->corpus + s->corpUsed, s->log.v, n * 4); s->corpOff[s->ncorp] = s->corpUsed; s->corpLen[s->ncorp] = n; s->corpUsed += n; s->ncorp++; }
    }
  }
  s->status = 1; _exit(0);
}

static std::string readFd(int fd) {
  off_t n = lseek(fd, 0, SEEK_END); if (n <= 0) return ""; off_t st = 0; if (n > 16384) n = 16384;
  std::string r((size_t)n, 0); ssize_t k = pread(fd, &r[0], (size_t)n, st); if (k < 0) k = 0; r.resize((size_t)k); return r;
}
static int newErr() { int fd = memfd_create("verif-err", 0); return fd; }
static std::string crashMsg(int st, const std::string& err) {
  std::string m;
  if (WIFSIGNALED(st)) m = fmt("crash: signal %d", WTERMSIG(st)); else m = fmt("abnormal exit %d", WEXITSTATUS(st));
  // most telling lines
  size_t pos = 0; std::string keep; int fr = 0;
  while (pos < err.size()) { size_t e = err.find('\n', pos); if (e == std::string::npos) e = err.size(); std::string l = err.substr(pos, e - pos); pos = e + 1;
    if (l.find("runtime error") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("HANG") != std::string::npos || l.find("SUMMARY") != std::string::npos
        || (l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos && fr++ < 6)) keep += "\n  " + l; }
  if (keep.empty()) keep = "\n  " + err.substr(0, 400);
  return m + keep;
}

// evaluate a choice sequence in a forked child; returns true when it fails; msg gets the reason
static bool evalForked(const Prop& p, Slot* s, const std::vector<uint32_t>& v, std::string& msg, bool verbose, bool* discarded = nullptr, double* wall = nullptr) {
  int efd = newErr(); s->status = 0; s->msg[0] = 0; s->log.n = 0; s->descLen = 0; s->desc[0] = 0;
  double t0 = now(); fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup(efd);
    int r = runCase(p, s, v.data(), v.size(), true, 0, verbose);
    s->status = r == 2 ? 2 : r == 1 ? 3 : 1; _exit(0);
  }
  int st = 0; double lim = p.hang_s * 4 + 60;
  for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (now() - t0 > lim) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(300); }
  if (wall) *wall = now() - t0;
  bool bad = false; if (discarded) *discarded = false;
  if (s->status == 2) { bad = true; msg = s->msg; }
  else if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) bad = false;
  else if (s->status == 3) { if (discarded) *discarded = true; }
  else { bad = true; msg = crashMsg(st, readFd(efd)); }
  close(efd);
  return bad;
}

static std::vector<uint32_t> shrink(const Prop& p, Slot* s, std::vector<uint32_t> best, double budget_s, int& tries) {
  double end = now() + budget_s; std::string m; tries = 0;
  auto attempt = [&](const std::vector<uint32_t>& c) { if (now() > end || tries > 20000) return false; tries++; 
    if (evalForked(p, s, c, m, false)) { std::vector<uint32_t> used(s->log.v, s->log.v + s->log.n); best = used.size() <= c.size() ? used : c; return true; } return false; };
  bool any = true; int rounds = 0;
  while (any && rounds++ < 8 && now() < end) {
    any = false;
    // truncate
    for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) { while (best.size() > cut) { auto c = best; c.resize(c.size() - cut); if (!attempt(c)) break; any = true; } }
    // delete chunks
    for (size_t k : {128, 64, 32, 24, 16, 14, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1})
      for (size_t i = 0; i + k <= best.size() && now() < end;) { auto c = best; c.erase(c.begin() + i, c.begin() + i + k); if (attempt(c)) any = true; else i += k; }
    // zero chunks
    for (size_t k = 16; k >= 1; k /= 4)
      for (size_t i = 0; i + k <= best.size() && now() < end; i += k) { auto c = best; bool z = true; for (size_t j = i; j < i + k; j++) { if (c[j]) z = false; c[j] = 0; } if (!z && attempt(c)) any = true; }
    // minimise values
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      uint32_t lo = 0, hi = best[i]; int g = 0;
      while (lo < hi && g++ < 12) { uint32_t mid = lo + (hi - lo) / 2; auto c = best; c[i] = mid; size_t n0 = best.size(); if (attempt(c)) { any = true; hi = mid; if (best.size() != n0 || i >= best.size()) break; } else lo = mid + 1; }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o; }

static void writeReplay(const std::string& path, const Prop& p, const std::vector<uint32_t>& v, const std::string& msg, const std::string& desc) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
  fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"tier\":\"%s\",\n\"message\":\"%s\",\n\"case\":\"%s\",\n\"choices\":[", p.id.c_str(), g_variant.c_str(), g_tier.c_str(), jesc(msg).c_str(), jesc(desc).c_str());
  for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%u", i ? "," : "", v[i]);
  fprintf(f, "]}\n"); fclose(f);
}

int main(int argc, char** argv) {
  bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") g_prop = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") g_cases = atol(nx().c_str());
    else if (a == "--time") g_time = atof(nx().c_str()); else if (a == "--workers") g_workers = atoi(nx().c_str()); else if (a == "--tier") g_tier = nx();
    else if (a == "--out") g_out = nx(); else if (a == "--replay-dir") g_replaydir = nx(); else if (a == "--replay") g_replay = nx(); else if (a == "--variant") g_variant = nx();
    else if (a == "--no-cover") g_cover = false; else if (a == "--list") list = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
  if (list) { for (auto& p : registry()) printf("%s\n", p.id.c_str()); return 0; }
  const Prop* pp = nullptr; for (auto& p : registry()) if (p.id == g_prop) pp = &p;
  if (!pp) { fprintf(stderr, "no such property %s\n", g_prop.c_str()); return 2; }
  const Prop& p = *pp;
  // fixed-size master text region not needed; slots
  Slot* ev = newSlot();
  if (!g_replay.empty()) {
    FILE* f = fopen(g_replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) t.append(b, n); fclose(f);
    size_t q = t.rfind("\"choices\":["); std::vector<uint32_t> v; const char* c = t.c_str() + q + 11; while (*c && *c != ']') { char* e; v.push_back(strtoul(c, &e, 10)); c = e; if (*c == ',') c++; }
    std::string msg; bool bad = evalForked(p, ev, v, msg, true);
    printf("case:\n%s\n%s %s\n", ev->desc, bad ? "FAILS:" : "passes", msg.c_str());
    return bad ? 1 : 0;
  }
  long cases = g_cases >= 0 ? g_cases : (g_tier == "thorough" ? p.thorough_cases : p.quick_cases);
  double t0 = now(), tend = g_time > 0 ? t0 + g_time : 1e18;
  int W = g_workers; std::vector<Slot*> slots; std::vector<pid_t> pid(W, 0); std::vector<int> efd(W, -1); std::vector<uint64_t> nextb(W), beat(W); std::vector<double> beatT(W);
  for (int w = 0; w < W; w++) { slots.push_back(newSlot()); nextb[w] = w; }
  struct Fail { uint64_t idx; std::vector<uint32_t> v; std::string msg; int w; uint64_t batchFirst; };
  std::vector<Fail> fails;
  bool timeout = false; std::vector<uint64_t> bfirst(W);
  for (;;) {
    bool live = false;
    for (int w = 0; w < W; w++) {
      if (!pid[w]) {
        if (nextb[w] >= (uint64_t)cases || !fails.empty()) continue;
        if (now() > tend) { timeout = true; continue; }
        Slot* s = slots[w]; s->status = 0; s->cur = nextb[w]; efd[w] = newErr(); bfirst[w] = nextb[w];
        fflush(stdout); fflush(stderr);
        pid_t c = fork();
        if (c == 0) { childSetup(efd[w]); runBatch(p, s, nextb[w], p.batch, W, cases); }
        pid[w] = c; beat[w] = s->beat; beatT[w] = now(); live = true;
      } else {
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG); Slot* s = slots[w];
        if (r == 0) { live = true; if (s->beat != beat[w]) { beat[w] = s->beat; beatT[w] = now(); }
          else if (now() - beatT[w] > p.hang_s * 6 + 60) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); 
            fails.push_back({s->cur, {s->log.v, s->log.v + s->log.n}, "HANG: no progress (wall clock)", w, bfirst[w]}); close(efd[w]); pid[w] = 0; } 
          continue; }
        pid[w] = 0; live = true;
        if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) nextb[w] += (uint64_t)p.batch * W;
        else { std::string m = s->status == 2 ? std::string(s->msg) : crashMsg(st, readFd(efd[w]));
          fails.push_back({s->cur, {s->log.v, s->log.v + s->log.n}, m, w, bfirst[w]}); }
        close(efd[w]);
      }
    }
    if (!live) break;
    usleep(500);
  }
  // aggregate
  uint64_t evals = 0, disc = 0; std::set<uint64_t> dig; std::map<std::string, uint64_t> labs; size_t covered = 0, corp = 0;
  std::vector<uint8_t> allcov(COVMAX, 0);
  for (auto s : slots) { evals += s->evals; disc += s->discards; for (uint32_t i = 0; i < s->ndig; i++) dig.insert(s->dig[i]); for (uint32_t i = 0; i < s->nlab; i++) labs[s->lab[i].name] += s->lab[i].n; corp += s->ncorp; for (size_t k = 0; k < COVMAX; k++) allcov[k] |= s->cov[k]; }
  for (auto c : allcov) if (c) covered++;
  int violations = 0; int flaky = 0;
  if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.idx < b.idx; });
    for (auto& f : fails) {
      std::string m; int rep = 0; for (int k = 0; k < 3; k++) if (evalForked(p, ev, f.v, m, false)) rep++;
      std::vector<uint32_t> best = f.v; int tries = 0;
      if (rep == 3) { best = shrink(p, ev, f.v, g_tier == "thorough" ? 120 : 40, tries); }
      else {
        fprintf(stderr, "note: case %llu failed in its batch (%s) but reproduced %d/3 alone\n", (unsigned long long)f.idx, f.msg.c_str(), rep);
        if (rep == 0) { flaky++; continue; }
      }
      std::string msg2; bool again = evalForked(p, ev, best, msg2, true); std::string desc = ev->desc;
      if (!again) { best = f.v; again = evalForked(p, ev, best, msg2, true); desc = ev->desc; }
      mkdir(g_replaydir.c_str(), 0777);
      uint64_t h = 7; for (auto x : best) h = hash64(h, x);
      std::string path = fmt("%s/%s-%012llx.json", g_replaydir.c_str(), p.id.c_str(), (unsigned long long)(h & 0xffffffffffffULL));
      writeReplay(path, p, best, again ? msg2 : f.msg, desc);
      printf("failure (case %llu, shrunk to %zu choices in %d tries): %s\n%s\n", (unsigned long long)f.idx, best.size(), tries, (again ? msg2 : f.msg).c_str(), desc.substr(0, 3000).c_str());
      printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
      violations++; break;
    }
    if (flaky && !violations) {
      // state carried from one case to the next inside a batch process: replay the whole batch prefix
      auto& f = fails[0]; int rep = 0; std::string msg;
      for (int k = 0; k < 3; k++) { Slot* s = slots[f.w]; int e = newErr(); s->status = 0; fflush(stdout); pid_t c = fork();
        if (c == 0) { childSetup(e); runBatch(p, s, f.batchFirst, p.batch, W, cases); }
        int st; waitpid(c, &st, 0); if (!(s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)) { rep++; msg = s->status == 2 ? std::string(s->msg) : crashMsg(st, readFd(e)); } close(e); }
      if (rep == 3) { mkdir(g_replaydir.c_str(), 0777); std::string path = fmt("%s/%s-batch-%llu.txt", g_replaydir.c_str(), p.id.c_str(), (unsigned long long)f.idx);
        FILE* o = fopen(path.c_str(), "w"); if (o) { fprintf(o, "history-dependent failure: rerun pbt --prop %s --seed %llu --cases %ld --workers %d (case %llu, batch starting at %llu)\n%s\n", p.id.c_str(), (unsigned long long)g_seed, cases, W, (unsigned long long)f.idx, (unsigned long long)f.batchFirst, msg.c_str()); fclose(o); }
        printf("failure depends on earlier cases in the same process: %s\nVIOLATION property=%s replay=%s\n", msg.c_str(), p.id.c_str(), path.c_str()); violations++; }
      else fprintf(stderr, "warning: %d unreproducible failure(s), first: %s\n", flaky, fails[0].msg.c_str());
    }
  }
  // samples
  std::vector<std::string> samples; std::string m;
  for (uint64_t i = 0; i < 400 && samples.size() < 3 && violations == 0; i++) {
    ev->status = 0; ev->descLen = 0; int e = newErr(); fflush(stdout); pid_t c = fork();
    if (c == 0) { childSetup(e); Ctx cc; int r = runCase(p, ev, nullptr, 0, false, hash64(g_seed, i, 0x5eed), true, &cc); ev->status = (r == 0 && cc.nontrivial) ? 1 : 3; _exit(0); }
    int st; waitpid(c, &st, 0); close(e); if (ev->status == 1) samples.push_back(std::string(ev->desc).substr(0, 1500)); }
  double wall = now() - t0;
  if (!g_out.empty()) {
    FILE* f = fopen(g_out.c_str(), "w"); if (!f) { perror(g_out.c_str()); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"discarded\":%llu,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"edges_covered\":%zu,\"edges_total\":%zu,\"corpus\":%zu,\"time_capped\":%s,\"violations\":%d,\"wall_s\":%.2f,\"labels\":{",
      p.id.c_str(), g_variant.c_str(), g_tier.c_str(), (unsigned long long)g_seed, (unsigned long long)evals, (unsigned long long)disc, dig.size(), jesc(p.rule).c_str(), covered, (size_t)(cov_end - cov_beg), corp, timeout ? "true" : "false", violations, wall);
    bool first = true; for (auto& l : labs) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true; for (auto& x : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
  }
  printf("%s[%s]: %llu cases, %zu distinct non-trivial, %zu/%zu edges, %.1fs%s\n", p.id.c_str(), g_variant.c_str(), (unsigned long long)evals, dig.size(), covered, (size_t)(cov_end - cov_beg), wall, timeout ? " (time cap)" : "");
  if (getenv("VERIF_LABELS")) for (auto& l : labs) printf("   %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  return violations ? 1 : 0;
}
