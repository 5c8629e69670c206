// Property-based testing core: choice-sequence generators, case context, property registry.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

struct Rng {           // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
};
inline uint64_t hash64(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15) * 0xC2B2AE3D27D4EB4FULL ^ c * 0x165667B19E3779F9ULL); r.next(); return r.next(); }

// Where drawn choices go (shared memory, so they survive a crash of the child).
struct ChoiceLog { static const uint32_t MAX = 1u << 19; volatile uint32_t n; uint32_t v[MAX]; };

class Gen {
 public:
  Gen(const uint32_t* pre, size_t npre, bool replay, uint64_t seed, ChoiceLog* log)
      : pre_(pre), npre_(npre), replay_(replay), rng_(seed), log_(log) { log_->n = 0; }
  // uniform in 0..n-1; 0 is the simplest value
  uint32_t draw(uint64_t n) {
    uint32_t v;
    if (pos_ < npre_) v = n ? (uint32_t)(pre_[pos_] % n) : pre_[pos_];
    else if (replay_) v = 0;
    else v = (uint32_t)(n ? rng_.next() % n : rng_.next());
    pos_++;
    uint32_t k = log_->n;
    if (k < ChoiceLog::MAX) { log_->v[k] = v; log_->n = k + 1; } else if (!replay_) { replay_ = true; npre_ = 0; }
    return v;
  }
  int range(int lo, int hi) { if (hi < lo) return lo; return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1)); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }   // 0 => false
  bool flip() { return draw(2) != 0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  // weighted choice: returns index
  int weighted(std::initializer_list<int> w) { int s = 0; for (int x : w) s += x; int r = (int)draw(s); int i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; } return 0; }
  // range with emphasis on the ends and on small values
  int edge(int lo, int hi) {
    switch (draw(6)) { case 0: return lo; case 1: return hi; case 2: return range(lo, std::min<int64_t>(hi, (int64_t)lo + 3));
      case 3: return range((int)std::max<int64_t>(lo, (int64_t)hi - 3), hi); default: return range(lo, hi); } }
  // list sizes: geometric-ish
  int size(int max) { int k = (int)draw(4); int m = k == 0 ? max / 8 : k == 1 ? max / 4 : k == 2 ? max / 2 : max; return (int)draw(m + 1); }
  size_t pos() const { return pos_; }
 private:
  const uint32_t* pre_; size_t npre_; bool replay_; Rng rng_; ChoiceLog* log_; size_t pos_ = 0;
};

struct Ctx {
  bool verbose = false;
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }
  bool nontrivial = false;
  bool costly = false;                    // set by a case that is slow by design: kept out of the mutation corpus
  std::string desc;                       // human readable case (only if verbose)
  std::map<std::string, uint64_t> labels;
  void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
  void say(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose || desc.size() > 20000) return; char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); desc += b; }
};

typedef void (*PropFn)(Gen&, Ctx&);
struct Prop {
  std::string id; PropFn fn; const char* rule;
  long quick_cases, thorough_cases; bool san; int batch;
  double hang_s = 30;
};
std::vector<Prop>& registry();
struct Reg { Reg(const char* id, PropFn f, const char* rule, long q, long t, int batch = 20, double hang_s = 30) {
  registry().push_back(Prop{id, f, rule, q, t, false, batch, hang_s}); } };

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
}  // namespace pbt

#define REQUIRE(c, ...) do { if (!(c)) pbt::fail(pbt::fmt(__VA_ARGS__)); } while (0)
