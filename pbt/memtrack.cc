#include "memtrack.h"
#include <cstdlib>
#include <cstring>
#include <string>
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(const char*);
void* __wrap_malloc(size_t); void* __wrap_calloc(size_t, size_t); void* __wrap_realloc(void*, size_t); void __wrap_free(void*); char* __wrap_strdup(const char*); }
static const size_t N = 1 << 14;
static void* tab[N]; static size_t szs[N];
static long live_, count_, bad_, failAt_ = -1, failFrom_ = -1; static uint64_t faults_; static uint8_t poison_ = 0xA5; static const size_t LIMIT = 64u << 20;
static size_t slot(void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 50; return h & (N - 1); }
static void add(void* p, size_t s) { if (!p) return; size_t i = slot(p); for (size_t k = 0; k < N; k++, i = (i + 1) & (N - 1)) if (!tab[i] || tab[i] == (void*)1) { tab[i] = p; szs[i] = s; live_++; return; } }
static bool del(void* p, size_t* s = nullptr) { size_t i = slot(p); for (size_t k = 0; k < N; k++, i = (i + 1) & (N - 1)) { if (!tab[i]) return false; if (tab[i] == p) { tab[i] = (void*)1; if (s) *s = szs[i]; live_--; return true; } } return false; }
void mt_reset() { memset(tab, 0, sizeof tab); live_ = count_ = bad_ = 0; failAt_ = failFrom_ = -1; faults_ = 0; poison_ = 0xA5; }
void mt_fail_at(long n) { failAt_ = n < 0 ? -1 : count_ + n; }
void mt_fail_from(long n) { failFrom_ = n < 0 ? -1 : count_ + n; }
void mt_fail_off() { failAt_ = failFrom_ = -1; }
long mt_count() { return count_; } long mt_live() { return live_; } long mt_bad_frees() { return bad_; } uint64_t mt_faults() { return faults_; } void mt_poison(uint8_t b) { poison_ = b; }
static bool deny(size_t n) { long c = count_++; if (c == failAt_ || (failFrom_ >= 0 && c >= failFrom_)) { faults_++; return true; } return n > LIMIT; }
void* __wrap_malloc(size_t n) { if (deny(n)) return nullptr; void* p = __real_malloc(n); if (p) memset(p, poison_, n); add(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > LIMIT / b) { count_++; return nullptr; } if (deny(a * b)) return nullptr; void* p = __real_calloc(a, b); add(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { if (deny(n)) return nullptr; size_t old = 0; if (q && !del(q, &old)) bad_++; void* p = __real_realloc(q, n); if (p && n > old) memset((char*)p + old, poison_, n - old); add(p, n); return p; }
void __wrap_free(void* p) { if (!p) return; size_t n = 0; if (!del(p, &n)) { bad_++; return; } memset(p, 0xDD, n); __real_free(p); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
