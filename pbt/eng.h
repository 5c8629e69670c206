// Thin wrappers over the public EAS API.
#pragma once
#include "pbt.h"
#include "memtrack.h"
extern "C" {
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<int16_t> Pcm;

struct MemFile {
  Bytes data; EAS_FILE loc; long calls = 0; long failAt = -1; bool failForever = false; int failMode = 0; uint64_t faults = 0; bool closed = false;
  explicit MemFile(Bytes d = {}) : data(std::move(d)) { loc.handle = this; loc.readAt = rd; loc.size = sz; }
  MemFile(const MemFile&) = delete;
  static int rd(void* h, void* buf, int off, int n) {
    MemFile* m = (MemFile*)h; long c = m->calls++;
    int avail = off < 0 || (size_t)off > m->data.size() ? 0 : (int)std::min<size_t>((size_t)std::max(n, 0), m->data.size() - off);
    if (m->failAt >= 0 && (c == m->failAt || (m->failForever && c > m->failAt))) {
      m->faults++;
      if (m->failMode == 0) return -1;
      if (m->failMode == 1) return 0;
      avail = avail / 2;
    }
    if (avail > 0) memcpy(buf, m->data.data() + off, avail);
    return avail;
  }
  static int sz(void* h) { return (int)((MemFile*)h)->data.size(); }
};

inline int BLK() { return (int)EAS_Config()->mixBufferSize; }
inline int RATE() { return (int)EAS_Config()->sampleRate; }
inline double BLKMS() { return 1000.0 * BLK() / RATE(); }

struct Eng {
  EAS_DATA_HANDLE h = nullptr; bool strict = true;
  explicit Eng(bool strict_ = true) : strict(strict_) { EAS_RESULT r = EAS_Init(&h); if (strict) REQUIRE(r == EAS_SUCCESS && h, "EAS_Init failed: %ld", (long)r); else if (r != EAS_SUCCESS) h = nullptr; }
  ~Eng() { if (h) EAS_Shutdown(h); }
  Eng(const Eng&) = delete;
  void shutdown() { if (h) { EAS_RESULT r = EAS_Shutdown(h); h = nullptr; REQUIRE(r == EAS_SUCCESS, "EAS_Shutdown: %ld", (long)r); } }
  // render n blocks, appended to out
  void render(Pcm& out, int n = 1) {
    int w = BLK() * 2; size_t o = out.size(); out.resize(o + (size_t)w * n, 0x55AA & 0x7fff);
    for (int i = 0; i < n; i++) { EAS_I32 got = -1; EAS_RESULT r = EAS_Render(h, out.data() + o + (size_t)i * w, BLK(), &got);
      REQUIRE(r == EAS_SUCCESS, "EAS_Render: %ld", (long)r); REQUIRE(got == BLK(), "EAS_Render produced %ld frames", (long)got); } }
  Pcm render(int n) { Pcm p; render(p, n); return p; }
  void skip(int n) { Pcm p; render(p, n); }
  EAS_HANDLE open(MemFile& f) { EAS_HANDLE s = nullptr; EAS_RESULT r = EAS_OpenFile(h, &f.loc, &s); REQUIRE(r == EAS_SUCCESS && s, "EAS_OpenFile: %ld", (long)r); return s; }
  EAS_HANDLE play(MemFile& f) { EAS_HANDLE s = open(f); EAS_RESULT r = EAS_Prepare(h, s); REQUIRE(r == EAS_SUCCESS, "EAS_Prepare: %ld", (long)r); return s; }
  EAS_HANDLE live() { EAS_HANDLE s = nullptr; EAS_RESULT r = EAS_OpenMIDIStream(h, &s, nullptr); REQUIRE(r == EAS_SUCCESS && s, "EAS_OpenMIDIStream: %ld", (long)r); return s; }
  void write(EAS_HANDLE s, const Bytes& b) { if (b.empty()) return; Bytes c = b; EAS_RESULT r = EAS_WriteMIDIStream(h, s, c.data(), (EAS_I32)c.size()); REQUIRE(r == EAS_SUCCESS, "EAS_WriteMIDIStream: %ld", (long)r); }
  void closeLive(EAS_HANDLE s) { EAS_RESULT r = EAS_CloseMIDIStream(h, s); REQUIRE(r == EAS_SUCCESS, "EAS_CloseMIDIStream: %ld", (long)r); }
  void closeFile(EAS_HANDLE s) { EAS_RESULT r = EAS_CloseFile(h, s); REQUIRE(r == EAS_SUCCESS, "EAS_CloseFile: %ld", (long)r); }
  long loc(EAS_HANDLE s) { EAS_I32 t = -1; EAS_RESULT r = EAS_GetLocation(h, s, &t); REQUIRE(r == EAS_SUCCESS, "EAS_GetLocation: %ld", (long)r); return (long)t; }
  long state(EAS_HANDLE s) { EAS_STATE t = -1; EAS_RESULT r = EAS_State(h, s, &t); REQUIRE(r == EAS_SUCCESS, "EAS_State: %ld", (long)r); return (long)t; }
  EAS_RESULT loadDLS(MemFile& f, EAS_HANDLE s = nullptr) { return EAS_LoadDLSCollection(h, s, &f.loc); }
};

inline long firstDiff(const Pcm& a, const Pcm& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)i; return a.size() == b.size() ? -1 : (long)n; }
inline void requireSame(const Pcm& a, const Pcm& b, const char* what) {
  long d = firstDiff(a, b); if (d < 0) return;
  fail(fmt("%s: samples differ at block %ld frame %ld ch %ld: %d vs %d (lengths %zu/%zu)", what, d / (2 * BLK()), (d / 2) % BLK(), d & 1, d < (long)a.size() ? a[d] : 99999, d < (long)b.size() ? b[d] : 99999, a.size(), b.size())); }
inline bool allZero(const Pcm& p, size_t from = 0) { for (size_t i = from; i < p.size(); i++) if (p[i]) return false; return true; }
inline int peak(const Pcm& p, size_t from = 0) { int m = 0; for (size_t i = from; i < p.size(); i++) m = std::max(m, std::abs((int)p[i])); return m; }
inline double energy(const Pcm& p, size_t from = 0, size_t to = (size_t)-1) { double e = 0; for (size_t i = from; i < p.size() && i < to; i++) e += (double)p[i] * p[i]; return e; }
inline std::string hexs(const Bytes& b, size_t max = 48) { std::string s; for (size_t i = 0; i < b.size() && i < max; i++) s += fmt("%02x", b[i]); if (b.size() > max) s += fmt("..(%zu)", b.size()); return s; }

// ---- MIDI message helpers ----
inline Bytes mNoteOn(int c, int k, int v) { return {(uint8_t)(0x90 | c), (uint8_t)k, (uint8_t)v}; }
inline Bytes mNoteOff(int c, int k, int v = 64) { return {(uint8_t)(0x80 | c), (uint8_t)k, (uint8_t)v}; }
inline Bytes mCC(int c, int n, int v) { return {(uint8_t)(0xB0 | c), (uint8_t)n, (uint8_t)v}; }
inline Bytes mProg(int c, int p) { return {(uint8_t)(0xC0 | c), (uint8_t)p}; }
inline Bytes mPress(int c, int p) { return {(uint8_t)(0xD0 | c), (uint8_t)p}; }
inline Bytes mPoly(int c, int k, int p) { return {(uint8_t)(0xA0 | c), (uint8_t)k, (uint8_t)p}; }
inline Bytes mBend(int c, int v14) { return {(uint8_t)(0xE0 | c), (uint8_t)(v14 & 127), (uint8_t)(v14 >> 7)}; }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
inline void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline const Bytes& sysGmOn() { static Bytes b{0xF0, 0x7E, 0x7F, 0x09, 0x01, 0xF7}; return b; }
inline Bytes sysMasterVol(int v14) { return {0xF0, 0x7F, 0x7F, 0x04, 0x01, (uint8_t)(v14 & 127), (uint8_t)(v14 >> 7), 0xF7}; }
inline int msgLen(uint8_t st) { switch (st >> 4) { case 0xC: case 0xD: return 2; default: return 3; } }
