// Song model, encoder, and independent reference scheduler.
#pragma once
#include "eng.h"
struct TEv { uint32_t tick; Bytes b; };          // b: channel message | FF type data.. (length added by encoder) | F0 data.. (incl. F7)
struct Track { std::vector<TEv> ev; uint32_t endTick = 0; };
struct Song { int format = 1; int division = 480; std::vector<Track> tracks; };

inline void putVar(Bytes& o, uint32_t v, int pad = 0) { uint8_t t[10]; int n = 0; do { t[n++] = v & 127; v >>= 7; } while (v); while (pad-- > 0 && n < 9) t[n++] = 0; while (n--) o.push_back(t[n] | (n ? 0x80 : 0)); }
inline void put16(Bytes& o, int v) { o.push_back(v >> 8); o.push_back(v & 255); }
inline void put32(Bytes& o, uint32_t v) { put16(o, v >> 16); put16(o, v & 65535); }
inline void putTag(Bytes& o, const char* t) { for (int i = 0; i < 4; i++) o.push_back(t[i]); }
inline Bytes metaTempo(uint32_t us) { return {0xFF, 0x51, (uint8_t)(us >> 16), (uint8_t)(us >> 8), (uint8_t)us}; }

struct EncOpts { bool running = true; bool eot = true; };
inline Bytes encTrack(const Track& t, const EncOpts& o = {}) {
  Bytes d; uint32_t at = 0; int run = -1;
  for (auto& e : t.ev) {
    putVar(d, e.tick - at); at = e.tick;
    uint8_t s = e.b[0];
    if (s == 0xFF) { d.push_back(s); d.push_back(e.b[1]); putVar(d, e.b.size() - 2); d.insert(d.end(), e.b.begin() + 2, e.b.end()); run = -1; }
    else if (s == 0xF0 || s == 0xF7) { d.push_back(s); putVar(d, e.b.size() - 1); d.insert(d.end(), e.b.begin() + 1, e.b.end()); run = -1; }
    else { if (!(o.running && run == s)) d.push_back(s); run = s; d.insert(d.end(), e.b.begin() + 1, e.b.end()); }
  }
  if (o.eot) { putVar(d, std::max(t.endTick, at) - at); d.push_back(0xFF); d.push_back(0x2F); d.push_back(0); }
  return d;
}
inline Bytes encSong(const Song& s, const EncOpts& o = {}) {
  Bytes f; putTag(f, "MThd"); put32(f, 6); put16(f, s.format); put16(f, (int)s.tracks.size()); put16(f, s.division);
  for (auto& t : s.tracks) { Bytes d = encTrack(t, o); putTag(f, "MTrk"); put32(f, d.size()); f.insert(f.end(), d.begin(), d.end()); }
  return f;
}
// ---- reference scheduler ----
struct SEv { double ms; uint32_t tick; int track; const Bytes* b; };
inline double smpteTickMs(int division) { int fps = 256 - ((division >> 8) & 255); int sub = division & 255; double f = fps == 29 ? 30.0 * 1000 / 1001 : fps; return 1000.0 / (f * sub); }
inline std::vector<SEv> schedule(const Song& s, double* endMs = nullptr) {
  std::vector<SEv> v; uint32_t end = 0;
  for (size_t t = 0; t < s.tracks.size(); t++) { for (auto& e : s.tracks[t].ev) { v.push_back({0, e.tick, (int)t, &e.b}); end = std::max(end, e.tick); } end = std::max(end, s.tracks[t].endTick); }
  std::stable_sort(v.begin(), v.end(), [](const SEv& a, const SEv& b) { return a.tick != b.tick ? a.tick < b.tick : a.track < b.track; });
  bool smpte = s.division & 0x8000; double tm = smpte ? smpteTickMs(s.division) : 500.0 / s.division; double ms = 0; uint32_t at = 0;
  for (auto& e : v) { ms += (e.tick - at) * tm; at = e.tick; e.ms = ms;
    if (!smpte && (*e.b)[0] == 0xFF && (*e.b)[1] == 0x51) tm = (((*e.b)[2] << 16) | ((*e.b)[3] << 8) | (*e.b)[4]) / 1000.0 / s.division; }
  if (endMs) *endMs = ms + (end - at) * tm;
  return v;
}
// block in which an event at ms (song time) is due, when blocks cover [k*d,(k+1)*d)
inline long blockOf(double ms, double d) { return (long)std::floor(ms / d); }
// block-exact rendering requires that the tick grid's rounding cannot move an event across a block or millisecond edge
inline bool robustAt(double ms, double d, double tol, double base = 0, double d2 = 0) {
  if (ms < tol && ms >= 0 && ms == 0 && base == 0) return true;
  if (d2 <= 0) d2 = std::floor(d * 256) / 256;      // the frame length truncated to 1/256 ms
  // engine may quantise to whole milliseconds (floor) on both sides: require agreement of exact and quantised placement for ms-tol..ms+tol
  long k0 = -1; for (double x : {ms - tol, ms, ms + tol}) { if (x < base) return false; for (double dd : {d, d2}) { long ex = blockOf(x - base, dd); long q = (long)std::floor(x); long kq = ex > 1 ? ex - 2 : 0; while (std::floor(base + (kq + 1) * dd + 1e-9) <= q) kq++; if (kq != ex) return false; if (k0 < 0) k0 = ex; else if (k0 != ex) return false; } }
  return true;
}
