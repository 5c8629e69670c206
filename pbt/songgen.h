// Songs whose events all fall robustly inside render blocks (so block-exact oracles are implementation independent).
#pragma once
#include "music.h"
struct RateSeg { double first, second, d2; };   // song time, block length there, the same in the engine's resolution
struct SongOpts { int maxTracks = 5; int maxEvents = 60; double maxMs = 2500; bool sysex = true; bool manyTracks = true; bool tempo = true; double rate = 1.0; double minGapMs = 0; MusicOpts music; bool meta = true; double tailMs = 200; bool normVolume = true; double baseMs = 0, d2 = 0, leadMs = 0; std::vector<RateSeg> segs; };   // segs: from which blocks are counted anew; baseMs: events from there on are placed robustly in blocks counted from there
struct GenSong { Song song; std::vector<SEv> sched; double endMs = 0; uint64_t notes = 0; int tempos = 0; bool endRobust = false; };
// nudges ticks until every event is robust; division/tempo chosen so the tick grid is exact in 1/1024 ms
inline GenSong genSong(Gen& g, const SongOpts& o) {
  GenSong r; Song& s = r.song;
  auto robust = [&](double ms, double d, double tol) {
    if (!o.segs.empty()) { size_t i = 0; while (i + 1 < o.segs.size() && o.segs[i + 1].first <= ms) i++; double b = o.segs[i].first; if (i + 1 < o.segs.size() && ms + tol > o.segs[i + 1].first - 1.01) return false; if (i && ms - tol < b + 0.01) return false; return robustAt(ms, o.segs[i].second, tol, b, o.segs[i].d2); }
    return o.baseMs <= 0 ? robustAt(ms, d, tol, 0, o.d2) : ms + tol < o.baseMs - 1.01 || (ms - tol > o.baseMs + 0.01 && robustAt(ms, d, tol, o.baseMs, o.d2)); };
  int nt = o.manyTracks && g.chance(1, 20) ? 6 + g.draw(90) : 1 + g.draw(o.maxTracks);
  s.format = nt > 1 ? 1 : g.draw(2); s.tracks.resize(nt);
  s.division = g.flip() ? g.pick({24, 48, 96, 120, 192, 240, 384, 480, 960}) : g.chance(1, 8) ? g.pick({8191, 8192, 16383, 16384, 24576, 32767, g.range(4000, 32767), g.range(16384, 32767)}) : g.range(24, 4000);
  double c = 0;                                   // current tick length in 1/1024 ms
  auto exactTempo = [&](int want) -> uint32_t {    // tempo (us/quarter) whose tick is (nearly) want/1024 ms
    double us = (double)want * s.division * 1000.0 / 1024.0; if (us < 1) us = 1; if (us > 16777215) us = 16777215; uint32_t t = (uint32_t)llround(us); return t; };
  double drift = 0;                               // bound on |engine time - ideal time| so far, ms
  auto setTempo = [&](uint32_t us) { double exact = us * 1024.0 / s.division / 1000.0; c = exact; };
  setTempo(500000);
  uint32_t tick = 0, lastTempoTick = 0; int lastTempoTrack = -1; double ms = 0; int n = 1 + g.size(o.maxEvents);
  MusicGen mg(o.music); std::vector<std::pair<uint32_t, std::pair<int, Bytes>>> ev;
  bool needTempo = o.tempo && g.chance(3, 4);
  double d = BLKMS() * o.rate;
  auto tempoErr = [&]() { double e = std::fabs(std::floor(c + 0.5) - c); return e / c + 1e-4; };   // relative error of a rounded tick length
  if (o.normVolume) ev.push_back({0, {0, sysMasterVol(g.chance(1, 4) ? g.range(2000, 16383) : 16383)}});
  for (int i = 0; i < n; i++) {
    Bytes b; int tr = g.draw(nt); bool isTempo = false;
    if ((i == 0 && needTempo) || (o.tempo && g.chance(1, 14))) {
      int lo = 128, hi = (int)std::min(60000.0, 16777215.0 * 1024 / 1000 / s.division); int want = g.chance(1, 4) ? g.edge(lo, hi) : g.range(std::min(hi, 200), std::min(hi, 6000));
      b = metaTempo(exactTempo(want)); isTempo = true; r.tempos++;
    } else if (o.sysex && g.chance(1, 30)) b = g.flip() ? sysMasterVol(g.draw(16384)) : g.flip() ? sysGmOn() : g.flip() ? genMip(g, o.music.chans) : Bytes{0xF0, 0x41, 0x10, 0x42, 0x12, 0x40, 0x00, 0x7F, 0x00, 0x41, 0xF7};
    else if (o.meta && g.chance(1, 20)) { b = {0xFF, (uint8_t)g.range(1, 7)}; int l = g.draw(20); for (int k = 0; k < l; k++) b.push_back(32 + g.draw(90)); }
    else b = mg.next(g);
    // advance
    uint32_t want = 0;
    if (!g.chance(1, 3)) { double gap = g.chance(1, 8) ? g.range(0, 400) : g.range(0, 40); gap = std::max(gap, o.minGapMs); if (i < 2 && o.leadMs > 0) gap += o.leadMs; want = (uint32_t)std::ceil(gap * 1024.0 / c); }
    uint32_t nt2 = tick + want; double m2 = ms + want * c / 1024; int tries = 0; bool ok = false;
    if (want == 0) ok = true;
    else for (; tries < 64; tries++) { double tol = drift + (m2 - ms) * tempoErr() + 0.08 + (i + 2) / 256.0; if (robust(m2, d, tol)) { ok = true; break; } nt2++; m2 += c / 1024; }
    if (!ok || m2 > o.maxMs) { nt2 = tick; m2 = ms; }   // share the previous (robust) tick
    drift += (m2 - ms) * tempoErr(); tick = nt2; ms = m2;
    if (isTempo) { if (lastTempoTrack >= 0 && lastTempoTick == tick) tr = lastTempoTrack; lastTempoTick = tick; lastTempoTrack = tr; }
    ev.push_back({tick, {tr, b}});
    if (isTempo) setTempo((b[2] << 16) | (b[3] << 8) | b[4]);
  }
  for (auto& e : ev) s.tracks[e.second.first].ev.push_back({e.first, e.second.second});
  uint32_t tail = (uint32_t)std::ceil(o.tailMs * 1024 / c) + 1;
  for (int tries = 0; tries < 64 && !r.endRobust; tries++) { double m = ms + tail * c / 1024; if (robust(m, d, drift + (m - ms) * tempoErr() + 0.08 + (n + 2) / 256.0)) r.endRobust = true; else tail++; }   // whether the end is well inside a block, too
  for (auto& t : s.tracks) t.endTick = tick + tail;
  r.sched = schedule(s, &r.endMs); r.notes = mg.notes;
  return r;
}
// a song whose events come in given blocks: in the middle of each, on a 1/1024 ms tick grid
inline Song songFromBlocks(const std::vector<std::vector<Bytes>>& bl, double d, long endBlock) {
  Song s; s.format = 0; s.division = 1024; s.tracks.resize(1); auto& t = s.tracks[0]; t.ev.push_back({0, metaTempo(1000)});
  for (size_t k = 0; k < bl.size(); k++) { uint32_t tick = (uint32_t)((k + 0.5) * d * 1024); for (auto& b : bl[k]) t.ev.push_back({tick, b}); }
  t.endTick = (uint32_t)((endBlock + 0.5) * d * 1024); return s; }
inline bool isNote(const Bytes& b) { return (b[0] >> 4) == 8 || (b[0] >> 4) == 9; }
// a playback rate; mostly one whose frame length is a whole number of the engine's 1/256 ms units
inline EAS_U32 genRate(Gen& g) { int base = (int)(BLKMS() * 256); if (g.chance(1, 8)) return (EAS_U32)g.pick({1 << 27, 1 << 28, 1 << 29}); if (g.chance(1, 8)) { EAS_U32 r = (EAS_U32)g.range(1 << 27, 1 << 29); double f = base * (r / 268435456.0); f -= std::floor(f); if (f > 0.02 && f < 0.98) return r; } int m = g.range((base + 1) / 2 + 1, base * 2 - 1); return (EAS_U32)(std::ceil(m * 1048576.0 / base)) << 8; }
inline double frameMs(EAS_U32 rate) { return std::floor(std::floor(BLKMS() * 256) * (rate / (double)(1u << 28))) / 256; }   // block length in the engine's resolution
