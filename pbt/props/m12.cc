// M12: the built-in synthesizer plays its sound library as the library's data say. Libraries are generated and handed over with EAS_SetSoundLibrary.
#define EAS_WT_SYNTH
#define _16_BIT_SAMPLES
#define DLS_SYNTHESIZER
#define _FILTER_ENABLED
#define _SAMPLE_RATE_44100
#define NUM_OUTPUT_CHANNELS 2
#define SCNST
extern "C" {
#include "eas_sndlib.h"
}
#include "../dc.h"
struct Lib {
  std::vector<S_WT_REGION> r; std::vector<S_ARTICULATION> a; std::vector<int16_t> smp; std::vector<EAS_U32> len, off; std::vector<S_BANK> banks; std::vector<S_PROGRAM> progs; S_EAS lib; bool filter = true;
  int wave(const std::vector<int16_t>& w) { off.push_back((EAS_U32)(smp.size() * 2)); len.push_back((EAS_U32)(w.size() * 2)); smp.insert(smp.end(), w.begin(), w.end()); return (int)off.size() - 1; }
  int art(const S_ARTICULATION& x) { a.push_back(x); return (int)a.size() - 1; }
  int rgn(int lo, int hi, int flags, int tuning, int gain, int ls, int le, int w, int art) { S_WT_REGION x; memset(&x, 0, sizeof x); x.region.keyGroupAndFlags = flags; x.region.rangeLow = lo; x.region.rangeHigh = hi; x.tuning = tuning; x.gain = gain; x.loopStart = ls; x.loopEnd = le; x.waveIndex = w; x.artIndex = art; r.push_back(x); return (int)r.size() - 1; }
  S_BANK& bank(int loc) { for (auto& b : banks) if (b.locale == loc) return b; S_BANK b; b.locale = loc; for (auto& x : b.regionIndex) x = INVALID_REGION_INDEX; banks.push_back(b); return banks.back(); }
  EAS_SNDLIB_HANDLE get() { memset((void*)&lib, 0, sizeof lib); lib.identifier = _EAS_LIBRARY_VERSION; lib.libAttr = RATE() | (filter ? LIB_FORMAT_FILTER_ENABLED : 0) | LIB_FORMAT_16_BIT_SAMPLES; smp.push_back(0); lib.pBanks = banks.data(); lib.pPrograms = progs.data(); lib.pWTRegions = r.data(); lib.pArticulations = a.data(); lib.pSampleLen = len.data(); lib.pSampleOffsets = off.data(); lib.pSamples = (EAS_SAMPLE*)smp.data(); lib.numBanks = banks.size(); lib.numPrograms = progs.size(); lib.numWTRegions = r.size(); lib.numArticulations = a.size(); lib.numSamples = off.size(); return (EAS_SNDLIB_HANDLE)&lib; }
  void all(int region) { bank(0x7900); bank(0x7800); for (auto& b : banks) for (auto& x : b.regionIndex) x = region; }
};
static const int LAST = REGION_FLAG_LAST_REGION, LOOP = REGION_FLAG_IS_LOOPED, FULL = 32767;
static S_ARTICULATION plainArt() { S_ARTICULATION x; memset(&x, 0, sizeof x); x.eg1 = {FULL, FULL, FULL, 0}; x.eg2 = {FULL, FULL, FULL, FULL}; return x; }
static void useLib(Eng& e, Lib& l) { EAS_RESULT r = EAS_SetSoundLibrary(e.h, nullptr, l.get()); REQUIRE(r == EAS_SUCCESS, "a well-formed sound library is refused: %ld", (long)r); }
static std::vector<int16_t> dcw(int v, int n = 16) { return std::vector<int16_t>(n, (int16_t)v); }
static std::vector<int16_t> sinew(int per, int amp) { std::vector<int16_t> w; for (int i = 0; i < per; i++) w.push_back((int16_t)std::lround(amp * std::sin(2 * M_PI * i / per))); return w; }
// level per wave unit of a centred note with every gain at its maximum
static double unit() { static double v = 0; if (v) return v; Lib l; l.all(l.rgn(0, 127, LOOP | LAST, -6000, FULL, 0, 16, l.wave(dcw(8000)), l.art(plainArt()))); Eng e; useLib(e, l); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mCC(0, 7, 127), mNoteOn(0, 60, 127)})); Pcm p = e.render(4); double d = levelOf(p, 3).l; REQUIRE(d > 500, "a full-level constant wave is played at %g", d); REQUIRE(std::fabs(d - levelOf(p, 3).r) <= 1, "centred note is louder on one side"); return v = d / 8000 / std::pow(127 / 128.0, 6); }
static double chanGain(int vel, int vol, int ex) { return std::pow(vel / 128.0, 2) * std::pow(vol / 128.0 * ex / 128.0, 2); }
struct Env { double v = 0; int st = 0; bool fl = true; int inc = 0;
  void eg1(const S_ENVELOPE& e, bool off) { auto mul = [&](int k) { double x = v * k / 32768; return fl ? std::floor(x) : x; }; if (off) { v = mul(e.releaseTime); if (v < 1) v = 0; st = 3; return; }
    if (st == 0) { v += e.attackTime; if (v >= FULL) { v = FULL; st = 1; } } else if (st == 1) { v = mul(e.decayTime); if (v < 1) v = 0; if (v <= e.sustainLevel) { v = e.sustainLevel; st = 2; } } }
  void eg2(const S_ENVELOPE& e, bool off) { if (off) { v = std::max(0.0, v - e.releaseTime); st = 3; return; } if (st == 0) { v += e.attackTime; if (v >= FULL) { v = FULL; st = 1; } } else if (st == 1) { v -= e.decayTime; if (v <= e.sustainLevel) { v = e.sustainLevel; st = 2; } } } };
struct Tri { long ph; double v = 0; explicit Tri(int delay) : ph(-delay) {} void step(int f) { if (ph < 0) { ph++; return; } double x = ph / 32768.0; v = x < .25 ? 4 * x : x < .75 ? 2 - 4 * x : 4 * x - 4; ph = (ph + f) & 0x7fff; } };
struct Step { int blk, cc, val; };
static std::vector<Step> steps(Gen& g, int blocks, std::initializer_list<int> ccs) { std::vector<Step> v; for (int c : ccs) { if (g.chance(1, 3)) v.push_back({0, c, (int)g.draw(128)}); if (g.chance(1, 4)) v.push_back({(int)g.draw(blocks), c, (int)g.draw(128)}); } std::stable_sort(v.begin(), v.end(), [](const Step& a, const Step& b) { return a.blk < b.blk; }); return v; }
static int at(const std::vector<Step>& v, int cc, int b, int d) { for (auto& s : v) if (s.cc == cc && s.blk <= b) d = s.val; return d; }
static std::string show(const S_ARTICULATION& a) { return fmt("eg1 %d %d %d %d eg2 %d %d %d %d lfo delay %d freq %d pitch %d gain %d eg2 pitch %d fc %d cutoff %d q %d pan %d", a.eg1.attackTime, a.eg1.decayTime, a.eg1.sustainLevel, a.eg1.releaseTime, a.eg2.attackTime, a.eg2.decayTime, a.eg2.sustainLevel, a.eg2.releaseTime, a.lfoDelay, a.lfoFreq, a.lfoToPitch, a.lfoToGain, a.eg2ToPitch, a.eg2ToFc, a.filterCutoff, a.filterQ, a.pan); }
static Pcm playLib(Ctx& c, Lib& l, int ch, int key, int vel, int off, int blocks, const std::vector<Step>& st, const Bytes& pre = {}) {
  Eng e; useLib(e, l); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), pre})); Pcm p; c.say("channel %d key %d vel %d off %d of %d;", ch, key, vel, off, blocks); for (auto& x : st) c.say(" cc%d@%d=%d", x.cc, x.blk, x.val); c.say("\n");
  for (int b = 0; b < blocks; b++) { for (auto& x : st) if (x.blk == b) e.write(s, x.cc == 128 ? Bytes{(uint8_t)(0xd0 | ch), (uint8_t)x.val} : mCC(ch, x.cc, x.val)); if (b == 0) e.write(s, mNoteOn(ch, key, vel)); if (b == off) e.write(s, mNoteOff(ch, key)); e.render(p, 1); } return p; }
static int rate(Gen& g, int blocks) { double n = std::pow(2, g.draw(1001) / 1000.0 * std::log2(blocks * 2.0)); return std::max(1, std::min(FULL, (int)(FULL / n))); }   // linear: reaches full scale in about n updates
static int decay(Gen& g) { double n = std::pow(2, g.draw(1001) / 1000.0 * 10); return std::min(FULL, (int)std::lround(32768 * std::pow(2, -1 / n))); }   // exponential: halves in n updates
static LR law(double q) { q = std::min(63.0, std::max(-63.0, q)); double th = (q + 63) / 126 * M_PI / 2; return LR{std::cos(th) * std::sqrt(2.0), std::sin(th) * std::sqrt(2.0)}; }
static void filler(Gen& g, Lib& l, bool before) { for (int n = g.draw(3); n > 0; n--) { S_ARTICULATION x = plainArt(); x.eg1.attackTime = g.draw(30000); x.pan = g.range(-63, 63); x.filterCutoff = g.draw(12000); l.art(x); } for (int n = g.draw(3); n > 0; n--) l.wave(sinew(8 + g.draw(40), g.draw(30000))); if (before) for (int n = g.draw(3); n > 0; n--) l.rgn(0, 127, LOOP | LAST, g.range(-9000, 0), g.draw(32768), 0, 8, l.wave(dcw(g.draw(30000))), l.art(plainArt())); }
static void level(Gen& g, Ctx& c) {
  Lib l; filler(g, l, true); S_ARTICULATION a = plainArt(); int blocks = 30 + g.draw(150); if (g.chance(2, 3)) a.eg1.attackTime = rate(g, blocks); if (g.chance(2, 3)) a.eg1.decayTime = decay(g); if (g.chance(2, 3)) a.eg1.sustainLevel = g.chance(1, 6) ? 0 : g.draw(32768); a.eg1.releaseTime = g.chance(1, 5) ? 0 : decay(g);
  a.eg2 = {(EAS_I16)rate(g, blocks), (EAS_I16)rate(g, blocks), (EAS_I16)g.draw(32768), (EAS_I16)rate(g, blocks)}; if (g.flip()) { a.lfoToGain = g.range(-5, 5); a.lfoFreq = g.draw(1500); a.lfoDelay = g.flip() ? 0 : g.draw(80); } if (g.chance(1, 3)) { a.lfoToPitch = g.range(-200, 200); a.eg2ToPitch = g.range(-500, 500); } if (g.chance(1, 3)) a.pan = g.range(-63, 63);
  int wv = g.range(3000, 20000), gain = g.chance(1, 3) ? FULL : g.range(2000, FULL), key = g.range(0, 127); bool drum = g.chance(1, 4); int ch = drum ? 9 : g.draw(9); l.all(l.rgn(0, 127, LOOP | LAST, g.range(-9000, -3000), gain, 0, 16, l.wave(dcw(wv)), l.art(a))); filler(g, l, false);
  bool loud = a.lfoToGain && g.flip(); int vel = loud ? g.range(120, 127) : g.range(1, 127), off = 1 + g.draw(blocks), pan = g.flip() ? 64 : g.draw(128); auto st = steps(g, blocks, {7, 11}); if (loud) st = {{0, 7, 127}}; c.say("wave %d gain %d pan %d; %s\n", wv, gain, pan, show(a).c_str()); Pcm p = playLib(c, l, ch, key, vel, off, blocks, st, mCC(ch, 10, pan));
  Env lo, hi; hi.fl = false; Tri t(a.lfoDelay); LR side = law(pan - 64 + a.pan); double full = unit() * wv; double p0 = 0, p1 = 0, mx = 0; bool was = false;
  for (int b = 0; b < blocks; b++) { lo.eg1(a.eg1, b >= off); hi.eg1(a.eg1, b >= off); t.step(a.lfoFreq); double db = t.v * a.lfoToGain, d0 = a.lfoToGain ? db - 1.15 : db, d1 = a.lfoToGain ? db + 0.15 : db; double k = chanGain(vel, at(st, 7, b, 100), at(st, 11, b, 127)) * gain / 32768.0;
    double l0 = std::min(1.0, k * std::pow(10, d0 / 20) * lo.v / 32768), l1 = std::min(1.0, k * std::pow(10, d1 / 20) * hi.v / 32768); double w0 = l0 + (p0 - l0) / 128, w1 = l1 + (p1 - l1) / 128; p0 = l0; p1 = l1; w0 = std::min(w0, l0); w1 = std::max(w1, l1); LR x = levelOf(p, b); mx = std::max(mx, w1);
    for (int s = 0; s < 2; s++) { double q = s ? x.r : x.l, f = full * (s ? side.r : side.l), e0 = f * w0 * 0.97 - full * 0.02 * w1 - 12 - full * 0.002, e1 = f * w1 * 1.03 + full * 0.02 * w1 + 12 + full * 0.002; if (std::fabs(pan - 64 + a.pan) > 0) { e0 -= full * 0.05 * w1; e1 += full * 0.05 * w1; } e0 = std::min(e0, 32700.0); if (q < e0 || q > e1) fail(fmt("block %d %s: level %g, expected %.1f..%.1f (envelope %.0f..%.0f of 32767, tremolo %.1f dB)", b, s ? "right" : "left", q, e0, e1, lo.v, hi.v, db)); }
    if (x.l > 100) was = true; }
  c.nontrivial = was && (a.eg1.attackTime < 16000 || a.eg1.decayTime < FULL || a.lfoToGain); c.label("level"); if (a.lfoToGain) c.label("tremolo"); if (a.eg1.sustainLevel == 0) c.label("no sustain"); }
// a note pressed back by the sustain pedal while it is released: at or above its sustain level it is caught, below it goes on fading
static void caught(Gen& g, Ctx& c) {
  Lib l; filler(g, l, true); S_ARTICULATION a = plainArt(); auto slowish = [&]() { double n = std::pow(2, g.draw(1001) / 1000.0 * 4.5 + 0.5); return (int)std::lround(32768 * std::pow(2, -1 / n)); }; if (g.flip()) a.eg1.attackTime = rate(g, 20); a.eg1.decayTime = slowish(); a.eg1.sustainLevel = g.chance(1, 4) ? g.draw(32768) : g.draw(12000); a.eg1.releaseTime = slowish(); int wv = g.range(5000, 14000), key = g.range(0, 127), ch = g.chance(1, 4) ? 9 : (int)g.draw(9); l.all(l.rgn(0, 127, LOOP | LAST, g.range(-9000, -3000), FULL, 0, 16, l.wave(dcw(wv)), l.art(a))); filler(g, l, false);
  int off = 1 + g.draw(g.flip() ? 6 : 40), on = off + 1 + g.draw(16), up = on + 1 + g.draw(90), blocks = up + 20 + g.draw(60); std::vector<Step> st = {{on, 64, g.range(64, 127)}, {up, 64, 0}}; c.say("wave %d; %s\n", wv, show(a).c_str()); Pcm p = playLib(c, l, ch, key, 127, off, blocks, st, mCC(ch, 7, 127));
  double full = unit() * wv * chanGain(127, 127, 127), lo = 0, hi = 0, p0 = 0, p1 = 0, sus = a.eg1.sustainLevel; int fast = std::min(a.eg1.decayTime, a.eg1.releaseTime), slow = std::max(a.eg1.decayTime, a.eg1.releaseTime); Env e0, e1; e1.fl = false; bool held = false, settled = false;
  for (int b = 0; b < blocks; b++) {
    if (b == on) { if (hi < 60 || std::fabs(hi - sus) < 100 + hi * 0.01) throw Discard(); held = lo >= sus; }
    if (b == up) held = false;
    if (b < off || !held) { e0.v = lo; e1.v = hi; e0.eg1(a.eg1, b >= off); e1.eg1(a.eg1, b >= off); lo = e0.v; hi = e1.v; }
    else { lo = std::max(std::min(lo, sus), std::floor(lo * fast / 32768)); hi = std::max(sus, hi * slow / 32768); lo = std::max(lo, std::min(sus, hi)); if (hi - sus < 1) settled = true; }
    double w0 = std::min(lo, lo + (p0 - lo) / 128) / 32768, w1 = std::max(hi, hi + (p1 - hi) / 128) / 32768; p0 = lo; p1 = hi; LR x = levelOf(p, b); for (int s = 0; s < 2; s++) { double q = s ? x.r : x.l; if (q < full * w0 * 0.97 - full * 0.022 * w1 - 12 - full * 0.002 || q > full * w1 * 1.05 + 12 + full * 0.002) fail(fmt("block %d: level %g, expected %.0f..%.0f (%s, sustain level %.0f)", b, q, full * w0, full * w1, held ? "caught by the pedal" : b >= off ? "released" : "held", full * sus / 32768)); } }
  c.nontrivial = true; c.label("caught or not"); if (settled) c.label("caught, at the sustain level"); }
// a voice that has played another note before sounds the next one like a fresh one
static S_ARTICULATION anyArt(Gen& g) { S_ARTICULATION a = plainArt(); a.eg1 = {(EAS_I16)rate(g, 30), (EAS_I16)decay(g), (EAS_I16)g.draw(32768), (EAS_I16)(g.flip() ? 0 : g.draw(26000))}; a.eg2 = {(EAS_I16)rate(g, 60), (EAS_I16)rate(g, 60), (EAS_I16)g.draw(32768), (EAS_I16)rate(g, 60)}; if (g.flip()) { a.lfoFreq = g.draw(1500); a.lfoDelay = g.draw(80); a.lfoToPitch = g.range(-300, 300); a.lfoToGain = g.range(-5, 5); } if (g.flip()) { a.filterCutoff = g.range(4000, 11000); a.filterQ = g.draw(27); a.eg2ToFc = g.flip() ? 0 : g.range(-2000, 2000); } if (g.flip()) a.eg2ToPitch = g.range(-500, 500); if (g.flip()) a.pan = g.range(-63, 63); return a; }
static void reused(Gen& g, Ctx& c) {
  Lib l; std::vector<int> starts; int n = 2 + g.draw(3); for (int i = 0; i < n; i++) { int per = 8 + g.draw(120); bool noise = g.chance(1, 6), loop = noise || g.chance(3, 4); std::vector<int16_t> w = sinew(per, g.range(4000, 14000)); if (!loop) for (int k = 0; k < 6; k++) w.insert(w.end(), w.begin(), w.begin() + per); starts.push_back(l.rgn(0, 127, (loop ? LOOP : 0) | LAST | (noise ? REGION_FLAG_USE_WAVE_GENERATOR : 0), -6000 + g.range(-900, 900), g.range(8000, FULL), 0, per, l.wave(w), l.art(anyArt(g)))); }
  for (int x : {0x7900, 0x7800}) { auto& b = l.bank(x); for (int i = 0; i < 128; i++) b.regionIndex[i] = starts[i % n]; } l.filter = g.chance(5, 6);
  int prev = 1 + g.draw(3), blocks = 20 + g.draw(60); Bytes setup = cat({sysMasterVol(16383), mCC(1, 1, g.draw(128)), Bytes{0xd1, (uint8_t)g.draw(128)}, mCC(1, 10, g.draw(128)), mProg(1, g.draw(n)), mBend(1, g.draw(16384))}), before; struct N { int pr, key, len; }; std::vector<N> ns; int key = g.range(50, 70), vel = g.range(60, 127), at = g.draw(3); for (int i = 0; i < prev; i++) ns.push_back({(int)g.draw(n), g.range(50, 70), 1 + (int)g.draw(g.flip() ? 4 : 60)});
  auto play = [&](bool used) { Eng e; useLib(e, l); EAS_HANDLE s = e.live(); REQUIRE(EAS_SetSynthPolyphony(e.h, 0, 1) == EAS_SUCCESS, "polyphony"); e.write(s, setup); for (auto& x : ns) { if (used) e.write(s, cat({mProg(0, x.pr), mNoteOn(0, x.key, 127)})); e.skip(x.len); if (used) e.write(s, mNoteOff(0, x.key)); e.skip(70); } Pcm z = e.render(1); REQUIRE(allZero(z), "a note that fades by a fifth in every block is heard 70 blocks after its end"); e.skip(at); e.write(s, mNoteOn(1, key, vel)); Pcm p; e.render(p, blocks); e.write(s, mNoteOff(1, key)); e.render(p, 10); return p; };
  for (auto& x : ns) c.say("program %d key %d for %d blocks, ", x.pr, x.key, x.len); c.say("then %s key %d; library %s filters\n", hexs(setup).c_str(), key, l.filter ? "with" : "without"); for (auto& x : l.a) c.say("%s\n", show(x).c_str()); Pcm p = play(false), q = play(true); requireSame(p, q, "a note played by a fresh voice vs. by one that has played others"); c.nontrivial = peak(p) > 100; c.label("used voice"); }
static double freqOf(const Pcm& p, int b, double* amp = nullptr) { int n = BLK(); const int16_t* q = p.data() + (size_t)b * 2 * n; double sy = 0, sx = 0; for (int i = 1; i + 1 < n; i++) { double y = q[2 * i]; sy += y * y; sx += y * ((double)q[2 * i - 2] + q[2 * i + 2]); } if (amp) *amp = std::sqrt(2 * sy / n); if (sy == 0) return 0; double cw = sx / (2 * sy); return cw >= 1 ? 0 : std::acos(std::max(-1.0, cw)) * RATE() / (2 * M_PI); }
static void pitch(Gen& g, Ctx& c) {
  Lib l; filler(g, l, true); S_ARTICULATION a = plainArt(); int blocks = 40 + g.draw(160); a.eg1.releaseTime = 32600;
  if (g.chance(2, 3)) { a.lfoToPitch = g.range(-300, 300); a.lfoFreq = g.draw(1500); a.lfoDelay = g.flip() ? 0 : g.draw(80); } else a.lfoFreq = g.draw(1500);
  if (g.chance(2, 3)) { a.eg2ToPitch = g.range(-700, 700); a.eg2 = {(EAS_I16)rate(g, blocks), (EAS_I16)rate(g, blocks), (EAS_I16)(g.chance(1, 5) ? 0 : g.draw(32768)), (EAS_I16)rate(g, blocks)}; }
  bool drum = g.chance(1, 4); int ch = drum ? 9 : g.draw(9), key = g.range(0, 127), base = g.range(-600, 600), tun = base - key * 100, bend = g.chance(1, 3) ? (int)g.draw(16384) : 8192, sens = g.chance(1, 3) ? (int)g.draw(4) : 2;
  l.all(l.rgn(0, 127, LOOP | LAST, tun, FULL, 0, 32, l.wave(sinew(32, 8000)), l.art(a))); filler(g, l, false);
  int off = 1 + g.draw(blocks); auto st = steps(g, blocks, {1, 128}); c.say("tuning %d bend %d of %d semitones; %s\n", tun, bend, sens, show(a).c_str());
  Pcm p = playLib(c, l, ch, key, 127, off, blocks, st, cat({mCC(ch, 101, 0), mCC(ch, 100, 0), mCC(ch, 6, sens), mCC(ch, 7, 127), Bytes{(uint8_t)(0xe0 | ch), (uint8_t)(bend & 127), (uint8_t)(bend >> 7)}})); Env e2; Tri t(a.lfoDelay); double f0 = RATE() / 32.0, lo = 1e9, hi = -1e9;
  for (int b = 0; b < blocks; b++) { e2.eg2(a.eg2, b >= off); t.step(a.lfoFreq); double want = base + sens * 100 * (bend - 8192) / 8192.0 + t.v * (a.lfoToPitch + 50 * at(st, 1, b, 0) / 128.0 + 50 * at(st, 128, b, 0) / 128.0) + e2.v / 32768 * a.eg2ToPitch; double am, f = freqOf(p, b, &am); if (b && am < 1200) { REQUIRE(b > off + 20, "block %d: amplitude %.0f", b, am); continue; } if (b == 0) continue; double cents = 1200 * std::log2(std::max(1.0, f) / f0); lo = std::min(lo, cents); hi = std::max(hi, cents); if (std::fabs(cents - want) > 9) fail(fmt("block %d: pitch %.1f cents from the wave's, expected %.1f (LFO %.3f, EG2 %.0f)", b, cents, want, t.v, e2.v)); }
  c.nontrivial = hi - lo > 30 || std::abs(base) > 30; c.label("pitch"); if (a.eg2ToPitch) c.label("envelope 2"); if (a.lfoToPitch) c.label("vibrato"); }
static double rmsOf(const Pcm& p, int b0, int b1) { double s = 0; int n = 0; for (int i = b0 * BLK(); i < b1 * BLK(); i++, n++) s += (double)p[2 * i] * p[2 * i]; return std::sqrt(2 * s / n); }
static void tone(Gen& g, Ctx& c) {
  double hz = 800 * std::pow(2, g.draw(1001) / 1000.0 * 2.3), r = g.pick({0.125, 0.25, 1.0, 2.0, 3.0}); int q = g.flip() ? 0 : g.draw(27), key = g.range(0, 127); double f = hz * r; if (f > 12000) { r = 0.25; f = hz * r; } bool on = g.chance(5, 6);
  int e2fc = g.flip() ? 0 : g.range(-3000, 3000), sus = g.draw(32768); int fc = (int)std::lround(6900 + 1200 * std::log2(hz / 440)) - (int)std::lround(e2fc * sus / 32768.0);
  auto play = [&](bool filtered) { Lib l; l.filter = on; S_ARTICULATION a = plainArt(); a.eg2 = {FULL, FULL, (EAS_I16)sus, FULL}; if (filtered) { a.filterCutoff = fc; a.filterQ = q; a.eg2ToFc = e2fc; } int tun = (int)std::lround(1200 * std::log2(f * 64 / RATE())) - key * 100; l.all(l.rgn(0, 127, LOOP | LAST, tun, 5000, 0, 64, l.wave(sinew(64, 12000)), l.art(a))); Eng e; useLib(e, l); EAS_HANDLE s = e.live(); e.write(s, cat({mCC(0, 7, 127), mNoteOn(0, key, 127)})); return e.render(16); };
  double dry = rmsOf(play(false), 5, 16), wet = rmsOf(play(true), 5, 16), db = 20 * std::log10(std::max(0.5, wet) / dry), Q = 0.75 * q, l0, l1; c.say("sine %.0f Hz, cutoff %.0f Hz (%d%+d*%d/32768 cents), Q index %d, library %s filters: %.1f dB (dry %.0f)\n", f, hz, fc, e2fc, sus, q, on ? "with" : "without", db, dry);
  if (!on) l0 = -0.05, l1 = 0.05; else if (r < 0.3) { l0 = -Q / 2 - 1.6; l1 = -Q / 2 + 1.6; } else if (r == 1) { l0 = -5 - Q / 4; l1 = 4.5; } else { double want = -40 * std::log10(r) - Q / 2; l0 = want - 4; l1 = want + 4.5; }
  if (db < l0 || db > l1) fail(fmt("sine of %.0f Hz through a filter at %.0f Hz, Q %.1f dB%s: %.1f dB, expected %.1f..%.1f", f, hz, Q, on ? "" : " (library without filters)", db, l0, l1)); c.nontrivial = true; c.label("filter"); }
static void noise(Gen& g, Ctx& c) {
  double cents = -g.draw(7001); if (g.chance(1, 6)) cents = g.draw(1200); int key = g.range(0, 127), gain = g.range(3000, 12000), vel = g.range(80, 127); Lib l; filler(g, l, true); S_ARTICULATION a = plainArt(); l.all(l.rgn(0, 127, REGION_FLAG_USE_WAVE_GENERATOR | LAST | (g.flip() ? LOOP : 0), (int)cents - key * 100, gain, 0, 16, l.wave(dcw(100)), l.art(a))); double D = std::pow(2, -cents / 1200); int pre = (int)std::ceil(20 * D / BLK()) + 2, blocks = pre + 10 + (int)std::ceil(150 * D / BLK());
  Pcm p = playLib(c, l, 0, key, vel, blocks, blocks, {}, mCC(0, 7, 127)); c.say("noise at %.0f cents (%.2f frames a step) gain %d\n", cents, D, gain); double e2 = 0, d2 = 0; int pk = 0; long n = 0; double amp = unit() * chanGain(vel, 127, 127) * gain / 32768 * 32768;   // level of a full-scale wave
  for (size_t i = (size_t)pre * BLK(); i + 1 < p.size() / 2; i++, n++) { double x = p[2 * i], d = p[2 * i + 2] - x; e2 += x * x; d2 += d * d; pk = std::max(pk, std::abs((int)p[2 * i])); } double rms = std::sqrt(e2 / n), ratio = d2 / e2; c.say("peak %d rms %.0f step ratio %.5f; a full-scale wave has %.0f\n", pk, rms, ratio, amp);
  if (pk > amp * 1.03 + 4) fail(fmt("noise peaks at %d; a full-scale wave at the same gain has %.0f", pk, amp)); double want = D >= 1 ? 0.5 : 0.577; if (rms < amp * want * 0.6 || rms > amp * 0.577 * 1.25) fail(fmt("noise has an RMS level of %.0f, a full-scale wave at the same gain %.0f", rms, amp));
  if (D >= 4) { double lo = 1.1 / D / D, hi = 3.6 / D / D + 4.0 / (rms * rms); if (ratio < lo || ratio > hi) fail(fmt("noise at %.2f frames a step changes by %.4f of its energy a frame, expected %.4f..%.4f", D, ratio, lo, hi)); } c.nontrivial = true; c.label("noise"); }
// which region a note gets
static void lookup(Gen& g, Ctx& c) {
  Lib l; std::vector<int> wv; std::vector<std::vector<int>> chain; std::vector<double> lev; int nr = 0; auto newChain = [&]() { int start = l.r.size(), lo = g.chance(2, 3) ? 0 : g.draw(40), n = 1 + g.draw(4); for (int i = 0; i < n; i++) { int hi = i + 1 == n && g.chance(2, 3) ? 127 : std::min(127, lo + (int)g.draw(60)); nr++; int v = 800 + (int)((nr * 7919LL) % 113) * 100; l.rgn(lo, hi, LOOP | (i + 1 == n ? LAST : 0), -6000, FULL, 0, 16, l.wave(dcw(v)), 0); wv.push_back(v); lo = std::min(127, hi + 1 + (g.chance(1, 4) ? (int)g.draw(10) : 0)); } return start; };
  l.art(plainArt()); std::vector<int> starts; for (int n = 1 + g.draw(5); n > 0; n--) starts.push_back(newChain()); auto any = [&]() { return starts[g.draw(starts.size())]; };
  std::vector<int> locs = {0x7900, 0x7800}; for (int n = g.draw(4); n > 0; n--) { int m = g.pick({0x79, 0x78, 0, 1, 0x79, (int)g.draw(128)}); locs.push_back(m << 8 | (int)g.draw(g.flip() ? 4 : 128)); } for (int x : locs) { if (g.chance(1, 5) && x != 0x7900 && x != 0x7800) { } else if (g.chance(3, 4)) { S_BANK& b = l.bank(x); for (auto& y : b.regionIndex) if (g.chance(1, 3)) y = any(); } for (int n = g.draw(5); n > 0; n--) l.progs.push_back({(EAS_U32)((x << 8) | g.draw(128)), (EAS_U16)any()}); }
  for (int x : {0x7900, 0x7800}) { bool have = false; for (auto& b : l.banks) if (b.locale == x && b.regionIndex[0] != INVALID_REGION_INDEX) have = true; for (auto& q : l.progs) if (q.locale == (EAS_U32)x << 8) have = true; if (!have) { if (g.flip()) l.bank(x).regionIndex[0] = any(); else l.progs.push_back({(EAS_U32)x << 8, (EAS_U16)any()}); } }
  auto find = [&](int bank, int prog) -> int { for (auto& b : l.banks) if (b.locale == bank) { if (b.regionIndex[prog] != INVALID_REGION_INDEX) return b.regionIndex[prog]; break; } for (auto& q : l.progs) if (q.locale == (EAS_U32)((bank << 8) | prog)) return q.regionIndex; return -1; };
  struct Ch { int bank, rgn; bool rhythm; } ch[16]; auto sel = [&](Ch& x, int prog) { if ((x.bank & 0xff00) == 0x7800) x.rhythm = true; else if ((x.bank & 0xff00) == 0x7900) x.rhythm = false; int r = find(x.bank, prog), d = x.rhythm ? 0x7800 : 0x7900; if (r < 0) r = find(d, prog); if (r < 0) r = find(d, 0); x.rgn = r; }; for (int i = 0; i < 16; i++) { ch[i].rhythm = i == 9; ch[i].bank = i == 9 ? 0x7800 : 0x7900; sel(ch[i], 0); }
  Eng e; useLib(e, l); EAS_HANDLE s = e.live(); e.write(s, sysMasterVol(16383)); double k = unit() * chanGain(127, 127, 127); int heard = 0, silent = 0; for (int i = 0; i < 16; i++) e.write(s, mCC(i, 7, 127));
  for (int n = 4 + g.draw(20); n > 0; n--) { int i = g.chance(1, 4) ? 9 : g.draw(16); Bytes m; bool chg = g.chance(3, 4); if (chg) { int loc = g.chance(3, 4) ? locs[g.draw(locs.size())] : (int)g.draw(128) << 8 | (int)g.draw(128); if (g.chance(2, 3)) { app(m, mCC(i, 0, loc >> 8)); ch[i].bank = loc & 0xff00; } if (g.chance(2, 3)) { app(m, mCC(i, 32, loc & 127)); ch[i].bank = (ch[i].bank & 0xff00) | (loc & 127); } }
    if (chg && g.chance(7, 8)) { int pr = g.chance(1, 4) ? 0 : g.draw(128); if (g.flip() && !l.progs.empty()) pr = l.progs[g.draw(l.progs.size())].locale & 127; app(m, mProg(i, pr)); sel(ch[i], pr); }
    int key = g.flip() ? g.draw(128) : 48 + g.draw(24), want = -1; for (int r = ch[i].rgn; r >= 0; r++) { if (key >= l.r[r].region.rangeLow && key <= l.r[r].region.rangeHigh) { want = r; break; } if (l.r[r].region.keyGroupAndFlags & LAST) break; }
    app(m, mNoteOn(i, key, 127)); e.write(s, m); Pcm p = e.render(3); double x = levelOf(p, 2).l, y = want < 0 ? 0 : wv[want] * k; c.say("%s: bank %04x region %d key %d -> %g (want %.0f)\n", hexs(m).c_str(), ch[i].bank, want, key, x, y); if (std::fabs(x - y) > 3 + y * 0.004) { std::string t; for (size_t j = 0; j < wv.size(); j++) if (std::fabs(wv[j] * k - x) < 4) t += fmt(" %zu", j); fail(fmt("channel %d bank %04x key %d: level %g, expected region %d with %.0f; that level belongs to region%s", i, ch[i].bank, key, x, want, y, t.c_str())); } (want < 0 ? silent : heard)++;
    e.write(s, mNoteOff(i, key)); e.skip(3); Pcm z = e.render(1); REQUIRE(allZero(z), "a note with immediate release still sounds"); }
  c.nontrivial = heard >= 2; c.label("lookup"); if (silent) c.label("no region"); }
// key groups and repeated notes
static void groups(Gen& g, Ctx& c) {
  Lib l; int n = 2 + g.draw(5); std::vector<int> grp, wv; std::vector<bool> nse; for (int i = 0; i < n; i++) { grp.push_back(g.flip() ? 0 : 1 + g.draw(3) * 7); nse.push_back(g.flip()); wv.push_back(400 + i * 331); l.rgn(i * 8, i * 8 + 7, LOOP | (grp[i] << 8) | (nse[i] ? REGION_FLAG_NON_SELF_EXCLUSIVE : 0) | (i + 1 == n ? LAST : 0), -6000, FULL, 0, 16, l.wave(dcw(wv[i])), 0); } l.art(plainArt()); l.all(0);
  Eng e; useLib(e, l); EAS_HANDLE s = e.live(); e.write(s, cat({sysMasterVol(16383), mCC(0, 7, 127), mCC(9, 7, 127)})); double k = unit() * chanGain(127, 127, 127); struct V { int ch, key; }; std::vector<V> on; int cut = 0, lim = 0;
  for (int t = 3 + g.draw(14); t > 0; t--) { int ch = g.flip() ? 0 : 9, z = g.draw(n), key = z * 8 + g.draw(g.flip() ? 2 : 8); auto zone = [&](const V& v) { return v.key / 8; };
    if (grp[z]) { size_t was = on.size(); on.erase(std::remove_if(on.begin(), on.end(), [&](const V& v) { return v.ch == ch && grp[zone(v)] == grp[z]; }), on.end()); cut += was != on.size(); }
    if (!nse[z]) { int same = 0; for (auto& v : on) same += v.ch == ch && v.key == key; if (same >= 2) { for (size_t i = 0; i < on.size(); i++) if (on[i].ch == ch && on[i].key == key) { on.erase(on.begin() + i); break; } lim++; } }
    on.push_back({ch, key}); e.write(s, mNoteOn(ch, key, 127)); Pcm p = e.render(5); double y = 0; for (auto& v : on) y += wv[zone(v)] * k; double x = levelOf(p, 4).l; c.say("ch %d key %d group %d%s -> %g (want %.0f, %zu notes)\n", ch, key, grp[z], nse[z] ? " repeatable" : "", x, y, on.size()); if (std::fabs(x - y) > 3 + on.size() * 2 + y * 0.004) fail(fmt("after key %d (group %d) on channel %d: level %g, expected %.0f from %zu sounding notes", key, grp[z], ch, x, y, on.size())); if (y > 26000) break; }
  c.nontrivial = cut || lim; c.label("groups"); }
// the samples themselves
static void content(Gen& g, Ctx& c) {
  Lib l; filler(g, l, true); bool loop = g.chance(2, 3); int n = loop ? 2 + g.draw(g.flip() ? 30 : 900) : 700 + g.draw(2500), ls = 0, le = n; if (loop) { ls = g.draw(n - 1); le = ls + 2 + (n - ls > 2 ? g.draw(n - ls - 1) : 0); le = std::min(le, n); } std::vector<int16_t> w; for (int i = 0; i < n; i++) w.push_back((int16_t)(g.draw(28001) - 14000)); int oct = loop && le - ls < 8 ? 0 : g.range(-1, 1), key = g.range(0, 127);
  l.all(l.rgn(0, 127, (loop ? LOOP : 0) | LAST, -100 * key + 1200 * oct, FULL, ls, le, l.wave(w), l.art(plainArt()))); filler(g, l, false); int blocks = 4 + g.draw(20); if (!loop) blocks = n * (oct < 0 ? 2 : 1) / BLK() + 4; Pcm p = playLib(c, l, 0, key, 127, blocks, blocks, {}, mCC(0, 7, 127)); double k = unit() * chanGain(127, 127, 127); c.say("%d samples, %s %d..%d, %+d octaves\n", n, loop ? "loop" : "no loop", ls, le, oct);
  auto idx = [&](long i) { return i < le ? i : loop ? ls + (i - ls) % (le - ls) : -1L; }; long endAt = loop ? 1L << 60 : (long)((n - 1) / std::pow(2, oct)); double tol = 6 + k * 8;
  for (int i = BLK(); i < blocks * BLK(); i++) { if (i >= endAt - 3 && i <= endAt + 3) continue; double y = 0; if (i < endAt) { if (oct == 0) y = w[idx(i)]; else if (oct > 0) y = w[idx(2L * i)]; else { y = w[idx(i / 2)]; if (i & 1) y = (y + w[idx(idx(i / 2) + 1)]) / 2; } } y = std::min(32767.0, std::max(-32768.0, y * k)); for (int s = 0; s < 2; s++) if (std::fabs(p[2 * i + s] - y) > tol + std::fabs(y) * 0.003 + (oct ? i * 6e-4 * 28000 * k : 0)) fail(fmt("frame %d: %d, expected %.0f (sample %ld)", i, p[2 * i + s], y, idx(oct > 0 ? 2L * i : oct < 0 ? i / 2 : i))); }
  c.nontrivial = true; c.label("samples"); if (!loop) c.label("one shot"); }
// which library a stream plays from
static void randLib(Gen& g, Lib& l, int sign, int regions) {
  for (int n = 1 + g.draw(4); n > 0; n--) { S_ARTICULATION a = plainArt(); if (g.flip()) { a.eg1.attackTime = rate(g, 30); a.eg1.decayTime = decay(g); a.eg1.sustainLevel = g.draw(32768); a.eg1.releaseTime = decay(g) / 2; } a.pan = g.chance(1, 3) ? g.range(-63, 63) : 0; l.art(a); }
  std::vector<int> starts{0}; for (int i = 0; i < regions; i++) { bool last = i + 1 == regions || g.flip(); int lo = starts.back() == i ? 0 : (int)l.r.back().region.rangeHigh + 1; lo = std::min(lo, 127); int hi = last ? 127 : std::min(127, lo + (int)g.draw(50)); int n = 4 + g.draw(30); l.rgn(lo, hi, LOOP | (last ? LAST : 0), -6000 + g.range(-300, 300), g.range(8000, FULL), 0, n, l.wave(dcw(sign * g.range(500, 1500), n)), g.draw(l.a.size())); if (last && i + 1 < regions) starts.push_back(i + 1); }
  for (int x : {0x7900, 0x7800, 0x7901}) { auto& b = l.bank(x); for (auto& y : b.regionIndex) y = starts[g.draw(starts.size())]; } }
static void songlib(Gen& g, Ctx& c) {
  HistOpts o; o.maxEvents = 40; o.m.chans = {0, 5, 9}; Hist h = genHist(g, o); int kind = g.draw(5); Lib A, B; randLib(g, A, -1, 1 + g.draw(20)); describe(c, h); c.say("kind %d, %zu regions\n", kind, A.r.size());
  if (kind == 0) { MemFile f(encSong(histSong(h, h.blocks))); Pcm p, q; { Eng e; useLib(e, A); e.play(f); e.render(p, h.blocks); } randLib(g, B, 1, 1 + g.draw(20)); MemFile f2(f.data); bool early = g.flip(), twice = g.flip(); { Eng e; if (early) useLib(e, B); EAS_HANDLE s = e.play(f2); if (twice) REQUIRE(EAS_SetSoundLibrary(e.h, s, B.get()) == EAS_SUCCESS, "library refused for a song"); REQUIRE(EAS_SetSoundLibrary(e.h, s, A.get()) == EAS_SUCCESS, "library refused for a song"); e.render(q, h.blocks); } c.label("song library"); c.nontrivial = h.notes && peak(p) > 50; requireSame(p, q, "library set on the prepared song vs. set before it was opened"); }
  else if (kind == 1) { randLib(g, B, 1, 1); MemFile f(encSong(histSong(h, h.blocks))); Eng e; useLib(e, A); EAS_HANDLE s = e.play(f); int k = g.draw(h.blocks); Pcm p, q; e.render(p, k); REQUIRE(EAS_SetSoundLibrary(e.h, s, B.get()) == EAS_SUCCESS, "library refused for a playing song"); e.render(q, h.blocks - k + 4); for (size_t i = 0; i < q.size(); i++) if (q[i] < -30) fail(fmt("block %zu after the library was replaced at block %d: sample %d of the old library", i / 2 / BLK() + k, k, q[i])); c.label("library replaced"); c.nontrivial = h.notes && (peak(p) > 50 || peak(q) > 50); }
  else if (kind == 2) { DcKit kit(g, 2, 2, 20000, 4, false); struct N { int ch, pr, key; }; std::vector<N> ns; for (int n = 1 + g.draw(8); n > 0; n--) { int ch = g.draw(9), pr = g.flip() ? g.draw(2) : g.draw(128); ns.push_back({ch, pr, (int)g.draw(128)}); } bool live = g.flip(); MemFile f(encSong(histSong(h, h.blocks))); std::vector<double> lev[2];
    for (int run = 0; run < 2; run++) { Eng e; kit.load(e); EAS_HANDLE s = nullptr; if (live) { if (run) REQUIRE(EAS_SetSoundLibrary(e.h, nullptr, nullptr) == EAS_SUCCESS, "no library: refused"); s = e.live(); } else { EAS_HANDLE q = e.play(f); if (run) REQUIRE(EAS_SetSoundLibrary(e.h, q, nullptr) == EAS_SUCCESS, "no library: refused"); REQUIRE(EAS_Pause(e.h, q) == EAS_SUCCESS, "pause"); REQUIRE(EAS_OpenMIDIStream(e.h, &s, q) == EAS_SUCCESS, "live stream on a song refused"); e.skip(4); }
      for (auto& n : ns) { bool own = n.pr < 2; if (!run && !own) { lev[0].push_back(0); continue; } e.write(s, cat({mProg(n.ch, n.pr), mNoteOn(n.ch, n.key, 127)})); Pcm p = e.render(3); lev[run].push_back(levelOf(p, 2).l); if (run) c.say("prog %d key %d: %g\n", n.pr, n.key, lev[1].back()); e.write(s, mNoteOff(n.ch, n.key)); e.skip(5); } }
    for (size_t i = 0; i < ns.size(); i++) if (std::fabs(lev[0][i] - lev[1][i]) > 1 || (ns[i].pr < 2 && !lev[1][i])) fail(fmt("without a sound library, program %d key %d sounds at %g, expected %g", ns[i].pr, ns[i].key, lev[1][i], lev[0][i])); c.nontrivial = true; c.label("no library"); }
  else if (kind == 3) { Pcm p, q; int k = g.draw(3); for (int run = 0; run < 2; run++) { Eng e; useLib(e, A); MemFile f(encSong(histSong(h, h.blocks))); EAS_HANDLE s = e.play(f); Pcm& o = run ? q : p; e.render(o, 2); if (run) { Lib X; randLib(g, X, 1, 2); EAS_SNDLIB_HANDLE x = X.get(); if (k == 0) X.lib.identifier ^= 1 << g.draw(32); else if (k == 1) X.lib.libAttr ^= 1 << g.draw(18); else X.lib.libAttr &= ~LIB_FORMAT_16_BIT_SAMPLES; REQUIRE(EAS_SetSoundLibrary(e.h, g.flip() ? s : nullptr, x) != EAS_SUCCESS, "a library of another version, rate or sample size is accepted"); } e.render(o, h.blocks); } c.nontrivial = h.notes && peak(p) > 50; c.label("refused library"); requireSame(p, q, "after a refused library"); }
  else { randLib(g, B, 1, 1 + g.draw(10)); Pcm p[3]; for (int run = 0; run < 3; run++) { Eng e; EAS_HANDLE s[2] = {}; useLib(e, A); s[0] = e.live(); useLib(e, B); s[1] = e.live(); if (g.flip()) useLib(e, A); size_t i = 0; for (int b = 0; b < h.blocks; b++) { for (; i < h.ev.size() && h.ev[i].blk <= b; i++) for (int t = 0; t < 2; t++) if (run == 2 || run == t) e.write(s[t], h.ev[i].b); e.render(p[run], 1); } } for (size_t i = 0; i < p[0].size(); i++) { if (std::abs(p[0][i]) > 16000 || std::abs(p[1][i]) > 16000) throw Discard(); if (h.notes <= 20 && std::abs(p[0][i] + p[1][i] - p[2][i]) > 4) fail(fmt("block %zu: streams opened under different libraries together %d, alone %d and %d", i / 2 / BLK(), p[2][i], p[0][i], p[1][i])); if (p[0][i] > 30 || p[1][i] < -30) fail(fmt("block %zu: a stream plays from a library set after it was opened", i / 2 / BLK())); } c.nontrivial = h.notes && peak(p[0]) > 50 && peak(p[1]) > 50; c.label("two libraries"); } }
static void run(Gen& g, Ctx& c) { switch (g.draw(14)) { case 12: caught(g, c); break; case 13: reused(g, c); break; case 0: case 1: level(g, c); break; case 2: case 3: pitch(g, c); break; case 4: tone(g, c); break; case 5: noise(g, c); break; case 6: case 7: lookup(g, c); break; case 8: groups(g, c); break; case 9: case 10: songlib(g, c); break; default: content(g, c); } }
static Reg r("M12", run, "random sound libraries handed to EAS_SetSoundLibrary: envelopes and tremolo on constant waves, pitch modulation on sine waves (levels and pitch of every block vs. a model of the articulation), filter response, noise level and colour, instrument and region lookup with fallbacks, key groups and repeated notes, samples and loops sample by sample, notes caught by the pedal, notes of a voice used before, libraries set for the engine, for a prepared or playing song, absent or unfit; non-trivial: the level or pitch moves, the filter is on, at least two lookups are heard, a note is cut, or the streams are audible", 300000, 10000000, 20);
