#include "../dc.h"
// M01: every note ends when told to; silence is exactly silence.
struct VNote { int st, ch, key, prog; bool ped; };     // a sounding voice of the model
struct M01Model { std::vector<VNote> v; std::map<std::pair<int, int>, bool> pedal; std::map<std::pair<int, int>, int> prog, bank; std::map<std::pair<int, int>, int> offBlk;
  int progOf(int s, int c) { return prog.count({s, c}) ? prog[{s, c}] : 0; } };
static void model(Gen& g, Ctx& c) {
  bool two = g.flip(); c.say(two ? "at most two voices per key\n" : "any number of voices per key\n"); DcKit kit(g, 1 + g.draw(3), 1 + g.draw(4), g.pick({3000, 6000, 12000, 24000}), 0, !two); describe(c, kit.d); kit.calibrate(); double mx = 0; for (auto& a : kit.lev) for (double x : a) mx = std::max(mx, std::fabs(x));
  int cap = std::min(24, (int)(30000 / mx)); if (cap < 2) throw Discard();
  int ns = 1 + g.draw(3); std::vector<int> chans = genChans(g, 3, false); int nkeys = 1 + g.draw(5); std::vector<int> keys; for (int i = 0; i < nkeys; i++) keys.push_back(g.draw(128));
  Eng e; kit.load(e); std::vector<EAS_HANDLE> st; for (int i = 0; i < ns; i++) st.push_back(e.live());
  M01Model m; int n = 2 + g.size(60); long blk = 0, lastEv = -9; int checked = 0; Pcm p; c.say("streams %d, voice cap %d\n", ns, cap);
  const int settle = two ? 7 : 3; auto expect = [&]() { double s = 0; for (auto& v : m.v) s += kit.lev[v.prog][kit.zone(v.key)]; return s; };
  auto render = [&](int k) { for (int i = 0; i < k; i++) { p.clear(); e.render(p, 1); blk++; if (blk - lastEv > settle) { double w = expect(); LR x = levelOf(p, 0); if (m.v.empty()) REQUIRE(allZero(p), "block %ld: no note sounds but the output is not zero", blk); else { REQUIRE(steady(p, 0, 0), "block %ld: held notes are not steady", blk); REQUIRE(std::fabs(x.l - w) <= 2 * m.v.size() + 2 && std::fabs(x.r - w) <= 2 * m.v.size() + 2, "block %ld: output %g/%g but the %zu notes that should sound give %g", blk, x.l, x.r, m.v.size(), w); checked++; } } } };
  for (int i = 0; i < n; i++) {
    int s = g.draw(ns), ch = g.pick(chans); Bytes b; auto S = std::make_pair(s, ch); c.say("blk %ld st %d:", blk, s);
    switch (g.weighted({10, 8, 3, 1, 1, 1, 1, 2})) {
      case 0: { if ((int)m.v.size() >= cap) continue; int k = g.pick(keys); b = mNoteOn(ch, k, 127); if (two) { int same = 0; for (auto& v : m.v) same += v.st == s && v.ch == ch && v.key == k; if (same >= 2) for (size_t q = 0; q < m.v.size(); q++) if (m.v[q].st == s && m.v[q].ch == ch && m.v[q].key == k) { m.v.erase(m.v.begin() + q); break; } } m.v.push_back({s, ch, k, m.progOf(s, ch), false}); break; }
      case 1: { int k = g.pick(keys); b = g.flip() ? mNoteOff(ch, k, g.draw(128)) : mNoteOn(ch, k, 0); bool ped = m.pedal[S]; std::vector<VNote> o; for (auto v : m.v) if (v.st == s && v.ch == ch && v.key == k) { if (ped) { v.ped = true; o.push_back(v); } } else o.push_back(v); m.v = o; m.offBlk[S] = blk; break; }
      case 2: { bool on = !m.pedal[S]; if (on && m.offBlk.count(S) && blk - m.offBlk[S] < 4) { render(4); } b = mCC(ch, 64, on ? g.range(64, 127) : g.range(0, 63)); m.pedal[S] = on; if (!on) { std::vector<VNote> o; for (auto& v : m.v) if (!(v.st == s && v.ch == ch && v.ped)) o.push_back(v); m.v = o; m.offBlk[S] = blk; } break; }
      case 3: { int cc = g.pick({120, 123, 124, 125, 126, 127}); b = mCC(ch, cc, 0); std::vector<VNote> o; for (auto& v : m.v) if (!(v.st == s && v.ch == ch)) o.push_back(v); m.v = o; break; }
      case 4: { b = sysGmOn(); std::vector<VNote> o; for (auto& v : m.v) if (v.st != s) o.push_back(v); m.v = o; for (int q : chans) { m.pedal[{s, q}] = false; m.prog[{s, q}] = 0; } break; }
      case 5: { b = mCC(ch, 121, 0); m.pedal[S] = false; std::vector<VNote> o; for (auto& v : m.v) if (!(v.st == s && v.ch == ch && v.ped)) o.push_back(v); m.v = o; m.offBlk[S] = blk; break; }
      case 6: { e.closeLive(st[s]); st[s] = e.live(); c.say(" closed and reopened\n"); std::vector<VNote> o; for (auto& v : m.v) if (v.st != s) o.push_back(v); m.v = o; for (int q : chans) { m.pedal[{s, q}] = false; m.prog[{s, q}] = 0; } lastEv = blk; continue; }
      default: { int q = g.draw(kit.np); b = mProg(ch, q); m.prog[S] = q; } }
    e.write(st[s], b); lastEv = blk; c.say(" %s\n", hexs(b).c_str()); if (two) render(8); else if (!g.chance(1, 3)) render(1 + g.draw(g.chance(1, 3) ? 12 : 5)); }
  render(10); for (int i = 0; i < ns; i++) for (int ch : chans) { Bytes b = mCC(ch, 64, 0); for (int k : keys) app(b, mNoteOff(ch, k)); e.write(st[i], b); } lastEv = blk; m.v.clear(); render(10);
  c.nontrivial = checked >= 5; c.label("constant-wave model"); }
static bool silentWithin(Eng& e, int blocks, int& took, int stretch) { Pcm p; int z = 0; for (took = 0; took < blocks; took++) { p.clear(); e.render(p, 1); z = allZero(p) ? z + 1 : 0; if (z >= stretch) return true; } return false; }
static void ending(Gen& g, Ctx& c) {     // any music on any streams, then every note is ended
  int ns = 1 + g.draw(4); Setup su = genSetup(g, c, false, false); Eng e; su.apply(e); std::vector<EAS_HANDLE> st; for (int i = 0; i < ns; i++) st.push_back(e.live()); int how = g.draw(6); std::vector<std::vector<int>> chans; std::vector<Hist> hs; int maxb = 0;
  for (int i = 0; i < ns; i++) { HistOpts o; o.m.chans = genChans(g, 4); chans.push_back(o.m.chans); o.m.maxHeld = 80; o.resets = 60; Hist h = genHist(g, o); hs.push_back(h); describe(c, h); maxb = std::max(maxb, h.blocks); }
  int poly = g.flip() ? 64 : g.range(1, 20); bool same = g.flip(); if (poly < 64) { REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, poly) == EAS_SUCCESS, "polyphony"); c.label("few voices"); } if (same) { maxb = 1; for (auto& h : hs) if (!h.ev.empty()) maxb = std::max(maxb, h.ev.back().blk + 1); c.label("ended in the block of the last message"); } c.say("polyphony %d\n", poly);
  Pcm p; std::vector<size_t> at(ns, 0); for (int b = 0; b < maxb; b++) { for (int i = 0; i < ns; i++) { Bytes w; while (at[i] < hs[i].ev.size() && hs[i].ev[at[i]].blk <= b) app(w, hs[i].ev[at[i]++].b); e.write(st[i], w); } if (!same || b + 1 < maxb) e.render(p, 1); }
  c.say("ended by %d\n", how); static const char* const nm[] = {"note-offs, then pedals", "pedals, then note-offs", "all notes off", "all sound off", "GM reset", "close"}; c.label(nm[how]);
  for (int i = 0; i < ns; i++) { Bytes w, off, ped; for (int ch : chans[i]) { app(ped, mCC(ch, 64, 0)); std::set<int> ks; for (auto& ev : hs[i].ev) if ((ev.b[0] & 0xF0) == 0x90 && (ev.b[0] & 15) == ch) ks.insert(ev.b[1]); for (int k : ks) app(off, g.flip() ? mNoteOff(ch, k) : mNoteOn(ch, k, 0)); }
    switch (how) { case 0: w = cat({off, ped}); break; case 1: w = cat({ped, off}); break; case 2: for (int ch : chans[i]) app(w, mCC(ch, 123, 0)); break; case 3: for (int ch : chans[i]) app(w, mCC(ch, 120, 0)); break; case 4: w = sysGmOn(); break; default: e.closeLive(st[i]); } e.write(st[i], w); }
  int took = 0; int limit = how < 2 ? (int)(25000 / BLKMS()) : 12; int stretch = how < 2 ? 172 : 8; bool ok = silentWithin(e, limit + stretch, took, stretch);
  REQUIRE(ok, "output is still not zero %d blocks after every note was ended", limit);
  Pcm q; if (how >= 2) e.render(q, 50); REQUIRE(allZero(q), "sound came back after every note had ended"); c.nontrivial = peak(p) > 50; }
static void waiting(Gen& g, Ctx& c) {    // notes that wait for the voice of another channel or stream, ended before they sound; the other channel's notes play positive waves, theirs negative ones
  Dls d; d.waves.push_back(dcWave(1200)); d.waves.push_back(dcWave(-2500)); for (int i = 0; i < 2; i++) { DIns n; n.prog = i; n.art = basicArt(); DRgn r; r.wave = i; r.opts = 1; n.r.push_back(r); d.ins.push_back(n); } Eng e; MemFile f(encDls(d)); REQUIRE(e.loadDLS(f) == EAS_SUCCESS, "load");
  int poly = g.range(1, 12); REQUIRE(EAS_SetSynthPolyphony(e.h, EAS_MCU_SYNTH, poly) == EAS_SUCCESS, "polyphony"); bool two = g.flip(); EAS_HANDLE sb = e.live(), sa = two ? e.live() : sb; int cb = g.draw(9), ca = two && g.flip() ? cb : (cb + 1 + g.draw(8)) % 9; e.write(sb, mProg(cb, 0)); e.write(sa, mProg(ca, 1)); if (!two && ca == cb) throw Discard();
  int nb = poly + g.draw(3), na = 1 + g.draw(poly + 2), k0 = g.draw(60), gap = g.draw(6), how = g.draw(two ? 8 : 6), wait = g.chance(1, 4) ? 1 + g.draw(2) : 0; Bytes w; for (int i = 0; i < nb; i++) app(w, mNoteOn(cb, k0 + i, 127)); e.write(sb, w); e.skip(3 + gap); Bytes a; for (int i = 0; i < na; i++) app(a, mNoteOn(ca, k0 + 20 + i, 127)); e.write(sa, a); if (wait) e.skip(wait); c.say("polyphony %d, %d notes on channel %d, %d more on channel %d%s, ended by %d after %d blocks\n", poly, nb, cb, na, ca, two ? " of another stream" : "", how, wait);
  Bytes o; switch (how) { case 0: for (int i = 0; i < na; i++) app(o, mNoteOff(ca, k0 + 20 + i)); break; case 1: o = mCC(ca, 123, 0); break; case 2: o = mCC(ca, 120, 0); break; case 3: o = mCC(ca, 126, 0); break; case 4: o = mCC(ca, 127, 0); break; case 5: o = mCC(ca, 124, 0); break; case 6: o = sysGmOn(); break; default: e.closeLive(sa); } if (!o.empty()) e.write(sa, o);
  e.skip(10); Pcm p = e.render(30); for (int16_t x : p) REQUIRE(x >= 0, "a note still sounds 10 blocks after it was ended while it waited for a voice"); o.clear(); for (int i = 0; i < nb; i++) app(o, mNoteOff(cb, k0 + i)); e.write(sb, o); e.skip(10); Pcm q = e.render(10); REQUIRE(allZero(q), "output is not zero 10 blocks after the last note was ended"); c.nontrivial = true; c.label("ended while waiting for a voice"); }
static void quiet(Gen& g, Ctx& c) {      // no notes at all: exactly zero, whatever else is sent
  Setup su = genSetup(g, c, true); Eng e; su.apply(e); int ns = 1 + g.draw(4); Pcm p; std::vector<EAS_HANDLE> st; int sent = 0; for (int i = 0; i < ns; i++) st.push_back(e.live()); MusicOpts mo; mo.maxNotes = 0; for (int i = 0; i < 16; i++) mo.chans.push_back(i); MusicGen mg(mo);
  for (int i = g.size(40); i > 0; i--) { int s = g.draw(ns); Bytes b = g.chance(1, 8) ? (g.flip() ? sysGmOn() : sysMasterVol(g.draw(16384))) : g.chance(1, 4) ? (g.flip() ? mNoteOff(g.draw(16), g.draw(128)) : mNoteOn(g.draw(16), g.draw(128), 0)) : mg.next(g); if ((b[0] & 0xF0) == 0x90 && b[2]) continue; c.say("%s ", hexs(b).c_str()); e.write(st[s], b); sent++; if (g.flip()) e.render(p, 1 + g.draw(3)); }
  e.render(p, 3); c.nontrivial = sent > 4; c.label("no notes"); REQUIRE(allZero(p), "output is not zero although no note was ever started"); }
static void m01(Gen& g, Ctx& c) { switch (g.weighted({6, 3, 1, 2})) { case 0: model(g, c); break; case 1: ending(g, c); break; case 3: waiting(g, c); break; default: quiet(g, c); } }
static Reg r("M01", m01, "live histories over several streams against a model of which notes sound (looped constant waves decode the level), random music ended in six ways, notes ended while they wait for a stolen voice, and histories without notes; non-trivial: at least 5 checked sounding blocks / audible music / messages sent", 100000, 3000000, 20);
