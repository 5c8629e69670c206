// Replayable histories of public API calls over several streams of one engine.
#pragma once
#include "songgen.h"
#include "badsmf.h"
#include "hist.h"
extern "C" { extern const unsigned char easSoundLib[]; }
enum OpK { oOpen, oOpenLive, oShareLive, oPrepare, oRender, oLocate, oPause, oResume, oRate, oTransp, oVol, oGVol, oPrio, oPoly, oSynPoly, oRepeat, oQuery, oParse, oWrite, oClose, oLoadDls, oStrmDls, oSetFx, oGetFx, oMetaCb, oHdr, oPlayMode, oMaxLoad, oMaxPcm, oBadRender, oWrongKind, oSndLib, oKinds };
static const char* const opName[oKinds] = {"open", "live", "share", "prepare", "render", "locate", "pause", "resume", "rate", "transpose", "volume", "master", "priority", "polyphony", "synthpoly", "repeat", "query", "parsemeta", "write", "close", "loaddls", "streamdls", "setfx", "getfx", "metacb", "hdrsearch", "playmode", "maxload", "maxpcm", "badrender", "wrongkind", "sndlib"};
struct Op { int k = 0, s = 0; long a = 0, b = 0, c = 0; Bytes d; };
struct Assets { std::vector<Bytes> songs, dls; std::vector<char> good; };   // good: songs known to be well-formed
typedef std::vector<Op> Script;
static const int NSLOT = 5;
struct Runner {
  EAS_DATA_HANDLE h = nullptr; const Assets* A; Pcm pcm; std::vector<long> log; bool keepPcm = true; EAS_RESULT initR;
  struct Slot { EAS_HANDLE s = nullptr; int kind = 0; std::unique_ptr<MemFile> f; int song = -1; Runner* R = nullptr; char meta[300]; int metaSize = 0; bool cb = false, ready = false; long vol = -1; } sl[NSLOT];
  std::vector<std::unique_ptr<MemFile>> dlsFiles; std::function<void(MemFile&)> onFile; long renders = 0, badRenders = 0, empties = 0; bool retryEmpty = false;
  explicit Runner(const Assets* a) : A(a) { initR = EAS_Init(&h); if (initR != EAS_SUCCESS) h = nullptr; }
  ~Runner() { if (h) EAS_Shutdown(h); }
  Runner(const Runner&) = delete;
  EAS_RESULT shutdown() { EAS_RESULT r = EAS_Shutdown(h); h = nullptr; return r; }
  int openCount() const { int n = 0; for (auto& x : sl) n += x.kind != 0; return n; }
  static void metaCb(E_EAS_METADATA_TYPE t, char* b, EAS_VOID_PTR u) { Slot* s = (Slot*)u; size_t n = strnlen(b, s->metaSize); if ((int)n >= s->metaSize) fail("metadata text not terminated inside its buffer"); long hsh = t * 131 + n; for (size_t i = 0; i < n; i++) hsh = hsh * 33 + (uint8_t)b[i]; s->R->log.push_back(hsh); }
  void query(Slot& t) {
    EAS_I32 v; auto q = [&](EAS_RESULT r) { log.push_back(r); log.push_back(r == EAS_SUCCESS ? v : 0); };
    v = -7; q(EAS_State(h, t.s, &v)); v = -7; q(EAS_GetLocation(h, t.s, &v)); v = -7; q(EAS_GetRepeat(h, t.s, &v)); v = -7; q(EAS_GetPolyphony(h, t.s, &v)); v = -7; q(EAS_GetPriority(h, t.s, &v)); v = -7; q(EAS_GetNoteCount(h, t.s, &v)); v = -7; q(EAS_GetFileType(h, t.s, &v)); log.push_back(EAS_GetVolume(h, t.s)); }
  void closeSlot(Slot& t, EAS_RESULT* out = nullptr) { EAS_RESULT r = t.kind == 1 ? EAS_CloseFile(h, t.s) : EAS_CloseMIDIStream(h, t.s); log.push_back(r); if (out) *out = r; t.kind = 0; t.s = nullptr; t.f.reset(); t.song = -1; t.cb = false; t.ready = false; }
  // returns the result code, or 9999 when the op does not apply
  EAS_RESULT exec(const Op& o) {
    Slot& t = sl[o.s % NSLOT]; EAS_RESULT r = 9999; bool file = t.kind == 1, any = t.kind != 0; EAS_I32 v = 0;
    switch (o.k) {
      case oOpen: if (any || A->songs.empty()) break; { t.song = o.a % A->songs.size(); t.f.reset(new MemFile(A->songs[t.song])); if (onFile) onFile(*t.f); EAS_HANDLE s = nullptr; r = EAS_OpenFile(h, &t.f->loc, &s); if (r == EAS_SUCCESS && s) { t.s = s; t.kind = 1; t.R = this; } else { if (r == EAS_SUCCESS) fail("open succeeded without a handle"); t.f.reset(); } } break;
      case oOpenLive: if (any) break; { EAS_HANDLE s = nullptr; r = EAS_OpenMIDIStream(h, &s, nullptr); if (r == EAS_SUCCESS) { if (!s) fail("live open succeeded without a handle"); t.s = s; t.kind = 2; t.R = this; } } break;
      case oShareLive: { Slot& u = sl[o.a % NSLOT]; if (any || !u.kind) break; EAS_HANDLE s = nullptr; r = EAS_OpenMIDIStream(h, &s, u.s); if (r == EAS_SUCCESS) { if (!s) fail("live open succeeded without a handle"); t.s = s; t.kind = 2; t.R = this; } } break;
      case oPrepare: if (!any || t.kind != 1) break; r = EAS_Prepare(h, t.s); if (r == EAS_SUCCESS) t.ready = true; break;
      case oRender: for (long i = 0; i < o.a; i++) { size_t w = pcm.size(); pcm.resize(w + BLK() * 2, 0x1234); EAS_I32 got = -1; long tries = 0; do { got = -1; r = EAS_Render(h, pcm.data() + w, BLK(), &got); if (retryEmpty && r == EAS_SUCCESS && !got) { empties++; for (size_t q = w; q < pcm.size(); q++) if (pcm[q] != 0x1234) fail("a render that produced nothing wrote to the buffer"); if (++tries > 300000) fail("rendering never completes a block"); } } while (retryEmpty && r == EAS_SUCCESS && !got); renders++; if (r != EAS_SUCCESS || got != BLK()) badRenders++; if (r == EAS_SUCCESS && got != BLK() && got != 0) fail(fmt("render produced %ld frames", (long)got)); if (i + 1 < o.a || !got) { log.push_back(r); log.push_back(got); } if (!keepPcm) pcm.clear(); } break;
      case oLocate: if (file) r = EAS_Locate(h, t.s, o.a, o.b); break;
      case oPause: if (file) r = EAS_Pause(h, t.s); break;
      case oResume: if (file) r = EAS_Resume(h, t.s); break;
      case oRate: if (file) r = EAS_SetPlaybackRate(h, t.s, o.a); break;
      case oTransp: if (file) r = EAS_SetTransposition(h, t.s, o.a); break;
      case oVol: if (file) r = EAS_SetVolume(h, t.s, o.a); break;
      case oGVol: r = EAS_SetVolume(h, nullptr, o.a); log.push_back(EAS_GetVolume(h, nullptr)); break;
      case oPrio: if (file) r = EAS_SetPriority(h, t.s, o.a); break;
      case oPoly: if (file) r = EAS_SetPolyphony(h, t.s, o.a); break;
      case oSynPoly: r = EAS_SetSynthPolyphony(h, o.b, o.a); { EAS_I32 q = -7; log.push_back(EAS_GetSynthPolyphony(h, o.b, &q)); log.push_back(q); } break;
      case oRepeat: if (file) r = EAS_SetRepeat(h, t.s, o.a); break;
      case oQuery: if (any) { query(t); r = EAS_GetRenderTime(h, &v); log.push_back(v); } break;
      case oParse: if (file) { v = -7; r = EAS_ParseMetaData(h, t.s, &v); log.push_back(r == EAS_SUCCESS ? v : 0); } break;
      case oWrite: if (t.kind == 2) { Bytes b = o.d; b.push_back(0); r = EAS_WriteMIDIStream(h, t.s, b.data(), o.a ? o.b : (EAS_I32)o.d.size()); } break;
      case oClose: if (any) closeSlot(t, &r); break;
      case oLoadDls: if (A->dls.empty()) break; { std::unique_ptr<MemFile> f(new MemFile(A->dls[o.a % A->dls.size()])); if (onFile) onFile(*f); r = EAS_LoadDLSCollection(h, nullptr, &f->loc); } break;
      case oStrmDls: if (A->dls.empty() || !any) break; { std::unique_ptr<MemFile> f(new MemFile(A->dls[o.a % A->dls.size()])); if (onFile) onFile(*f); r = EAS_LoadDLSCollection(h, t.s, &f->loc); } break;
      case oSetFx: r = EAS_SetParameter(h, o.a, o.b, o.c); break;
      case oGetFx: v = -7; r = EAS_GetParameter(h, o.a, o.b, &v); log.push_back(r == EAS_SUCCESS ? v : 0); break;
      case oMetaCb: if (file) { t.metaSize = o.a; memset(t.meta, 0x7e, sizeof t.meta); r = EAS_RegisterMetaDataCallback(h, t.s, o.b ? metaCb : nullptr, t.meta, t.metaSize, &t); } break;
      case oHdr: r = EAS_SetHeaderSearchFlag(h, o.a); break;
      case oPlayMode: if (file) r = EAS_SetPlayMode(h, t.s, o.a); break;
      case oMaxLoad: r = EAS_SetMaxLoad(h, o.a); break;
      case oMaxPcm: if (file) r = EAS_SetMaxPCMStreams(h, t.s, o.a); break;
      case oBadRender: { Pcm q(BLK() * 8, 0x2222); EAS_I32 got = -1; long n = o.a; if (n == BLK()) n++; r = EAS_Render(h, q.data(), n, &got); if (r == EAS_SUCCESS || got != 0) fail(fmt("render of %ld frames -> %ld, %ld frames", n, (long)r, (long)got)); for (auto x : q) if (x != 0x2222) fail("refused render wrote to the buffer"); } break;
      case oWrongKind: if (!any) break; if (t.kind == 1) { uint8_t b[3] = {0x90, 60, 100}; if (o.a & 1) r = EAS_WriteMIDIStream(h, t.s, b, 3); else r = EAS_CloseMIDIStream(h, t.s); }
        else { EAS_I32 q; switch (o.a % 16) { case 0: r = EAS_Prepare(h, t.s); break; case 1: r = EAS_Locate(h, t.s, 100, 0); break; case 2: r = EAS_Pause(h, t.s); break; case 3: r = EAS_Resume(h, t.s); break; case 4: r = EAS_ParseMetaData(h, t.s, &q); break; case 5: r = EAS_SetVolume(h, t.s, 50); break; case 6: r = EAS_SetPolyphony(h, t.s, 5); break; case 7: r = EAS_SetPriority(h, t.s, 3); break; case 8: r = EAS_SetTransposition(h, t.s, 3); break; case 9: r = EAS_State(h, t.s, &q); break; case 10: r = EAS_GetLocation(h, t.s, &q); break; case 11: r = EAS_GetPolyphony(h, t.s, &q); break; case 12: r = EAS_SetPlayMode(h, t.s, 1); break; case 13: r = EAS_GetNoteCount(h, t.s, &q); break; case 14: r = EAS_RegisterMetaDataCallback(h, t.s, metaCb, t.meta, 100, &t); break; default: r = EAS_SetMaxPCMStreams(h, t.s, 3); } }
        break;
      case oSndLib: { static unsigned long foreign[64]; EAS_SNDLIB_HANDLE l = o.a & 1 ? (EAS_SNDLIB_HANDLE)foreign : (EAS_SNDLIB_HANDLE)easSoundLib; if (file) r = EAS_SetSoundLibrary(h, t.s, l); else if (!any) r = EAS_SetSoundLibrary(h, nullptr, l); if (r == EAS_SUCCESS && (o.a & 1)) fail("foreign sound library accepted"); } break;
    }
    if (r != 9999) log.push_back(r);
    return r; }
  void run(const Script& s) { for (auto& o : s) exec(o); }
  void closeAll() { for (auto& t : sl) if (t.kind) closeSlot(t); }
};
struct ScriptOpts { int maxOps = 40; bool wild = false; bool fx = false; bool dls = true; bool badSongs = false; bool raw = false; int maxRender = 30; bool share = true; bool maxLoad = false; int slots = NSLOT; bool resets = true; int maxNotes = 1 << 30, songNotes = 1 << 30; bool repeats = true; bool mip = false; };
inline Song genSmallSong(Gen& g, int maxNotes = 1 << 30, bool mip = false) {   // free-form valid song, no timing constraints
  Song s; int nt = 1 + g.draw(4); s.format = nt > 1 ? 1 : g.draw(2); s.division = g.pick({24, 96, 120, 480, 960}); s.tracks.resize(nt);
  for (auto& t : s.tracks) { MusicOpts mo; mo.chans = genChans(g, 2); mo.maxNotes = maxNotes / nt; MusicGen mg(mo); uint32_t k = 0; int n = g.size(24); for (int i = 0; i < n; i++) { if (g.flip()) k += g.draw(s.division); if (g.chance(1, 12)) t.ev.push_back({k, metaTempo(g.range(150000, 900000))}); else if (g.chance(1, 12)) { Bytes m{0xFF, (uint8_t)g.range(1, 7)}; for (int q = g.draw(12); q > 0; q--) m.push_back(65 + g.draw(26)); t.ev.push_back({k, m}); } else if (g.chance(1, 20)) t.ev.push_back({k, g.flip() ? sysGmOn() : mip && g.flip() ? genMip(g, mo.chans) : sysMasterVol(g.draw(16384))}); else t.ev.push_back({k, mg.next(g)}); } t.endTick = k + g.draw(s.division); }
  return s; }
inline Assets genAssets(Gen& g, Ctx& c, const ScriptOpts& o) {
  Assets a; int n = 1 + g.draw(3); for (int i = 0; i < n; i++) { if (o.badSongs && g.chance(1, 3)) { a.songs.push_back(genBadSong(g, c)); a.good.push_back(0); } else { a.good.push_back(1); Song s = genSmallSong(g, o.songNotes, o.mip); describe(c, s); a.songs.push_back(encSong(s)); } if (c.verbose) c.say("song[%d]: %s\n", i, hexs(a.songs.back(), 160).c_str()); }
  if (o.dls && g.flip()) { n = 1 + g.draw(2); for (int i = 0; i < n; i++) { if (o.wild && g.chance(1, 2)) a.dls.push_back(genHostileDlsBytes(g, c)); else { Dls d = genBenignDls(g); describe(c, d); a.dls.push_back(encDls(d)); } } }
  return a; }
inline Script genScript(Gen& g, Ctx& c, const Assets& A, const ScriptOpts& o) {
  Script S; int n = 2 + g.size(o.maxOps); int kind[NSLOT] = {0}, prep[NSLOT] = {0}; std::vector<MusicGen> mg; for (int i = 0; i < NSLOT; i++) { MusicOpts mo; mo.chans = genChans(g, 3); mo.maxHeld = o.wild ? 80 : 24; mo.maxNotes = o.maxNotes; mo.smallProgs = !A.dls.empty(); mg.emplace_back(mo); }
  for (int i = 0; i < n; i++) {
    Op p; p.s = g.draw(o.slots); int k = kind[p.s];
    if (!k) { int w = g.weighted({5, 3, o.share ? 1 : 0, 3, 1, A.dls.empty() ? 0 : 1, o.fx ? 2 : 0, 1}); switch (w) { case 0: p.k = oOpen; p.a = g.draw(A.songs.size()); kind[p.s] = 1; prep[p.s] = 0; break; case 1: p.k = oOpenLive; kind[p.s] = 2; break; case 2: p.k = oShareLive; p.a = g.draw(o.slots); kind[p.s] = 2; break; case 3: p.k = oRender; p.a = 1 + g.size(o.maxRender); break; case 4: p.k = oGVol; p.a = o.wild ? g.edge(-2, 103) : g.range(60, 100); break; case 5: p.k = oLoadDls; p.a = g.draw(A.dls.size()); break; case 6: p.k = g.chance(1, 4) ? oGetFx : oSetFx; p.a = o.wild && g.chance(1, 8) ? g.edge(-3, 8) : g.pick({2, 3}); p.b = o.wild && g.chance(1, 6) ? g.edge(-2, 8) : g.draw(4 + (p.a == 3)); p.c = o.wild ? (g.chance(1, 4) ? (long)(int32_t)g.draw(0) : g.edge(0, 32768)) : p.b == 0 ? g.draw(2) : p.b == 1 ? g.draw(4) : g.draw(5000); break; default: p.k = o.wild ? g.pick({oSynPoly, oHdr, oBadRender, oMaxLoad, oSndLib}) : oSynPoly; p.a = p.k == oSynPoly ? (o.wild ? g.edge(-3, 80) : g.range(8, 64)) : p.k == oHdr ? g.draw(2) : p.k == oBadRender ? g.edge(-2, BLK() * 4) : o.maxLoad ? g.edge(0, 200) : 0; if (p.k == oSynPoly) p.b = 0; } }
    else if (k == 1) {
      if (!prep[p.s] && g.chance(3, 4)) { p.k = oPrepare; prep[p.s] = 1; }
      else switch (g.weighted({10, 3, 2, 3, 1, 1, 2, 1, 1, 2, 3, 1, 3, A.dls.empty() ? 0 : 1, 1, o.wild ? 2 : 0, o.wild ? 1 : 0, 1})) {
        case 0: p.k = oRender; p.a = 1 + g.size(o.maxRender); break;
        case 1: p.k = oLocate; p.a = o.wild && g.chance(1, 5) ? (long)(int32_t)g.draw(0) : g.draw(3000); p.b = g.chance(1, 4); if (p.b) p.a -= 1500; break;
        case 2: p.k = oPause; break; case 3: p.k = oResume; break;
        case 4: p.k = oRate; p.a = o.wild && g.flip() ? (long)g.draw(0) : (1 << 27) + (long)g.draw((1 << 29) - (1 << 27) + 1); break;
        case 5: p.k = oTransp; p.a = o.wild ? g.edge(-15, 15) : g.range(-12, 12); break;
        case 6: p.k = oVol; p.a = o.wild ? g.edge(-2, 103) : g.range(50, 100); break;
        case 7: p.k = oPrio; p.a = o.wild ? g.edge(-1, 300) : g.range(0, 15); break;
        case 8: p.k = oPoly; p.a = o.wild ? g.edge(-2, 70) : g.range(4, 64); break;
        case 9: if (!o.repeats) { p.k = oQuery; break; } p.k = oRepeat; p.a = g.range(-1, 3); break;
        case 10: p.k = oQuery; break; case 11: p.k = oParse; break; case 12: p.k = oClose; kind[p.s] = 0; break;
        case 13: p.k = oStrmDls; p.a = g.draw(A.dls.size()); break;
        case 14: p.k = oMetaCb; p.a = o.wild ? g.edge(0, 300) : g.range(4, 300); p.b = !g.chance(1, 5); break;
        case 15: p.k = oWrongKind; p.a = g.draw(16); break;
        case 16: p.k = g.pick({oPlayMode, oMaxPcm, oPrepare, oSndLib}); p.a = g.edge(-2, 40); break;
        default: p.k = oPrepare; } }
    else switch (g.weighted({8, 8, 1, 1, o.wild ? 1 : 0, A.dls.empty() || !o.wild ? 0 : 1})) {
        case 0: { p.k = oWrite; int m = 1 + g.draw(6); if (o.raw && g.chance(1, 4)) { int q = g.draw(30); for (int j = 0; j < q; j++) p.d.push_back(g.flip() ? g.draw(256) : g.pick({0xF0, 0xF7, 0x90, 0xB0, 0x7E, 0x7F, 0x09, 0x01, 0x0B, 0x04})); if (g.chance(1, 6)) { p.a = 1; p.b = g.edge(-2, (int)p.d.size()); } } else for (int j = 0; j < m; j++) app(p.d, o.resets && g.chance(1, 30) ? (g.flip() ? sysGmOn() : o.mip && g.flip() ? genMip(g, mg[p.s].o.chans) : sysMasterVol(g.draw(16384))) : mg[p.s].next(g)); break; }
        case 1: p.k = oRender; p.a = 1 + g.size(o.maxRender); break; case 2: p.k = oClose; kind[p.s] = 0; break; case 3: p.k = oQuery; break; case 4: p.k = oWrongKind; p.a = g.draw(16); break; default: p.k = oStrmDls; p.a = g.draw(A.dls.size()); }
    S.push_back(p); }
  if (c.verbose) { c.say("script:"); for (auto& p : S) { c.say(" %s(%d,%ld,%ld,%ld", opName[p.k], p.s, p.a, p.b, p.c); if (!p.d.empty()) c.say(",%s", hexs(p.d, 24).c_str()); c.say(")"); } c.say("\n"); }
  return S; }
inline void requireLog(const std::vector<long>& a, const std::vector<long>& b, const char* what) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) fail(fmt("%s: result/answer %zu differs: %ld vs %ld", what, i, a[i], b[i])); if (a.size() != b.size()) fail(fmt("%s: %zu vs %zu answers", what, a.size(), b.size())); }
