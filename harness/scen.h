// Scenarios: a set of streams (songs and live streams) with settings and a schedule of calls, executed
// buffer by buffer; the same scenario can be run on different instances, builds, threads or next to others.
#pragma once
#include "probe.h"
struct ScnOp { int buf; int kind; EAS_I32 a = 0, b = 0; Bytes m; };
enum { OP_WRITE, OP_VOL, OP_TRANS, OP_PAUSE, OP_RESUME, OP_LOCATE, OP_RATE, OP_REPEAT, OP_POLY, OP_PRIO };
struct ScnStream { bool song = false; Bytes data; Bytes dls; int openAt = 0, closeAt = 1 << 30; bool meta = false; std::vector<ScnOp> ops; };
struct Scn { std::vector<ScnStream> st; int master = -1, rev = -1, revWet = -1, chor = -1, synthPoly = -1; int buffers = 0; std::string desc() const { std::string s; for (auto &x : st) { s += strf("%s%s[%zu bytes, ops", x.song ? "song" : "live", x.dls.empty() ? "" : "+dls", x.data.size()); for (auto &o : x.ops) s += strf(" %d@%d(%ld)", o.kind, o.buf, (long)o.a); s += "] "; } return s + strf("master=%d reverb=%d chorus=%d buffers=%d", master, rev, chor, buffers); } uint64_t hash() const { uint64_t h = fnv(desc().data(), desc().size()); for (auto &x : st) { h = h * 31 + fnv(x.data); for (auto &o : x.ops) h = h * 31 + fnv(o.m); } return h; } };
struct ScnRun {
    Eas &e; const Scn &s; bool own; std::vector<EAS_HANDLE> h; Pcm pcm; std::vector<std::string> log; int at = 0; std::vector<Pcm> perOnly; EAS_RESULT err = 0; bool openFailed = false;
    std::vector<std::vector<std::pair<EAS_I32, EAS_I32>>> obs;   // per stream: (state, location) per buffer
    ScnRun(Eas &ee, const Scn &ss, bool setInst = true) : e(ee), s(ss), own(setInst), h(ss.st.size(), nullptr), obs(ss.st.size()) {
        if (!setInst) return;
        if (s.master >= 0) EAS_SetVolume(e.h, nullptr, s.master);
        if (s.synthPoly > 0) EAS_SetSynthPolyphony(e.h, 0, s.synthPoly);
        if (s.rev >= 0) { EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, s.rev); EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, EAS_FALSE); if (s.revWet >= 0) EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, s.revWet); }
        if (s.chor >= 0) { EAS_SetParameter(e.h, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_PRESET, s.chor); EAS_SetParameter(e.h, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_BYPASS, EAS_FALSE); }
    }
    void note(size_t i, const char *k, EAS_RESULT r) { log.push_back(strf("%d:%zu:%s=%ld", at, i, k, (long)r)); }
    void before() {   // calls due before the next buffer
        for (size_t i = 0; i < s.st.size(); i++) {
            auto &x = s.st[i];
            if (at == x.openAt) {
                EAS_RESULT r; if (x.song) { r = e.open(x.data, &h[i]); if (r == EAS_SUCCESS) { r = EAS_Prepare(e.h, h[i]); if (r != EAS_SUCCESS) { EAS_CloseFile(e.h, h[i]); h[i] = nullptr; } else if (x.meta) { EAS_I32 len; note(i, "meta", EAS_ParseMetaData(e.h, h[i], &len)); } } else h[i] = nullptr; } else { r = EAS_OpenMIDIStream(e.h, &h[i], nullptr); if (r == EAS_SUCCESS) EAS_SetVolume(e.h, h[i], 90); else h[i] = nullptr; }
                note(i, "open", r); if (r != EAS_SUCCESS) openFailed = true; if (h[i] && !x.dls.empty()) note(i, "dls", EAS_LoadDLSCollection(e.h, h[i], e.file(x.dls)->locator()));
            }
            if (at == x.closeAt && h[i]) { note(i, "close", x.song ? EAS_CloseFile(e.h, h[i]) : EAS_CloseMIDIStream(e.h, h[i])); h[i] = nullptr; }
            if (!h[i]) continue;
            for (auto &o : x.ops) if (o.buf == at) {
                EAS_RESULT r = 0; switch (o.kind) {
                case OP_WRITE: if (!x.song) r = e.write(h[i], o.m); break; case OP_VOL: r = EAS_SetVolume(e.h, h[i], o.a); break; case OP_TRANS: r = EAS_SetTransposition(e.h, h[i], o.a); break;
                case OP_PAUSE: r = EAS_Pause(e.h, h[i]); break; case OP_RESUME: r = EAS_Resume(e.h, h[i]); break; case OP_LOCATE: r = EAS_Locate(e.h, h[i], o.a, o.b); break;
                case OP_RATE: r = EAS_SetPlaybackRate(e.h, h[i], (EAS_U32)o.a); break; case OP_REPEAT: r = EAS_SetRepeat(e.h, h[i], o.a); break; case OP_POLY: r = EAS_SetPolyphony(e.h, h[i], o.a); break; case OP_PRIO: r = EAS_SetPriority(e.h, h[i], o.a); break; }
                note(i, "op", r);
            }
        }
    }
    void after() { for (size_t i = 0; i < h.size(); i++) if (h[i]) { EAS_STATE st = e.state(h[i]); obs[i].push_back({st, e.loc(h[i])}); } else obs[i].push_back({-1, -1}); at++; }
    bool step() { if (at >= s.buffers) return false; before(); EAS_RESULT r = e.render(&pcm, 1); if (r != EAS_SUCCESS) { err = r; pcm.insert(pcm.end(), (size_t)e.bufN * e.chans, 0x1234); } note(99, "r", r); after(); return true; }
    void run() { while (step()); close(); }
    void close() { for (size_t i = 0; i < h.size(); i++) if (h[i]) { s.st[i].song ? EAS_CloseFile(e.h, h[i]) : EAS_CloseMIDIStream(e.h, h[i]); h[i] = nullptr; } }
    std::string cmp(const ScnRun &o, const char *what) const {
        if (log != o.log) for (size_t i = 0; i < log.size() || i < o.log.size(); i++) { std::string a = i < log.size() ? log[i] : "-", b = i < o.log.size() ? o.log[i] : "-"; if (a != b) return strf("%s: call results differ: %s / %s", what, a.c_str(), b.c_str()); }
        long d = firstDiff(pcm, o.pcm); if (d >= 0) return strf("%s: samples differ from frame %ld (buffer %ld)", what, d, d / e.bufN);
        for (size_t i = 0; i < obs.size(); i++) for (size_t k = 0; k < obs[i].size() && k < o.obs[i].size(); k++) if (obs[i][k] != o.obs[i][k]) return strf("%s: stream %zu state/location %ld/%ld and %ld/%ld in buffer %zu", what, i, (long)obs[i][k].first, (long)obs[i][k].second, (long)o.obs[i][k].first, (long)o.obs[i][k].second, k);
        return "";
    }
    uint64_t digest() const { uint64_t d = fnv(pcm); for (auto &l : log) d = fnv(l.data(), l.size(), d); for (auto &v : obs) for (auto &p : v) { EAS_I32 q[2] = {p.first, p.second}; d = fnv(q, sizeof q, d); } return d ? d : 1; }
};
// random scenario; fx: effects allowed; modest: few notes so that no polyphony limit is reached
inline Scn genScn(Rng &r, int nStreams, int buffers, bool fx, bool hostileSongs) {
    Scn s; s.buffers = buffers;
    for (int i = 0; i < nStreams; i++) {
        ScnStream x; x.song = r.chance(1, 2);
        if (x.song) { x.data = genSong(r, hostileSongs && r.chance(1, 3), 60); x.meta = r.chance(1, 4); }
        if (r.chance(1, 5)) x.dls = buildDls(genDlsSpec(r, false));
        int n = r.range(0, 10);
        if (!x.song) for (int k = 0; k < n * 2 + 2; k++) { ScnOp o{(int)r.below(buffers), OP_WRITE}; o.m = genMidiBytes(r, r.range(1, 6), false); x.ops.push_back(o); }
        for (int k = 0; k < n; k++) { ScnOp o{(int)r.below(buffers), r.range(OP_VOL, OP_PRIO)}; switch (o.kind) { case OP_VOL: o.a = r.below(101); break; case OP_TRANS: o.a = r.range(-12, 12); break; case OP_LOCATE: o.a = r.below(2000); o.b = r.chance(1, 4); break; case OP_RATE: o.a = r.range(1 << 27, 1 << 29); break; case OP_REPEAT: o.a = r.range(0, 2); break; case OP_POLY: o.a = r.below(30); break; case OP_PRIO: o.a = r.range(1, 15); break; } x.ops.push_back(o); }
        s.st.push_back(x);
    }
    if (r.chance(1, 3)) s.master = r.below(101);
    if (fx && r.chance(1, 3)) { s.rev = r.below(4); if (r.chance(1, 2)) s.revWet = r.below(32768); }
    if (fx && r.chance(1, 3)) s.chor = r.below(4);
    if (r.chance(1, 6)) s.synthPoly = r.range(4, 64);
    return s;
}
