// C18: settings are validated, stored and read back; refused and superseded settings leave no trace in the sound.
#include "probe.h"
const char *vh_property = "C18";
enum Kind { VOL, TRANS, RATE, POLY, PRIO, REPEAT, MASTER, SPOLY, REV, CHO, WRITE, PAUSE, RESUME, LOCATE, NKIND };
static const char *KN[] = {"volume", "transposition", "rate", "polyphony", "priority", "repeat", "master", "synthpoly", "reverb", "chorus", "write", "pause", "resume", "locate"};
struct Op { int buf, kind, st; long prm; long v; bool ok; bool decoy; Bytes m; };
struct St { bool song; Bytes data; int share = -1; };
struct Settings { long vol = -1, poly = -1, prio = -1, rep = 0; };
struct Inst { long master = -1, spoly = -1, rev[4] = {}, cho[5] = {}; };
static const long wild[] = {-1, -2, 0x7fffffffL, -0x80000000L, 0x80000000L, 0xffffffffL, 0x100000000L, 0x100000001L, 0x10000000000L, -0x100000000L, 256, 65536, 65537, 32768, -32768, -32769, 1000, 0x7fffffffffffffffL};
static bool inRange(int kind, long prm, long v) {
    switch (kind) {
    case VOL: case MASTER: return v >= 0 && v <= 100; case TRANS: return v >= -12 && v <= 12; case RATE: return (unsigned long)v >= 1u << 27 && (unsigned long)v <= 1u << 29; case PRIO: return v >= 1 && v <= 15; case POLY: return v >= 0; case SPOLY: return prm == 0; case REPEAT: return true;
    case REV: switch (prm) { case EAS_PARAM_REVERB_BYPASS: return v == 0 || v == 1; case EAS_PARAM_REVERB_PRESET: return v >= 0 && v <= 3; case EAS_PARAM_REVERB_WET: case EAS_PARAM_REVERB_DRY: return v >= 0 && v <= 32767; } return false;
    case CHO: switch (prm) { case EAS_PARAM_CHORUS_BYPASS: return v == 0 || v == 1; case EAS_PARAM_CHORUS_PRESET: return v >= 0 && v <= 3; case EAS_PARAM_CHORUS_RATE: return v >= 10 && v <= 50; case EAS_PARAM_CHORUS_DEPTH: return v >= 15 && v <= 60; case EAS_PARAM_CHORUS_LEVEL: return v >= 0 && v <= 32767; } return false; }
    return true;
}
static long valid(Rng &r, int kind, long prm, int maxv) {
    bool edge = r.chance(1, 4), up = r.chance(1, 2); long lo = 0, hi = 1;
    switch (kind) { case VOL: case MASTER: hi = 100; break; case TRANS: lo = -12; hi = 12; break; case RATE: lo = 1 << 27; hi = 1 << 29; break; case PRIO: lo = 1; hi = 15; break; case POLY: hi = maxv; break; case SPOLY: lo = 1; hi = maxv; break; case REPEAT: lo = -1; hi = 3; break;
    case REV: hi = prm == EAS_PARAM_REVERB_BYPASS ? 1 : prm == EAS_PARAM_REVERB_PRESET ? 3 : 32767; break; case CHO: switch (prm) { case EAS_PARAM_CHORUS_BYPASS: hi = 1; break; case EAS_PARAM_CHORUS_PRESET: hi = 3; break; case EAS_PARAM_CHORUS_RATE: lo = 10; hi = 50; break; case EAS_PARAM_CHORUS_DEPTH: lo = 15; hi = 60; break; default: hi = 32767; } break; }
    if (edge) return up ? hi : lo; return lo + (long)r.below((uint32_t)(hi - lo + 1));
}
struct Run {
    Eas e; std::vector<EAS_HANDLE> h; const std::vector<St> &st;
    Run(const std::vector<St> &s) : h(s.size(), nullptr), st(s) {}
    bool open(size_t i) { const St &s = st[i]; if (s.song) h[i] = e.openPrep(s.data); else { h[i] = nullptr; if (EAS_OpenMIDIStream(e.h, &h[i], s.share >= 0 ? h[s.share] : nullptr)) h[i] = nullptr; } return h[i] != nullptr; }
    void close(size_t i) { if (!h[i]) return; if (st[i].song) EAS_CloseFile(e.h, h[i]); else EAS_CloseMIDIStream(e.h, h[i]); h[i] = nullptr; }
    EAS_RESULT apply(const Op &o) {
        EAS_HANDLE s = o.st >= 0 ? h[o.st] : nullptr;
        switch (o.kind) { case VOL: return EAS_SetVolume(e.h, s, o.v); case TRANS: return EAS_SetTransposition(e.h, s, o.v); case RATE: return EAS_SetPlaybackRate(e.h, s, (EAS_U32)o.v); case POLY: return EAS_SetPolyphony(e.h, s, o.v); case PRIO: return EAS_SetPriority(e.h, s, o.v); case REPEAT: return EAS_SetRepeat(e.h, s, o.v);
        case MASTER: return EAS_SetVolume(e.h, nullptr, o.v); case SPOLY: return EAS_SetSynthPolyphony(e.h, o.prm, o.v); case REV: return EAS_SetParameter(e.h, EAS_MODULE_REVERB, o.prm, o.v); case CHO: return EAS_SetParameter(e.h, EAS_MODULE_CHORUS, o.prm, o.v);
        case WRITE: return e.write(s, o.m); case PAUSE: return EAS_Pause(e.h, s); case RESUME: return EAS_Resume(e.h, s); case LOCATE: return EAS_Locate(e.h, s, o.v, 0); }
        return 0;
    }
    Settings get(size_t i, EAS_RESULT *err) { Settings g; EAS_I32 v = -77; g.vol = EAS_GetVolume(e.h, h[i]); *err |= EAS_GetPolyphony(e.h, h[i], &v); g.poly = v; v = -77; *err |= EAS_GetPriority(e.h, h[i], &v); g.prio = v; v = -77; *err |= EAS_GetRepeat(e.h, h[i], &v); g.rep = v; return g; }
    Inst inst(EAS_RESULT *err) { Inst g; EAS_I32 v = -77; g.master = EAS_GetVolume(e.h, nullptr); *err |= EAS_GetSynthPolyphony(e.h, 0, &v); g.spoly = v; for (int i = 0; i < 4; i++) { v = -77; *err |= EAS_GetParameter(e.h, EAS_MODULE_REVERB, i, &v); g.rev[i] = v; } for (int i = 0; i < 5; i++) { v = -77; *err |= EAS_GetParameter(e.h, EAS_MODULE_CHORUS, i, &v); g.cho[i] = v; } return g; }
};
static std::string opText(const Op &o) { return strf(" %d:%s[%d]", o.buf, KN[o.kind], o.st) + (o.kind >= REV && o.kind <= CHO ? strf(".%ld", o.prm) : "") + strf("=%ld%s", o.v, o.ok ? o.decoy ? "*" : "" : "!"); }
// expected settings against what the getters say
static bool compare(Ctx &c, Run &a, const std::vector<Settings> &ms, const Inst &mi, const std::string &when) {
    EAS_RESULT err = 0; Inst g = a.inst(&err); std::string d;
    if (g.master != mi.master) d += strf(" master %ld (expected %ld)", g.master, mi.master); if (g.spoly != mi.spoly) d += strf(" synth polyphony %ld (expected %ld)", g.spoly, mi.spoly);
    for (int i = 0; i < 4; i++) if (g.rev[i] != mi.rev[i]) d += strf(" reverb.%d %ld (expected %ld)", i, g.rev[i], mi.rev[i]); for (int i = 0; i < 5; i++) if (g.cho[i] != mi.cho[i]) d += strf(" chorus.%d %ld (expected %ld)", i, g.cho[i], mi.cho[i]);
    for (size_t i = 0; i < a.h.size(); i++) if (a.h[i]) { Settings s = a.get(i, &err); if (s.vol != ms[i].vol) d += strf(" volume[%zu] %ld (expected %ld)", i, s.vol, ms[i].vol); if (s.poly != ms[i].poly) d += strf(" polyphony[%zu] %ld (expected %ld)", i, s.poly, ms[i].poly); if (s.prio != ms[i].prio) d += strf(" priority[%zu] %ld (expected %ld)", i, s.prio, ms[i].prio); if (s.rep != ms[i].rep) d += strf(" repeat[%zu] %ld (expected %ld)", i, s.rep, ms[i].rep); c.count("settings_read", 4); }
    c.count("settings_read", 11); if (err) d += " a getter failed"; if (d.empty()) return true;
    c.violation("readback", "%s:%s", when.c_str(), d.c_str()); return false;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; int n = r.range(1, 4), buffers = r.range(6, 60); std::vector<St> st; for (int i = 0; i < n; i++) { St s; s.song = r.chance(1, 2); if (s.song) s.data = genSong(r, false, 50); else if (i && r.chance(1, 4)) { int k = r.below(i); if (!st[k].song && st[k].share < 0) s.share = k; } st.push_back(s); }
    Run a(st), b(st), w(st);   // all calls; only the accepted, not superseded ones; a neighbour that gets other settings
    int maxv = 0; { EAS_I32 v; EAS_GetSynthPolyphony(a.e.h, 0, &v); maxv = (int)v; }
    EAS_RESULT err = 0; Inst def = a.inst(&err); std::vector<Settings> ms(n); Settings dl, ds;   // defaults of a fresh live stream and song
    { Eas f; static const Bytes tiny = probeSong(); EAS_HANDLE l = f.stream(), s = f.openPrep(tiny); EAS_I32 v; dl.vol = EAS_GetVolume(f.h, l); EAS_GetPolyphony(f.h, l, &v); dl.poly = v; EAS_GetPriority(f.h, l, &v); dl.prio = v; ds.vol = EAS_GetVolume(f.h, s); EAS_GetPolyphony(f.h, s, &v); ds.poly = v; EAS_GetPriority(f.h, s, &v); ds.prio = v; EAS_CloseFile(f.h, s); EAS_CloseMIDIStream(f.h, l); }
    // before this case's streams exist, leave traces in the slots of A and W
    if (r.chance(1, 2)) { for (int k = 0; k < 2; k++) { Run &x = k ? w : a; std::vector<EAS_HANDLE> hs; for (int i = 0; i < 4; i++) { EAS_HANDLE q = x.e.stream(); if (!q) break; EAS_SetVolume(x.e.h, q, r.below(100)); EAS_SetPolyphony(x.e.h, q, 1 + r.below(maxv)); EAS_SetPriority(x.e.h, q, 1 + r.below(15)); EAS_SetRepeat(x.e.h, q, 7); EAS_SetTransposition(x.e.h, q, 5); EAS_SetPlaybackRate(x.e.h, q, 1u << 29); hs.push_back(q); } for (auto q : hs) EAS_CloseMIDIStream(x.e.h, q); } }
    for (int i = 0; i < n; i++) { if (!a.open(i)) { for (int k = 0; k < i; k++) a.close(k); for (int k = 0; k < i; k++) { b.close(k); w.close(k); } c.violation("open", "stream %d refused", i); return; } b.open(i); w.open(i); ms[i] = st[i].song ? ds : dl; }
    std::string trace; Inst mi = def; if (!compare(c, a, ms, mi, "after opening (defaults)")) { for (int i = 0; i < n; i++) { a.close(i); b.close(i); w.close(i); } return; }
    std::vector<int> wantRep(n, 0); bool stop = false; uint64_t hash = 0; Pcm pa, pb, pw; bool accepted = false;
    for (int buf = 0; buf < buffers && !stop; buf++) {
        int k = r.chance(1, 2) ? r.range(0, 5) : 0; if (!buf) k += 4;
        for (int j = 0; j < k && !stop; j++) {
            Op o; o.buf = buf; o.decoy = false; o.prm = 0; o.kind = r.below(NKIND); if (r.chance(1, 4)) o.kind = r.chance(1, 2) ? REV : CHO; o.st = o.kind >= MASTER && o.kind <= CHO ? -1 : (int)r.below(n);
            if (o.kind >= PAUSE && r.chance(2, 3)) continue; if (o.kind == WRITE) { if (st[o.st].song) continue; o.m = genMidiBytes(r, r.range(1, 8), false); o.v = 0; o.ok = true; } 
            else if (o.kind >= PAUSE) { o.v = r.below(1500); o.ok = true; if (!st[o.st].song) continue; }
            else {
                if (o.kind == REV) o.prm = r.below(4); if (o.kind == CHO) o.prm = r.below(5); bool out = r.chance(1, 3);
                if (out) { o.v = r.chance(1, 2) ? (long)r.pick(wild) : valid(r, o.kind, o.prm, maxv) + (r.chance(1, 2) ? 1 : -1) * (r.chance(1, 2) ? 1L << 32 : 1L << r.below(20)); if (o.kind >= REV && o.kind <= CHO && r.chance(1, 5)) o.prm = r.chance(1, 2) ? (long)r.pick(wild) : 5; if (o.kind == SPOLY && r.chance(1, 3)) o.prm = r.chance(1, 2) ? 1 : -1; }
                else o.v = valid(r, o.kind, o.prm, maxv);
                o.ok = inRange(o.kind, o.prm, o.v); if (o.kind >= REV && o.kind <= CHO && o.prm == 0 && !o.ok && o.v != 0) continue;   // a bypass value that is not a truth value: not specified
                if (o.kind == SPOLY && o.ok && (o.v < 1 || o.v > maxv)) o.v = maxv;   // clamped values: not specified
                if (o.kind == POLY && o.ok && o.v > maxv) o.v = 0;
                // a setting that is overwritten at once leaves no trace
                if (o.ok && (o.kind <= RATE || o.kind == REPEAT || o.kind == MASTER || o.kind == REV || o.kind == CHO) && r.chance(1, 3)) { Op q = o; q.v = valid(r, o.kind, o.prm, maxv); q.decoy = true; long cur = o.kind == REV ? mi.rev[o.prm] : o.kind == CHO ? mi.cho[o.prm] : -1; bool preset = (o.kind == REV || o.kind == CHO) && o.prm == 1; if (!preset || (q.v != cur && o.v != cur)) { trace += opText(q); EAS_RESULT x = a.apply(q); if (x) { c.violation("accept", "valid setting refused with %ld:%s", (long)x, opText(q).c_str()); stop = true; break; } c.count("superseded"); } }
            }
            EAS_RESULT x = a.apply(o); trace += opText(o); hash = hash * 1315423911u + o.kind * 131 + (uint64_t)o.v;
            if (o.kind < WRITE) {
                c.count(o.ok ? "valid_sets" : "invalid_sets"); if ((x == 0) != o.ok) { c.violation(o.ok ? "accept" : "refuse", "%s setting returns %ld:%s", o.ok ? "valid" : "invalid", (long)x, opText(o).c_str()); stop = true; break; }
                if (o.ok) switch (o.kind) { case VOL: ms[o.st].vol = o.v; break; case POLY: case PRIO: for (int i = 0; i < n; i++) { bool same = i == o.st || st[i].share == o.st || st[o.st].share == i || (st[i].share >= 0 && st[i].share == st[o.st].share); if (same) (o.kind == POLY ? ms[i].poly : ms[i].prio) = o.v; } break; case REPEAT: ms[o.st].rep = o.v; break; case MASTER: mi.master = o.v; break; case SPOLY: mi.spoly = o.v; break;
                    case REV: case CHO: if (o.prm == 1) { Inst g = a.inst(&err); if (o.kind == REV) { bool chg = mi.rev[1] != o.v; mi.rev[1] = o.v; if (chg) { mi.rev[2] = g.rev[2]; mi.rev[3] = g.rev[3]; } } else { bool chg = mi.cho[1] != o.v; mi.cho[1] = o.v; if (chg) for (int i = 2; i < 5; i++) mi.cho[i] = g.cho[i]; } } else (o.kind == REV ? mi.rev : mi.cho)[o.prm] = o.v; break; }
                if (!compare(c, a, ms, mi, "after" + opText(o) + "; calls:" + trace.substr(trace.size() > 500 ? trace.size() - 500 : 0))) { stop = true; break; }
            }
            if (o.ok) { EAS_RESULT y = b.apply(o); accepted = true; if (x != y) { c.violation("twin-result", "call returns %ld, in the twin without refused settings %ld:%s", (long)x, (long)y, trace.c_str()); stop = true; break; } }
            // setting the same value again changes nothing
            if (o.ok && o.kind < SPOLY && r.chance(1, 8)) { Op q = o; q.decoy = true; trace += opText(q); a.apply(q); c.count("set_again"); } if (o.ok && (o.kind == REV || o.kind == CHO) && r.chance(1, 8)) { Op q = o; q.prm = r.below(o.kind == REV ? 4 : 5); if (q.prm == 1) q.prm = 0; q.v = (o.kind == REV ? mi.rev : mi.cho)[q.prm]; q.decoy = true; trace += opText(q); a.apply(q); c.count("set_again"); }
            // the neighbour gets something else
            if (o.kind < WRITE && r.chance(1, 2)) { Op q = o; q.v = r.chance(1, 2) ? (long)r.pick(wild) : valid(r, o.kind, o.prm, maxv); w.apply(q); if (!compare(c, a, ms, mi, "after a setting of another instance" + opText(q))) { stop = true; break; } }
        }
        if (stop) break;
        pa.clear(); pb.clear(); pw.clear(); EAS_RESULT x = a.e.render(&pa, 1), y = b.e.render(&pb, 1); w.e.render(&pw, 1);
        if (x != y) { c.violation("twin-result", "render returns %ld and %ld; calls:%s", (long)x, (long)y, trace.c_str()); break; }
        long d = firstDiff(pa, pb); if (d >= 0) { c.violation("twin-sound", "refused or superseded settings changed the sound: buffer %d frame %ld; calls:%s", buf, d, trace.substr(trace.size() > 1500 ? trace.size() - 1500 : 0).c_str()); break; }
        if (!silent(pa)) c.nontrivial = true; c.count("buffers_compared");
        for (int i = 0; i < n; i++) { EAS_I32 v = 0; EAS_GetRepeat(a.e.h, a.h[i], &v); if (v != ms[i].rep && ms[i].rep > 0 && v == ms[i].rep - 1) ms[i].rep = v; }   // a pass was completed
        if (!compare(c, a, ms, mi, strf("after buffer %d", buf) + "; calls:" + trace.substr(trace.size() > 500 ? trace.size() - 500 : 0))) break;
        // close and reopen: defaults again
        if (r.chance(1, 25)) { int i = r.below(n); bool shared = st[i].share >= 0; for (int k2 = 0; k2 < n; k2++) if (st[k2].share == i) shared = true; if (!shared) { a.close(i); b.close(i); w.close(i); if (!a.open(i) || !b.open(i)) { c.violation("open", "reopening refused"); break; } w.open(i); ms[i] = st[i].song ? ds : dl; trace += strf(" %d:reopen[%d]", buf, i); c.count("reopened"); if (!compare(c, a, ms, mi, "after reopening")) break; } }
    }
    (void)accepted; c.caseHash = hash ^ (uint64_t)n << 50; c.sample = strf("%d streams:", n) + trace.substr(0, 200);
    for (int i = n - 1; i >= 0; i--) { a.close(i); b.close(i); w.close(i); }
}
