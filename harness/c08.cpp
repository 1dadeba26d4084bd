// C08: every call does a bounded amount of work, every song ends in time, and stays ended.
#include "probe.h"
const char *vh_property = "C08";
// duration of a song from its tracks: events in tick order under the tempo map, milliseconds
static double durationMs(const std::vector<Track> &ts, int division, bool eotOnly = false) {
    std::vector<std::pair<uint32_t, uint32_t>> tempo; uint32_t last = 0; for (auto &t : ts) for (auto &e : t) { last = std::max(last, e.tick); if (e.b.size() == 6 && e.b[0] == 0xff && e.b[1] == 0x51) tempo.push_back({e.tick, (uint32_t)e.b[3] << 16 | e.b[4] << 8 | e.b[5]}); }
    std::stable_sort(tempo.begin(), tempo.end(), [](auto &a, auto &b) { return a.first < b.first; }); double ms = 0, us = 500000; uint32_t at = 0; for (auto &p : tempo) { ms += (p.first - at) * us / division / 1000; at = p.first; us = p.second; } return ms + (last - at) * us / division / 1000;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; Eas e; std::string d; Bytes b; double dur = -1; bool hostile = r.chance(1, 2), broken = !hostile && r.chance(1, 4); int tracks = 1; bool notesLeft = true;
    if (hostile) { b = genSong(r, true, 60); d = "hostile song " + hexs(b, 200); tracks = 130; }
    else if (broken) {   // notes of sustaining instruments are down, some struck at that very moment, when the file turns out to be damaged
        std::vector<Track> ts(r.range(1, 2)); SmfOpt o; o.division = 500; int at = r.range(0, 300), n = r.range(1, 8); for (int i = 0; i < n; i++) { Track &t = ts[r.below((uint32_t)ts.size())]; int ch = r.below(6), pr = r.range(16, 20), k = r.range(40, 80), when = r.chance(1, 2) ? at : r.range(0, at); t.push_back(evProg(0, ch, pr)); t.push_back(evNote(when, ch, k, 100)); if (r.chance(1, 3)) t.push_back(evCC(when, ch, 64, 127)); }
        for (auto &t : ts) sortTrack(t); uint8_t ty = r.range(1, 7); Track &t = ts.back(); Track keep; for (auto &x : t) keep.push_back(x); decltype(evNote(0,0,0,0)) bad = evNote(at, 0, 60, 1); bad.b = {0xff, ty, 0x8f, 0xff, 0xff, 0xff, 0x7f}; if (r.chance(1, 2)) { int k = r.below(3); bad.b = k == 0 ? Bytes{0xc1, 20} : k == 1 ? Bytes{0xff, ty, 2, 'a', 'b'} : Bytes{0xb1, 1, 0}; const Bytes dt{0x9f, 0xff, 0xff, 0xff, 0x7f}; cat(bad.b, dt); bad.b.push_back(0xc1); bad.b.push_back(20); c.count("delta_times_too_large"); } keep.push_back(bad); for (int i = 0; i < 3; i++) keep.push_back(evNote(at + 10 + i, 0, 60 + i, 90)); t = keep; b = buildSmf(ts, o); dur = at; d = strf("damaged at %d ms, %zu bytes %s", at, b.size(), hexs(b, 200).c_str()); tracks = (int)ts.size();
    } else {
        std::vector<Track> ts; SmfOpt o; static const uint16_t divs[] = {24, 96, 120, 192, 480, 960}; o.division = r.pick(divs); int n = r.range(1, 4); for (int i = 0; i < n; i++) ts.push_back(genTrack(r, r.range(1, 50), o.division / 2, false)); 
        if (r.chance(1, 3)) { notesLeft = false; for (auto &t : ts) { Track u; for (auto &x : t) if ((x.b[0] & 0xf0) != 0x90) u.push_back(x); t = u; } }
        for (auto &t : ts) sortTrack(t); dur = durationMs(ts, o.division); b = buildSmf(ts, o); d = strf("%d tracks, %.0f ms, %zu bytes%s %s", n, dur, b.size(), notesLeft ? "" : ", no notes", hexs(b, 150).c_str()); tracks = n;
    }
    c.sample = d.substr(0, 200); c.caseHash = fnv(b);
    MemFile *f = e.file(b); EAS_HANDLE s = nullptr; auto readBound = [&](const char *what, int64_t r0, int64_t extra) { int64_t n = f->reads - r0, lim = ((int64_t)b.size() + 64) * (tracks + 2) * 2 + extra; c.count("work_checks"); if (n > lim) c.violation("work", "%s made %lld reads of a %zu byte file: %s", what, (long long)n, b.size(), d.c_str()); };
    int64_t r0 = f->reads; if (r.chance(1, 8)) EAS_SetHeaderSearchFlag(e.h, EAS_TRUE); if (EAS_OpenFile(e.h, f->locator(), &s) != EAS_SUCCESS) { readBound("EAS_OpenFile", r0, 0); c.count("refused"); return; }
    if (EAS_Prepare(e.h, s) != EAS_SUCCESS) { readBound("EAS_Prepare", r0, 0); EAS_CloseFile(e.h, s); c.count("refused"); return; } readBound("EAS_Prepare", r0, 0); c.nontrivial = true; 
    EAS_I32 len = 0; double limit; r0 = f->reads; EAS_RESULT mr = broken ? EAS_SUCCESS : EAS_ParseMetaData(e.h, s, &len); readBound("EAS_ParseMetaData", r0, 0);
    if (mr != EAS_SUCCESS || len >= 8388607) {   // failed, or longer than what can be reported
         c.count("metadata_error"); EAS_CloseFile(e.h, s); r0 = f->reads; if (EAS_OpenFile(e.h, f->locator(), &s) != EAS_SUCCESS || EAS_Prepare(e.h, s) != EAS_SUCCESS) { c.violation("reopen", "a song that was accepted is refused the second time: %s", d.c_str()); return; } EAS_RESULT lr = EAS_Locate(e.h, s, 2000000000, EAS_FALSE); if (lr == EAS_SUCCESS && e.state(s) != EAS_STATE_STOPPED && e.state(s) != EAS_STATE_STOPPING) c.count("longer_than_23_days"); len = -1; if (e.state(s) == EAS_STATE_PLAY || e.state(s) == EAS_STATE_READY) { EAS_CloseFile(e.h, s); return; } }
    if (len < 0) limit = 0; else if (dur >= 0) limit = dur; else limit = len;
    if (limit > 8000) { EAS_I32 to = (EAS_I32)std::min(limit - 1000, 2e9); r0 = f->reads; EAS_RESULT lr = EAS_Locate(e.h, s, to, EAS_FALSE); readBound("EAS_Locate", r0, 0); limit = 1100; c.count("located_near_end"); if (lr != EAS_SUCCESS && lr != EAS_EOF) limit = 0; }
    int reps = 0; if (len >= 0 && !broken && r.chance(1, 5)) { reps = r.range(1, 2); EAS_SetRepeat(e.h, s, reps); limit = dur >= 0 && dur <= 8000 ? dur : len <= 8000 ? len : -1; if (limit < 0) { reps = 0; EAS_SetRepeat(e.h, s, 0); limit = 1100; } }
    if (r.chance(1, 6)) { EAS_SetPlaybackRate(e.h, s, 1u << 29); }
    // another stream holding every voice, which the song has to take from it
    EAS_HANDLE comp = nullptr; if (r.chance(1, 3)) { comp = e.stream(); if (comp) { EAS_SetPriority(e.h, comp, 15); EAS_SetPriority(e.h, s, 1); EAS_SetVolume(e.h, comp, 5); Bytes m{0xc0, 19, 0xc1, 48}; e.write(comp, m); } }
    auto hold = [&](int n) { if (!comp) return; Bytes m; int k = n == 0 ? 90 : r.range(1, 10); for (int i = 0; i < k; i++) { int q = n == 0 ? 20 + i : r.range(20, 110); m.push_back(0x90 | (i & 1)); m.push_back(q); m.push_back(40); } e.write(comp, m); };
    const double tail = 12000; double budget = (limit + tail) * (reps + 1) + 300; int maxBuf = (int)(budget / e.bufMs()) + 4, n = 0; bool ended = false; EAS_STATE st = -1; Pcm p; bool evEnd = false; int evEndBuf = 0; bool err = false;
    for (; n < maxBuf; n++) { if (n == 0 || (comp && n % 16 == 0)) hold(n); r0 = f->reads; EAS_RESULT x = e.render(nullptr, 1); readBound("EAS_Render", r0, 0); st = e.state(s); if (x != EAS_SUCCESS) err = true; if (!evEnd && (st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED)) { evEnd = true; evEndBuf = n; } if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) { ended = true; break; } }
    c.count("buffers", n); if (ended && broken) { c.count("damaged_songs"); if (st != EAS_STATE_ERROR) c.violation("damage", "state %ld, not the error state, after %s", (long)st, d.c_str()); } if (!ended) { c.violation("endless", "state %ld after %.0f ms; the song lasts %.0f ms (reported length %ld): %s", (long)st, n * e.bufMs(), limit, (long)len, d.c_str()); return; }
    c.count(st == EAS_STATE_ERROR ? "ended_in_error" : "ended_stopped"); if (evEnd && st == EAS_STATE_STOPPED) { double t = (n - evEndBuf) * e.bufMs(); c.seen("tails_100ms", (uint64_t)(t / 100)); if (!notesLeft && !reps && n - evEndBuf > 4) c.violation("late-stop", "no note sounds but the song stops %d buffers after its last event: %s", n - evEndBuf, d.c_str()); }
    if (!notesLeft && !reps && dur >= 0 && dur <= 8000 && n * e.bufMs() > dur * 1.01 + 120 + dur * 0.02) c.violation("late-stop", "a silent song of %.0f ms stops after %.0f ms: %s", dur, n * e.bufMs(), d.c_str());
    // ended means ended: silence (after the notes an error cut off have faded), same state
    if (comp) { Bytes m; for (int ch = 0; ch < 2; ch++) { m.push_back(0xb0 | ch); m.push_back(120); m.push_back(0); } e.write(comp, m); e.render(nullptr, 4); c.count("with_voice_competition"); }
    int settle = st == EAS_STATE_ERROR ? (int)(tail / e.bufMs()) : 1; Pcm z; for (int i = 0; i < settle; i++) { z.clear(); e.render(&z, 1); if (silent(z) && i > 20) break; }
    z.clear(); EAS_I32 l0 = e.loc(s); EAS_RESULT x = e.render(&z, 30); if (x != EAS_SUCCESS) c.violation("render-ended", "rendering an ended song returns %ld: %s", (long)x, d.c_str()); if (!silent(z)) c.violation(st == EAS_STATE_ERROR ? "sound-after-error" : "sound-after-end", "peak %d after the song ended (state %ld): %s", peak(z), (long)st, d.c_str());
    if (e.state(s) != st) c.violation("restart", "state %ld became %ld by rendering an ended song: %s", (long)st, (long)e.state(s), d.c_str()); if (st == EAS_STATE_STOPPED && e.loc(s) < l0) c.violation("restart", "location went from %ld to %ld: %s", (long)l0, (long)e.loc(s), d.c_str());
    EAS_CloseFile(e.h, s); if (comp) EAS_CloseMIDIStream(e.h, comp);
}
