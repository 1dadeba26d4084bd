// C12: transport calls and reported states against a model of the transport.
#include "probe.h"
const char *vh_property = "C12";
struct Model {   // what the documentation of the calls promises
    enum P { OPEN, READY, PLAY, PAUSED, ENDING } p = OPEN; long time = 0; bool hold = false, pausing = false, wantPause = false, wantResume = false; int repeat = 0; long frame = 1486, len = 0; bool maybeReset = false;
};
struct Song { Bytes b; long len; std::string d; std::vector<std::pair<double, double>> hits; };
static Song makeSong(Rng &r, bool hang) {
    SmfOpt o; o.division = 500; Track t; t.push_back(evProg(0, 0, 0)); uint32_t at = r.range(0, 60); int n = r.range(1, 8); Song s; for (int i = 0; i < n; i++) { int len = r.range(20, 200); t.push_back(evNote(at, 0, r.range(40, 80), 110)); if (r.chance(1, 3)) t.push_back(evNote(at + r.below(len), 9, r.pick(std::vector<int>{38, 42, 36}), 100)); t.push_back(evCC(at + len, 0, 120, 0)); t.push_back(evCC(at + len, 9, 120, 0)); at += len + r.range(30, 250); }
    if (hang) { t.push_back(evProg(at, 1, 19)); t.push_back(evNote(at, 1, 60, 90)); at += r.range(1, 100); } t.push_back(evCC(at, 0, 3, 0)); s.b = buildSmf({t}, o); s.len = at; s.d = strf("%d notes, %u ms", n, at); return s;
}
static const char *sn(long s) { static const char *n[] = {"READY", "PLAY", "STOPPING", "PAUSING", "STOPPED", "PAUSED", "OPEN", "ERROR", "EMPTY"}; return s >= 0 && s < 9 ? n[s] : "?"; }
static void modelCase(Ctx &c) {
    Rng &r = c.rng; Song s = makeSong(r, r.chance(1, 2)); Eas e; EAS_HANDLE h = nullptr; std::string trace;
    if (r.chance(1, 3)) {   // another song was there before, and went with things still asked of it
        EAS_HANDLE o = e.openPrep(makeSong(r, true).b); if (!o) { c.violation("open", "song refused"); return; } int n = r.range(1, 5); while (n--) switch (r.below(6)) { case 0: e.render(nullptr, r.range(1, 20)); trace += " (before: play)"; break; case 1: EAS_Pause(e.h, o); trace += " (before: pause)"; break; case 2: EAS_Resume(e.h, o); trace += " (before: resume)"; break; case 3: EAS_Locate(e.h, o, r.below(300), EAS_FALSE); trace += " (before: locate)"; break; case 4: EAS_SetRepeat(e.h, o, r.range(-1, 2)); EAS_SetVolume(e.h, o, r.below(101)); EAS_SetPlaybackRate(e.h, o, 1u << 27); trace += " (before: settings)"; break; case 5: { EAS_I32 len; EAS_ParseMetaData(e.h, o, &len); trace += " (before: meta)"; } }
        if (EAS_CloseFile(e.h, o)) { c.violation("close", "close refused"); return; } c.count("earlier_songs"); }
    if (e.open(s.b, &h)) { c.violation("open", "song refused"); return; } Model m; m.len = s.len; c.caseHash = fnv(s.b); c.nontrivial = true;
    auto bad = [&](const char *key, const std::string &msg) { c.violation(key, "%s; %s; calls:%s", msg.c_str(), s.d.c_str(), trace.substr(trace.size() > 900 ? trace.size() - 900 : 0).c_str()); };
    bool stop = false, sought = false; int quiet = 0;   // sought: since the last buffer
    auto check = [&] { EAS_STATE st = -1; EAS_RESULT x = EAS_State(e.h, h, &st); EAS_I32 l = -1; EAS_RESULT y = EAS_GetLocation(e.h, h, &l); if (x || (y != 0) != (m.p == Model::OPEN)) { bad("query", strf("EAS_State gives %ld, EAS_GetLocation %ld", (long)x, (long)y)); stop = true; return; } c.count("states_compared"); c.seen("model_states", (uint64_t)m.p * 100 + st * 8 + m.hold * 4 + m.wantPause * 2 + (m.repeat != 0));
        bool ok = false; switch (m.p) { case Model::OPEN: ok = st == EAS_STATE_OPEN; break; case Model::READY: ok = st == EAS_STATE_READY; break; case Model::PLAY: ok = st == EAS_STATE_PLAY || (m.time == 0 && st == EAS_STATE_READY); break; case Model::PAUSED: ok = st == EAS_STATE_PAUSED || (st == EAS_STATE_PAUSING && m.pausing); if (st == EAS_STATE_PAUSED && !m.wantPause) m.pausing = false; break; 
        case Model::ENDING: ok = st == EAS_STATE_STOPPING || st == (m.repeat ? EAS_STATE_PLAY : EAS_STATE_STOPPED); if (!ok && m.repeat) { ok = st == EAS_STATE_READY && l == 0; } break; }
        if (!ok) { bad("state", strf("state %s, the model is in %d", sn(st), m.p)); stop = true; return; }
        if (labs(l - (m.time >> 8)) > 0 && m.p != Model::OPEN) { bad("location", strf("location %ld, the model is at %ld (state %s)", (long)l, m.time >> 8, sn(st))); stop = true; } };
    int steps = r.range(40, 250); bool prepared = false; Pcm p; 
    for (int i = 0; i < steps && !stop; i++) {
        int ops = r.chance(1, 3) ? r.range(1, 4) : 0; if (i == 0) ops = r.range(0, 3);
        for (int k = 0; k < ops && !stop; k++) {
            int what = r.below(10); EAS_RESULT x = 0; EAS_STATE before = e.state(h); long lb = e.loc(h); bool allowed = true; 
            switch (what) {
            case 0: x = EAS_Prepare(e.h, h); trace += strf(" prepare=%ld", (long)x); allowed = !prepared; if (!x) { prepared = true; m.p = Model::READY; } break;
            case 1: case 2: x = EAS_Pause(e.h, h); trace += strf(" pause=%ld", (long)x); allowed = m.p == Model::READY || m.p == Model::PLAY; if (m.p == Model::PAUSED && m.hold) allowed = !x; /* pausing a song that was paused and then sought may be refused or not */ if (!x) { m.p = Model::PAUSED; m.pausing = true; m.wantPause = true; quiet = 0; } break;
            case 3: case 4: x = EAS_Resume(e.h, h); trace += strf(" resume=%ld", (long)x); allowed = m.p == Model::PAUSED; if (!x) { m.p = Model::PLAY; m.pausing = m.wantPause = false; m.wantResume = true; } break;
            case 5: { long to; bool off = r.chance(1, 3); long want; if (off) { to = r.range(-400, 400); want = (m.time >> 8) + to; if (want < 0) want = 0; } else { to = r.chance(1, 6) ? s.len + r.range(0, 300) : r.chance(1, 10) ? -(long)r.range(0, 500) : (long)r.below((uint32_t)s.len + 1); want = std::max(0L, to); }
                x = EAS_Locate(e.h, h, to, off); trace += strf(" locate(%ld%s)=%ld", to, off ? "+" : "", (long)x); allowed = m.p != Model::OPEN; if (x) break; if (want == (m.time >> 8)) break; 
                if (m.p == Model::PAUSED || m.wantPause) { m.p = Model::PAUSED; m.pausing = true; m.wantPause = true; } else m.p = want > 0 || m.wantResume ? Model::PLAY : Model::READY; m.hold = true;
                if (want > s.len && m.p == Model::PAUSED && (m.repeat || m.wantPause)) return;   // a repeat that starts while paused: not modelled
                if (want > s.len) { m.time = (long)s.len << 8; if (m.p != Model::PAUSED) m.p = Model::ENDING; else { m.p = Model::ENDING; m.pausing = false; } m.hold = false; } else m.time = want << 8; break; }
            case 6: { EAS_I32 n = r.chance(1, 2) ? 0 : r.range(0, 2); x = EAS_SetRepeat(e.h, h, n); trace += strf(" repeat(%ld)=%ld", (long)n, (long)x); allowed = true; if (!x) { m.repeat = n; } EAS_I32 g = -9; if (!x && (EAS_GetRepeat(e.h, h, &g) || g != n)) { bad("repeat", strf("repeat count %ld reads back %ld", (long)n, (long)g)); } break; }
            case 7: { EAS_I32 len = -1; if (m.p == Model::OPEN || r.chance(1, 6)) { x = EAS_ParseMetaData(e.h, h, &len); trace += strf(" meta=%ld", (long)x); allowed = m.p != Model::OPEN; if (!x) { if (len != s.len) bad("length", strf("length %ld", (long)len)); m.time = 0; m.p = Model::READY; m.hold = false; stop = m.wantPause || m.wantResume; } } break; }
            case 8: { EAS_I32 v = r.below(101); x = EAS_SetVolume(e.h, h, v); trace += " vol"; allowed = m.p != Model::OPEN || x == 0; break; }
            case 9: { if (m.p == Model::OPEN) break; uint32_t rt = r.chance(1, 2) ? 1u << 28 : (uint32_t)r.range(1 << 11, 1 << 13) << 16; x = EAS_SetPlaybackRate(e.h, h, rt); trace += strf(" rate(%u)=%ld", rt, (long)x); if (!x) m.frame = (long)(((uint64_t)rt * 1486) >> 28); break; } }
            c.count("calls"); 
            if (what == 5 && !x) { EAS_STATE now = e.state(h); if (before == EAS_STATE_PAUSED && now == EAS_STATE_PAUSING) { bad("seek-unpaused", "a seek made a paused song a pausing one"); stop = true; } if (e.loc(h) != lb) sought = true; }
            if ((what == 1 || what == 2) && !x && !sought && before == EAS_STATE_PLAY && e.state(h) != EAS_STATE_PAUSING) { bad("pausing", strf("state %s right after the pause of a playing song, before anything was rendered", sn(e.state(h)))); stop = true; }
            if (what == 7 && stop) return;   // a pause or resume still pending over a rewind: not modelled
            if (m.p == Model::ENDING && (what == 1 || what == 2 || what == 3 || what == 4)) { if (!x) { bad("ended", strf("call %d accepted by an ending song", what)); stop = true; } }
            else if ((x == 0) != allowed) { bad("allowed", strf("call %d returns %ld in state %s", what, (long)x, sn(before))); stop = true; }
            if (x && !stop) { c.count("refusals"); EAS_STATE now = e.state(h); if (m.p == Model::ENDING && (now == EAS_STATE_PAUSED || now == EAS_STATE_PAUSING) && before != now) { bad("refused-changed", strf("refused call %d changed the state %s to %s", what, sn(before), sn(now))); stop = true; } if (e.state(h) != before && m.p != Model::ENDING) { bad("refused-changed", strf("refused call %d changed the state %s to %s", what, sn(before), sn(e.state(h)))); stop = true; } if (e.loc(h) != lb) { bad("refused-changed", strf("refused call %d moved the location", what)); stop = true; } }
            if (!stop) check();
        }
        if (stop) break;
        // one buffer
        p.clear(); EAS_RESULT x = e.render(&p, 1); trace += " ."; if (x) { bad("render", strf("render gives %ld", (long)x)); break; }
        m.wantPause = m.wantResume = false; sought = false;
        if (m.p == Model::PAUSED) { quiet++; if (quiet > 3 && !silent(p)) { bad("paused-sound", strf("peak %d in buffer %d of a pause", peak(p), quiet)); break; } c.count("paused_buffers"); m.hold = false; }
        else if (m.p == Model::READY || m.p == Model::PLAY) { if (m.hold) m.hold = false; else { long end = m.time + m.frame; if (s.len < (end >> 8)) { m.p = Model::ENDING; } else { m.time = end; m.p = Model::PLAY; } } }
        if (m.p == Model::ENDING && m.repeat) { EAS_STATE st = e.state(h); if (st == EAS_STATE_READY) { EAS_I32 g = 0; EAS_GetRepeat(e.h, h, &g); if (e.loc(h) == 0 && st == EAS_STATE_READY) { if (g != m.repeat - 1) bad("repeat", strf("repeat count went from %d to %ld", m.repeat, (long)g)); m.repeat = (int)g; m.p = Model::READY; m.time = 0; c.count("repeats"); } } }
        if (m.p != Model::PAUSED) quiet = 0;
        check();
    }
    c.sample = s.d + ":" + trace.substr(0, 150); c.caseHash ^= fnv(trace.data(), trace.size()); EAS_CloseFile(e.h, h);
}
static void pauseCase(Ctx &c) {
    Rng &r = c.rng; Song s = makeSong(r, false); c.caseHash = fnv(s.b); Eas e; EAS_HANDLE h = e.openPrep(s.b); if (!h) { c.violation("open", "song refused"); return; } int n = (int)(s.len / e.bufMs()) + 3; std::vector<Pcm> ref(n); for (int i = 0; i < n; i++) e.render(&ref[i], 1); EAS_CloseFile(e.h, h);
    Eas f; h = f.openPrep(s.b); std::string tr; int song = 0; std::vector<int> group(n); for (int i = 0, g = 0; i < n; i++) { if (i && !silent(ref[i]) && silent(ref[i - 1])) g = i; group[i] = g; } int lastPause = -1; EAS_HANDLE other = r.chance(1, 3) ? f.stream() : nullptr; (void)other;
    while (song < n && !c.failed()) {
        if (r.chance(1, 12)) {
            EAS_I32 l = f.loc(h); if (EAS_Pause(f.h, h)) { break; } int hold = r.range(0, 12); Pcm q; for (int i = 0; i < hold; i++) { q.clear(); f.render(&q, 1); if (i > 2 && !silent(q)) c.violation("paused-sound", "peak %d in buffer %d of a pause at %ld ms; %s", peak(q), i, (long)l, s.d.c_str()); if (f.loc(h) != l) c.violation("paused-moves", "location %ld became %ld while paused", (long)l, (long)f.loc(h)); } 
            if (hold > 4 && f.state(h) != EAS_STATE_PAUSED) c.violation("not-paused", "state %ld after %d buffers of a pause", (long)f.state(h), hold); if (EAS_Resume(f.h, h)) { c.violation("resume", "resume refused"); break; } lastPause = song; tr += strf(" %d(%d)", song, hold); c.count("pauses"); }
        Pcm q; f.render(&q, 1); if (lastPause < 0 || lastPause <= group[song]) { c.count("buffers_compared"); long d = firstDiff(q, ref[song]); if (d >= 0) c.violation("after-pause", "buffer %d of the song differs from unpaused playback from frame %ld; pauses before buffers%s; %s %s", song, d, tr.c_str(), s.d.c_str(), hexs(s.b, 300).c_str()); if (!silent(q)) c.nontrivial = true; } song++;
    }
    c.sample = s.d + ", pauses before buffers" + tr; c.caseHash ^= fnv(tr.data(), tr.size()); EAS_CloseFile(f.h, h);
}
void vh_case(Ctx &c) { if (c.rng.chance(2, 3)) modelCase(c); else pauseCase(c); }
