// C27: streams of one instance do not disturb one another: together as alone.
#include "scen.h"
const char *vh_property = "C27";
static Bytes smallSong(Rng &r, int notes, int spanMs) {
    SmfOpt o; o.division = r.chance(1, 2) ? 500 : 480; int nt = r.range(1, 3); std::vector<Track> ts(nt); for (int i = 0; i < notes; i++) { int ch = r.chance(1, 5) ? 9 : r.below(5); uint32_t at = r.below(spanMs); Track &t = ts[r.below(nt)]; int k = r.range(36, 90); t.push_back(evNote(at, ch, k, r.range(40, 120))); t.push_back(evOff(at + r.range(5, 300), ch, k)); }
    int e = r.range(0, 10); for (int i = 0; i < e; i++) { Bytes m = genMsg(r, false); if ((m[0] & 0xf0) == 0x90) continue; ts[r.below(nt)].push_back({(uint32_t)r.below(spanMs), m}); } if (r.chance(1, 5)) ts[0].push_back(evTempo(r.below(spanMs), r.range(200000, 900000))); if (r.chance(1, 8)) ts[0].push_back(evSysex(r.below(spanMs), {0x7e, 0x7f, 9, 1, 0xf7}));
    if (r.chance(1, 10)) { Bytes bad{0xF4}; ts[r.below(nt)].push_back({(uint32_t)r.below(spanMs), bad}); } for (auto &t : ts) sortTrack(t); return buildSmf(ts, o); }
struct R2 : ScnRun {   // renders again when a song's error made a call fail, so that only delivered buffers count
    int errors = 0; using ScnRun::ScnRun; std::vector<int> perr; std::function<void(R2 &)> extra;
    bool step2() { if (at >= s.buffers) return false; before(); if (extra) extra(*this); EAS_RESULT r = 0; for (int k = 0; k < 6; k++) { r = e.render(&pcm, 1); if (r == EAS_SUCCESS) break; errors++; } if (r) { err = r; return false; } after(); return true; }
    std::vector<std::string> of(size_t i) const { std::vector<std::string> v; std::string tag = strf(":%zu:", i); for (auto &l : log) { size_t p = l.find(tag); if (p != std::string::npos && p <= 6) v.push_back(l.substr(0, p) + l.substr(p + tag.size() - 1)); } return v; }
};
// handles that share one synthesizer are one stream: which handle a message goes through does not matter, and closing one leaves the others playing
static void sharedCase(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(10, 60), nh = r.range(2, 4); Eas e, f; EAS_HANDLE one = e.stream(); std::vector<EAS_HANDLE> hs(nh, nullptr); EAS_OpenMIDIStream(f.h, &hs[0], nullptr); for (int i = 1; i < nh; i++) { int k = r.below(i); if (EAS_OpenMIDIStream(f.h, &hs[i], hs[k])) { c.violation("shared-open", "sharing handle %d refused", i); hs[i] = nullptr; } } std::string tr; bool sound = false;
    for (int b = 0; b < buffers && !c.failed(); b++) { int k = r.chance(1, 2) ? r.range(1, 4) : 0; for (int i = 0; i < k; i++) { Bytes m = genMsg(r, false); std::vector<EAS_HANDLE> open; for (auto h : hs) if (h) open.push_back(h); if (open.empty()) break; e.write(one, m); EAS_RESULT x = f.write(r.pick(open), m); if (x) c.violation("shared-write", "write to a shared stream gives %ld;%s", (long)x, tr.c_str()); tr += " " + hexs(m); }
        if (r.chance(1, 12)) { int open = 0; for (auto h : hs) if (h) open++; int i = r.below(nh); if (hs[i] && open > 1) { EAS_RESULT x = EAS_CloseMIDIStream(f.h, hs[i]); hs[i] = nullptr; tr += strf(" close%d@%d", i, b); if (x) c.violation("shared-close", "closing a shared handle gives %ld", (long)x); c.count("shared_closes"); } else if (!hs[i] && open) { for (auto h : hs) if (h) { if (EAS_OpenMIDIStream(f.h, &hs[i], h)) hs[i] = nullptr; break; } } }
        Pcm x, y; e.render(&x, 1); f.render(&y, 1); if (!silent(x)) sound = true; c.count("shared_buffers"); long d = firstDiff(x, y); if (d >= 0) { c.violation("shared-sound", "%d handles on one synthesizer sound different from one handle, buffer %d frame %ld;%s", nh, b, d, tr.c_str()); break; } }
    c.nontrivial = sound; c.caseHash = fnv(tr.data(), tr.size()); c.sample = "shared handles:" + tr.substr(0, 200); for (auto h : hs) if (h) EAS_CloseMIDIStream(f.h, h); EAS_CloseMIDIStream(e.h, one);
    EAS_HANDLE again = f.stream(); if (!again) c.violation("slots", "after closing shared handles no stream can be opened"); else EAS_CloseMIDIStream(f.h, again); }
void vh_case(Ctx &c) {
    if (c.rng.chance(1, 8)) { sharedCase(c); return; }
    Rng &r = c.rng; bool heavy = r.chance(1, 4); int n = r.range(2, 4); Scn s;
    if (heavy) { s = genScn(r, n, r.range(10, 60), false, true); }
    else { s.buffers = r.range(20, 90); 
#ifdef SONIVOX_VERIF_HOOKS
        int budget = r.chance(1, 2) ? 7 : 15;
#else
        int budget = 7;
#endif

        for (int i = 0; i < n; i++) { ScnStream x; x.song = r.chance(1, 2); if (x.song) x.data = smallSong(r, r.range(1, budget), r.range(50, 500)); x.meta = r.chance(1, 5); if (r.chance(1, 6)) x.dls = buildDls(genDlsSpec(r, false));
            if (!x.song) { int k = r.range(1, budget); for (int j = 0; j < k; j++) { int ch = r.chance(1, 5) ? 9 : r.below(5), key = r.range(36, 90), at = r.below(s.buffers); ScnOp a{at, OP_WRITE}; a.m = {(uint8_t)(0x90 | ch), (uint8_t)key, (uint8_t)r.range(40, 120)}; x.ops.push_back(a); ScnOp b{at + r.range(1, 40), OP_WRITE}; b.m = {(uint8_t)(0x80 | ch), (uint8_t)key, 64}; x.ops.push_back(b); } int e = r.range(0, 8); for (int j = 0; j < e; j++) { ScnOp a{(int)r.below(s.buffers), OP_WRITE}; a.m = r.chance(1, 8) ? Bytes{0xf0, 0x7e, 0x7f, 9, 1, 0xf7} : genMsg(r, false); if ((a.m[0] & 0xf0) == 0x90) continue; x.ops.push_back(a); } }
            int k = r.range(0, 5); for (int j = 0; j < k; j++) { ScnOp o{(int)r.below(s.buffers), r.range(OP_VOL, OP_PRIO)}; switch (o.kind) { case OP_VOL: o.a = r.range(60, 100); break; case OP_TRANS: o.a = r.range(-12, 12); break; case OP_LOCATE: o.a = r.below(600); break; case OP_RATE: o.a = r.range(1 << 27, 1 << 29); break; case OP_REPEAT: o.a = r.range(0, 2); break; case OP_POLY: o.a = r.chance(1, 2) ? 0 : r.range(20, 64); break; case OP_PRIO: o.a = r.range(1, 15); break; } x.ops.push_back(o); }
            s.st.push_back(x); }
        if (r.chance(1, 3)) { int left = 84; for (auto &x : s.st) if (x.song && r.chance(2, 3)) { int k = r.below((uint32_t)left + 1); if (k < 2 || x.data.size() < 14 || memcmp(x.data.data(), "MThd", 4)) continue; int t = x.data[10] << 8 | x.data[11]; x.data[9] = 1; t += k; x.data[10] = t >> 8; x.data[11] = t; for (int j = 0; j < k; j++) { putS(x.data, "MTrk"); cat(x.data, {0, 0, 0, 4, 0, 0xff, 0x2f, 0}); } left -= k; c.count("many_track_songs"); } }
        s.master = r.range(60, 90); }
    for (auto &x : s.st) { if (r.chance(1, 4)) x.openAt = r.below(s.buffers / 2); if (r.chance(1, 4)) x.closeAt = x.openAt + r.range(1, s.buffers); }
    c.caseHash = s.hash(); c.sample = s.desc().substr(0, 300); Eas e; R2 all(e, s); std::string churn; int slotsFree = 0; (void)slotsFree; std::vector<std::pair<EAS_HANDLE, bool>> ex; bool churning = r.chance(1, 2); int maxUsed = 0, limit = 0; Rng r2(r.next()); bool limitHit = false; std::string fail;
    // streams opened, refused and closed meanwhile that make no sound
    auto countOpen = [&](R2 &x) { int k = 0; for (auto h : x.h) if (h) k++; return k + (int)ex.size(); };
    auto pendingOpen = [&](R2 &x) { int k = 0; for (size_t i = 0; i < s.st.size(); i++) if (s.st[i].openAt > x.at) k++; return k; };
    all.extra = [&](R2 &x) { if (!churning || !r2.chance(1, 4)) return; int k = r2.below(5);
        if (k == 0 || k == 1) { EAS_HANDLE h = nullptr; bool song = r2.chance(1, 2); int open = countOpen(x); EAS_RESULT y; if (song) { y = x.e.open(probeSong(), &h); if (!y && r2.chance(1, 2)) { y = EAS_Prepare(x.e.h, h); if (y) { fail = strf("EAS_Prepare gives %ld with %d streams open", (long)y, open); } else EAS_Pause(x.e.h, h); } } else { y = EAS_OpenMIDIStream(x.e.h, &h, nullptr); if (y) h = nullptr; } 
            if (open >= 4) { c.count("refused_opens"); limitHit = true; if (!y) fail = "a fifth stream was opened"; } else if (y) fail = strf("open refused (%ld) with %d streams open", (long)y, open); if (h) { ex.push_back({h, song}); churn += strf(" open@%d", x.at); if (song && x.e.state(h) == EAS_STATE_OPEN && r2.chance(1, 3)) { } if (pendingOpen(x) + countOpen(x) > 4 || (song && x.e.state(h) == EAS_STATE_READY)) { } } }
        else if (k == 2) { Bytes junk; int m = r2.below(100); for (int i = 0; i < m; i++) junk.push_back(r2.byte()); EAS_HANDLE h = nullptr; EAS_RESULT y = x.e.open(junk, &h); if (!y) EAS_CloseFile(x.e.h, h); churn += strf(" junk@%d", x.at); c.count("junk_opens"); }
        else if (k == 3 && !ex.empty()) { size_t i = r2.below((uint32_t)ex.size()); if (!ex[i].second) x.e.write(ex[i].first, {0xB0, 7, (uint8_t)r2.below(128), 0xF0, 0x7F, 0x7F, 4, 1, 0, (uint8_t)r2.below(128), 0xF7, 0xC0, (uint8_t)r2.below(128), 0xE0, 0, (uint8_t)r2.below(128)}); else { EAS_SetVolume(x.e.h, ex[i].first, r2.below(100)); EAS_SetTransposition(x.e.h, ex[i].first, 3); EAS_Locate(x.e.h, ex[i].first, r2.below(60), 0); } churn += strf(" set@%d", x.at); }
        else if (!ex.empty()) { size_t i = r2.below((uint32_t)ex.size()); ex[i].second ? EAS_CloseFile(x.e.h, ex[i].first) : EAS_CloseMIDIStream(x.e.h, ex[i].first); ex.erase(ex.begin() + i); churn += strf(" close@%d", x.at); }
        // leave room for the streams still to be opened
        while (!ex.empty() && countOpen(x) + pendingOpen(x) > 4 && (pendingOpen(x) > 0)) { ex.back().second ? EAS_CloseFile(x.e.h, ex.back().first) : EAS_CloseMIDIStream(x.e.h, ex.back().first); ex.pop_back(); } };
    while (all.step2()) {
#ifdef SONIVOX_VERIF_HOOKS
        VoiceView v; v.take(e); maxUsed = std::max(maxUsed, v.used()); EAS_I32 sp = 0; EAS_GetSynthPolyphony(e.h, 0, &sp); limit = (int)sp;
#endif
    }
    all.close(); for (auto &x : ex) x.second ? EAS_CloseFile(e.h, x.first) : EAS_CloseMIDIStream(e.h, x.first); ex.clear(); if (!fail.empty()) { c.violation("slots", "%s;%s; %s", fail.c_str(), churn.c_str(), s.desc().c_str()); return; } if (all.err) { c.violation("render", "EAS_Render keeps failing with %ld: %s", (long)all.err, s.desc().c_str()); return; }
    // after closing everything, four streams can be opened again
    { std::vector<EAS_HANDLE> hs; for (int i = 0; i < 4; i++) { EAS_HANDLE h = e.stream(); if (!h) { c.violation("slots", "after closing everything stream %d cannot be opened: %s;%s", i, s.desc().c_str(), churn.c_str()); break; } hs.push_back(h); } for (auto h : hs) EAS_CloseMIDIStream(e.h, h); }
    std::vector<Pcm> solo; for (size_t i = 0; i < s.st.size(); i++) {
        Scn one = s; one.st = {s.st[i]}; Eas f; R2 x(f, one); while (x.step2()) { } x.close(); c.count("streams_compared");
        auto a = all.of(i), b = x.of(0); if (a != b) { std::string d; for (size_t k = 0; k < a.size() || k < b.size(); k++) { std::string p = k < a.size() ? a[k] : "-", q = k < b.size() ? b[k] : "-"; if (p != q) { d = p + " / " + q; break; } } c.violation("results", "stream %zu: call results together and alone differ: %s;%s; %s", i, d.c_str(), churn.c_str(), s.desc().c_str()); return; }
        for (size_t k = 0; k < all.obs[i].size() && k < x.obs[0].size(); k++) { auto p = all.obs[i][k], q = x.obs[0][k]; c.count("states_compared"); bool tail = (p.first == EAS_STATE_STOPPING || p.first == EAS_STATE_STOPPED) && (q.first == EAS_STATE_STOPPING || q.first == EAS_STATE_STOPPED) && heavy; if (p == q || (tail && p.second == q.second)) continue; if (heavy) { bool rep = false; for (auto &o : s.st[i].ops) if (o.kind == OP_REPEAT && o.a) rep = true; bool pause = false; for (auto &o : s.st[i].ops) if (o.kind == OP_PAUSE) pause = true; if (rep || pause) break; }
            c.violation("state", "stream %zu: state/location %ld/%ld together, %ld/%ld alone in buffer %zu;%s; %s", i, (long)p.first, (long)p.second, (long)q.first, (long)q.second, k, churn.c_str(), s.desc().c_str()); return; }
        solo.push_back(x.pcm); }
    if (!silent(all.pcm)) c.nontrivial = true; if (heavy) { c.count("overloaded_cases"); return; }
    if (limit && maxUsed >= limit) { c.count("polyphony_reached"); return; } (void)limitHit;
    double gain = floor(32767 * pow(10, (s.master - 110) / 20.0)) / 16, tol = (solo.size() - 1) * (gain / 512 + 1) + 2;
    for (size_t i = 0; i < all.pcm.size(); i++) { long sum = 0; bool clip = false; for (auto &p : solo) { if (i < p.size()) { sum += p[i]; if (p[i] == 32767 || p[i] == -32768) clip = true; } } if (clip) continue; long lo = std::max(-32768L, std::min(32767L, (long)(sum - tol))), hi = std::max(-32768L, std::min(32767L, (long)(sum + tol))); if (all.pcm[i] < lo || all.pcm[i] > hi) { c.violation("sound", "the streams alone sum to %ld at frame %zu (buffer %zu), together they give %d (tolerance %.1f, %d voices);%s; %s", sum, i / e.chans, i / e.chans / e.bufN, all.pcm[i], tol, maxUsed, churn.c_str(), s.desc().c_str()); return; } }
    c.count("buffers_compared", s.buffers);
}
