// C10: song time follows the tempo map and the division.
#include "probe.h"
const char *vh_property = "C10";
struct Map { std::vector<std::pair<uint32_t, uint32_t>> t; int div; 
    // milliseconds of a tick; err: what rounding the tempo to 1/1024 ms per tick may add
    double ms(uint32_t tick, double *err = nullptr) const { double m = 0, x = 0; uint32_t at = 0, us = 500000; auto seg = [&](uint32_t n) { double per = (double)us / div / 1000; m += n * per; x += n * (0.5 / 1024 + 0.001 / 1024); }; for (auto &p : t) { if (p.first >= tick) break; seg(p.first - at); at = p.first; us = p.second; } seg(tick - at); if (err) *err = x; return m; } };
void vh_case(Ctx &c) {
    Rng &r = c.rng; Eas e; static const uint16_t divs[] = {1, 2, 5, 24, 48, 96, 100, 120, 192, 240, 384, 480, 500, 960, 1024, 1920, 4800, 9600, 15360, 32767}; SmfOpt o; o.division = r.pick(divs); Map map; map.div = o.division; int nt = r.range(1, 4); std::vector<Track> ts(nt); bool longSong = r.chance(1, 6);
    double target = longSong ? r.range(10, 8000) * 1000.0 : r.range(500, 6000); int nTempo = r.range(0, longSong ? 4 : 10); uint32_t quarter = o.division; double at = 0; uint32_t tick = 0; uint32_t us = 500000; std::vector<double> noteMs;
    // tempo events first (so that the map is known), at random ticks
    for (int i = 0; i <= nTempo && at < target; i++) {
        double span = target / (nTempo + 1); uint32_t n = (uint32_t)std::max(1.0, span * 1000 * quarter / us * (0.3 + r.below(1000) / 1000.0)); if (i == 0 && r.chance(1, 2)) n = 0; tick += n; at += (double)n * us / quarter / 1000;
        if (i == nTempo) break;
        us = r.chance(1, 8) ? 500000 : (uint32_t)r.range(40000, r.chance(1, 5) ? 16777215 : 1500000); if (longSong && us < 200000) us += 200000; if (r.chance(1, 30)) { us = 60000000 / r.range(20, 300); }
        ts[r.below(nt)].push_back(evTempo(tick, us)); map.t.push_back({tick, us}); if (map.t.size() > 1 && map.t[map.t.size() - 2].first == tick) { map.t.pop_back(); ts[0].clear(); for (auto &t : ts) t.clear(); map.t.clear(); at = 0; tick = 0; us = 500000; nTempo = 0; i = -1; }
    }
    std::stable_sort(map.t.begin(), map.t.end(), [](auto &a, auto &b) { return a.first < b.first; });
    uint32_t lastTick = tick; std::vector<uint32_t> noteTick;
    if (!longSong) { // short hits with silence between them
        double now = r.below(300); uint32_t tk = 0; int ch = r.chance(1, 3) ? 9 : 0; 
        for (int i = 0; i < 40; i++) { // first tick whose time is >= now
            uint32_t lo = tk, hi = 0x7fffff; while (lo < hi) { uint32_t mid = lo + (hi - lo) / 2; if (map.ms(mid) >= now) hi = mid; else lo = mid + 1; } tk = lo; double t = map.ms(tk); if (t > target * 1.2 || tk == 0x7fffff) break;
            noteTick.push_back(tk); noteMs.push_back(t); uint32_t offTick = tk; while (map.ms(offTick) < t + 25 && offTick < tk + 100000) { uint32_t step = 1 + (uint32_t)((t + 25 - map.ms(offTick)) / 40 * o.division / 400); offTick += step; }
            int tr = r.below(nt); ts[tr].push_back(evNote(tk, ch, ch == 9 ? 38 : r.range(50, 80), 120)); ts[tr].push_back(evCC(offTick, ch, 120, 0)); lastTick = std::max(lastTick, offTick); now = map.ms(offTick) + 60 + r.below(600); tk = offTick + 1; }
    }
    if (noteTick.empty()) { ts[0].push_back(evCC(lastTick, 0, 3, 0)); }
    if (r.chance(1, 3)) { int k = r.range(1, 12); while (k--) ts[r.below(nt)].push_back(evText(r.below(lastTick + 1), 1, "x")); }
    o.eotDelta = r.chance(1, 3) ? r.below(o.division * 2 + 1) : 0; uint32_t endTick = 0; for (auto &t : ts) { sortTrack(t); endTick = std::max(endTick, (t.empty() ? 0 : t.back().tick) + o.eotDelta); } size_t nEv = 0; for (auto &t : ts) nEv += t.size() + 1;
    // a song that opens with a setup bar (time signature, tempo and GM On together at its start) begins at its first note
    double bar = 0; bool setup = !longSong && !noteTick.empty() && r.chance(1, 6); if (setup) { std::vector<Ev> q{evMeta(0, 0x58, {4, 2, 24, 8}), evTempo(0, 500000), evSysex(0, {0x7e, 0x7f, 9, 1, 0xf7})}; for (int i = 2; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]); ts[0].insert(ts[0].begin(), q.begin(), q.end()); sortTrack(ts[0]); nEv += 3; bar = noteMs[0]; for (auto &m : noteMs) m -= bar; c.count("setup_bars"); }
    // with one or two of the three it begins where it is written
    if (!setup && r.chance(1, 5)) { bool tempo0 = !map.t.empty() && map.t[0].first == 0; int which = tempo0 ? r.pick(std::vector<int>{1, 2, 3, 4}) : r.range(1, 6); std::vector<Ev> q; if (which & 1) q.push_back(evMeta(0, 0x58, {(uint8_t)r.range(2, 7), 2, 24, 8})); if (which & 2) q.push_back(tempo0 ? evText(0, 1, "y") : evTempo(0, 500000)); if (which & 4) q.push_back(evSysex(0, {0x7e, 0x7f, 9, 1, 0xf7})); int reps = r.range(1, 3); while (reps--) for (auto &x : q) if (reps == 0 || r.chance(1, 2)) { auto &t = ts[x.b[0] == 0xf0 ? 0 : r.below(nt)]; t.insert(t.begin(), x); nEv++; } for (auto &t : ts) sortTrack(t); c.count("partial_setups"); }
    // thousands of events in the tick of a note, ahead of it
    if (!longSong && !setup && !noteTick.empty() && r.chance(1, 20)) { int blocks = r.range(1, 2), n = r.chance(1, 2) ? r.range(1000, 20000) : r.range(20000, 70000); uint32_t last = ~0u; while (blocks--) { uint32_t tk = r.pick(noteTick); if (tk == last) break; last = tk; Track blk; for (int i = 0; i < n; i++) blk.push_back(evCC(tk, i & 7, 3, i & 127)); auto &t = ts[r.below(nt)]; t.insert(t.begin(), blk.begin(), blk.end()); sortTrack(t); c.count("dense_events", n); } c.count("dense_blocks"); }
    Bytes b = buildSmf(ts, o); c.caseHash = fnv(b); double lenErr; double len = map.ms(endTick, &lenErr) - bar; std::string d = strf("division %d, %zu tempo events, %d tracks, %.1f ms: ", o.division, map.t.size(), nt, len) + hexs(b, 300); c.sample = d.substr(0, 200);
    // a tick longer than what can be represented is clamped; the map above never needs it
    EAS_HANDLE s = e.openPrep(b); if (!s) { c.violation("refused", "well-formed song refused: %s", d.c_str()); return; }
    c.nontrivial = true; const double slack = 2.0 + nEv / 200.0;
    if (!setup && r.chance(2, 3)) { EAS_I32 l = -1; EAS_RESULT x = EAS_ParseMetaData(e.h, s, &l); if (len + lenErr < 8388000) { if (x != EAS_SUCCESS) c.violation("length", "length not reported (%ld): %s", (long)x, d.c_str()); else if (fabs(l - len) > lenErr + slack) c.violation("length", "reported %ld ms, the tempo map gives %.1f +-%.1f: %s", (long)l, len, lenErr + slack, d.c_str()); c.count("lengths_compared"); } }
    if (longSong) { // seek: the song must go on before its end and be over after it
        if (len + lenErr < 8000000 && len - lenErr > 3000) { EAS_I32 to = (EAS_I32)(len - lenErr - slack - 500); if (to > 0) { EAS_RESULT x = EAS_Locate(e.h, s, to, EAS_FALSE); EAS_STATE st = e.state(s); if (x != EAS_SUCCESS || (st != EAS_STATE_PLAY && st != EAS_STATE_READY)) c.violation("early-end", "seeking to %ld of %.1f ms gives %ld, state %ld: %s", (long)to, len, (long)x, (long)st, d.c_str()); else if (labs(e.loc(s) - to) > 1) c.violation("location", "location %ld after seeking to %ld: %s", (long)e.loc(s), (long)to, d.c_str()); else { int n = (int)((500 + 2 * lenErr + 2 * slack + 60) / e.bufMs()) + 4; bool done = false; if (n < 30000) { for (int i = 0; i < n && !done; i++) { e.render(nullptr, 1); done = e.state(s) == EAS_STATE_STOPPED; } if (!done) c.violation("late-end", "not stopped %.0f ms after the end: %s", n * e.bufMs(), d.c_str()); c.count("long_ends_timed"); } } } }
        EAS_CloseFile(e.h, s); return; }
    static const uint32_t rates[] = {1u << 28, 1u << 28, 1u << 28, 1u << 27, 1u << 29, 0}; uint32_t rt = r.pick(rates); if (!rt) rt = r.range(1 << 27, 1 << 29); double rate = rt / 268435456.0; if (rt != 1u << 28 || r.chance(1, 4)) { if (EAS_SetPlaybackRate(e.h, s, rt) != EAS_SUCCESS) c.violation("rate", "rate %u refused", rt); }
    double relRate = rt == 1u << 28 ? 1e-4 : 1.0 / (1486 * rate) + 3e-4;   // a buffer is a whole number of 1/256 ms of song time
    int nb = (int)((len + lenErr) / rate / e.bufMs() * (1 + relRate)) + 20; if (nb > 4000) nb = 4000; Pcm p; double maxBack = 0; EAS_I32 prev = 0; bool stoppedSeen = false; double stopMs = 0; 
    for (int i = 0; i < nb; i++) { if (e.render(&p, 1)) { c.violation("render", "render failed: %s", d.c_str()); break; } EAS_I32 l = e.loc(s); EAS_STATE st = e.state(s); if (st == EAS_STATE_PLAY) { double want = (i + 1) * e.bufMs() * rate; if (fabs(l - want) > 2.5 + want * relRate) { c.violation("location", "location %ld after %.1f ms at rate %.3f: %s", (long)l, (i + 1) * e.bufMs(), rate, d.c_str()); break; } c.count("locations_compared"); } if (l < prev) { c.violation("backwards", "location went from %ld to %ld: %s", (long)prev, (long)l, d.c_str()); break; } prev = l; if (!stoppedSeen && st >= EAS_STATE_STOPPING && st != EAS_STATE_PAUSING) { stoppedSeen = true; stopMs = (i + 1) * e.bufMs(); if (st == EAS_STATE_STOPPED) break; } }
    if (nb < 4000) { if (!stoppedSeen) c.violation("late-end", "not ended %.1f ms after its %.1f ms: %s", nb * e.bufMs(), len, d.c_str()); else { double want = len / rate, tol = lenErr / rate + slack + 2 * e.bufMs() + want * relRate; if (fabs(stopMs - want) > tol) c.violation("end-time", "ends at %.1f ms, expected %.1f +- %.1f (rate %.3f): %s", stopMs, want, tol, rate, d.c_str()); c.count("ends_compared"); } }
    // onsets: sound begins after silence
    std::vector<double> on; bool wasSilent = true; for (size_t k = 0; k * e.bufN * e.chans < p.size(); k++) { bool sl = silent(p, k * e.bufN, e.bufN); if (!sl && wasSilent) on.push_back(k * e.bufMs()); wasSilent = sl; }
    size_t expect = 0; while (expect < noteMs.size()) expect++;
    if (nb < 4000) { double tolLast = lenErr; (void)tolLast; if (on.size() != noteMs.size()) c.violation("onsets", "%zu onsets heard, %zu notes: %s", on.size(), noteMs.size(), d.c_str());
        else for (size_t i = 0; i < on.size(); i++) { double er; map.ms(noteTick[i], &er); double want = noteMs[i] / rate, tol = er / rate + 1.3 / rate + nEv / 250.0 / rate + want * relRate; c.count("onsets_compared"); if (on[i] > want + tol || on[i] < want - tol - e.bufMs()) { c.violation("onset", "note %zu heard at %.1f ms, due at %.1f +- %.1f (rate %.3f): %s", i, on[i], want, tol, rate, d.c_str()); break; } } }
    EAS_CloseFile(e.h, s);
}
