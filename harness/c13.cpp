// C13: after a seek everything sounds as in uninterrupted playback from that point.
// The reference is the same song, delayed by whole milliseconds so that the seek target falls on a buffer
// boundary (128 buffers last exactly 743 ms), without the notes struck before the target, played from its start.
#include "probe.h"
const char *vh_property = "C13";
struct TEv { uint32_t tick; long ms256; Bytes m; bool note; };   // ms256: time in 1/256 ms as the documentation of the tempo defines it, rounded to the parser's grid
static std::vector<TEv> genEvents(Rng &r, bool tempo, uint32_t &endMs) {
    std::vector<TEv> v; uint32_t tick = 0; int n = r.range(10, 90); int chans = r.range(1, 4); static const int ccs[] = {0, 1, 7, 7, 10, 11, 64, 64, 121, 32, 6, 38, 100, 101, 74, 91, 123, 120, 98, 99}; int notes = 0;
    auto put = [&](Bytes m, bool note = false) { v.push_back({tick, 0, m, note}); };
    for (int i = 0; i < n; i++) {
        if (r.chance(2, 3)) tick += r.chance(1, 6) ? r.range(100, 900) : r.range(0, 120);
        int ch = r.chance(1, 8) ? 9 : r.below(chans);
        switch (r.below(12)) {
        case 0: put({(uint8_t)(0xc0 | ch), (uint8_t)r.below(128)}); break;
        case 1: put({(uint8_t)(0xe0 | ch), (uint8_t)r.below(128), (uint8_t)r.below(128)}); break;
        case 2: case 3: put({(uint8_t)(0xb0 | ch), (uint8_t)r.pick(ccs), (uint8_t)(r.chance(1, 3) ? r.pick({0, 127, 64}) : r.below(128))}); break;
        case 4: { int rpn = r.below(3); put({(uint8_t)(0xb0 | ch), 101, 0}); put({(uint8_t)(0xb0 | ch), 100, (uint8_t)rpn}); put({(uint8_t)(0xb0 | ch), 6, (uint8_t)(rpn == 0 ? r.below(25) : r.range(50, 78))}); break; }
        case 5: put({(uint8_t)(0xd0 | ch), (uint8_t)r.below(128)}); break;
        case 6: if (tempo) { uint32_t us = r.range(200000, 900000); put({0xff, 0x51, 3, (uint8_t)(us >> 16), (uint8_t)(us >> 8), (uint8_t)us}); } break;
        case 7: { int k = r.below(8); if (k == 0) put({0xf0, 5, 0x7e, 0x7f, 9, 1, 0xf7}); else if (k < 3) put({0xf0, 7, 0x7f, 0x7f, 4, 1, (uint8_t)r.below(128), (uint8_t)r.range(40, 127), 0xf7}); break; }
        default: { if (notes++ > 45) break; int k = r.range(30, 90); put({(uint8_t)(0x90 | ch), (uint8_t)k, (uint8_t)r.range(30, 127)}, true); uint32_t s = tick; tick += r.range(5, 400); put({(uint8_t)(0x80 | ch), (uint8_t)k, 64}); tick = s; } }
    }
    std::stable_sort(v.begin(), v.end(), [](const TEv &a, const TEv &b) { return a.tick < b.tick; });
    // times: division 500, 1 tick = tempo/500 us
    uint32_t conv = 1024, last = 0; double t = 0; for (auto &e : v) { t += (e.tick - last) * (double)conv / 4; last = e.tick; e.ms256 = (long)t; if (e.m[0] == 0xff) { uint32_t us = e.m[3] << 16 | e.m[4] << 8 | e.m[5]; conv = (us * 1024ull / 500 + 500) / 1000; } } endMs = (uint32_t)(t / 256) + 1;
    return v;
}
static Bytes song(const std::vector<TEv> &v, uint32_t delay, long dropBefore, int tracks) {
    std::vector<Track> ts(tracks); ts[0].push_back({0, {0xff, 0x51, 3, 7, 0xa1, 0x20}}); int i = 0;
    for (auto &e : v) { int k = i++ % tracks; if (tracks > 1) { if (e.m[0] == 0xff || e.m[0] == 0xf0) k = 0; else k = (e.m[0] & 15) % tracks; } ts[k].push_back({e.tick + delay, e.note && dropBefore >= 0 && (e.ms256 >> 8) < dropBefore ? Bytes{(uint8_t)(0xb0 | (e.m[0] & 15)), 3, 0} : e.m}); }   // in their place: a controller nobody listens to, so that the times round alike
    uint32_t end = (v.empty() ? 0 : v.back().tick) + delay + 50; ts[0].push_back(evCC(end, 15, 3, 0)); SmfOpt o; o.division = 500; return buildSmf(ts, o);
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; bool tempo = r.chance(1, 2); uint32_t endMs; auto v = genEvents(r, tempo, endMs); int tracks = r.chance(1, 3) ? 3 : 1; Bytes s = song(v, 0, -1, tracks); c.caseHash = fnv(s);
    std::vector<uint32_t> targets; for (auto &e : v) if (e.note && !tempo) targets.push_back((uint32_t)(e.ms256 >> 8));
    uint32_t T = !targets.empty() && r.chance(1, 3) ? r.pick(targets) + r.range(0, 1) : r.range(1, (int)endMs); if (T < 1) T = 1;
    if (tempo) for (auto &e : v) if (e.note && labs((e.ms256 >> 8) - (long)T) < 2) return;   // on the edge: which side is a matter of rounding
    uint32_t k = (T + 742) / 743, D = k * 743 - T; int nb = 60 + r.below(200);
    // reference
    Eas a; EAS_HANDLE h = a.openPrep(song(v, D, T, tracks)); if (!h) { c.violation("open", "song refused"); return; } Pcm junk, ref; a.render(&junk, (int)k * 128); if (a.loc(h) != (EAS_I32)(k * 743)) { c.count("reference_ended_early"); if (a.state(h) == EAS_STATE_PLAY) c.violation("location", "location %ld after %u buffers, %u ms", (long)a.loc(h), k * 128, k * 743); } std::vector<EAS_STATE> rs; std::vector<EAS_I32> rl; for (int i = 0; i < nb; i++) { a.render(&ref, 1); rs.push_back(a.state(h)); rl.push_back(a.loc(h)); } if (rs[0] != EAS_STATE_PLAY) { c.count("target_after_last_event"); }
    // the same point reached by seeking
    Eas b; EAS_HANDLE g = b.openPrep(s); if (!g) { c.violation("open", "song refused"); return; } EAS_HANDLE live = nullptr; std::string tr; 
    int pre = r.below(4); for (int i = 0; i < pre; i++) { if (r.chance(2, 3)) { int n = r.below(60); b.render(nullptr, n); tr += strf(" play %d;", n); } int w = r.below(7); EAS_RESULT x = 0; if (w < 3) { EAS_I32 to = r.below(endMs); x = EAS_Locate(b.h, g, to, EAS_FALSE); tr += strf(" locate %ld;", (long)to); } else if (w == 3) { x = EAS_Locate(b.h, g, endMs + 200 + r.below(5000), EAS_FALSE); tr += " locate beyond the end;"; if (!x) { EAS_STATE st = b.state(g); if (st != EAS_STATE_STOPPING && st != EAS_STATE_STOPPED) c.violation("beyond-end", "state %ld after a seek beyond the end", (long)st); Pcm q; b.render(&q, 2 + r.below(4)); if (q.size() && !silent(q, (size_t)b.bufN, (size_t)-1)) c.violation("beyond-end-sound", "peak %d after a seek beyond the end; %s", peak(q), tr.c_str()); c.count("seeks_beyond_end"); } } else if (w == 6) { EAS_I32 here = b.loc(g), by = here + r.range(1, 4000); bool rel = r.chance(2, 3); EAS_STATE st = b.state(g); x = EAS_Locate(b.h, g, rel ? -by : -r.range(1, 4000), rel); tr += strf(" locate before the start;"); if (!x && here && b.loc(g) != 0) c.violation("before-start", "location %ld after a seek to before the start (from %ld, %s, state %ld);%s", (long)b.loc(g), (long)here, rel ? "relative" : "absolute", (long)st, tr.c_str()); c.count("seeks_before_start"); } else if (w == 4) { EAS_I32 len; if (r.chance(1, 2)) x = EAS_ParseMetaData(b.h, g, &len), tr += " metadata;"; } else { if (!EAS_Pause(b.h, g)) { b.render(nullptr, r.below(8)); EAS_Resume(b.h, g); tr += " pause/resume;"; if (r.chance(1, 2)) b.render(nullptr, 1); } } if (x) { c.violation("seek-refused", "result %ld after%s", (long)x, tr.c_str()); return; } }
    if (r.chance(1, 4)) b.render(nullptr, r.below(100)); if (b.loc(g) == (EAS_I32)T) return;   // a seek to the current position does nothing
    bool paused = r.chance(1, 4) && EAS_Pause(b.h, g) == EAS_SUCCESS; bool heldPause = paused && r.chance(1, 2); if (heldPause) b.render(nullptr, 5);
    bool rel = r.chance(1, 2); EAS_I32 here = b.loc(g); EAS_RESULT x = EAS_Locate(b.h, g, rel ? (EAS_I32)T - here : (EAS_I32)T, rel); tr += strf(" %s%s to %u (from %ld)", paused ? "paused, " : "", rel ? "relative seek" : "seek", T, (long)here); c.sample = tr;
    auto bad = [&](const char *key, const std::string &m) { std::string e; for (auto &q : v) e += strf(" %ld:%s", q.ms256 >> 8, hexs(q.m).c_str()); c.violation(key, "%s; after%s; events (ms:bytes)%s", m.c_str(), tr.c_str(), e.substr(0, 2500).c_str()); };
    if (x) { bad("seek-refused", strf("seek refused with %ld", (long)x)); return; }
    if (rs[0] == EAS_STATE_PLAY && b.loc(g) != (EAS_I32)T) { bad("location", strf("location is %ld", (long)b.loc(g))); return; }
    if (paused && rs[0] == EAS_STATE_PLAY) { Pcm q; b.render(&q, r.below(6)); if (q.size() && !silent(q, (size_t)b.bufN * 2, (size_t)-1)) bad("paused-sound", "sound in a pause"); if (b.loc(g) != (EAS_I32)T) bad("location", strf("location is %ld in the pause", (long)b.loc(g))); if (EAS_Resume(b.h, g)) { bad("resume", "resume refused"); return; } if (c.failed()) return; if (q.empty()) b.render(nullptr, 1); }
    else b.render(nullptr, 1);   // the first buffer after a seek only fades out what was playing
    c.count("seeks"); Pcm p; EAS_STATE last = -1; for (int i = 0; i < nb; i++) { b.render(&p, 1); EAS_STATE st = b.state(g); EAS_I32 l = b.loc(g); if (rs[i] == EAS_STATE_PLAY && l - (EAS_I32)T != rl[i] - (EAS_I32)(k * 743)) { bad("location", strf("location %ld, %d buffers after the seek to %u (uninterrupted: %ld), state %ld", (long)l, i + 1, T, (long)(rl[i] - D), (long)st)); return; } if (st != rs[i] && !(st >= 2 && st <= 4 && rs[i] >= 2 && rs[i] <= 4)) { bad("state", strf("state %ld, %d buffers after the seek (uninterrupted: %ld)", (long)st, i + 1, (long)rs[i])); return; } }
    long d = firstDiff(p, ref); c.count("buffers_compared", nb); if (!silent(ref)) c.nontrivial = true; if (d >= 0) bad("sound", strf("samples differ from frame %ld (buffer %ld) after the seek: %d/%d", d, d / b.bufN, p[d * 2], ref[d * 2]));
}
