// C34: a limit on the parsing work per call only spreads the work: the same buffers, states, locations and results come out.
#include "scen.h"
const char *vh_property = "C34";
struct Limited { Ctx &c; Rng r; std::vector<long> lim; size_t calls = 0, empty = 0; bool stuck = false; std::string bad;
    // one buffer: calls until one delivers it
    EAS_RESULT render(Eas &e, Pcm *out) { const size_t n = (size_t)e.bufN * e.chans; for (int i = 0; i < 20000; i++) { std::vector<int16_t> b(n, 0x5a5a); EAS_I32 got = -7; EAS_RESULT x = EAS_Render(e.h, b.data(), e.bufN, &got); calls++; if (x) return x; if (got == e.bufN) { out->insert(out->end(), b.begin(), b.end()); return 0; } if (got != 0) { bad = strf("a call delivers %ld frames", (long)got); return -1000; } empty++; for (size_t k = 0; k < n; k++) if (b[k] != 0x5a5a) { bad = "a call that delivers nothing writes to the buffer"; break; } } stuck = true; return -1001; } };
void vh_case(Ctx &c) {
    Rng &r = c.rng; int bufs = r.range(20, 120), ns = r.range(1, 4); Scn s = genScn(r, ns, bufs, true, r.chance(1, 4)); 
    // at least one song with many events at a time
    if (r.chance(3, 4)) { ScnStream x; x.song = true; SmfOpt o; o.division = r.range(20, 500); int nt = r.range(1, 8); std::vector<Track> ts; for (int i = 0; i < nt; i++) { Track t = genTrack(r, r.range(10, 120), r.chance(1, 2) ? 2 : o.division / 4 + 1, false); uint32_t q = r.range(1, 60); for (auto &v : t) v.tick = v.tick / q * q; ts.push_back(t); } for (auto &t : ts) sortTrack(t); x.data = buildSmf(ts, o); x.meta = r.chance(1, 3); int n = r.below(6); for (int k = 0; k < n; k++) { ScnOp q{(int)r.below(bufs), r.pick(std::vector<int>{OP_PAUSE, OP_RESUME, OP_LOCATE, OP_LOCATE, OP_REPEAT, OP_RATE, OP_VOL})}; q.a = q.kind == OP_LOCATE ? r.below(3000) : q.kind == OP_RATE ? r.range(1 << 27, 1 << 29) : q.kind == OP_VOL ? r.below(101) : r.below(3); q.b = q.kind == OP_LOCATE && r.chance(1, 4); x.ops.push_back(q); } if (s.st.size() >= 4) s.st.pop_back(); s.st.push_back(x); }
    Eas a, b; ScnRun x(a, s), y(b, s); Limited L{c, Rng(r.next())}; long limit = r.chance(1, 4) ? r.range(1, 10) : r.range(5, 120); bool vary = r.chance(1, 4), late = r.chance(1, 4); int from = late ? r.below(bufs) : 0; std::string d = strf("limit %ld%s from buffer %d; ", limit, vary ? " and others" : "", from) + s.desc().substr(0, 250); c.sample = d; c.caseHash = s.hash() ^ (uint64_t)limit * 0x9e3779b97f4a7c15ull;
    for (int i = 0; i < bufs; i++) {
        if (!x.step()) break;
        if (i == from) EAS_SetMaxLoad(b.h, limit); else if (i > from && vary && r.chance(1, 6)) EAS_SetMaxLoad(b.h, r.chance(1, 8) ? 0 : r.range(1, 100));
        y.before(); EAS_RESULT q = L.render(b, &y.pcm); if (q != EAS_SUCCESS) { y.err = q; y.pcm.insert(y.pcm.end(), (size_t)b.bufN * b.chans, 0x1234); } y.note(99, "r", q); y.after();
        if (L.stuck) { c.violation("stuck", "20000 calls deliver no buffer (buffer %d): %s", i, d.c_str()); break; } if (!L.bad.empty()) { c.violation("buffer", "%s (buffer %d): %s", L.bad.c_str(), i, d.c_str()); break; }
        std::string m = x.cmp(y, "without and with the limit"); if (!m.empty()) { c.violation("differs", "%s, after %zu calls, %zu of them empty: %s", m.c_str(), L.calls, L.empty, d.c_str()); break; }
    }
    c.count("buffers", (long)x.at); c.count("empty_calls", (long)L.empty); if (L.empty) { c.count("limited_cases"); if (!silent(x.pcm)) c.nontrivial = true; } x.close(); y.close();
}
