// C11: a render call fills exactly the requested buffer, reports it, and advances the clock by one buffer.
#include "scen.h"
const char *vh_property = "C11";
enum { GUARD = 64 };
struct Twin {
    Eas e; ScnRun r; int16_t fill; bool refuse; long done = 0; Twin(const Scn &s, int16_t f, bool ref) : r(e, s), fill(f), refuse(ref) {}
    // one buffer rendered into a block that is exactly as large as promised, or into a larger one with guard values around it
    bool step(Ctx &c, Rng &q) {
        r.before(); size_t n = (size_t)e.bufN * e.chans;
        if (refuse && q.chance(1, 2)) {
            static const int k[] = {0, 1, 2, -1, -1000000, 7}; int pick = q.below(10); EAS_I32 want = pick < 6 ? k[pick] : pick == 6 ? e.bufN - 1 : pick == 7 ? e.bufN + 1 : pick == 8 ? e.bufN * 2 : e.bufN / 2; size_t cap = n * 2 + 64; std::vector<int16_t> b(cap, 0x2b2b); EAS_I32 got = 12345; EAS_RESULT x = EAS_Render(e.h, b.data(), want, &got); c.count("refused_sizes");
            if (x == EAS_SUCCESS) c.violation("wrong-size-accepted", "a render of %ld frames is accepted, the configured size is %d", (long)want, e.bufN); if (got != 0) c.violation("refused-count", "a refused render of %ld frames reports %ld frames", (long)want, (long)got); for (size_t i = 0; i < cap; i++) if (b[i] != 0x2b2b) { c.violation("refused-writes", "a refused render of %ld frames wrote sample %zu", (long)want, i); break; }
        }
        EAS_I32 t0 = -1, t1 = -1; EAS_GetRenderTime(e.h, &t0); bool exact = q.chance(1, 2); size_t g = exact ? 0 : GUARD; std::vector<int16_t> b(n + 2 * g, fill); int16_t gv = 0x3c3c; for (size_t i = 0; i < g; i++) b[i] = b[n + g + i] = gv; b.shrink_to_fit(); EAS_I32 got = 777; EAS_RESULT x = EAS_Render(e.h, b.data() + g, e.bufN, &got); EAS_GetRenderTime(e.h, &t1); c.count("renders");
        r.note(99, "r", x); if (x != EAS_SUCCESS) { c.violation("render-fails", "render of the configured size returns %ld (%s)", (long)x, r.s.desc().c_str()); return false; } if (got != e.bufN) c.violation("count", "render reports %ld frames of %d", (long)got, e.bufN);
        for (size_t i = 0; i < g; i++) if (b[i] != gv || b[n + g + i] != gv) { c.violation("outside", "render wrote outside the buffer (guard %zu)", i); break; }
        done++; double want = done * 1000.0 * e.bufN / e.rate; if (fabs(t1 - want) > 1.5 + want * 0.0002) c.violation("clock", "render clock says %ld ms after %ld buffers of %d frames, %.2f ms", (long)t1, done, e.bufN, want); if (t1 < t0) c.violation("clock", "render clock went from %ld to %ld", (long)t0, (long)t1);
        r.pcm.insert(r.pcm.end(), b.begin() + g, b.begin() + g + n); r.after(); return !c.failed();
    }
};
void vh_case(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(15, 60); bool fx = r.chance(1, 2); Scn s = genScn(r, r.range(0, 4), buffers, fx, false); for (auto &x : s.st) { if (r.chance(1, 3)) x.openAt = r.below(buffers); if (r.chance(1, 3)) x.closeAt = x.openAt + r.below(buffers); } c.caseHash = s.hash(); c.sample = s.desc();
    Twin a(s, 0x5555, false), b(s, (int16_t)0xAAAA, true); Rng qa(r.next()), qb(r.next());
    for (int i = 0; i < buffers; i++) { int open = 0; for (auto h : a.r.h) if (h) open++; if (!a.step(c, qa) || !b.step(c, qb)) return; }
    std::string d = a.r.cmp(b.r, "buffer prefilled with 0x5555, and with 0xAAAA with refused renders in between"); if (!d.empty()) { c.violation("not-all-written", "%s; %s", d.c_str(), s.desc().c_str()); return; }
    if (!silent(a.r.pcm)) c.nontrivial = true;
    // nothing open: silence. Voices of closed streams fade within a buffer or two; effects have tails
    if (!fx) { a.r.close(); size_t at = a.r.pcm.size() / a.e.chans; Pcm p; if (a.e.render(&p, 12)) { c.violation("render-fails", "render with nothing open fails"); return; } c.count("idle_checked"); for (int k = 3; k < 12; k++) if (!silent(p, (size_t)k * a.e.bufN, a.e.bufN)) { c.violation("idle-sound", "peak %d in buffer %d after everything was closed; %s", peak(p, (size_t)k * a.e.bufN, a.e.bufN), k, s.desc().c_str()); break; } (void)at; }
    Eas e; int n = r.range(1, 6); Pcm p; if (e.render(&p, n)) c.violation("render-fails", "render of a fresh instance fails"); if (!silent(p)) c.violation("idle-sound", "a fresh instance is not silent"); 
    // an instance with a live stream and a song that is only opened: silent as well
    EAS_HANDLE h = e.stream(), g = nullptr; e.open(probeSong(), &g); p.clear(); if (e.render(&p, 4)) c.violation("render-fails", "render with an unprepared song fails"); if (!silent(p)) c.violation("idle-sound", "an instance on which nothing was started is not silent"); (void)h;
}
