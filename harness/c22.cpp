// C22: instances in different threads: no data race (ThreadSanitizer), and every one behaves as if alone.
#include "scen.h"
#include <thread>
#include <atomic>
#include <sched.h>
const char *vh_property = "C22";
struct Work { Scn s; int repeats = 1; bool meta = false, probe = false, globalDls = false; Bytes dls; uint64_t seed = 0; int yield = 0, ownVol = -1; };
struct Res { std::vector<uint64_t> digests; Pcm pcm; std::string log; };
// one life of an instance and its scenario
static Res work(const Work &w, bool alone) {
    Res out; Rng r(w.seed); for (int k = 0; k < w.repeats; k++) {
        Eas e; if (w.globalDls) { EAS_RESULT x = EAS_LoadDLSCollection(e.h, nullptr, e.file(w.dls)->locator()); out.log += strf("dls=%ld ", (long)x); }
        if (w.meta && !w.s.st.empty() && w.s.st[0].song) { EAS_HANDLE h = nullptr; if (!e.open(w.s.st[0].data, &h) && h) { EAS_I32 t = -1, len = -1; EAS_GetFileType(e.h, h, &t); EAS_RESULT x = EAS_Prepare(e.h, h); if (!x) x = EAS_ParseMetaData(e.h, h, &len); out.log += strf("type=%ld meta=%ld/%ld ", (long)t, (long)x, (long)len); EAS_CloseFile(e.h, h); } }
        ScnRun x(e, w.s); while (x.step()) { if (!alone && w.yield && (int)r.below(100) < w.yield) sched_yield(); }
        EAS_I32 sp = 0; EAS_GetSynthPolyphony(e.h, 0, &sp); EAS_I32 p[9]; for (int i = 0; i < 4; i++) EAS_GetParameter(e.h, EAS_MODULE_REVERB, i, &p[i]); for (int i = 0; i < 5; i++) EAS_GetParameter(e.h, EAS_MODULE_CHORUS, i, &p[4 + i]); EAS_U32 t = 0; EAS_GetRenderTime(e.h, (EAS_I32 *)&t); out.log += strf("vol=%ld poly=%ld t=%lu", (long)EAS_GetVolume(e.h, nullptr), (long)sp, (unsigned long)(uint32_t)t); for (long v : p) out.log += strf(" %ld", v);
        x.close(); out.digests.push_back(x.digest()); if (!k) out.pcm = x.pcm; }
    return out;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; int n = r.range(2, 6); std::vector<Work> ws(n); bool same = r.chance(1, 4); 
    for (int i = 0; i < n; i++) { Work &w = ws[i]; if (i && same) { w = ws[0]; } else { w.s = genScn(r, r.range(1, 3), r.range(4, 30), true, true); w.meta = r.chance(1, 3); w.globalDls = r.chance(1, 4); if (w.globalDls) w.dls = buildDls(genDlsSpec(r, false)); w.repeats = r.chance(1, 3) ? 2 : 1; } w.yield = r.chance(1, 2) ? 30 : 0; w.seed = r.next(); }
    AllocLog *sv = g_alloc; g_alloc = nullptr; std::vector<Res> seq(n), par(n); bool before = r.chance(1, 2); if (before) for (int i = 0; i < n; i++) seq[i] = work(ws[i], true);
    { std::vector<std::thread> th; for (int i = 0; i < n; i++) th.emplace_back([&, i] { par[i] = work(ws[i], false); }); for (auto &t : th) t.join(); }
    if (!before) for (int i = 0; i < n; i++) seq[i] = work(ws[i], true);
    // and two of them call by call in turns on one thread
    if (n >= 2 && !ws[0].globalDls && !ws[1].globalDls) { Eas e, f; ScnRun x(e, ws[0].s), y(f, ws[1].s); bool a = true, b = true; Eas *t = nullptr; while (a || b) { if (r.chance(1, 10)) { delete t; t = new Eas; if (r.chance(1, 2)) { Pcm p = playProbe(*t, 3); } } if (r.chance(1, 2)) a = x.step(); else b = y.step(); } delete t; x.close(); y.close(); if (x.digest() != seq[0].digests[0]) c.violation("interleaved", "instance 0 differs from itself alone when calls of instance 1 are interleaved; %s / %s", ws[0].s.desc().substr(0, 300).c_str(), ws[1].s.desc().substr(0, 300).c_str()); if (y.digest() != seq[1].digests[0]) c.violation("interleaved", "instance 1 differs from itself alone when calls of instance 0 are interleaved; %s / %s", ws[0].s.desc().substr(0, 300).c_str(), ws[1].s.desc().substr(0, 300).c_str()); c.count("interleaved_pairs"); }
    g_alloc = sv; std::string d; uint64_t h = 0;
    for (int i = 0; i < n; i++) { if (seq[i].digests != par[i].digests || seq[i].log != par[i].log) { long f = firstDiff(seq[i].pcm, par[i].pcm); c.violation("concurrent", "instance %d of %d differs from itself alone when run beside others in threads (first sample difference %ld; %s / %s): %s", i, n, f, seq[i].log.c_str(), par[i].log.c_str(), ws[i].s.desc().substr(0, 300).c_str()); } if (!silent(seq[i].pcm)) c.nontrivial = true; h = h * 31 + ws[i].s.hash(); d += ws[i].s.desc().substr(0, 40) + " | "; }
    c.count("threads", n); c.count("instances", 2 * n); c.caseHash = h; c.sample = strf("%d threads: ", n) + d;
}
