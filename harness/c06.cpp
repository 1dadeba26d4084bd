// C06: any single allocation failing (or all of them from one point of a call on) yields an error or a graceful
// degradation, no crash, no leak, and the same call succeeds when retried.
#include "probe.h"
const char *vh_property = "C06";
struct Step { const char *name; std::function<EAS_RESULT()> f; };
void vh_case(Ctx &c) {
    uint64_t seed = c.rng.next(); uint64_t hsh = 6; std::string tr;
    // the same scenario, with allocation number k failing (k<0: none); from: all later ones in that call as well
    struct Out { std::vector<std::pair<std::string, EAS_RESULT>> res; Pcm pcm; int64_t total = 0, live = 0; uint64_t badFree = 0; bool hit = false, silentHit = false, crashed = false; std::string where; EAS_RESULT got = 0, retry = 0; };
    auto run = [&](int64_t k, bool from) {
        Rng r(seed); Out o; AllocLog log; log.fill = 0xa5; g_alloc = &log; Eas e(false); Pcm pcm;
        auto call = [&](const char *nm, std::function<EAS_RESULT()> f, std::function<void()> undo = nullptr) {
            int64_t n0 = log.sinceArm, f0 = log.failed; if (k >= 0) { log.failAt = k; log.failFrom = from; }
            EAS_RESULT x = f(); log.failAt = -1; log.failFrom = false;
            if (k >= 0 && log.failed > (uint64_t)f0 && n0 <= k && log.sinceArm > k) {
                o.hit = true; o.where = nm; o.got = x; if (x == EAS_SUCCESS) { o.silentHit = true; } else { k = -1; x = f(); o.retry = x; }
                k = -1;
            }
            o.res.push_back({nm, x}); return x;
        };
        EAS_RESULT x = call("EAS_Init", [&] { EAS_RESULT q = EAS_Init(&e.h); if (q != EAS_SUCCESS && e.h) { EAS_Shutdown(e.h); e.h = nullptr; } return q; });
        if (x == EAS_SUCCESS) {
            struct S { EAS_HANDLE h; bool song; }; std::vector<S> st; int n = r.range(1, 4), made = 0; uint64_t sink = 0; std::vector<char> mb(40);
            while (made < n) {
                made++; EAS_HANDLE s = nullptr;
                if (r.chance(1, 2)) { Bytes b = genSong(r, r.chance(1, 3), 30); MemFile *f = e.file(b); if (call("EAS_OpenFile", [&] { return EAS_OpenFile(e.h, f->locator(), &s); }) != EAS_SUCCESS) continue; st.push_back({s, true}); if (call("EAS_Prepare", [&] { return EAS_Prepare(e.h, s); }) != EAS_SUCCESS) continue; if (r.chance(1, 3)) { EAS_I32 len; call("EAS_ParseMetaData", [&] { return EAS_ParseMetaData(e.h, s, &len); }); } }
                else { EAS_HANDLE sh = !st.empty() && st[0].song && r.chance(1, 2) ? st[0].h : nullptr; if (call("EAS_OpenMIDIStream", [&] { return EAS_OpenMIDIStream(e.h, &s, sh); }) != EAS_SUCCESS) continue; st.push_back({s, false}); }
                if (r.chance(1, 2)) { DlsSpec d = genDlsSpec(r, r.chance(1, 4)); MemFile *f = e.file(buildDls(d)); EAS_HANDLE t = r.chance(1, 3) ? nullptr : s; call("EAS_LoadDLSCollection", [&] { return EAS_LoadDLSCollection(e.h, t, f->locator()); }); }
                for (auto &q : st) if (!q.song) { Bytes b = genMidiBytes(r, 6, false); call("EAS_WriteMIDIStream", [&] { return e.write(q.h, b); }); }
                int m = r.range(1, 4); for (int i = 0; i < m; i++) call("EAS_Render", [&] { return e.render(&pcm, 1); });
            }
            for (auto &q : st) call("close", [&] { return q.song ? EAS_CloseFile(e.h, q.h) : EAS_CloseMIDIStream(e.h, q.h); });
            call("EAS_Render", [&] { return e.render(&pcm, 1); });
            o.total = log.sinceArm;
            { Pcm p = playProbe(e, 8); if (p.empty()) o.res.push_back({"probe", -1}); else pcm.insert(pcm.end(), p.begin(), p.end()); }
            call("EAS_Shutdown", [&] { return e.shutdown(); });
        }
        if (!o.total) o.total = log.sinceArm;
        o.live = log.live; o.badFree = log.badFree; o.pcm.swap(pcm); g_alloc = nullptr; return o;
    };
    Out ref = run(-1, false); for (auto &p : ref.res) { hsh = fnv(p.first.data(), p.first.size(), hsh * 31 + (uint64_t)p.second); tr += strf("%s=%ld ", p.first.c_str(), (long)p.second); } c.count("scenarios"); c.caseHash = hsh; c.sample = tr.substr(0, 300);
    if (ref.live || ref.badFree) { c.violation("leak:nofault", "%lld blocks remain without any fault: %s", (long long)ref.live, tr.c_str()); return; }
    for (int64_t k = 0; k < ref.total && !c.failed(); k++) for (int from = 0; from < 2 && !c.failed(); from++) {
        Out o = run(k, from); if (!o.hit) { c.violation("harness", "allocation %lld was not reached", (long long)k); break; } c.nontrivial = true; c.count("faults_injected"); c.count(o.silentHit ? "faults_absorbed" : "faults_reported"); c.seen("failed_calls", fnv(o.where.data(), o.where.size(), (uint64_t)(o.got + 9999)));
        std::string w = strf("allocation %lld (%s) fails in %s, which returned %ld; scenario: %s", (long long)k, from ? "and later" : "once", o.where.c_str(), (long)o.got, tr.c_str());
        if (o.live) c.violation("leak:" + o.where, "%lld blocks remain after shutdown: %s", (long long)o.live, w.c_str());
        if (o.badFree) c.violation("bad-free:" + o.where, "%llu bad frees: %s", (unsigned long long)o.badFree, w.c_str());
        if (!documented(o.got)) c.violation("undocumented", "%s", w.c_str());
        if (o.silentHit) continue;
        bool same = o.res.size() == ref.res.size(); size_t at = 0; for (size_t i = 0; same && i < o.res.size(); i++) if (o.res[i] != ref.res[i]) { same = false; at = i; }
        if (!same) c.violation("retry:" + o.where, "after retrying, call %zu %s answers %ld instead of %ld: %s", at, at < o.res.size() ? o.res[at].first.c_str() : "-", at < o.res.size() ? (long)o.res[at].second : 0, at < ref.res.size() ? (long)ref.res[at].second : 0, w.c_str());
        else if (firstDiff(o.pcm, ref.pcm) >= 0) c.violation("sound:" + o.where, "after the failed call was retried the samples differ from frame %ld: %s", firstDiff(o.pcm, ref.pcm), w.c_str());
        else c.count("retries_identical");
    }
}
