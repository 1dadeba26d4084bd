// C05: everything acquired is released; open/use/close cycles can be repeated for ever.
#include "probe.h"
const char *vh_property = "C05";
static void metacb(E_EAS_METADATA_TYPE, char *b, EAS_VOID_PTR d) { (*(uint64_t *)d) += strlen(b); }
// can a song of so many tracks (each needs a file handle) be opened and prepared?
static bool fits(Eas &e, int tracks) { std::vector<Track> ts; for (int k = 0; k < tracks; k++) ts.push_back({evNote(0, k & 15, 60, 90)}); EAS_HANDLE s = nullptr; bool ok = false; size_t n = e.files.size(); MemFile *f = e.file(buildSmf(ts)); if (EAS_OpenFile(e.h, f->locator(), &s) == EAS_SUCCESS) { ok = EAS_Prepare(e.h, s) == EAS_SUCCESS; EAS_CloseFile(e.h, s); } e.files.resize(n); return ok; }
static int capacity() { static int best = -1; if (best < 0) { AllocLog *g = g_alloc; g_alloc = nullptr; { Eas e; best = 0; for (int t = 1; t <= 128; t++) if (fits(e, t)) best = t; e.shutdown(); } g_alloc = g; } return best; }
// one complete use of the library: everything it opens it closes; returns a digest of what the calls answered
static uint64_t cycle(Eas &e, uint64_t seed, Ctx &c, std::string *tr, bool allowGlobal) {
    Rng r(seed); uint64_t dg = 5, sink = 0; std::vector<char> mb(r.range(1, 80));
    auto did = [&](const char *k, EAS_RESULT x) { dg = dg * 1099511628211ull + (uint64_t)(x + 7) + fnv(k, strlen(k)); if (tr) *tr += strf("%s=%ld ", k, (long)x); c.count(x == EAS_SUCCESS ? "calls_ok" : "calls_failed"); return x; };
    std::vector<std::pair<EAS_HANDLE, bool>> hs; EAS_HANDLE s = nullptr; int n = r.range(1, 7);
    for (int i = 0; i < n; i++) {
        if (r.chance(2, 3)) {
            Bytes b; int tracks = 0; if (r.chance(1, 12)) { std::vector<Track> ts; tracks = r.range(20, 140); for (int k = 0; k < tracks; k++) ts.push_back({evNote(k, k & 15, 60, 90)}); b = buildSmf(ts); } else b = genSong(r, r.chance(1, 2), 40);
            if (r.chance(1, 8)) b.resize(r.below((uint32_t)b.size() + 1));
            MemFile *f = e.file(b); if (r.chance(1, 4)) { f->failAtRead = r.below(200); f->failMode = r.range(1, 5); f->failSticky = r.chance(1, 2); f->mutSeed = r.next(); }
            if (r.chance(1, 10)) EAS_SetHeaderSearchFlag(e.h, EAS_TRUE);
            if (did("open", EAS_OpenFile(e.h, f->locator(), &s)) == EAS_SUCCESS) { hs.push_back({s, true}); if (r.chance(9, 10)) { if (did("prep", EAS_Prepare(e.h, s)) != EAS_SUCCESS && r.chance(1, 3)) did("prep2", EAS_Prepare(e.h, s)); }
                if (r.chance(1, 4)) { did("reg", EAS_RegisterMetaDataCallback(e.h, s, metacb, mb.data(), (EAS_I32)mb.size(), &sink)); EAS_I32 len; did("meta", EAS_ParseMetaData(e.h, s, &len)); } if (r.chance(1, 4)) did("rep", EAS_SetRepeat(e.h, s, r.range(-1, 2))); }
            EAS_SetHeaderSearchFlag(e.h, EAS_FALSE);
        } else {
            EAS_HANDLE sh = nullptr; if (!hs.empty() && r.chance(1, 3) && hs[0].second) sh = hs[0].first;
            if (did("live", EAS_OpenMIDIStream(e.h, &s, sh)) == EAS_SUCCESS) hs.push_back({s, false});
        }
    }
    int steps = r.range(1, 10);
    for (int i = 0; i < steps && !hs.empty(); i++) {
        auto &h = hs[r.below((uint32_t)hs.size())];
        switch (r.below(7)) {
        case 0: { DlsSpec d = genDlsSpec(r, r.chance(1, 2)); Bytes b = buildDls(d); if (r.chance(1, 3)) mutate(r, b, r.range(1, 6)); MemFile *f = e.file(b); if (r.chance(1, 4)) { f->failAtRead = r.below(150); f->failMode = r.range(1, 5); f->mutSeed = r.next(); } EAS_HANDLE t = allowGlobal && r.chance(1, 4) ? nullptr : h.first; did("dls", EAS_LoadDLSCollection(e.h, t, f->locator())); c.count("dls_loads"); break; }
        case 1: if (!h.second) did("write", e.write(h.first, genMidiBytes(r, r.range(1, 30), r.chance(1, 2)))); else did("loc", EAS_Locate(e.h, h.first, r.below(3000), EAS_FALSE)); break;
        case 2: if (h.second) did("pause", r.chance(1, 2) ? EAS_Pause(e.h, h.first) : EAS_Resume(e.h, h.first)); break;
        case 3: if (r.chance(1, 3)) did("lib", EAS_SetSoundLibrary(e.h, h.first, nullptr)); break;
        default: { int k = r.range(1, 20); for (int j = 0; j < k; j++) { EAS_RESULT x = e.render(nullptr, 1); if (x != EAS_SUCCESS) { did("render", x); break; } } c.count("buffers", k); }
        }
    }
    while (!hs.empty()) { size_t k = r.below((uint32_t)hs.size()); EAS_RESULT x = hs[k].second ? EAS_CloseFile(e.h, hs[k].first) : EAS_CloseMIDIStream(e.h, hs[k].first); did("close", x); if (x != EAS_SUCCESS) c.violation("close", "closing returned %ld", (long)x); hs.erase(hs.begin() + k); }
    for (int j = 0; j < 3; j++) e.render(nullptr, 1);
    e.files.clear();   // the host may drop its file objects once the streams are closed
    return dg;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); g_alloc = &log; std::string tr; uint64_t hsh = 5; c.nontrivial = true;
    Eas e; int64_t base = log.live, baseBytes = log.liveBytes;
    if (r.chance(1, 2)) {   // different work, one after the other
        int k = r.range(2, c.thorough() ? 30 : 12); bool gl = r.chance(1, 3); for (int i = 0; i < k && !c.failed(); i++) { std::string t; hsh = hsh * 31 + cycle(e, r.next(), c, &t, gl); tr = t; c.count("cycles"); if (!gl && log.live != base) c.violation("leak-after-close", "%lld blocks (%lld bytes) remain after everything was closed: %s", (long long)(log.live - base), (long long)(log.liveBytes - baseBytes), t.c_str()); }
    } else {                // the same work many times
        uint64_t seed = r.next(); int k = r.range(3, r.chance(1, 4) ? 120 : 20); bool gl = r.chance(1, 6); uint64_t d0 = 0; int64_t l0 = 0;
        for (int i = 0; i < k && !c.failed(); i++) { std::string t; uint64_t d = cycle(e, seed, c, &t, gl); c.count("cycles"); if (i == 0) { d0 = d; tr = t; l0 = log.live; } else { if (d != d0) c.violation("exhausted", "repetition %d of the same work answers differently: first %s now %s", i, tr.c_str(), t.c_str()); if (log.live != l0) c.violation("leak-per-cycle", "repetition %d leaves %lld more blocks than the first: %s", i, (long long)(log.live - l0), t.c_str()); } }
        hsh = d0; c.count("repeated_cycles", k);
    }
    if (!c.failed()) { EAS_RESULT why; Pcm p = playProbe(e, 8, &why); if (p.empty()) c.violation("unusable", "a good song is refused afterwards (%ld): %s", (long)why, tr.c_str());
        std::vector<EAS_HANDLE> v; for (int i = 0; i < 4; i++) { EAS_HANDLE s = e.stream(); if (!s) { c.violation("slots", "only %d of 4 streams can be opened after everything was closed: %s", i, tr.c_str()); break; } v.push_back(s); } for (auto s : v) EAS_CloseMIDIStream(e.h, s); c.count("slot_checks"); }
    if (!c.failed()) { int cap = capacity(); if (!fits(e, cap)) c.violation("file-handles", "a song of %d tracks can no longer be prepared after everything was closed: %s", cap, tr.c_str()); else c.count("handle_checks"); }
    EAS_RESULT x = e.shutdown(); if (x != EAS_SUCCESS) c.violation("shutdown", "shutdown returned %ld", (long)x);
    if (log.live && !c.failed()) c.violation("leak", "%lld blocks (%lld bytes) remain after shutdown: %s", (long long)log.live, (long long)log.liveBytes, tr.c_str());
    if (log.badFree) c.violation("bad-free", "%llu bad frees: %s", (unsigned long long)log.badFree, tr.c_str());
    c.count("allocations", log.nAlloc); g_alloc = nullptr; c.caseHash = hsh; c.sample = tr.substr(0, 300);
}
