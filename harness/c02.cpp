// C02: any DLS bytes load (or fail) and play safely.
#include "probe.h"
const char *vh_property = "C02";
static Bytes corpusLike(Rng &r) { DlsSpec s = genDlsSpec(r, r.chance(2, 3)); Bytes b = buildDls(s); if (r.chance(3, 5)) mutate(r, b, r.range(1, r.chance(1, 3) ? 30 : 4)); if (r.chance(1, 60)) b.resize(r.below(64)); return b; }
void vh_case(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); log.maxSingle = 64 << 20; log.maxTotal = 256 << 20; g_alloc = &log;
    Bytes dls = corpusLike(r); c.caseHash = fnv(dls); c.sample = strf("%zu-byte DLS %s", dls.size(), hexs(dls, 64).c_str());
    Eas e; if (!e.h) { c.violation("init", "EAS_Init failed"); return; }
    int mode = r.below(3); EAS_RESULT x; EAS_HANDLE s = nullptr, s2 = nullptr; EAS_RESULT x2 = 0;
    auto chk = [&](EAS_RESULT q, const char *w) { c.seen("results", fnv(w, strlen(w), 77 + (uint64_t)(q + 1000))); if (!documented(q)) c.violation(std::string("undocumented-result:") + w, "%s returned %ld", w, (long)q); return q; };
    auto dlsFile = [&](const Bytes &b) { MemFile *f = e.file(b); return f; };
    auto notes = [&](EAS_HANDLE st, int n) {
        for (int i = 0; i < n; i++) {
            Bytes b; int ch = r.chance(1, 4) ? 9 : r.below(4);
            if (r.chance(1, 2)) { uint8_t msb = r.chance(1, 2) ? 0x79 : r.chance(1, 2) ? 0x78 : r.below(128); cat(b, {(uint8_t)(0xB0 | ch), 0, msb}); cat(b, {(uint8_t)(0xB0 | ch), 32, (uint8_t)(r.chance(2, 3) ? 0 : r.below(128))}); }
            cat(b, {(uint8_t)(0xC0 | ch), (uint8_t)(r.chance(2, 3) ? r.below(8) : r.below(128))});
            int k = r.range(1, 6); for (int j = 0; j < k; j++) cat(b, {(uint8_t)(0x90 | ch), (uint8_t)r.below(128), (uint8_t)r.range(1, 127)});
            if (r.chance(1, 3)) cat(b, genMsg(r, false));
            chk(e.write(st, b), "EAS_WriteMIDIStream"); int nb = r.below(4); for (int j = 0; j < nb; j++) { if (chk(e.render(nullptr, 1), "EAS_Render") != EAS_SUCCESS) { c.violation("render-error", "rendering a live stream after loading a sound bank failed"); return; } c.count("buffers"); }
        }
    };
    bool loaded = false; MemFile *f;
    if (mode == 0) {        // global before anything
        f = dlsFile(dls); x = chk(EAS_LoadDLSCollection(e.h, nullptr, f->locator()), "EAS_LoadDLSCollection"); loaded = x == EAS_SUCCESS;
        s = e.stream(); if (s) notes(s, r.range(3, 10)); else c.violation("no-stream", "no live stream can be opened after a sound-bank load that returned %ld", (long)x);
    } else if (mode == 1) { // per stream, live
        s = e.stream(); if (!s) { c.violation("no-stream", "no live stream"); return; } if (r.chance(1, 2)) notes(s, 2);
        f = dlsFile(dls); x = chk(EAS_LoadDLSCollection(e.h, s, f->locator()), "EAS_LoadDLSCollection"); loaded = x == EAS_SUCCESS; notes(s, r.range(3, 10));
    } else {                // per song
        Bytes song = genSong(r, false, 60); s = e.openPrep(song); if (!s) { c.violation("no-song", "generated song refused"); return; }
        if (r.chance(1, 2)) for (int i = 0; i < 5; i++) chk(e.render(nullptr, 1), "EAS_Render");
        f = dlsFile(dls); x = chk(EAS_LoadDLSCollection(e.h, s, f->locator()), "EAS_LoadDLSCollection"); loaded = x == EAS_SUCCESS;
        for (int i = 0; i < r.range(20, 120); i++) { if (chk(e.render(nullptr, 1), "EAS_Render") != EAS_SUCCESS) { c.violation("render-error", "song rendering failed after sound-bank load"); break; } c.count("buffers"); }
        s2 = e.stream(); if (s2) notes(s2, 3);
    }
    c.count(loaded ? "loads_ok" : "loads_refused"); if (f->reads > 4) c.nontrivial = true;
    if (f->negReads) c.violation("negative-read", "%s", f->firstBad.c_str());
    // replace
    if (r.chance(1, 2)) {
        Bytes d2 = r.chance(1, 2) ? corpusLike(r) : buildDls(genDlsSpec(r, false)); MemFile *g = dlsFile(d2); EAS_HANDLE tgt = r.chance(1, 3) ? nullptr : (mode == 2 && s2 && r.chance(1, 2)) ? s2 : s;
        x2 = chk(EAS_LoadDLSCollection(e.h, tgt, g->locator()), "EAS_LoadDLSCollection"); c.count("second_loads"); if (g->negReads) c.violation("negative-read", "%s", g->firstBad.c_str());
        EAS_HANDLE live = mode == 2 ? s2 : s; if (live) notes(live, 4);
        if (r.chance(1, 3)) { EAS_HANDLE s3 = e.stream(); if (s3) { notes(s3, 3); EAS_CloseMIDIStream(e.h, s3); } }
    }
    if (mode == 2) { if (s2) chk(EAS_CloseMIDIStream(e.h, s2), "EAS_CloseMIDIStream"); if (s) chk(EAS_CloseFile(e.h, s), "EAS_CloseFile"); } else if (s) chk(EAS_CloseMIDIStream(e.h, s), "EAS_CloseMIDIStream");
    for (int i = 0; i < 3; i++) e.render(nullptr, 1);
    // a failed load leaves the sounds as they were
    if (!loaded && x2 == 0 && mode == 0) { Pcm p = playProbe(e); (void)p; if (p.empty()) c.violation("unusable", "a good song cannot be played after a failed sound-bank load"); else if (peak(p) < 500) c.violation("failed-load-changes-sound", "a good song is silent after a failed load"); else c.count("probe_ok"); }
    EAS_RESULT q = e.shutdown(); if (q != EAS_SUCCESS) c.violation("shutdown", "EAS_Shutdown returned %ld", (long)q);
    if (log.badFree) c.violation("bad-free", "%llu bad frees", (unsigned long long)log.badFree);
    g_alloc = nullptr;
}
