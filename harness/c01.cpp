#include "probe.h"
#include <dirent.h>
const char *vh_property = "C01";
static void metacb(E_EAS_METADATA_TYPE t, char *buf, EAS_VOID_PTR d) { size_t n = strlen(buf); (*(uint64_t *)d) += n + 1 + (uint64_t)t; }
static std::vector<Bytes> &corpus(const std::string &dir) {
    static std::vector<Bytes> v; static bool done = false; if (done) return v; done = true;
    std::vector<std::string> names; if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') names.push_back(dir + "/" + e->d_name); closedir(d); }
    std::sort(names.begin(), names.end());
    for (auto &n : names) if (FILE *f = fopen(n.c_str(), "rb")) { Bytes b(65536); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f); if (!b.empty()) v.push_back(b); }
    return v;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; auto &cp = corpus(c.aux);
    const Pcm &ref = probeReference();
    AllocLog log; log.fill = r.byte(); g_alloc = &log;
    Bytes song;
    if (!cp.empty() && r.chance(1, 4)) { song = r.pick(cp); mutate(r, song, r.range(1, 12)); if (song.size() > 20000) song.resize(20000); c.count("mutated_corpus_songs"); }
    else song = genSong(r, true, r.chance(1, 5) ? 300 : 60);
    c.caseHash = fnv(song); c.sample = strf("%zu-byte song %s", song.size(), hexs(song, 48).c_str());
    Eas e; if (e.initResult != EAS_SUCCESS) { c.violation("init", "EAS_Init failed with %s", resName(e.initResult)); return; }
    if (r.chance(1, 6)) EAS_SetHeaderSearchFlag(e.h, EAS_TRUE);
    char mbuf[256]; uint64_t mcount = 0;
    Pcm pcm; EAS_HANDLE s = nullptr; MemFile *mf = e.file(song);
    auto chk = [&](EAS_RESULT x, const char *what) { c.seen("results", fnv(what, strlen(what), 77 + (uint64_t)(x + 1000))); if (!documented(x)) c.violation(std::string("undocumented-result:") + what, "%s returned %ld", what, (long)x); return x; };
    EAS_RESULT x = chk(EAS_OpenFile(e.h, mf->locator(), &s), "EAS_OpenFile");
    c.count(x == EAS_SUCCESS ? "opened" : "refused");
    if (x == EAS_SUCCESS) {
        c.nontrivial = true;
        EAS_I32 v; int n = r.range(4, 14); bool prepared = false;
        for (int i = 0; i < n && !c.failed(); i++) {
            int op = i == 0 ? (r.chance(1, 3) ? 0 : 10) : i == 1 && !prepared && r.chance(4, 5) ? 2 : r.below(11);
            switch (op) {
            case 0: chk(EAS_ParseMetaData(e.h, s, &v), "EAS_ParseMetaData"); c.count("parse_metadata"); break;
            case 1: { EAS_I32 t = r.chance(1, 4) ? (EAS_I32)(int32_t)r.next() : r.below(20000); chk(EAS_Locate(e.h, s, t, r.chance(1, 3)), "EAS_Locate"); c.count("locates"); break; }
            case 2: chk(EAS_Prepare(e.h, s), "EAS_Prepare"); prepared = true; break;
            case 3: case 4: case 5: { int k = r.range(1, 60); for (int j = 0; j < k; j++) { EAS_RESULT q = chk(e.render(nullptr, 1), "EAS_Render"); if (q != EAS_SUCCESS) { c.count("render_errors"); break; } c.count("buffers"); } break; }
            case 6: chk(EAS_SetRepeat(e.h, s, r.below(4)), "EAS_SetRepeat"); break;
            case 7: chk(EAS_Pause(e.h, s), "EAS_Pause"); break;
            case 8: chk(EAS_Resume(e.h, s), "EAS_Resume"); break;
            case 9: chk(EAS_SetPlaybackRate(e.h, s, (1u << 27) + r.below((1u << 29) - (1u << 27))), "EAS_SetPlaybackRate"); break;
            case 10: chk(EAS_RegisterMetaDataCallback(e.h, s, metacb, mbuf, r.chance(1, 4) ? r.range(1, 8) : 256, &mcount), "EAS_RegisterMetaDataCallback"); break;
            }
            EAS_STATE st; if (chk(EAS_State(e.h, s, &st), "EAS_State") == EAS_SUCCESS) { c.seen("states", (uint64_t)st); if (st < 0 || st > EAS_STATE_EMPTY) c.violation("bad-state", "EAS_State reports %ld", (long)st); }
        }
        if (mcount) c.count("metadata_chars", mcount);
        chk(EAS_CloseFile(e.h, s), "EAS_CloseFile");
    }
    if (log.badFree) c.violation("bad-free", "%llu frees of memory that is not live", (unsigned long long)log.badFree);
    if (mf->negReads) c.violation("negative-read", "%s", mf->firstBad.c_str());
    // the instance must still play a good song
    EAS_SetHeaderSearchFlag(e.h, EAS_FALSE);
    for (int i = 0; i < 8; i++) e.render(nullptr, 1);
    EAS_RESULT why; Pcm p = playProbe(e, 24, &why);
    if (p.empty()) c.violation("unusable", "a good song is refused or cannot be rendered after this one (%s)", resName(why));
    else if (peak(p) < 500) c.violation("unusable-silent", "a good song is silent after this one (peak %d)", peak(p));
    else c.count("probe_ok");
    (void)ref;
    EAS_RESULT q = e.shutdown(); if (q != EAS_SUCCESS) c.violation("shutdown", "EAS_Shutdown returned %s", resName(q));
    g_alloc = nullptr;
}
