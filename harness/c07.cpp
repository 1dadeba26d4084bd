// C07: song and bank data is read only through the callback, inside the file and into buffers that hold it; read
// faults at any read are answered by an error or a stopped song; undelivered bytes are never used.
#include "probe.h"
const char *vh_property = "C07";
static void metacb(E_EAS_METADATA_TYPE t, char *b, EAS_VOID_PTR d) { uint64_t *h = (uint64_t *)d; *h = fnv(b, strlen(b), *h * 31 + t); }
struct Plan { int64_t at = -1; int mode = 0; bool sticky = false; int junk = -1; uint64_t mut = 0; int target = 0; };
struct Out { std::vector<EAS_RESULT> res; Pcm pcm; std::vector<std::pair<EAS_STATE, EAS_I32>> obs; uint64_t meta = 7; int64_t reads[2] = {0, 0}; bool fin = false; std::string bad; int64_t faulted = 0; bool usable = false; int64_t live = 0; bool playErr = false; };
void vh_case(Ctx &c) {
    Rng &r0 = c.rng; Bytes song = r0.chance(1, 5) ? genSong(r0, true, 40) : genSong(r0, false, 40), dls = r0.chance(1, 2) ? buildDls(genDlsSpec(r0, r0.chance(1, 5))) : Bytes(); bool bank = !dls.empty(), search = r0.chance(1, 5), meta = r0.chance(1, 3), global = r0.chance(1, 3); int locate = r0.chance(1, 3) ? r0.range(1, 2000) : -1; int nb = r0.range(10, 60); uint64_t nseed = r0.next();
    auto run = [&](const Plan &p) {
        Out o; AllocLog log; log.fill = 0x11; g_alloc = &log; Eas e; MemFile *fs = e.file(song), *fd = e.file(dls); MemFile *t = p.target ? fd : fs; t->failAtRead = p.at; t->failMode = p.mode; t->failSticky = p.sticky; t->junk = p.junk; t->mutSeed = p.mut; EAS_HANDLE s = nullptr, l = nullptr; auto R = [&](EAS_RESULT x) { o.res.push_back(x); if (!documented(x)) o.bad = strf("undocumented result %ld", (long)x); return x; };
        char mb[64]; if (search) EAS_SetHeaderSearchFlag(e.h, EAS_TRUE);
        if (bank && global) R(EAS_LoadDLSCollection(e.h, nullptr, fd->locator()));
        bool ok = R(EAS_OpenFile(e.h, fs->locator(), &s)) == EAS_SUCCESS; if (ok) { ok = R(EAS_Prepare(e.h, s)) == EAS_SUCCESS; }
        if (bank && !global) { l = e.stream(); if (l) R(EAS_LoadDLSCollection(e.h, l, fd->locator())); }
        if (l) { Rng q(nseed); e.write(l, genMidiBytes(q, 10, false)); }
        if (ok && meta) { R(EAS_RegisterMetaDataCallback(e.h, s, metacb, mb, sizeof mb, &o.meta)); EAS_I32 len = 0; R(EAS_ParseMetaData(e.h, s, &len)); }
        if (ok && locate >= 0) { R(EAS_Locate(e.h, s, locate, EAS_FALSE)); }
        for (int i = 0; i < nb; i++) { EAS_RESULT x = e.render(&o.pcm, 1); if (x != EAS_SUCCESS) { R(x); o.playErr = true; } if (ok) { EAS_STATE st = e.state(s); o.obs.push_back({st, e.loc(s)}); if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) o.fin = true; } }
        if (s) R(EAS_CloseFile(e.h, s)); if (l) R(EAS_CloseMIDIStream(e.h, l));
        o.reads[0] = fs->reads; o.reads[1] = fd->reads; o.faulted = t->faulted; for (MemFile *f : {fs, fd}) { if (f->negReads || f->oobReads || f->badDest) o.bad = f->firstBad; }
        EAS_SetHeaderSearchFlag(e.h, EAS_FALSE); int64_t r0 = fs->reads + fd->reads; EAS_RESULT why; o.usable = !playProbe(e, 3, &why).empty(); if (fs->reads + fd->reads != r0) o.bad = "a closed file is read again";
        e.shutdown(); o.live = log.live; g_alloc = nullptr; return o;
    };
    auto judge = [&](const Out &o, const Plan &p, const char *what) {
        std::string w = strf("%s target %s read %lld mode %d%s (%zu byte song%s, locate %d)", what, p.target ? "bank" : "song", (long long)p.at, p.mode, p.sticky ? " and later" : "", song.size(), bank ? " with bank" : "", locate);
        if (!o.bad.empty()) c.violation("request", "%s: %s", o.bad.c_str(), w.c_str()); if (!o.usable) c.violation("unusable", "a good song is refused afterwards: %s", w.c_str()); if (o.live) c.violation("leak", "%lld blocks remain: %s", (long long)o.live, w.c_str()); return w; };
    Plan none; Out ref = run(none); judge(ref, none, "no fault"); c.count("reads_watched", ref.reads[0] + ref.reads[1]); c.caseHash = fnv(song) * 31 + fnv(dls) + nb; c.sample = strf("%zu byte song, %zu byte bank, %lld+%lld reads, %d buffers", song.size(), dls.size(), (long long)ref.reads[0], (long long)ref.reads[1], nb);
    if (ref.reads[0] > 4) c.nontrivial = true; if (c.failed()) return;
    Rng &r = r0; int tries = c.thorough() ? 40 : 14;
    for (int i = 0; i < tries && !c.failed(); i++) {
        Plan p; p.target = bank && r.chance(1, 3); int64_t n = ref.reads[p.target]; if (n <= 0) continue; p.at = i < 3 ? i : (int64_t)(r.next() % (uint64_t)n); p.mode = r.range(1, 5); p.sticky = r.chance(1, 2); p.mut = r.next(); p.junk = r.byte();
        Out a = run(p); std::string w = judge(a, p, "fault"); if (!a.faulted) continue; c.count("faults_injected"); c.seen("fault_outcomes", fnv(a.res.data(), a.res.size() * sizeof(EAS_RESULT))); c.count(strf("mode%d", p.mode).c_str());
        if (c.failed()) break;
        if (p.mode != 4) {   // same fault, other bytes left behind in the destination: nothing may change
            Plan q = p; q.junk = p.junk ^ (1 + r.below(255)); Out b = run(q); c.count("undelivered_byte_comparisons");
            if (a.res != b.res) c.violation("undelivered:results", "call results depend on bytes the callback did not deliver: %s", w.c_str());
            else if (a.obs != b.obs || a.meta != b.meta) c.violation("undelivered:state", "states, locations or metadata depend on bytes the callback did not deliver: %s", w.c_str());
            else if (a.pcm != b.pcm) c.violation("undelivered:sound", "samples depend on bytes the callback did not deliver: %s", w.c_str());
            // a fault is never taken for good data: an error is reported by some call or shows as a stopped or failed song
            bool told = a.res != ref.res || a.playErr; for (size_t k = 0; k < a.obs.size() && k < ref.obs.size(); k++) if (a.obs[k] != ref.obs[k]) told = true;
            if (!told && a.pcm != ref.pcm) c.count("faults_ending_one_track");
            if (!told) c.count("faults_without_effect"); else c.count("faults_reported");
            if (p.mode == 5 || p.mode == 1) { Plan q2 = p; q2.mut += 17; q2.mode = 5; Out d = run(q2); if (d.res != a.res || d.pcm != a.pcm) c.violation("error-value", "the outcome depends on which negative number the callback returns: %s", w.c_str()); }
        }
    }
}
