// C04: public calls in any order with any argument values, under ASan+UBSan, with a model of which calls must be refused.
#include "probe.h"
const char *vh_property = "C04";
struct H { EAS_HANDLE h; bool song; bool prepared = false; bool err = false; bool paused = false; std::vector<char> buf; };
static void metacb(E_EAS_METADATA_TYPE, char *b, EAS_VOID_PTR d) { (*(uint64_t *)d) += strlen(b); }
static EAS_I32 wild(Rng &r) {
    static const EAS_I32 v[] = {0, 1, -1, 2, 3, 12, 13, -12, -13, 15, 16, 63, 64, 65, 100, 101, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, -32768, -32769, 0x7fffffff, -0x7fffffff - 1, 1 << 27, 1 << 28, 1 << 29, (1 << 27) - 1, (1 << 29) + 1};
    return r.chance(4, 5) ? r.pick(v) : (EAS_I32)(int32_t)r.next();
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); g_alloc = &log; uint64_t sink = 0, hsh = 4; std::string tr;
    Eas e; std::vector<std::unique_ptr<H>> hs; EAS_I32 val; EAS_I32 load = 0;
    char mb[64];
    auto did = [&](const char *nm, EAS_RESULT x, H *h, EAS_I32 a = 0) { hsh = fnv(nm, strlen(nm), hsh * 31 + (uint64_t)a); hsh += (uint64_t)x; if (tr.size() < 3000) tr += strf("%s(%s%ld)=%ld; ", nm, h ? strf("%c%d,", h->song ? 's' : 'l', (int)(h->prepared)).c_str() : "", (long)a, (long)x);
        c.seen("call_results", fnv(nm, strlen(nm), 11 + (uint64_t)(x + 5000) * 3 + (h ? h->song + 2 * h->prepared : 9))); c.count("calls"); if (!documented(x)) c.violation(std::string("undocumented:") + nm, "%s returned %ld: %s", nm, (long)x, tr.c_str()); };
    auto refuse = [&](const char *nm, EAS_RESULT x, bool bad) { if (bad) { c.count("expected_refusals"); if (x == EAS_SUCCESS) c.violation(std::string("accepted:") + nm, "%s succeeded although it is not allowed: %s", nm, tr.c_str()); } };
    auto allow = [&](const char *nm, EAS_RESULT x, bool good) { if (good) { c.count("expected_successes"); if (x != EAS_SUCCESS) c.violation(std::string("refused:") + nm, "%s = %ld although it is allowed: %s", nm, (long)x, tr.c_str()); } };
    auto addSong = [&] { Bytes b = r.chance(1, 4) ? genSong(r, true, 40) : genSong(r, false, 40); EAS_HANDLE s; EAS_RESULT x = e.open(b, &s); did("OpenFile", x, nullptr); if (x == EAS_SUCCESS) { hs.emplace_back(new H{s, true}); } };
    auto addLive = [&] { EAS_HANDLE s = nullptr; EAS_HANDLE share = nullptr; if (r.chance(1, 5) && !hs.empty()) { H *q = hs[r.below(hs.size())].get(); if (q->song) share = q->h; } EAS_RESULT x = EAS_OpenMIDIStream(e.h, &s, share); did("OpenMIDIStream", x, nullptr, share != nullptr); if (x == EAS_SUCCESS) hs.emplace_back(new H{s, false, true}); };
    auto close = [&](size_t i) { H *h = hs[i].get(); EAS_RESULT x = h->song ? EAS_CloseFile(e.h, h->h) : EAS_CloseMIDIStream(e.h, h->h); did("Close", x, h); allow("close", x, true); hs.erase(hs.begin() + i); };
    auto rend = [&] { EAS_RESULT x = e.render(nullptr, 1); return x == -1000 && load ? EAS_SUCCESS : x; }; // a work limit may end a call early
    r.chance(1, 2) ? addSong() : addLive();
    int ops = r.range(10, c.thorough() ? 200 : 90);
    for (int i = 0; i < ops && !c.failed(); i++) {
        if (hs.empty() || r.chance(1, 14)) { if (hs.size() < 6) { r.chance(1, 2) ? addSong() : addLive(); } if (hs.empty()) continue; }
        size_t idx = r.below((uint32_t)hs.size()); H *h = hs[idx].get(); EAS_RESULT x; EAS_I32 a = wild(r); bool songReady = h->song && h->prepared, ready = !h->song || h->prepared;
        EAS_STATE st0 = -1; bool stok = EAS_State(e.h, h->h, &st0) == EAS_SUCCESS; if (stok) { c.seen("states", (uint64_t)st0 + 100 * h->song); if (st0 < 0 || st0 > EAS_STATE_EMPTY) c.violation("bad-state", "state %ld", (long)st0); if (st0 == EAS_STATE_ERROR) h->err = true; }
        bool inErr = h->song && st0 == EAS_STATE_ERROR;
        switch (r.below(40)) {
        case 0: case 1: case 2: case 3: if (h->song) { x = EAS_Prepare(e.h, h->h); did("Prepare", x, h); refuse("Prepare", x, h->prepared && st0 != EAS_STATE_OPEN); if (x == EAS_SUCCESS) h->prepared = true; } else { x = EAS_Prepare(e.h, h->h); did("Prepare", x, h); refuse("Prepare-live", x, true); } break;
        case 4: case 5: case 6: case 7: { int n = r.range(1, 6); for (int k = 0; k < n; k++) { x = rend(); did("Render", x, nullptr); c.count("buffers"); if (x != EAS_SUCCESS) break; } break; }
        case 8: { EAS_I32 got = 77; std::vector<int16_t> b((size_t)e.bufN * 2 + 2); EAS_I32 n = a == e.bufN ? 0 : a; x = EAS_Render(e.h, b.data(), n, &got); did("Render-size", x, nullptr, n); refuse("Render-size", x, true); if (got != 0) c.violation("render-count", "refused render reports %ld frames", (long)got); break; }
        case 9: x = EAS_SetVolume(e.h, h->h, a); did("SetVolume", x, h, a); refuse("SetVolume", x, a < 0 || a > 100 || !ready); allow("SetVolume", x, a >= 0 && a <= 100 && ready && !inErr); break;
        case 10: x = EAS_SetVolume(e.h, nullptr, a); did("SetMasterVolume", x, nullptr, a); refuse("SetMasterVolume", x, a < 0 || a > 100); allow("SetMasterVolume", x, a >= 0 && a <= 100); break;
        case 11: x = EAS_SetTransposition(e.h, h->h, a); did("SetTransposition", x, h, a); refuse("SetTransposition", x, a < -12 || a > 12 || !ready); allow("SetTransposition", x, a >= -12 && a <= 12 && ready && !inErr); break;
        case 12: x = EAS_SetPolyphony(e.h, h->h, a); did("SetPolyphony", x, h, a); refuse("SetPolyphony", x, a < 0 || !ready); allow("SetPolyphony", x, a >= 0 && ready && !inErr); break;
        case 13: x = EAS_SetPriority(e.h, h->h, a); did("SetPriority", x, h, a); refuse("SetPriority", x, a < 1 || a > 15 || !ready); allow("SetPriority", x, a >= 1 && a <= 15 && ready && !inErr); break;
        case 14: x = EAS_SetSynthPolyphony(e.h, r.chance(2, 3) ? 0 : a, wild(r)); did("SetSynthPolyphony", x, nullptr, a); break;
        case 15: { EAS_I32 sn = a ? a : 1; x = EAS_SetSynthPolyphony(e.h, sn, 10); did("SetSynthPolyphony-bad", x, nullptr, sn); refuse("SetSynthPolyphony-bad", x, true); x = EAS_GetSynthPolyphony(e.h, sn, &val); did("GetSynthPolyphony-bad", x, nullptr, sn); refuse("GetSynthPolyphony-bad", x, true); break; }
        case 16: x = EAS_SetPlaybackRate(e.h, h->h, (EAS_U32)(EAS_I32)a); did("SetPlaybackRate", x, h, a); refuse("SetPlaybackRate", x, a < (1 << 27) || a > (1 << 29)); break;
        case 17: x = EAS_SetRepeat(e.h, h->h, a); did("SetRepeat", x, h, a); if (r.chance(1, 2)) { x = EAS_SetRepeat(e.h, h->h, 0); } break;
        case 18: x = EAS_GetRepeat(e.h, h->h, &val); did("GetRepeat", x, h); break;
        case 19: x = EAS_Locate(e.h, h->h, a, r.chance(1, 2)); did("Locate", x, h, a); refuse("Locate", x, !songReady || inErr); break;
        case 20: x = EAS_Pause(e.h, h->h); did("Pause", x, h); if (x == EAS_SUCCESS) h->paused = true; refuse("Pause", x, !songReady || st0 == EAS_STATE_STOPPED || st0 == EAS_STATE_OPEN || inErr); break;
        case 21: x = EAS_Resume(e.h, h->h); did("Resume", x, h); refuse("Resume", x, !songReady || st0 == EAS_STATE_STOPPED || st0 == EAS_STATE_OPEN || inErr || (st0 == EAS_STATE_READY && !h->paused)); if (x == EAS_SUCCESS) h->paused = false; break;
        case 22: x = EAS_GetRenderTime(e.h, &val); did("GetRenderTime", x, nullptr); allow("GetRenderTime", x, true); break;
        case 23: x = EAS_GetLocation(e.h, h->h, &val); did("GetLocation", x, h); if (x == EAS_SUCCESS && val < 0) c.violation("negative-location", "location %ld: %s", (long)val, tr.c_str()); break;
        case 24: x = EAS_ParseMetaData(e.h, h->h, &val); did("ParseMetaData", x, h); refuse("ParseMetaData", x, !songReady || inErr); break;
        case 25: if (h->buf.empty()) h->buf.resize(r.range(1, 64)); x = EAS_RegisterMetaDataCallback(e.h, h->h, metacb, h->buf.data(), (EAS_I32)h->buf.size(), &sink); did("RegisterMetaData", x, h, (EAS_I32)h->buf.size()); break;
        case 26: x = EAS_GetNoteCount(e.h, h->h, &val); did("GetNoteCount", x, h); refuse("GetNoteCount", x, !ready || inErr); break;
        case 27: x = EAS_GetFileType(e.h, h->h, &val); did("GetFileType", x, h); allow("GetFileType", x, songReady && !inErr); break;
        case 28: x = rend(); did("Render", x, nullptr); break;
        case 29: x = EAS_GetVolume(e.h, r.chance(1, 2) ? h->h : nullptr); if (x > 100) c.violation("volume-range", "EAS_GetVolume returns %ld", (long)x); c.count("calls"); break;
        case 30: { EAS_I32 m = r.chance(1, 2) ? (r.chance(1, 2) ? EAS_MODULE_REVERB : EAS_MODULE_CHORUS) : wild(r), p = r.chance(2, 3) ? r.below(8) : wild(r); x = EAS_SetParameter(e.h, m, p, a); did("SetParameter", x, nullptr, m * 1000 + p); refuse("SetParameter", x, m < 0 || m >= NUM_EFFECTS_MODULES || p < 0 || p > 20); x = EAS_GetParameter(e.h, m, p, &val); did("GetParameter", x, nullptr, m * 1000 + p); refuse("GetParameter", x, m < 0 || m >= NUM_EFFECTS_MODULES || p < 0 || p > 20); break; }
        case 31: x = EAS_GetPolyphony(e.h, h->h, &val); did("GetPolyphony", x, h); refuse("GetPolyphony", x, !ready || inErr); x = EAS_GetPriority(e.h, h->h, &val); did("GetPriority", x, h); refuse("GetPriority", x, !ready || inErr); x = EAS_GetSynthPolyphony(e.h, 0, &val); did("GetSynthPolyphony", x, nullptr); allow("GetSynthPolyphony", x, true); break;
        case 32: x = EAS_SetMaxLoad(e.h, a < 0 ? 0 : a); did("SetMaxLoad", x, nullptr, a); load = a < 0 ? 0 : a; if (r.chance(3, 4)) { EAS_SetMaxLoad(e.h, 0); load = 0; } x = EAS_SetMaxPCMStreams(e.h, h->h, a); did("SetMaxPCMStreams", x, h, a); break;
        case 33: x = EAS_SetPlayMode(e.h, h->h, a); did("SetPlayMode", x, h, a); x = EAS_SetHeaderSearchFlag(e.h, r.below(2)); did("SetHeaderSearchFlag", x, nullptr); break;
        case 34: x = rend(); did("Render", x, nullptr); break;
        case 35: { DlsSpec d = genDlsSpec(r, r.chance(1, 2)); bool global = r.chance(1, 3); x = EAS_LoadDLSCollection(e.h, global ? nullptr : h->h, e.file(buildDls(d))->locator()); did("LoadDLSCollection", x, global ? nullptr : h); refuse("LoadDLSCollection", x, !global && (!ready || inErr)); break; }
        case 36: if (!h->song) { Bytes b = genMidiBytes(r, r.range(1, 6), true); EAS_I32 n = r.chance(1, 8) ? -(EAS_I32)r.below(5) : (EAS_I32)b.size(); x = EAS_WriteMIDIStream(e.h, h->h, b.data(), n); did("WriteMIDIStream", x, h, n); refuse("WriteMIDIStream", x, n <= 0); allow("WriteMIDIStream", x, n > 0); } break;
        case 37: if (!h->song) { Bytes b = genMidiBytes(r, r.range(5, 40), false); x = e.write(h->h, b); did("WriteMIDIStream", x, h, (EAS_I32)b.size()); allow("WriteMIDIStream", x, true); } break;
        case 38: if (r.chance(1, 2)) close(idx); break;
        case 39: { x = EAS_SetSoundLibrary(e.h, r.chance(1, 2) ? h->h : nullptr, nullptr); did("SetSoundLibrary", x, h); break; }
        }
        c.nontrivial = true;
    }
    while (!hs.empty() && !c.failed()) close(hs.size() - 1);
    if (!c.failed()) { EAS_SetMaxLoad(e.h, 0); EAS_SetHeaderSearchFlag(e.h, 0); EAS_RESULT why; EAS_SetSynthPolyphony(e.h, 0, 64); EAS_SetVolume(e.h, nullptr, 100); Pcm p = playProbe(e, 24, &why); if (p.empty()) c.violation("unusable", "a good song is refused afterwards (%ld): %s", (long)why, tr.c_str()); }
    if (e.shutdown() != EAS_SUCCESS) c.violation("shutdown", "shutdown fails"); if (log.badFree) c.violation("bad-free", "bad frees: %s", tr.c_str());
    g_alloc = nullptr; c.caseHash = hsh; c.sample = tr.substr(0, 300);
}
