// C09: the same scenario rendered again - with other memory contents, after other work, next to other instances,
// and (compared by the driver) in other builds - gives the same samples, results, states and locations.
#include "scen.h"
extern "C" {
#define SCNST
#define EAS_WT_SYNTH
#define DLS_SYNTHESIZER
#include "eas_sndlib.h"
extern const S_EAS easSoundLib;
}
const char *vh_property = "C09";
// every stream with a bank of its own, whose sounds use all of an articulation
static void enrich(Rng &r, Scn &s) { for (auto &x : s.st) { DlsSpec d = richDls(r); x.dls = buildDls(d); if (x.song) continue; ScnOp o{0, OP_WRITE}; for (int ch = 0; ch < 16; ch++) { o.m.push_back(0xC0 | ch); o.m.push_back(r.below(6)); } x.ops.insert(x.ops.begin(), o); int n = r.range(3, 20); while (n--) { ScnOp q{(int)r.below(s.buffers), OP_WRITE}; q.m = {(uint8_t)(0x90 | r.below(4)), (uint8_t)r.range(36, 84), (uint8_t)r.range(40, 127)}; x.ops.push_back(q); } } }
// the built-in sounds, with other filters, envelopes and LFOs
static void wildLib(Rng &r, S_EAS &lib, std::vector<S_ARTICULATION> &arts) { memcpy((void *)&lib, &easSoundLib, sizeof lib); arts.assign(easSoundLib.pArticulations, easSoundLib.pArticulations + easSoundLib.numArticulations); for (auto &a : arts) { a.filterCutoff = r.range(1500, 9000); a.filterQ = r.below(16); if (r.chance(1, 2)) a.eg1.attackTime = 0x7fff; if (r.chance(1, 2)) a.eg2ToFc = r.range(-2400, 2400); if (r.chance(1, 2)) a.eg2ToPitch = r.range(-600, 600); if (r.chance(1, 2)) a.lfoToPitch = r.range(0, 200); } lib.pArticulations = arts.data(); lib.libAttr |= LIB_FORMAT_FILTER_ENABLED; }
// dense playing: more notes than voices, under SP-MIDI messages and changing limits
static void crowd(Rng &r, Scn &s) { for (auto &x : s.st) { if (x.song) continue; if (r.chance(1, 2)) { ScnOp o{0, OP_WRITE}; o.m = {0xf0, 0x7f, 0x7f, 0x0b, 0x01}; int k = r.range(2, 8), v = 0; for (int i = 0; i < k; i++) { v += r.range(1, 8); o.m.push_back(i); o.m.push_back(v); } o.m.push_back(0xf7); x.ops.insert(x.ops.begin(), o); } for (int b = 1; b < s.buffers; b += r.range(1, 5)) { ScnOp q{b, OP_WRITE}; int n = r.range(1, 30); while (n--) { q.m.push_back(0x90 | r.below(8)); q.m.push_back(r.range(30, 100)); q.m.push_back(r.chance(1, 6) ? 0 : r.range(1, 127)); } x.ops.push_back(q); if (r.chance(1, 4)) { ScnOp o{b, OP_POLY}; o.a = r.below(40); x.ops.push_back(o); } } } }
// many thousand notes
static void wearOut(Rng &r, Eas &e, int n) { EAS_HANDLE h = e.stream(); while (n > 0) { Bytes b; int k = std::min(n, r.range(1, 1500)); n -= k; while (k--) { b.push_back(0x90 | r.below(3)); b.push_back(r.range(40, 80)); b.push_back(r.range(20, 110)); } e.write(h, b); e.render(nullptr); } EAS_CloseMIDIStream(e.h, h); }
void vh_case(Ctx &c) {
    Rng &r = c.rng; Scn s = genScn(r, r.range(1, 3), r.range(30, c.thorough() ? 200 : 80), true, true); bool rich = r.chance(1, 4); if (rich) { enrich(r, s); c.count("rich_banks"); } bool old = r.chance(1, 6); if (old) { for (auto &x : s.st) if (r.chance(2, 3)) { x.song = false; x.data.clear(); } crowd(r, s); }
    S_EAS lib; std::vector<S_ARTICULATION> arts; bool wild = !rich && r.chance(1, 4); if (wild) { wildLib(r, lib, arts); c.count("other_libraries"); } auto setLib = [&](Eas &e) { if (wild && EAS_SetSoundLibrary(e.h, nullptr, (EAS_SNDLIB_HANDLE)&lib)) c.violation("library", "EAS_SetSoundLibrary refuses a library"); };
    AllocLog l0; l0.fill = 0; g_alloc = &l0; Eas e0; setLib(e0); ScnRun a(e0, s); a.run(); e0.shutdown(); g_alloc = nullptr;
    c.caseHash = s.hash(); c.sample = s.desc(); c.digest = a.digest(); bool snd = !silent(a.pcm); c.nontrivial = snd; c.count("renderings"); if (snd) c.count("cases_with_sound"); c.count("buffers_compared", s.buffers);
    auto rep = [&](const char *what, const ScnRun &b) { c.count("renderings"); c.count(what); std::string d = a.cmp(b, what); if (!d.empty()) c.violation(std::string("differs:") + what, "%s; %s", d.c_str(), s.desc().c_str()); };
    { AllocLog l1; l1.fill = r.chance(1, 2) ? 0xff : r.range(1, 254); g_alloc = &l1; Eas e; setLib(e); ScnRun b(e, s); b.run(); e.shutdown(); g_alloc = nullptr; rep("other_memory_contents", b); }
    if (c.failed()) return;
    {   // the same instance did other things before (effects stay off until the scenario: their tails legitimately continue)
        Eas e; setLib(e); Rng q(r.next()); int k = q.range(1, 4); EAS_I32 mv = EAS_GetVolume(e.h, nullptr);
        for (int i = 0; i < k; i++) { Scn t = genScn(q, q.range(1, 4), q.range(1, 40), false, true); if (rich) enrich(q, t); for (auto &x : t.st) for (auto &o : x.ops) if (o.kind == OP_POLY) o.a = 0; t.synthPoly = -1; ScnRun p(e, t); p.run(); EAS_SetVolume(e.h, nullptr, mv); }
        if (q.chance(1, 2)) e.render(nullptr, q.range(1, 10));
        if (old) { int n = q.chance(1, 2) ? 65536 - q.range(1, 600) : q.range(1, 1 << q.range(4, 16)); wearOut(q, e, n); c.count("long_lives"); c.count("earlier_notes", n); }
        // voices of closed streams have gone
        ScnRun b(e, s); b.run(); e.shutdown(); rep("after_other_work", b);
    }
    if (c.failed()) return;
    {   // other instances exist and work in between
        Eas o1, e, o2; setLib(e); if (r.chance(1, 2)) setLib(o1); Rng q(r.next()); Scn t1 = genScn(q, 2, 400, true, true), t2 = genScn(q, 1, 400, true, true); ScnRun p1(o1, t1), b(e, s), p2(o2, t2);
        while (b.step()) { if (q.chance(1, 2)) p1.step(); if (q.chance(1, 2)) p2.step(); } b.close(); p1.close(); p2.close(); rep("next_to_other_instances", b);
    }
}
