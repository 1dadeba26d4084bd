// C14: voice bookkeeping balances and polyphony limits hold, observed through the snapshot hook.
#include "probe.h"
const char *vh_property = "C14";
static int target(const S_VERIF_VOICE &v) { return v.state == VERIF_VOICE_STOLEN ? v.nextVSynth : v.vSynth; }
static int sounding(const S_VERIF_SNAPSHOT &s, int synth) { int n = 0; for (int i = 0; i < s.numVoices; i++) { auto &v = s.voice[i]; if (v.state != VERIF_VOICE_FREE && v.state != VERIF_VOICE_MUTING && (synth < 0 || target(v) == synth)) n++; } return n; }
static Bytes mip(Rng &r) { Bytes b{0xf0, 0x7f, 0x7f, 0x0b, 0x01}; int n = r.range(1, 16), m = 0; std::vector<int> ch; for (int i = 0; i < 16; i++) ch.push_back(i); for (int i = 0; i < n; i++) { int k = r.below((uint32_t)ch.size()); b.push_back(ch[k]); ch.erase(ch.begin() + k); if (r.chance(2, 3)) m += r.below(6); b.push_back(std::min(m, 64)); } b.push_back(0xf7); return b; }
struct St { EAS_HANDLE h = nullptr; bool song = false; int slot = -1; int poly = 0; int prio = 5; bool mip = false; };
void vh_case(Ctx &c) {
    Rng &r = c.rng; Eas e; VoiceView v; v.take(e);
    int maxv = v.s.numVoices, inst = maxv; std::vector<St> st; uint64_t hsh = 14; std::string trace; bool over = false;
    int lastLimitBuf = -10, buf = 0;
    auto note = [&](const std::string &s) { hsh = fnv(s.data(), s.size(), hsh); if (trace.size() < 60000) trace += s + "; "; };
    auto check = [&](const char *when) {
        v.take(e); c.count("snapshots"); std::string bad = voiceInvariant(v.s);
        uint64_t sh = 5; for (int i = 0; i < v.s.numVoices; i++) { sh = sh * 31 + v.s.voice[i].state * 7 + (v.s.voice[i].state ? v.s.voice[i].vSynth + 1 : 0); c.count(v.s.voice[i].state == VERIF_VOICE_STOLEN ? "stolen_voices_seen" : v.s.voice[i].state == VERIF_VOICE_MUTING ? "muting_voices_seen" : v.s.voice[i].state ? "playing_voices_seen" : "free_voices_seen"); }
        c.seen("voice_tables", sh);
        if (!bad.empty()) { c.violation("bookkeeping:" + bad.substr(0, bad.find(':')), "%s (%s) after: %s", bad.c_str(), when, trace.c_str()); return; }
        for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (x.state == VERIF_VOICE_FREE) continue; bool own = false; for (auto &s : st) if (s.slot == x.vSynth) own = true; if (!own) c.violation("orphan", "voice %d plays for synth %d of no open stream after: %s", i, x.vSynth, trace.c_str()); }
    };
    auto limits = [&] {
        int tot = sounding(v.s, -1); if (tot > inst) c.violation("instance-polyphony", "%d voices sound, the instance allows %d, buffer %d, last limit change in buffer %d: %s", tot, inst, buf, lastLimitBuf, trace.c_str());
        for (auto &s : st) { int lim = s.poly && s.poly < inst ? s.poly : inst, n = sounding(v.s, s.slot); if (n == lim) c.count("at_limit"); if (n > lim) c.violation("stream-polyphony", "stream on synth %d sounds %d voices, its polyphony is %d (instance %d): %s", s.slot, n, s.poly, inst, trace.c_str()); }
        c.count("limit_checks");
    };
    bool dls = false;
    // what one write does to the voices of other streams: a voice is only ever taken from a stream that matters no more than the writer,
    // and the most important stream gets a voice for its note
    auto write = [&](St &s, const Bytes &b) {
        v.take(e); S_VERIF_SNAPSHOT a = v.s; e.write(s.h, b); v.take(e); 
        for (int i = 0; i < v.s.numVoices; i++) { auto &x = a.voice[i], &y = v.s.voice[i]; if (x.state == VERIF_VOICE_FREE || x.state == VERIF_VOICE_MUTING || y.state == VERIF_VOICE_FREE) continue; if (target(x) != s.slot && y.state == VERIF_VOICE_MUTING && y.nextVSynth != s.slot) { c.violation("theft", "voice %d of synth %d is being muted after synth %d was written to: %s", i, target(x), s.slot, trace.c_str()); continue; } if (target(x) == s.slot && y.state == VERIF_VOICE_MUTING) continue; int to = y.state == VERIF_VOICE_MUTING ? y.nextVSynth : target(y); if (to == target(x)) continue;   // (taken and given up again within the write)

            for (auto &o : st) if (o.slot == target(x)) { c.count("voices_taken_from_other_streams"); if (o.prio != s.prio) c.count("taken_from_less_important"); if (to != s.slot) c.violation("theft", "voice %d went from synth %d to %d while synth %d was written to: %s", i, o.slot, to, s.slot, trace.c_str()); if (s.prio > o.prio) c.violation("priority", "voice %d of synth %d (priority %d) was taken by synth %d (priority %d): %s", i, o.slot, o.prio, s.slot, s.prio, trace.c_str()); } }
    };
    auto probe = [&](St &s) {   // one note
        bool top = true; for (auto &o : st) if (o.prio < s.prio) top = false; if (!top || s.mip || dls) return; int ch = r.below(4), n = r.range(36, 84), vel = r.range(1, 127);
        write(s, {(uint8_t)(0xb0 | ch), 0, 0x79, 32, 0, (uint8_t)(0xc0 | ch), 0}); Bytes b{(uint8_t)(0x90 | ch), (uint8_t)n, (uint8_t)vel}; note(strf("probe(%d) %s", s.slot, hexs(b).c_str())); write(s, b); bool got = false; for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (x.state == VERIF_VOICE_FREE || x.state == VERIF_VOICE_MUTING) continue; if (target(x) == s.slot && (x.state == VERIF_VOICE_STOLEN ? x.nextChannel : x.channel) == ch && (x.state == VERIF_VOICE_STOLEN ? x.nextNote : x.note) == n) got = true; }
        c.count("top_priority_notes"); if (!got) c.violation("starved", "note %d on channel %d of synth %d, the most important stream, got no voice: %s", n, ch, s.slot, trace.c_str());
    };
    auto slotOf = [&](const S_VERIF_SNAPSHOT &a, const S_VERIF_SNAPSHOT &b) { for (int i = 0; i < b.numSynths; i++) if (b.synth[i].used && !a.synth[i].used) return i; return -1; };
    auto add = [&] {
        v.take(e); S_VERIF_SNAPSHOT before = v.s; St s; s.song = r.chance(1, 4);
        if (s.song) { Track t = genTrack(r, r.range(20, 120), r.range(1, 300), false); SmfOpt o; s.h = e.openPrep(buildSmf({t}, o)); if (s.h && r.chance(1, 3)) EAS_SetRepeat(e.h, s.h, 1); } else s.h = e.stream();
        if (!s.h) return; v.take(e); s.slot = slotOf(before, v.s); if (s.slot < 0) { c.violation("slot", "an opened stream has no synthesizer: %s", trace.c_str()); return; }
        st.push_back(s); note(strf("open %s->synth %d", s.song ? "song" : "live", s.slot));
    };
    add(); int ops = r.range(30, c.thorough() ? 260 : 140);
    for (int i = 0; i < ops && !c.failed(); i++) {
        if (st.empty()) add(); if (st.empty()) break;
        St &s = st[r.below((uint32_t)st.size())];
        switch (r.below(21)) {
        case 20: if (!s.song) probe(s); break;
        case 0: if (st.size() < 4) add(); break;
        case 1: if (r.chance(1, 3)) { EAS_RESULT q = s.song ? EAS_CloseFile(e.h, s.h) : EAS_CloseMIDIStream(e.h, s.h); if (q != EAS_SUCCESS) c.violation("close", "closing returned %ld", (long)q); note(strf("close synth %d", s.slot)); st.erase(st.begin() + (&s - &st[0])); } break;
        case 2: { int p = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(1, 6) : r.range(1, maxv); if (EAS_SetPolyphony(e.h, s.h, p) == EAS_SUCCESS) { s.poly = p; lastLimitBuf = buf; note(strf("SetPolyphony(%d,%d)", s.slot, p)); } break; }
        case 3: if (r.chance(1, 2)) { int p = r.chance(1, 3) ? maxv : r.range(1, maxv); if (EAS_SetSynthPolyphony(e.h, 0, p) == EAS_SUCCESS) { inst = p; lastLimitBuf = buf; note(strf("SetSynthPolyphony(%d)", p)); } } break;
        case 4: { int p = r.range(0, 10); if (EAS_SetPriority(e.h, s.h, p) == EAS_SUCCESS) s.prio = p; note(strf("SetPriority(%d,%d)", s.slot, p)); break; }
        case 5: if (!s.song && r.chance(1, 2)) { Bytes m = mip(r); s.mip = true; write(s, m); note(strf("MIP(%d) %s", s.slot, hexs(m, 40).c_str())); c.count("mip_messages"); } break;
        case 6: if (!s.song && r.chance(1, 2)) { write(s, {0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7}); note(strf("GM(%d)", s.slot)); } break;
        case 7: if (!dls && r.chance(1, 6)) { DlsSpec d = genDlsSpec(r, false); MemFile *f = e.file(buildDls(d)); if (EAS_LoadDLSCollection(e.h, r.chance(1, 2) ? s.h : nullptr, f->locator()) == EAS_SUCCESS) c.count("dls_loaded"); dls = true; note("DLS"); } break;
        case 8: if (s.song) { EAS_Locate(e.h, s.h, r.below(5000), EAS_FALSE); note("locate"); } break;
        case 9: if (r.chance(1, 2)) EAS_Pause(e.h, s.h); else EAS_Resume(e.h, s.h); break;
        case 10: case 11: case 12: { // note storm
            if (s.song) break; int n = r.chance(1, 3) ? r.range(maxv / 2, maxv + 20) : r.range(1, 10), ch = r.below(4); Bytes b; for (int k = 0; k < n; k++) { int cc = r.chance(1, 5) ? 9 : ch; b.push_back(0x90 | cc); b.push_back(cc == 9 ? r.range(35, 60) : r.range(30, 90)); b.push_back(r.range(1, 127)); if (r.chance(1, 5)) { b.push_back(0x80 | cc); b.push_back(b[b.size() - 3]); b.push_back(0); } } write(s, b); note(strf("storm(%d) %s", s.slot, hexs(b, 24).c_str())); c.count("notes", n); break; }
        default:
            if (!s.song && r.chance(2, 3)) { Bytes b = genMidiBytes(r, r.range(1, 12), false); write(s, b); note(strf("w(%d) %s", s.slot, hexs(b, 24).c_str())); break; }
            { int n = r.range(1, 4); note(strf("render %d", n)); for (int k = 0; k < n && !c.failed(); k++) { EAS_RESULT q = e.render(nullptr, 1); buf++; if (q != EAS_SUCCESS) c.violation("render", "render returned %ld", (long)q); c.count("buffers"); check("after render"); limits(); } break; }
        }
        check("after a call");
    }
    // everything stops: all counts return to zero
    if (!c.failed()) {
        for (auto &s : st) { if (s.song) EAS_CloseFile(e.h, s.h); else EAS_CloseMIDIStream(e.h, s.h); } st.clear();
        check("after closing all"); if (!c.failed() && v.used()) c.violation("orphan", "%d voices in use with every stream closed", v.used());
    }
    c.nontrivial = c.counters["notes"] > 0; c.caseHash = hsh; c.sample = trace.substr(0, 300);
}
