// C15: notes start on note-on, last until released, and always end. A model of which keys are held, per stream and
// channel, is compared with the voice table after every message and every buffer.
#include "probe.h"
#include <tuple>
const char *vh_property = "C15";
// melodic General MIDI programs that sound as long as the key is down
static const int SUST[] = {16, 17, 18, 19, 20, 48, 49, 50, 51, 52, 53, 54, 60, 61, 62, 63, 64, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 94, 95, 97, 100, 101, 102, 103};
enum K { UP, HELD, PEDAL, MAYBE };   // MAYBE: sounding or not (released before the pedal went down again, may have been caught)
struct Live { EAS_HANDLE h; int slot; bool pedal[16] = {0}; int prog[16] = {0}; bool drum[16] = {0}; K key[16][128] = {}; long upAt[16][128]; };
static int vsyn(const S_VERIF_VOICE &v) { return v.state == VERIF_VOICE_STOLEN ? v.nextVSynth : v.vSynth; }
static int vch(const S_VERIF_VOICE &v) { return v.state == VERIF_VOICE_STOLEN ? v.nextChannel : v.channel; }
static int vkey(const S_VERIF_VOICE &v) { return v.state == VERIF_VOICE_STOLEN ? v.nextNote : v.note; }
static bool on(const S_VERIF_VOICE &v) { return v.state == VERIF_VOICE_START || v.state == VERIF_VOICE_PLAY || v.state == VERIF_VOICE_STOLEN; }
// A note that takes over a sounding voice under the polyphony limit sounds exactly as if that voice had been idle: the
// same script without the victim, its note-on delayed to the buffer in which the voice changed hands.
static void takeover(Ctx &c) {
    Rng &r = c.rng; bool cross = r.chance(1, 3), synthWide = cross || r.chance(1, 3); int chA = r.range(0, 3), chB = r.chance(1, 3) ? 9 : r.chance(1, 2) ? chA : r.range(0, 15), keyA = r.range(40, 80), keyB = r.chance(1, 8) ? keyA : r.range(36, 84), keyC = r.range(36, 84);
    struct Ev { int buf; int st; Bytes m; int note; };   // note: 0 other, 1 victim, 2 first taker, 3 second taker
    std::vector<Ev> sc; std::string tr; auto add = [&](int b, int st, Bytes m, int note = 0) { sc.push_back({b, st, m, note}); }; int sB = cross ? 1 : 0;
    int progA = r.chance(1, 2) ? (int)r.pick(SUST) : r.range(0, 127); add(0, 0, {(uint8_t)(0xc0 | chA), (uint8_t)progA}); if (chB != 9) { int g = r.chance(1, 2) ? (int)r.pick(SUST) : r.range(0, 127); add(0, sB, {(uint8_t)(0xc0 | chB), (uint8_t)g}); }
    for (int i = r.below(4); i > 0; i--) { static const int cc[] = {1, 7, 10, 11}; int q = r.pick(cc), v = r.range(20, 127); add(r.range(0, 3), sB, {(uint8_t)(0xb0 | chB), (uint8_t)q, (uint8_t)v}); }
    int tA = r.range(1, 3), tB = tA + (r.chance(1, 3) ? r.range(0, 2) : r.range(1, 30)), vA = r.range(1, 127), vB = r.range(1, 127), vC = r.range(1, 127); add(tA, 0, {(uint8_t)(0x90 | chA), (uint8_t)keyA, (uint8_t)vA}, 1);
    bool sameKey = !cross && chA == chB && keyA == keyB, pedA = r.chance(1, 2); int pb = r.range(tA, tB); if (pedA) { add(pb, 0, {(uint8_t)(0xb0 | chA), 64, 127}); }
    if (!sameKey && r.chance(2, 3)) { int at = r.range(tA, tB); add(at, 0, {(uint8_t)(0x80 | chA), (uint8_t)keyA, 0}, 1); }
    if (pedA && r.chance(1, 2)) { int at = r.range(pb, tB + 3); add(at, 0, {(uint8_t)(0xb0 | chA), 64, 0}); }
    add(tB, sB, {(uint8_t)(0x90 | chB), (uint8_t)keyB, (uint8_t)vB}, 2); bool two = keyC != keyB && r.chance(1, 4); int kF = keyB; if (two) { int at = tB + (r.chance(1, 2) ? 0 : 1); add(at, sB, {(uint8_t)(0x90 | chB), (uint8_t)keyC, (uint8_t)vC}, 3); kF = keyC; }
    if (r.chance(1, 4)) { int at = tB + r.range(0, 4); add(at, sB, {(uint8_t)(0xb0 | chB), 64, 127}); if (r.chance(1, 2)) { at += r.range(0, 30); add(at, sB, {(uint8_t)(0xb0 | chB), 64, 0}); } }
    int offAt = tB + (r.chance(1, 4) ? r.range(1, 3) : r.range(3, 80)); if (r.chance(5, 6)) add(offAt, sB, {(uint8_t)(0x80 | chB), (uint8_t)kF, 0}, two ? 3 : 2);
    for (int i = r.below(3); i > 0; i--) { int at = tB + r.range(1, 60), q = r.below(3), v = r.below(128); add(at, sB, q == 0 ? Bytes{(uint8_t)(0xe0 | chB), 0, (uint8_t)v} : q == 1 ? Bytes{(uint8_t)(0xb0 | chB), 1, (uint8_t)v} : Bytes{(uint8_t)(0xd0 | chB), (uint8_t)v}); }
    std::stable_sort(sc.begin(), sc.end(), [](const Ev &a, const Ev &b) { return a.buf < b.buf; }); for (auto &x : sc) tr += strf(" %d/%d:%s", x.buf, x.st, hexs(x.m).c_str());
    int total = tB + 120, fin = two ? 3 : 2, trans = r.chance(1, 3) ? r.range(-5, 5) : 0, handed = -1, vic = -1;
    auto setup = [&](Eas &e, EAS_HANDLE *h) { h[0] = e.stream(); h[1] = cross ? e.stream() : nullptr; if (!h[0] || (cross && !h[1])) return false; if (synthWide) EAS_SetSynthPolyphony(e.h, 0, 1); else EAS_SetPolyphony(e.h, h[0], 1); if (trans) EAS_SetTransposition(e.h, h[sB], trans); return true; };
    Pcm a, b; EAS_HANDLE h[2]; bool stole = false, extra = false;
    { Eas e; VoiceView v; if (!setup(e, h)) { c.violation("open", "cannot open a live stream"); return; } size_t n = 0;
      for (int k = 0; k < total; k++) { for (; n < sc.size() && sc[n].buf == k; n++) e.write(h[sc[n].st], sc[n].m); v.take(e); int used = 0; for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (x.state == VERIF_VOICE_FREE) continue; used++; if (x.state == VERIF_VOICE_STOLEN && k >= tB && x.nextChannel == chB && x.nextNote == kF) stole = true, vic = i; } if (used > 1) extra = true;
        if (e.render(&a, 1)) { c.violation("render", "render fails"); return; } if (stole && handed < 0) { v.take(e); auto &x = v.s.voice[vic]; if (x.state != VERIF_VOICE_STOLEN) handed = k; else if (k > tB + 60) { c.violation("takeover-never", "voice %d still stolen 60 buffers after its note was addressed;%s", vic, tr.c_str()); return; } } } }
    c.count("takeovers_tried"); if (!stole || handed < 0 || extra) { c.count("takeovers_not_taken"); c.nontrivial = false; return; }
    { Eas e; VoiceView v; setup(e, h); bool begun = false, pend = false;
      for (int k = 0; k < total; k++) { for (auto &x : sc) if (x.buf == k && x.note != 1) { if (x.note == 0) e.write(h[x.st], x.m); else if (x.note == fin && begun) e.write(h[x.st], x.m); else if (x.note == fin && (x.m[0] & 0xf0) == 0x80) pend = true; }
        if (k == handed) { for (auto &x : sc) if (x.note == fin && (x.m[0] & 0xf0) == 0x90) e.write(h[x.st], x.m); begun = true; if (pend) for (auto &x : sc) if (x.note == fin && (x.m[0] & 0xf0) == 0x80) e.write(h[x.st], x.m); }
        if (e.render(&b, 1)) { c.violation("render", "render fails"); return; } } }
    c.count("takeovers_compared"); c.seen("takeover_delay", handed - tB); size_t per = a.size() / total, from = per * handed; size_t d = from; while (d < a.size() && a[d] == b[d]) d++;
    bool snd = false; for (size_t i = from; i < b.size(); i++) if (b[i]) snd = true; if (snd) c.count("takeovers_audible");
    if (d < a.size()) c.violation("takeover", "after the voice changed hands at buffer %d the samples differ from those of an idle voice, first in buffer %zu (%d, idle %d); victim channel %d, taker channel %d%s%s;%s", handed, d / per, a[d], b[d], chA, chB, cross ? ", different streams" : "", synthWide ? ", instance limit" : "", tr.c_str());
    c.nontrivial = snd; c.caseHash = fnv(tr.data(), tr.size(), 1515); c.sample = "takeover:" + tr.substr(0, 120);
}
void vh_case(Ctx &c) {
    if (c.rng.chance(2, 5)) { takeover(c); return; }
    Rng &r = c.rng; Eas e; VoiceView v; v.take(e); bool small = v.s.numVoices < 32; int maxUse = small ? 10000 : v.s.numVoices - 6; std::vector<Live> L(r.range(1, 3)); std::string tr; uint64_t hsh = 15; long buf = 0; EAS_HANDLE song = nullptr;
    for (auto &l : L) { S_VERIF_SNAPSHOT b; v.take(e); b = v.s; l.h = e.stream(); v.take(e); l.slot = -1; for (int i = 0; i < v.s.numSynths; i++) if (v.s.synth[i].used && !b.synth[i].used) l.slot = i; l.drum[9] = true; memset(l.upAt, 0, sizeof l.upAt); if (!l.h || l.slot < 0) { c.violation("open", "cannot open a live stream"); return; } }
    int songSlot = -1; if (r.chance(1, 4)) { S_VERIF_SNAPSHOT b = v.s; Track t = genTrack(r, r.range(5, 40), 200, false); song = e.openPrep(buildSmf({t})); v.take(e); for (int i = 0; i < v.s.numSynths; i++) if (v.s.synth[i].used && !b.synth[i].used) songSlot = i; }
    auto bad = [&](const char *key, const std::string &m) { c.violation(key, "%s; %s", m.c_str(), tr.substr(tr.size() > 2500 ? tr.size() - 2500 : 0).c_str()); };
    auto compare = [&] {   // after a buffer: no message is pending
        v.take(e); c.count("tables_checked"); 
        for (auto &l : L) for (int ch = 0; ch < 16; ch++) if (!l.drum[ch]) for (int k = 0; k < 128; k++) { K st = l.key[ch][k]; if (st == UP || st == MAYBE) continue; if (small) continue; bool ok = false; for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (on(x) && vsyn(x) == l.slot && vch(x) == ch && vkey(x) == k && (st != PEDAL || x.pedalHeld || 1)) ok = true; } c.count("held_keys_checked"); if (!ok) { bad("note-lost", strf("key %d on channel %d of stream %d is down%s (program %d) but no voice plays it, buffer %ld", k, ch, l.slot, st == PEDAL ? " on the pedal" : "", l.prog[ch], buf)); return; } }
        for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (!on(x) || vsyn(x) == songSlot) continue; Live *l = nullptr; for (auto &q : L) if (q.slot == vsyn(x)) l = &q; if (!l) { bad("stray", strf("voice %d plays for stream %d, which is not open", i, vsyn(x))); return; } K st = l->key[vch(x)][vkey(x)]; if (l->drum[vch(x)]) continue; if (st == UP && buf - l->upAt[vch(x)][vkey(x)] > 3) { bad("note-hangs", strf("voice %d (state %d, pedal %d) plays key %d on channel %d of stream %d, which is up since buffer %ld, buffer %ld", i, x.state, x.pedalHeld, vkey(x), vch(x), vsyn(x), l->upAt[vch(x)][vkey(x)], buf)); return; } }
    };
    auto send = [&](Live &l, const Bytes &m) {
        int ch = m[0] & 15, st = m[0] & 0xf0, d1 = m.size() > 1 ? m[1] : 0, d2 = m.size() > 2 ? m[2] : 0; bool non = st == 0x90 && d2, noff = st == 0x80 || (st == 0x90 && !d2);
        v.take(e); S_VERIF_SNAPSHOT b = v.s; int used = 0; for (int i = 0; i < b.numVoices; i++) if (b.voice[i].state != VERIF_VOICE_FREE) used++; if (non && used >= maxUse) return;
        EAS_RESULT x = e.write(l.h, m); tr += strf(" %d:%s", l.slot, hexs(m).c_str()); hsh = fnv(m.data(), m.size(), hsh); c.count("messages"); if (x) { bad("write", strf("write returns %ld", (long)x)); return; } v.take(e);
        bool all = m[0] == 0xf0, chan = st == 0xb0 && (d1 >= 120);   // messages that address a whole stream or channel
        for (int i = 0; i < b.numVoices; i++) {
            auto &p = b.voice[i], &q = v.s.voice[i]; bool same = p.state == q.state && p.vSynth == q.vSynth && p.channel == q.channel && p.note == q.note && p.velocity == q.velocity && p.pedalHeld == q.pedalHeld && (p.state != VERIF_VOICE_STOLEN || (p.nextVSynth == q.nextVSynth && p.nextChannel == q.nextChannel && p.nextNote == q.nextNote)); if (same) continue; c.count("voices_changed_by_messages");
            bool own = vsyn(p) == l.slot, here = own && vch(p) == ch, key = here && vkey(p) == d1;
            bool newborn = non && p.state == VERIF_VOICE_FREE && vsyn(q) == l.slot && vch(q) == ch && vkey(q) == d1; bool stolen = non && q.state == VERIF_VOICE_STOLEN && q.nextVSynth == l.slot && q.nextChannel == ch && q.nextNote == d1 && (small || key);
            bool ok = newborn || stolen || (all && own) || (noff && key) || (chan && here) || (st == 0xb0 && d1 == 64 && here) || (non && here && l.drum[ch]) || (p.state == VERIF_VOICE_MUTING && q.state == VERIF_VOICE_FREE);
            if (!ok && small && non) ok = true;   // voices compete
            if (!ok) { bad("unaddressed", strf("message %s to stream %d changed voice %d: stream %d channel %d key %d state %d -> stream %d channel %d key %d state %d pedal %d", hexs(m).c_str(), l.slot, i, vsyn(p), vch(p), vkey(p), p.state, vsyn(q), vch(q), vkey(q), q.state, q.pedalHeld)); return; }
        }
        if (non) { l.key[ch][d1] = HELD; if (!small && !l.drum[ch]) { bool f = false; for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (on(x) && vsyn(x) == l.slot && vch(x) == ch && vkey(x) == d1) f = true; } if (!f) bad("not-started", strf("note-on %s started no voice", hexs(m).c_str())); c.count("starts_checked"); } }
        else if (noff) { K &k = l.key[ch][d1]; if (l.pedal[ch]) { if (k == HELD) k = PEDAL; } else if (k != UP) { k = UP; l.upAt[ch][d1] = buf; } }
        else if (st == 0xb0 && d1 == 64 && d2 >= 64) { if (!l.pedal[ch]) { for (int k = 0; k < 128; k++) if (l.key[ch][k] == UP) l.key[ch][k] = MAYBE; } l.pedal[ch] = true; }
        else if (st == 0xb0 && (d1 == 64 || d1 == 121)) { l.pedal[ch] = false; for (int k = 0; k < 128; k++) if (l.key[ch][k] == PEDAL || l.key[ch][k] == MAYBE) { l.key[ch][k] = UP; l.upAt[ch][k] = buf; } }
        else if (chan) { for (int k = 0; k < 128; k++) { l.key[ch][k] = UP; l.upAt[ch][k] = buf; } if (d1 == 120) for (int i = 0; i < v.s.numVoices; i++) { auto &x = v.s.voice[i]; if (x.state == VERIF_VOICE_FREE || x.state == VERIF_VOICE_MUTING || vsyn(x) != l.slot || vch(x) != ch) continue; c.count("sound_off_left"); bad("sound-off", strf("voice %d (key %d, state %d) goes on after All Sound Off on its channel", i, vkey(x), x.state)); return; } if (d1 == 120) c.count("sound_off_checked"); }
        else if (all) { for (int q = 0; q < 16; q++) { l.pedal[q] = false; l.prog[q] = 0; for (int k = 0; k < 128; k++) { l.key[q][k] = UP; l.upAt[q][k] = buf; } } for (int q = 0; q < 16; q++) if (q != 9) { Bytes p{(uint8_t)(0xc0 | q), (uint8_t)r.pick(SUST)}; l.prog[q] = p[1]; e.write(l.h, p); } }
        else if (st == 0xc0) l.prog[ch] = d1;
    };
    int chans = r.range(1, 5); for (auto &l : L) for (int ch = 0; ch < 16; ch++) if (ch != 9) send(l, {(uint8_t)(0xc0 | ch), (uint8_t)r.pick(SUST)});
    int steps = r.range(20, 160), keys = r.chance(1, 2) ? 4 : 16, lo = r.range(52, 58); Pcm p;
    for (int i = 0; i < steps && !c.failed(); i++) {
        int n = r.chance(1, 2) ? r.range(0, 6) : 0;
        for (int j = 0; j < n && !c.failed(); j++) {
            Live &l = L[r.below((uint32_t)L.size())]; int ch = r.chance(1, 12) ? 9 : r.below(chans), k = lo + r.below(keys); uint8_t C = (uint8_t)ch;
            switch (r.below(20)) {
            case 0: case 1: case 2: case 3: case 4: send(l, {(uint8_t)(0x90 | C), (uint8_t)k, (uint8_t)r.range(1, 127)}); break;
            case 5: case 6: case 7: case 8: send(l, {(uint8_t)(0x80 | C), (uint8_t)k, (uint8_t)r.below(128)}); break;
            case 9: send(l, {(uint8_t)(0x90 | C), (uint8_t)k, 0}); break;
            case 10: case 11: send(l, {(uint8_t)(0xb0 | C), 64, (uint8_t)(r.chance(1, 2) ? std::vector<int>{0, 63, 64, 127}[r.below(4)] : (int)r.below(128))}); break;
            case 12: if (r.chance(1, 3)) send(l, {(uint8_t)(0xb0 | C), (uint8_t)std::vector<int>{120, 121, 123, 124, 125, 126, 127}[r.below(7)], 0}); break;
            case 13: if (ch != 9) send(l, {(uint8_t)(0xc0 | C), (uint8_t)r.pick(SUST)}); break;
            case 14: send(l, {(uint8_t)(0xb0 | C), (uint8_t)std::vector<int>{1, 7, 10, 11, 66, 67, 5, 65, 91}[r.below(9)], (uint8_t)r.below(128)}); break;
            case 15: send(l, {(uint8_t)(0xe0 | C), (uint8_t)r.below(128), (uint8_t)r.below(128)}); break;
            case 16: send(l, {(uint8_t)(0xd0 | C), (uint8_t)r.below(128)}); break;
            case 17: { send(l, {(uint8_t)(0xb0 | C), 101, 0}); int rp = r.below(3); send(l, {(uint8_t)(0xb0 | C), 100, (uint8_t)rp}); send(l, {(uint8_t)(0xb0 | C), 6, (uint8_t)(rp == 2 ? r.range(62, 66) : r.range(0, 127))}); break; }
            case 18: if (r.chance(1, 8)) send(l, {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}); break;
            case 19: { static const int w[] = {0, 1, 2}; int q = r.pick(w); if (q == 0) EAS_SetVolume(e.h, l.h, r.below(101)); if (q == 1) EAS_SetTransposition(e.h, l.h, r.range(-12, 12)); if (q == 2) EAS_SetPriority(e.h, l.h, r.range(1, 15)); tr += " set"; break; }
            }
        }
        if (c.failed()) break; p.clear(); int nb = r.chance(1, 10) ? r.range(2, 60) : 1; if (e.render(&p, nb)) { bad("render", "render fails"); break; } buf += nb; tr += strf(" |%d", nb); compare();
    }
    if (!c.failed() && r.chance(1, 2)) {   // everything is released: all voices end
        for (auto &l : L) { int how = r.below(3); for (int ch = 0; ch < 16; ch++) { if (how == 1) { send(l, {(uint8_t)(0xb0 | ch), 123, 0}); continue; } for (int k = 0; k < 128; k++) if (l.key[ch][k] == HELD || l.drum[ch]) send(l, {(uint8_t)(0x80 | ch), (uint8_t)k, 64}); if (l.pedal[ch]) send(l, {(uint8_t)(0xb0 | ch), (uint8_t)(how == 0 ? 64 : 121), 0}); } }
        if (song) EAS_CloseFile(e.h, song), song = nullptr; int limit = (int)(30000 / e.bufMs()), i = 0; for (; i < limit && !c.failed(); i++) { p.clear(); e.render(&p, 1); buf++; v.take(e); int u = v.used(); if (!u) break; if (i < 4) compare(); } c.count("endings"); c.seen("buffers_to_end", i); if (i >= limit && !c.failed()) bad("voice-never-ends", strf("%d voices still in use 30 s after everything was released", v.used())); else if (!c.failed()) { p.clear(); e.render(&p, 3); if (!silent(p, e.bufN)) bad("sound-without-voice", "sound although no voice is in use"); }
    }
    c.nontrivial = c.counters["messages"] > 20; c.caseHash = hsh; c.sample = strf("%zu streams, %d channels:", L.size(), chans) + tr.substr(0, 120);
}
