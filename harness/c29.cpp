// C29: a song repeats exactly as many times as asked, every pass like the first.
#include "scen.h"
const char *vh_property = "C29";
static Bytes song(Rng &r, std::string &d) {
    SmfOpt o; o.division = r.chance(1, 2) ? 500 : r.chance(1, 2) ? 96 : 480; int nt = r.range(1, 3), span = r.chance(1, 8) ? 1 : r.range(5, 250), n = r.range(0, 10); std::vector<Track> ts(nt); std::vector<int> chs{(int)r.below(16), (int)r.below(4), 9};
    if (n == 0) d += " noteless"; for (int i = 0; i < n; i++) { int ch = r.pick(chs), k = r.range(36, 90); uint32_t at = r.below(span); Track &t = ts[r.below(nt)]; t.push_back(evNote(at, ch, k, r.range(30, 127))); if (r.chance(6, 7)) t.push_back(evOff(at + r.range(1, span), ch, k)); }
    int e = r.range(0, 12); for (int i = 0; i < e; i++) { int ch = r.pick(chs); uint32_t at = r.below(span); Track &t = ts[r.below(nt)]; switch (r.below(8)) { case 0: t.push_back(evTempo(at, r.range(100000, 900000))); break; case 1: t.push_back(evProg(at, ch, r.below(128))); break; case 2: t.push_back(evBend(at, ch, r.below(16384))); break; case 3: { int rpn = r.below(3), v = r.below(rpn ? 128 : 25); t.push_back(evCC(at, ch, 101, 0)); t.push_back(evCC(at, ch, 100, rpn)); t.push_back(evCC(at, ch, 6, v)); break; } case 4: { Bytes x; int k = r.below(5); if (k == 0) x = {0x7e, 0x7f, 9, 1, 0xf7}; else if (k == 1 || k == 4) x = {0x7f, 0x7f, 4, 1, (uint8_t)r.below(128), (uint8_t)r.below(128), 0xf7}; else if (k == 2) { x = {0x7f, 0x7f, 0x0b, 1}; for (int j = r.range(1, 5); j > 0; j--) { x.push_back(r.below(16)); x.push_back(r.range(1, 40)); } x.push_back(0xf7); } else x = {0x41, 1, 2, 0xf7}; t.push_back(evSysex(at, x)); break; } case 5: { static const int cc[] = {1, 7, 10, 11, 64, 0, 121, 123, 120}; t.push_back(evCC(at, ch, r.pick(cc), r.below(128))); break; } case 6: t.push_back(evPress(at, ch, r.below(128))); break; default: t.push_back(evText(at, r.range(1, 6), "words")); } }
    // what is left of a parameter, bank or pedal at the end of a pass must not reach the next
    if (r.chance(1, 3)) { int ch = r.pick(chs), q = r.below(5), v = r.range(1, 127); auto &t = ts[r.below(nt)]; uint32_t end = span - r.below(span / 4 + 1); t.push_back(evNote(1, ch, 60, 100)); t.push_back(evOff(span, ch, 60)); switch (q) {
        case 0: t.push_back(evCC(0, ch, 6, v)); t.push_back(evCC(end, ch, 101, 0)); t.push_back(evCC(end, ch, 100, r.below(3))); break;
        case 1: t.push_back(evCC(0, ch, 38, v)); t.push_back(evBend(0, ch, 12000)); t.push_back(evCC(end, ch, 101, 0)); t.push_back(evCC(end, ch, 100, r.below(2))); break;
        case 2: t.push_back(evProg(0, ch, v)); t.push_back(evCC(end, ch, 0, 0x78)); break;
        case 3: t.push_back(evCC(end, ch, 64, 127)); break;
        default: t.push_back(evCC(0, ch, 6, v)); t.push_back(evCC(end, ch, 99, 0)); t.push_back(evCC(end, ch, 98, 1)); } d += strf(" carry%d", q); }
    if (r.chance(1, 12)) { ts[0].insert(ts[0].begin(), {evMeta(0, 0x58, {4, 2, 24, 8}), evTempo(0, 500000), evSysex(0, {0x7e, 0x7f, 9, 1, 0xf7})}); d += " setup-bar"; }
    for (auto &t : ts) sortTrack(t); return buildSmf(ts, o); }
void vh_case(Ctx &c) {
    Rng &r = c.rng; std::string d; Bytes b = song(r, d); int nrep = r.chance(1, 4) ? r.range(-3, -1) : r.range(0, 4); bool change = r.chance(1, 2); EAS_I32 rate = r.chance(1, 3) ? r.range(1 << 27, 1 << 29) : 1 << 28; int trans = r.chance(1, 4) ? r.range(-12, 12) : 0, vol = r.chance(1, 4) ? r.range(40, 100) : -1; bool bankOn = r.chance(1, 6); Bytes bank; if (bankOn) bank = buildDls(genDlsSpec(r, false)); bool busy = r.chance(1, 6);
    auto prep = [&](Eas &e) { EAS_HANDLE s = e.openPrep(b); if (!s) return s; if (rate != 1 << 28) EAS_SetPlaybackRate(e.h, s, rate); if (trans) EAS_SetTransposition(e.h, s, trans); if (vol >= 0) EAS_SetVolume(e.h, s, vol); if (bankOn) EAS_LoadDLSCollection(e.h, s, e.file(bank)->locator()); return s; };
    d += strf(" rate %ld trans %d vol %d%s repeat %d", (long)rate, trans, vol, bankOn ? " bank" : "", nrep); c.caseHash = fnv(b) ^ fnv(d.data(), d.size()); c.sample = d;
    // once, without a repeat
    Pcm one; int period = 0; { Eas f; EAS_HANDLE s = prep(f); if (!s) { c.count("refused"); return; } for (; period < 5000; period++) { EAS_STATE st = f.state(s); if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) break; if (f.render(&one, 1)) break; } if (period >= 2000) { c.count("skipped_long"); return; } if (f.state(s) != EAS_STATE_STOPPED) { c.violation("single", "the song does not stop by itself: state %ld;%s", (long)f.state(s), d.c_str()); return; } c.nontrivial = !silent(one); if (f.loc(s) <= 0) { if (nrep < 0) nrep = 2; change = false; } }
    Eas e; EAS_HANDLE s = prep(e); EAS_HANDLE other = busy ? e.stream() : nullptr; EAS_RESULT x = EAS_SetRepeat(e.h, s, nrep); if (x) { c.violation("set", "EAS_SetRepeat(%d) gives %ld", nrep, (long)x); return; }
    // changes of the count at random times, none once the song has ended
    std::map<int, int> chg; int total = nrep < 0 ? -1 : nrep + 1, maxBuf = period * 6 + 50; if (change) { int k = r.range(1, 3); for (int i = 0; i < k; i++) { int at = r.below(period * 3 + 1); chg[at] = r.chance(1, 4) ? -1 : r.below(4); } } if (nrep < 0 || !chg.empty()) { int at = period * 2 + r.below(period * 2 + 1); for (auto it = chg.lower_bound(at); it != chg.end();) it = chg.erase(it); chg[at] = 0; } for (auto &q : chg) d += strf(" set %d@%d", q.second, q.first);
    int pass = 0, cur = nrep, inPass = 0, L0 = 0; bool stopped = false, moved = false; EAS_I32 lastLoc = 0;
    for (int k = 0; k < maxBuf; k++) {
        auto it = chg.find(k); if (it != chg.end()) { x = EAS_SetRepeat(e.h, s, it->second); if (x) c.violation("set", "EAS_SetRepeat gives %ld;%s", (long)x, d.c_str()); cur = it->second; c.count("changes"); if (inPass >= period - 1) moved = true; }
        EAS_I32 rep = -99; x = EAS_GetRepeat(e.h, s, &rep); EAS_STATE st = e.state(s); c.count("states_checked");
        if (rep != cur) { c.violation("count", "remaining count %ld, expected %d in buffer %d of pass %d;%s", (long)rep, cur, inPass, pass + 1, d.c_str()); return; }
        if (inPass == period && cur == 0) { if (st != EAS_STATE_STOPPED) { c.violation("end", "state %ld after %d passes with no repeat left, buffer %d;%s", (long)st, pass + 1, inPass, d.c_str()); return; } stopped = true; break; }
        if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) { c.violation("end", "state %ld in buffer %d of %d of pass %d, %d repeats left;%s", (long)st, inPass, period, pass + 1, cur, d.c_str()); return; }
        if (other && k % 40 == 3) e.write(other, {0xB0, 7, (uint8_t)r.below(128)});
        Pcm p; x = e.render(&p, 1); if (x) { c.violation("render", "EAS_Render gives %ld;%s", (long)x, d.c_str()); return; } EAS_I32 loc = e.loc(s);
        // a pass is one playback, buffer by buffer; between two passes there may be a buffer of silence
        if (inPass < period) { const int16_t *w = &one[(size_t)inPass * e.bufN * 2]; if (memcmp(w, p.data(), p.size() * 2)) { Pcm q(w, w + p.size()); long at = firstDiff(q, p); c.violation("pass", "pass %d differs from a single playback in buffer %d of %d, frame %ld (%d / %d);%s", pass + 1, inPass, period, at, q[at * 2], p[at * 2], d.c_str()); return; } }
        else if (!silent(p)) { c.violation("pass", "sound between pass %d and the next;%s", pass + 1, d.c_str()); return; }
        inPass++; c.count("buffers_compared");
        EAS_I32 now = -99; EAS_GetRepeat(e.h, s, &now); if (cur > 0 ? now == cur - 1 : cur < 0 && loc == 0 && inPass >= period) { // the next pass begins
            if (inPass < period || inPass > period + 1 || (L0 && !moved && inPass != L0)) { c.violation("time", "pass %d took %d buffers, pass 1 took %d, a single playback %d;%s", pass + 1, inPass, L0, period, d.c_str()); return; } if (!moved) L0 = inPass; moved = false; pass++; inPass = 0; if (cur > 0) cur--; c.count("passes"); lastLoc = 0; continue; }
        if (inPass > period) { c.violation("time", "pass %d goes on for more than %d buffers;%s", pass + 1, period, d.c_str()); return; }
        if (loc < lastLoc) { c.violation("location", "location goes from %ld to %ld ms in buffer %d of %d of pass %d;%s", (long)lastLoc, (long)loc, inPass, period, pass + 1, d.c_str()); return; } lastLoc = loc; }
    if (!stopped) { if (cur >= 0 && chg.empty()) c.violation("end", "never stopped;%s", d.c_str()); return; }
    if (nrep >= 0 && chg.empty() && pass != nrep) { c.violation("passes", "%d passes instead of %d;%s", pass + 1, nrep + 1, d.c_str()); return; }
    c.count("ended"); Pcm t; for (int k = 0; k < 8; k++) { if (e.render(&t, 1)) { c.violation("render", "error after the end;%s", d.c_str()); return; } if (e.state(s) != EAS_STATE_STOPPED) { c.violation("after", "state %ld after the end;%s", (long)e.state(s), d.c_str()); return; } } if (!silent(t)) c.violation("after", "sound after the last pass;%s", d.c_str());
}
