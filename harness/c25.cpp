// C25: pitch = note + transposition + bend x range + coarse + fine, by any route, for the addressed channel and stream only.
#include "tone.h"
const char *vh_property = "C25";
// a bank of pure tones: melodic program 0 (and drum program 0), one region each
struct Tone { int unity, fine; double f0; };    // f0: frequency at the root key
static Bytes toneBank(Rng &r, Tone t[2]) {
    DlsSpec s; for (int i = 0; i < 2; i++) { static const uint32_t rates[] = {11025, 22050, 44100, 48000}; DlsWave w; w.rate = r.pick(rates); int per = r.range(40, 160), n = r.range(2, 8); w.s = sineWave((double)w.rate / per, w.rate, per * (n + 2), 20000); w.w.present = true; w.w.unity = r.range(48, 76); w.w.fine = r.range(-99, 99); w.w.loops = 1; w.w.ls = r.below(per); w.w.ll = per * n; s.waves.push_back(w);
        DlsInst in; in.drum = i == 1; in.prog = 0; DlsRegion g; g.wave = i; g.opt = 1; in.r.push_back(g); in.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(in); t[i] = {w.w.unity, w.w.fine, (double)w.rate / per}; }
    return buildDls(s); }
struct ChM { int sens = 2, bend = 8192, fine = 64, coarse = 64, msb = 127, lsb = 127; bool drum = false; void reset() { sens = 2; bend = 8192; fine = coarse = 64; msb = lsb = 127; }
    double cents() const { double c = (bend - 8192) / 8192.0 * sens * 100; if (!drum) c += (coarse - 64) * 100 + (fine - 64) / 64.0 * 100; return c; } };
struct StM { EAS_HANDLE h = nullptr; Tone t[2]; ChM c[16]; int T = 0; };
static void cc(Eas &e, EAS_HANDLE h, int ch, int n, int v) { e.write(h, {(uint8_t)(0xB0 | ch), (uint8_t)n, (uint8_t)v}); }
static void setBend(Eas &e, EAS_HANDLE h, int ch, int b) { e.write(h, {(uint8_t)(0xE0 | ch), (uint8_t)(b & 127), (uint8_t)(b >> 7)}); }
static std::string oneSetting(Rng &r, Eas &e, StM &s, int ch, bool sounding) {
    ChM &c = s.c[ch]; int k = r.below(sounding ? 13 : 15), v = 0;
    switch (k) {
    case 0: case 1: case 2: { int b = r.chance(1, 5) ? 8192 : r.chance(1, 6) ? (r.chance(1, 2) ? 0 : 16383) : r.below(16384); c.bend = b; setBend(e, s.h, ch, b); return strf(" ch%d bend%d", ch, b); }
    case 3: v = r.chance(2, 3) ? r.below(3) : r.below(128); c.lsb = v; cc(e, s.h, ch, 100, v); return strf(" ch%d rpnL%d", ch, v);
    case 4: v = r.chance(4, 5) ? 0 : r.chance(1, 2) ? r.below(3) : r.below(128); c.msb = v; cc(e, s.h, ch, 101, v); return strf(" ch%d rpnM%d", ch, v);
    case 5: case 6: case 7: { v = r.chance(1, 4) ? 64 : r.chance(1, 2) ? r.below(13) : r.range(40, 90); if (r.chance(1, 6)) { c.msb = r.chance(1, 3) ? 1 : r.range(1, 127); c.lsb = r.below(3); bool first = r.chance(1, 2); cc(e, s.h, ch, first ? 101 : 100, first ? c.msb : c.lsb); cc(e, s.h, ch, first ? 100 : 101, first ? c.lsb : c.msb); }
        else if (r.chance(2, 3)) { int p = r.below(3); c.msb = 0; c.lsb = p; if (p == 2) v = r.range(52, 76); if (p == 1) v = r.below(128); if (p == 0) v = r.below(r.chance(1, 2) ? 13 : 25); bool first = r.chance(1, 2); cc(e, s.h, ch, first ? 101 : 100, first ? 0 : p); cc(e, s.h, ch, first ? 100 : 101, first ? p : 0); }
        if (c.msb == 0) { if (c.lsb == 0) c.sens = v; else if (c.lsb == 1) c.fine = v; else if (c.lsb == 2) c.coarse = v; } cc(e, s.h, ch, 6, v); return strf(" ch%d rpn%d.%d=%d", ch, c.msb, c.lsb, v); }
    case 8: v = r.chance(1, 2) ? 98 : 99; c.msb = c.lsb = 127; cc(e, s.h, ch, v, r.below(3)); return strf(" ch%d nrpn", ch);
    case 9: { static const int other[] = {38, 2, 4, 5, 65, 84, 96, 97, 7, 16, 80}; int n = r.pick(other); v = n == 7 ? r.range(80, 127) : r.below(128); cc(e, s.h, ch, n, v); return strf(" ch%d cc%d=%d", ch, n, v); }
    case 10: c.reset(); cc(e, s.h, ch, 121, r.below(128)); return strf(" ch%d cc121", ch);
    case 11: case 12: { int T = r.chance(1, 8) ? r.range(13, 100) * (r.chance(1, 2) ? 1 : -1) : r.range(-12, 12); EAS_RESULT x = EAS_SetTransposition(e.h, s.h, T); if (x == EAS_SUCCESS) s.T = T; return strf(" T%d", T); }
    case 13: if (r.chance(1, 2)) { bool d = r.chance(1, 2); if (ch == 9 && !d) d = true; c.drum = d; cc(e, s.h, ch, 0, d ? 0x78 : 0x79); e.write(s.h, {(uint8_t)(0xC0 | ch), 0}); return strf(" ch%d %s", ch, d ? "rhythm" : "melody"); } return "";
    default: if (r.chance(1, 4)) { for (int i = 0; i < 16; i++) { s.c[i].reset(); s.c[i].drum = i == 9; } e.write(s.h, {0xF0, 0x7E, 0x7F, 9, 1, 0xF7}); return " GM"; } return ""; } }
static void measuredCase(Ctx &c) {
    Rng &r = c.rng; Eas e; int n = r.range(1, 3); std::vector<StM> st(n); std::string tr; std::vector<std::unique_ptr<MemFile>> keep;
    for (auto &s : st) { Bytes b = toneBank(r, s.t); s.h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, s.h, e.file(b)->locator()); if (x) { c.violation("bank", "tone bank refused: %ld", (long)x); return; } s.c[9].drum = true; tr += strf(" bank(%d/%d %d/%d)", s.t[0].unity, s.t[0].fine, s.t[1].unity, s.t[1].fine); e.write(s.h, {0xC0, 0}); for (int ch = 0; ch < 16; ch++) e.write(s.h, {(uint8_t)(0xC0 | ch), 0}); }
    int rounds = r.range(2, 6), measured = 0; Pcm junk; e.render(&junk, 1);
    for (int k = 0; k < rounds && !c.failed(); k++) {
        int si = r.below(n), ch = r.chance(1, 6) ? 9 : r.below(4); StM &s = st[si]; int ops = r.range(0, 8);
        for (int i = 0; i < ops; i++) { StM &o = r.chance(3, 5) ? s : st[r.below(n)]; int oc = r.chance(3, 5) ? ch : r.chance(1, 3) ? 9 : r.below(4); tr += oneSetting(r, e, o, oc, false); if (r.chance(1, 6)) { e.render(&junk, 1); tr += " |"; } }
        auto want = [&]() { ChM &m = s.c[ch]; Tone &t = s.t[m.drum ? 1 : 0]; return t; }; Tone t = want();
        auto expect = [&](int key) { ChM &m = s.c[ch]; return (key - t.unity) * 100.0 + t.fine + m.cents() + (m.drum ? 0 : s.T * 100); };
        // a key whose pitch is comfortable to measure
        int key = -1; for (int i = 0; i < 60; i++) { int q = r.below(128); double f = t.f0 * pow(2, expect(q) / 1200), ratio = pow(2, expect(q) / 1200); if (f > 60 && f < e.rate * 0.09 && ratio > 0.1 && ratio < 16) { key = q; break; } } if (key < 0) continue;
        tr += strf(" on%d.%d.%d", si, ch, key); e.write(s.h, {(uint8_t)(0x90 | ch), (uint8_t)key, (uint8_t)r.range(90, 127)}); int phases = r.range(1, 4);
        for (int p = 0; p < phases && !c.failed(); p++) {
            double cents = expect(key), ratio = pow(2, cents / 1200), f = t.f0 * ratio; bool ok = f > 45 && f < e.rate * 0.12 && ratio > 0.07 && ratio < 24; int skip = 2, bufs = std::max(6, (int)(10 * e.rate / f / e.bufN)); bufs = std::min(bufs, 60);
            Pcm pcm; e.render(&pcm, skip + bufs); if (ok) { double amp, jit; double got = crossings(pcm, e.chans, e.rate, (size_t)skip * e.bufN, (size_t)(skip + bufs) * e.bufN, &amp, &jit); c.count("measurements"); measured++;
                // the phase increment has 15 fraction bits relative to one sample, the exponent 1/4096 octave
                double inc = ratio * 32768, err = got > 0 ? 1200 * log2(got / f) : 1e9, tol = 3.5 + 3300 / inc; if (fabs(err) < 1e8) { c.seen("cents_x10", (uint64_t)(int64_t)llround(cents * 10)); }
                if (amp < 60) c.violation("sound", "note makes no sound (peak %.0f);%s", amp, tr.c_str());
                else if (fabs(err) > tol) c.violation("pitch", "stream %d channel %d (%s) key %d: %.2f Hz expected (%+.1f cents from the root), %.2f Hz measured (%.2f cents off, tolerance %.2f);%s", si, ch, s.c[ch].drum ? "rhythm" : "melodic", key, f, cents, got, err, tol, tr.c_str()); else if (jit > 0.004) c.violation("steady", "stream %d channel %d key %d: the periods of the tone waver by %.4f of a period;%s", si, ch, key, jit, tr.c_str()); if (c.verbose && getenv("C25_ERR")) printf("ERR %.3f %.3f %.3f amp %.0f jit %.5f f %.1f cents %.2f\n", err, tol, ratio, amp, jit, f, cents); }
            // changes while it sounds
            int m = r.range(0, 5); for (int i = 0; i < m; i++) { StM &o = r.chance(3, 5) ? s : st[r.below(n)]; int oc = r.chance(3, 5) ? ch : r.chance(1, 3) ? 9 : r.below(4); tr += oneSetting(r, e, o, oc, true); if (r.chance(1, 5)) { e.render(&junk, 1); tr += " |"; } } }
        e.write(s.h, {(uint8_t)(0xB0 | ch), 120, 0}); e.render(&junk, 3); for (int i = 0; i < 100 && !silent(junk, junk.size() / e.chans - e.bufN, e.bufN); i++) e.render(&junk, 1); }
    c.nontrivial = measured > 0; c.sample = tr.substr(0, 300); c.caseHash = fnv(tr.data(), tr.size()); }
// exact equality of different routes to the same pitch
struct Cfg { int T, coarse, fine, sens, bend; };
static void apply(Rng &r, Eas &e, EAS_HANDLE h, int ch, const Cfg &g, bool detours, std::string *tr) {
    std::vector<int> todo{0, 1, 2, 3, 4}; std::vector<int> seq; for (int i = 4; i > 0; i--) std::swap(todo[i], todo[r.below(i + 1)]);
    auto rpn = [&](int p, int v) { bool f = r.chance(1, 2); cc(e, h, ch, f ? 101 : 100, f ? 0 : p); cc(e, h, ch, f ? 100 : 101, f ? p : 0); if (detours && r.chance(1, 3)) cc(e, h, ch, 6, r.below(128)); cc(e, h, ch, 6, v); if (detours && r.chance(1, 3)) cc(e, h, ch, 38, r.below(128)); if (detours && r.chance(1, 3)) { cc(e, h, ch, 101, 127); cc(e, h, ch, 100, 127); cc(e, h, ch, 6, r.below(128)); } if (detours && r.chance(1, 5)) { cc(e, h, ch, 99, 0); cc(e, h, ch, 98, r.below(3)); cc(e, h, ch, 6, r.below(128)); } };
    auto doit = [&](int w, const Cfg &v) { switch (w) { case 0: EAS_SetTransposition(e.h, h, v.T); break; case 1: rpn(2, v.coarse); break; case 2: rpn(1, v.fine); break; case 3: rpn(0, v.sens); break; case 4: setBend(e, h, ch, v.bend); break; } };
    for (int w : todo) { if (detours && r.chance(1, 2)) { Cfg x{r.range(-12, 12), (int)r.below(128), (int)r.below(128), (int)r.below(128), (int)r.below(16384)}; doit(r.below(5) == 0 ? w : w, x); if (r.chance(1, 6)) EAS_SetTransposition(e.h, h, g.T), EAS_SetTransposition(e.h, h, w == 0 ? x.T : g.T); } if (w != 0 || true) doit(w, g); }
    if (detours && r.chance(1, 4)) { cc(e, h, ch, 121, 0); for (int w : todo) doit(w, g); } doit(0, g); *tr += strf(" T%d coarse%d fine%d sens%d bend%d", g.T, g.coarse, g.fine, g.sens, g.bend); }
static void routeCase(Ctx &c) {
    Rng &r = c.rng; bool dls = r.chance(1, 2), drum = r.chance(1, 6); int ch = drum && r.chance(1, 2) ? 9 : (r.below(8) + 10) % 16, prog = drum ? 0 : r.below(128); Bytes bank; Tone t[2]; if (dls) { bank = toneBank(r, t); prog = 0; } Eas a, b; EAS_HANDLE ha = a.stream(), hb = b.stream(); std::string ta, tb;
    if (dls) { EAS_LoadDLSCollection(a.h, ha, a.file(bank)->locator()); EAS_LoadDLSCollection(b.h, hb, b.file(bank)->locator()); } if (drum && ch != 9) { cc(a, ha, ch, 0, 0x78); cc(b, hb, ch, 0, 0x78); c.count("drums_off_channel_10"); } a.write(ha, {(uint8_t)(0xC0 | ch), (uint8_t)prog}); b.write(hb, {(uint8_t)(0xC0 | ch), (uint8_t)prog});
    static const int finesI[] = {0, 16, 32, 48, 64, 64, 64, 80, 96, 112}; static const int sensI[] = {1, 2, 4, 8, 16, 32, 2, 2, 2};
    auto exactBend = [&](int sens, int cents, int *bend) { long num = (long)cents * 8192; if (sens == 0) { *bend = r.below(16384); return cents == 0; } if (num % (sens * 100)) return false; long d = num / (sens * 100); if (d < -8192 || d > 8191) return false; *bend = (int)(8192 + d); return true; };
    int key = 0, vel = r.range(30, 127); Cfg g{0, 64, 64, 2, 8192}, w = g; int keyB = 0, keyA = 0; bool found = false;
    auto finec = [](int v) { return (v - 64) * 100 / 64; };
    for (int i = 0; i < 200 && !found; i++) {
        g = {r.chance(1, 2) ? 0 : r.range(-12, 12), r.chance(1, 2) ? 64 : r.range(40, 90), r.pick(finesI), r.pick(sensI), 8192}; int bc = r.chance(1, 2) ? 0 : 25 * r.range(-16, 16); if (!exactBend(g.sens, bc, &g.bend)) continue;
        w = {r.chance(1, 2) ? g.T : r.range(-12, 12), r.chance(1, 2) ? g.coarse : r.range(40, 90), dls ? r.pick(finesI) : g.fine, r.pick(sensI), 8192}; key = r.range(24, 100); int total, bw;
        if (drum) { w.fine = r.below(128); if (!dls) { g.coarse = w.coarse = 64; } keyA = keyB = key; bw = bc; }   // rhythm: keys and tuning do not move, the bend does
        else { int adj = key + g.coarse - 64 + g.T; keyA = key; total = key * 100 + (g.coarse - 64) * 100 + g.T * 100 + finec(g.fine) + bc; 
            if (dls) { keyB = r.chance(1, 2) ? key : r.range(10, 115); bw = total - (keyB * 100 + (w.coarse - 64) * 100 + w.T * 100 + finec(w.fine)); }
            else { keyB = adj - (w.coarse - 64) - w.T; bw = bc; if (adj < 1 || adj > 126) continue; } if (keyB < 0 || keyB > 127) continue; }
        if (!exactBend(w.sens, bw, &w.bend)) continue; found = true; }
    if (!found) return; std::string tr; bool during = r.chance(1, 3); int at = during ? r.range(1, 6) : 0; Pcm pa, pb, ja, jb; int bufs = r.range(6, 16);
    apply(r, a, ha, ch, g, r.chance(1, 2), &ta); if (!during || !dls || drum) apply(r, b, hb, ch, w, r.chance(1, 2), &tb); else { /* other route reached while the note sounds, from the same sound */ apply(r, b, hb, ch, g, r.chance(1, 2), &tb); keyB = keyA; }
    // other channels and streams do not matter
    if (r.chance(1, 2)) { StM o; o.h = hb; int oc = (ch + 1 + r.below(15)) % 16; for (int i = 0; i < 10; i++) { std::string z; do { Rng q = r; if (q.below(13) < 11) { z = oneSetting(r, b, o, oc, true); break; } r.next(); } while (1); tb += z; } EAS_HANDLE other = b.stream(); StM o2; o2.h = other; for (int i = 0; i < 10; i++) oneSetting(r, b, o2, ch, true); EAS_SetTransposition(b.h, hb, during && dls && !drum ? g.T : w.T); }
    if (r.chance(1, 2)) { a.render(&ja, 1); b.render(&jb, 1); }
    a.write(ha, {(uint8_t)(0x90 | ch), (uint8_t)keyA, (uint8_t)vel}); b.write(hb, {(uint8_t)(0x90 | ch), (uint8_t)keyB, (uint8_t)vel});
    for (int i = 0; i < bufs; i++) { if (during && i == at) { Cfg x = g; if (dls && !drum) { // both move to the same new pitch, by different routes
                int nc = 25 * r.range(-40, 40), bend, base = keyA * 100 + (g.coarse - 64) * 100 + g.T * 100; Cfg ga = g, gb = g; (void)base; bool ok = false; for (int k = 0; k < 100 && !ok; k++) { ga = {r.range(-12, 12), r.range(50, 80), r.pick(finesI), r.pick(sensI), 8192}; gb = {r.range(-12, 12), r.range(50, 80), r.pick(finesI), r.pick(sensI), 8192}; int ba = nc - (ga.coarse - 64) * 100 - ga.T * 100 - finec(ga.fine), bb = nc - (gb.coarse - 64) * 100 - gb.T * 100 - finec(gb.fine); ok = exactBend(ga.sens, ba, &ga.bend) && exactBend(gb.sens, bb, &gb.bend); } (void)bend;
                if (ok) { apply(r, a, ha, ch, ga, r.chance(1, 2), &ta); apply(r, b, hb, ch, gb, r.chance(1, 2), &tb); c.count("moves_while_sounding"); } }
            else { x.bend = r.below(16384); setBend(b, hb, ch, x.bend); x.bend = r.below(16384); setBend(b, hb, ch, x.bend); setBend(b, hb, ch, w.bend); tb += " bend and back"; c.count("bend_and_back"); } }
        a.render(&pa, 1); b.render(&pb, 1); }
    tr = strf("%s ch %d prog %d key %d:%s | key %d:%s", dls ? "tone bank" : "built-in", ch, prog, keyA, ta.c_str(), keyB, tb.c_str()); c.nontrivial = !silent(pa); c.sample = tr.substr(0, 300); c.caseHash = fnv(tr.data(), tr.size()); c.count("routes"); long d = firstDiff(pa, pb); if (d >= 0) c.violation("route", "equal pitch by two routes sounds different at frame %ld (buffer %ld): %s", d, d / a.bufN, tr.c_str()); }
// the pitch of built-in programs: one semitone more is one semitone more, by key, transposition, coarse tuning or bend
static void builtinCase(Ctx &c) {
    static const int progs[] = {16, 19, 48, 52, 60, 62, 68, 71, 73, 80, 81, 82}; Rng &r = c.rng; int prog = r.pick(progs), key = r.range(57, 72), shift = r.range(-7, 7), route = r.below(5); double f[2] = {0, 0}; 
    for (int i = 0; i < 2; i++) { Eas e; EAS_HANDLE h = e.stream(); e.write(h, {0xC0, (uint8_t)prog}); int k = key; if (i) switch (route) { case 0: k += shift; break; case 1: EAS_SetTransposition(e.h, h, shift); break; case 2: cc(e, h, 0, 101, 0); cc(e, h, 0, 100, 2); cc(e, h, 0, 6, 64 + shift); break; case 3: cc(e, h, 0, 101, 0); cc(e, h, 0, 100, 0); cc(e, h, 0, 6, 8); setBend(e, h, 0, 8192 + shift * 1024); break; default: break; }
        e.write(h, {0x90, (uint8_t)k, 110}); if (i && route == 4) { cc(e, h, 0, 101, 0); cc(e, h, 0, 100, 0); cc(e, h, 0, 6, 8); setBend(e, h, 0, 8192 + shift * 1024); } Pcm p; int skip = (int)(0.25 * e.rate / e.bufN), bufs = (int)(0.3 * e.rate / e.bufN); e.render(&p, skip + bufs); double exp = 440 * pow(2, (key + (i ? shift : 0) - 69) / 12.0); f[i] = freqOf(p, (size_t)skip * e.bufN, (size_t)bufs * e.bufN, e.rate, exp * 0.9, exp * 1.1); double err = 1200 * log2(f[i] / exp); c.count("builtin_measured"); if (c.verbose && getenv("C25_ERR")) printf("BERR %d %.2f\n", prog, err); if (fabs(err) > 30) c.violation("builtin", "program %d key %d shift %d by route %d: %.1f Hz measured, %.1f expected (%.0f cents)", prog, key, i ? shift : 0, route, f[i], exp, err); }
    c.nontrivial = true; c.sample = strf("built-in program %d key %d shift %d route %d: %.1f -> %.1f Hz", prog, key, shift, route, f[0], f[1]); c.caseHash = ((prog * 128 + key) * 64 + shift + 8) * 8 + route; }
void vh_case(Ctx &c) { int k = c.rng.below(8); if (k < 4) measuredCase(c); else if (k < 7) routeCase(c); else builtinCase(c); }
