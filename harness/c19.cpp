// C19: loudness controls: monotone, proportional, zero is silence, only what they address; pan.
#include "probe.h"
const char *vh_property = "C19";
enum Ctl { MASTER, STREAM, CC7, CC11, SYSEX, VEL, NCTL };
static const char *CN[] = {"instance volume", "stream volume", "channel volume", "expression", "master-volume message", "velocity"};
struct Levels { int v[NCTL]; };
static int top(int k) { return k <= STREAM ? 100 : k == SYSEX ? 16383 : 127; }
// expected linear gain of a control value, from the documentation (1 dB steps) and the MIDI specification (squared)
static double law(int k, int v) { if (k == MASTER || k == STREAM) return v <= 10 ? 0 : pow(10, (v - 110) / 20.0); if (k == SYSEX) { double x = v / 16383.0; return x * x; } return (v / 127.0) * (v / 127.0); }
static void put(Eas &e, EAS_HANDLE s, int ch, int k, int v) {
    switch (k) { case MASTER: EAS_SetVolume(e.h, nullptr, v); break; case STREAM: EAS_SetVolume(e.h, s, v); break; case CC7: e.write(s, {(uint8_t)(0xB0 | ch), 7, (uint8_t)v}); break; case CC11: e.write(s, {(uint8_t)(0xB0 | ch), 11, (uint8_t)v}); break; case SYSEX: e.write(s, {0xF0, 0x7F, 0x7F, 4, 1, (uint8_t)(v & 127), (uint8_t)(v >> 7), 0xF7}); break; }
}
struct Note { int buf, ch, note, vel, len; };
struct Part { std::vector<Note> n; int prog[16]; int pan[16]; };
static Part genPart(Rng &r, int nNotes, int buffers, int chLo, int chHi) {
    Part p; for (int i = 0; i < 16; i++) { p.prog[i] = r.below(128); p.pan[i] = -1; } for (int i = 0; i < nNotes; i++) { Note n; n.buf = r.below(std::max(1, buffers / 2)); n.ch = r.range(chLo, chHi); n.note = r.range(36, 96); n.vel = r.range(1, 127); n.len = r.range(1, buffers); p.n.push_back(n); } return p; }
static void setup(Eas &e, EAS_HANDLE s, const Part &p, const std::set<int> &chs) { for (int ch : chs) { if (ch != 9) e.write(s, {(uint8_t)(0xC0 | ch), (uint8_t)p.prog[ch]}); if (p.pan[ch] >= 0) e.write(s, {(uint8_t)(0xB0 | ch), 10, (uint8_t)p.pan[ch]}); } }
static void due(Eas &e, EAS_HANDLE s, const Part &p, int buf, int velSet) { for (auto &n : p.n) { if (n.buf == buf) e.write(s, {(uint8_t)(0x90 | n.ch), (uint8_t)n.note, (uint8_t)(velSet >= 0 ? velSet : n.vel)}); if (n.buf + n.len == buf) e.write(s, {(uint8_t)(0x80 | n.ch), (uint8_t)n.note, 64}); } }
static Pcm play(const Part &p, const Levels &l, int buffers, int ch, int velSet) {
    Eas e; EAS_HANDLE s = e.stream(); std::set<int> chs; for (auto &n : p.n) chs.insert(n.ch); setup(e, s, p, chs); for (int k = 0; k <= SYSEX; k++) if (l.v[k] >= 0) { if (k == CC7 || k == CC11) { for (int x : chs) put(e, s, x, k, l.v[k]); } else put(e, s, ch, k, l.v[k]); }
    Pcm o; for (int b = 0; b < buffers; b++) { due(e, s, p, b, velSet); e.render(&o, 1); } EAS_CloseMIDIStream(e.h, s); return o;
}
static Levels genLevels(Rng &r) { Levels l; for (int k = 0; k < NCTL; k++) { l.v[k] = r.chance(1, 2) ? top(k) : k == SYSEX ? r.range(9000, 16383) : k <= STREAM ? r.range(85, 100) : r.range(90, 127); } if (r.chance(1, 3)) l.v[SYSEX] = -1; return l; }
static std::string lt(const Levels &l) { return strf("instance %d stream %d cc7 %d cc11 %d sysex %d velocity %d", l.v[0], l.v[1], l.v[2], l.v[3], l.v[4], l.v[5]); }
static void lawCase(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(4, 20); Part p = genPart(r, 1, 1, 0, r.chance(1, 5) ? 9 : 8); p.n[0].len = r.range(2, buffers + 4); int ch = p.n[0].ch; Levels l = genLevels(r); int k = r.below(NCTL); int a = r.chance(1, 4) ? 0 : r.below(top(k)), b = r.range(a + 1, top(k)); if (k == VEL && a == 0) a = 1; if (b <= a) b = a + 1; if (r.chance(1, 4)) b = top(k);
    if (k <= STREAM && r.chance(1, 2)) l.v[SYSEX] = -1; if (k == STREAM) l.v[SYSEX] = -1; if (k == SYSEX && l.v[STREAM] < 100) l.v[STREAM] = -1;
    Levels la = l, lb = l; la.v[k] = a; lb.v[k] = b; Pcm x = play(p, la, buffers, ch, la.v[VEL]), y = play(p, lb, buffers, ch, lb.v[VEL]); double rx = rms(x, 0, x.size() / 2), ry = rms(y, 0, y.size() / 2);
    std::string d = strf("%s %d and %d, program %d channel %d note %d, %s", CN[k], a, b, p.prog[ch], ch, p.n[0].note, lt(l).c_str()); c.sample = d; c.caseHash = fnv(d.data(), d.size()); if (ry > 5) c.nontrivial = true; c.count("pairs");
    if (law(k, a) == 0 && !silent(x)) c.violation("zero", "peak %d at zero: %s", peak(x), d.c_str());
    int pk = peak(y); if (pk >= 32700) { c.count("clipped"); if (rx > ry + 1) c.violation("monotone", "rms %.2f and %.2f: %s", rx, ry, d.c_str()); return; }
    int worst = 0; size_t at = 0; for (size_t i = 0; i < x.size(); i++) { int v = abs(x[i]) - abs(y[i]); if (v > worst) { worst = v; at = i; } } 
    if (rx > ry + 0.5) c.violation("monotone", "rms %.2f is louder than %.2f: %s", rx, ry, d.c_str()); if (worst > 8) c.violation("pointwise", "sample %zu is %d and %d: %s", at, x[at], y[at], d.c_str());
    double want = law(k, a) / law(k, b), others = 1; for (int q = STREAM; q < NCTL; q++) if (q != k && l.v[q] >= 0) others *= law(q, l.v[q]) / law(q, top(q)); if (ry > 300 && rx > 200 && law(k, a) * others > 0.08 && (k != MASTER || a >= 80)) { double db = 20 * log10(rx / ry / want); c.count("laws"); if (fabs(db) > 1.2) c.violation("law", "levels %.1f and %.1f are %.2f dB off the documented law: %s", rx, ry, db, d.c_str()); }
    if (ry > 300 && rx < 20 && want > 0.3) c.violation("law", "levels %.1f and %.1f, expected ratio %.2f: %s", rx, ry, want, d.c_str());
}
// any history of a control leaves only its last value
static void historyCase(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(10, 40); Part p = genPart(r, r.range(1, 6), buffers, 0, r.chance(1, 3) ? 9 : 3); std::set<int> chs; for (auto &n : p.n) chs.insert(n.ch); Eas e, f; EAS_HANDLE s = e.stream(), t = f.stream(); setup(e, s, p, chs); setup(f, t, p, chs); int ch = p.n[0].ch; std::string tr;
    Levels fin = genLevels(r); bool use[SYSEX + 1]; for (int k = 0; k <= SYSEX; k++) use[k] = r.chance(1, 2); if (use[STREAM]) use[SYSEX] = false; int last = 0; std::vector<std::pair<int, std::pair<int, int>>> ev; for (int k = 0; k <= SYSEX; k++) if (use[k]) { int n = r.range(1, 4); for (int i = 0; i < n; i++) { int at = r.below(buffers * 2 / 3); int v = i || fin.v[k] < 0 ? (r.chance(1, 3) ? 0 : (int)r.below(top(k) + 1)) : fin.v[k]; ev.push_back({at, {k, v}}); } }
    std::stable_sort(ev.begin(), ev.end(), [](auto &a, auto &b) { return a.first < b.first; }); int fv[SYSEX + 1]; for (auto &x : ev) { fv[x.second.first] = x.second.second; last = std::max(last, x.first); } for (int k = 0; k <= SYSEX; k++) if (use[k]) put(f, t, ch, k, fv[k]); 
    for (auto &x : ev) tr += strf(" %s=%d@%d", CN[x.second.first], x.second.second, x.first);
    for (int b = 0; b < buffers; b++) { for (auto &x : ev) if (x.first == b) put(e, s, ch, x.second.first, x.second.second); due(e, s, p, b, -1); due(f, t, p, b, -1); Pcm x, y; e.render(&x, 1); f.render(&y, 1); if (b < last + 2) continue; c.count("history_buffers"); if (!silent(y)) c.nontrivial = true; long d = firstDiff(x, y); if (d >= 0) { c.violation("history", "buffer %d differs from the run with the final values from the start (last change in buffer %d), frame %ld; %zu notes, channel %d:%s", b, last, d, p.n.size(), ch, tr.c_str()); break; } }
    c.sample = tr; c.caseHash = fnv(tr.data(), tr.size()) ^ r.next(); EAS_CloseMIDIStream(e.h, s); EAS_CloseMIDIStream(f.h, t);
}
// a control of one channel or stream changes nothing of the others
static void scopeCase(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(8, 30); bool streams = r.chance(1, 3); Part a = genPart(r, r.range(1, 4), buffers, 0, 1), b = genPart(r, r.range(1, 4), buffers, 2, r.chance(1, 2) ? 9 : 4); if (streams) for (auto &n : b.n) if (r.chance(1, 2)) { n.ch = r.below(2); }
    int k = streams ? (r.chance(1, 3) ? CC7 : r.chance(1, 2) ? SYSEX : STREAM) : (r.chance(1, 2) ? CC7 : CC11); int at = r.chance(1, 3) ? 0 : r.below(buffers / 2); std::set<int> ca, cb; for (auto &n : a.n) ca.insert(n.ch); for (auto &n : b.n) cb.insert(n.ch);
    Eas e, f; EAS_HANDLE s = e.stream(), s2 = streams ? e.stream() : s, t = f.stream(), t2 = streams ? f.stream() : t; if (streams && r.chance(1, 2)) { std::swap(s, s2); std::swap(t, t2); } setup(e, s, a, ca); setup(e, s2, b, cb); setup(f, t2, b, cb);
    for (int i = 0; i < buffers; i++) { if (i == at) { if (k == CC7 || k == CC11) { for (int ch : ca) put(e, s, ch, k, 0); } else put(e, s, 0, k, 0); } due(e, s, a, i, -1); due(e, s2, b, i, -1); due(f, t2, b, i, -1); Pcm x, y; e.render(&x, 1); f.render(&y, 1); if (i < at + 2 && at > 0) continue; c.count("scope_buffers"); if (!silent(y)) c.nontrivial = true; long d = firstDiff(x, y); if (d >= 0) { c.violation("scope", "with %s of one %s at 0 since buffer %d, buffer %d differs from the others alone at frame %ld (%d / %d); %zu and %zu notes", CN[k], streams ? "stream" : "channel", at, i, d, x[d * e.chans], y[d * e.chans], a.n.size(), b.n.size()); break; } }
    c.sample = strf("%s to 0 at buffer %d, %zu notes beside %zu", CN[k], at, a.n.size(), b.n.size()); c.caseHash = r.next(); if (streams) { EAS_CloseMIDIStream(e.h, s2); EAS_CloseMIDIStream(f.h, t2); } EAS_CloseMIDIStream(e.h, s); EAS_CloseMIDIStream(f.h, t);
}
static void panCase(Ctx &c) {
    Rng &r = c.rng; int buffers = r.range(4, 12); Part p = genPart(r, 1, 1, 0, r.chance(1, 4) ? 9 : 8); p.n[0].len = 50; p.n[0].vel = r.range(80, 127); int ch = p.n[0].ch; Levels l; for (int k = 0; k < NCTL; k++) l.v[k] = top(k); l.v[SYSEX] = -1; l.v[MASTER] = 90; int a = r.below(127), b = r.range(a + 1, 127); 
    auto run = [&](int pan, double &L, double &R) { p.pan[ch] = pan; Pcm o = play(p, l, buffers, ch, -1); L = rms(o, 0, o.size() / 2, 0); R = rms(o, 0, o.size() / 2, 1); return o; }; double la, ra, lb, rb, lc, rc; Pcm x = run(a, la, ra), y = run(b, lb, rb), z = run(64, lc, rc); if (peak(x) >= 32700 || peak(y) >= 32700) return; std::string d = strf("pan %d: %.1f/%.1f, pan %d: %.1f/%.1f, centre %.1f/%.1f, program %d channel %d note %d", a, la, ra, b, lb, rb, lc, rc, p.prog[ch], ch, p.n[0].note); c.sample = d; c.caseHash = fnv(d.data(), d.size()); if (lc + rc > 20) c.nontrivial = true; c.count("pan_pairs");
    if (lb > la * 1.01 + 1 || ra > rb * 1.01 + 1) c.violation("pan", "moving to the right raised the left or lowered the right: %s", d.c_str());
    if (ch != 9 && lc + rc > 200 && fabs(lc - rc) > 0.1 * (lc + rc)) c.violation("centre", "centre is not balanced: %s", d.c_str());
    if (b > 120 && ch != 9 && lb > 0.1 * rb + 2) c.violation("side", "%s", d.c_str()); if (a < 7 && ch != 9 && ra > 0.1 * la + 2) c.violation("side", "%s", d.c_str());
    // constant power
    double pa = la * la + ra * ra, pc = lc * lc + rc * rc; if (pc > 10000 && fabs(10 * log10(pa / pc)) > 1.5) c.violation("power", "total power changes with pan: %s", d.c_str());
}
void vh_case(Ctx &c) { int k = c.rng.below(10); if (k < 4) lawCase(c); else if (k < 6) historyCase(c); else if (k < 8) scopeCase(c); else panCase(c); }
