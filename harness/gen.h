// Generators: MIDI messages, songs, DLS collections; well-formed and hostile.
#pragma once
#include "vh.h"

// ------------------------------------------------------------ DLS
struct DlsConn { int src, ctl, dst, trn; int32_t scale; };
struct DlsWsmp { bool present = false; int unity = 60; int fine = 0; int32_t gain = 0; int loops = 0; uint32_t ls = 0, ll = 0; };
struct DlsWave { int bits = 16; uint32_t rate = 44100; std::vector<int16_t> s; DlsWsmp w; int fmtTag = 1, ch = 1; };
struct DlsRegion { int kl = 0, kh = 127, vl = 0, vh = 127, opt = 0, group = 0; uint32_t wave = 0; DlsWsmp w; std::vector<DlsConn> art; bool rgn2 = false, lar2 = false; Bytes cdl; };
struct DlsInst { uint32_t bank = 0; uint32_t prog = 0; bool drum = false; std::vector<DlsRegion> r; std::vector<DlsConn> art; int cRegions = -1; bool lar2 = false; };
struct DlsSpec { std::vector<DlsWave> waves; std::vector<DlsInst> inst; Bytes cdl; bool shuffled = false; std::vector<int> order; };   // order: where the waves lie in the pool

inline void chunk(Bytes &o, const char *id, const Bytes &d) { putS(o, id); putLE32(o, (uint32_t)d.size()); cat(o, d); if (d.size() & 1) o.push_back(0); }
inline void list(Bytes &o, const char *type, const Bytes &d, const char *id = "LIST") { Bytes t; putS(t, type); cat(t, d); chunk(o, id, t); }
inline Bytes wsmpData(const DlsWsmp &w) { Bytes d; putLE32(d, 20); putLE16(d, w.unity); putLE16(d, (uint16_t)w.fine); putLE32(d, (uint32_t)w.gain); putLE32(d, 0); putLE32(d, w.loops); for (int i = 0; i < w.loops && i < 4; i++) { putLE32(d, 16); putLE32(d, 0); putLE32(d, w.ls); putLE32(d, w.ll); } return d; }
inline void lart(Bytes &o, const std::vector<DlsConn> &a, bool two) { if (a.empty()) return; Bytes d; putLE32(d, 8); putLE32(d, (uint32_t)a.size()); for (auto &c : a) { putLE16(d, c.src); putLE16(d, c.ctl); putLE16(d, c.dst); putLE16(d, c.trn); putLE32(d, (uint32_t)c.scale); } Bytes l; chunk(l, two ? "art2" : "art1", d); list(o, two ? "lar2" : "lart", l); }
inline Bytes buildDls(const DlsSpec &sp) {
    Bytes body; if (!sp.cdl.empty()) chunk(body, "cdl ", sp.cdl);
    Bytes colh; putLE32(colh, (uint32_t)sp.inst.size()); 
    Bytes lins;
    for (auto &in : sp.inst) {
        Bytes ib, h; putLE32(h, (uint32_t)(in.cRegions >= 0 ? in.cRegions : (int)in.r.size())); putLE32(h, in.bank | (in.drum ? 0x80000000u : 0)); putLE32(h, in.prog); chunk(ib, "insh", h);
        Bytes lr;
        for (auto &r : in.r) {
            Bytes rb, rh; if (!r.cdl.empty()) chunk(rb, "cdl ", r.cdl);
            putLE16(rh, r.kl); putLE16(rh, r.kh); putLE16(rh, r.vl); putLE16(rh, r.vh); putLE16(rh, r.opt); putLE16(rh, r.group); if (r.rgn2) putLE16(rh, 0); chunk(rb, "rgnh", rh);
            if (r.w.present) chunk(rb, "wsmp", wsmpData(r.w));
            Bytes wl; putLE16(wl, 0); putLE16(wl, 0); putLE32(wl, 1); putLE32(wl, r.wave); chunk(rb, "wlnk", wl);
            lart(rb, r.art, r.lar2);
            list(lr, r.rgn2 ? "rgn2" : "rgn ", rb);
        }
        list(ib, "lrgn", lr); lart(ib, in.art, in.lar2); list(lins, "ins ", ib);
    }
    Bytes wvpl; std::vector<uint32_t> offs;
    offs.resize(sp.waves.size()); for (size_t wi = 0; wi < sp.waves.size(); wi++) {
        int wn = sp.order.size() == sp.waves.size() ? sp.order[wi] : (int)wi; const DlsWave &w = sp.waves[wn]; offs[wn] = (uint32_t)wvpl.size(); Bytes wb, f; putLE16(f, w.fmtTag); putLE16(f, w.ch); putLE32(f, w.rate); putLE32(f, w.rate * w.bits / 8); putLE16(f, w.bits / 8); putLE16(f, w.bits); chunk(wb, "fmt ", f);
        if (w.w.present) chunk(wb, "wsmp", wsmpData(w.w));
        Bytes d; for (int16_t v : w.s) { if (w.bits == 16) putLE16(d, (uint16_t)v); else d.push_back((uint8_t)((v >> 8) + 128)); } chunk(wb, "data", d);
        list(wvpl, "wave", wb);
    }
    Bytes ptbl; putLE32(ptbl, 8); putLE32(ptbl, (uint32_t)offs.size()); for (uint32_t o : offs) putLE32(ptbl, o);
    chunk(body, "colh", colh);
    if (sp.shuffled) { list(body, "wvpl", wvpl); chunk(body, "ptbl", ptbl); list(body, "lins", lins); }
    else { list(body, "lins", lins); chunk(body, "ptbl", ptbl); list(body, "wvpl", wvpl); }
    Bytes o; list(o, "DLS ", body, "RIFF"); return o;
}
inline std::vector<int16_t> sineWave(double freq, double rate, int n, int amp = 16000) { std::vector<int16_t> v(n); for (int i = 0; i < n; i++) v[i] = (int16_t)lrint(amp * sin(2 * M_PI * freq * i / rate)); return v; }

inline std::vector<DlsConn> genArt(Rng &r, bool hostile) {
    std::vector<DlsConn> v; int n = r.range(1, hostile ? 12 : 5);
    static const int dsts[] = {0x1, 0x2, 0x3, 0x4, 0x80, 0x81, 0x104, 0x105, 0x114, 0x115, 0x206, 0x207, 0x208, 0x209, 0x20a, 0x20b, 0x20c, 0x20d, 0x30a, 0x30b, 0x30c, 0x30d, 0x30e, 0x30f, 0x310, 0x500, 0x501};
    static const int srcs[] = {0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 9, 10, 0xd, 0xdb, 0xdd};
    static const int ctls[] = {0, 0, 0, 0x81, 0x100, 0xa, 0x9, 6};
    for (int i = 0; i < n; i++) {
        DlsConn c; c.src = r.pick(srcs); c.ctl = r.pick(ctls); c.dst = r.pick(dsts); c.trn = 0;
        int k = r.below(5); c.scale = k == 0 ? (int32_t)r.next() : k == 1 ? (int32_t)((uint32_t)r.range(-12000, 6000) << 16) : k == 2 ? (int32_t)0x80000000 : k == 3 ? (int32_t)((uint32_t)r.range(-1000, 1000) << 16) : 0x7fffffff;
        v.push_back(c);
    }
    return v;
}
inline DlsWave genWave(Rng &r, bool hostile) {
    DlsWave w; w.bits = r.chance(1, 3) ? 8 : 16; static const uint32_t rates[] = {8000, 11025, 22050, 44100, 48000, 96000}; w.rate = r.pick(rates);
    if (hostile && r.chance(1, 8)) { static const uint32_t h[] = {0, 1, 0x7fffffff, 0xffffffff, 200000}; w.rate = r.pick(h); }
    int n = hostile && r.chance(1, 6) ? r.range(0, 4) : r.range(16, 1500); w.s.resize(n); int per = r.range(2, 100); for (int i = 0; i < n; i++) w.s[i] = (int16_t)(((i % per) * 60000 / per) - 30000);
    if (r.chance(2, 3)) {
        w.w.present = true; w.w.unity = r.range(0, hostile ? 140 : 127); w.w.fine = r.range(-100, 100); w.w.gain = r.chance(1, 2) ? 0 : -(int32_t)r.below(60 << 16); 
        if (r.chance(1, 2)) { w.w.loops = 1; w.w.ls = n > 4 ? r.below(n / 2) : 0; w.w.ll = n > 4 ? r.range(1, n - (int)w.w.ls) : r.range(0, 3); if (hostile && r.chance(1, 4)) { w.w.ll = r.chance(1, 2) ? (uint32_t)r.next() : r.range(0, 3); if (r.chance(1, 2)) w.w.ls = (uint32_t)r.next(); } }
        if (hostile) { if (r.chance(1, 10)) w.w.gain = (int32_t)r.next(); if (r.chance(1, 10)) w.w.fine = (int16_t)r.next(); if (r.chance(1, 10)) w.w.loops = r.range(2, 4); }
    }
    return w;
}
inline Bytes genCdl(Rng &r) {
    Bytes b; int n = r.range(1, 8); static const int ops[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
    if (r.chance(3, 4)) for (int i = r.range(1, 3); i > 0; i--) { putLE16(b, 16); putLE32(b, r.below(3)); if (r.chance(1, 3)) n = 0; }
    for (int i = 0; i < n; i++) { int op = r.pick(ops); putLE16(b, op); if (op == 16) putLE32(b, r.below(3)); if (op == 17 || op == 18) for (int k = 0; k < 16; k++) b.push_back(r.byte()); }
    return b;
}
inline DlsSpec genDlsSpec(Rng &r, bool hostile) {
    DlsSpec s; int nw = r.range(1, hostile ? 6 : 4); for (int i = 0; i < nw; i++) s.waves.push_back(genWave(r, hostile));
    int ni = r.range(1, hostile ? 5 : 4);
    for (int i = 0; i < ni; i++) {
        DlsInst in; in.drum = r.chance(1, 5); in.prog = r.below(hostile ? 160 : 6); in.bank = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 0x7900 : r.chance(1, 2) ? 0x7800 : r.below(0x8080);
        int nr = r.range(hostile ? 0 : 1, 5); int k = 0;
        for (int j = 0; j < nr; j++) {
            DlsRegion g; if (r.chance(2, 3)) { g.kl = k; g.kh = std::min(127, k + r.range(5, 60)); k = g.kh + 1; if (k > 120) k = 0; }
            if (hostile && r.chance(1, 10)) { g.kl = r.range(0, 300); g.kh = r.range(0, 300); }
            if (r.chance(1, 3)) { g.vl = r.range(0, 100); g.vh = r.range(g.vl, 127); }
            g.opt = r.below(2); g.group = r.chance(1, 3) ? r.below(16) : 0; if (hostile && r.chance(1, 10)) g.group = r.below(65536);
            g.wave = r.below(nw + (hostile && r.chance(1, 30) ? 3 : 0)); if (r.chance(1, 3)) { g.w = genWave(r, hostile && r.chance(1, 3)).w; if (g.w.present && g.w.loops && !(hostile && r.chance(1, 3))) { size_t n = s.waves[g.wave % nw].s.size(); if (n > 8 && s.waves[g.wave % nw].w.loops) { g.w.ls = r.below(n / 2); g.w.ll = r.range(1, n / 2); } else { g.w.loops = 0; } } }
            if (r.chance(1, 3)) g.art = genArt(r, hostile); g.rgn2 = r.chance(1, 4); g.lar2 = g.rgn2; if (hostile && r.chance(1, 15)) g.cdl = genCdl(r);
            in.r.push_back(g);
        }
        if (r.chance(1, 3)) in.art = genArt(r, hostile); if (hostile && r.chance(1, 8)) in.cRegions = r.range(0, 7);
        s.inst.push_back(in);
    }
    if (hostile && r.chance(1, 20)) s.cdl = genCdl(r); s.shuffled = r.chance(1, 3);
    return s;
}
// a bank whose instruments (programs 0..5 and the drums) use everything an articulation has, with sensible values
inline DlsSpec richDls(Rng &r) {
    DlsSpec s; int nw = r.range(1, 3); for (int i = 0; i < nw; i++) { DlsWave w; w.rate = r.chance(1, 2) ? 22050 : 44100; w.bits = r.chance(1, 3) ? 8 : 16; int per = r.range(20, 200), n = per * r.range(2, 6); w.s.resize(n + 1); int a = r.range(6000, 16000); for (int k = 0; k <= n; k++) w.s[k] = (int16_t)((k % per) * 2 * a / per - a); w.w.present = true; w.w.unity = r.range(48, 72); w.w.fine = r.range(-50, 50); w.w.loops = r.chance(3, 4); w.w.ls = 0; w.w.ll = n; s.waves.push_back(w); }
    auto tc = [](double sec) { return 1200 * log2(sec); };
    for (int i = 0; i < 7; i++) {
        DlsInst in; in.drum = i == 6; in.prog = i == 6 ? 0 : i; in.bank = i == 6 ? 0x7800 : 0x7900; int nr = r.range(1, 2);
        for (int j = 0; j < nr; j++) { DlsRegion g; g.wave = r.below(nw); if (nr == 2) { g.kl = j ? 64 : 0; g.kh = j ? 127 : 63; } auto conn = [&](int src, int ctl, int dst, double v) { if (r.chance(2, 3)) g.art.push_back({src, ctl, dst, 0, (int32_t)lrint(v) * 65536}); };
            conn(0, 0, 0x104, 6900 + 1200 * log2(r.range(10, 80) / 10.0 / 440)); conn(0, 0, 0x105, tc(r.range(10, 400) / 1000.0)); conn(0, 0, 0x114, 6900 + 1200 * log2(r.range(10, 80) / 10.0 / 440)); conn(0, 0, 0x115, tc(r.range(10, 400) / 1000.0));
            conn(9, 0, 3, r.range(10, 300)); conn(1, 0, 3, r.range(-200, 200)); conn(1, 0, 1, r.range(0, 60)); conn(1, 0, 0x500, r.range(-1200, 1200)); conn(9, 0x81, 3, r.range(0, 100)); conn(1, 0x81, 3, r.range(0, 100)); conn(1, 8, 3, r.range(0, 60));
            conn(0, 0, 0x20b, tc(r.range(5, 100) / 1000.0)); conn(0, 0, 0x206, tc(r.range(5, 300) / 1000.0)); conn(0, 0, 0x20c, tc(r.range(5, 100) / 1000.0)); conn(0, 0, 0x207, tc(r.range(50, 900) / 1000.0)); conn(0, 0, 0x20a, r.range(300, 1000)); conn(0, 0, 0x209, tc(r.range(20, 900) / 1000.0));
            conn(0, 0, 0x30f, tc(r.range(5, 100) / 1000.0)); conn(0, 0, 0x30b, tc(r.range(50, 900) / 1000.0)); conn(0, 0, 0x30a, tc(r.range(5, 300) / 1000.0)); conn(0, 0, 0x30d, tc(r.range(50, 900) / 1000.0)); conn(0, 0, 0x30e, r.range(0, 1000)); conn(5, 0, 3, r.range(-600, 600)); conn(5, 0, 0x500, r.range(-2400, 2400));
            conn(0, 0, 0x500, 6900 + 1200 * log2(r.range(200, 7000) / 440.0)); conn(0, 0, 0x501, r.range(0, 200)); conn(2, 0, 0x500, r.range(-2400, 2400)); conn(3, 0, 0x500, r.range(-2400, 2400)); conn(0, 0, 4, r.range(-500, 500)); conn(3, 0, 3, r.range(6400, 12800)); conn(0, 0, 3, r.range(-300, 300));
            if (g.art.empty()) g.art.push_back({0, 0, 0x20a, 0, 1000 << 16}); in.r.push_back(g); }
        s.inst.push_back(in); }
    return s;
}

// ------------------------------------------------------------ byte mutation
inline void mutate(Rng &r, Bytes &b, int n) {
    static const uint8_t magic[] = {0, 1, 0x7f, 0x80, 0xff, 0xf0, 0xf7, 0x2f, 0x51, 0x90, 0x40, 0x20};
    static const uint32_t m32[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x10000, 0xffff, 0x40000000, 0x01000000};
    for (int i = 0; i < n; i++) {
        if (b.empty()) { b.push_back(r.byte()); continue; }
        size_t p = r.below((uint32_t)b.size());
        switch (r.below(10)) {
        case 0: b[p] ^= 1 << r.below(8); break;
        case 1: b[p] = r.byte(); break;
        case 2: b[p] = r.pick(magic); break;
        case 3: b.erase(b.begin() + p, b.begin() + std::min(b.size(), p + 1 + r.below(8))); break;
        case 4: { Bytes t; int k = r.range(1, 8); for (int j = 0; j < k; j++) t.push_back(r.chance(1, 2) ? r.byte() : r.pick(magic)); b.insert(b.begin() + p, t.begin(), t.end()); break; }
        case 5: { size_t q = r.below((uint32_t)b.size()), k = 1 + r.below(16); if (p + k < b.size() && q + k < b.size()) memmove(&b[q], &b[p], k); break; }
        case 6: if (r.chance(1, 3)) b.resize(p); break;
        case 7: if (p + 4 <= b.size()) { uint32_t v = r.pick(m32); b[p] = v >> 24; b[p + 1] = v >> 16; b[p + 2] = v >> 8; b[p + 3] = v; } break;
        case 8: if (p + 4 <= b.size()) { uint32_t v = r.chance(1, 2) ? r.pick(m32) : (uint32_t)r.below((uint32_t)b.size() * 2); b[p] = v; b[p + 1] = v >> 8; b[p + 2] = v >> 16; b[p + 3] = v >> 24; } break;
        case 9: if (p + 2 <= b.size()) { b[p] = r.pick(magic); b[p + 1] = r.pick(magic); } break;
        }
    }
}

// ------------------------------------------------------------ MIDI messages
static const int CCS[] = {0, 1, 6, 7, 10, 11, 32, 38, 64, 64, 66, 67, 71, 74, 91, 93, 98, 99, 100, 101, 120, 121, 123, 124, 125, 126, 127, 5, 65, 84};
inline Bytes genMsg(Rng &r, bool hostile) {
    int ch = r.chance(1, 6) ? 9 : r.below(r.chance(1, 2) ? 4 : 16);
    switch (r.below(hostile ? 14 : 9)) {
    case 0: case 1: case 2: case 3: return {(uint8_t)(0x90 | ch), (uint8_t)r.below(128), (uint8_t)(r.chance(1, 4) ? 0 : r.range(1, 127))};
    case 4: return {(uint8_t)(0x80 | ch), (uint8_t)r.below(128), (uint8_t)r.below(128)};
    case 5: return {(uint8_t)(0xB0 | ch), (uint8_t)(r.chance(4, 5) ? r.pick(CCS) : r.below(128)), (uint8_t)(r.chance(1, 3) ? (r.chance(1, 2) ? 0 : 127) : r.below(128))};
    case 6: return {(uint8_t)(0xC0 | ch), (uint8_t)r.below(128)};
    case 7: return {(uint8_t)(0xE0 | ch), (uint8_t)r.below(128), (uint8_t)r.below(128)};
    case 8: return {(uint8_t)(0xD0 | ch), (uint8_t)r.below(128)};
    case 9: return {(uint8_t)(0xA0 | ch), (uint8_t)r.below(128), (uint8_t)r.below(128)};
    case 10: { // known sysex
        static const std::vector<Bytes> k = {{0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7}, {0xf0, 0x7e, 0x7f, 0x09, 0x02, 0xf7}, {0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x00, 0x40, 0xf7}, {0xf0, 0x7f, 0x7f, 0x0b, 0x01, 0x00, 0x10, 0x01, 0x20, 0xf7}, {0xf0, 0x7e, 0x7f, 0x09, 0x03, 0xf7}};
        Bytes b = r.pick(k); if (r.chance(1, 3)) b[r.range(1, (int)b.size() - 2)] = r.below(128);
        if (r.chance(1, 3)) { b = {0xf0, 0x7f, 0x7f, 0x0b, 0x01}; int n = r.range(0, 20); for (int i = 0; i < n; i++) { b.push_back(r.below(20)); b.push_back(r.below(70)); } b.push_back(0xf7); }
        return b; }
    case 11: { Bytes b{0xf0}; int n = r.range(0, 12); for (int i = 0; i < n; i++) b.push_back(r.below(128)); if (r.chance(3, 4)) b.push_back(0xf7); return b; }
    case 12: return {(uint8_t)(0xf0 + r.below(16))};
    default: { Bytes b; int n = r.range(1, 6); for (int i = 0; i < n; i++) b.push_back(r.byte()); return b; }
    }
}
inline Bytes genMidiBytes(Rng &r, int msgs, bool hostile) { Bytes b; for (int i = 0; i < msgs; i++) cat(b, genMsg(r, hostile)); if (hostile && r.chance(1, 2)) mutate(r, b, r.range(1, 8)); return b; }

// ------------------------------------------------------------ songs
inline Track genTrack(Rng &r, int n, uint32_t maxDelta, bool hostile) {
    Track t; uint32_t now = 0;
    for (int i = 0; i < n; i++) {
        if (r.chance(2, 3)) now += r.below(maxDelta + 1);
        if (r.chance(1, 12)) t.push_back(evTempo(now, hostile ? (uint32_t)(r.next() & 0xffffff) : (uint32_t)r.range(100000, 1500000)));
        else if (r.chance(1, 14)) t.push_back(evText(now, r.range(1, 7), std::string(r.below(40), (char)('a' + r.below(26)))));
        else if (hostile && r.chance(1, 10)) { Bytes d; int k = r.below(30); for (int j = 0; j < k; j++) d.push_back(r.byte()); t.push_back(evMeta(now, r.below(128), d)); }
        else if (hostile && r.chance(1, 12)) { Bytes d; int k = r.below(30); for (int j = 0; j < k; j++) d.push_back(r.byte() & 0x7f); d.push_back(0xf7); t.push_back(evSysex(now, d)); }
        else { Bytes m = genMsg(r, false); t.push_back({now, m}); if ((m[0] & 0xf0) == 0x90 && m[2] && r.chance(5, 6)) t.push_back({now + r.below(maxDelta * 2 + 2), {(uint8_t)(0x80 | (m[0] & 15)), m[1], 64}}); }
    }
    return t;
}
inline Bytes genSong(Rng &r, bool hostile, int events = 60) {
    int nt = r.chance(1, 2) ? 1 : r.range(2, 6); std::vector<Track> ts; SmfOpt o; static const uint16_t divs[] = {24, 96, 120, 192, 480, 960, 1, 15360, 32767, 0xE728, 0xE250, 0, 0x8000};
    o.division = divs[r.below(hostile ? 13 : 6)]; o.running = r.chance(1, 2); uint32_t md = std::max(1, (int)(o.division & 0x7fff) / 2); if (md > 2000) md = 2000;
    for (int i = 0; i < nt; i++) ts.push_back(genTrack(r, r.range(1, events), md, hostile));
    if (hostile) {
        if (r.chance(1, 8)) o.format = r.range(0, 3); if (r.chance(1, 8)) o.eot = false; if (r.chance(1, 8)) o.vlPad = r.range(1, 3); if (r.chance(1, 10)) o.headerLen = r.range(6, 20);
        if (r.chance(1, 10)) { putS(o.preChunk, "XFIH"); put32(o.preChunk, 5); for (int i = 0; i < 5; i++) o.preChunk.push_back(r.byte()); }
        if (r.chance(1, 10)) for (int i = 0; i < 9; i++) o.trailing.push_back(r.byte());
    }
    Bytes b = buildSmf(ts, o);
    if (hostile && r.chance(3, 4)) mutate(r, b, r.range(1, r.chance(1, 3) ? 40 : 5));
    if (hostile && r.chance(1, 40)) { b.clear(); int n = r.below(200); for (int i = 0; i < n; i++) b.push_back(r.byte()); if (r.chance(1, 2)) { const char *h = "MThd"; for (int i = 0; i < 4 && i < (int)b.size(); i++) b[i] = h[i]; } }
    if (hostile && r.chance(1, 25)) { Bytes p; int n = r.range(1, 300); for (int i = 0; i < n; i++) p.push_back(r.chance(1, 4) ? "MThd"[r.below(4)] : r.byte()); cat(p, b); b = p; }
    return b;
}
