// C24: a loaded bank sounds as its regions, waves and articulation say, on the streams it was loaded for.
#include "tone.h"
const char *vh_property = "C24";
static void cc(Bytes &b, int ch, int n, int v) { cat(b, {(uint8_t)(0xB0 | ch), (uint8_t)n, (uint8_t)v}); }
// ---- what the collection says about a selection (independent of the library's search)
struct Sel { int ch = 0, msb = -1, lsb = -1, prog = 0; bool rhythm() const { return msb == 0x78 ? true : msb == 0x79 ? false : ch == 9; } int bank() const { if (msb < 0) return ch == 9 ? 0x7800 : 0x7900; return msb << 8 | std::max(lsb, 0); } };
static const DlsInst *lookup(const DlsSpec &s, const Sel &q) {
    auto find = [&](int bank, int prog) -> const DlsInst * { for (auto &i : s.inst) if (!i.r.empty() && (int)(i.bank & 0x7f7f) == bank && i.drum == q.rhythm() && (int)(i.prog & 127) == prog) return &i; return nullptr; };
    int b = q.bank(), def = q.rhythm() ? 0x7800 : 0x7900; const DlsInst *p = find(b, q.prog); if (p) return p;
    if (((b & 0xff00) == 0x7900 || (b & 0xff00) == 0x7800) && (p = find(b & 0xff, q.prog))) return p;
    if (b != def) { if ((p = find(def, q.prog))) return p; if ((p = find(0, q.prog))) return p; }
    if (q.rhythm() && q.prog) { if ((p = find(0x7800, 0))) return p; if ((p = find(0, 0))) return p; }
    return nullptr; }
static std::vector<const DlsRegion *> regionsOf(const DlsInst &i, int key, int vel) { std::vector<const DlsRegion *> v; for (auto &g : i.r) if (key >= g.kl && key <= g.kh && vel >= g.vl && vel <= g.vh) v.push_back(&g); return v; }
static void addDummy(DlsSpec &s) { DlsInst d; d.bank = 0x0505; d.prog = 113; DlsRegion g; g.wave = 0; d.r.push_back(g); d.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(d); }   // a collection needs some articulation
static DlsSpec minimal(const DlsSpec &s, const DlsInst &in, const std::vector<const DlsRegion *> &rs, const Sel &q) {
    DlsSpec m; DlsInst i; i.bank = q.bank() & 0x7f7f; i.drum = q.rhythm(); i.prog = q.prog; i.art = in.art; i.lar2 = in.lar2;
    for (auto *g : rs) { DlsRegion n = *g; n.kl = n.vl = 0; n.kh = n.vh = 127; const DlsWave &w = s.waves[g->wave]; DlsWsmp e = g->w.present ? g->w : w.w; n.w = e; n.w.present = e.present; n.wave = (uint32_t)m.waves.size(); m.waves.push_back(w); i.r.push_back(n); }
    m.inst.push_back(i); addDummy(m); return m; }
struct Perf { std::vector<std::pair<int, Bytes>> m; int buffers = 0; };
static Perf genPerf(Rng &r, const Sel &q, int key, int vel) {
    Perf p; Bytes b; int k = r.range(0, 3); for (int i = 0; i < k; i++) cc(b, q.ch, r.chance(1, 2) ? 10 : r.chance(1, 2) ? 1 : 11, r.below(128)); if (q.msb >= 0) { cc(b, q.ch, 0, q.msb); if (q.lsb >= 0) cc(b, q.ch, 32, q.lsb); } cat(b, {(uint8_t)(0xC0 | q.ch), (uint8_t)q.prog}); k = r.range(0, 2); for (int i = 0; i < k; i++) b.insert(b.end(), {(uint8_t)(0xE0 | q.ch), (uint8_t)r.below(128), (uint8_t)r.range(30, 100)});
    cat(b, {(uint8_t)(0x90 | q.ch), (uint8_t)key, (uint8_t)vel}); p.m.push_back({r.below(2) ? 0 : 1, b}); p.buffers = r.range(4, 30); int off = r.range(2, p.buffers); int n = r.range(0, 3); for (int i = 0; i < n; i++) { Bytes x; if (r.chance(1, 2)) cc(x, q.ch, r.chance(1, 2) ? 1 : r.chance(1, 2) ? 64 : 7, r.below(128)); else if (r.chance(1, 2)) x = {(uint8_t)(0xD0 | q.ch), (uint8_t)r.below(128)}; else x = {(uint8_t)(0xE0 | q.ch), (uint8_t)r.below(128), (uint8_t)r.below(128)}; p.m.push_back({(int)r.range(1, p.buffers), x}); }
    p.m.push_back({off, {(uint8_t)(0x80 | q.ch), (uint8_t)key, 64}}); p.buffers += r.range(1, 20); return p; }
static Pcm play(Eas &e, EAS_HANDLE h, const Perf &p) { Pcm o; for (int b = 0; b < p.buffers; b++) { for (auto &x : p.m) if (x.first == b) e.write(h, x.second); e.render(&o, 1); } return o; }
static std::string specText(const DlsSpec &s) { std::string t; for (auto &i : s.inst) { t += strf(" %s%04x:%u{", i.drum ? "drum " : "", i.bank, i.prog); for (auto &g : i.r) t += strf("k%d-%d v%d-%d w%u%s;", g.kl, g.kh, g.vl, g.vh, g.wave, g.w.present ? strf(" u%d f%d loops%d %u+%u", g.w.unity, g.w.fine, g.w.loops, g.w.ls, g.w.ll).c_str() : ""); t += "}"; } return t; }
static void lookupCase(Ctx &c) {
    Rng &r = c.rng; DlsSpec s = genDlsSpec(r, false); for (auto &i : s.inst) for (auto &g : i.r) { g.group = r.chance(1, 4) ? r.below(16) : 0; }
    if (r.chance(1, 3) && s.inst.size() > 1) { size_t a = r.below((uint32_t)s.inst.size()), b = r.below((uint32_t)s.inst.size()); s.inst[a].prog = s.inst[b].prog; if (r.chance(1, 2)) s.inst[a].drum = s.inst[b].drum; }
    if (r.chance(1, 2)) { for (size_t i = 0; i < s.waves.size(); i++) s.order.push_back((int)i); for (size_t i = s.order.size(); i > 1; i--) std::swap(s.order[i - 1], s.order[r.below((uint32_t)i)]); }
    for (auto &g : s.waves) if (g.w.present && g.w.loops && g.w.ll < 2) g.w.loops = 0; for (auto &i : s.inst) for (auto &g : i.r) if (g.w.present && g.w.loops && g.w.ll < 2) g.w.loops = 0; addDummy(s); Bytes full = buildDls(s);
    int n = r.range(1, 3); int route = r.below(4); // 0,1 the stream's own, 2 global, 3 global under one of its own
    Eas a; DlsSpec other = genDlsSpec(r, false); addDummy(other); EAS_HANDLE before = nullptr; EAS_RESULT x = 0; if (route >= 2) { before = a.stream(); x = EAS_LoadDLSCollection(a.h, nullptr, a.file(buildDls(route == 2 ? s : other))->locator()); if (x) { if (route == 3) { route = 1; } else { c.count("refused"); return; } } }
    EAS_HANDLE h = a.stream(); if (route != 2) { if (r.chance(1, 4)) EAS_LoadDLSCollection(a.h, h, a.file(buildDls(other))->locator()); x = EAS_LoadDLSCollection(a.h, h, a.file(full)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld%s", (long)x, specText(s).c_str()); return; } } else if (r.chance(1, 3)) { EAS_LoadDLSCollection(a.h, nullptr, a.file(buildDls(other))->locator()); c.count("global_replaced"); }   // replaced for later streams only
    EAS_HANDLE plain = r.chance(1, 2) && route < 2 ? a.stream() : nullptr; std::string tr;
    for (int k = 0; k < n && !c.failed(); k++) {
        Sel q; q.ch = r.chance(1, 3) ? 9 : r.below(16); const DlsInst &t = r.pick(s.inst); q.prog = r.chance(2, 3) ? t.prog & 127 : r.below(6); int z = r.below(8); if (z < 2) ; else if (z < 5) { q.msb = (t.bank >> 8) & 127; q.lsb = r.chance(1, 4) ? -1 : (int)(t.bank & 127); } else if (z == 5) q.msb = t.drum ? 0x78 : 0x79; else if (z == 6) { q.msb = r.chance(1, 2) ? 0x78 : 0x79; q.lsb = r.below(3); } else { q.msb = r.below(128); q.lsb = r.chance(1, 2) ? -1 : (int)r.below(128); }
        const DlsInst *in = lookup(s, q); int key = r.below(128), vel = r.range(1, 127); if (in && r.chance(4, 5)) { const DlsRegion &g = r.pick(in->r); key = r.range(g.kl, g.kh); vel = r.range(std::max(g.vl, 1), std::max(g.vh, 1)); }
        Perf p = genPerf(r, q, key, vel); EAS_HANDLE use = h; if (k) { EAS_CloseMIDIStream(a.h, h); h = a.stream(); if (route != 2) EAS_LoadDLSCollection(a.h, h, a.file(full)->locator()); else break; use = h; }
        Pcm got = play(a, use, p), want; Eas b; EAS_HANDLE hb = b.stream(); const char *what = "";
        if (in) { auto rs = regionsOf(*in, key, vel); c.count("bank_notes"); if (rs.size() > 1) c.count("layered"); if (rs.empty()) { what = "silence (no region)"; c.count("no_region"); want.assign(got.size(), 0); } else { what = "its region alone"; DlsSpec m = minimal(s, *in, rs, q); x = EAS_LoadDLSCollection(b.h, hb, b.file(buildDls(m))->locator()); if (x) { c.violation("refused", "the region alone is refused: %ld%s", (long)x, specText(m).c_str()); return; } want = play(b, hb, p); } }
        else { what = "the built-in sound"; c.count("builtin_notes"); want = play(b, hb, p); }
        if (!silent(got)) c.nontrivial = true; c.seen("selections", fnv(full) ^ (q.bank() * 128 + q.prog) ^ (uint64_t)key << 32 ^ (uint64_t)vel << 40); tr += strf(" ch%d bank%04x%s prog%d key%d vel%d", q.ch, q.bank(), q.msb < 0 ? "(default)" : "", q.prog, key, vel);
        long d = firstDiff(got, want); if (d >= 0) c.violation("lookup", "the note differs from %s at frame %ld (buffer %ld): route %d,%s;%s", what, d, d / a.bufN, route, tr.c_str(), specText(s).c_str());
        // streams without the bank keep the built-in sounds
        EAS_HANDLE o = route >= 2 ? before : plain; if (o && k == 0) { Eas f; EAS_HANDLE hf = f.stream(); EAS_CloseMIDIStream(a.h, h); h = nullptr; Pcm junk; for (int i = 0; i < 4; i++) a.render(&junk, 1); Pcm u = play(a, o, p), v = play(f, hf, p); c.count("other_streams"); d = firstDiff(u, v); if (d >= 0) c.violation("scope", "a stream the bank was not loaded for sounds different at frame %ld: route %d,%s;%s", d, route, tr.c_str(), specText(s).c_str()); break; } }
    c.sample = tr.substr(0, 100) + specText(s).substr(0, 200); c.caseHash = fnv(full) ^ fnv(tr.data(), tr.size()); }
// ---- the samples of a note at its root key are the wave's, loop and level included
static void waveCase(Ctx &c) {
    Rng &r = c.rng; Eas e; DlsSpec s; int nw = r.range(1, 3), key = r.range(20, 110); std::string tr;
    for (int i = 0; i < nw; i++) { DlsWave w; w.bits = r.chance(1, 3) ? 8 : 16; w.rate = e.rate; int n = r.range(40, 1500); w.s.resize(n); int mode = r.below(3); int y = 0; for (int k = 0; k < n; k++) { y = mode == 0 ? r.range(-14500, 14500) : mode == 1 ? std::max(-14500, std::min(14500, y + r.range(-3000, 3000))) : (int)(14500 * sin(k * 0.07 * (i + 1))); w.s[k] = w.bits == 8 ? (int16_t)(y & ~255) : (int16_t)y; }
        auto loop = [&](DlsWsmp &x) { x.present = true; x.unity = key; x.gain = r.chance(1, 3) ? 0 : -(int32_t)(r.below(240) << 16) - (r.chance(1, 3) ? (int)r.below(65536) : 0); if (r.chance(1, 10)) x.gain = r.range(1, 1 << 20); x.loops = 0; if (r.chance(2, 3)) { x.loops = 1; x.ls = r.chance(1, 4) ? 0 : r.below(n - 8); int most = n - (int)x.ls; x.ll = r.chance(1, 3) ? most : r.range(2, most); } };
        loop(w.w); s.waves.push_back(w); DlsInst in; in.prog = i; DlsRegion g; g.wave = i; if (r.chance(1, 2)) { bool had = w.w.loops; loop(g.w); if (!had && g.w.loops && g.w.ls + g.w.ll >= (uint32_t)n) g.w.ll--; if (g.w.ll < 2) g.w.loops = 0; if (!w.w.loops && g.w.loops && g.w.ll < 2) g.w.loops = 0; } in.r.push_back(g); in.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(in); }
    { DlsWave w; w.rate = e.rate; w.s.assign(64, 8192); w.w.present = true; w.w.unity = key; w.w.loops = 1; w.w.ls = 0; w.w.ll = 32; s.waves.push_back(w); DlsInst in; in.prog = 100; DlsRegion g; g.wave = nw; in.r.push_back(g); in.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(in); }  // full level reference
    if (r.chance(1, 2)) { for (int i = 0; i <= nw; i++) s.order.push_back(i); for (size_t i = s.order.size(); i > 1; i--) std::swap(s.order[i - 1], s.order[r.below((uint32_t)i)]); } s.shuffled = r.chance(1, 2);
    EAS_HANDLE h = e.stream(); Bytes dls = buildDls(s); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); for (int i = 0; i < nw; i++) { const DlsWsmp &ew = s.inst[i].r[0].w.present ? s.inst[i].r[0].w : s.waves[i].w; tr += strf(" wave %d: %d bits, %zu samples%s gain %.2f dB, %s;", i, s.waves[i].bits, s.waves[i].s.size(), s.inst[i].r[0].w.present ? " region's own" : "", ew.gain / 655360.0, ew.loops ? strf("loop %u+%u", ew.ls, ew.ll).c_str() : "one shot"); }
    if (x) { c.violation("refused", "a valid collection is refused: %ld;%s", (long)x, tr.c_str()); return; } e.write(h, {0xB0, 7, 127}); int vel = r.chance(1, 2) ? 127 : r.range(60, 127);
    auto note = [&](int prog, int bufs) { Pcm o, t; e.write(h, {0xC0, (uint8_t)prog, 0x90, (uint8_t)key, (uint8_t)vel}); e.render(&o, bufs); e.write(h, {0xB0, 120, 0}); for (int i = 0; i < 20; i++) { t.clear(); e.render(&t, 1); if (silent(t)) break; } return o; };
    Pcm ref = note(100, 3); double full = ref[(size_t)(2 * e.bufN) * e.chans] / 8192.0; if (vel == 127 && full < 0.05) c.violation("level", "a full level tone sounds at %.4f;%s", full, tr.c_str());
    for (int i = 0; i < nw && !c.failed(); i++) { const DlsWave &w = s.waves[i]; const DlsRegion &g = s.inst[i].r[0]; const DlsWsmp &ew = g.w.present ? g.w : w.w; size_t N = w.s.size(); int bufs = (int)(N * (ew.loops ? 3 : 1) / e.bufN) + 3; Pcm o = note(i, bufs); size_t frames = o.size() / e.chans; auto idx = [&](size_t k) -> long { if (ew.loops) { if (k < ew.ls + ew.ll) return (long)k; return (long)(ew.ls + (k - ew.ls) % ew.ll); } return k < N ? (long)k : -1; };
        double xy = 0, xx = 0, sx = 0; for (size_t k = 0; k < frames; k++) { long q = idx(k); if (q < 0 || (!ew.loops && k + 3 >= N) || (ew.loops && ew.ls + ew.ll >= 24 && k >= ew.ls + ew.ll)) continue; xy += (double)w.s[q] * o[k * e.chans]; xx += (double)w.s[q] * w.s[q]; sx += w.s[q]; } /* the output is rounded down: by about five units with small gains */ double K = xx > 0 ? (xy + 5 * sx) / xx : 0, gain = std::min(0.0, ew.gain / 655360.0), want = full * pow(10, floor(gain * 10) / 10 / 20); c.count("waves_measured"); if (want * 20000 < 150) continue; double db = K > 0 ? 20 * log10(K / want) : -200; if (!silent(o)) c.nontrivial = true; 
        if (c.verbose && getenv("C24_ERR")) printf("DB %.3f gain %.2f K %.4f\n", db, gain, K);
        double worst = 0; size_t at = 0; for (size_t k = 0; k < frames; k++) { long q = idx(k); if (!ew.loops && k + 3 >= N && k < N + 3) continue; double v = q < 0 ? 0 : K * w.s[q], dv = fabs(v - o[k * e.chans]) - fabs(v) * 0.006; if (dv > worst) { worst = dv; at = k; } c.count("samples_checked"); } if (c.verbose && getenv("C24_ERR")) printf("W %.2f K %.3f\n", worst, K);
        if (worst > 14 + 9 * K) c.violation("wave", "wave %d key %d: sample %zu is %d, its wave says %.1f (wave sample %ld, gain %.4f, %s);%s", i, key, at, o[at * e.chans], idx(at) < 0 ? 0 : K * w.s[idx(at)], idx(at), K, ew.loops ? strf("loop %u+%u", ew.ls, ew.ll).c_str() : "one shot", tr.c_str());
        else if (db < -0.2 - 20 / (want * 15000) || db > 0.65 + 20 / (want * 15000)) c.violation("level", "wave %d sounds %.2f dB off its %.2f dB attenuation;%s", i, db, gain, tr.c_str()); }
    c.sample = tr.substr(0, 300); c.caseHash = fnv(dls); }
// ---- pitch from rate, root, tuning and articulation; envelope, pan and vibrato
static void artCase(Ctx &c) {
    Rng &r = c.rng; Eas e; DlsSpec s; DlsWave w; static const uint32_t rates[] = {11025, 16000, 22050, 32000, 44100, 48000}; w.rate = r.pick(rates); w.bits = r.chance(1, 4) ? 8 : 16; int per = r.range(16, 60), n = r.range(4, 12); w.s = sineWave((double)w.rate / per, w.rate, per * (n + 1), 9500); w.w.present = true; w.w.unity = r.chance(1, 8) ? 127 : r.chance(1, 12) ? 0 : r.range(40, 90); w.w.fine = r.range(-120, 120); w.w.loops = 1; w.w.ls = r.below(per); w.w.ll = per * n; bool own = r.chance(1, 2); DlsInst in; in.prog = 3; DlsRegion g; if (own) { g.w = w.w; w.w.unity = r.below(128); w.w.fine = r.range(-1000, 1000); w.w.loops = r.below(2); } const DlsWsmp ew = own ? g.w : w.w; if (own && !w.w.loops) { w.s.push_back(w.s[per]); } s.waves.push_back(w);
    int tuning = r.chance(1, 2) ? 0 : r.range(-600, 600), k2p = r.chance(2, 3) ? 12800 : r.chance(1, 2) ? 0 : r.range(3200, 12800), pan = r.chance(1, 2) ? 0 : r.range(-500, 500); double Ta = 0, Th = 0, Td = 0, Tr = 0.01, Tz = 0; int sus = 1000, key = 0; int vib = 0; double vf = 5, trem = 0;
    std::vector<DlsConn> a; auto conn = [&](int src, int ctl, int dst, double v) { a.push_back({src, ctl, dst, 0, (int32_t)lrint(v) * 65536}); }; auto tc = [](double sec) { return floor(1200 * log2(sec)); };
    if (tuning) conn(0, 0, 3, tuning); if (k2p != 12800) conn(3, 0, 3, k2p); if (pan) conn(0, 0, 4, pan); bool env = r.chance(1, 2);
    if (env) { if (r.chance(1, 2)) { Tz = r.range(20, 300) / 1000.0; conn(0, 0, 0x20b, tc(Tz)); } if (r.chance(1, 2)) { Ta = r.range(20, 600) / 1000.0; conn(0, 0, 0x206, tc(Ta)); } if (r.chance(1, 2)) { Th = r.range(20, 300) / 1000.0; conn(0, 0, 0x20c, tc(Th)); } if (r.chance(2, 3)) { Td = r.range(50, 1500) / 1000.0; conn(0, 0, 0x207, tc(Td)); sus = r.range(600, 1000); conn(0, 0, 0x20a, sus); } Tr = r.range(50, 1500) / 1000.0; conn(0, 0, 0x209, tc(Tr)); }
    else if (r.chance(1, 2)) { if (r.chance(1, 2)) { vib = r.range(30, 300); } else trem = r.range(20, 90); vf = r.range(20, 80) / 10.0; conn(r.chance(1, 2) && vib ? 9 : 1, 0, vib ? 3 : 1, vib ? vib : trem); int src = a.back().src; conn(0, 0, src == 9 ? 0x114 : 0x104, floor(6900 + 1200 * log2(vf / 440))); }
    if (a.empty()) conn(0, 0, 0x20a, 1000); if (r.chance(1, 2)) g.art = a; else in.art = a; if (!g.art.empty() && r.chance(1, 3)) in.art.push_back({0, 0, 3, 0, 777 * 65536}); in.r.push_back(g); s.inst.push_back(in); { DlsInst plain = in; plain.prog = 4; for (auto *v : {&plain.art, &plain.r[0].art}) v->erase(std::remove_if(v->begin(), v->end(), [](const DlsConn &k) { return k.dst >= 0x200; }), v->end()); plain.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(plain); }
    auto cents = [&](int k) { return tuning + (double)k * k2p / 128 - ew.unity * 100 + ew.fine + (0); }; double f0 = (double)w.rate / per, f = 0, ratio = 0; for (int i = 0; i < 200; i++) { key = r.below(128); ratio = pow(2, cents(key) / 1200); f = f0 * ratio; double inc = ratio * w.rate / e.rate; if (f > 300 && f < e.rate * 0.08 && inc > 0.1 && inc < 6) break; key = -1; } if (key < 0) return;
    std::string tr = strf("rate %u period %d %d bits unity %d fine %d%s tuning %d key->pitch %d pan %d key %d; delay %.3f attack %.3f hold %.3f decay %.3f sustain %d release %.3f; vibrato %d tremolo %.0f at %.1f Hz", w.rate, per, w.bits, ew.unity, ew.fine, own ? " (region)" : "", tuning, k2p, pan, key, Tz, Ta, Th, Td, sus, Tr, vib, trem, vf); c.sample = tr;
    EAS_HANDLE h = e.stream(); Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key; EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; }
    e.write(h, {0xC0, 3, 0xB0, 7, 127}); int chPan = r.chance(1, 3) ? r.below(128) : 64; if (chPan != 64) { e.write(h, {0xB0, 10, (uint8_t)chPan}); tr += strf("; channel pan %d", chPan); } e.write(h, {0x90, (uint8_t)key, 127}); const double pos = std::max(-500.0, std::min(500.0, pan + (chPan - 64) * 500 / 63.0));   // of both
    double bs = (double)e.bufN / e.rate; int hold = env ? (int)((Tz + Ta + Th + Td * (1000 - sus) / 1000 + 0.2 + 0.06 * (Tz + Ta + Th + Td)) / bs) : (int)((vib || trem ? 1.2 : 0.15) / bs); bool early = env && r.chance(1, 3); if (early) { hold = r.range(2, hold); tr += strf("; released after %.3f s", hold * bs); c.count("early_releases"); } int rel = env ? (int)(Tr * 0.75 / bs) : 0; Pcm o; e.render(&o, hold); e.write(h, {0x80, (uint8_t)key, 64}); if (rel) e.render(&o, rel); c.nontrivial = !silent(o); int loud = pos > 0 && e.chans > 1 ? 1 : 0; Pcm side; for (size_t i = loud; i < o.size(); i += e.chans) side.push_back(o[i]);
    // pitch, late in the note
    double amp, jit; size_t to = (size_t)hold * e.bufN, from = to - (size_t)(0.13 * e.rate); if (!vib && !trem && !early) { double got = crossings(side, 1, e.rate, from, to, &amp, &jit), err = got > 0 ? 1200 * log2(got / f) : 1e9, inc = ratio * w.rate / e.rate * 32768; c.count("pitch_measured"); if (amp > 100 && fabs(err) > 4 + 3500 / inc) c.violation("pitch", "%.2f Hz measured, %.2f expected (%.1f cents off); %s", got, f, err, tr.c_str()); }
    auto level = [&](int b) { double z = 0; int nn = e.bufN; for (int i = 0; i < nn; i++) { double v = side[(size_t)b * nn + i]; z += v * v; } return sqrt(2 * z / nn); };
    if (env) { // envelope in dB against the model, with time slack
        double top = 0; { Eas e2; EAS_HANDLE h2 = e2.stream(); EAS_LoadDLSCollection(e2.h, h2, e2.file(dls)->locator()); if (chPan != 64) e2.write(h2, {0xB0, 10, (uint8_t)chPan}); e2.write(h2, {0xC0, 4, 0xB0, 7, 127, 0x90, (uint8_t)key, 127}); Pcm u; e2.render(&u, 12); double z = 0; size_t nn = 0; for (size_t i = 2 * (size_t)e.bufN * e.chans + loud; i < u.size(); i += e.chans, nn++) z += (double)u[i] * u[i]; top = sqrt(2 * z / nn); } double rs = hold * bs; auto held = [&](double u) -> double { if (u < Tz) return -200; u -= Tz; if (Ta > 0 && u < Ta) return u <= 0 ? -200 : 20 * log10(u / Ta); u -= Ta; if (u < Th) return 0; u -= Th; double floorDb = -(1000 - sus) * 0.096; return Td > 0 ? std::max(floorDb, -96 * u / Td) : floorDb; }; auto model = [&](double t, double at) -> double { return t < rs ? held(t) : held(at) - 96 * (t - rs) / Tr; };
        for (int b = 0; b < hold + rel && top > 500; b++) { double m = level(b), db = m > 0.5 ? 20 * log10(m / top) : -200, lo = 1e9, hi = -1e9, t0 = b * bs, t1 = (b + 1) * bs; double slackA = 3.2 * bs + 0.05 * std::min(t0, rs) + 0.06 * std::max(0.0, t0 - rs); for (int k = 0; k <= 60; k++) { double t = t0 - slackA + (t1 + slackA - (t0 - slackA)) * k / 60; double v = t < 0 ? (Tz > 0 || Ta > 0 ? -200 : 0) : model(t, rs); lo = std::min(lo, v); hi = std::max(hi, v); if (early && t >= rs) for (int z = -4; z <= 4; z++) { double at = rs + z * 0.8 * bs - 0.05 * rs * (z < 0), y = at < 0 ? -200 : model(t, at); lo = std::min(lo, y); hi = std::max(hi, y); } } c.count("envelope_points"); double noise = 20 * log10(14 / top); if (db > hi + 1.5 && db > noise) { c.violation("envelope", "buffer %d (%.3f s): %.1f dB, the articulation allows %.1f..%.1f; %s", b, t0, db, lo, hi, tr.c_str()); break; } if (db < lo - 1.5 && lo > noise) { c.violation("envelope", "buffer %d (%.3f s): %.1f dB, the articulation allows %.1f..%.1f; %s", b, t0, db, lo, hi, tr.c_str()); break; } } }
    if (e.chans == 2 && !c.failed() && !early) { double L = 0, R = 0; for (size_t i = 0; i < to; i++) { L += (double)o[i * 2] * o[i * 2]; R += (double)o[i * 2 + 1] * o[i * 2 + 1]; } double db = L > 0 && R > 0 ? 10 * log10(R / L) : R > L ? 100 : -100; c.count("pan_measured"); if (fabs(db) > 0.5 ? (db > 0) != (pos > 0) || fabs(pos) < 4 : fabs(pos) > 45) c.violation("pan", "pan %.0f gives right/left %.2f dB; %s", pos, db, tr.c_str()); if (fabs(pos) > 400 && fabs(db) < 12) c.violation("pan", "pan %.0f gives right/left only %.2f dB; %s", pos, db, tr.c_str()); }
    if (vib) { std::vector<double> at; crossings(side, 1, e.rate, (size_t)(0.1 * e.rate), to, &amp, &jit, &at); double hi = -1e9, lo = 1e9; std::vector<double> dev; for (size_t k = 1; k < at.size(); k++) { double d = 1200 * log2(e.rate / (at[k] - at[k - 1]) / f); dev.push_back(d); hi = std::max(hi, d); lo = std::min(lo, d); } int cross = 0; bool up = false; for (double d : dev) { if (d > vib * 0.3 && !up) { cross++; up = true; } if (d < -vib * 0.3) up = false; } double span = at.size() > 1 ? (at.back() - at.front()) / e.rate : 1, want = vf * span; c.count("vibrato_measured"); double inc = ratio * w.rate / e.rate * 32768, slack = 12 + 7000 / inc + f / e.rate * 60; if (c.verbose && getenv("C24_ERR")) printf("VIB %d hi %.1f lo %.1f slack %.1f cycles %d want %.2f\n", vib, hi, lo, slack, cross, want);
        if (hi > vib * 1.06 + slack || lo < -vib * 1.06 - slack || hi < vib * 0.8 - slack || lo > -vib * 0.8 + slack) c.violation("vibrato", "the pitch moves %.1f..%.1f cents; %s", lo, hi, tr.c_str()); else if (vib > 80 && fabs(cross - want) > 1.6 + want * 0.06) c.violation("vibrato", "%d swings in %.2f s; %s", cross, span, tr.c_str()); }
    if (trem) { double hi = -1e9, lo = 1e9; for (int b = (int)(0.1 / bs); b < hold; b++) { double m = level(b); double d = m > 0 ? 20 * log10(m) : -100; hi = std::max(hi, d); lo = std::min(lo, d); } c.count("tremolo_measured"); if (c.verbose && getenv("C24_ERR")) printf("TREM %.1f: %.2f\n", trem / 10, hi - lo); double depth = trem / 10; /* gain above full level is cut off */ if (hi - lo > depth + 1 || hi - lo < depth - 1.2) c.violation("tremolo", "the level moves by %.2f dB; %s", hi - lo, tr.c_str()); }
}
// ---- an articulation that reaches a parameter through velocity, key, wheel or pressure sounds as one that sets it
static DlsWave sawWave(Rng &r) { DlsWave w; w.rate = 44100; int per = r.range(30, 200), n = per * r.range(2, 5); w.s.resize(n + 1); int a = r.range(5000, 13000); for (int k = 0; k <= n; k++) w.s[k] = (int16_t)((k % per) * 2 * a / per - a); w.w.present = true; w.w.unity = 60; w.w.loops = 1; w.w.ls = 0; w.w.ll = n; return w; }
static void relCase(Ctx &c) {
    Rng &r = c.rng; DlsSpec s; s.waves.push_back(sawWave(r)); int key = r.range(30, 100), vel = r.range(20, 127), wheel = r.chance(1, 4) ? 0 : r.range(1, 127), press = r.chance(1, 4) ? 0 : r.range(1, 127); bool byRoute = r.chance(1, 4);
    std::vector<DlsConn> ind, dir, none; std::string tr = strf("key %d velocity %d wheel %d pressure %d:", key, vel, wheel, press);
    auto put = [&](std::vector<DlsConn> &v, int src, int ctl, int dst, int val) { v.push_back({src, ctl, dst, 0, val * 65536}); }; auto all = [&](int src, int ctl, int dst, int val) { put(ind, src, ctl, dst, val); put(dir, src, ctl, dst, val); put(none, src, ctl, dst, val); };
    auto steps = [&](int val, int lim) { int k = std::max(1, lim / std::max(1, val)); k = r.range(1, std::min(k, 240)); return r.chance(1, 2) ? -k : k; };
    if (r.chance(1, 3)) all(0, 0, 0x104, r.range(-3000, 1200)); if (r.chance(1, 3)) all(0, 0, 0x114, r.range(-3000, 1200)); if (r.chance(1, 4)) all(0, 0, 0x105, r.range(-6000, -1500)); if (r.chance(1, 4)) all(0, 0, 0x209, r.range(-5000, 0));
    bool filt = false, eg2 = false; std::set<int> used; int n = r.range(1, 3); std::vector<std::pair<int, int>> events;
    if (byRoute) { tr += " wheel against pressure:"; for (int i = 0; i < n; i++) { static const int D[][2] = {{1, 3}, {9, 3}, {1, 1}, {1, 0x500}}; int t = r.below(4); if (!used.insert(t).second) continue; int d = r.range(-1200, 1200); if (t == 2) d /= 8; put(ind, D[t][0], 0x81, D[t][1], d); put(dir, D[t][0], 8, D[t][1], d); if (t == 3) { all(0, 0, 0x500, r.range(7000, 11500)); filt = true; } tr += strf(" %d->%x %d", D[t][0], D[t][1], d); } int v = r.below(128); events.push_back({0, v}); for (int i = r.range(1, 4); i > 0; i--) events.push_back({(int)r.range(1, 60), (int)r.below(128)}); std::stable_sort(events.begin(), events.end(), [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.first < b.first; }); }
    else for (int i = 0; i < n; i++) { int t = r.below(14); static const int T[] = {0x206, 0x207, 0x20c, 0x30a, 0x30b, 0x310, 0x500, 0x500, 3, 0x1003, 0x9003, 0x1001, 0x1500, 0x206}; int dst = T[t]; if (!used.insert(dst).second) continue;
        if (t <= 5 || t == 13) { bool v2 = dst == 0x206 || dst == 0x30a; int val = v2 ? vel : key, base = r.range(-5000, -600), k = steps(val, 1800); put(ind, 0, 0, dst, base); put(ind, v2 ? 2 : 3, 0, dst, 128 * k); put(dir, 0, 0, dst, base + k * val); put(none, 0, 0, dst, base); if (dst >= 0x300) eg2 = true; if (dst == 0x207) all(0, 0, 0x20a, r.range(100, 800)); if (dst == 0x30b) all(0, 0, 0x30e, r.range(0, 800)); if (dst == 0x310 && used.insert(0x30b).second) { all(0, 0, 0x30b, r.range(-4000, -1000)); all(0, 0, 0x30e, 0); } if (dst == 0x20c) { if (used.insert(0x207).second) { all(0, 0, 0x207, r.range(-4000, -500)); all(0, 0, 0x20a, r.range(100, 700)); } } tr += strf(" %x %d%+d*%d", dst, base, k, val); }
        else if (t == 6 || t == 7) { int val = t == 6 ? vel : key, base = r.range(7500, 10500), k = steps(val, 2000); put(ind, 0, 0, 0x500, base); put(ind, t == 6 ? 2 : 3, 0, 0x500, 128 * k); put(dir, 0, 0, 0x500, base + k * val); put(none, 0, 0, 0x500, base); filt = true; tr += strf(" cutoff %d%+d*%d", base, k, val); }
        else if (t == 8) { int base = r.range(-300, 300), k = steps(key, 1200); put(ind, 0, 0, 3, base); put(ind, 3, 0, 3, 12800 + 128 * k); put(dir, 0, 0, 3, base + k * key); put(none, 0, 0, 3, base); tr += strf(" pitch %d%+d*%d", base, k, key); }
        else { int src = t == 10 ? 9 : 1, d = t == 11 ? 1 : t == 12 ? 0x500 : 3; bool p = r.chance(1, 2); int val = p ? press : wheel, base = t == 11 ? r.range(-60, 60) : r.range(-300, 300), k = steps(val, t == 11 ? 100 : 900); put(ind, src, 0, d, base); put(ind, src, p ? 8 : 0x81, d, 128 * k); put(dir, src, 0, d, base + k * val); put(none, src, 0, d, base); if (d == 0x500 && !used.count(0x500)) { used.insert(0x500); all(0, 0, 0x500, r.range(7000, 11000)); } filt = filt || d == 0x500; tr += strf(" %s %d->%x %d%+d*%d", p ? "pressure" : "wheel", src, d, base, k, val); } }
    if (filt && r.chance(1, 2)) all(0, 0, 0x501, r.range(0, 200)); if (eg2) { all(5, 0, 3, r.chance(1, 2) ? r.range(200, 1200) : -r.range(200, 1200)); if (filt) all(5, 0, 0x500, r.range(-1500, 1500)); }
    if (ind.empty()) put(ind, 0, 0, 0x20a, 1000); if (dir.empty()) put(dir, 0, 0, 0x20a, 1000); if (none.empty()) put(none, 0, 0, 0x20a, 1000);
    for (int i = 0; i < 3; i++) { DlsInst in; in.prog = 3 + i; DlsRegion g; auto v = i == 0 ? ind : i == 1 ? dir : none; for (size_t k = v.size() - 1; k > 0; k--) std::swap(v[k], v[r.below((uint32_t)k + 1)]); if (r.chance(1, 2)) g.art = v; else in.art = v; in.r.push_back(g); s.inst.push_back(in); }
    Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key * 128 + vel; c.sample = tr; int hold = r.range(30, 120), rel = r.range(0, 40); Pcm p[3];
    for (int i = 0; i < 3; i++) { Eas e; EAS_HANDLE h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; } e.write(h, {0xC0, (uint8_t)(3 + i)}); auto ev = [&](int v) { if (i == 0) e.write(h, {0xB0, 1, (uint8_t)v}); else if (i == 1) e.write(h, {0xD0, (uint8_t)v}); }; if (!byRoute) e.write(h, {0xB0, 1, (uint8_t)wheel, 0xD0, (uint8_t)press}); else ev(events[0].second); e.write(h, {0x90, (uint8_t)key, (uint8_t)vel}); for (int b = 0; b < hold; b++) { if (byRoute) for (size_t k = 1; k < events.size(); k++) if (events[k].first == b) ev(events[k].second); e.render(&p[i], 1); } e.write(h, {0x80, (uint8_t)key, 64}); e.render(&p[i], rel); }
    c.nontrivial = !silent(p[0]); c.count(byRoute ? "routes_compared" : "relations_compared"); if (firstDiff(p[0], p[2]) >= 0) c.count("relations_audible"); long d = firstDiff(p[0], p[1]); if (d >= 0) c.violation("relation", "the modulated and the set articulation differ at frame %ld (buffer %ld); %s", d, d / 256, tr.c_str()); }
// ---- the filter: what lies well below the cutoff passes, what lies well above is taken away, resonance lifts the cutoff
static double toneLevel(Ctx &c, int bits, double f, const std::vector<DlsConn> &a, int vel, bool *ok) {
    Eas e; int per = (int)lrint(44100 / f), n = std::max(2, 400 / per + 1); DlsSpec s; DlsWave w; w.bits = bits; w.rate = 44100; w.s = sineWave(44100.0 / per, 44100, per * n, 4000); w.w.present = true; w.w.unity = 60; w.w.loops = 1; w.w.ls = 0; w.w.ll = per * n; w.s.push_back(w.s[0]); s.waves.push_back(w); DlsInst in; in.prog = 3; in.art = a; in.r.push_back(DlsRegion()); s.inst.push_back(in); EAS_HANDLE h = e.stream(); *ok = EAS_LoadDLSCollection(e.h, h, e.file(buildDls(s))->locator()) == 0; if (!*ok) { c.violation("refused", "a valid collection is refused"); return 0; } e.write(h, {0xC0, 3, 0xB0, 7, 127, 0x90, 60, (uint8_t)vel}); Pcm o; e.render(&o, 60); /* the tone alone: over whole periods, without what the rounding adds */ double f1 = 44100.0 / per / e.rate, zr = 0, zi = 0, zm = 0; size_t from = (size_t)20 * e.bufN, len = (size_t)(floor(40 * e.bufN * f1) / f1); for (size_t i = 0; i < len; i++) zm += o[(from + i) * e.chans]; zm /= len; for (size_t i = 0; i < len; i++) { double v = o[(from + i) * e.chans] - zm, w = 0.5 - 0.5 * cos(6.283185307179586 * i / len); zr += w * v * cos(6.283185307179586 * f1 * i); zi += w * v * sin(6.283185307179586 * f1 * i); } if (c.verbose && getenv("C24_ERR")) printf("MEAN %.1f ", zm); c.nontrivial = true; return 4 * sqrt(zr * zr + zi * zi) / len; }
static void filterCase(Ctx &c) {
    Rng &r = c.rng; bool ok; int fc = r.range(6500, 10000); double fcHz = 440 * pow(2, (fc - 6900) / 1200.0), oct = r.range(-30, 30) / 10.0, f = fcHz * pow(2, oct); Eas probe; if (f < 100 || f > probe.rate * 0.2) return; bool vs = r.chance(1, 2); int vel = vs ? 127 : r.range(1, 127); auto A = [&](int cut, int q, bool vs) { std::vector<DlsConn> a; a.push_back({0, 0, 0x20a, 0, 1000 * 65536}); if (cut) a.push_back({0, 0, 0x500, 0, cut * 65536}); if (q) a.push_back({0, 0, 0x501, 0, q * 65536}); if (!vs) a.push_back({2, 0, 1, 0, 0}); return a; };
    int bits = 16; f = 44100.0 / lrint(44100 / f); oct = log2(f / fcHz); int q = r.chance(1, 2) ? 0 : r.range(20, 450); double plain = toneLevel(c, bits, f, A(0, 0, true), 127, &ok), got = toneLevel(c, bits, f, A(fc, q, vs), vel, &ok); c.caseHash = (uint64_t)(f * 100) + fc * 65537ull + q; if (!ok || plain < 100) return; double db = 20 * log10(std::max(got, 0.01) / plain); c.count("filter_points"); c.sample = strf("%.0f Hz through a filter at %.0f Hz, resonance %.1f dB%s: %.1f dB", f, fcHz, q / 10.0, vs ? "" : strf(", velocity %d of no effect", vel).c_str(), db);
    double Q = std::min(q / 10.0, 22.5), Ql = pow(10, Q / 20), lo = 1e9, hi = -1e9; for (int k = -30; k <= 40; k += 2) { double x = pow(2, oct + k / 100.0), v = -Q / 2 - 10 * log10(pow(1 - x * x, 2) + pow(x / Ql, 2)); lo = std::min(lo, v); hi = std::max(hi, v); } double tol = fcHz < 600 ? 3.2 : fcHz < 1000 ? 2.5 : fcHz > 0.1 * probe.rate ? 2.4 : 1.8; double out = db < lo ? lo - db - std::max(0., (-lo - 15) * 0.25) : db > hi ? db - hi : 0; if (got < 30 && db < hi + tol) out = 0; if (c.verbose && getenv("C24_ERR") && out > 0.01 * atof(getenv("C24_ERR"))) printf("FILT out %.2f oct %.2f q %d db %.2f (%.2f..%.2f) fc %.0f f %.0f lev %.1f\n", out, oct, q, db, lo, hi, fcHz, f, got);
    if (out > tol) c.violation("filter", "%s, %.1f..%.1f dB expected", c.sample.c_str(), lo, hi); }
// ---- what an articulation leaves out has the DLS defaults; modulation rates outside the limits act as the limits
static void defaultsCase(Ctx &c) {
    Rng &r = c.rng; static const int T[][4] = {{0, 0, 0x104, -851}, {0, 0, 0x105, -7973}, {0, 0, 0x114, -851}, {0, 0, 0x115, -7973}, {0, 0, 0x20b, -32768}, {0, 0, 0x206, -32768}, {0, 0, 0x20c, -32768}, {0, 0, 0x207, -32768}, {0, 0, 0x20a, 1000}, {0, 0, 0x209, -32768}, {0, 0, 0x20d, -7271}, {2, 0, 0x206, 0}, {3, 0, 0x207, 0}, {3, 0, 0x20c, 0}, {0, 0, 0x30f, -32768}, {0, 0, 0x30a, -32768}, {0, 0, 0x310, -32768}, {0, 0, 0x30b, -32768}, {0, 0, 0x30e, 1000}, {0, 0, 0x30d, -32768}, {2, 0, 0x30a, 0}, {3, 0, 0x30b, 0}, {3, 0, 0x310, 0}, {0, 0, 0x500, 0x7fff}, {0, 0, 0x501, 0}, {1, 0, 0x500, 0}, {1, 0x81, 0x500, 0}, {1, 8, 0x500, 0}, {5, 0, 0x500, 0}, {2, 0, 0x500, 0}, {3, 0, 0x500, 0}, {1, 0, 1, 0}, {1, 0x81, 1, 0}, {1, 8, 1, 0}, {2, 0, 1, 960}, {0, 0, 3, 0}, {3, 0, 3, 12800}, {9, 0, 3, 0}, {9, 0x81, 3, 0}, {9, 8, 3, 0}, {1, 0, 3, 0}, {1, 0x81, 3, 0}, {1, 8, 3, 0}, {5, 0, 3, 0}, {0, 0, 4, 0}};
    const int N = sizeof T / sizeof *T; std::vector<DlsConn> v[2]; std::string tr; int changed = r.range(1, 8); std::set<int> own; for (int i = 0; i < changed; i++) own.insert(r.below(N)); bool lim = false;
    for (int i = 0; i < N; i++) { int d = T[i][3], dst = T[i][2]; DlsConn k = {(uint16_t)T[i][0], (uint16_t)T[i][1], (uint16_t)dst, 0, d * 65536}; if (own.count(i)) { int x; if (dst == 0x104 || dst == 0x114) { x = r.range(-3000, 1500); if (r.chance(1, 2)) { lim = true; bool up = r.chance(2, 3); x = up ? 1549 : -7624; int y = up ? r.range(1550, 20000) : -r.range(7625, 20000); DlsConn z = k; z.scale = x * 65536; v[0].push_back(z); z.scale = y * 65536; v[1].push_back(z); tr += strf(" %x=%d", dst, y); continue; } } else if (d <= -5000) x = r.range(-6500, 600); else if (d == 1000) x = r.range(0, 999); else if (dst == 0x500) x = T[i][0] == 0 ? r.range(6500, 11000) : r.range(-2000, 2000); else if (dst == 0x501) x = r.range(1, 230); else if (dst == 1) x = T[i][0] == 2 ? 0 : r.range(-200, 200); else if (dst == 4) x = r.range(-508, 508); else if (T[i][0] == 3 && dst == 3) x = r.range(0, 12800); else x = r.range(-1200, 1200); k.scale = x * 65536; v[0].push_back(k); v[1].push_back(k); tr += strf(" %d,%x->%x=%d", T[i][0], T[i][1], dst, x); } else if (r.chance(3, 4)) v[0].push_back(k); }
    if (v[1].empty()) v[1].push_back({0, 0, 0x20a, 0, 1000 * 65536}); if (v[0].empty()) v[0] = v[1]; DlsSpec s; s.waves.push_back(sawWave(r)); int key = r.range(30, 100), vel = r.range(20, 127), wheel = r.range(0, 127), press = r.range(0, 127), hold = r.range(20, 90), rel = r.range(5, 60), group = r.chance(1, 3) ? r.range(1, 15) : 0;
    for (int i = 0; i < 2; i++) { DlsInst in; in.prog = 3 + i; DlsRegion g; if (i == 0) for (size_t k = v[i].size() - 1; k > 0; k--) std::swap(v[i][k], v[i][r.below((uint32_t)k + 1)]); g.group = group; if (r.chance(1, 2)) g.art = v[i]; else in.art = v[i]; in.r.push_back(g); s.inst.push_back(in); }
    Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key * 128 + vel; tr = strf("key %d velocity %d wheel %d pressure %d group %d:", key, vel, wheel, press, group) + tr; c.sample = tr; Pcm p[2]; int cut = r.range(5, hold);
    for (int i = 0; i < 2; i++) { Eas e; EAS_HANDLE h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; } e.write(h, {0xC0, (uint8_t)(3 + i), 0xB0, 1, (uint8_t)wheel, 0xD0, (uint8_t)press, 0x90, (uint8_t)key, (uint8_t)vel}); e.render(&p[i], cut); if (group) e.write(h, {0x90, (uint8_t)(key + 3), (uint8_t)vel, 0x80, (uint8_t)(key + 3), 0}); e.render(&p[i], hold - cut); e.write(h, {0x80, (uint8_t)key, 64}); e.render(&p[i], rel); }
    c.nontrivial = !silent(p[0]); c.count("defaults_compared"); if (lim) c.count("limits_compared"); long d = firstDiff(p[0], p[1]); if (d >= 0) c.violation("defaults", "an articulation that spells out the defaults%s sounds different from frame %ld (buffer %ld); %s", lim ? " and limits" : "", d, d / 256, tr.c_str()); }
// ---- delays: of the envelope and of the two modulators; the time an excluded note takes to go
static void timeCase(Ctx &c) {
    Rng &r = c.rng; Eas e; DlsSpec s; s.waves.push_back(sawWave(r)); DlsWave zero; zero.s.assign(200, 0); zero.w.present = true; s.waves.push_back(zero); int kind = r.below(4); double bs = (double)e.bufN / e.rate, D = 0.03 * pow(2, r.range(0, 700) / 100.0); int key = r.range(40, 90); auto tc = [](double sec) { return (int32_t)lrint(1200 * log2(sec)) * 65536; };
    std::string tr = strf("%s of %.3f s, key %d", kind == 0 ? "envelope delay" : kind == 1 ? "vibrato delay" : kind == 2 ? "modulation delay" : "shutdown time", D, key); c.sample = tr; std::vector<DlsConn> a, b; a.push_back({0, 0, 0x20a, 0, 1000 * 65536}); b = a;
    if (kind == 0) { a.push_back({0, 0, 0x20b, 0, tc(D)}); } else if (kind < 3) { int src = kind == 1 ? 9 : 1, dst = kind == 1 ? 3 : r.chance(1, 2) ? 3 : 1; a.push_back({src, 0, dst, 0, (dst == 1 ? -100 : r.chance(1, 2) ? 900 : -900) * 65536}); a.push_back({0, 0, kind == 1 ? 0x114 : 0x104, 0, r.range(-500, 1500) * 65536}); a.push_back({0, 0, kind == 1 ? 0x115 : 0x105, 0, tc(D)}); } else { a.push_back({0, 0, 0x20d, 0, tc(D)}); b.push_back({0, 0, 0x209, 0, tc(9)}); a.push_back({0, 0, 0x209, 0, tc(0.01 + 3 * r.below(1000) / 1000.0)}); }
    for (int i = 0; i < 2; i++) { DlsInst in; in.prog = 3 + i; DlsRegion g; if (kind == 3) { g.group = 5; g.kh = 110; DlsRegion z; z.group = 5; z.kl = 111; z.wave = 1; in.r.push_back(g); in.r.push_back(z); } else in.r.push_back(g); in.art = i ? b : a; s.inst.push_back(in); }
    Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key; Pcm p[2]; int bufs = (int)(D * 1.25 / bs) + 12, hold = 8;
    for (int i = 0; i < 2; i++) { Eas x; EAS_HANDLE h = x.stream(); EAS_RESULT q = EAS_LoadDLSCollection(x.h, h, x.file(dls)->locator()); if (q) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)q, tr.c_str()); return; } x.write(h, {0xC0, (uint8_t)(3 + i), 0x90, (uint8_t)key, 110}); if (kind == 3) { x.render(&p[i], hold); if (i == 0) x.write(h, {0x90, 111, 100}); } x.render(&p[i], bufs); }
    c.nontrivial = true; auto level = [&](const Pcm &o, int b) { double z = 0; int n = e.bufN * e.chans; for (int i = 0; i < n; i++) { double v = o[(size_t)b * n + i]; z += v * v; } return sqrt(z / n); };
    if (kind < 3) { double at = -1; if (kind == 0) { for (size_t i = 0; i < p[0].size() && at < 0; i++) if (p[0][i] > 1 || p[0][i] < -1) at = (double)(i / e.chans) / e.rate; } else { long d = firstDiff(p[0], p[1]); if (d >= 0) at = (double)d / e.rate; } c.count("delays_measured"); if (c.verbose && getenv("C24_ERR")) printf("DELAY %d D %.3f at %.4f rel %.4f bufs %.2f\n", kind, D, at, at / D - 1, (at - D) / bs); if (at < 0 || at - D > 2.5 * bs + 0.075 * D || D - at > 2.5 * bs + 0.03 * D) c.violation("delay", "the %s begins to show after %.3f s", tr.c_str(), at); }
    else { c.count("shutdowns_measured"); double worst = 0, wl = 0; int wb = 0; for (int b = hold; b < hold + bufs; b++) { double ref = level(p[1], b), m = level(p[0], b), db = ref > 50 ? 20 * log10(std::max(m, 0.1) / ref) : 0, t0 = (b - hold) * bs, hi = std::min(0.0, -96 * (t0 - 2.5 * bs) / D * 0.94), lo = -96 * (t0 + 2.5 * bs) / D * 1.06; hi = std::max(hi, -45.0); if (lo < -45) lo = -200; double out = db > hi ? db - hi : db < lo ? lo - db : 0; if (c.verbose && getenv("C24_SH")) printf("S %d t %.3f db %.2f lo %.2f hi %.2f ref %.0f\n", b - hold, t0, db, lo, hi, ref); if (out > worst) { worst = out; wb = b; wl = db; } } if (c.verbose && getenv("C24_ERR")) printf("SHUT D %.3f worst %.2f at %d\n", D, worst, wb - hold); if (worst > 1.5) c.violation("shutdown", "the %s: %.1f dB after %.3f s", tr.c_str(), wl, (wb - hold) * bs); } }
// ---- key groups: notes of one group on a channel cut one another and nothing else; a note struck again adds up where its region allows it
static void groupCase(Ctx &c) {
    Rng &r = c.rng; Eas probe; int unit = probe.bufN * probe.chans; DlsSpec s; DlsWave w = sawWave(r); for (auto &v : w.s) v = (int16_t)(v / 6); s.waves.push_back(w); DlsWave zero; zero.s.assign(400, 0); zero.w.present = true; zero.w.loops = 1; zero.w.ls = 0; zero.w.ll = 300; s.waves.push_back(zero); bool drum = r.chance(1, 3); int ch = drum ? 9 : (int)r.below(9);
    DlsInst in; in.prog = drum ? 0 : 5; in.drum = drum; in.bank = drum ? 0x7800 : 0x7900; in.art.push_back({0, 0, 0x20a, 0, 1000 * 65536}); in.art.push_back({0, 0, 0x209, 0, (int32_t)r.range(-3000, 0) * 65536}); Bytes pre; cc(pre, ch, 0, drum ? 0x78 : 0x79); cat(pre, {(uint8_t)(0xC0 | ch), (uint8_t)in.prog}); std::string tr;
    if (r.chance(1, 2)) {   // groups
        int a = r.below(16), b = r.chance(1, 3) ? a : r.chance(1, 2) ? (a + 8) % 16 : (int)r.below(16); bool far = r.chance(1, 4); DlsRegion A, B; A.kl = 30; A.kh = 60; A.group = a; A.opt = r.below(2); B.kl = 61; B.kh = 90; B.wave = 1; B.group = b; B.opt = r.below(2); in.r.push_back(A); in.r.push_back(B); s.inst.push_back(in); int n = r.range(1, 3); std::vector<int> keys; for (int i = 0; i < n; i++) keys.push_back(32 + 7 * i + r.below(6)); int hold = r.range(2, 10), rest = r.range(8, 20), strikes = r.range(1, 4); bool up = r.chance(1, 3);
        int ch2 = far ? (ch == 9 ? 3 : (ch + 1) % 9) : ch; bool same = a && a == b && !far; tr = strf("%s, %d notes of group %d, %d of group %d%s", drum ? "drums" : "melodic", n, a, strikes, b, far ? " on another channel" : ""); c.sample = tr; Pcm p[2];
        if (a) n = 1, keys.resize(1);   // they would cut one another
        Bytes dls = buildDls(s); c.caseHash = fnv(dls) ^ fnv(tr.data(), tr.size()) ^ keys[0]; for (int k = 0; k < 2; k++) { Eas e; EAS_HANDLE h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; } e.write(h, pre); if (far) { Bytes q; cc(q, ch2, 0, drum ? 0x78 : 0x79); cat(q, {(uint8_t)(0xC0 | ch2), (uint8_t)in.prog}); e.write(h, q); } for (int key : keys) e.write(h, {(uint8_t)(0x90 | ch), (uint8_t)key, 110}); e.render(&p[k], hold); for (int i = 0; i < strikes; i++) { if (k) { e.write(h, {(uint8_t)(0x90 | ch2), (uint8_t)(62 + 5 * i), 100}); if (up) e.write(h, {(uint8_t)(0x80 | ch2), (uint8_t)(62 + 5 * i), 100}); } e.render(&p[k], 1); } e.render(&p[k], rest); }
        c.nontrivial = !silent(p[0]); long d = firstDiff(p[0], p[1]); if (!same) { c.count("groups_apart"); if (d >= 0) c.violation("group", "notes of another group change the sound at frame %ld (buffer %ld); %s", d, d / probe.bufN, tr.c_str()); }
        else { c.count("groups_cut"); size_t from = (size_t)(hold + strikes + rest - 3) * unit; Pcm t(p[1].begin() + from, p[1].end()), u(p[0].begin() + from, p[0].end()); if (!silent(u) && peak(t) > 8) c.violation("group", "a note is still there (%d) %d buffers after one of its group was struck; %s", peak(t), rest + strikes - 3, tr.c_str()); }
        return; }
    // the same note again and again: the sum of the single ones
    DlsRegion A; A.opt = r.chance(2, 3) ? 1 : 0; int n = A.opt ? (int)r.range(2, 6) : 2; in.r.push_back(A); s.inst.push_back(in); int key = r.range(40, 80), total = 0; std::vector<int> at; for (int i = 0; i < n; i++) { at.push_back(total); total += r.range(1, 8); } total += r.range(2, 10); tr = strf("%s, %d strikes of key %d, %s", drum ? "drums" : "melodic", n, key, A.opt ? "not self-exclusive" : "self-exclusive"); c.sample = tr;
    Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key * 8 + n; Pcm p[2]; for (int k = 0; k < 2; k++) { Eas e; EAS_HANDLE h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; } e.write(h, pre); for (int b = 0; b < total; b++) { for (int i = 0; i < (k ? n : 1); i++) if (at[i] == b) e.write(h, {(uint8_t)(0x90 | ch), (uint8_t)key, 100}); e.render(&p[k], 1); } }
    c.nontrivial = !silent(p[0]); c.count("restrikes_compared"); int worst = 0; size_t wi = 0; for (size_t f = 0; f < p[0].size(); f++) { long want = 0; for (int i = 0; i < n; i++) { long q = (long)f - (long)at[i] * unit; if (q >= 0) want += p[0][q]; } int d = abs((int)(want - p[1][f])); if (abs(want) < 32000 && d > worst) { worst = d; wi = f; } } if (c.verbose && getenv("C24_ERR")) printf("SUM %d of %d peak %d\n", worst, n, peak(p[1])); if (worst > n + 2) c.violation("restrike", "the strikes do not add up: %d off at buffer %zu; %s", worst, wi / unit, tr.c_str()); }
// ---- one pitch spelled through root key, fine tuning or a tuning connection; times too short to be heard are zero times; without a release time a note ends at once
static void spellCase(Ctx &c) {
    Rng &r = c.rng; DlsSpec s; DlsWave w = sawWave(r); int key = r.range(30, 100), hold = r.range(10, 50), rel = r.range(8, 30); bool times = r.chance(1, 2); std::string tr; std::vector<DlsConn> v[2]; DlsWsmp ws[2]; ws[0] = ws[1] = w.w; Eas probe; int unit = probe.bufN * probe.chans; size_t grace = 0; bool release = false, moved = false, mod = false;
    auto put = [&](int i, int src, int dst, int val) { v[i].push_back({(uint16_t)src, 0, (uint16_t)dst, 0, val * 65536}); };
    if (times) { static const int D[] = {0x20b, 0x206, 0x20c, 0x207, 0x209, 0x30f, 0x30a, 0x310, 0x30b, 0x30d, 0x105, 0x115}; for (int d : D) { if (r.chance(1, 2)) continue; int x = -r.range(16000, 30000); put(0, 0, d, x); if (r.chance(1, 2)) put(1, 0, d, -32768); tr += strf(" %x=%d", d, x); grace = 7; if (d == 0x30f || d == 0x30a || d == 0x310 || d == 0x30b) moved = true; }
        if (r.chance(1, 2)) { int sus = r.range(0, 1000); for (int i = 0; i < 2; i++) put(i, 0, 0x20a, sus); tr += strf(" sustain %d", sus); } if (r.chance(1, 2)) { mod = true; int sus = r.range(0, 1000), up = r.range(-1200, 1200), dst = 3; for (int i = 0; i < 2; i++) { put(i, 0, 0x30e, sus); put(i, 5, dst, up); } tr += strf(" modulation %d x %d cents", sus, up); }
        if (r.chance(1, 3)) { int x = r.range(-4000, 0); for (int i = 0; i < 2; i++) { v[i].erase(std::remove_if(v[i].begin(), v[i].end(), [](const DlsConn &k) { return k.dst == 0x209; }), v[i].end()); put(i, 0, 0x209, x); } tr += strf(" release %d", x); release = true; } }
    else { int total = r.range(-1500, 1500), k2p = r.chance(1, 2) ? 12800 : r.range(0, 12800); for (int i = 0; i < 2; i++) { int unity = r.range(50, 70), left = total + (unity - 60) * 100, fine = r.chance(1, 3) ? left : r.chance(1, 2) ? 0 : r.range(-1000, 1000), tun = left - fine; ws[i].unity = unity; ws[i].fine = fine; if (tun || r.chance(1, 2)) put(i, 0, 3, tun); if (k2p != 12800) put(i, 3, 3, k2p); tr += strf("%s root %d fine %d tuning %d", i ? " against" : "", unity, fine, tun); } tr += strf(" key->pitch %d", k2p); if (k2p != 12800) c.count("other_key_scaling"); }
    for (int i = 0; i < 2; i++) { if (v[i].empty()) put(i, 0, 0x20b, -32768); DlsInst in; in.prog = 3 + i; DlsRegion g; DlsWave u = w; if (r.chance(1, 2)) { g.w = ws[i]; u.w.unity = r.below(128); u.w.fine = r.range(-900, 900); } else u.w = ws[i]; s.waves.push_back(u); g.wave = i; if (r.chance(1, 2)) g.art = v[i]; else in.art = v[i]; in.r.push_back(g); s.inst.push_back(in); }
    tr = strf("key %d:", key) + tr; c.sample = tr; Bytes dls = buildDls(s); c.caseHash = fnv(dls) + key; Pcm p[2]; for (int i = 0; i < 2; i++) { Eas e; EAS_HANDLE h = e.stream(); EAS_RESULT x = EAS_LoadDLSCollection(e.h, h, e.file(dls)->locator()); if (x) { c.violation("refused", "a valid collection is refused: %ld; %s", (long)x, tr.c_str()); return; } e.write(h, {0xC0, (uint8_t)(3 + i), 0x90, (uint8_t)key, 110}); e.render(&p[i], hold); e.write(h, {0x80, (uint8_t)key, 64}); e.render(&p[i], rel); }
    c.nontrivial = !silent(p[0]); c.count(times ? "short_times_compared" : "tunings_compared"); long d = -1; for (size_t k = grace * unit; k < p[0].size() && d < 0; k++) if (p[0][k] != p[1][k]) d = (long)k; if (d >= 0 && mod && moved) {   // the pitch arrived a moment earlier or later: the same frequency at least
        double f[2]; for (int i = 0; i < 2; i++) { double a, j; Pcm one; for (size_t k = 0; k < p[i].size(); k += probe.chans) one.push_back(p[i][k]); f[i] = crossings(one, 1, probe.rate, grace * probe.bufN, (size_t)hold * probe.bufN, &a, &j); } if (hold < 30 || f[0] <= 0 || f[1] <= 0) return; c.count("short_modulations_measured"); if (c.verbose && getenv("C24_ERR")) printf("MOD %.2f %.2f cents %.2f\n", f[0], f[1], 1200 * log2(f[0] / f[1])); if (fabs(1200 * log2(f[0] / f[1])) > 10) c.violation("spelling", "%.1f Hz and %.1f Hz with modulation times too short to be heard; %s", f[0], f[1], tr.c_str()); return; }
    if (d >= 0) c.violation("spelling", "%s sounds different from buffer %ld on; %s", times ? "a bank with times too short to be heard" : "one pitch spelled in two ways", d / unit, tr.c_str());
    if (!release) { c.count("ends_measured"); for (int i = 0; i < 2; i++) { Pcm t(p[i].begin() + (size_t)(hold + 4) * unit, p[i].end()); if (peak(t) > 8) c.violation("release", "without a release time a note still sounds (%d) 4 buffers after its end; %s", peak(t), tr.c_str()); } } }
void vh_case(Ctx &c) { int k = c.rng.below(19); if (getenv("C24_ONLY")) k = atoi(getenv("C24_ONLY")); if (k < 4) lookupCase(c); else if (k < 6) waveCase(c); else if (k < 8) artCase(c); else if (k < 11) relCase(c); else if (k < 13) filterCase(c); else if (k < 15) defaultsCase(c); else if (k < 16) timeCase(c); else if (k < 17) groupCase(c); else spellCase(c); }
