// C33: two encodings of the same sound bank sound the same; what a bank's conditions exclude is not there.
#include "scen.h"
const char *vh_property = "C33";
namespace {
// ---- conditions (<cdl>): an interpreter of its own
const uint8_t GUIDS[][16] = {
    {0x24, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12},   // GM in hardware: true
    {0x25, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12},   // GS: false
    {0x26, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12},   // XG: false
    {0x27, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12},   // DLS1: true
    {0xe5, 0x99, 0x45, 0xf1, 0x89, 0x46, 0xd2, 0x11, 0xaf, 0xa6, 0, 0xaa, 0, 0x24, 0xd8, 0xb6},   // DLS2: false
    {0x81, 0x11, 0x3e, 0xb0, 0x95, 0x80, 0xd2, 0x11, 0xa1, 0xef, 0, 0x60, 8, 0x33, 0xdb, 0xd8},   // manufacturer
    {0x13, 0xf7, 0x91, 0x2a, 0xbf, 0xa4, 0xd2, 0x11, 0xbb, 0xdf, 0, 0x60, 8, 0x33, 0xdb, 0xd8},   // playback rate
    {0x28, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12},   // sample memory: not zero
    {0x82, 0x11, 0x3e, 0xb0, 0x95, 0x80, 0xd2, 0x11, 0xa1, 0xef, 0, 0x60, 8, 0x33, 0xdb, 0xd8},   // product: not zero
    {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};                                     // unknown
uint32_t GVAL[] = {0xffffffffu, 0, 0, 0xffffffffu, 0, 0x13a, 0, 1, 1, 0};   // [6]: the rate in use
Bytes genExpr(Rng &r, bool want, std::string &txt) {
    for (;;) { Bytes b; std::vector<uint32_t> st; txt.clear(); bool deep = r.chance(1, 3); int n = deep ? r.range(14, 22) : r.range(1, 14); bool bad = false;
        for (int i = 0; i < n || st.size() > 1; i++) { int k = r.below(8); if (i >= n || (st.size() >= 2 && k < (deep && i < 8 ? 0 : 4)) || st.size() >= 8) { if (st.size() < 2) { bad = true; break; } uint32_t x = st.back(); st.pop_back(); uint32_t y = st.back(); st.pop_back(); int op = r.range(1, 14); if (op == 7 && !y) op = 4; uint32_t v = 0;
                switch (op) { case 1: v = x & y; break; case 2: v = x | y; break; case 3: v = x ^ y; break; case 4: v = x + y; break; case 5: v = x - y; break; case 6: v = x * y; break; case 7: v = x / y; break; case 8: v = x && y; break; case 9: v = x || y; break; case 10: v = x < y; break; case 11: v = x <= y; break; case 12: v = x > y; break; case 13: v = x >= y; break; default: v = x == y; } st.push_back(v); putLE16(b, op); txt += strf(" op%d", op); }
            else if (st.size() >= 1 && k == 4) { st.back() = !st.back(); putLE16(b, 15); txt += " not"; }
            else if (k == 5) { int g = r.below(10); putLE16(b, 17); for (uint8_t q : GUIDS[g]) b.push_back(q); uint32_t v = GVAL[g]; txt += strf(" query%d", g); if (g == 7 || g == 8) { putLE16(b, 15); putLE16(b, 15); txt += " not not"; } st.push_back(v); if (g == 6 && r.chance(1, 2)) { uint32_t z = r.chance(1, 2) ? v : r.chance(1, 2) ? 22050 + 22050 * r.below(2) : v + r.range(-1, 1); if (st.size() < 8) { putLE16(b, 16); putLE32(b, z); putLE16(b, 14); st.back() = v == z; txt += strf(" %u op14", z); } } }
            else if (k == 6) { int g = r.below(10); putLE16(b, 18); for (uint8_t q : GUIDS[g]) b.push_back(q); st.push_back(g < 9); txt += strf(" supported%d", g); }
            else { uint32_t v = r.chance(1, 4) ? (uint32_t)r.next() : r.below(4); putLE16(b, 16); putLE32(b, v); st.push_back(v); txt += strf(" %u", v); } }
        if (bad || st.size() != 1) continue; if ((st[0] != 0) == want) return b; } }
// ---- an encoder with everything a file may vary
struct Enc {
    Rng &r; bool junk, shuf, excluded = false; std::set<std::string> kinds; Enc(Rng &rr) : r(rr), junk(rr.chance(1, 2)), shuf(rr.chance(2, 3)) {}
    void used(const char *k) { kinds.insert(k); }
    Bytes junkChunk() { Bytes d, o; int n = r.below(12); for (int i = 0; i < n; i++) d.push_back(r.byte()); static const char *ids[] = {"vers", "dlid", "junk", "ICMT", "smpl", "INAM", "msyn"}; if (r.chance(1, 3)) { Bytes in; chunk(in, "INAM", d); if (r.chance(1, 2)) chunk(in, "ICOP", Bytes(r.below(5), 'x')); list(o, "INFO", in); } else chunk(o, ids[r.below(7)], d); used("unknown-chunks"); return o; }
    Bytes join(std::vector<Bytes> v, size_t fixed = 0) { if (shuf && v.size() - fixed > 1) { used("chunk-order"); for (size_t i = v.size() - 1; i > fixed; i--) std::swap(v[i], v[fixed + r.below((uint32_t)(i - fixed + 1))]); } Bytes o; for (auto &b : v) { if (junk && r.chance(1, 4)) cat(o, junkChunk()); cat(o, b); } if (junk && r.chance(1, 4)) cat(o, junkChunk()); return o; }
    Bytes ck(const char *id, const Bytes &d) { Bytes o; chunk(o, id, d); return o; }
    Bytes li(const char *t, const Bytes &d, const char *id = "LIST") { Bytes o; list(o, t, d, id); return o; }
    Bytes cond(bool want) { std::string t; Bytes e = genExpr(r, want, t); used(want ? "true-conditions" : "false-conditions"); return ck("cdl ", e); }
    Bytes wsmp(const DlsWsmp &w) { int extra = r.chance(1, 4) ? 2 * r.range(1, 4) : 0; Bytes d; putLE32(d, 20 + extra); if (extra) used("longer-headers"); putLE16(d, w.unity); putLE16(d, (uint16_t)w.fine); int32_t g = w.gain; if (g == 0 && r.chance(1, 4)) { g = (int32_t)r.range(1, 600) << 16; used("positive-gain"); } putLE32(d, (uint32_t)g); putLE32(d, r.chance(1, 4) ? (uint32_t)r.below(4) : 0); int loops = w.loops, more = loops && r.chance(1, 4) ? r.range(1, 2) : 0; putLE32(d, loops + more); for (int i = 0; i < extra; i++) d.push_back(r.byte()); if (loops) { putLE32(d, 16); putLE32(d, 0); putLE32(d, w.ls); putLE32(d, w.ll); } for (int i = 0; i < more; i++) { putLE32(d, 16); putLE32(d, 0); putLE32(d, r.below(10)); putLE32(d, r.below(10)); used("more-loops"); } return ck("wsmp", d); }
    Bytes art(const char *id, std::vector<DlsConn> a) { int extra = r.chance(1, 4) ? 2 * r.range(1, 4) : 0; Bytes d; putLE32(d, 8 + extra); putLE32(d, (uint32_t)a.size()); for (int i = 0; i < extra; i++) d.push_back(r.byte()); for (auto &c : a) { putLE16(d, c.src); putLE16(d, c.ctl); putLE16(d, c.dst); putLE16(d, c.trn); putLE32(d, (uint32_t)c.scale); } return ck(id, d); }
    std::vector<Bytes> arts(std::vector<DlsConn> a) {   // 0..2 lists
        std::vector<Bytes> out; if (a.empty()) { if (r.chance(1, 4)) { out.push_back(li(r.chance(1, 2) ? "lart" : "lar2", join({art(r.chance(1, 2) ? "art1" : "art2", {})}))); used("empty-articulation"); } else if (r.chance(1, 4)) { DlsConn x{0, 0, 3, 0, 0x7000000}; Bytes l = cond(false); cat(l, art("art1", {x})); out.push_back(li("lart", l)); } return out; }
        for (size_t i = a.size() - 1; i > 0; i--) std::swap(a[i], a[r.below((uint32_t)(i + 1))]); used("connection-order"); if (r.chance(1, 3)) { DlsConn x{7, 0, 0x77, 0, (int32_t)r.next()}; a.insert(a.begin() + r.below((uint32_t)a.size() + 1), x); used("unknown-connections"); } for (auto &c : a) if (r.chance(1, 4)) c.scale = (c.scale & ~0xffff) | r.below(65536);
        size_t cut = r.chance(1, 3) ? r.below((uint32_t)a.size() + 1) : a.size(); std::vector<DlsConn> p(a.begin(), a.begin() + cut), q(a.begin() + cut, a.end()); bool lists = r.chance(1, 2); auto one = [&](const char *l, std::vector<Bytes> v) { if (r.chance(1, 4)) v.insert(v.begin(), cond(true)); out.push_back(li(l, join(v, v.size() > 1 && !memcmp(v[0].data(), "cdl ", 4) ? 1 : 0))); };
        if (q.empty() || p.empty()) { one(r.chance(1, 2) ? "lart" : "lar2", {art(r.chance(1, 2) ? "art1" : "art2", p.empty() ? q : p)}); } else if (lists) { one("lart", {art(r.chance(1, 2) ? "art1" : "art2", p)}); one("lar2", {art(r.chance(1, 2) ? "art1" : "art2", q)}); used("two-lists"); } else { one(r.chance(1, 2) ? "lart" : "lar2", {art("art1", p), art("art2", q)}); used("two-chunks"); } return out; }
    int edge(int v) { if (v == 127 && r.chance(1, 3)) { used("ranges-past-127"); return r.range(128, 65535); } return v; }
    Bytes region(const DlsSpec &s, const DlsRegion &g, int wave, const std::vector<DlsConn> &a, bool present) {
        Bytes h; putLE16(h, g.kl); putLE16(h, edge(g.kh)); putLE16(h, g.vl); putLE16(h, edge(g.vh)); putLE16(h, g.opt); putLE16(h, g.group); bool two = r.chance(1, 2); if (two) putLE16(h, r.below(3)); std::vector<Bytes> v; bool cd = !present || r.chance(1, 5); if (cd) v.push_back(cond(present)); v.push_back(ck("rgnh", h)); Bytes w; putLE16(w, 0); putLE16(w, 0); putLE32(w, 1); putLE32(w, wave); v.push_back(ck("wlnk", w));
        if (g.w.present) v.push_back(wsmp(g.w)); else if (s.waves[g.wave].w.present && r.chance(1, 3)) { v.push_back(wsmp(s.waves[g.wave].w)); used("wave-settings-in-region"); } for (auto &l : arts(a)) v.push_back(l); return li(two ? "rgn2" : "rgn ", join(v, cd ? 1 : 0)); }
    Bytes file(const DlsSpec &s) {
        int nw = (int)s.waves.size(); std::vector<int> slot; int total = nw + (r.chance(1, 3) ? r.range(1, 3) : 0); for (int i = 0; i < total; i++) slot.push_back(i); if (r.chance(1, 2)) { for (size_t i = slot.size() - 1; i > 0; i--) std::swap(slot[i], slot[r.below((uint32_t)(i + 1))]); used("wave-numbers"); }   // wave i is cue slot[i]
        std::vector<int> lie(total); for (int i = 0; i < total; i++) lie[i] = i; for (size_t i = lie.size() - 1; i > 0; i--) std::swap(lie[i], lie[r.below((uint32_t)(i + 1))]); if (total > nw) used("unused-waves");
        std::vector<uint32_t> offs(total); Bytes wvpl; for (int i : lie) { DlsWave w = i < nw ? s.waves[i] : genWave(r, false); if (i < nw) { bool low = false; for (int16_t v : w.s) if (v & 255) low = true; if (!low && r.chance(1, 2)) { w.bits = 24 - w.bits; used("wave-width"); } }
            offs[slot[i]] = (uint32_t)wvpl.size(); Bytes f; putLE16(f, 1); putLE16(f, 1); putLE32(f, w.rate); putLE32(f, r.chance(1, 4) ? (uint32_t)r.next() : w.rate * w.bits / 8); putLE16(f, w.bits / 8); putLE16(f, w.bits); if (r.chance(1, 4)) putLE16(f, 0); Bytes d; for (int16_t v : w.s) { if (w.bits == 16) putLE16(d, (uint16_t)v); else d.push_back((uint8_t)((v >> 8) + 128)); } std::vector<Bytes> v{ck("fmt ", f), ck("data", d)};
            if (w.w.present) v.push_back(wsmp(w.w)); else if (r.chance(1, 3)) { v.push_back(wsmp(DlsWsmp())); used("default-settings"); } cat(wvpl, li("wave", join(v))); }
        Bytes ptbl; putLE32(ptbl, 8); putLE32(ptbl, total); for (uint32_t o : offs) putLE32(ptbl, o);
        std::vector<Bytes> ins; for (auto &in : s.inst) { std::vector<Bytes> v; Bytes h; uint32_t n = 0; std::vector<Bytes> rg; bool spread = !in.art.empty() && r.chance(1, 3); for (auto &g : in.r) { bool known = g.art.empty(); for (auto &x : g.art) if (x.src == 0 && x.ctl == 0 && (x.dst == 3 || x.dst == 4 || x.dst == 0x104 || x.dst == 0x206 || x.dst == 0x500)) known = true; spread = spread && known; } if (spread) used("instrument-articulation-in-regions"); for (auto &g : in.r) { if (r.chance(1, 6)) { DlsRegion x = g; x.kl = 0; x.kh = 127; x.vl = 0; x.vh = 127; rg.push_back(region(s, x, slot[g.wave], genArt(r, false), false)); n++; } rg.push_back(region(s, g, slot[g.wave], g.art.empty() && spread ? in.art : g.art, true)); n++; }
            putLE32(h, n); putLE32(h, in.bank | (in.drum ? 0x80000000u : 0)); putLE32(h, in.prog); Bytes lr; for (auto &b : rg) { if (junk && r.chance(1, 6)) cat(lr, junkChunk()); cat(lr, b); } v.push_back(ck("insh", h)); v.push_back(li("lrgn", lr)); for (auto &l : arts(spread ? std::vector<DlsConn>() : in.art)) v.push_back(l); ins.push_back(li("ins ", join(v))); }
        if (r.chance(1, 4)) { DlsRegion g; g.wave = r.below(nw); Bytes h; putLE32(h, 1); putLE32(h, 0x7900); putLE32(h, r.below(6)); Bytes b = region(s, g, slot[g.wave], {}, false); std::vector<Bytes> v{ck("insh", h), li("lrgn", b)}; ins.insert(ins.begin() + r.below((uint32_t)ins.size() + 1), li("ins ", join(v))); used("excluded-instruments"); }
        Bytes lins; for (auto &b : ins) { if (junk && r.chance(1, 6)) cat(lins, junkChunk()); cat(lins, b); }
        Bytes colh; putLE32(colh, (uint32_t)ins.size()); std::vector<Bytes> top; bool cd = excluded || r.chance(1, 4); if (cd) top.push_back(cond(!excluded)); for (auto &b : std::vector<Bytes>{ck("colh", colh), li("lins", lins), ck("ptbl", ptbl), li("wvpl", wvpl)}) top.push_back(b); Bytes o = li("DLS ", join(top, cd ? 1 : 0), "RIFF"); if (r.chance(1, 5)) { for (int i = r.range(1, 40); i > 0; i--) o.push_back(r.byte()); used("trailing-bytes"); } return o; }
};
void dedupe(std::vector<DlsConn> &a) { std::vector<DlsConn> o; for (auto &c : a) { bool d = false; for (auto &x : o) if (x.src == c.src && x.ctl == c.ctl && x.dst == c.dst) d = true; if (!d) o.push_back(c); } a = o; }
}
void vh_case(Ctx &c) {
    if (!GVAL[6]) { Eas e; GVAL[6] = e.rate; }
    Rng &r = c.rng; DlsSpec s = r.chance(1, 2) ? richDls(r) : genDlsSpec(r, false); s.cdl.clear(); for (auto &w : s.waves) if (w.bits == 8) for (auto &v : w.s) v &= ~255; for (auto &i : s.inst) { dedupe(i.art); for (auto &g : i.r) { dedupe(g.art); g.cdl.clear(); if (g.kh < g.kl) g.kh = g.kl; } }
    if (r.chance(3, 4)) { DlsInst d; d.bank = 0x0505; d.prog = 113; DlsRegion g; g.wave = 0; d.r.push_back(g); d.art.push_back({0, 0, 0x20a, 0, 0x03e80000}); s.inst.push_back(d); }   // without any articulation it is refused
    Bytes a = buildDls(s); Enc en(r); Bytes b = en.file(s); c.caseHash = fnv(a) ^ fnv(b) * 31; for (auto &k : en.kinds) c.count(k.c_str()); std::string ks; for (auto &k : en.kinds) ks += " " + k; c.sample = strf("%zu and %zu bytes:%s", a.size(), b.size(), ks.c_str());
    if (r.chance(1, 12)) {   // the condition of the whole collection is false: it is not taken, and everything sounds as before
        en.excluded = true; Bytes x = en.file(s); c.caseHash = fnv(x); struct Ev { int at; Bytes m; }; std::vector<Ev> ev; int nb = r.range(8, 25); for (int i = r.range(1, 6); i > 0; i--) { auto &in = r.pick(s.inst); int ch = in.drum ? 9 : (int)r.below(9), key = r.range(30, 90); ev.push_back({(int)r.below(nb - 2), {(uint8_t)(0xB0 | ch), 0, (uint8_t)(in.bank >> 8 & 127), (uint8_t)(0xB0 | ch), 32, (uint8_t)(in.bank & 127), (uint8_t)(0xC0 | ch), (uint8_t)(in.prog & 127), (uint8_t)(0x90 | ch), (uint8_t)key, 100}}); }
        bool gl = r.chance(1, 3), had = r.chance(1, 2); DlsSpec o = genDlsSpec(r, false); for (auto &i : o.inst) for (auto &g : i.r) g.cdl.clear(); o.cdl.clear(); Bytes ob = buildDls(o); Pcm p[2]; EAS_RESULT got = 0; for (int k = 0; k < 2; k++) { Eas e; EAS_HANDLE h = nullptr; if (gl) { if (had) EAS_LoadDLSCollection(e.h, nullptr, e.file(ob)->locator()); if (k) got = EAS_LoadDLSCollection(e.h, nullptr, e.file(x)->locator()); h = e.stream(); } else { h = e.stream(); if (had) EAS_LoadDLSCollection(e.h, h, e.file(ob)->locator()); if (k) got = EAS_LoadDLSCollection(e.h, h, e.file(x)->locator()); } for (int i = 0; i < nb; i++) { for (auto &m : ev) if (m.at == i) e.write(h, m.m); e.render(&p[k], 1); } }
        c.count("excluded_collections"); c.nontrivial = !silent(p[0]); if (!got) { c.violation("condition", "a collection whose condition is false is taken"); return; } long d = firstDiff(p[0], p[1]); if (d >= 0) c.violation("condition", "a collection whose condition is false (%ld) changes the sound at frame %ld%s", (long)got, d, had ? ", another one was loaded before" : ""); return; }
    if (getenv("C33_DUMP")) { FILE *f = fopen("/tmp/d/a.dls", "wb"); fwrite(a.data(), 1, a.size(), f); fclose(f); f = fopen("/tmp/d/b.dls", "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
    // a performance on its programs
    struct Msg { int at; Bytes m; }; std::vector<Msg> pf; int nb = r.range(20, 50), nn = r.range(3, 12); for (int i = 0; i < nn; i++) { auto &in = r.pick(s.inst); int ch = in.drum ? 9 : (int)r.below(9), at = r.below(nb - 4); Bytes m; auto cc = [&](int n, int v) { m.push_back(0xB0 | ch); m.push_back(n); m.push_back(v); }; cc(0, in.bank >> 8 & 127); cc(32, in.bank & 127); m.push_back(0xC0 | ch); m.push_back(in.prog & 127); if (r.chance(1, 2)) cc(1, r.below(128)); if (r.chance(1, 4)) cc(10, r.below(128)); if (r.chance(1, 4)) { m.push_back(0xE0 | ch); m.push_back(r.below(128)); m.push_back(r.below(128)); } if (r.chance(1, 4)) { m.push_back(0xD0 | ch); m.push_back(r.below(128)); } int key = r.below(128); if (!in.r.empty()) { auto &g = r.pick(in.r); key = r.range(g.kl, std::max(g.kl, g.kh)); } m.push_back(0x90 | ch); m.push_back(key); m.push_back(r.range(1, 127)); pf.push_back({at, m}); if (r.chance(3, 4)) pf.push_back({at + (int)r.range(1, nb), {(uint8_t)(0x80 | ch), (uint8_t)key, 64}}); }
    bool globalA = r.chance(1, 4), globalB = r.chance(1, 4); EAS_RESULT res[2]; Pcm p[2]; for (int k = 0; k < 2; k++) { Eas e; bool gl = k ? globalB : globalA; EAS_HANDLE h = nullptr; if (!gl) h = e.stream(); res[k] = EAS_LoadDLSCollection(e.h, gl ? nullptr : h, e.file(k ? b : a)->locator()); if (res[k]) continue; if (gl) h = e.stream(); for (int i = 0; i < nb; i++) { for (auto &m : pf) if (m.at == i) e.write(h, m.m); e.render(&p[k], 1); } }
    if ((res[0] != 0) != (res[1] != 0)) { c.violation("refused", "the plain encoding gives %ld, the other %ld;%s", (long)res[0], (long)res[1], ks.c_str()); return; }
    if (res[0]) { c.count("both_refused"); return; } c.count("banks_compared"); if (globalA != globalB) c.count("global_against_stream"); c.nontrivial = !silent(p[0]); long d = firstDiff(p[0], p[1]); if (d >= 0) c.violation("sound", "two encodings of one bank differ at frame %ld (buffer %ld);%s", d, d / 256, ks.c_str());
}
