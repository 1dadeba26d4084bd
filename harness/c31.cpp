// C31: the optional formats (iMelody, RTTTL, OTA, XMF, JET): well-formed files play as written, any bytes are handled safely.
#include "probe.h"
#include "tone.h"
#include "jet.h"
#include <fstream>
const char *vh_property = "C31";
namespace {
struct Tn { double ms; int midi; double on; };              // midi 0: rest; on: sounding part in ms
struct Tune { Bytes file; std::vector<Tn> pass; int passes = 1; bool endless = false, fades = false, kindImy = false; double total = 0; std::string title, author; EAS_I32 type = 0; std::string text; };
const double noteTol = 0.02;
std::string num(int v) { return strf("%d", v); }
std::string ci(Rng &r, std::string s) { if (r.chance(1, 4)) for (auto &x : s) if (r.chance(1, 2)) x = (char)tolower(x); return s; }

// ---- iMelody
Tune genImy(Rng &r) {
    Tune t; t.type = EAS_FILE_IMELODY; t.kindImy = true; std::string o, nl = r.chance(1, 2) ? "\r\n" : "\n"; int beat = 120, style = 0; std::vector<std::string> head;
    if (r.chance(1, 2)) { t.title = std::string(r.range(1, 40), (char)('A' + r.below(26))); head.push_back(ci(r, "NAME:") + t.title); }
    if (r.chance(1, 2)) { t.author = std::string(r.range(1, 40), (char)('a' + r.below(26))); head.push_back(ci(r, "COMPOSER:") + t.author); }
    if (r.chance(2, 3)) { beat = r.range(25, 900); head.push_back(ci(r, "BEAT:") + num(beat)); }
    if (r.chance(2, 3)) { style = r.below(3); head.push_back(ci(r, "STYLE:") + (r.chance(1, 2) ? "S" : "") + num(style)); }
    if (r.chance(1, 3)) head.push_back(ci(r, "VOLUME:") + (r.chance(1, 2) ? "V" : "") + num(r.range(8, 15)));
    for (size_t i = head.size(); i > 1; i--) std::swap(head[i - 1], head[r.below(i)]);
    o = ci(r, "BEGIN:IMELODY") + nl + ci(r, "VERSION:") + (r.chance(1, 2) ? "1.2" : "1.0") + nl + ci(r, "FORMAT:") + (r.chance(1, 2) ? "CLASS1.0" : "CLASS2.0") + nl; for (auto &h : head) o += h + nl;
    double tick = 60000.0 / 8 / beat; int oct = 4; int n = r.range(1, 24); int repAt = r.chance(1, 2) ? r.below(n) : -1, repEnd = repAt < 0 ? -1 : repAt + r.range(1, n - repAt), count = r.chance(1, 5) ? 0 : r.range(1, 4);
    std::string m = ci(r, "MELODY:"); std::vector<Tn> rep; std::vector<int> repOct; size_t line = m.size(); auto turn = [&] { for (size_t i = 0; i < rep.size(); i++) { Tn q = rep[i]; if (repOct[i] >= 0) oct = repOct[i]; if (q.midi) q.midi = 12 * (oct + 1) + (q.midi - 12); t.pass.push_back(q); } };  /* the octave carries over into the next turn */ std::string body;
    auto put = [&](const std::string &x) { if (line + x.size() > 70) { body += nl; line = 0; } body += x; line += x.size(); };
    static const char *nm[] = {"c", "d", "e", "f", "g", "a", "b"}; static const int sem[] = {0, 2, 4, 5, 7, 9, 11};
    for (int i = 0; i < n; i++) {
        if (i == repAt) put("(");
        if (r.chance(1, 6)) put(r.chance(1, 2) ? (r.chance(1, 2) ? "ledon" : "ledoff") : r.chance(1, 2) ? (r.chance(1, 2) ? "vibeon" : "vibeoff") : r.chance(1, 2) ? "backon" : "backoff");
        if (r.chance(1, 8)) put(strf("V%d", r.range(6, 15)));
        if (r.chance(1, 12)) { bool up = r.chance(1, 2); put(up ? "V+" : "V-"); if (!up && repAt != -1) t.fades = true; }
        std::string x; Tn q; int k = r.below(7), acc = 0, setOct = -1; bool rest = r.chance(1, 5);
        if (!rest) { if (r.chance(1, 3)) { setOct = oct = r.range(2, 6); x += strf("*%d", oct); } if (r.chance(1, 5)) { acc = r.chance(1, 2) ? 1 : -1; x += acc > 0 ? "#" : "&"; } x += nm[k]; } else x += r.chance(1, 2) ? "r" : "R";
        int d = r.below(6); x += num(d); double ms = tick * (1 << (5 - d)); if (r.chance(1, 4)) { int z = r.below(3); x += ".:;"[z]; ms *= z == 0 ? 1.5 : z == 1 ? 1.75 : 2.0 / 3; }
        put(x); q.ms = ms; q.midi = rest ? 0 : 12 * (oct + 1) + sem[k] + acc; q.on = style == 0 ? ms * 15 / 16 : style == 1 ? ms : ms / 2; t.pass.push_back(q); if (repAt >= 0 && i >= repAt) { Tn z = q; if (z.midi) z.midi = 12 + sem[k] + acc; rep.push_back(z); repOct.push_back(setOct); }
        if (repAt >= 0 && i == repEnd - 1) { put(strf("@%d", count)); put(")"); if (count == 0) { t.endless = true; break; } for (int z = 0; z < count; z++) turn(); repAt = -2; }
    }
    if (t.endless) { /* the part before the repeat, then the repeat for ever: keep two turns for the comparison */ turn(); }
    o += m + body + nl + ci(r, "END:IMELODY") + (r.chance(3, 4) ? nl : ""); t.text = o; putS(t.file, o.c_str()); return t;
}
// ---- RTTTL
Tune genRtttl(Rng &r) {
    Tune t; t.type = EAS_FILE_RTTTL; int tl = r.range(1, 30); for (int i = 0; i < tl; i++) t.title += (char)(r.chance(4, 5) ? 'a' + r.below(26) : r.chance(1, 2) ? 'A' + r.below(26) : ' '); if (t.title[0] == ' ') t.title[0] = 'T';
    int bpm = r.range(25, 900), dflt = 1 << r.below(6), oct = r.range(4, 7), loop = r.chance(1, 2) ? 0 : r.chance(1, 4) ? r.range(4, 14) : r.range(1, 3); char style = "nsc"[r.below(3)]; if (r.chance(1, 10)) loop = 15; std::vector<std::string> h; h.push_back("b=" + num(bpm)); h.push_back("d=" + num(dflt)); if (r.chance(2, 3)) h.push_back("o=" + num(oct)); else oct = 5;
    if (loop) h.push_back("l=" + num(loop)); if (r.chance(1, 2)) h.push_back(std::string("s=") + style); else style = 'n'; for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[r.below(i)]);
    std::string o = t.title + ":"; for (size_t i = 0; i < h.size(); i++) o += (i ? "," : "") + ci(r, h[i]) + (r.chance(1, 8) ? " " : ""); o += ":"; double tick = 60000.0 / 8 / bpm; int n = r.range(1, 24); static const char *nm[] = {"c", "d", "e", "f", "g", "a", "b", "h"}; static const int sem[] = {0, 2, 4, 5, 7, 9, 11, 11};
    for (int i = 0; i < n; i++) {
        int d = dflt; std::string x; if (r.chance(2, 3)) { d = 1 << r.below(6); x += num(d); } double ms = tick * 32 / d; bool rest = r.chance(1, 5); int k = r.below(8), acc = 0, oc = oct; if (rest) x += "p"; else { x += r.chance(1, 6) ? std::string(1, (char)toupper(nm[k][0])) : nm[k]; bool sharp = r.chance(1, 4) && nm[k][0] != 'b'; if (sharp) { acc = 1; x += "#"; } }
        bool dot = r.chance(1, 5), dotFirst = r.chance(1, 2), own = !rest && r.chance(1, 2); if (dot && dotFirst) x += "."; if (own) { oc = r.range(4, 7); x += num(oc); } if (dot && !dotFirst) x += "."; if (dot) ms *= 1.5;
        if (r.chance(1, 12)) x += " "; o += (i ? "," : "") + x; Tn q; q.ms = ms; q.midi = rest ? 0 : 12 * oc + sem[k] + acc; q.on = style == 'n' ? ms * 15 / 16 : style == 'c' ? ms : ms / 2; t.pass.push_back(q);
    }
    if (r.chance(1, 2)) o += ",";
    t.passes = loop == 15 ? 3 : loop + 1; t.endless = loop == 15; t.text = o; putS(t.file, o.c_str()); return t;
}
// ---- OTA
struct Bits { Bytes b; int n = 0; void put(unsigned v, int k) { for (int i = k - 1; i >= 0; i--) { if (n % 8 == 0) b.push_back(0); if (v >> i & 1) b.back() |= 0x80 >> (n % 8); n++; } } void align() { n = (n + 7) / 8 * 8; } };
const int otaBpm[32] = {25, 28, 31, 35, 40, 45, 50, 56, 63, 70, 80, 90, 100, 112, 125, 140, 160, 180, 200, 225, 250, 285, 320, 355, 400, 450, 500, 565, 635, 715, 800, 900};
Tune genOta(Rng &r) {
    Tune t; t.type = EAS_FILE_OTA; Bits b; bool uni = r.chance(1, 4); b.put(uni ? 3 : 2, 8); b.put(0x25, 7); b.align(); if (uni) { b.put(0x22, 7); b.align(); } b.put(0x1d, 7);
    if (r.chance(2, 3)) { int n = r.below(16); b.put(1, 3); b.put(n, 4); for (int i = 0; i < n; i++) { char x = (char)('a' + r.below(26)); if (uni) b.put(0, 8); b.put((unsigned char)x, 8); t.title += x; } if (uni) t.title = ""; } else b.put(2, 3);
    int np = r.range(1, 6); b.put(np, 8); double tick = 60000.0 / 8 / 63; int style = 0, scale = 0; struct Pat { bool def = false; std::vector<int> kind; std::vector<int> arg; } pats[4];
    // the interpreter of the instructions, for the expected notes
    auto play = [&](const Pat &p) { for (size_t i = 0; i < p.kind.size(); i++) { int a = p.arg[i]; switch (p.kind[i]) { case 1: { int nt = a >> 5, d = a >> 2 & 7, mo = a & 3; double ms = tick * (32 >> d); ms *= mo == 1 ? 1.5 : mo == 2 ? 1.75 : mo == 3 ? 2.0 / 3 : 1; Tn q; q.ms = ms; q.midi = nt ? 59 + 12 * scale + nt : 0; q.on = style == 0 ? ms * 15 / 16 : style == 1 ? ms : ms / 2; t.pass.push_back(q); break; } case 2: scale = a; break; case 3: style = a; break; case 4: tick = 60000.0 / 8 / otaBpm[a]; break; default: break; } } };
    for (int k = 0; k < np; k++) {
        int id = r.below(4), loop = r.chance(1, 2) ? 0 : r.range(1, 3); bool last = k == np - 1; if (last && r.chance(1, 8)) loop = 15; bool reuse = pats[id].def && r.chance(2, 3); b.put(0, 3); b.put(id, 2); b.put(loop, 4);
        if (reuse) b.put(0, 8); else { Pat p; p.def = true; int n = r.range(1, 10); bool any = false; for (int i = 0; i < n; i++) { int kind = r.chance(3, 5) || (i == n - 1 && !any) ? 1 : r.range(2, 5), a = 0; if (kind == 1) { a = r.below(13) << 5 | r.below(6) << 2 | r.below(4); any = true; } else if (kind == 2) a = r.below(4); else if (kind == 3) a = r.below(3); else if (kind == 4) a = r.below(32); else a = r.range(6, 15); p.kind.push_back(kind); p.arg.push_back(a); }
            b.put(n, 8); for (int i = 0; i < n; i++) { b.put(p.kind[i], 3); static const int w[] = {0, 9, 2, 2, 5, 4}; b.put(p.arg[i], w[p.kind[i]]); } pats[id] = p; }
        if (loop == 15) { t.endless = true; loop = 2; } for (int z = 0; z <= loop; z++) play(pats[id]);
        t.text += strf(" pattern %d %s loop %d%s", id, reuse ? "again" : "defined", loop, t.endless ? " (endless)" : "");
    }
    b.align(); if (r.chance(1, 2)) b.put(0, 8); t.file = b.b; return t;
}
struct Meta { std::vector<std::pair<int, std::string>> got; Bytes buf; int size; };
void metaCb(E_EAS_METADATA_TYPE type, char *text, EAS_VOID_PTR p) { Meta *m = (Meta *)p; m->got.push_back({(int)type, std::string(text)}); }

// the stream volume of a tune: a decibel a step, like that of any other file, and setting it to what it is changes nothing
void volCase(Ctx &c, int kind) {
    Rng &r = c.rng; Tune t = kind == 0 ? genImy(r) : kind == 1 ? genRtttl(r) : genOta(r); c.caseHash = fnv(t.file); int v[2] = {r.range(40, 100), r.range(40, 100)}, nb = r.range(20, 80); double lev[2]; Pcm p[4]; c.sample = strf("tune %d volumes %d %d: ", kind, v[0], v[1]) + hexs(t.file, 60);
    for (int i = 0; i < 4; i++) { Eas e; EAS_HANDLE s = e.openPrep(t.file); if (!s) { c.violation("refused", "a well-formed tune is refused: %s", c.sample.c_str()); return; } EAS_I32 d = EAS_GetVolume(e.h, s); if (i == 3) { EAS_SetVolume(e.h, s, 50); EAS_SetVolume(e.h, s, d); } else if (i < 2) { EAS_RESULT x = EAS_SetVolume(e.h, s, v[i]); if (x || EAS_GetVolume(e.h, s) != v[i]) c.violation("volume", "volume %d gives %ld and reads back %ld: %s", v[i], (long)x, (long)EAS_GetVolume(e.h, s), c.sample.c_str()); } e.render(&p[i], nb); double z = 0; for (auto x : p[i]) z += (double)x * x; if (i < 2) lev[i] = sqrt(z / p[i].size()); }
    c.nontrivial = !silent(p[2]); if (firstDiff(p[2], p[3]) >= 0) c.violation("volume", "setting the volume to what it was changes the sound: %s", c.sample.c_str());
    if (peak(p[0]) < 300 || peak(p[1]) < 300 || peak(p[0]) > 32000 || peak(p[1]) > 32000) return; double db = 20 * log10(lev[0] / lev[1]); c.count("volumes_compared"); if (fabs(db - (v[0] - v[1])) > 0.3 + 40 / std::min(lev[0], lev[1])) c.violation("volume", "volumes %d and %d differ by %.2f dB: %s", v[0], v[1], db, c.sample.c_str()); }
// the lengths of the notes and of the gaps between them, with an instrument that starts and stops at once
void gapCase(Ctx &c, int kind) {
    Rng &r = c.rng; Tune t = kind == 0 ? genImy(r) : kind == 1 ? genRtttl(r) : genOta(r); const char *name = kind == 0 ? "iMelody" : kind == 1 ? "RTTTL" : "OTA"; c.caseHash = fnv(t.file); c.sample = strf("%s lengths %s", name, kind == 2 ? (hexs(t.file, 48) + t.text).c_str() : t.text.substr(0, 300).c_str());
    std::vector<Tn> all; for (int k = 0; k < t.passes; k++) all.insert(all.end(), t.pass.begin(), t.pass.end()); double total = 0; size_t n = 0; for (; n < all.size() && total < 30000; n++) total += all[n].ms; all.resize(n); if (t.fades) return;
    DlsSpec ds; DlsWave w; w.rate = 44100; w.s.resize(101); for (int k = 0; k <= 100; k++) w.s[k] = k % 100 < 50 ? 12000 : -12000; w.w.present = true; w.w.loops = 1; w.w.ll = 100; ds.waves.push_back(w); for (uint32_t b : {0u, 0x7900u}) { DlsInst in; in.bank = b; in.prog = 80; in.r.push_back(DlsRegion()); in.art.push_back({0, 0, 0x20a, 0, 1000 * 65536}); ds.inst.push_back(in); }
    Eas e; MemFile *f = e.file(buildDls(ds)); EAS_RESULT x = EAS_LoadDLSCollection(e.h, nullptr, f->locator()); if (x) { c.violation("bank", "a bank is refused: %ld", (long)x); return; }
    EAS_HANDLE s = e.openPrep(t.file); if (!s) { c.violation(std::string("refused:") + name, "a well-formed %s file is refused; %s", name, c.sample.c_str()); return; }
    Pcm o; if (e.render(&o, (int)(total / e.bufMs()) + 8)) { c.violation(std::string("render:") + name, "rendering fails; %s", c.sample.c_str()); return; } c.nontrivial = !silent(o); c.count("tunes_timed");
    auto level = [&](double from, double to, bool low) { int ext = low ? 32767 : 0; for (double p = from; p + 3 <= to; p += 3) { size_t a = (size_t)(p * e.rate / 1000), z = (size_t)((p + 3) * e.rate / 1000); if (z * e.chans > o.size()) break; int v = peak(o, a, z - a); ext = low ? std::min(ext, v) : std::max(ext, v); } return ext; };
    double at = 0; int i = 0; for (auto &q : all) { double tol = 14 + i * 0.02 + at * 0.002; if (q.midi) { double a = at + tol, z = at + q.on - tol; if (z - a > 6) { c.count("notes_timed"); if (level(a, z, true) < 60) { c.violation(std::string("note-length:") + name, "note %d (%.1f ms of %.1f from %.1f) stops early or begins late; %s", i, q.on, q.ms, at, c.sample.c_str()); return; } } }
        double a = at + (q.midi ? q.on : 0) + tol + 24, z = at + q.ms - tol; if (z - a > 6) { c.count(q.midi ? "gaps_timed" : "rests_timed"); int v = level(a, z, false); if (v > 40) { c.violation(std::string("gap:") + name, "%s %d (%.1f of %.1f ms from %.1f) sounds at level %d where it is silent as written; %s", q.midi ? "the gap after note" : "the rest", i, q.on, q.ms, at, v, c.sample.c_str()); return; } }
        at += q.ms; i++; }
}
void tuneCase(Ctx &c, int kind) {
    Rng &r = c.rng; Tune t = kind == 0 ? genImy(r) : kind == 1 ? genRtttl(r) : genOta(r); const char *name = kind == 0 ? "iMelody" : kind == 1 ? "RTTTL" : "OTA"; c.caseHash = fnv(t.file); c.sample = strf("%s %s", name, kind == 2 ? (hexs(t.file, 48) + t.text).c_str() : t.text.substr(0, 300).c_str());
    std::vector<Tn> all; for (int k = 0; k < t.passes; k++) all.insert(all.end(), t.pass.begin(), t.pass.end()); for (auto &n : all) t.total += n.ms; if (t.total > 60000) { while (t.total > 45000 && all.size() > 1) { t.total -= all.back().ms; all.pop_back(); } t.endless = true; /* cut short: only the beginning is compared */ }
    Eas e; EAS_HANDLE s = nullptr; Meta m; m.size = r.chance(1, 3) ? r.range(1, 6) : 64; m.buf.resize(m.size + 8, 0xA5); EAS_RESULT x = e.open(t.file, &s); if (x || !s) { c.violation(std::string("refused:") + name, "a well-formed %s file is refused: %ld; %s", name, (long)x, c.sample.c_str()); return; }
    x = EAS_Prepare(e.h, s); if (x) { c.violation(std::string("refused:") + name, "a well-formed %s file cannot be prepared: %ld; %s", name, (long)x, c.sample.c_str()); return; }
    bool meta = r.chance(1, 2); if (meta && (x = EAS_RegisterMetaDataCallback(e.h, s, metaCb, (char *)m.buf.data(), m.size, &m))) { c.violation("metadata:register", "EAS_RegisterMetaDataCallback returns %ld", (long)x); return; }
    EAS_I32 ft = -1; x = EAS_GetFileType(e.h, s, &ft); if (x || ft != t.type) c.violation(std::string("type:") + name, "a %s file is reported as type %ld (%ld)", name, (long)ft, (long)x);
    EAS_I32 len = -1; bool parsed = meta || r.chance(1, 3); if (parsed) { x = EAS_ParseMetaData(e.h, s, &len); if (x) c.violation(std::string("length:") + name, "EAS_ParseMetaData returns %ld", (long)x); else if (!t.endless) { c.count("lengths"); if (fabs(len - t.total) > 3 + t.total * 0.002 + all.size() * 0.02) c.violation(std::string("length:") + name, "the length is reported as %ld ms, the notes last %.1f; %s", (long)len, t.total, c.sample.c_str()); } }
    if (meta) { for (int i = 0; i < 8; i++) if (m.buf[m.size + i] != 0xA5) { c.violation("metadata-overrun", "a %d-byte metadata buffer is written past its end by the %s reader; %s", m.size, name, c.sample.c_str()); return; } for (auto want : {std::make_pair((int)EAS_METADATA_TITLE, t.title), std::make_pair((int)EAS_METADATA_AUTHOR, t.author)}) if (!want.second.empty()) { std::string w = want.second.substr(0, m.size - 1); bool ok = false; for (auto &g : m.got) if (g.first == want.first && g.second == w) ok = true; c.count("metadata_checked"); if (!ok) c.violation(std::string("metadata:") + name, "\"%s\" is not delivered (buffer of %d); %s", want.second.c_str(), m.size, c.sample.c_str()); } }
    // play
    double start = 0; bool seek = !t.endless && t.total > 100 && r.chance(1, 3); Pcm o; if (seek) { int k = r.range(0, 5); e.render(nullptr, k); start = r.range(0, (int)t.total - 1); x = EAS_Locate(e.h, s, (EAS_I32)start, EAS_FALSE); if (x) { c.violation(std::string("seek:") + name, "EAS_Locate returns %ld", (long)x); return; } c.count("seeks"); }
    int lim = (int)((t.total - start + 400) / e.bufMs()) + 8; if (t.endless) lim = (int)(t.total / e.bufMs()) + 1; double ended = -1; int pauseAt = r.chance(1, 4) ? r.below(std::max(1, lim - 8)) : -1; double paused = 0;
    for (int b = 0; b < lim; b++) {
        if (b == pauseAt && !seek) { EAS_STATE st = e.state(s); if (st == EAS_STATE_PLAY || st == EAS_STATE_READY) { x = EAS_Pause(e.h, s); if (x) { c.violation(std::string("pause:") + name, "EAS_Pause returns %ld in state %ld", (long)x, (long)st); return; } int k = r.range(1, 30); e.render(nullptr, k); EAS_I32 l1 = e.loc(s); e.render(nullptr, 3); if (e.loc(s) != l1) c.violation(std::string("pause:") + name, "the location moves while paused"); if (e.state(s) != EAS_STATE_PAUSED && e.state(s) != EAS_STATE_PAUSING) c.violation(std::string("pause:") + name, "state %ld after a pause", (long)e.state(s)); x = EAS_Resume(e.h, s); if (x) { c.violation(std::string("pause:") + name, "EAS_Resume returns %ld", (long)x); return; } paused++; c.count("pauses"); } }
        if (e.render(&o, 1) != EAS_SUCCESS) { c.violation(std::string("render:") + name, "rendering fails in buffer %d; %s", b, c.sample.c_str()); return; } EAS_STATE st = e.state(s); if (ended < 0 && st != EAS_STATE_PLAY && st != EAS_STATE_READY) { ended = start + (b + 1) * e.bufMs(); if (st != EAS_STATE_STOPPING && st != EAS_STATE_STOPPED) c.violation(std::string("state:") + name, "state %ld while playing", (long)st); }
        if (ended >= 0 && (b * e.bufMs() + start) > ended + 60) break;
    }
    c.nontrivial = !silent(o); c.count("tunes"); c.count(kind == 0 ? "imelody" : kind == 1 ? "rtttl" : "ota");
    double tol = 2 * e.bufMs() + 2 + t.total * 0.002 + all.size() * 0.02; if (t.endless) { if (ended >= 0) c.violation(std::string("end:") + name, "an endless (or longer) tune stops at %.1f ms; %s", ended, c.sample.c_str()); } else if (ended < 0) c.violation(std::string("end:") + name, "the tune of %.1f ms does not end (played to %.1f); %s", t.total, start + lim * e.bufMs(), c.sample.c_str()); else if (fabs(ended - t.total) > tol + (seek ? 2 * e.bufMs() : 0)) c.violation(std::string("end:") + name, "the tune of %.1f ms ends at %.1f; %s", t.total, ended, c.sample.c_str());
    if (c.failed()) return;
    // the notes: pitch in the middle of every long enough note
    if (!seek && !paused) { double at = 0; int i = 0; for (auto &n : all) { double from = at + (i ? 220 : 25), to = at + n.on - 8; /* the note before dies away */ if (n.midi && to - from > 60) { double f = 440 * pow(2, (n.midi - 69) / 12.0); size_t a = (size_t)(from * e.rate / 1000), z = std::min<size_t>((size_t)(to * e.rate / 1000), o.size() / e.chans); if (z > a + e.rate / 20 && f < 2000 && f > 120 && (z - a) * f > 8.0 * e.rate) { double got = freqOf(o, a, std::min<size_t>(z - a, e.rate / 8), e.rate, f * 0.8, f * 1.3); if (got == 0 && z - a > (size_t)e.rate / 8) got = freqOf(o, z - e.rate / 8, e.rate / 8, e.rate, f * 0.8, f * 1.3); if ((got == 0 || peak(o, a, z - a) < 300) && peak(o, a, z - a) >= 100) { c.count("notes_unclear"); at += n.ms; i++; continue; } c.count("notes_measured"); if (c.verbose && getenv("C31_ERR")) printf("N %d %d %.2f %.2f\n", kind, n.midi, got, f); if (t.fades && peak(o, a, z - a) < 100) { c.count("faded_out"); at += n.ms; i++; continue; } if (peak(o, a, z - a) < 100) { c.violation(std::string("silent-note:") + name, "note %d (key %d, %.1f..%.1f ms) is silent; %s", i, n.midi, from, to, c.sample.c_str()); return; } if (fabs(got / f - 1) > noteTol && t.kindImy) { /* a loud note may outlast a quiet one */ auto tone = [&](double g) { double x = 0, y = 0, w = 6.283185307179586 * g / e.rate; for (size_t i = a; i < z; i++) { double v = o[i * e.chans] * (0.5 - 0.5 * cos(6.283185307179586 * (i - a) / (z - a))); x += v * cos(w * i); y += v * sin(w * i); } return sqrt(x * x + y * y) / (z - a); }; double here = tone(f), near = std::max(tone(f * 0.9439), tone(f * 1.0595)); if (here > 5 && here > 2 * near) { c.count("outlasted"); at += n.ms; i++; continue; } } if (fabs(got / f - 1) > noteTol) { c.violation(std::string("pitch:") + name, "note %d (key %d, %.1f..%.1f ms) has %.1f Hz instead of %.1f; %s", i, n.midi, from, to, got, f, c.sample.c_str()); return; } } } at += n.ms; i++; } }
    // again from the start after the end or in the middle
    if (r.chance(1, 3)) { x = EAS_Locate(e.h, s, 0, EAS_FALSE); if (x) { c.violation(std::string("seek:") + name, "going back to the start returns %ld", (long)x); return; } Pcm p; e.render(&p, std::min(lim, 40)); bool first = !all.empty() && all[0].midi && all[0].on > 60; if (first && peak(p) < 100) c.violation(std::string("again:") + name, "silent after going back to the start; %s", c.sample.c_str()); c.count("again"); }
    x = EAS_CloseFile(e.h, s); if (x) c.violation(std::string("close:") + name, "EAS_CloseFile returns %ld", (long)x);
}
// ---- XMF
Bytes vlq(uint32_t v) { Bytes b; putVL(b, v); return b; }
// a node around its contents; offsets of the contents within the node are returned
Bytes xnode(int items, int refType, const Bytes &body, int metaLen, size_t *at = nullptr) {
    for (uint32_t total = body.size() + 4;; total++) { Bytes head; for (uint32_t hl = 1;; hl++) { head.clear(); cat(head, vlq(total)); cat(head, vlq(items)); cat(head, vlq(hl)); cat(head, vlq(metaLen)); for (int i = 0; i < metaLen; i++) head.push_back(0x11); if (head.size() == hl) break; if (hl > 400) break; } Bytes n = head; cat(n, vlq(refType)); if (at) *at = n.size(); cat(n, body); if (n.size() == total) return n; if (n.size() < total || total > body.size() + 600) return n; }
}
Bytes buildXmf(Rng &r, const Bytes &smf, const Bytes *dls) {
    Bytes pre; putS(pre, "XMF_"); int v = r.below(3); putS(pre, v == 0 ? "2.00" : v == 1 ? "1.00" : "1.01"); if (v == 0) { put32(pre, 2); put32(pre, 1); }
    int mt = r.below(6); bool byOffset = r.chance(1, 3); Bytes data; std::vector<const Bytes *> items; if (dls) items.push_back(dls); items.push_back(&smf); if (items.size() > 1 && r.chance(1, 2)) std::swap(items[0], items[1]);
    // fixed-width (5 byte) quantities for the header so that its size is known
    auto vl4 = [](uint32_t x) { Bytes b; for (int i = 3; i >= 0; i--) b.push_back((uint8_t)((x >> (7 * i) & 0x7f) | (i ? 0x80 : 0))); return b; };
    size_t treeStart = pre.size() + 4 + 1 + mt + 4 + 4; Bytes tree; int metaLen = r.chance(1, 2) ? 0 : r.below(20);
    if (!byOffset) { Bytes body; for (auto *i : items) cat(body, xnode(0, 1, *i, r.chance(1, 2) ? 0 : r.below(10))); if (r.chance(1, 3)) { Bytes inner = xnode((int)items.size(), 1, body, metaLen); tree = xnode(1, 1, inner, 0); } else tree = xnode((int)items.size(), 1, body, metaLen); }
    Bytes tail; if (byOffset) { size_t len = 0; for (int round = 0; round < 3; round++) { Bytes body; size_t off = treeStart + len; for (auto *i : items) { cat(body, xnode(0, 2, vl4((uint32_t)off), 0)); off += i->size(); } tree = xnode((int)items.size(), 1, body, metaLen); len = tree.size(); } for (auto *i : items) cat(tail, *i); }
    size_t total = treeStart + tree.size() + tail.size() + 1; Bytes o = pre; cat(o, vl4((uint32_t)total)); o.push_back((uint8_t)mt); for (int i = 0; i < mt; i++) o.push_back(0x22); cat(o, vl4((uint32_t)treeStart)); cat(o, vl4((uint32_t)(treeStart + tree.size() - 1))); cat(o, tree); cat(o, tail); o.push_back(0); return o;
}
void xmfCase(Ctx &c) {
    Rng &r = c.rng; Bytes smf = genSong(r, false, 40), dls; bool bank = r.chance(2, 3); if (bank) { DlsSpec d = genDlsSpec(r, false); dls = buildDls(d); } Bytes x = buildXmf(r, smf, bank ? &dls : nullptr); c.caseHash = fnv(x); c.sample = strf("%zu-byte XMF, %s", x.size(), bank ? "with a bank" : "song only");
    Eas a, b; Bytes g; bool global = r.chance(1, 3); if (global) { g = buildDls(genDlsSpec(r, false)); if (EAS_LoadDLSCollection(a.h, nullptr, a.file(g)->locator())) global = false; else EAS_LoadDLSCollection(b.h, nullptr, b.file(g)->locator()); }
    EAS_HANDLE s = nullptr, u = nullptr; EAS_RESULT q; bool bankOk = true; { Eas t; EAS_HANDLE h = t.stream(); if (bank && EAS_LoadDLSCollection(t.h, h, t.file(dls)->locator())) bankOk = false; }
    q = a.open(x, &s); if (q || !s) { c.violation("refused:XMF", "a well-formed XMF file is refused: %ld; %s", (long)q, hexs(x, 64).c_str()); return; } q = EAS_Prepare(a.h, s); if (!bankOk) { if (!q) c.count("bad_bank_accepted"); EAS_CloseFile(a.h, s); c.count("bad_bank"); return; } if (q) { c.violation("refused:XMF", "a well-formed XMF file cannot be prepared: %ld", (long)q); return; }
    EAS_I32 ft = -1, fs = -1; EAS_GetFileType(a.h, s, &ft); u = b.openPrep(smf); if (!u) return; EAS_GetFileType(b.h, u, &fs); if (!(fs == EAS_FILE_SMF0 && ft == EAS_FILE_XMF0) && !(fs == EAS_FILE_SMF1 && ft == EAS_FILE_XMF1)) c.violation("type:XMF", "type %ld for a song of type %ld", (long)ft, (long)fs);
    if (bank) { q = EAS_LoadDLSCollection(b.h, u, b.file(dls)->locator()); if (q) { c.count("bank_refused_late"); return; } }
    EAS_I32 l1 = -1, l2 = -2; if (r.chance(1, 3)) { EAS_RESULT q1 = EAS_ParseMetaData(a.h, s, &l1), q2 = EAS_ParseMetaData(b.h, u, &l2); if (q1 != q2 || (!q1 && l1 != l2)) c.violation("length:XMF", "length %ld/%ld, of the song in it %ld/%ld", (long)q1, (long)l1, (long)q2, (long)l2); }
    int n = r.range(20, 200), seekAt = r.chance(1, 3) ? r.below(n) : -1, pauseAt = r.chance(1, 4) ? r.below(n) : -1; Pcm pa, pb;
    for (int i = 0; i < n; i++) { if (i == seekAt) { EAS_I32 to = r.below(3000); EAS_RESULT q1 = EAS_Locate(a.h, s, to, EAS_FALSE), q2 = EAS_Locate(b.h, u, to, EAS_FALSE); if (q1 != q2) c.violation("differs:XMF", "EAS_Locate %ld, on the song alone %ld", (long)q1, (long)q2); } if (i == pauseAt) { EAS_RESULT q1 = EAS_Pause(a.h, s), q2 = EAS_Pause(b.h, u); a.render(&pa, 3); b.render(&pb, 3); EAS_RESULT q3 = EAS_Resume(a.h, s), q4 = EAS_Resume(b.h, u); if (q1 != q2 || q3 != q4) c.violation("differs:XMF", "pause/resume %ld/%ld, on the song alone %ld/%ld", (long)q1, (long)q3, (long)q2, (long)q4); } EAS_RESULT q1 = a.render(&pa, 1), q2 = b.render(&pb, 1); if (q1 != q2) c.violation("differs:XMF", "render %ld, the song alone %ld", (long)q1, (long)q2); if (a.state(s) != b.state(u) || a.loc(s) != b.loc(u)) { c.violation("differs:XMF", "state %ld location %ld, the song alone %ld %ld", (long)a.state(s), (long)a.loc(s), (long)b.state(u), (long)b.loc(u)); break; } }
    if (pa != pb) c.violation("differs:XMF", "frame %ld of the XMF file differs from its song%s played apart; %s", firstDiff(pa, pb), bank ? " and bank" : "", c.sample.c_str()); c.nontrivial = !silent(pa); c.count("xmf");
    q = EAS_CloseFile(a.h, s); if (q) c.violation("close:XMF", "EAS_CloseFile returns %ld", (long)q); EAS_CloseFile(b.h, u);
    Pcm p1 = playProbe(a), p2 = playProbe(b); if (p1 != p2) c.violation("after:XMF", "another song sounds different after an XMF file was played and closed%s", global ? " (with a bank for all streams)" : "");
}
// ---- JET
void jchunk(Bytes &o, const char *id, const Bytes &d) { putS(o, id); putLE32(o, (uint32_t)d.size()); cat(o, d); }
struct JetEv { uint32_t tick; int track, ch, cc, val; };
struct JetSeg { Bytes smf; std::vector<JetEv> ev; uint32_t ms; };
JetSeg genSeg(Rng &r) {
    JetSeg s; int nt = r.range(1, 4); s.ms = r.range(150, 900); std::vector<Track> ts; SmfOpt o; o.division = 500; o.format = 1; std::vector<std::pair<uint32_t, JetEv>> all;
    for (int k = 0; k < nt; k++) { Track t; int n = r.range(1, 6); for (int i = 0; i < n; i++) { uint32_t at = r.below(s.ms - 60); int ch = r.below(9), key = r.range(40, 80); t.push_back(evNote(at, ch, key, 100)); t.push_back(evOff(at + 40, ch, key)); if (r.chance(2, 3)) { JetEv e{at, k, ch, r.range(80, 83), (int)r.below(128)}; s.ev.push_back(e); t.push_back(evCC(at, ch, e.cc, e.val)); } } t.push_back(evText(s.ms, 1, "e")); ts.push_back(t); }
    s.smf = buildSmf(ts, o); return s;
}
Bytes buildJet(Rng &r, const std::vector<Bytes> &smf, const std::vector<Bytes> &dls, const Bytes &app) {
    Bytes b, i; auto pair = [&](const char *k, uint32_t v) { putS(i, k); putLE32(i, v); }; pair("JVER", 0x01000000); pair("SMF#", (uint32_t)smf.size()); pair("DLS#", (uint32_t)dls.size()); jchunk(b, "JINF", i); if (r.chance(1, 2)) jchunk(b, "JCOP", Bytes(r.below(20), 'c'));
    bool first = r.chance(1, 2); for (int z = 0; z < 2; z++) if ((z == 0) == first) for (auto &d : dls) jchunk(b, "JDLS", d); else for (auto &s : smf) jchunk(b, "JSMF", s); if (!app.empty()) jchunk(b, "JAPP", app); Bytes o; putS(o, "JET "); putLE32(o, (uint32_t)b.size() + 8); cat(o, b); return o;
}
void jetCase(Ctx &c) {
    Rng &r = c.rng; Eas e; int ns = r.range(1, 4); std::vector<JetSeg> segs; std::vector<Bytes> smf, dls; for (int i = 0; i < ns; i++) { segs.push_back(genSeg(r)); smf.push_back(segs.back().smf); } int nd = r.below(3); for (int i = 0; i < nd; i++) { Bytes d; for (int k = 0; k < 5; k++) { d = buildDls(genDlsSpec(r, false)); Eas t; EAS_HANDLE h = t.stream(); if (!EAS_LoadDLSCollection(t.h, h, t.file(d)->locator())) break; d.clear(); } if (!d.empty()) dls.push_back(d); } nd = (int)dls.size();
    Bytes app(r.chance(1, 2) ? r.range(1, 40) : 0, 0x33), jf = buildJet(r, smf, dls, app); c.caseHash = fnv(jf); std::string tr;
    auto must = [&](EAS_RESULT q, const char *w) { if (q) c.violation(std::string("jet:") + w, "%s returns %ld;%s", w, (long)q, tr.c_str()); return q == 0; };
    if (!must(JET_Init(e.h, nullptr, sizeof(S_JET_CONFIG)), "JET_Init")) return; if (!must(JET_OpenFile(e.h, e.file(jf)->locator()), "JET_OpenFile")) return;
    EAS_I32 ao = 0, as = 0; EAS_RESULT q = JET_GetAppData(e.h, &ao, &as); if (app.empty() ? q == 0 : (q != 0 || as != (EAS_I32)app.size() || ao + as > (EAS_I32)jf.size() || memcmp(&jf[ao], app.data(), app.size()))) c.violation("jet:app-data", "JET_GetAppData returns %ld, %ld bytes at %ld", (long)q, (long)as, (long)ao);
    struct Q { int seg, lib, rep, user; uint32_t mute; }; std::vector<Q> plan; int n = r.range(1, 6); for (int i = 0; i < n; i++) { Q z; z.seg = r.below(ns); z.lib = nd && r.chance(1, 2) ? (int)r.below(nd) : -1; z.rep = r.chance(1, 2) ? 0 : r.range(1, 3); z.user = r.below(200); z.mute = r.chance(1, 3) ? 1u << r.below(4) : 0; plan.push_back(z); tr += strf(" segment %d user %d repeat %d mute %x lib %d;", z.seg, z.user, z.rep, z.mute, z.lib); }
    c.sample = strf("JET file of %d segments, %d banks:%s", ns, nd, tr.c_str()); size_t next = 0; std::vector<S_JET_EVENT> got; auto feed = [&] { while (next < plan.size()) { auto &z = plan[next]; S_JET_STATUS st; memset(&st, 0, sizeof st); JET_Status(e.h, &st); EAS_RESULT x = JET_QueueSegment(e.h, z.seg, z.lib, z.rep, r.chance(1, 4) ? r.range(-12, 12) : 0, z.mute, (uint8_t)z.user); if (x == EAS_ERROR_QUEUE_IS_FULL || x == EAS_ERROR_MAX_STREAMS_OPEN || x == EAS_ERROR_NO_VIRTUAL_SYNTHESIZER) { c.count("queue_full"); if (st.numQueuedSegments == 0) c.violation("jet:JET_QueueSegment", "returns %ld with an empty queue;%s", (long)x, tr.c_str()); break; } if (!must(x, "JET_QueueSegment")) return; next++; } };
    feed(); if (c.failed()) return; if (!must(JET_Play(e.h), "JET_Play")) return; double want = 0; for (auto &z : plan) want += (double)segs[z.seg].ms * (z.rep + 1); int lim = (int)((want + 1500.0 * plan.size() + 2000) / e.bufMs()); std::vector<int> users; bool done = false; Pcm o; int pauses = 0; bool cut = false; std::vector<uint32_t> locs;
    for (int b = 0; b < lim; b++) {
        if (e.render(&o, 1) != EAS_SUCCESS) { c.violation("jet:render", "rendering fails;%s", tr.c_str()); return; } EAS_U32 raw; S_JET_EVENT ev; while (JET_GetEvent(e.h, &raw, &ev)) { got.push_back(ev); S_JET_EVENT e2; JET_ParseEvent(raw, &e2); if (memcmp(&ev, &e2, sizeof ev)) c.violation("jet:parse-event", "JET_ParseEvent differs from JET_GetEvent"); }
        S_JET_STATUS st; memset(&st, 0, sizeof st); if (!must(JET_Status(e.h, &st), "JET_Status")) return; if (st.currentUserID >= 0 && !st.paused && (users.empty() || (int)locs.back() != st.currentPlayingSegment)) { users.push_back((int)st.currentUserID); locs.push_back(st.currentPlayingSegment); }
        size_t had = next; feed(); if (c.failed()) return; if (st.numQueuedSegments == 0 && had == plan.size()) { done = true; break; } if (st.paused && next == plan.size()) { /* a gap in the queue stops playback */ JET_Play(e.h); }
        if (!st.paused && r.chance(1, 120)) { EAS_RESULT x = JET_Pause(e.h); if (x == 0) { pauses++; Pcm p; e.render(&p, 40); p.clear(); e.render(&p, 2); JET_Status(e.h, &st); if (!st.paused) c.violation("jet:pause", "JET_Status does not report the pause"); while (JET_GetEvent(e.h, &raw, &ev)) got.push_back(ev); if (!must(JET_Play(e.h), "JET_Play after a pause")) return; } }
    }
    c.count("jet"); c.count("jet_pauses", pauses); c.nontrivial = !silent(o); if (!done) { S_JET_STATUS st; memset(&st, 0, sizeof st); JET_Status(e.h, &st); for (auto &z : plan) if (z.lib >= 0) { done = cut = true; c.count("jet_long_releases"); break; } /* notes of a bank may fade for long */ } if (!done) { c.violation("jet:end", "%zu segments of %.0f ms in all have not finished after %.0f ms;%s", plan.size(), want, lim * e.bufMs(), tr.c_str()); return; }
    // events: every pass of every segment delivers its own, in order of time
    std::vector<std::vector<int>> exp; for (auto &z : plan) for (int k = 0; k <= z.rep; k++) { auto ev = segs[z.seg].ev; std::stable_sort(ev.begin(), ev.end(), [](const JetEv &a, const JetEv &b) { return a.tick < b.tick; }); for (auto &x : ev) exp.push_back({z.user, x.track, x.ch, x.cc, x.val, (int)x.tick}); }
    // events at the same tick of different tracks may come in any order
    std::vector<std::vector<int>> g2; for (auto &x : got) g2.push_back({x.segment, x.track, x.channel, x.controller, x.value}); c.count("jet_events", g2.size()); if (cut && g2.size() < exp.size()) { /* the fading ones kept the queue full too long */ size_t n = g2.size(); while (n > 0 && n < exp.size() && exp[n][5] == exp[n - 1][5] && exp[n][0] == exp[n - 1][0]) n--; exp.resize(n); g2.resize(n); } bool ok = g2.size() == exp.size(); for (size_t i = 0; ok && i < exp.size();) { size_t j = i; while (j < exp.size() && exp[j][5] == exp[i][5] && exp[j][0] == exp[i][0]) j++; std::vector<std::vector<int>> a(g2.begin() + i, g2.begin() + j), w; for (size_t k = i; k < j; k++) w.push_back({exp[k][0], exp[k][1], exp[k][2], exp[k][3], exp[k][4]}); std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); if (a != w) ok = false; i = j; }
    if (!ok && c.verbose) { for (auto &x : exp) printf("E %d %d %d %d %d @%d\n", x[0], x[1], x[2], x[3], x[4], x[5]); for (auto &x : g2) printf("G %d %d %d %d %d\n", x[0], x[1], x[2], x[3], x[4]); }
    if (!ok) c.violation("jet:events", "%zu events delivered, %zu expected;%s", g2.size(), exp.size(), tr.c_str());
    must(JET_CloseFile(e.h), "JET_CloseFile"); if (r.chance(1, 2)) { Bytes j2 = buildJet(r, {segs[0].smf}, {}, {}); if (must(JET_OpenFile(e.h, e.file(j2)->locator()), "JET_OpenFile again")) { if (must(JET_QueueSegment(e.h, 0, -1, 0, 0, 0, 5), "JET_QueueSegment again")) { must(JET_Play(e.h), "JET_Play again"); e.render(nullptr, 20); } if (ns > 1 && JET_QueueSegment(e.h, 1, -1, 0, 0, 0, 5) == 0) c.violation("jet:stale", "a segment of the previous file can be queued"); } c.count("jet_reopened"); }
    must(JET_Shutdown(e.h), "JET_Shutdown"); Pcm p = playProbe(e); if (p != probeReference()) c.violation("jet:after", "an ordinary song sounds different after JET was shut down;%s", tr.c_str());
}
// JET: the end-of-segment marker ends a pass; after the last one the segment goes on beside the next. Only the asked for controllers are reported.
void jetMark(Ctx &c) {
    Rng &r = c.rng; Eas e; bool cfg = r.chance(1, 2); int lo = 80, hi = 83; if (cfg) { lo = r.range(80, 95); hi = r.range(lo, 95); } struct Ev { uint32_t t; int track, ch, cc, val; }; struct Seg { std::vector<Ev> ev; uint32_t mark = 0, end = 0, pass = 0; Bytes smf; }; std::string tr = cfg ? strf(" controllers %d..%d;", lo, hi) : ""; std::vector<Seg> segs; std::vector<Bytes> smf; int ns = r.range(1, 3); double bm = e.bufMs();
    for (int i = 0; i < ns; i++) { Seg g; int nt = r.range(1, 3), val = 1; g.pass = r.range(150, 700); bool mark = r.chance(2, 3); g.end = g.pass + (mark ? r.below(600) : 0); if (mark) g.mark = g.pass; std::vector<Track> ts(nt); g.ev.push_back({0, 0, 0, lo, 0}); uint32_t t = 30; while ((t += r.range(12, 120)) + 30 < g.end) { if (mark && t + 40 > g.mark && t < g.mark + 40) continue; g.ev.push_back({t, (int)r.below(nt), (int)r.below(9), r.range(80, 95), val++}); } for (auto &x : g.ev) ts[x.track].push_back(evCC(x.t, x.ch, x.cc, x.val)); for (int k = r.range(1, 5); k > 0; k--) { uint32_t at = r.below(g.end - 50); int key = r.range(40, 80), tk = r.below(nt); ts[tk].push_back(evNote(at, tk, key, 100)); ts[tk].push_back(evOff(at + 40, tk, key)); } if (mark) ts[r.below(nt)].push_back(evCC(g.mark, r.below(9), 102, 0)); for (auto &q : ts) { q.push_back(evText(g.end, 1, "e")); sortTrack(q); } SmfOpt o; o.division = 500; o.format = 1; g.smf = buildSmf(ts, o); segs.push_back(g); smf.push_back(g.smf); }
    struct Q { int seg, rep, user; }; std::vector<Q> plan; int n = r.range(1, 3); for (int i = 0; i < n; i++) { Q q{(int)r.below(ns), r.chance(1, 3) ? 0 : (int)r.range(1, 4), 10 + 50 * i}; plan.push_back(q); tr += strf(" segment %d (pass %u%s, end %u) %d times;", q.seg, segs[q.seg].pass, segs[q.seg].mark ? " marked" : "", segs[q.seg].end, q.rep + 1); } c.sample = "JET end markers:" + tr; Bytes jf = buildJet(r, smf, {}, {}); c.caseHash = fnv(jf) ^ fnv(tr.data(), tr.size());
    S_JET_CONFIG jc; jc.appEventRangeLow = lo; jc.appEventRangeHigh = hi; if (JET_Init(e.h, cfg ? &jc : nullptr, sizeof jc) || JET_OpenFile(e.h, e.file(jf)->locator())) { c.violation("jet:open", "a JET file is not opened;%s", tr.c_str()); return; } for (auto &q : plan) if (JET_QueueSegment(e.h, q.seg, -1, q.rep, 0, 0, (uint8_t)q.user)) { c.violation("jet:queue", "a segment is not queued;%s", tr.c_str()); return; } if (JET_Play(e.h)) { c.violation("jet:play", "does not play;%s", tr.c_str()); return; }
    // per user: the events of each pass, when they came
    struct Got { int b; S_JET_EVENT e; }; std::map<int, std::vector<Got>> got; std::map<int, std::vector<int>> reps; double total = 1500; for (auto &q : plan) total += (double)segs[q.seg].pass * (q.rep + 1) + segs[q.seg].end; int lim = (int)(total / bm) + 40 * n, b = 0; Pcm o; bool done = false; for (; b < lim && !done; b++) { o.clear(); if (e.render(&o, 1)) { c.violation("jet:render", "rendering fails;%s", tr.c_str()); return; } if (!silent(o)) c.nontrivial = true; S_JET_STATUS st; memset(&st, 0, sizeof st); JET_Status(e.h, &st); EAS_U32 raw; S_JET_EVENT ev; while (JET_GetEvent(e.h, &raw, &ev)) { got[ev.segment].push_back({b, ev}); if (ev.controller == lo && ev.value == 0) reps[ev.segment].push_back(st.currentUserID == ev.segment ? (int)st.segmentRepeatCount : -99); } done = st.numQueuedSegments == 0; }
    if (!done) { c.violation("jet:end", "the segments have not ended after %.0f ms;%s", lim * bm, tr.c_str()); return; } c.count("jet_marks"); double next = -1;
    for (auto &q : plan) { const Seg &g = segs[q.seg]; auto &v = got[q.user]; size_t k = 0; double start = -1; for (int pass = 0; pass <= q.rep; pass++) { bool last = pass == q.rep; for (auto &x : g.ev) { if (x.cc < lo || x.cc > hi || (!last && x.t >= g.pass)) continue; if (k >= v.size()) { c.violation("jet:marker", "segment %d, pass %d: the event at %u ms is missing;%s", q.seg, pass, x.t, tr.c_str()); return; } auto &z = v[k++]; if (z.e.controller != x.cc || z.e.value != x.val || z.e.channel != x.ch || z.e.track != x.track) { c.violation("jet:marker", "segment %d, pass %d: event %d=%d channel %d track %d instead of %d=%d channel %d track %d at %u ms;%s", q.seg, pass, z.e.controller, z.e.value, z.e.channel, z.e.track, x.cc, x.val, x.ch, x.track, x.t, tr.c_str()); return; } double at = z.b * bm; if (x.t == 0) { if (next >= 0 && (at < next - 1.5 * bm || at > next + 5 * bm)) { c.violation("jet:marker", "segment %d, pass %d starts at %.1f ms instead of %.1f;%s", q.seg, pass, at, next, tr.c_str()); return; } start = at; next = at + g.pass; c.count("jet_passes"); } else if (fabs(at - start - x.t) > 2.5 * bm) { c.violation("jet:marker", "segment %d, pass %d: the event at %u ms comes after %.1f;%s", q.seg, pass, x.t, at - start, tr.c_str()); return; } c.count("jet_marked_events"); if (last && x.t > g.pass) c.count("jet_tail_events"); } int want = q.rep - pass; if (pass < (int)reps[q.user].size() && reps[q.user][pass] != want) { c.violation("jet:repeats", "segment %d, pass %d: %d repeats left reported instead of %d;%s", q.seg, pass, reps[q.user][pass], want, tr.c_str()); return; } } if (k < v.size()) { c.violation("jet:marker", "segment %d: %zu events too many, %d=%d first;%s", q.seg, v.size() - k, v[k].e.controller, v[k].e.value, tr.c_str()); return; } }
    for (auto &v : got) { bool known = false; for (auto &q : plan) known = known || q.user == v.first; if (!known) c.violation("jet:marker", "events of user %d, which is not queued;%s", v.first, tr.c_str()); } }
// JET: mute flags set in step with the segment count from its next pass on, the others at once
void jetSync(Ctx &c) {
    Rng &r = c.rng; Eas e; double bm = e.bufMs(); int K = r.range(2, 4), L = r.chance(1, 3) ? r.range(8, 28) : 0, S = 240, rep = r.range(1, 4); std::vector<Track> ts(K); bool mark = r.chance(1, 2); for (int k = 0; k < K; k++) { ts[k].push_back({0, {(uint8_t)(0xC0 | k), 16}}); if (k == 0) ts[0].push_back(evCC(0, 0, 80, 1)); ts[k].push_back(evNote(S * k + 20, k, 60 + 3 * k, 110)); ts[k].push_back(evOff(S * k + 110, k, 60 + 3 * k)); } if (mark) ts[0].push_back(evCC(S * K, 0, 102, 0)); for (int k = 0; k < L; k++) ts.insert(ts.begin(), Track()); for (auto &t : ts) t.push_back(evText(S * K + (mark ? 300 : 0), 1, "e")); SmfOpt o; o.division = 500; o.format = 1; Bytes jf = buildJet(r, {buildSmf(ts, o)}, {}, {});
    uint32_t init = r.chance(1, 2) ? 0 : r.below(1u << K); JET_Init(e.h, nullptr, sizeof(S_JET_CONFIG)); if (JET_OpenFile(e.h, e.file(jf)->locator()) || JET_QueueSegment(e.h, 0, -1, rep, 0, init << L, 7) || JET_Play(e.h)) { c.violation("jet:play", "a one-segment JET file does not play"); return; }
    struct Act { int slot; bool one, flag; int track; uint32_t mask; }; std::string tr = strf("%d tracks behind %d, %d passes, muted at first %x%s:", K, L, rep + 1, init, mark ? ", end marker" : ""); uint32_t cur = init, pend = init; bool update = false; int pass = -1; double start = 0; std::vector<Act> acts; bool sync = false; uint32_t live[8]; std::vector<std::vector<double>> level; int lim = (int)((S * K * (rep + 1) + 2500) / bm); size_t done = 0; std::vector<uint32_t> exp; int S_ = S;
    for (int b = 0; b < lim; b++) { Pcm p; if (e.render(&p, 1)) { c.violation("jet:render", "rendering fails"); return; } EAS_U32 raw; S_JET_EVENT ev; while (JET_GetEvent(e.h, &raw, &ev)) if (ev.controller == 80) { pass++; start = b * bm; if (update) { cur = pend; update = false; } pend = cur; acts.clear(); done = 0; sync = r.chance(1, 2); if (r.chance(3, 4)) for (int i = r.range(1, 3); i > 0; i--) acts.push_back({(int)r.below(K), r.chance(1, 2), r.chance(1, 2), (int)r.below(K), r.below(1u << K)}); std::stable_sort(acts.begin(), acts.end(), [](const Act &a, const Act &z) { return a.slot < z.slot; }); level.push_back(std::vector<double>(K, 0)); exp.push_back(0); for (int k = 0; k < K; k++) live[k] = 0; tr += strf(" |%s", sync ? " (sync)" : ""); c.count("jet_sync_passes"); }
        if (pass < 0) continue; double t = b * bm - start; int slot = (int)(t / S_); double in = t - slot * S_; if (slot < K) { if (in > 20 + 2 * bm && in < 100) level[pass][slot] = std::max(level[pass][slot], (double)peak(p)); if (in < 20 && !(cur >> slot & 1)) exp[pass] |= 1u << slot; else if (in < 20) exp[pass] &= ~(1u << slot); }
        while (done < acts.size() && t >= acts[done].slot * S_ + 150 && t < S_ * K - 30) { Act &a = acts[done++]; EAS_RESULT x = a.one ? JET_SetMuteFlag(e.h, a.track + L, a.flag, sync) : JET_SetMuteFlags(e.h, a.mask << L, sync); if (x) { c.violation("jet:mute", "setting mutes gives %ld; %s", (long)x, tr.c_str()); return; } if (a.one) { if (a.flag) pend |= 1u << a.track; else pend &= ~(1u << a.track); tr += strf(" %s %d after slot %d", a.flag ? "mute" : "unmute", a.track, a.slot); } else { pend = a.mask; tr += strf(" mutes %x after slot %d", a.mask, a.slot); } c.count(sync ? "jet_sync_calls" : "jet_now_calls"); if (sync) update = true; else cur = pend; } }
    c.sample = tr; c.caseHash = fnv(jf) ^ fnv(tr.data(), tr.size()); if (pass != rep) { c.violation("jet:sync", "%d passes instead of %d; %s", pass + 1, rep + 1, tr.c_str()); return; } double full = 0; for (auto &v : level) for (double x : v) full = std::max(full, x); for (int i = 0; i <= rep; i++) for (int k = 0; k < K; k++) { bool on = exp[i] >> k & 1; double x = level[i][k]; c.count(on ? "jet_slots_on" : "jet_slots_off"); if (on) c.nontrivial = true; if (on ? x < 300 : x > 100) { c.violation("jet:sync", "pass %d, track %d %s (%.0f); %s", i, k, on ? "is silent" : "sounds though muted", x, tr.c_str()); return; } } }
// JET: long and endless repeats
void jetLong(Ctx &c) {
    Rng &r = c.rng; Eas e; double bm = e.bufMs(); int rep = r.pick(std::vector<int>{-1, -1, 0, 1, 60, 126, 127, 128, 129, 200, 254, 255, 256, 300, 1000, 32767}); int pass = r.range(40, 90); bool mark = r.chance(1, 2); std::vector<Track> ts(1); ts[0].push_back(evCC(0, 0, 80, 1)); ts[0].push_back(evNote(5, 0, 60, 100)); ts[0].push_back(evOff(25, 0, 60)); if (mark) ts[0].push_back(evCC(pass, 0, 102, 0)); ts[0].push_back(evText(pass + (mark ? 20 : 0), 1, "e")); SmfOpt o; o.division = 500; Bytes jf = buildJet(r, {buildSmf(ts, o)}, {}, {}); std::string tr = strf("repeat count %d of a %d ms segment%s", rep, pass, mark ? " with an end marker" : ""); c.sample = tr; c.caseHash = fnv(tr.data(), tr.size());
    JET_Init(e.h, nullptr, sizeof(S_JET_CONFIG)); if (JET_OpenFile(e.h, e.file(jf)->locator()) || JET_QueueSegment(e.h, 0, -1, rep, 0, 0, 7) || JET_Play(e.h)) { c.violation("jet:play", "does not play; %s", tr.c_str()); return; }
    int seen = 0, watch = rep < 0 || rep > 300 ? r.range(30, 400) : rep + 1; for (int b = 0; b < (int)((watch + 2) * (pass + 8 * bm) / bm) + 100; b++) { Pcm p; if (e.render(&p, 1)) { c.violation("jet:render", "rendering fails; %s", tr.c_str()); return; } if (!silent(p)) c.nontrivial = true; EAS_U32 raw; S_JET_EVENT ev; int now = 0; while (JET_GetEvent(e.h, &raw, &ev)) if (ev.controller == 80) now++; if (now > 1) { c.violation("jet:repeat", "a pass begins twice in one buffer; %s", tr.c_str()); return; } seen += now; S_JET_STATUS st; memset(&st, 0, sizeof st); JET_Status(e.h, &st); if (now) c.count("jet_long_passes"); if (now && st.currentUserID == 7 && st.segmentRepeatCount != (rep < 0 ? rep : rep - seen + 1)) { c.violation("jet:repeat", "in pass %d the status tells %ld repeats left; %s", seen, (long)st.segmentRepeatCount, tr.c_str()); return; }
        if (st.numQueuedSegments == 0) break; if (watch != rep + 1 && seen >= watch) return; }
    if (seen != watch) c.violation("jet:repeat", "%d passes were played instead of %d%s; %s", seen, watch, watch == rep + 1 ? "" : " or more", tr.c_str()); }
// a JET segment sounds as its song does
Bytes toneBank(Rng &r) { DlsSpec ds; DlsWave w; w.rate = 44100; int n = r.pick(std::vector<int>{84, 100, 120, 150}), kind = r.below(3), amp = r.range(6000, 16000); w.s.resize(n + 1); for (int k = 0; k <= n; k++) w.s[k] = (int16_t)(kind == 0 ? (k % n < n / 2 ? amp : -amp) : kind == 1 ? amp * sin(k * 2 * M_PI / n) : amp * (2.0 * (k % n) / n - 1)); w.w.present = true; w.w.loops = 1; w.w.ll = n; ds.waves.push_back(w); for (uint32_t b : {0u, 0x7900u}) { DlsInst in; in.bank = b; in.prog = 0; in.r.push_back(DlsRegion()); in.art.push_back({0, 0, 0x20a, 0, 1000 * 65536}); ds.inst.push_back(in); } return buildDls(ds); }
void jetSound(Ctx &c) {
    Rng &r = c.rng; JetSeg s = genSeg(r); std::vector<Bytes> banks; int nd = r.chance(1, 3) ? 0 : r.range(1, 3); for (int i = 0; i < nd; i++) banks.push_back(toneBank(r)); int lib = nd ? (int)r.range(-1, nd - 1) : -1; Bytes jf = buildJet(r, {s.smf}, banks, {}); c.caseHash = fnv(jf); c.sample = strf("one JET segment with bank %d of %d against its song", lib, nd); Eas a, b; uint32_t mute = r.chance(1, 2) ? 1u << r.below(3) : 0; JET_Init(a.h, nullptr, sizeof(S_JET_CONFIG)); if (JET_OpenFile(a.h, a.file(jf)->locator()) || JET_QueueSegment(a.h, 0, lib, 0, 0, mute, 1) || JET_Play(a.h)) { c.violation("jet:play", "a one-segment JET file does not play"); return; }
    Pcm x, y; a.render(&x, 120); EAS_HANDLE h = b.openPrep(s.smf); if (!h) return; if (lib >= 0) { c.count("jet_banks"); if (EAS_LoadDLSCollection(b.h, h, b.file(banks[lib])->locator())) { c.violation("bank", "a bank is refused"); return; } } b.render(&y, 120); c.nontrivial = !silent(y); long fx = firstSound(x), fy = firstSound(y); c.count("jet_sound"); if (mute) { if (fx >= 0 && fy < 0) c.violation("jet:sound", "sound from a muted segment only"); return; } if (fx < 0 || fy < 0) { if (fx != fy) c.violation("jet:sound", "a JET segment is silent, its song is not"); return; } long d = fx - fy; if (d % b.bufN) c.violation("jet:sound", "segment starts at frame %ld, its song at %ld", fx, fy); size_t n = std::min(x.size() / a.chans - fx, y.size() / b.chans - fy); if (memcmp(&x[fx * a.chans], &y[fy * b.chans], n * a.chans * 2)) c.violation("jet:sound", "a JET segment sounds different from its song; %s", c.sample.c_str()); JET_Shutdown(a.h);
}
// JET: clearing the queue stops what plays, drops what waits and the clips asked for; then all starts anew
void jetClear(Ctx &c) {
    Rng &r = c.rng; std::vector<Track> ts(3); uint32_t len = r.range(300, 700), from = r.range(40, 120), to = from + 120; int clip = r.range(1, 63); ts[0].push_back(evCC(0, 0, 80, 1)); for (int k = r.range(1, 4); k > 0; k--) { uint32_t at = r.below(len - 100); int key = r.range(40, 80); ts[0].push_back(evNote(at, 0, key, 100)); ts[0].push_back(evOff(at + 60, 0, key)); } std::vector<Track> ref = ts; ts[1].push_back(evCC(from, 1, 103, 0x40 | clip)); ts[1].push_back(evNote(from + 30, 1, 66, 110)); ts[1].push_back(evOff(from + 80, 1, 66)); ts[1].push_back(evCC(to, 1, 103, clip)); ref[1].push_back(evCC(from, 1, 103, 0x40 | clip)); ref[1].push_back(evCC(to, 1, 103, clip)); for (auto *q : {&ts, &ref}) for (auto &t : *q) { t.push_back(evText(len, 1, "e")); sortTrack(t); } SmfOpt o; o.division = 500; o.format = 1; Bytes smf = buildSmf(ts, o), quiet = buildSmf(ref, o), jf = buildJet(r, {smf, smf, smf}, {toneBank(r)}, {});
    Eas a, b; JET_Init(a.h, nullptr, sizeof(S_JET_CONFIG)); if (JET_OpenFile(a.h, a.file(jf)->locator())) { c.violation("jet:open", "a JET file is not opened"); return; } std::string tr; c.caseHash = fnv(jf) ^ r.next(); EAS_HANDLE h = b.openPrep(quiet); if (!h) return; Pcm y; int nb = (int)((len + 200) / b.bufMs()); b.render(&y, nb); c.nontrivial = !silent(y); long fy = firstSound(y); S_JET_STATUS st; EAS_U32 raw; S_JET_EVENT ev;
    for (int round = r.range(2, 4); round > 0; round--) {
        int n = r.range(1, 3); bool play = r.chance(3, 4), pause = play && r.chance(1, 3), trig = r.chance(1, 2); tr += strf(" | %d queued", n); for (int i = 0; i < n; i++) { EAS_RESULT x = JET_QueueSegment(a.h, (int)r.below(3), r.chance(1, 4) ? 0 : -1, r.range(-1, 3), 0, 2, 40); if (x) { c.violation("jet:clear", "queueing segment %d gives %ld:%s", i, (long)x, tr.c_str()); return; } }
        JET_Status(a.h, &st); if (st.numQueuedSegments != n || !st.paused) { c.violation("jet:clear", "%d segments are queued, %s, where %d are:%s", (int)st.numQueuedSegments, st.paused ? "paused" : "playing", n, tr.c_str()); return; }
        if (play) { EAS_RESULT x = JET_Play(a.h); tr += " played"; if (x) { c.violation("jet:clear", "playing gives %ld:%s", (long)x, tr.c_str()); return; } a.render(nullptr, r.range(1, 60)); if (trig) { JET_TriggerClip(a.h, clip); tr += " clip"; } if (pause) { tr += " paused"; JET_Pause(a.h); } }
        EAS_RESULT x = JET_Clear_Queue(a.h); tr += " cleared"; if (x) { c.violation("jet:clear", "clearing gives %ld:%s", (long)x, tr.c_str()); return; } c.count("jet_clears"); memset(&st, 0, sizeof st); JET_Status(a.h, &st); if (st.numQueuedSegments || !st.paused || st.currentUserID != -1) { c.violation("jet:clear", "%d segments left, %s, user %ld:%s", (int)st.numQueuedSegments, st.paused ? "paused" : "playing", (long)st.currentUserID, tr.c_str()); return; }
        Pcm p; a.render(nullptr, 60); a.render(&p, 40); while (JET_GetEvent(a.h, &raw, &ev)) {} if (!silent(p)) { c.violation("jet:clear", "sounds after the queue was cleared:%s", tr.c_str()); return; }
        if (JET_Play(a.h) == 0) { c.violation("jet:clear", "an empty queue plays:%s", tr.c_str()); return; } }
    c.sample = "JET queue:" + tr; if (JET_QueueSegment(a.h, 1, -1, 0, 0, 2, 99) || JET_Play(a.h)) { c.violation("jet:clear", "a segment does not play after:%s", tr.c_str()); return; } Pcm x; a.render(&x, nb + 6); int seen = 0; while (JET_GetEvent(a.h, &raw, &ev)) if (ev.segment == 99) seen++; if (seen != 1) c.violation("jet:clear", "the segment delivers %d events after:%s", seen, tr.c_str());
    long fx = firstSound(x); if (fx < 0 || fy < 0) { if (fx != fy) c.violation("jet:clear", "%s after:%s", fx < 0 ? "silent" : "sounds", tr.c_str()); return; } long d = fx - fy; size_t n = std::min(x.size() / a.chans - fx, y.size() / b.chans - fy); if (d % b.bufN || memcmp(&x[fx * a.chans], &y[fy * b.chans], n * a.chans * 2)) c.violation("jet:clear", "a segment sounds different from its song after:%s", tr.c_str());
}
// muted tracks strike no notes (those struck before end as written), a clip sounds from its next start to its end once triggered, and the transposition is the segment's
bool jetMix(Ctx &c) {   // false: a history that is not judged
    Rng &r = c.rng; struct N { uint32_t at, len; int tr, key; }; struct Clip { uint32_t from, to; int id; }; struct Act { uint32_t at; int tr; bool mute; int clip; }; const uint32_t len = r.range(500, 1600); std::vector<N> ns; std::vector<Clip> clips; std::vector<Act> acts; const int CT = 3; int key[4] = {40, 52, 64, 70};
    ns.push_back({30, 25, 0, key[0]++}); for (int k = 0; k < 4; k++) { uint32_t at = 90 + r.below(60); for (int i = 0; i < 10 && at + 20 < len; i++) { ns.push_back({at, (uint32_t)r.range(30, 300), k, key[k]++}); at += r.range(40, 250); } }
    for (uint32_t at = 70 + r.below(80); at + 60 < len;) { uint32_t to = std::min(len - 20, at + r.range(40, 300)); clips.push_back({at, to, r.range(1, 3)}); at = to + r.range(15, 120); }
    uint32_t init = 1u << CT | (r.chance(1, 2) ? r.below(2) << 1 : 0) | (r.chance(1, 2) ? r.below(2) << 2 : 0); auto near = [&](uint32_t t, int tr) { for (auto &n : ns) if (n.tr == tr && labs((long)n.at - (long)t) < 16) return true; return false; }; auto nearClip = [&](uint32_t t) { for (auto &k : clips) if (labs((long)k.from - (long)t) < 16 || labs((long)k.to - (long)t) < 16) return true; return false; };
    for (int i = r.range(1, 6); i > 0; i--) { uint32_t aa = (uint32_t)r.range(75, (int)len - 10); int at3 = (int)r.below(3); bool am = r.chance(1, 2); Act a{aa, at3, am, 0}; if (!near(a.at, a.tr)) acts.push_back(a); } for (int i = r.below(5); i > 0; i--) { uint32_t aa = (uint32_t)r.range(60, (int)len - 10); int ac = r.range(1, 3); Act a{aa, CT, false, ac}; if (!nearClip(a.at)) acts.push_back(a); } std::stable_sort(acts.begin(), acts.end(), [](const Act &a, const Act &b) { return a.at < b.at; });
    // what sounds
    std::vector<N> live; { std::vector<std::pair<uint32_t, int>> clipOn; bool pend[4] = {}; int running = -1; size_t ai = 0; bool muted[3]; for (int k = 0; k < 3; k++) muted[k] = init >> k & 1; std::vector<std::pair<uint32_t, uint32_t>> win; 
        struct E { uint32_t at; int kind; size_t i; }; std::vector<E> ev; for (size_t i = 0; i < acts.size(); i++) ev.push_back({acts[i].at, 0, i}); for (size_t i = 0; i < clips.size(); i++) { ev.push_back({clips[i].from, 1, i}); ev.push_back({clips[i].to, 2, i}); } for (size_t i = 0; i < ns.size(); i++) ev.push_back({ns[i].at, 3, i}); std::stable_sort(ev.begin(), ev.end(), [](const E &a, const E &b) { return a.at < b.at; }); (void)ai; (void)win; (void)clipOn;
        for (auto &e : ev) switch (e.kind) { case 0: if (acts[e.i].clip) { if (pend[acts[e.i].clip]) return false; /* asked for twice before it comes: not judged */ pend[acts[e.i].clip] = true; } else muted[acts[e.i].tr] = acts[e.i].mute; break; case 1: if (pend[clips[e.i].id]) { pend[clips[e.i].id] = false; running = clips[e.i].id; c.count("jet_clips"); } break; case 2: if (running == clips[e.i].id) running = -1; break; case 3: { const N &n = ns[e.i]; if (n.tr == CT ? running >= 0 : !muted[n.tr]) live.push_back(n); else c.count("jet_muted_notes"); } } }
    // a note on the very tick of a clip's edge, or a trigger while the clip runs: not judged
    for (auto &k : clips) for (auto &n : ns) if (n.tr == CT && (n.at == k.from || n.at == k.to))return false; for (auto &a : acts) if (a.clip) for (auto &k : clips) if (a.at >= k.from && a.at <= k.to)return false; for (size_t i = 0; i < acts.size(); i++) for (size_t j = 0; j < i; j++) if (acts[i].clip && acts[i].clip == acts[j].clip && acts[i].at - acts[j].at < 40) return false;
    auto song = [&](const std::vector<N> &sound) { std::vector<Track> ts(4); for (int k = 0; k < 4; k++) ts[k].push_back(evProg(0, k, k == 1 ? 16 : 19)); for (auto &n : ns) { bool on = false; for (auto &m : sound) if (m.at == n.at && m.key == n.key) on = true; ts[n.tr].push_back(on ? evNote(n.at, n.tr, n.key, 100) : evCC(n.at, n.tr, 3, 0)); ts[n.tr].push_back(n.key & 1 ? evNote(n.at + n.len, n.tr, n.key, 0) : evOff(n.at + n.len, n.tr, n.key)); } for (auto &k : clips) { ts[CT].push_back(evCC(k.from, CT, 103, 0x40 | k.id)); ts[CT].push_back(evCC(k.to, CT, 103, k.id)); } for (auto &t : ts) sortTrack(t); ts[0].push_back(evText(len + 400, 1, "e")); sortTrack(ts[0]); SmfOpt o; o.division = 500; o.format = 1; return buildSmf(ts, o); };
    Bytes jf = buildJet(r, {song(ns)}, {}, {}); c.caseHash = fnv(jf); int tp = r.chance(1, 2) ? 0 : r.range(-12, 12); std::string tr = strf("transpose %d, muted %x", tp, init); for (auto &a : acts) { tr += a.clip ? strf(" trigger%d@%u", a.clip, a.at) : strf(" %smute%d@%u", a.mute ? "" : "un", a.tr, a.at); c.caseHash = c.caseHash * 31 + a.at; } for (auto &k : clips) tr += strf(" clip%d:%u-%u", k.id, k.from, k.to); for (auto &n : ns) tr += strf(" n%d:%u+%u", n.tr, n.at, n.len); c.sample = tr.substr(0, 400);
    Eas b; EAS_HANDLE h = b.openPrep(song(live)); if (!h) { c.violation("open", "song refused"); return true; } if (tp) EAS_SetTransposition(b.h, h, tp); int nb = (int)((len + 300) / b.bufMs()); Pcm y, x; b.render(&y, nb); long fy = firstSound(y), D = 0; c.nontrivial = !silent(y);
    for (int pass = 0; pass < 2; pass++) { Eas a; JET_Init(a.h, nullptr, sizeof(S_JET_CONFIG)); if (JET_OpenFile(a.h, a.file(jf)->locator()) || JET_QueueSegment(a.h, 0, -1, 0, tp, init, 1) || JET_Play(a.h)) { c.violation("jet:play", "a one-segment JET file does not play"); return true; } x.clear(); if (pass == 0) { a.render(&x, 40); long fx = firstSound(x); if (fx < 0 || fy < 0 || (fx - fy) % b.bufN) { c.violation("jet:sound", "the segment starts at frame %ld, its song at %ld; %s", fx, fy, tr.c_str()); return true; } D = (fx - fy) / b.bufN; JET_Shutdown(a.h); continue; }
        size_t at = 0; for (int i = 0; i < nb + D; i++) { while (at < acts.size() && acts[at].at <= (i - D) * b.bufMs()) { Act &q = acts[at++]; EAS_RESULT z = q.clip ? JET_TriggerClip(a.h, q.clip) : JET_SetMuteFlag(a.h, q.tr, q.mute, EAS_FALSE); c.count("jet_mute_calls"); if (z) { c.violation("jet:mute", "mute or trigger gives %ld; %s", (long)z, tr.c_str()); return true; } } a.render(&x, 1); } JET_Shutdown(a.h); }
    long bad = -1; for (size_t i = 0; i < y.size(); i++) { size_t k = i + (size_t)D * b.bufN * b.chans; if (k < x.size() && (long)k >= 0 && x[k] != y[i]) { bad = (long)i / b.chans; break; } } c.count("jet_mixes"); if (bad >= 0) c.violation("jet:mix", "differs from its song with the muted notes left out at frame %ld (%.1f ms); %s", bad, bad * 1000.0 / b.rate, tr.c_str());
    return true;
}
// ---- anything
Bytes anyFile(Rng &r) {
    Bytes b; int k = r.below(12); if (k == 0) b = genImy(r).file; else if (k == 1) b = genRtttl(r).file; else if (k == 2) b = genOta(r).file; else if (k == 3 || k == 4) { Bytes smf = genSong(r, r.chance(1, 2), 30), d = buildDls(genDlsSpec(r, r.chance(1, 2))); b = buildXmf(r, smf, r.chance(2, 3) ? &d : nullptr); } else if (k == 5) b = genSong(r, true, 30);
    else if (k == 6) { std::string o = "BEGIN:IMELODY\nVERSION:1.2\nFORMAT:CLASS1.0\n"; static const char *w[] = {"NAME:", "COMPOSER:", "BEAT:", "STYLE:", "VOLUME:", "MELODY:", "END:IMELODY", "VERSION:", "FORMAT:CLASS", "BEGIN:IMELODY"}; int n = r.range(0, 12); for (int i = 0; i < n; i++) { o += w[r.below(10)]; int l = r.chance(1, 4) ? r.range(60, 160) : r.below(16); for (int j = 0; j < l; j++) o += "0123456789S.V+-abcdefgr()@#&*lvb:;\r \t"[r.below(38)]; o += "\n"; } if (r.chance(2, 3)) { o += "MELODY:"; int l = r.below(300); for (int j = 0; j < l; j++) o += "0123450123()@#&*lvbcdefgar.:;V+-o\n"[r.below(35)]; o += "\nEND:IMELODY"; } putS(b, o.c_str()); }
    else if (k == 7) { std::string o(r.below(40), 'x'); o += ":"; int n = r.below(6); for (int i = 0; i < n; i++) { o += "bdlosx"[r.below(6)]; o += r.chance(7, 8) ? "=" : ":"; o += r.chance(1, 6) ? std::string(r.range(1, 12), '9') : num(r.pick(std::vector<int>{0, 1, 2, 4, 5, 6, 7, 8, 15, 16, 25, 32, 120, 900, 901})); o += i + 1 < n ? "," : ":"; } int l = r.below(200); for (int j = 0; j < l; j++) o += "0123456789abcdefghpos#.,  "[r.below(26)]; putS(b, o.c_str()); }
    else if (k == 8) { Bits t; t.put(r.range(1, 4), 8); t.put(0x25, 7); t.align(); while (r.chance(1, 4)) { t.put(0x22, 7); t.align(); } t.put(0x1d, 7); t.put(r.chance(1, 2) ? 2 : 1, 3); if (r.chance(1, 2)) { int n = r.below(16); t.put(n, 4); for (int i = 0; i < n; i++) t.put(r.byte(), 8); } t.put(r.range(1, 6), 8); int n = r.range(1, 6); for (int i = 0; i < n; i++) { t.put(0, 3); t.put(r.below(4), 2); t.put(r.chance(1, 3) ? 15 : r.below(16), 4); int m = r.below(6); t.put(m, 8); int only = r.chance(1, 3) ? r.range(2, 5) : 0; for (int j = 0; j < m; j++) { int kk = only ? only : r.range(1, 5); t.put(kk, 3); static const int w[] = {0, 9, 2, 2, 5, 4}; t.put(r.byte() | r.byte() << 8, w[kk]); } } b = t.b; }
    else if (k == 9) { int n = r.below(200); static const char *h[] = {"XMF_2.00", "XMF_1.00", "JET ", "BEGIN:IMELODY\n", "MThd", "\x02\x4a\x3a", "a:d=4:", "RIFF"}; putS(b, h[r.below(8)]); for (int i = 0; i < n; i++) b.push_back(r.byte()); }
    else if (k == 10) { int n = r.below(40); for (int i = 0; i < n; i++) b.push_back(r.byte()); }
    else { JetSeg s = genSeg(r); b = buildJet(r, {s.smf}, {}, {}); }
    if (r.chance(1, 2)) mutate(r, b, r.range(1, r.chance(1, 3) ? 20 : 3)); if (r.chance(1, 8) && !b.empty()) b.resize(r.below((uint32_t)b.size())); return b;
}
void hostileCase(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); log.maxSingle = 64 << 20; log.maxTotal = 256 << 20; g_alloc = &log; Bytes b = anyFile(r); c.caseHash = fnv(b); c.sample = strf("%zu bytes %s", b.size(), hexs(b, 64).c_str());
    { Eas e; auto chk = [&](EAS_RESULT q, const char *w) { c.seen("results", fnv(w, strlen(w), 77 + (uint64_t)(q + 1000))); if (!documented(q)) c.violation(std::string("undocumented-result:") + w, "%s returned %ld; %s", w, (long)q, c.sample.c_str()); return q; };
    bool global = r.chance(1, 6); if (global) { Bytes g = buildDls(genDlsSpec(r, false)); EAS_LoadDLSCollection(e.h, nullptr, e.file(g)->locator()); }
    EAS_HANDLE other = nullptr; if (r.chance(1, 4)) other = e.openPrep(probeSong());
    MemFile *f = e.file(b); if (r.chance(1, 5)) { f->failAtRead = r.below(60); f->failMode = r.range(1, 3); f->failSticky = r.chance(1, 2); } EAS_HANDLE s = nullptr; EAS_RESULT q = chk(EAS_OpenFile(e.h, f->locator(), &s), "EAS_OpenFile"); Meta m; m.size = r.range(1, 40); std::unique_ptr<char[]> mb(new char[m.size]);
    if (q == 0 && s) { c.count("opened"); c.nontrivial = true; if (r.chance(1, 2)) EAS_RegisterMetaDataCallback(e.h, s, metaCb, mb.get(), m.size, &m); q = chk(EAS_Prepare(e.h, s), "EAS_Prepare"); if (q == 0) { c.count("prepared"); EAS_I32 v; chk(EAS_GetFileType(e.h, s, &v), "EAS_GetFileType"); int n = r.range(1, 14); for (int i = 0; i < n; i++) switch (r.below(9)) { case 0: chk(EAS_ParseMetaData(e.h, s, &v), "EAS_ParseMetaData"); break; case 1: chk(EAS_Locate(e.h, s, r.below(r.chance(1, 6) ? 400000 : 5000), r.chance(1, 2)), "EAS_Locate"); break; case 2: chk(EAS_Pause(e.h, s), "EAS_Pause"); break; case 3: chk(EAS_Resume(e.h, s), "EAS_Resume"); break; case 4: chk(EAS_SetRepeat(e.h, s, r.range(-1, 3)), "EAS_SetRepeat"); break; case 5: chk(EAS_SetTransposition(e.h, s, r.range(-12, 12)), "EAS_SetTransposition"); break; default: { int k = r.chance(1, 3) ? r.range(1, 120) : r.range(1, 10); for (int j = 0; j < k; j++) { chk(e.render(nullptr, 1), "EAS_Render"); c.count("buffers"); } } } } else c.count("prepare_refused");
      if (r.chance(7, 8)) chk(EAS_CloseFile(e.h, s), "EAS_CloseFile"); } else c.count("refused");
    if (f->negReads) c.violation("negative-read", "%s", f->firstBad.c_str()); if (other) { e.render(nullptr, 5); EAS_CloseFile(e.h, other); }
    if (!global && r.chance(1, 3) && !f->faulted) { Pcm p; for (int i = 0; i < 3; i++) e.render(nullptr, 1); if (!s) { p = playProbe(e); if (p != probeReference()) c.violation("after", "a good song sounds different after %s", c.sample.c_str()); else c.count("probe_ok"); } }
    EAS_RESULT z = e.shutdown(); if (z && f->faulted == 0) c.violation("shutdown", "EAS_Shutdown returned %ld; %s", (long)z, c.sample.c_str()); if (z && f->faulted) c.count("shutdown_errors_after_faults"); e.files.clear(); }
    if (log.live) c.violation("leak", "%lld blocks are not freed; %s", (long long)log.live, c.sample.c_str()); if (log.badFree) c.violation("bad-free", "%llu bad frees", (unsigned long long)log.badFree); g_alloc = nullptr;
}
void jetHostile(Ctx &c) {
    Rng &r = c.rng; AllocLog log; log.fill = r.byte(); log.maxSingle = 64 << 20; log.maxTotal = 256 << 20; g_alloc = &log; std::vector<Bytes> files; int nf = r.range(1, 3); for (int i = 0; i < nf; i++) { std::vector<Bytes> smf, dls; int ns = r.range(1, 4), nd = r.below(3); for (int k = 0; k < ns; k++) smf.push_back(r.chance(1, 2) ? genSeg(r).smf : genSong(r, true, 30)); for (int k = 0; k < nd; k++) dls.push_back(buildDls(genDlsSpec(r, r.chance(1, 3)))); Bytes b = buildJet(r, smf, dls, Bytes(r.below(8), 1)); if (r.chance(1, 2)) { int at = r.range(0, 60); if (r.chance(1, 2) && at < (int)b.size()) b[at] = r.byte(); else mutate(r, b, r.range(1, 4)); } files.push_back(b); } c.caseHash = fnv(files[0]); c.sample = strf("%zu-byte JET %s", files[0].size(), hexs(files[0], 64).c_str());
    { Eas e; std::string tr; auto chk = [&](EAS_RESULT q, const char *w) { c.seen("results", fnv(w, strlen(w), 78 + (uint64_t)(q + 1000))); tr += strf(" %s=%ld", w, (long)q); if (!documented(q)) c.violation(std::string("undocumented-result:") + w, "%s returned %ld;%s", w, (long)q, tr.c_str()); return q; }; S_JET_CONFIG cfg; cfg.appEventRangeLow = r.below(128); cfg.appEventRangeHigh = r.below(128); chk(JET_Init(e.h, r.chance(1, 2) ? nullptr : &cfg, sizeof cfg), "JET_Init"); bool open = false; int nextFile = 0; EAS_HANDLE live = nullptr; if (r.chance(1, 4)) live = e.stream(); int n = r.range(5, 50);
      for (int i = 0; i < n; i++) switch (r.below(16)) {
          case 0: if (nextFile < nf || r.chance(1, 3)) { EAS_RESULT q = chk(JET_OpenFile(e.h, e.file(files[nextFile++ % nf])->locator()), "JET_OpenFile"); if (q == 0) { open = true; c.count("jet_opened"); c.nontrivial = true; } else { c.count("jet_refused"); if (open && q != EAS_ERROR_FILE_ALREADY_OPEN) c.violation("jet:open-twice", "opening over an open file returns %ld", (long)q); if (!open && q == EAS_ERROR_FILE_ALREADY_OPEN) c.violation("jet:stuck", "no file is open but JET_OpenFile returns FILE_ALREADY_OPEN;%s", tr.c_str()); } } break;
          case 1: if (r.chance(1, 3)) { EAS_RESULT q = chk(JET_CloseFile(e.h), "JET_CloseFile"); if (q) c.violation("jet:close", "JET_CloseFile returns %ld;%s", (long)q, tr.c_str()); open = false; } break;
          case 2: case 3: case 4: if (open) chk(JET_QueueSegment(e.h, r.below(5), r.range(-1, 2), r.range(-1, 3), r.range(-24, 24), r.chance(1, 2) ? 0 : (EAS_U32)(r.next() & 0xffffffffu), r.byte()), "JET_QueueSegment"); break;
          case 5: chk(JET_Play(e.h), "JET_Play"); break; case 6: chk(JET_Pause(e.h), "JET_Pause"); break; case 7: chk(JET_SetMuteFlags(e.h, (EAS_U32)(r.next() & 0xffffffffu), r.chance(1, 2)), "JET_SetMuteFlags"); break; case 8: chk(JET_SetMuteFlag(e.h, r.range(-1, 33), r.chance(1, 2), r.chance(1, 2)), "JET_SetMuteFlag"); break; case 9: chk(JET_TriggerClip(e.h, r.range(-1, 65)), "JET_TriggerClip"); break;
          case 10: { EAS_U32 raw; S_JET_EVENT ev; while (JET_GetEvent(e.h, &raw, &ev)) c.count("jet_events"); break; } case 11: { S_JET_STATUS st; chk(JET_Status(e.h, &st), "JET_Status"); break; } case 12: if (r.chance(1, 3)) chk(JET_Clear_Queue(e.h), "JET_Clear_Queue"); break; case 13: if (live && r.chance(1, 2)) e.write(live, genMsg(r, false)); break;
          default: { int k = r.chance(1, 4) ? r.range(1, 120) : r.range(1, 8); for (int j = 0; j < k; j++) { chk(e.render(nullptr, 1), "EAS_Render"); c.count("buffers"); } tr.clear(); } }
      EAS_RESULT q = chk(JET_Shutdown(e.h), "JET_Shutdown"); if (q) c.violation("jet:shutdown", "JET_Shutdown returns %ld;%s", (long)q, tr.c_str()); if (live) EAS_CloseMIDIStream(e.h, live); if (!c.failed()) { Pcm p = playProbe(e); if (p.empty()) c.violation("jet:after", "a good song cannot be played after JET was shut down;%s", tr.c_str()); else c.count("probe_ok"); } q = e.shutdown(); if (q) c.violation("shutdown", "EAS_Shutdown returned %ld", (long)q); e.files.clear(); }
    if (log.live) c.violation("leak", "%lld blocks are not freed; %s", (long long)log.live, c.sample.c_str()); if (log.badFree) c.violation("bad-free", "%llu bad frees", (unsigned long long)log.badFree); g_alloc = nullptr;
}
// ---- the other formats are not disturbed, the shipped files play
Bytes slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
void shippedCase(Ctx &c) {
    const char *repo = getenv("VERIF_REPO"); static const struct { const char *f; EAS_I32 type; double lo, hi; } v[] = {{"abba.imy", EAS_FILE_IMELODY, 5, 60}, {"greensleeves.rtttl", EAS_FILE_RTTTL, 5, 60}, {"test.ota", EAS_FILE_OTA, 1, 30}, {"Leadsol.mxmf", EAS_FILE_XMF0, 5, 60}, {"ants.mid", -1, 5, 60}}; auto &q = v[c.rng.below(5)]; std::string p = std::string(repo ? repo : "/repo") + "/arm-wt-22k/vectors/" + q.f; Bytes b = slurp(p); c.sample = q.f; c.caseHash = fnv(q.f, strlen(q.f)); if (b.empty()) { c.count("vectors_missing"); return; }
    Eas e; EAS_HANDLE s = nullptr; EAS_RESULT x = e.open(b, &s); if (!x) x = EAS_Prepare(e.h, s); if (x) { c.violation("shipped", "%s: %ld", q.f, (long)x); return; } EAS_I32 t = -1; EAS_GetFileType(e.h, s, &t); if (q.type >= 0 && t != q.type && !(q.type == EAS_FILE_XMF0 && t == EAS_FILE_XMF1)) c.violation("shipped", "%s has type %ld", q.f, (long)t); Pcm o; bool end = false; int k = 0; for (; k < (int)(q.hi * 1000 / e.bufMs()); k++) { if (e.render(&o, 1)) { c.violation("shipped", "%s: rendering fails at %.1f s", q.f, k * e.bufMs() / 1000); return; } if (e.state(s) == EAS_STATE_STOPPED) { end = true; break; } } c.nontrivial = true; c.count("shipped"); if (!end || k * e.bufMs() < q.lo * 1000 || peak(o) < 500) c.violation("shipped", "%s %s after %.1f s, peak %d", q.f, end ? "ends" : "has not ended", k * e.bufMs() / 1000, peak(o)); EAS_CloseFile(e.h, s);
}
void otherCase(Ctx &c) {
    Rng &r = c.rng; // a song with anything in front that is not another format, and the type of every format
    Bytes smf = genSong(r, false, 20); c.caseHash = fnv(smf); c.sample = "an SMF file in the build with all readers"; Eas e; EAS_HANDLE s = nullptr; EAS_RESULT q = e.open(smf, &s); EAS_I32 t = -1; if (q || (q = EAS_Prepare(e.h, s)) || EAS_GetFileType(e.h, s, &t) || (t != EAS_FILE_SMF0 && t != EAS_FILE_SMF1)) c.violation("other", "a song opens with %ld as type %ld", (long)q, (long)t); c.nontrivial = true; if (s) EAS_CloseFile(e.h, s); c.count("other");
}
}
void vh_case(Ctx &c) {
    int k = (int)(c.caseNo % 50); if (getenv("C31_ONLY")) k = atoi(getenv("C31_ONLY")); if (k < 3) tuneCase(c, 0); else if (k < 6) tuneCase(c, 1); else if (k < 9) tuneCase(c, 2); else if (k < 13) xmfCase(c); else if (k < 17) jetCase(c); else if (k < 18) jetSound(c); else if (k < 29) hostileCase(c); else if (k < 31) { for (int t = 0; t < 12 && !jetMix(c); t++); } else if (k < 32) volCase(c, (int)(c.caseNo / 50 % 3)); else if (k < 38) jetHostile(c); else if (k < 39) shippedCase(c); else if (k < 40) otherCase(c); else if (k < 42) jetMark(c); else if (k < 44) jetSync(c); else if (k < 47) gapCase(c, k - 44); else if (k < 48) jetLong(c); else if (k < 49) jetClear(c); else jetSound(c);
}
