// C35: a song is found behind foreign bytes and is then the song it is alone; what is no song is refused; notes are counted.
#include "scen.h"
const char *vh_property = "C35";
static bool has(const Bytes &b, size_t upto) { for (size_t i = 0; i + 4 <= b.size() && i < upto; i++) if (!memcmp(&b[i], "MThd", 4)) return true; return false; }
static Bytes prefix(Rng &r) { Bytes p; int n = r.chance(1, 8) ? r.range(500, 5000) : r.range(1, 60); while ((int)p.size() < n) { switch (r.below(6)) { case 0: p.push_back('M'); break; case 1: putS(p, r.chance(1, 2) ? "MT" : "MTh"); break; case 2: putS(p, r.pick(std::vector<const char *>{"MTrk", "RIFF", "MMMM", "MTMTh", "Thd", "hd", "MTHd", "mthd"})); break; default: p.push_back(r.byte()); } } int k = r.below(4); if (k == 0) p.push_back('M'); else if (k == 1) putS(p, "MT"); else if (k == 2) putS(p, "MTh"); return p; }
static int noteOns(const Bytes &m) { return m.size() >= 3 && (m[0] & 0xf0) == 0x90 && m[2] > 0; }
static void searchCase(Ctx &c) {
    Rng &r = c.rng; Bytes song = genSong(r, r.chance(1, 5), 60), pre, all; do { pre = prefix(r); all = pre; cat(all, song); } while (has(all, pre.size())); if (song.size() < 4 || memcmp(&song[0], "MThd", 4)) return; bool flag = r.chance(4, 5), toggle = r.chance(1, 4); std::string d = strf("%zu bytes before the song, the last ones %s; song %s", pre.size(), hexs(Bytes(pre.end() - std::min<size_t>(8, pre.size()), pre.end()), 30).c_str(), hexs(song, 60).c_str()); c.sample = d; c.caseHash = fnv(all) + flag;
    Eas a, b; if (toggle) EAS_SetHeaderSearchFlag(b.h, !flag); EAS_SetHeaderSearchFlag(b.h, flag); EAS_HANDLE x, y; EAS_RESULT p = a.open(song, &x), q = b.open(all, &y);
    if (!flag) { c.count("searches_off"); if (q != EAS_ERROR_UNRECOGNIZED_FORMAT) { c.violation("off", "without the search flag, opening gives %ld: %s", (long)q, d.c_str()); } if (q) { EAS_RESULT z = b.open(song, &y); if (z != p) c.violation("after", "the song itself, opened after that, gives %ld instead of %ld: %s", (long)z, (long)p, d.c_str()); else if (!z) EAS_CloseFile(b.h, y); } if (!p) EAS_CloseFile(a.h, x); c.nontrivial = true; return; }
    if (p != q) { c.violation("found", "opening gives %ld, the song alone %ld: %s", (long)q, (long)p, d.c_str()); return; } c.count("searches"); if (p) return; p = EAS_Prepare(a.h, x); q = EAS_Prepare(b.h, y); if (p != q) { c.violation("prepare", "%ld and %ld: %s", (long)p, (long)q, d.c_str()); return; } if (p) { EAS_CloseFile(a.h, x); EAS_CloseFile(b.h, y); return; }
    EAS_I32 t0 = -1, t1 = -1; EAS_GetFileType(a.h, x, &t0); EAS_GetFileType(b.h, y, &t1); if (t0 != t1) c.violation("type", "type %ld and %ld: %s", (long)t0, (long)t1, d.c_str()); if (r.chance(1, 2)) { EAS_I32 l0 = -1, l1 = -1; p = EAS_ParseMetaData(a.h, x, &l0); q = EAS_ParseMetaData(b.h, y, &l1); if (p != q || l0 != l1) c.violation("length", "length %ld (%ld) and %ld (%ld): %s", (long)l0, (long)p, (long)l1, (long)q, d.c_str()); }
    int rep = r.chance(1, 4) ? 1 : 0, seekAt = r.chance(1, 3) ? r.range(1, 60) : -1, n = r.range(40, 160); long to = r.below(1500); if (rep) { EAS_SetRepeat(a.h, x, rep); EAS_SetRepeat(b.h, y, rep); } Pcm u, v;
    for (int i = 0; i < n && !c.failed(); i++) { if (i == seekAt) { p = EAS_Locate(a.h, x, to, 0); q = EAS_Locate(b.h, y, to, 0); if (p != q) { c.violation("seek", "%ld and %ld: %s", (long)p, (long)q, d.c_str()); break; } } size_t k = u.size(); p = a.render(&u); q = b.render(&v); if (p != q) { c.violation("result", "rendering gives %ld and %ld: %s", (long)p, (long)q, d.c_str()); break; } if (p) break; if (memcmp(&u[k], &v[k], (u.size() - k) * 2)) { c.violation("samples", "buffer %d differs: %s", i, d.c_str()); break; } if (a.state(x) != b.state(y) || a.loc(x) != b.loc(y)) { c.violation("state", "state/location differ in buffer %d: %s", i, d.c_str()); break; } EAS_I32 c0 = -1, c1 = -1; EAS_GetNoteCount(a.h, x, &c0); EAS_GetNoteCount(b.h, y, &c1); if (c0 != c1) c.violation("count", "notes %ld and %ld: %s", (long)c0, (long)c1, d.c_str()); }
    if (!silent(u)) c.nontrivial = true; EAS_CloseFile(a.h, x); EAS_CloseFile(b.h, y); }
static void refuseCase(Ctx &c) {
    Rng &r = c.rng; Bytes all = prefix(r); while (has(all, all.size())) all = prefix(r); Eas e; EAS_HANDLE h; Bytes good = genSong(r, false, 30); c.caseHash = fnv(all); c.sample = strf("%zu bytes that are no song: %s", all.size(), hexs(all, 40).c_str()); int n = r.range(1, 8); for (int i = 0; i < n; i++) { EAS_SetHeaderSearchFlag(e.h, r.chance(1, 2)); EAS_RESULT x = e.open(all, &h); if (x != EAS_ERROR_UNRECOGNIZED_FORMAT && x != EAS_EOF) { c.violation("refuse", "opening gives %ld: %s", (long)x, c.sample.c_str()); return; } } c.count("refusals", n); EAS_RESULT x = e.open(good, &h); if (x) { c.violation("after", "a song opened after %d refusals gives %ld", n, (long)x); return; } c.nontrivial = true; EAS_CloseFile(e.h, h); }
// the number of notes
static void countCase(Ctx &c) {
    Rng &r = c.rng; Eas e; if (r.chance(1, 2)) { EAS_HANDLE h = e.stream(), o = r.chance(1, 2) ? e.stream() : nullptr; long want = 0, ow = 0; Bytes log; if (r.chance(1, 3)) EAS_SetPolyphony(e.h, h, r.range(1, 8)); for (int i = 0; i < 40; i++) { int n = r.range(0, 6); Bytes b; int k = 0; while (n--) { Bytes m = genMsg(r, false); if (m[0] >= 0xf0) continue; k += noteOns(m); cat(b, m); } bool other = o && r.chance(1, 3); if (!b.empty()) e.write(other ? o : h, b); cat(log, b); (other ? ow : want) += k; if (r.chance(1, 2)) e.render(nullptr); EAS_I32 got = -1; EAS_RESULT x = EAS_GetNoteCount(e.h, h, &got); if (x || got != want) { c.violation("count", "%ld notes were struck, the count is %ld (%ld): %s", want, (long)got, (long)x, hexs(log, 300).c_str()); return; } if (o) { EAS_GetNoteCount(e.h, o, &got); if (got != ow) { c.violation("count", "%ld notes were struck on the second stream, the count is %ld", ow, (long)got); return; } } } c.count("live_counts"); c.count("notes", want + ow); c.nontrivial = want > 0; c.caseHash = fnv(log); c.sample = strf("live stream, %ld notes", want); return; }
    SmfOpt o; o.division = 500; int nt = r.range(1, 5); std::vector<Track> ts; std::vector<uint32_t> at; uint32_t last = 0; for (int i = 0; i < nt; i++) { Track t = genTrack(r, r.range(1, 50), 40, false); t.erase(std::remove_if(t.begin(), t.end(), [](const Ev &v) { return v.b[0] == 0xff && v.b[1] == 0x51; }), t.end()); for (auto &v : t) { if (noteOns(v.b)) at.push_back(v.tick); last = std::max(last, v.tick); } ts.push_back(t); }
    for (auto &t : ts) sortTrack(t); Bytes b = buildSmf(ts, o); c.caseHash = fnv(b); c.sample = strf("song of %zu notes in %u ms", at.size(), last); EAS_HANDLE h = e.openPrep(b); if (!h) { c.violation("refused", "a good song is refused: %s", hexs(b, 200).c_str()); return; } double bs = 1486.0 / 256; long prev = 0; if (e.bufN == 128) {} int n = (int)(last / e.bufMs()) + 6;
    for (int i = 0; i < n; i++) { if (e.render(nullptr)) break; EAS_I32 got = -1; EAS_GetNoteCount(e.h, h, &got); long lo = 0, hi = 0; double now = (i + 1) * bs; for (uint32_t t : at) { if (t + 1.01 < now) lo++; if (t < now + 1.01) hi++; } if (got < prev || got < lo || got > hi) { c.violation("count", "after buffer %d (%.1f ms) the count is %ld, %ld..%ld notes were struck: %s", i, now, (long)got, lo, hi, hexs(b, 300).c_str()); return; } prev = got; } c.count("song_counts"); c.count("notes", prev); c.nontrivial = !at.empty(); EAS_CloseFile(e.h, h); }
void vh_case(Ctx &c) { int k = c.rng.below(8); if (k < 5) searchCase(c); else if (k < 6) refuseCase(c); else countCase(c); }
