// C28: reset messages return a stream to its power-on sound.
#include "scen.h"
const char *vh_property = "C28";
static const Bytes GMON{0xF0, 0x7E, 0x7F, 9, 1, 0xF7}, GM2ON{0xF0, 0x7E, 0x7F, 9, 3, 0xF7};
struct At { int buf; Bytes m; };
static std::string show(const std::vector<At> &v) { std::string s; for (auto &a : v) s += strf(" %d:%s", a.buf, hexs(a.m).c_str()); return s; }
// messages that move the channel state, and notes that make it heard, few at a time
static std::vector<At> probe(Rng &r, int buffers) {
    std::vector<At> v; int n = r.range(1, 7); std::vector<int> chs; int nc = r.range(1, 4); for (int i = 0; i < nc; i++) chs.push_back(r.chance(1, 4) ? 9 : r.below(16)); static const int progs[] = {16, 19, 48, 52, 61, 80, 81, 90};
    bool plain = r.chance(1, 3); for (int i = 0; i < n; i++) { int ch = r.pick(chs), at = r.below(buffers), key = r.range(36, 90), len = r.range(1, 20), vel = r.range(30, 127); if (!plain && r.chance(1, 3)) v.push_back({at, {(uint8_t)(0xC0 | ch), (uint8_t)(r.chance(1, 2) ? r.pick(progs) : r.below(128))}}); v.push_back({at, {(uint8_t)(0x90 | ch), (uint8_t)key, (uint8_t)vel}}); v.push_back({at + len, {(uint8_t)(0x80 | ch), (uint8_t)key, 64}});
        if (!plain) { int k = r.below(4); for (int j = 0; j < k; j++) { int b = r.below(buffers), val = r.below(128); switch (r.below(6)) { case 0: v.push_back({b, {(uint8_t)(0xE0 | ch), (uint8_t)r.below(128), (uint8_t)val}}); break; case 1: v.push_back({b, {(uint8_t)(0xB0 | ch), 6, (uint8_t)val}}); break; case 2: v.push_back({b, {(uint8_t)(0xD0 | ch), (uint8_t)val}}); break; default: { static const int cc[] = {1, 7, 10, 11, 64, 6, 100, 101}; v.push_back({b, {(uint8_t)(0xB0 | ch), (uint8_t)r.pick(cc), (uint8_t)val}}); } } } } }
    std::stable_sort(v.begin(), v.end(), [](const At &a, const At &b) { return a.buf < b.buf; }); return v; }
static std::vector<At> history(Rng &r, int buffers, bool sys) {
    std::vector<At> v; int n = r.chance(1, 4) ? r.range(30, 200) : r.range(0, 25); for (int i = 0; i < n; i++) { Bytes m = genMsg(r, false); int ch = r.chance(1, 6) ? 9 : r.below(4), b = r.below(buffers); switch (r.below(14)) {
        case 0: { int rpn = r.below(3), val = r.below(rpn ? 128 : 25); m = {(uint8_t)(0xB0 | ch), 101, 0, (uint8_t)(0xB0 | ch), 100, (uint8_t)rpn, (uint8_t)(0xB0 | ch), 6, (uint8_t)val}; break; }
        case 1: m = {(uint8_t)(0xB0 | ch), 0, (uint8_t)(r.chance(1, 2) ? 0x78 : r.chance(1, 2) ? 0x79 : r.below(128)), (uint8_t)(0xC0 | ch), (uint8_t)r.below(128)}; break;
        case 2: m = {(uint8_t)(0xB0 | ch), 64, 127}; break;
        case 3: if (sys) { m = {0xF0, 0x7F, 0x7F, 0x0B, 1}; int k = r.range(1, 8); for (int j = 0; j < k; j++) { m.push_back(r.below(16)); m.push_back(r.range(1, 40)); } m.push_back(0xF7); } break;
        case 4: m = {(uint8_t)(0xE0 | ch), (uint8_t)r.below(128), (uint8_t)r.below(128)}; break; default: break; } v.push_back({b, m}); }
    std::stable_sort(v.begin(), v.end(), [](const At &a, const At &b) { return a.buf < b.buf; }); return v; }
static Pcm play(Eas &e, EAS_HANDLE s, const std::vector<At> &v, int buffers, int from = 0) { Pcm p; size_t i = 0; for (int b = 0; b < buffers; b++) { while (i < v.size() && v[i].buf <= b + from) e.write(s, v[i++].m); e.render(&p, 1); } return p; }
// GM On, or closing the stream and opening another one
static void gmOn(Ctx &c) {
    Rng &r = c.rng; int hb = r.range(1, 40), pb = r.range(5, 50); bool fresh = r.chance(1, 4); std::vector<At> h = history(r, hb, r.chance(1, 4)), p = probe(r, pb); bool dls = r.chance(1, 5); Bytes bank; if (dls) bank = buildDls(genDlsSpec(r, false)); bool song = fresh && r.chance(1, 3); int trans = r.chance(1, 4) ? r.range(-12, 12) : 0; Bytes reset = r.chance(1, 3) ? GM2ON : GMON; int extra = r.chance(1, 4) ? r.range(1, 3) : 0;
    std::string d = strf("%s%s%s trans %d x%d, history%s | probe%s", fresh ? "reopen" : "GM On", song ? " after song" : "", dls ? " bank" : "", trans, extra, show(h).c_str(), show(p).c_str()); c.caseHash = fnv(d.data(), d.size()); c.sample = d.substr(0, 300);
    Eas e, f; EAS_HANDLE a = nullptr, b = f.stream(); int wait = 0;
    if (!fresh) { a = e.stream(); if (dls) { EAS_LoadDLSCollection(e.h, a, e.file(bank)->locator()); EAS_LoadDLSCollection(f.h, b, f.file(bank)->locator()); } if (trans) { EAS_SetTransposition(e.h, a, trans); EAS_SetTransposition(f.h, b, trans); } Pcm x = play(e, a, h, hb); EAS_RESULT y = e.write(a, reset); if (y) { c.violation("write", "GM On refused (%ld): %s", (long)y, d.c_str()); return; } for (int i = 0; i < extra; i++) e.write(a, reset); bool sounding = !silent(x, x.size() / 2 > (size_t)e.bufN ? x.size() / 2 - e.bufN : 0); if (sounding) c.count("reset_while_sounding"); }
    else { if (song) { std::vector<Track> t(1); for (auto &x : h) if (x.m.size() <= 3) t[0].push_back({(uint32_t)x.buf * 6, x.m}); SmfOpt o; o.division = 500; a = e.openPrep(buildSmf(t, o)); if (!a) a = e.stream(); else { Pcm x; e.render(&x, hb); EAS_CloseFile(e.h, a); a = nullptr; } } else { a = e.stream(); if (dls) EAS_LoadDLSCollection(e.h, a, e.file(bank)->locator()); if (trans) EAS_SetTransposition(e.h, a, trans); play(e, a, h, hb); EAS_CloseMIDIStream(e.h, a); a = nullptr; } if (!a) a = e.stream(); if (!a) { c.violation("reopen", "no stream after closing one: %s", d.c_str()); return; } c.count("reopened"); }
    // all sound stops
    { Pcm t; wait = 4; e.render(&t, wait); size_t from = fresh && !song ? 0 : 2; if (dls && !silent(t, from * e.bufN)) { int q = 0; for (; q < 4000; q++) { Pcm u, w; e.render(&u, 1); f.render(&w, 1); if (silent(u)) break; } c.count("bank_shutdown_buffers", q); if (q == 4000) { c.count("skipped_long_shutdown"); return; } Pcm u, w; e.render(&u, 3); f.render(&w, 3); if (!silent(u)) { c.count("skipped_long_shutdown"); return; } }   // a bank says itself how long its cut notes take
      else if (!silent(t, from * e.bufN)) { c.violation("sound-stays", "still sounding %zu buffers after %s: %s", from, fresh ? "closing" : "GM On", d.c_str()); return; } Pcm t2; f.render(&t2, wait); }
    Pcm x = play(e, a, p, pb + 25), y = play(f, b, p, pb + 25); c.count(fresh ? "reopen_probes" : "gm_on_probes"); c.count("history_messages", (int64_t)h.size()); c.nontrivial = !silent(y); long at = firstDiff(x, y); if (at >= 0) c.violation(fresh ? "reopen" : "gm-on", "the stream sounds different from a fresh one at frame %ld (buffer %ld): %s", at, at / e.bufN, d.c_str()); }
// the same inside a song: what precedes GM On does not matter for what follows it
static void gmOnSong(Ctx &c) {
    Rng &r = c.rng; int hb = r.range(1, 40), pb = r.range(5, 50), gap = 5; std::vector<At> h = history(r, hb, false), p = probe(r, pb); std::vector<Track> X(1), Y(1); auto ms = [](int b) { return (uint32_t)(b * 6); }; Bytes k = r.chance(1, 3) ? Bytes{0x7e, 0x7f, 9, 3, 0xf7} : Bytes{0x7e, 0x7f, 9, 1, 0xf7}; std::string d = "song, history" + show(h) + " | probe" + show(p); c.caseHash = fnv(d.data(), d.size()); c.sample = d.substr(0, 300);
    auto put = [](Track &t, uint32_t at, const Bytes &m) { if (m[0] == 0xF0) { t.push_back(evSysex(at, Bytes(m.begin() + 1, m.end()))); return; } for (size_t i = 0; i < m.size();) { size_t n = (m[i] & 0xE0) == 0xC0 ? 2 : 3; t.push_back({at, Bytes(m.begin() + i, m.begin() + i + n)}); i += n; } };
    for (auto &x : h) put(X[0], ms(x.buf) + 1, x.m); uint32_t T = ms(hb) + 2; X[0].push_back(evSysex(T, k)); Y[0].push_back(evSysex(T, k)); for (auto &x : p) { put(X[0], T + ms(gap + x.buf), x.m); put(Y[0], T + ms(gap + x.buf), x.m); } SmfOpt o; o.division = 500; Eas e, f; EAS_HANDLE a = e.openPrep(buildSmf(X, o)), b = f.openPrep(buildSmf(Y, o)); if (!a || !b) return; int n = (T + ms(gap + pb + 20)) / 5; Pcm x, y; e.render(&x, n); f.render(&y, n); size_t from = (size_t)(T + 3 * 6) * e.rate / 1000; c.count("song_probes"); c.nontrivial = !silent(y, from);
    for (size_t i = from * 2; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) { c.violation("gm-on-song", "what precedes GM On at %u ms still changes the sound at frame %zu (%zu ms): %s", T, i / 2, i / 2 * 1000 / e.rate, d.c_str()); return; } }
// Reset All Controllers is the explicit defaults of the controllers and nothing else
static void cc121(Ctx &c) {
    Rng &r = c.rng; int hb = r.range(1, 40), pb = r.range(5, 50), ch = r.chance(1, 6) ? 9 : r.below(4); std::vector<At> h = history(r, hb, r.chance(1, 6)), p = probe(r, pb); for (auto &x : p) if (r.chance(1, 2) && x.m[0] < 0xF0) x.m[0] = (x.m[0] & 0xF0) | ch; std::string d = strf("CC121 on %d, history%s | then%s", ch, show(h).c_str(), show(p).c_str()); c.caseHash = fnv(d.data(), d.size()); c.sample = d.substr(0, 300); Eas e, f; EAS_HANDLE a = e.stream(), b = f.stream(); play(e, a, h, hb); play(f, b, h, hb); uint8_t B = 0xB0 | ch; e.write(a, {B, 121, (uint8_t)r.below(128)});
    std::vector<Bytes> ex{{B, 1, 0}, {B, 11, 127}, {B, 64, 0}, {(uint8_t)(0xE0 | ch), 0, 64}, {(uint8_t)(0xD0 | ch), 0}, {B, 101, 0, B, 100, 0, B, 6, 2, B, 101, 0, B, 100, 1, B, 6, 64, B, 101, 0, B, 100, 2, B, 6, 64, B, 101, 127, B, 100, 127}}; for (size_t i = ex.size(); i > 1; i--) std::swap(ex[i - 1], ex[r.below((uint32_t)i)]); for (auto &m : ex) f.write(b, m);
    Pcm x = play(e, a, p, pb + 25), y = play(f, b, p, pb + 25); c.count("cc121_probes"); c.nontrivial = !silent(y); long at = firstDiff(x, y); if (at >= 0) c.violation("cc121", "Reset All Controllers and the explicit defaults sound different at frame %ld (buffer %ld): %s", at, at / e.bufN, d.c_str()); }
void vh_case(Ctx &c) { switch (c.rng.below(5)) { case 0: case 1: gmOn(c); break; case 2: gmOnSong(c); break; default: cc121(c); } }
