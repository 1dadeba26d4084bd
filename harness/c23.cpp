// C23: metadata delivery: complete, in order, at its time, within the buffer, without effect on playback.
#include "probe.h"
const char *vh_property = "C23";
struct Text { uint32_t at; int track, no, type; Bytes b; };
struct Got { int type; Bytes data; int buf; bool fits; };
struct Sink { std::vector<char> mem; char *buf; long size; std::vector<Got> got; int now = 0; int calls = 0; std::string err; static const int G = 32; std::unique_ptr<char[]> exact;
    void init(long n) { size = n; exact.reset(); 
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        exact.reset(new char[n]); buf = exact.get(); memset(buf, 0x55, n); mem.clear(); return;
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
        exact.reset(new char[n]); buf = exact.get(); memset(buf, 0x55, n); mem.clear(); return;
#endif
        mem.assign(n + 2 * G, (char)0xA5); buf = mem.data() + G; memset(buf, 0x55, n); }
    bool guards() { if (mem.empty()) return true; for (int i = 0; i < G; i++) if (mem[i] != (char)0xA5 || mem[mem.size() - 1 - i] != (char)0xA5) return false; return true; } };
static Sink *g_last; 
static void cb(E_EAS_METADATA_TYPE t, char *buf, EAS_VOID_PTR user) { Sink *s = (Sink *)user; s->calls++; if (buf != s->buf) { s->err = "another buffer than the registered one"; return; } g_last = s; Got g; g.type = t; g.buf = s->now; g.data.assign((uint8_t *)buf, (uint8_t *)buf + s->size); g.fits = true; s->got.push_back(g); if (!s->guards()) s->err = "bytes around the buffer were changed"; memset(buf, 0x55, s->size); }
static int wantType(int meta) { return meta == 1 ? EAS_METADATA_TEXT : meta == 2 ? EAS_METADATA_COPYRIGHT : meta == 3 ? EAS_METADATA_TITLE : meta == 5 ? EAS_METADATA_LYRIC : 0; }
struct Song { Bytes b; std::vector<Text> texts; uint32_t len; int div; std::string d; };
static Song makeSong(Rng &r, bool exact) {
    Song s; SmfOpt o; o.division = exact ? 500 : r.pick(std::vector<int>{24, 96, 480, 960}); s.div = o.division; int nt = r.range(1, 5); std::vector<Track> ts(nt); s.len = 0; uint32_t span = exact ? r.range(20, 800) : r.range(5, 400); int voices = 0;
    for (int t = 0; t < nt; t++) { int n = r.range(0, 14); for (int i = 0; i < n; i++) { Text x; x.at = r.chance(1, 5) ? 0 : r.below(span + 1); x.track = t; x.no = i; x.type = r.pick(std::vector<int>{1, 2, 3, 5, 1, 5, 4, 6, 7, 9, 0x7f, 0x20}); x.b.clear(); size_t len = r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.range(100, 600) : r.range(1, 40); std::string tag = strf("%d.%d:", t, i); for (size_t k = 0; k < len; k++) x.b.push_back(k < tag.size() ? tag[k] : r.chance(1, 12) ? r.byte() : (uint8_t)('a' + r.below(26))); s.texts.push_back(x); }
        int notes = r.range(0, 6); for (int i = 0; i < notes && voices < 20; i++, voices++) { uint32_t at = r.below(span + 1); ts[t].push_back(evNote(at, t, r.range(40, 90), r.range(40, 127))); ts[t].push_back(evOff(at + r.below(60), t, 60)); } if (!exact && r.chance(1, 2)) ts[t].push_back(evTempo(r.below(span + 1), r.range(100000, 900000))); if (r.chance(1, 3)) ts[t].push_back(evSysex(r.below(span + 1), {0x41, 1, 2, 0xF7})); }
    std::stable_sort(s.texts.begin(), s.texts.end(), [](const Text &a, const Text &b) { return a.track != b.track ? a.track < b.track : a.at != b.at ? a.at < b.at : a.no < b.no; }); for (auto &x : s.texts) ts[x.track].push_back(evMeta(x.at, x.type, x.b)); 
    for (auto &t : ts) { sortTrack(t); if (!t.empty()) s.len = std::max(s.len, t.back().tick); } o.running = r.chance(1, 3); o.vlPad = r.chance(1, 6) ? r.range(1, 2) : 0; s.b = buildSmf(ts, o); s.d = strf("%d tracks, %zu texts, division %d", nt, s.texts.size(), s.div); return s;
}
// the deliveries of one pass against the song
static bool checkPass(Ctx &c, const Song &s, Sink &k, size_t from, size_t to, bool timed, const char *what) {
    std::vector<const Text *> want; for (auto &t : s.texts) if (wantType(t.type)) want.push_back(&t); auto bad = [&](const char *key, const std::string &m) { c.violation(key, "%s: %s; buffer of %ld; %s; %s", what, m.c_str(), k.size, s.d.c_str(), hexs(s.b, 400).c_str()); return false; };
    if (!k.err.empty()) return bad("buffer", k.err); if (to - from != want.size()) return bad("count", strf("%zu deliveries, the song has %zu texts", to - from, want.size()));
    // each delivery must match the next text of some track at the smallest time
    std::map<int, std::vector<const Text *>> per; for (auto *t : want) per[t->track].push_back(t); std::map<int, size_t> next; uint32_t prev = 0;
    auto match = [&](const Got &g, const Text &t) { if (g.type != wantType(t.type)) return false; size_t n = std::min<size_t>(t.b.size(), k.size - 1); return (!n || memcmp(g.data.data(), t.b.data(), n) == 0) && g.data[n] == 0; };
    // texts may be identical: search with backtracking over tracks (small)
    std::function<bool(size_t, std::map<int, size_t>, uint32_t)> go = [&](size_t i, std::map<int, size_t> nx, uint32_t pv) -> bool { if (i == to) return true; uint32_t mn = 0xffffffff; for (auto &p : per) if (nx[p.first] < p.second.size()) mn = std::min(mn, p.second[nx[p.first]]->at); bool deep = false; for (auto &p : per) { if (nx[p.first] >= p.second.size()) continue; const Text &t = *p.second[nx[p.first]]; if (t.at != mn || !match(k.got[i], t)) continue; if (timed) { int due = 0; while ((1486L * (due + 1)) >> 8 <= (long)t.at) due++; if (k.got[i].buf != due) continue; } auto n2 = nx; n2[p.first]++; if (go(i + 1, n2, t.at)) return true; if (deep) break; deep = false; } return false; };
    (void)next; (void)prev; c.count("deliveries", to - from);
    if (!go(from, {}, 0)) { std::string g; for (size_t i = from; i < to; i++) { size_t n = 0; while (n < k.got[i].data.size() && k.got[i].data[n]) n++; g += strf(" [%d @%d %.*s]", k.got[i].type, k.got[i].buf, (int)std::min<size_t>(n, 12), (const char *)k.got[i].data.data()); } std::string w; for (auto *t : want) w += strf(" [%d @%u %.*s]", wantType(t->type), t->at, (int)std::min<size_t>(t->b.size(), 12), (const char *)t->b.data()); return bad("content", "delivered" + g + ", expected" + w); }
    return true;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; bool exact = r.chance(2, 3); Song s = makeSong(r, exact); Song s2; bool two = r.chance(1, 3); if (two) s2 = makeSong(r, r.chance(1, 2)); Eas e, f; EAS_HANDLE h = nullptr, g = f.openPrep(s.b); if (e.open(s.b, &h) || !g) { c.violation("open", "refused: %s", s.d.c_str()); return; } Sink k, k2, dead; long size = r.chance(1, 8) ? 1 : r.chance(1, 8) ? 2 : r.range(3, 100); if (r.chance(1, 6)) size = 700; k.init(size); dead.init(10);
    c.caseHash = fnv(s.b) ^ size; c.sample = s.d + strf(", buffer %ld", size); for (auto &t : s.texts) if (wantType(t.type)) c.nontrivial = true;
    if (r.chance(1, 10) && EAS_RegisterMetaDataCallback(e.h, h, cb, k.buf, size, &k) == EAS_SUCCESS) c.violation("unprepared", "callback accepted before EAS_Prepare");
    EAS_Prepare(e.h, h); EAS_HANDLE hb = nullptr, gb = nullptr; if (two) { hb = e.openPrep(s2.b); gb = f.openPrep(s2.b); k2.init(r.range(1, 50)); if (hb && EAS_RegisterMetaDataCallback(e.h, hb, cb, k2.buf, k2.size, &k2)) c.violation("register", "second registration refused"); }
    if (r.chance(1, 4)) { static const long sz[] = {0, -1, -5, -0x7fffffffL - 1}; EAS_RESULT x = EAS_RegisterMetaDataCallback(e.h, h, cb, dead.buf, r.pick(sz), &dead); (void)x; c.count("useless_buffers"); }   // may be refused; must not be written, and must not change playback
    bool reg = r.chance(4, 5), early = r.chance(1, 2); if (reg && early) { if (EAS_RegisterMetaDataCallback(e.h, h, cb, dead.buf, dead.size, &dead)) c.violation("register", "registration refused"); } if (reg && EAS_RegisterMetaDataCallback(e.h, h, cb, k.buf, size, &k)) c.violation("register", "registration refused");
    bool parse = r.chance(1, 2); int times = parse ? r.range(1, 2) : 0; EAS_I32 l1 = -1, l2 = -1;
    for (int i = 0; i < times; i++) { size_t from = k.got.size(); EAS_RESULT x = EAS_ParseMetaData(e.h, h, &l1); if (i == 0) { EAS_RESULT y = EAS_ParseMetaData(f.h, g, &l2); if (x != y || l1 != l2) c.violation("length", "length %ld (%ld) with a callback, %ld (%ld) without: %s", (long)l1, (long)x, (long)l2, (long)y, s.d.c_str()); if (!x && exact && l1 != (long)s.len) c.violation("length", "length %ld, the song has %u ms", (long)l1, s.len); } if (reg && !x) checkPass(c, s, k, from, k.got.size(), false, "EAS_ParseMetaData"); else if (!reg && k.calls) c.violation("unregistered", "delivery without a registration"); c.count("parses"); }
    if (c.failed()) goto out;
    { // a fresh twin never parsed: the song must play as it does there
        Eas v; EAS_HANDLE w = v.openPrep(s.b), wb = two ? v.openPrep(s2.b) : nullptr; if (two && !wb != !hb) c.violation("open", "twin"); bool drop = reg && r.chance(1, 6); int dropAt = r.below(40); int rep = r.chance(1, 5) ? r.range(1, 2) : 0; EAS_SetRepeat(e.h, h, rep); EAS_SetRepeat(v.h, w, rep); size_t from = k.got.size(); int calls0 = k.calls; bool ended = false, dropped = false; size_t lost = 0; 
        for (int i = 0; i < 3000 && !c.failed(); i++) { k.now = k2.now = i; if (drop && i == dropAt) { EAS_RegisterMetaDataCallback(e.h, h, nullptr, nullptr, 0, nullptr); dropped = true; lost = k.got.size(); } Pcm p, q; EAS_RESULT x = e.render(&p, 1), y = v.render(&q, 1); long d = firstDiff(p, q); if (x != y || d >= 0) { c.violation("playback", "playback with metadata (%d parses) differs from plain playback in buffer %d, frame %ld (%ld/%ld): %s", times, i, d, (long)x, (long)y, s.d.c_str()); break; } if (e.loc(h) != v.loc(w) || e.state(h) != v.state(w)) { c.violation("playback", "state or location differs in buffer %d: %s", i, s.d.c_str()); break; } c.count("buffers"); EAS_STATE st = e.state(h); if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR || (st == EAS_STATE_STOPPING && !rep)) { ended = true; break; } if (i > 400 && st == EAS_STATE_STOPPING && rep) { } }
        if (!k.err.empty()) c.violation("buffer", "%s: %s", k.err.c_str(), s.d.c_str()); if (dropped) { if (k.got.size() != lost) c.violation("unregistered", "delivery after the callback was removed: %s", s.d.c_str()); } else if (!reg) { if (k.calls != calls0) c.violation("unregistered", "delivery without a registration"); } else if (ended && !c.failed()) { size_t n = 0; for (auto &t : s.texts) if (wantType(t.type)) n++; if (k.got.size() - from != n * (rep + 1)) c.violation("count", "%zu deliveries in %d passes, the song has %zu texts: %s; %s", k.got.size() - from, rep + 1, n, s.d.c_str(), hexs(s.b, 400).c_str()); else for (int q = 0; q <= rep; q++) checkPass(c, s, k, from + q * n, from + (q + 1) * n, exact && q == 0, "playback"); c.count("passes", rep + 1); }
        if (two && hb && k2.got.size()) { for (auto &gt : k2.got) { bool any = false; for (auto &t : s2.texts) if (gt.type == wantType(t.type)) { size_t n = std::min<size_t>(t.b.size(), k2.size - 1); if ((!n || !memcmp(gt.data.data(), t.b.data(), n)) && gt.data[n] == 0) any = true; } if (!any) c.violation("mixed", "the second song's callback got a text that is not in it: %s", s2.d.c_str()); } if (!k2.err.empty()) c.violation("buffer", "second song: %s", k2.err.c_str()); }
        // seeks deliver nothing that is not in the song
        if (reg && !dropped && r.chance(1, 3) && !c.failed()) { size_t n0 = k.got.size(); EAS_Locate(e.h, h, r.below(s.len + 1), 0); for (int i = 0; i < 5; i++) { Pcm p; e.render(&p, 1); } EAS_Locate(e.h, h, r.below(s.len + 1), 0); for (size_t i = n0; i < k.got.size(); i++) { bool any = false; for (auto &t : s.texts) if (k.got[i].type == wantType(t.type)) { size_t n = std::min<size_t>(t.b.size(), k.size - 1); if ((!n || !memcmp(k.got[i].data.data(), t.b.data(), n)) && k.got[i].data[n] == 0) any = true; } if (!any) c.violation("invented", "after a seek a text was delivered that is not in the song: %s", s.d.c_str()); } c.count("seeks"); }
        if (wb) EAS_CloseFile(v.h, wb); EAS_CloseFile(v.h, w);
    }
    if (dead.calls) c.violation("unregistered", "delivery to a replaced or refused registration"); if (!dead.guards()) c.violation("buffer", "memory around a useless buffer was changed");
out:
    if (hb) EAS_CloseFile(e.h, hb); if (gb) EAS_CloseFile(f.h, gb); EAS_CloseFile(e.h, h); EAS_CloseFile(f.h, g);
}
