// C32: SP-MIDI: a maximum-instantaneous-polyphony message silences exactly the channels that do not fit the polyphony.
#include "probe.h"
const char *vh_property = "C32";
struct Model {   // what the messages and limits so far mean
    bool on = false; int mip[16] = {}; int stream = 0, inst = 0, maxv = 0;
    int poly() const { return stream && stream < inst ? stream : inst; }
    bool muted(int ch) const { return on && (mip[ch] == 0 || mip[ch] > poly()); }
    void limit(int n) { stream = n > maxv ? 0 : n; } void instance(int n) { inst = std::max(1, std::min(n, maxv)); }
    std::string str() const { std::string s = strf("polyphony %d:", poly()); for (int i = 0; i < 16; i++) if (!muted(i)) s += strf(" %d", i); return s; }
};
// a well-formed message: distinct channels in priority order with cumulative polyphony
static Bytes mipMsg(Rng &r, Model &m, int maxv) {
    Bytes b{0xf0, 0x7f, 0x7f, 0x0b, 0x01}; std::vector<int> ch; for (int i = 0; i < 16; i++) ch.push_back(i); for (int i = 15; i > 0; i--) std::swap(ch[i], ch[r.below(i + 1)]);
    int n = r.chance(1, 4) ? 16 : r.range(1, 16), v = r.chance(1, 3) ? 0 : r.range(0, 6); m.on = true; memset(m.mip, 0, sizeof m.mip); for (int i = 0; i < n; i++) { if (r.chance(2, 3)) v += r.below(r.chance(1, 4) ? maxv : 6); v = std::min(v, 127); b.push_back(ch[i]); b.push_back(v); m.mip[ch[i]] = v; } b.push_back(0xf7); return b; }
static const int SUST[] = {16, 17, 18, 19, 20, 49, 50, 52, 61, 80, 81};
static Bytes setup(Rng &r) { Bytes b; for (int ch = 0; ch < 16; ch++) if (ch != 9) { b.push_back(0xc0 | ch); b.push_back(r.pick(SUST)); } return b; }
static int keyOf(Rng &r, int ch) { return ch == 9 ? 38 : r.range(50, 75); }

static void live(Ctx &c) {
    Rng &r = c.rng; Eas e; EAS_HANDLE h = e.stream(), o = r.chance(1, 2) ? e.stream() : nullptr; Model m, mo; EAS_I32 q = 0; EAS_GetSynthPolyphony(e.h, 0, &q); m.maxv = mo.maxv = (int)q; m.inst = mo.inst = (int)q; if (!h) { c.violation("open", "cannot open a live stream"); return; }
    if (r.chance(1, 2)) EAS_SetPriority(e.h, h, r.range(0, 10)); Bytes su = setup(r); e.write(h, su); if (o) e.write(o, su); std::string tr; int steps = r.range(1, 8); bool changed = false;
    auto quiet = [&](EAS_HANDLE s, int ch, int within) { Pcm p; for (int i = 0; i < within; i++) { p.clear(); e.render(&p, 1); if (silent(p)) { p.clear(); e.render(&p, 1); if (silent(p)) return true; } } return false; };
    auto hears = [&](EAS_HANDLE s, int ch) { Pcm p; e.write(s, {(uint8_t)(0x90 | ch), (uint8_t)keyOf(r, ch), 110}); e.render(&p, 4); bool snd = !silent(p); e.write(s, {(uint8_t)(0xb0 | ch), 120, 0}); if (snd && !quiet(s, ch, 12)) c.violation("no-silence", "channel %d sounds on after All Sound Off:%s", ch, tr.c_str()); return snd; };
    auto all = [&](EAS_HANDLE s, const Model &md, const char *who, int n) { for (int i = 0; i < n && !c.failed(); i++) { int ch = n == 16 ? i : r.below(16); bool snd = hears(s, ch); c.count(md.muted(ch) ? "muted_channels_checked" : "open_channels_checked"); if (snd == md.muted(ch)) c.violation(snd ? "sounds" : "mute", "channel %d of the %s %s, MIP %d (%s):%s", ch, who, snd ? "sounds" : "is silent", md.mip[ch], md.str().c_str(), tr.c_str()); } };
    for (int i = 0; i < steps && !c.failed(); i++) {
        int held = r.chance(2, 3) ? (int)r.below(16) : -1; if (held == 9) held = 8; bool was = held >= 0 && !m.muted(held); int hk = 60; Pcm p; if (was) { e.write(h, {(uint8_t)(0x90 | held), (uint8_t)hk, 110}); if (r.chance(3, 4)) e.render(&p, r.range(1, 12)); if (r.chance(1, 4)) e.write(h, {(uint8_t)(0xb0 | held), 64, 127}); }
        bool reset = false; switch (r.below(8)) {
        case 0: case 1: case 2: { Bytes b = mipMsg(r, m, m.maxv); tr += " " + hexs(b); if (r.chance(1, 3)) { size_t k = r.range(1, (int)b.size() - 1); e.write(h, Bytes(b.begin(), b.begin() + k)); if (r.chance(1, 2)) e.render(&p, 1); e.write(h, Bytes(b.begin() + k, b.end())); } else e.write(h, b); break; }
        case 3: case 4: { int n = r.chance(1, 4) ? 0 : r.chance(1, 6) ? m.maxv + r.range(0, 5) : r.range(1, r.chance(1, 2) ? 8 : m.maxv); EAS_RESULT x = EAS_SetPolyphony(e.h, h, n); tr += strf(" polyphony(%d)", n); if (x) c.violation("set", "EAS_SetPolyphony(%d) returns %ld:%s", n, (long)x, tr.c_str()); m.limit(n); break; }
        case 5: { int n = r.chance(1, 4) ? m.maxv : r.range(1, r.chance(1, 2) ? 8 : m.maxv); EAS_SetSynthPolyphony(e.h, 0, n); tr += strf(" instance(%d)", n); m.instance(n); mo.instance(n); break; }
        case 6: if (r.chance(1, 2)) { e.write(h, {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}); e.write(h, su); tr += " GM"; m.on = false; reset = true; } break;
        case 7: if (o) { Bytes b = mipMsg(r, mo, m.maxv); tr += " other:" + hexs(b); e.write(o, b); } break; }
        if (was && !reset) { bool now = !m.muted(held); if (now) { p.clear(); e.render(&p, 20); p.clear(); e.render(&p, 3); c.count("held_notes_kept"); if (silent(p)) c.violation("cut", "a held note on channel %d, which may sound (%s), is cut off:%s", held, m.str().c_str(), tr.c_str()); e.write(h, {(uint8_t)(0xb0 | held), 64, 0, 120, 0}); } else { c.count("held_notes_stopped"); changed = true; if (!quiet(h, held, (int)(4000 / e.bufMs()))) c.violation("hangs", "a note held on channel %d sounds 4 s after the channel was muted (%s):%s", held, m.str().c_str(), tr.c_str()); e.write(h, {(uint8_t)(0xb0 | held), 64, 0}); } }
        if (!quiet(h, 0, 30)) { e.write(h, {0xb0, 120, 0}); if (held >= 0) e.write(h, {(uint8_t)(0xb0 | held), 64, 0, 120, 0}); quiet(h, 0, 30); }
        all(h, m, "stream", i == steps - 1 ? 16 : r.range(1, 5)); if (o) all(o, mo, "other stream", 2);
    }
    c.nontrivial = c.counters["muted_channels_checked"] > 0; c.caseHash = fnv(tr.data(), tr.size()); c.sample = tr.substr(0, 200); (void)changed; EAS_CloseMIDIStream(e.h, h); if (o) EAS_CloseMIDIStream(e.h, o);
}
// the same from a song: single notes, each heard or not by the messages before it; also after seeking past them, and in a repeat
static void song(Ctx &c) {
    Rng &r = c.rng; Model m; Eas e; EAS_I32 q = 0; EAS_GetSynthPolyphony(e.h, 0, &q); m.maxv = m.inst = (int)q; if (r.chance(1, 2)) m.instance(r.range(1, 10)); if (r.chance(1, 3)) m.limit(r.range(1, m.maxv)); Track t; for (int ch = 0; ch < 16; ch++) if (ch != 9) t.push_back(evProg(0, ch, r.pick(SUST)));
    struct N { int at, ch; bool heard; }; std::vector<N> ns; int at = 20, n = r.range(3, 14); int msgs = 0; std::string tr = m.str();
    for (int i = 0; i < n; i++) { if (r.chance(1, 2)) { Model k = m; Bytes b = mipMsg(r, k, m.maxv); m = k; t.push_back(evSysex(at, Bytes(b.begin() + 1, b.end()))); tr += strf(" @%d ", at) + hexs(b); msgs++; } else if (m.on && r.chance(1, 8)) { t.push_back(evSysex(at, {0x7e, 0x7f, 9, 1, 0xf7})); for (int ch = 0; ch < 16; ch++) if (ch != 9) t.push_back(evProg(at, ch, 19)); m.on = false; tr += strf(" @%d GM", at); }
        int ch = r.below(16), k = keyOf(r, ch); at += 20; ns.push_back({at, ch, !m.muted(ch)}); t.push_back(evNote(at, ch, k, 110)); t.push_back(evCC(at + 60, ch, 120, 0)); tr += strf(" %d:ch%d%s", at, ch, m.muted(ch) ? "(muted)" : ""); at += 140; }
    t.push_back(evCC(at, 0, 3, 0)); SmfOpt o; o.division = 500; sortTrack(t); Bytes b = buildSmf({t}, o); c.caseHash = fnv(b); c.sample = tr.substr(0, 200); EAS_SetSynthPolyphony(e.h, 0, m.inst); EAS_HANDLE s = e.openPrep(b); if (!s) { c.violation("refused", "refused: %s", tr.c_str()); return; } if (m.stream) EAS_SetPolyphony(e.h, s, m.stream);
    size_t first = 0; int base = 0; double bms = e.bufMs(); if (r.chance(1, 3) && ns.size() > 1) { first = r.range(1, (int)ns.size() - 1); int to = ns[first].at - 10; if (EAS_Locate(e.h, s, to, EAS_FALSE)) { c.violation("seek", "seek to %d fails: %s", to, tr.c_str()); return; } base = to; c.count("after_a_seek"); }
    bool rep = !first && r.chance(1, 4); if (rep) EAS_SetRepeat(e.h, s, 1); Pcm p; int total = (int)((at - base + 40) / bms); if (e.render(&p, total)) { c.violation("render", "render fails: %s", tr.c_str()); return; }
    size_t per = (size_t)e.bufN * e.chans; for (size_t i = first; i < ns.size(); i++) { size_t a = (size_t)((ns[i].at - base - 4) / bms) * per, z = std::min(p.size(), (size_t)((ns[i].at - base + 60) / bms) * per); bool snd = false; for (size_t k = a; k < z; k++) if (p[k]) snd = true; c.count(ns[i].heard ? "song_notes_heard" : "song_notes_muted"); if (snd != ns[i].heard) c.violation(snd ? "song-sounds" : "song-mute", "the note at %d ms on channel %d %s%s:%s", ns[i].at, ns[i].ch, snd ? "sounds" : "is silent", first ? " after a seek" : "", tr.c_str()); }
    c.nontrivial = msgs > 0; EAS_CloseFile(e.h, s);
}
void vh_case(Ctx &c) { if (c.rng.chance(1, 3)) song(c); else live(c); }
