// C16: how the bytes of the same MIDI messages are framed does not change what is heard.
#include "probe.h"
const char *vh_property = "C16";
typedef std::vector<std::vector<Bytes>> Sched;   // per buffer: messages
struct Run { Pcm p; std::vector<EAS_RESULT> bad; };
static std::vector<Bytes> frame(Rng &r, const std::vector<Bytes> &ms, bool running, bool realtime, bool junk, bool vel0, uint8_t &status, int &nTrans) {
    std::vector<Bytes> out; 
    for (auto m : ms) {
        if (junk && r.chance(1, 3)) { Bytes j; switch (r.below(12)) { case 0: j = {0xf1, (uint8_t)r.below(128)}; break; case 1: j = {0xf2, (uint8_t)r.below(128), (uint8_t)r.below(128)}; break; case 2: j = {0xf3, (uint8_t)r.below(128)}; break; case 3: j = {0xf6}; break; case 4: j = {0xf0, 0xf7}; break; case 5: { j = {0xf0, 0x7d}; int n = r.below(40); for (int i = 0; i < n; i++) j.push_back(r.below(128)); j.push_back(0xf7); break; }
            case 6: { j = {0xf0, 0x41, 0x10, 0x42, 0x12}; int n = r.below(10); for (int i = 0; i < n; i++) j.push_back(r.below(128)); j.push_back(0xf7); break; } case 7: { j = {0xf0, 0x7e, 0x7f, 0x06, 0x01, 0xf7}; break; } case 8: { j = {0xf0, 0x7f, 0x7f, 0x06, (uint8_t)r.range(1, 9), 0xf7}; break; }
            case 9: if (m[0] >= 0x80) { Bytes k = genMsg(r, false); if (k[0] >= 0xf0 || k[0] < 0x80) k = {0x90, 60, 100}; size_t full = (k[0] & 0xe0) == 0xc0 ? 2 : 3; k.resize(r.range(1, (int)full - 1)); j = k; break; } [[fallthrough]];   // a message given up half-way
            case 10: { static const std::vector<Bytes> k = {{0xf0}, {0xf0, 0x7e}, {0xf0, 0x7e, 0x7f, 9}, {0xf0, 0x7f, 0x7f, 4, 1}, {0xf0, 0x7f, 0x7f, 4, 1, 3}, {0xf0, 0x41, 1, 2, 3, 4}, {0xf1}, {0xf2}, {0xf2, 5}, {0xf3}}; j = r.pick(k); break; }
            case 11: { static const std::vector<Bytes> k = {{0xf6}, {0xf3, 3}, {0xf2, 1, 2}, {0xf1, 7}, {0xf0, 0xf7}, {0xf0, 0x7d, 1, 0xf7}}; j = r.pick(k); int n = r.range(1, 6); while (n--) j.push_back(r.below(128)); break; } }   // data bytes that belong to no message
            if (realtime && r.chance(1, 2)) j.insert(j.begin() + 1 + r.below((uint32_t)j.size()), (uint8_t)(0xf8 + r.below(8)));
            out.push_back(j); status = 0; nTrans++; }
        if ((m[0] & 0xf0) == 0x80 && vel0) { m[0] |= 0x10; m[2] = 0; nTrans++; } else if ((m[0] & 0xf0) == 0x80 && r.chance(1, 3)) m[2] = r.below(128);
        uint8_t st = m[0]; if (running && st < 0xf0 && st == status) { m.erase(m.begin()); nTrans++; } status = st < 0xf0 ? st : 0;
        if (realtime) { int k = r.below(3); while (k--) { m.insert(m.begin() + r.below((uint32_t)m.size() + 1), (uint8_t)(0xf8 + r.below(8))); nTrans++; } }
        out.push_back(m);
    }
    return out;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; int nb = r.range(20, 60); Sched s(nb); Bytes all; int chans = r.range(1, 4);
    for (int b = 0; b < nb - 6; b++) if (r.chance(2, 3)) { int n = r.range(1, 6); for (int i = 0; i < n; i++) { Bytes m; 
        if (r.chance(1, 12)) { static const std::vector<Bytes> k = {{0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7}, {0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x00, 0x40, 0xf7}, {0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x7f, 0x7f, 0xf7}, {0xf0, 0x7f, 0x7f, 0x0b, 0x01, 0x00, 0x08, 0x01, 0x10, 0x02, 0x14, 0xf7}}; m = r.pick(k); }
        else do m = genMsg(r, r.chance(1, 8)); while (m[0] >= 0xf0 || m[0] < 0x80 || m.size() != (size_t)((m[0] & 0xe0) == 0xc0 ? 2 : 3) || (m.size() > 1 && m[1] > 127) || (m.size() > 2 && m[2] > 127));
        if (m[0] < 0xf0 && r.chance(1, 2)) { m[0] = (m[0] & 0xf0) | r.below(chans); } s[b].push_back(m); cat(all, m); 
        if ((m[0] & 0xf0) == 0x90 && r.chance(1, 2)) { int at = std::min(nb - 1, b + r.range(0, 10)); s[at].push_back({(uint8_t)(0x80 | (m[0] & 15)), m[1], (uint8_t)r.below(128)}); } } }
    c.caseHash = fnv(all); c.sample = hexs(all, 100);
    bool shareReset = r.chance(1, 2);
    auto play = [&](int mode, Rng q, std::string &desc) {
        Eas e; Run o; EAS_HANDLE h = e.stream(); if (shareReset) EAS_SetVolume(e.h, h, 80); uint8_t status = 0; int nTrans = 0; Bytes carry; 
        bool running = mode && q.chance(1, 2), rt = mode && q.chance(1, 2), junk = mode && q.chance(1, 2), v0 = mode && q.chance(1, 2), split = mode && q.chance(2, 3), ahead = mode && q.chance(1, 2), bulk = mode && q.chance(1, 4); int bulks = 3;
        desc = strf("running status %d, real-time %d, other system messages %d, velocity 0 %d, split %d, early prefix %d, bulk %d", running, rt, junk, v0, split, ahead, bulk);
        std::vector<std::vector<Bytes>> fr; for (auto &ms : s) fr.push_back(frame(q, ms, running, rt, junk, v0, status, nTrans));
        for (int b = 0; b < nb; b++) {
            Bytes w; for (auto &m : fr[b]) cat(w, m); if (ahead && !carry.empty()) w.erase(w.begin(), w.begin() + carry.size()); carry.clear();
            auto sx = [](const Bytes &m) { for (uint8_t x : m) if (x < 0xf8) return x == 0xf0; return false; };   // exclusive messages act as soon as their contents are known
            if (ahead && b + 1 < nb && !fr[b + 1].empty() && !sx(fr[b + 1][0]) && fr[b + 1][0].size() > 1 && q.chance(1, 2)) { int k = q.range(1, (int)fr[b + 1][0].size() - 1); bool complete = false; { Bytes &m = fr[b + 1][0]; int data = 0, need; if (m[0] >= 0xf0 || true) { for (int i = k; i < (int)m.size(); i++) if (m[i] < 0xf8) data++; need = data; complete = need == 0; } } if (!complete) { carry.assign(fr[b + 1][0].begin(), fr[b + 1][0].begin() + k); cat(w, carry); nTrans++; } }
            if (bulk && bulks && !fr[b].empty() && q.chance(1, 3)) {   // thousands of bytes that say nothing, in front of and behind what is written in one go
                bulks--; int n = q.range(200, q.chance(1, 4) ? 70000 : 6000); Bytes big; int kind = q.below(3); uint8_t first = 0; for (uint8_t x : w) if (x < 0xf8) { first = x; break; }
                if (kind == 0 || first < 0x80) big.assign(n, 0xfe); else if (kind == 1) { big = {0xf0, 0x7d}; for (int i = 0; i < n; i++) big.push_back(q.below(128)); big.push_back(0xf7); } else for (int i = 0; i < n; i += 2) { big.push_back(0xf3); big.push_back(q.below(128)); }
                w.insert(w.begin(), big.begin(), big.end());
                EAS_RESULT er = e.write(h, w); if (er) o.bad.push_back(er); c.count("bulk_writes"); c.count("bulk_bytes", (long)w.size()); w.clear(); nTrans++; }
            size_t at = 0; while (at < w.size()) { size_t n = split ? q.range(1, (int)std::min<size_t>(w.size() - at, 4)) : w.size() - at; Bytes x(w.begin() + at, w.begin() + at + n); EAS_RESULT er = e.write(h, x); if (er) o.bad.push_back(er); at += n; if (at < w.size()) nTrans++; }
            EAS_RESULT er = e.render(&o.p, 1); if (er) o.bad.push_back(er);
        }
        EAS_CloseMIDIStream(e.h, h); c.count("framing_changes", mode ? nTrans : 0); return o;
    };
    std::string d; Run ref = play(0, r, d); if (!silent(ref.p)) { c.nontrivial = true; c.count("with_sound"); }
    for (int k = 0; k < 4; k++) { Rng q(r.next()); Run o = play(1, q, d); c.count("framings"); if (!o.bad.empty()) c.violation("result", "a write or render of a reframed stream returns %ld (%s): %s", (long)o.bad[0], d.c_str(), hexs(all, 200).c_str()); long df = firstDiff(ref.p, o.p); if (df >= 0) { c.violation("framing", "samples differ from frame %ld on with %s: messages %s", df, d.c_str(), hexs(all, 300).c_str()); return; } }
}
