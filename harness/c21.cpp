// C21: the mix is the sum of its parts; where it does not fit it clips with the right sign.
#include "gen.h"
const char *vh_property = "C21";
struct PNote { int buf, off, key, vel; };
struct Part { int stream, ch; bool song = false; Bytes data; std::vector<Bytes> init; std::vector<PNote> n; std::vector<std::pair<int, Bytes>> cc; std::string d; };
static const int SONGSTREAM = 100;
struct Render { Pcm pcm; bool ok = true; };
// renders the given parts together; all streams of all parts exist in every rendering when withEmpty
static Pcm render(Ctx &c, const std::vector<Part> &ps, const std::vector<int> &use, int buffers, int vol, bool &ok) {
    Eas e; EAS_SetVolume(e.h, nullptr, vol); std::map<int, EAS_HANDLE> live; std::vector<EAS_HANDLE> songs; ok = true;
    for (int i : use) { const Part &p = ps[i]; if (p.song) { EAS_HANDLE h = e.openPrep(p.data); if (!h) ok = false; else songs.push_back(h); } else { if (!live.count(p.stream)) live[p.stream] = e.stream(); if (!live[p.stream]) { ok = false; continue; } for (auto &b : p.init) e.write(live[p.stream], b); } }
    Pcm o; if (ok) for (int b = 0; b < buffers; b++) { for (int i : use) { const Part &p = ps[i]; if (p.song) continue; EAS_HANDLE h = live[p.stream]; for (auto &x : p.cc) if (x.first == b) e.write(h, x.second); for (auto &n : p.n) { if (n.off == b) e.write(h, {(uint8_t)(0x80 | p.ch), (uint8_t)n.key, 64}); if (n.buf == b) e.write(h, {(uint8_t)(0x90 | p.ch), (uint8_t)n.key, (uint8_t)n.vel}); } } if (e.render(&o, 1)) { ok = false; break; } }
    for (auto h : songs) EAS_CloseFile(e.h, h); for (auto &x : live) if (x.second) EAS_CloseMIDIStream(e.h, x.second); (void)c; return o;
}
void vh_case(Ctx &c) {
    Rng &r = c.rng; EAS_I32 maxv = 0; { Eas e; EAS_GetSynthPolyphony(e.h, 0, &maxv); } int budget = (int)maxv - 1, buffers = r.range(4, 40); bool loud = r.chance(1, 2); int vol = loud ? 100 : r.range(60, 92); int nStreams = 0; std::vector<Part> ps; std::set<std::pair<int, int>> used; int want = r.range(2, 7); int liveStreams = r.range(1, 3);
    while ((int)ps.size() < want && budget > 0) {
        Part p; p.song = r.chance(1, 5) && nStreams + liveStreams < 4; int n = std::min(budget, r.range(1, loud ? 10 : 5)); budget -= n;
        if (p.song) { nStreams++; Track t; int ch = r.below(16); t.push_back(evProg(0, ch, r.below(128))); for (int i = 0; i < n; i++) { int at = r.below(200); t.push_back(evNote(at, ch, r.range(30, 100), r.range(loud ? 100 : 40, 127))); if (r.chance(1, 3)) t.push_back(evCC(at, ch, r.pick(std::vector<int>{1, 7, 10, 11}), r.below(128))); } SmfOpt o; o.division = 500; p.data = buildSmf({t}, o); p.stream = SONGSTREAM + nStreams; p.ch = 0; }
        else {
            p.stream = r.below(liveStreams); p.ch = r.chance(1, 6) ? 9 : r.below(16); if (!used.insert({p.stream, p.ch}).second) { budget += n; continue; } if (p.ch != 9) p.init.push_back({(uint8_t)(0xC0 | p.ch), (uint8_t)r.below(128)}); if (r.chance(1, 2)) p.init.push_back({(uint8_t)(0xB0 | p.ch), 10, (uint8_t)r.below(128)}); if (loud && r.chance(1, 2)) p.init.push_back({(uint8_t)(0xB0 | p.ch), 7, 127});
            for (int i = 0; i < n; i++) { PNote q; q.key = r.range(24, 108); q.buf = r.below(std::max(1, buffers - 2)); q.off = q.buf + r.range(1, buffers); q.vel = r.range(loud ? 100 : 30, 127); p.n.push_back(q); }
            int k = r.below(4); for (int i = 0; i < k; i++) p.cc.push_back({(int)r.below(buffers), r.chance(1, 3) ? Bytes{(uint8_t)(0xE0 | p.ch), (uint8_t)r.below(128), (uint8_t)r.below(128)} : Bytes{(uint8_t)(0xB0 | p.ch), (uint8_t)r.pick(std::vector<int>{1, 7, 10, 11, 64}), (uint8_t)r.below(128)}}); if (r.chance(1, 4)) p.cc.push_back({(int)r.below(buffers), {(uint8_t)(0xD0 | p.ch), (uint8_t)r.below(128)}});
        }
        p.d = p.song ? strf("song[%d]", n) : strf("%d/%d[%d]", p.stream, p.ch, n); ps.push_back(p);
    }
    if (ps.size() < 2) return;
    bool ok; std::vector<int> all; for (size_t i = 0; i < ps.size(); i++) all.push_back((int)i); Pcm ens = render(c, ps, all, buffers, vol, ok); if (!ok) { c.violation("render", "the ensemble cannot be rendered"); return; }
    // parts: each alone, or split in two groups at random
    std::vector<std::vector<int>> groups; if (r.chance(1, 3)) { groups.resize(2); for (int i : all) groups[r.below(2)].push_back(i); if (groups[0].empty() || groups[1].empty()) { groups.clear(); } } if (groups.empty()) for (int i : all) groups.push_back({i});
    std::vector<Pcm> solo; for (auto &g : groups) { solo.push_back(render(c, ps, g, buffers, vol, ok)); if (!ok) { c.violation("render", "a part alone cannot be rendered"); return; } }
    double gain = vol >= 110 ? 2047 : floor(32767 * pow(10, (vol - 110) / 20.0)) / 16; double tol = (solo.size() - 1) * (gain / 512 + 1) + 2; std::string d; for (auto &p : ps) d += " " + p.d; d = strf("volume %d, %d buffers, %zu groups, parts", vol, buffers, groups.size()) + d; c.sample = d; c.caseHash = fnv(ens); if (!silent(ens)) c.nontrivial = true;
    uint64_t clipped = 0, cmp = 0; 
    for (size_t i = 0; i < ens.size(); i++) {
        long sum = 0; bool pos = false, neg = false; for (auto &s : solo) { sum += s[i]; if (s[i] == 32767) pos = true; if (s[i] == -32768) neg = true; } cmp++;
        if (pos && neg) continue; if (pos) { if (sum >= 32767 + tol) { clipped++; if (ens[i] != 32767) { c.violation("clip", "frame %zu: parts sum to at least %ld, the mix is %d: %s", i / 2, sum, ens[i], d.c_str()); return; } } continue; } if (neg) { if (sum <= -32768 - tol) { clipped++; if (ens[i] != -32768) { c.violation("clip", "frame %zu: parts sum to at most %ld, the mix is %d: %s", i / 2, sum, ens[i], d.c_str()); return; } } continue; }
        if (sum > 32767 + tol) { clipped++; if (ens[i] != 32767) { c.violation("clip", "frame %zu: parts sum to %ld, the mix is %d: %s", i / 2, sum, ens[i], d.c_str()); return; } }
        else if (sum < -32768 - tol) { clipped++; if (ens[i] != -32768) { c.violation("clip", "frame %zu: parts sum to %ld, the mix is %d: %s", i / 2, sum, ens[i], d.c_str()); return; } }
        else if (labs(ens[i] - sum) > tol) { c.violation("sum", "frame %zu: parts sum to %ld, the mix is %d (tolerance %.1f): %s", i / 2, sum, ens[i], tol, d.c_str()); return; }
    }
    c.count("samples_compared", cmp); c.count("clipped_samples", clipped); if (clipped) c.count("clipped_cases");
}
