// C17: the same music written differently in the file, or sent to a live stream, sounds the same.
#include "probe.h"
const char *vh_property = "C17";
static Pcm playSong(Ctx &c, const Bytes &b, int buffers, EAS_RESULT &er, bool meta = false) { Eas e; Pcm p; EAS_HANDLE s = e.openPrep(b); er = 0; if (!s) { er = -999; return p; } EAS_I32 len; if (meta) EAS_ParseMetaData(e.h, s, &len); EAS_RESULT x = e.render(&p, buffers); if (x) er = x; EAS_CloseFile(e.h, s); return p; }
static Bytes varMeta(Rng &r) { Bytes d; int n = r.below(20); for (int i = 0; i < n; i++) d.push_back(r.byte()); return d; }
void vh_case(Ctx &c) {
    Rng &r = c.rng; SmfOpt o; static const uint16_t divs[] = {24, 96, 120, 192, 480, 500, 960}; int nt = r.range(1, 6); std::vector<Track> ts; bool live = r.chance(1, 3);
    o.division = live ? 500 : r.pick(divs); int nbuf; const double bms = Eas().bufMs();
    if (live) { nbuf = r.range(40, 150); ts.resize(nt); for (int b = 0; b < nbuf - 2; b++) if (r.chance(1, 2)) { int n = r.range(1, 5); for (int i = 0; i < n; i++) { Bytes m = genMsg(r, false); ts[r.below(nt)].push_back({(uint32_t)lrint((b + 0.5) * bms), m}); } } ts[0].push_back({(uint32_t)lrint((nbuf + 4) * bms), {0xb0, 3, 0}}); }
    else { for (int i = 0; i < nt; i++) ts.push_back(genTrack(r, r.range(1, 40), std::max(1, o.division / 3), false)); nbuf = r.range(60, 250); }
    // exclusive messages with an effect: GM system on, master volume, maximum instantaneous polyphony, and unknown ones
    if (r.chance(2, 3)) for (auto &t : ts) { int n = r.range(0, 4); while (n-- && !t.empty()) { uint32_t tk = r.pick(t).tick; if (live && &t == &ts[0] && tk == ts[0].back().tick) continue; Bytes b{0xf0, 0}; switch (r.below(6)) { case 0: if (!tk) continue; b.insert(b.end(), {0x7e, 0x7f, 0x09, (uint8_t)(r.chance(3, 4) ? 1 : 3)}); break; case 1: case 2: b.insert(b.end(), {0x7f, 0x7f, 4, 1, (uint8_t)r.below(128), (uint8_t)r.range(20, 127)}); break; case 3: { b.insert(b.end(), {0x7f, 0x7f, 0x0b, 1}); int k = r.range(1, 16), m = 0; for (int i = 0; i < k; i++) { b.push_back((i * 3 + 9) & 15); m += r.below(12); b.push_back(std::min(m, 64)); } break; } case 4: { int k = r.below(20); while (k--) b.push_back(r.below(128)); break; } default: b.insert(b.end(), {0x00, 0x01, 0x3a, 0x04, 0x01, 0, 1, 2, 3}); } b.push_back(0xf7); b[1] = (uint8_t)(b.size() - 2); t.push_back({tk, b}); c.count("exclusive_messages"); } }
    for (auto &t : ts) sortTrack(t);
    if (!live && r.chance(1, 4)) { std::vector<Ev *> all; for (auto &t : ts) for (auto &x : t) all.push_back(&x); std::stable_sort(all.begin(), all.end(), [](Ev *a, Ev *b) { return a->tick < b->tick; }); uint32_t tk = 0; for (auto x : all) { tk += r.range(1, o.division / 4 + 1); x->tick = tk; } }
    if (nt > 1 || r.chance(1, 2)) ; Bytes base = buildSmf(ts, o); c.caseHash = fnv(base); c.sample = strf("%d tracks, division %d: %s", nt, o.division, hexs(base, 120).c_str());
    EAS_RESULT e0; Pcm ref = playSong(c, base, nbuf, e0); if (e0) { c.violation("refused", "a well-formed song gives %ld: %s", (long)e0, hexs(base, 300).c_str()); return; } if (!silent(ref)) c.nontrivial = true;
    auto cmp = [&](const char *what, const Bytes &v, bool meta = false) { EAS_RESULT e1; Pcm p = playSong(c, v, nbuf, e1, meta); c.count(what); if (e1) { c.violation("refused", "%s: the song gives %ld: %s", what, (long)e1, hexs(v, 400).c_str()); return; } long d = firstDiff(ref, p); if (d >= 0) c.violation(what, "samples differ from frame %ld (buffer %ld) of %d: %s and %s", d, d / (long)256, nbuf, hexs(base, 300).c_str(), hexs(v, 400).c_str()); };
    // merged into one track
    { Track m; std::vector<std::pair<Ev, int>> all; for (size_t i = 0; i < ts.size(); i++) for (auto &x : ts[i]) all.push_back({x, (int)i}); std::stable_sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first.tick != b.first.tick ? a.first.tick < b.first.tick : a.second < b.second; }); for (auto &x : all) m.push_back(x.first); SmfOpt q = o; q.format = r.below(2); cmp("merged", buildSmf({m}, q)); 
      // and split again by channel where that keeps the order of each tick
      std::vector<Track> sp(17); std::map<uint32_t, int> last; bool ok = true; for (auto &x : m) { int k = x.b[0] < 0xf0 ? 1 + (x.b[0] & 15) : 0; auto it = last.find(x.tick); if (it != last.end() && it->second > k) ok = false; last[x.tick] = k; sp[k].push_back(x); }
      if (ok) { std::vector<Track> u; for (auto &t : sp) if (!t.empty()) u.push_back(t); if (!u.empty()) { SmfOpt q2 = o; q2.format = 1; cmp("split_by_channel", buildSmf(u, q2)); } } }
    { SmfOpt q = o; q.running = true; q.vlPad = r.range(0, 2); cmp("running_status_and_padding", buildSmf(ts, q)); }
    { SmfOpt q = o; q.running = r.chance(1, 2); if (r.chance(1, 2)) q.headerLen = r.range(7, 30); int k = r.range(0, 3); while (k--) { static const char *ids[] = {"XFIH", "XFKM", "abcd", "\1\2\3\4", "MTrx", "LIST"}; putS(q.preChunk, "X"); q.preChunk.pop_back(); const char *id = ids[r.below(6)]; for (int i = 0; i < 4; i++) q.preChunk.push_back(id[i]); int n = r.below(60); put32(q.preChunk, n); while (n--) q.preChunk.push_back(r.byte()); } int n = r.below(40); while (n--) q.trailing.push_back(r.byte()); cmp("chunks_header_and_trailing_bytes", buildSmf(ts, q)); }
    { std::vector<uint32_t> ticks; for (auto &t : ts) for (auto &x : t) ticks.push_back(x.tick); std::sort(ticks.begin(), ticks.end()); std::vector<Track> v = ts; uint32_t cur = 500000; 
      // tempo in force at each tick, to repeat it
      std::vector<std::pair<uint32_t, uint32_t>> tempi; { std::vector<std::pair<std::pair<uint32_t, int>, uint32_t>> a; for (size_t i = 0; i < ts.size(); i++) for (auto &x : ts[i]) if (x.b[0] == 0xff && x.b[1] == 0x51) a.push_back({{x.tick, (int)i}, (uint32_t)x.b[3] << 16 | x.b[4] << 8 | x.b[5]}); std::stable_sort(a.begin(), a.end(), [](auto &p, auto &q) { return p.first < q.first; }); for (auto &x : a) tempi.push_back({x.first.first, x.second}); }
      if (!ticks.empty()) for (auto &t : v) { if (t.empty()) continue; Track u; int n = r.range(0, 8); std::vector<uint32_t> at; while (n--) at.push_back(r.pick(ticks)); std::sort(at.begin(), at.end()); uint32_t lastTick = t.back().tick; size_t k = 0; auto ins = [&](uint32_t tk) { switch (r.below(9)) { case 0: u.push_back(evText(tk, r.range(1, 15), std::string(r.below(300), 'x'))); break; case 1: u.push_back(evMeta(tk, 0x59, {(uint8_t)r.below(8), (uint8_t)r.below(2)})); break; case 2: if (tk) u.push_back(evMeta(tk, 0x58, {(uint8_t)r.range(1, 12), (uint8_t)r.below(4), 24, 8})); break; case 3: u.push_back(evMeta(tk, 0x7f, varMeta(r))); break; case 4: u.push_back(evMeta(tk, 0x20, {(uint8_t)r.below(16)})); break; case 5: u.push_back(evMeta(tk, 0x54, {0, 0, 0, 0, 0})); break; case 6: u.push_back(evMeta(tk, 0x60 + r.below(15), varMeta(r))); break; case 7: u.push_back(evMeta(tk, 0x21, {0})); break;
            case 8: { bool here = false; cur = 500000; for (auto &p : tempi) { if (p.first == tk) here = true; if (p.first < tk) cur = p.second; } if (!here) u.push_back(evTempo(tk, cur)); break; } } };
          for (auto &x : t) { while (k < at.size() && at[k] < x.tick) { ins(at[k]); k++; } bool b4 = r.chance(1, 2); while (k < at.size() && at[k] == x.tick && b4) { ins(at[k]); k++; } u.push_back(x); } while (k < at.size() && at[k] <= lastTick) { ins(at[k]); k++; } t = u; }
      SmfOpt q = o; q.running = r.chance(1, 2); cmp("meta_events", buildSmf(v, q)); }
    // spread over many tracks, in the order of the merged track; each part of a song's events may live in a track of its own
    if (nt > 1 && r.chance(1, 6)) { int big = r.range(30, 92); std::vector<Track> u(big); std::map<uint32_t, int> last; std::vector<std::pair<Ev, int>> all; for (size_t i = 0; i < ts.size(); i++) for (auto &x : ts[i]) all.push_back({x, (int)i}); std::stable_sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first.tick != b.first.tick ? a.first.tick < b.first.tick : a.second < b.second; });
      for (auto &x : all) { auto it = last.find(x.first.tick); int lo = it == last.end() ? 0 : it->second, k = it == last.end() ? (int)r.below(big) : lo + (int)r.below(std::min(3, big - lo)); last[x.first.tick] = k; u[k].push_back(x.first); } SmfOpt q = o; q.format = 1; cmp("many_tracks", buildSmf(u, q)); }
    // exclusive messages cut into packets, and messages written as escapes
    { std::vector<Track> v = ts; int n = 0; for (auto &t : v) { Track u; for (auto &x : t) {
        if (x.b[0] == 0xf0 && x.b.size() > 4 && x.b[1] < 0x80 && r.chance(1, 2)) { int len = x.b[1], k = r.range(1, len - 1); Bytes p{0xf0, (uint8_t)k}, z{0xf7, (uint8_t)(len - k)}; p.insert(p.end(), x.b.begin() + 2, x.b.begin() + 2 + k); z.insert(z.end(), x.b.begin() + 2 + k, x.b.end()); u.push_back({x.tick, p}); u.push_back({x.tick, z}); n++; }
        else if (x.b[0] >= 0x80 && x.b[0] < 0xf0 && r.chance(1, 6)) { Bytes p{0xf7, (uint8_t)x.b.size()}; cat(p, x.b); u.push_back({x.tick, p}); n++; }
        else u.push_back(x); } t = u; } if (n) { SmfOpt q = o; q.running = r.chance(1, 2); cmp("packets_and_escapes", buildSmf(v, q)); } }
    if (r.chance(1, 3)) cmp("metadata_read_first", base, true);
    { Eas e; EAS_HANDLE s = e.openPrep(base); EAS_I32 ft = -1; if (s && (EAS_GetFileType(e.h, s, &ft) || ft != (nt == 1 ? EAS_FILE_SMF0 : EAS_FILE_SMF1))) c.violation("type", "a song of %d tracks is reported as type %ld", nt, (long)ft); c.count("types"); }
    if (live) {
        Eas e; EAS_HANDLE h = e.stream(); EAS_SetVolume(e.h, h, 100); Pcm p; std::vector<std::pair<Ev, int>> all; for (size_t i = 0; i < ts.size(); i++) for (auto &x : ts[i]) all.push_back({x, (int)i}); std::stable_sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first.tick != b.first.tick ? a.first.tick < b.first.tick : a.second < b.second; });
        size_t k = 0; for (int b = 0; b < nbuf; b++) { Bytes w; while (k < all.size() && all[k].first.tick < (b + 1) * bms) { Bytes m = all[k++].first.b; if (m[0] == 0xf0) m.erase(m.begin() + 1); cat(w, m); } if (!w.empty()) e.write(h, w); e.render(&p, 1); } EAS_CloseMIDIStream(e.h, h); c.count("live_stream");
        long d = firstDiff(ref, p); if (d >= 0) c.violation("live_stream", "the live stream differs from the song from frame %ld (buffer %ld): %s", d, d / 256, hexs(base, 300).c_str()); }
}
