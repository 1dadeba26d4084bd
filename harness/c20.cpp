// C20: effects: transparent when bypassed, exactly dry + wet otherwise, bounded, decaying; parameters act as named.
#include "scen.h"
const char *vh_property = "C20";
static const int RV = EAS_MODULE_REVERB, CH = EAS_MODULE_CHORUS;
static void par(Eas &e, int m, int p, long v) { EAS_SetParameter(e.h, m, p, v); }
static long get(Eas &e, int m, int p) { EAS_I32 v = -1; EAS_GetParameter(e.h, m, p, &v); return v; }
struct Fx { int mod, preset; long p[5]; bool own; };   // p: wet/dry or rate/depth/level set by the host
static Fx genFx(Rng &r, int mod) { Fx f; f.mod = mod; f.preset = r.below(4); f.own = r.chance(1, 2); if (mod == RV) { f.p[2] = r.chance(1, 5) ? 32767 : r.range(1000, 32767); f.p[3] = r.below(32768); } else { f.p[2] = r.range(10, 50); f.p[3] = r.range(15, 60); f.p[4] = r.chance(1, 5) ? 32767 : r.chance(1, 5) ? r.range(150, 600) : r.range(1000, 32767); } return f; }
static void set(Eas &e, const Fx &f) { par(e, f.mod, 1, f.preset); if (f.own) { for (int i = 2; i < (f.mod == RV ? 4 : 5); i++) par(e, f.mod, i, f.p[i]); } }
static std::string ft(const Fx &f) { std::string s = strf("%s preset %d", f.mod == RV ? "reverb" : "chorus", f.preset); if (f.own) s += f.mod == RV ? strf(" wet %ld dry %ld", f.p[2], f.p[3]) : strf(" rate %ld depth %ld level %ld", f.p[2], f.p[3], f.p[4]); return s; }
// a performance on live streams, bursts and pauses; then all sound off
struct Perf { int buffers; std::vector<std::pair<int, Bytes>> ev; int vol; };
static Perf genPerf(Rng &r, bool loud) { Perf p; p.buffers = r.range(10, 60); int n = r.range(2, loud ? 30 : 10); p.ev.push_back({0, {0xC0, (uint8_t)r.pick(std::vector<int>{0, 4, 16, 19, 48, 61, 80, 12, 24, 115})}}); p.ev.push_back({0, {0x90, (uint8_t)r.range(40, 80), (uint8_t)r.range(60, 127)}}); for (int i = 0; i < n; i++) { int b = r.below(p.buffers); if (r.chance(1, 5)) p.ev.push_back({b, {0xB0, 120, 0}}); else p.ev.push_back({b, {(uint8_t)(0x90 | (r.chance(1, 4) ? 9 : 0)), (uint8_t)r.range(36, 80), (uint8_t)r.range(40, 127)}}); } p.vol = loud ? 100 : r.range(70, 84); return p; }
struct Player { Eas e; EAS_HANDLE s; const Perf &p; int at = 0; Player(const Perf &pp) : p(pp) { s = e.stream(); EAS_SetVolume(e.h, nullptr, p.vol); } Pcm step() { for (auto &x : p.ev) if (x.first == at) e.write(s, x.second); if (at == p.buffers) { e.write(s, {0xB0, 120, 0}); e.write(s, {0xB9, 120, 0}); } at++; Pcm o; e.render(&o, 1); return o; } ~Player() { if (s) EAS_CloseMIDIStream(e.h, s); } };
static int clip16(double v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (int)v; }
// bypassed = dry; switching changes only what follows
static void bypassCase(Ctx &c) {
    Rng &r = c.rng; Scn s = genScn(r, r.range(1, 3), r.range(8, 50), false, true); for (auto &x : s.st) if (x.song && x.data.empty()) return; Fx f[2] = {genFx(r, RV), genFx(r, CH)}; bool use[2] = {r.chance(2, 3), r.chance(2, 3)}; if (!use[0] && !use[1]) use[r.below(2)] = true;
    int on = r.chance(1, 4) ? 1 << 20 : r.range(0, s.buffers - 1), off = on + r.range(1, 20); bool wet0 = use[0] && r.chance(1, 4); int setAt = r.below(std::min(on, s.buffers - 1) + 1);
    Eas a, b; ScnRun x(a, s), y(b, s); bool diff = false; std::string d = (use[0] ? ft(f[0]) + " " : "") + (use[1] ? ft(f[1]) : "") + strf(" set at %d on at %d off at %d", setAt, on, off) + "; " + s.desc().substr(0, 120); c.sample = d; c.caseHash = s.hash() ^ fnv(d.data(), d.size());
    for (int i = 0; i < s.buffers; i++) {
        if (i == setAt) for (int k = 0; k < 2; k++) if (use[k]) set(b, f[k]); if (i == on) for (int k = 0; k < 2; k++) if (use[k]) { par(b, f[k].mod, 0, 0); if (wet0 && k == 0) { par(b, RV, 2, 0); par(b, RV, 3, 32767); } } if (i == off) for (int k = 0; k < 2; k++) if (use[k]) par(b, f[k].mod, 0, 1);
        size_t n = x.pcm.size(); if (!x.step() || !y.step()) break; c.count("bypass_buffers"); bool same = memcmp(&x.pcm[n], &y.pcm[n], (x.pcm.size() - n) * 2) == 0; for (size_t q = n; q < x.pcm.size(); q++) if (x.pcm[q] > 100 || x.pcm[q] < -100) { c.nontrivial = true; break; }
        bool dry = i < on || i >= off || (wet0 && !use[1]); if (dry && !same) { c.violation("bypass", "buffer %d differs from the dry mix although every effect is bypassed: %s", i, d.c_str()); break; } if (!dry && !same) diff = true;
        if (x.obs.size() && x.log != y.log) { c.violation("results", "call results differ with effects: %s", d.c_str()); break; }
    }
    if (diff) c.count("wet_cases"); x.close(); y.close();
}
// reverb: output is dry plus a signal proportional to the wet level; audible; clips, does not wrap; decays
static void reverbCase(Ctx &c) {
    Rng &r = c.rng; bool loud = r.chance(1, 2); Perf p = genPerf(r, loud); int preset = r.below(4); long w = r.chance(1, 8) ? r.below(300) : r.chance(1, 4) ? 32767 : r.range(2000, 32767), w0 = loud ? r.range(300, 3000) : r.range(8000, 32767); bool hostWet = r.chance(3, 4);
    Player dry(p), a(p), b(p), o(p); int other = (preset + r.range(1, 3)) & 3, switchAt = r.chance(1, 2) ? 0 : r.below(p.buffers / 2); bool heard = false; double e1 = 0; par(o.e, RV, 0, 0); par(o.e, RV, 1, preset); for (Player *q : {&a, &b}) { par(q->e, RV, 1, preset); par(q->e, RV, 0, 0); } par(b.e, RV, 2, w0); if (hostWet) par(a.e, RV, 2, w); else w = get(a.e, RV, 2); if (loud) par(b.e, RV, 3, r.below(32768));
    std::string d = strf("reverb preset %d, wet %ld against %ld, volume %d, %zu events in %d buffers", preset, w, w0, p.vol, p.ev.size(), p.buffers); c.sample = d; c.caseHash = fnv(d.data(), d.size()) ^ r.next(); double e0 = 0, ew = 0; int quiet = 0; bool bad = false; long last = 0, clipped = 0; const int limit = (int)(8000 / a.e.bufMs());
    for (int i = 0; i < p.buffers + limit && !bad; i++) {
        Pcm x = dry.step(), y = a.step(), z = b.step(); c.count("reverb_buffers"); if (i < p.buffers + 60) { if (i == 0 && hostWet) par(o.e, RV, 2, w); if (i == switchAt) { par(o.e, RV, 1, other); } Pcm q = o.step(); /* the preset brings its own level as soon as it is in use */ if (i == switchAt && hostWet) par(o.e, RV, 2, w); if (i < switchAt) { if (memcmp(&q[0], &y[0], y.size() * 2)) { c.violation("preset", "two with the same settings differ in buffer %d: %s", i, d.c_str()); break; } } else { if (memcmp(&q[0], &y[0], y.size() * 2)) heard = true; if (i < p.buffers - 8) for (size_t k = 0; k < x.size(); k++) e1 += (double)x[k] * x[k]; } }
        for (size_t k = 0; k < x.size(); k++) {
            int dw = z[k] - x[k]; e0 += (double)x[k] * x[k]; double want = (double)dw * w / w0, tol = 3 + 1.5 * w / w0; if (z[k] == 32767 || z[k] == -32768) continue; int lo = clip16(x[k] + want - tol), hi = clip16(x[k] + want + tol); ew += (double)(y[k] - x[k]) * (y[k] - x[k]);
            if (y[k] == 32767 || y[k] == -32768) clipped++;
            if (y[k] < lo || y[k] > hi) { c.violation("wet", "buffer %d sample %zu: dry %d, with wet %ld %d, with wet %ld %d: %s", i, k, x[k], w0, z[k], w, y[k], d.c_str()); bad = true; break; }
        }
        if (i > p.buffers + 2 && !silent(x)) { c.violation("dry", "the dry mix sounds after all sound off: %s", d.c_str()); break; } if (i > p.buffers) { if (silent(y)) { if (++quiet > 250) break; } else { quiet = 0; last = i; } }
    }
    if (clipped) c.count("clipped_cases"); if (e0 > 1e6) c.nontrivial = true; if (!bad && quiet == 0) c.violation("decay", "still sounding %d buffers after the input stopped: %s", limit, d.c_str()); if (!bad && w >= 1000 && e0 > 1e9 && ew < e0 * 1e-5) c.violation("inaudible", "wet energy %.0f of %.0f: %s", ew, e0, d.c_str()); if (last) c.count("tails"); if (!bad && !c.failed() && e1 > 1e9) { c.count("presets_compared"); if (w >= 1000 && !heard) c.violation("preset", "after changing from preset %d to %d in buffer %d nothing changes: %s", preset, other, switchAt, d.c_str()); }
}
// chorus: output is dry plus level times a recent sample; parameters equal to a preset's sound like the preset
static void chorusCase(Ctx &c) {
    Rng &r = c.rng; Perf p = genPerf(r, r.chance(1, 3)); Fx f = genFx(r, CH); f.own = r.chance(2, 3); Player dry(p), a(p), b(p), o(p); set(a.e, f); long rate = get(a.e, CH, 2), depth = get(a.e, CH, 3), level = get(a.e, CH, 4);
    if (r.chance(1, 2)) par(b.e, CH, 1, r.below(4)); int ord[3] = {2, 3, 4}; for (int i = 2; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]); long val[5] = {0, 0, rate, depth, level}; for (int i : ord) par(b.e, CH, i, val[i]); for (Player *q : {&a, &b, &o}) par(q->e, CH, 0, 0);
    // one parameter altered must be heard
    int alt = r.range(2, 4); long av = alt == 2 ? (rate > 30 ? r.range(10, 15) : r.range(45, 50)) : alt == 3 ? (depth > 35 ? r.range(15, 18) : r.range(55, 60)) : level / 2; long alv[5] = {0, 0, rate, depth, level}; alv[alt] = av; for (int i = 2; i < 5; i++) par(o.e, CH, i, alv[i]);
    std::string d = ft(f) + strf(" (rate %ld depth %ld level %ld), volume %d, %zu events in %d buffers, parameter %d altered to %ld", rate, depth, level, p.vol, p.ev.size(), p.buffers, alt, av); c.sample = d; c.caseHash = fnv(d.data(), d.size()) ^ r.next();
    size_t win = (size_t)(a.e.rate * 0.045); std::vector<int16_t> hist[2]; double e0 = 0, ew = 0; long first = -1; bool bad = false, heard = false; int soundAt = -1;
    for (int i = 0; i < p.buffers + 20 && !bad; i++) {
        Pcm x = dry.step(), y = a.step(), z = b.step(), q = o.step(); c.count("chorus_buffers"); if (memcmp(&y[0], &z[0], y.size() * 2)) { c.violation("same-params", "the same rate, depth and level set one by one sound different in buffer %d: %s", i, d.c_str()); break; } if (memcmp(&y[0], &q[0], y.size() * 2)) heard = true;
        for (size_t k = 0; k < x.size(); k++) { hist[k & 1].push_back(x[k]); double dd = y[k] - x[k]; e0 += (double)x[k] * x[k]; ew += dd * dd; }
        for (int chn = 0; chn < a.e.chans && !bad; chn++) { size_t base = hist[chn].size() - a.e.bufN; int mx = 0, mn = 0; size_t from = base > win ? base - win : 0; for (size_t k = from; k < hist[chn].size(); k++) { mx = std::max<int>(mx, hist[chn][k]); mn = std::min<int>(mn, hist[chn][k]); }
            for (int k = 0; k < a.e.bufN; k++) { int xx = x[k * a.e.chans + chn], yy = y[k * a.e.chans + chn]; int hi = clip16(xx + (double)mx * level / 32768 + 2), lo = clip16(xx + (double)mn * level / 32768 - 2); if (yy > hi || yy < lo) { c.violation("chorus-bound", "buffer %d frame %d: dry %d, output %d, outside what level %ld of the last 45 ms (%d..%d) allows: %s", i, k, xx, yy, level, mn, mx, d.c_str()); bad = true; break; } } }
        if (i > p.buffers + 2 + (int)(60 / a.e.bufMs()) && !silent(y)) { c.violation("decay", "chorus still sounds in buffer %d: %s", i, d.c_str()); break; } if (soundAt < 0 && rms(x, 0, a.e.bufN) > 300) soundAt = i;
    }
    (void)first; if (e0 > 1e6) c.nontrivial = true; if (!bad && e0 > 1e9 && ew < e0 * 1e-6) c.violation("inaudible", "wet energy %.0f of %.0f: %s", ew, e0, d.c_str()); if (!bad && e0 > 1e9 && soundAt >= 0 && soundAt < p.buffers - 8 && !heard) c.violation("inaudible", "altering a parameter changes nothing: %s", d.c_str());
}
// the chorus delay itself: fed with a slow ramp, each wet sample tells how long ago its input was
static void curveCase(Ctx &c) {
    Rng &r = c.rng; Fx f = genFx(r, CH); f.own = r.chance(5, 6); if (f.own) f.p[4] = r.chance(1, 4) ? r.range(1500, 6000) : r.range(6000, 32767);
    DlsSpec ds; DlsWave w; const int N = 16384; Eas dry, a; w.rate = a.rate; int sgn = r.chance(1, 2) ? 1 : -1; w.s.resize(N + 1); for (int k = 0; k <= N; k++) w.s[k] = (int16_t)(sgn * ((k % N) * 3 - 24576)); w.w.present = true; w.w.loops = 1; w.w.ll = N; ds.waves.push_back(w); DlsInst in; in.prog = 5; in.r.push_back(DlsRegion()); in.art.push_back({0, 0, 0x20a, 0, 1000 * 65536}); ds.inst.push_back(in); in.bank = 0x7900; ds.inst.push_back(in); Bytes bank = buildDls(ds);
    int vol = r.range(60, 90), cc = r.range(90, 127); Eas *es[2] = {&dry, &a}; EAS_HANDLE st[2]; long pre = r.range(0, 20);
    set(a, f); long rate = get(a, CH, 2), depth = get(a, CH, 3), level = get(a, CH, 4); c.sample = ft(f) + strf(" (rate %ld depth %ld level %ld), a %s ramp at volume %d/%d after %ld buffers, %ld Hz", rate, depth, level, sgn > 0 ? "rising" : "falling", vol, cc, pre, (long)a.rate); c.caseHash = fnv(c.sample.data(), c.sample.size());
    for (int i = 0; i < 2; i++) { MemFile *mf = es[i]->file(bank); if (EAS_LoadDLSCollection(es[i]->h, nullptr, mf->locator())) { c.violation("bank", "a bank is refused"); return; } st[i] = es[i]->stream(); EAS_SetVolume(es[i]->h, nullptr, vol); es[i]->render(nullptr, (int)pre); es[i]->write(st[i], {0xC0, 5}); es[i]->write(st[i], {0xB0, 7, (uint8_t)cc}); es[i]->write(st[i], {0x90, 60, 127}); }
    par(a, CH, 0, 0); double secs = 20.0 / rate * 1.6 + 0.8; int nb = (int)(secs * a.rate / a.bufN) + 1; Pcm x, y; dry.render(&x, nb); a.render(&y, nb); for (int i = 0; i < 2; i++) EAS_CloseMIDIStream(es[i]->h, st[i]); size_t n = x.size() / a.chans; if (y.size() != x.size()) { c.violation("length", "renders differ in length: %s", c.sample.c_str()); return; }
    double amp = 0, slope = 0; for (size_t k = n / 2; k < n; k++) amp = std::max<double>(amp, std::abs((int)x[k * a.chans])); slope = 2 * amp / N; if (amp > 32000 || amp < 1500 || slope * level / 32768 < 0.02) return; c.nontrivial = true;
    double amps[2], ws[2]; 
    for (int ch = 0; ch < a.chans && ch < 2; ch++) {
        auto X = [&](size_t k) { return (int)x[k * a.chans + ch]; }; auto Y = [&](size_t k) { return (int)y[k * a.chans + ch]; };
        std::vector<double> tt, dd; size_t jump = 0; size_t back = (size_t)(a.rate * 0.0205); double big = amp / 2; double mn = 1e9, mx = -1e9;
        // average over a block, within which the delay hardly moves
        size_t blk = 64; double acc = 0; int cnt = 0;
        for (size_t k = 1; k < n; k++) { if (std::abs(X(k) - X(k - 1)) > big) { jump = k; acc = 0; cnt = 0; } if (k < jump + back + 8 || k < (size_t)(a.rate * 0.3)) { continue; } if (std::abs(Y(k)) >= 32767) { acc = 0; cnt = 0; continue; }
            double tap = (Y(k) - X(k) + 0.5) * 32768.0 / level; acc += (X(k) - tap) / (slope * sgn); if (++cnt == (int)blk) { double ms = acc / cnt * 1000 / a.rate; tt.push_back((k - blk / 2.0) / a.rate); dd.push_back(ms); acc = 0; cnt = 0; } }
        if (dd.size() < 100) return; c.count("chorus_delays", (long)dd.size()); double res = 0.06 + 1.2 * 32768.0 / level / slope / 8 * 1000 / a.rate + 0.6 / slope * 1000 / a.rate, dep = depth * 0.05; for (double v : dd) { mn = std::min(mn, v); mx = std::max(mx, v); }
        if (getenv("C20_DBG")) fprintf(stderr, "ch %d n %zu mn %.3f mx %.3f dep %.3f res %.3f\n", ch, dd.size(), mn, mx, dep, res);
        if (res > 0.5) return;
        if (mn < 10 - dep - res || mx > 10 + dep + res) { c.violation("delay-range", "channel %d: the delay runs from %.2f to %.2f ms where it is 10 ms +- %.2f: %s", ch, mn, mx, dep, c.sample.c_str()); return; }
        double best = 1e99, w0 = 2 * M_PI * rate / 20; for (int g = -120; g <= 120; g++) { double w = w0 * (1 + g * 0.001), ss = 0, sc = 0, cc2 = 0, ys = 0, yc = 0; for (size_t k = 0; k < dd.size(); k++) { double S = sin(w * tt[k]), C = cos(w * tt[k]), v = dd[k] - 10; ss += S * S; sc += S * C; cc2 += C * C; ys += v * S; yc += v * C; } double det = ss * cc2 - sc * sc, A = (ys * cc2 - yc * sc) / det, B = (yc * ss - ys * sc) / det, e = 0; for (size_t k = 0; k < dd.size(); k++) { double q = dd[k] - 10 - A * sin(w * tt[k]) - B * cos(w * tt[k]); e += q * q; } if (e < best) { best = e; amps[ch] = sqrt(A * A + B * B); ws[ch] = w / w0; } }
        double rms = sqrt(best / dd.size()); if (getenv("C20_DBG")) fprintf(stderr, "   amp %.3f w %.4f rms %.3f\n", amps[ch], ws[ch], rms);
        if (rms > 0.05 + res + dep * 0.02) { c.violation("delay-shape", "channel %d: the delay is %.2f ms (rms) off a steady swing around 10 ms: %s", ch, rms, c.sample.c_str()); return; }
        if (fabs(amps[ch] - dep) > 0.08 * dep + res) { c.violation("delay-depth", "channel %d: the delay swings by %.2f ms where the depth set is %.2f: %s", ch, amps[ch], dep, c.sample.c_str()); return; }
        if (ws[ch] < 0.915 || ws[ch] > 1.06) { c.violation("delay-rate", "channel %d: the delay swings at %.3f times the rate set: %s", ch, ws[ch], c.sample.c_str()); return; }
    }
    c.count("chorus_curves"); if (a.chans == 2 && fabs(ws[0] / ws[1] - 1) > 0.012) { c.violation("delay-rate", "left swings at %.3f and right at %.3f times the rate set: %s", ws[0], ws[1], c.sample.c_str()); return; }
}
void vh_case(Ctx &c) { int k = c.rng.below(9); if (getenv("C20_ONLY")) k = atoi(getenv("C20_ONLY")); if (k == 8) curveCase(c); else if (k < 4) bypassCase(c); else if (k < 6) reverbCase(c); else chorusCase(c); }
