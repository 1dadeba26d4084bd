// C30: program, bank and drum selection pick the right instrument.
#include "scen.h"
#ifdef SONIVOX_VERIF_HOOKS
#include "probe.h"
#endif
extern "C" {
#define SCNST
#define EAS_WT_SYNTH
#define DLS_SYNTHESIZER
#include "eas_sndlib.h"
extern const S_EAS easSoundLib;
}
const char *vh_property = "C30";
static const int MEL = 0x7900, RHY = 0x7800;
static bool last(const S_WT_REGION &r) { return r.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION; }
// a sound library of its own: banks, single programs and key splits at random, made of the instruments of the built-in one
struct Lib { S_EAS s; std::vector<S_BANK> banks; std::vector<S_PROGRAM> progs; std::vector<S_WT_REGION> regs; void fix() { s.pBanks = banks.data(); s.pPrograms = progs.data(); s.pWTRegions = regs.data(); s.numBanks = banks.size(); s.numPrograms = progs.size(); s.numWTRegions = regs.size(); } };
static std::vector<int> goodRegions() { static std::vector<int> v; if (v.empty()) for (int i = 0; i < easSoundLib.numWTRegions; i++) v.push_back(i); return v; }
static void copyLib(S_EAS &d) { memcpy((void *)&d, &easSoundLib, sizeof d); }
static std::unique_ptr<Lib> randomLib(Rng &r) {
    auto l = std::make_unique<Lib>(); copyLib(l->s); std::vector<int> start; int np = r.range(3, 40); auto g = goodRegions();
    for (int p = 0; p < np; p++) { start.push_back(l->regs.size()); int k = r.range(1, 5), low = r.chance(1, 2) ? 0 : r.range(0, 50); bool holes = r.chance(1, 3); for (int i = 0; i < k; i++) { S_WT_REGION x = easSoundLib.pWTRegions[r.pick(g)]; int hi = i == k - 1 && !holes ? 127 : std::min(127, low + r.range(0, 40)); x.region.rangeLow = low; x.region.rangeHigh = hi; x.region.keyGroupAndFlags &= ~(0x0f00 | REGION_FLAG_LAST_REGION); if (r.chance(1, 2)) x.region.keyGroupAndFlags |= r.range(1, 3) << 8; if (i == k - 1 || hi == 127) x.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; l->regs.push_back(x); if (hi == 127) break; low = hi + 1 + (holes ? r.below(3) : 0); if (low > 127) { l->regs.back().region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; break; } } }
    auto bank = [&](int loc, bool full) { S_BANK b; b.locale = loc; for (int i = 0; i < 128; i++) b.regionIndex[i] = full || r.chance(1, 3) ? start[r.below((uint32_t)start.size())] : INVALID_REGION_INDEX; return b; };
    auto prog = [&](int loc, int p) { S_PROGRAM x; x.locale = ((EAS_U32)loc << 8) | p; x.regionIndex = start[r.below((uint32_t)start.size())]; return x; };
    bool melBank = r.chance(2, 3), rhyBank = r.chance(1, 3); S_BANK mb = bank(MEL, r.chance(1, 2)); if (mb.regionIndex[0] == INVALID_REGION_INDEX) mb.regionIndex[0] = start[0]; if (melBank) l->banks.push_back(mb); else { l->progs.push_back(prog(MEL, 0)); } S_BANK rb = bank(RHY, false); if (rb.regionIndex[0] == INVALID_REGION_INDEX) rb.regionIndex[0] = start.back(); if (rhyBank) l->banks.push_back(rb); else l->progs.push_back(prog(RHY, 0));
    static const int locs[] = {MEL, RHY, MEL + 1, RHY + 1, 0, 1, 0x100, 0x0305, MEL + 127}; int e = r.range(0, 10); for (int i = 0; i < e; i++) { int loc = r.pick(locs), p = r.below(r.chance(1, 2) ? 4 : 128); bool dup = false; for (auto &x : l->progs) if (x.locale == (((EAS_U32)loc << 8) | p)) dup = true; if (!dup) l->progs.push_back(prog(loc, p)); }
    if (r.chance(1, 2)) { int loc = locs[2 + r.below(7)]; l->banks.insert(r.chance(1, 2) ? l->banks.begin() : l->banks.end(), bank(loc, false)); }
    // what a bank defines is not defined again as a single program
    for (size_t i = 0; i < l->progs.size();) { bool dup = false; for (auto &b : l->banks) if (b.locale == l->progs[i].locale >> 8 && b.regionIndex[l->progs[i].locale & 255] != INVALID_REGION_INDEX) dup = true; if (dup) l->progs.erase(l->progs.begin() + i); else i++; }
    l->fix(); return l; }
// the documented search: the program of the bank, or of the default bank, or the default bank's first program
static int find(const S_EAS &s, int bank, int p) { for (int i = 0; i < s.numBanks; i++) if (s.pBanks[i].locale == bank && s.pBanks[i].regionIndex[p] != INVALID_REGION_INDEX) return s.pBanks[i].regionIndex[p]; for (int i = 0; i < s.numPrograms; i++) if (s.pPrograms[i].locale == (((EAS_U32)bank << 8) | (EAS_U32)p)) return s.pPrograms[i].regionIndex; return -1; }
static int choose(const S_EAS &s, int bank, int p, bool rhythm) { int x = find(s, bank, p); int d = rhythm ? RHY : MEL; if (x < 0) x = find(s, d, p); if (x < 0) x = find(s, d, 0); return x; }
static int region(const S_EAS &s, int first, int key) { for (int i = first;; i++) { const S_WT_REGION &g = s.pWTRegions[i]; if (key >= g.region.rangeLow && key <= g.region.rangeHigh) return i; if (last(g)) return -1; } }
// a library in which everything is one region
static std::unique_ptr<Lib> onlyRegion(const S_EAS &s, int idx) { auto l = std::make_unique<Lib>(); copyLib(l->s); S_WT_REGION g = s.pWTRegions[idx]; g.region.rangeLow = 0; g.region.rangeHigh = 127; g.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; g.region.keyGroupAndFlags &= ~0x0f00; l->regs.push_back(g); for (int loc : {MEL, RHY}) { S_BANK b; b.locale = loc; for (int i = 0; i < 128; i++) b.regionIndex[i] = 0; l->banks.push_back(b); } l->fix(); return l; }
struct Chan { int bank; bool rhythm; int first; };
static void begin(Chan *ch, const S_EAS &s) { for (int i = 0; i < 16; i++) { ch[i].rhythm = i == 9; ch[i].bank = i == 9 ? RHY : MEL; ch[i].first = choose(s, ch[i].bank, 0, i == 9); } }
static Bytes selectMsg(Rng &r, Chan *ch, const S_EAS &s) {
    int c = r.chance(1, 4) ? 9 : r.below(r.chance(1, 2) ? 3 : 16); uint8_t B = 0xB0 | c; switch (r.below(5)) {
    case 0: { int v = r.chance(1, 3) ? 0x79 : r.chance(1, 2) ? 0x78 : r.chance(1, 2) ? r.below(4) : r.below(128); ch[c].bank = v << 8; return {B, 0, (uint8_t)v}; }
    case 1: { int v = r.chance(1, 2) ? r.below(3) : r.below(128); ch[c].bank = (ch[c].bank & 0xff00) | v; return {B, 32, (uint8_t)v}; }
    default: { int p = r.chance(1, 2) ? r.below(4) : r.below(128); if ((ch[c].bank & 0xff00) == RHY) ch[c].rhythm = true; else if ((ch[c].bank & 0xff00) == MEL) ch[c].rhythm = false; ch[c].first = choose(s, ch[c].bank, p, ch[c].rhythm); return {(uint8_t)(0xC0 | c), (uint8_t)p}; } } }
static EAS_HANDLE open(Eas &e, const S_EAS *lib, Rng &r) { if (lib && r.chance(1, 3)) { EAS_SetSoundLibrary(e.h, nullptr, (EAS_SNDLIB_HANDLE)lib); EAS_HANDLE s = e.stream(); EAS_SetSoundLibrary(e.h, nullptr, nullptr); return s; } EAS_HANDLE s = e.stream(); if (lib) EAS_SetSoundLibrary(e.h, s, (EAS_SNDLIB_HANDLE)lib); return s; }
static Pcm solo(const S_EAS &s, int idx, bool rhythm, int key, int vel, int hold, int tail, Rng &r) { auto l = onlyRegion(s, idx); Eas f; EAS_HANDLE h = open(f, &l->s, r); int c = rhythm ? 9 : (int)r.below(9); Pcm p; f.write(h, {(uint8_t)(0x90 | c), (uint8_t)key, (uint8_t)vel}); f.render(&p, hold); f.write(h, {(uint8_t)(0x80 | c), (uint8_t)key, 0}); f.render(&p, tail); EAS_CloseMIDIStream(f.h, h); return p; }
static void lookup(Ctx &c) {
    Rng &r = c.rng; bool own = r.chance(1, 2); std::unique_ptr<Lib> l; if (own) l = randomLib(r); const S_EAS &s = own ? l->s : easSoundLib; Chan ch[16]; begin(ch, s); Eas e; EAS_HANDLE h = open(e, own ? &s : nullptr, r); std::string tr; int n = r.range(0, 25);
    // some histories start with notes, which end, or a reset
    for (int i = 0; i < n; i++) { Bytes m = selectMsg(r, ch, s); e.write(h, m); tr += " " + hexs(m); if (r.chance(1, 6)) { Pcm t; e.render(&t, r.range(1, 3)); } if (r.chance(1, 40)) { e.write(h, {0xF0, 0x7E, 0x7F, 9, 1, 0xF7}); begin(ch, s); tr += " GM"; } if (r.chance(1, 15)) { int k = r.below(16); e.write(h, {(uint8_t)(0x90 | k), 60, 90}); Pcm t; e.render(&t, r.range(1, 5)); e.write(h, {(uint8_t)(0xB0 | k), 120, 0}); e.render(&t, 4); tr += " note"; } }
    int k = r.chance(1, 4) ? 9 : r.chance(1, 2) ? r.below(3) : r.below(16), key = r.chance(1, 3) ? r.below(128) : r.range(30, 90), vel = r.range(20, 127), hold = r.range(2, 25), tail = r.range(2, 25); int idx = ch[k].first < 0 ? -1 : region(s, ch[k].first, key);
    std::string d = strf("%s library,%s; note %d on channel %d", own ? "own" : "built-in", tr.c_str(), key, k); c.caseHash = fnv(d.data(), d.size()) ^ (own ? fnv(l->regs.data(), l->regs.size() * sizeof l->regs[0]) : 0); c.sample = d.substr(0, 300); if (ch[k].first < 0) return; c.count("lookups");
    Pcm p; e.write(h, {(uint8_t)(0x90 | k), (uint8_t)key, (uint8_t)vel}); bool busy = r.chance(1, 2); if (busy) d += " selections during the note:"; for (int b = 0; b < hold + tail; b++) { if (busy && r.chance(1, 3)) { Bytes m = selectMsg(r, ch, s); e.write(h, m); d += " " + hexs(m); } if (b == hold) e.write(h, {(uint8_t)(0x80 | k), (uint8_t)key, 0}); e.render(&p, 1); }
    if (idx < 0) { c.count("keys_without_region"); c.nontrivial = true; if (!silent(p)) c.violation("unmapped", "a key outside every region of its instrument sounds: %s", d.c_str()); return; }
    bool rhythm = false; { Chan q[16]; (void)q; rhythm = k == 9; } Pcm w = solo(s, idx, rhythm, key, vel, hold, tail, r); c.nontrivial = !silent(w); c.seen("region", idx); long at = firstDiff(w, p); if (at >= 0) c.violation("instrument", "not the sound of region %d (wave %d) expected for it: first difference at frame %ld (expected %d, got %d): %s", idx, s.pWTRegions[idx].waveIndex, at, w[at * 2], p[at * 2], d.c_str());
    EAS_CloseMIDIStream(e.h, h); }
// two keys: exclusive ones cut each other, all others just add up
static void group(Ctx &c) {
    Rng &r = c.rng; bool own = r.chance(1, 2); std::unique_ptr<Lib> l; if (own) l = randomLib(r); const S_EAS &s = own ? l->s : easSoundLib; Chan ch[16]; begin(ch, s); Eas e; EAS_HANDLE h = open(e, own ? &s : nullptr, r); int c1 = r.chance(2, 3) ? 9 : r.below(16), c2 = r.chance(3, 4) ? c1 : r.chance(1, 2) ? 9 : r.below(16); std::string tr; if (r.chance(1, 3)) for (int i = 0; i < 4; i++) { Bytes m = selectMsg(r, ch, s); e.write(h, m); tr += " " + hexs(m); }
    if (ch[c1].first < 0 || ch[c2].first < 0) return; int k1, k2, i1, i2; for (int t = 0;; t++) { k1 = r.range(30, 85); k2 = r.range(30, 85); i1 = region(s, ch[c1].first, k1); i2 = region(s, ch[c2].first, k2); if (t > 60) return; if (i1 < 0 || i2 < 0 || k1 == k2) continue; int g1 = s.pWTRegions[i1].region.keyGroupAndFlags & 0xf00, g2 = s.pWTRegions[i2].region.keyGroupAndFlags & 0xf00; if (t < 40 && r.chance(1, 2) && (g1 != g2 || !g1)) continue; break; }
    int g1 = s.pWTRegions[i1].region.keyGroupAndFlags & 0xf00, g2 = s.pWTRegions[i2].region.keyGroupAndFlags & 0xf00; bool excl = c1 == c2 && g1 == g2 && g1; int v1 = r.range(40, 110), v2 = r.range(40, 110), at = r.range(0, 12), n = at + r.range(4, 20); bool pedal = r.chance(1, 6), off = r.chance(1, 3);
    std::string d = strf("%s library,%s; keys %d (channel %d, group %x) and %d (channel %d, group %x) %d buffers apart%s%s", own ? "own" : "built-in", tr.c_str(), k1, c1, g1 >> 8, k2, c2, g2 >> 8, at, pedal ? ", pedal" : "", off ? ", first released" : ""); c.caseHash = fnv(d.data(), d.size()) ^ (own ? fnv(l->regs.data(), l->regs.size() * sizeof l->regs[0]) : 0); c.sample = d;
    Pcm p; if (pedal) e.write(h, {(uint8_t)(0xB0 | c1), 64, 127}); e.write(h, {(uint8_t)(0x90 | c1), (uint8_t)k1, (uint8_t)v1}); for (int b = 0; b < n; b++) { if (b == at) { if (off && at) e.write(h, {(uint8_t)(0x80 | c1), (uint8_t)k1, 0}); e.write(h, {(uint8_t)(0x90 | c2), (uint8_t)k2, (uint8_t)v2}); } e.render(&p, 1); }
    // each alone on one-region libraries, with the same treatment
    auto alone = [&](int idx, int chn, int key, int vel, int start, int offAt) { auto q = onlyRegion(s, idx); Eas f; EAS_HANDLE x = open(f, &q->s, r); int cc = chn == 9 ? 9 : chn; if (pedal) f.write(x, {(uint8_t)(0xB0 | c1), 64, 127}); Pcm o; for (int b = 0; b < n; b++) { if (b == start) f.write(x, {(uint8_t)(0x90 | cc), (uint8_t)key, (uint8_t)vel}); if (b == offAt) f.write(x, {(uint8_t)(0x80 | cc), (uint8_t)key, 0}); f.render(&o, 1); } return o; };
    Pcm a = alone(i1, c1, k1, v1, 0, off && at ? at : -1), b = alone(i2, c2, k2, v2, at, -1); int size = e.bufN * 2; c.nontrivial = !silent(a) && !silent(b); c.count(excl ? "exclusive_pairs" : "independent_pairs"); size_t from = excl ? (size_t)(at + 3) * size : 0; double gain = floor(32767 * pow(10, (90 - 110) / 20.0)) / 16, tol = gain / 512 + 3;
    if (excl) { long x = -1; for (size_t i = from; i < p.size(); i++) if (p[i] != b[i]) { x = i; break; } if (x >= 0) c.violation("exclusive", "the first key still sounds %ld buffers after the exclusive second one (%d / %d): %s", x / size - at, p[x], b[x], d.c_str()); return; }
    for (size_t i = 0; i < p.size(); i++) { long sum = (long)a[i] + b[i]; if (sum > 32000 || sum < -32000 || abs(a[i]) > 32000 || abs(b[i]) > 32000) continue; if (labs(p[i] - sum) > tol) { c.violation("independent", "keys that do not exclude each other: %ld + %ld give %d in buffer %zu: %s", (long)a[i], (long)b[i], p[i], i / size, d.c_str()); return; } } }
#ifdef SONIVOX_VERIF_HOOKS
// storms of exclusive drums under all polyphony limits: three buffers after a key was struck no other key of its group sounds
static void storm(Ctx &c) {
    Rng &r = c.rng; static std::vector<std::pair<int, int>> keys; if (keys.empty()) { Chan ch[16]; begin(ch, easSoundLib); for (int k = 27; k < 88; k++) { int i = region(easSoundLib, ch[9].first, k); if (i >= 0 && (easSoundLib.pWTRegions[i].region.keyGroupAndFlags & 0xf00)) keys.push_back({k, easSoundLib.pWTRegions[i].region.keyGroupAndFlags & 0xf00}); } }
    Eas e; VoiceView v; struct Live { EAS_HANDLE h; int slot; int lastKey[16]; long at[16]; }; std::vector<Live> L(r.range(1, 3)); std::string tr; long buf = 0; std::map<int, int> grp; for (auto &k : keys) grp[k.first] = k.second >> 8; if (keys.size() < 4) return;
    for (auto &l : L) { v.take(e); S_VERIF_SNAPSHOT b = v.s; l.h = e.stream(); v.take(e); for (int i = 0; i < v.s.numSynths; i++) if (v.s.synth[i].used && !b.synth[i].used) l.slot = i; for (int i = 0; i < 16; i++) l.lastKey[i] = -1, l.at[i] = -9; }
    if (r.chance(1, 2)) { int n = r.range(1, 6); EAS_SetSynthPolyphony(e.h, 0, n); tr += strf(" instance %d", n); } for (auto &l : L) if (r.chance(1, 3)) { int n = r.range(1, 4); EAS_SetPolyphony(e.h, l.h, n); tr += strf(" stream %d", n); }
    int n = r.range(10, 80), few = r.chance(1, 2) ? r.range(2, 5) : (int)keys.size(), off = r.below((uint32_t)keys.size()); for (int i = 0; i < n && !c.failed(); i++) {
        int m = r.below(5); while (m--) { Live &l = L[r.below((uint32_t)L.size())]; if (r.chance(1, 3)) { int ch = r.below(4), k = r.range(40, 80); Bytes w{(uint8_t)(0x90 | ch), (uint8_t)k, (uint8_t)r.range(1, 127)}; e.write(l.h, w); tr += strf(" %d:", l.slot) + hexs(w); continue; }
            auto &k = keys[(off + r.below(few)) % keys.size()]; bool on = r.chance(4, 5); Bytes w{(uint8_t)(on ? 0x99 : 0x89), (uint8_t)k.first, (uint8_t)r.range(1, 127)}; e.write(l.h, w); tr += strf(" %d:", l.slot) + hexs(w); if (on) { l.lastKey[k.second >> 8] = k.first; l.at[k.second >> 8] = buf; c.count("exclusive_strikes"); } }
        int nb = r.chance(1, 3) ? r.range(2, 5) : 1; e.render(nullptr, nb); buf += nb; tr += strf(" |%d", nb); v.take(e); c.count("exclusive_tables");
        for (int q = 0; q < v.s.numVoices; q++) { auto &x = v.s.voice[q]; if (x.state == VERIF_VOICE_FREE || x.state == VERIF_VOICE_MUTING) continue; bool st = x.state == VERIF_VOICE_STOLEN; int sl = st ? x.nextVSynth : x.vSynth, ch = st ? x.nextChannel : x.channel, k = st ? x.nextNote : x.note; if (ch != 9 || !grp.count(k)) continue; for (auto &l : L) if (l.slot == sl) { int g = grp[k]; if (st) c.count("exclusive_pending"); if (k == l.lastKey[g]) c.count("exclusive_sounding"); else if (buf - l.at[g] >= 3) c.violation("exclusive-hangs", "key %d of group %d sounds on (voice %d, state %d) %ld buffers after key %d of the same group was struck on stream %d:%s", k, g, q, x.state, buf - l.at[g], l.lastKey[g], sl, tr.c_str()); } } }
    c.nontrivial = c.counters["exclusive_strikes"] > 3; c.caseHash = fnv(tr.data(), tr.size()); c.sample = tr.substr(0, 200); }
void vh_case(Ctx &c) { storm(c); }
#else
void vh_case(Ctx &c) { if (c.rng.chance(1, 3)) group(c); else lookup(c); }
#endif
