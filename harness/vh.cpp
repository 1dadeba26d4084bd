#include "vh.h"
#include <fcntl.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

std::string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
void Ctx::violation(const std::string &key, const char *fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (auto &v : viol) if (v.key == key) return;
    viol.push_back({key, b});
}
uint64_t fnv(const void *p, size_t n, uint64_t h) { const uint8_t *q = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; } return h; }
std::string hexs(const Bytes &b, size_t maxn) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < maxn; i++) { snprintf(t, 4, "%02x", b[i]); s += t; } if (b.size() > maxn) s += strf("..(%zu)", b.size()); return s; }

// ------------------------------------------------------------ allocator
thread_local AllocLog *g_alloc = nullptr;
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__wrap_malloc(size_t n) {
    AllocLog *a = g_alloc;
    if (!a) return __real_malloc(n);
    int64_t k = a->sinceArm++;
    bool fail = (a->failAt >= 0 && (k == a->failAt || (a->failFrom && k > a->failAt)));
    if (n > a->maxSingle || a->liveBytes + (int64_t)n > a->maxTotal) fail = true;
    if (fail) { a->failed++; return nullptr; }
    void *p = __real_malloc(n);
    if (!p) return p;
    if (a->fill >= 0) memset(p, a->fill, n);
    a->nAlloc++; a->live++; a->liveBytes += (int64_t)n; a->peakBytes = std::max(a->peakBytes, a->liveBytes);
    a->blocks[p] = n;
    return p;
}
extern "C" void __wrap_free(void *p) {
    AllocLog *a = g_alloc;
    if (!a || !p) { __real_free(p); return; }
    auto it = a->blocks.find(p);
    if (it == a->blocks.end()) a->badFree++;
    else { a->live--; a->liveBytes -= (int64_t)it->second; if (a->fill >= 0) memset(p, a->fill ^ 0xff, it->second); a->blocks.erase(it); }
    a->nFree++;
    __real_free(p);     // let the sanitizer judge a bad free
}
extern "C" void *__wrap_calloc(size_t n, size_t m) { if (!g_alloc) return __real_calloc(n, m); if (m && n > SIZE_MAX / m) return nullptr; int f = g_alloc->fill; g_alloc->fill = -1; void *p = __wrap_malloc(n * m); g_alloc->fill = f; if (p) memset(p, 0, n * m); return p; }
extern "C" void *__wrap_realloc(void *p, size_t n) {
    AllocLog *a = g_alloc; if (!a) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    auto it = a->blocks.find(p); size_t old = it == a->blocks.end() ? 0 : it->second;
    void *q = __wrap_malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(old, n)); __wrap_free(p); return q;
}

// ------------------------------------------------------------ host file
static int mf_read(void *h, void *buf, int off, int n) { return ((MemFile *)h)->readAt(buf, off, n); }
static int mf_size(void *h) { MemFile *f = (MemFile *)h; f->sizes++; return f->lieSize >= 0 ? (int)f->lieSize : (int)f->data.size(); }
void MemFile::init() { loc.handle = this; loc.readAt = mf_read; loc.size = mf_size; }
int MemFile::readAt(void *buf, int off, int n) {
    int64_t k = reads++;
    if (keepLog && log.size() < 2000000) log.emplace_back(off, n);
    int64_t sz = lieSize >= 0 ? lieSize : (int64_t)data.size();
    if (off < 0 || n < 0) { negReads++; if (firstBad.empty()) firstBad = strf("read #%lld offset=%d size=%d", (long long)k, off, n); return -1; }
    if ((int64_t)off + n > sz) { oobReads++; if (firstBad.empty()) firstBad = strf("read #%lld offset=%d size=%d beyond file size %lld", (long long)k, off, n, (long long)sz); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if (n > 0 && __asan_region_is_poisoned(buf, (size_t)n)) { badDest++; if (firstBad.empty()) firstBad = strf("read #%lld offset=%d size=%d does not fit its destination", (long long)k, off, n); }
#endif
#endif
    bool fault = failMode && failAtRead >= 0 && (k == failAtRead || (failSticky && k > failAtRead));
    if (fault) {
        faulted++;
        if (failMode == 5) return -(int)(1 + mutSeed % 1000);
        if (failMode == 1) return -1;
        if (failMode == 3) return 0;
        if (failMode == 4) { Rng r(mutSeed + (uint64_t)k); for (int i = 0; i < 8 && !data.empty(); i++) data[r.below((uint32_t)data.size())] = r.byte(); }
    }
    int64_t avail = (int64_t)data.size() - off; if (avail < 0) avail = 0;
    int m = (int)std::min<int64_t>(avail, n);
    if (fault && failMode == 2) m = m / 2;
    if (m > 0) { // touch the whole destination range so that the sanitizer sees it
        memcpy(buf, data.data() + off, (size_t)m);
    }
    if (junk >= 0 && m < n && m >= 0) memset((char *)buf + m, junk, (size_t)(n - m));
    bytes += m;
    return m;
}

// ------------------------------------------------------------ MIDI
void putVL(Bytes &b, uint32_t v, int pad) {
    uint8_t t[5]; int n = 0; t[n++] = v & 0x7f; while (v >>= 7) t[n++] = (v & 0x7f) | 0x80;
    while (pad-- > 0 && n < 4) t[n++] = 0x80;
    while (n) b.push_back(t[--n]);
}
void put16(Bytes &b, unsigned v) { b.push_back(v >> 8); b.push_back(v & 255); }
void put32(Bytes &b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xffff); }
void putLE16(Bytes &b, unsigned v) { b.push_back(v & 255); b.push_back((v >> 8) & 255); }
void putLE32(Bytes &b, uint32_t v) { putLE16(b, v & 0xffff); putLE16(b, v >> 16); }
void putS(Bytes &b, const char *s) { while (*s) b.push_back((uint8_t)*s++); }
Ev evNote(uint32_t t, int ch, int n, int v) { return {t, {(uint8_t)(0x90 | ch), (uint8_t)n, (uint8_t)v}}; }
Ev evOff(uint32_t t, int ch, int n, int v) { return {t, {(uint8_t)(0x80 | ch), (uint8_t)n, (uint8_t)v}}; }
Ev evCC(uint32_t t, int ch, int cc, int v) { return {t, {(uint8_t)(0xB0 | ch), (uint8_t)cc, (uint8_t)v}}; }
Ev evProg(uint32_t t, int ch, int p) { return {t, {(uint8_t)(0xC0 | ch), (uint8_t)p}}; }
Ev evBend(uint32_t t, int ch, int v) { return {t, {(uint8_t)(0xE0 | ch), (uint8_t)(v & 127), (uint8_t)((v >> 7) & 127)}}; }
Ev evPress(uint32_t t, int ch, int v) { return {t, {(uint8_t)(0xD0 | ch), (uint8_t)v}}; }
Ev evMeta(uint32_t t, int type, const Bytes &d) { Bytes b{0xff, (uint8_t)type}; putVL(b, (uint32_t)d.size()); cat(b, d); return {t, b}; }
Ev evTempo(uint32_t t, uint32_t u) { return evMeta(t, 0x51, {(uint8_t)(u >> 16), (uint8_t)(u >> 8), (uint8_t)u}); }
Ev evText(uint32_t t, int type, const std::string &s) { return evMeta(t, type, Bytes(s.begin(), s.end())); }
Ev evSysex(uint32_t t, const Bytes &d) { Bytes b{0xf0}; putVL(b, (uint32_t)d.size()); cat(b, d); return {t, b}; }
void sortTrack(Track &t) { std::stable_sort(t.begin(), t.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); }
Bytes buildSmf(std::vector<Track> tracks, const SmfOpt &o) {
    Bytes f; putS(f, "MThd"); put32(f, (uint32_t)o.headerLen); int fmt = o.format >= 0 ? o.format : (tracks.size() > 1 ? 1 : 0);
    put16(f, fmt); put16(f, (unsigned)tracks.size()); put16(f, o.division); for (int i = 6; i < o.headerLen; i++) f.push_back(0);
    cat(f, o.preChunk);
    for (auto &t : tracks) {
        sortTrack(t);
        Bytes b; uint32_t now = 0; int rs = -1;
        for (auto &e : t) {
            putVL(b, e.tick - now, o.vlPad); now = e.tick;
            uint8_t st = e.b[0];
            if (o.running && st < 0xf0 && st == rs) b.insert(b.end(), e.b.begin() + 1, e.b.end());
            else cat(b, e.b);
            rs = st < 0xf0 ? st : -1;
        }
        if (o.eot) { putVL(b, o.eotDelta, o.vlPad); b.push_back(0xff); b.push_back(0x2f); b.push_back(0); }
        putS(f, "MTrk"); put32(f, (uint32_t)b.size()); cat(f, b);
    }
    cat(f, o.trailing);
    return f;
}

// ------------------------------------------------------------ session
Eas::Eas(bool now) { cfg = EAS_Config(); bufN = (int)cfg->mixBufferSize; chans = (int)cfg->numChannels; rate = (int)cfg->sampleRate; initResult = -1; if (now) init(); }
EAS_RESULT Eas::init() { h = nullptr; initResult = EAS_Init(&h); if (initResult != EAS_SUCCESS) h = nullptr; return initResult; }
EAS_RESULT Eas::shutdown() { if (!h) return EAS_SUCCESS; EAS_RESULT r = EAS_Shutdown(h); h = nullptr; files.clear(); return r; }
EAS_HANDLE Eas::openPrep(const Bytes &b) {
    EAS_HANDLE s = nullptr; if (open(b, &s) != EAS_SUCCESS) return nullptr;
    if (EAS_Prepare(h, s) != EAS_SUCCESS) { EAS_CloseFile(h, s); return nullptr; }
    return s;
}
EAS_HANDLE Eas::stream() { EAS_HANDLE s = nullptr; if (EAS_OpenMIDIStream(h, &s, nullptr) != EAS_SUCCESS) return nullptr; return s; }
EAS_RESULT Eas::renderRaw(int16_t *buf) { EAS_I32 n = 0; EAS_RESULT r = EAS_Render(h, buf, bufN, &n); return r; }
EAS_RESULT Eas::render(Pcm *out, int buffers) {
    std::vector<int16_t> tmp((size_t)bufN * chans);
    for (int i = 0; i < buffers; i++) {
        EAS_I32 n = 0;
        EAS_RESULT r = EAS_Render(h, tmp.data(), bufN, &n);
        if (r != EAS_SUCCESS) return r;
        if (n != bufN) return (EAS_RESULT)-1000;
        if (out) out->insert(out->end(), tmp.begin(), tmp.end());
    }
    return EAS_SUCCESS;
}
bool playAll(Eas &e, EAS_HANDLE s, Pcm &out, int maxBuf) {
    for (int i = 0; i < maxBuf; i++) {
        if (e.render(&out, 1) != EAS_SUCCESS) return false;
        EAS_STATE st = e.state(s);
        if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) return true;
    }
    return false;
}

// ------------------------------------------------------------ PCM
double rms(const Pcm &p, size_t f0, size_t n, int ch) {
    double s = 0; size_t tot = p.size() / 2; if (f0 > tot) return 0; n = std::min(n, tot - f0); if (!n) return 0;
    for (size_t i = f0; i < f0 + n; i++) { if (ch != 1) s += (double)p[2 * i] * p[2 * i]; if (ch != 0) s += (double)p[2 * i + 1] * p[2 * i + 1]; }
    return sqrt(s / (ch < 0 ? 2.0 * n : n));
}
int peak(const Pcm &p, size_t f0, size_t n) { size_t tot = p.size() / 2; int m = 0; for (size_t i = f0; i < tot && i - f0 < n; i++) m = std::max(m, std::max(abs(p[2 * i]), abs(p[2 * i + 1]))); return m; }
bool silent(const Pcm &p, size_t f0, size_t n) { return peak(p, f0, n) == 0; }
long firstDiff(const Pcm &a, const Pcm &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)(i / 2); return a.size() == b.size() ? -1 : (long)(n / 2); }
long firstSound(const Pcm &p, int thr, size_t from) { for (size_t i = from; i < p.size() / 2; i++) if (abs(p[2 * i]) > thr || abs(p[2 * i + 1]) > thr) return (long)i; return -1; }
double freqOf(const Pcm &p, size_t f0, size_t n, int rate, double lo, double hi) {
    std::vector<double> x; size_t tot = p.size() / 2; for (size_t i = f0; i < f0 + n && i < tot; i++) x.push_back((double)p[2 * i] + p[2 * i + 1]);
    if (x.size() < 64) return 0; double m = 0; for (double v : x) m += v; m /= x.size(); for (double &v : x) v -= m;
    int kmin = std::max(2, (int)(rate / hi)), kmax = std::min((int)x.size() / 2, (int)(rate / lo) + 2);
    std::vector<double> ac(kmax + 2, 0); size_t L = x.size() - kmax - 2; if (L < 32) return 0; double best = -1; 
    double e0 = 0; for (size_t i = 0; i < L; i++) e0 += x[i] * x[i]; if (e0 == 0) return 0;
    for (int k = std::max(1, kmin - 1); k <= kmax + 1; k++) { double s = 0, e = 0; for (size_t i = 0; i < L; i++) { s += x[i] * x[i + k]; e += x[i + k] * x[i + k]; } ac[k] = e > 0 ? s / sqrt(e0 * e) : 0; }
    for (int k = kmin; k <= kmax; k++) best = std::max(best, ac[k]);
    for (int k = kmin; k <= kmax; k++) if (ac[k] >= 0.97 * best && ac[k] >= ac[k - 1] && ac[k] >= ac[k + 1]) {
        double a = ac[k - 1], b = ac[k], c = ac[k + 1], d = a - 2 * b + c; double off = d != 0 ? 0.5 * (a - c) / d : 0; return rate / (k + off);
    }
    return 0;
}

#ifdef SONIVOX_VERIF_HOOKS
int VoiceView::used() const { int n = 0; for (int i = 0; i < s.numVoices; i++) if (s.voice[i].state != VERIF_VOICE_FREE) n++; return n; }
int VoiceView::keyed() const { int n = 0; for (int i = 0; i < s.numVoices; i++) { int st = s.voice[i].state; if (st == VERIF_VOICE_START || st == VERIF_VOICE_PLAY) n++; } return n; }
std::string voiceInvariant(const S_VERIF_SNAPSHOT &s) {
    int used = 0, per[VERIF_MAX_SYNTHS] = {0}, pool[VERIF_MAX_SYNTHS][16]; memset(pool, 0, sizeof pool);
    for (int i = 0; i < s.numVoices; i++) {
        const S_VERIF_VOICE &v = s.voice[i];
        if (v.state == VERIF_VOICE_FREE) continue;
        used++;
        if (v.state == VERIF_VOICE_INVALID) return strf("state:voice %d is in an invalid state", i);
        if (v.vSynth < 0 || v.vSynth >= s.numSynths || !s.synth[v.vSynth].used) return strf("owner:voice %d belongs to synth %d which is not in use", i, v.vSynth);
        if (v.state == VERIF_VOICE_STOLEN && (v.nextVSynth >= s.numSynths || !s.synth[v.nextVSynth].used)) return strf("owner:stolen voice %d is destined to synth %d which is not in use", i, v.nextVSynth);
        if (!v.regionValid && v.state != VERIF_VOICE_MUTING) return strf("region:voice %d (state %d, synth %d, channel %d, note %d) plays a region outside its sound library", i, v.state, v.vSynth, v.channel, v.note);
        per[v.vSynth]++;   // a stolen voice counts for its old synth until it is retargeted
        if (v.note > 127 || v.velocity > 127) return strf("range:voice %d note %d velocity %d", i, v.note, v.velocity);
        if (v.state != VERIF_VOICE_MUTING && v.pool >= 0 && v.pool < 16) pool[v.state == VERIF_VOICE_STOLEN ? v.nextVSynth : v.vSynth][v.pool]++;
    }
    if (used != s.activeVoices) return strf("total:%d voices in use but the instance counts %d", used, s.activeVoices);
    int sum = 0;
    for (int i = 0; i < s.numSynths; i++) if (s.synth[i].used) { sum += s.synth[i].numActiveVoices; if (per[i] != s.synth[i].numActiveVoices) return strf("synth:synth %d has %d voices in use but counts %d", i, per[i], s.synth[i].numActiveVoices); }
    if (sum != used) return strf("sum:synth counts add up to %d but %d voices are in use", sum, used);
    for (int i = 0; i < s.numSynths; i++) if (s.synth[i].used) for (int j = 0; j < 16; j++) if (pool[i][j] != s.synth[i].poolCount[j]) return strf("pool:synth %d pool %d has %d voices but counts %d", i, j, pool[i][j], s.synth[i].poolCount[j]);
    return "";
}
#endif

bool documented(EAS_RESULT r) { return (r <= 0 && r >= -39) || (r >= 3 && r <= 5); }
const char *resName(EAS_RESULT r) { static thread_local char b[32]; snprintf(b, sizeof b, "%ld", (long)r); return b; }

// ------------------------------------------------------------ main
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }
int main(int argc, char **argv) {
    Ctx base; uint64_t from = 0, to = 1; const char *out = nullptr, *prog = nullptr;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--seed") base.seed = strtoull(v, 0, 10); else if (a == "--from") from = strtoull(v, 0, 10); else if (a == "--to") to = strtoull(v, 0, 10);
        else if (a == "--tier") base.tier = v; else if (a == "--out") out = v; else if (a == "--progress") prog = v; else if (a == "--aux") base.aux = v; else if (a == "--verbose") base.verbose = atoi(v);
    }
    volatile int64_t *pp = nullptr;
    if (prog) { int fd = open(prog, O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, 16) == 0) pp = (volatile int64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (pp == MAP_FAILED) pp = nullptr; }
    uint64_t evals = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> counters; std::map<std::string, std::unordered_set<uint64_t>> sets; std::vector<std::string> samples; std::map<uint64_t, uint64_t> digests; int nv = 0;
    for (uint64_t n = from; n < to; n++) {
        if (pp) { pp[0] = (int64_t)n; pp[1]++; }
        Ctx c; c.seed = base.seed; c.tier = base.tier; c.aux = base.aux; c.verbose = base.verbose; c.caseNo = n;
        uint64_t h = fnv(vh_property, strlen(vh_property)); uint64_t k[2] = {base.seed, n}; c.rng = Rng(fnv(k, sizeof k, h));
        vh_case(c);
        g_alloc = nullptr;
        evals++;
        if (c.digest) digests[n] = c.digest;
        if (c.nontrivial) distinct.insert(c.caseHash ? c.caseHash : n + 1);
        for (auto &kv : c.counters) counters[kv.first] += kv.second;
        for (auto &kv : c.sets) for (auto x : kv.second) if (sets[kv.first].size() < 400000) sets[kv.first].insert(x);
        if (samples.size() < 4 && !c.sample.empty() && (n - from) % 7 == 0) samples.push_back(strf("case %llu: ", (unsigned long long)n) + c.sample);
        for (auto &v : c.viol) { printf("{\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)n, jesc(v.key).c_str(), jesc(v.msg).c_str()); fflush(stdout); nv++; }
    }
    if (out) {
        FILE *f = fopen(out, "w"); if (!f) return 3;
        fprintf(f, "{\"evaluations\":%llu,\"distinct\":[", (unsigned long long)evals); bool first = true;
        for (auto x : distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)x); first = false; }
        fprintf(f, "],\"counters\":{"); first = true;
        for (auto &kv : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(f, "},\"sets\":{"); first = true;
        for (auto &kv : sets) { fprintf(f, "%s\"%s\":[", first ? "" : ",", kv.first.c_str()); first = false; bool g = true; for (auto x : kv.second) { fprintf(f, "%s%llu", g ? "" : ",", (unsigned long long)x); g = false; } fprintf(f, "]"); }
        fprintf(f, "},\"samples\":["); first = true;
        for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
        fprintf(f, "],\"digests\":{"); first = true;
        for (auto &kv : digests) { fprintf(f, "%s\"%llu\":\"%016llx\"", first ? "" : ",", (unsigned long long)kv.first, (unsigned long long)kv.second); first = false; }
        fprintf(f, "}}\n"); fclose(f);
    }
    if (base.verbose) for (auto &kv : counters) fprintf(stderr, "%s=%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    return nv ? 1 : 0;
}
