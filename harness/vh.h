// Common harness support: RNG, in-memory host files with fault injection,
// MIDI/SMF builders, EAS session wrapper, verdict and evidence recording.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <memory>

extern "C" {
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"
}
#ifdef SONIVOX_VERIF_HOOKS
#include "eas_verif.h"
#endif

typedef std::vector<uint8_t> Bytes;
typedef std::vector<int16_t> Pcm;

// ---------------------------------------------------------------- RNG
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    uint8_t byte() { return (uint8_t)(next() >> 24); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below((uint32_t)N)]; }
};

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const Bytes &b) { return fnv(b.data(), b.size()); }
inline uint64_t fnv(const Pcm &b) { return fnv(b.data(), b.size() * 2); }
std::string hexs(const Bytes &b, size_t maxn = 96);

// ---------------------------------------------------------------- verdicts
struct Violation { std::string key, msg; };
struct Ctx {
    uint64_t seed = 1;          // VERIF_SEED
    uint64_t caseNo = 0;
    std::string tier = "quick";
    std::string aux;            // auxiliary argument (corpus dir etc.)
    bool verbose = false;
    Rng rng{1};
    bool nontrivial = false;    // set by the case when it observed something
    uint64_t caseHash = 0;      // identity of the case for distinctness
    uint64_t digest = 0;        // what the case computed; compared between builds when set
    std::string sample;         // written-out description of the case
    std::vector<Violation> viol;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::unordered_set<uint64_t>> sets;
    void count(const char *n, uint64_t k = 1) { counters[n] += k; }
    void seen(const char *n, uint64_t h) { auto &s = sets[n]; if (s.size() < 200000) s.insert(h); }
    void violation(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    bool failed() const { return !viol.empty(); }
    bool thorough() const { return tier == "thorough"; }
};
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// every harness defines these
extern const char *vh_property;
void vh_case(Ctx &c);                 // runs one case
// optional override
int vh_case_weight();

// ---------------------------------------------------------------- allocator interposition
// The library's malloc/free are wrapped at link time (--wrap).
struct AllocLog {
    uint64_t nAlloc = 0, nFree = 0, failed = 0;
    int64_t live = 0, liveBytes = 0, peakBytes = 0;
    uint64_t badFree = 0;
    int64_t failAt = -1;        // fail the k-th allocation from arming (0-based)
    bool failFrom = false;      // and all following ones
    int64_t sinceArm = 0;
    size_t maxSingle = (size_t)256 << 20;   // larger requests are refused
    int64_t maxTotal = (int64_t)1 << 30;
    int fill = -1;              // fill pattern for fresh memory, -1 none
    std::map<void *, size_t> blocks;
    void arm(int64_t k, bool from) { failAt = k; failFrom = from; sinceArm = 0; }
    void disarm() { failAt = -1; failFrom = false; sinceArm = 0; }
};
extern thread_local AllocLog *g_alloc;   // NULL: pass through

// ---------------------------------------------------------------- host file
struct MemFile {
    Bytes data;
    EAS_FILE loc;
    // fault plan
    int64_t failAtRead = -1;    // index of the read to fault
    int failMode = 0;           // 1 return -1, 2 short, 3 zero, 4 mutate data then serve
    bool failSticky = false;
    int shortMax = 0;           // >0: never deliver more than this many bytes... (legal short read at EOF only)
    int64_t lieSize = -1;       // report another size
    bool rejectOOB = true;
    // log
    int64_t reads = 0, bytes = 0, sizes = 0;
    int64_t oobReads = 0, negReads = 0; std::string firstBad;
    uint64_t mutSeed = 0; int junk = -1; int64_t faulted = 0, badDest = 0;   // junk: what the host leaves in the undelivered part of a short read
    std::vector<std::pair<int,int>> log; bool keepLog = false;
    MemFile() { init(); }
    explicit MemFile(const Bytes &b) : data(b) { init(); }
    MemFile(const MemFile &) = delete;
    void init();
    EAS_FILE_LOCATOR locator() { return &loc; }
    int readAt(void *buf, int off, int n);
};

// ---------------------------------------------------------------- MIDI building
void putVL(Bytes &b, uint32_t v, int pad = 0);
void put16(Bytes &b, unsigned v);
void put32(Bytes &b, uint32_t v);
void putLE16(Bytes &b, unsigned v);
void putLE32(Bytes &b, uint32_t v);
void putS(Bytes &b, const char *s);
inline void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }

struct Ev { uint32_t tick; Bytes b; int order = 0; };   // complete message: status.. / FF type len data / F0 len data
typedef std::vector<Ev> Track;
Ev evNote(uint32_t t, int ch, int n, int v);
Ev evOff(uint32_t t, int ch, int n, int v = 64);
Ev evCC(uint32_t t, int ch, int cc, int v);
Ev evProg(uint32_t t, int ch, int p);
Ev evBend(uint32_t t, int ch, int v14);
Ev evPress(uint32_t t, int ch, int v);
Ev evTempo(uint32_t t, uint32_t usec);
Ev evMeta(uint32_t t, int type, const Bytes &d);
Ev evText(uint32_t t, int type, const std::string &s);
Ev evSysex(uint32_t t, const Bytes &d);      // d without F0, with F7

struct SmfOpt {
    int format = -1;            // -1: by track count
    uint16_t division = 480;
    bool running = false;       // use running status
    int vlPad = 0;              // leading 0x80 padding bytes in delta times
    bool eot = true;
    uint32_t eotDelta = 0;
    Bytes trailing;             // bytes after the last track
    Bytes preChunk;             // unknown chunk(s) between header and tracks
    int headerLen = 6;
};
Bytes buildSmf(std::vector<Track> tracks, const SmfOpt &o = SmfOpt());
void sortTrack(Track &t);       // stable sort by tick

// ---------------------------------------------------------------- EAS session
struct Eas {
    EAS_DATA_HANDLE h = nullptr;
    const S_EAS_LIB_CONFIG *cfg;
    int bufN, chans, rate;
    EAS_RESULT initResult;
    std::vector<std::unique_ptr<MemFile>> files;
    Eas(bool initNow = true);
    ~Eas() { shutdown(); }
    Eas(const Eas &) = delete;
    EAS_RESULT init();
    EAS_RESULT shutdown();
    MemFile *file(const Bytes &b) { files.emplace_back(new MemFile(b)); return files.back().get(); }
    EAS_RESULT open(const Bytes &b, EAS_HANDLE *s) { *s = nullptr; return EAS_OpenFile(h, file(b)->locator(), s); }
    EAS_HANDLE openPrep(const Bytes &b);     // NULL when refused
    EAS_HANDLE stream();                     // live MIDI stream
    EAS_RESULT write(EAS_HANDLE s, const Bytes &b) { Bytes t = b; return EAS_WriteMIDIStream(h, s, t.data(), (EAS_I32)t.size()); }
    EAS_RESULT render(Pcm *out, int buffers = 1);   // appends
    EAS_RESULT renderRaw(int16_t *buf);
    EAS_STATE state(EAS_HANDLE s) { EAS_STATE st = -1; EAS_State(h, s, &st); return st; }
    EAS_I32 loc(EAS_HANDLE s) { EAS_I32 t = -1; EAS_GetLocation(h, s, &t); return t; }
    double bufMs() const { return 1000.0 * bufN / rate; }
};
// plays a song to its end (at most maxBuf buffers)
bool playAll(Eas &e, EAS_HANDLE s, Pcm &out, int maxBuf);

// PCM helpers
double rms(const Pcm &p, size_t frame0, size_t frames, int ch = -1);
int peak(const Pcm &p, size_t frame0 = 0, size_t frames = (size_t)-1);
bool silent(const Pcm &p, size_t frame0 = 0, size_t frames = (size_t)-1);
long firstDiff(const Pcm &a, const Pcm &b);          // frame index or -1
long firstSound(const Pcm &p, int thr = 0, size_t from = 0);  // first frame with |x|>thr or -1
double freqOf(const Pcm &p, size_t frame0, size_t frames, int rate, double lo, double hi); // autocorrelation

#ifdef SONIVOX_VERIF_HOOKS
struct VoiceView { S_VERIF_SNAPSHOT s; void take(Eas &e) { EAS_VerifSnapshot(e.h, &s); } int used() const; int keyed() const; };
// the bookkeeping invariants; empty string when they hold
std::string voiceInvariant(const S_VERIF_SNAPSHOT &s);
#endif

const char *resName(EAS_RESULT r);
bool documented(EAS_RESULT r);      // one of the result codes of eas_types.h
