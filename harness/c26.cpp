// C26: the command-line renderer writes what the library renders, or fails with a message.
#include "probe.h"
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
const char *vh_property = "C26";
extern char **environ;
static Bytes slurp(const std::string &p) { Bytes b; FILE *f = fopen(p.c_str(), "rb"); if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
static void spit(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(3); } fwrite(b.data(), 1, b.size(), f); fclose(f); }
static std::map<std::string, Bytes> listing(const std::string &d) { std::map<std::string, Bytes> m; DIR *x = opendir(d.c_str()); if (!x) return m; while (dirent *e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat s; std::string p = d + "/" + n; if (!lstat(p.c_str(), &s) && S_ISREG(s.st_mode)) m[n] = slurp(p); else m[n] = Bytes{1}; } closedir(x); return m; }
static Bytes shortSong(Rng &r) { SmfOpt o; o.division = r.chance(1, 2) ? 500 : 96; int span = r.range(5, 250), nt = r.range(1, 3); std::vector<Track> ts(nt); int k = r.range(1, 10); for (int i = 0; i < k; i++) { int ch = r.chance(1, 4) ? 9 : r.below(4), key = r.range(36, 90); uint32_t at = r.below(span); Track &t = ts[r.below(nt)]; if (r.chance(1, 3)) t.push_back(evProg(at, ch, r.below(128))); t.push_back(evNote(at, ch, key, r.range(30, 127))); t.push_back(evOff(at + r.range(2, 60), ch, key)); } if (r.chance(1, 4)) ts[0].push_back(evTempo(r.below(span), r.range(100000, 900000))); if (r.chance(1, 4)) ts[0].push_back(evText(0, 3, "a title")); for (auto &t : ts) sortTrack(t); return buildSmf(ts, o); }
struct Input { std::string path; Bytes data; bool exists; bool dir; };
static const int CAP = 6000;    // buffers
// what the library makes of one input: samples and whether every step succeeded; false in *ended when it does not end within the cap
static bool libPlay(Eas &e, const Input &in, Pcm &out, bool &ended) {
    ended = true; if (!in.exists || in.dir) return false; EAS_HANDLE s = nullptr; if (e.open(in.data, &s) || !s) return false; bool ok = true; EAS_I32 len = 0;
    if (EAS_Prepare(e.h, s) || EAS_ParseMetaData(e.h, s, &len) || len == 0) ok = false;
    for (int b = 0; ok; b++) { EAS_STATE st = 0; if (EAS_State(e.h, s, &st)) { ok = false; break; } if (st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) break; if (b >= CAP) { ended = false; break; } if (e.render(&out, 1)) { ok = false; break; } }
    if (EAS_CloseFile(e.h, s)) ok = false; return ok; }
struct Opts { int preset = -1, wet = -1; bool dls = false; Bytes bank; bool wetZero = false; };
// returns false when the options cannot be realised
static bool setup(Eas &e, const Opts &o) {
    if (o.dls) { EAS_RESULT r = EAS_LoadDLSCollection(e.h, nullptr, e.file(o.bank)->locator()); if (r) return false; }
    if (o.preset >= 1) { if (EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_PRESET, o.preset - 1)) return false; if (o.wet >= 0 || o.wetZero) EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_WET, o.wet >= 0 ? o.wet : 0); EAS_SetParameter(e.h, EAS_MODULE_REVERB, EAS_PARAM_REVERB_BYPASS, 0); }
    return true; }
void vh_case(Ctx &c) {
    Rng &r = c.rng; const char *exe = getenv("VH_EXE"); if (!exe || access(exe, X_OK)) { fprintf(stderr, "no renderer program (VH_EXE)\n"); exit(3); }
    char tmpl[] = "c26-XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); exit(3); } std::string dir = tmpl, in = dir + "/in"; mkdir(in.c_str(), 0755);
    Opts o; bool badOpt = false, mayBad = false; std::vector<std::string> opts, files; std::string why; std::vector<Input> ins;
    // inputs
    int nf = r.chance(2, 3) ? 1 : r.range(2, 4); for (int i = 0; i < nf; i++) { Input x; x.path = in + strf("/%d%s", i, r.chance(1, 2) ? ".mid" : r.chance(1, 2) ? " a b.MID" : ""); x.exists = true; x.dir = false; int k = r.below(16);
        if (k < 9) x.data = shortSong(r); else if (k == 9) x.exists = false; else if (k == 10) { x.dir = true; mkdir(x.path.c_str(), 0755); } else if (k == 11) { } else if (k == 12) { int m = r.range(1, 300); for (int j = 0; j < m; j++) x.data.push_back(r.byte()); if (r.chance(1, 2) && m > 4) memcpy(x.data.data(), "MThd", 4); } else if (k == 13) { x.data = shortSong(r); x.data.resize(r.below((uint32_t)x.data.size())); } else if (k == 14) { x.data = shortSong(r); mutate(r, x.data, r.range(1, 5)); } else { SmfOpt so; std::vector<Track> ts(1); if (r.chance(1, 2)) ts[0].push_back(evNote(0, 0, 60, 100)); x.data = buildSmf(ts, so); }
        if (i && r.chance(1, 8)) x = ins[0]; else if (x.exists && !x.dir) spit(x.path, x.data); ins.push_back(x); files.push_back(x.path); }
    // options
    if (r.chance(1, 2)) { o.preset = r.range(0, 4); if (r.chance(1, 8)) { static const int bad[] = {5, -1, 6, 100, -5, 65536}; o.preset = r.pick(bad); badOpt = true; why += " preset"; } std::string v = strf("%d", o.preset); if (r.chance(1, 2)) { opts.push_back("-r"); opts.push_back(v); } else opts.push_back("-r" + v); }
    if (r.chance(1, 2)) { int e = r.below(4); o.wet = e == 0 ? 0 : e == 1 ? 32765 : r.range(0, 32765); if (r.chance(1, 8)) { static const int bad[] = {32768, -1, 40000, 65536, 1000000, -32768}; o.wet = r.pick(bad); badOpt = true; why += " wet"; } std::vector<std::string> w; std::string v = strf("%d", o.wet); if (r.chance(1, 2)) w = {"-w", v}; else w = {"-w" + v}; opts.insert(r.chance(1, 2) ? opts.begin() : opts.end(), w.begin(), w.end()); }
    if (r.chance(1, 3)) { std::string p = in + "/bank.dls"; o.dls = true; int k = r.below(8); if (k < 6) { o.bank = buildDls(genDlsSpec(r, r.chance(1, 4))); spit(p, o.bank); } else if (k == 6) { badOpt = true; why += " missing bank"; } else { int m = r.below(200); for (int j = 0; j < m; j++) o.bank.push_back(r.byte()); spit(p, o.bank); } std::vector<std::string> w; if (r.chance(1, 2)) w = {"-d", p}; else w = {"-d" + p}; opts.insert(r.chance(1, 2) ? opts.begin() : opts.end(), w.begin(), w.end()); }
    if (r.chance(1, 25)) { static const char *bad[] = {"-x", "-z3", "-q", "-R", "--foo"}; opts.push_back(r.pick(bad)); badOpt = true; why += " unknown option"; }
    bool lastArg = false; if (r.chance(1, 40)) { lastArg = true; badOpt = true; why += " option without argument"; }
    std::vector<std::string> args{"sonivoxrender"}; bool after = r.chance(1, 6); if (after && !lastArg) { args.insert(args.end(), files.begin(), files.end()); args.insert(args.end(), opts.begin(), opts.end()); } else { args.insert(args.end(), opts.begin(), opts.end()); if (r.chance(1, 8) && !lastArg) args.push_back("--"); args.insert(args.end(), files.begin(), files.end()); }
    if (lastArg) { static const char *la[] = {"-r", "-w", "-d"}; args.push_back(r.pick(la)); }
    std::string cmd; for (auto &a : args) cmd += " '" + a + "'"; { std::string t = cmd; for (size_t q; (q = t.find(dir)) != std::string::npos;) t.erase(q, dir.size()); cmd = t; } c.sample = cmd.substr(0, 300); uint64_t hh = fnv(cmd.data(), cmd.size()); for (auto &x : ins) hh = hh * 31 + fnv(x.data); hh = hh * 31 + fnv(o.bank); c.caseHash = hh;
    // expectation
    std::vector<Pcm> want; bool ok = true, skip = false;    // alternatives
    if (badOpt) ok = false; else {
        std::vector<Opts> alts{o}; if (o.preset >= 1 && o.wet < 0) { Opts z = o; z.wetZero = true; alts.push_back(z); }
        for (auto &a : alts) { Eas e; Pcm out; bool good = setup(e, a); if (!good) { ok = false; why += " unusable bank"; want.push_back(out); continue; } bool bad = false; for (auto &x : ins) { bool ended; if (!libPlay(e, x, out, ended)) { if (ended) { ok = false; bad = true; if (&a == &alts[0]) why += " " + x.path; } } if (!ended) skip = true; if (bad || skip) break; } want.push_back(out); }
        if (alts.size() == 1 && nf > 1 && ok && !skip) { Pcm out; for (auto &x : ins) { Eas e; setup(e, o); bool ended; libPlay(e, x, out, ended); } want.push_back(out); } }
    std::string rmc = dir; auto cleanup = [&]() { auto l = listing(in); for (auto &x : l) { std::string p = in + "/" + x.first; if (unlink(p.c_str())) rmdir(p.c_str()); } for (auto &x : listing(dir)) unlink((dir + "/" + x.first).c_str()); rmdir(in.c_str()); rmdir(dir.c_str()); };
    if (skip) { c.count("skipped_endless"); cleanup(); return; }
    auto before = listing(in); int dest = r.below(10); std::string of = dir + "/out", ef = dir + "/err"; int ofd = -1, pfd[2] = {-1, -1}; if (dest == 0) ofd = open("/dev/full", O_WRONLY | O_CLOEXEC); else if (dest == 1) { if (pipe2(pfd, O_CLOEXEC)) exit(3); ofd = pfd[1]; } else if (dest == 2) ofd = open(of.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); else ofd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); int efd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (ofd < 0 || efd < 0) { perror("open"); exit(3); }
    bool closedOut = dest == 3; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); if (closedOut) posix_spawn_file_actions_addclose(&fa, 1); else posix_spawn_file_actions_adddup2(&fa, ofd, 1); posix_spawn_file_actions_adddup2(&fa, efd, 2);
    std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr); pid_t pid; if (posix_spawn(&pid, exe, &fa, nullptr, av.data(), environ)) { perror("spawn"); exit(3); } posix_spawn_file_actions_destroy(&fa); close(ofd); close(efd);
    Bytes got; int st = 0; bool hung = false; if (dest == 1) { uint8_t t[65536]; ssize_t n; size_t lim = (size_t)CAP * 8 * 1024 * 8; while ((n = read(pfd[0], t, r.range(1, 65536))) > 0) { got.insert(got.end(), t, t + n); if (got.size() > lim) { hung = true; kill(pid, SIGKILL); break; } } close(pfd[0]); waitpid(pid, &st, 0); }
    else { for (int ms = 0;; ms++) { if (waitpid(pid, &st, WNOHANG) == pid) break; usleep(ms < 100 ? 500 : 5000); struct stat sb; if (!stat(of.c_str(), &sb) && (uint64_t)sb.st_size > (uint64_t)CAP * 8192 * 4) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } } if (dest != 0 && !closedOut) got = slurp(of); }
    Bytes err = slurp(ef); auto aft = listing(in); std::string es(err.begin(), err.end()); cleanup(); c.count("program_runs"); if (badOpt) c.count("bad_options");
    if (hung) { c.violation("endless", "the program keeps writing although the library's playback ends:%s", cmd.c_str()); return; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 1 && es.find("Sanitizer") != std::string::npos || es.find("runtime error") != std::string::npos) { c.violation("crash", "the program died (status %x):%s\n%s", st, cmd.c_str(), es.substr(0, 3000).c_str()); return; }
    int code = WEXITSTATUS(st);
    if (before != aft) { std::string d; for (auto &x : before) if (!aft.count(x.first)) d += " removed " + x.first; else if (aft[x.first] != x.second) d += " changed " + x.first; for (auto &x : aft) if (!before.count(x.first)) d += " created " + x.first; c.violation("input", "the program modified its inputs:%s;%s", d.c_str(), cmd.c_str()); return; }
    size_t total = want.empty() ? 0 : want[0].size(); bool lost = (dest == 0 || closedOut) && total > 0;
    if (!ok) { c.count("expected_failures"); if (code == 0) { c.violation("success", "exit status 0 although it had to fail (%s):%s", why.c_str(), cmd.c_str()); return; } if (err.empty()) { c.violation("silent-failure", "failure (%s) without a message:%s", why.c_str(), cmd.c_str()); return; } }
    else if (lost) { c.count("unwritable_output"); if (code == 0) { c.violation("output-lost", "exit status 0 although the samples could not be written (%s):%s", closedOut ? "closed" : "full", cmd.c_str()); return; } if (err.empty()) { c.violation("silent-failure", "output lost without a message:%s", cmd.c_str()); return; } return; }
    else if (code) { c.violation("failure", "exit status %d on playable input:%s: %s", code, cmd.c_str(), es.substr(0, 500).c_str()); return; }
    if (dest == 0 || closedOut) return; c.count("outputs_compared"); c.nontrivial = total > 0 || !ok;
    if (badOpt) { if (!got.empty()) c.violation("output", "samples written in spite of a bad option (%s):%s", why.c_str(), cmd.c_str()); return; }
    for (auto &w : want) if (got.size() == w.size() * 2 && (got.empty() || !memcmp(got.data(), w.data(), got.size()))) { c.count("samples_equal", (int64_t)w.size()); return; }
    // the amount asked for is replaced by the one of the preset (one specific way to be wrong)
    if (o.preset >= 1 && o.preset != 2 && o.wet >= 0) { Opts z = o; z.wet = -1; Pcm w; Eas e; bool same = setup(e, z); for (auto &x : ins) { bool ended; if (!same || !libPlay(e, x, w, ended)) break; } if (same && got.size() == w.size() * 2 && !memcmp(got.data(), w.data(), got.size())) { c.violation("wet-ignored", "-w %d has no effect, the reverb amount is that of preset %d:%s", o.wet, o.preset, cmd.c_str()); return; } }
    size_t i = 0; while (i < total && i * 2 + 1 < got.size() && (int16_t)(got[2 * i] | got[2 * i + 1] << 8) == want[0][i]) i++;
    c.violation("output", "the program wrote %zu samples, the library renders %zu; first difference at sample %zu (exit %d):%s", got.size() / 2, total, i, code, cmd.c_str());
}
