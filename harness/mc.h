// Exhaustive case-space driver.
//
// A check is a list of finite Spaces.  Every case of every space is executed on the real code in
// forked worker processes (so that a crash, an assertion failure, a sanitizer report or a hang is
// itself an observed outcome attributed to one case), and judged by the space's oracle.
// A violation is re-executed alone in a fresh process before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options();
#endif
#endif

namespace mc {

inline double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; h ^= h >> 29; }
    return h;
}
inline uint64_t hash64(const std::string& s, uint64_t h = 0x9E3779B97F4A7C15ull) { return hash64(s.data(), s.size(), h); }

inline std::string fmt(const char* f, ...) {
    char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

inline std::string jsonEscape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += c;
    }
    return o;
}

// Lock-free shared set of 64-bit hashes (distinct abstract states over all workers).
struct SharedSet {
    static const size_t N = 1u << 22;
    std::atomic<uint64_t> slot[N];
    std::atomic<uint64_t> size;
    void insert(uint64_t h) {
        if (!h) h = 1;
        if (size.load(std::memory_order_relaxed) > N * 3 / 4) return;
        for (size_t i = h % N, k = 0; k < N; i = (i + 1) % N, k++) {
            uint64_t v = slot[i].load(std::memory_order_relaxed);
            if (v == h) return;
            if (v == 0) {
                if (slot[i].compare_exchange_strong(v, h)) { size++; return; }
                if (v == h) return;
            }
        }
    }
};

struct WorkerSlot {
    std::atomic<uint64_t> cur, chunkBegin, chunkEnd;
    std::atomic<double> started;
    std::atomic<int> busy;
};

struct Violation { uint64_t idx, from; char msg[2000]; };

struct Shared {
    SharedSet states;
    std::atomic<uint64_t> next, done, transitions, traces, nontrivial, nviol;
    std::atomic<uint64_t> counters[32];
    std::atomic<uint64_t> kfHits[64];
    std::atomic<int> stop;
    WorkerSlot w[64];
    Violation viol[256];
};

struct Ctx;
struct Space {
    std::string name;
    uint64_t n;
    std::function<void(uint64_t, Ctx&)> run;
    std::function<std::string(uint64_t)> describe;
};

struct Ctx {
    Shared* sh = nullptr;
    std::string dir;         // scratch directory of this worker
    std::string failMsg;
    bool failed() const { return !failMsg.empty(); }
    void fail(const char* f, ...) {
        if (!failMsg.empty()) return;
        char b[1900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); failMsg = b;
        if (failMsg.empty()) failMsg = "failed";
    }
    void state(uint64_t h) { sh->states.insert(h); }
    void transitions(uint64_t n = 1) { sh->transitions += n; }
    void trace(uint64_t n = 1) { sh->traces += n; }
    void count(int k, uint64_t n = 1) { sh->counters[k] += n; }
    std::string path(const char* name) const { return dir + "/" + name; }
};

struct Check {
    std::string property, level = "model_checking", rule;
    std::vector<Space> spaces;
    std::vector<std::string> assumptions;
    std::vector<std::pair<std::string, int>> counterNames;  // name -> counter index
    // Signatures of known findings: a violation whose message contains "[KF:<sig>]" is matched.
    double caseTimeout = 20;
    int maxViolations = 8;
    int workers = 8;
    uint64_t chunk = 0;
    std::function<void()> workerInit;
    // called before each case: reset global state
};

inline std::string readFile(const std::string& p, size_t limit = 1 << 30) {
    std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
    char b[65536]; size_t n; while (s.size() < limit && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return s;
}
inline void writeFile(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); }
    fwrite(s.data(), 1, s.size(), f); fclose(f);
}

inline void removeTree(const std::string& d) {
    if (DIR* dp = opendir(d.c_str())) {
        while (dirent* e = readdir(dp)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string p = d + "/" + n; struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p); else unlink(p.c_str());
        }
        closedir(dp); rmdir(d.c_str());
    }
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

struct KnownFindings {
    std::vector<std::pair<std::string, std::string>> kf;  // signature -> text
    void load(const std::string& path, const std::string& prop) {
        std::ifstream f(path); std::string l;
        while (std::getline(f, l)) {
            // KNOWN-FINDING: property=C11 sig=<signature> <text>
            if (l.compare(0, 14, "KNOWN-FINDING:") != 0) continue;
            if (l.find("property=" + prop + " ") == std::string::npos) continue;
            size_t s = l.find("sig="); if (s == std::string::npos) continue;
            size_t e = l.find(' ', s); std::string sig = l.substr(s + 4, e - s - 4);
            kf.push_back({sig, e == std::string::npos ? "" : l.substr(e + 1)});
        }
    }
    int match(const std::string& msg) const {
        for (size_t i = 0; i < kf.size(); i++) if (msg.find("[KF:" + kf[i].first + "]") != std::string::npos) return (int)i;
        return -1;
    }
};

inline KnownFindings& kfs() { static KnownFindings k; return k; }

inline void runCase(Check& chk, uint64_t idx, Ctx& ctx) {
    ctx.failMsg.clear();
    uint64_t i = idx;
    for (auto& s : chk.spaces) {
        if (i < s.n) {
            try { s.run(i, ctx); }
            catch (std::exception& e) { ctx.fail("uncaught exception %s", e.what()); }
            catch (...) { ctx.fail("uncaught exception"); }
            return;
        }
        i -= s.n;
    }
}
inline std::string describeCase(Check& chk, uint64_t idx) {
    uint64_t i = idx;
    for (auto& s : chk.spaces) {
        if (i < s.n) return s.name + "#" + std::to_string(i) + ": " + (s.describe ? s.describe(i) : "");
        i -= s.n;
    }
    return "?";
}

inline void redirect(const std::string& errPath) {
    int fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2); close(fd);
    fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 0); close(fd);
    static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

inline std::string condense(const std::string& err) {
    // the useful line(s) of an assertion / sanitizer report
    std::istringstream is(err); std::string l, out; int n = 0;
    while (std::getline(is, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos ||
            l.find("what():") != std::string::npos || (l.find("    #") == 0 && l.find(" in ") != std::string::npos && n < 8)) {
            out += l.substr(0, 200) + " | "; n++; if (n > 9) break;
        }
    }
    return out.empty() ? err.substr(0, 300) : out;
}

// run one case range alone in a fresh process; returns "" when it passes, else failure text
inline std::string runAlone(Check& chk, Shared* sh, uint64_t from, uint64_t to, const std::string& base, double limit) {
    std::string dir = base + "/alone"; removeTree(dir); mkdir(dir.c_str(), 0755);
    std::string errp = base + "/alone.err", outp = base + "/alone.out";
    unlink(outp.c_str());
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        redirect(errp);
        Ctx c; c.sh = sh; c.dir = dir;
        if (chk.workerInit) chk.workerInit();
        for (uint64_t i = from; i <= to; i++) {
            runCase(chk, i, c);
            if (i == to && c.failed()) { writeFile(outp, c.failMsg); _exit(1); }
        }
        _exit(0);
    }
    double t0 = now(); int st; bool killed = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
        usleep(2000);
    }
    kill(-p, SIGKILL);
    if (killed) return fmt("no termination within %.0f s", limit);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    std::string m = readFile(outp);
    if (!m.empty()) return m;
    return fmt("process died (%s %d): ", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + condense(readFile(errp));
}

inline void workerMain(Check& chk, Shared* sh, int w, const std::string& base, uint64_t total, uint64_t chunk) {
    setpgid(0, 0);
    std::string dir = base + fmt("/w%d", w); mkdir(dir.c_str(), 0755);
    redirect(base + fmt("/w%d.err", w));
    WorkerSlot& s = sh->w[w];
    Ctx c; c.sh = sh; c.dir = dir;
    if (chk.workerInit) chk.workerInit();
    for (;;) {
        uint64_t b = s.cur, e = s.chunkEnd;
        if (b >= e) {
            b = sh->next.fetch_add(chunk); if (b >= total) break;
            e = std::min(total, b + chunk);
            s.chunkBegin = b; s.cur = b; s.chunkEnd = e;
        }
        for (uint64_t i = b; i < e; i++) {
            if (sh->stop) _exit(0);
            s.cur = i; s.started = now(); s.busy = 1;
            runCase(chk, i, c);
            s.busy = 0;
            sh->done++;
            if (c.failed()) {
                int km = kfs().match(c.failMsg);
                if (km >= 0) { sh->kfHits[km]++; continue; }
                uint64_t k = sh->nviol.fetch_add(1);
                if (k < 256) { sh->viol[k].idx = i; sh->viol[k].from = s.chunkBegin; snprintf(sh->viol[k].msg, sizeof sh->viol[k].msg, "%s", c.failMsg.c_str()); }
                if (k + 1 >= (uint64_t)chk.maxViolations * 3) sh->stop = 1;
            }
        }
        s.cur = e;
    }
    _exit(0);
}

inline int drive(Check& chk, int argc, char** argv) {
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    std::string evidence, replay, verif = "/verif";
    long seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
    long long one = -1; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--evidence") evidence = argv[++i];
        else if (a == "--replays") replay = argv[++i];
        else if (a == "--verif") verif = argv[++i];
        else if (a == "--case") one = atoll(argv[++i]);
        else if (a == "--list") list = true;
    }
    double t0 = now();
    KnownFindings& kf = kfs(); kf.load(verif + "/KNOWN_FINDINGS", chk.property);
    if (getenv("MC_MAXV")) chk.maxViolations = atoi(getenv("MC_MAXV"));
    // development: only the spaces of that name
    if (const char* only = getenv("MC_SPACE")) { std::vector<Space> l; for (auto& s : chk.spaces) if (std::string(s.name).find(only) != std::string::npos) l.push_back(s); chk.spaces = l; evidence.clear(); }
    uint64_t total = 0; for (auto& s : chk.spaces) total += s.n;
    if (list) { for (auto& s : chk.spaces) printf("%-24s %llu\n", s.name.c_str(), (unsigned long long)s.n); printf("total %llu\n", (unsigned long long)total); return 0; }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/mcXXXXXX"; std::string base = mkdtemp(tmpl);

    if (one >= 0) {
        printf("%s\n", describeCase(chk, one).c_str());
        std::string r = runAlone(chk, sh, one, one, base, 120);
        printf("%s\n", r.empty() ? "PASS" : ("FAIL: " + r).c_str());
        if (!r.empty() && getenv("MC_STDERR")) printf("%s\n", readFile(base + "/alone.err").c_str());
        removeTree(base); return r.empty() ? 0 : 1;
    }

    uint64_t chunk = chk.chunk ? chk.chunk : std::max<uint64_t>(1, std::min<uint64_t>(256, total / (chk.workers * 16) + 1));
    std::vector<pid_t> pid(chk.workers, 0);
    auto spawn = [&](int w) { fflush(nullptr); pid_t p = fork(); if (p == 0) { workerMain(chk, sh, w, base, total, chunk); } pid[w] = p; };
    for (int w = 0; w < chk.workers; w++) spawn(w);
    int alive = chk.workers;
    auto addViol = [&](uint64_t i, uint64_t from, const std::string& m) {
        uint64_t k = sh->nviol.fetch_add(1);
        if (k < 256) { sh->viol[k].idx = i; sh->viol[k].from = from; snprintf(sh->viol[k].msg, sizeof sh->viol[k].msg, "%s", m.c_str()); }
        if (k + 1 >= (uint64_t)chk.maxViolations * 3) sh->stop = 1;
    };
    while (alive > 0) {
        usleep(3000);
        for (int w = 0; w < chk.workers; w++) if (pid[w]) {
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool hung = false;
            if (r == 0 && sh->w[w].busy && now() - sh->w[w].started > chk.caseTimeout) {
                kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); r = pid[w]; hung = true;
            }
            if (r == pid[w]) {
                kill(-pid[w], SIGKILL);
                if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; alive--; continue; }
                uint64_t i = sh->w[w].cur;
                addViol(i, sh->w[w].chunkBegin, hung ? fmt("no termination within %.0f s", chk.caseTimeout) : "crash: " + condense(readFile(base + fmt("/w%d.err", w))));
                sh->done++;
                sh->w[w].cur = i + 1; sh->w[w].chunkBegin = i + 1; sh->w[w].busy = 0;
                if (sh->stop) { pid[w] = 0; alive--; continue; }
                spawn(w);
            }
        }
    }

    // Confirm and report
    std::set<int> kfHit; for (int i = 0; i < 64; i++) if (sh->kfHits[i]) kfHit.insert(i);
     int reported = 0, unconfirmed = 0; std::vector<std::string> vlines;
    uint64_t nv = std::min<uint64_t>(sh->nviol, 256);
    std::vector<int> order; for (uint64_t k = 0; k < nv; k++) order.push_back((int)k);
    std::sort(order.begin(), order.end(), [&](int a, int b) { return sh->viol[a].idx < sh->viol[b].idx; });
    std::string rdir = replay.empty() ? verif + "/build/replays" : replay;
    for (int k : order) {
        Violation& v = sh->viol[k];
        int km = kf.match(v.msg);
        if (km >= 0) { kfHit.insert(km); continue; }
        if (reported >= chk.maxViolations) break;
        std::string how = "alone";
        std::string r = runAlone(chk, sh, v.idx, v.idx, base, chk.caseTimeout * 4);
        if (r.empty() && v.from < v.idx) { r = runAlone(chk, sh, v.from, v.idx, base, chk.caseTimeout * 8); how = fmt("after cases %llu..", (unsigned long long)v.from); }
        if (r.empty()) { unconfirmed++; printf("note: case %llu failed once (%s) but did not fail again when replayed\n", (unsigned long long)v.idx, v.msg); continue; }
        km = kf.match(r); if (km >= 0) { kfHit.insert(km); continue; }
        std::string cmd = "mkdir -p '" + rdir + "'"; if (system(cmd.c_str())) {}
        std::string rp = rdir + "/" + chk.property + "-" + std::to_string(v.idx) + ".txt";
        writeFile(rp, "property " + chk.property + "\ncase " + std::to_string(v.idx) + " (" + how + ")\n" + describeCase(chk, v.idx) + "\nobserved: " + r +
                          "\nreplay: VERIF_TIER=" + tier + " " + verif + "/check " + chk.property + " " + tier + " --case " + std::to_string(v.idx) + "\n");
        vlines.push_back(fmt("VIOLATION property=%s replay=%s", chk.property.c_str(), rp.c_str()));
        printf("  %s\n  -> %s\n", describeCase(chk, v.idx).substr(0, 600).c_str(), r.substr(0, 700).c_str());
        reported++;
    }
    for (auto& p : kf.kf) {
        // every listed finding is announced; one that no longer fails is said to be absent
        size_t i = &p - &kf.kf[0];
        if (kfHit.count((int)i)) printf("KNOWN-FINDING: property=%s %s\n", chk.property.c_str(), p.second.c_str());
        else printf("note: listed finding not observed in this run: %s\n", p.second.c_str());
    }
    double wall = now() - t0;
    bool complete = sh->done >= total && !sh->stop;
    // samples
    std::string samples;
    uint64_t off = 0;
    for (auto& s : chk.spaces) {
        for (uint64_t q : {s.n / 3, s.n - 1}) if (s.n) samples += (samples.empty() ? "" : ",") + ("\"" + jsonEscape(describeCase(chk, off + q).substr(0, 500)) + "\"");
        off += s.n;
    }
    std::string spaces;
    for (auto& s : chk.spaces) spaces += (spaces.empty() ? "" : ",") + fmt("{\"space\":\"%s\",\"cases\":%llu}", jsonEscape(s.name).c_str(), (unsigned long long)s.n);
    std::string ass; for (auto& a : chk.assumptions) ass += (ass.empty() ? "" : ",") + ("\"" + jsonEscape(a) + "\"");
    std::string cnts; for (auto& c : chk.counterNames) cnts += fmt(",\"%s\":%llu", c.first.c_str(), (unsigned long long)sh->counters[c.second].load());
    if (!evidence.empty()) {
        std::ostringstream o;
        o << "{\"property\":\"" << chk.property << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"" << chk.level << "\",\"coverage\":{"
          << "\"evaluations\":" << sh->done << ",\"distinct_nontrivial\":" << sh->states.size << ",\"states\":" << sh->states.size
          << ",\"transitions\":" << sh->transitions << ",\"traces_validated_against_impl\":" << sh->traces << ",\"rule\":\"" << jsonEscape(chk.rule) << "\""
          << ",\"exhaustive\":" << (complete ? "true" : "false") << ",\"spaces\":[" << spaces << "]" << cnts << ",\"unconfirmed\":" << unconfirmed << ",\"samples\":[" << samples << "]}"
          << ",\"assumptions\":[" << ass << "],\"wall_s\":" << wall << ",\"violations\":" << reported << "}\n";
        writeFile(evidence, o.str());
    }
    printf("%s %s: %llu of %llu cases executed, %llu distinct states, %llu transitions, %llu traces on the implementation, %.1f s\n", chk.property.c_str(), tier.c_str(),
           (unsigned long long)sh->done, (unsigned long long)total, (unsigned long long)sh->states.size, (unsigned long long)sh->transitions, (unsigned long long)sh->traces, wall);
    for (auto& l : vlines) printf("%s\n", l.c_str());
    removeTree(base);
    return reported ? 1 : 0;
}

inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }

// mixed radix helper: sequences over an alphabet of size a with lengths 0..d
inline uint64_t seqCount(uint64_t a, int d) { uint64_t n = 0, p = 1; for (int i = 0; i <= d; i++) { n += p; p *= a; } return n; }
inline std::vector<int> seqDecode(uint64_t idx, uint64_t a) {
    uint64_t p = 1; int len = 0;
    while (idx >= p) { idx -= p; p *= a; len++; }
    std::vector<int> v(len);
    for (int i = len - 1; i >= 0; i--) { v[i] = (int)(idx % a); idx /= a; }
    return v;
}
struct Mixed {  // product decoder
    uint64_t i; Mixed(uint64_t i) : i(i) {}
    int operator()(uint64_t n) { int r = (int)(i % n); i /= n; return r; }
};
}  // namespace mc
