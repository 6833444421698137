// C06 (cached reads) and C07 (use from several threads), on the real library under a controlled scheduler.
#include "formats.h"
#include "schedrt.h"
#include <ZIP.h>
using namespace formats;

static string D;                       // scratch directory of the current worker
static string prop() { const char* p = getenv("MC_PROP"); return p ? p : "C07"; }

// ------------------------------------------------------------------ results as text
static string digest(const ParticlesData* p) {
    if (!p) return "none";
    Set m = snapshot(*p); string s = m.str(); char b[40];
    for (auto* v : {&m.attrs, &m.fixed}) for (auto& a : *v) { s += "|"; for (auto& r : a.rows) for (auto& w : r) { snprintf(b, sizeof b, "%x,", w.v); s += b; } for (auto& t : a.strs) s += t + ";"; }
    return s;
}
static string headerDigest(const ParticlesInfo* p) {
    if (!p) return "none";
    string s = std::to_string(p->numParticles());
    for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); s += " " + a.name + ":" + std::to_string(a.type) + ":" + std::to_string(a.count); }
    for (int i = 0; i < p->numFixedAttributes(); i++) { FixedAttribute a; p->fixedAttributeInfo(i, a); s += " fixed " + a.name + ":" + std::to_string(a.type) + ":" + std::to_string(a.count); }
    return s;
}
static Set points(int n, int seed) {
    Set m; m.addAttr("position", VECTOR, 3); m.addAttr("id", INT, 1); m.addAttr("tag", INDEXEDSTR, 1); m.addAttr("w", FLOAT, 2); m.addParticles(n);
    m.attrs[2].strs = {"alpha", "beta"};
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < 3; k++) m.attrs[0].rows[i][k] = Word(fbits((float)((i * 7 + k * 3 + seed) % 11)));
        m.attrs[1].rows[i][0] = Word(100 + i); m.attrs[2].rows[i][0] = Word(i & 1); m.attrs[3].rows[i][0] = Word(fbits(i * .5f)); m.attrs[3].rows[i][1] = Word(fbits(seed * 1.f));
    }
    return m;
}
static string query(const ParticlesData* p) {
    if (!p) return "none";
    float c[3] = {4.2f, 5.1f, 3.3f}, lo[3] = {2, 2, 2}, hi[3] = {8, 8, 8};
    vector<ParticleIndex> a, b; vector<float> d;
    p->findNPoints(c, 3, 50, a, d); p->findPoints(lo, hi, b); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    string s; for (auto x : a) s += std::to_string(x) + ","; s += "/"; for (auto x : b) s += std::to_string(x) + ",";
    return s;
}

// ------------------------------------------------------------------ operations
static ParticlesDataMutable* shared_ = nullptr;   // a sorted set used by all threads, read only
static const int NF = 11;
static const char* fmts[NF] = {"bgeo", "geo", "pdb", "pda", "ptc", "pdc", "prt", "bin", "mc", "pts", "rib"};
static bool canRead(int f) { return string(fmts[f]) != "rib"; }
static bool canWrite(int f) { return string(fmts[f]) != "mc" && string(fmts[f]) != "pts"; }
static string inFile(int f) { return D + "/in." + fmts[f]; }

struct Held { string name; const void* p = nullptr; int n = 0; };   // cached objects held by threads that completed readCached
static Held held[4]; static int heldN = 0;
struct Unseen { Unseen() { rt::ignore(1); } ~Unseen() { rt::ignore(-1); } };   // the harness's own bookkeeping
static void gotCached(const char* name, const void* p) {
    Unseen u;
    for (int i = 0; i < heldN; i++) if (held[i].name == name) {
        if (held[i].n > 0 && held[i].p != p) rt::report("a cached read of %s gives another object while one is held", name);
        held[i].p = p; held[i].n++;
        if (p && rt::isFreed(p)) rt::report("a cached read of %s gives a freed object", name);
        return;
    }
    held[heldN].name = name; held[heldN].p = p; held[heldN].n = 1; heldN++;
}
static void giveBack(const char* name, const void* p) {
    Unseen u;
    for (int i = 0; i < heldN; i++) if (held[i].name == name) held[i].n--;
    if (p && rt::isFreed(p)) rt::report("a cached set was freed while it was held");
}

struct Op { string name; std::function<string(int)> f; };
static string tfile(int t, const char* ext) { return D + "/out" + std::to_string(t) + "." + ext; }
static string readOp(const string& f) { std::ostringstream e; ParticlesDataMutable* p = read(f.c_str(), true, e); string s = digest(p) + " err=" + e.str(); if (p) p->release(); return s; }
static string cachedUse(const string& f, bool sort, int n) {
    std::ostringstream e; string s;
    vector<ParticlesData*> h;
    for (int i = 0; i < n; i++) { ParticlesData* p = readCached(f.c_str(), sort, true, e); gotCached(f.c_str(), p); h.push_back(p); if (p != h[0]) s += "DIFFERENT "; }
    s += digest(h[0]); if (sort) s += query(h[0]);
    for (int i = 0; i < n; i++) {
        if (i == n - 1) s += digest(h[i]) == digest(h[i]) ? "" : "?";
        giveBack(f.c_str(), h[i]); if (h[i]) h[i]->release();
    }
    return s;
}

static vector<Op>& ops() {
    static vector<Op> o; if (!o.empty()) return o;
    auto add = [&](const string& n, std::function<string(int)> f) { o.push_back({n, f}); };
    for (int f = 0; f < NF; f++) if (canRead(f)) add(string("read ") + fmts[f], [f](int) { return readOp(inFile(f)); });
    for (int f = 0; f < NF; f++) if (canRead(f)) add(string("headers ") + fmts[f], [f](int) { std::ostringstream e; ParticlesInfo* p = readHeaders(inFile(f).c_str(), true, e); string s = headerDigest(p) + e.str(); if (p) p->release(); return s; });
    for (int f = 0; f < NF; f++) if (canWrite(f)) add(string("write ") + fmts[f], [f](int t) {
        std::ostringstream e; ParticlesDataMutable* p = build(points(3, 1)); string n = tfile(t, fmts[f]); write(n.c_str(), *p, false, true, e); p->release(); string s = mc::readFile(n); unlink(n.c_str()); return std::to_string(s.size()) + ":" + std::to_string(mc::hash64(s)) + e.str(); });
    add("write bgeo.gz", [](int t) { std::ostringstream e; ParticlesDataMutable* p = build(points(3, 1)); string n = tfile(t, "bgeo.gz"); write(n.c_str(), *p, true, true, e); string s = readOp(n); p->release(); unlink(n.c_str()); return s + e.str(); });
    add("write shared set", [](int t) { std::ostringstream e; string n = tfile(t, "s.geo"); write(n.c_str(), *shared_, false, true, e); string s = mc::readFile(n); unlink(n.c_str()); return s + e.str(); });
    add("read bgeo.gz", [](int) { return readOp(D + "/in2.bgeo.gz"); });
    add("read missing", [](int) { std::ostringstream e; ParticlesDataMutable* p = read((D + "/missing.bgeo").c_str(), true, e); string s = p ? "object" : "none"; return s + (e.str().empty() ? " silent" : " reported"); });
    add("read bad extension", [](int) { std::ostringstream e; ParticlesDataMutable* p = read((D + "/x.nope").c_str(), true, e); string s = p ? "object" : "none"; return s + (e.str().empty() ? " silent" : " reported"); });
    add("build and use", [](int t) { ParticlesDataMutable* p = build(points(4, 2)); p->sort(); string s = digest(p) + query(p); ParticleAttribute a; p->attributeInfo("tag", a); s += std::to_string(p->registerIndexedStr(a, "gamma")); p->release(); return s; });
    add("interleaved", [](int) { ParticlesDataMutable* p = build(points(4, 2), createInterleave()); string s = digest(p); p->release(); return s; });
    add("clone shared", [](int) { ParticlesDataMutable* p = clone(*shared_, true); string s = digest(p); p->release(); ParticlesDataMutable* q = cloneSchema(*shared_); s += digest(q); q->release(); return s; });
    add("merge", [](int) { ParticlesDataMutable* p = build(points(3, 2)); merge(*p, *shared_, "id"); string s = digest(p); p->release(); return s; });
    add("cluster", [](int) { ParticlesDataMutable* p = build(points(3, 2)); ParticlesDataMutable* q = computeClustering(p, 3, 6, 100, 2, .7); string s = digest(q); if (q) q->release(); p->release(); return s; });
    add("query shared", [](int) { return query(shared_); });
    add("iterate shared", [](int) {
        ParticleAttribute a; shared_->attributeInfo("position", a); ParticleAccessor x(a); const ParticlesData* c = shared_; string s;
        auto it = c->begin(); it.addAccessor(x); for (; it != c->end(); ++it) s += std::to_string(x.raw<float>(it)[0]) + ","; ParticleAttribute b; shared_->attributeInfo("tag", b);
        vector<float> v(10); ParticleIndex ix[5] = {0, 1, 2, 3, 4}; shared_->dataAsFloat(b, 5, ix, false, v.data()); s += std::to_string(v[1]);
        return s + std::to_string(shared_->lookupIndexedStr(b, "beta")) + shared_->indexedStrs(b)[0]; });
    add("zip", [](int t) {
        string n = tfile(t, "zip"); { ZipFileWriter w(n); for (int i = 0; i < 2; i++) { std::ostream* s = w.Add_File("m" + std::to_string(i), i == 0); *s << "contents " << i; delete s; } }
        ZipFileReader r(n); string out; for (int i = 0; i < 2; i++) { std::unique_ptr<std::istream> s(r.Get_File("m" + std::to_string(i), i == 0)); std::stringstream b; if (s) b << s->rdbuf(); out += b.str() + "|"; } unlink(n.c_str()); return out; });
    add("cached", [](int) { return cachedUse(inFile(0), false, 1); });
    add("cached sorted", [](int) { return cachedUse(inFile(0), true, 1); });
    add("cached twice", [](int) { return cachedUse(inFile(0), false, 2); });
    add("cached sorted twice", [](int) { return cachedUse(inFile(0), true, 2); });
    add("cached other", [](int) { return cachedUse(inFile(1), true, 1); });
    add("cached prt", [](int) { return cachedUse(inFile(6), false, 1); });
    add("cached missing", [](int) { return cachedUse(D + "/missing.bgeo", true, 1); });
    return o;
}
static bool isCached(const string& n) { return n.compare(0, 6, "cached") == 0; }

// ------------------------------------------------------------------ scenarios
struct Scen { vector<vector<int>> t; int bound; };
static vector<Scen> scens; static vector<string> expect_;
static string scenStr(const Scen& s) {
    string r; for (auto& t : s.t) { r += r.empty() ? "" : " || "; bool f = true; for (int o : t) { r += (f ? "" : "; ") + ops()[o].name; f = false; } } return r + mc::fmt("  (at most %d preemptions)", s.bound);
}
static int opNamed(const string& n) { for (size_t i = 0; i < ops().size(); i++) if (ops()[i].name == n) return (int)i; fprintf(stderr, "no op %s\n", n.c_str()); _exit(3); }

static void prepare() {
    // input files and expected results, made by another process, so that this one has never called the library
    string resFile = D + "/expect";
    fflush(nullptr); pid_t p = fork();
    if (p == 0) {
            auto put = [&](int f, const File& x) { mc::writeFile(inFile(f), x.bytes); };
        Set m = points(5, 3);
        BgeoOpt o; Set b = m; put(0, encBGEO(b, o));
        { Set g = m; put(1, encGEO(g)); }
        { Set g = m; g.attrs.erase(g.attrs.begin() + 2); put(2, encPDB(g, 64)); }
        { Set g = m; g.attrs.resize(2); put(3, encPDA(g)); put(5, encPDC(g)); }
        put(4, encPTC(1, {{"float", "f"}, {"color", "c"}}, 3, 1)); put(7, encBIN(11, 3, 1)); put(9, encPTS(7, 3, 1));
        { Set g = mk({14, 0, 1}, 2); g.attrs[0].rows[0][0] = Word(1); g.attrs[0].rows[1][0] = Word(2); put(8, encMC(g, 3)); }
        vector<PrtChan> pc = {{"Position", 4, 3, 0}, {"ID", 2, 1, 4}, {"half", 3, 2, 0}};
        put(6, encPRT(pc, 3, [](int j, int i, int k) -> uint64_t { return i == 0 ? fbits(j + k * .5f) : i == 1 ? (uint64_t)(j * 10 + 3) : (uint64_t)(0x3c00 + j); }));
        { ParticlesDataMutable* q = build(m); write((D + "/in2.bgeo.gz").c_str(), *q, true, false, std::cerr); q->release(); }
        shared_ = build(points(6, 4)); shared_->sort();
        string out; for (auto& op : ops()) { string r = op.f(0); out += r; out.push_back('\0'); }
        mc::writeFile(resFile, out);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    string r = mc::readFile(resFile); expect_.clear(); size_t a = 0;
    while (a < r.size()) { size_t e = r.find('\0', a); expect_.push_back(r.substr(a, e - a)); a = e + 1; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) || expect_.size() != ops().size()) { fprintf(stderr, "preparation failed (status %x, %d results)\n", st, (int)expect_.size()); }
    // the set shared by the threads is made here with container operations only
    shared_ = build(points(6, 4)); shared_->sort();
}

struct Exec { rt::Trace tr; char fail[1500]; };
static Exec* ex = nullptr;

static void child(const Scen& s, const vector<uint8_t>& ch) {
    static vector<vector<string>> res; res.assign(s.t.size(), {}); for (size_t i = 0; i < s.t.size(); i++) res[i].assign(s.t[i].size(), "");
    vector<std::function<void()>> bodies;
    for (size_t i = 0; i < s.t.size(); i++) bodies.push_back([i, &s] { for (size_t k = 0; k < s.t[i].size(); k++) res[i][k] = ops()[s.t[i][k]].f((int)i); });
    rt::run(bodies, ch, &ex->tr);
    for (size_t i = 0; i < s.t.size(); i++) for (size_t k = 0; k < s.t[i].size(); k++) if (res[i][k] != expect_[s.t[i][k]]) {
        size_t d = 0; while (d < res[i][k].size() && d < expect_[s.t[i][k]].size() && res[i][k][d] == expect_[s.t[i][k]][d]) d++;
        rt::report("'%s' in thread %d gives another result than alone: ...%s instead of ...%s", ops()[s.t[i][k]].name.c_str(), (int)i, res[i][k].substr(d > 20 ? d - 20 : 0, 200).c_str(), expect_[s.t[i][k]].substr(d > 20 ? d - 20 : 0, 200).c_str());
    }
    // everything has been released: a cached read now loads the file anew, and all the shared objects are gone
    for (int i = 0; i < heldN; i++) if (held[i].p && !rt::isFreed(held[i].p)) rt::report("cached %s is not freed although all holders released it", held[i].name.substr(held[i].name.rfind('/') + 1).c_str());
    if (heldN) {
        std::ostringstream e; ParticlesData* p = readCached(inFile(0).c_str(), true, true, e); string d = digest(p) + query(p);
        if (d != expect_[opNamed("cached sorted")]) rt::report("a cached read after all releases gives other contents");
        if (p) { p->release(); if (!rt::isFreed(p)) rt::report("the last release of a cached set does not free it"); }
    }
    if (digest(shared_) != digest(shared_) || query(shared_).empty()) rt::report("the shared set is damaged");
    _exit(0);
}

// one execution; returns the failure text
static string execute(const Scen& s, const vector<uint8_t>& ch, int* outcome = nullptr) {
    ex->tr.n = ex->tr.ops = ex->tr.accesses = ex->tr.races = ex->tr.finished = 0; ex->tr.msg[0] = 0;
    pid_t p = fork();
    if (p == 0) { alarm(30); child(s, ch); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (ex->tr.msg[0]) return ex->tr.msg;
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "execution does not end" : mc::fmt("process died with signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) return mc::fmt("process ended with status %d", WEXITSTATUS(st));
    return "";
}
static string schedStr(const vector<uint8_t>& c) { string s; for (auto x : c) s += (char)('0' + x); return s; }

struct Explorer {
    const Scen& s; Ctx& c; uint64_t execs = 0, points = 0; std::set<uint64_t> outcomes; uint64_t cap; bool capped = false;
    void go(vector<uint8_t> prefix) {
        if (c.failed() || capped) return;
        if (execs >= cap) { capped = true; return; }
        string f = execute(s, prefix); execs++;
        vector<rt::Point> pts(ex->tr.p, ex->tr.p + ex->tr.n); points += ex->tr.ops;
        c.transitions(ex->tr.ops); c.trace();
        if (!f.empty()) {
            string g = execute(s, prefix);  // the same schedule again
            vector<uint8_t> full; for (auto& p : pts) full.push_back(p.chosen);
            if (f.find("[RT]") != string::npos) { c.fail("the scheduler diverged while replaying a schedule: %s", f.c_str()); return; }
            if (g == f || (!g.empty() && f.substr(0, 9) == g.substr(0, 9))) { c.fail("%s [schedule %s]", f.c_str(), schedStr(full).substr(0, 300).c_str()); return; }
            c.count(2); pts.clear(); return;
        }
        uint64_t h = 7; for (auto& p : pts) h = mc::hash64(&p.chosen, 1, h);
        c.state(mc::hash64(&h, 8, mc::hash64(scenStr(s))));
        int cost = 0; for (size_t i = 0; i < prefix.size() && i < pts.size(); i++) if (pts[i].chosen && pts[i].runningEnabled) cost++;
        for (size_t i = prefix.size(); i < pts.size(); i++) {
            int k = cost + (pts[i].runningEnabled ? 1 : 0);
            if (k > s.bound) continue;
            for (int alt = 1; alt < pts[i].nEnabled; alt++) {
                vector<uint8_t> n; for (size_t j = 0; j < i; j++) n.push_back(pts[j].chosen); n.push_back((uint8_t)alt);
                go(n); if (c.failed() || capped) return;
            }
        }
    }
};

static void runScen(const Scen& s, Ctx& c) {
    Explorer e{s, c}; e.cap = thorough() ? 400000 : 20000;
    e.go({});
    c.count(0, e.execs); if (e.capped) c.count(1);
    c.count(3, e.points);
    if (getenv("MC_SHOW")) { string k; for (uint32_t i = 0; i < ex->tr.n; i++) k += (char)ex->tr.p[i].kind; mc::writeFile(string(getenv("MC_SHOW")), mc::fmt("execs %llu capped %d points/exec %g accesses %u last trace %s\n", (unsigned long long)e.execs, e.capped, e.points * 1. / e.execs, ex->tr.accesses, k.c_str())); }
}

// ------------------------------------------------------------------ C06: histories on one thread
namespace hist {
enum { R1, R1S, R2, R2S, RM, PLAIN, RELOLD, RELNEW, REWRITE, TOGGLE, NOPS };
static const char* nm[NOPS] = {"readCached(a)", "readCached(a,sort)", "readCached(b)", "readCached(b,sort)", "readCached(missing)", "read(a)", "release the oldest", "release the newest", "rewrite a", "make or remove b"};
static string desc(const vector<int>& v) { string s; for (int x : v) s += string(nm[x]) + "; "; return s; }
struct Handle { ParticlesData* p; int file; };          // file -1: not cached
struct File_ { bool exists; int version; ParticlesData* obj = nullptr; int count = 0; int loaded = 0; bool sorted = false; };
static string expectOf[8], queryOf[8]; static string bytesOf[8];
static void init() {
    for (int v = 0; v < 8; v++) {
        Set m = points(2 + v, v); BgeoOpt o; bytesOf[v] = encBGEO(m, o).bytes;
        // brute force answers
        float c[3] = {4.2f, 5.1f, 3.3f}; vector<std::pair<double, int>> d; string a, b; vector<int> near;
        for (int i = 0; i < m.n; i++) { double t = 0; bool in = true; for (int k = 0; k < 3; k++) { float x = bitsf(m.attrs[0].rows[i][k].v); t += (x - c[k]) * (x - c[k]); in = in && x >= 2 && x <= 8; } if (t < 2500) d.push_back({t, i}); if (in) b += std::to_string(i) + ","; }
        std::sort(d.begin(), d.end()); for (size_t i = 0; i < d.size() && i < 3; i++) near.push_back(d[i].second); std::sort(near.begin(), near.end()); for (int i : near) a += std::to_string(i) + ",";
        queryOf[v] = a + "/" + b;
        ParticlesDataMutable* p = build(m); expectOf[v] = digest(p); p->release();
    }
}
static void run(const vector<int>& v, Ctx& c) {
    rt::quarantine(true);
    string fn[3] = {c.path("a.bgeo"), c.path("b.bgeo"), c.path("missing.bgeo")};
    File_ f[3]; f[0].exists = true; f[0].version = 0; f[1].exists = true; f[1].version = 7; f[2].exists = false; f[2].version = 0;
    mc::writeFile(fn[0], bytesOf[0]); mc::writeFile(fn[1], bytesOf[7]); unlink(fn[2].c_str());
    vector<Handle> h; std::ostringstream err;
    auto check = [&](const char* when) {
        for (auto& x : h) if (x.file >= 0) {
            if (rt::isFreed(x.p)) return c.fail("after '%s': %s was freed while it is held", when, x.file ? "b" : "a");
            if (digest(x.p) != expectOf[f[x.file].loaded]) return c.fail("after '%s': the contents of held %s changed", when, x.file ? "b" : "a");
            if (f[x.file].sorted && query(x.p) != queryOf[f[x.file].loaded]) return c.fail("after '%s': spatial queries on %s, read sorted, give %s, expected %s", when, x.file ? "b" : "a", query(x.p).c_str(), queryOf[f[x.file].loaded].c_str());
        }
    };
    auto drop = [&](size_t i, const char* when) {
        Handle x = h[i]; h.erase(h.begin() + i); x.p->release();
        if (x.file < 0) { if (!rt::isFreed(x.p)) c.fail("an uncached set is not freed by its release"); return; }
        File_& q = f[x.file];
        if (--q.count == 0) { if (!rt::isFreed(x.p)) return c.fail("'%s' releases the last holder but does not free the set", when); q.obj = nullptr; q.sorted = false; }
        else if (rt::isFreed(x.p)) return c.fail("'%s' frees a set that %d holders still hold", when, q.count);
    };
    uint64_t st = 1; bool full = true;
    for (size_t i = 0; i < v.size() && !c.failed(); i++) {
        int op = v[i]; const char* w = nm[op]; c.transitions();
        if (op <= RM) {
            int k = op == R1 || op == R1S ? 0 : op == RM ? 2 : 1; bool sort = op == R1S || op == R2S;
            ParticlesData* p = readCached(fn[k].c_str(), sort, false, err);
            File_& q = f[k];
            if (q.count) { if (p != q.obj) return c.fail("'%s' while %d hold it gives %s object", w, q.count, p ? "another" : "no"); }
            else {
                if (!q.exists) { if (p) return c.fail("'%s' gives an object for a file that cannot be read", w); continue; }
                if (!p) return c.fail("'%s' gives no object for a readable file", w);
                q.obj = p; q.loaded = q.version; q.sorted = false;
            }
            q.count++; if (sort) q.sorted = true; h.push_back({p, k});
        } else if (op == PLAIN) {
            ParticlesDataMutable* p = read(fn[0].c_str(), false, err);
            if (!p) return c.fail("a plain read of a fails");
            if (p == f[0].obj) return c.fail("a plain read gives the cached object");
            if (digest(p) != expectOf[f[0].version]) return c.fail("a plain read gives other contents than the file has");
            h.push_back({p, -1});
        } else if (op == RELOLD || op == RELNEW) { if (h.empty()) { full = false; break; } if (op == RELNEW && h.size() == 1) { full = false; break; } drop(op == RELOLD ? 0 : h.size() - 1, w); }
        else if (op == REWRITE) { f[0].version = (f[0].version + 1) % 7; mc::writeFile(fn[0], bytesOf[f[0].version]); }
        else { f[1].exists = !f[1].exists; if (f[1].exists) mc::writeFile(fn[1], bytesOf[7]); else unlink(fn[1].c_str()); }
        check(w);
        int k[8] = {f[0].count, f[1].count, f[0].sorted, f[1].sorted, f[0].loaded, f[0].version, f[1].exists, (int)h.size()}; st = mc::hash64(k, sizeof k); c.state(st);
    }
    while (!h.empty() && !c.failed()) { drop(h.size() - 1, "release at the end"); if (!c.failed()) check("release at the end"); }
    if (full) c.trace();
    if (c.failed()) while (!h.empty()) { h.pop_back(); }
    rt::quarantine(false);
}
// ---- several files: only identity, contents and lifetime
namespace many {
static int NFL() { return 5; }
static vector<vector<int>> seqs;   // op < 5: cached read of file op; otherwise release of a handle on file op-5
static void gen(vector<int>& v, int held[5], int depth) {
    seqs.push_back(v); if (!depth) return;
    for (int k = 0; k < NFL(); k++) { held[k]++; v.push_back(k); gen(v, held, depth - 1); v.pop_back(); held[k]--; }
    for (int k = 0; k < NFL(); k++) if (held[k]) { held[k]--; v.push_back(5 + k); gen(v, held, depth - 1); v.pop_back(); held[k]++; }
}
static void init(int depth) { vector<int> v; int h[5] = {0, 0, 0, 0, 0}; gen(v, h, depth); }
static string desc(const vector<int>& v) { string s; for (int x : v) s += mc::fmt("%s(%d.bgeo); ", x < 5 ? "readCached" : "release", x % 5); return s; }
static void run(const vector<int>& v, Ctx& c, const string* bytes, const string* expect) {
    rt::quarantine(true);
    static string dir; string fn[5];
    for (int k = 0; k < 5; k++) { fn[k] = c.path(mc::fmt("many%d.bgeo", k).c_str()); if (dir != c.dir) mc::writeFile(fn[k], bytes[k]); }
    dir = c.dir;
    ParticlesData* obj[5] = {0, 0, 0, 0, 0}; int cnt[5] = {0, 0, 0, 0, 0}; std::ostringstream err;
    auto step = [&](int x) {
        int k = x % 5;
        if (x < 5) {
            ParticlesData* p = readCached(fn[k].c_str(), false, false, err);
            if (!p) return c.fail("the cached read of %d gives nothing", k);
            if (cnt[k] && p != obj[k]) return c.fail("the cached read of %d gives another object while %d hold it", k, cnt[k]);
            for (int j = 0; j < 5; j++) if (j != k && cnt[j] && obj[j] == p) return c.fail("the cached read of %d gives the set of %d", k, j);
            obj[k] = p; cnt[k]++;
        } else {
            obj[k]->release(); cnt[k]--;
            if (!cnt[k]) { if (!rt::isFreed(obj[k])) c.fail("the last release of %d does not free it", k); obj[k] = nullptr; }
        }
        for (int j = 0; j < 5; j++) if (cnt[j]) {
            if (rt::isFreed(obj[j])) return c.fail("the set of %d is freed while %d hold it", j, cnt[j]);
            if (digest(obj[j]) != expect[j]) return c.fail("the contents of %d change while it is held", j);
        }
    };
    for (int x : v) { c.transitions(); step(x); if (c.failed()) break; c.state(mc::hash64(cnt, sizeof cnt, 77)); }
    for (int k = 4; k >= 0; k--) while (!c.failed() && cnt[k]) step(5 + k);
    c.trace(); rt::quarantine(false);
}
}  // namespace many
// ---- names which resemble each other, of every format; many holders; many files
static vector<string> names() { return {"a.bgeo", "A.bgeo", "aa.bgeo", "a.bgeo.gz", "a.b.bgeo", "d/a.bgeo", "e/a.bgeo", "d/e/a.bgeo", "a b.bgeo", "\xc3\xa9.bgeo", "./a.bgeo", string(200, 'n') + "1.bgeo", string(200, 'n') + "2.bgeo", "a.geo", "a.bhclassic", "a.itbl"}; }
static void pair(uint64_t i, Ctx& c) {
    rt::quarantine(true);
    static vector<string> N = names(); Mixed x(i); int k[2] = {(int)x(N.size()), (int)x(N.size())}; bool sort[2] = {x(2) == 1, x(2) == 1}; int order = x(2);
    if (k[0] == k[1]) { rt::quarantine(false); return; }
    mkdir(c.path("d").c_str(), 0755); mkdir(c.path("e").c_str(), 0755); mkdir(c.path("d/e").c_str(), 0755);
    string fn[2]; std::ostringstream err; ParticlesData* p[2];
    bool one = (N[k[0]] == "./a.bgeo" && N[k[1]] == "a.bgeo") || (N[k[1]] == "./a.bgeo" && N[k[0]] == "a.bgeo");   // the same file: one object or two
    auto put = [&](int j, int v) { Set m = points(2 + v, v); fn[j] = c.path(N[k[j]].c_str()); string b = N[k[j]].find(".geo") != string::npos ? encGEO(m).bytes : bytesOf[v]; if (N[k[j]].find(".gz") != string::npos) b = gz(b); mc::writeFile(fn[j], b); };
    put(1, one ? 1 : 2); put(0, 1);
    for (int j = 0; j < 2; j++) { p[j] = readCached(fn[j].c_str(), sort[j], false, err); if (!p[j]) c.fail("the cached read of %s gives nothing", N[k[j]].c_str()); }
    if (!c.failed() && p[0] == p[1] && !one) c.fail("%s and %s share an object", N[k[0]].c_str(), N[k[1]].c_str());
    auto ok = [&](int j) { if (rt::isFreed(p[j])) c.fail("%s is freed while it is held", N[k[j]].c_str()); else if (digest(p[j]) != expectOf[j && !one ? 2 : 1]) c.fail("%s has the contents of another file", N[k[j]].c_str()); };
    for (int j = 0; j < 2 && !c.failed(); j++) { ok(j); ParticlesData* q = readCached(fn[j].c_str(), false, false, err); if (q != p[j]) c.fail("another cached read of %s gives another object", N[k[j]].c_str()); else q->release(); if (!c.failed()) ok(j); }
    for (int z = 0; z < 2 && !c.failed(); z++) { int j = z ^ order; p[j]->release(); bool held = z == 0 && p[0] == p[1]; if (rt::isFreed(p[j]) == held) c.fail("the release of %s %s it", N[k[j]].c_str(), held ? "frees" : "does not free"); if (z == 0 && !c.failed()) ok(!j); }
    for (int j = 0; j < 2; j++) unlink(fn[j].c_str());
    c.state(i + 1); c.trace(); c.transitions(6); rt::quarantine(false);
}
static const int HOLD[] = {10, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 100000}; static const int FILES[] = {10, 63, 64, 65, 100, 255, 256, 257, 1000};
static const int NHOLD = sizeof HOLD / sizeof HOLD[0], NFILES = sizeof FILES / sizeof FILES[0];
static void scale(uint64_t i, Ctx& c) {
    rt::quarantine(true); std::ostringstream err; string fn = c.path("h.bgeo");
    if (i < (uint64_t)NHOLD) {
        mc::writeFile(fn, bytesOf[3]); int n = HOLD[i]; ParticlesData* p = readCached(fn.c_str(), false, false, err); if (!p) c.fail("the cached read gives nothing");
        for (int k = 1; k < n && !c.failed(); k++) if (readCached(fn.c_str(), false, false, err) != p) c.fail("holder %d gets another object", k + 1);
        for (int k = 1; k < n && !c.failed(); k++) { p->release(); if (rt::isFreed(p)) c.fail("freed while %d of %d still hold it", n - k, n); }
        if (!c.failed() && digest(p) != expectOf[3]) c.fail("the contents change with %d holders", n);
        if (!c.failed()) { p->release(); if (!rt::isFreed(p)) c.fail("the last of %d releases does not free it", n); }
        c.transitions(2 * n); unlink(fn.c_str());
    } else {
        int n = FILES[i - NHOLD]; vector<ParticlesData*> p;
        auto name = [&](int k) { return c.path(mc::fmt("s%d.bgeo", k).c_str()); };
        for (int k = 0; k < n; k++) mc::writeFile(name(k), bytesOf[k % 8]);
        for (int k = 0; k < n && !c.failed(); k++) { p.push_back(readCached(name(k).c_str(), false, false, err)); if (!p[k]) c.fail("the cached read of file %d gives nothing", k); }
        for (int k = 0; k < n && !c.failed(); k++) if (readCached(name(k).c_str(), false, false, err) != p[k] || digest(p[k]) != expectOf[k % 8]) c.fail("with %d files held, file %d gives another object or other contents", n, k);
        for (int pass = 0; pass < 2; pass++) for (int k = 0; k < n && !c.failed(); k++) { int j = pass ? n - 1 - k : k; p[j]->release(); if (rt::isFreed(p[j]) != (pass == 1)) c.fail("with %d files held, release %d of file %d %s it", n, pass + 1, j, pass ? "does not free" : "frees"); }
        for (int k = 0; k < n; k++) unlink(name(k).c_str()); c.transitions(4 * n);
    }
    c.state(i + 1); c.trace(); rt::quarantine(false);
}
}  // namespace hist

int main(int argc, char** argv) {
    bool c06 = prop() == "C06"; Check chk; chk.property = prop(); chk.caseTimeout = thorough() ? 20000 : 400;
    int np = (int)ops().size();
    vector<int> cached; for (int i = 0; i < np; i++) if (isCached(ops()[i].name)) cached.push_back(i);
    int B = c06 ? (thorough() ? 4 : 3) : (thorough() ? 3 : 2);
    if (c06) {
        chk.rule = "one case is one history of cached reads, plain reads, releases and changes of the files (each step checks identity, contents, spatial queries and whether the object was freed), or one program of two or three threads of which every schedule within the bound is executed; distinct states are model states of the cache and distinct schedules";
        for (size_t i = 0; i < cached.size(); i++) for (size_t j = i; j < cached.size(); j++) scens.push_back({{{cached[i]}, {cached[j]}}, B});
        // sequences of two by two threads, and three threads, on the same file
        vector<int> k = {opNamed("cached"), opNamed("cached sorted"), opNamed("cached twice"), opNamed("cached missing")};
        for (int a : k) for (int b : k) for (int x : k) for (int y : k) if (a * 100 + b <= x * 100 + y) scens.push_back({{{a, b}, {x, y}}, B - 1});
        for (int a : k) for (int b : k) for (int x : k) if (a <= b && b <= x) scens.push_back({{{a}, {b}, {x}}, B - 1});
        if (thorough()) for (int a : k) for (int b : k) for (int x : k) if (b <= x) scens.push_back({{{a, k[0]}, {b}, {x}}, B - 2});
    } else {
        chk.rule = "one case is one program of two or three threads, each performing one or two library calls in a process that has not used the library before; every schedule within the bound is executed on the real code, its memory accesses checked for races, and the results of every call compared with those of the same call alone; distinct states are distinct schedules";
        for (int i = 0; i < np; i++) for (int j = i; j < np; j++) scens.push_back({{{i}, {j}}, B});
        // the same with a library that is already in use, and three threads
        vector<string> few = {"read bgeo", "read pda", "read prt", "headers ptc", "write geo", "build and use", "cached sorted", "read bad extension", "query shared", "read mc"};
        if (!thorough()) few = {"read bgeo", "read pda", "headers ptc", "write geo", "cached sorted", "read bad extension"};
        for (auto& a : few) for (auto& b : few) for (auto& x : few) scens.push_back({{{opNamed(a), opNamed(b)}, {opNamed(x)}}, 2});
        for (size_t i = 0; i < few.size(); i++) for (size_t j = i; j < few.size(); j++) for (size_t k = j; k < few.size(); k++) scens.push_back({{{opNamed(few[i])}, {opNamed(few[j])}, {opNamed(few[k])}}, thorough() ? 2 : 1});
    }
    chk.workerInit = [] { };
    auto start = [](Ctx& c) {
        if (D == c.dir) return;
        D = c.dir; ex = (Exec*)mmap(nullptr, sizeof(Exec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        prepare();
        // replay determinism: the same schedule twice gives the same decisions
    };
    if (c06) {
        int depth = thorough() ? 7 : 5;
        hist::init();
        chk.spaces.push_back({"histories", seqCount(hist::NOPS, depth), [](uint64_t i, Ctx& c) { hist::run(seqDecode(i, hist::NOPS), c); }, [](uint64_t i) { return hist::desc(seqDecode(i, hist::NOPS)); }});
    }
    if (c06) {
        hist::many::init(thorough() ? 8 : 6); auto& sq = hist::many::seqs;
        chk.spaces.push_back({"several files", sq.size(), [](uint64_t i, Ctx& c) { hist::many::run(hist::many::seqs[i], c, hist::bytesOf, hist::expectOf); }, [](uint64_t i) { return hist::many::desc(hist::many::seqs[i]); }});
    }
    if (c06) {
        uint64_t nn = hist::names().size();
        chk.spaces.push_back({"names", nn * nn * 8, [](uint64_t i, Ctx& c) { hist::pair(i, c); }, [](uint64_t i) { Mixed x(i); auto N = hist::names(); int a = x(N.size()), b = x(N.size()); return N[a] + " and " + N[b]; }});
        chk.spaces.push_back({"scale", (uint64_t)(hist::NHOLD + hist::NFILES), [](uint64_t i, Ctx& c) { hist::scale(i, c); }, [](uint64_t i) { return (int)i < hist::NHOLD ? mc::fmt("%d holders", hist::HOLD[i]) : mc::fmt("%d files", hist::FILES[i - hist::NHOLD]); }});
    }
    chk.spaces.push_back({"schedules", scens.size(), [start](uint64_t i, Ctx& c) { start(c); runScen(scens[i], c); }, [](uint64_t i) { return scenStr(scens[i]); }});
    chk.counterNames = {{"executions_under_scheduler", 0}, {"programs_capped", 1}, {"unrepeatable_failures", 2}, {"scheduling_points", 3}};
    chk.assumptions = {"scheduling points are lock operations, guards of function-local statics, call_once, atomic operations, file operations and library functions with hidden state; a data race is reported as such, so orders of other accesses need not be enumerated",
                       "memory accesses made inside the C++ library and zlib binaries are not seen, except those of the templates instantiated in partio and of the functions the runtime intercepts",
                       "relaxed memory effects beyond data races are not modelled"};
    chk.chunk = 1;
    return mc::drive(chk, argc, argv);
}
