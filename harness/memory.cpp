// C24 results do not depend on memory contents, C25 nothing is left behind, C26 errors of the system.
#include <climits>
#include <memory>
#include "damage.h"
#include "memrt.h"
#include <io/ZIP.h>
using namespace memrt;
#include <iomanip>

static uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 0x100000001b3ull + (h >> 29); }
static uint64_t mixs(uint64_t h, const string& s) { return mc::hash64(s, mix(h, s.size())); }
static uint64_t schemaHash(const ParticlesInfo& p, bool fixed) {
    uint64_t h = mix(p.numParticles(), p.numAttributes());
    for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; if (!p.attributeInfo(i, a)) { h = mix(h, 99); continue; } h = mixs(mix(mix(h, a.type), a.count), a.name); }
    if (fixed) for (int i = 0; i < p.numFixedAttributes(); i++) { FixedAttribute a; if (!p.fixedAttributeInfo(i, a)) { h = mix(h, 99); continue; } h = mixs(mix(mix(h, a.type), a.count), a.name); }
    return h;
}
// everything one run of something shows
struct Outcome { uint64_t h = 0; string say; bool reformatted = false, failed = false; bool operator==(const Outcome& o) const { return h == o.h && say == o.say; } };
typedef std::function<void(Outcome&)> Act;

static const int PAINT[] = {0x00, 0xff, 0x3f};
static int paints() { return thorough() ? 3 : 2; }
struct Painted { Painted(int b) { memrt::paint(b); } ~Painted() { memrt::paint(-1); } };

static void same(const Act& act, Ctx& c, const char* what) {
    Outcome first;
    for (int k = 0; k < paints(); k++) {
        Outcome o; { Painted g(PAINT[k]); act(o); }
        if (!k) { first = o; continue; }
        if (!(first == o)) return c.fail("%s: the result depends on what memory held before%s%s", what, first.say == o.say ? "" : ": ", first.say == o.say ? "" : (first.say.substr(0, 150) + " / " + o.say.substr(0, 150)).c_str());
    }
    c.trace(paints()); c.transitions(paints()); c.state(first.h);
}

// ---- what a process has open, and other state a call must not change
static int openFds() { int n = 0; for (int f = 0; f < 40; f++) n += fcntl(f, F_GETFD) >= 0; return n; }
struct World {
    int fds; string loc, cloc; std::ios::fmtflags f[3]; std::ios::iostate st[3]; std::streamsize prec[3]; char fill[3]; int entries = -1;
    std::ostream* s[3] = {&std::cout, &std::cerr, &std::clog};
    World() { fds = openFds(); loc = std::locale().name(); cloc = setlocale(LC_ALL, nullptr); for (int i = 0; i < 3; i++) { f[i] = s[i]->flags(); st[i] = s[i]->rdstate(); prec[i] = s[i]->precision(); fill[i] = s[i]->fill(); } }
};
static string listing(const string& d) { std::set<string> v; if (DIR* dp = opendir(d.c_str())) { while (dirent* e = readdir(dp)) v.insert(e->d_name); closedir(dp); } string o; for (auto& s : v) o += s + " "; return o; }
static void nothingLeft(const Act& act, Ctx& c, const char* what) {
    bool odd = false; { Outcome o; act(o); c.state(o.h); }  // what is set up once and kept
    long b0, n0; World w;
    for (int k = 0; k < 3; k++) {
        { Outcome warm; }
        b0 = memrt::liveBytes; n0 = memrt::liveBlocks;
        { Outcome o; act(o); if (k == 2) c.state(o.h); odd |= o.reformatted; }
        if (memrt::liveBytes == b0 && memrt::liveBlocks == n0) break;
        if (k == 2) return c.fail("%s: %ld blocks, %ld bytes of memory are not given back", what, memrt::liveBlocks - n0, memrt::liveBytes - b0);
    }
    World v;
    if (w.fds != v.fds) return c.fail("%s: %d files stay open", what, v.fds - w.fds);
    if (w.loc != v.loc || w.cloc != v.cloc) return c.fail("%s: the process's locale is changed", what);
    for (int i = 0; i < 3; i++) if (w.f[i] != v.f[i] || w.st[i] != v.st[i] || w.prec[i] != v.prec[i] || w.fill[i] != v.fill[i]) return c.fail("%s: the formatting or state of a standard stream is changed", what);
    if (odd) return c.fail("%s: the formatting of the error stream is changed", what);
    c.trace(2); c.transitions(2);
}

// the error stream as the caller set it up
struct Err { std::ostringstream e; std::ios::fmtflags f; Err() { e << std::hex << std::setfill('*'); e.precision(3); f = e.flags(); }
    void done(Outcome& o) { o.say += e.str(); if (e.flags() != f || e.precision() != 3 || e.fill() != '*') o.reformatted = true; } };

static void readOutcome(const string& path, Outcome& o) {
    Ctx s; Err e; ParticlesDataMutable* p = Partio::read(path.c_str(), true, e.e); o.h = mix(o.h, p != nullptr);
    if (p) { o.h = mix(mix(o.h, schemaHash(*p, true)), useAll(*p, s)); p->release(); }
    e.done(o);
}
static void headOutcome(const string& path, Outcome& o) {
    Err e; ParticlesInfo* p = Partio::readHeaders(path.c_str(), true, e.e); o.h = mix(o.h, p != nullptr);
    if (p) { o.h = mix(o.h, schemaHash(*p, false)); p->release(); }
    e.done(o);
}
static void cachedOutcome(const string& path, bool sort, Outcome& o) {
    Err e; ParticlesData* p = Partio::readCached(path.c_str(), sort, true, e.e); o.h = mix(o.h, p != nullptr);
    if (p) { ParticlesData* q = Partio::readCached(path.c_str(), sort, true, e.e); o.h = mix(o.h, schemaHash(*p, true)); if (q) q->release(); p->release(); }
    e.done(o);
}

static void judge24(const string& ext, const string& bytes, bool z, Ctx& c, const File*) {
    string p = c.path(("d." + ext + (z ? ".gz" : "")).c_str()); mc::writeFile(p, bytes);
    same([&](Outcome& o) { readOutcome(p, o); }, c, "reading"); if (c.failed()) return;
    same([&](Outcome& o) { headOutcome(p, o); }, c, "reading the headers");
}
static void judge25(const string& ext, const string& bytes, bool z, Ctx& c, const File*) {
    static string lastDir, lastList; string p = c.path(("d." + ext + (z ? ".gz" : "")).c_str()); mc::writeFile(p, bytes);
    string before = listing(c.dir);
    nothingLeft([&](Outcome& o) { readOutcome(p, o); }, c, "reading"); if (c.failed()) return;
    nothingLeft([&](Outcome& o) { headOutcome(p, o); }, c, "reading the headers"); if (c.failed()) return;
    nothingLeft([&](Outcome& o) { cachedOutcome(p, false, o); }, c, "a cached read"); if (c.failed()) return;
    if (mc::readFile(p) != bytes) return c.fail("reading changes the file");
    if (listing(c.dir) != before) return c.fail("reading creates or removes a file: %s instead of %s", listing(c.dir).c_str(), before.c_str());
}

// ---- sequences of operations on one set; every value that exists has been written
static const char* OPN[] = {"float", "position", "id", "string", "int2", "fixed", "fixedString", "particle", "particles", "strings", "reassign", "sort", "query", "clone", "schema", "merge", "cluster", "iterate", "file", "cached"};
static const int NOP = 20;
static void writeAll(ParticlesDataMutable& p) {
    for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; p.attributeInfo(i, a);
        if (a.type == INDEXEDSTR) { p.registerIndexedStr(a, "x"); p.registerIndexedStr(a, "yy"); }
        for (int j = 0; j < p.numParticles(); j++) { u32* d = (u32*)p.dataWrite<char>(a, j); for (int k = 0; k < a.count; k++) d[k] = a.type == INDEXEDSTR ? (u32)(j & 1) : a.type == INT ? (u32)(j * 3 + k + i) : fbits((float)((j * 7 + k * 3) % 5) + .25f * j); } }
    for (int i = 0; i < p.numFixedAttributes(); i++) { FixedAttribute a; p.fixedAttributeInfo(i, a);
        if (a.type == INDEXEDSTR) p.registerFixedIndexedStr(a, "fx");
        u32* d = (u32*)p.fixedDataWrite<char>(a); for (int k = 0; k < a.count; k++) d[k] = a.type == FLOAT ? fbits(k + .5f) : a.type == INDEXEDSTR ? 0 : k; }
}
static uint64_t dump(ParticlesData& p) {
    uint64_t h = schemaHash(p, true);
    for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; p.attributeInfo(i, a); for (int j = 0; j < p.numParticles(); j++) h = sumBytes(p.data<char>(a, j), 4 * a.count, h); if (a.type == INDEXEDSTR) for (auto& s : p.indexedStrs(a)) h = mixs(h, s); }
    for (int i = 0; i < p.numFixedAttributes(); i++) { FixedAttribute a; p.fixedAttributeInfo(i, a); h = sumBytes(p.fixedData<char>(a), 4 * a.count, h); if (a.type == INDEXEDSTR) for (auto& s : p.fixedIndexedStrs(a)) h = mixs(h, s); }
    return h;
}
static void operate(const vector<int>& ops, int layout, const string& dir, Outcome& o) {
    ParticlesDataMutable* p = layout ? createInterleave() : create(); int serial = 0; bool sorted = false;
    for (int op : ops) {
        ParticleAttribute pos; bool hasPos = p->attributeInfo("position", pos) && pos.type == VECTOR;
        switch (op) {
            case 0: p->addAttribute(mc::fmt("f%d", serial++).c_str(), FLOAT, 1 + serial % 3); break;
            case 1: p->addAttribute("position", VECTOR, 3); break;
            case 2: p->addAttribute("id", INT, 1); break;
            case 3: p->addAttribute(mc::fmt("s%d", serial++).c_str(), INDEXEDSTR, 1); break;
            case 4: p->addAttribute("int2", INT, 2); break;
            case 5: p->addFixedAttribute(mc::fmt("g%d", serial++).c_str(), FLOAT, 2); break;
            case 6: p->addFixedAttribute("gs", INDEXEDSTR, 1); break;
            case 7: p->addParticle(); break;
            case 8: p->addParticles(9); break;
            case 9: for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); if (a.type == INDEXEDSTR) { for (int k = 0; k < 5; k++) p->registerIndexedStr(a, string(k * 9, 'q').c_str()); o.h = mix(o.h, p->lookupIndexedStr(a, "qqqqqqqqq")); } } break;
            case 10: for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); if (a.type == INDEXEDSTR && p->indexedStrs(a).size()) p->setIndexedStr(a, 0, "a considerably longer string than before"); } break;
            case 11: if (hasPos) { writeAll(*p); p->sort(); sorted = true; } break;
            case 12: if (hasPos) { if (!sorted) break; float lo[3] = {0, 0, 0}, hi[3] = {3, 3, 3}; vector<ParticleIndex> v; p->findPoints(lo, hi, v); for (auto x : v) o.h = mix(o.h, x); vector<float> d; v.clear(); float r = p->findNPoints(lo, 3, 4.f, v, d); o.h = mix(mix(o.h, fbits(r)), v.size());
                ParticleIndex pi[4]; float pd[4], fr = 0; int q = p->findNPoints(hi, 4, 5.f, pi, pd, &fr); o.h = mix(mix(o.h, q), fbits(fr)); } break;
            case 13: { ParticlesDataMutable* n = clone(*p, true); p->release(); p = n; sorted = false; } break;
            case 14: { std::map<string, string> m; m["id"] = "renamed"; ParticlesDataMutable* n = cloneSchema(*p, &m); p->release(); p = n; sorted = false; } break;
            case 15: { ParticlesDataMutable* n = clone(*p, true); merge(*p, *n, "id", ""); n->release(); } break;
            case 16: if (hasPos && p->numParticles() < 40) { ParticleAttribute id; if (p->attributeInfo("id", id)) { writeAll(*p); ParticlesDataMutable* n = computeClustering(p, 3, 2., 1., 2, 3.); if (n) { o.h = mix(o.h, dump(*n)); n->release(); } sorted = true; } } break;
            case 17: { vector<ParticleAccessor> acc; for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); acc.push_back(ParticleAccessor(a)); } auto it = p->begin(); for (auto& a : acc) it.addAccessor(a); auto copy = it; for (; it != p->end(); ++it) o.h = mix(o.h, 1); copy = it; } break;
            case 18: { writeAll(*p); string f = dir + "/o.bgeo"; std::ostringstream e; Partio::write(f.c_str(), *p, serial & 1, true, e); ParticlesDataMutable* n = Partio::read(f.c_str(), true, e); if (n) { p->release(); p = n; sorted = false; } o.say += e.str(); } break;
            case 19: { writeAll(*p); string f = dir + "/c.bgeo"; std::ostringstream e; Partio::write(f.c_str(), *p, false, true, e); ParticlesData *a = Partio::readCached(f.c_str(), false, true, e), *b = Partio::readCached(f.c_str(), hasPos && p->numParticles() > 0, true, e); if (a) { beginCachedAccess(a); o.h = mix(o.h, dump(*a)); endCachedAccess(a); a->release(); } if (b) b->release(); o.say += e.str(); } break;
        }
        if (op <= 8) sorted = false;
        writeAll(*p);
    }
    o.h = mix(o.h, dump(*p)); p->release();
}

static vector<string> WF() { return {"bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "ptc", "pdc", "prt", "bin", "rib"}; }
static string fileOf(const Set& m, int layout, const string& path, bool z, Outcome* o = nullptr) {
    ParticlesDataMutable* p = layout ? createInterleave() : create(); build(m, p); unlink(path.c_str()); Err e; Partio::write(path.c_str(), *p, z, true, e.e); p->release(); if (o) e.done(*o); return mc::readFile(path);
}
static void operations(Check& k, void (*how)(const Act&, Ctx&, const char*), int depth) {
    uint64_t q = seqCount(NOP, depth);
    k.spaces.push_back({"operations", q * 2, [=](uint64_t i, Ctx& c) { vector<int> ops = seqDecode(i / 2, NOP); how([&](Outcome& o) { operate(ops, i & 1, c.dir, o); }, c, "a sequence of operations"); },
        [](uint64_t i) { string s = i & 1 ? "interleaved" : "standard"; for (int x : seqDecode(i / 2, NOP)) s += string(" ") + OPN[x]; return s; }});
}
static void writing(Check& k, void (*how)(const Act&, Ctx&, const char*), int depth) {
    static vector<string> W = WF(); static const int N[] = {0, 1, 3, 300}; uint64_t q = seqCount(NKIND, depth);
    auto dec = [=](uint64_t i, string& f, int& layout, bool& z) { Mixed x(i); f = W[x(W.size())]; layout = x(2); z = x(2) && gzAble(f); int n = N[x(4)]; bool pos = x(2), fixed = x(2); vector<int> ks = kindsOf(x(q), allKinds()); if (pos) ks.insert(ks.begin(), 0); if (!distinct(ks)) { std::set<int> s; vector<int> r; for (int y : ks) if (s.insert(y).second) r.push_back(y); ks = r; } Set m = mk(ks, n, 3); if (fixed) { m.addFixed("ff", FLOAT, 2); m.addFixed("fs", INDEXEDSTR, 1); fill(m, 3); } return m; };
    k.spaces.push_back({"writing", W.size() * 2 * 2 * 4 * 2 * 2 * q, [=](uint64_t i, Ctx& c) { string f; int l; bool z; Set m = dec(i, f, l, z); string p = c.path(("w." + f).c_str()); unlink(p.c_str()); string before = listing(c.dir); how([&](Outcome& o) { o.h = mixs(o.h, fileOf(m, l, p, z, &o)); }, c, ("writing " + f).c_str()); unlink(p.c_str()); if (listing(c.dir) != before) c.fail("writing leaves other files: %s", listing(c.dir).c_str()); },
        [=](uint64_t i) { string f; int l; bool z; Set m = dec(i, f, l, z); return f + (z ? " compressed" : "") + (l ? " interleaved " : " standard ") + m.str(); }});
}

static void damagedArchives(Check& k, void (*how)(const Act&, Ctx&, const char*)) {
    // archives that are cut or changed
    { static string Z; { string f = "/tmp/mcz" + std::to_string(getpid()) + ".zip"; { ZipFileWriter w(f); for (int m = 0; m < 3; m++) { std::unique_ptr<std::ostream> s(w.Add_File(mc::fmt("m%d", m))); *s << string(m * 40, 'a' + m) << m; } } Z = mc::readFile(f); unlink(f.c_str()); }
      static const int V[] = {0, 1, 0xff, 0x80};
      k.spaces.push_back({"damaged archives", Z.size() * 5, [=](uint64_t i, Ctx& c) { string b = Z; size_t at = i / 5; if (i % 5 == 4) b.resize(at); else b[at] = (char)V[i % 5]; string f = c.path("z.zip"); mc::writeFile(f, b);
        how([&](Outcome& o) { try { ZipFileReader r(f); vector<string> l; r.Get_File_List(l); for (auto& n : l) { std::unique_ptr<std::istream> s(r.Get_File(n)); if (!s) continue; char t[64] = {0}; int lim = 0; while (s->read(t, 64) && lim++ < 1000) o.h = mixs(o.h, n + string(t, s->gcount())); } } catch (std::exception&) { o.h = 5; } }, c, "reading a damaged archive"); }, [](uint64_t i) { return mc::fmt("byte %d change %d", (int)(i / 5), (int)(i % 5)); }}); }
}
static void c24(Check& k) {
    judge = judge24;
    k.rule = "The whole corpus of intact and damaged files of C11, sets over all attribute sequences up to a depth written in every format, and all sequences of operations up to a depth are each executed twice or more with new, freed and stack memory, addresses, the clock and random numbers different each time: values, schemas, files and messages must be the same.";
    operations(k, same, thorough() ? 4 : 3); writing(k, same, thorough() ? 2 : 1);
    k.spaces.push_back({"intact", corpus().size() * 2, [](uint64_t i, Ctx& c) { const File& f = corpus()[i / 2]; if ((i & 1) && !gzAble(f.ext)) return; judge24(f.ext, i & 1 ? gz(f.bytes) : f.bytes, i & 1, c, nullptr); }, [](uint64_t i) { return corpus()[i / 2].note; }});
    damagedArchives(k, same); c11(k);
}

static void c25(Check& k) {
    judge = judge25;
    k.rule = "The whole corpus of intact and damaged files of C11, sets over all attribute sequences up to a depth written in every format, writes to places that cannot be opened, all sequences of operations, of cached reads and releases and of archive operations up to a depth are each executed repeatedly: memory in use, open files, the locale, the formatting of standard streams and the files read must be afterwards as before.";
    int d = thorough() ? 4 : 3; operations(k, nothingLeft, d); writing(k, nothingLeft, thorough() ? 2 : 1);
    k.spaces.push_back({"intact", corpus().size() * 2, [](uint64_t i, Ctx& c) { const File& f = corpus()[i / 2]; if ((i & 1) && !gzAble(f.ext)) return; judge25(f.ext, i & 1 ? gz(f.bytes) : f.bytes, i & 1, c, nullptr); }, [](uint64_t i) { return corpus()[i / 2].note; }});
    // places that cannot be read or written
    static vector<string> W = WF();
    k.spaces.push_back({"refused", exts().size() * 2 * 5, [](uint64_t i, Ctx& c) { Mixed x(i); string e = exts()[x(exts().size())] + (x(2) ? ".gz" : ""); int w = x(5);
        string p = c.path(("r." + e).c_str()); mc::removeTree(p); unlink(p.c_str()); if (w == 1) mkdir(p.c_str(), 0755); if (w == 2) p = c.path(("nodir/r." + e).c_str()); if (w == 3) p = c.path("r.unknown"); if (w == 4) p = c.path("r");
        nothingLeft([&](Outcome& o) { readOutcome(p, o); }, c, "reading what is not there"); if (c.failed()) return; nothingLeft([&](Outcome& o) { headOutcome(p, o); cachedOutcome(p, true, o); }, c, "probing what is not there"); if (c.failed()) return;
        if (w) { ParticlesDataMutable* s = build(mk({0, 14, 3, 4}, 2, 1)); nothingLeft([&](Outcome& o) { std::ostringstream e; Partio::write(p.c_str(), *s, i & 1, true, e); o.say += e.str(); }, c, "writing what cannot be written"); s->release(); } mc::removeTree(c.path(("r." + e).c_str())); }, [](uint64_t i) { return exts()[i % exts().size()] + mc::fmt(" way %d", (int)(i / exts().size() / 2)); }});
    // histories of cached reads; every holder releases in the end
    { static const char* CN[] = {"A", "A sorted", "B", "B sorted", "damaged", "release oldest", "release newest", "rewrite A", "access"}; int cd = thorough() ? 6 : 5; uint64_t q = seqCount(9, cd);
      k.spaces.push_back({"cached histories", q, [](uint64_t i, Ctx& c) { vector<int> ops = seqDecode(i, 9); string A = c.path("A.bgeo"), B = c.path("B.pdb"), D = c.path("D.bgeo");
        static bool made = false; if (!made) { for (auto* f : {&A, &B}) fileOf(mk({0, 1, 3}, 6, 1), 0, *f, false); mc::writeFile(D, mc::readFile(A).substr(0, 60)); made = true; }
        nothingLeft([&](Outcome& o) { vector<ParticlesData*> held; std::ostringstream e;
            for (int op : ops) switch (op) {
                case 0: case 1: case 2: case 3: case 4: { ParticlesData* p = readCached((op < 2 ? A : op < 4 ? B : D).c_str(), op == 1 || op == 3, true, e); if (p) held.push_back(p); o.h = mix(o.h, p != nullptr); } break;
                case 5: if (held.size()) { held.front()->release(); held.erase(held.begin()); } break;
                case 6: if (held.size()) { held.back()->release(); held.pop_back(); } break;
                case 7: fileOf(mk({0, 1, 3}, 6, 1), 0, A, false); break;
                case 8: if (held.size()) { beginCachedAccess(held.back()); o.h = mix(o.h, dump(*held.back())); endCachedAccess(held.back()); } break; }
            for (auto* p : held) p->release(); }, c, "a history of cached reads"); }, [](uint64_t i) { string s; for (int x : seqDecode(i, 9)) s += string(CN[x]) + ", "; return s; }}); }
    // archives
    { int ad = thorough() ? 5 : 4; uint64_t q = seqCount(8, ad); static const char* AN[] = {"add", "add text", "write", "write much", "close member", "open archive", "get", "read some"};
      k.spaces.push_back({"archives", q, [](uint64_t i, Ctx& c) { vector<int> ops = seqDecode(i, 8); string f = c.path("a.zip");
        static bool made = false; if (!made) { ZipFileWriter w(c.path("ready.zip")); for (const char* n : {"one", "two"}) { std::unique_ptr<std::ostream> s(w.Add_File(n)); *s << string(3000, 'r'); } made = true; }
        nothingLeft([&](Outcome& o) { int serial = 0; { ZipFileWriter w(f); std::unique_ptr<std::ostream> s; std::unique_ptr<ZipFileReader> r; std::unique_ptr<std::istream> in; string big(70000, 'z');
            for (int op : ops) switch (op) {
                case 0: case 1: s.reset(); s.reset(w.Add_File(mc::fmt("m%d", serial++), op == 0)); break;
                case 2: if (s) *s << "some text"; break;
                case 3: if (s) s->write(big.data(), big.size()); break;
                case 4: s.reset(); break;
                case 5: in.reset(); r.reset(new ZipFileReader(c.path("ready.zip"))); break;
                case 6: if (r) in.reset(r->Get_File(serial & 1 ? "one" : "none")); break;
                case 7: if (in) { char b[5]; in->read(b, 5); o.h = mix(o.h, in->gcount()); } break; }
            s.reset(); in.reset(); }
            try { ZipFileReader r(f); vector<string> l; r.Get_File_List(l); for (auto& n : l) { std::unique_ptr<std::istream> s(r.Get_File(n)); if (!s) continue; char b[512]; while (s->read(b, 512)) o.h = mix(o.h, b[0]); } } catch (std::exception&) {} }, c, "a history of archive operations"); },
        [](uint64_t i) { string s; for (int x : seqDecode(i, 8)) s += string(AN[x]) + ", "; return s; }}); }
    damagedArchives(k, nothingLeft);
    c11(k);
}


// ---- C26: what the system answers to each single read and write
static const char* FN[] = {"no fault", "an error from call", "one error at call", "one short answer at call", "one interruption at call", "only short answers", "room for bytes:"};
struct Subject { string ext, note, bytes; bool z; };
static const vector<Subject>& subjects() {
    static vector<Subject> v; if (!v.empty()) return v;
    for (auto& f : corpus()) { v.push_back({f.ext, f.note, f.bytes, false}); if (gzAble(f.ext)) v.push_back({f.ext, f.note, gz(f.bytes), true}); }
    string dir = "/tmp/mcs" + std::to_string(getpid()); mkdir(dir.c_str(), 0755);   // larger ones, which take several reads
    for (auto& w : WF()) if (w != "rib") { string s = fileOf(mk({0, 14, 1, 3, 4}, 1500, 5), 0, dir + "/s." + w, false); v.push_back({w, "large " + w, s, false}); if (gzAble(w)) { v.push_back({w, "large " + w, gz(s), true}); GzOpt o; o.level = 0; v.push_back({w, "large stored " + w, gz(s, o), true}); } }
    { TextOpt t; string s = encPTS(7, 1500, 3, t).bytes; v.push_back({"pts", "large pts", s, false}); v.push_back({"pts", "large pts", gz(s), true}); Set m = mk({14, 0, 1}, 800); for (int i = 0; i < 800; i++) m.attrs[0].rows[i][0] = Word(i + 1); s = encMC(m, 3).bytes; v.push_back({"mc", "large mc", s, false}); v.push_back({"mc", "large mc", gz(s), true}); }
    mc::removeTree(dir); return v;
}
static void readWay(int way, const string& p, Outcome& o) { if (way == 0) readOutcome(p, o); else if (way == 1) headOutcome(p, o); else { std::ostringstream e; ParticlesData* q = Partio::readCached(p.c_str(), false, true, e); o.h = mix(o.h, q != nullptr); if (q) { o.h = mix(o.h, dump(*q)); q->release(); } o.say = e.str(); } }
static const char* WN[] = {"reading", "reading the headers of", "a cached read of"};
static void c26(Check& k) {
    k.rule = "Every file of the corpus (plain and compressed, and larger ones that take several system calls) is read completely, as headers and through the cache while the system answers each single read call with an error (once, or from then on), an interruption or a short count; sets over all formats and compressions are written while each single write call is answered like that, and with room for every possible number of bytes. Results are compared with those without a fault, and the same call is made again afterwards.";
    const int MAXC = 40; static const Fault RF[] = {FAIL_FROM, FAIL_ONCE, SHORT_ONCE, INTR_ONCE, SHORT_ALL};
    k.spaces.push_back({"read calls", subjects().size() * 3 * 5 * MAXC, [=](uint64_t i, Ctx& c) {
        Mixed x(i); int at = x(MAXC); Fault f = RF[x(5)]; int way = x(3); const Subject& s = subjects()[x(subjects().size())]; if (f == SHORT_ALL && at) return;
        string p = c.path(("f." + s.ext + (s.z ? ".gz" : "")).c_str()); mc::writeFile(p, s.bytes);
        Outcome good; readWay(way, p, good); World w; long b0;
        Outcome o; memrt::arm(true, f, at); readWay(way, p, o); Io io = memrt::disarm();
        if (f != SHORT_ALL && at >= io.reads) return;
        Outcome none; none.h = mix(0, 0); string what = string(WN[way]) + " " + s.note + (s.z ? " compressed" : "") + ", " + FN[f] + mc::fmt(" %d", at);
        if (!io.failed && !(o == good)) return c.fail("%s: the result differs though no error occurred", what.c_str());
        if (io.failed && o.h != good.h && o.h != none.h) return c.fail("%s: gives a set that is not what the file holds", what.c_str());
        if (io.failed && o.h == none.h && o.say.empty()) return c.fail("%s: fails without saying so", what.c_str());
        Outcome again; readWay(way, p, again); if (!(again == good)) return c.fail("%s: reading again gives another result", what.c_str());
        { Outcome second; memrt::arm(true, f, at); readWay(way, p, second); memrt::disarm(); } b0 = memrt::liveBytes; { Outcome third; memrt::arm(true, f, at); readWay(way, p, third); memrt::disarm(); }
        if (memrt::liveBytes != b0) return c.fail("%s: memory is not given back", what.c_str());
        World v; if (w.fds != v.fds) return c.fail("%s: a file stays open", what.c_str());
        c.trace(5); c.transitions(5); c.state(o.h ^ mc::hash64(what)); },
        [=](uint64_t i) { Mixed x(i); int at = x(MAXC); Fault f = RF[x(5)]; int way = x(3); const Subject& s = subjects()[x(subjects().size())]; return string(WN[way]) + " " + s.note + (s.z ? " compressed" : "") + ", " + FN[f] + mc::fmt(" %d", at); }});
    // writing
    static vector<string> W = WF(); static const int N[] = {0, 2, 700};
    struct Job { string f; bool z; int n; string ok, says; };
    static auto strip = [](string s, const string& p) { for (size_t i; (i = s.find(p)) != string::npos;) s.erase(i, p.size()); return s; };   // messages without the file's name
    static vector<Job> jobs; { string dir = "/tmp/mcj" + std::to_string(getpid()); mkdir(dir.c_str(), 0755); for (auto& w : W) for (int z = 0; z < 2; z++) for (int n : N) { if (z && !gzAble(w) && w != "rib") continue; if (w == "prt" && !n) continue; Outcome o; string t = dir + "/j." + w, b = fileOf(mk({0, 14, 1, 3, 4}, n, 2), 0, t, z, &o); jobs.push_back({w, z != 0, n, b, strip(o.say, t)}); } mc::removeTree(dir); }
    auto write = [](const Job& j, const string& p, bool verbose, string& say) { ParticlesDataMutable* s = build(mk({0, 14, 1, 3, 4}, j.n, 2)); unlink(p.c_str()); std::ostringstream e; Partio::write(p.c_str(), *s, j.z, verbose, e); say = e.str(); s->release(); };
    auto check = [=](const Job& j, Fault f, long at, Ctx& c) {
        string p = c.path(("w." + j.f).c_str()), say, quiet, fine; string what = "writing " + j.f + (j.z ? " compressed" : "") + mc::fmt(" with %d particles, ", j.n) + FN[f] + mc::fmt(" %ld", at);
        World w; Io io; 
        { ParticlesDataMutable* s = build(mk({0, 14, 1, 3, 4}, j.n, 2)); unlink(p.c_str()); std::ostringstream e; memrt::arm(false, f, at); Partio::write(p.c_str(), *s, j.z, true, e); io = memrt::disarm(); say = e.str(); s->release(); }
        if ((f == FAIL_FROM || f == FAIL_ONCE || f == SHORT_ONCE || f == INTR_ONCE) && at >= io.writes) return;
        if (!io.failed) { if (mc::readFile(p) != j.ok) return c.fail("%s: the file differs though no error occurred", what.c_str()); if (strip(say, p) != j.says) return c.fail("%s: says '%s' though no error occurred", what.c_str(), say.substr(0, 100).c_str()); }
        else if (strip(say, p) == j.says) return c.fail("%s: is not reported on the given stream", what.c_str());
        { ParticlesDataMutable* s = build(mk({0, 14, 1, 3, 4}, j.n, 2)); std::ostringstream e; long b0 = memrt::liveBytes; memrt::arm(false, f, at); Partio::write(p.c_str(), *s, j.z, false, e); memrt::disarm(); if (!e.str().empty()) c.fail("%s: says '%s' though not asked to", what.c_str(), e.str().substr(0, 100).c_str()); if (memrt::liveBytes > b0 + 4096) c.fail("%s: memory is not given back", what.c_str()); s->release(); }
        if (c.failed()) return; World v; if (w.fds != v.fds) return c.fail("%s: a file stays open", what.c_str());
        write(j, p, true, fine); if (mc::readFile(p) != j.ok || strip(fine, p) != j.says) return c.fail("%s: writing again without a fault gives another file", what.c_str());
        c.trace(3); c.transitions(3); c.state(mc::hash64(what) ^ io.failed);
    };
    static const Fault WFT[] = {FAIL_FROM, FAIL_ONCE, SHORT_ONCE, INTR_ONCE, SHORT_ALL};
    k.spaces.push_back({"write calls", jobs.size() * 5 * MAXC, [=](uint64_t i, Ctx& c) { Mixed x(i); int at = x(MAXC); Fault f = WFT[x(5)]; if (f == SHORT_ALL && at) return; check(jobs[x(jobs.size())], f, at, c); }, [=](uint64_t i) { Mixed x(i); int at = x(MAXC); Fault f = WFT[x(5)]; auto& j = jobs[x(jobs.size())]; return j.f + (j.z ? " compressed" : "") + mc::fmt(" %d particles ", j.n) + FN[f] + mc::fmt(" %d", at); }});
    static vector<uint64_t> upto; uint64_t total = 0; upto.clear(); int step = thorough() ? 1 : 7;
    for (auto& j : jobs) { total += j.n > 2 ? j.ok.size() / step : j.ok.size(); upto.push_back(total); }
    auto locate = [=](uint64_t i, long& room) { size_t q = std::upper_bound(upto.begin(), upto.end(), i) - upto.begin(); room = (long)(i - (q ? upto[q - 1] : 0)); if (jobs[q].n > 2) room *= step; return q; };
    k.spaces.push_back({"room on the device", total, [=](uint64_t i, Ctx& c) { long r; size_t q = locate(i, r); check(jobs[q], ROOM, r, c); }, [=](uint64_t i) { long r; size_t q = locate(i, r); return jobs[q].f + (jobs[q].z ? " compressed" : "") + mc::fmt(" %d particles, room for %ld of %d bytes", jobs[q].n, r, (int)jobs[q].ok.size()); }});
}


// ---- C27: every single request for memory is refused
// an error stream that needs no memory
struct FixedBuf : std::streambuf { char b[4096]; FixedBuf() { setp(b, b + sizeof b); } bool any() const { return pptr() > pbase(); } };
struct Say { FixedBuf b; std::ostream s; Say() : s(&b) {} };
// o.h: what the caller gets; o.failed: he is told that it failed
struct Starving { string name; uint64_t items; std::function<void(uint64_t, const string&, Outcome&)> act; std::function<string(uint64_t)> show; bool otherExceptions; };
static void refused(Check& k, const Starving& s, long most) {
    // how many requests each item makes; all of them are tried, at most `most` evenly spread ones for the larger items
    auto upto = std::make_shared<vector<uint64_t>>(); auto steps = std::make_shared<vector<long>>(); uint64_t total = 0;
    { string dir = "/tmp/mca" + std::to_string(getpid()); mkdir(dir.c_str(), 0755);
      for (uint64_t j = 0; j < s.items; j++) { { Outcome o; s.act(j, dir, o); } Outcome o; memrt::starve(LONG_MAX, false); s.act(j, dir, o); long n = memrt::feed().asked + 1, st = (n + most - 1) / most; total += 2 * ((n + st - 1) / st); upto->push_back(total); steps->push_back(st); }
      mc::removeTree(dir); }
    auto locate = [=](uint64_t i, long& at, bool& from) { size_t j = std::upper_bound(upto->begin(), upto->end(), i) - upto->begin(); uint64_t r = i - (j ? (*upto)[j - 1] : 0); from = r & 1; at = (long)(r / 2) * (*steps)[j]; return j; };
    k.spaces.push_back({s.name, total, [=](uint64_t i, Ctx& c) {
        long at; bool from; uint64_t j = locate(i, at, from); string what = s.show(j) + mc::fmt(", no memory %s request %ld", from ? "from" : "at", at);
        Outcome good; s.act(j, c.dir, good); World w; Outcome o; bool threw = false; string other;
        try { memrt::starve(at, from); s.act(j, c.dir, o); memrt::feed(); } catch (std::bad_alloc&) { memrt::feed(); threw = true; } catch (std::exception& e) { memrt::feed(); threw = true; other = e.what(); }
        bool hit = memrt::feed().refused > 0;
        if (!threw && !o.failed && o.h != good.h) return c.fail("%s: gives another result", what.c_str());
        if (!hit && (threw || o.failed != good.failed)) return c.fail("%s: fails though no request was refused", what.c_str());
        if (!s.otherExceptions && other.size()) return c.fail("%s: throws '%s'", what.c_str(), other.c_str());
        World v; if (w.fds != v.fds) return c.fail("%s: %d files stay open", what.c_str(), v.fds - w.fds);
        for (int y = 0; y < 3; y++) if (w.st[y] != v.st[y] || w.f[y] != v.f[y]) { for (auto* st : w.s) st->clear(); return c.fail("%s: a standard stream is left unusable or changed", what.c_str()); }
        Outcome again; s.act(j, c.dir, again); if (!(again == good)) return c.fail("%s: the same call gives another result afterwards", what.c_str());
        c.trace(3); c.transitions(3); c.state(mix(mix(o.h, at), mc::hash64(what) ^ threw)); },
        [=](uint64_t i) { long at; bool from; uint64_t j = locate(i, at, from); return s.show(j) + mc::fmt(", no memory %s request %ld", from ? "from" : "at", at); }});
}
// the first calls of a process, which also set up what is kept; run in processes of their own
static const char* FIRST[] = {"read bgeo", "read pts", "headers of prt", "read geo.gz", "cached read of bgeo", "cached sorted read of pdb", "write bgeo", "write pda.gz", "write prt", "an archive", "a set", "an interleaved set", "a sorted set", "clone and merge"}; static const int NFIRST = 14;
static const char* FIRSTFILE[] = {"in.bgeo", "in.pts", "in.prt", "in.geo.gz", "in.bgeo", "in.pdb", "out.bgeo", "out.pda.gz", "out.prt", "out.zip"};
static void firstAct(int w, const string& dir, Outcome& o) {
    Say say; string p; { memrt::Pause q; p = dir + "/" + (w < 10 ? FIRSTFILE[w] : ""); }
    bool plain = w == 8; // a PRT writer would speak of the strings each time
    auto fill = [plain](ParticlesDataMutable* d) { ParticleAttribute a = d->addAttribute("position", VECTOR, 3), s; FixedAttribute f; if (!plain) { s = d->addAttribute("s", INDEXEDSTR, 1); f = d->addFixedAttribute("f", INT, 2); } d->addParticles(2); d->addParticle(); for (int i = 0; i < 9; i++) d->dataWrite<float>(a, i / 3)[i % 3] = (float)i; if (plain) return; for (int i = 0; i < 3; i++) d->dataWrite<int>(s, i)[0] = d->registerIndexedStr(s, i & 1 ? "odd" : "even"); for (int i = 0; i < 2; i++) d->fixedDataWrite<int>(f)[i] = i; };
    if (w < 4) { ParticlesDataMutable* d = nullptr; ParticlesInfo* h = nullptr; if (w == 2) h = Partio::readHeaders(p.c_str(), true, say.s); else d = Partio::read(p.c_str(), true, say.s); o.h = d ? dump(*d) : h ? schemaHash(*h, false) : 0; if (d) d->release(); if (h) h->release(); o.failed = !o.h && say.b.any(); }
    else if (w < 6) { ParticlesData* d = Partio::readCached(p.c_str(), w == 5, true, say.s); o.h = d ? dump(*d) : 0; if (d) d->release(); o.failed = !o.h && say.b.any(); }
    else if (w < 9) { ParticlesDataMutable* d = create(); fill(d); Partio::write(p.c_str(), *d, false, true, say.s); d->release(); memrt::Pause q; o.h = mixs(0, mc::readFile(p)); o.failed = say.b.any(); }
    else if (w == 9) { { ZipFileWriter z(p); std::unique_ptr<std::ostream> s(z.Add_File("m")); *s << "something"; if (!*s) o.failed = true; } ZipFileReader r(p); std::unique_ptr<std::istream> s(r.Get_File("m")); if (!s || !*s) { o.failed = true; return; } char t[20]; s->read(t, 20); o.h = s->gcount(); if (s->bad()) o.failed = true; }
    else { ParticlesDataMutable* d = w == 11 ? createInterleave() : create(); fill(d); if (w == 12) { d->sort(); vector<ParticleIndex> v; float lo[3] = {0, 0, 0}, hi[3] = {9, 9, 9}; d->findPoints(lo, hi, v); o.h = mix(o.h, v.size()); } if (w == 13) { ParticlesDataMutable* n = clone(*d, true); merge(*d, *n, "", ""); n->release(); } o.h = mix(o.h, dump(*d)); d->release(); }
}
static int firstMain(const char* spec) {   // what happened with the refused request, and what the call gives afterwards
    int w, at, from; char dir[256]; if (sscanf(spec, "%d %d %d %255s", &w, &at, &from, dir) != 4) return 3; alarm(20);
    Outcome o, n; int told = 0; string d = dir; if (at >= 0) { try { memrt::starve(at, from); firstAct(w, d, o); memrt::feed(); } catch (std::exception&) { memrt::feed(); told = 2; } if (o.failed) told = 1; }
    long refused = memrt::feed().refused; firstAct(w, d, n); printf("%d %ld %llu %llu %d\n", told, refused, (unsigned long long)o.h, (unsigned long long)n.h, (int)n.failed); return 0;
}
static string firstRun(int w, int at, bool from, const string& dir) {
    static string self; if (self.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); self = string(b, n > 0 ? n : 0); }
    FILE* f = popen(mc::fmt("MC_FIRST='%d %d %d %s' exec '%s' 2>/dev/null", w, at, (int)from, dir.c_str(), self.c_str()).c_str(), "r"); char b[200] = {0}; size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; b[n] = 0; int r = f ? pclose(f) : -1; return r ? mc::fmt("the process ends with status %d", r) : string(b);
}
static void c27(Check& k) {
    k.rule = "Complete reads, header reads and cached reads of every file of the corpus (plain and compressed, and larger ones), writes in every format, archives written and read, histories of cached reads and sequences of operations on sets are executed once for every request they make to the memory allocator, with that request refused and with all from it on refused. The caller must be told (an exception, no set and a message) or get exactly the result of a run with enough memory; sets keep what they held, no file stays open, and the same call succeeds afterwards.";
    long most = thorough() ? 1500 : 150;
    refused(k, {"reading", subjects().size() * 3, [](uint64_t j, const string& dir, Outcome& o) { const Subject& s = subjects()[j / 3]; string p; { memrt::Pause q; p = dir + "/f." + s.ext + (s.z ? ".gz" : ""); mc::writeFile(p, s.bytes); } int way = j % 3; Say say;
        ParticlesInfo* p1 = nullptr; ParticlesData* p2 = nullptr; ParticlesDataMutable* p3 = nullptr; if (way == 0) p3 = Partio::read(p.c_str(), true, say.s); else if (way == 1) p1 = Partio::readHeaders(p.c_str(), true, say.s); else p2 = Partio::readCached(p.c_str(), false, true, say.s);
        memrt::Pause q; o.h = mix(0, !p1 && !p2 && !p3); o.failed = !p1 && !p2 && !p3 && say.b.any(); Ctx sc;
        if (p1) { o.h = schemaHash(*p1, false); p1->release(); } if (p2) { o.h = dump(*p2); p2->release(); } if (p3) { o.h = mix(schemaHash(*p3, true), useAll(*p3, sc)); p3->release(); } },
        [](uint64_t j) { const Subject& s = subjects()[j / 3]; return string(WN[j % 3]) + " " + s.note + (s.z ? " compressed" : ""); }, false}, most);
    static vector<string> W = WF(); static const int N[] = {1, 2, 700};
    refused(k, {"writing", W.size() * 2 * 3 * 2, [](uint64_t j, const string& dir, Outcome& o) { Mixed x(j); int n = N[x(3)], layout = x(2); string f = W[x(W.size())]; bool z = x(2); if (z && !gzAble(f)) z = false; string p; static std::map<int, ParticlesDataMutable*> sets; auto*& s = sets[n * 2 + layout]; { memrt::Pause q; p = dir + "/w." + f; if (!s) { s = layout ? createInterleave() : create(); build(mk({0, 14, 1, 3, 4}, n, 2), s); } unlink(p.c_str()); }
        Say say; Partio::write(p.c_str(), *s, z, true, say.s); memrt::Pause q; o.h = mixs(o.h, mc::readFile(p)); o.failed = say.b.any(); },
        [](uint64_t j) { Mixed x(j); int n = N[x(3)], layout = x(2); string f = W[x(W.size())]; bool z = x(2); return "writing " + f + (z && gzAble(f) ? " compressed" : "") + mc::fmt(" with %d particles%s", n, layout ? " interleaved" : ""); }, false}, most);
    refused(k, {"archives", 8, [](uint64_t j, const string& dir, Outcome& o) { string f, big; { memrt::Pause q; f = dir + "/z.zip"; big = string(12000, 'b'); }
        { ZipFileWriter w(f); for (int m = 0; m < (int)j % 4; m++) { std::unique_ptr<std::ostream> s(w.Add_File(mc::fmt("member %d with a long name", m))); s->write(big.data(), m * 4000 + 3); if (!*s) o.failed = true; } }
        { memrt::Pause q; o.h = mixs(o.h, mc::readFile(f)); }
        if (j / 4) { ZipFileReader r(f); vector<string> l; r.Get_File_List(l); for (auto& n : l) { std::unique_ptr<std::istream> s(r.Get_File(n)); if (!s) { o.failed = true; continue; } char t[64] = {0}; while (s->read(t, 64) || s->gcount()) { memrt::Pause q; o.h = mixs(o.h, string(t, s->gcount())); if (!*s) break; } if (s->bad()) o.failed = true; } } },
        [](uint64_t j) { return mc::fmt("an archive of %d members%s", (int)j % 4, j / 4 ? ", written and read" : ", written"); }, true}, 1000);
    // histories of cached reads
    { static const char* CN[] = {"A", "A sorted", "B", "damaged", "release oldest", "release newest"}; const int NC = 6, depth = thorough() ? 5 : 4; uint64_t q = seqCount(NC, depth), maxAt = 40;
      k.spaces.push_back({"cached histories", q * 2 * maxAt, [=](uint64_t i, Ctx& c) { Mixed x(i); int at = x(maxAt); bool from = x(2); vector<int> ops = seqDecode(x(q), NC); if (ops.empty() || ops.back() > 3) return; string A = c.path(mc::fmt("A%llu.bgeo", (unsigned long long)i).c_str()), B = c.path(mc::fmt("B%llu.pdb.gz", (unsigned long long)i).c_str()), D = c.path("D.bgeo");
        static string A1, A2, B1, B2; if (A1.empty()) { A2 = fileOf(mk({0, 1, 3}, 4, 7), 0, A, false); B2 = fileOf(mk({0, 1}, 3, 8), 0, B, true); A1 = fileOf(mk({0, 1, 3}, 6, 1), 0, A, false); B1 = fileOf(mk({0, 1}, 5, 2), 0, B, true); mc::writeFile(D, A1.substr(0, 60)); }
        mc::writeFile(A, A1); mc::writeFile(B, B1);
        vector<ParticlesData*> held; auto get = [&](int op) { return readCached((op < 2 ? A : op < 3 ? B : D).c_str(), op == 1, false); }; auto sum = [&](ParticlesData* p, bool sorted) { if (!p) return (uint64_t)0; uint64_t h = dump(*p); if (sorted) { vector<ParticleIndex> v; float lo[3] = {-9, -9, -9}, hi[3] = {9, 9, 9}; p->findPoints(lo, hi, v); std::sort(v.begin(), v.end()); for (auto x : v) h = mix(h, x); } return h; }; auto fresh = [&](const string& f, bool sorted) { ParticlesDataMutable* m = Partio::read(f.c_str(), false); if (m && sorted) m->sort(); uint64_t h = sum(m, sorted); if (m) m->release(); return h; };
        for (size_t s = 0; s + 1 < ops.size(); s++) { int op = ops[s]; if (op < 4) { if (auto* p = get(op)) held.push_back(p); } else if (held.size()) { auto it = op == 4 ? held.begin() : held.end() - 1; (*it)->release(); held.erase(it); } }
        vector<uint64_t> was; for (auto* p : held) was.push_back(dump(*p));
        ParticlesData* p = nullptr; bool threw = false; memrt::starve(at, from); try { p = get(ops.back()); memrt::feed(); } catch (std::bad_alloc&) { memrt::feed(); threw = true; } bool hit = memrt::feed().refused > 0;
        string what = mc::fmt("no memory %s request %d of the last", from ? "from" : "at", at);
        if (hit) {
            for (size_t s = 0; s < held.size(); s++) if (dump(*held[s]) != was[s]) c.fail("%s: a set held already changes", what.c_str());
            ParticlesData* r = get(ops.back()); bool sorted = ops.back() == 1; uint64_t good = fresh(ops.back() < 2 ? A : ops.back() < 3 ? B : D, sorted);
            if (sum(r, sorted) != good) c.fail("%s: the next cached read gives another result", what.c_str());
            if (p && sum(p, sorted) != good) c.fail("%s: gives another result", what.c_str());
            if (r) r->release();
            // nothing is held any more: the next read has to see what the file holds then
            if (p) p->release(); p = nullptr; for (auto* h : held) h->release(); held.clear();
            mc::writeFile(A, A2); mc::writeFile(B, B2); for (int op : {0, 1, 2}) { ParticlesData* n = get(op); if (sum(n, op == 1) != fresh(op < 2 ? A : B, op == 1)) c.fail("%s: what was cached is never let go", what.c_str()); if (n) n->release(); }
            c.trace(); c.transitions(ops.size() + 1); c.state(mix(mc::hash64(what), x.i)); }
        if (p) p->release(); for (auto* h : held) h->release(); unlink(A.c_str()); unlink(B.c_str()); },
        [=](uint64_t i) { Mixed x(i); int at = x(maxAt); bool from = x(2); string s; for (int y : seqDecode(x(q), NC)) s += string(CN[y]) + ", "; return s + mc::fmt("no memory %s request %d of the last", from ? "from" : "at", at); }}); }
    { const int MAXF = 90; k.spaces.push_back({"first use", NFIRST * 2 * MAXF, [=](uint64_t i, Ctx& c) { Mixed x(i); int at = x(MAXF); bool from = x(2); int w = x(NFIRST); static std::map<int, string> want;
        static bool made = false; if (!made) { for (const char* f : {"in.bgeo", "in.prt", "in.pdb", "in.geo.gz"}) { ParticlesDataMutable* p = build(mk({0, 1}, 4, 1)); Partio::write(c.path(f).c_str(), *p, false, false); p->release(); } mc::writeFile(c.path("in.pts"), "2\n1 2 3\n4 5 6\n"); made = true; }
        if (!want.count(w)) want[w] = firstRun(w, -1, false, c.dir);
        int told = 0, failed = 0, f0 = 0, t0 = 0; long refused = 0, r0 = 0; unsigned long long h = 0, again = 0, good = 0, z; if (sscanf(want[w].c_str(), "%d %ld %llu %llu %d", &t0, &r0, &z, &good, &f0) != 5 || !good) return c.fail("%s without a refusal: %s", FIRST[w], want[w].c_str());
        string r = firstRun(w, at, from, c.dir); if (sscanf(r.c_str(), "%d %ld %llu %llu %d", &told, &refused, &h, &again, &failed) != 5) return c.fail("%s, first in its process, no memory %s request %d: %s", FIRST[w], from ? "from" : "at", at, r.c_str());
        if (!told && h != good) return c.fail("%s, first in its process, no memory %s request %d: gives another result", FIRST[w], from ? "from" : "at", at);
        if (again != good || failed != f0) return c.fail("%s, first in its process, no memory %s request %d: the same call gives another result afterwards", FIRST[w], from ? "from" : "at", at);
        c.trace(2); c.transitions(2); c.state(mix(mix(w, at), from)); },
        [=](uint64_t i) { Mixed x(i); int at = x(MAXF); bool from = x(2); return string(FIRST[x(NFIRST)]) + mc::fmt(", first in its process, no memory %s request %d", from ? "from" : "at", at); }}); }
    // operations on a set: what was there before stays, or all of the change is made
    static const char* ON[] = {"add float", "add position", "add string", "add fixed", "add fixed string", "add particle", "add particles", "register", "set string", "register fixed", "sort", "query", "iterate", "clone", "clone schema", "merge", "cluster", "look up", "values"}; const int NO = 19;
    static auto step = [](ParticlesDataMutable* p, int op, int serial, Outcome& o) {
        ParticleAttribute pos, id, s; bool hasPos = p->attributeInfo("position", pos), hasId = p->attributeInfo("id", id), hasS = false; FixedAttribute fs; bool hasF = p->fixedAttributeInfo("gs", fs);
        for (int i = 0; i < p->numAttributes() && !hasS; i++) { p->attributeInfo(i, s); hasS = s.type == INDEXEDSTR; }
        string longer(20 + serial * 3, 'q');
        switch (op) {
            case 0: p->addAttribute(mc::fmt("a float attribute with a long name %d", serial).c_str(), FLOAT, 3); break;
            case 1: if (hasPos) p->addAttribute("id", INT, 1); else p->addAttribute("position", VECTOR, 3); break;
            case 2: p->addAttribute(mc::fmt("s%d", serial).c_str(), INDEXEDSTR, 1); break;
            case 3: p->addFixedAttribute(mc::fmt("g%d", serial).c_str(), FLOAT, 2); break;
            case 4: p->addFixedAttribute("gs", INDEXEDSTR, 1); break;
            case 5: p->addParticle(); break;
            case 6: p->addParticles(9); break;
            case 7: if (hasS) o.h = mix(o.h, p->registerIndexedStr(s, longer.c_str())); break;
            case 8: if (hasS && p->indexedStrs(s).size()) p->setIndexedStr(s, 0, longer.c_str()); break;
            case 9: if (hasF) o.h = mix(o.h, p->registerFixedIndexedStr(fs, longer.c_str())); break;
            case 10: if (hasPos && p->numParticles()) p->sort(); break;
            case 11: if (hasPos && p->numParticles()) { vector<ParticleIndex> v; vector<float> d; float c[3] = {1, 1, 1}; ParticlesDataMutable* q; { memrt::Pause w; q = clone(*p, true); q->sort(); } try { float r = q->findNPoints(c, 4, 50.f, v, d); o.h = mix(mix(o.h, fbits(r)), v.size()); float lo[3] = {-50, -50, -50}, hi[3] = {50, 50, 50}; v.clear(); q->findPoints(lo, hi, v); o.h = mix(o.h, v.size()); } catch (...) { q->release(); throw; } q->release(); } break;
            case 12: { vector<ParticleAccessor> acc; for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); acc.push_back(ParticleAccessor(a)); } auto it = p->begin(); for (auto& a : acc) it.addAccessor(a); for (; it != p->end(); ++it) o.h = mix(o.h, 1); } break;
            case 13: { ParticlesDataMutable* n = clone(*p, true); memrt::Pause w; o.h = mix(o.h, dump(*n)); n->release(); } break;
            case 14: { std::map<string, string> m; m["id"] = "renamed"; ParticlesDataMutable* n = cloneSchema(*p, &m); memrt::Pause w; o.h = mix(o.h, schemaHash(*n, true)); n->release(); } break;
            case 15: { ParticlesDataMutable* n; { memrt::Pause w; n = clone(*p, true); } try { merge(*p, *n, "id", ""); } catch (...) { n->release(); throw; } n->release(); } break;
            case 16: if (hasPos && hasId && p->numParticles() && p->numParticles() < 40) { ParticlesDataMutable* n = computeClustering(p, 3, 2., 1., 2, 3.); memrt::Pause w; if (n) { o.h = mix(o.h, dump(*n)); n->release(); } } break;
            case 17: if (hasS) o.h = mix(o.h, p->lookupIndexedStr(s, longer.c_str())); break;
            case 18: o.h = mix(o.h, dump(*p)); break;
        } };
    int depth = thorough() ? 3 : 2, maxAt = 40; uint64_t q = seqCount(NO, depth);
    auto opsOf = [=](uint64_t i) { return seqDecode(i, NO); };
    k.spaces.push_back({"operations", q * NO * 3 * 2 * 2 * maxAt, [=](uint64_t i, Ctx& c) {
        Mixed x(i); int at = x(maxAt); bool from = x(2); int layout = x(2), start = x(3), op = x(NO); vector<int> ops = opsOf(x(q));
        auto ready = [&](Outcome& o) { ParticlesDataMutable* p = layout ? createInterleave() : create(); int n = 0; if (start) { for (int y : {1, 1, 2, 4, 6, 5}) step(p, y, n++, o); writeAll(*p); if (start == 2) p->sort(); } for (int y : ops) { step(p, y, n++, o); writeAll(*p); } return p; };
        auto dump = [](ParticlesDataMutable& d) { uint64_t h = ::dump(d); ParticleAttribute pos; if (d.numParticles() && d.attributeInfo("position", pos) && pos.type == VECTOR) { vector<ParticleIndex> v; float lo[3] = {-2, -2, -2}, hi[3] = {3, 3, 3}; d.findPoints(lo, hi, v); std::sort(v.begin(), v.end()); for (auto x : v) h = mix(h, x); } return h; };
        Outcome a, b, o; ParticlesDataMutable* p = ready(a); uint64_t before = dump(*p); step(p, op, 9, o);
        ParticlesDataMutable* r = ready(b); bool threw = false; Outcome t;
        try { memrt::starve(at, from); step(r, op, 9, t); memrt::feed(); } catch (std::bad_alloc&) { memrt::feed(); threw = true; }
        if (at >= memrt::lastStarved().asked) { p->release(); r->release(); return; }
        uint64_t got = 0;
        if (!threw) { if (!(t == o)) c.fail("no memory %s allocation %d: gives another result", from ? "from" : "at", at); if (op < 5 || op > 6) { if (dump(*r) != dump(*p)) c.fail("no memory %s allocation %d: the set is another one afterwards", from ? "from" : "at", at); } }
        else { got = dump(*r); if (op == 15 || op == 16) ; else if (got != before) c.fail("no memory %s allocation %d: the set is damaged by the refused operation", from ? "from" : "at", at); else { Outcome again; step(r, op, 9, again); writeAll(*p); writeAll(*r); if (!(again == o) || dump(*r) != dump(*p)) c.fail("no memory %s allocation %d: the operation repeated gives another result", from ? "from" : "at", at); } }
        p->release(); r->release(); c.trace(2); c.transitions(3); c.state(mix(got, at)); },
        [=](uint64_t i) { Mixed x(i); int at = x(maxAt); bool from = x(2); int layout = x(2), start = x(3), op = x(NO); string s = string(layout ? "interleaved" : "standard") + (start == 2 ? ", filled and sorted:" : start ? ", filled:" : ":"); for (int y : opsOf(x(q))) s += string(" ") + ON[y]; return s + mc::fmt(", then %s without memory %s allocation %d", ON[op], from ? "from" : "at", at); }});
}

int main(int argc, char** argv) {
    if (const char* f = getenv("MC_FIRST")) return firstMain(f);
    { // the allocator and the fill are really in the way
        long b = memrt::liveBlocks; memrt::leaveBlock(); bool seen = memrt::liveBlocks == b + 1; memrt::paint(0xA7); unsigned char* q = (unsigned char*)::operator new(100); seen = seen && *(volatile unsigned char*)(q + 77) == 0xA7; memrt::paint(-1); ::operator delete(q);
        if (!seen) { fprintf(stderr, "memory is not under control\n"); return 3; } }
    Check k; const char* p = getenv("MC_PROP"); k.property = p ? p : "C24"; k.caseTimeout = 30;
    if (k.property == "C24") c24(k); else if (k.property == "C25") c25(k); else if (k.property == "C26") c26(k); else if (k.property == "C27") c27(k); else return 3;
    k.caseTimeout = 30;
    k.assumptions = {"Memory is malloc's, including what the C++ library and zlib take; stack memory is repainted before each call and at each allocation.", "The corpus files are small; damage is enumerated over them as stated."};
    return mc::drive(k, argc, argv);
}
