// C11 damaged files, C16 failures, C17 locale.
#include "damage.h"

// ---------------------------------------------------------------- C16
static Set smallSet(const string& f) { return mk(f == "bin" ? vector<int>{0, 14} : vector<int>{0, 1, 3}, 2, 1); }
static void intactWorks(Ctx& c, const string& what) {
    Set m = smallSet("bgeo"); ParticlesDataMutable* p = build(m); string a = c.path("works.bgeo"); wr(a, *p); p->release(); p = rd(a); if (!p) return c.fail("%s: afterwards an intact file cannot be read", what.c_str()); Ctx s; s.sh = c.sh; compareSchema(*p, m, s); compareData(*p, m, s); if (s.failed()) c.fail("%s: afterwards an intact file reads wrong: %s", what.c_str(), s.failMsg.c_str()); p->release();
}
static vector<string> allW() { return {"bgeo", "bhclassic", "geo", "hclassic", "pdb", "pdb32", "pdb64", "pda", "ptc", "ptf", "pdc", "prt", "bin", "rib", "itbl", "atbl"}; }
struct ErrGuard { std::streambuf* old; std::ostringstream cap; ErrGuard() { old = std::cerr.rdbuf(cap.rdbuf()); } ~ErrGuard() { std::cerr.rdbuf(old); } };
static void readFails(const string& path, Ctx& c, const string& what, bool expectText = true) {
    for (int verbose = 0; verbose < 2; verbose++) for (int how = 0; how < 3; how++) {
        std::ostringstream e; bool got;
        if (how == 0) { ParticlesDataMutable* p = Partio::read(path.c_str(), verbose, e); got = p; if (p) p->release(); }
        else if (how == 1) { ParticlesInfo* p = Partio::readHeaders(path.c_str(), verbose, e); got = p; if (p) p->release(); }
        else { ParticlesData* p = Partio::readCached(path.c_str(), false, verbose, e); got = p; if (p) p->release(); }
        static const char* H[] = {"read", "readHeaders", "readCached"};
        if (got) return c.fail("%s of %s returns an object", H[how], what.c_str());
        if (verbose && e.str().empty()) return c.fail("%s of %s says nothing on the given stream though asked to", H[how], what.c_str());
        if (!verbose && !e.str().empty()) return c.fail("%s of %s says '%s' on the given stream though not asked to", H[how], what.c_str(), e.str().c_str());
        c.trace(); c.transitions();
    }
    intactWorks(c, what); c.state(mc::hash64(what));
}
static void writeFails(const string& path, Ctx& c, const string& what, const string& f, bool gzReq, const string& watch) {
    Set m = smallSet(f); ParticlesDataMutable* p = build(m);
    for (int verbose = 0; verbose < 2; verbose++) {
        std::ostringstream e; Partio::write(path.c_str(), *p, gzReq, verbose, e);
        if (verbose && e.str().empty()) { c.fail("write to %s says nothing on the given stream though asked to", what.c_str()); break; }
        if (!verbose && !e.str().empty()) { c.fail("write to %s says '%s' on the given stream though not asked to", what.c_str(), e.str().c_str()); break; }
        struct stat st; if (!watch.empty() && lstat(watch.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)) { c.fail("write to %s leaves a file", what.c_str()); break; }
        c.trace(); c.transitions();
    }
    p->release(); intactWorks(c, what); c.state(mc::hash64(what));
}
static void c16(Check& k) {
    k.rule = "Every extension (and with .gz): missing file, missing directory, directory in place of the file, empty file, a symbolic link that leads nowhere or to itself, a name that is too long; every short name over an alphabet of name characters that selects no format; every file of the corpus under names with other dots and directories; writing to a missing directory, to a directory, through a file and to unknown extensions. Reads, header reads, cached reads and writes, verbose and not; an intact file is written and read afterwards.";
    static vector<string> E; if (E.empty()) for (auto& e : exts()) { E.push_back(e); E.push_back(e + ".gz"); }
    static const char* WAY[] = {"a missing file", "a file in a missing directory", "a directory", "an empty file", "a dangling link", "a link to itself", "a name that is too long", "a path through a file", "a file that must not be read"};
    k.spaces.push_back({"unreadable", E.size() * 8, [](uint64_t i, Ctx& c) {
        Mixed x(i); string e = E[x(E.size())]; int w = x(8); string p = c.path(("u." + e).c_str()); mc::removeTree(p); unlink(p.c_str());
        if (w == 1) p = c.path(("none/u." + e).c_str()); if (w == 2) mkdir(p.c_str(), 0755); if (w == 3) { string s = e; size_t g = s.find('.'); if (g != string::npos) s.resize(g); if (s == "pts" || s == "ptx" || s == "xyz") return; mc::writeFile(p, ""); }
        if (w == 4) { if (symlink("nowhere", p.c_str())) return; } if (w == 5) { if (symlink(("u." + e).c_str(), p.c_str())) return; } if (w == 6) p = c.path((string(300, 'n') + "." + e).c_str()); if (w == 7) { mc::writeFile(c.path("plain"), "x"); p = c.path(("plain/u." + e).c_str()); }
        readFails(p, c, string(WAY[w]) + " ." + e); mc::removeTree(c.path(("u." + e).c_str())); unlink(c.path(("u." + e).c_str()).c_str()); }, [](uint64_t i) { return E[i % E.size()] + " " + WAY[i / E.size()]; }});
    // names that select nothing; alphabet of path characters and known words
    static const vector<string> A = {"a", ".", "/", "bgeo", "gz", "xyzzy", " ", "BGEO", "x.geo", "~"}; int d = thorough() ? 5 : 4; uint64_t q = seqCount(A.size(), d);
    auto nm = [](uint64_t i) { string s; for (int z : seqDecode(i, A.size())) s += A[z]; return s; };
    auto selects = [](const string& s) { // does the name end in a known extension, possibly followed by .gz
        size_t p = s.rfind('.'); if (p == string::npos) return false; string e = s.substr(p + 1); if (e == "gz") { if (p == 0) return false; size_t r = s.rfind('.', p - 1); if (r == string::npos) return false; e = s.substr(r + 1, p - r - 1); }
        for (auto& x : exts()) if (!strcasecmp(x.c_str(), e.c_str())) return true; return false; };
    k.spaces.push_back({"names", q, [=](uint64_t i, Ctx& c) { string s = nm(i); if (!s.empty() && s[0] == '/') return; if (s.find("..") != string::npos) return;
        static bool in = false; if (!in) { if (chdir(c.dir.c_str())) return; in = true; }
        // whatever the name, nothing is there
        struct stat st; if (!s.empty() && lstat(s.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)) unlink(s.c_str());
        readFails(s, c, "'" + s + "'"); if (c.failed()) return; if (!selects(s)) writeFails(s, c, "'" + s + "'", "bgeo", i & 1, s); }, nm});
    // selection depends on the extension only
    static const vector<File>& F = corpus(); static const char* PRE[] = {"", "a.b.", "x.geo.", "x.gz.", "d.bgeo/f.", "d.gz/f.", "gz.", ".", " .", "\xc3\xa9.", "pdb.", "d.x/y.z/f.", "..", "f.prt.bin."};
    k.spaces.push_back({"prefixes", F.size() * 14 * 2, [](uint64_t i, Ctx& c) { Mixed x(i); const File& f = F[x(F.size())]; string pre = PRE[x(14)]; bool z = x(2); if (z && !gzAble(f.ext)) return; if (pre == "") pre = "name.";
        mkdir(c.path("d.bgeo").c_str(), 0755); mkdir(c.path("d.gz").c_str(), 0755); mkdir(c.path("d.x").c_str(), 0755); mkdir(c.path("d.x/y.z").c_str(), 0755);
        string a = c.path((pre + f.ext + (z ? ".gz" : "")).c_str()), b = c.path(("q." + f.ext).c_str()); mc::writeFile(a, z ? gz(f.bytes) : f.bytes); mc::writeFile(b, f.bytes);
        Ctx s; s.sh = c.sh; bool ga, gb; uint64_t ha = readAll(a, s, &ga), hb = readAll(b, s, &gb); if (!ga || !gb || ha != hb) c.fail("%s under the name '%s' reads differently than under a plain name", f.note.c_str(), (pre + f.ext).c_str()); unlink(a.c_str()); c.trace(2); c.transitions(2); c.state(ha ^ i); }, [](uint64_t i) { return F[i % F.size()].note + " under " + PRE[i / F.size() % 14]; }});
    // writing
    static vector<string> WE; if (WE.empty()) for (auto& e : allW()) { WE.push_back(e); WE.push_back(e + ".gz"); }
    static const char* WW[] = {"a missing directory", "a directory", "a path through a file", "a name that is too long", "a link to itself", "a full device"};
    k.spaces.push_back({"unwritable", WE.size() * 6 * 2, [](uint64_t i, Ctx& c) { Mixed x(i); string e = WE[x(WE.size())]; int w = x(6); bool z = x(2); string f = e.substr(0, e.find('.')); string p = c.path(("w." + e).c_str()); unlink(p.c_str()); rmdir(p.c_str());
        if (w == 5) return; if (w == 0) p = c.path(("nodir/w." + e).c_str()); if (w == 1) mkdir(p.c_str(), 0755); if (w == 2) { mc::writeFile(c.path("plain"), "x"); p = c.path(("plain/w." + e).c_str()); } if (w == 3) p = c.path((string(300, 'n') + "." + e).c_str()); if (w == 4) { if (symlink(("w." + e).c_str(), p.c_str())) return; }
        writeFails(p, c, string(WW[w]) + " ." + e + (z ? " compressed" : ""), f, z, w == 4 ? "" : p); unlink(p.c_str()); rmdir(p.c_str()); }, [](uint64_t i) { return WE[i % WE.size()] + " to " + WW[i / WE.size() % 6]; }});
    // successful calls that were not asked to speak stay silent, and leave what was asked for
    k.spaces.push_back({"quiet success", F.size() * 2, [](uint64_t i, Ctx& c) { const File& f = F[i % F.size()]; string a = c.path(("s." + f.ext).c_str()); mc::writeFile(a, f.bytes); std::ostringstream e; ParticlesDataMutable* p = Partio::read(a.c_str(), false, e); ParticlesInfo* h = Partio::readHeaders(a.c_str(), false, e); if (!p || !h) c.fail("%s cannot be read when not verbose", f.note.c_str()); if (!e.str().empty()) c.fail("reading %s says '%s' though not asked to", f.note.c_str(), e.str().c_str()); if (h) h->release();
        if (p) { for (auto& w : allW()) { string b = c.path(("t." + w).c_str()); unlink(b.c_str()); Partio::write(b.c_str(), *p, i >= F.size() && gzAble(w), false, e); if (!e.str().empty()) { c.fail("writing %s says '%s' though not asked to", w.c_str(), e.str().c_str()); break; } c.trace(); c.transitions(); } p->release(); } c.state(i + 991); }, [](uint64_t i) { return F[i % F.size()].note; }});
}

// ---------------------------------------------------------------- C17
struct Punct : std::numpunct<char> { char dp, ts; string gr; const char *t, *f; Punct(char d, char th, string g, const char* tt = "wahr", const char* ff = "falsch") : dp(d), ts(th), gr(g), t(tt), f(ff) {} char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } string do_grouping() const override { return gr; } string do_truename() const override { return t; } string do_falsename() const override { return f; } };
static std::locale makeLocale(int w) {
    std::locale c = std::locale::classic();
    switch (w) { case 0: return std::locale(c, new Punct(',', '.', "\3")); case 1: return std::locale(c, new Punct('.', ',', "\3")); case 2: return std::locale(c, new Punct(',', ' ', "\1")); case 3: return std::locale(c, new Punct('-', '-', "\2\1")); case 4: return std::locale(c, new Punct('\'', '0', "\3")); default: return std::locale(c, new Punct('1', '2', "\1")); }
}
static const int NLOC = 6;
static vector<string> cLocales() { vector<string> v; if (const char* p = getenv("MC_LOCALES")) { std::istringstream s(p); string l; while (std::getline(s, l, ':')) if (setlocale(LC_ALL, l.c_str())) v.push_back(l); setlocale(LC_ALL, "C"); } return v; }
static string hexdiff(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return mc::fmt("at byte %d: '%s' instead of '%s'", (int)i, mc::jsonEscape(b.substr(i > 4 ? i - 4 : 0, 24)).c_str(), mc::jsonEscape(a.substr(i > 4 ? i - 4 : 0, 24)).c_str()); }
struct LocGuard { LocGuard(int w, const vector<string>& cl) { if (w < NLOC) std::locale::global(makeLocale(w)); else { setlocale(LC_ALL, cl[(w - NLOC) / 2].c_str()); if ((w - NLOC) & 1) { try { std::locale::global(std::locale(cl[(w - NLOC) / 2].c_str())); } catch (...) {} } } } ~LocGuard() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); } };
static void c17(Check& k) {
    static vector<string> CL = cLocales(); static const int NL = NLOC + 2 * (int)CL.size();
    k.rule = mc::fmt("Every format, attribute sequence up to the depth and boundary value, and every corpus file, written and read under %d global C++ locales with unusual decimal points, separators and groupings and %d C locales built for the check, compared byte for byte and value by value with the classic locale.", NLOC, (int)CL.size());
    static vector<string> W = {"bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "ptc", "pdc", "prt", "bin", "rib"};
    int depth = thorough() ? 2 : 1; uint64_t q = seqCount(NKIND, depth);
    static const int NS[] = {1, 3, 1200};
    auto both = [](const Set& m, const string& f, int loc, bool z, Ctx& c) {
        ParticlesDataMutable* p = build(m); string a = c.path(("c." + f).c_str()), b = c.path(("l." + f).c_str()), ea, eb; unlink(a.c_str()); unlink(b.c_str());
        wr(a, *p, z, &ea); { LocGuard g(loc, CL); wr(b, *p, z, &eb); }
        string x = mc::readFile(a), y = mc::readFile(b); p->release();
        if (x != y) return c.fail("%s is written differently under another locale (%d and %d bytes) %s", f.c_str(), (int)x.size(), (int)y.size(), hexdiff(x, y).c_str());
        c.trace(2); c.transitions(2); c.state(m.hash() ^ mc::hash64(f));
        if (f == "rib") return;
        bool ga, gb; uint64_t ha = readAll(a, c, &ga), hb; { LocGuard g(loc, CL); hb = readAll(a, c, &gb); }
        if (ga != gb || ha != hb) return c.fail("%s reads differently under another locale", f.c_str());
        bool pa, pb; headAll(a, c, &pa); { LocGuard g(loc, CL); headAll(a, c, &pb); } if (pa != pb) c.fail("%s headers read differently under another locale", f.c_str());
    };
    auto dec = [=](uint64_t i, string& f, int& loc, bool& z) { Mixed x(i); f = W[x(W.size())]; loc = x(NL); z = x(2) && gzAble(f) && f != "rib"; int n = NS[x(3)]; vector<int> ks = kindsOf(x(q), allKinds()); ks.insert(ks.begin(), 0); if (!distinct(ks)) ks = {0}; Set m = mk(ks, n, 5); if (f == "bgeo") { m.addFixed("ff", FLOAT, 2); fill(m, 5); } return m; };
    k.spaces.push_back({"shapes", W.size() * NL * 2 * 3 * q, [=](uint64_t i, Ctx& c) { string f; int l; bool z; Set m = dec(i, f, l, z); both(m, f, l, z, c); }, [=](uint64_t i) { string f; int l; bool z; Set m = dec(i, f, l, z); return f + mc::fmt(" locale %d %s ", l, z ? "compressed" : "") + m.str(); }});
    auto dv = [=](uint64_t i, string& f, int& loc) { Mixed x(i); f = W[x(W.size())]; loc = x(NL); int v = x(NFV + NIV); Set m; m.addParticles(2); m.addAttr("position", VECTOR, 3); m.addAttr("radius", FLOAT, 1); m.addAttr("id", INT, 1); m.addAttr("w", FLOAT, 1); fill(m, 1); if (v < NFV) { m.attrs[0].rows[0][1] = m.attrs[1].rows[0][0] = m.attrs[3].rows[1][0] = Word(FV[v]); } else m.attrs[2].rows[1][0] = Word(IV[v - NFV]); return m; };
    k.spaces.push_back({"values", W.size() * NL * (NFV + NIV), [=](uint64_t i, Ctx& c) { string f; int l; Set m = dv(i, f, l); both(m, f, l, false, c); }, [=](uint64_t i) { string f; int l; Set m = dv(i, f, l); return f + " " + m.str(); }});
    static vector<File> F = corpus(); if (F.size() == corpus().size()) { // larger and more varied text files
        for (int st = 0; st < 5; st++) { TextOpt o; o.style = st; F.push_back(encGEO(mk({0, 1, 3, 4, 2}, 1500), o)); F.push_back(encPDA(mk({0, 1, 3}, 1500), o)); F.push_back(encPTS(7, 1500, st, o)); } }
    k.spaces.push_back({"foreign", F.size() * NL * 2, [](uint64_t i, Ctx& c) { Mixed x(i); const File& f = F[x(F.size())]; int l = x(NL); bool z = x(2); if (z && !gzAble(f.ext)) return; string a = c.path(("f." + f.ext + (z ? ".gz" : "")).c_str()); mc::writeFile(a, z ? gz(f.bytes) : f.bytes); bool ga, gb; uint64_t ha = readAll(a, c, &ga), hb; { LocGuard g(l, CL); hb = readAll(a, c, &gb); } if (!ga) return c.fail("%s cannot be read", f.note.c_str()); if (!gb || ha != hb) c.fail("%s reads differently under another locale", f.note.c_str()); bool pb; { LocGuard g(l, CL); headAll(a, c, &pb); } if (!pb) c.fail("%s: headers fail under another locale", f.note.c_str()); c.trace(3); c.transitions(3); c.state(ha ^ l); }, [](uint64_t i) { return F[i % F.size()].note + " " + F[i % F.size()].ext; }});
}

int main(int argc, char** argv) {
    Check k; const char* p = getenv("MC_PROP"); k.property = p ? p : "C11"; k.caseTimeout = 30;
    k.assumptions = {"The corpus files are small; damage is enumerated over them as stated."};
    if (k.property == "C11") c11(k); else if (k.property == "C16") c16(k); else if (k.property == "C17") c17(k); else return 3;
    return mc::drive(k, argc, argv);
}
