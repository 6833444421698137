// Reading whatever a file may hold, and the corpus of damaged files (C11, C24, C25).
#pragma once
#include "formats.h"
#include <locale>
#include <unistd.h>
using namespace formats;

static const vector<string>& exts() {
    static vector<string> e = {"bgeo", "bhclassic", "geo", "hclassic", "pdb", "pdb32", "pdb64", "pda", "mc", "ptc", "ptf", "pdc", "prt", "bin", "pts", "ptx", "xyz", "itbl", "atbl"};
    return e;
}

// ---------------------------------------------------------------- C11
// Uses everything a particle set offers; every stored value is read, so that storage which is not there is seen.
static uint64_t sumBytes(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull; return h; }
static bool sound(const ParticlesInfo& p, bool fixed, Ctx& c, vector<ParticleAttribute>& at, vector<FixedAttribute>& fa) {
    if (p.numParticles() < 0 || p.numAttributes() < 0 || p.numFixedAttributes() < 0) { c.fail("negative count: %d particles, %d attributes, %d fixed", p.numParticles(), p.numAttributes(), p.numFixedAttributes()); return false; }
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a, b; if (!p.attributeInfo(i, a)) { c.fail("attribute %d of %d is not there", i, p.numAttributes()); return false; }
        if (a.count < 0 || (a.type != INT && a.type != FLOAT && a.type != VECTOR && a.type != INDEXEDSTR)) { c.fail("attribute %d has type %d and width %d", i, (int)a.type, a.count); return false; }
        if (!p.attributeInfo(a.name.c_str(), b)) { if (a.name.find('\0') == string::npos) { c.fail("attribute '%s' is not found by its name", a.name.c_str()); return false; } }
        else if (b.name == a.name && (b.type != a.type || b.count != a.count || b.attributeIndex != a.attributeIndex)) { c.fail("attribute '%s' is listed differently than it is found", a.name.c_str()); return false; }
        at.push_back(a);
    }
    if (fixed) for (int i = 0; i < p.numFixedAttributes(); i++) {
        FixedAttribute a; if (!p.fixedAttributeInfo(i, a)) { c.fail("fixed attribute %d of %d is not there", i, p.numFixedAttributes()); return false; }
        if (a.count < 0) { c.fail("fixed attribute %d has width %d", i, a.count); return false; }
        fa.push_back(a);
    }
    return true;
}
static uint64_t useAll(ParticlesDataMutable& p, Ctx& c) {
    vector<ParticleAttribute> at; vector<FixedAttribute> fa; uint64_t h = 7;
    if (!sound(p, true, c, at, fa)) return 0;
    int n = p.numParticles(); h = h * 31 + n;
    const int LIM = 20000;
    for (auto& a : at) {
        size_t w = TypeSize(a.type) * a.count; h = sumBytes(a.name.data(), a.name.size(), h) * 31 + a.type * 7 + a.count;
        vector<float> f(a.count + 1);
        for (int k = 0; k < n; k++) {
            if (k >= LIM && k < n - 3) { k = n - 3; if (k < LIM) k = LIM; }
            if (w) h = sumBytes(p.data<char>(a, k), w, h);
            if (k < 50 && a.type != INDEXEDSTR) { ParticleIndex pi = k; p.dataAsFloat(a, 1, &pi, true, f.data()); }
        }
        if (a.type == INDEXEDSTR) { auto& s = p.indexedStrs(a); for (auto& x : s) h = sumBytes(x.data(), x.size(), h); }
    }
    for (auto& a : fa) {
        h = sumBytes(a.name.data(), a.name.size(), h);
        if (a.count) h = sumBytes(p.fixedData<char>(a), TypeSize(a.type) * a.count, h);
        if (a.type == INDEXEDSTR) for (auto& x : p.fixedIndexedStrs(a)) h = sumBytes(x.data(), x.size(), h);
    }
    {
        vector<ParticleAccessor> acc; for (auto& a : at) if (a.count) acc.push_back(ParticleAccessor(a));
        auto it = p.begin(); for (auto& x : acc) it.addAccessor(x);
        int k = 0; for (; it != p.end() && k < LIM; ++it, ++k) for (size_t j = 0; j < acc.size(); j++) h = sumBytes(acc[j].raw<char>(it), 4 * acc[j].count, h);
        if (k != std::min(n, LIM)) { c.fail("iterating visits %d particles of %d", k, n); return 0; }
    }
    return h;
}
static uint64_t readAll(const string& path, Ctx& c, bool* got = nullptr) {
    ParticlesDataMutable* p = rd(path); if (got) *got = p != nullptr; if (!p) return 1;
    uint64_t h = useAll(*p, c);
    if (!c.failed()) {   // a set one can use can also be grown and changed
        int n = p->numParticles();
        if (n < 100000) { p->addParticle(); if (p->numParticles() != n + 1) c.fail("adding a particle to the set gives %d of %d", p->numParticles(), n + 1);
            ParticleAttribute a; for (int i = 0; i < p->numAttributes(); i++) if (p->attributeInfo(i, a) && a.count) memset(p->dataWrite<char>(a, n), 1, TypeSize(a.type) * a.count); }
    }
    p->release(); return h;
}
static void headAll(const string& path, Ctx& c, bool* got = nullptr) {
    ParticlesInfo* p = rdh(path); if (got) *got = p != nullptr; if (!p) return;
    vector<ParticleAttribute> at; vector<FixedAttribute> fa; sound(*p, false, c, at, fa); p->release();
}
static std::map<string, uint64_t>& intact() { static std::map<string, uint64_t> m; return m; }
static void damaged(const string& ext, const string& bytes, bool z, Ctx& c, const File* control, bool ordered = true) {
    string p = c.path(("d." + ext + (z ? ".gz" : "")).c_str()); mc::writeFile(p, bytes);
    bool a, b; readAll(p, c, &a); if (c.failed()) return; headAll(p, c, &b); if (c.failed()) return;
    if (control) {
        string q = c.path(("i." + control->ext).c_str()); auto it = intact().find(control->note + control->ext);
        if (it == intact().end()) { mc::writeFile(c.path("control"), ""); }
        static string last; if (last != q + control->note) { mc::writeFile(q, control->bytes); last = q + control->note; }
        bool g; uint64_t h = readAll(q, c, &g); if (c.failed()) return;
        if (!g) return c.fail("after a damaged file, the intact one can no longer be read");
        if (it == intact().end()) intact()[control->note + control->ext] = h; else if (it->second != h) return c.fail("after a damaged file, the intact one reads differently");
    }
    c.trace(3); c.transitions(3); c.state(mc::hash64(bytes.substr(0, 64)) ^ (a * 2 + b) ^ mc::hash64(ext) ^ bytes.size());
}
// what is done with each damaged file
typedef void (*Judge)(const string& ext, const string& bytes, bool z, Ctx& c, const File* control);
static void damagedJudge(const string& ext, const string& bytes, bool z, Ctx& c, const File* control) { damaged(ext, bytes, z, c, control); }
static Judge judge = damagedJudge;
static string put(string s, size_t at, const string& v) { for (size_t i = 0; i < v.size() && at + i < s.size(); i++) s[at + i] = v[i]; return s; }
static string le(u32 v, int n) { string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static string be(u32 v, int n) { string s = le(v, n); std::reverse(s.begin(), s.end()); return s; }
static const vector<string>& words() {  // multi-byte values written over every offset
    static vector<string> w; if (!w.empty()) return w;
    for (u32 v : {0u, 1u, 2u, 3u, 5u, 0xffffffffu, 0xfffffffeu, 0x7fffffffu, 0x80000000u, 0x40000000u, 0x10000000u, 0x00010000u, 0x00ffffffu}) { w.push_back(le(v, 4)); w.push_back(be(v, 4)); }
    for (u32 v : {0u, 1u, 0xffffu, 0x8000u, 0x7fffu, 0x00ffu}) { w.push_back(le(v, 2)); w.push_back(be(v, 2)); }
    for (int k : {0, 0xff, 0x7f}) w.push_back(string(8, (char)k));
    return w;
}
static const vector<string>& pieces() {
    static vector<string> w = {"", "0", "-1", "1", "2", "99999999999", "2147483647", "-2147483648", "x", "\"", "\"\"", "(", ")", "nan", "1e999", "-", "1.5", "V", "index", "string", "vector", "R", "\\", "100000000", "#", "\n", "I", "float", "0 ,", "a b"};
    return w;
}
struct Part { const File* f; uint64_t n; };
// decode a case number over (file, position within the file's count)
static void pick(const vector<Part>& v, uint64_t i, size_t& k, uint64_t& j) { for (k = 0; k < v.size(); k++) { if (i < v[k].n) { j = i; return; } i -= v[k].n; } k = v.size() - 1; j = 0; }
static vector<std::pair<size_t, size_t>> tokens(const string& s) {
    vector<std::pair<size_t, size_t>> t; size_t i = 0;
    while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t b = i; while (i < s.size() && !isspace((unsigned char)s[i])) i++; if (i > b) t.push_back({b, i - b}); }
    return t;
}
static bool textual(const string& e) { return e == "geo" || e == "pda" || e == "pts" || e == "ptx" || e == "xyz" || e == "ptc" || e == "bin"; }
static void sized(Check& k, const string& name, std::function<uint64_t(const File&)> count, std::function<bool(const File&, uint64_t, string&)> make, bool zipped) {
    static std::vector<std::unique_ptr<vector<Part>>> keep; keep.emplace_back(new vector<Part>); vector<Part>* parts = keep.back().get();
    uint64_t total = 0; for (auto& f : corpus()) { if (zipped && !gzAble(f.ext)) continue; uint64_t n = count(f); if (!n) continue; parts->push_back({&f, n}); total += n; }
    k.spaces.push_back({name, total, [=](uint64_t i, Ctx& c) { size_t q; uint64_t j; pick(*parts, i, q, j); string b; if (make(*(*parts)[q].f, j, b)) judge((*parts)[q].f->ext, b, zipped, c, (*parts)[q].f); },
        [=](uint64_t i) { size_t q; uint64_t j; pick(*parts, i, q, j); string b; make(*(*parts)[q].f, j, b); string hx; for (size_t z = 0; z < b.size() && z < 200; z++) hx += mc::fmt("%02x", (unsigned char)b[z]); return (*parts)[q].f->note + mc::fmt(" change %llu: ", (unsigned long long)j) + hx; }});
}
static const string& packed(const File& f, int how) {  // cached: workers fork after the spaces are built
    static std::map<string, string> m; string key = f.note + f.ext + char('0' + how); auto it = m.find(key); if (it != m.end()) return it->second;
    GzOpt o; if (how == 1) { o.flags = 31; o.level = 9; } if (how == 2) o.level = 0; return m[key] = gz(f.bytes, o);
}
static void c11(Check& k) {
    if (k.rule.empty()) k.rule = "Each file of a corpus covering every format and variant: cut at every byte; every byte changed to every value of an alphabet (all 256 in the thorough tier); every offset overwritten by every word of an alphabet of extreme values in both byte orders; every byte removed, doubled or preceded by an alphabet; every word of text files replaced; every prefix joined with every suffix of a sibling; the same damages before and after compression; every byte string up to length 2 under every extension and behind every file start; every token sequence of small text grammars. Each damaged file is read completely and as headers, the result is used throughout under AddressSanitizer, and an intact file is read afterwards.";
    k.caseTimeout = 30;
    bool T = thorough();
    static const int BV[] = {0, 1, 0x7f, 0x80, 0xff, 0x20, 0x0a, 0x30, 0x39, 0x2d};
    auto byteVals = [=](const File& f) -> uint64_t { return T ? 256 : textual(f.ext) ? 10 : 7; };
    sized(k, "cut", [](const File& f) { return f.bytes.size(); }, [](const File& f, uint64_t j, string& b) { b = f.bytes.substr(0, j); return true; }, false);
    sized(k, "cut, compressed", [](const File& f) { return f.bytes.size(); }, [](const File& f, uint64_t j, string& b) { b = gz(f.bytes.substr(0, j)); return true; }, true);
    sized(k, "cut after compression", [](const File& f) { return packed(f, 0).size() + packed(f, 1).size() + packed(f, 2).size(); }, [](const File& f, uint64_t j, string& b) { for (int h = 0; h < 3; h++) { const string& s = packed(f, h); if (j < s.size()) { b = s.substr(0, j); return true; } j -= s.size(); } return false; }, true);
    sized(k, "byte", [=](const File& f) { return f.bytes.size() * byteVals(f); }, [=](const File& f, uint64_t j, string& b) { uint64_t nv = byteVals(f); int v = (int)(j % nv); b = f.bytes; size_t at = j / nv; unsigned char o = (unsigned char)b[at]; b[at] = (char)(T ? v : v < 2 && !textual(f.ext) ? (v ? o + 1 : o ^ 0x80) : BV[v]); if ((unsigned char)b[at] == o) return false; return true; }, false);
    sized(k, "byte after compression", [=](const File& f) { return (packed(f, 0).size() + packed(f, 1).size()) * (T ? 64 : 6); }, [=](const File& f, uint64_t j, string& b) { int nv = T ? 64 : 6, v = (int)(j % nv); size_t at = j / nv; int h = at >= packed(f, 0).size(); b = packed(f, h); if (h) at -= packed(f, 0).size(); static const int X[] = {0x01, 0x80, 0xff, 0x04, 0x10, 0x42}; b[at] = (char)(b[at] ^ (T ? v * 4 + 1 : X[v])); return true; }, true);
    sized(k, "word", [](const File& f) { return textual(f.ext) && f.ext != "ptc" && f.ext != "bin" ? 0 : f.bytes.size() * words().size(); }, [](const File& f, uint64_t j, string& b) { b = put(f.bytes, j / words().size(), words()[j % words().size()]); return b != f.bytes; }, false);
    sized(k, "word, compressed", [](const File& f) { return textual(f.ext) && f.ext != "ptc" && f.ext != "bin" ? 0 : f.bytes.size() * words().size() / 2; }, [](const File& f, uint64_t j, string& b) { j = j * 2 + (j / words().size() & 1); if (j / words().size() >= f.bytes.size()) return false; b = put(f.bytes, j / words().size(), words()[j % words().size()]); bool d = b != f.bytes; if (d) { GzOpt o; o.level = 1; b = gz(b, o); } return d; }, true);
    sized(k, "removed and inserted", [](const File& f) { return f.bytes.size() * 5; }, [](const File& f, uint64_t j, string& b) { size_t at = j / 5; b = f.bytes; switch (j % 5) { case 0: b.erase(at, 1); break; case 1: b.insert(at, 1, b[at]); break; case 2: b.insert(at, 1, '\0'); break; case 3: b.insert(at, 1, '\xff'); break; case 4: b.erase(at, 4); } return true; }, false);
    sized(k, "text word", [](const File& f) { return textual(f.ext) ? tokens(f.bytes).size() * pieces().size() : 0; }, [](const File& f, uint64_t j, string& b) { auto t = tokens(f.bytes)[j / pieces().size()]; b = f.bytes.substr(0, t.first) + pieces()[j % pieces().size()] + f.bytes.substr(t.first + t.second); return true; }, false);
    if (T) sized(k, "two text words", [](const File& f) { uint64_t n = textual(f.ext) ? std::min<uint64_t>(tokens(f.bytes).size(), 40) : 0; return n * n * 12 * 12; }, [](const File& f, uint64_t j, string& b) { auto t = tokens(f.bytes); uint64_t n = std::min<uint64_t>(t.size(), 40); Mixed x(j); int a = x(12), d = x(12); uint64_t p = x(n), q = x(n); if (p >= q) return false; static const int S[] = {0, 1, 2, 4, 5, 7, 8, 9, 16, 18, 20, 26}; b = f.bytes.substr(0, t[p].first) + pieces()[S[a]] + f.bytes.substr(t[p].first + t[p].second, t[q].first - t[p].first - t[p].second) + pieces()[S[d]] + f.bytes.substr(t[q].first + t[q].second); return true; }, false);
    // two words of the header at once
    {
        static const u32 V[] = {0u, 1u, 2u, 0xffffffffu, 0x7fffffffu, 0x40000001u, 0x00010000u};
        int step = T ? 1 : 4; auto lim = [=](const File& f) -> uint64_t { return std::min<uint64_t>(f.bytes.size() / step, T ? 160 : 32); };
        sized(k, "two words", [=](const File& f) { uint64_t n = lim(f); return textual(f.ext) && f.ext != "ptc" && f.ext != "bin" ? 0 : n * n * 49; }, [=](const File& f, uint64_t j, string& b) { uint64_t n = lim(f); Mixed x(j); int v = x(7), w = x(7); uint64_t p = x(n) * step, q = x(n) * step; if (p >= q) return false; bool big = f.ext == "bgeo" || f.ext == "mc" || f.ext == "pdc"; int off = f.ext == "ptc" || f.ext == "bin" ? 2 * (int)(j & 1) : 0; b = put(put(f.bytes, p + off, big ? be(V[v], 4) : le(V[v], 4)), q + off, big ? be(V[w], 4) : le(V[w], 4)); return true; }, false);
    }
    // the start of one file and the end of another of the same format
    {
        static vector<std::pair<const File*, const File*>> pr; for (auto& a : corpus()) for (auto& b : corpus()) if (&a != &b && a.ext == b.ext) pr.push_back({&a, &b});
        int cuts = T ? 64 : 12;
        k.spaces.push_back({"joined", pr.size() * cuts * cuts, [=](uint64_t i, Ctx& c) { Mixed x(i); int p = x(cuts), q = x(cuts); auto f = pr[x(pr.size())]; judge(f.first->ext, f.first->bytes.substr(0, f.first->bytes.size() * p / cuts) + f.second->bytes.substr(f.second->bytes.size() * q / cuts), false, c, f.first); }, [=](uint64_t i) { Mixed x(i); int p = x(cuts), q = x(cuts); auto f = pr[x(pr.size())]; return f.first->note + mc::fmt(" %d/%d + ", p, cuts) + f.second->note + mc::fmt(" %d/%d", q, cuts); }});
    }
    // every file under every other extension
    k.spaces.push_back({"other extension", corpus().size() * exts().size() * 2, [](uint64_t i, Ctx& c) { Mixed x(i); const File& f = corpus()[x(corpus().size())]; string e = exts()[x(exts().size())]; bool z = x(2); if (z && !gzAble(e)) return; judge(e, z ? gz(f.bytes) : f.bytes, z, c, &f); }, [](uint64_t i) { Mixed x(i); const File& f = corpus()[x(corpus().size())]; return f.note + " as " + exts()[x(exts().size())]; }});
    // arbitrary bytes
    {
        uint64_t per = 1 + 256 + 65536;
        static vector<string> E2 = {"bgeo", "geo", "pdb", "pdb64", "pda", "mc", "ptc", "pdc", "prt", "bin", "pts"};
        auto mk2 = [](uint64_t j) { string s; if (j == 0) return s; j--; if (j < 256) return string(1, (char)j); j -= 256; s += (char)j; s += (char)(j >> 8); return s; };
        if (T) k.spaces.push_back({"all short strings", E2.size() * per, [=](uint64_t i, Ctx& c) { judge(E2[i / per], mk2(i % per), false, c, nullptr); }, [=](uint64_t i) { return E2[i / per] + " " + mc::jsonEscape(mk2(i % per)); }});
        else k.spaces.push_back({"all short strings", E2.size() * (257 + 32 * 32), [=](uint64_t i, Ctx& c) { uint64_t p2 = 257 + 32 * 32, j = i % p2; judge(E2[i / p2], j < 257 ? mk2(j) : mk2(257 + ((j - 257) % 32 * 9 % 256) + (((j - 257) / 32 * 11 % 256) << 8)), false, c, nullptr); }, [=](uint64_t i) { return E2[i / (257 + 32 * 32)]; }});
        // behind each prefix of a file's first bytes
        static vector<std::pair<const File*, size_t>> st; std::map<string, int> seen; for (auto& f : corpus()) { if (seen[f.ext]++ >= (T ? 9 : 2)) continue; for (size_t p = 1; p < std::min<size_t>(f.bytes.size(), T ? 200 : 48); p++) st.push_back({&f, p}); }
        int a = T ? 256 : 24;
        k.spaces.push_back({"after every start", st.size() * a * 3, [=](uint64_t i, Ctx& c) { Mixed x(i); int v = x(a), m = x(3); auto s = st[x(st.size())]; char ch = (char)(T ? v : v * 11); judge(s.first->ext, s.first->bytes.substr(0, s.second) + string(m == 0 ? 1 : m == 1 ? 4 : 400, ch), false, c, nullptr); }, [=](uint64_t i) { Mixed x(i); int v = x(a), m = x(3); auto s = st[x(st.size())]; return s.first->note + mc::fmt(" first %d then %02x x%d", (int)s.second, T ? v : v * 11 & 255, m); }});
    }
    // text grammars
    {
        struct G { const char* ext; vector<string> t; int d; };
        static vector<G> gs = {
            {"geo", {"PGEOMETRY V5\n", "NPoints 1 NPrims 0\n", "NPointGroups 0 NPrimGroups 0\n", "NPointAttrib 1 NVertexAttrib 0 NPrimAttrib 0 NAttrib 0\n", "PointAttrib\n", "a 1 float 0\n", "s 1 index 1 \"q\"\n", "0 0 0 1\n", "0 0 0 1 (1)\n", "beginExtra\n"}, T ? 6 : 5},
            {"pda", {"ATTRIBUTES\n", "TYPES\n", "NUMBER_OF_PARTICLES: 1\n", "BEGIN DATA\n", "a b\n", "V R\n", "I\n", "1 2 3\n", "4\n", "NUMBER_OF_PARTICLES: 0\n"}, T ? 7 : 5},
            {"pts", {"2\n", "1\n", "1 2 3\n", "1 2 3 4\n", "1 2 3 4 5 6\n", "1 2 3 4 5 6 7\n", "\n", "x y z\n", "1 2 3 4 5 6 7 8 9\n", "-1\n"}, T ? 6 : 5},
        };
        for (size_t g = 0; g < gs.size(); g++) { uint64_t q = seqCount(gs[g].t.size(), gs[g].d); auto mkS = [g](uint64_t i) { string s; for (int z : seqDecode(i, gs[g].t.size())) s += gs[g].t[z]; return s; };
            k.spaces.push_back({string("grammar ") + gs[g].ext, q, [=](uint64_t i, Ctx& c) { judge(gs[g].ext, mkS(i), false, c, nullptr); }, [=](uint64_t i) { return mc::jsonEscape(mkS(i)); }}); }
    }
}
