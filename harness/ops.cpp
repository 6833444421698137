// C12 merge, C13 clone, C14 clustering.
#include "formats.h"
using namespace formats;

// Materialise a model whose string tables may hold a string more than once.
static ParticlesDataMutable* buildD(const Set& m, int layout) {
    ParticlesDataMutable* p = layout ? createInterleave() : create();
    auto dup = [](const vector<string>& s) { std::set<string> u(s.begin(), s.end()); return u.size() != s.size(); };
    Set t = m; bool any = false;
    for (auto* v : {&t.attrs, &t.fixed}) for (auto& a : *v) if (dup(a.strs)) { any = true; for (size_t i = 0; i < a.strs.size(); i++) a.strs[i] = "\x02" + std::to_string(i); }
    build(t, p);
    if (any) {
        for (size_t i = 0; i < m.attrs.size(); i++) if (dup(m.attrs[i].strs)) { ParticleAttribute a; p->attributeInfo((int)i, a); for (size_t k = 0; k < m.attrs[i].strs.size(); k++) p->setIndexedStr(a, (int)k, m.attrs[i].strs[k].c_str()); }
        for (size_t i = 0; i < m.fixed.size(); i++) if (dup(m.fixed[i].strs)) { FixedAttribute a; p->fixedAttributeInfo((int)i, a); for (size_t k = 0; k < m.fixed[i].strs.size(); k++) p->setFixedIndexedStr(a, (int)k, m.fixed[i].strs[k].c_str()); }
    }
    return p;
}

// What a value must be: a word, a string (through whatever token), or anything.
struct Cell { int kind = 0; u32 v = 0; string s; };  // 0 anything, 1 word, 2 string
struct EAttr { string name; ParticleAttributeType type; int count; vector<vector<Cell>> rows; };
struct Expect { int n = 0; vector<EAttr> attrs, fixed; };
static Cell cellOf(const Attr& a, const Word& w) { Cell c; if (!w.known) return c; if (a.type == INDEXEDSTR) { if (w.v < a.strs.size()) { c.kind = 2; c.s = a.strs[w.v]; } } else { c.kind = 1; c.v = w.v; } return c; }
static Cell zero() { Cell c; c.kind = 1; return c; }
static EAttr eattr(const Attr& a) { EAttr e{a.name, a.type, a.count, {}}; for (auto& r : a.rows) { e.rows.emplace_back(); for (auto& w : r) e.rows.back().push_back(cellOf(a, w)); } return e; }
static Expect expectOf(const Set& m) { Expect e; e.n = m.n; for (auto& a : m.attrs) e.attrs.push_back(eattr(a)); for (auto& a : m.fixed) e.fixed.push_back(eattr(a)); return e; }

static void verify(const ParticlesData& p, const Expect& e, Ctx& c, const string& what, bool fixedToo = true) {
    if (p.numParticles() != e.n) return c.fail("%s: %d particles, expected %d", what.c_str(), p.numParticles(), e.n);
    if (p.numAttributes() != (int)e.attrs.size()) return c.fail("%s: %d attributes, expected %d", what.c_str(), p.numAttributes(), (int)e.attrs.size());
    if (p.numFixedAttributes() != (int)e.fixed.size()) return c.fail("%s: %d fixed attributes, expected %d", what.c_str(), p.numFixedAttributes(), (int)e.fixed.size());
    for (int f = 0; f < 2; f++) for (size_t i = 0; i < (f ? e.fixed : e.attrs).size(); i++) {
        const EAttr& x = (f ? e.fixed : e.attrs)[i]; ParticleAttribute a; FixedAttribute fa; bool ok;
        if (f) { ok = p.fixedAttributeInfo(x.name.c_str(), fa); a.type = fa.type; a.count = fa.count; } else ok = p.attributeInfo(x.name.c_str(), a);
        if (!ok) return c.fail("%s: %sattribute '%s' is missing", what.c_str(), f ? "fixed " : "", x.name.c_str());
        if (a.type != x.type || a.count != x.count) return c.fail("%s: attribute '%s' is %s[%d], expected %s[%d]", what.c_str(), x.name.c_str(), TypeName(a.type).c_str(), a.count, TypeName(x.type).c_str(), x.count);
        for (size_t j = 0; j < x.rows.size(); j++) {
            const u32* d = f ? (const u32*)p.fixedData<void>(fa) : (const u32*)p.data<void>(a, j);
            for (int k = 0; k < x.count; k++) {
                const Cell& w = x.rows[j][k];
                if (w.kind == 1 && d[k] != w.v) return c.fail("%s: %s%s of particle %d component %d is 0x%08x (%g), expected 0x%08x (%g)", what.c_str(), f ? "fixed " : "", x.name.c_str(), (int)j, k, d[k], bitsf(d[k]), w.v, bitsf(w.v));
                if (w.kind == 2) { const vector<string>& t = f ? p.fixedIndexedStrs(fa) : p.indexedStrs(a); if (d[k] >= t.size() || t[d[k]] != w.s) return c.fail("%s: %s%s of particle %d component %d is token %d for '%s', expected '%s'", what.c_str(), f ? "fixed " : "", x.name.c_str(), (int)j, k, (int)d[k], d[k] < t.size() ? t[d[k]].substr(0, 40).c_str() : "(none)", w.s.substr(0, 40).c_str());
                    int q = f ? p.lookupFixedIndexedStr(fa, w.s.c_str()) : p.lookupIndexedStr(a, w.s.c_str()); if (q < 0 || q >= (int)t.size() || t[q] != w.s) return c.fail("%s: lookup of '%s' in %s gives %d", what.c_str(), w.s.substr(0, 40).c_str(), x.name.c_str(), q); }
            }
        }
    }
}

static const int SNA[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000}, SNW[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536}, SNT[] = {9, 10, 11, 15, 16, 17, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537};
// attributes a<from>..a<to-1>, their kinds by k, in either of two orders
static void addMany(Set& m, int from, int to, int t, bool fixed, bool back) {
    for (int z = 0; z < to - from; z++) { int q = back ? to - 1 - z : from + z, u = t == 4 ? q % 4 : t; ParticleAttributeType ty = u == 0 ? FLOAT : u == 1 ? INT : u == 2 ? VECTOR : INDEXEDSTR; string n = mc::fmt("a%d", q); if (fixed) m.addFixed(n.c_str(), ty, u == 2 ? 3 : 1); else m.addAttr(n.c_str(), ty, u == 2 ? 3 : 1); }
}

// ---------------------------------------------------------------- C12
static bool compat(const Attr& a, const Attr& b) { auto f = [](ParticleAttributeType t) { return t == FLOAT || t == VECTOR; }; return a.count == b.count && (a.type == b.type || (f(a.type) && f(b.type))); }
static int idAttr(const Set& m, const string& n) { int i = m.find(n); if (i < 0 || m.attrs[i].type != INT || m.attrs[i].count != 1) return -1; return i; }
static Expect mergeRef(const Set& b, const Set& d, const string& id0, const string& id1) {
    Expect e = expectOf(b);
    vector<int> from(e.attrs.size());  // attribute of d that gives the values, -1 none, -2 disagreeing
    for (size_t i = 0; i < b.attrs.size(); i++) { int k = d.find(b.attrs[i].name); from[i] = k < 0 ? -1 : compat(b.attrs[i], d.attrs[k]) ? k : -2; }
    for (size_t k = 0; k < d.attrs.size(); k++) if (b.find(d.attrs[k].name) < 0) { e.attrs.push_back({d.attrs[k].name, d.attrs[k].type, d.attrs[k].count, vector<vector<Cell>>(b.n, vector<Cell>(d.attrs[k].count, zero()))}); from.push_back((int)k); }
    for (size_t i = 0; i < b.fixed.size(); i++) { int k = d.findFixed(b.fixed[i].name); if (k < 0) continue; if (compat(b.fixed[i], d.fixed[k])) e.fixed[i].rows = eattr(d.fixed[k]).rows; }
    for (auto& f : d.fixed) if (b.findFixed(f.name) < 0) e.fixed.push_back(eattr(f));
    int b0 = idAttr(b, id0), b1 = idAttr(b, id1), d0 = idAttr(d, id0), d1 = idAttr(d, id1);
    bool match = (b0 >= 0) == (d0 >= 0) && (b1 >= 0) == (d1 >= 0) && (b0 >= 0 || b1 >= 0);
    for (int j = 0; j < d.n; j++) {
        int at = -1;
        if (match) for (int i = 0; i < b.n; i++) if ((b0 < 0 || b.attrs[b0].rows[i][0].v == d.attrs[d0].rows[j][0].v) && (b1 < 0 || b.attrs[b1].rows[i][0].v == d.attrs[d1].rows[j][0].v)) at = i;
        bool fresh = at < 0; if (fresh) { at = e.n++; for (auto& a : e.attrs) a.rows.push_back(vector<Cell>(a.count, zero())); }
        for (size_t i = 0; i < e.attrs.size(); i++) {
            if (from[i] >= 0) for (int k = 0; k < e.attrs[i].count; k++) e.attrs[i].rows[at][k] = cellOf(d.attrs[from[i]], d.attrs[from[i]].rows[j][k]);
            else if (from[i] == -2) for (auto& x : e.attrs[i].rows[at]) x = Cell();
            else if (fresh && e.attrs[i].type == INDEXEDSTR) for (auto& x : e.attrs[i].rows[at]) x = zero();
        }
    }
    return e;
}
struct MCase { Set b, d; string id0, id1; int lb = 0, ld = 0; string str() const { return (lb ? "interleaved " : "") + b.str() + "  <-  " + (ld ? "interleaved " : "") + d.str() + " by '" + id0 + "','" + id1 + "'"; } };
static void mergeCase(const MCase& m, Ctx& c) {
    ParticlesDataMutable *b = buildD(m.b, m.lb), *d = buildD(m.d, m.ld);
    merge(*b, *d, m.id0, m.id1);
    verify(*b, mergeRef(m.b, m.d, m.id0, m.id1), c, "merged");
    if (!c.failed()) { Ctx s; s.sh = c.sh; compareSchema(*d, m.d, s); if (!s.failed()) compareData(*d, m.d, s); if (!s.failed()) compareStrs(*d, m.d, s); if (s.failed()) c.fail("the second set was changed: %s", s.failMsg.c_str()); }
    if (!c.failed()) { // the merged set is an ordinary one afterwards, and does not depend on the second
        d->release(); d = nullptr; Expect e = mergeRef(m.b, m.d, m.id0, m.id1); verify(*b, e, c, "merged, after the second is gone");
        if (!c.failed()) { b->addParticles(3); e.n += 3; verify(*b, e, c, "merged and grown"); }
    }
    b->release(); if (d) d->release();
    c.trace(2); c.transitions(3); c.state(m.b.hash() * 31 + m.d.hash());
}
// injective sequences of length 0..d over values
static const vector<vector<int>>& injective(int d) {
    static std::map<int, vector<vector<int>>> memo; auto& v = memo[d]; if (!v.empty()) return v;
    static const int ID[] = {0, 1, -1, 7, 0x7fffffff};
    vector<vector<int>> cur{{}}; v.push_back({}); for (int l = 0; l < d; l++) { vector<vector<int>> nx; for (auto& s : cur) for (int x : ID) if (std::find(s.begin(), s.end(), x) == s.end()) { auto t = s; t.push_back(x); nx.push_back(t); } v.insert(v.end(), nx.begin(), nx.end()); cur = nx; }
    return v;
}
static void c12(Check& k) {
    k.rule = "Every pair of duplicate-free identifier sequences up to the length, with every choice of identifiers and of which set has them; every pair of attribute sequences up to the length over agreeing and disagreeing attributes; every pair of string tables (also with repeats); every pair of fixed attributes; sequences of merges; merging a set with itself; large sets. All storage layouts. Compared value by value and string by string with a reference merge. Repeated identifiers within one set are outside the property.";
    bool T = thorough();
    {
        const auto& I = injective(T ? 3 : 2); uint64_t a = I.size();
        static const char* IDS[][2] = {{"id", ""}, {"id", "id2"}, {"id2", "id"}, {"", "id"}, {"", ""}, {"nope", ""}, {"nope", "id"}, {"f", "id"}};
        auto gen = [=](uint64_t i) {
            Mixed x(i); MCase m; int w = x(8), has = x(16); m.lb = x(2); m.ld = x(2); const auto &p = I[x(a)], &q = I[x(a)]; m.id0 = IDS[w][0]; m.id1 = IDS[w][1];
            auto side = [&](Set& s, const vector<int>& ids, int h, int sd) { s.addParticles((int)ids.size()); s.addAttr("f", FLOAT, 1); if (h & 1) s.addAttr("id", INT, 1); s.addAttr("v", VECTOR, 3); if (h & 2) s.addAttr("id2", INT, 1); fill(s, sd);
                for (size_t j = 0; j < ids.size(); j++) { if (h & 1) s.attrs[s.find("id")].rows[j][0] = Word(h & 2 ? (u32)(ids[j] & 1) : (u32)ids[j]); if (h & 2) s.attrs[s.find("id2")].rows[j][0] = Word((u32)ids[j]); } };
            side(m.b, p, has & 3, 1); side(m.d, q, has >> 2, 2); return m;
        };
        auto unique = [](const MCase& m) { // identifiers that are used must be unique within each set
            for (const Set* s : {&m.b, &m.d}) { int a0 = idAttr(*s, m.id0), a1 = idAttr(*s, m.id1); if (a0 < 0 && a1 < 0) continue; std::set<std::pair<u32, u32>> u; for (int j = 0; j < s->n; j++) if (!u.insert({a0 < 0 ? 0 : s->attrs[a0].rows[j][0].v, a1 < 0 ? 0 : s->attrs[a1].rows[j][0].v}).second) return false; } return true; };
        k.spaces.push_back({"identifiers", 8 * 16 * 4 * a * a, [=](uint64_t i, Ctx& c) { MCase m = gen(i); if (unique(m)) mergeCase(m, c); }, [=](uint64_t i) { MCase m = gen(i); string s = m.str(); for (const Set* z : {&m.b, &m.d}) { s += " ["; for (int q : {z->find("id"), z->find("id2")}) { if (q >= 0) for (auto& r : z->attrs[q].rows) s += std::to_string((int)r[0].v) + " "; s += "|"; } s += "]"; } return s; }});
    }
    {   // pairs of identifiers: all pairs of boundary values, and pairs that a common way of combining two integers maps to the same number
        static const int V[] = {0, 1, -1, 2, 7, 65536, 0x7fffffff, (int)0x80000000}; const int NV = 8;
        auto hc = [](u32 s, u32 v) { return s ^ (0x9e3779b9u + (s << 6) + (s >> 2) + v); };
        // the second pair: w = 0 any pair; 1 equal boost hash; 2 equal sum; 3 equal xor; 4 equal 31*a+b; 5 swapped; 6 equal low or high half
        auto gen = [=](uint64_t i) {
            Mixed x(i); MCase m; m.lb = x(2); m.ld = x(2); int sw = x(2), w = x(7); u32 a = V[x(NV)], b = V[x(NV)], a2 = V[x(NV)], b2 = V[x(NV)];
            if (w == 1) b2 = (hc(a, b) ^ a2) - (0x9e3779b9u + (a2 << 6) + (a2 >> 2)); else if (w == 2) b2 = a + b - a2; else if (w == 3) b2 = a ^ b ^ a2; else if (w == 4) b2 = 31 * a + b - 31 * a2; else if (w == 5) { a2 = b; b2 = a; } else if (w == 6) { a2 = a ^ (a2 << 16); b2 = b ^ (b2 << 16); }
            auto side = [&](Set& s, vector<std::pair<u32, u32>> ids, int sd) { s.addParticles((int)ids.size()); s.addAttr("a", INT, 1); s.addAttr("v", FLOAT, 1); s.addAttr("b", INT, 1); fill(s, sd); for (size_t j = 0; j < ids.size(); j++) { s.attrs[0].rows[j][0] = Word(ids[j].first); s.attrs[2].rows[j][0] = Word(ids[j].second); } };
            side(m.b, {{a, b}}, 1); side(m.d, {{a2, b2}}, 2); m.id0 = sw ? "b" : "a"; m.id1 = sw ? "a" : "b"; return m; };
        k.spaces.push_back({"identifier pairs", 8ull * 7 * 8 * 8 * 8 * 8, [=](uint64_t i, Ctx& c) { Mixed x(i); x(8); int w = x(7); x(NV * NV); int s2 = x(NV), s3 = x(NV); if ((w >= 1 && w <= 4 && s3) || (w == 5 && (s2 || s3))) return; mergeCase(gen(i), c); }, [=](uint64_t i) { MCase m = gen(i); auto g = [](const Set& s) { return mc::fmt("(%d,%d)", (int)s.attrs[0].rows[0][0].v, (int)s.attrs[2].rows[0][0].v); }; return g(m.b) + " <- " + g(m.d) + " by " + m.id0 + "," + m.id1; }});
    }
    struct AK { const char* n; ParticleAttributeType t; int c; };
    static const AK AA[] = {{"a", FLOAT, 1}, {"a", VECTOR, 3}, {"a", FLOAT, 3}, {"a", INT, 1}, {"a", INDEXEDSTR, 1}, {"b", INDEXEDSTR, 1}, {"b", INDEXEDSTR, 2}, {"b", FLOAT, 40}, {"b", INT, 0}, {"position", VECTOR, 3}, {"c", INT, 17}};
    static const int NA = 11;
    {
        uint64_t q = seqCount(NA, T ? 3 : 2); static const int NS[] = {0, 1, 3};
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); MCase m; int nb = NS[x(3)], nd = NS[x(3)], withId = x(2); m.lb = x(2); m.ld = x(2); vector<int> p = seqDecode(x(q), NA), r = seqDecode(x(T ? seqCount(NA, 2) : q), NA); ok = true;
            auto side = [&](Set& s, const vector<int>& ks, int n, int sd) { s.addParticles(n); if (withId) s.addAttr("id", INT, 1); for (int z : ks) ok &= s.addAttr(AA[z].n, AA[z].t, AA[z].c); for (auto& a : s.attrs) if (a.type == INDEXEDSTR) a.strs = sd == 1 ? vector<string>{"zero", "one", "two"} : vector<string>{"three", "one", "zero", "four"}; fill(s, sd); if (withId) for (int j = 0; j < n; j++) s.attrs[0].rows[j][0] = Word((u32)(sd == 1 ? j : 3 - j)); };
            side(m.b, p, nb, 1); side(m.d, r, nd, 2); m.id0 = withId ? "id" : ""; return m; };
        k.spaces.push_back({"attributes", 3 * 3 * 2 * 4 * q * (T ? seqCount(NA, 2) : q), [=](uint64_t i, Ctx& c) { bool ok; MCase m = gen(i, ok); if (ok) mergeCase(m, c); }, [=](uint64_t i) { bool ok; return gen(i, ok).str(); }});
        auto genF = [=](uint64_t i, bool& ok) { Mixed x(i); MCase m; m.lb = x(2); m.ld = x(2); int n = x(2); uint64_t q2 = seqCount(NA, 2); vector<int> p = seqDecode(x(q2), NA), r = seqDecode(x(q2), NA); ok = true;
            auto side = [&](Set& s, const vector<int>& ks, int sd) { s.addParticles(n * sd); s.addAttr("id", INT, 1); for (int z : ks) ok &= s.addFixed(AA[z].n, AA[z].t, AA[z].c); for (auto& a : s.fixed) if (a.type == INDEXEDSTR) a.strs = sd == 1 ? vector<string>{"zero", "one", "two"} : vector<string>{"three", "one", "zero", "four"}; fill(s, sd); for (int j = 0; j < s.n; j++) s.attrs[0].rows[j][0] = Word((u32)j); };
            side(m.b, p, 1); side(m.d, r, 2); m.id0 = "id"; return m; };
        k.spaces.push_back({"fixed attributes", 8 * seqCount(NA, 2) * seqCount(NA, 2), [=](uint64_t i, Ctx& c) { bool ok; MCase m = genF(i, ok); if (ok) mergeCase(m, c); }, [=](uint64_t i) { bool ok; return genF(i, ok).str(); }});
    }
    {
        static const vector<string> S = {"a", "b", "", "a b", string(300, 'l')}; uint64_t q = seqCount(S.size(), T ? 4 : 3);
        auto gen = [=](uint64_t i) { Mixed x(i); MCase m; int f = x(2), w = x(2) + 1, own = x(3); m.lb = m.ld = x(2); vector<int> p = seqDecode(x(q), S.size()), r = seqDecode(x(q), S.size());
            auto side = [&](Set& s, const vector<int>& t, int sd) { int n = (int)t.size() + (sd == 1); s.addParticles(n); s.addAttr("id", INT, 1); bool has = own == 0 || (own == 1) == (sd == 1); if (has) { if (f) s.addFixed("s", INDEXEDSTR, w); else s.addAttr("s", INDEXEDSTR, w); Attr& a = f ? s.fixed[0] : s.attrs[1]; for (int z : t) a.strs.push_back(S[z]); s.addAttr("u", INDEXEDSTR, 1); Attr& u = s.attrs.back(); u.strs = {"u0", "u1"}; Attr& a2 = f ? s.fixed[0] : s.attrs[1]; for (size_t j = 0; j < a2.rows.size(); j++) for (int z = 0; z < w; z++) a2.rows[j][z] = Word(t.empty() ? 0 : (u32)((j + z) % t.size())); for (auto& rr : u.rows) rr[0] = Word((u32)(sd & 1)); }
                for (int j = 0; j < n; j++) s.attrs[0].rows[j][0] = Word((u32)(sd * 2 + j)); };
            side(m.b, p, 1); side(m.d, r, 2); m.id0 = "id"; return m; };
        k.spaces.push_back({"string tables", 2 * 2 * 3 * 2 * q * q, [=](uint64_t i, Ctx& c) { mergeCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }});
    }
    {   // sequences of merges into one set
        auto pool = []() { vector<Set> v; for (int i = 0; i < 5; i++) { Set s; s.addParticles(i == 3 ? 0 : 2 + i % 2); s.addAttr("id", INT, 1); if (i != 1) s.addAttr("s", INDEXEDSTR, 1); if (i & 1) s.addAttr("f", FLOAT, 2); if (i == 2) s.addAttr("f", INT, 1); if (i > 1) s.addFixed("fs", INDEXEDSTR, 1); for (auto* q : {&s.attrs, &s.fixed}) for (auto& a : *q) if (a.type == INDEXEDSTR) a.strs = {mc::fmt("x%d", i), "common", mc::fmt("y%d", i / 2)}; fill(s, i); for (int j = 0; j < s.n; j++) s.attrs[0].rows[j][0] = Word((u32)(i + 2 * j)); v.push_back(s); } return v; };
        int d = T ? 5 : 4; uint64_t q = seqCount(5, d);
        k.spaces.push_back({"sequences", q * 4, [=](uint64_t i, Ctx& c) { Mixed x(i); int lb = x(2), by = x(2); vector<int> s = seqDecode(x(q), 5); vector<Set> P = pool(); Set cur = P[0]; ParticlesDataMutable* b = buildD(cur, lb);
            for (int z : s) { ParticlesDataMutable* d2 = buildD(P[z], 1 - lb); merge(*b, *d2, by ? "id" : ""); d2->release(); Expect e = mergeRef(cur, P[z], by ? "id" : "", ""); verify(*b, e, c, "merged"); if (c.failed()) break; cur = snapshot(*b); c.transitions(); if (!by && cur.n > 60) break; }
            b->release(); c.trace(); c.state(cur.hash()); }, [=](uint64_t i) { Mixed x(i); x(4); string r; for (int z : seqDecode(x(q), 5)) r += std::to_string(z) + " "; return "merge " + r; }});
    }
    k.spaces.push_back({"with itself", 2 * 2 * 4, [](uint64_t i, Ctx& c) { Mixed x(i); int lay = x(2), by = x(2), n = x(4); Set m = mk({14, 0, 4, 7}, n, 3); for (int j = 0; j < n; j++) m.attrs[0].rows[j][0] = Word((u32)(j * 5)); m.addFixed("fs", INDEXEDSTR, 2); fill(m, 3); for (int j = 0; j < n; j++) m.attrs[0].rows[j][0] = Word((u32)(j * 5)); ParticlesDataMutable* b = buildD(m, lay); merge(*b, *b, by ? "id" : ""); verify(*b, mergeRef(m, m, by ? "id" : "", ""), c, "merged with itself"); b->release(); c.trace(); c.transitions(); c.state(i + 5); }, [](uint64_t i) { return std::to_string(i); }});
    {   // numbers of attributes, widths and string tables beyond a byte or a 16 bit word
        auto gen = [=](uint64_t i) { Mixed x(i); MCase m; m.lb = x(2); m.ld = x(2); int na = SNA[x(21)], t = x(5), ov = x(4), fx = x(2); int nb = i % 3 ? 2 : 0;
            auto side = [&](Set& s, int from, int to, int n, int sd, bool back) { s.addParticles(n); s.addAttr("id", INT, 1); addMany(s, from, to, t, fx, back); for (auto* l : {&s.attrs, &s.fixed}) for (auto& a : *l) if (a.type == INDEXEDSTR) a.strs = sd == 1 ? vector<string>{"zero", "one"} : vector<string>{"three", "one", "zero"}; fill(s, sd); for (int j = 0; j < n; j++) s.attrs[0].rows[j][0] = Word((u32)(j + sd)); };
            side(m.b, 0, na, nb, 1, false); side(m.d, ov == 0 ? 0 : ov == 1 ? na / 2 : ov == 2 ? na : 0, ov == 0 ? na : ov == 1 ? na + na / 2 : ov == 2 ? na + 3 : 1, 2, 2, ov != 3 && na % 2); m.id0 = "id"; return m; };
        k.spaces.push_back({"numbers of attributes", 4ull * 21 * 5 * 4 * 2, [=](uint64_t i, Ctx& c) { mergeCase(gen(i), c); }, [](uint64_t i) { Mixed x(i); x(4); int na = SNA[x(21)]; return mc::fmt("%d attributes, %d", na, (int)x.i); }});
        auto wide = [=](uint64_t i) { Mixed x(i); MCase m; m.lb = x(2); m.ld = x(2); int w = SNW[x(30)], t = x(4), fx = x(2), both = x(3); ParticleAttributeType ty = t == 0 ? FLOAT : t == 1 ? INT : t == 2 ? VECTOR : INDEXEDSTR;
            auto side = [&](Set& s, bool has, int sd) { s.addParticles(2); s.addAttr("id", INT, 1); if (has && fx) s.addFixed("w", ty, w); if (has && !fx) s.addAttr("w", ty, w); s.addAttr("z", FLOAT, 1); for (auto* l : {&s.attrs, &s.fixed}) for (auto& a : *l) if (a.type == INDEXEDSTR) a.strs = sd == 1 ? vector<string>{"zero", "one"} : vector<string>{"three", "one", "zero"}; fill(s, sd); for (int j = 0; j < 2; j++) s.attrs[0].rows[j][0] = Word((u32)(j + sd)); };
            side(m.b, both != 1, 1); side(m.d, both != 2, 2); m.id0 = "id"; return m; };
        k.spaces.push_back({"widths", 4ull * 30 * 4 * 2 * 3, [=](uint64_t i, Ctx& c) { mergeCase(wide(i), c); }, [=](uint64_t i) { return wide(i).str(); }});
        auto tab = [=](uint64_t i) { Mixed x(i); MCase m; m.lb = m.ld = x(2); int nt = SNT[x(23)], fx = x(2), how = x(4); // how: which side is large, and how far the tables agree
            auto side = [&](Set& s, int n, int off, int sd) { s.addParticles(4); s.addAttr("id", INT, 1); s.addAttr("s", INDEXEDSTR, 1); if (fx) s.addFixed("s", INDEXEDSTR, 4); Attr& a = fx ? s.fixed[0] : s.attrs[1]; for (int z = 0; z < n; z++) a.strs.push_back(mc::fmt("%d", how == 3 ? n - 1 - z : z + off)); fill(s, sd); u32 at[] = {0u, (u32)n - 1, (u32)n / 2, (u32)n - 2}; for (int j = 0; j < 4; j++) { s.attrs[0].rows[j][0] = Word((u32)(j + 2 * sd)); if (fx) a.rows[0][j] = Word(at[j]); else a.rows[j][0] = Word(at[j]); } };
            side(m.b, how == 1 ? 3 : nt, 0, 1); side(m.d, how == 2 ? 3 : nt, how == 0 ? 0 : nt / 2, 2); m.id0 = "id"; return m; };
        k.spaces.push_back({"table sizes", 2ull * 23 * 2 * 4, [=](uint64_t i, Ctx& c) { mergeCase(tab(i), c); }, [](uint64_t i) { Mixed x(i); x(2); int n = SNT[x(23)]; return mc::fmt("%d strings, %d", n, (int)x.i); }});
    }
    k.spaces.push_back({"large", 3 * 3 * 4 * 2, [](uint64_t i, Ctx& c) { Mixed x(i); static const int N[] = {100, 1000, 3000}; MCase m; int n = N[x(3)], ov = x(3), st = x(4); m.lb = m.ld = x(2); static const int ST[] = {1, 16, 65536, 0x01000001};
        auto side = [&](Set& s, int off, int sd) { s = mk({14, 1, 4}, n, sd); if (st & 1) s.addAttr("id2", INT, 1); fill(s, sd); for (int j = 0; j < n; j++) { s.attrs[0].rows[j][0] = Word((u32)((sd == 2 ? n - 1 - j : j) + off) * (u32)ST[st]); if (st & 1) s.attrs.back().rows[j][0] = Word((u32)((sd == 2 ? n - 1 - j : j) + off) * 0x9e3779b9u); } };
        side(m.b, 0, 1); side(m.d, ov == 0 ? n : ov == 1 ? n / 2 : 0, 2); m.id0 = "id"; if (st & 1) m.id1 = "id2"; mergeCase(m, c); }, [](uint64_t i) { return std::to_string(i); }});
}

// ---------------------------------------------------------------- C13
typedef std::map<string, string> Names;
static Set cloneRef(const Set& m, int how, const Names* nm) {  // 0 clone with particles, 1 without, 2 schema
    Set r; auto name = [&](const string& s) { if (!nm) return s; auto it = nm->find(s); return it == nm->end() ? s : it->second; };
    for (auto& f : m.fixed) { Attr a = f; a.name = name(f.name); if (how == 2) { a.strs.clear(); for (auto& w : a.rows[0]) w = Word(); } if (r.findFixed(a.name) < 0) r.fixed.push_back(a); }
    if (how != 1) for (auto& f : m.attrs) { Attr a = f; a.name = name(f.name); if (how == 2) { a.strs.clear(); a.rows.clear(); } if (r.find(a.name) < 0) r.attrs.push_back(a); }
    if (how == 0) r.n = m.n;
    return r;
}
static bool collides(const Set& m, const Names& nm) { for (auto* v : {&m.attrs, &m.fixed}) { std::set<string> s; for (auto& a : *v) { auto it = nm.find(a.name); if (!s.insert(it == nm.end() ? a.name : it->second).second) return true; } } return false; }
static void scribble(ParticlesDataMutable& p) {  // change everything that can be changed
    for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; p.attributeInfo(i, a); for (int j = 0; j < p.numParticles(); j++) memset(p.dataWrite<char>(a, j), 0x5a, TypeSize(a.type) * a.count); if (a.type == INDEXEDSTR) { int n = (int)p.indexedStrs(a).size(); for (int k = 0; k < n; k++) p.setIndexedStr(a, k, n > 999 ? mc::fmt("scribbled%d", k).c_str() : "scribbled"); p.registerIndexedStr(a, "another"); } }
    for (int i = 0; i < p.numFixedAttributes(); i++) { FixedAttribute a; p.fixedAttributeInfo(i, a); if (a.count) memset(p.fixedDataWrite<char>(a), 0x5a, TypeSize(a.type) * a.count); if (a.type == INDEXEDSTR) { int n = (int)p.fixedIndexedStrs(a).size(); for (int k = 0; k < n; k++) p.setFixedIndexedStr(a, k, n > 999 ? mc::fmt("scribbled%d", k).c_str() : "scribbled"); p.registerFixedIndexedStr(a, "another"); } }
    p.addAttribute("scribble", FLOAT, 2); p.addFixedAttribute("scribble", INT, 1); p.addParticles(2);
}
static void sameAs(const ParticlesData& p, const Set& m, Ctx& c, const string& what) {
    verify(p, expectOf(m), c, what); if (c.failed()) return;
    for (size_t i = 0; i < m.attrs.size(); i++) { ParticleAttribute a; p.attributeInfo((int)i, a); if (a.name != m.attrs[i].name) return c.fail("%s: attribute %d is '%s', expected '%s'", what.c_str(), (int)i, a.name.c_str(), m.attrs[i].name.c_str()); if (a.type == INDEXEDSTR) for (auto& s : m.attrs[i].strs) { int t = p.lookupIndexedStr(a, s.c_str()); if (t < 0 || t >= (int)p.indexedStrs(a).size() || p.indexedStrs(a)[t] != s) return c.fail("%s: string '%s' of %s is not in the table", what.c_str(), s.substr(0, 30).c_str(), a.name.c_str()); } if (a.type == INDEXEDSTR && m.attrs[i].strs.empty() && !p.indexedStrs(a).empty()) return c.fail("%s: %s has strings", what.c_str(), a.name.c_str()); }
    for (size_t i = 0; i < m.fixed.size(); i++) { FixedAttribute a; p.fixedAttributeInfo((int)i, a); if (a.name != m.fixed[i].name) return c.fail("%s: fixed attribute %d is '%s', expected '%s'", what.c_str(), (int)i, a.name.c_str(), m.fixed[i].name.c_str()); if (a.type == INDEXEDSTR) for (auto& s : m.fixed[i].strs) { int t = p.lookupFixedIndexedStr(a, s.c_str()); if (t < 0 || t >= (int)p.fixedIndexedStrs(a).size() || p.fixedIndexedStrs(a)[t] != s) return c.fail("%s: string '%s' of fixed %s is not in the table", what.c_str(), s.substr(0, 30).c_str(), a.name.c_str()); } }
}
struct CCase { Set m; int lay = 0, how = 0; Names nm; bool map = false; string str() const { string s = (how == 0 ? "clone " : how == 1 ? "clone without particles " : "schema ") + m.str(); for (auto& x : nm) s += " " + x.first + "->" + x.second; return s; } };
static void cloneCase(const CCase& k, Ctx& c) {
    ParticlesDataMutable* p = buildD(k.m, k.lay); const Names* nm = k.map ? &k.nm : nullptr;
    auto mkc = [&]() { return k.how == 2 ? cloneSchema(*p, nm) : clone(*p, k.how == 0, nm); };
    ParticlesDataMutable* q = mkc(); if (!q) { p->release(); return c.fail("clone gives no object"); }
    if (k.map && collides(k.m, k.nm)) { // two attributes asked to have one name: nothing may be corrupted
        Ctx s; s.sh = c.sh; vector<ParticleAttribute> at; for (int i = 0; i < q->numAttributes(); i++) { ParticleAttribute a, b; q->attributeInfo(i, a); if (!q->attributeInfo(a.name.c_str(), b)) c.fail("attribute '%s' of the clone is not found", a.name.c_str()); for (int j = 0; j < q->numParticles(); j++) { volatile u32 z = 0; const u32* d = q->data<u32>(a, j); for (int w = 0; w < a.count; w++) z += d[w]; } }
    } else {
        Set r = cloneRef(k.m, k.how, nm);
        sameAs(*q, r, c, "clone"); if (!c.failed()) sameAs(*p, k.m, c, "original after cloning");
        if (!c.failed()) { scribble(*q); sameAs(*p, k.m, c, "original after changing the clone"); }
        if (!c.failed()) { ParticlesDataMutable* q2 = mkc(); scribble(*p); sameAs(*q2, r, c, "clone after changing the original"); if (!c.failed()) { p->release(); p = nullptr; sameAs(*q2, r, c, "clone after the original is gone"); } q2->release(); }
    }
    if (p) p->release();
    q->release();
    c.trace(2); c.transitions(4); c.state(k.m.hash() ^ k.how ^ mc::hash64(k.str()));
}
static void c13(Check& k) {
    k.rule = "Every sequence of attributes and fixed attributes of an alphabet up to the depth, particle count and layout, cloned with and without particles and as a schema; every renaming over a small alphabet of names including exchanges and collisions; every string table up to a length, also with repeats. Clone and original compared with the model before and after everything in the other is changed or released.";
    bool T = thorough();
    static const int NS[] = {0, 1, 3, 11};
    { uint64_t q = seqCount(NKIND, T ? 3 : 2); auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); int n = NS[x(4)], fx = x(2); vector<int> ks = kindsOf(x(q), allKinds()); ok = distinct(ks); r.m = mk(ok ? ks : vector<int>(), n, 2); if (fx) for (int z : ks) r.m.addFixed(KIND[z].name, KIND[z].t, KIND[z].c); fill(r.m, 4); return r; };
      k.spaces.push_back({"shapes", 3 * 2 * 4 * 2 * q, [=](uint64_t i, Ctx& c) { bool ok; CCase r = gen(i, ok); if (ok) cloneCase(r, c); }, [=](uint64_t i) { bool ok; return gen(i, ok).str(); }}); }
    { // renaming: each of three names of a set mapped to one of five names or left alone
      static const char* N[] = {"a", "b", "s"}; static const char* TO[] = {nullptr, "a", "b", "s", "z", ""};
      auto gen = [=](uint64_t i) { Mixed x(i); CCase r; r.map = true; r.how = x(3); r.lay = x(2); int v = x(4); for (auto n : N) { const char* t = TO[x(6)]; if (t) r.nm[n] = t; } if (x(2)) r.nm["absent"] = "a"; r.m.addParticles(2); if (v & 1) { r.m.addAttr("s", INDEXEDSTR, 2); r.m.addAttr("b", INT, 1); r.m.addAttr("a", FLOAT, 20); } else { r.m.addAttr("a", INT, 1); r.m.addAttr("b", FLOAT, 5); r.m.addAttr("s", INDEXEDSTR, 1); } if (v & 2) { r.m.addFixed("s", INDEXEDSTR, 3); r.m.addFixed("a", FLOAT, 1); r.m.addFixed("b", INT, 9); } fill(r.m, 7); return r; };
      k.spaces.push_back({"renaming", 3 * 2 * 4 * 216 * 2, [=](uint64_t i, Ctx& c) { cloneCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
    { static const vector<string> S = {"a", "b", "", "a b", string(300, 'l')}; uint64_t q = seqCount(S.size(), T ? 5 : 4);
      auto gen = [=](uint64_t i) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); int w = x(2) + 1; vector<int> t = seqDecode(x(q), S.size()); r.m.addParticles((int)t.size() + 1); r.m.addAttr("s", INDEXEDSTR, w); r.m.addAttr("t", INDEXEDSTR, 1); r.m.addFixed("s", INDEXEDSTR, 2); for (auto* a : {&r.m.attrs[0], &r.m.fixed[0]}) { for (int z : t) a->strs.push_back(S[z]); for (size_t j = 0; j < a->rows.size(); j++) for (size_t z = 0; z < a->rows[j].size(); z++) a->rows[j][z] = Word(t.empty() ? 0 : (u32)((j + z * 2 + 1) % t.size())); } r.m.attrs[1].strs = {"other"}; for (auto& z : r.m.attrs[1].rows) z[0] = Word(0); return r; };
      k.spaces.push_back({"string tables", 3 * 2 * 2 * q, [=](uint64_t i, Ctx& c) { cloneCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
    { auto gen = [=](uint64_t i) { Mixed x(i); CCase r; r.lay = x(2); static const int NN[] = {100, 1023, 1024, 5000}; r.m = mk({0, 4, 7, 11, 14}, NN[x(4)], 3); return r; }; k.spaces.push_back({"large", 8, [=](uint64_t i, Ctx& c) { cloneCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
    {   // numbers of attributes, widths and string tables beyond a byte or a 16 bit word
        auto gen = [=](uint64_t i) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); int na = SNA[x(21)], t = x(5), fx = x(2), ren = x(3); r.m.addParticles(2); addMany(r.m, 0, na, t, fx, false); if (!fx) r.m.addFixed("f", INT, 2); fill(r.m, 3); if (ren) { r.map = true; for (int z = 0; z < na; z++) r.nm[mc::fmt("a%d", z)] = ren == 1 ? mc::fmt("b%d", z) : mc::fmt("a%d", (z + 1) % na); } return r; };
        k.spaces.push_back({"numbers of attributes", 3ull * 2 * 21 * 5 * 2 * 3, [=](uint64_t i, Ctx& c) { cloneCase(gen(i), c); }, [](uint64_t i) { Mixed x(i); x(6); int na = SNA[x(21)]; return mc::fmt("%d attributes, %d", na, (int)x.i); }});
        auto wide = [=](uint64_t i) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); int w = SNW[x(30)], t = x(4), fx = x(2); ParticleAttributeType ty = t == 0 ? FLOAT : t == 1 ? INT : t == 2 ? VECTOR : INDEXEDSTR; r.m.addParticles(3); r.m.addAttr("a", INT, 1); if (fx) { r.m.addFixed("w", ty, w); r.m.addFixed("v", ty, 2); } else { r.m.addAttr("w", ty, w); r.m.addAttr("v", ty, 2); } fill(r.m, 3); return r; };
        k.spaces.push_back({"widths", 3ull * 2 * 30 * 4 * 2, [=](uint64_t i, Ctx& c) { cloneCase(wide(i), c); }, [=](uint64_t i) { return wide(i).str(); }});
        auto tab = [=](uint64_t i) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); int nt = SNT[x(23)], fx = x(2), rep = nt <= 1000 ? x(2) : 0; r.m.addParticles(4); r.m.addAttr("s", INDEXEDSTR, 1); if (fx) r.m.addFixed("s", INDEXEDSTR, 4); Attr& a = fx ? r.m.fixed[0] : r.m.attrs[0]; for (int z = 0; z < nt; z++) a.strs.push_back(mc::fmt("%d", rep ? z % (nt - 3) : z)); fill(r.m, 2); u32 at[] = {0u, (u32)nt - 1, (u32)nt / 2, (u32)nt - 2}; for (int j = 0; j < 4; j++) (fx ? a.rows[0][j] : a.rows[j][0]) = Word(at[j]); return r; };
        k.spaces.push_back({"table sizes", 3ull * 2 * 23 * 2 * 2, [=](uint64_t i, Ctx& c) { cloneCase(tab(i), c); }, [](uint64_t i) { Mixed x(i); x(6); int n = SNT[x(23)]; return mc::fmt("%d strings, %d", n, (int)x.i); }});
        static const int NN[] = {15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537};
        auto cnt = [=](uint64_t i) { Mixed x(i); CCase r; r.how = x(3); r.lay = x(2); r.m = mk({0, 14, 4}, NN[x(20)], 3); return r; };
        k.spaces.push_back({"particle counts", 3 * 2 * 20, [=](uint64_t i, Ctx& c) { cloneCase(cnt(i), c); }, [](uint64_t i) { Mixed x(i); x(6); return mc::fmt("%d particles", NN[x(20)]); }});
    }
    // clones of clones
    { uint64_t q = seqCount(3, 4); k.spaces.push_back({"chains", q * 2, [=](uint64_t i, Ctx& c) { Set m = mk({0, 4, 8, 14}, 3, 1); m.addFixed("fs", INDEXEDSTR, 1); m.addFixed("ff", FLOAT, 2); fill(m, 2); ParticlesDataMutable* p = buildD(m, i % 2); for (int h : seqDecode(i / 2, 3)) { ParticlesDataMutable* n = h == 2 ? cloneSchema(*p) : clone(*p, h == 0); m = cloneRef(m, h, nullptr); if (h == 2) for (auto& f : m.fixed) for (int z = 0; z < f.count; z++) { FixedAttribute a; n->fixedAttributeInfo(f.name.c_str(), a); n->fixedDataWrite<u32>(a)[z] = 0; f.rows[0][z] = f.type == INDEXEDSTR ? Word() : Word(0); } p->release(); p = n; sameAs(*p, m, c, "clone of a clone"); if (c.failed()) break; c.transitions(); } p->release(); c.trace(); c.state(i); }, [=](uint64_t i) { string s; for (int h : seqDecode(i / 2, 3)) s += std::to_string(h); return s; }}); }
}

// ---------------------------------------------------------------- C14
struct KCase { Set m; int lay = 0; int nn = 5; double rs = 1.5, ri = 50; int conn = 2; double dens = 5; string str() const { return m.str() + mc::fmt(" neighbours %d radius %g inside %g connections %d density %g", nn, rs, ri, conn, dens); } };
static void clusterCase(const KCase& k, Ctx& c) {
    const Set& m = k.m; int P = m.find("position"), I = m.find("id"), n = m.n;
    bool usable = P >= 0 && I >= 0 && m.attrs[P].count == 3 && (m.attrs[P].type == VECTOR || m.attrs[P].type == FLOAT) && m.attrs[I].type == INT && m.attrs[I].count == 1;
    ParticlesDataMutable* p = buildD(m, k.lay);
    ParticlesDataMutable* r = computeClustering(p, k.nn, k.rs, k.ri, k.conn, k.dens);
    { Ctx s; s.sh = c.sh; compareSchema(*p, m, s); if (!s.failed()) compareData(*p, m, s); if (!s.failed()) compareStrs(*p, m, s); if (s.failed()) c.fail("the input was changed: %s", s.failMsg.c_str()); }
    if (!usable) { if (r) { c.fail("a set without usable position and identifier gives a result"); r->release(); } p->release(); c.trace(); return; }
    if (!r) { p->release(); return c.fail("no result"); }
    if (!c.failed()) { // equal inputs give equal outputs
        ParticlesDataMutable *p2 = buildD(m, k.lay), *r2 = computeClustering(p2, k.nn, k.rs, k.ri, k.conn, k.dens), *r3 = computeClustering(p, k.nn, k.rs, k.ri, k.conn, k.dens);
        Set a = snapshot(*r); for (auto* q : {r2, r3}) { Ctx s; s.sh = c.sh; compareSchema(*q, a, s); if (!s.failed()) compareData(*q, a, s); if (s.failed() && !c.failed()) c.fail("equal inputs give different outputs: %s", s.failMsg.c_str()); }
        p2->release(); r2->release(); r3->release();
    }
    // schema: the source's attributes and the cluster number
    ParticleAttribute cid; vector<ParticleAttribute> at(m.attrs.size()); if (!c.failed() && (!r->attributeInfo("clusterId", cid) || cid.type != INT || cid.count != 1)) c.fail("no cluster number in the result");
    for (size_t i = 0; i < m.attrs.size() && !c.failed(); i++) { if (!r->attributeInfo(m.attrs[i].name.c_str(), at[i])) c.fail("attribute '%s' is missing from the result", m.attrs[i].name.c_str()); else if (m.attrs[i].name != "clusterId" && (at[i].type != m.attrs[i].type || at[i].count != m.attrs[i].count)) c.fail("attribute '%s' changes type or width", m.attrs[i].name.c_str()); }
    auto pos = [&](int i, int x) { return (double)bitsf(m.attrs[P].rows[i][x].v); };
    auto dist = [&](int i, int j) { double s = 0; for (int x = 0; x < 3; x++) { double d = pos(i, x) - pos(j, x); s += d * d; } return sqrt(s); };
    int at0 = 0, N = r->numParticles(); bool vague = false;
    auto copied = [&](size_t a, int i, int o) { const u32* d = r->data<u32>(at[a], o); for (int x = 0; x < m.attrs[a].count; x++) { const Word& w = m.attrs[a].rows[i][x]; if (m.attrs[a].type == INDEXEDSTR) { auto& t = r->indexedStrs(at[a]); if (w.v < m.attrs[a].strs.size() && (d[x] >= t.size() || t[d[x]] != m.attrs[a].strs[w.v])) return false; } else if (d[x] != w.v) return false; } return true; };
    for (int i = 0; i < n && !c.failed(); i++) {
        if (at0 >= N) { c.fail("particle %d is missing from the result of %d", i, N); break; }
        if (r->data<int>(cid, at0)[0] != 0) { c.fail("result %d should start particle %d but has cluster number %d", at0, i, r->data<int>(cid, at0)[0]); break; }
        for (size_t a = 0; a < at.size() && !c.failed(); a++) if (m.attrs[a].name != "clusterId" && !copied(a, i, at0)) c.fail("result %d: %s is not that of particle %d", at0, m.attrs[a].name.c_str(), i);
        if (c.failed()) break;
        at0++;
        // the nearest strictly inside the radius, the particle itself counted
        vector<std::pair<double, int>> near; for (int j = 0; j < n; j++) { double d = dist(i, j); if (fabs(d - k.rs) < 1e-4 * k.rs) { vague = true; } if (d < k.rs) near.push_back({d, j}); }
        std::sort(near.begin(), near.end()); for (size_t z = 1; z < near.size(); z++) if (near[z].first - near[z - 1].first < 1e-4 && (int)z == k.nn) vague = true;
        if (vague) break;
        if ((int)near.size() > k.nn) near.resize(std::max(0, k.nn));
        vector<std::pair<int, int>> nb; int id = (int)m.attrs[I].rows[i][0].v; for (auto& q : near) if ((int)m.attrs[I].rows[q.second][0].v != id) nb.push_back({(int)m.attrs[I].rows[q.second][0].v, q.second});
        std::sort(nb.begin(), nb.end()); if ((int)nb.size() > k.conn) nb.resize(std::max(0, k.conn));
        int number = 1;
        for (auto& q : nb) {
            int j = q.second; double len = dist(i, j), inner = .01 * std::min(100., std::max(0., k.ri)) * k.rs, v;
            if (len < inner || inner >= k.rs) v = k.dens * len; else { double t = 1 - (len - inner) / (k.rs - inner); v = k.dens * len * (3 - 2 * t) * t * t; }
            double eps = 1e-4 * (1 + fabs(v)); int lo = (int)floor(v - eps), hi = (int)floor(v + eps); if (fabs(len - inner) < 1e-5 * k.rs) { lo = std::min(lo, (int)(k.dens * len * .99)); hi = std::max(hi, (int)(k.dens * len * 1.01)); } lo = std::max(lo, 0); hi = std::max(hi, 0);
            int got = 0; // those that follow and are numbered on
            while (got < hi && at0 + got < N && r->data<int>(cid, at0 + got)[0] == number + got) {
                int o = at0 + got; const float* g = r->data<float>(at[P], o);
                int ax = 0; for (int x = 1; x < 3; x++) if (fabs(pos(j, x) - pos(i, x)) > fabs(pos(j, ax) - pos(i, ax))) ax = x;
                double t = (g[ax] - pos(i, ax)) / (pos(j, ax) - pos(i, ax)); string bad;
                if (!(t > -1e-4 && t < 1 + 1e-4)) bad = "position is not on the segment";
                for (size_t a = 0; a < at.size() && bad.empty(); a++) { if (m.attrs[a].name == "clusterId") continue; if (m.attrs[a].type == INT || m.attrs[a].type == INDEXEDSTR) { if (!copied(a, i, o)) bad = m.attrs[a].name + " is not the source particle's"; }
                    else for (int x = 0; x < m.attrs[a].count; x++) { double s = bitsf(m.attrs[a].rows[i][x].v), e = bitsf(m.attrs[a].rows[j][x].v), w = s + t * (e - s), gg = r->data<float>(at[a], o)[x]; if (!(fabs(gg - w) <= 1e-3 * (fabs(s) + fabs(e) + 1e-6))) bad = m.attrs[a].name + mc::fmt(" component %d is %g, expected %g at fraction %g", x, gg, w, t); } }
                if (!bad.empty()) { if (got >= lo) break; c.fail("result %d, between particles %d and %d: %s", o, i, j, bad.c_str()); break; }
                got++;
            }
            if (c.failed()) break;
            if (got < lo) { c.fail("%d particles between %d and %d, expected %d", got, i, j, lo); break; }
            at0 += got; number += got;
        }
    }
    if (!c.failed() && !vague && at0 != N) c.fail("the result has %d particles, expected %d", N, at0);
    p->release(); r->release(); c.trace(3); c.transitions(N + 1); c.state(m.hash() ^ mc::hash64(k.str()));
}
static void c14(Check& k) {
    k.rule = "Every subset of a set of irregularly placed points up to the size, identifiers in several orders, and every combination of neighbour count, search and inside radius, connections and density from boundary alphabets, in both layouts and with every attribute set of an alphabet; sets that cannot be clustered; larger sets. The result is compared with an independent reference (which particles, in which order, how many between which neighbours, every value interpolated at one fraction). Cases whose nearest neighbours are tied or on the radius are skipped.";
    bool T = thorough();
    static const float PT[][3] = {{0, 0, 0}, {1.03f, .02f, -.01f}, {-.02f, 1.31f, .05f}, {.47f, .43f, .55f}, {2.21f, -.3f, .1f}, {.01f, -.02f, .31f}, {-1.7f, .9f, -.8f}, {1.05f, 1.15f, .95f}, {5, 5, 5}};
    static const int NP = 9; static const int NB[] = {0, 1, 2, 3, 5, 50}; static const double RS[] = {.4, 1.2, 2.5, 100}; static const double RI[] = {-20, 0, 35, 100, 150}; static const int CN[] = {0, 1, 2, 100, 0x7fffffff}; static const double DN[] = {0, 1, 4, 11.5};
    vector<int> subs; for (int s = 0; s < 1 << NP; s++) if (__builtin_popcount(s) <= (T ? 6 : 4)) subs.push_back(s);
    static const vector<int> SUB = subs;
    auto base = [](int s, int ord, const vector<int>& extra) { vector<int> pts; for (int i = 0; i < NP; i++) if (s >> i & 1) pts.push_back(i); if (ord & 1) std::reverse(pts.begin(), pts.end()); int n = (int)pts.size(); vector<int> ks = {0, 14}; ks.insert(ks.begin() + 1, extra.begin(), extra.end()); Set m = mk(ks, n, 3); int P = m.find("position"), I = m.find("id"); static const int MUL[] = {1, -3, 100000, 7}; for (int j = 0; j < n; j++) { for (int x = 0; x < 3; x++) m.attrs[P].rows[j][x] = Word(fbits(PT[pts[j]][x])); m.attrs[I].rows[j][0] = Word((u32)(((j * 5) % 9 + 1) * MUL[ord / 2])); } return m; };
    { auto gen = [=](uint64_t i) { Mixed x(i); KCase r; r.nn = NB[x(6)]; r.rs = RS[x(4)]; r.ri = RI[x(5)]; r.conn = CN[x(5)]; r.dens = DN[x(4)]; r.lay = x(2); int s = SUB[x(SUB.size())]; int ord = (int)((s * 7 + i / 3) % 8); r.m = base(s, ord, {1, 4}); return r; };
      uint64_t N = (uint64_t)6 * 4 * 5 * 5 * 4 * 2 * SUB.size();
      k.spaces.push_back({"parameters", T ? N : N / 4, [=](uint64_t i, Ctx& c) { clusterCase(gen(T ? i : i * 4 + (i / 600 + i / 7) % 4), c); }, [=](uint64_t i) { return gen(T ? i : i * 4 + (i / 600 + i / 7) % 4).str(); }}); }
    { vector<int> al; for (int i = 0; i < NKIND; i++) if (i != 0 && i != 14) al.push_back(i); static const vector<int> AL = al; uint64_t q = seqCount(AL.size(), 2);
      auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); KCase r; r.lay = x(2); r.conn = 1 + x(2) * 9; vector<int> e = kindsOf(x(q), AL); ok = distinct(e); r.m = base(0xb7, (int)(i % 8), ok ? e : vector<int>()); r.rs = 2.2; r.dens = 3; return r; };
      k.spaces.push_back({"attributes", 4 * q, [=](uint64_t i, Ctx& c) { bool ok; KCase r = gen(i, ok); if (ok) clusterCase(r, c); }, [=](uint64_t i) { bool ok; return gen(i, ok).str(); }}); }
    { // which sets can be clustered: type, width and presence of the two attributes, a cluster number already there
      auto gen = [=](uint64_t i) { Mixed x(i); KCase r; r.lay = x(2); static const ParticleAttributeType TT[] = {VECTOR, FLOAT, INT, INDEXEDSTR}; int pt = x(4), pc = x(4) + 1, hp = x(2), it = x(4), ic = x(2) + 1, hi = x(2), cl = x(4), ord = x(2); if (pt == 0) pc = 3; Set m; m.addParticles(3); if (ord) { if (hi) m.addAttr("id", TT[it], ic); } if (hp) m.addAttr("position", TT[pt], pc); if (cl == 1) m.addAttr("clusterId", INT, 1); if (cl == 2) m.addAttr("clusterId", FLOAT, 3); if (cl == 3) m.addAttr("clusterId", INDEXEDSTR, 1); if (!ord && hi) m.addAttr("id", TT[it], ic); m.addAttr("w", FLOAT, 2); fill(m, 1); for (auto& a : m.attrs) if (a.name == "position") for (int j = 0; j < 3; j++) for (int z = 0; z < a.count; z++) if (a.type != INDEXEDSTR) a.rows[j][z] = Word(fbits(PT[j + 1][z % 3])); for (auto& a : m.attrs) if (a.name == "id" && a.type == INT) for (int j = 0; j < 3; j++) a.rows[j][0] = Word((u32)(j + 1)); r.m = m; r.rs = 3; return r; };
      k.spaces.push_back({"usable sets", 2 * 4 * 4 * 2 * 4 * 2 * 2 * 4 * 2, [=](uint64_t i, Ctx& c) { clusterCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
    { // string tables with repeats, equal identifiers never neighbour each other
      static const vector<string> S = {"a", "b", ""}; uint64_t q = seqCount(3, 4);
      auto gen = [=](uint64_t i) { Mixed x(i); KCase r; r.lay = x(2); r.m = base(0x0f, x(8), {4}); Attr& a = r.m.attrs[r.m.find("s")]; vector<int> t = seqDecode(x(q), 3); a.strs.clear(); for (int z : t) a.strs.push_back(S[z]); for (int j = 0; j < r.m.n; j++) a.rows[j][0] = Word(t.empty() ? 0 : (u32)(j % t.size())); r.rs = 2; return r; };
      k.spaces.push_back({"string tables", 2 * 8 * q, [=](uint64_t i, Ctx& c) { clusterCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
    {   // numbers of attributes, widths and string tables beyond a byte or a 16 bit word
        auto gen = [=](uint64_t i) { Mixed x(i); KCase r; r.lay = x(2); int what = x(3), w = x(30), t = x(4), wh = x(2); r.m = base(0x97, x(2) * 4, {}); r.rs = 2.2; r.dens = 3; ParticleAttributeType ty = t == 0 ? FLOAT : t == 1 ? INT : t == 2 ? VECTOR : INDEXEDSTR; Set keep = r.m;
            if (what == 0) addMany(r.m, 0, SNA[w % 21], t + (wh && !t ? 4 : 0), false, wh); else if (what == 1) r.m.addAttr("w", ty, SNW[w]); else { r.m.addAttr("s", INDEXEDSTR, 1); for (int z = 0; z < SNT[w % 23]; z++) r.m.attrs.back().strs.push_back(mc::fmt("%d", z)); }
            fill(r.m, 3); for (size_t z = 0; z < keep.attrs.size(); z++) r.m.attrs[z].rows = keep.attrs[z].rows; if (what == 2) { int nt = SNT[w % 23]; u32 at[] = {0u, (u32)nt - 1, (u32)nt / 2, (u32)nt - 2}; for (int j = 0; j < r.m.n; j++) r.m.attrs.back().rows[j][0] = Word(at[j % 4]); } return r; };
        k.spaces.push_back({"sizes", 2 * 3 * 30 * 4 * 2 * 2, [=](uint64_t i, Ctx& c) { clusterCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }});
    }
    { auto gen = [=](uint64_t i) { Mixed x(i); static const int N[] = {20, 60, 200}; KCase r; r.lay = x(2); int n = N[x(3)]; r.nn = NB[1 + x(5)]; r.conn = CN[1 + x(3)]; r.ri = RI[x(5)]; r.rs = x(2) ? .8 : 1.7; r.m = mk({14, 3, 0, 12}, n, 2); u32 z = 12345; for (int j = 0; j < n; j++) { for (int q = 0; q < 3; q++) { z = z * 1664525u + 1013904223u; r.m.attrs[2].rows[j][q] = Word(fbits((z >> 8) * (3.f / (1 << 24)))); } r.m.attrs[0].rows[j][0] = Word((u32)((j * 37) % 1009)); } return r; };
      k.spaces.push_back({"larger sets", 2 * 3 * 5 * 3 * 5 * 2, [=](uint64_t i, Ctx& c) { clusterCase(gen(i), c); }, [=](uint64_t i) { return gen(i).str(); }}); }
}

int main(int argc, char** argv) {
    Check k; const char* p = getenv("MC_PROP"); k.property = p ? p : "C12"; k.caseTimeout = 30;
    if (k.property == "C12") c12(k); else if (k.property == "C13") c13(k); else if (k.property == "C14") c14(k); else return 3;
    return mc::drive(k, argc, argv);
}
