// C01 (container), C02 (interleaved container), C03 (iteration), C04 (indexed strings):
// every operation sequence up to a depth, executed on the real particle set and on the model.
#include "model.h"
using namespace model;
using mc::Ctx;

typedef ParticlesDataMutable* (*Maker)();

struct AttrDef { const char* name; ParticleAttributeType t; int c; };
static const AttrDef ADEF[] = {{"position", VECTOR, 3}, {"a", FLOAT, 1}, {"i", INT, 2}, {"s", INDEXEDSTR, 1}, {"a", INT, 3}, {"w5", FLOAT, 5}, {"", FLOAT, 2}, {"z", FLOAT, 0}};
static const AttrDef FDEF[] = {{"fi", INT, 2}, {"a", VECTOR, 3}, {"fs", INDEXEDSTR, 1}, {"fi", FLOAT, 1}, {"big", FLOAT, 20}};

struct World {
    ParticlesDataMutable* p; Set m; Ctx& c; u32 next = 1; bool checkEach = false;
    vector<ParticleAttribute> h; vector<FixedAttribute> fh;  // handles as returned when added
    World(Maker mk, Ctx& c) : p(mk()), c(c) {}
    ~World() { p->release(); }
    u32 fresh() { return (next++) * 0x01000193u ^ 0x3f000000u; }
    void addAttr(const AttrDef& d) {
        bool ok = m.addAttr(d.name, d.t, d.c);
        ParticleAttribute a = p->addAttribute(d.name, d.t, d.c);
        if (ok) {
            if (a.name != d.name || a.type != d.t || a.count != d.c) return c.fail("addAttribute returns a handle for %s %s[%d]", a.name.c_str(), TypeName(a.type).c_str(), a.count);
            h.push_back(a);
        } else if (a.type != NONE && a.attributeIndex >= 0 && false) return;
    }
    void addFixed(const AttrDef& d) {
        bool ok = m.addFixed(d.name, d.t, d.c);
        FixedAttribute a = p->addFixedAttribute(d.name, d.t, d.c);
        if (ok) {
            if (a.name != d.name || a.type != d.t || a.count != d.c) return c.fail("addFixedAttribute returns a handle for %s", a.name.c_str());
            fh.push_back(a);
        }
    }
    void addOne() {
        ParticleIndex i = p->addParticle();
        if (i != (ParticleIndex)m.n) return c.fail("addParticle returns %d with %d particles present", (int)i, m.n);
        m.addParticles(1);
    }
    // add k and write the new ones through the returned iterator
    void addMany(int k, bool write) {
        int first = m.n;
        ParticlesDataMutable::iterator it = p->addParticles(k);
        m.addParticles(k);
        if (k == 0) return;
        if (!it.valid() || (int)it.index != first) return c.fail("addParticles(%d) returns an iterator at %d, expected %d", k, (int)it.index, first);
        if (!write) return;
        vector<ParticleAccessor> acc; for (auto& a : h) acc.push_back(ParticleAccessor(a));
        for (auto& a : acc) it.addAccessor(a);
        int j = first;
        for (auto end = p->end(); it != end; ++it, ++j) {
            if (j >= m.n) return c.fail("iterator of addParticles runs past the end");
            for (size_t i = 0; i < h.size(); i++) for (int q = 0; q < h[i].count; q++) { u32 v = fresh(); acc[i].raw<u32>(it)[q] = v; m.attrs[i].rows[j][q] = Word(v); }
        }
        if (j != m.n) return c.fail("iterator of addParticles(%d) covers %d particles", k, j - first);
    }
    void writeSet(int from, int to, int how) {
        for (int j = from; j < to; j++) for (size_t i = 0; i < h.size(); i++) {
            vector<u32> v(h[i].count); for (auto& x : v) x = fresh();
            if (how == 0) p->set(h[i], j, v.data());
            else { u32* d = (u32*)p->dataWrite<void>(h[i], j); if (!d) return c.fail("dataWrite(%d) is null", j); for (int q = 0; q < h[i].count; q++) d[q] = v[q]; }
            for (int q = 0; q < h[i].count; q++) m.attrs[i].rows[j][q] = Word(v[q]);
        }
    }
    void writeIter() {
        ParticlesDataMutable::iterator it = p->begin();
        vector<ParticleAccessor> acc; for (auto& a : h) acc.push_back(ParticleAccessor(a));
        for (auto& a : acc) it.addAccessor(a);
        int j = 0;
        for (auto end = p->end(); it != end; ++it, ++j) {
            if (j >= m.n) return c.fail("iterator runs past the end");
            for (size_t i = 0; i < h.size(); i++) for (int q = 0; q < h[i].count; q++) { u32 v = fresh(); acc[i].raw<u32>(it)[q] = v; m.attrs[i].rows[j][q] = Word(v); }
        }
        if (j != m.n) return c.fail("iterator covers %d of %d particles", j, m.n);
    }
    void writeFixed(int how) {
        for (size_t i = 0; i < fh.size(); i++) {
            vector<u32> v(fh[i].count); for (auto& x : v) x = fresh();
            if (how == 0) p->setFixed(fh[i], v.data()); else memcpy(p->fixedDataWrite<void>(fh[i]), v.data(), 4 * v.size());
            for (int q = 0; q < fh[i].count; q++) m.fixed[i].rows[0][q] = Word(v[q]);
        }
    }
    void regStr(const char* s) {
        for (size_t i = 0; i < h.size(); i++) if (h[i].type == INDEXEDSTR) {
            int t = p->registerIndexedStr(h[i], s); auto& st = m.attrs[i].strs; size_t k = 0; while (k < st.size() && st[k] != s) k++;
            if (k == st.size()) st.push_back(s);
            if (t < 0 || t >= (int)st.size() || st[t] != s) return c.fail("registerIndexedStr gives token %d", t);
        }
        for (size_t i = 0; i < fh.size(); i++) if (fh[i].type == INDEXEDSTR) {
            int t = p->registerFixedIndexedStr(fh[i], s); auto& st = m.fixed[i].strs; size_t k = 0; while (k < st.size() && st[k] != s) k++;
            if (k == st.size()) st.push_back(s);
            if (t < 0 || t >= (int)st.size() || st[t] != s) return c.fail("registerFixedIndexedStr gives token %d", t);
        }
    }
    void sort() { p->sort(); }
    void badSet() {  // writing past the end is refused and changes nothing
        u32 z[32] = {0};
        for (auto& a : h) { p->set(a, m.n, z); p->set(a, m.n + 1000, z); if (p->data<void>(a, m.n)) return c.fail("data past the last particle is not null"); }
    }
};

struct Op { string name; std::function<void(World&)> f; };

static vector<Op> ops(int kind) {
    vector<Op> o;
    auto A = [&](int i) { o.push_back({string("addAttribute(") + ADEF[i].name + "," + TypeName(ADEF[i].t) + std::to_string(ADEF[i].c) + ")", [i](World& w) { w.addAttr(ADEF[i]); }}); };
    auto F = [&](int i) { o.push_back({string("addFixedAttribute(") + FDEF[i].name + "," + TypeName(FDEF[i].t) + std::to_string(FDEF[i].c) + ")", [i](World& w) { w.addFixed(FDEF[i]); }}); };
    auto P1 = [&](int k) { o.push_back({"addParticle x" + std::to_string(k), [k](World& w) { for (int i = 0; i < k && !w.c.failed(); i++) w.addOne(); }}); };
    auto PN = [&](int k, bool wr) { o.push_back({"addParticles(" + std::to_string(k) + (wr ? ")+write" : ")"), [k, wr](World& w) { w.addMany(k, wr); }}); };
    auto W = [&](const char* n, std::function<void(World&)> f) { o.push_back({n, f}); };
    if (kind == 0) {  // schema and data
        A(0); A(1); A(2); A(3); A(4); F(0); F(1); F(2);
        P1(1); PN(2, true); PN(0, false);
        W("write all with set", [](World& w) { w.writeSet(0, w.m.n, 0); w.writeFixed(0); });
        W("write last through pointer", [](World& w) { if (w.m.n) w.writeSet(w.m.n - 1, w.m.n, 1); w.writeFixed(1); });
        W("write all through iterator", [](World& w) { w.writeIter(); });
        W("sort", [](World& w) { w.sort(); });
        W("register strings", [](World& w) { w.regStr("x"); w.regStr(""); w.regStr("y"); });
    } else {  // growth
        A(1); A(0); A(6); A(7);
        P1(1); P1(4); P1(11); PN(1, true); PN(3, true); PN(7, true); PN(10, true); PN(0, false);
        W("write all with set", [](World& w) { w.writeSet(0, w.m.n, 0); });
        W("bad index", [](World& w) { w.badSet(); });
        F(4);
    }
    return o;
}

static string seqStr(const vector<Op>& o, uint64_t i) { string s; for (int k : mc::seqDecode(i, o.size())) s += o[k].name + "; "; return s; }

static mc::Space seqSpace(const char* name, Maker mk, int kind, int depth, int cmp, vector<int> prefix = {}) {
    auto o = std::make_shared<vector<Op>>(ops(kind));
    auto run = [=](uint64_t i, Ctx& c) {
        World w(mk, c);
        auto seq = mc::seqDecode(i, o->size());
        vector<int> all(prefix); all.insert(all.end(), seq.begin(), seq.end());
        for (int k : all) { (*o)[k].f(w); if (c.failed()) return; }
        c.transitions(seq.size()); c.trace(); c.state(w.m.hash());
        compareSet(*w.p, w.m, c, cmp);
    };
    return {name, mc::seqCount(o->size(), depth), run, [=](uint64_t i) { string s; for (int k : prefix) s += (*o)[k].name + "; "; return s + seqStr(*o, i); }};
}

// every size 0..N reached by one call or by single additions, with attributes added before or after
static mc::Space sizeSpace(const char* name, Maker mk, int cmp, bool big) {
    auto sizes = std::make_shared<vector<int>>();
    for (int i = 0; i <= (big ? 600 : 120); i++) sizes->push_back(i);
    for (int s : {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 65535, 65536, 65537}) sizes->push_back(s);
    if (big) for (int s : {100000, 131072, 262145, 1000003}) sizes->push_back(s);
    auto run = [=](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int how = d(4), n = (*sizes)[d(sizes->size())];
        World w(mk, c);
        if (how & 1) { w.addAttr(ADEF[0]); w.addAttr(ADEF[2]); }
        if (how & 2) w.addMany(n, true); else for (int k = 0; k < n && !c.failed(); k++) w.addOne();
        if (!(how & 1)) { w.addAttr(ADEF[0]); w.addAttr(ADEF[2]); }
        if (c.failed()) return;
        w.writeSet(0, w.m.n, n & 1);
        w.addMany(1, true); w.addOne();
        c.transitions(n + 3); c.trace(); c.state(w.m.hash());
        compareSet(*w.p, w.m, c, cmp);
    };
    return {name, sizes->size() * 4, run, [=](uint64_t i) { mc::Mixed d(i); int how = d(4), n = (*sizes)[d(sizes->size())]; return mc::fmt("%d particles added %s, attributes added %s", n, how & 2 ? "at once" : "one by one", how & 1 ? "before" : "after"); }};
}

// many attributes, odd names and widths
static mc::Space wideSpace(const char* name, Maker mk, int cmp) {
    auto run = [=](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int na = (int[]){1, 2, 7, 16, 17, 64, 257}[d(7)], wid = (int[]){1, 2, 3, 4, 16, 17, 33, 300}[d(8)]; int t = 1 + d(4); bool fixed = d(2);
        World w(mk, c);
        for (int k = 0; k < na; k++) {
            string nm = k % 3 == 0 ? "n" + std::to_string(k) : k % 3 == 1 ? string(k % 40 + 1, 'x') + std::to_string(k) : "sp ace\xc3\xa9\t" + std::to_string(k);
            AttrDef a{nm.c_str(), (ParticleAttributeType)(1 + (t - 1 + k) % 4), (k % 2) ? wid : 1 + k % 5};
            if (fixed) w.addFixed(a); else w.addAttr(a);
            if (k == na / 2) w.addMany(5, false);
        }
        w.addMany(7, true); w.writeSet(0, w.m.n, 0); w.writeFixed(wid & 1);
        c.transitions(na + 3); c.trace(); c.state(w.m.hash());
        compareSet(*w.p, w.m, c, cmp);
    };
    return {name, 7 * 8 * 4 * 2, run, [=](uint64_t i) { mc::Mixed d(i); int a = d(7), b = d(8), t = d(4), f = d(2); return mc::fmt("attribute-count class %d, width class %d, type %d, %s", a, b, t + 1, f ? "fixed" : "particle"); }};
}

// ---------------------------------------------------------------- indexed strings
static const string POOL[] = {"a", "b", "", "c"};
struct StrOp { int kind, tok, s; };  // 0 register, 1 set
static mc::Space strSpace(const char* name, Maker mk, int fixed, int depth, int poolN, int toks) {
    auto o = std::make_shared<vector<StrOp>>();
    for (int s = 0; s < poolN; s++) o->push_back({0, 0, s});
    for (int t = -1; t <= toks; t++) for (int s = 0; s < poolN; s++) { if ((t == -1 || t == toks) && s) continue; o->push_back({1, t, s}); }
    auto nm = [=](int k) { auto& x = (*o)[k]; return x.kind == 0 ? "register('" + POOL[x.s] + "')" : mc::fmt("set(%d,'%s')", x.tok, POOL[x.s].c_str()); };
    auto run = [=](uint64_t i, Ctx& c) {
        ParticlesDataMutable* p = mk();
        // a neighbour attribute of each kind must never be disturbed
        ParticleAttribute n1 = p->addAttribute("other", INDEXEDSTR, 1), a, n2; FixedAttribute fa, fn = p->addFixedAttribute("fother", INDEXEDSTR, 1);
        if (fixed) fa = p->addFixedAttribute("fs", INDEXEDSTR, 1); else a = p->addAttribute("s", INDEXEDSTR, 1);
        n2 = p->addAttribute("other2", INDEXEDSTR, 1);
        p->registerIndexedStr(n1, "keep"); p->registerFixedIndexedStr(fn, "fkeep"); p->registerIndexedStr(n2, "keep2");
        vector<string> tab;
        for (int k : mc::seqDecode(i, o->size())) {
            auto& x = (*o)[k]; const string& s = POOL[x.s];
            if (x.kind == 0) {
                int had = -1; for (size_t q = 0; q < tab.size(); q++) if (tab[q] == s) had = (int)q;
                int t = fixed ? p->registerFixedIndexedStr(fa, s.c_str()) : p->registerIndexedStr(a, s.c_str());
                if (had < 0) { if (t != (int)tab.size()) { c.fail("a new string '%s' gets token %d with %d strings present", s.c_str(), t, (int)tab.size()); break; } tab.push_back(s); }
                else if (t < 0 || t >= (int)tab.size() || tab[t] != s) { c.fail("a string already present ('%s') gets token %d", s.c_str(), t); break; }
            } else {
                if (fixed) p->setFixedIndexedStr(fa, x.tok, s.c_str()); else p->setIndexedStr(a, x.tok, s.c_str());
                if (x.tok >= 0 && x.tok < (int)tab.size()) tab[x.tok] = s;
            }
            c.transitions();
            // after every step
            const vector<string>& got = fixed ? p->fixedIndexedStrs(fa) : p->indexedStrs(a);
            if (got != tab) { c.fail("string table differs after %s", nm(k).c_str()); break; }
            for (auto& q : POOL) {
                bool present = std::find(tab.begin(), tab.end(), q) != tab.end();
                int t = fixed ? p->lookupFixedIndexedStr(fa, q.c_str()) : p->lookupIndexedStr(a, q.c_str());
                if (present ? (t < 0 || t >= (int)tab.size() || tab[t] != q) : t != -1) { c.fail("after %s, lookup('%s') gives %d (%s)", nm(k).c_str(), q.c_str(), t, present ? "present" : "absent"); break; }
            }
            if (c.failed()) break;
        }
        if (!c.failed() && (p->indexedStrs(n1) != vector<string>{"keep"} || p->indexedStrs(n2) != vector<string>{"keep2"} || p->fixedIndexedStrs(fn) != vector<string>{"fkeep"} || p->lookupIndexedStr(n2, "keep2") != 0 || p->lookupIndexedStr(n1, "a") != -1))
            c.fail("string table of another attribute changed");
        uint64_t h = fixed; for (auto& s : tab) h = mc::hash64(s, h) * 7 + 1;
        c.state(h); c.trace();
        p->release();
    };
    return {name, mc::seqCount(o->size(), depth), run, [=](uint64_t i) { string s; for (int k : mc::seqDecode(i, o->size())) s += nm(k) + "; "; return s; }};
}
// large tables, long and binary strings
static mc::Space strBig(const char* name, Maker mk) {
    auto run = [=](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int n = (int[]){1, 2, 255, 256, 257, 1000, 32768, 65536, 65537, 70000}[d(10)], len = (int[]){0, 1, 15, 16, 31, 32, 255, 256, 4096}[d(9)]; int fixed = d(2);
        if (len > 300 && n > 1000) return;
        ParticlesDataMutable* p = mk(); ParticleAttribute a; FixedAttribute fa;
        if (fixed) fa = p->addFixedAttribute("fs", INDEXEDSTR, 1); else a = p->addAttribute("s", INDEXEDSTR, 1);
        auto S = [&](int k) { return string(len, k % 2 ? '\xe9' : 'q') + std::to_string(k); };
        auto reg = [&](const string& s) { return fixed ? p->registerFixedIndexedStr(fa, s.c_str()) : p->registerIndexedStr(a, s.c_str()); };
        auto look = [&](const string& s) { return fixed ? p->lookupFixedIndexedStr(fa, s.c_str()) : p->lookupIndexedStr(a, s.c_str()); };
        for (int k = 0; k < n && !c.failed(); k++) { int t = reg(S(k)); if (t != k) c.fail("string %d gets token %d", k, t); }
        for (int k = 0; k < n && !c.failed(); k++) if (look(S(k)) != k || reg(S(k)) != k) c.fail("string %d is not found again", k);
        const auto& tab = fixed ? p->fixedIndexedStrs(fa) : p->indexedStrs(a);
        if (!c.failed() && (int)tab.size() != n) c.fail("table holds %d strings, expected %d", (int)tab.size(), n);
        for (int k = 0; k < n && !c.failed(); k++) if (tab[k] != S(k)) c.fail("token %d stands for the wrong string", k);
        if (!c.failed() && look("absent") != -1) c.fail("absent string found");
        c.transitions(2 * n); c.trace(); c.state(i + 1);
        p->release();
    };
    return {name, 10 * 9 * 2, run, [](uint64_t i) { mc::Mixed d(i); int a = d(10), b = d(9), f = d(2); return mc::fmt("count class %d, length class %d, %s", a, b, f ? "fixed" : "particle"); }};
}

// ---------------------------------------------------------------- iterators
// all iterator-operation sequences over n particles
static mc::Space iterOps(const char* name, Maker mk, int depth) {
    static const char* N[] = {"++it", "it++", "copy", "assign", "re-add accessor", "fresh begin", "compare end", "add two particles and begin again", "assign from another set and back"};
    auto run = [=](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int n = d(5), mut = d(2); uint64_t rest = d.i;
        Set m; m.addAttr("position", VECTOR, 3); m.addAttr("k", INT, 1); m.addParticles(n);
        for (int j = 0; j < n; j++) { for (int k = 0; k < 3; k++) m.attrs[0].rows[j][k] = Word(fbits(j * 10 + k)); m.attrs[1].rows[j][0] = Word(100 + j); }
        ParticlesDataMutable* p = build(m, mk());
        ParticleAttribute pa, ka; p->attributeInfo("position", pa); p->attributeInfo("k", ka);
        ParticlesDataMutable* other = mk(); other->addAttribute("o", FLOAT, 1); other->addParticles(2); // a set of another size
        auto go = [&](auto it, auto getBegin, auto getEnd, auto otherBegin) {
            auto begin = getBegin(); auto end = getEnd();
            ParticleAccessor acc(ka), accP(pa); it = begin; it.addAccessor(acc); it.addAccessor(accP);
            int pos = 0;
            auto chk = [&](const char* op) {
                bool atEnd = !(it != end);
                if (atEnd != (pos >= n)) { c.fail("after %s at position %d of %d the iterator %s the end", op, pos, n, atEnd ? "is at" : "is not at"); return; }
                if ((it == end) != (pos >= n)) { c.fail("after %s == and != disagree at the end", op); return; }
                if (it.valid() != (pos < n)) { c.fail("after %s valid() is %d at position %d of %d", op, it.valid(), pos, n); return; }
                if (pos < n) {
                    if ((int)it.index != pos) { c.fail("after %s index is %d, expected %d", op, (int)it.index, pos); return; }
                    if (acc.template raw<int>(it)[0] != 100 + pos) { c.fail("after %s accessor reads %d", op, acc.template raw<int>(it)[0]); return; }
                    if (accP.template data<DataV>(it)[2] != pos * 10 + 2.f) { c.fail("after %s vector accessor wrong", op); return; }
                }
            };
            chk("begin");
            for (int k : mc::seqDecode(rest, 9)) {
                if (c.failed()) return;
                switch (k) {
                case 0: if (pos < n) { ++it; pos++; } break;
                case 1: if (pos < n) { auto old = it++; if ((int)old.index != pos || !old.valid()) c.fail("it++ does not return the old position"); pos++; } break;
                case 2: { auto cp(it); if ((pos < n) && !(cp == it)) c.fail("a copy differs from its original"); auto cp2(cp); if (pos < n) { ++cp2; if ((int)it.index != pos) c.fail("advancing a copy moved the original"); } break; }
                case 3: { auto cp = begin; cp = it; if ((pos < n) && (!(cp == it) || cp != it)) c.fail("an assigned iterator differs from its source"); it = it; break; }
                case 4: it.addAccessor(acc); break;
                case 5: { it = begin; it.addAccessor(acc); it.addAccessor(accP); pos = 0; break; }
                case 7: { p->addParticles(2); for (int j = n; j < n + 2; j++) { for (int z = 0; z < 3; z++) p->dataWrite<float>(pa, j)[z] = j * 10.f + z; p->dataWrite<int>(ka, j)[0] = 100 + j; } n += 2; begin = getBegin(); end = getEnd(); it = begin; it.addAccessor(acc); it.addAccessor(accP); pos = 0; break; }
                case 8: { it = otherBegin(); int seen = 0; for (; it.valid() && seen < 5; ++it) seen++; if (seen != 2) c.fail("an iterator assigned from another set of 2 particles visits %d", seen); begin = getBegin(); it = begin; it.addAccessor(acc); it.addAccessor(accP); pos = 0; break; }
                case 6: { if (pos < n && n > 1 && begin != it && pos == 0) c.fail("two iterators at the same particle are unequal"); break; }
                }
                c.transitions();
                if (!c.failed()) chk(N[k]);
            }
        };
        if (mut) { ParticlesDataMutable::iterator it; go(it, [&] { return p->begin(); }, [&] { return p->end(); }, [&] { return other->begin(); }); }
        else { const ParticlesData& cp = *p; ParticlesData::const_iterator it; const ParticlesData& co = *other; go(it, [&] { return cp.begin(); }, [&] { return cp.end(); }, [&] { return co.begin(); }); }
        c.trace(); c.state(i + 1);
        p->release(); other->release();
    };
    return {name, 10 * mc::seqCount(9, depth), run, [](uint64_t i) { mc::Mixed d(i); int n = d(5), mut = d(2); string s = mc::fmt("n=%d %s: ", n, mut ? "mutable" : "const"); for (int k : mc::seqDecode(d.i, 9)) s += string(N[k]) + "; "; return s; }};
}

int main(int argc, char** argv) {
    string prop = getenv("MC_PROP") ? getenv("MC_PROP") : "C01";
    bool T = mc::thorough();
    mc::Check k; k.property = prop;
    if (prop == "C01") {
        k.rule = "every sequence of container operations up to the depth of each space, executed on a fresh particle set and on a model; a state is a distinct model content (schema, values, string tables); non-trivial: every sequence ends in a full comparison";
        k.spaces.push_back(seqSpace("schema-and-data", create, 0, T ? 5 : 4, CMP_DATA | CMP_ROUTES | CMP_SCHEMA | CMP_STR));
        k.spaces.push_back(seqSpace("growth", create, 1, T ? 5 : 4, CMP_DATA | CMP_ROUTES | CMP_SCHEMA));
        k.spaces.push_back(sizeSpace("sizes", create, CMP_DATA | CMP_ROUTES, T));
        k.spaces.push_back(wideSpace("wide", create, CMP_DATA | CMP_ROUTES | CMP_SCHEMA));
    } else if (prop == "C02") {
        k.rule = "the spaces of the standard container, iteration and string-table checks, executed on the interleaved container against the same model";
        k.spaces.push_back(seqSpace("schema-and-data", createInterleave, 0, T ? 5 : 4, CMP_ALL));
        k.spaces.push_back(seqSpace("growth", createInterleave, 1, T ? 5 : 4, CMP_ALL));
        k.spaces.push_back(sizeSpace("sizes", createInterleave, CMP_ALL, T));
        k.spaces.push_back(wideSpace("wide", createInterleave, CMP_ALL));
        k.spaces.push_back(iterOps("iterator operations", createInterleave, T ? 6 : 4));
        k.spaces.push_back(strSpace("strings", createInterleave, 0, T ? 5 : 4, 3, 2));
        k.spaces.push_back(strSpace("fixed strings", createInterleave, 1, T ? 5 : 4, 3, 2));
        k.spaces.push_back(strBig("large tables", createInterleave));
    } else if (prop == "C03") {
        k.rule = "every sequence of iterator operations, and full iteration (prefix, postfix, const, mutable, from an index) over every container built by the sequence spaces";
        k.spaces.push_back(iterOps("iterator operations", create, T ? 7 : 5));
        k.spaces.push_back(seqSpace("iteration after operations", create, 1, T ? 5 : 4, CMP_ITER));
        k.spaces.push_back(sizeSpace("sizes", create, CMP_ITER, T));
        k.spaces.push_back(wideSpace("wide", create, CMP_ITER));
    } else {
        k.rule = "every sequence of register/assign operations over a small string pool, tables compared and every string looked up after each step; plus large tables";
        k.spaces.push_back(strSpace("particle strings", create, 0, T ? 6 : 5, 4, T ? 3 : 2));
        k.spaces.push_back(strSpace("fixed strings", create, 1, T ? 6 : 5, 3, 2));
        k.spaces.push_back(strBig("large tables", create));
    }
    k.assumptions = {"operations outside the alphabet and sequences longer than the stated depth are not explored"};
    return mc::drive(k, argc, argv);
}
