// Reference model of a particle set: plain vectors of 32-bit words, plus the comparison of a real
// particle set with it through every public way of reading one.
#pragma once
#include "mc.h"
#include <Partio.h>
#include <cmath>
#include <memory>

namespace model {
using namespace Partio;
using std::string;
using std::vector;
typedef uint32_t u32;

struct Word {
    u32 v = 0; bool known = false;
    Word() {}
    Word(u32 v) : v(v), known(true) {}
};
inline u32 fbits(float f) { u32 u; memcpy(&u, &f, 4); return u; }
inline float bitsf(u32 u) { float f; memcpy(&f, &u, 4); return f; }

struct Attr {
    string name; ParticleAttributeType type = NONE; int count = 0;
    vector<string> strs;
    vector<vector<Word>> rows;  // per particle (1 row for fixed attributes)
};

struct Set {
    int n = 0;
    vector<Attr> attrs, fixed;
    int find(const string& s) const { for (size_t i = 0; i < attrs.size(); i++) if (attrs[i].name == s) return (int)i; return -1; }
    int findFixed(const string& s) const { for (size_t i = 0; i < fixed.size(); i++) if (fixed[i].name == s) return (int)i; return -1; }
    bool addAttr(const string& name, ParticleAttributeType t, int c) {
        if (find(name) >= 0) return false;
        Attr a; a.name = name; a.type = t; a.count = c; a.rows.assign(n, vector<Word>(c)); attrs.push_back(a); return true;
    }
    bool addFixed(const string& name, ParticleAttributeType t, int c) {
        if (findFixed(name) >= 0) return false;
        Attr a; a.name = name; a.type = t; a.count = c; a.rows.assign(1, vector<Word>(c)); fixed.push_back(a); return true;
    }
    void addParticles(int k) { n += k; for (auto& a : attrs) a.rows.resize(n, vector<Word>(a.count)); }
    uint64_t hash() const {
        uint64_t h = mc::hash64(&n, 4);
        auto ha = [&](const Attr& a) {
            h = mc::hash64(a.name, h); int t[2] = {a.type, a.count}; h = mc::hash64(t, 8, h);
            for (auto& s : a.strs) h = mc::hash64(s, h) * 3 + 1;
            for (auto& r : a.rows) for (auto& w : r) { u32 x[2] = {w.known ? w.v : 0, w.known}; h = mc::hash64(x, 8, h); }
        };
        for (auto& a : attrs) ha(a);
        h = h * 31 + 7;
        for (auto& a : fixed) ha(a);
        return h;
    }
    string str() const {
        std::ostringstream o; o << "n=" << n;
        for (auto& a : attrs) { o << " " << TypeName(a.type) << a.count << ":" << a.name; if (a.strs.size()) { o << "{"; for (auto& s : a.strs) o << s.substr(0, 12) << ","; o << "}"; } }
        for (auto& a : fixed) { o << " fixed " << TypeName(a.type) << a.count << ":" << a.name; }
        return o.str();
    }
};

enum { CMP_DATA = 1, CMP_ROUTES = 2, CMP_ITER = 4, CMP_STR = 8, CMP_SCHEMA = 16, CMP_ALL = 31 };

inline bool sameWord(const Word& m, u32 got) { return !m.known || m.v == got; }

// schema of any ParticlesInfo against the model
inline void compareSchema(const ParticlesInfo& p, const Set& m, mc::Ctx& c, bool fixedToo = true) {
    if (p.numParticles() != m.n) return c.fail("numParticles is %d, expected %d", p.numParticles(), m.n);
    if (p.numAttributes() != (int)m.attrs.size()) return c.fail("numAttributes is %d, expected %d", p.numAttributes(), (int)m.attrs.size());
    for (size_t i = 0; i < m.attrs.size(); i++) {
        ParticleAttribute a, b; const Attr& e = m.attrs[i];
        if (!p.attributeInfo((int)i, a)) return c.fail("attributeInfo(%d) failed", (int)i);
        if (!p.attributeInfo(e.name.c_str(), b)) return c.fail("attributeInfo(\"%s\") failed", e.name.c_str());
        for (auto* x : {&a, &b})
            if (x->name != e.name || x->type != e.type || x->count != e.count)
                return c.fail("attribute %d is %s %s[%d], expected %s %s[%d]", (int)i, x->name.c_str(), TypeName(x->type).c_str(), x->count, e.name.c_str(), TypeName(e.type).c_str(), e.count);
    }
    ParticleAttribute t;
    if (p.attributeInfo(-1, t) || p.attributeInfo((int)m.attrs.size(), t)) return c.fail("attributeInfo accepts an out-of-range index");
    if (p.attributeInfo("no such attribute", t) || (m.find("") < 0 && p.attributeInfo("", t))) return c.fail("attributeInfo finds an absent name");
    if (!fixedToo) return;
    if (p.numFixedAttributes() != (int)m.fixed.size()) return c.fail("numFixedAttributes is %d, expected %d", p.numFixedAttributes(), (int)m.fixed.size());
    for (size_t i = 0; i < m.fixed.size(); i++) {
        FixedAttribute a, b; const Attr& e = m.fixed[i];
        if (!p.fixedAttributeInfo((int)i, a)) return c.fail("fixedAttributeInfo(%d) failed", (int)i);
        if (!p.fixedAttributeInfo(e.name.c_str(), b)) return c.fail("fixedAttributeInfo(\"%s\") failed", e.name.c_str());
        for (auto* x : {&a, &b})
            if (x->name != e.name || x->type != e.type || x->count != e.count)
                return c.fail("fixed attribute %d is %s %s[%d], expected %s %s[%d]", (int)i, x->name.c_str(), TypeName(x->type).c_str(), x->count, e.name.c_str(), TypeName(e.type).c_str(), e.count);
    }
    FixedAttribute ft;
    if (p.fixedAttributeInfo(-1, ft) || p.fixedAttributeInfo((int)m.fixed.size(), ft)) return c.fail("fixedAttributeInfo accepts an out-of-range index");
    if (p.fixedAttributeInfo("no such attribute", ft)) return c.fail("fixedAttributeInfo finds an absent name");
}

inline void compareStrs(const ParticlesData& p, const Set& m, mc::Ctx& c) {
    for (int f = 0; f < 2; f++) {
        const vector<Attr>& as = f ? m.fixed : m.attrs;
        for (size_t i = 0; i < as.size(); i++) if (as[i].type == INDEXEDSTR) {
            ParticleAttribute a; FixedAttribute fa;
            if (f) p.fixedAttributeInfo((int)i, fa); else p.attributeInfo((int)i, a);
            const vector<string>& got = f ? p.fixedIndexedStrs(fa) : p.indexedStrs(a);
            if (got != as[i].strs) {
                string g, e; for (auto& s : got) g += "'" + s.substr(0, 30) + "' "; for (auto& s : as[i].strs) e += "'" + s.substr(0, 30) + "' ";
                return c.fail("%sstring table of %s is [%s], expected [%s]", f ? "fixed " : "", as[i].name.c_str(), g.c_str(), e.c_str());
            }
            for (size_t k = 0; k < as[i].strs.size(); k++) {
                const string& s = as[i].strs[k];
                int t = f ? p.lookupFixedIndexedStr(fa, s.c_str()) : p.lookupIndexedStr(a, s.c_str());
                if (t < 0 || t >= (int)as[i].strs.size() || as[i].strs[t] != s) return c.fail("lookup of '%s' gives token %d, which does not stand for it", s.substr(0, 40).c_str(), t);
            }
            int t = f ? p.lookupFixedIndexedStr(fa, "\x01 absent") : p.lookupIndexedStr(a, "\x01 absent");
            if (t != -1) return c.fail("lookup of an absent string gives %d", t);
        }
    }
}

inline void compareData(const ParticlesData& p, const Set& m, mc::Ctx& c) {
    for (size_t i = 0; i < m.attrs.size(); i++) {
        ParticleAttribute a; p.attributeInfo((int)i, a);
        for (int j = 0; j < m.n; j++) {
            const u32* d = (const u32*)p.data<void>(a, j);
            if (!d && m.attrs[i].count) return c.fail("data(%s,%d) is null", a.name.c_str(), j);
            for (int k = 0; k < m.attrs[i].count; k++) if (!sameWord(m.attrs[i].rows[j][k], d[k]))
                return c.fail("%s of particle %d component %d is 0x%08x (%g), expected 0x%08x (%g)", a.name.c_str(), j, k, d[k], bitsf(d[k]), m.attrs[i].rows[j][k].v, bitsf(m.attrs[i].rows[j][k].v));
        }
    }
    for (size_t i = 0; i < m.fixed.size(); i++) {
        FixedAttribute a; p.fixedAttributeInfo((int)i, a);
        const u32* d = (const u32*)p.fixedData<void>(a);
        for (int k = 0; k < m.fixed[i].count; k++) if (!sameWord(m.fixed[i].rows[0][k], d[k]))
            return c.fail("fixed %s component %d is 0x%08x, expected 0x%08x", a.name.c_str(), k, d[k], m.fixed[i].rows[0][k].v);
    }
}

// bulk reads: data(attr,n,indices,..) and dataAsFloat in reversed order
inline void compareRoutes(ParticlesData& p, const Set& m, mc::Ctx& c) {
    if (!m.n) return;
    vector<ParticleIndex> idx; for (int j = m.n - 1; j >= 0; j--) idx.push_back(j);
    idx.push_back(0); idx.push_back(m.n - 1);
    for (size_t i = 0; i < m.attrs.size(); i++) {
        ParticleAttribute a; p.attributeInfo((int)i, a); int cnt = m.attrs[i].count; if (!cnt) continue;
        vector<u32> buf(idx.size() * cnt + 1, 0x5EEDF00D); vector<float> fl(idx.size() * cnt + 1, -777.5f);
        if (m.attrs[i].type == VECTOR || m.attrs[i].type == FLOAT) p.data<float>(a, (int)idx.size(), idx.data(), false, (float*)buf.data());
        else p.data<int>(a, (int)idx.size(), idx.data(), false, (int*)buf.data());
        p.dataAsFloat(a, (int)idx.size(), idx.data(), false, fl.data());
        for (size_t j = 0; j < idx.size(); j++) for (int k = 0; k < cnt; k++) {
            const Word& w = m.attrs[i].rows[idx[j]][k]; if (!w.known) continue;
            if (buf[j * cnt + k] != w.v) return c.fail("bulk read of %s: particle %d component %d is 0x%08x, expected 0x%08x", a.name.c_str(), (int)idx[j], k, buf[j * cnt + k], w.v);
            float e = (a.type == INT || a.type == INDEXEDSTR) ? (float)(int)w.v : bitsf(w.v);
            if (fbits(fl[j * cnt + k]) != fbits(e)) return c.fail("read-as-float of %s: particle %d component %d is %g, expected %g", a.name.c_str(), (int)idx[j], k, fl[j * cnt + k], e);
        }
        if (buf.back() != 0x5EEDF00D || fl.back() != -777.5f) return c.fail("bulk read of %s wrote past the end", a.name.c_str());
    }
}

inline void compareIter(ParticlesDataMutable& p, const Set& m, mc::Ctx& c) {
    vector<ParticleAttribute> at(m.attrs.size());
    for (size_t i = 0; i < at.size(); i++) p.attributeInfo((int)i, at[i]);
    const ParticlesData& cp = p;
    for (int pass = 0; pass < 2; pass++) {  // prefix, postfix
        vector<ParticleAccessor> acc; for (auto& a : at) acc.push_back(ParticleAccessor(a));
        ParticlesData::const_iterator it = cp.begin(), end = cp.end();
        for (auto& a : acc) it.addAccessor(a);
        int n = 0;
        while (it != end) {
            if (n >= m.n) return c.fail("const iteration (%s) does not end after %d particles", pass ? "postfix" : "prefix", m.n);
            if ((int)it.index != n) return c.fail("const iterator at step %d stands at particle %d", n, (int)it.index);
            for (size_t i = 0; i < at.size(); i++) for (int k = 0; k < m.attrs[i].count; k++) {
                const u32* d = acc[i].raw<u32>(it);
                if (!sameWord(m.attrs[i].rows[n][k], d[k])) return c.fail("const accessor: %s of particle %d component %d is 0x%08x, expected 0x%08x", at[i].name.c_str(), n, k, d[k], m.attrs[i].rows[n][k].v);
                u32 d1; memcpy(&d1, &acc[i].data<DataF>(it), 4);
                if (k == 0 && !sameWord(m.attrs[i].rows[n][0], d1)) return c.fail("const accessor data<>: wrong first component of %s", at[i].name.c_str());
            }
            n++;
            if (pass) {
                size_t before = it.index;
                ParticlesData::const_iterator old = it++;
                if (old.index != before || !old.valid()) return c.fail("postfix increment does not return the previous position");
            } else ++it;
        }
        if (n != m.n) return c.fail("const iteration (%s) visits %d particles, expected %d", pass ? "postfix" : "prefix", n, m.n);
    }
    {
        vector<ParticleAccessor> acc; for (auto& a : at) acc.push_back(ParticleAccessor(a));
        ParticlesDataMutable::iterator it = p.begin(), end = p.end();
        for (auto& a : acc) it.addAccessor(a);
        int n = 0;
        for (; it != end; ++it) {
            if (n >= m.n) return c.fail("iteration does not end after %d particles", m.n);
            for (size_t i = 0; i < at.size(); i++) for (int k = 0; k < m.attrs[i].count; k++)
                if (!sameWord(m.attrs[i].rows[n][k], acc[i].raw<u32>(it)[k])) return c.fail("accessor: %s of particle %d component %d wrong", at[i].name.c_str(), n, k);
            n++;
        }
        if (n != m.n) return c.fail("iteration visits %d particles, expected %d", n, m.n);
    }
    // iteration started at an arbitrary index
    if (m.n) for (int s : {0, m.n / 2, m.n - 1}) {
        int n = s; ParticlesData::const_iterator it = cp.setupConstIterator(s), end = cp.end();
        for (; it != end; ++it) { if ((int)it.index != n || n >= m.n) return c.fail("iteration from %d is at %d instead of %d", s, (int)it.index, n); n++; }
        if (n != m.n) return c.fail("iteration from %d stops at %d of %d", s, n, m.n);
    }
}

inline void compareSet(ParticlesDataMutable& p, const Set& m, mc::Ctx& c, int what = CMP_ALL) {
    compareSchema(p, m, c); if (c.failed()) return;
    if (what & CMP_DATA) { compareData(p, m, c); if (c.failed()) return; }
    if (what & CMP_ROUTES) { compareRoutes(p, m, c); if (c.failed()) return; }
    if (what & CMP_ITER) { compareIter(p, m, c); if (c.failed()) return; }
    if (what & CMP_STR) compareStrs(p, m, c);
}

// materialise a model as a real particle set (all words must be known)
inline ParticlesDataMutable* build(const Set& m, ParticlesDataMutable* p = nullptr) {
    if (!p) p = create();
    for (auto& f : m.fixed) {
        FixedAttribute a = p->addFixedAttribute(f.name.c_str(), f.type, f.count);
        for (auto& s : f.strs) p->registerFixedIndexedStr(a, s.c_str());
        for (int k = 0; k < f.count; k++) p->fixedDataWrite<u32>(a)[k] = f.rows[0][k].v;
    }
    vector<ParticleAttribute> at;
    for (auto& f : m.attrs) {
        ParticleAttribute a = p->addAttribute(f.name.c_str(), f.type, f.count);
        for (auto& s : f.strs) p->registerIndexedStr(a, s.c_str());
        at.push_back(a);
    }
    if (m.n) p->addParticles(m.n);
    for (size_t i = 0; i < at.size(); i++) for (int j = 0; j < m.n; j++) {
        u32* d = (u32*)p->dataWrite<void>(at[i], j);
        for (int k = 0; k < at[i].count; k++) d[k] = m.attrs[i].rows[j][k].v;
    }
    return p;
}

// snapshot of a real set as a model
inline Set snapshot(const ParticlesData& p) {
    Set m; m.n = p.numParticles();
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; p.attributeInfo(i, a); Attr e; e.name = a.name; e.type = a.type; e.count = a.count;
        if (a.type == INDEXEDSTR) e.strs = p.indexedStrs(a);
        e.rows.assign(m.n, vector<Word>(a.count));
        for (int j = 0; j < m.n; j++) { const u32* d = (const u32*)p.data<void>(a, j); for (int k = 0; k < a.count; k++) e.rows[j][k] = Word(d[k]); }
        m.attrs.push_back(e);
    }
    for (int i = 0; i < p.numFixedAttributes(); i++) {
        FixedAttribute a; p.fixedAttributeInfo(i, a); Attr e; e.name = a.name; e.type = a.type; e.count = a.count;
        if (a.type == INDEXEDSTR) e.strs = p.fixedIndexedStrs(a);
        e.rows.assign(1, vector<Word>(a.count));
        const u32* d = (const u32*)p.fixedData<void>(a); for (int k = 0; k < a.count; k++) e.rows[0][k] = Word(d[k]);
        m.fixed.push_back(e);
    }
    return m;
}
}  // namespace model
