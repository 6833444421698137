// Independent knowledge of the file formats: what each can express, byte-level encoders that do not
// share code with the library, and gzip / zip framing.
#pragma once
#include "model.h"
#include <zlib.h>

namespace codec {
using namespace model;

// ---------------------------------------------------------------- bytes
struct W {
    string b;
    W& raw(const string& s) { b += s; return *this; }
    template <class T> W& le(T v) { b.append((const char*)&v, sizeof v); return *this; }
    template <class T> W& be(T v) { char c[sizeof v]; memcpy(c, &v, sizeof v); for (int i = (int)sizeof(v) - 1; i >= 0; i--) b += c[i]; return *this; }
    W& lew(u32 v) { return le<u32>(v); }
    W& bew(u32 v) { return be<u32>(v); }
    W& zeros(size_t n) { b.append(n, '\0'); return *this; }
};

// ---------------------------------------------------------------- attribute kinds and values
struct Kind { const char* name; ParticleAttributeType t; int c; };
static const char* LONG40 = "a234567890123456789012345678901234567890";
static const char* NAME31 = "b234567890123456789012345678901";
static const Kind KIND[] = {
    {"position", VECTOR, 3}, {"f", FLOAT, 1}, {"v", VECTOR, 3}, {"i", INT, 1}, {"s", INDEXEDSTR, 1}, {"normal", VECTOR, 3}, {"radius", FLOAT, 1}, {"i2", INT, 2},
    {"s2", INDEXEDSTR, 2}, {"f3", FLOAT, 3}, {"f2", FLOAT, 2}, {"m", FLOAT, 16}, {"velocity", VECTOR, 3}, {"age", FLOAT, 1}, {"id", INT, 1}, {"a b", FLOAT, 1}, {"", FLOAT, 1},
    {LONG40, INT, 1}, {NAME31, FLOAT, 1}, {"z", FLOAT, 0}, {"Up", INT, 1}, {"neighbors", FLOAT, 1}, {"position1", VECTOR, 3}, {"i3", INT, 3},
};
static const int NKIND = sizeof KIND / sizeof KIND[0];

static const u32 FV[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x3dcccccdu, 0x4b800000u /*2^24*/, 0x40490fdbu, 0x501502f9u /*1e10*/, 0x341a7640u, 0x00800000u, 0x00000001u,
                         0x7f7fffffu, 0xff7fffffu, 0xc2f6e979u, 0x7f800000u, 0xff800000u, 0x7fc00000u};
static const int NFV = sizeof FV / sizeof FV[0], NFINITE = 14;
static const u32 IV[] = {0, 1, 0xffffffffu, 2, 0x7fffffffu, 0x80000000u, 0x01000001u, 255, 256, 65535, 65536, 0x01020304u, 0xfefdfcfbu};
static const int NIV = sizeof IV / sizeof IV[0];
static vector<string> SV() {
    return {"", "a", "b", "a b", "\"", "\\", "x\\\"y", "line\nbreak", " lead", "trail ", "\xc3\xa9", "(", ")", "\t", string(31, 'q'), string(300, 'r'), "0", "a\"b c\\"};
}

inline float niceFloat(u32 k) { return (float)((int)(k * 2654435761u >> 20) - 2048) / 16.f; }  // exact in six digits? |x|<128, multiples of 1/16

// deterministic, distinct values for every component
inline void fill(Set& m, u32 seed = 0) {
    u32 k = seed * 977 + 1;
    auto ha = [&](Attr& a) {
        if (a.type == INDEXEDSTR && a.strs.empty()) a.strs = {"zero", "one two", "x\"y\\"};
        for (auto& r : a.rows) for (auto& w : r) {
            k++;
            if (a.type == INDEXEDSTR) w = Word(k % (u32)a.strs.size());
            else if (a.type == INT) w = Word(k * 2654435761u);
            else w = Word(fbits(niceFloat(k)));
        }
    };
    for (auto& a : m.attrs) ha(a);
    for (auto& a : m.fixed) ha(a);
}
inline Set mk(const vector<int>& kinds, int n, u32 seed = 0) {
    Set m; m.addParticles(n);
    for (int k : kinds) m.addAttr(KIND[k].name, KIND[k].t, KIND[k].c);
    fill(m, seed); return m;
}

// ---------------------------------------------------------------- what a format can express
static const char* FMT[] = {"bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "ptc", "pdc", "prt", "bin"};
static const int NFMT = 10;
inline bool isText(const string& f) { return f == "geo" || f == "pda" || f == "hclassic"; }
inline bool needsPosition(const string& f) { return f == "bgeo" || f == "geo" || f == "ptc"; }
inline bool gzAble(const string& f) { return f != "prt" && f != "bin"; }
inline bool word(const string& s) { for (unsigned char c : s) if (isspace(c)) return false; return !s.empty(); }
inline bool fl(const Attr& a) { return a.type == FLOAT || a.type == VECTOR; }

enum Ex { NO, YES, FREE };  // left out / must come back / the format may turn it into something else
inline Ex expressible(const string& f, const Attr& a) {
    if (f == "bgeo") return YES;
    if (f == "geo") return word(a.name) ? YES : NO;
    if (f == "pdb" || f == "pdb32" || f == "pdb64") return a.type == INDEXEDSTR ? FREE : YES;
    if (f == "pda") { if (!word(a.name)) return NO; if (a.type == INDEXEDSTR) return FREE; return a.count == (a.type == VECTOR ? 3 : 1) ? YES : FREE; }
    if (f == "ptc") {
        if (a.name == "position" || a.name == "normal") return fl(a) && a.count == 3 ? YES : NO;
        if (a.name == "radius") return fl(a) && a.count == 1 ? YES : NO;
        if (a.name.empty() || a.name[0] == ' ' || a.name.find('\n') != string::npos || !fl(a)) return FREE;
        return a.count == 1 || a.count == 3 || a.count == 16 ? YES : FREE;
    }
    if (f == "pdc") { if (a.type == INDEXEDSTR) return FREE; return a.count == (a.type == VECTOR ? 3 : 1) ? YES : FREE; }
    if (f == "prt") return a.type == INDEXEDSTR || a.count == 0 || a.name.size() > 31 || a.name.empty() || (a.name[0] >= 'A' && a.name[0] <= 'Z') ? FREE : YES;
    if (f == "bin") {
        static const char* v[] = {"position", "velocity", "force", "vorticity", "normal", "uvw"};
        static const char* s[] = {"age", "isolationTime", "viscosity", "density", "pressure", "mass", "temperature"};
        for (auto n : v) if (a.name == n) return fl(a) && a.count == 3 ? YES : NO;
        for (auto n : s) if (a.name == n) return fl(a) && a.count == 1 ? YES : NO;
        if (a.name == "neighbors" || a.name == "id") return a.type == INT && a.count == 1 ? YES : NO;
        return FREE;
    }
    return NO;
}
// float and vector are told apart by width only in some formats
inline bool typeEquivalent(const string& f, const Attr& want, ParticleAttributeType got) {
    if (want.type == got) return true;
    bool wf = want.type == FLOAT || want.type == VECTOR, gf = got == FLOAT || got == VECTOR;
    if (!wf || !gf) return false;
    if (f == "prt" || f == "bin") return true;
    if (want.name == "position" && needsPosition(f)) return true;
    if (f == "ptc") return want.count != 3 || want.name == "normal" || want.name == "radius";
    return false;
}
inline bool defaulted(const string& f, const string& name) {  // attributes the format always has
    if (f == "ptc") return name == "normal" || name == "radius";
    if (f == "bin") return true;
    return false;
}

// Is a value what should come back for v?  rel: printed precision
inline bool near6(u32 want, u32 got) {
    float w = bitsf(want), g = bitsf(got);
    if (w == g) return true;
    double d = fabs((double)w - (double)g);
    return d <= 5.3e-6 * fabs((double)w) + 2e-45;
}

struct CmpOpt { string fmt; bool printed = false; bool extraOk = false; };
// p read back from a file of format fmt into which m was written
inline void compareBack(const ParticlesData& p, const Set& m, const CmpOpt& o, mc::Ctx& c) {
    const string& f = o.fmt;
    if (p.numParticles() != m.n) return c.fail("%s: %d particles come back, expected %d", f.c_str(), p.numParticles(), m.n);
    for (auto& e : m.attrs) {
        Ex x = expressible(f, e); if (x != YES) continue;
        ParticleAttribute a;
        if (!p.attributeInfo(e.name.c_str(), a)) return c.fail("%s: attribute '%s' %s[%d] is lost", f.c_str(), e.name.c_str(), TypeName(e.type).c_str(), e.count);
        if (!typeEquivalent(f, e, a.type) || a.count != e.count || a.name != e.name)
            return c.fail("%s: attribute '%s' comes back as '%s' %s[%d], expected %s[%d]", f.c_str(), e.name.c_str(), a.name.c_str(), TypeName(a.type).c_str(), a.count, TypeName(e.type).c_str(), e.count);
        if (e.type == INDEXEDSTR && p.indexedStrs(a) != e.strs) {
            // the table may be reduced or reordered; every value must decode to the string it had
        }
        for (int j = 0; j < m.n; j++) {
            const u32* d = (const u32*)p.data<void>(a, j);
            if (f == "ptc" && e.name == "normal") {
                double n[3], g[3]; for (int k = 0; k < 3; k++) { n[k] = bitsf(e.rows[j][k].v); g[k] = bitsf(d[k]); }
                double l = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
                if (l == 0) { if (g[0] || g[1] || g[2]) return c.fail("ptc: zero normal comes back as %g %g %g", g[0], g[1], g[2]); continue; }
                for (auto& q : n) q /= l;
                double rxy = sqrt(n[0] * n[0] + n[1] * n[1]), grxy = sqrt(g[0] * g[0] + g[1] * g[1]);
                bool ok = fabs(g[2] - n[2]) < 4e-5;
                if (rxy > 0.02) ok = ok && grxy > 0 && fabs(n[0] * g[1] - n[1] * g[0]) / (rxy * grxy) < 2e-4 && n[0] * g[0] + n[1] * g[1] > 0;
                if (!ok) return c.fail("ptc: normal %g %g %g comes back as %g %g %g", n[0], n[1], n[2], g[0], g[1], g[2]);
                continue;
            }
            for (int k = 0; k < e.count; k++) {
                u32 want = e.rows[j][k].v;
                if (e.type == INDEXEDSTR) {
                    const vector<string>& t = p.indexedStrs(a);
                    string ws = (int)want >= 0 && want < e.strs.size() ? e.strs[want] : "";
                    if ((int)want < 0 || want >= e.strs.size()) continue;
                    if ((int)d[k] < 0 || d[k] >= t.size() || t[d[k]] != ws)
                        return c.fail("%s: string '%s' of %s particle %d comes back as '%s'", f.c_str(), ws.substr(0, 40).c_str(), e.name.c_str(), j, d[k] < t.size() ? t[d[k]].substr(0, 40).c_str() : "(no such token)");
                } else {
                    bool ok = e.type != INT && o.printed ? near6(want, d[k]) : want == d[k];
                    if (!ok && e.type != INT && f == "pdc" && bitsf(want) != bitsf(want) && bitsf(d[k]) != bitsf(d[k])) ok = true;
                    if (!ok) return c.fail("%s: %s of particle %d component %d comes back as 0x%08x (%.9g), expected 0x%08x (%.9g)", f.c_str(), e.name.c_str(), j, k, d[k], bitsf(d[k]), want, bitsf(want));
                }
            }
        }
    }
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; p.attributeInfo(i, a);
        int k = m.find(a.name);
        if (k >= 0) { if (expressible(f, m.attrs[k]) == NO && !defaulted(f, a.name)) return c.fail("%s: attribute '%s', which the format cannot express, comes back", f.c_str(), a.name.c_str()); continue; }
        if (!o.extraOk && !defaulted(f, a.name)) {
            bool free = false; for (auto& e : m.attrs) free |= expressible(f, e) == FREE;
            if (!free) return c.fail("%s: attribute '%s' appears from nowhere", f.c_str(), a.name.c_str());
        }
    }
    if (f == "bgeo") {
        if (p.numFixedAttributes() != (int)m.fixed.size()) return c.fail("bgeo: %d fixed attributes come back, expected %d", p.numFixedAttributes(), (int)m.fixed.size());
        for (auto& e : m.fixed) {
            FixedAttribute a;
            if (!p.fixedAttributeInfo(e.name.c_str(), a) || a.type != e.type || a.count != e.count) return c.fail("bgeo: fixed attribute '%s' is lost or changed", e.name.c_str());
            const u32* d = (const u32*)p.fixedData<void>(a);
            for (int k = 0; k < e.count; k++) {
                u32 want = e.rows[0][k].v;
                if (e.type == INDEXEDSTR) {
                    const vector<string>& t = p.fixedIndexedStrs(a);
                    if (want >= e.strs.size()) continue;
                    if (d[k] >= t.size() || t[d[k]] != e.strs[want]) return c.fail("bgeo: fixed string of %s comes back wrong", e.name.c_str());
                } else if (d[k] != want) return c.fail("bgeo: fixed %s component %d comes back as 0x%08x, expected 0x%08x", e.name.c_str(), k, d[k], want);
            }
        }
    }
}

// particles of a file laid out by an encoder of this header: exact comparison by name
inline void compareExact(const ParticlesData& p, const Set& m, mc::Ctx& c, const string& what) {
    if (p.numParticles() != m.n) return c.fail("%s: numParticles is %d, expected %d", what.c_str(), p.numParticles(), m.n);
    for (int f = 0; f < 2; f++) {
        const vector<Attr>& as = f ? m.fixed : m.attrs; int have = f ? p.numFixedAttributes() : p.numAttributes();
        if (have != (int)as.size()) { string l; for (int i = 0; !f && i < have; i++) { ParticleAttribute a; p.attributeInfo(i, a); l += a.name + " "; } return c.fail("%s: %d %sattributes (%s), expected %d", what.c_str(), have, f ? "fixed " : "", l.c_str(), (int)as.size()); }
        for (auto& e : as) {
            ParticleAttribute a; FixedAttribute fa; bool ok;
            if (f) { ok = p.fixedAttributeInfo(e.name.c_str(), fa); if (ok) { a.name = fa.name; a.type = fa.type; a.count = fa.count; } }
            else ok = p.attributeInfo(e.name.c_str(), a);
            if (!ok) return c.fail("%s: attribute '%s' is missing", what.c_str(), e.name.c_str());
            if (a.type != e.type || a.count != e.count) return c.fail("%s: attribute '%s' is %s[%d], expected %s[%d]", what.c_str(), e.name.c_str(), TypeName(a.type).c_str(), a.count, TypeName(e.type).c_str(), e.count);
            for (size_t j = 0; j < e.rows.size(); j++) {
                const u32* d = f ? (const u32*)p.fixedData<void>(fa) : (const u32*)p.data<void>(a, j);
                for (int k = 0; k < e.count; k++) {
                    u32 want = e.rows[j][k].v; if (!e.rows[j][k].known) continue;
                    if (e.type == INDEXEDSTR) {
                        if ((int)want < 0 || want >= e.strs.size()) continue;
                        const vector<string>& t = f ? p.fixedIndexedStrs(fa) : p.indexedStrs(a);
                        if (d[k] >= t.size() || t[d[k]] != e.strs[want]) return c.fail("%s: string of %s[%d] is wrong (token %d)", what.c_str(), e.name.c_str(), (int)j, (int)d[k]);
                    } else if (d[k] != want && !(e.type != INT && bitsf(want) != bitsf(want) && bitsf(d[k]) != bitsf(d[k])))
                        return c.fail("%s: %s of particle %d component %d is 0x%08x (%.9g), expected 0x%08x (%.9g)", what.c_str(), e.name.c_str(), (int)j, k, d[k], bitsf(d[k]), want, bitsf(want));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- encoders (layouts other programs may choose)
struct File { string ext, bytes, note; Set expect; };

struct BgeoOpt { int prims = 0; int defaults = 0; float w = 1; int extra = 0; };
inline void bgeoAttr(W& w, const Attr& a, int defaults) {
    w.be<uint16_t>((uint16_t)a.name.size()).raw(a.name).be<uint16_t>((uint16_t)a.count);
    if (a.type == INDEXEDSTR) { w.be<int>(4).be<int>((int)a.strs.size()); for (auto& s : a.strs) w.be<uint16_t>((uint16_t)s.size()).raw(s); }
    else { w.be<int>(a.type == FLOAT ? 0 : a.type == INT ? 1 : 5); for (int i = 0; i < a.count; i++) w.be<int>(defaults ? 0x41424344 + i : 0); }
}
// m.attrs[0] must be position
inline File encBGEO(const Set& m, BgeoOpt o = BgeoOpt()) {
    W w; w.raw("Bgeo").raw("V").be<int>(5).be<int>(m.n);
    int nPrims = o.prims == 0 ? 0 : o.prims == 2 ? 2 : 1, nPrimAttr = o.prims == 2 ? 2 : 0;
    w.be<int>(nPrims).be<int>(0).be<int>(0).be<int>((int)m.attrs.size() - 1).be<int>(0).be<int>(nPrimAttr).be<int>((int)m.fixed.size());
    for (size_t i = 1; i < m.attrs.size(); i++) bgeoAttr(w, m.attrs[i], o.defaults);
    for (int j = 0; j < m.n; j++) {
        for (int k = 0; k < 3; k++) w.bew(m.attrs[0].rows[j][k].v);
        w.be<float>(o.w);
        for (size_t i = 1; i < m.attrs.size(); i++) for (auto& x : m.attrs[i].rows[j]) w.bew(x.v);
    }
    if (nPrimAttr) {
        Attr a; a.name = "generator"; a.type = INDEXEDSTR; a.count = 1; a.strs = {"papi", "other"}; bgeoAttr(w, a, 0);
        Attr b; b.name = "pw"; b.type = FLOAT; b.count = 2; bgeoAttr(w, b, 1);
    }
    for (int q = 0; q < nPrims; q++) {
        w.be<int>(0x00008000).be<int>(m.n);
        for (int j = 0; j < m.n; j++) { if (m.n >= 65536) w.be<int>(j); else w.be<uint16_t>((uint16_t)j); }
        if (nPrimAttr) w.be<int>(0).be<float>(1.5f).be<float>(2.5f);
    }
    for (auto& a : m.fixed) bgeoAttr(w, a, o.defaults);
    for (auto& a : m.fixed) for (auto& x : a.rows[0]) w.bew(x.v);
    if (o.extra) w.raw(string("\x00\xff", 2));
    File f; f.ext = "bgeo"; f.bytes = w.b; f.expect = m; f.note = mc::fmt("prims=%d defaults=%d extra=%d", o.prims, o.defaults, o.extra); return f;
}

// how a program may print a number; the expected value is what the text says
inline string num(u32 v, int style) {
    float x = bitsf(v); char b[80];
    switch (style % 5) {
        case 0: snprintf(b, sizeof b, "%.9g", x); break;
        case 1: snprintf(b, sizeof b, "%+.8e", x); break;
        case 2: snprintf(b, sizeof b, fabsf(x) < 1e15f ? "%.12f" : "%.9g", x); break;
        case 3: snprintf(b, sizeof b, "%.3g", x); break;
        default: snprintf(b, sizeof b, "%.9E", x); break;
    }
    return b;
}
inline void setNum(Word& w, const string& t) { w = Word(fbits(strtof(t.c_str(), nullptr))); }
struct TextOpt { int style = 0; const char* sep = " "; const char* nl = "\n"; int quote = 1; };
inline string geoStr(const string& s, int quote) {
    if (!quote && word(s) && s.find('"') == string::npos && s.find('\\') == string::npos) return s;
    string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\"";
}
inline File encGEO(const Set& m, TextOpt o = TextOpt(), int prims = 1, float wv = 1) {
    File f; f.ext = "geo"; f.expect = m; string& b = f.bytes; string S = o.sep, N = o.nl;
    b += "PGEOMETRY V5" + N + "NPoints" + S + std::to_string(m.n) + S + "NPrims" + S + std::to_string(prims) + N + "NPointGroups 0 NPrimGroups 0" + N;
    b += "NPointAttrib" + S + std::to_string(m.attrs.size() - 1) + S + "NVertexAttrib 0 NPrimAttrib" + S + std::to_string(prims) + S + "NAttrib 0" + N;
    if (m.attrs.size() > 1) b += "PointAttrib" + N;
    for (size_t i = 1; i < m.attrs.size(); i++) {
        auto& a = m.attrs[i]; b += a.name + S + std::to_string(a.count) + S;
        if (a.type == INDEXEDSTR) { b += "index" + S + std::to_string(a.strs.size()); for (auto& s : a.strs) b += S + geoStr(s, o.quote); }
        else { b += a.type == FLOAT ? "float" : a.type == INT ? "int" : "vector"; for (int k = 0; k < a.count; k++) b += S + (a.type == INT ? "7" : "0.5"); }
        b += N;
    }
    for (int j = 0; j < m.n; j++) {
        for (int k = 0; k < 3; k++) { string t = num(m.attrs[0].rows[j][k].v, o.style); setNum(f.expect.attrs[0].rows[j][k], t); b += t + S; }
        b += mc::fmt("%g", wv);
        if (m.attrs.size() > 1) {
            b += S + "(";
            for (size_t i = 1; i < m.attrs.size(); i++) for (int k = 0; k < m.attrs[i].count; k++) {
                string t = fl(m.attrs[i]) ? num(m.attrs[i].rows[j][k].v, o.style) : std::to_string((int)m.attrs[i].rows[j][k].v);
                if (fl(m.attrs[i])) setNum(f.expect.attrs[i].rows[j][k], t);
                if (b.back() != '(') b += k ? S : string(o.style & 1 ? "\t" : " ");
                b += t;
            }
            b += ")";
        }
        b += N;
    }
    if (prims) { b += "PrimitiveAttrib" + N + "generator 1 index 1 papi" + N + "Part " + std::to_string(m.n); for (int j = 0; j < m.n; j++) b += " " + std::to_string(j); b += " [0]" + N; }
    b += "beginExtra" + N + "endExtra" + N;
    f.note = mc::fmt("style=%d quote=%d", o.style, o.quote); return f;
}
inline File encPDA(const Set& m, TextOpt o = TextOpt()) {
    File f; f.ext = "pda"; f.expect = m; string& b = f.bytes; string S = o.sep, N = o.nl;
    b += "ATTRIBUTES" + N; for (auto& a : m.attrs) b += S + a.name; b += N + "TYPES" + N;
    for (auto& a : m.attrs) b += S + (a.type == VECTOR ? "V" : a.type == FLOAT ? "R" : "I");
    b += N + "NUMBER_OF_PARTICLES:" + S + std::to_string(m.n) + N + "BEGIN DATA" + N;
    for (int j = 0; j < m.n; j++) {
        for (size_t i = 0; i < m.attrs.size(); i++) for (int k = 0; k < m.attrs[i].count; k++) {
            string t = fl(m.attrs[i]) ? num(m.attrs[i].rows[j][k].v, o.style) : std::to_string((int)m.attrs[i].rows[j][k].v);
            if (fl(m.attrs[i])) setNum(f.expect.attrs[i].rows[j][k], t);
            b += t + S;
        }
        b += N;
    }
    f.note = mc::fmt("style=%d", o.style); return f;
}
// skipAt: index of a channel of a type the library has no attribute for (-1: none)
inline File encPDB(const Set& m, int bits, int skipAt = -1, const char* ext = nullptr) {
    W w; int nch = (int)m.attrs.size() + (skipAt >= 0);
    w.le<int>(670).le<uint16_t>(1).zeros(2).le<float>(1.f).le<float>(2.5f).le<int>(m.n).le<int>(nch).zeros(32);
    if (bits == 32) w.le<int>(0x1234); else w.le<uint64_t>(0x12345678abcdull);
    for (int q = 0, i = 0; q < nch; q++) {
        bool skip = q == skipAt; const Attr* a = skip ? nullptr : &m.attrs[i++];
        int type = skip ? 4 /*char*/ : a->type == VECTOR ? 1 : a->type == FLOAT ? 2 : 3;
        w.zeros(2).le<uint16_t>(1).zeros(2);  // channel io header
        if (bits == 32) w.le<int>(0x77000000); else w.le<uint64_t>(0x1122334455667700ull);
        w.le<int>(type).le<int>(0).le<int>(0).le<int>(m.n - 1).le<uint8_t>(0).le<uint8_t>(0).zeros(bits == 32 ? 2 : 6);
        if (bits == 32) w.le<int>(9).le<int>(9).le<int>(9); else w.le<uint64_t>(9).le<uint64_t>(9).le<uint64_t>(9);
        w.raw(skip ? string("skipped") : a->name).zeros(1);
        int ds = skip ? 5 : 4 * a->count;
        w.le<int>(type).le<int>(ds).le<int>(m.n).le<int>(1);
        if (bits == 32) w.le<int>(5); else w.le<uint64_t>(5);
        for (int j = 0; j < m.n; j++) { if (skip) w.raw("abcde"); else for (auto& x : a->rows[j]) w.lew(x.v); }
    }
    File f; f.ext = ext ? ext : "pdb"; f.bytes = w.b; f.expect = m; f.note = mc::fmt("bits=%d skip=%d", bits, skipAt); return f;
}
// attrs[0..2] must be position, normal, radius; normals are given as encoded pairs
struct PtcSpec { const char* type; const char* name; };
inline void ptcNormal(uint16_t phi, uint16_t z, Word* out) {
    if (phi == 65535 && z == 65535) { out[0] = out[1] = out[2] = Word(0); return; }
    out[0] = out[1] = out[2] = Word();  // compared approximately by the caller
}
inline File encPTC(int version, const vector<std::pair<string, string>>& specs, int n, u32 seed, vector<std::pair<uint16_t, uint16_t>> normals = {}) {
    File f; f.ext = "ptc"; Set& m = f.expect; m.addParticles(n);
    m.addAttr("position", VECTOR, 3); m.addAttr("normal", VECTOR, 3); m.addAttr("radius", FLOAT, 1);
    int ds = 0;
    for (auto& s : specs) {
        int c = s.first == "float" ? 1 : s.first == "matrix" ? 16 : 3; ds += c;
        Attr a; a.name = s.second; a.type = s.first == "normal" || s.first == "vector" || s.first == "point" ? VECTOR : FLOAT; a.count = c; a.rows.assign(n, vector<Word>(c)); m.attrs.push_back(a);
    }
    fill(m, seed);
    W w; w.raw("pptc").le<int>(version).le<double>(n);
    for (int i = 0; i < 6; i++) w.le<float>((float)i - 3);
    if (version >= 1) for (int i = 0; i < 4; i++) w.le<float>(9.f + i);
    if (version >= 2) { w.le<float>(4.f); for (int i = 0; i < 32; i++) w.le<u32>(0xDEADBEEF); }
    for (int i = 0; i < 32; i++) w.le<float>(i * .5f);
    w.le<float>(640).le<float>(480).le<float>(300).le<int>((int)specs.size()).le<int>(ds);
    for (auto& s : specs) w.raw(s.first + " " + s.second + "\n");
    if (version >= 1) w.le<float>(1).le<float>(2);
    for (int j = 0; j < n; j++) {
        for (auto& x : m.attrs[0].rows[j]) w.lew(x.v);
        std::pair<uint16_t, uint16_t> pz = j < (int)normals.size() ? normals[j] : std::make_pair((uint16_t)65535, (uint16_t)65535);
        w.le<uint16_t>(pz.first).le<uint16_t>(pz.second); ptcNormal(pz.first, pz.second, m.attrs[1].rows[j].data());
        w.lew(m.attrs[2].rows[j][0].v);
        for (size_t i = 3; i < m.attrs.size(); i++) for (auto& x : m.attrs[i].rows[j]) w.lew(x.v);
    }
    f.bytes = w.b; f.note = mc::fmt("version=%d", version); return f;
}
// statics: mask of per-object attributes of types 0, 2, 4 put before the arrays
inline File encPDC(const Set& m, int statics = 0) {
    W w; w.raw("PDC ").be<int>(1).be<int>(1).be<int>(0).be<int>(0).be<int>(m.n);
    int ns = (statics & 1) + (statics >> 1 & 1) + (statics >> 2 & 1);
    w.be<int>((int)m.attrs.size() + ns);
    auto st = [&](int bit, int type, size_t bytes) { if (statics >> bit & 1) { string n = mc::fmt("static%d", bit); w.be<int>((int)n.size()).raw(n).be<int>(type); w.raw(string(bytes, '\x3f')); } };
    st(0, 0, 4);
    for (size_t i = 0; i < m.attrs.size(); i++) {
        auto& a = m.attrs[i]; w.be<int>((int)a.name.size()).raw(a.name).be<int>(a.type == INT ? 1 : a.type == FLOAT ? 3 : 5);
        for (int j = 0; j < m.n; j++) for (auto& x : a.rows[j]) { if (a.type == INT) w.bew(x.v); else w.be<double>((double)bitsf(x.v)); }
        if (i == 0) st(1, 2, 8);
    }
    if (m.attrs.empty()) st(1, 2, 8);
    st(2, 4, 24);
    File f; f.ext = "pdc"; f.bytes = w.b; f.expect = m; f.note = mc::fmt("statics=%d", statics); return f;
}
// attributes must be INT[1] named id, FLOAT[1] or VECTOR[3]; one of them is "id"
inline File encMC(const Set& m, int extras = 0, const char* prefix = "obj_") {
    W body; body.raw("MYCH");
    auto chan = [&](const string& name, u32 count, const char* type, const string& data) {
        string nm = prefix + name; nm += '\0'; 
        body.raw("CHNM").be<int>((int)nm.size()); body.raw(nm); body.zeros((4 - nm.size() % 4) % 4);
        body.raw("SIZE").be<int>(4).be<int>((int)count).raw(type).be<int>((int)data.size()).raw(data);
    };
    if (extras & 1) { W d; d.be<double>(m.n); chan("count", 1, "DBLA", d.b); }
    if (extras & 2) { W d; d.be<int>(5).be<int>(6); chan("odd", 2, "INTA", d.b); }
    for (auto& a : m.attrs) {
        W d;
        for (int j = 0; j < m.n; j++) for (auto& x : a.rows[j]) { if (a.type == VECTOR) d.bew(x.v); else if (a.type == INT) d.be<double>((double)(int)x.v); else d.be<double>((double)bitsf(x.v)); }
        chan(a.name, m.n, a.type == VECTOR ? "FVCA" : "DBLA", d.b);
    }
    W w; w.raw("FOR4").be<int>(40).raw("CACH").raw("VRSN").be<int>(4).raw("0.1\0").raw("STIM").be<int>(4).be<int>(6000).raw("ETIM").be<int>(4).be<int>(6000);
    w.b.resize(48, '\0');
    w.raw("FOR4").be<int>((int)body.b.size()).raw(body.b);
    File f; f.ext = "mc"; f.bytes = w.b; f.expect = m; f.note = mc::fmt("extras=%d", extras); return f;
}
// columns: 3, 4, 6, 7 or 8
inline File encPTS(int cols, int n, u32 seed, TextOpt o = TextOpt(), int junk = 0) {
    File f; f.ext = "pts"; Set& m = f.expect; m.addParticles(n); m.addAttr("id", INT, 1); m.addAttr("position", VECTOR, 3);
    bool rem = cols == 4 || cols == 7 || cols == 8, rgb = cols >= 6, q = cols == 8;
    if (rem) m.addAttr("remission", FLOAT, 1);
    if (q) m.addAttr("quality", INT, 1);
    if (rgb) m.addAttr("pointColor", VECTOR, 3);
    string& b = f.bytes; string S = o.sep, N = o.nl; b += std::to_string(n) + N;
    u32 k = seed * 31 + 5;
    for (int j = 0; j < n; j++) {
        if (junk && j == 1) b += "1 2" + N + N + "1 2 3 4 5 6 7 8 9" + N;
        string t[3]; for (auto& x : t) x = num(fbits(niceFloat(++k)), o.style);
        setNum(m.attrs[1].rows[j][0], t[0]); setNum(m.attrs[1].rows[j][1], t[2]); setNum(m.attrs[1].rows[j][2], t[1]);
        b += t[0] + S + t[1] + S + t[2]; m.attrs[0].rows[j][0] = Word((u32)j);
        if (rem) { string r = num(fbits(niceFloat(++k)), o.style); setNum(m.attrs[m.find("remission")].rows[j][0], r); b += S + r; }
        if (q) { int v = (int)(++k % 100); m.attrs[m.find("quality")].rows[j][0] = Word((u32)v); b += S + std::to_string(v); }
        if (rgb) for (int z = 0; z < 3; z++) { int v = (int)((++k * 37) % 256); m.attrs[m.find("pointColor")].rows[j][z] = Word(fbits((float)v / 255)); b += S + std::to_string(v); }
        b += N;
    }
    f.note = mc::fmt("columns=%d style=%d junk=%d", cols, o.style, junk); return f;
}
// PRT: channel list with stored types
static const int PRTSIZE[11] = {2, 4, 8, 2, 4, 8, 2, 4, 8, 1, 1};
struct PrtChan { string name; int type, arity; int pad; };  // pad: unused bytes before it
inline uint16_t floatToHalfBits(u32 k) { return (uint16_t)k; }
inline double halfValue(uint16_t h) {  // IEEE 754 binary16
    int s = h >> 15, e = h >> 10 & 31, f = h & 1023; double v;
    if (e == 0) v = ldexp((double)f, -24); else if (e == 31) v = f ? NAN : INFINITY; else v = ldexp((double)(1024 + f), e - 25);
    return s ? -v : v;
}
inline string deflateZ(const string& in, int level = 6, int strategy = 0) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 15, 8, strategy);
    string out(deflateBound(&z, in.size()) + 64, '\0'); z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size(); z.next_out = (Bytef*)&out[0]; z.avail_out = (uInt)out.size();
    deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
struct PrtOpt { int headersize = 0x38, channelsize = 44, level = 6; vector<int> order; };
// value(particle, channel, component) -> raw little-endian integer holding the stored bits
template <class F> inline File encPRT(const vector<PrtChan>& ch, int n, F value, PrtOpt o = PrtOpt()) {
    static const unsigned char mg[8] = {192, 'P', 'R', 'T', '\r', '\n', 26, '\n'};
    W w; w.raw(string((const char*)mg, 8)).le<u32>(o.headersize);
    string sig = "Extensible Particle Format"; sig.resize(32, '\0'); w.raw(sig).le<u32>(1).le<uint64_t>(n);
    if (o.headersize > 0x38) w.zeros(o.headersize - 0x38);
    w.le<u32>(4).le<u32>((u32)ch.size()).le<u32>(o.channelsize);
    vector<int> off; int cur = 0; for (auto& c : ch) { cur += c.pad; off.push_back(cur); cur += PRTSIZE[c.type] * c.arity; }
    vector<int> order = o.order; if (order.empty()) for (size_t i = 0; i < ch.size(); i++) order.push_back((int)i);
    File f; f.ext = "prt"; f.expect.addParticles(n);
    for (int i : order) {
        string nm = ch[i].name; nm.resize(32, '\0'); w.raw(nm).le<u32>(ch[i].type).le<u32>(ch[i].arity).le<u32>(off[i]); w.zeros(o.channelsize - 44);
        string low = ch[i].name; if (low[0] >= 'A' && low[0] <= 'Z') low[0] += 32;
        bool isF = ch[i].type >= 3 && ch[i].type <= 5;
        f.expect.addAttr(low, isF ? (ch[i].arity == 3 ? VECTOR : FLOAT) : INT, ch[i].arity);
    }
    W d;
    for (int j = 0; j < n; j++) {
        string rec(cur, '\xEE');
        for (size_t i = 0; i < ch.size(); i++) for (int k = 0; k < ch[i].arity; k++) {
            uint64_t v = value(j, (int)i, k); int sz = PRTSIZE[ch[i].type]; memcpy(&rec[off[i] + k * sz], &v, sz);
            string low = ch[i].name; if (low[0] >= 'A' && low[0] <= 'Z') low[0] += 32;
            auto& er = f.expect.attrs[f.expect.find(low)].rows[j]; if (k >= (int)er.size()) continue; Word& e = er[k];
            switch (ch[i].type) {
                case 0: e = Word((u32)(int)(int16_t)v); break;
                case 1: e = Word((u32)v); break;
                case 2: if ((int64_t)v == (int64_t)(int)v) e = Word((u32)(int)v); break;
                case 3: e = Word(fbits((float)halfValue((uint16_t)v))); break;
                case 4: e = Word((u32)v); break;
                case 5: { double x; memcpy(&x, &v, 8); e = Word(fbits((float)x)); break; }
                case 6: e = Word((u32)(uint16_t)v); break;
                case 7: e = Word((u32)v); break;
                case 8: if (v <= 0x7fffffff) e = Word((u32)v); break;
                case 9: e = Word((u32)(int)(int8_t)v); break;
                case 10: e = Word((u32)(uint8_t)v); break;
            }
        }
        d.raw(rec);
    }
    w.raw(deflateZ(d.b, o.level)); f.bytes = w.b; f.note = mc::fmt("%d channels header=%d channelsize=%d", (int)ch.size(), o.headersize, o.channelsize); return f;
}
inline File encBIN(int version, int n, u32 seed) {
    File f; f.ext = "bin"; Set& m = f.expect; m.addParticles(n);
    m.addAttr("position", VECTOR, 3); m.addAttr("velocity", VECTOR, 3); m.addAttr("force", VECTOR, 3);
    if (version >= 9) m.addAttr("vorticity", VECTOR, 3);
    if (version >= 3) m.addAttr("normal", VECTOR, 3);
    if (version >= 4) m.addAttr("neighbors", INT, 1);
    if (version >= 5) m.addAttr("uvw", VECTOR, 3);
    for (auto s : {"age", "isolationTime", "viscosity", "density", "pressure", "mass", "temperature"}) m.addAttr(s, FLOAT, 1);
    m.addAttr("id", INT, 1); fill(m, seed);
    W w; w.le<u32>(0xFABADA); string nm = "fluid"; nm.resize(250, '\0'); w.raw(nm).le<int16_t>(version).le<float>(1).le<int>(8).le<float>(.5f).le<int>(3).le<int>(24).le<int>(n).le<float>(.1f);
    for (int i = 0; i < 9; i++) w.le<float>((float)i);
    if (version >= 7) for (int i = 0; i < 9; i++) w.le<float>((float)i);
    for (int j = 0; j < n; j++) for (auto& a : m.attrs) {
        for (auto& x : a.rows[j]) w.lew(x.v);
        if (a.name == "uvw") w.le<int16_t>(7);
        if (a.name == "id" && version >= 12) w.le<u32>((int)a.rows[j][0].v < 0 ? 0xffffffffu : 0u);
    }
    f.bytes = w.b; f.note = mc::fmt("version=%d", version); return f;
}

// ---------------------------------------------------------------- gzip framing
struct GzOpt { int flags = 0; int level = 6; int strategy = 0; int memLevel = 8; int wbits = 15; long flushAt = -1; int flushKind = Z_SYNC_FLUSH; int mtime = 0, xfl = 0, os = 3; string name = "f.x", comment = "c", extra = "ab\x02\x00zz"; };
inline string gz(const string& in, const GzOpt& o = GzOpt()) {
    W h; h.raw("\x1f\x8b\x08").le<uint8_t>(o.flags).le<u32>(o.mtime).le<uint8_t>(o.xfl).le<uint8_t>(o.os);
    if (o.flags & 4) h.le<uint16_t>((uint16_t)o.extra.size()).raw(o.extra);
    if (o.flags & 8) h.raw(o.name).zeros(1);
    if (o.flags & 16) h.raw(o.comment).zeros(1);
    if (o.flags & 2) h.le<uint16_t>((uint16_t)(crc32(0, (const Bytef*)h.b.data(), (uInt)h.b.size()) & 0xffff));
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, o.level, Z_DEFLATED, -o.wbits, o.memLevel, o.strategy);
    string out(deflateBound(&z, in.size()) + 4096, '\0'); z.next_out = (Bytef*)&out[0]; z.avail_out = (uInt)out.size(); z.next_in = (Bytef*)in.data();
    if (o.flushAt >= 0 && o.flushAt <= (long)in.size()) { z.avail_in = (uInt)o.flushAt; deflate(&z, o.flushKind); z.avail_in = (uInt)(in.size() - o.flushAt); }
    else z.avail_in = (uInt)in.size();
    deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z);
    h.raw(out).le<u32>((u32)crc32(0, (const Bytef*)in.data(), (uInt)in.size())).le<u32>((u32)in.size());
    return h.b;
}
// strict decoding of one gzip member; "" and ok=false when it is not exactly one valid member
inline string gunzip(const string& in, bool& ok, string& why) {
    z_stream z; memset(&z, 0, sizeof z); ok = false; string out;
    if (inflateInit2(&z, 15 + 16) != Z_OK) { why = "init"; return out; }
    z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size(); int r; char buf[65536];
    do { z.next_out = (Bytef*)buf; z.avail_out = sizeof buf; r = inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof buf - z.avail_out); } while (r == Z_OK && (z.avail_in || z.avail_out == 0));
    if (r != Z_STREAM_END) why = mc::fmt("inflate gives %d (%s)", r, z.msg ? z.msg : ""); else if (z.avail_in) why = mc::fmt("%d bytes follow the gzip member", (int)z.avail_in); else ok = true;
    inflateEnd(&z); return out;
}
}  // namespace codec
