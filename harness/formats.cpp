// C08 round trip, C09 gzip, C10 headers, C17 locale, C18 PRT types, C19 foreign files.
#include "formats.h"
using namespace formats;

// ---------------------------------------------------------------- C08
struct RT { string ext; Set m; int layout = 0; bool finiteOnly = false; };
static void roundtrip(const RT& r, Ctx& c, const string& prefill = "") {
    ParticlesDataMutable* p = build(r.m, r.layout ? createInterleave() : create());
    string a = c.path(("a." + r.ext).c_str()), b = c.path(("b." + r.ext).c_str()), err;
    string f = r.ext == "hclassic" ? "geo" : r.ext == "bhclassic" || r.ext == "itbl" || r.ext == "atbl" ? "bgeo" : r.ext == "ptf" ? "ptc" : r.ext;
    unlink(a.c_str()); unlink(b.c_str());
    if (!prefill.empty()) mc::writeFile(a, prefill);
    wr(a, *p, false, &err);
    Ctx sub; sub.sh = c.sh;
    compareSchema(*p, r.m, sub); if (!sub.failed()) compareData(*p, r.m, sub); if (!sub.failed()) compareStrs(*p, r.m, sub);
    if (sub.failed()) { c.fail("writing %s changed the set: %s", f.c_str(), sub.failMsg.c_str()); p->release(); return; }
    wr(b, *p);
    string ba = mc::readFile(a), bb = mc::readFile(b);
    if (ba != bb) { p->release(); return c.fail("%s: writing the same set twice gives different files (%d and %d bytes)", f.c_str(), (int)ba.size(), (int)bb.size()); }
    if (r.layout) {
        ParticlesDataMutable* q = build(r.m); wr(b, *q); q->release(); bb = mc::readFile(b);
        if (ba != bb) { p->release(); return c.fail("%s: the interleaved set is written differently from the standard one", f.c_str()); }
    }
    ParticlesDataMutable* q = rd(a, &err);
    if (!q) { p->release(); return c.fail("%s: the written file cannot be read%s", f.c_str(), why(err).c_str()); }
    CmpOpt o; o.fmt = f; o.printed = isText(f);
    compareBack(*q, r.m, o, c);
    c.state(r.m.hash() ^ mc::hash64(r.ext)); c.trace(); c.transitions(3 + r.m.n);
    q->release(); p->release();
}
static vector<int> withPos(const string& f, vector<int> k, int where) {
    vector<int> r; for (int x : k) if (x != 0) r.push_back(x);
    if (where == 0) r.insert(r.begin(), 0); else if (where == 1) r.push_back(0); else if (needsPosition(f)) r.insert(r.begin() + r.size() / 2, 0);
    return r;
}
static void c08(Check& k) {
    k.rule = "Every sequence of attributes of an alphabet up to the depth, with the position first, last or absent, for every writable format, particle count and storage layout; every pair of boundary values; every string table; boundary particle counts; overwriting of longer files; every alias of an extension. Each is written by the library and read back and compared with the model.";
    int depth = thorough() ? 3 : 2;
    static const int NS[] = {0, 1, 2, 5};
    {
        uint64_t q = seqCount(NKIND, depth);
        auto dec = [=](uint64_t i) {
            Mixed x(i); RT r; int fi = x(NFMT), ni = x(4), wi = x(3); r.layout = x(2); vector<int> ks = kindsOf(x(q), allKinds());
            r.ext = FMT[fi]; int n = NS[ni]; if (r.ext == "prt" && n == 0) n = 3;
            ks = withPos(r.ext, ks, wi); if (!distinct(ks)) { vector<int> u; for (int z : ks) if (std::find(u.begin(), u.end(), z) == u.end()) u.push_back(z); ks = u; }
            r.m = mk(ks, n, (u32)(i % 97)); return r;
        };
        // sequences with repeats collapse; skip them to keep cases distinct
        k.spaces.push_back({"shapes", (uint64_t)NFMT * 4 * 3 * 2 * q, [=](uint64_t i, Ctx& c) {
            Mixed x(i); x(NFMT * 4 * 3 * 2); vector<int> s = seqDecode(x.i, NKIND); if (!distinct(s) || std::find(s.begin(), s.end(), 0) != s.end()) return;
            roundtrip(dec(i), c); },
            [=](uint64_t i) { RT r = dec(i); return r.ext + (r.layout ? " interleaved " : " ") + r.m.str(); }});
    }
    {   // every ordered pair of float values, in float[1] and vector[3], every pair of ints
        uint64_t per = NFV * NFV + NIV * NIV;
        auto dec = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; uint64_t j = x(per);
            r.m.addParticles(2);
            r.m.addAttr("position", VECTOR, 3); r.m.addAttr(r.ext == "bin" ? "age" : "f", FLOAT, 1); r.m.addAttr(r.ext == "bin" ? "id" : "i", INT, 1); r.m.addAttr("radius", FLOAT, 1); fill(r.m, 1);
            int lim = isText(r.ext) ? NFINITE : NFV;
            if (j < (uint64_t)NFV * NFV) {
                u32 a = FV[(j / NFV) % lim], b = FV[(j % NFV) % lim];
                r.m.attrs[1].rows[0][0] = Word(a); r.m.attrs[1].rows[1][0] = Word(b); r.m.attrs[0].rows[0][0] = Word(b); r.m.attrs[0].rows[1][2] = Word(a); r.m.attrs[3].rows[0][0] = Word(b);
            } else { j -= NFV * NFV; r.m.attrs[2].rows[0][0] = Word(IV[j / NIV]); r.m.attrs[2].rows[1][0] = Word(IV[j % NIV]); }
            return r;
        };
        k.spaces.push_back({"values", (uint64_t)NFMT * per, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { RT r = dec(i); return r.ext + mc::fmt(" f=%08x,%08x i=%08x,%08x", r.m.attrs[1].rows[0][0].v, r.m.attrs[1].rows[1][0].v, r.m.attrs[2].rows[0][0].v, r.m.attrs[2].rows[1][0].v); }});
    }
    {   // ptc normals: a grid of directions and lengths
        auto dec = [=](uint64_t i) {
            RT r; r.ext = "ptc"; r.m.addParticles(25); r.m.addAttr("position", VECTOR, 3); r.m.addAttr("normal", VECTOR, 3); fill(r.m, 1);
            static const float L[] = {1e-12f, 0.5f, 1.f, 3.f, 1e15f};
            for (int j = 0; j < 25; j++) {
                double ph = (i % 80) * (2 * M_PI / 80) - M_PI, th = ((i / 80) % 25) * (M_PI / 24); float l = L[j % 5];
                double d[3] = {sin(th) * sin(ph + j / 5 * .01), sin(th) * cos(ph + j / 5 * .01), cos(th)};
                for (int q = 0; q < 3; q++) r.m.attrs[1].rows[j][q] = Word(fbits((float)(d[q] * l)));
            }
            return r;
        };
        k.spaces.push_back({"ptc normals", 80 * 25, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [](uint64_t i) { return mc::fmt("direction phi=%d theta=%d", (int)(i % 80), (int)(i / 80)); }});
        static const float A[] = {0, 1, -1, 0.5f, -3, 1e-20f};
        auto dec2 = [=](uint64_t i) { RT r; r.ext = "ptc"; Mixed x(i); r.m.addParticles(1); r.m.addAttr("normal", VECTOR, 3); r.m.addAttr("position", VECTOR, 3); fill(r.m, 1); for (int q = 0; q < 3; q++) r.m.attrs[0].rows[0][q] = Word(fbits(A[x(6)])); return r; };
        k.spaces.push_back({"ptc axis normals", 216, [=](uint64_t i, Ctx& c) { RT r = dec2(i); float s = 0; for (int q = 0; q < 3; q++) s += fabsf(bitsf(r.m.attrs[0].rows[0][q].v)); if (s > 0 && s < 1e-10f) return; roundtrip(r, c); }, [=](uint64_t i) { RT r = dec2(i); return mc::fmt("normal %g %g %g", bitsf(r.m.attrs[0].rows[0][0].v), bitsf(r.m.attrs[0].rows[0][1].v), bitsf(r.m.attrs[0].rows[0][2].v)); }});
    }
    {   // string tables
        vector<string> S = SV(); uint64_t a = S.size(), q = seqCount(a, thorough() ? 3 : 2);
        auto dec = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = x(2) ? "geo" : "bgeo"; int two = x(2); vector<int> s = seqDecode(x(q), a);
            r.m.addParticles(4); r.m.addAttr("position", VECTOR, 3); r.m.addAttr("s", INDEXEDSTR, two ? 2 : 1); r.m.addAttr("t", INDEXEDSTR, 1); r.m.addFixed("fs", INDEXEDSTR, 1); r.m.addAttr("f", FLOAT, 1);
            vector<string> u; for (int z : s) if (std::find(u.begin(), u.end(), S[z]) == u.end()) u.push_back(S[z]);
            if (u.empty()) { r.m.attrs[1].strs = {}; } else r.m.attrs[1].strs = u;
            r.m.attrs[2].strs = {"other"}; r.m.fixed[0].strs = u.empty() ? vector<string>{"z"} : u;
            for (int j = 0; j < 4; j++) for (int z = 0; z < (two ? 2 : 1); z++) r.m.attrs[1].rows[j][z] = Word(u.empty() ? 0 : (u32)((j * 5 + z + 1) % u.size()));
            for (int j = 0; j < 4; j++) { r.m.attrs[2].rows[j][0] = Word(0); r.m.attrs[3].rows[j][0] = Word(fbits(j * 1.5f)); for (int z = 0; z < 3; z++) r.m.attrs[0].rows[j][z] = Word(fbits((float)(j - z))); }
            r.m.fixed[0].rows[0][0] = Word((u32)(r.m.fixed[0].strs.size() - 1)); return r;
        };
        k.spaces.push_back({"strings", 2 * 2 * q, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { RT r = dec(i); string s; for (auto& z : r.m.attrs[1].strs) s += "[" + z.substr(0, 20) + "]"; return r.ext + " " + s; }});
    }
    {   // long strings and names
        static const int LEN[] = {32, 255, 256, 4095, 4096, 4097, 65534, 65535};
        auto dec = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; int l = LEN[x(8)], which = x(2);
            r.m.addParticles(2); r.m.addAttr("position", VECTOR, 3); r.m.addAttr(which ? string(l, 'n') : string("x"), FLOAT, 1); r.m.addAttr("s", INDEXEDSTR, 1); if (!which) r.m.attrs[2].strs = {string(l, 'w'), "e"}; fill(r.m, 3); return r;
        };
        k.spaces.push_back({"long names and strings", (uint64_t)NFMT * 16, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { RT r = dec(i); return r.ext + mc::fmt(" name %d string %d", (int)r.m.attrs[1].name.size(), (int)r.m.attrs[2].strs[0].size()); }});
    }
    {   // fixed attributes of bgeo
        uint64_t q = seqCount(NKIND, 2);
        auto dec = [=](uint64_t i) { Mixed x(i); RT r; r.ext = "bgeo"; int n = x(2) * 3; r.layout = x(2); vector<int> f = kindsOf(x(q), allKinds()); r.m = mk({0, 4, 3}, n); for (int z : f) r.m.addFixed(KIND[z].name, KIND[z].t, KIND[z].c); fill(r.m, 5); return r; };
        k.spaces.push_back({"fixed", 4 * q, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { return dec(i).m.str(); }});
    }
    {   // particle counts at storage boundaries
        static vector<int> NN = {9, 10, 11, 15, 16, 17, 22, 255, 256, 257, 508, 1023, 1024, 1025, 4096, 4097};
        for (int z : {32767, 32768, 65535, 65536, 65537}) NN.push_back(z);
        auto dec = [=](uint64_t i) { Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; r.layout = x(2); r.m = mk(x(2) ? vector<int>{0, 3, 1, 14} : vector<int>{0, 4, 2, 13}, NN[x(NN.size())], 7); return r; };
        k.spaces.push_back({"counts", (uint64_t)NFMT * 2 * 2 * NN.size(), [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { RT r = dec(i); return r.ext + " " + r.m.str(); }});
    }
    {   // numbers of attributes, widths, sizes of string tables
        static const int NA[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001};
        static const int NW[] = {4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535};
        auto name = [](int k) { return mc::fmt("a%d", k); };
        auto dec = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; int t = x(3), na = NA[x(24)], n = x(2) + 1; r.layout = x(2); r.m.addParticles(n);
            if (i & 1) r.m.addAttr("position", VECTOR, 3);
            for (int k = 0; k < na; k++) { int u = t == 2 ? k % 3 : t; r.m.addAttr(name(k), u == 0 ? FLOAT : u == 1 ? INT : VECTOR, u == 2 ? 3 : 1); }
            if (!(i & 1)) r.m.addAttr("position", VECTOR, 3);
            fill(r.m, (u32)i); return r;
        };
        k.spaces.push_back({"numbers of attributes", (uint64_t)NFMT * 3 * 24 * 2 * 2, [=](uint64_t i, Ctx& c) { roundtrip(dec(i), c); }, [=](uint64_t i) { RT r = dec(i); return r.ext + mc::fmt(" %d attributes, %d particles", (int)r.m.attrs.size(), r.m.n); }});
        auto dec1 = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; static const ParticleAttributeType T[] = {FLOAT, INT, VECTOR, INDEXEDSTR}; ParticleAttributeType t = T[x(4)]; int w = NW[x(32)], two = x(2), fixed = r.ext == "bgeo" ? x(2) : 0; r.m.addParticles(2);
            r.m.addAttr("position", VECTOR, 3); if (fixed) { r.m.addFixed("w", t, w); if (two) r.m.addFixed("v", INT, w + 1); } else { r.m.addAttr("w", t, w); if (two) r.m.addAttr("v", INT, w + 1); } r.m.addAttr("z", INT, 1); fill(r.m, (u32)i); return r;
        };
        k.spaces.push_back({"widths", (uint64_t)NFMT * 4 * 32 * 2 * 2, [=](uint64_t i, Ctx& c) { Mixed x(i); int f = x(NFMT); if (string(FMT[f]) != "bgeo" && i >= (uint64_t)NFMT * 4 * 32 * 2) return; RT r = dec1(i); for (auto* l : {&r.m.attrs, &r.m.fixed}) for (auto& a : *l) if (a.count > 65535) return; roundtrip(r, c); }, [=](uint64_t i) { RT r = dec1(i); return r.ext + " " + r.m.str(); }});
        static const int NT[] = {4, 9, 10, 11, 127, 128, 255, 256, 257, 999, 1000, 1001, 4096, 32767, 32768, 65535, 65536, 65537};
        auto dec2 = [=](uint64_t i) {
            Mixed x(i); RT r; r.ext = x(2) ? "geo" : "bgeo"; int n = NT[x(18)], fixed = r.ext == "bgeo" ? x(2) : 0; r.m.addParticles(5); r.m.addAttr("position", VECTOR, 3);
            if (fixed) r.m.addFixed("s", INDEXEDSTR, 5); else r.m.addAttr("s", INDEXEDSTR, 1); r.m.addAttr("t", INDEXEDSTR, 1); Attr& a = fixed ? r.m.fixed[0] : r.m.attrs[1];
            for (int k = 0; k < n; k++) a.strs.push_back(name(k)); fill(r.m, (u32)i); u32 at[] = {0u, (u32)n - 1, (u32)n / 2, (u32)n - 2, 1u};
            for (int j = 0; j < 5; j++) (fixed ? a.rows[0][j] : a.rows[j][0]) = Word(at[j]);
            return r;
        };
        k.spaces.push_back({"table sizes", 2 * 18 * 2, [=](uint64_t i, Ctx& c) { if ((i & 1) && i >= 36) return; roundtrip(dec2(i), c); }, [=](uint64_t i) { RT r = dec2(i); return r.ext + mc::fmt(" %d strings", (int)(r.m.fixed.size() ? r.m.fixed[0] : r.m.attrs[1]).strs.size()); }});
    }
    {   // overwriting whatever was there
        auto dec = [=](uint64_t i) { Mixed x(i); RT r; r.ext = FMT[x(NFMT)]; r.m = mk({0, 1, 3}, 2); return r; };
        k.spaces.push_back({"overwrite", (uint64_t)NFMT * 6, [=](uint64_t i, Ctx& c) { RT r = dec(i); static const int L[] = {1, 50, 500, 5000, 70000, 200000}; roundtrip(r, c, string(L[i / NFMT], 'J')); }, [=](uint64_t i) { return dec(i).ext; }});
    }
    {
        static const char* AL[] = {"bhclassic", "itbl", "atbl", "hclassic", "ptf"};
        k.spaces.push_back({"aliases", 5 * 3, [=](uint64_t i, Ctx& c) { RT r; r.ext = AL[i % 5]; r.m = mk({0, 1}, (int)(i / 5)); roundtrip(r, c); }, [=](uint64_t i) { return string(AL[i % 5]); }});
    }
    {   // second generation: what was read is written again and read again
        uint64_t q = seqCount(NKIND, 1);
        k.spaces.push_back({"cross format chains", (uint64_t)NFMT * NFMT * q, [=](uint64_t i, Ctx& c) {
            Mixed x(i); string f1 = FMT[x(NFMT)], f2 = FMT[x(NFMT)]; vector<int> ks = withPos("bgeo", kindsOf(x(q), allKinds()), 0); Set m = mk(ks, 2, 3);
            for (auto& a : m.attrs) if (a.type == INT) for (auto& r : a.rows) for (auto& w : r) w = Word(w.v & 1);
            ParticlesDataMutable* p = build(m); string a = c.path(("a." + f1).c_str()), b = c.path(("b." + f2).c_str()), err; wr(a, *p); p->release();
            ParticlesDataMutable* s = rd(a, &err); if (!s) return c.fail("%s cannot be read back%s", f1.c_str(), why(err).c_str());
            Set m2 = snapshot(*s); wr(b, *s); s->release();
            ParticlesDataMutable* t = rd(b, &err); if (!t) return c.fail("%s written from %s cannot be read%s", f2.c_str(), f1.c_str(), why(err).c_str());
            CmpOpt o; o.fmt = f2; o.printed = isText(f2); compareBack(*t, m2, o, c); t->release(); c.trace(); c.transitions(4); c.state(m2.hash() ^ mc::hash64(f2)); },
            [=](uint64_t i) { Mixed x(i); string f1 = FMT[x(NFMT)], f2 = FMT[x(NFMT)]; return f1 + " -> " + f2 + " " + kindStr(kindsOf(x(q), allKinds())); }});
    }
}

// sizes beyond what a byte or a 16 bit word holds, for every format other programs write
typedef std::function<void(const File&, Ctx&, const string&)> OnFile;
static void sizeSpaces(Check& k, OnFile checkFile) {
    static const int NA[] = {4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000}; static const char* E[] = {"bgeo", "geo", "pda", "pdb32", "pdb64", "pdc", "mc", "ptc"};
    static const int NW[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535}, NT[] = {9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537}, NN[] = {9, 10, 11, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537};
    auto enc = [](int e, const Set& m, int opt) {
        BgeoOpt o; o.prims = opt ? 2 : 0; o.defaults = opt; o.extra = opt; TextOpt t; if (opt) { t.style = 1; t.nl = "\r\n"; }
        switch (e) { case 0: return encBGEO(m, o); case 1: return encGEO(m, t, opt); case 2: return encPDA(m, t); case 3: return encPDB(m, 32, opt ? (int)m.attrs.size() / 2 : -1, opt ? "pdb" : "pdb32"); case 4: return encPDB(m, 64, opt ? 1 : -1, opt ? "pdb" : "pdb64"); case 5: return encPDC(m, opt * 7); default: return encMC(m, opt * 3); }
    };
    auto ids = [](Set& m) { auto& a = m.attrs[m.find("id")]; for (int j = 0; j < m.n; j++) a.rows[j][0] = Word((u32)j); };
    auto many = [=](uint64_t i) {
        Mixed x(i); int e = x(8), na = NA[x(22)], t = x(4), n = x(2) + 1, opt = x(2);
        if (e == 7) { static const char* T[] = {"float", "vector", "color", "matrix"}; vector<std::pair<string, string>> sp; for (int z = 0; z < na; z++) sp.push_back({t < 3 ? T[t] : T[z % 4], mc::fmt("v%d", z)}); return encPTC(opt * 2, sp, n, 3); }
        Set m; m.addParticles(n); m.addAttr("position", VECTOR, 3); if (e == 6) m.addAttr("id", INT, 1);
        for (int z = 0; z < na; z++) { int u = t == 3 ? z % 3 : t; if (e == 6 && u == 1) u = 0; m.addAttr(mc::fmt("v%d", z), u == 0 ? FLOAT : u == 1 ? INT : VECTOR, u == 2 ? 3 : 1); }
        fill(m, (u32)i); if (e == 6) ids(m); return enc(e, m, opt);
    };
    k.spaces.push_back({"numbers of attributes", 8 * 22 * 4 * 2 * 2, [=](uint64_t i, Ctx& c) { Mixed x(i); int e = x(8), na = NA[x(22)]; checkFile(many(i), c, mc::fmt("%s with %d attributes", E[e], na)); }, [](uint64_t i) { Mixed x(i); int e = x(8), na = NA[x(22)]; return mc::fmt("%s %d attributes, %d", E[e], na, (int)x.i); }});
    auto wide = [=](uint64_t i) { Mixed x(i); static const int EE[] = {0, 1, 3, 4}; int e = EE[x(4)], w = NW[x(27)], t = x(4), opt = x(2), fixed = x(2); Set m; m.addParticles(2); m.addAttr("position", VECTOR, 3); m.addAttr("a", INT, 1); ParticleAttributeType ty = t == 0 ? FLOAT : t == 1 ? INT : t == 2 ? VECTOR : INDEXEDSTR; if (e >= 3) { if (ty == INDEXEDSTR) ty = INT; }
        if (ty == VECTOR && e != 0) w = 3;  if (fixed && e == 0) { m.addFixed("w", ty, w); m.addFixed("v", INT, 2); } else { m.addAttr("w", ty, w); m.addAttr("z", FLOAT, 2); } fill(m, (u32)i); return enc(e, m, opt); };
    k.spaces.push_back({"widths", 4 * 27 * 4 * 2 * 2, [=](uint64_t i, Ctx& c) { File f = wide(i); for (auto& a : f.expect.attrs) if ((f.ext.substr(0, 3) == "pdb") && !((a.type == VECTOR && a.count == 3) || a.count == 1)) return; checkFile(f, c, f.ext + " with wide attributes"); }, [=](uint64_t i) { File f = wide(i); return f.ext + " " + f.expect.str(); }});
    auto table = [=](uint64_t i) { Mixed x(i); int e = x(2), nt = NT[x(17)], opt = x(2), fixed = x(2) && e == 0; Set m; m.addParticles(4); m.addAttr("position", VECTOR, 3); if (fixed) m.addFixed("s", INDEXEDSTR, 4); else m.addAttr("s", INDEXEDSTR, 1); m.addAttr("t", INDEXEDSTR, 1); m.addAttr("f", FLOAT, 1); Attr& a = fixed ? m.fixed[0] : m.attrs[1]; for (int z = 0; z < nt; z++) a.strs.push_back(mc::fmt("%d", z)); fill(m, (u32)i);
        int at[] = {0, nt - 1, nt / 2, nt - 2}; for (int j = 0; j < 4; j++) (fixed ? (e == 0 && fixed ? m.fixed[0] : m.attrs[1]).rows[0][j] : m.attrs[1].rows[j][0]) = Word((u32)at[j]); return enc(e, m, opt); };
    k.spaces.push_back({"table sizes", 2 * 17 * 2 * 2, [=](uint64_t i, Ctx& c) { checkFile(table(i), c, "large string table"); }, [=](uint64_t i) { Mixed x(i); int e = x(2), nt = NT[x(17)]; return mc::fmt("%s %d strings", E[e], nt); }});
    static const int NS[] = {1, 15, 16, 17, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535};
    auto lstr = [=](uint64_t i) { Mixed x(i); int e = x(2), nl = NS[x(15)], what = x(3); Set m; m.addParticles(2); m.addAttr("position", VECTOR, 3); string big(nl, 'q'); big[nl / 2] = '7'; m.addAttr(what == 1 ? big.c_str() : "s", what == 1 ? FLOAT : INDEXEDSTR, 1); m.addAttr("f", FLOAT, 1); if (what == 0) m.attrs[1].strs = {"x", big, "y"}; if (what == 2) m.attrs[1].strs = {big, big + "2"}; if (what == 2 && nl == 65535) m.attrs[1].strs[1] = "k"; fill(m, 3); if (what != 1) { m.attrs[1].rows[0][0] = Word(1u); m.attrs[1].rows[1][0] = Word(0u); } return enc(e, m, 0); };
    k.spaces.push_back({"lengths of strings and names", 2 * 15 * 3, [=](uint64_t i, Ctx& c) { checkFile(lstr(i), c, "long strings"); }, [](uint64_t i) { Mixed x(i); int e = x(2), nl = NS[x(15)]; return mc::fmt("%s length %d what %d", E[e], nl, (int)x.i); }});
    auto lname = [=](uint64_t i) { Mixed x(i); int e = x(6) + 2, nl = NS[x(15)]; if (e == 7) { string b(nl, 'n'); return encPTC(1, {{"float", b}, {"vector", "v"}}, 2, 3); } Set m; m.addParticles(2); m.addAttr("position", VECTOR, 3); if (e == 6) m.addAttr("id", INT, 1); m.addAttr(string(nl, 'n').c_str(), FLOAT, 1); m.addAttr("last", VECTOR, 3); fill(m, 5); if (e == 6) ids(m); return enc(e, m, 0); };
    k.spaces.push_back({"lengths of names", 6 * 15, [=](uint64_t i, Ctx& c) { checkFile(lname(i), c, "long names"); }, [](uint64_t i) { Mixed x(i); int e = x(6) + 2, nl = NS[x(15)]; return mc::fmt("%s length %d", E[e], nl); }});
    auto counts = [=](uint64_t i) { Mixed x(i); int e = x(8), n = NN[x(23)], opt = x(2), sh = x(2); if (e == 7) return encPTC(opt * 2, sh ? vector<std::pair<string, string>>{{"float", "f"}} : vector<std::pair<string, string>>{}, n, 3); Set m; m.addParticles(n); m.addAttr("position", VECTOR, 3); if (e == 6) m.addAttr("id", INT, 1); if (sh) { if (e == 6) m.addAttr("f", FLOAT, 1); else m.addAttr("i", INT, 1); } fill(m, (u32)i); if (e == 6) ids(m); return enc(e, m, opt); };
    k.spaces.push_back({"particle counts", 8 * 23 * 2 * 2, [=](uint64_t i, Ctx& c) { checkFile(counts(i), c, "many particles"); }, [](uint64_t i) { Mixed x(i); int e = x(8), n = NN[x(23)]; return mc::fmt("%s %d particles %d", E[e], n, (int)x.i); }});
}

// ---------------------------------------------------------------- C09
static vector<File> gzFiles() { vector<File> v; for (auto& f : corpus()) if (gzAble(f.ext)) v.push_back(f); return v; }
static string sig(const ParticlesData& p) {  // everything observable about a set, as text
    Set m = snapshot(p); std::ostringstream o; o << m.str() << "|" << m.hash(); return o.str();
}
static void expectSame(const string& path, const string& ext, const string& bytes, Ctx& c, const string& what) {
    string plain = c.path(("plain." + ext).c_str()); mc::writeFile(plain, bytes);
    ParticlesDataMutable* a = rd(plain); string err; ParticlesDataMutable* b = rd(path, &err);
    if (!a) { if (b) b->release(); return c.fail("%s: the uncompressed file cannot be read", what.c_str()); }
    if (!b) { a->release(); return c.fail("%s: the compressed file cannot be read%s", what.c_str(), why(err).c_str()); }
    string sa = sig(*a), sb = sig(*b); a->release(); b->release();
    if (sa != sb) c.fail("%s: compressed file reads as %s, uncompressed as %s", what.c_str(), sb.substr(0, 300).c_str(), sa.substr(0, 300).c_str());
    c.trace(); c.transitions(2); c.state(mc::hash64(sa) ^ mc::hash64(what));
}
static void c09(Check& k) {
    k.rule = "Every small file of every compressible format under every combination of gzip header fields, level, strategy, memory level and flush position; decompressed sizes around every buffer boundary; written files of every format by extension and by request, decoded by zlib and compared with the uncompressed writing.";
    static vector<File> F = gzFiles();
    {   // header fields and parameters
        uint64_t P = 32 * 10 * 5;
        auto dec = [](uint64_t i, GzOpt& o) { Mixed x(i); o.flags = x(32); o.level = x(10); o.strategy = x(5); o.memLevel = o.flags % 2 ? 1 : 9; };
        static vector<int> pick; for (size_t i = 0; i < F.size(); i++) if (thorough() || F[i].note.find("mixed") != string::npos || F[i].ext == "mc" || F[i].ext == "ptc" || F[i].ext == "pdc" || F[i].ext == "pdb" || F[i].ext == "pts") pick.push_back((int)i);
        k.spaces.push_back({"headers", P * pick.size(), [=](uint64_t i, Ctx& c) { Mixed x(i); GzOpt o; dec(x(P), o); const File& f = F[pick[x(pick.size())]]; string p = c.path(("z." + f.ext + ".gz").c_str()); mc::writeFile(p, gz(f.bytes, o)); expectSame(p, f.ext, f.bytes, c, f.note + mc::fmt(" gzip flags=%d level=%d strategy=%d", o.flags, o.level, o.strategy)); },
            [=](uint64_t i) { Mixed x(i); GzOpt o; dec(x(P), o); return F[pick[x(pick.size())]].note + mc::fmt(" flags=%d level=%d strategy=%d", o.flags, o.level, o.strategy); }});
    }
    {   // long header fields
        static const int L[] = {0, 1, 11, 255, 256, 257, 500, 512, 4095, 4096, 65535};
        k.spaces.push_back({"long fields", 11 * 3 * 2, [](uint64_t i, Ctx& c) {
            Mixed x(i); int l = L[x(11)], which = x(3), crc = x(2); GzOpt o; o.flags = (which == 0 ? 4 : which == 1 ? 8 : 16) | (crc ? 2 : 0); string v(l, 'k'); if (which == 0) o.extra = v; else if (which == 1) o.name = v; else o.comment = v;
            const File& f = F[2]; string p = c.path(("z." + f.ext + ".gz").c_str()); mc::writeFile(p, gz(f.bytes, o)); expectSame(p, f.ext, f.bytes, c, mc::fmt("gzip field %d of length %d", which, l)); }, [](uint64_t i) { return std::to_string(i); }});
    }
    {   // flush at every byte (stored and empty blocks at every position)
        uint64_t total = 0; static vector<uint64_t> off; for (auto& f : F) { off.push_back(total); total += (f.bytes.size() + 1) * 2; }
        k.spaces.push_back({"flush positions", total, [=](uint64_t i, Ctx& c) {
            size_t q = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1; uint64_t r = i - off[q]; const File& f = F[q]; GzOpt o; o.flushAt = (long)(r / 2); o.flushKind = r & 1 ? Z_FULL_FLUSH : Z_SYNC_FLUSH; o.level = r % 3 == 0 ? 0 : 6;
            string p = c.path(("z." + f.ext + ".gz").c_str()); mc::writeFile(p, gz(f.bytes, o)); expectSame(p, f.ext, f.bytes, c, f.note + mc::fmt(" flush at %d", (int)o.flushAt)); },
            [=](uint64_t i) { size_t q = std::upper_bound(off.begin(), off.end(), i) - off.begin() - 1; return F[q].note + mc::fmt(" flush %d", (int)(i - off[q])); }});
    }
    {   // sizes around buffer boundaries, from highly compressible to incompressible
        static vector<int> N; for (int b : {20, 21, 25, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}) N.push_back(b); if (thorough()) { N.clear(); for (int i = 1; i < 700; i++) N.push_back(i); for (int z : {4095, 4096, 4097, 32767, 32768, 65536, 100000}) N.push_back(z); }
        static const char* E[] = {"bgeo", "pda", "pdb", "ptc", "pdc", "geo"};
        k.spaces.push_back({"sizes", (uint64_t)N.size() * 3 * 6 * 2, [=](uint64_t i, Ctx& c) {
            Mixed x(i); int n = N[x(N.size())], kind = x(3), lv = x(2); string ext = E[x(6)]; Set m = mk({0, 3, 1}, n, 1);
            u32 z = 12345; for (auto& a : m.attrs) for (auto& r : a.rows) for (auto& w : r) { z = z * 1664525 + 1013904223; if (kind == 0) w = Word(0); else if (kind == 1 && a.type == INT) w = Word(z); else if (kind == 2) w = Word(a.type == INT ? z >> 20 : fbits((float)(z >> 24))); }
            ParticlesDataMutable* s = build(m); string a = c.path(("a." + ext).c_str()), b = c.path(("b." + ext + ".gz").c_str()); wr(a, *s); s->release();
            string bytes = mc::readFile(a); GzOpt o; o.level = lv ? 9 : 1; o.flags = n & 31; mc::writeFile(b, gz(bytes, o)); expectSame(b, ext, bytes, c, mc::fmt("%s of %d bytes", ext.c_str(), (int)bytes.size())); },
            [=](uint64_t i) { Mixed x(i); return mc::fmt("%d particles", N[x(N.size())]); }});
        // written compressed
        static vector<int> M; for (int b : {0, 1, 2, 3, 5, 9, 20, 21, 31, 32, 33, 64, 255, 256, 257, 1024, 4096}) M.push_back(b); if (thorough()) { for (int i = 4; i < 600; i++) M.push_back(i); M.push_back(65536); }
        static const char* WE[] = {"bgeo", "geo", "pdb", "pdb32", "pdb64", "pda", "ptc", "pdc", "bhclassic", "hclassic", "ptf", "rib"};
        k.spaces.push_back({"written", (uint64_t)M.size() * 3 * 12 * 3, [=](uint64_t i, Ctx& c) {
            Mixed x(i); int n = M[x(M.size())], kind = x(3); string ext = WE[x(12)]; int how = x(3);
            Set m = mk({0, 3, 1, 4}, n, 1); u32 z = 99; for (auto& a : m.attrs) for (auto& r : a.rows) for (auto& w : r) { z = z * 1664525 + 1013904223; if (a.type == INDEXEDSTR) continue; if (kind == 0) w = Word(0); else if (kind == 1 && a.type == INT) w = Word(z); else if (kind == 2) w = Word(a.type == INT ? z >> 20 : fbits((float)(z >> 24))); }
            ParticlesDataMutable* s = build(m); string a = c.path(("a." + ext).c_str()), b = c.path(("b." + ext + (how ? ".gz" : "")).c_str()); mc::writeFile(b, string(3000, 'Q'));
            wr(a, *s); wr(b, *s, how != 1); s->release();
            string bytes = mc::readFile(a), gzb = mc::readFile(b), w; bool ok; string got = gunzip(gzb, ok, w);
            if (!ok) return c.fail("%s written compressed is not a valid gzip file: %s", ext.c_str(), w.c_str());
            if (got != bytes) return c.fail("%s written compressed holds %d bytes that differ from the %d bytes written uncompressed", ext.c_str(), (int)got.size(), (int)bytes.size());
            if (ext != "rib") expectSame(b, ext, bytes, c, mc::fmt("%s written compressed, %d bytes", ext.c_str(), (int)bytes.size())); else { c.trace(); c.transitions(2); } },
            [=](uint64_t i) { Mixed x(i); int n = M[x(M.size())], kind = x(3); return string(WE[x(12)]) + mc::fmt(" %d particles kind %d", n, kind); }});
    }
    {   // every size of the contents, modulo the sizes of the buffers between
        static const char* WE[] = {"bgeo", "geo", "pdb", "pda", "pdc"}; static const int NS[] = {0, 12};
        k.spaces.push_back({"written sizes", 600 * 5 * 2, [](uint64_t i, Ctx& c) {
            Mixed x(i); int n = NS[x(2)]; string ext = WE[x(5)]; int l = 1 + x(600); Set m; m.addParticles(n); m.addAttr("position", VECTOR, 3); m.addAttr(string(l, 'k').c_str(), INT, 1); fill(m, (u32)l);
            ParticlesDataMutable* s = build(m); string a = c.path(("a." + ext).c_str()), b = c.path(("b." + ext + ".gz").c_str()); wr(a, *s); wr(b, *s); s->release();
            string bytes = mc::readFile(a), gzb = mc::readFile(b), w; bool ok; string got = gunzip(gzb, ok, w);
            if (!ok) return c.fail("%s of %d bytes written compressed is not a valid gzip file: %s", ext.c_str(), (int)bytes.size(), w.c_str());
            if (got != bytes) return c.fail("%s written compressed holds %d bytes that differ from the %d bytes written uncompressed", ext.c_str(), (int)got.size(), (int)bytes.size());
            expectSame(b, ext, bytes, c, mc::fmt("%s written compressed, %d bytes", ext.c_str(), (int)bytes.size())); },
            [](uint64_t i) { Mixed x(i); int n = NS[x(2)]; string e = WE[x(5)]; return e + mc::fmt(" %d particles, name of %d", n, 1 + x(600)); }});
    }
    {   // a plain file under a compressed name and the reverse
        k.spaces.push_back({"names", F.size() * 2, [](uint64_t i, Ctx& c) { const File& f = F[i / 2]; string p = c.path(("n." + f.ext + (i & 1 ? ".gz" : "")).c_str()); mc::writeFile(p, i & 1 ? f.bytes : gz(f.bytes)); expectSame(p, f.ext, f.bytes, c, f.note + (i & 1 ? " plain under .gz" : " gzip without .gz")); }, [](uint64_t i) { return F[i / 2].note; }});
    }
}

// ---------------------------------------------------------------- C10
static void compareHeaders(const string& path, Ctx& c, const string& what) {
    string e1, e2; ParticlesInfo* h = rdh(path, &e1); ParticlesDataMutable* p = rd(path, &e2);
    if (!h != !p) { if (h) h->release(); if (p) p->release(); return c.fail("%s: headers %s but the complete read %s%s%s", what.c_str(), h ? "can be read" : "fail", p ? "succeeds" : "fails", why(e1).c_str(), why(e2).c_str()); }
    if (!h) return c.fail("%s: an intact file cannot be read%s", what.c_str(), why(e2).c_str());
    Ctx s; s.sh = c.sh; Set m = snapshot(*p); for (auto& a : m.attrs) a.rows.clear(); compareSchema(*h, m, s);
    if (s.failed()) c.fail("%s: headers disagree with the file: %s", what.c_str(), s.failMsg.c_str());
    c.state(m.hash() ^ mc::hash64(what.substr(0, 4))); c.trace(2); c.transitions(2);
    h->release(); p->release();
}
static void c10(Check& k) {
    k.rule = "Headers and complete read of: every attribute sequence up to the depth written by the library in every format, and every file of the foreign corpus, plain and compressed, at several particle counts.";
    int depth = thorough() ? 3 : 2; uint64_t q = seqCount(NKIND, depth);
    static const int NS[] = {0, 1, 3, 300};
    k.spaces.push_back({"written", (uint64_t)NFMT * 4 * 2 * 2 * q, [=](uint64_t i, Ctx& c) {
        Mixed x(i); string f = FMT[x(NFMT)]; int n = NS[x(4)], g = x(2), lay = x(2); vector<int> s = kindsOf(x(q), allKinds()); if (!distinct(s) || std::find(s.begin(), s.end(), 0) != s.end()) return; if (f == "prt" && n == 0) n = 2; if (n == 300 && s.size() > 1) n = 2;
        if (g && !gzAble(f)) return;
        Set m = mk(withPos(f, s, lay), n, 1); if (f == "bgeo") { m.addFixed("fi", INT, 2); m.addFixed("fs", INDEXEDSTR, 1); fill(m, 1); }
        ParticlesDataMutable* p = build(m); string a = c.path(("h." + f + (g ? ".gz" : "")).c_str()); wr(a, *p); p->release(); compareHeaders(a, c, f + (g ? " compressed" : "")); },
        [=](uint64_t i) { Mixed x(i); string f = FMT[x(NFMT)]; x(16); return f + " " + kindStr(kindsOf(x(q), allKinds())); }});
    {   // names given to more than one attribute
        static const char* E[] = {"bgeo", "geo", "pda", "pdb", "pdc", "mc", "ptc", "prt"}; static const char* NM[] = {"xx", "position", "normal", "radius", "xx1", "id"}; static const int CN[][3] = {{FLOAT, 1, 0}, {VECTOR, 3, 0}, {INT, 1, 0}};
        auto gen = [](uint64_t i) {
            Mixed x(i); string e = E[x(8)]; int g = x(2); (void)g; int cnt = 2 + x(2), n = x(2) * 3; vector<Attr> as; vector<std::pair<string, string>> sp; vector<PrtChan> pc;
            for (int z = 0; z < cnt; z++) { const char* nm = NM[x(6)]; int t = x(3); Attr a; a.name = nm; a.type = (ParticleAttributeType)CN[t][0]; a.count = CN[t][1]; as.push_back(a); sp.push_back({t == 0 ? "float" : t == 1 ? "vector" : "color", nm}); pc.push_back({nm, t == 2 ? 1 : 4, a.count, 0}); }
            if (e == "ptc") return encPTC(1, sp, n, 3);
            if (e == "prt") return encPRT(pc, n, [](int j, int ci, int kk) -> uint64_t { return ci * 100 + j * 10 + kk; });
            Set m; m.addParticles(n); if (e == "bgeo" || e == "geo") m.addAttr("position", VECTOR, 3); if (e == "mc") { m.addAttr("id", INT, 1); }
            for (auto& a : as) { if (e == "mc" && a.type == INT) { a.type = FLOAT; } a.rows.assign(n, vector<Word>(a.count, Word(0))); m.attrs.push_back(a); }
            fill(m, 3); if (e == "mc") for (int j = 0; j < n; j++) m.attrs[0].rows[j][0] = Word((u32)j);
            return e == "bgeo" ? encBGEO(m) : e == "geo" ? encGEO(m) : e == "pda" ? encPDA(m) : e == "pdb" ? encPDB(m, 32) : e == "pdc" ? encPDC(m) : encMC(m);
        };
        k.spaces.push_back({"repeated names", 8 * 2 * 2 * 2 * 18 * 18 * 18, [=](uint64_t i, Ctx& c) { Mixed x(i); x(8); int g = x(2), three = x(2); x(2); x(18); x(18); if (!three && x(18)) return; File f = gen(i); if (g && !gzAble(f.ext)) return;
            string a = c.path(("h." + f.ext + (g ? ".gz" : "")).c_str()); mc::writeFile(a, g ? gz(f.bytes) : f.bytes); ParticlesDataMutable* p = rd(a); if (!p) { ParticlesInfo* h = rdh(a); if (h) { h->release(); c.fail("%s with a repeated name: the headers can be read but not the file", f.ext.c_str()); } return; } p->release(); compareHeaders(a, c, f.ext + " with a repeated name"); },
            [=](uint64_t i) { Mixed x(i); string s = E[x(8)]; s += x(2) ? " gz " : " "; int cnt = 2 + x(2); s += x(2) ? "3 particles " : "0 particles "; for (int z = 0; z < cnt; z++) { s += NM[x(6)]; s += mc::fmt(":%d ", x(3)); } return s; }});
    }
    static const vector<File>& F = corpus();
    k.spaces.push_back({"foreign", F.size() * 2, [](uint64_t i, Ctx& c) { const File& f = F[i / 2]; if ((i & 1) && !gzAble(f.ext)) return; string a = c.path(("h." + f.ext + (i & 1 ? ".gz" : "")).c_str()); mc::writeFile(a, i & 1 ? gz(f.bytes) : f.bytes); compareHeaders(a, c, f.note); }, [](uint64_t i) { return F[i / 2].note; }});
}

// ---------------------------------------------------------------- C18
static uint64_t PV(int type, int k) {
    static const uint64_t I8[] = {0, 1, 0x7f, 0x80, 0xff, 0x55}, I16[] = {0, 1, 0x7fff, 0x8000, 0xffff, 0x1234, 0x00ff, 0xff00}, I32[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0x0000ffff, 0xffff0000, 0x01000001};
    static const int64_t I64[] = {0, 1, -1, 0x7fffffff, -0x7fffffffll - 1, 0x12345678, 65536, -65536, 0x01000001};
    static const uint64_t U64[] = {0, 1, 0x7fffffff, 0x12345678, 65536, 0x01000001};
    static const double D[] = {0, -0., 1, -1, .1, 3.14159265358979, 16777217, 1e-40, 1e-50, 3.4e38, -2.5e-7, INFINITY, -INFINITY, 1.00000005960464477539, 1.00000017881393432617};
    static const uint64_t H[] = {0, 0x8000, 0x3c00, 0xbc00, 0x0001, 0x03ff, 0x0400, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x3555};
    switch (type) {
        case 9: case 10: return I8[k % 6];
        case 0: case 6: return I16[k % 8];
        case 1: case 7: return I32[k % 9];
        case 2: return (uint64_t)I64[k % 9];
        case 8: return U64[k % 6];
        case 3: return H[k % 12];
        case 4: return FV[k % NFV];
        default: { double d = D[k % 15]; uint64_t u; memcpy(&u, &d, 8); return u; }
    }
}
static void checkFile(const File& f, Ctx& c, const string& what) {
    string p = c.path(("x." + f.ext).c_str()), err; mc::writeFile(p, f.bytes);
    ParticlesDataMutable* s = rd(p, &err); if (!s) return c.fail("%s: cannot be read%s", what.c_str(), why(err).c_str());
    compareExact(*s, f.expect, c, what); s->release(); c.trace(); c.transitions(f.expect.n + 1); c.state(f.expect.hash() ^ mc::hash64(f.bytes));
}
static void c18(Check& k) {
    k.rule = "Every pair of stored types with every arity up to the bound, both channel orders, padding, header and channel-entry sizes and particle counts, over boundary values; every one of the 65536 half-precision values; long incompressible streams. Values outside 32 bits (64-bit integers) are not compared.";
    static const int AR[] = {1, 2, 3, 4, 7};
    {
        auto gen = [](uint64_t i) {
            Mixed x(i); int t1 = x(11), a1 = AR[x(5)], t2 = x(11), a2 = AR[x(5)], n = x(3), opt = x(8); PrtOpt o; if (opt & 1) o.order = {1, 0}; if (opt & 2) { o.headersize = 0x38 + 8; o.channelsize = 52; }
            vector<PrtChan> ch = {{"First", t1, a1, opt & 4 ? 3 : 0}, {"second", t2, a2, opt & 4 ? 1 : 0}}; int nn = n == 0 ? 1 : n == 1 ? 2 : 9;
            return encPRT(ch, nn, [=](int j, int ci, int kk) { return PV(ci ? t2 : t1, j * 7 + kk * 3 + ci); }, o);
        };
        k.spaces.push_back({"type pairs", 11 * 5 * 11 * 5 * 3 * 8, [=](uint64_t i, Ctx& c) { checkFile(gen(i), c, "prt"); }, [=](uint64_t i) { Mixed x(i); int t1 = x(11), a1 = AR[x(5)], t2 = x(11), a2 = AR[x(5)]; return mc::fmt("types %d[%d] %d[%d] rest %d", t1, a1, t2, a2, (int)x.i); }});
    }
    k.spaces.push_back({"three channels", 11 * 11 * 11 * 6, [](uint64_t i, Ctx& c) { Mixed x(i); int t[3] = {x(11), x(11), x(11)}; static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int pm = x(6); PrtOpt o; o.order.assign(PM[pm], PM[pm] + 3);
        checkFile(encPRT({{"Position", t[0], 3, 0}, {"ID", t[1], 1, 0}, {"C", t[2], 2, 0}}, 3, [=](int j, int ci, int kk) { return PV(t[ci], j + kk * 5 + ci * 2); }, o), c, "prt"); }, [](uint64_t i) { Mixed x(i); int a = x(11), b = x(11), d = x(11); return mc::fmt("types %d %d %d order %d", a, b, d, (int)x.i); }});
    k.spaces.push_back({"single values", 11 * 17 * 5, [](uint64_t i, Ctx& c) { Mixed x(i); int t = x(11), v = x(17), a = AR[x(5)]; checkFile(encPRT({{"x", t, a, 0}}, 1, [=](int, int, int kk) { return PV(t, v + kk); }), c, mc::fmt("prt type %d", t)); }, [](uint64_t i) { Mixed x(i); int t = x(11); return mc::fmt("type %d value %d", t, (int)x.i); }});
    // all halves: as arity 1, 3 and 4 channels
    k.spaces.push_back({"all half values", 64 * 3, [](uint64_t i, Ctx& c) { Mixed x(i); int blk = x(64), a = x(3) == 0 ? 1 : x.i ? 4 : 2; static const int A3[] = {1, 3, 4}; a = A3[i / 64]; int n = (1024 + a - 1) / a;
        checkFile(encPRT({{"h", 3, a, 0}}, n, [=](int j, int, int kk) { return (uint64_t)((blk * 1024 + j * a + kk) & 0xffff); }), c, mc::fmt("halves %04x..", blk * 1024)); }, [](uint64_t i) { return mc::fmt("block %d", (int)(i % 64)); }});
    static const int NN[] = {100, 1000, 1023, 1024, 1025, 5000, 20000};
    k.spaces.push_back({"long streams", 7 * 11 * 3, [](uint64_t i, Ctx& c) { Mixed x(i); int n = NN[x(7)], t = x(11), lv = x(3); PrtOpt o; o.level = lv * 4 + (lv == 2); checkFile(encPRT({{"Position", 4, 3, 0}, {"x", t, 1, 0}}, n, [=](int j, int ci, int kk) -> uint64_t { u32 z = (u32)(j * 3 + kk + ci * 77) * 2654435761u; return ci == 0 ? (z & 0x3fffffff) : PV(t, (int)(z >> 8)); }, o), c, "prt stream"); }, [](uint64_t i) { Mixed x(i); int n = NN[x(7)], t = x(11); return mc::fmt("%d particles type %d", n, t); }});
    k.spaces.push_back({"no particles", 11, [](uint64_t i, Ctx& c) { checkFile(encPRT({{"x", (int)i, 2, 0}}, 0, [](int, int, int) -> uint64_t { return 0; }), c, "empty prt"); }, [](uint64_t i) { return std::to_string(i); }});
    {   // many channels, wide channels, far apart
        static const int NC[] = {5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}, WA[] = {5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536}, PD[] = {2, 4, 8, 16, 100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537};
        auto gen = [](uint64_t i) { Mixed x(i); int nc = NC[x(20)], t = x(12), ord = x(3), pad = x(2) ? 3 : 0, n = x(2) * 2 + 1; PrtOpt o; vector<PrtChan> ch; for (int z = 0; z < nc; z++) { ch.push_back({mc::fmt("ch%d", z), t < 11 ? t : z % 11, 1 + z % 3, z % 2 ? pad : 0}); o.order.push_back(ord == 0 ? z : ord == 1 ? nc - 1 - z : (z + nc / 2) % nc); }
            vector<int> tt; for (auto& q : ch) tt.push_back(q.type); return encPRT(ch, n, [=](int j, int ci, int kk) { return PV(tt[ci], j + kk * 5 + ci); }, o); };
        k.spaces.push_back({"many channels", 20 * 12 * 3 * 2 * 2, [=](uint64_t i, Ctx& c) { checkFile(gen(i), c, "prt with many channels"); }, [](uint64_t i) { Mixed x(i); int nc = NC[x(20)], t = x(12), o = x(3); return mc::fmt("%d channels type %d order %d", nc, t, o); }});
        k.spaces.push_back({"wide channels", 25 * 11 * 2 * 2, [](uint64_t i, Ctx& c) { Mixed x(i); int w = WA[x(25)], t = x(11); PrtOpt o; if (x(2)) o.order = {1, 2, 0}; int n = x(2) * 2 + 1; checkFile(encPRT({{"a", 4, 1, 0}, {"wide", t, w, 0}, {"z", 1, 2, 0}}, n, [=](int j, int ci, int kk) -> uint64_t { return ci == 1 ? PV(t, j + kk + kk / 90) : ci ? j * 7 + kk : fbits(j + .25f); }, o), c, mc::fmt("prt type %d[%d]", t, w)); }, [](uint64_t i) { Mixed x(i); int w = WA[x(25)], t = x(11); return mc::fmt("type %d[%d] %d", t, w, (int)x.i); }});
        k.spaces.push_back({"gaps", 18 * 11 * 3 * 2, [](uint64_t i, Ctx& c) { Mixed x(i); int pd = PD[x(18)], t = x(11), at = x(3), n = x(2) * 3 + 1; checkFile(encPRT({{"a", 4, 1, at == 0 ? pd : 0}, {"b", t, 2, at == 1 ? pd : 0}, {"z", 1, 1, at == 2 ? pd : 0}}, n, [=](int j, int ci, int kk) -> uint64_t { return ci == 1 ? PV(t, j + kk) : ci ? j * 7 + kk : fbits(j + .25f); }), c, mc::fmt("prt with %d unused bytes", pd)); }, [](uint64_t i) { Mixed x(i); int pd = PD[x(18)], t = x(11); return mc::fmt("%d unused bytes, type %d, %d", pd, t, (int)x.i); }});
    }
    // every channel name a program may use: case of the first letter and full 32 byte names
    static const char* NM[] = {"a", "A", "Zz", "z", "_x", "0", "abcdefghijklmnopqrstuvwxyzabcde", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDE"};
    k.spaces.push_back({"names", 64, [](uint64_t i, Ctx& c) { int a = i / 8, b = i % 8; if (!strcasecmp(NM[a], NM[b])) return; checkFile(encPRT({{NM[a], 1, 1, 0}, {NM[b], 4, 1, 0}}, 2, [](int j, int ci, int) -> uint64_t { return ci ? fbits(j + .5f) : j + 5; }), c, "prt names"); }, [](uint64_t i) { return string(NM[i / 8]) + " " + NM[i % 8]; }});
}

// ---------------------------------------------------------------- C19
static void c19(Check& k) {
    k.rule = "Files laid out by encoders that share no code with the library: every attribute sequence up to the depth for every format with every combination of its layout options (extra sections, defaults, skipped channels, file versions, number styles, separators, line endings, optional columns, byte-size variants), compared value by value.";
    int depth = thorough() ? 3 : 2;
    static const int NS[] = {0, 1, 3};
    auto dist = [](const vector<int>& v) { return distinct(v); };
    {
        static vector<int> P = pool("bgeo", false); uint64_t q = seqCount(P.size(), depth); static const int FX[] = {-1, 3, 4, 2, 11, 8};
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); BgeoOpt o; o.prims = x(3); o.defaults = x(2); o.extra = x(2); int fx = FX[x(6)], n = NS[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks); ks.insert(ks.begin(), 0); Set m = mk(ok ? ks : vector<int>{0}, n, 2); if (fx >= 0) { m.addFixed(KIND[fx].name, KIND[fx].t, KIND[fx].c); m.addFixed("last", INT, 1); } fill(m, 2); o.w = 3; return encBGEO(m, o); };
        k.spaces.push_back({"bgeo", 3 * 2 * 2 * 6 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, "bgeo"); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.note + " " + f.expect.str(); }});
        k.spaces.push_back({"bgeo many points", 12, [=](uint64_t i, Ctx& c) { static const int N[] = {32767, 32768, 65534, 65535, 65536, 65537}; BgeoOpt o; o.prims = 1 + (int)(i & 1); Set m = mk({0, 3}, N[i / 2], 2); m.addFixed("d", FLOAT, 2); m.addFixed("fs", INDEXEDSTR, 1); fill(m, 3); checkFile(encBGEO(m, o), c, "bgeo"); }, [](uint64_t i) { return std::to_string(i); }});
        // string tables in which a string is repeated
        k.spaces.push_back({"repeated strings", 27 * 27 * 2, [=](uint64_t i, Ctx& c) {
            Mixed x(i); static const char* S[] = {"a", "b", ""}; Set m; m.addParticles(3); m.addAttr("position", VECTOR, 3); m.addAttr("s", INDEXEDSTR, 1); fill(m, 1); m.attrs[1].strs.clear(); for (int z = 0; z < 3; z++) m.attrs[1].strs.push_back(S[x(3)]); for (int z = 0; z < 3; z++) m.attrs[1].rows[z][0] = Word((u32)x(3));
            if (x(2)) checkFile(encGEO(m), c, "geo repeated strings"); else checkFile(encBGEO(m), c, "bgeo repeated strings"); }, [](uint64_t i) { return std::to_string(i); }});
    }
    {
        static vector<int> P = pool("geo", false); uint64_t q = seqCount(P.size(), depth); static const char* NL[] = {"\n", "\r\n"}; static const char* SP[] = {" ", "   ", "\t"};
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); TextOpt o; o.style = x(5); o.nl = NL[x(2)]; o.sep = SP[x(3)]; o.quote = x(2); int pr = x(2), n = NS[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks); ks.insert(ks.begin(), 0); return encGEO(mk(ok ? ks : vector<int>{0}, n, 4), o, pr, 2.5f); };
        k.spaces.push_back({"geo", 5 * 2 * 3 * 2 * 2 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, "geo"); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.note + " " + f.expect.str(); }});
        vector<string> S = SV(); uint64_t a = S.size();
        k.spaces.push_back({"geo strings", a * a * 2, [=](uint64_t i, Ctx& c) { Mixed x(i); Set m; m.addParticles(2); m.addAttr("position", VECTOR, 3); m.addAttr("s", INDEXEDSTR, 1); m.addAttr("f", FLOAT, 1); int p = x(a), r = x(a); if (p == r) return; m.attrs[1].strs = {S[p], S[r]}; fill(m, 1); TextOpt o; o.quote = x(2); checkFile(encGEO(m, o), c, "geo strings"); checkFile(encBGEO(m), c, "bgeo strings"); }, [=](uint64_t i) { return S[i % a] + " | " + S[i / a % a]; }});
    }
    {
        static vector<int> P = pool("pda", true); uint64_t q = seqCount(P.size(), depth + (thorough() ? 0 : 1)); static const char* NL[] = {"\n", "\r\n"}; static const char* SP[] = {" ", "\t "};
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); TextOpt o; o.style = x(5); o.nl = NL[x(2)]; o.sep = SP[x(2)]; int n = NS[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks); return encPDA(mk(ok ? ks : vector<int>{0}, n, 4), o); };
        k.spaces.push_back({"pda", 5 * 2 * 2 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, "pda"); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.note + " " + f.expect.str(); }});
    }
    {
        static vector<int> P = pool("pdb", true); uint64_t q = seqCount(P.size(), depth);
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); int bits = x(2) ? 64 : 32, skip = x(4) - 1, own = x(2), n = NS[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks) && skip <= (int)ks.size() && (own || !ks.empty() || skip == 0); if (!ok) ks = {0}; return encPDB(mk(ks, n, 4), bits, ok ? skip : -1, own ? (bits == 64 ? "pdb64" : "pdb32") : "pdb"); };
        k.spaces.push_back({"pdb", 2 * 4 * 2 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, f.ext + " " + f.note); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.ext + " " + f.note + " " + f.expect.str(); }});
    }
    {
        static const char* T[] = {"float", "color", "vector", "normal", "point", "matrix"}; int d = thorough() ? 4 : 3; uint64_t q = seqCount(6, d);
        auto gen = [=](uint64_t i) { Mixed x(i); int v = x(3), n = NS[x(3)]; vector<int> s = seqDecode(x(q), 6); vector<std::pair<string, string>> sp; for (size_t z = 0; z < s.size(); z++) sp.push_back({T[s[z]], mc::fmt("x%d y", (int)z)}); return encPTC(v, sp, n, 5); };
        k.spaces.push_back({"ptc", 9 * q, [=](uint64_t i, Ctx& c) { checkFile(gen(i), c, "ptc"); }, [=](uint64_t i) { File f = gen(i); return f.note + " " + f.expect.str(); }});
        // every encoded normal along a set of lines: all phi for some z, all z for some phi
        k.spaces.push_back({"ptc normals", 16 * 16 * 2, [](uint64_t i, Ctx& c) {
            static const int O[] = {0, 1, 2, 255, 256, 8191, 16383, 16384, 32767, 32768, 40000, 49151, 65000, 65533, 65534, 65535}; int o = O[i % 16], blk = (int)(i / 16 % 16), dir = (int)(i / 256);
            vector<std::pair<uint16_t, uint16_t>> nn; for (int z = 0; z < 4096; z++) { uint16_t v = (uint16_t)(blk * 4096 + z); nn.push_back(dir ? std::make_pair((uint16_t)o, v) : std::make_pair(v, (uint16_t)o)); }
            File f = encPTC(0, {}, 4096, 1, nn); string p = c.path("n.ptc"); mc::writeFile(p, f.bytes); ParticlesDataMutable* s = rd(p); if (!s) return c.fail("ptc with normals cannot be read");
            ParticleAttribute a; s->attributeInfo("normal", a);
            for (int j = 0; j < 4096; j++) { const float* g = s->data<float>(a, j); double e[3] = {0, 0, 0}; if (nn[j].first != 65535 || nn[j].second != 65535) { double ph = 2 * M_PI * (nn[j].first / 65535. - .5); e[2] = 2. * nn[j].second / 65535. - 1; double r = sqrt(std::max(0., 1 - e[2] * e[2])); e[0] = r * sin(ph); e[1] = r * cos(ph); }
                for (int q2 = 0; q2 < 3; q2++) if (!(fabs(g[q2] - e[q2]) < 3e-5 + 3e-4 * (q2 < 2 && fabs(e[2]) > .9999))) { s->release(); return c.fail("ptc normal phi=%d z=%d decodes to %g %g %g, expected %g %g %g", nn[j].first, nn[j].second, g[0], g[1], g[2], e[0], e[1], e[2]); } }
            s->release(); c.trace(); c.transitions(4096); c.state(i + 77); }, [](uint64_t i) { return std::to_string(i); }});
    }
    {
        static vector<int> P = pool("pdc", true); uint64_t q = seqCount(P.size(), depth);
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); int st = x(8), n = NS[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks); return encPDC(mk(ok ? ks : vector<int>{0}, n, 4), st); };
        k.spaces.push_back({"pdc", 8 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, "pdc " + f.note); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.note + " " + f.expect.str(); }});
    }
    {
        static vector<int> P = pool("mc", true); uint64_t q = seqCount(P.size(), depth); static const char* PF[] = {"obj_", "a_", "nParticleShape1_"};
        auto gen = [=](uint64_t i, bool& ok) { Mixed x(i); int ex = x(4), where = x(2), n = NS[x(3)]; const char* pf = PF[x(3)]; vector<int> ks = kindsOf(x(q), P); ok = dist(ks); if (!ok) ks.clear(); if (where) ks.push_back(14); else ks.insert(ks.begin(), 14); Set m = mk(ks, n, 4); auto& id = m.attrs[m.find("id")]; for (int j = 0; j < n; j++) id.rows[j][0] = Word((u32)(j * 1000003 - 5)); return encMC(m, ex, pf); };
        k.spaces.push_back({"mc", 4 * 2 * 3 * 3 * q, [=](uint64_t i, Ctx& c) { bool ok; File f = gen(i, ok); if (ok) checkFile(f, c, "mc " + f.note); }, [=](uint64_t i) { bool ok; File f = gen(i, ok); return f.note + " " + f.expect.str(); }});
    }
    {   // channel names; the first underscore ends the object's name
        static const char* NM[] = {"birth_time", "_x", "a_", "a__b", "x", "rgbPP", "a b"}; static const char* PF[] = {"obj_", "nParticleShape1_", "a_"};
        auto gen = [](uint64_t i) { Mixed x(i); int n = NS[x(3)]; const char* pf = PF[x(3)]; string a = NM[x(7)], b = NM[x(7)]; Set m; m.addParticles(n); m.addAttr("id", INT, 1); m.addAttr(a.c_str(), FLOAT, 1); if (a != b) m.addAttr(b.c_str(), VECTOR, 3); fill(m, 4); for (int j = 0; j < n; j++) m.attrs[0].rows[j][0] = Word((u32)j); return encMC(m, 0, pf); };
        k.spaces.push_back({"mc names", 3 * 3 * 49, [=](uint64_t i, Ctx& c) { checkFile(gen(i), c, "mc"); }, [=](uint64_t i) { return gen(i).expect.str(); }});
    }
    {
        static const int CO[] = {3, 4, 6, 7, 8}; static const char* NL[] = {"\n", "\r\n"}; static const char* SP[] = {" ", "\t", "  "}; static const int N[] = {1, 2, 3, 10, 300};
        auto gen = [=](uint64_t i) { Mixed x(i); TextOpt o; int co = CO[x(5)]; o.style = x(5); o.nl = NL[x(2)]; o.sep = SP[x(3)]; int junk = x(2), n = N[x(5)]; return encPTS(co, n, x(5), o, junk); };
        k.spaces.push_back({"pts", 5 * 5 * 2 * 3 * 2 * 5 * 5, [=](uint64_t i, Ctx& c) { checkFile(gen(i), c, "pts"); }, [=](uint64_t i) { File f = gen(i); return f.note + " " + f.expect.str(); }});
    }
    {
        static const int N[] = {0, 1, 2, 5, 100};
        k.spaces.push_back({"bin", 13 * 5 * 7, [=](uint64_t i, Ctx& c) { Mixed x(i); int v = x(13) + 1, n = N[x(5)]; checkFile(encBIN(v, n, x(7)), c, mc::fmt("bin version %d", v)); }, [](uint64_t i) { return mc::fmt("version %d", (int)(i % 13) + 1); }});
    }
}

int main(int argc, char** argv) {
    Check k; const char* p = getenv("MC_PROP"); k.property = p ? p : "C08"; k.caseTimeout = 60;
    k.assumptions = {"Files are small; values, names and counts are taken from the stated boundary alphabets."};
    if (k.property == "C08") c08(k);
    else if (k.property == "C09") { c09(k); sizeSpaces(k, [](const File& f, Ctx& c, const string& what) { if (!gzAble(f.ext)) return; string p = c.path(("s." + f.ext + ".gz").c_str()); mc::writeFile(p, gz(f.bytes)); expectSame(p, f.ext, f.bytes, c, what + ", compressed"); }); }
    else if (k.property == "C10") { c10(k); sizeSpaces(k, [](const File& f, Ctx& c, const string& what) { string p = c.path(("s." + f.ext).c_str()); mc::writeFile(p, f.bytes); compareHeaders(p, c, what); if (c.failed() || !gzAble(f.ext)) return; p += ".gz"; mc::writeFile(p, gz(f.bytes)); compareHeaders(p, c, what + ", compressed"); }); }
    else if (k.property == "C18") c18(k); else if (k.property == "C19") { c19(k); sizeSpaces(k, checkFile); } else return 3;
    return mc::drive(k, argc, argv);
}
