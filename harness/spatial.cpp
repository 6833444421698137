// C05: spatial queries after sort() against brute force, over every small point arrangement on an exact
// grid, every tree size and layout up to a bound, and every query of a grid of boxes / centres / radii / N.
#include "model.h"
using namespace model;
using mc::Ctx;

struct P3 { float x[3]; };

static void checkBox(const ParticlesData& p, const vector<P3>& pts, const float lo[3], const float hi[3], Ctx& c) {
    vector<ParticleIndex> r{777, 778};
    p.findPoints(lo, hi, r);
    if (r.size() < 2 || r[0] != 777 || r[1] != 778) return c.fail("findPoints disturbed what was already in the result");
    vector<int> hit(pts.size(), 0);
    for (size_t i = 2; i < r.size(); i++) {
        if (r[i] >= pts.size()) return c.fail("findPoints returns particle %llu of %d", (unsigned long long)r[i], (int)pts.size());
        if (hit[r[i]]++) return c.fail("findPoints returns particle %d twice", (int)r[i]);
    }
    for (size_t i = 0; i < pts.size(); i++) {
        bool in = true; for (int a = 0; a < 3; a++) if (pts[i].x[a] < lo[a] || pts[i].x[a] > hi[a]) in = false;
        if (in != (bool)hit[i]) return c.fail("box (%g %g %g)-(%g %g %g): particle %d at (%g %g %g) is %s", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], (int)i, pts[i].x[0], pts[i].x[1], pts[i].x[2], in ? "missing" : "reported though outside");
    }
    c.transitions();
}

static void checkNear(const ParticlesData& p, const vector<P3>& pts, const float q[3], int asked, float R, Ctx& c, bool exactFp = true) {
    const int N = std::max(0, asked);
    vector<double> d(pts.size()); double r2 = (double)R * R;
    for (size_t i = 0; i < pts.size(); i++) { d[i] = 0; for (int a = 0; a < 3; a++) { double t = (double)pts[i].x[a] - q[a]; d[i] += t * t; } }
    vector<double> s(d); std::sort(s.begin(), s.end());
    double tol = exactFp ? 0 : 1e-5;
    int strict = 0, incl = 0; for (double x : s) { if (x < r2 * (1 - tol)) strict++; if (x <= r2 * (1 + tol)) incl++; }
    for (int form = 0; form < 2; form++) {
        vector<ParticleIndex> r{5, 6, 7}; vector<float> ds{1, 2}; float fr2 = -1; int n;
        if (form == 0) { p.findNPoints(q, asked, R, r, ds); n = (int)r.size(); if (ds.size() != r.size()) return c.fail("findNPoints: %d points but %d distances", n, (int)ds.size()); }
        else {
            r.assign(N + 2, 99999); ds.assign(N + 2, -5.f);
            n = p.findNPoints(q, asked, R, r.data(), ds.data(), &fr2);
            if (n < 0 || n > N) return c.fail("findNPoints returns %d of %d requested", n, N);
            if (r[N] != 99999 || ds[N + 1] != -5.f) return c.fail("findNPoints wrote past the requested size");
        }
        string where = mc::fmt("centre (%g %g %g) N=%d radius=%g form %d: ", q[0], q[1], q[2], N, R, form);
        if (n < std::min(N, strict) || n > std::min(N, incl)) return c.fail("%sfound %d, expected %d (of %d within)", where.c_str(), n, std::min(N, strict), incl);
        vector<int> hit(pts.size(), 0); vector<double> got;
        for (int i = 0; i < n; i++) {
            if (r[i] >= pts.size()) return c.fail("%sreturns particle %llu", where.c_str(), (unsigned long long)r[i]);
            if (hit[r[i]]++) return c.fail("%sreturns particle %d twice", where.c_str(), (int)r[i]);
            if (std::fabs(ds[i] - d[r[i]]) > 1e-5 * d[r[i]]) return c.fail("%sparticle %d reported at squared distance %g, is at %g", where.c_str(), (int)r[i], ds[i], d[r[i]]);
            got.push_back(d[r[i]]);
        }
        std::sort(got.begin(), got.end());
        for (int i = 0; i < n; i++) if (std::fabs(got[i] - s[i]) > tol * s[i]) return c.fail("%sresult number %d is at squared distance %g, the nearest such is at %g", where.c_str(), i, got[i], s[i]);
        if (form == 1) {
            double e = n == N && n > 0 ? got.back() : r2;
            if (std::fabs(fr2 - e) > 1e-5 * e) return c.fail("%sfinal squared radius is %g, expected %g", where.c_str(), fr2, e);
        }
        c.transitions();
    }
}

static ParticlesDataMutable* make(const vector<P3>& pts, int variant) {
    ParticlesDataMutable* p = (variant & 1) ? createInterleave() : create();
    if (variant & 2) p->addAttribute("pad", INT, 2);
    ParticleAttribute a = p->addAttribute("position", VECTOR, 3); p->addAttribute("after", FLOAT, 1);
    if (pts.size()) p->addParticles((int)pts.size());
    for (size_t i = 0; i < pts.size(); i++) p->set(a, i, pts[i].x);
    p->sort();
    return p;
}
static uint64_t hp(const vector<P3>& v) { return mc::hash64(v.data(), v.size() * sizeof(P3)) + v.size(); }
static string sp(const vector<P3>& v) { string s; for (auto& p : v) { if (s.size() > 300) { s += "..."; break; } s += mc::fmt("(%g %g %g)", p.x[0], p.x[1], p.x[2]); } return s; }

static const P3 ALPHA[] = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}, {{1, 1, 1}}, {{2, 1, 0}}, {{-1, 0, 2}}};

static vector<P3> decodePts(uint64_t i) { vector<P3> v; for (int k : mc::seqDecode(i, 7)) v.push_back(ALPHA[k]); return v; }

static mc::Space arrangements(int depth) {
    auto run = [](uint64_t i, Ctx& c) {
        vector<P3> pts = decodePts(i / 2);
        ParticlesDataMutable* p = make(pts, (int)(i & 1) * 2 + ((i >> 1) % 3 == 0));
        static const float G[] = {-1, 0, 0.5f, 1, 2};
        for (int a = 0; a < 5 && !c.failed(); a++) for (int b = a; b < 5 && !c.failed(); b++) for (int e = 0; e < 3 && !c.failed(); e++) {
            float lo[3] = {-5, -5, -5}, hi[3] = {5, 5, 5}; lo[e] = G[a]; hi[e] = G[b];
            checkBox(*p, pts, lo, hi, c);
            float lo2[3] = {G[a], G[a], G[a]}, hi2[3] = {G[b], G[b], G[b]}; lo2[e] = -1; hi2[e] = 0.5f;
            checkBox(*p, pts, lo2, hi2, c);
        }
        for (auto& q : ALPHA) for (int off = 0; off < 2; off++) for (float R : {0.5f, 1.25f, 2.f, 100.f}) for (int N = -1; N <= (int)pts.size() + 1; N++) {
            if (c.failed()) break;
            float cc[3] = {q.x[0] + off * 0.25f, q.x[1], q.x[2] - off * 0.25f}; checkNear(*p, pts, cc, N, R, c);
        }
        c.trace(); c.state(hp(pts)); p->release();
    };
    return {"all arrangements", mc::seqCount(7, depth) * 2, run, [](uint64_t i) { return sp(decodePts(i / 2)); }};
}

static vector<P3> layout(int kind, int n) {
    vector<P3> v(n);
    for (int i = 0; i < n; i++) {
        float f = (float)i; int s = 1; while (s * s * s < n) s++;
        switch (kind) {
        case 0: v[i] = {{f, 0, 0}}; break;
        case 1: v[i] = {{0, -f, 0}}; break;
        case 2: v[i] = {{1, 1, (float)(n - i)}}; break;
        case 3: v[i] = {{3, 3, 3}}; break;
        case 4: v[i] = {{(float)(i % s), (float)(i / s % s), (float)(i / s / s)}}; break;
        case 5: v[i] = {{(float)(i * 37 % 101), (float)(i * 53 % 97), (float)(i * 71 % 89)}}; break;
        case 6: v[i] = {{(float)(i % 2), (float)(i % 3), (float)(i % 5)}}; break;
        case 7: v[i] = {{(float)(i * i % 16) - 8, (float)(i & 1 ? -i : i), 0.25f * (i % 7)}}; break;
        case 8: v[i] = {{(i & 1 ? 1.f : -1.f) * 1024.f * (i % 9), f * 0.125f, -f}}; break;
        }
    }
    return v;
}
static mc::Space layouts(int maxN, bool big) {
    auto sizes = std::make_shared<vector<int>>(); for (int i = 0; i <= maxN; i++) sizes->push_back(i);
    for (int b : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}) if (b > maxN) sizes->push_back(b);
    if (big) for (int b : {4095, 4096, 5000, 65536, 65537, 100000}) sizes->push_back(b);
    auto run = [=](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int kind = d(9), var = d(4), n = (*sizes)[d(sizes->size())];
        vector<P3> pts = layout(kind, n); ParticlesDataMutable* p = make(pts, var);
        vector<P3> qs{{{0, 0, 0}}, {{3, 3, 3}}, {{-7.5f, 2, 40}}};
        if (n) { qs.push_back(pts[0]); qs.push_back(pts[n / 2]); qs.push_back(pts[n - 1]); for (int k = 0; k < 3; k++) qs.back().x[k] += 0.25f; }
        for (auto& q : qs) for (float R : {0.5f, 1.5f, 3.f, 20.f, 1e4f}) for (int N : {1, 2, 3, 5, 8, 17, 64, n / 2, n, n + 1}) {
            if (c.failed()) break; if (N >= 1) checkNear(*p, pts, q.x, N, R, c);
        }
        for (auto& q : qs) for (float h : {0.f, 0.5f, 1.f, 4.f, 30.f}) for (int ax = 0; ax < 4; ax++) {
            if (c.failed()) break;
            float lo[3], hi[3]; for (int k = 0; k < 3; k++) { float hh = ax == 3 || ax == k ? h : 1e5f; lo[k] = q.x[k] - hh; hi[k] = q.x[k] + hh; }
            checkBox(*p, pts, lo, hi, c);
        }
        c.trace(); c.state(hp(pts)); p->release();
    };
    return {"layouts", sizes->size() * 36, run, [=](uint64_t i) { mc::Mixed d(i); int k = d(9), v = d(4), n = (*sizes)[d(sizes->size())]; return mc::fmt("layout %d, variant %d, %d points", k, v, n); }};
}
// histories: sort, change the set, sort again; magnitudes
static mc::Space histories() {
    auto run = [](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int n0 = d(6), add = d(5), move = d(3), var = d(2), mag = d(5);
        float M = (float[]){1.f, 1e-10f, 1e6f, 1e15f, 3e-3f}[mag];
        vector<P3> pts = layout(5, n0); for (auto& p : pts) for (float& x : p.x) x *= M;
        ParticlesDataMutable* p = make(pts, var); ParticleAttribute a; p->attributeInfo("position", a);
        for (int k = 0; k < add; k++) { ParticleIndex j = p->addParticle(); P3 q = layout(7, 40)[k * 7 + 3]; for (float& x : q.x) x *= M; p->set(a, j, q.x); pts.push_back(q); }
        if (move == 1 && pts.size()) { P3 q{{50 * M, 51 * M, 52 * M}}; p->set(a, 0, q.x); pts[0] = q; }
        if (move == 2) for (size_t j = 0; j < pts.size(); j++) { for (float& x : pts[j].x) x = -x; p->set(a, j, pts[j].x); }
        p->sort(); if (move) p->sort();
        for (size_t j = 0; j < pts.size(); j++) if (memcmp(p->data<float>(a, j), pts[j].x, 12)) c.fail("sort() changed the particle data");
        for (float R : {0.5f, 30.f, 1000.f}) for (int N : {1, 2, 5, 20}) for (size_t j = 0; j < pts.size() && !c.failed(); j++) checkNear(*p, pts, pts[j].x, N, R * M, c, false);
        for (float h : {0.f, 20.f, 1000.f}) for (size_t j = 0; j < pts.size() && !c.failed(); j++) { float lo[3], hi[3]; for (int k = 0; k < 3; k++) { lo[k] = pts[j].x[k] - h * M; hi[k] = pts[j].x[k] + h * M; } checkBox(*p, pts, lo, hi, c); }
        c.trace(); c.state(hp(pts)); p->release();
    };
    return {"histories", 6 * 5 * 3 * 2 * 5, run, [](uint64_t i) { mc::Mixed d(i); int a = d(6), b = d(5), m = d(3), v = d(2), g = d(5); return mc::fmt("%d points sorted, %d added, move %d, container %d, magnitude class %d, sorted again", a, b, m, v, g); }};
}
// without sort() or without a usable position nothing is found and nothing is disturbed
static mc::Space unsorted() {
    auto run = [](uint64_t i, Ctx& c) {
        mc::Mixed d(i); int var = d(2), kind = d(4);
        ParticlesDataMutable* p = var ? createInterleave() : create();
        if (kind == 1) p->addAttribute("position", INT, 3); if (kind == 2) p->addAttribute("position", VECTOR, 2); if (kind == 3) p->addAttribute("position", VECTOR, 3);
        if (kind == 3) p->addParticles(0); else p->addParticles(3);
        p->sort();
        float q[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; vector<ParticleIndex> r{7}; p->findPoints(q, hi, r);
        if (r.size() != 1 || r[0] != 7) c.fail("findPoints on an unsortable set adds %d points", (int)r.size() - 1);
        ParticleIndex ri[4]; float ds[4], fr;
        if (p->findNPoints(q, 3, 10, ri, ds, &fr) != 0) c.fail("findNPoints on an unsortable set finds points");
        if (kind == 3) { vector<ParticleIndex> r2{1, 2}; vector<float> d2{1}; p->findNPoints(q, 3, 10, r2, d2); if (r2.size() || d2.size()) c.fail("findNPoints on an empty set returns %d points", (int)r2.size()); if (fr != 100) c.fail("final squared radius of a search of an empty set is %g", fr); }
        c.trace(); c.transitions(3); c.state(i + 1); p->release();
    };
    return {"unsortable", 8, run, [](uint64_t i) { return mc::fmt("container %d kind %d", (int)(i % 2), (int)(i / 2)); }};
}

int main(int argc, char** argv) {
    bool T = mc::thorough();
    mc::Check k; k.property = "C05";
    k.rule = "every arrangement of up to 4 (thorough 5) points over a 7-position grid with repeats, every tree size up to the bound in 9 layouts, and set/sort histories; each with the full grid of boxes, centres, radii and neighbour counts, compared with brute force";
    k.spaces = {arrangements(T ? 6 : 5), layouts(T ? 200 : 70, T), histories(), unsorted()};
    k.assumptions = {"points at exactly the search radius may be reported or not", "coordinates and queries outside the grids are not explored; NaN positions are excluded", "ties between equidistant particles may be broken either way"};
    return mc::drive(k, argc, argv);
}
