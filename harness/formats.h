// Spaces of files shared by the checks of readers and writers.
#pragma once
#include "codec.h"
#include <locale>

namespace formats {
using namespace codec;
using mc::Ctx; using mc::Check; using mc::Space; using mc::Mixed; using mc::thorough;
using mc::seqCount; using mc::seqDecode;

inline ParticlesDataMutable* rd(const string& path, string* err = nullptr) { std::ostringstream e; ParticlesDataMutable* p = Partio::read(path.c_str(), true, e); if (err) *err = e.str(); return p; }
inline ParticlesInfo* rdh(const string& path, string* err = nullptr) { std::ostringstream e; ParticlesInfo* p = Partio::readHeaders(path.c_str(), true, e); if (err) *err = e.str(); return p; }
inline void wr(const string& path, const ParticlesData& p, bool gz = false, string* err = nullptr) { std::ostringstream e; Partio::write(path.c_str(), p, gz, true, e); if (err) *err = e.str(); }

// sequences of distinct kinds from a list, lengths 0..d (duplicates collapse into shorter sets)
inline vector<int> kindsOf(uint64_t i, const vector<int>& pool) { vector<int> k = seqDecode(i, pool.size()), r; for (int x : k) r.push_back(pool[x]); return r; }
inline bool distinct(const vector<int>& k) { std::set<int> s(k.begin(), k.end()); return s.size() == k.size(); }
inline string kindStr(const vector<int>& k) { string s; for (int x : k) s += string(KIND[x].name) + ":" + TypeName(KIND[x].t) + std::to_string(KIND[x].c) + " "; return s; }
inline vector<int> allKinds() { vector<int> v; for (int i = 0; i < NKIND; i++) v.push_back(i); return v; }

// pools of kinds that a foreign program could put into each format
inline vector<int> pool(const string& f, bool withPos) {
    vector<int> v;
    for (int i = 0; i < NKIND; i++) {
        Attr a; a.name = KIND[i].name; a.type = KIND[i].t; a.count = KIND[i].c;
        if (!withPos && a.name == "position") continue;
        if (f == "mc") { if (!(a.type == VECTOR && a.count == 3) && !(a.type == FLOAT && a.count == 1)) continue; if (!word(a.name) || a.name == "id") continue; }
        else if (f == "pda") { if (a.count != (a.type == VECTOR ? 3 : 1) || a.type == INDEXEDSTR || !word(a.name)) continue; }
        else if (f == "pdc") { if (a.count != (a.type == VECTOR ? 3 : 1) || a.type == INDEXEDSTR) continue; }
        else if (f == "pdb") { if (a.type == INDEXEDSTR) continue; }
        else if (f == "geo") { if (!word(a.name)) continue; }
        v.push_back(i);
    }
    return v;
}

// one small file of every format and variant
inline const vector<File>& corpus() {
    static vector<File> c;
    if (!c.empty()) return c;
    auto add = [&](File f, const string& note) { f.note = note + " " + f.note; c.push_back(f); };
    auto bg = [&](vector<int> k, int n, vector<int> fx, BgeoOpt o, u32 seed) {
        Set m = mk(k, n, seed); for (int x : fx) m.addFixed(KIND[x].name, KIND[x].t, KIND[x].c); fill(m, seed); return encBGEO(m, o);
    };
    BgeoOpt o0, o1, o2; o1.prims = 1; o1.extra = 1; o2.prims = 2; o2.defaults = 1; o2.w = 2;
    add(bg({0}, 0, {}, o0, 1), "bgeo empty"); add(bg({0}, 1, {}, o1, 1), "bgeo position");
    add(bg({0, 1, 3, 4}, 2, {3, 4}, o2, 2), "bgeo mixed"); add(bg({0, 4}, 3, {4, 2}, o1, 3), "bgeo strings");
    TextOpt t0, t1; t1.style = 1; t1.nl = "\r\n"; t1.sep = "  "; t1.quote = 0;
    add(encGEO(mk({0}, 0)), "geo empty"); add(encGEO(mk({0, 1, 3, 4}, 2), t0), "geo mixed"); add(encGEO(mk({0, 4, 2}, 3), t1, 0), "geo strings");
    add(encPDA(mk({0, 1, 3}, 2)), "pda mixed"); add(encPDA(mk({0}, 0), t1), "pda empty"); add(encPDA(mk({1, 3}, 3), t1), "pda");
    add(encPDB(mk({0, 3, 1}, 2), 32, 1), "pdb32"); add(encPDB(mk({0, 3, 1}, 2), 64, 2), "pdb64"); add(encPDB(mk({0}, 0), 32), "pdb32 empty"); add(encPDB(mk({0, 1}, 1), 64, -1, "pdb64"), "pdb64 ext"); add(encPDB(mk({0, 1}, 1), 32, -1, "pdb32"), "pdb32 ext");
    for (int v = 0; v < 3; v++) add(encPTC(v, {{"float", "f"}, {"color", "c"}, {"vector", "v"}}, v == 2 ? 1 : 2, v, {{0, 0}, {100, 40000}}), "ptc");
    add(encPTC(1, {{"matrix", "m"}}, 1, 9), "ptc matrix"); add(encPTC(0, {}, 0, 9), "ptc empty");
    add(encPDC(mk({0, 3, 1}, 2), 7), "pdc"); add(encPDC(mk({0}, 0)), "pdc empty"); add(encPDC(mk({2, 1}, 3)), "pdc");
    { Set m = mk({14, 0, 1}, 2); m.attrs[0].rows[0][0] = Word(1); m.attrs[0].rows[1][0] = Word(2); add(encMC(m, 3), "mc"); Set e = mk({0, 14}, 1); e.attrs[1].rows[0][0] = Word(7); add(encMC(e, 0), "mc one"); }
    for (int cols : {3, 4, 6, 7, 8}) add(encPTS(cols, 2, cols, cols & 1 ? t0 : t1, cols == 6), "pts");
    for (int v : {1, 3, 4, 5, 7, 9, 11, 12, 13}) if (v != 1 && v != 4 && v != 9) add(encBIN(v, v == 5 ? 1 : 2, v), "bin"); add(encBIN(11, 0, 1), "bin empty");
    vector<PrtChan> pc = {{"Position", 4, 3, 0}, {"ID", 2, 1, 4}, {"half", 3, 2, 0}, {"Byte", 9, 1, 1}};
    auto val = [](int j, int i, int k) -> uint64_t { return i == 0 ? fbits(j + k * .5f) : i == 1 ? (uint64_t)(j * 10 + 3) : i == 2 ? (uint64_t)(0x3c00 + j) : (uint64_t)(200 + j); };
    add(encPRT(pc, 2, val), "prt"); PrtOpt po; po.headersize = 0x40; po.channelsize = 48; po.order = {2, 0, 3, 1}; add(encPRT(pc, 1, val, po), "prt wide"); add(encPRT(pc, 0, val), "prt empty");
    return c;
}

// schema and (approximate: PTC normals unknown) contents of a file against its expectation
inline string why(const string& err) { return err.empty() ? "" : " (" + err.substr(0, 160) + ")"; }
}  // namespace formats
