// C15: zip archives, and the streams that read and write members and gzip files.
#include "codec.h"
#include <io/ZIP.h>
using namespace codec;
using mc::Ctx; using mc::Check; using mc::Mixed; using mc::thorough;

static string content(int kind, size_t n, u32 seed = 1) {
    string s(n, '\0'); u32 z = seed * 7919 + 17;
    for (size_t i = 0; i < n; i++) {
        z = z * 1664525 + 1013904223;
        if (kind == 0) s[i] = 0; else if (kind == 1) s[i] = (char)(z >> 24); else if (kind == 2) s[i] = "PK\x05\x06PK\x01\x02PK\x03\x04"[i % 12]; else s[i] = "abc\n"[(z >> 20) & 3];
    }
    return s;
}
struct Member { string name, data; };

// strict decoding of an archive the library wrote
static bool parseZip(const string& b, std::vector<Member>& out, string& why) {
    auto u16 = [&](size_t o) { return (u32)(unsigned char)b[o] | (u32)(unsigned char)b[o + 1] << 8; };
    auto u4 = [&](size_t o) { return u16(o) | u16(o + 2) << 16; };
    if (b.size() < 22) { why = "shorter than an end record"; return false; }
    size_t e = b.size() - 22;
    if (u4(e) != 0x06054b50) { why = "no end record at the end"; return false; }
    u32 n = u16(e + 10), cs = u4(e + 12), co = u4(e + 16);
    if (u16(e + 8) != n || u16(e + 4) || u16(e + 6) || u16(e + 20)) { why = "bad end record"; return false; }
    if ((size_t)co + cs != e) { why = "central directory size or offset is wrong"; return false; }
    size_t p = co, expectLocal = 0;
    for (u32 i = 0; i < n; i++) {
        if (p + 46 > e || u4(p) != 0x02014b50) { why = "bad central entry"; return false; }
        u32 flags = u16(p + 8), method = u16(p + 10), crc = u4(p + 16), csz = u4(p + 20), usz = u4(p + 24), nl = u16(p + 28), xl = u16(p + 30), cl = u16(p + 32), lo = u4(p + 42);
        Member m; m.name = b.substr(p + 46, nl); p += 46 + nl + xl + cl;
        if (lo != expectLocal) { why = mc::fmt("member %u starts at %u, expected %u", i, lo, (u32)expectLocal); return false; }
        if (lo + 30 > co || u4(lo) != 0x04034b50) { why = "bad local header"; return false; }
        if (u16(lo + 6) != flags || u16(lo + 8) != method || u4(lo + 14) != crc || u4(lo + 18) != csz || u4(lo + 22) != usz || u16(lo + 26) != nl || b.substr(lo + 30, nl) != m.name) { why = "local header disagrees with the central directory"; return false; }
        size_t d = lo + 30 + nl + u16(lo + 28); if (d + csz > co) { why = "data exceed the archive"; return false; }
        if (method == 0) m.data = b.substr(d, csz);
        else if (method == 8) {
            z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, -15); m.data.resize(usz + 1); z.next_in = (Bytef*)&b[d]; z.avail_in = csz; z.next_out = (Bytef*)&m.data[0]; z.avail_out = usz + 1;
            int r = inflate(&z, Z_FINISH); size_t t = z.total_out, left = z.avail_in; inflateEnd(&z); if (r != Z_STREAM_END || left) { why = "member data are not one deflate stream"; return false; } m.data.resize(t);
        } else { why = "unknown method"; return false; }
        if (m.data.size() != usz) { why = "wrong uncompressed size"; return false; }
        if (crc32(0, (const Bytef*)m.data.data(), (uInt)m.data.size()) != crc) { why = "wrong crc"; return false; }
        expectLocal = d + csz; out.push_back(m);
    }
    if (p != e || expectLocal != co) { why = "bytes outside the members"; return false; }
    return true;
}
static string slurp(std::istream& s) { std::ostringstream o; char b[700]; while (s.read(b, sizeof b) || s.gcount()) o.write(b, s.gcount()); return o.str(); }

static void checkReader(const string& path, const std::vector<Member>& ms, Ctx& c, const string& what, bool dirs = false) {
    ZipFileReader r(path);
    std::vector<string> names; r.Get_File_List(names); std::vector<string> want; for (auto& m : ms) want.push_back(m.name);
    std::sort(names.begin(), names.end()); std::sort(want.begin(), want.end()); want.erase(std::unique(want.begin(), want.end()), want.end());
    if (names != want) return c.fail("%s: the archive lists %d members, expected %d", what.c_str(), (int)names.size(), (int)want.size());
    for (int pass = 0; pass < 3 && !c.failed(); pass++) for (size_t q = 0; q < ms.size(); q++) {
        const Member& m = ms[pass == 1 ? ms.size() - 1 - q : q];
        bool last = true; for (auto& o : ms) if (&o > &m && o.name == m.name) last = false; if (!last) continue;
        std::unique_ptr<std::istream> s(r.Get_File(m.name)); if (!s) return c.fail("%s: member '%s' is not found", what.c_str(), m.name.substr(0, 40).c_str());
        if (pass == 2) { char t[3]; s->read(t, 3); if (string(t, s->gcount()) != m.data.substr(0, 3)) return c.fail("%s: member '%s' starts wrong", what.c_str(), m.name.substr(0, 40).c_str()); continue; }  // abandoned half way
        string got = slurp(*s);
        if (got != m.data) return c.fail("%s: member '%s' reads as %d bytes%s, stored were %d", what.c_str(), m.name.substr(0, 40).c_str(), (int)got.size(), got.size() == m.data.size() ? " (different)" : "", (int)m.data.size());
    }
    std::unique_ptr<std::istream> s(r.Get_File("no such member")); if (s) return c.fail("%s: a member that does not exist is found", what.c_str());
    c.trace(); c.transitions(ms.size() + 1);
}

static const size_t SZ[] = {0, 1, 507, 508, 509, 511, 512, 513, 1016, 1017, 1024, 4095, 4096, 4097, 70000};
static const int NSZ = 15;
static const string NAMES[] = {"a", "dir/b.txt", "a b", "\xc3\xa9", string(255, 'n'), string(300, 'm') + "/x", "z"};

// operations on a stream being read, against the byte string it should deliver
static void readOps(std::istream& s, const string& d, const vector<int>& ops, Ctx& c, const string& what) {
    static const int N[] = {1, 3, 507, 508, 509, 512, 1100};
    size_t p = 0; bool canUnget = false, eof = false;
    for (int op : ops) {
        if (eof) { s.clear(); eof = false; }
        if (op < 7) { string b(N[op], '?'); s.read(&b[0], N[op]); size_t g = s.gcount(), w = std::min<size_t>(N[op], d.size() - p); if (g != w || b.substr(0, g) != d.substr(p, w)) return c.fail("%s: read(%d) at %d gives %d bytes%s, expected %d", what.c_str(), N[op], (int)p, (int)g, g == w ? " (wrong)" : "", (int)w); p += w; canUnget = w > 0; if (w < (size_t)N[op]) { eof = true; canUnget = false; if (s) return c.fail("%s: end of data is not signalled", what.c_str()); } }
        else if (op == 7) { int g = s.get(), w = p < d.size() ? (unsigned char)d[p] : EOF; if (g != w) return c.fail("%s: get at %d gives %d, expected %d", what.c_str(), (int)p, g, w); if (w == EOF) { eof = true; canUnget = false; } else { p++; canUnget = true; } }
        else if (op == 8) { int g = s.peek(), w = p < d.size() ? (unsigned char)d[p] : EOF; if (g != w) return c.fail("%s: peek at %d gives %d, expected %d", what.c_str(), (int)p, g, w); if (w == EOF) { eof = true; canUnget = false; } }
        else if (op == 9) { if (!canUnget) continue; s.unget(); if (!s) return c.fail("%s: unget at %d fails", what.c_str(), (int)p); p--; canUnget = false; }
        else if (op == 10) { s.ignore(600); p = std::min(d.size(), p + 600); canUnget = false; if (s.eof()) eof = true; }
        c.transitions();
    }
    if (eof) s.clear();
    if (slurp(s) != d.substr(p)) c.fail("%s: the rest of the data is wrong", what.c_str());
}

struct ZipOpt { bool stored, descriptor, sigless, zeroLocal, extra, comment, archiveComment, reverse, prefix, stream64; };
static size_t xLocal = 0, xCentral = 0, xComment = 0, xArchive = 0;  // lengths, where not 0
static string encZip(const std::vector<Member>& ms, int mask) {
    bool stored = mask & 1, desc = mask & 2, nosig = mask & 4, extra = mask & 8, comment = mask & 16, ac = mask & 32, reverse = mask & 64;
    struct C { u32 crc, cs, us, off; }; std::vector<C> cs; W w;
    for (size_t i = 0; i < ms.size(); i++) {
        auto& m = ms[i]; bool st = stored && !(desc); string data = m.data;
        if (!st) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, -15, 8, 0); string o(deflateBound(&z, data.size()) + 16, 0); z.next_in = (Bytef*)data.data(); z.avail_in = (uInt)data.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); data = o; }
        C c; c.crc = (u32)crc32(0, (const Bytef*)m.data.data(), (uInt)m.data.size()); c.cs = (u32)data.size(); c.us = (u32)m.data.size(); c.off = (u32)w.b.size(); cs.push_back(c);
        string lx = extra ? string("UT\x05\x00\x01" "abcd", 9) : "";
        if (xLocal) { lx = string("\x99\x99", 2); lx += (char)((xLocal - 4) & 255); lx += (char)((xLocal - 4) >> 8); lx += string(xLocal - 4, 'e'); }
        w.le<u32>(0x04034b50).le<uint16_t>(20).le<uint16_t>(desc ? 8 : 0).le<uint16_t>(st ? 0 : 8).le<uint16_t>(0x7a21).le<uint16_t>(0x5921).le<u32>(desc ? 0 : c.crc).le<u32>(desc ? 0 : c.cs).le<u32>(desc ? 0 : c.us).le<uint16_t>(m.name.size()).le<uint16_t>(lx.size()).raw(m.name).raw(lx).raw(data);
        if (desc) { if (!nosig) w.le<u32>(0x08074b50); w.le<u32>(c.crc).le<u32>(c.cs).le<u32>(c.us); }
    }
    u32 co = (u32)w.b.size();
    for (size_t q = 0; q < ms.size(); q++) {
        size_t i = reverse ? ms.size() - 1 - q : q; auto& m = ms[i]; C& c = cs[i]; string cx = extra ? string("ux\x0b\x00\x01\x04" "aaaa\x04" "bbbb", 15) : "", cm = comment ? "a comment" : ""; if (xComment) cm = string(xComment, 'c'); if (xCentral) { cx = string("\x99\x99", 2); cx += (char)((xCentral - 4) & 255); cx += (char)((xCentral - 4) >> 8); cx += string(xCentral - 4, 'e'); }
        w.le<u32>(0x02014b50).le<uint16_t>(0x031e).le<uint16_t>(20).le<uint16_t>(desc ? 8 : 0).le<uint16_t>(stored && !desc ? 0 : 8).le<uint16_t>(0x7a21).le<uint16_t>(0x5921).le<u32>(c.crc).le<u32>(c.cs).le<u32>(c.us).le<uint16_t>(m.name.size()).le<uint16_t>(cx.size()).le<uint16_t>(cm.size()).le<uint16_t>(0).le<uint16_t>(1).le<u32>(0x81a40000).le<u32>(c.off).raw(m.name).raw(cx).raw(cm);
    }
    u32 ce = (u32)w.b.size(); string arc = xArchive ? string(xArchive, 'k') : ac ? string(mask & 16 ? 5000 : 7, 'k') : "";
    w.le<u32>(0x06054b50).le<uint16_t>(0).le<uint16_t>(0).le<uint16_t>(ms.size()).le<uint16_t>(ms.size()).le<u32>(ce - co).le<u32>(co).le<uint16_t>(arc.size()).raw(arc);
    return w.b;
}

int main(int argc, char** argv) {
    Check k; k.property = "C15";
    k.rule = "Every sequence of members up to the bound over content sizes at buffer boundaries and content kinds (including zip signatures), written and read back in both orders and half read; every sequence of write operations and of read operations up to the depth on members and gzip files; every combination of layout options of foreign archives; archives exchanged with Python's zipfile.";
    k.assumptions = {"Archives are below 4 GB and not encrypted; zlib and Python's zipfile are trusted as the standard tools."};
    int NC = NSZ * 4;
    auto mem = [](int i, int pos) { Member m; m.data = content(i / NSZ, SZ[i % NSZ], i + 1); m.name = NAMES[(i + pos * 3) % 7]; if (pos) m.name += mc::fmt("%d", pos); return m; };
    auto writeArchive = [](const string& path, const std::vector<Member>& ms, size_t chunk) {
        ZipFileWriter w(path);
        for (auto& m : ms) { std::unique_ptr<std::ostream> o(w.Add_File(m.name)); for (size_t p = 0; p < m.data.size(); p += chunk) o->write(&m.data[p], std::min(chunk, m.data.size() - p)); }
    };
    auto check = [=](const std::vector<Member>& ms, Ctx& c, size_t chunk) {
        string p = c.path("t.zip"); writeArchive(p, ms, chunk); string b = mc::readFile(p), why; std::vector<Member> got;
        if (!parseZip(b, got, why)) return c.fail("the archive of %d members is not valid: %s", (int)ms.size(), why.c_str());
        if (got.size() != ms.size()) return c.fail("the archive holds %d members, expected %d", (int)got.size(), (int)ms.size());
        for (size_t i = 0; i < ms.size(); i++) if (got[i].name != ms[i].name || got[i].data != ms[i].data) return c.fail("member %d of the archive is not what was written", (int)i);
        checkReader(p, ms, c, "archive written by the library"); c.state(mc::hash64(b));
    };
    k.spaces.push_back({"member sequences", mc::seqCount(NC, 2), [=](uint64_t i, Ctx& c) { vector<int> s = mc::seqDecode(i, NC); std::vector<Member> ms; for (size_t z = 0; z < s.size(); z++) ms.push_back(mem(s[z], (int)z)); check(ms, c, i % 3 == 0 ? 1u << 20 : i % 3 == 1 ? 100 : 508); }, [=](uint64_t i) { string r; for (int z : mc::seqDecode(i, NC)) r += mc::fmt("kind %d size %d; ", z / NSZ, (int)SZ[z % NSZ]); return r; }});
    static const int S3[] = {0, 1, 508, 512, 1017}; int n3 = thorough() ? 5 : 4;
    k.spaces.push_back({"longer sequences", mc::seqCount(5, n3), [=](uint64_t i, Ctx& c) { vector<int> s = mc::seqDecode(i, 5); std::vector<Member> ms; for (size_t z = 0; z < s.size(); z++) ms.push_back({mc::fmt("m%d", (int)z), content((int)z % 4, S3[s[z]], (u32)z + 3)}); check(ms, c, 77); }, [=](uint64_t i) { string r; for (int z : mc::seqDecode(i, 5)) r += mc::fmt("%d ", S3[z]); return r; }});
    static const int MANY[] = {10, 100, 255, 256, 257, 1000};
    k.spaces.push_back({"many members", 6, [=](uint64_t i, Ctx& c) { std::vector<Member> ms; for (int z = 0; z < MANY[i]; z++) ms.push_back({mc::fmt("d%d/f%d", z % 7, z), content(z % 4, z % 40, z + 1)}); check(ms, c, 100); }, [](uint64_t i) { return mc::fmt("%d members", MANY[i]); }});
    if (thorough()) { k.spaces.push_back({"all sizes", 2100 * 3, [=](uint64_t i, Ctx& c) { std::vector<Member> ms = {{"a", content((int)(i % 3), i / 3, 5)}, {"b", "tail"}}; check(ms, c, 300); }, [](uint64_t i) { return mc::fmt("size %d", (int)(i / 3)); }}); }
    {   // write operations: put, write of n, flush; to a gzip file and to a member
        int d = thorough() ? 5 : 4; static const int WN[] = {1, 3, 507, 508, 509, 512, 1100};
        k.spaces.push_back({"write operations", 2 * mc::seqCount(9, d), [=](uint64_t i, Ctx& c) {
            bool zip = i & 1; vector<int> ops = mc::seqDecode(i / 2, 9); string want; string p = c.path(zip ? "w.zip" : "w.gz");
            auto apply = [&](std::ostream& o) { u32 z = 1; for (int op : ops) { if (op < 7) { string s = content(op % 2 ? 1 : 3, WN[op], ++z); o.write(s.data(), s.size()); want += s; } else if (op == 7) { o.put((char)('A' + z)); want += (char)('A' + z++); } else o.flush(); if (!o) return c.fail("the stream fails after an operation"); } };
            if (zip) { { ZipFileWriter w(p); { std::unique_ptr<std::ostream> o(w.Add_File("m")); apply(*o); } { std::unique_ptr<std::ostream> o(w.Add_File("n")); *o << "second"; } } std::vector<Member> got; string why; if (!parseZip(mc::readFile(p), got, why)) return c.fail("archive is not valid: %s", why.c_str()); if (got.size() != 2 || got[0].data != want || got[1].data != "second") return c.fail("member differs from what was written"); }
            else { { std::unique_ptr<std::ostream> o(Gzip_Out(p, std::ios::out | std::ios::binary)); apply(*o); } bool ok; string why, g = gunzip(mc::readFile(p), ok, why); if (!ok) return c.fail("gzip file is not valid: %s", why.c_str()); if (g != want) return c.fail("gzip file holds %d bytes that differ from the %d written", (int)g.size(), (int)want.size()); }
            c.state(mc::hash64(want) ^ zip); c.trace(); c.transitions(ops.size()); }, [=](uint64_t i) { string r = i & 1 ? "zip:" : "gzip:"; for (int z : mc::seqDecode(i / 2, 9)) r += mc::fmt(" %d", z); return r; }});
        int rdp = thorough() ? 5 : 4;
        k.spaces.push_back({"read operations", 3 * 3 * mc::seqCount(11, rdp), [=](uint64_t i, Ctx& c) {
            Mixed x(i); int src = x(3), len = x(3); vector<int> ops = mc::seqDecode(x.i, 11); static const size_t L[] = {600, 1016, 1700}; string d = content(1, L[len], 9);
            if (src == 2) { string p = c.path("r.gz"); mc::writeFile(p, gz(d)); std::unique_ptr<std::istream> s(Gzip_In(p, std::ios::in)); readOps(*s, d, ops, c, "gzip"); }
            else { string p = c.path("r.zip"); mc::writeFile(p, encZip({{"x", d}, {"y", "zz"}}, src)); ZipFileReader r(p); std::unique_ptr<std::istream> s(r.Get_File("x")); if (!s) return c.fail("member not found"); readOps(*s, d, ops, c, src ? "stored member" : "deflated member"); }
            c.trace(); c.state(mc::hash64(ops.data(), ops.size() * 4) ^ (src * 3 + len)); }, [=](uint64_t i) { Mixed x(i); int s = x(3); x(3); string r = mc::fmt("source %d:", s); for (int z : mc::seqDecode(x.i, 11)) r += mc::fmt(" %d", z); return r; }});
    }
    k.spaces.push_back({"foreign archives", 128ull * mc::seqCount(20, 2), [=](uint64_t i, Ctx& c) {
        int mask = i % 128; static const int PICK[20] = {0, 1, 2, 3, 5, 6, 7, 9, 12, 16, 17, 18, 20, 22, 31, 33, 36, 46, 51, 58}; std::vector<Member> ms; int pos = 0; for (int z : mc::seqDecode(i / 128, 20)) { ms.push_back(mem(PICK[z], pos)); pos++; }
        string p = c.path("f.zip"); mc::writeFile(p, encZip(ms, mask)); checkReader(p, ms, c, mc::fmt("foreign archive (options %d)", mask)); c.state(mc::hash64(&i, 8)); }, [](uint64_t i) { return mc::fmt("options %d members %d", (int)(i % 128), (int)(i / 128)); }});
    // Python's zipfile in both directions, in batches
    k.spaces.push_back({"python zipfile reads", 8, [=](uint64_t i, Ctx& c) {
        string dir = c.path("py"); mc::removeTree(dir); mkdir(dir.c_str(), 0755); std::vector<string> lines; int n = 0;
        for (int a = (int)i; a < NC; a += 8) for (int b : {0, 8, 22, 37}) { std::vector<Member> ms = {mem(a, 0), mem(b, 1)}; writeArchive(dir + mc::fmt("/%d.zip", n), ms, 200); for (size_t z = 0; z < 2; z++) mc::writeFile(dir + mc::fmt("/%d.%d", n, (int)z), ms[z].data); n++; }
        string py = "import zipfile,sys,os\nd=sys.argv[1]\nfor i in range(int(sys.argv[2])):\n z=zipfile.ZipFile(f'{d}/{i}.zip')\n assert z.testzip() is None\n ns=z.infolist(); assert len(ns)==2\n for k in range(2): assert z.read(ns[k])==open(f'{d}/{i}.{k}','rb').read(),(i,k)\nprint('ok')\n";
        mc::writeFile(dir + "/c.py", py); string cmd = "/usr/bin/python3 " + dir + "/c.py " + dir + mc::fmt(" %d > ", n) + dir + "/out 2>&1"; int r = system(cmd.c_str());
        if (r || mc::readFile(dir + "/out").substr(0, 2) != "ok") c.fail("Python's zipfile does not accept an archive: %s", mc::readFile(dir + "/out").c_str()); c.trace(n); c.transitions(n); mc::removeTree(dir); }, [](uint64_t i) { return mc::fmt("batch %d", (int)i); }});
    k.spaces.push_back({"python zipfile writes", 8, [=](uint64_t i, Ctx& c) {
        string dir = c.path("pz"); mc::removeTree(dir); mkdir(dir.c_str(), 0755);
        string py = "import zipfile,sys,random\nd=sys.argv[1]; v=int(sys.argv[2])\nclass NS:\n def __init__(s,f): s.f=f\n def write(s,b): return s.f.write(b)\n def flush(s): s.f.flush()\nsizes=[0,1,507,508,509,512,513,5000,70000]\nn=0\nfor a in sizes:\n for b in sizes:\n  f=open(f'{d}/{n}.zip','wb')\n  z=zipfile.ZipFile(NS(f) if v&4 else f,'w',zipfile.ZIP_DEFLATED if v&1 else zipfile.ZIP_STORED)\n  r=random.Random(n)\n  for k,s in enumerate((a,b)):\n   data=bytes(r.randrange(256 if v&2 else 3) for _ in range(s))\n   zi=zipfile.ZipInfo(f'dir/m{k}'); zi.compress_type=z.compression; zi.comment=b'hi' if v&2 else b''; zi.extra=b'AB\\x02\\x00zz' if v&1 else b''\n   z.writestr(zi,data); open(f'{d}/{n}.{k}','wb').write(data)\n  if v&2: z.comment=b'archive comment'\n  z.close(); f.close(); n+=1\n";
        mc::writeFile(dir + "/c.py", py); string cmd = "/usr/bin/python3 " + dir + "/c.py " + dir + mc::fmt(" %d > ", (int)i) + dir + "/out 2>&1"; if (system(cmd.c_str())) return c.fail("the generator failed: %s", mc::readFile(dir + "/out").c_str());
        for (int n = 0; n < 81 && !c.failed(); n++) { if ((i & 4) && !(i & 1)) { } std::vector<Member> ms = {{"dir/m0", mc::readFile(dir + mc::fmt("/%d.0", n))}, {"dir/m1", mc::readFile(dir + mc::fmt("/%d.1", n))}}; checkReader(dir + mc::fmt("/%d.zip", n), ms, c, mc::fmt("archive of Python's zipfile (options %d)", (int)i)); } mc::removeTree(dir); }, [](uint64_t i) { return mc::fmt("options %d", (int)i); }});
    {   // lengths beyond a byte, a buffer and a 16 bit word
        static const size_t BIG[] = {8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 200000, 1048575, 1048576, 1048577, 3000000}, LEN[] = {2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65000, 65535};
        k.spaces.push_back({"large members", 19 * 4 * 3, [=](uint64_t i, Ctx& c) { Mixed x(i); size_t n = BIG[x(19)]; int kd = x(4), at = x(3); std::vector<Member> ms; for (int z = 0; z < 3; z++) ms.push_back({mc::fmt("m%d", z), z == at ? content(kd, n, 5) : content(1, 40 + z, z + 1)}); check(ms, c, i % 2 ? 1u << 22 : 5000); }, [](uint64_t i) { Mixed x(i); return mc::fmt("%d bytes, %d", (int)BIG[x(19)], (int)x.i); }});
        k.spaces.push_back({"large foreign members", 19 * 4 * 3 * 4, [=](uint64_t i, Ctx& c) { Mixed x(i); size_t n = BIG[x(19)]; int kd = x(4), at = x(3), o = x(4); static const int MK[] = {0, 1, 2, 9}; std::vector<Member> ms; for (int z = 0; z < 3; z++) ms.push_back({mc::fmt("m%d", z), z == at ? content(kd, n, 5) : content(1, 40 + z, z + 1)}); string p = c.path("f.zip"); mc::writeFile(p, encZip(ms, MK[o])); checkReader(p, ms, c, "foreign archive with a large member"); c.state(i); }, [](uint64_t i) { Mixed x(i); return mc::fmt("%d bytes, %d", (int)BIG[x(19)], (int)x.i); }});
        k.spaces.push_back({"name lengths", 31 * 31, [=](uint64_t i, Ctx& c) { size_t a = LEN[i % 31], b = LEN[i / 31]; std::vector<Member> ms = {{string(a, 'n'), content(0, 20, 1)}, {string(b, 'm') , content(1, 600, 2)}, {string(a - 1, 'n'), "shorter"}}; check(ms, c, 100); if (c.failed()) return; string p = c.path("f.zip"); mc::writeFile(p, encZip(ms, (int)(i % 2))); checkReader(p, ms, c, "foreign archive with long names"); }, [](uint64_t i) { return mc::fmt("%d %d", (int)LEN[i % 31], (int)LEN[i / 31]); }});
        k.spaces.push_back({"field lengths", 31 * 4 * 4, [=](uint64_t i, Ctx& c) { Mixed x(i); size_t n = LEN[x(31)]; int f = x(4), o = x(4); static const int MK[] = {0, 1, 2, 64}; xLocal = xCentral = xComment = xArchive = 0; if (f < 2 && n < 4) n = 4; (f == 0 ? xLocal : f == 1 ? xCentral : f == 2 ? xComment : xArchive) = n; std::vector<Member> ms = {{"a", content(0, 20, 1)}, {"b", content(1, 600, 2)}, {"c", ""}}; string p = c.path("f.zip"); mc::writeFile(p, encZip(ms, MK[o])); xLocal = xCentral = xComment = xArchive = 0; checkReader(p, ms, c, "foreign archive with long fields"); c.state(i); }, [](uint64_t i) { Mixed x(i); size_t n = LEN[x(31)]; return mc::fmt("length %d of field %d", (int)n, (int)x.i); }});
        static const int MM[] = {9, 99, 100, 101, 999, 1001, 4096};
        k.spaces.push_back({"very many members", 7 * 2, [=](uint64_t i, Ctx& c) { std::vector<Member> ms; for (int z = 0; z < MM[i / 2]; z++) ms.push_back({mc::fmt("f%d", z), content(z % 4, z % 5, z + 1)}); if (i & 1) { string p = c.path("f.zip"); mc::writeFile(p, encZip(ms, 0)); checkReader(p, ms, c, "foreign archive of many members"); } else check(ms, c, 100); c.state(i); }, [](uint64_t i) { return mc::fmt("%d members", MM[i / 2]); }});
    }
    k.spaces.push_back({"failures", 3, [](uint64_t i, Ctx& c) {
        bool threw = false; try { if (i == 0) ZipFileReader r(c.path("absent.zip")); else if (i == 1) ZipFileWriter w(c.path("no/such/dir/x.zip")); else { string p = c.path("empty.zip"); { ZipFileWriter w(p); } ZipFileReader r(p); std::vector<string> n; r.Get_File_List(n); if (n.size()) c.fail("an empty archive has members"); threw = true; } } catch (std::runtime_error&) { threw = true; }
        if (!threw) c.fail("an archive that cannot be opened is not reported"); c.trace(); c.state(i); }, [](uint64_t i) { return std::to_string(i); }});
    return mc::drive(k, argc, argv);
}
