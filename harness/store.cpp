// Drives directories and streams; every call is an event with what it returned.
#include "h.h"
#include "RAMDirectory.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileSwitchDirectory.h"
#include "CompoundFileWriter.h"
#include "CompoundFileReader.h"
#include "ChecksumIndexInput.h"
#include "ChecksumIndexOutput.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "BufferedIndexInput.h"
#include "RAMOutputStream.h"
#include "RAMFile.h"
#include "NoLockFactory.h"
#include "FileUtils.h"
#include <boost/filesystem.hpp>

namespace vh { namespace store {

struct Mark { int pos; char ty; };
struct Dir { std::string k; DirectoryPtr d; int p = 0, s = 0; boost::shared_ptr<std::set<std::string>> ext; };
struct Out { int dir; std::string f; IndexOutputPtr o; int len = 0, pos = 0; std::vector<Mark> marks; bool sum = false; ChecksumIndexOutputPtr cs; };
struct In { IndexInputPtr i; int len, buf, group; std::vector<Mark> marks; };
struct File { int len; std::vector<Mark> marks; bool opaque; std::vector<std::string> ents; bool sum; };

struct H {
    Rng rng;
    std::string base;
    std::map<int, Dir> D;
    std::map<int, Out> O;
    std::map<int, In> I;
    std::map<std::pair<int, std::string>, File> F;      // what the driver remembers, to choose moves
    std::map<std::pair<int, std::string>, std::vector<uint8_t>> none;
    int nid = 1, np = 0;
    struct Cfw { CompoundFileWriterPtr w; int dir; std::string f; std::vector<std::string> fs; bool done = false; };
    std::map<int, Cfw> W;
    H(uint64_t s, const std::string& b) : rng(s), base(b) {}

    const char* names[9] = {"_0.fdt", "_1.cfs", "segments_3", "segments.gen", "_2.f7", "_a.s12", "notes.txt", "_3.del", "_0.fdx"};
    std::string name() { return names[rng.below(9)]; }
    int target(int d, const std::string& f) {
        Dir& x = D[d];
        if (x.k != "switch") return d;
        size_t i = f.rfind('.');
        std::string e = i == std::string::npos ? "" : f.substr(i + 1);
        return target(x.ext->count(e) ? x.p : x.s, f);
    }
    std::pair<int, std::string> key(int d, const std::string& f) { return std::make_pair(target(d, f), f); }
    int pickDir(bool writable) {
        std::vector<int> v;
        for (auto& d : D) if (!writable || d.second.k != "cfr") v.push_back(d.first);
        return v.empty() ? 0 : rng.pick(v);
    }
    bool writing(std::pair<int, std::string> k) { for (auto& o : O) if (key(o.second.dir, o.second.f) == k) return true; return false; }
    static std::string bytesJ(const std::vector<uint8_t>& v) { return jints(v); }
    static std::string code(const std::string& e) { return e; }
    template <class Fn> std::string guard(Fn f) {
        try { f(); return ""; } catch (LuceneException& e) { return exName(e); }
    }
    static int hi(int64_t v) { return (int)(v >> 32); }
    static int lo(int64_t v) { return (int)v; }

    void newDir() {
        if (D.size() >= 5) return;
        int id = nid++;
        Dir d;
        int src = 0;
        std::vector<std::string> ext;
        int pick = rng.below(7);
        static const char* kinds[] = {"ram", "fs", "mmap", "fs", "switch", "copy", "ram"};
        d.k = kinds[pick];
        if (d.k == "fs" || d.k == "mmap") {
            std::string p = base + "/d" + std::to_string(np++);
            boost::filesystem::create_directories(p);
            if (d.k == "fs") {
                SimpleFSDirectoryPtr f = newLucene<SimpleFSDirectory>(w(p), NoLockFactory::getNoLockFactory());
                if (rng.chance(50)) f->setReadChunkSize(rng.oneOf({1, 7, 100, 1024, 5000}));
                d.d = f;
            } else d.d = newLucene<MMapDirectory>(w(p), NoLockFactory::getNoLockFactory());
        } else if (d.k == "ram") d.d = newLucene<RAMDirectory>();
        else if (d.k == "copy") {
            src = pickDir(true);
            if (!src) return;
            for (auto& o : O) if (target(o.second.dir, o.second.f) == src || D[src].k == "switch") return;
            if (D[src].k == "switch")       // files of its parts that it would look for in the other part
                for (auto& f : F) if ((f.first.first == D[src].p || f.first.first == D[src].s) && key(src, f.first.second) != f.first) return;
            d.k = "ram"; d.d = newLucene<RAMDirectory>(D[src].d);
        } else {
            std::vector<int> v;
            for (auto& x : D) if (x.second.k != "switch" && x.second.k != "cfr") v.push_back(x.first);
            if (v.size() < 2) return;
            d.p = rng.pick(v);
            do d.s = rng.pick(v); while (d.s == d.p);
            static const char* es[] = {"fdt", "cfs", "gen", "", "f7", "s12", "txt", "del", "fdx"};
            d.ext = boost::make_shared<std::set<std::string>>();
            HashSet<String> he(HashSet<String>::newInstance());
            for (auto e : es) if (rng.chance(50)) { d.ext->insert(e); he.add(w(e)); ext.push_back(e); }
            d.d = newLucene<FileSwitchDirectory>(he, D[d.p].d, D[d.s].d, false);
        }
        D[id] = d;
        J j("Dir"); j.i("d", id).s("k", D[id].k).i("p", d.p).i("s", d.s).i("src", src).raw("ext", jstrs(ext)).raw("c", listing(id, src != 0)); emit(j);
        if (src) afterCopy(src, id);
    }
    void afterCopy(int src, int dst) {
        std::vector<std::pair<std::pair<int, std::string>, File>> add;
        for (auto& f : F) {
            bool mine = D[src].k == "switch" ? key(src, f.first.second) == f.first : f.first.first == src;
            if (mine && f.first.second != "notes.txt") add.push_back(std::make_pair(key(dst, f.first.second), f.second));
        }
        for (auto& a : add) F[a.first] = a.second;
    }
    std::string listing(int id, bool want) {
        if (!want) return "[]";
        HashSet<String> l = D[id].d->listAll();
        std::set<std::string> s;
        for (auto& x : l) s.insert(u8(x));
        return jstrs(s);
    }
    void openOut() {
        int d = pickDir(true);
        if (!d || O.size() >= 3) return;
        std::string f = name();
        auto k = key(d, f);
        if (writing(k)) return;
        Out o; o.dir = d; o.f = f;
        o.o = D[d].d->createOutput(w(f));
        o.sum = rng.chance(15);
        if (o.sum) { o.cs = newLucene<ChecksumIndexOutput>(o.o); o.o = o.cs; }
        F.erase(k);
        int id = nid++;
        O[id] = o;
        J j("Out"); j.i("o", id).i("d", d).s("f", f).b("sum", o.sum); emit(j);
    }
    std::vector<uint8_t> pattern(int seed, int n) {
        std::vector<uint8_t> v(n);
        for (int i = 0; i < n; ++i) v[i] = (uint8_t)((seed + i * 7 + i / 251) % 256);
        return v;
    }
    std::vector<int> cps() {
        std::vector<int> v;
        int n = rng.chance(5) ? rng.oneOf({127, 128, 300}) : rng.below(8);
        for (int i = 0; i < n; ++i) v.push_back(rng.oneOf({'a', 'z', ' ', 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff - 2, 0x20ac, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f600, 0xe9}));
        return v;
    }
    static String str(const std::vector<int>& v) { String s; for (int c : v) s += (wchar_t)c; return s; }
    int64_t bigNum() {
        int64_t v = (int64_t)rng.next();
        switch (rng.below(6)) {
        case 0: return v;
        case 1: return v & 0x7fffffff;
        case 2: return rng.below(300);
        case 3: return (int64_t)1 << rng.below(63);
        case 4: return ((int64_t)1 << rng.below(63)) - 1;
        default: return -(int64_t)rng.below(300);
        }
    }
    void write() {
        if (O.empty()) return;
        auto it = O.begin(); std::advance(it, rng.below((int)O.size()));
        Out& o = it->second;
        J j("W"); j.i("o", it->first);
        int kind = rng.below(o.sum ? 9 : 15);
        int n = 0;
        char ty = 0;
        bool overwrite = o.pos < o.len;
        switch (kind) {
        case 0: { int b = rng.below(256); o.o->writeByte((uint8_t)b); j.s("t", "byte").i("v", b); n = 1; break; }
        case 1: case 9: case 10: {
            n = rng.oneOf({0, 1, 3, 20, 100, 500, 1023, 1024, 1025, 2048, 3000}) + rng.below(3);
            if (rng.chance(6)) n = rng.oneOf({16383, 16384, 16385, 20000});
            int s = rng.below(256);
            std::vector<uint8_t> v = pattern(s, n);
            int off = rng.below(3);
            std::vector<uint8_t> pad(off, 9);
            pad.insert(pad.end(), v.begin(), v.end());
            if (rng.chance(50)) o.o->writeBytes(pad.data(), off, n);
            else o.o->writeBytes(pad.data() + off, n);
            j.s("t", "bytes").i("v", s).i("n", n);
            break;
        }
        case 2: { int v = (int)bigNum(); o.o->writeInt(v); j.s("t", "int").i("v", v); n = 4; ty = 'i'; break; }
        case 3: { int v = (int)bigNum(); o.o->writeVInt(v); j.s("t", "vint").i("v", v); ty = 'v'; break; }
        case 4: { int64_t v = bigNum(); o.o->writeLong(v); j.s("t", "long").i("v", hi(v)).i("n", lo(v)); n = 8; ty = 'l'; break; }
        case 5: { int64_t v = bigNum(); o.o->writeVLong(v); j.s("t", "vlong").i("v", hi(v)).i("n", lo(v)); ty = 'L'; break; }
        case 6: { std::vector<int> v = cps(); o.o->writeString(str(v)); j.s("t", "string").raw("v", jints(v)); ty = 's'; break; }
        case 7: {
            std::vector<std::vector<int>> kv;
            MapStringString m(MapStringString::newInstance());
            int c = rng.below(4);
            for (int i = 0; i < c; ++i) { std::vector<int> a = cps(), b = cps(); a.push_back('a' + i); m.put(str(a), str(b)); }
            std::string t = "[";
            bool f = true;
            for (auto e = m.begin(); e != m.end(); ++e) {     // in the order they are written
                auto cp = [](const String& s) { std::vector<int> v; for (wchar_t c : s) v.push_back((int)c); return v; };
                if (!f) t += ",";
                f = false;
                t += jints(cp(e->first)) + "," + jints(cp(e->second));
            }
            if (c == 0 && rng.chance(50)) m = MapStringString();
            o.o->writeStringStringMap(m);
            j.s("t", "map").raw("v", t + "]"); ty = 'm';
            break;
        }
        case 8: {
            std::vector<int> v;
            int c = rng.below(10);
            for (int i = 0; i < c; ++i) v.push_back(rng.oneOf({0, 1, 'a', 'z', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x20ac}));
            int st = rng.below(c + 1), ln = rng.below(c - st + 1);
            o.o->writeChars(str(v), st, ln);
            std::vector<int> sub(v.begin() + st, v.begin() + st + ln);
            j.s("t", "chars").raw("v", jints(sub));
            break;
        }
        case 11: {
            if (I.empty()) return;
            auto q = I.begin(); std::advance(q, rng.below((int)I.size()));
            int at = (int)q->second.i->getFilePointer();
            if (at > q->second.len) return;
            n = rng.below(q->second.len - at + 1);
            o.o->copyBytes(q->second.i, n);
            j.s("t", "copy").i("v", q->first).i("n", n);
            break;
        }
        case 12: {
            int to = rng.chance(30) ? o.len : rng.below(o.len + 1);
            o.o->seek(to);
            j.s("t", "seek").i("v", to);
            o.pos = to;
            j.i("fp", o.o->getFilePointer()); emit(j);
            return;
        }
        default: {
            o.o->flush();
            j.s("t", "flush").i("v", o.o->length()).i("fp", o.o->getFilePointer()); emit(j);
            return;
        }
        }
        int at = (int)o.o->getFilePointer();
        j.i("fp", at); emit(j);
        if (overwrite) o.marks.clear();
        else if (ty) o.marks.push_back(Mark{o.pos, ty});
        o.pos = at;
        o.len = std::max(o.len, at);
        if (o.len > 60000) closeOut(it->first);
    }
    void closeOut(int id) {
        Out& o = O[id];
        std::string how = "plain";
        if (o.sum) {
            o.cs->prepareCommit();
            how = "sum";
            if (rng.chance(20)) how = "prepared"; else o.cs->finishCommit();
        }
        o.o->close();
        F[key(o.dir, o.f)] = File{o.len + (o.sum ? 8 : 0), o.marks, false, {}, o.sum && how == "sum"};
        J j("Close"); j.i("o", id).s("how", how).i("len", D[o.dir].d->fileLength(w(o.f)));
        O.erase(id);
        if (how != "plain") {
            // read it back through the checksumming stream
        }
        emit(j);
    }
    void openIn() {
        int d = pickDir(false);
        if (!d || I.size() >= 6) return;
        std::string f = rng.chance(80) ? "" : name();
        if (f.empty()) {
            std::vector<std::string> v;
            for (auto& x : F) if (x.first == key(d, x.first.second) && !x.second.opaque) v.push_back(x.first.second);
            if (v.empty()) return;
            f = rng.pick(v);
        }
        auto k = key(d, f);
        if (writing(k) || (F.count(k) && F[k].opaque)) return;
        int buf = rng.oneOf({0, 0, 1, 2, 5, 16, 100, 1024, 4096});
        IndexInputPtr in;
        std::string ex = guard([&] { in = buf ? D[d].d->openInput(w(f), buf) : D[d].d->openInput(w(f)); });
        int id = nid++;
        J j("In"); j.i("i", id).i("d", d).s("f", f).s("ex", ex).i("len", in ? in->length() : -1); emit(j);
        if (!in) return;
        auto& x = I[id];
        x.i = in; x.len = (int)in->length(); x.buf = buf; x.group = id;
        if (F.count(k)) x.marks = F[k].marks;
    }
    void read() {
        if (I.empty()) return;
        auto it = I.begin(); std::advance(it, rng.below((int)I.size()));
        In& x = it->second;
        int p = (int)x.i->getFilePointer();
        J j("R"); j.i("i", it->first);
        int kind = rng.below(14);
        bool drop = false;
        std::string ex;
        if (kind <= 1 && !x.marks.empty()) {            // a typed read where one was written
            Mark m = rng.pick(x.marks);
            x.i->seek(m.pos);
            j.i("at", m.pos);
            switch (m.ty) {
            case 'i': j.s("t", "int").i("v", x.i->readInt()); break;
            case 'v': j.s("t", "vint").i("v", x.i->readVInt()); break;
            case 'l': { int64_t v = x.i->readLong(); j.s("t", "long").i("v", hi(v)).i("n", lo(v)); break; }
            case 'L': { int64_t v = x.i->readVLong(); j.s("t", "vlong").i("v", hi(v)).i("n", lo(v)); break; }
            case 's': { String s = x.i->readString(); std::vector<int> v; for (wchar_t c : s) v.push_back((int)c); j.s("t", "string").raw("v", jints(v)); break; }
            default: {
                MapStringString mp = x.i->readStringStringMap();
                std::vector<std::string> v;
                for (auto e = mp.begin(); e != mp.end(); ++e) {
                    auto cp = [](const String& s) { std::vector<int> v; for (wchar_t c : s) v.push_back((int)c); return v; };
                    v.push_back("[" + jints(cp(e->first)) + "," + jints(cp(e->second)) + "]");
                }
                j.s("t", "map").raw("v", jraws(v));
            }
            }
        } else if (kind <= 3) {
            int to = rng.chance(20) ? x.len : rng.below(x.len + 1);
            x.i->seek(to);
            j.s("t", "seek").i("v", to);
        } else if (kind <= 5) {
            int b = -1;
            ex = guard([&] { b = x.i->readByte(); });
            j.s("t", "byte").i("v", b);
        } else if (kind <= 9) {
            int n = rng.oneOf({0, 1, 2, 10, 50, 100, 1000, 1024, 1030, 2100, 5000});
            if (p + n > x.len && rng.chance(80)) n = x.len - p;
            int off = rng.below(3);
            std::vector<uint8_t> b(n + off + 1, 0xAA);
            int md = rng.below(3);
            ex = guard([&] { if (md == 0) x.i->readBytes(b.data(), off, n); else x.i->readBytes(b.data(), off, n, md == 1); });
            bool intact = b[n + off] == 0xAA;
            for (int i = 0; i < off; ++i) intact = intact && b[i] == 0xAA;
            j.s("t", "bytes").i("n", n).b("intact", intact).raw("v", bytesJ(std::vector<uint8_t>(b.begin() + off, b.begin() + off + (ex.empty() ? n : 0))));
        } else if (kind == 10) {
            int v = 0;
            ex = guard([&] { v = x.i->readInt(); });
            j.s("t", "int").i("v", v).i("at", p);
        } else if (kind == 11) {
            int64_t v = 0;
            ex = guard([&] { v = x.i->readLong(); });
            j.s("t", "long").i("v", hi(v)).i("n", lo(v)).i("at", p);
        } else if (kind == 12) {
            if (I.size() >= 6) return;
            int id = nid++;
            In y = x;
            y.i = boost::dynamic_pointer_cast<IndexInput>(x.i->clone());
            I[id] = y;
            j.s("t", "clone").i("v", id).i("len", y.i->length());
        } else {
            BufferedIndexInputPtr b = boost::dynamic_pointer_cast<BufferedIndexInput>(x.i);
            if (b && rng.chance(60)) {
                int n = rng.oneOf({1, 2, 7, 100, 1024, 3000});
                b->setBufferSize(n);
                j.s("t", "buffer").i("v", n);
            } else {
                int same = 0;                    // clones need their original
                for (auto& y : I) same += y.second.group == x.group;
                if (same == 1 && rng.chance(50)) x.i->close();
                j.s("t", "drop"); drop = true;
            }
        }
        if (!ex.empty()) drop = true;
        j.s("ex", ex).i("fp", drop ? 0 : (int)x.i->getFilePointer()); emit(j);
        if (drop) I.erase(it);
    }
    void dirOp() {
        int d = pickDir(false);
        if (!d) return;
        DirectoryPtr dp = D[d].d;
        std::string f = name();
        J j("D"); j.i("d", d);
        switch (rng.below(9)) {
        case 0: {
            if (!O.empty()) return;
            j.s("t", "list").raw("v", listing(d, true));
            break;
        }
        case 1: { if (writing(key(d, f))) return; j.s("t", "exists").s("f", f).b("v", dp->fileExists(w(f))); break; }
        case 2: {
            if (writing(key(d, f)) || (F.count(key(d, f)) && F[key(d, f)].opaque)) return;
            int64_t n = -1;
            std::string ex = guard([&] { n = dp->fileLength(w(f)); });
            j.s("t", "length").s("f", f).i("v", n).s("ex", ex);
            break;
        }
        case 3: case 4: {
            if (writing(key(d, f))) return;
            for (auto& x : D) if (x.second.k == "cfr" && x.second.p == target(d, f)) return;
            std::string ex = guard([&] { dp->deleteFile(w(f)); });
            j.s("t", "delete").s("f", f).s("ex", ex);
            if (ex.empty()) F.erase(key(d, f));
            break;
        }
        case 5: {
            if (writing(key(d, f)) || !F.count(key(d, f))) return;
            uint64_t a = dp->fileModified(w(f));
            dp->touchFile(w(f));
            uint64_t b = dp->fileModified(w(f));
            j.s("t", "touch").s("f", f).b("v", b > a || D[target(d, f)].k != "ram");
            break;
        }
        case 6: {
            if (writing(key(d, f)) || !F.count(key(d, f))) return;
            std::string ex = guard([&] { dp->sync(w(f)); });
            j.s("t", "sync").s("f", f).s("ex", ex);
            break;
        }
        case 7: {
            int e = pickDir(true);
            if (!O.empty() || !e || e == d || D[d].k == "switch" || D[e].k == "switch" || D[d].k == "cfr") return;
            for (auto& x : D) if (x.second.k == "cfr" && x.second.p == e) return;
            std::string ex = guard([&] { Directory::copy(dp, D[e].d, false); });
            j.s("t", "copy").i("v", e).s("ex", ex);
            afterCopy(d, e);
            break;
        }
        default: {
            if (D[d].k != "cfr") return;
            std::string w1 = rng.chance(30) ? "create" : rng.chance(50) ? "lock" : "delete", ex;
            ex = guard([&] { if (w1 == "create") dp->createOutput(w(f)); else if (w1 == "lock") dp->makeLock(L"x"); else dp->deleteFile(w(f)); });
            j.s("t", "readonly").s("f", w1).s("ex", ex);
        }
        }
        emit(j);
    }
    void cfs() {
        int r = rng.below(10);
        if (W.empty() || r == 0) {
            if (!W.empty()) W.clear();
            int d = pickDir(true);
            if (!d) return;
            Cfw x; x.dir = d; x.f = "_9.cfs"; x.w = newLucene<CompoundFileWriter>(D[d].d, w(x.f));
            int id = nid++;
            W[id] = x;
            J j("CNew"); j.i("w", id).i("d", d).s("f", x.f); emit(j);
            return;
        }
        auto it = W.begin();
        Cfw& x = it->second;
        if (!O.empty()) return;
        if (r < 6) {
            std::vector<std::string> v;
            for (auto& f : F) if (f.first == key(x.dir, f.first.second) && !f.second.opaque && f.first.second != x.f) v.push_back(f.first.second);
            std::string f = v.empty() || rng.chance(10) ? name() : rng.pick(v);
            if (F.count(key(x.dir, f)) && F[key(x.dir, f)].opaque) return;
            if (rng.chance(3)) f = "";
            std::string ex = guard([&] { x.w->addFile(w(f)); });
            J j("CAdd"); j.i("w", it->first).s("f", f).s("ex", ex); emit(j);
            if (ex.empty()) x.fs.push_back(f);
        } else if (r < 8) {
            for (auto& q : D) if (q.second.k == "cfr" && q.second.p == target(x.dir, x.f)) return;
            std::string ex = guard([&] { x.w->close(); });
            bool fault = ex == "FileNotFound";
            bool there = D[x.dir].d->fileExists(w(x.f));
            J j("CClose"); j.i("w", it->first).s("ex", ex).b("there", there); emit(j);
            if (ex.empty()) F[key(x.dir, x.f)] = File{0, {}, true, x.fs, false};
            else if (fault || ex == "IO") F.erase(key(x.dir, x.f));
            x.done = true;
            if (fault) W.clear();
        } else {
            std::vector<std::pair<int, std::string>> v;
            for (auto& f : F) if (f.second.opaque) v.push_back(f.first);
            if (v.empty() || D.size() >= 7) return;
            auto k = rng.pick(v);
            int b = rng.oneOf({0, 1, 5, 64, 1024, 2000});
            Dir d; d.k = "cfr"; d.p = k.first;
            d.d = b ? newLucene<CompoundFileReader>(D[k.first].d, w(k.second), b) : newLucene<CompoundFileReader>(D[k.first].d, w(k.second));
            int id = nid++;
            D[id] = d;
            for (auto& e : F[k].ents) F[std::make_pair(id, e)] = File{0, {}, false, {}, false};
            J j("COpen"); j.i("d", id).i("p", k.first).s("f", k.second); emit(j);
        }
    }
    void closeCfr() {
        for (auto it = D.begin(); it != D.end(); ++it) if (it->second.k == "cfr" && rng.chance(20)) {
            CompoundFileReaderPtr c = boost::dynamic_pointer_cast<CompoundFileReader>(it->second.d);
            // whatever reads from it goes first
            J j0("DropIns"); std::vector<int> gone;
            for (auto i = I.begin(); i != I.end();) { gone.push_back(i->first); i = I.erase(i); }
            j0.raw("i", jints(gone)); emit(j0);
            c->close();
            std::vector<std::string> es;
            std::string e1 = guard([&] { c->close(); });
            std::string e2 = guard([&] { c->openInput(w("_0.fdt")); });
            for (auto f = F.begin(); f != F.end();) if (f->first.first == it->first) f = F.erase(f); else ++f;
            J j("CfrClosed"); j.i("d", it->first).s("e1", e1).s("e2", e2); emit(j);
            D.erase(it);
            return;
        }
    }
    void sums() {       // a file with a checksum says whether it is intact
        std::vector<std::pair<int, std::string>> v;
        for (auto& f : F) if (f.second.sum && f.second.len < 5000) v.push_back(f.first);
        if (v.empty()) return;
        auto k = rng.pick(v);
        IndexInputPtr raw = D[k.first].d->openInput(w(k.second));
        int len = (int)raw->length();
        std::vector<uint8_t> b(len);
        raw->readBytes(b.data(), 0, len);
        int flip = rng.chance(50) && len > 8 ? rng.below(len - 8) : -1;
        if (flip >= 0) b[flip] ^= (uint8_t)(1 << rng.below(8));
        RAMDirectoryPtr tmp = newLucene<RAMDirectory>();
        IndexOutputPtr o = tmp->createOutput(L"x");
        o->writeBytes(b.data(), len);
        o->close();
        ChecksumIndexInputPtr ci = newLucene<ChecksumIndexInput>(tmp->openInput(L"x"));
        int at = 0;
        while (at < len - 8) {
            if (rng.chance(30)) { ci->readByte(); ++at; }
            else { int n = rng.range(0, len - 8 - at); std::vector<uint8_t> t(n + 1); ci->readBytes(t.data(), 0, n); at += n; }
        }
        int64_t sum = ci->getChecksum();
        int64_t said = ci->readLong();
        J j("Sum"); j.i("d", k.first).s("f", k.second).b("flip", flip >= 0).b("ok", sum == said); emit(j);
    }
    void ramStream() {      // a RAM stream not in any directory: written, copied out, reset and written again
        RAMOutputStreamPtr r = newLucene<RAMOutputStream>();
        RAMDirectoryPtr tmp = newLucene<RAMDirectory>();
        for (int round = 0; round < 2; ++round) {
            std::vector<std::string> parts;
            int n = rng.below(5);
            for (int i = 0; i < n; ++i) {
                int s = rng.below(256), len = rng.oneOf({0, 1, 10, 1023, 1024, 1025, 2048, 3000});
                std::vector<uint8_t> v = pattern(s, len);
                r->writeBytes(v.data(), 0, len);
                parts.push_back("[" + std::to_string(s) + "," + std::to_string(len) + "]");
            }
            std::string f = "x" + std::to_string(round);
            IndexOutputPtr o = tmp->createOutput(w(f));
            r->writeTo(o);
            o->close();
            int len = (int)tmp->fileLength(w(f));
            std::vector<uint8_t> b(len);
            tmp->openInput(w(f))->readBytes(b.data(), 0, len);
            J j("RamStream"); j.raw("parts", jraws(parts)).raw("v", jints(b)).i("fp", r->getFilePointer()); emit(j);
            r->reset();
        }
    }
    void step() {
        int r = rng.below(100);
        if (r < 4 || D.empty()) newDir();
        else if (r < 14) openOut();
        else if (r < 40) write();
        else if (r < 48) { if (!O.empty()) { auto it = O.begin(); std::advance(it, rng.below((int)O.size())); closeOut(it->first); } }
        else if (r < 58) openIn();
        else if (r < 83) read();
        else if (r < 91) dirOp();
        else if (r < 97) cfs();
        else if (r < 98) closeCfr();
        else if (r < 99) sums();
        else if (rng.chance(20)) ramStream();
    }
};

static int run(const Opts& o) {
    fastSleep = true;
    uint64_t seed = o.u64("seed", 1);
    int hists = o.num("hists", 20), len = o.num("len", 100);
    for (int h = 0; h < hists; ++h) {
        std::string b = scratch + "/h" + std::to_string(h);
        boost::filesystem::create_directories(b);
        { J j("Reset"); emit(j); }
        {
            H x(seed * 1000003 + h, b);
            x.newDir(); x.newDir();
            for (int i = 0; i < len; ++i) x.step();
        }
        boost::filesystem::remove_all(b);
    }
    return 0;
}
static Cmd reg("store", run);
} }
