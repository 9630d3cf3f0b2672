// Random histories of writers, readers, commits, policies on real indexes; one event per public call.
#include "simdir.h"
#include "docs.h"
#include "IndexWriter.h"
#include "InfoStream.h"
#include "IndexFileDeleter.h"
#include "IndexReader.h"
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "SnapshotDeletionPolicy.h"
#include "SerialMergeScheduler.h"
#include "ConcurrentMergeScheduler.h"
#include "LogDocMergePolicy.h"
#include "LogByteSizeMergePolicy.h"
#include "RAMDirectory.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FSDirectory.h"
#include "FileUtils.h"
#include "Term.h"
#include "TermQuery.h"
#include "TermRangeQuery.h"
#include "Field.h"
#include "Document.h"
#include "DefaultSimilarity.h"
#include "Similarity.h"
#include "IndexFileNameFilter.h"
#include "MapFieldSelector.h"
#include "TermDocs.h"
#include <sys/stat.h>
#include <unistd.h>

namespace vh {
namespace {

int64_t t0ms;

// A deletion policy that records what it is shown and what it deletes.
struct PolCall { std::string ev; std::vector<int> seen, del; };
class VPolicy : public IndexDeletionPolicy {
public:
    VPolicy(int m, uint64_t seed) : mode(m), rng(seed) {}
    LUCENE_CLASS(VPolicy);
    int mode;            // 0 last only, 1 keep all, 2 keep two, 3 random
    Rng rng;
    std::vector<PolCall> calls;
    void act(const char* ev, Collection<IndexCommitPtr> cs) {
        PolCall c;
        c.ev = ev;
        int n = cs.size();
        for (int i = 0; i < n; ++i) c.seen.push_back((int)cs[i]->getGeneration());
        for (int i = 0; i < n - 1; ++i) {
            bool d = mode == 0 || (mode == 2 && i < n - 2) || (mode == 3 && rng.chance(40)) || (mode == 4 && n > 4 && i < n - 2);
            if (d) { c.del.push_back(c.seen[i]); cs[i]->deleteCommit(); }
        }
        calls.push_back(c);
    }
    virtual void onInit(Collection<IndexCommitPtr> cs) { act("init", cs); }
    virtual void onCommit(Collection<IndexCommitPtr> cs) { act("commit", cs); }
};
typedef boost::shared_ptr<VPolicy> VPolicyPtr;

class CountScheduler : public SerialMergeScheduler {
public:
    LUCENE_CLASS(CountScheduler);
    int merges = 0;
    virtual void merge(const IndexWriterPtr& wr) {
        while (true) {
            OneMergePtr m(wr->getNextMerge());
            if (!m) break;
            ++merges;
            wr->merge(m);
        }
    }
};
typedef boost::shared_ptr<CountScheduler> CountSchedulerPtr;

struct Dir {
    DirectoryPtr dir;
    Dev dev;                    // when simulated
    std::string path;           // when on disk
    IndexWriterPtr w;
    VPolicyPtr pol;
    SnapshotDeletionPolicyPtr snap;
    bool snapHeld = false;
    CountSchedulerPtr sched;
    bool prepared = false;
    int mergesBase = 0;
};
struct Rd { IndexReaderPtr r; int d; bool nrt; bool ro; bool closed = false; };

struct Prof {                    // weights of operations
    std::map<std::string, int> wt;
    bool conc = false;
};

const char* KEYS[] = {"ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh"};

struct Hist {
    Rng rng;
    std::string kind;            // ram sim fs mmap
    std::string profile;
    int nd;
    std::vector<Dir> D;
    std::map<int, Rd> R;
    int nextR = 1, nextU = 1;
    int nKeys;
    AnalyzerPtr an;
    // configuration of writers
    int maxBuf, maxDel, mf, maxMergeDocs;
    double ramMB;
    bool cfs, cds, byteSize, calibrate;
    int polMode;
    bool useSnap;
    std::set<std::string> skipN{"nf"};
    bool wantTV;
    int hist;
    std::vector<int> kIdx;       // key of uid
    int docsAdded = 0;

    // faults and power failures (profiles "fault" and "crash")
    bool faulty = false, crashing = false;
    bool armNext = false, fired = false, anyFired = false, sticky = false;
    bool closeFailed = false, opening = false;
    int afterFault = -1;                          // directory whose writer just failed
    Rng frng{1};
    std::map<uint64_t, std::string> seenImg;      // image -> what recovery from it showed
    std::vector<std::string> cr;                  // outcomes of crashes during the current call
    std::set<std::string> crSet;
    int crLeft = 0, inCrash = 0;
    bool allowBad = true;  // documents that are rejected half way; their remains come back with undeleteAll
    explicit Hist(uint64_t seed) : rng(seed) {}

    void setup(int h, const std::string& prof, const std::string& knd, const std::string& base) {
        hist = h;
        profile = prof;
        kind = knd;
        faulty = prof == "fault";
        crashing = prof == "crash" || (faulty && rng.chance(30));
        if (faulty || prof == "crash") kind = "sim";
        frng = Rng(rng.next());
        nd = (prof == "addidx") ? 3 : prof == "fault" || prof == "crash" ? 1 + rng.chance(60) : 1 + rng.chance(30);
        nKeys = rng.range(3, 8);
        allowBad = rng.chance(60);
        an = newLucene<WhitespaceAnalyzer>();
        for (int i = 0; i < nd; ++i) {
            Dir d;
            if (kind == "ram") d.dir = newLucene<RAMDirectory>();
            else if (kind == "sim") {
                d.dev = std::make_shared<SimDev>();
                d.dev->busyDelete = D.empty() ? rng.chance(25) : D[0].dev->busyDelete;
                d.dir = newSim(d.dev);
            } else {
                d.path = base + "/h" + std::to_string(h) + "_" + std::to_string(i);
                mkdir(d.path.c_str(), 0700);
                if (kind == "mmap") d.dir = newLucene<MMapDirectory>(w(d.path));
                else d.dir = newLucene<SimpleFSDirectory>(w(d.path));
            }
            D.push_back(d);
        }
        if (crashing) for (int i = 0; i < nd; ++i) hookDev(i);
        crLeft = 60;
        newConfig();
        polMode = prof == "policy" ? rng.range(0, 4) : rng.chance(60) ? 0 : rng.range(1, 4);
        useSnap = prof == "policy" ? rng.chance(60) : rng.chance(15);
        wantTV = rng.chance(70);
        J j("Reset");
        j.i("h", hist).s("kind", kind).s("profile", prof).i("nd", nd).i("maxBuf", maxBuf).i("maxDel", maxDel).i("mf", mf).b("cfs", cfs).b("cds", cds)
            .i("pol", polMode).b("snap", useSnap).b("busy", kind == "sim" && D[0].dev->busyDelete).b("faulty", faulty);
        emit(j);
    }
    void newConfig() {
        maxBuf = rng.chance(25) ? IndexWriter::DISABLE_AUTO_FLUSH : rng.range(2, 6);
        ramMB = maxBuf == IndexWriter::DISABLE_AUTO_FLUSH ? 0.04 + 0.04 * rng.below(4) : (rng.chance(30) ? 0.05 : 16.0);
        maxDel = rng.chance(50) ? IndexWriter::DISABLE_AUTO_FLUSH : rng.range(1, 3);
        mf = rng.range(2, 4);
        if (rng.chance(15)) mf = 50;
        maxMergeDocs = rng.chance(20) ? rng.range(3, 12) : INT_MAX;
        cfs = rng.chance(60);
        cds = rng.chance(50);
        byteSize = rng.chance(50);
        calibrate = rng.chance(30);
    }
    void cfgWriter(const IndexWriterPtr& wr, Dir& d) {
        d.sched = newLucene<CountScheduler>();
        wr->setMergeScheduler(d.sched);
        LogMergePolicyPtr mp;
        if (byteSize) {
            boost::shared_ptr<LogByteSizeMergePolicy> p = newLucene<LogByteSizeMergePolicy>(wr);
            p->setMinMergeMB(0.0005 * rng.range(1, 4));
            mp = p;
        } else {
            boost::shared_ptr<LogDocMergePolicy> p = newLucene<LogDocMergePolicy>(wr);
            p->setMinMergeDocs(rng.range(1, 5));
            mp = p;
        }
        mp->setNoCFSRatio(1.0);
        wr->setMergePolicy(mp);
        wr->setUseCompoundFile(cfs);
        mp->setUseCompoundDocStore(cds);
        mp->setCalibrateSizeByDeletes(calibrate);
        wr->setMergeFactor(mf);
        if (maxMergeDocs != INT_MAX) wr->setMaxMergeDocs(maxMergeDocs);
        if (maxBuf == IndexWriter::DISABLE_AUTO_FLUSH) {
            wr->setRAMBufferSizeMB(ramMB);
        } else {
            wr->setMaxBufferedDocs(maxBuf);
            wr->setRAMBufferSizeMB(ramMB);
        }
        wr->setMaxBufferedDeleteTerms(maxDel);
        wr->setTermIndexInterval(rng.oneOf({1, 2, 4, 128}));
    }

    // ---- documents ----
    DocumentPtr makeDoc(int u, int k, int norm, bool bad) {
        DocumentPtr d = newLucene<Document>();
        std::string us = std::to_string(u);
        d->add(newLucene<Field>(L"id", w("u" + us), Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        d->add(newLucene<Field>(L"k", w(KEYS[k]), Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        d->add(newLucene<Field>(L"m", w("m" + std::to_string(u % 3)), Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        FieldPtr nf = newLucene<Field>(L"nf", L"x", Field::STORE_NO, Field::INDEX_NOT_ANALYZED);
        nf->setBoost(Similarity::decodeNorm((uint8_t)norm));
        d->add(nf);
        Rng dr(u * 7919 + hist);
        if (dr.chance(85) || bad) {
            std::vector<Tok> ts;
            int n = dr.range(0, 9) + (dr.chance(8) ? 60 : 0);
            if (bad && n == 0) n = 2;
            int pos = 0;
            for (int i = 0; i < n; ++i) {
                Tok t;
                t.term = std::string("w") + char('a' + dr.below(6));
                t.inc = dr.chance(80) ? 1 : dr.below(3);
                if (i == 0 && t.inc == 0) t.inc = 1;
                t.s = pos; t.e = pos + 2; pos += 3;
                if (dr.chance(30)) { t.hasPay = true; t.pay = std::string(dr.below(4), (char)('A' + dr.below(20))); if (t.pay.empty()) t.hasPay = false; }
                ts.push_back(t);
            }
            Field::TermVector tv = !wantTV ? Field::TERM_VECTOR_NO : (u % 4 == 0 ? Field::TERM_VECTOR_NO : u % 4 == 1 ? Field::TERM_VECTOR_YES : u % 4 == 2 ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : Field::TERM_VECTOR_WITH_OFFSETS);
            d->add(newLucene<Field>(L"t", newLucene<SpecStream>(ts, bad ? dr.below(n + 1) : -1), tv));
        }
        if (dr.chance(40)) {
            FieldPtr o = newLucene<Field>(L"to", w(std::string("za zb z") + char('c' + dr.below(4))), Field::STORE_NO, Field::INDEX_ANALYZED);
            o->setOmitTermFreqAndPositions(true);
            d->add(o);
        }
        if (dr.chance(40)) d->add(newLucene<Field>(L"sb", bytes(std::string(dr.below(40), (char)(u % 251))), Field::STORE_YES));
        for (int x = 0; x < 3; ++x)
            if (dr.chance(30)) d->add(newLucene<Field>(w("x" + std::to_string(x)), w("v" + std::to_string(dr.below(5)) + " y" + us), dr.chance(50) ? Field::STORE_YES : Field::STORE_NO, Field::INDEX_ANALYZED, wantTV && x == 1 ? Field::TERM_VECTOR_YES : Field::TERM_VECTOR_NO));
        return d;
    }
    int newNorm() { return 100 + rng.below(40); }
    int newUid(int k) { kIdx.push_back(k); return nextU++; }

    // ---- observations ----
    std::string keysOf() { return ""; }
    void obs(J& j, const IndexReaderPtr& r, bool deep) {
        int n = r->maxDoc();
        std::vector<int> sl(n, 0), kk(n, -1);
        ByteArray nb = r->norms(L"nf");
        int nl = 0;
        for (int d = 0; d < n; ++d) {
            if (r->isDeleted(d)) continue;
            ++nl;
            DocumentPtr doc = r->document(d);
            String id = doc->get(L"id");
            int u = atoi(u8(id).c_str() + 1);
            int nv = nb ? nb[d] : -1;
            sl[d] = u * 1000 + nv;
        }
        j.raw("sl", jints(sl)).i("nl", r->numDocs()).b("hd", r->hasDeletions());
        if (deep) j.raw("dg", jints(deepDigest(r, skipN, true)));
        else j.raw("dg", "[]");
        std::vector<int> df, dfd;
        for (int k = 0; k < nKeys; ++k) {
            TermPtr t = newLucene<Term>(L"k", w(KEYS[k]));
            df.push_back(r->docFreq(t));
            int c = 0;
            TermDocsPtr td = r->termDocs(t);
            while (td->next()) ++c;
            td->close();
            dfd.push_back(c);
        }
        j.raw("df", jints(df)).raw("lf", jints(dfd));
        j.i("ver", ver(r->getVersion())).b("opt", r->isOptimized());
        std::vector<int> sg;
        Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
        if (subs) for (int i = 0; i < subs.size(); ++i) sg.push_back(subs[i]->maxDoc());
        j.raw("seg", jints(sg));
        MapStringString ud = r->getCommitUserData();
        j.s("ud", ud ? u8(ud.get(L"n")) : "");
    }
    static int ver(int64_t v) { return (int)(v - t0ms); }

    // commits visible in a directory, the files they need that are missing, and (with no writer open) files nobody needs
    void dirState(J& j, int di) {
        Dir& d = D[di];
        std::vector<std::string> cs;
        std::set<std::string> need;
        std::string err;
        try {
            if (IndexReader::indexExists(d.dir)) {
                Collection<IndexCommitPtr> l = IndexReader::listCommits(d.dir);
                std::map<int, std::string> byGen;
                for (int i = 0; i < l.size(); ++i) {
                    MapStringString ud = l[i]->getUserData();
                    byGen[(int)l[i]->getGeneration()] = J().i("g", l[i]->getGeneration()).i("v", ver(l[i]->getVersion())).s("ud", ud ? u8(ud.get(L"n")) : "").str();
                    HashSet<String> fs = l[i]->getFileNames();
                    for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) need.insert(u8(*f));
                }
                for (auto& b : byGen) cs.push_back(b.second);
            }
        } catch (LuceneException& e) { err = exName(e); }
        HashSet<String> fs = d.dir->listAll();
        std::set<std::string> have;
        for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) have.insert(u8(*f));
        std::vector<std::string> miss, extra;
        for (auto& f : need) if (!have.count(f)) miss.push_back(f);
        if (!d.w) for (auto& f : have) if (!need.count(f) && f != "segments.gen" && f != "write.lock") extra.push_back(f);
        j.raw("cs", jraws(cs)).raw("miss", jstrs(miss)).raw("extra", jstrs(extra)).s("lex", err);
        int maxSeg = 0, lastG = 0;
        for (auto& f : have) if (f.compare(0, 9, "segments_") == 0) maxSeg = std::max(maxSeg, (int)strtol(f.c_str() + 9, 0, 36));
        if (!cs.empty()) lastG = atoi(cs.back().c_str() + 5);
        j.b("pg", maxSeg > lastG);
        std::vector<std::string> pc;
        if (d.pol) {
            for (auto& c : d.pol->calls) pc.push_back(J().s("ev", c.ev).raw("seen", jints(c.seen)).raw("del", jints(c.del)).str());
            d.pol->calls.clear();
        }
        j.raw("pol", jraws(pc));
        j.i("mg", d.sched ? d.sched->merges : 0);
    }
    void fin(J& j, int di, const std::string& ex) {
        j.s("ex", ex);
        ++inCrash;
        dirState(j, di);
        --inCrash;
        if (faulty) { j.b("f", fired).b("sticky", sticky); if (fired && !ex.empty() && D[di].w) afterFault = di; fired = false; }
        if (crashing) {
            j.raw("cr", jraws(cr));
            cr.clear(); crSet.clear();
            for (int v = 0; v < 3 && !getenv("VNOCRASH"); ++v) crashPoint(di, v == 2 ? 4 : v);
            j.raw("fc", jraws(cr));
            cr.clear(); crSet.clear();
            crLeft = 60;
        }
        emit(j);
    }

    // ---- power failures ----
    static uint64_t imgHash(const Dev& d) {
        Hash h;
        for (auto& f : d->files) { h.add(f.first); h.add(*f.second.data); }
        return h.v;
    }
    std::vector<int> liveCodes(const IndexReaderPtr& r) {
        std::vector<int> v;
        ByteArray nb = r->norms(L"nf");
        for (int d = 0; d < r->maxDoc(); ++d)
            if (!r->isDeleted(d)) v.push_back(atoi(u8(r->document(d)->get(L"id")).c_str() + 1) * 1000 + (nb ? nb[d] : -1));
        return v;
    }
    void crashPoint(int di, int variant) {
        Dev img = D[di].dev->crash(frng, variant);
        uint64_t h = imgHash(img);
        auto it = seenImg.find(h);
        std::string o = it == seenImg.end() ? (seenImg[h] = recover(img)) : it->second;
        if (crSet.insert(o).second) cr.push_back(o);
    }
    // what is found after the crash, and whether a writer can go on from there
    std::string recover(const Dev& img) {
        ++inCrash;
        J j;
        std::vector<int> docs, dg, wd;
        std::string ex, ud, wx = "-";
        std::vector<std::string> extra;
        int g = 0;
        bool an0 = armNext; armNext = false;
        bool exists = false;
        auto plain = [&](auto f) -> std::string { try { f(); return ""; } catch (LuceneException& e) { return exName(e); } catch (std::exception& e) { return std::string("std:") + e.what(); } };
        ex = plain([&] {
            exists = IndexReader::indexExists(newSim(img));
            IndexReaderPtr r = IndexReader::open(newSim(img), true);
            docs = liveCodes(r);
            std::vector<int> all = deepDigest(r, skipN, true);
            for (int d = 0; d < r->maxDoc(); ++d) if (!r->isDeleted(d)) dg.push_back(all[d]);
            MapStringString m = r->getCommitUserData();
            ud = m ? u8(m.get(L"n")) : "";
            g = (int)r->getIndexCommit()->getGeneration();
            r->close();
        });
        if (frng.chance(25)) {
            wx = plain([&] {
                SimDirectoryPtr dir = newSim(img);
                IndexWriterPtr wr = newLucene<IndexWriter>(dir, an, ex.empty() ? false : true, IndexWriter::MaxFieldLengthUNLIMITED);
                wr->setMergeScheduler(newLucene<SerialMergeScheduler>());
                DocumentPtr doc = newLucene<Document>();
                doc->add(newLucene<Field>(L"id", L"u0", Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
                FieldPtr f = newLucene<Field>(L"k", L"ka", Field::STORE_YES, Field::INDEX_NOT_ANALYZED);
                doc->add(f);
                wr->addDocument(doc);
                wr->close();
                IndexReaderPtr r = IndexReader::open(dir, true);
                wd = liveCodes(r);
                r->close();
                if (!wd.empty()) wd.pop_back();
                std::set<std::string> need;
                Collection<IndexCommitPtr> l = IndexReader::listCommits(dir);
                for (int i = 0; i < l.size(); ++i) { HashSet<String> fs = l[i]->getFileNames(); for (auto f = fs.begin(); f != fs.end(); ++f) need.insert(u8(*f)); }
                for (auto& f : img->files) if (!need.count(f.first) && f.first != "segments.gen") extra.push_back(f.first);
            });
        }
        armNext = an0;
        --inCrash;
        j.s("x", ex).i("g", g).s("ud", ud).raw("docs", jints(docs)).raw("dg", jints(dg)).s("wx", wx).raw("wd", jints(wd)).raw("extra", jstrs(extra));
        return j.str();
    }
    void hookDev(int di) {
        D[di].dev->hook = [this, di](const char* op, const std::string&) {
            if (getenv("VNOCRASH") || !crashing || inCrash || crLeft <= 0 || !strcmp(op, "open") || !strcmp(op, "read")) return;
            --crLeft;
            crashPoint(di, 0);
            crashPoint(di, frng.oneOf({1, 2, 3}));
            crashPoint(di, 4);
            if (frng.chance(50)) crashPoint(di, 4);
        };
    }
    // the machine stops between calls; everything not on the disk is gone, and life goes on with what is
    void restart(int di) {
        Dir& d = D[di];
        std::vector<int> ids;
        for (auto& e : R) if (e.second.d == di) ids.push_back(e.first);
        for (int id : ids) { dead.push_back(R[id].r); R.erase(id); held[id] = 0; }
        if (d.w) deadW.push_back(d.w);
        d.w.reset();
        d.snapHeld = false;
        d.dev->hook = nullptr;
        Dev old = d.dev;
        d.dev = old->crash(frng, frng.oneOf({0, 1, 2, 4, 4}), false);
        deadDev.push_back(old);
        d.dir = newSim(d.dev);
        d.pol.reset();
        d.snap.reset();
        ensurePol(d);
        d.sched.reset();
        d.prepared = false;
        hookDev(di);
        J j("Restart");
        j.i("d", di);
        std::vector<int> sl;
        fin(j, di, "");
    }
    std::vector<IndexReaderPtr> dead;
    std::vector<IndexWriterPtr> deadW;
    std::vector<Dev> deadDev;
    template <class F> std::string guard(F f) {
        struct Arm {
            Hist& h; bool on;
            explicit Arm(Hist& h) : h(h), on(h.armNext && h.faulty) {
                bool opening = h.opening;
                h.armNext = h.opening = false;
                if (!on) return;
                h.sticky = h.frng.chance(25);
                int k = h.frng.oneOf({1, 2, 3, 4, 6, 8, 12, 20, 40});
                k = h.frng.range(1, k);
                static const int M[] = {~0, ~0, SimDev::WRITE, SimDev::SYNC, SimDev::CREATE, SimDev::CLOSE, SimDev::READ | SimDev::OPEN, SimDev::OPEN, SimDev::WRITE | SimDev::SYNC};
                int mask = M[h.frng.below(9)];
                if (opening) mask &= ~(SimDev::READ | SimDev::OPEN);   // by design, a commit that cannot be read is passed over
                mask &= ~SimDev::DELETE_;              // deletions that fail are the business of busyDelete
                for (auto& d : h.D) { d.dev->failed = 0; d.dev->failMask = mask; d.dev->failSticky = h.sticky; d.dev->failAt = d.dev->ops + k; }
            }
            ~Arm() {
                if (!on) return;
                for (auto& d : h.D) { if (d.dev->failed) h.fired = true; d.dev->failAt = -1; d.dev->failed = 0; }
            }
        } arm(*this);
        try { f(); return ""; }
        catch (LuceneException& e) { if (getenv("VDEBUG")) fprintf(stderr, "%s: %s\n", exName(e).c_str(), u8(e.getError()).c_str()); return exName(e); }
        catch (std::exception& e) { return std::string("std:") + e.what(); }
    }
    IndexDeletionPolicyPtr policyFor(Dir& d) { return d.snap ? IndexDeletionPolicyPtr(d.snap) : IndexDeletionPolicyPtr(d.pol); }
    void ensurePol(Dir& d) {
        if (!d.pol) {
            d.pol = newLucene<VPolicy>(polMode, rng.next());
            if (useSnap) d.snap = newLucene<SnapshotDeletionPolicy>(d.pol);
        }
    }

    // ---- operations ----
    void openW(int di, bool create, int gen) {
        Dir& d = D[di];
        ensurePol(d);
        IndexWriterPtr wr;
        J j("OpenW");
        opening = true;
        if (gen > 0) create = false;
        j.i("d", di).b("create", create).i("gen", gen);
        std::string ex = guard([&] {
            IndexCommitPtr c;
            if (gen > 0) {
                Collection<IndexCommitPtr> l = IndexReader::listCommits(d.dir);
                for (int i = 0; i < l.size(); ++i) if (l[i]->getGeneration() == gen) c = l[i];
            }
            if (c) wr = newLucene<IndexWriter>(d.dir, an, policyFor(d), IndexWriter::MaxFieldLengthUNLIMITED, c);
            else wr = newLucene<IndexWriter>(d.dir, an, create, policyFor(d), IndexWriter::MaxFieldLengthUNLIMITED);
        });
        if (ex.empty()) {
            d.w = wr;
            d.prepared = false;
            if (rng.chance(15)) newConfig();
            cfgWriter(wr, d);
        }
        fin(j, di, ex);
    }
    void add(int di, bool upd) {
        Dir& d = D[di];
        bool bad = rng.chance(7) && allowBad;
        int k = rng.below(nKeys), u = newUid(k), n = newNorm();
        J j(upd ? "Upd" : "Add");
        j.i("d", di).i("u", u).s("k", KEYS[k]).i("n", n).b("bad", bad);
        int tk = 0;
        if (upd) { tk = rng.below(nKeys); j.s("t", KEYS[tk]); }
        DocumentPtr doc = makeDoc(u, k, n, bad);
        std::string ex = guard([&] {
            if (upd) d.w->updateDocument(newLucene<Term>(L"k", w(KEYS[tk])), doc);
            else d.w->addDocument(doc);
        });
        fin(j, di, ex);
    }
    void delT(int di) {
        Dir& d = D[di];
        std::vector<std::string> ks;
        int n = rng.chance(75) ? 1 : rng.range(2, 3);
        Collection<TermPtr> ts(Collection<TermPtr>::newInstance());
        for (int i = 0; i < n; ++i) { int k = rng.below(nKeys); ks.push_back(KEYS[k]); ts.add(newLucene<Term>(L"k", w(KEYS[k]))); }
        J j("DelT");
        j.i("d", di).raw("ks", jstrs(ks));
        std::string ex = guard([&] { if (n == 1) d.w->deleteDocuments(ts[0]); else d.w->deleteDocuments(ts); });
        fin(j, di, ex);
    }
    void delQ(int di) {
        Dir& d = D[di];
        int m = rng.below(3), lo = 0, hi = 0;
        bool rangeQ = rng.chance(40);
        QueryPtr q;
        J j("DelQ");
        j.i("d", di);
        if (rangeQ) {
            lo = rng.below(nKeys); hi = rng.below(nKeys);
            q = newLucene<TermRangeQuery>(L"k", w(KEYS[lo]), w(KEYS[hi]), true, true);
            j.s("q", "range").i("m", 0);
        } else {
            q = newLucene<TermQuery>(newLucene<Term>(L"m", w("m" + std::to_string(m))));
            j.s("q", "mod").i("m", m);
        }
        std::vector<std::string> ks;
        if (rangeQ) for (int k = lo; k <= hi; ++k) ks.push_back(KEYS[k]);
        j.raw("ks", jstrs(ks));
        std::string ex = guard([&] { d.w->deleteDocuments(q); });
        fin(j, di, ex);
    }
    template <class F> void simple(const char* op, int di, F f, std::function<void(J&)> more = nullptr) {
        J j(op);
        j.i("d", di);
        if (more) more(j);
        std::string ex = guard(f);
        fin(j, di, ex);
    }
    int udc = 0;
    MapStringString mkUd(std::string& s) {
        MapStringString m;
        if (rng.chance(40)) { s = "c" + std::to_string(++udc); m = MapStringString::newInstance(); m.put(L"n", w(s)); }
        return m;
    }
    void commit(int di, bool prepare) {
        Dir& d = D[di];
        std::string s;
        MapStringString m = d.prepared ? MapStringString() : mkUd(s);
        J j(prepare ? "Prep" : "Commit");
        j.i("d", di).s("u", s);
        std::string ex = guard([&] {
            if (prepare) { if (m) d.w->prepareCommit(m); else d.w->prepareCommit(); }
            else { if (m) d.w->commit(m); else d.w->commit(); }
        });
        if (ex.empty()) d.prepared = prepare;
        fin(j, di, ex);
    }
    void closeW(int di) {
        Dir& d = D[di];
        IndexWriterPtr wr = d.w;
        J j("CloseW");
        j.i("d", di);
        std::string ex = guard([&] { wr->close(rng.chance(80)); });
        if (ex.empty()) { d.w.reset(); d.prepared = false; }
        closeFailed = fired && !ex.empty();
        fin(j, di, ex);
    }
    void rollback(int di) {
        Dir& d = D[di];
        IndexWriterPtr wr = d.w;
        J j("Rollback");
        j.i("d", di);
        std::string ex = guard([&] { wr->rollback(); });
        if (ex.empty()) { d.w.reset(); d.prepared = false; }
        fin(j, di, ex);
    }
    int addReader(const IndexReaderPtr& r, int di, bool nrt, bool ro) {
        for (auto& e : R) if (e.second.r == r) return e.first;
        Rd x; x.r = r; x.d = di; x.nrt = nrt; x.ro = ro;
        R[nextR] = x;
        return nextR++;
    }
    void openR(int di, int gen, bool ro, bool withPol) {
        Dir& d = D[di];
        J j("OpenR");
        opening = true;
        j.i("d", di).i("gen", gen).b("ro", ro).b("wp", withPol);
        IndexReaderPtr r;
        std::string ex = guard([&] {
            IndexCommitPtr c;
            if (gen > 0) {
                Collection<IndexCommitPtr> l = IndexReader::listCommits(d.dir);
                for (int i = 0; i < l.size(); ++i) if (l[i]->getGeneration() == gen) c = l[i];
            }
            if (withPol) { ensurePol(d); }
            IndexDeletionPolicyPtr p = withPol ? policyFor(d) : IndexDeletionPolicyPtr();
            if (c) r = p ? IndexReader::open(c, p, ro) : IndexReader::open(c, ro);
            else r = p ? IndexReader::open(d.dir, p, ro) : IndexReader::open(d.dir, ro);
            r->norms(L"nf");   // fill caches at once half of the time, to see them kept apart later
        });
        int id = 0;
        if (r) { id = addReader(r, di, false, ro); }
        j.i("r", id);
        std::string ex2 = r ? guard([&] { obs(j, r, true); }) : "";
        if (ex.empty()) ex = ex2;
        fin(j, di, ex);
    }
    bool getR(int di) {
        Dir& d = D[di];
        J j("GetR");
        j.i("d", di);
        IndexReaderPtr r;
        std::string ex = guard([&] { r = d.w->getReader(); });
        int id = 0;
        if (r) id = addReader(r, di, true, true);
        j.i("r", id);
        if (r && ex.empty()) ex = guard([&] { obs(j, r, true); });
        fin(j, di, ex);
        return ex.empty();
    }
    int pickR() {
        std::vector<int> v;
        for (auto& e : R) if (!e.second.closed) v.push_back(e.first);
        if (v.empty()) return 0;
        return rng.pick(v);
    }
    void check(int id, const char* op = "Check") {
        Rd& x = R[id];
        J j(op);
        j.i("d", x.d).i("r", id);
        std::string ex = guard([&] { obs(j, x.r, rng.chance(60)); j.b("cur", x.r->isCurrent()); });
        fin(j, x.d, ex);
    }
    void reopen(int id) {
        Rd x = R[id];
        int how = rng.below(10);
        int di = x.d, gen = 0;
        J j("Reopen");
        opening = true;
        j.i("d", di).i("r", id);
        IndexReaderPtr n;
        std::string hs = "same";
        bool ro = x.ro;
        IndexCommitPtr c;
        if (how >= 7 && !x.nrt) { ro = rng.chance(50); hs = ro ? "ro" : "rw"; }
        if (how >= 9 && !x.nrt) {
            try {
                Collection<IndexCommitPtr> l = IndexReader::listCommits(D[di].dir);
                c = l[rng.below(l.size())];
                gen = (int)c->getGeneration();
                hs = "commit"; ro = true;
            } catch (LuceneException&) {}
        }
        j.s("how", hs).i("gen", gen);
        std::string ex = guard([&] { n = c ? x.r->reopen(c) : hs == "same" ? x.r->reopen() : x.r->reopen(ro); });
        int id2 = n ? addReader(n, di, x.nrt, ro) : 0;
        j.i("r2", id2);
        if (n && ex.empty()) ex = guard([&] { obs(j, n, true); });
        fin(j, di, ex);
    }
    void clone(int id) {
        Rd x = R[id];
        J j("Clone");
        j.i("d", x.d).i("r", id);
        IndexReaderPtr n;
        bool ro = x.nrt ? true : rng.chance(60) ? x.ro : !x.ro;
        j.b("ro", ro);
        std::string ex = guard([&] { n = boost::dynamic_pointer_cast<IndexReader>(ro == x.ro && rng.chance(50) ? x.r->clone() : x.r->clone(ro)); });
        int id2 = n ? addReader(n, x.d, x.nrt, ro) : 0;
        j.i("r2", id2);
        if (n && ex.empty()) ex = guard([&] { obs(j, n, true); });
        fin(j, x.d, ex);
    }
    void rdel(int id) {
        Rd& x = R[id];
        int n = x.r->maxDoc();
        bool byTerm = n == 0 || rng.chance(40);
        J j(byTerm ? "RDelT" : "RDel");
        j.i("d", x.d).i("r", id);
        std::string ex;
        int cnt = -1;
        if (byTerm) {
            int k = rng.below(nKeys);
            j.s("k", KEYS[k]);
            ex = guard([&] { cnt = x.r->deleteDocuments(newLucene<Term>(L"k", w(KEYS[k]))); });
        } else {
            int dn = rng.below(n);
            j.i("n", dn);
            ex = guard([&] { x.r->deleteDocument(dn); });
        }
        j.i("cnt", cnt);
        fin(j, x.d, ex);
    }
    void rnorm(int id) {
        Rd& x = R[id];
        int n = x.r->maxDoc();
        if (n == 0) return;
        int dn = rng.below(n), v = 100 + rng.below(40);
        J j("RNorm");
        j.i("d", x.d).i("r", id).i("n", dn).i("v", v);
        std::string ex = guard([&] { x.r->setNorm(dn, L"nf", (uint8_t)v); });
        fin(j, x.d, ex);
    }
    void rundel(int id) {
        Rd& x = R[id];
        J j("RUndel");
        j.i("d", x.d).i("r", id);
        std::string ex = guard([&] { x.r->undeleteAll(); });
        if (ex.empty()) ex = guard([&] { obs(j, x.r, true); });
        fin(j, x.d, ex);
    }
    void rflush(int id) {
        Rd& x = R[id];
        std::string s;
        MapStringString m = mkUd(s);
        J j("RFlush");
        j.i("d", x.d).i("r", id).s("u", s);
        std::string ex = guard([&] { if (m) x.r->flush(m); else x.r->flush(); });
        fin(j, x.d, ex);
    }
    std::map<int, int> held;
    void rclose(int id) {
        while (held[id] > 0) { --held[id]; rref(id, false); }
        Rd& x = R[id];
        J j("RClose");
        j.i("d", x.d).i("r", id);
        std::string ex = guard([&] { x.r->close(); });
        x.closed = true;
        fin(j, x.d, ex);
        if (rng.chance(25)) {       // a closed reader refuses everything
            J k("RUseClosed");
            k.i("d", x.d).i("r", id);
            std::string e = guard([&] { int z = rng.below(4); if (z == 0) x.r->document(0); else if (z == 1) x.r->reopen(); else if (z == 2) x.r->terms(); else x.r->isCurrent(); });
            fin(k, x.d, e);
        }
        if (rng.chance(60)) R.erase(id);
    }
    void rref(int id, bool inc) {
        Rd& x = R[id];
        J j(inc ? "RInc" : "RDec");
        j.i("d", x.d).i("r", id);
        std::string ex = guard([&] { if (inc) x.r->incRef(); else x.r->decRef(); });
        fin(j, x.d, ex);
    }
    void addIdx(int di) {
        Dir& d = D[di];
        std::vector<int> src;
        for (int i = 0; i < nd; ++i) if (i != di && !D[i].w && IndexReader::indexExists(D[i].dir) && rng.chance(70)) src.push_back(i);
        if (src.empty()) return;
        if (rng.chance(50)) {
            J j("AddIdx");
            j.i("d", di).raw("src", jints(src));
            Collection<DirectoryPtr> ds(Collection<DirectoryPtr>::newInstance());
            for (int s : src) ds.add(D[s].dir);
            std::string ex = guard([&] { d.w->addIndexesNoOptimize(ds); });
            fin(j, di, ex);
        } else {
            std::vector<int> rs;
            Collection<IndexReaderPtr> ds(Collection<IndexReaderPtr>::newInstance());
            for (int s : src) for (auto& e : R) if (e.second.d == s && !e.second.closed && rng.chance(60) && rs.size() < 3) { rs.push_back(e.first); ds.add(e.second.r); }
            if (rs.empty()) return;
            J j("AddRdr");
            j.i("d", di).raw("rs", jints(rs));
            std::string ex = guard([&] { d.w->addIndexes(ds); });
            fin(j, di, ex);
        }
    }
    void trySecond(int di) {       // a second writer while one is open, or while a reader holds the lock
        Dir& d = D[di];
        ensurePol(d);
        J j("TryW");
        j.i("d", di);
        IndexWriterPtr wr;
        std::string ex = guard([&] { wr = newLucene<IndexWriter>(d.dir, an, false, policyFor(d), IndexWriter::MaxFieldLengthUNLIMITED); });
        std::string ex2;
        if (wr) ex2 = guard([&] { wr->rollback(); });
        j.s("ex2", ex2).b("locked", IndexWriter::isLocked(d.dir));
        fin(j, di, ex);
    }
    // somebody else, with the default policy, adds a document
    void foreign(int di) {
        Dir& d = D[di];
        int k = rng.below(nKeys), u = newUid(k), n = newNorm();
        J j("Foreign");
        j.i("d", di).i("u", u).s("k", KEYS[k]).i("n", n);
        std::string ex = guard([&] {
            IndexWriterPtr wr = newLucene<IndexWriter>(d.dir, an, false, IndexWriter::MaxFieldLengthUNLIMITED);
            wr->setMergeScheduler(newLucene<SerialMergeScheduler>());
            wr->addDocument(makeDoc(u, k, n, false));
            wr->close();
        });
        fin(j, di, ex);
    }
    void snapshot(int di) {
        Dir& d = D[di];
        if (!d.snap) return;
        if (!d.snapHeld) {
            J j("Snap");
            j.i("d", di);
            int g = 0;
            std::string ex = guard([&] { g = (int)d.snap->snapshot()->getGeneration(); });
            if (ex.empty()) d.snapHeld = true;
            j.i("g", g);
            fin(j, di, ex);
        } else {
            J j("Release");
            j.i("d", di);
            std::string ex = guard([&] { d.snap->release(); });
            d.snapHeld = false;
            fin(j, di, ex);
        }
    }
    int anyGen(int di) {
        try {
            Collection<IndexCommitPtr> l = IndexReader::listCommits(D[di].dir);
            return (int)l[rng.below(l.size())]->getGeneration();
        } catch (LuceneException&) { return 0; }
    }

    void step() {
        static const std::map<std::string, std::map<std::string, int>> W = {
            {"core", {{"add", 30}, {"upd", 12}, {"delT", 10}, {"delQ", 6}, {"delAll", 2}, {"commit", 9}, {"prep", 2}, {"closeW", 4}, {"rollback", 2}, {"opt", 2}, {"exp", 2}, {"mm", 2}, {"openR", 8}, {"getR", 4}, {"check", 8}, {"reopen", 3}, {"rclose", 5}, {"addidx", 2}}},
            {"writer", {{"add", 34}, {"upd", 18}, {"delT", 16}, {"delQ", 8}, {"delAll", 2}, {"commit", 8}, {"closeW", 3}, {"opt", 1}, {"exp", 1}, {"mm", 2}, {"openR", 7}, {"rclose", 6}, {"getR", 3}, {"addidx", 2}}},
            {"tx", {{"add", 24}, {"upd", 8}, {"delT", 8}, {"delQ", 3}, {"delAll", 4}, {"commit", 8}, {"prep", 9}, {"closeW", 6}, {"rollback", 9}, {"opt", 3}, {"exp", 2}, {"openR", 8}, {"check", 3}, {"rclose", 6}, {"addidx", 6}, {"getR", 2}, {"create", 3}}},
            {"addidx", {{"add", 26}, {"upd", 4}, {"delT", 5}, {"commit", 8}, {"closeW", 8}, {"rollback", 5}, {"openR", 10}, {"rclose", 5}, {"addidx", 18}, {"opt", 2}, {"rdel", 3}, {"rflush", 2}, {"check", 3}}},
            {"lock", {{"add", 10}, {"commit", 6}, {"closeW", 8}, {"rollback", 6}, {"openR", 12}, {"rdel", 16}, {"rnorm", 6}, {"rundel", 3}, {"rflush", 7}, {"rclose", 8}, {"tryW", 16}, {"clone", 8}, {"reopen", 6}, {"prep", 2}, {"getR", 2}, {"check", 3}}},
            {"policy", {{"add", 24}, {"upd", 6}, {"delT", 6}, {"commit", 20}, {"closeW", 8}, {"rollback", 4}, {"openR", 8}, {"openC", 8}, {"rclose", 8}, {"snap", 8}, {"check", 4}, {"opt", 2}, {"rdel", 3}, {"rflush", 2}, {"openWC", 6}, {"create", 1}, {"prep", 3}, {"reopen", 3}}},
            {"nrt", {{"add", 26}, {"upd", 12}, {"delT", 12}, {"delQ", 5}, {"delAll", 1}, {"commit", 4}, {"getR", 16}, {"check", 12}, {"reopen", 12}, {"rclose", 9}, {"clone", 5}, {"opt", 3}, {"exp", 3}, {"mm", 2}, {"closeW", 1}, {"rollback", 1}, {"openR", 3}, {"addidx", 1}}},
            {"reader", {{"add", 16}, {"upd", 4}, {"delT", 4}, {"commit", 9}, {"closeW", 12}, {"rollback", 2}, {"openR", 12}, {"check", 10}, {"reopen", 16}, {"clone", 12}, {"rdel", 18}, {"rnorm", 12}, {"rundel", 5}, {"rflush", 8}, {"rclose", 9}, {"opt", 2}, {"openC", 2}, {"rref", 4}, {"getR", 2}}},
            {"fault", {{"add", 30}, {"upd", 12}, {"delT", 9}, {"delQ", 5}, {"delAll", 2}, {"commit", 14}, {"prep", 4}, {"closeW", 6}, {"rollback", 2}, {"opt", 4}, {"exp", 3}, {"mm", 2}, {"openR", 9}, {"getR", 6}, {"check", 5}, {"reopen", 4}, {"rclose", 7}, {"rdel", 4}, {"rnorm", 2}, {"rflush", 5}, {"addidx", 4}}},
            {"crash", {{"add", 26}, {"upd", 10}, {"delT", 9}, {"delQ", 4}, {"delAll", 2}, {"commit", 12}, {"prep", 4}, {"closeW", 6}, {"rollback", 3}, {"opt", 3}, {"exp", 2}, {"openR", 7}, {"getR", 3}, {"rclose", 7}, {"rdel", 5}, {"rnorm", 2}, {"rflush", 5}, {"addidx", 4}, {"create", 2}, {"restart", 4}}},
            {"snapshot", {{"add", 24}, {"upd", 10}, {"delT", 8}, {"commit", 10}, {"opt", 4}, {"exp", 2}, {"closeW", 4}, {"openR", 10}, {"getR", 6}, {"check", 26}, {"reopen", 10}, {"clone", 8}, {"rclose", 10}, {"rdel", 6}, {"rnorm", 4}, {"rflush", 3}, {"delAll", 1}, {"openC", 2}}},
            {"merge", {{"add", 30}, {"upd", 10}, {"delT", 14}, {"delQ", 5}, {"commit", 8}, {"opt", 8}, {"exp", 8}, {"mm", 5}, {"openR", 10}, {"getR", 4}, {"rclose", 7}, {"closeW", 3}, {"addidx", 4}, {"rdel", 2}, {"rnorm", 2}, {"rflush", 1}}},
        };
        if (faulty) {
            if (afterFault >= 0) {                 // the writer whose call failed: give up the session, or look what is left of it
                int di = afterFault;
                afterFault = -1;
                bool closing = closeFailed;            // such a writer can only be closed again or rolled back
                closeFailed = false;
                if (D[di].w) {
                    if (rng.chance(50)) rollback(di);
                    else if (!getR(di)) { if (D[di].w) rollback(di); }
                    else if (closing && D[di].w) { if (rng.chance(60)) closeW(di); else rollback(di); }
                }
                return;
            }
            armNext = rng.chance(25);
        }
        struct Off { bool& b; ~Off() { b = false; } } off{armNext};
        const auto& wt = W.at(profile);
        int tot = 0;
        for (auto& e : wt) tot += e.second;
        int x = rng.below(tot);
        std::string op;
        for (auto& e : wt) { if (x < e.second) { op = e.first; break; } x -= e.second; }
        int di = rng.chance(nd > 1 && profile == "addidx" ? 50 : 75) ? 0 : rng.below(nd);
        Dir& d = D[di];
        static const std::set<std::string> needW{"add", "upd", "delT", "delQ", "delAll", "commit", "prep", "closeW", "rollback", "opt", "exp", "mm", "getR", "addidx"};
        if (needW.count(op)) {
            if (!d.w) {
                if ((op == "closeW" || op == "rollback")) return;
                bool exists = IndexReader::indexExists(d.dir);
                if (profile == "policy" && exists && !d.snapHeld && rng.chance(15) && !IndexWriter::isLocked(d.dir)) foreign(di);
                openW(di, !exists || (rng.chance(3) && !IndexWriter::isLocked(d.dir)), exists && profile == "policy" && rng.chance(15) ? anyGen(di) : 0);
                if (!d.w) return;
                if (profile == "policy" && useSnap && rng.chance(25)) snapshot(di);
            }
        }
        if (op == "add") add(di, false);
        else if (op == "upd") add(di, true);
        else if (op == "delT") delT(di);
        else if (op == "delQ") delQ(di);
        else if (op == "delAll") simple("DelAll", di, [&] { d.w->deleteAll(); });
        else if (op == "commit") commit(di, false);
        else if (op == "prep") { if (!d.prepared) commit(di, true); else commit(di, false); }
        else if (op == "closeW") closeW(di);
        else if (op == "rollback") { armNext = false; rollback(di); }
        else if (op == "opt") { int n = rng.chance(60) ? 1 : rng.range(2, 4); simple("Opt", di, [&] { d.w->optimize(n); }, [&](J& j) { j.i("n", n); }); if (rng.chance(60)) getR(di); }
        else if (op == "exp") { if (rng.chance(50)) getR(di); simple("Exp", di, [&] { d.w->expungeDeletes(); }); if (rng.chance(60)) getR(di); }
        else if (op == "mm") simple("MM", di, [&] { d.w->maybeMerge(); });
        else if (op == "getR") getR(di);
        else if (op == "addidx") addIdx(di);
        else if (op == "create") { if (!d.w && !IndexWriter::isLocked(d.dir)) openW(di, true, 0); }
        else if (op == "openWC") { if (d.w) closeW(di); if (!d.w && IndexReader::indexExists(d.dir)) openW(di, false, anyGen(di)); }
        else if (op == "openR") openR(di, 0, rng.chance(50), rng.chance(85));
        else if (op == "openC") { int g = anyGen(di); if (g) openR(di, g, polMode != 1 || rng.chance(60), polMode == 1 || rng.chance(85)); }
        else if (op == "tryW") { if (IndexReader::indexExists(d.dir)) trySecond(di); }
        else if (op == "snap") snapshot(di);
        else if (op == "restart") restart(di);
        else {
            int id = pickR();
            if (!id) { openR(di, 0, rng.chance(40), rng.chance(85)); return; }
            if (op != "rflush" && op != "reopen") armNext = false;
            if (op == "check") check(id);
            else if (op == "reopen") reopen(id);
            else if (op == "clone") clone(id);
            else if (op == "rdel") rdel(id);
            else if (op == "rnorm") rnorm(id);
            else if (op == "rundel") { if (!allowBad) rundel(id); }
            else if (op == "rflush") rflush(id);
            else if (op == "rclose") rclose(id);
            else if (op == "rref") { int& h = held[id]; if (h == 0) { rref(id, true); ++h; } else { rref(id, false); --h; } }
        }
    }
    void finish() {
        armNext = false;
        if (afterFault >= 0 && D[afterFault].w) rollback(afterFault);
        afterFault = -1;
        for (auto& e : R) if (!e.second.closed && rng.chance(70)) check(e.first);
        std::vector<int> ids;
        for (auto& e : R) if (!e.second.closed) ids.push_back(e.first);
        for (int id : ids) { rclose(id); }
        for (int i = 0; i < nd; ++i) {
            if (D[i].w) { if (rng.chance(70)) closeW(i); else rollback(i); }
            if (D[i].w) rollback(i);
            if (D[i].w) continue;
            if (IndexReader::indexExists(D[i].dir)) openR(i, 0, true, false);
        }
        while (int id = pickR()) rclose(id);
        if (kind == "sim") for (int i = 0; i < nd; ++i) {
            J j("OpenFiles");
            std::vector<std::string> names;
            for (auto& f : D[i].dev->readers) if (f.second) names.push_back(f.first);
            j.i("d", i).i("n", D[i].dev->openFiles).raw("names", jstrs(names));
            fin(j, i, "");
        }
    }
};

int cmdIndex(const Opts& o) {
    fastSleep = true;
    t0ms = MiscUtils::currentTimeMillis();
    IndexWriter::WRITE_LOCK_TIMEOUT = 0;
    if (!o.str("info", "").empty()) {
        struct Vb : IndexFileDeleter { static void on() { VERBOSE_REF_COUNTS = true; } };
        Vb::on();
        IndexWriter::setDefaultInfoStream(newLucene<InfoStreamFile>(w(o.str("info", ""))));
    }
    uint64_t seed = o.u64("seed", 1);
    int hists = o.num("hists", 10), len = o.num("len", 60);
    int first = o.num("first", 0);
    std::vector<std::string> kinds;
    {
        std::string k = o.str("kinds", "ram,sim"), cur;
        for (char c : k + ",") { if (c == ',') { if (!cur.empty()) kinds.push_back(cur); cur.clear(); } else cur += c; }
    }
    std::vector<std::string> profs;
    {
        std::string k = o.str("profile", "core"), cur;
        for (char c : k + ",") { if (c == ',') { if (!cur.empty()) profs.push_back(cur); cur.clear(); } else cur += c; }
    }
    for (int h = first; h < first + hists; ++h) {
        auto H = std::make_shared<Hist>(seed * 1000003ull + h);
        H->setup(h, profs[h % profs.size()], kinds[(h / profs.size()) % kinds.size()], scratch.empty() ? "/tmp" : scratch);
        for (int i = 0; i < len; ++i) H->step();
        H->finish();
        fflush(out);
    }
    return 0;
}
Cmd c1("index", cmdIndex);
}
}
