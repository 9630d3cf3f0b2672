// Drives bit sets, document-id sets, their iterators and priority queues; every call is an event with its result.
#include "h.h"
#include "OpenBitSet.h"
#include "OpenBitSetDISI.h"
#include "BitSet.h"
#include "BitVector.h"
#include "SortedVIntList.h"
#include "DocIdBitSet.h"
#include "DocIdSetIterator.h"
#include "FilteredDocIdSet.h"
#include "PriorityQueue.h"
#include "ScorerDocQueue.h"
#include "Scorer.h"
#include "Similarity.h"
#include "HitQueue.h"
#include "ScoreDoc.h"
#include "RAMDirectory.h"

namespace vh { namespace sets {

struct Obj {
    std::string k;
    OpenBitSetPtr ob;
    BitSetPtr bs;
    BitVectorPtr bv;
    DocIdSetPtr ds;      // what can be iterated
    int n = 0;           // size of a BitVector; words that fast operations may touch
};

class ModFilter : public FilteredDocIdSet {
public:
    int m;
    ModFilter(const DocIdSetPtr& in, int m) : FilteredDocIdSet(in), m(m) {}
    LUCENE_CLASS(ModFilter);
    virtual bool match(int32_t d) { return d % m != 0; }
};

struct El { int key, id; };
typedef boost::shared_ptr<El> ElPtr;
class PQ : public PriorityQueue<ElPtr> {
public:
    explicit PQ(int n) : PriorityQueue<ElPtr>(n) {}
    LUCENE_CLASS(PQ);
protected:
    virtual bool lessThan(const ElPtr& a, const ElPtr& b) { return a->key < b->key; }
};

class ListScorer : public Scorer {
public:
    std::vector<int> d;
    int at = -1, id;
    ListScorer(const std::vector<int>& v, int id) : Scorer(Similarity::getDefault()), d(v), id(id) {}
    LUCENE_CLASS(ListScorer);
    virtual int32_t docID() { return at < 0 ? -1 : at < (int)d.size() ? d[at] : NO_MORE_DOCS; }
    virtual int32_t nextDoc() { ++at; return docID(); }
    virtual int32_t advance(int32_t t) { do ++at; while (at < (int)d.size() && d[at] < t); return docID(); }
    virtual double score() { return id; }
};

struct H {
    Rng rng;
    std::map<int, Obj> O;
    std::map<int, DocIdSetIteratorPtr> I;
    std::map<int, int> IO;           // iterator -> its set (which must not change meanwhile)
    int nextId = 1;
    int U;                           // most values are below
    boost::shared_ptr<PQ> pq;
    std::map<int, ElPtr> els;
    int pqMax = 0, pqN = 0;
    std::vector<int> inPq;
    ScorerDocQueuePtr sq;
    int sqMax = 0;
    int nscor = 0;
    explicit H(uint64_t s) : rng(s) { U = rng.oneOf({8, 20, 70, 130, 200, 300}); }

    int val() { return rng.chance(3) ? rng.oneOf({63, 64, 127, 128, 191, 192, 255, 256, 511, 512, 1023, 1024, 4095, 4096}) : rng.below(U); }
    static std::vector<int> content(const Obj& o) {
        std::vector<int> v;
        if (o.bv) { for (int i = 0; i < o.bv->size(); ++i) if (o.bv->get(i)) v.push_back(i); }
        else if (o.ob) { for (int64_t i = 0; i < o.ob->size(); ++i) if (o.ob->get((int32_t)i)) v.push_back((int)i); }
        else if (o.bs) { for (uint32_t i = 0; i < o.bs->size(); ++i) if (o.bs->get(i)) v.push_back((int)i); }
        else {
            DocIdSetIteratorPtr it = o.ds->iterator();
            int d;
            while ((d = it->nextDoc()) != DocIdSetIterator::NO_MORE_DOCS) { v.push_back(d); if (v.size() > 20000) break; }
        }
        return v;
    }
    int pickO(const std::string& k = "") {
        std::vector<int> v;
        for (auto& o : O) if (k.empty() || o.second.k == k || (k == "it" && o.second.ds)) v.push_back(o.first);
        return v.empty() ? 0 : rng.pick(v);
    }
    bool iterated(int o) { for (auto& i : IO) if (i.second == o) return true; return false; }
    void dropIts(int o) { for (auto i = IO.begin(); i != IO.end();) if (i->second == o) { I.erase(i->first); i = IO.erase(i); } else ++i; }
    std::vector<int> randomSorted(int mx) {
        std::set<int> s;
        int n = rng.range(0, mx);
        bool big = rng.chance(15);
        for (int i = 0; i < n; ++i) s.insert(big ? rng.oneOf({127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 1000000000}) + rng.below(3) : val());
        return std::vector<int>(s.begin(), s.end());
    }

    void make() {
        if (O.size() > 7) { int o = pickO(); dropIts(o); O.erase(o); J j("Drop"); j.i("o", o); emit(j); return; }
        Obj o;
        int id = nextId++;
        std::string how = "empty";
        std::vector<int> v;
        int src = 0;
        switch (rng.below(10)) {
        case 0: case 1: { o.k = "open"; o.n = rng.oneOf({1, 8, 64, 65, 128, 200, 300}); o.ob = newLucene<OpenBitSet>((int64_t)o.n); o.ds = o.ob; break; }
        case 2: { o.k = "bits"; o.n = rng.oneOf({0, 1, 63, 64, 65, 128, 200}); o.bs = newLucene<BitSet>(o.n); o.ds = newLucene<DocIdBitSet>(o.bs); break; }
        case 3: case 4: { o.k = "vec"; o.n = rng.oneOf({1, 7, 8, 9, 16, 63, 64, 65, 100, 200, 1024, 1100}); o.bv = newLucene<BitVector>(o.n); break; }
        case 5: {
            o.k = "list"; how = "of"; v = randomSorted(rng.oneOf({3, 20, 80, 160}));
            int s2 = rng.below(4);
            Collection<int32_t> c(Collection<int32_t>::newInstance());
            for (int x : v) c.add(x);
            if (s2 == 0) o.ds = newLucene<SortedVIntList>(c);
            else { int n = rng.range(0, (int)v.size()); v.resize(n); o.ds = newLucene<SortedVIntList>(c, n); }
            break;
        }
        case 6: case 7: {
            src = pickO("it");
            if (!src || O[src].k == "filt") return;
            Obj& s = O[src];
            o.k = "list"; how = "copy";
            if (s.bs && rng.chance(60)) o.ds = newLucene<SortedVIntList>(s.bs);
            else if (s.ob && rng.chance(60)) o.ds = newLucene<SortedVIntList>(s.ob);
            else o.ds = newLucene<SortedVIntList>(s.ds->iterator());
            break;
        }
        case 8: {
            src = pickO("it");
            if (!src) return;
            o.k = "filt"; how = "mod"; o.n = rng.range(1, 4);
            DocIdSetPtr in = O[src].ds;
            // the filtered set is a view of a set that does not change any more
            Obj& s = O[src];
            if (s.ob) in = boost::dynamic_pointer_cast<OpenBitSet>(s.ob->clone());
            else if (s.bs) in = newLucene<DocIdBitSet>(boost::dynamic_pointer_cast<BitSet>(s.bs->clone()));
            o.ds = newLucene<ModFilter>(in, o.n);
            break;
        }
        default: {
            src = pickO("it");
            if (!src) return;
            o.k = "open"; how = "below"; o.n = rng.oneOf({1, 20, 64, 100, 128, 300, 5000});
            if (rng.chance(50)) o.ob = newLucene<OpenBitSetDISI>(O[src].ds->iterator(), o.n);
            else { auto d = newLucene<OpenBitSetDISI>(o.n); d->inPlaceOr(O[src].ds->iterator()); o.ob = d; }
            o.n = (int)o.ob->size();
            o.ds = o.ob;
        }
        }
        O[id] = o;
        J j("New");
        j.i("o", id).s("k", o.k).s("how", how).i("n", o.n).i("src", src).raw("v", jints(v));
        if (how != "empty") j.raw("c", jints(content(o))); else j.raw("c", "[]");
        emit(j);
    }
    // a = the set operated on, o2 another, i/e numbers; r the result
    void op() {
        int id = pickO();
        if (!id) { make(); return; }
        Obj& o = O[id];
        int i = val(), e = i + rng.oneOf({0, 1, 2, 5, 10, 62, 63, 64, 65, 127, 128, 130});
        int id2 = pickO(o.k);
        Obj& p = O[id2];
        std::string f;
        long long r = 0;
        bool mut = true;
        std::string ex;
        std::vector<int> c;
        bool withC = false;
        try {
            if (o.k == "open") {
                OpenBitSetPtr b = o.ob, q = p.ob;
                int cap = b->getNumWords() * 64;
                bool fast = i < cap && rng.chance(50);
                bool l64 = rng.chance(50);
                switch (rng.below(26)) {
                case 0: case 1: case 2: f = "set"; if (fast) { if (l64) b->fastSet((int64_t)i); else b->fastSet((int32_t)i); } else b->set(i); break;
                case 3: f = "clear"; if (fast) { if (l64) b->fastClear((int64_t)i); else b->fastClear((int32_t)i); } else b->clear(i); break;
                case 4: f = "flip"; if (fast) { if (l64) b->fastFlip((int64_t)i); else b->fastFlip((int32_t)i); } else b->flip(i); break;
                case 5: if (i >= cap) return; f = "getAndSet"; r = l64 ? b->getAndSet((int64_t)i) : b->getAndSet((int32_t)i); break;
                case 6: if (i >= cap) return; f = "flipAndGet"; r = l64 ? b->flipAndGet((int64_t)i) : b->flipAndGet((int32_t)i); break;
                case 7: mut = false; f = "get"; r = fast ? (l64 ? b->fastGet((int64_t)i) : b->fastGet((int32_t)i)) : (l64 ? b->get((int64_t)i) : b->get((int32_t)i)); break;
                case 8: if (i >= cap) return; mut = false; f = "get"; r = b->getBit(i); break;
                case 9: case 10: f = "setR"; b->set((int64_t)i, (int64_t)e); break;
                case 11: case 12: f = "clearR"; if (l64) b->clear((int64_t)i, (int64_t)e); else b->clear((int32_t)i, (int32_t)e); break;
                case 13: case 14: f = "flipR"; b->flip((int64_t)i, (int64_t)e); break;
                case 15: mut = false; f = "next"; r = l64 ? b->nextSetBit((int64_t)i) : b->nextSetBit((int32_t)i); break;
                case 16: mut = false; f = "card"; r = b->cardinality(); break;
                case 17: f = "and"; if (rng.chance(50)) b->_and(q); else b->intersect(q); withC = true; break;
                case 18: f = "or"; if (rng.chance(50)) b->_or(q); else b->_union(q); withC = true; break;
                case 19: f = "xor"; b->_xor(q); withC = true; break;
                case 20: f = "not"; if (rng.chance(50)) b->andNot(q); else b->remove(q); withC = true; break;
                case 21: mut = false; f = "intersects"; r = b->intersects(q); break;
                case 22: {
                    mut = false;
                    switch (rng.below(4)) {
                    case 0: f = "andCount"; r = OpenBitSet::intersectionCount(b, q); break;
                    case 1: f = "orCount"; r = OpenBitSet::unionCount(b, q); break;
                    case 2: f = "notCount"; r = OpenBitSet::andNotCount(b, q); break;
                    default: f = "xorCount"; r = OpenBitSet::xorCount(b, q);
                    }
                    break;
                }
                case 23: mut = false; f = "equals"; r = b->equals(q); if (b->hashCode() == q->hashCode()) r += 2; break;
                case 24: f = "same"; if (rng.chance(50)) b->trimTrailingZeros(); else b->ensureCapacity(i); withC = true; break;
                default: {
                    boost::shared_ptr<OpenBitSetDISI> d = boost::dynamic_pointer_cast<OpenBitSetDISI>(b);
                    int s = pickO("it");
                    if (!d || !s || s == id) return;
                    DocIdSetIteratorPtr it = O[s].ds->iterator();
                    id2 = s;
                    e = (int)d->size();
                    switch (rng.below(4)) {
                    case 0: f = "orIt"; d->inPlaceOr(it); break;
                    case 1: f = "andIt"; d->inPlaceAnd(it); break;
                    case 2: f = "notIt"; d->inPlaceNot(it); break;
                    default: f = "xorIt"; d->inPlaceXor(it);
                    }
                    withC = true;
                }
                }
            } else if (o.k == "bits") {
                BitSetPtr b = o.bs, q = p.bs;
                int cap = (int)b->size();
                bool v = rng.chance(50);
                switch (rng.below(18)) {
                case 0: case 1: case 2: f = "set"; b->set(i); break;
                case 3: f = v ? "set" : "clear"; b->set((uint32_t)i, v); break;
                case 4: f = "clear"; b->clear(rng.chance(30) ? (i = cap) : i); break;
                case 5: f = "clearR"; b->clear(i, e); withC = true; break;
                case 6: f = v ? "setR" : "clearR"; b->set((uint32_t)i, (uint32_t)e, v); break;
                case 7: f = "setR"; b->set((uint32_t)i, (uint32_t)e); break;
                case 8: f = "flip"; b->flip(i); break;
                case 9: f = "flipR"; b->flip(i, e); withC = true; break;
                case 10: mut = false; f = "get"; r = b->get(i); break;
                case 11: mut = false; f = "next"; r = b->nextSetBit(i); break;
                case 12: mut = false; f = "card"; r = b->cardinality(); break;
                case 13: { int k = rng.below(4); f = k == 0 ? "and" : k == 1 ? "or" : k == 2 ? "xor" : "not"; if (k == 0) b->_and(q); else if (k == 1) b->_or(q); else if (k == 2) b->_xor(q); else b->andNot(q); withC = true; break; }
                case 14: mut = false; f = "intersects"; r = b->intersectsBitSet(q); break;
                case 15: mut = false; f = "equals"; r = b->equals(q); if (b->hashCode() == q->hashCode()) r += 2; break;
                case 16: if (!rng.chance(10)) return; f = "empty"; b->clear(); withC = true; break;
                default: mut = false; f = "isEmpty"; r = b->isEmpty();
                }
            } else if (o.k == "vec") {
                BitVectorPtr b = o.bv;
                i = rng.chance(4) ? o.n + rng.below(3) : rng.below(o.n);
                switch (rng.below(12)) {
                case 0: case 1: case 2: case 3: f = "set"; b->set(i); break;
                case 4: case 5: f = "getAndSet"; r = b->getAndSet(i); break;
                case 6: f = "clear"; b->clear(i); break;
                case 7: if (i >= o.n) return; mut = false; f = "get"; r = b->get(i); break;
                case 8: mut = false; f = "card"; r = b->count(); break;
                case 9: mut = false; f = "card"; r = b->getRecomputedCount(); break;
                case 10: {
                    f = "saved"; mut = false;
                    DirectoryPtr dir = newLucene<RAMDirectory>();
                    b->write(dir, L"v");
                    BitVectorPtr c2 = newLucene<BitVector>(dir, L"v");
                    r = c2->count();
                    Obj t; t.bv = c2;
                    if (c2->size() != o.n) r = -100;
                    c = content(t);
                    if (rng.chance(50)) O[id].bv = c2;
                    break;
                }
                default: {
                    f = "subset"; mut = false;
                    i = rng.range(0, o.n); e = rng.range(i, o.n);
                    if (rng.chance(30)) { i &= ~7; }
                    BitVectorPtr c2 = b->subset(i, e);
                    r = c2->count();
                    Obj t; t.bv = c2;
                    if (c2->size() != e - i) r = -100;
                    c = content(t);
                }
                }
            } else if (o.k == "list") {
                mut = false; f = "card"; r = boost::dynamic_pointer_cast<SortedVIntList>(o.ds)->size();
            } else return;
        } catch (LuceneException& x) { ex = exName(x); }
        if (mut) { dropIts(id); if (withC || rng.chance(15)) { c = content(O[id]); withC = true; } }
        J j("Op");
        j.i("o", id).s("f", f).i("o2", id2).i("i", i).i("e", e).i("r", r).s("ex", ex).b("mut", mut).b("wc", withC).raw("c", jints(c));
        emit(j);
    }
    void cloneObj() {
        int id = pickO();
        if (!id || O.size() > 8) return;
        Obj& s = O[id];
        Obj o;
        o.k = s.k; o.n = s.n;
        if (s.ob && !boost::dynamic_pointer_cast<OpenBitSetDISI>(s.ob)) { o.ob = boost::dynamic_pointer_cast<OpenBitSet>(s.ob->clone()); o.ds = o.ob; }
        else if (s.bs) { DocIdBitSetPtr c = boost::dynamic_pointer_cast<DocIdBitSet>(boost::dynamic_pointer_cast<DocIdBitSet>(s.ds)->clone()); o.bs = c->getBitSet(); o.ds = c; }
        else if (s.bv) o.bv = boost::dynamic_pointer_cast<BitVector>(s.bv->clone());
        else return;
        int nid = nextId++;
        O[nid] = o;
        J j("New");
        j.i("o", nid).s("k", o.k).s("how", "copy").i("n", o.n).i("src", id).raw("v", "[]").raw("c", jints(content(o)));
        emit(j);
    }
    void iter() {
        if (I.empty() || rng.chance(20)) {
            int id = pickO("it");
            if (!id || I.size() > 4) return;
            int it = nextId++;
            I[it] = O[id].ds->iterator();
            IO[it] = id;
            J j("It");
            j.i("it", it).i("o", id);
            emit(j);
            return;
        }
        std::vector<int> v;
        for (auto& i : I) v.push_back(i.first);
        int it = rng.pick(v);
        for (int k = rng.range(1, 4); k > 0; --k) {
            int d0 = I[it]->docID();
            int r, t = -1;
            if (rng.chance(50)) r = I[it]->nextDoc();
            else {
                t = (d0 < 0 ? 0 : d0 + 1) + rng.oneOf({0, 0, 1, 2, 7, 30, 63, 64, 65, 130});
                if (rng.chance(5)) t = 1000000 + (d0 > 1000000 ? d0 : 0);
                r = I[it]->advance(t);
            }
            int d = I[it]->docID();
            J j("Step");
            j.i("it", it).i("t", t).i("r", r == DocIdSetIterator::NO_MORE_DOCS ? -1 : r).b("same", d == r);
            emit(j);
            if (r == DocIdSetIterator::NO_MORE_DOCS) { I.erase(it); IO.erase(it); return; }
        }
    }
    void pqOp() {
        if (!pq) {
            pqMax = rng.oneOf({0, 1, 2, 3, 4, 5, 7, 8, 12, 20});
            pq = newLucene<PQ>(pqMax);
            J j("PNew");
            j.i("n", pqMax);
            emit(j);
            return;
        }
        std::string f, ex;
        int key = rng.below(rng.oneOf({2, 6, 40})), id = ++pqN;
        ElPtr r;
        int sz = 0, top = 0;
        try {
            switch (rng.below(11)) {
            case 0: case 1: case 2:
                if (pqMax == 0 && rng.chance(95)) return;      // the spare slot of an empty queue is an implementation matter
                if (pqMax == 0) return;
                { f = "add"; ElPtr e = boost::make_shared<El>(El{key, id}); els[id] = e; r = pq->add(e); break; }
            case 3: case 4: case 5: case 6: { f = "over"; ElPtr e = boost::make_shared<El>(El{key, id}); els[id] = e; r = pq->addOverflow(e); break; }
            case 7: case 8: f = "pop"; r = pq->pop(); break;
            case 9: {
                r = pq->top();
                if (!r) return;
                f = "update"; id = r->id; r->key = key; r = pq->updateTop(); break;
            }
            default: if (rng.chance(80)) { f = "top"; r = pq->top(); } else { f = "clear"; pq->clear(); }
            }
        } catch (LuceneException& x) { ex = exName(x); }
        sz = pq->size();
        if (!ex.empty()) { pq.reset(); }
        J j("PQ");
        j.s("f", f).i("key", key).i("id", id).i("rk", r ? r->key : -1).i("r", r ? r->id : 0).i("n", sz).s("ex", ex);
        emit(j);
    }
    void sqOp() {
        if (!sq) {
            sqMax = rng.range(1, 7);
            sq = newLucene<ScorerDocQueue>(sqMax);
            J j("SNew");
            j.i("n", sqMax);
            emit(j);
            return;
        }
        std::string f;
        std::vector<int> v;
        long long r = 0;
        int id = 0, t = 0;
        if (sq->size() == 0 || (sq->size() < sqMax && rng.chance(40))) {
            std::set<int> s;
            for (int n = rng.range(1, 6); n > 0; --n) s.insert(rng.below(20));
            v.assign(s.begin(), s.end());
            id = ++nscor;
            boost::shared_ptr<ListScorer> sc = newLucene<ListScorer>(v, id);
            sc->nextDoc();
            f = "put"; sq->put(sc);
        } else if (rng.chance(12)) {
            std::set<int> s;
            for (int n = rng.range(1, 6); n > 0; --n) s.insert(rng.below(20));
            v.assign(s.begin(), s.end());
            id = ++nscor;
            boost::shared_ptr<ListScorer> sc = newLucene<ListScorer>(v, id);
            sc->nextDoc();
            f = "insert"; r = sq->insert(sc);
        } else switch (rng.below(5)) {
        case 0: case 1: f = "next"; r = sq->topNextAndAdjustElsePop(); break;
        case 2: f = "skip"; t = sq->topDoc() + rng.range(1, 6); r = sq->topSkipToAndAdjustElsePop(t); break;
        case 3: if (rng.chance(70)) { f = "pop"; sq->pop(); } else { f = "clear"; sq->clear(); } break;
        default: f = "top";
        }
        int td = sq->size() ? sq->topDoc() : -1;
        int ts = sq->size() ? (int)sq->topScore() : 0;
        J j("SQ");
        j.s("f", f).i("id", id).raw("v", jints(v)).i("t", t).i("r", r).i("n", sq->size()).i("td", td).i("ts", ts);
        emit(j);
    }
    void run(int len) {
        J j("Reset");
        j.i("u", U);
        emit(j);
        int mode = rng.below(4);       // where the emphasis is
        for (int k = 0; k < len; ++k) {
            int x = rng.below(100);
            if (mode == 1 && x < 70) pqOp();
            else if (mode == 2 && x < 60) sqOp();
            else if (x < 10) make();
            else if (x < 62) op();
            else if (x < 66) cloneObj();
            else if (x < 90) iter();
            else if (x < 96) pqOp();
            else sqOp();
        }
    }
};

static int cmd(const Opts& o) {
    uint64_t seed = o.u64("seed", 1);
    fastSleep = true;
    for (int h = o.num("first", 0), n = o.num("hists", 40), k = 0; k < n; ++k, ++h) { H x(seed * 1000003 + h); x.run(o.num("len", 120)); }
    return 0;
}
static Cmd reg("sets", cmd);
}}
