// A corpus known document by document is indexed in several physical forms; every way of asking for the hits of a
// query, and of walking, explaining, ranking or filtering them, is an event.
#include "docs.h"
#include "RAMDirectory.h"
#include "IndexWriter.h"
#include "IndexReader.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "FilterIndexReader.h"
#include "LogDocMergePolicy.h"
#include "SerialMergeScheduler.h"
#include "Analyzer.h"
#include "Document.h"
#include "Field.h"
#include "NumericField.h"
#include "Term.h"
#include "DefaultSimilarity.h"
#include "FieldInvertState.h"
#include "IndexSearcher.h"
#include "MultiSearcher.h"
#include "ParallelMultiSearcher.h"
#include "MemoryIndex.h"
#include "Weight.h"
#include "Scorer.h"
#include "Spans.h"
#include "Explanation.h"
#include "Collector.h"
#include "TopScoreDocCollector.h"
#include "TopFieldCollector.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "Sort.h"
#include "SortField.h"
#include "BooleanQuery.h"
#include "DisjunctionMaxQuery.h"
#include "ConstantScoreQuery.h"
#include "FilteredQuery.h"
#include "MatchAllDocsQuery.h"
#include "TermQuery.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "SpanTermQuery.h"
#include "SpanNearQuery.h"
#include "SpanOrQuery.h"
#include "SpanNotQuery.h"
#include "SpanFirstQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "TermRangeQuery.h"
#include "FuzzyQuery.h"
#include "NumericRangeQuery.h"
#include "QueryWrapperFilter.h"
#include "CachingWrapperFilter.h"
#include "CachingSpanFilter.h"
#include "SpanQueryFilter.h"
#include "TermRangeFilter.h"
#include "PrefixFilter.h"
#include "NumericRangeFilter.h"
#include "FieldCacheRangeFilter.h"
#include "FieldCacheTermsFilter.h"
#include "MultiTermQueryWrapperFilter.h"
#include "OpenBitSet.h"
#include "DocIdSet.h"
#include "VariantUtils.h"
#include "FieldCache.h"
#include "FilterManager.h"
#include "QueryWrapperFilter.h"
#include <boost/filesystem.hpp>
#include <cmath>

namespace vh { namespace srch {

static const wchar_t* FN[] = {L"", L"a", L"b", L"c"};
static const wchar_t *FU = L"u", *FI = L"i", *FS = L"s", *FD = L"d", *FNUM = L"n";
static std::vector<String> pool;
static int poolId(const String& t) { if (t.empty()) return -1; for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == t) return (int)i; return -2; }
static std::string codes(const String& t) { std::vector<int> v; for (wchar_t c : t) v.push_back((int)c); return jints(v); }
static TermPtr term(int f, int t) { return newLucene<Term>(FN[f], pool[t]); }

// everything is a small integer
class IntSimilarity : public DefaultSimilarity {
public:
    LUCENE_CLASS(IntSimilarity);
    virtual double computeNorm(const String&, const FieldInvertStatePtr& s) { return s->getBoost() * (double)(1 << (s->getLength() % 3)); }
    virtual double lengthNorm(const String&, int32_t n) { return (double)(1 << (n % 3)); }
    virtual double queryNorm(double) { return 1; }
    virtual double tf(double f) { return 2 * f - 1; }
    virtual double tf(int32_t f) { return tf((double)f); }
    virtual double sloppyFreq(int32_t d) { return d >= 8 ? 1 : 8 - d; }
    virtual double idf(int32_t df, int32_t) { return 1 + df % 2; }
    virtual double coord(int32_t o, int32_t m) { return 2 * m - o; }
};
class NoAnalyzer : public Analyzer {
public:
    LUCENE_CLASS(NoAnalyzer);
    virtual TokenStreamPtr tokenStream(const String&, const ReaderPtr&) { return newLucene<SpecStream>(std::vector<Tok>()); }
};

struct DocS {
    int u = 0;
    bool live = true, boosted = false;
    std::vector<Tok> toks[4];
    int i = 0; bool hi = false;
    int s = -1, d = 0; bool hd = false;
    int64_t num = 0; bool hn = false;
};

static long long scoreInt(double s) { return s != s ? -7777 : s == std::floor(s) && std::fabs(s) < 2e9 ? (long long)s : -8888; }
static std::string pr(int d, double s) { std::vector<long long> v = {d, scoreInt(s)}; return jints(v); }

class AllHits : public Collector {
public:
    AllHits(bool ooo) : ooo(ooo), base(0) {}
    LUCENE_CLASS(AllHits);
    bool ooo;
    int base;
    ScorerPtr sc;
    std::vector<std::string> hits;
    virtual void setScorer(const ScorerPtr& s) { sc = s; }
    virtual void collect(int32_t d) { hits.push_back(pr(base + d, sc->score())); }
    virtual void setNextReader(const IndexReaderPtr&, int32_t b) { base = b; }
    virtual bool acceptsDocsOutOfOrder() { return ooo; }
};

// a filter that is a plain set of documents (by the number in field u), the bits given with or without deleted documents
class UidFilter : public Filter {
public:
    UidFilter(const std::set<int>& us, bool nullEmpty) : us(us), nullEmpty(nullEmpty) {}
    LUCENE_CLASS(UidFilter);
    std::set<int> us;
    bool nullEmpty;
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr& r) {
        OpenBitSetPtr b = newLucene<OpenBitSet>(r->maxDoc());
        TermDocsPtr td = r->termDocs();
        bool any = false;
        for (int u : us) {
            td->seek(newLucene<Term>(FU, StringUtils::toString(u)));
            while (td->next()) { b->set((int64_t)td->doc()); any = true; }
        }
        td->close();
        if (!any && nullEmpty) return DocIdSetPtr();
        return b;
    }
};

// a parser of its own: negated numbers
class NegParser : public IntParser {
public:
    LUCENE_CLASS(NegParser);
    virtual int32_t parseInt(const String& s) { return -StringUtils::toInt(s); }
};

struct Q { QueryPtr q; std::string j; bool multi = true; std::set<int> terms; };

struct View { std::string name; SearcherPtr s; IndexReaderPtr r; std::vector<IndexReaderPtr> close; bool multi = false; };

struct H {
    Rng rng;
    bool bulk, mem;
    std::string what;
    std::vector<DocS> docs;
    int nNum = 0;
    int numKind = 0, ps = 4;
    std::vector<DirectoryPtr> one, parts, fields;   // a single index; split by document; split by field
    std::vector<int> split;                          // first document of each part
    std::vector<View> views;
    SimilarityPtr sim;
    struct Kept { FilterPtr f; std::string j; bool alone; };
    std::vector<Kept> kept;                          // filters that live as long as the history
    IntParserPtr neg;
    H(uint64_t seed, bool bulk, bool mem, const std::string& what) : rng(seed), bulk(bulk), mem(mem), what(what) { sim = newLucene<IntSimilarity>(); neg = newLucene<NegParser>(); }

    // ---- the corpus
    int rndTerm() { int n = (int)pool.size(); return std::min(rng.below(n), rng.below(n)); }
    int NS() { return (int)pool.size() - 3; }         // the last three terms are only synonyms (of field b)
    int mainTerm() { int n = NS(); return std::min(rng.below(n), rng.below(n)); }
    void makePool() {
        pool.clear();
        std::set<String> ts;
        int n = rng.oneOf({5, 8, 12, 20});
        while ((int)ts.size() < n) {
            String t;
            int len = rng.range(1, 4);
            for (int k = 0; k < len; ++k) t += (wchar_t)rng.oneOf({'a', 'a', 'b', 'c', rng.chance(10) ? 0xe9 : 'b', rng.chance(5) ? 0x1F600 : 'a'});
            ts.insert(t);
        }
        pool.assign(ts.begin(), ts.end());
    }
    DocS makeDoc() {
        DocS d;
        d.u = (int)docs.size();
        d.boosted = rng.chance(15);
        bool wordy = !bulk && rng.chance(6);
        for (int f = 1; f <= 3; ++f) {
            int n = rng.chance(15) ? 0 : wordy ? rng.oneOf({10, 20, 40, 45}) : rng.range(1, bulk ? 4 : 10);
            for (int k = 0; k < n; ++k) {
                Tok t;
                bool syn = f == 2 && k > 0 && d.toks[f].back().inc > 0 && rng.chance(20);
                t.term = u8(pool[syn ? NS() + rng.below(3) : mainTerm()]);
                t.inc = syn ? 0 : rng.chance(15) ? rng.range(2, 4) : 1;
                t.s = k; t.e = k + 1;
                d.toks[f].push_back(t);
            }
        }
        if (rng.chance(80)) { d.hi = true; d.i = rng.chance(70) ? rng.range(-3, 3) : rng.range(-100, 100); }
        if (rng.chance(80)) d.s = rndTerm();
        if (rng.chance(80)) { d.hd = true; d.d = rng.range(-5, 5); }
        if (rng.chance(85)) {
            d.hn = true;
            if (numKind == 0) d.num = rng.oneOf({0, 1, -1, INT_MAX, INT_MIN, rng.range(-20, 20), rng.range(-300, 300), (int)rng.next()});
            else if (numKind == 1) d.num = rng.chance(30) ? rng.range(-40, 40) : rng.chance(20) ? (rng.chance(50) ? INT64_MAX : INT64_MIN) : (int64_t)rng.next() >> rng.below(60);
            else { double v = rng.chance(30) ? rng.range(-20, 20) / 4.0 : rng.chance(10) ? INFINITY : rng.chance(10) ? -INFINITY : (double)((int64_t)rng.next() >> rng.below(60)) / 1024.0; memcpy(&d.num, &v, 8); }
        }
        return d;
    }
    static double dbl(int64_t b) { double v; memcpy(&v, &b, 8); return v; }
    // an order-preserving triple
    std::string tri(int64_t v) const {
        if (numKind == 2 && v < 0) v ^= 0x7fffffffffffffffll;
        std::vector<long long> t = {(long long)(v >> 42), (long long)((v >> 21) & 0x1fffff), (long long)(v & 0x1fffff)};
        return jints(t);
    }
    std::string docJ(const DocS& d) {
        std::vector<std::string> fs;
        std::vector<int> nrm;
        for (int f = 1; f <= 3; ++f) {
            std::vector<std::string> ps;
            int p = -1;
            for (auto& t : d.toks[f]) { p += t.inc; std::vector<int> x = {poolId(w(t.term)), p}; ps.push_back(jints(x)); }
            fs.push_back(jraws(ps));
            nrm.push_back(f == 3 || d.toks[f].empty() ? 1 : (d.boosted ? 2 : 1) << (d.toks[f].size() % 3));
        }
        J j("Doc");
        j.i("u", d.u).raw("f", jraws(fs)).raw("n", jints(nrm)).b("hi", d.hi).i("i", d.hi ? d.i : 0).i("s", d.s).i("d", d.hd ? d.d : 0).b("hn", d.hn).raw("num", tri(d.num));
        return j.str();
    }
    DocumentPtr lucene(const DocS& d, int part) {     // part: 0 whole, 1 and 2: a share of the fields
        DocumentPtr x = newLucene<Document>();
        x->add(newLucene<Field>(FU, StringUtils::toString(d.u), Field::STORE_YES, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        if (d.boosted) x->setBoost(2);
        for (int f = 1; f <= 3; ++f) {
            if (part && (part == 1) != (f == 1)) continue;
            if (d.toks[f].empty() && (d.boosted || rng.chance(50))) continue;
            FieldPtr fl = newLucene<Field>(FN[f], TokenStreamPtr(newLucene<SpecStream>(d.toks[f])));
            if (f == 3) fl->setOmitNorms(true);
            x->add(fl);
        }
        if (part != 1) {
            if (d.hi) x->add(newLucene<Field>(FI, StringUtils::toString(d.i), Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
            if (d.hn) {
                NumericFieldPtr n = newLucene<NumericField>(FNUM, ps);
                if (numKind == 0) n->setIntValue((int32_t)d.num); else if (numKind == 1) n->setLongValue(d.num); else n->setDoubleValue(dbl(d.num));
                x->add(n);
            }
        }
        if (part != 2) {
            if (d.s >= 0) x->add(newLucene<Field>(FS, pool[d.s], Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
            if (d.hd) x->add(newLucene<Field>(FD, w((d.d < 0 ? "-" : "") + std::to_string(std::abs(d.d) / 2) + (d.d % 2 ? ".5" : ".0")), Field::STORE_NO, Field::INDEX_NOT_ANALYZED_NO_NORMS));
        }
        return x;
    }
    IndexWriterPtr writer(const DirectoryPtr& d, bool create) {
        IndexWriterPtr x = newLucene<IndexWriter>(d, newLucene<NoAnalyzer>(), create, IndexWriter::MaxFieldLengthUNLIMITED);
        LogDocMergePolicyPtr mp = newLucene<LogDocMergePolicy>(x);
        mp->setMergeFactor(100000);
        mp->setUseCompoundFile(false);
        mp->setUseCompoundDocStore(false);
        x->setMergePolicy(mp);
        x->setMergeScheduler(newLucene<SerialMergeScheduler>());
        x->setSimilarity(sim);
        x->setMaxBufferedDocs(bulk ? 100000 : rng.oneOf({2, 3, 5, 20, 1000}));
        x->setRAMBufferSizeMB(IndexWriter::DISABLE_AUTO_FLUSH);
        return x;
    }
    void write(const DirectoryPtr& d, bool create, int from, int to, int part) {
        IndexWriterPtr x = writer(d, create);
        for (int k = from; k < to; ++k) { x->addDocument(lucene(docs[k], part)); if (bulk && rng.chance(1) && rng.chance(10)) x->commit(); }
        x->close();
    }
    void del(int u) {
        docs[u].live = false;
        std::vector<DirectoryPtr> ds = one;
        ds.insert(ds.end(), parts.begin(), parts.end());
        ds.insert(ds.end(), fields.begin(), fields.end());
        for (auto& d : ds) {
            IndexWriterPtr x = writer(d, false);
            x->deleteDocuments(newLucene<Term>(FU, StringUtils::toString(u)));
            x->close();
        }
        J j("Del"); j.i("u", u); emit(j);
    }
    void begin() {
        makePool();
        numKind = rng.below(3);
        ps = rng.oneOf({1, 2, 4, 8, 16, 32, 64});
        J j("Reset");
        std::vector<std::string> v;
        for (auto& t : pool) v.push_back(codes(t));
        j.raw("pool", jraws(v)); emit(j);
        int n = mem ? 1 : bulk ? rng.oneOf({2100, 4500}) : rng.oneOf({1, 2, 5, 12, 20, 40});
        addDocs(n);
        one.push_back(newLucene<RAMDirectory>());
        write(one[0], true, 0, n, 0);
        if (!bulk && !mem) {
            int k = rng.range(1, 4);
            std::multiset<int> cuts; cuts.insert(0);     // a part may be empty
            for (int i = 1; i < k; ++i) { int c = rng.range(0, n); if (!cuts.count(c) || rng.chance(40)) cuts.insert(c); }
            split.assign(cuts.begin(), cuts.end());
            for (size_t i = 0; i < split.size(); ++i) {
                parts.push_back(newLucene<RAMDirectory>());
                write(parts[i], true, split[i], i + 1 < split.size() ? split[i + 1] : n, 0);
            }
            for (int p = 1; p <= 2; ++p) { fields.push_back(newLucene<RAMDirectory>()); write(fields.back(), true, 0, n, p); }
        }
        J b("Build"); emit(b);
        if (!mem && rng.chance(60)) { int m = rng.range(1, std::max(1, n / 4)); for (int i = 0; i < std::min(m, 6); ++i) { int u = rng.below(n); if (docs[u].live) del(u); } }
        open();
    }
    void addDocs(int n) {
        for (int i = 0; i < n; ++i) {
            if (bulk && !rng.chance(3)) {
                int m = std::min(n - i, rng.range(1, 60));
                for (int k = 0; k < m; ++k) { DocS e; e.u = (int)docs.size(); docs.push_back(e); }
                J j("Fill"); j.i("n", m); emit(j);
                i += m - 1;
                continue;
            }
            docs.push_back(makeDoc());
            emitRaw(docJ(docs.back()));
        }
    }
    void more() {      // some documents are added at the end, everywhere
        int from = (int)docs.size();
        addDocs(rng.range(1, 5));
        write(one[0], false, from, (int)docs.size(), 0);
        if (!parts.empty()) write(parts.back(), false, from, (int)docs.size(), 0);
        for (size_t p = 0; p < fields.size(); ++p) write(fields[p], false, from, (int)docs.size(), (int)p + 1);
        J b("Build"); emit(b);
    }
    // readers of the single index kept open while it goes on
    struct Old { IndexReaderPtr r; int n; std::set<int> dead; };
    std::vector<Old> olds;
    int nNow = 0; std::set<int> deadNow;
    void dropOld(size_t k) { olds[k].r->decRef(); olds.erase(olds.begin() + k); }
    void older() {
        if (olds.empty()) return;
        Old& o = rng.pick(olds);
        if (rng.chance(30)) { View v; v.name = "older"; v.r = o.r; values(v); return; }
        std::string fj = "{\"k\":\"none\"}";
        FilterPtr f = filter(1, fj, true);
        boost::shared_ptr<AllHits> c = newLucene<AllHits>(false);
        IndexSearcherPtr s = newLucene<IndexSearcher>(o.r);
        s->setSimilarity(sim);
        s->search(newLucene<ConstantScoreQuery>(f), CollectorPtr(c));
        s->close();
        bool fc = fj.find("irange") != std::string::npos || fj.find("srange") != std::string::npos || fj.find("sterms") != std::string::npos;
        J j("Old"); j.b("fc", fc).i("n", o.n).raw("dead", jints(o.dead)).raw("flt", fj).raw("h", jraws(c->hits)); emit(j);
    }
    void shut() {
        while (!olds.empty()) dropOld(0);
        for (auto& v : views) { v.s->close(); for (auto& r : v.close) r->close(); }
        views.clear();
    }
    void open() {
        std::vector<View> old = views;
        if (what == "cache" && !bulk && !mem && !old.empty() && rng.chance(60)) {
            if (olds.size() >= 3) dropOld(rng.below(3));
            Old o; o.r = old[0].r; o.r->incRef(); o.n = nNow; o.dead = deadNow; olds.push_back(o);
        }
        nNow = (int)docs.size(); deadNow.clear();
        for (int i = 0; i < nNow; ++i) if (!docs[i].live) deadNow.insert(i);
        views.clear();
        {
            View v; v.name = "single";
            if (!old.empty() && rng.chance(60)) { v.r = old[0].r->reopen(); if (v.r != old[0].r) v.close.push_back(v.r); else { v.close = old[0].close; old[0].close.clear(); } }
            else { v.r = IndexReader::open(one[0], rng.chance(70)); v.close.push_back(v.r); }
            v.s = newLucene<IndexSearcher>(v.r);
            views.push_back(v);
        }
        if (!parts.empty()) {
            View m; m.name = "multireader";
            Collection<IndexReaderPtr> rs(Collection<IndexReaderPtr>::newInstance());
            for (auto& d : parts) rs.add(IndexReader::open(d, true));
            m.r = newLucene<MultiReader>(rs, true);
            m.close.push_back(m.r);
            m.s = newLucene<IndexSearcher>(m.r);
            views.push_back(m);
            for (int par = 0; par < 2; ++par) {
                View s; s.name = par ? "parallelmultisearcher" : "multisearcher"; s.multi = true;
                Collection<SearchablePtr> ss(Collection<SearchablePtr>::newInstance());
                for (auto& d : parts) { IndexReaderPtr r = IndexReader::open(d, true); s.close.push_back(r); IndexSearcherPtr is = newLucene<IndexSearcher>(r); is->setSimilarity(sim); ss.add(is); }
                if (par) s.s = newLucene<ParallelMultiSearcher>(ss); else s.s = newLucene<MultiSearcher>(ss);
                views.push_back(s);
            }
            View p; p.name = "parallelreader";
            ParallelReaderPtr pr = newLucene<ParallelReader>();
            pr->add(IndexReader::open(fields[0], true));
            pr->add(IndexReader::open(fields[1], true));
            p.r = pr;
            p.close.push_back(pr);
            p.s = newLucene<IndexSearcher>(p.r);
            views.push_back(p);
            View f; f.name = "filterreader";
            f.r = newLucene<FilterIndexReader>(IndexReader::open(one[0], true));
            f.close.push_back(f.r);
            f.s = newLucene<IndexSearcher>(f.r);
            views.push_back(f);
        }
        if (mem) {
            View m; m.name = "memory";
            MemoryIndexPtr mi = newLucene<MemoryIndex>();
            for (int f = 1; f <= 2; ++f) if (!docs[0].toks[f].empty()) mi->addField(FN[f], TokenStreamPtr(newLucene<SpecStream>(docs[0].toks[f])), docs[0].boosted ? 2.0 : 1.0);
            Tok t; t.term = "0"; t.inc = 1; t.s = 0; t.e = 1;
            mi->addField(FU, TokenStreamPtr(newLucene<SpecStream>(std::vector<Tok>(1, t))));
            m.s = mi->createSearcher();
            m.r = boost::dynamic_pointer_cast<IndexSearcher>(m.s)->getIndexReader();
            views.push_back(m);
        }
        for (auto& v : views) v.s->setSimilarity(sim);
        for (auto& v : old) { v.s->close(); for (auto& r : v.close) r->close(); }
    }

    // ---- queries
    int boost() { return rng.chance(75) ? 1 : 2; }
    int qterm(int f) { return f == 2 && rng.chance(25) ? NS() + rng.below(3) : rng.chance(5) ? rng.below((int)pool.size()) : mainTerm(); }
    int forced = -1;
    int field() { return forced > 0 ? forced : mem ? rng.range(1, 2) : rng.range(1, 3); }
    Q termQ() {
        Q x; int f = field(), t = qterm(f), b = boost();
        x.q = newLucene<TermQuery>(term(f, t));
        x.q->setBoost(b);
        J j; j.s("k", "term").i("f", f).i("t", t).i("b", b); x.j = j.str();
        return x;
    }
    Q phraseQ() {
        Q x; int f = field(), b = boost(), n = rng.range(1, 4);
        bool sloppy = rng.chance(50) && f != 2;      // no terms at the same position in sloppy phrases
        std::set<int> used;
        PhraseQueryPtr p = newLucene<PhraseQuery>();
        std::vector<int> ts, os;
        int pos = -1;
        for (int i = 0; i < n; ++i) {
            int t = qterm(f);
            if (sloppy && used.count(t)) continue;
            used.insert(t);
            pos += i == 0 ? rng.oneOf({1, 1, 1, 2, 3}) : rng.oneOf({0, 1, 1, 1, 1, 2});
            if (os.size() && pos == os.back() && t == ts.back()) continue;
            ts.push_back(t); os.push_back(pos);
            p->add(term(f, t), pos);
        }
        int slop = sloppy ? rng.oneOf({1, 2, 3, 5, 10}) : 0;
        p->setSlop(slop);
        p->setBoost(b);
        x.q = p;
        J j; j.s("k", "phrase").i("f", f).raw("t", jints(ts)).raw("o", jints(os)).i("slop", slop).i("b", b); x.j = j.str();
        return x;
    }
    Q mphraseQ() {
        Q x; int f = field(), b = boost(), n = rng.range(1, 3);
        MultiPhraseQueryPtr p = newLucene<MultiPhraseQuery>();
        bool sloppy = rng.chance(30) && f != 2;
        std::vector<std::string> ts; std::vector<int> os;
        std::set<int> all;
        int pos = -1;
        for (int i = 0; i < n; ++i) {
            std::set<int> alt;
            bool syn = f == 2 && rng.chance(20);
            int m = rng.range(1, 3);
            for (int k = 0; k < m; ++k) { int t = syn ? NS() + rng.below(3) : rng.below(NS()); if (!sloppy || !all.count(t)) alt.insert(t); }
            if (alt.empty()) continue;
            all.insert(alt.begin(), alt.end());
            Collection<TermPtr> c(Collection<TermPtr>::newInstance());
            for (int t : alt) c.add(term(f, t));
            pos += rng.oneOf({1, 1, 1, 2});
            p->add(c, pos);
            ts.push_back(jints(alt)); os.push_back(pos);
        }
        int slop = sloppy ? rng.oneOf({1, 2, 4}) : 0;
        p->setSlop(slop);
        p->setBoost(b);
        x.q = p;
        J j; j.s("k", "mphrase").i("f", f).raw("t", jraws(ts)).raw("o", jints(os)).i("slop", slop).i("b", b); x.j = j.str();
        return x;
    }
    // unit: only spans of one position, over the terms not yet used
    Q spanQ(int depth, int f, bool unit, bool top, std::set<int>* used = 0) {
        Q x;
        int r = rng.below(100);
        int b = top ? boost() : 1;
        J j;
        SpanQueryPtr s;
        auto mine = [&](int t) { if (used) { if (used->count(t)) return false; used->insert(t); } return true; };
        if (depth <= 0 || r < 30) {
            int t = unit ? mainTerm() : qterm(f);
            if (!mine(t)) for (t = 0; t + 1 < (int)pool.size() && !mine(t); ++t);
            s = newLucene<SpanTermQuery>(term(f, t));
            j.s("k", "sterm").i("f", f).i("t", t);
        } else if (unit ? r < 80 : r < 45) {
            int n = rng.range(1, 3);
            Collection<SpanQueryPtr> c(Collection<SpanQueryPtr>::newInstance());
            std::vector<std::string> js;
            for (int i = 0; i < n; ++i) { Q y = spanQ(depth - 1, f, unit, false, used); c.add(boost::dynamic_pointer_cast<SpanQuery>(y.q)); js.push_back(y.j); }
            s = newLucene<SpanOrQuery>(c);
            j.s("k", "sor").raw("c", jraws(js));
        } else if (unit || r < 60) {
            int e = rng.range(1, 8);
            Q y = spanQ(depth - 1, f, unit, false, used);
            s = newLucene<SpanFirstQuery>(boost::dynamic_pointer_cast<SpanQuery>(y.q), e);
            j.s("k", "sfirst").raw("q", y.j).i("e", e);
        } else if (r < 72) {
            Q y = spanQ(depth - 1, f, false, false), z = spanQ(depth - 1, f, false, false);
            s = newLucene<SpanNotQuery>(boost::dynamic_pointer_cast<SpanQuery>(y.q), boost::dynamic_pointer_cast<SpanQuery>(z.q));
            j.s("k", "snot").raw("q", y.j).raw("x", z.j);
        } else {
            bool ord = rng.chance(60) || NS() < 5;
            int n = rng.range(2, 3), slop = rng.oneOf({0, 0, 1, 2, 4, 8});
            Collection<SpanQueryPtr> c(Collection<SpanQueryPtr>::newInstance());
            std::vector<std::string> js;
            std::set<int> us;
            int ff = ord ? f : f == 2 ? 2 : f;
            for (int i = 0; i < n; ++i) { Q y = ord ? spanQ(depth - 1, ff, false, false) : spanQ(ff == 2 ? 0 : rng.below(2), ff, true, false, &us); c.add(boost::dynamic_pointer_cast<SpanQuery>(y.q)); js.push_back(y.j); }
            s = newLucene<SpanNearQuery>(c, slop, ord);
            j.s("k", "snear").raw("c", jraws(js)).i("slop", slop).b("ord", ord);
        }
        s->setBoost(b);
        j.i("b", b).i("f", f);
        x.q = s; x.j = j.str();
        return x;
    }
    // a set of terms by definition
    String rndText() { String t = pool[rng.below((int)pool.size())]; if (rng.chance(40)) t = t.substr(0, rng.range(0, (int)t.size())); if (rng.chance(25)) t += (wchar_t)rng.oneOf({'a', 'b', 'c'}); return t; }
    Q mtq(bool constOnly, bool forFilter = false) {
        Q x; int f = field(), b = boost();
        int kind = rng.below(forFilter ? 3 : 3);
        J j; MultiTermQueryPtr q;
        if (kind == 0) {
            String p = rndText();
            q = newLucene<PrefixQuery>(newLucene<Term>(FN[f], p));
            j.s("k", "prefix").raw("p", codes(p));
        } else if (kind == 1) {
            String p = rndText();
            for (size_t i = 0; i < p.size(); ++i) if (rng.chance(30)) p[i] = (wchar_t)rng.oneOf({'?', '*'});
            if (rng.chance(30)) p = L"*" + p;
            if (rng.chance(30)) p += rng.chance(50) ? L"*" : L"?";
            q = newLucene<WildcardQuery>(newLucene<Term>(FN[f], p));
            j.s("k", "wild").raw("p", codes(p));
        } else {
            bool hl = rng.chance(80), hu = rng.chance(80), il = rng.chance(50), iu = rng.chance(50);
            String lo = rndText(), up = rndText();
            q = newLucene<TermRangeQuery>(FN[f], hl ? StringValue(lo) : StringValue(VariantNull()), hu ? StringValue(up) : StringValue(VariantNull()), il, iu);
            j.s("k", "range").b("hl", hl).b("hu", hu).b("il", il || !hl).b("iu", iu || !hu).raw("lo", codes(hl ? lo : L"")).raw("up", codes(hu ? up : L""));
        }
        int m = constOnly ? rng.oneOf({0, 2}) : rng.below(4);
        if (m == 0) q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE());
        else if (m == 1) { q->setRewriteMethod(MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE()); }
        else if (m == 2) { q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT()); }
        else { q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE()); }
        q->setBoost(b);
        j.i("f", f).i("b", b).b("scoring", m == 1).i("m", m);
        x.q = q; x.j = j.str();
        return x;
    }
    Q fuzzyQ() {      // as a constant score
        Q x; int f = field(), b = boost();
        String t = rndText();
        if (t.empty()) t = L"a";
        if (rng.chance(50)) t[rng.below((int)t.size())] = 'b';
        int ms = rng.oneOf({0, 1, 2, 2, 3}), pl = rng.range(0, 2);       // quarters
        x.q = newLucene<ConstantScoreQuery>(newLucene<QueryWrapperFilter>(newLucene<FuzzyQuery>(newLucene<Term>(FN[f], t), ms / 4.0, pl)));
        x.q->setBoost(b);
        J j; j.s("k", "fuzzy").raw("p", codes(t)).i("ms", ms).i("pl", std::min(pl, (int)t.size())).i("f", f).i("b", b).b("scoring", false).i("m", 0);
        x.j = j.str();
        return x;
    }
    int64_t rndNum() { return !docs.empty() && rng.chance(70) ? docs[rng.below((int)docs.size())].num : makeDoc().num; }
    NumericRangeQueryPtr numRange(J& j) {
        bool hl = rng.chance(85), hu = rng.chance(85), il = rng.chance(50), iu = rng.chance(50);
        int64_t lo = rndNum(), up = rndNum();
        if (rng.chance(60) && (numKind == 2 ? dbl(lo) > dbl(up) : lo > up)) std::swap(lo, up);
        NumericValue a = VariantNull(), b = VariantNull();
        if (numKind == 0) { if (hl) a = (int32_t)lo; if (hu) b = (int32_t)up; }
        else if (numKind == 1) { if (hl) a = lo; if (hu) b = up; }
        else { if (hl) a = dbl(lo); if (hu) b = dbl(up); }
        j.s("k", "num").b("hl", hl).b("hu", hu).b("il", il || !hl).b("iu", iu || !hu).raw("lo", tri(hl ? lo : 0)).raw("up", tri(hu ? up : 0));
        return newLucene<NumericRangeQuery>(FNUM, ps, numKind == 0 ? 32 : 64, a, b, il, iu);
    }
    Q numQ() {
        Q x; int b = boost();
        J j;
        NumericRangeQueryPtr q = numRange(j);
        int m = rng.oneOf({0, 2, 3});
        if (m == 0) q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE());
        else { if (m == 3) q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE()); else q->setRewriteMethod(MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT()); }
        q->setBoost(b);
        j.i("b", b);
        x.q = q; x.j = j.str();
        return x;
    }
    Q boolQ(int depth) {
        Q x; bool dc = rng.chance(25);
        BooleanQueryPtr q = newLucene<BooleanQuery>(dc);
        int n = rng.oneOf({0, 1, 2, 2, 3, 3, 4, 6}), opt = 0, b = boost();
        bool mostlyShould = rng.chance(50);
        std::vector<std::string> cs;
        for (int i = 0; i < n; ++i) {
            Q y = query(depth - 1);
            int o = mostlyShould ? (rng.chance(85) ? 1 : rng.below(3)) : rng.below(3);
            q->add(y.q, o == 0 ? BooleanClause::MUST : o == 1 ? BooleanClause::SHOULD : BooleanClause::MUST_NOT);
            if (o == 1) ++opt;
            x.multi = x.multi && y.multi;
            J j; j.s("o", o == 0 ? "+" : o == 1 ? "?" : "-").raw("q", y.j);
            cs.push_back(j.str());
        }
        int min = rng.chance(30) ? rng.below(opt + 2) : 0;
        q->setMinimumNumberShouldMatch(min);
        q->setBoost(b);
        x.q = q;
        J j; j.s("k", "bool").raw("c", jraws(cs)).i("min", min).b("dc", dc).i("b", b); x.j = j.str();
        return x;
    }
    Q query(int depth) {
        int r = rng.below(100);
        if (what == "bool") {
            if (depth <= 0 || r < 25) return rng.chance(85) ? termQ() : rng.chance(50) ? phraseQ() : allQ();
            if (r < 75) return boolQ(depth);
            if (r < 85) return dismaxQ(depth);
            if (r < 92) return filteredQ(depth);
            return constQ(depth);
        }
        if (what == "phrase") { if (r < 40) return phraseQ(); if (r < 55) return mphraseQ(); if (r < 90 || depth <= 0) return spanQ(2, field(), false, true); return boolQ(depth); }
        if (what == "cache") { if (r < 35) return constQ(1); if (r < 60) return filteredQ(1); if (r < 80 || depth <= 0) return termQ(); return boolQ(depth); }
        if (what == "terms") { if (r < 60 || depth <= 0) return mtq(false); if (r < 75) return fuzzyQ(); if (r < 92 && !mem) return numQ(); return boolQ(depth); }
        // everything
        if (depth <= 0 || r < 20) return termQ();
        if (r < 50) return boolQ(depth);
        if (r < 57) return dismaxQ(depth);
        if (r < 63) return filteredQ(depth);
        if (r < 68) return constQ(depth);
        if (r < 75) return phraseQ();
        if (r < 80) return mphraseQ();
        if (r < 88) return spanQ(2, field(), false, true);
        if (r < 94) return mtq(false);
        if (r < 98 && !mem) return numQ();
        return allQ();
    }
    Q allQ() {
        Q x; int b = boost(), f = rng.chance(30) ? rng.range(1, 2) : 0;
        x.q = newLucene<MatchAllDocsQuery>(f ? String(FN[f]) : EmptyString);
        x.q->setBoost(b);
        J j; j.s("k", "all").i("b", b).i("f", f); x.j = j.str();
        return x;
    }
    Q dismaxQ(int depth) {
        Q x; int n = depth <= 1 && rng.chance(20) ? rng.range(4, 7) : rng.range(0, 4), tie = rng.oneOf({0, 0, 1, 2}), b = boost();
        DisjunctionMaxQueryPtr q = newLucene<DisjunctionMaxQuery>((double)tie);
        std::vector<std::string> cs;
        for (int i = 0; i < n; ++i) { Q y = query(depth - 1); q->add(y.q); cs.push_back(y.j); x.multi = x.multi && y.multi; }
        q->setBoost(b);
        x.q = q;
        J j; j.s("k", "dismax").raw("c", jraws(cs)).i("tie", tie).i("b", b); x.j = j.str();
        return x;
    }
    Q filteredQ(int depth) {
        Q x, y = query(depth - 1); int b = boost();
        std::string fj; FilterPtr f = filter(depth - 1, fj);
        x.q = newLucene<FilteredQuery>(y.q, f);
        x.q->setBoost(b);
        x.multi = y.multi;
        J j; j.s("k", "filtered").raw("q", y.j).raw("flt", fj).i("b", b); x.j = j.str();
        return x;
    }
    Q constQ(int depth) {
        Q x; int b = boost();
        std::string fj; FilterPtr f = filter(depth - 1, fj, true);
        x.q = newLucene<ConstantScoreQuery>(f);
        x.q->setBoost(b);
        J j; j.s("k", "const").raw("flt", fj).i("b", b); x.j = j.str();
        return x;
    }
    // a filter and the query that says what it accepts
    void keep() {
        kept.clear();
        int n = rng.range(0, 4);
        for (int i = 0; i < n; ++i) {
            Kept k;
            int mode = rng.below(3);
            CachingWrapperFilter::DeletesMode m = (CachingWrapperFilter::DeletesMode)mode;
            if (rng.chance(25)) {
                Q y = spanQ(1, field(), false, false);
                k.j = y.j;
                k.f = newLucene<CachingSpanFilter>(newLucene<SpanQueryFilter>(boost::dynamic_pointer_cast<SpanQuery>(y.q)), mode == 0 ? CachingWrapperFilter::DELETES_IGNORE : CachingWrapperFilter::DELETES_RECACHE);
                k.alone = mode != 0;
            } else { k.f = newLucene<CachingWrapperFilter>(filter(1, k.j, true), m); k.alone = mode != 0; }
            kept.push_back(k);
        }
    }
    // alone: the filter alone decides what is found
    FilterPtr filter(int depth, std::string& fj, bool alone = false) {
        if (!kept.empty() && rng.chance(what == "cache" ? 60 : 15)) {
            Kept& k = rng.pick(kept);
            if (!alone || k.alone) { fj = k.j; return k.f; }
        }
        FilterPtr f = freshFilter(depth, fj);
        if (what == "cache" && rng.chance(40)) return FilterManager::getInstance()->getFilter(f);
        return f;
    }
    FilterPtr freshFilter(int depth, std::string& fj) {
        int r = rng.below(100);
        if (r < 25) {
            std::set<int> us;
            int n = (int)docs.size(), m = rng.chance(20) ? n : rng.range(0, std::min(n, 12));
            for (int i = 0; i < m; ++i) us.insert(rng.below(n));
            J j; j.s("k", "uids").raw("u", jints(us)); fj = j.str();
            return newLucene<UidFilter>(us, rng.chance(50));
        }
        if (r < 40) { J j; Q t = mtqFilterable(); fj = t.j; return boost::dynamic_pointer_cast<Filter>(tmp); }
        if (r < 50) {
            bool ss = rng.chance(50);
            Q y = ss ? spanQ(1, field(), false, false) : query(depth);
            fj = y.j;
            if (ss) return newLucene<SpanQueryFilter>(boost::dynamic_pointer_cast<SpanQuery>(y.q));
            return newLucene<QueryWrapperFilter>(y.q);
        }
        if (r < 65 && !mem) {
            // range over a cached field
            bool str = rng.chance(40);
            J j;
            if (str) {
                bool il = rng.chance(50), iu = rng.chance(50);
                int a = rndTerm(), b = rndTerm();
                if (a > b) std::swap(a, b);
                if (what == "cache" && lastS.second >= 0 && rng.chance(60)) { a = lastS.first; b = lastS.second; }
                lastS = {a, b};
                j.s("k", "srange").i("lo", a).i("up", b).b("il", il).b("iu", iu); fj = j.str();
                return FieldCacheRangeFilter::newStringRange(FS, pool[a], pool[b], il, iu);
            }
            int a = rng.range(-4, 4), b = rng.range(-4, 4); bool il = rng.chance(50), iu = rng.chance(50);
            if (a > b && rng.chance(80)) std::swap(a, b);
            int t = rng.below(3);
            if (what == "cache" && lastT >= 0 && rng.chance(60)) { a = lastA; b = lastB; t = lastT; }
            lastA = a; lastB = b; lastT = t;
            j.s("k", "irange").i("lo", a).i("up", b).b("il", il).b("iu", iu); fj = j.str();
            if (t == 0) return FieldCacheRangeFilter::newIntRange(FI, a, b, il, iu);
            if (t == 1) return FieldCacheRangeFilter::newLongRange(FI, (int64_t)a, (int64_t)b, il, iu);
            return FieldCacheRangeFilter::newDoubleRange(FI, (double)a, (double)b, il, iu);
        }
        if (r < 72 && !mem) {
            std::set<int> ts; int n = rng.range(0, 4);
            Collection<String> c(Collection<String>::newInstance());
            for (int i = 0; i < n; ++i) { int t = rndTerm(); ts.insert(t); c.add(pool[t]); }
            J j; j.s("k", "sterms").raw("t", jints(ts)); fj = j.str();
            return newLucene<FieldCacheTermsFilter>(FS, c);
        }
        if (r < 80 && !mem) { J j; NumericRangeQueryPtr q = numRange(j); j.i("b", 1); fj = j.str(); return newLucene<NumericRangeFilter>(q); }
        Q y = query(depth);
        fj = y.j;
        FilterPtr f = newLucene<QueryWrapperFilter>(y.q);
        if (rng.chance(50)) return newLucene<CachingWrapperFilter>(f, (CachingWrapperFilter::DeletesMode)(what == "cache" ? rng.range(1, 2) : rng.below(3))); // the manager may give a filter out again after deletions
        return f;
    }
    std::pair<int, int> lastS = {-1, -1};
    int lastA = 0, lastB = 0, lastT = -1;
    LuceneObjectPtr tmp;
    Q mtqFilterable() {
        Q x; int f = field();
        J j;
        if (rng.chance(50)) {
            String p = rndText();
            tmp = newLucene<PrefixFilter>(newLucene<Term>(FN[f], p));
            j.s("k", "prefix").raw("p", codes(p));
        } else {
            bool hl = rng.chance(80), hu = rng.chance(80), il = rng.chance(50), iu = rng.chance(50);
            if (!hl && !hu) hl = true;
            String lo = rndText(), up = rndText();
            tmp = newLucene<TermRangeFilter>(FN[f], hl ? StringValue(lo) : StringValue(VariantNull()), hu ? StringValue(up) : StringValue(VariantNull()), il && hl, iu && hu);
            j.s("k", "range").b("hl", hl).b("hu", hu).b("il", il || !hl).b("iu", iu || !hu).raw("lo", codes(hl ? lo : L"")).raw("up", codes(hu ? up : L""));
        }
        j.i("f", f).i("b", 1).b("scoring", false).i("m", 0);
        x.j = j.str();
        return x;
    }

    // ---- asking
    static void leaves(const IndexReaderPtr& r, std::vector<IndexReaderPtr>& out) {
        Collection<IndexReaderPtr> c(r->getSequentialSubReaders());
        if (!c) { out.push_back(r); return; }
        for (auto& x : c) leaves(x, out);
    }
    void hits(View& v, const Q& q) {
        int r = rng.below(5);
        bool ooo = rng.chance(50);
        boost::shared_ptr<AllHits> c = newLucene<AllHits>(ooo);
        QueryPtr x = q.q;
        std::string how = "plain";
        if (r == 0) { x = v.s->rewrite(x); how = "rewritten"; }
        else if (r == 1) {
            x = boost::dynamic_pointer_cast<Query>(q.q->clone()); how = "clone";
            bool eq = x->equals(q.q) && q.q->equals(x) && x->hashCode() == q.q->hashCode();
            J j("Same"); j.b("eq", eq); emit(j);
        }
        std::string fj = "{\"k\":\"none\"}";
        if (rng.chance(30)) { FilterPtr f = filter(1, fj); v.s->search(x, f, CollectorPtr(c)); }
        else v.s->search(x, CollectorPtr(c));
        J j("Hits"); j.s("v", v.name).s("how", how).b("ooo", ooo).raw("flt", fj).raw("h", jraws(c->hits)); emit(j);
    }
    void walk(View& v, const Q& q) {
        WeightPtr wt = q.q->weight(v.s);
        std::vector<IndexReaderPtr> ls;
        leaves(v.r, ls);
        int base = 0;
        for (auto& r : ls) {
            int n = r->maxDoc();
            ScorerPtr sc = wt->scorer(r, true, rng.chance(50) && false);
            std::vector<std::string> st;
            bool null = !sc;
            int at = -1;
            bool slow = rng.chance(50);
            while (sc && at != DocIdSetIterator::NO_MORE_DOCS) {
                bool adv = rng.chance(slow ? 20 : 60);
                int to = adv ? std::max(at + 1, 0) + (rng.chance(10) ? rng.below(n + 2) : rng.below(4)) : -1;
                int d = adv ? sc->advance(to) : sc->nextDoc();
                bool end = d == DocIdSetIterator::NO_MORE_DOCS;
                bool same = sc->docID() == d;
                double s = end ? 0 : sc->score();
                double s2 = end ? 0 : rng.chance(20) ? sc->score() : s;
                std::vector<long long> x = {to, end ? -1 : base + d, end ? 0 : s == s2 ? scoreInt(s) : -9999, same ? 1 : 0};
                st.push_back(jints(x));
                at = d;
            }
            J j("Walk"); j.s("v", v.name).i("base", base).i("n", n).b("null", null).raw("st", jraws(st)); emit(j);
            base += n;
            if (ls.size() > 4 && rng.chance(30)) break;
        }
    }
    void explain(View& v, const Q& q) {
        if (docs.empty()) return;
        int d = rng.below((int)docs.size());
        if (!docs[d].live) return;
        ExplanationPtr e = v.s->explain(q.q, d);
        J j("Explain"); j.s("v", v.name).i("d", d).b("m", e->isMatch()).i("val", scoreInt(e->getValue())); emit(j);
    }
    std::string topJ(const TopDocsPtr& t) {
        std::vector<std::string> h;
        for (auto& s : t->scoreDocs) h.push_back(pr(s->doc, s->score));
        return jraws(h);
    }
    void top(View& v, const Q& q) {
        int n = rng.chance(30) ? (int)docs.size() + rng.below(5) : rng.range(1, 6);
        if (n == 0) n = 1;
        std::string fj = "{\"k\":\"none\"}";
        FilterPtr f;
        if (rng.chance(30)) f = filter(1, fj);
        int start = 0, many = n;
        TopDocsPtr t;
        std::string how = "search";
        if (rng.chance(50)) t = v.s->search(q.q, f, n);
        else {
            bool in = rng.chance(50) && !v.multi;
            TopScoreDocCollectorPtr c = TopScoreDocCollector::create(n, in && !q.q->weight(v.s)->scoresDocsOutOfOrder());
            how = in ? "collector" : "collector-ooo";
            v.s->search(q.q, f, CollectorPtr(c));
            if (rng.chance(50)) { start = rng.below(n + 1); many = rng.range(1, n + 1); t = c->topDocs(start, many); }
            else t = c->topDocs();
        }
        J j("Top"); j.s("v", v.name).s("how", how).i("n", n).i("start", start).i("many", many).raw("flt", fj).i("total", t->totalHits).raw("h", topJ(t)).i("max", scoreInt(t->getMaxScore())); emit(j);
    }
    void sorted(View& v, const Q& q) {
        if (v.name == "memory") return;
        int n = rng.chance(30) ? (int)docs.size() + 1 : rng.range(1, 6);
        int k = rng.range(1, 3);
        Collection<SortFieldPtr> fs(Collection<SortFieldPtr>::newInstance());
        std::vector<std::string> by;
        bool doc = false;
        for (int i = 0; i < k; ++i) {
            int t = rng.below(10);
            if (t == 1) { if (doc) t = 2; doc = true; }
            bool rev = rng.chance(40);
            if (t == 0) fs.add(rev ? newLucene<SortField>(L"", (int)SortField::SCORE, true) : SortField::FIELD_SCORE());
            else if (t == 1) fs.add(rev ? newLucene<SortField>(L"", (int)SortField::DOC, true) : SortField::FIELD_DOC());
            else if (t < 6) fs.add(newLucene<SortField>(FI, rng.oneOf({SortField::INT, SortField::LONG, SortField::DOUBLE, SortField::FLOAT}), rev));
            else if (t < 8) fs.add(newLucene<SortField>(FS, rng.oneOf({SortField::STRING, SortField::STRING_VAL}), rev));
            else fs.add(newLucene<SortField>(FD, SortField::DOUBLE, rev));
            J j; j.s("t", t == 0 ? "score" : t == 1 ? "doc" : t < 6 ? "i" : t < 8 ? "s" : "d").b("r", rev);
            by.push_back(j.str());
        }
        SortPtr sort = newLucene<Sort>(fs);
        std::string fj = "{\"k\":\"none\"}";
        FilterPtr f;
        if (rng.chance(30)) f = filter(1, fj);
        bool fill = true, track = false, mx = false;
        TopDocsPtr t;
        std::string how = "search";
        if (v.multi || rng.chance(40)) t = v.s->search(q.q, f, n, sort);
        else {
            fill = rng.chance(50); track = rng.chance(50); mx = rng.chance(50);
            WeightPtr wt = q.q->weight(v.s);
            TopFieldCollectorPtr c = TopFieldCollector::create(sort, n, fill, track, mx, !wt->scoresDocsOutOfOrder());
            how = "collector";
            v.s->search(q.q, f, CollectorPtr(c));
            t = c->topDocs();
        }
        std::vector<std::string> fv;
        for (auto& s : t->scoreDocs) {
            FieldDocPtr fd = boost::dynamic_pointer_cast<FieldDoc>(s);
            std::vector<long long> x;
            if (fd && fd->fields) for (int i = 0; i < fd->fields.size(); ++i) {
                ComparableValue c = fd->fields[i];
                if (VariantUtils::typeOf<String>(c)) x.push_back(poolId(VariantUtils::get<String>(c)));
                else if (VariantUtils::typeOf<int32_t>(c)) x.push_back(VariantUtils::get<int32_t>(c));
                else if (VariantUtils::typeOf<int64_t>(c)) x.push_back(VariantUtils::get<int64_t>(c));
                else if (VariantUtils::typeOf<double>(c)) x.push_back((long long)(fs[i]->getField() == FD ? 2 : 1) * 1 == 2 ? scoreInt(2 * VariantUtils::get<double>(c)) : scoreInt(VariantUtils::get<double>(c)));
                else if (VariantUtils::isNull(c)) x.push_back(-1);
                else x.push_back(-3);
            }
            fv.push_back(jints(x));
        }
        J j("Sorted"); j.s("v", v.name).s("how", how).i("n", n).raw("by", jraws(by)).raw("flt", fj).i("total", t->totalHits).raw("h", topJ(t)).raw("fv", jraws(fv))
            .b("fill", fill).b("track", track).b("mx", mx).i("max", scoreInt(t->getMaxScore())); emit(j);
    }
    // what the field cache says of every document
    void values(View& v) {
        std::vector<IndexReaderPtr> ls;
        if (rng.chance(80)) leaves(v.r, ls); else ls.push_back(v.r);
        int base = 0;
        FieldCachePtr fc = FieldCache::DEFAULT();
        for (auto& r : ls) {
            int n = r->maxDoc();
            int k = rng.below(7);
            std::string kind;
            std::vector<std::string> vs;
            if (k == 0) { kind = "i"; if (rng.chance(50)) { Collection<int32_t> c = fc->getInts(r, FI); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(c[i])); }
                                     else { Collection<int64_t> c = fc->getLongs(r, FI); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(c[i])); } }
            else if (k == 1) { kind = "neg"; Collection<int32_t> c = fc->getInts(r, FI, neg); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(c[i])); }
            else if (k == 2) { kind = "d"; Collection<double> c = fc->getDoubles(r, FD); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(scoreInt(2 * c[i]))); }
            else if (k == 3) { kind = "s"; Collection<String> c = fc->getStrings(r, FS); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(poolId(c[i]))); }
            else if (k == 4) { kind = "s"; StringIndexPtr c = fc->getStringIndex(r, FS); for (int i = 0; i < n; ++i) vs.push_back(std::to_string(poolId(c->lookup[c->order[i]]))); }
            else {
                kind = "n";
                if (numKind == 0) { Collection<int32_t> c = fc->getInts(r, FNUM, FieldCache::NUMERIC_UTILS_INT_PARSER()); for (int i = 0; i < n; ++i) vs.push_back(tri(c[i])); }
                else if (numKind == 1) { Collection<int64_t> c = fc->getLongs(r, FNUM, FieldCache::NUMERIC_UTILS_LONG_PARSER()); for (int i = 0; i < n; ++i) vs.push_back(tri(c[i])); }
                else { Collection<double> c = fc->getDoubles(r, FNUM, FieldCache::NUMERIC_UTILS_DOUBLE_PARSER()); for (int i = 0; i < n; ++i) { int64_t b; double x = c[i]; memcpy(&b, &x, 8); vs.push_back(tri(b)); } }
            }
            J j("Values"); j.s("v", v.name).i("base", base).s("kind", kind).raw("x", jraws(vs)); emit(j);
            base += n;
        }
    }
    // what a view says of its documents and terms
    void stats(View& v) {
        std::vector<std::string> us, fs;
        int max = v.s->maxDoc(), num = v.r ? v.r->numDocs() : -1;
        if (v.name != "memory") for (int i = 0; i < 6 && max > 0; ++i) {
            int d = rng.below(max);
            if (!docs[d].live) continue;
            std::vector<int> x = {d, std::stoi(u8(v.s->doc(d)->get(FU)))};
            us.push_back(jints(x));
        }
        Collection<TermPtr> ts(Collection<TermPtr>::newInstance());
        std::vector<std::pair<int, int>> ft;
        for (int i = 0; i < 6; ++i) { int f = mem ? rng.range(1, 2) : rng.range(1, 3), t = rndTerm(); ft.push_back({f, t}); ts.add(term(f, t)); }
        Collection<int32_t> all = v.s->docFreqs(ts);
        for (int i = 0; i < 6; ++i) {
            std::vector<int> x = {ft[i].first, ft[i].second, all[i]};
            fs.push_back(jints(x));
            x[2] = v.r && rng.chance(50) ? v.r->docFreq(ts[i]) : v.s->docFreq(ts[i]);
            fs.push_back(jints(x));
        }
        J j("Stats"); j.s("v", v.name).i("max", max).i("num", num).raw("us", jraws(us)).raw("fs", jraws(fs)); emit(j);
    }
    void spans(View& v) {
        Q q = spanQ(2, field(), false, false);
        std::vector<IndexReaderPtr> ls;
        leaves(v.r, ls);
        J qj("SQuery"); qj.raw("q", q.j); emit(qj);
        SpanQueryPtr sq = boost::dynamic_pointer_cast<SpanQuery>(q.q->rewrite(v.r));
        int base = 0;
        for (auto& r : ls) {
            SpansPtr s = sq->getSpans(r);
            std::vector<std::string> st;
            bool more = true;
            int n = r->maxDoc(), at = -1;
            while (more) {
                bool skip = rng.chance(25);
                int to = skip ? at + 1 + rng.below(4) : -1;
                more = skip ? s->skipTo(to) : s->next();
                std::vector<int> x = {to, more ? base + s->doc() : -1, more ? s->start() : 0, more ? s->end() : 0};
                st.push_back(jints(x));
                if (more) at = s->doc();
            }
            J j("Spans"); j.s("v", v.name).i("base", base).i("n", n).raw("st", jraws(st)); emit(j);
            base += n;
        }
    }
    void round() {
        Q q = query(mem ? 2 : 3);
        J j("Query"); j.raw("q", q.j); emit(j);
        int m = bulk ? 3 : rng.range(3, 8);
        for (int i = 0; i < m; ++i) {
            View& v = what == "views" || rng.chance(50) ? rng.pick(views) : views[0];
            if (v.multi && !q.multi) continue;
            int r = rng.below(100);
            if (what == "top") r = 45 + r * 40 / 100;
            if (r < 30) hits(v, q);
            else if (r < 45) { if (v.r) walk(v, q); }
            else if (r < 65) top(v, q);
            else if (r < 85) sorted(v, q);
            else explain(v, q);
        }
    }
    // rewriting a multi-term query into clauses under a limit
    void clauses(View& v) {
        int f = field();
        std::set<int> ts;
        TermEnumPtr te = v.r->terms(newLucene<Term>(FN[f], L""));
        do {
            TermPtr t = te->term();
            if (!t || t->field() != FN[f]) break;
            ts.insert(poolId(t->text()));
        } while (te->next());
        te->close();
        int lim = rng.oneOf({1, 1, 2, 3, 4, 5, 6, 8, 12, 1024});
        bool fz = rng.chance(40);
        QueryPtr x; J qj; int pf = 0;
        std::string kind;
        if (fz) {
            String t = rndText();
            if (t.empty()) t = L"a";
            if (rng.chance(50)) t[rng.below((int)t.size())] = 'b';
            int ms = rng.oneOf({0, 1, 2, 2, 3}), pl = rng.range(0, 2);
            x = newLucene<FuzzyQuery>(newLucene<Term>(FN[f], t), ms / 4.0, pl);
            qj.s("k", "fuzzy").raw("p", codes(t)).i("ms", ms).i("pl", std::min(pl, (int)t.size()));
            kind = "top";
        } else {
            forced = f; Q y = mtq(false); forced = -1; x = y.q;
            MultiTermQueryPtr mt = boost::dynamic_pointer_cast<MultiTermQuery>(x);
            RewriteMethodPtr m = mt->getRewriteMethod();
            kind = m == MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE() ? "score" : m == MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE() ? "const" : m == MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE() ? "filter" : "auto";
            if (kind == "auto" && rng.chance(60)) {
                ConstantScoreAutoRewritePtr a = newLucene<ConstantScoreAutoRewrite>();
                a->setTermCountCutoff(rng.range(0, 6));
                a->setDocCountPercent(rng.oneOf({0, 1, 50, 100}));
                mt->setRewriteMethod(a);
            }
            qj.raw("y", y.j);
        }
        int was = BooleanQuery::getMaxClauseCount();
        std::string out = "ok";
        std::vector<int> cl;
        bool exact = false;
        QueryPtr y;
        BooleanQuery::setMaxClauseCount(lim);
        try { y = x->rewrite(v.r); for (QueryPtr n = y->rewrite(v.r); n != y; n = y->rewrite(v.r)) y = n; }
        catch (TooManyClausesException&) { out = "toomany"; }
        catch (LuceneException& e) { out = exName(e); }
        BooleanQuery::setMaxClauseCount(was);
        if (y) {
            ConstantScoreQueryPtr cs = boost::dynamic_pointer_cast<ConstantScoreQuery>(y);
            QueryWrapperFilterPtr qw = cs ? boost::dynamic_pointer_cast<QueryWrapperFilter>(cs->getFilter()) : QueryWrapperFilterPtr();
            BooleanQueryPtr b = boost::dynamic_pointer_cast<BooleanQuery>(y);
            TermQueryPtr t = boost::dynamic_pointer_cast<TermQuery>(y);
            if (t) { exact = true; int u = poolId(t->getTerm()->text()); if (u >= 0) cl.push_back(u); }
            if (b) for (auto c = b->begin(); c != b->end(); ++c) {
                TermQueryPtr u = boost::dynamic_pointer_cast<TermQuery>((*c)->getQuery());
                if (u) cl.push_back(poolId(u->getTerm()->text()));
            }
        }
        J j("Clauses"); j.s("v", v.name).s("kind", kind).i("f", f).raw("q", fz ? qj.str() : inner(qj.str())).raw("ts", jints(ts)).i("lim", lim).s("out", out).b("exact", exact).raw("cl", jints(cl));
        emit(j);
    }
    std::string inner(const std::string& s) { return s.substr(5, s.size() - 6); }
    // queries that call themselves equal must mean the same; a query built twice is equal to itself
    void equal() {
        for (int i = 0; i < 12; ++i) {
            Rng save = rng;
            int depth = rng.range(0, 1);
            Q a = query(depth);
            Rng after = rng;
            rng = save; (void)rng.range(0, 1);
            Q b = query(depth);
            bool whole = a.j.find("flt") == std::string::npos && a.j.find("fuzzy") == std::string::npos;
            if (whole) { J j("Same"); j.b("eq", a.q->equals(b.q) && b.q->equals(a.q) && a.q->hashCode() == b.q->hashCode() && a.q->toString() == b.q->toString()); emit(j); }
            rng = after;
            Q c = near(a, depth);
            bool eq = a.q->equals(c.q);
            if (eq != c.q->equals(a.q)) { J j("Same"); j.b("eq", false); emit(j); }
            if (eq && a.j != c.j) { J j("Equal"); j.raw("a", a.j).raw("b", c.j).b("hash", a.q->hashCode() == c.q->hashCode()); emit(j); }
        }
    }
    // another query that may look like a
    Q near(const Q& a, int depth) {
        Q best; 
        for (int i = 0; i < 30; ++i) {
            Q c = query(depth);
            if (c.q->equals(a.q) && c.j != a.j) return c;
            if (i == 0 || c.q->toString() == a.q->toString()) best = c;
        }
        return best;
    }
    void step() {
        int r = rng.below(100);
        if (what == "terms" && !mem && r >= 80) { View& v = rng.pick(views); if (v.r && !v.multi) { clauses(v); return; } }
        if (!mem && r >= 94) { equal(); return; }
        if (what == "views" && r >= 84) { stats(rng.pick(views)); return; }
        if (!bulk && !mem && r < 4) { more(); open(); }
        else if (!bulk && !mem && r < 9) { int u = rng.below((int)docs.size()); if (docs[u].live) { del(u); open(); } }
        else if (what == "cache" && r < 26) { View& v = rng.pick(views); if (v.r && !mem) values(v); }
        else if (what == "cache" && r >= 84 && r < 94) older();
        else if (what == "cache" && r < 32) FieldCache::DEFAULT()->purge(rng.pick(views).r ? views[0].r : views[0].r);
        else if (what == "cache" && !bulk && !mem && r < 45) { if (rng.chance(50)) { more(); open(); } else { int u = rng.below((int)docs.size()); if (docs[u].live) { del(u); open(); } } }
        else if (what == "phrase" && r < 30) { View& v = rng.pick(views); if (v.r) spans(v); }
        else round();
    }
};

// known: values are cached per segment core, and a reader with deletions caches none for the deleted documents
static void coreValues() {
    DirectoryPtr d = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    for (int i = 0; i < 3; ++i) { DocumentPtr x = newLucene<Document>(); x->add(newLucene<Field>(FI, StringUtils::toString(i + 5), Field::STORE_NO, Field::INDEX_NOT_ANALYZED)); w->addDocument(x); }
    w->commit();
    IndexReaderPtr a = IndexReader::open(d, true);
    w->deleteDocuments(newLucene<Term>(FI, L"6"));
    w->close();
    IndexReaderPtr b = a->reopen();
    Collection<int32_t> y = FieldCache::DEFAULT()->getInts(b->getSequentialSubReaders()[0], FI), x = FieldCache::DEFAULT()->getInts(a->getSequentialSubReaders()[0], FI);
    bool others = x[0] == 5 && x[2] == 7 && y[0] == 5 && y[2] == 7;
    J j("Finding"); j.s("key", others ? "values-cached-with-deletions" : "cached-values-wrong").b("fails", !others || x[1] != 6).s("what", "the reader opened before the deletion has value " + std::to_string(x[1]) + " for a live document with value 6"); emit(j);
    b->close(); a->close();
}

static int run(const Opts& o) {
    fastSleep = true;
    uint64_t seed = o.u64("seed", 1);
    int hists = o.num("hists", 10), len = o.num("len", 60), bulk = o.num("bulk", 0);
    std::string what = o.str("what", "all");
    if (what == "cache") coreValues();
    for (int h = 0; h < hists; ++h) {
        Rng r(seed * 7919 + h);
        bool mem = !bulk && what == "views" ? r.chance(30) : !bulk && r.chance(5);
        H x(seed * 1000003 + h, bulk, mem, what);
        x.begin();
        x.keep();
        for (int i = 0; i < (mem ? len / 4 : len); ++i) x.step();
        x.shut();
    }
    return 0;
}
static Cmd reg("search", run);
} }
