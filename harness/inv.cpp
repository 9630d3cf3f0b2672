// Documents under the driver's control go into an index; everything a reader says about them is an event.
#include "docs.h"
#include "RAMDirectory.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "NoLockFactory.h"
#include "IndexWriter.h"
#include "IndexReader.h"
#include "LogDocMergePolicy.h"
#include "SerialMergeScheduler.h"
#include "Analyzer.h"
#include "Document.h"
#include "Field.h"
#include "Term.h"
#include "TermEnum.h"
#include "TermDocs.h"
#include "TermPositions.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "TermVectorMapper.h"
#include "PositionBasedTermVectorMapper.h"
#include "SortedTermVectorMapper.h"
#include "FieldSortedTermVectorMapper.h"
#include "TermVectorEntryFreqSortedComparator.h"
#include "TermVectorEntry.h"
#include "DefaultSimilarity.h"
#include "FieldInvertState.h"
#include "FieldSelector.h"
#include "MapFieldSelector.h"
#include "SetBasedFieldSelector.h"
#include "LoadFirstFieldSelector.h"
#include "CompressionTools.h"
#include "StringReader.h"
#include <boost/filesystem.hpp>
#include <cmath>

namespace vh { namespace inv {

static const wchar_t* FN[] = {L"", L"a", L"ab", L"b", L"b\u00e9", L"u", L"z"};
static const int NF = 6, FU = 5, FZ = 6;
static int fieldId(const String& n) { for (int i = 1; i <= NF; ++i) if (n == FN[i]) return i; return 0; }

struct Inst {
    int f = 1; std::string k = "tok";   // tok, raw, none (stored only)
    int tv = 0;                          // 0 none, 1 terms, 3 +positions, 5 +offsets, 7 both
    bool st = false, bin = false; std::string v; int n = 0;
    int x = 0, xl = 0, b = 0;
    int how = 0;                         // string, reader, stream
    std::vector<Tok> toks; std::vector<int> ids;
};
struct DocS { int u = 0, b = 0; std::vector<Inst> fs; };

static std::map<String, std::vector<Tok>> pending;     // analysed text -> its tokens
struct FieldCfg { bool omitTf = false, omitNorms = false, pay = false; int gap = 0, ogap = 1; };
static FieldCfg cfg[NF + 1];

class InvAnalyzer : public Analyzer {
public:
    LUCENE_CLASS(InvAnalyzer);
    virtual TokenStreamPtr tokenStream(const String&, const ReaderPtr& reader) {
        String s;
        int32_t c;
        while ((c = reader->read()) != Reader::READER_EOF) s += (wchar_t)c;
        return newLucene<SpecStream>(pending[s]);
    }
    virtual int32_t getPositionIncrementGap(const String& f) { return cfg[fieldId(f)].gap; }
    virtual int32_t getOffsetGap(const FieldablePtr& f) { return cfg[fieldId(f->name())].ogap; }
};
static std::vector<std::string> normCalls;
class InvSimilarity : public DefaultSimilarity {
public:
    LUCENE_CLASS(InvSimilarity);
    virtual double computeNorm(const String& f, const FieldInvertStatePtr& s) {
        int len = s->getLength(), ov = s->getNumOverlap();
        double boost = s->getBoost();
        int lb = (int)std::lround(std::log2(boost));
        std::vector<int> v = {fieldId(f), len, ov, s->getPosition(), s->getOffset(), std::ldexp(1.0, lb) == boost ? lb : -99};
        normCalls.push_back(jints(v));
        return boost * std::ldexp(1.0, (len * 2 + ov) % 7 - 3);
    }
};
class CodeSelector : public FieldSelector {
public:
    LUCENE_CLASS(CodeSelector);
    std::vector<int> code;
    virtual FieldSelectorResult accept(const String& f) { return (FieldSelectorResult)code[fieldId(f)]; }
};

static std::vector<String> pool;        // term texts by number, in order
static std::map<String, int> poolId;
static String uidText(int u) { char b[16]; snprintf(b, sizeof b, "%06d", u); return w(b); }
static int termId(const String& f, const String& t) {
    if (f == FN[FU]) return t.size() == 6 ? (int)wcstol(t.c_str(), 0, 10) : -2;
    auto i = poolId.find(t);
    return i == poolId.end() ? -2 : i->second;
}
static String termText(int f, int t) { return f == FU ? uidText(t) : pool[t]; }
static std::string hex(const uint8_t* p, int n) { std::string s; char b[4]; for (int i = 0; i < n; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }

class RecMapper : public TermVectorMapper {
public:
    RecMapper(bool a, bool b) : TermVectorMapper(a, b) {}
    LUCENE_CLASS(RecMapper);
    struct F { int f; bool p, o; std::vector<int> terms, freqs; std::vector<std::string> pos, off; };
    std::vector<F> fs;
    virtual void setExpectations(const String& field, int32_t, bool so, bool sp) { F x; x.f = fieldId(field); x.p = sp; x.o = so; fs.push_back(x); }
    virtual void map(const String& t, int32_t fr, Collection<TermVectorOffsetInfoPtr> off, Collection<int32_t> pos) {
        F& x = fs.back();
        x.terms.push_back(termId(FN[x.f], t));
        x.freqs.push_back(fr);
        if (pos) x.pos.push_back(jints(pos)); else x.pos.push_back("[]");
        std::vector<std::string> o;
        if (off) for (auto& i : off) { std::vector<int> q = {i->getStartOffset(), i->getEndOffset()}; o.push_back(jints(q)); }
        x.off.push_back(jraws(o));
    }
};

struct Cur { TermDocsPtr td; TermPositionsPtr tp; bool on = false; int left = 0; bool all = false; };

struct H {
    Rng rng;
    bool bulk;
    std::string base;
    DirectoryPtr dir, dir2;
    IndexWriterPtr wr, wr2;
    IndexReaderPtr rd;
    std::map<int, Cur> cur;
    int uid = 0, nc = 0, np = 0, vno = 0;
    int added2 = 0;
    std::vector<int> uids;
    int NT;
    AnalyzerPtr an;
    H(uint64_t s, bool b, const std::string& base) : rng(s), bulk(b), base(base) {}

    DirectoryPtr newDir() {
        int k = rng.below(4);
        if (k < 2) return newLucene<RAMDirectory>();
        std::string p = base + "/d" + std::to_string(np++);
        boost::filesystem::create_directories(p);
        if (k == 2) return newLucene<SimpleFSDirectory>(w(p), NoLockFactory::getNoLockFactory());
        return newLucene<MMapDirectory>(w(p), NoLockFactory::getNoLockFactory());
    }
    IndexWriterPtr newWriter(const DirectoryPtr& d) {
        IndexWriterPtr x = newLucene<IndexWriter>(d, an, true, IndexWriter::MaxFieldLengthUNLIMITED);
        LogDocMergePolicyPtr mp = newLucene<LogDocMergePolicy>(x);
        mp->setMergeFactor(100000);
        bool c = rng.chance(50);
        mp->setUseCompoundFile(c);
        mp->setUseCompoundDocStore(c);
        x->setMergePolicy(mp);
        x->setMergeScheduler(newLucene<SerialMergeScheduler>());
        x->setSimilarity(newLucene<InvSimilarity>());
        if (bulk) x->setMaxBufferedDocs(rng.oneOf({100, 500, 10000}));
        else x->setMaxBufferedDocs(rng.oneOf({2, 3, 5, 10, 100}));
        x->setRAMBufferSizeMB(IndexWriter::DISABLE_AUTO_FLUSH);
        x->setTermIndexInterval(rng.oneOf({1, 2, 3, 16, 128}));
        return x;
    }
    void begin() {
        pool.clear(); poolId.clear(); pending.clear();
        std::set<String> ts;
        if (bulk) { NT = rng.oneOf({40, 300, 500}); for (int i = 0; i < NT; ++i) ts.insert(L"t" + StringUtils::toString(i * 7919 % 100003)); }
        else {
            static const wchar_t* base[] = {L"", L"a", L"aa", L"ab", L"b", L"ba", L"\u00e9", L"e\u0301", L"\u4e2d\u6587", L"\uff61", L"\uffee", L"x y", L"zz", L"z", L"A", L"0", L"~"};
            for (auto t : base) if (rng.chance(60)) ts.insert(t);
            ts.insert(L"m");
            if (rng.chance(50)) { String s; s += (wchar_t)0x1F600; ts.insert(s); s += L"a"; ts.insert(s); }
            if (rng.chance(30)) { ts.insert(String(300, L'q')); ts.insert(String(300, L'q') + L"r"); ts.insert(String(16383, L'w')); }
            if (rng.chance(30)) for (int i = 0; i < 150; ++i) ts.insert(L"k" + StringUtils::toString(1000 + i));
        }
        for (auto& t : ts) { poolId[t] = (int)pool.size(); pool.push_back(t); }
        NT = (int)pool.size();
        std::vector<std::string> cf;
        for (int f = 1; f <= NF; ++f) {
            FieldCfg& c = cfg[f];
            c = FieldCfg();
            if (f <= 4) {
                c.omitTf = rng.chance(20); c.omitNorms = rng.chance(30); c.pay = rng.chance(40) && !c.omitTf;
                c.gap = rng.oneOf({0, 0, 1, 10, 100}); c.ogap = rng.oneOf({0, 1, 1, 5});
            } else if (f == FU) { c.omitNorms = true; c.ogap = 0; }
            std::vector<int> v = {c.omitTf, c.omitNorms, c.gap, c.ogap};
            cf.push_back(jints(v));
        }
        an = newLucene<InvAnalyzer>();
        dir = newDir(); dir2 = newDir();
        wr = newWriter(dir);
        J j("Reset"); j.raw("cfg", jraws(cf)); emit(j);
    }
    String randomText() {
        String s;
        int n = rng.below(6);
        for (int i = 0; i < n; ++i) s += (wchar_t)rng.oneOf({'a', 'b', ' ', 0xe9, 0x4e2d, 0x1F600, 'Z', '\n', '"', '\\'});
        return s;
    }
    DocS makeDoc() {
        DocS d;
        d.u = ++uid;
        d.b = rng.chance(20) ? rng.oneOf({-1, 1, 2}) : 0;
        std::vector<Inst> fs;
        Inst u; u.f = FU; u.k = "raw"; u.x = d.u; u.xl = 6; u.st = rng.chance(80); u.v = u8(uidText(d.u)); u.n = 6;
        fs.push_back(u);
        int n = bulk ? rng.range(1, 2) : rng.below(6);
        for (int i = 0; i < n; ++i) {
            Inst x;
            x.f = rng.range(1, bulk ? 2 : 4);
            x.k = rng.chance(bulk ? 10 : 25) ? "raw" : "tok";
            x.tv = rng.chance(bulk ? 5 : 45) ? rng.oneOf({1, 3, 5, 7}) : 0;
            x.b = rng.chance(15) ? rng.oneOf({-1, 1}) : 0;
            FieldCfg& c = cfg[x.f];
            if (x.k == "raw") {
                x.x = rng.below(NT); x.xl = (int)pool[x.x].size();
                x.st = rng.chance(50) && x.xl < 1000; x.v = u8(pool[x.x]); x.n = (int)x.v.size();
                if (!x.st) x.v = "";
                if (pool[x.x].size() > 16383) continue;
            } else {
                x.how = rng.below(3);
                x.st = x.how == 0 && rng.chance(60);
                String t = L"v" + StringUtils::toString(++vno) + randomText();
                x.v = u8(t); x.n = (int)x.v.size();
                int tn = bulk ? rng.range(1, 4) : rng.oneOf({0, 1, 2, 3, 5, 8, 40});
                if (!bulk && rng.chance(2)) tn = 1500;         // many occurrences in one document
                int at = 0, few = rng.range(1, NT);
                for (int q = 0; q < tn; ++q) {
                    Tok k;
                    int id = bulk ? (rng.chance(40) ? rng.below(4) : rng.below(few)) : rng.below(few);
                    k.inc = rng.chance(80) ? 1 : rng.oneOf({0, 2, 5, 30});
                    if (rng.chance(1) && tn < 50) { k.term = std::string(16384, 'w'); id = -1; }
                    else k.term = u8(pool[id]);
                    k.s = at + rng.below(3); k.e = k.s + rng.below(6);
                    at = k.inc ? k.s : at;
                    if (c.pay && rng.chance(60)) {
                        k.hasPay = true;
                        int pl = rng.oneOf({1, 1, 2, 3, 5});
                        if (rng.chance(2)) pl = 200;
                        for (int z = 0; z < pl; ++z) k.pay += (char)rng.below(256);
                    }
                    x.toks.push_back(k); x.ids.push_back(id);
                }
                pending[t] = x.toks;
            }
            fs.push_back(x);
        }
        // stored only values: of the field that is never indexed, or beside an indexed value
        int m = bulk ? rng.below(2) : rng.below(4);
        for (int i = 0; i < m; ++i) {
            Inst x; x.k = "none"; x.st = true;
            x.f = fs.size() > 1 && rng.chance(40) ? fs[1 + rng.below((int)fs.size() - 1)].f : FZ;
            x.bin = rng.chance(40);
            if (x.bin) {
                int len = rng.oneOf({0, 1, 3, 20}); if (rng.chance(2)) len = 5000;
                for (int z = 0; z < len; ++z) x.v += (char)rng.below(256);
                x.n = len;
            } else {
                String t = randomText();
                if (rng.chance(3)) t = String(5000, L'y');
                x.v = u8(t); x.n = (int)x.v.size();
            }
            fs.push_back(x);
        }
        // in any order
        for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[rng.below((int)i)]);
        d.fs = fs;
        return d;
    }
    static Field::TermVector tvOf(int tv) {
        return tv == 0 ? Field::TERM_VECTOR_NO : tv == 1 ? Field::TERM_VECTOR_YES : tv == 3 ? Field::TERM_VECTOR_WITH_POSITIONS : tv == 5 ? Field::TERM_VECTOR_WITH_OFFSETS : Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS;
    }
    DocumentPtr build(const DocS& d) {
        DocumentPtr doc = newLucene<Document>();
        if (d.b) doc->setBoost(std::ldexp(1.0, d.b));
        for (auto& x : d.fs) {
            FieldPtr f;
            FieldCfg& c = cfg[x.f];
            if (x.k == "none") {
                if (x.bin) f = newLucene<Field>(FN[x.f], bytes(x.v), Field::STORE_YES);
                else f = newLucene<Field>(FN[x.f], w(x.v), Field::STORE_YES, Field::INDEX_NO);
            } else if (x.k == "raw")
                f = newLucene<Field>(FN[x.f], termText(x.f, x.x), x.st ? Field::STORE_YES : Field::STORE_NO, c.omitNorms ? Field::INDEX_NOT_ANALYZED_NO_NORMS : Field::INDEX_NOT_ANALYZED, tvOf(x.tv));
            else if (x.how == 0)
                f = newLucene<Field>(FN[x.f], w(x.v), x.st ? Field::STORE_YES : Field::STORE_NO, c.omitNorms ? Field::INDEX_ANALYZED_NO_NORMS : Field::INDEX_ANALYZED, tvOf(x.tv));
            else if (x.how == 1) f = newLucene<Field>(FN[x.f], newLucene<StringReader>(w(x.v)), tvOf(x.tv));
            else f = newLucene<Field>(FN[x.f], newLucene<SpecStream>(x.toks), tvOf(x.tv));
            if (x.k != "none") {
                if (x.b) f->setBoost(std::ldexp(1.0, x.b));
                f->setOmitTermFreqAndPositions(c.omitTf);
                f->setOmitNorms(c.omitNorms);
            }
            doc->add(f);
        }
        return doc;
    }
    void add(int ix) {
        DocS d = makeDoc();
        normCalls.clear();
        (ix == 2 ? wr2 : wr)->addDocument(build(d));
        std::vector<std::string> fs;
        for (auto& x : d.fs) {
            std::vector<std::string> tk;
            for (size_t i = 0; i < x.toks.size(); ++i) {
                const Tok& t = x.toks[i];
                std::vector<int> p;
                if (t.hasPay) for (unsigned char c : t.pay) p.push_back(c);
                tk.push_back("[" + std::to_string(x.ids[i]) + "," + std::to_string(t.inc) + "," + std::to_string(t.s) + "," + std::to_string(t.e) + "," + jints(p) + "]");
            }
            J j; j.i("f", x.f).s("k", x.k).i("tv", x.tv).b("st", x.st).b("bin", x.bin).s("v", !x.st ? "" : x.bin ? hex((const uint8_t*)x.v.data(), x.n) : x.v).i("n", x.n).i("x", x.x).i("xl", x.xl).i("b", x.b).raw("toks", jraws(tk));
            fs.push_back(j.str());
        }
        J j("Add"); j.i("ix", ix).i("u", d.u).i("b", d.b).raw("fs", jraws(fs)).raw("ns", jraws(normCalls)); emit(j);
        uids.push_back(d.u);
        if (ix == 2) ++added2;
    }
    void closeReader() { cur.clear(); if (rd) rd->close(); rd.reset(); }
    void open() {
        closeReader();
        bool nrt = rng.chance(40);
        if (nrt) rd = wr->getReader();
        else {
            wr->commit();
            int div = rng.oneOf({1, 1, 1, 2, 3});
            rd = IndexReader::open(dir, IndexDeletionPolicyPtr(), rng.chance(50), div);
        }
        std::vector<int> del;
        for (int i = 0; i < rd->maxDoc(); ++i) if (rd->isDeleted(i)) del.push_back(i);
        std::vector<std::string> names;
        IndexReader::FieldOption opt = (IndexReader::FieldOption)rng.oneOf({IndexReader::FIELD_OPTION_ALL, IndexReader::FIELD_OPTION_INDEXED, IndexReader::FIELD_OPTION_TERMVECTOR_WITH_POSITION, IndexReader::FIELD_OPTION_INDEXED_WITH_TERMVECTOR, IndexReader::FIELD_OPTION_UNINDEXED, IndexReader::FIELD_OPTION_STORES_PAYLOADS});
        std::set<int> fsn;
        for (auto& n : rd->getFieldNames(opt)) fsn.insert(fieldId(n));
        const char* on = opt == IndexReader::FIELD_OPTION_ALL ? "all" : opt == IndexReader::FIELD_OPTION_INDEXED ? "indexed" : opt == IndexReader::FIELD_OPTION_UNINDEXED ? "unindexed" : opt == IndexReader::FIELD_OPTION_STORES_PAYLOADS ? "payloads" : opt == IndexReader::FIELD_OPTION_INDEXED_WITH_TERMVECTOR ? "tv" : "tvpos";
        J j("Open"); j.b("nrt", nrt).i("n", rd->numDocs()).i("m", rd->maxDoc()).b("hd", rd->hasDeletions()).raw("del", jints(del)).s("opt", on).raw("names", jints(fsn)); emit(j);
    }
    void change() {
        int r = rng.below(20);
        if (r < 12) {
            int n = bulk ? rng.oneOf({100, 300, 600}) : rng.range(1, 6);
            if (bulk && uid > 900) n = 5;
            for (int i = 0; i < n; ++i) add(1);
        } else if (r < 16) {
            if (uids.empty()) return;
            int n = bulk ? rng.range(1, 60) : 1;
            bool byTerm = rng.chance(30);
            if (byTerm) {
                int f = rng.range(1, 4), t = rng.below(NT);
                if (bulk) t = rng.range(4, NT - 1);
                wr->deleteDocuments(newLucene<Term>(FN[f], pool[t]));
                J j("Del"); j.i("f", f).i("t", t); emit(j);
            } else for (int i = 0; i < n; ++i) {
                int u = rng.pick(uids);
                wr->deleteDocuments(newLucene<Term>(FN[FU], uidText(u)));
                J j("Del"); j.i("f", FU).i("t", u); emit(j);
            }
        } else if (r < 17) { wr->optimize(); J j("Merge"); j.s("how", "optimize"); emit(j); }
        else if (r < 18) { wr->commit(); wr->expungeDeletes(); J j("Merge"); j.s("how", "expunge"); emit(j); }  // it covers the deletions flushed before it
        else if (r < 19) {
            // another index, whose fields may be numbered differently, is added
            if (!wr2) { wr2 = newWriter(dir2); int n = bulk ? 120 : rng.range(1, 5); for (int i = 0; i < n; ++i) add(2); }
            if (rng.chance(30)) { wr2->optimize(); J j("Merge2"); emit(j); }
            wr2->commit();
            bool readers = rng.chance(50);
            if (readers) {
                IndexReaderPtr x = IndexReader::open(dir2, true);
                Collection<IndexReaderPtr> c(Collection<IndexReaderPtr>::newInstance());
                c.add(x);
                wr->addIndexes(c);
                x->close();
            } else {
                Collection<DirectoryPtr> c(Collection<DirectoryPtr>::newInstance());
                c.add(dir2);
                wr->addIndexesNoOptimize(c);
            }
            J j("AddIdx"); j.b("readers", readers); emit(j);
            wr2->close(); wr2.reset(); dir2 = newDir();
        } else { wr->commit(); }
    }
    int rndTerm(int f) { return f == FU ? (uids.empty() ? 0 : rng.pick(uids)) : bulk && rng.chance(50) ? rng.below(6) : rng.below(NT); }
    int rndField() { int f = rng.range(1, 12); return f <= 4 ? f : f <= 10 ? rng.range(1, 2) : FU; }
    void termsDump() {
        std::vector<std::string> v;
        TermEnumPtr te = rd->terms();
        while (te->next()) {
            TermPtr t = te->term();
            std::vector<int> q = {fieldId(t->field()), termId(t->field(), t->text()), te->docFreq()};
            v.push_back(jints(q));
        }
        bool end = !te->term();
        J j("Terms"); j.b("end", end).raw("v", jraws(v)); emit(j);
    }
    void seek() {
        int f = rndField(), t = rndTerm(f);
        String text = termText(f, t);
        bool exact = true;
        // also between terms: a text just after an existing one (nothing of the pool lies between)
        if (rng.chance(25) && f != FU) {
            String x = text + L"\x01";
            if (!poolId.count(x)) { text = x; exact = false; }
        }
        TermEnumPtr te = rd->terms(newLucene<Term>(FN[f], text));
        std::vector<std::string> v;
        int n = rng.range(1, 6);
        for (int i = 0; i < n; ++i) {
            TermPtr x = te->term();
            if (!x) break;
            std::vector<int> q = {fieldId(x->field()), termId(x->field(), x->text()), te->docFreq()};
            v.push_back(jints(q));
            if (!te->next()) break;
        }
        J j("Seek"); j.i("f", f).i("t", t).b("exact", exact).i("n", n).raw("v", jraws(v)); emit(j);
        J k("DF"); k.i("f", f).i("t", t).i("v", rd->docFreq(newLucene<Term>(FN[f], termText(f, t)))); emit(k);
    }
    void cursor() {
        if (cur.empty() || (cur.size() < 4 && rng.chance(25))) {
            int id = ++nc;
            Cur c;
            bool all = rng.chance(8), pos = !all && rng.chance(50);
            int f = rndField(), t = rndTerm(f);
            TermPtr term = newLucene<Term>(FN[f], termText(f, t));
            if (all) { c.td = rd->termDocs(TermPtr()); c.all = true; }
            else if (pos) {
                if (rng.chance(50)) { c.tp = rd->termPositions(); c.tp->seek(term); } else c.tp = rd->termPositions(term);
                c.td = c.tp;
            } else if (rng.chance(50)) { c.td = rd->termDocs(); c.td->seek(term); }
            else c.td = rd->termDocs(term);
            if (!c.td) return;
            cur[id] = c;
            J j("TDNew"); j.i("c", id).b("all", all).i("f", f).i("t", t); emit(j);
            return;
        }
        auto it = cur.begin(); std::advance(it, rng.below((int)cur.size()));
        Cur& c = it->second;
        int id = it->first;
        int r = rng.below(20);
        if (r < 8) {
            int k = rng.chance(30) ? rng.range(2, 20) : 1;
            for (int i = 0; i < k; ++i) {
                bool ok = c.td->next();
                J j("TDNext"); j.i("c", id).b("r", ok).i("doc", ok ? c.td->doc() : -1).i("freq", ok ? c.td->freq() : 0); emit(j);
                c.on = ok; c.left = ok ? c.td->freq() : 0;
                if (!ok) { cur.erase(id); return; }
            }
        } else if (r < 13) {
            int m = rd->maxDoc();
            int t = c.on && rng.chance(60) ? c.td->doc() + rng.oneOf({0, 1, 2, 3, 15, 16, 17, 40, 300}) : rng.below(m + 3);
            bool ok = c.td->skipTo(t);
            J j("TDSkip"); j.i("c", id).i("t", t).b("r", ok).i("doc", ok ? c.td->doc() : -1).i("freq", ok ? c.td->freq() : 0); emit(j);
            c.on = ok; c.left = ok ? c.td->freq() : 0;
            if (!ok) cur.erase(id);
        } else if (r < 15) {
            if (c.tp) return;
            int n = rng.oneOf({1, 2, 5, 32});
            Collection<int32_t> ds(Collection<int32_t>::newInstance(n)), fs(Collection<int32_t>::newInstance(n));
            int got = c.td->read(ds, fs);
            std::vector<int> a, b;
            for (int i = 0; i < got; ++i) { a.push_back(ds[i]); b.push_back(fs[i]); }
            J j("TDRead"); j.i("c", id).i("n", n).raw("docs", jints(a)).raw("freqs", jints(b)); emit(j);
            c.on = false;
            if (!got) cur.erase(id);
        } else if (r < 19) {
            if (!c.tp || !c.on || !c.left) return;
            int n = std::min(c.left, rng.oneOf({1, 1, 2, 5, 100}));
            std::vector<std::string> v;
            for (int i = 0; i < n; ++i) {
                int p = c.tp->nextPosition();
                std::string pay = "[-1]";
                if (c.tp->isPayloadAvailable()) {
                    if (rng.chance(60)) {
                        int len = c.tp->getPayloadLength();
                        ByteArray b = c.tp->getPayload(rng.chance(50) ? ByteArray() : ByteArray::newInstance(len), 0);
                        std::vector<int> q(b.get(), b.get() + len);
                        pay = jints(q);
                    } else pay = "[-1," + std::to_string(c.tp->getPayloadLength()) + "]";
                } else pay = "[]";
                v.push_back("[" + std::to_string(p) + "," + pay + "]");
            }
            c.left -= n;
            J j("TDPos"); j.i("c", id).raw("v", jraws(v)); emit(j);
        } else {
            if (c.all) { cur.erase(id); return; }
            int f = rndField(), t = rndTerm(f);
            c.td->seek(newLucene<Term>(FN[f], termText(f, t)));
            c.on = false; c.left = 0;
            J j("TDNew"); j.i("c", id).b("all", false).i("f", f).i("t", t); emit(j);
        }
    }
    static std::string vecJ(const TermFreqVectorPtr& tv) {
        TermPositionVectorPtr pv = boost::dynamic_pointer_cast<TermPositionVector>(tv);
        std::vector<int> terms, freqs;
        std::vector<std::string> pos, off;
        bool hp = false, ho = false;
        Collection<String> ts = tv->getTerms();
        Collection<int32_t> fr = tv->getTermFrequencies();
        for (int i = 0; i < ts.size(); ++i) {
            terms.push_back(termId(tv->getField(), ts[i]));
            freqs.push_back(fr[i]);
            if (pv) {
                Collection<int32_t> p = pv->getTermPositions(i);
                Collection<TermVectorOffsetInfoPtr> o = pv->getOffsets(i);
                if (p && p.size()) { hp = true; pos.push_back(jints(p)); } else pos.push_back("[]");
                std::vector<std::string> os;
                if (o) for (auto& x : o) { std::vector<int> q = {x->getStartOffset(), x->getEndOffset()}; os.push_back(jints(q)); }
                if (!os.empty()) ho = true;
                off.push_back(jraws(os));
            } else { pos.push_back("[]"); off.push_back("[]"); }
        }
        J j; j.i("f", fieldId(tv->getField())).b("hp", hp).b("ho", ho).raw("t", jints(terms)).raw("n", jints(freqs)).raw("p", jraws(pos)).raw("o", jraws(off));
        return j.str();
    }
    void vectors() {
        int m = rd->maxDoc();
        if (!m) return;
        int d = rng.below(m);
        if (rd->isDeleted(d)) return;
        int r = rng.below(6);
        J j("Vec"); j.i("doc", d);
        if (r == 0) {
            std::vector<std::string> v;
            Collection<TermFreqVectorPtr> c = rd->getTermFreqVectors(d);
            if (c) for (auto& x : c) if (x) v.push_back(vecJ(x));
            j.s("how", "all").raw("v", jraws(v));
        } else if (r < 3) {
            int f = rng.range(1, NF);
            TermFreqVectorPtr t = rd->getTermFreqVector(d, FN[f]);
            std::vector<std::string> v, ix;
            if (t) {
                v.push_back(vecJ(t));
                for (int i = 0; i < 4; ++i) { int q = rndTerm(1); std::vector<int> z = {q, t->indexOf(pool[q])}; ix.push_back(jints(z)); }
            }
            j.s("how", "one").i("f", f).raw("v", jraws(v)).raw("ix", jraws(ix));
        } else if (r < 4) {
            int f = rng.chance(50) ? 0 : rng.range(1, 4);
            bool ip = rng.chance(30), io = rng.chance(30);
            boost::shared_ptr<RecMapper> mp = newLucene<RecMapper>(ip, io);
            if (f) rd->getTermFreqVector(d, FN[f], mp); else rd->getTermFreqVector(d, mp);
            std::vector<std::string> v;
            for (auto& x : mp->fs) { J q; q.i("f", x.f).b("hp", x.p).b("ho", x.o).raw("t", jints(x.terms)).raw("n", jints(x.freqs)).raw("p", jraws(x.pos)).raw("o", jraws(x.off)); v.push_back(q.str()); }
            j.s("how", "map").i("f", f).b("ip", ip).b("io", io).raw("v", jraws(v));
        } else if (r < 5) {
            PositionBasedTermVectorMapperPtr mp = newLucene<PositionBasedTermVectorMapper>(rng.chance(20));
            std::string ex;
            try { rd->getTermFreqVector(d, mp); } catch (LuceneException& e) { ex = exName(e); }
            j.s("ex", ex);
            std::vector<std::string> v;
            MapStringMapIntTermVectorsPositionInfo all = mp->getFieldToTerms();
            if (all && ex.empty()) for (auto e = all.begin(); e != all.end(); ++e) {
                int f = fieldId(e->first);
                for (auto p = e->second.begin(); p != e->second.end(); ++p) {
                    std::vector<int> ts;
                    for (auto& t : p->second->getTerms()) ts.push_back(termId(e->first, t));
                    v.push_back("[" + std::to_string(f) + "," + std::to_string(p->second->getPosition()) + "," + jints(ts) + "]");
                }
            }
            j.s("how", "pos").raw("v", jraws(v));
        } else {
            SortedTermVectorMapperPtr mp = newLucene<SortedTermVectorMapper>(TermVectorEntryFreqSortedComparator::compare);
            rd->getTermFreqVector(d, mp);
            std::vector<std::string> v;
            for (auto& e : mp->getTermVectorEntrySet()) { std::vector<int> q = {termId(L"a", e->getTerm()), e->getFrequency()}; v.push_back(jints(q)); }
            j.s("how", "sorted").raw("v", jraws(v));
        }
        emit(j);
    }
    void stored() {
        int m = rd->maxDoc();
        if (!m) return;
        int d = rng.below(m);
        if (rd->isDeleted(d)) return;
        std::vector<int> code(NF + 1, (int)FieldSelector::SELECTOR_LOAD);
        int r = rng.below(6);
        FieldSelectorPtr sel;
        if (r == 1) {
            boost::shared_ptr<CodeSelector> s = newLucene<CodeSelector>();
            for (int f = 1; f <= NF; ++f) code[f] = rng.oneOf({FieldSelector::SELECTOR_LOAD, FieldSelector::SELECTOR_LOAD, FieldSelector::SELECTOR_LAZY_LOAD, FieldSelector::SELECTOR_NO_LOAD, FieldSelector::SELECTOR_LOAD_AND_BREAK, FieldSelector::SELECTOR_SIZE, FieldSelector::SELECTOR_SIZE_AND_BREAK});
            s->code = code; sel = s;
        } else if (r == 2) {
            Collection<String> n(Collection<String>::newInstance());
            for (int f = 1; f <= NF; ++f) if (rng.chance(50)) n.add(FN[f]); else code[f] = FieldSelector::SELECTOR_NO_LOAD;
            sel = newLucene<MapFieldSelector>(n);
        } else if (r == 3) {
            HashSet<String> a(HashSet<String>::newInstance()), b(HashSet<String>::newInstance());
            for (int f = 1; f <= NF; ++f) {
                int z = rng.below(4);
                code[f] = z == 0 ? FieldSelector::SELECTOR_LOAD : z == 1 || z == 3 ? FieldSelector::SELECTOR_LAZY_LOAD : FieldSelector::SELECTOR_NO_LOAD;
                if (z == 0 || z == 3) a.add(FN[f]);
                if (z == 1 || z == 3) b.add(FN[f]);       // in both: lazy
            }
            sel = newLucene<SetBasedFieldSelector>(a, b);
        } else if (r == 4) { sel = newLucene<LoadFirstFieldSelector>(); for (int f = 1; f <= NF; ++f) code[f] = FieldSelector::SELECTOR_LOAD_AND_BREAK; }
        DocumentPtr doc = sel ? rd->document(d, sel) : rd->document(d);
        if (rng.chance(20)) rd->document(rng.below(m));       // lazily loaded values come later
        std::vector<std::string> v;
        Collection<FieldablePtr> fs = doc->getFields();
        std::vector<int> order;
        for (int i = 0; i < fs.size(); ++i) order.push_back(i);
        std::vector<std::string> vals(fs.size());
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below((int)i)]);
        for (int i : order) {
            FieldablePtr f = fs[i];
            std::string val;
            bool bin = f->isBinary();
            if (bin) { ByteArray b = f->getBinaryValue(); if (b) val = hex(b.get() + f->getBinaryOffset(), f->getBinaryLength()); }
            else val = u8(f->stringValue());
            J j; j.i("f", fieldId(f->name())).b("bin", bin).s("v", val).b("tok", f->isTokenized()).b("ix", f->isIndexed()).b("st", f->isStored());
            vals[i] = j.str();
        }
        J j("Doc"); j.i("doc", d).raw("code", jints(std::vector<int>(code.begin() + 1, code.end()))).raw("v", jraws(vals));
        // convenience access by name
        int f = rng.range(1, NF);
        std::vector<std::string> gv, bv;
        for (auto& s : doc->getValues(FN[f])) gv.push_back(u8(s));
        for (auto& b : doc->getBinaryValues(FN[f])) bv.push_back(b ? hex(b.get(), b.size()) : "");
        j.i("gf", f).raw("gv", jstrs(gv)).raw("bv", jstrs(bv)).s("g", doc->get(FN[f]));
        emit(j);
    }
    void norms() {
        int f = rng.range(1, 4);
        bool has = rd->hasNorms(FN[f]);
        ByteArray b = rd->norms(FN[f]);
        std::vector<int> v;
        if (b) v.assign(b.get(), b.get() + b.size());
        bool same = true;
        int m = rd->maxDoc(), off = rng.below(3);
        ByteArray c(ByteArray::newInstance(m + off));
        rd->norms(FN[f], c, off);
        std::vector<int> v2(c.get() + off, c.get() + off + m);
        J j("Norms"); j.i("f", f).b("has", has).b("null", !b).raw("v", jints(v)).raw("v2", jints(v2)); emit(j);
    }
    void compressed() {
        std::string s;
        int n = rng.oneOf({0, 1, 10, 1000, 1024, 5000});
        bool text = rng.chance(50);
        for (int i = 0; i < n; ++i) s += (char)(text ? 'a' + rng.below(3) : rng.below(256));
        ByteArray c = CompressionTools::compress((uint8_t*)s.data(), 0, n);
        ByteArray back = CompressionTools::decompress(c);
        bool ok = back.size() == n && memcmp(back.get(), s.data(), n) == 0;
        String t;
        for (int i = 0; i < std::min(n, 300); ++i) t += (wchar_t)rng.oneOf({'a', 0xe9, 0x4e2d, 0x1F600});
        bool ok2 = CompressionTools::decompressString(CompressionTools::compressString(t)) == t;
        J j("Compress"); j.b("ok", ok).b("ok2", ok2); emit(j);
    }
    void end() { closeReader(); if (wr2) wr2->close(); wr2.reset(); wr->close(); wr.reset(); }
};

static int run(const Opts& o) {
    fastSleep = true;
    uint64_t seed = o.u64("seed", 1);
    int hists = o.num("hists", 10), len = o.num("len", 60);
    bool bulk = o.num("bulk", 0);
    std::string what = o.str("what", "both");
    for (int h = 0; h < hists; ++h) {
        std::string b = scratch + "/h" + std::to_string(h);
        boost::filesystem::create_directories(b);
        {
            H x(seed * 1000003 + h, bulk, b);
            x.begin();
            for (int i = 0; i < len; ++i) {
                if (!x.rd || x.rng.chance(bulk ? 3 : 8)) {
                    int n = x.rng.range(1, 4);
                    for (int k = 0; k < n; ++k) x.change();
                    x.open();
                    continue;
                }
                int r = x.rng.below(100);
                bool post = what == "both" ? r < 50 : what == "post";
                r = x.rng.below(100);
                if (post) {
                    if (r < 8) x.termsDump();
                    else if (r < 25) x.seek();
                    else for (int k = 0; k < 5; ++k) x.cursor();
                } else {
                    if (r < 40) x.vectors();
                    else if (r < 85) x.stored();
                    else if (r < 97) x.norms();
                    else x.compressed();
                }
            }
            x.end();
        }
        boost::filesystem::remove_all(b);
    }
    return 0;
}
static Cmd reg("inv", run);
} }
