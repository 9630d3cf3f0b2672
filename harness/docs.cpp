#include "docs.h"
#include "TermEnum.h"
#include "TermPositions.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "Term.h"
#include "Fieldable.h"

namespace vh {
ByteArray bytes(const std::string& s) {
    ByteArray b(ByteArray::newInstance((int)s.size()));
    memcpy(b.get(), s.data(), s.size());
    return b;
}
SpecStream::SpecStream(const std::vector<Tok>& t, int f) : toks(t), at(0), failAt(f) {
    term = addAttribute<TermAttribute>();
    inc = addAttribute<PositionIncrementAttribute>();
    off = addAttribute<OffsetAttribute>();
    bool p = false;
    for (auto& k : toks) p = p || k.hasPay;
    if (p) pay = addAttribute<PayloadAttribute>();
}
bool SpecStream::incrementToken() {
    if ((int)at == failAt) boost::throw_exception(IllegalArgumentException(L"injected token failure"));
    if (at >= toks.size()) return false;
    clearAttributes();
    const Tok& k = toks[at++];
    term->setTermBuffer(w(k.term));
    inc->setPositionIncrement(k.inc);
    off->setOffset(k.s, k.e);
    if (pay && k.hasPay) pay->setPayload(newLucene<Payload>(bytes(k.pay)));
    return true;
}

std::vector<int> deepDigest(const IndexReaderPtr& r, const std::set<std::string>& skipNorms, bool vectors) {
    int n = r->maxDoc();
    std::vector<uint64_t> sum(n, 0);
    std::vector<std::set<std::string>> fields(n);
    TermEnumPtr te = r->terms();
    TermPositionsPtr tp = r->termPositions();
    while (te->next()) {
        TermPtr t = te->term();
        std::string fld = u8(t->field());
        tp->seek(t);
        while (tp->next()) {
            int d = tp->doc();
            Hash h;
            h.add(t->field());
            h.add(t->text());
            int f = tp->freq();
            h.add((uint64_t)f);
            for (int k = 0; k < f; ++k) {
                h.add((uint64_t)tp->nextPosition());
                if (tp->isPayloadAvailable()) {
                    int len = tp->getPayloadLength();
                    ByteArray b(ByteArray::newInstance(len));
                    b = tp->getPayload(b, 0);
                    h.add(std::string((const char*)b.get(), len));
                }
            }
            if (d >= 0 && d < n) { sum[d] += h.v; fields[d].insert(fld); }
        }
    }
    tp->close();
    te->close();
    std::map<std::string, ByteArray> nrm;
    for (int d = 0; d < n; ++d)
        for (auto& f : fields[d])
            if (!skipNorms.count(f) && !nrm.count(f)) nrm[f] = r->norms(w(f));
    std::vector<int> out(n, 0);
    for (int d = 0; d < n; ++d) {
        if (r->isDeleted(d)) continue;
        Hash h;
        h.add(sum[d]);
        if (getenv("VPARTS")) fprintf(stderr, "doc %d postings %llx", d, (unsigned long long)h.v);
        DocumentPtr doc = r->document(d);
        Collection<FieldablePtr> fs = doc->getFields();
        for (int k = 0; k < fs.size(); ++k) {
            h.add(fs[k]->name());
            if (fs[k]->isBinary()) {
                ByteArray b = fs[k]->getBinaryValue();
                h.add(std::string((const char*)b.get() + fs[k]->getBinaryOffset(), fs[k]->getBinaryLength()));
            } else h.add(fs[k]->stringValue());
        }
        if (getenv("VPARTS")) fprintf(stderr, " stored %llx", (unsigned long long)h.v);
        if (vectors) {
            Collection<TermFreqVectorPtr> tvs = r->getTermFreqVectors(d);
            uint64_t tvsum = 0;
            if (tvs)
                for (int k = 0; k < tvs.size(); ++k) {
                    TermFreqVectorPtr v = tvs[k];
                    Hash g;
                    g.add(v->getField());
                    Collection<String> ts = v->getTerms();
                    Collection<int32_t> fr = v->getTermFrequencies();
                    boost::shared_ptr<TermPositionVector> pv = boost::dynamic_pointer_cast<TermPositionVector>(v);
                    for (int q = 0; q < ts.size(); ++q) {
                        g.add(ts[q]);
                        g.add((uint64_t)fr[q]);
                        if (pv) {
                            Collection<int32_t> ps = pv->getTermPositions(q);
                            if (ps) for (int x = 0; x < ps.size(); ++x) g.add((uint64_t)ps[x]);
                            Collection<TermVectorOffsetInfoPtr> os = pv->getOffsets(q);
                            if (os) for (int x = 0; x < os.size(); ++x) { g.add((uint64_t)os[x]->getStartOffset()); g.add((uint64_t)os[x]->getEndOffset()); }
                        }
                    }
                    tvsum += g.v;
                }
            h.add(tvsum);
            if (getenv("VPARTS")) fprintf(stderr, " vectors %llx", (unsigned long long)tvsum);
        }
        for (auto& f : fields[d])
            if (!skipNorms.count(f) && nrm[f]) { h.add(f); h.add((uint64_t)nrm[f][d]); }
        int v = h.i31();
        out[d] = v == 0 ? 1 : v;
        if (getenv("VPARTS")) fprintf(stderr, " all %d\n", out[d]);
    }
    return out;
}
}
