// Token streams under the driver's control, documents, and deep projections of a reader's documents.
#pragma once
#include "h.h"
#include "TokenStream.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "OffsetAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"

namespace vh {
struct Tok { std::string term; int inc = 1; int s = 0, e = 0; std::string pay; bool hasPay = false; };

// Delivers given tokens; throws IllegalArgumentException before token number failAt.
class SpecStream : public TokenStream {
public:
    SpecStream(const std::vector<Tok>& t, int failAt = -1);
    LUCENE_CLASS(SpecStream);
    std::vector<Tok> toks;
    size_t at;
    int failAt;
    TermAttributePtr term;
    PositionIncrementAttributePtr inc;
    OffsetAttributePtr off;
    PayloadAttributePtr pay;
    virtual bool incrementToken();
    virtual void reset() { at = 0; }
};
typedef boost::shared_ptr<SpecStream> SpecStreamPtr;

// one 30-bit number per document number (0 for deleted ones) covering everything a reader can tell about the document;
// norms of the fields in skipNorms are left out
std::vector<int> deepDigest(const IndexReaderPtr& r, const std::set<std::string>& skipNorms, bool vectors = true);
ByteArray bytes(const std::string& s);
}
