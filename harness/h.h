// Shared parts of the verification driver: seeded choices, JSON events, documents, projections.
#pragma once
#include "LuceneInc.h"
#include "LuceneHeaders.h"
#include "MiscUtils.h"
#include "StringUtils.h"
#include "Random.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>

using namespace Lucene;

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    template <class V> auto& pick(V& v) { return v[below((int)v.size())]; }
    int oneOf(std::initializer_list<int> l) { std::vector<int> v(l); return v[below((int)v.size())]; }
};

std::string u8(const String& s);
String w(const std::string& s);
std::string jstr(const std::string& s);

// A JSON value under construction; the text is kept.
struct J {
    std::string t;
    bool first = true;
    J() : t("{") {}
    explicit J(const char* op) : t("{") { s("op", op); }
    void key(const char* k) { if (!first) t += ","; first = false; t += "\""; t += k; t += "\":"; }
    J& s(const char* k, const std::string& v) { key(k); t += jstr(v); return *this; }
    J& s(const char* k, const String& v) { return s(k, u8(v)); }
    J& s(const char* k, const char* v) { return s(k, std::string(v)); }
    J& i(const char* k, long long v) { key(k); t += std::to_string(v); return *this; }
    J& b(const char* k, bool v) { key(k); t += v ? "true" : "false"; return *this; }
    J& raw(const char* k, const std::string& v) { key(k); t += v; return *this; }
    std::string str() const { return t + "}"; }
};

template <class C> std::string jints(const C& c) {
    std::string t = "[";
    bool f = true;
    for (auto v : c) { if (!f) t += ","; f = false; t += std::to_string((long long)v); }
    return t + "]";
}
template <class C> std::string jstrs(const C& c) {
    std::string t = "[";
    bool f = true;
    for (auto& v : c) { if (!f) t += ","; f = false; t += jstr(v); }
    return t + "]";
}
template <class C> std::string jraws(const C& c) {
    std::string t = "[";
    bool f = true;
    for (auto& v : c) { if (!f) t += ","; f = false; t += v; }
    return t + "]";
}

struct Opts {
    std::map<std::string, std::string> m;
    std::string str(const char* k, const char* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    int num(const char* k, int d) const { auto i = m.find(k); return i == m.end() ? d : atoi(i->second.c_str()); }
    uint64_t u64(const char* k, uint64_t d) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), 0, 10); }
};

extern bool fastSleep;                    // sleeps are over at once (drivers with one thread)
extern FILE* out;                         // the trace
extern std::string scratch;               // a private directory, removed by the orchestrator
void emit(const J& j);
void emitRaw(const std::string& line);
std::string exName(LuceneException& e);   // name of an exception's type
int64_t msNow();

typedef int (*CmdFn)(const Opts&);
struct Cmd { Cmd(const char* name, CmdFn f); };

// ---- directories used as stand-ins -------------------------------------------------------------
uint32_t h32(const std::string& s, uint32_t seed = 2166136261u);
struct Hash {                              // order-dependent 64-bit mixing
    uint64_t v = 1469598103934665603ull;
    void add(uint64_t x) { v ^= x + 0x9E3779B97F4A7C15ull + (v << 6) + (v >> 2); v *= 1099511628211ull; }
    void add(const std::string& s) { for (unsigned char c : s) { v ^= c; v *= 1099511628211ull; } add((uint64_t)s.size()); }
    void add(const String& s) { for (wchar_t c : s) { v ^= (uint64_t)c; v *= 1099511628211ull; } add((uint64_t)s.size()); }
    int i31() const { return (int)((v ^ (v >> 33)) & 0x3fffffff); }
};
}
