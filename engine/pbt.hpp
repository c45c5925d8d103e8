// Small property-based testing engine used by every check in /verif.
//
// A test is a function of a choice source G.  Every random decision is a bounded draw from G; the
// list of drawn values *is* the generated case.  The engine
//   * generates cases (pure function of VERIF_SEED, test name, shard, index),
//   * optionally mutates earlier cases that reached new code (inline 8-bit sanitizer coverage),
//   * runs shards in forked workers so that a crash / sanitizer abort / hang is attributed to a case,
//   * replays a failing case in fresh processes, shrinks it (delete / zero / lower choices), and
//   * writes the shrunk choice list as the replay file plus the evidence JSON.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Failure {
    std::string sig;  // stable short signature (call site / kind), used for known findings
    std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}

class G {
public:
    // --- raw choice ---
    uint64_t draw(uint64_t max);                // 0..max inclusive, recorded
    // --- derived generators (all shrink towards the first / lowest alternative) ---
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool chance(uint32_t num, uint32_t den) { return draw(den - 1) >= den - num; }  // shrinks to false
    bool boolean() { return draw(1) != 0; }
    // cycles through 0..n-1 with the case index (recorded like any other choice)
    uint64_t cycle(uint64_t n);
    uint64_t u64();                             // boundary-biased 64-bit value
    size_t weighted(std::initializer_list<uint32_t> w);
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[draw(N - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // length in [lo,hi], biased to small values, to multiples of powers of two +-1, and to the ends
    size_t len(size_t lo, size_t hi);
    // n bytes whose content is selected by one choice (0 -> zeros); patterns and random content
    Bytes bytes(size_t n);
    void fill(void *p, size_t n);
    std::string text(size_t n, const char *alphabet);
    // split n into chunk lengths (covers whole n; zero-length chunks possible when allowZero)
    std::vector<size_t> chunks(size_t n, bool allowZero = true);
    // structure-unaware byte mutation of an input (k edits)
    void mutate(Bytes &b, int maxEdits = 4);
    // DER-structure aware mutation
    void mutateDer(Bytes &b, int maxEdits = 3);

    // --- bookkeeping ---
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial() { isNontrivial = true; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void key(const std::string &k) { distinctKey += k; distinctKey += '\0'; }

    // --- engine state ---
    std::vector<uint64_t> rec;
    std::vector<uint64_t> *src = nullptr;  // replay source (values consumed before RNG / zeros)
    bool replayOnly = false;               // past the end of src: zeros instead of RNG
    uint64_t rng = 0;
    size_t pos = 0;
    uint64_t index = 0;
    uint64_t *liveVals = nullptr;          // shared memory copy of the draws (survives a crash)
    volatile uint32_t *liveN = nullptr;
    std::set<std::string> labels;
    std::string notes;
    std::string distinctKey;
    bool isNontrivial = false;
    bool verbose = false;
    static const size_t MAXCHOICES = 200000;
};

struct Test {
    const char *name;
    void (*fn)(G &);
    uint32_t quickN, thoroughN;
    uint32_t flags;
    uint32_t maxCaseSec;
};
enum { GUIDED = 1, SERIAL = 2, ENUM = 4 };  // ENUM: case index is available via caseIndex()
std::vector<Test> &tests();
struct Reg {
    Reg(const char *n, void (*f)(G &), uint32_t q, uint32_t t, uint32_t flags = 0, uint32_t sec = 120)
    {
        tests().push_back({n, f, q, t, flags, sec});
    }
};
#define PBT_TEST(NAME, ...)                                   \
    static void NAME(pbt::G &g);                              \
    static pbt::Reg reg_##NAME(#NAME, NAME, ##__VA_ARGS__);   \
    static void NAME(pbt::G &g)

// property text shown in evidence: each harness defines these
extern const char *PROPERTY_RULE;              // how cases are made, what makes one non-trivial
extern std::vector<std::string> PROPERTY_ASSUME;
// called once in every worker process before the first case
void setup();

bool thorough();
uint64_t baseSeed();
[[noreturn]] void fail(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void discard() { throw Discard(); }
std::string hex(const void *p, size_t n, size_t maxShow = 96);
inline std::string hex(const Bytes &b, size_t maxShow = 96) { return hex(b.data(), b.size(), maxShow); }
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, sig, ...) do { if (!(cond)) pbt::fail(sig, __VA_ARGS__); } while (0)
#define REQUIRE_OK(expr, sig)                                                               \
    do {                                                                                    \
        long rc_ = (long)(expr);                                                            \
        if (rc_ != 0) pbt::fail(sig, "%s returned 0x%lx, expected success", #expr, rc_);    \
    } while (0)

// Deterministic RNG seeded from the case, for plugging into the library under test.
void caseRandSeed(uint64_t s);
void caseRand(void *p, size_t n);

int main_(int argc, char **argv);
}  // namespace pbt
