#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

namespace pbt {

std::vector<Test> &tests() { static std::vector<Test> t; return t; }
static bool g_thorough;
static uint64_t g_seed = 1;
bool thorough() { return g_thorough; }
uint64_t baseSeed() { return g_seed; }

static double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- generators
uint64_t G::draw(uint64_t max)
{
    uint64_t v;
    if (rec.size() >= MAXCHOICES) throw Discard();
    if (src && pos < src->size()) {
        v = (*src)[pos];
        if (max != UINT64_MAX && v > max) v %= (max + 1);
    } else if (replayOnly) {
        v = 0;
    } else {
        uint64_t r = splitmix(rng);
        v = max == UINT64_MAX ? r : (uint64_t)(((__uint128_t)r * ((__uint128_t)max + 1)) >> 64);
    }
    pos++;
    if (liveVals) { liveVals[rec.size()] = v; *liveN = (uint32_t)rec.size() + 1; }
    rec.push_back(v);
    return v;
}
uint64_t G::cycle(uint64_t n)
{
    if ((src && pos < src->size()) || replayOnly) return draw(n - 1);
    uint64_t v = index % n;
    index /= n;
    pos++;
    if (liveVals) { liveVals[rec.size()] = v; *liveN = (uint32_t)rec.size() + 1; }
    rec.push_back(v);
    return v;
}
uint64_t G::u64()
{
    switch (weighted({4, 2, 2, 2, 2})) {
        case 0: return draw(255);
        case 1: return draw(UINT64_MAX);
        case 2: { uint64_t s = draw(63); return (1ull << s) - draw(1); }
        case 3: return UINT64_MAX - draw(255);
        default: return draw(UINT32_MAX);
    }
}
size_t G::weighted(std::initializer_list<uint32_t> w)
{
    uint32_t tot = 0;
    for (uint32_t x : w) tot += x;
    uint64_t v = draw(tot - 1);
    size_t i = 0;
    for (uint32_t x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
size_t G::len(size_t lo, size_t hi)
{
    if (hi <= lo) return lo;
    size_t span = hi - lo;
    switch (weighted({4, 5, 3, 1})) {
        case 0: return lo + draw(std::min<size_t>(span, 20));
        case 1: {  // near a multiple of a power of two
            size_t maxsh = 0; while ((size_t(1) << (maxsh + 1)) <= hi) maxsh++;
            if (maxsh < 2) return lo + draw(span);
            size_t sh = 2 + draw(maxsh - 2);
            size_t mult = 1 + draw(4);
            size_t off = draw(4);  // 0,+1,-1,+2,-2
            static const int d[5] = {0, 1, -1, 2, -2};
            long long v = (long long)(mult << sh) + d[off];
            if (v < (long long)lo) v = lo;
            if (v > (long long)hi) v = hi - draw(std::min<size_t>(span, 3));
            return (size_t)v;
        }
        case 2: return lo + draw(span);
        default: return hi - draw(std::min<size_t>(span, 2));
    }
}
static void expand(uint64_t sel, uint8_t *p, size_t n)
{
    uint64_t s = sel;
    if (sel < 8) {
        for (size_t i = 0; i < n; i++) {
            switch (sel) {
                case 0: p[i] = 0; break;
                case 1: p[i] = 0xff; break;
                case 2: p[i] = (uint8_t)i; break;
                case 3: p[i] = i + 1 == n ? 1 : 0; break;
                case 4: p[i] = i == 0 ? 0x80 : 0; break;
                case 5: p[i] = i == 0 ? 1 : 0; break;
                case 6: p[i] = 'A'; break;
                default: p[i] = i + 1 == n ? 0xfe : 0xff; break;
            }
        }
        return;
    }
    if ((sel & 7) == 7) {  // runs of 0x00 / 0xff / random: exercises carries
        size_t i = 0;
        while (i < n) {
            uint64_t r = splitmix(s);
            size_t run = 1 + (r & 15);
            int kind = (r >> 8) & 3;
            for (size_t k = 0; k < run && i < n; k++, i++)
                p[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (uint8_t)splitmix(s);
        }
        return;
    }
    for (size_t i = 0; i < n;) {
        uint64_t r = splitmix(s);
        for (int k = 0; k < 8 && i < n; k++, i++) p[i] = (uint8_t)(r >> (8 * k));
    }
}
void G::fill(void *p, size_t n)
{
    uint64_t sel;
    if (n <= 8 && n > 0) {
        sel = draw(n == 8 ? UINT64_MAX : (1ull << (8 * n)) - 1);
        for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(sel >> (8 * (n - 1 - i)));
        return;
    }
    sel = draw(15) == 15 ? draw(7) : draw(UINT64_MAX);
    expand(sel, (uint8_t *)p, n);
}
Bytes G::bytes(size_t n)
{
    Bytes b(n);
    if (n) fill(b.data(), n);
    return b;
}
std::string G::text(size_t n, const char *alphabet)
{
    size_t m = strlen(alphabet);
    std::string s;
    for (size_t i = 0; i < n; i++) s += alphabet[draw(m - 1)];
    return s;
}
std::vector<size_t> G::chunks(size_t n, bool allowZero)
{
    std::vector<size_t> c;
    size_t left = n;
    int style = (int)draw(3);
    while (left > 0 && c.size() < 60) {
        size_t k;
        if (style == 0) k = left;
        else if (style == 1) k = draw(std::min<size_t>(left, 40));
        else k = len(0, left);
        if (k == 0 && !allowZero) k = 1;
        if (k == 0 && c.size() > 40) k = left;
        if (k > left) k = left;
        c.push_back(k);
        left -= k;
    }
    if (left) c.push_back(left);
    return c;
}
void G::mutate(Bytes &b, int maxEdits)
{
    int k = 1 + (int)draw(maxEdits - 1);
    for (int i = 0; i < k; i++) {
        size_t n = b.size();
        if (n == 0) { b.push_back((uint8_t)draw(255)); continue; }
        switch (draw(8)) {
            case 0: b[draw(n - 1)] ^= (uint8_t)(1u << draw(7)); break;
            case 1: b[draw(n - 1)] = (uint8_t)draw(255); break;
            case 2: { static const uint8_t s[] = {0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, 0x30, 0xfe}; b[draw(n - 1)] = pick(s); break; }
            case 3: { size_t p = draw(n - 1), l = 1 + draw(std::min<size_t>(n - p - 1, 16)); b.erase(b.begin() + p, b.begin() + p + l); break; }
            case 4: { size_t p = draw(n), l = 1 + draw(8); Bytes x = bytes(l); b.insert(b.begin() + p, x.begin(), x.end()); break; }
            case 5: b.resize(draw(n - 1)); break;
            case 6: { size_t p = draw(n - 1), l = 1 + draw(std::min<size_t>(n - p - 1, 64)), q = draw(n); Bytes x(b.begin() + p, b.begin() + p + l); b.insert(b.begin() + q, x.begin(), x.end()); break; }
            case 7: { size_t p = draw(n - 1); b[p] = (uint8_t)(b[p] + (boolean() ? 1 : -1)); break; }
            default: { size_t p = draw(n - 1), q = draw(n - 1), l = 1 + draw(15); for (size_t j = 0; j < l && p + j < n && q + j < n; j++) b[p + j] = b[q + j]; break; }
        }
    }
}
namespace {
struct Node { size_t off, hdr, len; int depth; };
void walkDer(const Bytes &b, size_t off, size_t end, int depth, std::vector<Node> &out)
{
    while (off + 2 <= end && out.size() < 2000) {
        size_t p = off + 1;
        if ((b[off] & 0x1f) == 0x1f) return;
        size_t l = b[p++];
        if (l & 0x80) {
            int k = l & 0x7f; if (k == 0 || k > 4 || p + k > end) return;
            l = 0; for (int i = 0; i < k; i++) l = (l << 8) | b[p++];
        }
        if (l > end - p) return;
        out.push_back({off, p - off, l, depth});
        if (b[off] & 0x20) walkDer(b, p, p + l, depth + 1, out);
        else if ((b[off] == 0x04 && l > 2) ) {
            size_t before = out.size(); walkDer(b, p, p + l, depth + 1, out); (void)before;
        } else if (b[off] == 0x03 && l > 3 && b[p] == 0) walkDer(b, p + 1, p + l, depth + 1, out);
        off = p + l;
    }
}
void putLen(Bytes &o, size_t l, int extra)
{
    if (l < 128 && extra == 0) { o.push_back((uint8_t)l); return; }
    Bytes t; size_t x = l; do { t.insert(t.begin(), (uint8_t)x); x >>= 8; } while (x);
    for (int i = 0; i < extra && t.size() < 8; i++) t.insert(t.begin(), 0);
    o.push_back((uint8_t)(0x80 | t.size())); o.insert(o.end(), t.begin(), t.end());
}
// replace [off, off+oldLen) by neu and repair the lengths of all enclosing TLVs
Bytes spliceRepair(const Bytes &b, const std::vector<Node> &nodes, size_t off, size_t oldLen, const Bytes &neu)
{
    std::vector<Node> anc;
    for (auto &n : nodes)
        if (n.off + n.hdr <= off && n.off + n.hdr + n.len >= off + oldLen && !(n.off == off && n.hdr + n.len == oldLen)) anc.push_back(n);
    std::sort(anc.begin(), anc.end(), [](const Node &a, const Node &c) { return a.off > c.off || (a.off == c.off && a.hdr < c.hdr); });
    Bytes cur(b);
    cur.erase(cur.begin() + off, cur.begin() + off + oldLen);
    cur.insert(cur.begin() + off, neu.begin(), neu.end());
    long long delta = (long long)neu.size() - (long long)oldLen;
    for (auto &n : anc) {
        Bytes h; h.push_back(cur[n.off]);
        putLen(h, (size_t)((long long)n.len + delta), 0);
        cur.erase(cur.begin() + n.off, cur.begin() + n.off + n.hdr);
        cur.insert(cur.begin() + n.off, h.begin(), h.end());
        delta += (long long)h.size() - (long long)n.hdr;
    }
    return cur;
}
}
void G::mutateDer(Bytes &b, int maxEdits)
{
    int k = 1 + (int)draw(maxEdits - 1);
    for (int i = 0; i < k; i++) {
        std::vector<Node> nodes;
        walkDer(b, 0, b.size(), 0, nodes);
        if (nodes.empty()) { mutate(b, 1); continue; }
        Node n = nodes[draw(nodes.size() - 1)];
        Bytes whole(b.begin() + n.off, b.begin() + n.off + n.hdr + n.len);
        Bytes val(b.begin() + n.off + n.hdr, b.begin() + n.off + n.hdr + n.len);
        Bytes neu;
        auto enc = [&](uint8_t tag, const Bytes &v, int extra) { Bytes o; o.push_back(tag); putLen(o, v.size(), extra); o.insert(o.end(), v.begin(), v.end()); return o; };
        switch (draw(11)) {
            case 0: neu = Bytes(); break;                                            // delete
            case 1: neu = whole; neu.insert(neu.end(), whole.begin(), whole.end()); break;  // duplicate
            case 2: { static const uint8_t t[] = {1, 2, 3, 4, 5, 6, 0x0a, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa3, 0x1e};
                      neu = enc(pick(t), val, 0); break; }                           // retag
            case 3: neu = enc(whole[0], val, 1 + (int)draw(4)); break;               // non-minimal length
            case 4: { Bytes v = val; if (!v.empty()) v.resize(draw(v.size() - 1)); neu = enc(whole[0], v, 0); break; }  // truncate value
            case 5: { Bytes v = val; Bytes x = bytes(1 + draw(8)); v.insert(v.end(), x.begin(), x.end()); neu = enc(whole[0], v, 0); break; }
            case 6: { Bytes v = val; mutate(v, 2); neu = enc(whole[0], v, 0); break; }  // mutate value
            case 7: { Node m = nodes[draw(nodes.size() - 1)]; neu = Bytes(b.begin() + m.off, b.begin() + m.off + m.hdr + m.len); break; }  // replace by other
            case 8: { Bytes o; o.push_back(whole[0]); putLen(o, u64() & 0xffffffff, 0); o.insert(o.end(), val.begin(), val.end()); neu = o; break; }  // wrong length
            case 9: { neu = enc(whole[0], Bytes(), 0); break; }                      // empty value
            case 10: { Bytes v = bytes(n.len); neu = enc(whole[0], v, 0); break; }   // random value same length
            default: { Bytes v = val; v.insert(v.begin(), boolean() ? 0xff : 0x00); neu = enc(whole[0], v, 0); break; }
        }
        if (chance(4, 5)) b = spliceRepair(b, nodes, n.off, n.hdr + n.len, neu);
        else {
            b.erase(b.begin() + n.off, b.begin() + n.off + n.hdr + n.len);
            b.insert(b.begin() + n.off, neu.begin(), neu.end());
        }
    }
}
void G::note(const char *fmt, ...)
{
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (verbose) fprintf(stderr, "  note: %s\n", buf);
    if (notes.size() < 1500) { if (!notes.empty()) notes += "; "; notes += buf; }
}
void fail(const std::string &sig, const char *fmt, ...)
{
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{sig, buf};
}
std::string hex(const void *p, size_t n, size_t maxShow)
{
    static const char *d = "0123456789abcdef";
    std::string s; const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n && i < maxShow; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n > maxShow) s += "...(" + std::to_string(n) + " bytes)";
    return s;
}
static uint64_t g_caseRng;
void caseRandSeed(uint64_t s) { g_caseRng = s; }
void caseRand(void *p, size_t n)
{
    uint8_t *b = (uint8_t *)p;
    for (size_t i = 0; i < n;) {
        uint64_t r = splitmix(g_caseRng);
        for (int k = 0; k < 8 && i < n; k++, i++) b[i] = (uint8_t)(r >> (8 * k));
    }
}

// ---------------------------------------------------------------- coverage
static uint8_t *g_covBegin[64], *g_covEnd[64];
static int g_covN;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e)
{
    if (b == e || g_covN >= 64) return;
    for (int i = 0; i < g_covN; i++) if (g_covBegin[i] == b) return;
    g_covBegin[g_covN] = b; g_covEnd[g_covN++] = e;
}
static inline uint8_t bucket(uint8_t c)
{
    return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}
struct Cov {
    std::vector<uint8_t> seen;
    size_t edges = 0;
    Cov() { size_t n = 0; for (int i = 0; i < g_covN; i++) n += g_covEnd[i] - g_covBegin[i]; seen.assign(n, 0); }
    static void reset() { for (int i = 0; i < g_covN; i++) memset(g_covBegin[i], 0, g_covEnd[i] - g_covBegin[i]); }
    bool absorb()
    {
        bool nw = false; size_t k = 0;
        for (int i = 0; i < g_covN; i++) {
            uint8_t *p = g_covBegin[i], *e = g_covEnd[i];
            while (p < e) {
                if (e - p >= 8) { uint64_t w; memcpy(&w, p, 8); if (!w) { p += 8; k += 8; continue; } }
                if (*p) { uint8_t bk = bucket(*p); if (!(seen[k] & bk)) { if (!seen[k]) edges++; seen[k] |= bk; nw = true; } }
                p++; k++;
            }
        }
        return nw;
    }
};

// ---------------------------------------------------------------- running one case
struct Shared {                 // parent <-> worker, in MAP_SHARED memory
    volatile double caseStart;  // 0 = idle
    volatile uint64_t caseNo;
    volatile uint32_t n;        // draws made so far by the running case
    uint64_t vals[G::MAXCHOICES];
};
enum Outcome { PASS, DISCARD, FAIL };
static Outcome runCase(const Test &t, G &g, Failure &f)
{
    try {
        t.fn(g);
        return PASS;
    } catch (Failure &x) { f = x; return FAIL; }
    catch (Discard &) { return DISCARD; }
    catch (std::exception &e) { f = Failure{"exception", std::string("C++ exception in harness: ") + e.what()}; return FAIL; }
}
static std::string jsonEsc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct JobResult {
    uint64_t evals = 0, nontriv = 0, discards = 0, corpus = 0, edges = 0, knownHits = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::set<std::string> knownSeen;
    bool failed = false;
    uint64_t failCase = 0;
    Failure f;
    std::vector<uint64_t> failChoices;
    std::string crashLog;
};
struct Known { std::string sig, text; };
static std::vector<Known> g_known;
static std::string g_property;
static const Known *findKnown(const std::string &sig)
{
    for (auto &k : g_known) if (k.sig == sig) return &k;
    return nullptr;
}

struct Job {
    size_t test; uint32_t shard, shards; uint64_t cases, start;  // start: first case index still to run
};
static void mutateChoices(std::vector<uint64_t> &v, const std::vector<std::vector<uint64_t>> &corpus, uint64_t &r)
{
    int k = 1 + splitmix(r) % 4;
    for (int i = 0; i < k; i++) {
        if (v.empty()) return;
        size_t n = v.size();
        size_t p = splitmix(r) % n;
        switch (splitmix(r) % 8) {
            case 0: v[p] = splitmix(r); break;
            case 1: v[p] = splitmix(r) % 16; break;
            case 2: v[p] += (splitmix(r) & 1) ? 1 : (uint64_t)-1; break;
            case 3: { size_t l = 1 + splitmix(r) % std::min<size_t>(n - p, 8); v.erase(v.begin() + p, v.begin() + p + l); break; }
            case 4: { size_t l = 1 + splitmix(r) % std::min<size_t>(n - p, 8); std::vector<uint64_t> x(v.begin() + p, v.begin() + p + l); size_t q = splitmix(r) % (n + 1); v.insert(v.begin() + q, x.begin(), x.end()); break; }
            case 5: v.resize(p); break;  // rest is fresh random
            case 6: { auto &o = corpus[splitmix(r) % corpus.size()]; if (!o.empty()) { size_t q = splitmix(r) % o.size(); v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); } break; }
            default: v[p] ^= 1ull << (splitmix(r) % 64); break;
        }
        if (v.size() > G::MAXCHOICES / 2) v.resize(G::MAXCHOICES / 2);
    }
}

static void writeAll(int fd, const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k < 0) { if (errno == EINTR) continue; _exit(97); } o += k; }
}
// worker body: runs its cases, reports through pipe fd as text lines
static void worker(const Job &job, Shared *sh, int fd, double deadline)
{
    const Test &t = tests()[job.test];
    setup();
    uint64_t h = fnv(t.name, strlen(t.name));
    uint64_t s0 = g_seed * 0x9E3779B97F4A7C15ull ^ h;
    std::vector<std::vector<uint64_t>> corpus;
    bool guided = (t.flags & GUIDED) && g_covN > 0;
    Cov *cov = guided ? new Cov() : nullptr;
    uint64_t mr = s0 ^ (0x1234567ull * (job.shard + 1));
    std::string out;
    int samples = 0;
    for (uint64_t i = job.start; i < job.cases; i++) {
        if (now() > deadline) { out += "T\n"; break; }
        G g;
        uint64_t idx = i * job.shards + job.shard;
        uint64_t tmp = s0 + idx * 0xD1B54A32D192ED03ull;
        g.rng = splitmix(tmp);
        g.index = idx;
        std::vector<uint64_t> srcv;
        if (guided && !corpus.empty() && splitmix(mr) % 3 != 0) {
            srcv = corpus[splitmix(mr) % corpus.size()];
            mutateChoices(srcv, corpus, mr);
            g.src = &srcv;
        }
        sh->n = 0;
        g.liveVals = sh->vals; g.liveN = &sh->n;
        sh->caseNo = i;
        sh->caseStart = now();
        if (cov) Cov::reset();
        Failure f;
        Outcome o = runCase(t, g, f);
        sh->caseStart = 0;
        if (o == FAIL) {
            if (findKnown(f.sig)) { out += "K" + f.sig + "\n"; }
            else {
                std::ostringstream os;
                os << "F" << i << " " << f.sig << "\n";
                os << "M" << jsonEsc(f.msg) << "\n";
                os << "C";
                for (auto v : g.rec) os << ' ' << v;
                os << "\n";
                writeAll(fd, out + os.str());
                _exit(0);
            }
        }
        if (o == DISCARD) { out += "D\n"; continue; }
        if (cov && cov->absorb() && g.rec.size() < 20000) corpus.push_back(g.rec);
        std::ostringstream os;
        uint64_t hk = g.distinctKey.empty() ? fnv(g.rec.data(), g.rec.size() * 8) : fnv(g.distinctKey.data(), g.distinctKey.size());
        os << "E" << (g.isNontrivial ? 1 : 0) << " " << hk;
        for (auto &l : g.labels) os << "\t" << l;
        os << "\n";
        if (g.isNontrivial && samples < 1 && job.shard < 3) {
            samples++;
            os << "S" << jsonEsc(std::string(t.name) + ": " + (g.notes.empty() ? "(choices only)" : g.notes)) << "\n";
        }
        out += os.str();
        if (out.size() > 32768) { writeAll(fd, out); out.clear(); }
    }
    if (cov) out += "X" + std::to_string(corpus.size()) + " " + std::to_string(cov->edges) + "\n";
    out += "Z\n";
    writeAll(fd, out);
    _exit(0);
}

// Run one case in a fresh process. Returns 0 pass/discard, 1 fail (sig,msg filled).
struct OneResult { bool failed = false; Failure f; std::vector<uint64_t> rec; std::string log; };
static std::string g_tmp;
static std::string crashSig(const std::string &log, int st)
{
    std::string s = "crash";
    size_t p = log.find("SUMMARY: ");
    if (p != std::string::npos) {
        size_t e = log.find('\n', p);
        std::string l = log.substr(p + 9, e - p - 9);
        // "AddressSanitizer: heap-buffer-overflow /path/file.c:12:3 in func"
        std::istringstream is(l); std::string tool, kind; is >> tool >> kind;
        size_t q = l.rfind(" in ");
        s = "san:" + kind + (q != std::string::npos ? ":" + l.substr(q + 4) : "");
    } else if ((p = log.find("runtime error: ")) != std::string::npos) {
        s = "ubsan:" + log.substr(p + 15, std::min<size_t>(60, log.find('\n', p) - p - 15));
    } else if (WIFSIGNALED(st)) s = std::string("signal:") + strsignal(WTERMSIG(st));
    for (auto &c : s) if (c == ' ') c = '_';
    return s;
}
static OneResult runOne(size_t ti, const std::vector<uint64_t> &choices, bool verbose, double limit)
{
    OneResult r;
    int pfd[2];
    if (pipe(pfd)) exit(3);
    std::string logf = g_tmp + "/one.log";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        if (!verbose) { int l = open(logf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(l, 2); dup2(l, 1); }
        setup();
        G g; std::vector<uint64_t> v = choices; g.src = &v; g.replayOnly = true; g.verbose = verbose;
        Failure f; Outcome o = runCase(tests()[ti], g, f);
        std::ostringstream os;
        if (o == FAIL) os << "F " << f.sig << "\n" << f.msg << "\x01";
        else os << "P\n\x01";
        for (auto x : g.rec) os << ' ' << x;
        writeAll(pfd[1], os.str());
        _exit(0);
    }
    close(pfd[1]);
    std::string buf; char tmp[65536]; double t0 = now(); bool to = false;
    for (;;) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        int k = poll(&pf, 1, 200);
        if (k > 0) { ssize_t n = read(pfd[0], tmp, sizeof tmp); if (n <= 0) break; buf.append(tmp, n); }
        if (now() - t0 > limit) { to = true; kill(pid, SIGKILL); break; }
    }
    close(pfd[0]);
    int st; waitpid(pid, &st, 0);
    if (!buf.empty() && buf[0] == 'P') { return r; }
    r.failed = true;
    if (!buf.empty() && buf[0] == 'F') {
        size_t e = buf.find('\n'), z = buf.find('\x01');
        r.f.sig = buf.substr(2, e - 2); r.f.msg = buf.substr(e + 1, z - e - 1);
        std::istringstream is(buf.substr(z + 1)); uint64_t v; while (is >> v) r.rec.push_back(v);
    } else {
        if (!verbose) { std::ifstream in(logf); std::stringstream ss; ss << in.rdbuf(); r.log = ss.str(); }
        r.f.sig = to ? "hang" : crashSig(r.log, st);
        r.f.msg = to ? "case did not finish within " + std::to_string((int)limit) + " s" : "process died: " + r.f.sig;
    }
    return r;
}

static std::vector<uint64_t> shrink(size_t ti, std::vector<uint64_t> best, const std::string &sig, double budget, double caseLimit, Failure &bf, int &steps)
{
    double end = now() + budget;
    auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
        if (now() > end) return false;
        steps++;
        OneResult r = runOne(ti, c, false, caseLimit);
        if (!r.failed || findKnown(r.f.sig)) return false;
        // keep the same broad kind of failure (crash vs oracle signature) so that we do not slip to another defect
        if (r.f.sig != sig) return false;
        best = (!r.rec.empty() && r.rec.size() <= c.size()) ? r.rec : c;
        bf = r.f;
        return true;
    };
    // cut tail
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t l = best.size() / 2; l >= 1 && now() < end; l /= 2) {
            while (best.size() > l) { std::vector<uint64_t> c(best.begin(), best.end() - l); if (attempt(c)) progress = true; else break; }
            if (l == 1) break;
        }
        for (size_t l = std::max<size_t>(best.size() / 2, 1); l >= 1 && now() < end; l /= 2) {
            for (size_t p = 0; p + l <= best.size() && now() < end;) {
                std::vector<uint64_t> c(best); c.erase(c.begin() + p, c.begin() + p + l);
                if (attempt(c)) progress = true; else p += l;
            }
            if (l == 1) break;
        }
        for (size_t p = 0; p < best.size() && now() < end; p++) {
            if (best[p] == 0) continue;
            std::vector<uint64_t> c(best); c[p] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = p < best.size() ? best[p] : 0;
            for (int k = 0; k < 24 && lo + 1 < hi && p < best.size() && now() < end; k++) {
                uint64_t mid = lo + (hi - lo) / 2; c = best; c[p] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
        }
        if (best.size() > 400) break;
    }
    return best;
}

static std::string argOf(int argc, char **argv, const char *k, const char *dflt)
{
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
    return dflt;
}
static bool hasArg(int argc, char **argv, const char *k)
{
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], k)) return true;
    return false;
}

int main_(int argc, char **argv)
{
    double t0 = now();
    g_property = argOf(argc, argv, "--property", "C00");
    g_thorough = argOf(argc, argv, "--tier", "quick") == "thorough";
    g_seed = strtoull(argOf(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    std::string evid = argOf(argc, argv, "--evidence", "");
    std::string rdir = argOf(argc, argv, "--replaydir", "/tmp");
    std::string only = argOf(argc, argv, "--test", "");
    double budget = atof(argOf(argc, argv, "--budget", g_thorough ? "3000" : "240").c_str());
    double scale = atof(argOf(argc, argv, "--scale", "1").c_str());
    std::string level = argOf(argc, argv, "--level", "exploration");
    g_tmp = argOf(argc, argv, "--tmp", "/tmp");
    {
        std::ifstream kf(argOf(argc, argv, "--known", "/dev/null"));
        std::string line;
        while (std::getline(kf, line)) {
            // known: property=C01 sig=<sig> <text>
            if (line.compare(0, 7, "known: ")) continue;
            std::istringstream is(line.substr(7)); std::string a, b; is >> a >> b; std::string rest; std::getline(is, rest);
            if (a != "property=" + g_property || b.compare(0, 4, "sig=")) continue;
            g_known.push_back({b.substr(4), rest});
        }
    }
    if (hasArg(argc, argv, "--list")) { for (auto &t : tests()) printf("%s %u %u\n", t.name, t.quickN, t.thoroughN); return 0; }
    std::string rep = argOf(argc, argv, "--replay", "");
    if (!rep.empty()) {
        std::ifstream in(rep); std::string line, tn; std::vector<uint64_t> ch; uint32_t shard = 0, shards = 0; uint64_t upto = 0;
        while (std::getline(in, line)) {
            if (!line.compare(0, 6, "test: ")) tn = line.substr(6);
            if (!line.compare(0, 6, "seed: ")) g_seed = strtoull(line.c_str() + 6, nullptr, 10);
            if (!line.compare(0, 9, "choices: ")) { std::istringstream is(line.substr(9)); uint64_t v; while (is >> v) ch.push_back(v); }
            if (!line.compare(0, 9, "history: ")) { std::istringstream is(line.substr(9)); is >> shard >> shards >> upto; }
        }
        for (size_t i = 0; i < tests().size(); i++) if (tn == tests()[i].name) {
            if (shards) {
                int pfd[2]; if (pipe(pfd)) return 3;
                Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                pid_t pid = fork();
                if (pid == 0) { close(pfd[0]); worker({i, shard, shards, upto + 1, 0}, sh, pfd[1], now() + 1e6); }
                close(pfd[1]); std::string b; char t[4096]; ssize_t n; while ((n = read(pfd[0], t, sizeof t)) > 0) b.append(t, n);
                int st; waitpid(pid, &st, 0);
                bool bad = b.find("\nF") != std::string::npos || b[0] == 'F' || b.find("Z\n") == std::string::npos;
                printf("%s\n", bad ? "FAIL (history)" : "PASS"); return bad;
            }
            OneResult r = runOne(i, ch, true, 600);
            printf("%s %s\n%s\n", r.failed ? "FAIL" : "PASS", r.f.sig.c_str(), r.f.msg.c_str());
            return r.failed ? 1 : 0;
        }
        fprintf(stderr, "unknown test in replay file\n"); return 3;
    }

    int W = atoi(argOf(argc, argv, "--workers", "8").c_str());
    std::vector<Job> queue;
    for (size_t i = 0; i < tests().size(); i++) {
        const Test &t = tests()[i];
        if (!only.empty() && only != t.name) continue;
        double nn = (g_thorough ? t.thoroughN : t.quickN) * scale;
        uint64_t n = nn < 1 ? ((g_thorough ? t.thoroughN : t.quickN) ? 1 : 0) : (uint64_t)nn;
        if (!n) continue;
        uint32_t sh = (t.flags & SERIAL) ? 1 : (uint32_t)std::min<uint64_t>(n, 8);
        for (uint32_t s = 0; s < sh; s++) queue.push_back({i, s, sh, (n + sh - 1 - s) / sh, 0});
    }
    // interleave so that all workers are busy; order is fixed
    std::stable_sort(queue.begin(), queue.end(), [](const Job &a, const Job &b) { return a.shard < b.shard; });
    struct Run { Job job; pid_t pid; int fd; Shared *sh; std::string buf; std::string log; bool killed; bool done; };
    std::vector<Run> running;
    std::map<size_t, JobResult> res;   // per test
    std::vector<std::pair<Job, JobResult>> fails;
    size_t qi = 0; bool stop = false; bool budgetHit = false;
    double deadline = t0 + budget;
    std::set<std::string> knownSeen;
    int serial = 0;
    auto start = [&](Job j) {
        int pfd[2]; if (pipe(pfd)) exit(3);
        Run r; r.job = j; r.killed = false; r.done = false;
        r.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        r.log = g_tmp + "/w" + std::to_string(serial++) + ".log";
        fflush(stdout);
        r.pid = fork();
        if (r.pid == 0) {
            close(pfd[0]);
            for (auto &o : running) close(o.fd);
            setpgid(0, 0);
            int l = open(r.log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(l, 2); dup2(l, 1);
            worker(j, r.sh, pfd[1], deadline);
        }
        close(pfd[1]); r.fd = pfd[0];
        running.push_back(std::move(r));
    };
    auto consume = [&](Run &r) {
        JobResult &jr = res[r.job.test];
        size_t p = 0, e;
        while ((e = r.buf.find('\n', p)) != std::string::npos) {
            std::string l = r.buf.substr(p, e - p); p = e + 1;
            switch (l[0]) {
                case 'E': {
                    jr.evals++;
                    std::istringstream is(l.substr(1)); int nt; uint64_t h; is >> nt >> h;
                    if (nt) { jr.nontriv++; jr.distinct.insert(h); }
                    size_t q = l.find('\t');
                    while (q != std::string::npos) { size_t z = l.find('\t', q + 1); jr.labels[l.substr(q + 1, z == std::string::npos ? z : z - q - 1)]++; q = z; }
                    break;
                }
                case 'D': jr.discards++; break;
                case 'K': jr.knownHits++; knownSeen.insert(l.substr(1)); break;
                case 'S': if (jr.samples.size() < 3) jr.samples.push_back(l.substr(1)); break;
                case 'X': { std::istringstream is(l.substr(1)); uint64_t c, ed; is >> c >> ed; jr.corpus += c; jr.edges = std::max(jr.edges, ed); break; }
                case 'T': budgetHit = true; break;
                case 'Z': r.done = true; break;
                case 'F': {
                    JobResult fr; fr.failed = true; std::istringstream is(l.substr(1)); is >> fr.failCase >> fr.f.sig; fails.push_back({r.job, fr}); r.done = true; break;
                }
                case 'M': fails.back().second.f.msg = l.substr(1); break;
                case 'C': { std::istringstream is(l.substr(1)); uint64_t v; while (is >> v) fails.back().second.failChoices.push_back(v); break; }
            }
        }
        r.buf.erase(0, p);
    };
    while (!stop && (qi < queue.size() || !running.empty())) {
        while ((int)running.size() < W && qi < queue.size()) start(queue[qi++]);
        std::vector<struct pollfd> pf;
        for (auto &r : running) pf.push_back({r.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 500);
        for (size_t i = 0; i < running.size();) {
            Run &r = running[i];
            bool eof = false;
            struct pollfd one = {r.fd, POLLIN, 0};
            while (poll(&one, 1, 0) > 0) {
                char tmp[65536]; ssize_t n = read(r.fd, tmp, sizeof tmp);
                if (n <= 0) { eof = true; break; }
                r.buf.append(tmp, n); consume(r);
            }
            double cs = r.sh->caseStart;
            if (!eof && cs > 0 && now() - cs > tests()[r.job.test].maxCaseSec) { r.killed = true; kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); }
            if (eof) {
                int st; waitpid(r.pid, &st, 0); kill(-r.pid, SIGKILL); close(r.fd);
                if (!r.done) {  // died in a case
                    JobResult fr; fr.failed = true; fr.failCase = r.sh->caseNo;
                    std::ifstream in(r.log); std::stringstream ss; ss << in.rdbuf(); fr.crashLog = ss.str();
                    fr.f.sig = r.killed ? "hang" : crashSig(fr.crashLog, st);
                    fr.f.msg = r.killed ? "case exceeded time limit" : "worker died: " + fr.f.sig;
                    fr.failChoices.assign(r.sh->vals, r.sh->vals + r.sh->n);
                    fails.push_back({r.job, fr});
                    if (findKnown(fr.f.sig)) {
                        knownSeen.insert(fr.f.sig); res[r.job.test].knownHits++; fails.pop_back();
                        Job j = r.job; j.start = fr.failCase + 1; munmap(r.sh, sizeof(Shared)); unlink(r.log.c_str()); running.erase(running.begin() + i);
                        if (j.start < j.cases) start(j);
                        continue;
                    }
                }
                munmap(r.sh, sizeof(Shared)); unlink(r.log.c_str());
                running.erase(running.begin() + i);
                if (!fails.empty()) stop = true;
                continue;
            }
            i++;
        }
    }
    for (auto &r : running) { kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); int st; waitpid(r.pid, &st, 0); }

    int violations = 0; std::string vline;
    for (auto &pr : fails) {
        Job &j = pr.first; JobResult &fr = pr.second; const Test &t = tests()[j.test];
        printf("FAILING CASE property=%s test=%s shard=%u case=%llu sig=%s\n  %s\n", g_property.c_str(), t.name, j.shard, (unsigned long long)fr.failCase, fr.f.sig.c_str(), fr.f.msg.c_str());
        if (!fr.crashLog.empty()) printf("%s\n", fr.crashLog.substr(0, 3000).c_str());
        fflush(stdout);
        std::vector<uint64_t> ch = fr.failChoices;
        int rep3 = 0; OneResult lastR;
        for (int k = 0; k < 3; k++) { OneResult r = runOne(j.test, ch, false, t.maxCaseSec); if (r.failed && !findKnown(r.f.sig)) { rep3++; lastR = r; } }
        std::string rf = rdir + "/" + g_property + "-" + t.name + ".replay";
        if (rep3 == 3) {
            Failure bf = lastR.f; int steps = 0;
            std::vector<uint64_t> best = lastR.rec.empty() ? ch : lastR.rec;
            if (lastR.f.sig != "hang") best = shrink(j.test, best, lastR.f.sig, 45, t.maxCaseSec, bf, steps);
            std::ofstream o(rf);
            o << "property: " << g_property << "\ntest: " << t.name << "\nseed: " << g_seed << "\nsig: " << bf.sig << "\nmessage: " << bf.msg << "\nchoices:";
            for (auto v : best) o << ' ' << v;
            o << "\n";
            printf("shrunk to %zu choices in %d steps: sig=%s\n  %s\n", best.size(), steps, bf.sig.c_str(), bf.msg.c_str());
            violations++; vline = "VIOLATION property=" + g_property + " replay=" + rf;
            break;
        }
        // depends on the history of the worker: replay the shard prefix
        int hrep = 0;
        for (int k = 0; k < 2; k++) {
            int pfd[2]; if (pipe(pfd)) return 3;
            Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            pid_t pid = fork();
            if (pid == 0) { close(pfd[0]); int l = open("/dev/null", O_WRONLY); dup2(l, 2); dup2(l, 1); Job jj = j; jj.start = 0; jj.cases = fr.failCase + 1; worker(jj, sh, pfd[1], now() + 1e6); }
            close(pfd[1]); std::string b; char tb[65536]; ssize_t n; double w0 = now();
            for (;;) { struct pollfd p1 = {pfd[0], POLLIN, 0}; if (poll(&p1, 1, 500) > 0) { n = read(pfd[0], tb, sizeof tb); if (n <= 0) break; b.append(tb, n); } if (now() - w0 > 400) { kill(pid, SIGKILL); b = "Z\n"; break; } }
            close(pfd[0]); int st; waitpid(pid, &st, 0); munmap(sh, sizeof(Shared));
            if (b.find("Z\n") == std::string::npos) hrep++;
        }
        if (hrep == 2) {
            std::ofstream o(rf);
            o << "property: " << g_property << "\ntest: " << t.name << "\nseed: " << g_seed << "\nsig: " << fr.f.sig << "\nmessage: " << fr.f.msg << "\nhistory: " << j.shard << ' ' << j.shards << ' ' << fr.failCase << "\n";
            printf("reproduces only with the preceding cases of the shard (history replay)\n");
            violations++; vline = "VIOLATION property=" + g_property + " replay=" + rf;
            break;
        }
        printf("NOT REPRODUCIBLE (isolated %d/3, history %d/2): not reported\n", rep3, hrep);
    }
    // evidence
    uint64_t ev = 0, nt = 0, dist = 0, disc = 0; std::string per, labs, samp;
    for (auto &kv : res) {
        JobResult &r = kv.second; ev += r.evals; nt += r.nontriv; dist += r.distinct.size(); disc += r.discards;
        const Test &t = tests()[kv.first];
        if (!per.empty()) per += ",";
        per += "\"" + std::string(t.name) + "\":{\"evaluations\":" + std::to_string(r.evals) + ",\"nontrivial\":" + std::to_string(r.nontriv) + ",\"distinct_nontrivial\":" + std::to_string(r.distinct.size()) + ",\"discarded\":" + std::to_string(r.discards);
        if (t.flags & GUIDED) per += ",\"corpus\":" + std::to_string(r.corpus) + ",\"edges\":" + std::to_string(r.edges);
        if (r.knownHits) per += ",\"known_finding_hits\":" + std::to_string(r.knownHits);
        per += ",\"labels\":{";
        bool first = true;
        for (auto &l : r.labels) { if (!first) per += ","; first = false; per += "\"" + jsonEsc(l.first) + "\":" + std::to_string(l.second); }
        per += "}}";
        for (auto &s : r.samples) { if (!samp.empty()) samp += ","; samp += "\"" + s + "\""; }
    }
    if (samp.empty()) samp = "\"(none)\"";
    double wall = now() - t0;
    if (!evid.empty()) {
        std::ofstream o(evid);
        o << "{\n \"property\":\"" << g_property << "\",\n \"tier\":\"" << (g_thorough ? "thorough" : "quick") << "\",\n \"seed\":" << g_seed
          << ",\n \"level\":\"" << level << "\",\n \"coverage\":{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << dist
          << ",\"nontrivial\":" << nt << ",\"discarded\":" << disc << ",\"budget_hit\":" << (budgetHit ? "true" : "false")
          << ",\"rule\":\"" << jsonEsc(PROPERTY_RULE) << "\",\"samples\":[" << samp << "],\"per_test\":{" << per << "}},\n \"assumptions\":[";
        for (size_t i = 0; i < PROPERTY_ASSUME.size(); i++) o << (i ? "," : "") << "\"" << jsonEsc(PROPERTY_ASSUME[i]) << "\"";
        o << "],\n \"wall_s\":" << wall << ",\n \"violations\":" << violations << "\n}\n";
    }
    for (auto &k : g_known) if (knownSeen.count(k.sig)) printf("KNOWN-FINDING: property=%s %s\n", g_property.c_str(), k.text.c_str());
    printf("property=%s evaluations=%llu nontrivial=%llu distinct=%llu discarded=%llu wall=%.1fs%s\n", g_property.c_str(), (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dist, (unsigned long long)disc, wall, budgetHit ? " (time budget hit)" : "");
    if (violations) { printf("%s\n", vline.c_str()); return 1; }
    return 0;
}
}  // namespace pbt

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
