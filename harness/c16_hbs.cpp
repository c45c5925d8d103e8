#include "vh.hpp"
#include <openssl/sha.h>
#include <openssl/evp.h>
using namespace vh;
const char *pbt::PROPERTY_RULE =
    "xmss-sign: XMSS / XMSS^MT keys generated or imported at any index (start, tree boundaries, the last indices), histories of signing, signing into short buffers, "
    "exporting and importing the private state with and without traversal state, duplicating, damaged imports and failing allocations: one-time indices never repeat and follow the "
    "exported index, r = PRF(SK_PRF, idx), every signature passes an own RFC 8391 verifier and the library's, exhausted keys refuse. xmss-verify: all 21 + 56 parameter sets at arbitrary "
    "indices with signatures built by the own model, and their alterations. hss-verify: LMS / HSS 1..3 levels, every W and height, built by an own RFC 8554 model, and alterations. "
    "Non-trivial: a signature was produced or a model signature judged.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"own RFC 8391 / RFC 8554 models (harness/c16_hbs.cpp) are correct", "OpenSSL SHA-2 and SHAKE are correct", "a private state is used by one owner: old exports are not signed with again"};
static unsigned long g_allocs, g_failAt; static bool g_failOn;
static void *hookMalloc(uint32_t n) { if (g_failOn && ++g_allocs >= g_failAt) return nullptr; return malloc(n); }
static void hookFree(void *p) { free(p); }
void pbt::setup()
{
    BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_MALLOC, (void *)hookMalloc); BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_FREE, (void *)hookFree); useDetRand();
}
namespace {
enum HF { S256, S512, K128, K256 };
void put32(Bytes &b, uint32_t v) { for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes sub(const Bytes &b, size_t o, size_t n) { return Bytes(b.begin() + (long)o, b.begin() + (long)(o + n)); }
Bytes H(HF f, int n, const Bytes &in)
{
    uint8_t d[64];
    if (f == S256) { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, in.data(), in.size()); SHA256_Final(d, &c); }
    else if (f == S512) { SHA512_CTX c; SHA512_Init(&c); SHA512_Update(&c, in.data(), in.size()); SHA512_Final(d, &c); }
    else {
        static EVP_MD *m[2] = {EVP_MD_fetch(nullptr, "SHAKE128", nullptr), EVP_MD_fetch(nullptr, "SHAKE256", nullptr)}; static EVP_MD_CTX *c = EVP_MD_CTX_new();
        EVP_DigestInit_ex(c, m[f == K256], nullptr); EVP_DigestUpdate(c, in.data(), in.size()); EVP_DigestFinalXOF(c, d, (size_t)n);
    }
    return Bytes(d, d + n);
}
struct Set { int32_t id; int n, h, d; HF f; int pad; uint32_t xdr; bool mt; int hp() const { return h / d; } int len() const { return 2 * n + 3; } int ib() const { return mt ? (h + 7) / 8 : 4; } size_t sig() const { return (size_t)(ib() + n + d * (len() + hp()) * n); } };
std::vector<Set> sets()
{
    std::vector<Set> v; struct F { int n; HF f; int pad; } fam[7] = {{32, S256, 32}, {64, S512, 64}, {32, K128, 32}, {64, K256, 64}, {24, S256, 4}, {32, K256, 32}, {24, K256, 4}};
#define X3(s, t) CRYPT_XMSS_##s##_10_##t, CRYPT_XMSS_##s##_16_##t, CRYPT_XMSS_##s##_20_##t
#define M8(s, t) CRYPT_XMSSMT_##s##_20_2_##t, CRYPT_XMSSMT_##s##_20_4_##t, CRYPT_XMSSMT_##s##_40_2_##t, CRYPT_XMSSMT_##s##_40_4_##t, CRYPT_XMSSMT_##s##_40_8_##t, CRYPT_XMSSMT_##s##_60_3_##t, CRYPT_XMSSMT_##s##_60_6_##t, CRYPT_XMSSMT_##s##_60_12_##t
#define ALL(m) m(SHA2, 256), m(SHA2, 512), m(SHAKE, 256), m(SHAKE, 512), m(SHA2, 192), m(SHAKE256, 256), m(SHAKE256, 192)
    static const int32_t a[21] = {ALL(X3)}, b[56] = {ALL(M8)}; static const int hs[3] = {10, 16, 20}, mh[8] = {20, 20, 40, 40, 40, 60, 60, 60}, md[8] = {2, 4, 2, 4, 8, 3, 6, 12};
    for (int i = 0; i < 21; i++) { F &f = fam[i / 3]; v.push_back({a[i], f.n, hs[i % 3], 1, f.f, f.pad, (uint32_t)i + 1, false}); }
    for (int i = 0; i < 56; i++) { F &f = fam[i / 8]; v.push_back({b[i], f.n, mh[i % 8], md[i % 8], f.f, f.pad, (uint32_t)i + 1, true}); }
    return v;
}
const std::vector<Set> &SETS() { static std::vector<Set> s = sets(); return s; }
struct Adr { uint32_t w[8] = {0}; void tree(uint64_t t) { w[1] = (uint32_t)(t >> 32); w[2] = (uint32_t)t; } Bytes b() const { Bytes o; for (uint32_t x : w) put32(o, x); return o; } };
struct XM { // RFC 8391
    const Set &s; Bytes seed;
    Bytes h(int t, const Bytes &k, const Bytes &m) const { Bytes in((size_t)s.pad - 1, 0); in.push_back((uint8_t)t); app(in, k); app(in, m); return H(s.f, s.n, in); }
    Bytes prf(Adr a, uint32_t km) const { a.w[7] = km; return h(3, seed, a.b()); }
    Bytes rh(Adr a, const Bytes &l, const Bytes &r) const { Bytes m = prf(a, 1), k = prf(a, 0); app(m, prf(a, 2)); for (int i = 0; i < s.n; i++) { m[(size_t)i] ^= l[(size_t)i]; m[(size_t)(s.n + i)] ^= r[(size_t)i]; } return h(1, k, m); }
    Bytes chain(Bytes x, int from, int to, Adr a) const { for (int j = from; j < to; j++) { a.w[6] = (uint32_t)j; Bytes k = prf(a, 0), m = prf(a, 1); for (int i = 0; i < s.n; i++) m[(size_t)i] ^= x[(size_t)i]; x = h(0, k, m); } return x; }
    std::vector<int> digits(const Bytes &m) const { std::vector<int> d; int cs = 0; for (uint8_t c : m) { d.push_back(c >> 4); d.push_back(c & 15); } for (int x : d) cs += 15 - x; d.push_back((cs >> 8) & 15); d.push_back((cs >> 4) & 15); d.push_back(cs & 15); return d; }
    Bytes leaf(uint32_t idx, int layer, uint64_t tr, std::vector<Bytes> pk) const
    {
        Adr a; a.w[0] = (uint32_t)layer; a.tree(tr); a.w[3] = 1; a.w[4] = idx; uint32_t ht = 0;
        while (pk.size() > 1) { std::vector<Bytes> n; a.w[5] = ht++; for (size_t i = 0; i + 1 < pk.size(); i += 2) { a.w[6] = (uint32_t)(i / 2); n.push_back(rh(a, pk[i], pk[i + 1])); } if (pk.size() & 1) n.push_back(pk.back()); pk = n; }
        return pk[0];
    }
    Bytes up(Bytes node, uint32_t idx, int layer, uint64_t tr, const Bytes &auth) const
    {
        Adr a; a.w[0] = (uint32_t)layer; a.tree(tr); a.w[3] = 2;
        for (int k = 0; k < s.hp(); k++) { Bytes x = sub(auth, (size_t)(k * s.n), (size_t)s.n); a.w[5] = (uint32_t)k; a.w[6] = idx >> (k + 1); node = (idx >> k) & 1 ? rh(a, x, node) : rh(a, node, x); }
        return node;
    }
    Adr ots(uint32_t idx, int layer, uint64_t tr, int i) const { Adr a; a.w[0] = (uint32_t)layer; a.tree(tr); a.w[4] = idx; a.w[5] = (uint32_t)i; return a; }
    Bytes layer(const Bytes &m, uint32_t idx, int l, uint64_t tr, const Bytes &sig) const { std::vector<int> d = digits(m); std::vector<Bytes> pk; for (int i = 0; i < s.len(); i++) pk.push_back(chain(sub(sig, (size_t)(i * s.n), (size_t)s.n), d[(size_t)i], 15, ots(idx, l, tr, i))); return up(leaf(idx, l, tr, pk), idx, l, tr, sub(sig, (size_t)(s.len() * s.n), (size_t)(s.hp() * s.n))); }
    Bytes idxN(uint64_t idx, size_t n) const { Bytes b(n, 0); for (size_t i = 0; i < 8 && i < n; i++) b[n - 1 - i] = (uint8_t)(idx >> (8 * i)); return b; }
    Bytes digest(const Bytes &r, const Bytes &root, uint64_t idx, const Bytes &msg) const { Bytes k = r; app(k, root); app(k, idxN(idx, (size_t)s.n)); return h(2, k, msg); }
    uint64_t index(const Bytes &sig) const { uint64_t v = 0; for (int i = 0; i < s.ib(); i++) v = v << 8 | sig[(size_t)i]; return v; }
    bool verify(const Bytes &root, const Bytes &msg, const Bytes &sig) const
    {
        if (sig.size() != s.sig()) return false; uint64_t idx = index(sig); if (idx >> s.h) return false; size_t o = (size_t)s.ib(); Bytes r = sub(sig, o, (size_t)s.n); o += (size_t)s.n; Bytes m = digest(r, root, idx, msg); uint64_t t = idx;
        for (int l = 0; l < s.d; l++) { uint32_t lf = (uint32_t)(t & ((1ull << s.hp()) - 1)); t >>= s.hp(); size_t n = (size_t)((s.len() + s.hp()) * s.n); m = layer(m, lf, l, t, sub(sig, o, n)); o += n; }
        return m == root;
    }
    // a key whose signature at idx is known: random one-time values below the top tree, a real one-time signature on top
    void forge(G &g, uint64_t idx, const Bytes &msg, Bytes &root, Bytes &sig) const
    {
        int top = s.d - 1; uint64_t tt = 0; uint32_t lf = (uint32_t)(idx >> (s.hp() * top)); std::vector<Bytes> sk, pk; for (int i = 0; i < s.len(); i++) { sk.push_back(g.bytes((size_t)s.n)); pk.push_back(chain(sk.back(), 0, 15, ots(lf, top, tt, i))); }
        Bytes auth = g.bytes((size_t)(s.hp() * s.n)); root = up(leaf(lf, top, tt, pk), lf, top, tt, auth);
        Bytes r = g.bytes((size_t)s.n), m = digest(r, root, idx, msg); sig = idxN(idx, (size_t)s.ib()); app(sig, r); uint64_t t = idx;
        for (int l = 0; l < top; l++) { uint32_t x = (uint32_t)(t & ((1ull << s.hp()) - 1)); t >>= s.hp(); Bytes y = g.bytes((size_t)((s.len() + s.hp()) * s.n)); m = layer(m, x, l, t, y); app(sig, y); }
        std::vector<int> d = digits(m); for (int i = 0; i < s.len(); i++) app(sig, chain(sk[(size_t)i], 0, d[(size_t)i], ots(lf, top, tt, i))); app(sig, auth);
    }
};
CRYPT_EAL_PkeyCtx *newKey(const Set &s)
{
    CRYPT_EAL_PkeyCtx *k = CRYPT_EAL_PkeyNewCtx(s.mt ? CRYPT_PKEY_XMSSMT : CRYPT_PKEY_XMSS); CHECK(k, "c16-new", "no context"); int32_t id = s.id; REQUIRE_OK(CRYPT_EAL_PkeySetParaById(k, (CRYPT_PKEY_ParaId)id), "c16-para"); return k;
}
int32_t setPub(CRYPT_EAL_PkeyCtx *k, const Bytes &seed, const Bytes &root, uint32_t xdr)
{
    Exact a(seed), b(root); uint8_t x[4] = {(uint8_t)(xdr >> 24), (uint8_t)(xdr >> 16), (uint8_t)(xdr >> 8), (uint8_t)xdr};
    BSL_Param p[4] = {{CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)a.n, 0}, {CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)b.n, 0}, {CRYPT_PARAM_XMSS_XDR_TYPE, BSL_PARAM_TYPE_OCTETS, x, 4, 0}, BSL_PARAM_END}; return CRYPT_EAL_PkeySetPubEx(k, p);
}
struct Prv { Bytes seed, prf, ps, root, bds; uint64_t idx = 0; };
int32_t getPrv(CRYPT_EAL_PkeyCtx *k, int n, bool bds, Prv &o)
{
    Exact a((size_t)n), b((size_t)n), c((size_t)n), d((size_t)n); size_t bl = 0; int32_t r = 0;
    for (int pass = 0; pass < 2; pass++) {
        Exact e(bl); uint64_t ix = 0; BSL_Param p[7] = {{CRYPT_PARAM_XMSS_PRV_SEED, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)n, 0}, {CRYPT_PARAM_XMSS_PRV_PRF, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)n, 0}, {CRYPT_PARAM_XMSS_PRV_INDEX, BSL_PARAM_TYPE_UINT64, &ix, 8, 0}, {CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, c.p, (uint32_t)n, 0}, {CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, d.p, (uint32_t)n, 0}, BSL_PARAM_END, BSL_PARAM_END};
        if (bds) p[5] = {CRYPT_PARAM_XMSS_BDS_STATE, BSL_PARAM_TYPE_OCTETS, bl ? e.p : nullptr, (uint32_t)bl, 0};
        r = CRYPT_EAL_PkeyGetPrvEx(k, p); if (r && bds && pass == 0 && p[5].useLen) { bl = p[5].useLen; continue; } o.idx = ix; o.bds = r || !bds ? Bytes() : Bytes(e.p, e.p + p[5].useLen); break;
    }
    o.seed = a.vec(); o.prf = b.vec(); o.ps = c.vec(); o.root = d.vec(); return r;
}
int32_t setPrv(CRYPT_EAL_PkeyCtx *k, Prv &v, bool bds)
{
    Exact a(v.seed), b(v.prf), c(v.ps), d(v.root), e(v.bds); uint64_t ix = v.idx; BSL_Param p[7] = {{CRYPT_PARAM_XMSS_PRV_SEED, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)a.n, 0}, {CRYPT_PARAM_XMSS_PRV_PRF, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)b.n, 0}, {CRYPT_PARAM_XMSS_PRV_INDEX, BSL_PARAM_TYPE_UINT64, &ix, 8, 0}, {CRYPT_PARAM_XMSS_PUB_SEED, BSL_PARAM_TYPE_OCTETS, c.p, (uint32_t)c.n, 0}, {CRYPT_PARAM_XMSS_PUB_ROOT, BSL_PARAM_TYPE_OCTETS, d.p, (uint32_t)d.n, 0}, BSL_PARAM_END, BSL_PARAM_END};
    if (bds && e.n) p[5] = {CRYPT_PARAM_XMSS_BDS_STATE, BSL_PARAM_TYPE_OCTETS, e.p, (uint32_t)e.n, 0}; return CRYPT_EAL_PkeySetPrvEx(k, p);
}
int32_t sign(CRYPT_EAL_PkeyCtx *k, const Bytes &m, size_t cap, Bytes &sig) { Exact in(m), o(cap); uint32_t l = (uint32_t)cap; int32_t r = CRYPT_EAL_PkeySign(k, (CRYPT_MD_AlgId)0, in.p, (uint32_t)in.n, o.p, &l); if (!r) { CHECK(l <= cap, "c16-siglen", "length %u beyond the buffer", l); sig = Bytes(o.p, o.p + l); } return r; }
bool ver(CRYPT_EAL_PkeyCtx *k, int32_t md, const Bytes &m, const Bytes &sig) { Exact in(m), s(sig); return CRYPT_EAL_PkeyVerify(k, (CRYPT_MD_AlgId)md, in.p, (uint32_t)in.n, s.p, (uint32_t)s.n) == 0; }
void alter(G &g, Bytes &b) { if (b.empty()) b.push_back(0); else b[g.draw(b.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); }
void relen(G &g, Bytes &b) { switch (g.draw(2)) { case 0: b.pop_back(); break; case 1: b.push_back((uint8_t)g.draw(255)); break; default: b.resize(g.draw(b.size() - 1)); } }
}
PBT_TEST(xmss_sign, 72, 4000, 0, 300)
{
    seedRand(g); static const int pickMt[] = {1, 4, 7}; int fam = g.weighted({6, 1, 2, 1, 4, 2, 3}); bool big = g.chance(1, 60); const Set &s = big ? SETS()[g.boolean() ? (size_t)fam * 3 : 21 + (size_t)fam * 8] : SETS()[21 + (size_t)fam * 8 + (size_t)pickMt[g.weighted({12, 1, 1})]];
    g.label("h" + std::to_string(s.h) + "/" + std::to_string(s.d)); PkeyCtx k(newKey(s)); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "c16-gen"); Prv v; REQUIRE_OK(getPrv(k, s.n, false, v), "c16-getprv"); CHECK(v.idx == 0, "c16-first", "new key at index %llu", (unsigned long long)v.idx);
    const Bytes seed = v.seed, prf = v.prf, ps = v.ps, root = v.root; XM x{s, ps}; uint64_t end = 1ull << s.h, next = 0; PkeyCtx pub(newKey(s)); REQUIRE_OK(setPub(pub, ps, root, s.xdr), "c16-setpub"); bool slow = false; int slowSigns = 0;
    if (g.chance(1, 4)) { // start anywhere: the state is rebuilt from the index
        uint64_t base = g.pick<uint64_t>({end - 1, end - 2, end - 3, (1ull << s.hp()) - 2, g.draw(end - 1), end, end + 5}); v.idx = base; v.bds.clear(); PkeyCtx n(newKey(s)); int32_t r = setPrv(n, v, false); if (base >= end && r) { g.label("index refused"); g.nontrivial(); return; } REQUIRE_OK(r, "c16-import-index"); k.reset(n.release()); next = base; slow = true; g.label("started at an index");
    }
    int ops = (int)g.len(1, slow ? 4 : big ? 12 : 70), done = 0;
    for (int i = 0; i < ops; i++) {
        int op = g.weighted({14, 1, 2, 1, 1, 1, 1}); if (slow && ++slowSigns > 5) break; g.note("op %d at %llu", op, (unsigned long long)next);
        switch (op) {
        case 0: {
            Bytes m = g.bytes(g.len(1, 60)), sig; int32_t r = sign(k, m, s.sig() + g.draw(3), sig);
            if (next >= end) { CHECK(r != 0, "c16-exhausted", "signed beyond the last index"); done++; break; }
            CHECK(r == 0, "c16-sign", "signing at %llu fails with 0x%x", (unsigned long long)next, r); CHECK(sig.size() == s.sig(), "c16-sigsize", "%zu bytes", sig.size()); uint64_t ix = x.index(sig); CHECK(ix == next, "c16-index", "index %llu used, next unused is %llu", (unsigned long long)ix, (unsigned long long)next); next++;
            CHECK(sub(sig, (size_t)s.ib(), (size_t)s.n) == x.h(3, prf, x.idxN(ix, 32)), "c16-r", "randomizer is not PRF(SK_PRF, idx) at %llu", (unsigned long long)ix);
            if (done % 3 == 0 || (ix & ((1u << s.hp()) - 1)) < 2) CHECK(x.verify(root, m, sig), "c16-invalid", "signature at index %llu fails RFC 8391 verification", (unsigned long long)ix); CHECK(ver(pub, 0, m, sig), "c16-verify", "own signature at %llu rejected", (unsigned long long)ix);
            if (g.chance(1, 8)) { Bytes b = sig, m2 = m; if (g.boolean()) alter(g, b); else alter(g, m2); CHECK(!ver(pub, 0, m2, b), "c16-forged", "altered signature accepted"); } done++; break;
        }
        case 1: { Bytes m = g.bytes(5), sig; CHECK(sign(k, m, g.draw(s.sig() - 1), sig) != 0, "c16-short", "signed into a short buffer"); break; }
        case 2: { // hand the state to a new owner
            bool bds = slow || done > 6 ? true : !g.chance(1, 12); Prv n; int32_t r = getPrv(k, s.n, bds, n); CHECK(r == 0, "c16-export", "export fails with 0x%x", r); CHECK(n.seed == seed && n.prf == prf && n.ps == ps && n.root == root, "c16-fields", "exported key changed"); CHECK(n.idx == next, "c16-expidx", "exported index %llu, next unused is %llu", (unsigned long long)n.idx, (unsigned long long)next);
            PkeyCtx d(newKey(s)); r = setPrv(d, n, bds); CHECK(r == 0, "c16-import", "own export refused 0x%x (index %llu, state %zu bytes)", r, (unsigned long long)n.idx, n.bds.size()); k.reset(d.release()); if (n.bds.empty()) slow = true; g.label(n.bds.empty() ? "import without state" : "import with state"); break;
        }
        case 3: { PkeyCtx d(CRYPT_EAL_PkeyDupCtx(k)); if (!d) break; Bytes m = g.bytes(4), sig; CHECK(sign(d, m, s.sig(), sig) != 0, "c16-dup", "a duplicate signs with the same index"); break; }
        case 4: { // a refused import leaves the owner as it was
            Prv n; REQUIRE_OK(getPrv(k, s.n, true, n), "c16-export2"); if (n.bds.empty()) break; size_t at = g.draw(35); bool cut = g.chance(1, 3); if (cut) n.bds.resize(g.draw(n.bds.size() - 1)); else n.bds[at] ^= (uint8_t)(1 << g.draw(7)); if (n.bds.empty()) break; int32_t r = setPrv(k, n, true); CHECK(r != 0, "c16-badstate", "damaged state (%s %zu) accepted", cut ? "cut to" : "byte", cut ? n.bds.size() : at); break;
        }
        case 5: { // damaged node data: any outcome but a memory error, in a throw-away context
            Prv n; REQUIRE_OK(getPrv(k, s.n, true, n), "c16-export3"); if (n.bds.size() < 50) break; for (int j = 0; j < 3; j++) n.bds[g.range(36, n.bds.size() - 1)] = (uint8_t)g.draw(255); PkeyCtx d(newKey(s)); if (setPrv(d, n, true) == 0) { Bytes m = g.bytes(3), sig; for (int j = 0; j < 3; j++) (void)sign(d, m, s.sig(), sig); g.label("damaged state used"); } break;
        }
        default: { // failing allocation: no signature, no reuse
            if (next + 2 >= end || slow) break; Bytes m = g.bytes(9), sig; g_allocs = 0; g_failAt = g.range(1, 400); g_failOn = true; int32_t r = sign(k, m, s.sig(), sig); g_failOn = false; if (r == 0) { uint64_t ix = x.index(sig); CHECK(ix == next && ver(pub, 0, m, sig), "c16-oomsig", "signature at %llu after a failing allocation", (unsigned long long)ix); next++; break; }
            Prv n; REQUIRE_OK(getPrv(k, s.n, false, n), "c16-export4"); CHECK(n.idx == next || n.idx == next + 1, "c16-oomidx", "index %llu after a failed signature at %llu", (unsigned long long)n.idx, (unsigned long long)next); next = n.idx; slow = true; g.label("failed allocation"); break;
        }
        }
    }
    if (done) g.nontrivial();
}
PBT_TEST(xmss_verify, 900, 30000, 0, 300)
{
    const Set &s = SETS()[g.draw(SETS().size() - 1)]; XM x{s, g.bytes((size_t)s.n)}; uint64_t end = 1ull << s.h, idx = g.chance(1, 3) ? g.pick<uint64_t>({0, end - 1, (1ull << s.hp()) - 1, 1ull << s.hp()}) % end : g.draw(end - 1); Bytes m = g.bytes(g.len(0, 200)), root, sig; if (m.empty()) m.push_back(0); x.forge(g, idx, m, root, sig); g.label("h" + std::to_string(s.h) + "/" + std::to_string(s.d) + " n" + std::to_string(s.n));
    PkeyCtx k(newKey(s)); uint8_t b4[4] = {0}; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GET_XMSS_XDR_ALG_TYPE, b4, 4), "c16-xdr"); CHECK((uint32_t)(b4[0] << 24 | b4[1] << 16 | b4[2] << 8 | b4[3]) == s.xdr, "c16-xdrid", "OID %02x%02x%02x%02x for h%d/%d", b4[0], b4[1], b4[2], b4[3], s.h, s.d); uint32_t sl = 0; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GET_SIGNLEN, &sl, 4), "c16-signlen"); CHECK(sl == s.sig(), "c16-siglen2", "%u for %zu", sl, s.sig());
    if (g.chance(1, 8)) { Bytes r2 = root; relen(g, r2); CHECK(setPub(k, x.seed, r2, s.xdr) != 0, "c16-rootlen", "root of %zu bytes accepted", r2.size()); }
    REQUIRE_OK(setPub(k, x.seed, root, s.xdr), "c16-setpub"); CHECK(ver(k, 0, m, sig), "c16-valid", "valid signature rejected, set %d idx %llu", s.id, (unsigned long long)idx); CHECK(x.verify(root, m, sig), "c16-model", "model disagrees with itself");
    for (int i = 0; i < 3; i++) {
        Bytes b = sig, m2 = m; switch (g.weighted({4, 2, 2, 1, 1})) { case 0: alter(g, b); break; case 1: alter(g, m2); break; case 2: relen(g, b); break; case 3: b[g.draw((uint64_t)s.ib() - 1)] ^= (uint8_t)(1 << g.draw(7)); break; default: b[(size_t)s.ib() + g.draw((uint64_t)s.n - 1)] ^= (uint8_t)(1 << g.draw(7)); }
        if (b == sig && m2 == m) continue; CHECK(!ver(k, 0, m2, b), "c16-accepts", "altered signature accepted");
    }
    Bytes r2 = root, s2 = x.seed; if (g.boolean()) alter(g, r2); else alter(g, s2); PkeyCtx k2(newKey(s)); if (setPub(k2, s2, r2, s.xdr) == 0) CHECK(!ver(k2, 0, m, sig), "c16-otherkey", "accepted under another key"); g.nontrivial();
}
namespace {
struct Lms { uint32_t type, ots; int h, w, p, ls; };
Bytes sha(const Bytes &b) { return H(S256, 32, b); }
Bytes pre(const Bytes &I, uint32_t q) { Bytes o = I; put32(o, q); return o; }
void put16(Bytes &b, uint32_t v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
// RFC 8554: root candidate of a signature (q, C, y, path) over a message
Bytes lmsRoot(const Lms &l, const Bytes &I, uint32_t q, const Bytes &C, const Bytes &y, const Bytes &path, const Bytes &msg)
{
    Bytes in = pre(I, q); put16(in, 0x8181); app(in, C); app(in, msg); Bytes Q = sha(in); int cs = 0, per = 8 / l.w, max = (1 << l.w) - 1; auto coef = [&](const Bytes &S, int i) { return (S[(size_t)(i * l.w / 8)] >> (l.w * (per - 1 - i % per))) & max; };
    for (int i = 0; i < 256 / l.w; i++) cs += max - coef(Q, i); cs <<= l.ls; put16(Q, (uint32_t)cs);
    Bytes k = pre(I, q); put16(k, 0x8080); for (int i = 0; i < l.p; i++) { Bytes t = sub(y, (size_t)i * 32, 32); for (int j = coef(Q, i); j < max; j++) { Bytes z = pre(I, q); put16(z, (uint32_t)i); z.push_back((uint8_t)j); app(z, t); t = sha(z); } app(k, t); }
    uint32_t node = (1u << l.h) + q; Bytes z = pre(I, node); put16(z, 0x8282); app(z, sha(k)); Bytes t = sha(z);
    for (int i = 0; node > 1; i++) { Bytes o = pre(I, node / 2); put16(o, 0x8383); Bytes n = sub(path, (size_t)i * 32, 32); if (node & 1) { app(o, n); app(o, t); } else { app(o, t); app(o, n); } t = sha(o); node /= 2; }
    return t;
}
}
PBT_TEST(hss_verify, 900, 30000, 0, 300)
{
    int L = (int)g.range(1, 3); std::vector<Lms> ls; static const int W[4] = {1, 2, 4, 8}, P[4] = {265, 133, 67, 34}, S[4] = {7, 6, 4, 0}; for (int i = 0; i < L; i++) { int t = (int)g.range(5, 9), o = (int)g.range(1, 4); ls.push_back({(uint32_t)t, (uint32_t)o, (t - 4) * 5, W[o - 1], P[o - 1], S[o - 1]}); }
    for (int t = 0, i = 0; i < L; i++) { t += ls[(size_t)i].h; if (t >= 64) discard(); } // the library counts signatures in 64 bits
    Bytes m = g.bytes(g.len(0, 200)); if (m.empty()) m.push_back(7); std::vector<Bytes> sigs((size_t)L), pks((size_t)L); Bytes msg = m;
    for (int i = L; i-- > 0;) { // from the message upwards: every level signs the one below
        const Lms &l = ls[(size_t)i]; Bytes I = g.bytes(16), C = g.bytes(32), y = g.bytes((size_t)l.p * 32), path = g.bytes((size_t)l.h * 32); uint32_t q = g.chance(1, 3) ? (g.boolean() ? 0 : (1u << l.h) - 1) : (uint32_t)g.draw((1u << l.h) - 1); Bytes T = lmsRoot(l, I, q, C, y, path, msg);
        Bytes pk; put32(pk, l.type); put32(pk, l.ots); app(pk, I); app(pk, T); Bytes s; put32(s, q); put32(s, l.ots); app(s, C); app(s, y); put32(s, l.type); app(s, path); sigs[(size_t)i] = s; pks[(size_t)i] = pk; msg = pk;
    }
    Bytes pub, sig; put32(pub, (uint32_t)L); app(pub, pks[0]); put32(sig, (uint32_t)L - 1); for (int i = 0; i < L; i++) { app(sig, sigs[(size_t)i]); if (i + 1 < L) app(sig, pks[(size_t)i + 1]); }
    g.label("L" + std::to_string(L)); auto mk = [&](const Bytes &pb, int32_t &r) { CRYPT_EAL_PkeyCtx *c = CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_HSS_LMS); CHECK(c, "c16-hssnew", "no context"); uint32_t lv = (uint32_t)L, ty[6]; BSL_Param p[8]; int n = 0; p[n++] = {CRYPT_PARAM_HSS_LEVEL, BSL_PARAM_TYPE_UINT32, &lv, 4, 0}; for (int i = 0; i < L; i++) { ty[2 * i] = ls[(size_t)i].type; ty[2 * i + 1] = ls[(size_t)i].ots; p[n++] = {CRYPT_PARAM_HSS_LEVEL1_LMS_TYPE + i, BSL_PARAM_TYPE_UINT32, &ty[2 * i], 4, 0}; p[n++] = {CRYPT_PARAM_HSS_LEVEL1_OTS_TYPE + i, BSL_PARAM_TYPE_UINT32, &ty[2 * i + 1], 4, 0}; } p[n] = BSL_PARAM_END; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_HSS_SET_PARAM, p, 0), "c16-hsspara"); Exact e(pb); BSL_Param q[2] = {{CRYPT_PARAM_HSS_PUBKEY, BSL_PARAM_TYPE_OCTETS, e.p, (uint32_t)e.n, 0}, BSL_PARAM_END}; r = CRYPT_EAL_PkeySetPubEx(c, q); return c; };
    int32_t r; PkeyCtx k(mk(pub, r)); CHECK(r == 0, "c16-hsspub", "public key refused 0x%x", r); uint32_t sl = 0; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_HSS_GET_SIG_LEN, &sl, 4), "c16-hsslen"); CHECK(sl == sig.size(), "c16-hsssize", "signature length %u, RFC 8554 says %zu", sl, sig.size());
    CHECK(ver(k, 0, m, sig), "c16-hssvalid", "valid signature rejected, L=%d types %u/%u", L, ls[0].type, ls[0].ots);
    for (int i = 0; i < 4; i++) {
        Bytes b = sig, m2 = m; switch (g.weighted({4, 2, 2, 2, 1})) {
            case 0: alter(g, b); break; case 1: alter(g, m2); break; case 2: relen(g, b); break; case 3: b[g.draw(11)] ^= (uint8_t)(1 << g.draw(7)); break;
            default: { size_t o = 4; int lv = (int)g.draw((uint64_t)L - 1); for (int j = 0; j < lv; j++) o += sigs[(size_t)j].size() + 56; const Lms &l = ls[(size_t)lv]; uint32_t q = (uint32_t)(b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]) + (1u << l.h); for (int j = 0; j < 4; j++) b[o + (size_t)j] = (uint8_t)(q >> (24 - 8 * j)); } }
        if (b == sig && m2 == m) continue; CHECK(!ver(k, 0, m2, b), "c16-hssaccepts", "altered HSS signature accepted");
    }
    Bytes p2 = pub; size_t at = g.draw(59); p2[at] ^= (uint8_t)(1 << g.draw(7)); PkeyCtx k2(mk(p2, r)); if (r == 0) CHECK(!ver(k2, 0, m, sig), "c16-hssotherkey", "accepted under a key altered at byte %zu", at); if (g.chance(1, 4)) { p2 = pub; relen(g, p2); PkeyCtx k3(mk(p2, r)); CHECK(r != 0, "c16-hsspublen", "public key of %zu bytes accepted", p2.size()); } g.nontrivial();
}
