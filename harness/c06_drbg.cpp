#include "vh.hpp"
#include "ref.hpp"
#include <openssl/hmac.h>
extern "C" {
#include "bsl_sal.h"
}
const char *pbt::PROPERTY_RULE =
    "history: one DRBG context (any of the 18 algorithms, default or provider constructor, with or without a nonce callback) driven by a random sequence of instantiate, generate (with/without "
    "additional input, any size incl. over the per-request maximum), reseed, control (reseed interval, prediction resistance, time interval, GM level), clock advance and pid change (fork), against an "
    "entropy source that may fail, deliver too little/too much or nothing; an SP 800-90A model consumes the delivered bytes and predicts every output and every error. Non-trivial: >=2 successful "
    "generates, and a reseed, an error recovery or additional input in between.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 digests, HMAC and block ciphers are correct", "GM variant of Hash_DRBG reseed uses entropy||V (GM/T 0105)"};
static int64_t g_now = 1000000; static int32_t g_pid = 77;
static BslUnixTime nowCb() { return g_now; }
static int32_t pidCb() { return g_pid; }
void pbt::setup() { BSL_SAL_CallBack_Ctrl(BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC, (void *)nowCb); BSL_SAL_CallBack_Ctrl(BSL_SAL_PID_GET_ID_CB_FUNC, (void *)pidCb); }
enum T { HASH, HMACD, CTR };
struct Alg { CRYPT_RAND_AlgId id; const char *nm; T t; uint32_t outlen, seedlen, strength, keylen; bool df, gm; uint32_t maxReq; };
static const Alg ALGS[] = {
    {CRYPT_RAND_SHA1, "SHA1", HASH, 20, 55, 128, 0, 0, 0, 65536}, {CRYPT_RAND_SHA224, "SHA224", HASH, 28, 55, 192, 0, 0, 0, 65536}, {CRYPT_RAND_SHA256, "SHA256", HASH, 32, 55, 256, 0, 0, 0, 65536},
    {CRYPT_RAND_SHA384, "SHA384", HASH, 48, 111, 256, 0, 0, 0, 65536}, {CRYPT_RAND_SHA512, "SHA512", HASH, 64, 111, 256, 0, 0, 0, 65536}, {CRYPT_RAND_SM3, "SM3", HASH, 32, 55, 256, 0, 0, 1, 32},
    {CRYPT_RAND_HMAC_SHA1, "SHA1", HMACD, 20, 0, 128, 0, 0, 0, 65536}, {CRYPT_RAND_HMAC_SHA224, "SHA224", HMACD, 28, 0, 192, 0, 0, 0, 65536}, {CRYPT_RAND_HMAC_SHA256, "SHA256", HMACD, 32, 0, 256, 0, 0, 0, 65536},
    {CRYPT_RAND_HMAC_SHA384, "SHA384", HMACD, 48, 0, 256, 0, 0, 0, 65536}, {CRYPT_RAND_HMAC_SHA512, "SHA512", HMACD, 64, 0, 256, 0, 0, 0, 65536},
    {CRYPT_RAND_AES128_CTR, "AES-128-ECB", CTR, 16, 32, 128, 16, 0, 0, 65536}, {CRYPT_RAND_AES192_CTR, "AES-192-ECB", CTR, 16, 40, 192, 24, 0, 0, 65536}, {CRYPT_RAND_AES256_CTR, "AES-256-ECB", CTR, 16, 48, 256, 32, 0, 0, 65536},
    {CRYPT_RAND_AES128_CTR_DF, "AES-128-ECB", CTR, 16, 32, 128, 16, 1, 0, 65536}, {CRYPT_RAND_AES192_CTR_DF, "AES-192-ECB", CTR, 16, 40, 192, 24, 1, 0, 65536}, {CRYPT_RAND_AES256_CTR_DF, "AES-256-ECB", CTR, 16, 48, 256, 32, 1, 0, 65536},
    {CRYPT_RAND_SM4_CTR_DF, "SM4-ECB", CTR, 16, 32, 256, 16, 1, 1, 16},
};
static Bytes H(const Alg &a, const Bytes &d) { static std::map<std::string, EVP_MD *> c; EVP_MD *&m = c[a.nm]; if (!m) m = EVP_MD_fetch(nullptr, a.nm, nullptr); Bytes o(64); unsigned l; EVP_Digest(d.data(), d.size(), o.data(), &l, m, nullptr); o.resize(l); return o; }
static Bytes HM(const Alg &a, const Bytes &k, const Bytes &d) { static std::map<std::string, EVP_MD *> c; EVP_MD *&m = c[a.nm]; if (!m) m = EVP_MD_fetch(nullptr, a.nm, nullptr); Bytes o(64); unsigned l; HMAC(m, k.data(), (int)k.size(), d.data(), d.size(), o.data(), &l); o.resize(l); return o; }
static void addTo(Bytes &v, const Bytes &s) { unsigned c = 0; for (size_t i = 0; i < v.size(); i++) { unsigned r = v[v.size() - 1 - i] + (i < s.size() ? s[s.size() - 1 - i] : 0) + c; v[v.size() - 1 - i] = (uint8_t)r; c = r >> 8; } }
static Bytes hashDf(const Alg &a, const Bytes &in, size_t L) { Bytes o; for (uint8_t c = 1; o.size() < L; c++) { uint32_t b = (uint32_t)L * 8; Bytes d = {c, (uint8_t)(b >> 24), (uint8_t)(b >> 16), (uint8_t)(b >> 8), (uint8_t)b}; Bytes h = H(a, cat(d, in)); o.insert(o.end(), h.begin(), h.end()); } o.resize(L); return o; }
struct Drbg {  // SP 800-90A state
    const Alg &a; Bytes V, C, K; uint64_t ctr = 0;
    explicit Drbg(const Alg &x) : a(x) {}
    Bytes df(const Bytes &in)
    {
        uint32_t L = (uint32_t)in.size(), N = a.seedlen; Bytes S = {(uint8_t)(L >> 24), (uint8_t)(L >> 16), (uint8_t)(L >> 8), (uint8_t)L, 0, 0, 0, (uint8_t)N}; S.insert(S.end(), in.begin(), in.end()); S.push_back(0x80); while (S.size() % 16) S.push_back(0);
        Bytes k(a.keylen); for (size_t i = 0; i < k.size(); i++) k[i] = (uint8_t)i;
        Bytes tmp; { ref::Blk b(a.nm, k); for (uint32_t i = 0; tmp.size() < a.keylen + 16; i++) { uint8_t ch[16] = {0}; auto blk = [&](const uint8_t *p) { for (int j = 0; j < 16; j++) ch[j] ^= p[j]; b.enc(ch, ch); }; uint8_t iv[16] = {(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i}; blk(iv); for (size_t o = 0; o < S.size(); o += 16) blk(&S[o]); tmp.insert(tmp.end(), ch, ch + 16); } }
        Bytes kk(tmp.begin(), tmp.begin() + a.keylen), X(tmp.begin() + a.keylen, tmp.begin() + a.keylen + 16), o; ref::Blk b(a.nm, kk); while (o.size() < N) { b.enc(X.data(), X.data()); o.insert(o.end(), X.begin(), X.end()); } o.resize(N); return o;
    }
    void incV() { for (int i = 15; i >= 0 && ++V[i] == 0; i--) {} }
    void ctrUpdate(Bytes in) { in.resize(a.seedlen); Bytes t; ref::Blk b(a.nm, K); while (t.size() < a.seedlen) { incV(); uint8_t o[16]; b.enc(V.data(), o); t.insert(t.end(), o, o + 16); } for (size_t i = 0; i < a.seedlen; i++) t[i] ^= in[i]; K.assign(t.begin(), t.begin() + a.keylen); V.assign(t.begin() + a.keylen, t.begin() + a.keylen + 16); }
    void hmUpdate(const Bytes &in) { K = HM(a, K, cat(cat(V, {0}), in)); V = HM(a, K, V); if (!in.empty()) { K = HM(a, K, cat(cat(V, {1}), in)); V = HM(a, K, V); } }
    static Bytes xorPad(Bytes x, const Bytes &y, size_t n) { x.resize(n); for (size_t i = 0; i < y.size(); i++) x[i] ^= y[i]; return x; }
    void inst(const Bytes &ent, const Bytes &nonce, const Bytes &pers)
    {
        Bytes sm = cat(cat(ent, nonce), pers); ctr = 1;
        if (a.t == HASH) { V = hashDf(a, sm, a.seedlen); C = hashDf(a, cat({0}, V), a.seedlen); }
        else if (a.t == HMACD) { K = Bytes(a.outlen, 0); V = Bytes(a.outlen, 1); hmUpdate(sm); }
        else { K = Bytes(a.keylen); V = Bytes(16); ctrUpdate(a.df ? df(sm) : xorPad(ent, pers, a.seedlen)); }
    }
    void reseed(const Bytes &ent, const Bytes &ad)
    {
        ctr = 1;
        if (a.t == HASH) { V = hashDf(a, a.gm ? cat(cat(cat({1}, ent), V), ad) : cat(cat(cat({1}, V), ent), ad), a.seedlen); C = hashDf(a, cat({0}, V), a.seedlen); }
        else if (a.t == HMACD) hmUpdate(cat(ent, ad));
        else ctrUpdate(a.df ? df(cat(ent, ad)) : xorPad(ent, ad, a.seedlen));
    }
    Bytes gen(size_t n, const Bytes &ad)
    {
        Bytes o;
        if (a.t == HASH) { if (!ad.empty()) addTo(V, H(a, cat(cat({2}, V), ad))); Bytes d = V; while (o.size() < n) { Bytes h = H(a, d); o.insert(o.end(), h.begin(), h.end()); addTo(d, {1}); } Bytes h = H(a, cat({3}, V)); addTo(V, h); addTo(V, C); addTo(V, {(uint8_t)(ctr >> 24), (uint8_t)(ctr >> 16), (uint8_t)(ctr >> 8), (uint8_t)ctr}); }
        else if (a.t == HMACD) { if (!ad.empty()) hmUpdate(ad); while (o.size() < n) { V = HM(a, K, V); o.insert(o.end(), V.begin(), V.end()); } hmUpdate(ad); }
        else { Bytes x = ad; if (!ad.empty()) { if (a.df) x = df(ad); ctrUpdate(x); } { ref::Blk b(a.nm, K); while (o.size() < n) { incV(); uint8_t t[16]; b.enc(V.data(), t); o.insert(o.end(), t, t + 16); } } ctrUpdate(x); }
        o.resize(n); ctr++; return o;
    }
};
// entropy source
struct Src { G *g; bool hostile; std::vector<int> plan; uint32_t nonceMin; const Alg *a;
    std::vector<std::pair<Bytes, int>> ent, non;  // delivered data, verdict (0 ok, 1 must be refused)
    long outstanding = 0; std::string bad; };
static int32_t deliver(Src *s, CRYPT_Data *d, CRYPT_Range *r, bool isNonce)
{
    G &g = *s->g; uint32_t span = r->max - r->min; if (span > 60) span = 60;
    int k = s->hostile && g.chance(1, 4) ? 1 + (int)g.draw(3) : 0; Bytes b; int verdict = 0; auto &v = isNonce ? s->non : s->ent;
    if (k == 1) { v.push_back({{}, 1}); return CRYPT_DRBG_FAIL_GET_ENTROPY; }
    if (k == 2) { if (r->min == 0) k = 0; else { b = g.bytes(g.boolean() ? r->min - 1 : g.draw(r->min - 1)); verdict = 1; } }
    if (k == 3) { if (r->max < 1000) { b = g.bytes(r->max + 1 + g.draw(20)); verdict = 1; } else { v.push_back({{}, 1}); d->data = nullptr; d->len = g.boolean() ? r->min : 0; return CRYPT_SUCCESS; } }
    if (k == 0) b = g.bytes(r->min + g.draw(span));
    v.push_back({b, verdict}); d->len = (uint32_t)b.size(); d->data = b.empty() ? nullptr : (uint8_t *)malloc(b.size()); if (d->data) { memcpy(d->data, b.data(), b.size()); s->outstanding++; }
    return CRYPT_SUCCESS;
}
static int32_t getEnt(void *c, CRYPT_Data *d, uint32_t strength, CRYPT_Range *r) { Src *s = (Src *)c; (void)strength; return deliver(s, d, r, false); }
static int32_t getNon(void *c, CRYPT_Data *d, uint32_t, CRYPT_Range *r) { return deliver((Src *)c, d, r, true); }
static void clean(void *c, CRYPT_Data *d) { Src *s = (Src *)c; if (d->data) { s->outstanding--; free(d->data); } d->data = nullptr; d->len = 0; }
PBT_TEST(history, 40000, 900000)
{
    const Alg &a = ALGS[g.cycle(18)]; g.label(sfmt("%s%s%s", a.t == HASH ? "hash-" : a.t == HMACD ? "hmac-" : "ctr-", a.nm, a.df ? "-df" : ""));
    g_now = 1000000; g_pid = 77;
    bool useNonce = g.boolean(); Src s; s.g = &g; s.hostile = false; s.a = &a;
    CRYPT_RandSeedMethod m = {getEnt, clean, useNonce ? getNon : nullptr, useNonce ? clean : nullptr};
    struct Rel { void operator()(CRYPT_EAL_RndCtx *p) { CRYPT_EAL_DrbgDeinit(p); } };
    std::unique_ptr<CRYPT_EAL_RndCtx, Rel> c;
    if (g.boolean()) c.reset(CRYPT_EAL_DrbgNew(a.id, &m, &s));
    else {
        BSL_Param p[6] = {}; int i = 0;
        BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_GETENTROPY, BSL_PARAM_TYPE_FUNC_PTR, (void *)getEnt, 0); BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_CLEANENTROPY, BSL_PARAM_TYPE_FUNC_PTR, (void *)clean, 0);
        if (useNonce) { BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_GETNONCE, BSL_PARAM_TYPE_FUNC_PTR, (void *)getNon, 0); BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEED_CLEANNONCE, BSL_PARAM_TYPE_FUNC_PTR, (void *)clean, 0); }
        BSL_PARAM_InitValue(&p[i++], CRYPT_PARAM_RAND_SEEDCTX, BSL_PARAM_TYPE_CTX_PTR, &s, 0);
        c.reset(CRYPT_EAL_ProviderDrbgNewCtx(nullptr, a.id, "provider=default", p));
    }
    CHECK(c, "drbg-new", "no context for %s", a.nm);
    // minimum entropy from SP 800-90A table 2/3
    uint32_t entMin = a.t == CTR && !a.df ? a.seedlen : a.gm && a.t == CTR ? 32 : a.strength / 8, nonMin = a.t == CTR && !a.df ? 0 : entMin / 2;
    bool ctrNoDf = a.t == CTR && !a.df;
    uint64_t interval = a.gm ? 1 << 10 : 10000, timeInt = a.gm ? 60 : 0; int64_t last = 0; bool pr = false; int32_t pidAt = g_pid;
    int state = 0;  // 0 uninit 1 ready 2 error
    Drbg d(a); std::string h; int gens = 0; bool rich = false;
    auto okEnt = [&](size_t before, bool plusNonce) -> const Bytes * {  // the one entropy call made since; null if it must be refused
        CHECK(s.ent.size() == before + 1, "drbg-entropy-calls", "%s: expected exactly one entropy request, saw %zu", h.c_str(), s.ent.size() - before);
        auto &e = s.ent.back(); uint32_t mn = entMin + (plusNonce ? nonMin : 0); bool refuse = e.second || e.first.size() < mn; return refuse ? nullptr : &e.first;
    };
    // model of an operation sequence inside one API call: consumes delivered data in order
    size_t ei = 0, ni = 0;  // cursor over deliveries
    auto nextEnt = [&](bool plus, Bytes &o) -> bool { if (ei >= s.ent.size()) fail("drbg-no-entropy-request", "%s: entropy was not requested where SP 800-90A requires it", h.c_str()); auto &e = s.ent[ei++]; if (e.second || e.first.size() < entMin + (plus ? nonMin : 0)) return false; o = e.first; return true; };
    auto nextNon = [&](Bytes &o) -> bool { if (ni >= s.non.size()) fail("drbg-no-nonce-request", "%s: nonce not requested", h.c_str()); auto &e = s.non[ni++]; if (e.second || e.first.size() < nonMin) return false; o = e.first; return true; };
    auto mInst = [&](const Bytes &pers) -> bool { state = 2; Bytes n, e; bool un = useNonce && !ctrNoDf; if (un && !nextNon(n)) return false; if (!nextEnt(!un && !ctrNoDf, e)) return false; d.inst(e, n, pers); state = 1; if (timeInt) last = g_now; return true; };
    auto mRestart = [&]() { if (state == 1) return true; return mInst({}); };
    auto mReseed = [&](const Bytes &ad) -> bool { if (!mRestart()) return false; state = 2; Bytes e; if (!nextEnt(false, e)) return false; d.reseed(e, ad); pidAt = g_pid; if (timeInt) last = g_now; state = 1; return true; };
    (void)okEnt;
    auto settle = [&]() { CHECK(ei == s.ent.size() && ni == s.non.size(), "drbg-extra-request", "%s: more entropy/nonce requests (%zu/%zu) than the standard calls for (%zu/%zu)", h.c_str(), s.ent.size(), s.non.size(), ei, ni); CHECK(s.outstanding == 0, "drbg-unclean-entropy", "%s: %ld entropy buffers not handed back", h.c_str(), s.outstanding); };
    if (g.chance(1, 4)) { uint64_t v = g.pick({(uint64_t)0, (uint64_t)5, (uint64_t)100}); if (!CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_SET_RESEED_TIME, &v, 8)) { timeInt = v; h += sfmt(" T%llu", (unsigned long long)v); } else fail("drbg-ctrl", "set reseed time failed"); }
    if (g.chance(1, 8)) { uint8_t z[4]; CHECK(CRYPT_EAL_Drbgbytes(c.get(), z, 4) != CRYPT_SUCCESS, "drbg-uninit", "bytes from an uninstantiated DRBG"); settle(); }
    if (g.chance(1, 2)) { uint32_t v = g.chance(1, 8) ? 0xffffffffu : (uint32_t)g.draw(5), q = 0; int32_t r = CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_SET_RESEED_INTERVAL, &v, 4); CHECK((r == 0) == (v != 0xffffffffu), "drbg-interval", "interval %u -> %s", v, rc(r).c_str()); if (!r) { interval = v; h += sfmt(" I%u", v); } CHECK(!CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_GET_RESEED_INTERVAL, &q, 4) && q == interval, "drbg-interval-get", "interval reads %u, was set to %llu", q, (unsigned long long)interval); }
    if (g.chance(1, 10)) { uint32_t lv = 1 + (uint32_t)g.draw(1); CHECK(!CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_SET_GM_LEVEL, &lv, 4), "drbg-ctrl", "set GM level"); interval = lv == 1 ? 1 << 20 : 1 << 10; timeInt = lv == 1 ? 600 : 60; h += sfmt(" GM%u", lv); }
    if (g.chance(1, 6)) { bool v = true; CHECK(!CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_SET_PREDICTION_RESISTANCE, &v, sizeof v), "drbg-ctrl", "set pr failed"); pr = v; h += " pr"; }
    s.hostile = g.chance(1, 3);
    { Bytes pers = g.bytes(g.len(0, ctrNoDf ? a.seedlen : 100)); Exact e(pers); h += sfmt("inst(%zu)", pers.size());
      int32_t r = CRYPT_EAL_DrbgInstantiate(c.get(), pers.empty() ? nullptr : e.p, (uint32_t)pers.size()); bool w = mInst(pers);
      CHECK((r == 0) == w, "drbg-inst", "%s: instantiate returned %s, model says %s", h.c_str(), rc(r).c_str(), w ? "ok" : "fail"); settle(); if (!w) { h += "!"; g.note("%s", h.c_str()); uint8_t z[4]; CHECK(CRYPT_EAL_Drbgbytes(c.get(), z, 4) != CRYPT_SUCCESS, "drbg-uninit", "bytes after failed instantiation"); return; } }
    int n = 1 + (int)g.draw(11);
    for (int i = 0; i < n; i++) {
        if (g.chance(1, 8)) s.hostile = !s.hostile;
        switch (g.weighted({8, 2, 1, 1, 1})) {
        case 0: {
            size_t L = g.weighted({15, 1}) == 0 ? 1 + g.draw(200) : a.gm ? 1 + g.draw(300) : g.chance(1, 3) ? g.pick({(size_t)65535, (size_t)65536, (size_t)65537, (size_t)131072, (size_t)131073, (size_t)140000}) : 1 + g.draw(5000);
            Bytes ad = g.chance(1, 3) ? g.bytes(g.len(1, ctrNoDf ? a.seedlen : 90)) : Bytes(); bool over = ctrNoDf && g.chance(1, 20); if (over) ad = g.bytes(a.seedlen + 1 + g.draw(5));
            Exact o(L), x(ad); h += sfmt(" g%zu/%zu", L, ad.size()); int32_t r = ad.empty() ? CRYPT_EAL_Drbgbytes(c.get(), o.p, (uint32_t)L) : CRYPT_EAL_DrbgbytesWithAdin(c.get(), o.p, (uint32_t)L, x.p, (uint32_t)ad.size());
            if (over) { CHECK(r, "drbg-adin-len", "%s: additional input over seedlen accepted", h.c_str()); settle(); break; }
            Bytes want; bool ok = true;
            for (size_t left = L; left && ok;) { size_t k = std::min<size_t>(left, a.maxReq); ok = mRestart(); if (!ok) break; Bytes adn = ad; bool need = g_pid != pidAt || pr || d.ctr > interval || (timeInt && (uint64_t)(g_now - last) > timeInt); if (need) { ok = mReseed(ad); if (!ok) break; adn.clear(); } Bytes t = d.gen(k, adn); want.insert(want.end(), t.begin(), t.end()); left -= k; }
            CHECK((r == 0) == ok, "drbg-gen", "%s: generate returned %s, model says %s", h.c_str(), rc(r).c_str(), ok ? "ok" : "fail"); settle();
            if (ok) { CHECK(o.vec() == want, "drbg-bytes", "%s: output %s expected %s", h.c_str(), hex(o.vec(), 40).c_str(), hex(want, 40).c_str()); if (gens++ && (rich || !ad.empty())) g.nontrivial(); } else { h += "!"; rich = true; }
            break; }
        case 1: {
            Bytes ad = g.boolean() ? g.bytes(g.len(1, ctrNoDf ? a.seedlen : 90)) : Bytes(); Exact x(ad); h += sfmt(" s%zu", ad.size());
            int32_t r = ad.empty() ? CRYPT_EAL_DrbgSeed(c.get()) : CRYPT_EAL_DrbgSeedWithAdin(c.get(), x.p, (uint32_t)ad.size()); bool ok = mReseed(ad); rich = true;
            CHECK((r == 0) == ok, "drbg-reseed", "%s: reseed returned %s, model says %s", h.c_str(), rc(r).c_str(), ok ? "ok" : "fail"); settle(); if (!ok) h += "!";
            break; }
        case 2: { uint32_t v = (uint32_t)g.draw(5); CHECK(CRYPT_EAL_DrbgCtrl(c.get(), CRYPT_CTRL_SET_RESEED_INTERVAL, &v, 4), "drbg-ctrl-working", "control of a working DRBG accepted"); break; }
        case 3: { int64_t dt = (int64_t)g.pick({1, 5, 6, 59, 60, 61, 100, 101, 700}); g_now += dt; h += sfmt(" +%llds", (long long)dt); break; }
        default: g_pid = g.boolean() ? 77 : 78 + (int)g.draw(1); h += sfmt(" pid%d", g_pid);
        }
    }
    g.note("%s %s", a.nm, h.c_str());
}
