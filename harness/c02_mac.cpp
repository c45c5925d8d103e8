#include "ref.hpp"
#include <openssl/core_names.h>
#include <openssl/params.h>
const char *pbt::PROPERTY_RULE =
    "history: init/update/final/reinit/copy/dup/deinit sequences over up to 3 contexts of one MAC algorithm (22 algorithms), key lengths around the "
    "digest block, chunk sizes around the cipher/digest block; GMAC with arbitrary nonce and tag lengths. Non-trivial: a tag over a non-empty message "
    "absorbed in >=2 updates, or computed on a reused/copied context, was compared with the reference.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 HMAC/CMAC/SipHash/GCM and SM4-CBC are correct"};
void pbt::setup() {}
enum Kind { HMAC_, CMAC_, CBCMAC_, GMAC_, SIP_ };
struct Alg { CRYPT_MAC_AlgId id; const char *name; Kind k; const char *sub; uint32_t out; uint32_t key; uint32_t block; };
static const Alg ALGS[] = {
    {CRYPT_MAC_HMAC_SHA256, "HMAC-SHA256", HMAC_, "SHA256", 32, 0, 64}, {CRYPT_MAC_HMAC_SHA1, "HMAC-SHA1", HMAC_, "SHA1", 20, 0, 64},
    {CRYPT_MAC_HMAC_MD5, "HMAC-MD5", HMAC_, "MD5", 16, 0, 64}, {CRYPT_MAC_HMAC_SHA224, "HMAC-SHA224", HMAC_, "SHA224", 28, 0, 64},
    {CRYPT_MAC_HMAC_SHA384, "HMAC-SHA384", HMAC_, "SHA384", 48, 0, 128}, {CRYPT_MAC_HMAC_SHA512, "HMAC-SHA512", HMAC_, "SHA512", 64, 0, 128},
    {CRYPT_MAC_HMAC_SHA3_224, "HMAC-SHA3-224", HMAC_, "SHA3-224", 28, 0, 144}, {CRYPT_MAC_HMAC_SHA3_256, "HMAC-SHA3-256", HMAC_, "SHA3-256", 32, 0, 136},
    {CRYPT_MAC_HMAC_SHA3_384, "HMAC-SHA3-384", HMAC_, "SHA3-384", 48, 0, 104}, {CRYPT_MAC_HMAC_SHA3_512, "HMAC-SHA3-512", HMAC_, "SHA3-512", 64, 0, 72},
    {CRYPT_MAC_HMAC_SM3, "HMAC-SM3", HMAC_, "SM3", 32, 0, 64},
    {CRYPT_MAC_CMAC_AES128, "CMAC-AES128", CMAC_, "AES-128-CBC", 16, 16, 16}, {CRYPT_MAC_CMAC_AES192, "CMAC-AES192", CMAC_, "AES-192-CBC", 16, 24, 16},
    {CRYPT_MAC_CMAC_AES256, "CMAC-AES256", CMAC_, "AES-256-CBC", 16, 32, 16}, {CRYPT_MAC_CMAC_SM4, "CMAC-SM4", CMAC_, "SM4-CBC", 16, 16, 16},
    {CRYPT_MAC_CBC_MAC_SM4, "CBCMAC-SM4", CBCMAC_, "SM4-CBC", 16, 16, 16},
    {CRYPT_MAC_SIPHASH64, "SIPHASH64", SIP_, "", 8, 16, 8}, {CRYPT_MAC_SIPHASH128, "SIPHASH128", SIP_, "", 16, 16, 8},
    {CRYPT_MAC_GMAC_AES128, "GMAC-AES128", GMAC_, "AES-128-GCM", 16, 16, 16}, {CRYPT_MAC_GMAC_AES192, "GMAC-AES192", GMAC_, "AES-192-GCM", 16, 24, 16},
    {CRYPT_MAC_GMAC_AES256, "GMAC-AES256", GMAC_, "AES-256-GCM", 16, 32, 16},
};
static EVP_MAC *fetchMac(const char *n) { static std::map<std::string, EVP_MAC *> c; EVP_MAC *&m = c[n]; if (!m) m = EVP_MAC_fetch(nullptr, n, nullptr); if (!m) abort(); return m; }
static Bytes refMac(const Alg &a, const Bytes &key, const Bytes &iv, const Bytes &msg, size_t tag)
{
    if (a.k == GMAC_) {
        ref::Blk k(a.key == 16 ? "AES-128-ECB" : a.key == 24 ? "AES-192-ECB" : "AES-256-ECB", key); Bytes t(16); ref::gcm(k, iv, msg, Bytes(), false, t.data());
        t.resize(tag); return t;
    }
    if (a.k == CBCMAC_) {
        Bytes p = msg; if (p.empty()) p.resize(16); while (p.size() % 16) p.push_back(0);
        Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free> c(EVP_CIPHER_CTX_new()); uint8_t iv0[16] = {0}; int l; Bytes o(p.size() + 16);
        EVP_EncryptInit_ex(c, EVP_sm4_cbc(), nullptr, key.data(), iv0); EVP_CIPHER_CTX_set_padding(c, 0);
        EVP_EncryptUpdate(c, o.data(), &l, p.data(), (int)p.size());
        return Bytes(o.begin() + p.size() - 16, o.begin() + p.size());
    }
    Own<EVP_MAC_CTX, EVP_MAC_CTX_free> c(EVP_MAC_CTX_new(fetchMac(a.k == HMAC_ ? "HMAC" : a.k == CMAC_ ? "CMAC" : "SIPHASH")));
    OSSL_PARAM ps[3]; int n = 0; size_t sz = a.out;
    if (a.k == HMAC_) ps[n++] = OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_DIGEST, (char *)a.sub, 0);
    if (a.k == CMAC_) ps[n++] = OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_CIPHER, (char *)a.sub, 0);
    if (a.k == SIP_) ps[n++] = OSSL_PARAM_construct_size_t(OSSL_MAC_PARAM_SIZE, &sz);
    ps[n] = OSSL_PARAM_construct_end();
    uint8_t z = 0;
    if (!EVP_MAC_init(c, key.empty() ? &z : key.data(), key.size(), ps)) abort();
    EVP_MAC_update(c, msg.data(), msg.size());
    Bytes o(64); size_t l = 0; if (!EVP_MAC_final(c, o.data(), &l, 64)) abort(); o.resize(l); return o;
}
struct Model { CRYPT_EAL_MacCtx *ctx = nullptr; int st = 0; Bytes key, iv, data; int updates = 0; bool used = false, pad = false; };

PBT_TEST(history, 250000, 4000000)
{
    const Alg &a = ALGS[g.cycle(sizeof(ALGS) / sizeof(ALGS[0]))];
    g.label(a.name);
    Model m[3];
    struct Cl { Model *m; ~Cl() { for (int i = 0; i < 3; i++) CRYPT_EAL_MacFreeCtx(m[i].ctx); } } cl{m};
    std::string hist = a.name;
    auto mk = [&](Model &x) {
        x.ctx = g.boolean() ? CRYPT_EAL_MacNewCtx(a.id) : CRYPT_EAL_ProviderMacNewCtx(nullptr, a.id, "provider=default");
        CHECK(x.ctx, "mac-new", "cannot create %s", a.name); x.st = 0; x.pad = false;
    };
    auto init = [&](Model &x, int i) {
        size_t kl = a.key;
        if (a.k == HMAC_) kl = g.weighted({2, 3}) == 0 ? g.len(0, 300) : (size_t)std::max<int64_t>(0, (int64_t)a.block - 2 + (int64_t)g.draw(4));
        Bytes key = g.bytes(kl);
        if (a.k != HMAC_ && g.chance(1, 20)) {  // wrong key length is refused
            Bytes bad = g.bytes(kl + (g.boolean() ? 1 : -1)); Exact e(bad);
            CHECK(CRYPT_EAL_MacInit(x.ctx, e.p, (uint32_t)e.n) != CRYPT_SUCCESS, "mac-badkey", "%s accepted a %zu-byte key", a.name, e.n);
        }
        Exact e(key);
        int32_t r = CRYPT_EAL_MacInit(x.ctx, kl ? e.p : (g.boolean() ? nullptr : e.p), (uint32_t)kl);
        hist += sfmt(" i%d:k%zu", i, kl);
        CHECK(r == CRYPT_SUCCESS, "mac-init", "%s failed %s", hist.c_str(), rc(r).c_str());
        if (x.st) x.used = true;
        x.key = key; x.data.clear(); x.updates = 0; x.st = 1;
        if (a.k == CBCMAC_ && (!x.pad || g.boolean())) {
            int32_t p = CRYPT_PADDING_ZEROS; REQUIRE_OK(CRYPT_EAL_MacCtrl(x.ctx, CRYPT_CTRL_SET_CBC_MAC_PADDING, &p, sizeof p), "mac-padding"); x.pad = true;
        }
        if (a.k == GMAC_) {
            x.iv = g.bytes(g.weighted({2, 1}) == 0 ? 12 : g.len(1, 80)); Exact v(x.iv);
            REQUIRE_OK(CRYPT_EAL_MacCtrl(x.ctx, CRYPT_CTRL_SET_IV, v.p, (uint32_t)v.n), "gmac-iv");
        }
    };
    auto finish = [&](Model &x, int i) {
        uint32_t cap = a.out + (a.k != GMAC_ && g.chance(1, 4) ? (uint32_t)g.draw(20) : 0), ol;
        uint32_t tag = a.out;
        if (a.k == GMAC_) {
            tag = cap = 16;
        }
        ol = cap; Exact o(cap);
        int32_t r = CRYPT_EAL_MacFinal(x.ctx, o.p, &ol); hist += sfmt(" f%d", i);
        CHECK(r == CRYPT_SUCCESS, "mac-final", "%s: final failed %s", hist.c_str(), rc(r).c_str());
        Bytes ref = refMac(a, x.key, x.iv, x.data, tag);
        CHECK(ol == ref.size(), "mac-outlen", "%s: length %u expected %zu", hist.c_str(), ol, ref.size());
        CHECK(!memcmp(o.p, ref.data(), ol), "mac-value", "%s: key %zu bytes, message %zu bytes: tag %s expected %s", hist.c_str(), x.key.size(), x.data.size(), hex(o.p, ol).c_str(), hex(ref).c_str());
        for (uint32_t k = ol; k < cap; k++) CHECK(o.p[k] == 0xA5, "mac-overwrite", "%s: wrote past the tag", hist.c_str());
        if (!x.data.empty() && (x.updates > 1 || x.used)) g.nontrivial();
        x.st = 2; x.used = true;
    };
    int nops = 2 + (int)g.draw(10), nctx = (int)g.weighted({3, 2, 1});
    mk(m[0]); init(m[0], 0);
    for (int op = 0; op < nops; op++) {
        int i = (int)g.draw(nctx); Model &x = m[i];
        if (!x.ctx) { mk(x); if (!g.chance(1, 4)) init(x, i); }
        switch (g.weighted({12, 4, 2, 3, 3, 1, 1})) {
            case 0: {
                size_t n = g.weighted({2, 2}) ? g.len(0, 400) : (size_t)g.draw(2 * a.block + 2); Bytes d = g.bytes(n); Exact e(d);
                int32_t r = CRYPT_EAL_MacUpdate(x.ctx, n ? e.p : (g.boolean() ? nullptr : e.p), (uint32_t)n); hist += sfmt(" u%d:%zu", i, n);
                if (x.st != 1) { CHECK(r != CRYPT_SUCCESS, "mac-update-state", "%s: accepted in state %d", hist.c_str(), x.st); break; }
                if (a.k == GMAC_ && x.updates && !x.data.empty()) {  // GMAC takes its input in one update; a second one is refused, not mixed in
                    CHECK(r != CRYPT_SUCCESS, "gmac-second-update", "%s: second update accepted", hist.c_str()); break;
                }
                CHECK(r == CRYPT_SUCCESS, "mac-update", "%s: failed %s", hist.c_str(), rc(r).c_str());
                x.data.insert(x.data.end(), d.begin(), d.end()); if (n) x.updates++;
                break;
            }
            case 1:
                if (x.st == 1) finish(x, i);
                else { uint8_t o[64]; uint32_t l = 64; CHECK(CRYPT_EAL_MacFinal(x.ctx, o, &l) != CRYPT_SUCCESS, "mac-final-state", "%s: final accepted in state %d", hist.c_str(), x.st); }
                break;
            case 2: init(x, i); break;
            case 3: {
                if (a.k == GMAC_) break;
                int32_t r = CRYPT_EAL_MacReinit(x.ctx); hist += sfmt(" r%d", i);
                if (x.st == 0) { CHECK(r != CRYPT_SUCCESS, "mac-reinit-state", "%s: reinit accepted without key", hist.c_str()); break; }
                CHECK(r == CRYPT_SUCCESS, "mac-reinit", "%s: reinit failed %s", hist.c_str(), rc(r).c_str());
                x.st = 1; x.data.clear(); x.updates = 0; x.used = true; break;
            }
            case 4: {
                if (a.k == GMAC_) break;
                int j = (i + 1) % 3; Model &y = m[j];
                if (!y.ctx) { mk(y); init(y, j); break; }
                if (y.st == 0) break;
                if (g.boolean()) {
                    int32_t r = CRYPT_EAL_MacCopyCtx(x.ctx, y.ctx); hist += sfmt(" c%d<-%d", i, j); CHECK(r == CRYPT_SUCCESS, "mac-copy", "%s failed %s", hist.c_str(), rc(r).c_str());
                } else {
                    CRYPT_EAL_MacCtx *d = CRYPT_EAL_MacDupCtx(y.ctx); hist += sfmt(" d%d<-%d", i, j); CHECK(d, "mac-dup", "%s failed", hist.c_str());
                    CRYPT_EAL_MacFreeCtx(x.ctx); x.ctx = d;
                }
                CRYPT_EAL_MacCtx *keep = x.ctx; x = y; x.ctx = keep; x.used = true; break;
            }
            case 5: CRYPT_EAL_MacDeinit(x.ctx); hist += sfmt(" x%d", i); x.st = 0; break;
            default: {  // a short buffer is refused and does not disturb anything outside it
                if (x.st != 1 || a.k == GMAC_) break;
                uint32_t l = (uint32_t)g.draw(a.out - 1); Exact o(l);
                CHECK(CRYPT_EAL_MacFinal(x.ctx, o.p, &l) != CRYPT_SUCCESS, "mac-short", "%s: %zu-byte buffer accepted", hist.c_str(), o.n);
                if (g.boolean()) init(x, i);   // either way the context still yields the right tag
            }
        }
    }
    for (int i = 0; i <= nctx; i++) if (m[i].ctx && m[i].st == 1) finish(m[i], i);
    g.note("%s", hist.c_str());
}

// GMAC with truncated tags set explicitly
PBT_TEST(gmac_taglen, 10000, 200000)
{
    const Alg &a = ALGS[18 + g.cycle(3)];
    Bytes key = g.bytes(a.key), iv = g.bytes(g.len(1, 140)), msg = g.bytes(g.len(0, 600));
    uint32_t tag = g.pick({16u, 4u, 8u, 12u, 13u, 14u, 15u});
    MacCtx c(CRYPT_EAL_MacNewCtx(a.id)); Exact k(key), v(iv), d(msg), o(tag);
    REQUIRE_OK(CRYPT_EAL_MacInit(c, k.p, (uint32_t)k.n), "gmac-init");
    bool tagFirst = g.boolean();
    if (tagFirst) REQUIRE_OK(CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tag, sizeof tag), "gmac-taglen");
    REQUIRE_OK(CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_IV, v.p, (uint32_t)v.n), "gmac-iv");
    if (!tagFirst) REQUIRE_OK(CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tag, sizeof tag), "gmac-taglen");
    REQUIRE_OK(CRYPT_EAL_MacUpdate(c, d.p, (uint32_t)d.n), "gmac-update");
    uint32_t ol = tag; REQUIRE_OK(CRYPT_EAL_MacFinal(c, o.p, &ol), "gmac-final");
    Bytes ref = refMac(a, key, iv, msg, tag);
    CHECK(!memcmp(o.p, ref.data(), tag), "gmac-value", "%s iv %zu msg %zu tag %u: %s expected %s", a.name, iv.size(), msg.size(), tag, hex(o.p, tag).c_str(), hex(ref).c_str());
    if (!msg.empty()) g.nontrivial();
    g.note("%s iv=%zu msg=%zu tag=%u", a.name, iv.size(), msg.size(), tag);
}
