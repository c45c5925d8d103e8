#include "vh.hpp"
#include <sys/mman.h>
const char *pbt::PROPERTY_RULE =
    "history: op sequences (init/update/final/squeeze/copy/dup/deinit) over up to 3 contexts of one digest algorithm, message content, chunk "
    "sizes near block boundaries; long: total length past 2^32 bits;  Non-trivial: a digest of a non-empty message "
    "absorbed in >=2 updates, or after a copy/dup/re-init, was compared with the reference.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 libcrypto digests are correct"};
void pbt::setup() {}

struct Model { CRYPT_EAL_MdCtx *ctx = nullptr; int st = 0; /*0 new 1 init/absorbing 2 final 3 squeezing*/ Bytes data; size_t squeezed = 0; int updates = 0; bool derived = false; };

PBT_TEST(history, 40000, 600000)
{
    const MdAlg &a = MDS[g.cycle(sizeof(MDS) / sizeof(MDS[0]))];
    g.label(a.ossl);
    CRYPT_EAL_MdCtx *pool[3] = {nullptr, nullptr, nullptr};
    Model m[3];
    struct Cl { Model *m; ~Cl() { for (int i = 0; i < 3; i++) CRYPT_EAL_MdFreeCtx(m[i].ctx); } } cl{m};
    (void)pool;
    int nops = 2 + (int)g.draw(12);
    int nctx = (int)g.weighted({3, 2, 1});
    auto mk = [&](Model &x) {
        if (g.boolean()) x.ctx = CRYPT_EAL_MdNewCtx(a.id);
        else x.ctx = CRYPT_EAL_ProviderMdNewCtx(nullptr, a.id, "provider=default");
        CHECK(x.ctx, "md-new", "cannot create %s", a.ossl); x.st = 0;
    };
    mk(m[0]); REQUIRE_OK(CRYPT_EAL_MdInit(m[0].ctx), "md-init"); m[0].st = 1;
    std::string hist = a.ossl;
    for (int op = 0; op < nops; op++) {
        int i = (int)g.draw(nctx);
        Model &x = m[i];
        if (!x.ctx) { mk(x); }
        switch (g.weighted({14, 3, 2, 3, 1, a.xof ? 4u : 1u})) {
            case 0: {  // update
                size_t n = g.len(0, 1200);
                Bytes d = g.bytes(n); Exact e(d);
                int32_t r = CRYPT_EAL_MdUpdate(x.ctx, n ? e.p : (g.boolean() ? nullptr : e.p), (uint32_t)n);
                hist += sfmt(" u%d:%zu", i, n);
                if (x.st == 1) {
                    CHECK(r == CRYPT_SUCCESS, "md-update", "%s: update(%zu) failed %s", hist.c_str(), n, rc(r).c_str());
                    x.data.insert(x.data.end(), d.begin(), d.end()); if (n) x.updates++;
                } else CHECK(r != CRYPT_SUCCESS, "md-update-state", "%s: update accepted in state %d", hist.c_str(), x.st);
                break;
            }
            case 1: {  // final
                uint32_t want = a.xof ? (uint32_t)g.len(1, 600) : a.size + (g.chance(1, 4) ? (uint32_t)g.draw(20) : 0);
                bool shortBuf = !a.xof && g.chance(1, 8);
                if (shortBuf) want = (uint32_t)g.draw(a.size - 1);
                Exact o(want); uint32_t ol = want;
                int32_t r = CRYPT_EAL_MdFinal(x.ctx, o.p, &ol);
                hist += sfmt(" f%d:%u", i, want);
                if (x.st != 1) { CHECK(r != CRYPT_SUCCESS, "md-final-state", "%s: final accepted in state %d", hist.c_str(), x.st); break; }
                if (shortBuf) { CHECK(r != CRYPT_SUCCESS, "md-final-short", "%s: final accepted a %u byte buffer", hist.c_str(), want);
                    REQUIRE_OK(CRYPT_EAL_MdInit(x.ctx), "md-reinit"); x.data.clear(); x.updates = 0; break; }
                CHECK(r == CRYPT_SUCCESS, "md-final", "%s: final failed %s", hist.c_str(), rc(r).c_str());
                Bytes ref = osslMd(a.ossl, x.data, a.xof ? want : 0);
                CHECK(ol == ref.size(), "md-outlen", "%s: length %u expected %zu", hist.c_str(), ol, ref.size());
                CHECK(!memcmp(o.p, ref.data(), ref.size()), "md-value", "%s: digest %s expected %s", hist.c_str(), hex(o.p, ol).c_str(), hex(ref).c_str());
                for (uint32_t k = ol; k < want; k++) CHECK(o.p[k] == 0xA5, "md-overwrite", "%s: wrote past digest", hist.c_str());
                if (!x.data.empty() && (x.updates > 1 || x.derived)) g.nontrivial();
                x.st = 2; break;
            }
            case 2: {  // (re)init
                REQUIRE_OK(CRYPT_EAL_MdInit(x.ctx), "md-reinit");
                if (x.st) x.derived = true;
                x.st = 1; x.data.clear(); x.squeezed = 0; x.updates = 0; hist += sfmt(" i%d", i); break;
            }
            case 3: {  // copy or dup another context into this one
                int j = (i + 1) % 3; Model &y = m[j];
                if (!y.ctx) { mk(y); break; }
                if (g.boolean()) {
                    int32_t r = CRYPT_EAL_MdCopyCtx(x.ctx, y.ctx); hist += sfmt(" c%d<-%d", i, j);
                    CHECK(r == CRYPT_SUCCESS, "md-copy", "%s: copy failed %s", hist.c_str(), rc(r).c_str());
                } else {
                    CRYPT_EAL_MdCtx *d = CRYPT_EAL_MdDupCtx(y.ctx); hist += sfmt(" d%d<-%d", i, j);
                    CHECK(d, "md-dup", "%s: dup failed", hist.c_str());
                    CRYPT_EAL_MdFreeCtx(x.ctx); x.ctx = d;
                }
                CRYPT_EAL_MdCtx *keep = x.ctx; x = y; x.ctx = keep; x.derived = true;
                break;
            }
            case 4: REQUIRE_OK(CRYPT_EAL_MdDeinit(x.ctx), "md-deinit"); x.st = 0; x.data.clear(); x.squeezed = 0; hist += sfmt(" x%d", i); break;
            default: {
                if (!a.xof) { uint8_t t[16]; CHECK(CRYPT_EAL_MdSqueeze(x.ctx, t, 16) != CRYPT_SUCCESS, "md-squeeze-nonxof", "%s: squeeze accepted", a.ossl); break; }
                size_t n = g.len(1, 500); Exact o(n);
                int32_t r = CRYPT_EAL_MdSqueeze(x.ctx, o.p, (uint32_t)n); hist += sfmt(" s%d:%zu", i, n);
                if (x.st == 0 || x.st == 2) { CHECK(r != CRYPT_SUCCESS, "md-squeeze-state", "%s: squeeze accepted in state %d", hist.c_str(), x.st); break; }
                CHECK(r == CRYPT_SUCCESS, "md-squeeze", "%s: squeeze failed %s", hist.c_str(), rc(r).c_str());
                Bytes ref = osslMd(a.ossl, x.data, x.squeezed + n);
                CHECK(!memcmp(o.p, ref.data() + x.squeezed, n), "md-squeeze-value", "%s: squeeze differs at offset %zu", hist.c_str(), x.squeezed);
                if (x.squeezed) g.nontrivial();
                x.squeezed += n; x.st = 3;
            }
        }
    }
    // every live context ends with the digest of what it absorbed
    for (int i = 0; i <= nctx; i++) {
        Model &x = m[i];
        if (!x.ctx || x.st != 1) continue;
        uint32_t ol = a.xof ? 48 : a.size; Exact o(ol);
        REQUIRE_OK(CRYPT_EAL_MdFinal(x.ctx, o.p, &ol), "md-final-end");
        Bytes ref = osslMd(a.ossl, x.data, a.xof ? 48 : 0);
        CHECK(ol == ref.size() && !memcmp(o.p, ref.data(), ol), "md-value", "%s: final digest of ctx %d over %zu bytes differs", hist.c_str(), i, x.data.size());
        if (!x.data.empty() && (x.updates > 1 || x.derived)) g.nontrivial();
    }
    // one-shot agrees as well
    size_t n = g.len(0, 4096); Bytes d = g.bytes(n); Exact e(d);
    uint32_t ol = a.xof ? 64 : a.size; Exact o(ol);
    int32_t r = g.boolean() ? CRYPT_EAL_Md(a.id, e.p, (uint32_t)n, o.p, &ol) : CRYPT_EAL_ProviderMd(nullptr, a.id, nullptr, e.p, (uint32_t)n, o.p, &ol);
    CHECK(r == CRYPT_SUCCESS, "md-oneshot", "%s one-shot %zu failed %s", a.ossl, n, rc(r).c_str());
    Bytes ref = osslMd(a.ossl, d, a.xof ? 64 : 0);
    CHECK(ol == ref.size() && !memcmp(o.p, ref.data(), ol), "md-oneshot-value", "%s one-shot of %zu bytes differs", a.ossl, n);
    g.note("%s", hist.c_str());
}

// total length crosses 2^29 bytes (2^32 bits); one update may itself exceed it. The data is the shared zero page.
PBT_TEST(longmsg, 28, 280)
{
    const MdAlg &a = MDS[g.cycle(sizeof(MDS) / sizeof(MDS[0]))];
    static uint8_t *zero = (uint8_t *)mmap(nullptr, (1ull << 29) + (1 << 20), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Bytes head = g.bytes(g.len(0, 200)), tail = g.bytes(g.len(0, 200));
    bool one = g.cycle(28) < 14;
    size_t big = one ? (1ull << 29) + g.draw(512) : (1ull << 29) - 256 + g.draw(512);
    g.label(a.ossl);
    MdCtx c(CRYPT_EAL_MdNewCtx(a.id));
    REQUIRE_OK(CRYPT_EAL_MdInit(c), "md-init");
    EVP_MD *md = EVP_MD_fetch(nullptr, a.ossl, nullptr); OsslMdCtx oc(EVP_MD_CTX_new()); EVP_DigestInit_ex(oc, md, nullptr); EVP_MD_free(md);
    auto up = [&](const uint8_t *p, size_t n) { REQUIRE_OK(CRYPT_EAL_MdUpdate(c, p, (uint32_t)n), "md-update-long"); EVP_DigestUpdate(oc, p, n); };
    if (!head.empty()) up(head.data(), head.size());
    if (one) up(zero, big); else { size_t k = 1 + g.draw(big - 2); up(zero, k); up(zero, big - k); }
    if (!tail.empty()) up(tail.data(), tail.size());
    uint8_t o[64], r[64]; uint32_t ol = a.xof ? 64 : a.size; unsigned rl = 0;
    REQUIRE_OK(CRYPT_EAL_MdFinal(c, o, &ol), "md-final-long");
    if (a.xof) EVP_DigestFinalXOF(oc, r, 64); else EVP_DigestFinal_ex(oc, r, &rl);
    CHECK(!memcmp(o, r, ol), "md-long-value", "%s over %zu+%zu+%zu bytes differs", a.ossl, head.size(), big, tail.size());
    g.nontrivial(); g.note("%s total %zu bytes, one update: %d", a.ossl, head.size() + big + tail.size(), one);
}

