// C21: every allocation of an API sequence is made to fail, once or from there on
#include "ops.hpp"
#include "bsl_err.h"
#include "bsl_base64.h"
#include "crypt_eal_mac.h"
#include "crypt_eal_kdf.h"
#include "tlsgen.hpp"
using namespace ops; using namespace tls;
const char *pbt::PROPERTY_RULE =
    "A scenario (a generated operation over 31 key algorithms/parameters from context creation to verification; key encoding and decoding in 4 formats; digest, MAC, cipher, AEAD, KDF and DRBG contexts; certificate, CRL and chain "
    "processing; a TLS, DTLS or TLCP handshake with data) is run once to count its allocations through the BSL memory callbacks, then again with the k-th allocation (or all from the k-th) failing, k drawn over the whole count. Required: no crash (ASan/UBSan), "
    "no allocation left after everything is freed, a reported success carries the right result, and afterwards the same scenario (and objects made before) works. Non-trivial: the failing allocation was reached.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"all library memory goes through the callbacks of BSL_SAL_CallBack_Ctrl"};
void pbt::setup() { useTrackedMem(); tls::tlsInit(true); }
struct Arm { Arm(long k, bool from) { memCtl().allocs = 0; memCtl().failAt = k; memCtl().failFrom = from; } ~Arm() { memCtl().failAt = -1; } static bool hit(long k) { return memCtl().allocs > k; } };
static void calm() { memCtl().failAt = -1; BSL_ERR_RemoveErrorStack(true); }
// run `f` (returns "" = ok, "E..." = reported error, anything else = wrong result) with failures
template <class F> static void drive(G &g, const std::string &n, F f, bool lk = true)
{
    if (getenv("C21LOG")) fprintf(stderr, "drive %s\n", n.c_str());
    g.label(n); uint64_t sd = g.draw(UINT64_MAX); bool from = g.boolean(); long cnt;
    caseRandSeed(sd); randCtl() = RandCtl(); calm();
    { std::string w; { w = f(); } CHECK(w.empty(), n + "-warm", "scenario fails without any injected failure: %s", w.c_str()); calm(); }   // lazily created globals
    caseRandSeed(sd); long live = memCtl().live; memCtl().allocs = 0; { std::string w = f(); CHECK(w.empty(), n + "-baseline", "scenario fails without any injected failure: %s", w.c_str()); } cnt = memCtl().allocs; calm();
    if (lk) CHECK(memCtl().live == live, n + "-leak0", "%ld allocations left after the undisturbed scenario", memCtl().live - live);
    if (!cnt) discard(); long k = (long)(g.chance(1, 6) ? g.draw((uint64_t)std::min<long>(cnt, 12) - 1) : g.draw((uint64_t)cnt - 1)); g.note("%s: allocation %ld of %ld fails%s", n.c_str(), k, cnt, from ? " (and all later ones)" : "");
    if (getenv("C21LOG")) fprintf(stderr, " k=%ld/%ld from=%d\n", k, cnt, from);
    caseRandSeed(sd); bool hit; std::string w; { Arm a(k, from); w = f(); hit = Arm::hit(k); } calm();
    CHECK(w.empty() || w[0] == 'E', n + "-wrong", "with allocation %ld of %ld failing%s: %s", k, cnt, from ? " (and all later)" : "", w.c_str());
    if (lk) CHECK(memCtl().live == live, n + "-leak", "%ld allocations leaked after allocation %ld of %ld failed%s (outcome %s)", memCtl().live - live, k, cnt, from ? " (and all later)" : "", w.c_str());
    if (hit) { g.nontrivial(); g.key(sfmt("%s %ld %d", n.c_str(), k, from)); }
    if (g.chance(1, 3)) { caseRandSeed(sd); w = f(); calm(); CHECK(w.empty(), n + "-after", "after allocation %ld of %ld failed%s the scenario no longer works: %s", k, cnt, from ? " (and all later)" : "", w.c_str()); }
}
static void oneOp(G &g, const Row &r, int op)
{
    bool prov = g.boolean(); Bytes msg = g.bytes(r.caps & CRYPT ? g.range(1, 40) : g.len(0, 80)); if (r.id == CRYPT_PKEY_PAILLIER && msg[0] == 0) msg[0] = 1;
    if (op != GEN) { cached(r, 0); if (op == EXCH) cached(r, 1); }
    drive(g, sfmt("%s-%s", r.name, opName(op)), [&]() -> std::string {
        Inst t(r, op, prov, msg); if (!t.ok()) return "Esetup"; if (int32_t e = t.run()) return "Erun " + rc(e);
        memCtl().failAt = -1; std::string s = t.check(); return s; });
}
PBT_TEST(pkey, 700, 30000, 0, 300) { const Row &r = pickRow(g, 30); if (!thorough() && r.id == CRYPT_PKEY_MCELIECE) discard(); oneOp(g, r, pickOp(g, r)); }
PBT_TEST(slow, 6, 300, 0, 300) { for (;;) { const Row &r = g.pick(rows()); if ((r.caps & SLOW) || r.para == -2) { oneOp(g, r, pickOp(g, r)); return; } } }
// operating on one key for a while: the key survives failures of operations on it
PBT_TEST(survive, 300, 10000, 0, 300)
{
    const Row &r = pickRow(g, 60); if (r.id == CRYPT_PKEY_MCELIECE || r.id == CRYPT_PKEY_HYBRID_KEM || (r.caps & SLOW)) discard(); int op; do op = pickOp(g, r); while (op == GEN); g.label(sfmt("%s-%s", r.name, opName(op)));
    Bytes msg = g.bytes(r.caps & CRYPT ? g.range(1, 40) : g.len(0, 80)); if (r.id == CRYPT_PKEY_PAILLIER && msg[0] == 0) msg[0] = 1; uint64_t sd = g.draw(UINT64_MAX);
    std::string n = sfmt("%s-%s-survive", r.name, opName(op)); cached(r, 0); if (op == EXCH) cached(r, 1); calm(); { Inst w(r, op, true, msg); w.run(); w.check(); } calm(); long live = memCtl().live;
    {
        Inst t(r, op, true, msg); CHECK(t.ok(), n + "-setup", "set-up failed"); long cnt = 0; if (g.boolean()) { caseRandSeed(sd); memCtl().allocs = 0; CHECK(!t.run(), n + "-first", "run failed"); cnt = memCtl().allocs; } if (!cnt) cnt = 60;
        for (int i = 0; i < 4; i++) {
            long k = (long)g.draw((uint64_t)cnt - 1); bool from = g.boolean(); bool hit; caseRandSeed(sd + (uint64_t)i); int32_t e; { Arm a(k, from); e = t.run(); hit = Arm::hit(k); } calm(); if (hit) g.nontrivial();
            if (!e) { std::string s = t.check(); CHECK(s.empty(), n + "-wrong", "success with allocation %ld failing but %s", k, s.c_str()); }
            if (g.boolean()) { { Arm a((long)g.draw(40), from); t.check(); } calm(); }
            e = t.run(); CHECK(!e, n + "-dead", "after allocation %ld failed the key no longer works: %s", k, rc(e).c_str()); std::string s = t.check(); CHECK(s.empty(), n + "-dead-check", "after allocation %ld failed: %s", k, s.c_str());
        }
    }
    calm(); CHECK(memCtl().live == live, n + "-leak", "%ld allocations leaked", memCtl().live - live);
}
static std::string dec(BSL_Buffer &b, int fmt, int type, const char *pwd, CRYPT_EAL_PkeyCtx *ref)
{
    CRYPT_EAL_PkeyCtx *k = nullptr; int32_t e = CRYPT_EAL_DecodeBuffKey(fmt, type, &b, (const uint8_t *)pwd, pwd ? (uint32_t)strlen(pwd) : 0, &k); if (e) return k ? "key returned with error" : "Edec " + rc(e);
    PkeyCtx o(k); memCtl().failAt = -1; int ut = type == CRYPT_PUBKEY_SUBKEY ? CRYPT_PUBKEY_SUBKEY : CRYPT_PRIKEY_PKCS8_UNENCRYPT; BSL_Buffer x = {}, y = {}; CRYPT_EAL_EncodeBuffKey(k, nullptr, BSL_FORMAT_ASN1, ut, &x); CRYPT_EAL_EncodeBuffKey(ref, nullptr, BSL_FORMAT_ASN1, ut, &y); bool same = x.data && y.data && x.dataLen == y.dataLen && !memcmp(x.data, y.data, x.dataLen); BSL_SAL_FREE(x.data); BSL_SAL_FREE(y.data); return same ? "" : "decoded key differs";
}
PBT_TEST(codec, 500, 20000)
{
    static const std::vector<const char *> okNames = {"rsa-pss", "rsa-15", "ecdsa-p256", "ecdsa-p384", "sm2", "ed25519", "mldsa44", "mldsa65", "slh-sha2-128f", "mlkem512"}; const Row *r = nullptr; do { r = &g.pick(rows()); } while (!(r->caps & SIGN) || (r->caps & SLOW) || r->id == CRYPT_PKEY_DSA || r->para == -2 || r->id == CRYPT_PKEY_COMPOSITE || r->id == CRYPT_PKEY_XMSS || r->id == CRYPT_PKEY_SLH_DSA);
    int fmt = g.boolean() ? BSL_FORMAT_ASN1 : BSL_FORMAT_PEM; int type = g.pick({CRYPT_PRIKEY_PKCS8_UNENCRYPT, CRYPT_PRIKEY_PKCS8_ENCRYPT, CRYPT_PUBKEY_SUBKEY}); CRYPT_EAL_PkeyCtx *k = cached(*r, 0);
    CRYPT_Pbkdf2Param pb = {BSL_CID_PBES2, BSL_CID_PBKDF2, CRYPT_MAC_HMAC_SHA256, CRYPT_CIPHER_AES256_CBC, 16, (uint8_t *)"pw123", 5, 64}; CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; 
    drive(g, sfmt("codec-%s-%s-%d", r->name, fmt == BSL_FORMAT_PEM ? "pem" : "der", type), [&]() -> std::string {
        BSL_Buffer b = {nullptr, 0}; int32_t e = CRYPT_EAL_EncodeBuffKey(k, type == CRYPT_PRIKEY_PKCS8_ENCRYPT ? &ep : nullptr, fmt, type, &b); if (e) return b.data ? "buffer returned with an error" : "Eenc " + rc(e);
        std::string s = dec(b, fmt, type, type == CRYPT_PRIKEY_PKCS8_ENCRYPT ? "pw123" : nullptr, k); BSL_SAL_FREE(b.data); return s; });
}
PBT_TEST(sym, 900, 30000)
{
    int what = (int)g.draw(4); Bytes key = g.bytes(32); if (std::equal(key.begin(), key.begin() + 16, key.begin() + 16)) key[0] ^= 1; Bytes iv = g.bytes(16), in = g.bytes(g.len(0, 600)), aad = g.bytes(g.len(0, 40)); bool prov = g.boolean(); size_t cut = g.draw(in.size());
    if (what == 0) {
        static const CRYPT_MD_AlgId ids[] = {CRYPT_MD_MD5, CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SHA3_256, CRYPT_MD_SHAKE128, CRYPT_MD_SM3}; CRYPT_MD_AlgId id = ids[g.draw(8)]; Bytes want(64); uint32_t wn = 64; CRYPT_EAL_Md(id, in.data(), (uint32_t)in.size(), want.data(), &wn);
        drive(g, sfmt("md-%d", (int)id), [&]() -> std::string {
            Own<CRYPT_EAL_MdCtx, CRYPT_EAL_MdFreeCtx> c(prov ? CRYPT_EAL_ProviderMdNewCtx(nullptr, id, "provider=default") : CRYPT_EAL_MdNewCtx(id)); if (!c.p) return "Enew"; if (int32_t e = CRYPT_EAL_MdInit(c)) return "E" + rc(e); if (int32_t e = CRYPT_EAL_MdUpdate(c, in.data(), (uint32_t)cut)) return "E" + rc(e);
            Own<CRYPT_EAL_MdCtx, CRYPT_EAL_MdFreeCtx> d(CRYPT_EAL_MdDupCtx(c)); if (!d.p) return "Edup"; if (int32_t e = CRYPT_EAL_MdUpdate(d, in.data() + cut, (uint32_t)(in.size() - cut))) return "E" + rc(e); Bytes o(64); uint32_t n = 64; if (id == CRYPT_MD_SHAKE128) n = wn; if (int32_t e = CRYPT_EAL_MdFinal(d, o.data(), &n)) return "E" + rc(e); return n == wn && !memcmp(o.data(), want.data(), n) ? "" : "wrong digest"; });
    } else if (what == 1) {
        static const CRYPT_MAC_AlgId ids[] = {CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SM3, CRYPT_MAC_CMAC_AES256, CRYPT_MAC_HMAC_SHA512, CRYPT_MAC_SIPHASH64, CRYPT_MAC_CBC_MAC_SM4, CRYPT_MAC_GMAC_AES256}; CRYPT_MAC_AlgId id = ids[g.draw(6)]; uint32_t kl = id == CRYPT_MAC_SIPHASH64 || id == CRYPT_MAC_CBC_MAC_SM4 ? 16 : 32; Bytes want;
        auto f = [&]() -> std::string {
            Own<CRYPT_EAL_MacCtx, CRYPT_EAL_MacFreeCtx> c(prov ? CRYPT_EAL_ProviderMacNewCtx(nullptr, id, "provider=default") : CRYPT_EAL_MacNewCtx(id)); if (!c.p) return "Enew"; if (int32_t e = CRYPT_EAL_MacInit(c, key.data(), kl)) return "E" + rc(e);
            if (id == CRYPT_MAC_CBC_MAC_SM4) { CRYPT_PaddingType p = CRYPT_PADDING_ZEROS; if (int32_t e = CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_CBC_MAC_PADDING, &p, sizeof p)) return "E" + rc(e); } if (id == CRYPT_MAC_GMAC_AES256) { if (int32_t e = CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_IV, iv.data(), 12)) return "E" + rc(e); uint32_t t = 16; if (int32_t e = CRYPT_EAL_MacCtrl(c, CRYPT_CTRL_SET_TAGLEN, &t, 4)) return "E" + rc(e); }
            if (int32_t e = CRYPT_EAL_MacUpdate(c, in.data(), (uint32_t)in.size())) return "E" + rc(e); Bytes o(64); uint32_t n = id == CRYPT_MAC_GMAC_AES256 ? 16 : CRYPT_EAL_GetMacLen(c); if (int32_t e = CRYPT_EAL_MacFinal(c, o.data(), &n)) return "E" + rc(e); o.resize(n); if (want.empty()) { want = o; return ""; } return o == want ? "" : "wrong mac"; };
        if (in.empty()) discard(); drive(g, sfmt("mac-%d", (int)id), f);
    } else if (what == 2) {
        struct C { CRYPT_CIPHER_AlgId id; uint32_t k, v; int kind; }; static const C cs[] = {{CRYPT_CIPHER_AES128_CBC, 16, 16, 0}, {CRYPT_CIPHER_AES256_CTR, 32, 16, 0}, {CRYPT_CIPHER_SM4_CBC, 16, 16, 0}, {CRYPT_CIPHER_AES128_GCM, 16, 12, 1}, {CRYPT_CIPHER_AES256_CCM, 32, 12, 2}, {CRYPT_CIPHER_CHACHA20_POLY1305, 32, 12, 1}, {CRYPT_CIPHER_SM4_XTS, 32, 16, 0}, {CRYPT_CIPHER_AES128_WRAP_PAD, 16, 0, 3}, {CRYPT_CIPHER_SM4_GCM, 16, 12, 1}, {CRYPT_CIPHER_AES128_CFB, 16, 16, 0}, {CRYPT_CIPHER_SM4_HCTR, 32, 16, 0}};
        const C &c0 = cs[g.draw(9)]; Bytes want; if (in.size() < 32) in = g.bytes(32 + g.draw(100)); cut = g.draw(in.size()); if (c0.id == CRYPT_CIPHER_SM4_XTS || c0.kind == 3) cut = in.size();
        drive(g, sfmt("cipher-%d", (int)c0.id), [&]() -> std::string {
            Own<CRYPT_EAL_CipherCtx, CRYPT_EAL_CipherFreeCtx> c(prov ? CRYPT_EAL_ProviderCipherNewCtx(nullptr, c0.id, "provider=default") : CRYPT_EAL_CipherNewCtx(c0.id)); if (!c.p) return "Enew"; if (int32_t e = CRYPT_EAL_CipherInit(c, key.data(), c0.k, c0.v ? iv.data() : nullptr, c0.v, true)) return "E" + rc(e);
            if (c0.id == CRYPT_CIPHER_AES128_CBC || c0.id == CRYPT_CIPHER_SM4_CBC) if (int32_t e = CRYPT_EAL_CipherSetPadding(c, CRYPT_PADDING_PKCS7)) return "E" + rc(e);
            if (c0.kind == 2) { uint64_t l = in.size(); uint32_t t = 16; if (int32_t e = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &t, 4)) return "E" + rc(e); if (int32_t e = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &l, 8)) return "E" + rc(e); } if (c0.kind == 1 || c0.kind == 2) if (int32_t e = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_AAD, aad.data(), (uint32_t)aad.size())) return "E" + rc(e);
            Own<CRYPT_EAL_CipherCtx, CRYPT_EAL_CipherFreeCtx> d(c0.kind == 3 ? nullptr : CRYPT_EAL_CipherDupCtx(c)); Bytes o(in.size() + 64); uint32_t n = (uint32_t)o.size(), t = n; if (int32_t e = CRYPT_EAL_CipherUpdate(c, in.data(), (uint32_t)cut, o.data(), &n)) return "E" + rc(e); t = (uint32_t)o.size() - n; if (cut < in.size()) { if (int32_t e = CRYPT_EAL_CipherUpdate(c, in.data() + cut, (uint32_t)(in.size() - cut), o.data() + n, &t)) return "E" + rc(e); n += t; }
            if (c0.kind == 1 || c0.kind == 2) { if (int32_t e = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, o.data() + n, 16)) return "E" + rc(e); n += 16; } else if (c0.kind == 0) { t = (uint32_t)o.size() - n; if (int32_t e = CRYPT_EAL_CipherFinal(c, o.data() + n, &t)) return "E" + rc(e); n += t; }
            o.resize(n); if (want.empty()) { want = o; return ""; } return o == want ? "" : "wrong ciphertext"; });
    } else if (what == 3) {
        int kind = (int)g.draw(2); static const CRYPT_KDF_AlgId ids[] = {CRYPT_KDF_HKDF, CRYPT_KDF_PBKDF2, CRYPT_KDF_SCRYPT}; Bytes want; size_t L = 1 + g.draw(100);
        drive(g, sfmt("kdf-%d", kind), [&]() -> std::string {
            Own<CRYPT_EAL_KdfCtx, CRYPT_EAL_KdfFreeCtx> c(prov ? CRYPT_EAL_ProviderKdfNewCtx(nullptr, ids[kind], "provider=default") : CRYPT_EAL_KdfNewCtx(ids[kind])); if (!c.p) return "Enew"; CRYPT_MAC_AlgId mac = CRYPT_MAC_HMAC_SHA256; uint32_t it = 2, N = 4, rr = 2, pp = 2; CRYPT_HKDF_MODE mode = CRYPT_KDF_HKDF_MODE_FULL; BSL_Param p[6] = {}; int i = 0;
            auto add = [&](int32_t key, uint32_t ty, void *v, uint32_t l) { BSL_PARAM_InitValue(&p[i++], key, (BSL_PARAM_VALUE_TYPE)ty, v, l); };
            if (kind == 0) { add(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &mac, 4); add(CRYPT_PARAM_KDF_MODE, BSL_PARAM_TYPE_UINT32, &mode, 4); add(CRYPT_PARAM_KDF_KEY, BSL_PARAM_TYPE_OCTETS, key.data(), 32); add(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, iv.data(), 16); add(CRYPT_PARAM_KDF_INFO, BSL_PARAM_TYPE_OCTETS, iv.data(), 7); }
            else if (kind == 1) { add(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &mac, 4); add(CRYPT_PARAM_KDF_PASSWORD, BSL_PARAM_TYPE_OCTETS, key.data(), 9); add(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, iv.data(), 16); add(CRYPT_PARAM_KDF_ITER, BSL_PARAM_TYPE_UINT32, &it, 4); }
            else { add(CRYPT_PARAM_KDF_PASSWORD, BSL_PARAM_TYPE_OCTETS, key.data(), 9); add(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, iv.data(), 16); add(CRYPT_PARAM_KDF_N, BSL_PARAM_TYPE_UINT32, &N, 4); add(CRYPT_PARAM_KDF_R, BSL_PARAM_TYPE_UINT32, &rr, 4); add(CRYPT_PARAM_KDF_P, BSL_PARAM_TYPE_UINT32, &pp, 4); }
            if (int32_t e = CRYPT_EAL_KdfSetParam(c, p)) return "E" + rc(e); Bytes o(L); if (int32_t e = CRYPT_EAL_KdfDerive(c, o.data(), (uint32_t)L)) return "E" + rc(e); if (want.empty()) { want = o; return ""; } return o == want ? "" : "wrong key"; });
    } else {
        static const CRYPT_RAND_AlgId ids[] = {CRYPT_RAND_SHA256, CRYPT_RAND_HMAC_SHA256, CRYPT_RAND_AES128_CTR, CRYPT_RAND_AES256_CTR_DF, CRYPT_RAND_SM3, CRYPT_RAND_SM4_CTR_DF}; CRYPT_RAND_AlgId id = ids[g.draw(5)]; Bytes want;
        drive(g, sfmt("drbg-%d", (int)id), [&]() -> std::string {
            CRYPT_RandSeedMethod m = {}; m.getEntropy = [](void *, CRYPT_Data *e, uint32_t, CRYPT_Range *l) -> int32_t { e->len = l->min; e->data = (uint8_t *)calloc(1, e->len + 1); return 0; }; m.cleanEntropy = [](void *, CRYPT_Data *e) { free(e->data); }; m.getNonce = m.getEntropy; m.cleanNonce = m.cleanEntropy;
            CRYPT_EAL_RndCtx *c = CRYPT_EAL_DrbgNew(id, &m, nullptr); if (!c) return "Enew"; std::string s; Bytes o(100); int32_t e = CRYPT_EAL_DrbgInstantiate(c, key.data(), 20); if (!e) e = CRYPT_EAL_DrbgbytesWithAdin(c, o.data(), 100, aad.data(), (uint32_t)std::min<size_t>(16, aad.size())); if (!e) e = CRYPT_EAL_DrbgSeed(c); if (!e) e = CRYPT_EAL_Drbgbytes(c, o.data() + 50, 50); if (e) s = "E" + rc(e);
            CRYPT_EAL_DrbgDeinit(c); if (!s.empty()) return s; if (want.empty()) { want = o; return ""; } return o == want ? "" : "wrong output"; });
    }
}
// handshake, data and close between two fresh connections over configurations made before
PBT_TEST(handshake, 110, 10000, 0, 120)
{
    Side cs, ss; genPair(g, cs, ss); bool cfgToo = false; (void)cfgToo; std::string n = sfmt("tls-%d-%x", cs.proto, cs.vmax); Bytes data = g.bytes(1 + g.draw(50)); int who = (int)g.draw(1);
    calm(); { Link l; l.open(cs, ss); l.handshake(); if (!l.ok()) discard(); } calm(); long live0 = memCtl().live;
    {
        Link l; l.open(cs, ss); calm();
        auto f = [&]() -> std::string {
            l.a2b = Pipe(); l.b2a = Pipe(); l.handshake(); if (!l.ok()) { if (l.c.dead || l.s.dead) return "Ehandshake"; return memCtl().failAt >= 0 ? "Estall" : "stalled"; }
            for (int i = 0; i < 2; i++) { Peer &x = (i ^ who) ? l.c : l.s, &y = (i ^ who) ? l.s : l.c; Bytes got; int32_t r = 0; size_t sent = 0; for (int t = 0; t < 60 && got.size() < data.size(); t++) { if (sent < data.size()) { uint32_t w = 0; r = wr(x, Bytes(data.begin() + (long)sent, data.end()), &w); if (!r) sent += w; } Bytes o; if (!rd(y, 400, o)) got = cat(got, o); rd(x, 400, o); }
                if (got.size() < data.size()) return sfmt("Edata %zu of %zu arrived, last %s", got.size(), data.size(), rc(r).c_str()); if (got != data) return "data differ"; }
            HITLS_Close(l.c.ctx); HITLS_Close(l.s.ctx); return ""; };
        // the connection objects are recreated before each run, outside the failure window
        auto f2 = [&]() -> std::string { long sv = memCtl().failAt; bool svF = memCtl().failFrom; memCtl().failAt = -1; l.fresh(); memCtl().failAt = sv; memCtl().failFrom = svF; memCtl().allocs = 0; std::string s = f(); sv = memCtl().allocs; memCtl().failAt = -1; l.c.freeCtx(); l.s.freeCtx(); memCtl().allocs = sv; return s; };
        l.c.freeCtx(); l.s.freeCtx(); drive(g, n, f2, false);   // the server keeps sessions: memory is compared when the configurations are gone
    }
    calm(); CHECK(memCtl().live == live0, n + "-cfgleak", "%ld allocations left after freeing the configurations", memCtl().live - live0);
}
