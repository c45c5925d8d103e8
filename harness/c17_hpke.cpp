// C17: HPKE against an independent RFC 9180 built on OpenSSL primitives
#include "vh.hpp"
#include "opki.hpp"
#include <openssl/hmac.h>
extern "C" {
#include "crypt_eal_hpke.h"
}
const char *pbt::PROPERTY_RULE =
    "Suites (4 KEMs x 3 KDFs x 4 AEADs), the four modes, info/psk/psk id/ikm/aad/plaintext of assorted lengths and explicit or random ephemeral keys are generated; an independent RFC 9180 implementation over OpenSSL's EC/X25519, HMAC and AEAD primitives computes derived key "
    "pairs, enc, shared secret, ciphertexts and exports for the sender and (with possibly altered enc, info, psk, psk id, mode, keys, sender key) separately for the recipient; then a history of seal, open (in order, replayed, reordered, altered ciphertext/aad, made by the reference), "
    "export of any length, set/get sequence, short buffers and length queries runs on both contexts and every result must equal the model's. Non-trivial: a context was set up and at least one message or export compared.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"empty plaintexts and psk shorter than 32 bytes: the library refuses the former and accepts the latter (limitations, not compared)", "OpenSSL's EC, X25519, HMAC and AEAD primitives"};
void pbt::setup() { useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); CRYPT_EAL_Init(0); useDetRand(); opki::detOssl(5); }
typedef CRYPT_HPKE_CipherSuite Suite;
static Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes s2b(const char *s) { return Bytes(s, s + strlen(s)); }
static Bytes u16(unsigned v) { return {(uint8_t)(v >> 8), (uint8_t)v}; }
static Bytes hmac(const EVP_MD *md, const Bytes &k, const Bytes &d) { Bytes o(EVP_MAX_MD_SIZE); unsigned n = 0; static const uint8_t z = 0; HMAC(md, k.empty() ? &z : k.data(), (int)k.size(), d.data(), d.size(), o.data(), &n); o.resize(n); return o; }
static Bytes expand(const EVP_MD *md, const Bytes &prk, const Bytes &info, size_t L) { Bytes t, o; for (uint8_t i = 1; o.size() < L; i++) { t = hmac(md, prk, cat({t, info, {i}})); o.insert(o.end(), t.begin(), t.end()); } o.resize(L); return o; }
static Bytes lExtract(const EVP_MD *md, const Bytes &suite, const Bytes &salt, const char *label, const Bytes &ikm) { return hmac(md, salt, cat({s2b("HPKE-v1"), suite, s2b(label), ikm})); }
static Bytes lExpand(const EVP_MD *md, const Bytes &suite, const Bytes &prk, const char *label, const Bytes &info, size_t L) { return expand(md, prk, cat({u16((unsigned)L), s2b("HPKE-v1"), suite, s2b(label), info}), L); }
struct Kem { int nid; const EVP_MD *md; size_t nsk, npk; };
static Kem kem(int id) { switch (id) { case 0x10: return {NID_X9_62_prime256v1, EVP_sha256(), 32, 65}; case 0x11: return {NID_secp384r1, EVP_sha384(), 48, 97}; case 0x12: return {NID_secp521r1, EVP_sha512(), 66, 133}; default: return {0, EVP_sha256(), 32, 32}; } }
static const EVP_MD *kdfMd(int id) { return id == 1 ? EVP_sha256() : id == 2 ? EVP_sha384() : EVP_sha512(); }
static const EC_GROUP *group(int nid) { static std::map<int, EC_GROUP *> m; auto &g = m[nid]; if (!g) g = EC_GROUP_new_by_curve_name(nid); return g; }
static Bytes pubOf(const Kem &k, const Bytes &sk)
{
    if (!k.nid) { EVP_PKEY *p = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk.data(), 32); Bytes o(32); size_t n = 32; EVP_PKEY_get_raw_public_key(p, o.data(), &n); EVP_PKEY_free(p); return o; }
    const EC_GROUP *gr = group(k.nid); EC_POINT *q = EC_POINT_new(gr); BIGNUM *d = BN_bin2bn(sk.data(), (int)sk.size(), nullptr); EC_POINT_mul(gr, q, d, nullptr, nullptr, nullptr); Bytes o(k.npk); EC_POINT_point2oct(gr, q, POINT_CONVERSION_UNCOMPRESSED, o.data(), o.size(), nullptr); EC_POINT_free(q); BN_free(d); return o;
}
static bool dh(const Kem &k, const Bytes &sk, const Bytes &pk, Bytes &out)
{
    if (!k.nid) { EVP_PKEY *p = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk.data(), 32), *q = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pk.data(), 32); EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(p, nullptr); out.assign(32, 0); size_t n = 32; bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, q) == 1 && EVP_PKEY_derive(c, out.data(), &n) == 1; EVP_PKEY_CTX_free(c); EVP_PKEY_free(p); EVP_PKEY_free(q); return ok; }
    const EC_GROUP *gr = group(k.nid); EC_POINT *q = EC_POINT_new(gr); bool ok = pk[0] == 4 && EC_POINT_oct2point(gr, q, pk.data(), pk.size(), nullptr) == 1;
    if (ok) { BIGNUM *d = BN_bin2bn(sk.data(), (int)sk.size(), nullptr), *x = BN_new(); EC_POINT_mul(gr, q, nullptr, q, d, nullptr); EC_POINT_get_affine_coordinates(gr, q, x, nullptr, nullptr); out.assign(k.nsk, 0); BN_bn2binpad(x, out.data(), (int)out.size()); BN_free(d); BN_free(x); }
    EC_POINT_free(q); return ok;
}
static Bytes deriveSk(int id, const Bytes &ikm)
{
    Kem k = kem(id); Bytes su = cat({s2b("KEM"), u16((unsigned)id)}), prk = lExtract(k.md, su, {}, "dkp_prk", ikm); if (!k.nid) return lExpand(k.md, su, prk, "sk", {}, 32);
    const BIGNUM *n = EC_GROUP_get0_order(group(k.nid)); for (int c = 0; c < 255; c++) { Bytes b = lExpand(k.md, su, prk, "candidate", {(uint8_t)c}, k.nsk); if (id == 0x12) b[0] &= 1; BIGNUM *x = BN_bin2bn(b.data(), (int)b.size(), nullptr); bool ok = !BN_is_zero(x) && BN_cmp(x, n) < 0; BN_free(x); if (ok) return b; } return {};
}
struct RefCtx {
    Suite s; Bytes shared, key, nonce, exp; uint64_t seq = 0; bool ok = false; size_t nh = 32;
    void schedule(int mode, const Bytes &info, const Bytes &psk, const Bytes &pskId)
    {
        const EVP_MD *md = kdfMd(s.kdfId); nh = (size_t)EVP_MD_size(md); Bytes su = cat({s2b("HPKE"), u16(s.kemId), u16(s.kdfId), u16(s.aeadId)});
        Bytes ctx = cat({{(uint8_t)mode}, lExtract(md, su, {}, "psk_id_hash", pskId), lExtract(md, su, {}, "info_hash", info)}), sec = lExtract(md, su, shared, "secret", psk);
        if (s.aeadId != CRYPT_AEAD_EXPORT_ONLY) { key = lExpand(md, su, sec, "key", ctx, s.aeadId == 1 ? 16 : 32); nonce = lExpand(md, su, sec, "base_nonce", ctx, 12); }
        exp = lExpand(md, su, sec, "exp", ctx, nh); ok = true;
    }
    void kemShared(const Bytes &d, const Bytes &ctx) { Kem k = kem(s.kemId); Bytes su = cat({s2b("KEM"), u16(s.kemId)}); shared = lExpand(k.md, su, lExtract(k.md, su, {}, "eae_prk", d), "shared_secret", ctx, (size_t)EVP_MD_size(k.md)); }
    Bytes exportS(const Bytes &info, size_t L) { return lExpand(kdfMd(s.kdfId), cat({s2b("HPKE"), u16(s.kemId), u16(s.kdfId), u16(s.aeadId)}), exp, "sec", info, L); }
    bool aead(bool enc, uint64_t sq, const Bytes &aad, const Bytes &in, Bytes &out)
    {
        Bytes n = nonce; for (int i = 0; i < 8; i++) n[(size_t)(11 - i)] ^= (uint8_t)(sq >> (8 * i)); const EVP_CIPHER *c = s.aeadId == 1 ? EVP_aes_128_gcm() : s.aeadId == 2 ? EVP_aes_256_gcm() : EVP_chacha20_poly1305();
        if (!enc && in.size() < 17) return false; size_t ml = enc ? in.size() : in.size() - 16; EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(x, c, nullptr, key.data(), n.data(), enc); int l = 0; if (!aad.empty()) EVP_CipherUpdate(x, nullptr, &l, aad.data(), (int)aad.size()); out.assign(ml + (enc ? 16 : 0), 0); EVP_CipherUpdate(x, out.data(), &l, in.data(), (int)ml);
        if (!enc) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, (void *)(in.data() + ml)); uint8_t t[32]; bool k = EVP_CipherFinal_ex(x, t, &l) == 1; if (enc) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + ml); EVP_CIPHER_CTX_free(x); return k;
    }
};
struct Hp { CRYPT_EAL_HpkeCtx *c; ~Hp() { CRYPT_EAL_HpkeFreeCtx(c); } };
struct Pk { CRYPT_EAL_PkeyCtx *k = nullptr; Bytes sk, pk; ~Pk() { CRYPT_EAL_PkeyFreeCtx(k); } };
static uint8_t *np(Exact &e) { return e.n ? e.p : nullptr; }
static Suite suite(G &g) { static const int K[] = {0x20, 0x10, 0x11, 0x12}; Suite s; s.kemId = (CRYPT_HPKE_KEM_AlgId)K[g.weighted({4, 4, 1, 1})]; s.kdfId = (CRYPT_HPKE_KDF_AlgId)(1 + g.draw(2)); s.aeadId = g.chance(1, 8) ? CRYPT_AEAD_EXPORT_ONLY : (CRYPT_HPKE_AEAD_AlgId)(1 + g.draw(2)); return s; }
static void genKey(G &g, Suite s, Pk &p)
{
    Kem k = kem(s.kemId); Bytes ikm = g.bytes(k.nsk + (g.chance(1, 3) ? g.len(1, 100) : 0)); Exact e(ikm); int r = CRYPT_EAL_HpkeGenerateKeyPair(nullptr, nullptr, s, e.p, (uint32_t)e.n, &p.k);
    CHECK(r == CRYPT_SUCCESS, "derive-keypair", "GenerateKeyPair: %s", rc(r).c_str()); p.sk = deriveSk(s.kemId, ikm); p.pk = pubOf(k, p.sk);
    Bytes b(140); CRYPT_EAL_PkeyPrv v = {}; v.id = CRYPT_EAL_PkeyGetId(p.k); if (k.nid) { v.key.eccPrv.data = b.data(); v.key.eccPrv.len = 140; } else { v.key.curve25519Prv.data = b.data(); v.key.curve25519Prv.len = 140; }
    CHECK(CRYPT_EAL_PkeyGetPrv(p.k, &v) == CRYPT_SUCCESS, "getprv", "no private key"); b.resize(k.nid ? v.key.eccPrv.len : v.key.curve25519Prv.len);
    BIGNUM *x = BN_bin2bn(b.data(), (int)b.size(), nullptr), *y = BN_bin2bn(p.sk.data(), (int)p.sk.size(), nullptr); bool same = k.nid ? BN_cmp(x, y) == 0 : b == p.sk; BN_free(x); BN_free(y); CHECK(same, "derive-keypair", "DeriveKeyPair gives %s, RFC 9180 %s", hex(b).c_str(), hex(p.sk).c_str());
}
PBT_TEST(hpke, 700, 12000, 0, 300)
{
    Suite s = suite(g); Kem k = kem(s.kemId); int mode = (int)g.draw(3); Pk R, E, S; genKey(g, s, R); if (mode >= 2) genKey(g, s, S); bool eph = g.boolean(); if (eph) genKey(g, s, E);
    auto data = [&](size_t lo) { return g.bytes(g.weighted({5, 2}) ? g.len(lo, 400) : g.len(lo, 40)); };
    Bytes info = g.chance(1, 4) ? Bytes() : data(1), psk = mode & 1 ? data(1) : Bytes(), pskId = mode & 1 ? data(1) : Bytes();
    g.note("kem %x kdf %d aead %x mode %d, info %zu psk %zu id %zu, %s ephemeral", s.kemId, s.kdfId, s.aeadId, mode, info.size(), psk.size(), pskId.size(), eph ? "given" : "own"); g.label(sfmt("kem %x mode %d", s.kemId, mode).c_str());
    RefCtx rs, rr; rs.s = rr.s = s;
    Hp hs{CRYPT_EAL_HpkeNewCtx(nullptr, nullptr, CRYPT_HPKE_SENDER, (CRYPT_HPKE_Mode)mode, s)}; CHECK(hs.c, "newctx", "no sender context");
    auto setPsk = [&](CRYPT_EAL_HpkeCtx *c, const Bytes &p, const Bytes &id) { Exact a(p), b(id); int r = CRYPT_EAL_HpkeSetPsk(c, a.p, (uint32_t)a.n, b.p, (uint32_t)b.n); CHECK(r == CRYPT_SUCCESS, "setpsk", "%s", rc(r).c_str()); };
    if (mode & 1) setPsk(hs.c, psk, pskId); if (mode >= 2) CHECK(CRYPT_EAL_HpkeSetAuthPriKey(hs.c, S.k) == CRYPT_SUCCESS, "setauth", "refused");
    uint32_t el = 0; CHECK(CRYPT_EAL_HpkeGetEncapKeyLen(s, &el) == CRYPT_SUCCESS && el == k.npk, "enclen", "encapsulated key length %u", el);
    Exact ei(info), epk(R.pk), enc(el + g.draw(8)); uint32_t gotE = (uint32_t)enc.n; int r = CRYPT_EAL_HpkeSetupSender(hs.c, eph ? E.k : nullptr, np(ei), (uint32_t)ei.n, epk.p, (uint32_t)epk.n, enc.p, &gotE);
    CHECK(r == CRYPT_SUCCESS && gotE == k.npk, "setup-sender", "%s, %u", rc(r).c_str(), gotE); Bytes encB(enc.p, enc.p + gotE); if (eph) CHECK(encB == E.pk, "enc", "enc is not the ephemeral public key");
    // reference, seen from the recipient
    auto decap = [&](RefCtx &x, int md, const Bytes &e, Pk &rk, const Bytes &pkS, const Bytes &inf, const Bytes &ps, const Bytes &id) { Bytes d, d2; if (!dh(k, rk.sk, e, d)) return; Bytes kc = cat({e, rk.pk}); if (md >= 2) { if (!dh(k, rk.sk, pkS, d2)) return; d = cat({d, d2}); kc = cat({kc, pkS}); } x.kemShared(d, kc); x.schedule(md, inf, ps, id); };
    decap(rs, mode, encB, R, S.pk, info, psk, pskId); CHECK(rs.ok, "enc-invalid", "the encapsulated key is not a valid public key");
    auto sharedIs = [&](CRYPT_EAL_HpkeCtx *c, RefCtx &x, const char *who) { uint32_t n = 0; CHECK(CRYPT_EAL_HpkeGetSharedSecret(c, nullptr, &n) == CRYPT_SUCCESS && n == x.shared.size(), "shared-len", "%u", n); Exact o((size_t)n); CHECK(CRYPT_EAL_HpkeGetSharedSecret(c, o.p, &n) == CRYPT_SUCCESS && o.vec() == x.shared, "shared-secret", "%s: shared secret %s, RFC 9180 %s", who, hex(o.vec()).c_str(), hex(x.shared).c_str()); };
    sharedIs(hs.c, rs, "sender");
    // recipient, possibly with something altered
    int alt = g.chance(1, 2) ? 0 : 1 + (int)g.draw(6); int rmode = mode; Bytes rinfo = info, rpsk = psk, rid = pskId, renc = encB, rS = S.pk; Pk R2; Pk *rk = &R; bool any = false;
    switch (alt) {
    case 1: if (rinfo.empty()) rinfo = g.bytes(1); else if (g.boolean()) rinfo[g.draw(rinfo.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); else rinfo.pop_back(); break;
    case 2: if (mode & 1) { Bytes &b = g.boolean() ? rpsk : rid; if (g.boolean() || b.size() == 1) b[g.draw(b.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); else b.pop_back(); } else { rmode |= 1; rpsk = g.bytes(32); rid = g.bytes(3); } break;
    case 3: { size_t i = g.boolean() ? 0 : g.draw(renc.size() - 1); renc[i] ^= (uint8_t)(1u << g.draw(7)); if (k.nid && (renc[0] == 6 || renc[0] == 7)) any = true; break; }
    case 4: genKey(g, s, R2); rk = &R2; break;
    case 5: if (mode >= 2) { Pk T; genKey(g, s, T); rS = T.pk; } else { rmode |= 2; genKey(g, s, S); rS = S.pk; } break;
    case 6: renc = g.bytes(renc.size()); if (k.nid) renc[0] = (uint8_t)g.draw(7); else if (g.boolean()) { renc.assign(32, 0); renc[0] = (uint8_t)g.draw(1); } if (k.nid && (renc[0] == 6 || renc[0] == 7)) any = true; break;
    }
    decap(rr, rmode, renc, *rk, rS, rinfo, rpsk, rid); if (alt) g.label(sfmt("altered %d", alt).c_str());
    Hp hr{CRYPT_EAL_HpkeNewCtx(nullptr, nullptr, CRYPT_HPKE_RECIPIENT, (CRYPT_HPKE_Mode)rmode, s)}; if (rmode & 1) setPsk(hr.c, rpsk, rid); if (rmode >= 2) { Exact q(rS); CHECK(CRYPT_EAL_HpkeSetAuthPubKey(hr.c, q.p, (uint32_t)q.n) == CRYPT_SUCCESS, "setauth", "public key refused"); }
    Exact ri(rinfo), re(renc); if (g.chance(1, 4)) { CHECK(CRYPT_EAL_HpkeSetupRecipient(hr.c, rk->k, np(ri), (uint32_t)ri.n, re.p, (uint32_t)re.n - 1) != CRYPT_SUCCESS, "short-enc", "truncated enc accepted"); }
    if (g.chance(1, 6) && rr.ok) { Exact ss(rr.shared); r = CRYPT_EAL_HpkeSetSharedSecret(hr.c, np(ri), (uint32_t)ri.n, ss.p, (uint32_t)ss.n); g.label("shared secret set directly"); } else r = CRYPT_EAL_HpkeSetupRecipient(hr.c, rk->k, np(ri), (uint32_t)ri.n, re.p, (uint32_t)re.n);
    if (!rr.ok) { if (!any) CHECK(r != CRYPT_SUCCESS, "bad-enc", "an invalid encapsulated key was accepted"); g.nontrivial(); return; }
    CHECK(r == CRYPT_SUCCESS, "setup-recipient", "%s", rc(r).c_str()); sharedIs(hr.c, rr, "recipient");
    std::vector<std::pair<Bytes, Bytes>> msgs; bool sealable = s.aeadId != CRYPT_AEAD_EXPORT_ONLY; int n = 3 + (int)g.draw(12);
    for (int i = 0; i < n; i++) {
        switch (g.weighted({5, 5, 2, 1, 1})) {
        case 0: {
            Bytes aad = g.chance(1, 3) ? Bytes() : data(1), pt = data(1), want; Exact ea(aad), ep(pt); uint32_t ol = 0; if (!sealable) { Exact o(pt.size() + 16); ol = (uint32_t)o.n; CHECK(CRYPT_EAL_HpkeSeal(hs.c, np(ea), (uint32_t)ea.n, ep.p, (uint32_t)ep.n, o.p, &ol) != CRYPT_SUCCESS, "export-only-seal", "an export-only context sealed"); break; }
            if (rs.seq == UINT64_MAX) { Exact o(pt.size() + 16); ol = (uint32_t)o.n; CHECK(CRYPT_EAL_HpkeSeal(hs.c, np(ea), (uint32_t)ea.n, ep.p, (uint32_t)ep.n, o.p, &ol) != CRYPT_SUCCESS, "seq-limit", "sealed beyond the message limit"); g.label("message limit"); break; }
            if (g.chance(1, 4)) { CHECK(CRYPT_EAL_HpkeSeal(hs.c, np(ea), (uint32_t)ea.n, ep.p, (uint32_t)ep.n, nullptr, &ol) == CRYPT_SUCCESS && ol == pt.size() + 16, "seal-query", "%u", ol); }
            if (g.chance(1, 5)) { Exact o(pt.size() + 15); ol = (uint32_t)o.n; CHECK(CRYPT_EAL_HpkeSeal(hs.c, np(ea), (uint32_t)ea.n, ep.p, (uint32_t)ep.n, o.p, &ol) != CRYPT_SUCCESS, "seal-short", "sealed into a short buffer"); }
            Exact o(pt.size() + 16 + g.draw(3)); ol = (uint32_t)o.n; r = CRYPT_EAL_HpkeSeal(hs.c, np(ea), (uint32_t)ea.n, ep.p, (uint32_t)ep.n, o.p, &ol); rs.aead(true, rs.seq, aad, pt, want);
            CHECK(r == CRYPT_SUCCESS && ol == want.size() && Bytes(o.p, o.p + ol) == want, "seal", "message %llu: %s, ciphertext differs from RFC 9180", (unsigned long long)rs.seq, rc(r).c_str()); rs.seq++; msgs.push_back({aad, want}); g.nontrivial(); break; }
        case 1: {
            Bytes aad, ct; if (!sealable) { ct = g.bytes(20); Exact ec(ct), o((size_t)4); uint32_t ol = 4; CHECK(CRYPT_EAL_HpkeOpen(hr.c, nullptr, 0, ec.p, 20, o.p, &ol) != CRYPT_SUCCESS, "export-only-open", "an export-only context opened"); break; }
            int w = (int)g.weighted({6, 2, 2, 3}); if (w == 0 || w == 3 || msgs.empty()) { if (w == 3 || rr.seq >= msgs.size()) { aad = data(0); Bytes pt = data(1); rr.aead(true, rr.seq, aad, pt, ct); } else { aad = msgs[rr.seq].first; ct = msgs[rr.seq].second; } } else { auto &m = msgs[g.draw(msgs.size() - 1)]; aad = m.first; ct = m.second; }
            if (w == 2) { if (g.boolean()) ct[g.draw(ct.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); else if (g.boolean()) aad.push_back((uint8_t)g.draw(255)); else ct.resize(g.draw(ct.size())); }
            Bytes want; bool ok = rr.seq != UINT64_MAX && !ct.empty() && rr.aead(false, rr.seq, aad, ct, want); Exact ea(aad), ec(ct); size_t pl = ct.size() > 16 ? ct.size() - 16 : 0;
            if (pl && rr.seq != UINT64_MAX && g.chance(1, 5)) { uint32_t ol = 0; CHECK(CRYPT_EAL_HpkeOpen(hr.c, np(ea), (uint32_t)ea.n, ec.p, (uint32_t)ec.n, nullptr, &ol) == CRYPT_SUCCESS && ol == pl, "open-query", "%u", ol); }
            if (pl > 1 && g.chance(1, 5)) { Exact o(pl - 1); uint32_t ol = (uint32_t)o.n; CHECK(CRYPT_EAL_HpkeOpen(hr.c, np(ea), (uint32_t)ea.n, ec.p, (uint32_t)ec.n, o.p, &ol) != CRYPT_SUCCESS, "open-short", "opened into a short buffer"); }
            Exact o(pl + g.draw(2)); uint32_t ol = (uint32_t)o.n; r = CRYPT_EAL_HpkeOpen(hr.c, np(ea), (uint32_t)ea.n, ec.p, (uint32_t)ec.n, o.p, &ol);
            if (ok) { CHECK(r == CRYPT_SUCCESS && ol == want.size() && Bytes(o.p, o.p + ol) == want, "open", "message %llu not opened: %s", (unsigned long long)rr.seq, rc(r).c_str()); rr.seq++; g.label("opened"); }
            else { CHECK(r != CRYPT_SUCCESS, "open-forged", "a message that is not the next one was opened (recipient message %llu)", (unsigned long long)rr.seq); g.label("refused"); } g.nontrivial(); break; }
        case 2: {
            RefCtx &x = g.boolean() ? rs : rr; CRYPT_EAL_HpkeCtx *c = &x == &rs ? hs.c : hr.c; Bytes ctx = g.chance(1, 4) ? Bytes() : data(1); size_t mx = 255 * x.nh, L = g.chance(1, 8) ? mx - g.draw(2) : g.chance(1, 8) ? mx + 1 + g.draw(3) : 1 + g.draw(300); Exact o(L), ec(ctx); r = CRYPT_EAL_HpkeExportSecret(c, np(ec), (uint32_t)ec.n, o.p, (uint32_t)L);
            if (L > mx) CHECK(r != CRYPT_SUCCESS, "export-limit", "%zu bytes exported", L); else CHECK(r == CRYPT_SUCCESS && o.vec() == x.exportS(ctx, L), "export", "export of %zu bytes: %s", L, rc(r).c_str()); g.nontrivial(); break; }
        case 3: {
            bool snd = g.boolean(); RefCtx &x = snd ? rs : rr; uint64_t q = g.weighted({3, 1, 1}) == 0 ? g.draw(5) : g.boolean() ? UINT64_MAX - g.draw(2) : g.draw(UINT64_MAX); if (!g.chance(1, 2)) break; r = CRYPT_EAL_HpkeSetSeq(snd ? hs.c : hr.c, q);
            if (q == UINT64_MAX) CHECK(r != CRYPT_SUCCESS, "setseq", "the last sequence number was accepted"); else { CHECK(r == CRYPT_SUCCESS, "setseq", "%s", rc(r).c_str()); if (snd && q != x.seq) { msgs.clear(); } x.seq = q; if (!snd) msgs.clear(); g.label("sequence set"); } break; }
        case 4: { uint64_t a = 0, b = 0; CHECK(CRYPT_EAL_HpkeGetSeq(hs.c, &a) == CRYPT_SUCCESS && CRYPT_EAL_HpkeGetSeq(hr.c, &b) == CRYPT_SUCCESS && a == rs.seq && b == rr.seq, "getseq", "sequence %llu/%llu, expected %llu/%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)rs.seq, (unsigned long long)rr.seq); break; }
        }
    }
}
