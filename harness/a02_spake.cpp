// A02: SPAKE2+ against a reference model (RFC 9383) written over OpenSSL's curve arithmetic
#include "vh.hpp"
#include "auth_pake.h"
#include "auth_errno.h"
#include "crypt_eal_kdf.h"
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/cmac.h>
#include <openssl/objects.h>
using namespace vh;
using namespace pbt;
const char *pbt::PROPERTY_RULE =
    "SPAKE2+ runs over every supported suite with generated passwords, identities, contexts, PBKDF2 settings, scalars (also the library's own random ones) and registrations (derived from the password or given); every message and key of both roles is compared with a reference model, and each run is repeated with one message, secret or identity altered. "
    "Non-trivial: both confirmations and both keys were compared with the model, or an altered run was refused.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"password hashing input is the concatenation of password and identities, as the library documents by its code (RFC 9383 leaves the registration phase to the application)", "identities and context are not empty (the library makes no context for empty ones)", "OpenSSL's curve arithmetic, HKDF, HMAC, CMAC and PBKDF2 are right"};
namespace {
// M and N of RFC 9383, section 4
const uint8_t ECC_NISTP256_M[] = {0x02,0x88,0x6e,0x2f,0x97,0xac,0xe4,0x6e,0x55,0xba,0x9d,0xd7,0x24,0x25,0x79,0xf2,0x99,0x3b,0x64,0xe1,0x6e,0xf3,0xdc,0xab,0x95,0xaf,0xd4,0x97,0x33,0x3d,0x8f,0xa1,0x2f};
const uint8_t ECC_NISTP256_N[] = {0x03,0xd8,0xbb,0xd6,0xc6,0x39,0xc6,0x29,0x37,0xb0,0x4d,0x99,0x7f,0x38,0xc3,0x77,0x07,0x19,0xc6,0x29,0xd7,0x01,0x4d,0x49,0xa2,0x4b,0x4f,0x98,0xba,0xa1,0x29,0x2b,0x49};
const uint8_t ECC_NISTP384_M[] = {0x03,0x0f,0xf0,0x89,0x5a,0xe5,0xeb,0xf6,0x18,0x70,0x80,0xa8,0x2d,0x82,0xb4,0x2e,0x27,0x65,0xe3,0xb2,0xf8,0x74,0x9c,0x7e,0x05,0xeb,0xa3,0x66,0x43,0x4b,0x36,0x3d,0x3d,0xc3,0x6f,0x15,0x31,0x47,0x39,0x07,0x4d,0x2e,0xb8,0x61,0x3f,0xce,0xec,0x28,0x53};
const uint8_t ECC_NISTP384_N[] = {0x02,0xc7,0x2c,0xf2,0xe3,0x90,0x85,0x3a,0x1c,0x1c,0x4a,0xd8,0x16,0xa6,0x2f,0xd1,0x58,0x24,0xf5,0x60,0x78,0x91,0x8f,0x43,0xf9,0x22,0xca,0x21,0x51,0x8f,0x9c,0x54,0x3b,0xb2,0x52,0xc5,0x49,0x02,0x14,0xcf,0x9a,0xa3,0xf0,0xba,0xab,0x4b,0x66,0x5c,0x10};
const uint8_t ECC_NISTP521_M[] = {0x02,0x00,0x3f,0x06,0xf3,0x81,0x31,0xb2,0xba,0x26,0x00,0x79,0x1e,0x82,0x48,0x8e,0x8d,0x20,0xab,0x88,0x9a,0xf7,0x53,0xa4,0x18,0x06,0xc5,0xdb,0x18,0xd3,0x7d,0x85,0x60,0x8c,0xfa,0xe0,0x6b,0x82,0xe4,0xa7,0x2c,0xd7,0x44,0xc7,0x19,0x19,0x35,0x62,0xa6,0x53,0xea,0x1f,0x11,0x9e,0xef,0x93,0x56,0x90,0x7e,0xdc,0x9b,0x56,0x97,0x99,0x62,0xd7,0xaa};
const uint8_t ECC_NISTP521_N[] = {0x02,0x00,0xc7,0x92,0x4b,0x9e,0xc0,0x17,0xf3,0x09,0x45,0x62,0x89,0x43,0x36,0xa5,0x3c,0x50,0x16,0x7b,0xa8,0xc5,0x96,0x38,0x76,0x88,0x05,0x42,0xbc,0x66,0x9e,0x49,0x4b,0x25,0x32,0xd7,0x6c,0x5b,0x53,0xdf,0xb3,0x49,0xfd,0xf6,0x91,0x54,0xb9,0xe0,0x04,0x8c,0x58,0xa4,0x2e,0x8e,0xd0,0x4c,0xef,0x05,0x2a,0x3b,0xc3,0x49,0xd9,0x55,0x75,0xcd,0x25};
struct Suite { CRYPT_PKEY_ParaId c; CRYPT_MD_AlgId h; CRYPT_KDF_HKDF_AlgId k; CRYPT_MAC_AlgId m; int nid; bool s512, cmac; };
const Suite SU[] = {{CRYPT_ECC_NISTP256, CRYPT_MD_SHA256, CRYPT_HKDF_SHA256, CRYPT_MAC_HMAC_SHA256, NID_X9_62_prime256v1, false, false}, {CRYPT_ECC_NISTP256, CRYPT_MD_SHA512, CRYPT_HKDF_SHA512, CRYPT_MAC_HMAC_SHA512, NID_X9_62_prime256v1, true, false},
    {CRYPT_ECC_NISTP384, CRYPT_MD_SHA256, CRYPT_HKDF_SHA256, CRYPT_MAC_HMAC_SHA256, NID_secp384r1, false, false}, {CRYPT_ECC_NISTP384, CRYPT_MD_SHA512, CRYPT_HKDF_SHA512, CRYPT_MAC_HMAC_SHA512, NID_secp384r1, true, false},
    {CRYPT_ECC_NISTP521, CRYPT_MD_SHA512, CRYPT_HKDF_SHA512, CRYPT_MAC_HMAC_SHA512, NID_secp521r1, true, false}, {CRYPT_ECC_NISTP256, CRYPT_MD_SHA256, CRYPT_HKDF_SHA256, CRYPT_MAC_CMAC_AES128, NID_X9_62_prime256v1, false, true},
    {CRYPT_ECC_NISTP256, CRYPT_MD_SHA512, CRYPT_HKDF_SHA512, CRYPT_MAC_CMAC_AES128, NID_X9_62_prime256v1, true, true}};
BN_CTX *bc() { static BN_CTX *c = BN_CTX_new(); return c; }
struct Num { BIGNUM *b = BN_new(); Num() {} Num(const Bytes &v) { BN_bin2bn(v.data(), (int)v.size(), b); } Num(const Num &o) { BN_copy(b, o.b); } Num &operator=(const Num &o) { BN_copy(b, o.b); return *this; } ~Num() { BN_free(b); } Bytes out(int n) const { Bytes r((size_t)n); BN_bn2binpad(b, r.data(), n); return r; } };
struct Pt { const EC_GROUP *g; EC_POINT *p; Pt(const EC_GROUP *gr) : g(gr), p(EC_POINT_new(gr)) {} Pt(const Pt &o) : g(o.g), p(EC_POINT_dup(o.p, o.g)) {} Pt &operator=(const Pt &o) { EC_POINT_copy(p, o.p); return *this; } ~Pt() { EC_POINT_free(p); } bool set(const Bytes &b) { return EC_POINT_oct2point(g, p, b.data(), b.size(), bc()) == 1; } Bytes out() const { Bytes r(200); r.resize(EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, r.data(), r.size(), bc())); return r; } bool inf() const { return EC_POINT_is_at_infinity(g, p) == 1; } };
Pt mul(const EC_GROUP *g, const Num *base, const Pt *q, const Num *k) { Pt r(g); EC_POINT_mul(g, r.p, base ? base->b : nullptr, q ? q->p : nullptr, k ? k->b : nullptr, bc()); return r; }
Pt sub(const Pt &a, const Pt &b) { Pt n(b), r(a.g); EC_POINT_invert(a.g, n.p, bc()); EC_POINT_add(a.g, r.p, a.p, n.p, bc()); return r; }
EC_GROUP *grp(int nid) { static EC_GROUP *a = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1), *b = EC_GROUP_new_by_curve_name(NID_secp384r1), *c = EC_GROUP_new_by_curve_name(NID_secp521r1); return nid == NID_X9_62_prime256v1 ? a : nid == NID_secp384r1 ? b : c; }
int fieldLen(int nid) { return nid == NID_X9_62_prime256v1 ? 32 : nid == NID_secp384r1 ? 48 : 66; }
Bytes constM(int nid) { return nid == NID_X9_62_prime256v1 ? Bytes(ECC_NISTP256_M, ECC_NISTP256_M + sizeof ECC_NISTP256_M) : nid == NID_secp384r1 ? Bytes(ECC_NISTP384_M, ECC_NISTP384_M + sizeof ECC_NISTP384_M) : Bytes(ECC_NISTP521_M, ECC_NISTP521_M + sizeof ECC_NISTP521_M); }
Bytes constN(int nid) { return nid == NID_X9_62_prime256v1 ? Bytes(ECC_NISTP256_N, ECC_NISTP256_N + sizeof ECC_NISTP256_N) : nid == NID_secp384r1 ? Bytes(ECC_NISTP384_N, ECC_NISTP384_N + sizeof ECC_NISTP384_N) : Bytes(ECC_NISTP521_N, ECC_NISTP521_N + sizeof ECC_NISTP521_N); }
void app(Bytes &t, const Bytes &v) { for (int i = 0; i < 8; i++) t.push_back((uint8_t)((uint64_t)v.size() >> (8 * i))); t.insert(t.end(), v.begin(), v.end()); }
Bytes hkdf(bool s512, const Bytes &key, const char *info, size_t n)
{
    Bytes o(n); EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(EVP_PKEY_HKDF, nullptr); EVP_PKEY_derive_init(c); EVP_PKEY_CTX_set_hkdf_md(c, s512 ? EVP_sha512() : EVP_sha256()); EVP_PKEY_CTX_set1_hkdf_key(c, key.data(), (int)key.size()); EVP_PKEY_CTX_add1_hkdf_info(c, (const uint8_t *)info, (int)strlen(info)); size_t l = n; EVP_PKEY_derive(c, o.data(), &l); EVP_PKEY_CTX_free(c); return o;
}
Bytes macOf(const Suite &s, const Bytes &key, const Bytes &m)
{
    if (s.cmac) { size_t l = 16; Bytes o(16); CMAC_CTX *c = CMAC_CTX_new(); CMAC_Init(c, key.data(), key.size(), EVP_aes_128_cbc(), nullptr); CMAC_Update(c, m.data(), m.size()); CMAC_Final(c, o.data(), &l); CMAC_CTX_free(c); return o; }
    unsigned l = 64; Bytes o(64); HMAC(s.s512 ? EVP_sha512() : EVP_sha256(), key.data(), (int)key.size(), m.data(), m.size(), o.data(), &l); o.resize(l); return o;
}
struct Keys { Bytes shared, cP, cV; };
Keys schedule(const Suite &s, const Bytes &ctx, const Bytes &idP, const Bytes &idV, const Bytes &X, const Bytes &Y, const Bytes &Z, const Bytes &V, const Bytes &w0)
{
    const EC_GROUP *G = grp(s.nid); Pt M(G), N(G); CHECK(M.set(constM(s.nid)) && N.set(constN(s.nid)), "a02-const", "M or N is not a point of the curve"); Bytes t; app(t, ctx); app(t, idP); app(t, idV); app(t, M.out()); app(t, N.out()); app(t, X); app(t, Y); app(t, Z); app(t, V); app(t, w0);
    Bytes km(s.s512 ? 64 : 32); unsigned l; EVP_Digest(t.data(), t.size(), km.data(), &l, s.s512 ? EVP_sha512() : EVP_sha256(), nullptr); size_t ml = s.cmac ? 16 : km.size(); Bytes kc = hkdf(s.s512, km, "ConfirmationKeys", 2 * ml);
    Keys k; k.shared = hkdf(s.s512, km, "SharedKey", km.size()); k.cP = macOf(s, Bytes(kc.begin(), kc.begin() + (long)ml), Y); k.cV = macOf(s, Bytes(kc.begin() + (long)ml, kc.end()), X); return k;
}
struct Rgs { Bytes w0, w1, L; };
Rgs regFrom(const Suite &s, const Num &w0, const Num &w1) { int n = fieldLen(s.nid); Rgs r; r.w0 = w0.out(n); r.w1 = w1.out(n); r.L = mul(grp(s.nid), &w1, nullptr, nullptr).out(); return r; }
struct Kdf { CRYPT_MAC_AlgId mac; int it; Bytes salt; };
Rgs derive(const Suite &s, const Bytes &pw, const Bytes &idP, const Bytes &idV, const Kdf &k)
{
    size_t n = s.nid == NID_X9_62_prime256v1 ? 80 : s.nid == NID_secp384r1 ? 112 : 148; Bytes in = pw, o(n); in.insert(in.end(), idP.begin(), idP.end()); in.insert(in.end(), idV.begin(), idV.end()); PKCS5_PBKDF2_HMAC((const char *)in.data(), (int)in.size(), k.salt.data(), (int)k.salt.size(), k.it, k.mac == CRYPT_MAC_HMAC_SHA256 ? EVP_sha256() : k.mac == CRYPT_MAC_HMAC_SHA512 ? EVP_sha512() : EVP_sha384(), (int)n, o.data());
    Num w0(Bytes(o.begin(), o.begin() + (long)n / 2)), w1(Bytes(o.begin() + (long)n / 2, o.end())); const BIGNUM *q = EC_GROUP_get0_order(grp(s.nid)); BN_mod(w0.b, w0.b, q, bc()); BN_mod(w1.b, w1.b, q, bc()); return regFrom(s, w0, w1);
}
BSL_Buffer bb(const Exact &e) { return {e.p, (uint32_t)e.n}; }
struct Peer { HITLS_AUTH_PakeCtx *c = nullptr; ~Peer() { HITLS_AUTH_PakeFreeCtx(c); } };
void open(Peer &p, const Suite &s, bool req, const Bytes &pw, const Bytes &idP, const Bytes &idV, const Bytes &ctx)
{
    HITLS_AUTH_PAKE_CipherSuite cs; memset(&cs, 0, sizeof cs); cs.type = HITLS_AUTH_PAKE_SPAKE2PLUS; cs.params.spake2plus = {s.c, s.h, s.k, s.m}; Exact a(pw), b(idP), c(idV), d(ctx); p.c = HITLS_AUTH_PakeNewCtx(nullptr, nullptr, HITLS_AUTH_PAKE_SPAKE2PLUS, req ? HITLS_AUTH_PAKE_REQ : HITLS_AUTH_PAKE_RESP, cs, bb(a), bb(b), bb(c), bb(d)); CHECK(p.c, "a02-call", "no context (password %zu, identities %zu and %zu, context %zu octets)", pw.size(), idP.size(), idV.size(), ctx.size());
}
int32_t regReq(Peer &p, const Kdf &k, const Rgs *given)
{
    Exact salt(k.salt); HITLS_AUTH_PAKE_KDF kd; memset(&kd, 0, sizeof kd); kd.algId = CRYPT_KDF_PBKDF2; kd.param.pbkdf2.mac = k.mac; kd.param.pbkdf2.iteration = k.it; kd.param.pbkdf2.salt = bb(salt); CRYPT_EAL_KdfCtx *kc = HITLS_AUTH_PakeGetKdfCtx(p.c, kd); CHECK(kc, "a02-call", "no KDF context"); BSL_Buffer z = {nullptr, 0}; int32_t r;
    if (given) { Exact a(given->w0), b(given->w1), c(given->L); r = HITLS_AUTH_Pake_Ctrl(p.c, HITLS_AUTH_PAKE_REQ_REGISTER, kc, bb(a), bb(b), bb(c)); } else r = HITLS_AUTH_Pake_Ctrl(p.c, HITLS_AUTH_PAKE_REQ_REGISTER, kc, z, z, z); CRYPT_EAL_KdfFreeCtx(kc); return r;
}
int32_t regResp(Peer &p, const Rgs &g) { Exact a(g.w0), b(g.w1), c(g.L); return HITLS_AUTH_Pake_Ctrl(p.c, HITLS_AUTH_PAKE_RESP_REGISTER, nullptr, bb(a), bb(b), bb(c)); }
struct Out { Bytes v; int32_t r; };
template <class F> Out call1(size_t cap, F f) { Exact e(Bytes(cap, 0xA5)); BSL_Buffer b = {e.p, (uint32_t)cap}; Out o; o.r = f(&b); if (!o.r) o.v.assign(e.p, e.p + b.dataLen); return o; }
Out reqSetup(Peer &p, const Bytes *x, size_t cap) { Exact e(x ? *x : Bytes()); BSL_Buffer in = {x ? e.p : nullptr, (uint32_t)(x ? e.n : 0)}; return call1(cap, [&](BSL_Buffer *b) { return HITLS_AUTH_PakeReqSetup(p.c, in, b); }); }
int32_t respSetup(Peer &p, const Bytes *y, const Bytes &shareP, Bytes *shareV, Bytes *cV, size_t cap1, size_t cap2)
{
    Exact e(y ? *y : Bytes()), s(shareP), o1(Bytes(cap1, 0)), o2(Bytes(cap2, 0)); BSL_Buffer in = {y ? e.p : nullptr, (uint32_t)(y ? e.n : 0)}, a = {o1.p, (uint32_t)cap1}, b = {o2.p, (uint32_t)cap2}; int32_t r = HITLS_AUTH_PakeRespSetup(p.c, in, bb(s), &a, &b); if (!r) { shareV->assign(a.data, a.data + a.dataLen); cV->assign(b.data, b.data + b.dataLen); } return r;
}
int32_t reqDerive(Peer &p, const Bytes &shareV, const Bytes &cV, Bytes *cP, Bytes *key, size_t cap1, size_t cap2)
{
    Exact s(shareV), c(cV), o1(Bytes(cap1, 0)), o2(Bytes(cap2, 0)); BSL_Buffer a = {o1.p, (uint32_t)cap1}, b = {o2.p, (uint32_t)cap2}; int32_t r = HITLS_AUTH_PakeReqDerive(p.c, bb(s), bb(c), &a, &b); if (!r) { cP->assign(a.data, a.data + a.dataLen); key->assign(b.data, b.data + b.dataLen); } return r;
}
Out respDerive(Peer &p, const Bytes &cP, size_t cap) { Exact c(cP); return call1(cap, [&](BSL_Buffer *b) { return HITLS_AUTH_PakeRespDerive(p.c, bb(c), b); }); }
struct Case { const Suite *s; Bytes pw, idP, idV, ctx; Kdf k; Rgs r; bool given, ownX, ownY; Bytes x, y; };
Bytes scalar(G &g, int nid, bool smallOk = true)
{
    int n = fieldLen(nid); Num q; BN_copy(q.b, EC_GROUP_get0_order(grp(nid))); Num v(g.bytes((size_t)n)); switch (smallOk ? g.weighted({6, 1, 1, 1}) : 0) { case 1: BN_set_word(v.b, 1 + g.draw(300)); break; case 2: BN_sub(v.b, q.b, BN_value_one()); if (g.boolean()) BN_sub_word(v.b, g.draw(200)); break; case 3: BN_rshift(v.b, v.b, 8 + (int)g.draw(40)); break; default: break; }
    BN_mod(v.b, v.b, q.b, bc()); if (BN_is_zero(v.b)) BN_one(v.b); return v.out(n);
}
Case mkCase(G &g)
{
    seedRand(g); Case c; c.s = &SU[g.draw(6)]; c.pw = g.bytes(1 + g.len(0, 60)); c.idP = g.bytes(1 + g.len(0, 30)); c.idV = g.bytes(1 + g.len(0, 30)); c.ctx = g.bytes(1 + g.len(0, g.chance(1, 10) ? 3000 : 40)); c.k = {g.pick<CRYPT_MAC_AlgId>({CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SHA512, CRYPT_MAC_HMAC_SHA384}), 1 + (int)g.draw(20), g.bytes(1 + g.len(0, 40))}; c.given = g.chance(1, 3);
    if (c.given) { Num a(scalar(g, c.s->nid)), b(scalar(g, c.s->nid)); c.r = regFrom(*c.s, a, b); } else c.r = derive(*c.s, c.pw, c.idP, c.idV, c.k); c.ownX = g.chance(1, 3); c.ownY = g.chance(1, 3); c.x = scalar(g, c.s->nid); c.y = scalar(g, c.s->nid); if (g.chance(1, 6)) { while (c.x.size() > 1 && !c.x[0]) c.x.erase(c.x.begin()); } return c;
}
}
void pbt::setup() { BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); }

PBT_TEST(model, 2500, 60000, 0, 300)
{
    Case c = mkCase(g); const Suite &s = *c.s; const EC_GROUP *G = grp(s.nid); int fl = fieldLen(s.nid); size_t pl = 2 * (size_t)fl + 1, hl = s.s512 ? 64 : 32, ml = s.cmac ? 16 : hl; g.note("suite %d, given %d, own x %d, own y %d, leading octet of w0 %02x", (int)(c.s - SU), c.given, c.ownX, c.ownY, c.r.w0[0]);
    Peer P, V; open(P, s, true, c.pw, c.idP, c.idV, c.ctx); open(V, s, false, c.pw, c.idP, c.idV, c.ctx); int32_t r = regReq(P, c.k, c.given ? &c.r : nullptr); CHECK(!r, "a02-call", "requester registration failed: %s", rc(r).c_str()); r = regResp(V, c.r); CHECK(!r, "a02-call", "responder registration failed: %s", rc(r).c_str());
    Num w0(c.r.w0), w1(c.r.w1); Pt M(G), N(G), L(G); M.set(constM(s.nid)); N.set(constN(s.nid)); L.set(c.r.L); size_t cap = g.boolean() ? pl : pl + g.draw(20);
    if (g.chance(1, 10)) { Out o = reqSetup(P, &c.x, g.draw(pl - 1)); CHECK(o.r, "a02-short", "share written into a buffer too small for it"); }
    Out X = reqSetup(P, c.ownX ? nullptr : &c.x, cap); if (X.r && c.ownX && s.nid == NID_secp521r1 && X.r == HITLS_AUTH_PAKE_PROTOCOL_ERROR) discard(); CHECK(!X.r, "a02-call", "requester set-up failed: %s", rc(X.r).c_str()); CHECK(X.v.size() == pl, "a02-share", "share of %zu octets", X.v.size()); Num x(c.x), y(c.y);
    if (!c.ownX) { Pt e = mul(G, &x, &M, &w0); CHECK(X.v == e.out(), "a02-shareP", "the requester's share is not xG + w0M"); }
    Bytes Y, cV, cP, kP; if (g.chance(1, 10)) { size_t a = pl, b = ml; (g.boolean() ? a : b)--; r = respSetup(V, &c.y, X.v, &Y, &cV, a, b); CHECK(r, "a02-short", "responder output written into a buffer too small for it"); }
    r = respSetup(V, c.ownY ? nullptr : &c.y, X.v, &Y, &cV, cap, ml + g.draw(3)); if (r && c.ownY && s.nid == NID_secp521r1 && r == HITLS_AUTH_PAKE_PROTOCOL_ERROR) discard(); CHECK(!r, "a02-call", "responder set-up failed: %s", rc(r).c_str()); if (!c.ownY) { Pt e = mul(G, &y, &N, &w0); CHECK(Y == e.out(), "a02-shareV", "the responder's share is not yG + w0N"); }
    Keys k; bool model = !c.ownX || !c.ownY; if (model) { Pt Z(G), W(G), Xp(G), Yp(G); Xp.set(X.v); CHECK(Yp.set(Y), "a02-shareV", "the responder's share is not a point"); if (!c.ownX) { Pt d = sub(Yp, mul(G, nullptr, &N, &w0)); Z = mul(G, nullptr, &d, &x); W = mul(G, nullptr, &d, &w1); } else { Pt d = sub(Xp, mul(G, nullptr, &M, &w0)); Z = mul(G, nullptr, &d, &y); W = mul(G, nullptr, &L, &y); } k = schedule(s, c.ctx, c.idP, c.idV, X.v, Y, Z.out(), W.out(), c.r.w0); CHECK(cV == k.cV, "a02-confirmV", "the responder's confirmation differs from the model's"); }
    if (g.chance(1, 10)) { size_t a = ml, b = hl; (g.boolean() ? a : b)--; r = reqDerive(P, Y, cV, &cP, &kP, a, b); CHECK(r, "a02-short", "requester output written into a buffer too small for it"); }
    r = reqDerive(P, Y, cV, &cP, &kP, ml + g.draw(3), hl + g.draw(3)); CHECK(!r, "a02-refused", "the requester refused a genuine confirmation: %s", rc(r).c_str()); if (g.chance(1, 10)) { Out o = respDerive(V, cP, hl - 1); CHECK(o.r, "a02-short", "key written into a buffer too small for it"); }
    Out kV = respDerive(V, cP, hl + g.draw(3)); CHECK(!kV.r, "a02-refused", "the responder refused a genuine confirmation: %s", rc(kV.r).c_str()); CHECK(kP == kV.v && kP.size() == hl, "a02-key", "the two sides hold different keys"); if (model) { CHECK(cP == k.cP, "a02-confirmP", "the requester's confirmation differs from the model's"); CHECK(kP == k.shared, "a02-key", "the key differs from the model's"); g.nontrivial(); }
    g.label(sfmt("suite-%d", (int)(c.s - SU))); if (!c.r.w0[0]) g.label("w0 with a zero first octet"); g.key(hex(X.v.data(), 8) + hex(Y.data(), 8));
}

PBT_TEST(altered, 2500, 60000, 0, 300)
{
    Case c = mkCase(g); const Suite &s = *c.s; const EC_GROUP *G = grp(s.nid); int fl = fieldLen(s.nid); size_t pl = 2 * (size_t)fl + 1, hl = s.s512 ? 64 : 32, ml = s.cmac ? 16 : hl; c.ownX = c.ownY = false; int kind = (int)g.draw(11); static const char *name[] = {"password", "requester identity", "responder identity", "context", "w0", "w1 or L", "requester share", "responder share", "responder confirmation", "requester confirmation", "degenerate requester share", "degenerate responder share"}; g.note("%s", name[kind]);
    auto flip = [&](Bytes v) { if (g.chance(1, 6) && v.size() > 1) { v.resize(v.size() - 1 - g.draw(v.size() - 2)); return v; } if (g.chance(1, 8)) { v.push_back((uint8_t)g.draw(255)); return v; } v[g.draw(v.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); return v; };
    Bytes pw = c.pw, idP = c.idP, idV = c.idV, cx = c.ctx; Rgs vr = c.r; if (kind <= 3) { if (kind == 0) { c.given = false; c.r = derive(s, c.pw, c.idP, c.idV, c.k); vr = c.r; pw = flip(pw); } if (kind == 1) idP = flip(idP); if (kind == 2) idV = flip(idV); if (kind == 3) cx = flip(cx); }
    // the responder's stored verifier comes from the genuine secrets; the requester runs with the altered ones
    Peer P, V; open(P, s, true, pw, idP, idV, cx); open(V, s, false, c.pw, c.idP, c.idV, c.ctx); if (kind == 4) { Num w(c.r.w0); BN_add_word(w.b, 1 + g.draw(5)); BN_mod(w.b, w.b, EC_GROUP_get0_order(G), bc()); if (BN_is_zero(w.b)) BN_one(w.b); vr.w0 = w.out(fl); if (vr.w0 == c.r.w0) discard(); } if (kind == 5) { Num w(c.r.w1); BN_add_word(w.b, 1 + g.draw(5)); BN_mod(w.b, w.b, EC_GROUP_get0_order(G), bc()); if (BN_is_zero(w.b)) discard(); vr = regFrom(s, Num(c.r.w0), w); if (vr.L == c.r.L) discard(); }
    int32_t r = regReq(P, c.k, c.given || kind == 1 || kind == 2 ? &c.r : nullptr); CHECK(!r, "a02-call", "requester registration failed: %s", rc(r).c_str()); r = regResp(V, vr); CHECK(!r, "a02-call", "responder registration failed: %s", rc(r).c_str()); Num w0(c.r.w0), x(c.x), y(c.y); Pt M(G), N(G); M.set(constM(s.nid)); N.set(constN(s.nid));
    Out X = reqSetup(P, &c.x, pl); CHECK(!X.r, "a02-call", "requester set-up failed: %s", rc(X.r).c_str()); Bytes X2 = X.v, Y, cV, cP, kP; auto refused = [&](const char *at) { g.label(std::string(name[kind]) + ": " + at); g.nontrivial(); g.key(hex(X.v.data(), 8) + std::to_string(kind)); };
    if (kind == 6) X2 = flip(X2); if (kind == 10) { Pt d(G); if (g.boolean()) { d = mul(G, nullptr, &M, &w0); X2 = d.out(); } else X2 = g.pick<Bytes>({Bytes{0}, Bytes(pl, 0), Bytes{0x04}, Bytes()}); if (X2.size() == pl && X2[0] == 0 && g.boolean()) X2[0] = 4; }
    r = respSetup(V, &c.y, X2, &Y, &cV, pl, ml); if (kind == 10) { CHECK(r, "a02-degenerate", "the responder accepts a share that makes the shared point neutral or is no point"); refused("set-up"); return; } if (r) { CHECK(kind == 6, "a02-call", "responder set-up failed: %s", rc(r).c_str()); refused("set-up"); return; }
    Bytes Y2 = Y, cV2 = cV; if (kind == 7) Y2 = flip(Y); if (kind == 8) cV2 = g.chance(1, 6) ? X.v : g.chance(1, 6) ? Bytes(ml, 0) : flip(cV); if (kind == 11) { if (g.boolean()) Y2 = mul(G, nullptr, &N, &w0).out(); else Y2 = g.pick<Bytes>({Bytes{0}, Bytes(pl, 0), Bytes{0x04}}); }
    r = reqDerive(P, Y2, cV2, &cP, &kP, ml, hl); if (kind != 9) { CHECK(r, "a02-accepted", "the requester accepts a run with an altered %s", name[kind]); refused("derivation"); return; } CHECK(!r, "a02-refused", "the requester refused a genuine confirmation: %s", rc(r).c_str());
    Bytes cP2 = g.chance(1, 6) ? cV : g.chance(1, 6) ? Bytes(ml, 0) : flip(cP); Out kV = respDerive(V, cP2, hl); CHECK(kV.r, "a02-accepted", "the responder accepts an altered confirmation"); refused("final"); kV = respDerive(V, cP, hl); CHECK(!kV.r && kV.v == kP, "a02-after", "the genuine confirmation is refused after an altered one");
}
