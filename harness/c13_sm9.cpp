// C13: SM9 against a reference model over OpenSSL big numbers (GB/T 38635): key extraction on both groups, signatures and
// ciphertexts computed with the master key as trapdoor (every pairing value is a power of e(P1,P2)), and alterations.
#include "vh.hpp"
#include "opki.hpp"
#include "crypt_params_key.h"
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
using namespace vh;
using namespace pbt;
using opki::unhex;
const char *pbt::PROPERTY_RULE =
    "SM9 master keys (edge and random), identities of 1..256 bytes, messages and nonces are generated; public keys, user keys, signatures and ciphertexts are compared byte for byte with the "
    "reference, reference-made signatures/ciphertexts must be accepted by contexts holding only public data plus the user key, altered ones refused. "
    "Non-trivial: a signature or ciphertext was compared with the reference and verified/decrypted, or an altered one was refused.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"e(P1,P2) is a constant of the reference (it has order N and gives the standard's example vectors)", "a message whose key stream K1 is all zero is refused, as the library's own tests expect",
    "there is no interface to import an extracted user key, so user keys are always extracted in the context"};
namespace {
const char *G0 = "256943fbdb2bf87ab91ae7fbeaff14e146cf7e2279b9d155d13461e09b22f5230167b0280051495c6af1ec23ba2cd2ff1cdcdeca461a5ab0b5449e90913083105e7addaddf7fbfe16291b4e89af50b8217ddc47ba3cba833c6e77c3fb027685e79d0c8337072c93fef482bb055f44d6247ccac8e8e12525854b3566236337ebe082cde173022da8cd09b28a2d80a8cee53894436a52007f978dc37f36116d39b3fa7ed741eaed99a58f53e3df82df7ccd3407bcc7b1d44a9441920ced5fb824f7fc6eb2aa771d99c9234fddd31752edfd60723e05a4ebfdeb5c33fbd47e0cf066fa6b6fa6dd6b6d3b19a959a110e748154eef796dc0fc2dd766ea414de7869688ffe1c0e9de45fd0fed790ac26be91f6b3f0a49c084fe29a3fb6ed288ad7994d1664a1366beb3196f0443e15f5f9042a947354a5678430d45ba031cff06db9277f7c6d52b475e6aaa827fdc5b4175ac6929320f782d998f86b6b57cda42a042636a699de7c136f78eee2dbac4ca9727bff0cee02ee920f5822e65ea170aa9669";
const char *P2H = "85aef3d078640c98597b6027b441a01ff1dd2c190f5e93c454806c11d88061413722755292130b08d2aab97fd34ec120ee265948d19c17abf9b7213baf82d65b17509b092e845c1266ba0d262cbee6ed0736a96fa347c8bd856dc76b84ebeb96a7cf28d519be3da65f3170153d278ff247efba98a71a08116215bba5c999a7c7";
const char *P1H = "93de051d62bf718ff5ed0704487d01d6e1e4086909dc3280e8c4e4817c66dddd21fe8dda4f21e607631065125c395bbc1c1c00cbfa6024350c464cd70a3ea616";
const char *QH = "b640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d";
const char *NH = "b640000002a3a6f1d603ab4ff58ec74449f2934b18ea8beee56ee19cd69ecf25";
BN_CTX *bc() { static BN_CTX *c = BN_CTX_new(); return c; }
struct B {
    BIGNUM *b;
    B() : b(BN_new()) {}
    B(unsigned long v) : b(BN_new()) { BN_set_word(b, v); }
    B(const Bytes &v) : b(BN_new()) { BN_bin2bn(v.data(), (int)v.size(), b); }
    B(const B &o) : b(BN_dup(o.b)) {}
    B &operator=(const B &o) { BN_copy(b, o.b); return *this; }
    ~B() { BN_free(b); }
    Bytes out(size_t n = 32) const { Bytes o(n); BN_bn2binpad(b, o.data(), (int)n); return o; }
    bool zero() const { return BN_is_zero(b); }
};
const B &Q() { static B q(unhex(QH)); return q; }
const B &N() { static B n(unhex(NH)); return n; }
B add(const B &x, const B &y, const B &m) { B r; BN_mod_add(r.b, x.b, y.b, m.b, bc()); return r; }
B sub(const B &x, const B &y, const B &m) { B r; BN_mod_sub(r.b, x.b, y.b, m.b, bc()); return r; }
B mul(const B &x, const B &y, const B &m) { B r; BN_mod_mul(r.b, x.b, y.b, m.b, bc()); return r; }
B inv(const B &x, const B &m) { B r; BN_mod_inverse(r.b, x.b, m.b, bc()); return r; }
// ---- Fp2 = Fp[u]/(u^2+2) and the twist y^2 = x^3 + 5u
struct F2 { B a, b; };   // a + b u
F2 add(const F2 &x, const F2 &y) { return {add(x.a, y.a, Q()), add(x.b, y.b, Q())}; }
F2 sub(const F2 &x, const F2 &y) { return {sub(x.a, y.a, Q()), sub(x.b, y.b, Q())}; }
F2 mul(const F2 &x, const F2 &y) { B t = mul(x.b, y.b, Q()); return {sub(mul(x.a, y.a, Q()), add(t, t, Q()), Q()), add(mul(x.a, y.b, Q()), mul(x.b, y.a, Q()), Q())}; }
F2 inv(const F2 &x) { B t = mul(x.b, x.b, Q()); B d = inv(add(mul(x.a, x.a, Q()), add(t, t, Q()), Q()), Q()); return {mul(x.a, d, Q()), sub(B(0ul), mul(x.b, d, Q()), Q())}; }
bool eq(const F2 &x, const F2 &y) { return BN_cmp(x.a.b, y.a.b) == 0 && BN_cmp(x.b.b, y.b.b) == 0; }
struct P2 { bool inf = true; F2 x, y; };
P2 add(const P2 &p, const P2 &q)
{
    if (p.inf) return q;
    if (q.inf) return p;
    F2 l;
    if (eq(p.x, q.x)) {
        F2 s = add(p.y, q.y); if (s.a.zero() && s.b.zero()) return P2();
        F2 xx = mul(p.x, p.x); l = mul(add(add(xx, xx), xx), inv(add(p.y, p.y)));
    } else l = mul(sub(q.y, p.y), inv(sub(q.x, p.x)));
    P2 r; r.inf = false; r.x = sub(sub(mul(l, l), p.x), q.x); r.y = sub(mul(l, sub(p.x, r.x)), p.y); return r;
}
P2 fromBytes2(const Bytes &v) { auto w = [&](int i) { return B(Bytes(v.begin() + 32 * i, v.begin() + 32 * i + 32)); }; P2 p; p.inf = false; p.x = {w(1), w(0)}; p.y = {w(3), w(2)}; return p; }
Bytes toBytes(const P2 &p) { Bytes o; for (const B *b : {&p.x.b, &p.x.a, &p.y.b, &p.y.a}) { Bytes t = b->out(); o.insert(o.end(), t.begin(), t.end()); } return o; }
P2 mulG2(const B &k)
{
    static std::vector<P2> dbl; if (dbl.empty()) { P2 p = fromBytes2(unhex(P2H)); for (int i = 0; i < 256; i++) { dbl.push_back(p); p = add(p, p); } }
    P2 r; for (int i = 0; i < 256; i++) if (BN_is_bit_set(k.b, i)) r = add(r, dbl[(size_t)i]);
    return r;
}
// ---- G1: y^2 = x^3 + 5 over Fp
EC_GROUP *g1()
{
    static EC_GROUP *g = nullptr;
    if (!g) {
        B a(0ul), b(5ul), one(1ul); g = EC_GROUP_new_curve_GFp(Q().b, a.b, b.b, bc()); EC_POINT *p = EC_POINT_new(g); Bytes v = unhex(P1H);
        B x(Bytes(v.begin(), v.begin() + 32)), y(Bytes(v.begin() + 32, v.end())); if (EC_POINT_set_affine_coordinates(g, p, x.b, y.b, bc()) != 1) abort();
        EC_GROUP_set_generator(g, p, N().b, one.b); EC_POINT_free(p);
    }
    return g;
}
Bytes mulG1(const B &k) { EC_POINT *p = EC_POINT_new(g1()); EC_POINT_mul(g1(), p, k.b, nullptr, nullptr, bc()); uint8_t o[65] = {0}; EC_POINT_point2oct(g1(), p, POINT_CONVERSION_UNCOMPRESSED, o, 65, bc()); EC_POINT_free(p); return Bytes(o + 1, o + 65); }
// ---- Fp12 = Fp[w]/(w^12+2)
struct F12 { B c[12]; };
int slot(int k) { int i = 2 - k / 4, j = 1 - (k / 2) % 2, l = 1 - k % 2; return i + 3 * j + 6 * l; }
F12 mul(const F12 &x, const F12 &y)
{
    BIGNUM *t[23]; for (auto &p : t) { p = BN_new(); BN_zero(p); } BIGNUM *m = BN_new();
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) { BN_mul(m, x.c[i].b, y.c[j].b, bc()); BN_add(t[i + j], t[i + j], m); }
    F12 r; for (int i = 0; i < 12; i++) { if (i < 11) { BN_lshift1(m, t[i + 12]); BN_sub(t[i], t[i], m); } BN_nnmod(r.c[i].b, t[i], Q().b, bc()); }
    for (auto p : t) BN_free(p); BN_free(m); return r;
}
F12 powG(const B &k)
{
    static std::vector<F12> sq; if (sq.empty()) { Bytes v = unhex(G0); F12 g; for (int i = 0; i < 12; i++) g.c[slot(i)] = B(Bytes(v.begin() + 32 * i, v.begin() + 32 * i + 32)); for (int i = 0; i < 256; i++) { sq.push_back(g); g = mul(g, g); } }
    F12 r; BN_one(r.c[0].b); for (int i = 0; i < 256; i++) if (BN_is_bit_set(k.b, i)) r = mul(r, sq[(size_t)i]); return r;
}
Bytes ser(const F12 &x) { Bytes o; for (int i = 0; i < 12; i++) { Bytes t = x.c[slot(i)].out(); o.insert(o.end(), t.begin(), t.end()); } return o; }
Bytes sm3(const Bytes &m) { Bytes o(32); unsigned l; EVP_Digest(m.data(), m.size(), o.data(), &l, EVP_sm3(), nullptr); return o; }
Bytes cat(std::initializer_list<Bytes> l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return o; }
Bytes be32(uint32_t v) { return {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; }
B hashN(uint8_t tag, const Bytes &z)
{
    Bytes a = cat({sm3(cat({{tag}, z, be32(1)})), sm3(cat({{tag}, z, be32(2)}))}); a.resize(40);
    B n1, h(a); BN_copy(n1.b, N().b); BN_sub_word(n1.b, 1); BN_nnmod(h.b, h.b, n1.b, bc()); BN_add_word(h.b, 1); return h;
}
B h1(const Bytes &id, uint8_t hid) { return hashN(1, cat({id, {hid}})); }
B nonce(const Bytes &rnd) { B r(rnd); BN_nnmod(r.b, r.b, N().b, bc()); BN_add_word(r.b, 1); BN_nnmod(r.b, r.b, N().b, bc()); return r; }
struct RefSig { Bytes sig; bool ok; };
B userT(const B &ks, const Bytes &id, uint8_t hid) { B t1 = add(h1(id, hid), ks, N()); return t1.zero() ? B(0ul) : mul(ks, inv(t1, N()), N()); }
RefSig refSign(const B &ks, const Bytes &id, const Bytes &m, const B &r)
{
    B h = hashN(2, cat({m, ser(powG(mul(ks, r, N())))})), l = sub(r, h, N()); if (l.zero()) return {{}, false};
    return {cat({h.out(), mulG1(mul(l, userT(ks, id, 1), N()))}), true};
}
struct RefEnc { Bytes ct; bool zeroK; };
RefEnc refEnc(const B &ke, const Bytes &id, const Bytes &m, const B &r)
{
    B q = add(h1(id, 3), ke, N()); Bytes c1 = mulG1(mul(q, r, N())), w = ser(powG(mul(ke, r, N()))), k;
    for (uint32_t i = 1; k.size() < m.size() + 32; i++) { Bytes t = sm3(cat({c1, w, id, be32(i)})); k.insert(k.end(), t.begin(), t.end()); }
    Bytes c2 = m; bool z = !m.empty(); for (size_t i = 0; i < m.size(); i++) { c2[i] ^= k[i]; if (k[i]) z = false; }
    Bytes k2(k.begin() + (long)m.size(), k.begin() + (long)m.size() + 32); return {cat({c1, sm3(cat({c2, k2})), c2}), z};
}
// ---- the library's randomness is the next block of this buffer
Bytes gRnd; 
int32_t fixRand(uint8_t *p, uint32_t n) { for (uint32_t i = 0; i < n; i++) p[i] = gRnd[i % gRnd.size()]; return CRYPT_SUCCESS; }
int32_t fixRandEx(void *, uint8_t *p, uint32_t n) { return fixRand(p, n); }
B genMaster(G &g)
{
    int k = g.weighted({6, 1, 1, 1, 1}); B b;
    if (k == 0) { b = B(g.bytes(32)); BN_nnmod(b.b, b.b, N().b, bc()); }
    else if (k == 1) b = B((unsigned long)g.range(1, 20));
    else if (k == 2) { BN_copy(b.b, N().b); BN_sub_word(b.b, (BN_ULONG)g.range(1, 20)); }
    else if (k == 3) b = B(g.bytes((size_t)g.range(1, 31)));
    else { BN_one(b.b); BN_lshift(b.b, b.b, (int)g.range(0, 254)); if (g.boolean()) BN_sub_word(b.b, 1); }
    if (b.zero()) BN_one(b.b);
    return b;
}
Bytes genId(G &g) { return g.bytes((size_t)g.pick<uint64_t>({1, 3, 16, 55, 56, 64, 255, 256, g.range(1, 256)})); }
Bytes genRnd(G &g)
{
    Bytes r = g.bytes(32); int k = g.weighted({8, 1, 1, 1});
    if (k == 1) r = Bytes(32, 0xff); else if (k == 2) { r = unhex(NH); r[31] = (uint8_t)(r[31] + g.draw(3)); if (g.boolean()) r[31] = (uint8_t)(r[31] - 6); } else if (k == 3) { r = Bytes(32, 0); r[31] = (uint8_t)g.draw(3); }
    return r;
}
struct Key {
    CRYPT_EAL_PkeyCtx *c = nullptr;
    Key() : c(CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_SM9)) {}
    Key(CRYPT_EAL_PkeyCtx *x) : c(x) {}
    Key(const Key &) = delete;
    ~Key() { CRYPT_EAL_PkeyFreeCtx(c); }
    int32_t pub(int32_t type, const Bytes *msk, const Bytes *mpk, const Bytes *id)
    {
        BSL_Param p[6] = {}; int n = 0; Exact a(msk ? *msk : Bytes()), b(mpk ? *mpk : Bytes()), d(id ? *id : Bytes());
        if (msk) { BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_MASTER_KEY, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)msk->size()); }
        if (mpk) { BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_MASTER_PUB_KEY, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)mpk->size()); }
        if (id) { BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_USER_ID, BSL_PARAM_TYPE_OCTETS, d.p, (uint32_t)id->size()); }
        BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_KEY_TYPE, BSL_PARAM_TYPE_INT32, &type, sizeof type);
        return CRYPT_EAL_PkeySetPubEx(c, p);
    }
    int32_t prv(int32_t type, const Bytes *id)
    {
        BSL_Param p[4] = {}; int n = 0; Exact d(id ? *id : Bytes());
        if (id) { BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_USER_ID, BSL_PARAM_TYPE_OCTETS, d.p, (uint32_t)id->size()); }
        BSL_PARAM_InitValue(&p[n++], CRYPT_PARAM_SM9_KEY_TYPE, BSL_PARAM_TYPE_INT32, &type, sizeof type);
        return CRYPT_EAL_PkeySetPrvEx(c, p);
    }
    Bytes get(bool prv, int32_t type, size_t n)
    {
        BSL_Param p[3] = {}; Exact o(n); BSL_PARAM_InitValue(&p[0], prv ? CRYPT_PARAM_SM9_USER_KEY : CRYPT_PARAM_SM9_MASTER_PUB_KEY, BSL_PARAM_TYPE_OCTETS, o.p, (uint32_t)n);
        BSL_PARAM_InitValue(&p[1], CRYPT_PARAM_SM9_KEY_TYPE, BSL_PARAM_TYPE_INT32, &type, sizeof type);
        int32_t r = prv ? CRYPT_EAL_PkeyGetPrvEx(c, p) : CRYPT_EAL_PkeyGetPubEx(c, p); CHECK(r == CRYPT_SUCCESS, "c13-get", "export of the %s key failed 0x%x", prv ? "user" : "master public", r);
        CHECK(p[0].useLen == n, "c13-getlen", "exported length %u, expected %zu", p[0].useLen, n); return Bytes(o.p, o.p + n);
    }
    int32_t sign(const Bytes &m, Bytes &s, uint32_t room) { Exact i(m), o(room); uint32_t n = room; int32_t r = CRYPT_EAL_PkeySign(c, CRYPT_MD_SM3, i.p, (uint32_t)m.size(), o.p, &n); if (r == CRYPT_SUCCESS) s.assign(o.p, o.p + n); return r; }
    int32_t verify(const Bytes &m, const Bytes &s) { Exact i(m), t(s); return CRYPT_EAL_PkeyVerify(c, CRYPT_MD_SM3, i.p, (uint32_t)m.size(), t.p, (uint32_t)s.size()); }
    int32_t enc(const Bytes &m, Bytes &o, uint32_t room) { Exact i(m), b(room); uint32_t n = room; int32_t r = CRYPT_EAL_PkeyEncrypt(c, i.p, (uint32_t)m.size(), b.p, &n); if (r == CRYPT_SUCCESS) o.assign(b.p, b.p + n); return r; }
    int32_t dec(const Bytes &m, Bytes &o, uint32_t room) { Exact i(m), b(room); uint32_t n = room; int32_t r = CRYPT_EAL_PkeyDecrypt(c, i.p, (uint32_t)m.size(), b.p, &n); if (r == CRYPT_SUCCESS) o.assign(b.p, b.p + n); return r; }
    int32_t setId(const Bytes &id) { Exact i(id); return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_SM9_USER_ID, i.p, (uint32_t)id.size()); }
};
Bytes msg(G &g, bool one) { Bytes m = g.bytes((size_t)g.pick<uint64_t>({1, 31, 32, 33, 64, g.range(1, 200), g.range(1, 2000)})); if (one && m.empty()) m.push_back(1); return m; }
Bytes flip(G &g, Bytes b) { size_t i = (size_t)g.draw(b.size() * 8 - 1); b[i / 8] ^= (uint8_t)(1 << (i % 8)); return b; }
}
void pbt::setup()
{
    CRYPT_EAL_SetRandCallBack(fixRand); CRYPT_EAL_SetRandCallBackEx(fixRandEx);
    B k; BN_copy(k.b, N().b); Bytes one = ser(powG(k)); one[383] ^= 1; for (auto b : one) if (b) { fprintf(stderr, "reference constant has wrong order\n"); abort(); }
}
PBT_TEST(sign, 500, 20000, 0, 300)
{
    B ks = genMaster(g); Bytes id = genId(g), m = msg(g, true), msk = ks.out(); gRnd = genRnd(g); B r = nonce(gRnd); if (r.zero()) discard();
    g.note("ks %s\nid %s\nmsg %s\nrnd %s", hex(msk).c_str(), hex(id).c_str(), hex(m).c_str(), hex(gRnd).c_str());
    Key k; CHECK(k.pub(1, &msk, nullptr, g.boolean() ? &id : nullptr) == CRYPT_SUCCESS, "c13-setpub", "master key refused");
    Bytes mpk = toBytes(mulG2(ks)); CHECK(k.get(false, 1, 128) == mpk, "c13-mpk", "master public key is not [ks]P2");
    CHECK(k.prv(1, &id) == CRYPT_SUCCESS, "c13-extract", "user key extraction failed"); CHECK(k.get(true, 1, 64) == mulG1(userT(ks, id, 1)), "c13-usk", "user signing key is not [ks/(H1+ks)]P1");
    RefSig ref = refSign(ks, id, m, r); Bytes s; uint32_t room = g.chance(1, 4) ? 96 + (uint32_t)g.draw(20) : 96; Key *signer = &k; Key dup(nullptr);
    if (g.chance(1, 5)) { dup.c = CRYPT_EAL_PkeyDupCtx(k.c); CHECK(dup.c, "c13-dup", "duplication failed"); CHECK(CRYPT_EAL_PkeyCmp(dup.c, k.c) == CRYPT_SUCCESS, "c13-dupcmp", "a duplicate compares different"); signer = &dup; g.label("dup"); }
    int32_t e = signer->sign(m, s, room); CHECK(e == CRYPT_SUCCESS, "c13-sign", "signing failed 0x%x", e);
    CHECK(s == ref.sig, "c13-sig", "signature differs from the reference\n%s\n%s", hex(s).c_str(), hex(ref.sig).c_str());
    // a verifier that only knows the master public key and the identity
    Key v; CHECK(v.pub(1, nullptr, &mpk, g.boolean() ? &id : nullptr) == CRYPT_SUCCESS && v.setId(id) == CRYPT_SUCCESS, "c13-verifier", "public key refused");
    CHECK(v.verify(m, s) == CRYPT_SUCCESS, "c13-verify", "a correct signature is refused");
    B r2(g.bytes(32)); BN_nnmod(r2.b, r2.b, N().b, bc()); if (r2.zero()) BN_one(r2.b); CHECK(v.verify(m, refSign(ks, id, m, r2).sig) == CRYPT_SUCCESS, "c13-verify2", "a reference signature is refused");
    CHECK(k.verify(m, s) == CRYPT_SUCCESS, "c13-selfverify", "the signer refuses its own signature");
    { Bytes t; CHECK(k.sign(m, t, 95) != CRYPT_SUCCESS, "c13-short", "signing into 95 bytes succeeded"); }
    Key pubonly; Bytes t; CHECK(pubonly.pub(1, nullptr, &mpk, &id) == CRYPT_SUCCESS && pubonly.sign(m, t, 96) != CRYPT_SUCCESS, "c13-pubsign", "a context without user key signs");
    g.nontrivial();
}
PBT_TEST(forge, 700, 30000, 0, 300)
{
    B ks = genMaster(g), r(g.bytes(32)); Bytes id = genId(g), m = msg(g, true), mpk = toBytes(mulG2(ks)); gRnd = genRnd(g); BN_nnmod(r.b, r.b, N().b, bc()); if (r.zero()) BN_one(r.b);
    Bytes s = refSign(ks, id, m, r).sig, s2 = s, m2 = m, id2 = id, mpk2 = mpk; int k = g.weighted({3, 3, 2, 2, 2, 2, 1, 1, 1, 2, 1});
    Bytes hb(s.begin(), s.begin() + 32), xb(s.begin() + 32, s.begin() + 64), yb(s.begin() + 64, s.end()); auto plus = [&](const Bytes &v, const B &p) { B b(v); BN_add(b.b, b.b, p.b); if (BN_num_bits(b.b) > 256) discard(); return b.out(); };
    switch (k) {
    case 0: s2 = flip(g, s); break;
    case 1: m2 = flip(g, m); break;
    case 2: id2 = flip(g, id); break;
    case 3: if (id.size() < 256 && g.boolean()) { id2.push_back((uint8_t)g.draw(255)); } else if (id.size() > 1) id2.pop_back(); else discard(); break;
    case 4: { B o = genMaster(g); if (BN_cmp(o.b, ks.b) == 0) discard(); mpk2 = toBytes(mulG2(o)); break; }
    case 5: if (g.boolean()) m2.push_back((uint8_t)g.draw(255)); else if (m.size() > 1) m2.pop_back(); else discard(); break;
    case 6: s2 = cat({plus(hb, N()), xb, yb}); break;
    case 7: s2 = cat({hb, plus(xb, Q()), yb}); break;
    case 8: s2 = cat({hb, xb, plus(yb, Q())}); break;
    case 9: { int j = (int)g.draw(5); B y(yb), z; BN_sub(z.b, Q().b, y.b); Bytes zero(32, 0); s2 = j == 0 ? cat({hb, xb, z.out()}) : j == 1 ? cat({zero, xb, yb}) : j == 2 ? cat({hb, zero, zero}) : j == 3 ? cat({N().out(), xb, yb}) : j == 4 ? cat({hb, mulG1(r)}) : refSign(ks, id, m, add(r, B(1ul), N())).sig; if (j == 5) { Bytes o = s2; s2 = cat({hb, Bytes(o.begin() + 32, o.end())}); } break; }
    default: if (g.boolean()) s2.resize((size_t)g.draw(95)); else s2.push_back(0); if (s2.empty()) s2.push_back(0); break;
    }
    g.note("kind %d\nks %s\nid %s\nmsg %s\nr %s\nsig %s", k, hex(ks.out()).c_str(), hex(id).c_str(), hex(m).c_str(), hex(r.out()).c_str(), hex(s2).c_str()); g.label("kind" + std::to_string(k));
    Key v; CHECK(v.pub(1, nullptr, &mpk2, &id2) == CRYPT_SUCCESS, "c13-verifier", "public key refused");
    CHECK(v.verify(m2, s2) != CRYPT_SUCCESS, "c13-forged", "an altered signature, message, identity or master key (kind %d) is accepted", k);
    g.nontrivial();
}
PBT_TEST(crypt, 700, 30000, 0, 300)
{
    B ke = genMaster(g); Bytes id = genId(g), m = msg(g, true), msk = ke.out(); gRnd = genRnd(g); B r = nonce(gRnd); if (r.zero()) discard();
    g.note("ke %s\nid %s\nmsg %s\nrnd %s", hex(msk).c_str(), hex(id).c_str(), hex(m).c_str(), hex(gRnd).c_str());
    Bytes mpk = mulG1(ke); if (add(h1(id, 3), ke, N()).zero()) discard();
    Key k; CHECK(k.pub(2, &msk, nullptr, g.boolean() ? &id : nullptr) == CRYPT_SUCCESS, "c13-setpub", "master key refused"); CHECK(k.get(false, 2, 64) == mpk, "c13-empk", "master public key is not [ke]P1");
    CHECK(k.prv(2, &id) == CRYPT_SUCCESS, "c13-extract", "user key extraction failed"); CHECK(k.get(true, 2, 128) == toBytes(mulG2(userT(ke, id, 3))), "c13-uek", "user key is not [ke/(H1+ke)]P2");
    RefEnc ref = refEnc(ke, id, m, r); Key s; CHECK(s.pub(2, nullptr, &mpk, g.boolean() ? &id : nullptr) == CRYPT_SUCCESS && s.setId(id) == CRYPT_SUCCESS, "c13-sender", "public key refused");
    Bytes c, o; uint32_t need = (uint32_t)m.size() + 96; int32_t e = s.enc(m, c, g.chance(1, 4) ? need + (uint32_t)g.draw(40) : need);
    if (ref.zeroK) { CHECK(e != CRYPT_SUCCESS, "c13-zerok", "a key stream of zeros was used"); g.label("zero K1"); return; }
    CHECK(e == CRYPT_SUCCESS, "c13-enc", "encryption failed 0x%x", e); CHECK(c == ref.ct, "c13-ct", "ciphertext differs from the reference\n%s\n%s", hex(c).c_str(), hex(ref.ct).c_str());
    e = k.dec(c, o, (uint32_t)m.size() + (g.chance(1, 4) ? (uint32_t)g.draw(40) : 0)); CHECK(e == CRYPT_SUCCESS && o == m, "c13-dec", "decryption gives 0x%x, %s", e, hex(o).c_str());
    B r2(g.bytes(32)); BN_nnmod(r2.b, r2.b, N().b, bc()); if (r2.zero()) BN_one(r2.b); RefEnc x = refEnc(ke, id, m, r2); if (!x.zeroK) { e = k.dec(x.ct, o, (uint32_t)m.size()); CHECK(e == CRYPT_SUCCESS && o == m, "c13-dec2", "a reference ciphertext decrypts to 0x%x", e); }
    CHECK(s.enc(m, o, need - 1) != CRYPT_SUCCESS, "c13-encshort", "encryption into a short buffer"); if (m.size() > 1) CHECK(k.dec(c, o, (uint32_t)m.size() - 1) != CRYPT_SUCCESS, "c13-decshort", "decryption into a short buffer");
    CHECK(s.dec(c, o, need) != CRYPT_SUCCESS, "c13-pubdec", "a context without user key decrypts");
    // alterations
    Bytes c2 = c; int a = (int)g.draw(5); bool other = false;
    if (a == 0) c2 = flip(g, c); else if (a == 1) c2.resize((size_t)g.range(1, c.size() - 1)); else if (a == 2) c2.push_back((uint8_t)g.draw(255));
    else if (a == 3) { Bytes p = mulG1(add(r, B(1ul), N())); std::copy(p.begin(), p.end(), c2.begin()); if (c2 == c) discard(); } else other = true;
    if (!other) { CHECK(k.dec(c2, o, need) != CRYPT_SUCCESS, "c13-ctaltered", "an altered ciphertext (kind %d) decrypts", a); }
    else {
        B ke2 = a == 4 ? genMaster(g) : ke; Bytes id2 = a == 5 ? flip(g, id) : id, msk2 = ke2.out(); if (BN_cmp(ke2.b, ke.b) == 0 && id2 == id) discard();
        Key w; CHECK(w.pub(2, &msk2, nullptr, nullptr) == CRYPT_SUCCESS && w.prv(2, &id2) == CRYPT_SUCCESS, "c13-extract", "other user's key"); CHECK(w.dec(c, o, need) != CRYPT_SUCCESS, "c13-otherkey", "another %s decrypts", a == 4 ? "authority's key" : "user");
    }
    g.nontrivial();
}
PBT_TEST(keys, 300, 10000, 0, 300)
{
    B k = genMaster(g), one(1ul); Bytes id = genId(g), msk = k.out(); gRnd = genRnd(g); int t = g.boolean() ? 1 : 2; int a = (int)g.draw(6); g.note("kind %d type %d id %s k %s", a, t, hex(id).c_str(), hex(msk).c_str()); g.label("kind" + std::to_string(a));
    Bytes mpk = t == 1 ? toBytes(mulG2(k)) : mulG1(k); Key x;
    if (a == 0) { Bytes p = flip(g, mpk); CHECK(x.pub(t, nullptr, &p, &id) != CRYPT_SUCCESS, "c13-badpub", "a master public key off the curve is accepted"); }
    else if (a == 1) { Bytes p = mpk; if (g.boolean()) p.pop_back(); else p.push_back(0); CHECK(x.pub(t, nullptr, &p, &id) != CRYPT_SUCCESS, "c13-badpublen", "a master public key of wrong length is accepted"); Bytes q = msk; if (g.boolean()) q.pop_back(); else q.push_back(0); CHECK(x.pub(t, &q, nullptr, &id) != CRYPT_SUCCESS, "c13-badmsklen", "a master key of wrong length is accepted"); }
    else if (a == 2) { Bytes big = g.bytes(257 + (size_t)g.draw(40)); CHECK(x.pub(t, &msk, nullptr, nullptr) == CRYPT_SUCCESS, "c13-setpub", "master key refused"); CHECK(x.prv(t, &big) != CRYPT_SUCCESS && x.setId(big) != CRYPT_SUCCESS && x.pub(t, &msk, nullptr, &big) != CRYPT_SUCCESS, "c13-longid", "an identity of %zu bytes is accepted", big.size()); }
    else if (a == 3) { B h = h1(id, t == 1 ? 1 : 3), n; BN_sub(n.b, N().b, h.b); if (n.zero()) discard(); Bytes bad = n.out(); CHECK(x.pub(t, &bad, nullptr, nullptr) == CRYPT_SUCCESS, "c13-setpub", "master key refused"); CHECK(x.prv(t, &id) != CRYPT_SUCCESS, "c13-t1zero", "extraction succeeds although H1 + k = 0 mod N"); }
    else if (a == 4) { CHECK(x.prv(t, &id) != CRYPT_SUCCESS, "c13-nomaster", "extraction without master key"); Bytes o; CHECK(x.sign(id, o, 96) != CRYPT_SUCCESS && x.enc(id, o, 400) != CRYPT_SUCCESS && x.verify(id, Bytes(96, 1)) != CRYPT_SUCCESS, "c13-empty", "an empty context works"); Key y; CHECK(y.pub(t, &msk, nullptr, nullptr) == CRYPT_SUCCESS && y.prv(t, nullptr) != CRYPT_SUCCESS, "c13-noid", "extraction without identity"); }
    else if (a == 5) { // generated keys: both systems work for the identity
        CHECK(x.setId(id) == CRYPT_SUCCESS && CRYPT_EAL_PkeyGen(x.c) == CRYPT_SUCCESS, "c13-gen", "key generation failed"); Bytes p1 = x.get(false, 1, 128), p2 = x.get(false, 2, 64), m = msg(g, true), s, c, o; Key v; gRnd = g.bytes(32);
        CHECK(v.pub(1, nullptr, &p1, &id) == CRYPT_SUCCESS && v.pub(2, nullptr, &p2, &id) == CRYPT_SUCCESS, "c13-genpub", "generated public keys are refused"); CHECK(x.sign(m, s, 96) == CRYPT_SUCCESS && v.verify(m, s) == CRYPT_SUCCESS, "c13-gensig", "signature under generated keys"); CHECK(v.verify(flip(g, m), s) != CRYPT_SUCCESS, "c13-genforge", "altered message accepted");
        int32_t e = v.enc(m, c, (uint32_t)m.size() + 96); if (m.size() > 8) CHECK(e == CRYPT_SUCCESS && x.dec(c, o, (uint32_t)m.size()) == CRYPT_SUCCESS && o == m, "c13-genenc", "encryption under generated keys");
    } else { // comparison and pair check
        B k2 = genMaster(g); Key y, z; bool same = g.boolean(); if (same) k2 = k; else if (BN_cmp(k.b, k2.b) == 0) discard(); Bytes msk2 = k2.out();
        CHECK(x.pub(t, &msk, nullptr, &id) == CRYPT_SUCCESS && y.pub(t, &msk2, nullptr, &id) == CRYPT_SUCCESS, "c13-setpub", "master key refused"); CHECK((CRYPT_EAL_PkeyCmp(x.c, y.c) == CRYPT_SUCCESS) == same, "c13-cmp", "comparison says %s", same ? "different" : "equal");
        CHECK(y.prv(t, &id) == CRYPT_SUCCESS, "c13-extract", "extraction"); if (same) CHECK(CRYPT_EAL_PkeyPairCheck(x.c, y.c) == CRYPT_SUCCESS, "c13-pair", "a matching pair is refused"); Bytes id2 = flip(g, id); CHECK(z.pub(t, &msk, nullptr, &id2) == CRYPT_SUCCESS && CRYPT_EAL_PkeyPairCheck(z.c, y.c) != CRYPT_SUCCESS, "c13-pairid", "a pair of different identities is accepted");
    }
    g.nontrivial();
}
