// OpenSSL big-number / curve helpers used as the reference for prime-curve properties
#pragma once
#include "vh.hpp"
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/obj_mac.h>
namespace oec {
inline BN_CTX *bc() { static BN_CTX *c = BN_CTX_new(); return c; }
struct N {  // value-semantics integer
    BIGNUM *b;
    N() : b(BN_new()) {}
    N(uint64_t v) : b(BN_new()) { BN_set_word(b, v); }
    N(int v) : b(BN_new()) { BN_set_word(b, (unsigned)v); }
    explicit N(const Bytes &v) : b(BN_bin2bn(v.data(), (int)v.size(), nullptr)) {}
    explicit N(const BIGNUM *x) : b(BN_dup(x)) {}
    N(const N &o) : b(BN_dup(o.b)) {}
    N &operator=(const N &o) { BN_copy(b, o.b); return *this; }
    ~N() { BN_clear_free(b); }
    N operator+(const N &o) const { N r; BN_add(r.b, b, o.b); return r; }
    N operator-(const N &o) const { N r; BN_sub(r.b, b, o.b); return r; }
    N operator*(const N &o) const { N r; BN_mul(r.b, b, o.b, bc()); return r; }
    N operator%(const N &o) const { N r; BN_nnmod(r.b, b, o.b, bc()); return r; }
    N operator>>(int k) const { N r; BN_rshift(r.b, b, k); return r; }
    N operator<<(int k) const { N r; BN_lshift(r.b, b, k); return r; }
    N inv(const N &m) const { N r; if (!BN_mod_inverse(r.b, b, m.b, bc())) BN_zero(r.b); return r; }
    N pow(const N &e, const N &m) const { N r; BN_mod_exp(r.b, b, e.b, m.b, bc()); return r; }
    bool zero() const { return BN_is_zero(b); }
    bool neg() const { return BN_is_negative(b); }
    int cmp(const N &o) const { return BN_cmp(b, o.b); }
    bool operator==(const N &o) const { return cmp(o) == 0; }
    bool operator!=(const N &o) const { return cmp(o) != 0; }
    bool operator<(const N &o) const { return cmp(o) < 0; }
    bool operator>=(const N &o) const { return cmp(o) >= 0; }
    Bytes bin(int len = -1) const { if (len < 0) len = BN_num_bytes(b); Bytes o(len); if (BN_bn2binpad(b, o.data(), len) < 0) abort(); return o; }
    int bits() const { return BN_num_bits(b); }
    std::string str() const { char *s = BN_bn2hex(b); std::string r(s); OPENSSL_free(s); return r; }
};
struct Curve {
    int nid; const char *name; int32_t id; EC_GROUP *grp; N p, a, b, n; int fl;
    Curve(int nid_, const char *nm, int32_t cid) : nid(nid_), name(nm), id(cid), grp(EC_GROUP_new_by_curve_name(nid_))
    {
        EC_GROUP_get_curve(grp, p.b, a.b, b.b, bc()); EC_GROUP_get_order(grp, n.b, bc()); fl = (p.bits() + 7) / 8;
    }
};
inline std::vector<Curve> &curves()
{
    static std::vector<Curve> *v = [] { auto *w = new std::vector<Curve>(); w->reserve(9);
        w->emplace_back(NID_X9_62_prime256v1, "P-256", CRYPT_ECC_NISTP256); w->emplace_back(NID_secp384r1, "P-384", CRYPT_ECC_NISTP384); w->emplace_back(NID_secp521r1, "P-521", CRYPT_ECC_NISTP521);
        w->emplace_back(NID_secp224r1, "P-224", CRYPT_ECC_NISTP224); w->emplace_back(NID_X9_62_prime192v1, "P-192", CRYPT_ECC_NISTP192); w->emplace_back(NID_brainpoolP256r1, "BP-256", CRYPT_ECC_BRAINPOOLP256R1);
        w->emplace_back(NID_brainpoolP384r1, "BP-384", CRYPT_ECC_BRAINPOOLP384R1); w->emplace_back(NID_brainpoolP512r1, "BP-512", CRYPT_ECC_BRAINPOOLP512R1); w->emplace_back(NID_sm2, "SM2", CRYPT_ECC_SM2);
        return w; }();
    return *v;
}
struct Pt {
    const Curve *c; EC_POINT *q;
    explicit Pt(const Curve &cc) : c(&cc), q(EC_POINT_new(cc.grp)) { EC_POINT_set_to_infinity(c->grp, q); }
    Pt(const Pt &o) : c(o.c), q(EC_POINT_dup(o.q, o.c->grp)) {}
    Pt &operator=(const Pt &o) { EC_POINT_copy(q, o.q); c = o.c; return *this; }
    ~Pt() { EC_POINT_free(q); }
    bool inf() const { return EC_POINT_is_at_infinity(c->grp, q); }
    Bytes enc(point_conversion_form_t f = POINT_CONVERSION_UNCOMPRESSED) const { Bytes o(2 * c->fl + 1); size_t l = EC_POINT_point2oct(c->grp, q, f, o.data(), o.size(), bc()); o.resize(l); return o; }
    bool dec(const Bytes &b) { ERR_set_mark(); bool ok = EC_POINT_oct2point(c->grp, q, b.data(), b.size(), bc()) == 1; ERR_pop_to_mark(); return ok; }
    N x() const { N r, y; EC_POINT_get_affine_coordinates(c->grp, q, r.b, y.b, bc()); return r; }
    N y() const { N r, y; EC_POINT_get_affine_coordinates(c->grp, q, r.b, y.b, bc()); return y; }
};
// u*G + v*Q
inline Pt mul(const Curve &c, const N &u, const Pt *q = nullptr, const N *v = nullptr) { Pt r(c); EC_POINT_mul(c.grp, r.q, u.b, q ? q->q : nullptr, v ? v->b : nullptr, bc()); return r; }
inline bool fromX(const Curve &c, const N &x, int ybit, Pt &out) { ERR_set_mark(); bool ok = EC_POINT_set_compressed_coordinates(c.grp, out.q, x.b, ybit, bc()) == 1; ERR_pop_to_mark(); return ok; }
// boundary-biased scalar in [0, 2^(8*fl)) -- may be out of range
inline N rawScalar(G &g, const N &n)
{
    int nb = (n.bits() + 7) / 8;
    switch (g.weighted({4, 2, 2, 2, 2, 1})) {
        case 0: return N(g.bytes(nb)) % n;
        case 1: return N(1 + g.draw(40));
        case 2: return n - N(1 + g.draw(40));
        case 3: { N k(1); k = k << (int)g.draw(n.bits() - 1); return g.boolean() ? k : k - N(1 + g.draw(2)); }
        case 4: { Bytes b = g.bytes(nb); size_t st = g.draw(nb - 1), ln = 1 + g.draw(nb - 1); uint8_t v = g.boolean() ? 0 : 0xff; for (size_t i = st; i < b.size() && i < st + ln; i++) b[i] = v; return N(b) % n; }
        default: return (n >> 1) + N(g.draw(6)) - N(3);
    }
}
inline N scalar(G &g, const N &n) { N k = rawScalar(g, n); if (k.zero() || k.neg() || k >= n) return N(1); return k; }
inline Bytes derInt(const N &v) { Bytes b = v.bin(); if (b.empty()) b.push_back(0); if (b[0] & 0x80) b.insert(b.begin(), 0); Bytes o{2, (uint8_t)b.size()}; o.insert(o.end(), b.begin(), b.end()); return o; }
inline Bytes derSig(const N &r, const N &s) { Bytes c = cat(derInt(r), derInt(s)); Bytes o{0x30}; if (c.size() >= 0x80) o.push_back(0x81); o.push_back((uint8_t)c.size()); return cat(o, c); }
// definite-length BER view of the signature; strict: exactly the DER encoding
inline bool ber(const uint8_t *&p, const uint8_t *e, uint8_t tag, const uint8_t *&v, size_t &l)
{
    if (e - p < 2 || *p++ != tag) return false; l = *p++; if (l == 0x80 || l > 0x84) return false;
    if (l & 0x80) { int k = l & 0x7f; if (e - p < k) return false; l = 0; while (k--) l = l << 8 | *p++; }
    if ((size_t)(e - p) < l) return false; v = p; p += l; return true;
}
inline bool parseSig(const Bytes &b, N &r, N &s, bool *strict = nullptr)
{
    const uint8_t *p = b.data(), *e = p + b.size(), *v, *rv, *sv; size_t l, rl, sl;
    if (!ber(p, e, 0x30, v, l) || p != e) return false; p = v; e = v + l;
    if (!ber(p, e, 2, rv, rl) || !ber(p, e, 2, sv, sl) || p != e || !rl || !sl || (rv[0] & 0x80) || (sv[0] & 0x80)) return false;
    r = N(Bytes(rv, rv + rl)); s = N(Bytes(sv, sv + sl)); bool st = derSig(r, s) == b; if (strict) *strict = st; return strict || st;
}
// scripted prefix for the library's random source, then the case stream
inline Bytes &script() { static Bytes b; return b; }
inline size_t &scriptPos() { static size_t p; return p; }
inline int32_t scrRand(uint8_t *r, uint32_t n) { for (uint32_t i = 0; i < n; i++) { if (scriptPos() < script().size()) r[i] = script()[scriptPos()++]; else caseRand(r + i, 1); } return CRYPT_SUCCESS; }
inline int32_t scrRandEx(void *, uint8_t *r, uint32_t n) { return scrRand(r, n); }
inline void setScript(const Bytes &b) { script() = b; scriptPos() = 0; }
inline void useScrRand() { CRYPT_EAL_SetRandCallBack(scrRand); CRYPT_EAL_SetRandCallBackEx(scrRandEx); }
}
