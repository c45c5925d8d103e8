// Independent FIPS 205 (SLH-DSA) reference: verification and root computation (a signature that verifies under a known key and carries the
// right R is the unique FIPS 205 signature for that randomizer, so no reference signer is needed to decide bit-exactness).
#pragma once
#include "pqref.hpp"
#include <openssl/sha.h>
#include <openssl/hmac.h>
namespace slh {
typedef pq::B B;
struct Par { const char *name; bool sha2; uint32_t n, h, d, hp, a, k, m; size_t sig; bool c1() const { return n == 16; } size_t len() const { return 2 * n + 3; } };
inline std::vector<Par> pars() { std::vector<Par> v; static const uint32_t T[6][8] = {{16, 63, 7, 9, 12, 14, 30, 7856}, {16, 66, 22, 3, 6, 33, 34, 17088}, {24, 63, 7, 9, 14, 17, 39, 16224}, {24, 66, 22, 3, 8, 33, 42, 35664}, {32, 64, 8, 8, 14, 22, 47, 29792}, {32, 68, 17, 4, 9, 35, 49, 49856}}; for (int s = 0; s < 2; s++) for (auto &t : T) v.push_back({s ? "SHA2" : "SHAKE", s == 1, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]}); return v; }
struct Adrs { uint8_t b[32] = {0}; void u32(int o, uint32_t v) { for (int i = 0; i < 4; i++) b[o + i] = (uint8_t)(v >> (24 - 8 * i)); } void layer(uint32_t v) { u32(0, v); } void tree(uint64_t v) { u32(4, 0); u32(8, (uint32_t)(v >> 32)); u32(12, (uint32_t)v); } void type(uint32_t t) { u32(16, t); memset(b + 20, 0, 12); } void kp(uint32_t v) { u32(20, v); } void w1(uint32_t v) { u32(24, v); } void w2(uint32_t v) { u32(28, v); } };
struct Ctx {
    Par p; B pkSeed, skSeed;
    void tw(bool big, const Adrs &a, const uint8_t *m, size_t ml, uint8_t *o) const {   // F/H/T/PRF: one tweakable hash
        if (!p.sha2) { pq::Sponge s(136, 0x1f); s.add(pkSeed).add(a.b, 32).add(m, ml); s.get(o, p.n); return; }
        uint8_t c[22]; c[0] = a.b[3]; memcpy(c + 1, a.b + 8, 8); c[9] = a.b[19]; memcpy(c + 10, a.b + 20, 12); uint8_t z[128] = {0}, d[64];
        if (big && !p.c1()) { SHA512_CTX x; SHA512_Init(&x); SHA512_Update(&x, pkSeed.data(), p.n); SHA512_Update(&x, z, 128 - p.n); SHA512_Update(&x, c, 22); SHA512_Update(&x, m, ml); SHA512_Final(d, &x); }
        else { SHA256_CTX x; SHA256_Init(&x); SHA256_Update(&x, pkSeed.data(), p.n); SHA256_Update(&x, z, 64 - p.n); SHA256_Update(&x, c, 22); SHA256_Update(&x, m, ml); SHA256_Final(d, &x); }
        memcpy(o, d, p.n);
    }
    void chain(uint8_t *x, uint32_t i, uint32_t s, Adrs &a) const { for (uint32_t j = i; j < i + s; j++) { a.w2(j); tw(false, a, x, p.n, x); } }
    std::vector<uint32_t> digits(const uint8_t *m) const { std::vector<uint32_t> v; uint32_t cs = 0; for (uint32_t i = 0; i < p.n; i++) { v.push_back(m[i] >> 4); v.push_back(m[i] & 15); } for (auto x : v) cs += 15 - x; v.push_back(cs >> 8 & 15); v.push_back(cs >> 4 & 15); v.push_back(cs & 15); return v; }
    B wotsPk(const uint8_t *sig, const uint8_t *m, Adrs a) const { auto dg = digits(m); B t; Adrs pa = a; for (uint32_t i = 0; i < p.len(); i++) { B x(sig + i * p.n, sig + (i + 1) * p.n); a.w1(i); chain(x.data(), dg[i], 15 - dg[i], a); pq::app(t, x); } uint32_t kpv = (uint32_t)a.b[20] << 24 | a.b[21] << 16 | a.b[22] << 8 | a.b[23]; pa.type(1); pa.kp(kpv); B o(p.n); tw(true, pa, t.data(), t.size(), o.data()); return o; }
    B leaf(uint32_t i, Adrs a) const { B t; a.type(0); a.kp(i); Adrs s = a; s.type(5); s.kp(i); for (uint32_t j = 0; j < p.len(); j++) { s.w1(j); B x(p.n); tw(false, s, skSeed.data(), p.n, x.data()); a.w1(j); chain(x.data(), 0, 15, a); pq::app(t, x); } a.type(1); a.kp(i); B o(p.n); tw(true, a, t.data(), t.size(), o.data()); return o; }
    B node(const B &l, const B &r, Adrs &a) const { B t = l; pq::app(t, r); B o(p.n); tw(true, a, t.data(), t.size(), o.data()); return o; }
    B root() const { Adrs a; a.layer(p.d - 1); std::vector<B> v; for (uint32_t i = 0; i < 1u << p.hp; i++) v.push_back(leaf(i, a)); a.type(2); for (uint32_t z = 1; v.size() > 1; z++) { std::vector<B> w; for (uint32_t i = 0; i < v.size() / 2; i++) { a.w1(z); a.w2(i); w.push_back(node(v[2 * i], v[2 * i + 1], a)); } v = w; } return v[0]; }
    B hmsg(const B &R, const B &root, const B &M) const { B in = R; pq::app(in, pkSeed); if (!p.sha2) { pq::app(in, root); pq::app(in, M); return pq::shake256(in, p.m); } B i2 = in; pq::app(i2, root); pq::app(i2, M); const char *h = p.c1() ? "SHA256" : "SHA512"; pq::app(in, osslMd(h, i2)); B o; for (uint8_t c = 0; o.size() < p.m; c++) { B t = in; pq::app(t, B{0, 0, 0, c}); pq::app(o, osslMd(h, t)); } o.resize(p.m); return o; }
    B prfMsg(const B &skPrf, const B &opt, const B &M) const { B in = opt; pq::app(in, M); if (!p.sha2) { B t = skPrf; pq::app(t, in); return pq::shake256(t, p.n); } uint8_t d[64]; unsigned l = 0; HMAC(p.c1() ? EVP_sha256() : EVP_sha512(), skPrf.data(), (int)p.n, in.data(), in.size(), d, &l); return B(d, d + p.n); }
    bool verify(const B &root, const B &M, const B &sig) const
    {
        if (sig.size() != p.sig) return false; B R = pq::sub(sig, 0, p.n), dg = hmsg(R, root, M); size_t mdl = (p.k * p.a + 7) / 8, tl = (p.h - p.hp + 7) / 8, ll = (p.hp + 7) / 8; uint64_t t = 0; uint32_t l = 0; for (size_t i = 0; i < tl; i++) t = t << 8 | dg[mdl + i]; for (size_t i = 0; i < ll; i++) l = l << 8 | dg[mdl + tl + i]; if (p.h - p.hp < 64) t &= (1ull << (p.h - p.hp)) - 1; l &= (1u << p.hp) - 1;
        Adrs a; a.tree(t); a.type(3); a.kp(l); const uint8_t *s = sig.data() + p.n; B roots; size_t bit = 0;
        for (uint32_t i = 0; i < p.k; i++) { uint32_t ix = 0; for (uint32_t j = 0; j < p.a; j++, bit++) ix = ix << 1 | ((dg[bit / 8] >> (7 - bit % 8)) & 1); uint32_t id = (i << p.a) + ix; a.w1(0); a.w2(id); B nd(p.n); tw(false, a, s, p.n, nd.data()); s += p.n; for (uint32_t j = 0; j < p.a; j++) { B au(s, s + p.n); s += p.n; a.w1(j + 1); id /= 2; a.w2(id); nd = (ix >> j & 1) ? node(au, nd, a) : node(nd, au, a); } pq::app(roots, nd); }
        Adrs f = a; f.type(4); f.kp(l); B nd(p.n); tw(true, f, roots.data(), roots.size(), nd.data());
        for (uint32_t j = 0; j < p.d; j++) { Adrs x; x.layer(j); x.tree(t); x.type(0); x.kp(l); nd = wotsPk(s, nd.data(), x); s += p.len() * p.n; x.type(2); uint32_t id = l; for (uint32_t z = 0; z < p.hp; z++) { B au(s, s + p.n); s += p.n; x.w1(z + 1); x.w2(id / 2); nd = (id & 1) ? node(au, nd, x) : node(nd, au, x); id /= 2; } l = (uint32_t)(t & ((1u << p.hp) - 1)); t = p.hp < 64 ? t >> p.hp : 0; }
        return nd == root;
    }
};
}
