// Independent reference implementations written from FIPS 202/203/204: plain, slow, no tricks shared with the library.
#pragma once
#include "vh.hpp"
namespace pq {
typedef Bytes B;
inline void keccakF(uint64_t s[25])
{
    static uint64_t RC[24]; static int R[25]; static bool init = false;
    if (!init) { // constants derived from the definition: LFSR for iota, the (t+1)(t+2)/2 rule for rho
        uint8_t l = 1; for (int i = 0; i < 24; i++) { RC[i] = 0; for (int j = 0; j < 7; j++) { if (l & 1) RC[i] |= 1ull << ((1 << j) - 1); l = (uint8_t)((l << 1) ^ ((l >> 7) * 0x71)); } }
        int x = 1, y = 0; R[0] = 0; for (int t = 0; t < 24; t++) { R[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } init = true;
    }
    auto rol = [](uint64_t v, int n) { return n ? v << n | v >> (64 - n) : v; };
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25]; for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        for (int x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) s[x + 5 * y] ^= d; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(s[x + 5 * y], R[x + 5 * y]);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) s[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        s[0] ^= RC[r];
    }
}
struct Sponge {
    uint64_t s[25] = {0}; size_t rate, pos = 0; uint8_t dom; bool sq = false; Sponge(size_t r, uint8_t d) : rate(r), dom(d) {}
    Sponge &add(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)s)[pos++] ^= p[i]; if (pos == rate) { keccakF(s); pos = 0; } } return *this; }
    Sponge &add(const B &b) { return add(b.data(), b.size()); } Sponge &add(uint8_t b) { return add(&b, 1); }
    void get(uint8_t *o, size_t n) { if (!sq) { ((uint8_t *)s)[pos] ^= dom; ((uint8_t *)s)[rate - 1] ^= 0x80; keccakF(s); pos = 0; sq = true; } for (size_t i = 0; i < n; i++) { if (pos == rate) { keccakF(s); pos = 0; } o[i] = ((uint8_t *)s)[pos++]; } }
    B get(size_t n) { B o(n); get(o.data(), n); return o; } uint8_t byte() { uint8_t b; get(&b, 1); return b; }
};
inline B shake256(const B &a, size_t n) { return Sponge(136, 0x1f).add(a).get(n); }
inline B shake128(const B &a, size_t n) { return Sponge(168, 0x1f).add(a).get(n); }
inline B sha3_256(const B &a) { return Sponge(136, 6).add(a).get(32); }
inline B sha3_512(const B &a) { return Sponge(72, 6).add(a).get(64); }
inline B sub(const B &b, size_t o, size_t n) { return B(b.begin() + (long)o, b.begin() + (long)(o + n)); }
inline void app(B &a, const B &b) { a.insert(a.end(), b.begin(), b.end()); }
struct BitW { B o; uint64_t acc = 0; int n = 0; void put(uint64_t v, int bits) { for (int i = 0; i < bits; i++) { acc |= (uint64_t)((v >> i) & 1) << n; if (++n == 8) { o.push_back((uint8_t)acc); acc = 0; n = 0; } } } };
struct BitR { const uint8_t *p; size_t i = 0; explicit BitR(const uint8_t *q) : p(q) {} uint32_t get(int bits) { uint32_t v = 0; for (int k = 0; k < bits; k++, i++) v |= (uint32_t)((p[i / 8] >> (i % 8)) & 1) << k; return v; } };
inline uint32_t brv(uint32_t v, int bits) { uint32_t r = 0; for (int i = 0; i < bits; i++) r |= ((v >> i) & 1) << (bits - 1 - i); return r; }
inline int64_t pw(int64_t b, uint32_t e, int64_t q) { int64_t r = 1; for (; e; e >>= 1, b = b * b % q) if (e & 1) r = r * b % q; return r; }
typedef std::vector<int64_t> Poly;
// ------------------------------------------------------------------------------------------------ ML-KEM
namespace kem {
static const int64_t Q = 3329;
struct Par { int k, e1, e2, du, dv; size_t ek() const { return 384u * (size_t)k + 32; } size_t dk() const { return 768u * (size_t)k + 96; } size_t ct() const { return 32u * (size_t)(du * k + dv); } };
static const Par P[3] = {{2, 3, 2, 10, 4}, {3, 2, 2, 10, 4}, {4, 2, 2, 11, 5}};
inline int64_t md(int64_t v) { v %= Q; return v < 0 ? v + Q : v; }
inline Poly ntt(Poly f) { uint32_t i = 1; for (int len = 128; len >= 2; len /= 2) for (int st = 0; st < 256; st += 2 * len) { int64_t z = pw(17, brv(i++, 7), Q); for (int j = st; j < st + len; j++) { int64_t t = z * f[(size_t)(j + len)] % Q; f[(size_t)(j + len)] = md(f[(size_t)j] - t); f[(size_t)j] = md(f[(size_t)j] + t); } } return f; }
inline Poly intt(Poly f) { uint32_t i = 127; for (int len = 2; len <= 128; len *= 2) for (int st = 0; st < 256; st += 2 * len) { int64_t z = pw(17, brv(i--, 7), Q); for (int j = st; j < st + len; j++) { int64_t t = f[(size_t)j]; f[(size_t)j] = md(t + f[(size_t)(j + len)]); f[(size_t)(j + len)] = md(z * (f[(size_t)(j + len)] - t)); } } for (auto &v : f) v = v * 3303 % Q; return f; }
inline void mac(Poly &h, const Poly &a, const Poly &b) { for (uint32_t i = 0; i < 128; i++) { int64_t g = pw(17, 2 * brv(i, 7) + 1, Q); h[2 * i] = md(h[2 * i] + a[2 * i] * b[2 * i] + a[2 * i + 1] * b[2 * i + 1] % Q * g); h[2 * i + 1] = md(h[2 * i + 1] + a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i]); } }
inline Poly sample(const B &rho, int j, int i) { Sponge x(168, 0x1f); x.add(rho).add((uint8_t)j).add((uint8_t)i); Poly a; while (a.size() < 256) { int c0 = x.byte(), c1 = x.byte(), c2 = x.byte(); int d1 = c0 + 256 * (c1 % 16), d2 = c1 / 16 + 16 * c2; if (d1 < Q) a.push_back(d1); if (d2 < Q && a.size() < 256) a.push_back(d2); } return a; }
inline Poly cbd(const B &s, int n, int eta) { B in = s; in.push_back((uint8_t)n); B b = shake256(in, 64u * (size_t)eta); BitR r(b.data()); Poly f(256); for (auto &v : f) { int64_t x = 0, y = 0; for (int i = 0; i < eta; i++) x += r.get(1); for (int i = 0; i < eta; i++) y += r.get(1); v = md(x - y); } return f; }
inline void enc(B &o, const Poly &f, int d) { BitW w; for (auto v : f) w.put((uint64_t)v, d); app(o, w.o); }
inline Poly dec(const uint8_t *p, int d) { BitR r(p); Poly f(256); for (auto &v : f) v = r.get(d); return f; }
inline Poly comp(Poly f, int d) { for (auto &v : f) v = ((2 * v << d) + Q) / (2 * Q) % (1 << d); return f; }
inline Poly decomp(Poly f, int d) { for (auto &v : f) v = (2 * v * Q + (1 << d)) / (1 << (d + 1)); return f; }
inline void keygen(const Par &p, const B &d, const B &z, B &ek, B &dk)
{
    B in = d; in.push_back((uint8_t)p.k); B g = sha3_512(in), rho = sub(g, 0, 32), sig = sub(g, 32, 32); int n = 0; std::vector<Poly> s, t; for (int i = 0; i < p.k; i++) s.push_back(ntt(cbd(sig, n++, p.e1))); for (int i = 0; i < p.k; i++) t.push_back(ntt(cbd(sig, n++, p.e1)));
    for (int i = 0; i < p.k; i++) for (int j = 0; j < p.k; j++) mac(t[(size_t)i], sample(rho, j, i), s[(size_t)j]);
    ek.clear(); dk.clear(); for (auto &f : t) enc(ek, f, 12); app(ek, rho); for (auto &f : s) enc(dk, f, 12); app(dk, ek); app(dk, sha3_256(ek)); app(dk, z);
}
inline B encrypt(const Par &p, const B &ek, const B &m, const B &r)
{
    std::vector<Poly> t, y; for (int i = 0; i < p.k; i++) t.push_back(dec(ek.data() + 384 * i, 12)); B rho = sub(ek, 384u * (size_t)p.k, 32); int n = 0; for (int i = 0; i < p.k; i++) y.push_back(ntt(cbd(r, n++, p.e1))); B c;
    for (int i = 0; i < p.k; i++) { Poly u(256), e = cbd(r, n++, p.e2); for (int j = 0; j < p.k; j++) mac(u, sample(rho, i, j), y[(size_t)j]); u = intt(u); for (size_t k = 0; k < 256; k++) u[k] = md(u[k] + e[k]); enc(c, comp(u, p.du), p.du); }
    Poly v(256), e2 = cbd(r, n, p.e2), mu = decomp(dec(m.data(), 1), 1); for (int j = 0; j < p.k; j++) mac(v, t[(size_t)j], y[(size_t)j]); v = intt(v); for (size_t k = 0; k < 256; k++) v[k] = md(v[k] + e2[k] + mu[k]); enc(c, comp(v, p.dv), p.dv); return c;
}
inline void encaps(const Par &p, const B &ek, const B &m, B &c, B &K) { B in = m; app(in, sha3_256(ek)); B g = sha3_512(in); K = sub(g, 0, 32); c = encrypt(p, ek, m, sub(g, 32, 32)); }
inline B decaps(const Par &p, const B &dk, const B &c, bool *rejected = nullptr)
{
    size_t k = (size_t)p.k; B ek = sub(dk, 384 * k, 384 * k + 32), h = sub(dk, 768 * k + 32, 32), z = sub(dk, 768 * k + 64, 32); Poly w(256); for (size_t i = 0; i < k; i++) { Poly u = ntt(decomp(dec(c.data() + 32u * (size_t)p.du * i, p.du), p.du)); mac(w, dec(dk.data() + 384 * i, 12), u); }
    w = intt(w); Poly v = decomp(dec(c.data() + 32u * (size_t)p.du * k, p.dv), p.dv); for (size_t i = 0; i < 256; i++) v[i] = md(v[i] - w[i]); B m; enc(m, comp(v, 1), 1); B in = m; app(in, h); B g = sha3_512(in); bool rej = encrypt(p, ek, m, sub(g, 32, 32)) != c; if (rejected) *rejected = rej; if (!rej) return sub(g, 0, 32); B j = z; app(j, c); return shake256(j, 32);
}
}  // namespace kem
// ------------------------------------------------------------------------------------------------ ML-DSA
namespace dsa {
static const int64_t Q = 8380417;
struct Par { int k, l, eta, tau, lam, omega; int64_t g1, g2; int beta() const { return tau * eta; } int eb() const { return eta == 2 ? 3 : 4; } int zb() const { return g1 == (1 << 17) ? 18 : 20; } int wb() const { return g2 == (Q - 1) / 88 ? 6 : 4; }
    size_t pk() const { return 32 + 320u * (size_t)k; } size_t sk() const { return 128 + 32u * (size_t)((l + k) * eb() + 13 * k); } size_t sig() const { return (size_t)lam / 4 + 32u * (size_t)(l * zb()) + (size_t)(omega + k); } };
static const Par P[3] = {{4, 4, 2, 39, 128, 80, 1 << 17, (Q - 1) / 88}, {6, 5, 4, 49, 192, 55, 1 << 19, (Q - 1) / 32}, {8, 7, 2, 60, 256, 75, 1 << 19, (Q - 1) / 32}};
inline int64_t md(int64_t v) { v %= Q; return v < 0 ? v + Q : v; }
inline int64_t cen(int64_t v) { v = md(v); return v > Q / 2 ? v - Q : v; }
inline const std::vector<int64_t> &zetas() { static std::vector<int64_t> z; if (z.empty()) for (uint32_t i = 0; i < 256; i++) z.push_back(pw(1753, brv(i, 8), Q)); return z; }
inline Poly ntt(Poly f) { for (auto &v : f) v = md(v); size_t m = 0; for (size_t len = 128; len >= 1; len /= 2) for (size_t st = 0; st < 256; st += 2 * len) { int64_t z = zetas()[++m]; for (size_t j = st; j < st + len; j++) { int64_t t = z * f[j + len] % Q; f[j + len] = md(f[j] - t); f[j] = md(f[j] + t); } } return f; }
inline Poly intt(Poly f) { size_t m = 256; for (size_t len = 1; len < 256; len *= 2) for (size_t st = 0; st < 256; st += 2 * len) { int64_t z = Q - zetas()[--m]; for (size_t j = st; j < st + len; j++) { int64_t t = f[j]; f[j] = md(t + f[j + len]); f[j + len] = md(z * md(t - f[j + len])); } } for (auto &v : f) v = v * 8347681 % Q; return f; }
inline void mac(Poly &h, const Poly &a, const Poly &b) { for (size_t i = 0; i < 256; i++) h[i] = md(h[i] + a[i] * b[i]); }
inline Poly mulN(const Poly &a, const Poly &b) { Poly h(256); mac(h, a, b); return h; }
inline Poly expandA(const B &rho, int r, int s) { Sponge x(168, 0x1f); x.add(rho).add((uint8_t)s).add((uint8_t)r); Poly a; while (a.size() < 256) { int64_t b0 = x.byte(), b1 = x.byte(), b2 = x.byte(); int64_t z = b0 | b1 << 8 | (b2 & 127) << 16; if (z < Q) a.push_back(z); } return a; }
inline Poly expandS(const Par &p, const B &rho, int r) { Sponge x(136, 0x1f); x.add(rho).add((uint8_t)r).add((uint8_t)(r >> 8)); Poly a; while (a.size() < 256) { int z = x.byte(); for (int h : {z & 15, z >> 4}) if (a.size() < 256) { if (p.eta == 2 && h < 15) a.push_back(2 - h % 5); else if (p.eta == 4 && h < 9) a.push_back(4 - h); } } return a; }
inline void bitpack(B &o, const Poly &f, int64_t b, int bits) { BitW w; for (auto v : f) w.put((uint64_t)(b - v), bits); app(o, w.o); }
inline Poly bitunpack(const uint8_t *p, int64_t b, int bits) { BitR r(p); Poly f(256); for (auto &v : f) v = b - (int64_t)r.get(bits); return f; }
inline void decompose(const Par &p, int64_t r, int64_t &r1, int64_t &r0) { r = md(r); int64_t a = 2 * p.g2; r0 = r % a; if (r0 > p.g2) r0 -= a; if (r - r0 == Q - 1) { r1 = 0; r0--; } else r1 = (r - r0) / a; }
inline int64_t useHint(const Par &p, int h, int64_t r) { int64_t m = (Q - 1) / (2 * p.g2), r1, r0; decompose(p, r, r1, r0); if (!h) return r1; return r0 > 0 ? (r1 + 1) % m : (r1 + m - 1) % m; }
inline Poly ball(const Par &p, const B &c) { Sponge x(136, 0x1f); x.add(c); uint8_t s[8]; x.get(s, 8); Poly f(256); for (int i = 256 - p.tau; i < 256; i++) { int j; do j = x.byte(); while (j > i); f[(size_t)i] = f[(size_t)j]; int b = i + p.tau - 256; f[(size_t)j] = (s[b / 8] >> (b % 8)) & 1 ? -1 : 1; } return f; }
inline int64_t norm(const Poly &f) { int64_t m = 0; for (auto v : f) m = std::max(m, std::abs(cen(v))); return m; }
inline void keygen(const Par &p, const B &xi, B &pk, B &sk)
{
    B in = xi; in.push_back((uint8_t)p.k); in.push_back((uint8_t)p.l); B h = shake256(in, 128), rho = sub(h, 0, 32), rp = sub(h, 32, 64), K = sub(h, 96, 32); std::vector<Poly> s1, s2, s1h; for (int i = 0; i < p.l; i++) s1.push_back(expandS(p, rp, i)); for (int i = 0; i < p.k; i++) s2.push_back(expandS(p, rp, p.l + i)); for (auto &f : s1) s1h.push_back(ntt(f));
    pk = rho; B t0b; for (int i = 0; i < p.k; i++) { Poly t(256); for (int j = 0; j < p.l; j++) mac(t, expandA(rho, i, j), s1h[(size_t)j]); t = intt(t); Poly t1(256), t0(256); for (size_t n = 0; n < 256; n++) { int64_t v = md(t[n] + s2[(size_t)i][n]), r0 = v % 8192; if (r0 > 4096) r0 -= 8192; t0[n] = r0; t1[n] = (v - r0) >> 13; } BitW w; for (auto v : t1) w.put((uint64_t)v, 10); app(pk, w.o); bitpack(t0b, t0, 4096, 13); }
    sk = rho; app(sk, K); app(sk, shake256(pk, 64)); for (auto &f : s1) bitpack(sk, f, p.eta, p.eb()); for (auto &f : s2) bitpack(sk, f, p.eta, p.eb()); app(sk, t0b);
}
inline B muOf(const B &tr, const B &m) { B in = tr; app(in, m); return shake256(in, 64); }
// m: the already formatted message M' (or empty when mu is given)
inline B signMu(const Par &p, const B &sk, const B &mu, const B &rnd, int *tries = nullptr)
{
    B rho = sub(sk, 0, 32), K = sub(sk, 32, 32); const uint8_t *q = sk.data() + 128; std::vector<Poly> s1, s2, t0; for (int i = 0; i < p.l; i++, q += 32 * p.eb()) s1.push_back(ntt(bitunpack(q, p.eta, p.eb()))); for (int i = 0; i < p.k; i++, q += 32 * p.eb()) s2.push_back(ntt(bitunpack(q, p.eta, p.eb()))); for (int i = 0; i < p.k; i++, q += 416) t0.push_back(ntt(bitunpack(q, 4096, 13)));
    std::vector<std::vector<Poly>> A; for (int i = 0; i < p.k; i++) { A.emplace_back(); for (int j = 0; j < p.l; j++) A.back().push_back(expandA(rho, i, j)); }
    B in = K; app(in, rnd); app(in, mu); B rpp = shake256(in, 64);
    for (int kap = 0;; kap += p.l) {
        if (tries) *tries = kap / p.l + 1; std::vector<Poly> y, yh, w, w1; for (int i = 0; i < p.l; i++) { B s = rpp; s.push_back((uint8_t)(kap + i)); s.push_back((uint8_t)((kap + i) >> 8)); B v = shake256(s, 32u * (size_t)p.zb()); y.push_back(bitunpack(v.data(), p.g1, p.zb())); yh.push_back(ntt(y.back())); }
        B cin = mu; for (int i = 0; i < p.k; i++) { Poly t(256); for (int j = 0; j < p.l; j++) mac(t, A[(size_t)i][(size_t)j], yh[(size_t)j]); w.push_back(intt(t)); Poly h(256); BitW bw; for (size_t n = 0; n < 256; n++) { int64_t r0; decompose(p, w.back()[n], h[n], r0); bw.put((uint64_t)h[n], p.wb()); } app(cin, bw.o); }
        B ct = shake256(cin, (size_t)p.lam / 4); Poly c = ntt(ball(p, ct)); std::vector<Poly> z; bool ok = true; for (int i = 0; i < p.l && ok; i++) { Poly t = intt(mulN(c, s1[(size_t)i])); for (size_t n = 0; n < 256; n++) t[n] = cen(t[n] + y[(size_t)i][n]); if (norm(t) >= p.g1 - p.beta()) ok = false; z.push_back(t); }
        std::vector<Poly> wcs; for (int i = 0; i < p.k && ok; i++) { Poly t = intt(mulN(c, s2[(size_t)i])); for (size_t n = 0; n < 256; n++) { t[n] = md(w[(size_t)i][n] - t[n]); int64_t r1, r0; decompose(p, t[n], r1, r0); if (std::abs(r0) >= p.g2 - p.beta()) ok = false; } wcs.push_back(t); } if (!ok) continue;
        B hint((size_t)(p.omega + p.k)); int idx = 0; for (int i = 0; i < p.k && ok; i++) { Poly t = intt(mulN(c, t0[(size_t)i])); if (norm(t) >= p.g2) { ok = false; break; } for (size_t n = 0; n < 256; n++) { int64_t a1, b1, x; decompose(p, wcs[(size_t)i][n], a1, x); decompose(p, wcs[(size_t)i][n] + t[n], b1, x); if (a1 != b1) { if (idx >= p.omega) { ok = false; break; } hint[(size_t)idx++] = (uint8_t)n; } } hint[(size_t)(p.omega + i)] = (uint8_t)idx; } if (!ok) continue;
        B sig = ct; for (auto &f : z) bitpack(sig, f, p.g1, p.zb()); app(sig, hint); return sig;
    }
}
inline bool verifyMu(const Par &p, const B &pk, const B &mu, const B &sig)
{
    if (sig.size() != p.sig() || pk.size() != p.pk()) return false; B rho = sub(pk, 0, 32), ct = sub(sig, 0, (size_t)p.lam / 4); const uint8_t *q = sig.data() + p.lam / 4; std::vector<Poly> z; for (int i = 0; i < p.l; i++, q += 32 * p.zb()) { Poly f = bitunpack(q, p.g1, p.zb()); if (norm(f) >= p.g1 - p.beta()) return false; z.push_back(ntt(f)); }
    std::vector<std::vector<int>> h((size_t)p.k, std::vector<int>(256, 0)); int idx = 0; for (int i = 0; i < p.k; i++) { int e = q[p.omega + i]; if (e < idx || e > p.omega) return false; for (int f = idx; idx < e; idx++) { if (idx > f && q[idx - 1] >= q[idx]) return false; h[(size_t)i][q[idx]] = 1; } } for (; idx < p.omega; idx++) if (q[idx]) return false;
    Poly c = ntt(ball(p, ct)); B in = mu; for (int i = 0; i < p.k; i++) { Poly t(256); for (int j = 0; j < p.l; j++) mac(t, expandA(rho, i, j), z[(size_t)j]); BitR r(pk.data() + 32 + 320 * i); Poly t1(256); for (auto &v : t1) v = (int64_t)r.get(10) << 13; Poly ct1 = mulN(c, ntt(t1)); for (size_t n = 0; n < 256; n++) t[n] = md(t[n] - ct1[n]); t = intt(t); BitW w; for (size_t n = 0; n < 256; n++) w.put((uint64_t)useHint(p, h[(size_t)i][n], t[n]), p.wb()); app(in, w.o); }
    return shake256(in, (size_t)p.lam / 4) == ct;
}
inline B fmtPure(const B &ctx, const B &m) { B r = {0, (uint8_t)ctx.size()}; app(r, ctx); app(r, m); return r; }
inline B fmtHash(const B &ctx, const B &oid, const B &ph) { B r = {1, (uint8_t)ctx.size()}; app(r, ctx); app(r, oid); app(r, ph); return r; }
}  // namespace dsa
// ------------------------------------------------------------------------------------------------ FrodoKEM (ISO / draft-longa-cfrg-frodokem)
namespace frodo {
struct Par { int n, D, Bb, sec; const char *md; bool aes, eph; std::vector<int> cdf;
    size_t seSE() const { return (size_t)sec / 8 * (eph ? 1 : 2); } size_t salt() const { return eph ? 0 : (size_t)sec / 4; } size_t ss() const { return (size_t)sec / 8; } size_t nb() const { return (size_t)n * (size_t)D; }
    size_t pk() const { return 16 + nb(); } size_t sk() const { return ss() + pk() + 16u * (size_t)n + ss(); } size_t ct() const { return nb() + 8u * (size_t)D + salt(); } };
inline Par par(int size, bool aes, bool eph)
{
    static const std::vector<int> c[3] = {{4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745, 32762, 32766, 32767}, {5638, 15915, 23689, 28571, 31116, 32217, 32613, 32731, 32760, 32766, 32767}, {9142, 23462, 30338, 32361, 32725, 32765, 32767}};
    static const int N[3] = {640, 976, 1344}, S[3] = {128, 192, 256}; return Par{N[size], size ? 16 : 15, 2 + size, S[size], size ? "SHAKE256" : "SHAKE128", aes, eph, c[size]};
}
typedef std::vector<uint32_t> M;
inline B H(const Par &p, const B &in, size_t n) { return osslMd(p.md, in, n); }
inline M sample(const Par &p, const uint8_t *r, size_t n) { M o(n); for (size_t i = 0; i < n; i++) { int v = r[2 * i] | r[2 * i + 1] << 8, t = v >> 1, e = 0; for (size_t z = 0; z + 1 < p.cdf.size(); z++) if (t > p.cdf[z]) e++; o[i] = (uint32_t)(v & 1 ? -e : e); } return o; }
inline std::vector<M> genA(const Par &p, const B &seedA)
{
    size_t n = (size_t)p.n; std::vector<M> A(n, M(n)); EVP_CIPHER_CTX *c = nullptr; if (p.aes) { c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, seedA.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0); }
    for (size_t i = 0; i < n; i++) { B row; if (p.aes) { B in(2 * n); for (size_t j = 0; j < n; j += 8) { in[2 * j] = (uint8_t)i; in[2 * j + 1] = (uint8_t)(i >> 8); in[2 * j + 2] = (uint8_t)j; in[2 * j + 3] = (uint8_t)(j >> 8); } row.resize(2 * n); int l; EVP_EncryptUpdate(c, row.data(), &l, in.data(), (int)in.size()); } else { B in = {(uint8_t)i, (uint8_t)(i >> 8)}; app(in, seedA); row = osslMd("SHAKE128", in, 2 * n); } for (size_t j = 0; j < n; j++) A[i][j] = (uint32_t)(row[2 * j] | row[2 * j + 1] << 8); }
    EVP_CIPHER_CTX_free(c); return A;
}
inline B pack(const Par &p, const M &m) { B o; uint32_t acc = 0; int n = 0; for (auto v : m) for (int i = p.D - 1; i >= 0; i--) { acc = acc << 1 | ((v >> i) & 1); if (++n == 8) { o.push_back((uint8_t)acc); acc = 0; n = 0; } } return o; }
inline M unpack(const Par &p, const uint8_t *b, size_t cnt) { M o(cnt); size_t bit = 0; for (auto &v : o) { v = 0; for (int i = 0; i < p.D; i++, bit++) v = v << 1 | ((b[bit / 8] >> (7 - bit % 8)) & 1); } return o; }
inline B bcat(uint8_t d, const B &b) { B o{d}; app(o, b); return o; }
inline void keygen(const Par &p, const B &s, const B &seedSE, const B &z, B &pk, B &sk)
{
    size_t n = (size_t)p.n; B seedA = H(p, z, 16), r = H(p, bcat(0x5f, seedSE), 32 * n); M st = sample(p, r.data(), 8 * n), e = sample(p, r.data() + 16 * n, 8 * n); auto A = genA(p, seedA); M b(8 * n); // st[j*n+k]=S[k][j]; e row-major n x 8
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < 8; j++) { uint32_t a = e[i * 8 + j]; for (size_t k = 0; k < n; k++) a += A[i][k] * st[j * n + k]; b[i * 8 + j] = a; }
    pk = seedA; app(pk, pack(p, b)); sk = s; app(sk, pk); for (auto v : st) { sk.push_back((uint8_t)v); sk.push_back((uint8_t)(v >> 8)); } app(sk, H(p, pk, p.ss()));
}
inline B encrypt(const Par &p, const B &pk, const B &mu, const B &se)
{
    size_t n = (size_t)p.n; B r = H(p, bcat(0x96, se), 2 * (16 * n + 64)); M s = sample(p, r.data(), 8 * n), e = sample(p, r.data() + 16 * n, 8 * n), ee = sample(p, r.data() + 32 * n, 64); auto A = genA(p, sub(pk, 0, 16)); M u = e, b = unpack(p, pk.data() + 16, 8 * n), v = ee;
    for (size_t i = 0; i < 8; i++) for (size_t k = 0; k < n; k++) { uint32_t x = s[i * n + k]; for (size_t j = 0; j < n; j++) u[i * n + j] += x * A[k][j]; }
    for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 8; j++) for (size_t k = 0; k < n; k++) v[i * 8 + j] += s[i * n + k] * b[k * 8 + j];
    for (size_t i = 0; i < 64; i++) { uint32_t m = 0; for (int l = 0; l < p.Bb; l++) { size_t bit = i * (size_t)p.Bb + (size_t)l; m |= (uint32_t)((mu[bit / 8] >> (bit % 8)) & 1) << l; } v[i] += m << (p.D - p.Bb); }
    B c = pack(p, u); app(c, pack(p, v)); return c;
}
inline void encaps(const Par &p, const B &pk, const B &mu, const B &salt, B &ct, B &K) { B in = H(p, pk, p.ss()); app(in, mu); app(in, salt); B g = H(p, in, p.seSE() + p.ss()); ct = encrypt(p, pk, mu, sub(g, 0, p.seSE())); app(ct, salt); B f = ct; app(f, sub(g, p.seSE(), p.ss())); K = H(p, f, p.ss()); }
inline B decaps(const Par &p, const B &sk, const B &ct, bool *rejected = nullptr)
{
    size_t n = (size_t)p.n; B s = sub(sk, 0, p.ss()), pk = sub(sk, p.ss(), p.pk()), pkh = sub(sk, sk.size() - p.ss(), p.ss()); const uint8_t *S = sk.data() + p.ss() + p.pk(); M b = unpack(p, ct.data(), 8 * n), c = unpack(p, ct.data() + p.nb(), 64); B mu(8u * (size_t)p.Bb, 0);
    for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 8; j++) { uint32_t a = 0; for (size_t k = 0; k < n; k++) a += b[i * n + k] * (uint32_t)(S[2 * (j * n + k)] | S[2 * (j * n + k) + 1] << 8); uint32_t m = ((c[i * 8 + j] - a) & ((1u << p.D) - 1)); m = ((m + (1u << (p.D - p.Bb - 1))) >> (p.D - p.Bb)) & ((1u << p.Bb) - 1); for (int l = 0; l < p.Bb; l++) { size_t bit = (i * 8 + j) * (size_t)p.Bb + (size_t)l; mu[bit / 8] |= (uint8_t)(((m >> l) & 1) << (bit % 8)); } }
    B salt = sub(ct, ct.size() - p.salt(), p.salt()), in = pkh; app(in, mu); app(in, salt); B g = H(p, in, p.seSE() + p.ss()); B c2 = encrypt(p, pk, mu, sub(g, 0, p.seSE())); app(c2, salt); bool rej = c2 != ct; if (rejected) *rejected = rej; B f = ct; app(f, rej ? s : sub(g, p.seSE(), p.ss())); return H(p, f, p.ss());
}
}  // namespace frodo
}  // namespace pq
