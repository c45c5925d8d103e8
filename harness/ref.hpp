// Straightforward reference constructions built on OpenSSL's raw block ciphers (used where OpenSSL has no such mode).
#pragma once
#include "vh.hpp"
namespace ref {
struct Blk {  // raw ECB block encryption
    EVP_CIPHER_CTX *e, *d;
    Blk(const char *ecbName, const Bytes &key)
    {
        EVP_CIPHER *c = EVP_CIPHER_fetch(nullptr, ecbName, nullptr); if (!c) abort();
        e = EVP_CIPHER_CTX_new(); d = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(e, c, nullptr, key.data(), nullptr); EVP_CIPHER_CTX_set_padding(e, 0);
        EVP_DecryptInit_ex(d, c, nullptr, key.data(), nullptr); EVP_CIPHER_CTX_set_padding(d, 0);
        EVP_CIPHER_free(c);
    }
    ~Blk() { EVP_CIPHER_CTX_free(e); EVP_CIPHER_CTX_free(d); }
    Blk(const Blk &) = delete;
    void enc(const uint8_t in[16], uint8_t out[16]) { uint8_t t[32]; int l; EVP_EncryptUpdate(e, t, &l, in, 16); memcpy(out, t, 16); }
    void dec(const uint8_t in[16], uint8_t out[16]) { uint8_t t[32]; int l; EVP_DecryptUpdate(d, t, &l, in, 16); memcpy(out, t, 16); }
};
inline void put64be(uint8_t *p, uint64_t v) { for (int i = 7; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; } }
struct Ghash {
    uint64_t t[16][2]; uint8_t y[16];
    explicit Ghash(const uint8_t h[16])
    {
        memset(y, 0, 16);
        uint64_t hh = 0, hl = 0; for (int i = 0; i < 8; i++) { hh = hh << 8 | h[i]; hl = hl << 8 | h[8 + i]; }
        h0 = hh; h1 = hl;
    }
    uint64_t h0, h1;
    void block(const uint8_t b[16])
    {
        for (int i = 0; i < 16; i++) y[i] ^= b[i];
        uint64_t z0 = 0, z1 = 0, v0 = h0, v1 = h1;
        for (int i = 0; i < 128; i++) {
            uint64_t m = 0 - (uint64_t)((y[i / 8] >> (7 - i % 8)) & 1);
            z0 ^= v0 & m; z1 ^= v1 & m;
            uint64_t lsb = 0 - (v1 & 1);
            v1 = v1 >> 1 | v0 << 63; v0 >>= 1; v0 ^= lsb & 0xe100000000000000ull;
        }
        put64be(y, z0); put64be(y + 8, z1);
    }
    void update(const Bytes &d) { for (size_t i = 0; i < d.size(); i += 16) { uint8_t b[16] = {0}; memcpy(b, d.data() + i, std::min<size_t>(16, d.size() - i)); block(b); } }
    void lens(uint64_t a, uint64_t c) { uint8_t b[16]; put64be(b, a * 8); put64be(b + 8, c * 8); block(b); }
};
// returns ciphertext, tag16 gets the full tag; decrypt=true: in is ciphertext
inline Bytes gcm(Blk &k, const Bytes &iv, const Bytes &aad, const Bytes &in, bool decrypt, uint8_t tag[16])
{
    uint8_t h[16] = {0}, j0[16] = {0}, ctr[16], ks[16], ej[16];
    k.enc(h, h);
    if (iv.size() == 12) { memcpy(j0, iv.data(), 12); j0[15] = 1; }
    else { Ghash g(h); g.update(iv); g.lens(0, iv.size()); memcpy(j0, g.y, 16); }
    memcpy(ctr, j0, 16);
    Bytes out(in.size());
    for (size_t i = 0; i < in.size(); i += 16) {
        for (int q = 15; q >= 12; q--) if (++ctr[q]) break;
        k.enc(ctr, ks);
        for (size_t q = i; q < std::min(in.size(), i + 16); q++) out[q] = in[q] ^ ks[q - i];
    }
    Ghash g(h); g.update(aad); g.update(decrypt ? in : out); g.lens(aad.size(), in.size());
    k.enc(j0, ej); for (int i = 0; i < 16; i++) tag[i] = g.y[i] ^ ej[i];
    return out;
}
// NIST SP 800-38C
inline Bytes ccm(Blk &k, const Bytes &n, const Bytes &aad, const Bytes &in, bool decrypt, size_t t, uint8_t tag[16])
{
    size_t q = 15 - n.size(); uint8_t a0[16] = {0}, ctr[16], ks[16], s0[16];
    a0[0] = (uint8_t)(q - 1); memcpy(a0 + 1, n.data(), n.size()); k.enc(a0, s0);
    Bytes out(in.size()); memcpy(ctr, a0, 16);
    for (size_t i = 0; i < in.size(); i += 16) {
        for (size_t p = 15; p >= 16 - q; p--) if (++ctr[p]) break;
        k.enc(ctr, ks);
        for (size_t p = i; p < std::min(in.size(), i + 16); p++) out[p] = in[p] ^ ks[p - i];
    }
    const Bytes &pt = decrypt ? out : in;
    uint8_t b[16] = {0}, y[16];
    b[0] = (uint8_t)((aad.empty() ? 0 : 0x40) | ((t - 2) / 2) << 3 | (q - 1)); memcpy(b + 1, n.data(), n.size());
    uint64_t l = pt.size(); for (size_t i = 0; i < q && i < 8; i++) { b[15 - i] = (uint8_t)l; l >>= 8; }
    k.enc(b, y);
    Bytes A; if (!aad.empty()) { if (aad.size() < 0xff00) { A.push_back(aad.size() >> 8); A.push_back((uint8_t)aad.size()); }
        else { A = {0xff, 0xfe}; for (int i = 24; i >= 0; i -= 8) A.push_back((uint8_t)(aad.size() >> i)); }
        A.insert(A.end(), aad.begin(), aad.end()); A.resize((A.size() + 15) / 16 * 16); }
    Bytes P = pt; P.resize((P.size() + 15) / 16 * 16); A.insert(A.end(), P.begin(), P.end());
    for (size_t i = 0; i < A.size(); i += 16) { for (int j = 0; j < 16; j++) y[j] ^= A[i + j]; k.enc(y, y); }
    for (int i = 0; i < 16; i++) tag[i] = y[i] ^ s0[i];
    return out;
}
}  // namespace ref
