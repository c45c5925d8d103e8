#include "ref.hpp"
#include <openssl/modes.h>
#include <openssl/aes.h>
const char *pbt::PROPERTY_RULE =
    "modes: algorithm (24 block/stream mode variants) x key x IV (near counter wrap) x message (0..6000 bytes, occasionally larger) x padding x random split of "
    "both the encryption and the decryption, in place or not, on fresh / reinitialised / duplicated contexts; wrap: key wrap with and without padding up to 100 kB "
    "(step counter over 16 bits); unpad: ciphertexts whose padding bytes were altered. Non-trivial: >=1 full block and >=2 non-empty updates, or a reused context, "
    "or a malformed unwrap/unpad, was compared with the reference.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 AES/SM4 single-block encryption and ChaCha20 are correct"};
void pbt::setup() {}
enum Mode { ECB, CBC, CTR, CFB, OFB, XTS, HCTR, CHA };
struct Alg { CRYPT_CIPHER_AlgId id; const char *name, *ecb; Mode m; uint32_t key, iv; };
#define A3(M, IV) {CRYPT_CIPHER_AES128_##M, "AES128-" #M, "AES-128-ECB", M, 16, IV}, {CRYPT_CIPHER_AES192_##M, "AES192-" #M, "AES-192-ECB", M, 24, IV}, \
    {CRYPT_CIPHER_AES256_##M, "AES256-" #M, "AES-256-ECB", M, 32, IV}, {CRYPT_CIPHER_SM4_##M, "SM4-" #M, "SM4-ECB", M, 16, IV}
static const Alg ALGS[] = {A3(CBC, 16), A3(CTR, 16), A3(ECB, 0), A3(CFB, 16), A3(OFB, 16),
    {CRYPT_CIPHER_AES128_XTS, "AES128-XTS", "AES-128-ECB", XTS, 32, 16}, {CRYPT_CIPHER_AES256_XTS, "AES256-XTS", "AES-256-ECB", XTS, 64, 16},
    {CRYPT_CIPHER_SM4_XTS, "SM4-XTS", "SM4-ECB", XTS, 32, 16}, {CRYPT_CIPHER_SM4_HCTR, "SM4-HCTR", "SM4-ECB", HCTR, 32, 16},
    {CRYPT_CIPHER_CHACHA20, "CHACHA20", "", CHA, 32, 12}};
static const size_t NALG = sizeof(ALGS) / sizeof(ALGS[0]);
static void xorn(uint8_t *o, const uint8_t *a, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) o[i] = a[i] ^ b[i]; }
static void gfmul(uint8_t t[16], bool gm)
{
    if (!gm) { int c = t[15] >> 7; for (int i = 15; i > 0; i--) t[i] = (uint8_t)(t[i] << 1 | t[i - 1] >> 7); t[0] = (uint8_t)(t[0] << 1); if (c) t[0] ^= 0x87; }
    else { int c = t[15] & 1; for (int i = 15; i > 0; i--) t[i] = (uint8_t)(t[i] >> 1 | t[i - 1] << 7); t[0] >>= 1; if (c) t[0] ^= 0xE1; }
}
struct Param { int fb = 128; uint32_t count = 0; };
// reference for whole messages, padding already applied
static Bytes reff(const Alg &a, const Bytes &key, const Bytes &iv, const Bytes &in, bool enc, const Param &pr)
{
    Bytes out(in.size()); size_t n = in.size();
    if (a.m == CHA) {
        uint8_t iv16[16]; for (int i = 0; i < 4; i++) iv16[i] = (uint8_t)(pr.count >> (8 * i)); memcpy(iv16 + 4, iv.data(), 12);
        Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free> c(EVP_CIPHER_CTX_new()); int l;
        EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv16); if (n) EVP_EncryptUpdate(c, out.data(), &l, in.data(), (int)n); return out;
    }
    size_t kl = a.m == XTS || a.m == HCTR ? a.key / 2 : a.key;
    ref::Blk k(a.ecb, Bytes(key.begin(), key.begin() + kl));
    uint8_t v[16] = {0}, t[16]; if (a.iv) memcpy(v, iv.data(), 16);
    switch (a.m) {
        case ECB: for (size_t i = 0; i < n; i += 16) enc ? k.enc(&in[i], &out[i]) : k.dec(&in[i], &out[i]); break;
        case CBC: for (size_t i = 0; i < n; i += 16) {
                if (enc) { xorn(t, &in[i], v, 16); k.enc(t, &out[i]); memcpy(v, &out[i], 16); }
                else { k.dec(&in[i], t); xorn(&out[i], t, v, 16); memcpy(v, &in[i], 16); }
            } break;
        case CTR: for (size_t i = 0; i < n; i += 16) { k.enc(v, t); for (size_t j = i; j < std::min(n, i + 16); j++) out[j] = in[j] ^ t[j - i]; for (int q = 15; q >= 0; q--) if (++v[q]) break; } break;
        case OFB: for (size_t i = 0; i < n; i += 16) { k.enc(v, v); for (size_t j = i; j < std::min(n, i + 16); j++) out[j] = in[j] ^ v[j - i]; } break;
        case CFB: {
            if (pr.fb == 1) {
                for (size_t bit = 0; bit < n * 8; bit++) {
                    k.enc(v, t); int ib = in[bit / 8] >> (7 - bit % 8) & 1, ob = ib ^ (t[0] >> 7); out[bit / 8] |= (uint8_t)(ob << (7 - bit % 8));
                    int fb = enc ? ob : ib; for (int q = 0; q < 15; q++) v[q] = (uint8_t)(v[q] << 1 | v[q + 1] >> 7); v[15] = (uint8_t)(v[15] << 1 | fb);
                }
                break;
            }
            size_t s = pr.fb / 8;
            for (size_t i = 0; i < n; i += s) {
                k.enc(v, t); size_t c = std::min(s, n - i); for (size_t j = 0; j < c; j++) out[i + j] = in[i + j] ^ t[j];
                uint8_t w[32]; memcpy(w, v, 16); memcpy(w + 16, enc ? &out[i] : &in[i], c); memcpy(v, w + s, 16);
            }
            break;
        }
        case XTS: {
            ref::Blk k2(a.ecb, Bytes(key.begin() + kl, key.end())); k2.enc(v, v); bool gm = a.ecb[0] == 'S';
            size_t full = n / 16, rem = n % 16;
            auto one = [&](const uint8_t *i, uint8_t *o, const uint8_t *tw) { uint8_t x[16]; xorn(x, i, tw, 16); enc ? k.enc(x, x) : k.dec(x, x); xorn(o, x, tw, 16); };
            for (size_t b = 0; b < full; b++) {
                if (rem && b == full - 1) {
                    uint8_t t1[16], t2[16], cc[16], pp[16]; memcpy(t1, v, 16); memcpy(t2, v, 16); gfmul(t2, gm);
                    one(&in[16 * b], cc, enc ? t1 : t2);
                    memcpy(pp, &in[16 * full], rem); memcpy(pp + rem, cc + rem, 16 - rem); memcpy(&out[16 * full], cc, rem);
                    one(pp, &out[16 * b], enc ? t2 : t1);
                } else { one(&in[16 * b], &out[16 * b], v); gfmul(v, gm); }
            }
            break;
        }
        case HCTR: {
            auto H = [&](const uint8_t *p, size_t l, uint8_t *o) {
                ref::Ghash gh(key.data() + 16); Bytes d(p, p + l); d.insert(d.end(), iv.begin(), iv.end()); gh.update(d); gh.lens(0, d.size()); memcpy(o, gh.y, 16);
            };
            uint8_t h[16], z1[16], z2[16], base[16], c[16], ks[16];
            H(in.data() + 16, n - 16, h);
            if (enc) { xorn(z1, in.data(), h, 16); k.enc(z1, z2); } else { xorn(z2, in.data(), h, 16); k.dec(z2, z1); }
            xorn(base, z1, z2, 16);
            uint64_t ctr = 1;
            for (size_t i = 16; i < n; i += 16, ctr++) { memcpy(c, base, 16); for (int q = 0; q < 8; q++) c[15 - q] ^= (uint8_t)(ctr >> (8 * q)); k.enc(c, ks); for (size_t j = i; j < std::min(n, i + 16); j++) out[j] = in[j] ^ ks[j - i]; }
            H(out.data() + 16, n - 16, h); xorn(out.data(), enc ? z2 : z1, h, 16); break;
        }
        default: abort();
    }
    return out;
}
static Bytes padIt(Bytes m, int p)
{
    size_t r = 16 - m.size() % 16;
    switch (p) {
        case CRYPT_PADDING_ZEROS: m.resize(m.size() + r); break;
        case CRYPT_PADDING_ISO7816: m.push_back(0x80); m.resize(m.size() + r - 1); break;
        case CRYPT_PADDING_X923: m.resize(m.size() + r); m.back() = (uint8_t)r; break;
        case CRYPT_PADDING_PKCS5: case CRYPT_PADDING_PKCS7: m.resize(m.size() + r, (uint8_t)r); break;
        default: break;
    }
    return m;
}
// what unpadding yields; false = must be rejected
static bool unpadRef(Bytes &m, int p)
{
    if (m.empty()) return p == CRYPT_PADDING_ZEROS || p == CRYPT_PADDING_NONE;
    size_t n = m.size(); uint8_t l = m.back();
    switch (p) {
        case CRYPT_PADDING_ISO7816: { size_t i = n; while (i > n - 16 && m[i - 1] == 0) i--; if (i == n - 16 || m[i - 1] != 0x80) return false; m.resize(i - 1); return true; }
        case CRYPT_PADDING_X923: if (l == 0 || l > 16) return false; for (size_t i = n - l; i + 1 < n; i++) if (m[i]) return false; m.resize(n - l); return true;
        case CRYPT_PADDING_PKCS5: case CRYPT_PADDING_PKCS7: if (l == 0 || l > 16) return false; for (size_t i = n - l; i < n; i++) if (m[i] != l) return false; m.resize(n - l); return true;
        default: return true;
    }
}
static int32_t start(CRYPT_EAL_CipherCtx *c, const Alg &a, const Bytes &key, const Bytes &iv, bool enc, int pad, const Param &pr, bool viaReinit)
{
    Exact k(key), v(iv); int32_t r;
    if (viaReinit) r = CRYPT_EAL_CipherReinit(c, iv.empty() ? nullptr : v.p, (uint32_t)v.n);
    else r = CRYPT_EAL_CipherInit(c, k.p, (uint32_t)k.n, iv.empty() ? nullptr : v.p, (uint32_t)v.n, enc);
    if (r) return r;
    if (pad != CRYPT_PADDING_NONE || a.m == CBC || a.m == ECB) if ((a.m == CBC || a.m == ECB) && (r = CRYPT_EAL_CipherSetPadding(c, (CRYPT_PaddingType)pad))) return r;
    if (a.m == CFB) { uint32_t fb = (uint32_t)pr.fb; if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_FEEDBACKSIZE, &fb, sizeof fb))) return r; }
    if (a.m == CHA && pr.count != 0) { uint8_t b[4]; for (int i = 0; i < 4; i++) b[i] = (uint8_t)(pr.count >> (8 * i)); if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_COUNT, b, 4))) return r; }
    return 0;
}
// streams `in`; returns status of the last call, out gets everything produced
static int32_t stream(G &g, CRYPT_EAL_CipherCtx **pc, const Alg &a, const Bytes &in, bool enc, int pad, const Param &pr, Bytes &out, std::string &h, int &upd, bool &failedInFinal)
{
    out.clear(); failedInFinal = false; upd = 0;
    std::vector<size_t> cs;
    if (a.m == XTS) {  // data units are processed update by update: only the last part may be ragged, and none shorter than a block
        size_t n = in.size(), pos = 0;
        while (n - pos >= 32 && g.chance(1, 2)) { size_t c = 16 * (1 + g.draw((n - pos) / 16 - 2)); if (n - pos - c < 16) break; cs.push_back(c); pos += c; }
        if (n > pos) cs.push_back(n - pos);
    } else cs = g.chunks(in.size());
    bool split1 = g.chance(1, 3) || a.m == CHA || a.m == HCTR ? false : g.chance(1, 3);
    (void)split1;
    size_t pos = 0; size_t fbBytes = a.m == CFB && pr.fb > 8 ? pr.fb / 8 : 1; (void)fbBytes;
    size_t cached = 0;  // upper bound on bytes held back
    for (size_t c : cs) {
        if (g.chance(1, 12)) {
            CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherDupCtx(*pc);
            CHECK(d, "cipher-dup", "%s: dup failed", h.c_str()); h += " dup"; CRYPT_EAL_CipherFreeCtx(*pc); *pc = d;
        }
        bool block = a.m == CBC || a.m == ECB;
        bool inplace = c && (!block || (c % 16 == 0 && pos % 16 == 0 && (enc || pad == CRYPT_PADDING_NONE))) && a.m != HCTR && g.chance(1, 3);
        size_t cap = inplace ? c : c + cached + (g.boolean() ? 16 : 0);
        if (block && !inplace) { size_t held = pos % 16; size_t need = (held + c) / 16 * 16; if (!enc && pad != CRYPT_PADDING_NONE && pos && held == 0) need += 16; cap = std::max(need, g.boolean() ? need : c + 32); }
        Exact o(cap), i(in.data() + pos, c);
        if (inplace) { memcpy(o.p, in.data() + pos, c); h += " ip"; }
        uint32_t ol = (uint32_t)cap;
        int32_t r = CRYPT_EAL_CipherUpdate(*pc, inplace ? o.p : i.p, (uint32_t)c, o.p, &ol);
        h += sfmt(" %c%zu", enc ? 'e' : 'd', c);
        if (r) return r;
        CHECK(ol <= cap, "cipher-outlen", "%s: outLen %u > buffer %zu", h.c_str(), ol, cap);
        if (!inplace) for (size_t q = ol; q < cap; q++) CHECK(o.p[q] == 0xA5, "cipher-overwrite", "%s: byte %zu beyond the reported %u written", h.c_str(), q, ol);
        out.insert(out.end(), o.p, o.p + ol); pos += c; if (c) upd++;
    }
    size_t cap = a.m == HCTR ? in.size() : 16; if (g.boolean()) cap += 7;
    if (cap == 0) cap = 16;
    Exact o(cap); uint32_t ol = (uint32_t)cap;
    int32_t r = CRYPT_EAL_CipherFinal(*pc, o.p, &ol);
    if (r) { failedInFinal = true; return r; }
    for (size_t q = ol; q < cap; q++) CHECK(o.p[q] == 0xA5, "cipher-overwrite", "%s: final wrote byte %zu beyond the reported %u", h.c_str(), q, ol);
    out.insert(out.end(), o.p, o.p + ol);
    return 0;
}
static Bytes genIv(G &g, const Alg &a)
{
    Bytes iv = g.bytes(a.iv);
    if (a.m == CTR && g.chance(1, 2)) { size_t k = 1 + g.draw(15); for (size_t i = 16 - k; i < 16; i++) iv[i] = 0xff; iv[15] = (uint8_t)(0xff - g.draw(40)); }
    return iv;
}
PBT_TEST(modes, 350000, 6000000)
{
    const Alg &a = ALGS[g.cycle(NALG)]; g.label(a.name);
    static const int PADS[] = {CRYPT_PADDING_NONE, CRYPT_PADDING_ZEROS, CRYPT_PADDING_ISO7816, CRYPT_PADDING_X923, CRYPT_PADDING_PKCS5, CRYPT_PADDING_PKCS7};
    CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a.id); CHECK(c, "cipher-new", "%s unavailable", a.name);
    struct Cl { CRYPT_EAL_CipherCtx **c; ~Cl() { CRYPT_EAL_CipherFreeCtx(*c); } } cl{&c};
    int rounds = 1 + (int)g.weighted({3, 2, 1}); std::string h = a.name; Bytes key; bool keyed = false, keyedEnc = false; Param pr; bool reused = false;
    for (int rd = 0; rd < rounds; rd++) {
        size_t lo = a.m == XTS || a.m == HCTR ? 16 : 0;
        size_t n = g.weighted({3, 3, 2, 1}) ; n = n == 0 ? lo + g.draw(80) : n == 1 ? g.len(lo, 700) : n == 2 ? g.len(lo, 3000) : g.len(lo, a.m == HCTR ? 3000 : 9000);
        bool block = a.m == CBC || a.m == ECB; int pad = block ? g.pick(PADS) : CRYPT_PADDING_NONE;
        bool viaReinit = keyed && a.m != HCTR && g.chance(1, 3);
        if (!viaReinit) {
            key = g.bytes(a.key);
            if (a.m == XTS && !memcmp(key.data(), key.data() + a.key / 2, a.key / 2)) {
                Exact k(key); Bytes iv0(16); CHECK(CRYPT_EAL_CipherInit(c, k.p, a.key, iv0.data(), 16, true) != CRYPT_SUCCESS, "xts-equal-halves", "%s accepted equal key halves", a.name); key[0] ^= 1; }
            pr = Param(); if (a.m == CFB) pr.fb = g.pick({128, 128, 8, 1, 64});
        }
        if (a.m == CFB && pr.fb == 1 && n > 300) n %= 300;
        if (a.m == CHA) { uint32_t nb = (uint32_t)((n + 63) / 64); pr.count = g.pick({0u, 1u, 0u, 7u, 0xffffff00u, 0u - nb}); if (pr.count && nb > 0u - pr.count) pr.count = 0; }
        Bytes iv = genIv(g, a), msg = g.bytes(n);
        if (block && pad == CRYPT_PADDING_NONE && !g.chance(1, 8)) msg.resize(n = n / 16 * 16);
        bool enc = viaReinit ? keyedEnc : !g.chance(1, 4);
        if (!enc && block && pad == CRYPT_PADDING_NONE) msg.resize(n = n / 16 * 16);
        h += sfmt(" [%s %s n=%zu pad=%d fb=%d]", viaReinit ? "reinit" : "init", enc ? "enc" : "dec", n, pad, pr.fb);
        bool legal = !(block && pad == CRYPT_PADDING_NONE && n % 16); int upd; bool ff;
        if (!enc) {  // decrypt a reference ciphertext first (may use the reused context), then check
            Bytes ct = reff(a, key, iv, padIt(msg, pad), true, pr), pt;
            int32_t r = start(c, a, key, iv, false, pad, pr, viaReinit); CHECK(!r, "cipher-init", "%s: init failed %s", h.c_str(), rc(r).c_str());
            keyed = true; keyedEnc = false;
            r = stream(g, &c, a, ct, false, pad, pr, pt, h, upd, ff); CHECK(!r, "cipher-decrypt", "%s: decryption failed %s", h.c_str(), rc(r).c_str());
            Bytes want = pad == CRYPT_PADDING_ZEROS ? padIt(msg, pad) : msg;
            CHECK(pt == want, "cipher-value", "%s: decryption gives %zu bytes %s expected %s", h.c_str(), pt.size(), hex(pt).c_str(), hex(want).c_str());
        } else {
            Bytes want, ct; int32_t r = start(c, a, key, iv, true, pad, pr, viaReinit); CHECK(!r, "cipher-init", "%s: init failed %s", h.c_str(), rc(r).c_str());
            keyed = true; keyedEnc = true;
            r = stream(g, &c, a, msg, true, pad, pr, ct, h, upd, ff);
            if (!legal) { CHECK(r, "cipher-nopad", "%s: unpadded ragged input accepted", h.c_str()); continue; }
            CHECK(!r, "cipher-encrypt", "%s: encryption failed %s", h.c_str(), rc(r).c_str());
            want = reff(a, key, iv, padIt(msg, pad), true, pr);
            CHECK(ct == want, "cipher-value", "%s: ciphertext %zu bytes %s expected %s", h.c_str(), ct.size(), hex(ct).c_str(), hex(want).c_str());
            if (g.boolean()) {  // and back, on another context
                CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherNewCtx(a.id); struct Cl2 { CRYPT_EAL_CipherCtx **c; ~Cl2() { CRYPT_EAL_CipherFreeCtx(*c); } } cl2{&d}; Bytes pt; int u2;
                REQUIRE_OK(start(d, a, key, iv, false, pad, pr, false), "cipher-init");
                r = stream(g, &d, a, ct, false, pad, pr, pt, h, u2, ff); CHECK(!r, "cipher-decrypt", "%s: round-trip decryption failed %s", h.c_str(), rc(r).c_str());
                Bytes w2 = pad == CRYPT_PADDING_ZEROS ? padIt(msg, pad) : msg;
                CHECK(pt == w2, "cipher-value", "%s: round trip gives %s expected %s", h.c_str(), hex(pt).c_str(), hex(w2).c_str());
            }
        }
        if ((n >= 16 && upd >= 2) || (reused && n)) g.nontrivial();
        reused = true;
    }
    g.note("%s", h.c_str());
}
PBT_TEST(unpad, 60000, 1000000)
{
    static const int PADS[] = {CRYPT_PADDING_PKCS7, CRYPT_PADDING_PKCS5, CRYPT_PADDING_X923, CRYPT_PADDING_ISO7816};
    int pad = PADS[g.cycle(4)]; const Alg &a = ALGS[g.pick({0, 2, 3, 8, 11})]; Param pr;
    Bytes key = g.bytes(a.key), iv = g.bytes(a.iv), msg = g.bytes(g.draw(50)), p = padIt(msg, pad);
    int k = (int)g.draw(3); for (int i = 0; i < k; i++) { size_t q = p.size() - 1 - g.draw(16 - 1); p[q] = g.pick({(uint8_t)0, (uint8_t)1, (uint8_t)16, (uint8_t)17, (uint8_t)0x80, (uint8_t)0xff, (uint8_t)2, (uint8_t)15, (uint8_t)g.draw(255)}); }
    Bytes want = p; bool ok = unpadRef(want, pad);
    Bytes ct = reff(a, key, iv, p, true, pr), out; int upd; bool ff; std::string h = sfmt("%s unpad=%d", a.name, pad);
    CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a.id); struct Cl { CRYPT_EAL_CipherCtx **c; ~Cl() { CRYPT_EAL_CipherFreeCtx(*c); } } cl{&c};
    REQUIRE_OK(start(c, a, key, iv, false, pad, pr, false), "cipher-init");
    int32_t r = stream(g, &c, a, ct, false, pad, pr, out, h, upd, ff);
    g.note("%s last=%s ok=%d", h.c_str(), hex(&p[p.size() - 16], 16).c_str(), ok);
    if (!ok) { g.nontrivial(); CHECK(r, "unpad-accept", "%s: malformed padding %s accepted, %zu bytes out", h.c_str(), hex(&p[p.size() - 16], 16).c_str(), out.size()); }
    else { CHECK(!r && out == want, "unpad-value", "%s: padding %s gave %s, %zu bytes, expected %zu", h.c_str(), hex(&p[p.size() - 16], 16).c_str(), rc(r).c_str(), out.size(), want.size()); }
}
PBT_TEST(wrap, 40000, 600000)
{
    static const struct { CRYPT_CIPHER_AlgId id; uint32_t key; bool pad; const char *n; } W[] = {{CRYPT_CIPHER_AES128_WRAP_NOPAD, 16, false, "AES128-WRAP"}, {CRYPT_CIPHER_AES192_WRAP_NOPAD, 24, false, "AES192-WRAP"},
        {CRYPT_CIPHER_AES256_WRAP_NOPAD, 32, false, "AES256-WRAP"}, {CRYPT_CIPHER_AES128_WRAP_PAD, 16, true, "AES128-WRAP-PAD"}, {CRYPT_CIPHER_AES192_WRAP_PAD, 24, true, "AES192-WRAP-PAD"}, {CRYPT_CIPHER_AES256_WRAP_PAD, 32, true, "AES256-WRAP-PAD"}};
    auto &w = W[g.cycle(6)]; g.label(w.n);
    Bytes key = g.bytes(w.key); bool defIv = g.boolean(); Bytes iv = defIv ? Bytes() : g.bytes(w.pad ? 4 : 8);
    size_t n = g.index % 601 == 7 ? 80000 + g.draw(30000) : g.weighted({3, 2}) == 0 ? 1 + g.draw(100) : g.len(1, 3000);
    bool legal = true; if (!w.pad) { if (!g.chance(1, 10)) n = std::max<size_t>(16, n / 8 * 8); legal = n % 8 == 0 && n >= 16; }
    if (w.pad && g.chance(1, 30)) { n = 0; legal = false; }
    Bytes in = g.bytes(n); Exact k(key), v(iv), i(in);
    CipherCtx c(CRYPT_EAL_CipherNewCtx(w.id));
    if (g.boolean()) { Exact k2(g.bytes(w.key)); CRYPT_EAL_CipherInit(c, k2.p, w.key, nullptr, 0, g.boolean()); }
    REQUIRE_OK(CRYPT_EAL_CipherInit(c, k.p, w.key, defIv ? nullptr : v.p, (uint32_t)v.n, true), "wrap-init");
    size_t outn = (n + 7) / 8 * 8 + 8; Exact o(outn); uint32_t ol = (uint32_t)outn;
    int32_t r = CRYPT_EAL_CipherUpdate(c, i.p, (uint32_t)n, o.p, &ol);
    g.note("%s n=%zu iv=%zu", w.n, n, iv.size());
    if (!legal) { CHECK(r, "wrap-badlen", "%s wrapped %zu bytes", w.n, n); return; }
    CHECK(!r, "wrap-enc", "%s: wrapping %zu bytes failed %s", w.n, n, rc(r).c_str());
    Bytes want(outn + 16); AES_KEY ak; AES_set_encrypt_key(key.data(), w.key * 8, &ak);
    size_t wl = w.pad ? CRYPTO_128_wrap_pad(&ak, defIv ? nullptr : iv.data(), want.data(), in.data(), n, (block128_f)AES_encrypt)
                      : CRYPTO_128_wrap(&ak, defIv ? nullptr : iv.data(), want.data(), in.data(), n, (block128_f)AES_encrypt);
    want.resize(wl);
    CHECK(ol == wl && !memcmp(o.p, want.data(), wl), "wrap-value", "%s n=%zu: %s expected %s", w.n, n, hex(o.p, ol).c_str(), hex(want).c_str());
    // unwrap, possibly of altered data
    Bytes ct = want, iv2 = iv; int mut = (int)g.weighted({3, 4, 1, 1, 2});
    bool wantOk = true; Bytes expect = in;
    if (mut == 1) ct[g.draw(ct.size() - 1)] ^= (uint8_t)(1 << g.draw(7));
    if (mut == 2 && ct.size() >= 32) ct.resize(ct.size() - 8);
    if (mut == 3 && !defIv) iv2[g.draw(iv2.size() - 1)] ^= 1;
    if (mut == 4 && w.pad) {  // craft a padded plaintext whose AIV length or padding is inconsistent
        Bytes p = in; p.resize((n + 7) / 8 * 8); uint32_t bl = (uint32_t)n;
        switch (g.draw(4)) { case 0: bl = (uint32_t)p.size() + 1 + (uint32_t)g.draw(20); break; case 1: bl = (uint32_t)(p.size() >= 8 ? p.size() - 8 : 0); break; case 2: bl = (uint32_t)g.u64(); break; case 3: if (n % 8) p[n + g.draw(7 - n % 8)] = 1; break; default: bl = 0; }
        uint8_t aiv[8]; static const uint8_t D[4] = {0xA6, 0x59, 0x59, 0xA6}; memcpy(aiv, defIv ? D : iv.data(), 4); for (int q = 0; q < 4; q++) aiv[4 + q] = (uint8_t)(bl >> (24 - 8 * q));
        ct.assign(p.size() + 8, 0);
        if (p.size() == 8) { uint8_t b[16]; memcpy(b, aiv, 8); memcpy(b + 8, p.data(), 8); AES_encrypt(b, ct.data(), &ak); }
        else CRYPTO_128_wrap(&ak, aiv, ct.data(), p.data(), p.size(), (block128_f)AES_encrypt);
    }
    AES_KEY dk; AES_set_decrypt_key(key.data(), w.key * 8, &dk); Bytes pt(ct.size() + 16);
    size_t pl = w.pad ? CRYPTO_128_unwrap_pad(&dk, iv2.empty() ? nullptr : iv2.data(), pt.data(), ct.data(), ct.size(), (block128_f)AES_decrypt)
                      : CRYPTO_128_unwrap(&dk, iv2.empty() ? nullptr : iv2.data(), pt.data(), ct.data(), ct.size(), (block128_f)AES_decrypt);
    wantOk = pl != 0; pt.resize(pl);
    Exact v2(iv2), ci(ct), po(ct.size() - 8);
    REQUIRE_OK(CRYPT_EAL_CipherInit(c, k.p, w.key, defIv ? nullptr : v2.p, (uint32_t)v2.n, false), "wrap-init");
    ol = (uint32_t)po.n; r = CRYPT_EAL_CipherUpdate(c, ci.p, (uint32_t)ci.n, po.p, &ol);
    if (mut) g.nontrivial();
    if (wantOk) CHECK(!r && ol == pl && !memcmp(po.p, pt.data(), pl), "unwrap-value", "%s n=%zu mut=%d: %s, %u bytes, expected %zu", w.n, n, mut, rc(r).c_str(), ol, pl);
    else CHECK(r, "unwrap-accept", "%s n=%zu mut=%d: data that is not a wrapping was accepted (%u bytes)", w.n, n, mut, ol);
    g.nontrivial();
}
