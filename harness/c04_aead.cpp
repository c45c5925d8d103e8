#include "ref.hpp"
const char *pbt::PROPERTY_RULE =
    "aead: algorithm (AES/SM4 GCM and CCM, ChaCha20-Poly1305) x key x nonce length x tag length x AAD (0..300 bytes, around 2^16-2^8 for CCM) x message x update split, "
    "on fresh / reinitialised / duplicated contexts, in place or not; GCM nonces are also solved for so that the 32-bit counter wraps inside the message. Half of the "
    "decryptions get one altered element (ciphertext, AAD, nonce, key, tag, tag length). Non-trivial: message or AAD non-empty and (>=2 updates, or an alteration was judged).";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 AES/SM4 block encryption and ChaCha20-Poly1305 are correct"};
void pbt::setup() {}
enum Mode { GCM, CCM, CP };
struct Alg { CRYPT_CIPHER_AlgId id; const char *name, *ecb; Mode m; uint32_t key; };
static const Alg ALGS[] = {{CRYPT_CIPHER_AES128_GCM, "AES128-GCM", "AES-128-ECB", GCM, 16}, {CRYPT_CIPHER_AES192_GCM, "AES192-GCM", "AES-192-ECB", GCM, 24}, {CRYPT_CIPHER_AES256_GCM, "AES256-GCM", "AES-256-ECB", GCM, 32},
    {CRYPT_CIPHER_SM4_GCM, "SM4-GCM", "SM4-ECB", GCM, 16}, {CRYPT_CIPHER_AES128_CCM, "AES128-CCM", "AES-128-ECB", CCM, 16}, {CRYPT_CIPHER_AES192_CCM, "AES192-CCM", "AES-192-ECB", CCM, 24},
    {CRYPT_CIPHER_AES256_CCM, "AES256-CCM", "AES-256-ECB", CCM, 32}, {CRYPT_CIPHER_SM4_CCM, "SM4-CCM", "SM4-ECB", CCM, 16}, {CRYPT_CIPHER_CHACHA20_POLY1305, "CHACHA20-POLY1305", "", CP, 32}};
static const size_t NALG = sizeof(ALGS) / sizeof(ALGS[0]);
struct F { uint64_t a, b; };
static F fmul(F x, F y)
{
    F z{0, 0}, v = y;
    for (int i = 0; i < 128; i++) { uint64_t bit = i < 64 ? x.a >> (63 - i) & 1 : x.b >> (127 - i) & 1; uint64_t m = 0 - bit; z.a ^= v.a & m; z.b ^= v.b & m;
        uint64_t l = 0 - (v.b & 1); v.b = v.b >> 1 | v.a << 63; v.a = (v.a >> 1) ^ (l & 0xe100000000000000ull); }
    return z;
}
static F ld(const uint8_t *p) { F f{0, 0}; for (int i = 0; i < 8; i++) { f.a = f.a << 8 | p[i]; f.b = f.b << 8 | p[8 + i]; } return f; }
static F finv(F x) { F r{0x8000000000000000ull, 0}, s = x; for (int i = 0; i < 127; i++) { s = fmul(s, s); r = fmul(r, s); } return r; }
// a 16-byte GCM nonce whose pre-counter block is j0
static Bytes solveIv(const Alg &a, const Bytes &key, const uint8_t j0[16])
{
    ref::Blk k(a.ecb, key); uint8_t h[16] = {0}; k.enc(h, h); F hi = finv(ld(h)); F t = fmul(ld(j0), hi); t.b ^= 128; t = fmul(t, hi);
    Bytes iv(16); ref::put64be(iv.data(), t.a); ref::put64be(iv.data() + 8, t.b); return iv;
}
static Bytes refSeal(const Alg &a, const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &in, bool dec, size_t tl, Bytes &tag)
{
    uint8_t t[16]; Bytes out;
    if (a.m == CP) {
        Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free> c(EVP_CIPHER_CTX_new()); int l; Bytes n = iv; if (n.size() == 8) n.insert(n.begin(), 4, 0);
        if (dec) {  // keystream is symmetric; recompute the tag over the ciphertext by encrypting the recovered plaintext
            uint8_t iv16[16] = {1, 0, 0, 0}; memcpy(iv16 + 4, n.data(), 12); out.resize(in.size());
            EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv16); if (in.size()) EVP_EncryptUpdate(c, out.data(), &l, in.data(), (int)in.size());
            Bytes tt; refSeal(a, key, iv, aad, out, false, tl, tag); return out;
        }
        EVP_EncryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, nullptr, nullptr); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, 12, nullptr);
        EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), n.data()); uint8_t z;
        if (aad.size()) EVP_EncryptUpdate(c, nullptr, &l, aad.data(), (int)aad.size());
        out.resize(in.size()); EVP_EncryptUpdate(c, in.size() ? out.data() : &z, &l, in.size() ? in.data() : &z, (int)in.size());
        EVP_EncryptFinal_ex(c, &z, &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, t);
    } else {
        ref::Blk k(a.ecb, key); out = a.m == GCM ? ref::gcm(k, iv, aad, in, dec, t) : ref::ccm(k, iv, aad, in, dec, tl, t);
    }
    tag.assign(t, t + tl); return out;
}
static int32_t start(G &g, CRYPT_EAL_CipherCtx *c, const Alg &a, const Bytes &key, const Bytes &iv, const Bytes &aad, size_t n, uint32_t tl, bool enc, bool re, std::string &h)
{
    Exact k(key), v(iv), d(aad); int32_t r;
    r = re ? CRYPT_EAL_CipherReinit(c, v.p, (uint32_t)v.n) : CRYPT_EAL_CipherInit(c, k.p, (uint32_t)k.n, v.p, (uint32_t)v.n, enc);
    h += sfmt(" %s:%s iv=%zu", re ? "reinit" : "init", enc ? "enc" : "dec", iv.size());
    if (r) return r;
    uint64_t ml = n; bool msgFirst = g.boolean();
    if (a.m == CCM && msgFirst) if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof ml))) return r;
    if (a.m != CP && (tl != 16 || g.boolean() || re)) if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &tl, sizeof tl))) return r;
    if (a.m == CCM && !msgFirst) if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof ml))) return r;
    if (!aad.empty() || (a.m != CCM && g.chance(1, 4))) { if ((r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_AAD, d.p, (uint32_t)d.n))) return r; h += sfmt(" aad=%zu", aad.size()); }
    return 0;
}
static Bytes stream(G &g, CRYPT_EAL_CipherCtx **c, const Bytes &in, int &upd, std::string &h)
{
    Bytes out; size_t pos = 0; upd = 0;
    for (size_t n : g.chunks(in.size())) {
        if (g.chance(1, 16)) { CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherDupCtx(*c); CHECK(d, "aead-dup", "%s: dup failed", h.c_str()); CRYPT_EAL_CipherFreeCtx(*c); *c = d; h += " dup"; }
        bool ip = n && g.chance(1, 3); size_t cap = n + (ip ? 0 : g.draw(3) * 5); Exact o(cap), i(in.data() + pos, n); if (ip) memcpy(o.p, in.data() + pos, n);
        uint32_t ol = (uint32_t)cap; int32_t r = CRYPT_EAL_CipherUpdate(*c, ip ? o.p : i.p, (uint32_t)n, o.p, &ol); h += sfmt(" %su%zu", ip ? "ip" : "", n);
        CHECK(!r && ol == n, "aead-update", "%s: update returned %s, %u bytes", h.c_str(), rc(r).c_str(), ol);
        for (size_t q = n; q < cap; q++) CHECK(o.p[q] == 0xA5, "aead-overwrite", "%s: wrote beyond the reported length", h.c_str());
        out.insert(out.end(), o.p, o.p + n); pos += n; if (n) upd++;
    }
    return out;
}
PBT_TEST(aead, 200000, 3000000)
{
    const Alg &a = ALGS[g.cycle(NALG)]; g.label(a.name);
    CRYPT_EAL_CipherCtx *c = CRYPT_EAL_CipherNewCtx(a.id); CHECK(c, "aead-new", "%s unavailable", a.name);
    struct Cl { CRYPT_EAL_CipherCtx **c; ~Cl() { CRYPT_EAL_CipherFreeCtx(*c); } } cl{&c};
    std::string h = a.name; int rounds = 1 + (int)g.draw(2); Bytes key; bool keyed = false, kenc = false;
    for (int rd = 0; rd < rounds; rd++) {
        bool re = keyed && g.chance(1, 3); if (!re) key = g.bytes(a.key);
        size_t n; switch (g.weighted({4, 4, 1})) { case 0: n = g.draw(100); break; case 1: n = g.len(0, 1200); break; default: n = g.len(0, 9000); }
        size_t al = g.weighted({6, 3, 3}); al = al == 0 ? g.draw(40) : al == 1 ? 0 : g.len(0, 300); if (a.m == CCM && g.chance(1, 40)) al = 0xff00 - 2 + g.draw(4);
        Bytes msg = g.bytes(n), aad = g.bytes(al), iv;
        uint32_t tl = a.m == CP ? 16 : a.m == GCM ? g.pick({16u, 4u, 8u, 12u, 13u, 14u, 15u}) : g.pick({16u, 4u, 6u, 8u, 10u, 12u, 14u});
        if (a.m == CP) iv = g.bytes(g.chance(1, 5) ? 8 : 12);
        else if (a.m == CCM) iv = g.bytes(7 + g.draw(6));
        else switch (g.weighted({4, 3, 2})) {
            case 0: iv = g.bytes(12); break;
            case 1: iv = g.bytes(g.len(1, 140)); break;
            default: { Bytes j = g.bytes(16); j[12] = j[13] = j[14] = 0xff; j[15] = (uint8_t)(0xff - g.draw(80)); { ref::Blk k(a.ecb, key); uint8_t z[16] = {0}; k.enc(z, z); } iv = solveIv(a, key, j.data()); h += " ctrwrap"; g.label("counter-wrap"); }
        }
        if (a.m == CCM && n >> (8 * std::min<size_t>(7, 15 - iv.size()))) { n = n & 0xff; msg.resize(n); }
        bool enc = re ? kenc : g.boolean(); int upd; Bytes tag;
        Bytes ct = refSeal(a, key, iv, aad, msg, false, tl, tag);
        if (enc) {
            int32_t r = start(g, c, a, key, iv, aad, n, tl, true, re, h); CHECK(!r, "aead-init", "%s: setup failed %s", h.c_str(), rc(r).c_str()); keyed = true; kenc = true;
            Bytes out = stream(g, &c, msg, upd, h);
            if (g.chance(1, 4)) { uint8_t z[16]; uint32_t zl = 16; r = CRYPT_EAL_CipherFinal(c, z, &zl); CHECK(!r && zl == 0, "aead-final", "%s: final %s %u", h.c_str(), rc(r).c_str(), zl); }
            Exact t(tl); r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, t.p, tl); CHECK(!r, "aead-gettag", "%s: get tag failed %s", h.c_str(), rc(r).c_str());
            CHECK(out == ct, "aead-ciphertext", "%s: ciphertext %s expected %s", h.c_str(), hex(out).c_str(), hex(ct).c_str());
            CHECK(t.vec() == tag, "aead-tag", "%s tl=%u: tag %s expected %s", h.c_str(), tl, hex(t.vec()).c_str(), hex(tag).c_str());
            if (n + al && upd > 1) g.nontrivial();
        } else {
            int mut = (int)g.weighted({5, 2, 2, 2, 1, 2, 1, 1}); Bytes k2 = key, iv2 = iv, aad2 = aad, ct2 = ct, tag2 = tag; bool setTag = g.chance(2, 3);
            if (mut == 1) { if (ct2.empty()) mut = 0; else ct2[g.draw(ct2.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); }
            if (mut == 2) { if (aad2.empty()) aad2.push_back(0); else if (g.boolean()) aad2[g.draw(aad2.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); else aad2.pop_back(); }
            if (mut == 3) iv2[g.draw(iv2.size() - 1)] ^= (uint8_t)(1 << g.draw(7));
            if (mut == 4) { if (re) mut = 0; else k2[g.draw(k2.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); }
            if (mut == 5) { tag2[g.draw(tl - 1)] ^= (uint8_t)(1 << g.draw(7)); setTag = true; }
            if (mut == 6) { if (a.m == CCM && g.boolean()) {} tag2.resize(g.draw(tl - 1)); setTag = true; }   // truncated tag
            if (mut == 7) { if (ct2.empty()) mut = 0; else ct2.pop_back(); }
            int32_t r = start(g, c, a, k2, iv2, aad2, ct2.size(), tl, false, re, h); CHECK(!r, "aead-init", "%s: setup failed %s", h.c_str(), rc(r).c_str()); keyed = true; kenc = false; if (!re) key = k2;
            h += sfmt(" mut=%d", mut);
            Exact te(tag2); bool early = g.boolean();
            int32_t sr = 0; if (setTag && early) sr = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAG, te.p, (uint32_t)te.n);
            Bytes out = stream(g, &c, ct2, upd, h);
            if (setTag && !early) sr = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAG, te.p, (uint32_t)te.n);
            if (mut != 6) CHECK(!sr, "aead-settag", "%s: set tag failed %s", h.c_str(), rc(sr).c_str());
            Bytes want2t, want2 = refSeal(a, k2, iv2, aad2, ct2, true, tl, want2t);
            CHECK(out == want2, "aead-plaintext", "%s: decryption %s expected %s", h.c_str(), hex(out).c_str(), hex(want2).c_str());
            bool shouldPass = mut == 0 || (mut != 6 && want2t == tag2);   // short tags can collide by chance
            if (setTag) {
                uint8_t z[16]; uint32_t zl = 16; r = sr ? sr : CRYPT_EAL_CipherFinal(c, z, &zl);
                if (shouldPass) CHECK(!r && zl == 0, "aead-reject", "%s: genuine message rejected %s", h.c_str(), rc(r).c_str());
                else CHECK(r, "aead-accept", "%s tl=%u: altered message accepted", h.c_str(), tl);
            } else {
                if (g.boolean()) { CRYPT_EAL_CipherCtx *d = CRYPT_EAL_CipherDupCtx(c); uint8_t z[16]; uint32_t zl = 16; r = CRYPT_EAL_CipherFinal(d, z, &zl); CRYPT_EAL_CipherFreeCtx(d);
                    CHECK(r, "aead-final-notag", "%s: final succeeded without an expected tag", h.c_str()); }
                Exact t(tl); r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_GET_TAG, t.p, tl); CHECK(!r, "aead-gettag", "%s: get tag failed %s", h.c_str(), rc(r).c_str());
                CHECK(t.vec() == want2t, "aead-tag", "%s: decryption tag %s expected %s", h.c_str(), hex(t.vec()).c_str(), hex(want2t).c_str());
            }
            if (n + al && (mut || upd > 1)) g.nontrivial();
        }
    }
    g.note("%s", h.c_str());
}
// lengths outside the standard's set are refused, those inside are accepted
PBT_TEST(limits, 6000, 200000)
{
    const Alg &a = ALGS[g.draw(sizeof ALGS / sizeof ALGS[0] - 1)]; Bytes key = g.bytes(a.key); CipherCtx c(CRYPT_EAL_CipherNewCtx(a.id)); CHECK(c, "limits-new", "no context"); bool enc = g.boolean(); std::string h = sfmt("%d %s", (int)a.id, enc ? "enc" : "dec");
    if (g.boolean()) { size_t n = g.chance(1, 2) ? (size_t)g.range(1, 20) : (size_t)g.draw(300); bool ok = a.m == GCM ? n >= 1 : a.m == CCM ? n >= 7 && n <= 13 : n == 12 || n == 8; Bytes iv = g.bytes(n); Exact v(iv); int32_t r = CRYPT_EAL_CipherInit(c, key.data(), (uint32_t)key.size(), v.p, (uint32_t)n, enc); CHECK((r == 0) == ok, "limits-nonce", "%s: nonce of %zu octets: %s", h.c_str(), n, rc(r).c_str()); g.label(ok ? "nonce accepted" : "nonce refused"); g.nontrivial(); g.key(sfmt("%s n%zu", h.c_str(), n)); return; }
    Bytes iv = g.bytes(12); CHECK(CRYPT_EAL_CipherInit(c, key.data(), (uint32_t)key.size(), iv.data(), 12, enc) == 0, "limits-init", "init"); uint32_t t = (uint32_t)(g.chance(1, 6) ? g.draw(UINT32_MAX) : g.draw(20)); bool ok = a.m == GCM ? t == 4 || t == 8 || (t >= 12 && t <= 16) : a.m == CCM ? t >= 4 && t <= 16 && t % 2 == 0 : false;
    if (a.m != CP) { int32_t r = CRYPT_EAL_CipherCtrl(c, CRYPT_CTRL_SET_TAGLEN, &t, sizeof t); CHECK((r == 0) == ok, "limits-tag", "%s: tag of %u octets: %s", h.c_str(), t, rc(r).c_str()); g.label(ok ? "tag accepted" : "tag refused"); g.nontrivial(); g.key(sfmt("%s t%u", h.c_str(), t)); }
    if (a.m == CCM) { uint64_t ml = g.draw(64); size_t n = (size_t)g.draw(64); CipherCtx d(CRYPT_EAL_CipherNewCtx(a.id)); CHECK(CRYPT_EAL_CipherInit(d, key.data(), (uint32_t)key.size(), iv.data(), 12, enc) == 0, "limits-init", "init"); CHECK(CRYPT_EAL_CipherCtrl(d, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof ml) == 0, "limits-msglen", "msglen"); Exact in(g.bytes(n)), out(n); uint32_t ol = (uint32_t)n; if (!n) return; int32_t r = CRYPT_EAL_CipherUpdate(d, in.p, (uint32_t)n, out.p, &ol); CHECK((r == 0) == (n <= ml), "limits-msglen", "%s: update of %zu octets of a %llu octet message: %s", h.c_str(), n, (unsigned long long)ml, rc(r).c_str()); g.nontrivial(); }
}
