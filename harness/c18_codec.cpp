// C18: key encodings here and in OpenSSL
#include "ops.hpp"
#include "opki.hpp"
#include <openssl/pem.h>
#include <openssl/ec.h>
#include <openssl/pkcs12.h>
#include <unistd.h>
extern "C" {
#include "crypt_params_key.h"
#include "bsl_types.h"
}
using namespace ops; using namespace opki;
const char *pbt::PROPERTY_RULE =
    "OpenSSL keys (RSA with assorted sizes, EC on every supported curve incl. scalars with leading zero bytes, SM2, Ed25519, X25519) written by OpenSSL as PKCS#8 (plain, PBES2 with random cipher, PRF, salt, iteration count and "
    "password bytes), PKCS#1/SEC1 (with optional fields present or absent) and SPKI, DER or PEM, are decoded here through every API variant (typed, format/type guessing, provider, file) and the result, re-encoded here in a random form, must be the "
    "same key to OpenSSL and to this library; keys of all library types (incl. ML-KEM, ML-DSA, SLH-DSA, composite, DSA, DH, XMSS public) generated here round-trip through every form; wrong passwords and truncations must fail; randomly mutated encodings that both implementations accept must mean "
    "the same key. Non-trivial: a key went through at least one encode and one decode.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 as independent reader/writer (it has no post-quantum types: these are round-tripped only)", "an EC key read without its public part can only be compared by its scalar"};
static std::vector<EVP_PKEY *> rsaPool;
void pbt::setup() { useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); CRYPT_EAL_Init(0); useDetRand(); detOssl(7); for (const char *h : RSA_KEYS) rsaPool.push_back(fixedKey(h)); for (auto &r : rows()) if (!(r.caps & SLOW) && !(r.id == CRYPT_PKEY_RSA && r.para == -2)) cached(r, 0); BSL_ERR_RemoveErrorStack(true); }
static const int CURVES[] = {NID_secp224r1, NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1, NID_brainpoolP256r1, NID_brainpoolP384r1, NID_brainpoolP512r1};
struct OK { EVP_PKEY *k = nullptr; bool own = true; char kind = 'e'; ~OK() { if (own) EVP_PKEY_free(k); } };
static void mk(G &g, OK &o)
{
    int w = (int)g.weighted({4, 5, 1, 1, 1});
    if (w == 0) { o.k = g.pick(rsaPool); o.own = false; o.kind = 'r'; g.label("rsa"); return; }
    if (w == 2) { o.k = newKey(KSM2); o.kind = 's'; g.label("sm2"); return; }
    if (w >= 3) { Bytes b = g.bytes(32); if (g.chance(1, 4)) b[0] = 0; o.k = EVP_PKEY_new_raw_private_key(w == 3 ? EVP_PKEY_ED25519 : EVP_PKEY_X25519, nullptr, b.data(), 32); o.kind = w == 3 ? 'd' : 'x'; g.label(w == 3 ? "ed25519" : "x25519"); return; }
    int nid = CURVES[g.draw(6)]; EC_KEY *e = EC_KEY_new_by_curve_name(nid); const EC_GROUP *gr = EC_KEY_get0_group(e); int bits = EC_GROUP_order_bits(gr); Bytes b = g.bytes((size_t)((bits + 7) / 8)); int z = (int)g.weighted({4, 2, 2, 1}); size_t lead = z == 0 ? 0 : z == 1 ? 1 : z == 2 ? g.draw(b.size() - 1) : b.size() - 1; for (size_t i = 0; i < lead; i++) b[i] = 0; BIGNUM *d = BN_bin2bn(b.data(), (int)b.size(), nullptr); BN_CTX *c = BN_CTX_new(); BN_nnmod(d, d, EC_GROUP_get0_order(gr), c); BN_CTX_free(c); if (BN_is_zero(d)) BN_one(d);
    EC_POINT *q = EC_POINT_new(gr); EC_POINT_mul(gr, q, d, nullptr, nullptr, nullptr); EC_KEY_set_private_key(e, d); EC_KEY_set_public_key(e, q); EC_POINT_free(q); BN_free(d); o.k = EVP_PKEY_new(); EVP_PKEY_assign_EC_KEY(o.k, e); g.label(lead ? "ec, leading zeros" : "ec");
}
static Bytes i2d(EVP_PKEY *k, int (*f)(const EVP_PKEY *, unsigned char **)) { uint8_t *p = nullptr; int n = f(k, &p); Bytes b(p, p + (n > 0 ? n : 0)); OPENSSL_free(p); return b; }
static Bytes pem(const char *name, const Bytes &d) { BIO *m = BIO_new(BIO_s_mem()); PEM_write_bio(m, name, "", d.data(), (long)d.size()); char *p; long n = BIO_get_mem_data(m, &p); Bytes b(p, p + n); BIO_free(m); return b; }
static Bytes unpem(const Bytes &t, std::string &name) { BIO *m = BIO_new_mem_buf(t.data(), (int)t.size()); char *nm = nullptr, *h = nullptr; uint8_t *d = nullptr; long n = 0; Bytes r; if (PEM_read_bio(m, &nm, &h, &d, &n)) { r.assign(d, d + n); name = nm; OPENSSL_free(nm); OPENSSL_free(h); OPENSSL_free(d); } BIO_free(m); return r; }
static const char *pemName(int type, char kind) { switch (type) { case CRYPT_PRIKEY_PKCS8_UNENCRYPT: return "PRIVATE KEY"; case CRYPT_PRIKEY_PKCS8_ENCRYPT: return "ENCRYPTED PRIVATE KEY"; case CRYPT_PRIKEY_RSA: return "RSA PRIVATE KEY"; case CRYPT_PRIKEY_ECC: return "EC PRIVATE KEY"; case CRYPT_PUBKEY_SUBKEY: return "PUBLIC KEY"; default: return "RSA PUBLIC KEY"; } (void)kind; }
static const char *typeName(int t) { static const char *n[] = {nullptr, "PRIKEY_PKCS8_UNENCRYPT", "PRIKEY_PKCS8_ENCRYPT", "PRIKEY_RSA", "PRIKEY_ECC", "PUBKEY_SUBKEY", "PUBKEY_RSA", "PUBKEY_SUBKEY_WITHOUT_SEQ"}; return n[t]; }
static bool priv(int t) { return t >= CRYPT_PRIKEY_PKCS8_UNENCRYPT && t <= CRYPT_PRIKEY_ECC; }
static Bytes p8enc(const Bytes &p8, const Bytes &pw, G &g)
{
    static const EVP_CIPHER *(*cs[])() = {EVP_aes_128_cbc, EVP_aes_192_cbc, EVP_aes_256_cbc, EVP_sm4_cbc}; static const int prfs[] = {NID_hmacWithSHA1, NID_hmacWithSHA224, NID_hmacWithSHA256, NID_hmacWithSHA384, NID_hmacWithSHA512, NID_hmacWithSHA256};
    Bytes salt = g.bytes(g.range(8, 40)); int it = (int)g.range(1, g.boolean() ? 40 : 300); X509_ALGOR *a = PKCS5_pbe2_set_iv(cs[g.draw(3)](), it, salt.data(), (int)salt.size(), nullptr, prfs[g.draw(5)]); const uint8_t *p = p8.data(); PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)p8.size()); X509_SIG *s = PKCS8_set0_pbe((const char *)pw.data(), (int)pw.size(), i, a); uint8_t *o = nullptr; int n = i2d_X509_SIG(s, &o); Bytes b(o, o + n); OPENSSL_free(o); X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(i); return b;
}
static const char *api[] = {"typed", "guess format", "guess type", "provider", "file"};
// decode through one of the API variants
static int32_t decode(int how, int fmt, int type, const Bytes &in, const Bytes &pw, PkeyCtx &out, bool havePw, int32_t alg = 0)
{
    Exact e(in), w(pw); Bytes z = in; if (fmt == BSL_FORMAT_PEM) z.push_back(0); Exact e2(z); BSL_Buffer b = {fmt == BSL_FORMAT_PEM ? e2.p : e.p, (uint32_t)in.size()}; const uint8_t *pp = havePw ? w.p : nullptr; uint32_t pl = havePw ? (uint32_t)pw.size() : 0; CRYPT_EAL_PkeyCtx *k = nullptr; int32_t r; BSL_Buffer pb = {(uint8_t *)pp, pl};
    switch (how) {
        case 0: r = CRYPT_EAL_DecodeBuffKey(fmt, type, &b, pp, pl, &k); break;
        case 1: r = CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_UNKNOWN, type, &b, pp, pl, &k); break;
        case 2: r = CRYPT_EAL_DecodeBuffKey(fmt, CRYPT_ENCDEC_UNKNOW, &b, pp, pl, &k); break;
        case 3: r = CRYPT_EAL_ProviderDecodeBuffKey(nullptr, nullptr, alg ? alg : BSL_CID_UNKNOWN, fmt == BSL_FORMAT_PEM ? "PEM" : "ASN1", typeName(type), &b, havePw ? &pb : nullptr, &k); break;
        default: { char path[] = "/tmp/c18XXXXXX"; int fd = mkstemp(path); if (fd < 0) pbt::discard(); if (write(fd, in.data(), in.size()) != (ssize_t)in.size()) { close(fd); unlink(path); pbt::discard(); } close(fd); r = CRYPT_EAL_DecodeFileKey(fmt, type, path, (uint8_t *)pp, pl, &k); unlink(path); }
    }
    CHECK((r == 0) == (k != nullptr), "c18-ret", "returned 0x%x with%s a key", (unsigned)r, k ? "" : "out"); out.reset(k); return r;
}
static Bytes encode(CRYPT_EAL_PkeyCtx *k, int fmt, int type, const CRYPT_EncodeParam *ep, int32_t &r, const BSL_Param *px = nullptr) { BSL_Buffer b = {nullptr, 0}; r = px ? CRYPT_EAL_EncodeBuffKeyEx(k, px, fmt, type, &b) : CRYPT_EAL_EncodeBuffKey(k, ep, fmt, type, &b); Bytes o(b.data, b.data + (b.data ? b.dataLen : 0)); if (r) CHECK(!b.data, "c18-encleak", "failed encoding left a buffer"); if (type == CRYPT_PRIKEY_PKCS8_UNENCRYPT) BSL_SAL_ClearFree(b.data, b.dataLen); else BSL_SAL_Free(b.data); return o; }
// types the provider-based decoders do not serve (they report 'no usable decoder')
static bool noDec(int id) { return id == CRYPT_PKEY_DSA || id == CRYPT_PKEY_DH ; }
static EVP_PKEY *readPriv(const Bytes &b, int type, const Bytes &pw)
{
    const uint8_t *p = b.data(); EVP_PKEY *k = nullptr;
    if (type == CRYPT_PRIKEY_PKCS8_ENCRYPT) { X509_SIG *s = d2i_X509_SIG(nullptr, &p, (long)b.size()); if (!s) return nullptr; PKCS8_PRIV_KEY_INFO *i = PKCS8_decrypt(s, (const char *)pw.data(), (int)pw.size()); X509_SIG_free(s); if (i) { k = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); } return k; }
    if (type == CRYPT_PRIKEY_PKCS8_UNENCRYPT) { PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)b.size()); if (!i) return nullptr; k = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); return k; }
    return d2i_PrivateKey(type == CRYPT_PRIKEY_RSA ? EVP_PKEY_RSA : EVP_PKEY_EC, nullptr, &p, (long)b.size());
}
static Bytes privVal(EVP_PKEY *k) { BIGNUM *d = nullptr; Bytes b; size_t n = 0; if (EVP_PKEY_get_raw_private_key(k, nullptr, &n) == 1) { b.resize(n); EVP_PKEY_get_raw_private_key(k, b.data(), &n); return b; } ERR_clear_error(); if (EVP_PKEY_get_bn_param(k, EVP_PKEY_is_a(k, "RSA") ? "d" : "priv", &d) == 1) { b.resize((size_t)BN_num_bytes(d)); BN_bn2bin(d, b.data()); BN_free(d); } return b; }
static void genPb(G &g, CRYPT_Pbkdf2Param &pb, Bytes &pw) { static const int macs[] = {CRYPT_MAC_HMAC_SHA1, CRYPT_MAC_HMAC_SHA224, CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SHA384, CRYPT_MAC_HMAC_SHA512}, cs[] = {CRYPT_CIPHER_AES128_CBC, CRYPT_CIPHER_AES192_CBC, CRYPT_CIPHER_AES256_CBC, CRYPT_CIPHER_SM4_CBC}; pb = {BSL_CID_PBES2, BSL_CID_PBKDF2, (uint32_t)macs[g.draw(4)], (uint32_t)cs[g.draw(3)], (uint32_t)g.range(8, 40), pw.data(), (uint32_t)pw.size(), (uint32_t)g.range(1, 100)}; }
static Bytes genPw(G &g) { return g.bytes(g.chance(1, 12) ? g.range(60, 300) : g.range(1, 20)); }
static int pickType(G &g, char kind, bool pub = true) { std::vector<int> t = {CRYPT_PRIKEY_PKCS8_UNENCRYPT, CRYPT_PRIKEY_PKCS8_UNENCRYPT, CRYPT_PRIKEY_PKCS8_ENCRYPT}; if (pub) t.push_back(CRYPT_PUBKEY_SUBKEY); if (kind == 'r') { t.push_back(CRYPT_PRIKEY_RSA); if (pub) t.push_back(CRYPT_PUBKEY_RSA); } if (kind == 'e' || kind == 's') t.push_back(CRYPT_PRIKEY_ECC); return g.pick(t); }
// Curve25519 private keys carry no public part: it has to be derived explicitly
static void derive(CRYPT_EAL_PkeyCtx *k) { int id = CRYPT_EAL_PkeyGetId(k); if (id == CRYPT_PKEY_ED25519) { uint8_t s[64]; uint32_t n = 64; CRYPT_EAL_PkeySign(k, CRYPT_MD_SHA512, s, 0, s, &n); } if (id == CRYPT_PKEY_X25519) CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GEN_X25519_PUBLICKEY, nullptr, 0); }
static void sameAsOssl(G &g, CRYPT_EAL_PkeyCtx *k, EVP_PKEY *ref, char kind, bool isPriv, const char *what)
{
    if (isPriv) derive(k);
    int type = isPriv ? pickType(g, kind) : kind == 'r' && g.boolean() ? CRYPT_PUBKEY_RSA : CRYPT_PUBKEY_SUBKEY; int fmt = g.boolean() ? BSL_FORMAT_ASN1 : BSL_FORMAT_PEM; Bytes pw = genPw(g); CRYPT_Pbkdf2Param pb; genPb(g, pb, pw); CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; int32_t r; Bytes b = encode(k, fmt, type, type == CRYPT_PRIKEY_PKCS8_ENCRYPT ? &ep : nullptr, r); CHECK(r == 0, "c18-reenc", "%s: encoding as %s fails 0x%x", what, typeName(type), (unsigned)r);
    Bytes d = b; if (fmt == BSL_FORMAT_PEM) { std::string nm; d = unpem(b, nm); CHECK(nm == pemName(type, kind) || (nm == "PRIVATE KEY" && type == CRYPT_PRIKEY_PKCS8_UNENCRYPT), "c18-pemname", "%s: PEM label \"%s\" for %s", what, nm.c_str(), typeName(type)); }
    EVP_PKEY *o; const uint8_t *p = d.data(); if (type == CRYPT_PUBKEY_SUBKEY) o = d2i_PUBKEY(nullptr, &p, (long)d.size()); else if (type == CRYPT_PUBKEY_RSA) o = d2i_PublicKey(EVP_PKEY_RSA, nullptr, &p, (long)d.size()); else o = readPriv(d, type, pw); CHECK(o, "c18-ossl-reads", "%s: OpenSSL cannot read the %s written here: %s", what, typeName(type), hex(d).substr(0, 300).c_str());
    int eq = EVP_PKEY_eq(o, ref); bool pv = !priv(type) || privVal(o) == privVal(ref); EVP_PKEY_free(o); CHECK(eq == 1 && pv, "c18-ossl-key", "%s: the %s written here is a different key to OpenSSL (public %s, private %s)", what, typeName(type), eq == 1 ? "equal" : "different", pv ? "equal" : "different");
}
struct Enc { Bytes b, der, pw; int type, fmt; bool noPub = false; };
static Enc osslWrite(G &g, const OK &o)
{
    Enc e; e.type = pickType(g, o.kind); e.pw = genPw(g); EC_KEY *ec = o.kind == 'e' ? const_cast<EC_KEY *>(EVP_PKEY_get0_EC_KEY(o.k)) : nullptr; unsigned fl = 0; if (ec) { fl = g.chance(1, 5) ? EC_PKEY_NO_PUBKEY : 0; e.noPub = fl != 0; EC_KEY_set_enc_flags(ec, fl); EC_KEY_set_conv_form(ec, POINT_CONVERSION_UNCOMPRESSED); if (g.chance(1, 6)) { EC_KEY_set_conv_form(ec, POINT_CONVERSION_COMPRESSED); g.label("compressed point"); } }
    switch (e.type) { case CRYPT_PRIKEY_PKCS8_UNENCRYPT: e.b = der(o.k); break; case CRYPT_PRIKEY_PKCS8_ENCRYPT: e.b = p8enc(der(o.k), e.pw, g); break; case CRYPT_PRIKEY_RSA: case CRYPT_PRIKEY_ECC: e.b = i2d(o.k, i2d_PrivateKey); break; case CRYPT_PUBKEY_SUBKEY: e.b = derPub(o.k); e.noPub = false; break; default: e.b = i2d(o.k, i2d_PublicKey); }
    if (ec) EC_KEY_set_enc_flags(ec, 0); e.der = e.b; e.fmt = g.boolean() ? BSL_FORMAT_ASN1 : BSL_FORMAT_PEM; if (e.fmt == BSL_FORMAT_PEM) e.b = pem(pemName(e.type, o.kind), e.b); return e;
}
PBT_TEST(from_openssl, 6000, 200000, 0, 120)
{
    detOssl(g.draw(UINT64_MAX)); seedRand(g); OK o; mk(g, o); Enc e = osslWrite(g, o); int how = (int)g.weighted({5, 2, 2, 2, 1});  g.label(sfmt("%s %s", api[how], typeName(e.type))); PkeyCtx k; std::string what = sfmt("%s %s key via %s", e.fmt == BSL_FORMAT_PEM ? "PEM" : "DER", typeName(e.type), api[how]);
    int32_t r = decode(how, e.fmt, e.type, e.b, e.pw, k, e.type == CRYPT_PRIKEY_PKCS8_ENCRYPT || g.boolean()); CHECK(r == 0, "c18-read", "%s written by OpenSSL is refused 0x%x: %s", what.c_str(), (unsigned)r, hex(e.der).substr(0, 400).c_str());
    if (e.noPub && priv(e.type)) { uint8_t d[128]; CRYPT_EAL_PkeyPrv pv = {}; pv.id = CRYPT_PKEY_ECDSA; pv.key.eccPrv = {d, sizeof d}; CHECK(CRYPT_EAL_PkeyGetPrv(k, &pv) == 0, "c18-nopub", "no scalar"); Bytes got(d, d + pv.key.eccPrv.len); while (!got.empty() && !got[0]) got.erase(got.begin()); CHECK(got == privVal(o.k), "c18-nopub-val", "%s: scalar %s", what.c_str(), hex(got).c_str()); g.label("no public part"); }
    else sameAsOssl(g, k, o.k, o.kind, priv(e.type), what.c_str());
    if (g.chance(1, 3)) { Bytes t = e.b; t.resize(g.draw(t.size() - 1)); if (e.fmt == BSL_FORMAT_PEM) { std::string s(t.begin(), t.end()); if (s.find("-----END") != std::string::npos) t.resize(s.find("-----END")); } PkeyCtx k2; int32_t r2 = decode(how == 4 ? 0 : how, e.fmt, e.type, t, e.pw, k2, true); CHECK(r2 != 0, "c18-trunc", "%s cut to %zu of %zu bytes is accepted", what.c_str(), t.size(), e.b.size()); }
    if (e.type == CRYPT_PRIKEY_PKCS8_ENCRYPT) { Bytes w = e.pw; switch (g.draw(3)) { case 0: w[g.draw(w.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); break; case 1: w.push_back((uint8_t)g.range(1, 255)); break; case 2: w.pop_back(); break; default: w.clear(); } auto trim = [](Bytes x) { while (!x.empty() && !x.back()) x.pop_back(); return x; }; if (trim(w) != trim(e.pw) /* HMAC pads keys with zeros */) { PkeyCtx k2; int32_t r2 = decode(how, e.fmt, e.type, e.b, w, k2, !w.empty() || g.boolean()); CHECK(r2 != 0, "c18-wrongpw", "%s decrypts with the wrong password", what.c_str()); } }
    g.nontrivial(); g.key(what + std::to_string(o.kind) + hex(e.der).substr(0, 80)); BSL_ERR_RemoveErrorStack(true);
}
// the same key read here and in OpenSSL, and read back here
PBT_TEST(own_roundtrip, 4000, 100000, 0, 120)
{
    static std::vector<const Row *> pool; if (pool.empty()) for (auto &r : rows()) { if ((r.caps & SLOW) || (r.id == CRYPT_PKEY_RSA && r.para == -2) || r.id == CRYPT_PKEY_ECDH || r.id == CRYPT_PKEY_PAILLIER || r.id == CRYPT_PKEY_ELGAMAL || r.id == CRYPT_PKEY_HYBRID_KEM || r.id == CRYPT_PKEY_FRODOKEM || r.id == CRYPT_PKEY_MCELIECE) continue; pool.push_back(&r); } seedRand(g); detOssl(g.draw(UINT64_MAX));
    const Row &r = *g.pick(pool); CRYPT_EAL_PkeyCtx *k = cached(r, 0); PkeyCtx fresh; if ((r.caps & GEN) && g.chance(1, 3) && r.id != CRYPT_PKEY_DH && r.id != CRYPT_PKEY_DSA) { fresh.reset(newCtx(r, g.boolean())); if (params(fresh, r) || CRYPT_EAL_PkeyGen(fresh)) pbt::fail("c18-gen", "generation of %s fails", r.name); k = fresh; }
    char kind = r.id == CRYPT_PKEY_RSA ? 'r' : r.id == CRYPT_PKEY_ECDSA ? 'e' : r.id == CRYPT_PKEY_SM2 ? 's' : '-'; int type = pickType(g, kind); int fmt = g.boolean() ? BSL_FORMAT_ASN1 : BSL_FORMAT_PEM; Bytes pw = genPw(g); CRYPT_Pbkdf2Param pb; genPb(g, pb, pw); CRYPT_EncodeParam ep = {CRYPT_DERIVE_PBKDF2, &pb}; int32_t rc; Bytes b; bool pq = r.id == CRYPT_PKEY_ML_DSA || r.id == CRYPT_PKEY_SLH_DSA, one = pq && priv(type) && g.boolean();
    bool viaParam = type == CRYPT_PRIKEY_PKCS8_ENCRYPT && g.chance(1, 3);
    if (one || viaParam) { std::vector<BSL_Param> ps; uint8_t dm = 1; bool tr = true; (void)dm; int32_t mode = CRYPT_DERIVE_PBKDF2; BSL_Param x; if (viaParam || type == CRYPT_PRIKEY_PKCS8_ENCRYPT) { struct { int key; uint32_t *v; } u[] = {{CRYPT_PARAM_ENCODE_PBES_ID, &pb.pbesId}, {CRYPT_PARAM_ENCODE_PBKDF_ID, &pb.pbkdfId}, {CRYPT_PARAM_ENCODE_HMAC_ID, &pb.hmacId}, {CRYPT_PARAM_ENCODE_SYM_ID, &pb.symId}, {CRYPT_PARAM_ENCODE_SALT_LEN, &pb.saltLen}, {CRYPT_PARAM_ENCODE_ITERATION, &pb.itCnt}}; BSL_PARAM_InitValue(&x, CRYPT_PARAM_ENCODE_DERIVE_MODE, BSL_PARAM_TYPE_UINT32, &mode, 4); ps.push_back(x); for (auto &q : u) { BSL_PARAM_InitValue(&x, q.key, BSL_PARAM_TYPE_UINT32, q.v, 4); ps.push_back(x); } BSL_PARAM_InitValue(&x, CRYPT_PARAM_ENCODE_PASSWORD, BSL_PARAM_TYPE_OCTETS, pw.data(), (uint32_t)pw.size()); ps.push_back(x); } if (one) { BSL_PARAM_InitValue(&x, CRYPT_PARAM_ENCODE_ONE_ASYMMETRIC_KEY, BSL_PARAM_TYPE_BOOL, &tr, sizeof tr); ps.push_back(x); } BSL_Param end = BSL_PARAM_END; ps.push_back(end); b = encode(k, fmt, type, nullptr, rc, ps.data()); g.label(one ? "one-asymmetric-key" : "parameter list"); }
    else b = encode(k, fmt, type, type == CRYPT_PRIKEY_PKCS8_ENCRYPT ? &ep : nullptr, rc);
    CHECK(rc == 0, "c18-enc", "encoding %s as %s fails 0x%x", r.name, typeName(type), (unsigned)rc); int how = (int)g.weighted({4, 2, 2, 2, 1}); if (how == 3 && noDec(r.id)) how = 0; PkeyCtx q; bool pssAlg = false; (void)pssAlg; rc = decode(how, fmt, type, b, pw, q, type == CRYPT_PRIKEY_PKCS8_ENCRYPT); CHECK(rc == 0, "c18-back", "%s written as %s %s does not read back via %s: 0x%x", r.name, fmt == BSL_FORMAT_PEM ? "PEM" : "DER", typeName(type), api[how], (unsigned)rc);
    if (priv(type)) derive(q);
    // same key: both handles give the same canonical encodings
    bool p1 = type == CRYPT_PRIKEY_RSA || type == CRYPT_PUBKEY_RSA; // PKCS#1 carries no PSS parameters
    for (int t : {p1 ? CRYPT_PUBKEY_RSA : CRYPT_PUBKEY_SUBKEY, p1 ? CRYPT_PRIKEY_RSA : CRYPT_PRIKEY_PKCS8_UNENCRYPT}) { if (priv(t) && !priv(type)) break; if (t == CRYPT_PUBKEY_SUBKEY && priv(type) && (r.id == CRYPT_PKEY_COMPOSITE || r.id == CRYPT_PKEY_DSA || r.id == CRYPT_PKEY_DH)) continue; int32_t r1, r2; Bytes x = encode(k, BSL_FORMAT_ASN1, t, nullptr, r1), y = encode(q, BSL_FORMAT_ASN1, t, nullptr, r2); CHECK(r1 == r2 && x == y, "c18-same", "%s through %s: the key read back encodes differently (0x%x/0x%x)\n%s\n%s", r.name, typeName(type), (unsigned)r1, (unsigned)r2, hex(x).substr(0, 300).c_str(), hex(y).substr(0, 300).c_str()); }
    CHECK(CRYPT_EAL_PkeyGetId(q) == CRYPT_EAL_PkeyGetId(k) && CRYPT_EAL_PkeyGetKeyBits(q) == CRYPT_EAL_PkeyGetKeyBits(k), "c18-id", "%s came back as algorithm %d, %u bits", r.name, CRYPT_EAL_PkeyGetId(q), CRYPT_EAL_PkeyGetKeyBits(q));
    if (g.chance(1, 6)) { if (priv(type) && (r.caps & SIGN) && r.id != CRYPT_PKEY_RSA) { Bytes m = g.bytes(20), s(CRYPT_EAL_PkeyGetSignLen(q)); uint32_t n = (uint32_t)s.size(); int32_t e1 = CRYPT_EAL_PkeySign(q, (CRYPT_MD_AlgId)r.md, m.data(), 20, s.data(), &n); CHECK(e1 == 0, "c18-use", "signing with the %s key read back fails 0x%x", r.name, (unsigned)e1); CHECK(CRYPT_EAL_PkeyVerify(k, (CRYPT_MD_AlgId)r.md, m.data(), 20, s.data(), n) == 0, "c18-use2", "%s: the signature made with the key read back does not verify", r.name); g.label("used"); } }
    if (strchr("res", kind) || r.id == CRYPT_PKEY_ED25519 || r.id == CRYPT_PKEY_X25519 || r.id == CRYPT_PKEY_DSA) { int32_t r1; Bytes spki = encode(k, BSL_FORMAT_ASN1, p1 ? CRYPT_PUBKEY_RSA : CRYPT_PUBKEY_SUBKEY, nullptr, r1); const uint8_t *p = spki.data(); EVP_PKEY *ref = p1 ? d2i_PublicKey(EVP_PKEY_RSA, nullptr, &p, (long)spki.size()) : d2i_PUBKEY(nullptr, &p, (long)spki.size()); CHECK(ref, "c18-ossl-spki", "OpenSSL cannot read the SPKI of %s: %s", r.name, hex(spki).substr(0, 200).c_str()); Bytes d = b; if (fmt == BSL_FORMAT_PEM) { std::string nm; d = unpem(b, nm); CHECK(nm == pemName(type, kind), "c18-pemname", "PEM label %s", nm.c_str()); } EVP_PKEY *o = nullptr; p = d.data(); if (type == CRYPT_PUBKEY_SUBKEY) o = d2i_PUBKEY(nullptr, &p, (long)d.size()); else if (type == CRYPT_PUBKEY_RSA) o = d2i_PublicKey(EVP_PKEY_RSA, nullptr, &p, (long)d.size()); else o = readPriv(d, type, pw); int eq = o ? EVP_PKEY_eq(o, ref) : -5; EVP_PKEY_free(o); EVP_PKEY_free(ref); CHECK(eq == 1, "c18-ossl-own", "%s written as %s: OpenSSL %s", r.name, typeName(type), eq == -5 ? "cannot read it" : "sees another key"); g.label("cross-checked"); }
    g.label(r.name); g.nontrivial(); g.key(sfmt("%s %s %d %d", r.name, typeName(type), fmt, how) + hex(pw)); BSL_ERR_RemoveErrorStack(true);
}
PBT_TEST(mutated, 20000, 1500000, 0, 120)
{
    detOssl(g.draw(UINT64_MAX)); seedRand(g); OK o; mk(g, o); int type = g.pick({CRYPT_PRIKEY_PKCS8_UNENCRYPT, CRYPT_PUBKEY_SUBKEY, o.kind == 'r' ? CRYPT_PRIKEY_RSA : o.kind == 'e' ? CRYPT_PRIKEY_ECC : CRYPT_PUBKEY_SUBKEY}); Bytes b = type == CRYPT_PUBKEY_SUBKEY ? derPub(o.k) : type == CRYPT_PRIKEY_PKCS8_UNENCRYPT ? der(o.k) : i2d(o.k, i2d_PrivateKey);
    int edits = (int)g.range(1, 2); for (int i = 0; i < edits; i++) { size_t head = std::min<size_t>(b.size(), 60), p = g.draw((g.boolean() ? head : b.size()) - 1); switch (g.draw(3)) { case 0: b[p] ^= (uint8_t)(1u << g.draw(7)); break; case 1: b[p] = (uint8_t)g.draw(255); break; case 2: b.insert(b.begin() + (long)p, (uint8_t)g.draw(3)); break; default: b.erase(b.begin() + (long)p); } }
    PkeyCtx k; int32_t r = decode((int)g.draw(3), BSL_FORMAT_ASN1, type, b, {}, k, false); const uint8_t *p = b.data(); EVP_PKEY *ref = type == CRYPT_PUBKEY_SUBKEY ? d2i_PUBKEY(nullptr, &p, (long)b.size()) : readPriv(b, type, {}); struct F { EVP_PKEY *k; ~F() { EVP_PKEY_free(k); } } f{ref}; ERR_clear_error();
    g.label(r == 0 ? ref ? "both accept" : "only here" : ref ? "only OpenSSL" : "both refuse"); if (r == 0 && ref) { int32_t r2; Bytes s = encode(k, BSL_FORMAT_ASN1, CRYPT_PUBKEY_SUBKEY, nullptr, r2); if (r2 == 0) { p = s.data(); EVP_PKEY *q = d2i_PUBKEY(nullptr, &p, (long)s.size()); if (q) { int eq = EVP_PKEY_eq(q, ref); EVP_PKEY_free(q); CHECK(eq == 1, "c18-mut-key", "the mutated %s means another key here than to OpenSSL: %s -> %s", typeName(type), hex(b).substr(0, 500).c_str(), hex(s).substr(0, 300).c_str()); g.nontrivial(); } ERR_clear_error(); } }
    g.key(hex(b)); BSL_ERR_RemoveErrorStack(true);
}
