// Certificates, keys and CRLs made with OpenSSL (the independent side) for the PKI and TLS harnesses.
// OpenSSL's random source is replaced by a deterministic one, so that the same seed gives the same bytes.
#pragma once
#include "vh.hpp"
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/ec.h>
#include <openssl/rsa.h>
#include "rsakeys.hpp"
namespace opki {
inline uint64_t &orng() { static uint64_t s = 1; return s; }
inline int oBytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (uint8_t)(splitmix(orng()) >> 24); return 1; }
inline int oStatus() { return 1; }
inline int oAdd(const void *, int, double) { return 1; }
inline void detOssl(uint64_t seed) { static RAND_METHOD m = {nullptr, oBytes, nullptr, oAdd, oBytes, oStatus}; RAND_set_rand_method(&m); orng() = seed; }

enum KType { KP256, KRSA, KED, KP384, KP521, KPSS, KSM2, KRSA3K, KDSA };
inline Bytes unhex(const char *h) { Bytes b; for (; h[0] && h[1]; h += 2) { auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; b.push_back((uint8_t)(v(h[0]) * 16 + v(h[1]))); } return b; }
inline EVP_PKEY *fixedKey(const char *h) { Bytes b = unhex(h); const uint8_t *p = b.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)b.size()); if (!k) abort(); return k; }
inline EVP_PKEY *newKey(KType t)
{
    const char *curve = t == KP256 ? "P-256" : t == KP384 ? "P-384" : t == KP521 ? "P-521" : nullptr;
    if (curve) return EVP_EC_gen(curve);
    if (t == KED) return EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519");
    if (t == KSM2) return EVP_PKEY_Q_keygen(nullptr, nullptr, "SM2");
    if (t == KRSA || t == KPSS) { static unsigned ir, ip; return fixedKey(t == KRSA ? RSA_KEYS[ir++ % 4] : PSS_KEYS[ip++ % 3]); }
    if (t == KRSA || t == KRSA3K) return EVP_PKEY_Q_keygen(nullptr, nullptr, "RSA", (size_t)(t == KRSA ? 2048 : 3072));
    abort();
}
inline Bytes der(EVP_PKEY *k) { uint8_t *p = nullptr; PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k); int n = i2d_PKCS8_PRIV_KEY_INFO(i, &p); Bytes b(p, p + n); OPENSSL_free(p); PKCS8_PRIV_KEY_INFO_free(i); return b; }
inline Bytes derPub(EVP_PKEY *k) { uint8_t *p = nullptr; int n = i2d_PUBKEY(k, &p); Bytes b(p, p + n); OPENSSL_free(p); return b; }
typedef Own<X509, X509_free> Crt;
typedef Own<X509_CRL, X509_CRL_free> Crl;
inline Bytes der(X509 *x) { uint8_t *p = nullptr; int n = i2d_X509(x, &p); Bytes b(p, p + n); OPENSSL_free(p); return b; }
inline Bytes der(X509_CRL *x) { uint8_t *p = nullptr; int n = i2d_X509_CRL(x, &p); Bytes b(p, p + n); OPENSSL_free(p); return b; }
struct Ext { int nid; std::string val; bool crit; };     // val in OpenSSL's extension syntax
struct Spec {
    std::string cn = "x", org; long serial = 1; int64_t nb = 946684800, na = 4102444800LL;   // 2000-01-01 .. 2100-01-01
    std::vector<Ext> ext; const EVP_MD *md = nullptr; bool pssSig = false; int version = 2; Bytes rawSkid;
};
inline void setName(X509_NAME *n, const std::string &cn, const std::string &org = "")
{
    if (!org.empty()) X509_NAME_add_entry_by_txt(n, "O", MBSTRING_UTF8, (const uint8_t *)org.data(), (int)org.size(), -1, 0);
    if (!cn.empty()) X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_UTF8, (const uint8_t *)cn.data(), (int)cn.size(), -1, 0);
}
inline bool isSm2(EVP_PKEY *k) { return EVP_PKEY_is_a(k, "SM2"); }
inline const EVP_MD *mdFor(EVP_PKEY *k, const EVP_MD *m) { if (EVP_PKEY_is_a(k, "ED25519")) return nullptr; if (isSm2(k)) return EVP_sm3(); return m ? m : EVP_sha256(); }
struct SignCtx {
    OsslMdCtx c; OsslPkeyCtx p;
    SignCtx(EVP_PKEY *k, const EVP_MD *m, bool pss) : c(EVP_MD_CTX_new()), p(nullptr)
    {
        if (isSm2(k)) { p.reset(EVP_PKEY_CTX_new(k, nullptr)); EVP_PKEY_CTX_set1_id(p, "1234567812345678", 16); EVP_MD_CTX_set_pkey_ctx(c, p); }
        EVP_PKEY_CTX *pc = nullptr; EVP_DigestSignInit(c, isSm2(k) ? nullptr : &pc, mdFor(k, m), nullptr, k);
        if (pss && pc) { EVP_PKEY_CTX_set_rsa_padding(pc, RSA_PKCS1_PSS_PADDING); EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, RSA_PSS_SALTLEN_DIGEST); }
    }
};
// issuer == nullptr: self-signed
inline X509 *mkCert(const Spec &s, EVP_PKEY *key, X509 *issuer, EVP_PKEY *ikey)
{
    X509 *x = X509_new(); X509_set_version(x, s.version); ASN1_INTEGER_set(X509_get_serialNumber(x), s.serial);
    ASN1_TIME_set(X509_getm_notBefore(x), (time_t)s.nb); ASN1_TIME_set(X509_getm_notAfter(x), (time_t)s.na);
    setName(X509_get_subject_name(x), s.cn, s.org); X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : X509_get_subject_name(x)); X509_set_pubkey(x, key);
    X509V3_CTX v; X509V3_set_ctx_nodb(&v); X509V3_set_ctx(&v, issuer ? issuer : x, x, nullptr, nullptr, 0);
    for (auto &e : s.ext) {
        X509_EXTENSION *xe = nullptr;
        if (e.nid == 0) { size_t c = e.val.find('='); ASN1_OBJECT *o = OBJ_txt2obj(e.val.substr(0, c).c_str(), 1); ASN1_OCTET_STRING *os = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(os, (const uint8_t *)e.val.data() + c + 1, (int)(e.val.size() - c - 1)); xe = X509_EXTENSION_create_by_OBJ(nullptr, o, e.crit, os); ASN1_OBJECT_free(o); ASN1_OCTET_STRING_free(os); }
        else { xe = X509V3_EXT_conf_nid(nullptr, &v, e.nid, e.val.c_str()); if (xe && e.crit) X509_EXTENSION_set_critical(xe, 1); }
        if (!xe) { fprintf(stderr, "bad extension %s\n", e.val.c_str()); ERR_print_errors_fp(stderr); abort(); }
        X509_add_ext(x, xe, -1); X509_EXTENSION_free(xe);
    }
    EVP_PKEY *sk = ikey ? ikey : key; SignCtx sc(sk, s.md, s.pssSig || EVP_PKEY_is_a(sk, "RSA-PSS"));
    if (!X509_sign_ctx(x, sc.c)) { ERR_print_errors_fp(stderr); abort(); }
    return x;
}
struct Revoked { long serial; int64_t when; int reason; };
inline X509_CRL *mkCrl(X509 *issuer, EVP_PKEY *ikey, int64_t last, int64_t next, const std::vector<Revoked> &rv, long num = 1, const EVP_MD *md = nullptr)
{
    X509_CRL *c = X509_CRL_new(); X509_CRL_set_version(c, 1); X509_CRL_set_issuer_name(c, X509_get_subject_name(issuer));
    ASN1_TIME *t = ASN1_TIME_set(nullptr, (time_t)last); X509_CRL_set1_lastUpdate(c, t); ASN1_TIME_free(t); t = ASN1_TIME_set(nullptr, (time_t)next); X509_CRL_set1_nextUpdate(c, t); ASN1_TIME_free(t);
    for (auto &r : rv) { X509_REVOKED *e = X509_REVOKED_new(); ASN1_INTEGER *n = ASN1_INTEGER_new(); ASN1_INTEGER_set(n, r.serial); X509_REVOKED_set_serialNumber(e, n); ASN1_INTEGER_free(n); ASN1_TIME *w = ASN1_TIME_set(nullptr, (time_t)r.when); X509_REVOKED_set_revocationDate(e, w); ASN1_TIME_free(w); if (r.reason >= 0) { ASN1_ENUMERATED *en = ASN1_ENUMERATED_new(); ASN1_ENUMERATED_set(en, r.reason); X509_REVOKED_add1_ext_i2d(e, NID_crl_reason, en, 0, 0); ASN1_ENUMERATED_free(en); } X509_CRL_add0_revoked(c, e); }
    X509V3_CTX v; X509V3_set_ctx_nodb(&v); X509V3_set_ctx(&v, issuer, nullptr, nullptr, c, 0); X509_EXTENSION *xe = X509V3_EXT_conf_nid(nullptr, &v, NID_authority_key_identifier, "keyid"); if (xe) { X509_CRL_add_ext(c, xe, -1); X509_EXTENSION_free(xe); }
    ASN1_INTEGER *n = ASN1_INTEGER_new(); ASN1_INTEGER_set(n, num); X509_CRL_add1_ext_i2d(c, NID_crl_number, n, 0, 0); ASN1_INTEGER_free(n);
    X509_CRL_sort(c); SignCtx sc(ikey, md, false); if (!X509_CRL_sign_ctx(c, sc.c)) { ERR_print_errors_fp(stderr); abort(); } return c;
}
inline std::vector<Ext> caExt(int pathlen = -1) { return {{NID_basic_constraints, pathlen < 0 ? "CA:TRUE" : "CA:TRUE,pathlen:" + std::to_string(pathlen), true}, {NID_key_usage, "keyCertSign,cRLSign", true}, {NID_subject_key_identifier, "hash", false}}; }
inline std::vector<Ext> leafExt(const std::string &san = "", const std::string &ku = "digitalSignature,keyEncipherment,keyAgreement") { std::vector<Ext> e = {{NID_basic_constraints, "CA:FALSE", false}, {NID_key_usage, ku, true}, {NID_subject_key_identifier, "hash", false}, {NID_authority_key_identifier, "keyid", false}}; if (!san.empty()) e.push_back({NID_subject_alt_name, san, false}); return e; }
}  // namespace opki
