// P01: the PKI and key parsers are total. Well-formed objects made with OpenSSL must parse; damaged ones must be
// parsed or refused with an error - without touching memory outside the input, leaking, hanging, or depending on
// anything but the input - and an object that was accepted must survive every getter, printing, copying,
// re-encoding (which gives back the accepted bytes) and verification.
#include "opki.hpp"
#include "dertree.hpp"
#include <openssl/pkcs12.h>
#include <openssl/cms.h>
#include <openssl/x509v3.h>
extern "C" {
#include "bsl_list.h"
#include "bsl_uio.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_csr.h"
#include "hitls_pki_utils.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_pkcs12.h"
#include "hitls_pki_cms.h"
#include "hitls_pki_errno.h"
#include "hitls_pki_params.h"
#include "crypt_eal_codecs.h"
}
using namespace opki; using namespace vh;
const char *pbt::PROPERTY_RULE = "the input is a damaged copy (structure-aware DER edits, wrong lengths, raw byte damage, damaged PEM armour, wrong type or password) of an object OpenSSL made";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"well-formed objects are those OpenSSL 3 writes for the supported key types and extensions", "password-based containers whose iteration count was altered are not run (the count decides the running time)"};
void pbt::setup()
{
    useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand();
    HITLS_X509_Cert *c = nullptr; uint8_t z[2] = {0x30, 0}; BSL_Buffer b = {z, 2}; HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &c);
}
static const BSL_Buffer NOBUF = {nullptr, 0};
static void frees(BSL_Buffer &b) { BSL_SAL_Free(b.data); b = NOBUF; }
static volatile unsigned sink;
static void touch(const BSL_Buffer &b) { unsigned s = 0; for (uint32_t i = 0; i < b.dataLen && b.data; i++) s += b.data[i]; sink = s; }
static void names(BslList *l) { if (!l) return; for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) { auto *x = (HITLS_X509_GeneralName *)BSL_LIST_GetData(n); if (x && x->type != HITLS_X509_GN_DNNAME) touch(x->value); } }
template <class Ctl> static std::string extGetters(Ctl ctl)
{
    std::string v; auto rec = [&](int32_t r) { v += r == 0 ? '+' : '-'; return r == 0; };
    { HITLS_X509_ExtSki x = {}; if (rec(ctl(HITLS_X509_EXT_GET_SKI, &x, sizeof x))) touch(x.kid); }
    { HITLS_X509_ExtAki x = {}; if (rec(ctl(HITLS_X509_EXT_GET_AKI, &x, sizeof x))) { touch(x.kid); touch(x.serialNum); HITLS_X509_ClearAuthorityKeyId(&x); } }
    { HITLS_X509_ExtCrlNumber x = {}; if (rec(ctl(HITLS_X509_EXT_GET_CRLNUMBER, &x, sizeof x))) touch(x.crlNumber); }
    { HITLS_X509_ExtCrlNumber x = {}; if (rec(ctl(HITLS_X509_EXT_GET_DELTA_CRL, &x, sizeof x))) touch(x.crlNumber); }
    { uint32_t ku = 0; rec(ctl(HITLS_X509_EXT_GET_KUSAGE, &ku, sizeof ku)); }
    { HITLS_X509_ExtBCons x = {}; rec(ctl(HITLS_X509_EXT_GET_BCONS, &x, sizeof x)); }
    { HITLS_X509_ExtSan x = {}; if (rec(ctl(HITLS_X509_EXT_GET_SAN, &x, sizeof x))) { names(x.names); HITLS_X509_ClearSubjectAltName(&x); } }
    { HITLS_X509_ExtIdp x = {}; if (rec(ctl(HITLS_X509_EXT_GET_IDP, &x, sizeof x))) { if (x.distPoint && x.distPoint->type == HITLS_X509_DP_FULLNAME) names(x.distPoint->name); HITLS_X509_ClearIdp(&x); } }
    { HITLS_X509_ExtCdp x = {}; if (rec(ctl(HITLS_X509_EXT_GET_CDP, &x, sizeof x))) { for (BslListNode *n = BSL_LIST_FirstNode(x.points); n; n = BSL_LIST_GetNextNode(x.points, n)) { auto *p = (HITLS_X509_CrlDistPoint *)BSL_LIST_GetData(n); if (p) { if (p->distPointName && p->distPointName->type == HITLS_X509_DP_FULLNAME) names(p->distPointName->name); names(p->crlIssuer); } } HITLS_X509_ClearCdp(&x); } }
    { uint8_t oid[] = {0x2a, 0x03, 0x04, 0x05}; HITLS_X509_ExtGeneric x = {}; x.oid.data = oid; x.oid.dataLen = 4; if (rec(ctl(HITLS_X509_EXT_GET_GENERIC, &x, sizeof x))) { touch(x.value); frees(x.value); } }
    { bool has = false; rec(ctl(HITLS_X509_EXT_CHECK_SKI, &has, sizeof has)); }
    return v;
}
template <class Ctl> static std::string commonGetters(Ctl ctl)
{
    std::string v; auto rec = [&](int32_t r) { v += r == 0 ? '+' : '-'; return r == 0; };
    for (int c : {HITLS_X509_GET_SUBJECT_DN_STR, HITLS_X509_GET_ISSUER_DN_STR, HITLS_X509_GET_SERIALNUM_STR, HITLS_X509_GET_BEFORE_TIME_STR, HITLS_X509_GET_AFTER_TIME_STR, HITLS_X509_GET_SUBJECT_CN_STR}) { BSL_Buffer b = NOBUF; if (rec(ctl(c, &b, sizeof b))) touch(b); frees(b); }
    { uint32_t n = 0; uint8_t *p = nullptr; rec(ctl(HITLS_X509_GET_ENCODELEN, &n, sizeof n)); if (rec(ctl(HITLS_X509_GET_ENCODE, &p, 0))) { BSL_Buffer b = {p, n}; touch(b); } }
    { CRYPT_EAL_PkeyCtx *k = nullptr; if (rec(ctl(HITLS_X509_GET_PUBKEY, &k, sizeof k))) CRYPT_EAL_PkeyFreeCtx(k); }
    { int32_t a = 0; rec(ctl(HITLS_X509_GET_SIGNALG, &a, sizeof a)); int32_t m = 0; rec(ctl(HITLS_X509_GET_SIGN_MDALG, &m, sizeof m)); int32_t ver = 0; rec(ctl(HITLS_X509_GET_VERSION, &ver, sizeof ver)); }
    { BslList *l = nullptr; rec(ctl(HITLS_X509_GET_SUBJECT_DN, &l, sizeof(BslList *))); l = nullptr; rec(ctl(HITLS_X509_GET_ISSUER_DN, &l, sizeof(BslList *))); }
    { BSL_Buffer b = NOBUF; if (rec(ctl(HITLS_X509_GET_SERIALNUM, &b, sizeof b))) touch(b); }
    { BSL_TIME t = {}; rec(ctl(HITLS_X509_GET_BEFORE_TIME, &t, sizeof t)); rec(ctl(HITLS_X509_GET_AFTER_TIME, &t, sizeof t)); }
    { BSL_Buffer b = NOBUF; if (rec(ctl(HITLS_X509_GET_ENCODE_SUBJECT_DN, &b, sizeof b))) touch(b); }
    { bool s = false; rec(ctl(HITLS_X509_IS_SELF_SIGNED, &s, sizeof s)); }
    return v;
}
static std::string print(int cmd, void *o, uint32_t n)
{
    BSL_UIO *u = BSL_UIO_New(BSL_UIO_MemMethod()); if (!u) return "?";
    std::string v = HITLS_PKI_PrintCtrl(cmd, o, n, u) == 0 ? "P" : "p"; char buf[4096]; uint32_t k = 0; int t = 0;
    while (BSL_UIO_Read(u, buf, sizeof buf, &k) == 0 && k > 0 && t++ < 4000) {}
    BSL_UIO_Free(u); return v;
}
// input wrapper: text formats need a NUL after the data
static size_t inHash; static size_t fnv(const Bytes &b) { size_t h = 14695981039346656037ull; for (uint8_t c : b) h = (h ^ c) * 1099511628211ull; return h; }
struct In { Exact e; BSL_Buffer b; In(const Bytes &d, bool text) : e(text ? cat(d, {0}) : d) { b.data = e.p; b.dataLen = (uint32_t)d.size(); inHash = fnv(d); } };
static Bytes pem(const Bytes &d, const char *name) { BIO *m = BIO_new(BIO_s_mem()); PEM_write_bio(m, name, "", d.data(), (long)d.size()); char *p; long n = BIO_get_mem_data(m, &p); Bytes r(p, p + n); BIO_free(m); return r; }
static Bytes damagePem(G &g, Bytes t)
{
    int n = (int)g.range(1, 3);
    for (int i = 0; i < n && !t.empty(); i++) switch (g.draw(4)) {
        case 0: t[g.draw(t.size() - 1)] = (uint8_t)g.range(1, 255); break;
        case 1: t.erase(t.begin() + (long)g.draw(t.size() - 1)); break;
        case 2: t.resize(g.draw(t.size())); break;
        case 3: { size_t p = g.draw(t.size()); t.insert(t.begin() + (long)p, (uint8_t)g.pick({'\n', '\r', '-', '=', ' ', 'A'})); break; }
        default: { size_t a = g.draw(t.size() - 1), k = std::min<size_t>(t.size() - a, g.range(1, 80)); Bytes c(t.begin() + (long)a, t.begin() + (long)(a + k)); t.insert(t.begin() + (long)g.draw(t.size()), c.begin(), c.end()); break; }
    }
    return t;
}
// What an accepted object went through, as a string: it must be the same the second time.
static std::string useCert(const Bytes &in, HITLS_X509_Cert *c, bool exactDer)
{
    auto ctl = [&](int cmd, void *v, size_t n) { return HITLS_X509_CertCtrl(c, cmd, v, (uint32_t)n); };
    std::string v = commonGetters(ctl) + "/" + extGetters(ctl) + "/";
    BSL_Buffer o = NOBUF; int32_t r = HITLS_X509_CertGenBuff(BSL_FORMAT_ASN1, c, &o); v += r == 0 ? "G" : "g";
    if (r == 0 && exactDer) { CHECK(o.dataLen <= in.size() && memcmp(o.data, in.data(), o.dataLen) == 0, "reencode", "the accepted certificate re-encodes to other bytes (%u, input %zu)", o.dataLen, in.size()); }
    frees(o); v += HITLS_X509_CertGenBuff(BSL_FORMAT_PEM, c, &o) == 0 ? "G" : "g"; frees(o);
    v += print(HITLS_PKI_PRINT_CERT, c, sizeof(HITLS_X509_Cert *));
    uint8_t md[64]; uint32_t ml = sizeof md; v += HITLS_X509_CertDigest(c, CRYPT_MD_SHA256, md, &ml) == 0 ? "D" : "d";
    Own<HITLS_X509_StoreCtx, HITLS_X509_StoreCtxFree> st(HITLS_X509_StoreCtxNew());
    v += HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_DEEP_COPY_SET_CA, c, sizeof(HITLS_X509_Cert *)) == 0 ? "A" : "a";
    HITLS_X509_List *ch = nullptr; v += HITLS_X509_CertChainBuild(st, false, c, &ch) == 0 ? "B" : "b";
    if (ch) { v += HITLS_X509_CertVerify(st, ch) == 0 ? "V" : "v"; BSL_LIST_FREE(ch, (BSL_LIST_PFUNC_FREE)HITLS_X509_CertFree); }
    return v;
}
static std::string useCrl(const Bytes &in, HITLS_X509_Crl *c, bool exactDer)
{
    auto ctl = [&](int cmd, void *v, size_t n) { return HITLS_X509_CrlCtrl(c, cmd, v, (uint32_t)n); };
    std::string v = commonGetters(ctl) + "/" + extGetters(ctl) + "/";
    BslList *l = nullptr;
    if (HITLS_X509_CrlCtrl(c, HITLS_X509_GET_REVOKELIST, &l, sizeof(BslList *)) == 0 && l) for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) {
        auto *e = (HITLS_X509_CrlEntry *)BSL_LIST_GetData(n); BSL_Buffer s = NOBUF; BSL_TIME t = {}; HITLS_X509_RevokeExtTime it = {}; HITLS_X509_RevokeExtReason re = {}; HITLS_X509_RevokeExtCertIssuer ci = {};
        if (HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_SERIALNUM, &s, sizeof s) == 0) { touch(s); v += "s"; }
        if (HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REVOKE_TIME, &t, sizeof t) == 0) v += "t";
        if (HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_INVALID_TIME, &it, sizeof it) == 0) v += "i";
        if (HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_REASON, &re, sizeof re) == 0) v += std::to_string(re.reason);
        if (HITLS_X509_CrlEntryCtrl(e, HITLS_X509_CRL_GET_REVOKED_CERTISSUER, &ci, sizeof ci) == 0) { v += "c"; names(ci.issuerName); }
    }
    BSL_Buffer o = NOBUF; int32_t r = HITLS_X509_CrlGenBuff(BSL_FORMAT_ASN1, c, &o); v += r == 0 ? "G" : "g";
    if (r == 0 && exactDer) CHECK(o.dataLen <= in.size() && memcmp(o.data, in.data(), o.dataLen) == 0, "reencode", "the accepted CRL re-encodes to other bytes (%u, input %zu)", o.dataLen, in.size());
    frees(o); v += print(HITLS_PKI_PRINT_CRL, c, sizeof(HITLS_X509_Crl *));
    return v;
}
static std::string useCsr(const Bytes &in, HITLS_X509_Csr *c, bool exactDer)
{
    auto ctl = [&](int cmd, void *v, size_t n) { return HITLS_X509_CsrCtrl(c, cmd, v, (uint32_t)n); };
    std::string v = commonGetters(ctl) + "/" + extGetters(ctl) + "/"; HITLS_X509_Attrs *at = nullptr;
    if (HITLS_X509_CsrCtrl(c, HITLS_X509_CSR_GET_ATTRIBUTES, &at, sizeof(HITLS_X509_Attrs *)) == 0 && at) {
        HITLS_X509_Ext *e = nullptr;
        if (HITLS_X509_AttrCtrl(at, HITLS_X509_ATTR_GET_REQUESTED_EXTENSIONS, &e, sizeof(HITLS_X509_Ext *)) == 0 && e) { v += "E" + extGetters([&](int cmd, void *x, size_t n) { return HITLS_X509_ExtCtrl(e, cmd, x, (uint32_t)n); }); HITLS_X509_ExtFree(e); }
    }
    BSL_Buffer o = NOBUF; int32_t r = HITLS_X509_CsrGenBuff(BSL_FORMAT_ASN1, c, &o); v += r == 0 ? "G" : "g";
    if (r == 0 && exactDer) CHECK(o.dataLen <= in.size() && memcmp(o.data, in.data(), o.dataLen) == 0, "reencode", "the accepted request re-encodes to other bytes (%u, input %zu)", o.dataLen, in.size());
    frees(o); v += print(HITLS_PKI_PRINT_CSR, c, sizeof(HITLS_X509_Csr *)); v += HITLS_X509_CsrVerify(c) == 0 ? "V" : "v";
    return v;
}
static std::string useKey(CRYPT_EAL_PkeyCtx *k)
{
    std::string v = "id" + std::to_string((int)CRYPT_EAL_PkeyGetId(k)); v += ":" + std::to_string(CRYPT_EAL_PkeyGetKeyBits(k)) + ":" + std::to_string(CRYPT_EAL_PkeyGetKeyLen(k)) + ":" + std::to_string(CRYPT_EAL_PkeyGetSignLen(k));
    caseRandSeed(99); uint8_t sig[8192]; uint32_t sl = std::min<uint32_t>(CRYPT_EAL_PkeyGetSignLen(k), sizeof sig); uint8_t m[3] = {1, 2, 3};
    v += CRYPT_EAL_PkeySign(k, CRYPT_MD_SHA256, m, 3, sig, &sl) == 0 ? "S" : "s"; v += CRYPT_EAL_PkeyVerify(k, CRYPT_MD_SHA256, m, 3, sig, sl) == 0 ? "V" : "v";
    for (int t : {CRYPT_PUBKEY_SUBKEY, CRYPT_PRIKEY_PKCS8_UNENCRYPT}) { BSL_Buffer o = NOBUF; v += CRYPT_EAL_EncodeBuffKey(k, nullptr, BSL_FORMAT_ASN1, t, &o) == 0 ? "G" : "g"; frees(o); }
    CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); v += d ? "D" : "d"; CRYPT_EAL_PkeyFreeCtx(d); return v;
}
// ---- seeds
static EVP_PKEY *poolKey(G &g, KType *ty = nullptr) { static std::map<int, EVP_PKEY *> pool; KType t = g.pick({KP256, KRSA, KED, KP384, KSM2, KPSS, KP521}); if (ty) *ty = t; if (!pool.count(t)) pool[t] = newKey(t); return pool[t]; }
static std::string wordy(G &g) { std::string s; int n = (int)g.range(1, 12); for (int i = 0; i < n; i++) s += g.chance(1, 12) ? "\xc3\xa9" : std::string(1, (char)g.pick({'a', 'b', 'Z', '0', ' ', '+', ',', '=', '"', '\\', '<', '#', '/', '.'})); if (s[0] == ' ') s[0] = 'x'; return s; }
static std::vector<Ext> richExt(G &g, bool ca)
{
    std::vector<Ext> e = ca ? caExt(g.boolean() ? -1 : (int)g.draw(5)) : leafExt();
    auto add = [&](int nid, const std::string &v) { if (g.boolean()) e.push_back({nid, v, g.chance(1, 4)}); };
    add(NID_subject_alt_name, g.pick({std::string("DNS:a.example.com,DNS:*.b.org"), std::string("email:u@h.org,URI:http://x/y,IP:1.2.3.4"), std::string("IP:2001:db8::1,RID:1.2.3.4,DNS:q"), std::string("otherName:1.2.3.4;UTF8:foo,DNS:z")}));
    add(NID_ext_key_usage, g.pick({std::string("serverAuth"), std::string("clientAuth,codeSigning,1.2.3.4.5"), std::string("OCSPSigning,timeStamping,emailProtection")}));
    add(NID_crl_distribution_points, g.pick({std::string("URI:http://c/crl"), std::string("URI:ldap://c/crl,URI:http://d/e")}));
    if (g.boolean()) e.push_back({0, std::string("2.5.29.32=") + std::string("\x30\x07\x30\x05\x06\x03\x2a\x03\x04", 9), false}); add(NID_info_access, "OCSP;URI:http://o/,caIssuers;URI:http://p/q"); if (ca) add(NID_name_constraints, "permitted;DNS:x.org,excluded;IP:10.0.0.0/255.0.0.0"); add(NID_issuer_alt_name, "DNS:i.org");
    if (g.boolean()) e.push_back({0, std::string("1.2.3.4.5=") + std::string("\x04\x03""abc", 5), false});
    return e;
}
static Bytes seedCert(G &g) { Spec s; s.cn = wordy(g); if (g.boolean()) s.org = wordy(g); s.serial = (long)g.draw(1u << 30); s.nb = (int64_t)g.pick({946684800u, 0u, 1700000000u}); s.na = g.pick({(int64_t)4102444800LL, (int64_t)2524607999LL, (int64_t)253402300799LL}); bool ca = g.boolean(); s.ext = richExt(g, ca); if (g.chance(1, 10)) { s.ext.clear(); s.version = 0; } EVP_PKEY *k = poolKey(g); Crt x(mkCert(s, k, nullptr, nullptr)); return opki::der(x); }
static Bytes seedCrl(G &g)
{
    EVP_PKEY *k = poolKey(g); Spec s; s.cn = wordy(g); s.ext = caExt(); Crt ca(mkCert(s, k, nullptr, nullptr)); std::vector<Revoked> rv; int n = (int)g.draw(5); for (int i = 0; i < n; i++) rv.push_back({(long)g.draw(1 << 20), 1600000000 + i, (int)g.pick({-1, 0, 1, 4, 6, 8, 10})});
    Crl c(mkCrl(ca, k, 1700000000, 1900000000, rv, (long)g.draw(1000))); 
    if (g.boolean()) { Crl d(X509_CRL_dup(c)); ASN1_INTEGER *n = ASN1_INTEGER_new(); ASN1_INTEGER_set(n, 3); if (g.boolean()) X509_CRL_add1_ext_i2d(d, NID_delta_crl, n, 1, 0); ASN1_INTEGER_free(n);
        ISSUING_DIST_POINT *p = ISSUING_DIST_POINT_new(); p->distpoint = DIST_POINT_NAME_new(); p->distpoint->type = 0; p->distpoint->name.fullname = GENERAL_NAMES_new(); GENERAL_NAME *gn = GENERAL_NAME_new(); ASN1_IA5STRING *u = ASN1_IA5STRING_new(); ASN1_STRING_set(u, "http://a/b", -1); GENERAL_NAME_set0_value(gn, GEN_URI, u); sk_GENERAL_NAME_push(p->distpoint->name.fullname, gn); p->onlyuser = g.boolean() ? 0xff : 0; if (g.boolean()) p->indirectCRL = 0xff;
        if (g.boolean()) { p->onlysomereasons = ASN1_BIT_STRING_new(); ASN1_BIT_STRING_set_bit(p->onlysomereasons, (int)g.range(1, 8), 1); }
        X509_CRL_add1_ext_i2d(d, NID_issuing_distribution_point, p, 1, 0); ISSUING_DIST_POINT_free(p);
        SignCtx sc(k, nullptr, EVP_PKEY_is_a(k, "RSA-PSS")); X509_CRL_sign_ctx(d, sc.c); return opki::der(d); }
    return opki::der(c);
}
static Bytes seedCsr(G &g)
{
    EVP_PKEY *k = poolKey(g); X509_REQ *r = X509_REQ_new(); X509_REQ_set_version(r, 0); X509_NAME *n = X509_NAME_new(); setName(n, wordy(g), g.boolean() ? wordy(g) : ""); X509_REQ_set_subject_name(r, n); X509_NAME_free(n); X509_REQ_set_pubkey(r, k);
    if (g.boolean()) { STACK_OF(X509_EXTENSION) *st = sk_X509_EXTENSION_new_null(); for (auto &e : richExt(g, g.boolean())) { if (e.nid == 0 || e.nid == NID_subject_key_identifier || e.nid == NID_authority_key_identifier || e.nid == NID_issuer_alt_name) continue; X509_EXTENSION *x = X509V3_EXT_conf_nid(nullptr, nullptr, e.nid, e.val.c_str()); if (x) sk_X509_EXTENSION_push(st, x); } X509_REQ_add_extensions(r, st); sk_X509_EXTENSION_pop_free(st, X509_EXTENSION_free); }
    if (g.boolean()) X509_REQ_add1_attr_by_NID(r, NID_pkcs9_challengePassword, MBSTRING_ASC, (const uint8_t *)"secret", 6);
    SignCtx sc(k, nullptr, EVP_PKEY_is_a(k, "RSA-PSS")); X509_REQ_sign_ctx(r, sc.c); uint8_t *p = nullptr; int len = i2d_X509_REQ(r, &p); Bytes b(p, p + len); OPENSSL_free(p); X509_REQ_free(r); return b;
}
// Runs `once` twice (same input): same verdict both times and nothing left allocated.
template <class F> static void twice(G &g, bool mustParse, const char *what, F once)
{
    std::string v[2];
    for (int i = 0; i < 2; i++) {
        BSL_ERR_RemoveErrorStack(true); long live = memCtl().live; v[i] = once(); BSL_ERR_RemoveErrorStack(true);
        CHECK(memCtl().live == live, "leak", "%s: %ld allocations left after parsing, use and release (%s)", what, memCtl().live - live, v[i].c_str());
    }
    CHECK(v[0] == v[1], "unstable", "%s: the same bytes gave %s, then %s", what, v[0].c_str(), v[1].c_str());
    g.note("%s: %s", what, v[0].c_str());
    bool ok = v[0].compare(0, 3, "err") != 0; g.label(ok ? "accepted" : "refused");
    if (mustParse) CHECK(ok, "refused-good", "%s: a well-formed object was refused: %s", what, v[0].c_str());
    if (!mustParse) g.nontrivial(); g.key(v[0] + std::to_string(inHash));
}
static int pickFormat(G &g) { return g.pick({BSL_FORMAT_ASN1, BSL_FORMAT_PEM, BSL_FORMAT_UNKNOWN}); }
template <class Parse> static void objTest(G &g, const char *what, const char *pemName, const Bytes &seed, Parse parse, bool hasUnknown = true)
{
    bool good = g.chance(1, 12), changed = false; Bytes d = good ? seed : der::damage(g, seed, changed);
    int fmt = pickFormat(g); if (!hasUnknown && fmt == BSL_FORMAT_UNKNOWN) fmt = BSL_FORMAT_PEM; bool text = fmt != BSL_FORMAT_ASN1, asPem = text && g.chance(4, 5);
    bool bundle = g.chance(1, 5); Bytes in = asPem ? pem(d, pemName) : d;
    if (bundle) { int n = (int)g.draw(2); for (int i = 0; i < n; i++) { Bytes x = g.boolean() ? seed : d; in = cat(in, asPem ? pem(x, pemName) : x); } }
    if (asPem && !good && g.chance(1, 3)) { in = damagePem(g, in); changed = true; }
    In a(in, text); g.label(text ? (asPem ? "pem" : "der-as-text") : "der");
    // a PEM-only parse of DER is rightly refused
    twice(g, !changed && !(fmt == BSL_FORMAT_PEM && !asPem) && !bundle, what, [&] { return parse(fmt, &a.b, bundle, d, !asPem && fmt != BSL_FORMAT_PEM && !bundle && !changed); });
}
#define LISTFREE(l, f) do { if (l) BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)f); } while (0)
static void seedAll(G &g) { seedRand(g); detOssl(g.draw(UINT64_MAX)); }
PBT_TEST(cert, 3000, 60000, 0, 300)
{
    seedAll(g); Bytes s = seedCert(g);
    objTest(g, "certificate", "CERTIFICATE", s, [](int fmt, BSL_Buffer *b, bool bundle, const Bytes &d, bool) -> std::string {
        if (bundle) { HITLS_X509_List *l = nullptr; int32_t r = HITLS_X509_CertParseBundleBuff(fmt, b, &l); std::string v = "err" + rc(r); if (r == 0) { v = "n" + std::to_string(BSL_LIST_COUNT(l)); for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) v += useCert(d, (HITLS_X509_Cert *)BSL_LIST_GetData(n), false); LISTFREE(l, HITLS_X509_CertFree); } return v; }
        HITLS_X509_Cert *c = nullptr; int32_t r = HITLS_X509_CertParseBuff(fmt, b, &c); if (r) { CHECK(c == nullptr, "object-on-error", "an object was returned with error 0x%x", r); return "err" + rc(r); }
        std::string v = useCert(d, c, fmt == BSL_FORMAT_ASN1); HITLS_X509_CertFree(c); return v; });
}
PBT_TEST(crl, 3000, 60000, 0, 300)
{
    seedAll(g); Bytes s = seedCrl(g);
    objTest(g, "crl", "X509 CRL", s, [](int fmt, BSL_Buffer *b, bool bundle, const Bytes &d, bool) -> std::string {
        if (bundle) { HITLS_X509_List *l = nullptr; int32_t r = HITLS_X509_CrlParseBundleBuff(fmt, b, &l); std::string v = "err" + rc(r); if (r == 0) { v = "n" + std::to_string(BSL_LIST_COUNT(l)); for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) v += useCrl(d, (HITLS_X509_Crl *)BSL_LIST_GetData(n), false); LISTFREE(l, HITLS_X509_CrlFree); } return v; }
        HITLS_X509_Crl *c = nullptr; int32_t r = HITLS_X509_CrlParseBuff(fmt, b, &c); if (r) { CHECK(c == nullptr, "object-on-error", "an object was returned with error 0x%x", r); return "err" + rc(r); }
        std::string v = useCrl(d, c, fmt == BSL_FORMAT_ASN1); HITLS_X509_CrlFree(c); return v; });
}
PBT_TEST(csr, 2500, 50000, 0, 300)
{
    seedAll(g); Bytes s = seedCsr(g);
    objTest(g, "request", "CERTIFICATE REQUEST", s, [](int fmt, BSL_Buffer *b, bool bundle, const Bytes &d, bool) -> std::string {
        HITLS_X509_Csr *c = nullptr; int32_t r = HITLS_X509_CsrParseBuff(fmt, b, &c); if (r) { CHECK(c == nullptr, "object-on-error", "an object was returned with error 0x%x", r); return "err" + rc(r); }
        std::string v = useCsr(d, c, fmt == BSL_FORMAT_ASN1 && !bundle); HITLS_X509_CsrFree(c); return v; }, false);
}
// The iteration counts in password-based containers decide the running time; cases that change them are not run.
static const int ITER = 1031;   // 02 02 04 07
static bool iterKept(const Bytes &a, const Bytes &b) { auto cnt = [](const Bytes &x) { int n = 0; for (size_t i = 0; i + 4 <= x.size(); i++) n += x[i] == 2 && x[i + 1] == 2 && x[i + 2] == 4 && x[i + 3] == 7; return n; }; return cnt(a) == cnt(b); }
PBT_TEST(key, 4000, 80000, 0, 300)
{
    seedAll(g); KType kt; EVP_PKEY *k = poolKey(g, &kt); struct V { const char *pem; int type; Bytes d; }; V s; const char *pwd = "p4ss word"; bool enc = false;
    switch (g.draw(3)) {
    case 0: s = {"PRIVATE KEY", CRYPT_PRIKEY_PKCS8_UNENCRYPT, opki::der(k)}; break;
    case 1: s = {"PUBLIC KEY", CRYPT_PUBKEY_SUBKEY, derPub(k)}; break;
    case 2: { PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k); Bytes salt = g.bytes(8); X509_SIG *x = PKCS8_encrypt(-1, EVP_aes_256_cbc(), pwd, (int)strlen(pwd), salt.data(), 8, ITER, i); uint8_t *p = nullptr; int n = i2d_X509_SIG(x, &p); s = {"ENCRYPTED PRIVATE KEY", CRYPT_PRIKEY_PKCS8_ENCRYPT, Bytes(p, p + n)}; OPENSSL_free(p); X509_SIG_free(x); PKCS8_PRIV_KEY_INFO_free(i); enc = true; break; }
    default: { if (kt != KRSA && kt != KP256 && kt != KP384 && kt != KP521) { s = {"PUBLIC KEY", CRYPT_PUBKEY_SUBKEY, derPub(k)}; break; } uint8_t *p = nullptr; bool rsa = kt == KRSA, pub = rsa && g.boolean(); int n = pub ? i2d_PublicKey(k, &p) : i2d_PrivateKey(k, &p); s = {pub ? "RSA PUBLIC KEY" : rsa ? "RSA PRIVATE KEY" : "EC PRIVATE KEY", pub ? CRYPT_PUBKEY_RSA : rsa ? CRYPT_PRIKEY_RSA : CRYPT_PRIKEY_ECC, Bytes(p, p + n)}; OPENSSL_free(p); }
    }
    bool good = g.chance(1, 12), changed = false; Bytes d = good ? s.d : der::damage(g, s.d, changed); if (enc && !iterKept(s.d, d)) discard();
    bool auto_ = g.chance(1, 5); int fmt = pickFormat(g), type = auto_ ? (int)CRYPT_ENCDEC_UNKNOW : g.chance(1, 10) && !enc ? (changed = true, g.pick({(int)CRYPT_PRIKEY_PKCS8_UNENCRYPT, (int)CRYPT_PUBKEY_SUBKEY, (int)CRYPT_PRIKEY_RSA, (int)CRYPT_PRIKEY_ECC, (int)CRYPT_PUBKEY_RSA})) : s.type;
    if (auto_ ) changed = true;     // unknown type: no promise that it is found
    bool text = fmt != BSL_FORMAT_ASN1, asPem = text && g.chance(4, 5); Bytes in = asPem ? pem(d, s.pem) : d; if (asPem && !good && g.chance(1, 4)) { in = damagePem(g, in); changed = true; }
    if (enc && asPem && changed) { Bytes t = in; BIO *b = BIO_new_mem_buf(t.data(), (int)t.size()); char *nm = nullptr, *h = nullptr; uint8_t *q = nullptr; long n = 0; bool okp = PEM_read_bio(b, &nm, &h, &q, &n) == 1; Bytes inner; if (okp) inner.assign(q, q + n); OPENSSL_free(nm); OPENSSL_free(h); OPENSSL_free(q); BIO_free(b); ERR_clear_error(); if (!okp || !iterKept(s.d, inner)) discard(); }
    In a(in, text); const char *pw = enc && g.chance(1, 8) ? (changed = true, "wrong") : pwd; g.label(s.pem);
    twice(g, !changed && !(fmt == BSL_FORMAT_PEM && !asPem), s.pem, [&]() -> std::string {
        CRYPT_EAL_PkeyCtx *c = nullptr; int32_t r = CRYPT_EAL_DecodeBuffKey(fmt, type, &a.b, (uint8_t *)pw, (uint32_t)strlen(pw), &c);
        if (r) { CHECK(c == nullptr, "object-on-error", "a key was returned with error 0x%x", r); return "err" + rc(r); } std::string v = useKey(c); CRYPT_EAL_PkeyFreeCtx(c); return v; });
}
static Bytes mkP12(G &g, bool enc, const char *pwd)
{
    EVP_PKEY *k = poolKey(g); Spec s; s.cn = "leaf"; s.ext = leafExt(); Crt c(mkCert(s, k, nullptr, nullptr)); EVP_PKEY *k2 = poolKey(g); Spec s2; s2.cn = "ca"; s2.ext = caExt(); Crt ca(mkCert(s2, k2, nullptr, nullptr));
    STACK_OF(X509) *cas = sk_X509_new_null(); if (g.boolean()) sk_X509_push(cas, ca); PKCS12 *p = PKCS12_create(pwd, "friend", k, c, cas, enc ? NID_aes_256_cbc : -1, enc ? NID_aes_128_cbc : -1, ITER, -1, 0); if (!p) { ERR_print_errors_fp(stderr); abort(); }
    PKCS12_set_mac(p, pwd, -1, nullptr, 8, ITER, EVP_sha256()); uint8_t *q = nullptr; int n = i2d_PKCS12(p, &q); Bytes b(q, q + n); OPENSSL_free(q); PKCS12_free(p); sk_X509_free(cas); return b;
}
static void bags(BslList *l, std::string &v) { if (l) for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) { auto *b = (HITLS_PKCS12_Bag *)BSL_LIST_GetData(n); uint32_t id = 0; v += HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_ID, &id, sizeof id) == 0 ? "i" : "-"; v += std::to_string(id); } }
PBT_TEST(p12, 1500, 30000, 0, 300)
{
    seedAll(g); const char *pwd = "1234"; bool enc = g.chance(1, 3); Bytes s = mkP12(g, enc, pwd); bool good = g.chance(1, 12), changed = false; Bytes d = good ? s : der::damage(g, s, changed); if (!iterKept(s, d)) discard();
    bool mac = good || g.chance(1, 4); In a(d, false); uint8_t pw[8]; memcpy(pw, "1234", 4); if (!good && g.chance(1, 10)) { pw[0] ^= 1; changed = true; } BSL_Buffer pb = {pw, 4}; HITLS_PKCS12_PwdParam pp = {&pb, &pb}; g.label(enc ? "encrypted" : "plain");
    twice(g, !changed, "pkcs12", [&]() -> std::string {
        HITLS_PKCS12 *p = nullptr; int32_t r = HITLS_PKCS12_ParseBuff(BSL_FORMAT_ASN1, &a.b, &pp, &p, mac); if (r) { CHECK(p == nullptr, "object-on-error", "an object was returned with error 0x%x", r); return "err" + rc(r); }
        std::string v = "ok"; HITLS_X509_Cert *c = nullptr; if (HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_GET_ENTITY_CERT, &c, sizeof c) == 0 && c) { v += useCert({}, c, false); HITLS_X509_CertFree(c); }
        CRYPT_EAL_PkeyCtx *k = nullptr; if (HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_GET_ENTITY_KEY, &k, sizeof k) == 0 && k) { v += useKey(k); CRYPT_EAL_PkeyFreeCtx(k); }
        for (int cmd : {HITLS_PKCS12_GET_CERTBAGS, HITLS_PKCS12_GET_KEYBAGS, HITLS_PKCS12_GET_CRLBAGS, HITLS_PKCS12_GET_SECRETBAGS}) { BslList *l = nullptr; if (HITLS_PKCS12_Ctrl(p, cmd, &l, sizeof(BslList *)) == 0) bags(l, v); }
        HITLS_PKCS12_Free(p); return v; });
}
PBT_TEST(cms, 2000, 40000, 0, 300)
{
    seedAll(g); KType kt; EVP_PKEY *k = poolKey(g, &kt); if (kt == KED || kt == KSM2) { k = poolKey(g, &kt); } if (kt == KED || kt == KSM2) discard();
    Spec s; s.cn = "signer"; s.ext = leafExt(); Crt c(mkCert(s, k, nullptr, nullptr)); Bytes m = g.bytes(g.len(0, 60)); bool det = g.boolean(), noattr = g.boolean(), nocert = g.chance(1, 4);
    BIO *in = BIO_new_mem_buf(m.data(), (int)m.size()); CMS_ContentInfo *ci = CMS_sign(nullptr, nullptr, nullptr, nullptr, CMS_PARTIAL | CMS_BINARY | (det ? CMS_DETACHED : 0));
    if (!CMS_add1_signer(ci, c, k, nullptr, (unsigned)(CMS_BINARY | (noattr ? CMS_NOATTR : 0) | (nocert ? CMS_NOCERTS : 0) | (g.boolean() ? CMS_USE_KEYID : 0)))) { BIO_free(in); CMS_ContentInfo_free(ci); ERR_clear_error(); discard(); }
    int fin = CMS_final(ci, in, nullptr, CMS_BINARY | (det ? CMS_DETACHED : 0)); BIO_free(in); uint8_t *q = nullptr; int n = fin == 1 ? i2d_CMS_ContentInfo(ci, &q) : 0; Bytes d(q, q + n); OPENSSL_free(q); CMS_ContentInfo_free(ci); ERR_clear_error(); if (n <= 0) discard();
    bool changed = false, good = g.chance(1, 12); Bytes x = good ? d : der::damage(g, d, changed); In a(x, false); Exact msg(m); Bytes cd = opki::der(c); In cb(cd, false); bool verifyCert = g.boolean();
    twice(g, !changed, "cms", [&]() -> std::string {
        HITLS_CMS *cms = nullptr; int32_t r = HITLS_CMS_ProviderParseBuff(nullptr, nullptr, nullptr, &a.b, &cms); if (r) { CHECK(cms == nullptr, "object-on-error", "an object was returned with error 0x%x", r); return "err" + rc(r); }
        BSL_Buffer mb = {msg.p, (uint32_t)msg.n}, out = NOBUF; (void)verifyCert; std::string v = HITLS_CMS_DataVerify(cms, det ? &mb : nullptr, nullptr, &out) == 0 ? "V" : "v"; frees(out); HITLS_CMS_Free(cms); return v; });
}
