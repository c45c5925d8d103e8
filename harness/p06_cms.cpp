// P06: CMS SignedData verifies exactly what was protected, here and in an independent implementation
#include "opki.hpp"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_cms.h"
#include "hitls_pki_params.h"
#include "hitls_pki_errno.h"
#include "bsl_list.h"
#include "bsl_params.h"
#include "crypt_eal_codecs.h"
#include "crypt_eal_rand.h"
#include <openssl/cms.h>
#include <openssl/x509v3.h>
#include <openssl/err.h>
#include <map>
extern "C" int32_t HITLS_CMS_GenBuff(int32_t format, HITLS_CMS *cms, const BSL_Param *optionalParam, BSL_Buffer *encode);
using namespace opki;
const char *pbt::PROPERTY_RULE =
    "SignedData over generated content with 1-3 signers (RSA PKCS#1/PSS, P-256/384/521, SM2), digest, identifier form, signed attributes or none, attached or detached, one-shot or streamed in chunks; made here and read by OpenSSL, or made by OpenSSL and read here. "
    "Non-trivial: at least one positive verification and one refusal of an altered content, signature, signed attribute, message digest, certificate set or trust set were decided.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"content is not empty (the API treats an empty detached message as missing)", "OpenSSL 3.0 does not read SM2 signers; those are checked here only"};
namespace {
#define NEED(e, what) do { int32_t r_ = (e); CHECK(r_ == HITLS_PKI_SUCCESS, "p06-call", "%s: %s", what, rc(r_).c_str()); } while (0)
struct Id { KType t; EVP_PKEY *k = nullptr; X509 *x = nullptr; Bytes kd, cd; int issuer = -1; const char *state = "ok"; long serial = 0; };
std::vector<Id> ca, leaf; X509_CRL *crl0 = nullptr; Bytes crlDer; X509_STORE *store = nullptr;
Id mk(KType t, const std::string &cn, long serial, int issuer, std::vector<Ext> ext, int64_t na = 4102444800LL)
{
    Id i; i.t = t; i.k = newKey(t); i.issuer = issuer; i.serial = serial; Spec s; s.cn = cn; s.org = "P06"; s.serial = serial; s.ext = ext; s.na = na; i.x = mkCert(s, i.k, issuer < 0 ? nullptr : ca[(size_t)issuer].x, issuer < 0 ? nullptr : ca[(size_t)issuer].k); i.kd = der(i.k); i.cd = der(i.x); return i;
}
HITLS_X509_Cert *cert(const Bytes &d) { HITLS_X509_Cert *c = nullptr; Exact e(d); BSL_Buffer b = {e.p, (uint32_t)e.n}; NEED(HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &c), "certificate"); return c; }
CRYPT_EAL_PkeyCtx *key(const Bytes &d) { CRYPT_EAL_PkeyCtx *c = nullptr; Exact e(d); BSL_Buffer b = {e.p, (uint32_t)e.n}; NEED(CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &b, nullptr, 0, &c), "key"); return c; }
struct List { BslList *l; List() : l(BSL_LIST_New(sizeof(void *))) {} ~List() { BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_CertFree); } void add(const Bytes &d) { HITLS_X509_Cert *c = cert(d); CHECK(BSL_LIST_AddElement(l, c, BSL_LIST_POS_END) == 0, "p06-call", "list"); } };
struct CrlList { BslList *l; CrlList() : l(BSL_LIST_New(sizeof(void *))) {} ~CrlList() { BSL_LIST_FREE(l, (BSL_LIST_PFUNC_FREE)HITLS_X509_CrlFree); } void add(const Bytes &d) { HITLS_X509_Crl *c = nullptr; Exact e(d); BSL_Buffer b = {e.p, (uint32_t)e.n}; NEED(HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &b, &c), "crl"); CHECK(BSL_LIST_AddElement(l, c, BSL_LIST_POS_END) == 0, "p06-call", "list"); } };
struct Trust { std::vector<int> cas; std::vector<Bytes> untrusted; uint64_t flags = 0; };
// verification verdict of this library: 0 accepted, otherwise the error; parse failures are negative-ish errors too
int32_t verifyObj(G &g, HITLS_CMS *cms, const Bytes *detached, const Bytes *same, const Trust &t, int stream, Bytes *out)
{
    List cal, unl; for (int c : t.cas) cal.add(ca[(size_t)c].cd); for (auto &u : t.untrusted) unl.add(u); uint64_t fl = t.flags;
    std::vector<BSL_Param> p; p.push_back({HITLS_CMS_PARAM_CA_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, cal.l, sizeof(BslList *), 0}); if (!t.untrusted.empty()) p.push_back({HITLS_CMS_PARAM_UNTRUSTED_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, unl.l, sizeof(BslList *), 0}); if (fl) p.push_back({HITLS_CMS_PARAM_STORE_FLAGS, BSL_PARAM_TYPE_UINT64, &fl, sizeof fl, 0}); p.push_back(BSL_PARAM_END);
    int32_t r; if (stream) {
        r = HITLS_CMS_DataInit(HITLS_CMS_OPT_VERIFY, cms, nullptr); if (r) return r; size_t at = 0; for (size_t n : g.chunks(detached->size())) { Exact e(detached->data() + at, n); BSL_Buffer b = {e.p, (uint32_t)n}; at += n; if (!n) continue; r = HITLS_CMS_DataUpdate(cms, &b); if (r) return r; }
        if (at < detached->size()) { Exact e(detached->data() + at, detached->size() - at); BSL_Buffer b = {e.p, (uint32_t)e.n}; r = HITLS_CMS_DataUpdate(cms, &b); if (r) return r; } r = HITLS_CMS_DataFinal(cms, p.data()); if (!r && stream == 2) r = HITLS_CMS_DataFinal(cms, p.data()); return r; }
    const Bytes *m = detached ? detached : same; Exact e(m ? *m : Bytes()); BSL_Buffer b = {e.p, (uint32_t)e.n}, o = {nullptr, 0}; r = HITLS_CMS_DataVerify(cms, m ? &b : nullptr, p.data(), out ? &o : nullptr); if (out && !r) out->assign(o.data, o.data + o.dataLen); CHECK(!r || o.data == nullptr, "p06-out", "refused verification left an output"); BSL_SAL_FREE(o.data); return r;
}
int32_t verifyDer(G &g, const Bytes &d, const Bytes *detached, const Bytes *same, const Trust &t, int stream, Bytes *out)
{
    HITLS_CMS *cms = nullptr; Exact e(d); BSL_Buffer b = {e.p, (uint32_t)e.n}; int32_t r = HITLS_CMS_ProviderParseBuff(nullptr, nullptr, nullptr, &b, &cms); if (r) { CHECK(!cms, "p06-out", "object with a parse error"); BSL_ERR_ClearError(); return r; } r = verifyObj(g, cms, detached, same, t, stream, out); HITLS_CMS_Free(cms); BSL_ERR_ClearError(); return r;
}
bool osslVerify(const Bytes &d, const Bytes *detached, Bytes *out)
{
    const uint8_t *q = d.data(); CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)d.size()); if (!ci || q != d.data() + d.size()) { CMS_ContentInfo_free(ci); ERR_clear_error(); return false; } BIO *in = detached ? BIO_new_mem_buf(detached->data(), (int)detached->size()) : nullptr, *o = BIO_new(BIO_s_mem()); STACK_OF(X509) *ex = sk_X509_new_null(); for (auto &l : leaf) sk_X509_push(ex, l.x); for (auto &c : ca) sk_X509_push(ex, c.x);
    int ok = CMS_verify(ci, ex, store, in, o, CMS_BINARY); if (ok == 1) { char *p; long n = BIO_get_mem_data(o, &p); out->assign(p, p + n); } if (ok != 1 && getenv("TLSLOG")) ERR_print_errors_fp(stderr); sk_X509_free(ex); BIO_free(in); BIO_free(o); CMS_ContentInfo_free(ci); ERR_clear_error(); return ok == 1;
}
// positions of protected octets in the encoding
struct Parts { struct S { size_t sig, sigLen, attr, attrLen; }; std::vector<S> s; size_t content = 0; bool ok = true; };
size_t locate(const Bytes &d, const uint8_t *p, size_t n, size_t from, bool *ok) { auto it = std::search(d.begin() + (long)from, d.end(), p, p + n); if (it == d.end() || !n) { *ok = false; return 0; } return (size_t)(it - d.begin()); }
Parts parts(const Bytes &d, const Bytes &m, bool detached)
{
    Parts r; const uint8_t *q = d.data(); CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)d.size()); CHECK(ci, "p06-ossl-read", "OpenSSL cannot read the SignedData"); STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(ci); if (!detached) { r.content = locate(d, m.data(), m.size(), 0, &r.ok); ASN1_OCTET_STRING **c = CMS_get0_content(ci); CHECK(c && *c && Bytes((*c)->data, (*c)->data + (*c)->length) == m, "p06-content", "OpenSSL sees other content"); }
    for (int i = 0; i < sk_CMS_SignerInfo_num(si); i++) { CMS_SignerInfo *s = sk_CMS_SignerInfo_value(si, i); ASN1_OCTET_STRING *o = CMS_SignerInfo_get0_signature(s); Parts::S x = {locate(d, o->data, (size_t)o->length, 0, &r.ok), (size_t)o->length, 0, 0}; int na = CMS_signed_get_attr_count(s); if (na > 0) { size_t lo = d.size(), hi = 0; for (int a = 0; a < na; a++) { X509_ATTRIBUTE *at = CMS_signed_get_attr(s, a); uint8_t *p = nullptr; int n = i2d_X509_ATTRIBUTE(at, &p); bool ok = true; size_t f = 0; size_t before = x.sig; /* the attributes stand before the signature: take the last match before it */ for (size_t from = 0;;) { size_t h = locate(d, p, (size_t)n, from, &ok); if (!ok || h > before) break; f = h; from = h + 1; } if (!f) r.ok = false; lo = std::min(lo, f); hi = std::max(hi, f + (size_t)n); OPENSSL_free(p); } x.attr = lo; x.attrLen = hi > lo ? hi - lo : 0; } r.s.push_back(x); }
    CMS_ContentInfo_free(ci); return r;
}
struct Made { Bytes d, m; bool detached = true, noattr = false; std::vector<int> who; std::vector<bool> v3; bool certsIn = true; bool crlIn = false; bool sm2 = false, sm2na = false, streamed = false; };
void negative(G &g, const Made &a, const Trust &good)
{
    Parts p = parts(a.d, a.m, a.detached); if (!p.ok) { g.label("unlocated"); return; } Made b = a; Trust t = good; std::string what; size_t si = g.draw(p.s.size() - 1); auto flip = [&](size_t at) { b.d[at] ^= (uint8_t)(1 + g.draw(254)); };
    switch (g.weighted({4, 4, 3, 2, 2, 2, 2})) {
    case 0: { what = "content"; if (a.detached || g.chance(1, 2)) { if (!a.detached) { flip(p.content + g.draw(a.m.size() - 1)); break; } switch (g.draw(2)) { case 0: b.m[g.draw(b.m.size() - 1)] ^= (uint8_t)(1 + g.draw(254)); break; case 1: b.m.push_back((uint8_t)g.draw(255)); break; default: if (b.m.size() > 1) b.m.pop_back(); else b.m[0] ^= 1; } } else flip(p.content + g.draw(a.m.size() - 1)); break; }
    case 1: what = "signature"; flip(p.s[si].sig + g.draw(p.s[si].sigLen - 1)); break;
    case 2: if (!p.s[si].attrLen) return; what = "signed attributes"; flip(p.s[si].attr + g.draw(p.s[si].attrLen - 1)); break;
    case 3: what = "no trust anchor"; t.cas.clear(); break;
    case 4: { what = "unrelated trust anchor"; int need = leaf[(size_t)a.who[si]].issuer; int root = need == 2 ? 0 : need; t.cas = {root == 0 ? 1 : 0}; break; }
    case 5: { if (a.certsIn) return; what = "missing signer certificate"; t.untrusted.clear(); for (int c = 2; c < 3; c++) t.untrusted.push_back(ca[(size_t)c].cd); for (int w : a.who) if (w != a.who[si] && leaf[(size_t)w].k != leaf[(size_t)a.who[si]].k) t.untrusted.push_back(leaf[(size_t)w].cd); break; }
    default: { if (!a.crlIn) return; what = "revoked signer"; bool rev = false; for (int w : a.who) if (!strcmp(leaf[(size_t)w].state, "revoked")) rev = true; if (!rev) return; t.flags = HITLS_X509_VFY_FLAG_CRL_DEV; }
    }
    Bytes out; int stream = a.detached && g.boolean() ? 1 : 0; int32_t r = verifyDer(g, b.d, b.detached ? &b.m : nullptr, nullptr, t, stream, &out); CHECK(r != 0, "p06-accepted", "%s altered or missing: SignedData is accepted (%s, %zu signers)", what.c_str(), a.detached ? "detached" : "attached", a.who.size()); g.label("refused-" + what); g.nontrivial();
}
void anyByte(G &g, const Made &a, const Trust &good)
{
    Made b = a; size_t at = g.draw(b.d.size() - 1); if (g.boolean()) b.d[at] ^= (uint8_t)(1 + g.draw(254)); else if (g.boolean()) b.d.erase(b.d.begin() + (long)at); else b.d.insert(b.d.begin() + (long)at, (uint8_t)g.draw(255)); Bytes out; int32_t r = verifyDer(g, b.d, b.detached ? &b.m : nullptr, nullptr, good, 0, &out); if (!r) CHECK(out == a.m, "p06-other", "an altered SignedData is accepted with content that nobody signed"); g.label(r ? "byte-refused" : "byte-harmless");
}
void positive(G &g, const Made &a, const Trust &good, const char *by)
{
    Bytes out; bool give = !a.detached && g.chance(1, 3); int32_t r = verifyDer(g, a.d, a.detached ? &a.m : nullptr, give ? &a.m : nullptr, good, 0, &out); if (a.sm2na && a.streamed) CHECK(r == 0, "p06-sm2-stream", "an SM2 signature without signed attributes made streamed is refused in one shot: %s", rc(r).c_str()); CHECK(r == 0, "p06-refused", "genuine SignedData by %s refused: %s (%s, %zu signers, attributes %d)", by, rc(r).c_str(), a.detached ? "detached" : "attached", a.who.size(), !a.noattr); CHECK(out == a.m, "p06-content", "the verified content is not the signed one");
    int stream = a.detached ? 1 + (int)g.draw(1) : 0; if (stream) { r = verifyDer(g, a.d, &a.m, nullptr, good, stream, nullptr); if (a.sm2na && !a.streamed) CHECK(r == 0, "p06-sm2-stream", "an SM2 signature without signed attributes made in one shot is refused streamed: %s", rc(r).c_str()); CHECK(r == 0, "p06-stream", "genuine SignedData by %s refused when streamed: %s (%zu signers, attributes %d)", by, rc(r).c_str(), a.who.size(), !a.noattr); }
    if (!a.detached && g.chance(1, 4)) { Bytes o = a.m; o[g.draw(o.size() - 1)] ^= 1; Bytes dummy; r = verifyDer(g, a.d, nullptr, &o, good, 0, &dummy); CHECK(r != 0, "p06-mismatch", "a given message other than the attached content is accepted"); }
}
void seedAll(G &g) { seedRand(g); detOssl(g.draw(UINT64_MAX)); }
Trust trustFor(const Made &a) { Trust t; t.cas = {0, 1}; t.untrusted.push_back(ca[2].cd); if (!a.certsIn) for (int w : a.who) t.untrusted.push_back(leaf[(size_t)w].cd); return t; }
}  // namespace
void pbt::setup()
{
    BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); detOssl(11);
    ca.push_back(mk(KRSA, "root A", 1, -1, caExt())); ca.push_back(mk(KP256, "root B", 1, -1, caExt())); ca.push_back(mk(KP384, "intermediate", 2, 0, caExt(0)));
    std::string ku = "digitalSignature"; auto L = [&](KType t, const char *cn, long serial, int is) { leaf.push_back(mk(t, cn, serial, is, leafExt("", ku))); };
    L(KRSA, "rsa 1", 77, 0); L(KRSA, "rsa 2", 77, 1); L(KP256, "ec 1", 78, 2); L(KP256, "ec 2", 78, 0); L(KP384, "ec 3", 79, 1); L(KP521, "ec 4", 77, 2); L(KSM2, "sm 1", 80, 0); L(KP256, "revoked", 99, 0); leaf.back().state = "revoked"; L(KRSA, "rsa 3", 0x7fffffff, 2);
    leaf.push_back(mk(KP256, "expired", 81, 0, leafExt("", ku), 978307200)); leaf.back().state = "expired"; leaf.push_back(mk(KP256, "usage", 82, 1, leafExt("", "keyAgreement"))); leaf.back().state = "usage"; { std::vector<Ext> e = leafExt("", ku); e.push_back({NID_ext_key_usage, "serverAuth", true}); leaf.push_back(mk(KP256, "eku", 83, 1, e)); leaf.back().state = "eku"; }
    crl0 = mkCrl(ca[0].x, ca[0].k, 1500000000, 4000000000LL, {{99, 1600000000, 1}}); crlDer = der(crl0); store = X509_STORE_new(); X509_STORE_add_cert(store, ca[0].x); X509_STORE_add_cert(store, ca[1].x); X509_STORE_add_cert(store, ca[2].x); X509_STORE_set_purpose(store, X509_PURPOSE_ANY);
}
namespace { const int32_t CMSMD[] = {BSL_CID_SHA256, BSL_CID_SHA384, BSL_CID_SHA512, BSL_CID_SHA224}; }

PBT_TEST(own, 3000, 60000, 0, 300)
{
    seedAll(g); Made a; a.m = g.bytes(1 + g.len(0, g.chance(1, 8) ? 9000 : 200)); a.detached = g.boolean(); a.certsIn = g.chance(3, 4); a.crlIn = g.chance(1, 4); int n = (int)g.weighted({4, 3, 1}) + 1; bool bad = g.chance(1, 8); bool stream = a.detached && g.boolean();
    HITLS_CMS *cms = HITLS_CMS_ProviderNew(nullptr, nullptr, BSL_CID_PKCS7_SIGNEDDATA); CHECK(cms, "p06-call", "no object"); std::unique_ptr<HITLS_CMS, void (*)(HITLS_CMS *)> own(cms, HITLS_CMS_Free); const char *badState = nullptr; struct S { int w; int32_t md; int32_t ver; bool noattr, pss; }; std::vector<S> ss;
    for (int i = 0; i < n; i++) { S s; s.w = bad && i == n - 1 ? 9 + (int)g.draw(2) : (int)g.draw(8); if (s.w >= 9) badState = leaf[(size_t)s.w].state; KType t = leaf[(size_t)s.w].t; s.md = t == KSM2 ? (int32_t)BSL_CID_SM3 : CMSMD[g.weighted({4, 2, 2, 1})]; s.ver = g.boolean() ? 3 : 1; s.noattr = g.chance(1, 4); s.pss = t == KRSA && g.chance(1, 3); a.sm2 |= t == KSM2; a.sm2na |= t == KSM2 && s.noattr; a.streamed = stream; a.noattr |= s.noattr; ss.push_back(s); }
    if (stream) { for (auto &s : ss) if (g.boolean() || &s == &ss[0]) NEED(HITLS_CMS_Ctrl(cms, HITLS_CMS_SET_MSG_MD, &s.md, sizeof s.md), "digest"); for (auto &s : ss) NEED(HITLS_CMS_Ctrl(cms, HITLS_CMS_SET_MSG_MD, &s.md, sizeof s.md), "digest");
        NEED(HITLS_CMS_DataInit(HITLS_CMS_OPT_SIGN, cms, nullptr), "init"); size_t at = 0; auto upd = [&](size_t k) { if (!k) return; Exact e(a.m.data() + at, k); BSL_Buffer b = {e.p, (uint32_t)k}; NEED(HITLS_CMS_DataUpdate(cms, &b), "update"); at += k; }; for (size_t k : g.chunks(a.m.size())) upd(std::min(k, a.m.size() - at)); upd(a.m.size() - at); }
    for (int i = 0; i < n; i++) {
        S &s = ss[(size_t)i]; Id &l = leaf[(size_t)s.w]; std::unique_ptr<CRYPT_EAL_PkeyCtx, void (*)(CRYPT_EAL_PkeyCtx *)> k(key(l.kd), CRYPT_EAL_PkeyFreeCtx); if (l.t == KRSA) { if (s.pss) { int32_t salt = g.boolean() ? -1 : (int32_t)g.draw(40); CRYPT_MD_AlgId md = (CRYPT_MD_AlgId)s.md; if (salt < 0) salt = s.md == (int32_t)BSL_CID_SHA256 ? 32 : 20; BSL_Param pp[] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &md, sizeof md, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &md, sizeof md, 0}, {CRYPT_PARAM_RSA_SALTLEN, BSL_PARAM_TYPE_INT32, &salt, sizeof salt, 0}, BSL_PARAM_END}; NEED(CRYPT_EAL_PkeyCtrl(k.get(), CRYPT_CTRL_SET_RSA_EMSA_PSS, pp, 0), "pss"); } else { int32_t md = s.md; NEED(CRYPT_EAL_PkeyCtrl(k.get(), CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &md, sizeof md), "pkcs1"); } }
        std::unique_ptr<HITLS_X509_Cert, void (*)(HITLS_X509_Cert *)> c(cert(l.cd), HITLS_X509_CertFree); List cl; CrlList rl; if (a.certsIn) cl.add(l.cd); if (a.certsIn && i == 0 && g.boolean()) cl.add(ca[2].cd); if (a.crlIn && i == 0) rl.add(crlDer);
        std::vector<BSL_Param> p; bool det = a.detached, na = s.noattr; p.push_back({HITLS_CMS_PARAM_SIGNERINFO_VERSION, BSL_PARAM_TYPE_INT32, &s.ver, sizeof s.ver, 0}); p.push_back({HITLS_CMS_PARAM_DIGEST, BSL_PARAM_TYPE_INT32, &s.md, sizeof s.md, 0}); if (!stream) p.push_back({HITLS_CMS_PARAM_DETACHED, BSL_PARAM_TYPE_BOOL, &det, sizeof det, 0}); if (na || g.boolean()) p.push_back({HITLS_CMS_PARAM_NO_SIGNED_ATTRS, BSL_PARAM_TYPE_BOOL, &na, sizeof na, 0});
        p.push_back({HITLS_CMS_PARAM_CERT_LISTS, BSL_PARAM_TYPE_CTX_PTR, cl.l, sizeof(BslList *), 0}); if (a.crlIn && i == 0) p.push_back({HITLS_CMS_PARAM_CRL_LISTS, BSL_PARAM_TYPE_CTX_PTR, rl.l, sizeof(BslList *), 0}); if (stream) { p.push_back({HITLS_CMS_PARAM_PRIVATE_KEY, BSL_PARAM_TYPE_CTX_PTR, k.get(), sizeof(void *), 0}); p.push_back({HITLS_CMS_PARAM_DEVICE_CERT, BSL_PARAM_TYPE_CTX_PTR, c.get(), sizeof(void *), 0}); } p.push_back(BSL_PARAM_END);
        if (g.chance(1, 12)) { Id &o = leaf[(size_t)((s.w + 1 + (int)g.draw(6)) % 9)]; if (o.k != l.k && o.cd != l.cd) { std::unique_ptr<HITLS_X509_Cert, void (*)(HITLS_X509_Cert *)> oc(cert(o.cd), HITLS_X509_CertFree); bool sameKey = EVP_PKEY_eq(o.k, l.k) == 1; if (!sameKey) { Exact e(a.m); BSL_Buffer mb = {e.p, (uint32_t)e.n}; int32_t r; if (stream) { auto q = p; for (auto &x : q) if (x.key == HITLS_CMS_PARAM_DEVICE_CERT) x.value = oc.get(); r = HITLS_CMS_DataFinal(cms, q.data()); } else r = HITLS_CMS_DataSign(cms, k.get(), oc.get(), &mb, p.data()); CHECK(r != 0, "p06-wrongkey", "signing with a key that is not the certificate's succeeded"); g.label("wrong-key"); } } }
        int32_t r; Exact e(a.m); BSL_Buffer mb = {e.p, (uint32_t)e.n}; r = stream ? HITLS_CMS_DataFinal(cms, p.data()) : HITLS_CMS_DataSign(cms, k.get(), c.get(), &mb, p.data()); CHECK(r == 0, "p06-sign", "signing failed: %s (key type %d, digest %d, version %d, attributes %d, streamed %d)", rc(r).c_str(), (int)l.t, s.md, s.ver, !s.noattr, stream); a.who.push_back(s.w); a.v3.push_back(s.ver == 3);
        if (!a.detached && i == 0 && n > 1 && g.chance(1, 4)) { Bytes o = a.m; o[0] ^= 1; Exact oe(o); BSL_Buffer ob = {oe.p, (uint32_t)oe.n}; S &s2 = ss[1]; (void)s2; r = HITLS_CMS_DataSign(cms, k.get(), c.get(), &ob, p.data()); CHECK(r != 0, "p06-second", "a second signer over other content was added to an attached SignedData"); }
    }
    BSL_Buffer o = {nullptr, 0}; NEED(HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, cms, nullptr, &o), "encode"); a.d.assign(o.data, o.data + o.dataLen); BSL_SAL_FREE(o.data); Trust t = trustFor(a);
    { Bytes d2; HITLS_CMS *q = nullptr; Exact e(a.d); BSL_Buffer b = {e.p, (uint32_t)e.n}; NEED(HITLS_CMS_ProviderParseBuff(nullptr, nullptr, nullptr, &b, &q), "own encoding"); BSL_Buffer o2 = {nullptr, 0}; int32_t r = HITLS_CMS_GenBuff(BSL_FORMAT_ASN1, q, nullptr, &o2); d2.assign(o2.data, o2.data + o2.dataLen); BSL_SAL_FREE(o2.data); HITLS_CMS_Free(q); CHECK(r == 0 && d2 == a.d, "p06-reencode", "parsing and encoding again gives other octets (%s, %zu and %zu)", rc(r).c_str(), a.d.size(), d2.size()); }
    g.label(sfmt("%s-%s", a.detached ? "detached" : "attached", stream ? "streamed" : "one-shot"));
    if (badState) { Bytes out; int32_t r = verifyDer(g, a.d, a.detached ? &a.m : nullptr, nullptr, t, 0, &out); CHECK(r != 0, "p06-badsigner", "a SignedData of a signer with an unacceptable certificate (%s) is accepted", badState); g.label(std::string("bad-") + badState); g.nontrivial(); return; }
    positive(g, a, t, "this library"); if (!a.sm2) { Bytes out; CHECK(osslVerify(a.d, a.detached ? &a.m : nullptr, &out), "p06-ossl", "OpenSSL refuses the SignedData made here (%zu signers, first key type %d, attributes %d)", a.who.size(), (int)leaf[(size_t)a.who[0]].t, !a.noattr); CHECK(out == a.m, "p06-ossl-content", "OpenSSL sees other content"); }
    negative(g, a, t); if (g.boolean()) anyByte(g, a, t);
    if (a.detached == false || !stream) { Bytes out; Made b = a; if (g.chance(1, 3)) { int32_t r = verifyObj(g, cms, a.detached ? &a.m : nullptr, nullptr, t, 0, &out); CHECK(r == 0 && out == a.m, "p06-direct", "the object that signed cannot verify: %s", rc(r).c_str()); } }
    g.key(sfmt("%d/%d/%d/%zu", n, a.detached, ss[0].md, a.m.size()) + std::to_string(a.who[0]));
}

PBT_TEST(openssl, 2500, 50000, 0, 300)
{
    seedAll(g); Made a; a.m = g.bytes(1 + g.len(0, g.chance(1, 8) ? 9000 : 200)); a.detached = g.boolean(); a.certsIn = g.chance(3, 4); a.crlIn = g.chance(1, 3); int n = (int)g.weighted({4, 3, 1}) + 1; static const EVP_MD *md[] = {EVP_sha256(), EVP_sha384(), EVP_sha512(), EVP_sha224()}; bool bad = g.chance(1, 8); const char *badState = nullptr;
    BIO *in = BIO_new_mem_buf(a.m.data(), (int)a.m.size()); CMS_ContentInfo *ci = CMS_sign(nullptr, nullptr, nullptr, nullptr, CMS_PARTIAL | CMS_BINARY | (a.detached ? CMS_DETACHED : 0)); std::unique_ptr<CMS_ContentInfo, void (*)(CMS_ContentInfo *)> oc(ci, CMS_ContentInfo_free); std::unique_ptr<BIO, int (*)(BIO *)> ob(in, BIO_free); bool v3any = false, v1any = false; static const int okLeaf[] = {0, 1, 2, 3, 4, 5, 8, 7};
    for (int i = 0; i < n; i++) { int w = bad && i == n - 1 ? 9 + (int)g.draw(2) : okLeaf[g.draw(7)]; if (w >= 9) badState = leaf[(size_t)w].state; Id &l = leaf[(size_t)w]; bool na = g.chance(1, 4), kid = g.boolean(), pss = l.t == KRSA && g.chance(1, 3); (kid ? v3any : v1any) = true; unsigned f = CMS_BINARY | CMS_PARTIAL | (na ? CMS_NOATTR : 0) | (a.certsIn ? 0 : CMS_NOCERTS) | (kid ? CMS_USE_KEYID : 0) | (g.boolean() ? CMS_NOSMIMECAP : 0) | (pss ? CMS_KEY_PARAM : 0);
        CMS_SignerInfo *s = CMS_add1_signer(ci, l.x, l.k, md[g.weighted({4, 2, 2, 1})], f); if (!s) { ERR_clear_error(); discard(); } if (pss) { EVP_PKEY_CTX *pc = CMS_SignerInfo_get0_pkey_ctx(s); if (EVP_PKEY_CTX_set_rsa_padding(pc, RSA_PKCS1_PSS_PADDING) <= 0) { ERR_clear_error(); discard(); } EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, g.boolean() ? RSA_PSS_SALTLEN_DIGEST : (int)g.draw(60)); } a.who.push_back(w); a.v3.push_back(kid); a.noattr |= na; }
    if (a.certsIn && g.boolean()) CMS_add1_cert(ci, ca[2].x); if (a.crlIn) CMS_add1_crl(ci, crl0); if (CMS_final(ci, in, nullptr, CMS_BINARY | (a.detached ? CMS_DETACHED : 0)) != 1) { ERR_clear_error(); discard(); } uint8_t *q = nullptr; int len = i2d_CMS_ContentInfo(ci, &q); a.d.assign(q, q + len); OPENSSL_free(q); Trust t = trustFor(a); ERR_clear_error(); g.label(a.detached ? "detached" : "attached");
    if (badState) { Bytes out; int32_t r = verifyDer(g, a.d, a.detached ? &a.m : nullptr, nullptr, t, 0, &out); CHECK(r != 0, "p06-badsigner", "a SignedData of a signer with an unacceptable certificate (%s) is accepted", badState); g.label(std::string("bad-") + badState); g.nontrivial(); return; }
    positive(g, a, t, "OpenSSL"); negative(g, a, t); if (g.boolean()) anyByte(g, a, t); g.key(sfmt("%d/%d/%zu", n, a.detached, a.m.size()) + std::to_string(a.who[0]));
}
