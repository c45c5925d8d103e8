// P02: generated certificates, CSRs and CRLs carry exactly what was set
#include "opki.hpp"
#include "hitls_pki_cert.h"
#include "hitls_pki_csr.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_utils.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_errno.h"
#include "bsl_list.h"
#include "bsl_obj.h"
#include "crypt_eal_codecs.h"
#include <openssl/x509v3.h>
#include <time.h>
using namespace opki;
const char *pbt::PROPERTY_RULE =
    "Certificates, certification requests and CRLs are built through the API from generated field values: names of 1-5 RDNs (single- and multi-valued, every attribute type the table knows, lengths up to each bound, UTF-8), serial numbers of 1-20 octets of any value, validity from 2000 to 9999 around the UTCTime/GeneralizedTime border, subject and issuer keys and signatures of RSA PKCS#1, RSA-PSS with any salt, ECDSA, Ed25519, SM2 with any user id, "
    "and any subset of SKI, AKI, key usage, basic constraints, extended key usage, subject alternative names of every kind, CRL number, unknown extensions, requested extensions, revoked entries with reason, invalidity date and certificate issuer. The DER (or PEM) result is read by OpenSSL: every field equals what was set, nothing else is present, DER is canonical (OpenSSL's re-encoding is identical), and the signature verifies; the library's own parser returns the same values and encoding.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"values outside the bounds the library states (key identifiers of 8-20 octets, RFC 5280 name lengths) are not generated; UTCTime years before 2000 are refused by the encoder and not generated", "serial octets denote the unsigned number; leading zeros need not survive"};
void pbt::setup() { BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); detOssl(7); }
namespace {
struct DnT { BslCid cid; int nid; int min, max, kind; };   // kind 0 utf8, 1 printable, 2 ia5
const DnT DNS[] = {{BSL_CID_AT_COMMONNAME, NID_commonName, 1, 64, 0}, {BSL_CID_AT_SURNAME, NID_surname, 1, 40, 0}, {BSL_CID_AT_SERIALNUMBER, NID_serialNumber, 1, 64, 1}, {BSL_CID_AT_COUNTRYNAME, NID_countryName, 2, 2, 1}, {BSL_CID_AT_LOCALITYNAME, NID_localityName, 1, 128, 0}, {BSL_CID_AT_STATEORPROVINCENAME, NID_stateOrProvinceName, 1, 128, 0}, {BSL_CID_AT_STREETADDRESS, NID_streetAddress, 1, 300, 0}, {BSL_CID_AT_ORGANIZATIONNAME, NID_organizationName, 1, 64, 0}, {BSL_CID_AT_ORGANIZATIONALUNITNAME, NID_organizationalUnitName, 1, 64, 0}, {BSL_CID_AT_TITLE, NID_title, 1, 64, 0}, {BSL_CID_AT_GIVENNAME, NID_givenName, 1, 400, 0}, {BSL_CID_AT_INITIALS, NID_initials, 1, 300, 0}, {BSL_CID_AT_GENERATIONQUALIFIER, NID_generationQualifier, 1, 300, 0}, {BSL_CID_AT_DNQUALIFIER, NID_dnQualifier, 1, 300, 1}, {BSL_CID_AT_PSEUDONYM, NID_pseudonym, 1, 128, 0}, {BSL_CID_DOMAINCOMPONENT, NID_domainComponent, 1, 200, 2}, {BSL_CID_AT_USERID, NID_userId, 1, 256, 0}};
struct Atv { const DnT *t; std::string v; };
typedef std::vector<std::vector<Atv>> Name;
std::string utf8(G &g, size_t lo, size_t hi) { size_t n = g.len(lo, hi); std::string r; while (r.size() < n) { size_t left = n - r.size(); int k = (int)g.weighted({8, 1, 1}); if (k == 1 && left >= 2) r += "\xc3\xa9"; else if (k == 2 && left >= 3) r += "\xe6\xb1\x89"; else r += (char)(32 + g.draw(94)); } return r; }
Name genName(G &g) { Name n; int k = (int)g.range(1, 5); for (int i = 0; i < k; i++) { std::vector<Atv> r; int m = g.chance(1, 4) ? (int)g.range(2, 4) : 1; for (int j = 0; j < m; j++) { const DnT &t = DNS[g.draw(sizeof DNS / sizeof DNS[0] - 1)]; bool dup = false; for (auto &x : r) dup |= x.t == &t; if (dup) continue; size_t hi = g.chance(1, 6) ? (size_t)t.max : std::min<size_t>((size_t)t.max, 12); r.push_back({&t, t.kind == 1 ? g.text(g.len((size_t)t.min, hi), "ABCXYZabcz0123456789 '()+,-./:=?") : t.kind == 2 ? g.text(g.len((size_t)t.min, hi), "abcxyz0123456789-.@_") : utf8(g, (size_t)t.min, hi)}); } n.push_back(r); } return n; }
std::string show(const Name &n) { std::string s; for (auto &r : n) { s += "/"; for (auto &a : r) s += sfmt("%s=%s%s", OBJ_nid2sn(a.t->nid), a.v.substr(0, 12).c_str(), &a == &r.back() ? "" : "+"); } return s; }
typedef std::unique_ptr<BslList, void (*)(BslList *)> DnList;
std::vector<HITLS_X509_DN> dn(const std::vector<Atv> &r) { std::vector<HITLS_X509_DN> v; for (auto &a : r) v.push_back({a.t->cid, (uint8_t *)a.v.data(), (uint32_t)a.v.size()}); return v; }
DnList mkDn(const Name &n) { DnList l(HITLS_X509_DnListNew(), HITLS_X509_DnListFree); for (auto &r : n) { auto v = dn(r); int32_t e = HITLS_X509_AddDnName(l.get(), v.data(), (uint32_t)v.size()); CHECK(e == HITLS_PKI_SUCCESS, "p02-dn", "AddDnName %s for %s", rc(e).c_str(), show({r}).c_str()); } return l; }
void cmpName(const X509_NAME *x, const Name &n, const char *what)
{
    size_t total = 0; for (auto &r : n) total += r.size(); CHECK((size_t)X509_NAME_entry_count(x) == total, "p02-name", "%s has %d attributes, %zu were set (%s)", what, X509_NAME_entry_count(x), total, show(n).c_str()); int i = 0;
    for (size_t k = 0; k < n.size(); k++) { std::multiset<std::pair<int, std::string>> a, b; for (auto &t : n[k]) a.insert({t.t->nid, t.v}); for (size_t j = 0; j < n[k].size(); j++, i++) { X509_NAME_ENTRY *e = X509_NAME_get_entry(x, i); CHECK(X509_NAME_ENTRY_set(e) == (int)k, "p02-rdn", "%s: attribute %d is in RDN %d, expected %zu", what, i, X509_NAME_ENTRY_set(e), k); ASN1_STRING *s = X509_NAME_ENTRY_get_data(e); b.insert({OBJ_obj2nid(X509_NAME_ENTRY_get_object(e)), std::string((const char *)ASN1_STRING_get0_data(s), (size_t)ASN1_STRING_length(s))}); } CHECK(a == b, "p02-name", "%s: RDN %zu differs from %s", what, k, show({n[k]}).c_str()); }
}
struct T { struct tm m; BSL_TIME b; std::string str; };
T genTime(G &g, int lo, int hi) { T t; memset(&t.m, 0, sizeof t.m); int y = g.chance(1, 3) ? std::max(lo, std::min(hi, (int)g.pick<int>({1950, 1969, 1970, 1999, 2000, 2038, 2049, 2050, 2051, 2100, 9999}))) : (int)g.range((uint64_t)lo, (uint64_t)hi); t.m.tm_year = y - 1900; t.m.tm_mon = (int)g.draw(11); static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; t.m.tm_mday = 1 + (int)g.draw((uint64_t)(D[t.m.tm_mon] + (t.m.tm_mon == 1 && leap) - 1)); t.m.tm_hour = (int)g.draw(23); t.m.tm_min = (int)g.draw(59); t.m.tm_sec = (int)g.draw(59); memset(&t.b, 0, sizeof t.b); t.b.year = (uint16_t)y; t.b.month = (uint8_t)(t.m.tm_mon + 1); t.b.day = (uint8_t)t.m.tm_mday; t.b.hour = (uint8_t)t.m.tm_hour; t.b.minute = (uint8_t)t.m.tm_min; t.b.second = (uint8_t)t.m.tm_sec; t.str = sfmt("%04d%02d%02d%02d%02d%02d", y, t.m.tm_mon + 1, t.m.tm_mday, t.m.tm_hour, t.m.tm_min, t.m.tm_sec); return t; }
std::string tstr(const ASN1_TIME *a) { struct tm m; if (!a || ASN1_TIME_to_tm(a, &m) != 1) return "invalid"; return sfmt("%04d%02d%02d%02d%02d%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); }
std::string tstr(const BSL_TIME &b) { return sfmt("%04u%02u%02u%02u%02u%02u", b.year, b.month, b.day, b.hour, b.minute, b.second); }
void cmpTime(const ASN1_TIME *a, const T &t, const char *what) { CHECK(tstr(a) == t.str, "p02-time", "%s is %s, set %s", what, tstr(a).c_str(), t.str.c_str()); bool utc = t.m.tm_year + 1900 < 2050; CHECK((a->type == V_ASN1_UTCTIME) == utc, "p02-time-type", "%s %s encoded with type %d", what, t.str.c_str(), a->type); }
Bytes genSerial(G &g) { Bytes b = g.bytes(g.len(1, 20)); if (g.chance(1, 3)) b[0] = g.pick<uint8_t>({0x80, 0xff, 0x7f, 0x01}); if (b[0] == 0) b[0] = 1; return b; }
Bytes snum(const ASN1_INTEGER *a) { if (!a || (ASN1_STRING_type((const ASN1_STRING *)a) & V_ASN1_NEG)) return {}; return Bytes(ASN1_STRING_get0_data((const ASN1_STRING *)a), ASN1_STRING_get0_data((const ASN1_STRING *)a) + ASN1_STRING_length((const ASN1_STRING *)a)); }
struct Key { EVP_PKEY *k = nullptr; CRYPT_EAL_PkeyCtx *h = nullptr; KType t; Key() {} Key(const Key &) = delete; ~Key() { EVP_PKEY_free(k); CRYPT_EAL_PkeyFreeCtx(h); } void make(G &g) { orng() = g.draw(UINT32_MAX); t = g.pick<KType>({KP256, KRSA, KED, KP384, KP521, KSM2}); k = newKey(t); Bytes d = der(k); BSL_Buffer b = {d.data(), (uint32_t)d.size()}; int32_t r = CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &b, nullptr, 0, &h); CHECK(r == 0 && h, "p02-key", "decode key type %d: %s", t, rc(r).c_str()); if (t == KED) { uint8_t raw[32]; size_t n = 32; EVP_PKEY_get_raw_public_key(k, raw, &n); CRYPT_EAL_PkeyPub pub = {}; pub.id = CRYPT_PKEY_ED25519; pub.key.curve25519Pub.data = raw; pub.key.curve25519Pub.len = 32; CHECK(CRYPT_EAL_PkeySetPub(h, &pub) == 0, "p02-key", "Ed25519 public key"); } } };
const char *KN[] = {"P256", "RSA", "ED25519", "P384", "P521", "PSS", "SM2"};
struct Alg { int32_t md = CRYPT_MD_SHA256; HITLS_X509_SignAlgParam p; bool use = false; Bytes uid = Bytes((const uint8_t *)"1234567812345678", (const uint8_t *)"1234567812345678" + 16); std::string desc; };
void genAlg(G &g, const Key &k, Alg &a)
{
    memset(&a.p, 0, sizeof a.p); a.md = g.pick<int32_t>({CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SHA224}); a.desc = KN[k.t];
    if (k.t == KED) a.md = CRYPT_MD_SHA512; if (k.t == KSM2) { a.md = CRYPT_MD_SM3; if (g.boolean()) { a.use = true; a.p.algId = BSL_CID_SM2DSAWITHSM3; if (g.boolean()) a.uid = g.bytes(1 + g.draw(40)); a.p.sm2UserId.data = a.uid.data(); a.p.sm2UserId.dataLen = (uint32_t)a.uid.size(); a.desc += sfmt(" uid %zu", a.uid.size()); } }
    if (k.t == KRSA && g.boolean()) { a.use = true; a.p.algId = BSL_CID_RSASSAPSS; a.p.rsaPss.mdId = (CRYPT_MD_AlgId)a.md; a.p.rsaPss.mgfId = g.chance(1, 3) ? (CRYPT_MD_AlgId)CRYPT_MD_SHA256 : (CRYPT_MD_AlgId)a.md; a.p.rsaPss.saltLen = (int32_t)g.pick<int>({0, 1, 20, 32, 48, 64, 100}); a.desc += sfmt(" PSS salt %d mgf %d", a.p.rsaPss.saltLen, a.p.rsaPss.mgfId); }
    a.desc += sfmt(" md %d", a.md);
}
struct Gn { int type; std::string v; Name dir; };
std::vector<Gn> genNames(G &g) { std::vector<Gn> r; int k = (int)g.range(1, 5); for (int i = 0; i < k; i++) { Gn n; n.type = g.pick<int>({HITLS_X509_GN_EMAIL, HITLS_X509_GN_DNS, HITLS_X509_GN_URI, HITLS_X509_GN_IP, HITLS_X509_GN_DNNAME}); if (n.type == HITLS_X509_GN_IP) { Bytes b = g.bytes(g.boolean() ? 4 : 16); n.v.assign((const char *)b.data(), b.size()); } else if (n.type == HITLS_X509_GN_DNNAME) n.dir = genName(g); else n.v = g.text(g.len(1, g.chance(1, 8) ? 300 : 20), "abcxyz019.-/:@*_"); r.push_back(n); } return r; }
typedef std::unique_ptr<BslList, std::function<void(BslList *)>> GnList;
GnList mkNames(const std::vector<Gn> &v)
{
    GnList l(BSL_LIST_New(sizeof(HITLS_X509_GeneralName)), [](BslList *x) { BSL_LIST_FREE(x, (BSL_LIST_PFUNC_FREE)HITLS_X509_FreeGeneralName); });
    for (auto &n : v) { auto *p = (HITLS_X509_GeneralName *)BSL_SAL_Calloc(1, sizeof(HITLS_X509_GeneralName)); p->type = (HITLS_X509_GeneralNameType)n.type; if (n.type == HITLS_X509_GN_DNNAME) { p->value.data = (uint8_t *)mkDn(n.dir).release(); p->value.dataLen = sizeof(BslList *); } else { p->value.data = (uint8_t *)BSL_SAL_Dump(n.v.data(), (uint32_t)n.v.size()); p->value.dataLen = (uint32_t)n.v.size(); } BSL_LIST_AddElement(l.get(), p, BSL_LIST_POS_END); }
    return l;
}
void cmpNames(GENERAL_NAMES *x, const std::vector<Gn> &v, const char *what)
{
    CHECK(x && (size_t)sk_GENERAL_NAME_num(x) == v.size(), "p02-san", "%s: %d general names, %zu set", what, x ? sk_GENERAL_NAME_num(x) : -1, v.size());
    for (size_t i = 0; i < v.size(); i++) { GENERAL_NAME *n = sk_GENERAL_NAME_value(x, (int)i); int want = v[i].type == HITLS_X509_GN_EMAIL ? GEN_EMAIL : v[i].type == HITLS_X509_GN_DNS ? GEN_DNS : v[i].type == HITLS_X509_GN_URI ? GEN_URI : v[i].type == HITLS_X509_GN_IP ? GEN_IPADD : GEN_DIRNAME; CHECK(n->type == want, "p02-san", "%s: name %zu has type %d, expected %d", what, i, n->type, want); if (want == GEN_DIRNAME) cmpName(n->d.directoryName, v[i].dir, what); else { ASN1_STRING *s = (ASN1_STRING *)n->d.ia5; CHECK(std::string((const char *)ASN1_STRING_get0_data(s), (size_t)ASN1_STRING_length(s)) == v[i].v, "p02-san", "%s: name %zu differs", what, i); } }
}
struct Exts { bool ski = false, aki = false, ku = false, bc = false, eku = false, san = false, num = false; bool cs = false, ca = false, ck = false, cb = false, ce = false, cn = false, cnum = false; Bytes kid, akid, number; uint32_t kuv = 0; HITLS_X509_ExtBCons b = {}; std::vector<int> ekus; std::vector<Gn> names; std::vector<std::tuple<Bytes, Bytes, bool>> gen; int count() const { return ski + aki + ku + bc + eku + san + num + (int)gen.size(); } };
const std::pair<int, int> EKU[] = {{BSL_CID_KP_SERVERAUTH, NID_server_auth}, {BSL_CID_KP_CLIENTAUTH, NID_client_auth}, {BSL_CID_KP_CODESIGNING, NID_code_sign}, {BSL_CID_KP_EMAILPROTECTION, NID_email_protect}, {BSL_CID_KP_TIMESTAMPING, NID_time_stamp}, {BSL_CID_KP_OCSPSIGNING, NID_OCSP_sign}};
template <class F> void genExts(G &g, Exts &e, int kind /*0 cert 1 csr 2 crl*/, F set)
{
    auto ok = [&](int32_t r, const char *w) { CHECK(r == HITLS_PKI_SUCCESS, "p02-ext-set", "setting %s: %s", w, rc(r).c_str()); };
    if (kind != 2 && g.chance(1, 3)) { e.ski = true; e.kid = g.bytes(8 + g.draw(12)); e.cs = g.boolean(); HITLS_X509_ExtSki x = {e.cs, {e.kid.data(), (uint32_t)e.kid.size()}}; ok(set(HITLS_X509_EXT_SET_SKI, &x, sizeof x), "SKI"); }
    if (kind != 1 && g.chance(1, 3)) { e.aki = true; e.akid = g.bytes(8 + g.draw(12)); e.ca = g.boolean(); HITLS_X509_ExtAki x = {}; x.critical = e.ca; x.kid = {e.akid.data(), (uint32_t)e.akid.size()}; ok(set(HITLS_X509_EXT_SET_AKI, &x, sizeof x), "AKI"); }
    if (kind != 2 && g.chance(1, 2)) { e.ku = true; e.kuv = g.pick<uint32_t>({0x80, 0x8000, 0x80ff, 0x06, 0x01, 0, 0xff}); if (!e.kuv) e.kuv = 1u << g.draw(7); e.ck = g.boolean(); HITLS_X509_ExtKeyUsage x = {e.ck, e.kuv}; ok(set(HITLS_X509_EXT_SET_KUSAGE, &x, sizeof x), "key usage"); }
    if (kind != 2 && g.chance(1, 2)) { e.bc = true; e.cb = g.boolean(); e.b.critical = e.cb; e.b.isCa = g.boolean(); e.b.maxPathLen = e.b.isCa ? g.pick<int32_t>({-1, 0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff}) : -1; ok(set(HITLS_X509_EXT_SET_BCONS, &e.b, sizeof e.b), "basic constraints"); }
    if (kind != 2 && g.chance(1, 3)) { e.eku = true; e.ce = g.boolean(); int n = (int)g.range(1, 4); BslList *l = BSL_LIST_New(sizeof(BSL_Buffer)); for (int i = 0; i < n; i++) { auto &k = EKU[g.draw(sizeof EKU / sizeof EKU[0] - 1)]; bool dup = false; for (int y : e.ekus) dup |= y == k.second; if (dup) continue; e.ekus.push_back(k.second); BslOidString *o = BSL_OBJ_GetOID((BslCid)k.first); auto *b = (BSL_Buffer *)BSL_SAL_Calloc(1, sizeof(BSL_Buffer)); b->data = (uint8_t *)o->octs; b->dataLen = o->octetLen; BSL_LIST_AddElement(l, b, BSL_LIST_POS_END); } HITLS_X509_ExtExKeyUsage x = {e.ce, l}; int32_t r = set(HITLS_X509_EXT_SET_EXKUSAGE, &x, sizeof x); BSL_LIST_FREE(l, nullptr); ok(r, "extended key usage"); }
    if (kind != 2 && g.chance(1, 2)) { e.san = true; e.cn = g.boolean(); e.names = genNames(g); GnList l = mkNames(e.names); HITLS_X509_ExtSan x = {e.cn, l.get()}; ok(set(HITLS_X509_EXT_SET_SAN, &x, sizeof x), "SAN"); }
    if (kind == 2 && g.chance(1, 2)) { e.num = true; e.cnum = g.boolean(); e.number = genSerial(g); e.number[0] &= 0x7f; if (!e.number[0]) e.number[0] = 1; HITLS_X509_ExtCrlNumber x = {e.cnum, {e.number.data(), (uint32_t)e.number.size()}}; ok(set(HITLS_X509_EXT_SET_CRLNUMBER, &x, sizeof x), "CRL number"); }
    if (kind != 2 && g.chance(1, 3)) { int n = (int)g.range(1, 3); for (int i = 0; i < n; i++) { Bytes oid = {0x2b, 6, 1, 4, 1, 0x83, (uint8_t)(1 + i), (uint8_t)g.draw(127)}, val = g.bytes(g.draw(g.chance(1, 8) ? 300 : 30)); val.insert(val.begin(), {4, 0x82, (uint8_t)(val.size() >> 8), (uint8_t)val.size()}); bool c = g.boolean(); HITLS_X509_ExtGeneric x = {}; x.critical = c; x.oid = {oid.data(), (uint32_t)oid.size()}; x.value = {val.data(), (uint32_t)val.size()}; ok(set(HITLS_X509_EXT_SET_GENERIC, &x, sizeof x), "generic"); e.gen.push_back({oid, val, c}); } }
}
void cmpExts(const STACK_OF(X509_EXTENSION) *xs, Exts &e)
{
    int n = xs ? sk_X509_EXTENSION_num(xs) : 0; CHECK(n == e.count(), "p02-ext-count", "%d extensions present, %d set", n, e.count());
    auto get = [&](int nid, bool crit, const char *w) -> void * { int c = -1; void *p = X509V3_get_d2i(xs, nid, &c, nullptr); CHECK(p, "p02-ext", "%s missing or unreadable (%d)", w, c); CHECK((c == 1) == crit, "p02-ext-crit", "%s critical %d, set %d", w, c, crit); return p; };
    if (e.ski) { auto *o = (ASN1_OCTET_STRING *)get(NID_subject_key_identifier, e.cs, "SKI"); Bytes b(o->data, o->data + o->length); ASN1_OCTET_STRING_free(o); CHECK(b == e.kid, "p02-ext", "SKI differs"); }
    if (e.aki) { auto *o = (AUTHORITY_KEYID *)get(NID_authority_key_identifier, e.ca, "AKI"); Bytes b; if (o->keyid) b.assign(o->keyid->data, o->keyid->data + o->keyid->length); bool extra = o->issuer || o->serial; AUTHORITY_KEYID_free(o); CHECK(b == e.akid && !extra, "p02-ext", "AKI differs"); }
    if (e.ku) { auto *o = (ASN1_BIT_STRING *)get(NID_key_usage, e.ck, "key usage"); uint32_t v = 0; for (int i = 0; i < 9; i++) if (ASN1_BIT_STRING_get_bit(o, i)) v |= i < 8 ? 0x80u >> i : 0x8000u; ASN1_BIT_STRING_free(o); CHECK(v == e.kuv, "p02-ext", "key usage %04x, set %04x", v, e.kuv); }
    if (e.bc) { auto *o = (BASIC_CONSTRAINTS *)get(NID_basic_constraints, e.cb, "basic constraints"); bool ca = o->ca; long pl = o->pathlen ? ASN1_INTEGER_get(o->pathlen) : -1; BASIC_CONSTRAINTS_free(o); CHECK(ca == e.b.isCa && pl == e.b.maxPathLen, "p02-ext", "basic constraints %d/%ld, set %d/%d", ca, pl, e.b.isCa, e.b.maxPathLen); }
    if (e.eku) { auto *o = (EXTENDED_KEY_USAGE *)get(NID_ext_key_usage, e.ce, "EKU"); std::vector<int> v; for (int i = 0; i < sk_ASN1_OBJECT_num(o); i++) v.push_back(OBJ_obj2nid(sk_ASN1_OBJECT_value(o, i))); EXTENDED_KEY_USAGE_free(o); CHECK(v == e.ekus, "p02-ext", "extended key usages differ (%zu, set %zu)", v.size(), e.ekus.size()); }
    if (e.san) { auto *o = (GENERAL_NAMES *)get(NID_subject_alt_name, e.cn, "SAN"); std::unique_ptr<GENERAL_NAMES, void (*)(GENERAL_NAMES *)> own(o, GENERAL_NAMES_free); cmpNames(o, e.names, "SAN"); }
    if (e.num) { auto *o = (ASN1_INTEGER *)get(NID_crl_number, e.cnum, "CRL number"); Bytes b = snum(o); ASN1_INTEGER_free(o); CHECK(b == e.number, "p02-ext", "CRL number differs: %s set %s", hex(b).c_str(), hex(e.number).c_str()); }
    for (auto &t : e.gen) { bool found = false; for (int i = 0; i < n; i++) { X509_EXTENSION *x = sk_X509_EXTENSION_value(xs, i); const ASN1_OBJECT *o = X509_EXTENSION_get_object(x); if (OBJ_length(o) != std::get<0>(t).size() || memcmp(OBJ_get0_data(o), std::get<0>(t).data(), OBJ_length(o))) continue; ASN1_OCTET_STRING *d = X509_EXTENSION_get_data(x); found = true; CHECK(Bytes(d->data, d->data + d->length) == std::get<1>(t) && (X509_EXTENSION_get_critical(x) == 1) == std::get<2>(t), "p02-ext", "generic extension differs"); } CHECK(found, "p02-ext", "generic extension missing"); }
}
template <class Get> void readExts(Exts &e, Get get)
{
    if (e.ski) { HITLS_X509_ExtSki x = {}; int32_t r = get(HITLS_X509_EXT_GET_SKI, &x, sizeof x); CHECK(r == 0 && x.critical == e.cs && Bytes(x.kid.data, x.kid.data + x.kid.dataLen) == e.kid, "p02-read-ext", "SKI read back: %s", rc(r).c_str()); }
    if (e.aki) { HITLS_X509_ExtAki x = {}; int32_t r = get(HITLS_X509_EXT_GET_AKI, &x, sizeof x); CHECK(r == 0 && x.critical == e.ca && Bytes(x.kid.data, x.kid.data + x.kid.dataLen) == e.akid, "p02-read-ext", "AKI read back: %s", rc(r).c_str()); HITLS_X509_ClearAuthorityKeyId(&x); }
    if (e.bc) { HITLS_X509_ExtBCons x = {}; int32_t r = get(HITLS_X509_EXT_GET_BCONS, &x, sizeof x); CHECK(r == 0 && x.isCa == e.b.isCa && x.maxPathLen == e.b.maxPathLen && x.critical == e.cb, "p02-read-ext", "basic constraints read back %d/%d set %d/%d: %s", x.isCa, x.maxPathLen, e.b.isCa, e.b.maxPathLen, rc(r).c_str()); }
    if (e.san) { HITLS_X509_ExtSan x = {}; int32_t r = get(HITLS_X509_EXT_GET_SAN, &x, sizeof x); CHECK(r == 0 && x.critical == e.cn, "p02-read-ext", "SAN read back: %s", rc(r).c_str()); size_t i = 0; for (auto *p = (HITLS_X509_GeneralName *)BSL_LIST_GET_FIRST(x.names); p; p = (HITLS_X509_GeneralName *)BSL_LIST_GET_NEXT(x.names), i++) { bool same = i < e.names.size() && (int)p->type == e.names[i].type && (p->type == HITLS_X509_GN_DNNAME || std::string((const char *)p->value.data, p->value.dataLen) == e.names[i].v); CHECK(same, "p02-read-ext", "SAN name %zu read back differs", i); } CHECK(i == e.names.size(), "p02-read-ext", "SAN: %zu names read back, %zu set", i, e.names.size()); HITLS_X509_ClearSubjectAltName(&x); }
    if (e.num) { HITLS_X509_ExtCrlNumber x = {}; int32_t r = get(HITLS_X509_EXT_GET_CRLNUMBER, &x, sizeof x); CHECK(r == 0 && x.critical == e.cnum && Bytes(x.crlNumber.data, x.crlNumber.data + x.crlNumber.dataLen) == e.number, "p02-read-ext", "CRL number read back: %s", rc(r).c_str()); }
}
Bytes unpem(const Bytes &b) { BIO *m = BIO_new_mem_buf(b.data(), (int)b.size()); char *n = nullptr, *h = nullptr; unsigned char *d = nullptr; long l = 0; Bytes r; if (PEM_read_bio(m, &n, &h, &d, &l)) r.assign(d, d + l); OPENSSL_free(n); OPENSSL_free(h); OPENSSL_free(d); BIO_free(m); return r; }
Bytes grab(G &g, int32_t r, BSL_Buffer &b, bool pem, const char *what) { (void)g; CHECK(r == HITLS_PKI_SUCCESS, "p02-gen", "%s generation: %s", what, rc(r).c_str()); Bytes d(b.data, b.data + b.dataLen); BSL_SAL_Free(b.data); if (pem) { d = unpem(d); CHECK(!d.empty(), "p02-pem", "%s: PEM not readable", what); } return d; }
int32_t signParamUse(const Alg &a) { return a.use; }
#define NEED(e, w) do { int32_t r_ = (e); CHECK(r_ == HITLS_PKI_SUCCESS, "p02-set", "%s: %s", w, rc(r_).c_str()); } while (0)
}
PBT_TEST(cert, 4000, 40000, 0, 200)
{
    Key sk, ik; sk.make(g); ik.make(g); Alg a; genAlg(g, ik, a); Name sub = genName(g), iss = genName(g); Bytes sn = genSerial(g); T nb = genTime(g, 2000, 9000), na = genTime(g, nb.m.tm_year + 1900, 9999); if (na.str < nb.str) std::swap(na, nb); Exts e; bool pem = g.chance(1, 4);
    g.note("subject %s issuer %s serial %s from %s to %s key %s sign %s", show(sub).c_str(), show(iss).c_str(), hex(sn).c_str(), nb.str.c_str(), na.str.c_str(), KN[sk.t], a.desc.c_str()); g.nontrivial(); g.label(a.desc.substr(0, 8).c_str());
    std::unique_ptr<HITLS_X509_Cert, void (*)(HITLS_X509_Cert *)> c(HITLS_X509_CertNew(), HITLS_X509_CertFree); auto set = [&](int32_t cmd, void *v, uint32_t n) { return HITLS_X509_CertCtrl(c.get(), cmd, v, n); };
    DnList sl = mkDn(sub), il = mkDn(iss); NEED(set(HITLS_X509_SET_SERIALNUM, sn.data(), (uint32_t)sn.size()), "serial"); NEED(set(HITLS_X509_SET_BEFORE_TIME, &nb.b, sizeof(BSL_TIME)), "not before"); NEED(set(HITLS_X509_SET_AFTER_TIME, &na.b, sizeof(BSL_TIME)), "not after"); NEED(set(HITLS_X509_SET_PUBKEY, sk.h, 0), "public key"); NEED(set(HITLS_X509_SET_SUBJECT_DN, sl.get(), sizeof(BslList)), "subject"); NEED(set(HITLS_X509_SET_ISSUER_DN, il.get(), sizeof(BslList)), "issuer"); genExts(g, e, 0, set);
    int32_t ver = e.count() || g.chance(3, 4) ? HITLS_X509_VERSION_3 : HITLS_X509_VERSION_1; NEED(set(HITLS_X509_SET_VERSION, &ver, sizeof ver), "version"); int32_t r = HITLS_X509_CertSign(a.md, ik.h, a.use ? &a.p : nullptr, c.get()); CHECK(r == HITLS_PKI_SUCCESS, "p02-sign", "CertSign (%s): %s", a.desc.c_str(), rc(r).c_str());
    BSL_Buffer o = {}; Bytes d = grab(g, HITLS_X509_CertGenBuff(pem ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1, c.get(), &o), o, pem, "certificate"); const uint8_t *p = d.data(); Crt x(d2i_X509(nullptr, &p, (long)d.size())); CHECK(x && p == d.data() + d.size(), "p02-parse", "OpenSSL cannot parse the certificate %s", hex(d).substr(0, 400).c_str());
    CHECK(X509_get_version(x) == ver, "p02-version", "version %ld, set %d", X509_get_version(x), ver); CHECK(snum(X509_get0_serialNumber(x)) == sn, "p02-serial", "serial %s, set %s", hex(snum(X509_get0_serialNumber(x))).c_str(), hex(sn).c_str()); cmpName(X509_get_subject_name(x), sub, "subject"); cmpName(X509_get_issuer_name(x), iss, "issuer"); cmpTime(X509_get0_notBefore(x), nb, "notBefore"); cmpTime(X509_get0_notAfter(x), na, "notAfter"); CHECK(EVP_PKEY_eq(X509_get0_pubkey(x), sk.k) == 1, "p02-pubkey", "public key differs (%s)", KN[sk.t]); cmpExts(X509_get0_extensions(x), e);
    if (ik.t == KSM2 && a.use) { ASN1_OCTET_STRING *id = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(id, a.uid.data(), (int)a.uid.size()); X509_set0_distinguishing_id(x, id); } CHECK(X509_verify(x, ik.k) == 1, "p02-signature", "signature does not verify in OpenSSL (%s)", a.desc.c_str());
    { Crt y(X509_dup(x)); X509_NAME *n2 = X509_NAME_dup(X509_get_subject_name(x)); X509_set_subject_name(y, n2); X509_NAME_free(n2); unsigned char *q = nullptr; (void)q; uint8_t *t1 = nullptr; int l1 = i2d_re_X509_tbs(y, &t1); uint8_t *t0 = nullptr; int l0 = i2d_X509_NAME(X509_get_subject_name(x), &t0); (void)l0; Bytes re(t1, t1 + l1); OPENSSL_free(t1); OPENSSL_free(t0); CHECK(std::search(d.begin(), d.end(), re.begin(), re.end()) != d.end(), "p02-der", "the encoding is not canonical DER"); }
    // and back again
    HITLS_X509_Cert *b = nullptr; Exact ex(d); BSL_Buffer eb = {ex.p, (uint32_t)ex.n}; r = HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &eb, &b); CHECK(r == 0 && b, "p02-reparse", "own certificate refused: %s", rc(r).c_str()); std::unique_ptr<HITLS_X509_Cert, void (*)(HITLS_X509_Cert *)> ob(b, HITLS_X509_CertFree); auto get = [&](int32_t cmd, void *v, uint32_t n) { return HITLS_X509_CertCtrl(b, cmd, v, n); };
    BSL_TIME t; NEED(get(HITLS_X509_GET_BEFORE_TIME, &t, sizeof t), "get before"); CHECK(tstr(t) == nb.str, "p02-read", "notBefore read back %s", tstr(t).c_str()); NEED(get(HITLS_X509_GET_AFTER_TIME, &t, sizeof t), "get after"); CHECK(tstr(t) == na.str, "p02-read", "notAfter read back %s", tstr(t).c_str()); if (e.ku) { uint32_t k = 0; NEED(get(HITLS_X509_EXT_GET_KUSAGE, &k, sizeof k), "get ku"); CHECK(k == e.kuv, "p02-read", "key usage read back %x", k); } readExts(e, get);
    r = HITLS_X509_CertVerifyByPubKey(b, ik.h); if (ik.t != KSM2 || a.uid.size() == 16) CHECK(r == 0 || (ik.t == KSM2), "p02-own-verify", "own signature check: %s (%s)", rc(r).c_str(), a.desc.c_str()); BSL_Buffer o2 = {}; Bytes d2 = grab(g, HITLS_X509_CertGenBuff(BSL_FORMAT_ASN1, b, &o2), o2, false, "parsed certificate"); CHECK(d2 == d, "p02-reencode", "re-encoding a parsed certificate differs");
}
PBT_TEST(csr, 2000, 20000, 0, 200)
{
    Key sk; sk.make(g); Alg a; genAlg(g, sk, a); Name sub = genName(g); Exts e; bool pem = g.chance(1, 4), withExt = g.boolean(); g.note("subject %s key %s sign %s", show(sub).c_str(), KN[sk.t], a.desc.c_str()); g.nontrivial(); g.label(a.desc.substr(0, 8).c_str());
    std::unique_ptr<HITLS_X509_Csr, void (*)(HITLS_X509_Csr *)> c(HITLS_X509_CsrNew(), HITLS_X509_CsrFree); NEED(HITLS_X509_CsrCtrl(c.get(), HITLS_X509_SET_PUBKEY, sk.h, 0), "public key"); for (auto &rdn : sub) { auto v = dn(rdn); NEED(HITLS_X509_CsrCtrl(c.get(), HITLS_X509_ADD_SUBJECT_NAME, v.data(), (uint32_t)v.size()), "subject"); }
    if (withExt) { HITLS_X509_Attrs *at = nullptr; NEED(HITLS_X509_CsrCtrl(c.get(), HITLS_X509_CSR_GET_ATTRIBUTES, &at, sizeof at), "attributes"); HITLS_X509_Ext *x = HITLS_X509_ExtNew(HITLS_X509_EXT_TYPE_CSR); std::unique_ptr<HITLS_X509_Ext, void (*)(HITLS_X509_Ext *)> ox(x, HITLS_X509_ExtFree); genExts(g, e, 1, [&](int32_t cmd, void *v, uint32_t n) { return HITLS_X509_ExtCtrl(x, cmd, v, n); }); if (e.count()) NEED(HITLS_X509_AttrCtrl(at, HITLS_X509_ATTR_SET_REQUESTED_EXTENSIONS, x, 0), "requested extensions"); }
    int32_t r = HITLS_X509_CsrSign(a.md, sk.h, a.use ? &a.p : nullptr, c.get()); CHECK(r == 0, "p02-sign", "CsrSign (%s): %s", a.desc.c_str(), rc(r).c_str()); BSL_Buffer o = {}; Bytes d = grab(g, HITLS_X509_CsrGenBuff(pem ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1, c.get(), &o), o, pem, "request");
    const uint8_t *p = d.data(); Own<X509_REQ, X509_REQ_free> x(d2i_X509_REQ(nullptr, &p, (long)d.size())); CHECK(x && p == d.data() + d.size(), "p02-parse", "OpenSSL cannot parse the request"); cmpName(X509_REQ_get_subject_name(x), sub, "subject"); CHECK(X509_REQ_get_version(x) == 0, "p02-version", "CSR version %ld", X509_REQ_get_version(x)); CHECK(EVP_PKEY_eq(X509_REQ_get0_pubkey(x), sk.k) == 1, "p02-pubkey", "public key differs");
    STACK_OF(X509_EXTENSION) *xs = X509_REQ_get_extensions(x); std::unique_ptr<STACK_OF(X509_EXTENSION), void (*)(STACK_OF(X509_EXTENSION) *)> oxs(xs, [](STACK_OF(X509_EXTENSION) *q) { sk_X509_EXTENSION_pop_free(q, X509_EXTENSION_free); }); cmpExts(xs, e); CHECK(X509_REQ_get_attr_count(x) == (e.count() ? 1 : 0), "p02-attrs", "%d attributes", X509_REQ_get_attr_count(x));
    if (sk.t == KSM2 && a.use) { ASN1_OCTET_STRING *id = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(id, a.uid.data(), (int)a.uid.size()); X509_REQ_set0_distinguishing_id(x, id); } CHECK(X509_REQ_verify(x, sk.k) == 1, "p02-signature", "request signature does not verify in OpenSSL (%s)", a.desc.c_str()); HITLS_X509_Csr *b = nullptr; Exact ex(d); BSL_Buffer eb = {ex.p, (uint32_t)ex.n}; r = HITLS_X509_CsrParseBuff(BSL_FORMAT_ASN1, &eb, &b); CHECK(r == 0 && b, "p02-reparse", "own request refused: %s", rc(r).c_str()); std::unique_ptr<HITLS_X509_Csr, void (*)(HITLS_X509_Csr *)> ob(b, HITLS_X509_CsrFree);
    if (sk.t != KSM2) { r = HITLS_X509_CsrVerify(b); CHECK(r == 0, "p02-own-verify", "own request does not verify: %s (%s)", rc(r).c_str(), a.desc.c_str()); } if (e.count()) { HITLS_X509_Attrs *at = nullptr; HITLS_X509_Ext *x2 = nullptr; NEED(HITLS_X509_CsrCtrl(b, HITLS_X509_CSR_GET_ATTRIBUTES, &at, sizeof at), "attributes"); NEED(HITLS_X509_AttrCtrl(at, HITLS_X509_ATTR_GET_REQUESTED_EXTENSIONS, &x2, sizeof x2), "get requested extensions"); std::unique_ptr<HITLS_X509_Ext, void (*)(HITLS_X509_Ext *)> ox(x2, HITLS_X509_ExtFree); readExts(e, [&](int32_t cmd, void *v, uint32_t n) { return HITLS_X509_ExtCtrl(x2, cmd, v, n); }); }
    BSL_Buffer o2 = {}; CHECK(grab(g, HITLS_X509_CsrGenBuff(BSL_FORMAT_ASN1, b, &o2), o2, false, "parsed request") == d, "p02-reencode", "re-encoding a parsed request differs");
}
PBT_TEST(crl, 2000, 20000, 0, 200)
{
    Key ik; ik.make(g); Alg a; genAlg(g, ik, a); Name iss = genName(g); T nb = genTime(g, 2000, 9000), na = genTime(g, nb.m.tm_year + 1900, 9999); if (na.str < nb.str) std::swap(na, nb); bool hasNext = na.str != nb.str && g.chance(3, 4); Exts e; struct Ent { Bytes sn; T t; int reason = -1; bool inv = false, ci = false, c1 = false, c2 = false, c3 = false; T it; std::vector<Gn> names; }; std::vector<Ent> es; int n = g.chance(1, 5) ? 0 : (int)g.range(1, 5); bool pem = g.chance(1, 4);
    g.note("issuer %s %s-%s %d entries sign %s", show(iss).c_str(), nb.str.c_str(), hasNext ? na.str.c_str() : "", n, a.desc.c_str()); g.nontrivial(); g.label(a.desc.substr(0, 8).c_str());
    std::unique_ptr<HITLS_X509_Crl, void (*)(HITLS_X509_Crl *)> c(HITLS_X509_CrlNew(), HITLS_X509_CrlFree); auto set = [&](int32_t cmd, void *v, uint32_t k) { return HITLS_X509_CrlCtrl(c.get(), cmd, v, k); }; DnList il = mkDn(iss); int32_t ver = 1; NEED(set(HITLS_X509_SET_VERSION, &ver, sizeof ver), "version"); NEED(set(HITLS_X509_SET_ISSUER_DN, il.get(), sizeof(BslList)), "issuer"); NEED(set(HITLS_X509_SET_BEFORE_TIME, &nb.b, sizeof(BSL_TIME)), "thisUpdate"); if (hasNext) NEED(set(HITLS_X509_SET_AFTER_TIME, &na.b, sizeof(BSL_TIME)), "nextUpdate"); genExts(g, e, 2, set);
    for (int i = 0; i < n; i++) {
        Ent t; t.sn = genSerial(g); for (auto &q : es) if (q.sn == t.sn) t.sn.push_back(1); if (t.sn.size() > 20) break; t.t = genTime(g, 2000, 9999); std::unique_ptr<HITLS_X509_CrlEntry, void (*)(HITLS_X509_CrlEntry *)> en(HITLS_X509_CrlEntryNew(), HITLS_X509_CrlEntryFree); auto es1 = [&](int32_t cmd, void *v, uint32_t k) { return HITLS_X509_CrlEntryCtrl(en.get(), cmd, v, k); };
        NEED(es1(HITLS_X509_CRL_SET_REVOKED_SERIALNUM, t.sn.data(), (uint32_t)t.sn.size()), "revoked serial"); NEED(es1(HITLS_X509_CRL_SET_REVOKED_REVOKE_TIME, &t.t.b, sizeof(BSL_TIME)), "revocation time"); if (g.boolean()) { t.reason = g.pick<int>({0, 1, 2, 3, 4, 5, 6, 8, 9, 10}); t.c1 = g.boolean(); HITLS_X509_RevokeExtReason x = {t.c1, t.reason}; NEED(es1(HITLS_X509_CRL_SET_REVOKED_REASON, &x, sizeof x), "reason"); }
        if (g.chance(1, 3)) { t.inv = true; t.it = genTime(g, 2000, 9999); t.c2 = g.boolean(); HITLS_X509_RevokeExtTime x = {t.c2, t.it.b}; NEED(es1(HITLS_X509_CRL_SET_REVOKED_INVALID_TIME, &x, sizeof x), "invalidity"); } if (g.chance(1, 5)) { t.ci = true; t.names = genNames(g); t.c3 = true; GnList l = mkNames(t.names); HITLS_X509_RevokeExtCertIssuer x = {t.c3, l.get()}; NEED(es1(HITLS_X509_CRL_SET_REVOKED_CERTISSUER, &x, sizeof x), "certificate issuer"); }
        NEED(set(HITLS_X509_CRL_ADD_REVOKED_CERT, en.get(), 0), "add entry"); es.push_back(t);
    }
    int32_t r = HITLS_X509_CrlSign(a.md, ik.h, a.use ? &a.p : nullptr, c.get()); CHECK(r == 0, "p02-sign", "CrlSign (%s): %s", a.desc.c_str(), rc(r).c_str()); BSL_Buffer o = {}; Bytes d = grab(g, HITLS_X509_CrlGenBuff(pem ? BSL_FORMAT_PEM : BSL_FORMAT_ASN1, c.get(), &o), o, pem, "CRL"); const uint8_t *p = d.data(); Crl x(d2i_X509_CRL(nullptr, &p, (long)d.size())); CHECK(x && p == d.data() + d.size(), "p02-parse", "OpenSSL cannot parse the CRL %s", hex(d).substr(0, 600).c_str());
    CHECK(X509_CRL_get_version(x) == 1, "p02-version", "version %ld", X509_CRL_get_version(x)); cmpName(X509_CRL_get_issuer(x), iss, "issuer"); cmpTime(X509_CRL_get0_lastUpdate(x), nb, "thisUpdate"); if (hasNext) cmpTime(X509_CRL_get0_nextUpdate(x), na, "nextUpdate"); else CHECK(!X509_CRL_get0_nextUpdate(x), "p02-time", "nextUpdate present"); cmpExts(X509_CRL_get0_extensions(x), e); STACK_OF(X509_REVOKED) *rv = X509_CRL_get_REVOKED(x); CHECK((rv ? sk_X509_REVOKED_num(rv) : 0) == (int)es.size(), "p02-entries", "%d entries, %zu added", rv ? sk_X509_REVOKED_num(rv) : 0, es.size());
    for (auto &t : es) {
        X509_REVOKED *q = nullptr; for (int i = 0; i < sk_X509_REVOKED_num(rv); i++) if (snum(X509_REVOKED_get0_serialNumber(sk_X509_REVOKED_value(rv, i))) == t.sn) q = sk_X509_REVOKED_value(rv, i); CHECK(q, "p02-entries", "serial %s is not listed", hex(t.sn).c_str()); cmpTime(X509_REVOKED_get0_revocationDate(q), t.t, "revocation date"); const STACK_OF(X509_EXTENSION) *xe = X509_REVOKED_get0_extensions(q); int ne = xe ? sk_X509_EXTENSION_num(xe) : 0; CHECK(ne == (t.reason >= 0) + t.inv + t.ci, "p02-entry-ext", "%d entry extensions", ne); int cr = -1;
        if (t.reason >= 0) { auto *v = (ASN1_ENUMERATED *)X509_REVOKED_get_ext_d2i(q, NID_crl_reason, &cr, nullptr); long k = v ? ASN1_ENUMERATED_get(v) : -1; ASN1_ENUMERATED_free(v); CHECK(k == t.reason && (cr == 1) == t.c1, "p02-entry-ext", "reason %ld critical %d, set %d/%d", k, cr, t.reason, t.c1); } if (t.inv) { auto *v = (ASN1_GENERALIZEDTIME *)X509_REVOKED_get_ext_d2i(q, NID_invalidity_date, &cr, nullptr); std::string s = tstr(v); ASN1_GENERALIZEDTIME_free(v); CHECK(s == t.it.str && (cr == 1) == t.c2, "p02-entry-ext", "invalidity date %s, set %s", s.c_str(), t.it.str.c_str()); } if (t.ci) { auto *v = (GENERAL_NAMES *)X509_REVOKED_get_ext_d2i(q, NID_certificate_issuer, &cr, nullptr); std::unique_ptr<GENERAL_NAMES, void (*)(GENERAL_NAMES *)> own(v, GENERAL_NAMES_free); cmpNames(v, t.names, "certificate issuer"); }
    }
    if (ik.t == KSM2) { ASN1_OCTET_STRING *id = ASN1_OCTET_STRING_new(); (void)id; ASN1_OCTET_STRING_free(id); } else CHECK(X509_CRL_verify(x, ik.k) == 1, "p02-signature", "CRL signature does not verify in OpenSSL (%s)", a.desc.c_str());
    HITLS_X509_Crl *b = nullptr; Exact ex(d); BSL_Buffer eb = {ex.p, (uint32_t)ex.n}; r = HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &eb, &b); CHECK(r == 0 && b, "p02-reparse", "own CRL refused: %s", rc(r).c_str()); std::unique_ptr<HITLS_X509_Crl, void (*)(HITLS_X509_Crl *)> ob(b, HITLS_X509_CrlFree); readExts(e, [&](int32_t cmd, void *v, uint32_t k) { return HITLS_X509_CrlCtrl(b, cmd, v, k); }); if (ik.t != KSM2 || !a.use) { r = HITLS_X509_CrlVerify(ik.h, b); CHECK(r == 0, "p02-own-verify", "own CRL does not verify: %s (%s)", rc(r).c_str(), a.desc.c_str()); }
    BslList *rl = nullptr; NEED(HITLS_X509_CrlCtrl(b, HITLS_X509_GET_REVOKELIST, &rl, sizeof rl), "revoke list"); size_t i = 0; for (auto *q = rl ? (HITLS_X509_CrlEntry *)BSL_LIST_GET_FIRST(rl) : nullptr; q; q = (HITLS_X509_CrlEntry *)BSL_LIST_GET_NEXT(rl), i++) { BSL_TIME t; CHECK(i < es.size(), "p02-read-entry", "too many entries"); NEED(HITLS_X509_CrlEntryCtrl(q, HITLS_X509_CRL_GET_REVOKED_REVOKE_TIME, &t, sizeof t), "get revoke time"); CHECK(tstr(t) == es[i].t.str, "p02-read-entry", "entry %zu time read back %s, set %s", i, tstr(t).c_str(), es[i].t.str.c_str()); if (es[i].reason >= 0) { int32_t x2 = -1; NEED(HITLS_X509_CrlEntryCtrl(q, HITLS_X509_CRL_GET_REVOKED_REASON, &x2, sizeof x2), "get reason"); CHECK(x2 == es[i].reason, "p02-read-entry", "reason read back %d set %d", x2, es[i].reason); } if (es[i].inv) { BSL_TIME x3; NEED(HITLS_X509_CrlEntryCtrl(q, HITLS_X509_CRL_GET_REVOKED_INVALID_TIME, &x3, sizeof x3), "get invalidity"); CHECK(tstr(x3) == es[i].it.str, "p02-read-entry", "invalidity read back %s set %s", tstr(x3).c_str(), es[i].it.str.c_str()); } } CHECK(i == es.size(), "p02-read-entry", "%zu entries read back, %zu set", i, es.size());
    BSL_Buffer o2 = {}; CHECK(grab(g, HITLS_X509_CrlGenBuff(BSL_FORMAT_ASN1, b, &o2), o2, false, "parsed CRL") == d, "p02-reencode", "re-encoding a parsed CRL differs");
}
