// P05: PKCS#12 containers round-trip, agree with OpenSSL, and refuse wrong passwords and alterations
#include "opki.hpp"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_pkcs12.h"
#include "hitls_pki_errno.h"
#include "bsl_list.h"
#include "bsl_obj.h"
#include "crypt_eal_codecs.h"
#include <openssl/pkcs12.h>
#include <openssl/x509v3.h>
#include <openssl/err.h>
#include <set>
using namespace opki;
const char *pbt::PROPERTY_RULE =
    "Containers are built through the API from a generated choice of entity key (P-256, P-384, RSA-2048, Ed25519, SM2), entity certificate, up to 3 further certificates, up to 2 plain key bags, up to 2 secret bags and a CRL, each with or without a friendly name and a local key id, "
    "encrypted with PBES2 (AES-128/192/256 or SM4 in CBC mode, HMAC-SHA1/224/256/384/512/SM3, salts of 8-40 octets, 1000-1500 iterations) and authenticated with HMAC-SHA224/256/384/512/SM3 (or not authenticated), passwords of 0-70 ASCII octets. The result is read back here and walked by OpenSSL, both must contain the same bags with the "
    "same attributes; containers made by OpenSSL are read here. Reading with any other password fails, and a container with one altered, dropped or inserted octet is refused or still yields exactly the original content (never anything else). A case is non-trivial when the container holds at least one bag; it always does.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"passwords and friendly names are ASCII, as the header documents", "an entity key with a local key id always comes with the certificate of the same id (reading refuses the container otherwise)", "OpenSSL 3.0 has no HMAC-SM3 PRF in PBES2: those containers are read back here only", "octets of the iteration count of the MAC are not altered (only a denial of service can follow)", "the content of an unauthenticated container is not protected, alterations are only checked with a MAC"};
void pbt::setup() { BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); detOssl(7); }
namespace {
#define NEED(e, what) do { int32_t r_ = (e); CHECK(r_ == HITLS_PKI_SUCCESS, "p05-call", "%s: %s", what, rc(r_).c_str()); } while (0)
struct KeyFree { void operator()(CRYPT_EAL_PkeyCtx *p) const { CRYPT_EAL_PkeyFreeCtx(p); } };
typedef std::unique_ptr<CRYPT_EAL_PkeyCtx, KeyFree> HKey;
struct CFree { void operator()(HITLS_X509_Cert *p) const { HITLS_X509_CertFree(p); } };
typedef std::unique_ptr<HITLS_X509_Cert, CFree> HCert;
struct RFree { void operator()(HITLS_X509_Crl *p) const { HITLS_X509_CrlFree(p); } };
typedef std::unique_ptr<HITLS_X509_Crl, RFree> HCrl;
struct PFree { void operator()(HITLS_PKCS12 *p) const { HITLS_PKCS12_Free(p); } };
typedef std::unique_ptr<HITLS_PKCS12, PFree> HP12;
struct BFree { void operator()(HITLS_PKCS12_Bag *p) const { HITLS_PKCS12_BagFree(p); } };
typedef std::unique_ptr<HITLS_PKCS12_Bag, BFree> HBag;
HKey hkey(const Bytes &d) { BSL_Buffer b = {(uint8_t *)d.data(), (uint32_t)d.size()}; CRYPT_EAL_PkeyCtx *k = nullptr; NEED(CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &b, nullptr, 0, &k), "decode key"); return HKey(k); }
Bytes enc(CRYPT_EAL_PkeyCtx *k) { BSL_Buffer o = {nullptr, 0}; NEED(CRYPT_EAL_EncodeBuffKey(k, nullptr, BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &o), "encode key"); Bytes r(o.data, o.data + o.dataLen); BSL_SAL_Free(o.data); return r; }
Bytes enc(HITLS_X509_Cert *c) { uint8_t *p = nullptr; uint32_t n = 0; NEED(HITLS_X509_CertCtrl(c, HITLS_X509_GET_ENCODE, &p, sizeof p), "cert encode"); NEED(HITLS_X509_CertCtrl(c, HITLS_X509_GET_ENCODELEN, &n, sizeof n), "cert len"); return Bytes(p, p + n); }
enum Kind { EKEY, CERT, KEY, SECRET, CRL };
const char *const KN[] = {"shrouded key", "certificate", "key", "secret", "crl"};
struct Item { int kind; Bytes data; std::string name, id; int sty = 0; int slot = -1; bool operator<(const Item &o) const { return std::tie(kind, data, name, id, sty) < std::tie(o.kind, o.data, o.name, o.id, o.sty); } };
std::string show(const Item &i) { return sfmt("%s(%zu octets %s) name '%s' id %s type %d", KN[i.kind], i.data.size(), hex(i.data.data(), std::min<size_t>(i.data.size(), 8)).c_str(), i.name.substr(0, 30).c_str(), hex((const uint8_t *)i.id.data(), std::min<size_t>(i.id.size(), 12)).c_str(), i.sty); }
typedef std::multiset<Item> Set;
const int STYPE[] = {BSL_CID_PKCS7_SIMPLEDATA, BSL_CID_CE_KEYUSAGE, BSL_CID_CE_SUBJECTKEYIDENTIFIER};
const int SNID[] = {NID_pkcs7_data, NID_key_usage, NID_subject_key_identifier};
struct KeyPool { Own<EVP_PKEY, EVP_PKEY_free> k; Bytes d; Own<X509, X509_free> c; KType t; };
std::vector<KeyPool> &pool() { static std::vector<KeyPool> v; if (v.empty()) for (KType t : {KP256, KRSA, KED, KP384, KSM2}) { KeyPool p; p.t = t; p.k.reset(newKey(t)); Spec s; s.cn = sfmt("key %d", (int)t); s.ext = leafExt(); p.c.reset(mkCert(s, p.k.get(), nullptr, p.k.get())); p.d = der(p.k.get()); v.push_back(std::move(p)); } return v; }
struct Attr { std::string name, id; };
Attr genAttr(G &g, bool noId) { Attr a; if (g.boolean()) a.name = g.text(g.len(1, 40), "abcXYZ 0189-_.~"); if (!noId && g.chance(1, 3)) { Bytes b = g.bytes(g.len(1, 40)); a.id.assign(b.begin(), b.end()); } return a; }
void addAttr(HITLS_PKCS12_Bag *b, const Attr &a, bool idFirst)
{
    for (int k = 0; k < 2; k++) { bool doId = (k == 0) == idFirst; const std::string &s = doId ? a.id : a.name; if (s.empty()) continue; Exact x(Bytes(s.begin(), s.end())); BSL_Buffer v = {x.p, (uint32_t)x.n}; NEED(HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_ADD_ATTR, &v, doId ? BSL_CID_LOCALKEYID : BSL_CID_FRIENDLYNAME), "add attribute"); }
}
std::string getAttr(HITLS_PKCS12_Bag *b, int id) { uint8_t t[400]; BSL_Buffer v = {t, sizeof t}; int32_t e = HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_ATTR, &v, id); if (e != HITLS_PKI_SUCCESS) return ""; return std::string((char *)t, v.dataLen); }
Attr attrs(HITLS_PKCS12_Bag *b) { return {getAttr(b, BSL_CID_FRIENDLYNAME), getAttr(b, BSL_CID_LOCALKEYID)}; }
Set readAll(HITLS_PKCS12 *p)
{
    Set s; auto add = [&](HITLS_PKCS12_Bag *b, int kind) { Item it; it.kind = kind; Attr a = attrs(b); it.name = a.name; it.id = a.id;
        if (kind == CERT) { HITLS_X509_Cert *c = nullptr; NEED(HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_VALUE, &c, 0), "bag cert"); HCert o(c); it.data = enc(c); }
        else if (kind == KEY || kind == EKEY) { CRYPT_EAL_PkeyCtx *k = nullptr; NEED(HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_VALUE, &k, 0), "bag key"); HKey o(k); it.data = enc(k); }
        else { Bytes t(5000); BSL_Buffer v = {t.data(), (uint32_t)t.size()}; NEED(HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_VALUE, &v, 0), "bag secret"); it.data.assign(t.begin(), t.begin() + v.dataLen); uint32_t ty = 0; NEED(HITLS_PKCS12_BagCtrl(b, HITLS_PKCS12_BAG_GET_TYPE, &ty, sizeof ty), "bag type"); it.sty = (int)ty; }
        s.insert(it); };
    auto one = [&](int cmd, int kind) { HITLS_PKCS12_Bag *b = nullptr; int32_t e = HITLS_PKCS12_Ctrl(p, cmd, &b, 0); if (e != HITLS_PKI_SUCCESS || !b) return; HBag o(b); add(b, kind); };
    one(HITLS_PKCS12_GET_ENTITY_KEYBAG, EKEY); one(HITLS_PKCS12_GET_ENTITY_CERTBAG, CERT);
    auto all = [&](int cmd, int kind) { BslList *l = nullptr; NEED(HITLS_PKCS12_Ctrl(p, cmd, &l, 0), "bag list"); if (!l) return; for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) add((HITLS_PKCS12_Bag *)BSL_LIST_GetData(n), kind); };
    all(HITLS_PKCS12_GET_KEYBAGS, KEY); all(HITLS_PKCS12_GET_CERTBAGS, CERT); all(HITLS_PKCS12_GET_SECRETBAGS, SECRET); return s;
}
int crls(HITLS_PKCS12 *p) { BslList *l = nullptr; NEED(HITLS_PKCS12_Ctrl(p, HITLS_PKCS12_GET_CRLBAGS, &l, 0), "crl list"); return l ? BSL_LIST_COUNT(l) : 0; }
std::string diff(const Set &want, const Set &got) { for (auto &i : want) if (got.count(i) != want.count(i)) return "set " + show(i) + sfmt(" x%zu, got x%zu; got %zu bags", want.count(i), got.count(i), got.size()); for (auto &i : got) if (got.count(i) != want.count(i)) return "unexpected " + show(i); return ""; }
HP12 parse(const Bytes &d, const std::string &mac, const std::string &en, bool verify, int32_t *e)
{
    Exact x(d); Exact m(Bytes(mac.begin(), mac.end())), n(Bytes(en.begin(), en.end())); BSL_Buffer in = {x.p, (uint32_t)x.n}, mb = {m.p, (uint32_t)m.n}, eb = {n.p, (uint32_t)n.n}; HITLS_PKCS12_PwdParam pw = {&mb, &eb}; HITLS_PKCS12 *p = nullptr;
    *e = HITLS_PKCS12_ParseBuff(BSL_FORMAT_ASN1, &in, &pw, &p, verify); BSL_ERR_ClearError(); if (*e != HITLS_PKI_SUCCESS) { CHECK(p == nullptr, "p05-out", "parse failed with %s but returned an object", rc(*e).c_str()); } return HP12(p);
}
std::string pass(G &g) { return g.text(g.chance(1, 4) ? g.len(1, 70) : g.len(6, 20), "abcdefABC0123 !#~\x7f\x01"); }
// OpenSSL's view
Set ossl(const Bytes &d, const std::string &mac, const std::string &en, bool verify, int *nCrl)
{
    Set s; *nCrl = 0; const uint8_t *q = d.data(); Own<PKCS12, PKCS12_free> p(d2i_PKCS12(nullptr, &q, (long)d.size())); CHECK(p.get() && q == d.data() + d.size(), "p05-ossl", "OpenSSL cannot decode the container"); if (verify) CHECK(PKCS12_verify_mac(p.get(), mac.c_str(), (int)mac.size()), "p05-ossl", "OpenSSL rejects the MAC"); else CHECK(!PKCS12_mac_present(p.get()), "p05-ossl", "MAC present");
    STACK_OF(PKCS7) *sf = PKCS12_unpack_authsafes(p.get()); CHECK(sf, "p05-ossl", "authsafes");
    for (int i = 0; i < sk_PKCS7_num(sf); i++) { PKCS7 *p7 = sk_PKCS7_value(sf, i); bool e = OBJ_obj2nid(p7->type) == NID_pkcs7_encrypted; STACK_OF(PKCS12_SAFEBAG) *bs = e ? PKCS12_unpack_p7encdata(p7, en.c_str(), (int)en.size()) : PKCS12_unpack_p7data(p7); CHECK(bs, "p05-ossl", "OpenSSL cannot %s safe %d", e ? "decrypt" : "read", i);
        for (int j = 0; j < sk_PKCS12_SAFEBAG_num(bs); j++) { PKCS12_SAFEBAG *b = sk_PKCS12_SAFEBAG_value(bs, j); Item it; if (char *fn = PKCS12_get_friendlyname(b)) { it.name = fn; OPENSSL_free(fn); } if (const ASN1_TYPE *a = PKCS12_SAFEBAG_get0_attr(b, NID_localKeyID)) it.id.assign((char *)a->value.octet_string->data, (size_t)a->value.octet_string->length);
            switch (PKCS12_SAFEBAG_get_nid(b)) {
                case NID_certBag: { it.kind = CERT; Own<X509, X509_free> x(PKCS12_SAFEBAG_get1_cert(b)); CHECK(x.get(), "p05-ossl", "cert bag"); it.data = der(x.get()); s.insert(it); break; }
                case NID_crlBag: ++*nCrl; break;
                case NID_keyBag: { it.kind = KEY; uint8_t *o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO((PKCS8_PRIV_KEY_INFO *)PKCS12_SAFEBAG_get0_p8inf(b), &o); it.data.assign(o, o + n); OPENSSL_free(o); s.insert(it); break; }
                case NID_pkcs8ShroudedKeyBag: { it.kind = EKEY; PKCS8_PRIV_KEY_INFO *k = PKCS12_decrypt_skey(b, en.c_str(), (int)en.size()); CHECK(k, "p05-ossl", "OpenSSL cannot decrypt the key"); uint8_t *o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(k, &o); it.data.assign(o, o + n); OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(k); s.insert(it); break; }
                case NID_secretBag: { it.kind = SECRET; int ty = PKCS12_SAFEBAG_get_bag_nid(b); for (int k = 0; k < 3; k++) if (SNID[k] == ty) it.sty = STYPE[k]; const ASN1_TYPE *v = PKCS12_SAFEBAG_get0_bag_obj(b); if (v && v->type == V_ASN1_OCTET_STRING) it.data.assign(v->value.octet_string->data, v->value.octet_string->data + v->value.octet_string->length); s.insert(it); break; }
                default: CHECK(false, "p05-ossl", "bag type %d", PKCS12_SAFEBAG_get_nid(b));
            } }
        sk_PKCS12_SAFEBAG_pop_free(bs, PKCS12_SAFEBAG_free); }
    sk_PKCS7_pop_free(sf, PKCS7_free); return s;
}
bool iterZone(size_t pos, size_t n) { return pos + 6 >= n; }
void tamper(G &g, const Bytes &d, const Set &want, int nCrl, const std::string &mac, const std::string &en, bool encd = true)
{
    int32_t e; int k = thorough() ? 12 : 5;
    for (int i = 0; i < k; i++) { Bytes t = d; size_t pos = (size_t)g.draw(d.size() - 1); if (g.chance(1, 4)) pos = d.size() - 1 - (size_t)g.draw(120); if (pos >= d.size()) pos = 0; int how = (int)g.weighted({6, 1, 1, 1}); if (how != 3 && iterZone(pos, d.size())) continue; std::string w;
        if (how == 0) { uint8_t x = (uint8_t)(g.boolean() ? 1u << g.draw(7) : 1 + g.draw(254)); t[pos] ^= x; w = sfmt("octet %zu of %zu xor %02x", pos, d.size(), x); } else if (how == 1) { t.erase(t.begin() + (long)pos); w = sfmt("octet %zu dropped", pos); } else if (how == 2) { t.insert(t.begin() + (long)pos, (uint8_t)g.draw(255)); w = sfmt("octet inserted at %zu", pos); } else { t.resize(pos); w = sfmt("truncated to %zu of %zu", pos, d.size()); }
        HP12 p = parse(t, mac, en, true, &e); if (e != HITLS_PKI_SUCCESS) continue; Set got = readAll(p.get()); std::string df = diff(want, got); CHECK(df.empty() && crls(p.get()) == nCrl && how != 3, "p05-tamper", "container with %s accepted: %s", w.c_str(), df.empty() ? "content complete" : df.c_str()); g.label("benign alteration"); }
    for (int i = 0; i < 3; i++) { std::string a = mac, b = en; int which = (int)g.draw(2); auto chg = [&](std::string &s) { switch (g.draw(4)) { case 0: s += 'x'; break; case 1: s.pop_back(); break; case 2: s[(size_t)g.draw(s.size() - 1)] ^= (char)(1 << g.draw(5)); break; case 3: s = ""; break; default: { std::string o = s; s = pass(g); if (s == o) s += "y"; } } };
        if (which != 1) chg(a); if (which != 0) chg(b);
        if (a == mac && (b == en || !encd)) continue; parse(d, a, b, true, &e); CHECK(e != HITLS_PKI_SUCCESS, "p05-password", "read with mac password '%s' (set '%s') and encryption password '%s' (set '%s')", a.c_str(), mac.c_str(), b.c_str(), en.c_str()); }
}
}
PBT_TEST(gen, 3000, 40000, 0, 300)
{
    seedRand(g); HP12 p(HITLS_PKCS12_New()); Set want; std::vector<std::string> d; bool haveMac = !g.chance(1, 6); auto &P = pool(); int nCrl = 0;
    size_t ek = (size_t)g.draw(P.size() - 1); bool hasKey = g.chance(4, 5), hasCert = g.chance(3, 4), lki = hasKey && hasCert && g.boolean(); int lkAlg = g.pick<int>({CRYPT_MD_SHA1, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512}); std::string lk;
    auto bag = [&](uint32_t id, uint32_t ty, void *v) { HBag b(HITLS_PKCS12_BagNew(id, ty, v)); CHECK(b.get(), "p05-call", "BagNew %u", id); return b; };
    if (lki) { Bytes c = der(P[ek].c.get()); uint8_t md[64]; unsigned n = 0; EVP_Digest(c.data(), c.size(), md, &n, lkAlg == CRYPT_MD_SHA1 ? EVP_sha1() : lkAlg == CRYPT_MD_SHA256 ? EVP_sha256() : lkAlg == CRYPT_MD_SHA384 ? EVP_sha384() : EVP_sha512(), nullptr); lk.assign((char *)md, n); }
    if (hasKey) { HKey k = hkey(P[ek].d); HBag b = bag(BSL_CID_PKCS8SHROUDEDKEYBAG, 0, k.get()); Attr a = genAttr(g, true); addAttr(b.get(), a, false); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_SET_ENTITY_KEYBAG, b.get(), 0), "set key"); Item it; it.kind = EKEY; it.data = enc(k.get()); it.name = a.name; it.id = lk; want.insert(it); }
    auto cert = [&](const Bytes &c) { Exact x(c); BSL_Buffer b = {x.p, (uint32_t)x.n}; HITLS_X509_Cert *h = nullptr; NEED(HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &h), "cert parse"); return HCert(h); };
    if (hasCert) { Bytes c = der(P[ek].c.get()); HCert h = cert(c); HBag b = bag(BSL_CID_CERTBAG, BSL_CID_X509CERTIFICATE, h.get()); Attr a = genAttr(g, hasKey); addAttr(b.get(), a, g.boolean()); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_SET_ENTITY_CERTBAG, b.get(), 0), "set cert"); Item it; it.kind = CERT; it.data = c; it.name = a.name; it.id = lki ? lk : a.id; want.insert(it); }
    if (lki) NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_GEN_LOCALKEYID, &lkAlg, sizeof lkAlg), "local key id");
    for (int i = (int)g.weighted({2, 2, 1, 1}); i > 0; i--) { Bytes c; { Spec s; s.cn = g.text(g.len(1, 20), "abc xyz"); s.serial = (long)g.draw(1000000); s.ext = leafExt(); size_t k = (size_t)g.draw(P.size() - 1); Own<X509, X509_free> x(mkCert(s, P[k].k.get(), nullptr, P[k].k.get())); c = der(x.get()); } HCert h = cert(c); HBag b = bag(BSL_CID_CERTBAG, BSL_CID_X509CERTIFICATE, h.get()); Attr a = genAttr(g, false); addAttr(b.get(), a, g.boolean()); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_ADD_CERTBAG, b.get(), 0), "add cert"); Item it; it.kind = CERT; it.data = c; it.name = a.name; it.id = a.id; want.insert(it); }
    for (int i = (int)g.weighted({3, 1, 1}); i > 0; i--) { HKey k = hkey(P[(size_t)g.draw(P.size() - 1)].d); HBag b = bag(BSL_CID_KEYBAG, 0, k.get()); Attr a = genAttr(g, false); addAttr(b.get(), a, g.boolean()); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_ADD_KEYBAG, b.get(), 0), "add key"); Item it; it.kind = KEY; it.data = enc(k.get()); it.name = a.name; it.id = a.id; want.insert(it); }
    for (int i = (int)g.weighted({3, 1, 1}); i > 0; i--) { Bytes v = g.bytes(g.len(1, g.chance(1, 6) ? 4000 : 80)); int ty = (int)g.draw(2); Exact x(v); BSL_Buffer sb = {x.p, (uint32_t)x.n}; HBag b = bag(BSL_CID_SECRETBAG, (uint32_t)STYPE[ty], &sb); Attr a = genAttr(g, false); addAttr(b.get(), a, g.boolean()); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_ADD_SECRETBAG, b.get(), 0), "add secret"); Item it; it.kind = SECRET; it.data = v; it.name = a.name; it.id = a.id; it.sty = STYPE[ty]; want.insert(it); }
    if (g.chance(1, 5)) { size_t k = (size_t)g.draw(P.size() - 1); Crl c(mkCrl(P[k].c.get(), P[k].k.get(), 1700000000, 1800000000, {}, 3)); Bytes cd = der(c.get()); BSL_Buffer b = {cd.data(), (uint32_t)cd.size()}; HITLS_X509_Crl *h = nullptr; NEED(HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &b, &h), "crl parse"); HCrl o(h); HBag bg = bag(BSL_CID_CRLBAG, BSL_CID_X509CRL, h); NEED(HITLS_PKCS12_Ctrl(p.get(), HITLS_PKCS12_ADD_CRLBAG, bg.get(), 0), "add crl"); nCrl = 1; }
    if (want.empty() && !nCrl) pbt::discard();
    std::string en = pass(g), mac = haveMac && g.boolean() ? pass(g) : en; int prf = g.pick<int>({CRYPT_MAC_HMAC_SHA256, CRYPT_MAC_HMAC_SHA1, CRYPT_MAC_HMAC_SHA224, CRYPT_MAC_HMAC_SHA384, CRYPT_MAC_HMAC_SHA512, CRYPT_MAC_HMAC_SM3}), sym = g.pick<int>({CRYPT_CIPHER_AES256_CBC, CRYPT_CIPHER_AES128_CBC, CRYPT_CIPHER_AES192_CBC, CRYPT_CIPHER_SM4_CBC}), mid = g.pick<int>({CRYPT_MD_SHA256, CRYPT_MD_SHA224, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SM3});
    CRYPT_Pbkdf2Param kp = {BSL_CID_PBES2, BSL_CID_PBKDF2, (uint32_t)prf, (uint32_t)sym, (uint32_t)g.range(8, 40), (uint8_t *)en.data(), (uint32_t)en.size(), (uint32_t)g.range(1000, 1500)}; HITLS_PKCS12_KdfParam mp = {(uint32_t)g.range(8, 40), (uint32_t)g.range(1000, 1500), (uint32_t)mid, (uint8_t *)mac.data(), (uint32_t)mac.size()};
    HITLS_PKCS12_EncodeParam ep; memset(&ep, 0, sizeof ep); ep.encParam.deriveMode = CRYPT_DERIVE_PBKDF2; ep.encParam.param = &kp; ep.macParam.para = &mp; ep.macParam.algId = BSL_CID_PKCS12KDF;
    g.note("%zu bags, %d crl, mac %d md %d prf %d sym %d passwords %zu/%zu", want.size(), nCrl, haveMac, mid, prf, sym, mac.size(), en.size()); for (auto &i : want) g.note("%s", show(i).c_str()); g.nontrivial(); g.key(sfmt("%zu%d%d%d%d%zu", want.size(), haveMac, mid, prf, sym, en.size()));
    Bytes out; for (int rep = 0; rep < (g.chance(1, 5) ? 2 : 1); rep++) { BSL_Buffer o = {nullptr, 0}; NEED(HITLS_PKCS12_GenBuff(BSL_FORMAT_ASN1, p.get(), &ep, haveMac, &o), "GenBuff"); out.assign(o.data, o.data + o.dataLen); BSL_SAL_Free(o.data); }
    int32_t e; HP12 q = parse(out, mac, en, haveMac, &e); NEED(e, "parse of the generated container"); std::string df = diff(want, readAll(q.get())); CHECK(df.empty(), "p05-roundtrip", "%s", df.c_str()); CHECK(crls(q.get()) == nCrl, "p05-roundtrip", "%d CRLs back, %d set", crls(q.get()), nCrl);
    if (hasKey) { CRYPT_EAL_PkeyCtx *k = nullptr; NEED(HITLS_PKCS12_Ctrl(q.get(), HITLS_PKCS12_GET_ENTITY_KEY, &k, 0), "entity key"); HKey o(k); CHECK(enc(k) == enc(hkey(P[ek].d).get()), "p05-roundtrip", "entity key differs"); } if (lki) { HITLS_X509_Cert *c = nullptr; NEED(HITLS_PKCS12_Ctrl(q.get(), HITLS_PKCS12_GET_ENTITY_CERT, &c, 0), "entity cert"); HCert o(c); CHECK(enc(c) == der(P[ek].c.get()), "p05-roundtrip", "entity certificate differs"); }
    if (prf != CRYPT_MAC_HMAC_SM3) { int n = 0; Set s = ossl(out, mac, en, haveMac, &n); df = diff(want, s); CHECK(df.empty() && n == nCrl, "p05-ossl", "OpenSSL reads: %s", df.c_str()); }
    if (haveMac) tamper(g, out, want, nCrl, mac, en);
}
PBT_TEST(reads, 1500, 20000, 0, 300)
{
    seedRand(g); auto &P = pool(); size_t ek = (size_t)g.draw(P.size() - 1); std::string pw = pass(g), name = g.boolean() ? g.text(g.len(1, 30), "abc 019_-") : ""; Set want; STACK_OF(X509) *ca = sk_X509_new_null(); bool hasKey = g.chance(4, 5);
    std::string lk; { uint8_t md[20]; unsigned n; X509_digest(P[ek].c.get(), EVP_sha1(), md, &n); lk.assign((char *)md, n); }
    if (hasKey) { Item k; k.kind = EKEY; k.data = enc(hkey(P[ek].d).get()); k.name = name; k.id = lk; want.insert(k); } { Item c; c.kind = CERT; c.data = der(P[ek].c.get()); c.name = name; if (hasKey) c.id = lk; want.insert(c); }
    for (int i = (int)g.draw(3); i > 0; i--) { Spec s; s.cn = g.text(g.len(1, 20), "abc xyz"); s.serial = (long)g.draw(1000000); s.ext = leafExt(); size_t k = (size_t)g.draw(P.size() - 1); X509 *x = mkCert(s, P[k].k.get(), nullptr, P[k].k.get()); Item c; c.kind = CERT; c.data = der(x); want.insert(c); sk_X509_push(ca, x); }
    int nk = g.pick<int>({NID_aes_256_cbc, NID_aes_128_cbc, NID_aes_192_cbc}), nc = g.pick<int>({NID_aes_256_cbc, NID_aes_128_cbc, NID_aes_192_cbc, -1}); const EVP_MD *md = g.pick<const EVP_MD *>({EVP_sha256(), EVP_sha224(), EVP_sha384(), EVP_sha512(), EVP_sm3()}); int it = (int)g.range(1000, 1500), mit = (int)g.range(1000, 1500);
    ERR_clear_error(); Own<PKCS12, PKCS12_free> p(PKCS12_create(pw.c_str(), name.empty() ? nullptr : name.c_str(), hasKey ? P[ek].k.get() : nullptr, P[ek].c.get(), ca, nk, nc, it, -1, 0)); sk_X509_pop_free(ca, X509_free); CHECK(p.get() && PKCS12_set_mac(p.get(), pw.c_str(), (int)pw.size(), nullptr, (int)g.range(8, 40), mit, md), "p05-harness", "OpenSSL cannot create the container: %s", ERR_error_string(ERR_get_error(), nullptr));
    uint8_t *o = nullptr; int n = i2d_PKCS12(p.get(), &o); Bytes d(o, o + n); OPENSSL_free(o); g.note("OpenSSL container: %zu bags, key %d, certificates %s, md %s, iterations %d/%d", want.size(), hasKey, nc == -1 ? "plain" : "encrypted", EVP_MD_get0_name(md), it, mit); g.nontrivial(); g.key(sfmt("%zu%d%d%d%d", want.size(), nk, nc, it, mit));
    int32_t e; HP12 q = parse(d, pw, pw, true, &e); NEED(e, "parse of OpenSSL's container"); std::string df = diff(want, readAll(q.get())); CHECK(df.empty(), "p05-read", "%s", df.c_str()); tamper(g, d, want, 0, pw, pw, hasKey || nc != -1);
}
