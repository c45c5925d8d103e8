// P03: certificate chain validation against a reference model evaluated on the generated description of the chain
#include "opki.hpp"
extern "C" {
#include "bsl_list.h"
#include "hitls_pki_errno.h"
#include "hitls_pki_types.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_crl.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_utils.h"
}
const char *pbt::PROPERTY_RULE =
    "A certificate chain of 2-5 certificates (root..leaf; P-256/P-384/P-521/Ed25519/RSA/RSA-PSS/SM2 keys; OpenSSL makes every certificate and CRL) with per-certificate attributes "
    "drawn around the limits (validity bounds exact to the second, CA flag, path length, key usage, self-issued, unknown critical extension, altered or foreign signature, v1), a trust "
    "store, an unordered peer list with decoys, CRLs (several per issuer) and verification parameters. The expected verdict is computed from that description. Non-trivial: every "
    "case, since each one runs a verification whose verdict the model decides.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {
    "OpenSSL encodes and signs the generated certificates and CRLs correctly",
    "no generated name/key collision makes two certificates equally good issuers (the library does not backtrack)"};
using namespace opki;
typedef Own<HITLS_X509_Cert, HITLS_X509_CertFree> HCert;
typedef Own<HITLS_X509_Crl, HITLS_X509_CrlFree> HCrl;
typedef Own<HITLS_X509_StoreCtx, HITLS_X509_StoreCtxFree> HStore;
static HITLS_X509_Cert *hc(const Bytes &d) { HITLS_X509_Cert *c = nullptr; BSL_Buffer b = {(uint8_t *)d.data(), (uint32_t)d.size()}; int32_t r = HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &b, &c); if (r) fail("cert-parse", "a certificate made by OpenSSL was rejected: 0x%x %s", r, hex(d, 2000).c_str()); return c; }
static HITLS_X509_Crl *hcrl(const Bytes &d) { HITLS_X509_Crl *c = nullptr; BSL_Buffer b = {(uint8_t *)d.data(), (uint32_t)d.size()}; int32_t r = HITLS_X509_CrlParseBuff(BSL_FORMAT_ASN1, &b, &c); if (r) fail("crl-parse", "a CRL made by OpenSSL was rejected: 0x%x %s", r, hex(d, 2000).c_str()); return c; }
struct PK { KType t; EVP_PKEY *k; int bits; };
static std::vector<PK> pool;
void pbt::setup()
{
    useDetRand(); useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL);
    detOssl(77);
    auto add = [&](KType t, int n, int bits) { for (int i = 0; i < n; i++) pool.push_back({t, newKey(t), bits}); };
    add(KP256, 6, 128); add(KED, 3, 128); add(KRSA, 3, 112); add(KP384, 2, 192); add(KSM2, 3, 128); add(KP521, 1, 256); add(KPSS, 2, 112);
}
static const int64_t T0 = 1750000000;
struct Desc {
    int key; std::string cn; int64_t nb = T0 - 100000, na = T0 + 100000; bool bc = true, ca = true, bcCrit = true; int pathlen = -1;
    std::string ku = "keyCertSign,cRLSign"; bool hasKu = true; std::string eku; bool unkCrit = false, unkNon = false, skid = true; int version = 2; bool badSig = false, wrongKey = false; const EVP_MD *md = nullptr; int mdBits = 128; long serial;
    X509 *x = nullptr; Bytes d;
};
struct CrlD { int issuer; int64_t last, next; bool hasNext = true, revokes, badSig, wrongKey, unkCrit; Bytes d; };
static bool hasKu(const Desc &c, const char *n) { return !c.hasKu || ("," + c.ku + ",").find(std::string(",") + n + ",") != std::string::npos; }
static int osslBytesFromTlv(Bytes &d) { d[d.size() - 1] ^= 1; return 0; }

PBT_TEST(chain, 6000, 120000)
{
    detOssl(g.draw(UINT64_MAX)); seedRand(g);
    int n = 2 + (int)g.weighted({3, 4, 3, 2});
    bool noAki = g.chance(1, 6);                        // chain without SKI/AKI: issuers found by name only
    int64_t now = T0; int nd = (int)g.weighted({5, 8, 3, 1});  // number of attribute perturbations
    std::vector<Desc> c(n); std::vector<int> used;
    auto pickKey = [&]() { for (;;) { int k = (int)g.draw(pool.size() - 1); for (size_t i = 0; i < pool.size(); i++, k = (k + 1) % (int)pool.size()) if (std::find(used.begin(), used.end(), k) == used.end()) { used.push_back(k); return k; } abort(); } };
    for (int i = 0; i < n; i++) {
        c[i].key = pickKey(); c[i].cn = sfmt("cert %d", i); c[i].serial = g.pick<long>({1, 127, 128, 255, 256, 65535, 0x7fffffff, 1234567}) + i * 3; c[i].skid = !noAki;
        if (i < n - 1 && g.chance(1, 4)) c[i].pathlen = n - 2 - i + (int)g.draw(2);
        if (i < n - 1 && g.chance(1, 6)) c[i].hasKu = false;
        if (i == n - 1) { c[i].ca = false; c[i].bc = g.boolean(); c[i].ku = g.pick({"digitalSignature", "keyEncipherment", "digitalSignature,keyEncipherment", "nonRepudiation", "keyAgreement", "dataEncipherment", "keyCertSign"}); c[i].hasKu = !g.chance(1, 5); c[i].eku = g.pick({"", "serverAuth", "clientAuth", "serverAuth,clientAuth", "emailProtection", "codeSigning", "OCSPSigning", "timeStamping", "emailProtection,codeSigning", "timeStamping,OCSPSigning,serverAuth"}); }
        if (i > 0 && i < n - 1 && !noAki && g.chance(1, 8)) c[i].cn = c[i - 1].cn;      // self-issued
        c[i].unkNon = g.chance(1, 10);
        int mdc = (int)g.draw(2); c[i].md = mdc == 0 ? EVP_sha256() : mdc == 1 ? EVP_sha384() : EVP_sha512(); c[i].mdBits = mdc == 0 ? 128 : mdc == 1 ? 192 : 256;
    }
    // ---- perturbations
    std::vector<CrlD> crls; bool useCrl = g.chance(2, 5);
    std::string what;
    bool dropRoot = false, otherRoot = false; int dropInter = -1; int maxDepth = g.chance(1, 3) ? n + (int)g.draw(2) : 20;
    uint32_t secbits = g.chance(1, 5) ? g.pick<uint32_t>({1, 80, 112}) : 0; int purpose = 0;
    for (int k = 0; k < nd; k++) {
        int i = (int)g.draw(n - 1), inter = (int)g.draw(n - 2);
        switch (g.draw(16)) {
            case 0: c[i].nb = now + (g.boolean() ? 1 : 0) + (g.chance(1, 4) ? 5000 : 0); what += sfmt(" nb%d", i); break;
            case 1: c[i].na = now - (g.boolean() ? 1 : 0) - (g.chance(1, 4) ? 5000 : 0); what += sfmt(" na%d", i); break;
            case 2: if (i > 0) { c[i].badSig = true; what += sfmt(" badsig%d", i); } break;
            case 3: if (i > 0) { c[i].wrongKey = true; what += sfmt(" wrongkey%d", i); } break;
            case 4: c[inter].bc = !g.boolean(); c[inter].ca = c[inter].bc && g.chance(1, 4); what += sfmt(" ca%d=%d/%d", inter, c[inter].bc, c[inter].ca); break;
            case 5: c[inter].hasKu = true; c[inter].ku = g.pick({"cRLSign", "digitalSignature", "keyCertSign", "digitalSignature,cRLSign", "keyCertSign,digitalSignature"}); what += sfmt(" ku%d=%s", inter, c[inter].ku.c_str()); break;
            case 6: c[inter].pathlen = (int)g.draw(n - 1); what += sfmt(" pl%d=%d", inter, c[inter].pathlen); break;
            case 7: c[i].unkCrit = true; what += sfmt(" unkcrit%d", i); break;
            case 8: dropRoot = true; what += " noroot"; break;
            case 9: otherRoot = true; what += " otherroot"; break;
            case 10: if (n > 2) { dropInter = 1 + (int)g.draw(n - 3); what += sfmt(" drop%d", dropInter); } break;
            case 11: maxDepth = n - 1 + (int)g.draw(1); what += sfmt(" depth=%d", maxDepth); break;
            case 12: secbits = g.pick<uint32_t>({113, 128, 129, 192, 193, 256, 112, 257}); what += sfmt(" sec=%u", secbits); break;
            case 13: purpose = 1 + (int)g.draw(7); what += sfmt(" purpose=%d", purpose); break;
            case 14: { int v = (int)g.draw(n - 2); c[v].version = 0; what += sfmt(" v1-%d", v); break; }
            case 15: useCrl = true; break;
            default: purpose = 8; break;
        }
    }
    for (int i = 0; i < n; i++) if (c[i].version == 0) { c[i].bc = c[i].ca = c[i].hasKu = c[i].unkCrit = c[i].unkNon = false; c[i].pathlen = -1; c[i].skid = false; c[i].eku.clear(); if (i + 1 < n && c[i + 1].cn == c[i].cn) c[i + 1].cn = "x" + c[i + 1].cn; if (i > 0 && c[i].cn == c[i - 1].cn) c[i].cn = "y" + c[i].cn; }
    for (int i = 0; i < n; i++) if (!c[i].bc || !c[i].ca) c[i].pathlen = -1;
    uint64_t flags = 0; bool crlAll = false, crlDev = false;
    if (useCrl) { crlAll = g.boolean(); crlDev = !crlAll || g.chance(1, 4); flags |= (crlAll ? HITLS_X509_VFY_FLAG_CRL_ALL : 0) | (crlDev ? HITLS_X509_VFY_FLAG_CRL_DEV : 0); }
    bool partial = g.chance(1, 5), noTime = g.chance(1, 10); if (partial) flags |= HITLS_X509_VFY_FLAG_PARTIAL_CHAIN;
    if (noTime) flags |= HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK;
    // ---- make the certificates
    std::vector<Crt> own; std::vector<std::string> kept;
    auto make = [&](const Desc &e, X509 *iss, EVP_PKEY *ik) {
        Spec s; s.cn = e.cn; s.serial = e.serial; s.nb = e.nb; s.na = e.na; s.version = e.version; s.md = e.md;
        if (e.bc) s.ext.push_back({NID_basic_constraints, std::string(e.ca ? "CA:TRUE" : "CA:FALSE") + (e.pathlen >= 0 ? ",pathlen:" + std::to_string(e.pathlen) : ""), e.ca});
        if (e.hasKu) s.ext.push_back({NID_key_usage, e.ku, true});
        if (!e.eku.empty()) s.ext.push_back({NID_ext_key_usage, e.eku, false});
        if (e.skid) s.ext.push_back({NID_subject_key_identifier, "hash", false});
        if (e.skid && iss && X509_get_ext_by_NID(iss, NID_subject_key_identifier, -1) >= 0) s.ext.push_back({NID_authority_key_identifier, "keyid", false});
        std::string val("1.2.3.4.5.6.7="); val += std::string("\x05\x00", 2);
        if (e.unkCrit) s.ext.push_back({0, val, true});
        if (e.unkNon && !e.unkCrit) s.ext.push_back({0, val, false});
        X509 *x = mkCert(s, pool[e.key].k, iss, ik); own.emplace_back(x); return x;
    };
    auto otherKey = [&](int key) { for (size_t j = 0; j < pool.size(); j++) if ((int)j != key && pool[j].t == pool[key].t) return (int)j; return -1; };
    for (int i = 0; i < n; i++) {
        EVP_PKEY *ik = i ? pool[c[i - 1].key].k : nullptr; int o = i ? otherKey(c[i - 1].key) : -1;
        if (i && c[i].wrongKey) { if (o < 0) c[i].wrongKey = false; else ik = pool[o].k; }
        c[i].x = make(c[i], i ? c[i - 1].x : nullptr, ik); c[i].d = der(c[i].x);
        if (c[i].badSig) { c[i].d[c[i].d.size() - 1 - g.draw(20)] ^= (uint8_t)(1 << g.draw(6)); }
    }
    // a DER length octet inside an ECDSA signature may be hit by badSig, still an invalid signature; but the file must parse: the outer structure is unaffected
    std::vector<int> notCa;
    std::vector<Bytes> list; list.push_back(c[n - 1].d); std::vector<Bytes> rest; std::vector<bool> inList(n, false), inStore(n, false);
    for (int i = 1; i < n - 1; i++) if (i != dropInter) { if (g.chance(1, 8)) { inStore[i] = true; if (g.boolean()) { rest.push_back(c[i].d); inList[i] = true; } } else { rest.push_back(c[i].d); inList[i] = true; } }
    if (g.chance(1, 3)) { rest.push_back(c[0].d); inList[0] = true; }
    inStore[0] = !dropRoot && !otherRoot;
    for (int i = 0; i < n; i++) if (inStore[i] && c[i].version == 2 && !(c[i].bc && c[i].ca)) notCa.push_back(i);
    std::vector<Bytes> store;
    for (int i = 0; i < n; i++) if (inStore[i]) store.push_back(c[i].d);
    if (otherRoot && !noAki && c[0].version == 2) { Desc e = c[0]; int o = otherKey(c[0].key); for (auto &q : c) if (q.key == o) o = -1; if (o >= 0) { e.key = o; store.push_back(der(make(e, nullptr, nullptr))); } }
    // decoys: same subject, different key and SKI (only distinguishable by key identifier); unrelated certificates
    if (!noAki) for (int i = 0; i < n - 1; i++) if (g.chance(1, 6) && c[i].version == 2 && c[i + 1].version == 2) { int o = otherKey(c[i].key); if (o >= 0) { Desc e = c[i]; e.key = o; e.serial += 1000; bool used2 = false; for (int j = 0; j < n; j++) used2 |= c[j].key == o; if (used2) continue; X509 *x = make(e, i ? c[i - 1].x : nullptr, i ? pool[c[i - 1].key].k : nullptr); if (g.boolean()) rest.push_back(der(x)); else store.push_back(der(x)); what += sfmt(" decoy%d", i); } }
    if (g.chance(1, 4)) { Desc e; e.key = (int)g.draw(pool.size() - 1); e.cn = "unrelated"; e.serial = 9; Bytes d = der(make(e, nullptr, nullptr)); if (g.boolean()) rest.push_back(d); else store.push_back(d); }
    for (size_t i = rest.size(); i > 1; i--) std::swap(rest[i - 1], rest[g.draw(i - 1)]);
    for (size_t i = store.size(); i > 1; i--) std::swap(store[i - 1], store[g.draw(i - 1)]);
    list.insert(list.end(), rest.begin(), rest.end());
    for (int i : notCa) inStore[i] = false;          // the store refuses to trust a certificate that is not a CA
    // ---- CRLs
    if (useCrl) for (int i = 0; i < n - 1; i++) {
        int cnt = g.chance(1, 12) ? 0 : 1 + (int)g.weighted({4, 2, 1});
        for (int k = 0; k < cnt; k++) {
            CrlD r; r.issuer = i; r.last = now - 50000 + k * 1000 + (g.chance(1, 10) ? 50000 : 0) + (g.chance(1, 12) ? 50001 - k * 1000 : 0); r.next = g.chance(1, 6) ? now - (int64_t)g.draw(2) : now + 1000; r.revokes = g.chance(1, 5); r.badSig = g.chance(1, 12); r.wrongKey = g.chance(1, 12); r.unkCrit = false;
            for (auto &q : crls) if (q.issuer == i && q.last == r.last) r.last -= 77 + k;
            std::vector<Revoked> rv; int64_t when = now - 70000; if (g.boolean()) rv.push_back({c[i + 1].serial + 1, when, -1}); if (r.revokes) rv.push_back({c[i + 1].serial, when, g.boolean() ? (int)g.pick({0, 1, 3, 4, 5}) : -1}); if (g.boolean()) rv.push_back({c[i + 1].serial * 256 + 1, when, -1}); if (g.chance(1, 4) && i + 2 < n && c[i + 2].serial != c[i + 1].serial) rv.push_back({c[i + 2].serial, when, 1});
            int o = otherKey(c[i].key); if (o < 0) r.wrongKey = false;
            Crl x(mkCrl(c[i].x, r.wrongKey ? pool[o].k : pool[c[i].key].k, r.last, r.next, rv, 1 + k, c[i].md)); r.d = der(x); if (r.badSig) osslBytesFromTlv(r.d); crls.push_back(r);
            what += sfmt(" crl%d(l%+ld n%+ld%s%s%s)", i, (long)(r.last - now), (long)(r.next - now), r.revokes ? " rev" : "", r.badSig ? " bad" : "", r.wrongKey ? " wrong" : "");
        }
    }
    // ---- model
    std::string why; int top = -1; bool eitherWay = false;
    {
        int cur = n - 1;
        while (true) {
            int p = cur - 1;
            if (!inStore[p] && !inList[p]) { why = sfmt("issuer %d unavailable", p); break; }
            if (n - p > maxDepth) { why = "depth"; break; }
            if (inStore[p] && partial) { top = p; break; }
            if (p == 0) { if (inStore[0]) top = 0; else why = "root not trusted"; break; }
            cur = p;
        }
        bool tchk = !noTime; int maxPath = n; (void)maxPath;
        if (why.empty()) {
            for (int i = top; i < n && why.empty(); i++) {
                const Desc &e = c[i];
                if (secbits > (uint32_t)pool[e.key].bits) why = sfmt("key bits %d", i);
                if (i > top && (pool[c[i - 1].key].t != KED) && secbits > (uint32_t)((pool[c[i - 1].key].t == KSM2) ? 128 : pool[c[i - 1].key].t == KPSS ? e.mdBits : e.mdBits)) why = sfmt("hash bits %d", i);
                if (e.unkCrit) why = sfmt("unknown critical %d", i);
                if (i < n - 1) {
                    if (i == top) { if (e.version == 2 && !(e.bc && e.ca)) why = "top not CA"; }
                    else if (e.version != 2 || !(e.bc && e.ca)) why = sfmt("intermediate %d not CA", i);
                    if (!hasKu(e, "keyCertSign")) why = sfmt("keyCertSign %d", i);
                    if (e.pathlen >= 0) { int below = 0; for (int j = i + 1; j < n - 1; j++) if (c[j].cn != c[j - 1].cn) below++; if (below > e.pathlen) why = sfmt("pathlen %d", i); }
                }
                if (tchk && (e.nb > now || e.na < now)) why = sfmt("time %d", i);
                if (i > top && (e.badSig || e.wrongKey)) why = sfmt("signature %d", i);
            }
            if (why.empty() && purpose && purpose != 8 && c[n - 1].version == 2) {
                static const char *kus[8] = {"", "digitalSignature,keyEncipherment,keyAgreement,nonRepudiation,dataEncipherment", "digitalSignature,keyEncipherment,keyAgreement,nonRepudiation,dataEncipherment", "digitalSignature,nonRepudiation", "keyEncipherment", "digitalSignature", "digitalSignature,nonRepudiation", "digitalSignature,nonRepudiation"};
                static const char *ekus[8] = {"", "serverAuth", "clientAuth", "emailProtection", "emailProtection", "codeSigning", "OCSPSigning", "timeStamping"};
                const Desc &l = c[n - 1]; bool any = !l.hasKu; std::string ks = std::string(",") + kus[purpose] + ",";
                size_t b = 0; while (!any && b <= l.ku.size()) { size_t q = l.ku.find(',', b); if (q == std::string::npos) q = l.ku.size(); if (ks.find("," + l.ku.substr(b, q - b) + ",") != std::string::npos) any = true; b = q + 1; }
                if (!any) why = "purpose key usage";
                if (!l.eku.empty() && ("," + l.eku + ",").find(std::string(",") + ekus[purpose] + ",") == std::string::npos) why = "purpose EKU";
            }
            if (why.empty() && (crlAll || crlDev)) for (int i = n - 1; i > top && why.empty(); i--) {
                const CrlD *best = nullptr; auto timeBad = [&](const CrlD &r) { return !noTime && (r.last > now || r.next < now); };
                for (auto &r : crls) if (r.issuer == i - 1) { if (!best) best = &r; else if (timeBad(r) != timeBad(*best)) { if (!timeBad(r)) best = &r; } else if (r.last > best->last) best = &r; }
                if (!best) why = sfmt("no CRL for %d", i);
                else if (timeBad(*best)) why = sfmt("CRL time %d", i);
                else if (!hasKu(c[i - 1], "cRLSign")) why = sfmt("cRLSign %d", i - 1);
                else if (best->badSig || best->wrongKey) why = sfmt("CRL signature %d", i);
                else if (best->revokes) why = sfmt("revoked %d", i);
                // the lite build consults every current CRL, the full build only the newest one: both are legitimate when an older current CRL is bad or revokes
                else for (auto &r : crls) if (r.issuer == i - 1 && &r != best && !timeBad(r) && (r.revokes || r.badSig || r.wrongKey)) eitherWay = true;
                if (!crlAll) break;
            }
        }
    }
    g.label(why.empty() ? "valid" : "invalid:" + why.substr(0, why.find_last_not_of("0123456789 ") + 1)); g.nontrivial(); g.label(sfmt("n=%d", n)); g.key(what); g.key(sfmt("%d %d", n, c[n - 1].key));
    g.note("n=%d%s flags=%llx depth=%d sec=%u purpose=%d what:%s -> %s\n", n, noAki ? " noaki" : "", (unsigned long long)flags, maxDepth, secbits, purpose, what.c_str(), why.empty() ? "valid" : why.c_str());
    if (getenv("P03DUMP")) { auto dump = [](const char *n, const Bytes &d) { const uint8_t *p = d.data(); Own<X509, X509_free> x(d2i_X509(nullptr, &p, (long)d.size())); printf("== %s\n", n); X509_print_ex_fp(stdout, x, 0, X509_FLAG_NO_SIGDUMP | X509_FLAG_NO_PUBKEY); }; for (auto &d : list) dump("list", d); for (auto &d : store) dump("store", d); fflush(stdout); }
    // ---- run
    HStore st(HITLS_X509_StoreCtxNew());
    for (auto &d : store) { HCert x(hc(d)); int32_t r = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_DEEP_COPY_SET_CA, x, 0); bool nca = false; for (int i : notCa) nca |= c[i].d == d; bool decoy = true; for (auto &e : c) decoy &= e.d != d; if (nca && !r) fail("set-ca-notca", "a certificate without CA rights was accepted as trust anchor (%s)", g.notes.c_str()); if (r && !nca && !decoy) fail("set-ca", "adding a trusted certificate failed: 0x%x", r); }
    for (auto &r : crls) { HCrl x(hcrl(r.d)); int32_t q = HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_CRL, x, 0); if (q) fail("set-crl", "adding a CRL failed: 0x%x", q); }
    int32_t dep = maxDepth; REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PARAM_DEPTH, &dep, sizeof dep), "set-depth");
    if (flags) REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PARAM_FLAGS, &flags, sizeof flags), "set-flags");
    if (!noTime) REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_TIME, &now, sizeof now), "set-time");
    if (secbits) REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_SECBITS, &secbits, sizeof secbits), "set-secbits");
    if (purpose) { int32_t p = purpose; REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_PURPOSE, &p, sizeof p), "set-purpose"); }
    std::string sid = "1234567812345678"; REQUIRE_OK(HITLS_X509_StoreCtxCtrl(st, HITLS_X509_STORECTX_SET_VFY_SM2_USERID, (void *)sid.data(), (uint32_t)sid.size()), "set-sm2id");
    std::vector<HCert> hs; HITLS_X509_List *l = BSL_LIST_New(sizeof(HITLS_X509_Cert *));
    for (auto &d : list) { hs.emplace_back(hc(d)); BSL_LIST_AddElement(l, hs.back().p, BSL_LIST_POS_END); }
    struct LF { HITLS_X509_List *l; ~LF() { BSL_LIST_FREE(l, [](void *) {}); } } lf{l};
    auto judge = [&](HITLS_X509_StoreCtx *s, const char *sig) {
        int32_t r = HITLS_X509_CertVerify(s, l);
        if (why.empty() && r && !eitherWay) fail(sfmt("%s-rejected", sig), "a valid chain was rejected with 0x%x: %s", r, g.notes.c_str());
        if (!why.empty() && !r) fail(sfmt("%s-accepted", sig), "an invalid chain (%s) was accepted: %s", why.c_str(), g.notes.c_str());
    };
    judge(st, "verify");
    if (g.chance(1, 3)) judge(st, "verify-again");
    if (g.chance(1, 4)) { HStore d(HITLS_X509_StoreCtxDup(st)); if (!d.p) fail("dup", "StoreCtxDup failed"); judge(d, "verify-dup"); }
    if (g.chance(1, 4)) {      // single signature check with the issuer's public key
        int i = 1 + (int)g.draw(n - 2); HCert p(hc(c[i - 1].d)), s(hc(c[i].d)); CRYPT_EAL_PkeyCtx *pk = nullptr; REQUIRE_OK(HITLS_X509_CertCtrl(p, HITLS_X509_GET_PUBKEY, &pk, 0), "get-pubkey"); PkeyCtx own2(pk);
        int32_t r = HITLS_X509_CertVerifyByPubKey(s, pk); bool good = !c[i].badSig && !c[i].wrongKey;
        if ((r == 0) != good && !(good && pool[c[i - 1].key].t == KSM2)) fail("verify-by-pubkey", "CertVerifyByPubKey returned 0x%x, expected %s (%s)", r, good ? "success" : "failure", g.notes.c_str());
    }
}
