// T06: a handshake completes only with the peer authentication that was required.
#include "tlsgen.hpp"
extern "C" {
#include "crypt_eal_codecs.h"
}
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a handshake (TLS 1.2/1.3, DTLS 1.2, TLCP; full or post-handshake authentication) in which one side proves its identity with a certificate chain or PSK carrying one generated defect (untrusted or impostor root, self-signed, expired, not yet valid, altered certificate, intermediate expired / not a CA / altered / missing / too deep, revoked, wrong host name, key usage, no certificate, signature altered or made with another key or over other data, wrong PSK, application callback refusing) or none; non-trivial if the handshake reached a verdict. Oracle: with no defect both sides finish and see the peer's certificate; with a defect the verifying side never finishes, ends in an error and delivers no data.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"system clock lies between 2001 and 2099 (certificate validity)"};
namespace {
enum F { GOOD, EVILROOT, SELFSIGNED, EXPIRED, NOTYET, ALTERED, SIGALTERED, IEXPIRED, INOTCA, IALTERED, IMISSING, PATHLEN, REVOKED, WRONGHOST, KEYUSAGE, DEPTH, NOCERT, SIGNFLIP, SIGNOTHERKEY, SIGNOTHERDATA, CBREFUSE, IEVILKEY, NF };
const char *FN[] = {"good", "impostor-root", "self-signed", "expired", "not-yet-valid", "altered", "sig-altered", "inter-expired", "inter-not-ca", "inter-altered", "inter-missing", "pathlen", "revoked", "wrong-host", "key-usage", "depth", "no-cert", "sign-flip", "sign-other-key", "sign-other-data", "callback-refuses", "inter-impostor"};
struct Chain { Id leaf; std::vector<Bytes> inter; };
std::map<int, Chain> chains; Bytes crlLeaf, crlRoot, crlLeafClean; const KType KT[] = {KP256, KRSA, KED, KP384, KPSS};
X509 *xExpired, *xNotCa, *xPl0, *xSub; EVP_PKEY *kSub, *kOther[8];
Bytes alterName(Bytes d, const std::string &s) { auto it = std::search(d.begin(), d.end(), s.begin(), s.end()); if (it == d.end()) abort(); *(it + 1) ^= 0x02; return d; }
Bytes alterSig(Bytes d) { d[d.size() - 2] ^= 0x10; return d; }
int key(F f, KType t, bool srv) { return (int)f * 100 + (int)t * 2 + srv; }
const Chain &chain(F f, KType t, bool srv) { if (f >= REVOKED && f != REVOKED && f != KEYUSAGE && f != DEPTH && f != IEVILKEY) f = GOOD; return chains.at(key(f, t, srv)); }
void mk()
{
    Pki &p = pki(); Spec s; long n = 5000; detOssl(99);
    s.cn = "Inter"; s.serial = 71; s.ext = caExt(); s.nb = 946684800; s.na = 978307200; xExpired = mkCert(s, p.interKey, p.root, p.rootKey); s.na = 4102444800LL;
    s.serial = 72; s.ext = leafExt("", "digitalSignature"); xNotCa = mkCert(s, p.interKey, p.root, p.rootKey);
    s.serial = 73; s.ext = caExt(0); xPl0 = mkCert(s, p.interKey, p.root, p.rootKey); kSub = newKey(KP256); s.cn = "Sub"; s.serial = 74; s.ext = caExt(); xSub = mkCert(s, kSub, p.inter, p.interKey);
    for (KType t : KT) for (bool srv : {false, true}) {
        std::string cn = srv ? "server.test" : "client", san = srv ? "DNS:server.test,DNS:*.wild.test" : "DNS:client.test"; auto L = [&](X509 *ca, EVP_PKEY *k, std::vector<Ext> e = {}, int64_t nb = 946684800, int64_t na = 4102444800LL) { return p.leaf(t, cn, san, ca, k, n++, e, nb, na); };
        auto put = [&](F f, Id i, std::vector<Bytes> in) { chains[key(f, t, srv)] = Chain{i, in}; };
        Id good = L(p.inter, p.interKey); put(GOOD, good, {p.interDer}); put(IMISSING, good, {}); put(IEXPIRED, good, {der(xExpired)}); put(INOTCA, good, {der(xNotCa)}); put(IALTERED, good, {alterSig(p.interDer)}); put(EVILROOT, L(p.evil, p.evilKey), {}); put(REVOKED, good, {p.interDer});
        Id a = good; a.cert = alterName(good.cert, cn); put(ALTERED, a, {p.interDer}); a.cert = alterSig(good.cert); put(SIGALTERED, a, {p.interDer});
        put(EXPIRED, L(p.inter, p.interKey, {}, 946684800, 978307200), {p.interDer}); put(NOTYET, L(p.inter, p.interKey, {}, 4070908800LL, 4102444800LL), {p.interDer}); put(PATHLEN, L(xSub, kSub), {der(xSub), der(xPl0)}); put(DEPTH, L(xSub, kSub), {der(xSub), p.interDer});
        put(KEYUSAGE, L(p.inter, p.interKey, leafExt(san, "keyAgreement")), {p.interDer}); put(SELFSIGNED, L(nullptr, nullptr), {});
        { Spec e; e.cn = "Inter"; e.serial = 75; e.ext = caExt(); X509 *ei = mkCert(e, p.evilKey, p.evil, p.evilKey); put(IEVILKEY, L(ei, p.evilKey), {der(ei)}); }
    }
    int i = 0; for (KType t : KT) kOther[i++] = newKey(t);
}
// the prover's signing operation
F signFault; bool signArmed; CRYPT_EAL_PkeyCtx *otherKey[8]; int signCalls;
int prove(const Id &id, Peer &p, const std::vector<Bytes> &inter)
{
    loadId(p.cfg, id); for (auto &d : inter) { HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(p.cfg, d.data(), (uint32_t)d.size(), TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) return 1; must(HITLS_CFG_AddChainCert(p.cfg, x, false), "AddChainCert"); } return 0;
}
int32_t refuse(int32_t, HITLS_CERT_StoreCtx *) { return HITLS_CERT_ERR_VERIFY_CERT_CHAIN; }
Bytes peerCert(Peer &p) { HITLS_CERT_X509 *x = HITLS_GetPeerCertificate(p.ctx); if (!x) return {}; uint32_t n = 0; if (HITLS_X509_CertCtrl((HITLS_X509_Cert *)x, HITLS_X509_GET_ENCODELEN, &n, sizeof n)) return {}; uint8_t *q = nullptr; HITLS_X509_CertCtrl((HITLS_X509_Cert *)x, HITLS_X509_GET_ENCODE, &q, 0); Bytes b(q, q + n); HITLS_X509_CertFree((HITLS_X509_Cert *)x); return b; }
uint16_t sigFor(KType t, bool v13) { (void)v13; return schemes(t, false)[0]; }
}  // namespace
extern "C" int32_t __real_CRYPT_EAL_PkeySign(const CRYPT_EAL_PkeyCtx *k, CRYPT_MD_AlgId id, const uint8_t *d, uint32_t n, uint8_t *s, uint32_t *sl);
extern "C" int32_t __wrap_CRYPT_EAL_PkeySign(const CRYPT_EAL_PkeyCtx *k, CRYPT_MD_AlgId id, const uint8_t *d, uint32_t n, uint8_t *s, uint32_t *sl)
{
    if (!signArmed) return __real_CRYPT_EAL_PkeySign(k, id, d, n, s, sl);
    signCalls++; if (signFault == SIGNOTHERKEY && CRYPT_EAL_PkeyGetId(k) != CRYPT_PKEY_RSA) { int32_t t = CRYPT_EAL_PkeyGetId(k); (void)t; int i = 0; for (; i < 8; i++) if (otherKey[i] && otherKey[i] != k && CRYPT_EAL_PkeyGetSignLen(otherKey[i]) == CRYPT_EAL_PkeyGetSignLen(k) && CRYPT_EAL_PkeyGetId(otherKey[i]) == t) break; if (i < 8) return __real_CRYPT_EAL_PkeySign(otherKey[i], id, d, n, s, sl); }
    if (signFault == SIGNOTHERDATA) { Bytes b(d, d + n); b[n / 2] ^= 1; return __real_CRYPT_EAL_PkeySign(k, id, b.data(), n, s, sl); }
    int32_t r = __real_CRYPT_EAL_PkeySign(k, id, d, n, s, sl); if (r == 0 && *sl > 8) s[*sl - 5] ^= 0x20; return r;
}
void pbt::setup()
{
    tlsInit(true); mk(); int i = 0;
    for (KType t : KT) { Bytes d = der(kOther[i]); BSL_Buffer b = {d.data(), (uint32_t)d.size()}; if (t != KPSS) CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &b, nullptr, 0, &otherKey[i]); i++; }
    std::vector<Revoked> rv; for (auto &kv : chains) if (kv.first / 100 == REVOKED) { rv.push_back({ASN1_INTEGER_get(X509_get_serialNumber(kv.second.leaf.x)), 1000000000, 1}); }
    crlLeaf = der(mkCrl(pki().inter, pki().interKey, 1000000000, 4070908800LL, rv)); crlLeafClean = der(mkCrl(pki().inter, pki().interKey, 1000000000, 4070908800LL, {})); crlRoot = der(mkCrl(pki().root, pki().rootKey, 1000000000, 4070908800LL, {}));
}
PBT_TEST(certificate, 2400, 60000, 0, 40)
{
    seedRand(g); bool provServer = g.boolean(); KType t = g.pick({KP256, KRSA, KED, KP384, KPSS}); F f = g.chance(1, 5) ? GOOD : (F)g.draw(NF - 1); bool pha = !provServer && g.chance(1, 5); bool required = !g.chance(1, 6), optional = !provServer && required && g.chance(1, 3);
    if (provServer && f == NOCERT) f = GOOD; Side cs, ss; ss.server = true; Proto pr = g.chance(1, 5) && !pha ? DTLS : TLS; cs.proto = ss.proto = pr; bool v13 = pha || (pr == TLS && g.boolean()); if (pr == DTLS && t == KPSS) t = KRSA;
    uint16_t v = pr == DTLS ? 0xfefd : v13 ? 0x0304 : 0x0303; for (Side *x : {&cs, &ss}) { x->vmin = x->vmax = v; x->groups = {23, 29, 24}; x->trustAll = false; x->tickets = g.boolean(); x->pha = pha; x->flight = g.boolean(); x->sigs.assign(std::begin(ALLSIGS), std::end(ALLSIGS)); }
    bool mutual = !provServer || g.chance(1, 4); KType st = provServer ? t : g.pick({KP256, KRSA}); bool rsaAuth = st == KRSA || st == KPSS;
    uint16_t su = v13 ? g.pick<uint16_t>({0x1301, 0x1302, 0x1303}) : rsaAuth ? g.pick<uint16_t>({0xC02F, 0xC030, 0x009E, 0xC013}) : g.pick<uint16_t>({0xC02B, 0xC02C, 0xC009}); cs.suites = ss.suites = {su};
    ss.verifyPeer = mutual && (provServer || required); ss.optionalCert = !provServer && optional; cs.verifyPeer = provServer ? required : true; if (pha) { ss.verifyPeer = true; }
    Link l; l.c.setup(cs); l.s.setup(ss); Peer &P = provServer ? l.s : l.c, &V = provServer ? l.c : l.s; const Chain &ch = chain(f, t, provServer);
    bool interInStore = g.boolean() && f != IEXPIRED && f != INOTCA && f != IALTERED && f != IMISSING && f != PATHLEN && f != DEPTH && f != IEVILKEY;
    // trust of the verifier
    addStore(V.cfg, pki().rootDer); if (interInStore) addStore(V.cfg, pki().interDer);
    std::vector<Bytes> send = ch.inter; if (g.chance(1, 6) && f != EVILROOT && f != SELFSIGNED && f != IEVILKEY && f != IMISSING && f != PATHLEN) send.push_back(pki().rootDer); if (f == EVILROOT && g.boolean()) send.push_back(pki().evilDer); if (f == IEVILKEY && g.boolean()) send.push_back(pki().evilDer); if (f == SELFSIGNED && g.boolean()) send.push_back(ch.leaf.cert);
    std::string cfgs = sfmt("%s proves as %s%s, %s, key %d, v %04x suite %04x required=%d optional=%d interInStore=%d sent=%zu", FN[f], provServer ? "server" : "client", pha ? " (post-handshake)" : "", pr == DTLS ? "DTLS" : "TLS", t, v, su, required, optional, interInStore, send.size());
    if (f != NOCERT && prove(ch.leaf, P, send)) { discard(); }
    // the other direction is always in order
    if (!provServer) { prove(chain(GOOD, st, true).leaf, l.s, {pki().interDer}); addStore(l.c.cfg, pki().rootDer); } else if (ss.verifyPeer) { prove(chain(GOOD, KP256, false).leaf, l.c, {pki().interDer}); addStore(l.s.cfg, pki().rootDer); }
    if (f == REVOKED || (f == GOOD && g.chance(1, 5))) { const Bytes &cl = f == REVOKED ? crlLeaf : crlLeafClean; must(HITLS_CFG_LoadCrlBuffer(V.cfg, cl.data(), (uint32_t)cl.size(), TLS_PARSE_FORMAT_ASN1), "LoadCrl"); bool all = g.boolean(); if (all) must(HITLS_CFG_LoadCrlBuffer(V.cfg, crlRoot.data(), (uint32_t)crlRoot.size(), TLS_PARSE_FORMAT_ASN1), "LoadCrl"); must(HITLS_CFG_SetVerifyFlags(V.cfg, all ? HITLS_X509_VFY_FLAG_CRL_ALL : HITLS_X509_VFY_FLAG_CRL_DEV), "SetVerifyFlags"); cfgs += all ? " crl-all" : " crl-dev"; }
    if (f == WRONGHOST || (provServer && g.chance(1, 3))) { const char *good[] = {"server.test", "SERVER.test", "a.wild.test"}, *bad[] = {"other.test", "server.tes", "a.server.test", "wild.test", "a.b.wild.test"}; const char *h = provServer ? (f == WRONGHOST ? bad[g.draw(4)] : good[g.draw(2)]) : f == WRONGHOST ? "other.test" : "client.test"; must(HITLS_CFG_SetHost(V.cfg, (void *)h), "SetHost"); cfgs += std::string(" host=") + h; }
    if (f == DEPTH) must(HITLS_CFG_SetVerifyDepth(V.cfg, 2), "SetVerifyDepth");
    if (f == CBREFUSE) must(HITLS_CFG_SetVerifyCb(V.cfg, refuse), "SetVerifyCb");
    l.reopen(); l.sched(g);
    signFault = f; bool sf = f == SIGNFLIP || f == SIGNOTHERKEY || f == SIGNOTHERDATA; auto step = [&](Peer &p) { signArmed = sf && &p == &P; p.step(); signArmed = false; };
    auto run = [&] { uint64_t last = ~0ull; for (int i = 0, idle = 0; i < 60000 && idle < 60; i++) { step(l.c); step(l.s); if ((l.c.done || l.c.dead) && (l.s.done || l.s.dead)) break; uint64_t m = l.moved() + l.a2b.q.size() + l.b2a.q.size(); idle = m == last ? idle + 1 : 0; last = m; } };
    signCalls = 0; run(); g.note("%s -> client %d/%s server %d/%s", cfgs.c_str(), l.c.done, rc(l.c.err).c_str(), l.s.done, rc(l.s.err).c_str()); g.label(FN[f]); g.key(cfgs); g.nontrivial();
    if (f == SIGNOTHERKEY && t == KPSS) g.label("pss-other-key");
    bool mustFail = f != GOOD;
    if (pha) {
        CHECK(l.ok(), "t06-pha-first", "the handshake before post-handshake authentication failed: client %s server %s", rc(l.c.err).c_str(), rc(l.s.err).c_str());
        CHECK(peerCert(l.s).empty(), "t06-pha-early", "the server has a client certificate before asking for one"); CHECK(HITLS_VerifyClientPostHandshake(l.s.ctx) == HITLS_SUCCESS, "t06-pha-start", "VerifyClientPostHandshake failed");
        Bytes b; int32_t rs = 0, rcl = 0; for (int i = 0; i < 3000; i++) { if (Peer::retry(rcl) || !rcl) { signArmed = sf; rcl = rd(l.c, 100, b); signArmed = false; } rs = HITLS_Accept(l.s.ctx); if (!rs) { rs = rd(l.s, 100, b); }  if (rs && !Peer::retry(rs)) break; CHECK(rs, "t06-pha-data", "data out of nowhere"); if (!peerCert(l.s).empty() && f != GOOD && f != NOCERT) continue; }
        bool bad = rs && !Peer::retry(rs); bool none = f == NOCERT;
        if (f == GOOD || (none && ss.optionalCert)) { CHECK(!bad, "t06-pha-rejected", "post-handshake authentication failed: server %s client %s | %s", rc(rs).c_str(), rc(rcl).c_str(), cfgs.c_str()); if (!none) CHECK(peerCert(l.s) == ch.leaf.cert, "t06-pha-cert", "the server does not have the client's certificate | %s", cfgs.c_str()); }
        else CHECK(bad, "t06-pha-accepted", "the server did not fail although the client's proof was wrong | %s", cfgs.c_str());
        return;
    }
    if (f == NOCERT) mustFail = required && !optional; else if (!required) mustFail = provServer ? sf : false;   // without verification the server's key is still proved
    if (!provServer && !required) { CHECK(l.ok(), "t06-unneeded", "handshake without client authentication failed | %s", cfgs.c_str()); CHECK(peerCert(l.s).empty(), "t06-unneeded-cert", "the server has a certificate it did not ask for"); return; }
    if (f == GOOD) { CHECK(l.ok(), "t06-good-rejected", "a valid proof was refused: client %d %s server %d %s | %s", l.c.done, rc(l.c.err).c_str(), l.s.done, rc(l.s.err).c_str(), cfgs.c_str()); CHECK(peerCert(V) == ch.leaf.cert, "t06-cert", "the peer certificate is not the one proved | %s", cfgs.c_str()); HITLS_ERROR vr = (HITLS_ERROR)1; if (required) { HITLS_GetVerifyResult(V.ctx, &vr); CHECK(vr == 0, "t06-result", "verify result %x after success | %s", vr, cfgs.c_str()); } }
    else if (mustFail) { CHECK(!V.done, "t06-accepted", "the verifying side finished the handshake | %s", cfgs.c_str()); CHECK(V.dead, "t06-hangs", "the verifying side did not report an error | %s", cfgs.c_str()); Bytes b; for (int i = 0; i < 5; i++) CHECK(rd(V, 50, b) != HITLS_SUCCESS, "t06-data", "data delivered after the failure | %s", cfgs.c_str()); CHECK(!(P.done && provServer), "t06-prover-done", "the server finished although the client refused | %s", cfgs.c_str());
        V.dead = false; for (int i = 0; i < 3; i++) { V.step(); CHECK(!V.done, "t06-second-try", "calling the handshake again after the failure completed it | %s", cfgs.c_str()); V.dead = false; } }
    else if (f != KEYUSAGE) CHECK(l.ok(), "t06-optional", "a handshake whose peer verification was optional failed: client %s server %s | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfgs.c_str());
}
PBT_TEST(psk, 500, 15000, 0, 40)
{
    seedRand(g); Side cs, ss; ss.server = true; bool v13 = g.boolean(); bool dt = !v13 && g.chance(1, 4); cs.proto = ss.proto = dt ? DTLS : TLS; uint16_t v = dt ? 0xfefd : v13 ? 0x0304 : 0x0303; Bytes k = g.bytes(g.pick<size_t>({16, 32, 48, 64})); int mode = (int)g.weighted({2, 3, 2}); uint16_t su = v13 ? g.pick<uint16_t>({0x1301, 0x1303}) : g.pick<uint16_t>({0x00A8, 0x00AA, 0xC035, 0x00AC, 0xD001});
    for (Side *x : {&cs, &ss}) { x->vmin = x->vmax = v; x->suites = {su}; x->groups = {23, 29}; x->psk = k; x->pskId = "identity"; x->security = 0; x->sigs.assign(std::begin(ALLSIGS), std::end(ALLSIGS)); x->kexMode = v13 ? (uint32_t)g.pick<int>({2, 3}) : 3; }
    ss.kexMode = cs.kexMode; bool cert = su == 0x00AC || (v13 && g.boolean()); if (cert) ss.certs = {KRSA}; ss.verifyPeer = false; if (mode == 1) { Bytes o = k; if (g.boolean()) o[g.draw(o.size() - 1)] ^= (uint8_t)(1 << g.draw(7)); else if (g.boolean()) o.pop_back(); else o.push_back(0x5a); (g.boolean() ? cs : ss).psk = o; }
    if (mode == 2) (g.boolean() ? cs : ss).pskId = g.pick<std::string>({"identitz", "identit", "identity0", "IDENTITY"});
    Link l; l.open(cs, ss); l.sched(g); l.handshake(); std::string cfgs = sfmt("psk v %04x suite %04x mode %d cert %d kexMode %u lengths %zu %zu ids %s %s", v, su, mode, cert, cs.kexMode, cs.psk.size(), ss.psk.size(), cs.pskId.c_str(), ss.pskId.c_str()); g.note("%s -> %d %d", cfgs.c_str(), l.c.done, l.s.done); g.nontrivial(); g.key(cfgs); g.label(sfmt("psk-mode%d", mode));
    if (mode == 0) { CHECK(l.ok(), "t06-psk-good", "equal PSKs failed: client %s server %s | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfgs.c_str()); return; }
    if (mode == 2 && v13 && cert) { CHECK(l.ok(), "t06-psk-fallback", "unknown identity and a valid certificate failed: client %s server %s | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfgs.c_str()); CHECK(!peerCert(l.c).empty(), "t06-psk-noauth", "the handshake used neither the PSK nor a certificate | %s", cfgs.c_str()); return; }
    CHECK(!l.c.done && !l.s.done, "t06-psk-accepted", "a handshake with different PSKs completed (client %d server %d) | %s", l.c.done, l.s.done, cfgs.c_str()); if (!dt) CHECK(l.c.dead || l.s.dead, "t06-psk-hangs", "no side reported an error | %s", cfgs.c_str());
}
PBT_TEST(tlcp, 300, 8000, 0, 40)
{
    seedRand(g); Side cs, ss; ss.server = true; cs.proto = ss.proto = g.chance(1, 4) ? DTLCP : TLCP; uint16_t su = g.pick<uint16_t>({0xE011, 0xE013, 0xE051, 0xE053}); cs.suites = ss.suites = {su}; bool ecdhe = su == 0xE011 || su == 0xE051; bool provServer = g.boolean(); F f = (F)g.pick<int>({GOOD, EVILROOT, SIGNFLIP, SIGNOTHERDATA, NOCERT}); if (f == NOCERT && provServer) f = GOOD;
    cs.certs = ss.certs = {KSM2}; ss.verifyPeer = ecdhe || !provServer || g.boolean(); if (f == NOCERT) cs.certs.clear(); ss.optionalCert = false;
    Side &vs = provServer ? cs : ss; if (f == EVILROOT) vs.trustAll = false; Link l; l.c.setup(cs); l.s.setup(ss); Peer &P = provServer ? l.s : l.c, &V = provServer ? l.c : l.s; if (f == EVILROOT) addStore(V.cfg, pki().rootDer);
    l.reopen(); l.sched(g); signFault = f; bool sf = f == SIGNFLIP || f == SIGNOTHERDATA; signCalls = 0; uint64_t last = ~0ull; for (int i = 0, idle = 0; i < 60000 && idle < 60; i++) { for (Peer *p : {&l.c, &l.s}) { signArmed = sf && p == &P; p->step(); signArmed = false; } if ((l.c.done || l.c.dead) && (l.s.done || l.s.dead)) break; uint64_t m = l.moved() + l.a2b.q.size() + l.b2a.q.size(); idle = m == last ? idle + 1 : 0; last = m; }
    std::string cfgs = sfmt("tlcp %s proves as %s suite %04x dgram %d verifyClient %d", FN[f], provServer ? "server" : "client", su, cs.dgram(), ss.verifyPeer); g.note("%s -> %d %d", cfgs.c_str(), l.c.done, l.s.done); g.key(cfgs + std::to_string(g.draw(1))); g.nontrivial(); g.label(FN[f]);
    if (f == GOOD) CHECK(l.ok(), "t06-tlcp-good", "a valid proof was refused: client %s server %s | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfgs.c_str());
    else { if (sf && !signCalls) discard(); CHECK(!V.done, "t06-tlcp-accepted", "the verifying side finished | %s", cfgs.c_str()); CHECK(V.dead || P.dead, "t06-tlcp-hangs", "no error reported | %s", cfgs.c_str()); }
}
