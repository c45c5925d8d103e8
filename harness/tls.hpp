// In-memory TLS peers for the TLS harnesses: pipes with scheduled I/O, certificates, configurations.
#pragma once
#include "opki.hpp"
#include <deque>
extern "C" {
#include "bsl_uio.h"
#include "bsl_list.h"
#include "bsl_log.h"
#include "hitls.h"
#include "hitls_config.h"
#include "hitls_error.h"
#include "hitls_cert.h"
#include "hitls_cert_init.h"
#include "hitls_crypt_init.h"
#include "hitls_session.h"
#include "hitls_alpn.h"
#include "hitls_sni.h"
#include "hitls_psk.h"
#include "hitls_security.h"
#include "hitls_cookie.h"
#include "hitls_debug.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_errno.h"
}
namespace tls {
using namespace opki;
// ---------------------------------------------------------------- transport
struct Pipe {                     // one direction; a stream or a queue of datagrams
    Bytes buf; size_t off = 0; std::deque<Bytes> q; bool eof = false; size_t total = 0;
    size_t avail() const { return buf.size() - off; }
    void put(const uint8_t *p, size_t n) { if (off > 65536 && off * 2 > buf.size()) { buf.erase(buf.begin(), buf.begin() + (long)off); off = 0; } buf.insert(buf.end(), p, p + n); total += n; }
    bool empty() const { return avail() == 0 && q.empty(); }
};
struct Sched {                    // how a transport call behaves: 0 at once, 1 small pieces, 2 pieces and would-block
    int mode = 0; uint64_t rng = 1; size_t maxChunk = 1;
    size_t step(size_t want) { if (mode == 0 || want == 0) return want; uint64_t v = splitmix(rng); if (mode == 2 && v % 3 == 0) return 0; return std::min<size_t>(want, 1 + (v >> 8) % maxChunk); }
};
struct Peer;
int32_t uioWrite(BSL_UIO *, const void *, uint32_t, uint32_t *); int32_t uioRead(BSL_UIO *, void *, uint32_t, uint32_t *); int32_t uioCtrl(BSL_UIO *, int32_t, int32_t, void *); int32_t uioCreate(BSL_UIO *);
// ---------------------------------------------------------------- certificates
struct Id { Bytes cert, key; EVP_PKEY *pk = nullptr; X509 *x = nullptr; };
struct Pki {
    EVP_PKEY *rootKey; X509 *root; Bytes rootDer; EVP_PKEY *interKey; X509 *inter; Bytes interDer; EVP_PKEY *evilKey; X509 *evil; Bytes evilDer; EVP_PKEY *smKey; X509 *smRoot; Bytes smRootDer;
    std::map<int, Id> srv, cli; Id smSign, smEnc, smCliSign, smCliEnc; std::map<std::string, Id> odd;
    Id leaf(KType t, const std::string &cn, const std::string &san, X509 *ca, EVP_PKEY *cak, long serial, std::vector<Ext> ext = {}, int64_t nb = 946684800, int64_t na = 4102444800LL)
    {
        Id i; i.pk = newKey(t); Spec s; s.cn = cn; s.serial = serial; s.nb = nb; s.na = na; s.ext = ext.empty() ? leafExt(san) : ext; i.x = mkCert(s, i.pk, ca, cak); i.cert = der(i.x); i.key = der(i.pk); return i;
    }
    void make(bool sm)
    {
        detOssl(77); Spec s; s.cn = "Root"; s.ext = caExt(); rootKey = newKey(KP256); root = mkCert(s, rootKey, nullptr, nullptr); rootDer = der(root);
        s.cn = "Inter"; s.serial = 2; interKey = newKey(KP256); inter = mkCert(s, interKey, root, rootKey); interDer = der(inter);
        s.cn = "Root"; s.serial = 1; evilKey = newKey(KP256); evil = mkCert(s, evilKey, nullptr, nullptr); evilDer = der(evil);
        long n = 10; for (KType t : {KP256, KRSA, KED, KP384, KPSS, KP521}) { srv[t] = leaf(t, "server.test", "DNS:server.test,DNS:*.wild.test,IP:10.0.0.1", inter, interKey, n++); cli[t] = leaf(t, "client", "DNS:client.test", inter, interKey, n++); }
        if (sm) { smKey = newKey(KSM2); Spec m; m.cn = "SMRoot"; m.ext = caExt(); smRoot = mkCert(m, smKey, nullptr, nullptr); smRootDer = der(smRoot);
            auto sg = leafExt("DNS:server.test", "digitalSignature,nonRepudiation"), en = leafExt("DNS:server.test", "keyEncipherment,dataEncipherment,keyAgreement");
            smSign = leaf(KSM2, "server.test", "", smRoot, smKey, n++, sg); smEnc = leaf(KSM2, "server.test", "", smRoot, smKey, n++, en); smCliSign = leaf(KSM2, "client", "", smRoot, smKey, n++, sg); smCliEnc = leaf(KSM2, "client", "", smRoot, smKey, n++, en); }
    }
};
inline Pki &pki() { static Pki p; return p; }
// ---------------------------------------------------------------- suites
enum Kx { KX13, KXRSA, KXDHE, KXECDHE, KXPSK, KXDHEPSK, KXRSAPSK, KXECDHEPSK, KXADH, KXAECDH, KXTLCP_E, KXTLCP_ECC };
enum Au { AUANY, AURSA, AUECDSA, AUNONE, AUSM2 };
struct Suite { uint16_t id; Kx kx; Au au; bool aead, sha384; const char *name; };
static const Suite SUITES[] = {
    {0x1301, KX13, AUANY, true, false, "TLS_AES_128_GCM_SHA256"}, {0x1302, KX13, AUANY, true, true, "TLS_AES_256_GCM_SHA384"}, {0x1303, KX13, AUANY, true, false, "TLS_CHACHA20_POLY1305_SHA256"}, {0x1304, KX13, AUANY, true, false, "TLS_AES_128_CCM_SHA256"}, {0x1305, KX13, AUANY, true, false, "TLS_AES_128_CCM_8_SHA256"},
    {0xC02B, KXECDHE, AUECDSA, true, false, "ECDHE-ECDSA-AES128-GCM-SHA256"}, {0xC02F, KXECDHE, AURSA, true, false, "ECDHE-RSA-AES128-GCM-SHA256"}, {0xC02C, KXECDHE, AUECDSA, true, true, "ECDHE-ECDSA-AES256-GCM-SHA384"}, {0xC030, KXECDHE, AURSA, true, true, "ECDHE-RSA-AES256-GCM-SHA384"}, {0xCCA8, KXECDHE, AURSA, true, false, "ECDHE-RSA-CHACHA20-POLY1305"}, {0xCCA9, KXECDHE, AUECDSA, true, false, "ECDHE-ECDSA-CHACHA20-POLY1305"},
    {0xC009, KXECDHE, AUECDSA, false, false, "ECDHE-ECDSA-AES128-SHA"}, {0xC00A, KXECDHE, AUECDSA, false, false, "ECDHE-ECDSA-AES256-SHA"}, {0xC013, KXECDHE, AURSA, false, false, "ECDHE-RSA-AES128-SHA"}, {0xC014, KXECDHE, AURSA, false, false, "ECDHE-RSA-AES256-SHA"}, {0xC023, KXECDHE, AUECDSA, false, false, "ECDHE-ECDSA-AES128-SHA256"}, {0xC024, KXECDHE, AUECDSA, false, true, "ECDHE-ECDSA-AES256-SHA384"}, {0xC027, KXECDHE, AURSA, false, false, "ECDHE-RSA-AES128-SHA256"}, {0xC028, KXECDHE, AURSA, false, true, "ECDHE-RSA-AES256-SHA384"}, {0xC0AC, KXECDHE, AUECDSA, true, false, "ECDHE-ECDSA-AES128-CCM"}, {0xC0AD, KXECDHE, AUECDSA, true, false, "ECDHE-ECDSA-AES256-CCM"},
    {0x002F, KXRSA, AURSA, false, false, "AES128-SHA"}, {0x0035, KXRSA, AURSA, false, false, "AES256-SHA"}, {0x003C, KXRSA, AURSA, false, false, "AES128-SHA256"}, {0x003D, KXRSA, AURSA, false, false, "AES256-SHA256"}, {0x009C, KXRSA, AURSA, true, false, "AES128-GCM-SHA256"}, {0x009D, KXRSA, AURSA, true, true, "AES256-GCM-SHA384"}, {0xC09C, KXRSA, AURSA, true, false, "AES128-CCM"}, {0xC09D, KXRSA, AURSA, true, false, "AES256-CCM"}, {0xC0A0, KXRSA, AURSA, true, false, "AES128-CCM8"}, {0xC0A1, KXRSA, AURSA, true, false, "AES256-CCM8"},
    {0x0033, KXDHE, AURSA, false, false, "DHE-RSA-AES128-SHA"}, {0x0039, KXDHE, AURSA, false, false, "DHE-RSA-AES256-SHA"}, {0x0067, KXDHE, AURSA, false, false, "DHE-RSA-AES128-SHA256"}, {0x006B, KXDHE, AURSA, false, false, "DHE-RSA-AES256-SHA256"}, {0x009E, KXDHE, AURSA, true, false, "DHE-RSA-AES128-GCM-SHA256"}, {0x009F, KXDHE, AURSA, true, true, "DHE-RSA-AES256-GCM-SHA384"}, {0xC09E, KXDHE, AURSA, true, false, "DHE-RSA-AES128-CCM"}, {0xC09F, KXDHE, AURSA, true, false, "DHE-RSA-AES256-CCM"}, {0xCCAA, KXDHE, AURSA, true, false, "DHE-RSA-CHACHA20-POLY1305"},
    {0x00A8, KXPSK, AUNONE, true, false, "PSK-AES128-GCM-SHA256"}, {0x00A9, KXPSK, AUNONE, true, true, "PSK-AES256-GCM-SHA384"}, {0x008C, KXPSK, AUNONE, false, false, "PSK-AES128-CBC-SHA"}, {0x00AF, KXPSK, AUNONE, false, true, "PSK-AES256-CBC-SHA384"}, {0xCCAB, KXPSK, AUNONE, true, false, "PSK-CHACHA20-POLY1305"}, {0xC0A5, KXPSK, AUNONE, true, false, "PSK-AES256-CCM"},
    {0x00AA, KXDHEPSK, AUNONE, true, false, "DHE-PSK-AES128-GCM-SHA256"}, {0x0091, KXDHEPSK, AUNONE, false, false, "DHE-PSK-AES256-CBC-SHA"}, {0xCCAD, KXDHEPSK, AUNONE, true, false, "DHE-PSK-CHACHA20-POLY1305"}, {0xC0A6, KXDHEPSK, AUNONE, true, false, "DHE-PSK-AES128-CCM"},
    {0x00AC, KXRSAPSK, AURSA, true, false, "RSA-PSK-AES128-GCM-SHA256"}, {0x00B7, KXRSAPSK, AURSA, false, true, "RSA-PSK-AES256-CBC-SHA384"}, {0xCCAE, KXRSAPSK, AURSA, true, false, "RSA-PSK-CHACHA20-POLY1305"},
    {0xC035, KXECDHEPSK, AUNONE, false, false, "ECDHE-PSK-AES128-CBC-SHA"}, {0xC038, KXECDHEPSK, AUNONE, false, true, "ECDHE-PSK-AES256-CBC-SHA384"}, {0xCCAC, KXECDHEPSK, AUNONE, true, false, "ECDHE-PSK-CHACHA20-POLY1305"}, {0xD001, KXECDHEPSK, AUNONE, true, false, ""}, {0xD002, KXECDHEPSK, AUNONE, true, true, ""}, {0xD005, KXECDHEPSK, AUNONE, true, false, ""},
    {0x0034, KXADH, AUNONE, false, false, "ADH-AES128-SHA"}, {0x00A6, KXADH, AUNONE, true, false, "ADH-AES128-GCM-SHA256"}, {0x00A7, KXADH, AUNONE, true, true, "ADH-AES256-GCM-SHA384"}, {0xC018, KXAECDH, AUNONE, false, false, "AECDH-AES128-SHA"}, {0xC019, KXAECDH, AUNONE, false, false, "AECDH-AES256-SHA"},
    {0xE011, KXTLCP_E, AUSM2, false, false, ""}, {0xE013, KXTLCP_ECC, AUSM2, false, false, ""}, {0xE051, KXTLCP_E, AUSM2, true, false, ""}, {0xE053, KXTLCP_ECC, AUSM2, true, false, ""},
};
inline const Suite *suite(uint16_t id) { for (auto &s : SUITES) if (s.id == id) return &s; return nullptr; }
// ---------------------------------------------------------------- configuration of one side
enum Proto { TLS, DTLS, TLCP, DTLCP };
struct Side {
    Proto proto = TLS; bool server = false; uint16_t vmin = 0x0303, vmax = 0x0304;
    std::vector<uint16_t> suites, groups, sigs; std::vector<KType> certs;
    bool verifyPeer = true, optionalCert = false, tickets = true, etm = true, middlebox = true, flight = true, serverPref = false, pha = false, renego = false, cookie = false, readAhead = false;
    int ems = 0; uint16_t rsl = 0, maxFrag = 0; uint32_t inbuf = 0, ticketNum = 2, kexMode = 3, emptyRec = 32; int pad = 0; int security = -1;
    std::vector<std::string> alpn; bool alpnStrict = false; std::string sni; std::string pskId; Bytes psk; Bytes sidCtx; Bytes ticketKey; int cacheMode = -1; uint16_t mtu = 0; uint32_t modeFlags = 0;
    bool trustAll = true;   // loads the roots
    bool dgram() const { return proto == DTLS || proto == DTLCP; }
};
struct Peer {
    Side s; HITLS_Config *cfg = nullptr; HITLS_Ctx *ctx = nullptr; Pipe *in = nullptr, *out = nullptr; Sched rd, wr; BSL_UIO_Method *meth = nullptr;
    bool done = false, dead = false; int32_t err = 0; Bytes sent, got; std::string sniSeen; bool keepCfg = false; uint64_t padRng = 5; bool writeFail = false;
    std::vector<Bytes> sentMsgs, gotMsgs; std::vector<HITLS_Session *> sessions; bool pendingWrite = false; uint64_t recMax = 16384;   // largest record content this side may send
    Peer() {} Peer(const Peer &) = delete; Peer &operator=(const Peer &) = delete;
    void freeCtx() { if (ctx) HITLS_Free(ctx); ctx = nullptr; if (meth) BSL_UIO_FreeMethod(meth); meth = nullptr; }
    ~Peer() { for (auto *x : sessions) HITLS_SESS_Free(x); freeCtx(); if (cfg) HITLS_CFG_FreeConfig(cfg); }
    void setup(const Side &side); void open(Pipe *i, Pipe *o); bool build(const Side &side) { s = side; cfg = nullptr; setup(side); return cfg != nullptr; }
    static bool retry(int32_t r) { return r == HITLS_REC_NORMAL_RECV_BUF_EMPTY || r == HITLS_REC_NORMAL_IO_BUSY || r == HITLS_WANT_READ || r == HITLS_WANT_WRITE; }
    // one handshake step; returns false once it can make no further step (done or dead)
    void step() { if (done || dead) return; int32_t r = s.server ? HITLS_Accept(ctx) : HITLS_Connect(ctx); if (r == HITLS_SUCCESS) done = true; else if (!retry(r)) { dead = true; err = r; } }
};
inline Peer *peerOf(const HITLS_Ctx *c) { return (Peer *)HITLS_GetUserData(c); }
inline int32_t uioWrite(BSL_UIO *u, const void *b, uint32_t n, uint32_t *w)
{
    Peer *p = (Peer *)BSL_UIO_GetUserData(u); *w = 0; BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY); if (p->writeFail) return BSL_UIO_IO_EXCEPTION;
    if (p->s.dgram()) { if (p->wr.step(1) == 0) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_WRITE | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS; } p->out->q.push_back(Bytes((const uint8_t *)b, (const uint8_t *)b + n)); p->out->total += n; *w = n; return BSL_SUCCESS; }
    size_t k = p->wr.step(n); if (k == 0) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_WRITE | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS; }
    p->out->put((const uint8_t *)b, k); *w = (uint32_t)k; return BSL_SUCCESS;
}
inline int32_t uioRead(BSL_UIO *u, void *b, uint32_t n, uint32_t *r)
{
    Peer *p = (Peer *)BSL_UIO_GetUserData(u); *r = 0; BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY);
    if (p->s.dgram()) {
        if (p->in->q.empty() || p->rd.step(1) == 0) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_READ | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS; }
        Bytes d = p->in->q.front(); p->in->q.pop_front(); size_t k = std::min<size_t>(n, d.size()); if (k) memcpy(b, d.data(), k); *r = (uint32_t)k; return BSL_SUCCESS;
    }
    size_t a = p->in->avail(); if (a == 0 && p->in->eof) return BSL_UIO_IO_EOF; size_t k = p->rd.step(std::min<size_t>(a, n)); if (k == 0) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_READ | BSL_UIO_FLAGS_SHOULD_RETRY); return BSL_SUCCESS; }
    memcpy(b, p->in->buf.data() + p->in->off, k); p->in->off += k; *r = (uint32_t)k; return BSL_SUCCESS;
}
inline int32_t uioCtrl(BSL_UIO *, int32_t cmd, int32_t, void *p) { if (cmd == BSL_UIO_GET_FD && p) *(int32_t *)p = 666; if (cmd == BSL_UIO_UDP_GET_MTU_OVERHEAD && p) *(uint8_t *)p = 28; if (cmd == BSL_UIO_UDP_MTU_EXCEEDED && p) *(bool *)p = false; return BSL_SUCCESS; }
inline int32_t uioCreate(BSL_UIO *u) { BSL_UIO_SetInit(u, true); return BSL_SUCCESS; }
inline int32_t alpnCb(HITLS_Ctx *c, uint8_t **sel, uint8_t *sl, uint8_t *list, uint32_t ll, void *) { Peer *p = peerOf(c); if (!p) return 3; for (auto &a : p->s.alpn) for (uint32_t i = 0; i + 1 <= ll; i += 1u + list[i]) if (list[i] == a.size() && !memcmp(list + i + 1, a.data(), a.size())) { *sel = list + i + 1; *sl = list[i]; return HITLS_ALPN_ERR_OK; } return p->s.alpnStrict ? HITLS_ALPN_ERR_ALERT_FATAL : HITLS_ALPN_ERR_NOACK; }
inline int32_t sniCb(HITLS_Ctx *c, int *, void *) { Peer *p = peerOf(c); const char *n = HITLS_GetServerName(c, HITLS_SNI_HOSTNAME_TYPE); if (p && n) p->sniSeen = n; return HITLS_ACCEPT_SNI_ERR_OK; }
inline uint32_t pskCli(HITLS_Ctx *c, const uint8_t *, uint8_t *id, uint32_t ml, uint8_t *psk, uint32_t mp) { Peer *p = peerOf(c); if (!p || p->s.pskId.empty() || p->s.pskId.size() + 1 > ml || p->s.psk.size() > mp) return 0; memcpy(id, p->s.pskId.c_str(), p->s.pskId.size() + 1); memcpy(psk, p->s.psk.data(), p->s.psk.size()); return (uint32_t)p->s.psk.size(); }
inline uint32_t pskSrv(HITLS_Ctx *c, const uint8_t *id, uint8_t *psk, uint32_t mp) { Peer *p = peerOf(c); if (!p || p->s.psk.size() > mp || p->s.pskId != (const char *)id) return 0; memcpy(psk, p->s.psk.data(), p->s.psk.size()); return (uint32_t)p->s.psk.size(); }
inline uint64_t padCb(HITLS_Ctx *c, int32_t, uint64_t len, void *) { Peer *p = peerOf(c); if (!p || len + 1 >= p->recMax) return 0; return std::min<uint64_t>(splitmix(p->padRng) % (uint64_t)(p->s.pad + 1), p->recMax - len - 1); }
inline int32_t ckGen(HITLS_Ctx *, uint8_t *b, uint32_t *n) { memset(b, 0x77, 20); *n = 20; return HITLS_COOKIE_GENERATE_SUCCESS; }
inline int32_t ckVer(HITLS_Ctx *, const uint8_t *b, uint32_t n) { for (uint32_t i = 0; i < n; i++) if (b[i] != 0x77) return HITLS_COOKIE_VERIFY_ERROR; return n == 20 ? HITLS_COOKIE_VERIFY_SUCCESS : HITLS_COOKIE_VERIFY_ERROR; }
inline void must(int32_t r, const char *what) { if (r != HITLS_SUCCESS) pbt::fail(std::string("tls-cfg-") + what, "%s returned %s", what, rc(r).c_str()); }
inline void loadId(HITLS_Config *c, const Id &i) { must(HITLS_CFG_LoadCertBuffer(c, i.cert.data(), (uint32_t)i.cert.size(), TLS_PARSE_FORMAT_ASN1), "LoadCert"); must(HITLS_CFG_LoadKeyBuffer(c, i.key.data(), (uint32_t)i.key.size(), TLS_PARSE_FORMAT_ASN1), "LoadKey"); }
inline void addStore(HITLS_Config *c, const Bytes &d, HITLS_CERT_StoreType t = TLS_CERT_STORE_TYPE_DEFAULT) { HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, d.data(), (uint32_t)d.size(), TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); if (!x) pbt::fail("tls-cfg-ParseCert", "ParseCert failed"); must(HITLS_CFG_AddCertToStore(c, x, t, false), "AddCertToStore"); }
inline void loadTlcp(HITLS_Config *c, const Id &i, bool enc)
{
    HITLS_CERT_X509 *x = HITLS_CFG_ParseCert(c, i.cert.data(), (uint32_t)i.cert.size(), TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1); HITLS_CERT_Key *k = HITLS_CFG_ParseKey(c, i.key.data(), (uint32_t)i.key.size(), TLS_PARSE_TYPE_BUFF, TLS_PARSE_FORMAT_ASN1);
    if (!x || !k) pbt::fail("tls-cfg-Parse", "parse SM2 cert/key failed"); must(HITLS_CFG_SetTlcpCertificate(c, x, false, enc), "SetTlcpCertificate"); must(HITLS_CFG_SetTlcpPrivateKey(c, k, false, enc), "SetTlcpPrivateKey");
}
inline void Peer::setup(const Side &d)
{
    s = d; cfg = d.proto == TLS ? HITLS_CFG_NewTLSConfig() : d.proto == DTLS ? HITLS_CFG_NewDTLSConfig() : d.proto == TLCP ? HITLS_CFG_NewTLCPConfig() : HITLS_CFG_NewDTLCPConfig();
    if (!cfg) pbt::fail("tls-cfg-new", "config not created");
    if (d.proto == TLS || d.proto == DTLS) must(HITLS_CFG_SetVersion(cfg, d.vmin, d.vmax), "SetVersion");
    if (!d.suites.empty()) must(HITLS_CFG_SetCipherSuites(cfg, d.suites.data(), (uint32_t)d.suites.size()), "SetCipherSuites");
    if (!d.groups.empty()) must(HITLS_CFG_SetGroups(cfg, d.groups.data(), (uint32_t)d.groups.size()), "SetGroups");
    if (!d.sigs.empty()) must(HITLS_CFG_SetSignature(cfg, d.sigs.data(), (uint16_t)d.sigs.size()), "SetSignature");
    if (d.security >= 0) must(HITLS_CFG_SetSecurityLevel(cfg, d.security), "SetSecurityLevel");
    bool sm = d.proto == TLCP || d.proto == DTLCP;
    if (d.trustAll) { if (sm) addStore(cfg, pki().smRootDer); else { addStore(cfg, pki().rootDer); addStore(cfg, pki().interDer); } }
    if (sm) { if (!d.certs.empty()) { loadTlcp(cfg, d.server ? pki().smSign : pki().smCliSign, false); loadTlcp(cfg, d.server ? pki().smEnc : pki().smCliEnc, true); } }
    else for (KType t : d.certs) loadId(cfg, d.server ? pki().srv[t] : pki().cli[t]);
    HITLS_CFG_SetCheckKeyUsage(cfg, true);
    if (d.server) { must(HITLS_CFG_SetClientVerifySupport(cfg, d.verifyPeer), "SetClientVerify"); must(HITLS_CFG_SetNoClientCertSupport(cfg, d.optionalCert), "SetNoClientCert"); HITLS_CFG_SetVerifyNoneSupport(cfg, !d.verifyPeer); }
    else must(HITLS_CFG_SetVerifyNoneSupport(cfg, !d.verifyPeer), "SetVerifyNone");
    must(HITLS_CFG_SetSessionTicketSupport(cfg, d.tickets), "SetTicket"); must(HITLS_CFG_SetEncryptThenMac(cfg, d.etm), "SetEtm"); must(HITLS_CFG_SetExtendedMasterSecretMode(cfg, d.ems), "SetEms");
    HITLS_CFG_SetMiddleBoxCompat(cfg, d.middlebox); HITLS_CFG_SetFlightTransmitSwitch(cfg, d.flight); HITLS_CFG_SetCipherServerPreference(cfg, d.serverPref); HITLS_CFG_SetPostHandshakeAuthSupport(cfg, d.pha); HITLS_CFG_SetRenegotiationSupport(cfg, d.renego); if (d.renego) HITLS_CFG_SetClientRenegotiateSupport(cfg, true);
    if (d.rsl) must(HITLS_CFG_SetRecordSizeLimit(cfg, d.rsl), "SetRecordSizeLimit"); if (d.maxFrag) must(HITLS_CFG_SetMaxSendFragment(cfg, d.maxFrag), "SetMaxSendFragment"); if (d.inbuf) must(HITLS_CFG_SetRecInbufferSize(cfg, d.inbuf), "SetRecInbufferSize"); if (d.readAhead) HITLS_CFG_SetReadAhead(cfg, 1); HITLS_CFG_SetEmptyRecordsNum(cfg, d.emptyRec);
    HITLS_CFG_SetTicketNums(cfg, d.ticketNum); if (d.kexMode) HITLS_CFG_SetKeyExchMode(cfg, d.kexMode); HITLS_CFG_SetDhAutoSupport(cfg, true); if (d.modeFlags) HITLS_CFG_SetModeSupport(cfg, d.modeFlags);
    if (d.pad) { must(HITLS_CFG_SetRecordPaddingCb(cfg, padCb), "SetPadCb"); }
    if (!d.alpn.empty()) { if (d.server) must(HITLS_CFG_SetAlpnProtosSelectCb(cfg, alpnCb, nullptr), "SetAlpnCb"); else { Bytes l; for (auto &a : d.alpn) { l.push_back((uint8_t)a.size()); l.insert(l.end(), a.begin(), a.end()); } must(HITLS_CFG_SetAlpnProtos(cfg, l.data(), (uint32_t)l.size()), "SetAlpn"); } }
    if (!d.sni.empty() && !d.server) must(HITLS_CFG_SetServerName(cfg, (uint8_t *)d.sni.c_str(), (uint32_t)d.sni.size()), "SetServerName"); if (d.server) HITLS_CFG_SetServerNameCb(cfg, sniCb);
    if (!d.psk.empty()) { if (d.server) must(HITLS_CFG_SetPskServerCallback(cfg, pskSrv), "SetPskSrv"); else must(HITLS_CFG_SetPskClientCallback(cfg, pskCli), "SetPskCli"); }
    if (!d.sidCtx.empty()) must(HITLS_CFG_SetSessionIdCtx(cfg, d.sidCtx.data(), (uint32_t)d.sidCtx.size()), "SetSidCtx"); if (!d.ticketKey.empty()) must(HITLS_CFG_SetSessionTicketKey(cfg, d.ticketKey.data(), (uint32_t)d.ticketKey.size()), "SetTicketKey"); if (d.cacheMode >= 0) HITLS_CFG_SetSessionCacheMode(cfg, (HITLS_SESS_CACHE_MODE)d.cacheMode);
    if (d.server && d.dgram()) { HITLS_CFG_SetDtlsCookieExchangeSupport(cfg, d.cookie); HITLS_CFG_SetCookieGenCb(cfg, ckGen); HITLS_CFG_SetCookieVerifyCb(cfg, ckVer); }
}
inline void Peer::open(Pipe *i, Pipe *o)
{
    freeCtx(); in = i; out = o; done = dead = false; err = 0; ctx = HITLS_New(cfg); if (!ctx && !s.sigs.empty() && s.sigs.size() < 13) pbt::discard(); /* no suite fits the restricted schemes: refused at creation */ if (!ctx) pbt::fail("tls-new", "HITLS_New failed"); HITLS_SetUserData(ctx, this);
    meth = BSL_UIO_NewMethod(); BSL_UIO_SetMethodType(meth, s.dgram() ? BSL_UIO_UDP : BSL_UIO_TCP); BSL_UIO_SetMethod(meth, BSL_UIO_WRITE_CB, (void *)uioWrite); BSL_UIO_SetMethod(meth, BSL_UIO_READ_CB, (void *)uioRead); BSL_UIO_SetMethod(meth, BSL_UIO_CTRL_CB, (void *)uioCtrl); BSL_UIO_SetMethod(meth, BSL_UIO_CREATE_CB, (void *)uioCreate);
    BSL_UIO *u = BSL_UIO_New(meth); if (!u) pbt::fail("tls-uio", "BSL_UIO_New failed"); BSL_UIO_SetUserData(u, this); BSL_UIO_SetIsUnderlyingClosedByUio(u, false); int32_t r = HITLS_SetUio(ctx, u); BSL_UIO_Free(u); must(r, "SetUio"); if (s.dgram() && s.mtu) HITLS_SetMtu(ctx, s.mtu);
}
struct Link {
    Pipe a2b, b2a; Peer c, s; uint64_t moved() const { return a2b.total + b2a.total + (uint64_t)a2b.off + (uint64_t)b2a.off; }
    void open(const Side &cs, const Side &ss) { c.setup(cs); s.setup(ss); reopen(); }
    void reopen() { for (auto pr : {std::make_pair(&c, &s), std::make_pair(&s, &c)}) { uint64_t m = 16384; if (pr.first->s.maxFrag) m = std::min<uint64_t>(m, pr.first->s.maxFrag); if (pr.second->s.rsl) m = std::min<uint64_t>(m, pr.second->s.rsl - 1u); if (pr.first->s.rsl) m = std::min<uint64_t>(m, pr.first->s.rsl - 1u); pr.first->recMax = m; } c.open(&b2a, &a2b); s.open(&a2b, &b2a); }
    void fresh() { a2b = Pipe(); b2a = Pipe(); reopen(); }
    void sched(G &g) { for (Sched *x : {&c.rd, &c.wr, &s.rd, &s.wr}) { x->mode = (int)g.weighted({3, 1, 1}); x->rng = g.draw(UINT32_MAX); x->maxChunk = g.pick<size_t>({1, 7, 100, 2000}); } }
    // run until both sides stop making progress
    void handshake(int maxIdle = 40) { uint64_t last = ~0ull; int idle = 0, rounds = 0; while (rounds++ < 60000 && !((c.done || c.dead) && (s.done || s.dead)) && idle < maxIdle) { c.step(); s.step(); if (c.dead) a2b.eof = true; if (s.dead) b2a.eof = true; /* the application closes a failed connection */ uint64_t m = moved() * 4 + (c.done || c.dead) + 2 * (s.done || s.dead); if (m == last && (a2b.q.empty() || s.dead) && (b2a.q.empty() || c.dead)) idle++; else idle = 0; last = m; if (c.dead && !s.dead && a2b.empty() && idle > 5) break; if (s.dead && !c.dead && b2a.empty() && idle > 5) break; } }
    bool ok() const { return c.done && s.done; }
};
// ---- reading and writing application data; both return 0 on a retryable result
inline int32_t wr(Peer &p, const Bytes &b, uint32_t *n) { Exact e(b); *n = 0; return HITLS_Write(p.ctx, e.p, (uint32_t)e.n, n); }
inline int32_t rd(Peer &p, size_t cap, Bytes &out) { Exact e(cap); uint32_t n = 0; int32_t r = HITLS_Read(p.ctx, e.p, (uint32_t)cap, &n); out.clear(); if (r == HITLS_SUCCESS) { if (n > cap) pbt::fail("tls-read-len", "read length %u beyond the buffer %zu", n, cap); out.assign(e.p, e.p + n); } return r; }
inline Bytes exporter(Peer &p, const std::string &label, const Bytes &ctx, bool useCtx, size_t n) { Exact o(n); int32_t r = HITLS_ExportKeyingMaterial(p.ctx, o.p, n, label.c_str(), label.size(), ctx.data(), ctx.size(), useCtx); if (r) pbt::fail("tls-export", "exporter %s", rc(r).c_str()); return o.vec(); }
inline uint16_t version(Peer &p) { uint16_t v = 0; HITLS_GetNegotiatedVersion(p.ctx, &v); return v; }
inline uint16_t curSuite(Peer &p) { uint16_t v = 0; const HITLS_Cipher *c = HITLS_GetCurrentCipher(p.ctx); if (c) HITLS_CFG_GetCipherSuite(c, &v); return v; }
inline uint16_t group(Peer &p) { uint16_t v = 0; HITLS_GetNegotiateGroup(p.ctx, &v); return v; }
inline std::string alpn(Peer &p) { uint8_t *q = nullptr; uint32_t n = 0; if (HITLS_GetSelectedAlpnProto(p.ctx, &q, &n) || !q) return ""; return std::string((char *)q, n); }
inline void logFix(uint32_t id, uint32_t, uint32_t, void *f, void *a, void *b, void *c, void *d) { fprintf(stderr, "[log %u] ", id); fprintf(stderr, (const char *)f, (unsigned long)a, (unsigned long)b, (unsigned long)c, (unsigned long)d); fputc('\n', stderr); }
inline void logVar(uint32_t id, uint32_t, uint32_t, void *f, void *p) { fprintf(stderr, "[log %u] %s %s\n", id, (const char *)f, (const char *)p); }
inline void tlsInit(bool sm = true) { BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); HITLS_CertMethodInit(); HITLS_CryptMethodInit(); pki().make(sm); if (getenv("TLSLOG")) { BSL_LOG_BinLogFuncs f = {logFix, logVar}; BSL_LOG_RegBinLogFunc(&f); BSL_LOG_SetBinLogLevel(BSL_LOG_LEVEL_ERR); } }
}  // namespace tls
