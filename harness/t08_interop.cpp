// T08: interoperability with an independent implementation (OpenSSL), in both roles.
#include "tlsgen.hpp"
#include <openssl/ssl.h>
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a pair of configurations (TLS 1.2/1.3 or DTLS 1.2, suites, groups, signature schemes, certificates, client authentication, PSK, ALPN, SNI, EtM, padding, middlebox mode, I/O schedule), one run by openHiTLS and the other by OpenSSL 3, in a generated role. The model says whether the handshake must complete; when it does, version, suite, group, ALPN, SNI, peer certificates, Finished values, exporters must be the same on both sides; then data in both directions, key updates from either side, resumption, and orderly close from a generated side. Non-trivial: the handshake completed and data flowed both ways.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0.13 implements the protocols correctly", "system clock lies between 2000 and 2100 (certificate validity)"};
namespace {
struct OPeer { SSL_CTX *cx = nullptr; SSL *s = nullptr; Pipe *in = nullptr, *out = nullptr; bool server = false, dgram = false, done = false, dead = false; Side side; Sched rd, wr; std::string sniSeen; unsigned long err = 0;
    ~OPeer() { SSL_free(s); SSL_CTX_free(cx); }
    void step() { if (done || dead) return; ERR_clear_error(); int r = SSL_do_handshake(s); if (r == 1) { done = true; return; } int e = SSL_get_error(s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { dead = true; err = ERR_peek_error(); } }
};
int bwrite(BIO *b, const char *p, int n)
{
    OPeer *o = (OPeer *)BIO_get_data(b); BIO_clear_retry_flags(b); if (n <= 0) return 0;
    if (getenv("T08DBG")) { fprintf(stderr, "O> %d:", n); for (int i = 0; i < n && i < 30; i++) fprintf(stderr, "%02x", (uint8_t)p[i]); fputc(10, stderr); }
    if (o->dgram) { o->out->q.push_back(Bytes(p, p + n)); o->out->total += (size_t)n; return n; }
    size_t k = o->wr.step((size_t)n); if (!k) { BIO_set_retry_write(b); return -1; } o->out->put((const uint8_t *)p, k); return (int)k;
}
int bread(BIO *b, char *p, int n)
{
    OPeer *o = (OPeer *)BIO_get_data(b); BIO_clear_retry_flags(b);
    if (getenv("T08DBG") && !o->in->q.empty()) { auto &d = o->in->q.front(); fprintf(stderr, "H> %zu (into %d):", d.size(), n); for (size_t i = 0; i < d.size() && i < 30; i++) fprintf(stderr, "%02x", d[i]); fputc(10, stderr); }
    if (o->dgram) { if (o->in->q.empty()) { BIO_set_retry_read(b); return -1; } Bytes d = o->in->q.front(); o->in->q.pop_front(); size_t k = std::min<size_t>((size_t)n, d.size()); memcpy(p, d.data(), k); o->in->off++; return (int)k; }
    size_t a = o->in->avail(); if (a == 0 && o->in->eof) return 0; size_t k = o->rd.step(std::min<size_t>(a, (size_t)n)); if (!k) { BIO_set_retry_read(b); return -1; } memcpy(p, o->in->buf.data() + o->in->off, k); o->in->off += k; return (int)k;
}
long bctrl(BIO *, int c, long, void *) { switch (c) { case BIO_CTRL_FLUSH: return 1; case BIO_CTRL_DGRAM_QUERY_MTU: case BIO_CTRL_DGRAM_GET_FALLBACK_MTU: return 1400; case BIO_CTRL_DGRAM_GET_MTU_OVERHEAD: return 28; default: return 0; } }
int bcreate(BIO *b) { BIO_set_init(b, 1); return 1; }
BIO_METHOD *meth() { static BIO_METHOD *m = nullptr; if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "pipe"); BIO_meth_set_write(m, bwrite); BIO_meth_set_read(m, bread); BIO_meth_set_ctrl(m, bctrl); BIO_meth_set_create(m, bcreate); } return m; }
OPeer *oOf(SSL *s) { return (OPeer *)SSL_get_app_data(s); }
unsigned oPskCli(SSL *s, const char *, char *id, unsigned idMax, unsigned char *psk, unsigned pskMax) { OPeer *o = oOf(s); if (o->side.pskId.empty() || o->side.pskId.size() + 1 > idMax || o->side.psk.size() > pskMax) return 0; strcpy(id, o->side.pskId.c_str()); memcpy(psk, o->side.psk.data(), o->side.psk.size()); return (unsigned)o->side.psk.size(); }
unsigned oPskSrv(SSL *s, const char *id, unsigned char *psk, unsigned pskMax) { OPeer *o = oOf(s); if (!id || o->side.pskId != id || o->side.psk.size() > pskMax) return 0; memcpy(psk, o->side.psk.data(), o->side.psk.size()); return (unsigned)o->side.psk.size(); }
int oAlpn(SSL *s, const unsigned char **out, unsigned char *ol, const unsigned char *in, unsigned il, void *) { OPeer *o = oOf(s); for (auto &a : o->side.alpn) for (unsigned i = 0; i < il; i += 1u + in[i]) if (in[i] == a.size() && !memcmp(in + i + 1, a.data(), a.size())) { *out = in + i + 1; *ol = in[i]; return SSL_TLSEXT_ERR_OK; } return o->side.alpnStrict ? SSL_TLSEXT_ERR_ALERT_FATAL : SSL_TLSEXT_ERR_NOACK; }
int oSni(SSL *s, int *, void *) { const char *n = SSL_get_servername(s, TLSEXT_NAMETYPE_host_name); if (n) oOf(s)->sniSeen = n; return SSL_TLSEXT_ERR_OK; }
int ockGen(SSL *, unsigned char *b, unsigned *n) { memset(b, 0x55, 16); *n = 16; return 1; } int ockVer(SSL *, const unsigned char *b, unsigned n) { for (unsigned i = 0; i < n; i++) if (b[i] != 0x55) return 0; return n == 16; }
int nidOf(uint16_t g) { switch (g) { case 23: return NID_X9_62_prime256v1; case 24: return NID_secp384r1; case 25: return NID_secp521r1; case 29: return NID_X25519; case 26: return NID_brainpoolP256r1; case 27: return NID_brainpoolP384r1; case 28: return NID_brainpoolP512r1; case 256: return NID_ffdhe2048; case 257: return NID_ffdhe3072; default: return 0; } }
const char *sigName(uint16_t s) { switch (s) { case 0x0403: return "ecdsa_secp256r1_sha256"; case 0x0503: return "ecdsa_secp384r1_sha384"; case 0x0603: return "ecdsa_secp521r1_sha512"; case 0x0804: return "rsa_pss_rsae_sha256"; case 0x0805: return "rsa_pss_rsae_sha384"; case 0x0806: return "rsa_pss_rsae_sha512"; case 0x0809: return "rsa_pss_pss_sha256"; case 0x080a: return "rsa_pss_pss_sha384"; case 0x080b: return "rsa_pss_pss_sha512"; case 0x0401: return "rsa_pkcs1_sha256"; case 0x0501: return "rsa_pkcs1_sha384"; case 0x0601: return "rsa_pkcs1_sha512"; case 0x0807: return "ed25519"; default: return nullptr; } }
// suites OpenSSL knows, in the given order
bool knows(uint16_t id) { static std::map<uint16_t, bool> m; auto it = m.find(id); if (it != m.end()) return it->second; SSL_CTX *c = SSL_CTX_new(TLS_method()); SSL_CTX_set_security_level(c, 0); const char *n = suite(id)->name; bool k = *n && (suite(id)->kx == KX13 ? SSL_CTX_set_ciphersuites(c, n) == 1 : SSL_CTX_set_cipher_list(c, n) == 1); if (k) { bool f = false; STACK_OF(SSL_CIPHER) *st = SSL_CTX_get_ciphers(c); for (int i = 0; i < sk_SSL_CIPHER_num(st); i++) f |= (SSL_CIPHER_get_id(sk_SSL_CIPHER_value(st, i)) & 0xffff) == id; k = f; } SSL_CTX_free(c); ERR_clear_error(); return m[id] = k; }
void need(bool ok, const char *what) { if (!ok) { ERR_print_errors_fp(stderr); pbt::fail("t08-openssl-config", "OpenSSL refused %s", what); } }
void oSetup(G &g, OPeer &o, const Side &d)
{
    o.side = d; o.server = d.server; o.dgram = d.dgram(); SSL_CTX *c = o.cx = SSL_CTX_new(o.dgram ? DTLS_method() : TLS_method()); need(c, "ctx");
    auto ver = [&](uint16_t v) { return (int)v; }; need(SSL_CTX_set_min_proto_version(c, ver(d.vmin)) && SSL_CTX_set_max_proto_version(c, ver(d.vmax)), "versions"); SSL_CTX_set_security_level(c, d.security == 0 ? 0 : 1);
    std::string l12, l13; for (auto id : d.suites) { std::string &l = suite(id)->kx == KX13 ? l13 : l12; if (!l.empty()) l += ":"; l += suite(id)->name; } need(SSL_CTX_set_ciphersuites(c, l13.c_str()), "1.3 suites"); if (l12.empty()) l12 = "ECDHE-ECDSA-AES128-GCM-SHA256"; need(SSL_CTX_set_cipher_list(c, l12.c_str()), "1.2 suites");
    std::vector<int> gr; for (auto v : d.groups) if (nidOf(v)) gr.push_back(nidOf(v)); need(SSL_CTX_set1_groups(c, gr.data(), (long)gr.size()), "groups");
    std::string sg; for (auto v : d.sigs) if (sigName(v)) { if (!sg.empty()) sg += ":"; sg += sigName(v); } if (!sg.empty()) need(SSL_CTX_set1_sigalgs_list(c, sg.c_str()), "sigalgs");
    X509_STORE *st = SSL_CTX_get_cert_store(c); X509_STORE_add_cert(st, pki().root); 
    for (KType t : d.certs) { Id &i = d.server ? pki().srv[t] : pki().cli[t]; need(SSL_CTX_use_certificate(c, i.x) == 1, "certificate"); need(SSL_CTX_use_PrivateKey(c, i.pk) == 1, "key"); X509_up_ref(pki().inter); SSL_CTX_add0_chain_cert(c, pki().inter); }
    SSL_CTX_set_verify(c, d.server ? (d.verifyPeer ? SSL_VERIFY_PEER | (d.optionalCert ? 0 : SSL_VERIFY_FAIL_IF_NO_PEER_CERT) : SSL_VERIFY_NONE) : (d.verifyPeer ? SSL_VERIFY_PEER : SSL_VERIFY_NONE), nullptr);
    uint64_t op = 0; if (!d.tickets) op |= SSL_OP_NO_TICKET; if (!d.etm) op |= SSL_OP_NO_ENCRYPT_THEN_MAC; if (d.serverPref) op |= SSL_OP_CIPHER_SERVER_PREFERENCE; if (d.cookie) op |= SSL_OP_COOKIE_EXCHANGE; SSL_CTX_set_options(c, op); if (!d.middlebox) SSL_CTX_clear_options(c, SSL_OP_ENABLE_MIDDLEBOX_COMPAT);
    SSL_CTX_set_dh_auto(c, 1); SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); SSL_CTX_set_session_id_context(c, (const uint8_t *)"t08", 3); SSL_CTX_set_cookie_generate_cb(c, ockGen); SSL_CTX_set_cookie_verify_cb(c, ockVer);
    SSL_CTX_set_session_cache_mode(c, d.server ? SSL_SESS_CACHE_SERVER : SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL); if (d.pad) SSL_CTX_set_block_padding(c, (size_t)g.pick<int>({1, 16, 512})); if (d.maxFrag) SSL_CTX_set_max_send_fragment(c, std::max<long>(512, d.maxFrag));
    if (!d.psk.empty()) { if (d.server) SSL_CTX_set_psk_server_callback(c, oPskSrv); else SSL_CTX_set_psk_client_callback(c, oPskCli); }
    if (!d.alpn.empty()) { if (d.server) SSL_CTX_set_alpn_select_cb(c, oAlpn, nullptr); else { Bytes l; for (auto &a : d.alpn) { l.push_back((uint8_t)a.size()); l.insert(l.end(), a.begin(), a.end()); } SSL_CTX_set_alpn_protos(c, l.data(), (unsigned)l.size()); } }
    if (d.server) SSL_CTX_set_tlsext_servername_callback(c, oSni); if (d.server) SSL_CTX_set_num_tickets(c, d.ticketNum);
}
void oOpen(OPeer &o, Pipe *in, Pipe *out)
{
    SSL_free(o.s); o.done = o.dead = false; o.in = in; o.out = out; o.s = SSL_new(o.cx); SSL_set_app_data(o.s, &o); BIO *b = BIO_new(meth()); BIO_set_data(b, &o); SSL_set_bio(o.s, b, b);
    if (o.server) SSL_set_accept_state(o.s); else { SSL_set_connect_state(o.s); if (!o.side.sni.empty()) SSL_set_tlsext_host_name(o.s, o.side.sni.c_str()); } if (o.dgram) { SSL_set_options(o.s, SSL_OP_NO_QUERY_MTU); SSL_set_mtu(o.s, 1400); }
}
struct Duo {
    Pipe c2s, s2c; Peer h; OPeer o; bool hs;   // hs: openHiTLS is the server
    void open() { c2s = Pipe(); s2c = Pipe(); h.open(hs ? &c2s : &s2c, hs ? &s2c : &c2s); oOpen(o, hs ? &s2c : &c2s, hs ? &c2s : &s2c); }
    uint64_t moved() const { return c2s.total + s2c.total + c2s.off + s2c.off + c2s.q.size() * 7 + s2c.q.size() * 11; }
    void handshake() { uint64_t last = ~0ull; int idle = 0; for (int i = 0; i < 60000 && idle < 40 && !((h.done || h.dead) && (o.done || o.dead)); i++) { h.step(); o.step(); if (h.dead) h.out->eof = true; if (o.dead) o.out->eof = true; uint64_t m = moved(); idle = m == last ? idle + 1 : 0; last = m; } }
    bool ok() const { return h.done && o.done; }
};
std::string osErr(unsigned long e) { char b[200]; ERR_error_string_n(e, b, sizeof b); return b; }
std::string show(const Side &x) { std::string r = sfmt("v=%04x-%04x suites=", x.vmin, x.vmax); for (auto v : x.suites) r += sfmt("%04x,", v); r += " groups="; for (auto v : x.groups) r += sfmt("%u,", v); r += sfmt(" sigs=%zu certs=", x.sigs.size()); for (auto t : x.certs) r += sfmt("%d,", t); r += sfmt(" vfy=%d opt=%d tick=%d etm=%d ems=%d psk=%zu sec=%d rsl=%u frag=%u", x.verifyPeer, x.optionalCert, x.tickets, x.etm, x.ems, x.psk.size(), x.security, x.rsl, x.maxFrag); return r; }
// data from one side to the other; a: openHiTLS sends
void send(G &g, Duo &d, bool fromH, size_t n, const std::string &cfg)
{
    Bytes m = g.bytes(n), got; size_t off = 0; Exact e(m); Peer &h = d.h; OPeer &o = d.o; int32_t hr = 0; int oe = 0;
    for (int i = 0; i < 40000 && (got.size() < n || off < n); i++) {
        if (off < n) {
            if (fromH) { uint32_t k = 0; hr = HITLS_Write(h.ctx, e.p + off, (uint32_t)(n - off), &k); if (hr == HITLS_SUCCESS) off += k; else if (!Peer::retry(hr)) pbt::fail("t08-write", "HITLS_Write %s | %s", rc(hr).c_str(), cfg.c_str()); }
            else { ERR_clear_error(); int r = SSL_write(o.s, e.p + off, (int)(n - off)); if (r > 0) off += (size_t)r; else { oe = SSL_get_error(o.s, r); CHECK(oe == SSL_ERROR_WANT_READ || oe == SSL_ERROR_WANT_WRITE, "t08-owrite", "SSL_write %d %s | %s", oe, osErr(ERR_peek_error()).c_str(), cfg.c_str()); } }
        }
        if (fromH) { uint8_t b[5000]; ERR_clear_error(); int r = SSL_read(o.s, b, sizeof b); if (r > 0) got.insert(got.end(), b, b + r); else { oe = SSL_get_error(o.s, r); CHECK(oe == SSL_ERROR_WANT_READ || oe == SSL_ERROR_WANT_WRITE, "t08-oread", "SSL_read %d %s | %s", oe, osErr(ERR_peek_error()).c_str(), cfg.c_str()); } }
        else { Bytes p; int32_t r = rd(h, 5000, p); if (r == HITLS_SUCCESS) got.insert(got.end(), p.begin(), p.end()); else CHECK(Peer::retry(r), "t08-read", "HITLS_Read %s | %s", rc(r).c_str(), cfg.c_str()); }
        // the sender also reads now and then, so that key updates, tickets and the like are processed
        if (fromH) { Bytes p; int32_t r = rd(h, 100, p); CHECK(p.empty() && (r == HITLS_SUCCESS || Peer::retry(r)), "t08-read2", "HITLS_Read %s, %zu bytes nobody sent | %s", rc(r).c_str(), p.size(), cfg.c_str()); }
        else { uint8_t b[100]; ERR_clear_error(); int r = SSL_read(o.s, b, sizeof b); oe = SSL_get_error(o.s, r); CHECK(r <= 0 && (oe == SSL_ERROR_WANT_READ || oe == SSL_ERROR_WANT_WRITE), "t08-oread2", "SSL_read %d: %d %s | %s", r, oe, osErr(ERR_peek_error()).c_str(), cfg.c_str()); }
    }
    CHECK(got == m, "t08-data", "%zu bytes sent by %s, %zu received%s | %s", n, fromH ? "openHiTLS" : "OpenSSL", got.size(), got.size() == n ? " with other contents" : "", cfg.c_str());
}
void agree(G &g, Duo &d, const Side &cs, const Side &ss, const std::string &cfg, bool resumed)
{
    Peer &h = d.h; SSL *s = d.o.s; uint16_t v = version(h); CHECK(v == (uint16_t)SSL_version(s), "t08-version", "openHiTLS %04x OpenSSL %04x", v, SSL_version(s)); CHECK(v == expectVersion(cs, ss), "t08-version-max", "negotiated %04x | %s", v, cfg.c_str());
    uint16_t su = curSuite(h), os = (uint16_t)(SSL_CIPHER_get_id(SSL_get_current_cipher(s)) & 0xffff); CHECK(su == os, "t08-suite", "openHiTLS %04x OpenSSL %04x | %s", su, os, cfg.c_str()); bool is13 = v13(v); const Suite *u = suite(su);
    if ((is13 || isEcdheKx(u->kx)) && !resumed) { int og = (int)SSL_get_negotiated_group(s); uint16_t hg = group(h); CHECK(hg == 0 || nidOf(hg) == (og & 0xffffff) || (og & 0x1000000) != 0, "t08-group", "openHiTLS %u OpenSSL nid %d | %s", hg, og, cfg.c_str()); }
    const uint8_t *ap = nullptr; unsigned an = 0; SSL_get0_alpn_selected(s, &ap, &an); std::string oa(ap ? (const char *)ap : "", an); CHECK(alpn(h) == oa, "t08-alpn", "openHiTLS '%s' OpenSSL '%s' | %s", alpn(h).c_str(), oa.c_str(), cfg.c_str());
    if (!resumed) CHECK((d.hs ? h.sniSeen : d.o.sniSeen) == cs.sni, "t08-sni", "server saw '%s', client sent '%s'", (d.hs ? h.sniSeen : d.o.sniSeen).c_str(), cs.sni.c_str());
    if (!is13) { uint8_t a[64], b[64]; uint32_t n1 = 0, n2 = 0; CHECK(!HITLS_GetFinishVerifyData(h.ctx, a, 64, &n1), "t08-fin", "no Finished value"); size_t m1 = SSL_get_peer_finished(s, b, 64); CHECK(n1 == m1 && !memcmp(a, b, n1), "t08-finished", "openHiTLS's Finished differs as seen by OpenSSL (%u, %zu) %02x%02x %02x%02x | %s", n1, m1, a[0], a[1], b[0], b[1], cfg.c_str());
    CHECK(!HITLS_GetPeerFinishVerifyData(h.ctx, a, 64, &n2), "t08-fin2", "no peer Finished value"); size_t m2 = SSL_get_finished(s, b, 64); CHECK(n2 == m2 && !memcmp(a, b, n2), "t08-finished2", "OpenSSL's Finished differs as seen by openHiTLS"); }
    Bytes ctx = g.bytes(g.pick<size_t>({0, 1, 32})); bool uc = g.boolean(); size_t n = g.pick<size_t>({32, 1, 16, 64, 200}); std::string lab = "EXPORTER-t08"; Bytes e1 = exporter(h, lab, ctx, uc, n), e2(n); need(SSL_export_keying_material(s, e2.data(), n, lab.data(), lab.size(), ctx.data(), ctx.size(), uc) == 1, "export"); CHECK(e1 == e2, "t08-exporter", "exported keying material differs | %s", cfg.c_str());
    bool re = false; HITLS_IsSessionReused(h.ctx, &re); CHECK((is13 && !cs.psk.empty() && !ss.psk.empty()) || re == (SSL_session_reused(s) == 1), "t08-reused", "openHiTLS says reused=%d, OpenSSL %d | %s", re, SSL_session_reused(s), cfg.c_str());
    if (!resumed) {
        // OpenSSL sees one of openHiTLS's configured leaves (when openHiTLS authenticated), and the other way round
        X509 *pc = SSL_get0_peer_certificate(s); const Side &hd = d.hs ? ss : cs; if (pc) { Bytes pd = opki::der(pc); bool f = false; for (KType t : hd.certs) f |= (d.hs ? pki().srv[t] : pki().cli[t]).cert == pd; CHECK(f, "t08-peercert", "OpenSSL received a certificate openHiTLS was not configured with"); }
        HITLS_CERT_X509 *hc = HITLS_GetPeerCertificate(h.ctx); const Side &od = d.hs ? cs : ss; if (hc) { uint8_t *p = nullptr; uint32_t len = 0; HITLS_X509_CertCtrl((HITLS_X509_Cert *)hc, HITLS_X509_GET_ENCODELEN, &len, sizeof len); HITLS_X509_CertCtrl((HITLS_X509_Cert *)hc, HITLS_X509_GET_ENCODE, &p, 0); Bytes pd(p, p + len); bool f = false; for (KType t : od.certs) f |= (d.hs ? pki().cli[t] : pki().srv[t]).cert == pd; CHECK(f, "t08-peercert2", "openHiTLS received a certificate OpenSSL was not configured with"); HITLS_X509_CertFree((HITLS_X509_Cert *)hc); }
        CHECK(!pc == !(d.hs ? !(is13 ? !isPskKx(u->kx) && cs.psk.empty() : (u->kx == KXDHE || u->kx == KXECDHE || u->kx == KXRSA || u->kx == KXRSAPSK)) : false) || !cs.psk.empty() || !d.hs || pc || isPskKx(u->kx) || anonKx(u->kx), "t08-nopeercert", "no certificate from the openHiTLS server");
    }
}
// Local rules of OpenSSL that the model does not know; no claim is made there.
bool quirk(const Side &c, const Side &s, bool)
{
    if (c.dgram()) for (KType t : {KPSS, KED}) if (has(s.certs, t) || has(c.certs, t)) return true;   // no RSA-PSS and Ed25519 certificates in DTLS 1.2
    if (!v13(expectVersion(c, s)) && s.verifyPeer) for (KType t : c.certs) if (curveOf(t) && (!has(s.groups, curveOf(t)) || !has(c.groups, curveOf(t)))) return true;   // refuses client keys on curves not shared
    return false;
}
}  // namespace
void pbt::setup() { tlsInit(false); knows(0x1301); }
PBT_TEST(interop, 1500, 50000, 0, 30)
{
    seedRand(g); detOssl(g.draw(UINT64_MAX)); Side cs, ss; GenOpt o; o.allowTlcp = false; o.nice = !g.chance(1, 6); genPair(g, cs, ss, o); Duo d; d.hs = g.boolean(); Side &hd = d.hs ? ss : cs, &od = d.hs ? cs : ss;
    // what OpenSSL does not have
    if (od.proto == DTLS) { od.vmin = od.vmax = 0xfefd; if (hd.vmin == hd.vmax && o.nice) hd.vmin = hd.vmax = 0xfefd; }
    { std::vector<uint16_t> l; for (auto x : od.suites) if (knows(x)) l.push_back(x); if (l.empty()) discard(); od.suites = l; } { std::vector<uint16_t> l; for (auto x : od.groups) if (nidOf(x)) l.push_back(x); if (l.empty()) l.push_back(23); od.groups = l; if (common(cs.groups, ss.groups).empty() && o.nice) hd.groups.push_back(l[0]); }
    od.ems = 0; if (hd.ems == -1) hd.ems = 0; od.rsl = 0; od.renego = false; cs.mtu = ss.mtu = 0; if (od.server && od.proto == DTLS) od.cookie = false; if (!hd.psk.empty() || !od.psk.empty()) g.label("psk");
    for (Side *x : {&cs, &ss}) for (auto id : x->suites) if (weak(id) || anonKx(suite(id)->kx)) cs.security = ss.security = 0;   // a suite below the security level is offered but then refused
    d.h.setup(hd); d.h.recMax = hd.maxFrag ? hd.maxFrag : 16384; oSetup(g, d.o, od); for (Sched *x : {&d.h.rd, &d.h.wr, &d.o.rd, &d.o.wr}) { x->mode = (int)g.weighted({3, 1, 1}); x->rng = g.draw(UINT32_MAX); x->maxChunk = g.pick<size_t>({1, 7, 100, 2000}); }
    std::string cfg = sfmt("openHiTLS is the %s C[", d.hs ? "server" : "client") + show(cs) + "] S[" + show(ss) + "]"; d.open(); d.handshake(); Verdict m = model(cs, ss); if (m == OK && quirk(cs, ss, d.hs)) m = EITHER; g.note("%s", cfg.c_str());
    if (!d.ok()) { CHECK(m != OK, "t08-failed", "handshake failed (openHiTLS done=%d %s, OpenSSL done=%d %s) | %s", d.h.done, rc(d.h.err).c_str(), d.o.done, osErr(d.o.err).c_str(), cfg.c_str()); g.label("failed"); return; }
    CHECK(m != FAIL, "t08-impossible", "a handshake completed although no common parameters exist | %s", cfg.c_str());
    bool is13 = v13(version(d.h)); g.label(sfmt("%04x", version(d.h))); g.label(d.hs ? "server" : "client"); agree(g, d, cs, ss, cfg, false);
    auto traffic = [&] { int ops = (int)g.range(2, 5); for (int i = 0; i < ops; i++) { bool fh = i < 2 ? i == 0 : g.boolean(); size_t cap = od.dgram() ? 400 : 4000; if (is13 && g.chance(1, 3)) { if (g.boolean()) { int32_t r = HITLS_KeyUpdate(d.h.ctx, g.boolean() ? HITLS_UPDATE_REQUESTED : HITLS_UPDATE_NOT_REQUESTED); CHECK(r == HITLS_SUCCESS || Peer::retry(r) || r == HITLS_MSG_HANDLE_STATE_ILLEGAL /* another one is still being sent */, "t08-keyupdate", "HITLS_KeyUpdate %s", rc(r).c_str()); } else SSL_key_update(d.o.s, g.boolean() ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); g.label("key-update"); } send(g, d, fh, 1 + g.len(0, cap), cfg); } };
    traffic(); g.nontrivial(); g.key(cfg);
    auto close = [&](bool byH) {
        if (byH) { int32_t r = 0; for (int i = 0; i < 2000; i++) { r = HITLS_Close(d.h.ctx); if (!Peer::retry(r)) break; } CHECK(r == HITLS_SUCCESS, "t08-close", "HITLS_Close %s", rc(r).c_str()); uint8_t b[10]; int rr = 0, e = 0; for (int i = 0; i < 3000; i++) { ERR_clear_error(); rr = SSL_read(d.o.s, b, 10); e = SSL_get_error(d.o.s, rr); if (rr > 0 || e == SSL_ERROR_ZERO_RETURN || e == SSL_ERROR_SSL || e == SSL_ERROR_SYSCALL) break; } CHECK(rr <= 0 && e == SSL_ERROR_ZERO_RETURN, "t08-close-seen", "OpenSSL saw %d/%d instead of an orderly close | %s", rr, e, cfg.c_str()); }
        else { for (int i = 0; i < 3000; i++) { ERR_clear_error(); int r = SSL_shutdown(d.o.s); if (r >= 0) break; } Bytes p; int32_t r = 0; for (int i = 0; i < 3000; i++) { r = rd(d.h, 10, p); if (!Peer::retry(r)) break; } CHECK(r == HITLS_CM_LINK_CLOSED, "t08-close-seen2", "openHiTLS saw %s instead of an orderly close | %s", rc(r).c_str(), cfg.c_str()); }
    };
    bool byH = g.boolean();
    // resumption of the session just made
    if (g.chance(1, 3)) { close(byH); return; }
    bool canTicket = cs.tickets && ss.tickets && (!is13 || ss.ticketNum > 0); SSL_SESSION *os = nullptr;
    if (d.hs) os = SSL_get1_session(d.o.s); else { HITLS_Session *x = HITLS_GetDupSession(d.h.ctx); if (x) d.h.sessions.push_back(x); }
    close(byH); d.open(); if (d.hs) { if (!os) return; SSL_set_session(d.o.s, os); SSL_SESSION_free(os); } else { if (d.h.sessions.empty()) return; HITLS_SetSession(d.h.ctx, d.h.sessions.back()); }
    d.handshake(); CHECK(d.ok(), "t08-resume-failed", "handshake offering a session failed (openHiTLS done=%d %s, OpenSSL done=%d %s) | %s", d.h.done, rc(d.h.err).c_str(), d.o.done, osErr(d.o.err).c_str(), cfg.c_str());
    bool re = SSL_session_reused(d.o.s); agree(g, d, cs, ss, cfg, re); g.label(re ? "resumed" : "not-resumed"); if (canTicket && cs.psk.empty() && ss.psk.empty() && o.nice && hd.kexMode == 3) { g.label(re ? "ticket-resumed" : "ticket-not-resumed"); }
    traffic(); close(g.boolean());
}
