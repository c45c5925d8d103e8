// T01: peers that complete a handshake agree on everything; negotiation soundness and failure symmetry.
#include "tlsgen.hpp"
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a pair of client/server configurations (protocol TLS/DTLS/TLCP/DTLCP, version ranges, cipher suites, groups, signature schemes, certificates, client authentication, PSK, ALPN, SNI, EMS, EtM, record limits, middlebox mode, flight mode) and an I/O schedule for an in-memory transport; non-trivial when both sides finished a handshake and every negotiated value was compared, or when it failed and both sides reported it.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"system clock lies between 2000 and 2100 (certificate validity)"};
void pbt::setup() { tlsInit(); }
namespace {
std::string show(const Side &x) { std::string r = sfmt("proto=%d v=%04x-%04x suites=", x.proto, x.vmin, x.vmax); for (auto v : x.suites) r += sfmt("%04x,", v); r += " groups="; for (auto v : x.groups) r += sfmt("%u,", v); r += " sigs="; if (x.sigs.size() == 13) r += "all"; else for (auto v : x.sigs) r += sfmt("%04x,", v); r += " certs="; for (auto v : x.certs) r += sfmt("%d,", v); r += sfmt(" vp=%d opt=%d ems=%d etm=%d tk=%d psk=%zu mtu=%d rsl=%d frag=%d kex=%d mb=%d fl=%d ck=%d sp=%d sni=%s pad=%d", x.verifyPeer, x.optionalCert, x.ems, x.etm, x.tickets, x.psk.size(), x.mtu, x.rsl, x.maxFrag, x.kexMode, x.middlebox, x.flight, x.cookie, x.serverPref, x.sni.c_str(), x.pad); return r; }
void agree(G &g, Link &l, const Side &cs, const Side &ss, const std::string &cfg)
{
    uint16_t v = version(l.c); CHECK(v == version(l.s), "t01-version-differs", "client %04x server %04x | %s", v, version(l.s), cfg.c_str()); uint16_t want = expectVersion(cs, ss);
    CHECK(v == want, "t01-version", "negotiated %04x, highest common %04x | %s", v, want, cfg.c_str());
    uint16_t su = curSuite(l.c); CHECK(su == curSuite(l.s), "t01-suite-differs", "client %04x server %04x", su, curSuite(l.s)); CHECK(has(cs.suites, su) && has(ss.suites, su), "t01-suite-not-enabled", "suite %04x was not enabled by both | %s", su, cfg.c_str()); const Suite *u = suite(su); bool is13 = v13(v); CHECK(u && (u->kx == KX13) == is13, "t01-suite-version", "suite %04x in version %04x", su, v); g.label(sfmt("v%04x", v)); g.label(sfmt("suite-%04x", su));
    bool sm = v == 0x0101;
    if (is13 || isEcdheKx(u->kx)) { uint16_t a = group(l.c), b = group(l.s); CHECK(a == b, "t01-group-differs", "client %u server %u | %s", a, b, cfg.c_str()); if (a) CHECK(has(groupsOf(cs), a) && has(groupsOf(ss), a), "t01-group-not-enabled", "group %u was not enabled by both | %s", a, cfg.c_str()); g.label(sfmt("group-%u", a)); }
    if (!sm) { HITLS_SignHashAlgo cl = (HITLS_SignHashAlgo)0, cp = cl, sl = cl, sp = cl; HITLS_GetLocalSignScheme(l.c.ctx, &cl); HITLS_GetPeerSignScheme(l.c.ctx, &cp); HITLS_GetLocalSignScheme(l.s.ctx, &sl); HITLS_GetPeerSignScheme(l.s.ctx, &sp);
        bool signs = is13 ? cs.psk.empty() || ss.psk.empty() : (u->kx == KXDHE || u->kx == KXECDHE); if (signs) { CHECK(sl == cp, "t01-sigscheme-differs", "server signed with %04x, client saw %04x | %s", sl, cp, cfg.c_str()); CHECK(has(cs.sigs, (uint16_t)cp) && has(ss.sigs, (uint16_t)sl), "t01-sigscheme-not-enabled", "scheme %04x was not enabled by both | %s", cp, cfg.c_str()); g.label(sfmt("sig-%04x", cp)); if (ss.verifyPeer && !cs.certs.empty() && sp) CHECK(cl == sp && has(ss.sigs, (uint16_t)sp), "t01-client-sigscheme", "client signed with %04x, server saw %04x | %s", cl, sp, cfg.c_str()); } }
    std::string ac = alpn(l.c), as = alpn(l.s), aw; if (!cs.alpn.empty() && !ss.alpn.empty()) for (auto &x : ss.alpn) if (has(cs.alpn, x)) { aw = x; break; } CHECK(ac == as && ac == aw, "t01-alpn", "client '%s' server '%s' expected '%s'", ac.c_str(), as.c_str(), aw.c_str());
    CHECK(l.s.sniSeen == cs.sni, "t01-sni", "server saw name '%s', client sent '%s'", l.s.sniSeen.c_str(), cs.sni.c_str());
    for (auto pr : {std::make_pair(&l.c, &l.s), std::make_pair(&l.s, &l.c)}) { uint8_t a[64], b[64]; uint32_t an = 0, bn = 0; int32_t r1 = HITLS_GetFinishVerifyData(pr.first->ctx, a, 64, &an), r2 = HITLS_GetPeerFinishVerifyData(pr.second->ctx, b, 64, &bn); CHECK(!r1 && !r2 && an == bn && (is13 || an >= 12) && !memcmp(a, b, an), "t01-finished", "Finished values differ (%u %u)", an, bn); }
    bool rc1 = true, rs1 = true; HITLS_IsSessionReused(l.c.ctx, &rc1); HITLS_IsSessionReused(l.s.ctx, &rs1); CHECK(rc1 == rs1, "t01-reused", "client reused=%d server reused=%d", rc1, rs1);
    uint8_t r1[32], r2[32]; uint32_t n1 = 32, n2 = 32; for (bool cl : {true, false}) if (!HITLS_GetHsRandom(l.c.ctx, r1, &n1, cl) && !HITLS_GetHsRandom(l.s.ctx, r2, &n2, cl)) CHECK(n1 == n2 && !memcmp(r1, r2, n1), "t01-random", "hello randoms differ");
    Bytes ctx = g.bytes(g.pick<size_t>({0, 1, 32})); bool uc = g.boolean(); size_t n = g.pick<size_t>({32, 1, 16, 64, 200}); std::string lab = g.pick<std::string>({"EXPORTER-test", "EXPERIMENTAL x", "EXPORTER_DTLS"}); if (is13 && n > 255u * 32) n = 32;
    Bytes e1 = exporter(l.c, lab, ctx, uc, n), e2 = exporter(l.s, lab, ctx, uc, n); CHECK(e1 == e2, "t01-exporter", "exported keying material differs"); if (n >= 16) CHECK(exporter(l.c, lab + "2", ctx, uc, n) != e1, "t01-exporter-label", "another label gives the same exporter output");
    HITLS_CERT_X509 *pc = HITLS_GetPeerCertificate(l.c.ctx); if (!sm && !isPskKx(u->kx) && !anonKx(u->kx) && u->kx != KX13) CHECK(pc, "t01-nopeercert", "no peer certificate");
    HITLS_Session *x = HITLS_GetDupSession(l.c.ctx), *y = HITLS_GetDupSession(l.s.ctx); if (x && y) { l.c.sessions.push_back(x); l.s.sessions.push_back(y); uint8_t k1[64], k2[64]; uint32_t a = 64, b = 64; if (!is13 && !HITLS_SESS_GetMasterKey(x, k1, &a) && !HITLS_SESS_GetMasterKey(y, k2, &b)) CHECK(a == b && !memcmp(k1, k2, a), "t01-master", "master secrets differ"); bool m1 = false, m2 = false; if (!is13 && !HITLS_SESS_GetHaveExtMasterSecret(x, &m1) && !HITLS_SESS_GetHaveExtMasterSecret(y, &m2)) { CHECK(m1 == m2, "t01-ems", "extended master secret differs"); if (!sm) { bool we = cs.ems >= 0 && ss.ems >= 0; CHECK(m1 == we, "t01-ems-value", "EMS %d with modes %d %d", m1, cs.ems, ss.ems); } } } else { if (x) HITLS_SESS_Free(x); if (y) HITLS_SESS_Free(y); }
}
// one message each way, with retries over the schedule
void exchange(G &g, Link &l, const std::string &cfg)
{
    for (int dir = 0; dir < 2; dir++) { Peer &a = dir ? l.s : l.c, &b = dir ? l.c : l.s; Bytes m = g.bytes(a.s.dgram() ? 1 + g.len(0, 180) : 1 + g.len(0, 400)); Bytes got, part; size_t off = 0; int32_t r = 0; Exact mb(m); for (int i = 0; i < 20000 && got.size() < m.size(); i++) { if (off < m.size()) { uint32_t n = 0; r = HITLS_Write(a.ctx, mb.p + off, (uint32_t)(m.size() - off), &n); if (r == HITLS_SUCCESS) off += n; else CHECK(Peer::retry(r), "t01-write", "write after the handshake: %s | %s", rc(r).c_str(), cfg.c_str()); } r = rd(b, 4096, part); if (r == HITLS_SUCCESS) got.insert(got.end(), part.begin(), part.end()); else CHECK(Peer::retry(r), "t01-read", "read after the handshake: %s | %s", rc(r).c_str(), cfg.c_str()); } CHECK(got == m, "t01-data", "data differs: sent %zu got %zu | %s", m.size(), got.size(), cfg.c_str()); }
}
}  // namespace
PBT_TEST(agreement, 1900, 60000, 0, 30)
{
    seedRand(g); Side cs, ss; genPair(g, cs, ss); Link l; l.c.setup(cs); l.s.setup(ss); l.sched(g); l.reopen(); std::string cfg = "C[" + show(cs) + "] S[" + show(ss) + "]"; l.handshake();
    Verdict m = model(cs, ss); g.note("%s -> c.done=%d s.done=%d", cfg.c_str(), l.c.done, l.s.done);
    if (l.ok()) { CHECK(m != FAIL, "t01-impossible", "a handshake completed although no common parameters exist | %s", cfg.c_str()); agree(g, l, cs, ss, cfg); exchange(g, l, cfg); g.label("completed"); g.nontrivial(); return; }
    CHECK(m != OK, "t01-failed", "handshake failed (client %s server %s) although common parameters exist | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfg.c_str());
    if (!l.c.dead && !l.s.dead && cs.dgram() && !cs.psk.empty() && !pskOk(cs, ss)) { g.label("dtls-psk-mismatch"); g.nontrivial(); return; }   // undecryptable Finished records are dropped silently
    CHECK(l.c.dead || l.s.dead, "t01-stuck", "handshake made no progress and no error (client done=%d server done=%d) | %s", l.c.done, l.s.done, cfg.c_str());
    if (cs.dgram()) { g.label("failed-dtls"); g.nontrivial(); return; }
    for (auto pr : {std::make_pair(&l.c, &l.s), std::make_pair(&l.s, &l.c)}) { Peer &a = *pr.first, &b = *pr.second; if (!a.done) { CHECK(a.dead, "t01-asym", "%s still waits although the other failed with %s | %s", a.s.server ? "server" : "client", rc(b.err).c_str(), cfg.c_str()); continue; }
        // this side had finished before the other one failed: it must learn of it when it reads
        CHECK(!a.s.server, "t01-server-done", "server finished, client failed with %s | %s", rc(b.err).c_str(), cfg.c_str()); Bytes p; int32_t r = 0; for (int i = 0; i < 3000; i++) { r = rd(a, 1000, p); if (!Peer::retry(r)) break; } CHECK(r != HITLS_SUCCESS && !Peer::retry(r), "t01-unaware", "one side failed with %s, the other does not notice (%s) | %s", rc(b.err).c_str(), rc(r).c_str(), cfg.c_str()); g.label("late-failure"); }
    g.label("failed"); g.nontrivial();
}
