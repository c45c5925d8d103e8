// T07: sessions resume only when genuine, matching and unexpired
#include "tlsgen.hpp"
using namespace tls;
extern "C" { int64_t __real_BSL_SAL_CurrentSysTimeGet(void); int64_t __wrap_BSL_SAL_CurrentSysTimeGet(void); int32_t SESS_GetTicket(const HITLS_Session *s, uint8_t **t, uint32_t *n) __attribute__((weak)); }
static int64_t vnow = 0;
int64_t __wrap_BSL_SAL_CurrentSysTimeGet(void) { return vnow ? vnow : __real_BSL_SAL_CurrentSysTimeGet(); }
const char *pbt::PROPERTY_RULE =
    "A history of 3-10 connections over a generated configuration (TLS 1.2/1.3, TLCP, DTLS; tickets, session cache or both) between one client and one of two servers (same or different ticket keys, different caches) under a virtual clock: each connection offers a stored session or none, "
    "after none or some of: clock advanced around the timeout, session altered (ticket bits, truncated state, swapped ticket, master key, suite, version, EMS flag, session id), ticket keys rotated wholly or in part, other server, suites/version/server name/EMS mode/session-id context changed, session exported and imported. "
    "The oracle tracks who issued what when and under which parameters: a connection may report a resumed session only when allowed, must when nothing differs, and otherwise completes fully or fails; both ends must agree on reuse, keys and identity; every connection's exported keys are distinct. Non-trivial: a stored session was offered.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the server's clock is BSL_SAL_CurrentSysTimeGet (virtual here)", "a suite the server no longer enables, or a TLS 1.3 server name change, may or may not prevent resumption (not prescribed)", "HITLS_SESS_Encode carries no ticket, so an imported session resumes by session id or not at all"};
void pbt::setup() { tlsInit(true); }
namespace {
Bytes tkt(HITLS_Session *s) { uint8_t *p = nullptr; uint32_t n = 0; if (SESS_GetTicket) SESS_GetTicket(s, &p, &n); return Bytes(p, p + n); }
std::string show(const Side &x) { std::string r = sfmt("proto=%d v=%04x-%04x suites=", x.proto, x.vmin, x.vmax); for (auto v : x.suites) r += sfmt("%04x,", v); r += " groups="; for (auto v : x.groups) r += sfmt("%u,", v); r += " sigs="; if (x.sigs.size() == 13) r += "all"; else for (auto v : x.sigs) r += sfmt("%04x,", v); r += " certs="; for (auto v : x.certs) r += sfmt("%d,", v); r += sfmt(" vp=%d opt=%d ems=%d etm=%d tk=%d psk=%zu mtu=%d rsl=%d frag=%d kex=%d mb=%d fl=%d ck=%d sp=%d sni=%s pad=%d", x.verifyPeer, x.optionalCert, x.ems, x.etm, x.tickets, x.psk.size(), x.mtu, x.rsl, x.maxFrag, x.kexMode, x.middlebox, x.flight, x.cookie, x.serverPref, x.sni.c_str(), x.pad); return r; }
struct Srv { HITLS_Config *cfg = nullptr; Bytes tkey; uint64_t timeout = 7200; int gen = 0; };
struct Sess { HITLS_Session *s = nullptr; int srv = 0; Bytes tkey; uint64_t tmin = 0, tmax = 0, timeout = 0; uint16_t ver = 0, suite = 0; bool ems = false, ticket = false, fresh = true, imported = false; std::string sni; Bytes sid; };
struct Store { std::vector<Sess> v; ~Store() { for (auto &x : v) HITLS_SESS_Free(x.s); } };
struct Cfgs { Srv s[2]; Link &l; Cfgs(Link &k) : l(k) {} ~Cfgs() { l.s.freeCtx(); for (auto &x : s) if (x.cfg && x.cfg != l.s.cfg) HITLS_CFG_FreeConfig(x.cfg); } };
Bytes enc(HITLS_Session *s) { uint32_t n = 0; CHECK(HITLS_SESS_Encode(s, nullptr, 0, &n) == HITLS_SUCCESS, "t07-encode", "length query failed"); Exact b((size_t)n); uint32_t u = 0; CHECK(HITLS_SESS_Encode(s, b.p, n, &u) == HITLS_SUCCESS && u == n, "t07-encode", "encoding %u of %u", u, n); return b.vec(); }
bool xfer(G &g, Link &l)
{
    for (int dir = 0; dir < 2; dir++) { Peer &a = dir ? l.c : l.s, &b = dir ? l.s : l.c; Bytes m = g.bytes(1 + g.draw(60)), got, part; size_t off = 0; Exact mb(m); for (int i = 0; i < 60000 && got.size() < m.size(); i++) { uint32_t n = 0; if (off < m.size()) { int32_t r = HITLS_Write(a.ctx, mb.p + off, (uint32_t)(m.size() - off), &n); if (r == HITLS_SUCCESS) off += n; else if (!Peer::retry(r)) { g.note("dir %d write %s", dir, rc(r).c_str()); return false; } } int32_t r = rd(b, 4096, part); if (r == HITLS_SUCCESS) got.insert(got.end(), part.begin(), part.end()); else if (!Peer::retry(r)) { g.note("dir %d read %s", dir, rc(r).c_str()); return false; } } if (got != m) { g.note("dir %d: sent %zu of %zu, got %zu", dir, off, m.size(), got.size()); return false; } }
    return true;
}
const char *OPS[] = {"", "clock", "ticket bit", "ticket cut", "ticket swap", "master", "suite field", "version field", "ems field", "id field", "rotate key", "rotate cipher key", "other server", "client suites", "server suites", "version", "sni", "ems mode", "sid ctx", "import", "clear cache", "remove", "none"};
bool is13(uint16_t v) { return v == 0x0304 || v == 0xfefc; }
}
PBT_TEST(resume, 900, 20000, 0, 60)
{
    seedRand(g); vnow = 1800000000; Side cs, ss; GenOpt o; o.nice = true; o.allowPsk = false; genPair(g, cs, ss, o); cs.renego = ss.renego = false; cs.cookie = ss.cookie = false; cs.pha = ss.pha = false; ss.ticketNum = 1 + (uint32_t)g.draw(2); cs.kexMode = ss.kexMode = 3; bool tick = g.chance(2, 3); cs.tickets = tick || g.chance(1, 4); ss.tickets = tick;
    ss.sidCtx = g.chance(1, 2) ? g.bytes(1 + g.draw(31)) : Bytes(); ss.ticketKey = g.bytes(80); if (g.boolean()) ss.cacheMode = HITLS_SESS_CACHE_SERVER;
    Link l; Cfgs C(l); Store st; l.c.setup(cs); l.s.setup(ss); C.s[0].cfg = l.s.cfg; C.s[0].tkey = ss.ticketKey; bool shared = g.boolean(); Side s1 = ss; if (!shared) { s1.ticketKey = g.bytes(80); if (g.boolean()) std::copy(ss.ticketKey.begin(), ss.ticketKey.begin() + 16, s1.ticketKey.begin()); }
    l.s.cfg = nullptr; l.s.setup(s1); C.s[1].cfg = l.s.cfg; C.s[1].tkey = s1.ticketKey; uint64_t to = g.pick<uint64_t>({1, 10, 7200, 604800}); HITLS_CFG_SetSessionTimeout(l.c.cfg, to); for (auto &x : C.s) { x.timeout = to; HITLS_CFG_SetSessionTimeout(x.cfg, to); }
    std::string cfg = "C[" + show(cs) + "] S[" + show(ss) + "]"; g.note("%s timeout %llu, ticket keys %s", cfg.c_str(), (unsigned long long)to, shared ? "shared" : "different"); std::set<Bytes> exps; int n = (int)g.range(3, 10); l.sched(g);
    for (int i = 0; i < n; i++) {
        int srv = g.chance(1, 6) ? 1 : 0; l.s.cfg = C.s[srv].cfg; l.fresh(); Srv &S = C.s[srv]; Sess *q = nullptr; if (!st.v.empty() && !g.chance(1, 8)) q = &st.v[g.chance(2, 3) ? st.v.size() - 1 : g.draw(st.v.size() - 1)];
        bool mustNot = q == nullptr, must = q != nullptr; std::string why = q ? "" : "nothing offered", sni = cs.sni; Bytes sid = ss.sidCtx; bool dropped = false; std::string did;
        auto no = [&](const char *w) { mustNot = true; why = w; }; auto maybe = [&] { must = false; };
        HITLS_Session *offer = q ? q->s : nullptr; int ops = q ? (int)g.weighted({4, 6, 2}) : 0; Bytes savedTicket; uint8_t *tp = nullptr; uint32_t tn = 0; if (q && SESS_GetTicket) SESS_GetTicket(q->s, &tp, &tn);
        uint64_t now = (uint64_t)vnow; bool clientEms = cs.ems >= 0, serverEms = ss.ems >= 0; HITLS_Session *own = nullptr; bool flipped = false; Bytes orig = q ? tkt(q->s) : Bytes();
        for (int k = 0; k < ops; k++) {
            int op = 1 + (int)g.weighted({5, 3, 1, 1, 2, 1, 1, 1, 1, 1, 1, 0, 2, 1, 1, 2, 2, 2, 1, 1, 1}); if (own && ((op >= 2 && op <= 9))) continue; if (op == 5 && did.find("master") != std::string::npos) continue; did += std::string(did.empty() ? "" : "+") + OPS[op]; bool old = !is13(q->ver);
            switch (op) {
            case 1: vnow += (int64_t)g.pick<uint64_t>({0, 1, to - 1, to, to + 1, to / 2, 3 * to}); break;
            case 2: if (tp && tn) { tp[g.chance(1, 3) ? 16 + g.draw(15) : g.draw(tn - 1)] ^= (uint8_t)(1u << g.draw(7)); dropped = true; flipped = true; } else maybe(); break;
            case 3: maybe(); break;
            case 4: { Sess &z = st.v[g.draw(st.v.size() - 1)]; uint8_t *zp = nullptr; uint32_t zn = 0; if (SESS_GetTicket) SESS_GetTicket(z.s, &zp, &zn); uint8_t m1[64], m2[64]; uint32_t a = 64, b = 64; HITLS_SESS_GetMasterKey(z.s, m1, &a); HITLS_SESS_GetMasterKey(q->s, m2, &b); if (zp && tp && zn == tn && memcmp(zp, tp, tn) && !(a == b && !memcmp(m1, m2, a))) { memcpy(tp, zp, tn); dropped = true; no("another session's ticket"); } else maybe(); break; }
            case 5: { uint8_t m[64]; uint32_t a = 64; if (HITLS_SESS_GetMasterKey(q->s, m, &a) == HITLS_SUCCESS && a) { m[g.draw(a - 1)] ^= (uint8_t)(1u << g.draw(7)); HITLS_SESS_SetMasterKey(q->s, m, a); dropped = true; no("altered master key"); } break; }
            case 6: HITLS_SESS_SetCipherSuite(q->s, cs.suites[g.draw(cs.suites.size() - 1)]); dropped = true; maybe(); break;
            case 7: HITLS_SESS_SetProtocolVersion(q->s, g.pick<uint16_t>({0x0303, 0x0304, 0xfefd, 0x0101})); dropped = true; maybe(); break;
            case 8: HITLS_SESS_SetHaveExtMasterSecret(q->s, (uint8_t)g.draw(1)); dropped = true; maybe(); break;
            case 9: { Bytes b = g.bytes(32); HITLS_SESS_SetSessionId(q->s, b.data(), 32); dropped = true; if (!q->ticket && offer == q->s) no("unknown session id"); else maybe(); break; }
            case 10: case 11: { Bytes k2 = g.bytes(80); if (op == 11) std::copy(S.tkey.begin(), S.tkey.begin() + 16, k2.begin()); if (HITLS_SetSessionTicketKey(l.s.ctx, k2.data(), 80) == HITLS_SUCCESS) S.tkey = k2; break; }
            case 13: { std::vector<uint16_t> v; for (auto x : cs.suites) if (x != q->suite) v.push_back(x); if (!v.empty() && HITLS_SetCipherSuites(l.c.ctx, v.data(), (uint32_t)v.size()) == HITLS_SUCCESS) { bool some = false; for (auto x : v) some |= (x >> 8) != 0x13; if (old && some) no("suite not offered"); else { maybe(); } } break; }
            case 14: { std::vector<uint16_t> v; for (auto x : ss.suites) if (x != q->suite) v.push_back(x); if (!v.empty()) HITLS_SetCipherSuites(l.s.ctx, v.data(), (uint32_t)v.size()); maybe(); break; }
            case 15: { bool cl = g.boolean(); uint16_t v = g.pick<uint16_t>({0x0303, 0x0304}); if (cs.proto != TLS) break; if (HITLS_SetVersion(cl ? l.c.ctx : l.s.ctx, v, v) == HITLS_SUCCESS && v != q->ver) no("other version"); maybe(); break; }
            case 16: { sni = g.pick<std::string>({"", "other.example", "a.b"}); if (sni.empty()) break; HITLS_SetServerName(l.c.ctx, (uint8_t *)sni.c_str(), (uint32_t)sni.size()); break; }
            case 17: { bool cl = g.boolean(); int m = (int)g.draw(2) - 1; if (HITLS_SetExtendedMasterSecretMode(cl ? l.c.ctx : l.s.ctx, m) == HITLS_SUCCESS) { (cl ? clientEms : serverEms) = m >= 0; maybe(); } break; }
            case 18: { Bytes t = g.bytes(1 + g.draw(31)); if (HITLS_SetSessionIdCtx(l.s.ctx, t.data(), (uint32_t)t.size()) == HITLS_SUCCESS) sid = t; break; }
            case 19: { Bytes e = enc(q->s); if (own) HITLS_SESS_Free(own); own = nullptr; Exact x(e); CHECK(HITLS_SESS_Decode(&own, x.p, (uint32_t)x.n) == HITLS_SUCCESS && own, "t07-decode", "an exported session is refused"); CHECK(enc(own) == e, "t07-roundtrip", "export of the import differs"); offer = own; if (q->ticket) maybe(); break; }
            case 20: HITLS_CFG_ClearTimeoutSession(S.cfg, 0); if (!q->ticket) no("cache cleared"); break;
            case 21: { int32_t r = HITLS_CFG_RemoveSession(S.cfg, q->s); if (r == HITLS_SUCCESS && !q->ticket && q->srv == srv) no("removed from the cache"); maybe(); break; }
            default: break;
            }
        }
        now = (uint64_t)vnow;
        if (flipped) { if (tkt(q->s) != orig && offer == q->s) no("altered ticket"); else maybe(); }
        if (q) {
            bool byTicket = q->ticket && offer == q->s; if (byTicket) { if (Bytes(S.tkey.begin(), S.tkey.begin() + 48) != Bytes(q->tkey.begin(), q->tkey.begin() + 48)) no("ticket key differs"); /* tickets are sealed with AES-GCM: the HMAC part is unused */; } else if (srv != q->srv) no("issued by another server");
            if (now >= q->tmax + q->timeout) no("expired"); if (now >= q->tmin + q->timeout) maybe(); if (sid != q->sid) no("session-id context differs"); if (sni != q->sni) maybe();
            if (q->ver == 0x0303 || q->ver == 0xfefd) if ((clientEms && serverEms) != q->ems) no("extended master secret differs");
            if (!is13(q->ver) && (clientEms && serverEms) != q->ems) maybe();
            if (!q->fresh || srv != q->srv || !byTicket) maybe(); HITLS_SetSession(l.c.ctx, offer); g.nontrivial(); savedTicket = tkt(q->s);
        }
        l.handshake(); bool rc1 = false, rs1 = false; HITLS_IsSessionReused(l.c.ctx, &rc1); HITLS_IsSessionReused(l.s.ctx, &rs1);
        g.note("#%d server %d offer %d after %s at +%lld: %s, reused %d/%d, allowed %d (%s) required %d", i, srv, q ? (int)(q - &st.v[0]) : -1, did.c_str(), (long long)(vnow - 1800000000), l.ok() ? "ok" : (rc(l.c.err) + "/" + rc(l.s.err)).c_str(), rc1, rs1, !mustNot, why.c_str(), must && !mustNot);
        if (q) g.label(mustNot ? (std::string("no: ") + why).c_str() : must ? "must resume" : "may resume"); if (own) HITLS_SESS_Free(own);
        if (!l.ok()) { CHECK(!must || mustNot, "t07-failed", "a connection offering a good session failed: client %s server %s | %s", rc(l.c.err).c_str(), rc(l.s.err).c_str(), cfg.c_str()); if (!q) { g.label("plain handshake failed"); pbt::discard(); } CHECK(l.c.dead || l.s.dead || cs.dgram(), "t07-stuck", "the handshake neither completed nor failed | %s", cfg.c_str()); q->fresh = false; if (dropped) { HITLS_SESS_Free(q->s); st.v.erase(st.v.begin() + (q - &st.v[0])); } g.label("failed"); continue; }
        CHECK(rc1 == rs1, "t07-disagree", "client says reused=%d, server %d | %s", rc1, rs1, cfg.c_str());
        if (mustNot) CHECK(!rc1, "t07-resumed", "a session was resumed although: %s (%s) | %s", why.c_str(), did.c_str(), cfg.c_str()); else if (must) CHECK(rc1, "t07-not-resumed", "a good session was not resumed (%s) | %s", did.c_str(), cfg.c_str());
        Bytes e1 = exporter(l.c, "EXPORTER-t07", {}, false, 32), e2 = exporter(l.s, "EXPORTER-t07", {}, false, 32); CHECK(e1 == e2, "t07-keys", "the ends hold different keys (reused %d) | %s", rc1, cfg.c_str()); CHECK(exps.insert(e1).second, "t07-stale-keys", "keys of an earlier connection came back (reused %d) | %s", rc1, cfg.c_str());
        uint16_t v = version(l.c), su = curSuite(l.c); CHECK(v == version(l.s) && su == curSuite(l.s), "t07-params", "version or suite differ"); if (rc1) { g.label("resumed"); if (!is13(v)) CHECK(su == q->suite, "t07-suite", "resumed with suite %04x, session had %04x", su, q->suite); CHECK(v == q->ver, "t07-version", "resumed in version %04x, session had %04x", v, q->ver); }
        CHECK(xfer(g, l), "t07-data", "data exchange failed after %s handshake | %s", rc1 ? "a resumed" : "a full", cfg.c_str());
        if (q) { q->fresh = q->fresh && !is13(v) && !dropped; }
        Sess z; z.s = HITLS_GetDupSession(l.c.ctx); if (q && z.s == q->s && !dropped) { HITLS_SESS_Free(z.s); if (!rc1 || tkt(q->s) != savedTicket) { q->tmax = now; q->tkey = S.tkey; q->fresh = false; } continue; } if (z.s && HITLS_SESS_IsResumable(z.s)) {
            z.srv = srv; z.tkey = S.tkey; z.tmax = now; z.tmin = rc1 ? std::min(q->tmin, now) : now; z.timeout = S.timeout; z.ver = v; z.suite = su; z.sni = rc1 && !is13(v) ? q->sni : sni; z.sid = sid; z.ticket = HITLS_SESS_HasTicket(z.s); bool em = false; HITLS_SESS_GetHaveExtMasterSecret(z.s, &em); z.ems = em; z.fresh = !rc1; if (rc1 && !is13(v)) { z.tkey = z.ticket ? q->tkey : S.tkey; if (z.tkey != S.tkey) z.tkey = S.tkey; if (!z.ticket) z.srv = q->srv; }
            size_t qi = q ? (size_t)(q - &st.v[0]) : 0; bool kill = dropped; if (q && (!rc1 || !did.empty())) z.fresh = false; st.v.push_back(z); if (kill) { HITLS_SESS_Free(st.v[qi].s); st.v.erase(st.v.begin() + (long)qi); }
        } else { if (z.s) HITLS_SESS_Free(z.s); if (dropped) { HITLS_SESS_Free(q->s); st.v.erase(st.v.begin() + (q - &st.v[0])); } }
    }
    vnow = 0;
}
PBT_TEST(session_codec, 1500, 40000, 0, 100)
{
    // decoding arbitrary session encodings is safe, and what decodes re-encodes to a fixed point
    HITLS_Session *s = HITLS_SESS_New(); HITLS_SESS_SetProtocolVersion(s, g.pick<uint16_t>({0x0303, 0x0304, 0xfefd, 0x0101})); HITLS_SESS_SetCipherSuite(s, (uint16_t)g.draw(65535)); Bytes m = g.bytes(g.draw(48)), id = g.bytes(g.draw(32)), ctx = g.bytes(g.draw(32)); if (!m.empty()) HITLS_SESS_SetMasterKey(s, m.data(), (uint32_t)m.size()); if (!id.empty()) HITLS_SESS_SetSessionId(s, id.data(), (uint32_t)id.size()); if (!ctx.empty()) HITLS_SESS_SetSessionIdCtx(s, ctx.data(), (uint32_t)ctx.size()); uint64_t to = g.draw(UINT64_MAX); HITLS_SESS_SetTimeout(s, to); bool em = g.boolean(); HITLS_SESS_SetHaveExtMasterSecret(s, em);
    uint16_t v0, c0; HITLS_SESS_GetProtocolVersion(s, &v0); HITLS_SESS_GetCipherSuite(s, &c0); Bytes e = enc(s); HITLS_SESS_Free(s); s = nullptr; bool mut = g.chance(1, 2); Bytes b = e; if (mut) { int k = 1 + (int)g.draw(3); for (int i = 0; i < k; i++) { size_t p = g.draw(b.size() - 1); if (g.boolean()) b[p] ^= (uint8_t)(1u << g.draw(7)); else if (g.boolean()) b.resize(p + 1); else b.insert(b.begin() + (long)p, g.boolean() ? 0xff : 0); } }
    Exact x(b); int32_t r = HITLS_SESS_Decode(&s, x.p, (uint32_t)x.n); g.note("%zu bytes%s: %s", b.size(), mut ? ", mutated" : "", rc(r).c_str()); g.nontrivial(); g.label(r == HITLS_SUCCESS ? "decoded" : "refused");
    if (!mut) {
        CHECK(r == HITLS_SUCCESS && s, "codec", "own encoding refused"); uint16_t a = 0, c = 0; HITLS_SESS_GetProtocolVersion(s, &a); HITLS_SESS_GetCipherSuite(s, &c); uint8_t k[64], i[64], sc[64]; uint32_t kn = 64, in = 64, sn = 64; HITLS_SESS_GetMasterKey(s, k, &kn); HITLS_SESS_GetSessionId(s, i, &in); HITLS_SESS_GetSessionIdCtx(s, sc, &sn); bool e2 = false; HITLS_SESS_GetHaveExtMasterSecret(s, &e2);
        CHECK(a == v0 && c == c0 && HITLS_SESS_GetTimeout(s) == to && e2 == em && Bytes(k, k + kn) == m && Bytes(i, i + in) == id && Bytes(sc, sc + sn) == ctx, "codec-fields", "a field changed over export and import (version %04x/%04x suite %04x/%04x)", a, v0, c, c0);
    }
    if (r == HITLS_SUCCESS && s) { Bytes e2 = enc(s); HITLS_Session *t = nullptr; Exact y(e2); CHECK(HITLS_SESS_Decode(&t, y.p, (uint32_t)y.n) == HITLS_SUCCESS && enc(t) == e2, "codec-fixpoint", "re-encoding is not stable"); HITLS_SESS_Free(t); HITLS_SESS_Free(s); } else if (s) HITLS_SESS_Free(s);
}
