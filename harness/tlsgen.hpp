// Generators of TLS configurations and the negotiation model shared by the TLS harnesses.
#pragma once
#include "tls.hpp"
namespace tls {
static const uint16_t ECG[] = {23, 29, 24, 25}, BPG[] = {26, 27, 28}, HYB[] = {4588, 4587, 4589}, FFG[] = {256, 257};
inline bool isEc(uint16_t g) { return g <= 29; } inline bool isFf(uint16_t g) { return g >= 256 && g <= 260; } inline bool isHyb(uint16_t g) { return g > 4000; } inline bool isBp(uint16_t g) { return g >= 26 && g <= 28; }
template <class T> bool has(const std::vector<T> &v, T x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template <class T> std::vector<T> shuffled(G &g, std::vector<T> v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.draw(i - 1)]); return v; }
template <class T> std::vector<T> common(const std::vector<T> &a, const std::vector<T> &b) { std::vector<T> r; for (auto &x : a) if (has(b, x)) r.push_back(x); return r; }
// signature schemes a certificate key can make in a version
inline std::vector<uint16_t> schemes(KType t, bool v13)
{
    switch (t) {
        case KRSA: return v13 ? std::vector<uint16_t>{0x0804, 0x0805, 0x0806} : std::vector<uint16_t>{0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806};
        case KPSS: return {0x0809, 0x080a, 0x080b};
        case KED: return {0x0807};
        case KP256: return v13 ? std::vector<uint16_t>{0x0403} : std::vector<uint16_t>{0x0403, 0x0503, 0x0603};
        case KP384: return v13 ? std::vector<uint16_t>{0x0503} : std::vector<uint16_t>{0x0403, 0x0503, 0x0603};
        case KP521: return v13 ? std::vector<uint16_t>{0x0603} : std::vector<uint16_t>{0x0403, 0x0503, 0x0603};
        default: return {};
    }
}
static const uint16_t ALLSIGS[] = {0x0403, 0x0804, 0x0401, 0x0503, 0x0807, 0x0805, 0x0809, 0x0501, 0x0603, 0x0806, 0x0601, 0x080a, 0x080b};
inline uint16_t curveOf(KType t) { return t == KP256 ? 23 : t == KP384 ? 24 : t == KP521 ? 25 : 0; }
inline bool isPskKx(Kx k) { return k == KXPSK || k == KXDHEPSK || k == KXRSAPSK || k == KXECDHEPSK; }
inline bool isEcdheKx(Kx k) { return k == KXECDHE || k == KXECDHEPSK || k == KXAECDH; }
inline bool anonKx(Kx k) { return k == KXADH || k == KXAECDH; }
inline bool weak(uint16_t id) { return id == 0x1305 || id == 0xC0A0 || id == 0xC0A1; }   // 64-bit tags: below the default security level
struct GenOpt { bool allowTlcp = true, allowDtls = true, allowPsk = true, allowAnon = true, nice = false; int forceProto = -1; bool io = true; };
inline void genPair(G &g, Side &c, Side &s, const GenOpt &o = GenOpt())
{
    c = Side(); s = Side(); s.server = true;
    Proto p = o.forceProto >= 0 ? (Proto)o.forceProto : (Proto)g.weighted({14, o.allowDtls ? 4u : 0u, o.allowTlcp ? 2u : 0u, o.allowTlcp && o.allowDtls ? 1u : 0u});
    c.proto = s.proto = p; bool sm = p == TLCP || p == DTLCP;
    auto flagsFor = [&](Side &x) {
        x.tickets = !g.chance(1, 4); x.etm = !g.chance(1, 4); x.middlebox = !g.chance(1, 4); x.flight = !g.chance(1, 4); x.serverPref = g.chance(1, 3); x.ems = o.nice ? 0 : (int)g.weighted({10, 1, 1}) == 1 ? 1 : 0; if (!o.nice && g.chance(1, 12)) x.ems = -1; x.renego = g.chance(1, 6);
        if (g.chance(1, 6)) x.rsl = (uint16_t)g.pick<int>({64, 65, 100, 511, 512, 1024, 16384, 16385}); if (g.chance(1, 6)) x.maxFrag = (uint16_t)g.pick<int>({512, 513, 1024, 4000, 16383, 16384}); if (g.chance(1, 8)) x.readAhead = true; if (g.chance(1, 8)) x.pad = g.pick<int>({1, 16, 255, 3000}); x.ticketNum = (uint32_t)g.pick<int>({2, 0, 1, 5}); if (g.chance(1, 6)) x.kexMode = 1 + (uint32_t)g.draw(2); if (x.proto == DTLS || x.proto == DTLCP) { x.cookie = g.chance(1, 3); x.mtu = g.chance(1, 3) ? (uint16_t)g.pick<int>({256, 300, 576, 1000, 1500}) : (uint16_t)0; x.rsl = 0; x.pad = 0; x.maxFrag = 0; }
        if (g.chance(1, 5)) x.modeFlags = 0;
    };
    flagsFor(c); flagsFor(s);
    if (sm) {
        std::vector<uint16_t> all = {0xE011, 0xE013, 0xE051, 0xE053}; uint16_t s0 = all[g.draw(3)]; for (Side *x : {&c, &s}) { x->suites = {s0}; for (auto v : all) if (v != s0 && g.chance(1, 3)) x->suites.push_back(v); x->suites = shuffled(g, x->suites); x->certs = {KSM2}; x->vmin = x->vmax = 0x0101; }
        if (!o.nice && g.chance(1, 10)) { c.suites = {0xE011}; s.suites = {0xE053}; } s.verifyPeer = g.boolean(); s.optionalCert = g.boolean(); bool e = has(c.suites, (uint16_t)0xE011) || has(c.suites, (uint16_t)0xE051); (void)e; if (g.chance(1, 3)) c.certs.clear(); return;
    }
    auto vers = [&](Side &x) { if (p == DTLS) { x.vmin = g.chance(1, 2) ? 0xfefd : 0xfefc; x.vmax = 0xfefc; if (g.chance(1, 2)) x.vmin = x.vmax = 0xfefd; return; } switch (g.weighted({5, 3, 3})) { case 0: x.vmin = 0x0303; x.vmax = 0x0304; break; case 1: x.vmin = x.vmax = 0x0304; break; default: x.vmin = x.vmax = 0x0303; } };
    vers(c); if (o.nice || g.chance(3, 4)) { s.vmin = c.vmin; s.vmax = c.vmax; } else vers(s);
    // suites: a common one, plus noise on each side
    std::vector<uint16_t> s12, s13; for (auto &x : SUITES) { if (x.kx == KX13) s13.push_back(x.id); else if (x.au != AUSM2 && (o.allowPsk || !isPskKx(x.kx)) && (o.allowAnon || !anonKx(x.kx))) s12.push_back(x.id); }
    uint16_t a12 = s12[g.draw(s12.size() - 1)], a13 = s13[g.draw(s13.size() - 1)]; bool miss = !o.nice && g.chance(1, 10); const Suite *su = suite(a12);
    for (Side *x : {&c, &s}) { std::vector<uint16_t> l; if (!(miss && x == &s)) { l.push_back(a12); l.push_back(a13); } for (int i = 0, n = (int)g.draw(6); i < n; i++) { uint16_t v = g.boolean() ? s12[g.draw(s12.size() - 1)] : s13[g.draw(s13.size() - 1)]; if (!has(l, v)) l.push_back(v); } { bool h12 = false, h13 = false; for (auto v : l) (suite(v)->kx == KX13 ? h13 : h12) = true; // a list without suites of a version leaves that version's default list in force
            uint16_t n12 = a12 == 0xC02B ? 0xC030 : 0xC02B, n13 = a13 == 0x1301 ? 0x1302 : 0x1301; if (!h12) l.push_back(n12); if (!h13) l.push_back(n13); } x->suites = shuffled(g, l); }
    // groups
    std::vector<uint16_t> ga = {23, 29, 24, 25, 4588, 4587, 4589, 256, 257, 26, 27, 28}; uint16_t g0 = g.weighted({8, 2, 1, 1}) == 0 ? ga[g.draw(3)] : g.chance(1, 2) ? ga[4 + g.draw(2)] : ga[7 + g.draw(4)]; bool gmiss = !o.nice && g.chance(1, 12);
    for (Side *x : {&c, &s}) { std::vector<uint16_t> l; if (!(gmiss && x == &s)) l.push_back(g0); for (int i = 0, n = (int)g.draw(4); i < n; i++) { uint16_t v = ga[g.draw(g.chance(1, 5) ? ga.size() - 1 : 6)]; if (!has(l, v)) l.push_back(v); } if (l.empty()) l.push_back(29); x->groups = shuffled(g, l); if (g.chance(1, 8)) x->groups.clear(); }
    // signature schemes and certificates
    KType want = su->au == AUECDSA ? g.pick({KP256, KP256, KP384, KP521, KED}) : su->au == AURSA ? g.pick({KRSA, KRSA, KRSA, KPSS}) : g.pick({KRSA, KP256, KED, KPSS}); if (su->kx == KXRSA || su->kx == KXRSAPSK) want = KRSA;
    auto certsFor = [&](Side &x, KType w) { x.certs.clear(); if (!g.chance(1, o.nice ? 1000000 : 10)) x.certs.push_back(w); for (KType t : {KRSA, KP256, KED, KPSS}) if (g.chance(1, 4) && !has(x.certs, t) && !(curveOf(t) && curveOf(w))) x.certs.push_back(t); };
    certsFor(s, want); if (g.chance(1, 2)) certsFor(c, g.pick({KRSA, KP256, KED, KPSS, KP384})); s.verifyPeer = g.chance(1, 3); s.optionalCert = g.boolean();
    bool sigsRestricted = g.chance(1, 3);
    for (Side *x : {&c, &s}) { x->sigs.assign(std::begin(ALLSIGS), std::end(ALLSIGS)); if (sigsRestricted && !o.nice && g.boolean()) { std::vector<uint16_t> l = {0x0403}; auto sc = schemes(want, g.boolean()); l.push_back(sc[g.draw(sc.size() - 1)]); for (int i = 0, n = (int)g.draw(5); i < n; i++) l.push_back(ALLSIGS[g.draw(12)]); std::vector<uint16_t> u; for (auto v : l) if (!has(u, v)) u.push_back(v); x->sigs = u; } x->sigs = shuffled(g, x->sigs); }
    // PSK
    if (o.allowPsk && (isPskKx(su->kx) || g.chance(1, 10))) { c.pskId = "psk-" + g.text(1 + g.draw(20), "abcdef0123"); c.psk = g.bytes(g.pick<size_t>({16, 32, 1, 64, 48})); if (Bytes(c.psk.size(), 0) == c.psk) c.psk[0] = 1; s.pskId = c.pskId; s.psk = c.psk; if (!o.nice && g.chance(1, 8)) { if (g.boolean()) s.psk[g.draw(s.psk.size() - 1)] ^= 1; else s.pskId += "x"; } if (!o.nice && g.chance(1, 10)) s.psk.clear(); }
    if (anonKx(su->kx) || weak(a12) || weak(a13)) c.security = s.security = 0;
    // ALPN, SNI
    static const std::string protos[] = {"h2", "http/1.1", "a", "spdy/1", std::string(255, 'z')};
    if (g.chance(1, 3)) { for (Side *x : {&c, &s}) { for (int i = 0, n = 1 + (int)g.draw(3); i < n; i++) { const std::string &q = protos[g.draw(g.chance(1, 6) ? 4 : 3)]; if (!has(x->alpn, q)) x->alpn.push_back(q); } } s.alpnStrict = !o.nice && g.chance(1, 4); }
    if (g.chance(1, 3)) c.sni = g.pick<std::string>({"server.test", "a.wild.test", "other.example"});
}
// ---- negotiation model
enum Verdict { FAIL, OK, EITHER };
inline uint16_t expectVersion(const Side &c, const Side &s)
{
    if (c.proto == TLCP || c.proto == DTLCP) return 0x0101;
    if (c.proto == DTLS) { uint16_t hi = std::max(c.vmax, s.vmax), lo = std::min(c.vmin, s.vmin); return hi <= lo ? hi : 0; }   // DTLS versions count down
    uint16_t hi = std::min(c.vmax, s.vmax), lo = std::max(c.vmin, s.vmin); return hi >= lo ? hi : 0;
}
inline bool v13(uint16_t v) { return v == 0x0304 || v == 0xfefc; }
static const std::vector<uint16_t> DEFGROUPS = {4588, 29, 23, 24, 25, 41, 256, 257, 258, 259, 260};
inline std::vector<uint16_t> groupsOf(const Side &x) { return x.groups.empty() ? DEFGROUPS : x.groups; }
inline bool canSign(const Side &signer, const Side &peer, KType t, bool is13, uint16_t curveNeeded = 0) { auto sc = common(common(schemes(t, is13), signer.sigs), peer.sigs); (void)curveNeeded; if (sc.empty()) return false; if (!is13 && curveOf(t) && !has(groupsOf(peer), curveOf(t))) return false; return true; }
inline bool pskOk(const Side &c, const Side &s) { return !c.psk.empty() && !s.psk.empty() && c.pskId == s.pskId && c.psk == s.psk; }
// can this TLS 1.2 suite work between the two configurations?
inline bool usable12(const Suite &u, const Side &c, const Side &s, bool strict)
{
    if (weak(u.id) && (c.security != 0 || s.security != 0)) return false;
    bool ecg = false; for (auto v : common(groupsOf(c), groupsOf(s))) if (isEc(v) && v != 41) ecg = true;
    bool sign = false; for (KType t : s.certs) { bool right = u.au == AURSA ? (t == KRSA || t == KPSS) : u.au == AUECDSA ? (curveOf(t) || t == KED) : false; if (right && canSign(s, c, t, false)) sign = true; }
    switch (u.kx) { case KXECDHE: return ecg && sign; case KXDHE: return sign; case KXRSA: return has(s.certs, KRSA) && (!strict || canSign(s, c, KRSA, false)); case KXPSK: case KXDHEPSK: return pskOk(c, s); case KXECDHEPSK: return pskOk(c, s) && ecg; case KXRSAPSK: return pskOk(c, s) && has(s.certs, KRSA) && (!strict || canSign(s, c, KRSA, false)); default: return false; }
}
inline Verdict model(const Side &c, const Side &s)
{
    uint16_t v = expectVersion(c, s); if (!v) return FAIL; bool sm = v == 0x0101; bool is13 = v13(v); std::vector<uint16_t> cs; for (auto x : common(c.suites, s.suites)) if ((suite(x)->kx == KX13) == is13) cs.push_back(x);
    { bool sec = c.security == 0 && s.security == 0; std::vector<uint16_t> t; for (auto x : cs) if (sec || !weak(x)) t.push_back(x); cs = t; } if (cs.empty()) return FAIL; if (!is13 && ((c.ems == 1 && s.ems == -1) || (c.ems == -1 && s.ems == 1))) return FAIL; if (s.alpnStrict && !c.alpn.empty() && common(s.alpn, c.alpn).empty()) return FAIL;
    { bool ec = false; for (auto x : groupsOf(c)) if (isEc(x) && !isBp(x)) ec = true; if (!ec && !is13) return EITHER; }   // the client refuses to offer EC suites without a group for them
    if (sm) return EITHER; if (c.dgram() && (c.mtu || s.mtu)) return EITHER;
    if (is13) {
        bool psk = !c.psk.empty() || !s.psk.empty(); bool grp = false, any = false; for (auto x : common(groupsOf(c), groupsOf(s))) { any = true; if ((isEc(x) && !isBp(x)) || isHyb(x) || isFf(x)) grp = true; } if (!any && !psk) return FAIL; if (psk) return EITHER; if (!grp) return EITHER;
        bool sg = false; for (KType t : s.certs) if (canSign(s, c, t, true)) sg = true; if (!sg) return FAIL;
        if (s.verifyPeer) { bool cg = false; for (KType t : c.certs) if (canSign(c, s, t, true)) cg = true; if (!cg && !s.optionalCert) return c.certs.empty() ? FAIL : EITHER; }
        return OK;
    }
    for (auto x : cs) if ((suite(x)->kx == KXRSA || suite(x)->kx == KXRSAPSK) && has(s.certs, KPSS) && !has(s.certs, KRSA)) return EITHER;   // a PSS-only key used for key transport is tolerated
    bool any = false, lax = false, allAnonFree = true; for (auto x : cs) { if (usable12(*suite(x), c, s, true)) any = true; if (usable12(*suite(x), c, s, false)) lax = true; if (anonKx(suite(x)->kx) || suite(x)->kx == KXDHEPSK || isPskKx(suite(x)->kx)) allAnonFree = false; } if (!any) return allAnonFree && !lax ? FAIL : EITHER;
    if (!allAnonFree) return EITHER;   // the PSK is looked up only after the suite was chosen
    if (s.verifyPeer) { bool cg = false; for (KType t : c.certs) if (canSign(c, s, t, false)) cg = true; if (!cg && !s.optionalCert) return c.certs.empty() ? FAIL : EITHER; if (!cg && !c.certs.empty()) return EITHER; }
    return OK;
}
}  // namespace tls
