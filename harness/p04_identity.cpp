// P04: certificate identity matching against a component-wise model
#include "vh.hpp"
#include "opki.hpp"
#include <arpa/inet.h>
extern "C" {
#include "hitls_pki_cert.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_types.h"
#include "hitls_pki_errno.h"
}
extern "C" int32_t HITLS_X509_MatchPattern(uint32_t flags, const char *pattern, const char *hostname);
using namespace opki;
const char *pbt::PROPERTY_RULE =
    "A reference identity (DNS name, IPv4/IPv6 address, URI, SRV name) and a certificate are generated: the certificate's SAN holds 0-4 names of types DNS/IP/URI/SRV/e-mail derived from the reference by random edits (case, wildcard in whole or part of a label and in "
    "several places, label added/removed/emptied, character changed, trailing dot, embedded NUL plus suffix, userinfo/port/path/service changed) and the subject a CN derived likewise or none; the verdict of VerifyIdentity in default and partial-wildcard mode (and "
    "MatchPattern on raw strings) must equal a component-wise model. Non-trivial: at least one presented identifier of the asked type (or fallback CN) was derived from the reference.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"a leftmost wildcard against an empty leftmost label, and a partial wildcard in a pattern without any dot, are accepted either way (the repository's tests fix some of these)"};
static EVP_PKEY *key;
void pbt::setup() { useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); detOssl(4); key = newKey(KP256); }

typedef std::string S;
static S lower(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static const int NO = 0, YES = 1, ANY = 2;
static int model(const S &p, const S &h, bool partial)
{
    if (p.find('\0') != S::npos) return NO;
    if (p.find('*') == S::npos) return lower(p) == lower(h);
    size_t pd = p.find('.'), hd = h.find('.');
    S pl = p.substr(0, pd), hl = h.substr(0, hd), pr = pd == S::npos ? "" : p.substr(pd), hr = hd == S::npos ? "" : h.substr(hd);
    if (pr.find('*') != S::npos || std::count(pl.begin(), pl.end(), '*') != 1 || lower(pr) != lower(hr)) return NO;
    size_t star = pl.find('*'); S pre = lower(pl.substr(0, star)), suf = lower(pl.substr(star + 1)), l = lower(hl);
    if (!partial && pl != "*") return NO;
    if (l.size() < pre.size() + suf.size() || l.compare(0, pre.size(), pre) || l.compare(l.size() - suf.size(), suf.size(), suf)) return NO;
    if (!partial && std::count(h.begin(), h.end(), '.') < 2) return NO;
    if (hl.empty() || pd == S::npos) return ANY;
    return YES;
}
static S label(G &g) { static const char *w[] = {"a", "b", "foo", "www", "xn--ab", "example", "com", "test-1", "z9"}; S s = w[g.draw(8)]; if (g.chance(1, 6)) s += (char)('a' + g.draw(25)); if (g.chance(1, 8)) s[0] = (char)toupper(s[0]); return s; }
static S host(G &g) { int n = 1 + (int)g.weighted({1, 3, 6, 3, 1}); S s; for (int i = 0; i < n; i++) s += (i ? "." : "") + label(g); if (g.chance(1, 25)) s += "."; if (g.chance(1, 40)) s = "." + s; return s; }
static std::vector<S> split(const S &s) { std::vector<S> v; size_t i = 0; for (;;) { size_t d = s.find('.', i); v.push_back(s.substr(i, d == S::npos ? d : d - i)); if (d == S::npos) return v; i = d + 1; } }
static S join(const std::vector<S> &v) { S s; for (size_t i = 0; i < v.size(); i++) s += (i ? "." : "") + v[i]; return s; }
static S derive(G &g, const S &h)
{
    S s = h; auto v = split(h); int n = (int)g.weighted({3, 6, 1});
    for (int i = 0; i < n + (g.chance(1, 5) ? 1 : 0); i++) {
        v = split(s); size_t k = g.draw(v.size() - 1);
        switch (g.weighted({3, 6, 5, 2, 2, 2, 2, 2, 2, 1, 1})) {
        case 0: for (auto &c : s) if (isalpha((uint8_t)c) && g.boolean()) c ^= 0x20; v = split(s); break;
        case 1: v[0] = "*"; break;
        case 2: { size_t a = g.draw(v[0].size()), b = a + g.draw(v[0].size() - a); v[0] = v[0].substr(0, a) + "*" + v[0].substr(b); break; }
        case 3: v[k] = "*"; break;
        case 4: if (v.size() > 1) v.erase(v.begin() + (long)k); break;
        case 5: v.insert(v.begin() + (long)k, g.boolean() ? label(g) : "*"); break;
        case 6: v[k] = ""; break;
        case 7: if (!v[k].empty()) v[k][g.draw(v[k].size() - 1)] ^= (char)(1 + g.draw(3)); break;
        case 8: v.back() += g.pick<S>({S("\0.evil.com", 10), S("\0", 1), "."}); break;
        case 9: v[k].insert(g.draw(v[k].size()), "*"); break;
        case 10: v.back() += label(g); break;
        }
        s = join(v);
    }
    return s;
}
struct Uri { S scheme, user, host, port, tail; bool auth; S str(bool) const { return scheme + ":" + (auth ? "//" : "") + (user.empty() ? "" : user + "@") + host + (port.empty() ? "" : ":" + port) + tail; } };
static Uri uri(G &g)
{
    Uri u; u.auth = g.chance(2, 3); u.scheme = u.auth ? g.pick<S>({"https", "ldap", "h"}) : g.pick<S>({"sip", "sips"}); u.host = host(g);
    u.user = g.chance(1, 2) ? "" : g.pick<S>({"bob", "u:p", "x@y", "good.com"}); u.port = g.chance(2, 3) ? "" : g.pick<S>({"443", "0", "65535", "00080"});
    u.tail = g.chance(1, 2) ? "" : u.auth ? g.pick<S>({"/", "/a@b.com", "?q=@c.com", "#f", "/p:99"}) : g.pick<S>({";transport=tcp", "?x=@y", ";a=b:c"}); return u;
}
static Bytes str(const S &s) { return Bytes(s.begin(), s.end()); }
static Bytes tlv(uint8_t t, const Bytes &v) { Bytes r = {t}; if (v.size() < 128) r.push_back((uint8_t)v.size()); else if (v.size() < 256) { r.push_back(0x81); r.push_back((uint8_t)v.size()); } else { r.push_back(0x82); r.push_back((uint8_t)(v.size() >> 8)); r.push_back((uint8_t)v.size()); } r.insert(r.end(), v.begin(), v.end()); return r; }
static Bytes srvGn(const S &s) { Bytes oid = {6, 8, 0x2b, 6, 1, 5, 5, 7, 8, 7}, v = tlv(0xa0, tlv(0x16, str(s))); oid.insert(oid.end(), v.begin(), v.end()); return tlv(0xa0, oid); }
static S vis(const S &s) { S r; for (char c : s) r += c ? S(1, c) : S("\\0"); return r; }
static bool bad(const S &s) { for (char c : s) if (c == 0) return true; return s.empty(); }

PBT_TEST(certificate_identity, 4000, 60000, 0, 300)
{
    int type = (int)g.weighted({6, 2, 3, 3}); bool partial = g.chance(2, 5); S ref; int verdict = NO; bool anyOfType = false, nontriv = false; S cn; Bytes gns; Spec sp; S desc;
    Uri ru = uri(g); S dom = host(g), svc = g.pick<S>({"sip", "xmpp-client", "a"}); Bytes rip; S h = host(g);
    if (type == 0) ref = h; else if (type == 2) ref = ru.str(true); else if (type == 3) ref = "_" + svc + "." + dom;
    else { rip = g.bytes(g.boolean() ? 4 : 16); if (rip.size() == 16 && g.chance(1, 2)) for (size_t a = g.draw(15), b = g.draw(15), i = std::min(a, b); i <= std::max(a, b); i++) rip[i] = 0; char b[64]; inet_ntop(rip.size() == 4 ? AF_INET : AF_INET6, rip.data(), b, sizeof b); ref = b;
        if (rip.size() == 16 && g.chance(1, 3)) { ref.clear(); for (int i = 0; i < 16; i += 2) ref += (i ? ":" : "") + sfmt(g.boolean() ? "%x" : "%04X", rip[(size_t)i] << 8 | rip[(size_t)i + 1]); } }
    auto add = [&](int t, const S &s) { Bytes x = t == HITLS_GEN_SRV ? srvGn(s) : tlv(t == HITLS_GEN_DNS ? 0x82 : t == HITLS_GEN_URI ? 0x86 : t == HITLS_GEN_IP ? 0x87 : 0x81, str(s)); gns.insert(gns.end(), x.begin(), x.end()); desc += sfmt(" [%d]%s", t, t == HITLS_GEN_IP ? hex(str(s)).c_str() : vis(s).c_str()); };
    auto up = [&](int v) { if (v == YES) verdict = YES; else if (v == ANY && verdict == NO) verdict = ANY; };
    int n = (int)g.weighted({2, 5, 3, 2, 1}); bool hasSan = n > 0 || g.chance(1, 4);
    for (int i = 0; i < n; i++) {
        int t = g.chance(2, 3) ? type : (int)g.draw(4);
        if (t == 0) { S s = derive(g, type == 0 ? h : type == 3 ? dom : ru.host); if (s.empty()) s = "x"; add(HITLS_GEN_DNS, s); if (type == 0) { anyOfType = nontriv = true; up(model(s, h, partial)); } }
        else if (t == 1) { Bytes b = rip.empty() ? g.bytes(4) : rip; switch (g.weighted({4, 2, 1, 1, 1})) { case 1: b[g.draw(b.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); break; case 2: b.pop_back(); break; case 3: b.push_back(0); break; case 4: b.resize(b.size() == 4 ? 16 : 4); break; default: break; } add(HITLS_GEN_IP, S(b.begin(), b.end())); if (type == 1) { nontriv = true; if (b == rip) up(YES); } }
        else if (t == 2) { Uri u = ru; if (g.chance(2, 3)) u.host = derive(g, u.host); if (g.chance(1, 5)) u.user = g.pick<S>({"", "eve", ru.host}); if (g.chance(1, 5)) u.port = g.pick<S>({"", "1"}); if (g.chance(1, 5)) u.tail = u.auth ? "/" + ru.host : ";" + ru.host; if (g.chance(1, 6)) u.scheme = g.pick<S>({"http", "SIP", "HTTPS", "sips", "ldaps"}); if (u.host.empty()) u.host = "x"; add(HITLS_GEN_URI, u.str(false)); if (type == 2) { nontriv = true; if (lower(u.scheme) == lower(ru.scheme)) up(model(u.host, ru.host, partial)); } }
        else if (t == 3) { S sv = svc, d = g.chance(2, 3) ? derive(g, dom) : dom; if (g.chance(1, 4)) sv = g.pick<S>({"SIP", "A", "b", "*", "xmpp-client"}); if (d.empty()) d = "x"; add(HITLS_GEN_SRV, "_" + sv + "." + d); if (type == 3) { nontriv = true; if (lower(sv) == lower(svc)) up(model(d, dom, partial)); } }
        else add(999, type == 0 ? ref : "a@" + h);
    }
    if (g.chance(3, 4)) { cn = g.chance(1, 3) ? ref : derive(g, type == 0 ? h : ref); if (cn.size() > 60 || cn.empty()) cn = "x"; if (cn.size() == 1 && cn[0] == 0) cn = "y"; }
    if (type == 0 && !anyOfType && !cn.empty()) { nontriv = true; up(model(cn, h, partial)); g.label("falls back to the CN"); }
    sp.cn = cn; sp.org = "o"; if (hasSan && n) sp.ext.push_back({0, "2.5.29.17=" + [&] { Bytes q = tlv(0x30, gns); return S(q.begin(), q.end()); }(), g.boolean()});
    X509 *x = mkCert(sp, key, nullptr, key); Bytes d = der(x); X509_free(x);
    HITLS_X509_Cert *c = nullptr; BSL_Buffer bb = {d.data(), (uint32_t)d.size()};
    if (HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &bb, &c) != HITLS_PKI_SUCCESS) { g.label("certificate not parsed"); pbt::discard(); }
    static const uint32_t T[] = {HITLS_GEN_DNS, HITLS_GEN_IP, HITLS_GEN_URI, HITLS_GEN_SRV}; static const char *tn[] = {"dns", "ip", "uri", "srv"};
    if (nontriv) g.nontrivial();
    g.note("%s reference %s, %s; CN %s; SAN:%s", tn[type], ref.c_str(), partial ? "partial wildcards" : "default", vis(cn).c_str(), desc.c_str());
    uint32_t fl = partial ? HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD : 0; int r = HITLS_X509_VerifyIdentity(c, fl, T[type], ref.c_str(), (uint32_t)ref.size());
    g.label(sfmt("%s %s", tn[type], verdict == YES ? "matches" : verdict == ANY ? "either" : "differs").c_str());
    if (verdict == YES) CHECK(r == HITLS_PKI_SUCCESS, "identity-refused", "a certificate presenting the identity was refused: %s", rc(r).c_str());
    if (verdict == NO) CHECK(r != HITLS_PKI_SUCCESS, "identity-accepted", "a certificate that does not present the %s %s was accepted", tn[type], ref.c_str());
    // a length that disagrees with the string is never accepted
    Bytes longer = str(ref); longer.push_back(0); for (char ch : S(".com")) longer.push_back((uint8_t)ch); longer.push_back(0);
    CHECK(HITLS_X509_VerifyIdentity(c, fl, T[type], (char *)longer.data(), (uint32_t)longer.size() - 1) != HITLS_PKI_SUCCESS, "nul-reference", "a reference with an embedded NUL matched");
    // asking for the same text as another type
    int ot = (int)g.draw(3); if (ot != type && type != 0 && ot != 0) CHECK(HITLS_X509_VerifyIdentity(c, fl, T[ot], ref.c_str(), (uint32_t)ref.size()) != HITLS_PKI_SUCCESS, "type-confusion", "a %s reference matched as %s", tn[type], tn[ot]);
    HITLS_X509_CertFree(c);
}
PBT_TEST(match_pattern, 20000, 300000, 0, 300)
{
    S h = g.chance(1, 6) ? S((const char *)g.text(6, ".aB").c_str()) : host(g); S p = g.chance(1, 6) ? S(g.text(6, ".a*B")) : derive(g, h); if (bad(p)) pbt::discard(); bool partial = g.boolean();
    g.note("%s vs %s, %s", p.c_str(), h.c_str(), partial ? "partial" : "default"); g.nontrivial(); int m = model(p, h, partial);
    g.label(m == YES ? "matches" : m == NO ? "differs" : "either");
    int r = HITLS_X509_MatchPattern(partial ? HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD : 0, p.c_str(), h.c_str());
    if (m == YES) CHECK(r == HITLS_PKI_SUCCESS, "pattern-refused", "a matching pattern was refused");
    if (m == NO) CHECK(r != HITLS_PKI_SUCCESS, "pattern-accepted", "pattern %s accepted for %s", p.c_str(), h.c_str());
}
PBT_TEST(ip_text, 6000, 100000, 0, 300)
{
    // the address text is read as by inet_pton, or refused
    S t; if (g.chance(1, 2)) { Bytes b = g.bytes(g.boolean() ? 4 : 16); if (b.size() == 16) for (int i = 0; i < 16; i++) if (g.chance(1, 2)) b[(size_t)i] = 0; char s[64]; inet_ntop(b.size() == 4 ? AF_INET : AF_INET6, b.data(), s, sizeof s); t = s; int n = (int)g.weighted({1, 3, 1}); for (int i = 0; i < n; i++) { size_t k = g.draw(t.size()); if (g.boolean() && k < t.size()) t.erase(k, 1); else t.insert(k, 1, "0:.f1 :%g"[g.draw(8)]); } } else t = g.text(20, "0:.1f");
    uint8_t b[16]; size_t bl = 0; if (inet_pton(AF_INET, t.c_str(), b) == 1) bl = 4; else if (inet_pton(AF_INET6, t.c_str(), b) == 1) bl = 16;
    g.note("text '%s'", t.c_str()); g.label(bl ? "an address" : "not an address"); g.nontrivial();
    Bytes ips; if (bl) ips = Bytes(b, b + bl);
    static std::map<int, int> dummy; (void)dummy;
    Spec sp; Bytes gns; if (bl) { gns = tlv(0x87, ips); } else { Bytes z4(4, 0), o4 = {1, 1, 1, 1}, z16(16, 0), a16(16, 0); a16[15] = 1; for (auto &q : {z4, o4, z16, a16}) { Bytes e = tlv(0x87, q); gns.insert(gns.end(), e.begin(), e.end()); } }
    sp.ext.push_back({0, "2.5.29.17=" + [&] { Bytes q = tlv(0x30, gns); return S(q.begin(), q.end()); }(), false}); X509 *x = mkCert(sp, key, nullptr, key); Bytes d = der(x); X509_free(x); HITLS_X509_Cert *c = nullptr; BSL_Buffer bb = {d.data(), (uint32_t)d.size()};
    CHECK(HITLS_X509_CertParseBuff(BSL_FORMAT_ASN1, &bb, &c) == HITLS_PKI_SUCCESS, "parse", "certificate refused");
    int r = HITLS_X509_VerifyIdentity(c, 0, HITLS_GEN_IP, t.c_str(), (uint32_t)t.size()); HITLS_X509_CertFree(c);
    if (bl) CHECK(r == HITLS_PKI_SUCCESS, "ip-refused", "address %s was refused: %s", t.c_str(), rc(r).c_str()); else CHECK(r != HITLS_PKI_SUCCESS, "ip-accepted", "'%s' was taken for an address", t.c_str());
}
