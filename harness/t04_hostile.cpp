// T04: a peer that sends malformed, missing, repeated or unexpected messages (correctly protected) never breaks an endpoint
#include "tlsgen.hpp"
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a configuration pair (TLS 1.2, TLS 1.3, TLCP, DTLS; any suites, with and without client certificates) in which one endpoint is hostile: its own handshake messages are changed before they are hashed into its transcript and protected (bit flips, changed length fields, truncations, extensions, changed types, oversized or empty bodies, duplicated, removed, "
    "added, reordered or replaced extensions), dropped, sent twice, replaced by or mixed with other messages and records of any type, 1 to 3 times per handshake, or messages and records are added after the handshake. A dry run of the same pair gives the legitimate message sequence. Non-trivial when the hostile endpoint really sent something different.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the hostile endpoint is an openHiTLS endpoint whose outgoing messages are changed through the linker's --wrap, so what it sends is consistently hashed and protected", "when the hostile endpoint itself gives up first, nothing is required of the alert of its peer", "DTLS endpoints may silently drop what a stream endpoint must refuse"};
struct TlsCtx;
extern "C" {
int t04Get(HITLS_Ctx *c, uint8_t **b, uint32_t *n, uint32_t *off); void t04Set(HITLS_Ctx *c, const uint8_t *b, uint32_t n);
int32_t __real_HS_SendMsg(HITLS_Ctx *c); int32_t __real_REC_Write(HITLS_Ctx *c, int t, const uint8_t *d, uint32_t n); int32_t __wrap_HS_SendMsg(HITLS_Ctx *c); int32_t __wrap_REC_Write(HITLS_Ctx *c, int t, const uint8_t *d, uint32_t n);
}
namespace {
enum Op { FLIP, LENF, TRUNC, EXTEND, TYPE, BIG, EMPTY, DROP, DUP, REPLACE, INSHS, INSREC, EXTDUP, EXTDROP, EXTADD, EXTSWAP, EXTBODY, HDRLEN, DROPCCS, SPLITREC, OPS };
const char *ON[] = {"flip", "length-field", "truncate", "extend", "type", "oversize", "empty", "drop", "duplicate", "replace", "insert-message", "insert-record", "dup-extension", "drop-extension", "add-extension", "swap-extensions", "extension-body", "header-length", "drop-ccs", "split"};
struct Plan { Op op; size_t at; uint64_t a, b; bool used = false; };
struct Hostile {
    HITLS_Ctx *ctx = nullptr; std::vector<Plan> plans; size_t idx = 0, ccs = 0; bool pending = false; std::vector<Bytes> sent; std::vector<int> seq; bool changed = false; std::vector<std::string> log; bool dtls = false; bool fatalFlip = false; bool shape = false; int depth = 0; bool anon = false; bool rec = false; bool nonEmptyCert = false; bool dupExt = false;
} *H = nullptr;
size_t hdr() { return H->dtls ? 12 : 4; }
void fixLen(Bytes &m) { size_t n = m.size() - hdr(); m[1] = (uint8_t)(n >> 16); m[2] = (uint8_t)(n >> 8); m[3] = (uint8_t)n; if (H->dtls) { m[9] = m[1]; m[10] = m[2]; m[11] = m[3]; } }
// position of the extension block's length field, 0 if none
size_t extAt(const Bytes &m)
{
    size_t o = hdr(), n = m.size(); auto u8 = [&](size_t i) { return i < n ? (size_t)m[i] : (size_t)0; };
    switch (m[0]) {
        case 1: o += 34; o += 1 + u8(o); if (H->dtls) o += 1 + u8(o); o += 2 + (u8(o) << 8 | u8(o + 1)); o += 1 + u8(o); break;
        case 2: o += 34; o += 1 + u8(o); o += 3; break;
        case 8: break;
        case 13: o += 1 + u8(o); break;
        default: return 0;
    }
    if (o + 2 > n || o + 2 + (u8(o) << 8 | u8(o + 1)) != n) return 0; return o;
}
std::vector<Bytes> exts(const Bytes &m, size_t o) { std::vector<Bytes> v; o += 2; while (o + 4 <= m.size()) { size_t k = 4 + ((size_t)m[o + 2] << 8 | m[o + 3]); if (o + k > m.size()) break; v.push_back(Bytes(m.begin() + (long)o, m.begin() + (long)(o + k))); o += k; } return v; }
Bytes withExts(const Bytes &m, size_t o, const std::vector<Bytes> &v) { Bytes r(m.begin(), m.begin() + (long)o + 2); for (auto &e : v) r.insert(r.end(), e.begin(), e.end()); size_t n = r.size() - o - 2; r[o] = (uint8_t)(n >> 8); r[o + 1] = (uint8_t)n; fixLen(r); return r; }
Bytes rnd(uint64_t s, size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)(splitmix(s) >> 16); return b; }
Bytes hsMsg(uint8_t t, const Bytes &body) { Bytes m = {t, 0, 0, 0}; m[1] = (uint8_t)(body.size() >> 16); m[2] = (uint8_t)(body.size() >> 8); m[3] = (uint8_t)body.size(); if (H->dtls) { Bytes x = {0, (uint8_t)H->sent.size(), 0, 0, 0, m[1], m[2], m[3]}; m.insert(m.end(), x.begin(), x.end()); } m.insert(m.end(), body.begin(), body.end()); return m; }
const uint8_t HT[] = {0, 1, 2, 4, 5, 8, 11, 12, 13, 14, 15, 16, 20, 22, 24, 3, 67, 254};
Bytes extra(uint64_t a, uint64_t b) { uint64_t s = b; uint8_t t = HT[a % sizeof HT]; Bytes body; switch (splitmix(s) % 5) { case 0: break; case 1: body = {(uint8_t)(splitmix(s) % 3)}; break; case 2: body = rnd(s, splitmix(s) % 64); break; case 3: if (!H->sent.empty()) return H->sent[splitmix(s) % H->sent.size()]; break; default: body = rnd(s, t == 20 ? 12 + 20 * (splitmix(s) % 3) : splitmix(s) % 400); } return hsMsg(t, body); }
// send one message out of turn through the real function
int32_t sendNow(HITLS_Ctx *c, const Bytes &m) { t04Set(c, m.data(), (uint32_t)m.size()); int32_t r = HITLS_SUCCESS; for (int i = 0; i < 2000; i++) { r = __real_HS_SendMsg(c); if (r != HITLS_REC_NORMAL_IO_BUSY) break; } if (r == HITLS_SUCCESS) { H->seq.push_back(m[0]); H->sent.push_back(m); H->changed = true; } return r; }
void insRec(HITLS_Ctx *c, uint64_t a, uint64_t b)
{
    static const int T[] = {20, 21, 22, 23, 24, 25, 26, 99, 255}; uint64_t s = b; int t = T[a % 9]; Bytes d; switch (splitmix(s) % 4) { case 0: d = {1}; break; case 1: d = {(uint8_t)(1 + splitmix(s) % 3), (uint8_t)(splitmix(s) % 120)}; break; case 2: d = rnd(s, 1 + splitmix(s) % 100); break; default: d = rnd(s, 1 + splitmix(s) % 2000); }
    if (t == 21 && d.size() == 2) H->shape = true; Exact e(d); for (int i = 0; i < 2000; i++) { int32_t r = __real_REC_Write(c, t, e.p, (uint32_t)e.n); if (r != HITLS_REC_NORMAL_IO_BUSY) { if (r == HITLS_SUCCESS) { H->changed = true; H->rec = true; H->log.push_back(sfmt("record %d of %zu", t, d.size())); } break; } }
}
}
extern "C" int32_t __wrap_REC_Write(HITLS_Ctx *c, int t, const uint8_t *d, uint32_t n)
{
    if (H && c == H->ctx && t == 20) for (auto &p : H->plans) if (!p.used && p.op == DROPCCS) { p.used = true; H->changed = true; H->log.push_back("ccs dropped"); return HITLS_SUCCESS; }
    return __real_REC_Write(c, t, d, n);
}

extern "C" int32_t __wrap_HS_SendMsg(HITLS_Ctx *c)
{
    if (!H || c != H->ctx || H->depth) return __real_HS_SendMsg(c);
    uint8_t *b; uint32_t n, off; if (!t04Get(c, &b, &n, &off) || n < hdr()) return __real_HS_SendMsg(c);
    if (H->pending) { int32_t r = __real_HS_SendMsg(c); if (r == HITLS_SUCCESS) H->pending = false; return r; }
    Bytes m(b, b + n), o = m; size_t i = H->idx++; bool drop = false, dup = false; Bytes after; bool was = H->fatalFlip, late = std::find(H->seq.begin(), H->seq.end(), 20) != H->seq.end();
    for (auto &p : H->plans) if (!p.used && p.at == i && p.op != DROPCCS) {
        p.used = true; size_t k = m.size() - hdr(), h = hdr(); uint64_t s = p.b; H->log.push_back(sfmt("%s on message %zu type %d (%zu octets)", ON[p.op], i, m[0], m.size()));
        switch (p.op) {
            case FLIP: if (k) { size_t at = h + p.a % k; m[at] ^= (uint8_t)(p.b % 4 ? 1u << (p.b / 4 % 8) : 1 + p.b / 4 % 255); if (m[0] == 15 || m[0] == 20 || m[0] == 16 || (m[0] == 12 && !H->anon)) H->fatalFlip = true; } break;
            case LENF: if (k) { size_t at = h + p.a % k, w = 1 + p.b % 3; uint64_t v = (p.b / 3) % 6; for (size_t q = 0; q < w && at + q < m.size(); q++) { uint8_t &x = m[at + q]; x = v == 0 ? 0 : v == 1 ? 255 : v == 2 ? (uint8_t)(q + 1 == w ? x + 1 : x) : v == 3 ? (uint8_t)(q + 1 == w ? x - 1 : x) : v == 4 ? (uint8_t)(q ? x : x + 1) : (uint8_t)splitmix(s); } if (m != o && (m[0] == 15 || m[0] == 20 || m[0] == 16 || (m[0] == 12 && !H->anon))) H->fatalFlip = true; } break;
            case TRUNC: if (k) { m.resize(h + p.a % k); fixLen(m); if (m[0] > 2) H->fatalFlip = true; } break;
            case EXTEND: { Bytes x = rnd(p.b, 1 + p.a % 40); m.insert(m.end(), x.begin(), x.end()); fixLen(m); if (m[0] > 2) H->fatalFlip = true; break; }
            case TYPE: m[0] = HT[p.a % sizeof HT]; break;
            case BIG: { Bytes x = rnd(p.b, p.a % 3 ? 16000 + p.a % 60000 : 200 + p.a % 3000); m.insert(m.end(), x.begin(), x.end()); fixLen(m); if (m[0] > 2) H->fatalFlip = true; break; }
            case EMPTY: m.resize(h); fixLen(m); if (k && m[0] != 8) H->fatalFlip = true; break;
            case DROP: drop = true; break;
            case DUP: dup = true; break;
            case REPLACE: m = extra(p.a, p.b); break;
            case INSHS: { Bytes x = extra(p.a, p.b); if (p.b & 256) after = x; else { if (sendNow(c, x) != HITLS_SUCCESS) return HITLS_INTERNAL_EXCEPTION; } break; }
            case INSREC: insRec(c, p.a, p.b); break;
            case EXTDUP: case EXTDROP: case EXTADD: case EXTSWAP: case EXTBODY: {
                size_t e = extAt(m); if (!e) break; auto v = exts(m, e); size_t q = v.empty() ? 0 : p.a % v.size();
                if (p.op == EXTDUP && !v.empty()) { v.insert(v.begin() + (long)(p.b % (v.size() + 1)), Bytes(v[q])); if (p.b & 4096) v.back()[v.back().size() - 1] ^= 0; H->dupExt = true; }
                if (p.op == EXTDROP && !v.empty()) v.erase(v.begin() + (long)q);
                if (p.op == EXTADD) { static const uint16_t T[] = {0, 1, 5, 10, 11, 13, 15, 16, 22, 23, 28, 35, 41, 42, 43, 44, 45, 47, 49, 50, 51, 54, 0xff01, 0x1234}; uint16_t t = T[p.a % 24]; Bytes body = rnd(s, splitmix(s) % 3 ? splitmix(s) % 12 : 0); Bytes x = {(uint8_t)(t >> 8), (uint8_t)t, (uint8_t)(body.size() >> 8), (uint8_t)body.size()}; x.insert(x.end(), body.begin(), body.end()); v.insert(v.begin() + (long)(p.b % (v.size() + 1)), x); }
                if (p.op == EXTSWAP && v.size() > 1) std::swap(v[q], v[p.b % v.size()]);
                if (p.op == EXTBODY && !v.empty()) { Bytes &x = v[q]; x.resize(4); Bytes body = rnd(s, splitmix(s) % 20); x[2] = 0; x[3] = (uint8_t)body.size(); x.insert(x.end(), body.begin(), body.end()); }
                m = withExts(m, e, v); break; }
            case HDRLEN: { if (H->dtls) break; uint32_t v = (uint32_t)(m[1] << 16 | m[2] << 8 | m[3]); v = p.b % 4 == 0 ? v + 1 : p.b % 4 == 1 ? v - 1 : p.b % 4 == 2 ? 0xffffff : (uint32_t)(p.a & 0xffffff); m[1] = (uint8_t)(v >> 16); m[2] = (uint8_t)(v >> 8); m[3] = (uint8_t)v; if (m != o) H->fatalFlip = true; break; }
            case SPLITREC: { if (m.size() < 8 || H->dtls) break; break; }
            default: break;
        }
    }
    if (late) H->fatalFlip = was;
    if (drop) { H->changed = true; uint8_t z[4] = {0}; (void)z; t04Set(c, m.data(), 0); return HITLS_SUCCESS; }
    if (m != o) H->changed = true; if (m != o || H->changed) t04Set(c, m.data(), (uint32_t)m.size());
    if (m[0] == 11 && m.size() > hdr() + 8) H->nonEmptyCert = true;
    H->seq.push_back(m[0]); H->sent.push_back(m); H->depth++; int32_t r = __real_HS_SendMsg(c); H->depth--; 
    if (dup || !after.empty()) { for (int q = 0; q < 2000 && r == HITLS_REC_NORMAL_IO_BUSY; q++) r = __real_HS_SendMsg(c); if (r == HITLS_SUCCESS) r = sendNow(c, dup ? m : after); return r; }
    if (r == HITLS_REC_NORMAL_IO_BUSY) H->pending = true; return r;
}
namespace {
struct Watch { bool fatal = false; int alert = -1; bool gotAlert = false; } *W = nullptr; HITLS_Ctx *victimCtx = nullptr;
void info(const HITLS_Ctx *c, int32_t ev, int32_t v) { if (!W || c != victimCtx) return; if (ev == INDICATE_EVENT_WRITE_ALERT) { if ((v >> 8) == 2 || (v & 0xff00) == 0x200) W->fatal = true; W->alert = v; } if (ev == INDICATE_EVENT_READ_ALERT) W->gotAlert = true; }
bool in(const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
// is the sequence one that a peer may legitimately send to a completed handshake?
std::string legal(bool clientVictim, uint16_t ver, std::vector<int> s, const std::vector<int> &base, bool asked, bool nonEmpty)
{
    auto f = std::find(s.begin(), s.end(), 20); if (f == s.end()) return "no Finished was sent"; s.erase(f + 1, s.end()); size_t i = 0; auto take = [&](int t) { if (i < s.size() && s[i] == t) { i++; return true; } return false; }; if (ver != 0x0304 && ver != 0xfefc) { std::vector<int> q; for (int t : s) if (t != 0 || !clientVictim) q.push_back(t); s = q; }
    bool t13 = ver == 0x0304 || ver == 0xfefc; if (clientVictim) { while (take(3)) {}
        if (!take(2)) return "ServerHello missing"; if (t13) { take(2); if (!take(8)) return "EncryptedExtensions missing"; bool needCert = in(base, 11); take(13); bool c = take(11); if (needCert && !c) return "Certificate missing"; if (c && !take(15)) return "CertificateVerify missing"; }
        else { bool c = take(11); if (in(base, 11) && !c) return "Certificate missing"; take(22); bool k = take(12); if (in(base, 12) && !k) return "ServerKeyExchange missing"; take(13); if (!take(14)) return "ServerHelloDone missing"; take(4); }
    } else { if (!take(1)) return "ClientHello missing"; take(1); if (H && H->dtls) while (take(1)) {} bool c = take(11); if (asked && !c) return "Certificate missing"; if (!asked && c) return "unrequested Certificate"; if (!t13 && !take(16)) return "ClientKeyExchange missing"; if (c && nonEmpty && !take(15)) return "CertificateVerify missing"; if (c && !nonEmpty) {} }
    return take(20) && i == s.size() ? "" : "message out of order";
}
std::string str(const std::vector<int> &v) { std::string r; for (int x : v) r += sfmt("%d ", x); return r; }
struct Run { bool vDone, vDead, aDone, aDead; uint16_t ver = 0; std::vector<int> seq, vseq; int32_t verr = 0; };
}
void pbt::setup() { tlsInit(); useTrackedMem(); }
PBT_TEST(hostile, 1500, 80000, 0, 60)
{
    seedRand(g); Side cs, ss; GenOpt o; o.nice = true; o.allowPsk = g.chance(1, 6); o.allowAnon = g.chance(1, 6); o.forceProto = (int)g.weighted({8, 1, 2}) == 0 ? (int)TLS : g.boolean() ? (int)TLCP : (int)DTLS; genPair(g, cs, ss, o); if (o.forceProto == TLCP) cs.certs = {KSM2}; bool av = g.boolean(); bool dtls = ss.proto != TLS && ss.proto != TLCP;   // av: the client is hostile
    std::vector<Plan> plans; int np = (int)g.weighted({6, 2, 1}) + 1; bool post = g.chance(1, 5); size_t postAt = 0;
    if (!post) for (int i = 0; i < np; i++) { Plan p; p.op = (Op)g.weighted({8, 5, 4, 4, 3, 2, 2, 6, 3, 4, 4, 4, 3, 3, 3, 1, 3, 2, 2}); p.at = (size_t)g.draw(av ? 4 : 6); p.a = g.draw(UINT32_MAX); p.b = g.draw(UINT32_MAX); plans.push_back(p); }
    std::vector<int> base; uint16_t ver = 0; bool asked = false, anon = false;
    {   // dry run
        Link l; l.c.setup(cs); l.s.setup(ss); l.reopen(); Hostile h; h.dtls = dtls; h.ctx = (av ? l.c : l.s).ctx; H = &h; l.handshake(); base = h.seq; if (l.ok()) { ver = version(l.c); } bool ok = l.ok(); H = nullptr; if (!ok) { BSL_ERR_RemoveErrorStack(true); pbt::discard(); } anon = !in(base, 12) ? false : !in(base, 11);
        if (av) { asked = in(base, 11); }
        if (!av && in(base, 12) && !in(base, 11)) anon = true;
    }
    BSL_ERR_RemoveErrorStack(true); long live = memCtl().live; std::string cfg;
    {
        Link l; l.c.setup(cs); l.s.setup(ss); if (g.chance(1, 4) && !post) l.sched(g); l.reopen(); Hostile h; h.dtls = dtls; h.anon = anon || o.allowPsk; h.plans = plans; Peer &A = av ? l.c : l.s, &V = av ? l.s : l.c; h.ctx = A.ctx; victimCtx = V.ctx; Watch w; W = &w; HITLS_SetInfoCb(V.ctx, info); H = &h;
        bool aFirst = false; uint64_t last = ~0ull; int idle = 0, rounds = 0; Bytes leak;
        while (rounds++ < 400000 && idle < 40 && !((A.done || A.dead) && (V.done || V.dead))) {
            if (av) { A.step(); if (A.dead && !V.dead) aFirst = true; V.step(); } else { V.step(); A.step(); if (A.dead && !V.dead) aFirst = true; } if (A.dead) { (av ? l.a2b : l.b2a).eof = true; } if (V.dead) (av ? l.b2a : l.a2b).eof = true;
            if (!V.done && !V.dead && rounds % 3 == 0 && false) { Bytes b; rd(V, 100, b); }
            uint64_t mv = l.moved() * 8 + A.done + V.done * 2; if (mv == last) idle++; else idle = 0; last = mv;
        }
        CHECK(rounds < 400000, "t04-hang", "the endpoints keep exchanging data without end"); size_t seqAtDone = h.seq.size(); (void)seqAtDone;
        for (auto &x : h.log) cfg += x + "; "; cfg += sfmt("| %s hostile, base %s sent %s v=%04x/%04x victim done=%d dead=%d err %s alert %d", av ? "client" : "server", str(base).c_str(), str(h.seq).c_str(), ver, V.done ? version(V) : 0, V.done, V.dead, rc(V.err).c_str(), w.alert); g.note("%s", cfg.c_str()); g.key(cfg);
        if (h.changed) { g.nontrivial(); g.label(V.done ? "completed" : V.dead ? "refused" : "waiting"); }
        if (V.done) {
            uint16_t v = version(V); bool ask = av ? (v == ver ? asked : asked) : false; if (v == ver || !av) { std::string e = legal(!av, v, h.seq, base, ask, h.nonEmptyCert); CHECK(e.empty() || (h.dtls && e == "message out of order"), "t04-sequence", "handshake completed although: %s | %s", e.c_str(), cfg.c_str()); }
            CHECK(!h.fatalFlip || h.dtls || h.rec, "t04-accepted", "handshake completed with a malformed or wrong message | %s", cfg.c_str());
        } else if (V.dead && !aFirst && h.changed && !h.dtls && !w.gotAlert && !h.shape) CHECK(w.alert >= 0 && w.fatal, "t04-alert", "the endpoint gave up without a fatal alert | %s", cfg.c_str());
        if (V.dead) { Bytes b; int32_t r = rd(V, 50, b); CHECK(r != HITLS_SUCCESS || b.empty(), "t04-data", "application data after a failed handshake | %s", cfg.c_str()); }
        if (post && l.ok()) {   // after the handshake
            Bytes d = g.bytes(g.len(1, 60)), got; uint32_t n = 0; int32_t r = wr(A, d, &n); (void)r; int k = (int)g.range(1, 4); bool alertSent = false; h.shape = false; std::string pl; size_t sentData = n;
            for (int i = 0; i < k; i++) { uint64_t a = g.draw(UINT32_MAX), b = g.draw(UINT32_MAX); static const int T[] = {22, 22, 22, 21, 20, 23, 24, 25, 26}; int t = T[a % 9]; uint64_t s = b; Bytes m; if (t == 22) { uint8_t ht = HT[a / 16 % sizeof HT]; Bytes body = s % 3 == 0 ? Bytes() : s % 3 == 1 ? Bytes(1, (uint8_t)(s / 8 % 3)) : rnd(s, s / 8 % 300); m = hsMsg(ht, body); if (s / 4096 % 5 == 0) m[2] ^= 0xff; } else if (t == 21) { m = {(uint8_t)(1 + s % 3), (uint8_t)(s / 8 % 120)}; if (s % 7 == 0) m.push_back(3); alertSent = true; } else if (t == 23) { m = rnd(s, 1 + s % 50); } else m = rnd(s, 1 + s % 40); if (t == 20 && s % 2) m = {1};
                Exact e(m); int32_t q = __real_REC_Write(A.ctx, t, e.p, (uint32_t)e.n); if (q == HITLS_SUCCESS) { h.changed = true; if (t == 23) { d.resize(sentData); d.insert(d.end(), m.begin(), m.end()); sentData = d.size(); } } pl += sfmt("%d/%d(%zu) ", t, t == 22 ? m[0] : -1, m.size()); }
            int end = 0; for (int i = 0; i < 60 && !end; i++) { Bytes b; int32_t q = rd(V, 100, b); if (q == HITLS_SUCCESS) { CHECK(!h.dtls ? got.size() + b.size() <= d.size() && std::equal(b.begin(), b.end(), d.begin() + (long)got.size()) : true, "t04-post-data", "wrong data delivered after %s | %s", pl.c_str(), cfg.c_str()); got.insert(got.end(), b.begin(), b.end()); } else if (!Peer::retry(q)) end = q; Bytes x; rd(A, 100, x); }
            g.note("post: %s -> %s", pl.c_str(), rc(end).c_str()); g.nontrivial(); g.label(end ? "post-refused" : "post-tolerated"); (void)alertSent;
        }
        H = nullptr; W = nullptr;
    }
    BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, "t04-leak", "%ld allocations left | %s", memCtl().live - live, cfg.c_str());
}
