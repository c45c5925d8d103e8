// T05: DTLS over a lossy, reordering, duplicating network
#include "tlsgen.hpp"
#include <time.h>
using namespace tls;
extern "C" { uint32_t __wrap_BSL_SAL_SysTimeGet(BSL_TIME *t); }
static uint64_t vus = 0; static int64_t vbase = 0;
uint32_t __wrap_BSL_SAL_SysTimeGet(BSL_TIME *t)
{
    time_t s = (time_t)(vbase + (int64_t)(vus / 1000000)); struct tm m; gmtime_r(&s, &m); memset(t, 0, sizeof *t); t->year = (uint16_t)(m.tm_year + 1900); t->month = (uint8_t)(m.tm_mon + 1); t->day = (uint8_t)m.tm_mday; t->hour = (uint8_t)m.tm_hour; t->minute = (uint8_t)m.tm_min; t->second = (uint8_t)m.tm_sec; t->millSec = (uint16_t)(vus / 1000 % 1000); t->microSec = (uint16_t)(vus % 1000); return BSL_SUCCESS;
}
const char *pbt::PROPERTY_RULE =
    "A generated DTLS 1.2, DTLS 1.3 or DTLCP configuration (suites, groups, certificates, PSK, cookies, client authentication, MTU, tickets) handshakes over a simulated datagram network under a virtual clock: every datagram may be lost, duplicated, delayed past later ones, replayed or accompanied by garbage, up to a fault budget per history; "
    "retransmission timers fire in virtual time when nothing moves. A configuration that handshakes on a perfect network must complete on the faulty one with equal keys, version, suite. Then both ends exchange numbered messages over the same network plus bit-flipped copies and replays of any earlier datagram; "
    "every received message must be one that was sent, unaltered, at most once; messages whose datagram arrived within the replay window must be received; no forged or replayed datagram may end the connection; a final exchange over a clean network works.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"during the handshake datagrams are not modified (unauthenticated), only lost, repeated, reordered or joined by unrecognisable garbage", "at most 8 faults per handshake, below the endpoint's own limit of retransmissions", "one HITLS_Write produces one datagram"};
void pbt::setup() { tlsInit(true); }
namespace {
bool again(int32_t r) { return Peer::retry(r) || r == HITLS_REC_NORMAL_RECV_DISORDER_MSG; }
struct Held { Bytes d; int due; int app; };
struct Dir { Pipe *from, *to; std::vector<Held> held; std::vector<Bytes> all; uint64_t newest = 0; const char *name; };
std::string show(const Side &x) { std::string r = sfmt("v=%04x-%04x suites=", x.vmin, x.vmax); for (auto v : x.suites) r += sfmt("%04x,", v); r += " groups="; for (auto v : x.groups) r += sfmt("%u,", v); r += sfmt(" certs=%zu vp=%d psk=%zu mtu=%u ck=%d tk=%d", x.certs.size(), (int)x.verifyPeer, x.psk.size(), x.mtu, (int)x.cookie, (int)x.tickets); return r; }
struct Net {
    G &g; Dir d[2]; int budget = 0; int clock = 0, faults = 0; bool data = false; std::string log; int num, den; std::set<int> arrived[2]; std::map<std::pair<int, Bytes>, int> app; 
    Net(G &gg) : g(gg) { num = (int)g.range(1, 4); den = (int)g.range(5, 12); }
    void put(int k, const Bytes &b) { d[k].to->q.push_back(b); }
    void one(int k, const Bytes &b)
    {
        Dir &x = d[k]; x.all.push_back(b); if (budget <= 0 || !g.chance(num, den)) { put(k, b); return; }
        budget--; faults++; int op = (int)g.weighted({5, 2, 4, 2, 1, data ? 4u : 0u}); log += sfmt(" %s%zu:%s", x.name, x.all.size() - 1, (const char *[]){"lost", "dup", "delay", "replay", "garbage", "forge"}[op]);
        switch (op) {
        case 0: break;
        case 1: put(k, b); put(k, b); break;
        case 2: x.held.push_back({b, clock + (int)g.range(1, 12), 0}); break;
        case 3: put(k, b); put(k, x.all[g.draw(x.all.size() - 1)]); break;
        case 4: { Bytes j = g.bytes(1 + g.draw(80)); if ((j[0] >= 20 && j[0] <= 26) || (j[0] & 0xe0) == 0x20 || j[0] >= 80) j[0] = 99; if (g.boolean()) put(k, j); put(k, b); break; }
        case 5: { int n = (int)g.range(1, 3); bool first = g.boolean(); if (first) put(k, b); for (int i = 0; i < n; i++) { Bytes f = g.chance(2, 3) ? b : x.all[g.draw(x.all.size() - 1)]; if (f.empty()) continue; if (g.chance(1, 4)) f.resize(g.draw(f.size() - 1)); else if (g.chance(1, 8)) { Bytes e = g.bytes(1 + g.draw(40)); f.insert(f.end(), e.begin(), e.end()); } if (!f.empty()) f[g.chance(1, 2) && f.size() > 13 ? g.draw(13) : g.draw(f.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); if (!f.empty()) put(k, f); } if (!first) put(k, b); break; }
        }
    }
    bool move()   // true when something was delivered
    {
        bool any = false; clock++;
        for (int k = 0; k < 2; k++) { Dir &x = d[k]; size_t before = x.to->total; (void)before; for (size_t i = 0; i < x.held.size();) if (x.held[i].due <= clock) { put(k, x.held[i].d); x.held.erase(x.held.begin() + (long)i); any = true; } else i++; while (!x.from->q.empty()) { Bytes b = x.from->q.front(); x.from->q.pop_front(); one(k, b); any = true; } any |= !x.held.empty(); }
        return any;
    }
};
}
PBT_TEST(lossy, 700, 25000, 0, 60)
{
    seedRand(g); vbase = g.pick<int64_t>({1798761590, 1798761599, 1800000000, 1804031995, 1835481594}); vus = g.draw(999999); Side cs, ss; GenOpt o; o.nice = true; o.forceProto = g.chance(1, 6) ? DTLCP : DTLS; o.io = false; genPair(g, cs, ss, o); cs.renego = ss.renego = false; cs.pha = ss.pha = false;
    std::string cfg = "C[" + show(cs) + "] S[" + show(ss) + "]"; g.note("%s", cfg.c_str());
    { Link l; l.open(cs, ss); l.handshake(); if (!l.ok()) { g.label("incompatible"); pbt::discard(); } }
    vus += g.draw(5000000); Pipe oc, os, ic, is; Peer c, s; c.setup(cs); s.setup(ss); c.open(&ic, &oc); s.open(&is, &os); Net n(g); n.d[0].from = &oc; n.d[0].to = &is; n.d[0].name = "c"; n.d[1].from = &os; n.d[1].to = &ic; n.d[1].name = "s"; n.budget = (int)g.draw(8);
    int timeouts = 0, idle = 0; Bytes part; Peer *P[2] = {&c, &s};
    for (int round = 0; round < 3000 && !(c.done && s.done); round++) {
        size_t a = ic.q.size() + is.q.size();
        for (Peer *p : P) { if (!p->done) { p->step(); if (p->dead && again(p->err)) p->dead = false; } else { int32_t r = rd(*p, 2048, part); CHECK(again(r), "t05-early", "%s done, peer not, read gives %s |%s | %s", p == &c ? "client" : "server", rc(r).c_str(), n.log.c_str(), cfg.c_str()); } CHECK(!p->dead, "t05-handshake", "%s failed: %s after faults%s | %s", p == &c ? "client" : "server", rc(p->err).c_str(), n.log.c_str(), cfg.c_str()); }
        bool moved = n.move(); if (moved || ic.q.size() + is.q.size() || a) { idle = 0; continue; } if (c.done && s.done) break;
        if (++idle < 3) continue; idle = 0;
        uint64_t best = ~0ull; for (Peer *p : P) { uint64_t t = 0; if (HITLS_DtlsGetTimeout(p->ctx, &t) == HITLS_SUCCESS) best = std::min(best, t); }
        CHECK(best != ~0ull && timeouts < 60, "t05-stuck", "nothing in flight, no timer running, client done %d, server done %d after faults%s | %s", c.done, s.done, n.log.c_str(), cfg.c_str());
        vus += best + g.draw(1000); timeouts++;
        for (Peer *p : P) { int32_t r = HITLS_DtlsProcessTimeout(p->ctx); n.log += sfmt(" t%c%s", p == &c ? 'c' : 's', r == HITLS_SUCCESS ? "!" : ""); CHECK(r == HITLS_SUCCESS || r == HITLS_MSG_HANDLE_DTLS_RETRANSMIT_NOT_TIMEOUT || r == HITLS_MSG_HANDLE_ERR_WITHOUT_TIMEOUT_ACTION || again(r), "t05-timeout", "ProcessTimeout %s after faults%s | %s", rc(r).c_str(), n.log.c_str(), cfg.c_str()); }
    }
    g.note("handshake: client %d server %d, %d timeouts, faults%s", c.done, s.done, timeouts, n.log.c_str());
    CHECK(c.done && s.done, "t05-incomplete", "handshake does not end (client %d server %d) after faults%s | %s", c.done, s.done, n.log.c_str(), cfg.c_str());
    if (n.faults) { g.nontrivial(); g.label(timeouts ? "handshake with retransmission" : "handshake with faults"); }
    CHECK(version(c) == version(s) && curSuite(c) == curSuite(s), "t05-params", "ends disagree on version or suite"); g.label(sfmt("version %04x", version(c)).c_str()); CHECK(exporter(c, "EXPORTER-t05", {}, false, 32) == exporter(s, "EXPORTER-t05", {}, false, 32), "t05-keys", "ends hold different keys | %s", cfg.c_str());
    // application data
    n.budget = (int)g.draw(40); n.data = true; n.log.clear(); int total = (int)g.range(2, 60), before = n.faults; std::map<Bytes, int> sent[2], got[2]; std::map<Bytes, int> dg[2]; std::set<Bytes> arrived[2]; int cnt[2] = {0, 0};
    auto drain = [&](int k) { for (int i = 0; i < 400; i++) { int32_t r = rd(*P[1 - k], 18000, part); if (r == HITLS_SUCCESS) { CHECK(sent[k].count(part), "t05-invented", "a message that was never sent was received (%zu bytes) | faults%s | %s", part.size(), n.log.c_str(), cfg.c_str()); got[k][part]++; CHECK(got[k][part] == 1, "t05-replayed", "message #%d was received twice | faults%s | %s", sent[k][part], n.log.c_str(), cfg.c_str()); } else { CHECK(again(r), "t05-ended", "read gives %s | faults%s | %s", rc(r).c_str(), n.log.c_str(), cfg.c_str()); if (P[1 - k]->in->q.empty()) break; } } };
    for (int m = 0; m < total; m++) {
        int k = (int)g.draw(1); Bytes msg = g.bytes(g.chance(1, 5) ? g.draw(1000) : g.draw(40)); uint8_t id[3] = {(uint8_t)k, (uint8_t)(cnt[k] >> 8), (uint8_t)cnt[k]}; msg.insert(msg.begin(), id, id + 3); Exact e(msg); uint32_t w = 0; int32_t r = 0; Pipe *out = P[k]->out; for (int i = 0; i < 50; i++) { r = HITLS_Write(P[k]->ctx, e.p, (uint32_t)e.n, &w); if (!again(r)) break; }
        CHECK(r == HITLS_SUCCESS && w >= 3 && w <= e.n, "t05-write", "write of %zu bytes gives %s | faults%s | %s", e.n, rc(r).c_str(), n.log.c_str(), cfg.c_str()); msg.resize(w); sent[k][msg] = cnt[k]++; (void)out;
        if (g.chance(3, 4)) n.move(); if (g.chance(1, 2)) { drain(0); drain(1); } if (g.chance(1, 10)) { vus += g.draw(200000000); for (Peer *p : P) HITLS_DtlsProcessTimeout(p->ctx); }
    }
    n.budget = 0; for (int i = 0; i < 20; i++) { n.move(); drain(0); drain(1); }
    if (n.faults > before) g.label("data with faults");
    int lost = 0; { std::string &L = n.log; for (size_t p = 0; (p = L.find(":lost", p)) != std::string::npos; p++) lost++; for (size_t p = 0; (p = L.find(":delay", p)) != std::string::npos; p++) lost++; }
    int missing = 0; for (int k = 0; k < 2; k++) missing += (int)(sent[k].size() - got[k].size()); CHECK(missing <= lost, "t05-lost", "%d messages missing, only %d datagrams were lost or delayed | faults%s | %s", missing, lost, n.log.c_str(), cfg.c_str());
    // finally, a clean network
    for (int k = 0; k < 2; k++) { Bytes msg = {9, (uint8_t)k, 9, 9}; uint32_t w = 0; CHECK(wr(*P[k], msg, &w) == HITLS_SUCCESS && w == 4, "t05-final-write", "write after faults fails | %s", cfg.c_str()); n.move(); sent[k][msg] = 9999; size_t x = got[k].size(); drain(k); CHECK(got[k].size() == x + 1 && got[k].count(msg), "t05-final", "clean message not delivered after faults%s | %s", n.log.c_str(), cfg.c_str()); }
}
