// T02: application data on an established stream connection arrives exactly once, in order, unaltered.
#include "tlsgen.hpp"
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a configuration pair (TLS 1.2/1.3/TLCP, any suite, record size limits, fragment limits, padding, EtM, flight mode), an I/O schedule with short transfers and would-block results, and a history of writes, reads, peeks, key updates, renegotiations, client re-authentications and schedule changes on both sides; non-trivial when at least two of them moved data and everything was drained and compared.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the application repeats a write that would block with the same data, as documented", "neither side writes while a renegotiation it started is under way"};
void pbt::setup() { tlsInit(); }
namespace {
struct Flow { Bytes all; size_t read = 0; Bytes pend; std::unique_ptr<Exact> buf; size_t acked = 0; };   // all: bytes whose write succeeded
struct Run {
    G &g; Link &l; Flow f[2]; int moved = 0; bool is13 = false; std::string cfg;   // f[0]: client to server
    Run(G &gg, Link &ll) : g(gg), l(ll) {}
    Peer &wside(int d) { return d ? l.s : l.c; } Peer &rside(int d) { return d ? l.c : l.s; }
    void startWrite(int d, const Bytes &m) { Flow &x = f[d]; if (!x.pend.empty()) return; x.pend = m; x.buf.reset(new Exact(m)); pushWrite(d); }
    // one attempt at the pending write
    bool pushWrite(int d)
    {
        Flow &x = f[d]; if (x.pend.empty()) return true; uint32_t n = 0; int32_t r = HITLS_Write(wside(d).ctx, x.buf->p, (uint32_t)x.pend.size(), &n);
        if (r == HITLS_SUCCESS) { CHECK(n > 0 && n <= x.pend.size(), "t02-writelen", "a write of %zu bytes reported %u", x.pend.size(), n); x.all.insert(x.all.end(), x.pend.begin(), x.pend.begin() + n); Bytes rest(x.pend.begin() + n, x.pend.end()); x.pend = rest; x.buf.reset(rest.empty() ? nullptr : new Exact(rest)); moved++; return x.pend.empty(); }
        CHECK(Peer::retry(r), "t02-write", "write returned %s | %s", rc(r).c_str(), cfg.c_str()); CHECK(n == 0, "t02-writelen-fail", "a failed write reported %u bytes", n); return false;
    }
    void check(int d, const Bytes &got, const char *what)
    {
        Flow &x = f[d]; size_t have = x.all.size() - x.read; for (size_t i = 0; i < got.size(); i++) { size_t p = x.read + i; uint8_t want; if (p < x.all.size()) want = x.all[p]; else { CHECK(p - x.all.size() < x.pend.size(), "t02-invented", "%s returned %zu bytes, only %zu (+%zu being written) were left | %s", what, got.size(), have, x.pend.size(), cfg.c_str()); want = x.pend[p - x.all.size()]; } CHECK(got[i] == want, "t02-altered", "%s: byte %zu of the stream is %02x, written was %02x | %s", what, p, got[i], want, cfg.c_str()); }
    }
    int32_t readOnce(int d, size_t cap)
    {
        Bytes b; uint32_t pend = HITLS_GetReadPendingBytes(rside(d).ctx); int32_t r = rd(rside(d), cap, b); if (r == HITLS_SUCCESS) { check(d, b, "read"); f[d].read += b.size(); if (pend) CHECK(b.size() == std::min<size_t>(cap, pend), "t02-pending", "%u bytes were pending, a read of %zu returned %zu", pend, cap, b.size()); if (!b.empty()) moved++; }
        else { CHECK(Peer::retry(r), "t02-read", "read returned %s | %s", rc(r).c_str(), cfg.c_str()); } return r;
    }
    void peek(int d, size_t cap)
    {
        Exact e(cap); uint32_t n = 0; int32_t r = HITLS_Peek(rside(d).ctx, e.p, (uint32_t)cap, &n); if (r == HITLS_INTERNAL_EXCEPTION && is13) { g.label("peek-at-handshake-record"); return; } /* a peek cannot take a post-handshake message that spans records; reads go on */ if (r != HITLS_SUCCESS) { CHECK(Peer::retry(r), "t02-peek", "peek returned %s | %s", rc(r).c_str(), cfg.c_str()); return; } Bytes b(e.p, e.p + n); check(d, b, "peek"); Bytes c; r = rd(rside(d), n, c); CHECK(r == HITLS_SUCCESS && c == b, "t02-peek-read", "peek showed %u bytes, the next read returned %s with %zu | %s", n, rc(r).c_str(), c.size(), cfg.c_str()); f[d].read += n;
    }
    bool drained() { for (int d = 0; d < 2; d++) if (!f[d].pend.empty() || f[d].read < f[d].all.size()) return false; return true; }
    void drain() { int idle = 0; for (int i = 0; i < 400000 && !drained(); i++) { size_t m = f[0].read + f[1].read + f[0].all.size() + f[1].all.size(); uint64_t mv = l.moved(); for (int d = 0; d < 2; d++) { pushWrite(d); readOnce(d, 1 + g.len(0, 20000)); } if (m == f[0].read + f[1].read + f[0].all.size() + f[1].all.size() && mv == l.moved()) { if (++idle > 300) break; } else idle = 0; }
        for (int d = 0; d < 2; d++) CHECK(f[d].pend.empty() && f[d].read == f[d].all.size(), "t02-lost", "direction %d: %zu of %zu written bytes arrived (%zu still to write) | %s", d, f[d].read, f[d].all.size(), f[d].pend.size(), cfg.c_str()); }
};
}  // namespace
PBT_TEST(stream, 1200, 60000, 0, 30)
{
    seedRand(g); Side cs, ss; GenOpt o; o.allowDtls = false; o.nice = true; o.forceProto = g.chance(1, 10) ? TLCP : TLS; genPair(g, cs, ss, o); if (o.forceProto == TLCP) { cs.certs = {KSM2}; } bool reneg = g.chance(1, 5), pha = o.forceProto == TLS && g.chance(1, 6), partial = g.chance(1, 3); cs.renego = ss.renego = reneg; cs.pha = ss.pha = pha; if (pha) { ss.verifyPeer = true; if (cs.certs.empty()) cs.certs = {KP256}; cs.sigs.assign(std::begin(ALLSIGS), std::end(ALLSIGS)); ss.sigs = cs.sigs; }
    if (partial) cs.modeFlags = ss.modeFlags = HITLS_MODE_ENABLE_PARTIAL_WRITE; if (g.chance(1, 4)) { uint16_t z = (uint16_t)g.pick<int>({512, 600, 4096, 16384}); cs.maxFrag = z; if (g.boolean()) ss.maxFrag = z; } if (g.chance(1, 4)) { cs.rsl = (uint16_t)g.range(64, 16385); ss.rsl = (uint16_t)g.range(64, 16385); } if (g.chance(1, 6)) { cs.inbuf = (uint32_t)g.range(512, 18432); }
    cs.inbuf = 0; Link l; l.c.setup(cs); l.s.setup(ss); l.sched(g); l.reopen(); l.handshake(); if (!l.ok()) pbt::discard();
    Run r(g, l); uint16_t v = version(l.c); bool is13 = v == 0x0304; r.is13 = is13; r.cfg = sfmt("v=%04x suite=%04x rsl=%d/%d frag=%d/%d pad=%d/%d partial=%d io=%d%d%d%d", v, curSuite(l.c), cs.rsl, ss.rsl, cs.maxFrag, ss.maxFrag, cs.pad, ss.pad, partial, l.c.rd.mode, l.c.wr.mode, l.s.rd.mode, l.s.wr.mode); g.note("%s", r.cfg.c_str()); g.label(sfmt("v%04x", v));
    int ops = 1 + (int)g.draw(20); int ku = 0, rn = 0, ph = 0; size_t budget = 300000; bool lowIo = l.c.rd.mode && l.c.rd.maxChunk < 50; for (Sched *q : {&l.c.wr, &l.s.rd, &l.s.wr}) lowIo |= q->mode && q->maxChunk < 50; if (lowIo) budget = 12000; uint16_t minRec = 16384; for (Side *q : {&cs, &ss}) { if (q->rsl) minRec = std::min(minRec, q->rsl); if (q->maxFrag) minRec = std::min(minRec, q->maxFrag); }
    for (int i = 0; i < ops; i++) {
        int d = (int)g.draw(1); Peer &w = r.wside(d), &rd_ = r.rside(d);
        switch (g.weighted({8, 8, 2, 3, 2, reneg && !is13 && v != 0x0101 ? 3u : 0u, pha && is13 ? 3u : 0u})) {
            case 0: { uint32_t mx = 0; HITLS_GetMaxWriteSize(w.ctx, &mx); size_t n = 1 + g.len(0, std::min<size_t>(budget, partial ? 40000 : 36000)); if (n > mx) n = g.chance(1, 3) ? n : 1 + n % mx; n = std::min(n, budget); if (minRec < 200) n = std::min<size_t>(n, 4000); if (!n) break; budget -= n; Bytes m(n); uint64_t s = g.draw(UINT32_MAX); for (auto &b : m) b = (uint8_t)splitmix(s); g.note("%d:write %zu", d, n); r.startWrite(d, m); break; }
            case 1: { size_t cap = g.pick<size_t>({1, 2, 17, 100, 1000, 16384, 20000}); int k = 1 + (int)g.draw(5); g.note("%d:read %zu x%d", d, cap, k); while (k--) r.readOnce(d, cap); break; }
            case 2: r.peek(d, 1 + g.len(0, 3000)); break;
            case 3: if (!is13) break; { int32_t x = HITLS_KeyUpdate(w.ctx, g.boolean() ? HITLS_UPDATE_REQUESTED : HITLS_UPDATE_NOT_REQUESTED); g.note("%d:keyupdate -> %x", d, x); if (x == HITLS_SUCCESS) ku++; break; }
            case 4: { Sched *q[] = {&l.c.rd, &l.c.wr, &l.s.rd, &l.s.wr}; Sched &z = *q[g.draw(3)]; z.mode = (int)g.draw(2); if (!lowIo) z.maxChunk = 1 + g.len(0, 2000); else z.maxChunk = std::max<size_t>(z.maxChunk, 1); if (z.maxChunk < 50 && !lowIo) z.maxChunk += 50; break; }
            case 5: {   // a renegotiation runs with both sides quiet except for data already written
                for (int k = 0; k < 2; k++) for (int j = 0; j < 4000 && !r.f[k].pend.empty(); j++) { r.pushWrite(k); if (r.f[k].pend.empty()) break; r.readOnce(k, 20000); }
                if (g.chance(3, 4)) for (int j = 0; j < 4000 && !r.drained(); j++) for (int k = 0; k < 2; k++) r.readOnce(k, 20000);
                if (r.f[0].all.size() - r.f[0].read + r.f[1].all.size() - r.f[1].read > 10u * minRec) break;
                uint8_t f0[64] = {0}; uint32_t f0n = 0; HITLS_GetFinishVerifyData(w.ctx, f0, 64, &f0n); int32_t x = HITLS_Renegotiate(w.ctx); g.note("%d:renegotiate -> %x (unread %zu %zu)", d, x, r.f[0].all.size() - r.f[0].read, r.f[1].all.size() - r.f[1].read); CHECK(x == HITLS_SUCCESS, "t02-reneg-start", "renegotiate returned %s", rc(x).c_str()); bool viaRead = w.s.server || !r.drained() || g.boolean(), sent = !w.s.server, wdone = false;
                for (int j = 0; j < 20000 && !wdone; j++) {
                    if (!sent || !viaRead) { int32_t y = w.s.server ? HITLS_Accept(w.ctx) : HITLS_Connect(w.ctx); if (y == HITLS_SUCCESS) { sent = true; } else CHECK(Peer::retry(y), "t02-reneg", "renegotiation: %s returned %s | %s", w.s.server ? "accept" : "connect", rc(y).c_str(), r.cfg.c_str()); }
                    else r.readOnce(1 - d, 20000);
                    r.readOnce(d, 20000); bool a = true, b = true; HITLS_GetRenegotiationState(w.ctx, &a); HITLS_GetRenegotiationState(rd_.ctx, &b); uint8_t fa[64], fb[64]; uint32_t an = 0, bn = 0; HITLS_GetFinishVerifyData(w.ctx, fa, 64, &an); HITLS_GetPeerFinishVerifyData(rd_.ctx, fb, 64, &bn); wdone = sent && !a && !b && an && an == bn && !memcmp(fa, fb, an) && memcmp(fa, f0, an); }
                CHECK(wdone, "t02-reneg-stuck", "renegotiation did not finish | %s", r.cfg.c_str()); rn++; uint8_t a[64], b[64]; uint32_t an = 0, bn = 0; HITLS_GetFinishVerifyData(l.c.ctx, a, 64, &an); HITLS_GetPeerFinishVerifyData(l.s.ctx, b, 64, &bn); CHECK(an == bn && an && !memcmp(a, b, an), "t02-reneg-agree", "after renegotiation the sides disagree on Finished"); break; }
            default: { int32_t x = HITLS_VerifyClientPostHandshake(l.s.ctx); g.note("pha -> %x", x); if (x == HITLS_SUCCESS) ph++; break; }
        }
    }
    r.drain(); if (ku) g.label("keyupdate"); if (rn) g.label("renegotiated"); if (ph) g.label("pha"); if (cs.rsl || ss.rsl) g.label("rsl"); if (cs.pad || ss.pad) g.label("pad"); if (partial) g.label("partial-write"); g.label(sfmt("suite-%04x", curSuite(l.c))); if (r.moved >= 2) g.nontrivial();
}
