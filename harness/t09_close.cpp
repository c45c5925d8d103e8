// T09: closure is explicit; truncation is never reported as a clean end.
#include "tlsgen.hpp"
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a history on an established connection (TLS 1.2/1.3, TLCP, DTLS 1.2, any suite/flags) of writes, reads, blocked writes, half closes, transport ends at a generated byte offset (between or inside records), altered or injected bytes, quiet shutdown, failing transport writes; or a handshake cut or closed at a generated point. Non-trivial if data moved before the end. Oracle: what is delivered is a prefix of what was sent; the orderly-close result appears only after the peer's close_notify and all data; after truncation or a fatal error no data is sent or delivered.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"system clock lies between 2000 and 2100 (certificate validity)"};
void pbt::setup() { tlsInit(true); }
namespace {
struct Dir { Bytes acc, got, pend; bool closed = false, quiet = false, cut = false, fatal = false, sawClose = false, sawErr = false; size_t keep = 0, closeEnd = 0; };
struct H {
    G &g; Link &l; Dir d[2]; bool dg, selfClosed[2] = {false, false}, dead[2] = {false, false}; std::string cfg;    // d[0]: client to server
    std::vector<Bytes> msgs[2]; size_t nGot[2] = {0, 0};
    H(G &g_, Link &l_) : g(g_), l(l_), dg(l_.c.s.dgram()) {}
    Peer &w(int k) { return k ? l.s : l.c; } Peer &r(int k) { return k ? l.c : l.s; } Pipe &p(int k) { return k ? l.b2a : l.a2b; }
    void trim() { for (int k = 0; k < 2; k++) if (d[k].cut && p(k).buf.size() > d[k].keep) p(k).buf.resize(d[k].keep); }
    bool write(int k, size_t n, bool persist)
    {
        Peer &W = w(k); Dir &x = d[k]; bool fresh = x.pend.empty(); if (fresh) x.pend = g.bytes(n); uint64_t before = p(k).total; for (int i = 0; i < (persist ? 3000 : 2); i++) {
            uint32_t m = 0; int32_t q = wr(W, x.pend, &m); trim();
            if (q == HITLS_SUCCESS) { CHECK(m && m <= x.pend.size(), "t09-written", "write reports %u of %zu bytes", m, x.pend.size()); if (selfClosed[k] || dead[k]) pbt::fail("t09-write-after-end", "write succeeded after %s | %s", selfClosed[k] ? "the own close" : "a fatal error", cfg.c_str()); if (dg) msgs[k].push_back(Bytes(x.pend.begin(), x.pend.begin() + m)); x.acc.insert(x.acc.end(), x.pend.begin(), x.pend.begin() + m); x.pend.erase(x.pend.begin(), x.pend.begin() + m); if (x.pend.empty()) return true; continue; }
            if (!Peer::retry(q)) { g.note("%d: write -> %s", k, rc(q).c_str()); bool wasDead = dead[k]; (void)wasDead; if (q == HITLS_CM_LINK_FATAL_ALERTED && d[k ^ 1].fatal) { dead[k] = true; d[k ^ 1].sawErr = true; } if (selfClosed[k] || dead[k]) CHECK(p(k).total == before || dead[k], "t09-write-leak", "a refused write put %llu bytes on the wire | %s", (unsigned long long)(p(k).total - before), cfg.c_str()); else CHECK(d[k ^ 1].closed || d[k ^ 1].sawErr || d[k ^ 1].cut || d[k ^ 1].fatal || w(k).writeFail, "t09-write-err", "write failed with %s though nothing had ended | %s", rc(q).c_str(), cfg.c_str()); x.pend.clear(); pendLost[k] = true; return false; }
        }
        return false;
    }
    bool pendLost[2] = {false, false}; int closes[2] = {0, 0};
    // reads in direction k until there is nothing more
    void read(int k, int times)
    {
        Peer &R = r(k); Dir &x = d[k]; for (int i = 0; i < times; i++) {
            Bytes b; int32_t q = rd(R, dg ? 20000 : g.pick<size_t>({1, 17, 500, 20000}), b); trim();
            if (q == HITLS_SUCCESS) {
                CHECK(!x.sawClose && !x.sawErr, "t09-after-end", "%zu bytes delivered after the end was reported (%d %d) | %s", b.size(), x.sawClose, x.sawErr, cfg.c_str()); CHECK(!dead[k ^ 1], "t09-after-fatal", "data delivered after a fatal error | %s", cfg.c_str());
                if (dg) { while (nGot[k] < msgs[k].size() && msgs[k][nGot[k]] != b) nGot[k]++; CHECK(nGot[k] < msgs[k].size(), "t09-dgram", "a message not sent was delivered"); nGot[k]++; }
                x.got.insert(x.got.end(), b.begin(), b.end()); Bytes all = x.acc; all.insert(all.end(), x.pend.begin(), x.pend.end()); if (!dg && !pendLost[k]) CHECK(x.got.size() <= all.size() && std::equal(x.got.begin(), x.got.end(), all.begin()), "t09-prefix", "delivered data is not a prefix of what was sent | %s", cfg.c_str());
                continue;
            }
            if (Peer::retry(q) || (q == HITLS_REC_NORMAL_RECV_UNEXPECT_MSG && selfClosed[k ^ 1] && !x.fatal)) {   // a half-closed side does not process handshake and ACK records
                if (Peer::retry(q)) CHECK(!x.sawClose && !x.sawErr, "t09-revived", "reading goes on after the end was reported | %s", cfg.c_str()); continue; }
            if (q == HITLS_CM_LINK_CLOSED) {
                if (x.sawErr || closes[k ^ 1] >= 2 || ((d[k ^ 1].quiet || x.fatal) && selfClosed[k ^ 1])) { x.sawErr = true; return; }   // the error was reported before, or the second close consumed the end
                CHECK(x.closed, "t09-false-close", "the reader saw an orderly close although the peer sent no close_notify (truncated %d fatal %d own close %d) | %s", x.cut, x.fatal, selfClosed[k ^ 1], cfg.c_str());
                if (!dg && !pendLost[k]) CHECK(!x.cut && x.got.size() >= x.acc.size(), "t09-early-close", "orderly close reported after %zu of %zu bytes (truncated %d) | %s", x.got.size(), x.acc.size(), x.cut, cfg.c_str());
                uint32_t m = 0; HITLS_GetShutdownState(R.ctx, &m); CHECK(m & HITLS_RECEIVED_SHUTDOWN, "t09-flag", "RECEIVED_SHUTDOWN not set"); x.sawClose = true; return;
            }
            if (!x.sawErr && !x.sawClose) g.note("%d: read -> %s", k, rc(q).c_str()); CHECK(x.cut || x.fatal || x.sawErr || x.sawClose || (x.closed && d[k ^ 1].quiet) /* quiet shutdown: an error code stands for the peer's close */ || selfClosed[k ^ 1] || d[k ^ 1].fatal || R.writeFail || d[k ^ 1].sawErr || d[k ^ 1].sawClose, "t09-read-err", "read failed with %s though nothing had ended | %s", rc(q).c_str(), cfg.c_str()); x.sawErr = true; if (x.fatal && q != HITLS_REC_NORMAL_IO_EOF) dead[k ^ 1] = true; return;
        }
    }
    int32_t close(int k, int tries) { int32_t q = 0; closes[k]++; for (int i = 0; i < tries; i++) { q = HITLS_Close(w(k).ctx); trim(); if (!Peer::retry(q)) break; } g.note("%d: close -> %s", k, rc(q).c_str()); return q; }
};
}  // namespace
PBT_TEST(history, 1500, 50000, 0, 40)
{
    seedRand(g); Side cs, ss; GenOpt o; o.nice = true; genPair(g, cs, ss, o); cs.tickets = ss.tickets = false; ss.ticketNum = 0; cs.mtu = ss.mtu = 0; cs.renego = ss.renego = false; cs.readAhead = ss.readAhead = false; cs.modeFlags = ss.modeFlags = HITLS_MODE_ACCEPT_MOVING_WRITE_BUFFER; Link l; l.c.setup(cs); l.s.setup(ss); int quiet = g.chance(1, 6) ? (int)g.draw(1) : -1; if (quiet >= 0) HITLS_CFG_SetQuietShutdown((quiet ? l.s : l.c).cfg, 1);
    l.reopen(); l.sched(g); l.handshake(); if (!l.ok()) discard(); H h(g, l); if (quiet >= 0) h.d[quiet].quiet = true; h.cfg = sfmt("%04x %04x quiet=%d", version(l.c), curSuite(l.c), quiet); g.label(sfmt("%04x", version(l.c))); bool ended = false; size_t cap = h.dg ? 300 : 3000; size_t moved = 0;
    int ops = (int)g.range(4, 16); for (int i = 0; i < ops; i++) {
        int k = (int)g.draw(1); int op = (int)g.weighted({6, 6, ended || i < 2 ? 1u : 3u, h.dg ? 0u : 2u, h.dg ? 0u : 1u, 1, 1, h.dg ? 0u : 1u});
        Dir &x = h.d[k]; switch (op) {
            case 0: { size_t n = g.range(1, cap); bool f = h.write(k, n, true); g.note("%d: write %zu -> %d", k, n, f); break; }
            case 1: h.read(k, (int)g.range(1, 40)); g.note("%d: read, now %zu of %zu", k, x.got.size(), x.acc.size()); break;
            case 2: case 5: {   // close, maybe with a blocked write before it
                if (op == 5) { Sched s = h.w(k).wr; h.w(k).wr.mode = 1; h.w(k).wr.maxChunk = 3; if (h.w(k).wr.rng == 0) h.w(k).wr.rng = 1; h.write(k, g.range(1, cap), false); h.w(k).wr = s; g.label("blocked-write"); }
                if (h.selfClosed[k]) h.pendLost[k ^ 1] = true; bool was = h.selfClosed[k] || h.dead[k] || x.sawErr || h.d[k ^ 1].sawErr; uint64_t tot = h.p(k).total; int32_t q = h.close(k, 3000); bool noise = h.w(k).writeFail; if (q == HITLS_SUCCESS) { if (!was && !h.d[k].quiet && !noise) { uint32_t m = 0; HITLS_GetShutdownState(h.w(k).ctx, &m); CHECK(m & HITLS_SENT_SHUTDOWN, "t09-sent-flag", "SENT_SHUTDOWN not set after closing | %s", h.cfg.c_str()); }
                    if (!h.d[k].quiet && h.p(k).total != tot && !x.closed) { x.closed = true; x.closeEnd = h.p(k).buf.size() + (x.cut ? 1 : 0); } if (h.d[k].quiet) CHECK(h.p(k).total == tot || !x.pend.empty(), "t09-quiet", "quiet shutdown sent something | %s", h.cfg.c_str()); if (!was && !h.d[k].quiet && !h.d[k ^ 1].sawClose && !h.d[k ^ 1].fatal) CHECK(x.closed, "t09-nothing-sent", "close succeeded but sent nothing | %s", h.cfg.c_str()); if (h.selfClosed[k]) h.pendLost[k ^ 1] = true; /* a second close discards what it reads */ if (h.selfClosed[k] && !h.d[k ^ 1].fatal) CHECK(h.p(k).total == tot, "t09-close-twice", "a second close sent something again | %s", h.cfg.c_str()); h.selfClosed[k] = true; ended = true; }
                else CHECK(was || noise || h.d[k].fatal || h.d[k ^ 1].closed || h.d[k ^ 1].fatal, "t09-close-failed", "close returned %s | %s", rc(q).c_str(), h.cfg.c_str()); break; }
            case 3: { if (x.cut) break; Pipe &p = h.p(k); size_t a = p.avail(); size_t lose = a ? g.chance(1, 3) ? 0 : g.range(1, a) : 0; x.keep = p.buf.size() - lose; x.cut = true; p.buf.resize(x.keep); p.eof = true; ended = true; if (x.closed && x.keep >= x.closeEnd) x.cut = false; g.note("%d: transport ends, %zu of %zu bytes lost (closed %d)", k, lose, a, x.closed); g.label(lose ? "cut-inside" : "cut-at-end"); break; }
            case 4: { Pipe &p = h.p(k); if (p.avail() && g.boolean()) { p.buf[p.off + g.draw(p.avail() - 1)] ^= (uint8_t)(1 << g.draw(7)); } else { Bytes junk = g.pick<Bytes>({{0x15, 3, 3, 0, 2, 1, 0}, {0x15, 3, 3, 0, 2, 2, 40}, {0x17, 3, 3, 0, 1, 0}, {0x15, 3, 3, 0, 2, 1, 90}, {0x16, 3, 3, 0, 4, 0, 0, 0, 0}, {0x80, 0, 0, 0, 0}}); p.put(junk.data(), junk.size()); } if (l.c.s.proto == TLCP && p.avail() > 5) {} x.fatal = true; ended = true; g.note("%d: bytes altered or injected", k); g.label("tampered"); if (x.cut && p.buf.size() > x.keep) p.buf.resize(x.keep); break; }
            case 6: if (g.chance(1, 3)) { h.w(k).writeFail = true; g.note("%d: transport refuses writes", k); } break;
            default: { std::vector<uint32_t> m; uint32_t st = 0; HITLS_GetShutdownState(h.r(k).ctx, &st); if (st & HITLS_RECEIVED_SHUTDOWN) CHECK(x.closed || x.fatal || x.cut || h.d[k ^ 1].closed || h.d[k ^ 1].quiet || h.dead[k ^ 1] || x.sawErr || h.d[k ^ 1].fatal, "t09-flag-early", "RECEIVED_SHUTDOWN set though the peer has sent none | %s", h.cfg.c_str()); break; }
        }
        moved += h.d[0].got.size() + h.d[1].got.size();
    }
    // final: each side reads on; the outcome has to match
    for (int k = 0; k < 2; k++) { Dir &x = h.d[k]; h.read(k, 4000); bool undisturbed = !x.fatal && !h.d[k ^ 1].fatal && !l.c.writeFail && !l.s.writeFail && !h.selfClosed[k ^ 1] && !x.sawErr; 
        if (undisturbed && x.closed && !x.cut && !h.d[k ^ 1].quiet) CHECK(x.sawClose, "t09-close-unseen", "the peer's close_notify was not reported as an orderly close | %s", h.cfg.c_str());
        if (undisturbed && !x.cut && !x.closed && !h.d[k ^ 1].cut && !h.dg && !x.quiet && !x.sawClose && !h.pendLost[k]) CHECK(x.got.size() >= x.acc.size(), "t09-lost", "%zu of %zu bytes delivered | %s", x.got.size(), x.acc.size(), h.cfg.c_str());
        if (x.cut && !h.selfClosed[k ^ 1]) CHECK(x.sawErr || x.sawClose || h.d[k ^ 1].fatal, "t09-cut-unseen", "a truncated transport was not reported | %s", h.cfg.c_str());
        h.read(k, 20); }
    if (moved) g.nontrivial(); g.key(h.cfg + sfmt("/%zu/%zu/%d", h.d[0].acc.size(), h.d[1].acc.size(), (int)ended));
}
PBT_TEST(handshake, 1200, 40000, 0, 40)
{
    seedRand(g); Side cs, ss; GenOpt o; o.nice = true; o.allowDtls = false; genPair(g, cs, ss, o); ss.ticketNum = 0; Link l, m; { Link t; t.open(cs, ss); t.handshake(); if (!t.ok()) discard(); m.a2b.total = t.a2b.total; m.b2a.total = t.b2a.total; }
    l.open(cs, ss); int k = (int)g.draw(1); bool byClose = g.chance(1, 3); Pipe &p = k ? l.b2a : l.a2b; size_t at = g.draw((k ? m.b2a.total : m.a2b.total)); Peer &R = k ? l.c : l.s, &W = k ? l.s : l.c; bool cut = false, closed = false; size_t total = (k ? m.b2a.total : m.a2b.total);
    for (int i = 0; i < 400 && !((l.c.done || l.c.dead) && (l.s.done || l.s.dead)); i++) { for (Peer *x : {&l.c, &l.s}) { if (closed && x == &W) continue; x->step(); if (!byClose && p.total >= at) { cut = true; p.eof = true; size_t keepAbs = at; size_t cur = (size_t)p.total; if (cur > keepAbs && p.buf.size() > keepAbs) p.buf.resize(std::max(keepAbs, p.off)); } if (byClose && !closed && p.total >= at && !W.done && !W.dead) { int32_t q = HITLS_Close(W.ctx); g.note("close during the handshake -> %s", rc(q).c_str()); closed = true; } } }
    g.note("%s direction %d at %zu of %zu -> client %d %s server %d %s", byClose ? "close" : "cut", k, at, total, l.c.done, rc(l.c.err).c_str(), l.s.done, rc(l.s.err).c_str()); g.key(sfmt("%d %d %zu %04x", k, byClose, at, version(l.c))); g.label(byClose ? "close-in-handshake" : "cut-in-handshake"); g.nontrivial();
    if (cut && !R.done) { CHECK(R.dead, "t09-hs-cut", "the handshake of the side whose input ended early reported no error"); CHECK(R.err != HITLS_CM_LINK_CLOSED, "t09-hs-false-close", "a transport that ended during the handshake was reported as an orderly close"); }
    if (cut && R.done && at < total) { Bytes b; int32_t q = 0; for (int i = 0; i < 20; i++) q = rd(R, 100, b); CHECK(q != HITLS_SUCCESS && q != HITLS_CM_LINK_CLOSED && !Peer::retry(q), "t09-hs-after", "reading from an ended transport returned %s", rc(q).c_str()); }
    if (closed) { uint32_t n = 0; Bytes d(10, 1); CHECK(wr(W, d, &n) != HITLS_SUCCESS, "t09-hs-write", "write after closing during the handshake succeeded"); for (int i = 0; i < 3; i++) { int32_t q = W.s.server ? HITLS_Accept(W.ctx) : HITLS_Connect(W.ctx); CHECK(q != HITLS_SUCCESS, "t09-hs-reopened", "the handshake completed after being closed"); } CHECK(!R.done || !W.done, "t09-hs-done", "both sides finished although one closed"); }
}
