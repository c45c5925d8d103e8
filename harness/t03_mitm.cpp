// T03: no on-path modification of a stream connection goes unnoticed.
#include "tlsgen.hpp"
using namespace tls;
const char *pbt::PROPERTY_RULE = "A case is a configuration pair (TLS 1.2/1.3/TLCP), an I/O schedule and 1 to 3 alterations (bit flips, header changes, dropped, duplicated, swapped, replayed, truncated, cut, split, extended and injected records) placed at chosen records of either direction, during the handshake or on protected data; non-trivial when an alteration really changed the bytes that arrived and the outcome was judged.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the record version field of a protected TLS 1.3 record and change_cipher_spec records of TLS 1.3 carry no protected meaning", "injected alerts during an unprotected handshake may end or be ignored by it"};
void pbt::setup() { tlsInit(); }
namespace {
enum Kind { FLIP, TYPE, VERS, LEN, DROP, DUP, SWAP, TRUNC, CUT, EXTEND, SPLIT, INJECT, REPLAY, REFLECT, KINDS };
const char *KN[] = {"flip", "type", "version", "length", "drop", "duplicate", "swap", "truncate", "cut", "extend", "split", "inject", "replay", "reflect"};
struct Plan { int dir; size_t rec; Kind k; uint64_t a, b; bool used = false; };
struct Mitm {
    Link &l; Pipe in[2]; Bytes part[2], held[2]; size_t idx[2] = {0, 0}; std::vector<Bytes> sent[2], recvd[2]; std::vector<Plan> plans; std::vector<Plan> *act = nullptr; bool cut[2] = {false, false}; bool changed = false; size_t changedAt[2] = {SIZE_MAX, SIZE_MAX}; bool framing[2] = {false, false};
    explicit Mitm(Link &x) : l(x) { l.c.out = &in[0]; l.s.out = &in[1]; }
    void attach() { l.c.out = &in[0]; l.s.out = &in[1]; }
    Pipe &outp(int d) { return d ? l.b2a : l.a2b; }
    void fwd(int d, const Bytes &r) { if (cut[d]) return; recvd[d].push_back(r); outp(d).put(r.data(), r.size()); }
    void mark(int d) { changed = true; if (changedAt[d] == SIZE_MAX) changedAt[d] = recvd[d].size(); }
    void record(int d, Bytes r)
    {
        sent[d].push_back(r); size_t i = idx[d]++; Plan *p = nullptr; for (auto &q : plans) if (!q.used && q.dir == d && q.rec == i) { p = &q; break; }
        if (!held[d].empty()) { Bytes h = held[d]; held[d].clear(); fwd(d, r); fwd(d, h); return; }
        if (!p) { fwd(d, r); return; } p->used = true; size_t n = r.size(); Bytes o = r; mark(d);
        switch (p->k) {
            case FLIP: if (n > 5) o[5 + p->a % (n - 5)] ^= (uint8_t)(1u << (p->b % 8)); fwd(d, o); break;
            case TYPE: { static const uint8_t t[] = {20, 21, 22, 23, 24, 0, 255}; uint8_t v = t[p->a % 7]; o[0] = v == o[0] ? (uint8_t)(o[0] ^ (1u + p->b % 255)) : v; fwd(d, o); break; }
            case VERS: o[1 + p->a % 2] ^= (uint8_t)(1u + p->b % 255); fwd(d, o); break;
            case LEN: { uint32_t v = (uint32_t)(o[3] << 8 | o[4]); uint32_t w = p->b % 3 == 0 ? v + 1 : p->b % 3 == 1 ? (v ? v - 1 : 1) : (uint32_t)(p->a % 65536); if (w == v) w ^= 1; o[3] = (uint8_t)(w >> 8); o[4] = (uint8_t)w; framing[d] = true; fwd(d, o); break; }
            case DROP: break;
            case DUP: fwd(d, r); fwd(d, r); if (changedAt[d] == recvd[d].size() - 2) changedAt[d]++; break;
            case SWAP: held[d] = r; break;
            case TRUNC: { size_t k = p->a % n; o.resize(k); if (k) fwd(d, o); cut[d] = true; outp(d).eof = true; framing[d] = true; break; }
            case CUT: { if (n <= 6) { break; } size_t k = 1 + p->a % (n - 5 - 1 + 1); if (k > n - 5) k = n - 5; o.erase(o.end() - (long)k, o.end()); uint32_t v = (uint32_t)(o.size() - 5); o[3] = (uint8_t)(v >> 8); o[4] = (uint8_t)v; fwd(d, o); break; }
            case EXTEND: { size_t k = 1 + p->a % 20; uint64_t s = p->b; while (k--) o.push_back((uint8_t)splitmix(s)); uint32_t v = (uint32_t)(o.size() - 5); o[3] = (uint8_t)(v >> 8); o[4] = (uint8_t)v; fwd(d, o); break; }
            case SPLIT: { if (n < 7) { fwd(d, r); break; } size_t k = 5 + 1 + p->a % (n - 6); Bytes x(r.begin(), r.begin() + (long)k), y(r.begin(), r.begin() + 5); y.insert(y.end(), r.begin() + (long)k, r.end()); for (Bytes *z : {&x, &y}) { uint32_t v = (uint32_t)(z->size() - 5); (*z)[3] = (uint8_t)(v >> 8); (*z)[4] = (uint8_t)v; } fwd(d, x); fwd(d, y); break; }
            case INJECT: { static const uint8_t t[] = {20, 21, 22, 23, 24}; uint8_t ty = t[p->a % 5]; Bytes x = {ty, 3, 3}; Bytes body; uint64_t s = p->b; switch (splitmix(s) % 4) { case 0: body = {1}; break; case 1: body = {(uint8_t)(1 + splitmix(s) % 2), (uint8_t)(splitmix(s) % 120)}; break; case 2: body.resize(splitmix(s) % 80); for (auto &c : body) c = (uint8_t)splitmix(s); break; default: body.resize(16 + splitmix(s) % 600); for (auto &c : body) c = (uint8_t)splitmix(s); } if (ty == 22 && body.size() == 4 && !body[0]) body[0] = 7; x.push_back((uint8_t)(body.size() >> 8)); x.push_back((uint8_t)body.size()); x.insert(x.end(), body.begin(), body.end()); fwd(d, x); fwd(d, r); break; }
            case REPLAY: { if (sent[d].size() < 2) { fwd(d, r); fwd(d, r); break; } fwd(d, sent[d][p->a % (sent[d].size() - 1)]); if (p->b & 1) fwd(d, r); break; }
            default: { if (sent[1 - d].empty()) { fwd(d, r); fwd(d, r); break; } fwd(d, sent[1 - d][p->a % sent[1 - d].size()]); if (p->b & 1) fwd(d, r); break; }
        }
    }
    void pump() { for (int d = 0; d < 2; d++) { Pipe &p = in[d]; part[d].insert(part[d].end(), p.buf.begin() + (long)p.off, p.buf.end()); p.buf.clear(); p.off = 0; size_t o = 0; while (part[d].size() - o >= 5) { size_t n = 5u + ((size_t)part[d][o + 3] << 8 | part[d][o + 4]); if (part[d].size() - o < n) break; record(d, Bytes(part[d].begin() + (long)o, part[d].begin() + (long)(o + n))); o += n; } part[d].erase(part[d].begin(), part[d].begin() + (long)o); } }
    uint64_t moved() { return in[0].total + in[1].total + l.a2b.total + l.b2a.total + l.a2b.off + l.b2a.off; }
};
Bytes plainHs(const std::vector<Bytes> &v) { Bytes all, r; for (auto &x : v) all.insert(all.end(), x.begin(), x.end()); size_t o = 0; while (all.size() - o >= 5) { size_t n = (size_t)all[o + 3] << 8 | all[o + 4]; if (all[o] == 23) break; if (all.size() - o < 5 + n) break; if (all[o] == 22) r.insert(r.end(), all.begin() + (long)(o + 5), all.begin() + (long)(o + 5 + n)); o += 5 + n; } return r; }
Bytes plainHs12(const std::vector<Bytes> &v) { Bytes all, r; for (auto &x : v) all.insert(all.end(), x.begin(), x.end()); size_t o = 0; while (all.size() - o >= 5) { size_t n = (size_t)all[o + 3] << 8 | all[o + 4]; if (all[o] == 23 || all[o] == 20) break; if (all.size() - o < 5 + n) break; if (all[o] == 22) r.insert(r.end(), all.begin() + (long)(o + 5), all.begin() + (long)(o + 5 + n)); o += 5 + n; } return r; }
void agree(Link &l, const std::string &cfg, const Bytes &e0, const Bytes &e1)
{
    CHECK(version(l.c) == version(l.s), "t03-version", "versions differ after a modified handshake | %s", cfg.c_str()); CHECK(curSuite(l.c) == curSuite(l.s), "t03-suite", "suites differ after a modified handshake | %s", cfg.c_str());
    for (auto pr : {std::make_pair(&l.c, &l.s), std::make_pair(&l.s, &l.c)}) { uint8_t a[64], b[64]; uint32_t an = 0, bn = 0; HITLS_GetFinishVerifyData(pr.first->ctx, a, 64, &an); HITLS_GetPeerFinishVerifyData(pr.second->ctx, b, 64, &bn); CHECK(an == bn && !memcmp(a, b, an), "t03-finished", "Finished values differ after a modified handshake | %s", cfg.c_str()); }
    CHECK(e0 == e1, "t03-exporter", "exporters differ after a modified handshake | %s", cfg.c_str());
}
struct Data { Bytes sent[2], got[2]; int32_t err[2] = {0, 0}; };   // [0]: client to server
// each side reads once, checking the prefix rule
void readSide(Link &l, Data &x, int d, const std::string &cfg, size_t cap)
{
    Peer &p = d ? l.c : l.s; if (!p.done || x.err[d]) return; Bytes b; int32_t r = rd(p, cap, b); if (r == HITLS_SUCCESS) { for (size_t i = 0; i < b.size(); i++) { size_t q = x.got[d].size() + i; CHECK(q < x.sent[d].size() && x.sent[d][q] == b[i], "t03-delivered", "%s delivered altered or invented data at byte %zu (peer wrote %zu) | %s", d ? "client" : "server", q, x.sent[d].size(), cfg.c_str()); } x.got[d].insert(x.got[d].end(), b.begin(), b.end()); }
    else if (!Peer::retry(r)) x.err[d] = r;
}
void genCfg(G &g, Side &cs, Side &ss) { GenOpt o; o.allowDtls = false; o.nice = true; o.forceProto = g.chance(1, 10) ? TLCP : TLS; genPair(g, cs, ss, o); if (o.forceProto == TLCP) cs.certs = {KSM2}; }
}  // namespace
PBT_TEST(handshake, 800, 60000, 0, 30)
{
    seedRand(g); Side cs, ss; genCfg(g, cs, ss); Link l; l.c.setup(cs); l.s.setup(ss); if (g.chance(1, 3)) l.sched(g); l.reopen(); Mitm m(l); int np = (int)g.weighted({6, 1, 1}) + 1; std::string cfg;
    for (int i = 0; i < np; i++) { Plan p; p.dir = (int)g.draw(1); p.rec = g.draw(9); p.k = (Kind)g.weighted({6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1}); p.a = g.draw(UINT32_MAX); p.b = g.draw(UINT32_MAX); m.plans.push_back(p); cfg += sfmt("%s dir%d rec%zu; ", KN[p.k], p.dir, p.rec); }
    Data x; Bytes pay[2] = {g.bytes(1 + g.draw(40)), g.bytes(1 + g.draw(40))}; bool wrote[2] = {false, false}; Bytes ex[2], none; int idle = 0; uint64_t last = ~0ull; int rounds = 0;
    while (rounds++ < 60000 && idle < 60) {
        l.c.step(); if (l.c.done && ex[0].empty()) ex[0] = exporter(l.c, "EXPORTER-t03", none, false, 32); l.s.step(); if (l.s.done && ex[1].empty()) ex[1] = exporter(l.s, "EXPORTER-t03", none, false, 32); m.pump(); if (l.c.dead) l.a2b.eof = true; if (l.s.dead) l.b2a.eof = true;
        for (int d = 0; d < 2; d++) { Peer &p = d ? l.s : l.c; if (p.done && !wrote[d]) { x.sent[d] = pay[d]; Exact e(pay[d]); uint32_t n = 0; static Bytes keep[2]; keep[d] = pay[d]; int32_t r = HITLS_Write(p.ctx, keep[d].data(), (uint32_t)pay[d].size(), &n); if (r == HITLS_SUCCESS || !Peer::retry(r)) wrote[d] = true; } readSide(l, x, 1 - d, cfg, 100); if (x.err[1 - d]) (d ? l.b2a : l.a2b).eof = true; }
        m.pump(); uint64_t mv = m.moved() * 8 + l.c.done + l.s.done * 2 + l.c.dead * 4u + x.got[0].size() + x.got[1].size(); if (mv == last) idle++; else idle = 0; last = mv;
    }
    uint16_t v = l.c.done ? version(l.c) : l.s.done ? version(l.s) : 0; cfg += sfmt(" v=%04x c.done=%d s.done=%d", v, l.c.done, l.s.done); g.note("%s", cfg.c_str()); bool eff = false; for (int d = 0; d < 2; d++) if (m.sent[d] != m.recvd[d]) eff = true;
    if (l.ok()) { agree(l, cfg, ex[0], ex[1]); for (int d = 0; d < 2; d++) { Bytes a = v == 0x0304 ? plainHs(m.sent[d]) : plainHs12(m.sent[d]), b = v == 0x0304 ? plainHs(m.recvd[d]) : plainHs12(m.recvd[d]); if (!m.framing[d]) CHECK(a == b || (v != 0x0304 && b.size() > a.size() && false), "t03-transcript", "both sides finished although handshake bytes changed on the way (dir %d: %zu sent, %zu arrived) | %s", d, a.size(), b.size(), cfg.c_str()); } g.label("completed"); }
    if (eff) { g.nontrivial(); g.label(l.ok() ? "tolerated" : "refused"); for (auto &p : m.plans) if (p.used) g.label(KN[p.k]); }
    if (!eff) { CHECK(l.ok() || (l.c.dead && l.s.dead) || l.c.dead || l.s.dead, "t03-untouched", "an untouched handshake got stuck | %s", cfg.c_str()); g.label("untouched"); }
}
PBT_TEST(data, 800, 60000, 0, 30)
{
    seedRand(g); Side cs, ss; genCfg(g, cs, ss); cs.pad = ss.pad = 0; cs.maxFrag = ss.maxFrag = 0; cs.rsl = ss.rsl = 0; cs.renego = ss.renego = false; Link l; l.c.setup(cs); l.s.setup(ss); l.reopen(); Mitm m(l); for (int i = 0; i < 200 && !l.ok(); i++) { l.c.step(); l.s.step(); m.pump(); } if (!l.ok()) pbt::discard();
    uint16_t v = version(l.c); bool is13 = v == 0x0304; std::string cfg = sfmt("v=%04x suite=%04x ", v, curSuite(l.c)); Data x;
    // let the client take the tickets of the server
    for (int i = 0; i < 10; i++) { readSide(l, x, 1, cfg, 10); readSide(l, x, 0, cfg, 10); m.pump(); } if (g.chance(1, 3)) l.sched(g);
    int np = (int)g.weighted({6, 1, 1}) + 1; for (int i = 0; i < np; i++) { Plan p; p.dir = (int)g.draw(1); p.rec = m.idx[p.dir] + g.draw(5); p.k = (Kind)g.weighted({6, 1, 1, 1, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2}); p.a = g.draw(UINT32_MAX); p.b = g.draw(UINT32_MAX); m.plans.push_back(p); cfg += sfmt("%s dir%d rec+%zu; ", KN[p.k], p.dir, p.rec - m.idx[p.dir]); }
    size_t base[2] = {m.recvd[0].size(), m.recvd[1].size()}, sbase[2] = {m.sent[0].size(), m.sent[1].size()}; std::vector<size_t> ends[2];   // stream offset after each protected record
    int nw = 1 + (int)g.draw(8); bool closing[2] = {false, false}; size_t closeEnd[2] = {0, 0};
    for (int i = 0; i < nw; i++) {
        int d = (int)g.draw(1); Peer &w = d ? l.s : l.c; if (x.err[1 - d] || closing[d]) continue; if (g.chance(1, 12) && is13) { if (HITLS_KeyUpdate(w.ctx, HITLS_UPDATE_NOT_REQUESTED) != HITLS_SUCCESS) continue; }
        Bytes b = g.bytes(1 + g.len(0, 300)); x.sent[d].insert(x.sent[d].end(), b.begin(), b.end()); size_t off = 0; for (int k = 0; k < 3000 && off < b.size(); k++) { uint32_t n = 0; int32_t r = HITLS_Write(w.ctx, b.data() + off, (uint32_t)(b.size() - off), &n); if (r == HITLS_SUCCESS) off += n; else if (!Peer::retry(r)) { x.sent[d].resize(x.sent[d].size() - (b.size() - off)); break; } }
        m.pump(); if (m.sent[d].size() > sbase[d]) { while (ends[d].size() < m.sent[d].size() - sbase[d]) ends[d].push_back(x.sent[d].size() - b.size()); ends[d].back() = x.sent[d].size(); }
        if (g.boolean()) { readSide(l, x, d, cfg, 1 + g.draw(200)); m.pump(); }
    }
    for (int d = 0; d < 2; d++) if (g.chance(1, 3)) { Peer &w = d ? l.s : l.c; if (!x.err[1 - d]) for (int k = 0; k < 2000; k++) { int32_t r = HITLS_Close(w.ctx); if (!Peer::retry(r)) break; } closing[d] = true; m.pump(); closeEnd[d] = m.sent[d].size(); }
    for (int i = 0, idle = 0; i < 20000 && idle < 60; i++) { uint64_t mv = m.moved(); for (int d = 0; d < 2; d++) readSide(l, x, d, cfg, 500); m.pump(); if (mv == m.moved()) idle++; else idle = 0; }
    g.note("%s", cfg.c_str());
    for (int d = 0; d < 2; d++) {
        std::vector<Bytes> S(m.sent[d].begin() + (long)sbase[d], m.sent[d].end()), R(m.recvd[d].begin() + (long)base[d], m.recvd[d].end()); size_t k = 0; while (k < S.size() && k < R.size() && S[k] == R[k]) k++;
        if (k == R.size() && k == S.size()) { if (!x.err[d]) CHECK(x.got[d] == x.sent[d] || closing[1 - d], "t03-untouched-lost", "dir %d: untouched, %zu of %zu bytes delivered | %s", d, x.got[d].size(), x.sent[d].size(), cfg.c_str()); continue; }
        g.nontrivial(); for (auto &p : m.plans) if (p.used && p.dir == d) g.label(KN[p.k]);
        bool onlyVersion = k < R.size() && k < S.size() && R[k].size() == S[k].size() && R[k][0] == S[k][0] && Bytes(R[k].begin() + 3, R[k].end()) == Bytes(S[k].begin() + 3, S[k].end()); if (onlyVersion) { g.label("version-only"); if (!x.err[d]) continue; }
        size_t lim = k == 0 ? 0 : k - 1 < ends[d].size() ? ends[d][k - 1] : x.sent[d].size(); bool reflected = false; (void)reflected;
        CHECK(x.got[d].size() <= lim || onlyVersion, "t03-past", "dir %d: %zu bytes delivered although record %zu was altered (only %zu bytes were protected before it) | %s", d, x.got[d].size(), k, lim, cfg.c_str());
        if (k < R.size()) { bool whole = !m.framing[d]; if (whole) CHECK(x.err[d], "t03-silent", "dir %d: record %zu was altered and the receiver reports nothing | %s", d, k, cfg.c_str()); CHECK(!x.err[d] || x.err[d] != HITLS_CM_LINK_CLOSED || (closing[d] && closeEnd[d] - sbase[d] <= k) || closing[1 - d], "t03-closed", "dir %d: an altered stream was reported as an orderly close | %s", d, cfg.c_str()); }
        else if (m.cut[d] && !closing[1 - d] && !closing[d]) CHECK(x.err[d] && x.err[d] != HITLS_CM_LINK_CLOSED, "t03-trunc", "dir %d: a truncated stream gave %s | %s", d, rc(x.err[d]).c_str(), cfg.c_str());
        if (x.err[d]) { Bytes b; for (int i = 0; i < 3; i++) { Peer &p = d ? l.c : l.s; int32_t r = rd(p, 100, b); CHECK(r != HITLS_SUCCESS, "t03-after-error", "dir %d: data delivered after error %s | %s", d, rc(x.err[d]).c_str(), cfg.c_str()); } g.label("error-reported"); }
    }
}
