#include "oec.hpp"
using namespace oec;
const char *pbt::PROPERTY_RULE =
    "GB/T 32918 model on OpenSSL group arithmetic: sign (random and scripted nonces incl. 1,n-1; signature equation, digest via Z with user ids 1..8190 bytes), verify (model signatures; r,s at range ends, r+s=0 mod n, +n, DER mutations, other id/message/key), crypt (both directions, 1..300 byte plaintexts, all-zero KDF masks, "
    "altered C1/C2/C3, off-curve C1, ASN.1 mutations), exch (both roles against the model incl. confirmation values, altered confirmations). Non-trivial: value or verdict compared with the model.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL EC/BIGNUM arithmetic on the SM2 curve and SM3 are correct"};
void pbt::setup() { useScrRand(); }
static const Curve &C() { return curves()[8]; }
static Bytes sm3(const Bytes &b) { return osslMd("SM3", b); }
static Bytes Z(const Bytes &id, const Pt &q) { const Curve &c = C(); Bytes b{(uint8_t)(id.size() * 8 >> 8), (uint8_t)(id.size() * 8)}; Pt G1 = mul(c, N(1)); b = cat(b, id); for (const N &v : {c.a, c.b, G1.x(), G1.y(), q.x(), q.y()}) b = cat(b, v.bin(32)); return sm3(b); }
static Bytes kdf(const Bytes &z, size_t n) { Bytes o; for (uint32_t i = 1; o.size() < n; i++) { Bytes t = cat(z, Bytes{(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i}); o = cat(o, sm3(t)); } o.resize(n); return o; }
static CRYPT_EAL_PkeyCtx *nk(G &g) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_SM2) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, CRYPT_PKEY_SM2, 0, "provider=default"); CHECK(k, "new", "no SM2 context"); return k; }
static int32_t setPrv(CRYPT_EAL_PkeyCtx *c, const Bytes &x) { Exact b(x); CRYPT_EAL_PkeyPrv p = {}; p.id = CRYPT_PKEY_SM2; p.key.eccPrv.data = b.p; p.key.eccPrv.len = (uint32_t)b.n; return CRYPT_EAL_PkeySetPrv(c, &p); }
static int32_t setPub(CRYPT_EAL_PkeyCtx *c, const Bytes &y) { Exact b(y); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_PKEY_SM2; p.key.eccPub.data = b.p; p.key.eccPub.len = (uint32_t)b.n; return CRYPT_EAL_PkeySetPub(c, &p); }
static void dup(G &g, PkeyCtx &k) { if (g.chance(1, 4)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "dup", "dup failed"); k.reset(d); } }
static N key(G &g) { N d = scalar(g, C().n - N(1)); return d; }  // [1, n-2]
static Bytes genId(G &g) { return g.chance(1, 3) ? Bytes{'1','2','3','4','5','6','7','8','1','2','3','4','5','6','7','8'} : g.bytes(g.pick<size_t>({1, 16, 1 + g.draw(40), 31, 32, 255, 256, 8190, 1 + g.draw(500)})); }
static void setId(CRYPT_EAL_PkeyCtx *c, const Bytes &id) { Exact b(id); int32_t r = CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_SM2_USER_ID, b.p, (uint32_t)b.n); CHECK(!r, "sm2-setid", "user id of %zu bytes: %s", id.size(), rc(r).c_str()); }
static bool refVerify(const N &r, const N &s, const N &e, const Pt &q) { const Curve &c = C(); if (r.zero() || s.zero() || r >= c.n || s >= c.n) return false; N t = (r + s) % c.n; if (t.zero()) return false; Pt P = mul(c, s, &q, &t); if (P.inf()) return false; return (e + P.x()) % c.n == r; }

PBT_TEST(sign, 2400, 60000)
{
    const Curve &c = C(); seedRand(g); setScript({}); N d = key(g); Pt q = mul(c, d); PkeyCtx k(nk(g)); REQUIRE_OK(setPrv(k, d.bin(32)), "sm2-setprv"); bool hasPub = g.boolean(); if (hasPub) REQUIRE_OK(setPub(k, q.enc()), "sm2-setpub"); Bytes id = genId(g); setId(k, id); dup(g, k);
    for (int rep = 0, nr = 1 + (int)g.draw(2); rep < nr; rep++) {
        if (rep && g.chance(1, 3)) { id = genId(g); setId(k, id); }
        N nonce; bool sc = g.boolean(); if (sc) { nonce = scalar(g, c.n); setScript(nonce.bin(32)); } else setScript({});
        bool raw = g.chance(1, 3); Bytes msg = g.bytes(g.len(0, 120)), eb = raw ? g.bytes(32) : sm3(cat(Z(id, q), msg)); if (raw && g.chance(1, 4)) eb = g.pick({Bytes(32, 0), Bytes(32, 0xff), c.n.bin(32), (c.n - N(1)).bin(32)}); Exact in(raw ? eb : msg); uint32_t sl = CRYPT_EAL_PkeyGetSignLen(k); Exact o(sl);
        int32_t r = raw ? CRYPT_EAL_PkeySignData(k, in.p, (uint32_t)in.n, o.p, &sl) : CRYPT_EAL_PkeySign(k, CRYPT_MD_SM3, in.p, (uint32_t)in.n, o.p, &sl); CHECK(!r && sl <= o.n, "sm2-sign", "sign %s", rc(r).c_str()); Bytes sig(o.p, o.p + sl); N rr, ss; CHECK(parseSig(sig, rr, ss), "sm2-sign-der", "not DER: %s", hex(sig).c_str());
        CHECK(refVerify(rr, ss, N(eb), q), "sm2-sign-invalid", "d=%s id=%zu bytes raw=%d sig=%s does not verify", d.str().c_str(), id.size(), raw, hex(sig).c_str());
        if (sc) { N want = (N(eb) + mul(c, nonce).x()) % c.n; N wr = want; if (rr == want) { N s = (N(1) + d).inv(c.n) * ((nonce + c.n * c.n - want * d) % c.n) % c.n; CHECK(s == ss, "sm2-sign-s", "s differs from the model"); g.label("nonce-hit"); } }
        g.nontrivial(); if (!hasPub) { REQUIRE_OK(setPub(k, q.enc()), "sm2-setpub"); hasPub = true; } Exact sb(sig); r = raw ? CRYPT_EAL_PkeyVerifyData(k, in.p, (uint32_t)in.n, sb.p, sl) : CRYPT_EAL_PkeyVerify(k, CRYPT_MD_SM3, in.p, (uint32_t)in.n, sb.p, sl); CHECK(!r, "sm2-selfverify", "own signature: %s", rc(r).c_str());
    }
}
PBT_TEST(verify, 6000, 150000)
{
    const Curve &c = C(); seedRand(g); setScript({}); N d = key(g); Pt q = mul(c, d); Bytes id = genId(g); if (id.size() > 600) id.resize(600); Bytes msg = g.bytes(g.len(0, 80)); bool raw = g.chance(1, 3); Bytes eb = raw ? (g.chance(1, 4) ? g.pick({Bytes(32, 0), Bytes(32, 0xff), c.n.bin(32), c.p.bin(32)}) : g.bytes(32)) : sm3(cat(Z(id, q), msg)); N e(eb);
    N k = scalar(g, c.n), r = (e + mul(c, k).x()) % c.n; N s = (N(1) + d).inv(c.n) * ((k + c.n * c.n - r * d) % c.n) % c.n; int mode = (int)g.weighted({5, 1, 1, 1, 1, 2, 1, 1, 1}); Bytes id2 = id, msg2 = msg; Pt q2 = q; 
    switch (mode) { case 1: r = r + c.n; break; case 2: s = s + c.n; break; case 3: r = g.pick({N(0), c.n, c.n - N(1), N(1)}); break; case 4: s = g.pick({N(0), c.n, c.n - s, c.n - r, c.n - N(1)}); break; case 5: { // choose s,t freely: r = t - s, message representative follows (raw only)
            if (raw) { N t = g.chance(1, 4) ? N(0) : scalar(g, c.n); s = scalar(g, c.n); r = (t + c.n - s) % c.n; Pt P = mul(c, s, &q, &t); N x = P.inf() ? N(0) : P.x(); e = (r + c.n * N(2) - x) % c.n; eb = e.bin(32); g.label("chosen-t"); } break; } case 6: if (raw) eb[g.draw(31)] ^= 1 << g.draw(7); else msg2 = g.boolean() ? cat(msg, Bytes{0}) : cat(Bytes{1}, msg); break; case 7: if (!raw) { id2[g.draw(id2.size() - 1)] ^= 1 << g.draw(7); } break; case 8: q2 = mul(c, key(g)); break; default: break; }
    if (!raw) eb = sm3(cat(Z(id2, q2), msg2)); Bytes sig = derSig(r, s); if (g.chance(1, 4)) g.mutateDer(sig); N r2, s2; bool strict = false, der = parseSig(sig, r2, s2, &strict); bool want = der && refVerify(r2, s2, N(eb), q2), lax = want && !strict;
    PkeyCtx v(nk(g)); REQUIRE_OK(setPub(v, q2.enc(g.boolean() ? POINT_CONVERSION_UNCOMPRESSED : POINT_CONVERSION_COMPRESSED)), "sm2-setpub"); setId(v, id2); dup(g, v); Exact in(raw ? eb : msg2), sb(sig); int32_t x = raw ? CRYPT_EAL_PkeyVerifyData(v, in.p, (uint32_t)in.n, sb.p, (uint32_t)sb.n) : CRYPT_EAL_PkeyVerify(v, CRYPT_MD_SM3, in.p, (uint32_t)in.n, sb.p, (uint32_t)sb.n);
    CHECK(lax || (x == 0) == want, want ? "sm2-refused" : "sm2-accepted", "mode=%d raw=%d e=%s sig=%s: verify %s, model %d", mode, raw, hex(eb).c_str(), hex(sig).c_str(), rc(x).c_str(), want); g.nontrivial(); g.label(want ? "valid" : "invalid");
}
static Bytes derOct(const Bytes &b) { Bytes o{4}; if (b.size() >= 256) { o.push_back(0x82); o.push_back(b.size() >> 8); } else if (b.size() >= 128) o.push_back(0x81); o.push_back((uint8_t)b.size()); return cat(o, b); }
static Bytes derCt(const N &x, const N &y, const Bytes &h, const Bytes &c) { Bytes b = cat(cat(derInt(x), derInt(y)), cat(derOct(h), derOct(c))); Bytes o{0x30}; if (b.size() >= 256) { o.push_back(0x82); o.push_back(b.size() >> 8); } else if (b.size() >= 128) o.push_back(0x81); o.push_back((uint8_t)b.size()); return cat(o, b); }
static bool parseCt(const Bytes &ct, N &x, N &y, Bytes &h, Bytes &c, bool *strict) { const uint8_t *p = ct.data(), *e = p + ct.size(), *v; size_t l; if (!ber(p, e, 0x30, v, l) || p != e) return false; p = v; e = v + l; if (!ber(p, e, 2, v, l) || !l || (v[0] & 0x80)) return false; x = N(Bytes(v, v + l)); if (!ber(p, e, 2, v, l) || !l || (v[0] & 0x80)) return false; y = N(Bytes(v, v + l)); if (!ber(p, e, 4, v, l)) return false; h = Bytes(v, v + l); if (!ber(p, e, 4, v, l)) return false; c = Bytes(v, v + l); if (p != e) return false; *strict = derCt(x, y, h, c) == ct; return true; }
static bool refDec(const N &d, const N &x, const N &y, const Bytes &h, const Bytes &ct, Bytes &out) { const Curve &c = C(); Pt P(c); if (x.bits() > 256 || y.bits() > 256 || !P.dec(cat(Bytes{4}, cat(x.bin(32), y.bin(32))))) return false; Pt S = mul(c, N(0), &P, &d); if (S.inf()) return false; Bytes xy = cat(S.x().bin(32), S.y().bin(32)), t = kdf(xy, ct.size()); bool z = true; for (auto b : t) if (b) z = false; if (z) return false; for (size_t i = 0; i < t.size(); i++) t[i] ^= ct[i]; out = t; return sm3(cat(cat(S.x().bin(32), t), S.y().bin(32))) == h; }
PBT_TEST(crypt, 4000, 100000)
{
    const Curve &c = C(); seedRand(g); setScript({}); N d = key(g); Pt q = mul(c, d); PkeyCtx k(nk(g)), u(nk(g)); REQUIRE_OK(setPrv(k, d.bin(32)), "sm2-setprv"); REQUIRE_OK(setPub(u, q.enc()), "sm2-setpub"); dup(g, k); dup(g, u); Bytes m = g.bytes(g.chance(1, 4) ? 1 : 1 + g.draw(g.chance(1, 6) ? 900 : 120));
    if (g.boolean()) {  // encrypt here
        Exact in(m); size_t cap = m.size() + 64 + 32 + 30; Exact o(cap); uint32_t ol = (uint32_t)cap; if (g.chance(1, 3)) setScript(scalar(g, c.n).bin(32)); int32_t r = CRYPT_EAL_PkeyEncrypt(u, in.p, (uint32_t)in.n, o.p, &ol); CHECK(!r && ol <= cap, "sm2-enc", "encrypt %zu bytes: %s", m.size(), rc(r).c_str()); Bytes ct(o.p, o.p + ol), h, cc, out; N x, y; bool st = false; CHECK(parseCt(ct, x, y, h, cc, &st) && st, "sm2-enc-der", "ciphertext is not DER: %s", hex(ct).c_str()); CHECK(refDec(d, x, y, h, cc, out) && out == m, "sm2-enc-value", "model cannot decrypt %s", hex(ct).c_str()); g.label("encrypt"); g.nontrivial(); return;
    }
    N kk = scalar(g, c.n); Pt C1 = mul(c, kk), S = mul(c, N(0), &q, &kk); Bytes xy = cat(S.x().bin(32), S.y().bin(32)), t = kdf(xy, m.size()); for (size_t i = 0; i < t.size(); i++) t[i] ^= m[i]; Bytes h = sm3(cat(cat(S.x().bin(32), m), S.y().bin(32))); N x = C1.x(), y = C1.y();
    switch (g.weighted({4, 1, 1, 1, 1, 1, 1})) { case 1: h[g.draw(31)] ^= 1 << g.draw(7); break; case 2: t[g.draw(t.size() - 1)] ^= 1 << g.draw(7); break; case 3: if (g.boolean()) x = x + N(1); else y = c.p - y; break; case 4: { // off-curve or degenerate C1, with hash made right for the wrong point where possible
            x = g.pick({N(0), c.p, x + c.p, N(1)}); y = g.pick({N(0), y, c.p}); break; } case 5: { Bytes e2 = g.boolean() ? cat(t, Bytes{0}) : Bytes(t.begin(), t.end() - 1); t = e2; break; } case 6: h.resize(g.boolean() ? 31 : 33, 0); break; default: break; }
    Bytes ct = derCt(x, y, h, t); if (g.chance(1, 5)) g.mutateDer(ct); N x2, y2; Bytes h2, t2, out; bool st = false, der = parseCt(ct, x2, y2, h2, t2, &st); bool want = der && h2.size() == 32 && t2.size() > 0 && refDec(d, x2, y2, h2, t2, out), lax = want && !st; Exact in(ct), o(ct.size() + 8); uint32_t ol = (uint32_t)o.n; int32_t r = CRYPT_EAL_PkeyDecrypt(k, in.p, (uint32_t)in.n, o.p, &ol);
    CHECK(lax || (r == 0) == want, want ? "sm2-dec-refused" : "sm2-dec-accepted", "ct=%s d=%s: decrypt %s, model %d", hex(ct, 400).c_str(), d.str().c_str(), rc(r).c_str(), want); if (!r) CHECK(ol == out.size() && Bytes(o.p, o.p + ol) == out, "sm2-dec-value", "plaintext differs"); g.nontrivial(); g.label(want ? "valid" : "invalid");
}
PBT_TEST(exch, 700, 15000)
{
    const Curve &c = C(); seedRand(g); setScript({}); N da = key(g), db = key(g); Pt qa = mul(c, da), qb = mul(c, db); Bytes ia = genId(g), ib = genId(g); if (ia.size() > 600) ia.resize(600); if (ib.size() > 600) ib.resize(600); int32_t init = (int32_t)g.draw(1); // HiTLS role: server==1 is the initiator
    PkeyCtx self(nk(g)), peer(nk(g)); REQUIRE_OK(setPrv(self, da.bin(32)), "sm2-setprv"); if (g.boolean()) REQUIRE_OK(setPub(self, qa.enc()), "sm2-setpub"); setId(self, ia); REQUIRE_OK(setPub(peer, qb.enc()), "sm2-setpub"); setId(peer, ib); int32_t pinit = !init; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(self, CRYPT_CTRL_SET_SM2_SERVER, &init, 4), "sm2-server"); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(peer, CRYPT_CTRL_SET_SM2_SERVER, &pinit, 4), "sm2-server");
    N ra = scalar(g, c.n), rb = scalar(g, c.n); bool fixed = g.boolean(); if (fixed) setScript(ra.bin(32)); Exact R((size_t)65); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(self, CRYPT_CTRL_GENE_SM2_R, R.p, 65), "sm2-genr"); setScript({}); Pt RA(c), RB = mul(c, rb); CHECK(RA.dec(R.vec()) && !RA.inf(), "sm2-genr-point", "R is not a curve point"); bool bad = g.chance(1, 8); Bytes RBb = RB.enc(); if (bad) { RBb[1 + g.draw(63)] ^= 1 << g.draw(7); } { Exact b(RBb); int32_t r = CRYPT_EAL_PkeyCtrl(peer, CRYPT_CTRL_SET_SM2_R, b.p, 65); Pt T(c); if (bad && !T.dec(RBb)) { CHECK(r, "sm2-setr-bad", "off-curve R accepted"); g.nontrivial(); g.label("bad-R"); return; } CHECK(!r, "sm2-setr", "SetR %s", rc(r).c_str()); RB.dec(RBb); }
    if (bad) return; size_t kl = g.pick<size_t>({16, 32, 48, 1 + g.draw(100)}); Exact o(kl); uint32_t ol = (uint32_t)kl; int32_t r = CRYPT_EAL_PkeyComputeShareKey(self, peer, o.p, &ol);
    // model: the peer's side, t_B = d_B + x~_RB * r_B; V = t_B (Q_A + x~_RA R_A)
    N w = N(1) << 127; N xb = w + RB.x() % w, xa = w + RA.x() % w; N tb = (db + xb * rb) % c.n; Pt T = mul(c, N(0), &RA, &xa); EC_POINT_add(c.grp, T.q, T.q, qa.q, bc()); Pt V = mul(c, N(0), &T, &tb); if (V.inf()) { CHECK(r, "sm2-kap-inf", "infinity accepted"); return; }
    CHECK(!r && ol == kl, "sm2-kap", "ComputeShareKey %s", rc(r).c_str()); Bytes za = Z(ia, qa), zb = Z(ib, qb), zz = init ? cat(za, zb) : cat(zb, za); Bytes want = kdf(cat(cat(V.x().bin(32), V.y().bin(32)), zz), kl); CHECK(o.vec() == want, "sm2-kap-value", "role %d key %s expected %s", init, hex(o.vec()).c_str(), hex(want).c_str());
    Bytes r1 = init ? RA.enc() : RB.enc(), r2 = init ? RB.enc() : RA.enc(); r1.erase(r1.begin()); r2.erase(r2.begin()); Bytes inner = sm3(cat(cat(V.x().bin(32), zz), cat(r1, r2))); auto cf = [&](uint8_t t) { return sm3(cat(cat(Bytes{t}, V.y().bin(32)), inner)); }; Bytes s1 = cf(2), s2 = cf(3); Exact snd((size_t)32); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(self, CRYPT_CTRL_SM2_GET_SEND_CHECK, snd.p, 32), "sm2-getsend"); Bytes wantSend = init ? s2 : s1, wantCheck = init ? s1 : s2; CHECK(snd.vec() == wantSend, "sm2-confirm", "confirmation value differs");
    Exact chk(wantCheck); bool alt = g.boolean(); if (alt) chk.p[g.draw(31)] ^= 1 << g.draw(7); r = CRYPT_EAL_PkeyCtrl(self, CRYPT_CTRL_SM2_DO_CHECK, chk.p, 32); CHECK((r == 0) == !alt, "sm2-docheck", "peer confirmation %s: %s", alt ? "altered" : "genuine", rc(r).c_str()); g.nontrivial();
}
