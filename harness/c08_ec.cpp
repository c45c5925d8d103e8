#include "oec.hpp"
using namespace oec;
const char *pbt::PROPERTY_RULE =
    "keys: boundary-biased scalars (1.., n-1.., powers of two, runs of 0/ff) and any encoding of points (all formats, x>=p, off-curve, wrong parity/prefix/length, infinity), public key and shared "
    "secret compared with OpenSSL's curve arithmetic. sign: signatures under scripted nonces (0, n, n-1, 1, boundary; s=0 crafted) verified by the reference and vice versa; verify: crafted valid signatures "
    "(e=0, u1G=u2Q, x(R)>=n by key recovery, r/s small or n-1), crafted invalid ones (r or s in {0,n,n+..,2^k}, R at infinity, malleated/any bit flipped, foreign key/hash). Non-trivial: both implementations evaluated on the case.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 prime-curve arithmetic is correct", "SHA-2/SM3 digests are correct (C01)"};
void pbt::setup() { useScrRand(); }
#ifndef NCURVES
#define NCURVES 8
#endif
static const CRYPT_PKEY_PointFormat FMT[] = {CRYPT_POINT_UNCOMPRESSED, CRYPT_POINT_COMPRESSED, CRYPT_POINT_HYBRID};
static const point_conversion_form_t OF[] = {POINT_CONVERSION_UNCOMPRESSED, POINT_CONVERSION_COMPRESSED, POINT_CONVERSION_HYBRID};
static CRYPT_EAL_PkeyCtx *newKey(G &g, CRYPT_PKEY_AlgId a, const Curve &c)
{
    CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(a) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, a, 0, "provider=default");
    CHECK(k, "ec-new", "%s: no context", c.name); int32_t r = CRYPT_EAL_PkeySetParaById(k, (CRYPT_PKEY_ParaId)c.id); CHECK(!r, "ec-para", "%s: SetParaById %s", c.name, rc(r).c_str()); return k;
}
static int32_t setPrv(CRYPT_EAL_PkeyCtx *k, const Bytes &d) { Exact e(d); CRYPT_EAL_PkeyPrv p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.eccPrv.data = e.p; p.key.eccPrv.len = (uint32_t)e.n; return CRYPT_EAL_PkeySetPrv(k, &p); }
static int32_t setPub(CRYPT_EAL_PkeyCtx *k, const Bytes &d) { Exact e(d); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.eccPub.data = e.p; p.key.eccPub.len = (uint32_t)e.n; return CRYPT_EAL_PkeySetPub(k, &p); }
static Bytes getPub(CRYPT_EAL_PkeyCtx *k, size_t cap) { Exact e(cap); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.eccPub.data = e.p; p.key.eccPub.len = (uint32_t)e.n; int32_t r = CRYPT_EAL_PkeyGetPub(k, &p); CHECK(!r, "ec-getpub", "GetPub failed %s", rc(r).c_str()); return Bytes(e.p, e.p + p.key.eccPub.len); }
static CRYPT_EAL_PkeyCtx *maybeDup(G &g, CRYPT_EAL_PkeyCtx *k) { if (g.chance(1, 4)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "ec-dup", "dup failed"); CRYPT_EAL_PkeyFreeCtx(k); return d; } return k; }

PBT_TEST(keys, 4800, 120000)
{
    const Curve &c = curves()[g.cycle(NCURVES)]; g.label(c.name); seedRand(g); setScript({});
    CRYPT_PKEY_AlgId alg = g.boolean() ? CRYPT_PKEY_ECDH : CRYPT_PKEY_ECDSA;
    N d = scalar(g, c.n); PkeyCtx k(newKey(g, alg, c));
    if (g.chance(1, 3)) {  // invalid scalars, before or instead of a valid one
        N bad = g.boolean() ? N(0) : c.n + N(g.draw(5)); if (g.chance(1, 4)) bad = N(Bytes(c.fl + g.draw(3), 0xff));
        Bytes bb = bad.bin(std::max(c.fl, (bad.bits() + 7) / 8)); CHECK(setPrv(k, bb) != CRYPT_SUCCESS, "ec-badscalar", "%s: private key %s accepted", c.name, bad.str().c_str()); g.label("bad-scalar");
    }
    int32_t r = setPrv(k, g.boolean() ? d.bin(c.fl) : d.bin()); CHECK(!r, "ec-setprv", "%s: SetPrv(%s) %s", c.name, d.str().c_str(), rc(r).c_str());
    Pt q = mul(c, d); r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GEN_ECC_PUBLICKEY, nullptr, 0); CHECK(!r, "ec-genpub", "%s: GEN_ECC_PUBLICKEY %s", c.name, rc(r).c_str());
    k.p = maybeDup(g, k.release());
    for (int i = 0, nn = 1 + (int)g.draw(1); i < nn; i++) {
        int f = (int)g.draw(2); uint32_t fv = FMT[f]; r = CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_ECC_POINT_FORMAT, &fv, 4); CHECK(!r, "ec-fmt", "%s: point format %d %s", c.name, f, rc(r).c_str());
        Bytes pub = getPub(k, 2 * c.fl + 1); CHECK(pub == q.enc(OF[f]), "ec-pub", "%s d=%s format %d: public key %s expected %s", c.name, d.str().c_str(), f, hex(pub, 140).c_str(), hex(q.enc(OF[f]), 140).c_str());
    }
    { Exact e((size_t)c.fl + 2); CRYPT_EAL_PkeyPrv p = {}; p.id = alg; p.key.eccPrv.data = e.p; p.key.eccPrv.len = (uint32_t)e.n; r = CRYPT_EAL_PkeyGetPrv(k, &p); CHECK(!r && N(Bytes(e.p, e.p + p.key.eccPrv.len)) == d, "ec-getprv", "%s: GetPrv differs from %s (%s)", c.name, d.str().c_str(), rc(r).c_str()); }
    // peer point: valid / manipulated encoding
    N d2 = scalar(g, c.n); Pt q2 = mul(c, d2); if (g.chance(1, 8)) { q2 = q; d2 = d; g.label("own-point"); } else if (g.chance(1, 8)) { d2 = c.n - d; q2 = mul(c, d2); g.label("neg-point"); }
    Bytes e = q2.enc(OF[g.draw(2)]); int how = (int)g.weighted({5, 1, 1, 1, 1, 1, 1, 1, 1});
    if (how == 1) e[0] = (uint8_t)g.draw(255);
    else if (how == 2) e[1 + g.draw(e.size() - 2)] ^= 1 << g.draw(7);
    else if (how == 3) e.pop_back();
    else if (how == 4) e.push_back((uint8_t)g.draw(255));
    else if (how == 5) e = Bytes(1 + (g.boolean() ? 0 : g.draw(2 * c.fl)), 0);
    else if (how == 6) {  // x (or y) at or above p: find a small x on the curve
        Pt t(c); N x(g.draw(50)); for (;; x = x + N(1)) if (fromX(c, x, (int)g.draw(1), t)) break;
        N X = x + c.p, Y = t.y(); if (((X.bits() + 7) / 8) > c.fl) { X = x; Y = Y + c.p; if (((Y.bits() + 7) / 8) > c.fl) Y = c.p; }
        e = cat(Bytes{4}, cat(X.bin(c.fl), Y.bin(c.fl))); if (g.chance(1, 3)) { e = cat(Bytes{(uint8_t)(2 + (int)g.draw(1))}, (x + c.p).bits() <= 8 * c.fl ? (x + c.p).bin(c.fl) : c.p.bin(c.fl)); } }
    else if (how == 7) { N Y = c.p - q2.y(); e = q2.enc(); Bytes yb = (g.boolean() ? Y : Y + N(1)).bin(c.fl); std::copy(yb.begin(), yb.end(), e.begin() + 1 + c.fl); if (g.chance(1, 3)) e[0] = 6 + (uint8_t)g.draw(1); }
    else if (how == 8) { N x = rawScalar(g, c.p); if (x.neg()) x = N(0); if (x >= c.p) x = c.p; if (g.boolean()) { e = cat(Bytes{(uint8_t)(2 + g.draw(1))}, x.bin(c.fl)); } else e = cat(Bytes{4}, cat(x.bin(c.fl), g.bytes(c.fl))); }
    Pt peer(c); bool ok = peer.dec(e) && !peer.inf();
    PkeyCtx pk(newKey(g, alg, c)); r = setPub(pk, e);
    CHECK((r == CRYPT_SUCCESS) == ok, ok ? "ec-point-refused" : "ec-point-accepted", "%s: point %s (how %d): SetPub %s, reference %s", c.name, hex(e, 200).c_str(), how, rc(r).c_str(), ok ? "accepts" : "rejects");
    if (!ok) { g.label("bad-point"); g.nontrivial(); return; }
    g.nontrivial(); CHECK(getPub(pk, 2 * c.fl + 1) == peer.enc(), "ec-point-value", "%s: decoded %s as another point", c.name, hex(e, 140).c_str());
    pk.p = maybeDup(g, pk.release());
    if (alg == CRYPT_PKEY_ECDH) {
        Pt z = mul(c, N(0), &peer, &d); Exact o((size_t)c.fl + (g.chance(1, 5) ? 7 : 0)); uint32_t ol = (uint32_t)o.n; r = CRYPT_EAL_PkeyComputeShareKey(k, pk, o.p, &ol);
        CHECK(!r, "ecdh-fail", "%s: ECDH d=%s Q=%s %s", c.name, d.str().c_str(), hex(e, 140).c_str(), rc(r).c_str());
        CHECK(ol == (uint32_t)c.fl && Bytes(o.p, o.p + ol) == z.x().bin(c.fl), "ecdh-value", "%s: d=%s Q=%s: secret %s expected %s", c.name, d.str().c_str(), hex(e, 140).c_str(), hex(o.p, ol).c_str(), hex(z.x().bin(c.fl)).c_str());
        if (g.chance(1, 6)) { Exact s((size_t)g.draw(c.fl - 1)); uint32_t sl = (uint32_t)s.n; CHECK(CRYPT_EAL_PkeyComputeShareKey(k, pk, s.p, &sl) != CRYPT_SUCCESS, "ecdh-short", "short output buffer accepted"); }
    }
    bool same = peer.enc() == q.enc(); CHECK((CRYPT_EAL_PkeyCmp(k, pk) == CRYPT_SUCCESS) == same, "ec-cmp", "%s: PkeyCmp of %s keys wrong", c.name, same ? "equal" : "different");
    if (g.chance(1, 6)) CHECK((CRYPT_EAL_PkeyPairCheck(pk, k) == CRYPT_SUCCESS) == same, "ec-paircheck", "%s: pair check of %s keys", c.name, same ? "matching" : "different");
    g.note("%s d=%s how=%d", c.name, d.str().c_str(), how);
}
struct H { CRYPT_MD_AlgId id; const char *n; };
static const H HS[] = {{CRYPT_MD_SHA256, "SHA256"}, {CRYPT_MD_SHA1, "SHA1"}, {CRYPT_MD_SHA224, "SHA224"}, {CRYPT_MD_SHA384, "SHA384"}, {CRYPT_MD_SHA512, "SHA512"}, {CRYPT_MD_SM3, "SM3"}};
static N truncE(const Bytes &h, const Curve &c) { N e(h); int x = (int)h.size() * 8 - c.n.bits(); return x > 0 ? e >> x : e; }
static bool refVerify(const Curve &c, const N &r, const N &s, const Bytes &h, const Pt &q)
{
    if (r.zero() || s.zero() || r.neg() || s.neg() || r >= c.n || s >= c.n) return false;
    N w = s.inv(c.n), u1 = truncE(h, c) * w % c.n, u2 = r * w % c.n; Pt R = mul(c, u1, &q, &u2); return !R.inf() && R.x() % c.n == r;
}
PBT_TEST(sign, 2400, 60000)
{
    const Curve &c = curves()[g.cycle(NCURVES)]; g.label(c.name); seedRand(g); setScript({}); N d = scalar(g, c.n); Pt q = mul(c, d); PkeyCtx k(newKey(g, CRYPT_PKEY_ECDSA, c));
    int32_t r = setPrv(k, d.bin(c.fl)); CHECK(!r, "ec-setprv", "SetPrv %s", rc(r).c_str()); k.p = maybeDup(g, k.release());
    N nonce; bool scripted = g.boolean(); int nb = (c.n.bits() + 7) / 8;
    for (int rep = 0, nr = 1 + (int)g.draw(2); rep < nr; rep++) {
        Bytes sc; Bytes h; bool raw = g.boolean(); Bytes msg = g.bytes(g.len(0, 120)); const H &md = HS[g.draw(5)];
        if (scripted) { int nbad = (int)g.draw(2); for (int i = 0; i < nbad; i++) sc = cat(sc, g.pick({Bytes(nb, 0), c.n.bin(nb), Bytes(nb, 0xff)})); nonce = scalar(g, c.n); Bytes kb = nonce.bin(nb); if (g.boolean()) sc = cat(sc, kb); else sc = cat(sc, cat(kb, kb)); }
        if (raw) {
            h = g.bytes(g.weighted({4, 1}) == 0 ? g.pick<size_t>({20, 28, 32, 48, 64}) : 1 + g.draw(130));
            if (scripted && g.chance(1, 2)) {  // would give s = 0 for the scripted nonce
                N R = mul(c, nonce).x() % c.n; N e = (c.n - R * d % c.n) % c.n; int x = nb * 8 - c.n.bits(); h = (e << x).bin(nb); g.label("s=0-crafted");
            } else if (g.chance(1, 6)) h = (g.boolean() ? N(0) : c.n).bin(nb);
        } else h = osslMd(md.n, msg);
        setScript(sc); Exact hb(raw ? h : msg); uint32_t cap = CRYPT_EAL_PkeyGetSignLen(k); CHECK(cap > 0 && cap < 200, "ec-signlen", "%s: sign length %u", c.name, cap); Exact o((size_t)cap); uint32_t ol = cap;
        r = raw ? CRYPT_EAL_PkeySignData(k, hb.p, (uint32_t)hb.n, o.p, &ol) : CRYPT_EAL_PkeySign(k, md.id, hb.p, (uint32_t)hb.n, o.p, &ol);
        setScript({});
        CHECK(!r, "ecdsa-sign", "%s: sign failed %s (raw %d, hash %zu)", c.name, rc(r).c_str(), raw, h.size()); CHECK(ol <= cap, "ec-signlen", "%s: signature of %u bytes, bound %u", c.name, ol, cap);
        Bytes sig(o.p, o.p + ol); N R, S; CHECK(parseSig(sig, R, S), "ecdsa-der", "%s: signature not DER: %s", c.name, hex(sig, 200).c_str());
        CHECK(refVerify(c, R, S, h, q), "ecdsa-invalid", "%s d=%s hash %s script %zu: signature %s does not verify", c.name, d.str().c_str(), hex(h, 200).c_str(), sc.size(), hex(sig, 200).c_str()); g.nontrivial();
        if (scripted) { N kk = (truncE(h, c) + R * d) * S.inv(c.n) % c.n; if (kk == nonce || kk + nonce == c.n) g.label("nonce-hit"); }
        PkeyCtx pk(newKey(g, CRYPT_PKEY_ECDSA, c)); r = setPub(pk, q.enc(OF[g.draw(2)])); CHECK(!r, "ec-setpub", "SetPub %s", rc(r).c_str());
        r = raw ? CRYPT_EAL_PkeyVerifyData(pk, hb.p, (uint32_t)hb.n, sig.data(), ol) : CRYPT_EAL_PkeyVerify(pk, md.id, hb.p, (uint32_t)hb.n, sig.data(), ol);
        CHECK(!r, "ecdsa-selfverify", "%s: own signature %s refused %s", c.name, hex(sig, 200).c_str(), rc(r).c_str());
    }
}
PBT_TEST(verify, 4800, 120000)
{
    const Curve &c = curves()[g.cycle(NCURVES)]; g.label(c.name); seedRand(g); setScript({}); int nb = (c.n.bits() + 7) / 8, x8 = nb * 8 - c.n.bits();
    N d = scalar(g, c.n); Pt q = mul(c, d); N k = scalar(g, c.n); N R = mul(c, k).x() % c.n; if (R.zero()) discard(); N e; Bytes h; N S;
    int how = (int)g.weighted({4, 2, 2, 2, 2, 1, 2, 1});
    auto hashOf = [&](const N &v) { return (v << x8).bin(nb); };
    if (how == 0) { h = g.bytes(g.pick<size_t>({20, 28, 32, 48, 64, 1, 66, 100})); e = truncE(h, c); S = (e + R * d) * k.inv(c.n) % c.n; }
    else if (how == 1) { h = g.boolean() ? Bytes(nb, 0) : hashOf(c.n); e = N(0); S = R * d * k.inv(c.n) % c.n; }
    else if (how == 2) { e = R * d % c.n; h = hashOf(e); S = (e + e) * k.inv(c.n) % c.n; g.label("u1G=u2Q"); }
    else if (how == 3) {  // key recovery for an R with x >= n (when the field is larger than the order) or tiny x
        if (g.chance(1, 2) && g.draw(1)) { R = N(1 + g.draw(5)); }
        Pt P(c); N x = (c.p >= c.n && g.boolean()) ? c.n + N(1 + g.draw(1000)) : N(1 + g.draw(1000)); int lim = 0; while (x >= c.p || !fromX(c, x, (int)g.draw(1), P)) { x = x >= c.p ? N(1) : x + N(1); if (++lim > 200) discard(); }
        R = x % c.n; if (R.zero()) discard(); S = scalar(g, c.n); h = g.bytes(nb); e = truncE(h, c) % c.n; N ri = R.inv(c.n), u = (c.n - e * ri % c.n) % c.n, v = S * ri % c.n; q = mul(c, u, &P, &v); if (q.inf()) discard(); g.label(x >= c.n ? "x(R)>=n" : "small-x(R)");
    }
    else if (how == 4) { S = N(1 + g.draw(3)); if (g.boolean()) S = c.n - S; e = (S * k + c.n * c.n - R * d) % c.n; h = hashOf(e); g.label("s-boundary"); }
    else if (how == 5) { R = scalar(g, c.n); S = scalar(g, c.n); e = (c.n - R * d % c.n) % c.n; h = hashOf(e); g.label("R=inf"); }
    else if (how == 6) { h = g.bytes(nb); R = g.pick({N(0), N(1), c.n, c.n + N(1), c.n - N(1), R, R + c.n}); S = g.pick({N(0), N(1), c.n, c.n + N(1), c.n - N(1), scalar(g, c.n), scalar(g, c.n) + c.n}); g.label("range"); }
    else { h = g.bytes(nb); e = truncE(h, c); S = (e + R * d) * k.inv(c.n) % c.n; if (S.zero()) discard(); if (g.boolean()) R = R + c.n; else S = S + c.n; g.label("plus-n"); }
    Bytes sig = derSig(R, S); int tamper = (int)g.weighted({5, 3, 1, 1, 1});
    if (tamper == 1) sig[g.draw(sig.size() - 1)] ^= 1 << g.draw(7);
    else if (tamper == 2) { g.mutateDer(sig, 2); }
    else if (tamper == 3) { if (g.boolean()) sig.push_back((uint8_t)g.draw(255)); else sig.pop_back(); }
    else if (tamper == 4) { if (g.boolean() && h.size() * 8 <= (size_t)c.n.bits()) h[g.draw(h.size() - 1)] ^= 1 << g.draw(7); else { N dd = scalar(g, c.n); q = mul(c, dd); } }
    N r2, s2; bool strict = false, der = parseSig(sig, r2, s2, &strict); bool want = der && refVerify(c, r2, s2, h, q); bool lax = want && !strict; // same r,s in a non-minimal BER length form: either verdict
    PkeyCtx pk(newKey(g, CRYPT_PKEY_ECDSA, c)); int32_t r = setPub(pk, q.enc()); CHECK(!r, "ec-setpub", "%s: SetPub %s", c.name, rc(r).c_str());
    Exact hb(h), sb(sig); r = CRYPT_EAL_PkeyVerifyData(pk, hb.p, (uint32_t)hb.n, sb.p, (uint32_t)sb.n);
    CHECK(lax || (r == CRYPT_SUCCESS) == want, want ? "ecdsa-refused" : der ? "ecdsa-accepted" : "ecdsa-nonder-accepted", "%s how=%d tamper=%d Q=%s hash=%s sig=%s: verify %s, reference %s%s", c.name, how, tamper, hex(q.enc(), 140).c_str(), hex(h).c_str(), hex(sig, 200).c_str(), rc(r).c_str(), want ? "accepts" : "rejects", der ? "" : " (not DER)");
    g.label(want ? "valid" : "invalid"); g.nontrivial(); g.note("%s how=%d tamper=%d %s", c.name, how, tamper, want ? "valid" : "invalid");
}
