#include "oec.hpp"
#include "ffparams.hpp"
#include <openssl/dh.h>
using namespace oec;
const char *pbt::PROPERTY_RULE =
    "dsa: FIPS 186 signature equation checked with BIGNUM arithmetic both ways (signatures made here and by the model; r,s at range ends, +q, altered digests/messages/keys, any digest length); dh: all 13 named groups and explicit (p,q,g), private values at range ends, public values 0,1,2,p-2,p-1,p,p+1, "
    "small-subgroup and random, padded and unpadded secrets; paillier/elgamal: encrypt-decrypt against model arithmetic, homomorphic addition, out-of-range inputs. Non-trivial: a value or verdict compared with the model.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL BIGNUM arithmetic is correct", "digests are correct (C01)"};
void pbt::setup() { useScrRand(); }
static Bytes unhexv(const std::string &s) { Bytes o; for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), nullptr, 16)); return o; }
static N hx(const char *s) { return N(unhexv(s)); }
static CRYPT_EAL_PkeyCtx *nk(G &g, CRYPT_PKEY_AlgId id) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(id) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, id, 0, "provider=default"); CHECK(k, "new", "no context for %d", id); return k; }
static void dup(G &g, PkeyCtx &k) { if (g.chance(1, 4)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "dup", "dup failed"); k.reset(d); } }
struct Dsa { N p, q, g; };
static const Dsa &dsaP(size_t i) { static std::vector<Dsa> v; if (v.empty()) for (auto &x : DSAP) v.push_back({hx(x[0]), hx(x[1]), hx(x[2])}); return v[i % v.size()]; }
static void dsaPara(CRYPT_EAL_PkeyCtx *c, const Dsa &d) { Exact p(d.p.bin()), q(d.q.bin()), g(d.g.bin()); CRYPT_EAL_PkeyPara a = {}; a.id = CRYPT_PKEY_DSA; a.para.dsaPara = {p.p, q.p, g.p, (uint32_t)p.n, (uint32_t)q.n, (uint32_t)g.n}; int32_t r = CRYPT_EAL_PkeySetPara(c, &a); CHECK(!r, "dsa-para", "SetPara %s", rc(r).c_str()); }
static int32_t setPub(CRYPT_EAL_PkeyCtx *c, CRYPT_PKEY_AlgId id, const Bytes &y) { Exact b(y); CRYPT_EAL_PkeyPub p = {}; p.id = id; p.key.dsaPub.data = b.p; p.key.dsaPub.len = (uint32_t)b.n; return CRYPT_EAL_PkeySetPub(c, &p); }
static int32_t setPrv(CRYPT_EAL_PkeyCtx *c, CRYPT_PKEY_AlgId id, const Bytes &x) { Exact b(x); CRYPT_EAL_PkeyPrv p = {}; p.id = id; p.key.dsaPrv.data = b.p; p.key.dsaPrv.len = (uint32_t)b.n; return CRYPT_EAL_PkeySetPrv(c, &p); }
static N dsaE(const Dsa &d, const Bytes &h) { N e(h); int ex = (int)h.size() * 8 - d.q.bits(); if (ex > 0) e = e >> ex; return e; }
static bool dsaOk(const Dsa &d, const N &y, const Bytes &h, const N &r, const N &s) { if (r.zero() || s.zero() || r >= d.q || s >= d.q) return false; N w = s.inv(d.q), u1 = dsaE(d, h) * w % d.q, u2 = r * w % d.q; return d.g.pow(u1, d.p) * y.pow(u2, d.p) % d.p % d.q == r; }
static bool parseDer(const Bytes &b, N &r, N &s, bool *st = nullptr) { bool strict = false; bool ok = parseSig(b, r, s, &strict); if (st) { *st = strict; return ok; } return ok && strict; }

PBT_TEST(dsa, 4000, 90000)
{
    seedRand(g); setScript({}); size_t pi = g.weighted({4, 3, 1}); const Dsa &d = dsaP(pi); N x = scalar(g, d.q), y = d.g.pow(x, d.p); PkeyCtx c(nk(g, CRYPT_PKEY_DSA)); dsaPara(c, d); bool raw = g.boolean(); const MdAlg &m = MDS[g.draw(5)]; Bytes msg = g.bytes(g.len(0, 60)), h = raw ? g.bytes(g.pick<size_t>({20, 28, 32, 48, 64, 1 + g.draw(80)})) : osslMd(m.ossl, msg); g.label(sfmt("%d/%d", d.p.bits(), d.q.bits())); if (raw && g.chance(1, 6)) h = g.boolean() ? Bytes(h.size(), 0) : d.q.bin();
    if (g.chance(2, 5)) {
        REQUIRE_OK(setPrv(c, CRYPT_PKEY_DSA, x.bin()), "dsa-setprv"); if (g.boolean()) REQUIRE_OK(setPub(c, CRYPT_PKEY_DSA, y.bin()), "dsa-setpub"); dup(g, c); if (g.chance(1, 3)) { N k = scalar(g, d.q); setScript(k.bin(d.q.bits() / 8)); }
        uint32_t sl = CRYPT_EAL_PkeyGetSignLen(c); Exact o(sl), hb(h), mb(msg); int32_t r = raw ? CRYPT_EAL_PkeySignData(c, hb.p, (uint32_t)hb.n, o.p, &sl) : CRYPT_EAL_PkeySign(c, (CRYPT_MD_AlgId)m.id, mb.p, (uint32_t)mb.n, o.p, &sl); CHECK(!r && sl <= o.n, "dsa-sign", "sign %s", rc(r).c_str());
        N rr, ss; Bytes sig(o.p, o.p + sl); CHECK(parseDer(sig, rr, ss), "dsa-der", "signature is not DER: %s", hex(sig).c_str()); CHECK(dsaOk(d, y, h, rr, ss), "dsa-sign-invalid", "%d/%d x=%s: signature does not satisfy the equation (%s)", d.p.bits(), d.q.bits(), x.str().c_str(), hex(sig).c_str()); g.label("sign"); g.nontrivial(); return;
    }
    N k = scalar(g, d.q), r = d.g.pow(k, d.p) % d.q, s = (dsaE(d, h) + x * r) * k.inv(d.q) % d.q; if (r.zero() || s.zero()) discard(); Bytes yb = y.bin(); N y2 = y; Bytes h2 = h, msg2 = msg;
    switch (g.weighted({4, 1, 1, 1, 1, 1, 1, 1})) { case 0: break; case 1: r = r + d.q; break; case 2: s = s + d.q; break; case 3: s = d.q - s; break; case 4: if (g.boolean()) r = g.pick({N(0), d.q, d.q - N(1), N(1)}); else s = g.pick({N(0), d.q, d.q - N(1), N(1)}); break; case 5: if (raw) { h2[g.draw(h2.size() - 1)] ^= 1 << g.draw(7); } else { msg2.push_back(1); h2 = osslMd(m.ossl, msg2); } break; case 6: y2 = d.g.pow(scalar(g, d.q), d.p); break; default: if (g.boolean()) r = r + N(1); else s = s + N(1); }
    Bytes sig = derSig(r, s); REQUIRE_OK(setPub(c, CRYPT_PKEY_DSA, y2.bin()), "dsa-setpub"); dup(g, c); bool want = dsaOk(d, y2, h2, r, s); Exact hb(h2), mb(msg2), sb(sig); int32_t v = raw ? CRYPT_EAL_PkeyVerifyData(c, hb.p, (uint32_t)hb.n, sb.p, (uint32_t)sb.n) : CRYPT_EAL_PkeyVerify(c, (CRYPT_MD_AlgId)m.id, mb.p, (uint32_t)mb.n, sb.p, (uint32_t)sb.n);
    CHECK((v == 0) == want, want ? "dsa-refused" : "dsa-accepted", "%d/%d h=%s sig=%s: verify %s, model %d", d.p.bits(), d.q.bits(), hex(h2).c_str(), hex(sig).c_str(), rc(v).c_str(), want); g.label(want ? "valid" : "invalid"); g.nontrivial();
    if (g.chance(1, 3)) { Bytes bad = sig; g.mutateDer(bad); if (bad != sig) { N a, b; bool st = false, p = parseDer(bad, a, b, &st), w = p && dsaOk(d, y2, h2, a, b); Exact bb(bad); int32_t t = raw ? CRYPT_EAL_PkeyVerifyData(c, hb.p, (uint32_t)hb.n, bb.p, (uint32_t)bb.n) : CRYPT_EAL_PkeyVerify(c, (CRYPT_MD_AlgId)m.id, mb.p, (uint32_t)mb.n, bb.p, (uint32_t)bb.n); if (!w || st) CHECK((t == 0) == w, "dsa-mut", "mutated signature %s: %s, model %d", hex(bad).c_str(), rc(t).c_str(), w); } }
}
struct Grp { int32_t id; const char *nm; N p, g; };
static std::vector<Grp> &grps()
{
    static std::vector<Grp> *v = [] { auto *w = new std::vector<Grp>(); auto add = [&](int32_t id, const char *nm, BIGNUM *p) { w->push_back({id, nm, N(p), N(2)}); BN_free(p); }; auto ff = [&](int32_t id, const char *nm, int nid) { DH *d = DH_new_by_nid(nid); w->push_back({id, nm, N(DH_get0_p(d)), N(DH_get0_g(d))}); DH_free(d); };
        add(CRYPT_DH_RFC2409_768, "768", BN_get_rfc2409_prime_768(nullptr)); add(CRYPT_DH_RFC2409_1024, "1024", BN_get_rfc2409_prime_1024(nullptr)); add(CRYPT_DH_RFC3526_1536, "modp1536", BN_get_rfc3526_prime_1536(nullptr)); add(CRYPT_DH_RFC3526_2048, "modp2048", BN_get_rfc3526_prime_2048(nullptr)); ff(CRYPT_DH_RFC7919_2048, "ffdhe2048", NID_ffdhe2048); add(CRYPT_DH_RFC3526_3072, "modp3072", BN_get_rfc3526_prime_3072(nullptr)); ff(CRYPT_DH_RFC7919_3072, "ffdhe3072", NID_ffdhe3072);
        add(CRYPT_DH_RFC3526_4096, "modp4096", BN_get_rfc3526_prime_4096(nullptr)); ff(CRYPT_DH_RFC7919_4096, "ffdhe4096", NID_ffdhe4096); add(CRYPT_DH_RFC3526_6144, "modp6144", BN_get_rfc3526_prime_6144(nullptr)); ff(CRYPT_DH_RFC7919_6144, "ffdhe6144", NID_ffdhe6144); add(CRYPT_DH_RFC3526_8192, "modp8192", BN_get_rfc3526_prime_8192(nullptr)); ff(CRYPT_DH_RFC7919_8192, "ffdhe8192", NID_ffdhe8192); return w; }();
    return *v;
}
PBT_TEST(dh, 2400, 40000)
{
    seedRand(g); setScript({}); size_t gi = g.weighted({30, 20, 10, 8, 8, 3, 3, 2, 2, 1, 1, 1, 1}); Grp &G_ = grps()[gi]; N p = G_.p, gg = G_.g, q = (p - N(1)) >> 1; bool expl = gi < 3 && g.chance(1, 3), withQ = false; size_t bytes = (p.bits() + 7) / 8; Dsa dp; PkeyCtx a(nk(g, CRYPT_PKEY_DH)), b(nk(g, CRYPT_PKEY_DH));
    if (expl) { const Dsa &d = dsaP(g.draw(1)); if (g.boolean()) { p = d.p; q = d.q; gg = d.g; withQ = true; bytes = (p.bits() + 7) / 8; } Exact P(p.bin()), Q(q.bin()), GG(gg.bin()); CRYPT_EAL_PkeyPara x = {}; x.id = CRYPT_PKEY_DH; x.para.dhPara.p = P.p; x.para.dhPara.pLen = P.n; x.para.dhPara.g = GG.p; x.para.dhPara.gLen = GG.n; if (withQ) { x.para.dhPara.q = Q.p; x.para.dhPara.qLen = Q.n; } int32_t r = CRYPT_EAL_PkeySetPara(a, &x); CHECK(!r, "dh-para", "explicit parameters %s", rc(r).c_str()); REQUIRE_OK(CRYPT_EAL_PkeySetPara(b, &x), "dh-para"); g.label(withQ ? "explicit-pqg" : "explicit-pg"); }
    else { REQUIRE_OK(CRYPT_EAL_PkeySetParaById(a, (CRYPT_PKEY_ParaId)G_.id), "dh-paraid"); REQUIRE_OK(CRYPT_EAL_PkeySetParaById(b, (CRYPT_PKEY_ParaId)G_.id), "dh-paraid"); g.label(G_.nm); }
    Bytes P8(bytes), G8(bytes), Q8(bytes); if (g.chance(1, 6)) { CRYPT_EAL_PkeyPara x = {}; x.id = CRYPT_PKEY_DH; x.para.dhPara.p = P8.data(); x.para.dhPara.pLen = bytes; x.para.dhPara.g = G8.data(); x.para.dhPara.gLen = bytes; x.para.dhPara.q = Q8.data(); x.para.dhPara.qLen = bytes; REQUIRE_OK(CRYPT_EAL_PkeyGetPara(a, &x), "dh-getpara"); P8.resize(x.para.dhPara.pLen); G8.resize(x.para.dhPara.gLen); CHECK(N(P8) == p && N(G8) == gg, "dh-getpara-value", "parameters differ from the standard group"); }
    // private value
    N x; bool gen = g.chance(1, 3); int32_t r;
    if (gen) { r = CRYPT_EAL_PkeyGen(a); CHECK(!r, "dh-gen", "gen %s", rc(r).c_str()); Bytes xb(bytes), yb(bytes); CRYPT_EAL_PkeyPrv v = {}; v.id = CRYPT_PKEY_DH; v.key.dhPrv.data = xb.data(); v.key.dhPrv.len = bytes; REQUIRE_OK(CRYPT_EAL_PkeyGetPrv(a, &v), "dh-getprv"); xb.resize(v.key.dhPrv.len); x = N(xb); CRYPT_EAL_PkeyPub u = {}; u.id = CRYPT_PKEY_DH; u.key.dhPub.data = yb.data(); u.key.dhPub.len = bytes; REQUIRE_OK(CRYPT_EAL_PkeyGetPub(a, &u), "dh-getpub"); yb.resize(u.key.dhPub.len); CHECK(!x.zero() && N(yb) == gg.pow(x, p), "dh-gen-pair", "public value is not g^x"); if (withQ) CHECK(x < q, "dh-gen-range", "x >= q"); }
    else { N lim = withQ ? q : q; x = rawScalar(g, lim); if (gi >= 3 && x.bits() > 400 && g.chance(3, 4)) x = x >> (x.bits() - 300); if (g.chance(1, 10)) x = g.pick({N(0), p - N(1), p, p + N(5)}); if (x.neg()) x = N(0); r = setPrv(a, CRYPT_PKEY_DH, x.bin(g.boolean() ? -1 : std::max((x.bits() + 7) / 8, 1))); if (x.zero() || x >= p - N(1)) { CHECK(r, "dh-prv-range", "private value %s accepted", x.str().c_str()); g.nontrivial(); g.label("bad-x"); return; } if (withQ && x >= q) { CHECK(r, "dh-prv-range", "x >= q accepted"); return; } CHECK(!r, "dh-setprv", "x=%s refused %s", x.str().c_str(), rc(r).c_str()); }
    uint32_t fl = CRYPT_DH_NO_PADZERO; bool np = g.boolean(); if (np) REQUIRE_OK(CRYPT_EAL_PkeyCtrl(a, CRYPT_CTRL_SET_DH_FLAG, &fl, 4), "dh-flag"); dup(g, a);
    // peer value
    N y; int kind = (int)g.weighted({6, 1, 1}); bool member = true; N t;
    if (kind == 0) { N z = scalar(g, q); if (gi >= 3) z = z >> std::max(0, z.bits() - 300); if (z.zero()) z = N(1); y = gg.pow(z, p); if (y == N(1)) member = false; if (g.chance(1, 4) && gi < 3 && !withQ) { /* aim at a short shared secret: y = s^(1/x) */ N xi = x.inv(q); if (!xi.zero()) { N s = N(g.bytes(bytes - 1 - g.draw(3))); s = s * s % p; if (s.bits() > 8 * (int)bytes - 8) s = N(4); y = s.pow(xi, p); } } }
    else if (kind == 1) y = g.pick({N(0), N(1), p - N(1), p, p + N(1), p - N(2), N(2), p + gg}); else y = N(g.bytes(bytes)) % p;
    bool range = !(y.zero() || y == N(1) || y >= p - N(1)); if (range) member = y.pow(q, p) == N(1);
    Bytes yb = y.bin(y.zero() ? 1 : -1); if (g.chance(1, 5)) yb.insert(yb.begin(), 0); r = setPub(b, CRYPT_PKEY_DH, yb); if (r) { CHECK(!range || !member || yb.size() > 1024, "dh-setpub", "valid public value refused: %s", rc(r).c_str()); return; }
    Exact o(bytes); uint32_t ol = (uint32_t)bytes; r = CRYPT_EAL_PkeyComputeShareKey(a, b, o.p, &ol);
    if (!range) CHECK(r, "dh-pub-range", "%s: public value %s accepted", G_.nm, y.str().c_str());
    else if (r) CHECK(!member, "dh-share", "%s x=%s y=%s: share %s", G_.nm, x.str().c_str(), y.str().c_str(), rc(r).c_str());
    else { N s = y.pow(x, p); CHECK(!withQ || member, "dh-subgroup", "public value outside the order-q subgroup accepted"); Bytes want = s.bin(np ? -1 : (int)bytes); CHECK(ol == want.size() && Bytes(o.p, o.p + ol) == want, "dh-value", "%s x=%s y=%s: secret %s, expected %s", G_.nm, x.str().c_str(), y.str().c_str(), hex(o.p, ol).c_str(), hex(want).c_str()); if (s.bits() <= 8 * (int)bytes - 8) g.label("leading-zero"); }
    g.nontrivial(); g.label(!range ? "out-of-range" : member ? "member" : "non-member");
}
static std::vector<N> &primes() { static std::vector<N> v; if (v.empty()) for (auto s : PRIMES) v.push_back(hx(s)); return v; }
PBT_TEST(paillier, 500, 10000)
{
    seedRand(g); setScript({}); size_t i = g.draw(5), j = 6 + g.draw(4); if (g.chance(1, 2)) { i = g.draw(1); j = 2; } N p = primes()[i], q = primes()[j], n = p * q, n2 = n * n, one(1), p1 = p - one, q1 = q - one; N gcd; BN_gcd(gcd.b, p1.b, q1.b, bc()); N lam; BN_div(lam.b, nullptr, (p1 * q1).b, gcd.b, bc()); N gg = n + one, mu = lam.inv(n); N l1 = gg.pow(lam, n2) - one, L; BN_div(L.b, nullptr, l1.b, n.b, bc()); mu = L.inv(n);
    PkeyCtx c(nk(g, CRYPT_PKEY_PAILLIER)); Exact nb(n.bin()), n2b(n2.bin()), gb(gg.bin()), lb(lam.bin()), ub(mu.bin()); CRYPT_EAL_PkeyPub pu = {}; pu.id = CRYPT_PKEY_PAILLIER; pu.key.paillierPub = {nb.p, gb.p, n2b.p, (uint32_t)nb.n, (uint32_t)gb.n, (uint32_t)n2b.n}; CRYPT_EAL_PkeyPrv pv = {}; pv.id = CRYPT_PKEY_PAILLIER; pv.key.paillierPrv = {nb.p, lb.p, ub.p, n2b.p, (uint32_t)nb.n, (uint32_t)lb.n, (uint32_t)ub.n, (uint32_t)n2b.n};
    int32_t r = CRYPT_EAL_PkeySetPub(c, &pu); CHECK(!r, "pail-setpub", "SetPub %s", rc(r).c_str()); r = CRYPT_EAL_PkeySetPrv(c, &pv); CHECK(!r, "pail-setprv", "SetPrv %s", rc(r).c_str()); dup(g, c);
    const size_t cl = 2 * nb.n; auto val = [&] { return g.chance(1, 3) ? g.pick({N(0), N(1), n - N(1), n - N(2), n >> 1}) : N(g.bytes(1 + g.draw(n.bin().size() - 1))) % n; };
    auto enc = [&](const N &m) { Bytes mb = m.zero() ? Bytes{0} : m.bin(); Exact in(mb), o(cl); uint32_t ol = (uint32_t)o.n; int32_t r = CRYPT_EAL_PkeyEncrypt(c, in.p, (uint32_t)in.n, o.p, &ol); CHECK(!r, "pail-enc", "encrypt %s: %s", m.str().c_str(), rc(r).c_str()); CHECK(ol == cl, "pail-len", "ciphertext of %u bytes cannot be decrypted", ol); N ct(Bytes(o.p, o.p + ol)); N t = ct.pow(lam, n2) - one, l; BN_div(l.b, nullptr, t.b, n.b, bc()); CHECK(l * mu % n == m, "pail-enc-value", "model decrypts another plaintext for %s", m.str().c_str()); return ct; };
    auto dec = [&](const N &ct) { Exact in(ct.bin((int)cl)), o(cl); uint32_t ol = (uint32_t)o.n; int32_t r = CRYPT_EAL_PkeyDecrypt(c, in.p, (uint32_t)in.n, o.p, &ol); CHECK(!r, "pail-dec", "decrypt %s (ciphertext %zu bytes of %zu)", rc(r).c_str(), in.n, cl); return N(Bytes(o.p, o.p + ol)); };
    N m1 = val(), m2 = val(); N c1 = enc(m1); N d = dec(c1); CHECK(d == m1, "pail-roundtrip", "decrypts to %s not %s", d.str().c_str(), m1.str().c_str()); N rr = scalar(g, n); BN_gcd(gcd.b, rr.b, n.b, bc()); if (gcd == one) { N c2 = gg.pow(m2, n2) * rr.pow(n, n2) % n2; d = dec(c2); CHECK(d == m2, "pail-dec-value", "model ciphertext decrypts to %s not %s", d.str().c_str(), m2.str().c_str());
        Exact a(c1.bin((int)cl)), b(c2.bin((int)cl)); BSL_Param ps[3] = {{CRYPT_PARAM_PKEY_HE_CIPHERTEXT1, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)a.n, 0}, {CRYPT_PARAM_PKEY_HE_CIPHERTEXT2, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)b.n, 0}, BSL_PARAM_END}; Exact o(cl); uint32_t ol = (uint32_t)o.n; r = CRYPT_EAL_PkeyHEAdd(c, ps, o.p, &ol); CHECK(!r, "pail-add", "HEAdd %s", rc(r).c_str()); N s = N(Bytes(o.p, o.p + ol)); CHECK(s == c1 * c2 % n2, "pail-add-value", "sum ciphertext is not the product"); d = dec(s); CHECK(d == (m1 + m2) % n, "pail-add-dec", "sum decrypts to %s", d.str().c_str()); }
    if (g.chance(1, 4)) { N big = g.boolean() ? n : n + N(g.draw(100)); Exact in(big.bin()), o(cl); uint32_t ol = (uint32_t)o.n; CHECK(CRYPT_EAL_PkeyEncrypt(c, in.p, (uint32_t)in.n, o.p, &ol), "pail-range", "plaintext >= n accepted"); }
    g.nontrivial();
}
PBT_TEST(elgamal, 500, 10000)
{
    seedRand(g); setScript({}); N p, q, gg; if (g.boolean()) { const Dsa &d = dsaP(g.draw(1)); p = d.p; q = d.q; gg = d.g; } else { Grp &G_ = grps()[g.draw(1)]; p = G_.p; q = (p - N(1)) >> 1; gg = N(4); } N x = scalar(g, q), y = gg.pow(x, p); int k = (p.bits() + 7) / 8; PkeyCtx c(nk(g, CRYPT_PKEY_ELGAMAL)); Exact pb(p.bin()), qb(q.bin()), gb(gg.bin()), xb(x.bin()), yb(y.bin());
    CRYPT_EAL_PkeyPub pu = {}; pu.id = CRYPT_PKEY_ELGAMAL; pu.key.elgamalPub = {pb.p, gb.p, yb.p, qb.p, (uint32_t)pb.n, (uint32_t)gb.n, (uint32_t)yb.n, (uint32_t)qb.n}; CRYPT_EAL_PkeyPrv pv = {}; pv.id = CRYPT_PKEY_ELGAMAL; pv.key.elgamalPrv = {pb.p, gb.p, xb.p, (uint32_t)pb.n, (uint32_t)gb.n, (uint32_t)xb.n};
    int32_t r = CRYPT_EAL_PkeySetPub(c, &pu); CHECK(!r, "elg-setpub", "SetPub %s", rc(r).c_str()); r = CRYPT_EAL_PkeySetPrv(c, &pv); CHECK(!r, "elg-setprv", "SetPrv %s", rc(r).c_str()); dup(g, c);
    N m = g.chance(1, 3) ? g.pick({N(1), N(2), p - N(1), p - N(2), p >> 1}) : N(g.bytes(1 + g.draw(k - 1))) % p; if (m.zero()) m = N(1); Exact in(m.bin()), o((size_t)2 * k), d((size_t)k); uint32_t ol = 2 * k, dl = k; r = CRYPT_EAL_PkeyEncrypt(c, in.p, (uint32_t)in.n, o.p, &ol); CHECK(!r && ol == 2u * k, "elg-enc", "encrypt %s", rc(r).c_str()); N c1(Bytes(o.p, o.p + k)), c2(Bytes(o.p + k, o.p + 2 * k)); CHECK(c2 * c1.pow(x, p).inv(p) % p == m, "elg-enc-value", "model decrypts another plaintext");
    r = CRYPT_EAL_PkeyDecrypt(c, o.p, ol, d.p, &dl); CHECK(!r && N(Bytes(d.p, d.p + dl)) == m, "elg-roundtrip", "decrypt %s -> %s, plaintext %s", rc(r).c_str(), hex(d.p, dl).c_str(), m.str().c_str());
    N e = scalar(g, q), f1 = gg.pow(e, p), f2 = m * y.pow(e, p) % p; Exact ct(cat(f1.bin(k), f2.bin(k))); dl = k; r = CRYPT_EAL_PkeyDecrypt(c, ct.p, (uint32_t)ct.n, d.p, &dl); CHECK(!r && N(Bytes(d.p, d.p + dl)) == m, "elg-dec-value", "model ciphertext: %s", rc(r).c_str()); g.nontrivial();
}
