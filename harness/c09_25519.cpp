#include "oec.hpp"
using namespace oec;
const char *pbt::PROPERTY_RULE =
    "x25519: any 32-byte scalar / u (random, sparse, near 0, p, 2^255, with top bit, low order) through SetPrv/SetPub, DupCtx, context reuse; result compared with OpenSSL, all-zero secret refused. "
    "ed_sign: any seed and message; public key and signature bit-compared with OpenSSL. ed_verify: own BIGNUM Edwards model; honest signatures, bit flips in R, S, A, message, S+kL, wrong length, "
    "crafted points (small order, non-canonical, mixed order): cofactorless-valid canonical input must be accepted, cofactored-invalid must be rejected, S>=L always rejected. Non-trivial: reference evaluated.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 X25519/Ed25519 and BIGNUM are correct", "SHA-512 is correct (C01)"};
void pbt::setup() { useScrRand(); }
static CRYPT_EAL_PkeyCtx *newKey(G &g, CRYPT_PKEY_AlgId a) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(a) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, a, 0, "provider=default"); CHECK(k, "new", "no context"); return k; }
static int32_t setPrv(CRYPT_EAL_PkeyCtx *k, const Bytes &d) { Exact e(d); CRYPT_EAL_PkeyPrv p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.curve25519Prv.data = e.p; p.key.curve25519Prv.len = (uint32_t)e.n; return CRYPT_EAL_PkeySetPrv(k, &p); }
static int32_t setPub(CRYPT_EAL_PkeyCtx *k, const Bytes &d) { Exact e(d); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.curve25519Pub.data = e.p; p.key.curve25519Pub.len = (uint32_t)e.n; return CRYPT_EAL_PkeySetPub(k, &p); }
static int32_t getPub(CRYPT_EAL_PkeyCtx *k, Bytes &o) { Exact e((size_t)32); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_EAL_PkeyGetId(k); p.key.curve25519Pub.data = e.p; p.key.curve25519Pub.len = 32; int32_t r = CRYPT_EAL_PkeyGetPub(k, &p); o = e.vec(); return r; }
static Bytes le(const N &v, int n = 32) { Bytes b = v.bin(n); std::reverse(b.begin(), b.end()); return b; }
static N fromLe(Bytes b) { std::reverse(b.begin(), b.end()); return N(b); }
static N P() { static N p = (N(1) << 255) - N(19); return p; }
static N L() { static N l = [] { N r; BIGNUM *b = nullptr; BN_hex2bn(&b, "14def9dea2f79cd65812631a5cf5d3ed"); r = N((const BIGNUM *)b) + (N(1) << 252); BN_free(b); return r; }(); return l; }
static Bytes anyU(G &g)
{
    switch (g.weighted({4, 2, 2, 2, 1})) {
        case 0: return g.bytes(32);
        case 1: { N v = g.boolean() ? N(g.draw(40)) : P() + N(g.draw(38)) - N(19); if (g.boolean()) v = v + (N(1) << 255); return le(v % (N(1) << 256)); }
        case 2: { static const char *LOW[] = {"0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
            "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880", "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7", "d9ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "daffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "dbffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"};
            const char *s = g.pick(LOW); Bytes b(32); for (int i = 0; i < 32; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = v; } if (g.boolean()) b[31] ^= 0x80; return b; }
        case 3: { Bytes b = g.bytes(32); size_t st = g.draw(31), ln = 1 + g.draw(31); uint8_t v = g.boolean() ? 0 : 0xff; for (size_t i = st; i < 32 && i < st + ln; i++) b[i] = v; return b; }
        default: { N k(1); k = k << (int)g.draw(255); return le(g.boolean() ? k : k - N(1)); }
    }
}
static bool osX(const Bytes &d, const Bytes &u, Bytes &out)
{
    OsslKey k(EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, d.data(), 32)), p(EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32)); OsslPkeyCtx c(EVP_PKEY_CTX_new(k, nullptr));
    out.assign(32, 0); size_t l = 32; ERR_set_mark(); bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, p) == 1 && EVP_PKEY_derive(c, out.data(), &l) == 1; ERR_pop_to_mark(); return ok;
}
PBT_TEST(x25519, 30000, 1500000)
{
    seedRand(g); setScript({}); PkeyCtx k(newKey(g, CRYPT_PKEY_X25519)), q(newKey(g, CRYPT_PKEY_X25519)); int rounds = 1 + (int)g.draw(1);
    for (int i = 0; i < rounds; i++) {
        Bytes d = anyU(g), u = anyU(g);
        if (g.chance(1, 10)) { Bytes b = d; if (g.boolean()) b.push_back(0); else b.pop_back(); CHECK(setPrv(k, b) && setPub(q, b), "x-len", "key of %zu bytes accepted", b.size()); }
        REQUIRE_OK(setPrv(k, d), "x-setprv"); 
        if (i == 0 && g.chance(1, 2)) { REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_GEN_X25519_PUBLICKEY, nullptr, 0), "x-genpub"); Bytes pub; REQUIRE_OK(getPub(k, pub), "x-getpub"); OsslKey ok(EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, d.data(), 32)); Bytes w(32); size_t l = 32; EVP_PKEY_get_raw_public_key(ok, w.data(), &l);
            CHECK(pub == w, "x-pub", "scalar %s: public %s expected %s", hex(d).c_str(), hex(pub).c_str(), hex(w).c_str()); }
        REQUIRE_OK(setPub(q, u), "x-setpub"); if (g.chance(1, 5)) { CRYPT_EAL_PkeyCtx *dd = CRYPT_EAL_PkeyDupCtx(k); CHECK(dd, "dup", "dup"); k.reset(dd); }
        Bytes want; bool ok = osX(d, u, want); Exact o((size_t)32 + (g.chance(1, 6) ? 5 : 0)); uint32_t ol = (uint32_t)o.n; int32_t r = CRYPT_EAL_PkeyComputeShareKey(k, q, o.p, &ol);
        CHECK((r == 0) == ok, ok ? "x-refused" : "x-zero-accepted", "scalar %s u %s: %s, reference %s", hex(d).c_str(), hex(u).c_str(), rc(r).c_str(), ok ? "accepts" : "refuses");
        if (ok) CHECK(ol == 32 && Bytes(o.p, o.p + 32) == want, "x-value", "scalar %s u %s: %s expected %s", hex(d).c_str(), hex(u).c_str(), hex(o.p, 32).c_str(), hex(want).c_str());
        g.nontrivial(); g.label(ok ? "secret" : "zero-refused"); g.note("d=%s u=%s", hex(d).c_str(), hex(u).c_str());
    }
}
static Bytes osSign(const Bytes &seed, const Bytes &m, Bytes &pub) { OsslKey k(EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32)); OsslMdCtx c(EVP_MD_CTX_new()); EVP_DigestSignInit(c, nullptr, nullptr, nullptr, k); Bytes s(64); size_t l = 64; if (EVP_DigestSign(c, s.data(), &l, m.data(), m.size()) != 1) abort(); pub.assign(32, 0); l = 32; EVP_PKEY_get_raw_public_key(k, pub.data(), &l); return s; }
PBT_TEST(ed_sign, 8000, 400000)
{
    seedRand(g); setScript({}); PkeyCtx k(newKey(g, CRYPT_PKEY_ED25519)); int rounds = 1 + (int)g.draw(1); Bytes seed = g.bytes(32);
    bool gen = g.chance(1, 3); if (gen) { setScript(seed); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "ed-gen"); } else REQUIRE_OK(setPrv(k, seed), "ed-setprv");
    for (int i = 0; i < rounds; i++) {
        Bytes m = g.bytes(g.len(0, 400)), pub, want = osSign(seed, m, pub); Exact mb(m), s((size_t)64); uint32_t sl = 64; int32_t r = CRYPT_EAL_PkeySign(k, CRYPT_MD_SHA512, mb.p, (uint32_t)mb.n, s.p, &sl);
        CHECK(!r && sl == 64, "ed-sign", "sign failed %s", rc(r).c_str()); CHECK(s.vec() == want, "ed-sig", "seed %s message %s: signature %s expected %s", hex(seed).c_str(), hex(m, 420).c_str(), hex(s.vec()).c_str(), hex(want).c_str());
        if (g.boolean()) { Bytes p; REQUIRE_OK(getPub(k, p), "ed-getpub"); CHECK(p == pub, "ed-pub", "seed %s: public %s expected %s", hex(seed).c_str(), hex(p).c_str(), hex(pub).c_str()); }
        r = CRYPT_EAL_PkeyVerify(k, CRYPT_MD_SHA512, mb.p, (uint32_t)mb.n, s.p, 64); CHECK(!r, "ed-selfverify", "own signature refused %s", rc(r).c_str()); g.nontrivial();
        if (g.chance(1, 5)) { CRYPT_EAL_PkeyCtx *dd = CRYPT_EAL_PkeyDupCtx(k); CHECK(dd, "dup", "dup"); k.reset(dd); }
    }
}
// ---- Edwards model (affine via inversions avoided: extended projective over BIGNUM)
struct E { N X, Y, Z, T; };
static N dConst() { static N d = ((P() - N(121665)) * N(121666).inv(P())) % P(); return d; }
static E eadd(const E &a, const E &b) { const N p = P(); N A = (a.Y - a.X) * (b.Y - b.X) % p, B = (a.Y + a.X) * (b.Y + b.X) % p, C = a.T * b.T % p * N(2) % p * dConst() % p, D = a.Z * b.Z % p * N(2) % p, e = B - A, f = D - C, gg = D + C, h = B + A; return {e * f % p, gg * h % p, f * gg % p, e * h % p}; }
static E eid() { return {N(0), N(1), N(1), N(0)}; }
static E emul(const E &a, const N &k) { E r = eid(); for (int i = k.bits() - 1; i >= 0; i--) { r = eadd(r, r); if (BN_is_bit_set(k.b, i)) r = eadd(r, a); } return r; }
static bool eeq(const E &a, const E &b) { return (a.X * b.Z - b.X * a.Z) % P() == N(0) && (a.Y * b.Z - b.Y * a.Z) % P() == N(0); }
static bool eid0(const E &a) { return eeq(a, eid()); }
static Bytes eenc(const E &a) { N zi = a.Z.inv(P()), x = a.X * zi % P(), y = a.Y * zi % P(); Bytes b = le(y); if (BN_is_odd(x.b)) b[31] |= 0x80; return b; }
static bool edec(Bytes b, E &o, bool &canon)
{
    int sg = b[31] >> 7; b[31] &= 0x7f; N y = fromLe(b); canon = y < P(); y = y % P(); const N p = P(); N u = (y * y - N(1)) % p, v = (dConst() * y % p * y + N(1)) % p; N x2 = u * v.inv(p) % p; N x;
    if (x2.zero()) { if (sg) canon = false; x = N(0); } else { ERR_set_mark(); bool ok = BN_mod_sqrt(x.b, x2.b, p.b, bc()) != nullptr; ERR_pop_to_mark(); if (!ok || x * x % p != x2) return false; if (BN_is_odd(x.b) != sg) x = p - x; }
    o = {x, y, N(1), x * y % p}; return true;
}
static E base() { static E b = [] { Bytes e(32, 0x66); e[0] = 0x58; E o; bool c; if (!edec(e, o, c)) abort(); return o; }(); return b; }
static E torsion(G &g) { static E t8 = [] { for (int i = 2;; i++) { E o; bool c; if (!edec(le(N(i)), o, c)) continue; E t = emul(o, L()); E t4 = emul(t, N(4)); if (!eid0(t4)) return t; } }(); return emul(t8, N((int)g.draw(7))); }
PBT_TEST(ed_verify, 3000, 100000)
{
    Bytes seed = g.bytes(32), m = g.bytes(g.len(0, 100)), pub, sig = osSign(seed, m, pub); int how = (int)g.weighted({2, 3, 2, 3, 1, 1, 1});
    if (how == 1) { size_t p = g.draw(sig.size() * 8 - 1); sig[p / 8] ^= 1 << (p % 8); }
    else if (how == 2) { bool low = g.boolean(); if (low) { for (int t = 0; t < 150 && sig[63]; t++) { m.resize(std::max<size_t>(m.size(), 1)); m[0]++; sig = osSign(seed, m, pub); } g.label("low-S"); } N s = fromLe(Bytes(sig.begin() + 32, sig.end())); N add = L() * N(low ? 1 : (int)g.range(1, 14)); s = s + add; Bytes sb = le(s); std::copy(sb.begin(), sb.end(), sig.begin() + 32); g.label("S+kL"); }
    else if (how == 3) {  // crafted: A = aB + T1, R = rB + T2, S = r + k a (or boundary S)
        N a = scalar(g, L()), r = scalar(g, L()); E A = eadd(emul(base(), a), torsion(g)), R = eadd(emul(base(), r), torsion(g)); if (g.chance(1, 4)) { A = torsion(g); a = N(0); }
        pub = eenc(A); Bytes Re = eenc(R); if (g.chance(1, 6)) { N y = fromLe(pub); if (y < N(19)) pub = le(y + P()); }
        Bytes kh = osslMd("SHA512", cat(cat(Re, pub), m)); N kk = fromLe(kh) % L(); N S = (r + kk * a) % L(); if (g.chance(1, 8)) S = g.pick({N(0), L() - N(1), L(), L() + N(1), (N(1) << 253), (N(1) << 255), (N(1) << 256) - N(1)}); sig = cat(Re, le(S)); g.label("crafted"); }
    else if (how == 4) { size_t p = g.draw(255); pub[p / 8] ^= 1 << (p % 8); }
    else if (how == 5) { if (m.empty()) m.push_back(1); else { size_t p = g.draw(m.size() * 8 - 1); m[p / 8] ^= 1 << (p % 8); } }
    else if (how == 6) { if (g.boolean()) sig.push_back(0); else sig.resize(g.draw(63)); }
    // verdict of the model
    bool must = false, mustNot = false; E A, R; bool ca = false, cr = false; bool da = edec(pub, A, ca);
    if (sig.size() != 64 || !da) mustNot = true;
    else {
        bool dr = edec(Bytes(sig.begin(), sig.begin() + 32), R, cr); N S = fromLe(Bytes(sig.begin() + 32, sig.end())); if (S >= L() || !dr) mustNot = true;
        else {
            N kk = fromLe(osslMd("SHA512", cat(cat(Bytes(sig.begin(), sig.begin() + 32), pub), m))) % L(); E lhs = emul(base(), S), rhs = eadd(R, emul(A, kk)); bool eq = eeq(lhs, rhs), eq8 = eq || eeq(emul(lhs, N(8)), emul(rhs, N(8)));
            bool smallA = eid0(emul(A, N(8))); must = eq && ca && cr && !smallA; mustNot = !eq8;
        }
    }
    PkeyCtx k(newKey(g, CRYPT_PKEY_ED25519)); REQUIRE_OK(setPub(k, pub), "ed-setpub"); Exact mb(m), sb(sig); int32_t r = CRYPT_EAL_PkeyVerify(k, CRYPT_MD_SHA512, mb.p, (uint32_t)mb.n, sb.p, (uint32_t)sb.n);
    CHECK(!(must && r), "ed-refused", "how=%d pub=%s m=%s sig=%s refused %s", how, hex(pub).c_str(), hex(m).c_str(), hex(sig).c_str(), rc(r).c_str());
    CHECK(!(mustNot && !r), "ed-accepted", "how=%d pub=%s m=%s sig=%s accepted", how, hex(pub).c_str(), hex(m).c_str(), hex(sig).c_str());
    if (must || mustNot) g.nontrivial(); g.label(must ? "valid" : mustNot ? "invalid" : "either"); g.note("how=%d %s", how, must ? "valid" : mustNot ? "invalid" : "either");
}
