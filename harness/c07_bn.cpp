#include "vh.hpp"
#include <gmp.h>
extern "C" {
#include "crypt_bn.h"
}
const char *pbt::PROPERTY_RULE =
    "pool: a random program of big-number operations over a pool of 4 numbers (operands and destinations chosen at random, so outputs alias inputs and storage is reused at different sizes), values "
    "boundary-biased in bits (word edges, all-ones, sparse, near-powers) and signs, up to ~1500 bits with occasional 9000-bit operands; every result is compared with GMP and every untouched number must be unchanged. "
    "modular: modular arithmetic/Montgomery/inverse/sqrt/prime tests with moduli odd/even/one/negative. conv: binary/hex/decimal conversions incl. malformed text. "
    "Non-trivial: at least one result of more than one word compared (pool), modulus > 1 (modular), or a non-empty text (conv).";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"GMP is correct", "internal preconditions of the *Quick helpers (reduced operands) are respected by the generator"};
void pbt::setup() { useDetRand(); }
struct Z { mpz_t v; Z() { mpz_init(v); } ~Z() { mpz_clear(v); } Z(const Z &) = delete; Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; } };
typedef Own<BN_BigNum, BN_Destroy> Bn;
struct Opt { BN_Optimizer *o; Opt() : o(BN_OptimizerCreate()) {} ~Opt() { BN_OptimizerDestroy(o); } };
static void genZ(G &g, Z &z, size_t maxBits, bool neg = true)
{
    size_t bits = g.weighted({6, 3, 1}) == 0 ? g.len(0, std::min<size_t>(maxBits, 400)) : g.len(0, maxBits);
    Bytes b((bits + 7) / 8);
    switch (g.draw(6)) {
    case 0: case 1: b = g.bytes(b.size()); break;
    case 2: std::fill(b.begin(), b.end(), 0xff); break;
    case 3: if (!b.empty()) b[0] = 1u << ((bits + 7) % 8); break;                       // power of two
    case 4: { b = g.bytes(b.size()); size_t w = 8 + g.draw(8); for (size_t i = 0; i < b.size(); i++) if ((i / w) % 2) b[i] = 0xff; break; }  // runs of ones
    case 5: { b = g.bytes(b.size()); size_t w = 8 * (1 + g.draw(2)); for (size_t i = 0; i < b.size(); i++) if ((i / w) % 2) b[i] = 0; break; }       // zero words
    default: for (size_t i = 0; i < b.size(); i += 8 ) b[i] = (uint8_t)g.draw(255); break;
    }
    mpz_import(z.v, b.size(), 1, 1, 0, 0, b.data());
    if (bits) { mpz_fdiv_r_2exp(z.v, z.v, bits); }
    uint64_t d = g.draw(8); if (d == 1) mpz_add_ui(z.v, z.v, 1); else if (d == 2 && mpz_sgn(z.v)) mpz_sub_ui(z.v, z.v, 1);
    if (neg && g.chance(1, 3)) mpz_neg(z.v, z.v);
}
static Bytes zbin(const Z &z) { Bytes b((mpz_sizeinbase(z.v, 2) + 7) / 8); size_t n = 0; mpz_export(b.data(), &n, 1, 1, 0, 0, z.v); b.resize(n); return b; }
static void toBn(BN_BigNum *b, const Z &z) { Bytes x = zbin(z); if (x.empty()) x.push_back(0); Exact e(x); int32_t r = BN_Bin2Bn(b, e.p, (uint32_t)e.n); CHECK(!r, "bn-bin2bn", "Bin2Bn of %zu bytes failed %s", x.size(), rc(r).c_str()); if (mpz_sgn(z.v) < 0) CHECK(!BN_SetSign(b, true), "bn-setsign", "SetSign"); }
static std::string zs(const mpz_t v) { char *s = mpz_get_str(nullptr, 16, v); std::string r = s; void (*f)(void *, size_t); mp_get_memory_functions(nullptr, nullptr, &f); f(s, strlen(s) + 1); if (r.size() > 200) r = r.substr(0, 200) + "..."; return r; }
static void getBn(const BN_BigNum *b, Z &z)
{
    uint32_t n = BN_Bytes(b); if (n == 0) n = 1; Exact e(n); uint32_t l = n; int32_t r = BN_Bn2Bin(b, e.p, &l); CHECK(!r && l == n, "bn-bn2bin", "Bn2Bin %s len %u/%u", rc(r).c_str(), l, n);
    mpz_import(z.v, n, 1, 1, 0, 0, e.p); bool neg = BN_IsNegative(b); if (neg) { CHECK(mpz_sgn(z.v) != 0, "bn-negzero", "negative zero"); mpz_neg(z.v, z.v); }
}
static void same(const BN_BigNum *b, const Z &z, const char *op, const std::string &h)
{
    Z t; getBn(b, t); CHECK(mpz_cmp(t.v, z.v) == 0, std::string("bn-") + op, "%s: got %s expected %s", h.c_str(), zs(t.v).c_str(), zs(z.v).c_str());
    uint32_t bits = mpz_sgn(z.v) ? (uint32_t)mpz_sizeinbase(z.v, 2) : 0;
    CHECK(BN_Bits(b) == bits && BN_IsZero(b) == (bits == 0) && BN_IsOdd(b) == (mpz_odd_p(z.v) != 0) && BN_IsOne(b) == (mpz_cmp_ui(z.v, 1) == 0), "bn-predicates", "%s: bits %u/%u", h.c_str(), BN_Bits(b), bits);
}
static void modPos(mpz_t r, const mpz_t a, const mpz_t m) { Z k; mpz_abs(k.v, m); mpz_mod(r, a, k.v); }
static std::string zlog(const Z &z) { return zs(z.v); }
PBT_TEST(pool, 500000, 3000000)
{
    const int N = 4; Bn b[N]; Z z[N]; Opt opt; std::string h;
    size_t mb = g.chance(1, 40) ? 9000 : g.chance(1, 8) ? 1500 : 420;
    for (int i = 0; i < N; i++) { b[i].reset(BN_Create((uint32_t)g.draw(300))); CHECK(b[i], "bn-create", "create"); genZ(g, z[i], mb); toBn(b[i], z[i]); if (g.chance(1, 10)) BN_SetFlag(b[i], CRYPT_BN_FLAG_CONSTTIME); h += sfmt("%c=", 'a' + i) + zlog(z[i]) + " "; }
    int steps = 1 + (int)g.draw(7);
    for (int s = 0; s < steps; s++) {
        int R = (int)g.draw(N - 1), A = (int)g.draw(N - 1), B = (int)g.draw(N - 1); Z w; int32_t r = 0; const char *op = ""; bool expectFail = false, bigger = mpz_sizeinbase(z[A].v, 2) + mpz_sizeinbase(z[B].v, 2) > 20000;
        uint64_t limb = g.u64(); uint32_t n = (uint32_t)(g.weighted({3, 1}) == 0 ? g.draw(200) : g.len(0, 700));
        Z lz; mpz_set_ui(lz.v, limb);
        switch (g.draw(21)) {
        case 0: op = "add"; r = BN_Add(b[R], b[A], b[B]); mpz_add(w.v, z[A].v, z[B].v); break;
        case 1: op = "sub"; r = BN_Sub(b[R], b[A], b[B]); mpz_sub(w.v, z[A].v, z[B].v); break;
        case 2: case 3: if (bigger) continue; op = "mul"; r = BN_Mul(b[R], b[A], b[B], opt.o); mpz_mul(w.v, z[A].v, z[B].v); break;
        case 4: if (bigger) continue; op = "sqr"; r = BN_Sqr(b[R], b[A], opt.o); mpz_mul(w.v, z[A].v, z[A].v); break;
        case 5: case 6: case 7: { op = "div"; int Q = (R + 1 + (int)g.draw(N - 2)) % N; int mode = (int)g.draw(2); expectFail = mpz_sgn(z[B].v) == 0; Z q;
            h += sfmt("| %c,%c=div(%c,%c) mode%d ", 'a' + Q, 'a' + R, 'a' + A, 'a' + B, mode);
            r = BN_Div(mode == 1 ? nullptr : b[Q].p, mode == 2 ? nullptr : b[R].p, b[A], b[B], opt.o);
            if (expectFail) { CHECK(r, "bn-div0", "%s: division by zero succeeded", h.c_str()); continue; }
            CHECK(!r, "bn-div-rc", "%s: failed %s", h.c_str(), rc(r).c_str()); mpz_tdiv_qr(q.v, w.v, z[A].v, z[B].v);
            if (mode != 1) { z[Q] = q; } if (mode != 2) { z[R] = w; } if (mode != 1) same(b[Q], z[Q], "div-q", h); if (mode != 2) same(b[R], z[R], "div-r", h); continue; }
        case 8: { op = "mod"; expectFail = mpz_sgn(z[B].v) == 0; r = BN_Mod(b[R], b[A], b[B], opt.o); if (!expectFail) modPos(w.v, z[A].v, z[B].v); break; }
        case 9: op = "lshift"; r = BN_Lshift(b[R], b[A], n); mpz_mul_2exp(w.v, z[A].v, n); break;
        case 10: op = "rshift"; r = BN_Rshift(b[R], b[A], n); mpz_tdiv_q_2exp(w.v, z[A].v, n); break;
        case 11: op = "addlimb"; r = BN_AddLimb(b[R], b[A], limb); mpz_add(w.v, z[A].v, lz.v); break;
        case 12: op = "sublimb"; r = BN_SubLimb(b[R], b[A], limb); mpz_sub(w.v, z[A].v, lz.v); break;
        case 13: op = "mullimb"; r = BN_MulLimb(b[R], b[A], limb); mpz_mul(w.v, z[A].v, lz.v); break;
        case 14: { op = "divlimb"; BN_UINT rem = 0; r = BN_DivLimb(g.boolean() ? b[R].p : nullptr, &rem, b[A], limb); expectFail = limb == 0; h += sfmt("| divlimb(%c->%c,%llx) ", 'a' + A, 'a' + R, (unsigned long long)limb); if (expectFail) { CHECK(r, "bn-div0", "%s: division by zero succeeded", h.c_str()); continue; }
            CHECK(!r, "bn-divlimb-rc", "%s failed", h.c_str()); Z rr; mpz_tdiv_qr(w.v, rr.v, z[A].v, lz.v); mpz_abs(rr.v, rr.v); CHECK(mpz_cmp_ui(rr.v, rem) == 0, "bn-divlimb-r", "%s: remainder %llx expected %s", h.c_str(), (unsigned long long)rem, zs(rr.v).c_str());
            Z got; getBn(b[R], got); if (mpz_cmp(got.v, z[R].v) != 0) { CHECK(mpz_cmp(got.v, w.v) == 0, "bn-divlimb-q", "%s: quotient %s expected %s", h.c_str(), zs(got.v).c_str(), zs(w.v).c_str()); z[R] = w; } continue; }
        case 15: { BN_UINT rem = 0; r = BN_ModLimb(&rem, b[A], limb); h += sfmt("| modlimb(%c,%llx) ", 'a' + A, (unsigned long long)limb); if (!limb) { CHECK(r, "bn-div0", "%s ok", h.c_str()); continue; } CHECK(!r, "bn-modlimb-rc", "%s", h.c_str()); mpz_mod(w.v, z[A].v, lz.v); CHECK(mpz_cmp_ui(w.v, rem) == 0, "bn-modlimb", "%s: %llx expected %s", h.c_str(), (unsigned long long)rem, zs(w.v).c_str()); continue; }
        case 16: { h += sfmt("| bit%u(%c) ", n, 'a' + R); CHECK(BN_GetBit(b[R], n) == (mpz_sgn(z[R].v) < 0 ? ({ Z t; mpz_abs(t.v, z[R].v); mpz_tstbit(t.v, n) != 0; }) : mpz_tstbit(z[R].v, n) != 0), "bn-getbit", "%s", h.c_str());
            bool neg = mpz_sgn(z[R].v) < 0; mpz_abs(w.v, z[R].v); int k = (int)g.draw(2);
            if (k == 0) { r = BN_SetBit(b[R], n); if (r) { op = "setbit-refused"; w = z[R]; r = 0; break; } mpz_setbit(w.v, n); } else if (k == 1) { r = BN_ClrBit(b[R], n); if (r) { w = z[R]; r = 0; op = "clrbit-refused"; break; } mpz_clrbit(w.v, n); } else { r = BN_MaskBit(b[R], n); if (r) { w = z[R]; r = 0; op = "maskbit-refused"; break; } mpz_fdiv_r_2exp(w.v, w.v, n); }
            if (neg) mpz_neg(w.v, w.v); op = k == 0 ? "setbit" : k == 1 ? "clrbit" : "maskbit"; break; }
        case 17: { int c = BN_Cmp(b[A], b[B]), e = mpz_cmp(z[A].v, z[B].v); CHECK((c > 0) == (e > 0) && (c < 0) == (e < 0), "bn-cmp", "%s: cmp(%c,%c)=%d expected %d", h.c_str(), 'a' + A, 'a' + B, c, e); continue; }
        case 18: { expectFail = mpz_sgn(z[A].v) == 0 || mpz_sgn(z[B].v) == 0; bool lcm = g.boolean() && !bigger; op = lcm ? "lcm" : "gcd"; r = lcm ? BN_Lcm(b[R], b[A], b[B], opt.o) : BN_Gcd(b[R], b[A], b[B], opt.o); if (!expectFail) { if (lcm) mpz_lcm(w.v, z[A].v, z[B].v); else mpz_gcd(w.v, z[A].v, z[B].v); } break; }
        case 19: if (g.boolean()) { op = "copy"; r = BN_Copy(b[R], b[A]); w = z[A]; } else { op = "dup"; BN_BigNum *d = BN_Dup(b[A]); CHECK(d, "bn-dup", "dup"); b[R].reset(d); w = z[A]; } break;
        case 20: if (g.boolean()) { op = "setlimb"; r = BN_SetLimb(b[R], limb); mpz_set(w.v, lz.v); CHECK(r || BN_IsLimb(b[R], limb), "bn-islimb", "IsLimb"); } else { op = "zeroize"; r = BN_Zeroize(b[R]); } break;
        default: genZ(g, w, mb); toBn(b[R], w); op = "set"; break;
        }
        h += sfmt("| %c=%s(%c,%c n=%u l=%llx) ", 'a' + R, op, 'a' + A, 'a' + B, n, (unsigned long long)limb);
        if (expectFail) { CHECK(r, "bn-undefined", "%s: undefined operation succeeded", h.c_str()); Z t; getBn(b[R], t); z[R] = t; continue; }
        CHECK(!r, std::string("bn-") + op + "-rc", "%s: failed %s", h.c_str(), rc(r).c_str());
        z[R] = w; same(b[R], w, op, h); if (mpz_size(w.v) > 1) g.nontrivial();
    }
    for (int i = 0; i < N; i++) same(b[i], z[i], "untouched", h);
    g.note("%s", h.substr(0, 400).c_str()); g.key(h);
}
PBT_TEST(modular, 150000, 900000)
{
    Opt opt; seedRand(g); Z a, c, e, m, w; size_t mb = g.chance(1, 30) ? 2200 : g.chance(1, 5) ? 1100 : 330;
    genZ(g, m, mb); if (g.weighted({3, 1}) == 0) mpz_abs(m.v, m.v); if (g.chance(3, 4)) mpz_setbit(m.v, 0);
    genZ(g, a, g.chance(1, 4) ? mb * 2 : mb); genZ(g, c, mb); genZ(g, e, std::min<size_t>(mb, 700));
    if (g.chance(1, 3)) { if (mpz_sgn(m.v)) { modPos(a.v, a.v, m.v); modPos(c.v, c.v, m.v); } }
    Bn A(BN_Create(0)), C(BN_Create(0)), E(BN_Create(0)), M(BN_Create(0)), Rb(BN_Create((uint32_t)g.draw(200))); toBn(A, a); toBn(C, c); toBn(E, e); toBn(M, m);
    if (g.chance(1, 3)) BN_SetFlag(E, CRYPT_BN_FLAG_CONSTTIME);
    BN_BigNum *R = Rb; int alias = (int)g.draw(3); if (alias == 1) R = A; else if (alias == 2) R = C;
    bool mz = mpz_sgn(m.v) == 0; int32_t r; const char *op; bool bad = mz; std::string h = "a=" + zlog(a) + " b=" + zlog(c) + " e=" + zlog(e) + " m=" + zlog(m) + sfmt(" alias%d ", alias);
    int k = (int)g.draw(10);
    switch (k) {
    case 0: op = "modadd"; r = BN_ModAdd(R, A, C, M, opt.o); if (!mz) { mpz_add(w.v, a.v, c.v); modPos(w.v, w.v, m.v); } break;
    case 1: op = "modsub"; r = BN_ModSub(R, A, C, M, opt.o); if (!mz) { mpz_sub(w.v, a.v, c.v); modPos(w.v, w.v, m.v); } break;
    case 2: op = "modmul"; r = BN_ModMul(R, A, C, M, opt.o); if (!mz) { mpz_mul(w.v, a.v, c.v); modPos(w.v, w.v, m.v); } break;
    case 3: op = "modsqr"; r = BN_ModSqr(R, A, M, opt.o); if (!mz) { mpz_mul(w.v, a.v, a.v); modPos(w.v, w.v, m.v); } break;
    case 4: case 5: { op = "modexp"; bad = bad || mpz_sgn(e.v) < 0; if (alias == 2) { R = E; } if (g.chance(1, 12)) { mpz_set_ui(e.v, 0); toBn(E, e); bad = mz; } r = BN_ModExp(R, A, E, M, opt.o); if (!bad) { Z k2; mpz_abs(k2.v, m.v); mpz_powm(w.v, a.v, e.v, k2.v); } break; }
    case 6: { op = "modinv"; Z k2, gg; mpz_abs(k2.v, m.v); mpz_gcd(gg.v, a.v, m.v); bool inv = !mz && mpz_cmp_ui(gg.v, 1) == 0 && mpz_sgn(a.v) != 0; if (mpz_cmp_ui(k2.v, 1) == 0) discard(); bad = !inv; r = BN_ModInv(R, A, M, opt.o); if (inv) mpz_invert(w.v, a.v, k2.v); break; }
    case 7: case 8: {  // Montgomery context, used twice
        bad = !mpz_odd_p(m.v) || mpz_sgn(m.v) <= 0 || mpz_cmp_ui(m.v, 1) == 0; BN_Mont *mt = BN_MontCreate(M); if (!mt) { CHECK(bad, "bn-mont-create", "%s: no Montgomery context", h.c_str()); return; } struct F { BN_Mont *m; ~F() { BN_MontDestroy(m); } } f{mt};
        if (bad || mpz_sgn(a.v) < 0) discard();
        op = k == 7 ? "montexp" : "montexp-ct"; bool ne = mpz_sgn(e.v) < 0; if (k == 8 && mpz_cmp(a.v, m.v) >= 0 && g.boolean()) { mpz_mod(a.v, a.v, m.v); toBn(A, a); }
        if (alias == 2) R = E; r = k == 7 ? BN_MontExp(R, A, E, mt, opt.o) : BN_MontExpConsttime(R, A, E, mt, opt.o); bad = ne; if (!ne) mpz_powm(w.v, a.v, e.v, m.v);
        if (!ne && !r && alias == 0) { same(R, w, op, h); if (mpz_sgn(c.v) > 0 && mpz_sgn(a.v) > 0 && !mpz_divisible_p(c.v, m.v)) { Z e2, w2; mpz_abs(e2.v, c.v); Bn E2(BN_Create(0)); toBn(E2, e2); Z c2; mpz_mod(c2.v, c.v, m.v); Bn C2(BN_Create(0)); toBn(C2, c2); Bn S(BN_Create(0)); int32_t q = BN_MontExpMul(S, A, E, C2, E2, mt, opt.o); if (mpz_cmp(a.v, m.v) < 0) { CHECK(!q, "bn-montexpmul-rc", "%s: %s", h.c_str(), rc(q).c_str()); mpz_powm(w2.v, c2.v, e2.v, m.v); mpz_mul(w2.v, w2.v, w.v); mpz_mod(w2.v, w2.v, m.v); same(S, w2, "montexpmul", h); } } }
        break; }
    case 9: {  // square root modulo a prime
        static const char *PR[] = {"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF000000000000000000000001", "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", "A9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377", "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "3", "5", "11", "D", "7", "10001"};
        Z p; if (g.chance(1, 3)) { genZ(g, p, 200, false); mpz_nextprime(p.v, p.v); if (mpz_cmp_ui(p.v, 2) == 0) mpz_set_ui(p.v, 3); } else mpz_set_str(p.v, g.pick(PR), 16);
        mpz_mod(a.v, a.v, p.v); if (g.boolean()) { mpz_mul(a.v, a.v, a.v); mpz_mod(a.v, a.v, p.v); } toBn(A, a); toBn(M, p); op = "modsqrt"; r = BN_ModSqrt(Rb, A, M, opt.o); bool qr = mpz_sgn(a.v) == 0 || mpz_legendre(a.v, p.v) == 1; h = "sqrt " + zlog(a) + " mod " + zlog(p);
        if (mpz_sgn(a.v) == 0 && r) return; CHECK((r == 0) == qr, "bn-modsqrt-rc", "%s: returned %s, quadratic residue: %d", h.c_str(), rc(r).c_str(), (int)qr); if (!r) { getBn(Rb, w); CHECK(mpz_sgn(w.v) >= 0 && mpz_cmp(w.v, p.v) < 0, "bn-modsqrt-range", "%s", h.c_str()); Z t; mpz_mul(t.v, w.v, w.v); mpz_mod(t.v, t.v, p.v); CHECK(mpz_cmp(t.v, a.v) == 0, "bn-modsqrt", "%s -> %s", h.c_str(), zs(w.v).c_str()); g.nontrivial(); } g.note("%s", h.c_str()); return; }
    default: {  // primality
        Z p; genZ(g, p, 260, false); int q = (int)g.draw(3); if (q == 1) mpz_nextprime(p.v, p.v); else if (q == 2) { Z x; genZ(g, x, 100, false); mpz_nextprime(x.v, x.v); mpz_nextprime(p.v, x.v); mpz_mul(p.v, p.v, x.v); } else if (q == 3) { static const char *CM[] = {"561", "1105", "1729", "41041", "825265", "321197185", "5394826801", "232250619601", "9746347772161", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981"}; mpz_set_str(p.v, g.pick(CM), 10); }
        toBn(A, p); r = BN_PrimeCheck(A, 0, opt.o, nullptr); int pr = mpz_probab_prime_p(p.v, 30); h = "prime " + zlog(p); CHECK((r == 0) == (pr != 0), "bn-prime", "%s: returned %s, expected prime=%d", h.c_str(), rc(r).c_str(), pr); g.nontrivial(); g.note("%s", h.c_str()); return; }
    }
    h += op; if (bad) { CHECK(r, "bn-mod-undefined", "%s: undefined operation succeeded", h.c_str()); return; }
    CHECK(!r, std::string("bn-") + op + "-rc", "%s: failed %s", h.c_str(), rc(r).c_str()); same(R, w, op, h); if (mpz_cmp_ui(m.v, 1) > 0) g.nontrivial(); g.note("%s", h.substr(0, 300).c_str()); g.key(h);
}
PBT_TEST(conv, 50000, 600000)
{
    Z z; genZ(g, z, g.chance(1, 10) ? 5000 : 500); Bn b(BN_Create(0)); toBn(b, z); std::string h = zlog(z); seedRand(g);
    switch (g.draw(5)) {
    case 0: { char *s = BN_Bn2Dec(b); CHECK(s, "bn-dec", "null"); char *e = mpz_get_str(nullptr, 10, z.v); std::string a = s, c = e; BSL_SAL_Free(s); free(e); CHECK(a == c, "bn-dec", "dec %s expected %s", a.c_str(), c.c_str()); BN_BigNum *r = g.boolean() ? BN_Create(0) : nullptr; CHECK(!BN_Dec2Bn(&r, c.c_str()), "bn-dec2bn", "Dec2Bn %s", c.c_str()); Bn R(r); same(R, z, "dec2bn", c); break; }
    case 1: { char *s = BN_Bn2Hex(b); CHECK(s, "bn-hex", "null"); BN_BigNum *r = nullptr; Z t; std::string a = s; BSL_SAL_Free(s); CHECK(mpz_set_str(t.v, a.c_str(), 16) == 0 && mpz_cmp(t.v, z.v) == 0, "bn-hex", "hex of %s is %s", h.c_str(), a.c_str()); if (g.boolean()) std::transform(a.begin(), a.end(), a.begin(), ::tolower); CHECK(!BN_Hex2Bn(&r, a.c_str()), "bn-hex2bn", "%s", a.c_str()); Bn R(r); same(R, z, "hex2bn", a); break; }
    case 2: { size_t n = zbin(z).size() + g.draw(20); Exact o(n); int32_t r = BN_Bn2BinFixZero(b, o.p, (uint32_t)n); CHECK(!r || n == 0, "bn-fixzero-rc", "%s", rc(r).c_str()); if (!r) { Z t; mpz_import(t.v, n, 1, 1, 0, 0, o.p); Z w; mpz_abs(w.v, z.v); CHECK(mpz_cmp(t.v, w.v) == 0, "bn-fixzero", "%s", h.c_str()); } if (zbin(z).size() > 1) { size_t k = g.draw(zbin(z).size() - 1); Exact q(k); uint32_t l = (uint32_t)k; CHECK(BN_Bn2Bin(b, q.p, &l) != 0, "bn-short", "short buffer accepted"); CHECK(BN_Bn2BinFixZero(b, q.p, (uint32_t)k) != 0, "bn-short", "short buffer accepted (fixzero)"); } break; }
    case 3: { bool dec = g.boolean(); std::string s = g.text(g.draw(30), dec ? "0123456789" : "0123456789abcdefABCDEF"); bool ok = !s.empty(); if (g.chance(1, 2)) s = "-" + s; if (g.chance(1, 2)) { static const char BAD[] = " gG-+.x/:@`"; s.insert(s.begin() + (long)g.draw(s.size()), BAD[g.draw(sizeof BAD - 2)]); ok = false; if (s[0] == '-' && s.size() > 1 && s.find_first_not_of(dec ? "0123456789" : "0123456789abcdefABCDEF", 1) == std::string::npos) ok = true; }
        Exact e((const uint8_t *)s.c_str(), s.size() + 1); BN_BigNum *r = g.boolean() ? BN_Create(64) : nullptr; int32_t q = dec ? BN_Dec2Bn(&r, (char *)e.p) : BN_Hex2Bn(&r, (char *)e.p); Bn R(r); CHECK((q == 0) == ok, "bn-text", "%s '%s' -> %s, expected %s", dec ? "dec" : "hex", s.c_str(), rc(q).c_str(), ok ? "ok" : "refused"); if (!q) { Z t; mpz_set_str(t.v, s.c_str(), dec ? 10 : 16); same(R, t, "text", s); } h = s; break; }
    case 4: { uint32_t bits = (uint32_t)g.len(1, 300), top = (uint32_t)g.draw(2), bot = (uint32_t)g.draw(2); int32_t r = BN_Rand(b, bits, top, bot); h = sfmt("rand %u %u %u", bits, top, bot); if (r) { CHECK(bits < 3, "bn-rand-rc", "%s -> %s", h.c_str(), rc(r).c_str()); break; } getBn(b, z); CHECK(mpz_sgn(z.v) >= 0 && (mpz_sgn(z.v) == 0 || mpz_sizeinbase(z.v, 2) <= bits), "bn-rand-size", "%s -> %s", h.c_str(), zs(z.v).c_str());
        if (top) CHECK(mpz_tstbit(z.v, bits - 1), "bn-rand-top", "%s", h.c_str()); if (top == 2 && bits > 1) CHECK(mpz_tstbit(z.v, bits - 2), "bn-rand-top", "%s", h.c_str()); if (bot) CHECK(mpz_tstbit(z.v, 0), "bn-rand-bottom", "%s", h.c_str()); if (bot == 2 && bits > 1) CHECK(mpz_tstbit(z.v, 1), "bn-rand-bottom", "%s", h.c_str()); break; }
    default: { Z p; genZ(g, p, 300); Bn P(BN_Create(0)); toBn(P, p); int32_t r = BN_RandRange(b, P); h = "range " + zlog(p); if (mpz_sgn(p.v) <= 0) { CHECK(r, "bn-range-undefined", "%s", h.c_str()); break; } CHECK(!r, "bn-range-rc", "%s %s", h.c_str(), rc(r).c_str()); getBn(b, z); CHECK(mpz_sgn(z.v) >= 0 && mpz_cmp(z.v, p.v) < 0, "bn-range", "%s -> %s", h.c_str(), zs(z.v).c_str()); break; }
    }
    g.nontrivial(); g.note("%s", h.substr(0, 200).c_str()); g.key(h);
}
