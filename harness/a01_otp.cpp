// A01: HOTP/TOTP against RFC 4226 / RFC 6238 computed with OpenSSL
#include "vh.hpp"
#include <openssl/hmac.h>
extern "C" {
#include "auth_otp.h"
#include "auth_params.h"
#include "auth_errno.h"
}
const char *pbt::PROPERTY_RULE =
    "Random keys (16..300 bytes), counters/times (small, near the start offset, 32/64-bit edges), digits 6..8, three digests, time steps, start offsets and windows are set in any order on HOTP and TOTP contexts, also re-initialised ones; the generated code is compared "
    "with an independent RFC computation, and validation is asked about codes of every step around the window, altered codes and other lengths; the verdict must equal membership in the window and the reported step must be one whose code it is. Non-trivial: every case (each computes codes).";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"time steps before the start time do not exist (RFC 6238: T counts up from T0)"};
void pbt::setup() { useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); HITLS_AUTH_OtpNewCtx(77); BSL_ERR_RemoveErrorStack(true); }
static std::string ref(const Bytes &k, uint64_t c, int alg, uint32_t digits)
{
    uint8_t m[8]; for (int i = 0; i < 8; i++) m[i] = (uint8_t)(c >> (56 - 8 * i)); uint8_t h[64]; unsigned hl = 0;
    HMAC(alg == HITLS_AUTH_OTP_CRYPTO_SHA1 ? EVP_sha1() : alg == HITLS_AUTH_OTP_CRYPTO_SHA256 ? EVP_sha256() : EVP_sha512(), k.data(), (int)k.size(), m, 8, h, &hl);
    int o = h[hl - 1] & 15; uint32_t v = ((uint32_t)h[o] << 24 | h[o + 1] << 16 | h[o + 2] << 8 | h[o + 3]) & 0x7FFFFFFF; uint64_t mod = 1; for (uint32_t i = 0; i < digits; i++) mod *= 10;
    return sfmt("%0*u", (int)digits, (unsigned)(v % mod));
}
static int32_t setU32(HITLS_AUTH_OtpCtx *c, int cmd, int key, uint32_t v) { BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], key, BSL_PARAM_TYPE_UINT32, &v, sizeof v); return HITLS_AUTH_OtpCtxCtrl(c, cmd, p, 0); }
static int32_t setOct(HITLS_AUTH_OtpCtx *c, int cmd, int key, void *v, uint32_t n) { BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], key, BSL_PARAM_TYPE_OCTETS, v, n); return HITLS_AUTH_OtpCtxCtrl(c, cmd, p, 0); }
PBT_TEST(otp, 60000, 400000, 0, 300)
{
    seedRand(g); bool totp = g.boolean(); long live = memCtl().live; g.nontrivial();
    {
        Own<HITLS_AUTH_OtpCtx, HITLS_AUTH_OtpFreeCtx> c(HITLS_AUTH_OtpNewCtx(totp ? HITLS_AUTH_OTP_TOTP : HITLS_AUTH_OTP_HOTP)); CHECK(c.p, "new", "no context"); int rounds = (int)g.range(1, 3);
        uint32_t dg = 6, step = 30, win = 1; int alg = HITLS_AUTH_OTP_CRYPTO_SHA1; int64_t t0 = 0; Bytes key; bool have = false;
        while (rounds--) {
            if (!have || g.chance(1, 2)) { size_t n = g.chance(1, 8) ? g.range(1, 15) : g.chance(1, 2) ? g.range(16, 40) : g.range(60, 300); Bytes k = g.bytes(n); Exact ek(k); int32_t r = HITLS_AUTH_OtpInit(c, ek.p, (uint32_t)n); CHECK((r == 0) == (n >= 16), "init", "key of %zu bytes: %s", n, rc(r).c_str()); if (!r) { key = k; have = true; } }
            for (int q = (int)g.range(0, 6); q--;) switch (g.draw(4)) {
                case 0: { uint32_t d = (uint32_t)g.range(4, 10); int32_t r = setU32(c, HITLS_AUTH_OTP_SET_CTX_DIGITS, AUTH_PARAM_OTP_CTX_DIGITS, d); CHECK((r == 0) == (d >= 6 && d <= 8), "digits", "%u digits: %s", d, rc(r).c_str()); if (!r) dg = d; break; }
                case 1: { int32_t a = g.pick({(int)HITLS_AUTH_OTP_CRYPTO_SHA1, (int)HITLS_AUTH_OTP_CRYPTO_SHA256, (int)HITLS_AUTH_OTP_CRYPTO_SHA512}); CHECK(!setOct(c, HITLS_AUTH_OTP_SET_CTX_HASHALGID, AUTH_PARAM_OTP_CTX_HASHALGID, &a, sizeof a), "hash", "hash refused"); alg = a; break; }
                case 2: { uint32_t s = g.chance(1, 2) ? (uint32_t)g.range(0, 100) : (uint32_t)g.draw(UINT32_MAX); int32_t r = setU32(c, HITLS_AUTH_OTP_SET_CTX_TOTP_TIMESTEPSIZE, AUTH_PARAM_OTP_CTX_TOTP_TIMESTEPSIZE, s); CHECK((r == 0) == (totp && s), "step", "step %u: %s", s, rc(r).c_str()); if (!r) step = s; break; }
                case 3: { uint32_t w = (uint32_t)g.range(0, 12); int32_t r = setU32(c, HITLS_AUTH_OTP_SET_CTX_TOTP_VALIDWINDOW, AUTH_PARAM_OTP_CTX_TOTP_VALIDWINDOW, w); CHECK((r == 0) == (totp && w <= 10), "window", "window %u: %s", w, rc(r).c_str()); if (!r) win = w; break; }
                default: { int64_t o = (int64_t)(g.chance(1, 2) ? g.draw(1000) : g.draw(2000000000)); int32_t r = setOct(c, HITLS_AUTH_OTP_SET_CTX_TOTP_STARTOFFSET, AUTH_PARAM_OTP_CTX_TOTP_STARTOFFSET, &o, sizeof o); CHECK((r == 0) == totp, "t0", "start offset: %s", rc(r).c_str()); if (!r) t0 = o; }
            }
            uint64_t in; if (totp) in = (uint64_t)t0 + (g.chance(1, 3) ? g.draw((uint64_t)step * 12 + 3) : g.chance(1, 2) ? g.draw(4000000000u) : (uint64_t)step * g.draw(100000) + g.pick<uint64_t>({0, 1, step - 1u})); else in = g.pick<uint64_t>({g.draw(20), g.draw(0xFFFFFFFF), 0xFFFFFFFFull + g.draw(3), g.draw(UINT64_MAX), UINT64_MAX});
            if (totp && t0 && g.chance(1, 10)) in = g.draw((uint64_t)t0 - 1);
            BSL_Param p[2] = {{0}, BSL_PARAM_END}; BSL_PARAM_InitValue(&p[0], totp ? AUTH_PARAM_OTP_TOTP_CURTIME : AUTH_PARAM_OTP_HOTP_COUNTER, BSL_PARAM_TYPE_OCTETS, &in, sizeof in);
            if (!have) { char b[16]; uint32_t l = 16; CHECK(HITLS_AUTH_OtpGen(c, p, b, &l), "nokey", "a code was generated without key"); continue; }
            bool early = totp && in < (uint64_t)t0; uint64_t T = totp ? (early ? 0 : (in - (uint64_t)t0) / step) : in; std::string want = ref(key, T, alg, dg);
            g.note("%s key %zu alg %d digits %u T %llu window %u", totp ? "TOTP" : "HOTP", key.size(), alg, dg, (unsigned long long)T, win);
            uint32_t bl = (uint32_t)g.range(0, 12); Exact b(bl); int32_t r = HITLS_AUTH_OtpGen(c, p, (char *)b.p, &bl);
            if (early || b.n < dg) CHECK(r, "gen-accept", "generated with %s", early ? "a time before the start" : "a short buffer"); else CHECK(!r && bl == dg && std::string((char *)b.p, bl) == want, "gen", "%s code for T=%llu is %.*s, expected %s (%s)", totp ? "TOTP" : "HOTP", (unsigned long long)T, (int)bl, (char *)b.p, want.c_str(), rc(r).c_str());
            if (early) { CHECK(HITLS_AUTH_OtpValidate(c, p, want.data(), dg, nullptr), "early-valid", "validated before the start time"); continue; }
            uint64_t lo = totp ? (T < win ? 0 : T - win) : T, hi = totp ? T + win : T; std::vector<std::string> codes; for (uint64_t q = lo;; q++) { codes.push_back(ref(key, q, alg, dg)); if (q == hi) break; }
            std::vector<int64_t> offs; int64_t w1 = totp ? win : 0; for (int64_t d : {(int64_t)0, w1, -w1, w1 + 1, -w1 - 1}) offs.push_back(d); offs.push_back((int64_t)g.draw(30) - 15); offs.push_back(99999);
            for (int64_t d : offs) {
                std::string cand = d == 99999 ? want : ref(key, T + (uint64_t)d, alg, dg); if (d == 99999) { size_t at = g.draw(dg - 1); cand[at] = (char)('0' + (cand[at] - '0' + g.range(1, 9)) % 10); if (g.chance(1, 4)) cand[at] = (char)g.draw(255); }
                bool in_ = std::find(codes.begin(), codes.end(), cand) != codes.end(); Exact cb((const uint8_t *)cand.data(), cand.size()); uint64_t m = 0xDEAD; int32_t v = HITLS_AUTH_OtpValidate(c, p, (char *)cb.p, (uint32_t)cb.n, g.chance(1, 5) ? nullptr : &m);
                CHECK(in_ ? v == 0 : v == HITLS_AUTH_OTP_VALIDATE_MISMATCH, in_ ? "val-reject" : "val-accept", "code %s of step T%+lld (T=%llu, window %lld): %s", cand.c_str(), (long long)d, (unsigned long long)T, (long long)w1, rc(v).c_str());
                if (!v && m != 0xDEAD) CHECK(m >= lo && m <= hi && codes[m - lo] == cand, "val-step", "matched step %llu is not one of that code (T=%llu)", (unsigned long long)m, (unsigned long long)T);
            }
            std::string sh = want.substr(0, dg - 1), lg = want + "0"; Exact s1((const uint8_t *)sh.data(), sh.size()), s2((const uint8_t *)lg.data(), lg.size()); CHECK(HITLS_AUTH_OtpValidate(c, p, (char *)s1.p, (uint32_t)s1.n, nullptr), "val-short", "prefix accepted"); CHECK(HITLS_AUTH_OtpValidate(c, p, (char *)s2.p, (uint32_t)s2.n, nullptr), "val-long", "longer code accepted");
        }
    }
    BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, "leak", "%ld allocations leaked", memCtl().live - live);
}
