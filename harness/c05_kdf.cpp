#include "vh.hpp"
#include <openssl/hmac.h>
const char *pbt::PROPERTY_RULE =
    "history: one KDF context (HKDF full/extract/expand, PBKDF2, scrypt, TLS 1.2 PRF); parameters set in random order over several calls, derived, partly changed, "
    "copied/duplicated, de-initialised and used again; lengths around digest size multiples and the limit 255*HashLen; illegal lengths/costs. Non-trivial: a derived "
    "output of >=1 byte compared after >=2 SetParam calls or on a reused context.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL 3.0 HMAC, PBKDF2 and scrypt are correct"};
void pbt::setup() {}
struct Mac { CRYPT_MAC_AlgId id; const char *md; uint32_t size; bool hkdf, pb, tls; };
static const Mac MACS[] = {{CRYPT_MAC_HMAC_SHA256, "SHA256", 32, 1, 1, 1}, {CRYPT_MAC_HMAC_SHA1, "SHA1", 20, 1, 1, 0}, {CRYPT_MAC_HMAC_SHA224, "SHA224", 28, 1, 1, 0}, {CRYPT_MAC_HMAC_SHA384, "SHA384", 48, 1, 1, 1},
    {CRYPT_MAC_HMAC_SHA512, "SHA512", 64, 1, 1, 1}, {CRYPT_MAC_HMAC_MD5, "MD5", 16, 1, 1, 0}, {CRYPT_MAC_HMAC_SM3, "SM3", 32, 1, 1, 1}, {CRYPT_MAC_HMAC_SHA3_256, "SHA3-256", 32, 0, 1, 0}, {CRYPT_MAC_HMAC_SHA3_512, "SHA3-512", 64, 0, 1, 0},
    {CRYPT_MAC_HMAC_SHA3_224, "SHA3-224", 28, 0, 1, 0}, {CRYPT_MAC_HMAC_SHA3_384, "SHA3-384", 48, 0, 1, 0}};
static const EVP_MD *md(const char *n) { static std::map<std::string, EVP_MD *> c; EVP_MD *&m = c[n]; if (!m) m = EVP_MD_fetch(nullptr, n, nullptr); if (!m) abort(); return m; }
static Bytes hm(const Mac &m, const Bytes &k, const Bytes &d) { Bytes o(64); unsigned l; uint8_t z = 0; if (!HMAC(md(m.md), k.empty() ? &z : k.data(), (int)k.size(), d.data(), d.size(), o.data(), &l)) abort(); o.resize(l); return o; }
static Bytes expand(const Mac &m, const Bytes &prk, const Bytes &info, size_t L) { Bytes t, o; for (uint8_t i = 1; o.size() < L; i++) { Bytes d = t; d.insert(d.end(), info.begin(), info.end()); d.push_back(i); t = hm(m, prk, d); o.insert(o.end(), t.begin(), t.end()); } o.resize(L); return o; }
static Bytes prf(const Mac &m, const Bytes &key, const Bytes &seed, size_t L) { Bytes a = seed, o; while (o.size() < L) { a = hm(m, key, a); Bytes t = hm(m, key, cat(a, seed)); o.insert(o.end(), t.begin(), t.end()); } o.resize(L); return o; }
enum K { HK, PB, SC, TL };
struct Model { int mac = -1, mode = -1; Bytes f[5]; bool has[5] = {0}; uint32_t iter = 0, n = 0, r = 0, p = 0; };
PBT_TEST(history, 45000, 900000)
{
    K kind = (K)g.cycle(4); static const CRYPT_KDF_AlgId IDS[] = {CRYPT_KDF_HKDF, CRYPT_KDF_PBKDF2, CRYPT_KDF_SCRYPT, CRYPT_KDF_KDFTLS12}; static const char *NM[] = {"HKDF", "PBKDF2", "SCRYPT", "KDFTLS12"};
    g.label(NM[kind]);
    KdfCtx c(g.boolean() ? CRYPT_EAL_KdfNewCtx(IDS[kind]) : CRYPT_EAL_ProviderKdfNewCtx(nullptr, IDS[kind], "provider=default")); CHECK(c, "kdf-new", "no %s", NM[kind]);
    static const int FID[4][5] = {{CRYPT_PARAM_KDF_KEY, CRYPT_PARAM_KDF_SALT, CRYPT_PARAM_KDF_INFO, CRYPT_PARAM_KDF_PRK, 0}, {CRYPT_PARAM_KDF_PASSWORD, CRYPT_PARAM_KDF_SALT, 0, 0, 0}, {CRYPT_PARAM_KDF_PASSWORD, CRYPT_PARAM_KDF_SALT, 0, 0, 0}, {CRYPT_PARAM_KDF_KEY, CRYPT_PARAM_KDF_LABEL, CRYPT_PARAM_KDF_SEED, 0, 0}};
    Model m; std::string h = NM[kind]; uint32_t exlen = 0; int sets = 0; bool reused = false; int rounds = 1 + (int)g.draw(2);
    for (int rd = 0; rd < rounds; rd++) {
        // which parameters to (re)set, in which order
        std::vector<int> todo;  // 0 mac 1 mode/iter/n 2 r 3 p 10+i data field, 20 exlen
        bool full = rd == 0 || g.chance(1, 3);
        auto want = [&](bool missing) { return missing || full || g.chance(1, 3); };
        if (kind != SC && want(m.mac < 0)) todo.push_back(0);
        if (kind == HK) { if (want(m.mode < 0)) todo.push_back(1); todo.push_back(20); }
        if (kind == PB && want(m.iter == 0)) todo.push_back(1);
        if (kind == SC) { if (want(!m.n)) todo.push_back(1); if (want(!m.r)) todo.push_back(2); if (want(!m.p)) todo.push_back(3); }
        for (int i = 0; i < 5 && FID[kind][i]; i++) if (want(!m.has[i])) todo.push_back(10 + i);
        for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[g.draw(i - 1)]);
        std::vector<BSL_Param> ps; std::vector<std::unique_ptr<Exact>> keep; uint32_t vals[8]; int nv = 0;
        auto flush = [&]() {
            if (ps.empty()) return; BSL_Param end = {0, (BSL_PARAM_VALUE_TYPE)0, NULL, 0, 0}; ps.push_back(end);
            int32_t r = CRYPT_EAL_KdfSetParam(c, ps.data()); CHECK(!r, "kdf-setparam", "%s: SetParam failed %s", h.c_str(), rc(r).c_str()); ps.clear(); nv = 0; sets++; keep.clear();
        };
        uint32_t *px = &exlen;
        for (int t : todo) {
            BSL_Param p = {0, (BSL_PARAM_VALUE_TYPE)0, NULL, 0, 0};
            if (t == 0) { do m.mac = (int)g.draw(10); while (0); for (int q = 0; q < 11; q++) { const Mac &x = MACS[m.mac]; if (kind == HK ? x.hkdf : kind == PB ? x.pb : x.tls) break; m.mac = (m.mac + 1) % 11; }
                vals[nv] = MACS[m.mac].id; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" mac=%s", MACS[m.mac].md); }
            else if (t == 1 && kind == HK) { m.mode = g.pick({CRYPT_KDF_HKDF_MODE_FULL, CRYPT_KDF_HKDF_MODE_EXTRACT, CRYPT_KDF_HKDF_MODE_EXPAND}); vals[nv] = m.mode; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_MODE, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" mode=%d", m.mode); }
            else if (t == 1 && kind == PB) { m.iter = g.weighted({3, 1}) == 0 ? 1 + (uint32_t)g.draw(5) : 1 + (uint32_t)g.draw(60); vals[nv] = m.iter; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_ITER, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" iter=%u", m.iter); }
            else if (t == 1) { m.n = 2u << g.draw(6); vals[nv] = m.n; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_N, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" N=%u", m.n); }
            else if (t == 2) { m.r = 1 + (uint32_t)g.draw(9); vals[nv] = m.r; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_R, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" r=%u", m.r); }
            else if (t == 3) { m.p = 1 + (uint32_t)g.draw(4); vals[nv] = m.p; BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_P, BSL_PARAM_TYPE_UINT32, &vals[nv++], 4); h += sfmt(" p=%u", m.p); }
            else if (t == 20) { BSL_PARAM_InitValue(&p, CRYPT_PARAM_KDF_EXLEN, BSL_PARAM_TYPE_UINT32_PTR, px, 4); }
            else { int i = t - 10; m.f[i] = g.bytes(g.weighted({3, 1}) == 0 ? g.len(0, 70) : g.len(0, 300)); m.has[i] = true; keep.emplace_back(new Exact(m.f[i]));
                BSL_PARAM_InitValue(&p, FID[kind][i], BSL_PARAM_TYPE_OCTETS, m.f[i].empty() && g.boolean() ? nullptr : keep.back()->p, (uint32_t)m.f[i].size()); h += sfmt(" f%d=%zu", i, m.f[i].size()); }
            ps.push_back(p); if (g.chance(1, 3)) flush();
        }
        flush();
        if (g.chance(1, 5)) { CRYPT_EAL_KdfCtx *d = CRYPT_EAL_KdfDupCtx(c); CHECK(d, "kdf-dup", "%s: dup failed", h.c_str()); h += " dup";
            if (kind == HK) { BSL_Param pp[2] = {}; BSL_PARAM_InitValue(&pp[0], CRYPT_PARAM_KDF_EXLEN, BSL_PARAM_TYPE_UINT32_PTR, &exlen, 4); CRYPT_EAL_KdfSetParam(d, pp); }
            c.reset(d); reused = true; }
        int reps = 1 + (int)g.draw(1);
        for (int rep = 0; rep < reps; rep++) {
            const Mac &mm = MACS[m.mac < 0 ? 0 : m.mac]; size_t L;
            if (kind == SC) L = 1 + g.draw(100);
            else L = g.weighted({3, 3, 1}) == 0 ? 1 + g.draw(200) : g.boolean() ? (size_t)std::max<int64_t>(1, (int64_t)(mm.size * g.range(1, 8)) + (int64_t)g.draw(2) - 1) : (kind == HK ? mm.size * 255 - g.draw(2) : 1 + g.draw(2500));
            Bytes want; bool bad = false;
            if (kind == HK) {
                if (g.chance(1, 20) && m.mode != CRYPT_KDF_HKDF_MODE_EXTRACT) { bad = true; L = mm.size * 255 + 1 + g.draw(3); }
                if (m.mode == CRYPT_KDF_HKDF_MODE_EXTRACT) { L = mm.size; exlen = (uint32_t)L; }
                Bytes salt = m.f[1].empty() ? Bytes(mm.size) : m.f[1];
                if (!bad) want = m.mode == CRYPT_KDF_HKDF_MODE_EXPAND ? expand(mm, m.f[3], m.f[2], L) : m.mode == CRYPT_KDF_HKDF_MODE_EXTRACT ? hm(mm, salt, m.f[0]) : expand(mm, hm(mm, salt, m.f[0]), m.f[2], L);
            } else if (kind == PB) {
                if (m.iter > 6 && L > 200) L = 200;
                else if (m.iter <= 6 && g.chance(1, 12)) { L = mm.size * (size_t)g.range(250, 300) + (size_t)g.draw(mm.size); g.label("many-blocks"); }
                want.resize(L); uint8_t z = 0; if (!PKCS5_PBKDF2_HMAC(m.f[0].empty() ? (char *)&z : (char *)m.f[0].data(), (int)m.f[0].size(), m.f[1].empty() ? &z : m.f[1].data(), (int)m.f[1].size(), (int)m.iter, md(mm.md), (int)L, want.data())) abort();
            } else if (kind == SC) {
                if (m.r == 1 && m.n >= 65536) discard();
                want.resize(L); uint8_t z = 0; if (!EVP_PBE_scrypt(m.f[0].empty() ? (char *)&z : (char *)m.f[0].data(), m.f[0].size(), m.f[1].empty() ? &z : m.f[1].data(), m.f[1].size(), m.n, m.r, m.p, 64 << 20, want.data(), L)) abort();
            } else want = prf(mm, m.f[0], cat(m.f[1], m.f[2]), L);
            Exact o(L); int32_t r = CRYPT_EAL_KdfDerive(c, o.p, (uint32_t)L); h += sfmt(" D%zu", L);
            if (bad) { CHECK(r, "kdf-limit", "%s: length over 255*HashLen accepted", h.c_str()); continue; }
            CHECK(!r, "kdf-derive", "%s: derive failed %s", h.c_str(), rc(r).c_str());
            if (kind == HK && m.mode == CRYPT_KDF_HKDF_MODE_EXTRACT) CHECK(exlen == mm.size, "kdf-exlen", "%s: extract length %u", h.c_str(), exlen);
            CHECK(o.vec() == want, "kdf-value", "%s: %s expected %s", h.c_str(), hex(o.vec()).c_str(), hex(want).c_str());
            if (sets > 1 || reused) g.nontrivial();
            reused = true;
        }
        if (g.chance(1, 6) && kind != HK) {  // zero length / illegal costs are refused without breaking the context
            uint8_t z; CHECK(CRYPT_EAL_KdfDerive(c, &z, 0) != CRYPT_SUCCESS, "kdf-zero", "%s: zero length accepted", h.c_str());
        }
        if (kind == SC && g.chance(1, 4)) {
            uint32_t v = g.pick({0u, 1u, 3u, 6u, 0xffffffffu}); BSL_Param pp[2] = {}; BSL_PARAM_InitValue(&pp[0], CRYPT_PARAM_KDF_N, BSL_PARAM_TYPE_UINT32, &v, 4);
            CHECK(CRYPT_EAL_KdfSetParam(c, pp) != CRYPT_SUCCESS, "scrypt-n", "N=%u accepted", v);
        }
        if (kind == PB && g.chance(1, 6)) { uint32_t v = 0; BSL_Param pp[2] = {}; BSL_PARAM_InitValue(&pp[0], CRYPT_PARAM_KDF_ITER, BSL_PARAM_TYPE_UINT32, &v, 4); CHECK(CRYPT_EAL_KdfSetParam(c, pp) != CRYPT_SUCCESS, "pbkdf2-iter", "0 iterations accepted"); }
        if (g.chance(1, 5)) { CRYPT_EAL_KdfDeInitCtx(c); m = Model(); h += " deinit"; reused = true; }
    }
    g.note("%s", h.c_str());
}
