#include "slhref.hpp"
#include "opki.hpp"
#include "oec.hpp"
#include <openssl/rsa.h>
#include <openssl/pem.h>
using namespace vh; using namespace oec;
const char *pbt::PROPERTY_RULE =
    "mldsa: seeds through GenKey, seed import, expanded import; messages x contexts (0..255) x {pure, 8 pre-hashes, external mu} x {deterministic, hedged with known randomness}: keys and signatures compared bit for bit with an own FIPS 204 model; signatures altered (bit anywhere, z norm, hint encodings: unsorted, equal, non-zero padding, count too high, moved), wrong length, other message/context/mode: verdict equals the model's. "
    "slhdsa: all 24 profiles: root recomputed, R and the whole signature checked by an own FIPS 205 model, alterations rejected. composite: 17 combinations with the ML-DSA model and OpenSSL for the classical part, both directions, alterations of either part. Non-trivial: a library output was compared with a model value.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"own FIPS 204 / 205 models (harness/pqref.hpp, slhref.hpp) are correct", "OpenSSL RSA, ECDSA, Ed25519 and hashes are correct"};
void pbt::setup() { useScrRand(); }
static CRYPT_EAL_PkeyCtx *nk(G &g, CRYPT_PKEY_AlgId id, int32_t para) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(id) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, id, 0, "provider=default"); CHECK(k, "new", "no context for %d", id); REQUIRE_OK(CRYPT_EAL_PkeySetParaById(k, (CRYPT_PKEY_ParaId)para), "setpara"); return k; }
static void dup(G &g, PkeyCtx &k) { if (g.chance(1, 6)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "dup", "PkeyDupCtx failed"); k.reset(d); g.label("dup"); } }
typedef std::vector<std::pair<int32_t, Bytes>> KV;
static int32_t setP(CRYPT_EAL_PkeyCtx *k, bool prv, const KV &kv) { std::vector<std::unique_ptr<Exact>> h; std::vector<BSL_Param> p; for (auto &x : kv) { h.emplace_back(new Exact(x.second)); p.push_back({x.first, BSL_PARAM_TYPE_OCTETS, h.back()->p, (uint32_t)h.back()->n, 0}); } p.push_back(BSL_PARAM_END); return prv ? CRYPT_EAL_PkeySetPrvEx(k, p.data()) : CRYPT_EAL_PkeySetPubEx(k, p.data()); }
static KV getP(CRYPT_EAL_PkeyCtx *k, bool prv, std::vector<std::pair<int32_t, size_t>> w) { std::vector<std::unique_ptr<Exact>> h; std::vector<BSL_Param> p; for (auto &x : w) { h.emplace_back(new Exact(x.second)); p.push_back({x.first, BSL_PARAM_TYPE_OCTETS, h.back()->p, (uint32_t)h.back()->n, 0}); } p.push_back(BSL_PARAM_END); int32_t r = prv ? CRYPT_EAL_PkeyGetPrvEx(k, p.data()) : CRYPT_EAL_PkeyGetPubEx(k, p.data()); CHECK(!r, "get-key", "get key: %s", rc(r).c_str()); KV o; for (size_t i = 0; i < w.size(); i++) o.push_back({w[i].first, Bytes(h[i]->p, h[i]->p + p[i].useLen)}); return o; }
static void ci(CRYPT_EAL_PkeyCtx *k, int32_t c, int32_t v) { REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, c, &v, sizeof v), "ctrl"); }
static void setCtx(G &g, CRYPT_EAL_PkeyCtx *k, const Bytes &c) { if (c.empty() && g.boolean()) return; Exact e(c); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_CTX_INFO, c.empty() ? nullptr : e.p, (uint32_t)c.size()), "ctx-ctrl"); }
static int32_t sign(CRYPT_EAL_PkeyCtx *k, int32_t md, const Bytes &m, size_t cap, Bytes &sig) { Exact in(m), o(cap); uint32_t l = (uint32_t)cap; int32_t r = CRYPT_EAL_PkeySign(k, (CRYPT_MD_AlgId)md, in.p, (uint32_t)in.n, o.p, &l); if (!r) sig = Bytes(o.p, o.p + l); return r; }
static bool verify(CRYPT_EAL_PkeyCtx *k, int32_t md, const Bytes &m, const Bytes &sig) { Exact in(m), s(sig); return CRYPT_EAL_PkeyVerify(k, (CRYPT_MD_AlgId)md, in.p, (uint32_t)in.n, s.p, (uint32_t)s.n) == 0; }
struct PH { int32_t id; const char *n; uint8_t last; size_t len; };
static const PH PHS[] = {{CRYPT_MD_SHA256, "SHA256", 1, 0}, {CRYPT_MD_SHA512, "SHA512", 3, 0}, {CRYPT_MD_SHA384, "SHA384", 2, 0}, {CRYPT_MD_SHAKE128, "SHAKE128", 0xb, 32}, {CRYPT_MD_SHAKE256, "SHAKE256", 0xc, 64}, {CRYPT_MD_SHA3_256, "SHA3-256", 8, 0}, {CRYPT_MD_SHA3_512, "SHA3-512", 10, 0}, {CRYPT_MD_SHA224, "SHA224", 4, 0}};
static Bytes oid(const PH &h) { return {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, h.last}; }
static Bytes fmt(const PH *h, const Bytes &c, const Bytes &m) { return h ? pq::dsa::fmtHash(c, oid(*h), osslMd(h->n, m, h->len)) : pq::dsa::fmtPure(c, m); }
static Bytes ctxGen(G &g) { return g.bytes(g.chance(1, 2) ? 0 : g.chance(1, 4) ? g.pick<size_t>({1, 254, 255}) : g.len(0, 255)); }
static void flip(G &g, Bytes &b, size_t lo, size_t hi) { b[g.range(lo, hi - 1)] ^= 1 << g.draw(7); }

PBT_TEST(mldsa, 1300, 40000)
{
    namespace D = pq::dsa; seedRand(g); setScript({}); int ps = (int)g.draw(2); const D::Par &p = D::P[ps]; static const int32_t ids[3] = {CRYPT_MLDSA_TYPE_MLDSA_44, CRYPT_MLDSA_TYPE_MLDSA_65, CRYPT_MLDSA_TYPE_MLDSA_87}; Bytes xi = g.bytes(32), pk, sk; D::keygen(p, xi, pk, sk); PkeyCtx k(nk(g, CRYPT_PKEY_ML_DSA, ids[ps])), v(nk(g, CRYPT_PKEY_ML_DSA, ids[ps])); g.label("set" + std::to_string(ps));
    switch (g.draw(3)) {
        case 0: setScript(xi); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "mldsa-gen"); setScript({}); break;
        case 1: REQUIRE_OK(setP(k, true, {{CRYPT_PARAM_ML_DSA_PRVKEY_SEED, xi}}), "mldsa-setseed"); break;
        case 2: { Bytes s2 = sk; bool bad = g.chance(1, 3); if (bad) flip(g, s2, 0, s2.size()); int32_t r = setP(k, true, {{CRYPT_PARAM_ML_DSA_PRVKEY_SEED, xi}, {CRYPT_PARAM_ML_DSA_PRVKEY, s2}}); CHECK((r == 0) == !bad, "mldsa-seed-and-key", "seed with %s key: %s", bad ? "inconsistent" : "its", rc(r).c_str()); if (bad) { g.label("inconsistent"); g.nontrivial(); return; } break; }
        default: { Bytes s2 = sk; if (g.chance(1, 4)) { if (g.boolean()) { if (g.boolean()) s2.push_back(0); else s2.pop_back(); } else { size_t lo = g.boolean() ? 64 : 128; flip(g, s2, lo, g.boolean() ? lo + 64 : s2.size()); } int32_t r = setP(k, true, {{CRYPT_PARAM_ML_DSA_PRVKEY, s2}}); CHECK(r, "mldsa-bad-prv", "inconsistent private key accepted"); } REQUIRE_OK(setP(k, true, {{CRYPT_PARAM_ML_DSA_PRVKEY, sk}}), "mldsa-setprv"); }
    }
    dup(g, k); CHECK(getP(k, true, {{CRYPT_PARAM_ML_DSA_PRVKEY, p.sk()}})[0].second == sk, "mldsa-sk", "set %d private key differs from FIPS 204, xi=%s", ps, hex(xi).c_str()); CHECK(getP(k, false, {{CRYPT_PARAM_ML_DSA_PUBKEY, p.pk()}})[0].second == pk, "mldsa-pk", "public key differs, xi=%s", hex(xi).c_str()); g.nontrivial();
    if (g.chance(1, 8)) { Bytes b = pk; if (g.boolean()) b.push_back(0); else b.pop_back(); CHECK(setP(v, false, {{CRYPT_PARAM_ML_DSA_PUBKEY, b}}), "mldsa-pk-length", "public key of %zu bytes accepted", b.size()); } REQUIRE_OK(setP(v, false, {{CRYPT_PARAM_ML_DSA_PUBKEY, pk}}), "mldsa-setpub"); dup(g, v); CRYPT_EAL_PkeyCtx *vc = g.chance(1, 4) ? k : v;
    int mode = (int)g.weighted({4, 3, 1}); const PH *h = mode == 1 ? &PHS[g.draw(7)] : nullptr; bool det = g.boolean(); Bytes ctx = ctxGen(g), m = mode == 2 ? g.bytes(64) : g.bytes(g.len(0, 400)), rnd = det ? Bytes(32, 0) : g.bytes(32); int32_t md = h ? h->id : CRYPT_MD_MAX; g.label(h ? h->n : mode == 2 ? "mu" : "pure");
    for (auto x : {(CRYPT_EAL_PkeyCtx *)k, (CRYPT_EAL_PkeyCtx *)v}) { setCtx(g, x, ctx); if (h) ci(x, CRYPT_CTRL_SET_PREHASH_MODE, 1); if (mode == 2) ci(x, CRYPT_CTRL_SET_MLDSA_MUMSG_FLAG, 1); } ci(k, CRYPT_CTRL_SET_DETERMINISTIC_FLAG, det); auto muF = [&](const Bytes &msg, const Bytes &c) { return mode == 2 ? msg : D::muOf(pq::shake256(pk, 64), fmt(h, c, msg)); };
    if (g.chance(1, 10)) { Bytes t(256, 1); CHECK(CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_CTX_INFO, t.data(), 256), "mldsa-ctx-256", "256-byte context accepted"); }
    int tries = 0; Bytes mu = muF(m, ctx), want = D::signMu(p, sk, mu, rnd, &tries), sig; if (g.chance(1, 8)) CHECK(sign(k, md, m, p.sig() - 1, sig), "mldsa-short", "signed into a short buffer"); if (!det) setScript(rnd); REQUIRE_OK(sign(k, md, m, p.sig() + g.draw(1), sig), "mldsa-sign"); setScript({}); CHECK(sig == want, "mldsa-sig", "set %d %s signature differs from FIPS 204 (%d rejections), xi=%s m=%s ctx=%s", ps, h ? h->n : mode ? "mu" : "pure", tries - 1, hex(xi).c_str(), hex(m).c_str(), hex(ctx).c_str()); if (tries > 8) g.label("many-rejections");
    CHECK(verify(vc, md, m, sig), "mldsa-verify", "own valid signature rejected");
    for (int rep = 0, n = 1 + (int)g.draw(2); rep < n; rep++) {
        Bytes s = sig, m2 = m, c2 = ctx; size_t ct = (size_t)p.lam / 4, hz = ct + 32u * (size_t)(p.l * p.zb()); const char *what = "";
        switch (g.weighted({3, 3, 2, 1, 1, 1})) {
            case 0: what = "bit"; flip(g, s, 0, s.size()); break;
            case 1: { what = "hint"; uint8_t *y = s.data() + hz; int K = p.k, om = p.omega; int tot = y[om + K - 1]; switch (g.draw(5)) { case 0: if (tot >= om) continue; y[tot + (int)g.draw((uint64_t)(om - tot - 1))] = (uint8_t)g.range(1, 255); break; case 1: { int i = (int)g.draw((uint64_t)K - 1), a = i ? y[om + i - 1] : 0, b = y[om + i]; if (b - a < 2) continue; std::swap(y[a], y[a + 1 + (int)g.draw((uint64_t)(b - a - 2))]); break; } case 2: { int i = (int)g.draw((uint64_t)K - 1), a = i ? y[om + i - 1] : 0, b = y[om + i]; if (b - a < 2) continue; y[a + 1] = y[a]; break; } case 3: y[om + (int)g.draw((uint64_t)K - 1)] = (uint8_t)g.range((uint64_t)om, 255); break; case 4: { int i = (int)g.draw((uint64_t)K - 1); y[om + i] = (uint8_t)(y[om + i] + (g.boolean() ? 1 : -1)); break; } default: { if (tot >= om) continue; y[tot] = tot && g.boolean() ? y[tot - 1] : (uint8_t)g.draw(255); y[om + K - 1]++; } } break; }
            case 2: { what = "z"; size_t i = g.draw((uint64_t)p.l - 1), j = g.draw(255); Bytes zb(s.begin() + (long)(ct + 32 * i * (size_t)p.zb()), s.begin() + (long)(ct + 32 * (i + 1) * (size_t)p.zb())); pq::Poly z = D::bitunpack(zb.data(), p.g1, p.zb()); z[j] = g.pick<int64_t>({p.g1 - p.beta(), p.g1 - p.beta() - 1, -(p.g1 - p.beta()), p.g1, 1 - p.g1, z[j] + 1}); if (z[j] > p.g1) z[j] = p.g1; Bytes nz; D::bitpack(nz, z, p.g1, p.zb()); std::copy(nz.begin(), nz.end(), s.begin() + (long)(ct + 32 * i * (size_t)p.zb())); break; }
            case 3: what = "length"; if (g.boolean()) s.push_back(0); else s.resize(s.size() - 1 - g.draw(g.boolean() ? 0 : 200)); break;
            case 4: what = "message"; if (mode == 2 || (m2.size() && g.boolean())) flip(g, m2, 0, m2.size()); else if (m2.size() && g.boolean()) m2.pop_back(); else m2.push_back(0); break;
            default: if (mode == 2) continue; what = "context"; if (c2.size() && g.boolean()) flip(g, c2, 0, c2.size()); else if (c2.size() < 255) c2.push_back((uint8_t)g.draw(255)); else c2.pop_back(); if (g.boolean() && c2.size() > ctx.size() && m.size() && !h) { c2.back() = m[0]; m2.erase(m2.begin()); what = "boundary"; } { Exact e(c2); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(vc, CRYPT_CTRL_SET_CTX_INFO, c2.empty() ? nullptr : e.p, (uint32_t)c2.size()), "ctx-ctrl"); } }
        if (s == sig && m2 == m && c2 == ctx) continue; bool w = s.size() == p.sig() && D::verifyMu(p, pk, muF(m2, c2), s); g.label(std::string("alt-") + what); CHECK(verify(vc, md, m2, s) == w, "mldsa-altered", "set %d signature with altered %s: accepted %d, FIPS 204 says %d", ps, what, !w, w); CHECK(!w, "mldsa-model", "model accepts an altered signature (%s)", what); if (c2 != ctx) { Exact e(ctx); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(vc, CRYPT_CTRL_SET_CTX_INFO, ctx.empty() ? nullptr : e.p, (uint32_t)ctx.size()), "ctx-ctrl"); }
    }
    if (g.chance(1, 4)) { CHECK(verify(vc, md, m, sig), "mldsa-verify-again", "valid signature rejected after altered ones"); }
    if (g.chance(1, 5) && mode != 2) { ci(vc, CRYPT_CTRL_SET_PREHASH_MODE, !h); CHECK(!verify(vc, h ? h->id : CRYPT_MD_SHA256, m, sig), "mldsa-mode", "signature accepted in the other mode"); g.label("mode"); }
    else if (g.chance(1, 5)) { Bytes pk2 = pk; flip(g, pk2, 0, pk2.size()); PkeyCtx x(nk(g, CRYPT_PKEY_ML_DSA, ids[ps])); REQUIRE_OK(setP(x, false, {{CRYPT_PARAM_ML_DSA_PUBKEY, pk2}}), "mldsa-setpub"); setCtx(g, x, ctx); if (h) ci(x, CRYPT_CTRL_SET_PREHASH_MODE, 1); if (mode == 2) { ci(x, CRYPT_CTRL_SET_MLDSA_MUMSG_FLAG, 1); CHECK(verify(x, md, m, sig) == D::verifyMu(p, pk2, m, sig), "mldsa-other-key", "altered key with external mu"); } else CHECK(!verify(x, md, m, sig), "mldsa-other-key", "signature accepted under an altered public key"); g.label("altered-key"); }
}
PBT_TEST(slhdsa, 90, 3000, 0, 200)
{
    static const std::vector<slh::Par> P = slh::pars(); static const int32_t ids[2][12] = {{CRYPT_SLH_DSA_SHAKE_128S, CRYPT_SLH_DSA_SHAKE_128F, CRYPT_SLH_DSA_SHAKE_192S, CRYPT_SLH_DSA_SHAKE_192F, CRYPT_SLH_DSA_SHAKE_256S, CRYPT_SLH_DSA_SHAKE_256F, CRYPT_SLH_DSA_SHA2_128S, CRYPT_SLH_DSA_SHA2_128F, CRYPT_SLH_DSA_SHA2_192S, CRYPT_SLH_DSA_SHA2_192F, CRYPT_SLH_DSA_SHA2_256S, CRYPT_SLH_DSA_SHA2_256F},
        {CRYPT_HASH_SLH_DSA_SHAKE_128S_WITH_SHAKE128, CRYPT_HASH_SLH_DSA_SHAKE_128F_WITH_SHAKE128, CRYPT_HASH_SLH_DSA_SHAKE_192S_WITH_SHAKE256, CRYPT_HASH_SLH_DSA_SHAKE_192F_WITH_SHAKE256, CRYPT_HASH_SLH_DSA_SHAKE_256S_WITH_SHAKE256, CRYPT_HASH_SLH_DSA_SHAKE_256F_WITH_SHAKE256, CRYPT_HASH_SLH_DSA_SHA2_128S_WITH_SHA256, CRYPT_HASH_SLH_DSA_SHA2_128F_WITH_SHA256, CRYPT_HASH_SLH_DSA_SHA2_192S_WITH_SHA512, CRYPT_HASH_SLH_DSA_SHA2_192F_WITH_SHA512, CRYPT_HASH_SLH_DSA_SHA2_256S_WITH_SHA512, CRYPT_HASH_SLH_DSA_SHA2_256F_WITH_SHA512}};
    seedRand(g); setScript({}); bool small = g.chance(1, thorough() ? 3 : 15); int pi = (int)g.draw(5); if (!small) pi |= 1; else pi &= 6; if (small && !thorough()) pi = pi / 6 * 6; pi = pi > 11 ? 1 : pi; if (g.boolean()) pi = (pi + 6) % 12; bool fixed = g.chance(1, 3); const slh::Par &p = P[(size_t)pi]; int32_t id = ids[fixed][pi]; size_t n = p.n; Bytes seed = g.bytes(n), prf = g.bytes(n), ps = g.bytes(n); slh::Ctx c{p, ps, seed}; Bytes root = c.root(); g.label(std::string(p.name) + std::to_string(8 * n) + (p.hp > 4 ? "s" : "f"));
    PkeyCtx k(nk(g, CRYPT_PKEY_SLH_DSA, id)), v(nk(g, CRYPT_PKEY_SLH_DSA, id)); const int32_t S = CRYPT_PARAM_SLH_DSA_PRV_SEED, F = CRYPT_PARAM_SLH_DSA_PRV_PRF, A = CRYPT_PARAM_SLH_DSA_PUB_SEED, R = CRYPT_PARAM_SLH_DSA_PUB_ROOT;
    if (g.boolean()) { setScript(cat(cat(seed, prf), ps)); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "slh-gen"); setScript({}); KV o = getP(k, true, {{S, n}, {F, n}, {A, n}, {R, n}}); CHECK(o[0].second == seed && o[1].second == prf && o[2].second == ps, "slh-key-parts", "generated key parts are not the random bytes"); CHECK(o[3].second == root, "slh-root", "%s-%zu public root differs from FIPS 205", p.name, 8 * n); } else REQUIRE_OK(setP(k, true, {{S, seed}, {F, prf}, {A, ps}, {R, root}}), "slh-setprv");
    if (!small && g.chance(1, 6)) { REQUIRE_OK(CRYPT_EAL_PkeyPrvCheck(k), "slh-prvcheck"); } if (g.chance(1, 6)) { Bytes b = root; if (g.boolean()) b.push_back(0); else b.pop_back(); CHECK(setP(v, false, {{A, ps}, {R, b}}), "slh-pub-len", "public root of %zu bytes accepted", b.size()); } REQUIRE_OK(setP(v, false, {{A, ps}, {R, root}}), "slh-setpub"); dup(g, k); dup(g, v); g.nontrivial();
    static const int FIXED[6] = {3, 3, 4, 4, 4, 4}; bool pre = fixed || g.chance(1, 3); const PH *h = !pre ? nullptr : fixed ? &PHS[p.sha2 ? (n == 16 ? 0 : 1) : FIXED[pi % 6]] : &PHS[g.draw(7)]; bool det = g.boolean(); Bytes ctx = ctxGen(g), m = g.bytes(g.len(0, 300)), opt = det ? ps : g.bytes(n); int32_t md = h ? h->id : CRYPT_MD_MAX; g.label(h ? (fixed ? "fixed-prehash" : "prehash") : "pure");
    for (auto x : {(CRYPT_EAL_PkeyCtx *)k, (CRYPT_EAL_PkeyCtx *)v}) { setCtx(g, x, ctx); if (h && !fixed) ci(x, CRYPT_CTRL_SET_PREHASH_MODE, 1); } ci(k, CRYPT_CTRL_SET_DETERMINISTIC_FLAG, det); if (fixed) { Bytes t; CHECK(sign(k, md == CRYPT_MD_SHA512 ? CRYPT_MD_SHA256 : CRYPT_MD_SHA512, m, p.sig, t), "slh-fixed-hash", "other pre-hash accepted by a fixed profile"); }
    Bytes M = fmt(h, ctx, m), sig; if (!det) setScript(opt); REQUIRE_OK(sign(k, md, m, p.sig, sig), "slh-sign"); setScript({}); CHECK(sig.size() == p.sig, "slh-siglen", "signature of %zu bytes", sig.size()); CHECK(pq::sub(sig, 0, n) == c.prfMsg(prf, opt, M), "slh-R", "randomizer differs from FIPS 205"); CHECK(c.verify(root, M, sig), "slh-sig", "%s-%zu signature does not verify under FIPS 205", p.name, 8 * n); CRYPT_EAL_PkeyCtx *vc = g.chance(1, 4) ? k : v; CHECK(verify(vc, md, m, sig), "slh-verify", "own valid signature rejected");
    for (int i = 0; i < 3; i++) { Bytes s = sig, m2 = m; const char *what; switch (g.weighted({4, 2, 1})) { case 0: { what = "bit"; size_t fo = n, ht = n + n * p.k * (p.a + 1), lo[4] = {0, fo, ht, p.sig - n * (p.len() + p.hp)}, hi[4] = {n, ht, p.sig, p.sig}; size_t r = g.draw(3); flip(g, s, lo[r], hi[r]); break; } case 1: what = "message"; if (m2.size() && g.boolean()) flip(g, m2, 0, m2.size()); else m2.push_back(0); break; default: what = "length"; if (g.boolean()) s.push_back(0); else s.resize(s.size() - (g.boolean() ? 1 : 1 + g.draw(s.size() - 2))); } g.label(std::string("alt-") + what); CHECK(!verify(vc, md, m2, s), "slh-altered", "signature with altered %s accepted", what); }
    if (g.chance(1, 2)) { Bytes c2 = ctx; if (c2.size() && g.boolean()) flip(g, c2, 0, c2.size()); else if (c2.size() < 255) c2.push_back(1); else c2.pop_back(); Exact e(c2); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(vc, CRYPT_CTRL_SET_CTX_INFO, c2.empty() ? nullptr : e.p, (uint32_t)c2.size()), "ctx-ctrl"); CHECK(!verify(vc, md, m, sig), "slh-altered-ctx", "signature accepted under another context"); g.label("alt-context"); } else { Bytes a2 = ps, r2 = root; flip(g, g.boolean() ? a2 : r2, 0, n); PkeyCtx x(nk(g, CRYPT_PKEY_SLH_DSA, id)); REQUIRE_OK(setP(x, false, {{A, a2}, {R, r2}}), "slh-setpub"); setCtx(g, x, ctx); if (h && !fixed) ci(x, CRYPT_CTRL_SET_PREHASH_MODE, 1); CHECK(!verify(x, md, m, sig), "slh-other-key", "signature accepted under an altered key"); g.label("altered-key"); }
}
struct Comp { int32_t id; const char *label; int ml; int trad; int arg; const char *md, *tmd; int32_t mdId; }; // trad: 0 pss 1 p15 2 ec 3 ed
static const Comp CS[] = {{CRYPT_COMPOSITE_MLDSA44_RSA2048_PSS_SHA256, "COMPSIG-MLDSA44-RSA2048-PSS-SHA256", 0, 0, 2048, "SHA256", "SHA256", CRYPT_MD_SHA256}, {CRYPT_COMPOSITE_MLDSA44_RSA2048_PKCS15_SHA256, "COMPSIG-MLDSA44-RSA2048-PKCS15-SHA256", 0, 1, 2048, "SHA256", "SHA256", CRYPT_MD_SHA256}, {CRYPT_COMPOSITE_MLDSA44_ED25519_SHA512, "COMPSIG-MLDSA44-Ed25519-SHA512", 0, 3, 0, "SHA512", "", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA44_ECDSA_P256_SHA256, "COMPSIG-MLDSA44-ECDSA-P256-SHA256", 0, 2, NID_X9_62_prime256v1, "SHA256", "SHA256", CRYPT_MD_SHA256},
    {CRYPT_COMPOSITE_MLDSA65_RSA3072_PSS_SHA512, "COMPSIG-MLDSA65-RSA3072-PSS-SHA512", 1, 0, 3072, "SHA512", "SHA256", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_RSA3072_PKCS15_SHA512, "COMPSIG-MLDSA65-RSA3072-PKCS15-SHA512", 1, 1, 3072, "SHA512", "SHA256", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_RSA4096_PSS_SHA512, "COMPSIG-MLDSA65-RSA4096-PSS-SHA512", 1, 0, 4096, "SHA512", "SHA384", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_RSA4096_PKCS15_SHA512, "COMPSIG-MLDSA65-RSA4096-PKCS15-SHA512", 1, 1, 4096, "SHA512", "SHA384", CRYPT_MD_SHA512},
    {CRYPT_COMPOSITE_MLDSA65_ECDSA_P256_SHA512, "COMPSIG-MLDSA65-ECDSA-P256-SHA512", 1, 2, NID_X9_62_prime256v1, "SHA512", "SHA256", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_ECDSA_P384_SHA512, "COMPSIG-MLDSA65-ECDSA-P384-SHA512", 1, 2, NID_secp384r1, "SHA512", "SHA384", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_ECDSA_BRAINPOOLP256R1_SHA512, "COMPSIG-MLDSA65-ECDSA-BP256-SHA512", 1, 2, NID_brainpoolP256r1, "SHA512", "SHA256", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA65_ED25519_SHA512, "COMPSIG-MLDSA65-Ed25519-SHA512", 1, 3, 0, "SHA512", "", CRYPT_MD_SHA512},
    {CRYPT_COMPOSITE_MLDSA87_ECDSA_P384_SHA512, "COMPSIG-MLDSA87-ECDSA-P384-SHA512", 2, 2, NID_secp384r1, "SHA512", "SHA384", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA87_ECDSA_BRAINPOOLP384R1_SHA512, "COMPSIG-MLDSA87-ECDSA-BP384-SHA512", 2, 2, NID_brainpoolP384r1, "SHA512", "SHA384", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA87_RSA3072_PSS_SHA512, "COMPSIG-MLDSA87-RSA3072-PSS-SHA512", 2, 0, 3072, "SHA512", "SHA256", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA87_RSA4096_PSS_SHA512, "COMPSIG-MLDSA87-RSA4096-PSS-SHA512", 2, 0, 4096, "SHA512", "SHA384", CRYPT_MD_SHA512}, {CRYPT_COMPOSITE_MLDSA87_ECDSA_P521_SHA512, "COMPSIG-MLDSA87-ECDSA-P521-SHA512", 2, 2, NID_secp521r1, "SHA512", "SHA512", CRYPT_MD_SHA512}};
static Bytes rawPub(EVP_PKEY *k, int trad) { uint8_t *p = nullptr; Bytes b; if (trad == 3) { b.resize(32); size_t l = 32; EVP_PKEY_get_raw_public_key(k, b.data(), &l); return b; } int n = i2d_PublicKey(k, &p); b.assign(p, p + n); OPENSSL_free(p); return b; }
static Bytes rawPrv(EVP_PKEY *k, int trad) { uint8_t *p = nullptr; Bytes b; if (trad == 3) { b.resize(32); size_t l = 32; EVP_PKEY_get_raw_private_key(k, b.data(), &l); return b; } if (trad == 2) { EC_KEY *e = EVP_PKEY_get1_EC_KEY(k); EC_KEY_set_enc_flags(e, EC_PKEY_NO_PUBKEY); int n = i2d_ECPrivateKey(e, &p); b.assign(p, p + n); EC_KEY_free(e); OPENSSL_free(p); return b; } int n = i2d_PrivateKey(k, &p); b.assign(p, p + n); OPENSSL_free(p); return b; }
static bool tradOp(const Comp &c, EVP_PKEY *k, bool ver, const Bytes &m, Bytes &sig) { OsslMdCtx x(EVP_MD_CTX_new()); EVP_PKEY_CTX *pc = nullptr; const EVP_MD *md = c.trad == 3 ? nullptr : EVP_get_digestbyname(c.tmd); int r = ver ? EVP_DigestVerifyInit(x, &pc, md, nullptr, k) : EVP_DigestSignInit(x, &pc, md, nullptr, k); if (r != 1) abort(); if (c.trad == 0) { EVP_PKEY_CTX_set_rsa_padding(pc, RSA_PKCS1_PSS_PADDING); EVP_PKEY_CTX_set_rsa_pss_saltlen(pc, c.arg == 4096 ? 48 : 32); EVP_PKEY_CTX_set_rsa_mgf1_md(pc, md); } if (ver) return EVP_DigestVerify(x, sig.data(), sig.size(), m.data(), m.size()) == 1; size_t l = 2000; sig.resize(l); if (EVP_DigestSign(x, sig.data(), &l, m.data(), m.size()) != 1) abort(); sig.resize(l); return true; }
static EVP_PKEY *tradKey(G &g, const Comp &c, int which) { static std::map<std::pair<int, int>, EVP_PKEY *> m; EVP_PKEY *&k = m[{c.trad < 2 ? c.arg : c.trad == 2 ? -c.arg : 0, which}]; if (k) return k; opki::detOssl(1000 + (uint64_t)c.arg * 4 + (uint64_t)which); if (c.trad < 2) k = EVP_RSA_gen((size_t)c.arg); else if (c.trad == 2) k = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", OBJ_nid2sn(c.arg)); else { Bytes s(32, (uint8_t)which); k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, s.data(), 32); } if (!k) abort(); (void)g; return k; }
PBT_TEST(composite, 700, 10000, 0, 200)
{
    namespace D = pq::dsa; seedRand(g); setScript({}); size_t ix = g.draw(16); const Comp &c = CS[ix]; if (c.trad < 2 && c.arg > 2048 && !thorough() && g.chance(3, 4)) discard(); int which = (int)g.draw(1); if (c.trad < 2 && c.arg > 2048) which = 0; EVP_PKEY *tk = tradKey(g, c, which); opki::detOssl(g.draw(UINT64_MAX)); const D::Par &p = D::P[c.ml]; Bytes xi = g.bytes(32), pk, sk; D::keygen(p, xi, pk, sk); Bytes prv = cat(xi, rawPrv(tk, c.trad)), pub = cat(pk, rawPub(tk, c.trad)); g.label(c.label);
    PkeyCtx k(nk(g, CRYPT_PKEY_COMPOSITE, c.id)), v(nk(g, CRYPT_PKEY_COMPOSITE, c.id)); REQUIRE_OK(setP(k, true, {{CRYPT_PARAM_COMPOSITE_PRVKEY, prv}}), "comp-setprv"); if (g.chance(1, 4)) { Bytes b = pub; if (g.boolean()) b.resize(p.pk() - 1 - g.draw(20)); else b.resize(p.pk() + g.draw(3)); CHECK(setP(v, false, {{CRYPT_PARAM_COMPOSITE_PUBKEY, b}}), "comp-short-pub", "public key of %zu bytes accepted", b.size()); PkeyCtx t(nk(g, CRYPT_PKEY_COMPOSITE, c.id)); v.reset(t.release()); } REQUIRE_OK(setP(v, false, {{CRYPT_PARAM_COMPOSITE_PUBKEY, pub}}), "comp-setpub");
    dup(g, v); dup(g, k); CHECK(getP(v, false, {{CRYPT_PARAM_COMPOSITE_PUBKEY, 4000}})[0].second == pub, "comp-pub-roundtrip", "public key changed"); CHECK(getP(k, true, {{CRYPT_PARAM_COMPOSITE_PRVKEY, 6000}})[0].second == prv, "comp-prv-roundtrip", "private key changed, %s: %s vs %s", c.label, hex(getP(k, true, {{CRYPT_PARAM_COMPOSITE_PRVKEY, 6000}})[0].second, 200).c_str(), hex(prv, 200).c_str());
    Bytes ctx = ctxGen(g), m = g.bytes(g.len(0, 200)), lab(c.label, c.label + strlen(c.label)); setCtx(g, k, ctx); setCtx(g, v, ctx); auto enc = [&](const Bytes &cx, const Bytes &msg) { Bytes r; for (const char *q = "CompositeAlgorithmSignatures2025"; *q; q++) r.push_back((uint8_t)*q); pq::app(r, lab); r.push_back((uint8_t)cx.size()); pq::app(r, cx); pq::app(r, osslMd(c.md, msg)); return r; }; Bytes M = enc(ctx, m), mu = D::muOf(pq::shake256(pk, 64), D::fmtPure(lab, M)), sig;
    Bytes rnd = g.bytes(32), tsig; if (g.boolean()) { setScript(rnd); REQUIRE_OK(sign(k, c.mdId, m, 8000, sig), "comp-sign"); setScript({}); CHECK(sig.size() > p.sig(), "comp-siglen", "signature of %zu bytes", sig.size()); tsig = pq::sub(sig, p.sig(), sig.size() - p.sig()); CHECK(pq::sub(sig, 0, p.sig()) == D::signMu(p, sk, mu, rnd), "comp-mldsa-part", "%s: ML-DSA part differs from the model", c.label); CHECK(tradOp(c, tk, true, M, tsig), "comp-trad-part", "%s: classical part does not verify", c.label); g.label("lib-sig"); } else { tradOp(c, tk, false, M, tsig); sig = cat(D::signMu(p, sk, mu, rnd), tsig); g.label("model-sig"); }
    g.nontrivial(); CHECK(verify(v, c.mdId, m, sig), "comp-verify", "%s: valid composite signature rejected", c.label); CHECK(!verify(v, c.mdId == CRYPT_MD_SHA256 ? CRYPT_MD_SHA512 : CRYPT_MD_SHA256, m, sig), "comp-hash", "other hash accepted");
    Bytes s = sig, m2 = m, c2 = ctx; switch (g.draw(6)) { case 0: flip(g, s, 0, p.sig()); break; case 1: flip(g, s, p.sig(), s.size()); break; case 2: if (g.boolean()) s.resize(p.sig() - g.draw(1)); else s.resize(g.draw(s.size() - 1)); break; case 3: { Bytes o = m; o.push_back(1); Bytes t; if (g.boolean()) { tradOp(c, tk, false, enc(ctx, o), t); s = cat(pq::sub(sig, 0, p.sig()), t); } else s = cat(D::signMu(p, sk, D::muOf(pq::shake256(pk, 64), D::fmtPure(lab, enc(ctx, o))), rnd), tsig); g.label("half-other-message"); break; } case 4: m2.push_back(0); break; case 5: { Bytes mu2 = D::muOf(pq::shake256(pk, 64), D::fmtPure(g.boolean() ? Bytes() : ctx, M)); if (ctx == lab) discard(); s = cat(D::signMu(p, sk, mu2, rnd), tsig); break; } default: if (c2.size() < 255) c2.push_back(0); else c2.pop_back(); { Exact e(c2); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(v, CRYPT_CTRL_SET_CTX_INFO, e.p, (uint32_t)c2.size()), "ctx-ctrl"); } }
    CHECK(!verify(v, c.mdId, m2, s), "comp-altered", "%s: altered composite signature accepted", c.label);
    if (g.chance(1, 3)) { bool tr = g.boolean(); Bytes pub2; if (tr) { Comp cc = c; EVP_PKEY *o = c.trad < 2 && c.arg > 2048 ? nullptr : tradKey(g, cc, 1 - which); if (!o) return; pub2 = cat(pk, rawPub(o, c.trad)); } else { Bytes pk2, sk2, x2 = xi; x2[0] ^= 1; D::keygen(p, x2, pk2, sk2); pub2 = cat(pk2, rawPub(tk, c.trad)); } PkeyCtx o(nk(g, CRYPT_PKEY_COMPOSITE, c.id)); REQUIRE_OK(setP(o, false, {{CRYPT_PARAM_COMPOSITE_PUBKEY, pub2}}), "comp-setpub"); setCtx(g, o, ctx); CHECK(!verify(o, c.mdId, m, sig), "comp-other-key", "signature accepted with one half of another key"); g.label("other-key"); }
}
