#include "pqref.hpp"
#include "oec.hpp"
using namespace vh; using namespace oec;
const char *pbt::PROPERTY_RULE =
    "mlkem: keys from generated seeds (GenKey, seed, expanded, both, inconsistent both), encapsulation with generated m, ciphertexts genuine / bit-altered / random / made with other keys / constant, private keys altered per component; keys, ciphertexts and secrets compared bit for bit with an own FIPS 203 model incl. the rejection value; "
    "encapsulation keys with coefficients q..4095 and wrong lengths. frodo: the same with an own FrodoKEM/eFrodoKEM model for all 12 parameter sets. mceliece: ciphertexts built by the harness from weight t-2..t+1 vectors and the public matrix, own H(1,e,C) / H(0,s,C) model. hybrid: all 12 combinations against the ML-KEM model and OpenSSL ECDH/X25519. "
    "Non-trivial: a library output was compared with a model value.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"own FIPS 203 / FrodoKEM models (harness/pqref.hpp) are correct", "OpenSSL SHAKE, AES, ECDH, X25519 are correct", "Classic McEliece public keys are not recomputed from the seed; their consistency with the private key is established by decapsulating model ciphertexts"};
void pbt::setup() { useScrRand(); }
static CRYPT_EAL_PkeyCtx *nk(G &g, CRYPT_PKEY_AlgId id, int32_t para) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(id) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, id, 0, "provider=default"); CHECK(k, "new", "no context for %d", id); REQUIRE_OK(CRYPT_EAL_PkeySetParaById(k, (CRYPT_PKEY_ParaId)para), "setpara"); return k; }
static void dup(G &g, PkeyCtx &k) { if (g.chance(1, 5)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "dup", "PkeyDupCtx failed"); k.reset(d); g.label("dup"); } }
static int32_t setP(CRYPT_EAL_PkeyCtx *k, bool prv, int32_t key, const Bytes &v, int32_t key2 = 0, const Bytes &v2 = Bytes()) { Exact a(v), b(v2); BSL_Param p[3] = {{key, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)a.n, 0}, BSL_PARAM_END, BSL_PARAM_END}; if (key2) p[1] = {key2, BSL_PARAM_TYPE_OCTETS, b.p, (uint32_t)b.n, 0}; return prv ? CRYPT_EAL_PkeySetPrvEx(k, p) : CRYPT_EAL_PkeySetPubEx(k, p); }
static Bytes getP(CRYPT_EAL_PkeyCtx *k, bool prv, int32_t key, size_t n) { Exact a(n); BSL_Param p[2] = {{key, BSL_PARAM_TYPE_OCTETS, a.p, (uint32_t)a.n, 0}, BSL_PARAM_END}; int32_t r = prv ? CRYPT_EAL_PkeyGetPrvEx(k, p) : CRYPT_EAL_PkeyGetPubEx(k, p); CHECK(!r && p[0].useLen == n, "get-key", "get %s: %s, %u of %zu bytes", prv ? "prv" : "pub", rc(r).c_str(), p[0].useLen, n); return a.vec(); }
static uint32_t ctl(CRYPT_EAL_PkeyCtx *k, int32_t c) { uint32_t v = 0; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(k, c, &v, sizeof v), "len-ctrl"); return v; }
static int32_t encaps(G &g, CRYPT_EAL_PkeyCtx *k, size_t cl, size_t sl, Bytes &ct, Bytes &ss) { if (g.boolean()) REQUIRE_OK(CRYPT_EAL_PkeyEncapsInit(k, nullptr), "encapsinit"); size_t extra = g.chance(1, 4) ? g.draw(9) : 0; Exact c(cl + extra), s(sl + extra); uint32_t a = (uint32_t)c.n, b = (uint32_t)s.n; int32_t r = CRYPT_EAL_PkeyEncaps(k, c.p, &a, s.p, &b); if (!r) { CHECK(a == cl && b == sl, "encaps-len", "Encaps gave lengths %u/%u, expected %zu/%zu", a, b, cl, sl); ct = Bytes(c.p, c.p + a); ss = Bytes(s.p, s.p + b); } return r; }
static int32_t decaps(G &g, CRYPT_EAL_PkeyCtx *k, const Bytes &ct, size_t sl, Bytes &ss) { if (g.boolean()) REQUIRE_OK(CRYPT_EAL_PkeyDecapsInit(k, nullptr), "decapsinit"); Exact c(ct), s(sl); uint32_t b = (uint32_t)s.n; int32_t r = CRYPT_EAL_PkeyDecaps(k, c.p, (uint32_t)c.n, s.p, &b); if (!r) { CHECK(b == sl, "decaps-len", "Decaps gave %u bytes", b); ss = s.vec(); } return r; }
static void lens(G &g, CRYPT_EAL_PkeyCtx *k, bool dec, const Bytes &ct, size_t sl)
{ // wrong lengths and short buffers are refused
    if (dec) { Bytes c = ct; if (g.boolean()) c.push_back(0); else c.resize(g.boolean() ? c.size() - 1 : g.draw(c.size() - 1)); Exact in(c), s(sl); uint32_t b = (uint32_t)sl; int32_t r = CRYPT_EAL_PkeyDecaps(k, in.p, (uint32_t)in.n, s.p, &b); CHECK(r, "decaps-wrong-length", "ciphertext of %zu bytes (expected %zu) accepted", c.size(), ct.size()); Exact in2(ct); Exact s2(sl - 1); b = (uint32_t)sl - 1; CHECK(CRYPT_EAL_PkeyDecaps(k, in2.p, (uint32_t)in2.n, s2.p, &b), "decaps-short-buffer", "short secret buffer accepted"); }
    else { bool w = g.boolean(); Exact c(ct.size() - w), s(sl - !w); uint32_t a = (uint32_t)c.n, b = (uint32_t)s.n; CHECK(CRYPT_EAL_PkeyEncaps(k, c.p, &a, s.p, &b), "encaps-short-buffer", "short %s buffer accepted", w ? "ciphertext" : "secret"); }
}
static void alter(G &g, Bytes &b) { Bytes o = b; switch (g.weighted({5, 1, 1, 1})) { case 0: b[g.draw(b.size() - 1)] ^= 1 << g.draw(7); break; case 1: b = g.bytes(b.size()); break; case 2: for (int i = 0, n = 2 + (int)g.draw(30); i < n; i++) b[g.draw(b.size() - 1)] ^= 1 << g.draw(7); break; default: b.assign(b.size(), g.boolean() ? 0xff : 0); } if (b == o) b[0] ^= 1; }

PBT_TEST(mlkem, 5000, 100000)
{
    namespace K = pq::kem; seedRand(g); setScript({}); int ps = (int)g.draw(2); const K::Par &p = K::P[ps]; static const int32_t ids[3] = {CRYPT_KEM_TYPE_MLKEM_512, CRYPT_KEM_TYPE_MLKEM_768, CRYPT_KEM_TYPE_MLKEM_1024};
    Bytes d = g.bytes(32), z = g.bytes(32), ek, dk; K::keygen(p, d, z, ek, dk); Bytes seed = cat(d, z); PkeyCtx k(nk(g, CRYPT_PKEY_ML_KEM, ids[ps])); int src = (int)g.draw(3); bool hasSeed = true;
    CHECK(ctl(k, CRYPT_CTRL_GET_PUBKEY_LEN) == p.ek() && ctl(k, CRYPT_CTRL_GET_PRVKEY_LEN) == p.dk() && ctl(k, CRYPT_CTRL_GET_CIPHERTEXT_LEN) == p.ct() && ctl(k, CRYPT_CTRL_GET_SHARED_KEY_LEN) == 32, "mlkem-lens", "length controls");
    switch (src) {
        case 0: setScript(seed); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "mlkem-gen"); setScript({}); break;
        case 1: REQUIRE_OK(setP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY_SEED, seed), "mlkem-setseed"); break;
        case 2: { Bytes dk2 = dk; bool bad = g.chance(1, 3); if (bad) dk2[g.draw(dk2.size() - 1)] ^= 1 << g.draw(7); int32_t r = setP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY_SEED, seed, CRYPT_PARAM_ML_KEM_PRVKEY, dk2); CHECK((r == 0) == !bad, "mlkem-seed-and-key", "seed with %s expanded key: %s", bad ? "inconsistent" : "consistent", rc(r).c_str()); if (bad) { g.nontrivial(); g.label("inconsistent-key"); REQUIRE_OK(setP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY, dk), "mlkem-set-after-refusal"); hasSeed = false; } break; }
        default: hasSeed = false; if (g.chance(1, 5)) { Bytes bad = dk; if (g.boolean()) bad.push_back(1); else bad.pop_back(); CHECK(setP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY, bad), "mlkem-dk-length", "private key of %zu bytes accepted", bad.size()); } REQUIRE_OK(setP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY, dk), "mlkem-setprv");
    }
    dup(g, k); CHECK(getP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY, p.dk()) == dk, "mlkem-dk", "set %d src %d: decapsulation key differs from FIPS 203, d=%s z=%s", ps, src, hex(d).c_str(), hex(z).c_str()); CHECK(getP(k, false, CRYPT_PARAM_ML_KEM_PUBKEY, p.ek()) == ek, "mlkem-ek", "encapsulation key differs, d=%s", hex(d).c_str());
    if (hasSeed) CHECK(getP(k, true, CRYPT_PARAM_ML_KEM_PRVKEY_SEED, 64) == seed, "mlkem-seed", "seed not returned"); g.label("set" + std::to_string(ps)); g.nontrivial();
    if (g.chance(1, 6)) { int32_t r = CRYPT_EAL_PkeyPrvCheck(k); CHECK(!r, "mlkem-prvcheck", "valid private key: %s", rc(r).c_str()); }
    PkeyCtx e(nk(g, CRYPT_PKEY_ML_KEM, ids[ps]));
    if (g.chance(1, 4)) { // encapsulation-key checks
        Bytes b = ek; bool bad = true; if (g.chance(1, 3)) { if (g.boolean()) b.push_back(0); else b.pop_back(); } else { size_t c = g.draw(256 * (size_t)p.k - 1); uint32_t v = g.boolean() ? 3329 : (uint32_t)g.range(3327, 4095); bad = v >= 3329; size_t o = c / 2 * 3; if (c % 2) { b[o + 1] = (uint8_t)((b[o + 1] & 15) | (v & 15) << 4); b[o + 2] = (uint8_t)(v >> 4); } else { b[o] = (uint8_t)v; b[o + 1] = (uint8_t)((b[o + 1] & 0xf0) | v >> 8); } }
        int32_t r = setP(e, false, CRYPT_PARAM_ML_KEM_PUBKEY, b); CHECK((r == 0) == !bad, "mlkem-ek-check", "%s encapsulation key: %s", bad ? "invalid" : "valid", rc(r).c_str()); g.label(bad ? "bad-ek" : "edge-ek"); if (bad && g.boolean()) REQUIRE_OK(setP(e, false, CRYPT_PARAM_ML_KEM_PUBKEY, ek), "mlkem-ek-after-bad"); else if (bad) { Bytes c, s; CHECK(encaps(g, e, p.ct(), 32, c, s), "mlkem-encaps-after-bad", "Encaps works after a refused key"); return; } else { ek = b; }
    } else REQUIRE_OK(setP(e, false, CRYPT_PARAM_ML_KEM_PUBKEY, ek), "mlkem-setpub");
    dup(g, e); bool self = g.chance(1, 3); CRYPT_EAL_PkeyCtx *ec = self ? (CRYPT_EAL_PkeyCtx *)k : e; Bytes eek = self ? getP(k, false, CRYPT_PARAM_ML_KEM_PUBKEY, p.ek()) : ek;
    for (int rep = 0, n = 1 + (int)g.draw(2); rep < n; rep++) {
        Bytes m = g.bytes(32), ct, ss, wc, wk; K::encaps(p, eek, m, wc, wk); if (g.chance(1, 8)) lens(g, ec, false, wc, 32); setScript(m); REQUIRE_OK(encaps(g, ec, p.ct(), 32, ct, ss), "mlkem-encaps"); setScript({}); CHECK(ct == wc, "mlkem-ct", "set %d ciphertext differs from FIPS 203 for d=%s m=%s", ps, hex(d).c_str(), hex(m).c_str()); CHECK(ss == wk, "mlkem-K", "encapsulated secret differs");
        int mode = (int)g.weighted({3, 4, 1, 1}); Bytes dkx = dk; PkeyCtx alt; CRYPT_EAL_PkeyCtx *dc = k; if (mode == 1) alter(g, ct); else if (mode == 2) { // private key with an altered component
            size_t kk = (size_t)p.k, part = g.draw(3), lo = part == 0 ? 0 : part == 1 ? 384 * kk : part == 2 ? 768 * kk + 32 : 768 * kk + 64, hi = part == 0 ? 384 * kk : part == 1 ? 768 * kk + 32 : part == 2 ? 768 * kk + 64 : 768 * kk + 96; dkx[g.range(lo, hi - 1)] ^= 1 << g.draw(7); bool over = false; for (size_t i = 0; i < 256 * kk; i++) { Poly: pq::Poly f; (void)f; break; } for (size_t i = 0; i < kk; i++) for (auto v : K::dec(dkx.data() + 384 * i, 12)) if (v >= 3329) over = true; for (size_t i = 0; i < kk; i++) for (auto v : K::dec(dkx.data() + 384 * kk + 384 * i, 12)) if (v >= 3329) over = true;
            alt.reset(nk(g, CRYPT_PKEY_ML_KEM, ids[ps])); int32_t r = setP(alt, true, CRYPT_PARAM_ML_KEM_PRVKEY, dkx); Bytes s2; bool hashBad = pq::sha3_256(pq::sub(dkx, 384 * kk, 384 * kk + 32)) != pq::sub(dkx, 768 * kk + 32, 32); if (!r) r = decaps(g, alt, ct, 32, s2); g.label("bad-dk"); if (hashBad) { CHECK(r, "mlkem-dk-hash", "a decapsulation key whose H(ek) does not match was used"); continue; } if (over) { if (r) continue; CHECK(false, "mlkem-dk-overflow", "private key with coefficient >= q used"); } CHECK(!r && s2 == K::decaps(p, dkx, ct), "mlkem-altered-dk", "decapsulation with altered private key part %zu differs from the model (%s)", part, rc(r).c_str()); continue; }
        else if (mode == 3) { ct = wc; alter(g, ct); ct[0] ^= 0; }
        bool rej = false; Bytes want = K::decaps(p, dkx, ct, &rej), got; if (g.chance(1, 8)) lens(g, dc, true, ct, 32); REQUIRE_OK(decaps(g, dc, ct, 32, got), "mlkem-decaps"); CHECK(got == want, rej ? "mlkem-reject-value" : "mlkem-decaps-value", "set %d: decapsulated secret differs from FIPS 203 (%s), d=%s z=%s ct=%s", ps, rej ? "implicit rejection" : "accepted", hex(d).c_str(), hex(z).c_str(), hex(ct, 40).c_str()); if (rej) CHECK(got != ss, "mlkem-reject-same", "rejection returned the original secret"); g.label(rej ? "rejected" : "decapsulated");
    }
}
PBT_TEST(frodo, 150, 4000, 0, 120)
{
    namespace F = pq::frodo; seedRand(g); setScript({}); int idx = (int)g.draw(11), size = g.chance(2, 3) ? 0 : idx % 3; bool aes = idx / 3 % 2, eph = idx / 6; F::Par p = F::par(size, aes, eph); static const int32_t ids[12] = {CRYPT_KEM_TYPE_FRODOKEM_640_SHAKE, CRYPT_KEM_TYPE_FRODOKEM_976_SHAKE, CRYPT_KEM_TYPE_FRODOKEM_1344_SHAKE, CRYPT_KEM_TYPE_FRODOKEM_640_AES, CRYPT_KEM_TYPE_FRODOKEM_976_AES, CRYPT_KEM_TYPE_FRODOKEM_1344_AES, CRYPT_KEM_TYPE_EFRODOKEM_640_SHAKE, CRYPT_KEM_TYPE_EFRODOKEM_976_SHAKE, CRYPT_KEM_TYPE_EFRODOKEM_1344_SHAKE, CRYPT_KEM_TYPE_EFRODOKEM_640_AES, CRYPT_KEM_TYPE_EFRODOKEM_976_AES, CRYPT_KEM_TYPE_EFRODOKEM_1344_AES}; int32_t id = ids[(eph ? 6 : 0) + (aes ? 3 : 0) + size];
    Bytes s = g.bytes(p.ss()), se = g.bytes(p.seSE()), z = g.bytes(16), pk, sk; F::keygen(p, s, se, z, pk, sk); PkeyCtx k(nk(g, CRYPT_PKEY_FRODOKEM, id)); g.label(std::string(eph ? "e" : "") + std::to_string(p.n) + (aes ? "aes" : "shake"));
    if (g.boolean()) { setScript(cat(cat(s, se), z)); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "frodo-gen"); setScript({}); CHECK(getP(k, true, CRYPT_PARAM_FRODOKEM_PRVKEY, p.sk()) == sk, "frodo-sk", "%d: private key differs from the model", idx); CHECK(getP(k, false, CRYPT_PARAM_FRODOKEM_PUBKEY, p.pk()) == pk, "frodo-pk", "public key differs"); } else { Bytes bad = sk; if (g.chance(1, 4)) { bad[g.range(p.ss(), p.ss() + p.pk() - 1)] ^= 1 << g.draw(7); CHECK(setP(k, true, CRYPT_PARAM_FRODOKEM_PRVKEY, bad), "frodo-sk-hash", "private key with inconsistent public key accepted"); } REQUIRE_OK(setP(k, true, CRYPT_PARAM_FRODOKEM_PRVKEY, sk), "frodo-setprv"); }
    g.nontrivial(); dup(g, k); PkeyCtx e(nk(g, CRYPT_PKEY_FRODOKEM, id)); REQUIRE_OK(setP(e, false, CRYPT_PARAM_FRODOKEM_PUBKEY, pk), "frodo-setpub"); dup(g, e); Bytes mu = g.bytes(p.ss()), salt = g.bytes(p.salt()), wc, wk, ct, ss; F::encaps(p, pk, mu, salt, wc, wk); setScript(cat(mu, salt)); REQUIRE_OK(encaps(g, e, p.ct(), p.ss(), ct, ss), "frodo-encaps"); setScript({}); CHECK(ct == wc, "frodo-ct", "%d: ciphertext differs from the model", idx); CHECK(ss == wk, "frodo-ss", "secret differs");
    if (g.chance(1, 3)) lens(g, e, false, ct, p.ss()); if (g.chance(1, 3)) lens(g, k, true, ct, p.ss()); Bytes got; for (int i = 0; i < 2; i++) { if (i) { if (p.salt() && g.chance(1, 3)) ct[ct.size() - 1 - g.draw(p.salt() - 1)] ^= 1 << g.draw(7); else alter(g, ct); } bool rej = false; Bytes want = i ? F::decaps(p, sk, ct, &rej) : wk; REQUIRE_OK(decaps(g, k, ct, p.ss(), got), "frodo-decaps"); CHECK(got == want, i ? "frodo-reject-value" : "frodo-decaps-value", "%d: decapsulated secret differs (rejected %d)", idx, rej); if (i) { CHECK(got != wk, "frodo-altered-same", "altered ciphertext gave the same secret"); g.label(rej ? "rejected" : "accepted-other"); } }
}
PBT_TEST(hybrid, 1600, 20000)
{
    namespace K = pq::kem; seedRand(g); setScript({}); int ci = (int)g.draw(3), ps = (int)g.draw(2); const K::Par &p = K::P[ps]; static const int32_t ids[4][3] = {{CRYPT_HYBRID_X25519_MLKEM512, CRYPT_HYBRID_X25519_MLKEM768, CRYPT_HYBRID_X25519_MLKEM1024}, {CRYPT_HYBRID_ECDH_NISTP256_MLKEM512, CRYPT_HYBRID_ECDH_NISTP256_MLKEM768, CRYPT_HYBRID_ECDH_NISTP256_MLKEM1024}, {CRYPT_HYBRID_ECDH_NISTP384_MLKEM512, CRYPT_HYBRID_ECDH_NISTP384_MLKEM768, CRYPT_HYBRID_ECDH_NISTP384_MLKEM1024}, {CRYPT_HYBRID_ECDH_NISTP521_MLKEM512, CRYPT_HYBRID_ECDH_NISTP521_MLKEM768, CRYPT_HYBRID_ECDH_NISTP521_MLKEM1024}};
    const int nid[4] = {0, NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1}; size_t pl = ci ? (ci == 1 ? 65u : ci == 2 ? 97u : 133u) : 32u, sl = ci ? (ci == 1 ? 32u : ci == 2 ? 48u : 66u) : 32u; bool pqFirst = ci == 0; auto join = [&](const Bytes &ec, const Bytes &pq) { return pqFirst ? cat(pq, ec) : cat(ec, pq); }; auto split = [&](const Bytes &b, size_t el, Bytes &ec, Bytes &pqp) { size_t ql = b.size() - el; if (pqFirst) { pqp = pq::sub(b, 0, ql); ec = pq::sub(b, ql, el); } else { ec = pq::sub(b, 0, el); pqp = pq::sub(b, el, ql); } };
    g.label("c" + std::to_string(ci) + "p" + std::to_string(ps)); PkeyCtx k(nk(g, CRYPT_PKEY_HYBRID_KEM, ids[ci][ps])); REQUIRE_OK(CRYPT_EAL_PkeyGen(k), "hybrid-gen"); CHECK(ctl(k, CRYPT_CTRL_GET_PUBKEY_LEN) == pl + p.ek() && ctl(k, CRYPT_CTRL_GET_PRVKEY_LEN) == sl + p.dk() && ctl(k, CRYPT_CTRL_GET_CIPHERTEXT_LEN) == pl + p.ct() && ctl(k, CRYPT_CTRL_GET_SHARED_KEY_LEN) == sl + 32, "hybrid-lens", "length controls for %d/%d", ci, ps);
    Bytes pub = getP(k, false, CRYPT_PARAM_HYBRID_PUBKEY, pl + p.ek()), prv = getP(k, true, CRYPT_PARAM_HYBRID_PRVKEY, sl + p.dk()), eP, qP, eS, qS; split(pub, pl, eP, qP); split(prv, sl, eS, qS); CHECK(pq::sub(qS, 384u * (size_t)p.k, p.ek()) == qP, "hybrid-mlkem-pair", "ML-KEM halves do not belong together");
    auto ecPub = [&](const Bytes &s) -> Bytes { if (!ci) { OsslKey o(EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, s.data(), 32)); Bytes r(32); size_t l = 32; EVP_PKEY_get_raw_public_key(o, r.data(), &l); return r; } const Curve *c = nullptr; for (auto &x : curves()) if (EC_GROUP_get_curve_name(x.grp) == nid[ci]) c = &x; return mul(*c, N(s)).enc(); };
    auto ecdh = [&](const Bytes &s, const Bytes &pb, Bytes &out) -> bool { if (!ci) { OsslKey a(EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, s.data(), 32)), b(EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pb.data(), 32)); OsslPkeyCtx x(EVP_PKEY_CTX_new(a, nullptr)); size_t l = 32; out.resize(32); return EVP_PKEY_derive_init(x) == 1 && EVP_PKEY_derive_set_peer(x, b) == 1 && EVP_PKEY_derive(x, out.data(), &l) == 1; } const Curve *c = nullptr; for (auto &x : curves()) if (EC_GROUP_get_curve_name(x.grp) == nid[ci]) c = &x; Pt P(*c); if (!P.dec(pb) || P.inf()) return false; N sc(s); Pt R = mul(*c, N(0), &P, &sc); if (R.inf()) return false; out = R.x().bin(sl); return true; };
    CHECK(ecPub(eS) == eP, "hybrid-ec-pair", "classical halves do not belong together"); PkeyCtx e(nk(g, CRYPT_PKEY_HYBRID_KEM, ids[ci][ps])); REQUIRE_OK(setP(e, false, CRYPT_PARAM_HYBRID_PUBKEY, pub), "hybrid-setpub"); PkeyCtx k2(nk(g, CRYPT_PKEY_HYBRID_KEM, ids[ci][ps])); CRYPT_EAL_PkeyCtx *dc = k; if (g.boolean()) { REQUIRE_OK(setP(k2, true, CRYPT_PARAM_HYBRID_PRVKEY, prv), "hybrid-setprv"); dc = k2; } g.nontrivial();
    Bytes ct, ss, ce, cq, we; if (g.boolean()) { REQUIRE_OK(encaps(g, e, pl + p.ct(), sl + 32, ct, ss), "hybrid-encaps"); split(ct, pl, ce, cq); CHECK(ecdh(eS, ce, we), "hybrid-encaps-point", "classical share is not valid"); CHECK(ss == join(we, K::decaps(p, qS, cq)), "hybrid-encaps-secret", "secret is not the two components' secrets in order"); }
    else { Bytes m = g.bytes(32), K1, es = ci ? scalar(g, N(1) << (ci == 1 ? 255 : ci == 2 ? 383 : 520)).bin(sl) : g.bytes(32); K::encaps(p, qP, m, cq, K1); ce = ecPub(es); if (!ecdh(eS, ce, we)) discard(); ct = join(ce, cq); ss = join(we, K1); }
    Bytes got; REQUIRE_OK(decaps(g, dc, ct, sl + 32, got), "hybrid-decaps"); CHECK(got == ss, "hybrid-decaps-value", "decapsulated secret differs (%d/%d)", ci, ps); Bytes alt = ct; if (g.boolean()) alt[g.draw(alt.size() - 1)] ^= 1 << g.draw(7); else { split(alt, pl, ce, cq); if (g.boolean()) alter(g, ce); else alter(g, cq); alt = join(ce, cq); }
    split(alt, pl, ce, cq); bool okE = ecdh(eS, ce, we); int32_t r = decaps(g, dc, alt, sl + 32, got); if (!okE) { CHECK(r, "hybrid-bad-point", "invalid classical share accepted: %s", hex(ce).c_str()); g.label("bad-point"); } else { CHECK(!r, "hybrid-altered", "well-formed altered ciphertext: %s", rc(r).c_str()); CHECK(got == join(we, K::decaps(p, qS, cq)), "hybrid-altered-value", "altered ciphertext: secret differs from the model"); if (cq != (pqFirst ? pq::sub(ct, 0, cq.size()) : pq::sub(ct, pl, cq.size()))) CHECK(got != ss, "hybrid-altered-same", "altered ML-KEM part gave the original secret"); }
    if (g.chance(1, 4)) lens(g, dc, true, ct, sl + 32); if (g.chance(1, 4)) { Bytes b = pub; if (g.boolean()) b.pop_back(); else b.resize(pl); PkeyCtx x(nk(g, CRYPT_PKEY_HYBRID_KEM, ids[ci][ps])); CHECK(setP(x, false, CRYPT_PARAM_HYBRID_PUBKEY, b), "hybrid-short-pub", "short public key accepted"); }
}
// ---- Classic McEliece: one key per parameter set and worker (generation is slow), many ciphertexts
struct Mce { Bytes pk, sk; };
PBT_TEST(mceliece, 12, 2000, 0, 300)
{
    static const struct { int32_t id; int n, t; bool pc, f; } S[] = {{CRYPT_KEM_TYPE_MCELIECE_6688128_F, 6688, 128, false, true}, {CRYPT_KEM_TYPE_MCELIECE_6960119_PCF, 6960, 119, true, true}, {CRYPT_KEM_TYPE_MCELIECE_8192128_F, 8192, 128, false, true}, {CRYPT_KEM_TYPE_MCELIECE_6960119_F, 6960, 119, false, true}, {CRYPT_KEM_TYPE_MCELIECE_6688128_PCF, 6688, 128, true, true}, {CRYPT_KEM_TYPE_MCELIECE_8192128_PCF, 8192, 128, true, true},
        {CRYPT_KEM_TYPE_MCELIECE_6688128, 6688, 128, false, false}, {CRYPT_KEM_TYPE_MCELIECE_6960119, 6960, 119, false, false}, {CRYPT_KEM_TYPE_MCELIECE_8192128, 8192, 128, false, false}, {CRYPT_KEM_TYPE_MCELIECE_6688128_PC, 6688, 128, true, false}, {CRYPT_KEM_TYPE_MCELIECE_6960119_PC, 6960, 119, true, false}, {CRYPT_KEM_TYPE_MCELIECE_8192128_PC, 8192, 128, true, false}};
    seedRand(g); setScript({}); auto &s = S[g.draw(thorough() ? 11 : 3)]; size_t mt = 13u * (size_t)s.t, mtB = (mt + 7) / 8, nB = ((size_t)s.n + 7) / 8, kB = ((size_t)s.n - mt + 7) / 8, cl = mtB + (s.pc ? 32 : 0); PkeyCtx k(nk(g, CRYPT_PKEY_MCELIECE, s.id)); size_t skl = ctl(k, CRYPT_CTRL_GET_PRVKEY_LEN), pkl = ctl(k, CRYPT_CTRL_GET_PUBKEY_LEN); CHECK(pkl == mt * kB && ctl(k, CRYPT_CTRL_GET_CIPHERTEXT_LEN) == cl, "mce-lens", "length controls %zu %zu", pkl, skl);
    // two keys per parameter set and process, made from fixed seeds (generation takes seconds), imported afterwards
    static std::map<std::pair<int32_t, int>, Mce> cache; Mce &kc = cache[{s.id, thorough() ? (int)g.draw(7) : 0}]; if (kc.pk.empty()) { caseRandSeed(77 + (uint64_t)s.id * 13); PkeyCtx t(CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_MCELIECE)); REQUIRE_OK(CRYPT_EAL_PkeySetParaById(t, (CRYPT_PKEY_ParaId)s.id), "setpara"); REQUIRE_OK(CRYPT_EAL_PkeyGen(t), "mce-gen"); kc.pk = getP(t, false, CRYPT_PARAM_MCELIECE_PUBKEY, pkl); kc.sk = getP(t, true, CRYPT_PARAM_MCELIECE_PRVKEY, skl); seedRand(g); }
    REQUIRE_OK(setP(k, true, CRYPT_PARAM_MCELIECE_PRVKEY, kc.sk), "mce-setprv"); Bytes pk = kc.pk, sk = getP(k, true, CRYPT_PARAM_MCELIECE_PRVKEY, skl), sBits(sk.end() - (long)nB, sk.end()); g.label(std::to_string(s.n) + (s.pc ? "pc" : "") + (s.f ? "f" : ""));
    PkeyCtx d(nk(g, CRYPT_PKEY_MCELIECE, s.id)), e(nk(g, CRYPT_PKEY_MCELIECE, s.id)); CRYPT_EAL_PkeyCtx *dc = k; if (g.boolean()) { REQUIRE_OK(setP(d, true, CRYPT_PARAM_MCELIECE_PRVKEY, sk), "mce-setprv"); CHECK(getP(d, true, CRYPT_PARAM_MCELIECE_PRVKEY, skl) == sk, "mce-prv-roundtrip", "private key changed by import"); dc = d; } REQUIRE_OK(setP(e, false, CRYPT_PARAM_MCELIECE_PUBKEY, pk), "mce-setpub"); CHECK(getP(e, false, CRYPT_PARAM_MCELIECE_PUBKEY, pkl) == pk, "mce-pub-roundtrip", "public key changed by import");
    auto H = [](uint8_t p, const Bytes &a, const Bytes &b) { return osslMd("SHAKE256", cat(cat(Bytes{p}, a), b), 32); }; auto enc = [&](const Bytes &v) { Bytes c(mtB, 0); Bytes sh(kB, 0); for (size_t i = mt; i < (size_t)s.n; i++) if (v[i / 8] >> (i % 8) & 1) sh[(i - mt) / 8] |= (uint8_t)(1 << ((i - mt) % 8)); for (size_t r = 0; r < mt; r++) { int b = v[r / 8] >> (r % 8) & 1; for (size_t j = 0; j < kB; j++) b ^= __builtin_popcount((unsigned)(pk[r * kB + j] & sh[j])) & 1; c[r / 8] |= (uint8_t)(b << (r % 8)); } return c; };
    Bytes ct, ss, got; REQUIRE_OK(encaps(g, e, cl, 32, ct, ss), "mce-encaps"); REQUIRE_OK(decaps(g, dc, ct, 32, got), "mce-decaps"); CHECK(got == ss, "mce-roundtrip", "decapsulated secret differs"); g.nontrivial();
    for (int rep = 0, nr = 2; rep < nr; rep++) { int w = s.t + (g.chance(1, 2) ? 0 : (int)g.draw(4) - 3); Bytes v(nB, 0); for (int c = 0; c < w;) { size_t i = g.chance(1, 10) ? g.pick<size_t>({0, mt - 1, mt, (size_t)s.n - 1}) : g.draw((uint64_t)s.n - 1); uint8_t b = (uint8_t)(1 << (i % 8)); if (v[i / 8] & b) { if (g.pos > 5000) i = (i + 1) % (size_t)s.n; continue; } v[i / 8] |= b; c++; } Bytes c0 = enc(v), c = s.pc ? cat(c0, osslMd("SHAKE256", cat(Bytes{2}, v), 32)) : c0; bool good = w == s.t; if (good && g.chance(1, 4)) { alter(g, c); good = false; } REQUIRE_OK(decaps(g, dc, c, 32, got), "mce-decaps"); Bytes want = good ? H(1, v, c) : H(0, sBits, c); if (!good && w != s.t && w < s.t) CHECK(got == want, "mce-reject-value", "weight %d ciphertext: secret differs from H(0,s,C)", w); else if (good) CHECK(got == want, "mce-decaps-value", "weight-t ciphertext: secret differs from H(1,e,C)"); else CHECK(got != H(1, v, c) || w != s.t, "mce-altered", "altered ciphertext accepted with the original vector"); CHECK(got != ss, "mce-other-same", "different ciphertext gave the first secret"); g.label(good ? "model-ct" : "reject"); }
    Bytes a = ct; alter(g, a); REQUIRE_OK(decaps(g, dc, a, 32, got), "mce-decaps"); CHECK(got != ss, "mce-altered-same", "altered ciphertext gave the original secret"); Bytes g2; REQUIRE_OK(decaps(g, dc, a, 32, g2), "mce-decaps"); CHECK(got == g2, "mce-reject-determinism", "two decapsulations of one ciphertext differ"); if (!(s.n == 6960)) { Bytes rj = H(0, sBits, a); (void)rj; } if (g.chance(1, 2)) lens(g, dc, true, ct, 32); if (g.chance(1, 2)) lens(g, e, false, ct, 32);
}
