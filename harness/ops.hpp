// A table of randomised/allocating public-key operations with their success oracle, shared by the fault-injection,
// zeroisation and concurrency harnesses.
#pragma once
#include "oec.hpp"
#include "ffparams.hpp"
#include "rsakeys.hpp"
extern "C" {
#include "crypt_eal_codecs.h"
#include "crypt_eal_hpke.h"
}
namespace ops {
using namespace oec;
enum { SIGN = 1, CRYPT = 2, KEM = 4, EXCH = 8, GEN = 16, SLOW = 32 };
struct Row { const char *name; CRYPT_PKEY_AlgId id; int32_t para; int caps; int md; int special; };
enum { S_NONE, S_RSA_PSS, S_RSA_15, S_RSA_OAEP, S_RSA_C15, S_DSA, S_DH, S_PAILLIER };
inline const std::vector<Row> &rows()
{
    static const std::vector<Row> v = {
        {"ecdsa-p256", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP256, SIGN | GEN, CRYPT_MD_SHA256, 0}, {"ecdsa-p384", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP384, SIGN | GEN, CRYPT_MD_SHA384, 0},
        {"ecdsa-p521", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP521, SIGN | GEN, CRYPT_MD_SHA512, 0}, {"ecdsa-p224", CRYPT_PKEY_ECDSA, CRYPT_ECC_NISTP224, SIGN | GEN, CRYPT_MD_SHA256, 0}, {"ecdsa-bp256", CRYPT_PKEY_ECDSA, CRYPT_ECC_BRAINPOOLP256R1, SIGN | GEN, CRYPT_MD_SHA256, 0},
        {"ecdh-p256", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP256, EXCH | GEN, 0, 0}, {"ecdh-p521", CRYPT_PKEY_ECDH, CRYPT_ECC_NISTP521, EXCH | GEN, 0, 0}, {"ecdh-bp384", CRYPT_PKEY_ECDH, CRYPT_ECC_BRAINPOOLP384R1, EXCH | GEN, 0, 0},
        {"sm2", CRYPT_PKEY_SM2, -1, SIGN | CRYPT | GEN, CRYPT_MD_SM3, 0}, {"ed25519", CRYPT_PKEY_ED25519, -1, SIGN | GEN, CRYPT_MD_SHA512, 0}, {"x25519", CRYPT_PKEY_X25519, -1, EXCH | GEN, 0, 0},
        {"rsa-pss", CRYPT_PKEY_RSA, -1, SIGN, CRYPT_MD_SHA256, S_RSA_PSS}, {"rsa-15", CRYPT_PKEY_RSA, -1, SIGN, CRYPT_MD_SHA256, S_RSA_15}, {"rsa-oaep", CRYPT_PKEY_RSA, -1, CRYPT, 0, S_RSA_OAEP}, {"rsa-c15", CRYPT_PKEY_RSA, -1, CRYPT, 0, S_RSA_C15},
        {"rsa-gen", CRYPT_PKEY_RSA, -2, GEN, 0, S_RSA_15},
        {"dsa", CRYPT_PKEY_DSA, -1, SIGN | GEN, CRYPT_MD_SHA256, S_DSA}, {"dh", CRYPT_PKEY_DH, CRYPT_DH_RFC7919_2048, EXCH | GEN, 0, 0}, {"paillier", CRYPT_PKEY_PAILLIER, -1, CRYPT | GEN, 0, S_PAILLIER},
        {"mlkem512", CRYPT_PKEY_ML_KEM, CRYPT_KEM_TYPE_MLKEM_512, KEM | GEN, 0, 0}, {"mlkem768", CRYPT_PKEY_ML_KEM, CRYPT_KEM_TYPE_MLKEM_768, KEM | GEN, 0, 0},
        {"mldsa44", CRYPT_PKEY_ML_DSA, CRYPT_MLDSA_TYPE_MLDSA_44, SIGN | GEN, CRYPT_MD_SHA256, 0}, {"mldsa65", CRYPT_PKEY_ML_DSA, CRYPT_MLDSA_TYPE_MLDSA_65, SIGN | GEN, CRYPT_MD_SHA256, 0},
        {"slhdsa", CRYPT_PKEY_SLH_DSA, CRYPT_SLH_DSA_SHA2_128F, SIGN | GEN | SLOW, CRYPT_MD_SHA256, 0}, {"frodo", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_FRODOKEM_640_AES, KEM | GEN | SLOW, 0, 0}, {"efrodo", CRYPT_PKEY_FRODOKEM, CRYPT_KEM_TYPE_EFRODOKEM_640_SHAKE, KEM | GEN | SLOW, 0, 0},
        {"hybrid-x25519", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_X25519_MLKEM768, KEM | GEN, 0, 0}, {"hybrid-p256", CRYPT_PKEY_HYBRID_KEM, CRYPT_HYBRID_ECDH_NISTP256_MLKEM768, KEM | GEN, 0, 0},
        {"composite-ec", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_ECDSA_P256_SHA256, SIGN | GEN, CRYPT_MD_SHA256, 0}, {"composite-ed", CRYPT_PKEY_COMPOSITE, CRYPT_COMPOSITE_MLDSA44_ED25519_SHA512, SIGN | GEN, CRYPT_MD_SHA512, 0},
        {"mceliece", CRYPT_PKEY_MCELIECE, CRYPT_KEM_TYPE_MCELIECE_6688128_F, KEM | GEN | SLOW, 0, 0},
    };
    return v;
}
inline const char *rsaHex(int i) { return opki::RSA_KEYS[i % 4]; }
inline Bytes unhexs(const char *h) { Bytes b; size_t n = strlen(h); if (n & 1) { std::string s = "0"; s += h; return unhexs(s.c_str()); } for (; h[0] && h[1]; h += 2) { auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; b.push_back((uint8_t)(v(h[0]) * 16 + v(h[1]))); } return b; }
// parameters on a fresh context (everything a key generation needs)
inline int32_t params(CRYPT_EAL_PkeyCtx *k, const Row &r)
{
    if (r.para >= 0) return CRYPT_EAL_PkeySetParaById(k, (CRYPT_PKEY_ParaId)r.para);
    CRYPT_EAL_PkeyPara p = {}; p.id = r.id;
    if (r.special == S_DSA) { Bytes a = unhexs(DSAP[0][0]), b = unhexs(DSAP[0][1]), c = unhexs(DSAP[0][2]); auto &d = p.para.dsaPara; d.p = a.data(); d.pLen = (uint32_t)a.size(); d.q = b.data(); d.qLen = (uint32_t)b.size(); d.g = c.data(); d.gLen = (uint32_t)c.size(); return CRYPT_EAL_PkeySetPara(k, &p); }
    if (r.special == S_PAILLIER) { Bytes a = unhexs(PRIMES[7]), b = unhexs(PRIMES[8]); auto &d = p.para.paillierPara; d.p = a.data(); d.pLen = (uint32_t)a.size(); d.q = b.data(); d.qLen = (uint32_t)b.size(); d.bits = 512; return CRYPT_EAL_PkeySetPara(k, &p); }
    if (r.para == -2) { uint8_t e[3] = {1, 0, 1}; p.para.rsaPara.e = e; p.para.rsaPara.eLen = 3; p.para.rsaPara.bits = 1024; return CRYPT_EAL_PkeySetPara(k, &p); }
    return 0;
}
// padding/scheme settings on a keyed context
inline int32_t scheme(CRYPT_EAL_PkeyCtx *k, const Row &r)
{
    int32_t h = CRYPT_MD_SHA256, sl = 32;
    BSL_Param p[4] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &h, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &h, 4, 0}, {CRYPT_PARAM_RSA_SALTLEN, BSL_PARAM_TYPE_INT32, &sl, 4, 0}, BSL_PARAM_END};
    switch (r.special) {
        case S_RSA_PSS: return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_EMSA_PSS, p, 0);
        case S_RSA_15: return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &h, 4);
        case S_RSA_OAEP: p[2] = BSL_PARAM_END; return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_RSAES_OAEP, p, 0);
        case S_RSA_C15: return CRYPT_EAL_PkeyCtrl(k, CRYPT_CTRL_SET_RSA_RSAES_PKCSV15, &h, 4);
    }
    return 0;
}
inline CRYPT_EAL_PkeyCtx *newCtx(const Row &r, bool prov) { return prov ? CRYPT_EAL_ProviderPkeyNewCtx(nullptr, r.id, 0, "provider=default") : CRYPT_EAL_PkeyNewCtx(r.id); }
// generated once per process from a fixed seed
inline CRYPT_EAL_PkeyCtx *cached(const Row &r, int which = 0)
{
    static std::map<std::pair<const Row *, int>, CRYPT_EAL_PkeyCtx *> m; auto &k = m[{&r, which}]; if (k) return k;
    MemCtl sv = memCtl(); RandCtl rv = randCtl(); memCtl().failAt = -1; randCtl().failAt = -1;
    if (r.special >= S_RSA_PSS && r.special <= S_RSA_C15) { Bytes d = unhexs(rsaHex(which)); BSL_Buffer b = {d.data(), (uint32_t)d.size()}; if (CRYPT_EAL_DecodeBuffKey(BSL_FORMAT_ASN1, CRYPT_PRIKEY_PKCS8_UNENCRYPT, &b, nullptr, 0, &k)) abort(); if (scheme(k, r)) abort(); }
    else { caseRandSeed(4242 + which * 7919 + (uint64_t)(&r - rows().data())); k = newCtx(r, which & 1); if (!k || params(k, r)) abort(); int32_t e = CRYPT_EAL_PkeyGen(k); if (e) { fprintf(stderr, "cached %s: 0x%x\n", r.name, e); abort(); } }
    sv.live = memCtl().live; memCtl() = sv; randCtl() = rv; return k;
}
inline uint32_t ctl(CRYPT_EAL_PkeyCtx *k, int c) { uint32_t v = 0; CRYPT_EAL_PkeyCtrl(k, c, &v, 4); return v; }
// a second handle on a key: a duplicate, or (hybrid KEM has no duplication) a reference
inline CRYPT_EAL_PkeyCtx *again(CRYPT_EAL_PkeyCtx *k, const Row &r) { if (r.id != CRYPT_PKEY_HYBRID_KEM) return CRYPT_EAL_PkeyDupCtx(k); return CRYPT_EAL_PkeyUpRef(k) == 0 ? k : nullptr; }
struct Inst {
    const Row &r; int op; PkeyCtx a, b; Bytes msg, out, out2; int32_t last = 0;
    // op SIGN/CRYPT/KEM/EXCH use duplicated keyed contexts; GEN uses a fresh one
    Inst(const Row &row, int o, bool prov, const Bytes &m) : r(row), op(o), msg(m)
    {
        if (op == GEN) { a.reset(newCtx(r, prov)); if (a.p && params(a, r)) a.reset(); return; }
        a.reset(again(cached(r, 0), r)); if (a.p && scheme(a, r)) a.reset(); if (op == EXCH) b.reset(again(cached(r, 1), r));
    }
    bool ok() const { return a.p && (op != EXCH || b.p); }
    int32_t run()
    {
        switch (op) {
            case GEN: last = CRYPT_EAL_PkeyGen(a); break;
            case SIGN: { uint32_t n = CRYPT_EAL_PkeyGetSignLen(a); out.assign(n, 0xA5); last = CRYPT_EAL_PkeySign(a, (CRYPT_MD_AlgId)r.md, msg.data(), (uint32_t)msg.size(), out.data(), &n); if (!last) out.resize(n); break; }
            case CRYPT: { uint32_t n = 0; if (r.id == CRYPT_PKEY_SM2) n = (uint32_t)msg.size() + 200; else if (CRYPT_EAL_PkeyCtrl(a, CRYPT_CTRL_GET_BITS, &n, 4) == 0) n = n / 8 + 8; if (r.id == CRYPT_PKEY_PAILLIER || r.id == CRYPT_PKEY_ELGAMAL) n = 1200; out.assign(n, 0xA5); last = CRYPT_EAL_PkeyEncrypt(a, msg.data(), (uint32_t)msg.size(), out.data(), &n); if (!last) out.resize(n); break; }
            case KEM: { uint32_t n = ctl(a, CRYPT_CTRL_GET_CIPHERTEXT_LEN), s = ctl(a, CRYPT_CTRL_GET_SHARED_KEY_LEN); out.assign(n, 0xA5); out2.assign(s, 0xA5); last = CRYPT_EAL_PkeyEncapsInit(a, nullptr); if (!last) last = CRYPT_EAL_PkeyEncaps(a, out.data(), &n, out2.data(), &s); if (!last) { out.resize(n); out2.resize(s); } break; }
            case EXCH: { uint32_t n = 1024; out.assign(n, 0xA5); last = CRYPT_EAL_PkeyComputeShareKey(a, b, out.data(), &n); if (!last) out.resize(n); break; }
        }
        return last;
    }
    // after a successful run(): is the result right?  Empty string: yes.
    std::string check()
    {
        switch (op) {
            case GEN: {
                for (int o : {SIGN, CRYPT, KEM, EXCH}) if (r.caps & o) { Inst t(r, o, true, msg); t.a.reset(again(a, r)); if (!t.a.p) return "duplicating the generated key failed"; if (int32_t e = scheme(t.a, r)) return "scheme " + rc(e); if (int32_t e = t.run()) return "using the generated key failed " + rc(e); std::string s = t.check(); if (!s.empty()) return s; }
                if (r.para == -2) { Inst t(rows()[12], SIGN, true, msg); t.a.reset(again(a, r)); if (int32_t e = scheme(t.a, r)) return "scheme " + rc(e); if (int32_t e = t.run()) return "using the generated key failed " + rc(e); return t.check(); }
                return "";
            }
            case SIGN: { int32_t e = CRYPT_EAL_PkeyVerify(a, (CRYPT_MD_AlgId)r.md, msg.data(), (uint32_t)msg.size(), out.data(), (uint32_t)out.size()); return e ? "signature does not verify " + rc(e) : ""; }
            case CRYPT: { Bytes m(out.size() + 64); uint32_t n = (uint32_t)m.size(); CRYPT_EAL_PkeyCtrl(a, CRYPT_CTRL_GET_BITS, &n, 4); n = (uint32_t)m.size(); int32_t e = CRYPT_EAL_PkeyDecrypt(a, out.data(), (uint32_t)out.size(), m.data(), &n); if (e) return "ciphertext does not decrypt " + rc(e); m.resize(n); if (r.id == CRYPT_PKEY_PAILLIER) { Bytes x = m, y = msg; while (x.size() && !x[0]) x.erase(x.begin()); while (y.size() && !y[0]) y.erase(y.begin()); return x == y ? "" : "decryption differs"; } return m == msg ? "" : "decryption differs"; }
            case KEM: { Bytes s(out2.size()); uint32_t n = (uint32_t)s.size(); int32_t e = CRYPT_EAL_PkeyDecapsInit(a, nullptr); if (!e) e = CRYPT_EAL_PkeyDecaps(a, out.data(), (uint32_t)out.size(), s.data(), &n); if (e) return "decapsulation failed " + rc(e); return s == out2 ? "" : "decapsulated secret differs"; }
            case EXCH: { Bytes s(1024); uint32_t n = 1024; int32_t e = CRYPT_EAL_PkeyComputeShareKey(b, a, s.data(), &n); if (e) return "peer side failed " + rc(e); s.resize(n); return s == out ? "" : "shared secrets differ"; }
        }
        return "";
    }
};
inline int pickOp(G &g, const Row &r) { std::vector<int> o; for (int x : {SIGN, CRYPT, KEM, EXCH, GEN}) if (r.caps & x) o.push_back(x); return g.pick(o); }
inline const char *opName(int o) { return o == SIGN ? "sign" : o == CRYPT ? "encrypt" : o == KEM ? "encaps" : o == EXCH ? "exchange" : "gen"; }
inline const Row &pickRow(G &g, int slowOneIn = 8) { for (;;) { const Row &r = g.pick(rows()); if (!(r.caps & SLOW) || g.chance(1, (uint32_t)slowOneIn)) return r; } }
}  // namespace ops
