// Common includes and helpers for harnesses that drive openHiTLS.
#pragma once
#include "pbt.hpp"
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
extern "C" {
#include "hitls_build.h"
#include "bsl_sal.h"
#include "bsl_err.h"
#include "bsl_errno.h"
#include "bsl_params.h"
#include "crypt_types.h"
#include "crypt_algid.h"
#include "crypt_errno.h"
#include "crypt_params_key.h"
#include "crypt_eal_init.h"
#include "crypt_eal_md.h"
#include "crypt_eal_mac.h"
#include "crypt_eal_cipher.h"
#include "crypt_eal_kdf.h"
#include "crypt_eal_rand.h"
#include "crypt_eal_pkey.h"
}
#include <openssl/evp.h>
#include <openssl/err.h>

using namespace pbt;

namespace vh {
// ---- deterministic randomness for the library under test (and a way to make it fail)
struct RandCtl { long failAt = -1; long calls = 0; bool failFrom = false; };
inline RandCtl &randCtl() { static RandCtl c; return c; }
inline int32_t detRand(uint8_t *r, uint32_t n)
{
    RandCtl &c = randCtl();
    long k = c.calls++;
    if (c.failAt >= 0 && (k == c.failAt || (c.failFrom && k >= c.failAt))) return CRYPT_NO_REGIST_RAND;
    caseRand(r, n);
    return CRYPT_SUCCESS;
}
inline int32_t detRandEx(void *, uint8_t *r, uint32_t n) { return detRand(r, n); }
inline void useDetRand() { CRYPT_EAL_SetRandCallBack(detRand); CRYPT_EAL_SetRandCallBackEx(detRandEx); }
// seed the library RNG from the case
inline void seedRand(G &g) { caseRandSeed(g.draw(UINT64_MAX)); randCtl() = RandCtl(); }

// ---- allocation tracking through the BSL memory callbacks
struct MemCtl { long live = 0; long allocs = 0; long failAt = -1; bool failFrom = false; bool on = false; };
inline MemCtl &memCtl() { static MemCtl m; return m; }
inline void *trkMalloc(uint32_t n)
{
    MemCtl &m = memCtl();
    long k = m.allocs++;
    if (m.failAt >= 0 && (k == m.failAt || (m.failFrom && k >= m.failAt))) return nullptr;
    if (n == 0) return nullptr;
    void *p = malloc(n);
    if (p) m.live++;
    return p;
}
inline void trkFree(void *p) { if (p) { memCtl().live--; free(p); } }
inline void useTrackedMem()
{
    BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_MALLOC, (void *)trkMalloc);
    BSL_SAL_CallBack_Ctrl(BSL_SAL_MEM_FREE, (void *)trkFree);
    memCtl().on = true;
}
inline std::string rc(int32_t r) { char b[32]; snprintf(b, sizeof b, "0x%08x", (unsigned)r); return b; }
inline std::string sfmt(const char *fmt, ...)
{
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
// exact-size heap copy so that ASan sees any over-read of the caller's buffer
struct Exact {
    uint8_t *p; size_t n;
    explicit Exact(const Bytes &b) : p((uint8_t *)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); }
    Exact(const uint8_t *q, size_t k) : p((uint8_t *)malloc(k ? k : 1)), n(k) { if (k) memcpy(p, q, k); }
    explicit Exact(size_t k, uint8_t v = 0xA5) : p((uint8_t *)malloc(k ? k : 1)), n(k) { memset(p, v, k ? k : 1); }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
    Exact &operator=(const Exact &) = delete;
    Bytes vec() const { return Bytes(p, p + n); }
};
inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
template <class T, void (*F)(T *)> struct Own {
    T *p; explicit Own(T *q = nullptr) : p(q) {} ~Own() { if (p) F(p); }
    Own(const Own &) = delete; Own &operator=(const Own &) = delete;
    Own(Own &&o) : p(o.p) { o.p = nullptr; }
    T *get() const { return p; }
    operator T *() const { return p; }
    T *release() { T *q = p; p = nullptr; return q; }
    void reset(T *q = nullptr) { if (p) F(p); p = q; }
};
typedef Own<CRYPT_EAL_MdCtx, CRYPT_EAL_MdFreeCtx> MdCtx;
typedef Own<CRYPT_EAL_MacCtx, CRYPT_EAL_MacFreeCtx> MacCtx;
typedef Own<CRYPT_EAL_CipherCtx, CRYPT_EAL_CipherFreeCtx> CipherCtx;
typedef Own<CRYPT_EAL_PkeyCtx, CRYPT_EAL_PkeyFreeCtx> PkeyCtx;
typedef Own<CRYPT_EAL_KdfCtx, CRYPT_EAL_KdfFreeCtx> KdfCtx;
typedef Own<EVP_PKEY, EVP_PKEY_free> OsslKey;
typedef Own<EVP_MD_CTX, EVP_MD_CTX_free> OsslMdCtx;
typedef Own<EVP_PKEY_CTX, EVP_PKEY_CTX_free> OsslPkeyCtx;

// ---- OpenSSL reference digest
inline Bytes osslMd(const char *name, const Bytes &in, size_t xofLen = 0)
{
    EVP_MD *md = EVP_MD_fetch(nullptr, name, nullptr);
    if (!md) abort();
    Own<EVP_MD_CTX, EVP_MD_CTX_free> c(EVP_MD_CTX_new());
    EVP_DigestInit_ex(c, md, nullptr);
    EVP_DigestUpdate(c, in.data(), in.size());
    Bytes out;
    if (xofLen || (EVP_MD_get_flags(md) & EVP_MD_FLAG_XOF)) { out.resize(xofLen); if (xofLen) EVP_DigestFinalXOF(c, out.data(), xofLen); }
    else { unsigned l = 0; out.resize(EVP_MAX_MD_SIZE); EVP_DigestFinal_ex(c, out.data(), &l); out.resize(l); }
    EVP_MD_free(md);
    return out;
}
struct MdAlg { CRYPT_MD_AlgId id; const char *ossl; uint32_t size, block; bool xof; };
static const MdAlg MDS[] = {
    {CRYPT_MD_SHA256, "SHA256", 32, 64, false}, {CRYPT_MD_SHA224, "SHA224", 28, 64, false}, {CRYPT_MD_SHA1, "SHA1", 20, 64, false},
    {CRYPT_MD_SHA384, "SHA384", 48, 128, false}, {CRYPT_MD_SHA512, "SHA512", 64, 128, false}, {CRYPT_MD_MD5, "MD5", 16, 64, false},
    {CRYPT_MD_SM3, "SM3", 32, 64, false}, {CRYPT_MD_SHA3_224, "SHA3-224", 28, 144, false}, {CRYPT_MD_SHA3_256, "SHA3-256", 32, 136, false},
    {CRYPT_MD_SHA3_384, "SHA3-384", 48, 104, false}, {CRYPT_MD_SHA3_512, "SHA3-512", 64, 72, false},
    {CRYPT_MD_BLAKE2S256, "BLAKE2S-256", 32, 64, false},
    {CRYPT_MD_SHAKE128, "SHAKE128", 0, 168, true}, {CRYPT_MD_SHAKE256, "SHAKE256", 0, 136, true},
};
}  // namespace vh
using namespace vh;
