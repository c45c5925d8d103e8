// RSA reference: deterministic key pool and RFC 8017 encodings over OpenSSL BIGNUM
#pragma once
#include "oec.hpp"
namespace rsaref {
using namespace oec;
struct Key { int bits; N n, e, d, p, q, dp, dq, qi; int k; };
inline Bytes detBytes(uint64_t &s, size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)(splitmix(s) >> 32); return b; }
inline N primeIn(uint64_t &s, const N &lo, const N &hi, const N &e)  // lo <= p < hi, gcd(p-1,e)=1
{
    for (;;) {
        N p = lo + N(detBytes(s, (hi.bits() + 7) / 8 + 8)) % (hi - lo); if (!BN_is_odd(p.b)) continue;
        for (int i = 0; i < 400; i++, p = p + N(2)) { if (p >= hi) break; N g; BN_gcd(g.b, (p - N(1)).b, e.b, bc()); if (g != N(1)) continue; if (BN_check_prime(p.b, bc(), nullptr) == 1) return p; }
    }
}
inline Key make(int bits, uint64_t e, uint64_t seed)
{
    Key k; k.bits = bits; k.e = N(e); uint64_t s = seed * 1000003 + bits; int pb = (bits + 1) / 2;
    for (;;) {
        k.p = primeIn(s, N(3) << (pb - 2), N(1) << pb, k.e); N lo = (N(1) << (bits - 1)), hi = (N(1) << bits); N ql, qh, r; BN_div(ql.b, r.b, lo.b, k.p.b, bc()); BN_div(qh.b, r.b, hi.b, k.p.b, bc());
        k.q = primeIn(s, ql + N(1), qh, k.e); if (k.q == k.p) continue; if ((splitmix(s) >> 40) & 1) std::swap(k.p, k.q); k.n = k.p * k.q; if (k.n.bits() == bits) break;
    }
    N p1 = k.p - N(1), q1 = k.q - N(1), g, lam, r; BN_gcd(g.b, p1.b, q1.b, bc()); BN_div(lam.b, r.b, (p1 * q1).b, g.b, bc());
    k.d = k.e.inv((splitmix(s) >> 40) & 1 ? lam : p1 * q1); k.dp = k.d % p1; k.dq = k.d % q1; k.qi = k.q.inv(k.p); k.k = (bits + 7) / 8; return k;
}
struct Spec { int bits; uint64_t e; };
static const Spec SPECS[] = {{1024, 65537}, {512, 65537}, {1025, 65537}, {1031, 3}, {768, 17}, {1024, 3}, {1536, 65537}, {2048, 65537}, {513, 65537}, {1017, 0x10000000fULL}, {1022, 65537}, {1184, 65537}, {2047, 65537}, {640, 3}, {3072, 65537}};
inline const Key &key(size_t i) { static std::map<size_t, Key> m; auto it = m.find(i); if (it == m.end()) it = m.emplace(i, make(SPECS[i].bits, SPECS[i].e, 77 + i)).first; return it->second; }
struct Hash { CRYPT_MD_AlgId id; const char *n; size_t len; const char *prefix; };
static const Hash HS[] = {{CRYPT_MD_SHA256, "SHA256", 32, "3031300d060960864801650304020105000420"}, {CRYPT_MD_SHA1, "SHA1", 20, "3021300906052b0e03021a05000414"}, {CRYPT_MD_SHA384, "SHA384", 48, "3041300d060960864801650304020205000430"}, {CRYPT_MD_SHA512, "SHA512", 64, "3051300d060960864801650304020305000440"},
    {CRYPT_MD_SHA224, "SHA224", 28, "302d300d06096086480165030402040500041c"}, {CRYPT_MD_MD5, "MD5", 16, "3020300c06082a864886f70d020505000410"}, {CRYPT_MD_SM3, "SM3", 32, "3030300c06082a811ccf550183110500" "0420"}};
inline Bytes unhex(const char *s) { Bytes b; unsigned v; for (; *s; s += 2) { sscanf(s, "%2x", &v); b.push_back((uint8_t)v); } return b; }
inline Bytes mgf1(const Hash &h, const Bytes &seed, size_t n) { Bytes o; for (uint32_t c = 0; o.size() < n; c++) { Bytes t = seed; for (int i = 3; i >= 0; i--) t.push_back((uint8_t)(c >> (8 * i))); Bytes d = osslMd(h.n, t); o.insert(o.end(), d.begin(), d.end()); } o.resize(n); return o; }
inline Bytes xr(Bytes a, const Bytes &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
// EMSA-PKCS1-v1_5; empty when it does not fit
inline Bytes emPkcs1(const Key &k, const Hash &h, const Bytes &dig) { Bytes t = cat(unhex(h.prefix), dig); if (t.size() + 11 > (size_t)k.k) return {}; Bytes em{0, 1}; em.resize(k.k - t.size() - 1, 0xff); em.push_back(0); return cat(em, t); }
inline size_t pssEmLen(const Key &k) { return (k.bits - 1 + 7) / 8; }
inline Bytes emPss(const Key &k, const Hash &h, const Hash &m, const Bytes &dig, const Bytes &salt)
{
    size_t el = pssEmLen(k); if (el < h.len + salt.size() + 2) return {}; Bytes H = osslMd(h.n, cat(cat(Bytes(8, 0), dig), salt)); Bytes db(el - salt.size() - h.len - 2, 0); db.push_back(1); db = cat(db, salt); db = xr(db, mgf1(m, H, db.size()));
    db[0] &= 0xff >> (8 * el - (k.bits - 1)); Bytes em = cat(cat(db, H), Bytes{0xbc}); while (em.size() < (size_t)k.k) em.insert(em.begin(), 0); return em;
}
// RFC 8017 9.1.2 on a k-byte encoded message; sLen -1: any. returns salt length or -1
inline long pssCheck(const Key &k, const Hash &h, const Hash &m, const Bytes &dig, Bytes em, long sLen)
{
    size_t el = pssEmLen(k); if (em.size() > el) { if (em[0]) return -1; em.erase(em.begin()); } if (dig.size() != h.len || el < h.len + 2) return -1; if (em.back() != 0xbc) return -1;
    Bytes mdb(em.begin(), em.begin() + (el - h.len - 1)), H(em.begin() + (el - h.len - 1), em.end() - 1); int z = (int)(8 * el - (k.bits - 1)); if (mdb[0] & ~(0xff >> z)) return -1; Bytes db = xr(mdb, mgf1(m, H, mdb.size())); db[0] &= 0xff >> z;
    size_t i = 0; while (i < db.size() && db[i] == 0) i++; if (i == db.size() || db[i] != 1) return -1; Bytes salt(db.begin() + i + 1, db.end()); if (sLen >= 0 && (long)salt.size() != sLen) return -1;
    return osslMd(h.n, cat(cat(Bytes(8, 0), dig), salt)) == H ? (long)salt.size() : -1;
}
inline Bytes emOaep(const Key &k, const Hash &h, const Hash &m, const Bytes &msg, const Bytes &label, const Bytes &seed) { if (msg.size() + 2 * h.len + 2 > (size_t)k.k) return {}; Bytes db = osslMd(h.n, label); db.resize(k.k - msg.size() - h.len - 2, 0); db.push_back(1); db = cat(db, msg); db = xr(db, mgf1(m, seed, db.size())); Bytes s = xr(seed, mgf1(m, db, seed.size())); return cat(cat(Bytes{0}, s), db); }
inline bool oaepDec(const Key &k, const Hash &h, const Hash &m, const Bytes &em, const Bytes &label, Bytes &msg) { if ((size_t)k.k < 2 * h.len + 2 || em[0]) return false; Bytes s(em.begin() + 1, em.begin() + 1 + h.len), db(em.begin() + 1 + h.len, em.end()); s = xr(s, mgf1(m, db, h.len)); db = xr(db, mgf1(m, s, db.size())); if (Bytes(db.begin(), db.begin() + h.len) != osslMd(h.n, label)) return false; size_t i = h.len; while (i < db.size() && !db[i]) i++; if (i == db.size() || db[i] != 1) return false; msg.assign(db.begin() + i + 1, db.end()); return true; }
inline bool p15Dec(const Bytes &em, Bytes &msg) { if (em.size() < 11 || em[0] || em[1] != 2) return false; size_t i = 2; while (i < em.size() && em[i]) i++; if (i == em.size() || i < 10) return false; msg.assign(em.begin() + i + 1, em.end()); return true; }
}
