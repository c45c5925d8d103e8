// A03: Privacy Pass publicly verifiable tokens (RFC 9577, 9578): encodings and verdicts against a reference
#include "opki.hpp"
#include "auth_privpass_token.h"
#include "auth_errno.h"
#include "auth_params.h"
#include <openssl/rsa.h>
#include <openssl/pem.h>
#include <openssl/err.h>
using namespace opki;
const char *pbt::PROPERTY_RULE =
    "Challenge, request, response and token are made by client, issuer and origin contexts from generated challenge fields and compared octet by octet with the structures of RFC 9577/9578 (key identifiers, digests, the blind RSA exponentiation and the final RSASSA-PSS signature by OpenSSL); tokens made by OpenSSL are presented; any single alteration must be refused; arbitrary octets are decoded against a reference parser. "
    "Non-trivial: a token was verified by both implementations, an altered one refused, or a decoding was decided by both parsers.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"RSA keys have 2048 bits (the only size token type 2 has)", "OpenSSL's RSA and SHA-2 are right"};
namespace {
const uint8_t PSSALG[] = {0x30, 0x3d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0a, 0x30, 0x30, 0xa0, 0x0d, 0x30, 0x0b, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0xa1, 0x1a, 0x30, 0x18, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x08, 0x30, 0x0b, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0xa2, 0x03, 0x02, 0x01, 0x30};
struct K { EVP_PKEY *k; Bytes pki, pem, id; };
std::vector<K> keys;
Bytes sha(const Bytes &b) { Bytes o(32); unsigned n; EVP_Digest(b.data(), b.size(), o.data(), &n, EVP_sha256(), nullptr); return o; }
Bytes tlv(uint8_t t, const Bytes &v) { Bytes o{t}; size_t n = v.size(); if (n < 128) o.push_back((uint8_t)n); else if (n < 256) { o.push_back(0x81); o.push_back((uint8_t)n); } else { o.push_back(0x82); o.push_back((uint8_t)(n >> 8)); o.push_back((uint8_t)n); } o.insert(o.end(), v.begin(), v.end()); return o; }
void mkKey()
{
    K k; k.k = EVP_RSA_gen(2048); uint8_t *p = nullptr; int n = i2d_PublicKey(k.k, &p); Bytes bits{0}; bits.insert(bits.end(), p, p + n); OPENSSL_free(p); Bytes in(PSSALG, PSSALG + sizeof PSSALG), b = tlv(3, bits); in.insert(in.end(), b.begin(), b.end()); k.pki = tlv(0x30, in); k.id = sha(k.pki); BIO *o = BIO_new(BIO_s_mem()); PEM_write_bio_PKCS8PrivateKey(o, k.k, nullptr, nullptr, 0, nullptr, nullptr); char *q; long l = BIO_get_mem_data(o, &q); k.pem.assign(q, q + l); BIO_free(o); keys.push_back(k);
}
struct Tok { HITLS_AUTH_PrivPassToken *t = nullptr; Tok() {} Tok(const Tok &) = delete; ~Tok() { HITLS_AUTH_PrivPassFreeToken(t); } };
struct Ctx { HITLS_AUTH_PrivPassCtx *c; Ctx() : c(HITLS_AUTH_PrivPassNewCtx(HITLS_AUTH_PRIVPASS_PUB_VERIFY_TOKENS)) { CHECK(c, "a03-call", "no context"); } Ctx(const Ctx &) = delete; ~Ctx() { HITLS_AUTH_PrivPassFreeCtx(c); } };
int32_t setPub(Ctx &c, const K &k) { Exact e(k.pki); return HITLS_AUTH_PrivPassSetPubkey(c.c, e.p, (uint32_t)e.n); }
int32_t setPrv(Ctx &c, const K &k) { Exact e(k.pem); return HITLS_AUTH_PrivPassSetPrvkey(c.c, nullptr, e.p, (uint32_t)e.n); }
Bytes ser(G &g, const Tok &t)
{
    uint32_t n = 0; int32_t r = HITLS_AUTH_PrivPassSerialization(nullptr, t.t, nullptr, &n); CHECK(!r && n, "a03-call", "serialized length: %s", rc(r).c_str()); if (g.chance(1, 6)) { size_t m = g.draw(n - 1); Exact s(Bytes(m ? m : 1, 0)); uint32_t k = (uint32_t)m; r = HITLS_AUTH_PrivPassSerialization(nullptr, t.t, s.p, &k); CHECK(r, "a03-short", "serialized into %zu of %u octets", m, n); }
    uint32_t cap = n + (uint32_t)g.draw(3); Exact e(Bytes(cap, 0xA5)); uint32_t k = cap; r = HITLS_AUTH_PrivPassSerialization(nullptr, t.t, e.p, &k); CHECK(!r && k == n, "a03-call", "serialization: %s, %u instead of %u octets", rc(r).c_str(), k, n); return Bytes(e.p, e.p + k);
}
int32_t des(int type, const Bytes &b, Tok &t) { Exact e(b); int32_t r = HITLS_AUTH_PrivPassDeserialization(nullptr, type, e.p, (uint32_t)e.n, &t.t); CHECK((r == 0) == (t.t != nullptr), "a03-out", "verdict %s with %s object", rc(r).c_str(), t.t ? "an" : "no"); return r; }
void u16(Bytes &b, size_t n) { b.push_back((uint8_t)(n >> 8)); b.push_back((uint8_t)n); }
struct Ch { Bytes issuer, red, origin; Bytes enc() const { Bytes o; u16(o, 2); u16(o, issuer.size()); o.insert(o.end(), issuer.begin(), issuer.end()); o.push_back((uint8_t)red.size()); o.insert(o.end(), red.begin(), red.end()); u16(o, origin.size()); o.insert(o.end(), origin.begin(), origin.end()); return o; } };
Ch mkCh(G &g) { Ch c; c.issuer = g.bytes(g.chance(1, 20) ? g.pick<size_t>({65535, 65534, 300}) : 1 + g.len(0, 60)); if (g.boolean()) c.red = g.bytes(32); if (g.chance(2, 3)) c.origin = g.bytes(g.chance(1, 20) ? g.pick<size_t>({65535, 256, 255}) : g.len(0, 80)); return c; }
int32_t gen(Ctx &x, const Ch &c, Tok &t, uint16_t type = 2, bool withOrigin = true)
{
    Exact i(c.issuer), r(c.red), o(c.origin); std::vector<BSL_Param> p = {{AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_TYPE, BSL_PARAM_TYPE_UINT16, &type, 2, 2}, {AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_ISSUERNAME, BSL_PARAM_TYPE_OCTETS_PTR, i.p, (uint32_t)i.n, 0}, {AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_REDEMPTION, BSL_PARAM_TYPE_OCTETS_PTR, r.p, (uint32_t)r.n, 0}}; if (withOrigin) p.push_back({AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_ORIGININFO, BSL_PARAM_TYPE_OCTETS_PTR, o.p, (uint32_t)o.n, 0}); p.push_back(BSL_PARAM_END); return HITLS_AUTH_PrivPassGenTokenChallenge(x.c, p.data(), &t.t);
}
EVP_PKEY_CTX *pss(const K &k, bool sign) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k.k, nullptr); if (sign) EVP_PKEY_sign_init(c); else EVP_PKEY_verify_init(c); EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PSS_PADDING); EVP_PKEY_CTX_set_signature_md(c, EVP_sha384()); EVP_PKEY_CTX_set_rsa_mgf1_md(c, EVP_sha384()); EVP_PKEY_CTX_set_rsa_pss_saltlen(c, 48); return c; }
Bytes h384(const Bytes &m) { Bytes o(48); unsigned n; EVP_Digest(m.data(), m.size(), o.data(), &n, EVP_sha384(), nullptr); return o; }
bool oVerify(const K &k, const Bytes &m, const Bytes &s) { EVP_PKEY_CTX *c = pss(k, false); Bytes h = h384(m); int r = EVP_PKEY_verify(c, s.data(), s.size(), h.data(), h.size()); EVP_PKEY_CTX_free(c); ERR_clear_error(); return r == 1; }
Bytes oSign(const K &k, const Bytes &m) { EVP_PKEY_CTX *c = pss(k, true); Bytes h = h384(m), s(256); size_t n = 256; EVP_PKEY_sign(c, s.data(), &n, h.data(), h.size()); EVP_PKEY_CTX_free(c); s.resize(n); return s; }
Bytes rawRsa(const K &k, const Bytes &m) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k.k, nullptr); EVP_PKEY_decrypt_init(c); EVP_PKEY_CTX_set_rsa_padding(c, RSA_NO_PADDING); Bytes o(256); size_t n = 256; int r = EVP_PKEY_decrypt(c, o.data(), &n, m.data(), m.size()); EVP_PKEY_CTX_free(c); ERR_clear_error(); if (r <= 0) o.clear(); return o; }
Bytes getter(const Tok &t, int cmd, int32_t key, size_t cap, int32_t *r) { Exact e(Bytes(cap, 0)); BSL_Param p[2] = {{key, BSL_PARAM_TYPE_OCTETS_PTR, e.p, (uint32_t)cap, 0}, BSL_PARAM_END}; *r = HITLS_AUTH_PrivPassTokenCtrl(t.t, cmd, p, 0); return Bytes(e.p, e.p + (*r ? 0 : p[0].useLen)); }
bool refChallenge(const Bytes &b) { if (b.size() < 7 || b[0] || b[1] != 2) return false; size_t i = 2, n = (size_t)b[i] << 8 | b[i + 1]; i += 2; if (!n || b.size() - i < n) return false; i += n; if (i >= b.size()) return false; n = b[i++]; if ((n != 0 && n != 32) || b.size() - i < n) return false; i += n; if (b.size() - i < 2) return false; n = (size_t)b[i] << 8 | b[i + 1]; return b.size() - i - 2 == n; }
}
void pbt::setup() { BSL_ERR_Init(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); detOssl(31); for (int i = 0; i < 3; i++) mkKey(); }

PBT_TEST(flow, 700, 20000, 0, 300)
{
    seedRand(g); detOssl(g.draw(UINT64_MAX)); size_t ki = g.draw(2); const K &k = keys[ki], &other = keys[(ki + 1) % 3]; Ctx client, issuer, server; int32_t r; CHECK(!(r = setPub(client, k)), "a03-call", "public key: %s", rc(r).c_str()); bool pubFirst = g.boolean(); for (int i = 0; i < 2; i++) { r = (i == 0) == pubFirst ? setPub(issuer, k) : setPrv(issuer, k); CHECK(!r, "a03-call", "issuer key: %s", rc(r).c_str()); } CHECK(!(r = setPub(server, k)), "a03-call", "public key: %s", rc(r).c_str());
    if (g.chance(1, 4)) { r = g.boolean() ? setPub(issuer, other) : setPrv(issuer, other); CHECK(r, "a03-pair", "an issuer accepts a key pair that does not match"); g.label("mismatched pair"); }
    Ch c = mkCh(g); Tok ch; r = gen(server, c, ch, 2, !c.origin.empty() || g.boolean()); CHECK(!r, "a03-call", "challenge: %s", rc(r).c_str()); Bytes cb = ser(g, ch); CHECK(cb == c.enc(), "a03-challenge", "the encoded challenge differs from RFC 9577"); Tok ch2; CHECK(!(r = des(HITLS_AUTH_PRIVPASS_TOKEN_CHALLENGE, cb, ch2)), "a03-decode", "own challenge refused: %s", rc(r).c_str());
    Tok rq; CHECK(!(r = HITLS_AUTH_PrivPassGenTokenReq(client.c, ch2.t, &rq.t)), "a03-call", "request: %s", rc(r).c_str()); Bytes rb = ser(g, rq); CHECK(rb.size() == 259 && rb[0] == 0 && rb[1] == 2 && rb[2] == k.id[31], "a03-request", "the request is not type, truncated key identifier and blinded message"); Bytes blinded(rb.begin() + 3, rb.end());
    uint8_t nonce[32]; { BSL_Param p[2] = {{AUTH_PARAM_PRIVPASS_CTX_NONCE, BSL_PARAM_TYPE_OCTETS_PTR, nonce, 32, 0}, BSL_PARAM_END}; r = HITLS_AUTH_PrivPassCtxCtrl(client.c, HITLS_AUTH_PRIVPASS_GET_CTX_NONCE, p, 0); CHECK(!r, "a03-call", "nonce: %s", rc(r).c_str()); }
    if (g.chance(1, 8)) { Bytes b2 = rb; b2[2] ^= (uint8_t)(1u << g.draw(7)); Tok q, s; CHECK(!des(HITLS_AUTH_PRIVPASS_TOKEN_REQUEST, b2, q), "a03-decode", "request refused"); r = HITLS_AUTH_PrivPassGenTokenResponse(issuer.c, q.t, &s.t); CHECK(r && !s.t, "a03-keyid", "a request for another key identifier is answered"); g.label("other key identifier"); }
    Tok rq2, rs; CHECK(!(r = des(HITLS_AUTH_PRIVPASS_TOKEN_REQUEST, rb, rq2)), "a03-decode", "own request refused: %s", rc(r).c_str()); CHECK(!(r = HITLS_AUTH_PrivPassGenTokenResponse(issuer.c, rq2.t, &rs.t)), "a03-call", "response: %s", rc(r).c_str()); Bytes sb = ser(g, rs); CHECK(sb == rawRsa(k, blinded), "a03-response", "the response is not the RSA private operation on the blinded message");
    bool badResp = g.chance(1, 6); if (badResp) { sb[g.draw(255)] ^= (uint8_t)(1u << g.draw(7)); sb[0] &= 0x3f; if (sb == rawRsa(k, blinded)) discard(); } Tok rs2, tk; CHECK(!(r = des(HITLS_AUTH_PRIVPASS_TOKEN_RESPONSE, sb, rs2)), "a03-decode", "response refused: %s", rc(r).c_str()); r = HITLS_AUTH_PrivPassGenToken(client.c, ch2.t, rs2.t, &tk.t); if (badResp) { g.label("altered response"); g.nontrivial(); if (r) return; CHECK(HITLS_AUTH_PrivPassVerifyToken(server.c, ch.t, tk.t), "a03-accepted", "a token from an altered response verifies"); return; } CHECK(!r, "a03-call", "token: %s", rc(r).c_str());
    Bytes tb = ser(g, tk), in; u16(in, 2); in.insert(in.end(), nonce, nonce + 32); Bytes cd = sha(cb); in.insert(in.end(), cd.begin(), cd.end()); in.insert(in.end(), k.id.begin(), k.id.end()); CHECK(tb.size() == in.size() + 256 && std::equal(in.begin(), in.end(), tb.begin()), "a03-token", "the token's type, nonce, challenge digest or key identifier is wrong"); Bytes sig(tb.begin() + (long)in.size(), tb.end()); CHECK(oVerify(k, in, sig), "a03-signature", "OpenSSL refuses the token's authenticator");
    bool byO = g.boolean(); if (byO) { Bytes nn = g.bytes(32); std::copy(nn.begin(), nn.end(), in.begin() + 2); tb = in; Bytes s2 = oSign(k, in); tb.insert(tb.end(), s2.begin(), s2.end()); } Tok t2; CHECK(!(r = des(HITLS_AUTH_PRIVPASS_TOKEN_INSTANCE, tb, t2)), "a03-decode", "token refused: %s", rc(r).c_str()); r = HITLS_AUTH_PrivPassVerifyToken(server.c, ch.t, t2.t); CHECK(!r, "a03-refused", "a genuine token %s is refused: %s", byO ? "signed by OpenSSL" : "made here", rc(r).c_str());
    switch (g.draw(4)) {
        case 0: { Ctx s2; setPub(s2, other); CHECK(HITLS_AUTH_PrivPassVerifyToken(s2.c, ch.t, t2.t), "a03-accepted", "a token verifies under another key"); g.label("other key"); break; }
        case 1: { Ch c2 = c; switch (g.draw(2)) { case 0: c2.issuer[g.draw(c2.issuer.size() - 1)] ^= 1; break; case 1: if (c2.red.empty()) c2.red = Bytes(32, 0); else if (g.boolean()) c2.red.clear(); else c2.red[g.draw(31)] ^= 0x80; break; default: if (c2.origin.empty() || (c2.origin.size() < 65535 && g.boolean())) c2.origin.push_back(0); else c2.origin.pop_back(); } Tok x; CHECK(!gen(server, c2, x), "a03-call", "challenge"); CHECK(HITLS_AUTH_PrivPassVerifyToken(server.c, x.t, t2.t), "a03-accepted", "a token verifies for another challenge"); g.label("other challenge"); break; }
        case 2: { Bytes b2 = tb; b2[2 + g.draw(b2.size() - 3)] ^= (uint8_t)(1u << g.draw(7)); Tok x; CHECK(!des(HITLS_AUTH_PRIVPASS_TOKEN_INSTANCE, b2, x), "a03-decode", "token refused"); CHECK(HITLS_AUTH_PrivPassVerifyToken(server.c, ch.t, x.t), "a03-accepted", "an altered token verifies"); g.label("altered token"); break; }
        case 3: { /* signed with other PSS parameters or by another key over the same fields */ Bytes s2 = oSign(other, in); Bytes b2 = in; b2.insert(b2.end(), s2.begin(), s2.end()); Tok x; CHECK(!des(HITLS_AUTH_PRIVPASS_TOKEN_INSTANCE, b2, x), "a03-decode", "token refused"); CHECK(HITLS_AUTH_PrivPassVerifyToken(server.c, ch.t, x.t), "a03-accepted", "a token signed by another key verifies"); g.label("other signer"); break; }
        default: { int32_t q; Bytes v = getter(t2, HITLS_AUTH_PRIVPASS_GET_TOKEN_NONCE, AUTH_PARAM_PRIVPASS_TOKEN_NONCE, 32, &q); CHECK(!q && v == Bytes(tb.begin() + 2, tb.begin() + 34), "a03-get", "nonce read from the token"); v = getter(t2, HITLS_AUTH_PRIVPASS_GET_TOKEN_CHALLENGEDIGEST, AUTH_PARAM_PRIVPASS_TOKEN_CHALLENGEDIGEST, 32, &q); CHECK(!q && v == cd, "a03-get", "challenge digest read from the token"); v = getter(t2, HITLS_AUTH_PRIVPASS_GET_TOKEN_TOKENKEYID, AUTH_PARAM_PRIVPASS_TOKEN_TOKENKEYID, 32, &q); CHECK(!q && v == k.id, "a03-get", "key identifier read from the token"); v = getter(t2, HITLS_AUTH_PRIVPASS_GET_TOKEN_AUTHENTICATOR, AUTH_PARAM_PRIVPASS_TOKEN_AUTHENTICATOR, 256, &q); CHECK(!q && v == Bytes(tb.end() - 256, tb.end()), "a03-get", "authenticator read from the token"); g.label("getters"); }
    }
    g.nontrivial(); g.key(hex(tb.data() + 2, 12));
}

PBT_TEST(codec, 6000, 200000, 0, 300)
{
    int type = 1 + (int)g.draw(4); Bytes b; Ch c; switch (type) { case 1: b = g.bytes(1 + g.len(0, 100)); break; case 2: c = mkCh(g); b = c.enc(); break; case 3: u16(b, 2); { Bytes t = g.bytes(257); b.insert(b.end(), t.begin(), t.end()); } break; case 4: b = g.bytes(256); break; default: u16(b, 2); { Bytes t = g.bytes(352); b.insert(b.end(), t.begin(), t.end()); } }
    int nm = (int)g.weighted({3, 4, 2}); for (int i = 0; i < nm && !b.empty(); i++) switch (g.draw(4)) { case 0: b[g.draw(std::min<size_t>(b.size() - 1, 6))] ^= (uint8_t)(1u << g.draw(7)); break; case 1: b.resize(b.size() - g.draw(std::min<size_t>(b.size() - 1, 9))); break; case 2: b.push_back((uint8_t)g.draw(255)); break; case 3: b[g.draw(b.size() - 1)] = (uint8_t)g.draw(255); break; default: { if (type == 2 && b.size() > 4 + c.issuer.size()) b[4 + c.issuer.size()] = (uint8_t)g.pick<int>({0, 1, 31, 32, 33, 255}); } }
    if (b.empty()) discard(); bool want = type == 1 ? true : type == 2 ? refChallenge(b) : type == 4 ? b.size() == 256 : b.size() == (type == 3 ? 259u : 354u) && b[0] == 0 && b[1] == 2; Tok t; int32_t r = des(type, b, t); CHECK(want == (r == 0), "a03-decode", "structure %d of %zu octets: %s, the reference %s it", type, b.size(), rc(r).c_str(), want ? "accepts" : "refuses"); g.label(sfmt("type-%d-%s", type, want ? "valid" : "invalid")); g.nontrivial(); g.key(hex(b.data(), std::min<size_t>(b.size(), 40)) + std::to_string(b.size()));
    if (!r) { CHECK(ser(g, t) == b, "a03-roundtrip", "structure %d encodes differently from what was decoded", type); if (type == 2) { size_t n = (size_t)b[2] << 8 | b[3], rl = b[4 + n]; int32_t q; Bytes v = getter(t, HITLS_AUTH_PRIVPASS_GET_TOKENCHALLENGE_ISSUERNAME, AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_ISSUERNAME, n, &q); CHECK(!q && v == Bytes(b.begin() + 4, b.begin() + 4 + (long)n), "a03-get", "issuer name"); if (n > 1) { getter(t, HITLS_AUTH_PRIVPASS_GET_TOKENCHALLENGE_ISSUERNAME, AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_ISSUERNAME, n - 1, &q); CHECK(q, "a03-short", "issuer name in too small a buffer"); } if (rl) { v = getter(t, HITLS_AUTH_PRIVPASS_GET_TOKENCHALLENGE_REDEMPTION, AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_REDEMPTION, rl, &q); CHECK(!q && v == Bytes(b.begin() + 5 + (long)n, b.begin() + 5 + (long)(n + rl)), "a03-get", "redemption"); } size_t on = b.size() - (7 + n + rl); if (on) { v = getter(t, HITLS_AUTH_PRIVPASS_GET_TOKENCHALLENGE_ORIGININFO, AUTH_PARAM_PRIVPASS_TOKENCHALLENGE_ORIGININFO, on, &q); CHECK(!q && v == Bytes(b.end() - (long)on, b.end()), "a03-get", "origin info"); } } }
}

PBT_TEST(params, 1500, 30000, 0, 300)
{
    Ctx x; Ch c = mkCh(g); uint16_t type = 2; bool ok = true; switch (g.draw(3)) { case 0: type = (uint16_t)g.draw(65535); ok = type == 2; break; case 1: c.issuer.resize(g.pick<size_t>({0, 65536, 70000})); ok = false; break; case 2: c.red = g.bytes(1 + g.draw(70)); ok = c.red.size() == 32; break; default: c.origin.resize(65536 + g.draw(40)); ok = false; }
    Tok t; int32_t r = gen(x, c, t, type); CHECK((r == 0) == ok, "a03-params", "challenge of type %u with %zu, %zu and %zu octets: %s", type, c.issuer.size(), c.red.size(), c.origin.size(), rc(r).c_str()); CHECK(!r || !t.t, "a03-out", "an object with an error"); if (ok) CHECK(ser(g, t) == c.enc(), "a03-challenge", "the encoded challenge differs from RFC 9577"); g.nontrivial(); g.key(sfmt("%u %zu %zu %zu", type, c.issuer.size(), c.red.size(), c.origin.size()));
}
