// B01: base64 and PEM against an independent RFC 4648 / RFC 7468 model
#include "vh.hpp"
extern "C" {
#include "bsl_base64.h"
#include "bsl_pem_internal.h"
}
#include <openssl/pem.h>
const char *pbt::PROPERTY_RULE =
    "Payloads (0..3000 bytes, lengths biased to the 3/48/64 boundaries) are encoded one-shot and streamed in random chunks with and without newlines into exact-size buffers (also too small ones, then retried) "
    "and compared with an independent encoder; valid, whitespace-laden and damaged texts are decoded one-shot and streamed and compared with an independent strict decoder; PEM blocks with any of the library's labels, "
    "surrounding text and several blocks in one buffer are compared with OpenSSL's writer and decoded in turn. Non-trivial: at least one full quantum, i.e. a payload of 3 bytes or a text of 4 characters.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"whitespace means space, CR, LF (what the documentation names)", "non-zero trailing bits in the last quantum are not judged"};
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void pbt::setup() { useTrackedMem(); uint32_t l = 0; BSL_BASE64_Decode(nullptr, 0, nullptr, &l); BSL_ERR_RemoveErrorStack(true); }
static std::string enc(const Bytes &b)
{
    std::string s; size_t i = 0;
    for (; i < b.size(); i += 3) {
        uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
        s += AL[v >> 18]; s += AL[v >> 12 & 63]; s += i + 1 < b.size() ? AL[v >> 6 & 63] : '='; s += i + 2 < b.size() ? AL[v & 63] : '=';
    }
    return s;
}
// 1: decoded, 0: must be rejected, 2: empty after removing blanks
static int dec(const std::string &t, Bytes &out)
{
    std::string s; out.clear();
    for (char c : t) if (c != ' ' && c != '\r' && c != '\n') s += c;
    if (s.empty()) return 2;
    if (s.size() % 4) return 0;
    size_t pad = 0; while (pad < 2 && s[s.size() - 1 - pad] == '=') pad++;
    uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < s.size() - pad; i++) {
        const char *q = s[i] ? strchr(AL, s[i]) : nullptr; if (!q) return 0;
        acc = acc << 6 | (uint32_t)(q - AL); bits += 6; if (bits >= 8) { bits -= 8; out.push_back((uint8_t)(acc >> bits)); }
    }
    return 1;
}
static size_t plen(G &g)
{
    switch (g.draw(2)) {
    case 0: return g.range(0, 12);
    case 1: { long v = (long)(48 * g.range(1, 20)) + (long)g.range(0, 4) - 2; return (size_t)v; }
    default: return g.len(0, 3000);
    }
}
PBT_TEST(encode, 20000, 600000, 0, 300)
{
    Bytes b = g.bytes(plen(g)); std::string want = enc(b); if (b.size() >= 3) g.nontrivial(); g.note("encode %zu bytes", b.size());
    if (b.empty()) { char o[8]; uint32_t l = 8; Exact in(b); BSL_BASE64_Encode(in.p, 0, o, &l); }
    else {
        Exact in(b); uint32_t need = (uint32_t)want.size() + 1, sz = g.chance(1, 2) ? need : (uint32_t)g.range(0, need + 4); Exact o(sz); uint32_t l = sz;
        int32_t r = BSL_BASE64_Encode(in.p, (uint32_t)b.size(), (char *)o.p, &l);
        if (sz < need) CHECK(r == BSL_BASE64_BUF_NOT_ENOUGH, "enc-small", "%u byte buffer of %u needed: %s", sz, need, rc(r).c_str());
        else { CHECK(!r && l == want.size() && std::string((char *)o.p, l) == want && !o.p[l], "enc-value", "one-shot encoding of %zu bytes wrong (%s, %u characters)", b.size(), rc(r).c_str(), l); }
    }
    // streamed
    bool nl = g.boolean(); std::string exp; for (size_t i = 0; i < want.size(); i += 64) { exp += want.substr(i, 64); if (nl) exp += '\n'; }
    BSL_Base64Ctx *c = BSL_BASE64_CtxNew(); CHECK(c, "ctx", "no context"); Own<BSL_Base64Ctx, BSL_BASE64_CtxFree> own(c);
    if (g.chance(1, 3)) { // dirty history
        Bytes d = g.bytes(g.range(1, 100)); std::vector<char> o(400); uint32_t l = 400;
        if (g.boolean()) { BSL_BASE64_EncodeInit(c); BSL_BASE64_EncodeUpdate(c, d.data(), (uint32_t)d.size(), o.data(), &l); }
        else { BSL_BASE64_DecodeInit(c); std::string t = enc(d); BSL_BASE64_DecodeUpdate(c, t.data(), (uint32_t)t.size(), (uint8_t *)o.data(), &l); if (g.boolean()) { l = 400; BSL_BASE64_DecodeUpdate(c, "=", 1, (uint8_t *)o.data(), &l); } }
        if (g.boolean()) BSL_BASE64_CtxClear(c);
    }
    CHECK(!BSL_BASE64_EncodeInit(c), "init", "EncodeInit failed"); if (!nl) BSL_BASE64_SetFlags(c, BSL_BASE64_FLAGS_NO_NEWLINE);
    std::string got; size_t p = 0, held = 0; int n = 0;
    while (p < b.size()) {
        size_t k = std::min(b.size() - p, (size_t)(g.chance(1, 2) ? g.range(1, 60) : g.chance(1, 2) ? g.range(1, 4) : g.range(1, 400))); Exact in(b.data() + p, k); n++;
        uint32_t need = (uint32_t)((held + k) / 48 * 65 + 1), big = (uint32_t)HITLS_BASE64_ENCODE_LENGTH(k); uint32_t sz = g.chance(1, 6) ? (uint32_t)g.range(0, need) : g.boolean() ? need : big;
        Exact o(sz); uint32_t l = sz; int32_t r = BSL_BASE64_EncodeUpdate(c, in.p, (uint32_t)k, (char *)o.p, &l);
        if (r == BSL_BASE64_BUF_NOT_ENOUGH && sz < need) { Exact o2(need); l = need; r = BSL_BASE64_EncodeUpdate(c, in.p, (uint32_t)k, (char *)o2.p, &l); CHECK(!r && l < need + 1, "enc-retry", "retry with a sufficient buffer failed"); got.append((char *)o2.p, l); }
        else { CHECK(!r && l <= sz, "enc-update", "update of %zu bytes with %u byte buffer: %s", k, sz, rc(r).c_str()); got.append((char *)o.p, l); }
        p += k; held = (held + k) % 48;
    }
    Exact f(held ? (held + 2) / 3 * 4 + 1 + nl : g.range(0, 3)); uint32_t l = (uint32_t)f.n;
    if (held && g.chance(1, 4)) { uint32_t s = (uint32_t)g.range(0, f.n - 1); Exact t(s); CHECK(BSL_BASE64_EncodeFinal(c, (char *)t.p, &s), "enc-final-small", "final wrote into a %zu byte buffer", t.n); }
    int32_t r = BSL_BASE64_EncodeFinal(c, (char *)f.p, &l); CHECK(!r && l <= f.n, "enc-final", "final: %s", rc(r).c_str()); got.append((char *)f.p, l);
    CHECK(got == exp, "enc-stream", "streamed encoding of %zu bytes in %d chunks (newline %d) differs from the one-shot text: %zu vs %zu characters", b.size(), n, nl, got.size(), exp.size());
}
PBT_TEST(decode, 40000, 900000, 0, 300)
{
    Bytes b = g.bytes(plen(g)); std::string t = enc(b); g.label("valid");
    if (g.chance(1, 2)) { std::string u; size_t w = g.range(1, 80); for (size_t i = 0; i < t.size(); i++) { if (i && i % w == 0) u += g.pick<const char *>({"\n", "\r\n", " ", "\n"}); u += t[i]; } t = u; }
    if (g.chance(1, 2)) t += g.pick<const char *>({"\n", "\r\n", " \n", "  "});
    if (g.chance(1, 2)) for (int k = (int)g.range(1, 2); k--;) { g.label("damaged");
        size_t at = t.empty() ? 0 : g.chance(1, 2) ? t.size() - 1 - g.draw(std::min<size_t>(t.size(), 5) - 1) : g.draw(t.size() - 1);
        switch (g.draw(5)) {
        case 0: if (!t.empty()) t.erase(at, g.range(1, 3)); break;
        case 1: t.insert(at, g.range(1, 4), '='); break;
        case 2: t.insert(at, 1, AL[g.draw(63)]); break;
        case 3: { char ch; do { ch = (char)g.draw(255); } while (strchr("\t\v\f", ch) && ch); if (!t.empty()) t[at] = ch; else t += ch; break; }
        case 4: if (!t.empty()) t.resize(at); break;
        default: t += t.substr(at); }
    }
    Bytes ref; int ok = dec(t, ref); if (t.size() >= 4) g.nontrivial(); g.note("decode \"%s\"%s", t.substr(0, 70).c_str(), ok == 1 ? "" : " (not valid)"); g.label(ok == 1 ? "ref-accepts" : "ref-rejects");
    Exact in((const uint8_t *)t.data(), t.size()); uint32_t need = (uint32_t)((t.size() + 3) / 4 * 3);
    { Exact o(need); uint32_t l = need; int32_t r = BSL_BASE64_Decode((char *)in.p, (uint32_t)t.size(), o.p, &l);
      if (ok == 1) CHECK(!r && l == ref.size() && !memcmp(o.p, ref.data(), l), "dec-value", "one-shot decoding of %zu characters wrong: %s, %u bytes of %zu", t.size(), rc(r).c_str(), l, ref.size());
      else if (!ok) CHECK(r, "dec-accept", "one-shot decoder accepted malformed text"); 
      if (need && g.chance(1, 3)) { uint32_t s = (uint32_t)g.range(0, need - 1); Exact q(s); CHECK(BSL_BASE64_Decode((char *)in.p, (uint32_t)t.size(), q.p, &s), "dec-small", "decoder ran with a %zu byte buffer of %u needed", q.n, need); } }
    Own<BSL_Base64Ctx, BSL_BASE64_CtxFree> c(BSL_BASE64_CtxNew());
    if (g.chance(1, 3)) { uint8_t o[200]; uint32_t l = 200; BSL_BASE64_DecodeInit(c); BSL_BASE64_DecodeUpdate(c, "AAAAB=", 6, o, &l); if (g.boolean()) { l = 200; BSL_BASE64_DecodeFinal(c, o, &l); } }
    BSL_BASE64_DecodeInit(c); Bytes got; size_t p = 0; int32_t r = 0; int n = 0; uint32_t held = 0;
    while (p < t.size() && !r) {
        size_t k = std::min(t.size() - p, (size_t)(g.chance(1, 2) ? g.range(1, 80) : g.chance(1, 2) ? g.range(1, 4) : g.range(1, 400))); Exact i2((const uint8_t *)t.data() + p, k); n++;
        uint32_t nd = g.boolean() ? (uint32_t)((held + k) / 64 * 48) : (uint32_t)HITLS_BASE64_DECODE_LENGTH(k); Exact o(nd); uint32_t l = nd;
        r = BSL_BASE64_DecodeUpdate(c, (char *)i2.p, (uint32_t)k, o.p, &l); CHECK(r != BSL_BASE64_BUF_NOT_ENOUGH, "dec-buf", "a buffer of %u bytes was refused for %zu characters", nd, k);
        if (!r) { CHECK(l <= nd, "dec-len", "length %u beyond the buffer", l); got.insert(got.end(), o.p, o.p + l); for (size_t i = 0; i < k; i++) if (t[p + i] && strchr(AL, t[p + i])) held = (held + 1) % 64; }
        p += k;
    }
    if (!r) { uint32_t nd = (held + 3) / 4 * 3; Exact o(nd); uint32_t l = nd; r = BSL_BASE64_DecodeFinal(c, o.p, &l); if (!r) got.insert(got.end(), o.p, o.p + l); }
    if (ok == 1) CHECK(!r && got == ref, "dec-stream", "streamed decoding in %d chunks of a valid text: %s, %zu bytes of %zu", n, rc(r).c_str(), got.size(), ref.size());
    else if (ok == 0) CHECK(r, "dec-stream-accept", "streamed decoder accepted malformed text (%d chunks)", n);
}
static const struct { const char *label, *head, *tail, *type; } LB[] = {
#define L(s, t) {s, "-----BEGIN " s "-----", "-----END " s "-----", t}
    L("CERTIFICATE", "CERT"), L("X509 CRL", "CRL"), L("PUBLIC KEY", "PUBKEY_SUBKEY"), L("RSA PUBLIC KEY", "PUBKEY_RSA"), L("RSA PRIVATE KEY", "PRIKEY_RSA"), L("EC PRIVATE KEY", "PRIKEY_ECC"),
    L("PRIVATE KEY", "PRIKEY_PKCS8_UNENCRYPT"), L("ENCRYPTED PRIVATE KEY", "PRIKEY_PKCS8_ENCRYPT"), L("CERTIFICATE REQUEST", "CSR")};
PBT_TEST(pem, 20000, 600000, 0, 300)
{
    int lb = (int)g.draw(8), cnt = (int)g.range(1, 3); std::vector<Bytes> pay; std::string text; BSL_PEM_Symbol sy = {LB[lb].head, LB[lb].tail}; long live = memCtl().live; g.note("%d x %s", cnt, LB[lb].label); g.nontrivial();
    for (int i = 0; i < cnt; i++) {
        Bytes b = g.bytes(std::max<size_t>(1, plen(g))); pay.push_back(b); char *e = nullptr; uint32_t el = 0; Exact in(b);
        int32_t r = BSL_PEM_EncodeAsn1ToPem(in.p, (uint32_t)b.size(), &sy, &e, &el); CHECK(!r && e, "pem-enc", "encode failed %s", rc(r).c_str());
        BIO *m = BIO_new(BIO_s_mem()); PEM_write_bio(m, LB[lb].label, "", b.data(), (long)b.size()); char *q; long ql = BIO_get_mem_data(m, &q); std::string want(q, ql), have(e, el); BIO_free(m);
        bool z = e[el] == 0; BSL_SAL_Free(e);
        CHECK(have == want && z, "pem-text", "%zu byte payload: text of %zu characters, expected %zu", b.size(), have.size(), want.size());
        if (g.chance(1, 3)) text += g.pick<const char *>({"subject=x\n", "junk - -- ---- \n", "\r\n", "=====\n"});
        text += have; if (g.chance(1, 3)) text += g.pick<const char *>({"\n", "trailing", " \r\n"});
    }
    bool dmg = g.chance(1, 3); if (dmg) { size_t at = g.draw(text.size() - 1); if (g.boolean()) text.resize(at); else text[at] = (char)g.draw(255); g.label("damaged"); }
    Exact buf((const uint8_t *)text.data(), text.size()); char *p = (char *)buf.p; uint32_t n = (uint32_t)text.size(); size_t off = 0;
    CHECK(dmg || BSL_PEM_IsPemFormat(p, n), "pem-is", "own PEM not recognised");
    if (!dmg) { BSL_PEM_Symbol s2; const char *ty = nullptr; CHECK(!BSL_PEM_GetSymbolAndType(p, n, &s2, &ty) && !strcmp(ty, LB[lb].type) && !strcmp(s2.head, LB[lb].head), "pem-type", "type of %s reported as %s", LB[lb].label, ty ? ty : "none"); }
    else { BSL_PEM_Symbol s2; const char *ty = nullptr; BSL_PEM_IsPemFormat(p, n); BSL_PEM_GetSymbolAndType(p, n, &s2, &ty); }
    for (int i = 0;; i++) {
        size_t h = text.find(sy.head, off), t = h == std::string::npos ? h : text.find(sy.tail, h + strlen(sy.head)); Bytes ref; int ok = 0;
        if (t != std::string::npos) ok = dec(text.substr(h + strlen(sy.head), t - h - strlen(sy.head)), ref);
        bool ws = t != std::string::npos && text.substr(h + strlen(sy.head), t - h - strlen(sy.head)).find_first_of("\t\v\f") != std::string::npos; // not judged
        uint8_t *a = nullptr; uint32_t al = 0; char *p0 = p; uint32_t n0 = n; int32_t r = BSL_PEM_DecodePemToAsn1(&p, &n, &sy, &a, &al); Bytes got; if (!r) { got.assign(a, a + al); BSL_SAL_Free(a); }
        CHECK(r || (size_t)(p - (char *)buf.p) + n == text.size(), "pem-rest", "remaining pointer/length do not end at the buffer end"); CHECK(!r || (p == p0 && n == n0), "pem-moved", "position moved although decoding failed");
        if (ws || ok == 2) break;
        if (ok != 1) { CHECK(r, "pem-accept", "block %d decoded although it is malformed", i); break; }
        CHECK(!r && got == ref, "pem-value", "block %d: %s, %zu bytes, expected %zu", i, rc(r).c_str(), got.size(), ref.size());
        off = t + strlen(sy.tail); CHECK((size_t)(p - (char *)buf.p) == off, "pem-next", "position after block %d is %zu, expected %zu", i, (size_t)(p - (char *)buf.p), off);
        if (!dmg) CHECK(i < cnt && got == pay[i], "pem-roundtrip", "payload %d differs", i);
    }
    BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, "pem-leak", "leak of %ld", memCtl().live - live);
}
