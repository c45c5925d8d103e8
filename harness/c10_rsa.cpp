#include "rsaref.hpp"
using namespace rsaref;
const char *pbt::PROPERTY_RULE =
    "keys of 512..3072 bits (multiples of 8 and not, e=3..2^32+15, d mod lambda or phi) loaded as (n,d), +e, +p,q or full CRT, duplicated or reused. sign: PKCS1 bit-compared, PSS decoded, against own RFC 8017 encoder; "
    "verify: signatures over encoded messages built here, then altered (before the private operation: forged padding with a correct power; after: bit flips, +n, length, leading zeros) judged by a strict RFC 8017 model; "
    "crypt: OAEP/PKCS1/raw both directions, forged encoded messages; blind: RSABSSA blind-sign-unblind; recover. Non-trivial: model verdict/value compared.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"OpenSSL BIGNUM arithmetic is correct", "digests are correct (C01)"};
void pbt::setup() { useScrRand(); }
static CRYPT_EAL_PkeyCtx *nk(G &g) { CRYPT_EAL_PkeyCtx *k = g.boolean() ? CRYPT_EAL_PkeyNewCtx(CRYPT_PKEY_RSA) : CRYPT_EAL_ProviderPkeyNewCtx(nullptr, CRYPT_PKEY_RSA, 0, "provider=default"); CHECK(k, "new", "no RSA context"); return k; }
static void setPub(CRYPT_EAL_PkeyCtx *c, const Key &k) { Exact n(k.n.bin()), e(k.e.bin()); CRYPT_EAL_PkeyPub p = {}; p.id = CRYPT_PKEY_RSA; p.key.rsaPub.n = n.p; p.key.rsaPub.nLen = n.n; p.key.rsaPub.e = e.p; p.key.rsaPub.eLen = e.n; int32_t r = CRYPT_EAL_PkeySetPub(c, &p); CHECK(!r, "rsa-setpub", "%d bits: SetPub %s", k.bits, rc(r).c_str()); }
static int setPrv(G &g, CRYPT_EAL_PkeyCtx *c, const Key &k)
{
    int how = (int)g.draw(4); Exact n(k.n.bin()), e(k.e.bin()), d(k.d.bin()), P(k.p.bin()), Q(k.q.bin()), dp(k.dp.bin()), dq(k.dq.bin()), qi(k.qi.bin()); CRYPT_EAL_PkeyPrv p = {}; p.id = CRYPT_PKEY_RSA; CRYPT_RsaPrv &r = p.key.rsaPrv;
    r.n = n.p; r.nLen = n.n; r.d = d.p; r.dLen = d.n; bool we = how != 1; if (we) { r.e = e.p; r.eLen = e.n; }
    if (how >= 2) { r.p = P.p; r.pLen = P.n; r.q = Q.p; r.qLen = Q.n; } if (how >= 3) { r.dP = dp.p; r.dPLen = dp.n; r.dQ = dq.p; r.dQLen = dq.n; r.qInv = qi.p; r.qInvLen = qi.n; }
    int32_t x = CRYPT_EAL_PkeySetPrv(c, &p); CHECK(!x, "rsa-setprv", "%d bits how=%d: SetPrv %s", k.bits, how, rc(x).c_str()); g.label(sfmt("prv%d", how));
    uint32_t fl = CRYPT_RSA_BLINDING; if (how == 1 || g.boolean()) { x = CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_CLR_RSA_FLAG, &fl, 4); CHECK(!x, "rsa-flag", "clear flag %s", rc(x).c_str()); }  // blinding needs e
    return how;
}
static int32_t setPss(CRYPT_EAL_PkeyCtx *c, const Hash &h, const Hash &m, int32_t sl) { int32_t a = h.id, b = m.id; BSL_Param p[4] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &a, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &b, 4, 0}, {CRYPT_PARAM_RSA_SALTLEN, BSL_PARAM_TYPE_INT32, &sl, 4, 0}, BSL_PARAM_END}; return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_EMSA_PSS, p, 0); }
static int32_t setOaep(CRYPT_EAL_PkeyCtx *c, const Hash &h, const Hash &m) { int32_t a = h.id, b = m.id; BSL_Param p[3] = {{CRYPT_PARAM_RSA_MD_ID, BSL_PARAM_TYPE_INT32, &a, 4, 0}, {CRYPT_PARAM_RSA_MGF1_ID, BSL_PARAM_TYPE_INT32, &b, 4, 0}, BSL_PARAM_END}; return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_RSAES_OAEP, p, 0); }
static int32_t set15(CRYPT_EAL_PkeyCtx *c, const Hash &h) { int32_t id = h.id; return CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_EMSA_PKCSV15, &id, 4); }
static const Key &anyKey(G &g) { size_t i = g.weighted({8, 4, 4, 4, 3, 4, 1, 1, 3, 3, 3, 2, 1, 3, 0}); const Key &k = key(i); g.label(sfmt("%db", k.bits)); return k; }
static void dup(G &g, PkeyCtx &k) { if (g.chance(1, 4)) { CRYPT_EAL_PkeyCtx *d = CRYPT_EAL_PkeyDupCtx(k); CHECK(d, "dup", "dup failed"); k.reset(d); } }
static Bytes pad(const Bytes &b, size_t n) { Bytes r(n > b.size() ? n - b.size() : 0, 0); return cat(r, b); }

PBT_TEST(sign, 3000, 60000)
{
    seedRand(g); setScript({}); const Key &k = anyKey(g); PkeyCtx c(nk(g)); setPrv(g, c, k); if (g.boolean()) setPub(c, k); dup(g, c);
    bool blind = false;
    for (int rep = 0, nr = 1 + (int)g.draw(2); rep < nr; rep++) {
        bool pss = g.boolean(); const Hash &h = HS[g.draw(pss ? 5 : 6)]; const Hash &m = HS[pss && g.boolean() ? g.draw(5) : (size_t)(&h - HS)]; long sl = 0; size_t mx = pssEmLen(k) >= h.len + 2 ? pssEmLen(k) - h.len - 2 : 0; bool fits = true;
        if (pss) {
            fits = pssEmLen(k) >= h.len + 2; int32_t s = g.pick({-1, -2, 0, 1, (int)mx, (int)(mx ? mx - 1 : 0), (int)g.draw(mx)}); sl = s == -1 ? (long)h.len : s == -2 ? (long)mx : s; if (sl > (long)mx) fits = false;
            int32_t r = setPss(c, h, m, s); if (r) { CHECK(!fits || (size_t)k.k < h.len + 2, "pss-set", "%d bits %s salt %d: refused %s", k.bits, h.n, s, rc(r).c_str()); continue; }
            if (s >= 0 && s == sl && sl > 0 && g.chance(1, 4)) { /* caller-supplied salt is exercised below */ }
        } else { REQUIRE_OK(set15(c, h), "p15-set"); fits = unhex(h.prefix).size() + h.len + 11 <= (size_t)k.k; }
        dup(g, c);
        Bytes msg = g.bytes(g.len(0, 90)), dig = osslMd(h.n, msg); Exact mb(msg), db(dig), o((size_t)k.k); uint32_t ol = (uint32_t)k.k; bool raw = g.boolean();
        int32_t r = raw ? CRYPT_EAL_PkeySignData(c, db.p, (uint32_t)db.n, o.p, &ol) : CRYPT_EAL_PkeySign(c, h.id, mb.p, (uint32_t)mb.n, o.p, &ol);
        if (!fits) { CHECK(r, "rsa-toolong", "%d bits %s: encoding cannot fit but signing succeeded", k.bits, h.n); g.label("too-long"); continue; }
        CHECK(!r && ol == (uint32_t)k.k, "rsa-sign", "%d bits %s %s salt %ld blind %d: sign %s", k.bits, h.n, pss ? "PSS" : "PKCS1", sl, blind, rc(r).c_str());
        Bytes em = N(o.vec()).pow(k.e, k.n).bin(k.k); g.nontrivial();
        if (pss) { long got = pssCheck(k, h, m, dig, em, -1); CHECK(got == sl, "pss-invalid", "%d bits %s/%s: PSS signature has salt %ld, expected %ld", k.bits, h.n, m.n, got, sl); }
        else CHECK(em == emPkcs1(k, h, dig), "p15-invalid", "%d bits %s: PKCS#1 encoded message %s", k.bits, h.n, hex(em, 300).c_str());
        g.note("%d %s %s salt=%ld", k.bits, h.n, pss ? "PSS" : "PKCS1", sl);
        if (raw && g.chance(1, 8)) { Bytes dd = dig; if (g.boolean()) dd.push_back(0); else dd.pop_back(); Exact e2(dd); uint32_t l2 = (uint32_t)k.k; CHECK(CRYPT_EAL_PkeySignData(c, e2.p, (uint32_t)e2.n, o.p, &l2) || !pss, "rsa-hashlen", "%s: digest of %zu bytes accepted", h.n, dd.size()); }
    }
}
PBT_TEST(verify, 12000, 300000)
{
    seedRand(g); setScript({}); const Key &k = anyKey(g); bool pss = g.boolean(); const Hash &h = HS[g.draw(pss ? 5 : 6)]; const Hash &m = HS[pss && g.boolean() ? g.draw(5) : (size_t)(&h - HS)]; Bytes msg = g.bytes(g.len(0, 60)), dig = osslMd(h.n, msg); PkeyCtx c(nk(g)); setPub(c, k); Bytes em; int32_t sset = 0; size_t mx = pssEmLen(k) >= h.len + 2 ? pssEmLen(k) - h.len - 2 : 0;
    if (pss) {
        if (pssEmLen(k) < h.len + 2) discard(); size_t s = g.weighted({2, 1, 1, 2}) == 0 && h.len <= mx ? h.len : g.pick<size_t>({0, mx, g.draw(mx)}); em = emPss(k, h, m, dig, g.bytes(s)); sset = g.pick({(int32_t)s, (int32_t)s, -1, -3, (int32_t)(s ? s - 1 : 1), (int32_t)(s + 1)}); if (setPss(c, h, m, sset)) discard();
        // forged paddings under a correct private-key operation
        if (g.chance(1, 2)) { size_t el = pssEmLen(k), off = em.size() - el; Bytes H(em.begin() + off + (el - h.len - 1), em.end() - 1); size_t dbl = el - h.len - 1; Bytes mask = mgf1(m, H, dbl);
            switch (g.draw(6)) { case 0: em.back() = (uint8_t)g.draw(255); break; case 1: em[off + g.draw(dbl - 1)] ^= 1 << g.draw(7); break; case 2: em[off] |= (uint8_t)(0x100 >> (1 + g.draw(7))); break; case 3: { size_t p = dbl - s - 1; em[off + p] ^= 1 ^ (uint8_t)g.draw(255); break; } case 4: { size_t p = dbl - s - 1; if (p) em[off + g.draw(p - 1)] ^= (uint8_t)(1 + g.draw(254)); break; } case 5: em[off + dbl + g.draw(h.len - 1)] ^= 1 << g.draw(7); break; default: if (off) em[0] = 1; else em[off] ^= 0x80; } g.label("forged-pss"); }
    } else {
        em = emPkcs1(k, h, dig); if (em.empty()) discard(); REQUIRE_OK(set15(c, h), "p15-set");
        if (g.chance(1, 2)) { Bytes t = cat(unhex(h.prefix), dig); size_t ps = em.size() - t.size() - 3;
            switch (g.draw(7)) { case 0: em[1] = g.pick({0, 2, 0x81}); break; case 1: em[0] = 1; break; case 2: em[2 + g.draw(ps - 1)] = (uint8_t)g.draw(255); break; case 3: em[2 + ps] = (uint8_t)g.draw(255); break; case 4: em[3 + ps + g.draw(t.size() - 1)] ^= 1 << g.draw(7); break;
                case 5: { size_t sh = 1 + g.draw(ps > 9 ? ps - 9 : 0); if (sh >= ps) sh = 1; Bytes e2{0, 1}; e2.resize(2 + ps - sh, 0xff); e2.push_back(0); e2 = cat(e2, t); Bytes tail = g.bytes(sh); em = cat(e2, tail); g.label("short-ps+garbage"); break; }  // Bleichenbacher'06
                case 6: { std::string pf = h.prefix; Bytes t2 = unhex(h.prefix); t2[1] -= 2; t2[3] -= 2; size_t nulAt = t2.size() - 4; t2.erase(t2.begin() + nulAt, t2.begin() + nulAt + 2); t2 = cat(t2, dig); Bytes e2{0, 1}; e2.resize(k.k - t2.size() - 1, 0xff); e2.push_back(0); em = cat(e2, t2); g.label("no-null-params"); break; }
                default: { Bytes e2{0, 1}; e2.resize(k.k - dig.size() - 1, 0xff); e2.push_back(0); em = cat(e2, dig); g.label("no-digestinfo"); } } g.label("forged-p15"); }
    }
    N E(em); if (E >= k.n) discard(); N S = E.pow(k.d, k.n); Bytes sig = S.bin(k.k); int post = (int)g.weighted({6, 2, 1, 1, 1, 1});
    if (post == 1) sig[g.draw(sig.size() - 1)] ^= 1 << g.draw(7); else if (post == 2) { N T = S + k.n; sig = T.bin(std::max(k.k, (T.bits() + 7) / 8)); g.label("s+n"); } else if (post == 3) { if (g.boolean()) sig.insert(sig.begin(), 0); else sig.push_back(0); } else if (post == 4) { if (g.boolean() && sig[0] == 0) sig.erase(sig.begin()); else sig.resize(g.draw(sig.size() - 1)); } else if (post == 5) { N T = g.pick({N(0), N(1), k.n - N(1), k.n}); sig = T.bin(k.k); }
    N s2(sig); bool want = false, gray = false; if (s2 < k.n) { Bytes e2 = s2.pow(k.e, k.n).bin(k.k); long L = sset == -1 ? (long)h.len : sset == -3 ? -1 : sset; want = pss ? pssCheck(k, h, m, dig, e2, L) >= 0 : e2 == emPkcs1(k, h, dig); }
    if (sig.size() != (size_t)k.k) { if (want && sig.size() < (size_t)k.k) gray = true; want = false; }  // same integer with leading zeros stripped
    bool raw = g.boolean(); Exact mb(msg), db(dig), sb(sig); dup(g, c); int32_t r = raw ? CRYPT_EAL_PkeyVerifyData(c, db.p, (uint32_t)db.n, sb.p, (uint32_t)sb.n) : CRYPT_EAL_PkeyVerify(c, h.id, mb.p, (uint32_t)mb.n, sb.p, (uint32_t)sb.n);
    CHECK(gray || (r == 0) == want, want ? "rsa-refused" : "rsa-accepted", "%d bits e=%s %s %s/%s saltset=%d post=%d siglen=%zu EM=%s: verify %s, model %s", k.bits, k.e.str().c_str(), pss ? "PSS" : "PKCS1", h.n, m.n, sset, post, sig.size(), hex(em, 300).c_str(), rc(r).c_str(), want ? "accepts" : "rejects");
    g.nontrivial(); g.label(want ? "valid" : "invalid");
    if (!pss && g.chance(1, 4)) {  // recover
        int32_t id = h.id; REQUIRE_OK(CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_RSAES_PKCSV15, &id, 4), "rsa-rec-set"); Exact o((size_t)64); uint32_t ol = 64; r = CRYPT_EAL_PkeyVerifyRecover(c, sb.p, (uint32_t)sb.n, o.p, &ol);
        Bytes e2 = s2 < k.n ? s2.pow(k.e, k.n).bin(k.k) : Bytes(); Bytes dd = e2.empty() ? Bytes() : Bytes(e2.end() - h.len, e2.end()); bool w = sig.size() == (size_t)k.k && !e2.empty() && e2 == emPkcs1(k, h, dd);
        if (!gray && sig.size() >= (size_t)k.k) CHECK((r == 0) == w && (!w || Bytes(o.p, o.p + ol) == dd), "rsa-recover", "recover %s, model %d", rc(r).c_str(), w);
    }
    g.note("%d %s %s post=%d %s", k.bits, pss ? "PSS" : "PKCS1", h.n, post, want ? "valid" : "invalid");
}
PBT_TEST(crypt, 5000, 120000)
{
    seedRand(g); setScript({}); const Key &k = anyKey(g); PkeyCtx c(nk(g)), q(nk(g)); setPrv(g, c, k); setPub(q, k); int mode = (int)g.draw(3); const Hash &h = HS[g.draw(5)]; const Hash &m = HS[g.boolean() ? g.draw(5) : (size_t)(&h - HS)]; Bytes label; int32_t id = CRYPT_MD_SHA256;
    for (CRYPT_EAL_PkeyCtx *x : {(CRYPT_EAL_PkeyCtx *)c, (CRYPT_EAL_PkeyCtx *)q}) {
        int32_t r = mode == 0 ? setOaep(x, h, m) : mode == 1 ? CRYPT_EAL_PkeyCtrl(x, CRYPT_CTRL_SET_RSA_RSAES_PKCSV15, &id, 4) : mode == 2 ? CRYPT_EAL_PkeyCtrl(x, CRYPT_CTRL_SET_NO_PADDING, nullptr, 0) : CRYPT_EAL_PkeyCtrl(x, CRYPT_CTRL_SET_RSA_RSAES_PKCSV15_TLS, &id, 4);
        if (mode == 2 && r) { int32_t np = CRYPT_RSA_NO_PAD; r = CRYPT_EAL_PkeyCtrl(x, CRYPT_CTRL_SET_RSA_PADDING, &np, 4); } CHECK(!r, "rsa-setpad", "mode %d %s", mode, rc(r).c_str()); }
    if (mode == 0 && g.boolean()) { label = g.bytes(1 + g.draw(60)); Exact lb(label); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(c, CRYPT_CTRL_SET_RSA_OAEP_LABEL, lb.p, (uint32_t)lb.n), "label"); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(q, CRYPT_CTRL_SET_RSA_OAEP_LABEL, lb.p, (uint32_t)lb.n), "label"); }
    static const char *MN[] = {"OAEP", "PKCS1", "RAW", "PKCS1-TLS"}; g.label(MN[mode]); dup(g, c); dup(g, q);
    long mx = mode == 0 ? (long)k.k - 2 * (long)h.len - 2 : mode == 2 ? k.k : k.k - 11; if (mx < 0) discard();
    Bytes msg = g.bytes(mode == 2 ? k.k : g.pick<size_t>({0, 1, (size_t)mx, (size_t)(mx ? mx - 1 : 0), g.draw(mx), g.draw(mx)})); if (mode == 2) { N v = N(msg) % k.n; if (g.chance(1, 5)) v = g.pick({N(0), N(1), k.n - N(1)}); msg = v.bin(k.k); }
    {   // encrypt here, decrypt with the model
        Bytes in = msg; bool over = g.chance(1, 10); if (over) { if (mode == 2) in = (k.n + N(g.draw(3))).bits() <= 8 * k.k ? (k.n + N(g.draw(3))).bin(k.k) : Bytes(k.k, 0xff); else in = g.bytes(mx + 1 + g.draw(3)); }
        Exact ib(in), o((size_t)k.k); uint32_t ol = (uint32_t)k.k; int32_t r = CRYPT_EAL_PkeyEncrypt(q, ib.p, (uint32_t)ib.n, o.p, &ol);
        if (over) CHECK(r, "rsa-enc-over", "%s: %zu bytes accepted (%d bits)", MN[mode], in.size(), k.bits);
        else { CHECK(!r && ol == (uint32_t)k.k, "rsa-enc", "%s %d bits, %zu bytes: encrypt %s", MN[mode], k.bits, in.size(), rc(r).c_str()); Bytes em = N(o.vec()).pow(k.d, k.n).bin(k.k), got; bool ok = mode == 0 ? oaepDec(k, h, m, em, label, got) : mode == 2 ? (got = em, true) : p15Dec(em, got); CHECK(ok && got == in, "rsa-enc-value", "%s %d bits: model decrypts %s, plaintext %s", MN[mode], k.bits, ok ? hex(got).c_str() : "nothing", hex(in).c_str()); }
    }
    // model encodes (maybe forged), decrypt here
    Bytes em = mode == 0 ? emOaep(k, h, m, msg, label, g.bytes(h.len)) : msg; if (mode == 1 || mode == 3) { em = Bytes{0, 2}; Bytes ps = g.bytes(k.k - 3 - msg.size()); for (auto &x : ps) if (!x) x = 1; em = cat(cat(em, ps), cat(Bytes{0}, msg)); }
    if (mode != 2 && g.chance(1, 2)) {
        if (mode == 0) { Bytes sd(em.begin() + 1, em.begin() + 1 + h.len), db(em.begin() + 1 + h.len, em.end()); sd = xr(sd, mgf1(m, db, h.len)); db = xr(db, mgf1(m, sd, db.size()));
            switch (g.draw(4)) { case 0: db[g.draw(h.len - 1)] ^= 1 << g.draw(7); break; case 1: { size_t one = db.size() - msg.size() - 1; db[one] = (uint8_t)g.draw(255); break; } case 2: { size_t one = db.size() - msg.size() - 1; if (one > h.len) db[h.len + g.draw(one - h.len - 1)] = (uint8_t)g.draw(255); break; } case 3: std::fill(db.begin() + h.len, db.end(), 0); break; default: break; }
            db = xr(db, mgf1(m, sd, db.size())); sd = xr(sd, mgf1(m, db, h.len)); em = cat(cat(Bytes{(uint8_t)(g.chance(1, 4) ? 1 : 0)}, sd), db); }
        else switch (g.draw(5)) { case 0: em[0] = 1; break; case 1: em[1] = (uint8_t)g.draw(3); break; case 2: em[2 + g.draw(7)] = 0; break; case 3: for (size_t i = 2; i < em.size(); i++) if (!em[i]) em[i] = 0x55; break; case 4: em[10] = 0; break; default: em[2 + g.draw(em.size() - 3)] ^= 1 << g.draw(7); }
        g.label("forged"); }
    N E(em); if (E >= k.n) discard(); N C = E.pow(k.e, k.n); Bytes ct = C.bin(k.k); int post = (int)g.weighted({6, 1, 1, 1}); 
    if (post == 1) { N T = C + k.n; ct = T.bin(std::max(k.k, (T.bits() + 7) / 8)); } else if (post == 2) { ct.push_back(1); } else if (post == 3) { ct[g.draw(ct.size() - 1)] ^= 1 << g.draw(7); }
    Bytes want; bool ok; { N c2(ct); if (c2 >= k.n) ok = false; else { Bytes e2 = c2.pow(k.d, k.n).bin(k.k); ok = mode == 0 ? oaepDec(k, h, m, e2, label, want) : mode == 2 ? (want = e2, true) : p15Dec(e2, want); } }
    Exact cb(ct), o((size_t)k.k); uint32_t ol = (uint32_t)k.k; if (ok && g.chance(1, 6) && want.size() > 0) { Exact s(want.size() - 1); uint32_t sl = (uint32_t)s.n; CHECK(CRYPT_EAL_PkeyDecrypt(c, cb.p, (uint32_t)cb.n, s.p, &sl), "rsa-dec-short", "%s: short output buffer accepted", MN[mode]); }
    int32_t r = CRYPT_EAL_PkeyDecrypt(c, cb.p, (uint32_t)cb.n, o.p, &ol);
    CHECK((r == 0) == ok, ok ? "rsa-dec-refused" : "rsa-dec-accepted", "%s %d bits post=%d EM=%s: decrypt %s, model %s", MN[mode], k.bits, post, hex(em, 300).c_str(), rc(r).c_str(), ok ? "accepts" : "rejects");
    if (ok) CHECK(ol == want.size() && Bytes(o.p, o.p + ol) == want, "rsa-dec-value", "%s %d bits: %u bytes %s expected %zu bytes %s", MN[mode], k.bits, ol, hex(o.p, ol).c_str(), want.size(), hex(want).c_str());
    g.nontrivial(); g.label(ok ? "valid" : "invalid"); g.note("%d %s post=%d %s", k.bits, MN[mode], post, ok ? "valid" : "invalid");
}
PBT_TEST(blind, 800, 15000)
{
    seedRand(g); setScript({}); const Key &k = anyKey(g); const Hash &h = HS[g.draw(4)]; if (pssEmLen(k) < h.len + 2) discard(); size_t mx = pssEmLen(k) - h.len - 2; int32_t sl = (int32_t)g.pick<size_t>({0, std::min(mx, h.len), g.draw(mx)});
    PkeyCtx cl(nk(g)), sv(nk(g)); setPub(cl, k); setPrv(g, sv, k); setPub(sv, k); uint32_t fl = CRYPT_RSA_BSSA; if (setPss(cl, h, h, sl) || setPss(sv, h, h, sl)) discard();
    REQUIRE_OK(CRYPT_EAL_PkeyCtrl(cl, CRYPT_CTRL_SET_RSA_FLAG, &fl, 4), "bssa-flag"); REQUIRE_OK(CRYPT_EAL_PkeyCtrl(sv, CRYPT_CTRL_SET_RSA_FLAG, &fl, 4), "bssa-flag");
    for (int rep = 0, nr = 1 + (int)g.draw(1); rep < nr; rep++) {
    Bytes msg = g.bytes(g.len(1, 80)), dig = osslMd(h.n, msg); Exact mb(msg), b((size_t)k.k), s((size_t)k.k), u((size_t)k.k); uint32_t bl = k.k, s2 = k.k, ul = k.k;
    int32_t r = CRYPT_EAL_PkeyBlind(cl, h.id, mb.p, (uint32_t)mb.n, b.p, &bl); CHECK(!r && bl == (uint32_t)k.k, "bssa-blind", "%d bits salt %d: blind %s", k.bits, sl, rc(r).c_str());
    r = CRYPT_EAL_PkeySignData(sv, b.p, bl, s.p, &s2); CHECK(!r && s2 == (uint32_t)k.k, "bssa-sign", "blind sign %s", rc(r).c_str()); CHECK(N(s.vec()).pow(k.e, k.n) == N(b.vec()), "bssa-sign-value", "blind signature is not the raw power");
    bool bad = g.chance(1, 4); if (bad) s.p[g.draw(k.k - 1)] ^= 1 << g.draw(7);
    r = CRYPT_EAL_PkeyUnBlind(cl, s.p, s2, u.p, &ul); bool good = !r && ul == (uint32_t)k.k && pssCheck(k, h, h, dig, N(u.vec()).pow(k.e, k.n).bin(k.k), sl) >= 0; CHECK(good == !bad, bad ? "bssa-bad" : "bssa-unblind", "%d bits: unblinded signature %s (%s)", k.bits, good ? "valid" : "invalid", rc(r).c_str()); g.nontrivial();
    }
}
PBT_TEST(gen, 120, 2000, 0, 300)
{
    seedRand(g); setScript({}); uint32_t bits = g.pick({1024u, 1024u, 1024u, 1536u}); uint64_t ev = g.pick<uint64_t>({65537, 65539, 0x10000000fULL}); PkeyCtx c(nk(g)); Bytes e = N(ev).bin(); CRYPT_EAL_PkeyPara p = {}; p.id = CRYPT_PKEY_RSA; p.para.rsaPara.e = e.data(); p.para.rsaPara.eLen = e.size(); p.para.rsaPara.bits = bits; int32_t r = CRYPT_EAL_PkeySetPara(c, &p); CHECK(!r, "rsa-setpara", "%u bits %s", bits, rc(r).c_str());
    r = CRYPT_EAL_PkeyGen(c); CHECK(!r, "rsa-gen", "keygen %u bits e=%lx: %s", bits, ev, rc(r).c_str()); Bytes B[8]; CRYPT_EAL_PkeyPrv v = {}; v.id = CRYPT_PKEY_RSA; uint8_t **f[8] = {&v.key.rsaPrv.d, &v.key.rsaPrv.n, &v.key.rsaPrv.p, &v.key.rsaPrv.q, &v.key.rsaPrv.dP, &v.key.rsaPrv.dQ, &v.key.rsaPrv.qInv, &v.key.rsaPrv.e}; uint32_t *l[8] = {&v.key.rsaPrv.dLen, &v.key.rsaPrv.nLen, &v.key.rsaPrv.pLen, &v.key.rsaPrv.qLen, &v.key.rsaPrv.dPLen, &v.key.rsaPrv.dQLen, &v.key.rsaPrv.qInvLen, &v.key.rsaPrv.eLen};
    for (int i = 0; i < 8; i++) { B[i].resize(400); *f[i] = B[i].data(); *l[i] = 400; } r = CRYPT_EAL_PkeyGetPrv(c, &v); CHECK(!r, "rsa-getprv", "GetPrv %s", rc(r).c_str()); N x[8]; for (int i = 0; i < 8; i++) { B[i].resize(*l[i]); x[i] = N(B[i]); }
    N one(1); CHECK(x[1].bits() == (int)bits && x[2] * x[3] == x[1], "rsa-gen-n", "n is not a %u-bit p*q", bits); CHECK(BN_check_prime(x[2].b, bc(), nullptr) == 1 && BN_check_prime(x[3].b, bc(), nullptr) == 1, "rsa-gen-prime", "p or q composite"); N p1 = x[2] - one, q1 = x[3] - one;
    CHECK(N(ev) * x[0] % p1 == one && N(ev) * x[0] % q1 == one, "rsa-gen-d", "e*d != 1"); CHECK(x[4] == x[0] % p1 && x[5] == x[0] % q1 && x[6] * x[3] % x[2] == one, "rsa-gen-crt", "wrong CRT values"); N diff = x[2] < x[3] ? x[3] - x[2] : x[2] - x[3]; CHECK(diff.bits() > (int)bits / 2 - 100, "rsa-gen-close", "|p-q| too small (FIPS 186-5)"); g.nontrivial();
}
