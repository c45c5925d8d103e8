// B02: DER template coding against an independent encoder; total decoding on any bytes
#include "vh.hpp"
extern "C" {
#include "bsl_asn1_internal.h"
#include "bsl_obj.h"
}
const char *pbt::PROPERTY_RULE =
    "Random templates (depth up to 5, every primitive type, context tags, header-only nodes, optional nodes present or absent) with random values are encoded and compared byte for byte with an independent DER encoder, then decoded "
    "from an exact-size buffer and compared value by value; lists and SETs likewise (sorted). Lengths are biased to 127/128/255/256/65535/65536. Random and mutated encodings are decoded: results must lie inside the input and the "
    "reported consumption must match; a single TLV is compared with an independent reader. Primitive decoders, string conversion and OID text are compared with independent models. Non-trivial: the tree has a constructed node, or the input has 2+ bytes.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"optional nodes carry tags that are unique in the template, as in every template of the library", "negative INTEGERs are outside the supported range", "calendar oracle: proleptic Gregorian, dates from 1970 on (the documented lower bound)"};
void pbt::setup() { useTrackedMem(); BSL_OBJ_GetOidNumericString(nullptr, 0); BSL_ERR_RemoveErrorStack(true); }
static void putLen(Bytes &o, size_t n) { if (n < 128) { o.push_back((uint8_t)n); return; } int k = 1; while (n >> (8 * k)) k++; o.push_back((uint8_t)(0x80 | k)); while (k--) o.push_back((uint8_t)(n >> (8 * k))); }
static Bytes tlv(uint8_t t, const Bytes &c) { Bytes o{t}; putLen(o, c.size()); o.insert(o.end(), c.begin(), c.end()); return o; }
static size_t vlen(G &g, size_t lo) { switch (g.weighted({8, 3, 1})) { case 0: return g.range(lo, 20); case 1: return g.range(120, 260); default: return g.chance(1, 8) ? g.range(65530, 65540) : g.range(250, 900); } }
static int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : d[m - 1]; }
struct Leaf { uint8_t tag; Bytes in, der, dec; BSL_ASN1_BitString bs; BSL_TIME tm; bool b; bool absent; uint8_t decTag; bool nullp; }; // in: caller's value bytes; der: content octets; dec: what decoding must show
static const uint8_t PT[] = {BSL_ASN1_TAG_INTEGER, BSL_ASN1_TAG_OCTETSTRING, BSL_ASN1_TAG_BOOLEAN, BSL_ASN1_TAG_ENUMERATED, BSL_ASN1_TAG_BITSTRING, BSL_ASN1_TAG_NULL, BSL_ASN1_TAG_OBJECT_ID, BSL_ASN1_TAG_UTF8STRING, BSL_ASN1_TAG_PRINTABLESTRING,
    BSL_ASN1_TAG_T61STRING, BSL_ASN1_TAG_IA5STRING, BSL_ASN1_TAG_UTCTIME, BSL_ASN1_TAG_GENERALIZEDTIME, BSL_ASN1_TAG_BMPSTRING};
static void genTime(G &g, BSL_TIME &t, bool utc) { memset(&t, 0, sizeof t); t.year = (uint16_t)(utc ? g.range(2000, 2049) : g.chance(1, 2) ? g.range(2040, 2060) : g.range(1970, 9999)); t.month = (uint8_t)g.range(1, 12); t.day = (uint8_t)(g.chance(1, 3) ? mdays(t.year, t.month) : g.range(1, mdays(t.year, t.month))); t.hour = (uint8_t)g.range(0, 23); t.minute = (uint8_t)g.range(0, 59); t.second = (uint8_t)g.range(0, 59); }
static void genLeaf(G &g, Leaf &l, uint8_t tag, bool nonEmpty)
{
    l.tag = l.decTag = tag; l.absent = false; l.nullp = false; size_t lo = nonEmpty ? 1 : 0;
    switch (tag) {
    case BSL_ASN1_TAG_INTEGER: case BSL_ASN1_TAG_ENUMERATED: {
        l.in = g.bytes(std::max<size_t>(1, tag == BSL_ASN1_TAG_ENUMERATED ? g.range(1, 4) : vlen(g, 1))); if (g.chance(1, 3)) for (size_t i = 0, z = g.range(1, 3); i < z && i < l.in.size(); i++) l.in[i] = 0; if (g.chance(1, 3)) l.in[0] |= 0x80;
        size_t z = 0; while (z + 1 < l.in.size() && !l.in[z]) z++; l.dec.assign(l.in.begin() + z, l.in.end()); l.der = l.dec; if (l.der[0] & 0x80) l.der.insert(l.der.begin(), 0); break; }
    case BSL_ASN1_TAG_BOOLEAN: l.b = g.boolean(); l.der = {(uint8_t)(l.b ? 0xFF : 0)}; l.dec = l.der; break;
    case BSL_ASN1_TAG_NULL: l.in.clear(); l.der.clear(); l.dec.clear(); l.nullp = true; break;
    case BSL_ASN1_TAG_BITSTRING: { l.in = g.bytes(vlen(g, 1)); l.bs.unusedBits = g.boolean() ? 0 : (uint8_t)g.range(1, 7); l.der = cat(Bytes{l.bs.unusedBits}, l.in); l.der.back() &= (uint8_t)(0xFF << l.bs.unusedBits); l.dec = l.der; break; }
    case BSL_ASN1_TAG_UTCTIME: case BSL_ASN1_TAG_GENERALIZEDTIME: { genTime(g, l.tm, tag == BSL_ASN1_TAG_UTCTIME); char s[40]; if (tag == BSL_ASN1_TAG_UTCTIME) snprintf(s, sizeof s, "%02d%02d%02d%02d%02d%02dZ", l.tm.year % 100, l.tm.month, l.tm.day, l.tm.hour, l.tm.minute, l.tm.second); else snprintf(s, sizeof s, "%04d%02d%02d%02d%02d%02dZ", l.tm.year, l.tm.month, l.tm.day, l.tm.hour, l.tm.minute, l.tm.second); l.der.assign(s, s + strlen(s)); l.dec = l.der; break; }
    case BSL_ASN1_TAG_BMPSTRING: { l.in = g.bytes(vlen(g, 1)); l.der.clear(); for (auto &c : l.in) { c &= 0x7F; l.der.push_back(0); l.der.push_back(c); } l.dec = l.der; break; }
    default: l.in = g.bytes(vlen(g, lo)); l.der = l.in; l.dec = l.der;
    }
}
struct Tree { std::vector<BSL_ASN1_TemplateItem> it; std::vector<Leaf> lf; int nextCtx = 0; bool cons = false; };
// one node; `force` = absent because an ancestor optional node is absent; `inOpt` = below an optional node
static Bytes node(G &g, Tree &t, int depth, bool force, bool inOpt)
{
    bool opt = depth && t.nextCtx < 30 && g.chance(1, 4), ab = force || (opt && g.boolean()); uint8_t fl = opt ? (g.boolean() ? BSL_ASN1_FLAG_OPTIONAL : BSL_ASN1_FLAG_DEFAULT) : 0;
    bool cons = depth < 5 && t.it.size() < 24 && (depth == 0 ? g.chance(5, 6) : g.chance(1, 3));
    if (cons) {
        t.cons = true; uint8_t tag = opt ? (uint8_t)(0xA0 | t.nextCtx++) : g.boolean() ? 0x30 : 0x31; bool ho = depth && g.chance(1, 5); size_t at = t.it.size(); t.it.push_back({tag, (uint8_t)(fl | (ho ? BSL_ASN1_FLAG_HEADERONLY : 0)), (uint8_t)depth}); Bytes body;
        if (ho) { Leaf l; l.tag = l.decTag = tag; l.nullp = false; l.absent = ab; if (!ab) { l.in = g.bytes(vlen(g, opt || inOpt ? 1 : 0)); l.der = l.dec = l.in; } t.lf.push_back(l); if (g.chance(1, 3)) t.it.push_back({0x30, 0, (uint8_t)(depth + 1)}); return ab ? Bytes() : tlv(tag, l.der); }
        int n = (int)g.range(1, 4); for (int i = 0; i < n; i++) { Bytes b = node(g, t, depth + 1, ab, inOpt || opt); body.insert(body.end(), b.begin(), b.end()); }
        (void)at; if (ab) return Bytes(); if (body.empty() && (opt || inOpt)) { // an optional node without content is not encoded: make sure there is some
            t.it.push_back({0x02, 0, (uint8_t)(depth + 1)}); Leaf l; genLeaf(g, l, 0x02, true); t.lf.push_back(l); Bytes b = tlv(0x02, l.der); body = b; }
        return tlv(tag, body);
    }
    uint8_t tag = opt ? (uint8_t)(0x80 | t.nextCtx++) : PT[g.draw(13)]; t.it.push_back({tag, fl, (uint8_t)depth}); Leaf l; l.absent = ab; l.tag = l.decTag = tag; l.nullp = false;
    if (!ab) { genLeaf(g, l, tag, opt || inOpt); } t.lf.push_back(l); return ab ? Bytes() : tlv(tag, l.der);
}
static void fill(std::vector<Leaf> &lf, std::vector<BSL_ASN1_Buffer> &a)
{
    a.clear();
    for (auto &l : lf) {
        if (l.absent) { a.push_back({0, 0, nullptr}); continue; }
        switch (l.tag) {
        case BSL_ASN1_TAG_BOOLEAN: a.push_back({l.tag, sizeof(bool), (uint8_t *)&l.b}); break;
        case BSL_ASN1_TAG_BITSTRING: l.bs.buff = l.in.data(); l.bs.len = (uint32_t)l.in.size(); a.push_back({l.tag, sizeof l.bs, (uint8_t *)&l.bs}); break;
        case BSL_ASN1_TAG_UTCTIME: case BSL_ASN1_TAG_GENERALIZEDTIME: a.push_back({l.tag, sizeof l.tm, (uint8_t *)&l.tm}); break;
        case BSL_ASN1_TAG_NULL: a.push_back({l.tag, 0, nullptr}); break;
        default: a.push_back({l.tag, (uint32_t)l.in.size(), l.in.empty() ? nullptr : l.in.data()});
        }
    }
}
static void checkPrim(const Leaf &l, BSL_ASN1_Buffer &a)
{
    switch (l.tag) {
    case BSL_ASN1_TAG_BOOLEAN: { bool b = !l.b; CHECK(!BSL_ASN1_DecodePrimitiveItem(&a, &b) && b == l.b, "prim-bool", "boolean decodes to %d", b); break; }
    case BSL_ASN1_TAG_INTEGER: case BSL_ASN1_TAG_ENUMERATED: { uint64_t v = 0; bool fits = l.dec.size() <= 4; if (fits) for (auto c : l.dec) v = v << 8 | c; fits = fits && v <= 0x7FFFFFFF; int x = -5; int32_t r = BSL_ASN1_DecodePrimitiveItem(&a, &x); CHECK(fits ? !r && (uint64_t)x == v : r != 0, "prim-int", "integer of %zu octets: %s value %d", l.dec.size(), rc(r).c_str(), x); break; }
    case BSL_ASN1_TAG_BITSTRING: { BSL_ASN1_BitString b; CHECK(!BSL_ASN1_DecodePrimitiveItem(&a, &b) && b.unusedBits == l.bs.unusedBits && b.len == l.in.size() && !memcmp(b.buff, l.der.data() + 1, b.len), "prim-bits", "bit string differs"); break; }
    case BSL_ASN1_TAG_UTCTIME: case BSL_ASN1_TAG_GENERALIZEDTIME: { BSL_TIME t; memset(&t, 0, sizeof t); int32_t r = BSL_ASN1_DecodePrimitiveItem(&a, &t); CHECK(!r && t.year == l.tm.year && t.month == l.tm.month && t.day == l.tm.day && t.hour == l.tm.hour && t.minute == l.tm.minute && t.second == l.tm.second, "prim-time", "time %s: %s %d-%d-%d", std::string(l.der.begin(), l.der.end()).c_str(), rc(r).c_str(), t.year, t.month, t.day); break; }
    case BSL_ASN1_TAG_BMPSTRING: { BSL_ASN1_Buffer d = {0, 0, nullptr}; int32_t r = BSL_ASN1_DecodePrimitiveItem(&a, &d); CHECK(!r && Bytes(d.buff, d.buff + d.len) == l.in, "prim-bmp", "BMP string differs"); BSL_SAL_Free(d.buff); break; }
    default:;
    }
}
PBT_TEST(templ, 12000, 300000, 0, 300)
{
    Tree t; Bytes want; int tops = g.chance(1, 4) ? (int)g.range(2, 3) : 1; for (int i = 0; i < tops; i++) { Bytes b = node(g, t, 0, false, false); want.insert(want.end(), b.begin(), b.end()); }
    if (t.lf.empty()) discard(); if (t.cons) g.nontrivial(); std::vector<BSL_ASN1_Buffer> a; fill(t.lf, a); g.note("template of %zu items, %zu values, %zu bytes", t.it.size(), t.lf.size(), want.size());
    BSL_ASN1_Template tp = {t.it.data(), (uint32_t)t.it.size()}; uint8_t *e = nullptr; uint32_t el = 0; long live = memCtl().live; int32_t r = BSL_ASN1_EncodeTemplate(&tp, a.data(), (uint32_t)a.size(), &e, &el);
    CHECK(!r, "enc", "encoding failed: %s", rc(r).c_str()); Bytes got(e, e + el); BSL_SAL_Free(e); CHECK(got == want, "enc-bytes", "encoding differs: %u bytes %s, expected %zu bytes %s", el, hex(got).c_str(), want.size(), hex(want).c_str());
    Bytes junk = g.bytes(g.chance(1, 3) ? g.range(1, 20) : 0); if (!junk.empty()) junk[0] = 0xFE; Exact in(cat(want, junk)); uint8_t *p = in.p; uint32_t n = (uint32_t)in.n; std::vector<BSL_ASN1_Buffer> d(t.lf.size());
    r = BSL_ASN1_DecodeTemplate(&tp, nullptr, &p, &n, d.data(), (uint32_t)d.size()); CHECK(!r, "dec", "decoding the library's own encoding failed: %s", rc(r).c_str());
    CHECK(p == in.p + want.size() && n == junk.size(), "dec-consumed", "consumed %zu, %u left, encoding has %zu of %zu", (size_t)(p - in.p), n, want.size(), in.n);
    for (size_t i = 0; i < d.size(); i++) { Leaf &l = t.lf[i]; if (l.absent) { CHECK(!d[i].tag && !d[i].len && !d[i].buff, "dec-absent", "absent item %zu reported with tag %02x length %u", i, d[i].tag, d[i].len); continue; }
        CHECK(d[i].tag == l.decTag && d[i].len == l.dec.size() && (l.nullp ? !d[i].buff : !memcmp(d[i].buff, l.dec.data(), l.dec.size())), "dec-value", "item %zu (tag %02x) decodes to tag %02x length %u, expected length %zu", i, l.tag, d[i].tag, d[i].len, l.dec.size()); checkPrim(l, d[i]); }
    if (d.size() > 1) { std::vector<BSL_ASN1_Buffer> s(d.size() - 1); p = in.p; n = (uint32_t)in.n; CHECK(BSL_ASN1_DecodeTemplate(&tp, nullptr, &p, &n, s.data(), (uint32_t)s.size()), "dec-short", "decoding into too few results succeeded"); }
    // damaged copies
    for (int k = 0; k < 3; k++) {
        Bytes m = want; for (int q = (int)g.range(1, 3); q-- && !m.empty();) { size_t at = g.chance(1, 2) ? g.draw(std::min<size_t>(m.size(), 12) - 1) : g.draw(m.size() - 1); switch (g.draw(4)) { case 0: m[at] = (uint8_t)g.draw(255); break; case 1: m[at] += g.boolean() ? 1 : -1; break; case 2: m.resize(at); break; case 3: m.erase(m.begin() + at); break; default: m.insert(m.begin() + at, (uint8_t)g.pick({0x80, 0x84, 0x30, 0xFF, 0x00})); } }
        Exact x(m); p = x.p; n = (uint32_t)x.n; std::fill(d.begin(), d.end(), BSL_ASN1_Buffer{0, 0, nullptr}); r = BSL_ASN1_DecodeTemplate(&tp, nullptr, &p, &n, d.data(), (uint32_t)d.size());
        if (r) { CHECK(p == x.p && n == x.n, "bad-moved", "failed decoding moved the position"); continue; }
        CHECK(p >= x.p && p <= x.p + x.n && (size_t)(p - x.p) + n == x.n, "bad-consumed", "consumed %zd of %zu, %u left", p - x.p, x.n, n);
        uint8_t *last = x.p; for (auto &v : d) { if (!v.buff) continue; CHECK(v.buff >= last && v.buff + v.len <= p, "bad-range", "decoded item lies outside the consumed input or overlaps the previous one"); last = v.buff + v.len; }
    }
    BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, "leak", "%ld allocations leaked", memCtl().live - live);
}
struct LC { std::vector<Bytes> *o; };
static int32_t cb(uint32_t, BSL_ASN1_Buffer *a, void *p, BslList *) { ((std::vector<Bytes> *)p)->push_back(Bytes(a->buff, a->buff + a->len)); return 0; }
PBT_TEST(list, 6000, 150000, 0, 300)
{
    uint8_t tg = g.boolean() ? 0x10 : 0x11; int n = (int)g.range(1, 8); bool seq = g.boolean(); BSL_ASN1_TemplateItem it[] = {{(uint8_t)(seq ? 0x30 : 0x04), 0, 0}, {0x02, 0, 1}, {0x04, 0, 1}}; BSL_ASN1_Template tp = {it, seq ? 3u : 1u};
    std::vector<Leaf> lf; std::vector<Bytes> enc; for (int i = 0; i < n; i++) { if (seq) { Leaf a, b; genLeaf(g, a, 2, true); genLeaf(g, b, 4, false); lf.push_back(a); lf.push_back(b); enc.push_back(tlv(0x30, cat(tlv(2, a.der), tlv(4, b.der)))); } else { Leaf a; genLeaf(g, a, 4, false); if (g.chance(1, 3)) a.in = a.der = a.dec = Bytes(g.range(1, 3), 1); lf.push_back(a); enc.push_back(tlv(4, a.der)); } }
    std::vector<BSL_ASN1_Buffer> a; fill(lf, a); std::vector<Bytes> ord = enc; if (tg == 0x11) std::sort(ord.begin(), ord.end()); Bytes want; for (auto &b : ord) want.insert(want.end(), b.begin(), b.end()); g.nontrivial(); g.note("%s of %d", tg == 0x11 ? "SET" : "SEQUENCE", n);
    BSL_ASN1_Buffer out = {0, 0, nullptr}; int32_t r = BSL_ASN1_EncodeListItem(tg, (uint32_t)n, &tp, a.data(), (uint32_t)a.size(), &out); CHECK(!r && out.tag == (tg | 0x20), "list-enc", "%s", rc(r).c_str());
    Bytes got(out.buff, out.buff + out.len); BSL_SAL_Free(out.buff); CHECK(got == want, "list-bytes", "list encoding differs: %s expected %s", hex(got).c_str(), hex(want).c_str());
    bool bad = g.chance(1, 3); Bytes m = want; if (bad) { size_t at = g.draw(m.size() - 1); if (g.boolean()) m[at] ^= (uint8_t)g.range(1, 255); else m.resize(at); }
    // independent split
    std::vector<Bytes> ref; bool ok = true; for (size_t q = 0; q < m.size();) { if (m[q] != (seq ? 0x30 : 0x04)) { ok = false; break; } size_t h = q + 1; if (h >= m.size()) { ok = false; break; } uint64_t L = m[h++]; if (L == 0x80 || L > 0x84) { ok = false; break; } if (L > 0x80) { int k = (int)L - 0x80; L = 0; if (h + k > m.size()) { ok = false; break; } while (k--) L = L << 8 | m[h++]; } if (L > m.size() - h) { ok = false; break; } ref.push_back(Bytes(m.begin() + h, m.begin() + h + L)); q = h + L; }
    Exact x(m); BSL_ASN1_Buffer in = {(uint8_t)(tg | 0x20), (uint32_t)x.n, x.p}; uint8_t ex[] = {(uint8_t)(seq ? 0x30 : 0x04)}; BSL_ASN1_DecodeListParam pr = {1, ex}; std::vector<Bytes> res; BslList *l = BSL_LIST_New(0); r = BSL_ASN1_DecodeListItem(&pr, &in, cb, &res, l); BSL_SAL_Free(l);
    CHECK(ok ? !r && res == ref : r != 0, "list-dec", "list decoding: %s, %zu items, expected %s with %zu", rc(r).c_str(), res.size(), ok ? "success" : "failure", ref.size());
}
PBT_TEST(tlvs, 20000, 500000, 0, 300)
{
    Bytes m; if (g.chance(2, 3)) { m.push_back((uint8_t)g.draw(255)); size_t L = vlen(g, 0); int k = (int)g.range(0, 5); if (!k && L < 128) m.push_back((uint8_t)L); else { m.push_back((uint8_t)(0x80 | k)); while (k--) m.push_back(k > 7 ? 0 : (uint8_t)((uint64_t)L >> (8 * k))); } if (g.chance(1, 20) && m.size() > 2) m[2] = 0xFF; size_t av = g.chance(1, 3) ? (L + g.range(0, 4)) : g.chance(1, 2) ? L : g.draw(L); Bytes c(std::min<size_t>(av, 70000), 0x5A); m.insert(m.end(), c.begin(), c.end()); } else m = g.bytes(g.range(0, 8));
    if (m.size() >= 2) g.nontrivial(); g.note("tlv %s", hex(Bytes(m.begin(), m.begin() + std::min<size_t>(m.size(), 8))).c_str());
    bool ok = m.size() >= 2; size_t h = 2; uint64_t L = 0; if (ok) { uint8_t b = m[1]; if (b < 0x80) L = b; else if (b == 0x80 || b > 0x84) ok = false; else { int k = b - 0x80; if (m.size() < h + k) ok = false; else while (k--) L = L << 8 | m[h++]; } } if (ok && L > m.size() - h) ok = false;
    Exact x(m); uint8_t *p = x.p; uint32_t n = (uint32_t)x.n; BSL_ASN1_Buffer a = {0, 0, nullptr}; int32_t r = BSL_ASN1_DecodeItem(&p, &n, &a);
    CHECK(ok ? !r && a.tag == m[0] && a.len == L && a.buff == x.p + h && p == x.p + h + L && n == m.size() - h - L : r && p == x.p && n == x.n, "item", "DecodeItem: %s len %u, expected %s len %llu", rc(r).c_str(), a.len, ok ? "success" : "failure", (unsigned long long)L);
    p = x.p; n = (uint32_t)x.n; uint32_t vl = 0; bool same = g.chance(4, 5) && !m.empty(); uint8_t tg = m.empty() ? 0 : same ? m[0] : (uint8_t)~m[0]; r = BSL_ASN1_DecodeTagLen(tg, &p, &n, &vl); CHECK(ok && same ? !r && vl == L && p == x.p + h && n == m.size() - h : r != 0, "taglen", "DecodeTagLen: %s", rc(r).c_str());
    n = (uint32_t)x.n; r = BSL_ASN1_GetCompleteLen(x.p, &n); CHECK(ok ? !r && n == h + L : r != 0, "complete", "GetCompleteLen: %s %u, expected %s %llu", rc(r).c_str(), n, ok ? "success" : "failure", (unsigned long long)(h + L));
    uint32_t c = (uint32_t)(g.chance(1, 2) ? vlen(g, 0) : g.draw(0xFFFFFFF0)), el = 0; Bytes q; putLen(q, c); if ((uint64_t)c + q.size() + 1 <= UINT32_MAX) CHECK(!BSL_ASN1_GetEncodeLen(c, &el) && el == c + q.size() + 1, "enclen", "encoded length of %u octets: %u", c, el); else CHECK(BSL_ASN1_GetEncodeLen(c, &el), "enclen-over", "length overflow accepted");
    uint64_t v = g.chance(1, 2) ? g.draw(70000) : g.draw(UINT64_MAX) >> g.draw(63); BSL_ASN1_Buffer lb = {0, 0, nullptr}; CHECK(!BSL_ASN1_EncodeLimb(2, v, &lb), "limb", "EncodeLimb failed"); uint64_t w = 0; bool lead = lb.len > 1 && !lb.buff[0]; for (uint32_t i = 0; i < lb.len; i++) w = w << 8 | lb.buff[i]; BSL_SAL_Free(lb.buff); CHECK(w == v && !lead && lb.len <= 8, "limb-val", "limb %llx encoded as %llx", (unsigned long long)v, (unsigned long long)w);
}
PBT_TEST(times, 15000, 300000, 0, 300)
{
    bool utc = g.boolean(); BSL_TIME t; genTime(g, t, false); if (utc) t.year = (uint16_t)(t.year % 100 < 50 ? 2000 + t.year % 100 : 1900 + t.year % 100); if (t.month == 2 && t.day == 29 && mdays(t.year, 2) == 28) t.day = 28; char s[40]; int v[6] = {utc ? t.year % 100 : t.year, t.month, t.day, t.hour, t.minute, t.second};
    if (g.chance(1, 2)) { int f = (int)g.range(1, 5); v[f] = (int)g.pick({0, 13, 29, 30, 31, 32, 24, 59, 60, 61, 99, 12}); }
    snprintf(s, sizeof s, utc ? "%02d%02d%02d%02d%02d%02dZ" : "%04d%02d%02d%02d%02d%02dZ", v[0], v[1], v[2], v[3], v[4], v[5]); Bytes b(s, s + strlen(s)); bool mut = g.chance(1, 4); if (mut) { size_t at = g.draw(b.size() - 1); switch (g.draw(2)) { case 0: b[at] = (uint8_t)g.draw(255); break; case 1: b.erase(b.begin() + at); break; default: b.insert(b.begin() + at, '0'); } }
    // independent reading
    size_t dg = utc ? 12 : 14; bool ok = (b.size() == dg || (b.size() == dg + 1 && b[dg] == 'Z')); for (size_t i = 0; ok && i < dg; i++) ok = b[i] >= '0' && b[i] <= '9'; int y = 0, q[5] = {0};
    if (ok) { size_t k = utc ? 2 : 4; for (size_t i = 0; i < k; i++) y = y * 10 + b[i] - '0'; if (utc) y += y < 50 ? 2000 : 1900; for (int j = 0; j < 5; j++) q[j] = (b[k + 2 * j] - '0') * 10 + b[k + 2 * j + 1] - '0'; ok = q[0] >= 1 && q[0] <= 12 && q[1] >= 1 && q[1] <= mdays(y, q[0]) && q[2] <= 23 && q[3] <= 59 && q[4] <= 59; }
    bool leap = q[4] == 60; g.note("time %s", std::string(b.begin(), b.end()).c_str()); g.nontrivial(); Exact x(b); BSL_ASN1_Buffer a = {(uint8_t)(utc ? 0x17 : 0x18), (uint32_t)x.n, x.p}; BSL_TIME o; memset(&o, 0, sizeof o); int32_t r = BSL_ASN1_DecodePrimitiveItem(&a, &o);
    if (ok && y < 1970) return; (void)leap; CHECK(ok ? !r && o.year == y && o.month == q[0] && o.day == q[1] && o.hour == q[2] && o.minute == q[3] && o.second == q[4] : r != 0, "time", "%s: expected %s, got %s %d-%d-%d %d:%d:%d", std::string(b.begin(), b.end()).c_str(), ok ? "valid" : "invalid", rc(r).c_str(), o.year, o.month, o.day, o.hour, o.minute, o.second);
}
static void u8(Bytes &o, uint32_t c) { if (c < 0x80) o.push_back((uint8_t)c); else if (c < 0x800) { o.push_back(0xC0 | c >> 6); o.push_back(0x80 | (c & 63)); } else if (c < 0x10000) { o.push_back(0xE0 | c >> 12); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); } else { o.push_back(0xF0 | c >> 18); o.push_back(0x80 | (c >> 12 & 63)); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); } }
PBT_TEST(strings, 10000, 200000, 0, 300)
{
    uint8_t tg = g.pick<uint8_t>({0x0C, 0x13, 0x16, 0x14, 0x1E, 0x1C}); int cs = tg == 0x1E ? 2 : tg == 0x1C ? 4 : 1; int n = (int)g.range(0, 30); Bytes in, want; bool ok = true;
    for (int i = 0; i < n; i++) { uint32_t c = cs == 1 ? (uint32_t)g.draw(tg == 0x14 ? 255 : 127) : (uint32_t)g.pick<uint64_t>({g.draw(0x7F), g.draw(0x7FF), g.draw(0xFFFF), cs == 4 ? g.draw(0x10FFFF) : g.draw(0xFFFF), g.chance(1, 6) ? 0xD800 + g.draw(0x7FF) : 0x7FFF, cs == 4 && g.chance(1, 6) ? 0x110000 + g.draw(99999) : 0x41}); if (cs > 1) { if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) ok = false; } for (int k = cs; k--;) in.push_back((uint8_t)(c >> (8 * k))); if (tg == 0x0C) want.push_back((uint8_t)c); else if (ok) u8(want, c); }
    if (cs > 1 && g.chance(1, 6)) { in.push_back(0); ok = false; } if (in.size() > 1) g.nontrivial(); g.note("string tag %02x %zu bytes", tg, in.size()); Exact x(in); BSL_ASN1_Buffer a = {tg, (uint32_t)x.n, x.p}, o = {0, 0, nullptr}; long live = memCtl().live; int32_t r = BSL_ASN1_ToUtf8String(&a, &o);
    Bytes got(o.buff ? o.buff : x.p, o.buff ? o.buff + o.len : x.p); BSL_SAL_Free(o.buff); CHECK(ok ? !r && got == want && o.tag == 0x0C : r != 0, "utf8", "%s: %s gives %s, expected %s", hex(in).c_str(), rc(r).c_str(), hex(got).c_str(), ok ? hex(want).c_str() : "an error"); BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, "utf8-leak", "leak");
}
PBT_TEST(oids, 15000, 300000, 0, 300)
{
    int n = (int)g.range(2, 10); std::vector<uint64_t> arc; arc.push_back(g.draw(2)); arc.push_back(g.draw(39)); for (int i = 2; i < n; i++) arc.push_back(g.pick<uint64_t>({g.draw(127), g.draw(300), 16383 + g.draw(2), g.draw(0xFFFFFFFF), g.draw(999999999999999999ull)})); std::string s; Bytes der{(uint8_t)(arc[0] * 40 + arc[1])};
    for (int i = 0; i < n; i++) { s += (i ? "." : "") + std::to_string(arc[i]); if (i > 1) { Bytes t; uint64_t v = arc[i]; do { t.insert(t.begin(), (uint8_t)((v & 127) | (t.empty() ? 0 : 128))); v >>= 7; } while (v); der = cat(der, t); } }
    g.nontrivial(); g.note("OID %s", s.c_str()); Exact t((const uint8_t *)s.data(), s.size()); uint32_t ol = 0; uint8_t *o = BSL_OBJ_GetOidFromNumericString((char *)t.p, (uint32_t)t.n, &ol); CHECK(o, "oid-enc", "%s refused", s.c_str()); Bytes got(o, o + ol); BSL_SAL_Free(o); CHECK(got == der, "oid-val", "%s encodes to %s", s.c_str(), hex(got).c_str());
    Exact d(der); char *b = BSL_OBJ_GetOidNumericString(d.p, (uint32_t)d.n); std::string bs = b ? b : ""; BSL_SAL_Free(b); CHECK(bs == s, "oid-dec", "%s reads back as '%s'", s.c_str(), bs.c_str());
    // damaged text and octets: never a wrong value
    std::string m = s; size_t at = g.draw(m.size() - 1); switch (g.draw(3)) { case 0: m[at] = (char)g.draw(255); break; case 1: m.insert(at, "."); break; case 2: m.erase(at, 1); break; default: m.insert(at, 1, (char)('0' + g.draw(9))); }
    bool ok = !m.empty() && m[0] != '.' && m.back() != '.' && m.find("..") == std::string::npos; for (char c : m) ok = ok && (c == '.' || (c >= '0' && c <= '9')); Exact mt((const uint8_t *)m.data(), m.size()); o = BSL_OBJ_GetOidFromNumericString((char *)mt.p, (uint32_t)mt.n, &ol); if (o) { Bytes q(o, o + ol); BSL_SAL_Free(o); CHECK(ok, "oid-badtext", "malformed OID text '%s' accepted", m.c_str()); Exact qd(q); b = BSL_OBJ_GetOidNumericString(qd.p, (uint32_t)qd.n); if (b) { std::string nb = b; BSL_SAL_Free(b); std::string canon; size_t p = 0; while (p <= m.size()) { size_t e = m.find('.', p); if (e == std::string::npos) e = m.size(); size_t z = p; while (z + 1 < e && m[z] == '0') z++; canon += (p ? "." : "") + m.substr(z, e - z); p = e + 1; } CHECK(nb == canon, "oid-rt", "'%s' reads back as '%s'", m.c_str(), nb.c_str()); } }
    Bytes r = der; r[g.draw(r.size() - 1)] = (uint8_t)g.draw(255); if (g.chance(1, 3)) r.resize(g.range(1, r.size())); Exact rd(r); b = BSL_OBJ_GetOidNumericString(rd.p, (uint32_t)rd.n); if (b) { std::string q = b; BSL_SAL_Free(b); o = BSL_OBJ_GetOidFromNumericString(q.data(), (uint32_t)q.size(), &ol); Bytes back; if (o) { back.assign(o, o + ol); BSL_SAL_Free(o); } CHECK(back == r, "oid-rt2", "octets %s read as %s which encodes to %s", hex(r).c_str(), q.c_str(), hex(back).c_str()); }
}
