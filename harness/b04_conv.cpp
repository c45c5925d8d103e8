// B04: calendar, text and address conversions against independent models
#include "vh.hpp"
extern "C" {
#include "bsl_sal.h"
#include "sal_time.h"
#include "sal_ip_util.h"
#include "bsl_obj.h"
#include "bsl_obj_internal.h"
#include "bsl_print.h"
#include "bsl_uio.h"
}
#include <arpa/inet.h>
#include <strings.h>
#include <openssl/objects.h>
const char *pbt::PROPERTY_RULE =
    "Instants over the whole supported range (1970-65535; leap days, century years, month ends and day boundaries boosted) and invalid dates go through both conversions, comparison, second/day/microsecond "
    "arithmetic and printing, against the proleptic Gregorian algorithm written here; address texts built from the grammar (all :: positions, embedded IPv4, upper/lower case, leading zeros) and damaged "
    "copies are compared with inet_pton; OID texts and bodies with an independent base-128 codec; CID/OID tables are checked for inverse lookups, also after registering new entries; string helpers against libc. Non-trivial: the "
    "input is not the trivial value of its class (a date off the 1970s first day, a valid or one-edit-from-valid address, an OID of three or more arcs).";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"dates before 1970 have no UTC value (documented epoch)", "BSL_SAL_StrcaseCmp and Memchr are documented only up to equal/different and position", "OIDs whose second arc is 40 or more or whose arcs exceed 18 digits are outside the supported range"};
void pbt::setup() { useTrackedMem(); BSL_OBJ_GetOID(BSL_CID_SHA256); BSL_ERR_RemoveErrorStack(true); }
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = y / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int64_t utc(const BSL_TIME &t) { return days(t.year, t.month, t.day) * 86400 + t.hour * 3600 + t.minute * 60 + t.second; }
static BSL_TIME fromUtc(int64_t s)
{
    BSL_TIME t{}; int64_t z = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), r = s - z * 86400; z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    t.day = (uint8_t)(doy - (153 * mp + 2) / 5 + 1); t.month = (uint8_t)(mp < 10 ? mp + 3 : mp - 9); t.year = (uint16_t)(y + (t.month <= 2)); t.hour = (uint8_t)(r / 3600); t.minute = (uint8_t)(r / 60 % 60); t.second = (uint8_t)(r % 60); return t;
}
static bool eq(const BSL_TIME &a, const BSL_TIME &b, bool sub = true) { return a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.second == b.second && (!sub || (a.millSec == b.millSec && a.microSec == b.microSec)); }
static std::string str(const BSL_TIME &t) { return sfmt("%u-%u-%u %u:%u:%u.%u.%u", t.year, t.month, t.day, t.hour, t.minute, t.second, t.millSec, t.microSec); }
static const int64_t MAXU = 2005949145599LL;
static BSL_TIME genTime(G &g)
{
    BSL_TIME t{};
    if (g.chance(1, 3)) { int64_t s = (int64_t)g.draw(g.boolean() ? 4102444800ull : (uint64_t)MAXU); if (g.boolean()) { s = s / 86400 * 86400 + (int64_t)g.draw(2) - 1; if (s < 0) s = 0; } t = fromUtc(s); }
    else { static const int ys[] = {1970, 1971, 1972, 1999, 2000, 2001, 2038, 2049, 2050, 2096, 2099, 2100, 2104, 2200, 2400, 9999, 10000, 65532, 65535}; t.year = (uint16_t)(g.boolean() ? ys[g.draw(18)] : g.range(1970, 2200)); t.month = (uint8_t)(g.boolean() ? g.range(1, 3) : g.range(1, 12)); int md = mdays(t.year, t.month); t.day = (uint8_t)(g.boolean() ? g.range(1, (uint64_t)md) : g.boolean() ? md : 1); if (g.boolean()) { t.hour = (uint8_t)g.draw(23); t.minute = (uint8_t)g.draw(59); t.second = (uint8_t)g.draw(59); } else if (g.boolean()) { t.hour = 23; t.minute = 59; t.second = 59; } }
    t.millSec = (uint16_t)(g.boolean() ? g.draw(999) : g.boolean() ? 999 : 0); t.microSec = (uint16_t)(g.boolean() ? g.draw(999) : g.boolean() ? 999 : 0); return t;
}
PBT_TEST(calendar, 40000, 2000000, 0, 60)
{
    BSL_TIME t = genTime(g); int64_t u = -7, want = utc(t); CHECK(BSL_DateTimeCheck(&t), "b04-valid", "%s refused", str(t).c_str()); CHECK(BSL_SAL_DateToUtcTimeConvert(&t, &u) == BSL_SUCCESS && u == want, "b04-utc", "%s gives %lld, %lld expected", str(t).c_str(), (long long)u, (long long)want);
    BSL_TIME r; memset(&r, 0xee, sizeof r); CHECK(BSL_SAL_UtcTimeToDateConvert(u, &r) == BSL_SUCCESS && eq(r, t, false) && r.millSec == 0 && r.microSec == 0, "b04-date", "%lld gives %s, %s expected", (long long)u, str(r).c_str(), str(t).c_str());
    CHECK(BSL_IsLeapYear(t.year) == leap(t.year), "b04-leap", "%u", t.year);
    BSL_TIME b = genTime(g); if (g.chance(1, 3)) { b = t; switch (g.draw(2)) { case 0: b.millSec = (uint16_t)g.draw(999); break; case 1: b.microSec = (uint16_t)g.draw(999); break; default: b = fromUtc(std::min<int64_t>(MAXU, want + (int64_t)g.draw(3))); } }
    int64_t d = 99, wd = want - utc(b); int32_t c = BSL_SAL_DateTimeCompare(&t, &b, &d); CHECK(c == (wd < 0 ? (int32_t)BSL_TIME_DATE_BEFORE : wd > 0 ? (int32_t)BSL_TIME_DATE_AFTER : (int32_t)BSL_TIME_CMP_EQUAL) && d == wd, "b04-cmp", "%s vs %s: %d diff %lld", str(t).c_str(), str(b).c_str(), c, (long long)d);
    int64_t us = (int64_t)(t.millSec - b.millSec) * 1000 + t.microSec - b.microSec; c = BSL_SAL_DateTimeCompareByUs(&t, &b); int w = wd ? (wd < 0 ? -1 : 1) : us < 0 ? -1 : us > 0; CHECK(c == (w < 0 ? (int32_t)BSL_TIME_DATE_BEFORE : w > 0 ? (int32_t)BSL_TIME_DATE_AFTER : (int32_t)BSL_TIME_CMP_EQUAL), "b04-cmpus", "%s vs %s: %d", str(t).c_str(), str(b).c_str(), c);
    uint32_t add = (uint32_t)(g.boolean() ? g.draw(3000000) : g.boolean() ? g.draw(UINT32_MAX) : UINT32_MAX - g.draw(2000)); int64_t tot = want * 1000000 + t.millSec * 1000 + t.microSec + (int64_t)add; bool alias = g.boolean(); BSL_TIME o = t; BSL_TIME *dst = alias ? &o : &r; int32_t rc = BSL_DateTimeAddUs(dst, &o, add);
    if (tot / 1000000 > MAXU) CHECK(rc != BSL_SUCCESS, "b04-addus-range", "past the end accepted"); else { BSL_TIME e = fromUtc(tot / 1000000); e.millSec = (uint16_t)(tot / 1000 % 1000); e.microSec = (uint16_t)(tot % 1000); CHECK(rc == BSL_SUCCESS && eq(*dst, e), "b04-addus", "%s + %u us = %s, %s expected", str(t).c_str(), add, str(*dst).c_str(), str(e).c_str()); }
    int32_t od = (int32_t)(g.boolean() ? (int64_t)g.draw(2000) - 1000 : (int64_t)(int32_t)g.draw(UINT32_MAX)); int64_t os = g.boolean() ? (int64_t)g.draw(400000) - 200000 : g.chance(1, 3) ? (int64_t)g.draw(UINT64_MAX) : (int64_t)g.draw(1ull << 42) - (1ll << 41); o = t; alias = g.boolean(); dst = alias ? &o : &r; __int128 sum = (__int128)want + (__int128)od * 86400 + os; rc = BSL_DateTimeAddDaySecond(dst, &o, od, os);
    if (sum > MAXU) CHECK(rc != BSL_SUCCESS, "b04-addday-range", "past the end accepted"); else if (sum >= 0) { BSL_TIME e = fromUtc((int64_t)sum); e.millSec = t.millSec; e.microSec = t.microSec; CHECK(rc == BSL_SUCCESS && eq(*dst, e), "b04-addday", "%s + %dd %llds = %s, %s expected", str(t).c_str(), od, (long long)os, str(*dst).c_str(), str(e).c_str()); } else if (rc == BSL_SUCCESS) { BSL_TIME e = fromUtc((int64_t)sum); CHECK(eq(*dst, e, false), "b04-addday-neg", "%s + %dd %llds = %s", str(t).c_str(), od, (long long)os, str(*dst).c_str()); }
    if (g.chance(1, 3)) { BSL_TIME x = t; bool bad = true; switch (g.draw(8)) { case 0: x.month = 0; break; case 1: x.month = (uint8_t)(13 + g.draw(200)); break; case 2: x.day = 0; break; case 3: x.day = (uint8_t)(mdays(x.year, x.month) + 1 + (int)g.draw(100)); break; case 4: x.hour = (uint8_t)(24 + g.draw(200)); break; case 5: x.minute = (uint8_t)(60 + g.draw(190)); break; case 6: x.second = (uint8_t)(60 + g.draw(190)); break; case 7: x.millSec = (uint16_t)(1000 + g.draw(60000)); break; default: x.year = (uint16_t)g.draw(1969); x.day = 1; } (void)bad;
        CHECK(!BSL_DateTimeCheck(&x) && BSL_SAL_DateToUtcTimeConvert(&x, &u) != BSL_SUCCESS && BSL_SAL_DateTimeCompare(&x, &b, &d) == (int32_t)BSL_TIME_CMP_ERROR && BSL_SAL_DateTimeCompareByUs(&b, &x) == (int32_t)BSL_TIME_CMP_ERROR && BSL_DateTimeAddUs(&r, &x, 1) != BSL_SUCCESS, "b04-invalid", "the invalid date %s was accepted", str(x).c_str()); g.label("invalid date"); }
    if (g.chance(1, 8)) { static const char *mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; BSL_UIO *io = BSL_UIO_New(BSL_UIO_MemMethod()); CHECK(io, "b04-uio", "no mem uio"); CHECK(BSL_PRINT_Time(0, &t, io) == BSL_SUCCESS, "b04-print", "printing failed"); char buf[128] = {0}; uint32_t n = 0; BSL_UIO_Read(io, buf, sizeof buf - 1, &n); std::string e = sfmt("%s %u %02u:%02u:%02u %u GMT", mn[t.month - 1], t.day, t.hour, t.minute, t.second, t.year), got(buf, n); BSL_UIO_Free(io); std::string a, bb; for (char ch : got) if (ch != ' ' && ch != '\n') a += ch; for (char ch : e) if (ch != ' ') bb += ch; CHECK(a == bb, "b04-printtext", "printed \"%s\", expected \"%s\"", got.c_str(), e.c_str()); g.label("printed"); }
    CHECK(BSL_SAL_UtcTimeToDateConvert(MAXU + 1 + (int64_t)g.draw(1ull << 40), &r) != BSL_SUCCESS, "b04-max", "an instant past year 65535 was accepted");
    if (want > 86400) g.nontrivial(); g.key(str(t) + str(b)); BSL_ERR_RemoveErrorStack(true);
}
static std::string ip4(G &g) { std::string s; for (int i = 0; i < 4; i++) s += (i ? "." : "") + std::to_string(g.boolean() ? g.draw(255) : g.boolean() ? g.draw(9) : g.draw(300)); return s; }
PBT_TEST(address, 60000, 3000000, 0, 60)
{
    std::string s; int kind = (int)g.draw(2);
    if (kind == 0) s = ip4(g);
    else {
        bool v4 = kind == 2 && g.boolean(); int room = v4 ? 6 : 8; bool dc = g.chance(2, 3); int cnt = dc ? (int)g.draw((uint64_t)room) : room; if (g.chance(1, 12)) cnt += (int)g.range(1, 2); int at = dc ? (int)g.draw((uint64_t)cnt) : -1; std::vector<std::string> seg; for (int i = 0; i < cnt; i++) { std::string x = sfmt(g.boolean() ? "%x" : "%X", (unsigned)(g.boolean() ? g.draw(0xffff) : g.draw(15))); if (g.chance(1, 5)) x = std::string(4 - std::min<size_t>(4, x.size()), '0') + x; if (g.chance(1, 40)) x = "0" + x; seg.push_back(x); } if (v4) seg.push_back(ip4(g));
        for (size_t i = 0; i <= seg.size(); i++) { if ((int)i == at) s += i == 0 || true ? "::" : ""; else if (i && i < seg.size()) s += ":"; if (i < seg.size()) s += seg[i]; }
    }
    int edits = (int)g.weighted({5, 3, 1}); for (int i = 0; i < edits; i++) { static const char al[] = "0123456789abcdefABCDEFg:.:.: -+x%/"; size_t p = g.draw(s.size()); switch (g.draw(3)) { case 0: s.insert(p, 1, al[g.draw(sizeof al - 2)]); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = al[g.draw(sizeof al - 2)]; break; default: s.insert(p, s.substr(g.draw(s.size()), g.draw(3))); } }
    uint8_t w[16]; bool six = s.find(':') != std::string::npos; int ok = s.size() > 45 ? 0 : inet_pton(six ? AF_INET6 : AF_INET, s.c_str(), w); Exact in(Bytes(s.begin(), s.end() + 0)); std::vector<char> cs(s.begin(), s.end()); cs.push_back(0); char *hp = (char *)malloc(cs.size()); memcpy(hp, cs.data(), cs.size()); int32_t len = g.boolean() ? (six ? 16 : 4) : 16; uint8_t *out = (uint8_t *)malloc((size_t)len); memset(out, 0xee, (size_t)len); int32_t l2 = len, rc = SAL_ParseIp(hp, out, &l2); Bytes got(out, out + (rc == BSL_SUCCESS ? std::max(0, std::min(l2, len)) : 0)); int32_t sm = (int32_t)g.draw(six ? 15 : 3), sm2 = sm; uint8_t dum[16]; int32_t rs = SAL_ParseIp(hp, dum, &sm2); free(hp); free(out);
    CHECK((rc == BSL_SUCCESS) == (ok == 1), "b04-ip", "\"%s\" is %s, the library returns 0x%x", s.c_str(), ok == 1 ? "valid" : "invalid", (unsigned)rc); if (ok == 1) { CHECK(l2 == (six ? 16 : 4) && got == Bytes(w, w + (six ? 16 : 4)), "b04-ipval", "\"%s\" parsed to %s", s.c_str(), hex(got).c_str()); g.label(six ? "valid v6" : "valid v4"); } else g.label("invalid"); CHECK(rs != BSL_SUCCESS, "b04-ipshort", "\"%s\" fitted in %d bytes", s.c_str(), sm);
    if (ok == 1 || edits < 2) g.nontrivial(); g.key(s); BSL_ERR_RemoveErrorStack(true);
}
PBT_TEST(oid, 20000, 1000000, 0, 60)
{
    int n = (int)g.range(2, g.chance(1, 6) ? 20 : 9); std::vector<uint64_t> a; a.push_back(g.draw(2)); a.push_back(g.draw(39)); for (int i = 2; i < n; i++) { int w = (int)g.draw(3); a.push_back(w == 0 ? g.draw(127) : w == 1 ? g.draw(20000) : w == 2 ? (1ull << (7 * g.range(1, 8))) - g.draw(1) : g.draw(999999999999999999ull)); }
    std::string t; Bytes b; for (int i = 0; i < n; i++) { t += (i ? "." : "") + std::to_string(a[(size_t)i]); uint64_t v = a[(size_t)i]; if (i == 0) continue; if (i == 1) v += a[0] * 40; Bytes e{(uint8_t)(v & 127)}; while (v >>= 7) e.insert(e.begin(), (uint8_t)(v & 127) | 128); b.insert(b.end(), e.begin(), e.end()); }
    Exact x(b); char *s = BSL_OBJ_GetOidNumericString(x.p, (uint32_t)b.size()); std::string got = s ? s : "(null)"; BSL_SAL_Free(s); bool tooLong = b.size() > 64 || t.size() > 200; if (!(got == "(null)" && tooLong)) CHECK(got == t, "b04-oidtext", "%s written as %s, expected %s", hex(b).c_str(), got.c_str(), t.c_str());
    uint32_t ol = 0; Exact tx(Bytes(t.begin(), t.end())); uint8_t *o = BSL_OBJ_GetOidFromNumericString((const char *)tx.p, (uint32_t)t.size(), &ol); Bytes ob(o ? o : (uint8_t *)"", (o ? o : (uint8_t *)"") + (o ? ol : 0)); BSL_SAL_Free(o); if (!(ob.empty() && tooLong)) CHECK(ob == b, "b04-oidbin", "%s encoded as %s, expected %s", t.c_str(), hex(ob).c_str(), hex(b).c_str());
    // damaged text: either refused or exactly what the text says
    std::string d = t; size_t p = g.draw(d.size() - 1); static const char al[] = "0123456789..x -"; switch (g.draw(2)) { case 0: d[p] = al[g.draw(14)]; break; case 1: d.insert(p, 1, al[g.draw(14)]); break; default: d.erase(p, 1); } Exact dx(Bytes(d.begin(), d.end())); o = BSL_OBJ_GetOidFromNumericString((const char *)dx.p, (uint32_t)d.size(), &ol); bool acc = o != nullptr; Bytes db(o ? o : (uint8_t *)"", (o ? o : (uint8_t *)"") + (o ? ol : 0)); BSL_SAL_Free(o);
    if (acc) { char *s2 = BSL_OBJ_GetOidNumericString(db.data(), (uint32_t)db.size()); std::string r = s2 ? s2 : "(null)"; BSL_SAL_Free(s2); bool wf = !d.empty() && d[0] != '.' && d.back() != '.' && d.find("..") == std::string::npos && d.find_first_not_of("0123456789.") == std::string::npos && std::count(d.begin(), d.end(), '.') >= 1; CHECK(wf, "b04-oidbad", "the text \"%s\" was accepted as %s", d.c_str(), hex(db).c_str()); std::string norm, arc; for (size_t i = 0; i <= d.size(); i++) { if (i < d.size() && d[i] != '.') arc += d[i]; else { size_t z = arc.find_first_not_of('0'); norm += (norm.empty() ? "" : ".") + (z == std::string::npos ? "0" : arc.substr(z)); arc.clear(); } } CHECK(r == norm || r == "(null)", "b04-oidrt", "\"%s\" became %s", d.c_str(), r.c_str()); g.label("edited accepted"); }
    // body edits: no crash; accepted means canonical
    Bytes m = b; if (g.boolean()) m[g.draw(m.size() - 1)] ^= (uint8_t)(1u << g.draw(7)); else m.resize(g.draw(m.size() - 1) + 1); Exact mx(m); s = BSL_OBJ_GetOidNumericString(mx.p, (uint32_t)m.size()); if (s) { CHECK(!(m.back() & 128), "b04-oidtrunc", "the truncated body %s was written as %s", hex(m).c_str(), s); } BSL_SAL_Free(s);
    if (n >= 3) g.nontrivial(); g.key(t); BSL_ERR_RemoveErrorStack(true);
}
PBT_TEST(table, 1500, 20000, 0, 60)
{
    int c = (int)g.draw(BSL_CID_MAX + 20); BslOidString *o = BSL_OBJ_GetOID((BslCid)c); if (o) { CHECK(BSL_OBJ_GetCID(o) == (BslCid)c, "b04-cid", "CID %d has OID %s, which maps to %d", c, hex((uint8_t *)o->octs, o->octetLen).c_str(), (int)BSL_OBJ_GetCID(o)); const char *n1 = BSL_OBJ_GetOidNameFromOid(o), *n2 = BSL_OBJ_GetOidNameFromCID((BslCid)c); CHECK(n1 && n2 && !strcmp(n1, n2), "b04-name", "names %s/%s", n1 ? n1 : "-", n2 ? n2 : "-"); Exact e(Bytes((uint8_t *)o->octs, (uint8_t *)o->octs + o->octetLen)); CHECK(BSL_OBJ_GetCidFromOidBuff(e.p, o->octetLen) == (BslCid)c, "b04-cidbuf", "CID %d", c);
        char *t = BSL_OBJ_GetOidNumericString(e.p, o->octetLen); Bytes der{6, (uint8_t)o->octetLen}; der.insert(der.end(), e.p, e.p + o->octetLen); const uint8_t *p = der.data(); ASN1_OBJECT *ao = o->octetLen < 128 ? d2i_ASN1_OBJECT(nullptr, &p, (long)der.size()) : nullptr; char ref[256] = {0}; if (ao) OBJ_obj2txt(ref, sizeof ref, ao, 1); ASN1_OBJECT_free(ao); std::string ts = t ? t : ""; BSL_SAL_Free(t); CHECK(ts == ref, "b04-tabletext", "CID %d is %s, OpenSSL reads %s", c, ts.c_str(), ref);
        if (o->octetLen > 1) { uint32_t cut = (uint32_t)g.draw(o->octetLen - 2) + 1; Exact s(Bytes(e.p, e.p + cut)); BslCid r = BSL_OBJ_GetCidFromOidBuff(s.p, cut); if (r != BSL_CID_UNKNOWN) { BslOidString *q = BSL_OBJ_GetOID(r); CHECK(q && q->octetLen == cut && !memcmp(q->octs, s.p, cut), "b04-prefix", "a prefix of CID %d's OID maps to %d", c, (int)r); } }
        g.nontrivial(); }
    BslCid asym, hash; BslCid sg = (BslCid)c; int32_t hid = 0; asym = BSL_OBJ_GetAsymAlgIdFromSignId(sg); if (asym != BSL_CID_UNKNOWN && OBJ_GetHashIdFromSignId(sg, &hid) == BSL_SUCCESS) { hash = (BslCid)hid; BslCid back = BSL_OBJ_GetSignIdFromHashAndAsymId(asym, hash); if (hash != BSL_CID_UNKNOWN && asym != BSL_CID_SLH_DSA) { /* 12 SLH-DSA sets share one key id */  CHECK(back == sg || (BSL_OBJ_GetAsymAlgIdFromSignId(back) == asym), "b04-sign", "signature id %d -> (%d,%d) -> %d", c, (int)asym, (int)hash, (int)back); if (back == sg) g.label("signature id"); else g.label("signature alias"); } }
    if (g.boolean()) { int id = BSL_CID_EXTEND + 1 + (int)g.draw(400); Bytes b{0x2b, 6, 1, 4, 1, 0x83, 0x9d, 0x3f, (uint8_t)((id >> 7 & 127) | 128), (uint8_t)(id & 127)}; std::string nm = "vf" + std::to_string(id); Exact e(b); CHECK(BSL_OBJ_Create((char *)e.p, (uint32_t)b.size(), nm.c_str(), id) == BSL_SUCCESS, "b04-create", "registering failed"); BslOidString *q = BSL_OBJ_GetOID((BslCid)id); CHECK(q && q->octetLen == b.size() && !memcmp(q->octs, b.data(), b.size()), "b04-createget", "the registered OID is not found by id"); CHECK(BSL_OBJ_GetCidFromOidBuff(e.p, (uint32_t)b.size()) == (BslCid)id, "b04-createcid", "the registered OID is not found by value"); const char *r = BSL_OBJ_GetOidNameFromOid(q); CHECK(r && nm == r, "b04-createname", "name %s", r ? r : "-"); if (g.chance(1, 10)) BSL_OBJ_FreeHashTable(); g.label("registered"); }
    g.key(std::to_string(c)); BSL_ERR_RemoveErrorStack(true);
}
PBT_TEST(strings, 20000, 500000, 0, 60)
{
    std::string a, b; size_t n = g.draw(24); for (size_t i = 0; i < n; i++) a += (char)(g.boolean() ? g.range(0x40, 0x7a) : g.range(1, 255)); b = a; for (auto &c : b) if (g.boolean()) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } if (g.boolean() && !b.empty()) { size_t p = g.draw(b.size() - 1); switch (g.draw(2)) { case 0: b[p] ^= (char)(1 << g.draw(7)); if (!b[p]) b[p] = 1; break; case 1: b.resize(p); break; default: b += 'a'; } }
    bool same = a.size() == b.size(); auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }; for (size_t i = 0; same && i < a.size(); i++) same = lo(a[i]) == lo(b[i]); char *ha = strdup(a.c_str()), *hb = strdup(b.c_str()); int32_t r = BSL_SAL_StrcaseCmp(ha, hb); free(hb); CHECK((r == 0) == same, "b04-casecmp", "comparing %s and %s gives %d", hex(Bytes(a.begin(), a.end())).c_str(), hex(Bytes(b.begin(), b.end())).c_str(), r);
    uint32_t lim = (uint32_t)g.draw(30); CHECK(BSL_SAL_Strnlen(ha, lim) == std::min<size_t>(lim, a.size()), "b04-strnlen", "length of %zu bounded by %u", a.size(), lim); free(ha); Exact e(Bytes(a.begin(), a.end())); { uint32_t full = (uint32_t)a.size(); CHECK(BSL_SAL_Strnlen((char *)e.p, full) == full, "b04-strnlen2", "unterminated"); }
    char ch = a.empty() || g.boolean() ? (char)g.draw(255) : a[g.draw(a.size() - 1)]; size_t cnt = g.draw(a.size()); const void *w = cnt ? memchr(e.p, ch, cnt) : nullptr; CHECK(BSL_SAL_Memchr((char *)e.p, ch, cnt) == w, "b04-memchr", "byte %02x in %s", (uint8_t)ch, hex(Bytes(a.begin(), a.end())).c_str());
    int32_t v = (int32_t)g.draw(UINT32_MAX); std::string s = std::string(g.draw(2), ' ') + std::to_string(v) + (g.boolean() ? "x9" : ""); CHECK(BSL_SAL_Atoi(s.c_str()) == v, "b04-atoi", "\"%s\"", s.c_str()); if (n) g.nontrivial(); g.key(a + "/" + b);
}
