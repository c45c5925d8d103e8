// B06: error stack, parameter lists, parameter maker, error descriptions and configuration files against reference models
#include "vh.hpp"
#include "bsl_err.h"
#include "bsl_errno.h"
#include "bsl_err_internal.h"
#include "bsl_params.h"
#include "bsl_conf.h"
#include "bsl_conf_def.h"
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace vh;
using namespace pbt;
const char *pbt::PROPERTY_RULE =
    "Histories of push/get/peek/mark/pop/clear calls on one thread and interleaved over several threads against a bounded-stack model; error descriptions against a map; parameter arrays and "
    "parameter makers with values at type limits and wrong keys, types and lengths; configuration files rendered from a model in varying styles (quotes, escapes, comments, continuation lines), dumped and "
    "re-read, and mutated. Non-trivial: at least one stored item was read back and compared, or malformed input was refused.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the error stack keeps the 20 most recent errors", "values are stored without leading and trailing white space", "the parameter maker's values may be unaligned, readers copy them"};
namespace {
struct Err { int32_t code; const char *file; uint32_t line; bool mark; };
const size_t CAP = 20;
struct Model {
    std::deque<Err> s; bool exists = false;
    void push(Err e) { exists = true; s.push_back(e); if (s.size() > CAP) s.pop_front(); }
};
const char *FILES[] = {"a.c", "bb.c", "dir/ccc.c"};
std::vector<Err> gOut;
void outFn(uint64_t, const char *f, uint32_t l, int32_t c, bool m) { gOut.push_back({c, f, l, m}); }
// one operation on the calling thread's stack; returns text of a difference or ""
std::string step(Model &m, int op, int32_t code, uint32_t line, const char *file)
{
    char buf[300]; auto bad = [&](const char *w, long a, long b) { snprintf(buf, sizeof buf, "%s: got %ld, expected %ld (%zu entries)", w, a, b, m.s.size()); return std::string(buf); };
    const char *f = nullptr; uint32_t l = 77;
    auto cmp = [&](const char *w, int32_t r, bool last, bool clr, bool loc) -> std::string {
        if (m.s.empty()) return r == BSL_SUCCESS ? "" : bad(w, r, 0);
        Err e = last ? m.s.back() : m.s.front(); if (r != e.code) return bad(w, r, e.code);
        if (loc && (!f || strcmp(f, e.file ? e.file : "NA") || l != (e.file ? e.line : 0))) return bad("location", l, e.line);
        if (clr) { if (last) m.s.pop_back(); else m.s.pop_front(); }
        return "";
    };
    switch (op) {
    case 0: BSL_ERR_PushError(code, file, line); m.push({code, file, line, false}); return "";
    case 1: return cmp("GetLastError", BSL_ERR_GetLastError(), true, true, false);
    case 2: return cmp("PeekLastError", BSL_ERR_PeekLastError(), true, false, false);
    case 3: return cmp("GetError", BSL_ERR_GetError(), false, true, false);
    case 4: return cmp("PeekError", BSL_ERR_PeekError(), false, false, false);
    case 5: { int32_t r = BSL_ERR_GetLastErrorFileLine(&f, &l); return cmp("GetLastErrorFileLine", r, true, true, true); }
    case 6: { int32_t r = BSL_ERR_PeekLastErrorFileLine(&f, &l); return cmp("PeekLastErrorFileLine", r, true, false, true); }
    case 7: { int32_t r = BSL_ERR_GetErrorFileLine(&f, &l); return cmp("GetErrorFileLine", r, false, true, true); }
    case 8: { int32_t r = BSL_ERR_PeekErrorFileLine(&f, &l); return cmp("PeekErrorFileLine", r, false, false, true); }
    case 9: { int32_t r = BSL_ERR_SetMark(); if (m.s.empty()) return r == BSL_ERR_ERR_NO_ERROR || r == BSL_ERR_ERR_NO_STACK ? "" : bad("SetMark", r, BSL_ERR_ERR_NO_ERROR); m.s.back().mark = true; return r == BSL_SUCCESS ? "" : bad("SetMark", r, 0); }
    case 10: {
        int32_t r = BSL_ERR_PopToMark(); while (!m.s.empty() && !m.s.back().mark) m.s.pop_back();
        if (m.s.empty()) return r == BSL_ERR_ERR_NO_MARK || r == BSL_ERR_ERR_NO_STACK ? "" : bad("PopToMark", r, BSL_ERR_ERR_NO_MARK);
        m.s.back().mark = false; return r == BSL_SUCCESS ? "" : bad("PopToMark", r, 0);
    }
    case 11: { int32_t r = BSL_ERR_ClearLastMark(); for (size_t i = m.s.size(); i-- > 0;) if (m.s[i].mark) { m.s[i].mark = false; break; } return r == BSL_SUCCESS || (!m.exists && r == BSL_ERR_ERR_NO_STACK) ? "" : bad("ClearLastMark", r, 0); }
    case 12: BSL_ERR_ClearError(); m.s.clear(); return "";
    case 13: BSL_ERR_RemoveErrorStack(false); m.s.clear(); m.exists = false; return "";
    case 14: {
        gOut.clear(); BSL_ERR_RegErrStackLog(outFn); BSL_ERR_OutputErrorStack(); BSL_ERR_RegErrStackLog(nullptr); if (gOut.size() != m.s.size()) return bad("OutputErrorStack count", (long)gOut.size(), (long)m.s.size());
        for (size_t i = 0; i < gOut.size(); i++) if (gOut[i].code != m.s[i].code || gOut[i].mark != m.s[i].mark || strcmp(gOut[i].file, m.s[i].file ? m.s[i].file : "NA") || gOut[i].line != (m.s[i].file ? m.s[i].line : 0)) return bad("OutputErrorStack entry", (long)i, gOut[i].code);
        return "";
    }
    default: BSL_ERR_PushError(BSL_SUCCESS, file, line); return "";
    }
}
const std::vector<int> OPW = {0};
int pickOp(G &g) { static const int w[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11, 11, 12, 13, 14, 15}; return w[g.draw(31)]; }
int32_t code(G &g) { return (int32_t)g.pick<uint64_t>({1, 0x7fffffff, 0xffffffff, 0x80000000, g.range(1, 0xffffff)}); }
struct Worker {
    std::mutex mu; std::condition_variable cv; std::function<void()> job; bool stop = false; std::thread t;
    Worker() { t = std::thread([this] { for (;;) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [this] { return job || stop; }); if (stop) return; job(); job = nullptr; cv.notify_all(); } }); }
    void run(std::function<void()> j) { std::unique_lock<std::mutex> l(mu); job = j; cv.notify_all(); cv.wait(l, [this] { return !job; }); }
    ~Worker() { { std::lock_guard<std::mutex> l(mu); stop = true; cv.notify_all(); } t.join(); }
};
}
void pbt::setup() { BSL_ERR_Init(); }
PBT_TEST(stack, 60000, 1000000, 0, 300)
{
    BSL_ERR_RemoveErrorStack(true); Model m; int n = (int)g.len(1, 80); bool fill = g.chance(1, 3); bool any = false;
    if (fill) { int k = (int)g.range(18, 45); for (int i = 0; i < k; i++) step(m, 0, 1 + i, (uint32_t)i, FILES[i % 3]); g.label("filled"); }
    for (int i = 0; i < n; i++) {
        int op = pickOp(g); int32_t c = code(g); uint32_t l = (uint32_t)g.draw(100000); const char *f = g.chance(1, 10) ? nullptr : FILES[g.draw(2)]; g.note("op %d code %d line %u file %s", op, c, l, f ? f : "-");
        alarm(20); std::string e = step(m, op, c, l, f); alarm(0); CHECK(e.empty(), "b06-stack", "%s", e.c_str()); if (op && op < 15 && !m.s.empty()) any = true;
    }
    while (!m.s.empty()) { bool last = g.boolean(); std::string e = step(m, last ? 5 : 7, 0, 0, nullptr); CHECK(e.empty(), "b06-drain", "draining: %s", e.c_str()); any = true; }
    CHECK(BSL_ERR_GetLastError() == BSL_SUCCESS && BSL_ERR_GetError() == BSL_SUCCESS, "b06-empty", "errors remain"); if (any) g.nontrivial();
}
PBT_TEST(threads, 2500, 8000, 0, 300)
{
    BSL_ERR_RemoveErrorStack(true); int k = (int)g.range(2, 12), n = (int)g.len(4, 120); std::vector<std::unique_ptr<Worker>> w; std::vector<Model> m((size_t)k); for (int i = 0; i < k; i++) w.emplace_back(new Worker());
    for (int i = 0; i < n; i++) {
        size_t t = (size_t)g.draw((uint64_t)k - 1); int op = g.chance(1, 8) ? 13 : pickOp(g); int32_t c = code(g); uint32_t l = (uint32_t)g.draw(9999); const char *f = FILES[g.draw(2)]; g.note("thread %zu op %d code %d line %u", t, op, c, l); std::string e;
        w[t]->run([&] { e = step(m[t], op, c, l, f); }); CHECK(e.empty(), "b06-threads", "thread %zu: %s", t, e.c_str());
        if (g.chance(1, 60)) { BSL_ERR_RemoveErrorStack(true); for (auto &x : m) { x.s.clear(); x.exists = false; } }
    }
    for (int t = 0; t < k; t++) { std::string e; w[(size_t)t]->run([&] { while (e.empty() && !m[(size_t)t].s.empty()) e = step(m[(size_t)t], 7, 0, 0, nullptr); if (e.empty() && BSL_ERR_GetError() != 0) e = "errors remain"; if (g.boolean()) BSL_ERR_RemoveErrorStack(false); }); CHECK(e.empty(), "b06-threads", "thread %d: %s", t, e.c_str()); }
    BSL_ERR_RemoveErrorStack(true); g.nontrivial();
}
PBT_TEST(strings, 12000, 40000, 0, 300)
{
    BSL_ERR_RemoveErrStringBatch(); static const char *T[] = {"one", "two", "three", "four", ""}; std::map<int32_t, const char *> m; int n = (int)g.len(1, 12); std::vector<int32_t> seen;
    for (int i = 0; i < n; i++) {
        if (g.chance(1, 12)) { BSL_ERR_RemoveErrStringBatch(); m.clear(); continue; }
        std::vector<BSL_ERR_Desc> d; int k = (int)g.range(1, 25); uint64_t base = g.draw(0x7fffffff); bool neg = false;
        for (int j = 0; j < k; j++) { int32_t c = (int32_t)(g.chance(1, 5) && !seen.empty() ? seen[g.draw(seen.size() - 1)] : g.boolean() ? (int32_t)((base + (uint64_t)j) & 0x7fffffff) : (int32_t)g.draw(0x7fffffff)); if (g.chance(1, 80)) c = -1 - c; d.push_back({c, T[g.draw(4)]}); }
        int32_t r = BSL_ERR_AddErrStringBatch(d.data(), (uint32_t)d.size());
        for (auto &x : d) { if (x.error < 0) { neg = true; break; } m[x.error] = x.string; seen.push_back(x.error); }
        CHECK((r == BSL_SUCCESS) == !neg, "b06-descret", "adding %d descriptions gives 0x%x", k, r);
    }
    for (auto c : seen) { const char *s = BSL_ERR_GetString(c), *e = m.count(c) ? m[c] : nullptr; CHECK(s == e, "b06-desc", "description of %d is %s, expected %s", c, s ? s : "-", e ? e : "-"); }
    for (int i = 0; i < 20; i++) { int32_t c = seen.empty() || g.boolean() ? code(g) : seen[g.draw(seen.size() - 1)] + 1; if (c >= 0) CHECK(BSL_ERR_GetString(c) == (m.count(c) ? m[c] : nullptr), "b06-desc2", "description of %d", c); else CHECK(BSL_ERR_GetString(c) == nullptr, "b06-descneg", "negative code has a description"); }
    if (!m.empty()) { BSL_ERR_RemoveErrorStack(false); int32_t c = m.begin()->first; if (c > 0) { BSL_ERR_PushError(c, "x.c", 5); const char *f, *s = nullptr; uint32_t l; CHECK(BSL_ERR_GetErrAll(&f, &l, &s) == c && s == m[c] && l == 5, "b06-errall", "GetErrAll"); } g.nontrivial(); }
    BSL_ERR_RemoveErrStringBatch();
}
namespace {
struct Item { int32_t key; uint32_t type; Bytes val; void *ptr; uint32_t len; };
uint32_t numLen(uint32_t t) { return t == BSL_PARAM_TYPE_UINT8 ? 1 : t == BSL_PARAM_TYPE_UINT16 ? 2 : t == BSL_PARAM_TYPE_BOOL ? sizeof(bool) : t == BSL_PARAM_TYPE_UINT64 ? 8 : t == BSL_PARAM_TYPE_SIZE_T ? sizeof(size_t) : 4; }
bool isNum(uint32_t t) { return t == BSL_PARAM_TYPE_UINT8 || t == BSL_PARAM_TYPE_UINT16 || t == BSL_PARAM_TYPE_UINT32 || t == BSL_PARAM_TYPE_INT32 || t == BSL_PARAM_TYPE_BOOL || t == BSL_PARAM_TYPE_UINT64 || t == BSL_PARAM_TYPE_SIZE_T; }
bool isPtr(uint32_t t) { return t == BSL_PARAM_TYPE_UINT32_PTR || t == BSL_PARAM_TYPE_OCTETS_PTR || t == BSL_PARAM_TYPE_SIZE_T_PTR || t == BSL_PARAM_TYPE_FUNC_PTR || t == BSL_PARAM_TYPE_CTX_PTR; }
Bytes numVal(G &g, uint32_t t) { if (t == BSL_PARAM_TYPE_BOOL) { Bytes b(sizeof(bool), 0); b[0] = g.boolean(); return b; } int k = (int)g.draw(3); return k == 0 ? Bytes(numLen(t), 0) : k == 1 ? Bytes(numLen(t), 0xff) : g.bytes(numLen(t)); }
const uint32_t TYPES[] = {BSL_PARAM_TYPE_UINT32_PTR, BSL_PARAM_TYPE_OCTETS_PTR, BSL_PARAM_TYPE_FUNC_PTR, BSL_PARAM_TYPE_CTX_PTR, BSL_PARAM_TYPE_UINT8, BSL_PARAM_TYPE_UINT16, BSL_PARAM_TYPE_UINT32, BSL_PARAM_TYPE_BOOL, BSL_PARAM_TYPE_INT32, BSL_PARAM_TYPE_OCTETS, BSL_PARAM_TYPE_UTF8_STR, BSL_PARAM_TYPE_SIZE_T, BSL_PARAM_TYPE_SIZE_T_PTR, BSL_PARAM_TYPE_UINT64};
int32_t keyOf(G &g) { return (int32_t)g.pick<uint64_t>({1, 2, 3, 0x7fffffff, 0xffffffff, g.range(1, 30), g.range(1, 1 << 30)}); }
}
PBT_TEST(params, 40000, 600000, 0, 300)
{
    size_t n = (size_t)g.pick<uint64_t>({g.range(0, 6), g.range(0, 40)}); std::unique_ptr<BSL_Param[]> p(new BSL_Param[n + 1]()); std::vector<Item> it; std::deque<Exact> store; int dummy;
    for (size_t i = 0; i < n; i++) {
        Item x; x.key = keyOf(g); x.type = TYPES[g.draw(13)]; x.ptr = nullptr;
        if (isNum(x.type)) x.val = numVal(g, x.type); else if (!isPtr(x.type)) x.val = g.bytes((size_t)g.len(1, 40));
        if (isPtr(x.type)) { x.ptr = &dummy; x.len = (uint32_t)g.draw(100); } else { store.emplace_back(x.val); x.ptr = store.back().p; x.len = (uint32_t)x.val.size(); }
        CHECK(BSL_PARAM_InitValue(&p[i], x.key, x.type, x.ptr, x.len) == BSL_SUCCESS, "b06-init", "type %u refused", x.type); g.note("item %zu key %d type %u len %u", i, x.key, x.type, x.len); it.push_back(x);
    }
    BSL_Param junk = {}; CHECK(BSL_PARAM_InitValue(&junk, 0, BSL_PARAM_TYPE_UINT8, &dummy, 1) != BSL_SUCCESS, "b06-key0", "key 0 accepted"); CHECK(BSL_PARAM_InitValue(&junk, 1, BSL_PARAM_TYPE_UINT64 + 1 + (uint32_t)g.draw(1000), &dummy, 1) != BSL_SUCCESS, "b06-badtype", "unknown type accepted");
    CHECK(BSL_PARAM_InitValue(&junk, 1, BSL_PARAM_TYPE_OCTETS, nullptr, 1) != BSL_SUCCESS, "b06-null", "no value but a length accepted");
    int ops = (int)g.len(1, 20);
    for (int o = 0; o < ops; o++) {
        int32_t k = it.empty() || g.chance(1, 4) ? keyOf(g) : it[g.draw(it.size() - 1)].key; size_t idx = 0; while (idx < it.size() && it[idx].key != k) idx++;
        const BSL_Param *f = BSL_PARAM_FindConstParam(p.get(), k); BSL_Param *f2 = BSL_PARAM_FindParam(p.get(), k); g.note("look up %d", k);
        CHECK(f == (idx < it.size() ? &p[idx] : nullptr) && f == f2, "b06-find", "key %d found at %ld, expected %zu of %zu", k, f ? (long)(f - p.get()) : -1L, idx, it.size()); if (!f) continue;
        Item &x = it[idx]; CHECK(f->valueType == x.type && f->valueLen == x.len, "b06-fields", "type or length changed"); uint32_t wrong = TYPES[g.draw(13)]; uint8_t out[64]; memset(out, 0xEE, sizeof out); uint32_t l = sizeof out; void *q = nullptr;
        if (wrong != x.type) { CHECK(BSL_PARAM_GetValue(f, k, wrong, out, &l) != BSL_SUCCESS && BSL_PARAM_GetPtrValue(f, k, wrong, &q, &l) != BSL_SUCCESS && BSL_PARAM_SetValue(f2, k, wrong, out, 4) != BSL_SUCCESS, "b06-wrongtype", "type %u read as %u", x.type, wrong); }
        CHECK(BSL_PARAM_GetValue(f, k == 5 ? 6 : 5, x.type, out, &l) != BSL_SUCCESS, "b06-wrongkey", "wrong key accepted"); l = sizeof out;
        if (isNum(x.type) || x.type == BSL_PARAM_TYPE_OCTETS) {
            int32_t r = BSL_PARAM_GetValue(f, k, x.type, out, &l); CHECK(r == BSL_SUCCESS && l == x.len && Bytes(out, out + l) == x.val, "b06-get", "value of type %u: 0x%x length %u", x.type, r, l); for (uint32_t j = l; j < 64; j++) CHECK(out[j] == 0xEE, "b06-over", "wrote past the value");
            if (x.len) { uint32_t s = (uint32_t)g.draw(x.len - 1); CHECK(BSL_PARAM_GetValue(f, k, x.type, out, &s) != BSL_SUCCESS, "b06-getshort", "value of %u octets copied into %u", x.len, s); }
            if (x.type != BSL_PARAM_TYPE_INT32 && g.boolean()) {
                bool oct = x.type == BSL_PARAM_TYPE_OCTETS; if (oct && !x.len) continue; Bytes v = oct ? g.bytes((size_t)g.range(1, x.len + 2)) : numVal(g, x.type); if (!oct && g.chance(1, 5)) v.push_back(0); Exact e(v); r = BSL_PARAM_SetValue(f2, k, x.type, e.p, (uint32_t)v.size()); bool fit = oct ? v.size() <= x.len : v.size() == x.len;
                CHECK((r == BSL_SUCCESS) == fit, "b06-set", "setting %zu octets in a value of %u gives 0x%x", v.size(), x.len, r); if (fit) { CHECK(f->useLen == v.size(), "b06-uselen", "useLen %u after setting %zu", f->useLen, v.size()); std::copy(v.begin(), v.end(), x.val.begin()); }
            }
        } else { int32_t r = BSL_PARAM_GetPtrValue(f, k, x.type, &q, &l); bool bare = x.type == BSL_PARAM_TYPE_FUNC_PTR || x.type == BSL_PARAM_TYPE_CTX_PTR; CHECK(r == BSL_SUCCESS && q == x.ptr && (bare || l == x.len), "b06-getptr", "pointer of type %u: 0x%x", x.type, r); CHECK(BSL_PARAM_GetValue(f, k, x.type, out, &l) != BSL_SUCCESS, "b06-ptrvalue", "pointer type %u read as a value", x.type); }
        g.nontrivial();
    }
}
PBT_TEST(maker, 30000, 120000, 0, 300)
{
    BSL_ParamMaker *mk = BSL_PARAM_MAKER_New(); CHECK(mk, "b06-maker", "no maker"); std::vector<Item> it; std::deque<Exact> store; static int dummy; size_t n = (size_t)g.len(0, 25);
    for (size_t i = 0; i < n; i++) {
        Item x; x.key = keyOf(g); x.type = TYPES[g.draw(13)]; bool deep = false, ok = true, scrub = false; x.ptr = nullptr;
        if (isNum(x.type)) { x.val = numVal(g, x.type); if (g.chance(1, 8)) { if (g.boolean()) x.val.push_back(1); else x.val.pop_back(); } ok = x.val.size() == numLen(x.type) && x.type != BSL_PARAM_TYPE_UINT64 && x.type != BSL_PARAM_TYPE_SIZE_T; scrub = true; }
        else if (!isPtr(x.type)) { x.val = g.bytes((size_t)g.len(0, 40)); deep = g.boolean(); scrub = deep; } else { ok = x.type != BSL_PARAM_TYPE_SIZE_T_PTR; }
        if (isPtr(x.type)) { x.ptr = &dummy; x.len = (uint32_t)g.draw(100); } else { store.emplace_back(x.val); x.ptr = store.back().p; x.len = (uint32_t)x.val.size(); }
        if (g.chance(1, 30)) { deep = true; if (isNum(x.type) || isPtr(x.type)) ok = false; }
        int32_t r = deep ? BSL_PARAM_MAKER_DeepPushValue(mk, x.key, x.type, x.ptr, x.len) : BSL_PARAM_MAKER_PushValue(mk, x.key, x.type, x.ptr, x.len); g.note("push key %d type %u len %u deep %d -> 0x%x", x.key, x.type, x.len, deep, r);
        bool got = r == BSL_SUCCESS; if (got != ok) BSL_PARAM_MAKER_Free(mk); CHECK(got == ok, "b06-push", "pushing type %u length %u gives 0x%x", x.type, x.len, r); if (scrub && ok && x.len) memset(x.ptr, 0x55, x.len); if (ok) it.push_back(x);
        if (g.chance(1, 10)) { BSL_Param *t = BSL_PARAM_MAKER_ToParam(mk); BSL_PARAM_Free(t); }
    }
    CHECK(BSL_PARAM_MAKER_PushValue(mk, 0, BSL_PARAM_TYPE_CTX_PTR, &dummy, 0) != BSL_SUCCESS, "b06-pushkey0", "key 0 accepted");
    BSL_Param *p = BSL_PARAM_MAKER_ToParam(mk); BSL_PARAM_MAKER_Free(mk); CHECK(p, "b06-toparam", "conversion failed"); for (auto &e : store) if (e.n) memset(e.p, 0x99, e.n);
    struct Fr { BSL_Param *p; ~Fr() { BSL_PARAM_Free(p); } } fr{p};
    for (size_t i = 0; i < it.size(); i++) {
        CHECK(p[i].key == it[i].key && p[i].valueType == it[i].type && p[i].valueLen == it[i].len, "b06-made", "entry %zu: key %d type %u length %u", i, p[i].key, p[i].valueType, p[i].valueLen);
        if (isPtr(it[i].type)) CHECK(p[i].value == it[i].ptr, "b06-madeptr", "entry %zu: pointer differs", i);
        else CHECK(it[i].len == 0 || memcmp(p[i].value, it[i].val.data(), it[i].len) == 0, "b06-madeval", "entry %zu: value differs", i);
        if (it[i].type == BSL_PARAM_TYPE_UTF8_STR) CHECK(((char *)p[i].value)[it[i].len] == 0, "b06-term", "text is not terminated");
    }
    CHECK(p[it.size()].key == 0, "b06-end", "the list is not terminated"); for (auto &x : it) { size_t j = 0; while (it[j].key != x.key) j++; CHECK(BSL_PARAM_FindParam(p, x.key) == &p[j], "b06-madefind", "key %d", x.key); }
    if (!it.empty()) g.nontrivial();
}
namespace {
typedef std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> Conf;
std::vector<std::pair<std::string, std::string>> &sec(Conf &c, const std::string &n) { for (auto &s : c) if (s.first == n) return s.second; c.push_back({n, {}}); return c.back().second; }
void put(Conf &c, const std::string &s, const std::string &k, const std::string &v) { auto &l = sec(c, s); for (auto &e : l) if (e.first == k) { e.second = v; return; } l.push_back({k, v}); }
const char *NAMECH = "abcXYZ019_.,;";
std::string name(G &g) { std::string s = g.text((size_t)g.range(1, 12), NAMECH); if (s[0] == ';') s[0] = 'q'; return s; }
std::string val(G &g)
{
    static const char *A = "ab01 \t=#;$\\\"'[]\n,.-%{}"; std::string s = g.chance(1, 6) ? std::to_string((long long)g.draw(UINT64_MAX)) : g.text((size_t)g.len(0, 30), A);
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1); return s;
}
std::string esc(const std::string &v) { std::string o; for (char c : v) { if (strchr("#;$\\\"'", c)) { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o; }
std::string ws(G &g) { return g.chance(1, 3) ? g.text((size_t)g.range(0, 3), " \t") : ""; }
std::string path() { static std::string p; if (p.empty()) { const char *t = getenv("TMPDIR"); p = std::string(t ? t : "/tmp") + "/b06-" + std::to_string(getpid()) + ".cnf"; static std::string q = p; atexit([] { unlink(q.c_str()); }); } return p; }
void writeFile(const std::string &s) { FILE *f = fopen(path().c_str(), "wb"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
std::string readFile() { std::string o; FILE *f = fopen(path().c_str(), "rb"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
struct C { BSL_CONF *c = BSL_CONF_New(BSL_CONF_DefaultMethod()); ~C() { BSL_CONF_Free(c); unlink(path().c_str()); } };
void compare(BSL_CONF *c, const Conf &m, const char *what)
{
    uint32_t n = 0; char **names = BSL_CONF_GetSectionNames(c, &n); std::vector<std::string> got; for (uint32_t i = 0; names && i < n; i++) { got.push_back(names[i]); BSL_SAL_Free(names[i]); } BSL_SAL_Free(names);
    CHECK(got.size() == m.size(), "b06-sections", "%s: %zu sections, expected %zu", what, got.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) {
        CHECK(got[i] == m[i].first, "b06-section", "%s: section %zu is '%s', expected '%s'", what, i, got[i].c_str(), m[i].first.c_str()); CHECK(BSL_CONF_GetSection(c, m[i].first.c_str()), "b06-getsec", "section '%s' not found", m[i].first.c_str());
        for (auto &e : m[i].second) {
            Exact b(e.second.size() + 1); uint32_t l = (uint32_t)b.n; int32_t r = BSL_CONF_GetString(c, m[i].first.c_str(), e.first.c_str(), (char *)b.p, &l);
            CHECK(r == BSL_SUCCESS && l == e.second.size() && memcmp(b.p, e.second.c_str(), l + 1) == 0, "b06-string", "%s: [%s] %s gives 0x%x, %.*s; expected %s", what, m[i].first.c_str(), e.first.c_str(), r, r ? 0 : (int)l, (char *)b.p, e.second.c_str());
            l = (uint32_t)e.second.size(); CHECK(BSL_CONF_GetString(c, m[i].first.c_str(), e.first.c_str(), (char *)b.p, &l) != BSL_SUCCESS, "b06-short", "value copied into a buffer without room for the terminator");
            if (e.second.find("0b") != std::string::npos || e.second.find("0B") != std::string::npos) continue; // C23 strtol reads binary numbers, older ones do not
            char *end; errno = 0; long x = strtol(e.second.c_str(), &end, 0), y = 0; bool num = !e.second.empty() && *end == 0 && errno == 0 && x != LONG_MAX && x != LONG_MIN; r = BSL_CONF_GetNumber(c, m[i].first.c_str(), e.first.c_str(), &y); CHECK((r == BSL_SUCCESS) == num && (!num || x == y), "b06-number", "number of '%s' is 0x%x, %ld", e.second.c_str(), r, y);
        }
    }
}
}
PBT_TEST(conf, 20000, 400000, 0, 300)
{
    Conf m; m.push_back({"default", {}}); std::string cur = "default", text; int n = (int)g.len(0, 25); std::vector<std::string> keys; bool any = false;
    for (int i = 0; i < n; i++) {
        int k = g.weighted({8, 2, 1, 1});
        if (k == 0) {
            std::string key = !keys.empty() && g.chance(1, 4) ? keys[g.draw(keys.size() - 1)] : name(g), v = val(g), line; keys.push_back(key); int st = (int)g.draw(3); if (v.empty() && st == 0 && false) st = 1;
            std::string e = esc(v), comment = g.chance(1, 4) ? ws(g) + (g.boolean() ? "# note = 1" : "; other") : "";
            if (g.chance(1, 5) && e.size() > 2) { size_t at = (size_t)g.range(1, e.size() - 1); if (e[at - 1] != '\\' ) { e = e.substr(0, at) + "\\\n" + e.substr(at); g.label("continued"); } }
            line = ws(g) + key + ws(g) + "=" + ws(g) + (st == 1 ? "\"" + e + "\"" : st == 2 ? "'" + e + "'" : e) + comment + ws(g); text += line; put(m, cur, key, v); any = true;
        } else if (k == 1) { cur = g.chance(1, 6) ? "default" : g.chance(1, 4) ? m[g.draw(m.size() - 1)].first : name(g); text += ws(g) + "[" + ws(g) + cur + ws(g) + "]" + ws(g); sec(m, cur); any = true; }
        else if (k == 2) text += ws(g) + (g.boolean() ? "#" : ";") + " comment [x] = y";
        else text += ws(g);
        if (i + 1 < n || g.boolean()) text += g.chance(1, 8) ? "\r\n" : "\n";
    }
    g.note("%s", text.c_str()); writeFile(text); C c; int32_t r = BSL_CONF_Load(c.c, path().c_str()); CHECK(r == BSL_SUCCESS, "b06-load", "well-formed file refused 0x%x", r); compare(c.c, m, "loaded");
    { char b[8]; uint32_t l = 8; CHECK(BSL_CONF_GetString(c.c, "default", "no-such-key", b, &l) != BSL_SUCCESS && BSL_CONF_GetString(c.c, "nosuch-section", "a", b, &l) != BSL_SUCCESS, "b06-absent", "absent key found"); }
    r = BSL_CONF_Dump(c.c, path().c_str()); CHECK(r == BSL_SUCCESS, "b06-dump", "dump failed 0x%x", r); std::string d = readFile(); C c2; r = BSL_CONF_Load(c2.c, path().c_str()); CHECK(r == BSL_SUCCESS, "b06-reload", "dumped file refused 0x%x:\n%s", r, d.c_str()); compare(c2.c, m, "re-read dump"); if (any) g.nontrivial();
}
PBT_TEST(badconf, 20000, 400000, 0, 300)
{
    int k = (int)g.draw(4); std::string key = name(g), text = "ok = 1\n[s]\nq=2\n"; C c;
    if (k == 0) { std::string bad = key; bad.insert((size_t)g.draw(bad.size()), 1, "@!*?&/ "[g.draw(5)]); text += bad + " = v\n"; }
    else if (k == 1) text += key + " = a\\" + std::string(1, "abxyz09 "[g.draw(7)]) + "b\n";
    else if (k == 2) text += key + (g.boolean() ? "\n" : " value without equals\n");
    else if (k == 3) text += key + " = " + g.text(BSL_CONF_LINE_SIZE + (size_t)g.range(0, 600), "abc") + "\n";
    else { text = "[sec]\na = \"x\\\"y\" # c\nb='1\\n2'\nc = d\\\ne\n"; size_t m = (size_t)g.range(1, 12); for (size_t i = 0; i < m; i++) { size_t at = (size_t)g.draw(text.size() - 1); int o = (int)g.draw(2); if (o == 0) text[at] = (char)(g.boolean() ? g.draw(255) : (uint64_t)(uint8_t)"[]=\\\"'#;\n\0 "[g.draw(10)]); else if (o == 1) text.insert(at, g.text((size_t)g.range(1, 4), "[]=\\\"'#;\n a")); else if (text.size() > 4) text.erase(at, 1); } }
    g.note("kind %d\n%s", k, text.c_str()); writeFile(text); int32_t r = BSL_CONF_Load(c.c, path().c_str()); if (k < 4) CHECK(r != BSL_SUCCESS, "b06-malformed", "malformed file (kind %d) accepted", k);
    if (k == 4 && r == BSL_SUCCESS) { (void)BSL_CONF_Dump(c.c, path().c_str()); uint32_t n = 0; char **names = BSL_CONF_GetSectionNames(c.c, &n); for (uint32_t i = 0; names && i < n; i++) BSL_SAL_Free(names[i]); BSL_SAL_Free(names); }
    g.nontrivial();
}
