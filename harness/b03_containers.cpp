// B03: lists and hash tables behave like their abstract models.
#include <deque>
#include <map>
#include <set>
#include "vh.hpp"
extern "C" {
#include "bsl_errno.h"
#include "bsl_sal.h"
#include "bsl_list.h"
#include "bsl_list_internal.h"
#include "bsl_hash.h"
#include "bsl_hash_list.h"
}
const char *pbt::PROPERTY_RULE = "A case is a history of 1-200 operations (insert at cursor/ends, delete, detach, search, index, sort, reverse, copy, concatenate, iterate, clear, size limit; insert/put/erase/find/iterate/clear with integer, string and colliding hash functions) on one to three containers; after every operation the whole content is compared with a vector/map model in both directions and each element's release is counted. Non-trivial if at least 8 operations changed the content.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {};
void pbt::setup() {}
namespace {
struct El { int key, id; bool freed; };
std::vector<El *> pool; int liveDup; bool countErr;
void elFree(void *p) { El *e = (El *)p; if (e->freed) countErr = true; e->freed = true; liveDup--; }
El *mkEl(int key) { El *e = new El{key, (int)pool.size(), false}; pool.push_back(e); liveDup++; return e; }
void *elDup(const void *p) { return mkEl(((const El *)p)->key); }
int32_t elCmp(const void *a, const void *b) { int x = ((const El *)a)->key, y = *(const int *)b; return (x > y) - (x < y); }        // search: element against key
int32_t ptrCmp(const void *a, const void *b) { const El *x = *(El *const *)a, *y = *(El *const *)b; return x->key < y->key ? -1 : x->key > y->key; }
int32_t errCmp(const void *, const void *) { return -2; }
struct M { std::vector<El *> v; int cur = -1; };
void same(BslList *l, const M &m, const char *op)
{
    CHECK(BSL_LIST_COUNT(l) == (int)m.v.size(), "b03-count", "after %s the count is %d, %zu expected", op, BSL_LIST_COUNT(l), m.v.size()); int i = 0; const BslListNode *last = nullptr;
    for (BslListNode *n = BSL_LIST_FirstNode(l); n; n = BSL_LIST_GetNextNode(l, n)) { CHECK(i < (int)m.v.size() && BSL_LIST_GetData(n) == m.v[(size_t)i], "b03-order", "after %s element %d differs", op, i); last = n; i++; CHECK(i <= (int)m.v.size(), "b03-more", "after %s the list runs on past its count", op); }
    CHECK(i == (int)m.v.size(), "b03-fewer", "after %s only %d of %zu elements are reached", op, i, m.v.size()); CHECK(BSL_LIST_LastNode(l) == last, "b03-last", "after %s the last node is not the end of the chain", op); i = (int)m.v.size(); for (BslListNode *n = BSL_LIST_LastNode(l); n; n = BSL_LIST_GetPrevNode(n)) { i--; CHECK(i >= 0 && BSL_LIST_GetData(n) == m.v[(size_t)i], "b03-back", "after %s element %d differs from behind", op, i); } CHECK(i == 0, "b03-back-fewer", "after %s the backward chain is short", op);
    void *c = BSL_LIST_Curr(l) ? BSL_LIST_CURR_ELMT(l) : nullptr; CHECK(c == (m.cur < 0 ? nullptr : m.v[(size_t)m.cur]), "b03-cursor", "after %s the cursor is not at %d of %zu", op, m.cur, m.v.size()); CHECK(BSL_LIST_FirstNodeData(l) == (m.v.empty() ? nullptr : m.v[0]), "b03-first", "first");
    for (El *e : m.v) CHECK(!e->freed, "b03-freed", "after %s an element of the list is freed", op); CHECK(!countErr, "b03-double", "%s freed an element twice", op);
}
}  // namespace
PBT_TEST(list, 20000, 600000, 0, 120)
{
    for (El *e : pool) delete e; pool.clear(); liveDup = 0; countErr = false; BslList *l[3]; M m[3]; for (auto &x : l) x = BSL_LIST_New((int32_t)sizeof(El)); int changes = 0; size_t inLists = 0; int maxEl = 10000000; bool limited = g.chance(1, 10); if (limited) { maxEl = 0xffff; CHECK(BSL_LIST_SetMaxElements(maxEl) == BSL_SUCCESS && BSL_LIST_GetMaxElements() == maxEl, "b03-setmax", "limit not taken"); } int keys = (int)g.pick<int>({1, 3, 20, 1000000});
    int ops = (int)g.range(1, g.chance(1, 6) ? 200 : 40); for (int o = 0; o < ops; o++) {
        int k = (int)g.weighted({6, 2, 1}); BslList *L = l[k]; M &m1 = m[k]; int n = (int)m1.v.size(); int op = (int)g.weighted({10, 4, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 4, 1}); const char *nm = "";
        switch (op) {
            case 0: { BslListPosition p = (BslListPosition)g.draw(3); El *e = mkEl((int)g.draw((uint64_t)keys)); CHECK(BSL_LIST_AddElement(L, e, p) == BSL_SUCCESS, "b03-add", "add failed"); int at; if (n == 0) at = 0; else if (p == BSL_LIST_POS_BEGIN) at = 0; else if (p == BSL_LIST_POS_END) at = n; else if (p == BSL_LIST_POS_AFTER) at = m1.cur < 0 ? n : m1.cur + 1; else at = m1.cur < 0 ? 0 : m1.cur; m1.v.insert(m1.v.begin() + at, e); m1.cur = at; nm = "add"; changes++; break; }
            case 1: BSL_LIST_DeleteCurrent(L, elFree); if (m1.cur >= 0) { El *e = m1.v[(size_t)m1.cur]; CHECK(e->freed, "b03-notfreed", "the deleted element was not freed"); m1.v.erase(m1.v.begin() + m1.cur); if (m1.cur >= (int)m1.v.size()) m1.cur = -1; changes++; } nm = "delete-current"; break;
            case 2: BSL_LIST_DetachCurrent(L); if (m1.cur >= 0) { El *e = m1.v[(size_t)m1.cur]; CHECK(!e->freed, "b03-detach", "detaching freed the element"); elFree(e); m1.v.erase(m1.v.begin() + m1.cur); if (m1.cur >= (int)m1.v.size()) m1.cur = (int)m1.v.size() - 1; changes++; } nm = "detach-current"; break;
            case 3: { int key = (int)g.draw((uint64_t)keys), at = -1; for (int i = 0; i < n && at < 0; i++) if (m1.v[(size_t)i]->key == key) at = i; int32_t err = 5; void *r = BSL_LIST_Search(L, &key, elCmp, &err); CHECK(r == (at < 0 ? nullptr : m1.v[(size_t)at]), "b03-search", "search for %d found %p, index %d expected", key, r, at); m1.cur = at; void *r2 = BSL_LIST_SearchDataConst(L, &key, elCmp, &err); CHECK(r2 == r, "b03-search2", "the non-moving search differs"); CHECK(n || BSL_LIST_Search(L, &key, nullptr, nullptr) == nullptr, "b03-search3", "found in an empty list"); { void *w = n ? m1.v[g.draw((uint64_t)n - 1)] : nullptr; if (w) { int want = -1; for (int i = 0; i < n && want < 0; i++) if (m1.v[(size_t)i]->key == ((El *)w)->key && m1.v[(size_t)i]->id == ((El *)w)->id) want = i; void *q = BSL_LIST_Search(L, w, nullptr, nullptr); CHECK(q == w && want >= 0, "b03-search-mem", "search without a comparison did not find the equal element"); m1.cur = want; } else m1.cur = -1; } nm = "search"; break; }
            case 4: { uint32_t i = (uint32_t)g.draw((uint64_t)n + 1); void *r = BSL_LIST_GetIndexNode(i, L); CHECK(r == (i < (uint32_t)n ? m1.v[i] : nullptr), "b03-index", "element %u of %d", i, n); if (i < (uint32_t)n) m1.cur = (int)i; void *r2 = n ? BSL_LIST_GetIndexNodeEx(i, BSL_LIST_FirstNode(L), L) : nullptr; CHECK(r2 == (i < (uint32_t)n ? m1.v[i] : nullptr), "b03-index-ex", "element %u of %d", i, n); nm = "index"; break; }
            case 5: { std::vector<El *> before = m1.v; BslList *r = BSL_LIST_Sort(L, ptrCmp); if (n == 0 && !r) { nm = "sort"; break; } CHECK(r == L, "b03-sort", "sort of %d elements failed", n); std::vector<El *> now; for (BslListNode *x = BSL_LIST_FirstNode(L); x && now.size() <= (size_t)n; x = BSL_LIST_GetNextNode(L, x)) now.push_back((El *)BSL_LIST_GetData(x)); CHECK(std::is_sorted(now.begin(), now.end(), [](El *a, El *b) { return a->key < b->key; }), "b03-unsorted", "the sorted list of %d is not in order", n); auto a = before, b = now; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "b03-sort-set", "sorting changed the elements"); m1.v = now; BSL_LIST_GET_FIRST(L); m1.cur = n ? 0 : -1; nm = "sort"; break; }
            case 6: BSL_LIST_RevList(L); std::reverse(m1.v.begin(), m1.v.end()); m1.cur = n ? 0 : -1; nm = "reverse"; changes++; break;
            case 7: { void *c0 = BSL_LIST_Curr(L); BslList *c = BSL_LIST_Copy(L, elDup, elFree); CHECK((c != nullptr) == (n > 0), "b03-copy", "copy of %d elements: %p", n, (void *)c); CHECK(BSL_LIST_Curr(L) == c0, "b03-copy-moves", "copying moved the source's cursor"); if (c) { M mc; int i = 0; for (BslListNode *x = BSL_LIST_FirstNode(c); x && i <= n; x = BSL_LIST_GetNextNode(c, x), i++) { El *e = (El *)BSL_LIST_GetData(x); CHECK(i < n && e != m1.v[(size_t)i] && e->key == m1.v[(size_t)i]->key, "b03-copy-el", "copied element %d differs", i); mc.v.push_back(e); } mc.cur = (int)mc.v.size() - 1; same(c, mc, "copy"); int j = (k + 1) % 3; BSL_LIST_FREE(l[j], elFree); l[j] = c; m[j] = mc; } nm = "copy"; break; }
            case 8: { int j = (k + 1 + (int)g.draw(1)) % 3; M &ms = m[j]; if (ms.v.empty() && n == 0) break; BslList *r = BSL_LIST_Concat(L, l[j]); if (limited && n && !ms.v.empty() && n + (int)ms.v.size() > maxEl) { CHECK(!r, "b03-concat-limit", "concatenation beyond the limit"); break; } CHECK(r == L, "b03-concat", "concatenation failed"); if (n == 0) m1.cur = ms.v.empty() ? -1 : 0; m1.v.insert(m1.v.end(), ms.v.begin(), ms.v.end()); l[j]->first = l[j]->last = l[j]->curr = nullptr; l[j]->count = 0; ms = M(); changes++; nm = "concat"; break; }
            case 9: { if (!n) break; size_t i = g.draw((uint64_t)n - 1); BslListNode *x = BSL_LIST_FirstNode(L); for (size_t a = 0; a < i; a++) x = BSL_LIST_GetNextNode(L, x); El *e = m1.v[i]; CHECK(BSL_LIST_GetElmtIndex(e, L) == (int)i, "b03-elmtindex", "index of element %zu", i); if (g.boolean()) { BSL_LIST_DeleteNode(L, x, elFree); CHECK(e->freed, "b03-delnode", "DeleteNode did not free the element"); m1.v.erase(m1.v.begin() + (long)i); if (m1.cur == (int)i) m1.cur = i < m1.v.size() ? (int)i : -1; else if (m1.cur > (int)i) m1.cur--; nm = "delete-node"; } else { BslListNode *y = x; BSL_LIST_DetachNode(L, &y); CHECK(!e->freed, "b03-detnode", "DetachNode freed the element"); elFree(e); m1.v.erase(m1.v.begin() + (long)i); int nx = m1.v.empty() ? -1 : i < m1.v.size() ? (int)i : (int)i - 1; CHECK((y ? BSL_LIST_GetData(y) : nullptr) == (nx < 0 ? nullptr : m1.v[(size_t)nx]), "b03-detnext", "DetachNode left the node pointer elsewhere"); if (m1.cur == (int)i) m1.cur = nx; else if (m1.cur > (int)i) m1.cur--; nm = "detach-node"; } changes++; break; }
            case 10: BSL_LIST_DeleteAll(L, elFree); for (El *e : m1.v) CHECK(e->freed, "b03-delall", "DeleteAll left an element"); m1 = M(); nm = "delete-all"; changes++; break;
            case 11: { if (!limited) break; int lim = 0xffff; CHECK(BSL_LIST_SetMaxElements(lim - 1) != BSL_SUCCESS && BSL_LIST_SetMaxElements(0x10000000) != BSL_SUCCESS && BSL_LIST_GetMaxElements() == maxEl, "b03-max", "a limit out of range was accepted"); nm = "limit"; break; }
            case 12: { int w = (int)g.draw(3); void *r; if (w == 0) { r = BSL_LIST_GET_FIRST(L); m1.cur = n ? 0 : -1; } else if (w == 1) { r = BSL_LIST_GET_LAST(L); m1.cur = n - 1; } else if (w == 2) { r = BSL_LIST_GET_NEXT(L); m1.cur = m1.cur < 0 ? (n ? 0 : -1) : m1.cur + 1 < n ? m1.cur + 1 : -1; } else { r = BSL_LIST_GET_PREV(L); m1.cur = m1.cur < 0 ? n - 1 : m1.cur - 1; } CHECK(r == (m1.cur < 0 ? nullptr : m1.v[(size_t)m1.cur]), "b03-move", "cursor move %d", w); nm = "move"; break; }
            default: { CHECK(BSL_LIST_AddElement(L, nullptr, BSL_LIST_POS_END) != BSL_SUCCESS, "b03-null", "a null element was accepted"); int z = 1; El q{0, 0, false}; CHECK(BSL_LIST_AddElement(L, &q, (BslListPosition)4) != BSL_SUCCESS, "b03-pos", "a wrong position was accepted"); CHECK(BSL_LIST_GetElmtIndex(&q, L) == -1, "b03-foreign", "an element not in the list has an index"); int32_t err = 0; (void)z; (void)err; nm = "bad-args"; break; }
        }
        if (*nm) g.label(nm); for (int i = 0; i < 3; i++) same(l[i], m[i], nm);
    }
    inLists = m[0].v.size() + m[1].v.size() + m[2].v.size(); CHECK((int)inLists == liveDup, "b03-leak", "%d elements are alive, the lists hold %zu", liveDup, inLists); for (auto *x : l) { if (g.boolean()) { BSL_LIST_FREE(x, elFree); } else { for (BslListNode *y = BSL_LIST_FirstNode(x); y; y = BSL_LIST_GetNextNode(x, y)) elFree(BSL_LIST_GetData(y)); BSL_LIST_FreeWithoutData(x); } } CHECK(liveDup == 0 && !countErr, "b03-end", "%d elements left after freeing the lists", liveDup); if (limited) BSL_LIST_SetMaxElements(10000000);
    if (changes >= 8) g.nontrivial(); g.key(sfmt("%d/%zu/%d", ops, inLists, keys) + std::to_string(g.draw(0)));
}
PBT_TEST(sort, 4000, 100000, 0, 40)
{
    for (El *e : pool) delete e; pool.clear(); liveDup = 0; BslList *l = BSL_LIST_New(8); int n = (int)g.pick<int>({0, 1, 2, 3, 100, 1000, 3000}); n = n > 3 ? (int)g.range(2, (uint64_t)n) : n; int shape = (int)g.draw(4), keys = (int)g.pick<int>({1, 2, 10, 1 << 30}); std::vector<El *> v; bool small = g.chance(1, 3); uint32_t old = BSL_LIST_GetMaxQsortCount(); if (small) BSL_LIST_SetMaxQsortCount(10000);
    uint64_t s = g.draw(UINT64_MAX); for (int i = 0; i < n; i++) { int key = shape == 0 ? (int)(splitmix(s) % (uint64_t)keys) : shape == 1 ? i : shape == 2 ? n - i : shape == 3 ? (i % 2 ? i : n - i) : std::min(i, n - i); El *e = mkEl(key); v.push_back(e); BSL_LIST_AddElement(l, e, BSL_LIST_POS_END); }
    BslList *r = BSL_LIST_Sort(l, ptrCmp); if (n) CHECK(r == l, "b03-sort-fail", "sorting %d elements failed", n); std::vector<El *> now; for (BslListNode *x = BSL_LIST_FirstNode(l); x && now.size() <= v.size(); x = BSL_LIST_GetNextNode(l, x)) now.push_back((El *)BSL_LIST_GetData(x)); M m; m.v = now; BSL_LIST_GET_FIRST(l); m.cur = now.empty() ? -1 : 0; same(l, m, "sort"); CHECK(now.size() == v.size() && std::is_sorted(now.begin(), now.end(), [](El *a, El *b) { return a->key < b->key; }), "b03-sort-order", "%d elements of shape %d are not sorted", n, shape); std::sort(v.begin(), v.end()); std::sort(now.begin(), now.end()); CHECK(v == now, "b03-sort-perm", "not a permutation"); BSL_LIST_FREE(l, elFree); BSL_LIST_SetMaxQsortCount(old); if (n > 2) g.nontrivial(); g.key(sfmt("%d %d %d %d", n, shape, keys, small));
}
namespace {
std::map<void *, size_t> heap; int dupFail = -1;
void *cdup(void *p, size_t n) { if (dupFail >= 0 && dupFail-- == 0) return nullptr; void *q = malloc(n ? n : 1); memcpy(q, p, n); heap[q] = n; return q; }
void cfree(void *p) { if (!heap.erase(p)) countErr = true; free(p); }
uint32_t collide(uintptr_t k) { return (uint32_t)(k & 3) * 0x40000001u; }
uint32_t collideS(uintptr_t k) { return ((const char *)k)[0] & 1; }
int32_t upd(BSL_HASH_Hash *h, BSL_HASH_Iterator it, uintptr_t v, uint32_t) { (void)h; (void)it; (void)v; return BSL_SUCCESS; }
}  // namespace
PBT_TEST(hash, 12000, 400000, 0, 120)
{
    heap.clear(); countErr = false; bool str = g.boolean(), dupv = g.boolean(), coll = g.chance(1, 4); ListDupFreeFuncPair kf = {cdup, cfree}, vf = {cdup, cfree}; uint32_t bk = g.pick<uint32_t>({1, 2, 3, 8, 16, 100, 1024}); BSL_HASH_Hash *h = BSL_HASH_Create(bk, coll ? (str ? collideS : collide) : (str ? BSL_HASH_CodeCalcStr : BSL_HASH_CodeCalcInt), str ? BSL_HASH_MatchStr : BSL_HASH_MatchInt, str ? &kf : nullptr, dupv ? &vf : nullptr); if (!h) { g.label("create-refused"); return; }
    std::map<std::string, uint64_t> m; int dom = (int)g.pick<int>({3, 20, 400}); int changes = 0; auto keyOf = [&](int i) { return str ? sfmt("k%d", i) : std::to_string(i); }; auto raw = [&](int i, const std::string &s) -> uintptr_t { return str ? (uintptr_t)s.c_str() : (uintptr_t)i; };
    auto get = [&](uintptr_t v) { return dupv ? *(uint64_t *)v : (uint64_t)v; };
    int ops = (int)g.range(1, g.chance(1, 5) ? 600 : 60); for (int o = 0; o < ops; o++) {
        int i = (int)g.draw((uint64_t)dom); std::string s = keyOf(i); uintptr_t k = raw(i, s); uint64_t val = g.draw(UINT32_MAX); uintptr_t v = dupv ? (uintptr_t)&val : (uintptr_t)val; uint32_t ks = (uint32_t)s.size() + 1; bool in = m.count(s);
        switch (g.weighted({8, 5, 5, 4, 1, 2, 1})) {
            case 0: { bool f = str && g.chance(1, 20); if (f) dupFail = (int)g.draw(dupv ? 1 : 0); int32_t r = BSL_HASH_Insert(h, k, ks, v, sizeof val); bool hit = f && dupFail < 0; dupFail = -1; if (in) CHECK(r != BSL_SUCCESS, "b03-h-dup", "inserting an existing key succeeded"); else if (hit) CHECK(r != BSL_SUCCESS, "b03-h-nomem", "insert succeeded though a copy failed"); else { CHECK(r == BSL_SUCCESS, "b03-h-insert", "insert failed"); m[s] = val; changes++; } break; }
            case 1: { int32_t r = BSL_HASH_Put(h, k, ks, v, sizeof val, nullptr); CHECK(r == BSL_SUCCESS, "b03-h-put", "put failed"); m[s] = val; changes++; break; }
            case 2: { uintptr_t out = 0; int32_t r = BSL_HASH_At(h, k, &out); CHECK((r == BSL_SUCCESS) == in, "b03-h-at", "lookup of %s: %x, present %d", s.c_str(), r, in); if (in) CHECK(get(out) == m[s], "b03-h-val", "value of %s differs", s.c_str()); BSL_HASH_Iterator it = BSL_HASH_Find(h, k); CHECK((it != BSL_HASH_IterEnd(h)) == in, "b03-h-find", "find of %s", s.c_str()); if (in) CHECK(get(BSL_HASH_IterValue(h, it)) == m[s], "b03-h-itval", "iterator value of %s", s.c_str()); break; }
            case 3: { BSL_HASH_Iterator want = BSL_HASH_IterEnd(h), it = BSL_HASH_Find(h, k); if (in) want = BSL_HASH_IterNext(h, it); BSL_HASH_Iterator r = BSL_HASH_Erase(h, k); CHECK(r == want, "b03-h-erase", "erase of %s (present %d) returned another iterator than the next", s.c_str(), in); if (in) { m.erase(s); changes++; } break; }
            case 4: if (g.chance(1, 4)) { BSL_HASH_Clear(h); m.clear(); } break;
            case 5: { std::set<std::string> seen; size_t n = 0; for (BSL_HASH_Iterator it = BSL_HASH_IterBegin(h); it != BSL_HASH_IterEnd(h); it = BSL_HASH_IterNext(h, it)) { uintptr_t kk = BSL_HASH_HashIterKey(h, it); std::string ss = str ? std::string((char *)kk) : std::to_string((int)kk); CHECK(m.count(ss), "b03-h-ghost", "the iteration shows %s, which is not in the table", ss.c_str()); CHECK(seen.insert(ss).second, "b03-h-twice", "the iteration shows %s twice", ss.c_str()); CHECK(get(BSL_HASH_IterValue(h, it)) == m[ss], "b03-h-itval2", "iterated value of %s", ss.c_str()); if (++n > m.size()) pbt::fail("b03-h-endless", "the iteration does not end"); } CHECK(n == m.size(), "b03-h-missing", "the iteration shows %zu of %zu entries", n, m.size()); break; }
            default: { int32_t r = BSL_HASH_Put(h, k, ks, v, sizeof val, upd); CHECK(r == BSL_SUCCESS, "b03-h-put2", "put with a callback failed"); if (!in) m[s] = val; break; }
        }
        CHECK(BSL_HASH_Size(h) == m.size() && BSL_HASH_Empty(h) == m.empty(), "b03-h-size", "size %u, %zu expected", BSL_HASH_Size(h), m.size()); CHECK(heap.size() == m.size() * ((str ? 1u : 0u) + (dupv ? 1u : 0u)), "b03-h-mem", "%zu copies are alive for %zu entries", heap.size(), m.size()); CHECK(!countErr, "b03-h-free", "something was freed twice");
    }
    for (auto &kv : m) { int i = str ? 0 : std::stoi(kv.first); uintptr_t out; CHECK(BSL_HASH_At(h, raw(i, kv.first), &out) == BSL_SUCCESS && get(out) == kv.second, "b03-h-final", "entry %s lost", kv.first.c_str()); }
    BSL_HASH_Destroy(h); CHECK(heap.empty() && !countErr, "b03-h-leak", "%zu copies left", heap.size()); if (changes >= 8) g.nontrivial(); g.key(sfmt("%d %d %d %u %d %d %zu", str, dupv, coll, bk, dom, ops, m.size())); g.label(coll ? "colliding" : "hashed");
}
PBT_TEST(deque, 8000, 200000, 0, 60)
{
    heap.clear(); countErr = false; bool dup = g.boolean(); ListDupFreeFuncPair f = {cdup, cfree}; BSL_List l; CHECK(BSL_ListInit(&l, dup ? &f : nullptr) == BSL_SUCCESS, "b03-d-init", "init"); std::deque<uint64_t> m; int changes = 0; auto get = [&](uintptr_t v) { return dup ? *(uint64_t *)v : (uint64_t)v; };
    int ops = (int)g.range(1, 80); for (int o = 0; o < ops; o++) {
        uint64_t val = g.range(1, 50); uintptr_t v = dup ? (uintptr_t)&val : (uintptr_t)val; size_t at = m.empty() ? 0 : g.draw(m.size() - 1); auto iter = [&](size_t n) { BSL_ListIterator it = BSL_ListIterBegin(&l); for (size_t i = 0; i < n; i++) it = BSL_ListIterNext(&l, it); return it; };
        switch (g.weighted({4, 4, 2, 2, 3, 3, 1, 2})) {
            case 0: CHECK(BSL_ListPushFront(&l, v, sizeof val) == BSL_SUCCESS, "b03-d-pf", "push"); m.push_front(val); changes++; break;
            case 1: CHECK(BSL_ListPushBack(&l, v, sizeof val) == BSL_SUCCESS, "b03-d-pb", "push"); m.push_back(val); changes++; break;
            case 2: { int32_t r = BSL_ListPopFront(&l); (void)r; if (!m.empty()) m.pop_front(); break; }
            case 3: { int32_t r = BSL_ListPopBack(&l); (void)r; if (!m.empty()) m.pop_back(); break; }
            case 4: { if (m.empty()) break; CHECK(BSL_ListInsert(&l, iter(at), v, sizeof val) == BSL_SUCCESS, "b03-d-ins", "insert"); m.insert(m.begin() + (long)at, val); changes++; break; }
            case 5: { if (m.empty()) break; BSL_ListIterator nx = BSL_ListIterErase(&l, iter(at)); m.erase(m.begin() + (long)at); CHECK(nx == (at < m.size() ? iter(at) : BSL_ListIterEnd(&l)), "b03-d-erase", "erase returned another iterator than the next"); changes++; break; }
            case 6: if (g.chance(1, 3)) { BSL_ListClear(&l); m.clear(); } break;
            default: { if (dup) break; static auto eq = [](uintptr_t a, uintptr_t b) -> int32_t { return a == b ? 0 : 1; }; BSL_ListIterator it = BSL_ListIterFind(&l, +eq, val); size_t p = 0; while (p < m.size() && m[p] != val) p++; if (p < m.size()) CHECK(it && it != BSL_ListIterEnd(&l) && BSL_ListIterData(it) == val && it == iter(p), "b03-d-find", "find"); else CHECK(!it || it == BSL_ListIterEnd(&l), "b03-d-ghost", "found a missing element"); break; }
        }
        CHECK(BSL_ListSize(&l) == m.size() && BSL_ListIsEmpty(&l) == m.empty(), "b03-d-size", "size"); size_t i = 0; for (BSL_ListIterator it = BSL_ListIterBegin(&l); it != BSL_ListIterEnd(&l); it = BSL_ListIterNext(&l, it)) { CHECK(i < m.size() && get(BSL_ListIterData(it)) == m[i], "b03-d-el", "element %zu differs", i); i++; } CHECK(i == m.size(), "b03-d-short", "%zu of %zu", i, m.size());
        if (!m.empty()) { CHECK(get(BSL_ListFront(&l)) == m.front() && get(BSL_ListBack(&l)) == m.back(), "b03-d-ends", "front or back"); BSL_ListIterator e = iter(m.size() - 1); for (size_t j = m.size() - 1; j > 0; j--) { e = BSL_ListIterPrev(&l, e); CHECK(get(BSL_ListIterData(e)) == m[j - 1], "b03-d-prev", "backwards element %zu", j - 1); } } CHECK(heap.size() == (dup ? m.size() : 0) && !countErr, "b03-d-mem", "%zu copies for %zu elements", heap.size(), m.size());
    }
    BSL_ListDeinit(&l); CHECK(heap.empty() && !countErr, "b03-d-leak", "copies left"); if (changes >= 8) g.nontrivial(); g.key(sfmt("%d %d %zu", dup, ops, m.size()));
}
