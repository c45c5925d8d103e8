// B05: the I/O abstraction delivers bytes exactly once and in order.
#include <deque>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include "vh.hpp"
extern "C" {
#include "bsl_uio.h"
#include "bsl_types.h"
#include "bsl_buffer.h"
#include "uio_base.h"
}
const char *pbt::PROPERTY_RULE = "A case is a history of 1-120 operations on one memory, buffer-chain, file or socket object; non-trivial when at least two writes and two reads (or flushes) moved data, with partial results, line reads or blocking among them.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"one thread", "a lower object under two stacked buffers reports would-block as success with no bytes, as the supplied transports do", "a file is repositioned or flushed between reading and writing, as C streams require"};
static std::string dirName;
void pbt::setup() { }
namespace {
std::string str(const Bytes &b) { return std::string(b.begin(), b.end()); }
uint32_t flag(BSL_UIO *u, uint32_t f) { uint32_t o = 0; CHECK(BSL_UIO_TestFlags(u, f, &o) == BSL_SUCCESS, "b05-testflags", "TestFlags failed"); return o; }
Bytes someBytes(G &g, size_t max) { Bytes b = g.bytes((size_t)g.len(1, max)); if (b.empty()) b.push_back('x'); int nl = (int)g.draw(3); for (int i = 0; i < nl; i++) b[g.draw(b.size() - 1)] = '\n'; return b; }
std::string someText(G &g, size_t max) { std::string s; size_t n = g.draw(max); for (size_t i = 0; i < n; i++) s += g.chance(1, 6) ? '\n' : (char)(1 + g.draw(254)); return s; }
std::string lineOf(const std::string &data, size_t from, size_t size) { size_t n = std::min(size - 1, data.size() - from), i = 0; while (i < n) { i++; if (data[from + i - 1] == '\n') break; } return data.substr(from, i); }
void nums(BSL_UIO *u, int64_t r, int64_t w)
{
    int64_t v = -1; CHECK(BSL_UIO_Ctrl(u, BSL_UIO_GET_READ_NUM, sizeof v, &v) == 0 && v == r, "b05-readnum", "read counter %lld, %lld bytes were read", (long long)v, (long long)r);
    CHECK(BSL_UIO_Ctrl(u, BSL_UIO_GET_WRITE_NUM, sizeof v, &v) == 0 && v == w, "b05-writenum", "write counter %lld, %lld bytes were written", (long long)v, (long long)w);
}
uint64_t pend(BSL_UIO *u, int cmd) { uint64_t v = ~0ull; CHECK(BSL_UIO_Ctrl(u, cmd, sizeof v, &v) == 0, "b05-pending", "pending query failed"); return v; }
}  // namespace

PBT_TEST(mem, 60000, 1500000, 0, 120)
{
    BSL_UIO *u = BSL_UIO_New(BSL_UIO_MemMethod()); CHECK(u, "b05-new", "no memory object"); std::string d, all; size_t pos = 0; bool ro = false, ever = false; int eof = -1; int64_t rn = 0, wn = 0; std::vector<Exact *> bufs; int moves = 0, special = 0;
    CHECK(BSL_UIO_GetTransportType(u) == BSL_UIO_MEM, "b05-type", "type"); int ops = (int)g.range(1, g.chance(1, 6) ? 120 : 30);
    for (int o = 0; o < ops; o++) switch (g.weighted({8, 8, 4, 3, 2, 2, 1, 1, 1, 1, 1})) {
    case 0: case 3: {
        bool puts = g.chance(1, 3); Bytes b; std::string s; if (puts) s = someText(g, 60); else { b = someBytes(g, g.chance(1, 8) ? 5000 : 80); s = str(b); }
        uint32_t w = 777; int32_t ret; if (puts) { Exact e((const uint8_t *)s.c_str(), s.size() + 1); ret = BSL_UIO_Puts(u, (char *)e.p, &w); } else { Exact e(b); ret = BSL_UIO_Write(u, e.p, (uint32_t)e.n, &w); }
        if (ro) { CHECK(ret == BSL_UIO_WRITE_NOT_ALLOWED, "b05-mem-ro", "write to read-only memory returned %s", rc(ret).c_str()); break; }
        CHECK(ret == BSL_SUCCESS && w == s.size(), "b05-mem-write", "write of %zu returned %s, %u written", s.size(), rc(ret).c_str(), w); d.erase(0, pos); pos = 0; d += s; wn += (int64_t)s.size(); if (!s.empty()) ever = true, moves++; break; }
    case 1: {
        size_t n = (size_t)g.len(1, g.chance(1, 4) ? 6000 : 40); if (!n) n = 1; Exact e(n); uint32_t r = 777; int32_t ret = BSL_UIO_Read(u, e.p, (uint32_t)n, &r); size_t want = std::min(n, d.size() - pos);
        CHECK(ret == BSL_SUCCESS && r == want, "b05-mem-readlen", "read of %zu with %zu left returned %s, %u", n, d.size() - pos, rc(ret).c_str(), r); CHECK(!memcmp(e.p, d.data() + pos, want), "b05-mem-read", "other bytes were read than written"); for (size_t i = want; i < n; i++) CHECK(e.p[i] == 0xA5, "b05-mem-readover", "read touched the buffer beyond its result");
        uint32_t retry = flag(u, BSL_UIO_FLAGS_SHOULD_RETRY); CHECK((retry != 0) == (want == 0 && eof != 0), "b05-mem-retry", "read of %zu: retry flag %u, eof setting %d", want, retry, eof); pos += want; rn += (int64_t)want; if (want) moves++; if (want && want < n) special++; break; }
    case 2: {
        uint32_t n = (uint32_t)g.draw(g.chance(1, 4) ? 4000 : 30), r = n; Exact e(n); int32_t ret = BSL_UIO_Gets(u, (char *)e.p, &r); CHECK(ret == BSL_SUCCESS, "b05-mem-gets", "line read failed %s", rc(ret).c_str()); if (!n) { CHECK(r == 0, "b05-mem-gets0", "line read into nothing gave %u", r); break; }
        std::string want = lineOf(d, pos, n); CHECK(r == want.size() && !memcmp(e.p, want.data(), r) && e.p[r] == 0, "b05-mem-line", "line read of size %u gave %u bytes, %zu expected (or other bytes)", n, r, want.size()); pos += r; rn += r; if (r) special++; break; }
    case 4: CHECK(pend(u, BSL_UIO_PENDING) == d.size() - pos && pend(u, BSL_UIO_WPENDING) == 0, "b05-mem-pend", "pending is not the %zu unread bytes", d.size() - pos); break;
    case 5: { if (!ever && !ro) break; if (g.boolean()) { struct { uint8_t *data; uint64_t size; } p = {}; CHECK(BSL_UIO_Ctrl(u, BSL_UIO_MEM_GET_INFO, sizeof p, &p) == 0 && p.size == d.size() - pos && (!p.size || !memcmp(p.data, d.data() + pos, p.size)), "b05-mem-info", "info does not show the unread bytes"); }
        else { BSL_BufMem *p = nullptr; CHECK(BSL_UIO_Ctrl(u, BSL_UIO_MEM_GET_PTR, sizeof p, &p) == 0 && p->length == d.size() - pos && (!p->length || !memcmp(p->data, d.data() + pos, p->length)), "b05-mem-ptr", "the pointer does not show the unread bytes"); CHECK(p->max >= p->length, "b05-mem-max", "capacity below length"); } break; }
    case 6: { int32_t v = (int32_t)g.range(-1, 1), q = 99; CHECK(BSL_UIO_Ctrl(u, BSL_UIO_MEM_SET_EOF, sizeof v, &v) == 0 && BSL_UIO_Ctrl(u, BSL_UIO_MEM_GET_EOF, sizeof q, &q) == 0 && q == v, "b05-mem-eof", "eof setting not kept"); eof = v; break; }
    case 7: { int32_t ret = BSL_UIO_Ctrl(u, BSL_UIO_RESET, 0, nullptr); if (!ever && !ro) { CHECK(pend(u, BSL_UIO_PENDING) == 0, "b05-mem-reset0", "data after the reset of an empty object"); break; } CHECK(ret == BSL_SUCCESS, "b05-mem-reset", "reset failed"); if (ro) d = all; else d.clear(); pos = 0; special++; break; }
    case 8: { CHECK(BSL_UIO_Ctrl(u, BSL_UIO_FLUSH, 0, nullptr) == 0, "b05-mem-flush", "flush failed"); break; }
    case 9: { Bytes b = someBytes(g, 300); Exact *e = new Exact(b); bufs.push_back(e); int32_t ret = BSL_UIO_Ctrl(u, BSL_UIO_MEM_NEW_BUF, (int32_t)e->n, e->p); bool can = ro || !ever; CHECK((ret == BSL_SUCCESS) == can, "b05-mem-newbuf", "new read-only memory: %s", rc(ret).c_str()); if (can) { ro = true; all = d = str(b); pos = 0; eof = 0; special++; } break; }
    default: { uint32_t w; uint8_t c = 0; CHECK(BSL_UIO_Write(u, &c, 0, &w) != BSL_SUCCESS && BSL_UIO_Read(u, &c, 0, &w) != BSL_SUCCESS && BSL_UIO_Write(u, nullptr, 1, &w) != BSL_SUCCESS && BSL_UIO_Puts(u, nullptr, &w) != BSL_SUCCESS, "b05-mem-null", "invalid arguments accepted"); }
    }
    nums(u, rn, wn); CHECK(pend(u, BSL_UIO_PENDING) == d.size() - pos, "b05-mem-end", "unread bytes differ at the end");
    BSL_UIO_Free(u); for (Exact *e : bufs) { delete e; } if (moves >= 3 && special) g.nontrivial(); g.label(ro ? "read-only" : "read-write"); g.key(sfmt("%d/%zu/%d/%lld", ops, d.size(), (int)ro, (long long)rn));
}

// ---- buffering object on top of a scripted one -----------------------------------------------------------------
namespace {
struct Bottom { G *g; int mode; std::string got; int calls, flushes, resets; bool failed, stacked; };
int32_t botWrite(BSL_UIO *u, const void *p, uint32_t n, uint32_t *w)
{
    Bottom *b = (Bottom *)BSL_UIO_GetUserData(u); b->calls++; *w = 0; BSL_UIO_ClearFlags(u, BSL_UIO_FLAGS_RWS | BSL_UIO_FLAGS_SHOULD_RETRY);
    int k = b->mode == 0 ? 0 : (int)b->g->weighted({4, 4, b->mode >= 2 ? 3u : 0u, b->mode >= 3 ? 1u : 0u});
    if (k == 2) { BSL_UIO_SetFlags(u, BSL_UIO_FLAGS_WRITE | BSL_UIO_FLAGS_SHOULD_RETRY); return !b->stacked && b->g->chance(1, 4) ? BSL_UIO_IO_BUSY : BSL_SUCCESS; }
    if (k == 3) { b->failed = true; return BSL_UIO_IO_EXCEPTION; }
    uint32_t m = k == 1 ? 1 + (uint32_t)b->g->draw(n - 1) : n; b->got.append((const char *)p, m); *w = m; return BSL_SUCCESS;
}
int32_t botCtrl(BSL_UIO *u, int32_t cmd, int32_t, void *) { Bottom *b = (Bottom *)BSL_UIO_GetUserData(u); if (cmd == BSL_UIO_FLUSH) b->flushes++; if (cmd == BSL_UIO_RESET) b->resets++; return BSL_SUCCESS; }
}  // namespace
PBT_TEST(chain, 30000, 800000, 0, 120)
{
    BSL_UIO_Method *m = BSL_UIO_NewMethod(); CHECK(m && !BSL_UIO_SetMethodType(m, (BSL_UIO_TransportType)(BSL_UIO_EXTEND + 1)) && !BSL_UIO_SetMethod(m, BSL_UIO_WRITE_CB, (void *)botWrite) && !BSL_UIO_SetMethod(m, BSL_UIO_CTRL_CB, (void *)botCtrl), "b05-method", "method"); BSL_UIO *bot = BSL_UIO_New(m); BSL_UIO_FreeMethod(m); CHECK(bot, "b05-new", "no object");
    Bottom b{&g, (int)g.weighted({2, 3, 4, 2}), "", 0, 0, 0, false, false}; BSL_UIO_SetUserData(bot, &b); BSL_UIO_SetInit(bot, true); int layers = g.chance(1, 5) ? 2 : 1; b.stacked = layers > 1; if (b.stacked && b.mode == 3) b.mode = 2; std::vector<BSL_UIO *> u; for (int i = 0; i < layers; i++) u.push_back(BSL_UIO_New(BSL_UIO_BufferMethod())); std::vector<uint32_t> size(layers, 4096);
    for (int i = 0; i < layers; i++) { CHECK(u[i], "b05-new", "no buffer"); if (i) CHECK(!BSL_UIO_Append(u[0], u[i]), "b05-append", "append"); } CHECK(!BSL_UIO_Append(u[0], bot), "b05-append", "append"); BSL_UIO *t = u[0]; for (int i = 0; i <= layers; i++, t = BSL_UIO_Next(t)) CHECK(t == (i < layers ? u[i] : bot), "b05-next", "chain order"); CHECK(!t, "b05-next", "chain end");
    CHECK(BSL_UIO_GetUioChainTransportType(u[0], BSL_UIO_BUFFER) && BSL_UIO_GetUioChainTransportType(u[0], (BSL_UIO_TransportType)(BSL_UIO_EXTEND + 1)) && !BSL_UIO_GetUioChainTransportType(u[0], BSL_UIO_MEM), "b05-chaintype", "types in the chain");
    if (g.chance(3, 4)) for (int i = 0; i < layers; i++) { uint32_t s = (uint32_t)g.range(200, 600), old = size[i]; int32_t ret = BSL_UIO_Ctrl(u[i], BSL_UIO_SET_BUFFER_SIZE, sizeof s, &s); CHECK((ret == BSL_SUCCESS) == (s >= 208), "b05-bufsize", "buffer size %u: %s", s, rc(ret).c_str()); size[i] = ret ? old : s; }
    g.note("layers %d mode %d", layers, b.mode); std::string acc; int ops = (int)g.range(1, 40), partial = 0, flushes = 0, writes = 0; int64_t wn = 0; bool dropped = false;
    for (int o = 0; o < ops; o++) {
        int k = (int)g.weighted({10, 3, 1, 1}); if (k == 0) {
            size_t n = 1 + (size_t)g.draw(g.chance(1, 3) ? 1500 : g.chance(1, 8) ? 9000 : 220); Bytes x = g.bytes(n); Exact e(x); uint32_t w = 777; b.failed = false; int before = b.calls; int32_t ret = BSL_UIO_Write(u[0], e.p, (uint32_t)n, &w); CHECK(w <= n, "b05-chain-wlen", "%u of %zu bytes accepted", w, n); g.note("write %zu: %s %u (below %zu)", n, rc(ret).c_str(), w, b.got.size()); acc.append((char *)e.p, w); if (!ret) wn += w; if (w < n) partial++; else writes++;
            if (b.mode <= 1) CHECK(!ret && w == n, "b05-chain-write", "write of %zu over an accepting object: %s, %u", n, rc(ret).c_str(), w);
            if (!b.failed && b.mode == 2) CHECK(ret == BSL_SUCCESS || ret == BSL_UIO_IO_BUSY, "b05-chain-ret", "a blocked lower object made the write fail with %s", rc(ret).c_str());
            if (b.failed) CHECK(ret != BSL_SUCCESS, "b05-chain-err", "the lower object's failure was reported as success"); if (b.calls == before) CHECK(w == n, "b05-chain-short", "short write %u of %zu without asking the lower object", w, n);
        } else if (k == 1) {
            b.failed = false; int f0 = b.flushes; int32_t ret = BSL_UIO_Ctrl(u[0], BSL_UIO_FLUSH, 0, nullptr); if (ret == BSL_SUCCESS) { CHECK(b.got == acc, "b05-chain-flush", "after a successful flush %zu of the %zu accepted bytes are below (or other bytes)", b.got.size(), acc.size()); CHECK(b.flushes == f0 + 1, "b05-chain-flushes", "flush not passed on"); flushes++; } else CHECK(b.mode >= 2, "b05-chain-flushfail", "flush over an accepting object: %s", rc(ret).c_str());
            if (b.failed) CHECK(ret != BSL_SUCCESS, "b05-chain-flusherr", "the lower object's failure was reported as success by flush");
        } else if (k == 2) { int r0 = b.resets; CHECK(!BSL_UIO_Ctrl(u[0], BSL_UIO_RESET, 0, nullptr) && b.resets == r0 + 1, "b05-chain-reset", "reset"); acc = b.got; dropped = true; }
        else if (layers == 1) { uint32_t s = (uint32_t)g.range(208, 700); CHECK(!BSL_UIO_Ctrl(u[0], BSL_UIO_SET_BUFFER_SIZE, sizeof s, &s), "b05-bufsize", "buffer size %u refused", s); size[0] = s; acc = b.got; dropped = true; }
        CHECK(b.got.size() <= acc.size() && !acc.compare(0, b.got.size(), b.got), "b05-chain-prefix", "the %zu bytes below are not a prefix of the %zu accepted ones", b.got.size(), acc.size()); size_t cap = 0; for (auto s : size) cap += s; CHECK(acc.size() - b.got.size() <= cap, "b05-chain-held", "%zu bytes held, the buffers have %zu", acc.size() - b.got.size(), cap);
    }
    b.mode = 0; CHECK(!BSL_UIO_Ctrl(u[0], BSL_UIO_FLUSH, 0, nullptr) && b.got == acc, "b05-chain-final", "the final flush did not deliver the accepted bytes"); nums(u[0], 0, wn);
    if (g.boolean()) BSL_UIO_FreeChain(u[0]); else { for (int i = 0; i < layers; i++) { CHECK(BSL_UIO_PopCurrent(u[i]) == (i + 1 < layers ? u[i + 1] : bot) && !BSL_UIO_Next(u[i]), "b05-pop", "pop"); BSL_UIO_Free(u[i]); } BSL_UIO_Free(bot); }
    if (writes >= 2 && (partial || flushes) && b.calls >= 2) g.nontrivial(); g.label(partial ? "partial" : "full"); if (dropped) g.label("reset"); g.key(sfmt("%d/%zu/%d", ops, acc.size(), b.calls));
}

// ---- files --------------------------------------------------------------------------------------------------------
PBT_TEST(file, 6000, 150000, 0, 60)
{
    char dir[] = "/tmp/vf-b05-XXXXXX"; CHECK(mkdtemp(dir), "b05-tmp", "no scratch directory"); std::string path = std::string(dir) + "/f"; struct Cleanup { std::string d, f; ~Cleanup() { unlink(f.c_str()); rmdir(d.c_str()); } } cl{dir, path};
    std::string d; bool exists = false; if (g.boolean()) { d = str(someBytes(g, 300)); FILE *f = fopen(path.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); exists = true; }
    BSL_UIO *u = BSL_UIO_New(BSL_UIO_FileMethod()); CHECK(u, "b05-new", "no file object"); { uint32_t r; uint8_t c; CHECK(BSL_UIO_Read(u, &c, 1, &r) != BSL_SUCCESS, "b05-file-unopened", "read before opening"); }
    int opens = (int)g.range(1, 3), moves = 0, lines = 0; int64_t rn = 0, wn = 0; for (int q = 0; q < opens; q++) {
        int mode = (int)g.draw(4); uint32_t fl[] = {BSL_UIO_FILE_READ, BSL_UIO_FILE_WRITE, BSL_UIO_FILE_READ | BSL_UIO_FILE_WRITE, BSL_UIO_FILE_APPEND, BSL_UIO_FILE_APPEND | BSL_UIO_FILE_READ}; bool rd = mode != 1 && mode != 3, wr = mode != 0, app = mode >= 3; Exact nm((const uint8_t *)path.c_str(), path.size() + 1);
        int32_t ret = BSL_UIO_Ctrl(u, BSL_UIO_FILE_OPEN, (int32_t)fl[mode], nm.p); bool ok = exists || (mode != 0 && mode != 2); CHECK((ret == BSL_SUCCESS) == ok, "b05-file-open", "open mode %d of %s file: %s", mode, exists ? "an existing" : "no", rc(ret).c_str()); if (!ok) { if (q) { /* earlier file is closed */ } BSL_UIO_Free(u); u = BSL_UIO_New(BSL_UIO_FileMethod()); rn = wn = 0; continue; } exists = true; if (mode == 1) d.clear();
        size_t pos = 0; int last = 0 /* 0 positioned, 1 read, 2 write */; int ops = (int)g.range(1, 25); bool known = !app; for (int o = 0; o < ops; o++) switch (g.weighted({5, 5, 3, 2, 2, 2, 1})) {
        case 0: { if (!wr || last == 1) { if (!wr) { uint8_t c = 1; uint32_t w = 9; if (g.chance(1, 4)) { CHECK(BSL_UIO_Write(u, &c, 1, &w) != BSL_SUCCESS, "b05-file-ro", "write to a file opened for reading"); o = ops; } } break; } bool puts = g.chance(1, 3); std::string s = puts ? someText(g, 60) : str(someBytes(g, g.chance(1, 8) ? 9000 : 100)); uint32_t w = 777; int32_t r; Exact e((const uint8_t *)s.c_str(), s.size() + (puts ? 1 : 0)); r = puts ? BSL_UIO_Puts(u, (char *)e.p, &w) : BSL_UIO_Write(u, e.p, (uint32_t)s.size(), &w);
            CHECK(r == BSL_SUCCESS && w == s.size(), "b05-file-write", "write of %zu: %s, %u", s.size(), rc(r).c_str(), w); wn += w; if (s.empty()) break; if (app) pos = d.size(); if (d.size() < pos) d.resize(pos, 0); d.replace(pos, std::min(s.size(), d.size() - pos), s); pos += s.size(); last = 2; known = true; moves++; break; }
        case 1: { if (!rd || last == 2) break; size_t n = 1 + (size_t)g.draw(g.chance(1, 4) ? 12000 : 60); Exact e(n); uint32_t r = 777; int32_t ret = BSL_UIO_Read(u, e.p, (uint32_t)n, &r); size_t want = pos >= d.size() ? 0 : std::min(n, d.size() - pos); CHECK(ret == BSL_SUCCESS && r == want, "b05-file-readlen", "read of %zu with %zu left: %s, %u", n, d.size() - std::min(pos, d.size()), rc(ret).c_str(), r); CHECK(!memcmp(e.p, d.data() + pos, want), "b05-file-read", "other bytes were read"); pos += want; rn += (int64_t)want; last = 1; known = true; moves += want > 0;
            bool eof = false; CHECK(!BSL_UIO_Ctrl(u, BSL_UIO_FILE_GET_EOF, 1, &eof) && eof == (want < n), "b05-file-eof", "end of file reported %d after a read of %zu/%zu", eof, want, n); break; }
        case 2: { if (!rd || last == 2 || d.find('\0', std::min(pos, d.size())) != std::string::npos) break; uint32_t n = 2 + (uint32_t)g.draw(g.chance(1, 4) ? 4000 : 30), r = n; Exact e(n); int32_t ret = BSL_UIO_Gets(u, (char *)e.p, &r); std::string want = pos >= d.size() ? "" : lineOf(d, pos, n); CHECK(ret == BSL_SUCCESS && r == want.size() && !memcmp(e.p, want.data(), r) && (!r || e.p[r] == 0), "b05-file-line", "line read of size %u: %s, %u bytes, %zu expected (or other bytes)", n, rc(ret).c_str(), r, want.size()); pos += r; rn += r; last = 1; known = true; lines += r > 0; break; }
        case 3: { long to = (long)g.draw(d.size() + (wr && !app ? 20 : 0)); bool reset = g.chance(1, 4); int32_t r = reset ? BSL_UIO_Ctrl(u, BSL_UIO_RESET, 0, nullptr) : BSL_UIO_Ctrl(u, BSL_UIO_FILE_SEEK, sizeof to, &to); CHECK(r == BSL_SUCCESS, "b05-file-seek", "seek: %s", rc(r).c_str()); pos = reset ? 0 : (size_t)to; last = 0; known = true; break; }
        case 4: { if (!known) break; long at = -1; CHECK(!BSL_UIO_Ctrl(u, BSL_UIO_FILE_TELL, sizeof at, &at) && at == (long)pos, "b05-file-tell", "position %ld, %zu expected", at, pos); if (pos <= d.size()) { CHECK(pend(u, BSL_UIO_PENDING) == d.size() - pos, "b05-file-pend", "pending is not %zu", d.size() - pos); CHECK(!BSL_UIO_Ctrl(u, BSL_UIO_FILE_TELL, sizeof at, &at) && at == (long)pos, "b05-file-pendmove", "the pending query moved the position to %ld from %zu", at, pos); last = 0; } break; }
        case 5: { if (last == 1) break; CHECK(!BSL_UIO_Ctrl(u, BSL_UIO_FLUSH, 0, nullptr), "b05-file-flush", "flush failed"); std::string now; FILE *f = fopen(path.c_str(), "rb"); char tmp[4096]; size_t k; while ((k = fread(tmp, 1, sizeof tmp, f)) > 0) now.append(tmp, k); fclose(f); CHECK(now == d, "b05-file-content", "after a flush the file has %zu bytes, %zu expected (or others)", now.size(), d.size()); if (last == 2) last = app ? 2 : 0; break; }
        default: CHECK(pend(u, BSL_UIO_WPENDING) == 0, "b05-file-wpend", "wpending"); nums(u, rn, wn); }
        (void)pos;
    }
    BSL_UIO_Free(u); if (exists) { std::string now; FILE *f = fopen(path.c_str(), "rb"); char tmp[4096]; size_t k; while ((k = fread(tmp, 1, sizeof tmp, f)) > 0) now.append(tmp, k); fclose(f); CHECK(now == d, "b05-file-closed", "after closing, the file has %zu bytes, %zu expected (or others)", now.size(), d.size()); }
    if (moves >= 3) g.nontrivial(); if (lines) g.label("lines"); g.key(sfmt("%zu/%d/%d", d.size(), moves, lines));
}

// ---- sockets ------------------------------------------------------------------------------------------------------
PBT_TEST(sock, 3000, 80000, 0, 60)
{
    bool tcp = g.chance(2, 3); int fd[2] = {-1, -1}; sockaddr_in a[2] = {}; if (tcp) { CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, fd), "b05-pair", "socketpair"); int sz = 4608; for (int f : fd) { setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); } }
    else for (int i = 0; i < 2; i++) { fd[i] = socket(AF_INET, SOCK_DGRAM, 0); a[i].sin_family = AF_INET; a[i].sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a[i]; CHECK(fd[i] >= 0 && !bind(fd[i], (sockaddr *)&a[i], sizeof a[i]) && !getsockname(fd[i], (sockaddr *)&a[i], &l), "b05-udp", "loopback"); }
    for (int f : fd) { fcntl(f, F_SETFL, O_NONBLOCK); } BSL_UIO *u[2]; bool owned[2]; for (int i = 0; i < 2; i++) { u[i] = BSL_UIO_New(tcp ? BSL_UIO_TcpMethod() : BSL_UIO_UdpMethod()); CHECK(u[i], "b05-new", "no socket object"); uint32_t r; uint8_t c = 1; CHECK(BSL_UIO_Write(u[i], &c, 1, &r) != BSL_SUCCESS, "b05-sock-nofd", "write without a descriptor"); BSL_UIO_SetFD(u[i], fd[i]); CHECK(BSL_UIO_GetFd(u[i]) == fd[i], "b05-sock-fd", "descriptor"); owned[i] = g.boolean(); BSL_UIO_SetIsUnderlyingClosedByUio(u[i], owned[i]); }
    bool learn = !tcp && g.boolean(); if (!tcp) for (int i = 0; i < 2; i++) if (!i || !learn) { bool conn = g.boolean(); if (conn) CHECK(!connect(fd[i], (sockaddr *)&a[1 - i], sizeof a[0]), "b05-udp", "connect"); CHECK(!BSL_UIO_Ctrl(u[i], conn ? BSL_UIO_UDP_SET_CONNECTED : BSL_UIO_SET_PEER_IP_ADDR, sizeof a[0], &a[1 - i]), "b05-udp-peer", "peer address refused"); }
    std::string sent[2], got[2]; std::deque<std::string> dg[2]; bool shut[2] = {false, false}, knows1 = !learn; int64_t rn[2] = {0, 0}, wn[2] = {0, 0}; int blocked = 0, moves = 0, queued[2] = {0, 0}; int ops = (int)g.range(2, 50);
    for (int o = 0; o < ops; o++) { int i = (int)g.draw(1), k = (int)g.weighted({6, 6, 1}); if (k == 0) {
            if (shut[i] || (i == 1 && !knows1) || (!tcp && queued[1 - i] >= 12)) continue; size_t n = 1 + (size_t)g.draw(tcp && g.chance(1, 4) ? 20000 : 1200); Bytes b = g.bytes(n); Exact e(b); uint32_t w = 777; int32_t ret = BSL_UIO_Write(u[i], e.p, (uint32_t)n, &w); CHECK(ret == BSL_SUCCESS && w <= n, "b05-sock-write", "write of %zu: %s, %u", n, rc(ret).c_str(), w); bool retry = flag(u[i], BSL_UIO_FLAGS_SHOULD_RETRY) && flag(u[i], BSL_UIO_FLAGS_WRITE); CHECK((w == 0) == retry, "b05-sock-retry", "write of %u bytes with retry %d", w, retry); if (w < n) blocked++; wn[i] += w;
            if (tcp) { sent[i].append((char *)e.p, w); } else if (w) { CHECK(w == n, "b05-udp-short", "%u of %zu datagram bytes sent", w, n); dg[i].push_back(str(b)); queued[1 - i]++; } moves += w > 0;
        } else if (k == 1) {
            size_t n = tcp ? 1 + (size_t)g.draw(g.chance(1, 3) ? 30000 : 300) : g.chance(1, 8) ? 1 + (size_t)g.draw(100) : 2000; Exact e(n); uint32_t r = 777; int32_t ret = BSL_UIO_Read(u[i], e.p, (uint32_t)n, &r); int p = 1 - i;
            if (tcp) { size_t left = sent[p].size() - got[p].size(); if (!left && shut[p]) { CHECK(ret == BSL_UIO_IO_EOF && r == 0, "b05-sock-eof", "read at the end of the stream: %s, %u", rc(ret).c_str(), r); continue; } CHECK(ret == BSL_SUCCESS && r <= n && (r > 0) == (left > 0), "b05-sock-read", "read with %zu under way: %s, %u", left, rc(ret).c_str(), r); CHECK(!memcmp(e.p, sent[p].data() + got[p].size(), r), "b05-sock-data", "other bytes were read"); got[p].append((char *)e.p, r); }
            else { CHECK(ret == BSL_SUCCESS, "b05-udp-read", "%s", rc(ret).c_str()); if (dg[p].empty()) CHECK(r == 0, "b05-udp-none", "%u bytes from nowhere", r); else { std::string w = dg[p].front().substr(0, n); CHECK(r == w.size() && !memcmp(e.p, w.data(), r), "b05-udp-data", "datagram differs (%u of %zu bytes)", r, w.size()); dg[p].pop_front(); queued[i]--; uint8_t ad[64]; memset(ad, 0, sizeof ad); CHECK(!BSL_UIO_Ctrl(u[i], BSL_UIO_GET_PEER_IP_ADDR, sizeof ad, ad) && !memcmp(&((sockaddr_in *)ad)->sin_port, &a[p].sin_port, 2) && ((sockaddr_in *)ad)->sin_addr.s_addr == a[p].sin_addr.s_addr, "b05-udp-from", "peer address is not the sender's"); if (i == 1) knows1 = true; } }
            bool retry = flag(u[i], BSL_UIO_FLAGS_SHOULD_RETRY) && flag(u[i], BSL_UIO_FLAGS_READ); CHECK((r == 0) == retry, "b05-sock-rretry", "read of %u bytes with retry %d", r, retry); rn[i] += r; moves += r > 0;
        } else if (tcp && g.chance(1, 3) && !shut[i]) { shutdown(fd[i], SHUT_WR); shut[i] = true; } else CHECK(!BSL_UIO_Ctrl(u[i], BSL_UIO_FLUSH, 0, nullptr), "b05-sock-flush", "flush"); }
    for (int i = 0; i < 2; i++) { nums(u[i], rn[i], wn[i]); if (g.chance(1, 4)) { CHECK(!BSL_UIO_UpRef(u[i]), "b05-upref", "upref"); BSL_UIO_Free(u[i]); CHECK(BSL_UIO_GetFd(u[i]) == fd[i] && fcntl(fd[i], F_GETFD) >= 0, "b05-upref", "the object died with one of two references"); } BSL_UIO_Free(u[i]); bool open = fcntl(fd[i], F_GETFD) >= 0; CHECK(open == !owned[i], "b05-sock-close", "descriptor %s after freeing, owned %d", open ? "open" : "closed", owned[i]); if (open) close(fd[i]); }
    if (moves >= 4) g.nontrivial(); g.label(tcp ? "stream" : "datagram"); if (blocked) g.label("blocked"); g.key(sfmt("%d/%lld/%lld/%d", tcp, (long long)rn[0], (long long)wn[0], blocked));
}
