// C20: every call to the random source of every randomised operation is made to fail
#include "ops.hpp"
#include "bsl_err.h"
using namespace ops;
const char *pbt::PROPERTY_RULE =
    "An operation (key generation, signing, encryption, encapsulation, key agreement; 31 algorithm/parameter rows) is run once to count its random calls, then again with the k-th call (or every call from "
    "the k-th) failing, k drawn over the whole count. Required: an error, no crash, no leaked allocation, no usable key after a failed generation; afterwards, with the source back, the same object succeeds and its result verifies. "
    "Non-trivial: the operation makes at least one random call and the injected failure was reached.";
std::vector<std::string> pbt::PROPERTY_ASSUME = {"the random source is the one registered through CRYPT_EAL_SetRandCallBack(Ex)"};
void pbt::setup() { useTrackedMem(); CRYPT_EAL_Init(CRYPT_EAL_INIT_ALL); useDetRand(); }
static void oneOp(G &g, const Row &r, int op)
{
    seedRand(g); bool prov = g.boolean(), from = g.boolean(); Bytes msg = g.bytes(op == CRYPT || (r.caps & CRYPT) ? g.range(1, r.special == S_RSA_OAEP ? 60 : 40) : g.len(0, 80)); if (r.id == CRYPT_PKEY_PAILLIER && msg[0] == 0) msg[0] = 1;
    std::string n = sfmt("%s-%s", r.name, opName(op)); g.label(n); uint64_t sd = g.draw(UINT64_MAX);
    if (op != GEN) { cached(r, 0); if (op == EXCH) cached(r, 1); }
    caseRandSeed(sd); randCtl() = RandCtl(); long cnt;
    { Inst t(r, op, prov, msg); CHECK(t.ok(), n + "-setup", "context set-up failed"); randCtl().calls = 0; int32_t e = t.run(); cnt = randCtl().calls; CHECK(!e, n + "-baseline", "operation failed without injected failure: %s", rc(e).c_str()); std::string s = t.check(); CHECK(s.empty(), n + "-baseline-check", "%s", s.c_str()); }
    if (!cnt) { g.label(n + ":no-random"); return; }
    long k = (long)(g.chance(1, 3) ? (g.boolean() ? 0 : (uint64_t)cnt - 1) : g.draw((uint64_t)cnt - 1)); g.nontrivial(); g.key(sfmt("%s %ld %d", n.c_str(), k, from));
    g.note("%s: random call %ld of %ld fails%s", n.c_str(), k, cnt, from ? " (and all later ones)" : "");
    BSL_ERR_RemoveErrorStack(true); long live = memCtl().live;
    {
        Inst t(r, op, prov, msg); CHECK(t.ok(), n + "-setup", "context set-up failed"); caseRandSeed(sd); randCtl() = RandCtl(); randCtl().failAt = k; randCtl().failFrom = from;
        int32_t e = t.run(); bool hit = randCtl().calls > k; randCtl() = RandCtl();
        CHECK(hit, n + "-unreached", "the failing call %ld was never made", k);
        CHECK(e, n + "-success", "operation succeeded although random call %ld of %ld failed%s", k, cnt, from ? " (and all later ones)" : "");
        if (op == GEN) for (int o : {SIGN, KEM, EXCH, CRYPT}) if (r.caps & o) { Inst u(r, o, prov, msg); u.a.reset(again(t.a, r)); if (!u.a.p) break; if (scheme(u.a, r)) break; CHECK(u.run(), n + "-keyed", "after a failed generation the context can %s", opName(o)); }
        if (g.chance(2, 3)) { e = t.run(); CHECK(!e, n + "-recover", "the same object fails after the random source recovered: %s", rc(e).c_str()); std::string s = t.check(); CHECK(s.empty(), n + "-recover-check", "after recovery: %s", s.c_str()); }
    }
    BSL_ERR_RemoveErrorStack(true); CHECK(memCtl().live == live, n + "-leak", "%ld allocations leaked after random call %ld of %ld failed", memCtl().live - live, k, cnt);
}
PBT_TEST(pkey, 2600, 60000, 0, 300)
{
    const Row &r = pickRow(g, 30); if (!thorough() && r.id == CRYPT_PKEY_MCELIECE) discard(); oneOp(g, r, pickOp(g, r));
}
PBT_TEST(slow, 16, 400, 0, 300) { for (;;) { const Row &r = g.pick(rows()); if ((r.caps & SLOW) || r.para == -2) { oneOp(g, r, pickOp(g, r)); return; } } }
