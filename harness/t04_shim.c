/* access to the handshake message buffer of an endpoint under our control (the attacker) */
#include "hitls_build.h"
#include "tls.h"
#include "hs_ctx.h"
#include "bsl_sal.h"
int t04Get(TLS_Ctx *c, uint8_t **b, uint32_t *n, uint32_t *off) { if (!c || !c->hsCtx || !c->hsCtx->msgBuf) return 0; *b = c->hsCtx->msgBuf; *n = c->hsCtx->msgLen; *off = c->hsCtx->msgOffset; return 1; }
void t04Set(TLS_Ctx *c, const uint8_t *b, uint32_t n)
{
    HS_Ctx *h = c->hsCtx;
    if (n > h->bufferLen) { uint8_t *p = BSL_SAL_Malloc(n); BSL_SAL_Free(h->msgBuf); h->msgBuf = p; h->bufferLen = n; }
    memcpy(h->msgBuf, b, n); h->msgLen = n; h->msgOffset = 0;
}
int t04IsClient(TLS_Ctx *c) { return c->isClient; }
