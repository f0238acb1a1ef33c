From 6ec59e58a29057e62e32e76e1e596acbeb23a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH] fix: ts_sign looks at the parameter set only after checking
 the context's state

A zero-initialised context has no parameter set; ts_sign dereferenced the
null pointer before its own guard could reject the context.
---
 tiny_sphincs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..afa07f0 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,7 +441,6 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
@@ -449,6 +448,7 @@ unsigned ts_sign( unsigned char *dest, unsigned m,
 	return 0;
     }
 
+    unsigned n = ctx->ps->n;
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
 	/* the caller */
-- 
2.43.0

