From 6aa1bdbaf494ae02ddf9c3904fec5183d47b292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 01/92] fix: each iteration of a for-generate needs its own
 copy of subprograms

A subprogram declared inside a for-generate statement, or in a process in
one, that does not refer to the loop parameter was shared by all
iterations and bound to the context of the first, so calling it from
another iteration crashed when it used any outer declaration.
---
 src/elab.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/elab.c b/src/elab.c
index 577cee6..d393b15 100644
--- a/src/elab.c
+++ b/src/elab.c
@@ -1733,10 +1733,32 @@ static inline tree_t elab_eval_expr(tree_t t, const elab_ctx_t *ctx)
    return eval_must_fold(ctx->jit, t, ctx->registry, ctx->lowered, context);
 }
 
-static bool elab_copy_genvar_cb(tree_t t, void *ctx)
+static bool elab_copy_generate_cb(tree_t t, void *__ctx)
 {
-   tree_t genvar = ctx;
-   return tree_kind(t) == T_REF && tree_ref(t) == genvar;
+   const elab_ctx_t *ctx = __ctx;
+
+   switch (tree_kind(t)) {
+   case T_REF:
+      // The loop parameter has a different value in each iteration
+      return tree_has_ref(t) && tree_ref(t) == tree_generic(ctx->out, 0);
+   case T_FUNC_DECL:
+   case T_PROC_DECL:
+   case T_FUNC_BODY:
+   case T_PROC_BODY:
+   case T_FUNC_INST:
+   case T_PROC_INST:
+      // Subprograms declared inside the generate statement may depend on
+      // other objects declared there so each iteration needs its own copy
+      if (tree_flags(t) & TREE_F_PREDEFINED)
+         return false;
+      else {
+         ident_t name = tree_ident2(t), prefix = ctx->prefix[0];
+         return ident_starts_with(name, prefix)
+            && istr(name)[ident_len(prefix)] == '.';
+      }
+   default:
+      return false;
+   }
 }
 
 static void elab_generate_range(tree_t r, int64_t *low, int64_t *high,
@@ -1828,8 +1850,8 @@ static void elab_for_generate(tree_t t, const elab_ctx_t *ctx)
       new_ctx.prefix[0] = ident_prefix(ctx->dotted, base, '.');
 
       tree_t roots[] = { t };
-      copy_with_renaming(roots, 1, elab_copy_genvar_cb, NULL, g, ndotted,
-                         new_ctx.prefix, ARRAY_LEN(new_ctx.prefix));
+      copy_with_renaming(roots, 1, elab_copy_generate_cb, NULL, &new_ctx,
+                         ndotted, new_ctx.prefix, ARRAY_LEN(new_ctx.prefix));
 
       tree_t copy = roots[0];
 
-- 
2.43.0


From c21d8c200942dbf4f44822d097df9c0d0b523d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 02/92] fix: ignore padding when comparing transaction values

Values shorter than eight bytes are loaded together with their neighbours
so the comparison during pulse rejection depended on unrelated signals.
---
 src/rt/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..9aa0287 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1153,7 +1153,7 @@ static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
    if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
+      return memcmp(a.bytes, b.bytes, valuesz) == 0;   // Padding is undefined
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From 3716f0c31a9e2ab9ddddc470586227533817fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 03/92] fix: pulse rejection must only keep immediately
 preceding transactions

LRM 10.5.2.2: a transaction inside the pulse rejection interval is only
preserved if it immediately precedes a marked transaction with the same
value, not whenever its value happens to equal the new value.
---
 src/rt/model.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9aa0287..dca2425 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2565,24 +2565,30 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       uint64_t when, uint64_t reject)
 {
    waveform_t *last = &(source->u.driver.waveforms);
+   waveform_t *keep = last;    // Last transaction before rejection interval
    waveform_t *it   = last->next;
    while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
       assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
-      }
-      else {
+      if (it->when < when - reject)
+         keep = last = it;
+      else if (cmp_values(nexus, it->value, w->value))
          last = it;
-         it = it->next;
+      else {
+         // A transaction within the pulse rejection interval is only
+         // preserved if it belongs to a run of transactions with the same
+         // value immediately preceding the new transaction, so delete
+         // this transaction and any before it in the interval
+         waveform_t *next = it->next;
+         for (waveform_t *p = keep->next, *tmp; p != next; p = tmp) {
+            tmp = p->next;
+            free_value(nexus, p->value);
+            free_waveform(m, p);
+         }
+         keep->next = next;
+         last = keep;
       }
+
+      it = last->next;
    }
    last->next = w;
 
-- 
2.43.0


From 4babd2ec218826023d01fc8d37afa906fd476373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 04/92] fix: null transactions were misordered in driver
 waveforms

The time of a null transaction was stored negated, so an assignment
scheduled after a pending null transaction deleted it, inertial delay never
rejected one, a disconnection at time zero was treated as a value, and a
driver that is split while disconnected became connected again.
---
 src/rt/model.c   | 31 ++++++++++++++++---------------
 src/rt/structs.h |  3 ++-
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index dca2425..92aae10 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1259,6 +1259,7 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
 
          waveform_t *w0 = &(src->u.driver.waveforms);
          w0->when  = TIME_HIGH;
+         w0->null  = 0;
          w0->next  = NULL;
       }
       break;
@@ -1510,10 +1511,13 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          waveform_t *w_new = &(new->u.driver.waveforms);
          waveform_t *w_old = &(old->u.driver.waveforms);
          w_new->when = w_old->when;
+         w_new->null = w_old->null;
          w_new->next = NULL;
 
          split_value(nexus, &w_new->value, &w_old->value, offset);
 
+         new->disconnected = old->disconnected;
+
          // Pending fast driver update
          if ((nexus->flags & NET_F_FAST_DRIVER) && old->fastqueued) {
             rt_nexus_t *n0 = &(nexus->signal->nexus);
@@ -1528,6 +1532,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          for (w_old = w_old->next; w_old; w_old = w_old->next) {
             w_new = (w_new->next = alloc_waveform(m));
             w_new->when = w_old->when;
+            w_new->null = w_old->null;
             w_new->next = NULL;
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
@@ -2571,7 +2576,8 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
       assert(it->when >= m->now);
       if (it->when < when - reject)
          keep = last = it;
-      else if (cmp_values(nexus, it->value, w->value))
+      else if (it->null == w->null
+               && (w->null || cmp_values(nexus, it->value, w->value)))
          last = it;
       else {
          // A transaction within the pulse rejection interval is only
@@ -2655,6 +2661,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          // A fast update to this driver is already scheduled
          waveform_t *w0 = alloc_waveform(m);
          w0->when  = m->now;
+         w0->null  = 0;
          w0->next  = NULL;
          w0->value = alloc_value(m, n);
 
@@ -2669,6 +2676,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
+      w->null  = 0;
       w->next  = NULL;
       w->value = alloc_value(m, n);
 
@@ -2685,17 +2693,16 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    rt_source_t *d = find_driver(nexus, proc);
    assert(d != NULL);
 
-   const uint64_t when = m->now + after;
-
    // Need update_driver to clear disconnected flag
    nexus->flags &= ~NET_F_FAST_DRIVER;
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
-   w->next = NULL;
-   w->value.qword = 0;
+   w->when  = m->now + after;
+   w->null  = 1;
+   w->next  = NULL;
+   w->value = alloc_value(m, nexus);
 
-   if (!insert_transaction(m, nexus, d, w, when, reject))
+   if (!insert_transaction(m, nexus, d, w, w->when, reject))
       deltaq_insert_driver(m, after, d);
 }
 
@@ -3018,14 +3025,7 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
       free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
-      source->disconnected = 0;
-      update_driving(m, n, false);
-   }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
-      // Disconnect source due to null transaction
-      *w_now = *w_next;
-      free_waveform(m, w_next);
-      source->disconnected = 1;
+      source->disconnected = w_now->null;
       update_driving(m, n, false);
    }
 }
@@ -3145,6 +3145,7 @@ static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp)
          // TODO: this should happen inside the callback
          waveform_t *w = alloc_waveform(m);
          w->when  = m->now + imp->delay;
+         w->null  = 0;
          w->next  = NULL;
          w->value = alloc_value(m, n0);
 
diff --git a/src/rt/structs.h b/src/rt/structs.h
index e5f28ab..160a7ee 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -98,7 +98,8 @@ typedef union {
 STATIC_ASSERT(sizeof(rt_value_t) == 8);
 
 struct waveform {
-   uint64_t    when;
+   uint64_t    when : 63;
+   uint64_t    null : 1;    // Null transaction: value is not valid
    waveform_t *next;
    rt_value_t  value;
 };
-- 
2.43.0


From eb7ec72f46fa47049eff87a777767e7d65b69dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 05/92] fix: trapping multiplication folded as if it were a
 subtraction

mir_build_trap_mul called the helper for subtraction so the product of a
value with itself was folded to zero.
---
 src/mir/mir-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..3b47fed 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1160,7 +1160,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From 87d1529f032ebdcd3b4375460c65f67921aa78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 06/92] fix: subtraction from a constant zero returned the
 subtrahend unchanged

---
 src/mir/mir-node.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 3b47fed..7cab9ba 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1034,9 +1034,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
       return mir_const(mu, type, cval);
@@ -1048,9 +1046,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
-- 
2.43.0


From a34eeda29638f4de23f30a6972abac8a8e5056c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 07/92] fix: compiled exponentiation forgot an earlier overflow
 of the base

---
 src/jit/jit-llvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..9f0bb49 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -3257,7 +3257,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0


From 850e9e33c68c5e5e0eb6d68a3a7917edf9170562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 08/92] fix: wrong value range for remainder with a possibly
 negative divisor

---
 src/mir/mir-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mir/mir-type.c b/src/mir/mir-type.c
index 931d6e7..1558de0 100644
--- a/src/mir/mir-type.c
+++ b/src/mir/mir-type.c
@@ -1100,7 +1100,8 @@ mir_stamp_t mir_stamp_rem(mir_unit_t *mu, mir_stamp_t left, mir_stamp_t right)
 
    switch (lsd->kind) {
    case MIR_STAMP_INT:
-      if (lsd->u.intg.low >= 0 && rsd->u.intg.high > 0)
+      if (lsd->u.intg.low >= 0 && rsd->u.intg.low >= 0
+          && rsd->u.intg.high > 0)
          return mir_int_stamp(mu, 0, rsd->u.intg.high - 1);
       else
          return MIR_NULL_STAMP;
-- 
2.43.0


From fe889a0b71c8870bb13a6e875034b823c4f01230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 09/92] fix: overflow of division, negation and physical
 operations was not reported

Division of the lowest value by minus one, negation of unsigned types and
operations on physical types which overflow are errors; 64-bit mod, rem
and / by minus one and a zero physical divisor killed the simulator.
---
 src/jit/jit-exits.c |  7 ++++
 src/jit/jit-irgen.c | 22 +++++++----
 src/jit/jit-optim.c |  3 +-
 src/lower.c         | 91 +++++++++++++++++++++++++++++++++++----------
 src/mir/mir-node.c  |  2 +-
 src/vcode.c         | 11 ++++--
 6 files changed, 102 insertions(+), 34 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index ce6c13a..1706030 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -206,6 +206,8 @@ void x_overflow(int64_t lhs, int64_t rhs, tree_t where)
          tb_printf(tb, "%"PRIi64" + %"PRIi64, lhs, rhs);
          break;
       case S_MUL:
+      case S_MUL_PI:
+      case S_MUL_IP:
          tb_printf(tb, "%"PRIi64" * %"PRIi64, lhs, rhs);
          break;
       case S_SUB:
@@ -214,6 +216,11 @@ void x_overflow(int64_t lhs, int64_t rhs, tree_t where)
       case S_NEGATE:
          tb_printf(tb, "-(%"PRIi64")", lhs);
          break;
+      case S_DIV:
+      case S_DIV_PI:
+      case S_DIV_PP:
+         tb_printf(tb, "%"PRIi64" / -1", lhs);
+         break;
       case S_EXP:
          tb_printf(tb, "%"PRIi64" ** %"PRIi64, lhs, rhs);
          break;
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index 5f91d0f..d39c903 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -1634,17 +1634,23 @@ static void irgen_op_trap_neg(jit_irgen_t *g, mir_value_t n)
    jit_value_t arg0 = irgen_get_arg(g, n, 0);
    jit_value_t locus = irgen_get_arg(g, n, 1);
 
-   int64_t cmp;
-   switch (irgen_jit_size(g, mir_get_type(g->mu, n))) {
-   case JIT_SZ_8: cmp = INT8_MIN; break;
-   case JIT_SZ_16: cmp = INT16_MIN; break;
-   case JIT_SZ_32: cmp = INT32_MIN; break;
-   case JIT_SZ_64: cmp = INT64_MIN; break;
-   default: cmp = 0;
+   mir_type_t type = mir_get_type(g->mu, n);
+   jit_cc_t cc = JIT_CC_GT;
+   int64_t cmp = 0;
+   if (irgen_repr_signed(mir_get_repr(g->mu, type))) {
+      switch (irgen_jit_size(g, type)) {
+      case JIT_SZ_8: cmp = INT8_MIN; break;
+      case JIT_SZ_16: cmp = INT16_MIN; break;
+      case JIT_SZ_32: cmp = INT32_MIN; break;
+      case JIT_SZ_64: cmp = INT64_MIN; break;
+      default: break;
+      }
    }
+   else
+      cc = JIT_CC_EQ;   // Only zero can be negated
 
    irgen_label_t *cont = irgen_alloc_label(g);
-   j_cmp(g, JIT_CC_GT, arg0, jit_value_from_int64(cmp));
+   j_cmp(g, cc, arg0, jit_value_from_int64(cmp));
    j_jump(g, JIT_CC_T, cont);
 
    j_send(g, 0, arg0);
diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..0c3e5c8 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -550,8 +550,7 @@ static void jit_lvn_div(jit_ir_t *ir, lvn_state_t *state)
       lvn_kill_flags(state);
 
    int64_t lhs, rhs;
-   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0) {
-      // XXX: potential bug here with INT_MIN/-1
+   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0 && rhs != -1) {
 #define FOLD_DIV(type) do {                                             \
          type result = (type)lhs / (type)rhs;                           \
          lvn_convert_mov(ir, state, LVN_CONST(result));                 \
diff --git a/src/lower.c b/src/lower.c
index 9b35f29..d4dd6c4 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -1621,6 +1621,54 @@ static vcode_reg_t lower_name_attr(lower_unit_t *lu, tree_t decl,
    return emit_wrap(mem_reg, &dim0, 1);
 }
 
+static bool lower_may_be_lowest(vcode_reg_t reg)
+{
+   // True if the value may be the lowest value of a signed representation
+   vtype_repr_t repr = vtype_repr(vcode_reg_type(reg));
+   return vtype_repr_signed(repr)
+      && vtype_low(vcode_reg_bounds(reg))
+         <= INT64_MIN >> (64 - vtype_repr_bits(repr));
+}
+
+static vcode_reg_t lower_div(tree_t fcall, vcode_reg_t r0, vcode_reg_t r1)
+{
+   // The quotient of the lowest value and minus one may not be
+   // representable: division by minus one is the same as negation
+   vcode_type_t vtype = vcode_reg_type(r0);
+
+   if (vtype_kind(vtype) == VCODE_TYPE_REAL
+       || !lower_may_be_lowest(r0)
+       || vtype_low(vcode_reg_bounds(r1)) > -1
+       || vtype_high(vcode_reg_bounds(r1)) < -1)
+      return emit_div(r0, r1);
+
+   vcode_reg_t locus = lower_debug_locus(fcall);
+   vcode_reg_t minus1_reg = emit_const(vtype, -1);
+   vcode_reg_t test_reg = emit_cmp(VCODE_CMP_EQ, r1, minus1_reg);
+   vcode_reg_t value_reg = emit_select(test_reg, r0, emit_const(vtype, 0));
+   vcode_reg_t neg_reg = emit_trap_neg(value_reg, locus);
+   vcode_reg_t denom_reg = emit_select(test_reg, emit_const(vtype, 1), r1);
+
+   return emit_select(test_reg, neg_reg, emit_div(r0, denom_reg));
+}
+
+static vcode_reg_t lower_mod_rem(subprogram_kind_t kind, vcode_reg_t r0,
+                                 vcode_reg_t r1)
+{
+   // Avoid the overflow in the division of the lowest value by minus one
+   vcode_type_t vtype = vcode_reg_type(r0);
+
+   if (vtype_low(vcode_reg_bounds(r0)) == INT64_MIN
+       && vtype_low(vcode_reg_bounds(r1)) <= -1
+       && vtype_high(vcode_reg_bounds(r1)) >= -1) {
+      vcode_reg_t minus1_reg = emit_const(vtype, -1);
+      vcode_reg_t test_reg = emit_cmp(VCODE_CMP_EQ, r1, minus1_reg);
+      r1 = emit_select(test_reg, emit_const(vtype, 1), r1);
+   }
+
+   return kind == S_MOD ? emit_mod(r0, r1) : emit_rem(r0, r1);
+}
+
 static vcode_reg_t lower_arith(tree_t fcall, subprogram_kind_t kind,
                                vcode_reg_t r0, vcode_reg_t r1)
 {
@@ -1628,7 +1676,7 @@ static vcode_reg_t lower_arith(tree_t fcall, subprogram_kind_t kind,
 
    switch (kind) {
    case S_ADD:
-      if (type_is_integer(type))
+      if (!type_is_real(type))
          return emit_trap_add(r0, r1, lower_debug_locus(fcall));
       else
          return emit_add(r0, r1);
@@ -1638,13 +1686,13 @@ static vcode_reg_t lower_arith(tree_t fcall, subprogram_kind_t kind,
       else
          return emit_mul(r0, r1);
    case S_SUB:
-      if (type_is_integer(type))
+      if (!type_is_real(type))
          return emit_trap_sub(r0, r1, lower_debug_locus(fcall));
       else
          return emit_sub(r0, r1);
-   case S_MOD: return emit_mod(r0, r1);
-   case S_REM: return emit_rem(r0, r1);
-   case S_DIV: return emit_div(r0, r1);
+   case S_MOD:
+   case S_REM: return lower_mod_rem(kind, r0, r1);
+   case S_DIV: return lower_div(fcall, r0, r1);
    case S_EXP:
       if (type_is_integer(type))
          return emit_trap_exp(r0, r1, lower_debug_locus(fcall));
@@ -2127,7 +2175,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
    case S_MOD:
    case S_REM:
    case S_DIV:
-      if (type_is_integer(r1_type)) {
+      if (!type_is_real(r1_type)) {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
       }
@@ -2150,7 +2198,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
       }
    case S_NEGATE:
       {
-         if (type_is_integer(r0_type)) {
+         if (!type_is_real(r0_type)) {
             vcode_reg_t locus = lower_debug_locus(fcall);
             return emit_trap_neg(r0, locus);
          }
@@ -2231,16 +2279,17 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
                           emit_mul(emit_cast(vreal, vreal, r0), r1));
       }
    case S_MUL_IP:
-      {
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r0);
-         return emit_mul(cast_reg, r1);
-      }
    case S_MUL_PI:
       {
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r1);
-         return emit_mul(r0, cast_reg);
+         type_t type = tree_type(fcall);
+         vcode_type_t rtype = lower_type(type);
+         vcode_type_t vwide = vtype_int(INT64_MIN, INT64_MAX);
+         vcode_reg_t locus = lower_debug_locus(fcall);
+         vcode_reg_t left_reg = emit_cast(vwide, vcode_reg_bounds(r0), r0);
+         vcode_reg_t right_reg = emit_cast(vwide, vcode_reg_bounds(r1), r1);
+         vcode_reg_t mul_reg = emit_trap_mul(left_reg, right_reg, locus);
+         lower_check_scalar_bounds(lu, mul_reg, type, fcall, NULL);
+         return emit_cast(rtype, rtype, mul_reg);
       }
    case S_DIV_PR:
       {
@@ -2262,7 +2311,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
       {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
-         vcode_reg_t div_reg = emit_div(r0, r1);
+         vcode_reg_t div_reg = lower_div(fcall, r0, r1);
          vcode_type_t rtype = lower_type(tree_type(fcall));
          return emit_cast(rtype, rtype, div_reg);
       }
@@ -2270,9 +2319,13 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
       {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r1);
-         return emit_div(r0, cast_reg);
+         type_t type = tree_type(fcall);
+         vcode_type_t rtype = lower_type(type);
+         vcode_type_t vwide = vtype_int(INT64_MIN, INT64_MAX);
+         vcode_reg_t left_reg = emit_cast(vwide, vcode_reg_bounds(r0), r0);
+         vcode_reg_t right_reg = emit_cast(vwide, vcode_reg_bounds(r1), r1);
+         vcode_reg_t div_reg = lower_div(fcall, left_reg, right_reg);
+         return emit_cast(rtype, rtype, div_reg);
       }
    default:
       fatal_at(tree_loc(fcall), "cannot lower builtin %d", builtin);
diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7cab9ba..7b7a3e2 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1166,7 +1166,7 @@ mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && rconst && rval != 0)
+   if (lconst && rconst && rval != 0 && !(lval == INT64_MIN && rval == -1))
       return mir_const(mu, type, lval / rval);
    else if (rconst && rval == 1)
       return left;
diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..c4c05ab 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3952,7 +3952,8 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const && rconst != 0)
+   if (l_is_const && r_is_const && rconst != 0
+       && !(lconst == INT64_MIN && rconst == -1))
       return emit_const(vcode_reg_type(lhs), lconst / rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
@@ -3961,7 +3962,7 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
 
    vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
 
-   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
+   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst > 0) {
       reg_t *rr = vcode_reg_data(reg);
       rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
    }
@@ -4107,7 +4108,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
-      return emit_neg(rhs);
+      return op == VCODE_OP_TRAP_SUB
+         ? emit_trap_neg(rhs, locus) : emit_neg(rhs);
 
    vcode_type_t vbounds = VCODE_INVALID_TYPE;
    if (vcode_reg_kind(lhs) != VCODE_TYPE_REAL) {
@@ -4404,7 +4406,8 @@ vcode_reg_t emit_trap_neg(vcode_reg_t lhs, vcode_reg_t locus)
    int64_t lconst;
    if (vcode_reg_const(lhs, &lconst) && lconst >= 0)
       return emit_const(vcode_reg_type(lhs), -lconst);
-   else if (vcode_type_data(vcode_reg_data(lhs)->bounds)->low >= 0)
+   else if (vtype_repr_low(vtype_repr(vcode_reg_type(lhs))) < 0
+            && vcode_type_data(vcode_reg_data(lhs)->bounds)->low >= 0)
       return emit_neg(lhs);   // Cannot overflow
 
    op_t *op = vcode_add_op(VCODE_OP_TRAP_NEG);
-- 
2.43.0


From 92b0a76ff3d6b6f77c1d4a18b2817837c59c8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 10/92] fix: exponent was truncated to the width of the left
 operand

---
 src/lower.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index d4dd6c4..9fe3140 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -2191,6 +2191,17 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
             emit_exponent_check(r1, locus);
          }
 
+         vcode_type_t vtype = lower_type(r0_type);
+         if (!type_is_real(r0_type) && vtype_repr_bits(vtype_repr(vtype)) < 32) {
+            // The exponent may not be representable in the left operand
+            // type: beyond 64 only its parity can affect the result
+            vcode_type_t vexp = vcode_reg_type(r1);
+            vcode_reg_t max_reg = emit_const(vexp, 64);
+            vcode_reg_t rem_reg = emit_rem(r1, emit_const(vexp, 2));
+            vcode_reg_t big_reg = emit_cmp(VCODE_CMP_GT, r1, max_reg);
+            r1 = emit_select(big_reg, emit_add(max_reg, rem_reg), r1);
+         }
+
          if (!type_eq(r0_type, r1_type))
             r1 = emit_cast(lower_type(r0_type), lower_bounds(r0_type), r1);
 
-- 
2.43.0


From b19884c7f83ead717d5051e8fc0b6d971e374449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 11/92] fix: update of a concurrent hash entry could be lost
 during a resize

---
 src/hash.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 5af46e5..5ff51bf 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -583,6 +583,12 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
             continue;
          case INUSE_MARKER:
             {
+               // Must CAS to busy here to avoid losing a concurrent
+               // update to this slot while it is being copied
+               void *busy = tag_pointer(key, BUSY_MARKER);
+               if (!atomic_cas(&from->slots[i].tagged_key, tagged_key, busy))
+                  continue;
+
                for (int j = hash_slot(to->size, key);;
                     j = (j + 1) & (to->size - 1)) {
                   void *exist = load_acquire(&(to->slots[j].tagged_key));
@@ -594,19 +600,23 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
                   else
                      assert(exist != tagged_key);
                }
+
+               void *moved = tag_pointer(key, MOVED_MARKER);
+               store_release(&from->slots[i].tagged_key, moved);
             }
             break;
          case FREE_MARKER:
+            {
+               void *moved = tag_pointer(NULL, MOVED_MARKER);
+               if (!atomic_cas(&from->slots[i].tagged_key, tagged_key, moved))
+                  continue;   // Raced to move free slot
+            }
             break;
          default:
             should_not_reach_here();
          }
 
-         void *moved = tag_pointer(key, MOVED_MARKER);
-         if (atomic_cas(&(from->slots[i].tagged_key), tagged_key, moved))
-            break;
-         else
-            assert(marker == FREE_MARKER);   // Raced to move free slot
+         break;
       }
    }
 }
-- 
2.43.0


From 0f2fb03819d59880d245940d6771744865d1b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 12/92] fix: concurrent hash compare-and-swap did not count new
 members

---
 src/hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 5ff51bf..d5e875e 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -736,6 +736,8 @@ static bool chash_try_cas(chash_t *h, const void *key, void *cmp, void **value)
                   tab->slots[i].value = new;
                void *inuse = tag_pointer(key, INUSE_MARKER);
                store_release(&tab->slots[i].tagged_key, inuse);
+               if (marker == FREE_MARKER)
+                  relaxed_add(&h->members, 1);
                return true;
             }
             else {
-- 
2.43.0


From aeb65c11181c3db6f760ccb0cd979d96ac820323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 13/92] fix: data race between reading and updating a
 concurrent hash entry

---
 src/hash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index d5e875e..ffcb637 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -682,7 +682,7 @@ static bool chash_try_put(chash_t *h, const void *key, void *value)
             // concurrent move
             void *busy = tag_pointer(key, BUSY_MARKER);
             if (atomic_cas(&tab->slots[i].tagged_key, tagged_key, busy)) {
-               tab->slots[i].value = value;
+               store_release(&tab->slots[i].value, value);
                store_release(&tab->slots[i].tagged_key, tagged_key);
                return true;
             }
@@ -733,7 +733,7 @@ static bool chash_try_cas(chash_t *h, const void *key, void *cmp, void **value)
             if (atomic_cas(&tab->slots[i].tagged_key, tagged_key, busy)) {
                void *new = *value;
                if ((*value = tab->slots[i].value) == cmp)
-                  tab->slots[i].value = new;
+                  store_release(&tab->slots[i].value, new);
                void *inuse = tag_pointer(key, INUSE_MARKER);
                store_release(&tab->slots[i].tagged_key, inuse);
                if (marker == FREE_MARKER)
@@ -776,7 +776,7 @@ static bool chash_try_get(chash_t *h, const void *key, void **value)
          return true;
       case INUSE_MARKER:
          if (untag_pointer(tagged_key, void) == key) {
-            *value = tab->slots[i].value;
+            *value = load_acquire(&tab->slots[i].value);
             return true;
          }
          else
-- 
2.43.0


From a4dee47fb3c74c6b9664740ed303f3bc0c594716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 14/92] fix: replacing a value in a generic hash inserted the
 key again

---
 src/hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index ffcb637..7fe3299 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -895,8 +895,10 @@ void ghash_put(ghash_t *h, const void *key, void *value)
          h->members++;
          break;
       }
-      else if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key))
+      else if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key)) {
          h->values[slot] = value;
+         break;
+      }
    }
 }
 
-- 
2.43.0


From 606290d3feea07feab8452782d58e5c68c549c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 15/92] fix: work queue scan visited only the tasks of the
 calling thread

---
 src/thread.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread.c b/src/thread.c
index d21350f..497fcae 100644
--- a/src/thread.c
+++ b/src/thread.c
@@ -997,10 +997,14 @@ void workq_do(workq_t *wq, task_fn_t fn, void *arg)
 
 void workq_scan(workq_t *wq, scan_fn_t fn, void *arg)
 {
+   const int epoch = atomic_load(&wq->epoch);
    const int maxthread = relaxed_load(&wq->maxthread);
    for (int i = 0; i <= maxthread; i++) {
-      entryq_t *eq = &(wq->entryqs[my_thread->id]);
+      entryq_t *eq = &(wq->entryqs[i]);
       const entryq_ptr_t wptr = { .bits = load_acquire(&eq->wptr.bits) };
+      if (wptr.epoch != epoch)
+         continue;
+
       for (int j = 0; j < wptr.count; j++)
          (*fn)(wq->context, eq->tasks[j].arg, arg);
    }
-- 
2.43.0


From 781787f3b967d6538299320ce180d52821208933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 16/92] fix: composite resolution function must see every nexus
 of a sub-signal

---
 src/rt/model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 92aae10..27f3a20 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1727,14 +1727,15 @@ static void copy_sub_signal_sources(rt_scope_t *scope, void *buf, int stride)
    for (int i = 0; i < scope->signals.count; i++) {
       rt_signal_t *s = scope->signals.items[i];
       rt_nexus_t *n = &(s->nexus);
-      for (unsigned i = 0; i < s->n_nexus; i++) {
+      for (unsigned i = 0; i < s->n_nexus; i++, n = n->chain) {
          unsigned o = 0;
          for (rt_source_t *src = &(n->sources); src; src = src->chain_input) {
             const void *data = source_value(n, src);
             if (data == NULL)
                continue;
 
-            memcpy(buf + s->offset + (o++ * stride), data, n->size * n->width);
+            memcpy(buf + s->offset + n->offset + (o++ * stride), data,
+                   n->size * n->width);
          }
       }
    }
-- 
2.43.0


From 0921f3ff4a1887cb7e36198ac1d93fd20793656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 17/92] fix: keep outputs and inputs of a port conversion
 consistent when a nexus is split

---
 src/rt/model.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 27f3a20..a64077c 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1488,8 +1488,16 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
       {
          new->u.port.input = old->u.port.input;
 
-         if (old->u.port.conv_func != NULL)
+         if (old->u.port.conv_func != NULL) {
             new->u.port.conv_func = old->u.port.conv_func;
+            split_value(nexus, &(new->u.port.conv_result),
+                        &(old->u.port.conv_result), offset);
+
+            // The list of outputs is shared by all the inputs of the
+            // conversion
+            new->chain_output = old->chain_output;
+            old->chain_output = new;
+         }
          else {
             if (old->u.port.input->width == offset)
                new->u.port.input = old->u.port.input->chain;  // Cycle breaking
@@ -1606,12 +1614,20 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          clone_source(m, new, it, offset);
    }
 
+   rt_source_t *conv_tail = NULL;
    for (rt_source_t *old_o = old->outputs; old_o; old_o = old_o->chain_output) {
       assert(old_o->tag == SOURCE_PORT || old_o->tag == SOURCE_IMPLICIT);
 
       if (old_o->tag == SOURCE_PORT && old_o->u.port.conv_func != NULL) {
-         new->outputs = old_o;
-         add_conversion_input(m, old_o->u.port.conv_func, new);
+         // Conversions are always at the end of the list and this part
+         // is shared between all the inputs
+         if (conv_tail == NULL)
+            conv_tail = old_o;
+
+         rt_conv_func_t *cf = old_o->u.port.conv_func;
+         if (find_conversion_input(cf, old) != NULL
+             && find_conversion_input(cf, new) == NULL)
+            add_conversion_input(m, cf, new);
       }
       else {
          rt_nexus_t *out_n;
@@ -1637,6 +1653,12 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       }
    }
 
+   if (conv_tail != NULL) {
+      rt_source_t **p = &(new->outputs);
+      for (; *p != NULL; p = &((*p)->chain_output));
+      *p = conv_tail;
+   }
+
    if (signal->index == NULL && signal->n_nexus >= NEXUS_INDEX_MIN)
       build_index(signal);
    else if (signal->index != NULL)
-- 
2.43.0


From 1526f7ba98ddcd9b92211405f6453eaca732a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 18/92] fix: port conversion must not discard live allocations
 of its caller

---
 src/rt/model.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index a64077c..809eaf2 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1782,7 +1782,9 @@ static void convert_driving(rt_conv_func_t *cf)
    TRACE("call driving conversion function %s",
          istr(jit_get_name(m->jit, cf->driving.handle)));
 
+   // The caller may have live allocations in the TLAB
    model_thread_t *thread = model_thread(m);
+   const unsigned mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->driving.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1790,7 +1792,7 @@ static void convert_driving(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   thread->tlab->alloc = mark;   // No allocations can be live past here
 }
 
 static void convert_effective(rt_conv_func_t *cf)
@@ -1807,7 +1809,9 @@ static void convert_effective(rt_conv_func_t *cf)
    TRACE("call effective conversion function %s",
          istr(jit_get_name(m->jit, cf->effective.handle)));
 
+   // The caller may have live allocations in the TLAB
    model_thread_t *thread = model_thread(m);
+   const unsigned mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->effective.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1815,7 +1819,7 @@ static void convert_effective(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   thread->tlab->alloc = mark;   // No allocations can be live past here
 }
 
 static void *source_value(rt_nexus_t *nexus, rt_source_t *src)
-- 
2.43.0


From 533830b4b90bc28d60a73398cb172d1a6a6f8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 19/92] fix: effective values of ports of mode in and inout
 with conversions or without collapsing

---
 src/rt/model.c | 128 +++++++++++++++++++++++++++++++++++++++++++++++--
 src/rt/rt.h    |   1 +
 2 files changed, 124 insertions(+), 5 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 809eaf2..5408a1f 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -163,6 +163,7 @@ static void free_value(rt_nexus_t *n, rt_value_t v);
 static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset);
 static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value);
+static void enqueue_effective(rt_model_t *m, rt_nexus_t *n);
 static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp);
 static bool run_trigger(rt_model_t *m, rt_trigger_t *t);
 static void reset_scope(rt_model_t *m, rt_scope_t *s);
@@ -1720,6 +1721,14 @@ static void setup_signal(rt_model_t *m, rt_signal_t *s, tree_t where,
    s->offset  = offset;
    s->parent  = parent;
 
+   // All the sub-elements of a port of mode in have that mode
+   tree_t decl = where;
+   for (rt_scope_t *it = parent; is_signal_scope(it); it = it->parent)
+      decl = it->where;
+
+   if (tree_kind(decl) == T_PORT_DECL && tree_subkind(decl) == PORT_IN)
+      flags |= SIG_F_PORT_IN;
+
    s->shared.flags = flags;
    s->shared.size  = count * size;
 
@@ -2080,6 +2089,68 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
    }
 }
 
+static bool is_port_in(rt_nexus_t *n)
+{
+   return !!(n->signal->shared.flags & SIG_F_PORT_IN);
+}
+
+static bool depends_on_effective(rt_nexus_t *n)
+{
+   // True if N is part of a port of mode in and the associated actual has
+   // separate driving and effective values
+
+   if (n->n_sources == 0 || !is_port_in(n))
+      return false;
+
+   for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
+      if (s->tag != SOURCE_PORT)
+         continue;
+      else if (s->u.port.conv_func != NULL) {
+         rt_conv_func_t *cf = s->u.port.conv_func;
+         for (int i = 0; i < cf->ninputs; i++) {
+            if (cf->inputs[i].nexus->flags & NET_F_EFFECTIVE)
+               return true;
+         }
+      }
+      else if (s->u.port.input->flags & NET_F_EFFECTIVE)
+         return true;
+   }
+
+   return false;
+}
+
+static void calculate_port_in_value(rt_model_t *m, rt_nexus_t *n)
+{
+   if (n->n_sources == 0)
+      return;
+
+   for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
+      if (s->disconnected)
+         continue;
+      else if (s->tag == SOURCE_FORCING) {
+         put_effective(m, n, value_ptr(n, &(s->u.pseudo.value)));
+         return;
+      }
+      else if (s->tag == SOURCE_DEPOSIT) {
+         s->disconnected = 1;
+         put_effective(m, n, value_ptr(n, &(s->u.pseudo.value)));
+         return;
+      }
+   }
+
+   for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
+      if (s->tag != SOURCE_PORT)
+         continue;
+      else if (likely(s->u.port.conv_func == NULL))
+         put_effective(m, n, nexus_effective(s->u.port.input));
+      else {
+         convert_driving(s->u.port.conv_func);
+         put_effective(m, n, value_ptr(n, &(s->u.port.conv_result)));
+      }
+      return;
+   }
+}
+
 static void calculate_effective_value(rt_model_t *m, rt_nexus_t *n)
 {
    // Algorithm for effective values is in LRM 08 section 14.7.7.3
@@ -2087,9 +2158,13 @@ static void calculate_effective_value(rt_model_t *m, rt_nexus_t *n)
    // If S is a connected port of mode in or inout, then the effective
    // value of S is the same as the effective value of the actual part
    // of the association element that associates an actual with S
-   if (n->flags & NET_F_INOUT) {
+   if (is_port_in(n)) {
+      calculate_port_in_value(m, n);
+      return;
+   }
+   else if (n->flags & NET_F_INOUT) {
       for (rt_source_t *s = n->outputs; s; s = s->chain_output) {
-         if (s->tag == SOURCE_PORT) {
+         if (s->tag == SOURCE_PORT && !is_port_in(s->u.port.output)) {
             if (likely(s->u.port.conv_func == NULL))
                put_effective(m, n, nexus_effective(s->u.port.output));
             else {
@@ -2116,6 +2191,12 @@ static void calculate_effective_value(rt_model_t *m, rt_nexus_t *n)
 
 static void calculate_initial_value(rt_model_t *m, rt_nexus_t *n)
 {
+   if (is_port_in(n) && (n->flags & NET_F_EFFECTIVE)) {
+      // Only the effective value is used
+      enqueue_effective(m, n);
+      return;
+   }
+
    calculate_driving_value(m, n);
 
    if (n->flags & NET_F_EFFECTIVE) {
@@ -2446,6 +2527,9 @@ void model_reset(rt_model_t *m)
          }
       }
 
+      if (depends_on_effective(n))
+         n->flags |= NET_F_EFFECTIVE;
+
       const int rank = nexus_rank(n);
       if (rank > MAX_RANK)
          fatal_at(tree_loc(n->signal->where), "signal rank %d is greater "
@@ -2955,7 +3039,13 @@ static void enqueue_effective(rt_model_t *m, rt_nexus_t *n)
       return;
 
    n->flags |= NET_F_PENDING;
-   heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
+
+   // Effective values are propagated from signals down to ports of mode
+   // inout and then to the ports of mode in which depend on these
+   if (is_port_in(n))
+      heap_insert(m->effective_heap, MAX_RANK + n->rank, n);
+   else
+      heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
 }
 
 static void update_effective(rt_model_t *m, rt_nexus_t *n)
@@ -2965,7 +3055,16 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
 
    calculate_effective_value(m, n);
 
-   if (n->n_sources > 0) {
+   for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+      if (o->tag != SOURCE_PORT)
+         continue;
+
+      rt_nexus_t *out_n = o->u.port.output;
+      if (is_port_in(out_n) && (out_n->flags & NET_F_EFFECTIVE))
+         enqueue_effective(m, out_n);
+   }
+
+   if (n->n_sources > 0 && !is_port_in(n)) {
       for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
          if (s->tag != SOURCE_PORT)
             continue;
@@ -3010,7 +3109,13 @@ static void defer_driving_update(rt_model_t *m, rt_nexus_t *n)
 
 static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
 {
-   if (n->n_sources == 1 || safe) {
+   if (is_port_in(n) && (n->flags & NET_F_EFFECTIVE)) {
+      // Depends on the effective value of the actual
+      if (safe)
+         n->flags &= ~NET_F_PENDING;
+      enqueue_effective(m, n);
+   }
+   else if (n->n_sources == 1 || safe) {
       n->active_delta = m->iteration;
       n->flags &= ~NET_F_PENDING;
 
@@ -4557,6 +4662,11 @@ void x_resolve_signal(sig_shared_t *ss, jit_handle_t handle, void *context,
       .context = context
    };
 
+   // The effective value of a port of mode in is that of the associated
+   // actual so the resolution function must not be applied again
+   if (s->shared.flags & SIG_F_PORT_IN)
+      return;
+
    rt_model_t *m = get_model();
    s->resolution = memo_resolution_fn(m, s, closure, nlits, flags);
 
@@ -4709,6 +4819,14 @@ void x_convert_in(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
       rt_source_t **p = &(n->outputs);
       for (; *p != NULL && *p != cf->outputs; p = &((*p)->chain_output));
       *p = cf->outputs;
+
+      // Effective value updates must propagate through ports
+      if (n->flags & NET_F_INOUT) {
+         for (rt_source_t *o = cf->outputs; o; o = o->chain_output) {
+            if (o->u.port.conv_func == cf)
+               o->u.port.output->flags |= NET_F_EFFECTIVE;
+         }
+      }
    }
 }
 
diff --git a/src/rt/rt.h b/src/rt/rt.h
index b48d098..e358c53 100644
--- a/src/rt/rt.h
+++ b/src/rt/rt.h
@@ -62,6 +62,7 @@ typedef uint8_t net_flags_t;
 #define SIG_F_CACHE_EVENT  (1 << 10)
 #define SIG_F_EVENT_FLAG   (1 << 11)
 #define SIG_F_REGISTER     (1 << 12)
+#define SIG_F_PORT_IN      (1 << 13)
 typedef uint32_t sig_flags_t;
 
 typedef enum {
-- 
2.43.0


From 1f58d4381f197dc7553269f65f204153978bda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 20/92] fix: process with x'event and x = c condition must not
 execute the branch at initialisation

---
 src/lower.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9fe3140..29fdeb7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11372,6 +11372,31 @@ static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc)
       return emit_or_trigger(branches[0], branches[1]);
 }
 
+static void lower_triggered_branch(lower_unit_t *lu, tree_t cond)
+{
+   PUSH_COVER_SCOPE(lu, cond);
+
+   tree_t value = tree_value(cond);
+   if (tree_subkind(tree_ref(value)) == S_SCALAR_AND) {
+      // The trigger does not include the test of x'event which is false
+      // when the process is first executed
+      vcode_reg_t test = lower_rvalue(lu, value);
+      vcode_block_t btrue = emit_block();
+      vcode_block_t bjoin = emit_block();
+      emit_cond(test, btrue, bjoin);
+
+      vcode_select_block(btrue);
+      lower_sequence(lu, cond, NULL);
+
+      if (!vcode_block_finished())
+         emit_jump(bjoin);
+
+      vcode_select_block(bjoin);
+   }
+   else
+      lower_sequence(lu, cond, NULL);
+}
+
 void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
 {
    assert(tree_kind(proc) == T_PROCESS);
@@ -11482,8 +11507,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
       const int nconds = tree_conds(s0);
       if (nconds == 1) {
          tree_t c = tree_cond(s0, 0);
-         PUSH_COVER_SCOPE(lu, c);
-         lower_sequence(lu, c, NULL);
+         lower_triggered_branch(lu, c);
       }
       else {
          assert(nconds == 2);
@@ -11508,8 +11532,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
          {
             vcode_select_block(bfalse);
 
-            PUSH_COVER_SCOPE(lu, c1);
-            lower_sequence(lu, c1, NULL);
+            lower_triggered_branch(lu, c1);
 
             if (!vcode_block_finished())
                emit_jump(bjoin);
-- 
2.43.0


From 0f88507a17da0b71f02ebe54182a74e6e8cc6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 21/92] fix: element resolution indication of a non-enumeration
 type called the function with composite arguments

---
 src/lower.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 29fdeb7..ef8a100 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7640,7 +7640,7 @@ static void lower_resolution_wrapper(lower_unit_t *lu, object_t *obj)
 
    vcode_type_t velem = lower_type(type_elem_recur(elem));
    vcode_reg_t vbounds = lower_bounds(elem);
-   vcode_type_t rtype = lower_func_result_type(type);
+   vcode_type_t rtype = lower_func_result_type(elem);
    vcode_type_t atype = vtype_pointer(velem);
    vcode_type_t vuint32 = vtype_int(0, UINT32_MAX);
    vcode_type_t voffset = vtype_offset();
@@ -7701,7 +7701,7 @@ static void lower_resolution_var(lower_unit_t *lu, tree_t decl, type_t type)
       nlits_reg = emit_const(vtype_offset(), 0);
 
    vcode_type_t velem = lower_type(type_elem_recur(type));
-   vcode_type_t rtype = lower_func_result_type(type);
+   vcode_type_t rtype = lower_func_result_type(elem);
    vcode_type_t atype = vtype_pointer(velem);
 
    ident_t prefix;
-- 
2.43.0


From 888d74e21c68824dc0e3814cc41a086b1c9940d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 22/92] fix: 'stable, 'quiet and 'transaction missed elements
 of a signal split later

---
 src/rt/model.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 5408a1f..602c184 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1631,10 +1631,18 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
             add_conversion_input(m, cf, new);
       }
       else {
+         if (old_o->tag == SOURCE_IMPLICIT) {
+            // The implicit signal depends on both parts
+            rt_source_t *s =
+               add_source(m, old_o->u.port.output, SOURCE_IMPLICIT);
+            s->u.port.input = new;
+            s->chain_output = new->outputs;
+            new->outputs = s;
+            continue;
+         }
+
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
-- 
2.43.0


From efca467bcbe44b1ef890b8edcd07a025a5f2acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 23/92] fix: 'last_value and 'delayed had the wrong initial
 value

---
 src/lower.c    | 7 +++++--
 src/rt/model.c | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index ef8a100..b8043f7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8267,8 +8267,11 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
    case IMPLICIT_DELAYED:
       {
-         vcode_reg_t init_reg =
-            lower_default_value(parent, type, VCODE_INVALID_REG);
+         // The initial value is the initial value of the prefix
+         tree_t wave = tree_value(decl);
+         assert(tree_kind(wave) == T_WAVEFORM);
+
+         vcode_reg_t init_reg = lower_rvalue(parent, tree_value(wave));
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
diff --git a/src/rt/model.c b/src/rt/model.c
index 602c184..061699b 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2562,6 +2562,8 @@ void model_reset(rt_model_t *m)
       n->flags &= ~NET_F_PENDING;
 
       calculate_effective_value(m, n);
+
+      memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
    }
 
    tlab_reset(thread->tlab);   // No allocations can be live past here
-- 
2.43.0


From 3f31070d2833ca50b418e18af14b520e4d0809ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 24/92] fix: 'quiet and 'transaction missed activity behind a
 port

---
 src/rt/model.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 061699b..622ab36 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2489,6 +2489,30 @@ static void create_processes(rt_model_t *m, rt_scope_t *s)
    }
 }
 
+static void propagate_activity(rt_nexus_t *n)
+{
+   // An implicit 'QUIET or 'TRANSACTION signal must be updated whenever
+   // any source of the nexus is active even if its value is unchanged
+
+   n->flags |= NET_F_EFFECTIVE;
+   n->flags &= ~NET_F_FAST_DRIVER;
+
+   if (n->n_sources == 0)
+      return;
+
+   for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
+      if (s->tag != SOURCE_PORT)
+         continue;
+      else if (s->u.port.conv_func == NULL)
+         propagate_activity(s->u.port.input);
+      else {
+         rt_conv_func_t *cf = s->u.port.conv_func;
+         for (int i = 0; i < cf->ninputs; i++)
+            propagate_activity(cf->inputs[i].nexus);
+      }
+   }
+}
+
 void model_reset(rt_model_t *m)
 {
    MODEL_ENTRY(m);
@@ -2525,6 +2549,15 @@ void model_reset(rt_model_t *m)
    // signal S, then the current value of S is updated prior to the
    // updating of the current value of R.
 
+   for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain) {
+      for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+         if (o->tag == SOURCE_IMPLICIT) {
+            propagate_activity(n);
+            break;
+         }
+      }
+   }
+
    for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain) {
       // The initial value of each driver is the default value of the signal
       if (n->n_sources > 0) {
@@ -3066,6 +3099,9 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
    calculate_effective_value(m, n);
 
    for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+      if (o->tag == SOURCE_IMPLICIT && is_port_in(n))
+         schedule_implicit_update(m, o->u.pseudo.nexus);
+
       if (o->tag != SOURCE_PORT)
          continue;
 
-- 
2.43.0


From ec012cbd9bc3e0e2bfddb5c81598b3b429e776c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 25/92] fix: 'active and 'last_active of a signal with a
 pending fast update

---
 src/rt/model.c   | 46 ++++++++++++++++++++++++++++++++++++----------
 src/rt/structs.h |  5 ++++-
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 622ab36..675b8eb 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1259,6 +1259,9 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
          src->u.driver.nexus = n;
 
          waveform_t *w0 = &(src->u.driver.waveforms);
+         src->last_active = TIME_HIGH;
+         src->was_active  = 0;
+
          w0->when  = TIME_HIGH;
          w0->null  = 0;
          w0->next  = NULL;
@@ -1536,6 +1539,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          }
 
          new->was_active = old->was_active;
+         new->last_active = old->last_active;
 
          // Future transactions
          for (w_old = w_old->next; w_old; w_old = w_old->next) {
@@ -2767,6 +2771,17 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
+static bool is_fast_pending(rt_model_t *m, rt_nexus_t *n, rt_source_t *s)
+{
+   // True if a fast driver was assigned in this cycle: the waveform has
+   // the time and value of a transaction that is not active yet
+   if (s->fastqueued)
+      return true;
+   else
+      return s->u.driver.waveforms.when == m->now
+         && n->active_delta == m->iteration + 1;
+}
+
 static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
                          uint64_t reject, const void *value, rt_proc_t *proc)
 {
@@ -2775,9 +2790,16 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       assert(n->n_sources == 1);
 
       waveform_t *w = &d->u.driver.waveforms;
-      w->when = m->now;
       assert(w->next == NULL);
 
+      if (!is_fast_pending(m, n, d)) {
+         // The previous transaction is now in the past
+         d->was_active = (w->when == m->now && n->active_delta == m->iteration);
+         d->last_active = w->when;
+      }
+
+      w->when = m->now;
+
       rt_signal_t *signal = n->signal;
       rt_source_t *d0 = &(signal->nexus.sources);
 
@@ -2789,7 +2811,6 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       }
       else if (cmp_bytes(value, value_ptr(n, &w->value), n->width * n->size)) {
          m->next_is_delta = true;
-         d->was_active = (n->active_delta == m->iteration);
          n->active_delta = m->iteration + 1;
          return;
       }
@@ -3876,11 +3897,13 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
                }
             }
          }
-         else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when == m->now) {
-            if (nexus->active_delta == m->iteration)
-               return true;
-            else if (nexus->active_delta == m->iteration + 1 && s->was_active)
+         else if (s->tag == SOURCE_DRIVER) {
+            if (is_fast_pending(m, nexus, s)) {
+               if (s->was_active)
+                  return true;
+            }
+            else if (s->u.driver.waveforms.when == m->now
+                     && nexus->active_delta == m->iteration)
                return true;
          }
       }
@@ -3908,9 +3931,12 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
                }
             }
          }
-         else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when <= m->now)
-            last = MIN(last, m->now - s->u.driver.waveforms.when);
+         else if (s->tag == SOURCE_DRIVER) {
+            const uint64_t when = is_fast_pending(m, nexus, s)
+               ? s->last_active : s->u.driver.waveforms.when;
+            if (when <= m->now)
+               last = MIN(last, m->now - when);
+         }
       }
    }
 
diff --git a/src/rt/structs.h b/src/rt/structs.h
index 160a7ee..136b6df 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -157,7 +157,10 @@ typedef struct {
 
 typedef struct _rt_source {
    rt_source_t    *chain_input;
-   rt_source_t    *chain_output;
+   union {
+      rt_source_t *chain_output;   // Ports and implicit signals
+      uint64_t     last_active;    // Drivers
+   };
    source_kind_t   tag;
    unsigned        disconnected : 1;
    unsigned        fastqueued : 1;
-- 
2.43.0


From 6303427b0f4a02029d001501e7835cc2a3cc645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 26/92] fix: splitting a signal with a pending or released
 force

---
 src/rt/model.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 675b8eb..03ff173 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1560,7 +1560,14 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+
+      new->disconnected = old->disconnected;
+
+      // Pending update
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
-- 
2.43.0


From d719e34d47522884b3ba7f05cb2d717d39cf5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 27/92] fix: release of a record and force of an array of
 records

---
 src/lower.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index b8043f7..a9796b1 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6280,7 +6280,12 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
    type_t value_type = tree_type(value);
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(type)) {
+   if (!type_is_homogeneous(type)) {
+      vcode_reg_t locus = lower_debug_locus(value);
+      lower_for_each_field_2(lu, type, value_type, nets, value_reg, locus,
+                             lower_force_field_cb, NULL);
+   }
+   else if (type_is_array(type)) {
       vcode_reg_t locus = lower_debug_locus(target);
       lower_check_array_sizes(lu, type, value_type, nets, value_reg, locus);
 
@@ -6288,15 +6293,24 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
       vcode_reg_t data_reg = lower_array_data(value_reg);
       emit_force(lower_array_data(nets), count_reg, data_reg);
    }
-   else if (type_is_record(type)) {
-      vcode_reg_t locus = lower_debug_locus(value);
-      lower_for_each_field_2(lu, type, value_type, nets, value_reg, locus,
-                             lower_force_field_cb, NULL);
-   }
    else
       emit_force(nets, emit_const(vtype_offset(), 1), value_reg);
 }
 
+static void lower_release_field_cb(lower_unit_t *lu, tree_t field,
+                                   vcode_reg_t ptr, vcode_reg_t unused,
+                                   vcode_reg_t locus, void *__ctx)
+{
+   type_t type = tree_type(field);
+   if (type_is_homogeneous(type)) {
+      vcode_reg_t nets_reg = emit_load_indirect(ptr);
+      vcode_reg_t count_reg = lower_type_width(lu, type, nets_reg);
+      emit_release(lower_array_data(nets_reg), count_reg);
+   }
+   else
+      lower_for_each_field(lu, type, ptr, locus, lower_release_field_cb, NULL);
+}
+
 static void lower_release(lower_unit_t *lu, tree_t stmt)
 {
    tree_t target = tree_target(stmt);
@@ -6304,13 +6318,14 @@ static void lower_release(lower_unit_t *lu, tree_t stmt)
 
    vcode_reg_t nets = lower_lvalue(lu, target);
 
-   if (type_is_array(type)) {
+   if (!type_is_homogeneous(type)) {
+      vcode_reg_t locus = lower_debug_locus(target);
+      lower_for_each_field(lu, type, nets, locus, lower_release_field_cb, NULL);
+   }
+   else if (type_is_array(type)) {
       vcode_reg_t count_reg = lower_array_total_len(lu, type, nets);
       emit_release(lower_array_data(nets), count_reg);
    }
-   else if (type_is_record(type)) {
-      should_not_reach_here();
-   }
    else
       emit_release(nets, emit_const(vtype_offset(), 1));
 }
-- 
2.43.0


From bdb82cc60e88144ba3ad9f427ffa26087250fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 28/92] fix: forcing value of a signal with several parts

---
 src/rt/model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 03ff173..0379207 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3963,8 +3963,9 @@ void get_forcing_value(rt_signal_t *s, uint8_t *value)
       }
       assert(s != NULL);
 
-      memcpy(p, s->u.pseudo.value.bytes, n->width * n->size);
+      memcpy(p, value_ptr(n, &(s->u.pseudo.value)), n->width * n->size);
       p += n->width * n->size;
+      n = n->chain;
    }
    assert(p == value + s->shared.size);
 }
-- 
2.43.0


From 6f07af94daf26361fcb5da8a12a721dfc1f85d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 29/92] fix: ordering of two null arrays

The predefined "<" returned true when both operands were null arrays.
---
 src/lower.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index a9796b1..527461e 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10384,6 +10384,12 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
 
    if (pred == VCODE_CMP_EQ)
       emit_cond(len_eq, test_bb, fail_bb);
+   else if (pred == VCODE_CMP_LT) {
+      // A null array is not less than another null array
+      vcode_reg_t zero = emit_const(voffset, 0);
+      vcode_reg_t left_null = emit_cmp(VCODE_CMP_EQ, left_len, zero);
+      emit_cond(emit_and(left_null, len_eq), fail_bb, test_bb);
+   }
    else
       emit_jump(test_bb);
 
-- 
2.43.0


From 2c4aa99b548bd39342abbfc06b5079e84d169f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 30/92] fix: bounds of results of native IEEE functions

The native versions of TO_X01 and of RESIZE to zero length returned
different bounds to the package source.
---
 src/jit/jit-intrin.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 99eed2a..6226f75 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -320,8 +320,8 @@ static void std_to_x01_sse41(jit_func_t *func, jit_anchor_t *anchor,
    }
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 #endif
 
@@ -337,8 +337,8 @@ static void std_to_x01(jit_func_t *func, jit_anchor_t *anchor,
       result[i] = cvt_to_x01[input[i]];
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 
 __attribute__((always_inline))
@@ -469,8 +469,15 @@ static void ieee_resize_unsigned(jit_func_t *func, jit_anchor_t *anchor,
    const uint8_t *input = args[1].pointer;
 
    args[0].pointer = __resize_unsigned(tlab, input, size, newsize);
-   args[1].integer = newsize - 1;
-   args[2].integer = ~newsize;
+
+   if (newsize < 1) {
+      args[1].integer = 0;
+      args[2].integer = -1;
+   }
+   else {
+      args[1].integer = newsize - 1;
+      args[2].integer = ~newsize;
+   }
 }
 
 static void ieee_resize_signed(jit_func_t *func, jit_anchor_t *anchor,
@@ -481,8 +488,15 @@ static void ieee_resize_signed(jit_func_t *func, jit_anchor_t *anchor,
    const uint8_t *input = args[1].pointer;
 
    args[0].pointer = __resize_signed(tlab, input, size, newsize);
-   args[1].integer = newsize - 1;
-   args[2].integer = ~newsize;
+
+   if (newsize < 1) {
+      args[1].integer = 0;
+      args[2].integer = -1;
+   }
+   else {
+      args[1].integer = newsize - 1;
+      args[2].integer = ~newsize;
+   }
 }
 
 __attribute__((always_inline))
-- 
2.43.0


From 6c5111778a26b282de1843af2e06d98e31ff3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 31/92] fix: equality of multi-dimensional arrays with
 different shapes

---
 src/lower.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 527461e..ff58d97 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10382,6 +10382,22 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
 
    vcode_reg_t len_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
 
+   if (ndims > 1) {
+      // Elements only match if the arrays have the same shape, except
+      // that all null arrays are equal
+      vcode_reg_t both_null =
+         emit_cmp(VCODE_CMP_EQ, left_len, emit_const(voffset, 0));
+      vcode_reg_t dims_eq = VCODE_INVALID_REG;
+      for (int i = 0; i < ndims; i++) {
+         vcode_reg_t left_dim = lower_array_len(lu, left_type, i, lhs_array);
+         vcode_reg_t right_dim = lower_array_len(lu, right_type, i, rhs_array);
+         vcode_reg_t cmp = emit_cmp(VCODE_CMP_EQ, left_dim, right_dim);
+         dims_eq = i == 0 ? cmp : emit_and(dims_eq, cmp);
+      }
+
+      len_eq = emit_and(len_eq, emit_or(both_null, dims_eq));
+   }
+
    if (pred == VCODE_CMP_EQ)
       emit_cond(len_eq, test_bb, fail_bb);
    else if (pred == VCODE_CMP_LT) {
-- 
2.43.0


From d994efd1af2bd984a0949d8b50cd9c9fcb48ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 32/92] fix: domain errors of native math_real functions

LOG, LOG2, LOG10 and "**" silently returned NaN or infinity for arguments
where the package reports an error; a constant NaN crashed the compiler.
---
 src/jit/jit-intrin.c | 45 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 6226f75..58bbe82 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1709,6 +1709,16 @@ static void byte_vector_equal(jit_func_t *func, jit_anchor_t *anchor,
    args[0].integer = (lsize == rsize) && (memcmp(left, right, lsize) == 0);
 }
 
+__attribute__((cold, noinline))
+static void __math_domain_error(jit_func_t *func, jit_anchor_t *caller,
+                                jit_scalar_t *args, tlab_t *tlab)
+{
+   // Punt to the interpreter to report the error and return the value
+   // specified by the package source
+   func->entry = jit_interp;
+   jit_interp(func, caller, args, tlab);
+}
+
 static void ieee_math_sin(jit_func_t *func, jit_anchor_t *anchor,
                           jit_scalar_t *args, tlab_t *tlab)
 {
@@ -1724,19 +1734,28 @@ static void ieee_math_cos(jit_func_t *func, jit_anchor_t *anchor,
 static void ieee_math_log(jit_func_t *func, jit_anchor_t *anchor,
                           jit_scalar_t *args, tlab_t *tlab)
 {
-   args[0].real = log(args[1].real);
+   if (unlikely(!(args[1].real > 0.0)))
+      __math_domain_error(func, anchor, args, tlab);
+   else
+      args[0].real = log(args[1].real);
 }
 
 static void ieee_math_log2(jit_func_t *func, jit_anchor_t *anchor,
                           jit_scalar_t *args, tlab_t *tlab)
 {
-   args[0].real = log2(args[1].real);
+   if (unlikely(!(args[1].real > 0.0)))
+      __math_domain_error(func, anchor, args, tlab);
+   else
+      args[0].real = log2(args[1].real);
 }
 
 static void ieee_math_log10(jit_func_t *func, jit_anchor_t *anchor,
                             jit_scalar_t *args, tlab_t *tlab)
 {
-   args[0].real = log10(args[1].real);
+   if (unlikely(!(args[1].real > 0.0)))
+      __math_domain_error(func, anchor, args, tlab);
+   else
+      args[0].real = log10(args[1].real);
 }
 
 static void ieee_math_round(jit_func_t *func, jit_anchor_t *anchor,
@@ -1757,16 +1776,32 @@ static void ieee_math_floor(jit_func_t *func, jit_anchor_t *anchor,
    args[0].real = floor(args[1].real);
 }
 
+__attribute__((always_inline))
+static inline bool __pow_domain(double x, double y)
+{
+   return x > 0.0 || (x == 0.0 && y > 0.0) || (x < 0.0 && y == 0.0);
+}
+
 static void ieee_math_pow_real(jit_func_t *func, jit_anchor_t *anchor,
                                jit_scalar_t *args, tlab_t *tlab)
 {
-   args[0].real = pow(args[1].real, args[2].real);
+   const double x = args[1].real, y = args[2].real;
+
+   if (unlikely(!__pow_domain(x, y)))
+      __math_domain_error(func, anchor, args, tlab);
+   else
+      args[0].real = pow(x, y);
 }
 
 static void ieee_math_pow_integer(jit_func_t *func, jit_anchor_t *anchor,
                                   jit_scalar_t *args, tlab_t *tlab)
 {
-   args[0].real = pow((double)args[1].integer, args[2].real);
+   const double x = args[1].integer, y = args[2].real;
+
+   if (unlikely(!__pow_domain(x, y)))
+      __math_domain_error(func, anchor, args, tlab);
+   else
+      args[0].real = pow(x, y);
 }
 
 static void ieee_math_exp(jit_func_t *func, jit_anchor_t *anchor,
-- 
2.43.0


From 51efa1a26b1b9cfd8466067c0763f208df8b409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 33/92] fix: sign extension of 'L' and 'H' in std_logic_arith
 operators

The native versions copied the unnormalised sign element.
---
 src/jit/jit-intrin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 58bbe82..e7ce5fd 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1364,7 +1364,7 @@ static inline const uint8_t *__conv_signed(jit_func_t *func,
    if (unlikely(result[pad] == _X))
       memset(result, _X, size);
    else
-      memset(result, *(uint8_t *)input, pad);
+      memset(result, result[pad], pad);
 
    return result;
 }
-- 
2.43.0


From 7de17125c00fd2de3400a8f07de8e33432f953b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 34/92] fix: folding calls of functions with reports

The messages were lost when a call with constant arguments was folded.
---
 src/eval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 6f5ffba..bddf9b7 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -265,6 +265,12 @@ tree_t eval_try_fold(jit_t *jit, tree_t expr, unit_registry_t *registry,
 
    tree_t result = eval_do_fold(jit, expr, parent, registry, context);
 
+   // Must not lose reports and failed assertions by folding the call
+   for (int i = SEVERITY_NOTE; i <= SEVERITY_FAILURE; i++) {
+      if (get_vhdl_assert_count(i) > 0)
+         result = expr;
+   }
+
    jit_set_silent(jit, false);
    jit_reset_exit_status(jit);
 
-- 
2.43.0


From 6c17c3e75a02f12aed7b81677fd412e8e788b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 35/92] fix: verify library file checksum before using contents

---
 src/fbuf.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/fbuf.c b/src/fbuf.c
index c4cbeee..c93ee23 100644
--- a/src/fbuf.c
+++ b/src/fbuf.c
@@ -318,17 +318,22 @@ static void fbuf_update_header(fbuf_t *f, uint32_t checksum)
 
 static void fbuf_decompress_fastlz(fbuf_t *f, uint8_t *rmap, size_t bufsz)
 {
-   for (uint8_t *dst = f->rbuf, *src = rmap; dst < f->rbuf + f->origsz;) {
+   const uint8_t *dst_end = f->rbuf + f->origsz, *src_end = rmap + bufsz;
+   for (uint8_t *dst = f->rbuf, *src = rmap; dst < dst_end;) {
+      if (src + sizeof(uint32_t) > src_end)
+         fatal("read past end of compressed file %s", f->fname);
+
       const uint32_t blksz = UNPACK_BE32(src);
       if (blksz > SPILL_SIZE)
          fatal("file %s has invalid compression format", f->fname);
 
       src += sizeof(uint32_t);
 
-      if (src + blksz > (uint8_t *)rmap + bufsz)
-         fatal_trace("read past end of compressed file %s", f->fname);
+      if (src + blksz > src_end)
+         fatal("read past end of compressed file %s", f->fname);
 
-      const int ret = fastlz_decompress(src, blksz, dst, SPILL_SIZE);
+      const int ret = fastlz_decompress(src, blksz, dst,
+                                        MIN(SPILL_SIZE, dst_end - dst));
       if (ret == 0)
          fatal("file %s has invalid compression format", f->fname);
 
@@ -352,6 +357,14 @@ static void fbuf_decompress_zstd(fbuf_t *f, uint8_t *rmap, size_t bufsz)
    checksum_update(&(f->checksum), f->rbuf, f->origsz);
 }
 
+static void fbuf_verify_checksum(fbuf_t *f)
+{
+   const uint32_t cs = checksum_finish(&(f->checksum));
+   if (cs != f->checksum.expect)
+      fatal("%s: incorrect checksum %08x, expected %08x",
+            f->fname, cs, f->checksum.expect);
+}
+
 static void fbuf_decompress(fbuf_t *f)
 {
    uint8_t header[16];
@@ -368,7 +381,9 @@ static void fbuf_decompress(fbuf_t *f)
    if (memcmp(header, "FBUF", 4))
       fatal("%s: file created with an older version of NVC", f->fname);
 
-   if (header[5] != f->checksum.algo)
+   if (header[5] == FBUF_CS_NONE)
+      f->checksum.algo = FBUF_CS_NONE;   // Index from 1.16 and earlier
+   else if (header[5] != f->checksum.algo)
       fatal("%s has was created with unexpected checksum algorithm %c",
             f->fname, header[5]);
 
@@ -399,6 +414,9 @@ static void fbuf_decompress(fbuf_t *f)
       fatal("%s has inconsistent compressed size %u vs file size %zu",
             f->fname, filesz, info.size);
 
+   if (header_sz < 16 || header_sz + userheader > filesz)
+      fatal("%s has inconsistent header size", f->fname);
+
    uint8_t *rmap = map_file(fileno(f->file), filesz);
 
    f->origsz = len;
@@ -413,6 +431,9 @@ static void fbuf_decompress(fbuf_t *f)
       fbuf_decompress_fastlz(f, payload, payloadsz);
       break;
    case FBUF_ZIP_NONE:
+      if (payloadsz < f->origsz)
+         fatal("%s inconsistent size %zu vs %zu", f->fname, payloadsz,
+               f->origsz);
       memcpy(f->rbuf, payload, f->origsz);
       checksum_update(&(f->checksum), f->rbuf, f->origsz);
       break;
@@ -425,6 +446,9 @@ static void fbuf_decompress(fbuf_t *f)
    }
 
    unmap_file(rmap, filesz);
+
+   // Verify the checksum before any of the contents are used
+   fbuf_verify_checksum(f);
 }
 
 fbuf_t *fbuf_open(const char *file, fbuf_mode_t mode, fbuf_cs_t csum)
@@ -549,10 +573,6 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
 
    const uint32_t cs = checksum_finish(&(f->checksum));
 
-   if (f->mode == FBUF_IN && cs != f->checksum.expect)
-      fatal("%s: incorrect checksum %08x, expected %08x",
-            f->fname, cs, f->checksum.expect);
-
    if (checksum != NULL)
       *checksum = cs;
 
-- 
2.43.0


From b4004428b48284bc91741385f096e7eb114a842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 36/92] fix: report damaged or replaced library index and unit
 files

---
 src/lib.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index c102fef..b18862e 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -145,7 +145,7 @@ static void lib_add_to_index(lib_t lib, ident_t name, tree_kind_t kind)
 
 static void lib_read_index(lib_t lib)
 {
-   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_IN, FBUF_CS_NONE);
+   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_IN, FBUF_CS_ADLER32);
    if (f != NULL) {
       file_info_t info;
       if (!get_handle_info(fbuf_file_handle(f), &info))
@@ -885,7 +885,8 @@ static lib_unit_t *lib_read_unit(lib_t lib, ident_t id)
          // Ignore it (remove after 1.12 release)
          break;
       default:
-         fatal_trace("unhandled tag %c in %s", tag, tb_get(tb));
+         fatal("library %s corrupt: %s is not a design unit",
+               istr(lib->name), tb_get(tb));
       }
    }
 
@@ -896,7 +897,20 @@ static lib_unit_t *lib_read_unit(lib_t lib, ident_t id)
    fbuf_close(f, &checksum);
 
    if (obj == NULL)
-      fatal_trace("%s did not contain a HDL design unit", tb_get(tb));
+      fatal("library %s corrupt: %s did not contain a HDL design unit",
+            istr(lib->name), tb_get(tb));
+
+   tree_t tree = tree_from_object(obj);
+   vlog_node_t vlog = vlog_from_object(obj);
+
+   if (tree == NULL && vlog == NULL)
+      fatal("library %s corrupt: %s did not contain a HDL design unit",
+            istr(lib->name), tb_get(tb));
+
+   ident_t name = tree != NULL ? tree_ident(tree) : vlog_ident(vlog);
+   if (!ident_casecmp(name, id))
+      fatal("library %s corrupt: %s contains design unit %s instead of %s",
+            istr(lib->name), tb_get(tb), istr(name), istr(id));
 
    arena_set_checksum(object_arena(obj), checksum);
 
@@ -1135,7 +1149,7 @@ void lib_save(lib_t lib)
 
    int index_sz = lib_index_size(lib);
 
-   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_OUT, FBUF_CS_NONE);
+   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_OUT, FBUF_CS_ADLER32);
    if (f == NULL)
       fatal_errno("failed to create library %s index", istr(lib->name));
 
-- 
2.43.0


From 0a626f5f704f82fff134c9a95c4c266149802503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 37/92] fix: detect damaged JIT pack file

---
 src/jit/jit-pack.c | 59 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/jit/jit-pack.c b/src/jit/jit-pack.c
index 67fbdb3..b9bc868 100644
--- a/src/jit/jit-pack.c
+++ b/src/jit/jit-pack.c
@@ -607,12 +607,35 @@ bool jit_pack_fill(jit_pack_t *jp, jit_t *j, jit_func_t *f)
 typedef struct {
    char     magic[4];
    uint32_t strtab;
+   uint32_t filesz;
+   uint32_t checksum;
 } pack_header_t;
 
-#define PACK_MAGIC "JIT1"
+#define PACK_MAGIC "JIT2"
 
-static void write_fully(const void *buf, size_t size, FILE *f)
+#define FNV_BASIS UINT32_C(2166136261)
+
+static uint32_t pack_checksum(uint32_t sum, const void *buf, size_t size)
+{
+   // FNV-1a hash
+   const uint8_t *bytes = buf;
+   for (size_t i = 0; i < size; i++)
+      sum = (sum ^ bytes[i]) * UINT32_C(16777619);
+
+   return sum;
+}
+
+static uint32_t pack_header_checksum(const pack_header_t *header)
+{
+   uint32_t sum = pack_checksum(FNV_BASIS, &(header->strtab),
+                                sizeof(header->strtab));
+   return pack_checksum(sum, &(header->filesz), sizeof(header->filesz));
+}
+
+static void write_fully(const void *buf, size_t size, uint32_t *sum, FILE *f)
 {
+   *sum = pack_checksum(*sum, buf, size);
+
    if (fwrite(buf, size, 1, f) != 1)
       fatal_errno("fwrite");
 }
@@ -622,7 +645,10 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
    pack_writer_t *pw = pack_writer_new();
 
    pack_header_t header = {};
-   write_fully(&header, sizeof(header), f);
+   uint32_t sum = FNV_BASIS;
+   write_fully(&header, sizeof(header), &sum, f);
+
+   sum = FNV_BASIS;   // Header has its own checksum
 
    for (size_t i = 0; i < count; i++) {
       jit_handle_t handle = jit_compile(j, units[i]);
@@ -631,24 +657,24 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
 
       const uint32_t name = pack_writer_get_string(pw, istr(units[i]));
       const int name_nbytes = encode_number(name, bytes);
-      write_fully(bytes, name_nbytes, f);
+      write_fully(bytes, name_nbytes, &sum, f);
 
       uint8_t *buf;
       size_t size;
       pack_writer_emit(pw, j, handle, &buf, &size);
 
       const int size_nbytes = encode_number(size, bytes);
-      write_fully(bytes, size_nbytes, f);
+      write_fully(bytes, size_nbytes, &sum, f);
 
       jit_func_t *func = jit_get_func(j, handle);
 
       const int cpool_nbytes = encode_number(func->cpoolsz, bytes);
-      write_fully(bytes, cpool_nbytes, f);
+      write_fully(bytes, cpool_nbytes, &sum, f);
 
-      write_fully(buf, size, f);
+      write_fully(buf, size, &sum, f);
 
       if (func->cpoolsz > 0)
-         write_fully(func->cpool, func->cpoolsz, f);
+         write_fully(func->cpool, func->cpoolsz, &sum, f);
    }
 
    memcpy(header.magic, PACK_MAGIC, sizeof(header.magic));
@@ -658,11 +684,14 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
    size_t size;
    pack_writer_string_table(pw, &tab, &size);
 
-   write_fully(tab, size, f);
+   write_fully(tab, size, &sum, f);
+
+   header.filesz = ftell(f);
+   header.checksum = sum ^ pack_header_checksum(&header);
 
    rewind(f);
 
-   write_fully(&header, sizeof(header), f);
+   write_fully(&header, sizeof(header), &sum, f);
 
    pack_writer_free(pw);
 }
@@ -675,6 +704,9 @@ jit_pack_t *jit_read_pack(FILE *f)
    if (!get_handle_info(fileno(f), &info))
       fatal("cannot get info for pack file");
 
+   if (info.size < sizeof(pack_header_t))
+      fatal("JIT pack file is truncated");
+
    jp->mmap = map_file(fileno(f), info.size);
    jp->map_size = info.size;
 
@@ -682,6 +714,13 @@ jit_pack_t *jit_read_pack(FILE *f)
    if (memcmp(header->magic, PACK_MAGIC, sizeof(header->magic)) != 0)
       fatal("bad JIT pack magic");
 
+   const uint32_t sum = pack_checksum(FNV_BASIS, header + 1,
+                                      info.size - sizeof(*header));
+
+   if (header->filesz != info.size || header->strtab > info.size
+       || header->checksum != (sum ^ pack_header_checksum(header)))
+      fatal("JIT pack file is corrupt");
+
    const char *strtab = jp->mmap + header->strtab;
 
    const uint8_t *rptr = jp->mmap + sizeof(pack_header_t);
-- 
2.43.0


From 232e4006786cc27172cfcc6293b59587fbbbad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 38/92] fix: sla and sra filled with the wrong end element

---
 src/vhdl/vhdl-predef.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..b444e7b 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,31 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SLA: case S_SRA:
       {
+         // Arithmetic shifts to the right fill with the leftmost element
+         // and those to the left with the rightmost element
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
-         mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t first_idx = kind == S_SRA ? zero : len_minus_1;
+         mir_value_t other_idx = kind == S_SRA ? len_minus_1 : zero;
+         mir_value_t fill_idx = mir_build_select(mu, t_offset, shift_is_neg,
+                                                 other_idx, first_idx);
+         mir_value_t fill_ptr = mir_build_array_ref(mu, data, fill_idx);
+         def_val = mir_build_load(mu, fill_ptr);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From cca2f0b10c9826fd12f5d976f95560ab41d65a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 39/92] fix: concatenation for array types with a descending
 index subtype

---
 src/lower.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index ff58d97..d89d18d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3756,7 +3756,12 @@ static vcode_reg_t lower_aggregate_bounds(lower_unit_t *lu, tree_t expr,
          lower_get_scalar_type_bounds(lu, index_type, &left_reg,
                                       &index_right_reg, &dir_reg);
 
-         right_reg = emit_add(left_reg, cast_reg);
+         int64_t dir_const;
+         if (vcode_reg_const(dir_reg, &dir_const) && dir_const == RANGE_TO)
+            right_reg = emit_add(left_reg, cast_reg);
+         else
+            right_reg = emit_select(dir_reg, emit_sub(left_reg, cast_reg),
+                                    emit_add(left_reg, cast_reg));
       }
    }
 
-- 
2.43.0


From 5ce2e91bca90871c46100091be737c34ae6f1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 40/92] fix: crash in concatenation of an array with elements
 that are arrays

---
 src/lower.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index d89d18d..c8a3626 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4252,7 +4252,7 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
          if (length_reg == VCODE_INVALID_REG)
             length_reg = lower_array_len(lu, elem_type, 0, value_regs[i]);
 
-         if (i == 0)
+         if (length0_reg == VCODE_INVALID_REG)
             length0_reg = length_reg;
          else {
             vcode_reg_t locus = lower_debug_locus(a);
-- 
2.43.0


From 390f79b6f867d0660c9a5253592198bc0f3600a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 41/92] fix: array type conversion with element conversion or
 dynamic bounds

---
 src/lower.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index c8a3626..7808312 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4673,17 +4673,27 @@ static vcode_reg_t lower_conversion(lower_unit_t *lu, vcode_reg_t value_reg,
          result_reg = mem_reg;
       }
 
-      if (!type_const_bounds(to))   // Need to wrap in metadata
-         result_reg = lower_wrap(lu, from, result_reg);
-
-      if (type_is_unconstrained(to))
+      if (type_is_unconstrained(to)) {
+         // Need to wrap in metadata
+         result_reg = lower_wrap_with_new_bounds(lu, from, from, value_reg,
+                                                 result_reg);
          lower_check_indexes(lu, from, to, result_reg, where);
-      else {
-         vcode_reg_t locus = lower_debug_locus(where);
-         lower_check_array_sizes(lu, to, from, value_reg, result_reg, locus);
+         return result_reg;
       }
 
-      return result_reg;
+      vcode_reg_t locus = lower_debug_locus(where);
+
+      if (type_const_bounds(to)) {
+         lower_check_array_sizes(lu, to, from, VCODE_INVALID_REG,
+                                 value_reg, locus);
+         return result_reg;
+      }
+      else {
+         // LRM 08 section 9.3.6: the result has the bounds of the subtype
+         vcode_reg_t bounds_reg = lower_get_type_bounds(lu, to);
+         lower_check_array_sizes(lu, to, from, bounds_reg, value_reg, locus);
+         return lower_rewrap(lower_array_data(result_reg), bounds_reg);
+      }
    }
    else if ((from_k == T_INTEGER && to_k == T_INTEGER)
             || (from_k == T_REAL && to_k == T_REAL)) {
-- 
2.43.0


From 0aefa165d18be4e069993faada16db54c0631c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 42/92] fix: fold 'VAL attribute of enumeration types

---
 src/simp.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/simp.c b/src/simp.c
index 540a285..63ea861 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -495,6 +495,19 @@ static tree_t simp_attr_ref(tree_t t, simp_ctx_t *ctx)
       }
       break;
 
+   case ATTR_VAL:
+      {
+         tree_t value = tree_value(tree_param(t, 0));
+         type_t type = tree_type(t);
+
+         int64_t ipos, low, high;
+         if (type_is_enum(type) && folded_int(value, &ipos)
+             && folded_bounds(range_of(type, 0), &low, &high)
+             && ipos >= low && ipos <= high)
+            return get_enum_lit(t, type, ipos);
+      }
+      break;
+
    case ATTR_LENGTH:
    case ATTR_LEFT:
    case ATTR_LOW:
-- 
2.43.0


From 8ca5faa1b5e50cea7542ee646ec07e137e11ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 43/92] fix: direction of an aggregate whose choices are not
 literals

---
 src/names.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/names.c b/src/names.c
index ed62fff..7280e62 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4716,6 +4716,15 @@ static type_t solve_array_aggregate(nametab_t *tab, tree_t agg, type_t type)
 
    type_t sub = calculate_aggregate_subtype(agg);
    if (sub == NULL) {
+      if (!type_is_unconstrained(type)) {
+         // The choices are not literals so the bounds cannot be computed
+         // here and the direction must come from the context
+         const range_kind_t cdir = tree_subkind(range_of(type, 0));
+         const range_kind_t idir = tree_subkind(range_of(index_type, 0));
+         if (cdir != idir && (cdir == RANGE_TO || cdir == RANGE_DOWNTO))
+            return type;
+      }
+
       sub = type_new(T_SUBTYPE);
       type_set_base(sub, type_base_recur(type));
       type_set_elem(sub, type_elem(type));
-- 
2.43.0


From 2fc3cc6bc92f7d237fce845d8c46f3ed21eaaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 44/92] fix: spurious error for concatenation of null arrays

---
 src/bounds.c | 5 ++++-
 src/common.c | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bounds.c b/src/bounds.c
index fca65d2..a280a82 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -713,6 +713,9 @@ static void bounds_check_aggregate(tree_t t)
          break;
       }
 
+      if (count == 0)
+         continue;   // Null array operand of concatenation
+
       if (unconstrained) {
          clow = MIN(clow, ilow);
          chigh = MAX(chigh, ihigh);
@@ -722,7 +725,7 @@ static void bounds_check_aggregate(tree_t t)
          bounds_cover_choice(&covered, a, index_type, ilow, ihigh);
    }
 
-   if (known_elem_count)
+   if (known_elem_count && clow <= chigh)
       bounds_check_missing_choices(t, type, index_type, dir, clow, chigh,
                                    covered);
 
diff --git a/src/common.c b/src/common.c
index 1e5df95..8b2590e 100644
--- a/src/common.c
+++ b/src/common.c
@@ -2818,6 +2818,9 @@ bool calculate_aggregate_bounds(tree_t expr, range_kind_t *kind,
       chigh = MAX(chigh, ihigh);
    }
 
+   if (pos == 0 && tree_subkind(tree_assoc(expr, nassocs - 1)) == A_CONCAT)
+      return false;   // Concatenation of null arrays
+
    if (clow < low || chigh > high)
       return false;   // Will raise a bounds check error later
 
-- 
2.43.0


From c1fb3c9901a04f97750213b471f13eecb05f39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 45/92] fix: range check elements of array aggregates

---
 src/lower.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 7808312..382756f 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3884,8 +3884,14 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
          value_regs[i] = lower_rvalue(lu, value);
       else if (tree_kind(value) == T_AGGREGATE)
          value_regs[i] = VCODE_INVALID_REG;   // Prefer to generate in-place
-      else
+      else {
          value_regs[i] = lower_rvalue(lu, value);
+
+         if (type_is_scalar(elem_type) && !multidim
+             && tree_kind(value) != T_LITERAL && akind != A_OTHERS)
+            lower_check_scalar_bounds(lu, value_regs[i], elem_type,
+                                      value, NULL);
+      }
    }
 
    vcode_reg_t bounds_reg = VCODE_INVALID_REG;
@@ -4016,6 +4022,10 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       // Initialise the array with the default value
       if (type_is_scalar(elem_type) && !multidim) {
          vcode_reg_t def_reg = lower_rvalue(lu, def_value);
+         if (nassocs == 1 && tree_kind(def_value) != T_LITERAL) {
+            // The choice must represent at least one element
+            lower_check_scalar_bounds(lu, def_reg, elem_type, def_value, NULL);
+         }
          emit_memset(mem_reg, def_reg, len_reg);
       }
       else {
-- 
2.43.0


From 921aa7c5d6fa1be80bdde69fa237278c2833e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 46/92] fix: length check for nested arrays

---
 src/lower.c | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 382756f..c4d6728 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4281,6 +4281,21 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       }
       else if (array_of_array || multidim) {
          assert(stride != VCODE_INVALID_REG);
+
+         type_t value_type = tree_type(value);
+         if (array_of_array && !multidim && !is_unconstrained
+             && type_is_array(value_type)
+             && !type_is_unconstrained(elem_type)
+             && !type_const_bounds(value_type)) {
+            vcode_reg_t elem_reg = VCODE_INVALID_REG;
+            if (!type_const_bounds(elem_type))
+               elem_reg = lower_wrap_element(lu, type, bounds_reg, ptr_reg);
+
+            vcode_reg_t locus = lower_debug_locus(a);
+            lower_check_array_sizes(lu, elem_type, value_type, elem_reg,
+                                    value_regs[i], locus);
+         }
+
          vcode_reg_t src_reg = lower_array_data(value_regs[i]);
          emit_copy(ptr_reg, src_reg, stride);
       }
@@ -5711,6 +5726,22 @@ static void lower_wait(lower_unit_t *lu, tree_t wait)
    }
 }
 
+static bool have_nested_bounds(type_t type, vcode_reg_t reg)
+{
+   return reg != VCODE_INVALID_REG
+      && vcode_reg_kind(reg) == VCODE_TYPE_UARRAY
+      && vtype_dims(vcode_reg_type(reg)) == dims_for_type(type);
+}
+
+static vcode_reg_t lower_nested_len(lower_unit_t *lu, type_t elem, int nth,
+                                    vcode_reg_t reg, int dim)
+{
+   if (type_const_bounds(elem))
+      return lower_array_len(lu, elem, nth, VCODE_INVALID_REG);
+   else
+      return emit_uarray_len(reg, dim);
+}
+
 static void lower_check_array_sizes(lower_unit_t *lu, type_t ltype,
                                     type_t rtype, vcode_reg_t lval,
                                     vcode_reg_t rval, vcode_reg_t locus)
@@ -5726,6 +5757,27 @@ static void lower_check_array_sizes(lower_unit_t *lu, type_t ltype,
 
       emit_length_check(llen_reg, rlen_reg, locus, dim_reg);
    }
+
+   // The elements must have the same length too
+   type_t lelem = type_elem(ltype), relem = type_elem(rtype);
+   for (int dim = ndims; type_is_array(lelem) && type_is_array(relem);
+        lelem = type_elem(lelem), relem = type_elem(relem)) {
+
+      const bool have_bounds =
+         (type_const_bounds(lelem) || have_nested_bounds(ltype, lval))
+         && (type_const_bounds(relem) || have_nested_bounds(rtype, rval));
+
+      if (!have_bounds || (type_const_bounds(lelem)
+                           && type_const_bounds(relem)))
+         return;
+
+      const int edims = dimension_of(lelem);
+      for (int i = 0; i < edims; i++, dim++) {
+         vcode_reg_t llen_reg = lower_nested_len(lu, lelem, i, lval, dim);
+         vcode_reg_t rlen_reg = lower_nested_len(lu, relem, i, rval, dim);
+         emit_length_check(llen_reg, rlen_reg, locus, VCODE_INVALID_REG);
+      }
+   }
 }
 
 static void lower_find_matching_refs(tree_t ref, void *context)
-- 
2.43.0


From 1d35633902b845bbb8777a7ff98e7078cec39c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 47/92] fix: range check initial value of scalar allocator

---
 src/lower.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index c4d6728..08b80fc 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4536,6 +4536,10 @@ static vcode_reg_t lower_new(lower_unit_t *lu, tree_t expr)
       else
          init_reg = lower_default_value(lu, type, VCODE_INVALID_REG);
 
+      type_t designated = type_designated(tree_type(expr));
+      if (type_is_scalar(designated))
+         lower_check_scalar_bounds(lu, init_reg, designated, expr, NULL);
+
       emit_store_indirect(init_reg, all_reg);
       return result_reg;
    }
-- 
2.43.0


From d4c01e4054bb9c7b04d35f52c84cd4ce44b4dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 48/92] fix: bounds of 'SUCC, 'PRED, 'LEFTOF, 'RIGHTOF and 'POS
 attributes

---
 src/lower.c | 99 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 32 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 08b80fc..0583fd7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4868,6 +4868,69 @@ static vcode_reg_t lower_attr_param(lower_unit_t *lu, tree_t value,
       return reg;
 }
 
+static vcode_reg_t lower_adjacent_attr(lower_unit_t *lu, tree_t expr,
+                                       attr_kind_t predef)
+{
+   // LRM 08 section 16.2.2: it is an error if the argument does not
+   // belong to the range of the prefix or has no neighbour there
+
+   type_t type = tree_type(tree_name(expr));
+   tree_t value = tree_value(tree_param(expr, 0));
+   vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
+
+   if (type_kind(type) == T_INTEGER || type_kind(type) == T_PHYSICAL) {
+      // The result is outside the range of the type if it is not correct
+      // so this will be detected when the value is used
+      const bool up = predef == ATTR_SUCC
+         || (predef != ATTR_PRED && (predef == ATTR_RIGHTOF)
+             == (direction_of(type, 0) == RANGE_TO));
+      vcode_type_t vtype = vcode_reg_type(arg_reg);
+      if (predef == ATTR_PRED)
+         return emit_sub(arg_reg, emit_const(vtype, 1));
+      else
+         return emit_add(arg_reg, emit_const(vtype, up ? 1 : -1));
+   }
+
+   vcode_reg_t left_reg, right_reg, dir_reg;
+   lower_get_scalar_type_bounds(lu, type, &left_reg, &right_reg, &dir_reg);
+
+   // Perform the calculation with a type that is wider than the range of
+   // the prefix to avoid overflow
+   vcode_type_t vwide = vtype_int(INT64_MIN, INT64_MAX);
+   vcode_reg_t one_reg = emit_const(vwide, 1);
+   vcode_reg_t minus_reg = emit_const(vwide, -1);
+
+   vcode_reg_t step_reg = VCODE_INVALID_REG;
+   switch (predef) {
+   case ATTR_SUCC:
+      step_reg = one_reg;
+      break;
+   case ATTR_PRED:
+      step_reg = minus_reg;
+      break;
+   case ATTR_RIGHTOF:
+      step_reg = emit_select(dir_reg, minus_reg, one_reg);
+      break;
+   default:
+      step_reg = emit_select(dir_reg, one_reg, minus_reg);
+      break;
+   }
+
+   vcode_reg_t locus = lower_debug_locus(expr);
+   emit_range_check(arg_reg, left_reg, right_reg, dir_reg, locus, locus);
+
+   vcode_reg_t wide_reg = emit_cast(vwide, vcode_reg_bounds(arg_reg), arg_reg);
+   vcode_reg_t next_reg = emit_add(wide_reg, step_reg);
+
+   vcode_reg_t wide_left_reg = emit_cast(vwide, vwide, left_reg);
+   vcode_reg_t wide_right_reg = emit_cast(vwide, vwide, right_reg);
+   emit_range_check(next_reg, wide_left_reg, wide_right_reg, dir_reg,
+                    locus, locus);
+
+   vcode_type_t vtype = lower_type(type_base_recur(type));
+   return emit_cast(vtype, vtype, next_reg);
+}
+
 static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
 {
    tree_t name = tree_name(expr);
@@ -5089,47 +5152,19 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
       }
 
    case ATTR_SUCC:
-      {
-         tree_t value = tree_value(tree_param(expr, 0));
-         vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), 1));
-      }
-
    case ATTR_PRED:
-      {
-         tree_t value = tree_value(tree_param(expr, 0));
-         vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-         return emit_sub(arg_reg, emit_const(vcode_reg_type(arg_reg), 1));
-      }
-
    case ATTR_LEFTOF:
-      {
-         tree_t value = tree_value(tree_param(expr, 0));
-         vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-
-         type_t type = tree_type(expr);
-         const int dir =
-            (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? -1 : 1;
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
-      }
-
    case ATTR_RIGHTOF:
-      {
-         tree_t value = tree_value(tree_param(expr, 0));
-         vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-
-         type_t type = tree_type(expr);
-         const int dir =
-            (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? 1 : -1;
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
-      }
+      return lower_adjacent_attr(lu, expr, predef);
 
    case ATTR_POS:
       {
          tree_t value = tree_value(tree_param(expr, 0));
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
 
-         type_t type = tree_type(expr);
+         // The result of the attribute is not limited to the subtype of
+         // the context to which it is implicitly converted
+         type_t type = type_base_recur(tree_type(expr));
          return emit_cast(lower_type(type), lower_bounds(type), arg_reg);
       }
 
-- 
2.43.0


From 6b30a3f82b6ed250c10994a032a4392fe29d502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 49/92] fix: check value of qualified expression belongs to
 subtype

---
 src/lower.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 0583fd7..d848ad7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5196,10 +5196,21 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(to_type))
+   // LRM 08 section 9.3.5: it is an error if the value of the operand
+   // does not belong to the subtype denoted by the type mark
+   if (type_is_array(to_type)) {
+      if (!type_is_unconstrained(to_type)) {
+         vcode_reg_t locus = lower_debug_locus(expr);
+         lower_check_array_sizes(lu, to_type, from_type, VCODE_INVALID_REG,
+                                 value_reg, locus);
+      }
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
+   }
+   else {
+      if (type_is_scalar(to_type))
+         lower_check_scalar_bounds(lu, value_reg, to_type, value, NULL);
       return value_reg;
+   }
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From 5766c5e122f6b02980edf7dff9d546d32c64e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 50/92] fix: check function result belongs to result subtype

---
 src/lower.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index d848ad7..d87e0bb 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6585,16 +6585,26 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
 
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
+      // LRM 08 section 10.13: the value of the expression is converted
+      // to the result subtype of the function
+      type_t result = tree_type(stmt);
+
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, result, value, NULL);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
          emit_return(lower_incomplete_access(value_reg, access));
       }
-      else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
+      else if (type_is_array(type)) {
+         if (!type_is_unconstrained(result)) {
+            vcode_reg_t locus = lower_debug_locus(value);
+            lower_check_array_sizes(lu, result, type, VCODE_INVALID_REG,
+                                    value_reg, locus);
+         }
+         emit_return(lower_coerce_arrays(lu, type, result, value_reg));
+      }
       else
          emit_return(value_reg);
    }
-- 
2.43.0


From 8ba4c10b5069a08de693bda73d6f67e49362f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 51/92] fix: check value of out parameter belongs to subtype of
 actual

---
 src/lower.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index d87e0bb..e3e0e9b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6685,8 +6685,28 @@ static void lower_pcall(lower_unit_t *lu, tree_t pcall)
          continue;
 
       tree_t value = tree_value(tree_param(pcall, i));
-      if (tree_kind(value) != T_AGGREGATE)
+      if (tree_kind(value) != T_AGGREGATE) {
+         type_t type = tree_type(value);
+         if (type_is_scalar(type) && !type_strict_eq(type, tree_type(p))
+             && (use_fcall || tree_kind(value) == T_REF)) {
+            // LRM 08 section 4.2.2.2: the value of the formal must
+            // belong to the subtype of the actual on return
+            vcode_reg_t ptr_reg =
+               use_fcall ? args.items[arg0 + i] : lower_lvalue(lu, value);
+
+            // Copy the value as a load from the actual would be assumed
+            // to be within the bounds of its subtype
+            vcode_type_t vtype = lower_type(type);
+            vcode_var_t tmp_var = lower_temp_var(lu, "out", vtype, vtype);
+            emit_copy(emit_index(tmp_var, VCODE_INVALID_REG), ptr_reg,
+                      VCODE_INVALID_REG);
+
+            vcode_reg_t value_reg = emit_load(tmp_var);
+            lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+            lower_release_temp(lu, tmp_var);
+         }
          continue;
+      }
 
       const int nparts = lower_count_target_parts(value, 0);
       target_part_t *parts LOCAL = xmalloc_array(nparts, sizeof(target_part_t));
-- 
2.43.0


From bd272a04ca350cfe1d7f608aa64e24462afaa193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 52/92] fix: check bounds of loop range belong to subtype

---
 src/lower.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index e3e0e9b..62a74ce 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6769,6 +6769,16 @@ static void lower_for(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
       vcode_select_block(init_bb);
    }
 
+   if (tree_subkind(r) != RANGE_EXPR && tree_has_type(r)) {
+      // LRM 08 section 6.3: the bounds must belong to the subtype
+      // denoted by the type mark if the range is not null
+      type_t rtype = tree_type(r);
+      if (type_kind(rtype) == T_SUBTYPE) {
+         lower_check_scalar_bounds(lu, left_reg, rtype, r, NULL);
+         lower_check_scalar_bounds(lu, right_reg, rtype, r, NULL);
+      }
+   }
+
    tree_t idecl = tree_decl(stmt, 0);
 
    vcode_type_t vtype  = lower_type(tree_type(idecl));
-- 
2.43.0


From 13b7542309526e1f9d7855d268475634142d6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 53/92] fix: bounds of aggregate with a single range choice

---
 src/names.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/names.c b/src/names.c
index 7280e62..cf773a6 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4721,8 +4721,13 @@ static type_t solve_array_aggregate(nametab_t *tab, tree_t agg, type_t type)
          // here and the direction must come from the context
          const range_kind_t cdir = tree_subkind(range_of(type, 0));
          const range_kind_t idir = tree_subkind(range_of(index_type, 0));
-         if (cdir != idir && (cdir == RANGE_TO || cdir == RANGE_DOWNTO))
-            return type;
+         if (cdir != idir && (cdir == RANGE_TO || cdir == RANGE_DOWNTO)) {
+            // A single range choice determines the bounds itself
+            tree_t a0 = tree_assoc(agg, 0);
+            if (tree_assocs(agg) > 1 || tree_subkind(a0) != A_RANGE
+                || tree_subkind(tree_range(a0, 0)) != cdir)
+               return type;
+         }
       }
 
       sub = type_new(T_SUBTYPE);
-- 
2.43.0


From 040413c1db2b0cf9be616059ac6ab717b67e9f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 54/92] fix: range check for scalar force

---
 src/lower.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 62a74ce..0a96144 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6420,8 +6420,11 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
       vcode_reg_t data_reg = lower_array_data(value_reg);
       emit_force(lower_array_data(nets), count_reg, data_reg);
    }
-   else
+   else {
+      if (type_is_scalar(type))
+         lower_check_scalar_bounds(lu, value_reg, type, value, target);
       emit_force(nets, emit_const(vtype_offset(), 1), value_reg);
+   }
 }
 
 static void lower_release_field_cb(lower_unit_t *lu, tree_t field,
-- 
2.43.0


From 6d690379f3ebe87230de9f87e0c99856b06327f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 55/92] fix: length check for nested arrays with constant
 bounds

---
 src/lower.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 0a96144..abea65b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5817,9 +5817,12 @@ static void lower_check_array_sizes(lower_unit_t *lu, type_t ltype,
          (type_const_bounds(lelem) || have_nested_bounds(ltype, lval))
          && (type_const_bounds(relem) || have_nested_bounds(rtype, rval));
 
-      if (!have_bounds || (type_const_bounds(lelem)
-                           && type_const_bounds(relem)))
+      if (!have_bounds)
          return;
+      else if (type_const_bounds(lelem) && type_const_bounds(relem)
+               && (lower_array_const_size(lelem)
+                   == lower_array_const_size(relem)))
+         return;   // Avoid generating redundant checks
 
       const int edims = dimension_of(lelem);
       for (int i = 0; i < edims; i++, dim++) {
-- 
2.43.0


From ea5a203bc3f4cdbf46130b5eb505908ed2561d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 56/92] fix: accept a null range choice in a case statement

---
 src/bounds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index a280a82..192b85b 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -1059,15 +1059,18 @@ static void bounds_check_scalar_case(tree_t t, type_t type, bool matching)
                tree_t left = tree_left(r);
                tree_t right = tree_right(r);
 
+               low = assume_int(dir == RANGE_TO ? left : right);
+               high = assume_int(dir == RANGE_TO ? right : left);
+
+               if (low > high)
+                  continue;   // A null range does not represent any value
+
                if (!bounds_check_index(left, type, dir, "case choice",
                                        tlow, thigh))
                   have_others = true;
                if (!bounds_check_index(right, type, dir, "case choice",
                                        tlow, thigh))
                   have_others = true;
-
-               low = assume_int(dir == RANGE_TO ? left : right);
-               high = assume_int(dir == RANGE_TO ? right : left);
             }
             break;
          }
-- 
2.43.0


From 297b071509c8418381a332f1150d4f2d1f22657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 57/92] fix: detect duplicate case choices when adjacent ranges
 are merged

---
 src/bounds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bounds.c b/src/bounds.c
index 192b85b..4ef370e 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -453,7 +453,8 @@ static void bounds_cover_choice(interval_t **isp, tree_t t, type_t type,
          it->low = low;
          return;
       }
-      else if (low == it->high + 1) {
+      else if (low == it->high + 1
+               && (it->next == NULL || it->next->low > high)) {
          it->high = high;
          return;
       }
-- 
2.43.0


From 16bf6cdc09d76410fe5af7875498eed5b36738e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 58/92] fix: keep the effect of conditional assignments,
 returns and forces without else

---
 src/simp.c | 96 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 79 insertions(+), 17 deletions(-)

diff --git a/src/simp.c b/src/simp.c
index 63ea861..2342108 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -1381,18 +1381,68 @@ static tree_t simp_var_assign(tree_t t)
 
          if (tree_has_value(e))
             tree_set_value(c, tree_value(e));
-         else
-            assert(i == nconds - 1);
 
-         tree_t s = tree_new(T_VAR_ASSIGN);
-         tree_set_loc(s, tree_loc(t));
-         tree_set_target(s, tree_target(t));
-         tree_set_value(s, tree_result(e));
+         if (tree_has_result(e)) {
+            tree_t s = tree_new(T_VAR_ASSIGN);
+            tree_set_loc(s, tree_loc(t));
+            tree_set_target(s, tree_target(t));
+            tree_set_value(s, tree_result(e));
+
+            tree_add_stmt(c, s);
+         }
 
-         tree_add_stmt(c, s);
          tree_add_cond(new, c);
+
+         if (!tree_has_value(e))
+            break;   // Any following conditions are never evaluated
       }
 
+      if (tree_conds(new) == 0)
+         return NULL;
+
+      return new;
+   }
+
+   return t;
+}
+
+static tree_t simp_force(tree_t t)
+{
+   tree_t value = tree_value(t);
+   if (tree_kind(value) == T_COND_VALUE) {
+      // Replace with an if statement
+      tree_t new = tree_new(T_IF);
+      tree_set_loc(new, tree_loc(t));
+
+      const int nconds = tree_conds(value);
+      for (int i = 0; i < nconds; i++) {
+         tree_t e = tree_cond(value, i);
+
+         tree_t c = tree_new(T_COND_STMT);
+         tree_set_loc(c, tree_loc(e));
+
+         if (tree_has_value(e))
+            tree_set_value(c, tree_value(e));
+
+         if (tree_has_result(e)) {
+            tree_t s = tree_new(T_FORCE);
+            tree_set_loc(s, tree_loc(t));
+            tree_set_target(s, tree_target(t));
+            tree_set_subkind(s, tree_subkind(t));
+            tree_set_value(s, tree_result(e));
+
+            tree_add_stmt(c, s);
+         }
+
+         tree_add_cond(new, c);
+
+         if (!tree_has_value(e))
+            break;   // Any following conditions are never evaluated
+      }
+
+      if (tree_conds(new) == 0)
+         return NULL;
+
       return new;
    }
 
@@ -1417,18 +1467,25 @@ static tree_t simp_return(tree_t t)
 
             if (tree_has_value(e))
                tree_set_value(c, tree_value(e));
-            else
-               assert(i == nconds - 1);
 
-            tree_t s = tree_new(T_RETURN);
-            tree_set_loc(s, tree_loc(tree_result(e)));
-            tree_set_value(s, tree_result(e));
-            tree_set_type(s, tree_type(t));
+            if (tree_has_result(e)) {
+               tree_t s = tree_new(T_RETURN);
+               tree_set_loc(s, tree_loc(tree_result(e)));
+               tree_set_value(s, tree_result(e));
+               tree_set_type(s, tree_type(t));
+
+               tree_add_stmt(c, s);
+            }
 
-            tree_add_stmt(c, s);
             tree_add_cond(new, c);
+
+            if (!tree_has_value(e))
+               break;   // Any following conditions are never evaluated
          }
 
+         if (tree_conds(new) == 0)
+            return NULL;
+
          return new;
       }
    }
@@ -1560,8 +1617,8 @@ static tree_t simp_sequence(tree_t t)
 
 static tree_t simp_cond_expr(tree_t t)
 {
-   if (!tree_has_result(t))
-      return NULL;   // "unaffected" expression is redundant
+   if (!tree_has_result(t) && !tree_has_value(t))
+      return NULL;   // Final "unaffected" expression is redundant
    else if (tree_has_value(t)) {
       bool value_b;
       if (folded_bool(tree_value(t), &value_b)) {
@@ -1582,8 +1639,11 @@ static tree_t simp_cond_expr(tree_t t)
 
 static tree_t simp_cond_value(tree_t t)
 {
+   if (tree_conds(t) == 0)
+      return t;   // All conditions were always false
+
    tree_t c0 = tree_cond(t, 0);
-   if (!tree_has_value(c0)) {
+   if (!tree_has_value(c0) && tree_has_result(c0)) {
       // Always evaluates to "else" condition
       return tree_result(c0);
    }
@@ -1772,6 +1832,8 @@ static tree_t simp_tree_local(tree_t t, void *_ctx)
       return simp_var_assign(t);
    case T_RETURN:
       return simp_return(t);
+   case T_FORCE:
+      return simp_force(t);
    case T_COND_RETURN:
       return simp_cond_return(t);
    case T_TYPE_CONV:
-- 
2.43.0


From ca07a6984683895f3041e4f699e2a2dd366637d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 59/92] fix: find lazily generated predefined operators

---
 src/cgen.c         | 9 +++++----
 src/jit/jit-core.c | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cgen.c b/src/cgen.c
index a203334..7c19a52 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -100,11 +100,12 @@ static void cgen_find_dependencies(mir_context_t *mc, unit_registry_t *ur,
    mir_unit_t *mu = mir_get_unit(mc, name);
    if (mu == NULL) {
       vcode_unit_t vu = unit_registry_get(ur, name);
-      if (vu == NULL)
+      if (vu != NULL) {
+         mu = mir_import(mc, vu);
+         mir_put_unit(mc, mu);
+      }
+      else if ((mu = mir_get_unit(mc, name)) == NULL)
          fatal_trace("missing vcode for %s", istr(name));
-
-      mu = mir_import(mc, vu);
-      mir_put_unit(mc, mu);
    }
 
    const int nlink = mir_count_linkage(mu);
diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..4a79dc4 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -431,6 +431,10 @@ void jit_fill_irbuf(jit_func_t *f)
          mu = mir_import(f->jit->mir, unit);
          mir_put_unit(f->jit->mir, mu);
       }
+      else {
+         // Generating the enclosing package may have deferred this unit
+         mu = mir_get_unit(f->jit->mir, f->name);
+      }
    }
 
    if (mu == NULL) {
-- 
2.43.0


From b119858b05256c2e99cfb06297f59091a97613e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 60/92] fix: write library files to a temporary name and rename
 when complete

---
 src/fbuf.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/fbuf.c b/src/fbuf.c
index c93ee23..d6a786d 100644
--- a/src/fbuf.c
+++ b/src/fbuf.c
@@ -20,6 +20,7 @@
 #include "fastlz.h"
 
 #include <stdlib.h>
+#include <errno.h>
 #include <string.h>
 #include <assert.h>
 #include <sys/types.h>
@@ -69,6 +70,7 @@ typedef struct {
 struct _fbuf {
    fbuf_mode_t  mode;
    char        *fname;
+   char        *tmpname;
    FILE        *file;
    uint8_t     *wbuf;
    size_t       wpend;
@@ -268,7 +270,7 @@ void fbuf_cleanup(void)
    for (fbuf_t *it = open_list; it != NULL; it = it->next) {
       fclose(it->file);
       if (it->mode == FBUF_OUT)
-         remove(it->fname);
+         remove(it->tmpname);
    }
 }
 
@@ -453,13 +455,18 @@ static void fbuf_decompress(fbuf_t *f)
 
 fbuf_t *fbuf_open(const char *file, fbuf_mode_t mode, fbuf_cs_t csum)
 {
-   FILE *h = fopen(file, mode == FBUF_OUT ? "wb" : "rb");
+   // Write to a temporary file which replaces the original when it is
+   // complete so that an interrupted write does not destroy its contents
+   char *tmpname LOCAL = mode == FBUF_OUT ? xasprintf("%s.tmp", file) : NULL;
+
+   FILE *h = mode == FBUF_OUT ? fopen(tmpname, "wb") : fopen(file, "rb");
    if (h == NULL)
       return NULL;
 
    fbuf_t *f = xcalloc(sizeof(struct _fbuf));
    f->file  = h;
    f->fname = xstrdup(file);
+   f->tmpname = tmpname ? xstrdup(tmpname) : NULL;
    f->mode  = mode;
    f->next  = open_list;
    f->zip   = DEFAULT_ZIP;
@@ -584,8 +591,6 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
       free(f->wbuf);
    }
 
-   fclose(f->file);
-
    if (f->prev == NULL) {
       assert(f == open_list);
       if (f->next != NULL)
@@ -598,6 +603,21 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
          f->next->prev = f->prev;
    }
 
+   if (fclose(f->file) != 0 && f->mode == FBUF_OUT) {
+      const int saved_errno = errno;
+      remove(f->tmpname);
+      errno = saved_errno;
+      fatal_errno("%s: fclose", f->fname);
+   }
+
+   if (f->mode == FBUF_OUT) {
+#ifdef __MINGW32__
+      remove(f->fname);
+#endif
+      if (rename(f->tmpname, f->fname) != 0)
+         fatal_errno("%s: rename", f->fname);
+   }
+
    if (checksum != NULL)
       *checksum = checksum_finish(&(f->checksum));
 
@@ -607,6 +627,7 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
    free(f->zbuf);
 
    free(f->fname);
+   free(f->tmpname);
    free(f);
 }
 
-- 
2.43.0


From fce8a4306834bfa54bfdcf8d62c013edbf8dd3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 61/92] fix: create shared library and pack files atomically

---
 src/cgen.c         | 34 ++++++++++++++++++++++++++++++----
 src/jit/jit-pack.c |  3 ++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/cgen.c b/src/cgen.c
index 7c19a52..24effd7 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -237,8 +237,10 @@ static void cgen_link(const char *module_name, char **objs, int nobjs)
       atexit(cleanup_temp_dll);
    }
 
+   char *tmp_path LOCAL = xasprintf("%s.tmp", so_path);
+
    cgen_link_arg("-o");
-   cgen_link_arg("%s", so_path);
+   cgen_link_arg("%s", tmp_path);
 
    for (int i = 0; i < nobjs; i++)
       cgen_link_arg("%s", objs[i]);
@@ -270,6 +272,14 @@ static void cgen_link(const char *module_name, char **objs, int nobjs)
 
    run_program((const char * const *)link_args.items);
 
+   // Only a complete library may be loaded later
+#ifdef __MINGW32__
+   remove(so_path);
+#endif
+
+   if (rename(tmp_path, so_path) != 0)
+      fatal_errno("rename: %s", so_path);
+
    for (int i = 0; i < nobjs ; i++) {
       if (unlink(objs[i]) != 0)
          fatal_errno("unlink: %s", objs[i]);
@@ -367,12 +377,28 @@ static void cgen_jit_pack(ident_t name, jit_t *jit, unit_list_t *units)
 {
    const char *fname LOCAL = xasprintf("_%s.pack", istr(name));
 
-   FILE *f = lib_fopen(lib_work(), fname, "wb");
+   const char *tmpname LOCAL = xasprintf("%s.tmp", fname);
+
+   FILE *f = lib_fopen(lib_work(), tmpname, "wb");
    if (f == NULL)
-      fatal_errno("fopen: %s", fname);
+      fatal_errno("fopen: %s", tmpname);
 
    jit_write_pack(jit, units->items, units->count, f);
-   fclose(f);
+
+   if (fclose(f) != 0)
+      fatal_errno("fclose: %s", tmpname);
+
+   // Only a complete file may be loaded later
+   char tmp_path[PATH_MAX], pack_path[PATH_MAX];
+   lib_realpath(lib_work(), tmpname, tmp_path, sizeof(tmp_path));
+   lib_realpath(lib_work(), fname, pack_path, sizeof(pack_path));
+
+#ifdef __MINGW32__
+   remove(pack_path);
+#endif
+
+   if (rename(tmp_path, pack_path) != 0)
+      fatal_errno("rename: %s", pack_path);
 
    progress("writing JIT pack");
 }
diff --git a/src/jit/jit-pack.c b/src/jit/jit-pack.c
index b9bc868..db934ed 100644
--- a/src/jit/jit-pack.c
+++ b/src/jit/jit-pack.c
@@ -689,7 +689,8 @@ void jit_write_pack(jit_t *j, const ident_t *units, size_t count, FILE *f)
    header.filesz = ftell(f);
    header.checksum = sum ^ pack_header_checksum(&header);
 
-   rewind(f);
+   if (fseek(f, 0, SEEK_SET) != 0)
+      fatal_errno("fseek");
 
    write_fully(&header, sizeof(header), &sum, f);
 
-- 
2.43.0


From 5072eb3bd10d6cda651dc0fa783a4f571e7eda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 62/92] fix: exit status of a run that ended exactly at the
 delta cycle limit

---
 src/rt/model.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 0379207..320a131 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -110,6 +110,7 @@ typedef struct _rt_model {
    bool               can_create_delta;
    bool               next_is_delta;
    bool               force_stop;
+   bool               delta_limit;
    unsigned           n_signals;
    heap_t            *eventq_heap;
    ihash_t           *res_memo;
@@ -3423,7 +3424,8 @@ static void reached_iteration_limit(rt_model_t *m)
    diag_hint(d, NULL, "you can increase this limit with $bold$--stop-delta$$");
    diag_emit(d);
 
-   m->force_stop = true;
+   m->delta_limit = true;
+   m->force_stop  = true;
 }
 
 static void sync_event_cache(rt_model_t *m)
@@ -3880,7 +3882,7 @@ int model_exit_status(rt_model_t *m)
    int status;
    if (jit_exit_status(m->jit, &status))
       return status;
-   else if (m->stop_delta > 0 && m->iteration == m->stop_delta)
+   else if (m->delta_limit)
       return EXIT_FAILURE;
    else
       return get_vhdl_assert_exit_status();
-- 
2.43.0


From 43d0a53af1647532f8498a2f3736f48df2d9e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 63/92] fix: accept --stop-delta=0 as documented

---
 src/nvc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvc.c b/src/nvc.c
index 7c9f548..ba90a65 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -666,7 +666,7 @@ static void parse_exit_severity(const char *str)
 static int parse_stop_delta(const char *str)
 {
    const int ival = parse_int(str);
-   if (ival < 1)
+   if (ival < 0)
       fatal("$bold$--stop-delta$$ argument must be greater than zero");
    else if (ival > DELTA_CYCLE_MAX) {
       warnf("the maxmimum number of supported delta cycles is %d",
-- 
2.43.0


From 189b28f64369e6c67a3036243b70eb0cc8391e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 64/92] fix: do not count assertions of speculative resolution
 function calls

---
 src/rt/assert.c | 6 ++++++
 src/rt/assert.h | 1 +
 src/rt/model.c  | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/rt/assert.c b/src/rt/assert.c
index 2bcb43d..5c9156e 100644
--- a/src/rt/assert.c
+++ b/src/rt/assert.c
@@ -516,6 +516,12 @@ void clear_vhdl_assert(void)
       counts[i] = 0;
 }
 
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count)
+{
+   assert(severity <= SEVERITY_FAILURE);
+   counts[severity] = count;
+}
+
 void set_vhdl_assert_enable(vhdl_severity_t severity, bool enable)
 {
    assert(severity <= SEVERITY_FAILURE);
diff --git a/src/rt/assert.h b/src/rt/assert.h
index 54cafcb..5bb041e 100644
--- a/src/rt/assert.h
+++ b/src/rt/assert.h
@@ -33,6 +33,7 @@ void set_status_severity(vhdl_severity_t severity);
 void set_stderr_severity(vhdl_severity_t severity);
 
 int64_t get_vhdl_assert_count(vhdl_severity_t severity);
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count);
 void clear_vhdl_assert(void);
 void set_vhdl_assert_enable(vhdl_severity_t severity, bool enable);
 bool get_vhdl_assert_enable(vhdl_severity_t severity);
diff --git a/src/rt/model.c b/src/rt/model.c
index 320a131..2cdd286 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1032,6 +1032,11 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
 
    const vhdl_severity_t old_severity = set_exit_severity(SEVERITY_NOTE);
 
+   // These calls are speculative: do not count any assertion violations
+   int64_t old_counts[SEVERITY_FAILURE + 1];
+   for (int i = SEVERITY_NOTE; i <= SEVERITY_FAILURE; i++)
+      old_counts[i] = get_vhdl_assert_count(i);
+
    jit_set_silent(m->jit, true);
 
    // Memoise the function for all two value cases
@@ -1075,6 +1080,9 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
    jit_set_silent(m->jit, false);
    jit_reset_exit_status(m->jit);
 
+   for (int i = SEVERITY_NOTE; i <= SEVERITY_FAILURE; i++)
+      set_vhdl_assert_count(i, old_counts[i]);
+
    set_exit_severity(old_severity);
 
    return memo;
-- 
2.43.0


From bf491ca216771f40d2f902aca4751915f0339c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 65/92] fix: FILE_SIZE and FILE_CANSEEK of a closed file
 crashed

---
 src/rt/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..5adf9c8 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -368,7 +368,7 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
    fflush(slot->file);
@@ -386,7 +386,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
-- 
2.43.0


From 3ffa9801b9f737aef0d1a043b1e67c309d1054dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 66/92] fix: FILE_TRUNCATE relative to the end moved the file
 position

---
 src/rt/fileio.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index 5adf9c8..5419fbd 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -278,8 +278,13 @@ void __nvc_truncate(jit_scalar_t *args)
    off_t asize = size, oldpos = ftello(slot->file);
    switch (origin) {
    case FILE_ORIGIN_END:
-      fseek(slot->file, 0, SEEK_END);
-      asize = ftello(slot->file) + size;
+      {
+         file_info_t info;
+         if (!get_handle_info(fileno(slot->file), &info))
+            goto failed;
+
+         asize = info.size + size;
+      }
       break;
    case FILE_ORIGIN_CURRENT:
       asize = oldpos + size;
@@ -289,11 +294,6 @@ void __nvc_truncate(jit_scalar_t *args)
    if (ftruncate(fileno(slot->file), asize) != 0)
       goto failed;
 
-   if (oldpos > asize || origin == FILE_ORIGIN_END) {
-      if (fseeko(slot->file, asize, SEEK_SET) != 0)
-         goto failed;
-   }
-
 #if defined HAVE_FPURGE
    if (fpurge(slot->file) != 0)
       goto failed;
@@ -301,6 +301,10 @@ void __nvc_truncate(jit_scalar_t *args)
    __fpurge(slot->file);
 #endif
 
+   // Must be last as this may fill the stream buffer
+   if (fseeko(slot->file, MIN(oldpos, asize), SEEK_SET) != 0)
+      goto failed;
+
 #endif  // !__MINGW32__
 
    return;
-- 
2.43.0


From 24ef6c2c3f7826fe8cd9a892841f0598ff31095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 67/92] fix: image of extended identifier enumeration literals
 changed case

---
 src/lower.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index abea65b..0ba5a52 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8680,7 +8680,7 @@ static void lower_enum_image_helper(type_t type, vcode_reg_t preg)
       // LRM specifies result is lowercase for enumerated types when
       // the value is a basic identifier
       ident_t id = tree_ident(type_enum_literal(type, i));
-      if (ident_char(id, 0) != '\'')
+      if (ident_char(id, 0) != '\'' && ident_char(id, 0) != '\\')
          id = ident_downcase(id);
 
       vcode_select_block(blocks[i]);
-- 
2.43.0


From 6acf00b735bae65a85589e288b7c19c6347d6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 68/92] fix: to_string of a control character returned its name

---
 src/lower.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 0ba5a52..86e3a77 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10761,6 +10761,23 @@ static void lower_predef_to_string(lower_unit_t *lu, tree_t decl)
    ident_t func = ident_prefix(type_ident(arg_type), ident_new("image"), '$');
    vcode_type_t ctype = vtype_char();
    vcode_type_t rtype = vtype_uarray(1, ctype, ctype);
+
+   if (type_eq(arg_type, type_elem(std_type(NULL, STD_STRING)))) {
+      // The result is always the character itself
+      vcode_reg_t one_reg = emit_const(vtype_offset(), 1);
+      vcode_reg_t mem_reg = emit_alloc(ctype, ctype, one_reg);
+      emit_store_indirect(r0, mem_reg);
+
+      vcode_dim_t dims[] = {
+         { .left  = one_reg,
+           .right = one_reg,
+           .dir   = emit_const(vtype_bool(), RANGE_TO)
+         }
+      };
+      emit_return(emit_wrap(mem_reg, dims, 1));
+      return;
+   }
+
    vcode_reg_t args[] = { context_reg, r0 };
    vcode_reg_t str_reg = emit_fcall(func, rtype, ctype, args, 2);
 
-- 
2.43.0


From c1af83540e628a34fbfd58e63a4871364a27afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 69/92] fix: to_string of real and time overran a buffer or
 lost precision

---
 src/rt/standard.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/rt/standard.c b/src/rt/standard.c
index 0ff6071..fe14fa3 100644
--- a/src/rt/standard.c
+++ b/src/rt/standard.c
@@ -84,10 +84,27 @@ void _std_to_string_time(jit_scalar_t *args, tlab_t *tlab)
               unit);
    }
 
-   static char buf[64];
+   char buf[64];
    if (value % unit == 0)
       checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
                       value / unit, unit_str);
+   else if (unit <= INT64_C(1000000000000000)) {
+      // Every unit up to seconds is a power of ten so this is exact
+      char frac[20];
+      size_t pos = 0, len = 0;
+      int64_t rem = value % unit;
+      for (int64_t scale = unit / 10; scale > 0; scale /= 10) {
+         const int digit = llabs(rem / scale);
+         rem %= scale;
+         frac[pos++] = '0' + digit;
+         if (digit != 0)
+            len = pos;
+      }
+
+      checked_sprintf(buf, sizeof(buf), "%s%"PRIi64".%.*s %s",
+                      value < 0 ? "-" : "", (int64_t)llabs(value / unit),
+                      (int)len, frac, unit_str);
+   }
    else
       checked_sprintf(buf, sizeof(buf), "%.*g %s", DBL_DIG,
                       (double)value / (double)unit, unit_str);
@@ -101,11 +118,11 @@ void _std_to_string_real_digits(jit_scalar_t *args, tlab_t *tlab)
    double value = args[1].real;
    int32_t digits = args[2].integer;
 
-   char buf[32];
+   char *buf LOCAL;
    if (digits == 0)
-      checked_sprintf(buf, sizeof(buf), "%.17g", value);
+      buf = xasprintf("%.17g", value);
    else
-      checked_sprintf(buf, sizeof(buf), "%.*f", digits, value);
+      buf = xasprintf("%.*f", digits, value);
 
    ffi_return_string(buf, args, tlab);
 }
@@ -138,8 +155,7 @@ void _std_to_string_real_format(jit_scalar_t *args, tlab_t *tlab)
       }
    }
 
-   char buf[64];
-   checked_sprintf(buf, sizeof(buf), fmt_cstr, value);
+   char *buf LOCAL = xasprintf(fmt_cstr, value);
 
    ffi_return_string(buf, args, tlab);
 }
-- 
2.43.0


From f339edc01a65ec04e6111b3b579c87d1fd3c60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 70/92] fix: 'value misread malformed, out of range and extreme
 text

---
 lib/nvc/text_util-body.vhd | 100 ++++++++++++++++++++-----------------
 lib/nvc/text_util.vhd      |   1 +
 src/lower.c                |   8 ++-
 3 files changed, 62 insertions(+), 47 deletions(-)

diff --git a/lib/nvc/text_util-body.vhd b/lib/nvc/text_util-body.vhd
index d2c41ac..0db91a5 100644
--- a/lib/nvc/text_util-body.vhd
+++ b/lib/nvc/text_util-body.vhd
@@ -175,25 +175,25 @@ package body text_util is
         constant length  : natural := s'length;
         alias ss         : string(1 to length) is s;
         variable result  : string(1 to length);
-        variable trimmed : positive := 1;
-        variable char    : character;
-        variable upcase  : boolean := true;
+        variable first   : positive := 1;
+        variable last    : natural := length;
+        variable keep    : boolean;
     begin
-        for i in 1 to length loop
-            char := ss(i);
-            if isspace(char) then
-                next;
-            elsif char = ''' then
-                upcase := not upcase;
-            end if;
-            if upcase then
-                result(trimmed) := toupper(char);
-            else
-                result(trimmed) := char;
-            end if;
-            trimmed := trimmed + 1;
+        -- Only leading and trailing spaces are ignored
+        while first <= last and isspace(ss(first)) loop
+            first := first + 1;
+        end loop;
+        while first <= last and isspace(ss(last)) loop
+            last := last - 1;
         end loop;
-        return result(1 to trimmed - 1);
+        -- Case matters in character literals and extended identifiers
+        keep := first <= last and (ss(first) = ''' or ss(first) = '\');
+        result(1 to last - first + 1) := ss(first to last);
+        for i in 1 to last - first + 1 loop
+            next when keep;
+            result(i) := toupper(result(i));
+        end loop;
+        return result(1 to last - first + 1);
     end function;
 
     procedure string_to_int (s     : in string;
@@ -207,7 +207,6 @@ package body text_util is
         variable result      : t_int64 := 0;
         variable num_digits  : natural;
         constant ascii_zero  : natural := character'pos('0');
-        variable ascii_value : natural;
         variable digit       : natural;
     begin
         while pos <= length and isspace(ss(pos)) loop
@@ -221,18 +220,13 @@ package body text_util is
 
         while pos <= length and (isdigit(ss(pos)) or ss(pos) = '_') loop
             if ss(pos) /= '_' then
-                ascii_value := character'pos(ss(pos));
-                digit := ascii_value - ascii_zero;
-                if result >= 0 then
-                    result := (result * 10) + t_int64(digit);
-                else
-                    result := (result * 10) - t_int64(digit);
-                end if;
-                if is_negative and result > 0 then
-                    -- Negate now to avoid problems around INTEGER'LOW
-                    result := -result;
-                    is_negative := false;
-                end if;
+                digit := character'pos(ss(pos)) - ascii_zero;
+                -- Accumulate the negated value to avoid problems around
+                -- INTEGER'LOW
+
+                assert result >= (t_int64'low + t_int64(digit)) / 10
+                    report "value out of range: " & s severity failure;
+                result := (result * 10) - t_int64(digit);
                 num_digits := num_digits + 1;
             end if;
             pos := pos + 1;
@@ -241,6 +235,12 @@ package body text_util is
         assert num_digits > 0
             report "invalid integer value """ & s & """" severity failure;
 
+        if not is_negative then
+            assert result > t_int64'low
+                report "value out of range: " & s severity failure;
+            result := -result;
+        end if;
+
         used := pos - 1;
         value := result;
     end procedure;
@@ -356,36 +356,36 @@ package body text_util is
         pos := p_exp;
         if pos <= length and (ss(pos) = 'E' or ss(pos) = 'e') then
             pos := pos + 1;
-            if ss(pos) = '-' then
-                exp_sign := true;
-                pos := pos + 1;
-            elsif ss(pos) = '+' then
+            if pos <= length and (ss(pos) = '-' or ss(pos) = '+') then
+                exp_sign := ss(pos) = '-';
                 pos := pos + 1;
             end if;
-            char := ss(pos);
-            while pos <= length and isdigit(char) loop
-                exp := exp * 10 + (character'pos(char) - ascii_zero);
+
+            assert pos <= length and isdigit(ss(pos))
+                report "missing exponent: " & s severity failure;
+            while pos <= length and isdigit(ss(pos)) loop
+                exp := exp * 10 + (character'pos(ss(pos)) - ascii_zero);
                 pos := pos + 1;
             end loop;
         end if;
 
         if exp_sign then
-            exp := frac_exp - exp;
-        else
-            exp := frac_exp + exp;
+            exp := -exp;
         end if;
 
         -- Generate a floating-point number that represents the exponent
-        if exp < 0 then
-            exp_sign := true;
-            exp := -exp;
-        else
-            exp_sign := false;
-        end if;
+        exp_sign := frac_exp + exp < 0;
+        exp := abs (frac_exp + exp);
 
         assert exp <= max_exponent
             report "exponent too large: " & s severity failure;
 
+        if exp_sign and exp > 256 then
+            -- The power of ten may not be representable
+            fraction := fraction / 1.0e256;
+            exp := exp - 256;
+        end if;
+
         dbl_exp := 1.0;
         for d in powers_of_10'range loop
             exit when exp = 0;
@@ -443,4 +443,12 @@ package body text_util is
     begin
         assert false severity failure;
     end function;
+
+    function scale_unit (value, unit : t_int64) return t_int64 is
+    begin
+        assert value <= t_int64'high / unit and value >= t_int64'low / unit
+            report "value out of range" severity failure;
+        return value * unit;
+    end function;
+
 end package body;
diff --git a/lib/nvc/text_util.vhd b/lib/nvc/text_util.vhd
index 0054d87..7353156 100644
--- a/lib/nvc/text_util.vhd
+++ b/lib/nvc/text_util.vhd
@@ -36,6 +36,7 @@ package text_util is
     function string_to_int (s : string) return t_int64;
     procedure string_to_int (s : in string; value : out t_int64;
                              used : out natural);
+    function scale_unit (value, unit : t_int64) return t_int64;
     function string_to_real (s : string) return real;
     function int_to_string (x : t_int64) return string;
     function real_to_string (x : real) return string;
diff --git a/src/lower.c b/src/lower.c
index 86e3a77..a604357 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -9382,7 +9382,13 @@ static void lower_physical_value_helper(lower_unit_t *lu, type_t type,
 
    vcode_reg_t mul_ptr = emit_array_ref(mul_array_ptr, i_reg);
    vcode_reg_t mul_reg = emit_load_indirect(mul_ptr);
-   vcode_reg_t result_reg = emit_mul(int_reg, mul_reg);
+
+   ident_t scale_fn =
+      ident_new("NVC.TEXT_UTIL.SCALE_UNIT(21NVC.TEXT_UTIL.T_INT64"
+                "21NVC.TEXT_UTIL.T_INT64)21NVC.TEXT_UTIL.T_INT64");
+   vcode_reg_t scale_args[] = { text_util_reg, int_reg, mul_reg };
+   vcode_reg_t result_reg = emit_fcall(scale_fn, vint64, vint64,
+                                       scale_args, ARRAY_LEN(scale_args));
 
    lower_check_scalar_bounds(lu, result_reg, type, decl, NULL);
    emit_return(emit_cast(vtype, vbounds, result_reg));
-- 
2.43.0


From 1c8876b6f57014236086df13502606b982ec5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 71/92] fix: textio read of integer, real and time misread
 malformed and extreme text

---
 lib/std/textio-body.vhd | 249 ++++++++++++++++++++++++++++++----------
 1 file changed, 191 insertions(+), 58 deletions(-)

diff --git a/lib/std/textio-body.vhd b/lib/std/textio-body.vhd
index ab9e6d6..e315b1e 100644
--- a/lib/std/textio-body.vhd
+++ b/lib/std/textio-body.vhd
@@ -115,12 +115,14 @@ package body textio is
     end function;
 
     function strcasecmp (x, y : string) return boolean is
+        alias xx : string(1 to x'length) is x;
+        alias yy : string(1 to y'length) is y;
     begin
         if x'length /= y'length then
             return false;
         else
             for i in 1 to x'length loop
-                if tolower(x(i)) /= tolower(y(i)) then
+                if tolower(xx(i)) /= tolower(yy(i)) then
                     return false;
                 end if;
             end loop;
@@ -254,8 +256,10 @@ package body textio is
                     good  : out boolean ) is
         variable pos         : integer := 1;
         variable digit       : integer;
+        variable num_digits  : natural := 0;
         variable result      : integer := 0;
         variable is_negative : boolean := false;
+        variable overflow    : boolean := false;
         variable peek        : character;
     begin
         skip_whitespace(l);
@@ -276,18 +280,26 @@ package body textio is
             exit when peek < '0' or peek > '9';
             digit := character'pos(peek) - character'pos('0');
             if is_negative then
-              digit := -digit;
+                overflow := overflow
+                    or result < (integer'low + digit) / 10;
+                digit := -digit;
+            else
+                overflow := overflow
+                    or result > (integer'high - digit) / 10;
+            end if;
+            if not overflow then
+                result := (result * 10) + digit;
             end if;
-            result := (result * 10) + digit;
+            num_digits := num_digits + 1;
             pos := pos + 1;
         end loop;
 
-        if is_negative and pos = 2 then
-          -- Single dash without trailing digit is not good
+        if num_digits = 0 then
+          -- Single sign without trailing digit is not good
           pos := 1;
         end if;
 
-        good := pos > 1;
+        good := num_digits > 0 and not overflow;
         value := result;
         consume(l, pos - 1);
     end procedure;
@@ -304,58 +316,107 @@ package body textio is
     procedure read (l     : inout line;
                     value : out real;
                     good  : out boolean ) is
-        variable whole    : integer;
-        variable exponent : integer;
-        variable result   : real;
-        variable digit    : integer;
-        variable shift    : integer := 1;
-        variable pos      : integer := 2;
-        variable sign     : character;
-        variable rgood    : boolean;
-        variable peek     : character;
+        constant max_exponent : integer := 9999;
+        variable result       : real := 0.0;
+        variable num_digits   : natural := 0;
+        variable shift        : integer := 0;
+        variable exponent     : integer := 0;
+        variable exp_neg      : boolean := false;
+        variable pos          : integer := 1;
+        variable is_negative  : boolean := false;
+
+        impure function peek (c : character) return boolean is
+        begin
+            return pos <= l.all'length and get_char(l.all, pos) = c;
+        end function;
+
+        impure function digit return integer is
+            variable c : character;
+        begin
+            if pos <= l.all'length then
+                c := get_char(l.all, pos);
+                if c >= '0' and c <= '9' then
+                    return character'pos(c) - character'pos('0');
+                end if;
+            end if;
+            return -1;
+        end function;
+
+        procedure mantissa is
+        begin
+            num_digits := 0;
+            while digit >= 0 loop
+                result := result * 10.0 + real(digit);
+                num_digits := num_digits + 1;
+                pos := pos + 1;
+            end loop;
+        end procedure;
     begin
+        good := false;
         skip_whitespace(l);
-        peek := get_char(l.all, 1);
-        if l.all'length > 0 and (peek = '-' or peek = '+') then
-            sign := get_char(l.all, 1);
-            consume(l, 1);
+
+        if peek('-') or peek('+') then
+            is_negative := peek('-');
+            pos := pos + 1;
         end if;
-        read(l, whole, rgood);
-        if not rgood then
-            good := false;
+
+        mantissa;
+        if num_digits = 0 then
             return;
         end if;
-        result := real(whole);
-        good := true;
-        if l.all'length > 0 and get_char(l.all, 1) = '.' then
-            while pos <= l.all'length loop
-                peek := get_char(l.all, pos);
-                exit when peek < '0' or peek > '9';
-                digit := character'pos(peek) - character'pos('0');
-                result := result + (real(digit) * (10.0 ** (-shift)));
-                shift := shift + 1;
+
+        if peek('.') then
+            pos := pos + 1;
+            mantissa;
+            if num_digits = 0 then
+                consume(l, pos - 1);
+                return;
+            end if;
+            shift := num_digits;
+        end if;
+
+        if peek('e') or peek('E') then
+            pos := pos + 1;
+            if peek('-') or peek('+') then
+                exp_neg := peek('-');
+                pos := pos + 1;
+            end if;
+            if digit < 0 then
+                consume(l, pos - 1);
+                return;
+            end if;
+            while digit >= 0 loop
+                exponent := minimum(exponent * 10 + digit, max_exponent);
                 pos := pos + 1;
             end loop;
-            good := pos > 2;
-            consume(l, pos - 1);
-        end if;
-        if l.all'length > 0 then
-            peek := get_char(l.all, 1);
-            if (peek = 'e' or peek = 'E') then
-                consume(l, 1);
-                read(l, exponent, rgood);
-                if not rgood then
-                    good := false;
-                    return;
-                end if;
-                result := result * (10.0 ** exponent);
+            if exp_neg then
+                exponent := -exponent;
+            end if;
+        end if;
+
+        consume(l, pos - 1);
+
+        exponent := exponent - shift;
+        while exponent < -300 and result /= 0.0 loop
+            result := result / 1.0e300;
+            exponent := exponent + 300;
+        end loop;
+        if exponent < 0 then
+            result := result / (10.0 ** (-exponent));
+        elsif result /= 0.0 then
+            -- The value may be too large to represent
+            if exponent > 308 or result > real'high / (10.0 ** exponent) then
+                return;
             end if;
+            result := result * (10.0 ** exponent);
         end if;
-        if sign = '-' then
+
+        if is_negative then
             value := -result;
         else
             value := result;
         end if;
+        good := true;
     end procedure;
 
     procedure read (l     : inout line;
@@ -410,26 +471,98 @@ package body textio is
             ( "min", 3, min ),
             ( "hr ", 2, hr ) );
 
-        variable scale, len : integer;
-        variable scale_good : boolean;
+        variable pos, len    : integer := 1;
+        variable first, last : natural;
+        variable unit        : time := 0 fs;
+        variable scale       : time;
+        variable result      : time := 0 fs;
+        variable digit       : integer;
+        variable is_negative : boolean;
+
+        impure function peek (n : positive) return character is
+        begin
+            if n <= l.all'length then
+                return get_char(l.all, n);
+            else
+                return NUL;
+            end if;
+        end function;
+
+        impure function is_digit (n : positive) return boolean is
+        begin
+            return peek(n) >= '0' and peek(n) <= '9';
+        end function;
     begin
         good := false;
         skip_whitespace(l);
-        read(l, scale, scale_good);
-        if not scale_good then
+        if peek(pos) = '-' or peek(pos) = '+' then
+            is_negative := peek(pos) = '-';
+            pos := pos + 1;
+        end if;
+        first := pos;
+        while is_digit(pos) loop
+            pos := pos + 1;
+        end loop;
+        if pos = first then
             return;
         end if;
-        skip_whitespace(l);
+        if peek(pos) = '.' then
+            if not is_digit(pos + 1) then
+                return;
+            end if;
+            pos := pos + 1;
+            while is_digit(pos) loop
+                pos := pos + 1;
+            end loop;
+        end if;
+        last := pos - 1;
+        while pos <= l.all'length and is_whitespace(peek(pos)) loop
+            pos := pos + 1;
+        end loop;
         for i in unit_map'range loop
             len := unit_map(i).length;
-            if l'length >= len
-                and strcasecmp(get_slice(l.all, 1, len), unit_map(i).name(1 to len))
+            if l'length >= pos + len - 1
+                and strcasecmp(get_slice(l.all, pos, pos + len - 1),
+                               unit_map(i).name(1 to len))
             then
-                value := scale * unit_map(i).unit;
-                consume(l, len);
-                good := true;
+                unit := unit_map(i).unit;
+                pos := pos + len;
+                exit;
             end if;
         end loop;
+        if unit = 0 fs then
+            return;
+        end if;
+        scale := unit;
+        for i in first to last loop
+            if peek(i) = '.' then
+                scale := scale / 10;
+            else
+                digit := character'pos(peek(i)) - character'pos('0');
+                if scale = unit then
+                    if result > time'high / 10 then
+                        return;         -- Not representable
+                    end if;
+                    result := result * 10;
+                end if;
+                for j in 1 to digit loop
+                    if result > time'high - scale then
+                        return;         -- Not representable
+                    end if;
+                    result := result + scale;
+                end loop;
+                if scale < unit then
+                    scale := scale / 10;
+                end if;
+            end if;
+        end loop;
+        if is_negative then
+            value := -result;
+        else
+            value := result;
+        end if;
+        consume(l, pos - 1);
+        good := true;
     end procedure;
 
     procedure read (l     : inout line;
@@ -449,7 +582,7 @@ package body textio is
         alias avalue  : string(1 to value'length) is value;
     begin
         skip_whitespace(l);
-        while pos <= l'right and pos <= avalue'right loop
+        while pos <= l'length and pos <= avalue'right loop
             peek := get_char(l.all, pos);
             exit when is_whitespace(peek);
             avalue(pos) := peek;
@@ -474,7 +607,7 @@ package body textio is
         good := false;
         avalue := (others => '0');
         skip_whitespace(l);
-        while ipos <= l'right and opos <= digits'right loop
+        while ipos <= l'length and opos <= digits'right loop
             char := get_char(l.all, ipos);
             ipos := ipos + 1;
             if char = '_' and underscore then
@@ -546,7 +679,7 @@ package body textio is
         good := false;
         avalue := (others => '0');
         skip_whitespace(l);
-        while ipos <= l'right and opos <= digits'right loop
+        while ipos <= l'length and opos <= digits'right loop
             char := get_char(l.all, ipos);
             ipos := ipos + 1;
             if char = '_' and underscore then
-- 
2.43.0


From 0653851d4f065aceeefa18d83b4456fb2cab1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 72/92] fix: wave dump filter with a trailing * did not match
 the empty string

---
 src/ident.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ident.c b/src/ident.c
index 5d6b08c..3e11768 100644
--- a/src/ident.c
+++ b/src/ident.c
@@ -624,8 +624,11 @@ int ident_compare(ident_t a, ident_t b)
 
 static bool ident_glob_walk(const char *str, const char *g)
 {
-   if (*str == '\0')
+   if (*str == '\0') {
+      while (*g == '*')
+         g++;   // Matches zero characters
       return *g == '\0';
+   }
    else if (*g == '\0')
       return false;
    else if (*g == '*')
-- 
2.43.0


From b3542a9d618bad1b298ae13cce919441dcaf7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 73/92] fix: division by zero in the bit width of descending
 integer types

---
 src/type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/type.c b/src/type.c
index ca1110c..3450a59 100644
--- a/src/type.c
+++ b/src/type.c
@@ -1028,9 +1028,9 @@ int type_bit_width(type_t type)
    case T_INTEGER:
    case T_PHYSICAL:
       {
-         tree_t r = range_of(type, 0);
-         return bits_for_range(assume_int(tree_left(r)),
-                               assume_int(tree_right(r)));
+         int64_t low, high;
+         range_bounds(range_of(type, 0), &low, &high);
+         return bits_for_range(low, high);
       }
 
    case T_REAL:
-- 
2.43.0


From 205c3ef780bcaf49e661693e9c509a22c16d556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 74/92] fix: waveform dumps showed the wrong part of signals
 connected to ports

---
 src/jit/jit-exits.c |   7 +-
 src/jit/jit-exits.h |   2 +-
 src/jit/jit-irgen.c |   4 +-
 src/rt/model.c      |  15 ++-
 src/rt/model.h      |   1 +
 src/rt/structs.h    |   1 +
 src/rt/wave.c       | 221 +++++++++++++++++++++++++++++---------------
 7 files changed, 172 insertions(+), 79 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index 1706030..f727641 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -536,10 +536,11 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_ALIAS_SIGNAL:
       {
-         sig_shared_t *ss    = args[0].pointer;
-         tree_t        where = args[1].pointer;
+         sig_shared_t *ss     = args[0].pointer;
+         int32_t       offset = args[1].integer;
+         tree_t        where  = args[2].pointer;
 
-         x_alias_signal(ss, where);
+         x_alias_signal(ss, offset, where);
       }
       break;
 
diff --git a/src/jit/jit-exits.h b/src/jit/jit-exits.h
index 734ea82..16c41c0 100644
--- a/src/jit/jit-exits.h
+++ b/src/jit/jit-exits.h
@@ -39,7 +39,7 @@ int32_t x_test_net_event(sig_shared_t *ss, uint32_t offset, int32_t count);
 int32_t x_test_net_active(sig_shared_t *ss, uint32_t offset,
                           int32_t count);
 void x_sched_event(sig_shared_t *ss, uint32_t offset, int32_t count);
-void x_alias_signal(sig_shared_t *ss, tree_t where);
+void x_alias_signal(sig_shared_t *ss, uint32_t offset, tree_t where);
 void x_sched_waveform_s(sig_shared_t *ss, uint32_t offset, uint64_t scalar,
                         int64_t after, int64_t reject);
 void x_file_open(int8_t *status, void **_fp, const uint8_t *name_bytes,
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index d39c903..4eeb034 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -2853,10 +2853,12 @@ static void irgen_op_implicit_signal(jit_irgen_t *g, mir_value_t n)
 static void irgen_op_alias_signal(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t shared = irgen_get_arg(g, n, 0);
+   jit_value_t offset = jit_value_from_reg(jit_value_as_reg(shared) + 1);
    jit_value_t locus  = irgen_get_arg(g, n, 1);
 
    j_send(g, 0, shared);
-   j_send(g, 1, locus);
+   j_send(g, 1, offset);
+   j_send(g, 2, locus);
 
    macro_exit(g, JIT_EXIT_ALIAS_SIGNAL);
 }
diff --git a/src/rt/model.c b/src/rt/model.c
index 2cdd286..7c69873 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -679,6 +679,16 @@ rt_signal_t *find_signal(rt_scope_t *scope, tree_t decl)
    return NULL;
 }
 
+rt_alias_t *find_alias(rt_scope_t *scope, tree_t decl)
+{
+   for (int i = 0; i < scope->aliases.count; i++) {
+      if (scope->aliases.items[i]->where == decl)
+         return scope->aliases.items[i];
+   }
+
+   return NULL;
+}
+
 rt_proc_t *find_proc(rt_scope_t *scope, tree_t proc)
 {
    for (int i = 0; i < scope->procs.count; i++) {
@@ -4305,17 +4315,18 @@ void x_enter_state(int32_t state, bool strong)
    prop->strong |= strong;
 }
 
-void x_alias_signal(sig_shared_t *ss, tree_t where)
+void x_alias_signal(sig_shared_t *ss, uint32_t offset, tree_t where)
 {
    rt_signal_t *s = container_of(ss, rt_signal_t, shared);
    RT_LOCK(s->lock);
 
-   TRACE("alias signal %s to %s", istr(tree_ident(s->where)),
+   TRACE("alias signal %s+%d to %s", istr(tree_ident(s->where)), offset,
          istr(tree_ident(where)));
 
    rt_alias_t *a = xcalloc(sizeof(rt_alias_t));
    a->where  = where;
    a->signal = s;
+   a->offset = offset;
 
    model_thread_t *thread = model_thread(get_model());
    APUSH(thread->active_scope->aliases, a);
diff --git a/src/rt/model.h b/src/rt/model.h
index 2e381f3..008aa30 100644
--- a/src/rt/model.h
+++ b/src/rt/model.h
@@ -61,6 +61,7 @@ rt_scope_t *root_scope(rt_model_t *m);
 rt_scope_t *child_scope(rt_scope_t *scope, tree_t decl);
 rt_scope_t *child_scope_at(rt_scope_t *scope, int index);
 rt_signal_t *find_signal(rt_scope_t *scope, tree_t decl);
+rt_alias_t *find_alias(rt_scope_t *scope, tree_t decl);
 rt_proc_t *find_proc(rt_scope_t *scope, tree_t proc);
 bool is_signal_scope(rt_scope_t *scope);
 rt_scope_t *create_scope(rt_model_t *m, tree_t block, rt_scope_t *parent);
diff --git a/src/rt/structs.h b/src/rt/structs.h
index 136b6df..15c7e5b 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -250,6 +250,7 @@ typedef struct _rt_alias {
    rt_alias_t  *chain;
    tree_t       where;
    rt_signal_t *signal;
+   uint32_t     offset;
 } rt_alias_t;
 
 typedef enum {
diff --git a/src/rt/wave.c b/src/rt/wave.c
index 71766a9..4272e25 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -82,8 +82,11 @@ typedef struct _fst_data {
    rt_watch_t    *watch;
    tree_t         decl;
    rt_signal_t   *signal;
+   unsigned       offset;
+   unsigned       length;
    unsigned       size;
    unsigned       count;
+   bool           composite;
    fstHandle      handle[];
 } fst_data_t;
 
@@ -113,6 +116,7 @@ typedef struct _wave_dumper {
    uint64_t       last_time;
    jit_t         *jit;
    hash_t        *typecache;
+   hash_t        *primary;
    data_array_t   dumped;
 } wave_dumper_t;
 
@@ -188,14 +192,55 @@ static inline void fst_write_binary(uint64_t val, size_t size, char *buf)
    buf[size] = '\0';
 }
 
+static int64_t fst_read_value(fst_data_t *data, int nth)
+{
+   const void *base = signal_value(data->signal);
+   const size_t index = data->offset + nth;
+
+#define FST_READ_VALUE(type) return ((const type *)base)[index]
+
+   switch (data->signal->nexus.size) {
+   case 1: FST_READ_VALUE(int8_t);
+   case 2: FST_READ_VALUE(int16_t);
+   case 4: FST_READ_VALUE(int32_t);
+   case 8: FST_READ_VALUE(int64_t);
+   default: should_not_reach_here();
+   }
+}
+
+static void fst_emit_strings(fst_data_t *data, void (*fn)(fst_data_t *data,
+                                                          int nth,
+                                                          text_buf_t *tb))
+{
+   LOCAL_TEXT_BUF tb = tb_new();
+
+   for (int i = 0, nth = 0; i < data->count; i++) {
+      tb_rewind(tb);
+
+      if (data->composite) {
+         for (int j = 0; j < data->length; j++) {
+            tb_append(tb, j == 0 ? '(' : ',');
+            (*fn)(data, nth++, tb);
+         }
+         if (data->length > 0)
+            tb_append(tb, ')');
+      }
+      else
+         (*fn)(data, nth++, tb);
+
+      fstWriterEmitVariableLengthValueChange(
+         data->dumper->fst_ctx, data->handle[i], tb_get(tb), tb_len(tb));
+   }
+}
+
 static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val[data->count];
-   signal_expand(data->signal, val, data->count);
+   char *buf LOCAL = xmalloc(data->size + 1);
 
-   for (int i = 0; i < data->count; i++) {
-      char buf[data->type->size + 1];
-      fst_write_binary(val[i], data->type->size, buf);
+   for (int i = 0, nth = 0; i < data->count; i++) {
+      for (int j = 0; j < data->length; j++, nth++)
+         fst_write_binary(fst_read_value(data, nth), data->type->size,
+                          buf + j * data->type->size);
 
       fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i], buf);
    }
@@ -203,30 +248,31 @@ static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 
 static void fst_fmt_real(rt_watch_t *w, fst_data_t *data)
 {
-   const void *buf = signal_value(data->signal);
-   fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[0], buf);
+   const double *p = signal_value(data->signal);
+   for (int i = 0; i < data->count; i++)
+      fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i],
+                               p + data->offset + i);
 }
 
-static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
+static void fst_print_physical(fst_data_t *data, int nth, text_buf_t *tb)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   const int64_t val = fst_read_value(data, nth);
 
    fst_unit_t *unit = data->type->u.units;
    while ((val % unit->mult) != 0)
       ++unit;
 
-   char buf[128];
-   checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
-                   val / unit->mult, unit->name);
+   tb_printf(tb, "%"PRIi64" %s", val / unit->mult, unit->name);
+}
 
-   fstWriterEmitVariableLengthValueChange(
-      data->dumper->fst_ctx, data->handle[0], buf, strlen(buf));
+static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
+{
+   fst_emit_strings(data, fst_print_physical);
 }
 
 static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
 {
-   const uint8_t *p = signal_value(data->signal);
+   const uint8_t *p = signal_value(data->signal) + data->offset;
    for (int i = 0; i < data->count; i++, p += data->size) {
       if (likely(data->type->u.map != NULL)) {
          char buf[data->size];
@@ -241,19 +287,20 @@ static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
 }
 
 #if !USE_FST_ENUMS
-static void fst_fmt_enum(rt_watch_t *w, fst_data_t *data)
+static void fst_print_enum(fst_data_t *data, int nth, text_buf_t *tb)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   const size_t size = data->signal->nexus.size;
+   const uint64_t val = fst_read_value(data, nth) & (~UINT64_C(0) >> (64 - size * 8));
 
    fst_enum_t *e = &(data->type->u.literals);
    assert(val < e->count);
 
-   const char *literal = e->strings + val * e->size;
-   fstWriterEmitVariableLengthValueChange(data->dumper->fst_ctx,
-                                          data->handle[0],
-                                          literal,
-                                          strnlen(literal, e->size));
+   tb_cat(tb, e->strings + val * e->size);
+}
+
+static void fst_fmt_enum(rt_watch_t *w, fst_data_t *data)
+{
+   fst_emit_strings(data, fst_print_enum);
 }
 #endif
 
@@ -316,6 +363,11 @@ static fst_type_t *fst_type_for(wave_dumper_t *wd, type_t type,
          case W_STD_NATURAL:  ft->sdt = FST_SDT_VHDL_NATURAL; break;
          case W_STD_POSITIVE: ft->sdt = FST_SDT_VHDL_POSITIVE; break;
          case W_IEEE_LOGIC:   ft->sdt = FST_SDT_VHDL_STD_LOGIC; break;
+         case W_IEEE_SIGNED:   ft->sdt = FST_SDT_VHDL_SIGNED; break;
+         case W_IEEE_UNSIGNED: ft->sdt = FST_SDT_VHDL_UNSIGNED; break;
+         case W_IEEE_LOGIC_VECTOR:
+            ft->sdt = FST_SDT_VHDL_STD_LOGIC_VECTOR;
+            break;
          default: break;
          }
       }
@@ -410,6 +462,8 @@ static fst_type_t *fst_type_for(wave_dumper_t *wd, type_t type,
          for (int i = 0; i < nlits; i++) {
             char *p = ft->u.literals.strings + i*maxsize;
             strncpy(p, istr(tree_ident(type_enum_literal(type, i))), maxsize);
+            if (*p == '\'' || *p == '\\')
+               continue;   // Case is significant
             for (; *p; p++)
                *p = tolower_iso88591(*p);
          }
@@ -582,8 +636,26 @@ static void fst_create_memory(wave_dumper_t *wd, fst_data_t *data, int *pos,
    }
 }
 
-static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
-                                 type_t type, text_buf_t *tb)
+static void fst_watch_signal(wave_dumper_t *wd, fst_data_t *data, tree_t d,
+                             rt_signal_t *s, unsigned offset)
+{
+   data->decl   = d;
+   data->signal = s;
+   data->offset = offset;
+   data->dumper = wd;
+   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
+
+   model_set_event_cb(wd->model, data->signal, data->watch);
+
+   if (s->where == d)
+      hash_put(wd->primary, s, data);
+
+   APUSH(wd->dumped, data);
+}
+
+static void fst_create_array_var(wave_dumper_t *wd, tree_t d,
+                                 rt_scope_t *scope, rt_signal_t *s,
+                                 unsigned offset, type_t type, text_buf_t *tb)
 {
    enum fstVarDir vd = FST_VD_IMPLICIT;
    if (tree_kind(d) == T_PORT_DECL) {
@@ -597,8 +669,7 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
    int64_t left, right, length;
    range_kind_t dir;
-   fst_get_array_range(wd, type, s->parent, s->where, 0, &left, &right,
-                       &dir, &length);
+   fst_get_array_range(wd, type, scope, d, 0, &left, &right, &dir, &length);
 
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
@@ -618,6 +689,11 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       data->size  = length * ft->size;
       data->count = 1;
 
+#if !USE_FST_ENUMS
+      data->length    = length;
+      data->composite = (ft->fn == fst_fmt_enum);
+#endif
+
       data->handle[0] = fst_create_handle(wd, data, tb_get(tb), vd, type, 0);
 
       if (wd->gtkw != NULL)
@@ -631,6 +707,11 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       fst_type_t *ft = fst_type_for(wd, elem, tree_loc(d));
       if (ft == NULL)
          return;
+      else if (ft->fn == fst_fmt_real) {
+         warn_at(tree_loc(d), "cannot represent arrays of array of type %s "
+                 "in FST format", type_pp(elem));
+         return;
+      }
 
       SCOPED_A(fst_dim_t) dims = AINIT;
 
@@ -644,7 +725,7 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
          fst_dim_t dim;
          assert(dimension_of(e) == 1);
-         fst_get_array_range(wd, e, s->parent, s->where, dims.count,
+         fst_get_array_range(wd, e, scope, d, dims.count,
                              &dim.msb, &dim.lsb, &dim.dir, &dim.length);
 
          APUSH(dims, dim);
@@ -652,9 +733,12 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       }
 
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
-      data->count = length;
-      data->size  = e_length * ft->size;
-      data->type  = ft;
+      data->count     = length;
+      data->length    = e_length;
+      data->size      = e_length * ft->size;
+      data->type      = ft;
+      data->composite = ft->vartype == FST_VT_GEN_STRING
+         && ft->fn != fst_fmt_chars;
 
       tb_rewind(tb);
       tb_istr(tb, tree_ident(d));
@@ -674,9 +758,10 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
          return;
 
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
-      data->count = length;
-      data->size  = ft->size;
-      data->type  = ft;
+      data->count  = length;
+      data->length = 1;
+      data->size   = ft->size;
+      data->type   = ft;
 
       tb_rewind(tb);
       tb_istr(tb, tree_ident(d));
@@ -695,20 +780,11 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       fstWriterSetAttrEnd(wd->fst_ctx);
    }
 
-   assert(find_watch(&(s->nexus), fst_event_cb) == NULL);
-
-   data->decl   = d;
-   data->signal = s;
-   data->dumper = wd;
-   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
-
-   model_set_event_cb(wd->model, data->signal, data->watch);
-
-   APUSH(wd->dumped, data);
+   fst_watch_signal(wd, data, d, s, offset);
 }
 
 static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
-                                  type_t type, text_buf_t *tb)
+                                  unsigned offset, type_t type, text_buf_t *tb)
 {
    fst_type_t *ft = fst_type_for(wd, type, tree_loc(d));
    if (ft == NULL)
@@ -717,8 +793,8 @@ static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
    fst_data_t *data = xcalloc(sizeof(fst_data_t) + sizeof(fstHandle));
    data->type   = ft;
    data->count  = 1;
+   data->length = 1;
    data->size   = ft->size;
-   data->dumper = wd;
 
    enum fstVarDir dir = FST_VD_IMPLICIT;
 
@@ -737,15 +813,7 @@ static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
    data->handle[0] = fst_create_handle(wd, data, tb_get(tb), dir, type, 0);
 
-   assert(find_watch(&(s->nexus), fst_event_cb) == NULL);
-
-   data->decl   = d;
-   data->signal = s;
-   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
-
-   model_set_event_cb(wd->model, data->signal, data->watch);
-
-   APUSH(wd->dumped, data);
+   fst_watch_signal(wd, data, d, s, offset);
 
    if (wd->gtkw != NULL)
       fprintf(wd->gtkw->file, "%s.%s\n", tb_get(wd->gtkw->hier), tb_get(tb));
@@ -848,26 +916,33 @@ static void fst_create_record_array_var(wave_dumper_t *wd, tree_t d,
 static void fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
                           rt_signal_t *s, text_buf_t *tb)
 {
-   rt_watch_t *w = find_watch(&(s->nexus), fst_event_cb);
-   if (w == NULL)
-      return;   // Did not dump the primary signal
+   type_t type = tree_type(d);
+   const bool is_array = type_is_array(type);
 
-   fst_data_t *data = w->user_data;
-   if (data->count != 1)
-      return;   // Cannot handle for now
+   int64_t left, right, length = 1;
+   range_kind_t dir;
+   if (is_array)
+      fst_get_array_range(wd, type, scope, d, 0, &left, &right, &dir, &length);
+
+   rt_alias_t *a = find_alias(scope, d);
+   fst_data_t *data = hash_get(wd->primary, s);
+
+   if (data == NULL || data->count != 1 || a->offset != 0
+       || is_array != type_is_array(tree_type(data->decl))
+       || length * s->nexus.size != s->shared.size) {
+      // The other signal is not dumped or has a different shape
+      if (is_array)
+         fst_create_array_var(wd, d, scope, s, a->offset, type, tb);
+      else
+         fst_create_scalar_var(wd, d, s, a->offset, type, tb);
 
-   type_t type = tree_type(d);
+      return;
+   }
 
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
-   if (type_is_array(type)) {
-      int64_t left, right, length;
-      range_kind_t dir;
-      fst_get_array_range(wd, type, scope, d, 0,
-                          &left, &right, &dir, &length);
-
+   if (is_array)
       tb_printf(tb, "[%"PRIi64":%"PRIi64"]", left, right);
-   }
    tb_downcase(tb);
 
    fst_create_handle(wd, data, tb_get(tb), FST_VD_INPUT, type, data->handle[0]);
@@ -894,9 +969,9 @@ static void fst_process_signal(wave_dumper_t *wd, rt_scope_t *scope, tree_t d,
       else if (s->where != d)
          fst_alias_var(wd, d, scope, s, tb);  // Collapsed with another signal
       else if (type_is_array(type))
-         fst_create_array_var(wd, d, s, type, tb);
+         fst_create_array_var(wd, d, scope, s, 0, type, tb);
       else
-         fst_create_scalar_var(wd, d, s, type, tb);
+         fst_create_scalar_var(wd, d, s, 0, type, tb);
    }
    else if (type_is_record(type)) {
       rt_scope_t *sub = child_scope(scope, d);
@@ -1091,6 +1166,7 @@ wave_dumper_t *wave_dumper_new(const char *file, const char *gtkw_file,
    wd->top       = top;
    wd->last_time = UINT64_MAX;
    wd->typecache = hash_new(128);
+   wd->primary   = hash_new(128);
 
    if (format == WAVE_FORMAT_VCD) {
 #if defined __CYGWIN__ || defined __MINGW32__
@@ -1145,6 +1221,7 @@ void wave_dumper_free(wave_dumper_t *wd)
    ACLEAR(wd->dumped);
 
    hash_free(wd->typecache);
+   hash_free(wd->primary);
    free(wd);
 }
 
-- 
2.43.0


From d12832ec0bb17a7712888d669da09a3d74eb383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 75/92] fix: ignore-arrays-from and threshold cover options
 could not be followed by others

---
 src/nvc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nvc.c b/src/nvc.c
index ba90a65..84d07bc 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -351,10 +351,11 @@ static void parse_cover_options(const char *str, cover_mask_t *mask,
 
    for (const char *start = str; ; str++) {
       if (*str == ',' || *str == '\0') {
-         if (strncmp(start, "ignore-arrays-from-", 19) == 0)
-            *array_limit = parse_int(start + 19);
-         else if (strncmp(start, "threshold-", 10) == 0)
-            *threshold = parse_int(start + 10);
+         char *opt LOCAL = xstrndup(start, str - start);
+         if (strncmp(opt, "ignore-arrays-from-", 19) == 0)
+            *array_limit = parse_int(opt + 19);
+         else if (strncmp(opt, "threshold-", 10) == 0)
+            *threshold = parse_int(opt + 10);
          else {
             int pos = 0;
             for (; pos < ARRAY_LEN(options); pos++) {
-- 
2.43.0


From ed7044a8c873298c8424db2cdf4daa8801364b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 76/92] fix: use of freed unit registry after elaboration

---
 src/nvc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nvc.c b/src/nvc.c
index 84d07bc..eadc912 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -591,10 +591,16 @@ static int elaborate(int argc, char **argv, cmd_state_t *state)
       // Must discard current JIT state to load AOT library later
       model_free(state->model);
       jit_free(state->jit);
-      mir_context_free(state->mir);
       state->jit = NULL;
       state->model = NULL;
-      state->mir = NULL;
+
+      if (!use_jit || !no_save) {
+         // The registry holds a pointer to the MIR context
+         unit_registry_free(state->registry);
+         mir_context_free(state->mir);
+         state->registry = NULL;
+         state->mir = NULL;
+      }
    }
 
    argc -= next_cmd - 1;
-- 
2.43.0


From a1f94509019a45b7686d7f90cd5ea9eaa534c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 77/92] fix: toggle and state coverage counted the wrong part
 of signals

---
 src/cov/cov-api.h   |   1 +
 src/cov/cov-data.c  |  10 +++
 src/jit/jit-exits.c |  13 ++--
 src/jit/jit-exits.h |   6 +-
 src/jit/jit-irgen.c |  14 ++--
 src/lower.c         |  10 ++-
 src/mir/mir-dump.c  |   4 +-
 src/mir/mir-node.c  |   7 +-
 src/mir/mir-node.h  |   3 +-
 src/mir/mir-vcode.c |   3 +-
 src/rt/cover.c      | 154 ++++++++++++++++++++++++++++----------------
 src/vcode.c         |   3 +-
 src/vcode.h         |   2 +-
 13 files changed, 152 insertions(+), 78 deletions(-)

diff --git a/src/cov/cov-api.h b/src/cov/cov-api.h
index f20703c..4821016 100644
--- a/src/cov/cov-api.h
+++ b/src/cov/cov-api.h
@@ -253,5 +253,6 @@ cover_scope_t *cover_create_instance(cover_data_t *data, cover_scope_t *parent,
                                      tree_t block, tree_t unit);
 cover_item_t *cover_add_items_for(cover_data_t *data, cover_scope_t *cscope,
                                   object_t *obj, cover_item_kind_t kind);
+int cover_count_toggle_items(cover_scope_t *cs, const cover_item_t *first);
 
 #endif   // _COV_API_H
diff --git a/src/cov/cov-data.c b/src/cov/cov-data.c
index fb90dd2..6547930 100644
--- a/src/cov/cov-data.c
+++ b/src/cov/cov-data.c
@@ -714,6 +714,16 @@ cover_item_t *cover_add_items_for(cover_data_t *data, cover_scope_t *cs,
    return (first_item_index == -1) ? NULL : AREF(cs->items, first_item_index);
 }
 
+int cover_count_toggle_items(cover_scope_t *cs, const cover_item_t *first)
+{
+   // The toggle items of a signal are always consecutive
+   const cover_item_t *it = first, *end = cs->items.items + cs->items.count;
+   while (it < end && it->kind == COV_ITEM_TOGGLE)
+      it++;
+
+   return it - first;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Coverage data write/read to covdb, covdb merging and coverage scope handling
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index f727641..0c5ec95 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -803,19 +803,22 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
    case JIT_EXIT_COVER_TOGGLE:
       {
          sig_shared_t *shared = args[0].pointer;
-         int32_t       tag    = args[1].integer;
+         uint32_t      offset = args[1].integer;
+         int32_t       count  = args[2].integer;
+         int32_t       tag    = args[3].integer;
 
-         x_cover_setup_toggle_cb(shared, tag);
+         x_cover_setup_toggle_cb(shared, offset, count, tag);
       }
       break;
 
    case JIT_EXIT_COVER_STATE:
       {
          sig_shared_t *shared = args[0].pointer;
-         int64_t      low     = args[1].integer;
-         int32_t      tag     = args[2].integer;
+         uint32_t     offset  = args[1].integer;
+         int64_t      low     = args[2].integer;
+         int32_t      tag     = args[3].integer;
 
-         x_cover_setup_state_cb(shared, low, tag);
+         x_cover_setup_state_cb(shared, offset, low, tag);
       }
       break;
 
diff --git a/src/jit/jit-exits.h b/src/jit/jit-exits.h
index 16c41c0..b1b6629 100644
--- a/src/jit/jit-exits.h
+++ b/src/jit/jit-exits.h
@@ -87,8 +87,10 @@ void x_put_conversion(rt_conv_func_t *cf, sig_shared_t *ss, uint32_t offset,
 void x_resolve_signal(sig_shared_t *ss, jit_handle_t handle, void *context,
                       int32_t nlits, int32_t flags);
 void x_unreachable(tree_t where);
-void x_cover_setup_toggle_cb(sig_shared_t *ss, int32_t tag);
-void x_cover_setup_state_cb(sig_shared_t *ss, int64_t low, int32_t tag);
+void x_cover_setup_toggle_cb(sig_shared_t *ss, uint32_t offset, int32_t count,
+                             int32_t tag);
+void x_cover_setup_state_cb(sig_shared_t *ss, uint32_t offset, int64_t low,
+                            int32_t tag);
 void x_process_init(jit_handle_t handle, tree_t where);
 void x_clear_event(sig_shared_t *ss, uint32_t offset, int32_t count);
 void x_enter_state(int32_t state, bool strong);
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index 4eeb034..464a28b 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -3494,22 +3494,28 @@ static void irgen_op_cover_increment(jit_irgen_t *g, mir_value_t n)
 static void irgen_op_cover_toggle(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t shared = irgen_get_arg(g, n, 0);
-   uint32_t tag = irgen_get_const(g, n, 1);
+   jit_value_t offset = jit_value_from_reg(jit_value_as_reg(shared) + 1);
+   jit_value_t count = irgen_get_arg(g, n, 1);
+   uint32_t tag = irgen_get_const(g, n, 2);
 
    j_send(g, 0, shared);
-   j_send(g, 1, jit_value_from_int64(tag));
+   j_send(g, 1, offset);
+   j_send(g, 2, count);
+   j_send(g, 3, jit_value_from_int64(tag));
    macro_exit(g, JIT_EXIT_COVER_TOGGLE);
 }
 
 static void irgen_op_cover_state(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t shared = irgen_get_arg(g, n, 0);
+   jit_value_t offset = jit_value_from_reg(jit_value_as_reg(shared) + 1);
    jit_value_t low = irgen_get_arg(g, n, 1);
    uint32_t tag = irgen_get_const(g, n, 2);
 
    j_send(g, 0, shared);
-   j_send(g, 1, low);
-   j_send(g, 2, jit_value_from_int64(tag));
+   j_send(g, 1, offset);
+   j_send(g, 2, low);
+   j_send(g, 3, jit_value_from_int64(tag));
    macro_exit(g, JIT_EXIT_COVER_STATE);
 }
 
diff --git a/src/lower.c b/src/lower.c
index a604357..094ade6 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -1758,7 +1758,10 @@ static void lower_toggle_coverage_cb(lower_unit_t *lu, tree_t field,
                                                 COV_ITEM_TOGGLE);
       if (first != NULL) {
          vcode_reg_t nets_reg = emit_load_indirect(field_ptr);
-         emit_cover_toggle(nets_reg, first->tag);
+         // There are two items for each element
+         const int nitems = cover_count_toggle_items(cscope, first);
+         vcode_reg_t count_reg = emit_const(vtype_offset(), nitems / 2);
+         emit_cover_toggle(nets_reg, count_reg, first->tag);
       }
    }
 }
@@ -1785,7 +1788,10 @@ static void lower_toggle_coverage(lower_unit_t *lu, tree_t decl)
                                                 COV_ITEM_TOGGLE);
       if (first != NULL) {
          vcode_reg_t nets_reg = emit_load(var);
-         emit_cover_toggle(nets_reg, first->tag);
+         // There are two items for each element
+         const int nitems = cover_count_toggle_items(cscope, first);
+         vcode_reg_t count_reg = emit_const(vtype_offset(), nitems / 2);
+         emit_cover_toggle(nets_reg, count_reg, first->tag);
       }
    }
 }
diff --git a/src/mir/mir-dump.c b/src/mir/mir-dump.c
index fbe62a3..afed5f1 100644
--- a/src/mir/mir-dump.c
+++ b/src/mir/mir-dump.c
@@ -1556,9 +1556,11 @@ void mir_annotate(mir_unit_t *mu, const mir_annotate_t *cb, void *ctx)
          case MIR_OP_COVER_TOGGLE:
             {
                printf("%s ", mir_op_string(n->op));
-               mir_dump_value(mu, n->args[1], cb, ctx);
+               mir_dump_value(mu, n->args[2], cb, ctx);
                printf(" signal ");
                mir_dump_value(mu, n->args[0], cb, ctx);
+               printf(" count ");
+               mir_dump_value(mu, n->args[1], cb, ctx);
             }
             break;
 
diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7b7a3e2..ce9810a 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -2493,10 +2493,11 @@ void mir_build_cover_expr(mir_unit_t *mu, uint32_t tag)
                mir_enum(tag));
 }
 
-void mir_build_cover_toggle(mir_unit_t *mu, mir_value_t signal, uint32_t tag)
+void mir_build_cover_toggle(mir_unit_t *mu, mir_value_t signal,
+                            mir_value_t count, uint32_t tag)
 {
-   mir_build_2(mu, MIR_OP_COVER_TOGGLE, MIR_NULL_TYPE, MIR_NULL_STAMP,
-               signal, mir_enum(tag));
+   mir_build_3(mu, MIR_OP_COVER_TOGGLE, MIR_NULL_TYPE, MIR_NULL_STAMP,
+               signal, count, mir_enum(tag));
 
    MIR_ASSERT(mir_is_signal(mu, signal),
               "argument to cover toggle must be signal");
diff --git a/src/mir/mir-node.h b/src/mir/mir-node.h
index 89e2a0c..c284a1c 100644
--- a/src/mir/mir-node.h
+++ b/src/mir/mir-node.h
@@ -597,7 +597,8 @@ void mir_build_transfer_signal(mir_unit_t *mu, mir_value_t target,
 void mir_build_cover_stmt(mir_unit_t *mu, uint32_t tag);
 void mir_build_cover_branch(mir_unit_t *mu, uint32_t tag);
 void mir_build_cover_expr(mir_unit_t *mu, uint32_t tag);
-void mir_build_cover_toggle(mir_unit_t *mu, mir_value_t signal, uint32_t tag);
+void mir_build_cover_toggle(mir_unit_t *mu, mir_value_t signal,
+                            mir_value_t count, uint32_t tag);
 void mir_build_cover_state(mir_unit_t *mu, mir_value_t signal, mir_value_t low,
                            uint32_t tag);
 
diff --git a/src/mir/mir-vcode.c b/src/mir/mir-vcode.c
index 74e7312..480278e 100644
--- a/src/mir/mir-vcode.c
+++ b/src/mir/mir-vcode.c
@@ -1164,7 +1164,8 @@ static void import_cover_expr(mir_unit_t *mu, mir_import_t *imp, int op)
 static void import_cover_toggle(mir_unit_t *mu, mir_import_t *imp, int op)
 {
    mir_value_t signal = imp->map[vcode_get_arg(op, 0)];
-   mir_build_cover_toggle(mu, signal, vcode_get_tag(op));
+   mir_value_t count = imp->map[vcode_get_arg(op, 1)];
+   mir_build_cover_toggle(mu, signal, count, vcode_get_tag(op));
 }
 
 static void import_cover_state(mir_unit_t *mu, mir_import_t *imp, int op)
diff --git a/src/rt/cover.c b/src/rt/cover.c
index 7ff624d..b382a13 100644
--- a/src/rt/cover.c
+++ b/src/rt/cover.c
@@ -145,48 +145,54 @@ static inline void cover_toggle_check_0_1_u_z(uint8_t old, uint8_t new,
 #define COVER_TGL_SIGNAL_DETAILS(signal, size)
 #endif
 
+typedef void (*toggle_check_fn_t)(uint8_t, uint8_t, int32_t *, int32_t *);
+
+typedef struct {
+   rt_signal_t *signal;
+   int32_t      tag;
+   uint32_t     offset;   // First element of the signal that is counted
+   uint32_t     count;    // Number of elements that are counted
+   int64_t      low;      // Value of the first state
+} cover_watch_t;
+
+static inline bool has_event_now(rt_nexus_t *n, uint64_t now, unsigned delta)
+{
+   return n->last_event == now && n->event_delta == delta;
+}
+
 // Callback is optimized for performance
 // Check only group of 8 bytes that do have change of signal value
 // Optimize for assumption that most bits don't change in large signals
-#define DEFINE_COVER_TOGGLE_CB(name, check_fnc)                                     \
-   static void name(uint64_t now, rt_signal_t *s, rt_watch_t *w, void *user)        \
-   {                                                                                \
-      uint32_t s_size = s->shared.size;                                             \
-      rt_model_t *m = get_model();                                                  \
-      const int32_t tag = (uintptr_t)user;                                          \
-      COVER_TGL_CB_MSG(s)                                                           \
-      uint32_t batches = ((s_size - 1) / sizeof(uint64_t)) + 1;                     \
-      for (int i = 0; i < batches; i++) {                                           \
-         bool walk = false;                                                         \
-         int batch_size = sizeof(uint64_t);                                         \
-         if (i < batches - 1) {                                                     \
-            const void *batch_new = signal_value(s) + i * sizeof(uint64_t);         \
-            const void *batch_old = signal_last_value(s) + i * sizeof(uint64_t);    \
-            if (unaligned_load(batch_new, uint64_t) !=                              \
-                unaligned_load(batch_old, uint64_t))                                \
-               walk = true;                                                         \
-         }                                                                          \
-         else {                                                                     \
-            batch_size = ((s_size - 1) % sizeof(uint64_t)) + 1;                     \
-            walk = true;                                                            \
-         }                                                                          \
-         if (walk) {                                                                \
-            int32_t low = i * sizeof(uint64_t);                                     \
-            int32_t high = low + batch_size;                                        \
-            int32_t *toggle_01 = get_cover_counter(m, tag, 2) + low * 2;            \
-            int32_t *toggle_10 = toggle_01 + 1;                                     \
-            for (int j = low; j < high; j++) {                                      \
-               uint8_t new = ((uint8_t*)signal_value(s))[j];                        \
-               uint8_t old = ((uint8_t*)signal_last_value(s))[j];                   \
-               if (new != old)                                                      \
-                  check_fnc(old, new, toggle_01, toggle_10);                        \
-               toggle_01 += 2;                                                      \
-               toggle_10 += 2;                                                      \
-            }                                                                       \
-         }                                                                          \
-      }                                                                             \
-      COVER_TGL_SIGNAL_DETAILS(s, s_size)                                           \
-   }                                                                                \
+static inline void cover_toggle_walk(rt_signal_t *s, const cover_watch_t *cw,
+                                     toggle_check_fn_t fn)
+{
+   rt_model_t *m = get_model();
+   int32_t *counters = get_cover_counter(m, cw->tag, cw->count * 2);
+   const uint8_t *new = (const uint8_t *)signal_value(s) + cw->offset;
+   const uint8_t *old = (const uint8_t *)signal_last_value(s) + cw->offset;
+
+   for (uint32_t i = 0; i < cw->count;) {
+      if (cw->count - i >= sizeof(uint64_t)
+          && unaligned_load(new + i, uint64_t)
+          == unaligned_load(old + i, uint64_t)) {
+         i += sizeof(uint64_t);
+         continue;
+      }
+
+      if (new[i] != old[i])
+         (*fn)(old[i], new[i], counters + i * 2, counters + i * 2 + 1);
+
+      i++;
+   }
+}
+
+#define DEFINE_COVER_TOGGLE_CB(name, check_fnc)                               \
+   static void name(uint64_t now, rt_signal_t *s, rt_watch_t *w, void *user)  \
+   {                                                                          \
+      COVER_TGL_CB_MSG(s)                                                     \
+      cover_toggle_walk(s, user, check_fnc);                                  \
+      COVER_TGL_SIGNAL_DETAILS(s, s->shared.size)                             \
+   }
 
 DEFINE_COVER_TOGGLE_CB(cover_toggle_cb_0_1,     cover_toggle_check_0_1)
 DEFINE_COVER_TOGGLE_CB(cover_toggle_cb_0_1_u,   cover_toggle_check_0_1_u)
@@ -219,7 +225,8 @@ static bool is_constant_input(rt_signal_t *s)
    }
 }
 
-void x_cover_setup_toggle_cb(sig_shared_t *ss, int32_t tag)
+void x_cover_setup_toggle_cb(sig_shared_t *ss, uint32_t offset, int32_t count,
+                             int32_t tag)
 {
    rt_signal_t *s = container_of(ss, rt_signal_t, shared);
    rt_model_t *m = get_model();
@@ -231,12 +238,12 @@ void x_cover_setup_toggle_cb(sig_shared_t *ss, int32_t tag)
    cover_mask_t op_mask = data->mask;
 
    if (is_constant_input(s)) {
-      int32_t *toggle_01 = get_cover_counter(m, tag, 2 * s->shared.size);
+      int32_t *toggle_01 = get_cover_counter(m, tag, 2 * count);
       int32_t *toggle_10 = toggle_01 + 1;
 
       // Each std_logic bit encoded as single byte. There are two run-time
       // counters for each std_logic bit
-      for (int i = 0; i < s->shared.size; i++) {
+      for (int i = 0; i < count; i++) {
          // Remember constant driver in run-time data.
          // Unreachable mask not available at run-time.
          *toggle_01 = COV_FLAG_UNREACHABLE;
@@ -259,7 +266,12 @@ void x_cover_setup_toggle_cb(sig_shared_t *ss, int32_t tag)
    else if (op_mask & COVER_MASK_TOGGLE_COUNT_FROM_TO_Z)
       fn = &cover_toggle_cb_0_1_z;
 
-   rt_watch_t *w = watch_new(m, fn, (void *)(uintptr_t)tag, WATCH_EVENT, 1);
+   cover_watch_t *cw = xcalloc(sizeof(cover_watch_t));
+   cw->tag    = tag;
+   cw->offset = offset;
+   cw->count  = count;
+
+   rt_watch_t *w = watch_new(m, fn, cw, WATCH_EVENT, 1);
    model_set_event_cb(m, s, w);
 }
 
@@ -267,23 +279,49 @@ void x_cover_setup_toggle_cb(sig_shared_t *ss, int32_t tag)
 // FSM state coverage
 ///////////////////////////////////////////////////////////////////////////////
 
-#define READ_STATE(type) offset = *((type *)signal_value(s));
-
-static void cover_state_cb(uint64_t now, rt_signal_t *s, rt_watch_t *w, void *user)
+static void cover_count_state(rt_model_t *m, rt_signal_t *s,
+                              const cover_watch_t *cw)
 {
    // I-th enum literal is encoded in i-th tag from first tag, that corresponds
    // to enum value.
-   int size = signal_size(s);
-   int32_t offset = 0;
+   int64_t value = 0;
+
+#define READ_STATE(type) value = ((type *)signal_value(s))[cw->offset];
+
+   const int size = signal_size(s);
    FOR_ALL_SIZES(size, READ_STATE);
 
+   increment_counter(get_cover_counter(m, cw->tag + value - cw->low, 1));
+}
+
+static void cover_state_cb(uint64_t now, rt_signal_t *s, rt_watch_t *w, void *user)
+{
+   const cover_watch_t *cw = user;
    rt_model_t *m = get_model();
-   int32_t *mask = get_cover_counter(m, ((uintptr_t)user) + offset, 1);
+   unsigned delta;
+   model_now(m, &delta);
+
+   rt_nexus_t *n = &(s->nexus);
+   for (uint32_t i = 0, pos = 0; i < s->n_nexus; i++, n = n->chain) {
+      if (cw->offset >= pos && cw->offset < pos + n->width) {
+         if (has_event_now(n, now, delta))
+            cover_count_state(m, s, cw);
+         break;
+      }
 
-   increment_counter(mask);
+      pos += n->width;
+   }
+}
+
+static void cover_initial_state_cb(rt_model_t *m, void *user)
+{
+   // The initial value of the signal does not cause an event
+   const cover_watch_t *cw = user;
+   cover_count_state(m, cw->signal, cw);
 }
 
-void x_cover_setup_state_cb(sig_shared_t *ss, int64_t low, int32_t tag)
+void x_cover_setup_state_cb(sig_shared_t *ss, uint32_t offset, int64_t low,
+                            int32_t tag)
 {
    rt_signal_t *s = container_of(ss, rt_signal_t, shared);
    rt_model_t *m = get_model();
@@ -292,14 +330,16 @@ void x_cover_setup_state_cb(sig_shared_t *ss, int64_t low, int32_t tag)
    if (data == NULL)
       return;
 
-   int32_t *mask = get_cover_counter(m, tag, 1);
+   cover_watch_t *cw = xcalloc(sizeof(cover_watch_t));
+   cw->signal = s;
+   cw->tag    = tag;
+   cw->offset = offset;
+   cw->count  = 1;
+   cw->low    = low;
 
-   // TYPE'left is a default value of enum type that does not
-   // cause an event. First tag needs to be flagged as covered manually.
-   *mask = 1;
+   model_set_global_cb(m, RT_START_OF_SIMULATION, cover_initial_state_cb, cw);
 
-   rt_watch_t *w = watch_new(m, cover_state_cb, (void *)(uintptr_t)(tag - low),
-                             WATCH_EVENT, 1);
+   rt_watch_t *w = watch_new(m, cover_state_cb, cw, WATCH_EVENT, 1);
    model_set_event_cb(m, s, w);
 }
 
diff --git a/src/vcode.c b/src/vcode.c
index c4c05ab..80417f0 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -5872,10 +5872,11 @@ void emit_cover_branch(uint32_t tag)
    op->tag = tag;
 }
 
-void emit_cover_toggle(vcode_reg_t signal, uint32_t tag)
+void emit_cover_toggle(vcode_reg_t signal, vcode_reg_t count, uint32_t tag)
 {
    op_t *op = vcode_add_op(VCODE_OP_COVER_TOGGLE);
    vcode_add_arg(op, signal);
+   vcode_add_arg(op, count);
    op->tag = tag;
 }
 
diff --git a/src/vcode.h b/src/vcode.h
index d364598..6f639a5 100644
--- a/src/vcode.h
+++ b/src/vcode.h
@@ -485,7 +485,7 @@ void emit_zero_check(vcode_reg_t denom, vcode_reg_t locus);
 void emit_debug_out(vcode_reg_t reg);
 void emit_cover_stmt(uint32_t tag);
 void emit_cover_branch(uint32_t tag);
-void emit_cover_toggle(vcode_reg_t signal, uint32_t tag);
+void emit_cover_toggle(vcode_reg_t signal, vcode_reg_t count, uint32_t tag);
 void emit_cover_state(vcode_reg_t signal, vcode_reg_t low, uint32_t tag);
 void emit_cover_expr(uint32_t tag);
 vcode_reg_t emit_undefined(vcode_type_t type, vcode_type_t bounds);
-- 
2.43.0


From 2a67cf4217c016b2cc66021e051e620940964339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 78/92] fix: merging coverage databases with different items
 crashed or merged unrelated scopes

---
 src/cov/cov-data.c | 56 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/cov/cov-data.c b/src/cov/cov-data.c
index 6547930..9400830 100644
--- a/src/cov/cov-data.c
+++ b/src/cov/cov-data.c
@@ -1156,6 +1156,42 @@ cover_data_t *cover_read_items(fbuf_t *f, uint32_t pre_mask)
    return data;
 }
 
+static cover_scope_t *cover_find_merge_scope(cover_scope_t *old_s,
+                                             cover_scope_t *new_s, int nth)
+{
+   // The name of a scope may not be unique: for example overloaded
+   // subprograms have the same name but different locations
+
+   cover_scope_t *new_c = new_s->children.items[nth];
+
+   int nsame = 0, nprev = 0;
+   for (int i = 0; i < new_s->children.count; i++) {
+      cover_scope_t *c = new_s->children.items[i];
+      if (c->name == new_c->name) {
+         nsame++;
+         if (i < nth && loc_eq(&c->loc, &new_c->loc))
+            nprev++;
+      }
+   }
+
+   cover_scope_t *first = NULL;
+   bool unique = nsame == 1;
+   for (int i = 0; i < old_s->children.count; i++) {
+      cover_scope_t *c = old_s->children.items[i];
+      if (c->name != new_c->name)
+         continue;
+      else if (loc_eq(&c->loc, &new_c->loc) && nprev-- == 0)
+         return c;
+
+      if (first != NULL)
+         unique = false;
+      else
+         first = c;
+   }
+
+   return unique ? first : NULL;
+}
+
 static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
 {
    // Most merged cover scopes have equal items.
@@ -1166,11 +1202,15 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
    int n_added = 0;
    for (int i = 0; i < new_s->items.count; i++) {
       cover_item_t *new = AREF(new_s->items, i);
-      cover_item_t *old = AREF(old_s->items, i - n_added);
+      cover_item_t *old = NULL;
 
       bool found = false;
       int n_old_visits = 0;
 
+      // The new scope may have more items than the old one
+      if (old_s->items.count > 0)
+         old = AREF(old_s->items, (i - n_added) % old_s->items.count);
+
       do {
          if (n_old_visits == old_s->items.count)
             break;
@@ -1201,17 +1241,11 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
 
    for (int i = 0; i < new_s->children.count; i++) {
       cover_scope_t *new_c = new_s->children.items[i];
-      bool found = false;
-      for (int j = 0; j < old_s->children.count; j++) {
-         cover_scope_t *old_c = old_s->children.items[j];
-         if (new_c->name == old_c->name) {
-            cover_merge_scope(old_c, new_c);
-            found = true;
-            break;
-         }
-      }
+      cover_scope_t *old_c = cover_find_merge_scope(old_s, new_s, i);
 
-      if (!found)
+      if (old_c != NULL)
+         cover_merge_scope(old_c, new_c);
+      else
          APUSH(old_s->children, new_c);
    }
 }
-- 
2.43.0


From 38ab0ed3dbef808fbaf1211e58f86ea5ee37f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 79/92] fix: exit from while loop was counted as false
 condition

---
 src/lower.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 094ade6..6beb71a 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6903,10 +6903,19 @@ static void lower_while(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
 
    vcode_reg_t test = lower_rvalue(lu, tree_value(stmt));
 
-   emit_cond(test, body_bb, exit_bb);
+   if (cover_enabled(lu->cover, COVER_MASK_BRANCH)) {
+      // An exit statement does not evaluate the condition
+      vcode_block_t false_bb = emit_block();
 
-   if (cover_enabled(lu->cover, COVER_MASK_BRANCH))
-      lower_branch_coverage(lu, stmt, body_bb, exit_bb);
+      emit_cond(test, body_bb, false_bb);
+
+      lower_branch_coverage(lu, stmt, body_bb, false_bb);
+
+      vcode_select_block(false_bb);
+      emit_jump(exit_bb);
+   }
+   else
+      emit_cond(test, body_bb, exit_bb);
 
    vcode_select_block(body_bb);
 
-- 
2.43.0


From 390383952b6e52eff06ea5e7b2da57135281c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 80/92] fix: case choices with equal hash had no coverage item

---
 src/lower.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 6beb71a..8adc30b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7329,12 +7329,11 @@ static void lower_case_array(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
                blocks[cptr]   = entry_bb;
                encoding[cptr] = enc;
 
-               // TODO: How to handle have_dup == true ?
-               if (cover_enabled(lu->cover, COVER_MASK_BRANCH))
-                  lower_branch_coverage(lu, a, hit_bb, VCODE_INVALID_BLOCK);
-
                cptr++;
             }
+
+            if (cover_enabled(lu->cover, COVER_MASK_BRANCH))
+               lower_branch_coverage(lu, a, hit_bb, VCODE_INVALID_BLOCK);
          }
 
          vcode_select_block(hit_bb);
-- 
2.43.0


From 6eb7d221791543d9a4ace43f846d51a08f287fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 81/92] fix: statement coverage counted processes that were not
 triggered

---
 src/lower.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 8adc30b..9416206 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11583,8 +11583,10 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
 
 static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc)
 {
-   if (cover_enabled(lu->cover, COVER_MASK_BRANCH | COVER_MASK_EXPRESSION))
-      return VCODE_INVALID_REG;   // Would have incorrect branch coverage
+   const cover_mask_t cmask =
+      COVER_MASK_STMT | COVER_MASK_BRANCH | COVER_MASK_EXPRESSION;
+   if (cover_enabled(lu->cover, cmask))
+      return VCODE_INVALID_REG;   // Would have incorrect counts
    else if (tree_stmts(proc) != 2)
       return VCODE_INVALID_REG;
 
-- 
2.43.0


From 99e2a6ee53a8ac394419222a0c2953926bb5b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 82/92] fix: name of an if generate alternative in 'path_name
 and 'instance_name

---
 src/elab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elab.c b/src/elab.c
index d393b15..660f706 100644
--- a/src/elab.c
+++ b/src/elab.c
@@ -1903,7 +1903,7 @@ static void elab_if_generate(tree_t t, const elab_ctx_t *ctx)
          tree_add_stmt(ctx->out, b);
 
          ident_t name = tree_ident(cond);
-         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", name);
+         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", istr(name));
          ident_t ndotted = ident_prefix(ctx->dotted, name, '.');
 
          elab_ctx_t new_ctx = {
-- 
2.43.0


From 2277041176505b085dc0c48971085e61561b10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 83/92] fix: missing declarations at the start of a generate
 body and duplicate type names in alternatives

---
 src/names.c | 24 ++++++++++++++++++++++--
 src/names.h |  1 +
 src/parse.c | 12 ++++++++----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/names.c b/src/names.c
index cf773a6..d011077 100644
--- a/src/names.c
+++ b/src/names.c
@@ -162,6 +162,7 @@ typedef struct _scope {
    formal_fn_t     formal_fn;
    void           *formal_arg;
    ident_t         prefix;
+   ident_t         alternative;
    tree_t          container;
    bool            suppress;
    lazy_sym_t     *lazy;
@@ -378,6 +379,9 @@ void push_scope(nametab_t *tab)
    s->prefix   = tab->top_scope ? tab->top_scope->prefix : NULL;
    s->suppress = tab->top_scope ? tab->top_scope->suppress : false;
 
+   if (tab->top_scope != NULL)
+      s->alternative = tab->top_scope->alternative;
+
    tab->top_scope = s;
 }
 
@@ -582,6 +586,18 @@ void scope_set_prefix(nametab_t *tab, ident_t prefix)
    tab->top_scope->prefix = ident_prefix(tab->top_scope->prefix, prefix, '.');
 }
 
+void scope_set_alternative(nametab_t *tab, unsigned nth)
+{
+   // All the alternatives of a generate statement may have the same label
+   // so the types declared in them need another way to make unique names
+   if (nth > 0) {
+      const unsigned depth = ident_len(tab->top_scope->prefix);
+      ident_t id = ident_sprintf("$alt%u_%u", depth, nth);
+      tab->top_scope->alternative =
+         ident_prefix(tab->top_scope->alternative, id, '.');
+   }
+}
+
 ident_t scope_prefix(nametab_t *tab)
 {
    return tab->top_scope->prefix;
@@ -2617,8 +2633,12 @@ void mangle_func(nametab_t *tab, tree_t decl)
 
 void mangle_type(nametab_t *tab, type_t type)
 {
-   ident_t id = ident_prefix(tab->top_scope->prefix, type_ident(type), '.');
-   type_set_ident(type, id);
+   ident_t prefix = tab->top_scope->prefix;
+
+   if (tab->top_scope->alternative != NULL && !type_is_protected(type))
+      prefix = ident_prefix(prefix, tab->top_scope->alternative, '.');
+
+   type_set_ident(type, ident_prefix(prefix, type_ident(type), '.'));
 }
 
 void mangle_decl(nametab_t *tab, tree_t decl)
diff --git a/src/names.h b/src/names.h
index c574933..96699c9 100644
--- a/src/names.h
+++ b/src/names.h
@@ -61,6 +61,7 @@ void push_scope(nametab_t *tab);
 void pop_scope(nametab_t *tab);
 void push_scope_for_formals(nametab_t *tab, formal_kind_t kind, tree_t unit);
 void scope_set_prefix(nametab_t *tab, ident_t prefix);
+void scope_set_alternative(nametab_t *tab, unsigned nth);
 ident_t scope_prefix(nametab_t *tab);
 formal_kind_t scope_formal_kind(nametab_t *tab);
 void scope_set_container(nametab_t *tab, tree_t container);
diff --git a/src/parse.c b/src/parse.c
index 77b973c..b6958b7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -11203,7 +11203,7 @@ static void p_generate_statement_body(tree_t container, ident_t alt_label)
 
    if (scan(tSIGNAL, tTYPE, tSUBTYPE, tFILE, tCONSTANT, tFUNCTION, tIMPURE,
             tPURE, tALIAS, tATTRIBUTE, tBEGIN, tPROCEDURE, tFOR, tCOMPONENT,
-            tUSE, tSHARED)) {
+            tUSE, tSHARED, tDISCONNECT, tGROUP, tPACKAGE, tVIEW)) {
       while (not_at_token(tBEGIN))
          p_block_declarative_item(container);
       consume(tBEGIN);
@@ -11314,6 +11314,7 @@ static tree_t p_if_generate_statement(ident_t label)
 
       push_scope(nametab);
       scope_set_prefix(nametab, alt_label ?: label);
+      scope_set_alternative(nametab, tree_conds(g));
 
       tree_t c = tree_new(T_COND_STMT);
       tree_set_ident(c, alt_label ?: label);
@@ -11340,6 +11341,7 @@ static tree_t p_if_generate_statement(ident_t label)
 
       push_scope(nametab);
       scope_set_prefix(nametab, alt_label ?: label);
+      scope_set_alternative(nametab, tree_conds(g));
 
       tree_t c = tree_new(T_COND_STMT);
       tree_set_ident(c, alt_label ?: label);
@@ -11367,7 +11369,8 @@ static tree_t p_if_generate_statement(ident_t label)
    return g;
 }
 
-static tree_t p_case_generate_alternative(type_t type)
+static tree_t p_case_generate_alternative(type_t type, ident_t label,
+                                          unsigned nth)
 {
    // when [ alternative_label : ] choices => generate_statement_body
 
@@ -11388,7 +11391,8 @@ static tree_t p_case_generate_alternative(type_t type)
    consume(tASSOC);
 
    push_scope(nametab);
-   scope_set_prefix(nametab, alt_label);
+   scope_set_prefix(nametab, alt_label ?: (label ?: error_marker()));
+   scope_set_alternative(nametab, nth);
 
    p_generate_statement_body(alt, alt_label);
 
@@ -11423,7 +11427,7 @@ static tree_t p_case_generate_statement(ident_t label)
    consume(tGENERATE);
 
    do {
-      tree_add_stmt(g, p_case_generate_alternative(type));
+      tree_add_stmt(g, p_case_generate_alternative(type, label, tree_stmts(g)));
    } while (peek() == tWHEN);
 
    consume(tEND);
-- 
2.43.0


From f9d925502374e7cc7d56071644d1461615ffd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 84/92] fix: crash in a package or subprogram instance with an
 enclosing globally static constant

---
 src/inst.c | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/inst.c b/src/inst.c
index 99c1fd2..63a101e 100644
--- a/src/inst.c
+++ b/src/inst.c
@@ -35,6 +35,11 @@ typedef struct {
    type_list_t copied_types;
 } copy_ctx_t;
 
+typedef struct {
+   hset_t *decls;
+   bool    fold_static;
+} instance_ctx_t;
+
 static void collect_decls(tree_t t, hset_t **decls, tree_list_t *roots);
 
 static void tree_copy_cb(tree_t t, void *__ctx)
@@ -131,29 +136,46 @@ void copy_with_renaming(tree_t *roots, int nroots, tree_copy_pred_t tree_pred,
 
 static bool instantiate_should_copy_type(type_t type, void *__ctx)
 {
-   hset_t *decls = __ctx;
+   const instance_ctx_t *ctx = __ctx;
+   hset_t *decls = ctx->decls;
    if (decls == NULL || type_kind(type) == T_SUBTYPE)
       return false;
    else
       return hset_contains(decls, type);
 }
 
+static bool is_instance_generic(tree_t t, const instance_ctx_t *ctx)
+{
+   if (!tree_has_ref(t))
+      return false;
+
+   tree_t ref = tree_ref(t);
+   if (tree_kind(ref) != T_GENERIC_DECL)
+      return false;
+
+   // Do not copy the value of an enclosing constant which depends on a
+   // generic of the design entity
+   return ctx->fold_static
+      || (ctx->decls != NULL && hset_contains(ctx->decls, ref));
+}
+
 static bool instantiate_should_copy_tree(tree_t t, void *__ctx)
 {
-   hset_t *decls = __ctx;
+   const instance_ctx_t *ctx = __ctx;
+   hset_t *decls = ctx->decls;
 
    switch (tree_kind(t)) {
    case T_INSTANCE:
       return true;
    case T_FCALL:
-      // Globally static expressions should be copied and folded
-      if ((tree_flags(t) & TREE_F_GLOBALLY_STATIC)
+      // Globally static expressions should be copied and folded except
+      // in subprograms and packages where this would also make a copy
+      // of any constant in the enclosing region with such a value
+      if (ctx->fold_static && (tree_flags(t) & TREE_F_GLOBALLY_STATIC)
           && type_is_scalar(tree_type(t)))
          return true;
-      else if (tree_has_ref(t) && tree_kind(tree_ref(t)) == T_GENERIC_DECL)
-         return true;   // Call to generic subprogram
       else
-         return false;
+         return is_instance_generic(t, ctx);   // Call to generic subprogram
    case T_PACKAGE:
    case T_PACK_BODY:
       return true;
@@ -172,7 +194,7 @@ static bool instantiate_should_copy_tree(tree_t t, void *__ctx)
       // Make a unique copy of all public declarations in the package
       return decls != NULL && hset_contains(decls, t);
    case T_REF:
-      return tree_has_ref(t) && tree_kind(tree_ref(t)) == T_GENERIC_DECL;
+      return is_instance_generic(t, ctx);
    default:
       return false;
    }
@@ -299,6 +321,7 @@ void new_instance(tree_t *roots, int nroots, ident_t dotted,
       APUSH(troots, roots[i]);
 
    hset_t *decls = NULL;
+   bool fold_static = false;
    for (int i = 0; i < nroots; i++) {
       switch (tree_kind(roots[i])) {
       case T_ENTITY:
@@ -321,12 +344,15 @@ void new_instance(tree_t *roots, int nroots, ident_t dotted,
       default:
          break;
       }
+
+      fold_static |= !is_subprogram(roots[i]) && !is_package(roots[i]);
    }
 
+   instance_ctx_t ctx = { decls, fold_static };
    copy_with_renaming(troots.items, troots.count,
                       instantiate_should_copy_tree,
                       instantiate_should_copy_type,
-                      decls, dotted, prefixes, nprefix);
+                      &ctx, dotted, prefixes, nprefix);
 
    for (int i = 0; i < nroots; i++)
       roots[i] = troots.items[i];
-- 
2.43.0


From 93f321346f113cebdf762048da26cf50e6dedd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 85/92] fix: call context of a subprogram inside a for generate
 block

---
 src/common.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 8b2590e..d9d2f6b 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1530,8 +1530,17 @@ ident_t get_call_context(ident_t mangled)
 {
    const char *str = istr(mangled), *p = str, *end = NULL;
    for (; *p; p++) {
-      if (*p == '(') break;
-      if (*p == '.') end = p;
+      if (*p == '(') {
+         // May be either the index of a for-generate block or the start
+         // of the parameter list
+         const char *q = p + 1;
+         if (*q == '-') q++;
+         if (!isdigit_iso88591(*q)) break;
+         while (isdigit_iso88591(*q)) q++;
+         if (q[0] != ')' || q[1] != '.') break;
+         p = q;
+      }
+      else if (*p == '.') end = p;
    }
    assert(end != NULL);
 
-- 
2.43.0


From 42be8ce16f72d02269b0cfa1c65e8ce5e76adba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 86/92] fix: coverage of an instantiated Verilog module

---
 src/cov/cov-data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cov/cov-data.c b/src/cov/cov-data.c
index 9400830..44f8de5 100644
--- a/src/cov/cov-data.c
+++ b/src/cov/cov-data.c
@@ -1018,7 +1018,7 @@ cover_scope_t *cover_create_instance(cover_data_t *data, cover_scope_t *parent,
    }
 
    // TODO: do not emit scopes for components
-   assert(tree_kind(unit) == T_ARCH);
+   assert(tree_kind(unit) == T_ARCH || tree_kind(unit) == T_VERILOG);
    assert(tree_kind(block) == T_BLOCK);
 
    cover_scope_t *s = xcalloc(sizeof(cover_scope_t));
-- 
2.43.0


From 6eae47f53020f8a9e9d2c87bd2e69039619c355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 87/92] fix: crash with --no-collapse and ports of a protected
 type

---
 src/lower.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9416206..20441d3 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -12400,6 +12400,8 @@ static void lower_direct_mapped_port(lower_unit_t *lu, driver_set_t *ds,
       hset_insert(direct, port);
       return;
    }
+   else if (opt_get_int(OPT_NO_COLLAPSE))
+      return;
    else if (tree_subkind(port) != PORT_IN)
       return;    // Not safe in general
    else if (!lower_is_signal_ref(value) || tree_kind(value) == T_TYPE_CONV) {
@@ -12717,13 +12719,11 @@ static void lower_ports(lower_unit_t *lu, driver_set_t *ds, tree_t block)
       lower_put_vcode_obj(port, port_vars[i], lu);
    }
 
-   if (!opt_get_int(OPT_NO_COLLAPSE)) {
-      // Filter out "direct mapped" inputs which can be aliased to
-      // signals in the scope above
-      for (int i = 0; i < nparams; i++)
-         lower_direct_mapped_port(lu, ds, block, tree_param(block, i), direct,
-                                  &poison, map_regs[i]);
-   }
+   // Filter out "direct mapped" inputs which can be aliased to signals in
+   // the scope above
+   for (int i = 0; i < nparams; i++)
+      lower_direct_mapped_port(lu, ds, block, tree_param(block, i), direct,
+                               &poison, map_regs[i]);
 
    for (int i = 0; i < nports; i++) {
       tree_t port = tree_port(block, i);
-- 
2.43.0


From d8a43c45e3f811c993ceb68b1dc4b5dd3a853ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 88/92] fix: toggle coverage of a port which is not a signal

---
 src/lower.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 20441d3..9719283 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -12755,6 +12755,9 @@ static void lower_ports(lower_unit_t *lu, driver_set_t *ds, tree_t block)
    if (cover_enabled(lu->cover, COVER_MASK_TOGGLE)) {
       for (int i = 0; i < nports; i++) {
          tree_t p = tree_port(block, i);
+         if (tree_class(p) != C_SIGNAL)
+            continue;
+
          PUSH_COVER_SCOPE(lu, p);
          lower_toggle_coverage(lu, p);
       }
-- 
2.43.0


From 9c67a96fa1f74d6762741ac117c178539a043c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 89/92] fix: coverage of an expression in a port map

---
 src/lower.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9719283..e558403 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -13457,8 +13457,14 @@ vcode_unit_t get_vcode(lower_unit_t *lu)
 static cover_scope_t *lower_emit_cover_scopes(lower_unit_t *lu,
                                               lazy_cscope_t *lcs)
 {
-   if (lcs == NULL)
-      return lu->cscope;
+   if (lcs == NULL) {
+      // Units which do not create a scope of their own, such as the
+      // process for an expression in a port map, use the enclosing one
+      lower_unit_t *it = lu;
+      while (it->cscope == NULL && it->parent != NULL)
+         it = it->parent;
+      return it->cscope;
+   }
    else if (lcs->cscope != NULL)
       return lcs->cscope;
    else {
-- 
2.43.0


From 4ab9597458287a670ad232aae4fcfbf1536c1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 90/92] fix: 'element of an array whose elements have constant
 bounds

---
 src/lower.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index e558403..11ea006 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5020,6 +5020,8 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          type_t type = tree_type(name);
          type_t elem = type_elem_recur(type);
          vcode_reg_t null_reg = emit_null(vtype_pointer(lower_type(elem)));
+         if (type_const_bounds(type_elem(type)))
+            return null_reg;
          return lower_wrap_element(lu, type, array_reg, null_reg);
       }
 
-- 
2.43.0


From 42abc0d60ce0a75db3f53862d3a8f145666db10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 91/92] fix: iterations of a generate statement sharing a
 declaration registered twice

---
 src/mir/mir-unit.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mir/mir-unit.c b/src/mir/mir-unit.c
index 0eab21a..7725731 100644
--- a/src/mir/mir-unit.c
+++ b/src/mir/mir-unit.c
@@ -330,11 +330,18 @@ mir_shape_t *mir_get_shape(mir_context_t *mc, ident_t name)
 void mir_defer(mir_context_t *mc, ident_t name, ident_t parent,
                mir_unit_kind_t kind, mir_lower_fn_t fn, object_t *object)
 {
-#ifdef DEBUG
    void *ptr = chash_get(mc->map, name);
-   if (ptr != NULL)
-      fatal_trace("%s already registered", istr(name));
+   if (ptr != NULL) {
+      // The iterations of a generate statement may share a declaration
+#ifdef DEBUG
+      if (pointer_tag(ptr) == UNIT_DEFERRED) {
+         deferred_unit_t *du = untag_pointer(ptr, deferred_unit_t);
+         if (du->object != object || du->fn != fn)
+            fatal_trace("%s already registered", istr(name));
+      }
 #endif
+      return;
+   }
 
    deferred_unit_t *du = mir_global_malloc(mc, sizeof(deferred_unit_t), 0, 0);
    du->name   = name;
-- 
2.43.0


From 90f9085bbc3df2d3a0d8b84a5a2fa3ba574fbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 92/92] fix: waveform dump of package signals with record
 elements

---
 src/rt/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index 4272e25..afee5c3 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -557,7 +557,7 @@ static void *fst_get_ptr(wave_dumper_t *wd, rt_scope_t *scope, tree_t where)
       return u->ptr;
    }
    else {
-      assert(scope->kind == SCOPE_INSTANCE);
+      assert(scope->kind == SCOPE_INSTANCE || scope->kind == SCOPE_PACKAGE);
       jit_handle_t handle = jit_lazy_compile(wd->jit, scope->name);
       return jit_get_frame_var(wd->jit, handle, tree_ident(where));
    }
-- 
2.43.0

