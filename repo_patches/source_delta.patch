From 16289a056168dc5a004cd2c28b9e15ce20be2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 01/25] fix: constant-folding the most negative integer / -1 or
 % -1 raised SIGFPE in cc1

---
 src/cc1/const.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 6607d01..00786ae 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -213,7 +213,10 @@ integral_t const_op_exec(
 		case op_modulus:
 		case op_divide:
 			if(*rval){
-				if(is_signed){
+				if(is_signed && (S)*rval == -1){
+					/* avoid trapping on the most negative value / -1 */
+					result = op == op_divide ? -lval : 0;
+				}else if(is_signed){
 					/* need sign-extended division */
 					result = (op == op_divide
 							? (sintegral_t)lval / (sintegral_t)*rval
-- 
2.43.0


From 2b2f569f2300a48e0833ed5bd02749e459261215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 02/25] fix: wrap folded unsigned results modulo 2^N, however
 far they overflow

---
 src/cc1/const.c | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 00786ae..779173c 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -252,25 +252,9 @@ integral_t const_op_exec(
 			break;
 	}
 
-	if(!is_signed){
-		/* need to apply proper wrap-around */
-		integral_t max = type_max(arithty, NULL);
-
-		if(max == NUMERIC_T_MAX){
-			/* handling integral_t:s, already done */
-		}else if(result > max){
-			if(op_increases(op)){
-				/* result = 256 -> 256 - (255 + 1) -> 0 */
-
-				result = result - (max + 1);
-			}else{
-				/* (assuming integral_t max = 65536)
-				 * result = 65536 -> 65536 - 65536 + 256 -> 256 */
-
-				result = result - NUMERIC_T_MAX + max;
-			}
-		}
-	}
+	/* need to apply proper wrap-around */
+	if(!is_signed)
+		result = integral_truncate(result, type_size(arithty, NULL), NULL);
 
 	return result;
 }
-- 
2.43.0


From b2e5be5155a47a3e46e539194a26f217f3d7478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 03/25] fix: fold relational operators in the type of their
 operands, not of their result

---
 src/cc1/ops/expr_op.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 63b94c5..4316370 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -314,9 +314,15 @@ static void const_op_num_int(
 		{
 			integral_t int_r;
 
+			/* a comparison's result is an int,
+			 * but it's done in the type of its operands */
 			int_r = const_op_exec(
 					l.offset, rhs ? &r.offset : NULL,
-					e->bits.op.op, e->tree_type, &err);
+					e->bits.op.op,
+					op_is_comparison(e->bits.op.op)
+						? e->lhs->tree_type
+						: e->tree_type,
+					&err);
 
 			if(SHOW_CONST_OP){
 				char tbufs[2][TYPE_STATIC_BUFSIZ];
-- 
2.43.0


From 6e8d3674ea7ae42cf199cfe45b5075b456a7feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 04/25] fix: fold integer to floating conversions by the
 signedness of the integer's type

---
 src/cc1/ops/expr_cast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index ecb6b52..fed9936 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -44,7 +44,7 @@ static void fold_cast_num(expr *const e, numeric *const num)
 		}else{
 			UCC_ASSERT(K_INTEGRAL(*num), "i/f mismatch types");
 			/* int -> float */
-			if(num->suffix & VAL_UNSIGNED){
+			if(!type_is_signed(expr_cast_child(e)->tree_type)){
 				num->val.f = num->val.i;
 			}else{
 				/* force a signed conversion, long long to long double */
-- 
2.43.0


From db8b5885ed7c3eb6e80c5b8a642977dff74c4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 05/25] fix: zero-extend constants converted to a narrower
 unsigned type

---
 src/cc1/ops/expr_cast.c | 43 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index fed9936..38c800a 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -164,41 +164,18 @@ static integral_t convert_integral_to_integral_warn(
 	const unsigned sz_in = type_size(tin, w);
 	const int signed_in = type_is_signed(tin);
 	const int signed_out = type_is_signed(tout);
-	sintegral_t to_iv_sign_ext;
-	integral_t to_iv = integral_truncate(in, sz_out, &to_iv_sign_ext);
+	sintegral_t in_sign_ext, to_iv_sign_ext;
+	integral_t to_iv = integral_truncate(in, sz_in, &in_sign_ext);
 	integral_t ret;
 
-	if(!signed_out && signed_in){
-		const unsigned sz_in_bits = CHAR_BIT * sz_in;
-		const unsigned sz_out_bits = CHAR_BIT * sz_out;
+	/* assuming 2's complement on the host machine,
+	 * sign/zero extending from the input type and then truncating to
+	 * the output type (and extending again) gives us the converted value */
+	to_iv = integral_truncate(
+			signed_in ? (integral_t)in_sign_ext : to_iv,
+			sz_out, &to_iv_sign_ext);
 
-		/* e.g. "(unsigned)-1". Pick to_iv, i.e. the unsigned truncated repr
-		 * this assumes that signed ints on the host machine we're run on
-		 * are 2's complement, i.e. truncated a negative gives us all 1s,
-		 * which we truncate */
-		ret = to_iv;
-
-		/* need to ensure sign extension */
-		if(ret & (1ULL << (sz_in_bits - 1))
-		&& sz_in_bits != sz_out_bits)
-		{
-			ret |= -1ULL << sz_in_bits;
-
-			/* need to unmask any top bits, e.g. int instead of long long */
-			if(sz_out_bits >= CHAR_BIT * sizeof(ret)){
-				/* shift would be a no-op (technically UB) */
-			}else{
-				ret &= -1ULL >> sz_out_bits;
-			}
-		}
-
-	}else if(signed_in){
-		/* signed to signed */
-		ret = (integral_t)to_iv_sign_ext;
-	}else{
-		/* unsigned to unsigned */
-		ret = to_iv_sign_ext;
-	}
+	ret = signed_out ? (integral_t)to_iv_sign_ext : to_iv;
 
 	if(sz_in == sz_out){
 		/* representable, don't warn */
@@ -206,7 +183,7 @@ static integral_t convert_integral_to_integral_warn(
 	}
 
 	if(do_warn){
-		if(ret != in){
+		if(ret != in && (signed_in || signed_out)){
 			warn_value_changed_at(w,
 					"implicit cast changes value from %llA to %llB",
 					signed_in, signed_out,
-- 
2.43.0


From 5ebf90c0288b1c2f0ddf3ee3f60c63269e3dde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 06/25] fix: constant comparison of two addresses in one object
 ignored their offsets

---
 src/cc1/ops/expr_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 4316370..95e86c1 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -399,7 +399,7 @@ static void const_op_num_int(
 					if(l.is_weak || r.is_weak){
 						CONST_FOLD_NO(k, e);
 					}else{
-						int same = !strcmp(l.lbl, r.lbl);
+						int same = !strcmp(l.lbl, r.lbl) && l.offset == r.offset;
 						k->type = CONST_NUM;
 
 						k->bits.num.val.i = ((e->bits.op.op == op_eq) == same);
-- 
2.43.0


From e6bed0cd3d5d66e7a1a7476ba356a5cebe20ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 07/25] fix: constant pointer difference was divided as
 unsigned when negative

---
 src/cc1/ops/expr_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 95e86c1..50cb270 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -413,7 +413,7 @@ static void const_op_num_int(
 						assert(tnext);
 
 						k->type = CONST_NUM;
-						k->bits.num.val.i = (l.offset - r.offset) / type_size(tnext, NULL);
+						k->bits.num.val.i = (sintegral_t)(l.offset - r.offset) / (sintegral_t)type_size(tnext, NULL);
 						k->nonstandard_const = e;
 					}
 					break;
-- 
2.43.0


From fe7c6d9bde0a1c271b7672589444621968b4a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 08/25] fix: constant difference of two numeric addresses was
 scaled as address minus integer

---
 src/cc1/ops/expr_op.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 50cb270..124f815 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -212,6 +212,19 @@ static void const_op_num_int(
 		{
 			unsigned step = type_size(ptr, &e->where);
 
+			if(!ptr_r && e->bits.op.op == op_minus && type_is_ptr(e->rhs->tree_type)){
+				/* pointer difference, known only between two numeric addresses */
+				CONST_FOLD_LEAF(k);
+				if(l.lbl || r.lbl){
+					CONST_FOLD_NO(k, e);
+					return;
+				}
+				k->type = CONST_NUM;
+				k->bits.num.val.i = (sintegral_t)(l.offset - r.offset) / (sintegral_t)step;
+				k->nonstandard_const = e;
+				return;
+			}
+
 			assert(!(ptr_r ? &l : &r)->lbl);
 
 			*(ptr_r ? &l.offset : &r.offset) *= step;
-- 
2.43.0


From d323dec1b64e17368bc1fca615b8723d3dff8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 09/25] fix: a pointer loaded from a constant address and cast
 to an integer folded to the address itself

---
 src/cc1/const.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 779173c..133d2de 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -322,6 +322,10 @@ static void const_intify(consty *k, expr *owner)
 			break;
 
 		case CONST_NEED_ADDR:
+			/* the pointer is loaded from that address */
+			CONST_FOLD_NO(k, owner);
+			break;
+
 		case CONST_ADDR:
 		{
 			integral_t memaddr;
-- 
2.43.0


From 0e092211a77f48a269aded2d354e256483cdeb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 10/25] fix: converting a negative floating constant to an
 integer relied on undefined behaviour

---
 src/cc1/ops/expr_cast.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index 38c800a..6a66999 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -82,8 +82,10 @@ static void fold_cast_num(expr *const e, numeric *const num)
 		if(type_is_primitive(e->tree_type, type__Bool)){
 			num->val.i = !!num->val.f;
 		}else{
-			/* float -> int */
-			num->val.i = num->val.f;
+			/* float -> int, negative values via a signed type */
+			num->val.i = num->val.f < 0
+				? (integral_t)(sintegral_t)num->val.f
+				: (integral_t)num->val.f;
 		}
 
 		num->suffix = 0;
-- 
2.43.0


From 36f0efbf0b14612a4cc979f2c5b2f2eb1825aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 11/25] fix: a constant address narrowed to an integer kept an
 unconverted value, and its offset wasn't checked

---
 src/cc1/ops/expr_cast.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index 6a66999..3665463 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -252,6 +252,10 @@ static void check_addr_int_cast(consty *k, int l, expr *owner)
 			break;
 
 		case CONST_NEED_ADDR:
+			/* the object's value, not its address, is what's cast */
+			CONST_FOLD_NO(k, owner);
+			break;
+
 		case CONST_ADDR:
 			switch(k->bits.addr.lbl_type){
 				case CONST_LBL_TRUE:
@@ -261,21 +265,33 @@ static void check_addr_int_cast(consty *k, int l, expr *owner)
 
 				case CONST_LBL_MEMADDR:
 				{
-					integral_t new = k->bits.addr.bits.memaddr;
+					const integral_t addr = k->bits.addr.bits.memaddr + k->offset;
 					const int pws = platform_word_size();
+					sintegral_t sign_ext;
+					integral_t new;
 
-					/* mask out bits so we have it truncated to `l' */
-					if(l < pws){
-						new = integral_truncate(new, l, NULL);
+					if(l >= pws){
+						/* what are you doing... */
+						CONST_FOLD_NO(k, owner);
+						break;
+					}
 
-						if(k->bits.addr.bits.memaddr != new)
-							/* can't cast without losing value - not const */
-							CONST_FOLD_NO(k, owner);
+					/* mask out bits so we have it truncated to `l' */
+					new = integral_truncate(addr, l, &sign_ext);
 
-					}else{
-						/* what are you doing... */
+					if(type_is_primitive(owner->tree_type, type__Bool)){
+						new = !!addr;
+					}else if(addr != new){
+						/* can't cast without losing value - not const */
 						CONST_FOLD_NO(k, owner);
+						break;
+					}else if(type_is_signed(owner->tree_type)){
+						new = sign_ext;
 					}
+
+					CONST_FOLD_LEAF(k);
+					k->type = CONST_NUM;
+					k->bits.num.val.i = new;
 					break;
 				}
 			}
-- 
2.43.0


From e88a68e23a4312cae40196c4fbdd8cc5453102c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:18 +0000
Subject: [PATCH 12/25] fix: the left operand of a compound assignment wasn't
 promoted to int

---
 src/cc1/ops/expr_assign_compound.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 92d3850..695d2de 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -41,26 +41,31 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 
 	UCC_ASSERT(op_can_compound(e->bits.compoundop.op), "non-compound op in compound expr");
 
-	/*expr_promote_int_if_smaller(&e->lhs, stab);
-	 * lhs int promotion is handled in code-gen */
 	expr_promote_int_if_smaller(&e->rhs, stab);
 
 	{
-		type *tlhs, *trhs;
-		type *resolved = op_required_promotion(
-				e->bits.compoundop.op, lvalue, e->rhs,
+		type *tlhs, *trhs, *resolved;
+		expr *promoted = lvalue;
+
+		/* the lvalue itself isn't promoted, its value is - in code-gen */
+		expr_promote_int_if_smaller(&promoted, stab);
+
+		resolved = op_required_promotion(
+				e->bits.compoundop.op, promoted, e->rhs,
 				&e->where, desc,
 				&tlhs, &trhs);
 
+		if(!tlhs && promoted != lvalue)
+			tlhs = promoted->tree_type;
+
 		if(tlhs){
 			/* must cast the lvalue, then down cast once the operation is done
 			 * special handling for expr_kind(e->lhs, cast) is done in the gen-code
 			 */
 			e->bits.compoundop.upcast_ty = tlhs;
-
-		}else if(trhs){
-			fold_insert_casts(trhs, &e->rhs, stab);
 		}
+		if(trhs)
+			fold_insert_casts(trhs, &e->rhs, stab);
 
 		/* see the same code in expr_assign.c */
 		e->tree_type = type_unqualify(lvalue->tree_type);
-- 
2.43.0


From c74cfc8b1bd912964ed28c661216205b2a09957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:31 +0000
Subject: [PATCH 13/25] fix: integer operands of ?: weren't promoted before
 finding their common type

---
 src/cc1/ops/expr_if.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 3ee9c13..f287f3c 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -248,6 +248,9 @@ void fold_expr_if(expr *e, symtable *stab)
 		/* 6.5.15 p4 */
 		expr **middle_op = e->lhs ? &e->lhs : &e->expr;
 
+		expr_promote_int_if_smaller(middle_op, stab);
+		expr_promote_int_if_smaller(&e->rhs, stab);
+
 		expr_check_sign(desc, *middle_op, e->rhs, &e->where);
 
 		e->tree_type = op_promote_types(
-- 
2.43.0


From 1ff3b96c55a21f85ab28ac3be7dd6aff6001627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 14/25] fix: constant ?: truncated its condition to int, and
 took any address as non-null

---
 src/cc1/ops/expr_if.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index f287f3c..9d5ba8d 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -39,10 +39,18 @@ static void fold_const_expr_if(expr *e, consty *k)
 		case CONST_NUM:
 		{
 			numeric *n = &consts[0].bits.num;
-			res = n->suffix & VAL_FLOATING ? n->val.f : n->val.i;
+			res = n->suffix & VAL_FLOATING ? n->val.f != 0 : n->val.i != 0;
 			break;
 		}
 		case CONST_ADDR:
+			if(consts[0].bits.addr.lbl_type == CONST_LBL_WEAK){
+				/* may be null */
+				CONST_FOLD_NO(k, e);
+				return;
+			}
+			res = consts[0].bits.addr.lbl_type == CONST_LBL_TRUE
+				|| consts[0].bits.addr.bits.memaddr + consts[0].offset != 0;
+			break;
 		case CONST_STRK:
 			res = 1;
 			break;
-- 
2.43.0


From 8fe254cc6e017b0701ceccac21afa94f0a215c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 15/25] fix: a null pointer constant was taken as a constant
 non-zero condition

---
 src/cc1/const.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 133d2de..1b8e534 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -109,6 +109,8 @@ static int const_expr_zero(expr *e, int zero)
 		case CONST_ADDR:
 			switch(k.bits.addr.lbl_type){
 				case CONST_LBL_MEMADDR:
+					if(!zero)
+						return k.bits.addr.bits.memaddr + k.offset != 0;
 					return k.bits.addr.bits.memaddr == 0;
 				case CONST_LBL_TRUE:
 				case CONST_LBL_WEAK: /* might be zero, don't know. error caught elsewhere */
-- 
2.43.0


From 1deee2a43d4cf308b8248a2a9ae8198d58950350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:38 +0000
Subject: [PATCH 16/25] fix: a constant zero shifted by a variable gave the
 shift count

---
 src/cc1/out/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 1201750..fec501a 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -105,8 +105,6 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 		case op_plus:
 		case op_or:
 		case op_xor:
-		case op_shiftl: /* if we're shifting 0, or shifting _by_ zero, noop */
-		case op_shiftr:
 			return vconst->bits.val_i == 0;
 
 		case op_multiply:
@@ -118,6 +116,8 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 
 		/* non-commutative: */
 		case op_minus:
+		case op_shiftl:
+		case op_shiftr:
 			return !is_lhs && vconst->bits.val_i == 0;
 
 		case op_divide:
-- 
2.43.0


From 08034ae539d0e554ec340aad34c86d750415f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 17/25] fix: unary operators folded in code-gen weren't
 truncated to their type

---
 src/cc1/out/op.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index fec501a..613dde6 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -419,24 +419,14 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 
 		case V_CONST_I:
 			if(cc1_fopt.const_fold){
-				switch(uop){
-#define OP(op, tok) \
-					case op_ ## op: {                        \
-						out_val *dup = v_dup_or_reuse(         \
-								octx, val, val->t);                \
-						dup->bits.val_i = tok dup->bits.val_i; \
-						return dup;                            \
-					}
-
-					OP(not, !);
-					OP(minus, -);
-					OP(bnot, ~);
-
-#undef OP
-
-					default:
-					assert(0 && "invalid unary op");
-				}
+				const char *err = NULL;
+				out_val *dup = v_dup_or_reuse(octx, val, val->t);
+
+				/* truncates to val->t */
+				dup->bits.val_i = const_op_exec(
+						dup->bits.val_i, NULL, uop, dup->t, &err);
+				assert(!err);
+				return dup;
 			}
 			break;
 
-- 
2.43.0


From cb21d8b754fb0b7a88b0f06b7effc5d4be42da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 18/25] fix: constants kept an unconverted value when cast
 during code-gen

---
 src/cc1/out/out.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index b732a37..481c390 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -202,6 +202,17 @@ const out_val *out_cast(out_ctx *octx, const out_val *val, type *to, int normali
 		}
 	}
 
+	if(val->type == V_CONST_I && type_is_integral(to)){
+		/* the constant must be a value of its new type */
+		out_val *k = v_dup_or_reuse(octx, val, to);
+		sintegral_t sext;
+		const integral_t trunc = integral_truncate(
+				k->bits.val_i, type_size(to, NULL), &sext);
+
+		k->bits.val_i = type_is_signed(to) ? (integral_t)sext : trunc;
+		return k;
+	}
+
 	return v_dup_or_reuse(octx, val, to);
 }
 
-- 
2.43.0


From 75bace9f06a56ab1ae738408d9ddb3ecd7bcdce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:37 +0000
Subject: [PATCH 19/25] fix: a constant pointer plus a computed integer wasn't
 scaled, nor a pointer less a constant pointer

---
 src/cc1/out/op.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 613dde6..5047183 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -70,6 +70,7 @@ static out_val *try_mem_offset(
 	/* if it's a minus, we enforce an order */
 	if((binop == op_plus || (binop == op_minus && vconst == rhs))
 	&& (vregp_or_lbl->type != V_LBL || cc1_fopt.symbol_arith)
+	&& !type_is_ptr(vconst->t) /* the other side needs scaling */
 	&& (step = calc_ptr_step(vregp_or_lbl->t)) != -1)
 	{
 		out_val *mut_vregp_or_lbl = v_dup_or_reuse(
-- 
2.43.0


From 7451f1792105d494b1c0b6085975860cda86d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:37 +0000
Subject: [PATCH 20/25] fix: adding an address' integer value to a constant
 pointer asserted

---
 src/cc1/ops/expr_op.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 124f815..cc67204 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -225,7 +225,12 @@ static void const_op_num_int(
 				return;
 			}
 
-			assert(!(ptr_r ? &l : &r)->lbl);
+			if((ptr_r ? &l : &r)->lbl){
+				/* can't scale an address */
+				CONST_FOLD_LEAF(k);
+				CONST_FOLD_NO(k, e);
+				return;
+			}
 
 			*(ptr_r ? &l.offset : &r.offset) *= step;
 		}
-- 
2.43.0


From 4a8c635f2758e514fdcc2319193cbf70285718c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:23 +0000
Subject: [PATCH 21/25] fix: a constant null pointer plus a computed integer
 wasn't scaled

---
 src/cc1/out/op.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 5047183..164d0e8 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -102,6 +102,9 @@ static out_val *try_mem_offset(
 
 static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 {
+	if((binop == op_plus || binop == op_minus) && type_is_ptr(vconst->t))
+		return 0; /* the other operand needs scaling */
+
 	switch(binop){
 		case op_plus:
 		case op_or:
-- 
2.43.0


From 79775b9dea87550c982af8072812f8b7a6d842b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:46 +0000
Subject: [PATCH 22/25] fix: accesses to bit-fields ending at bit 64 used a
 shift by 64, leaving old bits set

---
 src/cc1/out/bitfield.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index 6727c94..82a7ccc 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -11,6 +11,11 @@
 
 #include "bitfield.h"
 
+static unsigned long ones_from(unsigned bit)
+{
+	return bit < CHAR_BIT * sizeof(unsigned long) ? -1UL << bit : 0;
+}
+
 const out_val *out_bitfield_to_scalar(
 		out_ctx *octx,
 		const struct vbitfield *const bf,
@@ -29,7 +34,7 @@ const out_val *out_bitfield_to_scalar(
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf->nbits)));
+			out_new_l(octx, ty, ~ones_from(bf->nbits)));
 
 	/* if it's signed we need to sign extend
 	 * using a signed right shift to copy its MSB
@@ -87,7 +92,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 *     +- width
 	 */
 
-	mask_leading_1s = -1UL << (bf.off + bf.nbits);
+	mask_leading_1s = ones_from(bf.off + bf.nbits);
 
 	/* e.g. again:
 	 *
@@ -95,7 +100,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 * << = 11111100
 	 * ~  = 00000011
 	 */
-	mask_back_0s = ~(-1UL << bf.off);
+	mask_back_0s = ~ones_from(bf.off);
 
 	/* | = 111100011 */
 	mask_rm = mask_leading_1s | mask_back_0s;
@@ -111,7 +116,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf.nbits)));
+			out_new_l(octx, ty, ~ones_from(bf.nbits)));
 
 	scalar = out_op(
 			octx, op_shiftl,
-- 
2.43.0


From bc2192fb07b83bc5ef1b2d1db3230e60edc80080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:00 +0000
Subject: [PATCH 23/25] fix: clearing an object inline missed bytes when its
 size wasn't a multiple of a word's

---
 src/cc1/out/mem.c | 53 ++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index fff6a7a..81c0926 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -134,53 +134,26 @@ void out_memset(
 
 		out_val_consume(octx, emit_libc_call(octx, "memset", v_ptr, byte_val, nbytes_val));
 	}else{
-		size_t n, rem;
-		unsigned i;
-		type *tzero = type_nav_MAX_FOR(cc1_type_nav, nbytes, 0);
-
-		type *textra, *textrap;
+		size_t bytes_todo = nbytes;
 
 		assert(byte == 0 && "TODO: non-zero out_memset()");
 
-		if(!tzero)
-			tzero = type_nav_btype(cc1_type_nav, type_nchar);
-
-		n   = nbytes / type_size(tzero, NULL);
-		rem = nbytes % type_size(tzero, NULL);
-
-		if((textra = rem ? type_nav_MAX_FOR(cc1_type_nav, rem, 0) : NULL))
-			textrap = type_ptr_to(textra);
-
-		v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
-
-#ifdef MEMSET_VERBOSE
-		out_comment("memset(%s, %d, %lu), using ptr<%s>, %lu steps",
-				e->expr->f_str(),
-				e->bits.builtin_memset.ch,
-				e->bits.builtin_memset.len,
-				type_to_str(tzero), n);
-#endif
-
-		for(i = 0; i < n; i++){
-			const out_val *v_zero = out_new_zero(octx, tzero);
-			const out_val *v_inc;
-
-			/* *p = 0 */
-			out_val_retain(octx, v_ptr);
-			out_store(octx, v_ptr, v_zero);
+		while(bytes_todo > 0){
+			type *step = type_nav_MAX_FOR(cc1_type_nav, bytes_todo, 0);
+			unsigned step_sz = type_size(step, NULL);
 
-			/* p++ (copied pointer) */
-			v_inc = out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1);
+			v_ptr = out_change_type(octx, v_ptr, type_ptr_to(step));
 
-			v_ptr = out_op(octx, op_plus, v_ptr, v_inc);
+			while(bytes_todo >= step_sz){
+				/* *p = 0 */
+				out_val_retain(octx, v_ptr);
+				out_store(octx, v_ptr, out_new_zero(octx, step));
 
-			if(rem){
-				/* need to zero a little more */
-				v_ptr = out_change_type(octx, v_ptr, textrap);
-				v_zero = out_new_zero(octx, textra);
+				/* p++ (copied pointer) */
+				v_ptr = out_op(octx, op_plus, v_ptr,
+						out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1));
 
-				out_val_retain(octx, v_ptr);
-				out_store(octx, v_ptr, v_zero);
+				bytes_todo -= step_sz;
 			}
 		}
 
-- 
2.43.0


From b4a383114c47d0c055e5802e7a177e85628da65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:04 +0000
Subject: [PATCH 24/25] fix: inline memcpy's result went back by its size
 scaled by the last step's

---
 src/cc1/out/mem.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index 81c0926..2b89200 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -111,9 +111,13 @@ const out_val *out_memcpy(
 		}
 
 		out_val_release(octx, src);
+		/* back to the start, in bytes */
+		dest = out_change_type(octx, dest,
+				type_ptr_to(type_nav_btype(cc1_type_nav, type_nchar)));
 		return out_op(
 				octx, op_minus,
-				dest, out_new_l(octx, dest->t, nbytes));
+				dest,
+				out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), nbytes));
 	}
 }
 
-- 
2.43.0


From a86017902218e8a54444d4f0d55270e5080f6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:28 +0000
Subject: [PATCH 25/25] fix: negating a floating comparison gave the wrong
 result for nan

---
 src/cc1/out/op.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 164d0e8..332b56f 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -399,6 +399,15 @@ const out_val *out_op(
 	return result;
 }
 
+static int flag_is_reversible(const struct flag_opts *flag)
+{
+	/* with a nan, both of `a < b' and `a >= b' are false */
+	return !(flag->mods & flag_mod_float)
+		|| cc1_fopt.finite_math_only
+		|| flag->cmp == flag_eq
+		|| flag->cmp == flag_ne;
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
@@ -412,7 +421,7 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 	/* special case - reverse the flag if possible */
 	switch(val->type){
 		case V_FLAG:
-			if(uop == op_not){
+			if(uop == op_not && flag_is_reversible(&val->bits.flag)){
 				out_val *reversed = v_dup_or_reuse(octx, val, val->t);
 
 				reversed->bits.flag.cmp = v_not_cmp(reversed->bits.flag.cmp);
-- 
2.43.0

