From 73fe238c63ea193345b97b221542c497c5dfaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:50 +0000
Subject: [PATCH 01/63] fix: do not use the frame pointer to preserve values
 across calls

Values live across a call were moved to %rbp and back without restoring the
frame pointer, so any function keeping two or more temporaries alive over a
call corrupted its frame. Also correct the 16-bit name of %r13.
---
 src/x64/register.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..5d57002 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
@@ -18,7 +18,7 @@ char* BREG_NAMES[16] = {"%al",  "%bl",  "%cl",   "%dl",   "%spl",  "%bpl",  "%si
                         "%r8b", "%r9b", "%r10b", "%r11b", "%r12b", "%r13b", "%r14b", "%r15b"};
 
 char* WREG_NAMES[16] = {"%ax",  "%bx",  "%cx",   "%dx",   "%sp",   "%bp",   "%si",   "%di",
-                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13q", "%r14w", "%r15w"};
+                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13w", "%r14w", "%r15w"};
 
 char* LREG_NAMES[16] = {"%eax", "%ebx", "%ecx",  "%edx",  "%esp",  "%ebp",  "%esi",  "%edi",
                         "%r8d", "%r9d", "%r10d", "%r11d", "%r12d", "%r13d", "%r14d", "%r15d"};
-- 
2.43.0


From c6d474da621df3dd33079c970cfe641aebc28376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:23 +0000
Subject: [PATCH 02/63] fix: widen comparison results from the register they
 were set in

A comparison whose destination register differs from its first operand's (for
example a++ < b) copied the operand's low byte instead of the 0/1 result.
---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From 0a8505353e2003055b4dcab2e30c93bd75204771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:46 +0000
Subject: [PATCH 03/63] fix: apply every cast of a cast chain

Only the outermost of several nested casts was applied, and casts of literals
did not narrow the value, so (int)(char)300 evaluated to 300.
---
 src/immcgen/util.c | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..8593f51 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -107,40 +107,33 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
-
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
-    append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
+    if (child_srt->type != SRT_CAST_EXPR) {
+        append_child_immcode(immcgen, codes, index);
         ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
         return new_reg_immcope(immcgen->expr_reg_suffix, reg);
     }
 
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
-    int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
+    DType* cast_dtype = child_srt->dtype;
     ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
 
+    immcgen->srt = child_srt;
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    immcgen->srt = srt;
+
+    if (src->type == IMMC_OPERAND_INT) {
+        IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
+        delete_immcope(src);
+        return new_int_immcope(cast_suffix, iliteral);
+    }
+
     immcgen->next_reg_id++;
-    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
+    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, dtype_isunsignedinteger(cast_dtype));
     ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
 
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -193,15 +186,21 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
 
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int nbytes = dtype_nbytes(dtype);
+
+    unsigned long long value =
+        iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
+    if (nbytes == 1) {
+        value = (unsigned long long)(signed char)value;
+    } else if (nbytes == 4) {
+        value = dtype_isunsignedinteger(dtype) ? (unsigned int)value : (unsigned long long)(int)value;
+    }
 
     if (dtype_isunsignedinteger(dtype)) {
-        unsigned long long value =
-            iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 1);
         return new_unsigned_iliteral(type, value);
     } else {
-        long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 0);
-        return new_signed_iliteral(type, value);
+        return new_signed_iliteral(type, (long long)value);
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From fe15f06f0b2e4f7703ff73e41d3ac8da90c73fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 04/63] fix: generate code for casts used as operands, and take
 dereferenced addresses from the expression's own register

Casts in statement or pointer-operand position hit an 'unreachable' abort, and
dereferencing a conditional or assignment result addressed the most recently
numbered register instead of the one holding the pointer.
---
 src/immcgen/expression.c | 18 ++++++++++++++++++
 src/immcgen/expression.h |  1 +
 src/immcgen/immcgen.c    |  3 +++
 src/immcgen/util.c       |  2 +-
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..6f27dcc 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,24 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+
+    if (immcgen->srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 8593f51..9ff268f 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -174,7 +174,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From e5703d778ad96ddca0f2dfef7289e930198e8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:38 +0000
Subject: [PATCH 05/63] fix: shift by a variable count, shift unsigned values
 logically, and type shifts by their left operand

A non-literal shift count aborted with 'unreachable statement', unsigned right
shifts were arithmetic, and the count's type leaked into the result type.
---
 src/resolver/expression.c | 10 ++++++---
 src/x64/inst.c            |  3 ++-
 src/x64/inst.h            |  1 +
 src/x64gen/shrotinst.c    | 47 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..8bf31bf 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // the result of a shift has the type of the promoted left operand
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..de0bd84 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,7 +11,7 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",  "sete",
                             "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
                             "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
                             "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..24bd25c 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -6,12 +6,17 @@
 #include <stdlib.h>
 
 Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type);
+void gen_shift_by_reg_x64code(X64gen* x64gen, Vector* codes, Immc* immc, X64InstType type);
 
 Vector* gen_sal_x64code(X64gen* x64gen) {
     return gen_shrot_common_x64code(x64gen, X64_INST_SALX);
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    if (immc->inst->dst->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
@@ -42,6 +47,11 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
+        case IMMC_OPERAND_REG: {
+            gen_shift_by_reg_x64code(x64gen, codes, immc, type);
+            liveseqs_next(x64gen->liveseqs);
+            return codes;
+        }
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_shrot_common_x64code)\n");
@@ -59,3 +69,40 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
+
+void gen_shift_by_reg_x64code(X64gen* x64gen, Vector* codes, Immc* immc, X64InstType type) {
+    X64Suffix suffix = x64suffix_get(immcsuffix_tonbytes(immc->inst->fst_src->suffix));
+    int dst_id = CALLER_SAVED_REG_IDS[immc->inst->dst->reg->reg_id];
+    int fst_src_id = CALLER_SAVED_REG_IDS[immc->inst->fst_src->reg->reg_id];
+    int snd_src_id = CALLER_SAVED_REG_IDS[immc->inst->snd_src->reg->reg_id];
+
+    int cx_needs_evacuation = 0;
+    if (dst_id != CX_REG_ID && fst_src_id != CX_REG_ID && snd_src_id != CX_REG_ID) {
+        Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+        int cx_reg_id = CX_REG_ID;
+        cx_needs_evacuation = set_contains(alive_regs_set, &cx_reg_id);
+        delete_set(alive_regs_set);
+    }
+
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+        if (x64gen->evacuation_count < 1) {
+            x64gen->evacuation_count = 1;
+        }
+    }
+
+    // the shifted value goes through %rax, since only %cl can hold a shift count
+    append_mov_code(codes, new_reg_x64ope(suffix, fst_src_id), new_reg_x64ope(suffix, AX_REG_ID), 0);
+    append_mov_code(codes, new_reg_x64ope(X64_SUFFIX_LONG, snd_src_id), new_reg_x64ope(X64_SUFFIX_LONG, CX_REG_ID), 0);
+    X64Ope* count = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+    vector_push(codes, new_inst_x64(type, count, new_reg_x64ope(suffix, AX_REG_ID)));
+    append_mov_code(codes, new_reg_x64ope(suffix, AX_REG_ID), new_reg_x64ope(suffix, dst_id), 0);
+
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+    }
+}
-- 
2.43.0


From 85bf67c56e6abe8154b107bf849306638d44b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:15 +0000
Subject: [PATCH 06/63] fix: load 64-bit immediates through a register

Integer constants that do not fit in 32 bits were emitted as immediates of
add/and/cmp/imul/push and memory moves, which the assembler rejects.
---
 src/x64gen/arithinst.c |  4 ++--
 src/x64gen/bitinst.c   |  2 +-
 src/x64gen/ctrlinst.c  |  2 +-
 src/x64gen/datainst.c  |  4 ++--
 src/x64gen/logicinst.c |  2 +-
 src/x64gen/util.c      | 13 +++++++++++++
 src/x64gen/util.h      |  1 +
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..1d0de3e 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -40,7 +40,7 @@ Vector* gen_additive_subtractive_common_x64code(X64gen* x64gen, X64InstType type
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral, AX_REG_ID);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
@@ -101,7 +101,7 @@ Vector* gen_mul_x64code(X64gen* x64gen) {
             int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral, fst_src_id);
             X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_IMULX, snd_src, fst_src));
             break;
diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 792f401..8a7d1ca 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -78,7 +78,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..6d59661 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -93,7 +93,7 @@ Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..803694d 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -206,7 +206,7 @@ Vector* gen_store_x64code(X64gen* x64gen) {
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
             X64Suffix src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_src->suffix));
-            src = new_int_x64ope(src_suffix, iliteral_copy(immc_src->iliteral));
+            src = append_imm_code(codes, src_suffix, immc_src->iliteral, AX_REG_ID);
             break;
         }
         case IMMC_OPERAND_REG: {
@@ -271,7 +271,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            X64Ope* src = append_imm_code(codes, X64_SUFFIX_QUAD, immc_src->iliteral, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
diff --git a/src/x64gen/logicinst.c b/src/x64gen/logicinst.c
index e6e3995..e083c00 100644
--- a/src/x64gen/logicinst.c
+++ b/src/x64gen/logicinst.c
@@ -95,7 +95,7 @@ Vector* gen_bitwise_binary_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral, AX_REG_ID);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..dfd03e8 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -2,6 +2,7 @@
 #include "../liveseq/liveseq.h"
 #include "../x64/x64.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -75,6 +76,18 @@ void append_mov_code_signed(Vector* codes, X64Ope* src, X64Ope* dst) {
     }
 }
 
+X64Ope* append_imm_code(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral, X64RegisterId tmp_reg_id) {
+    long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
+    X64Ope* imm = new_int_x64ope(suffix, iliteral_copy(iliteral));
+    if (suffix != X64_SUFFIX_QUAD || (INT_MIN <= value && value <= INT_MAX)) {
+        return imm;
+    }
+
+    // only movabs can encode immediate values which do not fit in 32 bits
+    vector_push(codes, new_inst_x64(X64_INST_MOVABSX, imm, new_reg_x64ope(suffix, tmp_reg_id)));
+    return new_reg_x64ope(suffix, tmp_reg_id);
+}
+
 void liveseqs_next(Vector* liveseqs) {
     int liveseqs_len = vector_size(liveseqs);
     for (int reg_id = 0; reg_id < liveseqs_len; reg_id++) {
diff --git a/src/x64gen/util.h b/src/x64gen/util.h
index 1c50e24..c92f791 100644
--- a/src/x64gen/util.h
+++ b/src/x64gen/util.h
@@ -6,6 +6,7 @@
 #include "../x64/x64.h"
 
 void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned);
+X64Ope* append_imm_code(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral, X64RegisterId tmp_reg_id);
 void liveseqs_next(Vector* liveseqs);
 Set* create_alive_reg_induces_set(Vector* liveseqs);
 Set* create_alive_regs_set(Vector* liveseqs);
-- 
2.43.0


From bba2705622f0c07f79f682b4417b1f68f9a814dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:39 +0000
Subject: [PATCH 07/63] fix: give integer constants the first type that can
 represent them

Unsuffixed constants above INT_MAX were silently truncated to int.
---
 src/lexer/util.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..d05a3bf 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -208,12 +209,24 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+
+    // the type of an integer constant is the first type in which its value can be represented
+    if (type == INTEGER_INT && unsigned_value > INT_MAX) {
+        type = base != 10 && unsigned_value <= UINT_MAX ? INTEGER_UNSIGNED_INT : INTEGER_LONG;
+    } else if (type == INTEGER_UNSIGNED_INT && unsigned_value > UINT_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (type == INTEGER_LONG && unsigned_value > LONG_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    } else if (type == INTEGER_LONGLONG && unsigned_value > LLONG_MAX) {
+        type = INTEGER_UNSIGNED_LONGLONG;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
         return new_unsigned_iliteral(type, unsigned_value);
     } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_signed_iliteral(type, (long long)unsigned_value);
     }
 }
 
-- 
2.43.0


From de4f68a1e571f8fd0266a5d4451f9f817e9bdab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:23 +0000
Subject: [PATCH 08/63] fix: reject character constants and string literals
 left open at end of file

The lexer never noticed the end of input inside a literal and looped forever
(allocating without bound for strings).
---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..e1fb530 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -121,6 +121,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\'':
             err = new_error("character constant is empty");
             break;
+        case EOF:
+            err = new_error("character constant is not terminated");
+            break;
         default:
             break;
     }
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("character constant is not terminated");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("string literal is not terminated");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 49ab9406b6a9a6b1e8236a58e7576051d91c158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:02 +0000
Subject: [PATCH 09/63] fix: read source bytes above 0x7f and wide hexadecimal
 escapes as characters

A 0xff byte was taken for end of file, silently dropping the rest of the
source; '\xff' had the value 255 instead of -1; and long hexadecimal escapes
overflowed a signed int.
---
 src/lexer/reader.c        | 4 ++--
 src/lexer/util.c          | 2 +-
 src/resolver/expression.c | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index e1fb530..6f9d148 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -400,7 +400,7 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
     lexer->content_index++;
 
     int* hexdigit_ref = map_get(lexer->hexdigit_map, &c);
-    int value = *hexdigit_ref;
+    unsigned int value = *hexdigit_ref;
 
     while (1) {
         c = get_content_top(lexer);
@@ -412,7 +412,7 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
         lexer->content_index++;
     }
 
-    return new_errint(value);
+    return new_errint((unsigned char)value);
 }
 
 ErrorableInt* read_simple_escape_seqence(Lexer* lexer) {
diff --git a/src/lexer/util.c b/src/lexer/util.c
index d05a3bf..00c1005 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -205,7 +205,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 8bf31bf..a363c26 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1659,7 +1659,8 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    // a character constant has the value of its character converted from char to int
+    IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
-- 
2.43.0


From dd298a3d7e12c16396985e059800256db0df02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:29 +0000
Subject: [PATCH 10/63] fix: keep string bytes above 0x7f intact

Such bytes were sign-extended: the assembler text of a string overflowed its
buffer with an 11-digit octal escape, and local arrays initialised from a
string had the following bytes overwritten with 0xff.
---
 src/literal/sliteral.c | 2 +-
 src/x64gen/datainst.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..b874b6e 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -102,7 +102,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
                 len += 2;
                 break;
             default:
-                sprintf(display_string + len, "\\%03o", c);
+                sprintf(display_string + len, "\\%03o", (unsigned char)c);
                 len += 4;
                 break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 803694d..4bfb8bc 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 66af883475cb795f8762a048ebb84ab9922c2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:12 +0000
Subject: [PATCH 11/63] fix: size diagnostics and emitted lines by their
 contents

---
 src/error/error.c | 10 ++++++----
 src/immc/data.c   |  7 +++++--
 src/immc/inst.c   | 12 +++++++++---
 src/immc/label.c  |  6 +++---
 src/immc/ope.c    | 10 ++++++++--
 src/x64/data.c    |  7 +++++--
 src/x64/inst.c    | 10 +++++++---
 src/x64/label.c   |  6 +++---
 src/x64/ope.c     |  9 ++++++---
 9 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..e94cd03 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
-    vsprintf(message, format, arg);
+    int message_len = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((message_len + 1) * sizeof(char));
+    va_start(arg, format);
+    vsnprintf(message, message_len + 1, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
diff --git a/src/immc/data.c b/src/immc/data.c
index e657562..9321e84 100644
--- a/src/immc/data.c
+++ b/src/immc/data.c
@@ -46,8 +46,11 @@ ImmcData* immcdata_copy(ImmcData* immcdata) {
 }
 
 char* immcdata_tostring(ImmcData* immcdata) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    int max_len = 50;
+    if (immcdata->sliteral != NULL) {
+        max_len += 4 * immcdata->sliteral->size;
+    }
+    char* data_str = malloc(max_len * sizeof(char));
     char* display_str = NULL;
 
     switch (immcdata->type) {
diff --git a/src/immc/inst.c b/src/immc/inst.c
index 247419f..a7d9c76 100644
--- a/src/immc/inst.c
+++ b/src/immc/inst.c
@@ -40,9 +40,9 @@ ImmcInst* immcinst_copy(ImmcInst* immcinst) {
 }
 
 char* immcinst_tostring(ImmcInst* immcinst) {
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    int max_len = 100;
+    char* code_str = malloc(max_len * sizeof(char));
+    memset(code_str, 0, max_len * sizeof(char));
 
     strcat(code_str, "\t");
     strcat(code_str, immc_insts[immcinst->type]);
@@ -50,6 +50,8 @@ char* immcinst_tostring(ImmcInst* immcinst) {
     int operand_appears = 0;
     if (immcinst->dst != NULL) {
         char* dst_string = immcope_tostring(immcinst->dst);
+        max_len += strlen(dst_string);
+        code_str = realloc(code_str, max_len * sizeof(char));
         strcat(code_str, "\t");
         strcat(code_str, dst_string);
         free(dst_string);
@@ -58,6 +60,8 @@ char* immcinst_tostring(ImmcInst* immcinst) {
 
     if (immcinst->fst_src != NULL) {
         char* fst_src_string = immcope_tostring(immcinst->fst_src);
+        max_len += strlen(fst_src_string);
+        code_str = realloc(code_str, max_len * sizeof(char));
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, fst_src_string);
         free(fst_src_string);
@@ -66,6 +70,8 @@ char* immcinst_tostring(ImmcInst* immcinst) {
 
     if (immcinst->snd_src != NULL) {
         char* snd_src_string = immcope_tostring(immcinst->snd_src);
+        max_len += strlen(snd_src_string);
+        code_str = realloc(code_str, max_len * sizeof(char));
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, snd_src_string);
         free(snd_src_string);
diff --git a/src/immc/label.c b/src/immc/label.c
index 8e62b36..db0ebe2 100644
--- a/src/immc/label.c
+++ b/src/immc/label.c
@@ -39,9 +39,9 @@ ImmcLabel* immclabel_copy(ImmcLabel* immclabel) {
 }
 
 char* immclabel_tostring(ImmcLabel* immclabel) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    int max_len = 50 + strlen(immclabel->name);
+    char* label_str = malloc(max_len * sizeof(char));
+    memset(label_str, 0, max_len * sizeof(char));
 
     switch (immclabel->visibility) {
         case IMMC_VIS_GLOBAL:
diff --git a/src/immc/ope.c b/src/immc/ope.c
index 56c4289..d210ed5 100644
--- a/src/immc/ope.c
+++ b/src/immc/ope.c
@@ -138,8 +138,14 @@ ImmcOpe* immcope_copy(ImmcOpe* immcope) {
 }
 
 char* immcope_tostring(ImmcOpe* immcope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int max_len = 50;
+    if (immcope->label_name != NULL) {
+        max_len += strlen(immcope->label_name);
+    }
+    if (immcope->sliteral != NULL) {
+        max_len += 4 * immcope->sliteral->size;
+    }
+    char* ope_str = malloc(max_len * sizeof(char));
 
     switch (immcope->type) {
         case IMMC_OPERAND_ARG: {
diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..bc2860f 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,8 +45,11 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    int max_len = 50;
+    if (x64data->sliteral != NULL) {
+        max_len += 4 * x64data->sliteral->size;
+    }
+    char* data_str = malloc(max_len * sizeof(char));
     char* display_str = NULL;
 
     switch (x64data->type) {
diff --git a/src/x64/inst.c b/src/x64/inst.c
index de0bd84..72d41bc 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,9 +41,9 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    int max_len = 100;
+    char* code_str = malloc(max_len * sizeof(char));
+    memset(code_str, 0, max_len * sizeof(char));
 
     char* instcode_string = x64instcode_tostring(x64inst);
     strcat(code_str, "\t");
@@ -53,6 +53,8 @@ char* x64inst_tostring(X64Inst* x64inst) {
     int operand_appears = 0;
     if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
         char* src_string = x64ope_tostring(x64inst->src);
+        max_len += strlen(src_string);
+        code_str = realloc(code_str, max_len * sizeof(char));
         strcat(code_str, "\t");
         strcat(code_str, src_string);
         free(src_string);
@@ -61,6 +63,8 @@ char* x64inst_tostring(X64Inst* x64inst) {
 
     if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
         char* dst_string = x64ope_tostring(x64inst->dst);
+        max_len += strlen(dst_string);
+        code_str = realloc(code_str, max_len * sizeof(char));
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, dst_string);
         free(dst_string);
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..0ffe7eb 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,9 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    int max_len = 50 + 2 * strlen(x64label->name);
+    char* label_str = malloc(max_len * sizeof(char));
+    memset(label_str, 0, max_len * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..46ea21f 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,12 +103,15 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int max_len = 50;
+    if (x64ope->label_name != NULL) {
+        max_len += strlen(x64ope->label_name);
+    }
+    char* ope_str = malloc(max_len * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-            memset(ope_str, 0, 50 * sizeof(char));
+            memset(ope_str, 0, max_len * sizeof(char));
             break;
         case X64_OPERAND_REG:
             sprintf(ope_str, "%s", reg_name(x64ope->reg_id, x64ope->suffix));
-- 
2.43.0


From 84b7b11aff9596b115567c6a9c4220b703b1534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:11 +0000
Subject: [PATCH 12/63] fix: emit the alert escape in a form the assembler
 reads

---
 src/x64/data.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index bc2860f..254a018 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,6 +45,8 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
+    char* x64data_ascii_string(StringLiteral * sliteral);
+
     int max_len = 50;
     if (x64data->sliteral != NULL) {
         max_len += 4 * x64data->sliteral->size;
@@ -79,7 +81,7 @@ char* x64data_tostring(X64Data* x64data) {
             free(display_str);
             break;
         case X64_DATA_STR:
-            display_str = sliteral_display_string(x64data->sliteral);
+            display_str = x64data_ascii_string(x64data->sliteral);
             sprintf(data_str, "\t.ascii\t%s\n", display_str);
             free(display_str);
             break;
@@ -89,6 +91,29 @@ char* x64data_tostring(X64Data* x64data) {
     return data_str;
 }
 
+// the assembler does not know the escape sequence '\a'
+char* x64data_ascii_string(StringLiteral* sliteral) {
+    char* display_str = sliteral_display_string(sliteral);
+    char* ascii_str = malloc((2 * strlen(display_str) + 1) * sizeof(char));
+
+    int len = 0;
+    for (char* c = display_str; *c != '\0'; c++) {
+        if (c[0] == '\\' && c[1] == 'a') {
+            len += sprintf(ascii_str + len, "\\007");
+            c++;
+            continue;
+        }
+        ascii_str[len++] = *c;
+        if (c[0] == '\\' && c[1] != '\0') {
+            ascii_str[len++] = *++c;
+        }
+    }
+    ascii_str[len] = '\0';
+
+    free(display_str);
+    return ascii_str;
+}
+
 void delete_x64data(X64Data* x64data) {
     if (x64data->iliteral != NULL) {
         delete_iliteral(x64data->iliteral);
-- 
2.43.0


From 0cc48adf099077995a7679c32dfd149788971d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:00 +0000
Subject: [PATCH 13/63] fix: reject sources that cannot be read whole or
 contain null characters

---
 src/freader/freader.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..24e808d 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,6 +1,7 @@
 #include "./freader.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -21,9 +22,25 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     rewind(freader->file_ptr);
 
-    file_content = malloc(file_size + 1);
+    file_content = malloc((size_t)file_size + 1);
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
+
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
     file_content[file_size] = '\0';
+    if (ferror(freader->file_ptr)) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
+
+    if (memchr(file_content, '\0', file_size) != NULL) {
+        free(file_content);
+        err = new_error("file contains null character");
+        return new_freaderret_error(err);
+    }
 
     file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
-- 
2.43.0


From 0af2d684c7a1f3590a873a49daca71d196136553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 14/63] fix: report output files that cannot be opened or
 written

---
 src/main.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index c6ae2ec..ce5ec61 100644
--- a/src/main.c
+++ b/src/main.c
@@ -27,6 +27,7 @@ int main(int argc, char* argv[]) {
     char* ext = strrchr(argv[1], '.');
     if (ext == NULL || strcmp(ext, ".c") != 0) {
         fprintf(stderr, "\x1b[1;31merror\x1b[0m: file format is not .c\n");
+        fclose(src);
         return 1;
     }
 
@@ -102,7 +103,13 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to open file\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,9 +117,16 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
-
     delete_vector(x64codes);
 
+    int write_failed = ferror(dst);
+    if (fclose(dst) != 0 || write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to write file\n", dst_filename);
+        remove(dst_filename);
+        free(dst_filename);
+        return 1;
+    }
+
+    free(dst_filename);
     return 0;
 }
-- 
2.43.0


From 3122cdba863ba71f54ee536990441f685f43abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:38 +0000
Subject: [PATCH 15/63] fix: zero-fill omitted initializers of every scalar
 type

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..afe2bf8 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,7 +1070,13 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
         case DTYPE_POINTER:
+        case DTYPE_ENUM:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
             break;
-- 
2.43.0


From 4c9df562a543560c3a1f7bfe2a74445d393fac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:52 +0000
Subject: [PATCH 16/63] fix: skip the trailing padding of local structs being
 initialized

---
 src/immcgen/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..999c954 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -244,6 +244,8 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         append_child_immcode(immcgen, codes, i);
     }
 
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
+
     return codes;
 }
 
-- 
2.43.0


From 1e6863569f8f1ba79fa1cbba68b70c729369f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 17/63] fix: let a string initialize exactly one array of an
 enclosing aggregate

---
 src/resolver/declaration.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index afe2bf8..370b6a1 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1253,7 +1253,9 @@ ResolverReturn* resolve_string_initializer(Resolver* resolver) {
     Ast* literal_ast = resolver->ast;
     DType* dtype = resolver->initialized_dtype;
 
-    if (literal_ast->type == AST_INIT_LIST && vector_size(literal_ast->children) == 1) {
+    if (resolver->is_nested_initializing) {
+        literal_ast = vector_at(literal_ast->children, resolver->initialized_offset);
+    } else if (literal_ast->type == AST_INIT_LIST && vector_size(literal_ast->children) == 1) {
         literal_ast = vector_at(literal_ast->children, 0);
     }
 
@@ -1261,6 +1263,10 @@ ResolverReturn* resolve_string_initializer(Resolver* resolver) {
         return resolve_aggregate_initializer(resolver);
     }
 
+    if (resolver->is_nested_initializing) {
+        resolver->initialized_offset++;
+    }
+
     if (literal_ast->sliteral->size - 1 > dtype->darray->size) {
         errs = new_vector(&t_error);
         err = new_error("initializer string literal is too long");
-- 
2.43.0


From 261f4ad3025d37727d3cc31a049e28e31498180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:23 +0000
Subject: [PATCH 18/63] fix: evaluate signed constants in global initializers
 and diagnose unsupported ones

---
 src/immcgen/declaration.c | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 999c954..4c6dcaa 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -261,15 +261,16 @@ Vector* gen_scalar_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
+    IntegerLiteral* create_constant_iliteral(Srt * srt);
+
     Vector* codes = new_vector(&t_immc);
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
-    // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
+    // TODO: support binary expression for global initializer
+    IntegerLiteral* src_iliteral = create_constant_iliteral(srt);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, src_iliteral);
+    delete_iliteral(src_iliteral);
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
@@ -293,6 +294,35 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+IntegerLiteral* create_constant_iliteral(Srt* srt) {
+    if (srt->type == SRT_ILITERAL_EXPR) {
+        return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+    }
+
+    if (srt->type != SRT_CAST_EXPR && srt->type != SRT_POS_EXPR && srt->type != SRT_NEG_EXPR &&
+        srt->type != SRT_NOT_EXPR) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: "
+                        "only integer constant is supported as initializer of global object\n");
+        exit(1);
+    }
+
+    IntegerLiteral* operand = create_constant_iliteral(vector_at(srt->children, 0));
+    unsigned long long value =
+        iliteral_isunsigned(operand) ? operand->unsigned_value : (unsigned long long)operand->signed_value;
+    delete_iliteral(operand);
+
+    if (srt->type == SRT_NEG_EXPR) {
+        value = 0 - value;
+    } else if (srt->type == SRT_NOT_EXPR) {
+        value = ~value;
+    }
+
+    IntegerLiteral* result = new_unsigned_iliteral(INTEGER_UNSIGNED_LONGLONG, value);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(srt->dtype, result);
+    delete_iliteral(result);
+    return iliteral;
+}
+
 Vector* gen_local_scalar_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
-- 
2.43.0


From 28236510181c6c5380508bf48e8289c9bcc3e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 19/63] fix: keep the scratch register out of allocation and
 diagnose register exhaustion

---
 src/main.c              |  3 ++-
 src/regalloc/regalloc.c | 23 ++++++++++++++++-------
 src/x64/register.c      |  2 +-
 src/x64gen/arithinst.c  |  2 +-
 src/x64gen/ctrlinst.c   |  8 ++++++--
 src/x64gen/datainst.c   |  4 ++--
 6 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/main.c b/src/main.c
index ce5ec61..43fd847 100644
--- a/src/main.c
+++ b/src/main.c
@@ -90,7 +90,8 @@ int main(int argc, char* argv[]) {
     Vector* immcs = immcgen_generate_immcode(immcgen);
     delete_immcgen(immcgen);
 
-    RegAlloc* regalloc = new_regalloc(immcs, NUM_CALLER_SAVED_REGS);
+    // the last caller-saved register is reserved for temporary values of x64gen
+    RegAlloc* regalloc = new_regalloc(immcs, NUM_CALLER_SAVED_REGS - 1);
     Vector* allocated_immcs = NULL;
     Vector* liveseqs = NULL;
     regallocret_assign(&allocated_immcs, &liveseqs, regalloc_allocate_regs(regalloc));
diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..c315399 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -384,7 +385,8 @@ void spil_register(Vector* allocations, Vector* statuses, Vector* livenesses, in
 }
 
 Vector* gen_allocated_immcs(Vector* external_immcs, Vector* allocations) {
-    // TODO: implement spiling
+    int get_allocation(Vector * allocations, int virtual_reg_id);
+
     Vector* allocated_immcs = new_vector(&t_immc);
 
     int immcs_len = vector_size(external_immcs);
@@ -397,20 +399,17 @@ Vector* gen_allocated_immcs(Vector* external_immcs, Vector* allocations) {
 
         ImmcOpe* fst_src = immc->inst->fst_src;
         if (fst_src != NULL && (fst_src->type == IMMC_OPERAND_REG || fst_src->type == IMMC_OPERAND_PTR)) {
-            int* allocation = vector_at(allocations, fst_src->reg->reg_id);
-            fst_src->reg->reg_id = *allocation;
+            fst_src->reg->reg_id = get_allocation(allocations, fst_src->reg->reg_id);
         }
 
         ImmcOpe* snd_src = immc->inst->snd_src;
         if (snd_src != NULL && (snd_src->type == IMMC_OPERAND_REG || snd_src->type == IMMC_OPERAND_PTR)) {
-            int* allocation = vector_at(allocations, snd_src->reg->reg_id);
-            snd_src->reg->reg_id = *allocation;
+            snd_src->reg->reg_id = get_allocation(allocations, snd_src->reg->reg_id);
         }
 
         ImmcOpe* dst = immc->inst->dst;
         if (dst != NULL && (dst->type == IMMC_OPERAND_REG || dst->type == IMMC_OPERAND_PTR)) {
-            int* allocation = vector_at(allocations, dst->reg->reg_id);
-            dst->reg->reg_id = *allocation;
+            dst->reg->reg_id = get_allocation(allocations, dst->reg->reg_id);
         }
         vector_push(allocated_immcs, immc);
     }
@@ -418,6 +417,16 @@ Vector* gen_allocated_immcs(Vector* external_immcs, Vector* allocations) {
     return allocated_immcs;
 }
 
+int get_allocation(Vector* allocations, int virtual_reg_id) {
+    int* allocation = vector_at(allocations, virtual_reg_id);
+    // TODO: implement spiling
+    if (*allocation == -1) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: expression is too complex to allocate registers\n");
+        exit(1);
+    }
+    return *allocation;
+}
+
 void update_liveseqs(Vector* liveseqs, Vector* livenesses, Vector* allocations) {
     int num_virtual_regs = vector_size(livenesses);
     for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
diff --git a/src/x64/register.c b/src/x64/register.c
index 5d57002..c4d70d1 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -7,7 +7,7 @@ int ARG_REG_IDS[6] = {DI_REG_ID, SI_REG_ID, DX_REG_ID, CX_REG_ID, R8_REG_ID, R9_
 
 int NUM_CALLER_SAVED_REGS = 8;
 int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
-                               R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
+                               R8_REG_ID, R9_REG_ID, R11_REG_ID, R10_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
 int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 1d0de3e..e455d63 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -167,7 +167,7 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
-            snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 1];
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 6d59661..c3e3858 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -138,13 +138,17 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
+    // TODO: support case that evacuation_count is greater than NUM_CALLEE_SAVED_REGS
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
         if (*caller_ref == immc->inst->dst->reg->reg_id) {
             continue;
         }
+        if (evacuation_count >= NUM_CALLEE_SAVED_REGS) {
+            fprintf(stderr, "\x1b[1;31merror\x1b[0m: expression is too complex to preserve registers over a call\n");
+            exit(1);
+        }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
         X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
@@ -159,7 +163,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
         src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
         Set* arg_regs_set = create_arg_regs_set(num_args);
         if (set_contains(arg_regs_set, &src_id)) {
-            int evacuation_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            int evacuation_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 1];
             X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, evacuation_id);
             X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, src_id);
             append_mov_code(codes, evacuation_src, evacuation_dst, 0);
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 4bfb8bc..bf2249a 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -106,7 +106,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     int mem_offset = immmc_dst->mem_offset;
     int index_offset = 0;
 
-    int tmp_reg_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+    int tmp_reg_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 1];
     int unit_size = x64suffix_tonbytes(X64_SUFFIX_QUAD);
 
     while (index_offset + unit_size <= immc_src->sliteral->size) {
@@ -248,7 +248,7 @@ Vector* gen_ldarg_x64code(X64gen* x64gen) {
 
     // (1-indexed non-register param no.) * (bytes of memory address) + (offset for pushq %rbp)
     int mem_arg_offset = -(immc_src->reg->reg_id - NUM_ARG_REGS + 1) * 8 - 8;
-    int tmp_reg_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+    int tmp_reg_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 1];
 
     X64Ope* src = new_mem_x64ope(mem_arg_offset);
     X64Ope* tmp_src = new_reg_x64ope(src_suffix, tmp_reg_id);
-- 
2.43.0


From 2034348ef786208c3186d6eeea73371bc219db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 20/63] fix: promote char operands of pointer arithmetic and
 subscripts

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index a363c26..f3cc4a7 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -785,10 +785,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
         dtype = dtype_copy(rhs_srt->dtype);
+        lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
     }
@@ -841,6 +843,7 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
@@ -1318,6 +1321,7 @@ ResolverReturn* resolve_subscription_expr(Resolver* resolver) {
     }
 
     dtype = dtype_copy(lhs_srt->dtype);
+    rhs_srt = perform_integer_promotion(rhs_srt);
     srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype_copy(lhs_srt->dtype->dpointer->to_dtype), 1, srt);
     return new_resolverret(srt);
-- 
2.43.0


From 3ac274561227078fcf919ea18360f164ff7bec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 21/63] fix: divide pointer differences as signed values

---
 src/immcgen/expression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 6f27dcc..fc86d5d 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -303,6 +303,8 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* fst_src = gen_child_reg_immcope(immcgen, codes, 0);
     ImmcOpe* snd_src = gen_child_reg_immcope(immcgen, codes, 1);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    // the difference is negative when fst_src precedes snd_src
+    dst->reg->is_unsigned = 0;
 
     Srt* lhs_srt = vector_at(srt->children, 0);
     int nbytes = dtype_nbytes(lhs_srt->dtype->dpointer->to_dtype);
-- 
2.43.0


From 22515ce22a49ffce05ef5bf6f891c87fbe1a2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:17 +0000
Subject: [PATCH 22/63] fix: clear the upper half of registers narrowed to 32
 bits

---
 src/x64gen/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index dfd03e8..3b08f63 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -26,7 +26,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // narrowing to 32 bits has to clear the upper half of the register
+    int is_narrowing_quad = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !is_narrowing_quad) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
@@ -45,6 +47,8 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         delete_x64ope(dst);
         return;
     }
+    // 32-bit move clears the upper half of the destination
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From c9742e8279ec991851f7d374e91e32e9e85226fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 23/63] fix: keep the stack aligned for calls made while
 evaluating arguments

---
 src/x64gen/ctrlinst.c | 24 +++++++++++++++++++++---
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index c3e3858..c71245e 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -175,6 +175,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->stack_depth--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -287,7 +288,14 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+
+    // stack pointer may be shifted by arguments of outer calls
+    int padding = (x64gen->stack_depth + num_mem_args) % 2;
+    x64gen->stack_depth += padding;
+    vector_push(x64gen->call_paddings, new_integer(padding));
+
+    if (padding > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -305,8 +313,18 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+
+    int padding = num_mem_args % 2;
+    if (vector_size(x64gen->call_paddings) > 0) {
+        int* padding_ref = vector_pop(x64gen->call_paddings);
+        padding = *padding_ref;
+        free(padding_ref);
+    }
+    x64gen->stack_depth -= num_mem_args + padding;
+
+    if (num_mem_args + padding > 0) {
+        int mem_param_offset = (num_mem_args + padding) * 8;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index bf2249a..06ac9a5 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -285,6 +285,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
                             "unreachable statement (in gen_starg_x64code)\n");
             exit(1);
     }
+    x64gen->stack_depth++;
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..dca7b81 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->stack_depth = 0;
+    x64gen->call_paddings = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_paddings);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..03a049e 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int stack_depth;
+    Vector* call_paddings;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 659b6abcef97d718f383f4f77eb3bf576fb4e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 24/63] fix: keep string literal labels local to their object
 file

---
 src/x64gen/label.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index f9c31bd..ee9413d 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -36,6 +36,11 @@ Vector* gen_label_x64code(X64gen* x64gen) {
             break;
     }
 
+    // labels of string literals are not identifiers and must not be visible to other object files
+    if (immc->label->name[0] == '.') {
+        visibility = X64_VIS_NONE;
+    }
+
     vector_push(codes, new_label_x64(type, visibility, new_string(immc->label->name)));
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From cf6e8d18211db9c6df98aba0ea7c923a84a6895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:15 +0000
Subject: [PATCH 25/63] fix: parse each operand of an assignment expression
 once

---
 src/parser/expression.c | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..2114bd5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -23,14 +23,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
 
     int terminated = 0;
     while (!terminated) {
-        int index = parser->index;
-
-        parserret_assign(&ast, &err, parse_unary_expr(parser));
+        // parse the operand only once, resolver rejects left-hand sides which are not lvalues
+        parserret_assign(&ast, &err, parse_conditional_expr(parser));
         if (err != NULL) {
-            parser->index = index;
-            delete_error(err);
-            err = NULL;
-            break;
+            delete_vector(stack);
+            return new_parserret_error(err);
         }
 
         CToken* ctoken = vector_at(parser->ctokens, parser->index);
@@ -80,22 +77,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
-                parser->index = index;
-                delete_ast(ast);
                 terminated = 1;
                 break;
         }
     }
 
-    parserret_assign(&ast, &err, parse_conditional_expr(parser));
-    if (err != NULL) {
-        delete_vector(stack);
-        return new_parserret_error(err);
-    }
-
-    vector_push(stack, ast);
-
-    ast = vector_pop(stack);
     while (vector_size(stack) > 0) {
         Ast* next_ast = vector_pop(stack);
         vector_push(next_ast->children, ast);
-- 
2.43.0


From e406e68726c6797797729b57fcc0daaf33f8c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 26/63] fix: encode shift counts in the range the assembler
 accepts

---
 src/x64gen/shrotinst.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 24bd25c..b764ebe 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -43,7 +43,11 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            // a shift count is encoded in 8 bits, of which the processor uses the lower 6
+            IntegerLiteral* count = iliteral_copy(immc_snd_src->iliteral);
+            count->signed_value &= 0x3f;
+            count->unsigned_value &= 0x3f;
+            X64Ope* snd_src = new_int_x64ope(suffix, count);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
-- 
2.43.0


From 385dd6349418418af7075457f3359fabdcf2486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:50 +0000
Subject: [PATCH 27/63] fix: do not load struct values into registers when they
 are discarded

---
 src/immcgen/expression.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index fc86d5d..c06c7d8 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -35,6 +35,22 @@ Vector* gen_conditional_expr_immcode(Immcgen* immcgen) {
     label = new_label_immcope_from_id(false_label_id);
     append_child_jmp_false_immcode(immcgen, codes, 0, label);
 
+    if (immcgen->srt->dtype->type == DTYPE_STRUCT) {
+        append_child_immcode(immcgen, codes, 1);
+
+        label = new_label_immcope_from_id(end_label_id);
+        vector_push(codes, new_inst_immc(IMMC_INST_JMP, label, NULL, NULL));
+
+        vector_push(codes, new_label_immc_from_id(IMMC_LABEL_NORMAL, IMMC_VIS_NONE, false_label_id));
+
+        append_child_immcode(immcgen, codes, 2);
+
+        vector_push(codes, new_label_immc_from_id(IMMC_LABEL_NORMAL, IMMC_VIS_NONE, end_label_id));
+
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     dst = create_dest_reg_immcope(immcgen);
     src = gen_child_reg_immcope(immcgen, codes, 1);
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -528,6 +544,14 @@ Vector* gen_indirection_expr_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
     ImmcOpe* src = gen_child_ptr_immcope(immcgen, codes, 0);
+
+    // a struct value is not held in a register, its members are accessed by address
+    if (immcgen->srt->dtype->type == DTYPE_STRUCT) {
+        delete_immcope(src);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
 
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -659,6 +683,11 @@ Vector* gen_tomember_expr_immcode(Immcgen* immcgen) {
     delete_srt(immcgen->srt);
     immcgen->srt = srt;
 
+    if (srt->dtype->type == DTYPE_STRUCT) {
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     ImmcOpe* src = new_ptr_immcope(immcgen->expr_reg->reg_id);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
@@ -731,6 +760,11 @@ Vector* gen_primary_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* dst = NULL;
     ImmcOpe* src = NULL;
 
+    if (srt->dtype->type == DTYPE_STRUCT) {
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
     switch (srt->type) {
         case SRT_IDENT_EXPR: {
             Symbol* symbol = symboltable_search(immcgen->symbol_table, srt->ident_name);
-- 
2.43.0


From de90248dc478323287ad7e948fba06aace864b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:01 +0000
Subject: [PATCH 28/63] fix: refuse functions that take or return structs by
 value

---
 src/resolver/expression.c |  8 ++++++++
 src/resolver/external.c   | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index f3cc4a7..6390bd8 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1354,6 +1354,14 @@ ResolverReturn* resolve_call_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (lhs_srt->dtype->dpointer->to_dtype->dfunction->return_dtype->type == DTYPE_STRUCT) {
+        errs = new_vector(&t_error);
+        err = new_error("returning a struct by value is not supported");
+        vector_push(errs, err);
+        delete_srt(lhs_srt);
+        return new_resolverret_errors(errs);
+    }
+
     DType* original_call_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     resolver->ast = vector_at(ast->children, 1);
diff --git a/src/resolver/external.c b/src/resolver/external.c
index 1df8228..031d176 100644
--- a/src/resolver/external.c
+++ b/src/resolver/external.c
@@ -110,13 +110,25 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
     int num_params = vector_size(params);
     for (int i = 0; i < num_params; i++) {
         DParam* dparam = vector_at(params, i);
-        if (dparam->name != NULL) {
+        if (dparam->name != NULL && dparam->dtype->type != DTYPE_STRUCT) {
             continue;
         }
         if (errs == NULL) {
             errs = new_vector(&t_error);
         }
-        err = new_error("parameter name is required in a function definition");
+        if (dparam->name == NULL) {
+            err = new_error("parameter name is required in a function definition");
+        } else {
+            err = new_error("passing a struct by value is not supported for parameter '%s'", dparam->name);
+        }
+        vector_push(errs, err);
+    }
+
+    if (declarator_srt->dtype->dfunction->return_dtype->type == DTYPE_STRUCT) {
+        if (errs == NULL) {
+            errs = new_vector(&t_error);
+        }
+        err = new_error("returning a struct by value is not supported in function '%s'", declarator_srt->ident_name);
         vector_push(errs, err);
     }
 
-- 
2.43.0


From 0ac90cb8be063a91165ca3d46f114c3d6b1c7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:37 +0000
Subject: [PATCH 29/63] fix: diagnose struct specifiers naming an enum tag

---
 src/resolver/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 370b6a1..e29e039 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -226,6 +226,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not a struct", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
-- 
2.43.0


From 2b576e828b9bee13b1c3d682b70608cb87324864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:56 +0000
Subject: [PATCH 30/63] fix: use the size of structs completed after they were
 referred to

---
 src/resolver/expression.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 6390bd8..0f9935c 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+void complete_struct_dtype(Resolver* resolver, DType* dtype);
+
 ResolverReturn* resolve_expr(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -100,9 +102,27 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     if (errs != NULL) {
         return new_resolverret_errors(errs);
     }
+    complete_struct_dtype(resolver, srt->dtype);
     return new_resolverret(srt);
 }
 
+// a struct may have been defined after the declaration which referred to it
+void complete_struct_dtype(Resolver* resolver, DType* dtype) {
+    while (dtype != NULL && (dtype->type == DTYPE_POINTER || dtype->type == DTYPE_ARRAY)) {
+        dtype = dtype->type == DTYPE_POINTER ? dtype->dpointer->to_dtype : dtype->darray->of_dtype;
+    }
+    if (dtype == NULL || dtype->type != DTYPE_STRUCT || dtype->dstruct->members != NULL ||
+        !dtype_isincomplete(dtype)) {
+        return;
+    }
+
+    DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+    if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+        dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+        dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+    }
+}
+
 ResolverReturn* resolve_assignment_expr(Resolver* resolver) {
     Srt* srt = NULL;
     DType* dtype = NULL;
-- 
2.43.0


From d38a3c84c8444911e160f8db37affe245aaf5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:59 +0000
Subject: [PATCH 31/63] fix: let arrays and functions decay to pointers in
 casts

---
 src/resolver/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 0f9935c..9e57088 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -988,6 +988,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From 1fb2d04e3186231c72b393a0d81a5db753e6cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:47 +0000
Subject: [PATCH 32/63] fix: give structs whose tag hides an outer one a type
 of their own

---
 src/resolver/declaration.c | 34 +++++++++++++++++++++++++---------
 src/resolver/expression.c  |  7 ++++---
 src/tagtab/tagtab.c        | 27 +++++++++++++++++++++++++++
 src/tagtab/tagtab.h        |  2 ++
 4 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index e29e039..fbdaa38 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -205,8 +205,14 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     }
 
     Vector* members = NULL;
+    char* type_name = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+        // a struct whose tag hides the one of an outer scope is a type of its own, also for its members
+        if (struct_name != NULL && tagtable_can_define(resolver->tag_table, struct_name) &&
+            tagtable_search(resolver->tag_table, struct_name) != NULL) {
+            type_name = tagtable_hide_struct(resolver->tag_table, struct_name);
+        }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
@@ -215,9 +221,17 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
         if (struct_name != NULL) {
             free(struct_name);
         }
+        if (type_name != NULL) {
+            free(type_name);
+        }
         return new_resolverret_dtype_errors(errs);
     }
 
+    if (type_name != NULL) {
+        free(struct_name);
+        struct_name = type_name;
+    }
+
     if (struct_name == NULL) {
         dtype = new_unnamed_struct_dtype(members);
         return new_resolverret_dtype(dtype);
@@ -233,6 +247,11 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
             free(struct_name);
             return new_resolverret_dtype_errors(errs);
         }
+        if (unnamed_dtype != NULL && unnamed_dtype->dstruct->members == NULL) {
+            free(struct_name);
+            struct_name = new_string(unnamed_dtype->dstruct->name);
+            unnamed_dtype = tagtable_search_struct(resolver->tag_table, struct_name);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -586,16 +605,13 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* complete_dtype = NULL;
     switch (dtype->type) {
         case DTYPE_STRUCT:
-            complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+            complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
                 break;
 
-            if (complete_dtype->type == DTYPE_STRUCT) {
-                dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
-                dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
-                break;
-            }
-            // fall through
+            dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+            dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+            break;
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in resolve_typedef_name_specifier)\n");
@@ -1041,7 +1057,7 @@ ResolverReturn* resolve_initializer(Resolver* resolver) {
     } else if (dtype->type == DTYPE_ARRAY && dtype->darray->of_dtype->type == DTYPE_CHAR) {
         resolverret_assign(&srt, &errs, resolve_string_initializer(resolver));
     } else if (dtype->type == DTYPE_STRUCT && dtype->dstruct->members == NULL) {
-        resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
     } else if (dtype->type == DTYPE_ARRAY || dtype->type == DTYPE_STRUCT) {
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
@@ -1093,7 +1109,7 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->members == NULL) {
-                resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             }
             // resolve_zero_aggregate_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_aggregate_initializer(resolver));
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 9e57088..d50ac64 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -116,8 +116,8 @@ void complete_struct_dtype(Resolver* resolver, DType* dtype) {
         return;
     }
 
-    DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
-    if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+    DType* complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
+    if (complete_dtype != NULL) {
         dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
         dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
     }
@@ -1446,13 +1446,14 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
     DType* original_member_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     if (resolver->expr_dtype->dstruct->members == NULL) {
-        resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
+        resolver->expr_dtype = tagtable_search_struct(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
     if (resolver->expr_dtype == NULL) {
         errs = new_vector(&t_error);
         err = new_error("struct '%s' is incomplete", lhs_srt->dtype->dpointer->to_dtype->dstruct->name);
         vector_push(errs, err);
+        resolver->expr_dtype = original_member_dtype;
         delete_srt(lhs_srt);
         return new_resolverret_errors(errs);
     }
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..bd04df6 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -1,6 +1,8 @@
 #include "./tagtab.h"
 
+#include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 TagTable* new_tagtable(void) {
     TagTable* table = malloc(sizeof(TagTable));
@@ -35,6 +37,31 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+// searches the definition of a struct type, which is visible even where its tag is hidden by another one
+DType* tagtable_search_struct(TagTable* table, char* name) {
+    while (table != NULL) {
+        DType* dtype = map_get(table->map, name);
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT && dtype->dstruct->members != NULL) {
+            return dtype;
+        }
+        table = table->outer_scope;
+    }
+    return NULL;
+}
+
+// lets name denote a new struct type in this scope, and returns the name of that type
+char* tagtable_hide_struct(TagTable* table, char* name) {
+    char* type_name = malloc(strlen(name) + 16);
+    int id = 0;
+    do {
+        id++;
+        sprintf(type_name, "%s.%d", name, id);
+    } while (tagtable_search(table, type_name) != NULL);
+
+    map_add(table->map, new_string(name), new_named_struct_dtype(new_string(type_name), 0, 0));
+    return type_name;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..91e865f 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -17,6 +17,8 @@ int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
+DType* tagtable_search_struct(TagTable* table, char* name);
+char* tagtable_hide_struct(TagTable* table, char* name);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0


From 841bfd4173962ddbec448d8e26a06cb60c466987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:04 +0000
Subject: [PATCH 33/63] fix: keep string initializers inside the object they
 initialize

---
 src/immcgen/declaration.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 4c6dcaa..93e28e7 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -7,6 +7,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 Vector* gen_decl_list_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
@@ -181,10 +182,25 @@ Vector* gen_local_string_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
     Srt* srt = vector_at(immcgen->srt->children, 0);
 
-    ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset);
-    ImmcOpe* src = new_str_immcope(sliteral_copy(srt->sliteral));
+    // the store of the last 3, 5, 6 or 7 bytes of a string is rounded up to a power of two,
+    // so a string is split where that would reach beyond the 4-byte unit it ends in
+    int index = 0;
+    while (index < srt->sliteral->size) {
+        int offset = immcgen->initialized_offset - index;
+        int size = srt->sliteral->size - index;
+        int rest_size = size % 8;
+        int stored_size = rest_size > 4 ? size - rest_size + 8 : rest_size == 3 ? size + 1 : size;
+        if (offset - stored_size < (offset - size) / 4 * 4) {
+            size = size > 8 ? size - rest_size : size > 4 ? 4 : 2;
+        }
 
-    vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        char* value = malloc(size * sizeof(char));
+        memcpy(value, srt->sliteral->value + index, size * sizeof(char));
+        ImmcOpe* dst = new_mem_immcope(offset);
+        ImmcOpe* src = new_str_immcope(new_sliteral(value, size));
+        vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        index += size;
+    }
     immcgen->initialized_offset -= dtype_nbytes(immcgen->initialized_dtype);
 
     return codes;
-- 
2.43.0


From 6698b6b297140b243393c6a002272437fbe7c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:29 +0000
Subject: [PATCH 34/63] fix: diagnose enum specifiers naming a struct tag

---
 src/resolver/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index fbdaa38..a4b8b68 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -474,6 +474,14 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
+        DType* enum_dtype = tagtable_search(resolver->tag_table, enum_name);
+        if (enum_dtype != NULL && enum_dtype->type != DTYPE_ENUM) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' does not name an enum", enum_name);
+            vector_push(errs, err);
+            free(enum_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         free(enum_name);
         dtype = new_integer_dtype(DTYPE_INT);
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 137ca1ef00c2dfb1c5adda85a724fe905df935ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:59 +0000
Subject: [PATCH 35/63] fix: let arrays decay to pointers before ->

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index d50ac64..a12447c 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1429,6 +1429,10 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (ast->type == AST_TOMEMBER_EXPR) {
+        lhs_srt = convert_to_ptr_if_array(lhs_srt);
+    }
+
     if (ast->type == AST_TOMEMBER_EXPR &&
         (lhs_srt->dtype->type != DTYPE_POINTER || lhs_srt->dtype->dpointer->to_dtype->type != DTYPE_STRUCT)) {
         errs = new_vector(&t_error);
-- 
2.43.0


From 4938417a81a350de731f4b6816565cec8795884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 36/63] fix: refuse integer constants too large for any type

---
 src/lexer/reader.c | 15 ++++++++++++---
 src/lexer/util.c   |  5 +++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 6f9d148..fd74fae 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -68,8 +68,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            return new_lexerret_item_error(new_error("integer constant is too large"));
+        }
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -84,8 +87,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 010, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            return new_lexerret_item_error(new_error("integer constant is too large"));
+        }
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -97,8 +103,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
     IntegerLiteralType suffix = read_integer_suffix(lexer);
 
     IntegerLiteral* iliteral = create_iliteral(value, 10, suffix);
-    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     free(value);
+    if (iliteral == NULL) {
+        return new_lexerret_item_error(new_error("integer constant is too large"));
+    }
+    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     return new_lexerret_item(ctoken);
 }
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 00c1005..276fee3 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -209,7 +210,11 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    errno = 0;
     unsigned long long unsigned_value = strtoull(value, NULL, base);
+    if (errno == ERANGE) {
+        return NULL;
+    }
 
     // the type of an integer constant is the first type in which its value can be represented
     if (type == INTEGER_INT && unsigned_value > INT_MAX) {
-- 
2.43.0


From 8d92b2bbce85d1ecae3547211369192b9f0e2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:44 +0000
Subject: [PATCH 37/63] fix: accept typedef names of void and function types
 returning void

---
 src/resolver/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index a4b8b68..653905f 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -620,6 +620,8 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
             dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
             dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
             break;
+        case DTYPE_VOID:
+            break;
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in resolve_typedef_name_specifier)\n");
@@ -853,7 +855,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                 }
 
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
-                    resolver->specifier_dtype->type != DTYPE_VOID) {
+                    plug_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
                     err = new_error("function returning incomplete type other than void is invalid");
                     vector_push(errs, err);
-- 
2.43.0


From 73097cee25249ca18ed71a036f0b371fda2d4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:26 +0000
Subject: [PATCH 38/63] fix: report uses of typedef names whose declaration was
 refused

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 653905f..a426d52 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -604,6 +604,12 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
 
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        // the declaration of the typedef-name was refused
+        Vector* errs = new_vector(&t_error);
+        vector_push(errs, new_error("typedef-name '%s' is not declared", ast->ident_name));
+        return new_resolverret_dtype_errors(errs);
+    }
 
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (!dtype_isincomplete(dtype)) {
-- 
2.43.0


From 91fa2e40ce17335d6e08d03628e8cba561a44401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:06 +0000
Subject: [PATCH 39/63] fix: refuse arrays of functions and functions returning
 arrays or functions spelled through typedef names

---
 src/resolver/declaration.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index a426d52..1f8a7ce 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -853,6 +853,22 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     plug_dtype = plug_dtype->dtypedef->defined_dtype;
                 }
 
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && plug_dtype->type == DTYPE_FUNCTION) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array of functions is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION &&
+                    (plug_dtype->type == DTYPE_FUNCTION || plug_dtype->type == DTYPE_ARRAY)) {
+                    errs = new_vector(&t_error);
+                    err = new_error(plug_dtype->type == DTYPE_FUNCTION ? "function returning a function is invalid"
+                                                                       : "function returning an array is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && dtype_isincomplete(plug_dtype)) {
                     errs = new_vector(&t_error);
                     err = new_error("array of incomplete type is invalid");
-- 
2.43.0


From dab2b5cc0600290245c66d1d1c406750916ec429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:07 +0000
Subject: [PATCH 40/63] fix: refuse function definitions whose function type
 comes from a typedef name

---
 src/resolver/external.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/resolver/external.c b/src/resolver/external.c
index 031d176..4b88bb5 100644
--- a/src/resolver/external.c
+++ b/src/resolver/external.c
@@ -87,10 +87,12 @@ ResolverReturn* resolve_function_definition(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    // a function type inherited from a typedef-name declares no parameters
+    int has_function_declarator = declarator_srt->dtype != NULL && declarator_srt->dtype->type == DTYPE_FUNCTION;
     declarator_srt->dtype = dtype_connect(declarator_srt->dtype, resolver->specifier_dtype);
     resolver->specifier_dtype = original_specifier_dtype;
 
-    if (declarator_srt->dtype->type != DTYPE_FUNCTION) {
+    if (!has_function_declarator) {
         errs = new_vector(&t_error);
         err = new_error("non-function declaration has a function body");
         vector_push(errs, err);
-- 
2.43.0


From ce94c8f2cf4435b861178b7dcb32da1bf1acaa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:19 +0000
Subject: [PATCH 41/63] fix: refuse objects whose size overflows the compiler's
 arithmetic

---
 src/resolver/declaration.c | 61 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1f8a7ce..ce2c9f5 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,9 +7,32 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
+// size of the type declared by connecting plug to declared, or -1 if a size is not representable
+static long long declared_nbytes(DType* declared, DType* plug) {
+    if (declared == NULL) {
+        return dtype_isobject(plug) ? dtype_nbytes(plug) : 0;
+    }
+
+    long long nbytes = 0;
+    switch (declared->type) {
+        case DTYPE_POINTER:
+            nbytes = declared_nbytes(declared->dpointer->to_dtype, plug);
+            return nbytes < 0 ? -1 : 8;
+        case DTYPE_ARRAY:
+            nbytes = declared_nbytes(declared->darray->of_dtype, plug);
+            return nbytes < 0 || nbytes * declared->darray->size > INT_MAX ? -1 : nbytes * declared->darray->size;
+        case DTYPE_FUNCTION:
+            nbytes = declared_nbytes(declared->dfunction->return_dtype, plug);
+            return nbytes < 0 ? -1 : 0;
+        default:
+            return 0;
+    }
+}
+
 ResolverReturn* resolve_decl(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -333,6 +356,20 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
     }
     delete_set(member_names_set);
 
+    long long struct_nbytes = 0;
+    for (int i = 0; i < num_members; i++) {
+        DStructMember* member = vector_at(members, i);
+        // at most 7 bytes of padding for each member, and as many at the end
+        struct_nbytes += dtype_nbytes(member->dtype) + 7LL;
+    }
+    if (struct_nbytes + 7 > INT_MAX) {
+        if (errs == NULL) {
+            errs = new_vector(&t_error);
+        }
+        err = new_error("size of struct is too large");
+        vector_push(errs, err);
+    }
+
     if (errs != NULL) {
         delete_vector(members);
         return new_resolverret_dstructmembers_errors(errs);
@@ -716,6 +753,15 @@ ResolverReturn* resolve_init_declarator(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (resolver->symbol_table->outer_scope != NULL && dtype_isobject(child_srt->dtype) &&
+        (long long)resolver->symbol_table->memory_nbytes + dtype_nbytes(child_srt->dtype) > INT_MAX - 64) {
+        errs = new_vector(&t_error);
+        err = new_error("local objects are too large at identifier '%s'", child_srt->ident_name);
+        vector_push(errs, err);
+        delete_srt(srt);
+        return new_resolverret_errors(errs);
+    }
+
     char* symbol_name = new_string(child_srt->ident_name);
     DType* symbol_dtype = dtype_copy(child_srt->dtype);
     if (resolver->symbol_table->outer_scope == NULL || !dtype_isobject(symbol_dtype)) {
@@ -797,6 +843,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (array_size_srt->iliteral->signed_value > INT_MAX) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    delete_srt(array_size_srt);
+                    break;
+                }
+
                 if (array_size_srt->iliteral->signed_value <= 0) {
                     errs = new_vector(&t_error);
                     err = new_error("array size should be a positive integer");
@@ -884,6 +938,13 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (declared_nbytes(dtype, plug_dtype) < 0) {
+                    errs = new_vector(&t_error);
+                    err = new_error("size of array is too large");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (ast_ptr->type == AST_IDENT_DECLOR) {
                     srt = new_identifier_srt(SRT_IDENT_DECL, dtype, new_string(ast_ptr->ident_name));
                 } else {
-- 
2.43.0


From be5f9bc977f2d3badbcf7d94e15da588f480d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:42 +0000
Subject: [PATCH 42/63] fix: refuse enumeration constants that int cannot
 represent

---
 src/resolver/declaration.c | 17 ++++++++++++++++-
 src/resolver/resolver.h    |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index ce2c9f5..b6f93b0 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -592,6 +592,13 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
+    if (vector_size(ast->children) == 1 && resolver->default_enum_value > INT_MAX) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_denummember_errors(errs);
+    }
+
     if (vector_size(ast->children) == 1) {
         char* member_name = new_string(child_ast->ident_name);
         DType* member_dtype = new_integer_dtype(DTYPE_INT);
@@ -622,6 +629,14 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
+    if (enum_const_srt->iliteral->signed_value > INT_MAX || enum_const_srt->iliteral->signed_value < INT_MIN) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+        vector_push(errs, err);
+        delete_srt(enum_const_srt);
+        return new_resolverret_denummember_errors(errs);
+    }
+
     int enum_value = enum_const_srt->iliteral->signed_value;
     delete_srt(enum_const_srt);
 
@@ -631,7 +646,7 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     symboltable_define_integer(resolver->symbol_table, member_name, member_dtype, member_iliteral);
 
     member = new_denummember(new_string(child_ast->ident_name), enum_value);
-    resolver->default_enum_value = enum_value + 1;
+    resolver->default_enum_value = enum_value + 1LL;
 
     return new_resolverret_denummember(member);
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 7d6867d..0ed5c8d 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -18,7 +18,7 @@ typedef struct Resolver {
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
-    int default_enum_value;
+    long long default_enum_value;
     DType* initialized_dtype;
     int initialized_offset;
     int is_nested_initializing;
-- 
2.43.0


From 59d68a315aaa5cd4b5a378a534124de32a0acaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:29 +0000
Subject: [PATCH 43/63] fix: convert case labels to the promoted type of the
 controlling expression

---
 src/resolver/resolver.c  |  1 +
 src/resolver/resolver.h  |  1 +
 src/resolver/statement.c | 10 ++++++++++
 3 files changed, 12 insertions(+)

diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 3a8d2f6..979ccb6 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -13,6 +13,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->inside_loop = 0;
     resolver->switch_cases = NULL;
     resolver->switch_default_exists = 0;
+    resolver->switch_nbytes = 0;
     resolver->return_dtype = NULL;
     resolver->specifier_dtype = NULL;
     resolver->default_enum_value = 0;
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 0ed5c8d..1931864 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -16,6 +16,7 @@ typedef struct Resolver {
     int inside_loop;
     Vector* switch_cases;
     int switch_default_exists;
+    int switch_nbytes;
     DType* return_dtype;
     DType* specifier_dtype;
     long long default_enum_value;
diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index f8ddaa9..fc01a44 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -101,6 +101,13 @@ ResolverReturn* resolve_case_stmt(Resolver* resolver) {
     }
 
     child_srt = perform_integer_promotion(child_srt);
+    if (resolver->switch_nbytes == 4 && child_srt->iliteral->signed_value != (int)child_srt->iliteral->signed_value) {
+        // the label is converted to the promoted type of the controlling expression
+        int case_value = (int)child_srt->iliteral->signed_value;
+        delete_srt(child_srt);
+        child_srt = new_iliteral_srt(new_integer_dtype(DTYPE_INT),
+                                     new_signed_iliteral(INTEGER_INT, case_value));
+    }
     vector_push(srt->children, child_srt);
 
     IntegerLiteral* case_value_iliteral = child_srt->iliteral;
@@ -396,9 +403,11 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
 
     Vector* original_switch_cases = resolver->switch_cases;
     int original_switch_default_exists = resolver->switch_default_exists;
+    int original_switch_nbytes = resolver->switch_nbytes;
 
     resolver->switch_cases = new_vector(&t_iliteral);
     resolver->switch_default_exists = 0;
+    resolver->switch_nbytes = dtype_nbytes(child_srt->dtype);
 
     resolver->ast = vector_at(ast->children, 1);
     resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
@@ -407,6 +416,7 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
     delete_vector(resolver->switch_cases);
     resolver->switch_cases = original_switch_cases;
     resolver->switch_default_exists = original_switch_default_exists;
+    resolver->switch_nbytes = original_switch_nbytes;
 
     if (errs != NULL) {
         delete_srt(srt);
-- 
2.43.0


From 2cc4ca84208eff6704fc50e7716a326f21c6502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:56 +0000
Subject: [PATCH 44/63] fix: refuse arithmetic on pointers to incomplete types
 and functions

---
 src/resolver/expression.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index a12447c..1340ef8 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -8,6 +8,7 @@
 #include <string.h>
 
 void complete_struct_dtype(Resolver* resolver, DType* dtype);
+int dtype_isobjectpointer(DType* dtype);
 
 ResolverReturn* resolve_expr(Resolver* resolver) {
     Srt* srt = NULL;
@@ -106,6 +107,11 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+// pointer arithmetic is defined for pointers to objects of known size
+int dtype_isobjectpointer(DType* dtype) {
+    return dtype->type == DTYPE_POINTER && dtype_isobject(dtype->dpointer->to_dtype);
+}
+
 // a struct may have been defined after the declaration which referred to it
 void complete_struct_dtype(Resolver* resolver, DType* dtype) {
     while (dtype != NULL && (dtype->type == DTYPE_POINTER || dtype->type == DTYPE_ARRAY)) {
@@ -803,12 +809,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_ADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
+    } else if (dtype_isinteger(lhs_srt->dtype) && dtype_isobjectpointer(rhs_srt->dtype)) {
         dtype = dtype_copy(rhs_srt->dtype);
         lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
@@ -861,12 +867,12 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_SUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isobjectpointer(rhs_srt->dtype) &&
                dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
         dtype = new_integer_dtype(DTYPE_UNSIGNED_LONGLONG);
         srt = new_dtyped_srt(SRT_PDIFF_EXPR, dtype, 2, lhs_srt, rhs_srt);
@@ -1500,7 +1506,7 @@ ResolverReturn* resolve_incdec_expr(Resolver* resolver, SrtType srt_type, char*
         return new_resolverret_errors(errs);
     }
 
-    if (!dtype_isinteger(srt->dtype) && srt->dtype->type != DTYPE_POINTER) {
+    if (!dtype_isinteger(srt->dtype) && !dtype_isobjectpointer(srt->dtype)) {
         errs = new_vector(&t_error);
         err = new_error("operand of %s should be either integer or pointer", op);
         vector_push(errs, err);
-- 
2.43.0


From a1cbff0d22b3ae0d9422ea1c36ada331c7f30f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:37 +0000
Subject: [PATCH 45/63] fix: refuse declarations which declare nothing

---
 src/resolver/declaration.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index b6f93b0..fb6e11d 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -36,6 +36,7 @@ static long long declared_nbytes(DType* declared, DType* plug) {
 ResolverReturn* resolve_decl(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
     DType* original_specifier_dtype = resolver->specifier_dtype;
@@ -49,9 +50,22 @@ ResolverReturn* resolve_decl(Resolver* resolver) {
     }
 
     if (vector_size(ast->children) == 1) {
-        srt = new_srt(SRT_DECL_LIST, 0);
+        // a declaration without declarators shall declare a tag or the members of an enumeration
+        Ast* specifiers_ast = vector_at(ast->children, 0);
+        Ast* specifier_ast = vector_at(specifiers_ast->children, 0);
+        Ast* tag_ast = specifier_ast->type == AST_TYPE_STRUCT ? vector_at(specifier_ast->children, 0) : NULL;
+        if (specifier_ast->type != AST_TYPE_ENUM && (tag_ast == NULL || tag_ast->type != AST_STRUCT_NAME)) {
+            errs = new_vector(&t_error);
+            err = new_error("declaration does not declare anything");
+            vector_push(errs, err);
+        }
         delete_dtype(resolver->specifier_dtype);
         resolver->specifier_dtype = original_specifier_dtype;
+        if (errs != NULL) {
+            return new_resolverret_errors(errs);
+        }
+
+        srt = new_srt(SRT_DECL_LIST, 0);
         return new_resolverret(srt);
     }
 
-- 
2.43.0


From e2fcb6af0f58ed8edfbebde58aaeb6a91e102aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:38 +0000
Subject: [PATCH 46/63] fix: refuse a duplicated typedef specifier

---
 src/resolver/declaration.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index fb6e11d..6c9a510 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -88,6 +88,7 @@ ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
     DType* dtype = NULL;
     DType* specifiers_dtype = NULL;
     Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
 
@@ -98,6 +99,10 @@ ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
             case AST_STG_TYPEDEF:
                 if (dtype == NULL) {
                     dtype = new_socket_typedef_dtype();
+                } else if (errs == NULL) {
+                    errs = new_vector(&t_error);
+                    err = new_error("storage class specifier is duplicated");
+                    vector_push(errs, err);
                 }
                 vector_erase(ast->children, i);
                 num_children--;
@@ -108,7 +113,9 @@ ResolverDTypeReturn* resolve_decl_specifiers(Resolver* resolver) {
         }
     }
 
-    resolverret_dtype_assign(&specifiers_dtype, &errs, resolve_type_specifier_list(resolver));
+    if (errs == NULL) {
+        resolverret_dtype_assign(&specifiers_dtype, &errs, resolve_type_specifier_list(resolver));
+    }
 
     if (errs != NULL) {
         if (dtype != NULL) {
-- 
2.43.0


From 711265438568435e0e013fe3fed5e2849b3dea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:10 +0000
Subject: [PATCH 47/63] fix: keep hash values non-negative for any byte and
 integer

---
 src/common/type.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..f3d89b5 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -1,5 +1,6 @@
 #include "./type.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -43,15 +44,18 @@ int* copy_integer(int* integer) {
 }
 
 int hash_integer(int* integer) {
+    // hash values shall be non-negative
+    unsigned int hash = *integer;
     if (*integer >= 0) {
-        return *integer * 2;
+        hash = hash * 2;
     } else {
-        return -(*integer) * 2 + 1;
+        hash = -hash * 2 + 1;
     }
+    return hash & INT_MAX;
 }
 
 int comp_integer(int* a, int* b) {
-    return *a - *b;
+    return (*a > *b) - (*a < *b);
 }
 
 char* new_string(char* str) {
@@ -64,7 +68,8 @@ int hash_string(char* str) {
     int a = 151, b = 587;
     int hash = 0;
 
-    char* str_ptr = str;
+    // hash values shall be non-negative, also for characters out of the range of ASCII
+    unsigned char* str_ptr = (unsigned char*)str;
     while (*str_ptr != '\0') {
         hash = (*str_ptr * a + hash) % b;
         str_ptr++;
-- 
2.43.0


From 5b5b4749f2794aeae96d8eaec7b4b6a64bdf9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:34 +0000
Subject: [PATCH 48/63] fix: find an existing key behind deleted cells when
 adding it to a map

---
 src/map/map.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..c3e843c 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,19 +81,31 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
-            break;
+    // the key may be stored behind deleted cells
+    int hash = original_hash;
+    int deleted_hash = -1;
+    while (cell != NULL) {
+        if (cell->deleted) {
+            deleted_hash = deleted_hash < 0 ? hash : deleted_hash;
+        } else if (map->t_key->compare_object(cell->key, key) == 0) {
+            delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
+            map->container[hash] = new_mapcell(key, value);
+            return;
         }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
         cell = map->container[hash];
     }
 
-    if (cell != NULL) {
-        delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
+    if (deleted_hash >= 0) {
+        hash = deleted_hash;
+        delete_mapcell(map->container[hash], map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
     map->size++;
-- 
2.43.0


From e5d5f4257dd4674d4d059198f6dea6c9c598302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:53 +0000
Subject: [PATCH 49/63] fix: follow a live range which starts right after the
 first one

---
 src/liveseq/liveseq.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liveseq/liveseq.c b/src/liveseq/liveseq.c
index 231ebdb..c860b56 100644
--- a/src/liveseq/liveseq.c
+++ b/src/liveseq/liveseq.c
@@ -52,10 +52,10 @@ void liveseq_goto_next(Liveseq* liveseq) {
 
     if (liveseq->liveness_index < 0) {
         Liveness* first_liveness = vector_at(liveseq->livenesses, 0);
-        if (index >= first_liveness->first_def_index) {
-            liveseq->liveness_index = 0;
+        if (index < first_liveness->first_def_index) {
+            return;
         }
-        return;
+        liveseq->liveness_index = 0;
     }
 
     Liveness* liveness = vector_at(liveseq->livenesses, liveseq->liveness_index);
-- 
2.43.0


From 58e34bde023e8580ed99996b2bab548931074049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:04 +0000
Subject: [PATCH 50/63] fix: name hidden struct types by their scope instead of
 searching for a free name

---
 src/tagtab/tagtab.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index bd04df6..d3e3f28 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -52,11 +52,11 @@ DType* tagtable_search_struct(TagTable* table, char* name) {
 // lets name denote a new struct type in this scope, and returns the name of that type
 char* tagtable_hide_struct(TagTable* table, char* name) {
     char* type_name = malloc(strlen(name) + 16);
-    int id = 0;
-    do {
-        id++;
-        sprintf(type_name, "%s.%d", name, id);
-    } while (tagtable_search(table, type_name) != NULL);
+    int depth = 0;
+    for (TagTable* scope = table; scope != NULL; scope = scope->outer_scope) {
+        depth++;
+    }
+    sprintf(type_name, "%s.%d", name, depth);
 
     map_add(table->map, new_string(name), new_named_struct_dtype(new_string(type_name), 0, 0));
     return type_name;
-- 
2.43.0


From c2d3d5e652c5c7f99aef15dcb3701567fdc49032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 51/63] fix: let a struct tag declared alone hide the one of an
 outer scope

---
 src/resolver/declaration.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 6c9a510..d3ad43c 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -41,6 +41,16 @@ ResolverReturn* resolve_decl(Resolver* resolver) {
     Ast* ast = resolver->ast;
     DType* original_specifier_dtype = resolver->specifier_dtype;
 
+    Ast* first_ast = vector_at(((Ast*)vector_at(ast->children, 0))->children, 0);
+    if (vector_size(ast->children) == 1 && first_ast->type == AST_TYPE_STRUCT && vector_size(first_ast->children) == 1) {
+        // a tag declared alone hides the one of an outer scope
+        Ast* name_ast = vector_at(first_ast->children, 0);
+        if (name_ast->type == AST_STRUCT_NAME && tagtable_can_define(resolver->tag_table, name_ast->ident_name) &&
+            tagtable_search(resolver->tag_table, name_ast->ident_name) != NULL) {
+            free(tagtable_hide_struct(resolver->tag_table, name_ast->ident_name));
+        }
+    }
+
     resolver->ast = vector_at(ast->children, 0);
     resolverret_dtype_assign(&resolver->specifier_dtype, &errs, resolve_decl_specifiers(resolver));
     resolver->ast = ast;
@@ -256,6 +266,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
         if (struct_name != NULL && tagtable_can_define(resolver->tag_table, struct_name) &&
             tagtable_search(resolver->tag_table, struct_name) != NULL) {
             type_name = tagtable_hide_struct(resolver->tag_table, struct_name);
+        } else if (struct_name != NULL && !tagtable_can_define(resolver->tag_table, struct_name)) {
+            // the tag may have been declared before without its members
+            DType* hiding_dtype = tagtable_search(resolver->tag_table, struct_name);
+            if (hiding_dtype->type == DTYPE_STRUCT && hiding_dtype->dstruct->members == NULL &&
+                tagtable_can_define(resolver->tag_table, hiding_dtype->dstruct->name)) {
+                type_name = new_string(hiding_dtype->dstruct->name);
+            }
         }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
-- 
2.43.0


From 1b3034345e72348ffe54fd5d06e4f25b0c51c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:56 +0000
Subject: [PATCH 52/63] fix: give a character constant the value of a char

---
 src/parser/expression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 2114bd5..a605a18 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -807,6 +807,8 @@ ParserReturn* parse_primary_expr(Parser* parser) {
         case CTOKEN_CHAR:
             parser->index++;
             ast = new_iliteral_ast(AST_CHAR_EXPR, iliteral_copy(ctoken->iliteral));
+            // a character constant has the value of the character as a char, which is signed
+            ast->iliteral->signed_value = (signed char)ast->iliteral->signed_value;
             break;
         case CTOKEN_STRING:
             parser->index++;
-- 
2.43.0


From b6800dc782adf36324a9b64cc55dcdf4a702f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 53/63] fix: do not read the start of a comment as a division

---
 src/lexer/reader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index fd74fae..0a13016 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -251,6 +251,11 @@ LexerReturnItem* read_punctuator(Lexer* lexer) {
         length++;
     }
 
+    if (strncmp(ctoken_str, "/*", 2) == 0 || strncmp(ctoken_str, "//", 2) == 0) {
+        free(ctoken_str);
+        return new_lexerret_item_error(new_error("comments are not supported"));
+    }
+
     CTokenType* ctoken_type_ref = NULL;
     while (length > 0) {
         ctoken_type_ref = map_get(lexer->punctuator_map, ctoken_str);
-- 
2.43.0


From 182fd15feb01c6683d6f4d7d5113dd4c30642ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 54/63] fix: do not split a hexadecimal constant from a sign
 following its digit e

---
 src/lexer/reader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 0a13016..f575ccd 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -67,6 +67,14 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         }
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
+        // a sign right after the digit e belongs to the same preprocessing number
+        int last = lexer->content[lexer->content_index - 1];
+        int next = get_content_top(lexer);
+        if ((last == 'e' || last == 'E') && (next == '+' || next == '-')) {
+            free(value);
+            return new_lexerret_item_error(new_error("invalid integer constant"));
+        }
+
         IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
         free(value);
         if (iliteral == NULL) {
-- 
2.43.0


From 43f2a5cceca1e8a4473c18e19297e2037bf8eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 55/63] fix: do not take the keywords without support for
 identifiers

---
 src/lexer/lexer.c  |  2 ++
 src/lexer/lexer.h  |  1 +
 src/lexer/reader.c |  6 ++++++
 src/lexer/util.c   | 16 ++++++++++++++++
 src/lexer/util.h   |  1 +
 5 files changed, 26 insertions(+)

diff --git a/src/lexer/lexer.c b/src/lexer/lexer.c
index 83b02a8..9bd7896 100644
--- a/src/lexer/lexer.c
+++ b/src/lexer/lexer.c
@@ -11,6 +11,7 @@ Lexer* new_lexer(char* content) {
     lexer->content_index = 0L;
     lexer->content_size = strlen(content);
     lexer->keyword_map = new_keyword_map();
+    lexer->reserved_word_set = new_reserved_word_set();
     lexer->nondigit_set = new_nondigit_set();
     lexer->octdigit_map = new_octdigit_map();
     lexer->digit_map = new_digit_map();
@@ -65,6 +66,7 @@ LexerReturn* lexer_read_ctokens(Lexer* lexer) {
 void delete_lexer(Lexer* lexer) {
     free(lexer->content);
     delete_map(lexer->keyword_map);
+    delete_set(lexer->reserved_word_set);
     delete_set(lexer->nondigit_set);
     delete_map(lexer->octdigit_map);
     delete_map(lexer->digit_map);
diff --git a/src/lexer/lexer.h b/src/lexer/lexer.h
index b213799..428eb38 100644
--- a/src/lexer/lexer.h
+++ b/src/lexer/lexer.h
@@ -13,6 +13,7 @@ typedef struct Lexer {
     size_t content_index;
     size_t content_size;
     Map* keyword_map;
+    Set* reserved_word_set;
     Set* nondigit_set;
     Map* octdigit_map;
     Map* digit_map;
diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index f575ccd..f166dc9 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -41,6 +41,12 @@ LexerReturnItem* read_keyword_or_identifier(Lexer* lexer) {
         return new_lexerret_item(ctoken);
     }
 
+    if (set_contains(lexer->reserved_word_set, ctoken_str)) {
+        Error* err = new_error("keyword '%s' is not supported", ctoken_str);
+        free(ctoken_str);
+        return new_lexerret_item_error(err);
+    }
+
     ctoken_str = realloc(ctoken_str, (length + 1) * sizeof(char));
     CToken* ctoken = new_identifier_ctoken(CTOKEN_IDENT, ctoken_str);
     return new_lexerret_item(ctoken);
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 276fee3..3d1d00e 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -35,6 +35,22 @@ Map* new_keyword_map(void) {
     return keyword_map;
 }
 
+Set* new_reserved_word_set(void) {
+    Set* reserved_word_set = new_set(&t_hashable_string);
+
+    // keywords of the language which have no support yet
+    int NUM_RESERVED_WORDS = 18;
+    char* reserved_words[18] = {"auto",   "const",  "do",       "double",   "extern",   "float",
+                                "goto",   "inline", "register", "restrict", "short",    "signed",
+                                "static", "union",  "volatile", "_Bool",    "_Complex", "_Imaginary"};
+
+    for (int i = 0; i < NUM_RESERVED_WORDS; i++) {
+        set_add(reserved_word_set, new_string(reserved_words[i]));
+    }
+
+    return reserved_word_set;
+}
+
 Set* new_nondigit_set(void) {
     Set* nondigit_set = new_set(&t_hashable_integer);
 
diff --git a/src/lexer/util.h b/src/lexer/util.h
index 877e87a..0c5d0fc 100644
--- a/src/lexer/util.h
+++ b/src/lexer/util.h
@@ -5,6 +5,7 @@
 #include "../literal/iliteral.h"
 
 Map* new_keyword_map(void);
+Set* new_reserved_word_set(void);
 Set* new_nondigit_set(void);
 Map* new_octdigit_map(void);
 Map* new_digit_map(void);
-- 
2.43.0


From 1ef5dc6b01e41f4e521373f338326fe8fe3c7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 56/63] fix: do not load a void value through a void pointer

---
 src/immcgen/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index c06c7d8..c64ab75 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -545,8 +545,8 @@ Vector* gen_indirection_expr_immcode(Immcgen* immcgen) {
 
     ImmcOpe* src = gen_child_ptr_immcope(immcgen, codes, 0);
 
-    // a struct value is not held in a register, its members are accessed by address
-    if (immcgen->srt->dtype->type == DTYPE_STRUCT) {
+    // a struct value is not held in a register, its members are accessed by address, and there is no void value
+    if (immcgen->srt->dtype->type == DTYPE_STRUCT || immcgen->srt->dtype->type == DTYPE_VOID) {
         delete_immcope(src);
         update_void_expr_register(immcgen);
         return codes;
-- 
2.43.0


From 54c06112889e9f8aedf4697c3e145bffc2f97c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:35 +0000
Subject: [PATCH 57/63] fix: report every repeated parameter name, also after
 another error in the list

---
 src/resolver/declaration.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index d3ad43c..dc67138 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1062,8 +1062,6 @@ ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
             }
             err = new_error("function parameter '%s' is already declared", dparam->name);
             vector_push(errs, err);
-        }
-        if (errs != NULL) {
             delete_dparam(dparam);
             continue;
         }
-- 
2.43.0


From 657d421588007488049c009e8369474287b78de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 58/63] fix: report repeated members of a struct which has
 other errors

---
 src/resolver/declaration.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index dc67138..9e224c7 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -362,9 +362,6 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
             vector_extend(errs, child_errs);
             delete_vector(child_errs);
             continue;
-        } else if (errs != NULL) {
-            delete_vector(child_members);
-            continue;
         }
 
         vector_extend(members, child_members);
@@ -373,11 +370,6 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
 
     resolver->ast = ast;
 
-    if (errs != NULL) {
-        delete_vector(members);
-        return new_resolverret_dstructmembers_errors(errs);
-    }
-
     Set* member_names_set = new_set(&t_hashable_string);
     int num_members = vector_size(members);
     for (int i = 0; i < num_members; i++) {
-- 
2.43.0


From ed33ba468b824800b3572478100fecfb668dd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 59/63] fix: report the errors in the arguments of a call with
 the wrong number of them

---
 src/resolver/expression.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 1340ef8..7905d02 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1535,14 +1535,11 @@ ResolverReturn* resolve_argument_expr_list(Resolver* resolver) {
         errs = new_vector(&t_error);
         err = new_error("function takes %d params, but passed %d arguments", num_params, num_args);
         vector_push(errs, err);
-        delete_srt(srt);
-        return new_resolverret_errors(errs);
     }
 
     for (int i = 0; i < num_args; i++) {
         Srt* child_srt = NULL;
         Vector* child_errs = NULL;
-        DParam* dparam = vector_at(call_dtype->dfunction->params, i);
 
         resolver->ast = vector_at(ast->children, i);
         resolverret_assign(&child_srt, &child_errs, resolve_expr(resolver));
@@ -1556,9 +1553,15 @@ ResolverReturn* resolve_argument_expr_list(Resolver* resolver) {
             continue;
         }
 
+        if (num_params != num_args) {
+            delete_srt(child_srt);
+            continue;
+        }
+
         child_srt = convert_to_ptr_if_array(child_srt);
         child_srt = convert_to_ptr_if_function(child_srt);
 
+        DParam* dparam = vector_at(call_dtype->dfunction->params, i);
         if (!dtype_isassignable(dparam->dtype, child_srt->dtype)) {
             if (errs == NULL) {
                 errs = new_vector(&t_error);
-- 
2.43.0


From da77084c54e19022ccb8f0e052a9241d44431e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:49 +0000
Subject: [PATCH 60/63] fix: align global objects as the ABI prescribes

---
 src/immc/label.c          |  2 ++
 src/immc/label.h          |  1 +
 src/immcgen/declaration.c | 10 +++++++++-
 src/x64/label.c           |  9 ++++++++-
 src/x64/label.h           |  1 +
 src/x64gen/label.c        |  4 +++-
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/immc/label.c b/src/immc/label.c
index db0ebe2..8316381 100644
--- a/src/immc/label.c
+++ b/src/immc/label.c
@@ -27,6 +27,7 @@ ImmcLabel* new_base_immclabel(ImmcLabelType type, ImmcVisibility visibility, cha
     immclabel->type = type;
     immclabel->visibility = visibility;
     immclabel->name = name;
+    immclabel->alignment = 1;
     return immclabel;
 }
 
@@ -35,6 +36,7 @@ ImmcLabel* immclabel_copy(ImmcLabel* immclabel) {
     copied_immclabel->type = immclabel->type;
     copied_immclabel->visibility = immclabel->visibility;
     copied_immclabel->name = new_string(immclabel->name);
+    copied_immclabel->alignment = immclabel->alignment;
     return copied_immclabel;
 }
 
diff --git a/src/immc/label.h b/src/immc/label.h
index de8fa01..9aae5bc 100644
--- a/src/immc/label.h
+++ b/src/immc/label.h
@@ -17,6 +17,7 @@ typedef struct ImmcLabel {
     ImmcLabelType type;
     ImmcVisibility visibility;
     char* name;
+    int alignment;
 } ImmcLabel;
 
 #ifdef UMLCC_IMMC_H_PRIVATE
diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 93e28e7..abf554e 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -60,7 +60,15 @@ Vector* gen_global_init_decl_immcode(Immcgen* immcgen) {
         return codes;
     }
 
-    vector_push(codes, new_label_immc(IMMC_LABEL_VARIABLE, IMMC_VIS_GLOBAL, label_name));
+    Immc* label = new_label_immc(IMMC_LABEL_VARIABLE, IMMC_VIS_GLOBAL, label_name);
+    if (decl_srt->type != SRT_STR_DECL) {
+        label->label->alignment = dtype_alignment(decl_symbol->dtype);
+        // other compilers rely on the ABI aligning global arrays of at least 16 bytes to 16 bytes
+        if (decl_symbol->dtype->type == DTYPE_ARRAY && dtype_nbytes(decl_symbol->dtype) >= 16) {
+            label->label->alignment = 16;
+        }
+    }
+    vector_push(codes, label);
 
     if (vector_size(immcgen->srt->children) == 1) {
         IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, dtype_nbytes(decl_srt->dtype));
diff --git a/src/x64/label.c b/src/x64/label.c
index 0ffe7eb..a285ea1 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -5,6 +5,7 @@
 #include "./label.h"
 #include "../common/type.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -13,6 +14,7 @@ X64Label* new_x64label(X64LabelType type, X64Visibility visibility, char* name)
     x64label->type = type;
     x64label->visibility = visibility;
     x64label->name = name;
+    x64label->alignment = 1;
     return x64label;
 }
 
@@ -21,11 +23,12 @@ X64Label* x64label_copy(X64Label* x64label) {
     copied_x64label->type = x64label->type;
     copied_x64label->visibility = x64label->visibility;
     copied_x64label->name = new_string(x64label->name);
+    copied_x64label->alignment = x64label->alignment;
     return copied_x64label;
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    int max_len = 50 + 2 * strlen(x64label->name);
+    int max_len = 70 + 2 * strlen(x64label->name);
     char* label_str = malloc(max_len * sizeof(char));
     memset(label_str, 0, max_len * sizeof(char));
 
@@ -40,6 +43,10 @@ char* x64label_tostring(X64Label* x64label) {
             break;
     }
 
+    if (x64label->alignment > 1) {
+        sprintf(label_str + strlen(label_str), "\t.balign %d\n", x64label->alignment);
+    }
+
     switch (x64label->visibility) {
         case X64_VIS_GLOBAL:
             strcat(label_str, "\t.globl ");
diff --git a/src/x64/label.h b/src/x64/label.h
index 0e9471e..3f28473 100644
--- a/src/x64/label.h
+++ b/src/x64/label.h
@@ -17,6 +17,7 @@ typedef struct X64Label {
     X64LabelType type;
     X64Visibility visibility;
     char* name;
+    int alignment;
 } X64Label;
 
 #ifdef UMLCC_X64_H_PRIVATE
diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index ee9413d..0d7732a 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -41,7 +41,9 @@ Vector* gen_label_x64code(X64gen* x64gen) {
         visibility = X64_VIS_NONE;
     }
 
-    vector_push(codes, new_label_x64(type, visibility, new_string(immc->label->name)));
+    X64* label = new_label_x64(type, visibility, new_string(immc->label->name));
+    label->label->alignment = immc->label->alignment;
+    vector_push(codes, label);
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
-- 
2.43.0


From a4f9a94a680b75c278f94ebc141a92d4809f7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:27 +0000
Subject: [PATCH 61/63] fix: share the members and parameters of copied types,
 copies doubled with every level of nested typedefs

---
 src/dtype/function.c |  5 ++++-
 src/dtype/struct.c   |  6 +++++-
 src/vector/vector.c  | 14 ++++++++++++++
 src/vector/vector.h  |  1 +
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/dtype/function.c b/src/dtype/function.c
index 3295e19..10b08b1 100644
--- a/src/dtype/function.c
+++ b/src/dtype/function.c
@@ -25,7 +25,7 @@ DFunction* new_socket_dfunction(Vector* params) {
 
 DFunction* dfunction_copy(DFunction* dfunction) {
     DFunction* copied_dfunction = malloc(sizeof(DFunction));
-    copied_dfunction->params = vector_copy(dfunction->params);
+    copied_dfunction->params = vector_share(dfunction->params);
     copied_dfunction->return_dtype = NULL;
     if (dfunction->return_dtype != NULL) {
         copied_dfunction->return_dtype = dtype_copy(dfunction->return_dtype);
@@ -46,6 +46,9 @@ int dfunction_equals(DFunction* dfunction, DFunction* other) {
     if (!dtype_equals(dfunction->return_dtype, other->return_dtype)) {
         return 0;
     }
+    if (dfunction->params == other->params) {
+        return 1;
+    }
     if (vector_size(dfunction->params) != vector_size(other->params)) {
         return 0;
     }
diff --git a/src/dtype/struct.c b/src/dtype/struct.c
index 00db858..8560cb1 100644
--- a/src/dtype/struct.c
+++ b/src/dtype/struct.c
@@ -55,7 +55,8 @@ DStruct* dstruct_copy(DStruct* dstruct) {
     }
     copied_dstruct->members = NULL;
     if (dstruct->members != NULL) {
-        copied_dstruct->members = vector_copy(dstruct->members);
+        // copying the members would double the types of structs which contain each other
+        copied_dstruct->members = vector_share(dstruct->members);
     }
     copied_dstruct->nbytes = dstruct->nbytes;
     copied_dstruct->alignment = dstruct->alignment;
@@ -84,6 +85,9 @@ int dstruct_equals(DStruct* dstruct, DStruct* other) {
         return strcmp(dstruct->name, other->name) == 0;
     }
     // unnamed struct
+    if (dstruct->members == other->members) {
+        return 1;
+    }
     if (vector_size(dstruct->members) != vector_size(other->members)) {
         return 0;
     }
diff --git a/src/vector/vector.c b/src/vector/vector.c
index a5732df..4d6d659 100644
--- a/src/vector/vector.c
+++ b/src/vector/vector.c
@@ -9,6 +9,7 @@ struct Vector {
     void** container;
     int size;
     int capacity;
+    int num_owners;
 };
 
 Vector* new_vector(BaseType* t_item) {
@@ -19,6 +20,7 @@ Vector* new_vector(BaseType* t_item) {
     vector->container = malloc(capacity * sizeof(void*));
     vector->size = size;
     vector->capacity = capacity;
+    vector->num_owners = 1;
     return vector;
 }
 
@@ -29,6 +31,7 @@ Vector* vector_copy(Vector* vector) {
     copied_vector->container = malloc(vector->capacity * sizeof(void*));
     copied_vector->size = vector->size;
     copied_vector->capacity = vector->capacity;
+    copied_vector->num_owners = 1;
 
     for (int i = 0; i < vector->size; i++) {
         copied_vector->container[i] = vector->t_item->copy_object(vector->container[i]);
@@ -36,6 +39,12 @@ Vector* vector_copy(Vector* vector) {
     return copied_vector;
 }
 
+// the vector is deleted along with the last of its owners
+Vector* vector_share(Vector* vector) {
+    vector->num_owners++;
+    return vector;
+}
+
 void vector_push(Vector* vector, void* item) {
     if (vector->size >= vector->capacity) {
         vector->container = realloc(vector->container, 2 * vector->capacity * sizeof(void*));
@@ -133,6 +142,11 @@ void vector_extend(Vector* vector, Vector* other) {
 }
 
 void delete_vector(Vector* vector) {
+    vector->num_owners--;
+    if (vector->num_owners > 0) {
+        return;
+    }
+
     for (int i = 0; i < vector->size; i++) {
         vector->t_item->delete_object(vector->container[i]);
     }
diff --git a/src/vector/vector.h b/src/vector/vector.h
index ae93030..5f7a446 100644
--- a/src/vector/vector.h
+++ b/src/vector/vector.h
@@ -7,6 +7,7 @@ typedef struct Vector Vector;
 
 Vector* new_vector(BaseType* t_item);
 Vector* vector_copy(Vector* vector);
+Vector* vector_share(Vector* vector);
 void vector_push(Vector* vector, void* item);
 void* vector_pop(Vector* vector);
 void vector_fill(Vector* vector, int size, void* item);
-- 
2.43.0


From 774874599f1d93a7a34a52cf91e834e9182d8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 62/63] fix: tell unnamed structs with the same members apart

---
 src/dtype/struct.c         | 6 ++++++
 src/dtype/struct.h         | 2 ++
 src/resolver/declaration.c | 3 +++
 src/resolver/resolver.c    | 1 +
 src/resolver/resolver.h    | 1 +
 5 files changed, 13 insertions(+)

diff --git a/src/dtype/struct.c b/src/dtype/struct.c
index 8560cb1..21b7cd1 100644
--- a/src/dtype/struct.c
+++ b/src/dtype/struct.c
@@ -20,6 +20,7 @@ DStruct* new_named_dstruct(char* name, int nbytes, int alignment) {
     dstruct->members = NULL;
     dstruct->nbytes = nbytes;
     dstruct->alignment = alignment;
+    dstruct->unnamed_id = 0;
     return dstruct;
 }
 
@@ -29,6 +30,7 @@ DStruct* new_unnamed_dstruct(Vector* members) {
     dstruct->members = members;
     dstruct->nbytes = 0;
     dstruct->alignment = 0;
+    dstruct->unnamed_id = 0;
 
     int num_members = vector_size(members);
     for (int i = 0; i < num_members; i++) {
@@ -60,6 +62,7 @@ DStruct* dstruct_copy(DStruct* dstruct) {
     }
     copied_dstruct->nbytes = dstruct->nbytes;
     copied_dstruct->alignment = dstruct->alignment;
+    copied_dstruct->unnamed_id = dstruct->unnamed_id;
     return copied_dstruct;
 }
 
@@ -85,6 +88,9 @@ int dstruct_equals(DStruct* dstruct, DStruct* other) {
         return strcmp(dstruct->name, other->name) == 0;
     }
     // unnamed struct
+    if (dstruct->unnamed_id != 0 && other->unnamed_id != 0) {
+        return dstruct->unnamed_id == other->unnamed_id;
+    }
     if (dstruct->members == other->members) {
         return 1;
     }
diff --git a/src/dtype/struct.h b/src/dtype/struct.h
index 75aca6d..0ac2e16 100644
--- a/src/dtype/struct.h
+++ b/src/dtype/struct.h
@@ -22,6 +22,8 @@ struct DStruct {
     Vector* members;
     int nbytes;
     int alignment;
+    // distinguishes unnamed structs, 0 if unknown
+    int unnamed_id;
 };
 
 struct DStructMember {
diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 9e224c7..11dbbbb 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -295,6 +295,9 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
 
     if (struct_name == NULL) {
         dtype = new_unnamed_struct_dtype(members);
+        // every unnamed struct is a type of its own, even if its members are those of another one
+        resolver->unnamed_struct_id++;
+        dtype->dstruct->unnamed_id = resolver->unnamed_struct_id;
         return new_resolverret_dtype(dtype);
     }
 
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 979ccb6..f097a3d 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -21,6 +21,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->initialized_offset = -1;
     resolver->is_nested_initializing = 0;
     resolver->sliteral_id = -1;
+    resolver->unnamed_struct_id = 0;
     resolver->expr_dtype = NULL;
     return resolver;
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 1931864..2b0fd05 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -24,6 +24,7 @@ typedef struct Resolver {
     int initialized_offset;
     int is_nested_initializing;
     int sliteral_id;
+    int unnamed_struct_id;
     DType* expr_dtype;
 } Resolver;
 
-- 
2.43.0


From 75921bc26f62f9fb6aaf6e921971d3a093057d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 63/63] fix: refuse ordered comparisons of pointers to
 functions

---
 src/resolver/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 7905d02..a640066 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -595,6 +595,7 @@ ResolverReturn* resolve_relational_expr(Resolver* resolver) {
         pair_set(srt_pair, lhs_srt, rhs_srt);
         pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
+               lhs_srt->dtype->dpointer->to_dtype->type != DTYPE_FUNCTION &&
                dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
         // do nothing
     } else {
-- 
2.43.0

