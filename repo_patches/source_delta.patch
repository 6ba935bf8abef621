From 7e63f900a8cd5f3ac33731681850c1f1edb63c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 01/63] fix: account for the immediate of a compound shift of a
 rip-relative operand

---
 src/emit_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..0ab6a33 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2138,14 +2138,15 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
         }
         
         if(compound){
-            emit_register_relative_extended(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc);
+            // @note: The immediate has to be passed along, as it is part of the instruction and hence changes the 'rip' for rip-relative operands.
+            emit_register_relative_immediate(context, prefixes, one_byte_opcode(inst), reg_extension, lhs_loc, rhs_loc);
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
             emit_reg_extended_op(context, prefixes, one_byte_opcode(inst), reg_extension, lhs);
+            emit(rhs_loc->value);
             ret = lhs;
         }
-        emit(rhs_loc->value);
     }else{
         struct emit_location *rhs;
         if(rhs_loc->state == EMIT_LOCATION_loaded && rhs_loc->loaded_register == REGISTER_C){
-- 
2.43.0


From e3862d6e82650064b3fe63b323b644835447b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 02/63] fix: perform integer division and modulo assignments in
 the common arithmetic type

---
 src/parse.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 5056f2e..9194d78 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4077,6 +4077,30 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
 }
 
 // :compound_assignments
+// 
+// Whether 'lhs /= rhs' or 'lhs %= rhs' has to be performed in a type other than the type of 'lhs'.
+// Other then for addition, subtraction and multiplication the result would differ, e.g.:
+//     signed char c = -128; c /= -1;                // performed in 'int', hence does not overflow
+//     int i = -1;           i /= 2u;                // performed in 'unsigned int'
+//     char c = -1;          c /= (unsigned char)2;  // performed in 'int', the right hand side is never negative
+// 
+func b32 integer_division_assignment_needs_conversion(struct expr *lhs, struct expr *rhs){
+    struct ast_type *lhs_type = lhs->resolved_type;
+    struct ast_type *rhs_type = rhs->resolved_type;
+    
+    if(lhs_type->kind != AST_integer_type || rhs_type->kind != AST_integer_type) return false;
+    
+    struct ast_type *type = perform_usual_arithmetic_conversions(lhs_type, rhs_type);
+    if(type == lhs_type) return false;
+    
+    if(rhs->ir->kind == IR_integer_literal && integer_literal_as_u64(rhs) < (1ull << lhs_type->size)){
+        // For a small integer (like 10) only the signedness matters.
+        return type_is_signed(lhs_type) && !type_is_signed(type);
+    }
+    
+    return true;
+}
+
 func void punt_compound_assignment(struct context *context, struct expr *lhs, struct expr *rhs, struct token *site, enum ast_kind ast_kind){
     // 
     // IR_duplicate_lhs:
@@ -7073,10 +7097,10 @@ case NUMBER_KIND_##type:{ \
                 struct expr *rhs = &operand;
                 maybe_insert_cast_from_special_int_to_int(context, &operand, /*is_lhs*/0);
                 
-                // Punt if the right hand side is bigger than the lhs, because we could have situation like
+                // Punt if the modulo is not performed in the type of the lhs, because we could have situation like
                 //     char a = 1; int b = 0x100; a %= b; 
                 // in which case 'b' cant be truncated to char, or it will crash.
-                b32 punt = (lhs->resolved_type->size < rhs->resolved_type->size);
+                b32 punt = integer_division_assignment_needs_conversion(lhs, rhs);
                 
                 if(rhs->ir->kind == IR_integer_literal){
                     u64 value = integer_literal_as_u64(rhs);
@@ -7084,12 +7108,6 @@ case NUMBER_KIND_##type:{ \
                         report_error(context, stack_entry->token, "Compile time '%%=' by 0.");
                         return operand;
                     }
-                    
-                    if(value < (1ull << lhs->resolved_type->size)){
-                        // @cleanup: you could see how we could report an error here instead of punting in some cases
-                        //           but this hits the common case of % by some small integer (like 10).
-                        punt = false;
-                    }
                 }
                 
                 if(lhs->resolved_type == &globals.typedef_Bool || (lhs->resolved_type->kind == AST_bitfield_type)) punt = 1;
@@ -7193,6 +7211,8 @@ case NUMBER_KIND_##type:{ \
                     }
                 }
                 
+                if(ast_kind == AST_divide_assignment && integer_division_assignment_needs_conversion(lhs, rhs)) punt = true;
+                
                 if(lhs->resolved_type == &globals.typedef_Bool || lhs->resolved_type->kind == AST_bitfield_type) punt = 1;
                 
                 if(punt){
-- 
2.43.0


From 9610f8e31eb6da0a7b6c9093478ac0bd718963a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 03/63] fix: constant comparisons of floating point literals
 yield their value

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9194d78..fe69417 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2931,7 +2931,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
-- 
2.43.0


From 3dafc9f8e3c520fcfb7b35eb71dde3f21dc6c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 04/63] fix: NaN comparisons, floating point conditions and
 conversions to unsigned integers

---
 src/emit_x64.c | 188 ++++++++++++++++++++++++++++++++++++-------------
 src/parse.c    |  41 ++++++++++-
 2 files changed, 180 insertions(+), 49 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 0ab6a33..cc26494 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2096,6 +2096,44 @@ struct emit_location *emit_store_atomic_integer(struct context *context, struct
 //_____________________________________________________________________________________________________________________
 // Conditions
 
+// 
+// '==' and '!=' for floating point values. 
+// '(u)comis(s|d)' reports unordered operands as equal, hence we would have to check the parity flag as well, 
+// to get NaNs right. To only have one condition to check, we use 'cmp(eq|neq)s(s|d)', which sets a mask.
+// 
+func struct emit_location *emit_compare_equal_xmm(struct context *context, struct emit_location *lhs, struct emit_location *rhs, enum comp_condition comp){
+    assert(comp == COMP_equals || comp == COMP_unequals);
+    smm size = rhs->size;
+    
+    lhs = emit_load_float(context, lhs);
+    emit_location_prevent_spilling(context, lhs);
+    
+    struct prefixes prefix = get_sse_prefix_for_scalar(size);
+    struct emit_location *predicate = emit_location_immediate(context, (comp == COMP_equals) ? 0 : 4, 1);
+    
+    // cmps(s|d) lhs, rhs, predicate
+    if(rhs->state == EMIT_LOCATION_loaded){
+        emit_register_register(context, prefix, two_byte_opcode(0xC2), lhs, rhs);
+        emit((u8)predicate->value);
+    }else{
+        assert(rhs->state == EMIT_LOCATION_register_relative);
+        emit_register_relative_immediate(context, prefix, two_byte_opcode(0xC2), (u8)lhs->loaded_register, rhs, predicate);
+    }
+    free_emit_location(context, rhs);
+    
+    // movd mask, lhs
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 4);
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x7E), lhs->loaded_register, mask->loaded_register, 4);
+    emit_location_allow_spilling(context, lhs);
+    free_emit_location(context, lhs);
+    
+    // test mask, mask
+    emit_register_register(context, no_prefix(), one_byte_opcode(TEST_REGM_REG), mask, mask);
+    free_emit_location(context, mask);
+    
+    return emit_location_conditional(context, COMP_not_zero);
+}
+
 func struct emit_location *emit_compare_to_zero(struct context *context, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
@@ -2106,14 +2144,13 @@ func struct emit_location *emit_compare_to_zero(struct context *context, struct
         emit_register_register(context, no_prefix(), one_byte_opcode(inst), loaded, loaded);
         free_emit_location(context, loaded);
     }else{
+        emit_location_prevent_spilling(context, loaded);
         enum register_encoding reg = allocate_register(context, REGISTER_KIND_xmm);
         struct emit_location *zero = emit_location_loaded(context, REGISTER_KIND_xmm, reg, loaded->size);
+        emit_location_allow_spilling(context, loaded);
         emit_register_register(context, no_prefix(), two_byte_opcode(XOR_XMM), zero, zero);
         
-        enum legacy_prefixes prefix = loaded->size == 8 ? ASM_PREFIX_NON_PACKED_OP_double : ASM_PREFIX_NON_PACKED_OP_float;
-        emit_register_register(context, create_prefixes(prefix), two_byte_opcode(COMPARE_XMM), loaded, zero);
-        free_emit_location(context, loaded);
-        free_emit_location(context, zero);
+        return emit_compare_equal_xmm(context, loaded, zero, COMP_unequals);
     }
     
     return emit_location_conditional(context, COMP_not_zero);
@@ -2555,6 +2592,62 @@ struct emit_location *emit_float_cast(struct context *context, struct emit_locat
     return loaded;
 }
 
+// 
+// We want to cast some float-type to a 'u64'.
+// 
+// The instructions 'cvttsd2si' and 'cvttss2si' convert to a *signed* integer type. Values outside of its range convert to 0x8000000000000000.
+// If the destination is a 'u8' or 'u16', we can simply use the 32-bit version and then truncate.
+// If the destination is a 'u32', we can simply use the 64-bit version and then truncate.
+// If the destination is a 'u64', we have to handle large values separately:
+//     cvttsd2si rax, xmm0               ; This is the result, if it is in range, otherwise the top-bit is set.
+//     mov       rcx, -9.22337e+18       ; Load (double)-0x8000000000000000.
+//     movq      xmm1, rcx
+//     addsd     xmm1, xmm0              ; Subtract 0x8000000000000000 from the value.
+//     cvttsd2si rcx, xmm1               ; Convert the lower bits, in case the value was large.
+//     mov       rdx, rax
+//     sar       rdx, 63
+//     and       rcx, rdx                ; Ignore them, if it was not.
+//     or        rax, rcx
+//     
+struct emit_location *emit_float_to_u64_cast(struct context *context, struct emit_location *loc, smm float_size){
+    struct prefixes prefix = create_prefixes((float_size == 4) ? ASM_PREFIX_SSE_float : ASM_PREFIX_SSE_double);
+    
+    loc = emit_load_float(context, loc);
+    emit_location_prevent_spilling(context, loc);
+    
+    struct emit_location *low = emit_load_gpr(context, emit_location_immediate(context, (float_size == 4) ? 0xdf000000 : 0xc3e0000000000000, float_size));
+    emit_location_prevent_spilling(context, low);
+    
+    struct emit_location *shifted = emit_location_loaded(context, REGISTER_KIND_xmm, allocate_register(context, REGISTER_KIND_xmm), float_size);
+    
+    emit_register_op__internal(context, create_prefixes(ASM_PREFIX_66), two_byte_opcode(0x6E), shifted->loaded_register, low->loaded_register, float_size);
+    emit_register_register(context, prefix, two_byte_opcode(ADD_XMM), shifted, loc);
+    
+    low->size = 8;
+    emit_register_op__internal(context, prefix, two_byte_opcode(0x2c), low->loaded_register, shifted->loaded_register, 8);
+    free_emit_location(context, shifted);
+    
+    struct emit_location *result = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_location_prevent_spilling(context, result);
+    emit_register_op__internal(context, prefix, two_byte_opcode(0x2c), result->loaded_register, loc->loaded_register, 8);
+    emit_location_allow_spilling(context, loc);
+    free_emit_location(context, loc);
+    
+    struct emit_location *mask = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), 8);
+    emit_register_register(context, no_prefix(), one_byte_opcode(MOVE_REG_REGM), mask, result);
+    emit_reg_extended_op(context, no_prefix(), one_byte_opcode(SHIFT_OR_ROTATE_REGM_IMMEDIATE8), REG_OPCODE_SHIFT_ARITHMETIC_RIGHT, mask);
+    emit(63);
+    
+    emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), low, mask);
+    emit_register_register(context, no_prefix(), one_byte_opcode(OR_REG_REGM), result, low);
+    free_emit_location(context, mask);
+    
+    emit_location_allow_spilling(context, low);
+    free_emit_location(context, low);
+    emit_location_allow_spilling(context, result);
+    
+    return result;
+}
 
 //_____________________________________________________________________________________________________________________
 // :emit_code_for_function__internal
@@ -2916,18 +3009,27 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 2, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:
-            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+            case IR_cast_f32_to_s32: case IR_cast_f32_to_s32_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 4, 0x2c);
             }break;
-            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:
-            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+            case IR_cast_f32_to_u32: case IR_cast_f32_to_u32_lhs:{
+                // @note: We use the 64-bit version, as the value might not fit into an 's32'.
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 4, 8, 0x2c);
+            }break;
+            case IR_cast_f32_to_s64: case IR_cast_f32_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_float, 8, 8, 0x2c);
             }break;
+            case IR_cast_f32_to_u64: case IR_cast_f32_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_to_u64_cast(context, emit_location_stack[stack_index], 4);
+            }break;
             
             case IR_cast_f64_to_s8: case IR_cast_f64_to_s8_lhs:
             case IR_cast_f64_to_u8: case IR_cast_f64_to_u8_lhs:{
@@ -2951,42 +3053,16 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 4, 8, 0x2c);
             }break;
-            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:
-            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+            case IR_cast_f64_to_s64: case IR_cast_f64_to_s64_lhs:{
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
-                
-                // @cleanup:
-                // 
-                // We want to cast some float-type to some integer-type.
-                // 
-                // We use the instructions 'cvttsd2si' or 'cvttss2si' based on the 
-                // the floating point type. These instructions convert to *signed* integer type.
-                // Hence, we have to do something special here for unsigned types.
-                // 
-                // If the destination is a 'u8' or 'u16',  we can simply use the 32-bit version and then truncate.
-                // If the destination is a 'u32', we can simply use the 64-bit version and then truncate.
-                // If the destination is a 'u64', we have to check first if the value in the source is large.
-                // 
-                // gcc and msvc compare emit something like this:
-                //     movsd  xmm0, doubled              ; Load the initial value into xmm0.
-                //     comisd xmm0, qword ptr[rip + big] ; Compare against a big number 9.22337e+19 (0x8000000000000000).
-                //     jb simple_conversion              ; We are less then the first value which overflows a s64.
-                //     
-                //     sub xmm0, qword ptr[rip + big]    ; We exceed the big value, subtract it.
-                //     cvttsd2si rax, xmm0               ; Then convert, now the result should be (unless overflow in the correct range).
-                //     mov rcx, 0x8000000000000000       ; Then finally, add the 0x8000000000000000 back into rax.
-                //     add rax, rcx
-                //     jmp end
-                //     
-                // simple_conversion:
-                //     cvttsd2si rax, xmm0               ; We know it is in range, simply convert.
-                //     
-                // end:
-                //     
-                
                 emit_location_stack[stack_index] = emit_float_cast(context, emit_location_stack[stack_index], ASM_PREFIX_SSE_double, 8, 8, 0x2c);
             }break;
+            case IR_cast_f64_to_u64: case IR_cast_f64_to_u64_lhs:{
+                ir_arena_at += sizeof(struct ir);
+                smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
+                emit_location_stack[stack_index] = emit_float_to_u64_cast(context, emit_location_stack[stack_index], 8);
+            }break;
             
             case IR_cast_s8_to_f32: case IR_cast_s8_to_f32_lhs:{
                 ir_arena_at += sizeof(struct ir);
@@ -3873,8 +3949,20 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     comp = COMP_bigger_equals + condition_information + (ir_type_signed(ir_type) << 2);
                 }
                 
-                struct emit_location *result;
-                if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                struct emit_location *conditional;
+                if((ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64) && ir_kind >= IR_equals_u32){
+                    conditional = emit_compare_equal_xmm(context, lhs, rhs, comp);
+                }else if(ir_type == IR_TYPE_f32 || ir_type == IR_TYPE_f64){
+                    
+                    if(comp == COMP_smaller || comp == COMP_smaller_equals){
+                        // 
+                        // 'comis(s|d)' sets the carry flag for unordered operands, hence 'smaller' and 'smaller_equals' 
+                        // would be true for NaNs. Therefore, swap the operands.
+                        // 
+                        struct emit_location *temp = lhs; lhs = rhs; rhs = temp;
+                        comp = (comp == COMP_smaller) ? COMP_bigger : COMP_bigger_equals;
+                    }
+                    
                     lhs = emit_load_float(context, lhs);
                     
                     struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
@@ -3887,14 +3975,14 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     }
                     free_emit_location(context, rhs);
                     
-                    result = lhs;
+                    free_emit_location(context, lhs); // we only care about the flags
+                    conditional = emit_location_conditional(context, comp);
                 }else{
                     int size = ir_type_size[ir_type];
-                    result = emit_binary_op__internal(context, no_prefix(), lhs, rhs, size, 0, REG_OPCODE_CMP, CMP_REG8_REGM8, CMP_REG_REGM);
+                    struct emit_location *result = emit_binary_op__internal(context, no_prefix(), lhs, rhs, size, 0, REG_OPCODE_CMP, CMP_REG8_REGM8, CMP_REG_REGM);
+                    free_emit_location(context, result); // we only care about the flags
+                    conditional = emit_location_conditional(context, comp);
                 }
-                free_emit_location(context, result); // we only care about the flags
-                
-                struct emit_location *conditional = emit_location_conditional(context, comp);
                 
                 if(ir_arena_at < current_function->end_in_ir_arena){ // @paranoid
                     struct ir *next_ir = (struct ir *)ir_arena_at;
@@ -4174,7 +4262,11 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at - 1];
                 if(loc->state != EMIT_LOCATION_conditional){
-                    if(loc->state != EMIT_LOCATION_loaded) loc = emit_load_gpr(context, loc); // @cleanup: float?
+                    if(ir_kind == IR_logical_not_f32 || ir_kind == IR_logical_not_f64){
+                        loc = emit_load_float(context, loc);
+                    }else{
+                        loc = emit_load_gpr(context, loc);
+                    }
                     loc = emit_compare_to_zero(context, loc);
                 }
                 
diff --git a/src/parse.c b/src/parse.c
index fe69417..7e1167a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -291,6 +291,8 @@ func enum ast_kind *defined_type_for_promotion(struct expr *ast){
 
 //_____________________________________________________________________________________________________________________
 
+func void maybe_convert_float_condition_to_int(struct context *context, struct expr *condition);
+
 func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct ast_type *cast_to, enum ast_kind *cast_to_defined_type, struct expr *cast_what){
     
     int should_skip_cast = 0;
@@ -323,7 +325,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     invalid_default_case();
                 }
             }else{
-                if(f_value < 0.0){
+                if(f_value < 0.0 && cast_to != &globals.typedef_Bool){
                     report_error(context, cast_what->token, "Cast from negative a floating point number to an unsigned type is illegal.");
                 }
                 
@@ -482,6 +484,8 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
         if(ir_cast_to == IR_TYPE_bool){
             enum ir_kind ir_cast = IR_cast_to_bool;
             
+            if(lhs_or_rhs != AST_cast_lhs) maybe_convert_float_condition_to_int(context, cast_what);
+            
             if(lhs_or_rhs == AST_cast_lhs) ir_cast += 1;
             cast_what->ir = push_ir(context, ir_cast);
         }else{
@@ -1089,6 +1093,31 @@ func void report_type_mismatch_warning(struct context *context, struct ast_type
     report_warning(context, WARNING_type_mismatch, location, "%.*s %.*s.", lhs_string.amount, lhs_string.data, rhs_string.amount, rhs_string.data);
 }
 
+// 
+// The back-end tests conditions by comparing the bits of the value to zero.
+// For floating point values this is not correct, as '-0.0' is false and NaNs are true.
+// Hence, we transform them to '!!condition'.
+// 
+func void maybe_convert_float_condition_to_int(struct context *context, struct expr *condition){
+    if(condition->resolved_type->kind != AST_float_type) return;
+    
+    if(condition->ir->kind == IR_float_literal){
+        int is_true = float_literal_as_f64((struct ir_float_literal *)condition->ir) != 0.0;
+        
+        struct ir_integer_literal *lit = (struct ir_integer_literal *)condition->ir;
+        static_assert(sizeof(struct ir_float_literal) == sizeof(struct ir_integer_literal));
+        lit->base.kind = IR_integer_literal;
+        lit->_s64 = is_true;
+        lit->type = &globals.typedef_s32;
+    }else{
+        push_ir(context, (condition->resolved_type == &globals.typedef_f32) ? IR_logical_not_f32 : IR_logical_not_f64);
+        condition->ir = push_ir(context, IR_logical_not_u32);
+    }
+    
+    condition->resolved_type = &globals.typedef_s32;
+    condition->defined_type  = &globals.typedef_u8.kind;
+}
+
 func b32 casts_implicitly_to_bool(struct ast_type *resolved_type){
     
     if(&globals.typedef_void == resolved_type){
@@ -6589,6 +6618,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '&&' has to be convertible to _Bool.");
                     return operand;
                 }
+                maybe_convert_float_condition_to_int(context, &operand);
                 
                 // 
                 // Code for &&
@@ -6703,6 +6733,7 @@ case NUMBER_KIND_##type:{ \
                     report_error(context, operand.token, "Right of '||' has to be convertible to _Bool.");
                     return operand;
                 }
+                maybe_convert_float_condition_to_int(context, &operand);
                 
                 struct expr *op_lhs_expr = &stack_entry->operand;
                 struct ir *op_lhs = stack_entry->operand.ir;
@@ -7325,6 +7356,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '&&' has to be convertible to _Bool.");
                 return operand;
             }
+            maybe_convert_float_condition_to_int(context, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7343,6 +7375,7 @@ case NUMBER_KIND_##type:{ \
                 report_error(context, next_token(context), "Left of '||' has to be convertible to _Bool.");
                 return operand;
             }
+            maybe_convert_float_condition_to_int(context, &operand);
             
             struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_true);
             conditional_jump->label_number = context->jump_label_index++;
@@ -7413,6 +7446,8 @@ case NUMBER_KIND_##type:{ \
                 // Non-constant conditional. We have to insert jumps and such.
                 // 
                 
+                maybe_convert_float_condition_to_int(context, &operand);
+                
                 struct ir_jump_node *conditional_jump = push_jump(context, IR_jump_if_false);
                 conditional_jump->label_number = context->jump_label_index++;
                 
@@ -9084,6 +9119,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'if' condition has to cast to bool.");
                 
             }
+            maybe_convert_float_condition_to_int(context, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'if' condition.");
             
             // Get the initial "returns a value state".
@@ -9189,6 +9225,7 @@ func void parse_statement(struct context *context){
                         parser_scope_pop(context, scope);
                         return;
                     }
+                    maybe_convert_float_condition_to_int(context, &condition);
                     expect_token(context, TOKEN_semicolon, "Expected ';' after 'for'-condition.");
                 }
                 
@@ -9269,6 +9306,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'while' condition has to cast to bool.");
                 return;
             }
+            maybe_convert_float_condition_to_int(context, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' at the end of 'while'.");
             
             // :ir_refactor - new
@@ -9341,6 +9379,7 @@ func void parse_statement(struct context *context){
                 report_error(context, condition.token, "'while' condition has to cast to bool.");
                 return;
             }
+            maybe_convert_float_condition_to_int(context, &condition);
             expect_token(context, TOKEN_closed_paren, "Expected ')' ending 'while'-condition.");
             
             // :ir_refactor - new
-- 
2.43.0


From 8fb23d795ae9ced196c162095c2d5d0ebb288162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 05/63] fix: use the result of a floating point assignment as a
 floating point operand

---
 src/emit_x64.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index cc26494..e733f7e 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1407,7 +1407,8 @@ func struct emit_location *emit_load_float_into_specific_register(struct context
 }
 
 func struct emit_location *emit_load_float(struct context *context, struct emit_location *loc){
-    if(loc->state == EMIT_LOCATION_loaded) return loc;
+    // @note: The result of an assignment might be loaded in a general purpose register.
+    if(loc->state == EMIT_LOCATION_loaded && loc->register_kind == REGISTER_KIND_xmm) return loc;
     return emit_load_float_into_specific_register(context, loc, allocate_register(context, REGISTER_KIND_xmm));
 }
 
@@ -1858,6 +1859,7 @@ func struct emit_location *emit_binary_op_xmm(struct context *context, struct em
     assert(lhs->size == rhs->size);
     
     lhs = emit_load_float(context, lhs);
+    if(rhs->state == EMIT_LOCATION_loaded) rhs = emit_load_float(context, rhs);
     
     struct prefixes sse_prefix = get_sse_prefix_for_scalar(lhs->size);
     
@@ -2107,6 +2109,7 @@ func struct emit_location *emit_compare_equal_xmm(struct context *context, struc
     
     lhs = emit_load_float(context, lhs);
     emit_location_prevent_spilling(context, lhs);
+    if(rhs->state == EMIT_LOCATION_loaded) rhs = emit_load_float(context, rhs);
     
     struct prefixes prefix = get_sse_prefix_for_scalar(size);
     struct emit_location *predicate = emit_location_immediate(context, (comp == COMP_equals) ? 0 : 4, 1);
@@ -2579,6 +2582,8 @@ struct emit_location *emit_integer_cast(struct context *context, struct emit_loc
 }
 
 struct emit_location *emit_float_cast(struct context *context, struct emit_location *loc, enum legacy_prefixes prefix, int size, int big_size, u8 opcode){
+    if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
+    
     struct emit_location *loaded = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), size);
     
     if(loc->state == EMIT_LOCATION_register_relative){
@@ -2888,6 +2893,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 struct emit_location *loc = emit_location_stack[stack_index];
+                if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
                 loc->size = 8;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -2909,6 +2915,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(struct ir);
                 smm stack_index = emit_location_stack_at-1-((ir_kind-IR_cast_base)&1);
                 struct emit_location *loc = emit_location_stack[stack_index];
+                if(loc->state == EMIT_LOCATION_loaded) loc = emit_load_float(context, loc);
                 loc->size = 4;
                 
                 // cvtss2sd - convert_scalar_single_to_scalar_double
@@ -3964,6 +3971,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                     }
                     
                     lhs = emit_load_float(context, lhs);
+                    if(rhs->state == EMIT_LOCATION_loaded) rhs = emit_load_float(context, rhs);
                     
                     struct prefixes prefix = create_prefixes((ir_type == IR_TYPE_f32) ? ASM_PREFIX_NON_PACKED_OP_float : ASM_PREFIX_NON_PACKED_OP_double);
                     
-- 
2.43.0


From 76eccbe15e5d8e61f9729481822f30897c9e158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 06/63] fix: check the top three bits for an overflow of an
 octal literal

---
 src/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..b27bfeb 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1121,7 +1121,7 @@ func struct parsed_integer parse_octal_literal(struct context *context, struct t
             break; // only allow '0 to 7'
         }
         
-        if(val & 0x7000000000000000ull) report_overflow = true;
+        if(val & 0xe000000000000000ull) report_overflow = true;
         val = (val * 8) + oct;
     }
     
-- 
2.43.0


From cd999369fa11f978200505e89e6c632da7f6bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 07/63] fix: emit reachable local functions into object files
 and only those into executables

---
 src/coff_writer.c |  2 ++
 src/obj_writer.c  | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..970f4c7 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -707,6 +707,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         for(struct ast_list_node *local_function_node = thread_context->local_functions.first; local_function_node; local_function_node = local_function_node->next){
             struct ast_function *function = (struct ast_function *)local_function_node->value;
             
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
+            
             if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
             
             ast_list_append(&defined_functions, scratch, &function->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..47bc8c8 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1284,6 +1284,26 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    // Add local functions and their static variables, these are by definition defined.
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        for_ast_list(thread_context->local_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
+            if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
+            
+            function->as_decl.flags |= DECLARATION_FLAGS_is_static; // Local functions are never visible to other objects.
+            
+            ast_list_append(&defined_functions, scratch, &function->kind);
+            
+            for(struct ast_list_node *variable_node = function->static_variables.first; variable_node; variable_node = variable_node->next){
+                ast_list_append(&defined_variables, scratch, variable_node->value);
+            }
+        }
+    }
+    
     // Add all external declarations that were declared at local scope.
     for(u64 table_index = 0; table_index < globals.external_declarations_at_function_scope.capacity; table_index++){
         struct ast_declaration *decl = (struct ast_declaration *)globals.external_declarations_at_function_scope.nodes[table_index].ast;
-- 
2.43.0


From 00c2a2b9b04177c33f6dcacc3f40d5d47ccc07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 08/63] fix: locate the unwind information of every function in
 object files

---
 src/obj_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 47bc8c8..ba4e6a3 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2503,10 +2503,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             // 
             // Advance the offset to the next unwind info.
             // 
-            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data;
+            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset;
             u8 count_of_codes = unwind_data[2];
             unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
             
+            if(function->seh_exception_handler){
+                // Skip the exception handler and its scope table.
+                u8 *scope_table = obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset + 4;
+                unwind_info_offset += 8 + *(u32 *)scope_table * 16;
+            }
+            
             struct coff_symbol_table_record *pdata_record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
             
             struct string pdata_string = push_format_string(scratch, "$pdata$%.*s", name.size, name.data);
-- 
2.43.0


From 8bb485413c3e985af134ea57be71fdcf3dddb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 09/63] fix: encode the stack allocation of very large frames
 in unwind codes without padding

---
 src/obj_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index ba4e6a3..07914fb 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,9 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        // @note: The slots are only 2-byte aligned.
+        *push_struct(arena, u16) = (u16)stack_space_needed;
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From d4a155a810736a758efbe03c2e5cd00917a364be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 10/63] fix: divide pointer differences as signed integers

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 7e1167a..0d17722 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6172,7 +6172,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64);
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From 85b93646a8b5ee42e1055b8d21d8871a8a1bc76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 11/63] fix: subscripts with the pointer on the right

---
 src/main.c  | 8 ++++++++
 src/parse.c | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a4b32f0..b92ade7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2396,6 +2396,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 }
             }break;
             
+            case IR_swap_lhs_rhs:{
+                ir_offset += sizeof(struct ir);
+                
+                struct evaluate_static_initializer_ir_stack_node temp = ir_stack[ir_stack_at-1];
+                ir_stack[ir_stack_at-1] = ir_stack[ir_stack_at-2];
+                ir_stack[ir_stack_at-2] = temp;
+            }break;
+            
             case IR_add_u64: case IR_subtract_u64:{
                 ir_offset += sizeof(struct ir);
                 
diff --git a/src/parse.c b/src/parse.c
index 0d17722..a3d84f1 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1862,7 +1862,7 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
         
         struct ast_array_type *array = (struct ast_array_type *)lhs_type;
         
-        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal){
+        if(lhs->ir->kind == IR_pointer_literal_deref && index->ir->kind == IR_integer_literal && lhs->ir < index->ir){
             
             // Transform
             //    (*((int (*) [])0))[3]
@@ -5214,6 +5214,8 @@ case NUMBER_KIND_##type:{ \
                 expect_token(context, TOKEN_closed_index, "Expected ']' at the end of array subscript.");
                 if(context->should_exit_statement) return index;
                 
+                int need_swap = false;
+                
                 if(operand.resolved_type->kind == AST_integer_type){
                     //
                     // This is a @hack to work around some cursed stuff c is supporting.
@@ -5224,6 +5226,7 @@ case NUMBER_KIND_##type:{ \
                     struct expr temp = operand;
                     operand = index;
                     index = temp;
+                    need_swap = true;
                 }
                 
                 if(!check_unary_for_basic_types(context, index.resolved_type, CHECK_integer, test)) return index;
@@ -5257,6 +5260,8 @@ case NUMBER_KIND_##type:{ \
                 // @cleanup: warning or error if the lhs is an array and the index is statically out of bounds?
                 //
                 
+                if(need_swap) push_ir(context, IR_swap_lhs_rhs);
+                
                 push_nodes_for_subscript(context, &operand, &index);
                 
                 context->in_lhs_expression = true;
-- 
2.43.0


From 5506fbe0501ccf653ec4ce57ee0b4ac210a7db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 12/63] fix: scale integers added to constant pointers by the
 size of the element

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index a3d84f1..a33b66a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1793,9 +1793,9 @@ func void handle_pointer_arithmetic(struct context *context, enum ir_kind ir_kin
         
         struct ir_pointer_literal *pointer_lit = (struct ir_pointer_literal *)pointer->ir;
         if(ir_kind == IR_add_u64){
-            pointer_lit->pointer += integer_literal_as_s64(integer);
+            pointer_lit->pointer += integer_literal_as_s64(integer) * deref_type->size;
         }else{
-            pointer_lit->pointer -= integer_literal_as_s64(integer);
+            pointer_lit->pointer -= integer_literal_as_s64(integer) * deref_type->size;
         }
         
         if(integer->ir < pointer->ir){
-- 
2.43.0


From 5623a9e88bd2f7457ff7f0321dbc6e59e4b7ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 13/63] fix: an element of an array at a constant address has
 the type of the element

---
 src/parse.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index a33b66a..a33d169 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1872,11 +1872,10 @@ func void push_nodes_for_subscript(struct context *context, struct expr *lhs, st
             struct ir_pointer_literal *pointer_literal_deref = (struct ir_pointer_literal *)lhs->ir;
             pointer_literal_deref->pointer += array->element_type->size * integer_literal_as_u64(index); // @cleanup: overflow?
             
-            struct ast_type *pointer_type = parser_push_pointer_type(context, array->element_type, array->element_type_defined_type);
-            pointer_literal_deref->type = pointer_type;
+            pointer_literal_deref->type = array->element_type;
             
-            lhs->resolved_type = pointer_type;
-            lhs->defined_type = null;
+            lhs->resolved_type = array->element_type;
+            lhs->defined_type  = array->element_type_defined_type;
             
             pop_from_ir_arena(context, (struct ir_integer_literal *)index->ir);
             return;
-- 
2.43.0


From 06629db33d3f8b14b2f3ae4abb6abeeedb0b5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 14/63] fix: compound shifts of bit-fields only promote the
 left operand

---
 src/parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index a33d169..fb76e36 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4143,7 +4143,13 @@ func void punt_compound_assignment(struct context *context, struct expr *lhs, st
     
     struct expr dup_expr = {.ir = dup, site, lhs->resolved_type, lhs->defined_type};
     
-    maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    if(ast_kind == AST_left_shift_assignment || ast_kind == AST_right_shift_assignment){
+        // Shifts only promote the left hand side and the right hand side has to be of size 1.
+        maybe_insert_integer_promotion_cast(context, AST_cast_lhs, &dup_expr);
+        push_cast(context, AST_cast, &globals.typedef_u8, null, rhs);
+    }else{
+        maybe_insert_arithmetic_conversion_casts(context, &dup_expr, rhs);
+    }
     
     enum ir_type ir_type = ir_type_from_type(dup_expr.resolved_type);
     enum ir_kind op_ir_kind;
-- 
2.43.0


From 2dcc22f04f3618469453325688ee16823fd7a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 15/63] fix: layout of bit-fields in unions, after zero width
 and after anonymous bit-fields

---
 src/parse.c | 65 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index fb76e36..bf9108f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8014,6 +8014,7 @@ case TOKEN_##type_name:{                                                 \
                     
                     struct ast_type *current_bitfield_type = null;
                     s64 current_bitfield_index = 0;
+                    smm current_bitfield_offset = 0;
                     
                     struct token *had_array_of_unknown_size = null;
                     
@@ -8112,8 +8113,18 @@ case TOKEN_##type_name:{                                                 \
                                 compound->base.flags |= TYPE_FLAG_ends_in_array_of_unknown_size;
                             }
                             
+                            smm decl_alignment = declarator.type->alignment;
+                            if(struct_specifiers.alignment){ 
+                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                            }else if(is_packed){
+                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
+                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
+                                decl_alignment = context->pragma_alignment;
+                            }
+                            
                             // :bitfields :parse_bitfields
-                            b32 this_was_a_bitfield_type_that_fits = false;
+                            b32 is_bitfield = false;
                             if(peek_token(context, TOKEN_colon)){
                                 struct token *colon = next_token(context);
                                 
@@ -8132,7 +8143,17 @@ case TOKEN_##type_name:{                                                 \
                                 // "As a special case, a bit-field struture member with a width of 0 indicates 
                                 //  that no further bit-field is to be packed into the unit in which the previous 
                                 //  bitfield, if any, was placed."
+                                // 
+                                // It is ignored, unless it follows a bitfield of non-zero width.
+                                // 
                                 if(width == 0){
+                                    if(current_bitfield_type && is_union){
+                                        size = max_of(declarator.type->size, size);
+                                    }else if(current_bitfield_type){
+                                        size = align_up(size, decl_alignment);
+                                        alignment = max_of(decl_alignment, alignment);
+                                    }
+                                    
                                     current_bitfield_type = null;
                                     current_bitfield_index = 0;
                                     
@@ -8155,19 +8176,23 @@ case TOKEN_##type_name:{                                                 \
                                 
                                 u64 bitfield_base = current_bitfield_index;
                                 
-                                if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
-                                    // 
-                                    // If there was no prior named bitfield, it was not a bitfield that fits. This can happen for e.g.:
-                                    //   
-                                    //   struct { int : 4; int a: 4; };
-                                    // 
-                                    if(compound->amount_of_members) this_was_a_bitfield_type_that_fits = true;
-                                    
+                                if(is_union){
+                                    // Every member of a union starts at its beginning and bitfields do not contribute to its alignment.
+                                    bitfield_base = 0;
+                                    current_bitfield_type = declarator.type;
+                                    size = max_of(declarator.type->size, size);
+                                }else if(current_bitfield_type && current_bitfield_type->size == declarator.type->size && current_bitfield_index + width <= declarator.type->size * 8){
+                                    // This bitfield fits into the unit of the previous one.
                                     current_bitfield_index += width;
                                 }else{
+                                    // Allocate a new unit, this also happens for anonymous bitfields.
                                     bitfield_base = 0;
                                     current_bitfield_type  = declarator.type;
                                     current_bitfield_index = width;
+                                    
+                                    current_bitfield_offset = align_up(size, decl_alignment);
+                                    size = current_bitfield_offset + declarator.type->size;
+                                    alignment = max_of(decl_alignment, alignment);
                                 }
                                 
                                 if(declarator.ident == globals.invalid_identifier_token){
@@ -8199,29 +8224,17 @@ case TOKEN_##type_name:{                                                 \
                                 bitfield->base.alignment = declarator.type->alignment;
                                 
                                 declarator.type = &bitfield->base;
+                                is_bitfield = true;
                             }else{
                                 current_bitfield_type = null;
                                 current_bitfield_index = 0;
                             }
                             
-                            smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
-                                decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
-                            }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
-                                decl_alignment = context->pragma_alignment;
-                            }
-                            
                             smm offset_in_type;
                             
-                            if(this_was_a_bitfield_type_that_fits){
-                                // 
-                                // Copy the offset from the previous bitfield type.
-                                // 
-                                assert(compound->members[compound->amount_of_members-1].type->kind == AST_bitfield_type);
-                                offset_in_type = compound->members[compound->amount_of_members-1].offset_in_type;
+                            if(is_bitfield){
+                                // The unit this bitfield is contained in was already allocated.
+                                offset_in_type = current_bitfield_offset;
                             }else if(is_union){
                                 offset_in_type = 0;
                                 size = max_of(declarator.type->size, size);
@@ -8236,7 +8249,7 @@ case TOKEN_##type_name:{                                                 \
                             }
                             
                             // The alignment is the strictest alignment for any of the members.
-                            alignment = max_of(decl_alignment, alignment);
+                            if(!is_bitfield) alignment = max_of(decl_alignment, alignment);
                             
                             if(!context->should_exit_statement){
                                 
-- 
2.43.0


From 88a2b9fd282b037f0b5aff01251f327865e3e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 16/63] fix: explicit alignment of a nested member applies to
 the structures containing it

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index bf9108f..13ea7b1 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8123,6 +8123,9 @@ case TOKEN_##type_name:{                                                 \
                                 decl_alignment = context->pragma_alignment;
                             }
                             
+                            // If a member has an explicit alignment, the structure containing it has it as well.
+                            compound->base.flags |= (declarator.type->flags & TYPE_FLAG_is_user_aligned);
+                            
                             // :bitfields :parse_bitfields
                             b32 is_bitfield = false;
                             if(peek_token(context, TOKEN_colon)){
-- 
2.43.0


From db2fb3485000e517e240b7301cd801ca35f89ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 17/63] fix: arrays of explicitly aligned structures keep their
 alignment in packed structures

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 13ea7b1..2311008 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -10394,6 +10394,7 @@ func struct declarator_return parse_declarator(struct context* context, struct a
             }
             
             array_type->base.alignment = ret.type->alignment;
+            array_type->base.flags |= (ret.type->flags & TYPE_FLAG_is_user_aligned);
         }else{
             invalid_code_path;
         }
-- 
2.43.0


From 4f3b38c30f9d4602fb2768121bed1f7e6fe91c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 18/63] fix: an explicit alignment of a member never decreases
 its alignment

---
 src/parse.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2311008..24578b7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8114,15 +8114,18 @@ case TOKEN_##type_name:{                                                 \
                             }
                             
                             smm decl_alignment = declarator.type->alignment;
-                            if(struct_specifiers.alignment){ 
-                                decl_alignment = struct_specifiers.alignment; // Member specifiers are the most inner so they should take precedence.
-                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
-                            }else if(is_packed){
+                            if(is_packed){
                                 decl_alignment = 1; // If the struct is __declspec(packed), overwrite the _natural_ alignment.
                             }else if(!(declarator.type->flags & TYPE_FLAG_is_user_aligned) && decl_alignment > context->pragma_alignment){
                                 decl_alignment = context->pragma_alignment;
                             }
                             
+                            if(struct_specifiers.alignment){ 
+                                // Member specifiers are the most inner so they should take precedence, but they never decrease the alignment.
+                                decl_alignment = max_of(struct_specifiers.alignment, decl_alignment);
+                                compound->base.flags |= TYPE_FLAG_is_user_aligned;
+                            }
+                            
                             // If a member has an explicit alignment, the structure containing it has it as well.
                             compound->base.flags |= (declarator.type->flags & TYPE_FLAG_is_user_aligned);
                             
-- 
2.43.0


From bf94311d6bcbe8bf35831aefeddb36a51c1ef847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 19/63] fix: dereferences in address constants

---
 src/main.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index b92ade7..871834e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2199,6 +2199,34 @@ func void parser_emit_memory_location(struct context *context, struct ast_declar
 //_____________________________________________________________________________________________________________________
 
 
+struct evaluate_static_initializer_ir_stack_node{
+    struct ir *ir;
+    smm offset;
+    int is_address;
+};
+
+// Transform the node from the value of a pointer into the object it points to. 
+// This does not load anything, as the only thing one can do with the object is to take its address.
+// Returns '0' if the value of the pointer is not known.
+func int evaluate_static_initializer__dereference(struct evaluate_static_initializer_ir_stack_node *node){
+    if(!node->is_address){
+        if(!node->ir) return 0;
+        
+        if(node->ir->kind == IR_pointer_literal){
+            node->offset = (smm)((struct ir_pointer_literal *)node->ir)->pointer;
+        }else if(node->ir->kind == IR_integer_literal){
+            node->offset = integer_literal_to_bytes(node->ir);
+        }else{
+            return 0;
+        }
+        
+        node->ir = 0; // An object at a constant address.
+    }
+    
+    node->is_address = 0;
+    return 1;
+}
+
 func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset){
     
     // @cleanup: There has to be a better solution.
@@ -2221,11 +2249,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
     //     1 + (1 + (1 + (1 + (1 + a))))
     // 
     smm ir_stack_size = 0x10;
-    struct evaluate_static_initializer_ir_stack_node{
-        struct ir *ir;
-        smm offset;
-        int is_address;
-    } *ir_stack = push_uninitialized_data(&context->scratch, struct evaluate_static_initializer_ir_stack_node, ir_stack_size);
+    struct evaluate_static_initializer_ir_stack_node *ir_stack = push_uninitialized_data(&context->scratch, struct evaluate_static_initializer_ir_stack_node, ir_stack_size);
     smm ir_stack_at = 0;
     
     
@@ -2359,9 +2383,14 @@ func void evaluate_static_initializer__internal(struct context *context, struct
             // Unary expressions:
             // 
             
+            case IR_member_deref:
             case IR_member:{
                 ir_offset += sizeof(struct ir_dot_or_arrow);
                 
+                if(ir_node->kind == IR_member_deref){
+                    if(!evaluate_static_initializer__dereference(&ir_stack[ir_stack_at-1])) goto initializer_not_constant;
+                }
+                
                 struct ir_dot_or_arrow *dot = (struct ir_dot_or_arrow *)ir_node;
                 ir_stack[ir_stack_at-1].offset += dot->member->offset_in_type;
             }break;
@@ -2377,10 +2406,17 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 ir_stack[ir_stack_at-2].is_address = 1;
             }break;
             
+            case IR_deref:{
+                ir_offset += sizeof(struct ir_deref);
+                
+                if(!evaluate_static_initializer__dereference(&ir_stack[ir_stack_at-1])) goto initializer_not_constant;
+            }break;
+            
             // 
             // Binary expressions:
             // 
             
+            case IR_pointer_subscript:
             case IR_array_subscript:{
                 struct ir_subscript *subscript = (struct ir_subscript *)ir_node;
                 ir_offset += sizeof(struct ir_subscript);
@@ -2388,7 +2424,11 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 
                 struct ir *index = ir_stack[ir_stack_at].ir;
                 
-                if(index->kind == IR_integer_literal){
+                if(ir_node->kind == IR_pointer_subscript){
+                    if(!evaluate_static_initializer__dereference(&ir_stack[ir_stack_at-1])) goto initializer_not_constant;
+                }
+                
+                if(index && !ir_stack[ir_stack_at].is_address && index->kind == IR_integer_literal){
                     ir_stack[ir_stack_at-1].offset += integer_literal_to_bytes((struct ir *)index) * subscript->type->size;
                 }else{
                     report_error(context, /*ir->token*/error_token, "Expected a constant in array subscript, when evaluating initializer at compile time.");
@@ -2417,6 +2457,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     patch_lhs  = binary_lhs;
                     offset_lhs = ir_stack[ir_stack_at-2].offset;
                 }else{
+                    if(!binary_lhs) goto initializer_not_constant;
+                    
                     if(binary_lhs->kind == IR_pointer_literal){
                         offset_lhs += (smm)((struct ir_pointer_literal *)binary_lhs)->pointer;
                     }else if(binary_lhs->kind == IR_integer_literal){
@@ -2433,6 +2475,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     patch_rhs  = binary_rhs;
                     offset_rhs = ir_stack[ir_stack_at-1].offset;
                 }else{
+                    if(!binary_rhs) goto initializer_not_constant;
+                    
                     if(binary_rhs->kind == IR_pointer_literal){
                         offset_rhs += (smm)((struct ir_pointer_literal *)binary_rhs)->pointer;
                     }else if(binary_rhs->kind == IR_integer_literal){
@@ -2487,7 +2531,7 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     }
                 }else{
                     struct ir *rhs = ir_stack[ir_stack_at].ir;
-                    assert(rhs);
+                    if(!rhs) goto initializer_not_constant;
                     
                     switch((enum ir_kind)rhs->kind){
                         case IR_integer_literal:{
-- 
2.43.0


From 64be6a08a6e4727f355a71521d5d1b2f2c148032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 20/63] fix: bit-field initializers are truncated, masks of 64
 bit wide bit-fields

---
 src/ast.c      | 6 ++++++
 src/emit_x64.c | 4 ++--
 src/main.c     | 9 ++++++---
 src/parse.c    | 6 +++---
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0524d75..a788b5e 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -619,6 +619,12 @@ struct ast_bitfield_type{
     u32 width;
 };
 
+// Get the mask for the value of the bitfield. 
+// @note: Shifting by the whole size is undefined, a bitfield of width 64 needs the whole mask.
+inline u64 get_bitfield_mask(struct ast_bitfield_type *bitfield){
+    return 0xffffffffffffffff >> (64 - bitfield->width);
+}
+
 inline smm get_declaration_alignment(struct ast_declaration *decl){
     smm alignment = decl->type->alignment;
     if(decl->overwrite_alignment) alignment = decl->overwrite_alignment;
diff --git a/src/emit_x64.c b/src/emit_x64.c
index e733f7e..dead178 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2042,7 +2042,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     emit_location_prevent_spilling(context, rhs_loaded);
     
     // Truncate the right hand side.
-    struct emit_location *mask = emit_location_immediate(context, (1ull << bitfield->width) - 1, lhs->size);
+    struct emit_location *mask = emit_location_immediate(context, get_bitfield_mask(bitfield), lhs->size);
     struct emit_location *mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), rhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
@@ -2057,7 +2057,7 @@ struct emit_location *emit_store_bitfield(struct context *context, struct ast_bi
     struct emit_location *lhs_loaded = emit_load_gpr(context, lhs);
     emit_location_prevent_spilling(context, lhs_loaded);
     
-    mask = emit_location_immediate(context, ~(((1ull << bitfield->width) - 1) << bitfield->bit_index), lhs->size);
+    mask = emit_location_immediate(context, ~(get_bitfield_mask(bitfield) << bitfield->bit_index), lhs->size);
     mask_loaded = emit_load_gpr(context, mask);
     emit_register_register(context, no_prefix(), one_byte_opcode(AND_REG_REGM), lhs_loaded, mask_loaded);
     free_emit_location(context, mask_loaded);
diff --git a/src/main.c b/src/main.c
index 871834e..21583d5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2543,10 +2543,13 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
-                                value <<= bitfield->bit_index;
+                                u64 mask = get_bitfield_mask(bitfield);
                                 
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
-                                u64 new_value = (mask & old_value) | value;
+                                // Truncate the value, it must not change the other members.
+                                value = (value & mask) << bitfield->bit_index;
+                                mask  = mask << bitfield->bit_index;
+                                
+                                u64 new_value = (~mask & old_value) | value;
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
                                 assert(lhs_type->kind == AST_integer_type || lhs_type->kind == AST_pointer_type || lhs_type->kind == AST_atomic_integer_type);
diff --git a/src/parse.c b/src/parse.c
index 24578b7..f4a270c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -409,8 +409,8 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
             struct ast_bitfield_type *bitfield = (struct ast_bitfield_type *)cast_to;
             
             if(type_is_signed(bitfield->base_type)){
-                smm min_value = -(1ll << (bitfield->width - 1));
-                smm max_value =  (1ll << (bitfield->width - 1)) - 1;
+                smm max_value = (smm)(get_bitfield_mask(bitfield) >> 1);
+                smm min_value = -max_value - 1;
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
@@ -424,7 +424,7 @@ func void push_cast(struct context *context, enum ast_kind lhs_or_rhs, struct as
                     }
                 }
             }else{
-                u64 max_value = (1ull << bitfield->width) - 1;
+                u64 max_value = get_bitfield_mask(bitfield);
                 
                 if(type_is_signed(cast_what->resolved_type)){
                     s64 value = integer_literal_as_u64(cast_what);
-- 
2.43.0


From 69112aa4903ce88901581c664cc8de1240857435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 21/63] fix: overridden initializers, initializers of
 structures starting with an unnamed bit-field, string literals in arrays of
 arrays and of unsigned char

---
 src/emit_x64.c | 12 ++++++++++
 src/ir.h       |  1 +
 src/main.c     | 62 +++++++++++++++++++++++++++++++++++++++++++++-----
 src/parse.c    | 54 +++++++++++++++++++++++++++++++++++++++----
 4 files changed, 118 insertions(+), 11 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index dead178..c7e7ce7 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2790,6 +2790,18 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
             // Initializer:
             // 
             
+            case IR_zero_initializer:{
+                struct ir_initializer *zero_initializer = (struct ir_initializer *)ir;
+                ir_arena_at += sizeof(*zero_initializer);
+                
+                struct emit_location *decl_location = emit_location_stack[emit_location_stack_at-1];
+                
+                struct emit_location *dest = emit_location_stack_relative(context, 0, zero_initializer->lhs_type->size);
+                dest->offset = decl_location->offset + zero_initializer->offset;
+                
+                emit_memset(context, dest, 0);
+            }break;
+            
             case IR_initializer:{
                 struct ir_initializer *initializer = (struct ir_initializer *)ir;
                 ir_arena_at += sizeof(*initializer);
diff --git a/src/ir.h b/src/ir.h
index ff51940..584d0e3 100644
--- a/src/ir.h
+++ b/src/ir.h
@@ -367,6 +367,7 @@ enum ir_kind{
     IR_nop,
     IR_embed,
     IR_initializer,
+    IR_zero_initializer, // Same structure as 'IR_initializer'.
     IR_asm_block,
     
     IR_cast_to_void,
diff --git a/src/main.c b/src/main.c
index 21583d5..8f3eeb4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2227,7 +2227,34 @@ func int evaluate_static_initializer__dereference(struct evaluate_static_initial
     return 1;
 }
 
-func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset){
+// The patches emitted for the initializer currently evaluated.
+struct static_initializer_patches{
+    struct patch_node *before; // The last patch which does not belong to the initializer.
+    smm end;                   // All patches end at or before this offset.
+};
+
+// Remove the patches to the bytes [offset, offset + size), when an initializer for these bytes is overridden.
+func void remove_overridden_patches(struct context *context, struct static_initializer_patches *patches, smm offset, smm size){
+    if(patches->end <= offset) return; // The usual case, nothing was overridden.
+    
+    struct patch_node *previous = patches->before;
+    for(struct patch_node *patch = previous ? previous->next : context->local_patch_list.first; patch; patch = patch->next){
+        smm patch_offset = patch->location_offset_in_dest_declaration;
+        
+        if(patch_offset < offset + size && offset < patch_offset + 8){
+            if(previous){
+                previous->next = patch->next;
+            }else{
+                context->local_patch_list.first = patch->next;
+            }
+            if(context->local_patch_list.last == patch) context->local_patch_list.last = previous;
+        }else{
+            previous = patch;
+        }
+    }
+}
+
+func void evaluate_static_initializer__internal(struct context *context, struct ir *initializer, struct ast_declaration *patch_declaration, u8 *data, smm data_size, smm root_offset, struct static_initializer_patches *patches){
     
     // @cleanup: There has to be a better solution.
     struct token *error_token = get_initializer_token(patch_declaration);
@@ -2358,8 +2385,12 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     smm lhs_size = lhs_type->size;
                     assert(offset + lhs_size <= data_size);
                     
+                    // The compound literal might override previous initializers.
+                    remove_overridden_patches(context, patches, offset, lhs_size);
+                    memset(data + offset, 0, lhs_size);
+                    
                     // Recursively evaluate the compound literal.
-                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset);
+                    evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset, patches);
                 }else{
                     // Add this compound literal to the list of unnamed global declarations.
                     ast_list_append(&context->global_struct_and_array_literals, context->arena, &compound_literal->decl->kind);
@@ -2515,6 +2546,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 smm lhs_size = lhs_type->size;
                 assert(offset + lhs_size <= data_size);
                 
+                // This initializer might override an address.
+                remove_overridden_patches(context, patches, offset, lhs_size);
+                
                 if(ir_stack[ir_stack_at].is_address){
                     // 
                     // We have to emit an absolute patch.
@@ -2527,7 +2561,9 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                         // This happens for a subtraction with the same patch node.
                         memcpy(data + offset, &offset_in_rhs, lhs_size);
                     }else{
+                        memset(data + offset, 0, lhs_size);
                         emit_patch(context, PATCH_absolute, rhs, offset_in_rhs, patch_declaration, offset, -1);
+                        patches->end = max_of(patches->end, offset + lhs_size);
                     }
                 }else{
                     struct ir *rhs = ir_stack[ir_stack_at].ir;
@@ -2606,9 +2642,10 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                             
                             memcpy(data + offset, str->value.data, str->value.size);
                             
-                            // @cleanup: should we memset the whole "upper" part?
-                            if(offset + str->value.size + lhs_array->element_type->size <= array_size){
-                                memset(&data[offset + str->value.size], 0, lhs_array->element_type->size); // zero-terminate
+                            // The rest of the array is zero.
+                            // @note: This only matters if the string overrides a previous initializer.
+                            if(!lhs_array->is_of_unknown_size){
+                                memset(&data[offset + str->value.size], 0, array_size - str->value.size);
                             }
                         }break;
                         
@@ -2635,6 +2672,18 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                 }
             }break;
             
+            case IR_zero_initializer:{
+                struct ir_initializer *zero_initializer = (struct ir_initializer *)ir_node;
+                ir_offset += sizeof(*zero_initializer);
+                
+                smm offset = root_offset + zero_initializer->offset;
+                smm size   = zero_initializer->lhs_type->size;
+                assert(offset + size <= data_size);
+                
+                remove_overridden_patches(context, patches, offset, size);
+                memset(data + offset, 0, size);
+            }break;
+            
             case IR_pop_expression:{
                 return;
             }break;
@@ -2671,7 +2720,8 @@ func u8 *evaluate_static_initializer(struct context *context, struct ast_declara
     push_zero_align(context->arena, data_align); // @cleanup: Do we need this?
     u8 *data = push_uninitialized_data(context->arena, u8, data_size); // @note: This will be zero-initialized, as we never free from arena.
     
-    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0);
+    struct static_initializer_patches patches = { .before = context->local_patch_list.last };
+    evaluate_static_initializer__internal(context, decl->assign_expr, decl, data, data_size, 0, &patches);
     
     return data;
 }
diff --git a/src/parse.c b/src/parse.c
index f4a270c..bf95a5d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2087,6 +2087,22 @@ func struct ast_type *get_current_object_type_for_designator_node(struct designa
     return current_object_type;
 }
 
+// The first member is not always at offset zero, it might be preceded by an unnamed bitfield.
+func smm get_offset_of_first_member(struct ast_type *type){
+    if(type->kind != AST_struct && type->kind != AST_union) return 0;
+    
+    struct ast_compound_type *compound = (struct ast_compound_type *)type;
+    return compound->amount_of_members ? compound->members[0].offset_in_type : 0;
+}
+
+// A string literal initializes a whole array, if the elements of the array are characters of the right size.
+func int string_literal_initializes_array(struct ast_array_type *wanted_array, struct ast_array_type *string_type){
+    struct ast_type *element_type = wanted_array->element_type;
+    if(element_type->kind == AST_array_type || element_type->kind == AST_struct || element_type->kind == AST_union) return 0;
+    
+    return element_type->size == string_type->element_type->size;
+}
+
 func void parse_initializer_list(struct context *context, struct ast_type *type_to_initialize, u64 base_offset, smm *out_trailing_initializer_size){
     
     struct token *initial_open_curly = next_token(context);
@@ -2161,6 +2177,8 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
         .offset_at = base_offset,
     };
     
+    u64 initialized_end = base_offset; // Everything initialized so far is before this offset.
+    
     if(type_to_initialize->kind == AST_struct || type_to_initialize->kind == AST_union){
         struct ast_compound_type *ast_struct = (struct ast_compound_type *)type_to_initialize;
         
@@ -2203,6 +2221,8 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
         struct designator_node *last;
     } designator_stack = {.first = &initial_list_node, .last = &initial_list_node};
     
+    initial_list_node.offset_at += get_offset_of_first_member(type_to_initialize);
+    
     do{
         if(peek_token(context, TOKEN_closed_curly)) break;
         
@@ -2456,6 +2476,18 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
             
             smm trailing_sub_initializer_size = 0;
             
+            if(designator_stack.first->offset_at < initialized_end && current_object_type->size && (current_object_type->kind == AST_array_type || current_object_type->kind == AST_struct || current_object_type->kind == AST_union)){
+                // 
+                // The initializer list might override previous initializers:
+                //     struct v2 a[2] = {[1] = {1, 2}, [0] = {3, 4}, [1] = {5}};
+                // All members which are not initialized by it are zero, hence 'a[1].y' should be '0'.
+                // 
+                struct ir_initializer *zero_initializer = push_uninitialized_struct(&context->ir_arena, struct ir_initializer);
+                zero_initializer->base.kind = IR_zero_initializer;
+                zero_initializer->offset = designator_stack.first->offset_at;
+                zero_initializer->lhs_type = current_object_type;
+            }
+            
             parse_initializer_list(context, current_object_type, designator_stack.first->offset_at, &trailing_sub_initializer_size);
             
             // :trailing_arrays
@@ -2521,7 +2553,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 struct ast_array_type *wanted_array = (struct ast_array_type *)designator_stack.first->lhs_type;
                 struct ast_array_type *given_array  = (struct ast_array_type *)expression.resolved_type;
                 
-                if(wanted_array->element_type->size == given_array->element_type->size){
+                if(string_literal_initializes_array(wanted_array, given_array)){
                     
                     // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
                     current_object_type = designator_stack.first->lhs_type;
@@ -2561,7 +2593,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     struct ast_array_type *wanted_array = (struct ast_array_type *)current_object_type;
                     struct ast_array_type *given_array = (struct ast_array_type *)expression.resolved_type;
                     
-                    if(wanted_array->element_type->size == given_array->element_type->size){
+                    if(string_literal_initializes_array(wanted_array, given_array)){
                         
                         if(wanted_array->is_of_unknown_size){
                             trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
@@ -2606,7 +2638,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     // 
                     new_node = push_struct(&context->scratch, struct designator_node);
                     new_node->lhs_type = current_object_type;
-                    new_node->offset_at = designator_stack.first->offset_at;
+                    new_node->offset_at = designator_stack.first->offset_at + get_offset_of_first_member(type);
                     new_node->member_at = 0;
                 }else if(type->kind == AST_array_type){
                     new_node = push_struct(&context->scratch, struct designator_node);
@@ -2630,6 +2662,11 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
         
         int at_end = peek_token(context, TOKEN_closed_curly) != 0;
         
+        if(designator_stack.first){
+            u64 initializer_end = designator_stack.first->offset_at + current_object_type->size;
+            initialized_end = max_of(initialized_end, initializer_end);
+        }
+        
         while(true){
             struct designator_node *node = designator_stack.first;
             struct ast_type *type = node->lhs_type;
@@ -2863,9 +2900,16 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
                 
                 if(lhs_type->is_of_unknown_size){
                     // 
-                    // We want the type to be patched to the type of the string literal.
+                    // We want the size to be patched to the size of the string literal.
+                    // The element type does not change, it might be a different one 'unsigned char a[] = "asd";'.
                     // 
-                    type = &rhs_type->base;
+                    struct ast_array_type *array_type = parser_type_push(context, array_type);
+                    array_type->element_type              = lhs_type->element_type;
+                    array_type->element_type_defined_type = lhs_type->element_type_defined_type;
+                    
+                    patch_array_size(context, array_type, rhs_type->amount_of_elements, equals);
+                    
+                    type = &array_type->base;
                 }else if(lhs_type->amount_of_elements == (rhs_type->amount_of_elements - 1)){
                     // 
                     // Here we are in the 'char a[3] = "asd"' case.
-- 
2.43.0


From 24889a8a0d213a7a63df1aef34dff55d3147c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 22/63] fix: UTF-16 surrogates, unicode escapes and UTF-8
 sequences outside of unicode

---
 src/preprocess.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index b27bfeb..8d829a3 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -557,6 +557,11 @@ static u32 eat_escape_from_string_and_return_codepoint(struct context *context,
                 report_error(context, token, "Unicode code point escape sequence '\\%c%.*s' must be followed by %s hex characters, but %c is not a hex character.", escaped_character, hex_chars.size, hex_chars.data, size == 4 ? "four" : "eight", hex_chars.data[0]);
             }
             
+            if(value > 0x10ffff){
+                report_error(context, token, "0x%llx is not a valid unicode code point, the maximal code point is 0x10ffff.", value);
+                return 0;
+            }
+            
             return (u32)value;
         }break;
         
@@ -582,7 +587,7 @@ u32 utf8_read_codepoint(struct context *context, struct token *token, struct str
         size += 1;
     }
     
-    if(size > string->size){
+    if(size < 1 || size > 3 || size > string->size){
         // :Error
         report_syntax_error(context, token, "Literal contains invalid utf-8.");
         return 0;
@@ -612,6 +617,11 @@ u32 utf8_read_codepoint(struct context *context, struct token *token, struct str
         codepoint |= shift * (character & 0b00111111);
     }
     
+    if(codepoint > 0x10ffff){
+        report_syntax_error(context, token, "Literal contains invalid utf-8.");
+        return 0;
+    }
+    
     string_eat_front(string, size);
     return codepoint;
 }
@@ -794,7 +804,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                         continue;
                     }
@@ -830,7 +840,7 @@ struct string escape_and_convert_string_array(struct context *context, struct to
                             
                             // first the high bits, then the low bits
                             handle_escaping_out(0xD800 | ((codepoint >> 10) & 0b1111111111));
-                            handle_escaping_out(0xDD00 | ((codepoint >>  0) & 0b1111111111));
+                            handle_escaping_out(0xDC00 | ((codepoint >>  0) & 0b1111111111));
                         }
                     }else{
                         // Allow the user to specify invalid utf-16 through escapes!
-- 
2.43.0


From 9019069f5160fa575167e1f26ca33dd287c38037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 23/63] fix: _Generic with associations after the selected one
 or a default before it

---
 src/parse.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index bf95a5d..97e882b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -5071,8 +5071,9 @@ case NUMBER_KIND_##type:{ \
             
             context->ir_arena.current = ir_arena_start;
             
-            struct expr default_expression = zero_struct;
             struct expr choosen_expression = zero_struct;
+            int choosen_in_lhs_expression = 0;
+            smm default_token_at = -1;
             
             while(in_current_token_array(context) && !peek_token_eat(context, TOKEN_closed_paren)){
                 
@@ -5082,7 +5083,10 @@ case NUMBER_KIND_##type:{ \
                 if(peek_token_eat(context, TOKEN_default)){
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
-                    default_expression = parse_expression(context, /*skip_comma_expression*/1);
+                    // We only know whether the 'default' is choosen, once we have seen all other associations.
+                    default_token_at = context->token_at;
+                    parse_expression(context, /*skip_comma_expression*/1);
+                    context->ir_arena.current = ir_arena_start;
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
                     if(!type_name.type){
@@ -5095,10 +5099,13 @@ case NUMBER_KIND_##type:{ \
                     
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
-                    if(types_are_equal(type_name.type, choice)){
+                    if(!choosen_expression.ir && types_are_equal(type_name.type, choice)){
                         choosen_expression = expression;
+                        choosen_in_lhs_expression = context->in_lhs_expression;
+                        
+                        // Keep the ir of the choosen expression, when discarding the associations after it.
+                        ir_arena_start = arena_current(&context->ir_arena);
                     }else{
-                        memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
                         context->ir_arena.current = ir_arena_start;
                     }
                 }
@@ -5106,8 +5113,12 @@ case NUMBER_KIND_##type:{ \
             
             if(choosen_expression.ir){
                 operand = choosen_expression;
-            }else if(default_expression.ir){
-                operand = default_expression;
+                context->in_lhs_expression = choosen_in_lhs_expression;
+            }else if(default_token_at != -1){
+                smm past_generic = context->token_at;
+                context->token_at = default_token_at;
+                operand = parse_expression(context, /*skip_comma_expression*/1);
+                context->token_at = past_generic;
             }else{
                 // :Error
                 report_error(context, generic, "_Generic choice did not match any of the associations.");
-- 
2.43.0


From fd287c760c1e058c039132e8375f481c6b882a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 24/63] fix: #if evaluation: unevaluated operands, signedness
 of shifts, ! and ?:, wide characters, incomplete directives in skipped groups

---
 src/preprocess.c | 101 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 8d829a3..8f59f7a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1037,9 +1037,16 @@ func struct parsed_integer parse_character_literal(struct context *context, stru
     }
     
     u64 value = 0;
-    for(smm i = 0; i < escaped.string.size; i++){
-        value <<= 8;
-        value += escaped.string.data[i];
+    
+    if(escaped.string_kind == STRING_KIND_utf16){
+        if(escaped.string.size >= 2) value = *(u16 *)escaped.string.data;
+    }else if(escaped.string_kind == STRING_KIND_utf32){
+        if(escaped.string.size >= 4) value = *(u32 *)escaped.string.data;
+    }else{
+        for(smm i = 0; i < escaped.string.size; i++){
+            value <<= 8;
+            value += escaped.string.data[i];
+        }
     }
     
     ret.value = value;
@@ -3008,7 +3015,7 @@ func s64 static_if_evaluate(struct context *context){
                 case NUMBER_KIND_int:
                 case NUMBER_KIND_long:
                 case NUMBER_KIND_long_long:{
-                    if(value < max_s64) break;
+                    if(value <= max_s64) break;
                     report_warning(context, WARNING_integer_literal_too_large_to_be_signed, test, "Integer literal exceeds the maximum value representable as a signed integer and is interpreted as unsigned.");
                     is_unsigned = 1;
                 }break;
@@ -3198,16 +3205,16 @@ func s64 static_if_evaluate(struct context *context){
         static_if_stack_pop(context);
         
         switch(current->operation){
-            case STATIC_IF_EVALUATE_logical_not: value = !value; break;
+            case STATIC_IF_EVALUATE_logical_not: is_unsigned = 0; value = !value; break;
             case STATIC_IF_EVALUATE_bitwise_not: value = ~value; break;
             case STATIC_IF_EVALUATE_unary_minus: value = -(s64)value; break; // @cleanup: warning?
             
             case STATIC_IF_EVALUATE_left_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // @note: The type of a shift is the type of its left operand.
                 value = is_unsigned ? ((u64)current->value << (u64)value) : ((s64)current->value << (s64)value);
             }break;
             case STATIC_IF_EVALUATE_right_shift:{
-                is_unsigned |= current->is_unsigned;
+                is_unsigned = current->is_unsigned; // @note: The type of a shift is the type of its left operand.
                 value = is_unsigned ? ((u64)current->value >> (u64)value) : ((s64)current->value >> (s64)value);
             }break;
             
@@ -3223,18 +3230,36 @@ func s64 static_if_evaluate(struct context *context){
             case STATIC_IF_EVALUATE_div:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    // @note: Operands that are not evaluated (e.g. the rhs of '0 &&') are allowed to divide by zero.
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break;
+                    
                     report_error(context, get_current_token_for_error_report(context), "Divide by zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                
+                // @note: 'min_s64 / -1' overflows.
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0 - (u64)current->value;
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value / (u64)value) : ((s64)current->value / (s64)value);
             }break;
             
             case STATIC_IF_EVALUATE_mod:{
                 is_unsigned |= current->is_unsigned;
                 if(value == 0){
+                    // @note: Operands that are not evaluated (e.g. the rhs of '0 &&') are allowed to divide by zero.
+                    if(context->static_if_evaluate_should_skip_undefined_identifier) break;
+                    
                     report_error(context, get_current_token_for_error_report(context), "Mod with zero."); // @cleanup: More context if identifier was undefined.
                     return 0;
                 }
+                
+                // @note: 'min_s64 % -1' overflows.
+                if(!is_unsigned && (s64)value == -1){
+                    value = 0;
+                    break;
+                }
                 value = is_unsigned ? ((u64)current->value % (u64)value) : ((s64)current->value % (s64)value);
             }break;
             
@@ -3297,8 +3322,15 @@ func s64 static_if_evaluate(struct context *context){
                     return 0;
                 }
                 
-                static_if_stack_push(context, current->token, STATIC_IF_EVALUATE_ternary_condition, current->value, current->is_unsigned);
+                // @note: Restore the old value of 'should_skip_undefined_identifier', before pushing the condition again.
+                s64 condition = current->value;
+                context->static_if_evaluate_should_skip_undefined_identifier = current->should_skip_undefined_identifier;
+                
+                static_if_stack_push(context, current->token, STATIC_IF_EVALUATE_ternary_condition, condition, current->is_unsigned);
                 static_if_stack_push(context, binary_expression, STATIC_IF_EVALUATE_ternary_if_true, value, is_unsigned);
+                
+                // The false-side does not get evaluated if the condition was true.
+                context->static_if_evaluate_should_skip_undefined_identifier |= (condition != 0);
                 goto retry;
             }break;
             
@@ -3309,6 +3341,9 @@ func s64 static_if_evaluate(struct context *context){
                 assert(if_true->operation == STATIC_IF_EVALUATE_ternary_if_true && condition->operation == STATIC_IF_EVALUATE_ternary_condition);
                 
                 value = condition->value ? if_true->value : value;
+                is_unsigned |= if_true->is_unsigned;
+                
+                context->static_if_evaluate_should_skip_undefined_identifier = condition->should_skip_undefined_identifier;
             }break;
             
             invalid_default_case();
@@ -3356,7 +3391,14 @@ func s64 static_if_evaluate(struct context *context){
             goto retry;
         }
         
-        case TOKEN_question_mark: static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned); goto retry;
+        case TOKEN_question_mark:{
+            static_if_stack_push(context, test, STATIC_IF_EVALUATE_ternary_condition, value, is_unsigned);
+            
+            // The true-side does not get evaluated if the condition was false.
+            context->static_if_evaluate_should_skip_undefined_identifier |= (value == 0);
+            
+            goto retry;
+        }
         
         default: break;
     }
@@ -3703,15 +3745,15 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 }break;
                 
                 case DIRECTIVE_if:{
-                    eat_whitespace_and_comments(context);
-                    
-                    if(peek_token_raw(context, TOKEN_newline)){
-                        report_error(context, directive, "Expected an argument after '#if'.");
-                        goto end;
-                    }
-                    
                     // disable the static_if_evaluate if it doesn't matter anyway
                     if(!static_if_stack.first || static_if_stack.first->is_true){
+                        eat_whitespace_and_comments(context);
+                        
+                        if(peek_token_raw(context, TOKEN_newline)){
+                            report_error(context, directive, "Expected an argument after '#if'.");
+                            goto end;
+                        }
+                        
                         //
                         // 'node->is_true' will be set accordingly in the 'postponed_directive' code.
                         //
@@ -3747,12 +3789,6 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     
                     struct static_if_stack_node *node = static_if_stack.first;
                     
-                    eat_whitespace_and_comments(context);
-                    if(peek_token_raw(context, TOKEN_newline)){
-                        report_error(context, directive, "Expected an argument after '#elif'.");
-                        goto end;
-                    }
-                    
                     if(!node){
                         report_error(context, directive, "'#elif' without matching '#if'.");
                         goto end;
@@ -3813,6 +3849,12 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             // Skip the condition as we are ignoring it.
                             while(!peek_token_raw(context, TOKEN_newline)) next_token_raw(context);
                         }else{
+                            eat_whitespace_and_comments(context);
+                            if(peek_token_raw(context, TOKEN_newline)){
+                                report_error(context, directive, "Expected an argument after '#elif'.");
+                                goto end;
+                            }
+                            
                             //
                             // We should be enabled depending on our condition, 
                             // 'node->is_true' will be set accordingly in the 'postponed_directive' code.
@@ -3842,15 +3884,18 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 }break; 
                 case DIRECTIVE_ifdef:
                 case DIRECTIVE_ifndef:{
-                    eat_whitespace_and_comments(context);
-                    if(!peek_token_raw(context, TOKEN_identifier)){
-                        report_error(context, directive, "Expected an identifier.");
-                        goto end;
-                    }
-                    struct token *defined_identifier = next_token_raw(context);
                     
                     b32 evaluates_to_true = false;
+                    
+                    // @note: Inside of a disabled block, the rest of the directive is skipped below.
                     if(!static_if_stack.first || static_if_stack.first->is_true){
+                        eat_whitespace_and_comments(context);
+                        if(!peek_token_raw(context, TOKEN_identifier)){
+                            report_error(context, directive, "Expected an identifier.");
+                            goto end;
+                        }
+                        struct token *defined_identifier = next_token_raw(context);
+                        
                         b32 is_defined = lookup_define(context, defined_identifier->atom) != null;
                         evaluates_to_true = (directive_kind == DIRECTIVE_ifdef) ? is_defined : !is_defined;
                     }
-- 
2.43.0


From d2f406567699c37fcdde2f06c7aba91f50cdfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 25/63] fix: expand empty '##' operands to placemarkers and
 keep white space for '#'

---
 src/preprocess.c | 140 +++++++++++++++++++++++++++++++----------------
 1 file changed, 92 insertions(+), 48 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 8f59f7a..a62fcc1 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1834,13 +1834,17 @@ func void eat_whitespace_and_comments(struct context *context){
     }while(did_something);
 }
 
-func void eat_whitespace_comments_and_newlines(struct context *context){
-    smm did_something;
-    do{
-        did_something  = (smm)peek_token_eat_raw(context, TOKEN_whitespace);
-        did_something |= (smm)peek_token_eat_raw(context, TOKEN_comment);
-        did_something |= (smm)peek_token_eat_raw(context, TOKEN_newline);
-    }while(did_something);
+// Returns a newline token, if there was one, otherwise a whitespace or comment token or null, if nothing was eaten.
+func struct token *eat_whitespace_comments_and_newlines(struct context *context){
+    struct token *ret = null;
+    while(true){
+        struct token *token = get_current_token_raw(context);
+        if(token->type != TOKEN_whitespace && token->type != TOKEN_comment && token->type != TOKEN_newline) break;
+        
+        if(!ret || ret->type != TOKEN_newline) ret = token;
+        next_token_raw(context);
+    }
+    return ret;
 }
 
 
@@ -1989,7 +1993,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
         assert(open_paren->type == TOKEN_open_paren); // This should have been ensured by the outside.
         
         if(sll_is_empty(define->arguments)){
-            eat_whitespace_and_comments(context);
+            eat_whitespace_comments_and_newlines(context);
             
             if(!peek_token_eat_raw(context, TOKEN_closed_paren)){
                 begin_error_report(context);
@@ -2171,9 +2175,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm size = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    size += 2;
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     size += 2;
                                 }else if(string.data[i] == '\\'){
                                     size += 2;
@@ -2186,10 +2188,7 @@ func struct token *expand_define(struct context *context, struct token *token_to
                             
                             smm at = 0;
                             for(smm i = 0; i < string.size; i++){
-                                if(string.data[i] == '\''){
-                                    data[at++] = '\\';
-                                    data[at++] = '\'';
-                                }else if(string.data[i] == '"'){
+                                if(string.data[i] == '"'){
                                     data[at++] = '\\';
                                     data[at++] = '"';
                                 }else if(string.data[i] == '\\'){
@@ -2258,6 +2257,8 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         struct token *token = next_token_raw(context);
                         if(token->type == TOKEN_invalid) break;
                         
+                        struct token *whitespace_after_skipped_macro = null;
+                        
                         if(token->type == TOKEN_identifier){
                             struct define_node *define_in_argument = lookup_define(context, token->atom);
                             if(define_in_argument){
@@ -2265,10 +2266,9 @@ func struct token *expand_define(struct context *context, struct token *token_to
                                 int skip = 0;
                                 
                                 if(define_in_argument->is_function_like){
-                                    eat_whitespace_comments_and_newlines(context); 
-                                    if(!peek_token_raw(context, TOKEN_open_paren)){
-                                        skip = 1;
-                                    }
+                                    struct token *whitespace = eat_whitespace_comments_and_newlines(context);
+                                    if(!peek_token_raw(context, TOKEN_open_paren)) skip = 1;
+                                    if(skip || define_in_argument->is_disabled) whitespace_after_skipped_macro = whitespace;
                                 }
                                 
                                 if(!skip){
@@ -2296,6 +2296,11 @@ func struct token *expand_define(struct context *context, struct token *token_to
                                         struct token *new_token = &array[amount++];
                                         *new_token = *token;
                                         new_token->type = TOKEN_identifier_dont_expand_because_it_comes_from_a_fully_expanded_macro;
+                                        
+                                        if(whitespace_after_skipped_macro){
+                                            dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                                            array[amount++] = *whitespace_after_skipped_macro;
+                                        }
                                         continue;
                                     }else{
                                         token = expand_define(context, token, define_in_argument, macro_expansion_site);
@@ -2309,6 +2314,11 @@ func struct token *expand_define(struct context *context, struct token *token_to
                         
                         dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
                         array[amount++] = *token;
+                        
+                        if(whitespace_after_skipped_macro){
+                            dynarray_maybe_grow(struct token, &context->scratch, array, amount, capacity);
+                            array[amount++] = *whitespace_after_skipped_macro;
+                        }
                     }
                     
                     expanded_argument_tokens[arg->argument_index].data   = array;
@@ -2406,26 +2416,25 @@ func struct token *expand_define(struct context *context, struct token *token_to
                     // we cannot predict the prefix token while parsing defines, as there can be ## chains and
                     // thus we have to lookup the _prefix_token_ here, from the previous tokens.
                     
-                    while(true){
-                        assert(context->token_stack.size > (define_token_stack_at + 1) - context->token_stack.nodes);
-                        struct token_stack_node *last = define_token_stack_at + 1;
-                        
-                        for(smm i = last->tokens.amount - 1; i >= 0; i--){
-                            struct token *token = last->tokens.data + i;
-                            if(token->type == TOKEN_whitespace || token->type == TOKEN_comment || token->type == TOKEN_newline){
-                                continue;
-                            }
-                            
-                            // delete all the tokens until (and including) a relevant one
-                            prefix_token = token;
-                            last->tokens.amount = i;
-                            break;
+                    //
+                    // @note: If there are no tokens in the previous node, it is the (empty) result of a '##' :placemarker.
+                    
+                    assert(context->token_stack.size > (define_token_stack_at + 1) - context->token_stack.nodes);
+                    struct token_stack_node *last = define_token_stack_at + 1;
+                    
+                    for(smm i = last->tokens.amount - 1; i >= 0; i--){
+                        struct token *token = last->tokens.data + i;
+                        if(token->type == TOKEN_whitespace || token->type == TOKEN_comment || token->type == TOKEN_newline){
+                            continue;
                         }
                         
-                        if(prefix_token) break;
-                        
-                        define_token_stack_at += 1;
+                        // delete all the tokens until (and including) a relevant one
+                        prefix_token = token;
+                        last->tokens.amount = i;
+                        break;
                     }
+                    
+                    if(!prefix_token) prefix_is_empty = true;
                 }
                 
                 struct token_array postfix_array = zero_struct;
@@ -2449,7 +2458,9 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 
                 // @note: GCC extension for ', ##  __VA_ARGS__'. And I allow this for any macro.
-                if(postfix_is_empty && !prefix_is_empty && prefix_token->type == TOKEN_comma) break;
+                if(postfix_is_empty && !prefix_is_empty && prefix_token->type == TOKEN_comma){
+                    prefix_is_empty = true;
+                }
                 
                 struct string prev_string = prefix_is_empty  ? string("") : token_get_string(prefix_token);
                 struct string next_string = postfix_is_empty ? string("") : token_get_string(postfix_token);
@@ -2460,15 +2471,15 @@ func struct token *expand_define(struct context *context, struct token *token_to
                 
                 struct token_array tokens = tokenize_raw(context, concat, macro_expansion_site->file_index, /* is_stupid_hash_hash_hack */ true, /* lines */null);
                 
-                if(tokens.amount){
-                    // @note: amount can be 0 for 
-                    //            #define C(a,b) a##b
-                    //            C(,)
-                    define_token_stack_at->tokens = tokens;
-                    define_token_stack_at->at = 0;
-                    define_token_stack_at->define_to_reenable_on_exit = 0;
-                    define_token_stack_at -= 1;
-                }
+                // :placemarker
+                // @note: amount can be 0 for 
+                //            #define C(a,b) a##b
+                //            C(,)
+                //        in this case, the empty node is the prefix of a '##' which follows.
+                define_token_stack_at->tokens = tokens;
+                define_token_stack_at->at = 0;
+                define_token_stack_at->define_to_reenable_on_exit = 0;
+                define_token_stack_at -= 1;
                 
                 if(postfix_array.data){
                     define_token_stack_at->tokens = postfix_array;
@@ -3538,6 +3549,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 break;
             }
             
+            b32 ate_newline = false; // Whether we ate a newline, while searching for the '(' of a function-like macro.
+            
             if(token->type == TOKEN_identifier){
                 struct define_node *define = lookup_define(context, token->atom);
                 if(define && !define->is_disabled){
@@ -3546,7 +3559,13 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     
                     int skip = 0;
                     if(define->is_function_like){
-                        eat_whitespace_comments_and_newlines(context); 
+                        if(have_postponed_directive){
+                            eat_whitespace_and_comments(context); // @note: The newline ends the directive.
+                        }else{
+                            struct token *whitespace = eat_whitespace_comments_and_newlines(context);
+                            ate_newline = (whitespace && whitespace->type == TOKEN_newline);
+                        }
+                        
                         if(!peek_token_raw(context, TOKEN_open_paren)){
                             skip = 1;
                         }
@@ -3634,7 +3653,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                 continue; // Don't emit the newline token.
             }
             
-            got_newline = false;
+            got_newline = ate_newline;
             
             if(emitted_tokens == committed_tokens){
                 if(committed_tokens == reserved_tokens){
@@ -4049,15 +4068,38 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                     // We don't have to worry about the file ending and not having a newline at the end,
                     // as we put a newline at the end of the file.
                     // 
+                    struct token *whitespace = null; // The whitespace before the current token, this is needed to stringify expanded macros.
+                    
                     while(!peek_token_raw(context, TOKEN_newline)){
                         b32 handled = false;
                         
+                        if(whitespace && !peek_token_raw(context, TOKEN_hashhash)){
+                            if(!replacement_list.last || replacement_list.last->kind != DEFINE_REPLACEMENT_tokens){
+                                struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
+                                replacement->kind = DEFINE_REPLACEMENT_tokens;
+                                sll_push_back(replacement_list, replacement);
+                                
+                                token_stack_node_count += 1;
+                                
+                                define_tokens = push_data(scratch, struct token, 0);
+                                define_amount = 0;
+                                
+                                replacement->tokens.data = define_tokens;
+                            }
+                            
+                            define_amount++;
+                            *push_uninitialized_struct(&context->scratch, struct token) = *whitespace;
+                            replacement_list.last->tokens.amount = define_amount;
+                        }
+                        whitespace = null;
+                        
                         if(peek_token_raw(context, TOKEN_identifier)){
                             struct token *ident = get_current_token_raw(context);
                             struct define_argument *arg = lookup_define_argument(arguments, ident);
                             if(arg){
                                 next_token_raw(context);
                                 handled = true;
+                                if(peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment)) whitespace = get_current_token_raw(context);
                                 eat_whitespace_and_comments(context);
                                 
                                 struct define_replacement_node *replacement = push_struct(&context->scratch, struct define_replacement_node);
@@ -4065,6 +4107,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 if(peek_token_raw(context, TOKEN_hashhash)){
                                     struct token *hashhash = next_token_raw(context);
                                     
+                                    whitespace = null;
                                     eat_whitespace_and_comments(context);
                                     
                                     replacement->kind = DEFINE_REPLACEMENT_hashhash;
@@ -4199,6 +4242,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             define_tokens = null;
                         }
                         
+                        if(peek_token_raw(context, TOKEN_whitespace) || peek_token_raw(context, TOKEN_comment)) whitespace = get_current_token_raw(context);
                         eat_whitespace_and_comments(context);
                     }
                     
-- 
2.43.0


From ff5a4681d42664c2a43031500fa231e6c6708c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 26/63] fix: a line splice continues a line comment

---
 src/preprocess.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index a62fcc1..c323e56 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -1545,9 +1545,22 @@ at     += size;
                 }else if(at[1] == '/'){
                     at += 2;
                     
-                    while(*at && *at != '\n') at++;
+                    u8 *line_start = start - column; // Such that 'at - line_start' is the column, once we are behind the comment.
+                    while(*at && *at != '\n'){
+                        if(*at == '\\'){
+                            // A line splice continues the comment on the next line.
+                            if(at[1] == '\r' && at[2] == '\n') at++;
+                            if(at[1] == '\n'){
+                                at++;
+                                line++;
+                                line_start = at;
+                            }
+                        }
+                        at++;
+                    }
+                    column = at - line_start;
                     
-                    next_token__internal(TOKEN_comment, at - start);
+                    next_token__internal(TOKEN_comment, 0); // note we already adjusted the column.
                 }else if(at[1] == '='){
                     next_token__internal_char(TOKEN_div_equals, 2);
                 }else{
-- 
2.43.0


From 59f5350654b3cc3e3dbc913d6e0072de38341625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 27/63] fix: member access on the result of a small struct
 assignment

---
 src/emit_x64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index c7e7ce7..f823a5c 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -3348,6 +3348,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 ir_arena_at += sizeof(*dot);
                 
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
+                if(loc->state == EMIT_LOCATION_loaded){
+                    // The result of assigning a small struct is loaded, e.g.: '(s = t).a'. See ':returning_structs'.
+                    struct emit_location *temporary = emit_allocate_temporary_stack_location(context, loc->size, loc->size);
+                    emit_store(context, temporary, loc);
+                    emit_location_stack[emit_location_stack_at-1] = loc = temporary;
+                }
                 assert(loc->state == EMIT_LOCATION_register_relative);
                 
                 loc->size    = dot->member->type->size;
-- 
2.43.0


From fede792381fa4724d982337bc85dbd9812f4db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 28/63] fix: adding two pointers is an error

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 97e882b..c13c973 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6251,6 +6251,9 @@ case NUMBER_KIND_##type:{ \
                         handle_pointer_arithmetic(context, IR_add_u64, stack_entry->token, op_rhs, op_lhs, &operand, /*need_swap*/true);
                     }else if(op_lhs->ir->kind == IR_float_literal && op_rhs->ir->kind == IR_float_literal){
                         perform_float_operation(context, ast_kind, op_lhs, op_rhs);
+                    }else if(op_lhs->resolved_type->kind == AST_pointer_type && op_rhs->resolved_type->kind == AST_pointer_type){
+                        report_error(context, stack_entry->token, "Cannot add two pointers.");
+                        return operand;
                     }else{
                         
                         if(!check_binary_for_basic_types(context, op_lhs->resolved_type, op_rhs->resolved_type, stack_entry->token, CHECK_basic)) return operand;
-- 
2.43.0


From 8ab59b7eedf9f06fd7fd766b0cdab5edea3deb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:03 +0000
Subject: [PATCH 29/63] fix: printlike call without a format string crashed
 when writing an object file

The inferred format string had no type, which the debug check of the object
writer dereferences.
---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index c13c973..d280760 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3508,6 +3508,13 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
         string_list_postfix(&pretty_print_list, &context->scratch, string("\n"));
         
         format_string_literal->value = string_list_flatten(pretty_print_list, context->arena);
+        
+        struct ast_array_type *type = parser_type_push(context, array_type);
+        type->amount_of_elements = format_string_literal->value.size + 1; // plus one for the zero_terminator
+        type->element_type = &globals.typedef_s8;
+        type->base.size = type->amount_of_elements * type->element_type->size;
+        type->base.alignment = type->element_type->alignment;
+        format_string_literal->type = &type->base;
         return;
     }
     
-- 
2.43.0


From a47ef2c5fd47fed935be84af7a03e3251318dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 30/63] fix: object file section symbols did not state the
 amount of relocations

---
 src/obj_writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 07914fb..875fb83 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -3154,6 +3154,15 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    // 
+    // We now know the amount of relocations for each section.
+    // The symbol table starts with one record and one auxiliary entry for each section.
+    // 
+    for(u64 section_index = 0; section_index < section_header_count; section_index++){
+        u8 *auxiliary_entry = (u8 *)symbol_table_base + 18 * (2 * section_index + 1);
+        memcpy(auxiliary_entry + 4, &section_headers[section_index].number_of_relocations, sizeof(u16));
+    }
+    
     // 
     // We are done writing the file. 
     // Patch in some final values, then write the file to disk.
-- 
2.43.0


From 24010443cd7c79c8ba91325c8d1815eb39475b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 31/63] fix: alignment of initialized objects in object files
 was relative to the memory of the compiler

---
 src/obj_writer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 875fb83..afd10a2 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1804,7 +1804,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+                // Align the offset from the base of the section, the base itself is aligned by the linker.
+                smm offset_in_section = arena_current(arena) - data_base;
+                push_data(arena, u8, align_up(offset_in_section, alignment) - offset_in_section);
                 
                 section_alignment = max_of(section_alignment, alignment);
                 
@@ -1845,7 +1847,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
+            // Align the offset from the base of the section, the base itself is aligned by the linker.
+            smm offset_in_section = arena_current(arena) - tls_base;
+            push_data(arena, u8, align_up(offset_in_section, alignment) - offset_in_section);
             
             section_alignment = max_of(section_alignment, alignment);
             
-- 
2.43.0


From 892bc3dd6b4ce53d8cf2310e2c6c11d14e77437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 32/63] fix: zero-initialized objects in object files lost
 their alignment

---
 src/obj_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index afd10a2..14cc0dd 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1249,6 +1249,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
+                // 
+                // The linker chooses the alignment for communal variables based on the size of the declaration, up to 32 bytes.
+                // If this would not be enough, we have to define the variable ourselves.
+                // 
+                smm alignment = get_declaration_alignment(decl);
+                if(alignment > 32 || alignment > get_declaration_size(decl)){
+                    ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
+                    continue;
+                }
+                
                 ast_list_append(&automatic_variables, scratch, &decl->kind);
                 
             }else if(*ast == IR_function){
-- 
2.43.0


From 00420b4a77e83376a28dde18d653dedbecb78339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 33/63] fix: addresses in selectany objects were written into
 another object or crashed the object writer

---
 src/obj_writer.c | 67 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 14cc0dd..371a7c0 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2843,6 +2843,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     struct patch_node *text_patches = null;
     struct patch_node *data_patches = null;
     struct patch_node *tls_patches  = null;
+    struct patch_node *selectany_patches = null;
     
     smm amount_of_text_patches = 0;
     smm amount_of_data_patches = 0;
@@ -2851,10 +2852,6 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
         struct context *thread_context = globals.thread_infos[thread_index].context;
         
-        // 
-        // @cleanup: Patches to __declspec(selectany) variables probably do not work.
-        // 
-        
         for(struct patch_node *patch = thread_context->local_patch_list.first; patch; ){
             struct patch_node *next = patch->next;
             
@@ -2872,7 +2869,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             }else{
                 assert(dest_declaration->kind == IR_declaration);
                 
-                if(dest_declaration->flags & DECLARATION_FLAGS_is_thread_local){
+                // @note: This has to be the same condition we used to append to 'selectany_variables'.
+                u64 selectany_mask = DECLARATION_FLAGS_is_selectany | DECLARATION_FLAGS_is_thread_local | DECLARATION_FLAGS_is_static | DECLARATION_FLAGS_is_dllexport | DECLARATION_FLAGS_is_local_persist;
+                
+                if((dest_declaration->flags & selectany_mask) == DECLARATION_FLAGS_is_selectany){
+                    patch->next = selectany_patches;
+                    selectany_patches = patch;
+                }else if(dest_declaration->flags & DECLARATION_FLAGS_is_thread_local){
                     patch->next = tls_patches;
                     tls_patches = patch;
                     amount_of_tls_patches += 1;
@@ -3082,6 +3085,60 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         assert(index == amount_of_tls_patches);
     }
     
+    if(selectany_patches){
+        // Each selectany variable has its own section, see 'selectany_sections'.
+        // These are the last sections in the section table, in the same order as the variables.
+        struct coff_section_header *section_header = section_headers + section_header_count - selectany_variables.count;
+        
+        for_ast_list(selectany_variables){
+            struct ast_declaration *declaration = (struct ast_declaration *)it->value;
+            
+            u8 *relocations_base = arena_current(arena);
+            smm amount_of_relocations = 0;
+            for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+                if(patch->dest_declaration == declaration) amount_of_relocations += 1;
+            }
+            
+            if(amount_of_relocations > 0xffff){
+                section_header->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+                
+                struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                relocation->relocation_type = 0; // The relocation is ignored.
+                relocation->destination_offset_in_section = (u32)(amount_of_relocations + 1);
+            }
+            
+            if(amount_of_relocations){
+                section_header->pointer_to_relocations = (u32)(relocations_base - obj_base_address);
+                section_header->number_of_relocations  = (u16)min_of(amount_of_relocations, 0xffff);
+            }
+            
+            for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+                if(patch->dest_declaration != declaration) continue;
+                assert(patch->kind == PATCH_absolute);
+                
+                struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+                relocation->relocation_type = /*ADDR64*/1;
+                relocation->destination_offset_in_section = (u32)patch->location_offset_in_dest_declaration;
+                
+                *(u64 *)(declaration->memory_location + patch->location_offset_in_dest_declaration) = patch->location_offset_in_source_declaration;
+                
+                if(patch->source->kind == IR_function || patch->source->kind == IR_declaration){
+                    struct ast_declaration *source = (struct ast_declaration *)patch->source;
+                    
+                    u32 is_reference_to_stub = (source->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+                    relocation->source_symbol_table_index = (u32)source->symbol_table_index + is_reference_to_stub;
+                }else{
+                    assert(patch->source->kind == IR_string_literal);
+                    struct ir_string_literal *source = (struct ir_string_literal *)patch->source;
+                    
+                    relocation->source_symbol_table_index = (u32)(string_symbol_base + source->symbol_table_index);
+                }
+            }
+            
+            section_header += 1;
+        }
+    }
+    
     
     if(defined_functions.count){
         // .pdata reloations:
-- 
2.43.0


From 1296805b7c9dab7f75db914f0a935136f679bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 34/63] fix: non-constant initializers of unreferenced static
 objects were accepted

---
 src/main.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/main.c b/src/main.c
index 8f3eeb4..f9b034e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2726,6 +2726,23 @@ func u8 *evaluate_static_initializer(struct context *context, struct ast_declara
     return data;
 }
 
+// Report an error if the initializer of a declaration, which is never referenced and hence not emitted, is not constant.
+func void check_unreachable_static_initializer(struct context *context, struct ast_declaration *decl){
+    if(!decl->assign_expr) return;
+    if(decl->flags & (DECLARATION_FLAGS_is_reachable_from_entry | DECLARATION_FLAGS_is_enum_member)) return;
+    
+    struct patch_node *last_patch = context->local_patch_list.last;
+    evaluate_static_initializer(context, decl);
+    
+    // The declaration is not emitted, so there is nothing to patch.
+    if(last_patch){
+        last_patch->next = null;
+    }else{
+        context->local_patch_list.first = null;
+    }
+    context->local_patch_list.last = last_patch;
+}
+
 
 //_____________________________________________________________________________________________________________________
 // Writer helpers.
@@ -5697,6 +5714,29 @@ globals.typedef_##postfix = (struct ast_type){
         }
     }
     
+    // 
+    // Check the initializers of declarations which are not referenced.
+    // 
+    for(struct compilation_unit *compilation_unit = &globals.hacky_global_compilation_unit; compilation_unit; compilation_unit = compilation_unit->next){
+        struct ast_table *table = &compilation_unit->static_declaration_table;
+        
+        for(u64 table_index = 0; table_index < table->capacity; table_index++){
+            enum ast_kind *ast = table->nodes[table_index].ast;
+            if(!ast) continue;
+            
+            if(*ast == IR_declaration){
+                check_unreachable_static_initializer(context, (struct ast_declaration *)ast);
+            }else if(*ast == IR_function){
+                struct ast_function *function = (struct ast_function *)ast;
+                if(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry) continue;
+                
+                for_ast_list(function->static_variables){
+                    check_unreachable_static_initializer(context, (struct ast_declaration *)it->value);
+                }
+            }
+        }
+    }
+    
     end_temporary_memory(temp);
     end_error_report(context);
     
-- 
2.43.0


From 38e6b800e94026902213f4ed0e5a0659bb2c56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 35/63] fix: alignment of redeclared and of exported
 zero-initialized objects

---
 src/main.c       |  5 +++++
 src/obj_writer.c | 16 ++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index f9b034e..04275a4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1944,6 +1944,11 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                         redecl->flags |= DECLARATION_FLAGS_is_static;
                     }
                     
+                    // Only one of the declarations might have an alignment specifier.
+                    if(decl->overwrite_alignment > redecl->overwrite_alignment){
+                        redecl->overwrite_alignment = decl->overwrite_alignment;
+                    }
+                    
                     assert(!decl->assign_expr);
                     return redecl;
                 }else{
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 371a7c0..93859ee 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1217,11 +1217,20 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
+                // 
+                // The linker chooses the alignment for communal variables based on the size of the declaration, up to 32 bytes.
+                // If this would not be enough, we have to define the variable ourselves.
+                // 
+                smm alignment = get_declaration_alignment(decl);
+                int communal_alignment_is_too_small = alignment > 32 || alignment > get_declaration_size(decl);
+                
                 if(decl->flags & DECLARATION_FLAGS_is_dllexport){
                     string_list_postfix(&directives, scratch, push_format_string(scratch, "/EXPORT:%.*s,DATA ", decl->identifier->size, decl->identifier->data));
                     
                     if(decl->assign_expr){
                         ast_list_append(&defined_variables, scratch, &decl->kind);
+                    }else if(communal_alignment_is_too_small){
+                        ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
                     }else{
                         ast_list_append(&automatic_variables, scratch, &decl->kind);
                     }
@@ -1249,12 +1258,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
-                // 
-                // The linker chooses the alignment for communal variables based on the size of the declaration, up to 32 bytes.
-                // If this would not be enough, we have to define the variable ourselves.
-                // 
-                smm alignment = get_declaration_alignment(decl);
-                if(alignment > 32 || alignment > get_declaration_size(decl)){
+                if(communal_alignment_is_too_small){
                     ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
                     continue;
                 }
-- 
2.43.0


From b57bd5d89abd82c565f39f90c62b62706d9c7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 36/63] fix: exported declarations of unresolved type have no
 alignment

---
 src/obj_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 93859ee..8d2b15e 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1222,7 +1222,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 // If this would not be enough, we have to define the variable ourselves.
                 // 
                 smm alignment = get_declaration_alignment(decl);
-                int communal_alignment_is_too_small = alignment > 32 || alignment > get_declaration_size(decl);
+                smm size = get_declaration_size(decl);
+                int communal_alignment_is_too_small = size > 0 && (alignment > 32 || alignment > size);
                 
                 if(decl->flags & DECLARATION_FLAGS_is_dllexport){
                     string_list_postfix(&directives, scratch, push_format_string(scratch, "/EXPORT:%.*s,DATA ", decl->identifier->size, decl->identifier->data));
-- 
2.43.0


From c9772a61eccc0027911a7d4392c3cb4929ee693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 37/63] fix: functions declared '__declspec(dllexport)' before
 their definition were not exported from images

---
 src/main.c  | 18 ++++++++++++++++++
 src/parse.c |  2 --
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 04275a4..f449413 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5540,6 +5540,24 @@ globals.typedef_##postfix = (struct ast_type){
         globals.globally_referenced_declarations = entry_point_node;
     }
     
+    if(globals.output_file_type != OUTPUT_FILE_obj){
+        // 
+        // Every defined function which was declared '__declspec(dllexport)' is a potential entry point.
+        // We have to wait until now, as any of its declarations might have been the one which was declared '__declspec(dllexport)'.
+        // 
+        
+        for(u32 table_index = 0; table_index < globals.global_declarations.capacity; table_index++){
+            enum ast_kind *ast = globals.global_declarations.nodes[table_index].ast;
+            if(!ast || *ast != IR_function) continue;
+            
+            struct ast_function *function = (struct ast_function *)ast;
+            if(!(function->as_decl.flags & DECLARATION_FLAGS_is_dllexport) || !function->scope) continue;
+            if(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm) continue;
+            
+            add_global_reference_for_declaration(arena, &function->as_decl);
+        }
+    }
+    
     if(globals.output_file_type == OUTPUT_FILE_obj){
         // 
         // For an .obj any external function is a potential entry point.
diff --git a/src/parse.c b/src/parse.c
index d280760..062d1e8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8988,8 +8988,6 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                     //                                                                              - 19.10.2024
                     function->scope = scope;
                     decl = &function->as_decl;
-                }else if(specifiers.specifier_flags & SPECIFIER_dllexport){
-                    add_global_reference_for_declaration(context->arena, &function->as_decl);
                 }
             }
         }else{
-- 
2.43.0


From 26267e268e6c308839589f13158df920e9ca306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 38/63] fix: thread-local variables of functions were shared
 between threads in images

---
 src/coff_writer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 970f4c7..c95bdc7 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -685,7 +685,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, scratch, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
@@ -715,7 +717,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, scratch, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
-- 
2.43.0


From 4b1a38bb92209467e0ff707a041a95ce94586784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 39/63] fix: constant initializers lost the offset into string
 literals in images

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index c95bdc7..348fb72 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1727,6 +1727,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From c0c0db6368088d039a3fd669ff43c647100ced37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 40/63] fix: wide string literals in images could share a
 misaligned narrow string

---
 src/coff_writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 348fb72..fca42c0 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1407,7 +1407,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                         //  1) The size is the size plus the null terminator.
                         //  2) The string is null terminated for element_size bytes.
                         //  3) The strings minus the null terminator match.
+                        //  4) The string is aligned to the element size.
                         // 
+                        if((u64)string_table[index].data & (element_size - 1)) continue;
                         if(string_table[index].size != string_literal.size + element_size) continue;
                         if(memcmp(string_table[index].data + string_literal.size, (char[]){0, 0, 0, 0}, element_size) != 0) continue;
                         if(memcmp(string_table[index].data, string_literal.data, string_literal.size) != 0) continue;
-- 
2.43.0


From b1a3e2dc30d20900daa11e1f0202f823185fa505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 41/63] fix: alignment of initialized objects in images was
 relative to the file

---
 src/coff_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index fca42c0..1248a58 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1584,7 +1584,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment);
+            // The section is only 'FILE_ALIGNMENT' aligned in memory, align relative to its start.
+            smm section_offset = arena_current(arena) - data_section_start;
+            push_data(arena, u8, align_up(section_offset, alignment) - section_offset);
             
             assert(decl->memory_location);
             
-- 
2.43.0


From eb94941edfd9a7c991ee99962fdc34ebee63411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 42/63] fix: thread-local variables in images lost their
 alignment

---
 src/coff_writer.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 1248a58..a5f3c4c 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1509,12 +1509,16 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
         
         if(tls_declarations.count){
+            u8 *tls_data_start;
             {
                 // Calculate the start of the tls section.
-                struct ast_declaration *first_tls_decl = (struct ast_declaration *)tls_declarations.first->value;
-                smm alignment = get_declaration_alignment(first_tls_decl);
-                push_align(arena, (u32)alignment); // @cleanup: why does push align take a u32?
-                tls_data_rva = make_relative_virtual_address(rdata_section_start, arena_current(arena));
+                smm alignment = 1;
+                for_ast_list(tls_declarations){
+                    alignment = max_of(alignment, get_declaration_alignment((struct ast_declaration *)it->value));
+                }
+                push_zero_align(arena, alignment);
+                tls_data_start = arena_current(arena);
+                tls_data_rva = make_relative_virtual_address(rdata_section_start, tls_data_start);
             }
             
             for_ast_list(tls_declarations){
@@ -1523,7 +1527,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment);
+                // The loader copies the tls data to a page boundary, align relative to the start of the tls data.
+                smm tls_offset = arena_current(arena) - tls_data_start;
+                push_data(arena, u8, align_up(tls_offset, alignment) - tls_offset);
                 
                 if(decl_size == 0) decl_size = 1; // Ensure even zero-sized declarations have unique addresses.
                 
-- 
2.43.0


From 8ca8ad677ddb1540f25a580a42b94c588590d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 43/63] fix: images with thread-local variables contained base
 relocations with /nodynamicbase

---
 src/coff_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index a5f3c4c..8cdd8c3 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1637,7 +1637,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     
     // @hack: We manually add the relocation block for the tls section here.
     //        Once we re-write this whole backend, we can think about how to do this properly.
-    if(tls_declarations.count){
+    if(tls_declarations.count && !globals.cli_options.no_dynamic_base){
         u32 tls_base_rva = image_optional_header->data_directory[9].rva;
         
         smm page_rva = tls_base_rva & ~((1ull << 12) - 1);
-- 
2.43.0


From 95264df3243cba5c1cd4b1811d09f541ba26bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 44/63] fix: addresses of imported functions in constant
 initializers of images referenced a missing stub

---
 src/coff_writer.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 8cdd8c3..ba19bbd 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -627,6 +627,21 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     struct ast_list uninitialized_declarations = zero_struct;
     struct ast_list tls_declarations = zero_struct;
     
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        // 
+        // Every dllimport-function whose address is used in a constant initializer needs a stub.
+        // When the initializer was evaluated, we might not yet have known that the function is a dllimport.
+        // 
+        
+        for(struct patch_node *patch = thread_context->local_patch_list.first; patch; patch = patch->next){
+            if(patch->kind != PATCH_absolute || patch->source->kind != IR_function) continue;
+            
+            struct ast_declaration *decl = (struct ast_declaration *)patch->source;
+            if(decl->flags & DECLARATION_FLAGS_is_dllimport) decl->flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
+        }
+    }
     
     for(struct compilation_unit *compilation_unit = &globals.hacky_global_compilation_unit; compilation_unit; compilation_unit = compilation_unit->next){
         
@@ -748,6 +763,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             if(function->as_decl.flags & DECLARATION_FLAGS_is_reachable_from_entry){
                 assert(function->dll_import_node);
                 ast_list_append(&dll_imports, scratch, &function->kind);
+                if(function->as_decl.flags & DECLARATION_FLAGS_need_dllimport_stub_function) ast_list_append(&dll_function_stubs, scratch, &function->kind);
             }
         }
     }
-- 
2.43.0


From 226a793c72cc57063374abc5a6fc1c925db5e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 45/63] fix: _InterlockedDecrement, And, Or and Xor intrinsics
 return the documented value

---
 implicit/include/intrinsic.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0c14a1..c74304a 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -251,7 +251,7 @@ __declspec(inline_asm) __int8 _InterlockedDecrement8(__int8 *to_increment){
     lock xadd [to_increment], dl
     
     // increment dl such that we have the 'incremented_value'
-    inc dl
+    dec dl
     
     // save the value
     return dl
@@ -268,7 +268,7 @@ __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
     lock xadd [to_increment], dx
     
     // increment dl such that we have the 'incremented_value'
-    inc dx
+    dec dx
     
     // save the value
     return dx
@@ -286,7 +286,7 @@ __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
     lock xadd [to_increment], edx
     
     // increment dl such that we have the 'incremented_value'
-    inc edx
+    dec edx
     
     // save the value
     return edx
@@ -304,7 +304,7 @@ __declspec(inline_asm) __int64 _InterlockedDecrement64(__int64 *to_increment){
     lock xadd [to_increment], rdx
     
     // increment dl such that we have the 'incremented_value'
-    inc rdx
+    dec rdx
     
     // save the value
     return rdx
@@ -873,7 +873,7 @@ __declspec(inline_asm) char _InterlockedOr8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask){
@@ -887,7 +887,7 @@ __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask)
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
@@ -901,7 +901,7 @@ __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -916,7 +916,7 @@ __declspec(inline_asm) __int64 _InterlockedOr64(__int64 volatile *value, __int64
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
@@ -930,7 +930,7 @@ __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask){
@@ -944,7 +944,7 @@ __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
@@ -958,7 +958,7 @@ __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -973,7 +973,7 @@ __declspec(inline_asm) __int64 _InterlockedXor64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -988,7 +988,7 @@ __declspec(inline_asm) char _InterlockedAnd8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask){
@@ -1002,7 +1002,7 @@ __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
@@ -1016,7 +1016,7 @@ __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -1031,7 +1031,7 @@ __declspec(inline_asm) __int64 _InterlockedAnd64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
-- 
2.43.0


From b989c266e90c9aa9fd8eaed6e3429f29afd13961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 46/63] fix: keep the rep prefix of movsd in inline assembly

---
 src/parse_asm_block.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 5dcb769..939f025 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1727,7 +1727,9 @@ func struct asm_instruction *parse_asm_instruction(struct context *context){
             // In this case, just return the movsd here
             //
             
-            return push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            struct asm_instruction *string_instruction = push_asm_instruction(context, MEMONIC_movsd, 0, token);
+            string_instruction->prefixes = context->current_asm_flags;
+            return string_instruction;
         }
     }
     
-- 
2.43.0


From 70760bb988ce5dadbee036598f7d694052e3de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 47/63] fix: preserve rbx in the cmpxchg16b and cpuid
 intrinsics

---
 implicit/include/intrinsic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index c74304a..99a568b 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -372,12 +372,14 @@ __declspec(inline_asm) unsigned __int8 _InterlockedCompareExchange128(__int64 *d
     
     // on success cmpxchg16b places the value in rcx:rbx into the memory operand
     mov rcx, exchange_high
+    mov r10, rbx // rbx has to be preserved
     mov rbx, exchange_low
     
     // on success the ZF is set and the destination is set to rcx:rdx, else ZF is cleared and
     // rdx:rax receives the value fetched from '*destination'.
     mov r8, destination
     lock cmpxchg16b [r8]
+    mov rbx, r10
     
     // ZF is set iff the operation succeeded
     setz cl
@@ -634,6 +636,7 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
 
 __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov eax, function_id
+    mov r10, rbx // rbx has to be preserved
     cpuid
     
     mov r8, cpuInfo
@@ -641,12 +644,14 @@ __declspec(inline_asm) void __cpuid(int cpuInfo[4], int function_id){
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    mov rbx, r10
 }
 
 
 __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfunction_id){
     mov eax, function_id
     mov ecx, subfunction_id
+    mov r10, rbx // rbx has to be preserved
     cpuid
     
     mov r8, cpuInfo
@@ -654,6 +659,7 @@ __declspec(inline_asm) void __cpuidex(int cpuInfo[4], int function_id, int subfu
     mov [r8 +  4], ebx
     mov [r8 +  8], ecx
     mov [r8 + 12], edx
+    mov rbx, r10
 }
 #endif
 
-- 
2.43.0


From a087bbb76368659a14df81d04bbd0512c21a8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 48/63] fix: keep the sign of a negative offset in an inline
 assembly memory operand

---
 src/parse_asm_block.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 939f025..9620ee6 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1503,7 +1503,6 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     enum asm_register index = -1;
     smm scale  = 1;
     smm offset = 0;
-    b32 offset_is_negative = false;
     
     b32 finished = false;
     
@@ -1515,10 +1514,8 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
             
             finished = (peek_token_eat(context, TOKEN_plus) == null);
             
-            if(finished && peek_token(context, TOKEN_minus)){
-                offset_is_negative = true;
-                goto skip_scale;
-            }
+            // @note: The '-' is part of the offset expression.
+            if(finished && peek_token(context, TOKEN_minus)) goto skip_scale;
         }
     }
     
@@ -1583,7 +1580,7 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
     arg.base   = base;
     arg.index  = index;
     arg.scale  = scale;
-    arg.offset = offset_is_negative ? -offset : offset;
+    arg.offset = offset;
     arg.size   = size;
     if(is_gs_relative) context->current_asm_flags |= ASM_PREFIX_gs;
     
-- 
2.43.0


From e3f11fb1363893e9b8eb8c7863dff7ba1a6a1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 49/63] fix: accept a scaled index in inline assembly memory
 operands

---
 src/parse_asm_block.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 9620ee6..28abad9 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -1529,7 +1529,10 @@ func struct asm_operand asm_maybe_parse_memory_operand(struct context *context){
                 scale = parse_base10_literal(context, scale_or_offset).value;
                 index = reg.reg;
                 
-                finished = peek_token_eat(context, TOKEN_plus) || peek_token_eat(context, TOKEN_minus);
+                finished = (peek_token_eat(context, TOKEN_plus) == null);
+                
+                // @note: The '-' is part of the offset expression.
+                if(finished && peek_token(context, TOKEN_minus)) goto skip_scale;
             }
         }else{
             prev_token(context);
-- 
2.43.0


From e933f184c86d8cb3434ce071b61b4b176d2b63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 50/63] fix: emit the immediate of bt, bts, btr and btc in
 inline assembly

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 836a395..7a41f7a 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -867,6 +867,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         assert(lhs->state == EMIT_LOCATION_register_relative);
                         emit_register_relative_extended(context, no_prefix(), two_byte_opcode(0xBA), REG_OPCODE, lhs);
                     }
+                    emit((u8)rhs->value);
                 }else{
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     if(lhs->state == EMIT_LOCATION_loaded){
-- 
2.43.0


From 84917783a0a65954eefb237a68e775723fd49e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 51/63] fix: encode memory operands based on r12 and r13

---
 src/emit_x64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index f823a5c..7c99021 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -1183,7 +1183,7 @@ func void emit_register_relative__internal(struct context *context, struct prefi
             mod = MODRM_REGM32;
         }else if(loc->offset != 0){
             mod = MODRM_REGM8;
-        }else if(base == REGISTER_BP){
+        }else if((base & 7) == REGISTER_BP){ // rbp and r13
             // We have to handle [rbp] as [rbp + 0] as 'base = RBP' and 'mod = MOD_REGM' means [rip + disp32].
             // @cleanup: is this even supposed to happen?
             mod = MODRM_REGM8;
@@ -1200,7 +1200,7 @@ func void emit_register_relative__internal(struct context *context, struct prefi
         emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
         emit(make_sib(log_size, index & 0x7, base & 0x7));
     }else{
-        if(base == REGISTER_SIB_EXTENSION){
+        if((base & 7) == REGISTER_SIB_EXTENSION){ // rsp and r12
             emit(make_modrm(mod, other_reg & 0x7, REGISTER_SIB_EXTENSION));
             emit(make_sib(mod, REGISTER_SP, base & 0x7));
         }else{
-- 
2.43.0


From 94926a878475e4096f78a941ba270d8875e1bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 52/63] fix: shift and rotate byte registers by cl in inline
 assembly

---
 src/emit_x64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 7c99021..747289b 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2204,7 +2204,7 @@ func struct emit_location *emit_shift_or_rotate__internal(struct context *contex
             ret = lhs_loc;
         }else{
             struct emit_location *lhs = emit_load_gpr(context, lhs_loc);
-            emit_reg_extended_op(context, prefixes, one_byte_opcode(SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
+            emit_reg_extended_op(context, prefixes, one_byte_opcode((lhs->size == 1) ? SHIFT_OR_ROTATE_REGM8_CL : SHIFT_OR_ROTATE_REGM_CL), reg_extension, lhs);
             lhs->size = size; // truncate it
             ret = lhs;
         }
-- 
2.43.0


From 0324d849441a86fb2706f00756ed4592bb8835ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 53/63] fix: haddps needs the f2 prefix

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 7a41f7a..1424b3a 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -267,7 +267,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_divss] = ASM_PREFIX_SSE_float, [MEMONIC_divsd] = ASM_PREFIX_SSE_double, [MEMONIC_divps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_divpd] = ASM_PREFIX_SSE_packed_double,
                 [MEMONIC_mulss] = ASM_PREFIX_SSE_float, [MEMONIC_mulsd] = ASM_PREFIX_SSE_double, [MEMONIC_mulps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_mulpd] = ASM_PREFIX_SSE_packed_double,
                 
-                [MEMONIC_haddps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
+                [MEMONIC_haddps] = ASM_PREFIX_F2, [MEMONIC_haddpd] = ASM_PREFIX_SSE_packed_double,
                 
                 [MEMONIC_movmskps] = ASM_PREFIX_SSE_packed_float, [MEMONIC_movmskpd] = ASM_PREFIX_SSE_packed_double,
                 
-- 
2.43.0


From 7bc42ab6ef05e636f052209b5f0296ca329fbd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 54/63] fix: movnti stores a general purpose register

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 1424b3a..d914a0f 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1196,7 +1196,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             
             case MEMONIC_movnti:{
                 assert(lhs->state == EMIT_LOCATION_register_relative);
-                struct emit_location *loaded = emit_load_float(context, rhs);
+                struct emit_location *loaded = emit_load_gpr(context, rhs);
                 emit_register_relative_register(context, no_prefix(), two_byte_opcode(0xc3), loaded->loaded_register, lhs);
                 if(loaded != rhs) free_emit_location(context, loaded);
             }break;
-- 
2.43.0


From da4979575ce7d96d7bbb445c23382f5acb9967aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 55/63] fix: crc32 of a byte and of a source smaller than the
 destination

---
 src/emit_inline_asm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index d914a0f..bb1fec7 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1382,10 +1382,11 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_crc32:{
                 struct emit_location *loaded = emit_load_without_freeing_gpr(context, lhs);
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_F2);
-                struct opcode opcode = three_byte_opcode(0x38, 0xf1);
+                struct opcode opcode = three_byte_opcode(0x38, (rhs->size == 1) ? 0xf0 : 0xf1);
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, prefix, opcode, loaded, rhs);
+                    // @note: The size of the instruction is the size of the source.
+                    emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, rhs->size);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
                     emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
-- 
2.43.0


From 8ca973d07b541dee11e5036b9e6cb1178da41261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 56/63] fix: encode vblendps

---
 src/emit_inline_asm_block.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index bb1fec7..243aba7 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -323,13 +323,13 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_pshufb]  = ASM_PREFIX_66,
                 
                 [MEMONIC_vshufps]  = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
-                [MEMONIC_vblendps] = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vmulps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vaddps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 [MEMONIC_vsubps]   = ASM_PREFIX_VEX | ASM_PREFIX_SSE_packed_float,
                 
                 // @hack: this is the middle byte of the opcode
                 [MEMONIC_vpshufb]     = 0x38,
+                [MEMONIC_vblendps]    = 0x3a,
                 [MEMONIC_vperm2f128]  = 0x3a,
                 [MEMONIC_vinsertf128] = 0x3a,
                 
@@ -482,7 +482,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 [MEMONIC_vpcmpeqb]    = 0x74,
                 [MEMONIC_vshufps]     = 0xc6,
                 
-                [MEMONIC_vblendps]    = 0x3A,
+                [MEMONIC_vblendps]    = 0x0c,
                 
                 [MEMONIC_vpshufb]     = 0x00,
                 [MEMONIC_vperm2f128]  = 0x06,
@@ -1292,7 +1292,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             // 'op ymm1, ymm2, ymm3/m256, imm8' or 'op xmm1, xmm2, xmm3/m128, imm8'
             // 'op ymm1, ymm2, ymm3/m256'       or 'op xmm1, xmm2, xmm3/m128'
             case MEMONIC_vpsraq:
-            case MEMONIC_vshufps: case MEMONIC_vblendps:
+            case MEMONIC_vshufps:
             case MEMONIC_vpminub: case MEMONIC_vpxor: case MEMONIC_vpcmpeqb:
             case MEMONIC_vmulps: case MEMONIC_vaddps: case MEMONIC_vsubps:{
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
@@ -1321,7 +1321,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             }break;
             
             case MEMONIC_vperm2f128: case MEMONIC_vinsertf128:
-            case MEMONIC_vpshufb:{
+            case MEMONIC_vpshufb:    case MEMONIC_vblendps:{
                 // @hack: store the middle byte of the opcode in the prefix
                 struct prefixes prefix = create_prefixes(ASM_PREFIX_VEX | ASM_PREFIX_P_BIG);
                 struct opcode opcode   = three_byte_opcode(memonic_to_prefix[inst->memonic], memonic_to_opcode[inst->memonic]);
-- 
2.43.0


From 8a5182aed2e9e516c58486ed12d243ea7134bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 57/63] fix: emit the rex prefix needed to access spl, bpl, sil
 and dil

---
 src/emit_inline_asm_block.c |  9 +++++++--
 src/emit_x64.c              | 14 +++++++++++++-
 src/parse_asm_block.c       |  1 +
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 243aba7..f644d36 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -534,6 +534,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                         u8 rex = 0;
                         if(lhs->size == 8) rex |= REXW;
                         if(register_is_extended(lhs->loaded_register)) rex |= REXB;
+                        if(lhs->size == 1 && get_byte_register_prefix(lhs->loaded_register)) rex |= 0x40;
                         if(rex) emit(rex); // this decides wheter 32 or 64 bits in this case
                         
                         emit(x64_opcode + (lhs->loaded_register & 7));
@@ -560,12 +561,16 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 u8 base_opcode = (inst->memonic == MEMONIC_movsx) ? MOVE_WITH_SIGN_EXTENSION_REG_REGM8 : MOVE_WITH_ZERO_EXTENSION_REG_REGM8;
                 struct opcode opcode = (rhs->size == 1) ? two_byte_opcode(base_opcode) : two_byte_opcode(base_opcode + 1);
+                
+                struct prefixes prefix = no_prefix();
+                if(rhs->state == EMIT_LOCATION_loaded && rhs->size == 1) prefix.legacy_prefixes |= get_byte_register_prefix(rhs->loaded_register);
+                
                 rhs->size = loaded->size;
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
-                    emit_register_register(context, no_prefix(), opcode, loaded, rhs);
+                    emit_register_register(context, prefix, opcode, loaded, rhs);
                 }else{
-                    emit_register_relative_register(context, no_prefix(), opcode, loaded->loaded_register, rhs);
+                    emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, rhs);
                 }
                 
                 if(loaded != lhs) emit_store(context, lhs, loaded);
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 747289b..08f0cc7 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -629,7 +629,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         if(prefixes & ASM_PREFIX_66) emit(0x66);
         if(prefixes & ASM_PREFIX_67) emit(0x67);
         
-        u8 rex = 0;
+        u8 rex = (prefixes & ASM_PREFIX_REX) ? 0x40 : 0;
         if(size == 8) rex |= REXW;
         if(register_is_extended(reg))  rex |= REXR;
         if(register_is_extended(regm)) rex |= REXB;
@@ -1127,6 +1127,11 @@ func void emit_location_allow_spilling(struct context *context, struct emit_loca
 
 /////////////////////////////////////////////////
 
+// Without a rex prefix the encodings 4 - 7 of a byte register mean ah, ch, dh and bh.
+func enum legacy_prefixes get_byte_register_prefix(enum register_encoding reg){
+    return (4 <= reg && reg < 8) ? ASM_PREFIX_REX : ASM_PREFIX_none;
+}
+
 func void emit_register_op__internal(struct context *context, struct prefixes prefixes, struct opcode opcode, enum register_encoding reg, enum register_encoding regm, smm size){
     emit_prefixes_and_opcode(context, prefixes, reg, regm, -1, size, opcode);
     
@@ -1136,6 +1141,8 @@ func void emit_register_op__internal(struct context *context, struct prefixes pr
 func void emit_reg_extended_op(struct context *context, struct prefixes prefixes, struct opcode opcode, u8 extension, struct emit_location *loaded){
     assert(loaded->state == EMIT_LOCATION_loaded);
     
+    if(loaded->size == 1) prefixes.legacy_prefixes |= get_byte_register_prefix(loaded->loaded_register);
+    
     emit_register_op__internal(context, prefixes, opcode, extension, loaded->loaded_register, loaded->size);
 }
 
@@ -1151,6 +1158,10 @@ func void emit_register_register(struct context *context, struct prefixes prefix
     enum register_encoding reg  = _reg->loaded_register;
     enum register_encoding regm = _regm->loaded_register;
     
+    if(_reg->register_kind == REGISTER_KIND_gpr && _reg->size == 1){
+        prefixes.legacy_prefixes |= get_byte_register_prefix(reg) | get_byte_register_prefix(regm);
+    }
+    
     emit_register_op__internal(context, prefixes, opcode, reg, regm, _reg->size);
 }
 
@@ -1244,6 +1255,7 @@ func void emit_register_relative__internal(struct context *context, struct prefi
 //    1) 'op [base + scale * index + offset], register'
 //    2) 'op register, [base + scale * index + offset]'
 func void emit_register_relative_register(struct context *context, struct prefixes prefixes, struct opcode opcode, enum register_encoding other_reg, struct emit_location *loc){
+    if(loc->size == 1) prefixes.legacy_prefixes |= get_byte_register_prefix(other_reg);
     emit_register_relative__internal(context, prefixes, opcode, other_reg, loc, null);
 }
 
diff --git a/src/parse_asm_block.c b/src/parse_asm_block.c
index 28abad9..b4d95fc 100644
--- a/src/parse_asm_block.c
+++ b/src/parse_asm_block.c
@@ -26,6 +26,7 @@ enum legacy_prefixes{
     ASM_PREFIX_P_BIG                = ASM_PREFIX_66, // A p* function (padd, por, punpcklbw, ...) which is 128 bit.
     
     ASM_PREFIX_VEX = 0x100,
+    ASM_PREFIX_REX = 0x200, // an (otherwise empty) rex prefix, needed to access spl, bpl, sil and dil
 };
 
 struct prefixes{
-- 
2.43.0


From 9cf12c44eeed90e3c0348adb92e7d19a686ef3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 58/63] fix: movq and vmovq move all 64 bits of a general
 purpose register

---
 src/emit_inline_asm_block.c | 4 +++-
 src/emit_x64.c              | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index f644d36..bb3ca39 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1258,6 +1258,8 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 // 66 0F 7E /r MOVQ r/m64, xmm
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 
+                smm size = (inst->memonic == MEMONIC_movq || inst->memonic == MEMONIC_vmovq) ? 8 : 4; 
+                
                 if(lhs->size < 16){
                     struct emit_location *loaded = emit_load_float(context, rhs);
                     
@@ -1274,7 +1276,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     if(rhs->state == EMIT_LOCATION_register_relative){
                         emit_register_relative_register(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs);
                     }else{
-                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, lhs->size);
+                        emit_register_op__internal(context, prefix, two_byte_opcode(0x6E), loaded->loaded_register, rhs->loaded_register, size);
                     }
                     
                     if(loaded != lhs) emit_store(context, lhs, loaded);
diff --git a/src/emit_x64.c b/src/emit_x64.c
index 08f0cc7..0d39074 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -582,6 +582,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
         if(register_is_extended(regm) || (index >= 0  && register_is_extended(index))) is_three_byte = true;
         
         if(opcode.amount_of_bytes == 3) is_three_byte = true;
+        if(size == 8) is_three_byte = true; // needs vex.w
         
         assert((prefixes & (ASM_PREFIX_VEX | ASM_PREFIX_66 | ASM_PREFIX_F2 | ASM_PREFIX_F3)) == prefixes);
         assert(__popcnt((u32)prefixes) <= 2);
@@ -611,6 +612,7 @@ func void emit_prefixes_and_opcode(struct context *context, struct prefixes _pre
             
             u8 byte = (rex << 5) | mmmmm;
             emit(byte);
+            if(size == 8) last_byte |= 0x80; // vex.w
         }else{
             emit(0xc5); // two byte vex
             last_byte |= register_is_extended(reg) ? 0 : 0x80; // note: inverted!
-- 
2.43.0


From ddf785f44f20fa7b09b3be5e952af9609e898df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 59/63] fix: vinsertf128 from memory is a 256 bit operation

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index bb3ca39..d44e13b 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1340,6 +1340,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 prefix.vex_register = vex->loaded_register;
                 
                 if(operands[2]->state == EMIT_LOCATION_register_relative){
+                    operands[2]->size = operands[0]->size; // @note: vinsertf128 is a 256-bit operation, but its memory operand is 128 bits.
                     emit_register_relative_register(context, prefix, opcode, first->loaded_register, operands[2]);
                 }else{
                     emit_register_op__internal(context, prefix, opcode, first->loaded_register, operands[2]->loaded_register, operands[0]->size);
-- 
2.43.0


From 5265ba653727a6efcadb443a03c1f5df5dddf92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 60/63] fix: cvt(t)ss2si and cvt(t)sd2si from memory overwrote
 an xmm register

---
 src/emit_inline_asm_block.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index d44e13b..98da09f 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1088,11 +1088,18 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
             case MEMONIC_movmskps:  case MEMONIC_movmskpd:
             case MEMONIC_cvttss2si: case MEMONIC_cvttsd2si:
             case MEMONIC_cvtss2si:  case MEMONIC_cvtsd2si:{
-                struct emit_location *loaded = emit_load_float(context, rhs);
-                
                 struct prefixes prefix = create_prefixes(memonic_to_prefix[inst->memonic]);
                 struct opcode opcode = two_byte_opcode(memonic_to_opcode[inst->memonic]);
                 
+                if(lhs->state == EMIT_LOCATION_loaded && rhs->state == EMIT_LOCATION_register_relative){
+                    // @note: Do not load the memory operand into some register, the user might be using it.
+                    rhs->size = lhs->size;
+                    emit_register_relative_register(context, prefix, opcode, lhs->loaded_register, rhs);
+                    break;
+                }
+                
+                struct emit_location *loaded = emit_load_float(context, rhs);
+                
                 if(lhs->state == EMIT_LOCATION_register_relative){
                     emit_register_relative_register(context, prefix, opcode, loaded->loaded_register, lhs);
                 }else{
-- 
2.43.0


From 99bc4709a6af9ba5c1379313c1a407e5b75ca18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 61/63] fix: crc32 of sil and dil in inline assembly

---
 src/emit_inline_asm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 98da09f..dae28f1 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1401,6 +1401,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 
                 if(rhs->state == EMIT_LOCATION_loaded){
                     // @note: The size of the instruction is the size of the source.
+                    if(rhs->size == 1) prefix.legacy_prefixes |= get_byte_register_prefix(rhs->loaded_register);
                     emit_register_op__internal(context, prefix, opcode, loaded->loaded_register, rhs->loaded_register, rhs->size);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_register_relative);
-- 
2.43.0


From 5ea9d4a34ee2fe7c4ab4cfcc4adb014922cc80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 62/63] fix: inline assembly instructions with a memory and an
 immediate operand overwrote a register

---
 src/emit_inline_asm_block.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index dae28f1..419dfef 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -549,7 +549,16 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                     }
                 }else{
                     assert(lhs->state == EMIT_LOCATION_register_relative);
-                    if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
+                    if(rhs->state == EMIT_LOCATION_immediate){
+                        rhs->size = lhs->size; // @clenaup: This was not true. I dunno, this whole stuff should be redone.
+                        
+                        if(lhs->size == 8 && s32_min <= rhs->value && rhs->value <= s32_max){
+                            // @note: Do not load the immediate into some register, the user might be using it.
+                            rhs->size = 4;
+                            emit_register_relative_immediate(context, no_prefix(), one_byte_opcode(MOVE_REGM_IMMEDIATE), 0, lhs, rhs);
+                            break;
+                        }
+                    }
                     emit_store(context, lhs, rhs);
                 }
             }break;
@@ -603,7 +612,19 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 u8 OP_REG8_REGM8 = opcode_base + 2;
                 u8 OP_REG_REGM   = opcode_base + 3;
                 
-                if(lhs->state == EMIT_LOCATION_register_relative){
+                if(lhs->state == EMIT_LOCATION_register_relative && rhs->state == EMIT_LOCATION_immediate && (lhs->size < 8 || (s32_min <= rhs->value && rhs->value <= s32_max))){
+                    // @note: Do not load the immediate into some register, the user might be using it.
+                    u8 opcode = REG_EXTENDED_OPCODE_REGM_IMMIDIATE;
+                    rhs->size = (lhs->size == 8) ? 4 : lhs->size;
+                    if(lhs->size == 1){
+                        opcode = REG_EXTENDED_OPCODE_REGM8_IMMIDIATE8;
+                    }else if(s8_min <= rhs->value && rhs->value <= s8_max){
+                        opcode = REG_EXTENDED_OPCODE_REGM_SIGN_EXTENDED_IMMIDIATE8;
+                        rhs->size = 1;
+                    }
+                    
+                    emit_register_relative_immediate(context, user_prefixes, one_byte_opcode(opcode), REG_OPCODE, lhs, rhs);
+                }else if(lhs->state == EMIT_LOCATION_register_relative){
                     struct emit_location *loaded = emit_load_gpr(context, rhs);
                     
                     loaded->prevent_freeing += 1;
-- 
2.43.0


From b8e18075a3c8257bf7c1de5831e9b51ef6a90582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 63/63] fix: vmovss from memory clears the upper half of the
 ymm register

---
 src/emit_inline_asm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 419dfef..03dade6 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -1388,7 +1388,7 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 assert(lhs->state == EMIT_LOCATION_loaded);
                 
                 if(rhs->state == EMIT_LOCATION_register_relative){
-                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs);
+                    emit_register_relative_register(context, create_prefixes(ASM_PREFIX_VEX | ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs);
                 }else{
                     assert(rhs->state == EMIT_LOCATION_loaded);
                     emit_register_op__internal(context, create_prefixes(ASM_PREFIX_F3), two_byte_opcode(0x10), lhs->loaded_register, rhs->loaded_register, rhs->size);
-- 
2.43.0

