From 3e5d42e4a247c3befb0755ef54c1517a6e688822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 01/43] fix: evaluate constant operators in the type C defines
 for them

Integer operations used the signedness of the left operand only, derived
longness of an operation from the undecayed operands, truncated long divisors
to int, evaluated int && and || bitwise and gave comparisons the operand type.
Unary operators always produced an int, so -1.5 was treated as an integer.
---
 constexpr.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..54d1558 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -25,10 +25,11 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
+    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
     v->is_constant = 1;
     v->int_value = r;
+    if (v->type->type == TYPE_INT && v->type->is_unsigned) v->int_value = (unsigned int) r;
+    else if (v->type->type == TYPE_INT) v->int_value = (int) r;
 
     return v;
 }
@@ -45,7 +46,7 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
+    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : value->type;
     v->is_constant = 1;
     if (is_int) v->int_value = i; else v->fp_value = ld;
 
@@ -53,8 +54,11 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 }
 
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
+    // The operation is done in the type the operands are converted to. Shifts only promote the left operand.
+    int is_shift = operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR;
+    Type *type = is_shift ? integer_promote_type(src1->type) : operation_type(src1, src2, 0);
+    int is_unsigned = type->is_unsigned;
+    int is_long = type->type != TYPE_INT;
 
     int ui =  is_unsigned && !is_long;
     int ul =  is_unsigned &&  is_long;
@@ -73,7 +77,7 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 
     unsigned long r = 0;
 
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
+    long divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
     if (operation == IR_DIV && divisor == 0) error("Division by zero");
     if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
 
@@ -82,8 +86,8 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
     else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
     else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
+    else if (operation == IR_LAND) { if (ui) r = s1ui && s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si && s2si; else if (sl) r = s1sl && s2sl; }
+    else if (operation == IR_LOR ) { if (ui) r = s1ui || s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si || s2si; else if (sl) r = s1sl || s2sl; }
     else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
     else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
     else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
@@ -98,9 +102,12 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     else if (operation == IR_GE  ) { if (ui) r = s1ui >= s2ui; else if (ul) r = s1ul >= s2ul; else if (si) r = s1si >= s2si; else if (sl) r = s1sl >= s2sl; }
     else return 0;
 
+    int is_boolean =
+        operation == IR_LAND || operation == IR_LOR || operation == IR_EQ || operation == IR_NE ||
+        operation == IR_LT   || operation == IR_GT  || operation == IR_LE || operation == IR_GE;
+
     Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
+    v->type = is_boolean ? new_type(TYPE_INT) : dup_type(type);
     v->is_constant = 1;
     v->int_value = r;
 
-- 
2.43.0


From 9002a68b7df79bde61f9deb009830bbe94cea209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 02/43] fix: keep the unsignedness of integer literals in
 constant expressions

---
 constexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/constexpr.c b/constexpr.c
index 54d1558..07e1d90 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -352,6 +352,7 @@ Value *parse_constant_expression(int level) {
 
         case TOK_INTEGER:
             value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            if (!integers_are_longs || cur_lexer_type->type == TYPE_LONG) value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
-- 
2.43.0


From 7ddc0f1cacc3f1b62776e524b9f24815ee54a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 03/43] fix: convert the operands of mixed integer/floating
 point constant expressions

---
 constexpr.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 07e1d90..60ddb93 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -123,6 +123,8 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
     else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
     else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
+    else if (operation == IR_LAND) { is_int = 1; i = src1->fp_value && src2->fp_value; }
+    else if (operation == IR_LOR)  { is_int = 1; i = src1->fp_value || src2->fp_value; }
     else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
     else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
     else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
@@ -274,8 +276,12 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
         return parse_address_plus_minus(operation, value1, value2);
 
     Type *result_type = operation_type(value1, value2, 0);
-    if (is_floating_point_type(result_type))
+    if (is_floating_point_type(result_type)) {
+        // One of the operands may be an integer or a narrower floating point type
+        value1 = cast_constant_value(value1, result_type);
+        value2 = cast_constant_value(value2, result_type);
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
+    }
     else
         return evaluate_const_binary_int_operation(operation, value1, value2);
 }
@@ -287,7 +293,13 @@ static Value *parse_ternary(Value *value) {
     consume(TOK_COLON, ":");
     Value *value2 = parse_constant_expression(TOK_TERNARY);
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+    Value *result = which ? value1 : value2;
+
+    // The result has the common type of both arithmetic operands
+    if (result->is_constant && is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        return cast_constant_value(result, operation_type(value1, value2, 1));
+
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
-- 
2.43.0


From 90ef939371e06846845eff8d946e739efb3dea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 04/43] fix: convert constants between signed, unsigned and
 floating point types like C does

A cast between the signed and unsigned variant of a type was a no-op, casts to
float and double kept excess precision, values between -128 and -127 (and the
short and int equivalents) became -128, and values over LONG_MAX could not be
converted to unsigned long.
---
 constexpr.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 60ddb93..2a805df 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -142,7 +142,7 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && src->type->is_unsigned == dst_type->is_unsigned) return src;
 
     Type *src_type = src->type;
 
@@ -157,28 +157,30 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+             if (dst_type->type == TYPE_FLOAT)  dst->fp_value = (float)  src->fp_value;
+        else if (dst_type->type == TYPE_DOUBLE) dst->fp_value = (double) src->fp_value;
+        else                                    dst->fp_value =          src->fp_value;
         return dst;
     }
 
     // FP -> integer
     if (is_floating_point_type(src_type) && !is_floating_point_type(dst_type)) {
-        dst->int_value = src->fp_value;
+        if (dst_type->type == TYPE_LONG && dst_type->is_unsigned) dst->int_value = (unsigned long) src->fp_value;
+        else dst->int_value = src->fp_value;
 
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0xff;
-             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <       -0x7f) dst->int_value = -0x80;
+             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <=      -0x81) dst->int_value = -0x80;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value <       -0xff) dst->int_value = 0;
              if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0x7fff;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0xffff;
-             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <     -0x7fff) dst->int_value = -0x8000;
+             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <=    -0x8001) dst->int_value = -0x8000;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value <     -0xffff) dst->int_value = 0;
              if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0x7fffffff;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0xffffffff;
-             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value < -0x7fffffff) dst->int_value = -0x80000000;
+             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value <= -0x80000001L) dst->int_value = -0x80000000;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value < -0xffffffff) dst->int_value = 0;
 
         return dst;
@@ -188,6 +190,9 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
         if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
         else dst->fp_value = src->int_value;
+
+             if (dst_type->type == TYPE_FLOAT)  dst->fp_value = (float)  dst->fp_value;
+        else if (dst_type->type == TYPE_DOUBLE) dst->fp_value = (double) dst->fp_value;
     }
 
     // Implicit else: integer -> integer
-- 
2.43.0


From a43e789908715ef31d4d0dcbd99be68842d7e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 05/43] fix: take the mask of an unsigned modulus in the type
 of the operation and only treat positive constants as powers of two

---
 ssa.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ssa.c b/ssa.c
index bff1449..611e5ef 100644
--- a/ssa.c
+++ b/ssa.c
@@ -51,7 +51,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHL;
@@ -67,7 +67,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHR;
@@ -83,12 +83,14 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = 0;
             while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            Type *type = tac->src2->type;
+            tac->src2 = new_integral_constant(type->type, l);
+            tac->src2->type->is_unsigned = type->is_unsigned;
         }
     }
 }
-- 
2.43.0


From 759c1e32e26b3a37030acbdb75bf59ddd3eca4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 06/43] fix: a floating point division by a constant zero is a
 valid operation

---
 ssa.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssa.c b/ssa.c
index 611e5ef..a448cd7 100644
--- a/ssa.c
+++ b/ssa.c
@@ -126,10 +126,7 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     else if (tac->operation == IR_DIV && cv && tac->src2->is_constant) {
         c = tac->src2->fp_value;
 
-        if (c == 0.0L)
-            panic("Division by zero");
-
-        else if (c == 1.0L) {
+        if (c == 1.0L) {
             tac->operation = IR_MOVE;
             tac->src1 = v;
             tac->src2 = 0;
-- 
2.43.0


From e1a878b52b44b6cf65ff4cf415a00f5bd2736083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 07/43] fix: read bit-fields that are 32 bits wide

---
 ir.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ir.c b/ir.c
index 7cd46eb..c897fdd 100644
--- a/ir.c
+++ b/ir.c
@@ -1017,8 +1017,10 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
-        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
+        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
+        Value *mask_value = new_integral_constant(TYPE_INT, mask);
+        mask_value->type->is_unsigned = 1;
+        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, mask_value);
     }
     else {
         // Shift left so that the value is at the end of the integer boundary
@@ -1036,7 +1038,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
         if (32 - bit_size)
             ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
         else
-            dst = shifted_value;
+            ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, shifted_value, 0);
     }
 }
 
-- 
2.43.0


From 49537b61aadad6e9f2fb67782165cc6b6e07d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 08/43] fix: round the size of a union up to its alignment

---
 types.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/types.c b/types.c
index ea8bc7c..746478c 100644
--- a/types.c
+++ b/types.c
@@ -870,12 +870,9 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
     s->is_incomplete = 0;
 
     int size;
-    if (s->is_union)
-        size = max_size;
-    else {
-        bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
-        size = bit_offset - initial_bit_offset;
-    }
+    if (s->is_union) bit_offset += max_size;
+    bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
+    size = bit_offset - initial_bit_offset;
 
     s->size = size >> 3;
 
-- 
2.43.0


From c2ea355362cfbf912e82613b29952f26af445c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:36 +0000
Subject: [PATCH 09/43] fix: a packed struct has an alignment of one byte

---
 types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.c b/types.c
index 746478c..3b5f664 100644
--- a/types.c
+++ b/types.c
@@ -489,6 +489,7 @@ int get_type_alignment(Type *type) {
             return get_type_alignment(type->target);
         case TYPE_STRUCT_OR_UNION: {
             // The alignment of a struct is the max alignment of all members
+            if (type->struct_or_union_desc->is_packed) return 1;
             int max = 0;
             for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
                 int alignment = get_type_alignment((*pmember)->type);
-- 
2.43.0


From abd8e5ee8f9e031d28dbf2c01d23c52364783b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:52 +0000
Subject: [PATCH 10/43] fix: unnamed bit-fields do not align a struct and empty
 structs are aligned to a byte

---
 types.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types.c b/types.c
index 3b5f664..717f4d5 100644
--- a/types.c
+++ b/types.c
@@ -490,8 +490,9 @@ int get_type_alignment(Type *type) {
         case TYPE_STRUCT_OR_UNION: {
             // The alignment of a struct is the max alignment of all members
             if (type->struct_or_union_desc->is_packed) return 1;
-            int max = 0;
+            int max = 1;
             for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
+                if ((*pmember)->is_bit_field && !(*pmember)->identifier) continue; // Unnamed bit-fields don't affect the alignment
                 int alignment = get_type_alignment((*pmember)->type);
                 if (alignment > max) max = alignment;
             }
@@ -823,7 +824,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     int initial_bit_offset = bit_offset;
     int max_size = 0;
-    int max_alignment = 0;
+    int max_alignment = 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
@@ -842,7 +843,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
             }
 
             // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
+            if (member->identifier && max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
-- 
2.43.0


From c9411db72f409c84967018682e3bccf939bb429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 11/43] fix: converting an unsigned long to floating point
 keeps the source register

---
 instrrules.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 221e446..e7c2e35 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -474,16 +474,18 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
 
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
-    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporaries for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV3,  SV4,   SV3,  "orq %v1q, %v2q");
+    add_op(r, X_MOVC,  DST,  SV3,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
     add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
 }
-- 
2.43.0


From 910f44cf0c268ea1712d45c0ec9fc6631edf9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 12/43] fix: convert floating point to unsigned int using a 64
 bit conversion

---
 instrrules.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index e7c2e35..8c347b0 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -558,12 +558,12 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
     r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
     r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
@@ -573,23 +573,23 @@ static void add_float_and_double_move_rules(void) {
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
     r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
     r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
     add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
     add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
 
     // SSE in register -> long double
-- 
2.43.0


From 7238aa89b75bf99efbccd69f3d6d860710aee377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 13/43] fix: convert floating point values of 2^63 and above to
 unsigned long

---
 instrrules.c | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 8c347b0..61d90bf 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -443,6 +443,35 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+static void add_sse_to_ulong_move_rule(int src, int is_double) {
+    // If the value is >= 2^63, subtract 2^63 before the conversion and flip the high bit of the result.
+    Rule *r = add_rule(RU4, IR_MOVE, src, 0, 20);
+    int type = is_double ? TYPE_DOUBLE : TYPE_FLOAT;
+    char *mov_template  = is_double ? "movsd %v1D, %vdD"                  : "movss %v1F, %vdF";
+    char *offset        = is_double ? "movabsq $0x43e0000000000000, %vdq" : "movq $0x5f000000, %vdq"; // 2^63
+    char *movq_template = is_double ? "movq %v1q, %vdD"                   : "movd %v1l, %vdF";
+    char *comp_template = is_double ? "comisd %v2D, %v1D"                 : "comiss %v2F, %v1F";
+    char *conv_template = is_double ? "cvttsd2siq %v1D, %vdq"             : "cvttss2siq %v1F, %vdq";
+    char *big_template  = is_double ? ".L2:subsd %v1D, %vdD"              : ".L2:subss %v1F, %vdF";
+
+    add_allocate_label_in_slot(r, 1);                               // Completion label
+    add_allocate_label_in_slot(r, 2);                               // Value >= 2^63 case
+    add_allocate_register_in_slot(r, 3, type);                      // Value
+    add_allocate_register_in_slot(r, 4, type);                      // 2^63
+    add_op(r, X_MOVC,  SV3, SRC1, 0,   mov_template);
+    add_op(r, X_MOVC,  DST, 0,    0,   offset);
+    add_op(r, X_MOVC,  SV4, DST,  0,   movq_template);
+    add_op(r, X_COMIS, 0,   SV3,  SV4, comp_template);
+    add_op(r, X_JZ,    0,   SV2,  0,   "jae %v1");
+    add_op(r, X_MOVC,  DST, SV3,  0,   conv_template);              // Value < 2^63 case
+    add_op(r, X_JMP,   0,   SV1,  0,   "jmp %v1");
+    add_op(r, X_SUB,   SV3, SV4,  SV3, big_template);               // Value >= 2^63 case
+    add_op(r, X_MOVC,  DST, SV3,  0,   conv_template);
+    add_op(r, X_XOR,   DST, DST,  0,   "btcq $63, %vdq");
+    add_op(r, X_MOVC,  DST, DST,  0,   ".L1:");                     // Done
+    fin_rule(r);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -559,12 +588,12 @@ static void add_float_and_double_move_rules(void) {
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
     add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
@@ -574,23 +603,31 @@ static void add_float_and_double_move_rules(void) {
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+
+    // SSE -> unsigned long in register
+    add_sse_to_ulong_move_rule(CS3, 0);
+    add_sse_to_ulong_move_rule(CS4, 1);
+    add_sse_to_ulong_move_rule(RS3, 0);
+    add_sse_to_ulong_move_rule(RS4, 1);
+    add_sse_to_ulong_move_rule(MS3, 0);
+    add_sse_to_ulong_move_rule(MS4, 1);
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
-- 
2.43.0


From 8f1724e9ca94414de9f9043d597e038604add6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 14/43] fix: floating point literals have the precision of
 their type

---
 lexer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.c b/lexer.c
index d0c3fb8..eafd873 100644
--- a/lexer.c
+++ b/lexer.c
@@ -159,6 +159,10 @@ void lex_non_hex_literal(void) {
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
         if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
 
+        // The value has the precision of the type
+        if (type == TYPE_FLOAT) cur_long_double = strtof(start + start_ip, 0);
+        if (type == TYPE_DOUBLE) cur_long_double = strtod(start + start_ip, 0);
+
         cur_lexer_type = new_type(type);
     }
 }
-- 
2.43.0


From c97e1effa9540bf7254f0764f58a24dcdd51afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 15/43] fix: compare pointers to long doubles

---
 instrrules.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instrrules.c b/instrrules.c
index 61d90bf..a6ef606 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1715,10 +1715,12 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
@@ -1740,6 +1742,8 @@ void define_rules(void) {
         for (int j = 0; j < 4; j++)
             add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
 
+    add_int_comparison_rules(&ntc, 1, RP5, RP5, cmpq_vv);
+
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
     // Note the RU4, CI3 oddball. cmpq can only be done on imm32, which has to be signed. If CU4 were allowed, then 0x80000000 and higher would
@@ -1750,6 +1754,7 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 1, RI4, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, XRP, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, XCU, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RP5, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, RPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, MPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
-- 
2.43.0


From 530cdcd16f6d9ba6a4e1e2137cf2c38d7849167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 16/43] fix: take the address of an element of a
 multi-dimensional long double array

---
 instrrules.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instrrules.c b/instrrules.c
index a6ef606..a508bab 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -880,6 +880,7 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP2,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP3,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
-- 
2.43.0


From 4e48248f0d19fde10de721cae92d961d256a7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 17/43] fix: compound assignment, increment and decrement of
 bit-fields

---
 parser.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser.c b/parser.c
index 8a174ba..f741102 100644
--- a/parser.c
+++ b/parser.c
@@ -2000,10 +2000,16 @@ Value *prep_comp_assign(void) {
     return v1;
 }
 
-// Finish compound assignment
+// Finish compound assignment, increment or decrement
 static void finish_comp_assign(Value *v1) {
     push(add_convert_type_if_needed(pop(), v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+
+    if (v1->bit_field_size) {
+        add_parser_instruction(IR_SAVE_BIT_FIELD, v1, pop(), 0);
+        push(load(dup_value(v1)));
+    }
+    else
+        add_parser_instruction(IR_MOVE, v1, vtop(), 0);
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2659,8 +2665,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            finish_comp_assign(v1);
 
             break;
         }
@@ -2864,8 +2869,7 @@ static void parse_expression(int level) {
                 push(src1);
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-                push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+                finish_comp_assign(v1);
                 pop(); // Pop the lvalue of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
-- 
2.43.0


From 6970dd093adc27dd12396f29a21491c8b58334cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 18/43] fix: promote unsigned bit-fields that are narrower than
 an int to int

---
 parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index f741102..5a3c343 100644
--- a/parser.c
+++ b/parser.c
@@ -41,6 +41,7 @@ static List *allocated_sets;  // Allocated Set instances
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+Value *add_convert_type_if_needed(Value *src, Type *dst_type);
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
@@ -143,6 +144,11 @@ static void *pop_void(void) {
     vs++;
 }
 
+// An int can hold all values of an unsigned bit-field that is narrower than an int
+static int is_narrow_unsigned_bit_field(Value *v) {
+    return v->bit_field_size && v->bit_field_size < 32 && v->type->is_unsigned;
+}
+
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
     dst->type = new_type(TYPE_INT);
@@ -150,6 +156,9 @@ static Value *load_bit_field(Value *src1) {
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
+    if (is_narrow_unsigned_bit_field(src1))
+        return add_convert_type_if_needed(dst, new_type(TYPE_INT));
+
     return dst;
 }
 
@@ -331,8 +340,8 @@ Type *operation_type(Value *src1, Value *src2, int for_ternary) {
         return new_type(TYPE_VOID);
 
     // Otherwise, apply integral promotions
-    src1_type = integer_promote_type(src1_type);
-    src2_type = integer_promote_type(src2_type);
+    src1_type = is_narrow_unsigned_bit_field(src1) ? new_type(TYPE_INT) : integer_promote_type(src1_type);
+    src2_type = is_narrow_unsigned_bit_field(src2) ? new_type(TYPE_INT) : integer_promote_type(src2_type);
 
     // They are two integer types
     if (src1_type->type == TYPE_LONG || src2_type->type == TYPE_LONG)
-- 
2.43.0


From b4da40112f81fb0449f71728d1c68fba45723e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 19/43] fix: scale the offset of a pointer addition or
 subtraction in 64 bits

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 5a3c343..4917fb2 100644
--- a/parser.c
+++ b/parser.c
@@ -2046,7 +2046,7 @@ static void parse_addition(int level, int for_array_subscript) {
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
-        push_integral_constant(TYPE_INT, factor);
+        push_integral_constant(TYPE_LONG, factor);
         arithmetic_operation(IR_MUL, 0);
     }
 
@@ -2067,7 +2067,7 @@ static void parse_subtraction(int level) {
 
     if (factor > 1) {
         if (!src2_is_pointer) {
-            push_integral_constant(TYPE_INT, factor);
+            push_integral_constant(TYPE_LONG, factor);
             arithmetic_operation(IR_MUL, 0);
         }
 
-- 
2.43.0


From 3c509aa1bdfdd8b65a9f9435670554169b272166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 20/43] fix: compare memory with zero in the size of the
 operand

---
 codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codegen.c b/codegen.c
index 762175f..17bdf38 100644
--- a/codegen.c
+++ b/codegen.c
@@ -595,6 +595,14 @@ void add_final_x86_instructions(Function *function, char *function_name) {
 
                 break;
 
+            case X_CMPZ: {
+                // A comparison of memory with zero needs the size of the operand in the mnemonic
+                char size = ir->x86_template[strlen(ir->x86_template) - 1];
+                wasprintf(&(ir->x86_template), "cmp%c $0, %%v1%c", size, size);
+                append_to_list(allocated_strings, ir->x86_template);
+                break;
+            }
+
             case X_CALL: {
                 ir->operation = IR_NOP;
 
-- 
2.43.0


From e6545779d08ff3ea1bc95cb057fc6ff4e2389b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 21/43] fix: continue in a do while statement goes to the
 controlling expression

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 4917fb2..5b1f29a 100644
--- a/parser.c
+++ b/parser.c
@@ -3015,12 +3015,17 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    // A continue in a do/while goes to the controlling expression, which comes after the body
+    Value *ldo_continue = loop_token == TOK_DO ? new_label_dst() : 0;
+    if (ldo_continue) cur_loop_continue_dst = ldo_continue;
+
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
 
     // Parse do/while
     if (loop_token == TOK_DO) {
+        add_jmp_target_instruction(ldo_continue);
         consume(TOK_WHILE, "while");
         consume(TOK_LPAREN, "(");
         parse_iteration_conditional_expression(&lcond, &cur_loop_continue_dst, lend);
-- 
2.43.0


From 3662fab6313c3a3b6f087982259100c8075e958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 22/43] fix: constants merged in instruction selection keep the
 type of the operation

---
 instrsel.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index c73ff10..8e9c874 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -604,10 +604,9 @@ static Value *merge_cst_node(IGraph *igraph, int node_id, Value *v) {
     return v;
 }
 
-static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, int is_unsigned) {
+static Value *merge_cst_int_node(IGraph *igraph, int node_id, Type *type, long constant_value) {
     Value *v = new_value();
-    v->type = new_type(TYPE_LONG);
-    v->type->is_unsigned = is_unsigned;
+    v->type = dup_type(type);
     v->is_constant = 1;
     v->int_value = constant_value;
     return merge_cst_node(igraph, node_id, v);
@@ -627,7 +626,7 @@ static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation
     if (!value)
         return 0;
     else
-        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
 }
 
 static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2, Type *type) {
@@ -636,9 +635,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -664,7 +663,10 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) {
+        Value *value = evaluate_const_unary_int_operation(operation, src1);
+        return merge_cst_int_node(igraph, node_id, value->type, value->int_value);
+    }
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
-- 
2.43.0


From 53226139caf5501ffce7f93ca2265609f5b563ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 23/43] fix: an unsigned constant is 16 bits wide if it is
 below 65536

---
 instrutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrutil.c b/instrutil.c
index 6277450..da09092 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
-- 
2.43.0


From e1eb9618b7c392c568ba967241f0210561f8727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 24/43] fix: color registers that are required by an
 instruction before their neighbors

---
 regalloc.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/regalloc.c b/regalloc.c
index 023db49..8ba0d26 100644
--- a/regalloc.c
+++ b/regalloc.c
@@ -211,7 +211,21 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
             printf("%-2d -> %-2d: %s\n", i, vreg_locations[i].preg, register_name(preg_map[vreg_locations[i].preg]));
     }
 
-    // Color constrained nodes first
+    // Color nodes that must be in a specific register first, so that a neighbor cannot take the register
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        Value *values[] = {tac->dst, tac->src1, tac->src2};
+        for (int i = 0; i < 3; i++) {
+            Value *value = values[i];
+            if (!value || !value->vreg || !value->live_range_preg || value->preg_class != preg_class) continue;
+            if (vreg_locations[value->vreg].preg != -1) continue;
+            color_vreg(interference_graph, vreg_count, vreg_locations, physical_register_count, &stack_register_count, value->vreg, original_stack_indexes, 0, live_range_start, live_range_end);
+            delete_from_set(constrained, value->vreg);
+            delete_from_set(preferred_pregs, value->vreg);
+            delete_from_set(unconstrained, value->vreg);
+        }
+    }
+
+    // Color constrained nodes next
     for (int i = 1; i <= vreg_count; i++) {
         int vreg = ordered_nodes[i].vreg;
         if (!constrained->elements[vreg]) continue;
-- 
2.43.0


From c1476084b42553e92a90e8b65b6d136d25872d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 25/43] fix: the stack slot of an integer converted to a long
 double is as wide as the store

---
 instrrules.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index a508bab..e483028 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -670,15 +670,15 @@ static void add_long_double_move_rules(void)  {
     // Integer in register -> long double in memory
 
     // Signed integers
-    add_integer_long_double_move_rule(RI1, TYPE_CHAR , "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI1, TYPE_SHORT, "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,                   "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,                   "movl %v1l, %v2", "fildl %v2L");
     add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,                   "movq %v1q, %v2", "fildq %v2L");
 
     // Unsigned integers
-    add_integer_long_double_move_rule(RU1, TYPE_CHAR , "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RU2, TYPE_SHORT, "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RU3, TYPE_INT  , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RU1, TYPE_SHORT, "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RU2, TYPE_INT  , "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RU3, TYPE_LONG , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
 
     // RU4 is a special case
     // Inspired by clang, when run with -fPIE
-- 
2.43.0


From beb511953bdbf5a104c7bad6115a3b2c38ff5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 26/43] fix: the size of a struct in registers includes
 internal padding

---
 functions.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..e51dfcb 100644
--- a/functions.c
+++ b/functions.c
@@ -1610,10 +1610,11 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
 
             int unaligned = 0;
 
-            size = 0; // Needs recalculating to remove any paddding at the end
+            size = 0; // Needs recalculating to remove any padding at the end
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+                int scalar_end = scalar->offset + get_type_size(scalar->type);
+                if (scalar_end > size) size = scalar_end;
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
-- 
2.43.0


From 084d9a92960f22426f8b20945dcccf3b5e8d4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 27/43] fix: a stack slot accessed at an offset is large enough
 for the access

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 17bdf38..2573506 100644
--- a/codegen.c
+++ b/codegen.c
@@ -109,7 +109,8 @@ void process_stack_offset(Value *value, int *stack_alignments, int *stack_sizes)
 
         int value_alignment = get_type_alignment(value->type);
         if (value_alignment > stack_alignments[-value->stack_index]) stack_alignments[-value->stack_index] = value_alignment;
-        int value_size = get_type_size(value->type);
+        // The value can also be a part of a struct/union
+        int value_size = value->offset + get_type_size(value->type);
         if (value_size > stack_sizes[-value->stack_index]) stack_sizes[-value->stack_index] = value_size;
     }
 }
-- 
2.43.0


From 947910e8153ae9b33d701a83ad6555293da60c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 28/43] fix: pass structs of one scalar on the stack

---
 instrrules.c | 2 +-
 instrsel.c   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index e483028..e8d33a0 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1644,7 +1644,7 @@ void define_rules(void) {
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
-    r = add_rule(RI4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
+    r = add_rule(RU4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
     // imm64 needs to be loaded into a register first
     r = add_rule(0, IR_ARG, CI4, XC4, 2);
diff --git a/instrsel.c b/instrsel.c
index 8e9c874..96e085c 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -799,6 +799,7 @@ static int tile_igraph_operand_less_node(IGraph *igraph, int node_id) {
         int choice_node_id = new_cost_graph_node();
         cost_to_igraph_map[choice_node_id] = node_id;
         cost_rules[choice_node_id] = r->index;
+        longset_add(igraph_labels[node_id], r->index); // Add a label
         accumulated_cost[choice_node_id] = r->cost;
 
         add_graph_edge(cost_graph, cost_graph_node_id, choice_node_id);
-- 
2.43.0


From 9bcf05bfa768e31c71b22d93e4eb6b082660ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 29/43] fix: a conversion between float and double could
 destroy its operand

The interference graph treated the conversion as a register copy, so that
with all SSE registers in use the result was put in the register of an operand
that is needed later.
---
 ssa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssa.c b/ssa.c
index a448cd7..21fb29c 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1465,8 +1465,10 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                     if (it_vreg == tac->dst->vreg) continue; // Ignore self assignment
                     if (tac->dst->preg_class != vreg_preg_classes[it_vreg]) continue;
 
-                    // Don't add an edge for register copies
-                    if ((
+                    // Don't add an edge for register copies. A conversion between
+                    // floating point types is not a copy.
+                    int is_fp_conversion = tac->operation == X_MOVC && tac->dst->preg_class == PC_SSE;
+                    if (!is_fp_conversion && (
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-- 
2.43.0


From 8cb20c9dfddf0eb5c9254e6ab3916a0ce4a1394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 30/43] fix: == and != of long doubles with the result in rdx

The result register is read by cmovne and movzbl. Without saying so it wasn't
live across the use of edx as a scratch register and could be rdx itself.
---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index e8d33a0..d7fb097 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1051,8 +1051,8 @@ static void add_long_double_comp_rules(int *ntc, int src1, int src2, char *src1_
         add_op(r, X_CMP, DST, 0, 0, i == 0 ? "setnp %vdb" : "setp %vdb");
         add_op(r, X_LD_EQ_CMP, 0, 0, 0,  i == 0 ? "movl $0, %%edx" : "movl $1, %%edx");
         add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_MOVC, DST, 0, 0, "cmovne %%edx, %vdl");
-        add_op(r, X_MOVZ, DST, 0, 0, "movzbl %vdb, %vdl");
+        add_op(r, X_MOVC, DST, DST, 0, "cmovne %%edx, %vdl");
+        add_op(r, X_MOVZ, DST, DST, 0, "movzbl %v1b, %vdl");
     }
 
     add_long_double_comp_cond_jmp_rule(ntc, src1, src2, src1_template, src2_template, IR_LT, X_JA,  "ja %v1" , X_JAE, "jbe %v1", 1);
-- 
2.43.0


From 9d4c3bcf298cfcb80698745751a1b1aed14caa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 31/43] fix: sign extend a character constant of one character
 given in octal

---
 lexer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer.c b/lexer.c
index eafd873..d744610 100644
--- a/lexer.c
+++ b/lexer.c
@@ -433,6 +433,9 @@ void next(void) {
                 byte_count++;
             }
             ip++;
+
+            // A single character has the value of a char
+            if (!is_wide_char && byte_count == 1) cur_long = (char) cur_long;
         }
 
         // String literal
-- 
2.43.0


From 12b80461316d90b292bf9745ded959d2878ce87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 32/43] fix: address constants made of arrays and of elements
 of string literals

---
 codegen.c   |  2 +-
 constexpr.c | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2573506..f193bf3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -814,7 +814,7 @@ static void output_symbol(Symbol *symbol) {
 
             Initializer *in = (Initializer *) symbol->initializers->elements[i];
 
-            if (in->is_address_of || in->symbol) {
+            if (!in->is_string_literal && (in->is_address_of || in->symbol)) {
                 if (in->address_of_offset)
                     fprintf(f,"    .quad    %s + %d\n", in->symbol->global_identifier, in->address_of_offset);
                 else
diff --git a/constexpr.c b/constexpr.c
index 2a805df..700ed6f 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -156,6 +156,9 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->is_string_literal = src->is_string_literal;
     dst->string_literal_index = src->string_literal_index;
 
+    // Array -> pointer
+    if (src_type->type == TYPE_ARRAY && is_pointer_type(dst_type) && !src->is_string_literal) dst->is_address_of = 1;
+
     // FP -> FP
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
              if (dst_type->type == TYPE_FLOAT)  dst->fp_value = (float)  src->fp_value;
@@ -220,9 +223,16 @@ static Value *parse_unary_expression(int operation) {
         return evaluate_const_unary_int_operation(operation, value);
 }
 
+// Decay an array to the address of its first element
+static void decay_constant_array(Value *value) {
+    if (value->type->type != TYPE_ARRAY) return;
+    value->type = decay_array_to_pointer(value->type);
+    if (!value->is_string_literal) value->is_address_of = 1;
+}
+
 static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
-    if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
-    if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
+    decay_constant_array(value1);
+    decay_constant_array(value2);
 
     if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
     else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
-- 
2.43.0


From c552c7e22f83654f8598f121ad588872fdb5c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 33/43] fix: initializers of bit fields, unions, strings and
 nested aggregates

---
 parser.c | 216 ++++++++++++++++++++++++++++++-------------------------
 types.c  |  29 ++++++--
 wcc.h    |   1 +
 3 files changed, 145 insertions(+), 101 deletions(-)

diff --git a/parser.c b/parser.c
index 5b1f29a..b00a54a 100644
--- a/parser.c
+++ b/parser.c
@@ -1723,95 +1723,108 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
+// The end of the last initializer of a symbol
+static int initializers_end(Symbol *s) {
+    if (!s->initializers->length) return 0;
+    Initializer *last = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    return last->offset + last->size;
+}
 
-    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+// Append an initializer. Anything between it and the last initializer is set to zeroes.
+static Initializer *append_initializer(Symbol *s, int offset, int size) {
+    int end = initializers_end(s);
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
-    determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
+    if (end < offset) {
+        Initializer *zero = wcalloc(1, sizeof(Initializer));
+        zero->offset = end;
+        zero->size = offset - end;
+        append_to_list(s->initializers, zero);
+    }
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    in->offset = offset;
+    in->size = size;
+    append_to_list(s->initializers, in);
 
+    return in;
+}
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+// Add an initializer for a bit field. This is done per byte, since the bytes may be
+// shared with adjacent bit fields and the integers may be shared with other members.
+static void add_bit_field_initializer(Symbol *s, Value *dst, long value) {
+    for (int i = 0; i < dst->bit_field_size; i++) {
+        int bit_offset = dst->bit_field_offset + i;
+        int offset = bit_offset >> 3;
+
+        Initializer *in;
+        if (initializers_end(s) <= offset) {
+            in = append_initializer(s, offset, 1);
+            in->data = wcalloc(1, 1);
         }
+        else
+            in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
+        *((char *) in->data) |= ((value >> i) & 1) << (bit_offset & 7);
     }
+}
 
-    if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
-            error("An initializer for an object with static storage duration must be a constant expression");
+static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    if (!s) error("Attempt to add an initializer to value without a global_symbol");
 
-        if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-        size = get_type_size(dst->type);
+    if (!scalar) {
+        // Zeroes, some of which may already have been added as part of a bit field
+        int end = initializers_end(s);
+        if (end < offset + size) append_initializer(s, end, offset + size - end);
+        return;
+    }
 
-        if (scalar->type->type == TYPE_FLOAT) {
-            in->data = wmalloc(sizeof(float));
-            *((float *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_DOUBLE) {
-            in->data = wmalloc(sizeof(double));
-            *((double *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_LONG_DOUBLE) {
-            in->data = wmalloc(sizeof(long double));
-            *((long double *) in->data) = scalar->fp_value;
-        }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
+    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
+        error("An initializer for an object with static storage duration must be a constant expression");
 
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
-        else if (scalar->is_address_of) {
-            in->is_address_of = 1;
-            in->address_of_offset = scalar->address_of_offset;
-            in->is_string_literal = scalar->is_string_literal;
-            in->string_literal_index = scalar->string_literal_index;
-            in->symbol = scalar->global_symbol;
-        }
-        else if (scalar->is_string_literal) {
-            in->is_string_literal = 1;
-            in->string_literal_index = scalar->string_literal_index;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else if (scalar->type->type == TYPE_ARRAY) {
-            in->symbol = scalar->global_symbol;
-        }
-        else {
-            in->data = wmalloc(sizeof(long));
-            *((long *) in->data) = scalar->int_value;
-        }
+    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+
+    if (dst->bit_field_size) {
+        add_bit_field_initializer(s, dst, scalar->int_value);
+        return;
     }
 
-    in->size = size;
-    in->offset = offset;
+    Initializer *in = append_initializer(s, offset, get_type_size(dst->type));
+
+    if (scalar->type->type == TYPE_FLOAT) {
+        in->data = wmalloc(sizeof(float));
+        *((float *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_DOUBLE) {
+        in->data = wmalloc(sizeof(double));
+        *((double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_LONG_DOUBLE) {
+        in->data = wmalloc(sizeof(long double));
+        *((long double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->is_address_of) {
+        in->is_address_of = 1;
+        in->address_of_offset = scalar->address_of_offset;
+        in->is_string_literal = scalar->is_string_literal;
+        in->string_literal_index = scalar->string_literal_index;
+        in->symbol = scalar->global_symbol;
+    }
+    else if (scalar->is_string_literal) {
+        in->is_string_literal = 1;
+        in->string_literal_index = scalar->string_literal_index;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else if (scalar->type->type == TYPE_ARRAY) {
+        in->symbol = scalar->global_symbol;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else {
+        in->data = wmalloc(sizeof(long));
+        *((long *) in->data) = scalar->int_value;
+    }
 }
 
 // Initialize value with zeroes starting with offset & size.
@@ -1828,34 +1841,41 @@ static void initialize_with_zeroes(Value *value, int offset, int size) {
 }
 
 // The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
+// larger than the size of the first member, zero the upper remainder. This isn't needed
+// for static objects, since the remainder of these is zero already.
+static void initialize_union_with_zeroes(Value *value) {
+    if (value->global_symbol) return;
     int union_size = get_type_size(value->type);
     int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+    if (first_member_size < union_size) initialize_with_zeroes(value, first_member_size, union_size - first_member_size);
 }
 
-// Initialize an array of chars or wchar_t with a string literal
+// Initialize an array of chars or wchar_t with a string literal. The elements beyond
+// the string literal are set to zeroes. Returns the iterator to what's after the array.
 static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
     StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    // Complete incomplete arrays
+    if (it->type->array_size == 0) it->type->array_size = sl->size;
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    int array_size = it->type->array_size;
+    int element_size = get_type_size(it->type->target);
+    int size = sl->size < array_size ? sl->size : array_size;
+    TypeIterator *next_it = it;
+
+    for (int i = 0; i < size; i++) {
+        int c = sl->is_wide_char ? ((int *) sl->data)[i] : sl->data[i];
+        next_it = parse_initializer(it, value, new_integral_constant(TYPE_INT, c));
     }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+
+    if (size < array_size) {
+        initialize_with_zeroes(value, it->offset, (array_size - size) * element_size);
+        it->offset += (array_size - size - 1) * element_size;
+        it->index = array_size - 1;
+        next_it = type_iterator_next(it);
     }
 
-    return it;
+    return next_it;
 }
 
 // Parse an initializer for a variable with automatic storage. If expression is set, it
@@ -1928,10 +1948,8 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
                 }
         }
 
-        if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
-        }
+        if (initialize_string_literal)
+            return initialize_with_string_literal(it, value, parsed_expression);
 
         else {
             if (!expression) {
@@ -1945,8 +1963,8 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
 
             // For unions, ensure that the whole union is initialized, even if the
             // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
+            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union && !it->offset)
+                initialize_union_with_zeroes(value);
 
             Value *child = dup_value(value);
             child->global_symbol = value->global_symbol;
@@ -1985,6 +2003,10 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         outer_it->type->array_size = outer_it->index;
     }
 
+    // Bit fields may share bytes with already initialized ones, so set these one by one
+    while (!type_iterator_done(it) && type_iterator_at_bit_field(it))
+        it = parse_initializer(it, value, new_integral_constant(TYPE_INT, 0));
+
     // If not all values where reached, set the remainder with zeroes
     if (!type_iterator_done(it)) {
         int outer_size = get_type_size((outer_it->type));
diff --git a/types.c b/types.c
index 717f4d5..a539ed4 100644
--- a/types.c
+++ b/types.c
@@ -969,12 +969,31 @@ int type_is_modifiable(Type *type) {
     return 1;
 }
 
+// Is the next thing to iterate over a bit field in a struct or union?
+int type_iterator_at_bit_field(TypeIterator *it) {
+    return it->type->type == TYPE_STRUCT_OR_UNION && it->type->struct_or_union_desc->members[it->index]->is_bit_field;
+}
+
+// Skip over any unnamed bit fields at the start of a struct, since they aren't initialized
+static void type_iterator_skip_unnamed_bit_fields(TypeIterator *it) {
+    if (it->type->type != TYPE_STRUCT_OR_UNION || !it->type->struct_or_union_desc->members) return;
+
+    StructOrUnionMember **members = it->type->struct_or_union_desc->members;
+    int index = 0;
+    while (members[index] && members[index]->is_bit_field && !members[index]->identifier) index++;
+    if (!index || !members[index]) return;
+
+    it->index = index;
+    it->offset = it->start_offset + members[index]->offset;
+}
+
 // Create a new type iterator instance. A type iterator can be used to recurse
 // through all scalars either depth first, or by iterating at a single level.
 TypeIterator *type_iterator(Type *type) {
     TypeIterator *it = wcalloc(1, sizeof(TypeIterator));
     append_to_list(allocated_type_iterators, it);
     it->type = type;
+    type_iterator_skip_unnamed_bit_fields(it);
 
     return it;
 }
@@ -1017,9 +1036,9 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
 
         it->offset = it->start_offset + it->type->struct_or_union_desc->members[it->index]->offset;
 
-        // Skip over zero size bit fields
+        // Skip over unnamed bit fields
         StructOrUnionMember *member = it->type->struct_or_union_desc->members[it->index];
-        if (member->is_bit_field && !member->bit_field_size) return type_iterator_next(it);
+        if (member->is_bit_field && !member->identifier) return type_iterator_next(it);
 
         return it;
     }
@@ -1043,15 +1062,17 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
         child->offset = it->offset;
         child->start_offset = it->offset;
         child->parent = it;
-        return child;;
+        type_iterator_skip_unnamed_bit_fields(child);
+        return child;
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
         TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
-        child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
+        child->bit_field_offset = it->offset * 8 + (it->type->struct_or_union_desc->members[it->index]->bit_field_offset & 7);
         child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
         child->offset = it->offset;
         child->start_offset = it->offset;
         child->parent = it;
+        type_iterator_skip_unnamed_bit_fields(child);
         return child;
     }
     else
diff --git a/wcc.h b/wcc.h
index 0f5649c..3e74fa7 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1048,6 +1048,7 @@ void complete_struct_or_union(StructOrUnion *s);
 int type_is_modifiable(Type *type);
 TypeIterator *type_iterator(Type *type);
 int type_iterator_done(TypeIterator *it);
+int type_iterator_at_bit_field(TypeIterator *it);
 TypeIterator *type_iterator_next(TypeIterator *it);
 TypeIterator *type_iterator_dig(TypeIterator *it);
 TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it);
-- 
2.43.0


From db925360fc412eb6dcd9899444af68f969cfb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 34/43] fix: zero large objects where they are initialized, not
 at the start of the function

---
 ir.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir.c b/ir.c
index c897fdd..87abc57 100644
--- a/ir.c
+++ b/ir.c
@@ -857,7 +857,7 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
     ir = insert_instruction_after_from_operation(ir, IR_CALL, 0, function_value, 0);
 
     // Add end call instruction
-    ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
+    return insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
 }
 
 // Add memcpy calls for struct/union -> struct/union copies
@@ -1175,7 +1175,7 @@ void add_zero_memory_instructions(Function *function) {
 
             // Add start call instruction
             Value *call_value = make_function_call_value(function_call_count++);
-            ir = insert_instruction_after_from_operation(ir, IR_START_CALL, 0, call_value, 0);
+            Tac *ir = insert_instruction_after_from_operation(tac, IR_START_CALL, 0, call_value, 0);
 
             Value *size_value = new_integral_constant(TYPE_INT, size);
             Value *dst_address = insert_address_of_instruction_after(function, &ir, dst);
@@ -1184,7 +1184,7 @@ void add_zero_memory_instructions(Function *function) {
             ir = insert_arg_instruction_after(ir, call_value, size_value, 2);
 
             // Add function call
-            ir = insert_function_call_instructions_after(ir, call_value, memset_symbol);
+            insert_function_call_instructions_after(ir, call_value, memset_symbol);
         }
     }
 }
-- 
2.43.0


From 532d1a11a2a126a306ec5e21d41c7d1457df1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 35/43] fix: initialize a member or element with an expression
 of struct type

---
 parser.c | 9 ++++++---
 types.c  | 5 +++++
 wcc.h    | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index b00a54a..9a39c62 100644
--- a/parser.c
+++ b/parser.c
@@ -1958,8 +1958,11 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             }
 
             // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
+            // can be assigned directly to the first object of that type.
+            if (src->type->type != TYPE_STRUCT_OR_UNION)
+                it = type_iterator_dig(it);
+            else
+                while (!is_scalar_type(it->type) && !types_are_compatible_ignore_qualifiers(it->type, src->type)) it = type_iterator_descend(it);
 
             // For unions, ensure that the whole union is initialized, even if the
             // first member is smaller than the others.
@@ -1980,7 +1983,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             else
                 add_simple_assignment_instruction(child, src, 0);
 
-            return type_iterator_next(it);
+            return type_iterator_skip(it);
         }
     }
 
diff --git a/types.c b/types.c
index a539ed4..1bd5840 100644
--- a/types.c
+++ b/types.c
@@ -1046,6 +1046,11 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
         panic("Unhandled type in type_iterator_next");
 }
 
+// Go to what comes after all of it
+TypeIterator *type_iterator_skip(TypeIterator *it) {
+    return is_scalar_type(it->type) ? type_iterator_next(it) : type_iterator_recurse_upwards(it);
+}
+
 // Go down one level into a struct/union/array and return an new iterator
 TypeIterator *type_iterator_descend(TypeIterator *it) {
     if (type_iterator_done(it))
diff --git a/wcc.h b/wcc.h
index 3e74fa7..77554a2 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1049,6 +1049,7 @@ int type_is_modifiable(Type *type);
 TypeIterator *type_iterator(Type *type);
 int type_iterator_done(TypeIterator *it);
 int type_iterator_at_bit_field(TypeIterator *it);
+TypeIterator *type_iterator_skip(TypeIterator *it);
 TypeIterator *type_iterator_next(TypeIterator *it);
 TypeIterator *type_iterator_dig(TypeIterator *it);
 TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it);
-- 
2.43.0


From 1924cb1963d598bcb22b690b9835f061c29aacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 36/43] fix: a conversion to a narrower integer type could
 share its operand's register and destroy it

---
 ssa.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ssa.c b/ssa.c
index 21fb29c..99b0cc2 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1360,6 +1360,13 @@ static void print_interference_graph(Function *function) {
     }
 }
 
+// Do the destination and source of a register move have the same size?
+static int is_same_size_copy(Tac *tac) {
+    if (!tac->dst->type || !tac->src1 || !tac->src1->type) return 1;
+    if (!is_scalar_type(tac->dst->type) || !is_scalar_type(tac->src1->type)) return 1;
+    return get_type_size(tac->dst->type) == get_type_size(tac->src1->type);
+}
+
 // Page 701 of engineering a compiler
 // If include_clobbers is set, then edges for any IR_* instruction that adds register constraints are skipped.
 // If include_instrsel_constraints is set, then constraints are added that precent coalescing of registers
@@ -1466,9 +1473,11 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                     if (tac->dst->preg_class != vreg_preg_classes[it_vreg]) continue;
 
                     // Don't add an edge for register copies. A conversion between
-                    // floating point types is not a copy.
+                    // floating point types is not a copy. Neither is a conversion
+                    // between types of different sizes, since instructions may extend
+                    // the narrower one of the two in place.
                     int is_fp_conversion = tac->operation == X_MOVC && tac->dst->preg_class == PC_SSE;
-                    if (!is_fp_conversion && (
+                    if (!is_fp_conversion && is_same_size_copy(tac) && (
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-- 
2.43.0


From a9ec74be99787745425cb07a504c2cd57b483bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 37/43] fix: argument registers of a call could be overwritten
 while struct arguments were loaded

---
 functions.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index e51dfcb..9fcbf5b 100644
--- a/functions.c
+++ b/functions.c
@@ -239,6 +239,9 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
         rdi_value->live_range_preg = LIVE_RANGE_PREG_RDI_INDEX;
         insert_instruction_from_operation(ir, IR_MOVE, rdi_value, address_value, 0, 1);
 
+        // Keep rdi alive while the other arguments are moved into their registers
+        insert_instruction_from_operation(ir, IR_CALL_ARG_REG, 0, dup_value(rdi_value), 0, 1);
+
         // Setup dst for rax
         Value *struct_dst = ir->dst;
 
@@ -638,6 +641,12 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
             FunctionParamLocations **pls = &(param_locations[ir->src1->int_value * register_count]);
             Type *called_function_type = ir->src1->type;
 
+            // Add the moves ahead of the IR_CALL_ARG_REG instructions of registers that
+            // have already been set, so that they aren't used as temporaries.
+            Tac *insert_before = ir;
+            while (insert_before->prev && insert_before->prev->operation == IR_CALL_ARG_REG && insert_before->prev->src1)
+                insert_before = insert_before->prev;
+
             // Allocated registers that hold the argument value
             Value **function_call_values = wcalloc(register_count, sizeof(Value *));
 
@@ -681,13 +690,13 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
                 Type *function_call_vreg_type;
                 if (type->type == TYPE_STRUCT_OR_UNION) {
                     FunctionParamLocation *location = lookup_location(preg_class, i, *pls);
-                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, ir, *call_arg, preg_class, i, location, &arg_register_set);
+                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, insert_before, *call_arg, preg_class, i, location, &arg_register_set);
                     function_call_vreg_type = preg_class == PC_INT ? new_type(TYPE_LONG) : new_type(TYPE_DOUBLE);
                 }
                 else {
                     if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
                     if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
-                    function_call_vreg = add_arg_move_to_register(function, ir, type, *call_arg, preg_class, i, &arg_register_set);
+                    function_call_vreg = add_arg_move_to_register(function, insert_before, type, *call_arg, preg_class, i, &arg_register_set);
                     function_call_vreg_type = (*call_arg)->type;
                 }
 
-- 
2.43.0


From 7f26d584c7c60d9407baa0ab61eaca1f6b4fb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 38/43] fix: stack parameters behind a large struct parameter
 were looked up outside of the array of parameter registers

---
 functions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions.c b/functions.c
index 9fcbf5b..d547820 100644
--- a/functions.c
+++ b/functions.c
@@ -1338,9 +1338,10 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // One for each 8-byte of the pushed parameters, of which the first has stack index 2
+    int stack_param_count = fpa->size / 8 + 1;
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
-- 
2.43.0


From 58a681b89ba4518e159e20700d9dd80f1f2608e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 39/43] fix: unsigned int constants from 2^31 could not be
 passed on the stack

---
 instrrules.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index d7fb097..176b6e8 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1637,16 +1637,21 @@ void define_rules(void) {
     r = add_rule(MLD5, IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); add_op(r, X_MOVC, DST, DST, 0, "fstpt %v1L");
     r = add_rule(MLD5, IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); add_op(r, X_MOVC, DST, DST, 0, "fstpt %v1L");
 
-    // Constants in pushed argument. pushq immediate can only be 32 bit
+    // Constants in pushed argument. pushq immediate can only be a signed 32 bit
     r = add_rule(0, IR_ARG, CI4, XC1, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC2, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
-    r = add_rule(0, IR_ARG, CI4, XC3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
+    r = add_rule(0, IR_ARG, CI4, CI3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
     r = add_rule(RU4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
-    // imm64 needs to be loaded into a register first
+    // unsigned imm32 and imm64 need to be loaded into a register first
+    r = add_rule(0, IR_ARG, CI4, CU3, 2);
+    add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
+    add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
+    add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
+    fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC4, 2);
     add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
     add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
-- 
2.43.0


From 54e92916d8ad8f246f7e7cdd253c50f3f1707cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 40/43] fix: octal and hexadecimal escapes in wide character
 constants and wide strings keep all their bits

---
 lexer.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lexer.c b/lexer.c
index d744610..2666032 100644
--- a/lexer.c
+++ b/lexer.c
@@ -228,12 +228,12 @@ void lex_single_string_literal(int *size) {
             else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
                 ip++;
                 lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else if (i[ip + 1] == 'x' ) {
                 ip += 2;
                 lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else error("Unknown \\ escape in string literal");
         }
@@ -412,8 +412,7 @@ void next(void) {
                     else if (i[ip] >= '0' && i[ip] <= '7' ) {
                         int old_cur_long = cur_long;
                         lex_octal_literal();
-                        cur_long &= 0xff;
-                        cur_long = (old_cur_long << 8) + cur_long;
+                        if (!is_wide_char) cur_long = (old_cur_long << 8) + (cur_long & 0xff);
                     }
                     else if (i[ip] == 'x' ) {
                         ip++;
@@ -434,8 +433,8 @@ void next(void) {
             }
             ip++;
 
-            // A single character has the value of a char
-            if (!is_wide_char && byte_count == 1) cur_long = (char) cur_long;
+            // A single character has the value of a char or wchar_t
+            if (byte_count == 1) cur_long = is_wide_char ? (int) cur_long : (char) cur_long;
         }
 
         // String literal
-- 
2.43.0


From 2d465c025b7a0d1b4dcfa6252d297f71da6bc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 41/43] fix: a struct with an anonymous struct or union keeps
 its layout as a member of another one

---
 types.c | 32 ++------------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/types.c b/types.c
index 1bd5840..9eb2954 100644
--- a/types.c
+++ b/types.c
@@ -300,26 +300,6 @@ static StructOrUnionMember *dup_struct_or_union_member(StructOrUnionMember *src)
     return dst;
 }
 
-static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
-    StructOrUnion *dst = wmalloc(sizeof(StructOrUnion));
-    append_to_list(all_structs_and_unions, dst);
-
-    dst->size          = src->size;
-    dst->is_incomplete = src->is_incomplete;
-    dst->is_packed     = src->is_packed;
-    dst->is_union      = src->is_union;
-
-    int len;
-    for (len = 0; src->members[len]; len++);
-
-    dst->members = wcalloc(len + 1, sizeof(StructOrUnionMember *));
-
-    for (int i = 0; src->members[i]; i++)
-        dst->members[i] = dup_struct_or_union_member(src->members[i]);
-
-    return dst;
-}
-
 Type *integer_promote_type(Type *type) {
     if (!is_integer_type(type)) error("Invalid operand, expected integer type");
 
@@ -850,15 +830,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
             if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
 
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                // Duplicate the structs, since the bit_offset will be set and otherwise
-                // would end up to a reused struct having invalid bit_offsets
-                member->type->struct_or_union_desc = dup_struct_or_union(member->type->struct_or_union_desc);
-                size = recursive_complete_struct_or_union(member->type->struct_or_union_desc, bit_offset);
-            }
-            else {
-                size = get_type_size(member->type) * 8;
-            }
+            size = get_type_size(member->type) * 8;
         }
 
         member->offset = bit_offset >> 3;
@@ -923,8 +895,8 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
-                sub->members[i]->offset += member->offset;
                 s->members[member_index + i] = dup_struct_or_union_member(sub->members[i]);
+                s->members[member_index + i]->offset += member->offset;
             }
 
             member_count += sub_member_count;
-- 
2.43.0


From a8a33a319a0c12014769ecfa202915069fbd1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 42/43] fix: tokens, string literals and struct members that
 reach a fixed limit wrote behind the end of their buffers

---
 cpp.c    | 6 +++---
 lexer.c  | 6 +++---
 parser.c | 4 ++--
 types.c  | 9 ++++-----
 4 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/cpp.c b/cpp.c
index eea0b5a..ad40352 100644
--- a/cpp.c
+++ b/cpp.c
@@ -639,7 +639,7 @@ static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
 
-    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 2);
+    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 4);
 
     if (i[state.ip] == 'L') {
         advance_ip();
@@ -769,10 +769,10 @@ static void cpp_next() {
         }
 
         else if ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_') {
-            char *identifier = wmalloc(1024);
+            char *identifier = wmalloc(MAX_IDENTIFIER_SIZE);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 identifier[j] = i[state.ip];
                 j++;
                 advance_ip();
diff --git a/lexer.c b/lexer.c
index 2666032..b70dcd4 100644
--- a/lexer.c
+++ b/lexer.c
@@ -211,6 +211,8 @@ void lex_single_string_literal(int *size) {
     char *i = input;
 
     while (input_size - ip >= 1 && i[ip] != '"') {
+        if (*size >= MAX_STRING_LITERAL_SIZE - 1) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
+
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
         else if (input_size - ip >= 2 && i[ip] == '\\') {
                  if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
@@ -244,8 +246,6 @@ void lex_single_string_literal(int *size) {
     if (i[ip] != '"') error("Expecting terminating \" in string literal");
     ip++;
 
-    if (*size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-
     data[*size] = 0;
 }
 
@@ -448,7 +448,7 @@ void next(void) {
 
             int j = 0;
             while (((i[ip] >= 'a' && i[ip] <= 'z') || (i[ip] >= 'A' && i[ip] <= 'Z') || (i[ip] >= '0' && i[ip] <= '9') || (i[ip] == '_')) && ip < input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 cur_identifier[j] = i[ip];
                 j++; ip++;
             }
diff --git a/parser.c b/parser.c
index 9a39c62..8530a62 100644
--- a/parser.c
+++ b/parser.c
@@ -270,7 +270,7 @@ Value *make_string_literal_value_from_cur_string_literal(void) {
     value->type = make_array(new_type(cur_string_literal.is_wide_char ? TYPE_INT : TYPE_CHAR), cur_string_literal.size);
     value->string_literal_index = string_literal_count;
     value->is_string_literal = 1;
-    if (string_literal_count > MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
+    if (string_literal_count >= MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
     string_literals[string_literal_count] = cur_string_literal;
 
     // Copy string literal data
@@ -851,7 +851,7 @@ static StructOrUnionMember *add_struct_member(char *identifier, Type *type, Stru
     member->identifier = identifier;
     member->type = dup_type(type);
 
-    if (*member_count == MAX_STRUCT_MEMBERS)
+    if (*member_count == MAX_STRUCT_MEMBERS - 1)
         panic_with_line_number("Exceeded max struct/union members %d", MAX_STRUCT_MEMBERS);
 
     s->members[(*member_count)++] = member;
diff --git a/types.c b/types.c
index 9eb2954..b4fe19e 100644
--- a/types.c
+++ b/types.c
@@ -886,12 +886,11 @@ void flatten_anonymous_structs(StructOrUnion *s) {
             for (StructOrUnionMember **sub_pmember = sub->members; *sub_pmember; sub_pmember++)
                 sub_member_count++;
 
-            if (member_count + sub_member_count == MAX_STRUCT_MEMBERS)
+            if (member_count + sub_member_count > MAX_STRUCT_MEMBERS)
                 panic("Exceeded max struct/union members %d", MAX_STRUCT_MEMBERS);
 
-            // Move the trailing members forward
-            for (int i = 0; i < member_count - member_index - 1; i++)
-                s->members[member_count - i + sub_member_count - 2] = s->members[member_count - i - 1];
+            // Move the trailing members and the terminator
+            memmove(&s->members[member_index + sub_member_count], &s->members[member_index + 1], (member_count - member_index) * sizeof(StructOrUnionMember *));
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
@@ -899,7 +898,7 @@ void flatten_anonymous_structs(StructOrUnion *s) {
                 s->members[member_index + i]->offset += member->offset;
             }
 
-            member_count += sub_member_count;
+            member_count += sub_member_count - 1;
             continue; // Keep going with current pmember & member_index
         }
 
-- 
2.43.0


From bb9691d6b3e9754276cb6c648849be4aadf86d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 43/43] fix: redefining a key of a map behind a deleted entry
 left two entries for it

---
 longmap.c | 11 ++++++++---
 strmap.c  | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..fe3d607 100644
--- a/longmap.c
+++ b/longmap.c
@@ -66,18 +66,23 @@ void longmap_put(LongMap *map, long key, void *value) {
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
 
+    long tombstone_pos = -1; // The first deleted entry, which is reused if the key isn't in the map
     while (1) {
         char status = map->status[pos];
-        if (status != STATUS_USED) {
+        if (status == STATUS_EMPTY) {
+            if (tombstone_pos == -1) map->used_count++;
+            else pos = tombstone_pos;
             map->keys[pos] = key;
             map->values[pos] = value;
             map->status[pos] = STATUS_USED;
             map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
             return;
         }
 
-        if (map->keys[pos] == key) {
+        if (status == STATUS_TOMBSTONE) {
+            if (tombstone_pos == -1) tombstone_pos = pos;
+        }
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
diff --git a/strmap.c b/strmap.c
index 60239e6..485c792 100644
--- a/strmap.c
+++ b/strmap.c
@@ -63,18 +63,23 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int mask = map->size - 1;
     unsigned int pos = hash(key) & mask;
 
+    int tombstone_pos = -1; // The first deleted entry, which is reused if the key isn't in the map
     char *k;
     while (1) {
         k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
+        if (!k) {
+            if (tombstone_pos == -1) map->used_count++;
+            else pos = tombstone_pos;
             map->keys[pos] = key;
             map->values[pos] = value;
             map->element_count++;
-            if (!k) map->used_count++;
             return;
         }
 
-        if (!strcmp(k, key)) {
+        if (k == (char *) TOMBSTONE) {
+            if (tombstone_pos == -1) tombstone_pos = pos;
+        }
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
-- 
2.43.0

