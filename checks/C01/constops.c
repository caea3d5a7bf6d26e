#include "constexpr.c"
#include "vf.h"
#include "../cspec.h"
#include "../contracts.h"

// ---------------------------------------------------------------- contracts: types of operations

static int pre_arith(Type *t) { return t && (sp_is_int(t) || sp_is_fp(t)) && !t->target && !t->function; }
static int pre_int(Type *t) { return t && sp_is_int(t) && !t->target && !t->function; }

static int post_same(Type *r, Type *t) { return r && r->type == t->type && r->is_unsigned == t->is_unsigned && !r->target && !r->function; }
Type *dup_type(Type *src)
VF_CONTRACT(__CPROVER_requires(pre_arith(src))
    __CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, sizeof(Type)) && post_same(__CPROVER_return_value, src))
    __CPROVER_assigns());

static int post_promoted(Type *r, Type *t) { return r && r->type == sp_prom_kind(t->type) && r->is_unsigned == sp_prom_uns(t->type, t->is_unsigned) && !r->target && !r->function; }
Type *integer_promote_type(Type *type)
VF_CONTRACT(__CPROVER_requires(pre_int(type))
    __CPROVER_ensures(__CPROVER_pointer_in_range_dfcc(type, __CPROVER_return_value, type) || __CPROVER_is_fresh(__CPROVER_return_value, sizeof(Type)))
    __CPROVER_ensures(post_promoted(__CPROVER_return_value, type))
    __CPROVER_assigns());

// Type of an operation on two arithmetic operands: the usual arithmetic conversions
static int sp_common_kind(Type *a, Type *b) {
    if (a->type == TYPE_LONG_DOUBLE || b->type == TYPE_LONG_DOUBLE) return TYPE_LONG_DOUBLE;
    if (a->type == TYPE_DOUBLE || b->type == TYPE_DOUBLE) return TYPE_DOUBLE;
    if (a->type == TYPE_FLOAT || b->type == TYPE_FLOAT) return TYPE_FLOAT;
    return sp_uac_kind(a->type, b->type);
}
static int sp_common_uns(Type *a, Type *b) {
    return sp_is_fp(a) || sp_is_fp(b) ? 0 : sp_uac_uns(a->type, a->is_unsigned, b->type, b->is_unsigned);
}
static int post_common(Type *r, Type *a, Type *b) {
    return r && r->type == sp_common_kind(a, b) && r->is_unsigned == sp_common_uns(a, b) && !r->target && !r->function;
}
Type *operation_type(Value *src1, Value *src2, int for_ternary)
VF_CONTRACT(__CPROVER_requires(pre_arith(src1->type) && pre_arith(src2->type))
    __CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, sizeof(Type)) && post_common(__CPROVER_return_value, src1->type, src2->type))
    __CPROVER_assigns());

#ifdef VF_PLAIN
Type *vfc_dup_type(Type *src) { VF_CHECK("precondition of dup_type", pre_arith(src)); Type *r = malloc(sizeof(Type)); *r = *src; return r; }
Type *vfc_integer_promote_type(Type *t) {
    VF_CHECK("precondition of integer_promote_type", pre_int(t));
    Type *r = vfc_new_type(0); r->type = sp_prom_kind(t->type); r->is_unsigned = sp_prom_uns(t->type, t->is_unsigned); return r;
}
Type *vfc_operation_type(Value *a, Value *b, int for_ternary) {
    VF_CHECK("precondition of operation_type", pre_arith(a->type) && pre_arith(b->type));
    Type *r = vfc_new_type(0); r->type = sp_common_kind(a->type, b->type); r->is_unsigned = sp_common_uns(a->type, b->type); return r;
}
#endif

// ---------------------------------------------------------------- contracts: operators on constants

static int pre_iconst(Value *v) { return v && pre_int(v->type) && v->is_constant && sp_canonical(v->type, v->int_value); }
static int pre_fconst(Value *v) { return v && v->type && sp_is_fp(v->type) && v->is_constant; }

static int pre_bin_int(int op, Value *a, Value *b) {
    if (!pre_iconst(a) || !pre_iconst(b)) return 0;
    int k = a->type->type, l = b->type->type, u = a->type->is_unsigned, v = b->type->is_unsigned;
    int ok = sp_op_kind(op, k, l), ou = sp_op_uns(op, k, u, l, v);
    return sp_defined(op, ok, ou, sp_conv(ok, ou, a->int_value), sp_is_shift(op) ? b->int_value : sp_conv(ok, ou, b->int_value));
}
static int post_bin_int(Value *r, int op, Type *at, Type *bt, long av, long bv) {
    int k = at->type, l = bt->type, u = at->is_unsigned, v = bt->is_unsigned;
    if (!r || !r->type || !r->is_constant) return 0;
    int ok = sp_op_kind(op, k, l), ou = sp_op_uns(op, k, u, l, v);
    int rk = sp_is_cmp(op) || sp_is_logical(op) ? TYPE_INT : ok, ru = sp_is_cmp(op) || sp_is_logical(op) ? 0 : ou;
    if (r->type->type != rk || r->type->is_unsigned != ru) return 0;
    long x = sp_conv(ok, ou, av), y = sp_is_shift(op) ? bv : sp_conv(ok, ou, bv);
    return r->int_value == sp_binop(op, ok, ou, x, y);
}
Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2)
VF_CONTRACT(__CPROVER_requires(pre_bin_int(operation, src1, src2))
    __CPROVER_ensures(post_bin_int(__CPROVER_return_value, operation, src1->type, src2->type, __CPROVER_old(src1->int_value), __CPROVER_old(src2->int_value)))
    __CPROVER_assigns());

static int post_un_int(Value *r, int op, Type *t, long v) {
    if (!r || !r->type || !r->is_constant) return 0;
    int k = sp_prom_kind(t->type), u = sp_prom_uns(t->type, t->is_unsigned);
    if (op == IR_LNOT) return r->type->type == TYPE_INT && !r->type->is_unsigned && r->int_value == (v == 0);
    return r->type->type == k && r->type->is_unsigned == u
        && r->int_value == sp_conv(k, u, op == IR_BNOT ? ~v : op == IR_SUB ? (long) (0UL - (unsigned long) v) : v);
}
Value *evaluate_const_unary_int_operation(int operation, Value *value)
VF_CONTRACT(__CPROVER_requires(pre_iconst(value) && (operation == IR_BNOT || operation == IR_LNOT || operation == IR_ADD || operation == IR_SUB))
    __CPROVER_ensures(post_un_int(__CPROVER_return_value, operation, value->type, __CPROVER_old(value->int_value)))
    __CPROVER_assigns());

static int sp_same_fp(long double a, long double b) { return a == b || (a != a && b != b); }
static int post_un_fp(Value *r, int op, Value *v) {
    if (!r || !r->type || !r->is_constant) return 0;
    if (op == IR_LNOT) return r->type->type == TYPE_INT && !r->type->is_unsigned && r->int_value == (v->fp_value == 0);
    return r->type->type == v->type->type && sp_same_fp(r->fp_value, op == IR_SUB ? -v->fp_value : v->fp_value);
}
Value *evaluate_const_unary_fp_operation(int operation, Value *value)
VF_CONTRACT(__CPROVER_requires(pre_fconst(value) && (operation == IR_LNOT || operation == IR_ADD || operation == IR_SUB))
    __CPROVER_ensures(post_un_fp(__CPROVER_return_value, operation, value))
    __CPROVER_assigns());

static int sp_fp_int_result(int op) { return sp_is_cmp(op) || sp_is_logical(op); }
static int post_bin_fp(Value *r, int op, Value *a, Value *b, Type *type) {
    long double x = a->fp_value, y = b->fp_value;
    if (!r || !r->type || !r->is_constant) return 0;
    if (sp_fp_int_result(op)) {
        int e = op == IR_EQ ? x == y : op == IR_NE ? !(x == y) : op == IR_LT ? x < y : op == IR_GT ? x > y : op == IR_LE ? x <= y : op == IR_GE ? x >= y :
                op == IR_LAND ? !(x == 0) && !(y == 0) : !(x == 0) || !(y == 0);
        return r->type->type == TYPE_INT && !r->type->is_unsigned && r->int_value == e;
    }
    return r->type->type == type->type && sp_same_fp(r->fp_value, op == IR_ADD ? x + y : op == IR_SUB ? x - y : op == IR_MUL ? x * y : x / y);
}
static int pre_bin_fp(int op, Value *a, Value *b, Type *type) {
    return pre_fconst(a) && pre_fconst(b) && type && sp_is_fp(type) && a->type->type == type->type && b->type->type == type->type
        && (sp_fp_int_result(op) || op == IR_ADD || op == IR_SUB || op == IR_MUL || op == IR_DIV);
}
Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type)
VF_CONTRACT(__CPROVER_requires(pre_bin_fp(operation, src1, src2, type))
    __CPROVER_ensures(post_bin_fp(__CPROVER_return_value, operation, src1, src2, type))
    __CPROVER_assigns());

// ---------------------------------------------------------------- contracts: casts of constants

static int sp_fits(int kind, int uns, long double x) {
    // the value with its fraction dropped is representable in the integer type
    if (kind == TYPE_CHAR)  return uns ? x > -1 && x < 256 : x > -129 && x < 128;
    if (kind == TYPE_SHORT) return uns ? x > -1 && x < 65536 : x > -32769 && x < 32768;
    if (kind == TYPE_INT)   return uns ? x > -1 && x < 4294967296.0L : x > -2147483649.0L && x < 2147483648.0L;
    return uns ? x > -1 && x < 18446744073709551616.0L : x > -9223372036854775809.0L && x < 9223372036854775808.0L;
}
static long sp_trunc(int kind, int uns, long double x) { return kind == TYPE_LONG && uns ? (x < 0 ? 0 : (long) (unsigned long) x) : (long) x; }
static long double sp_round(int kind, long double x) { return kind == TYPE_FLOAT ? (long double) (float) x : kind == TYPE_DOUBLE ? (long double) (double) x : x; }

static int pre_cast(Value *s, Type *d) {
    if (!d || !(sp_is_int(d) || sp_is_fp(d)) || d->target || d->function) return 0;
    if (!s || !s->type || s->type->target || s->type->function || !s->is_constant) return 0;
    if (sp_is_int(s->type)) return sp_canonical(s->type, s->int_value);
    if (!sp_is_fp(s->type)) return 0;
    return sp_is_fp(d) || sp_fits(d->type, d->is_unsigned, s->fp_value);
}
static int post_cast(Value *r, Value *s, Type *d) {
    if (!r || !r->type || !r->is_constant || r->type->type != d->type || r->type->is_unsigned != d->is_unsigned) return 0;
    if (sp_is_int(s->type) && sp_is_int(d)) return r->int_value == sp_conv(d->type, d->is_unsigned, s->int_value);
    if (sp_is_int(d)) return r->int_value == sp_trunc(d->type, d->is_unsigned, s->fp_value);
    if (sp_is_int(s->type)) return r->fp_value == sp_round(d->type, s->type->is_unsigned ? (long double) (unsigned long) s->int_value : (long double) s->int_value);
    // a constant of the destination type is already in it
    return sp_same_fp(r->fp_value, sp_round(d->type, s->fp_value)) || (s->type->type == d->type && sp_same_fp(r->fp_value, s->fp_value));
}
Value *cast_constant_value(Value *src, Type *dst_type)
VF_CONTRACT(__CPROVER_requires(pre_cast(src, dst_type))
    __CPROVER_ensures(post_cast(__CPROVER_return_value, src, dst_type))
    __CPROVER_assigns());

// ---------------------------------------------------------------- harnesses

static void make_type(Type *t, int lo, int hi) {
    Type blank_type = {0}; *t = blank_type;
    t->type = vf_range(lo, hi);
    t->is_unsigned = t->type >= TYPE_FLOAT ? 0 : vf_range(0, 1);
    t->is_const = vf_range(0, 1);
}
static void make_int(Value *v, Type *t) {
    Value blank_value = {0}; *v = blank_value;
    make_type(t, TYPE_CHAR, TYPE_LONG);
    v->type = t;
    v->int_value = sp_conv(t->type, t->is_unsigned, vf_long());
    v->is_constant = 1;
}
static void make_fp(Value *v, Type *t) {
    Value blank_value = {0}; *v = blank_value;
    make_type(t, TYPE_FLOAT, TYPE_LONG_DOUBLE);
    v->type = t;
    v->fp_value = vf_double();
    v->is_constant = 1;
}

#ifndef OP
#define OP IR_ADD
#endif

void h_bin_int(void) {
    Type ta, tb; Value a, b;
    VF_BEGIN();
    make_int(&a, &ta); make_int(&b, &tb);
    VF_PRE(pre_bin_int(OP, &a, &b));
    long av = a.int_value, bv = b.int_value;
    VF_MUST_ACCEPT();
    Value *r = evaluate_const_binary_int_operation(OP, &a, &b);
    VF_POST("value and type of the constant operation", post_bin_int(r, OP, &ta, &tb, av, bv));
    VF_REACH();
}

// One case per pair of operand types (the types concrete, the values symbolic)
static long in_a, in_b; static double in_fa, in_fb;
static void bin_int_case(int k1, int u1, int k2, int u2) {
    Type zt = {0}, ta, tb; Value zv = {0}, a, b;
    ta = zt; tb = zt; a = zv; b = zv;
    long av = sp_conv(k1, u1, in_a), bv = sp_conv(k2, u2, in_b);
    ta.type = k1; ta.is_unsigned = u1; tb.type = k2; tb.is_unsigned = u2;
    a.type = &ta; b.type = &tb; a.is_constant = b.is_constant = 1; a.int_value = av; b.int_value = bv;
    if (!pre_bin_int(OP, &a, &b)) return;
    VF_MUST_ACCEPT();
    Value *r = evaluate_const_binary_int_operation(OP, &a, &b);
    VF_POST("value and type of the constant operation", post_bin_int(r, OP, &ta, &tb, av, bv));
    VF_REACH();
}
#ifndef FIRST
#define FIRST 0
#define LAST 7
#endif
void h_bin_int_types(void) {
    VF_BEGIN();
    in_a = vf_long(); in_b = vf_long();
    long c1 = vf_range(FIRST, LAST), c2 = vf_range(0, 7);
    VF_CASES(k1, c1, FIRST, LAST, VF_CASES(k2, c2, 0, 7, bin_int_case(TYPE_CHAR + k1 / 2, k1 % 2, TYPE_CHAR + k2 / 2, k2 % 2)));
}

void h_un_int(void) {
    Type ta; Value a;
    VF_BEGIN();
    make_int(&a, &ta);
    long av = a.int_value;
    VF_MUST_ACCEPT();
    Value *r = evaluate_const_unary_int_operation(OP, &a);
    VF_POST("value and type of the constant operation", post_un_int(r, OP, &ta, av));
    VF_REACH();
}

void h_un_fp(void) {
    Type ta; Value a;
    VF_BEGIN();
    make_fp(&a, &ta);
    VF_MUST_ACCEPT();
    Value *r = evaluate_const_unary_fp_operation(OP, &a);
    VF_POST("value and type of the constant operation", post_un_fp(r, OP, &a));
    VF_REACH();
}

void h_bin_fp(void) {
    Type zt = {0}, ta, tb; Value zv = {0}, a, b;
    VF_BEGIN();
    ta = zt; tb = zt; a = zv; b = zv;
#ifdef FP_MASK  // bounded stand-in: only the top mantissa bits may be set
    union { long l; double d; } fa, fb; fa.l = vf_long() & FP_MASK; fb.l = vf_long() & FP_MASK; a.fp_value = fa.d; b.fp_value = fb.d;
#else
    a.fp_value = vf_double(); b.fp_value = vf_double();
#endif
    ta.type = tb.type = vf_range(TYPE_FLOAT, TYPE_LONG_DOUBLE);
    a.type = &ta; b.type = &tb; a.is_constant = b.is_constant = 1;
    VF_MUST_ACCEPT();
    Value *r = evaluate_const_binary_fp_operation(OP, &a, &b, &ta);
    VF_POST("value and type of the constant operation", post_bin_fp(r, OP, &a, &b, &ta));
    VF_REACH();
}

#ifndef SRC_FP
#define SRC_FP 0
#endif
#ifndef DST_FP
#define DST_FP 0
#endif
void h_cast(void) {
    Type ta, td; Value a;
    VF_BEGIN();
    if (SRC_FP) make_fp(&a, &ta); else make_int(&a, &ta);
    if (DST_FP) make_type(&td, TYPE_FLOAT, TYPE_LONG_DOUBLE); else make_type(&td, TYPE_CHAR, TYPE_LONG);
#ifdef DST_KIND
    VF_ASSUME(td.type == DST_KIND);
#endif
    VF_PRE(pre_cast(&a, &td));
    VF_MUST_ACCEPT();
    Value *r = cast_constant_value(&a, &td);
    VF_POST("value and type of the cast constant", post_cast(r, &a, &td));
    VF_REACH();
}

static int in_const, in_volatile, in_c1, in_c2, in_tern; static long in_v1, in_v2;
static void operation_type_case(int k1, int u1, int k2, int u2) {
    Type zt = {0}, ta, tb; Value zv = {0}, a, b;
    ta = zt; tb = zt; a = zv; b = zv;
    ta.type = k1; ta.is_unsigned = u1; tb.type = k2; tb.is_unsigned = u2;
    ta.is_const = in_const; tb.is_volatile = in_volatile;
    a.type = &ta; b.type = &tb;
    a.is_constant = in_c1; b.is_constant = in_c2; a.int_value = in_v1; b.int_value = in_v2;
    VF_MUST_ACCEPT();
    Type *r = operation_type(&a, &b, in_tern);
    VF_POST("common type of the operands", post_common(r, &ta, &tb));
    VF_REACH();
}
void h_operation_type(void) {
    VF_BEGIN();
    in_tern = vf_range(0, 1); in_const = vf_range(0, 1); in_volatile = vf_range(0, 1); in_c1 = vf_range(0, 1); in_c2 = vf_range(0, 1);
    in_v1 = vf_long(); in_v2 = vf_long();
    long c1 = vf_range(0, 13), c2 = vf_range(0, 13);
    VF_CASES(k1, c1, 0, 13, VF_CASES(k2, c2, 0, 13,
        int s1 = k1 % 7, s2 = k2 % 7;
        if ((s1 < 4 || k1 < 7) && (s2 < 4 || k2 < 7)) operation_type_case(TYPE_CHAR + s1, k1 / 7, TYPE_CHAR + s2, k2 / 7);
    ));
}

void h_promote(void) {
    Type ta;
    VF_BEGIN();
    make_type(&ta, TYPE_CHAR, TYPE_LONG);
    VF_MUST_ACCEPT();
    Type *r = integer_promote_type(&ta);
    VF_POST("promoted type", post_promoted(r, &ta));
    VF_REACH();
}
