// Contracts of the arithmetic simplifications (ssa.c): the instruction that is left computes, for every value of the
// variable operand, what the original instruction computed.
#include "ssa.c"
#include "vf.h"
#include "../cspec.h"
#include "../contracts.h"

// The meaning of an integer instruction `dst = src1 op src2`, with x as the value of every operand that isn't a constant.
// Both operands have been converted to the type of dst by the parser (obligations in C01 operation-type and E01).
static int in_int_op(int op) {
    return op == IR_ADD || op == IR_SUB || op == IR_MUL || op == IR_DIV || op == IR_MOD || op == IR_BAND || op == IR_BOR || op == IR_XOR || op == IR_BSHL || op == IR_BSHR || op == IR_ASHR;
}
static int sp_operand(Value *v, long x, long *r) {
    if (!v || !v->type || !sp_is_int(v->type)) return 0;
    *r = v->is_constant ? v->int_value : x;
    return v->is_constant ? sp_canonical(v->type, v->int_value) : 1;
}
// 1 if the instruction is well formed and its result is *r
static int sp_meaning(Tac *t, Value *var, long x, long *r) {
    long a, b;
    Type *d = t->dst->type;
    if (t->src1 && !t->src1->is_constant && t->src1 != var) return 0;
    if (t->src2 && !t->src2->is_constant && t->src2 != var) return 0;
    if (!sp_operand(t->src1, x, &a)) return 0;
    if (t->operation == IR_MOVE) { *r = sp_conv(d->type, d->is_unsigned, a); return !t->src2; }
    if (!in_int_op(t->operation) || !sp_operand(t->src2, x, &b)) return 0;
    // constants take the type of the operation, they needn't have it
    if (!t->src1->is_constant && (t->src1->type->type != d->type || t->src1->type->is_unsigned != d->is_unsigned)) return 0;
    int u = d->is_unsigned;
    if (t->operation == IR_BSHR) u = t->src1->type->is_unsigned;
    a = sp_conv(d->type, u, a);
    if (!sp_is_shift(t->operation)) b = sp_conv(d->type, u, b);
    if (!sp_defined(t->operation, d->type, u, a, b)) return 0;
    *r = sp_conv(d->type, d->is_unsigned, sp_binop(t->operation, d->type, u, a, b));
    return 1;
}
static int pre_opt(Tac *t, Value *var, long x) { long r; return sp_meaning(t, var, x, &r); }
static int post_opt(Tac *t, Value *var, long x, long expected) { long r; return sp_meaning(t, var, x, &r) && r == expected; }

void optimize_integer_arithmetic_operation(Tac *tac);
void optimize_floating_point_arithmetic_operation(Tac *tac);

static long in_op, in_const_first, in_x, in_c, in_kind, in_uns;

static void setup(Tac *t, Value *d, Value *var, Value *con, Type *td, Type *tv, Type *tc) {
    Type zt = {0}; Value zv = {0}; Tac zx = {0};
    *t = zx; *d = zv; *var = zv; *con = zv; *td = zt; *tv = zt; *tc = zt;
    td->type = tv->type = tc->type = in_kind;
    td->is_unsigned = tv->is_unsigned = tc->is_unsigned = in_uns;
    d->type = td; d->vreg = 1; var->type = tv; var->vreg = 2; con->type = tc; con->is_constant = 1; con->int_value = sp_conv(in_kind, in_uns, in_c);
    t->operation = in_op; t->dst = d; t->src1 = in_const_first ? con : var; t->src2 = in_const_first ? var : con;
}

#ifndef OP
#define OP IR_MUL
#endif
#ifndef FIRST
#define FIRST 0
#define LAST 64
#endif
// c concrete: 0 and the powers of two (k = 64: zero), the only constants for which the instruction may change
static void int_case(int k, int kind, int uns, int const_first) {
    Tac t; Value d, var, con; Type td, tv, tc;
    long expected;
    in_op = OP; in_const_first = const_first; in_kind = kind; in_uns = uns; in_c = k == 64 ? 0 : sp_conv(kind, uns, 1UL << k);
    if (sp_conv(kind, uns, in_x) != in_x) return;
    if (kind == TYPE_INT && k >= 32 && k < 64) return;   // zero again
    if (const_first && OP != IR_MUL) return;             // see h_int_other_constants
#ifndef VF_KNOWN
    // Known finding mod-pow2: a signed value modulo a power of two is masked, wrong for negative values
    if (OP == IR_MOD && !uns && !in_const_first && in_c > 1 && in_x < 0) return;
#endif
    setup(&t, &d, &var, &con, &td, &tv, &tc);
    if (!sp_meaning(&t, &var, in_x, &expected)) return;
    VF_MUST_ACCEPT();
    optimize_integer_arithmetic_operation(&t);
    VF_POST("the simplified instruction has the same result", post_opt(&t, &var, in_x, expected));
    VF_POST("the destination is kept", t.dst == &d && d.type == &td && td.type == kind && td.is_unsigned == uns && d.vreg == 1);
    VF_REACH();
}
void h_int(void) {
    VF_BEGIN();
    in_x = vf_long();
    long k = vf_range(FIRST, LAST), t = vf_range(0, 7);
    VF_CASES(k1, k, FIRST, LAST, VF_CASES(t1, t, 0, 7, int_case(k1, TYPE_INT + t1 / 4, t1 / 2 % 2, t1 % 2)));
}

// every other constant: the instruction is unchanged
void h_int_other_constants(void) {
    Tac t; Value d, var, con; Type td, tv, tc;
    VF_BEGIN();
    in_op = OP; in_const_first = vf_range(0, 1); in_kind = vf_range(TYPE_INT, TYPE_LONG); in_uns = vf_range(0, 1); in_c = vf_long();
    setup(&t, &d, &var, &con, &td, &tv, &tc);
    long c = con.int_value;
    int rewritten = OP == IR_MUL || (!in_const_first && (OP == IR_DIV || OP == IR_MOD));
    VF_ASSUME(!rewritten || (c & (c - 1)) != 0 || c < 0);
    VF_MUST_ACCEPT();
    optimize_integer_arithmetic_operation(&t);
    VF_POST("the instruction is unchanged", t.operation == OP && t.dst == &d && t.src1 == (in_const_first ? &con : &var) && t.src2 == (in_const_first ? &var : &con)
        && con.is_constant && con.int_value == c && con.type == &tc && tc.type == in_kind && tc.is_unsigned == in_uns && d.type == &td && var.type == &tv && !var.is_constant);
    VF_REACH();
}

// Instructions that are not arithmetic on a constant are left alone
void h_int_frame(void) {
    Tac t, before; Value d, a, b; Type td, ta, tb; Value zv = {0}; Type zt = {0}; Tac zx = {0};
    VF_BEGIN();
    t = zx; d = zv; a = zv; b = zv; td = zt; ta = zt; tb = zt;
    t.operation = vf_range(1, 300); in_kind = vf_range(TYPE_CHAR, TYPE_LONG);
    long c1 = vf_range(0, 1), c2 = vf_range(0, 1), has1 = vf_range(0, 1), has2 = vf_range(0, 1), l = vf_long(), m = vf_long();
    td.type = ta.type = tb.type = in_kind; ta.is_unsigned = tb.is_unsigned = td.is_unsigned = vf_range(0, 1);
    d.type = &td; a.type = &ta; b.type = &tb; a.is_constant = c1; b.is_constant = c2; if (c1) a.int_value = l; if (c2) b.int_value = m;
    t.dst = &d; if (has1) t.src1 = &a; if (has2) t.src2 = &b;
    int arith = t.operation == IR_MUL || t.operation == IR_DIV || t.operation == IR_MOD;
    VF_ASSUME(!arith || (has1 && has2 && c1 == c2));
    before = t;
    VF_MUST_ACCEPT();
    optimize_integer_arithmetic_operation(&t);
    VF_POST("other instructions are unchanged", t.operation == before.operation && t.dst == before.dst && t.src1 == before.src1 && t.src2 == before.src2
        && a.is_constant == c1 && b.is_constant == c2 && ta.type == in_kind && tb.type == in_kind && (!c1 || a.int_value == l) && (!c2 || b.int_value == m));
    VF_REACH();
}

// ---------------------------------------------------------------- floating point: * 1.0 and / 1.0 are the operand; * 0.0 is a known finding
static double in_fc;
void h_fp(void) {
    Tac t; Value d, var, con; Type td, tv, tc;
    VF_BEGIN();
    in_op = OP; in_const_first = vf_range(0, 1); in_kind = vf_range(TYPE_FLOAT, TYPE_LONG_DOUBLE); in_uns = 0; in_c = 0; in_fc = vf_double();
    setup(&t, &d, &var, &con, &td, &tv, &tc);
    con.fp_value = in_fc;
#ifndef VF_KNOWN
    // Known finding fp-mul-zero
    VF_ASSUME(!(OP == IR_MUL && in_fc == 0));
#endif
    VF_MUST_ACCEPT();
    optimize_floating_point_arithmetic_operation(&t);
    Value *s1 = in_const_first ? &con : &var, *s2 = in_const_first ? &var : &con;
    if (t.operation == IR_MOVE) {
        VF_POST("only a product with 1 or a quotient by 1 is replaced by the operand", t.src1 == &var && !t.src2 && in_fc == 1.0 && ((OP == IR_MUL) || (OP == IR_DIV && !in_const_first)));
    } else {
        VF_POST("the instruction is unchanged", t.operation == OP && t.src1 == s1 && t.src2 == s2 && con.is_constant && (con.fp_value == in_fc || in_fc != in_fc));
    }
    VF_POST("the destination is kept", t.dst == &d && d.type == &td && td.type == in_kind);
    VF_REACH();
}
