// Specification functions: the C rules for arithmetic types on x86-64 (C89 3.2.1, 3.3), independent of the compiler's code.
// A type is described by a kind (TYPE_CHAR..TYPE_LONG) and a signedness.
#ifndef CSPEC_H
#define CSPEC_H
static int sp_is_int(Type *t) { return t->type == TYPE_CHAR || t->type == TYPE_SHORT || t->type == TYPE_INT || t->type == TYPE_LONG; }
static int sp_is_fp(Type *t) { return t->type == TYPE_FLOAT || t->type == TYPE_DOUBLE || t->type == TYPE_LONG_DOUBLE; }

// The value v converted to the integer type (kind, uns), in the representation constants use: extended to a long
static long sp_conv(int kind, int uns, long v) {
    if (kind == TYPE_CHAR)  return uns ? (long) (unsigned char)  v : (long) (signed char) v;
    if (kind == TYPE_SHORT) return uns ? (long) (unsigned short) v : (long) (short) v;
    if (kind == TYPE_INT)   return uns ? (long) (unsigned int)   v : (long) (int) v;
    return v;
}
static int sp_canonical(Type *t, long v) { return sp_conv(t->type, t->is_unsigned, v) == v; }

// Integer promotion
static int sp_prom_kind(int kind) { return kind == TYPE_CHAR || kind == TYPE_SHORT ? TYPE_INT : kind; }
static int sp_prom_uns(int kind, int uns) { return kind == TYPE_CHAR || kind == TYPE_SHORT ? 0 : uns; }

// Usual arithmetic conversions on two integer types
static int sp_uac_kind(int k1, int k2) { return sp_prom_kind(k1) == TYPE_LONG || sp_prom_kind(k2) == TYPE_LONG ? TYPE_LONG : TYPE_INT; }
static int sp_uac_uns(int k1, int u1, int k2, int u2) {
    int p1 = sp_prom_kind(k1), p2 = sp_prom_kind(k2), q1 = sp_prom_uns(k1, u1), q2 = sp_prom_uns(k2, u2);
    if (p1 == p2) return q1 || q2;
    return p1 == TYPE_LONG ? q1 : q2; // a long holds every unsigned int
}
static int sp_is_shift(int op) { return op == IR_BSHL || op == IR_BSHR || op == IR_ASHR; }
static int sp_is_cmp(int op) { return op == IR_EQ || op == IR_NE || op == IR_LT || op == IR_GT || op == IR_LE || op == IR_GE; }
static int sp_is_logical(int op) { return op == IR_LAND || op == IR_LOR; }

// Type in which the operation is carried out
static int sp_op_kind(int op, int k1, int k2) { return sp_is_shift(op) ? sp_prom_kind(k1) : sp_uac_kind(k1, k2); }
static int sp_op_uns(int op, int k1, int u1, int k2, int u2) { return sp_is_shift(op) ? sp_prom_uns(k1, u1) : sp_uac_uns(k1, u1, k2, u2); }

// Is the behaviour defined? Signed overflow of + - * << is taken to wrap, as gcc's constant folding does.
static int sp_defined(int op, int kind, int uns, long a, long b) {
    long width = kind == TYPE_LONG ? 64 : 32;
    if (op == IR_DIV || op == IR_MOD) {
        if (b == 0) return 0;
        if (!uns && b == -1 && a == (kind == TYPE_LONG ? (long) (1UL << 63) : -2147483648L)) return 0;
    }
    if (sp_is_shift(op)) return b >= 0 && b < width;
    return 1;
}

// a, b already converted to (kind, uns), except that the right operand of a shift is only promoted
static long sp_binop(int op, int kind, int uns, long a, long b) {
    unsigned long r = 0;
    if (op == IR_LAND) return a != 0 && b != 0;
    if (op == IR_LOR)  return a != 0 || b != 0;
    if (op == IR_EQ) return a == b;
    if (op == IR_NE) return a != b;
    if (op == IR_LT) return uns ? (unsigned long) a <  (unsigned long) b : a <  b;
    if (op == IR_GT) return uns ? (unsigned long) a >  (unsigned long) b : a >  b;
    if (op == IR_LE) return uns ? (unsigned long) a <= (unsigned long) b : a <= b;
    if (op == IR_GE) return uns ? (unsigned long) a >= (unsigned long) b : a >= b;
    if (op == IR_ADD) r = (unsigned long) a + (unsigned long) b;
    if (op == IR_SUB) r = (unsigned long) a - (unsigned long) b;
    if (op == IR_MUL) r = kind == TYPE_LONG ? (unsigned long) a * (unsigned long) b : (unsigned long) ((unsigned int) a * (unsigned int) b);
    if (op == IR_DIV) r = kind == TYPE_LONG ? (uns ? (unsigned long) a / (unsigned long) b : (unsigned long) (a / b))
                                             : (uns ? (unsigned long) ((unsigned int) a / (unsigned int) b) : (unsigned long) (long) ((int) a / (int) b));
    if (op == IR_MOD) r = kind == TYPE_LONG ? (uns ? (unsigned long) a % (unsigned long) b : (unsigned long) (a % b))
                                             : (uns ? (unsigned long) ((unsigned int) a % (unsigned int) b) : (unsigned long) (long) ((int) a % (int) b));
    if (op == IR_BAND) r = a & b;
    if (op == IR_BOR)  r = a | b;
    if (op == IR_XOR)  r = a ^ b;
    if (op == IR_BSHL) r = (unsigned long) a << (b & 63);
    if (op == IR_BSHR || op == IR_ASHR) r = uns ? (unsigned long) a >> (b & 63) : (unsigned long) (a >> (b & 63));
    return sp_conv(kind, uns, r);
}
#endif
