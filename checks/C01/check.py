from vf.core import Obl
from vf.driver import Check
SOLVER = 'z3'

OPS = 'ADD SUB MUL DIV MOD LAND LOR BAND BOR XOR BSHL BSHR ASHR EQ NE LT GT LE GE'.split()
ALLOC = ('new_value', 'new_type', 'dup_type', 'error')
U = ('constexpr.c',)


def check():
    o = []
    for op in OPS:
        if op in ('MUL', 'DIV', 'MOD'):
            for c in range(8):
                o.append(Obl('binary-int-%s-%s%s' % (op, 'u' if c % 2 else '', ('char', 'short', 'int', 'long')[c // 2]), 'constops.c', unit=U, entry='h_bin_int_types', defines=('OP=IR_' + op, 'FIRST=%d' % c, 'LAST=%d' % c), unwind=16,
                     enforce='evaluate_const_binary_int_operation', search=15, solver=SOLVER))
        else:
            o.append(Obl('binary-int-' + op, 'constops.c', unit=U, entry='h_bin_int', defines=('OP=IR_' + op,), enforce='evaluate_const_binary_int_operation', search=15))
    for op in 'BNOT LNOT ADD SUB'.split():
        o.append(Obl('unary-int-' + op, 'constops.c', unit=U, entry='h_un_int', defines=('OP=IR_' + op,),
                     enforce='evaluate_const_unary_int_operation', search=15))
    for op in 'LNOT ADD SUB'.split():
        o.append(Obl('unary-fp-' + op, 'constops.c', unit=U, entry='h_un_fp', defines=('OP=IR_' + op,),
                     enforce='evaluate_const_unary_fp_operation', search=15))
    for op in 'ADD SUB MUL DIV LAND LOR EQ NE LT GT LE GE'.split():
        b = {'MUL': '0xffffc00000000000', 'ADD': '0xffffc00000000000', 'SUB': '0xffffc00000000000', 'DIV': '0xfffc000000000000'}.get(op)
        o.append(Obl('binary-fp-' + op, 'constops.c', unit=U, entry='h_bin_fp', defines=('OP=IR_' + op, *(['FP_MASK=' + b] if b else [])), unwind=16,
                     enforce='evaluate_const_binary_fp_operation', search=15, bounded='operands with at most %d mantissa bits' % (2 if op == 'DIV' else 6) if b else None))
    for s in (0, 1):
        for d in (0, 1):
            for k in ('FLOAT DOUBLE LONG_DOUBLE' if d else 'CHAR SHORT INT LONG').split():
                o.append(Obl('cast-%s-to-%s' % ('fp' if s else 'int', k), 'constops.c', unit=U, entry='h_cast', defines=('SRC_FP=%d' % s, 'DST_FP=%d' % d, 'DST_KIND=TYPE_' + k),
                             enforce='cast_constant_value', search=15))
    o.append(Obl('operation-type', 'constops.c', unit=U, entry='h_operation_type', enforce='operation_type', unwind=16))
    o.append(Obl('promote', 'constops.c', unit=U, entry='h_promote', enforce='integer_promote_type'))
    return Check('C01', '', o)
