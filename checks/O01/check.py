from vf.core import Obl
from vf.driver import Check

U = ('ssa.c',)


def check():
    o = []
    for op in 'ADD SUB BAND BOR XOR BSHL BSHR ASHR MUL DIV MOD'.split():
        o.append(Obl('int-%s-other' % op, 'arith.c', unit=U, entry='h_int_other_constants', defines=('OP=IR_' + op,), enforce='optimize_integer_arithmetic_operation', unwind=66, search=10))
    for op in 'MUL DIV MOD'.split():
        for a, b in ((0, 3), (4, 7), (8, 11), (12, 15), (16, 19), (20, 23), (24, 27), (28, 31), (32, 39), (40, 47), (48, 55), (56, 64)):
            o.append(Obl('int-%s-pow2-%d-%d' % (op, a, b), 'arith.c', unit=U, entry='h_int', defines=('OP=IR_' + op, 'FIRST=%d' % a, 'LAST=%d' % b), enforce='optimize_integer_arithmetic_operation', unwind=66, search=20, solver='z3', timeout=280))
    o.append(Obl('int-others', 'arith.c', unit=U, entry='h_int_frame', enforce='optimize_integer_arithmetic_operation', unwind=66, search=10))
    for op in 'ADD SUB MUL DIV'.split():
        o.append(Obl('fp-' + op, 'arith.c', unit=U, entry='h_fp', defines=('OP=IR_' + op,), enforce='optimize_floating_point_arithmetic_operation', search=10))
    return Check('O01', '', o, assumptions=['both operands of an arithmetic instruction have the type of its result (established by the parser, see C01 operation-type and E01)'])
