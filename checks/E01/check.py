from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E01', '', [], stages=[families('integers', ["gen.int_binary(gen.ARITH + gen.CMP + gen.LOG, tier)", "gen.unary_int()", "gen.casts_int()", "gen.casts_const_int()", "gen.const_expr()"])], level='translation_validation')
