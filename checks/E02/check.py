from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E02', '', [], stages=[families('floating-point', ["gen.fp_binary()", "gen.unary_fp()", "gen.casts_fp()", "gen.casts_const_fp()"], lemmas=True)], level='translation_validation')
