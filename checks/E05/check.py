from vf.driver import Check
from vf.asmstage import families

FAMS = ["gen_call.conversions()", "gen_call.structures()"] + ["gen_call.%s(tier, seed)" % x for x in ('callers', 'callees', 'varargs', 'pointers', 'sequences')]


def check():
    return Check('E05', '', [], stages=[families('calls', FAMS)], level='translation_validation')
