from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E06', '', [], stages=[families('flow', ["gen_flow.shapes()", "gen_flow.flow_random(tier, seed)"])], level='translation_validation')
