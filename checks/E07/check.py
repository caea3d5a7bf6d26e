from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E07', '', [], stages=[families('regs', ["gen_rand.keep(tier)", "gen_rand.spilled(tier)", "gen_rand.mixed(tier, seed)"])], level='translation_validation')
