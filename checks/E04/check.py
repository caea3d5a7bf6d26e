from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E04', '', [], stages=[families('structs', ["gen_mem.structs(tier, seed)", "gen_mem.bitfields(tier, seed)", "gen_mem.bitfield_places(tier)"])], level='translation_validation')
