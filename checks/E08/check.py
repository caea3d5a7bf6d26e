from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E08', '', [], stages=[families('init', ["gen_init.static_objects(tier, seed)", "gen_init.automatic_objects(tier, seed)"])], level='translation_validation')
