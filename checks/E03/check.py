from vf.driver import Check
from vf.asmstage import families


def check():
    return Check('E03', '', [], stages=[families('pointers', ["gen_mem.pointers(tier)"])], level='translation_validation')
