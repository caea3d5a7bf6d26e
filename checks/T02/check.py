from vf.core import Obl
from vf.driver import Check

U = ('types.c',)
NOTE = 'at most 4 members; each an object of any size and alignment or a bit-field, so that every position of a member is reached'
L = ('ALIGNMENT_BY_CONTRACT',)


def check():
    o = [Obl('scalars-and-arrays', 'scalars.c', unit=U, entry='h_scalar', enforce='get_type_size', funcs=('get_type_size', 'get_type_alignment'), unwind=6),
         Obl('struct-alignment', 'layout.c', unit=U, entry='h_struct_alignment', enforce='get_type_alignment', unwind=6, bounded=NOTE),
         Obl('struct-layout', 'layout.c', unit=U, entry='h_struct', funcs=('recursive_complete_struct_or_union',), defines=L, unwind=6, unwindset=('recursive_complete_struct_or_union:2',), bounded=NOTE),
         Obl('union-layout', 'layout.c', unit=U, entry='h_union', funcs=('recursive_complete_struct_or_union',), defines=L, unwind=6, unwindset=('recursive_complete_struct_or_union:2',), bounded=NOTE)]
    return Check('T02', '', o)
