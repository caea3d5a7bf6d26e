from vf.core import Obl
from vf.driver import Check

L, T = ('longmap.c',), ('strmap.c',)


def check():
    o = []
    for f, u, src, fs in (('longmap', L, 'long_maps.c', ('get', 'put', 'delete', 'copy', 'empty', 'iterate', 'new', 'rehash')), ('strmap', T, 'str_maps.c', ('get', 'put', 'delete', 'iterate', 'new', 'rehash'))):
        for x in fs:
            fn = {'iterate': f + '_iterator_next', 'new': 'new_' + f, 'rehash': 'maybe_rehash'}.get(x, f + '_' + x)
            for s in ((4, 8) if x != 'new' else (16,)):
                o.append(Obl('%s-%s%s' % (f, x, '-8' * (s == 8)), src, unit=u, entry='h_' + x, funcs=(fn,), defines=('SZ=%d' % s,), unwind=2 * s + 1, body=('maybe_rehash',) if x == 'rehash' else (), tier='thorough' if s == 8 else 'quick', timeout=900 if s == 8 else 300,
                             bounded=None if x == 'new' else 'maps of %d places, any contents (an inductive invariant, for any history)' % s))
    for x, fs in (('union', ('set_union', 'set_union_to')), ('intersection', ('set_intersection', 'set_intersection_to')), ('difference', ('set_difference', 'set_difference_to')),
                  ('set', ('set_len', 'set_eq', 'copy_set', 'copy_set_to', 'delete_from_set', 'cache_set_elements', 'empty_set', 'new_set'))):
        o.append(Obl('set-' + x, 'sets.c', unit=('set.c',), entry='h_' + x, funcs=fs, defines=('SETS',), unwind=8, bounded='sets of values up to 5'))
    o.append(Obl('stack', 'sets.c', unit=('stack.c',), entry='h_stack', funcs=('push_onto_stack', 'pop_from_stack', 'stack_top'), defines=('STACKS',), unwind=2, consts={'MAX_STACK_SIZE': 8}, bounded='with room for 8 elements'))
    o.append(Obl('list', 'sets.c', unit=('list.c',), entry='h_list', funcs=('append_to_list', 'new_list'), defines=('LISTS',), unwind=8, bounded='lists of at most 6 elements'))
    return Check('M01', '', o)
