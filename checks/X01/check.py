from vf.core import Obl
from vf.driver import Check

U = ('lexer.c',)
BODY = ('lex_non_hex_literal', 'lex_hex_literal', 'lex_string_literal', 'finish_integer_constant')


def check():
    def t(name, entry, f, n, unwind, bound, *defs, body=BODY, **k):
        return Obl(name, 'tokens.c', unit=U, entry=entry, funcs=(f,), defines=('LEN=%d' % n, *defs), unwind=unwind, bounded=bound, body=body, **k)
    o = [t('integer-suffix', 'h_suffix', 'finish_integer_constant', 5, 8, None),
         *[t('decimal-%d' % i, 'h_decimal', 'lex_non_hex_literal', 25, 27, None, 'FIRST=%d' % f, 'LAST=%d' % l, solver='z3', checks=['--no-standard-checks']) for i, (f, l) in enumerate(((1, 5), (6, 9), (10, 12), (13, 14), (19, 19), (20, 20)))],
         t('octal', 'h_number', 'lex_non_hex_literal', 26, 29, 'constants of at most 26 characters', 'BASE=8'),
         t('hexadecimal', 'h_number', 'lex_hex_literal', 22, 25, 'constants of at most 22 characters', 'BASE=16'),
         t('floating', 'h_floating', 'lex_non_hex_literal', 9, 12, 'constants of at most 9 characters'),
         *[t('character' + '-wide' * w, 'h_char', 'next', 10, 13, 'hexadecimal escape sequences of at most 6 digits', 'WIDE=%d' % w) for w in (0, 1)],
         *[t('string' + '-wide' * w, 'h_string', 'lex_single_string_literal', 5, 8, 'literals of at most 5 characters in the source', 'WIDE=%d' % w, tier='thorough' if w else 'quick', timeout=900 if w else 300) for w in (0, 1)],
         *[t('token-%d' % i, 'h_dispatch', 'next', 4, 90, None, 'FIRST=%d' % f, 'LAST=%d' % l, body=()) for i, (f, l) in enumerate(((1, 39), (40, 59), (60, 64), (91, 127)))],
         *[t('identifier-%d' % i, 'h_identifier', 'next', 14, 60, 'identifiers of at most 14 characters (longer than any keyword)', 'FIRST=%d' % f, 'LAST=%d' % l, body=()) for i, (f, l) in enumerate(((65, 90), (95, 95), (97, 104), (105, 114), (115, 122)))],
         *[t('string%s' % n, 'h_string', 'lex_single_string_literal', l, l + 3, 'literals of at most %d characters in the source' % l, 'WIDE=%d' % w, tier='thorough', timeout=1500) for n, w, l in (('-6', 0, 6),)],
         t('long-identifier', 'h_long_identifier', 'next', 4, 14, 'with the size of the buffer set to 8', body=BODY, consts={'MAX_IDENTIFIER_SIZE': 8}),
         t('long-string', 'h_long_string', 'next', 4, 14, 'with the size of the buffer set to 8', body=BODY, consts={'MAX_STRING_LITERAL_SIZE': 8}),
         t('white-space', 'h_space', 'skip_whitespace', 6, 9, 'at most 6 white space characters')]
    return Check('X01', '', o)
