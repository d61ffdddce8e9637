'''Quoting of arbitrary text as literal shell words.'''

from crazy_complete import shell
from models import shwords
from symx.ctx import Alphabet


def quote_one(sx):
    sh = sx.params['shell']
    s = sx.str('s', sx.params['n'], 0, Alphabet.NO_NUL)
    q = shell.quote(s)
    sx.observe(q)
    w = shwords.words(sx, sh, q)
    sx.check(w is not None, f'the quoted text is not a literal word for {sh}')
    sx.check(len(w) == 1, f'{sh} does not read exactly one word')
    sx.check(w[0] == s, f'{sh} reads back a different text')
    if len(s) == sx.params['n']:
        sx.cover('full length')


def join_two(sx):
    sh = sx.params['shell']
    a = sx.str('a', sx.params['n'], 0, Alphabet.NO_NUL)
    b = sx.str('b', sx.params['n'], 0, Alphabet.NO_NUL)
    q = shell.join_quoted([a, b])
    sx.observe(q)
    w = shwords.words(sx, sh, q)
    sx.check(w is not None, f'the joined text is not literal for {sh}')
    sx.check(len(w) == 2, f'{sh} does not read exactly two words')
    sx.check(w[0] == a, f'{sh} reads back a different first word')
    sx.check(w[1] == b, f'{sh} reads back a different second word')
    sx.cover('done')
