'''Bash option patterns and abbreviations.'''

from crazy_complete import bash_patterns, bash_utils, utils
from models import globs
from symx.ctx import Alphabet
from symx.values import sand, sor, snot

NAMES = {
    'digits': Alphabet.of('0129a-'),
    'names': Alphabet.of('ab-1_'),
    'wide': Alphabet.of('abcXYZ0123456789-_.:=+@,%²٣é'),
}


def exact(sx):
    '''make_pattern(strings) matches exactly the given strings.'''
    al = NAMES[sx.params['chars']]
    k = sx.params['k']
    words = [sx.str('w%d' % i, sx.params['n'], 1, al) for i in range(k)]
    text = sx.str('text', sx.params['m'], 1, al)
    p = bash_patterns.make_pattern(words)
    sx.observe(p)
    try:
        pat = globs._bash_seq('@(' + p + ')', 0, False)[0]
    except globs.BadPattern:
        sx.fail('the pattern is not well-formed')
    want = sor(*[text == w for w in words])
    sx.check(globs.matches(pat, text) == want, 'the pattern does not match exactly the given strings')
    sx.cover('done')


def abbreviations(sx):
    '''Every abbreviation belongs to one word only; every unambiguous prefix is one.'''
    kind = sx.params['kind']
    k = sx.params['k']
    al = Alphabet.of('ab-1')
    words = []
    for i in range(k):
        w = sx.str('w%d' % i, sx.params['n'], 1, al)
        if kind == 'options':
            w = '-' + w
            sx.assume(len(w) > 2)
            if w.startswith('--'):
                sx.assume(len(w) > 3)
        for v in words:
            sx.assume(v != w)
        words.append(w)
    if kind == 'options':
        gen = utils.OptionAbbreviationGenerator(words)
        least = 3
    else:
        gen = utils.CommandAbbreviationGenerator(words)
        least = 1
    got = [list(gen.get_abbreviations(w)) for w in words]
    sx.observe(got)
    for w, g in zip(words, got):
        for length in range(1, len(w) + 1):
            a = w[:length]
            ambiguous = sor(*[sand(v != w, v.startswith(a)) for v in words])
            want = sor(length == len(w), sand(length >= least, snot(ambiguous)))
            have = sor(*[x == a for x in g])
            sx.check(have == want, 'wrong set of abbreviations')
        for x in g:
            sx.check(sand(w.startswith(x), len(x) > 0), 'an abbreviation is not a prefix of its word')
    many = gen.get_many_abbreviations(words)
    for g in got:
        for x in g:
            sx.check(sor(*[x == y for y in many]), 'an abbreviation is missing in the combined list')
    sx.check(len(many) == sum(len(g) for g in got), 'the combined list has a wrong size')
    sx.cover('done')
