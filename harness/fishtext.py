'''Text of a definition in the generated Fish script.'''

from crazy_complete import fish, dictionary_source
from harness import bashlines
from models import fishrun
from symx.ctx import Alphabet

NAME = Alphabet.minus(Alphabet.PRINT, ' ,-=?')
COMMAND = Alphabet.of('aB0!"#$%&\'()*+,./:;<=>?@[\\]^_`{|}~')
TEXT = Alphabet.NO_NUL
# Fish separates values by newlines and their descriptions by tabs.
VALUE = Alphabet.minus(Alphabet.NO_NUL, '\n\t')


def entries(sx, defs, words=('prog',), cur='', conf=None):
    cl = dictionary_source.dictionaries_to_commandline(defs)
    script = fish.generate_completion(cl, bashlines.config(conf or {}))
    out = [e for e in fishrun.complete(sx, script, list(words), cur) if e.conditions]
    sx.observe([bool(e.active) for e in out])
    return out


def text(sx, name='t', alphabet=TEXT, lo=1):
    head = sx.choice('head_' + name, sx.params.get('heads', ['']))
    return head + sx.str(name, sx.params.get('n_' + name, sx.params['n']), lo, alphabet)
    return s


def description(sx):
    '''The help text of an option or positional.'''
    t = text(sx)
    if sx.bool('positional'):
        d = {'positionals': [{'number': 1, 'help': t, 'complete': ['choices', ['x']]}]}
    else:
        d = {'options': [{'option_strings': ['-a'], 'help': t}]}
    (e,) = entries(sx, [{'prog': 'prog', **d}])
    sx.check(e.description is not None and e.description == t, 'the description differs')
    sx.check(e.active, 'the entry is not active')
    sx.cover('done')


def names(sx):
    '''The strings of an option, and of one in the same group.'''
    a = sx.choice('dash', ['-', '--']) + text(sx, 'a', NAME)
    b = '--' + text(sx, 'b', NAME)
    sx.assume(a != b)
    o1 = {'option_strings': [a], 'help': 'h', 'groups': ['g']}
    o2 = {'option_strings': [b], 'complete': ['choices', ['x']], 'groups': ['g']}
    stacking = {} if sx.bool('stacking') else {'option_stacking': False}
    given = sx.choice('given', [0, 1, 2])
    words = ['prog'] + ([a] if given == 1 else [b, 'v'] if given == 2 else [])
    got = entries(sx, [{'prog': 'prog', 'options': [o1, o2]}], words, conf=stacking)
    sx.check(len(got) == 2, 'not one entry for each option')
    for e, n in zip(got, (a, b)):
        sx.check(e.strings() == [n], 'the name differs')
        if len(n) == 2:
            sx.check(bool(e.short) == (not stacking), 'a short option is not marked as such')
        else:
            sx.check(bool(e.long) == n.startswith('--'), 'a long option is not marked as such')
    # given options, and those in their group, are not suggested
    sx.check(got[0].active == (given == 0), 'an option is suggested, or not, by mistake')
    sx.check(got[1].active == (given == 0), 'an option is suggested, or not, by mistake')
    sx.cover('done')


def choices(sx):
    '''Values, with and without descriptions, in the entry or in a function.'''
    v = text(sx, 'v', VALUE)
    d = text(sx, 'd', VALUE, lo=0) if sx.bool('described') else None
    items = {'x': 'y', v: d} if d is not None else ['x', v]
    if d is not None:
        sx.assume(v != 'x')
    if sx.bool('long'):
        if d is not None:
            items = {'l' * 90: 'l', **items}
        else:
            items.insert(0, 'l' * 90)
    if sx.bool('positional'):
        dd = {'positionals': [{'number': 1, 'complete': ['choices', items]}]}
    else:
        dd = {'options': [{'option_strings': ['-a'], 'complete': ['choices', items]}]}
    (e,) = entries(sx, [{'prog': 'prog', **dd}])
    want = list(items.items()) if d is not None else [(i, None) for i in items]
    sx.check(len(e.values) == len(want), 'not as many values')
    for g, (wv, wd) in zip(e.values, want):
        if wd is not None:
            sx.check(g == wv + '\t' + wd, 'a value or its description differs')
        else:
            sx.check(g == wv, 'a value differs')
    sx.cover('done')


def commands(sx):
    '''The name of a subcommand, its description and its entries.'''
    c = text(sx, 'c', COMMAND)
    d = text(sx, 'd', VALUE)
    defs = [{'prog': 'prog'}, {'prog': 'prog ' + c, 'help': d, 'options': [{'option_strings': ['-a']}]}]
    inside = sx.bool('inside')
    got = entries(sx, defs, ['prog', c] if inside else ['prog'])
    subs, opts = [e for e in got if not e.strings()], [e for e in got if e.strings()]
    sx.check(len(subs) == 1 and len(opts) == 1, 'not one entry each')
    sx.check(subs[0].active == (not inside), 'the subcommand is offered, or not, by mistake')
    sx.check(opts[0].active == bool(inside), 'the subcommand is not recognised')
    if not inside:
        sx.check(subs[0].values == [c + '\t' + d], 'the name of the subcommand differs')
    sx.cover('done')


def conditions(sx):
    '''Values in a condition.'''
    v = text(sx, 'v', VALUE)
    sx.assume("'" not in v and v[0] != '-')
    kind = sx.choice('kind', ['option', 'positional'])
    given = sx.choice('given', [0, 1])
    other = sx.str('o', len(v), len(v), VALUE) if given else v
    sx.assume(other[0] != '-')
    sx.assume(sx.choice('same', [True, False]) == (other == v))
    cond = "%s '%s'" % ('option_is -b --' if kind == 'option' else 'positional_contains 1', v)
    defs = [{'prog': 'prog', 'options': [{'option_strings': ['-b'], 'complete': ['choices', ['x']]},
                                         {'option_strings': ['-d'], 'when': cond}],
             'positionals': [{'number': 1, 'complete': ['choices', ['x']]}]}]
    words = ['prog'] + (['-b'] if kind == 'option' else []) + [other]
    got = entries(sx, defs, words)
    e = [e for e in got if e.strings() == ['-d']]
    sx.check(len(e) == 1, 'not one entry')
    sx.check(e[0].active == (other == v), 'the condition does not hold, or holds, by mistake')
    sx.cover('done')
