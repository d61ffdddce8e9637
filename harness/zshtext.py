'''Text of a definition in the generated Zsh script.'''

from crazy_complete import zsh, dictionary_source
from harness import bashlines
from models import zshrun, zshspec
from symx.ctx import Alphabet

# A name with one of these can't be written in a specification of _arguments.
NAME = Alphabet.minus(Alphabet.PRINT, ' ,[)\\:=+-?')
COMMAND = Alphabet.of('aB0!"#$%&\'()*+,./:;<=>?@[\\]^_`{|}~')
TEXT = Alphabet.NO_NUL


def generated(defs, conf=None):
    cl = dictionary_source.dictionaries_to_commandline(defs)
    c = bashlines.config(conf or {})
    c.set_zsh_compdef(False)
    return zsh.generate_completion(cl, c)


def specs(sx, defs, words=('prog', ''), conf=None):
    script = generated(defs, conf)
    calls = zshrun.arguments(sx, script, list(words))
    sx.observe([list(a) for a in calls])
    sx.check(len(calls) == 1, 'not exactly one call of _arguments')
    out = []
    for a in calls[0]:
        if isinstance(a, str) and a in ('-S', '-s', '-w'):
            continue
        try:
            out.append(zshspec.decode(a))
        except zshspec.Malformed:
            sx.fail('a malformed specification')
    return script, out


def values(sx, script, spec):
    try:
        return zshspec.values(spec.args[0][2], zshspec.decode_words, lambda f: zshrun.describe(sx, script, f))
    except zshspec.Malformed:
        sx.fail('a malformed list of values')


def text(sx, name='t', alphabet=TEXT, lo=1):
    head = sx.choice('head_' + name, sx.params.get('heads', ['']))
    s = head + sx.str(name, sx.params['n'], lo, alphabet)
    sx.known('zsh-several-lines', '\n' in s)
    return s


def description(sx):
    '''The help text of an option.'''
    t = text(sx)
    o = {'option_strings': ['-a'], 'help': t}
    if sx.bool('arg'):
        o['complete'] = ['none']
    _script, (spec,) = specs(sx, [{'prog': 'prog', 'options': [o]}])
    sx.check(spec.desc == t, 'the description differs')
    sx.check(spec.name == '-a', 'the name differs')
    sx.cover('done')


def metavar(sx):
    '''The metavar of an option and of a positional.'''
    t = text(sx)
    if sx.bool('positional'):
        d = {'positionals': [{'number': 1, sx.choice('key', ['metavar', 'help']): t, 'complete': ['choices', ['x']]}]}
    else:
        d = {'options': [{'option_strings': ['-a'], 'metavar': t, 'complete': ['choices', ['x']]}]}
    script, (spec,) = specs(sx, [{'prog': 'prog', **d}])
    sx.check(len(spec.args) == 1, 'not one argument')
    # a backslash in front of a colon or at the end, or a '*' at the beginning, can't be expressed
    if not (t[-1] == '\\' or '\\:' in t or t[0] == '*'):
        sx.check(spec.args[0][1] == t, 'the metavar differs')
    sx.check([v for v, _d in values(sx, script, spec)] == ['x'], 'the values differ')
    sx.cover('done')


def names(sx):
    '''The strings of an option, and of one in the same group.'''
    a = sx.choice('dash', ['-', '--']) + text(sx, 'a', NAME)
    b = '--' + text(sx, 'b', NAME)
    sx.assume(a != b)
    same = sx.bool('same')
    o1 = {'option_strings': [a], 'help': 'h', 'groups': ['g']}
    o2 = {'option_strings': [b], 'complete': ['choices', ['x']], 'groups': ['g']}
    if same:
        o1['option_strings'].append(b)
        del o1['groups']
        opts = [o1]
    else:
        opts = [o1, o2]
    script, got = specs(sx, [{'prog': 'prog', 'options': opts}])
    sx.check(len(got) == 2, 'not one specification for each name')
    for n in (a, b):
        found = [s for s in got if s.name == n]
        sx.check(len(found) == 1, 'an option is missing')
        s = found[0]
        sx.check(len(s.excl) == 2 and all(any(e == m for e in s.excl) for m in (a, b)), 'an option excludes the wrong ones')
        if not same and n == b:
            sx.check([v for v, _d in values(sx, script, s)] == ['x'], 'the values differ')
        else:
            sx.check(s.desc == 'h', 'the description differs')
    sx.cover('done')


def choices(sx):
    '''Values, with and without descriptions, in the specification or in a function.'''
    v = text(sx, 'v')
    d = text(sx, 'd', lo=0) if sx.bool('described') else None
    items = {'x': 'y', v: d} if d is not None else ['x', v]
    if d is not None:
        sx.assume(v != 'x')
        if sx.bool('long'):
            items['l' * 70] = 'l'
    elif sx.bool('long'):
        items.append('l' * 70)
    if sx.bool('positional'):
        dd = {'positionals': [{'number': 1, 'complete': ['choices', items]}]}
    else:
        dd = {'options': [{'option_strings': ['-a'], 'complete': ['choices', items]}]}
    script, (spec,) = specs(sx, [{'prog': 'prog', **dd}])
    got = values(sx, script, spec)
    want = list(items.items()) if d is not None else [(i, None) for i in items]
    sx.check(len(got) == len(want), 'not as many values')
    for (gv, gd), (wv, wd) in zip(got, want):
        sx.check(gv == wv, 'a value differs')
        sx.check((gd or '') == (wd or ''), 'the description of a value differs')
    sx.cover('done')


def commands(sx):
    '''The name of a subcommand, its description and its function.'''
    c = text(sx, 'c', COMMAND)
    d = text(sx, 'd')
    defs = [{'prog': 'prog'}, {'prog': 'prog ' + c, 'help': d, 'options': [{'option_strings': ['-a']}]}]
    script, (spec,) = specs(sx, defs)
    got = values(sx, script, spec)
    sx.check(len(got) == 1, 'not one subcommand')
    sx.check(got[0][0] == c, 'the name of a subcommand differs')
    sx.check(got[0][1] == d, 'the description of a subcommand differs')
    if "'" not in c:
        _script, inside = specs(sx, defs, ['prog', "'" + c + "'", ''])
        sx.check([s.name for s in inside if s.kind == 'opt'] == ['-a'], 'the subcommand is not recognised')
    sx.cover('done')
