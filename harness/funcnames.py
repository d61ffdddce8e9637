'''Names of the functions in generated scripts.'''

from crazy_complete import bash, dictionary_source, fish, zsh
from harness import bashlines
from harness.bashtext import replies, typed
from harness.fishtext import text
from symx.ctx import Alphabet

SHELLS = {'bash': bash, 'zsh': zsh, 'fish': fish}
SIMILAR = Alphabet.of('a_-.')
METAVAR = Alphabet.of('a1_-$ ')
PROG = Alphabet.minus(Alphabet.PRINT, ' /')
SPECIAL = ' \t\n"\'$`|&;<>()*?[]{}~#!\\=%^'


def functions(sx, script):
    '''The names of the functions that a script defines.'''
    out = []
    for line in script.split('\n'):
        if line.endswith('() {') and not line.startswith(' '):
            out.append(line[:-4])
        elif line.startswith('function '):
            name = line[len('function '):].split(' ')[0]
            out.append(name)
    return out


def generate(sx, defs):
    shell = sx.params['shell']
    cl = dictionary_source.dictionaries_to_commandline(defs)
    return SHELLS[shell].generate_completion(cl, bashlines.config({}))


def unique(sx, names):
    for i, a in enumerate(names):
        for b in names[:i]:
            sx.check(a != b, 'two functions have the same name')


def listing(values):
    return ['list', ['choices', values], {'separator': ','}]


def commands(sx):
    '''Subcommands and their options, positionals.'''
    a = text(sx, 'a', SIMILAR)
    b = text(sx, 'b', SIMILAR)
    where = sx.choice('where', ['same', 'nested'])
    sx.assume(a[0] != '-' and b[0] != '-')
    sx.assume(a != b or where == 'nested')
    first = {'prog': 'prog ' + a, 'options': [{'option_strings': ['-a', '--long'], 'complete': listing(['x', '$'])}]}
    if where == 'same':
        defs = [{'prog': 'prog'}, first,
                {'prog': 'prog ' + b, 'options': [{'option_strings': ['-b', '--long'], 'complete': listing(['y', '$'])}]}]
    else:
        outer = 'a'
        path = outer + '_' + b
        sx.assume(a != outer)
        defs = [{'prog': 'prog'}, first, {'prog': 'prog ' + outer},
                {'prog': 'prog ' + outer + ' ' + b, 'options': [{'option_strings': ['-b', '--long'], 'complete': listing(['y', '$'])}]}]
        defs.append({'prog': 'prog ' + path, 'options': [{'option_strings': ['-c']}]})
        sx.assume(a != path)
    script = generate(sx, defs)
    names = functions(sx, script)
    sx.observe(names)
    unique(sx, names)
    if sx.params['shell'] == 'bash':
        words = ['prog', typed(a), '-']
        sx.check([r for r in replies(sx, defs, words)] == ['-a', '--long='], 'other options are offered')
        words = ['prog', typed(b), '-'] if where == 'same' else ['prog', outer, typed(b), '-']
        sx.check([r for r in replies(sx, defs, words)] == ['-b', '--long='], 'other options are offered')
    sx.cover('done')


def values(sx):
    '''Functions for the values of options and positionals.'''
    m = sx.choice('helper', ['', 'query', 'values', 'dequote', 'get_completing_arg', 'parse_commandline', 'list', 'value_list', 'wrapper'])
    m = m + sx.str('m', sx.params['n'], 0, METAVAR)
    o = '-' + sx.str('o', sx.params['n'], 1, Alphabet.minus(Alphabet.PRINT, ' ,-'))
    defs = [{'prog': 'prog', 'options': [{'option_strings': [o], 'complete': listing(['x', '$'])},
                                         {'option_strings': ['--long'], 'complete': listing(['y', '$'])}],
             'positionals': [{'number': 1, 'metavar': m, 'complete': listing(['z', '$'])},
                             {'number': 2, 'metavar': m, 'complete': listing(['v', '$'])}]}]
    script = generate(sx, defs)
    names = functions(sx, script)
    sx.observe(names)
    unique(sx, names)
    for name in names:
        for c in name:
            sx.check(c not in SPECIAL, 'the name of a function has a special character')
    sx.cover('done')


def prog(sx):
    '''The name of the program.'''
    p = text(sx, 'p', PROG)
    sx.assume(p[0] != '-')
    defs = [{'prog': p, 'options': [{'option_strings': ['-a'], 'complete': listing(['x', '$'])}]},
            {'prog': p + ' sub', 'options': [{'option_strings': ['-b'], 'when': 'option_is -b -- x', 'complete': ['choices', ['x']]}]}]
    script = generate(sx, defs)
    names = functions(sx, script)
    sx.observe(names)
    unique(sx, names)
    for name in names:
        for c in name:
            sx.check(c not in SPECIAL, 'the name of a function has a special character')
    sx.cover('done')
