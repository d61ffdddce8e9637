'''Text of a definition in the generated Bash script.'''

from crazy_complete import bash, dictionary_source
from harness import bashlines
from harness.fishtext import text
from models import bashrun, shwords
from symx.ctx import Alphabet

# Typed as they are, these stand for themselves in a word of Bash.
PLAIN_CHARS = 'aByZ09!#%*+-,./:?@[]^_{}~'
NAME = Alphabet.of('aByZ09!"#$%&\'()*+./:;<>?@[\\]^_`{|}~')
SIMILAR = Alphabet.of('a-_?')
COMMAND = Alphabet.of('aB0!"#$%&\'()*+,./;<=>?@[\\]^_`{|}~')
VALUE = Alphabet.minus(Alphabet.PRINT, ' ')


def typed(word):
    '''How a user may type a word.'''
    return ''.join(c if c in PLAIN_CHARS or c == '=' else '\\' + c for c in word)


def replies(sx, defs, words, conf=None, pad=False):
    '''What Bash inserts for each suggestion, as words.'''
    if pad:
        defs = [dict(d) for d in defs]
        pads = [{'option_strings': ['--pad-%d' % i]} for i in range(8)]
        defs[0]['options'] = defs[0].get('options', []) + pads
    cl = dictionary_source.dictionaries_to_commandline(defs)
    script = bash.generate_completion(cl, bashlines.config(conf or {}))
    r = bashrun.complete(sx, script, words)
    sx.observe(len(r.replies))
    out = []
    for reply in r.replies:
        try:
            (word,) = shwords.decode_bash(reply)
        except (shwords.NotLiteral, ValueError):
            word = reply
        if not word.startswith('--pad-'):
            out.append(word)
    return out


def with_equals(name):
    return name if len(name) == 2 else name + '='


def names(sx):
    '''The strings of an option, with and without an argument.'''
    pad = sx.params['pad']
    a = sx.choice('dash', ['-', '--']) + text(sx, 'a', NAME)
    o = {'option_strings': [a]}
    arg = sx.choice('argument', [None, 'req', 'opt'])
    if arg:
        o.update(complete=['choices', ['x']], optional_arg=arg == 'opt')
    defs = [{'prog': 'prog', 'options': [o, {'option_strings': ['-y']}]}]
    sx.assume(a != '-y')
    kind = sx.choice('given', ['nothing', 'given', 'prev', 'attached', 'cluster'])
    name = with_equals(a) if arg else a
    if kind == 'nothing':
        got = replies(sx, defs, ['prog', '-'], pad=pad)
        sx.check(got == ([name, '-y'] if len(a) > 2 or a[1] != 'y' else ['-y', name]), 'the options differ')
    elif kind == 'given':
        words = [typed(a) + 'v'] if arg and len(a) == 2 else [typed(a) + '=v'] if arg else [typed(a)]
        got = replies(sx, defs, ['prog'] + words + ['-'], pad=pad)
        sx.check(got == ['-y'], 'a given option is offered, or another one is not')
    elif not all(c in PLAIN_CHARS for c in a):
        # quoted, it would not be compared with the names
        sx.abort()
    elif kind == 'prev':
        got = replies(sx, defs, ['prog', a, ''], pad=pad)
        sx.check(got == (['x'] if arg == 'req' else []), 'the argument is not completed')
    elif kind == 'attached':
        if len(a) == 2:
            got = replies(sx, defs, ['prog', a], pad=pad)
            # Readline replaces what follows the last word break
            pre = '' if a[1] == ':' else a
            sx.check(got == ([pre + 'x'] if arg else [a]), 'the argument is not completed')
        else:
            got = replies(sx, defs, ['prog', a + '='], pad=pad)
            sx.check(got == (['x'] if arg else []), 'the argument is not completed')
    else:
        if len(a) > 2:
            sx.abort()
        if arg:
            got = replies(sx, defs, ['prog', '-y' + a[1]], pad=pad)
            sx.check(got == ['x' if a[1] == ':' else '-y' + a[1] + 'x'], 'the argument in a cluster is not completed')
        else:
            got = replies(sx, defs, ['prog', '-y' + typed(a[1]), '-'], pad=pad)
            sx.check(got == [], 'the options of a cluster are not recognised')
    sx.cover('done')


def pairs(sx):
    '''Two options with similar names.'''
    a = sx.choice('dash', ['-', '--']) + text(sx, 'a', SIMILAR)
    b = sx.choice('other', ['-', '--']) + text(sx, 'b', SIMILAR)
    for o in (a, b):
        sx.assume(o[1:] != '-')
    sx.assume(a != b)
    given = sx.bool('first')
    where = sx.choice('where', ['same', 'sub', 'sibling'])
    defs = [{'prog': 'prog', 'options': [{'option_strings': [a]}]}]
    if where == 'same':
        defs[0]['options'].append({'option_strings': [b]})
        got = replies(sx, defs, ['prog', typed(a if given else b), '-'])
        sx.check(got == ([b] if given else [a]), 'a given option is offered, or another one is not')
    elif where == 'sub':
        defs.append({'prog': 'prog sub', 'options': [{'option_strings': [b]}]})
        got = replies(sx, defs, ['prog'] + ([typed(a)] if given else []) + ['sub', '-'])
        sx.check(got == [b], 'the option of the subcommand is not offered')
    else:
        if not given and not a.startswith('--'):
            # a cluster of the subcommand's short options
            sx.abort()
        defs.append({'prog': 'prog su', 'options': [{'option_strings': ['-q']}], 'inherit_options': True})
        defs.append({'prog': 'prog sub', 'options': [{'option_strings': [b]}]})
        got = replies(sx, defs, ['prog'] + ['sub', typed(b if given else a), '-'])
        sx.check(got == ([] if given else [b]), 'the option of the subcommand is not recognised')
    sx.cover('done')


def choices(sx):
    '''Values of an option or a positional.'''
    v = text(sx, 'v', VALUE)
    w = text(sx, 'w', VALUE)
    kind = sx.choice('kind', ['list', 'dict', 'combine'])
    if kind == 'dict':
        sx.assume(v != w)
        comp = ['choices', {v: 'd', w: 'e'}]
    elif kind == 'list':
        comp = ['choices', [v, w]]
    else:
        comp = ['combine', [['choices', [v]], ['choices', [w]]]]
    if sx.bool('positional'):
        defs = [{'prog': 'prog', 'positionals': [{'number': 1, 'complete': comp}]}]
        words = ['prog', '']
    else:
        defs = [{'prog': 'prog', 'options': [{'option_strings': ['-a'], 'complete': comp}]}]
        words = ['prog', '-a', '']
    sx.check(replies(sx, defs, words) == [v, w], 'the values differ')
    sx.cover('done')


def commands(sx):
    '''The name of a subcommand and its alias.'''
    c = text(sx, 'c', COMMAND)
    d = text(sx, 'd', COMMAND)
    sx.assume(c != d and c != 'other' and d != 'other')
    inherit = sx.bool('inherit')
    defs = [{'prog': 'prog', 'inherit_options': inherit, 'options': [{'option_strings': ['-o']}]},
            {'prog': 'prog ' + c, 'aliases': [d],
             'options': [{'option_strings': ['-a']}, {'option_strings': ['-b']}],
             'positionals': [{'number': 1, 'complete': ['choices', ['x']], 'when': 'has_option -b'}]},
            {'prog': 'prog other', 'options': [{'option_strings': ['-a', '-z']}]}]
    pad = sx.params['pad']
    kind = sx.choice('kind', ['offer', 'inside', 'option', 'positional'])
    typing = typed(c if sx.bool('name') else d)
    if kind == 'offer':
        got = replies(sx, defs, ['prog', ''], pad=pad)
        sx.check(got == [c, d, 'other'], 'the names differ')
    elif kind == 'inside':
        got = replies(sx, defs, ['prog', typing, '-'], pad=pad)
        sx.check([g for g in got if g != '-o'] == ['-a', '-b'], 'the subcommand is not recognised')
    elif kind == 'option':
        got = replies(sx, defs, ['prog', typing, '-a', '-'], pad=pad)
        sx.check([g for g in got if g != '-o'] == ['-b'], 'the options of the subcommand are not recognised')
    else:
        got = replies(sx, defs, ['prog', typing, '-b', ''], pad=pad)
        sx.check(got == ['x'], 'the condition in the subcommand does not hold')
    sx.cover('done')


def conditions(sx):
    '''Values in a condition.'''
    v = text(sx, 'v', VALUE)
    sx.assume("'" not in v and v[0] != '-')
    kind = sx.choice('kind', ['option', 'positional'])
    case = sx.bool('nocase')
    given = sx.choice('given', [0, 1])
    other = sx.str('o', len(v), len(v), VALUE) if given else v
    sx.assume(other[0] != '-')
    if kind == 'option':
        cond = "option_is %s-b -- '%s'" % ('nocase ' if case else '', v)
    else:
        cond = "positional_contains %s1 '%s'" % ('-i ' if case else '', v)
    defs = [{'prog': 'prog', 'options': [{'option_strings': ['-b'], 'complete': ['choices', ['x']]},
                                         {'option_strings': ['-d'], 'when': cond}],
             'positionals': [{'number': 1, 'complete': ['choices', ['x']]}]}]
    words = ['prog'] + (['-b'] if kind == 'option' else []) + [typed(other), '-']
    got = replies(sx, defs, words)
    same = other.lower() == v.lower() if case else other == v
    sx.check(('-d' in got) == same, 'the condition does not hold, or holds, by mistake')
    sx.cover('done')
