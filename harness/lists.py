'''Completing lists of values and of key-value pairs.'''

from crazy_complete import bash, dictionary_source
from harness import bashlines
from harness.fishtext import entries
from models import bashrun
from symx.ctx import Alphabet

VALUES = ['aa', 'ab', 'b']
BREAKS = ' \t\n"\'><=;|&(:'


def run(sx, comp, cur, how):
    '''The completed words, as they appear on the command line.'''
    if how == 'positional':
        defs = [{'prog': 'prog', 'positionals': [{'number': 1, 'complete': comp}]}]
        words = ['prog', cur]
    elif how == 'option':
        defs = [{'prog': 'prog', 'options': [{'option_strings': ['-o'], 'complete': comp}]}]
        words = ['prog', '-o', cur]
    else:
        defs = [{'prog': 'prog', 'options': [{'option_strings': ['--opt'], 'complete': comp}]}]
        words = ['prog', '--opt=' + cur]
    if sx.params.get('shell') == 'fish':
        return run_fish(sx, defs, words)
    cl = dictionary_source.dictionaries_to_commandline(defs)
    script = bash.generate_completion(cl, bashlines.config({}))
    r = bashrun.complete(sx, script, words)
    # Readline replaces what follows the last word break
    keep = cur[:since_break(cur)]
    out = [keep + x for x in r.replies]
    sx.observe_set(out)
    return out


def run_fish(sx, defs, words):
    '''The values that Fish gets, and keeps because they extend the word.'''
    (e,) = entries(sx, defs, words[:-1], words[-1])
    cur = words[-1]
    if cur.startswith('--opt='):
        cur = cur[6:]
    if e.values and e.values[0] == '<__fish_complete_list>':
        # Fish's own function completes lists that may repeat a value
        sx.check(e.values[1] == sx.params['sep'] and len(e.values) == 3, 'the separator differs')
        sx.cover('done')
        sx.abort()
    values = [v.split('\t')[0] for v in e.values]
    out = [v for v in values if v.startswith(cur)]
    sx.observe_set(out)
    return out


def since_break(cur):
    i = len(cur)
    while i > 0 and cur[i - 1] not in BREAKS:
        i -= 1
    return i


def same(sx, got, want, msg):
    sx.check(len(got) == len(want), msg)
    for w in want:
        sx.check(w in got, msg)


def tail(sx, chars):
    return sx.choice('head', sx.params['heads']) + sx.str('t', sx.params['n'], 0, Alphabet.of(chars))


def value_list(sx):
    sep = sx.params['sep']
    cur = tail(sx, 'abx' + sep)
    duplicates = sx.bool('duplicates')
    opts = {'separator': sep, 'duplicates': bool(duplicates)}
    kind = sx.choice('kind', ['value_list', 'described', 'list'])
    if kind == 'list':
        comp = ['list', ['choices', VALUES], opts]
    elif kind == 'value_list':
        comp = ['value_list', {'values': VALUES, **opts}]
    else:
        comp = ['value_list', {'values': {v: 'd' for v in VALUES}, **opts}]
    got = run(sx, comp, cur, sx.choice('how', ['positional', 'option', 'equals']))
    parts = cur.split(sep)
    last, before = parts[-1], parts[:-1]
    used = parts if not duplicates else []
    rest = [v for v in VALUES if v not in used]
    if sx.params.get('shell') == 'fish':
        want = [cur[:len(cur) - len(last)] + v for v in rest if v.startswith(last)]
    elif last in VALUES:
        if last in before or kind == 'list':
            sx.abort()
        want = [cur + sep] if rest else []
    else:
        want = [cur[:len(cur) - len(last)] + v for v in rest if v.startswith(last)]
    same(sx, got, want, 'the values differ')
    sx.cover('done')


PAIRS = [['fa', 'd', None], ['fb', None, ['choices', ['xa', 'xb']]], ['*ra', 'd', ['none']], ['ex', 'd', None, ['fa', 'fb']],
         ['ky', 'd', ['choices', {'u': 'v', 'w': 'x'}]]]
KEYS = {'fa': ['fa'], 'fb': ['fb'], 'ra': [], 'ex': ['ex', 'fa', 'fb'], 'ky': ['ky']}
OF_KEY = {'fb': ['xa', 'xb'], 'ky': ['u', 'w']}


def pairs(sx):
    sep, eq = sx.params['sep'], sx.params['eq']
    single = sx.bool('single')
    cur = tail(sx, 'abfx' + sep + eq)
    if single:
        sx.assume(sep not in cur)
        comp = ['key_value_pair', eq, [p[:3] for p in PAIRS if p[0] != '*ra']]
        keys = [k for k in KEYS if k != 'ra']
        parts = [cur]
        used = []
    else:
        comp = ['key_value_list', sep, eq, PAIRS]
        keys = list(KEYS)
        parts = cur.split(sep)
        used = []
        for p in parts[:-1]:
            k = p.split(eq)[0]
            for key in KEYS:
                if k == key:
                    used += KEYS[key]
    how = sx.choice('how', ['positional', 'option', 'equals'])
    last = parts[-1]
    before = cur[:len(cur) - len(last)]
    want = []
    if eq in last:
        key = last.split(eq)[0]
        value = last[len(key) + 1:]
        for k in OF_KEY:
            if k == key:
                want = [before + k + eq + v for v in OF_KEY[k] if v.startswith(value)]
    else:
        for k in keys:
            if k == last:
                sx.abort()
        # Fish adds the separator, Bash waits for it to be typed
        end = {k: eq if k not in ('ex', 'fa') else '' for k in KEYS} if sx.params.get('shell') == 'fish' else {}
        want = [before + k + end.get(k, '') for k in keys if k not in used and k.startswith(last)]
    got = run(sx, comp, cur, how)
    same(sx, got, want, 'the keys or values differ')
    sx.cover('done')


def prefix(sx):
    pre = sx.params['pre']
    cur = tail(sx, 'ab' + pre)
    how = sx.choice('how', ['positional', 'option', 'equals'])
    got = run(sx, ['prefix', pre, ['choices', VALUES]], cur, how)
    if cur.startswith(pre):
        want = [pre + v for v in VALUES if v.startswith(cur[len(pre):])]
    else:
        want = [pre] if pre.startswith(cur) else []
    same(sx, got, want, 'the values differ')
    sx.cover('done')
