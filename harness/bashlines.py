'''Completing a command line with the generated Bash script.'''

from crazy_complete import bash, config as config_, dictionary_source
from models import bashrun, catalogue, cmdline
from models.cmdline import Outside
from symx.ctx import Alphabet
from symx.values import sand, sor, snot

_SCRIPTS = {}


def config(conf):
    c = config_.Config()
    for k, v in conf.items():
        if k.startswith('disable'):
            getattr(c, k)(v)
        elif k == 'long_opt_arg_sep':
            c.set_long_option_argument_separator(v)
        elif k == 'bash_completions_version':
            c.set_bash_completions_version(tuple(v))
        else:
            getattr(c, 'set_' + k)(v)
    return c


def clean(dicts):
    '''The definition as a user writes it: conditions as text.'''
    def one(d):
        d = {k: v for k, v in d.items() if v is not None}
        w = d.pop('__when', None)
        if w is not None:
            d['when'] = cmdline.when_text(w)
        for k in ('options', 'positionals'):
            if k in d:
                d[k] = [one(x) for x in d[k]]
        return d
    return [one(d) for d in dicts]


def script_for(dicts, conf):
    key = repr((dicts, sorted(conf.items())))
    if key not in _SCRIPTS:
        cl = dictionary_source.dictionaries_to_commandline(clean(dicts))
        _SCRIPTS[key] = bash.generate_completion(cl, config(conf))
    return _SCRIPTS[key]


def option_words(o):
    out = list(o.short())
    eq = '=' if o.kind == 'opt' or (o.kind == 'req' and o.sep in ('both', 'equals')) else ''
    return out + [s + eq for s in o.long() + o.old()]


def starting(values, cur, cond, pre=''):
    return [(sand(cond, v.startswith(cur)), pre + v) for v in values]


def needs_active(st, o):
    c = cmdline.active(st, o.cmd, o.when)
    if not c:
        raise Outside('argument of an inactive option')


def expected(st, cur):
    '''[(condition, reply)]: what the documentation promises for this word.'''
    if st.pending is not None:
        needs_active(st, st.pending)
        if cmdline.is_option_word(cur):
            raise Outside('an option instead of the argument')
        return starting(st.pending.values, cur, True)
    if not st.eoo and cur.startswith('-'):
        for s, o in cmdline.names(st):
            if cur == s and o is None:
                break
            if cur.startswith(s + '='):
                if o is None or o.kind == 'flag' or (o.sep == 'space' and o.kind == 'req'):
                    raise Outside('argument')
                needs_active(st, o)
                return starting(o.values, cur[len(s) + 1:], True)
        if not cur.startswith('--') and len(cur) > 1:
            r = cluster(st, cur)
            if r is not None:
                return r
        out = []
        for o, cond in cmdline.offered(st):
            out.extend(starting(option_words(o), cur, cond))
        return out
    if st.eoo and cmdline.is_option_word(cur):
        raise Outside('option-like word after --')
    p = cmdline.at_positional(st)
    if p is None:
        return []
    if p[0] == 'sub':
        return starting([n for c in p[1].subs for n in [c.name] + c.aliases], cur, True)
    if cmdline.counts(p[1].when):
        raise Outside('whether the word under the cursor counts is not specified')
    return starting(p[1].values, cur, cmdline.active(st, p[2], p[1].when))


def cluster(st, cur):
    '''Short options written together, the last one with its argument attached.'''
    for s, o in cmdline.names(st):
        if cur == s:
            return None
    i = 1
    while i < len(cur):
        o = cmdline.short_option(st, cur[i])
        if o is None:
            if any(s.startswith(cur) for s, _o in cmdline.names(st)):
                return None
            raise Outside('unknown option')
        if o.kind != 'flag':
            for s, _o in cmdline.names(st):
                if s.startswith(cur):
                    raise Outside('beginning of an old-style option')
            if '=' in cur:
                raise Outside('word break')
            needs_active(st, o)
            return starting(o.values, cur[i + 1:], True, cur[:i + 1])
        i += 1
    return None


def compare(sx, want, got):
    for g in got:
        sx.check(sor(*[sand(c, w == g) for c, w in want]), 'a suggestion that does not apply')
    for c, w in want:
        sx.check(sor(snot(c), *[w == g for g in got]), 'a suggestion is missing')


def complete(sx, dicts, conf, words, after=()):
    '''Decide the completion of words[-1] (words without the program name).'''
    root = cmdline.build(dicts, conf)
    try:
        st = cmdline.parse(root, words[:-1])
        want = expected(st, words[-1])
    except Outside:
        sx.abort()
    if any(cmdline.counts(o.when) for o in st.cmd.visible()):
        sx.known('bash-dash-counted', words[-1] == '-')
    sx.known('bash-final-other-command', cmdline.final_elsewhere(st))
    script = script_for(dicts, conf)
    r = bashrun.complete(sx, script, ['prog'] + list(words) + list(after), len(words))
    sx.observe_set(r.replies)
    compare(sx, want, r.replies)
    if len(r.replies) > 0:
        sx.cover('suggestions')
    return st


def lines(sx):
    """A family of definitions, symbolic words."""
    dicts, conf, alphabet = catalogue.FAMILIES[sx.params['family']](sx)
    if sx.params.get('pad'):
        dicts = catalogue.pad(dicts)
    al = Alphabet.of(alphabet)
    lens = sx.params['lens']
    heads = sx.params.get('heads')
    words = []
    for i, n in enumerate(lens):
        head = sx.choice('h%d' % i, heads) if heads else ''
        words.append(head + sx.str('w%d' % i, n, 0 if i == len(lens) - 1 or head else 1, al))
    after = [sx.str('after%d' % i, n, 1, al) for i, n in enumerate(sx.params.get('after', ()))]
    complete(sx, dicts, conf, words, after)
