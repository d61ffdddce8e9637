'''Completing a command line with the generated Fish script.'''

from crazy_complete import fish, dictionary_source
from harness import bashlines
from models import catalogue, cmdline, fishrun
from models.cmdline import Outside
from symx.ctx import Alphabet
from symx.values import sand, sor, snot

_SCRIPTS = {}


def script_for(dicts, conf):
    key = repr((dicts, sorted(conf.items())))
    if key not in _SCRIPTS:
        cl = dictionary_source.dictionaries_to_commandline(bashlines.clean(dicts))
        _SCRIPTS[key] = fish.generate_completion(cl, bashlines.config(conf))
    return _SCRIPTS[key]


def commands(root):
    out = [root]
    for s in root.subs:
        out.extend(commands(s))
    return out


def proper_start(cur, s):
    return len(cur) < len(s) and s.startswith(cur)


def entry_of(sx, entries, o):
    '''The entries that carry the strings of an option, in its command's section.'''
    return [e for e in entries if set(e.strings()) == set(o.strings)]


def same(a, b):
    return sorted(a) == sorted(b)


def plain_values(values):
    '''Suggestions without their descriptions.'''
    return [v.split('\t', 1)[0] for v in values]


def sections(entries, root):
    '''Assign each entry to the option or positional it stands for (scripts keep definition order).'''
    opts = [o for c in commands(root) for o in c.options]
    option_entries = [e for e in entries if e.strings()]
    others = [e for e in entries if not e.strings() and e.conditions]
    return opts, option_entries, others


def decide(sx, root, st, cur, entries):
    opts, option_entries, others = sections(entries, root)
    key = lambda strings: tuple(sorted(strings))
    left = {}
    for e in option_entries:
        left.setdefault(key(e.strings()), []).append(e)
    offered = {}
    for o, cond in cmdline.offered(st):
        offered[id(o)] = cond
    for o in opts:
        es = left.get(key(o.strings))
        if not es:
            sx.fail('an option has no entry')
        # commands may define the same strings: their entries come in order of definition
        e = es.pop(0)
        sx.check(e.active is not None, 'entry without a decision')
        sx.check(('r' in e.flags or 'x' in e.flags) == (o.kind == 'req'), 'an option takes its argument in a wrong way')
        if st.pending is not None:
            if st.pending is o:
                want = offered.get(id(o), False) if not o.hidden else hidden_applies(st, o)
                sx.check(sor(snot(want), e.active), 'the argument of an option is not completed')
        elif o.hidden:
            if o.cmd in st.cmd.chain() and any(cur.startswith(s + '=') for s in o.long()) and o.kind != 'flag':
                sx.check(sor(snot(hidden_applies(st, o)), e.active), 'the argument of a hidden option is not completed')
            elif all(proper_start(cur, s) or not s.startswith(cur) for s in o.strings) and not cluster_with(cur, o):
                if any(proper_start(cur, s) for s in o.strings) or not len(cur):
                    sx.check(snot(e.active), 'a hidden option is suggested')
        elif not st.eoo:
            want = offered.get(id(o), False)
            if e.active:
                sx.check(want, 'an option is suggested where it does not apply')
            else:
                sx.check(snot(want), 'an option is missing')
        if e.active and o.kind != 'flag':
            sx.check(same(plain_values(e.values), o.values), 'the values of an option are wrong')
    sx.check(not any(left.values()), 'an entry for an option that does not exist')
    if st.pending is not None:
        return
    got = []
    for e in others:
        if e.active:
            got.extend(plain_values(e.values))
    p = cmdline.at_positional(st)
    cond = True
    if p is None:
        want = []
    elif p[0] == 'sub':
        want = [n for c in p[1].subs for n in [c.name] + c.aliases]
    else:
        want = p[1].values
        cond = cmdline.active(st, p[2], p[1].when)
    if got:
        sx.check(same(got, want), 'wrong positional values')
        sx.check(cond, 'a positional is suggested although its condition does not hold')
    elif want:
        sx.check(snot(cond), 'the values of a positional are missing')


def hidden_applies(st, o):
    '''What offered() says about a hidden option apart from being hidden.'''
    o.hidden = False
    try:
        for p, cond in cmdline.offered(st):
            if p is o:
                return cond
        return False
    finally:
        o.hidden = True


def cluster_with(cur, o):
    return len(cur) > 1 and not cur.startswith('--') and any(s[1] in cur for s in o.short())


def attached_end(w, o):
    '''An argument attached to a short option that ends with the letter of a hidden option.'''
    if len(w) < 3:
        return False
    return sand(w[0] == '-', w[1] != '-', sor(*[w[-1] == s[1] for s in o.short()]))


def spelled_out(dicts):
    """Conditions that name an option name all of its strings, as the documentation's examples do."""
    def names(w, options):
        if w[0] in ('has', 'is'):
            return (w[0], [s for o in options if any(x in o['option_strings'] for x in w[1])
                           for s in o['option_strings']]) + tuple(w[2:])
        return tuple(names(x, options) if isinstance(x, tuple) else x for x in w)
    for d in dicts:
        for o in d.get('options', []) + d.get('positionals', []):
            if o.get('__when'):
                o['__when'] = names(o['__when'], d.get('options', []))
    return dicts


def _complete(sx, dicts, conf, words, after=()):
    dicts = spelled_out(dicts)
    root = cmdline.build(dicts, conf)
    cur = words[-1]
    try:
        st = cmdline.parse(root, words[:-1])
        if st.pending is not None and cmdline.is_option_word(cur):
            raise Outside('an option instead of the argument')
        if st.eoo and cmdline.is_option_word(cur):
            raise Outside('option-like word after --')
    except Outside:
        sx.abort()
    if len(words) > 1 and st.pending is None:
        for o in st.cmd.visible():
            if o.hidden and not st.has(o):
                sx.known('fish-hidden-letter', attached_end(words[-2], o))
    sx.known('fish-final-other-command', cmdline.final_elsewhere(st))
    entries = fishrun.complete(sx, script_for(dicts, conf), ['prog'] + list(words[:-1]), cur, list(after))
    mine = [e for e in entries if e.conditions]
    sx.observe([bool(e.active) for e in mine])
    decide(sx, root, st, cur, mine)
    sx.cover('entries')


def complete(sx, *args):
    try:
        return _complete(sx, *args)
    except Outside:
        sx.abort()


def lines(sx):
    """A family of definitions, symbolic words."""
    dicts, conf, alphabet = catalogue.FAMILIES[sx.params['family']](sx)
    al = Alphabet.of(alphabet)
    lens = sx.params['lens']
    heads = sx.params.get('heads')
    words = []
    for i, n in enumerate(lens):
        head = sx.choice('h%d' % i, heads) if heads else ''
        words.append(head + sx.str('w%d' % i, n, 0 if i == len(lens) - 1 or head else 1, al))
    complete(sx, dicts, conf, words, [sx.str('after%d' % i, n, 1, al) for i, n in enumerate(sx.params.get('after', ()))])
