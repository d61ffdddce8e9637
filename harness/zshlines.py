'''What a generated Zsh script passes to _arguments for a command line.'''

from crazy_complete import zsh, dictionary_source
from harness import bashlines
from models import catalogue, cmdline, zshrun, zshspec
from models.cmdline import Outside
from symx.ctx import Alphabet
from symx.values import sand, sor, snot

_SCRIPTS = {}


def script_for(dicts, conf):
    key = repr((dicts, sorted(conf.items())))
    if key not in _SCRIPTS:
        cl = dictionary_source.dictionaries_to_commandline(bashlines.clean(dicts))
        c = bashlines.config(conf)
        c.set_zsh_compdef(False)
        _SCRIPTS[key] = zsh.generate_completion(cl, c)
    return _SCRIPTS[key]


def forms(o, s):
    '''How _arguments must take the argument of spelling `s`.'''
    if o.kind == 'flag':
        return ''
    if o.kind == 'opt':
        return '-' if len(s) == 2 else '=-'
    if len(s) == 2:
        return '+'
    return {'both': '=', 'equals': '=-', 'space': ''}[o.sep]


def partners(o):
    '''Strings that exclude the option.'''
    out = [s for p in o.cmd.options if p is not o and any(g in p.groups for g in o.groups) for s in p.strings]
    return out + ([] if o.repeatable else list(o.strings))


def decide(sx, root, sts, specs, vals):
    '''sts: states before and after the word under the cursor.'''
    st = sts[0]
    opts = [s for s in specs if s.kind == 'opt']
    args = [s for s in specs if s.kind == 'arg']
    # options
    seen = []
    line = []
    c = st.cmd
    while c is not None:
        line.append(c)
        c = c.parent
    chain = st.cmd.chain()
    for c in line:
        for o in c.options:
            mine = [s for s in o.strings if s not in seen]
            if len(mine) != len(o.strings):
                continue            # a nearer command has an option with such a name
            seen.extend(o.strings)
            for string in o.strings:
                found = [s for s in opts if s.name == string]
                opts = [s for s in opts if s.name != string]
                here = c in chain
                conds = [cmdline.active(x, o.cmd, o.when) for x in sts] if here else [True]
                if len(found) > 1:
                    sx.fail('an option has two specifications')
                if not found:
                    sx.check(snot(sand(*conds)), 'an option is missing')
                    continue
                s = found[0]
                sx.check(sor(*conds), 'an option is there although its condition does not hold')
                sx.check(s.hidden == (o.hidden or not here), 'an option is hidden, or not, by mistake')
                sx.check(s.form == forms(o, string), 'an option takes its argument in a wrong way')
                sx.check(o.hidden or s.multi == bool(o.repeatable), 'an option can be repeated, or not, by mistake')
                if o.final:
                    sx.check(s.excl == ['-', '*'], 'a final option does not end the options')
                elif here and not o.hidden:
                    sx.check(sorted(s.excl) == sorted(partners(o)), 'an option excludes the wrong ones')
                if o.kind == 'flag':
                    sx.check(len(s.args) == 0, 'a flag takes an argument')
                else:
                    sx.check(len(s.args) == 1, 'an option does not take one argument')
                    sx.check(sorted(vals(s.args[0][2])) == sorted(o.values), 'the values of an option are wrong')
    sx.check(not opts, 'an option that does not exist')
    # positionals
    for c in reversed(line):
        for p in c.positionals:
            conds = [cmdline.active(x, c, p.when) for x in sts]
            want = '*' if p.repeatable else c.offset + p.number
            args = positional(sx, args, want, p.values, conds, vals)
        if c.subs:
            names = [n for x in c.subs for n in [x.name] + x.aliases]
            args = positional(sx, args, c.sub_number(), names, [True], vals)
    sx.check(not args, 'a positional that does not exist')


def positional(sx, args, want, values, conds, vals):
    found = [s for s in args if s.num == want]
    if not found:
        sx.check(snot(sand(*conds)), 'a positional is missing')
        return args
    sx.check(len(found) == 1, 'a positional has two specifications')
    sx.check(sor(*conds), 'a positional is there although its condition does not hold')
    sx.check(sorted(vals(found[0].args[0][2])) == sorted(values), 'the values of a positional are wrong')
    return [s for s in args if s is not found[0]]


def _complete(sx, dicts, conf, words):
    dicts = fish_spelled(dicts)
    root = cmdline.build(dicts, conf)
    try:
        st = cmdline.parse(root, words[:-1])
        if st.pending is not None:
            # whatever it looks like, the word under the cursor is the argument
            after = cmdline.parse(root, words[:-1])
            after.present.append((after.pending, words[-1]))
            after.pending = None
        else:
            try:
                after = cmdline.parse(root, words)
            except Outside:
                if not (len(words[-1]) == 0 or words[-1] == '-' or words[-1] == '--'):
                    raise
                after = st
        if after.cmd is not st.cmd:
            st = after
    except Outside:
        sx.abort()
    script = script_for(dicts, conf)
    calls = zshrun.arguments(sx, script, ['prog'] + list(words))
    sx.observe([list(a) for a in calls])
    sx.check(len(calls) == 1, 'not exactly one call of _arguments')
    a = calls[0]
    n = 0
    while n < len(a) and len(a[n]) == 2 and a[n][0] == '-' and a[n][1] in 'Ssw':
        n += 1
    try:
        specs = [zshspec.decode(x) for x in a[n:]]
        vals = lambda action: [v for v, _d in zshspec.values(action, zshspec.decode_words, lambda f: zshrun.describe(sx, script, f))]
        decide(sx, root, (st, after), specs, vals)
    except zshspec.Malformed:
        sx.fail('a malformed specification')
    sx.cover('specifications')


def fish_spelled(dicts):
    from harness import fishlines
    return fishlines.spelled_out(dicts)


def complete(sx, *args):
    try:
        return _complete(sx, *args)
    except Outside:
        sx.abort()


def lines(sx):
    """A family of definitions, symbolic words."""
    dicts, conf, alphabet = catalogue.FAMILIES[sx.params['family']](sx)
    al = Alphabet.of(alphabet)
    lens = sx.params['lens']
    heads = sx.params.get('heads')
    words = []
    for i, n in enumerate(lens):
        head = sx.choice('h%d' % i, heads) if heads else ''
        words.append(head + sx.str('w%d' % i, n, 0 if i == len(lens) - 1 or head else 1, al))
    complete(sx, dicts, conf, words)
