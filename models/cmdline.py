'''What a completion must offer: the documented meaning of a definition.

Written from the documentation, independently of the code under test, and run on
symbolic command lines. A command line whose meaning the documentation leaves open
(unknown options, flags with a value, ...) raises Outside.
'''

from symx.values import sand, sor, snot

ISSET = '_OPT_ISSET_'


class Outside(Exception):
    pass


class Opt:
    def __init__(self, d, conf, cmd):
        self.cmd = cmd
        self.strings = list(d['option_strings'])
        c = d.get('complete')
        self.kind = 'flag' if not c else ('opt' if d.get('optional_arg') else 'req')
        self.values = choices_of(c)
        self.groups = [] if conf.get('disable_groups') else list(d.get('groups') or [])
        self.final = bool(d.get('final', False)) and not conf.get('disable_final')
        self.hidden = bool(d.get('hidden', False)) and not conf.get('disable_hidden')
        rep = d.get('repeatable')
        self.repeatable = conf.get('repeatable_options', False) if rep in (None, 'INHERIT') else rep
        if conf.get('disable_repeatable'):
            self.repeatable = True
        self.when = None if conf.get('disable_when') else d.get('__when')
        sep = d.get('long_opt_arg_sep', 'INHERIT')
        self.sep = conf.get('long_opt_arg_sep', 'both') if sep == 'INHERIT' else sep

    def short(self):
        return [s for s in self.strings if len(s) == 2]

    def long(self):
        return [s for s in self.strings if s.startswith('--')]

    def old(self):
        return [s for s in self.strings if len(s) > 2 and not s.startswith('--')]


class Pos:
    def __init__(self, d, conf):
        self.number = d['number']
        self.repeatable = d.get('repeatable', False)
        self.values = choices_of(d.get('complete'))
        self.when = None if conf.get('disable_when') else d.get('__when')


class Cmd:
    def __init__(self, d, conf, parent):
        self.parent = parent
        self.name = d['prog'].split()[-1]
        self.aliases = list(d.get('aliases') or [])
        self.options = [Opt(o, conf, self) for o in d.get('options') or []]
        self.positionals = [Pos(p, conf) for p in d.get('positionals') or []]
        self.subs = []

        def flag(key):
            v = d.get(key, 'INHERIT')
            return conf.get(key, False) if v == 'INHERIT' else v
        self.inherit = flag('inherit_options')
        self.abbr_options = flag('abbreviate_options')
        self.abbr_commands = flag('abbreviate_commands')
        self.offset = 0
        if parent is not None:
            self.offset = parent.sub_number()
            parent.subs.append(self)

    def sub_number(self):
        '''Overall number of the positional that names the subcommand.'''
        return self.offset + max([p.number for p in self.positionals] + [0]) + 1

    def chain(self):
        '''This command and the ancestors whose options apply to it, nearest first.'''
        out = [self]
        c = self.parent
        while c is not None:
            if c.inherit:
                out.append(c)
            c = c.parent
        return out

    def visible(self):
        out = []
        for c in self.chain():
            out.extend(c.options)
        return out


def choices_of(c):
    if not c or c[0] == 'none':
        return []
    if c[0] == 'choices':
        return [str(x) for x in c[1]]
    raise AssertionError(c)


def build(dicts, conf):
    by = {}
    root = None
    for d in dicts:
        path = d['prog'].split()
        c = Cmd(d, conf, by.get(' '.join(path[:-1])))
        by[' '.join(path)] = c
        if root is None:
            root = c
    return root


def abbreviations(words, least):
    out = {}
    for w in words:
        out[w] = [w]
        for n in range(least, len(w)):
            if not any(v != w and v.startswith(w[:n]) for v in words):
                out[w].append(w[:n])
    return out


class State:
    def __init__(self, cmd):
        self.cmd = cmd
        self.pos = []
        self.present = []       # (option, value)
        self.eoo = False
        self.pending = None

    def values(self, opt):
        return [v for o, v in self.present if o is opt]

    def has(self, opt):
        return any(o is opt for o, _v in self.present)


def names(st):
    '''(spelling, option) of all long and old-style options that apply, with abbreviations.'''
    out = []
    full = []
    opts = st.cmd.visible()
    for o in opts:
        for s in o.long() + o.old():
            if s in full:
                raise Outside('two options with the same name')
            full.append(s)
    abbr = st.cmd.abbr_options
    if abbr and any(c.abbr_options != abbr for c in st.cmd.chain()):
        raise Outside('mixed abbreviation settings')
    table = abbreviations(full, 3) if abbr else {s: [s] for s in full}
    for o in opts:
        for s in o.long() + o.old():
            for a in table[s]:
                out.append((a, o))
    if abbr:
        # words that only some commands of the chain consider unambiguous
        for s in full:
            for n in range(3, len(s)):
                if s[:n] not in table[s] and s[:n] not in full:
                    out.append((s[:n], None))
    return out


def lookup(st, w):
    '''[(option, attached value or None)] in order for an option word.'''
    for s, o in names(st):
        if w == s:
            if o is None:
                raise Outside('ambiguous abbreviation')
            return [(o, None)]
        if len(w) > len(s) and w.startswith(s + '='):
            if o is None:
                raise Outside('ambiguous abbreviation')
            if o.kind == 'flag':
                raise Outside('flag with a value')
            return [(o, w[len(s) + 1:])]
    if w.startswith('--'):
        raise Outside('unknown option')
    out = []
    i = 1
    while i < len(w):
        o = short_option(st, w[i])
        if o is None:
            raise Outside('unknown option')
        if o.kind == 'flag':
            out.append((o, None))
            i += 1
            continue
        out.append((o, w[i + 1:] if i + 1 < len(w) else None))
        break
    return out


def short_option(st, c):
    found = None
    for o in st.cmd.visible():
        for s in o.short():
            if c == s[1]:
                if found is not None and found is not o:
                    raise Outside('two options with the same name')
                found = o
    return found


def is_option_word(w):
    return len(w) > 1 and w[0] == '-'


def parse(root, words):
    '''State after the words before the one under the cursor.'''
    st = State(root)
    for w in words:
        if st.pending is not None:
            if is_option_word(w):
                raise Outside('an option instead of the argument')
            st.present.append((st.pending, w))
            st.pending = None
        elif st.eoo:
            if is_option_word(w):
                raise Outside('option-like word after --')
            positional(st, w)
        elif not is_option_word(w):
            positional(st, w)
        elif w == '--':
            st.eoo = True
        else:
            for o, v in lookup(st, w):
                if v is not None:
                    if o.sep == 'space' and w.startswith('--'):
                        raise Outside('separator')
                    st.present.append((o, v))
                elif o.kind == 'req':
                    if o.sep == 'equals' and not (len(w) == 2 or w[-2:-1] == '-'):
                        raise Outside('separator')
                    st.pending = o
                else:
                    st.present.append((o, ISSET))
    return st


def positional(st, w):
    st.pos.append(w)
    if st.cmd.subs and len(st.pos) == st.cmd.sub_number():
        for c in st.cmd.subs:
            for n in command_names(c):
                if w == n:
                    st.cmd = c
                    return
        raise Outside('unknown subcommand')


def command_names(c):
    own = [c.name] + c.aliases
    if c.abbr_commands:
        subs = [s.name for s in c.parent.subs]
        other = [a for s in c.parent.subs if s is not c for a in s.aliases]
        for a in abbreviations(subs, 1)[c.name]:
            if a not in own and a not in other:
                own.append(a)
    return own


# -- conditions: ('has', [opts]) ('is', [opts], [values], any, nocase) ('count', op, n)
#    ('contains', n, [values], nocase) ('and', a, b) ('or', a, b) ('not', a)

def when_text(w):
    k = w[0]
    if k == 'has':
        return 'has_option ' + ' '.join(w[1])
    if k == 'is':
        return 'option_is %s%s%s -- %s' % ('any ' if w[3] else '', 'nocase ' if w[4] else '',
                                           ' '.join(w[1]), ' '.join(w[2]))
    if k == 'count':
        return 'positional_count %s %d' % (w[1], w[2])
    if k == 'contains':
        return 'positional_contains %s%d %s' % ('-i ' if w[3] else '', w[1], ' '.join(w[2]))
    if k == 'not':
        return '! ' + atom(w[1])
    # && and || have equal precedence and associate to the left, as in the shells
    return '%s %s %s' % (when_text(w[1]), '&&' if k == 'and' else '||', atom(w[2]))


def atom(w):
    return '(%s)' % when_text(w) if w[0] in ('and', 'or') else when_text(w)


def named(cmd, names_):
    return [o for o in cmd.options if any(s in o.strings for s in names_)]


def lower_eq(a, b):
    '''Equality of a symbolic word and a concrete word ignoring ASCII case.'''
    if len(a) != len(b):
        return False
    return sand(*[sor(x == y.lower(), x == y.upper()) for x, y in zip(a, b)])


def holds(st, cmd, w):
    k = w[0]
    if k == 'has':
        return any(st.has(o) for o in named(cmd, w[1]))
    if k == 'is':
        out = []
        if not w[3] and len([o for o in named(cmd, w[1]) if st.has(o)]) > 1:
            raise Outside('the last value of several options')
        for o in named(cmd, w[1]):
            vs = st.values(o)
            for v in vs if w[3] else vs[-1:]:
                for x in w[2]:
                    out.append(lower_eq(v, x) if w[4] else v == x)
        return sor(*out)
    if k == 'count':
        n = len(st.pos)
        return {'==': n == w[2], '!=': n != w[2], '<=': n <= w[2], '>=': n >= w[2], '<': n < w[2], '>': n > w[2]}[w[1]]
    if k == 'contains':
        if len(st.pos) < w[1]:
            return False
        v = st.pos[w[1] - 1]
        return sor(*[lower_eq(v, x) if w[3] else v == x for x in w[2]])
    if k == 'not':
        return snot(holds(st, cmd, w[1]))
    a = holds(st, cmd, w[1])
    b = holds(st, cmd, w[2])
    return sand(a, b) if k == 'and' else sor(a, b)


def active(st, cmd, when):
    return True if when is None else holds(st, cmd, when)


# -- what may be suggested

def offered(st):
    '''(option, condition) for every option that may be suggested in this state.'''
    out = []
    final = False
    c = st.cmd
    while c is not None:
        final = final or any(o.final and st.has(o) for o in c.options)
        c = c.parent
    for c in st.cmd.chain():
        for o in c.options:
            if o.hidden or final:
                continue
            if not o.repeatable and st.has(o):
                continue
            if any(p is not o and st.has(p) and any(g in p.groups for g in o.groups) for p in c.options):
                continue
            out.append((o, active(st, c, o.when)))
    return out


def final_elsewhere(st):
    '''Whether a final option of one command meets options of another one.'''
    c = st.cmd
    line = [c]
    while c.parent is not None:
        c = c.parent
        line.append(c)
    return any(o.final and st.has(o) for c in line for o in c.options
               if any(d is not c and d.options for d in st.cmd.chain()))


def at_positional(st):
    '''The positional under the cursor: ('sub', cmd), ('pos', p, cmd) or None.'''
    n = len(st.pos) + 1
    if st.cmd.subs and n == st.cmd.sub_number():
        return ('sub', st.cmd)
    for p in st.cmd.positionals:
        k = st.cmd.offset + p.number
        if k == n or (p.repeatable and n > k):
            return ('pos', p, st.cmd)
    return None


def counts(w):
    '''Whether a condition counts positionals.'''
    if w is None or w[0] in ('has', 'is', 'contains'):
        return False
    return True if w[0] == 'count' else any(counts(x) for x in w[1:])
