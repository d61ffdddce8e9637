'''Regular expressions over symbolic strings (concrete patterns).'''

import re
import re._parser as sp
import re._constants as sc

from . import core
from . import values as V
from .core import e_and, e_or, e_not, e_mask, mask_of_pred, Unsupported
from .values import SymStr, mkstr, mkbool, items_of, char_in, lift
from . import rt


_PARSED = {}
_CATS = {
    sc.CATEGORY_DIGIT: str.isdecimal,
    sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sc.CATEGORY_SPACE: str.isspace,
    sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
    sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


def _char_pred(op, arg, flags):
    '''Predicate on a native character for a single-character node.'''
    ic = flags & re.I
    if flags & re.A:
        def cat(c, a):
            r = re.compile({sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
                            sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
                            sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[a], re.A)
            return bool(r.fullmatch(c))
    else:
        def cat(c, a):
            return _CATS[a](c)

    def variants(c):
        if not ic:
            return (c,)
        return {c, c.lower() if len(c.lower()) == 1 else c, c.upper() if len(c.upper()) == 1 else c}

    if op is sc.LITERAL:
        return lambda c: any(ord(x) == arg for x in variants(c)) or \
            (ic and any(x in variants(chr(arg)) for x in variants(c)))
    if op is sc.NOT_LITERAL:
        p = _char_pred(sc.LITERAL, arg, flags)
        return lambda c: not p(c)
    if op is sc.ANY:
        if flags & re.S:
            return lambda c: True
        return lambda c: c != '\n'
    if op is sc.IN:
        neg = False
        tests = []
        for o, a in arg:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                tests.append(lambda c, a=a: ord(c) == a)
            elif o is sc.RANGE:
                tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o is sc.CATEGORY:
                tests.append(lambda c, a=a: cat(c, a))
            else:
                raise Unsupported(f'regex set item {o}')
        return lambda c: any(t(x) for t in tests for x in variants(c)) != neg
    raise Unsupported(f'regex node {op}')


class CharNode:
    __slots__ = ('pred', 'mask')

    def __init__(self, op, arg, flags):
        self.pred = _char_pred(op, arg, flags)
        self.mask = mask_of_pred(('rex', str(op), repr(arg), int(flags) & (re.I | re.S | re.A)), self.pred)

    def test(self, x):
        '''Expression: item x matches.'''
        return char_in(x, self.mask, self.pred)


def compile_tree(tree, flags):
    out = []
    for op, arg in tree:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            out.append(('c', CharNode(op, arg, flags)))
        elif op is sc.BRANCH:
            out.append(('alt', [compile_tree(t, flags) for t in arg[1]]))
        elif op is sc.SUBPATTERN:
            group, add, sub, p = arg
            f = (flags | add) & ~sub
            out.append(('grp', group, compile_tree(p, f)))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = arg
            hi = None if hi is sc.MAXREPEAT else hi
            out.append(('rep', lo, hi, op is sc.MAX_REPEAT, compile_tree(p, flags)))
        elif op is sc.POSSESSIVE_REPEAT:
            lo, hi, p = arg
            hi = None if hi is sc.MAXREPEAT else hi
            out.append(('atomic', [('rep', lo, hi, True, compile_tree(p, flags))]))
        elif op is sc.ATOMIC_GROUP:
            out.append(('atomic', compile_tree(arg, flags)))
        elif op is sc.AT:
            out.append(('at', arg, flags))
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = arg
            width = p.getwidth()
            out.append(('look', d, op is sc.ASSERT, compile_tree(p, flags), width))
        elif op is sc.GROUPREF:
            out.append(('ref', arg, flags))
        else:
            raise Unsupported(f'regex op {op}')
    return out


def has_kind(nodes, kinds):
    for n in nodes:
        if n[0] in kinds:
            return True
        if n[0] == 'alt' and any(has_kind(x, kinds) for x in n[1]):
            return True
        if n[0] == 'grp' and has_kind(n[2], kinds):
            return True
        if n[0] == 'rep' and has_kind(n[4], kinds):
            return True
        if n[0] == 'look' and has_kind(n[3], kinds):
            return True
        if n[0] == 'atomic' and has_kind(n[1], kinds):
            return True
    return False


def parse(pattern, flags=0):
    if isinstance(pattern, SymStr):
        raise Unsupported('symbolic regular expression')
    key = (pattern, int(flags))
    r = _PARSED.get(key)
    if r is None:
        rx = re.compile(pattern, flags)
        tree = sp.parse(pattern, flags)
        fl = tree.state.flags
        if not fl & re.A:
            fl |= re.U
        nodes = compile_tree(tree, fl)
        r = (nodes, rx, not has_kind(nodes, ('ref', 'atomic')))
        _PARSED[key] = r
    return r


_WORD = mask_of_pred('rexword', lambda c: c.isalnum() or c == '_')


def _is_word(x):
    return char_in(x, _WORD, lambda c: c.isalnum() or c == '_')


def at_cond(kind, s, pos, flags):
    n = len(s)
    if kind in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        if pos == 0:
            return True
        if kind is sc.AT_BEGINNING and flags & re.M:
            return V.char_eq(s[pos - 1], '\n')
        return False
    if kind is sc.AT_END:
        if pos == n:
            return True
        if flags & re.M:
            return V.char_eq(s[pos], '\n')
        if pos == n - 1:
            return V.char_eq(s[pos], '\n')
        return False
    if kind is sc.AT_END_STRING:
        return pos == n
    if kind in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
        a = _is_word(s[pos - 1]) if pos > 0 else False
        b = _is_word(s[pos]) if pos < n else False
        e = e_not(V.e_iff(a, b))
        return e if kind is sc.AT_BOUNDARY else e_not(e)
    raise Unsupported(f'regex at {kind}')


# -----------------------------------------------------------------------------
# Existence as a formula
# -----------------------------------------------------------------------------

def ends(nodes, i, s, pos, memo):
    '''dict: end position -> condition under which nodes[i:] match s[pos:end].'''
    key = (id(nodes), i, pos)
    r = memo.get(key)
    if r is not None:
        return r
    if i == len(nodes):
        r = {pos: True}
        memo[key] = r
        return r
    acc = {}
    for p, c in node_ends(nodes[i], s, pos, memo).items():
        if c is False:
            continue
        for q, d in ends(nodes, i + 1, s, p, memo).items():
            acc.setdefault(q, []).append(e_and([c, d]))
    r = {q: e_or(cs) for q, cs in acc.items()}
    r = {q: c for q, c in r.items() if c is not False}
    memo[key] = r
    return r


def node_ends(node, s, pos, memo):
    k = node[0]
    if k == 'c':
        if pos < len(s):
            return {pos + 1: node[1].test(s[pos])}
        return {}
    if k == 'grp':
        return ends(node[2], 0, s, pos, memo)
    if k == 'alt':
        acc = {}
        for alt in node[1]:
            for q, c in ends(alt, 0, s, pos, memo).items():
                acc.setdefault(q, []).append(c)
        return {q: e_or(cs) for q, cs in acc.items()}
    if k == 'rep':
        _, lo, hi, _greedy, sub = node
        result = {}
        cur = {pos: True}
        count = 0
        if lo == 0:
            result[pos] = [True]
        while cur and (hi is None or count < hi):
            nxt = {}
            for p, c in cur.items():
                for q, d in ends(sub, 0, s, p, memo).items():
                    if q == p and count >= lo:
                        continue
                    nxt.setdefault(q, []).append(e_and([c, d]))
            count += 1
            cur = {q: e_or(cs) for q, cs in nxt.items()}
            cur = {q: c for q, c in cur.items() if c is not False}
            if count >= lo:
                for q, c in cur.items():
                    result.setdefault(q, []).append(c)
            if count > lo + len(s) + 1:
                break
        return {q: e_or(cs) for q, cs in result.items()}
    if k == 'at':
        c = at_cond(node[1], s, pos, node[2])
        return {pos: c} if c is not False else {}
    if k == 'look':
        _, d, positive, sub, width = node
        if d > 0:
            c = e_or(list(ends(sub, 0, s, pos, memo).values()))
        else:
            w = width[0]
            c = False
            if pos - w >= 0:
                c = ends(sub, 0, s, pos - w, memo).get(pos, False)
        c = c if positive else e_not(c)
        return {pos: c} if c is not False else {}
    raise Unsupported(f'regex node {k}')


# -----------------------------------------------------------------------------
# Backtracking with groups (forks)
# -----------------------------------------------------------------------------

def bt(nodes, i, s, pos, g, k):
    '''Match nodes[i:] at pos; k(pos, groups) is the continuation.'''
    if i == len(nodes):
        return k(pos, g)
    node = nodes[i]
    t = node[0]
    if t == 'c':
        if pos < len(s) and mkbool(node[1].test(s[pos])):
            return bt(nodes, i + 1, s, pos + 1, g, k)
        return None
    if t == 'grp':
        num = node[1]

        def after(p, g2):
            if num is not None:
                g2 = dict(g2)
                g2[num] = (pos, p)
                g2['last'] = num
            return bt(nodes, i + 1, s, p, g2, k)
        return bt(node[2], 0, s, pos, g, after)
    if t == 'alt':
        for alt in node[1]:
            r = bt(alt, 0, s, pos, g, lambda p, g2: bt(nodes, i + 1, s, p, g2, k))
            if r is not None:
                return r
        return None
    if t == 'rep':
        _, lo, hi, greedy, sub = node

        def rep(count, p, g2, prev):
            def more():
                if hi is not None and count >= hi:
                    return None
                if count >= lo and p == prev:
                    return None
                return bt(sub, 0, s, p, g2,
                          lambda q, g3: rep(count + 1, q, g3, p))

            def stop():
                if count < lo:
                    return None
                return bt(nodes, i + 1, s, p, g2, k)
            if greedy:
                r = more()
                return r if r is not None else stop()
            r = stop()
            return r if r is not None else more()
        return rep(0, pos, g, -1)
    if t == 'at':
        if mkbool(at_cond(node[1], s, pos, node[2])):
            return bt(nodes, i + 1, s, pos, g, k)
        return None
    if t == 'look':
        _, d, positive, sub, width = node
        start = pos if d > 0 else pos - width[0]
        r = None
        if start >= 0:
            if d > 0:
                r = bt(sub, 0, s, start, g, lambda p, g2: g2)
            else:
                r = bt(sub, 0, s, start, g, lambda p, g2: g2 if p == pos else None)
        if (r is not None) == positive:
            return bt(nodes, i + 1, s, pos, r if positive else g, k)
        return None
    if t == 'atomic':
        r = bt(node[1], 0, s, pos, g, lambda p, g2: (p, g2))
        if r is None:
            return None
        return bt(nodes, i + 1, s, r[0], r[1], k)
    if t == 'ref':
        if node[1] not in g:
            return None
        a, b = g[node[1]]
        n = b - a
        if pos + n <= len(s) and mkbool(V.eq_expr(s[a:b], s[pos:pos + n])):
            return bt(nodes, i + 1, s, pos + n, g, k)
        return None
    raise Unsupported(f'regex node {t}')


class SymMatch(rt.LazyBase):
    '''A match object whose existence and groups are decided on demand.'''

    def __init__(self, comp, s, pos, endpos, mode):
        self.nodes, self.re, self.formula = comp
        self.string = mkstr(s)
        self._s = s
        self.pos = pos
        self.endpos = endpos
        self.mode = mode
        self._cond = None
        self._found = None          # (start, end, groups)
        self._done = False

    def cond(self):
        if self._cond is None:
            if not self.formula:
                self._cond = self._solve() is not None
            else:
                s = self._s[:self.endpos]
                memo = {}
                if self.mode == 'search':
                    c = e_or([e_or(list(ends(self.nodes, 0, s, p, memo).values()))
                              for p in range(self.pos, len(s) + 1)])
                else:
                    d = ends(self.nodes, 0, s, self.pos, memo)
                    if self.mode == 'fullmatch':
                        c = d.get(len(s), False)
                    else:
                        c = e_or(list(d.values()))
                self._cond = mkbool(c)
        return self._cond

    def __bool__(self):
        return bool(self.cond())

    def _solve(self):
        if self._done:
            return self._found
        self._done = True
        s = self._s[:self.endpos]
        starts = range(self.pos, len(s) + 1) if self.mode == 'search' else [self.pos]
        for p in starts:
            if self.mode == 'fullmatch':
                k = lambda e, g: (e, g) if e == len(s) else None
            else:
                k = lambda e, g: (e, g)
            r = bt(self.nodes, 0, s, p, {}, k)
            if r is not None:
                self._found = (p, r[0], r[1])
                break
        return self._found

    def _need(self):
        f = self._solve()
        if f is None:
            raise AttributeError("'NoneType' object has no attribute (no match)")
        return f

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        a, b, gs = self._need()
        g = self._gid(g)
        if g == 0:
            return (a, b)
        return gs.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(self._s[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        self._need()
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        self._need()
        return V.SDict([(n, self._one(i, default)) for n, i in self.re.groupindex.items()])

    @property
    def lastindex(self):
        return self._need()[2].get('last')

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, j in self.re.groupindex.items():
            if j == i:
                return n
        return None

    def expand(self, tmpl):
        return expand(tmpl, self)


def expand(tmpl, m):
    if isinstance(tmpl, SymStr):
        if '\\' not in tmpl:
            return tmpl
        raise Unsupported('symbolic replacement template')
    parsed = sp.parse_template(tmpl, m.re)
    out = []
    for p in parsed:
        if isinstance(p, int):
            out.extend(items_of(m._one(p) or ''))
        else:
            out.extend(p)
    return mkstr(out)


def _mk(pattern, flags, string, mode, pos=0, endpos=None):
    comp = parse(pattern, flags)
    s = items_of(string)
    if s is None:
        raise TypeError('expected string or bytes-like object')
    end = len(s) if endpos is None else min(endpos, len(s))
    m = SymMatch(comp, s, min(pos, len(s)), end, mode)
    c = m.cond()
    if c is False:
        return None
    return m


def finditer(pattern, flags, string, pos=0):
    comp = parse(pattern, flags)
    s = items_of(string)
    out = []
    while pos <= len(s):
        found = None
        for p in range(pos, len(s) + 1):
            r = bt(comp[0], 0, s, p, {}, _cont(p, out))
            if r is not None:
                found = (p, r[0], r[1])
                break
        if found is None:
            break
        m = SymMatch(comp, s, pos, len(s), 'search')
        m._done = True
        m._found = found
        m._cond = True
        out.append(m)
        pos = found[1]
    return out


def _cont(p, out):
    # Python >= 3.7: an empty match is allowed right after a non-empty match,
    # but not at the position of a previous (empty) match.
    prev_empty_at = None
    if out:
        a, b, _ = out[-1]._found
        if a == b:
            prev_empty_at = a

    def k(e, g):
        if e == p and p == prev_empty_at:
            return None
        return (e, g)
    return k


def sub(pattern, flags, repl, string, count=0):
    s = items_of(string)
    ms = finditer(pattern, flags, string)
    if count:
        ms = ms[:count]
    out = []
    pos = 0
    for m in ms:
        a, b, _ = m._found
        out.extend(s[pos:a])
        if isinstance(repl, (str, SymStr)):
            out.extend(items_of(expand(repl, m)))
        else:
            out.extend(items_of(rt.call(repl, m)))
        pos = b
    out.extend(s[pos:])
    return mkstr(out), len(ms)


def split(pattern, flags, string, maxsplit=0):
    s = items_of(string)
    ms = finditer(pattern, flags, string)
    if maxsplit:
        ms = ms[:maxsplit]
    out = []
    pos = 0
    for m in ms:
        a, b, _ = m._found
        out.append(mkstr(s[pos:a]))
        out.extend(m.groups())
        pos = b
    out.append(mkstr(s[pos:]))
    return out


def findall(pattern, flags, string):
    out = []
    for m in finditer(pattern, flags, string):
        n = m.re.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m._one(1, ''))
        else:
            out.append(m.groups(''))
    return out


def module_func(name, args, kw):
    f = getattr(re, name)
    if name in ('compile', 'escape', 'purge', 'template'):
        if args and isinstance(args[0], SymStr):
            raise Unsupported('symbolic regular expression')
        return f(*args, **kw)
    args = list(args)
    names = {'match': ['pattern', 'string', 'flags'], 'fullmatch': ['pattern', 'string', 'flags'],
             'search': ['pattern', 'string', 'flags'], 'findall': ['pattern', 'string', 'flags'],
             'finditer': ['pattern', 'string', 'flags'],
             'sub': ['pattern', 'repl', 'string', 'count', 'flags'],
             'subn': ['pattern', 'repl', 'string', 'count', 'flags'],
             'split': ['pattern', 'string', 'maxsplit', 'flags']}[name]
    b = dict(zip(names, args))
    b.update(kw)
    pat = b.pop('pattern')
    flags = b.pop('flags', 0)
    if isinstance(pat, re.Pattern):
        flags = pat.flags
        pat = pat.pattern
    return _dispatch(pat, flags, name, b)


def pattern_method(p, name, args, kw):
    if name in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
        names = ['string', 'pos', 'endpos']
    elif name in ('sub', 'subn'):
        names = ['repl', 'string', 'count']
    elif name == 'split':
        names = ['string', 'maxsplit']
    else:
        return getattr(p, name)(*args, **kw)
    b = dict(zip(names, args))
    b.update(kw)
    return _dispatch(p.pattern, p.flags & ~re.U, name, b)


def _dispatch(pat, flags, name, b):
    string = b['string']
    if isinstance(pat, SymStr):
        raise Unsupported('symbolic regular expression')
    repl = b.get('repl')
    if not isinstance(string, SymStr) and not isinstance(repl, SymStr) and not callable(repl):
        return getattr(re.compile(pat, flags), name)(**b) if name not in ('match', 'fullmatch', 'search', 'finditer', 'findall') \
            else getattr(re.compile(pat, flags), name)(string, *[b[k] for k in ('pos', 'endpos') if k in b])
    if name in ('match', 'fullmatch', 'search'):
        return _mk(pat, flags, string, name, b.get('pos', 0), b.get('endpos'))
    if name == 'finditer':
        return iter(finditer(pat, flags, string, b.get('pos', 0)))
    if name == 'findall':
        return findall(pat, flags, string)
    if name == 'sub':
        return sub(pat, flags, b['repl'], string, b.get('count', 0))[0]
    if name == 'subn':
        return sub(pat, flags, b['repl'], string, b.get('count', 0))
    return split(pat, flags, string, b.get('maxsplit', 0))
