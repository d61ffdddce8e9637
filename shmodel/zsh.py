'''Interpreter for the subset of Zsh that crazy-complete's generated scripts use.

Built on the Bash interpreter; the differences that matter are arrays that start at 1, parameter
flags, no word splitting of unquoted expansions, brace expansion with quoted parts, and the options
under which the completion system runs functions (extendedglob, nullglob, rcexpandparam).
Anything else raises Unsupported.
'''

from symx.core import Unsupported
from symx.values import SymStr, mkstr
from . import bash
from .bash import Arith, Bash, Node, Parser, Var, cat, isc, it, native, META, NAME0, DIGITS, ShellError

GLOB = '*?[]<>()|#^~'


class ZshParser(Parser):
    def word(self, stops=META, empty_ok=True, assign=False):
        if stops is not META:
            return super().word(stops, empty_ok, assign)
        out = []
        start = self.i
        while self.i < self.n:
            if self.at('{') and not self.at('}', 1):
                out.append(self.brace())
                continue
            j = self.i
            w = super().word(BRACE_STOP, True, assign)
            out.extend(w.a)
            if self.i == j:
                break
        if not out and self.i == start:
            self.err('word expected')
        return Node('word', out)

    def brace(self):
        self.expect('{')
        alts = []
        while True:
            alts.append(Parser.word(self, BRACE_IN, True))
            if self.at(','):
                self.i += 1
                continue
            self.expect('}')
            break
        if len(alts) < 2:
            raise Unsupported('brace without a comma')
        return Node('brace', alts)

    def param(self, q):
        flags = ''
        split = False
        if self.at('('):
            self.i += 1
            while not self.at(')'):
                if self.at('@QL', 0):
                    flags += next(c for c in '@QL' if self.at(c))
                else:
                    raise Unsupported('parameter flag')
                self.i += 1
            self.i += 1
        if self.at('=') and not self.at('}', 1):
            split = True
            self.i += 1
        pe = super().param(q)
        if flags or split:
            return Node('zpe', pe, flags.replace('@', ''), split)
        return pe

    def assignment(self, decl=False):
        return super().assignment(decl)


BRACE_STOP = META + '{'
BRACE_IN = META + ',}'


def alternatives(word):
    '''Brace expansion.'''
    out = [[]]
    for p in word.a:
        if p.k == 'brace':
            alts = [a for w in p.a for a in alternatives(w)]
            out = [x + a for x in out for a in alts]
        else:
            out = [x + [p] for x in out]
    return out


class Zsh(Bash):
    def __init__(self, builtins=None):
        super().__init__(builtins)

    # arrays start at 1; the dictionaries of the base class hold them from 0
    def elem(self, name, sub):
        raw = sub.a if isinstance(sub.a, str) else None
        if raw is not None and raw.startswith('(i)'):
            vals = list(self.args[-1]) if name in '@*' else self.array(name)
            key = raw[3:]
            if any(c in key for c in GLOB + '$"\\\''):
                raise Unsupported('subscript pattern')
            for j, v in enumerate(vals):
                if v == key:
                    return str(j + 1)
            return str(len(vals) + 1)
        if name in ('@', '*') or name.isdigit():
            raise Unsupported('subscript of a positional')
        v = self.find(name)
        if v is not None and v.kind == 'A':
            raise Unsupported('associative array')
        idx = self.sub_index(sub)
        if v is None or v.v is None:
            return None
        if v.kind == 's':
            s = it(v.v)
            if idx == 0 or abs(idx) > len(s):
                return ''
            return mkstr([s[idx - 1 if idx > 0 else idx]])
        vals = self.array(name)
        if idx == 0 or abs(idx) > len(vals):
            return None
        return vals[idx - 1 if idx > 0 else idx]

    def sub_index(self, sub):
        p = ZshParser(sub.a)
        node = Arith(p).expr_or_empty()
        if p.i < p.n:
            raise ShellError('arithmetic syntax error: ' + p.ctx())
        return self.num(node)

    def get(self, name):
        v = self.find(name)
        if v is not None and v.kind == 'a':
            raise Unsupported('array without a subscript')
        return super().get(name)

    def positional(self, name):
        if name == '0':
            raise Unsupported('$0')
        return super().positional(name)

    def param(self, pe, q, split):
        if pe.k == 'pe' and pe.a in ('@', '*') and pe.b not in (None, '@', '*'):
            if pe.c is not None:
                raise Unsupported('operator on a positional')
            return self.elem(pe.a, pe.b)
        if pe.k != 'zpe':
            return super().param(pe, q, split)
        base, flags, words = pe.a, pe.b, pe.c
        v = super().param(base, q, split)
        if base.b in ('@', '*') or base.a in ('@', '*'):
            vals = list(v)
        else:
            vals = v if v is not None else ''
        for f in flags:
            fn = dequote if f == 'Q' else lower
            vals = [fn(x) for x in vals] if isinstance(vals, list) else fn(vals)
        if words:
            if q or isinstance(vals, list):
                raise Unsupported('${=..} in quotes')
            return Split(bash.split_read(it(vals), ' \t\n', None))
        return vals

    def expand_word(self, word, split=True):
        if any(p.k == 'brace' for p in word.a):
            raise Unsupported('brace expansion here')
        for p in word.a:
            if p.k == 'param' and p.a.k == 'zpe' and p.a.c:
                if len(word.a) != 1:
                    raise Unsupported('${=..} next to other text')
                v = self.param(p.a, p.b, split)
                return [[(c, False) for c in it(x)] for x in v.vals]
        return super().expand_word(word, split)

    def _add_split(self, text, q, split, add, brk):
        # unquoted expansions are not split
        add([c for c in it(text)] if not q else it(text), q)
        if q:
            add('', True)

    def expand_fields(self, word):
        out = []
        for parts in alternatives(word):
            w = Node('word', parts)
            lits = {id(p) for p in parts if p.k == 'lit'}
            if not lits or len(lits) != len(parts):
                fs = self.expand_word(w)
                # the result of an expansion is not globbed; literal parts beside it must be plain
                for p in parts:
                    if p.k == 'lit' and not p.b and any(isc(c, GLOB) for c in it(p.a)):
                        raise Unsupported('glob')
                out.extend(mkstr([c for c, _q in f]) for f in fs)
                continue
            for f in self.expand_word(w):
                if any((not q) and isc(c, '*?[]<>()|#^~') for c, q in f):
                    # nullglob: a pattern without matching files disappears
                    continue
                if f and not f[0][1] and isc(f[0][0], '='):
                    raise Unsupported('=command')
                out.append(mkstr([c for c, _q in f]))
        return out

    def pattern(self, word):
        for p in word.a:
            if p.k == 'lit' and not p.b and any(isc(c, '()|#^~<>') for c in it(p.a)):
                raise Unsupported('Zsh pattern')
            if p.k == 'param' and not p.b:
                raise Unsupported('unquoted parameter as a pattern')
        return super().pattern(word)

    def slice(self, name, vals, arg):
        if name in ('@', '*'):
            a, b = arg
            start = self.num(a)
            if start < 1:
                raise Unsupported('${@:0}')
            rest = vals[start - 1:]
            if b is None:
                return rest
            n = self.num(b)
            if n < 0:
                raise Unsupported('negative length')
            return rest[:n]
        return super().slice(name, vals, arg)

    def bi_test(self, a):
        if len(a) == 3 and native(a[1]) in ('-lt', '-gt', '-eq', '-ne', '-le', '-ge'):
            x, y = self.to_int(a[0]), self.to_int(a[2])
            op = native(a[1])
            return int(not {'-lt': x < y, '-gt': x > y, '-eq': x == y, '-ne': x != y, '-le': x <= y, '-ge': x >= y}[op])
        if len(a) == 3 and native(a[1]) in ('=', '==', '!='):
            return int((a[0] == a[2]) != (native(a[1]) != '!='))
        if len(a) == 2 and native(a[0]) in ('-n', '-z'):
            return int((len(a[1]) > 0) != (native(a[0]) == '-n'))
        raise Unsupported('test')

    def bi_zstyle(self, a):
        return 0

    def bi_compdef(self, a):
        return 0

    def bi_setopt(self, a):
        return 0


class Split:
    def __init__(self, vals):
        self.vals = vals


def lower(x):
    return x.lower()


def dequote(x):
    '''${(Q)...} of one word.'''
    s = it(x)
    out = []
    i = 0
    n = len(s)
    plain = True
    for c in s:
        if isc(c, '\\\'"$`'):
            plain = False
            break
    if plain:
        return x
    while i < n:
        c = s[i]
        if isc(c, '\\'):
            if i + 1 < n:
                out.append(s[i + 1])
            i += 2
        elif isc(c, "'"):
            i += 1
            while i < n and not isc(s[i], "'"):
                out.append(s[i])
                i += 1
            if i >= n:
                raise Unsupported('(Q) of an open quote')
            i += 1
        elif isc(c, '"$`'):
            raise Unsupported('(Q) of a double quote')
        else:
            out.append(c)
            i += 1
    return mkstr(out)


_CACHE = {}


def parse(text):
    if type(text) is str:
        r = _CACHE.get(text)
        if r is None:
            if len(_CACHE) > 300:
                _CACHE.clear()
            r = _CACHE[text] = ZshParser(text).parse()
        return r
    return ZshParser(text).parse()
