'''json.dumps and json.loads for values with symbolic text (defaults and ensure_ascii only).'''

import json

from . import core
from . import values as V
from .values import SymStr, SymInt, SymBool, SDict, mkstr, mkbool, items_of, has_sym, Unsupported


def _string(s, ascii_):
    plain = core.mask_of_pred(('json', ascii_), lambda c: json.dumps(c, ensure_ascii=ascii_)[1:-1] == c)
    out = ['"']
    for x in items_of(s):
        if isinstance(x, int):
            if mkbool(core.e_mask(x, plain)):
                out.append(x)
                continue
            x = V.fork_char(x)
        out.extend(json.dumps(x, ensure_ascii=ascii_)[1:-1])
    out.append('"')
    return out


def _dump(x, ascii_):
    if isinstance(x, (str, SymStr)):
        return _string(x, ascii_)
    if isinstance(x, SymBool):
        x = bool(x)
    if isinstance(x, SymInt):
        x = int(x)
    if x is None or isinstance(x, (bool, int, float)):
        return list(json.dumps(x))
    if isinstance(x, (list, tuple)):
        out = ['[']
        for i, y in enumerate(x):
            if i:
                out += ', '
            out += _dump(y, ascii_)
        return out + [']']
    if isinstance(x, (dict, SDict)):
        out = ['{']
        for i, (k, v) in enumerate(x.items()):
            if i:
                out += ', '
            if not isinstance(k, (str, SymStr)):
                k = json.dumps(k) if isinstance(k, (bool, int, float, type(None))) else _bad(k)
            out += _string(k, ascii_) + [':', ' '] + _dump(v, ascii_)
        return out + ['}']
    return _bad(x)


def _bad(x):
    raise TypeError(f'Object of type {type(x).__name__} is not JSON serializable')


def _native(x):
    if isinstance(x, (dict, SDict)):
        return {k: _native(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_native(y) for y in x]
    return x


def dumps(obj, ensure_ascii=True, indent=None, **kw):
    if indent is not None or kw:
        if not V.has_sym(obj, 9):
            return json.dumps(_native(obj), ensure_ascii=ensure_ascii, indent=indent, **kw)
        raise Unsupported('json.dumps options')
    return mkstr(_dump(obj, ensure_ascii))


class _Reader:
    def __init__(self, s):
        self.it = list(items_of(s))
        self.i = 0

    def peek(self):
        '''The next character, if it is written out.'''
        if self.i < len(self.it) and isinstance(self.it[self.i], str):
            return self.it[self.i]
        if self.i < len(self.it):
            c = self.it[self.i] = V.fork_char(self.it[self.i])
            return c
        return ''

    def space(self):
        while self.peek() and self.peek() in ' \t\n\r':
            self.i += 1

    def fail(self):
        raise json.JSONDecodeError('Invalid', '', self.i)

    def expect(self, c):
        if self.peek() != c:
            self.fail()
        self.i += 1

    def value(self):
        self.space()
        c = self.peek()
        if c == '"':
            return self.string()
        if c == '[':
            return self.sequence(']', self.value, [])
        if c == '{':
            d = SDict()
            for k, v in self.sequence('}', self.pair, []):
                d[k] = v
            return d
        n = self.i
        while self.peek() and self.peek() not in ' \t\n\r,]}':
            self.i += 1
        return json.loads(''.join(self.it[n:self.i]))

    def pair(self):
        self.space()
        k = self.string()
        self.space()
        self.expect(':')
        return k, self.value()

    def sequence(self, end, item, out):
        self.i += 1
        self.space()
        if self.peek() == end:
            self.i += 1
            return out
        while True:
            out.append(item())
            self.space()
            if self.peek() == end:
                self.i += 1
                return out
            self.expect(',')

    def string(self):
        self.expect('"')
        out = []
        special = core.mask_of_pred('jsonread', lambda c: c in '"\\' or c < ' ')
        while True:
            if self.i >= len(self.it):
                self.fail()
            x = self.it[self.i]
            if isinstance(x, int) and not mkbool(core.e_mask(x, special)):
                out.append(x)
                self.i += 1
                continue
            c = self.peek()
            if c == '"':
                self.i += 1
                return mkstr(out)
            if c < ' ':
                self.fail()
            if c != '\\':
                out.append(c)
                self.i += 1
                continue
            j = self.i
            self.i += 1
            n = 4 if self.peek() == 'u' else 0
            for _ in range(n + 1):
                self.peek() or self.fail()
                self.i += 1
            if n and self.it[self.i:self.i + 2] == ['\\', 'u'] and all(isinstance(y, str) for y in self.it[self.i:self.i + 6]):
                text = json.loads('"' + ''.join(self.it[j:self.i + 6]) + '"')
                if len(text) == 1:
                    self.i += 6
                    out.append(text)
                    continue
            out.append(json.loads('"' + ''.join(self.it[j:self.i]) + '"'))


def loads(s, **kw):
    if kw:
        raise Unsupported('json.loads options')
    r = _Reader(s)
    v = r.value()
    r.space()
    if r.i < len(r.it):
        r.fail()
    return v


def load(fh, **kw):
    return loads(fh.read(), **kw)


def call(name, args, kw):
    f = {'dumps': dumps, 'loads': loads, 'load': load}.get(name)
    if f is None:
        raise Unsupported(f'json.{name} with symbolic argument')
    return f(*args, **kw)
