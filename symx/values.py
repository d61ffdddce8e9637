'''Symbolic values: SymBool, SymInt, SymStr, and containers that accept them as keys.'''

import types
from collections import OrderedDict
from . import core
from .core import (engine, e_and, e_or, e_not, e_iff, e_mask, CIDX, ALPH_CHARS,
                   Unsupported, FULL, mask_of_pred, mask_of_chars, mask_chars,
                   mask_first)


# -----------------------------------------------------------------------------
# Booleans
# -----------------------------------------------------------------------------

class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return engine().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(e_iff(self.e, expr(o)))
        if isinstance(o, int):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(e_and([self.e, expr(o)]))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(e_or([self.e, expr(o)]))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return snot(self == o)

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return repr(bool(self)) if core.ENGINE else f'<SymBool {self.e}>'

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self


def mkbool(e):
    return e if e is True or e is False else SymBool(e)


def expr(x):
    '''Expression of a boolean-ish value.'''
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (SymStr,)):
        return True
    return bool(x)


def snot(x):
    if x is True or x is False:
        return not x
    if isinstance(x, SymBool):
        return mkbool(e_not(x.e))
    return not x


def sand(*xs):
    return mkbool(e_and([expr(x) for x in xs]))


def sor(*xs):
    return mkbool(e_or([expr(x) for x in xs]))


def simplies(a, b):
    return sor(snot(a), b)


# -----------------------------------------------------------------------------
# Integers (linear)
# -----------------------------------------------------------------------------

class SymInt:
    __slots__ = ('lin', 'k')

    def __init__(self, lin, k=0):
        self.lin = lin
        self.k = k

    # arithmetic
    @staticmethod
    def _coerce(o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, bool):
            return SymInt((), int(o))
        if isinstance(o, int):
            return SymInt((), o)
        if isinstance(o, SymBool):
            return SymInt((), int(bool(o)))
        return None

    def _lincomb(self, o, s):
        d = dict(self.lin)
        for v, c in o.lin:
            d[v] = d.get(v, 0) + s * c
        lin = tuple(sorted((v, c) for v, c in d.items() if c))
        k = self.k + s * o.k
        return SymInt(lin, k) if lin else k

    def __add__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else self._lincomb(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else self._lincomb(o, -1)

    def __rsub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o._lincomb(self, -1)

    def __neg__(self):
        return SymInt(tuple((v, -c) for v, c in self.lin), -self.k)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            return SymInt(tuple((v, c * o) for v, c in self.lin), self.k * o)
        if isinstance(o, (SymInt, SymBool)):
            return self * int(o)
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return int(self) // int(o)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __mod__(self, o):
        return int(self) % int(o)

    def __abs__(self):
        return self if self >= 0 else -self

    # comparison
    def _cmp(self, o, op):
        if isinstance(o, float):
            v = int(self)
            return {'le': v <= o, 'lt': v < o, 'eq': v == o, 'ge': v >= o, 'gt': v > o}[op]
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if op in ('le', 'lt'):
            d = self._lincomb(o, -1)
        else:
            d = o._lincomb(self, -1)
        if isinstance(d, int):
            return {'le': d <= 0, 'lt': d < 0, 'ge': d <= 0, 'gt': d < 0, 'eq': d == 0}[op]
        if op in ('le', 'ge'):
            return mkbool(('le', d.lin, -d.k))
        if op in ('lt', 'gt'):
            return mkbool(('le', d.lin, -d.k - 1))
        return mkbool(('ie', d.lin, -d.k))

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        return r if r is NotImplemented else snot(r)

    def __bool__(self):
        return bool(snot(self == 0))

    def __int__(self):
        '''Enumerate the feasible values by forking.'''
        eng = engine()
        lo = hi = self.k
        for v, c in self.lin:
            a, b = eng.dom[v]
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        while lo < hi:
            mid = (lo + hi) // 2 if hi - lo > 4 else lo
            if self <= mid:
                hi = mid
            else:
                lo = mid + 1
        return lo

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return repr(int(self)) if core.ENGINE else f'<SymInt {self.lin}+{self.k}>'

    __str__ = __repr__

    def __format__(self, spec):
        return format(int(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self


# -----------------------------------------------------------------------------
# Strings
# -----------------------------------------------------------------------------

def char_eq(a, b):
    '''Expression for equality of two string items.'''
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        if a == b:
            return True
        return ('ce', a, b) if a < b else ('ce', b, a)
    if ia:
        i = CIDX.get(b)
        return False if i is None else ('m', a, 1 << i)
    if ib:
        i = CIDX.get(a)
        return False if i is None else ('m', b, 1 << i)
    return a == b


def char_in(a, mask, pred=None):
    if isinstance(a, int):
        return e_mask(a, mask)
    i = CIDX.get(a)
    if i is None:
        if pred is not None:
            return bool(pred(a))
        return False
    return bool(mask >> i & 1)


def char_lt(a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return False if a == b else ('cl', a, b)
    if ia:
        m = 0
        for i, c in enumerate(ALPH_CHARS):
            if c < b:
                m |= 1 << i
        return e_mask(a, m)
    if ib:
        m = 0
        for i, c in enumerate(ALPH_CHARS):
            if c > a:
                m |= 1 << i
        return e_mask(b, m)
    return a < b


def fork_char(item):
    '''Enumerate the value of a character by forking; returns a native char.'''
    if not isinstance(item, int):
        return item
    eng = engine()
    while True:
        d = eng.dom[item]
        if not d & (d - 1):
            return ALPH_CHARS[mask_first(d)]
        n = d.bit_count()
        # halve
        half = 0
        k = n // 2
        m = d
        while k:
            low = m & -m
            half |= low
            m ^= low
            k -= 1
        eng.branch(e_mask(item, half))
        if eng.dom[item] == d:
            raise core.EngineError('fork_char made no progress')


class SymStr:
    '''A string of known length whose characters may be symbolic.'''

    __slots__ = ('it',)

    def __init__(self, items):
        self.it = tuple(items)

    # -- basics
    def __len__(self):
        return len(self.it)

    def __bool__(self):
        return bool(self.it)

    def __iter__(self):
        for x in self.it:
            yield mkstr((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(_idx(i.start), _idx(i.stop), _idx(i.step))
            return mkstr(self.it[i])
        return mkstr((self.it[_idx(i)],))

    def __add__(self, o):
        if isinstance(o, SymStr):
            return SymStr(self.it + o.it)
        if isinstance(o, str):
            return SymStr(self.it + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(tuple(o) + self.it)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.it * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import rt
        return rt.mod(self, args)

    def __eq__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return mkbool(eq_expr(self.it, it))

    def __ne__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return mkbool(e_not(eq_expr(self.it, it)))

    def _lt(self, a, b, orequal):
        # lexicographic
        es = []
        prefix = []
        n = min(len(a), len(b))
        for i in range(n):
            es.append(e_and(prefix + [char_lt(a[i], b[i])]))
            prefix.append(char_eq(a[i], b[i]))
        if len(a) < len(b) or (orequal and len(a) == len(b)):
            es.append(e_and(prefix))
        return mkbool(e_or(es))

    def __lt__(self, o):
        it = items_of(o)
        return NotImplemented if it is None else self._lt(self.it, it, False)

    def __le__(self, o):
        it = items_of(o)
        return NotImplemented if it is None else self._lt(self.it, it, True)

    def __gt__(self, o):
        it = items_of(o)
        return NotImplemented if it is None else self._lt(it, self.it, False)

    def __ge__(self, o):
        it = items_of(o)
        return NotImplemented if it is None else self._lt(it, self.it, True)

    def __contains__(self, sub):
        return bool(contains(self, sub))

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __str__(self):
        return self.concretize() if core.ENGINE else repr(self)

    def __repr__(self):
        return '<SymStr %s>' % ''.join(x if isinstance(x, str) else f'?{x}' for x in self.it)

    def __format__(self, spec):
        raise Unsupported('native format() of a symbolic string')

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self

    def concretize(self):
        return ''.join(fork_char(x) for x in self.it)

    # -- search
    def _match_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.it):
            return False
        return eq_expr(self.it[i:i + len(sub)], sub)

    def _range(self, start, end):
        n = len(self.it)
        s, e, _ = slice(_idx(start), _idx(end)).indices(n)
        if start is not None and _idx(start) > n:
            return n + 1, e
        return s, e

    def find(self, sub, start=None, end=None):
        sub = need(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if mkbool(self._match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = need(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if mkbool(self._match_at(sub, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = need(sub)
        s, e = self._range(start, end)
        if not sub:
            return max(0, e - s + 1)
        n = 0
        while s + len(sub) <= e:
            if mkbool(self._match_at(sub, s)):
                n += 1
                s += len(sub)
            else:
                s += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.startswith(x, start, end) for x in p])
        if start is not None or end is not None:
            return prefix_of(self[slice(start, end)], p)
        return mkbool(self._match_at(need(p), 0))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x, start, end) for x in p])
        if start is not None or end is not None:
            return lift(self[slice(start, end)]).endswith(p)
        p = need(p)
        return mkbool(self._match_at(p, len(self.it) - len(p)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- transform
    def replace(self, old, new, count=-1):
        old = need(old)
        new = need(new)
        out = []
        i = 0
        n = len(self.it)
        if not old:
            k = 0
            for x in self.it:
                if count < 0 or k < count:
                    out.extend(new)
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out.extend(new)
            return mkstr(out)
        while i < n:
            if count != 0 and mkbool(self._match_at(old, i)):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(self.it[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        sep = need(sep)
        if not sep:
            raise ValueError('empty separator')
        out = []
        cur = []
        i = 0
        n = len(self.it)
        while i < n:
            if maxsplit != 0 and mkbool(self._match_at(sep, i)):
                out.append(mkstr(cur))
                cur = []
                i += len(sep)
                maxsplit -= 1
            else:
                cur.append(self.it[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def _split_ws(self, maxsplit):
        out = []
        i = 0
        n = len(self.it)
        while True:
            while i < n and is_space(self.it[i]):
                i += 1
            if i >= n:
                return out
            if maxsplit == 0:
                j = n
                while j > i and is_space(self.it[j - 1]):
                    j -= 1
                out.append(mkstr(self.it[i:j]))
                return out
            j = i
            while j < n and not is_space(self.it[j]):
                j += 1
            out.append(mkstr(self.it[i:j]))
            maxsplit -= 1
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit(None, n)')
        sep = need(sep)
        out = []
        end = len(self.it)
        i = end - len(sep)
        while i >= 0 and maxsplit != 0:
            if mkbool(self._match_at(sep, i)):
                out.append(mkstr(self.it[i + len(sep):end]))
                end = i
                i -= len(sep)
                maxsplit -= 1
            else:
                i -= 1
        out.append(mkstr(self.it[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []
        cur = []
        i = 0
        n = len(self.it)
        m = mask_of_pred('lb', lambda c: len(('a' + c + 'b').splitlines()) > 1)
        while i < n:
            x = self.it[i]
            if mkbool(char_in(x, m, lambda c: len(('a' + c + 'b').splitlines()) > 1)):
                end = [x]
                if i + 1 < n and mkbool(e_and([char_eq(x, '\r'), char_eq(self.it[i + 1], '\n')])):
                    i += 1
                    end.append(self.it[i])
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def _strip_test(self, chars):
        if chars is None:
            return lambda x: bool(is_space(x))
        it = need(chars)
        return lambda x: bool(mkbool(e_or([char_eq(x, c) for c in it])))

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.it) and t(self.it[i]):
            i += 1
        return mkstr(self.it[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        j = len(self.it)
        while j > 0 and t(self.it[j - 1]):
            j -= 1
        return mkstr(self.it[:j])

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def join(self, xs):
        xs = list(xs)
        out = []
        for i, x in enumerate(xs):
            if i:
                out.extend(self.it)
            it = items_of(x)
            if it is None:
                raise TypeError(f'sequence item {i}: expected str instance')
            out.extend(it)
        return mkstr(out)

    def _map(self, f):
        out = []
        for x in self.it:
            if isinstance(x, int):
                changed = mask_of_pred(('chg', f.__name__), lambda c: f(c) != c)
                if mkbool(e_mask(x, changed)):
                    out.extend(f(fork_char(x)))
                else:
                    out.append(x)
            else:
                out.extend(f(x))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return lift(lift(self[:1]).upper()) + lift(self[1:]).lower()

    def title(self):
        return self.concretize().title()

    def _all(self, name):
        f = getattr(str, name)
        m = mask_of_pred(name, f)
        return mkbool(e_and([char_in(x, m, f) for x in self.it]))

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isascii(self):
        return self._all('isascii')

    def isprintable(self):
        return self._all('isprintable')

    def _cased(self, good, bad):
        g = mask_of_pred(good.__name__, good)
        b = mask_of_pred(bad, lambda c: (c.isupper() if bad == 'isupper' else c.islower()) or c.istitle())
        return mkbool(e_and([e_or([char_in(x, g, good) for x in self.it])] +
                            [e_not(char_in(x, b)) for x in self.it]))

    def isupper(self):
        return self._cased(str.isupper, 'islower')

    def islower(self):
        return self._cased(str.islower, 'isupper')

    def istitle(self):
        return self.concretize().istitle()

    def isidentifier(self):
        a = mask_of_pred('idstart', str.isidentifier)
        b = mask_of_pred('idcont', lambda c: ('a' + c).isidentifier())
        return mkbool(e_and([char_in(self.it[0], a, str.isidentifier)] +
                            [char_in(x, b, lambda c: ('a' + c).isidentifier()) for x in self.it[1:]]))

    def ljust(self, w, fill=' '):
        return self + fill * max(0, w - len(self))

    def rjust(self, w, fill=' '):
        return fill * max(0, w - len(self)) + self

    def center(self, w, fill=' '):
        marg = max(0, w - len(self))
        left = marg // 2 + (marg & w & 1)
        return fill * left + self + fill * (marg - left)

    def zfill(self, w):
        if mkbool(e_or([char_eq(self.it[0], '+'), char_eq(self.it[0], '-')])):
            return self[:1] + '0' * max(0, w - len(self)) + self[1:]
        return '0' * max(0, w - len(self)) + self

    def expandtabs(self, n=8):
        out = []
        col = 0
        for x in self.it:
            if mkbool(char_eq(x, '\t')):
                k = n - col % n if n else 0
                out.extend(' ' * k)
                col += k
            elif mkbool(e_or([char_eq(x, '\n'), char_eq(x, '\r')])):
                out.append(x)
                col = 0
            else:
                out.append(x)
                col += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        native = dict(table.items())
        for x in self.it:
            if isinstance(x, int):
                hit = mask_of_chars([chr(k) for k in native])
                if mkbool(e_mask(x, hit)):
                    c = fork_char(x)
                else:
                    out.append(x)
                    continue
            else:
                c = x
            if ord(c) in native:
                v = native[ord(c)]
                if v is None:
                    continue
                if isinstance(v, int):
                    v = chr(v)
                out.extend(need(v))
            else:
                out.append(c)
        return mkstr(out)

    def encode(self, *a):
        return self.concretize().encode(*a)

    def format(self, *a, **kw):
        from . import rt
        return rt.str_format(self, a, kw)


def _idx(i):
    if isinstance(i, (SymInt, SymBool)):
        return int(i)
    return i


def mkstr(items):
    '''SymStr, or a native str if no item is symbolic.'''
    items = tuple(items)
    for x in items:
        if isinstance(x, int):
            return SymStr(items)
    return ''.join(items)


def items_of(x):
    if isinstance(x, SymStr):
        return x.it
    if isinstance(x, str):
        return tuple(x)
    return None


def need(x):
    it = items_of(x)
    if it is None:
        raise TypeError(f'must be str, not {type(x).__name__}')
    return it


def lift(x):
    return x if isinstance(x, SymStr) else SymStr(tuple(x))


def eq_expr(a, b):
    if len(a) != len(b):
        return False
    es = []
    for x, y in zip(a, b):
        e = char_eq(x, y)
        if e is False:
            return False
        if e is not True:
            es.append(e)
    return e_and(es)


def prefix_of(s, p):
    return lift(s).startswith(p)


def is_space(x):
    return mkbool(char_in(x, mask_of_pred('isspace', str.isspace), str.isspace))


def contains(s, sub):
    '''SymBool: sub in s (s and sub native or symbolic strings).'''
    s = lift(s)
    sub = need(sub)
    return mkbool(e_or([s._match_at(sub, i) for i in range(len(s) - len(sub) + 1)]))


def seq(a, b):
    '''Equality of nested structures as one expression (no forking).'''
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return mkbool(eq_expr(items_of(a), items_of(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sand(*[seq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return sand(*[seq(x, y) for x, y in zip(a.items(), b.items())])
    r = a == b
    return r


def is_sym(x):
    return isinstance(x, (SymStr, SymBool, SymInt))


def has_sym(x, depth=3):
    if isinstance(x, (SymStr, SymBool, SymInt)):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


# -----------------------------------------------------------------------------
# Containers with symbolic keys (association lists; lookups fork on equality)
# -----------------------------------------------------------------------------

_MISSING = object()


def _native_key(k):
    '''True if k can be hashed natively.'''
    if isinstance(k, (SymStr, SymInt, SymBool)):
        return False
    if isinstance(k, tuple):
        return all(_native_key(x) for x in k)
    if isinstance(type(k).__hash__, types.FunctionType):
        try:
            hash(k)
        except Unsupported:
            return False        # an object whose hash depends on a symbolic value
    return True


class SDict(OrderedDict):
    '''dict replacement. Keys concrete: indexed. Symbolic keys: compared.'''

    kind = 'dict'

    def __init__(self, *a, **kw):
        self._k = []            # keys in order (slots may be _MISSING)
        self._v = []
        self._ix = {}           # native key -> slot
        self._nsym = 0
        if a:
            self._fill(a[0])
        if kw:
            self._fill(kw)

    def _fill(self, src):
        if hasattr(src, 'keys'):
            for k in src.keys():
                self[k] = src[k]
        else:
            for k, v in src:
                self[k] = v

    def _slot(self, key):
        if _native_key(key):
            i = self._ix.get(key)           # raises TypeError if unhashable
            if i is not None:
                return i
            if not self._nsym:
                return None
            for i, k in enumerate(self._k):
                if k is not _MISSING and not _native_key(k) and k == key:
                    return i
            return None
        for i, k in enumerate(self._k):
            if k is not _MISSING and type_compatible(k, key) and k == key:
                return i
        return None

    def __getitem__(self, key):
        i = self._slot(key)
        if i is None:
            return self.__missing__(key)
        return self._v[i]

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        i = self._slot(key)
        if i is None:
            if _native_key(key):
                self._ix[key] = len(self._k)
            else:
                self._nsym += 1
            self._k.append(key)
            self._v.append(value)
        else:
            self._v[i] = value

    def __delitem__(self, key):
        i = self._slot(key)
        if i is None:
            raise KeyError(key)
        self._del(i)

    def _del(self, i):
        k = self._k[i]
        if _native_key(k):
            del self._ix[k]
        else:
            self._nsym -= 1
        self._k[i] = _MISSING
        self._v[i] = None

    def __contains__(self, key):
        return self._slot(key) is not None

    def __len__(self):
        return len(self._ix) + self._nsym

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        n = len(self._k)
        for k in list(self._k):
            if k is not _MISSING:
                yield k
        if len(self._k) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter([k for k in reversed(self._k) if k is not _MISSING])

    def keys(self):
        return _View(self, lambda i: self._k[i])

    def values(self):
        return _View(self, lambda i: self._v[i])

    def items(self):
        return _View(self, lambda i: (self._k[i], self._v[i]))

    def get(self, key, default=None):
        i = self._slot(key)
        return default if i is None else self._v[i]

    def setdefault(self, key, default=None):
        i = self._slot(key)
        if i is None:
            self[key] = default
            return default
        return self._v[i]

    def pop(self, key, default=_MISSING):
        i = self._slot(key)
        if i is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._v[i]
        self._del(i)
        return v

    def popitem(self, last=True):
        rng = range(len(self._k) - 1, -1, -1) if last else range(len(self._k))
        for i in rng:
            if self._k[i] is not _MISSING:
                r = (self._k[i], self._v[i])
                self._del(i)
                return r
        raise KeyError('dictionary is empty')

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if not last:
            rest = list(self.items())
            self.clear()
            self[key] = v
            for k, w in rest:
                self[k] = w
        else:
            self[key] = v

    def update(self, *a, **kw):
        if a:
            self._fill(a[0])
        if kw:
            self._fill(kw)

    def clear(self):
        SDict.__init__(self)

    def copy(self):
        r = type(self)()
        r.__dict__.update({k: v for k, v in self.__dict__.items()
                           if k not in ('_k', '_v', '_ix', '_nsym')})
        r._fill(self)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = type(self)()
        memo[id(self)] = r
        r.__dict__.update({k: v for k, v in self.__dict__.items()
                           if k not in ('_k', '_v', '_ix', '_nsym')})
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __reduce__(self):
        raise Unsupported('pickle of SDict')

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not v == o[k]:
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        body = '{%s}' % ', '.join(f'{k!r}: {v!r}' for k, v in self.items())
        return f'OrderedDict({body})' if self.kind == 'odict' else body


class SODict(SDict):
    kind = 'odict'


class SDefaultDict(SDict):
    kind = 'defaultdict'

    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        super().__init__(*a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def clear(self):
        SDict.__init__(self)


class SCounter(SDict):
    kind = 'counter'

    def __init__(self, it=None, **kw):
        super().__init__()
        self.update(it or ())

    def update(self, it=(), **kw):
        if hasattr(it, 'items'):
            for k, v in it.items():
                self[k] = self[k] + v
        else:
            for k in it:
                self[k] = self[k] + 1

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k


class _View:
    def __init__(self, d, f):
        self.d = d
        self.f = f

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        d = self.d
        n = len(d)
        for i in range(len(d._k)):
            if d._k[i] is not _MISSING:
                yield self.f(i)
                if len(d) != n:
                    raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        return any(y == x for y in self)

    def __repr__(self):
        return f'view({list(self)!r})'

    def __eq__(self, o):
        return list(self) == list(o)

    def __and__(self, o):
        return SSet(x for x in self if x in o)

    def __sub__(self, o):
        return SSet(x for x in self if x not in o)

    def __or__(self, o):
        r = SSet(self)
        r.update(o)
        return r

    def isdisjoint(self, o):
        return not any(x in o for x in self)


def type_compatible(a, b):
    if isinstance(type(a).__hash__, types.FunctionType) and not isinstance(a, SymStr) or \
            isinstance(type(b).__hash__, types.FunctionType) and not isinstance(b, SymStr):
        return True
    sa = isinstance(a, (SymStr, str))
    sb = isinstance(b, (SymStr, str))
    if sa or sb:
        return sa and sb
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    return ta == tb


class SSet(set):
    '''set replacement: insertion ordered association list.'''

    def __init__(self, it=()):
        super().__init__()
        self._d = SDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SSet(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    def intersection(self, *its):
        return SSet(x for x in self if all(x in aslist(it) for it in its))

    def difference(self, *its):
        return SSet(x for x in self if not any(x in aslist(it) for it in its))

    def symmetric_difference(self, o):
        o = SSet(o)
        return SSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def intersection_update(self, *its):
        for x in list(self):
            if not all(x in aslist(it) for it in its):
                self.remove(x)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return SSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        o = aslist(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self)) if len(self) else 'set()'


def aslist(x):
    return x if isinstance(x, (list, tuple, SSet, SDict, _View)) else list(x)
