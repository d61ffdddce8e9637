'''Runtime that instrumented code calls into.'''

import builtins
import collections
import collections.abc
import copy
import functools
import itertools
import operator
import re
import subprocess
import types

from . import core
from . import values as V
from .values import (SymBool, SymInt, SymStr, SDict, SODict, SDefaultDict, SCounter,
                     SSet, mkstr, mkbool, items_of, lift, has_sym, sor, snot, Unsupported)
from .core import engine

_SYM = (SymBool, SymInt, SymStr)


# -----------------------------------------------------------------------------
# str() / repr() / formatting
# -----------------------------------------------------------------------------

def to_str(x):
    '''str(x) that may return a SymStr.'''
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymBool or t is SymInt:
        return str(x)
    if t in (int, float, type(None), bool):
        return str(x)
    if isinstance(x, BaseException) and t.__str__ is BaseException.__str__:
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return to_str(x.args[0])
        return to_repr(x.args)
    f = t.__str__
    if f is object.__str__:
        return to_repr(x)
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)):
        return to_repr(x)
    if has_sym(x):
        raise Unsupported(f'str() of {t.__name__}')
    return str(x)


def to_repr(x):
    t = type(x)
    if t is SymStr:
        return repr_symstr(x)
    if isinstance(x, (SDict, SSet, list, tuple)) and type(x).__repr__ in (
            SDict.__repr__, SSet.__repr__, list.__repr__, tuple.__repr__):
        if not has_sym(x):
            return repr(x)
        if isinstance(x, SDict):
            body = join_any(', ', [mkcat(to_repr(k), ': ', to_repr(v)) for k, v in x.items()])
            r = mkcat('{', body, '}')
            return mkcat('OrderedDict(', r, ')') if x.kind == 'odict' else r
        body = join_any(', ', [to_repr(y) for y in x])
        if isinstance(x, SSet):
            return mkcat('{', body, '}')
        if isinstance(x, tuple):
            return mkcat('(', body, ',)' if len(x) == 1 else ')')
        return mkcat('[', body, ']')
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def join_any(sep, xs):
    return lift(sep).join(xs)


def mkcat(*xs):
    out = []
    for x in xs:
        out.extend(items_of(x))
    return mkstr(out)


def repr_symstr(s):
    '''Python repr() of a symbolic string (forks on quoting decisions).'''
    has_sq = V.contains(s, "'")
    q = "'"
    if has_sq and not V.contains(s, '"'):
        q = '"'
    out = [q]
    plain = core.mask_of_pred(('reprplain', q), lambda c: repr(c)[1:-1] == c and c not in '\\\'"')
    for x in s.it:
        if isinstance(x, int):
            if mkbool(core.e_mask(x, plain)):
                out.append(x)
                continue
            x = V.fork_char(x)
        if x == q or x == '\\':
            out += ['\\', x]
        elif x in '\'"':
            out.append(x)
        else:
            out.extend(repr(x)[1:-1])
    out.append(q)
    return mkstr(out)


def fmt(value, conv, spec):
    if conv == 'r':
        value = to_repr(value)
    elif conv == 's':
        value = to_str(value)
    elif conv == 'a':
        value = ascii(to_str(value))
    if isinstance(spec, SymStr):
        spec = spec.concretize()
    if isinstance(value, SymStr):
        if not spec:
            return value
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', spec)
        if not m:
            raise Unsupported(f'format spec {spec!r}')
        fill, align, width = m.group(1) or ' ', m.group(2) or '<', int(m.group(3) or 0)
        return {'<': value.ljust, '>': value.rjust, '^': value.center}[align](width, fill)
    if not spec:
        return to_str(value)
    if isinstance(value, (SymInt, SymBool)):
        value = int(value)
    return format(value, spec)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(fmt(*p))
    return mkcat(*out) if any(isinstance(x, SymStr) for x in out) else ''.join(out)


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def mod(a, b):
    if not isinstance(a, (str, SymStr)):
        if isinstance(a, (SymInt, SymBool)):
            a = int(a)
        if isinstance(b, (SymInt, SymBool)):
            b = int(b)
        return a % b
    if isinstance(a, SymStr):
        # a format string with symbolic characters: no '%' may hide in them
        if any(isinstance(x, int) and mkbool(V.char_eq(x, '%')) for x in a.it):
            a = a.concretize()
            return mod(a, b)
        return _mod_items(list(a.it), b)
    if not has_sym(b) and not _has_custom(b):
        return a % b
    return _mod_items(list(a), b)


def _has_custom(b):
    xs = b if isinstance(b, tuple) else (b,)
    return any(not isinstance(x, (str, int, float, type(None))) for x in xs)


def _mod_items(items, b):
    # token-ise: the concrete skeleton drives the parse
    skel = ''.join(x if isinstance(x, str) else '\ue000' for x in items)
    out = []
    pos = 0
    args = b if isinstance(b, tuple) else (b,)
    ai = 0
    used_map = False
    while pos < len(skel):
        if skel[pos] != '%':
            out.append(items[pos])
            pos += 1
            continue
        m = _PCT.match(skel, pos)
        if not m:
            raise ValueError('unsupported format character')
        key, flags, width, prec, kind = m.groups()
        pos = m.end()
        if kind == '%':
            out.append('%')
            continue
        if width == '*':
            raise Unsupported('%*')
        if key is not None:
            val = b[key]
            used_map = True
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            val = args[ai]
            ai += 1
        if kind in 'sra':
            r = to_str(val) if kind == 's' else to_repr(val)
            if prec is not None:
                r = r[:int(prec)]
            if width:
                r = lift(r).ljust(int(width)) if '-' in flags else lift(r).rjust(int(width))
        else:
            if isinstance(val, (SymInt, SymBool)):
                val = int(val)
            if isinstance(val, SymStr):
                raise TypeError(f'%{kind} format: a number is required, not str')
            spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + kind
            r = spec % (val,)
        out.extend(items_of(r))
    if ai < len(args) and not used_map and not isinstance(b, dict):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


def str_format(s, args, kw):
    import string
    if isinstance(s, SymStr):
        for x in s.it:
            if isinstance(x, int) and sor(mkbool(V.char_eq(x, '{')), mkbool(V.char_eq(x, '}'))):
                return str_format(s.concretize(), args, kw)
        # protect symbolic chars with private-use characters
        table = {}
        nat = []
        for x in s.it:
            if isinstance(x, int):
                c = chr(0xE000 + len(table))
                table[c] = x
                nat.append(c)
            else:
                nat.append(x)
        nat = ''.join(nat)
    else:
        table = {}
        nat = s
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(nat):
        out.extend(table.get(c, c) for c in lit)
        if field is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(field)
        if first == '':
            val = args[auto]
            auto += 1
        elif isinstance(first, int):
            val = args[first]
        else:
            val = kw[first]
        for is_attr, name in rest:
            val = getattr(val, name) if is_attr else val[name]
        out.extend(items_of(fmt(val, conv, spec)))
    return mkstr(out)


# -----------------------------------------------------------------------------
# Operators
# -----------------------------------------------------------------------------

def contains(a, b):
    '''a in b'''
    if isinstance(b, (str, SymStr)):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return V.contains(b, a)
        return a in b
    t = type(b)
    if t in (list, tuple):
        if isinstance(a, SymStr) and all(isinstance(x, (str, SymStr)) for x in b):
            return sor(*[a == x for x in b])
        if isinstance(a, str) and any(isinstance(x, SymStr) for x in b):
            return sor(*[(a == x) for x in b if isinstance(x, (str, SymStr))])
        return a in b
    if isinstance(a, _SYM) or (isinstance(a, tuple) and has_sym(a)):
        if t in (set, frozenset):
            return sor(*[V.seq(a, x) for x in sorted(b, key=repr) if V.type_compatible(a, x)])
        if t is dict:
            return sor(*[V.seq(a, x) for x in b if V.type_compatible(a, x)])
        if isinstance(a, SymInt) and t is range:
            return int(a) in b
    return a in b


def not_contains(a, b):
    return snot(contains(a, b))


def is_(a, b):
    if type(b) is bool and type(a) is SymBool:
        return a == b
    if type(a) is bool and type(b) is SymBool:
        return a == b
    if isinstance(a, LazyBase) and b is None:
        return snot(a.cond())
    return a is b


def is_not(a, b):
    return snot(is_(a, b))


class LazyBase:
    '''Base of lazily decided match objects (see rex).'''

    def cond(self):
        raise NotImplementedError


def chain(ops, first, *rest):
    '''a op b op c (operands given as thunks after the first).'''
    left = first
    r = True
    for op, th in zip(ops, rest):
        right = th()
        r = CMP[op](left, right)
        if not r:
            return r
        left = right
    return r


CMP = {
    'in': contains, 'notin': not_contains, 'is': is_, 'isnot': is_not,
    'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
    'gt': operator.gt, 'ge': operator.ge,
}


def getitem(o, k):
    if isinstance(k, _SYM):
        if type(o) is dict:
            for x in o:
                if V.type_compatible(x, k) and x == k:
                    return o[x]
            raise KeyError(k)
    elif isinstance(k, tuple) and type(o) is dict and has_sym(k):
        for x in o:
            if V.type_compatible(x, k) and x == k:
                return o[x]
        raise KeyError(k)
    return o[k]


def mkdict(*pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def kwargs(d):
    '''Native dict for ** expansion.'''
    return {(k.concretize() if isinstance(k, SymStr) else k): v for k, v in d.items()}


# -----------------------------------------------------------------------------
# Calls
# -----------------------------------------------------------------------------

def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(s_isinstance(x, y) for y in t.__args__)
    if isinstance(x, SymStr):
        return t in (str, object, collections.abc.Hashable) or getattr(t, '__name__', '') == 'SymStr'
    if isinstance(x, SymBool):
        return t in (bool, int, object)
    if isinstance(x, SymInt):
        return t in (int, object)
    if isinstance(x, SDict):
        if t is collections.OrderedDict:
            return x.kind == 'odict'
        if t is collections.defaultdict:
            return x.kind == 'defaultdict'
        if t is collections.Counter:
            return x.kind == 'counter'
    return isinstance(x, t)


def s_type(x, *rest):
    if rest:
        return type(x, *rest)
    t = type(x)
    if t is SymStr:
        return str
    if t is SymBool:
        return bool
    if t is SymInt:
        return int
    if t is SDict:
        return dict
    if t is SODict:
        return collections.OrderedDict
    if t is SDefaultDict:
        return collections.defaultdict
    if t is SCounter:
        return collections.Counter
    if t is SSet:
        return set
    return t


def s_str(x='', *a):
    if a:
        return str(x, *a)
    return to_str(x)


def s_int(x=0, base=None):
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymStr):
        # classify characters before enumerating them
        ok = core.mask_of_pred('intchars', lambda c: c.isdecimal() or c.isspace() or c in '+-_' or
                               (c.isascii() and c.isalnum()))
        for it in x.it:
            if not mkbool(V.char_in(it, ok, lambda c: c.isdecimal() or c.isspace() or c in '+-_')):
                raise ValueError('invalid literal for int()')
        dec = core.mask_of_pred('intchars10', lambda c: c.isdecimal() or c.isspace() or c in '+-_')
        if base is None or base == 10:
            for it in x.it:
                if not mkbool(V.char_in(it, dec, lambda c: c.isdecimal() or c.isspace() or c in '+-_')):
                    raise ValueError('invalid literal for int()')
        x = x.concretize()
    if base is None:
        return int(x)
    return int(x, base)


def s_float(x=0.0):
    if isinstance(x, SymStr):
        ok = core.mask_of_chars('0123456789+-_.eEinfatyINFATY \t\n\r\x0b\x0c') | core.mask_of_pred(
            'fdec', lambda c: c.isdecimal() or c.isspace())
        for it in x.it:
            if not mkbool(V.char_in(it, ok, lambda c: c.isdecimal() or c.isspace())):
                raise ValueError('could not convert string to float')
        x = x.concretize()
    if isinstance(x, (SymInt, SymBool)):
        x = int(x)
    return float(x)


def s_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def s_len(x):
    return len(x)


def s_repr(x):
    return to_repr(x)


def s_any(it):
    # keep formulas unforked where the items are already there
    for x in it:
        if x:
            return True
    return False


def s_dict(*a, **kw):
    return SDict(*a, **kw)


def s_set(*a):
    return SSet(*a)


def s_hash(x):
    if isinstance(x, SymStr):
        raise Unsupported('hash()')
    return hash(x)


def s_ord(c):
    if isinstance(c, SymStr):
        if len(c.it) != 1:
            raise TypeError('ord() expected a character')
        return ord(V.fork_char(c.it[0]))
    return ord(c)


def s_print(*a, **kw):
    PRINTED.append([to_str(x) for x in a])


PRINTED = []


def s_hasattr(o, name):
    if isinstance(name, SymStr):
        name = name.concretize()
    if isinstance(o, SymStr) and not hasattr(str, name):
        return False
    if isinstance(o, SymStr):
        return True
    if isinstance(o, SymBool):
        return hasattr(True, name)
    if isinstance(o, SymInt):
        return hasattr(1, name)
    return hasattr(o, name)


def s_getattr(o, name, *d):
    if isinstance(name, SymStr):
        # only names the object has can succeed
        for n in sorted(dir(o)):
            if len(n) == len(name) and name == n:
                return getattr(o, n)
        if d:
            return d[0]
        raise AttributeError(name)
    return getattr(o, name, *d)


def s_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def s_ordereddict(*a, **kw):
    return SODict(*a, **kw)


def s_defaultdict(*a, **kw):
    return SDefaultDict(*a, **kw)


def s_counter(*a, **kw):
    return SCounter(*a, **kw)


def s_callable(x):
    return callable(x)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_escape(p):
    '''re.escape'''
    if not isinstance(p, SymStr):
        return re.escape(p)
    special = core.mask_of_pred('re.escape', lambda c: re.escape(c) != c)
    out = []
    for x in p.it:
        if isinstance(x, int):
            if mkbool(core.e_mask(x, special)):
                out.append('\\')
            out.append(x)
        else:
            out.extend(re.escape(x))
    return mkstr(out)


INTERCEPT = {
    id(f): g for f, g in [
        (isinstance, s_isinstance), (type, s_type), (str, s_str), (int, s_int),
        (float, s_float), (bool, s_bool), (repr, s_repr), (dict, s_dict), (set, s_set),
        (frozenset, s_set), (hash, s_hash), (ord, s_ord), (print, s_print),
        (hasattr, s_hasattr), (getattr, s_getattr), (sum, s_sum),
        (collections.OrderedDict, s_ordereddict), (collections.defaultdict, s_defaultdict),
        (collections.Counter, s_counter), (re.escape, s_escape),
        (operator.contains, lambda a, b: contains(b, a)),
        (operator.is_, is_), (operator.is_not, is_not), (operator.mod, mod),
    ]
}

# replacements of the code under test's environment, set by harnesses
STUBS = {}


def _concrete(x):
    if isinstance(x, SymStr):
        return x.concretize()
    if type(x) in (list, tuple):
        return type(x)(_concrete(i) for i in x)
    return x


def _subprocess(f):
    '''Other programs are run for every value their arguments can have.'''
    def run(*args, **kw):
        return f(*_concrete(args), **{k: _concrete(v) for k, v in kw.items()})
    return run


for _f in (subprocess.run, subprocess.call, subprocess.check_output, subprocess.Popen):
    INTERCEPT[id(_f)] = _subprocess(_f)

_BUILTIN = types.BuiltinFunctionType
_MDESC = types.MethodDescriptorType
_PATTERN_METHOD = type(re.compile('').match)


def call(f, /, *args, **kw):
    eng = core.ENGINE
    if eng is not None:
        eng.tick()
    g = INTERCEPT.get(id(f))
    if g is not None:
        return g(*args, **kw)
    g = STUBS.get(id(f))
    if g is not None:
        return g(*args, **kw)
    t = type(f)
    if t is _BUILTIN or t is _PATTERN_METHOD:
        s = f.__self__
        ts = type(s)
        if ts is str:
            name = f.__name__
            if name == 'join':
                xs = list(args[0])
                if any(isinstance(x, SymStr) for x in xs):
                    return SymStr(s).join(xs)
                return f(xs)
            if name == 'format':
                if any(not isinstance(a, (str, int, float)) for a in args) or \
                        any(not isinstance(a, (str, int, float)) for a in kw.values()):
                    return str_format(s, args, kw)
                return f(*args, **kw)
            if name == 'format_map':
                return str_format(s, (), args[0])
            if has_sym(args) or (name == 'translate' and type(args[0]) is not dict):
                return getattr(SymStr(s), name)(*args, **kw)
            return f(*args, **kw)
        if isinstance(s, re.Pattern):
            from . import rex
            return rex.pattern_method(s, f.__name__, args, kw)
        if ts in (set, frozenset, dict) and args and has_sym(args):
            if ts is dict:
                return _native_dict(s, f.__name__, args, kw)
            raise Unsupported(f'native {ts.__name__}.{f.__name__} with symbolic argument')
        if s is re or (isinstance(s, types.ModuleType) and has_sym(args)):
            return _module_builtin(f, args, kw)
        return f(*args, **kw)
    if t is _MDESC:
        if f.__objclass__ is str and (has_sym(args) or f.__name__ == 'join'):
            return call(getattr(lift(args[0]), f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    if t is types.FunctionType:
        mod_ = f.__module__
        if mod_ == 're' or mod_ == 're.__init__':
            from . import rex
            return rex.module_func(f.__name__, args, kw)
        if mod_ == 'json' and eng is not None:
            from . import jsonmodel
            return jsonmodel.call(f.__name__, args, kw)
        if mod_ in ('shlex', 'textwrap', 'fnmatch', 'glob') and has_sym(args):
            raise Unsupported(f'{mod_}.{f.__name__} with symbolic argument')
        return f(*args, **kw)
    if t is functools._lru_cache_wrapper:
        return call(f.__wrapped__, *args, **kw)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if t is type and f in (map, filter):
        fn = args[0]
        if f is map:
            return (call(fn, *xs) for xs in zip(*args[1:]))
        if fn is None:
            return (x for x in args[1] if x)
        return (x for x in args[1] if call(fn, x))
    if t is types.MethodType and f.__func__ in _CM:
        return _CM[f.__func__](f.__self__, *args, **kw)
    return f(*args, **kw)


_CM = {}


def _module_builtin(f, args, kw):
    m = f.__self__.__name__
    n = f.__name__
    if m == 'builtins':
        if n in ('sorted', 'max', 'min'):
            key = kw.get('key')
            if key is not None:
                kw = dict(kw)
                kw['key'] = lambda x: call(key, x)
            return f(*args, **kw)
        if n in ('any', 'all', 'len', 'iter', 'next', 'abs', 'id', 'setattr', 'callable', 'delattr'):
            return f(*args, **kw)
        if n == 'chr':
            return chr(int(args[0]))
        if n == 'format':
            return fmt(args[0], None, args[1] if len(args) > 1 else '')
        if n == 'ascii':
            return ascii(to_str(args[0]))
        if n in ('divmod', 'pow', 'round'):
            return f(*[int(a) if isinstance(a, (SymInt, SymBool)) else a for a in args], **kw)
        raise Unsupported(f'builtin {n}() with symbolic argument')
    if m in ('_operator', 'operator', '_functools', 'itertools', '_bisect', '_heapq'):
        return f(*args, **kw)
    raise Unsupported(f'{m}.{n}() with symbolic argument')


def _native_dict(d, name, args, kw):
    if name in ('get', 'pop', '__getitem__', '__contains__', 'setdefault'):
        k = args[0]
        for x in d:
            if V.type_compatible(x, k) and x == k:
                return getattr(d, name)(x, *args[1:])
        if name == 'get':
            return args[1] if len(args) > 1 else None
        if name == '__contains__':
            return False
    if name in ('get', 'update', 'setdefault', 'pop') and not has_sym(args[:1], 0):
        return getattr(d, name)(*args, **kw)
    raise Unsupported(f'native dict.{name} with a symbolic key')
