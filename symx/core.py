'''Path-exploring symbolic execution core.

Expressions are small immutable tuples; z3 decides every branch that constant
propagation over single variables does not already force, and every assertion.

Expression grammar (booleans are also plain True / False):
  ('m', v, mask)      character variable v is in the set `mask` (bitset over ALPH)
  ('ce', v, w)        character variables v and w are equal
  ('cl', v, w)        character variable v < w (code point order)
  ('b', v)            boolean variable v
  ('le', lin, k)      sum(coef * intvar) <= k       lin = ((v, coef), ...)
  ('ie', lin, k)      sum(coef * intvar) == k
  ('not', e) ('and', es) ('or', es)
'''

import traceback
import os
import sys
import time
try:
    import z3
except ImportError:         # concrete replays run without the solver
    z3 = None


# -----------------------------------------------------------------------------
# Exceptions. BaseException, so that no handler of the code under test eats them.
# -----------------------------------------------------------------------------

class EngineError(BaseException):
    '''Something the engine cannot decide (unsupported construct, unknown).'''


class Unsupported(EngineError):
    pass


class PathAbort(BaseException):
    '''The current path is infeasible or not of interest.'''


class PropertyFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


# -----------------------------------------------------------------------------
# Alphabet
# -----------------------------------------------------------------------------

def _alphabet():
    cps = list(range(0, 0x100))
    cps += [0x130, 0x131, 0x17F, 0x1C5, 0x2B0, 0x301, 0x37E, 0x3A3, 0x3C2,
            0x430, 0x660, 0x669, 0x966, 0x1680, 0x1E9E, 0x2003, 0x200B, 0x2014,
            0x2028, 0x2029, 0x2160, 0x2460, 0x3000, 0x3042, 0x4E2D, 0xFB01,
            0xFEFF, 0xFF11, 0xFF3F, 0xFFFD, 0x1D7CE, 0x1F600]
    return sorted(cps)


ALPH = _alphabet()
ALPH_CHARS = [chr(c) for c in ALPH]
CIDX = {c: i for i, c in enumerate(ALPH_CHARS)}
NALPH = len(ALPH)
FULL = (1 << NALPH) - 1


def mask_of_chars(chars):
    m = 0
    for c in chars:
        i = CIDX.get(c)
        if i is not None:
            m |= 1 << i
    return m


_MASKS = {}


def mask_of_pred(key, pred):
    m = _MASKS.get(key)
    if m is None:
        m = 0
        for i, c in enumerate(ALPH_CHARS):
            if pred(c):
                m |= 1 << i
        _MASKS[key] = m
    return m


def mask_chars(mask):
    r = []
    i = 0
    while mask:
        if mask & 1:
            r.append(ALPH_CHARS[i])
        mask >>= 1
        i += 1
    return r


def mask_first(mask):
    '''Index of lowest set bit.'''
    return (mask & -mask).bit_length() - 1


# -----------------------------------------------------------------------------
# Expression constructors
# -----------------------------------------------------------------------------

def e_not(e):
    if e is True:
        return False
    if e is False:
        return True
    t = e[0]
    if t == 'm':
        return ('m', e[1], FULL & ~e[2])
    if t == 'not':
        return e[1]
    if t == 'and':
        return e_or([e_not(x) for x in e[1]])
    if t == 'or':
        return e_and([e_not(x) for x in e[1]])
    if t == 'le':
        return ('le', tuple((v, -c) for v, c in e[1]), -e[2] - 1)
    return ('not', e)


def e_mask(v, mask):
    if mask == FULL:
        return True
    if mask == 0:
        return False
    return ('m', v, mask)


def _combine(es, unit, zero, tag):
    out = []
    masks = {}
    seen = set()
    stack = list(es)
    stack.reverse()
    while stack:
        e = stack.pop()
        if e is unit:
            continue
        if e is zero:
            return zero
        if e[0] == tag:
            stack.extend(reversed(e[1]))
            continue
        if e[0] == 'm':
            v = e[1]
            if v in masks:
                i = masks[v]
                m = out[i][2]
                m = (m & e[2]) if tag == 'and' else (m | e[2])
                if tag == 'and' and m == 0:
                    return False
                if tag == 'or' and m == FULL:
                    return True
                out[i] = ('m', v, m)
                continue
            masks[v] = len(out)
            out.append(e)
            continue
        if e not in seen:
            seen.add(e)
            out.append(e)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return (tag, tuple(out))


def e_and(es):
    return _combine(es, True, False, 'and')


def e_or(es):
    return _combine(es, False, True, 'or')


def e_ite(c, a, b):
    return e_or([e_and([c, a]), e_and([e_not(c), b])])


def e_iff(a, b):
    if a is True:
        return b
    if a is False:
        return e_not(b)
    if b is True:
        return a
    if b is False:
        return e_not(a)
    return e_or([e_and([a, b]), e_and([e_not(a), e_not(b)])])


# -----------------------------------------------------------------------------
# Engine
# -----------------------------------------------------------------------------

class Stats:
    FIELDS = ('paths', 'aborted', 'branches', 'forced', 'queries', 'assert_queries',
              'assert_trivial', 'solver_s', 'checks')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Violation:
    def __init__(self, msg, model, harness=None):
        self.msg = msg
        self.model = model
        self.harness = harness


class Engine:
    '''Explores all paths of a harness, depth first, by re-execution.'''

    STEP_LIMIT = 4_000_000

    def __init__(self, query_timeout_ms=60000):
        self.stats = Stats()
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', query_timeout_ms)
        self.z3cache = {}
        self.trace = []         # [expr, choice, pending]
        self.base = 0           # decisions below base belong to the task prefix
        self.covers = {}
        self.zvars = {}
        self._begin()
        self.start_task([])

    # -- variables ------------------------------------------------------------

    def zvar(self, kind, v):
        z = self.zvars.get((kind, v))
        if z is None:
            z = z3.Bool(f'b{v}') if kind == 'b' else z3.Int(f'{kind}{v}')
            self.zvars[(kind, v)] = z
        return z

    def add_var(self, kind, dom):
        v = self.nvars
        self.nvars += 1
        self.kinds.append(kind)
        self.dom[v] = dom
        self.initdom[v] = dom
        self.fresh.append(v)
        return v

    # -- z3 translation -------------------------------------------------------

    def to_z3(self, e):
        if e is True:
            return z3.BoolVal(True)
        if e is False:
            return z3.BoolVal(False)
        r = self.z3cache.get(e)
        if r is not None:
            return r
        t = e[0]
        if t == 'm':
            r = self._mask_z3(self.zvar('c', e[1]), e[2])
        elif t == 'ce':
            r = self.zvar('c', e[1]) == self.zvar('c', e[2])
        elif t == 'cl':
            r = self.zvar('c', e[1]) < self.zvar('c', e[2])
        elif t == 'b':
            r = self.zvar('b', e[1])
        elif t in ('le', 'ie'):
            s = None
            for v, c in e[1]:
                z = self.zvar('i', v)
                z = z if c == 1 else c * z
                s = z if s is None else s + z
            r = (s <= e[2]) if t == 'le' else (s == e[2])
        elif t == 'not':
            r = z3.Not(self.to_z3(e[1]))
        elif t == 'and':
            r = z3.And([self.to_z3(x) for x in e[1]])
        elif t == 'or':
            r = z3.Or([self.to_z3(x) for x in e[1]])
        else:
            raise EngineError(f'bad expr {e!r}')
        if len(self.z3cache) > 200000:
            self.z3cache.clear()
        self.z3cache[e] = r
        return r

    @staticmethod
    def _mask_z3(z, mask):
        n = mask.bit_count()
        if n > NALPH // 2:
            return z3.Not(Engine._mask_z3_pos(z, FULL & ~mask))
        return Engine._mask_z3_pos(z, mask)

    @staticmethod
    def _mask_z3_pos(z, mask):
        parts = []
        i = 0
        m = mask
        while m:
            low = mask_first(m)
            i += low
            m >>= low
            run = mask_first(~m) if m else 0
            lo, hi = i, i + run - 1
            if lo == hi:
                parts.append(z == lo)
            else:
                c = []
                if lo > 0:
                    c.append(z >= lo)
                if hi < NALPH - 1:
                    c.append(z <= hi)
                parts.append(z3.And(c) if len(c) > 1 else c[0])
            m >>= run
            i += run
        if not parts:
            return z3.BoolVal(False)
        return z3.Or(parts) if len(parts) > 1 else parts[0]

    # -- three-valued evaluation over current unary domains --------------------

    def quick(self, e):
        '''True / False if forced by the single-variable domains, else None.'''
        if e is True or e is False:
            return e
        t = e[0]
        if t == 'm':
            d = self.dom[e[1]]
            if not d & e[2]:
                return False
            if not d & ~e[2]:
                return True
            return None
        if t == 'b':
            return self.dom[e[1]]
        if t == 'ce':
            a, b = self.dom[e[1]], self.dom[e[2]]
            if e[1] == e[2]:
                return True
            if not a & b:
                return False
            if a == b and not a & (a - 1):
                return True
            return None
        if t == 'cl':
            a, b = self.dom[e[1]], self.dom[e[2]]
            if a.bit_length() <= mask_first(b):
                return True
            if mask_first(a) >= b.bit_length() - 1:
                return False
            return None
        if t == 'not':
            r = self.quick(e[1])
            return None if r is None else not r
        if t == 'and':
            und = False
            for x in e[1]:
                r = self.quick(x)
                if r is False:
                    return False
                if r is None:
                    und = True
            return None if und else True
        if t == 'or':
            und = False
            for x in e[1]:
                r = self.quick(x)
                if r is True:
                    return True
                if r is None:
                    und = True
            return None if und else False
        lo = hi = 0
        for v, c in e[1]:
            a, b = self.dom[v]
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if t == 'le':
            if hi <= e[2]:
                return True
            if lo > e[2]:
                return False
            return None
        if lo == hi == e[2]:
            return True
        if lo > e[2] or hi < e[2]:
            return False
        return None

    def absorb(self, e):
        '''Record the constraint e in the domains.'''
        t = e[0] if e is not True and e is not False else None
        if t is None:
            return
        if t == 'm':
            self.dom[e[1]] &= e[2]
        elif t == 'b':
            self.dom[e[1]] = True
        elif t == 'not' and e[1][0] == 'b':
            self.dom[e[1][1]] = False
        elif t == 'and':
            for x in e[1]:
                self.absorb(x)
        elif t == 'le' and len(e[1]) == 1:
            (v, c), = e[1]
            a, b = self.dom[v]
            if c > 0:
                b = min(b, e[2] // c)
            else:
                a = max(a, -(e[2] // -c))
            self.dom[v] = (a, b)
        elif t == 'ie' and len(e[1]) == 1:
            (v, c), = e[1]
            if e[2] % c == 0:
                self.dom[v] = (e[2] // c, e[2] // c)

    # -- solver ---------------------------------------------------------------

    def _flush(self):
        '''Assert bounds of variables created since the last flush.'''
        for v in self.fresh:
            k = self.kinds[v]
            if v in self.bounded:
                continue
            z = self.zvar(k, v)
            if k == 'c':
                d = self.initdom[v]
                self.solver.add(z >= 0, z < NALPH)
                if d != FULL:
                    self.solver.add(self._mask_z3_pos(z, d))
            elif k == 'i':
                lo, hi = self.initdom[v]
                self.solver.add(z >= lo, z <= hi)
            self.bounded[v] = self.level
        self.fresh.clear()

    def _sat(self, e):
        self._flush()
        t = time.perf_counter()
        self.solver.push()
        self.solver.add(self.to_z3(e))
        r = self.solver.check()
        self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise EngineError('solver answered unknown: ' + self.solver.reason_unknown())
        return r == z3.sat

    def _push(self, e):
        self._flush()
        self.solver.push()
        self.level += 1
        self.solver.add(self.to_z3(e))
        self.pushed += 1

    def _pop(self, n):
        if n:
            self.solver.pop(n)
            self.level -= n
            for v in [v for v, l in self.bounded.items() if l > self.level]:
                del self.bounded[v]

    # -- branching ------------------------------------------------------------

    def branch(self, e):
        '''Decide boolean expression e on this path.'''
        if e is True or e is False:
            return e
        q = self.quick(e)
        if q is not None:
            self.stats.forced += 1
            return q
        i = self.pos
        if i < len(self.trace):
            d = self.trace[i]
            if d[0] is not None and d[0] != e:
                raise EngineError(f'non-deterministic replay: {d[0]!r} vs {e!r}')
            self.pos += 1
            if d[0] is None:        # prefix handed over by another worker
                d[0] = e
                if d[1] is not None and not d[3]:
                    self._push(e if d[1] else e_not(e))
            elif not d[3] and i >= self.synced:
                self._push(e if d[1] else e_not(e))
            if i >= self.synced:
                self.synced = i + 1
            self.absorb(e if d[1] else e_not(e))
            return d[1]
        ne = e_not(e)
        self.stats.branches += 1
        if not self._sat(e):
            self.trace.append([e, False, False, True])
            choice = False
        elif not self._sat(ne):
            self.trace.append([e, True, False, True])
            choice = True
        else:
            self.trace.append([e, True, True, False])
            choice = True
            self._push(e)
        self.pos += 1
        self.synced = self.pos
        self.absorb(e if choice else ne)
        return choice

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.STEP_LIMIT:
            raise PropertyFailed('step limit exceeded (no termination within bound)')

    # -- assertions -----------------------------------------------------------

    def check(self, e, msg):
        self.stats.checks += 1
        if e is True:
            self.stats.assert_trivial += 1
            return
        self.stats.assert_queries += 1
        if e is False:
            raise PropertyFailed(msg)
        if self._sat(e_not(e)):
            self._push(e_not(e))
            self.extra_push += 1
            raise PropertyFailed(msg)

    def assume(self, e):
        if not self.branch(e):
            raise PathAbort()

    def model(self):
        '''Concrete values of the inputs on the current path.'''
        self._flush()
        t = time.perf_counter()
        r = self.solver.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r != z3.sat:
            raise EngineError(f'path condition is {r} when a model was needed')
        m = self.solver.model()
        out = {}
        vals = {}

        def val(v):
            if v in vals:
                return vals[v]
            k = self.kinds[v]
            z = self.zvar(k, v)
            x = m.eval(z, model_completion=False)
            if k == 'b':
                if z3.is_true(x):
                    r = True
                elif z3.is_false(x):
                    r = False
                else:
                    r = self.dom[v] if self.dom[v] is not None else False
            elif k == 'i':
                r = x.as_long() if z3.is_int_value(x) else self.dom[v][0]
            else:
                r = ALPH_CHARS[x.as_long()] if z3.is_int_value(x) else self._nice(v)
            vals[v] = r
            return r

        self.last_vals = val
        for name, kind, payload in self.inputs:
            if kind == 'str':
                out[name] = ''.join(val(p) if isinstance(p, int) else p for p in payload)
            elif kind == 'const':
                out[name] = payload
            else:
                out[name] = val(payload)
        return out

    def _nice(self, v):
        d = self.dom[v]
        nice = d & mask_of_pred('nice', lambda c: c.isascii() and c.isalnum())
        return ALPH_CHARS[mask_first(nice or d)]

    # -- running --------------------------------------------------------------

    def _begin(self):
        self.nvars = 0
        self.kinds = []
        self.inputs = []
        self.dom = {}
        self.initdom = {}
        self.pos = 0
        self.steps = 0
        self.extra_push = 0
        self.fresh = []

    def start_task(self, prefix):
        '''prefix: list of (choice, forced)'''
        self.solver.reset()
        self.level = 0
        self.pushed = 0
        self.bounded = {}
        self.trace = [[None, c, False, f] for c, f in prefix]
        self.base = len(prefix)
        self.synced = 0

    def next_path(self):
        '''Backtrack. Returns False if the task is exhausted.'''
        while len(self.trace) > self.base:
            d = self.trace[-1]
            if d[2]:
                self._pop(1)        # undo the push of this decision
                d[1] = not d[1]
                d[2] = False
                self.synced = len(self.trace) - 1
                return True
            if not d[3]:
                self._pop(1)
            self.trace.pop()
        return False

    def donate(self):
        '''Give away the shallowest pending alternative as a new task prefix.'''
        for i in range(self.base, len(self.trace)):
            d = self.trace[i]
            if d[2]:
                prefix = [(x[1], x[3]) for x in self.trace[:i]]
                prefix.append((not d[1], False))
                d[2] = False
                return prefix
        return None

    def run_path(self, fn):
        '''Run one path. Returns None or a Violation.'''
        global ENGINE
        self._begin()
        ENGINE = self
        viol = None
        self.last_ok = False
        self.unsupported = None
        try:
            fn()
            self.stats.paths += 1
            self.last_ok = True
        except PathAbort:
            self.stats.aborted += 1
        except PropertyFailed as e:
            self.stats.paths += 1
            viol = Violation(e.msg, self.model())
        except Unsupported as e:
            # No verdict for this path; what was explored so far is still a
            # set of inputs, and the real code is asked about one of them.
            self.unsupported = (f'{type(e).__name__}: {e}', self.model(), traceback.format_exc(limit=-8))
        finally:
            ENGINE = None
        if self.extra_push:
            self._pop(self.extra_push)
            self.extra_push = 0
        if self.pos < len(self.trace):
            raise EngineError('path ended before its recorded decisions were consumed')
        return viol


ENGINE = None


def engine():
    if ENGINE is None:
        raise EngineError('symbolic value used outside of a path')
    return ENGINE
