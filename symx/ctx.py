'''Harness contexts: symbolic (engine) and concrete (replay on the real code).'''

from . import core
from .core import PathAbort, PropertyFailed, mask_of_chars, mask_of_pred, FULL


class Alphabet:
    '''Named character sets (bitsets over core.ALPH).'''
    ANY = FULL
    NO_NUL = FULL & ~1
    ASCII = mask_of_pred('ascii', str.isascii)
    PRINT = mask_of_pred('asciiprint', lambda c: c.isascii() and c.isprintable())
    TEXT = mask_of_pred('text', lambda c: c != '\0' and (c.isprintable() or c in '\t\n'))
    WORD = mask_of_pred('asciiword', lambda c: c.isascii() and (c.isalnum() or c == '_'))

    @staticmethod
    def of(chars):
        return mask_of_chars(chars)

    @staticmethod
    def minus(mask, chars):
        return mask & ~mask_of_chars(chars)


class SymCtx:
    symbolic = True

    def __init__(self, eng, params=None):
        self.eng = eng
        self.params = params or {}
        self.observed = []
        self.covered = []

    # -- inputs
    def str(self, name, hi, lo=0, alphabet=FULL):
        from .values import SymInt, mkstr
        e = self.eng
        if lo == hi:
            n = lo
        else:
            v = e.add_var('i', (lo, hi))
            n = int(SymInt(((v, 1),)))
        items = tuple(e.add_var('c', alphabet) for _ in range(n))
        e.inputs.append((name, 'str', items))
        return mkstr(items)

    def char(self, name, alphabet=FULL):
        return self.str(name, 1, 1, alphabet)

    def bool(self, name):
        from .values import SymBool
        v = self.eng.add_var('b', None)
        self.eng.inputs.append((name, 'bool', v))
        return SymBool(('b', v))

    def int(self, name, lo, hi):
        from .values import SymInt
        if lo == hi:
            self.eng.inputs.append((name, 'const', lo))
            return lo
        v = self.eng.add_var('i', (lo, hi))
        self.eng.inputs.append((name, 'int', v))
        return SymInt(((v, 1),))

    def choice(self, name, options):
        options = list(options)
        return options[int(self.int(name, 0, len(options) - 1))]

    # -- constraints and verdicts
    def assume(self, x):
        from .values import expr
        self.eng.assume(expr(x))

    def check(self, x, msg):
        from .values import expr
        self.eng.check(expr(x), msg)

    def fail(self, msg):
        raise PropertyFailed(msg)

    def abort(self):
        raise PathAbort()

    def cover(self, label):
        self.covered.append(label)

    def known(self, ident, x):
        '''Exclude an input class that is a listed known finding.'''
        from .values import expr, snot
        if ident in self.params.get('__known', ()):
            self.assume(snot(x))

    def observe(self, x):
        self.observed.append(x)

    def observe_set(self, x):
        '''Observe a collection whose order does not matter.'''
        self.observed.append(('__set__', list(x)))


class ReplayDiverged(BaseException):
    pass


class ConcreteCtx:
    symbolic = False

    def __init__(self, model, params=None, known=()):
        self.model = model
        self.params = params or {}
        self.observed = []
        self.covered = []
        self.known_ids = known

    def str(self, name, hi, lo=0, alphabet=FULL):
        return self.model.get(name, 'a' * lo)

    def char(self, name, alphabet=FULL):
        return self.model.get(name, 'a')

    def bool(self, name):
        return self.model.get(name, False)

    def int(self, name, lo, hi):
        return self.model.get(name, lo)

    def choice(self, name, options):
        return list(options)[self.model.get(name, 0)]

    def assume(self, x):
        if not x:
            raise ReplayDiverged('assumption does not hold')

    def check(self, x, msg):
        if not x:
            raise PropertyFailed(msg)

    def fail(self, msg):
        raise PropertyFailed(msg)

    def abort(self):
        raise ReplayDiverged('aborted')

    def cover(self, label):
        self.covered.append(label)

    def known(self, ident, x):
        if ident in self.known_ids and x:
            raise ReplayDiverged('known finding ' + ident)

    def observe(self, x):
        self.observed.append(x)

    def observe_set(self, x):
        '''Observe a collection whose order does not matter.'''
        self.observed.append(('__set__', list(x)))
