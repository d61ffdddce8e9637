'''A model of the Fish fragment that generated completion scripts use.

Parser and interpreter accept native strings and SymStr alike. Exit statuses may be
symbolic conditions until control flow needs them. Anything outside the fragment
raises Unsupported; every run replays path samples in the real Fish.
'''

import re

from symx import core, rex
from symx.core import e_or, e_not, Unsupported, mask_of_chars
from symx.values import (SymStr, SymBool, mkstr, mkbool, items_of, eq_expr, char_in, fork_char,
                         sand, sor, snot, expr)

from .bash import isc, it, cat, native, Node, Pattern, ShellError

NAMEC = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
BLANK = ' \t'
SEP = '\n;'
META = ' \t\n;|&<>()'
KEYWORDS = ('if', 'else', 'while', 'for', 'switch', 'case', 'begin', 'function', 'end', 'not', 'and', 'or', '!')


class Parser:
    def __init__(self, text):
        self.s = text if type(text) is str else it(text)
        self.n = len(self.s)
        self.i = 0

    def at(self, chars, k=0):
        j = self.i + k
        if j >= self.n:
            return False
        c = self.s[j]
        return isc(c, chars) if type(c) is int else c in chars

    def look(self, text):
        for k, ch in enumerate(text):
            if not self.at(ch, k):
                return False
        return True

    def err(self, msg):
        a = ''.join(c if type(c) is str else '?' for c in self.s[max(0, self.i - 20):self.i + 20])
        raise ShellError(f'fish syntax: {msg} at {self.i}: {a}')

    def blank(self):
        while self.i < self.n:
            if self.at(BLANK):
                self.i += 1
            elif self.at('\\') and self.at('\n', 1):
                self.i += 2
            elif self.at('#') and (self.i == 0 or self.prev(' \t\n;')):
                while self.i < self.n and not self.at('\n'):
                    self.i += 1
            else:
                return

    def prev(self, chars):
        c = self.s[self.i - 1]
        return isc(c, chars) if type(c) is int else c in chars

    def seps(self):
        while True:
            self.blank()
            if self.at(SEP):
                self.i += 1
            else:
                return

    def keyword(self, kw):
        if not self.look(kw):
            return False
        j = self.i + len(kw)
        if j >= self.n:
            return True
        c = self.s[j]
        return isc(c, META)

    # -- statements
    def parse(self):
        b = self.block(())
        self.seps()
        if self.i < self.n:
            self.err('unexpected text')
        return b

    def block(self, stops):
        out = []
        while True:
            self.seps()
            if self.i >= self.n:
                break
            if stops and any(self.keyword(s) for s in stops):
                break
            if not stops and self.at(')'):
                break
            if any(self.keyword(k) for k in ('end', 'case', 'else')):
                if stops:
                    break
                self.err('unexpected keyword')
            out.append(self.andor())
        return Node('block', out)

    def andor(self):
        '''A statement: jobs joined by && and ||, maybe prefixed with and/or.'''
        pre = None
        for k in ('and', 'or'):
            if self.keyword(k):
                self.i += len(k)
                self.blank()
                pre = k
        left = self.job()
        while True:
            self.blank()
            if self.look('&&') or self.look('||'):
                op = 'and' if self.look('&&') else 'or'
                self.i += 2
                self.seps_nl()
                left = Node(op, left, self.job())
            else:
                break
        self.blank()
        if self.i < self.n and not self.at(SEP) and not self.at(')'):
            if self.at('&'):
                raise Unsupported('background job')
            self.err('unexpected text after a command')
        if pre:
            return Node('pre', pre, left)
        return left

    def seps_nl(self):
        while True:
            self.blank()
            if self.at('\n'):
                self.i += 1
            else:
                return

    def job(self):
        self.blank()
        if self.keyword('not') or self.keyword('!'):
            self.i += 3 if self.keyword('not') else 1
            self.blank()
            return Node('not', self.job())
        parts = [self.command()]
        while True:
            self.blank()
            if self.at('|') and not self.at('|', 1):
                self.i += 1
                self.seps_nl()
                parts.append(self.command())
            else:
                break
        return parts[0] if len(parts) == 1 else Node('pipe', parts)

    def expect_end(self):
        self.seps()
        if not self.keyword('end'):
            self.err('expected end')
        self.i += 3

    def cond(self):
        '''Condition of if and while, with the and/or statements that follow.'''
        out = [self.andor()]
        while True:
            save = self.i
            self.seps()
            if self.keyword('and') or self.keyword('or'):
                out.append(self.andor())
            else:
                self.i = save
                return Node('seq', out)

    def command(self):
        self.blank()
        if self.keyword('begin'):
            self.i += 5
            b = self.block(('end',))
            self.expect_end()
            return self.redirected(Node('begin', b))
        if self.keyword('if'):
            self.i += 2
            arms = []
            other = None
            arms.append((self.cond_ws(), self.block(('else', 'end'))))
            while self.keyword('else'):
                self.i += 4
                self.blank()
                if self.keyword('if'):
                    self.i += 2
                    arms.append((self.cond_ws(), self.block(('else', 'end'))))
                else:
                    other = self.block(('end',))
                    break
            self.expect_end()
            return self.redirected(Node('if', arms, other))
        if self.keyword('while'):
            self.i += 5
            c = self.cond_ws()
            b = self.block(('end',))
            self.expect_end()
            return self.redirected(Node('while', c, b))
        if self.keyword('for'):
            self.i += 3
            self.blank()
            name = self.word()
            self.blank()
            if not self.keyword('in'):
                self.err('expected in')
            self.i += 2
            ws = self.words()
            b = self.block(('end',))
            self.expect_end()
            return self.redirected(Node('for', plain(name), ws, b))
        if self.keyword('switch'):
            self.i += 6
            self.blank()
            subject = self.word()
            self.seps()
            arms = []
            while self.keyword('case'):
                self.i += 4
                pats = self.words()
                arms.append((pats, self.block(('case', 'end'))))
            self.expect_end()
            return self.redirected(Node('switch', subject, arms))
        if self.keyword('function'):
            self.i += 8
            ws = self.words()
            b = self.block(('end',))
            self.expect_end()
            return Node('function', [plain(w) for w in ws], b)
        return self.simple()

    def cond_ws(self):
        self.blank()
        return self.cond()

    def redirected(self, node):
        rs = []
        while self.redir(rs):
            pass
        return Node('redir', node, rs) if rs else node

    def redir(self, out):
        self.blank()
        k = 0
        while self.at('0123456789', k):
            k += 1
        if self.at('>', k) or (k == 0 and self.at('<')):
            fd = ''.join(self.s[self.i:self.i + k])
            self.i += k
            op = '<' if self.at('<') else '>'
            self.i += 1
            if op == '>' and self.at('>'):
                self.i += 1
                op = '>>'
            if self.at('&'):
                self.i += 1
                op += '&'
            out.append((fd, op, self.word()))
            return True
        if self.at('&') and self.at('>', 1):
            self.i += 2
            out.append(('', '&>', self.word()))
            return True
        return False

    def words(self):
        out = []
        while True:
            self.blank()
            if self.i >= self.n or self.at(SEP) or self.at('|&)') or self.at('<>'):
                return out
            out.append(self.word())

    def simple(self):
        ws = []
        rs = []
        while True:
            self.blank()
            if self.i >= self.n or self.at(SEP) or self.at('|') or self.at(')'):
                break
            if self.redir(rs):
                continue
            if self.at('&'):
                break
            ws.append(self.word())
        if not ws:
            self.err('expected a command')
        n = Node('cmd', ws)
        return Node('redir', n, rs) if rs else n

    # -- words
    def word(self):
        self.blank()
        parts = []
        start = self.i
        while self.i < self.n:
            if self.at("'"):
                self.i += 1
                self.sq(parts)
            elif self.at('"'):
                self.i += 1
                self.dq(parts)
            elif self.at('$'):
                self.dollar(parts, False)
            elif self.at('('):
                parts.append(self.subst(False))
            elif self.at('\\'):
                self.i += 1
                if self.i >= self.n:
                    self.err('trailing backslash')
                self.escape(parts)
            elif self.at(META):
                break
            elif self.at('*?'):
                parts.append(Node('glob', fork_char(self.s[self.i])))
                self.i += 1
            elif self.at('{}'):
                raise Unsupported('brace expansion')
            elif self.at('~') and self.i == start:
                raise Unsupported('tilde expansion')
            else:
                parts.append(Node('lit', [self.s[self.i]]))
                self.i += 1
        if self.i == start:
            self.err('expected a word')
        return Node('word', merge(parts))

    def sq(self, parts):
        out = []
        while True:
            if self.i >= self.n:
                self.err('unterminated quote')
            if self.at("'"):
                self.i += 1
                break
            if self.at('\\') and self.at("\\'", 1):
                self.i += 1
            out.append(self.s[self.i])
            self.i += 1
        parts.append(Node('lit', out))

    def dq(self, parts):
        inner = []
        while True:
            if self.i >= self.n:
                self.err('unterminated quote')
            if self.at('"'):
                self.i += 1
                break
            if self.at('$'):
                self.dollar(inner, True)
                continue
            if self.at('\\'):
                if self.at('\\"$', 1):
                    self.i += 1
                elif self.at('\n', 1):
                    self.i += 2
                    continue
            inner.append(Node('lit', [self.s[self.i]]))
            self.i += 1
        parts.append(Node('dq', merge(inner)))

    SIMPLE = {'n': '\n', 't': '\t', 'r': '\r', 'e': '\x1b', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}

    def escape(self, parts):
        if self.at('\n'):
            self.i += 1
            return
        if self.at('xXuUc01234567'):
            raise Unsupported('numeric escape')
        c = self.s[self.i]
        self.i += 1
        if type(c) is int:
            if isc(c, ''.join(self.SIMPLE)):
                c = fork_char(c)
        if type(c) is str and c in self.SIMPLE:
            c = self.SIMPLE[c]
        parts.append(Node('lit', [c]))

    def dollar(self, parts, quoted):
        self.i += 1
        if self.at('('):
            parts.append(self.subst(True))
            return
        if self.at('$'):
            raise Unsupported('variable indirection')
        j = self.i
        while self.i < self.n and self.at(NAMEC):
            self.i += 1
        if self.i == j:
            self.err('$ is not followed by a name')
        name = native(mkstr(list(self.s[j:self.i])))
        index = None
        if self.at('['):
            index = self.index()
        parts.append(Node('var', name, index))

    def index(self):
        '''Text of an index expression as a word.'''
        self.i += 1
        parts = []
        while True:
            if self.i >= self.n:
                self.err('unterminated index')
            if self.at(']'):
                self.i += 1
                return Node('word', merge(parts))
            if self.at('$'):
                self.dollar(parts, False)
            elif self.at('('):
                parts.append(self.subst(False))
            elif self.at('"'):
                self.i += 1
                self.dq(parts)
            elif self.at("'"):
                raise Unsupported('quote in an index')
            else:
                parts.append(Node('lit', [self.s[self.i]]))
                self.i += 1

    def subst(self, dollar):
        self.i += 1
        b = self.block(())
        self.seps()
        if not self.at(')'):
            self.err('unterminated command substitution')
        self.i += 1
        index = None
        if self.at('['):
            index = self.index()
        return Node('sub', b, index, dollar)


def merge(parts):
    out = []
    for p in parts:
        if p.k == 'lit' and out and out[-1].k == 'lit':
            out[-1] = Node('lit', out[-1].a + p.a)
        else:
            out.append(p)
    for p in out:
        if p.k == 'lit':
            p.b = mkstr(p.a)
    return out


def plain(word):
    '''Native text of a word without expansions.'''
    out = []
    for p in word.a:
        if p.k == 'lit':
            out.append(p.b)
        elif p.k == 'dq' and all(q.k == 'lit' for q in p.a):
            out.extend(q.b for q in p.a)
        else:
            raise Unsupported('name with expansions')
    return native(cat(*out))


_CACHE = {}


def parse(text):
    if type(text) is str:
        if text not in _CACHE:
            if len(_CACHE) > 2000:
                _CACHE.clear()
            _CACHE[text] = Parser(text).parse()
        return _CACHE[text]
    return Parser(text).parse()


# -----------------------------------------------------------------------------
# Interpreter
# -----------------------------------------------------------------------------

class Return(BaseException):
    pass


class Loop(BaseException):
    def __init__(self, kind):
        self.kind = kind


class Fail(Exception):
    '''An expansion error: the statement does not run.'''


class Scope:
    __slots__ = ('vars', 'parent', 'func')

    def __init__(self, parent, func=False):
        self.vars = {}
        self.parent = parent
        self.func = func


class Fish:
    def __init__(self):
        self.globals = {}
        self.funcs = {}
        self.scope = Scope(None)
        self.ok = True              # status as a condition
        self.code = None            # exact status where it differs from 0/1
        self.out = []
        self.stdin = None
        self.entries = []
        self.tokens = []            # all words of the command line
        self.cursor = 0             # index of the word under the cursor
        self.stubs = {}
        self.steps = 0

    # -- variables
    def find(self, name):
        s = self.scope
        while s is not None:
            if name in s.vars:
                return s.vars
            s = s.parent
        if name in self.globals:
            return self.globals
        return None

    def get(self, name):
        if name == 'status':
            return [self.status_text()]
        d = self.find(name)
        return d[name] if d is not None else []

    def status_text(self):
        if self.code is not None:
            return str(self.code)
        return '0' if self.ok else '1'

    def set_ok(self, c, code=None):
        self.ok = c
        self.code = code

    # -- expansion
    def expand(self, word):
        '''List of words (strings).'''
        acc = [[]]
        for p in word.a:
            if p.k == 'lit':
                vals = [p.b]
            elif p.k == 'dq':
                vals = [self.dq(p.a)]
            elif p.k == 'var':
                vals = self.var(p)
            elif p.k == 'sub':
                vals = self.sub(p)
            else:
                raise Unsupported('file name expansion')
            if len(vals) == 1:
                for a in acc:
                    a.append(vals[0])
            else:
                # the right-most list varies slowest
                acc = [a + [v] for v in vals for a in acc]
        return [cat(*a) if len(a) != 1 else a[0] for a in acc]

    def pattern(self, word):
        '''Items for Pattern: wildcards of case come from unquoted and quoted text alike.'''
        out = []
        for p in word.a:
            if p.k == 'glob':
                out.append((p.a, False))
            else:
                vals = self.expand(Node('word', [p]))
                if len(vals) > 1:
                    raise Unsupported('list in a case pattern')
                for c in it(vals[0] if vals else ''):
                    out.append((c, False if isc(c, '*?') else True))
        return out

    def dq(self, parts):
        out = []
        for p in parts:
            if p.k == 'lit':
                out.append(p.b)
            elif p.k == 'var':
                vals = self.var(p)
                for i, v in enumerate(vals):
                    if i:
                        out.append(' ')
                    out.append(v)
            else:
                vals = self.sub(p)
                while vals and not len(vals[-1]):
                    vals = vals[:-1]
                for i, v in enumerate(vals):
                    if i:
                        out.append('\n')
                    out.append(v)
        return cat(*out)

    def var(self, p):
        vals = self.get(p.a)
        if p.b is None:
            return list(vals)
        return self.pick(vals, p.b)

    def pick(self, vals, index):
        texts = self.expand(index) if index.a else ['']
        text = native(cat(*[x for i, t in enumerate(texts) for x in ((' ', t) if i else (t,))]))
        size = len(vals)
        idx = []
        pos = 0
        n = len(text)

        def number(pos):
            m = re.compile(r'\s*([-+]?[0-9]+)').match(text, pos)
            if not m:
                raise Fail('invalid index')
            v = int(m.group(1))
            if v == 0:
                raise Fail('array indices start at 1')
            return v, m.end()
        while True:
            while pos < n and text[pos].isspace():
                pos += 1
            if pos >= n:
                break
            if not idx and text.startswith('..', pos):
                tmp = 1
            else:
                tmp, pos = number(pos)
            i1 = tmp if tmp > -1 else size + tmp + 1
            while pos < n and text[pos].isspace():
                pos += 1
            if text.startswith('..', pos):
                pos += 2
                while pos < n and (text[pos] == '.' or text[pos].isspace()):
                    pos += 1
                if pos >= n:
                    tmp1 = -1
                else:
                    tmp1, pos = number(pos)
                if tmp > size and tmp1 > size:
                    continue
                i2 = tmp1 if tmp1 > -1 else size + tmp1 + 1
                step = -1 if i2 < i1 else 1
                if (tmp1 > -1) != (tmp > -1):
                    step = -1 if tmp1 > -1 else 1
                else:
                    i1 = min(i1, size)
                    i2 = min(i2, size)
                j = i1
                while j * step <= i2 * step:
                    idx.append(j)
                    j += step
                continue
            idx.append(i1)
        return [vals[i - 1] for i in idx if 1 <= i <= size]

    def sub(self, p):
        lines = self.capture(p.a)
        return lines if p.b is None else self.pick(lines, p.b)

    def capture(self, block):
        save, self.out = self.out, []
        try:
            self.run(block)
        finally:
            text, self.out = self.out, save
        return lines_of(text)

    # -- execution
    def run(self, n):
        k = n.k
        if k == 'block':
            for x in n.a:
                self.run(x)
            return
        if k == 'seq':
            for x in n.a:
                self.run(x)
            return
        if k == 'and':
            self.run(n.a)
            if self.ok:
                self.run(n.b)
            return
        if k == 'or':
            self.run(n.a)
            if not self.ok:
                self.run(n.b)
            return
        if k == 'pre':
            if n.a == 'and':
                if self.ok:
                    self.run(n.b)
            elif not self.ok:
                self.run(n.b)
            return
        if k == 'not':
            self.run(n.a)
            self.set_ok(snot(self.ok) if isinstance(self.ok, SymBool) else not self.ok)
            return
        if k == 'cmd':
            self.simple(n)
            return
        if k == 'redir':
            self.redir(n)
            return
        if k == 'pipe':
            self.pipe(n.a)
            return
        if k == 'begin':
            self.scoped(n.a)
            return
        if k == 'if':
            for c, b in n.a:
                self.run(c)
                if self.ok:
                    self.scoped(b)
                    return
            if n.b is not None:
                self.scoped(n.b)
            else:
                self.set_ok(True)
            return
        if k == 'while':
            last = (True, None)
            while True:
                self.tick()
                self.run(n.a)
                if not self.ok:
                    self.ok, self.code = last
                    break
                try:
                    self.scoped(n.b)
                except Loop as e:
                    if e.kind == 'break':
                        break
                last = (self.ok, self.code)
            return
        if k == 'for':
            vals = [x for w in n.b for x in self.expand(w)]
            self.set_ok(True)
            d = self.find(n.a)
            if d is None:
                d = self.scope.vars
            for v in vals:
                self.tick()
                d[n.a] = [v]
                try:
                    self.scoped(n.c)
                except Loop as e:
                    if e.kind == 'break':
                        break
            return
        if k == 'switch':
            vals = self.expand(n.a)
            if len(vals) > 1:
                raise Unsupported('switch over a list')
            v = it(vals[0] if vals else '')
            for pats, b in n.b:
                e = e_or([Pattern(self.pattern(p), extglob=False).match(v) for p in pats])
                if mkbool(e):
                    self.scoped(b)
                    return
            self.set_ok(True)
            return
        if k == 'function':
            name, *flags = n.a
            shadow = True
            desc = False
            for f in flags:
                if desc:
                    desc = False
                elif f in ('-S', '--no-scope-shadowing'):
                    shadow = False
                elif f in ('-d', '--description'):
                    desc = True
                else:
                    raise Unsupported('function ' + f)
            self.funcs[name] = (n.b, shadow)
            self.set_ok(True)
            return
        raise AssertionError(k)

    def tick(self):
        self.steps += 1
        if self.steps > 20000:
            raise ShellError('the script does not terminate')

    def push(self, func=False):
        self.scope = Scope(self.scope, func)

    def pop(self):
        self.scope = self.scope.parent

    def scoped(self, b):
        self.push()
        try:
            self.run(b)
        finally:
            self.pop()

    def function_scope(self):
        s = self.scope
        while s is not None and not s.func:
            s = s.parent
        return s.vars if s is not None else self.globals

    def redir(self, n):
        drop = False
        for fd, op, w in n.b:
            target = self.expand(w)
            t = native(target[0]) if len(target) == 1 else None
            if op == '>&' and t == '2' and fd in ('', '1'):
                drop = True
            elif op in ('>', '>>') and fd == '2' and t == '/dev/null':
                pass
            elif op in ('>', '>>', '&>') and t == '/dev/null':
                drop = True
            elif op == '>&' and fd == '2':
                pass
            else:
                raise Unsupported('redirection')
        if not drop:
            self.run(n.a)
            return
        save, self.out = self.out, []
        try:
            self.run(n.a)
        finally:
            self.out = save

    def pipe(self, parts):
        saved = self.stdin
        text = None
        try:
            for i, p in enumerate(parts):
                self.stdin = text if i else saved
                if i == len(parts) - 1:
                    self.run(p)
                    break
                save, self.out = self.out, []
                try:
                    self.run(p)
                finally:
                    text, self.out = self.out, save
        finally:
            self.stdin = saved

    def simple(self, n):
        try:
            argv = []
            had_sub = False
            for w in n.a:
                argv.extend(self.expand(w))
                had_sub = had_sub or has_sub(w)
        except Fail:
            self.set_ok(False, 121)
            return
        if not argv:
            raise Unsupported('empty command')
        self.call(argv, had_sub)

    def call(self, argv, had_sub=False):
        self.tick()
        name = native(argv[0])
        args = argv[1:]
        if name in ('command', 'builtin'):
            raise Unsupported(name)
        if name in self.stubs:
            self.set_ok(True)
            self.stubs[name](self, args)
            return
        if name in self.funcs:
            body, shadow = self.funcs[name]
            caller = self.scope
            self.scope = Scope(None if shadow else caller, True)
            self.scope.vars['argv'] = list(args)
            if not body.a:
                self.set_ok(True)
            try:
                self.run(body)
            except Return:
                pass
            finally:
                self.scope = caller
            return
        f = getattr(self, 'bi_' + name, None)
        if f is None:
            raise ShellError('fish: unknown command: ' + name)
        if name == 'set':
            f(args, had_sub)
        else:
            f(args)

    def emit(self, *xs):
        self.out.extend(xs)

    # -- builtins
    def bi_true(self, a):
        self.set_ok(True)

    def bi_false(self, a):
        self.set_ok(False)

    def bi_return(self, a):
        if a:
            v = native(a[0])
            self.set_ok(v == '0', int(v) if v not in ('0', '1') else None)
        raise Return()

    def bi_break(self, a):
        raise Loop('break')

    def bi_continue(self, a):
        raise Loop('continue')

    def bi_eval(self, a):
        xs = []
        for i, x in enumerate(a):
            if i:
                xs.append(' ')
            xs.append(x)
        self.eval(cat(*xs))

    def eval(self, text):
        node = parse(text)
        if not node.a:
            self.set_ok(True)
        self.scoped(node)

    def bi_echo(self, a):
        a = list(a)
        if a and any(native_is(a[0], o) for o in ('-n', '-s', '-e', '-E')):
            raise Unsupported('echo options')
        for i, x in enumerate(a):
            if i:
                self.emit(' ')
            self.emit(x)
        self.emit('\n')
        self.set_ok(True)

    def bi_printf(self, a):
        if not a:
            self.set_ok(False, 2)
            return
        fmt = native(a[0])
        args = list(a[1:])
        nspec = len(re.findall(r'%s', fmt.replace('%%', '')))
        if re.search(r'%[^s%]', fmt):
            raise Unsupported('printf ' + fmt)
        toks = re.split(r'(%s|%%|\\n|\\t|\\\\)', fmt)
        if any('\\' in t and t not in ('\\n', '\\t', '\\\\') for t in toks):
            raise Unsupported('printf escape')
        while True:
            for t in toks:
                if t == '%s':
                    self.emit(args.pop(0) if args else '')
                elif t == '%%':
                    self.emit('%')
                elif t == '\\n':
                    self.emit('\n')
                elif t == '\\t':
                    self.emit('\t')
                elif t == '\\\\':
                    self.emit('\\')
                elif t:
                    self.emit(t)
            if not args or not nspec:
                break
        self.set_ok(True)

    def bi_count(self, a):
        n = len(a)
        if self.stdin is not None:
            n += len(lines_of(self.stdin))
        self.emit(str(n), '\n')
        self.set_ok(n > 0)

    def bi_seq(self, a):
        xs = [int(native(x)) for x in a]
        lo, step, hi = (1, 1, xs[0]) if len(xs) == 1 else (xs[0], 1, xs[1]) if len(xs) == 2 else xs
        for v in range(lo, hi + (1 if step > 0 else -1), step):
            self.emit(str(v), '\n')
        self.set_ok(True)

    def bi_math(self, a):
        text = ' '.join(native(x) for x in a)
        if not re.fullmatch(r'[-+0-9 ()]+', text) or not text.strip():
            raise Unsupported('math ' + text)
        if re.search(r'\d\s+\d', text):
            self.set_ok(False, 1)
            return
        self.emit(str(eval(text, {'__builtins__': {}})), '\n')      # pylint: disable=eval-used
        self.set_ok(True)

    def bi_contains(self, a):
        a = list(a)
        index = False
        while a and isc0(a[0], '-'):
            o = native(a[0])
            if o == '--':
                a.pop(0)
                break
            if o == '-i':
                index = True
                a.pop(0)
            else:
                raise Unsupported('contains ' + o)
        if not a:
            self.set_ok(False)
            return
        key, vals = a[0], a[1:]
        if not index:
            self.set_ok(mkbool(e_or([eq_expr(it(key), it(v)) for v in vals])))
            return
        for i, v in enumerate(vals):
            if mkbool(eq_expr(it(key), it(v))):
                self.emit(str(i + 1), '\n')
                self.set_ok(True)
                return
        self.set_ok(False)

    def bi_test(self, a):
        a = list(a)
        r = self.test(a)
        self.set_ok(False if r is None else r)

    def test(self, a):
        if not a:
            return False
        if len(a) == 3 and native_text(a[1]) in BINARY:
            return self.binary(*a)
        if len(a) in (2, 3, 4) and native_is(a[0], '!'):
            r = self.test(a[1:])
            return None if r is None else (snot(r) if isinstance(r, SymBool) else not r)
        if len(a) == 1:
            return len(a[0]) > 0
        if len(a) == 2:
            op = native(a[0])
            if op == '-n':
                return len(a[1]) > 0
            if op == '-z':
                return len(a[1]) == 0
            if op.startswith('-'):
                raise Unsupported('test ' + op)
            return None
        if any(native_text(x) in ('-a', '-o', '(', ')') for x in a):
            raise Unsupported('test with operators')
        return None

    def binary(self, x, op, y):
        op = native(op)
        if op in ('=', '=='):
            return mkbool(eq_expr(it(x), it(y)))
        if op == '!=':
            return mkbool(e_not(eq_expr(it(x), it(y))))
        x, y = native(x), native(y)
        if not (re.fullmatch(r'-?[0-9]+', x) and re.fullmatch(r'-?[0-9]+', y)):
            return None
        x, y = int(x), int(y)
        return {'-eq': x == y, '-ne': x != y, '-lt': x < y, '-le': x <= y, '-gt': x > y, '-ge': x >= y}[op]

    def bi_set(self, a, had_sub=False):
        a = list(a)
        flags = ''
        while a and len(a[0]) > 1 and isc0(a[0], '-'):
            o = native(a.pop(0))
            if o == '--':
                break
            flags += o[1:]
        if set(flags) - set('lgaeqxuU'):
            raise Unsupported('set -' + flags)
        if not a:
            raise Unsupported('set without a name')
        status = (self.ok, self.code)
        if 'q' in flags:
            missing = 0
            for x in a:
                name, idx = split_index(native(x))
                d = self.scope_of(flags, name)
                vals = d[name] if d is not None and name in d else None
                if vals is None:
                    missing += 1
                elif idx is not None and not self.pick_text(vals, idx):
                    missing += 1
            self.set_ok(missing == 0, missing if missing > 1 else None)
            return
        name, idx = split_index(native(a[0]))
        if 'e' in flags:
            found = True
            for x in a:
                name, idx = split_index(native(x))
                d = self.scope_of(flags, name)
                if d is None or name not in d:
                    found = False
                    continue
                if idx is None:
                    del d[name]
                else:
                    try:
                        gone = set(self.indexes(d[name], idx))
                    except Fail:
                        found = False
                        continue
                    d[name] = [v for i, v in enumerate(d[name], 1) if i not in gone]
            self.set_ok(found, None if found else 4)
            return
        if not re.fullmatch(r'[A-Za-z0-9_]+', name):
            self.set_ok(False, 1)
            return
        if name in ('status', 'argv') and name == 'status':
            self.set_ok(False, 1)
            return
        vals = list(a[1:])
        d = self.scope_of(flags, name)
        if d is None:
            d = self.function_scope()
        if idx is not None:
            cur = list(d.get(name, []))
            where = self.indexes(cur, idx, clip=False)
            if len(where) != len(vals):
                self.set_ok(False, 1)
                return
            for i, v in zip(where, vals):
                while len(cur) < i:
                    cur.append('')
                cur[i - 1] = v
            d[name] = cur
        elif 'a' in flags:
            base = d.get(name)
            if base is None:
                # appending to a local variable starts from the visible value
                base = []
            d[name] = list(base) + vals
        else:
            d[name] = vals
        self.ok, self.code = status

    def scope_of(self, flags, name):
        if 'g' in flags or 'U' in flags:
            return self.globals
        if 'l' in flags:
            return self.scope.vars
        return self.find(name)

    def pick_text(self, vals, idx):
        return self.pick(vals, Node('word', [Node('lit', list(idx), idx)]))

    def indexes(self, vals, idx, clip=True):
        m = re.fullmatch(r'\s*(-?\d+)\s*', idx)
        if not clip and m:
            i = int(m.group(1))
            if i == 0:
                raise Fail('index')
            return [i if i > 0 else len(vals) + i + 1]
        mark = list(range(1, len(vals) + 1))
        return self.pick_text(mark, idx)

    def bi_commandline(self, a):
        o = ''.join(sorted(''.join(native(x).lstrip('-') for x in a)))
        if o == 'cop':
            for t in self.tokens[:self.cursor]:
                self.emit(t, '\n')
        elif o == 'op':
            for t in self.tokens:
                self.emit(t, '\n')
        elif o == 'ct':
            self.emit(self.tokens[self.cursor], '\n')
        else:
            raise Unsupported('commandline ' + ' '.join(a))
        self.set_ok(True)

    def bi_complete(self, a):
        self.entries.append(list(a))
        self.set_ok(True)

    # -- string
    def bi_string(self, a):
        a = list(a)
        sub = native(a.pop(0)) if a else ''
        f = getattr(self, 'string_' + sub, None)
        if f is None:
            raise Unsupported('string ' + sub)
        f(a)

    def options(self, a, flags, valued, longs=()):
        '''Parse getopt-style options; returns {option: value}.'''
        got = {}
        a = list(a)
        while a and len(a[0]) > 1 and isc0(a[0], '-'):
            o = native(a[0])
            if o == '--':
                a.pop(0)
                break
            if o.startswith('--'):
                k, _, v = o[2:].partition('=')
                if k not in longs:
                    raise Unsupported('string option ' + o)
                got[k] = v
                a.pop(0)
                continue
            a.pop(0)
            i = 1
            while i < len(o):
                c = o[i]
                if c in valued:
                    got[c] = o[i + 1:] if i + 1 < len(o) else native(a.pop(0))
                    break
                if c not in flags:
                    raise Unsupported('string option -' + c)
                got[c] = True
                i += 1
        return got, a

    def inputs(self, a):
        if a or self.stdin is None:
            return a
        return lines_of(self.stdin)

    def string_split(self, a):
        o, a = self.options(a, 'nr', 'mf')
        if 'f' in o:
            raise Unsupported('string split -f')
        sep = a.pop(0)
        if not len(sep):
            raise Unsupported('string split with an empty separator')
        limit = int(o['m']) if 'm' in o else -1
        did = False
        for x in self.inputs(a):
            if type(x) is str and type(sep) is str:
                parts = x.rsplit(sep, limit) if 'r' in o else x.split(sep, limit)
            else:
                x = x if isinstance(x, SymStr) else SymStr(list(x))
                parts = x.rsplit(sep, limit) if 'r' in o else x.split(sep, limit)
            if len(parts) > 1:
                did = True
            for p in parts:
                if 'n' in o and not len(p):
                    continue
                self.emit(p, '\n')
        self.set_ok(did)

    def string_match(self, a):
        o, a = self.options(a, 'qrvegi', '')
        pat = a.pop(0)
        conds = []
        for x in self.inputs(a):
            if 'r' in o:
                c, m = self.regex(native(pat), x, 'i' in o)
            else:
                p = cat('*', pat, '*') if 'e' in o else pat
                c = mkbool(Pattern([(ch, False if isc(ch, '*?\\') else True) for ch in it(p)], extglob=False,
                                   nocase='i' in o).match(it(x)))
                m = None
            if 'v' in o:
                c = snot(c) if isinstance(c, SymBool) else not c
            if 'q' in o:
                conds.append(c)
                continue
            if not c:
                conds.append(False)
                continue
            conds.append(True)
            if m is None or 'v' in o or 'e' in o:
                self.emit(x, '\n')
            else:
                groups = [] if 'g' in o else [m.group(0)]
                for g in range(1, (m.re.groups if hasattr(m, 're') else 0) + 1):
                    v = m.group(g)
                    groups.append('' if v is None else v)
                if 'g' in o:
                    groups = [g for g in groups if len(g)]
                for v in groups:
                    self.emit(v, '\n')
        self.set_ok(sor(*conds) if conds else False)

    def regex(self, pat, x, nocase):
        flags = re.A | (re.I if nocase else 0)
        # PCRE: $ matches at the end or before a final newline, as in Python
        if type(x) is str:
            m = re.search(pat, x, flags)
            return m is not None, m
        m = rex.module_func('search', (pat, x, flags), {})
        if m is None:
            return False, None
        return m.cond(), m

    def string_sub(self, a):
        o, a = self.options(a, 'q', 'sle')
        did = False
        for x in self.inputs(a):
            n = len(x)
            start = int(o.get('s', 1))
            if start == 0 or int(o.get('e', 1)) == 0:
                self.set_ok(False, 2)
                return
            pos = start - 1 if start > 0 else max(0, n + start)
            pos = min(pos, n)
            if 'e' in o:
                e = int(o['e'])
                end = e if e > 0 else max(0, n + e)
                end = max(pos, min(end, n))
                if 'l' in o:
                    raise Unsupported('string sub -l -e')
            elif 'l' in o:
                end = min(n, pos + int(o['l']))
            else:
                end = n
            self.emit(x[pos:end], '\n')
            did = True
        self.set_ok(did)

    def string_length(self, a):
        o, a = self.options(a, 'q', '')
        any_ = False
        for x in self.inputs(a):
            if 'q' not in o:
                self.emit(str(len(x)), '\n')
            any_ = any_ or len(x) > 0
        self.set_ok(any_)

    def string_lower(self, a):
        o, a = self.options(a, 'q', '')
        changed = False
        for x in self.inputs(a):
            y = x.lower()
            self.emit(y, '\n')
            changed = True if type(x) is str and x != y else changed
        self.set_ok(changed)

    def string_escape(self, a):
        o, a = self.options(a, 'n', '', ('style',))
        for x in self.inputs(a):
            if o.get('style') == 'regex':
                out = []
                for c in it(x):
                    if isc(c, '.^$*+()?[{}\\|]-'):
                        out.append('\\')
                    out.append(c)
                self.emit(mkstr(out), '\n')
            else:
                raise Unsupported('string escape')
        self.set_ok(bool(a))

    def string_unescape(self, a):
        o, a = self.options(a, 'n', '', ('style',))
        if o:
            raise Unsupported('string unescape options')
        for x in self.inputs(a):
            if any(isc(c, '\'"\\') for c in it(x)):
                raise Unsupported('unescaping quoted text')
            self.emit(x, '\n')
        self.set_ok(True)

    def string_replace(self, a):
        o, a = self.options(a, 'rafiq', '')
        pat, rep = a.pop(0), native(a.pop(0))
        if set(o) - {'r'}:
            raise Unsupported('string replace options')
        for x in self.inputs(a):
            if 'r' in o:
                if '$' in rep or '\\' in rep:
                    raise Unsupported('replacement text')
                pt = native(pat)
                y = re.sub(pt, lambda m: rep, x, count=1) if type(x) is str else \
                    rex.module_func('sub', (pt, rep, x, 1), {})
            else:
                y = x.replace(native(pat), rep, 1)
            self.emit(y, '\n')
        self.set_ok(True)

    def string_join(self, a):
        o, a = self.options(a, 'q', '')
        sep = a.pop(0)
        xs = self.inputs(a)
        for i, x in enumerate(xs):
            if i:
                self.emit(sep)
            self.emit(x)
        if xs:
            self.emit('\n')
        self.set_ok(len(xs) > 1)


def isc0(x, chars):
    return isc(it(x)[0], chars)


BINARY = ('=', '==', '!=', '-eq', '-ne', '-lt', '-le', '-gt', '-ge')


def native_text(x):
    return x if type(x) is str else None


def native_is(x, text):
    return type(x) is str and x == text or (isinstance(x, SymStr) and len(x) == len(text) and bool(x == text))


def split_index(name):
    if name.endswith(']') and '[' in name:
        i = name.index('[')
        return name[:i], name[i + 1:-1]
    return name, None


def has_sub(word):
    for p in word.a:
        if p.k == 'sub':
            return True
        if p.k == 'dq' and any(q.k == 'sub' for q in p.a):
            return True
        if p.k == 'var' and p.b is not None and has_sub(p.b):
            return True
    return False


def lines_of(chunks):
    '''Lines of output text.'''
    out = []
    cur = []
    open_ = False
    for ch in chunks:
        if type(ch) is str:
            parts = ch.split('\n')
            for i, p in enumerate(parts):
                if i:
                    out.append(cat(*cur))
                    cur = []
                    open_ = False
                if p:
                    cur.append(p)
                    open_ = True
        else:
            for c in it(ch):
                if isc(c, '\n'):
                    out.append(cat(*cur))
                    cur = []
                    open_ = False
                else:
                    cur.append(mkstr([c]))
                    open_ = True
    if open_:
        out.append(cat(*cur))
    return out
