'''A model of the Bash fragment that generated completion scripts use.

Parser and interpreter work on native strings and on SymStr alike; decisions that
depend on symbolic characters go through the engine (fork), pattern matches are
built as one formula first. Anything outside the fragment raises Unsupported.
The model is validated on every run by replaying path samples in the real Bash.
'''

import os
import re

from symx import core
from symx.core import e_and, e_or, e_not, Unsupported, mask_of_chars
from symx.values import (SymStr, SymBool, mkstr, mkbool, items_of, char_eq, char_in, eq_expr,
                         fork_char, char_lt)


class ShellError(Exception):
    '''The script is not valid Bash, or a command fails in a way that Bash reports.'''


# -----------------------------------------------------------------------------
# Character helpers
# -----------------------------------------------------------------------------

_MASK = {}


def isc(c, chars):
    '''Is the string item c one of chars? Forks for symbolic items.'''
    if type(c) is int:
        m = _MASK.get(chars)
        if m is None:
            m = _MASK[chars] = mask_of_chars(chars)
        return bool(mkbool(core.e_mask(c, m)))
    return c in chars


def it(x):
    r = items_of(x)
    if r is None:
        raise TypeError(f'not a string: {x!r}')
    return r


def cat(*xs):
    if all(type(x) is str for x in xs):
        return ''.join(xs)
    out = []
    for x in xs:
        out.extend(it(x))
    return mkstr(out)


def native(x, what='text'):
    if isinstance(x, SymStr):
        return x.concretize()
    return x


NAME0 = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'
NAMEC = NAME0 + DIGITS
META = ' \t\n;&|<>()'

# -----------------------------------------------------------------------------
# Parser
# -----------------------------------------------------------------------------


class Node:
    __slots__ = ('k', 'a', 'b', 'c', 'd')

    def __init__(self, k, a=None, b=None, c=None, d=None):
        self.k, self.a, self.b, self.c, self.d = k, a, b, c, d

    def __repr__(self):
        return f'{self.k}({self.a!r},{self.b!r},{self.c!r},{self.d!r})'


class Parser:
    RESERVED = ('if', 'then', 'else', 'elif', 'fi', 'do', 'done', 'case', 'esac', 'while',
                'until', 'for', '{', '}', '!', 'in', '[[')
    DECL = ('local', 'declare', 'typeset', 'export', 'readonly')

    def __init__(self, text):
        self.s = text if type(text) is str else it(text)
        self.n = len(self.s)
        self.i = 0

    # -- low level
    def at(self, chars, k=0):
        j = self.i + k
        if j >= self.n:
            return False
        c = self.s[j]
        return isc(c, chars) if type(c) is int else c in chars

    def look(self, text):
        for k, ch in enumerate(text):
            if not self.at(ch, k):
                return False
        return True

    def err(self, msg):
        raise ShellError(f'bash syntax: {msg} at {self.i}: {self.ctx()}')

    def ctx(self):
        return ''.join(c if type(c) is str else '?' for c in self.s[max(0, self.i - 20):self.i + 20])

    def expect(self, text):
        if not self.look(text):
            self.err(f'expected {text!r}')
        self.i += len(text)

    def skip_ws(self):
        while self.i < self.n:
            if self.at(' \t'):
                self.i += 1
            elif self.at('\\') and self.at('\n', 1):
                self.i += 2
            elif self.at('#'):
                while self.i < self.n and not self.at('\n'):
                    self.i += 1
            else:
                return

    def skip_nl(self):
        while True:
            self.skip_ws()
            if self.at('\n'):
                self.i += 1
            else:
                return

    def word_end(self, k):
        return self.i + k >= self.n or self.at(META, k)

    def keyword(self, kw):
        return self.look(kw) and self.word_end(len(kw))

    # -- lists
    def parse(self):
        r = self.list(())
        self.skip_nl()
        if self.i < self.n:
            self.err('unexpected text')
        return r

    def stop(self, stops):
        if self.i >= self.n:
            return True
        for s in stops:
            if s in (')', ';;'):
                if self.look(s) or (s == ';;' and self.look(';&')):
                    return True
            elif self.keyword(s):
                return True
        return False

    def list(self, stops):
        out = []
        while True:
            self.skip_nl()
            while self.at(';') and not self.at(';&', 1):
                # only legal directly after a command, handled below
                self.err('unexpected ;')
            if self.stop(stops):
                return Node('list', out)
            out.append(self.and_or())
            self.skip_ws()
            if self.at(';') and not self.at(';&', 1):
                self.i += 1
            elif self.at('\n'):
                self.i += 1
            elif self.stop(stops) or self.i >= self.n:
                continue
            else:
                self.err('unexpected token')

    def and_or(self):
        left = self.pipeline()
        while True:
            self.skip_ws()
            if self.look('&&'):
                self.i += 2
                self.skip_nl()
                left = Node('and', left, self.pipeline())
            elif self.look('||'):
                self.i += 2
                self.skip_nl()
                left = Node('or', left, self.pipeline())
            else:
                return left

    def pipeline(self):
        self.skip_ws()
        neg = False
        while self.keyword('!'):
            neg = not neg
            self.i += 1
            self.skip_ws()
        cmd = self.command()
        self.skip_ws()
        while self.at('|') and not self.at('|', 1):
            self.i += 1
            if self.at('&'):
                raise Unsupported('|&')
            self.skip_nl()
            cmd = Node('pipe', cmd, self.command())
            self.skip_ws()
        return Node('not', cmd) if neg else cmd

    def command(self):
        self.skip_ws()
        if self.i >= self.n:
            self.err('command expected')
        node = None
        if self.look('(('):
            self.i += 2
            node = Node('arith', self.arith_until('))'))
        elif self.at('('):
            self.i += 1
            body = self.list((')',))
            self.expect(')')
            node = Node('subshell', body)
        elif self.keyword('[['):
            self.i += 2
            node = Node('cond', self.cond_or())
            self.skip_nl()
            self.expect(']]')
        elif self.keyword('{'):
            self.i += 1
            body = self.list(('}',))
            self.expect('}')
            node = Node('group', body)
        elif self.keyword('if'):
            node = self.p_if()
        elif self.keyword('while') or self.keyword('until'):
            until = self.at('u')
            self.i += 5
            cond = self.list(('do',))
            self.expect('do')
            body = self.list(('done',))
            self.expect('done')
            node = Node('while', cond, body, until)
        elif self.keyword('for'):
            node = self.p_for()
        elif self.keyword('case'):
            node = self.p_case()
        if node is None:
            return self.simple()
        redirs = self.redirs()
        return Node('redir', node, redirs) if redirs else node

    def p_if(self):
        self.i += 2
        arms = []
        cond = self.list(('then',))
        self.expect('then')
        body = self.list(('elif', 'else', 'fi'))
        arms.append((cond, body))
        other = None
        while True:
            if self.keyword('elif'):
                self.i += 4
                cond = self.list(('then',))
                self.expect('then')
                body = self.list(('elif', 'else', 'fi'))
                arms.append((cond, body))
            elif self.keyword('else'):
                self.i += 4
                other = self.list(('fi',))
            else:
                self.expect('fi')
                return Node('if', arms, other)

    def p_for(self):
        self.i += 3
        self.skip_ws()
        if self.look('(('):
            self.i += 2
            a = self.arith_until(';')
            b = self.arith_until(';')
            c = self.arith_until('))')
            self.skip_ws()
            if self.at(';'):
                self.i += 1
            self.skip_nl()
            self.expect('do')
            body = self.list(('done',))
            self.expect('done')
            return Node('cfor', (a, b, c), body)
        name = self.name()
        self.skip_ws()
        words = None
        if self.keyword('in'):
            self.i += 2
            words = []
            while True:
                self.skip_ws()
                if self.i >= self.n or self.at(';\n'):
                    break
                words.append(self.word())
        self.skip_ws()
        if self.at(';'):
            self.i += 1
        self.skip_nl()
        self.expect('do')
        body = self.list(('done',))
        self.expect('done')
        return Node('for', name, words, body)

    def p_case(self):
        self.i += 4
        self.skip_ws()
        subject = self.word()
        self.skip_nl()
        self.expect('in')
        arms = []
        while True:
            self.skip_nl()
            if self.keyword('esac'):
                self.i += 4
                return Node('case', subject, arms)
            if self.i >= self.n:
                self.err('unterminated case')
            if self.at('('):
                self.i += 1
                self.skip_ws()
            pats = []
            while True:
                self.skip_ws()
                pats.append(self.word(empty_ok=False))
                self.skip_ws()
                if self.at('|'):
                    self.i += 1
                    continue
                self.expect(')')
                break
            body = self.list((';;', 'esac'))
            if self.look(';;&'):
                term = ';;&'
                self.i += 3
            elif self.look(';;'):
                term = ';;'
                self.i += 2
            elif self.look(';&'):
                term = ';&'
                self.i += 2
            else:
                term = ';;'
            arms.append((pats, body, term))

    def name(self):
        j = self.i
        if not self.at(NAME0):
            self.err('name expected')
        while self.at(NAMEC):
            self.i += 1
        r = self.s[j:self.i]
        if type(r) is not str:
            r = native(mkstr(r))
        return r

    # -- redirections
    def redirs(self):
        out = []
        while True:
            self.skip_ws()
            r = self.redir()
            if r is None:
                return out
            out.append(r)

    def redir(self):
        if self.look('<<<'):
            self.i += 3
            self.skip_ws()
            return ('<<<', self.word())
        if self.look('<<'):
            raise Unsupported('here document')
        if self.at('<') and self.at('(', 1):
            return None
        if self.at('<'):
            self.i += 1
            self.skip_ws()
            if self.look('<('):
                self.i += 2
                body = self.list((')',))
                self.expect(')')
                return ('<()', body)
            return ('<', self.word())
        for op in ('&>>', '&>', '2>&1', '2>>', '2>', '1>', '>>', '>&2', '>'):
            if self.look(op):
                self.i += len(op)
                if op in ('2>&1', '>&2'):
                    return (op, None)
                self.skip_ws()
                return (op, self.word())
        return None

    # -- simple commands
    def assignment(self, decl=False):
        '''Try to parse name[sub]=value at the current position.'''
        save = self.i
        if not self.at(NAME0):
            return None
        j = self.i
        while self.at(NAMEC):
            self.i += 1
        name = self.s[j:self.i]
        if type(name) is not str:
            if any(type(c) is int for c in name):
                name = native(mkstr(name)) if self.at('[=+') else None
            else:
                name = ''.join(name)
        sub = None
        if name is not None and self.at('['):
            self.i += 1
            sub = self.subscript()
            self.expect(']')
        append = False
        if name is not None and self.look('+='):
            append = True
            self.i += 2
        elif name is not None and self.at('='):
            self.i += 1
        else:
            self.i = save
            return None
        if self.at('(') and sub is None:
            self.i += 1
            elems = []
            while True:
                self.skip_nl()
                if self.at(')'):
                    self.i += 1
                    break
                if self.i >= self.n:
                    self.err('unterminated array')
                if self.at('['):
                    raise Unsupported('[key]= in an array literal')
                if self.at(META):
                    self.err('unexpected token in array')
                elems.append(self.word())
            return Node('assign', name, ('array', elems), append)
        if self.word_end(0):
            return Node('assign', name, ('word', Node('word', [])), append, sub)
        return Node('assign', name, ('word', self.word(assign=True)), append, sub)

    def subscript(self):
        '''Raw text up to the matching bracket.'''
        j = self.i
        depth = 0
        while self.i < self.n:
            if self.at('['):
                depth += 1
            elif self.at(']'):
                if depth == 0:
                    break
                depth -= 1
            elif self.at('"'):
                self.i += 1
                while not self.at('"'):
                    self.i += 2 if self.at('\\') else 1
                    if self.i >= self.n:
                        self.err('unterminated quote')
            elif self.at("'"):
                self.i += 1
                while not self.at("'"):
                    self.i += 1
                    if self.i >= self.n:
                        self.err('unterminated quote')
            self.i += 1
        raw = self.s[j:self.i]
        return Node('sub', raw if type(raw) is str else mkstr(raw))

    def simple(self):
        assigns = []
        words = []
        redirs = []
        decl = False
        while True:
            self.skip_ws()
            if self.i >= self.n or self.at('\n;)') or (self.at('&') and not self.at('>', 1)) or self.at('|'):
                break
            r = self.redir()
            if r is not None:
                redirs.append(r)
                continue
            if self.at('('):
                # function definition?
                if len(words) == 1 and not assigns and self.at(')', 1):
                    name = lit(words[0])
                    if name is None and words[0].k == 'word' and all(p.k == 'lit' and not p.b for p in words[0].a):
                        name = ''.join(native(p.a) for p in words[0].a)
                    if name is None:
                        self.err('bad function name')
                    self.i += 2
                    self.skip_nl()
                    body = self.command()
                    return Node('func', name, body)
                self.err('unexpected (')
            if not words or decl:
                a = self.assignment()
                if a is not None:
                    if words:
                        words.append(a)
                    else:
                        assigns.append(a)
                    continue
            w = self.word()
            words.append(w)
            if len(words) == 1:
                name = lit(w)
                decl = name in self.DECL
                if name in self.RESERVED:
                    self.err(f'unexpected reserved word {name}')
        if not (assigns or words or redirs):
            self.err('command expected')
        return Node('simple', assigns, words, redirs)

    # -- words
    def word(self, stops=META, empty_ok=True, assign=False):
        parts = []
        buf = []
        depth = 0

        def flush():
            if buf:
                parts.append(Node('lit', mkstr(buf), False))
                buf.clear()

        start = self.i
        while self.i < self.n:
            if depth == 0 and self.at(stops):
                # extglob prefixes consume their parenthesis below
                break
            if depth and self.at('()'):
                depth += 1 if self.at('(') else -1
                buf.append(self.s[self.i])
                self.i += 1
                continue
            if self.at("'"):
                flush()
                self.i += 1
                j = self.i
                while True:
                    if self.i >= self.n:
                        self.err('unterminated single quote')
                    if self.at("'"):
                        break
                    self.i += 1
                parts.append(Node('lit', mkstr(self.s[j:self.i]), True))
                self.i += 1
            elif self.at('"'):
                flush()
                self.i += 1
                self.dq(parts)
            elif self.at('\\'):
                if self.at('\n', 1):
                    self.i += 2
                    continue
                flush()
                if self.i + 1 >= self.n:
                    self.err('dangling backslash')
                parts.append(Node('lit', mkstr(self.s[self.i + 1:self.i + 2]), True))
                self.i += 2
            elif self.at('$'):
                flush()
                self.dollar(parts, False)
            elif self.at('`'):
                raise Unsupported('backquote')
            elif self.at('?*+@!') and self.at('(', 1) and stops is META:
                buf.append(self.s[self.i])
                buf.append('(')
                self.i += 2
                depth += 1
            elif self.at('~') and self.i == start and stops is META:
                raise Unsupported('tilde expansion')
            elif self.at('{') and stops is META and not depth:
                if not self.at('}', 1):
                    raise Unsupported('brace expansion')
                buf.append('{')
                self.i += 1
            elif self.at('}') and stops is META and not buf and not parts and not self.word_end(1):
                buf.append('}')
                self.i += 1
            else:
                buf.append(self.s[self.i])
                self.i += 1
        if depth:
            self.err('unterminated extglob')
        flush()
        if not parts and self.i == start:
            if not empty_ok or stops is META:
                self.err('word expected')
        return Node('word', parts)

    def dq(self, parts):
        '''Inside double quotes (opening quote consumed).'''
        buf = []
        n0 = len(parts)

        def flush():
            if buf:
                parts.append(Node('lit', mkstr(buf), True))
                buf.clear()

        while True:
            if self.i >= self.n:
                self.err('unterminated double quote')
            if self.at('"'):
                self.i += 1
                break
            if self.at('\\'):
                if self.i + 1 >= self.n:
                    self.err('unterminated double quote')
                if self.at('$`"\\', 1):
                    buf.append(self.s[self.i + 1])
                    self.i += 2
                elif self.at('\n', 1):
                    self.i += 2
                else:
                    buf.append('\\')
                    self.i += 1
            elif self.at('$'):
                flush()
                self.dollar(parts, True)
            elif self.at('`'):
                raise Unsupported('backquote')
            else:
                buf.append(self.s[self.i])
                self.i += 1
        flush()
        if len(parts) == n0:
            parts.append(Node('lit', '', True))

    def dollar(self, parts, q):
        if self.look('$(('):
            self.i += 3
            parts.append(Node('arithx', self.arith_until('))'), q))
        elif self.look('$('):
            self.i += 2
            body = self.list((')',))
            self.expect(')')
            parts.append(Node('cmd', body, q))
        elif self.look('${'):
            self.i += 2
            parts.append(Node('param', self.param(q), q))
        elif not q and self.look("$'"):
            self.i += 2
            out = []
            esc = {'t': '\t', 'n': '\n', '\\': '\\', "'": "'", '"': '"', 'r': '\r', 'a': '\a',
                   'b': '\b', 'e': '\x1b', 'E': '\x1b', 'f': '\f', 'v': '\v', '?': '?'}
            while not self.at("'"):
                if self.i >= self.n:
                    self.err("unterminated $'")
                if self.at('\\'):
                    c = self.s[self.i + 1]
                    if c not in esc:
                        raise Unsupported("$'\\...'")
                    out.append(esc[c])
                    self.i += 2
                else:
                    out.append(self.s[self.i])
                    self.i += 1
            self.i += 1
            parts.append(Node('lit', mkstr(out), True))
        elif self.at(NAME0, 1):
            self.i += 1
            parts.append(Node('param', Node('pe', self.name(), None, None, None), q))
        elif self.at(DIGITS + '@*#?', 1):
            parts.append(Node('param', Node('pe', self.s[self.i + 1], None, None, None), q))
            self.i += 2
        elif self.at('!$-', 1):
            raise Unsupported("special parameter " + repr(self.s[max(0,self.i-60):self.i+20]))
        else:
            parts.append(Node('lit', '$', q))
            self.i += 1

    def param(self, q):
        '''After "${"; returns pe(name, subscript, op, arg) or len/keys forms.'''
        prefix = None
        if self.at('#') and not self.at('}', 1):
            prefix = '#'
            self.i += 1
        elif self.at('!'):
            prefix = '!'
            self.i += 1
        if self.at(NAME0):
            name = self.name()
        elif self.at(DIGITS):
            j = self.i
            while self.at(DIGITS):
                self.i += 1
            name = ''.join(self.s[j:self.i])
        elif self.at('@*#?'):
            name = self.s[self.i]
            self.i += 1
        else:
            self.err('bad substitution')
        sub = None
        if self.at('['):
            self.i += 1
            if self.at('@*') and self.at(']', 1):
                sub = self.s[self.i]
                self.i += 2
            else:
                sub = self.subscript()
                self.expect(']')
        if self.at('}'):
            self.i += 1
            if prefix == '#':
                return Node('pe', name, sub, 'len', None)
            if prefix == '!':
                if sub not in ('@', '*'):
                    raise Unsupported('indirect expansion')
                return Node('pe', name, sub, 'keys', None)
            return Node('pe', name, sub, None, None)
        if prefix:
            raise Unsupported('${# / ${! with an operator')
        for op in (':-', ':=', ':+', ':?'):
            if self.look(op):
                self.i += 2
                if op not in (':-', ':+'):
                    raise Unsupported(op)
                w = self.word('}') if not self.at('}') else Node('word', [])
                self.expect('}')
                return Node('pe', name, sub, op, w)
        if self.at(':'):
            self.i += 1
            a, which = self.arith_in_param()
            b = None
            if which == ':':
                b, which = self.arith_in_param()
            return Node('pe', name, sub, 'substr', (a, b))
        for op in ('##', '#', '%%', '%', '//', '/', ',,', '^^', '-', '+'):
            if self.look(op):
                self.i += len(op)
                if op in (',,', '^^'):
                    self.expect('}')
                    return Node('pe', name, sub, op, None)
                if op in ('/', '//'):
                    w = self.word('/}')
                    rep = Node('word', [])
                    if self.at('/'):
                        self.i += 1
                        rep = self.word('}') if not self.at('}') else rep
                    self.expect('}')
                    return Node('pe', name, sub, op, (w, rep))
                w = self.word('}') if not self.at('}') else Node('word', [])
                self.expect('}')
                return Node('pe', name, sub, op, w)
        self.err('bad substitution')

    def arith_in_param(self):
        '''Arithmetic up to ":" or "}" of the surrounding expansion.'''
        a = Arith(self)
        node = a.expr_or_empty()
        self.skip_ws()
        if self.at(':'):
            self.i += 1
            return node, ':'
        self.expect('}')
        return node, '}'

    def arith_until(self, end):
        a = Arith(self)
        node = a.expr_or_empty()
        self.skip_nl()
        self.expect(end)
        return node

    # -- [[ ]]
    def cond_or(self):
        left = self.cond_and()
        while True:
            self.skip_nl()
            if self.look('||'):
                self.i += 2
                left = Node('or', left, self.cond_and())
            else:
                return left

    def cond_and(self):
        left = self.cond_not()
        while True:
            self.skip_nl()
            if self.look('&&'):
                self.i += 2
                left = Node('and', left, self.cond_not())
            else:
                return left

    def cond_not(self):
        self.skip_nl()
        if self.keyword('!'):
            self.i += 1
            return Node('not', self.cond_not())
        if self.at('('):
            self.i += 1
            r = self.cond_or()
            self.skip_nl()
            self.expect(')')
            return r
        if self.at('-') and self.at('nzfder', 1) and self.at(' \t', 2):
            op = self.s[self.i + 1]
            self.i += 2
            self.skip_ws()
            return Node('unary', op, self.word())
        left = self.word()
        self.skip_ws()
        for op in ('==', '!=', '=~', '='):
            if self.look(op):
                self.i += len(op)
                self.skip_ws()
                if op == '=~':
                    return Node('regex', left, self.word(' \t\n'))
                return Node('match', left, self.word(), op == '!=')
        for op in ('-eq', '-ne', '-lt', '-le', '-gt', '-ge', '<', '>'):
            if self.look(op):
                raise Unsupported('[[ ' + op)
        return Node('unary', 'n', left)


class Arith:
    '''Arithmetic expressions, sharing the position of a Parser.'''

    BIN = [('||',), ('&&',), ('==', '!='), ('<=', '>=', '<', '>'), ('+', '-'), ('*', '/', '%')]

    def __init__(self, p):
        self.p = p

    def ws(self):
        while self.p.at(' \t\n'):
            self.p.i += 1

    def expr_or_empty(self):
        self.ws()
        p = self.p
        if p.i >= p.n or p.at(';:})'):
            return None
        r = self.comma()
        self.ws()
        return r

    def comma(self):
        r = self.assign()
        self.ws()
        while self.p.at(','):
            self.p.i += 1
            r = Node(',', r, self.assign())
            self.ws()
        return r

    def assign(self):
        p = self.p
        self.ws()
        save = p.i
        if p.at(NAME0):
            ref = self.ref()
            self.ws()
            for op in ('+=', '-=', '*='):
                if p.look(op):
                    p.i += 2
                    return Node('asg', ref, op, self.assign())
            if p.at('=') and not p.at('=', 1):
                p.i += 1
                return Node('asg', ref, '=', self.assign())
            p.i = save
        return self.ternary()

    def ternary(self):
        c = self.binary(0)
        self.ws()
        if self.p.at('?'):
            self.p.i += 1
            a = self.assign()
            self.ws()
            self.p.expect(':')
            b = self.assign()
            return Node('?:', c, a, b)
        return c

    def binary(self, level):
        if level == len(self.BIN):
            return self.unary()
        left = self.binary(level + 1)
        while True:
            self.ws()
            for op in self.BIN[level]:
                if self.p.look(op):
                    nxt = len(op)
                    if op in '+-' and (self.p.at(op, 1) or self.p.at('=', 1)):
                        continue
                    if op in '*/%' and self.p.at('=', 1):
                        continue
                    if op in '<>' and self.p.at(op, 1):
                        raise Unsupported('shift')
                    self.p.i += nxt
                    left = Node('bin', op, left, self.binary(level + 1))
                    break
            else:
                return left

    def unary(self):
        p = self.p
        self.ws()
        for op in ('++', '--'):
            if p.look(op):
                p.i += 2
                self.ws()
                return Node('preinc', self.ref(), 1 if op == '++' else -1)
        if p.at('!') and not p.at('=', 1):
            p.i += 1
            return Node('lnot', self.unary())
        if p.at('-'):
            p.i += 1
            return Node('neg', self.unary())
        if p.at('+'):
            p.i += 1
            return self.unary()
        return self.atom()

    def ref(self):
        p = self.p
        name = p.name()
        sub = None
        if p.at('['):
            p.i += 1
            sub = p.subscript()
            p.expect(']')
        return Node('ref', name, sub)

    def atom(self):
        p = self.p
        self.ws()
        if p.at('('):
            p.i += 1
            r = self.comma()
            self.ws()
            p.expect(')')
            return r
        if p.at(DIGITS):
            j = p.i
            while p.at(NAMEC):
                p.i += 1
            t = ''.join(p.s[j:p.i])
            if not t.isdigit():
                raise ShellError('arithmetic syntax error: ' + t)
            return Node('num', int(t, 8) if t[0] == '0' and len(t) > 1 else int(t))
        if p.at(NAME0):
            r = self.ref()
            for op in ('++', '--'):
                if p.look(op):
                    p.i += 2
                    return Node('postinc', r, 1 if op == '++' else -1)
            return r
        if p.at('$"'):
            parts = []
            if p.at('"'):
                p.i += 1
                p.dq(parts)
            else:
                p.dollar(parts, True)
            return Node('xnum', Node('word', parts))
        p.err('arithmetic operand expected')


def lit(word):
    '''Native text of a fully literal, unquoted word, else None.'''
    if word.k != 'word' or len(word.a) != 1:
        return None
    p = word.a[0]
    if p.k != 'lit' or p.b or not isinstance(p.a, str):
        return None
    return p.a


_CACHE = {}


def parse(text):
    if type(text) is str:
        r = _CACHE.get(text)
        if r is None:
            r = Parser(text).parse()
            if len(_CACHE) > 300:
                _CACHE.clear()
            _CACHE[text] = r
        return r
    return Parser(text).parse()


# -----------------------------------------------------------------------------
# Patterns
# -----------------------------------------------------------------------------

CLASSES = {
    'alpha': str.isalpha, 'digit': lambda c: c in DIGITS, 'alnum': str.isalnum,
    'space': lambda c: c in ' \t\n\r\v\f', 'upper': str.isupper, 'lower': str.islower,
    'punct': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ',
    'blank': lambda c: c in ' \t',
}


class Pattern:
    '''Compiled glob. `items` is a list of (string item, quoted).'''

    def __init__(self, items, extglob=True, nocase=False):
        self.nocase = nocase
        self.extglob = extglob
        self.src = items
        self.pos = 0
        self.seq = self._seq(False)
        if self.pos < len(self.src):
            raise Unsupported('unbalanced extglob')

    def _special(self, k, chars):
        j = self.pos + k
        if j >= len(self.src):
            return False
        c, q = self.src[j]
        return not q and isc(c, chars)

    def _seq(self, inner):
        out = []
        while self.pos < len(self.src):
            if inner and self._special(0, '|)'):
                break
            c, q = self.src[self.pos]
            if not q:
                if self.extglob and self._special(0, '?*+@!') and self._special(1, '('):
                    kind = fork_char(c)
                    self.pos += 2
                    alts = [self._seq(True)]
                    while self._special(0, '|'):
                        self.pos += 1
                        alts.append(self._seq(True))
                    if not self._special(0, ')'):
                        raise Unsupported('unterminated extglob pattern')
                    self.pos += 1
                    out.append(('ext', kind, alts))
                    continue
                if isc(c, '*'):
                    self.pos += 1
                    if not (out and out[-1][0] == 'star'):
                        out.append(('star',))
                    continue
                if isc(c, '?'):
                    self.pos += 1
                    out.append(('any',))
                    continue
                if isc(c, '['):
                    b = self._bracket()
                    if b is not None:
                        out.append(b)
                        continue
                if isc(c, '\\'):
                    self.pos += 1
                    if self.pos < len(self.src):
                        out.append(('c', self.src[self.pos][0]))
                        self.pos += 1
                    else:
                        out.append(('c', '\\'))
                    continue
            self.pos += 1
            out.append(('c', c))
        return out

    def _bracket(self):
        save = self.pos
        self.pos += 1
        neg = False
        if self._special(0, '!^'):
            neg = True
            self.pos += 1
        members = []
        first = True
        while True:
            if self.pos >= len(self.src):
                self.pos = save
                return None
            if self._special(0, ']') and not first:
                self.pos += 1
                return ('set', neg, members)
            first = False
            c, q = self.src[self.pos]
            if not q and isc(c, '[') and self._special(1, ':'):
                j = self.pos + 2
                name = []
                while j < len(self.src) and isinstance(self.src[j][0], str) and self.src[j][0].isalpha():
                    name.append(self.src[j][0])
                    j += 1
                if j + 1 < len(self.src) and self.src[j][0] == ':' and self.src[j + 1][0] == ']':
                    members.append(('class', ''.join(name)))
                    self.pos = j + 2
                    continue
                raise Unsupported('[: in a bracket')
            if not q and isc(c, '[') and self._special(1, '.='):
                raise Unsupported('[. or [= in a bracket')
            if not q and isc(c, '\\'):
                self.pos += 1
                if self.pos >= len(self.src):
                    self.pos = save
                    return None
                c = self.src[self.pos][0]
            self.pos += 1
            if self._special(0, '-') and self.pos + 1 < len(self.src) and not self._special(1, ']'):
                hi, hq = self.src[self.pos + 1]
                if not hq and (isc(hi, '\\') or (isc(hi, '[') and self._special(2, ':.='))):
                    raise Unsupported('range end in a bracket')
                self.pos += 2
                members.append(('range', c, hi))
            else:
                members.append(('c', c))

    # -- matching (expressions of symx.core)
    def _ceq(self, a, b):
        if not self.nocase:
            return char_eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b or a.lower() == b.lower()
        if isinstance(a, int) and isinstance(b, int):
            raise Unsupported('nocasematch between symbolic characters')
        if isinstance(b, int):
            a, b = b, a
        cs = ''.join(c for c in core.ALPH_CHARS if c == b or c.lower() == b.lower())
        return char_in(a, mask_of_chars(cs))

    def _node1(self, node, c):
        k = node[0]
        if k == 'c':
            return self._ceq(c, node[1])
        if k == 'any':
            return True
        if k == 'set':
            es = []
            for m in node[2]:
                if m[0] == 'c':
                    es.append(self._ceq(c, m[1]))
                elif m[0] == 'range':
                    if self.nocase:
                        raise Unsupported('nocasematch range')
                    es.append(e_and([e_not(char_lt(c, m[1])), e_not(char_lt(m[2], c))]))
                else:
                    pred = CLASSES.get(m[1])
                    if pred is None:
                        raise Unsupported('[:' + m[1] + ':]')
                    es.append(char_in(c, core.mask_of_pred(('cls', m[1]), pred), pred))
            e = e_or(es)
            return e_not(e) if node[1] else e
        raise AssertionError(k)

    def ends(self, seq, s, i, pi=0):
        '''{end position: expression} for matching seq[pi:] from s[i].'''
        cur = {i: True}
        for node in seq[pi:]:
            nxt = {}
            k = node[0]
            for p, cond in cur.items():
                if k == 'star':
                    for q in range(p, len(s) + 1):
                        nxt.setdefault(q, []).append(cond)
                elif k == 'ext':
                    for q, e in self._ext(node, s, p).items():
                        nxt.setdefault(q, []).append(e_and([cond, e]))
                elif p < len(s):
                    e = self._node1(node, s[p])
                    if e is not False:
                        nxt.setdefault(p + 1, []).append(e_and([cond, e]))
            cur = {q: e_or(es) for q, es in nxt.items()}
            cur = {q: e for q, e in cur.items() if e is not False}
            if not cur:
                break
        return cur

    def _ext(self, node, s, p):
        kind, alts = node[1], node[2]

        def once(i):
            r = {}
            for a in alts:
                for q, e in self.ends(a, s, i).items():
                    r.setdefault(q, []).append(e)
            return {q: e_or(es) for q, es in r.items()}
        if kind == '@':
            return once(p)
        if kind == '?':
            r = once(p)
            r[p] = True
            return r
        if kind == '!':
            m = once(p)
            return {q: e_not(m.get(q, False)) for q in range(p, len(s) + 1)}
        total = {p: True} if kind == '*' else {}
        first = once(p)
        reach = {q: e for q, e in first.items()}
        for q in range(p, len(s) + 1):
            if q == p:
                if q in reach and kind == '+':
                    total[q] = reach[q]
                continue
            e = reach.get(q)
            if e is None:
                continue
            total[q] = e_or([total.get(q, False), e])
            for r, e2 in once(q).items():
                if r > q:
                    reach[r] = e_or([reach.get(r, False), e_and([e, e2])])
        return total

    def match(self, s):
        return self.ends(self.seq, s, 0).get(len(s), False)


# -----------------------------------------------------------------------------
# Interpreter
# -----------------------------------------------------------------------------

class Return(BaseException):
    def __init__(self, n):
        self.n = n


class Loop(BaseException):
    def __init__(self, kind, n):
        self.kind, self.n = kind, n


class Var:
    __slots__ = ('kind', 'v', 'ref')

    def __init__(self, kind='s', v=None, ref=None):
        self.kind, self.v, self.ref = kind, v, ref

    def copy(self):
        v = self.v
        if self.kind == 'a':
            v = dict(v)
        elif self.kind == 'A':
            v = list(v)
        return Var(self.kind, v, self.ref)


class Field:
    '''A list of (item, quoted) during expansion.'''


class Bash:
    def __init__(self, builtins=None):
        self.funcs = {}
        self.frames = [{}]
        self.args = [[]]
        self.status = 0
        self.out = []
        self.stdin = None
        self.nocasematch = False
        self.completes = []
        self.compopts = []
        self.builtins = dict(builtins or {})
        self.scope_depth = 0
        self.cwd = ['/']

    # -- variables
    def find(self, name, deref=True):
        for f in reversed(self.frames):
            v = f.get(name)
            if v is not None:
                if deref and v.ref is not None:
                    if v.ref == name:
                        raise Unsupported('circular nameref')
                    return self.find(v.ref)
                return v
        return None

    def get_or_create(self, name):
        for f in reversed(self.frames):
            v = f.get(name)
            if v is not None:
                if v.ref is not None:
                    return self.get_or_create(v.ref)
                return v
        v = Var('s', None)
        self.frames[0][name] = v
        return v

    def set(self, name, value):
        v = self.get_or_create(name)
        self.assign_scalar(v, value, False)

    def assign_scalar(self, v, value, append):
        if v.kind == 's':
            v.v = cat(v.v or '', value) if append else value
        elif v.kind == 'a':
            v.v[0] = cat(v.v.get(0, ''), value) if append else value
        else:
            raise Unsupported('scalar assignment to an associative array')

    def assoc_find(self, v, key):
        for i, (k, _x) in enumerate(v.v):
            if k == key:
                return i
        return None

    def array(self, name):
        '''List of the elements of a variable (in index order).'''
        v = self.find(name)
        if v is None or v.v is None:
            return []
        if v.kind == 's':
            return [v.v]
        if v.kind == 'a':
            return [v.v[k] for k in sorted(v.v)]
        return [x for _k, x in v.v]

    def get(self, name):
        v = self.find(name)
        if v is None or v.v is None:
            return None
        if v.kind == 's':
            return v.v
        if v.kind == 'a':
            return v.v.get(0)
        raise Unsupported('scalar value of an associative array')

    def set_array(self, name, values):
        v = self.get_or_create(name)
        v.kind, v.v = 'a', dict(enumerate(values))

    def elem(self, name, sub):
        v = self.find(name)
        if name.isdigit() or name in '@*':
            raise Unsupported('subscript of a positional')
        if v is not None and v.kind == 'A':
            key = self.sub_key(sub)
            i = self.assoc_find(v, key)
            return None if i is None else v.v[i][1]
        idx = self.sub_index(sub)
        if v is None or v.v is None:
            return None
        if v.kind == 's':
            return v.v if idx in (0, -1) else None
        if idx < 0:
            if not v.v:
                raise ShellError(f'{name}: bad array subscript')
            idx += max(v.v) + 1
            if idx < 0:
                raise ShellError(f'{name}: bad array subscript')
        return v.v.get(idx)

    def sub_index(self, sub):
        return self.arith_text(sub.a)

    def sub_key(self, sub):
        p = Parser(sub.a)
        parts = []
        w = p.word('')
        parts = w
        return self.expand_str(parts)

    # -- arithmetic
    def arith_text(self, text):
        key = ('arith', text) if type(text) is str else None
        node = _CACHE.get(key) if key else None
        if node is None:
            p = Parser(text)
            node = Arith(p).expr_or_empty()
            if p.i < p.n:
                raise ShellError('arithmetic syntax error: ' + p.ctx())
            if key:
                _CACHE[key] = node
        return self.num(node)

    def num(self, n):
        if n is None:
            return 0
        k = n.k
        if k == 'num':
            return n.a
        if k == 'ref':
            return self.to_int(self.ref_get(n))
        if k == 'xnum':
            return self.to_int(self.expand_str(n.a))
        if k == 'bin':
            op = n.a
            if op == '&&':
                return int(bool(self.num(n.b)) and bool(self.num(n.c)))
            if op == '||':
                return int(bool(self.num(n.b)) or bool(self.num(n.c)))
            a, b = self.num(n.b), self.num(n.c)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op in '/%':
                if b == 0:
                    raise ShellError('division by 0')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - q * b
            return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if k == 'lnot':
            return int(not self.num(n.a))
        if k == 'neg':
            return -self.num(n.a)
        if k in ('preinc', 'postinc'):
            old = self.to_int(self.ref_get(n.a))
            self.ref_set(n.a, old + n.b)
            return old + n.b if k == 'preinc' else old
        if k == 'asg':
            v = self.num(n.c)
            if n.b != '=':
                old = self.to_int(self.ref_get(n.a))
                v = {'+=': old + v, '-=': old - v, '*=': old * v}[n.b]
            self.ref_set(n.a, v)
            return v
        if k == '?:':
            return self.num(n.b) if self.num(n.a) else self.num(n.c)
        if k == ',':
            self.num(n.a)
            return self.num(n.b)
        raise Unsupported('arithmetic ' + k)

    def ref_get(self, n):
        return self.elem(n.a, n.b) if n.b is not None else self.get(n.a)

    def ref_set(self, n, value):
        if n.b is not None:
            raise Unsupported('arithmetic assignment to an element')
        self.set(n.a, str(value))

    def to_int(self, s):
        if s is None or len(s) == 0:
            return 0
        if isinstance(s, SymStr):
            ok = all(isc(c, DIGITS) for c in s.it)
            if not ok:
                raise Unsupported('arithmetic on symbolic text')
            s = s.concretize()
        t = s.strip()
        if t == '':
            return 0
        neg = t[0] == '-'
        u = t[1:] if t[0] in '+-' else t
        if u.isdigit() and u.isascii():
            v = int(u, 8) if u[0] == '0' and len(u) > 1 else int(u)
            return -v if neg else v
        return self.arith_text(s)

    # -- expansion
    def expand_word(self, word, split=True):
        '''List of fields; a field is a list of (item, quoted).'''
        fields = [[]]
        have = [False]        # field exists even if empty (quoted part seen)

        def add(items, q):
            fields[-1].extend((c, q) for c in items)
            if q:
                have[0] = True
            elif items:
                have[0] = True

        def brk():
            if have[0] or fields[-1]:
                fields.append([])
            have[0] = False

        for p in word.a:
            if p.k == 'lit':
                add(it(p.a), p.b)
            elif p.k == 'arithx':
                add(str(self.num(p.a)), p.b)
            elif p.k == 'cmd':
                text = self.capture(p.a)
                self._add_split(text, p.b, split, add, brk)
            elif p.k == 'param':
                v = self.param(p.a, p.b, split)
                if isinstance(v, list):
                    # "$@"-like: one field per element
                    if p.b and split:
                        for j, x in enumerate(v):
                            if j:
                                have[0] = True
                                brk()
                            add(it(x), True)
                            have[0] = True
                    elif split:
                        for j, x in enumerate(v):
                            if j:
                                brk()
                            self._add_split(x, False, True, add, brk)
                    else:
                        for j, x in enumerate(v):
                            if j:
                                add(' ', p.b)
                            add(it(x), p.b)
                else:
                    self._add_split(v if v is not None else '', p.b, split, add, brk)
            else:
                raise Unsupported('word part ' + p.k)
        if not have[0] and not fields[-1]:
            fields.pop()
        return fields

    def _add_split(self, text, q, split, add, brk):
        if q or not split:
            add(it(text), q)
            if q:
                add('', True)
            return
        ifs = self.ifs()
        ws = ''.join(c for c in ifs if c in ' \t\n')
        if any(c not in ' \t\n' for c in ifs):
            raise Unsupported('unquoted expansion with non-default IFS')
        for c in it(text):
            if ws and isc(c, ws):
                brk()
            else:
                add((c,), False)

    def ifs(self):
        v = self.get('IFS')
        return ' \t\n' if v is None else native(v)

    def expand_fields(self, word):
        '''Fields as strings, quotes removed.'''
        out = []
        for f in self.expand_word(word):
            if any((not q) and (type(c) is int or c in '*?[') for c, q in f):
                # unquoted glob characters: no file matches in the empty scratch directory
                g = self.glob_field(f)
                out.append(g)
            else:
                out.append(mkstr([c for c, _q in f]))
        return out

    def glob_field(self, f):
        '''Pathname expansion without any matching file leaves the word unchanged.'''
        return mkstr([c for c, _q in f])

    def expand_str(self, word):
        fs = self.expand_word(word, split=False)
        return mkstr([c for f in fs for c, _q in f])

    def expand_pattern(self, word):
        fs = self.expand_word(word, split=False)
        return Pattern([x for f in fs for x in f], nocase=False)

    def positional(self, name):
        a = self.args[-1]
        i = int(name)
        if i == 0:
            return 'bash'
        return a[i - 1] if i <= len(a) else None

    def param(self, pe, q, split):
        name, sub, op, arg = pe.a, pe.b, pe.c, pe.d
        multi = None
        if name in ('@', '*') or sub in ('@', '*'):
            star = (name == '*') or (sub == '*')
            if name in ('@', '*'):
                vals = list(self.args[-1])
            elif op == 'keys':
                vals = self.keys(name)
                op = None
            else:
                vals = self.array(name)
            if op == 'len':
                return str(len(vals))
            if op == 'substr':
                vals = self.slice(name, vals, arg)
            elif op == 'keys':
                raise Unsupported('${!*}')
            elif op in (None,):
                pass
            elif op in ('-', ':-', '+', ':+'):
                empty = not vals or (op[0] == ':' and len(vals) == 1 and len(vals[0]) == 0)
                if op[-1] == '-':
                    if empty:
                        return self.expand_str(arg)
                elif empty:
                    return ''
                else:
                    return self.expand_str(arg)
            else:
                vals = [self.scalar_op(x, op, arg) for x in vals]
            if star and q:
                sep = self.ifs()[:1]
                out = []
                for j, x in enumerate(vals):
                    if j:
                        out.extend(sep)
                    out.extend(it(x))
                return mkstr(out)
            return vals
        if op == 'keys':
            raise Unsupported('${!name}')
        if sub is not None:
            v = self.elem(name, sub)
        elif name == '#':
            v = str(len(self.args[-1]))
        elif name == '?':
            v = str(self.status)
        elif name.isdigit():
            v = self.positional(name)
        else:
            v = self.get(name)
        if op is None:
            return v
        if op == 'len':
            return str(len(v)) if v is not None else '0'
        if op in ('-', ':-'):
            if v is None or (op == ':-' and len(v) == 0):
                return self.expand_str(arg)
            return v
        if op in ('+', ':+'):
            if v is None or (op == ':+' and len(v) == 0):
                return ''
            return self.expand_str(arg)
        return self.scalar_op(v if v is not None else '', op, arg)

    def keys(self, name):
        v = self.find(name)
        if v is None or v.v is None:
            return []
        if v.kind == 'A':
            return [k for k, _x in v.v]
        if v.kind == 's':
            return ['0']
        return [str(k) for k in sorted(v.v)]

    def slice(self, name, vals, arg):
        a, b = arg
        start = self.num(a)
        if name in ('@', '*'):
            lst = ['bash'] + vals
            if start < 0:
                start += len(lst)
                if start < 0:
                    return []
            if start == 0:
                raise Unsupported('${@:0}')
            rest = lst[start:]
        else:
            v = self.find(name)
            if v is not None and v.kind == 'A':
                raise Unsupported('slice of an associative array')
            if v is not None and v.kind == 'a':
                idx = sorted(v.v)
                if start < 0:
                    start += (idx[-1] + 1) if idx else 0
                    if start < 0:
                        return []
                rest = [v.v[k] for k in idx if k >= start]
            else:
                if start < 0:
                    start += len(vals)
                    if start < 0:
                        return []
                rest = vals[start:]
        if b is None:
            return rest
        n = self.num(b)
        if n < 0:
            raise ShellError('substring expression < 0')
        return rest[:n]

    def scalar_op(self, v, op, arg):
        s = it(v)
        n = len(s)
        if op == 'substr':
            start = self.num(arg[0])
            if start < 0:
                start += n
                if start < 0:
                    if arg[1] is not None:
                        self.num(arg[1])
                    return ''
            if start > n:
                if arg[1] is not None:
                    self.num(arg[1])
                return ''
            if arg[1] is None:
                return mkstr(s[start:])
            ln = self.num(arg[1])
            if ln < 0:
                end = n + ln
                if end < start:
                    raise ShellError('substring expression < 0')
                return mkstr(s[start:end])
            return mkstr(s[start:start + ln])
        if op in ('#', '##', '%', '%%'):
            pat = self.expand_pattern(arg)
            if op[0] == '#':
                ends = pat.ends(pat.seq, s, 0)
                order = sorted(ends) if op == '#' else sorted(ends, reverse=True)
                for k in order:
                    if mkbool(ends[k]):
                        return mkstr(s[k:])
                return v
            order = range(n, -1, -1) if op == '%' else range(0, n + 1)
            for k in order:
                if mkbool(pat.match(s[k:])):
                    return mkstr(s[:k])
            return v
        if op in (',,', '^^'):
            x = v.lower() if op == ',,' else v.upper()
            return x
        if op in ('/', '//'):
            pat = self.expand_pattern(arg[0])
            rep = it(self.expand_str(arg[1]))
            out = []
            i = 0
            done = False
            while i <= n:
                if not done:
                    ends = pat.ends(pat.seq, s, i)
                    hit = None
                    for k in sorted(ends, reverse=True):
                        if k > i and mkbool(ends[k]):
                            hit = k
                            break
                    if hit is not None:
                        out.extend(rep)
                        i = hit
                        done = op == '/'
                        continue
                if i < n:
                    out.append(s[i])
                i += 1
            return mkstr(out)
        raise Unsupported('expansion operator ' + op)

    # -- execution
    def snapshot(self):
        # nested frames share nothing with the copy
        return [{k: v.copy() for k, v in f.items()} for f in self.frames]

    def subshell(self, body):
        save, args = self.frames, self.args
        self.frames = self.snapshot()
        self.args = [list(a) for a in self.args]
        ncm, cop = self.nocasematch, list(self.compopts)
        funcs = dict(self.funcs)
        try:
            self.run(body)
        except Return as r:
            self.status = r.n
        finally:
            self.frames = save
            self.args = args
            self.nocasematch, self.funcs = ncm, funcs
            self.compopts = cop
        return self.status

    def capture(self, body):
        old = self.out
        self.out = []
        try:
            self.subshell(body)
            text = list(it(cat(*self.out))) if self.out else []
        finally:
            self.out = old
        while text and isc(text[-1], '\n'):
            text.pop()
        return mkstr(text)

    def run_text(self, text):
        self.run(parse(text))
        return self.status

    def run(self, node):
        k = node.k
        eng = core.ENGINE
        if eng is not None:
            eng.tick()
        if k == 'list':
            for x in node.a:
                self.run(x)
            if not node.a:
                self.status = 0
        elif k == 'and':
            self.run(node.a)
            if self.status == 0:
                self.run(node.b)
        elif k == 'or':
            self.run(node.a)
            if self.status != 0:
                self.run(node.b)
        elif k == 'not':
            self.run(node.a)
            self.status = int(not self.status)
        elif k == 'simple':
            self.simple(node)
        elif k == 'arith':
            self.status = int(not self.num(node.a))
        elif k == 'cond':
            self.status = int(not self.cond(node.a))
        elif k == 'group':
            self.run(node.a)
        elif k == 'if':
            for cond, body in node.a:
                self.run(cond)
                if self.status == 0:
                    self.run(body)
                    return
            self.status = 0
            if node.b is not None:
                self.run(node.b)
        elif k == 'while':
            self.loop_while(node)
        elif k == 'cfor':
            a, b, c = node.a
            self.num(a)
            st = 0
            while b is None or self.num(b):
                if eng is not None:
                    eng.tick(20)
                if not self.body(node.b):
                    break
                self.num(c)
            self.status = 0
        elif k == 'for':
            if node.b is None:
                vals = list(self.args[-1])
            else:
                vals = [x for w in node.b for x in self.expand_fields(w)]
            self.status = 0
            for x in vals:
                self.set(node.a, x)
                if not self.body(node.c):
                    break
        elif k == 'case':
            self.case(node)
        elif k == 'func':
            self.funcs[node.a] = node.b
            self.status = 0
        elif k == 'subshell':
            self.subshell(node.a)
        elif k == 'redir':
            self.with_redirs(node.b, lambda: self.run(node.a))
        elif k == 'pipe':
            raise Unsupported('pipeline')
        else:
            raise Unsupported('command ' + k)

    def body(self, body):
        '''Run a loop body; False = leave the loop.'''
        try:
            self.run(body)
        except Loop as e:
            if e.n > 1:
                raise Loop(e.kind, e.n - 1)
            return e.kind == 'continue'
        return True

    def loop_while(self, node):
        st = 0
        while True:
            if core.ENGINE is not None:
                core.ENGINE.tick(20)
            self.run(node.a)
            if (self.status == 0) == bool(node.c):
                break
            if not self.body(node.b):
                break
            st = self.status
        self.status = st

    def case(self, node):
        subject = it(self.expand_str(node.a))
        fall = False
        self.status = 0
        for pats, body, term in node.b:
            hit = fall
            fall = False
            if not hit:
                for p in pats:
                    if mkbool(self.pattern(p).match(subject)):
                        hit = True
                        break
            if not hit:
                continue
            self.run(body)
            if term == ';;':
                return
            if term == ';&':
                fall = True

    def pattern(self, word):
        key = None
        if len(word.a) == 1 and word.a[0].k == 'lit' and not self.nocasematch:
            key = id(word)
            p = _PATS.get(key)
            if p is not None and p[0] is word:
                return p[1]
        fs = self.expand_word(word, split=False)
        p = Pattern([x for f in fs for x in f], nocase=self.nocasematch)
        if key is not None and isinstance(word.a[0].a, str):
            _PATS[key] = (word, p)
        return p

    def cond(self, n):
        k = n.k
        if k == 'and':
            return self.cond(n.a) and self.cond(n.b)
        if k == 'or':
            return self.cond(n.a) or self.cond(n.b)
        if k == 'not':
            return not self.cond(n.a)
        if k == 'unary':
            s = self.expand_str(n.b)
            if n.a == 'n':
                return len(s) > 0
            if n.a == 'z':
                return len(s) == 0
            return bool(self.file_test(n.a, s))
        if k == 'match':
            s = it(self.expand_str(n.a))
            r = bool(mkbool(self.pattern(n.b).match(s)))
            return r != n.c
        if k == 'regex':
            return bool(self.regex(self.expand_str(n.a), n.b))
        raise Unsupported('[[ ' + k)

    def file_test(self, op, s):
        raise Unsupported('[[ -' + op)

    def regex(self, s, word):
        fs = self.expand_word(word, split=False)
        if any(q for f in fs for _c, q in f):
            raise Unsupported('quoted text in =~')
        from . import ere
        pat = mkstr([c for f in fs for c, _q in f])
        r = ere.search(pat, it(s), self.nocasematch)
        if r is None:
            raise ShellError('=~ invalid regex')
        return mkbool(r)

    # -- redirections
    def with_redirs(self, redirs, fn):
        old_in, old_out = self.stdin, self.out
        try:
            for op, arg in redirs:
                if op == '<<<':
                    self.stdin = list(it(self.expand_str(arg))) + ['\n']
                elif op == '<()':
                    o = self.out
                    self.out = []
                    self.subshell(arg)
                    text = list(it(cat(*self.out))) if self.out else []
                    self.out = o
                    self.stdin = text
                elif op in ('2>&1', '>&2', '2>', '2>>'):
                    pass
                elif op in ('&>', '>', '1>'):
                    if self.expand_str(arg) != '/dev/null':
                        raise Unsupported('output redirection')
                    self.out = []
                else:
                    raise Unsupported('redirection ' + op)
            fn()
        finally:
            self.stdin, self.out = old_in, old_out

    # -- simple commands
    def assign_node(self, a, target=None, local=False):
        name = a.a
        v = target if target is not None else None
        kind, val = a.b
        if kind == 'array':
            vals = None
            if v is None:
                v = self.get_or_create(name)
            vals = [x for w in val for x in self.expand_fields(w)]
            if v.kind == 'A':
                if vals or (not a.c and False):
                    raise Unsupported('associative array literal')
                if not a.c:
                    v.v = []
                return
            if not a.c or v.v is None:
                v.kind, v.v = 'a', dict(enumerate(vals))
            else:
                if v.kind == 's':
                    v.kind, v.v = 'a', {0: v.v}
                n = max(v.v) + 1 if v.v else 0
                for j, x in enumerate(vals):
                    v.v[n + j] = x
            return
        value = self.expand_str(val)
        if a.d is not None:
            if v is None:
                v = self.get_or_create(name)
            if v.kind == 'A':
                key = self.sub_key(a.d)
                if len(key) == 0:
                    raise ShellError('bad array subscript')
                i = self.assoc_find(v, key)
                if i is None:
                    v.v.append((key, value))
                else:
                    v.v[i] = (v.v[i][0], cat(v.v[i][1], value) if a.c else value)
                return
            idx = self.sub_index(a.d)
            if v.kind == 's':
                v.kind, v.v = 'a', ({} if v.v is None else {0: v.v})
            if idx < 0:
                idx += max(v.v) + 1 if v.v else 0
                if idx < 0:
                    raise ShellError('bad array subscript')
            v.v[idx] = cat(v.v.get(idx, ''), value) if a.c else value
            return
        if v is None:
            v = self.get_or_create(name)
        self.assign_scalar(v, value, a.c)

    def simple(self, node):
        assigns, words, redirs = node.a, node.b, node.c
        if not words:
            self.status = 0
            for a in assigns:
                self.assign_node(a)
            if redirs:
                raise Unsupported('redirection without a command')
            return
        name = lit(words[0]) if words[0].k == 'word' else None
        if name in Parser.DECL:
            self.decl(name, words[1:])
            return
        argv = []
        for w in words:
            if w.k == 'assign':
                raise Unsupported('assignment argument')
            argv.extend(self.expand_fields(w))
        if not argv:
            self.status = 0
            return
        temp = {}
        for a in assigns:
            if a.b[0] != 'word' or a.d is not None:
                raise Unsupported('array assignment prefix')
            temp[a.a] = Var('s', self.expand_str(a.b[1]))

        def go():
            if temp:
                self.frames.append(temp)
            try:
                self.call(argv)
            finally:
                if temp:
                    self.frames.remove(temp)
        if redirs:
            self.with_redirs(redirs, go)
        else:
            go()

    def decl(self, cmd, words):
        if cmd != 'local':
            raise Unsupported(cmd)
        flags = ''
        self.status = 0
        frame = self.frames[-1]
        for w in words:
            if w.k != 'assign':
                for s in self.expand_fields(w):
                    s = native(s)
                    if s.startswith('-') and len(s) > 1:
                        flags += s[1:]
                        continue
                    if '=' in s or not s or s[0] not in NAME0 or any(c not in NAMEC for c in s):
                        raise ShellError(f'local: {s!r}: not a valid identifier')
                    self._declare(frame, s, flags)
                continue
            if 'n' in flags:
                val = native(self.expand_str(w.b[1]))
                if not val or val[0] not in NAME0 or any(c not in NAMEC for c in val):
                    raise ShellError(f'local: {val!r}: invalid variable name for name reference')
                frame[w.a] = Var('s', None, val)
                continue
            # the value is expanded before the new variable becomes visible
            kind, val = w.b
            if kind == 'array':
                tmp = Var('A', []) if 'A' in flags else Var('a', {})
                self.assign_node(Node('assign', w.a, w.b, False), tmp)
                frame[w.a] = tmp
            else:
                x = self.expand_str(val)
                if w.c:
                    raise Unsupported('local +=')
                if 'i' in flags:
                    raise Unsupported('local -i')
                frame[w.a] = Var('s', x)

    def _declare(self, frame, name, flags):
        if 'A' in flags:
            frame[name] = Var('A', [])
        elif 'a' in flags:
            frame[name] = Var('a', {})
        elif 'n' in flags:
            raise Unsupported('local -n without a target')
        elif name not in frame:
            frame[name] = Var('s', None)

    def call(self, argv, functions=True):
        name = argv[0]
        if isinstance(name, SymStr):
            # a function whose name equals the symbolic word?
            for f in list(self.funcs) + sorted(self.builtins):
                if len(f) == len(name) and name == f:
                    name = f
                    break
            else:
                self.status = 127
                return
        f = self.funcs.get(name) if functions else None
        if f is not None:
            if len(self.frames) > 200:
                raise ShellError('function recursion')
            self.frames.append({})
            self.args.append(list(argv[1:]))
            depth = len(self.frames)
            try:
                self.run(f)
            except Return as r:
                self.status = r.n
            finally:
                del self.frames[depth - 1:]
                self.args.pop()
            return
        b = self.builtins.get(name)
        if b is not None:
            r = b(self, argv[1:])
            self.status = 0 if r is None else r
            return
        m = getattr(self, 'bi_' + name, None) if isinstance(name, str) and name.isidentifier() else None
        if name == ':':
            self.status = 0
            return
        if m is None:
            r = self.unknown_command(argv)
            self.status = r
            return
        r = m(argv[1:])
        self.status = 0 if r is None else r

    def unknown_command(self, argv):
        raise Unsupported('command ' + repr(argv[0]))

    # -- builtins
    def bi_true(self, a):
        return 0

    def bi_false(self, a):
        return 1

    def bi_return(self, a):
        raise Return(self.to_int(a[0]) & 255 if a else self.status)

    def bi_break(self, a):
        raise Loop('break', self.to_int(a[0]) if a else 1)

    def bi_continue(self, a):
        raise Loop('continue', self.to_int(a[0]) if a else 1)

    def bi_shift(self, a):
        n = self.to_int(a[0]) if a else 1
        p = self.args[-1]
        if n > len(p):
            return 1
        del p[:n]
        return 0

    def bi_compopt(self, a):
        self.compopts.append([native(x) for x in a])
        return 0

    def bi_complete(self, a):
        self.completes.append([native(x) for x in a])
        return 0

    def bi_shopt(self, a):
        a = [native(x) for x in a]
        if len(a) == 2 and a[1] == 'nocasematch' and a[0] in ('-s', '-u'):
            self.nocasematch = a[0] == '-s'
            return 0
        raise Unsupported('shopt')

    def bi_echo(self, a):
        for x in a[:1]:
            if len(x) > 1 and isc(it(x)[0], '-') and all(isc(c, 'neE') for c in it(x)[1:]):
                raise Unsupported('echo with options')
        out = []
        for j, x in enumerate(a):
            if j:
                out.append(' ')
            out.extend(it(x))
        self.out.append(mkstr(out + ['\n']))

    def bi_eval(self, a):
        text = mkstr([c for j, x in enumerate(a) for c in ((' ',) if j else ()) + tuple(it(x))])
        self.run(Parser(text).parse() if isinstance(text, SymStr) else parse(text))
        return self.status

    def bi_printf(self, a):
        fmt = native(a[0])
        args = list(a[1:])
        if fmt == '%q' and len(args) == 1:
            self.out.append(quote_q(args[0]))
        elif fmt in ('%s\\n', '%s', '%s\\t', '%s\\0') and args:
            end = {'%s\\n': '\n', '%s': '', '%s\\t': '\t', '%s\\0': '\0'}[fmt]
            for x in args:
                self.out.append(cat(x, end))
        else:
            raise Unsupported('printf ' + fmt)

    def bi_read(self, a):
        a = [native(x) for x in a]
        raw = False
        arr = None
        names = []
        j = 0
        while j < len(a):
            if a[j] == '-r':
                raw = True
            elif a[j] == '-a':
                j += 1
                arr = a[j]
            elif a[j].startswith('-'):
                raise Unsupported('read ' + a[j])
            else:
                names.append(a[j])
            j += 1
        if not raw:
            raise Unsupported('read without -r')
        if self.stdin is None:
            raise Unsupported('read from the terminal')
        line = []
        eof = True
        while self.stdin:
            c = self.stdin.pop(0)
            if isc(c, '\n'):
                eof = False
                break
            line.append(c)
        ifs = self.ifs()
        if arr is not None:
            self.set_array(arr, split_read(line, ifs, None))
        elif not names:
            self.set('REPLY', mkstr(line))
        else:
            parts = split_read(line, ifs, len(names))
            for k, n in enumerate(names):
                self.set(n, parts[k] if k < len(parts) else '')
        return 1 if eof else 0

    def bi_seq(self, a):
        a = [int(native(x)) for x in a]
        lo, step, hi = (a[0], 1, a[1]) if len(a) == 2 else a if len(a) == 3 else (1, 1, a[0])
        for n in range(lo, hi + (1 if step > 0 else -1), step):
            self.out.append('%d\n' % n)
        return 0

    def bi_pushd(self, a):
        if not os.path.isdir(native(a[0])):
            return 1
        self.cwd.append(a[0])
        self.set('PWD', a[0])
        return 0

    def bi_popd(self, a):
        self.cwd.pop()
        self.set('PWD', self.cwd[-1])
        return 0

    def bi_builtin(self, a):
        self.call(a, False)
        return self.status

    bi_command = bi_builtin

    def bi_compgen(self, a):
        opts = []
        j = 0
        wl = None
        while j < len(a):
            x = a[j]
            if isinstance(x, SymStr):
                break
            if x == '-W':
                wl = a[j + 1]
                j += 2
            elif x == '--':
                j += 1
                break
            elif x.startswith('-'):
                return self.compgen_other(a)
            else:
                break
        if wl is None:
            return self.compgen_other(a)
        cur = a[j] if j < len(a) else ''
        words = self.wordlist(wl)
        pre = it(dequote_text(cur))
        n = 0
        for w in words:
            wi = it(w)
            if len(wi) >= len(pre) and mkbool(eq_expr(wi[:len(pre)], pre)):
                self.out.append(cat(w, '\n'))
                n += 1
        return 0 if n else 1

    def compgen_other(self, a):
        raise Unsupported('compgen ' + ' '.join(native(x) for x in a))

    def wordlist(self, text):
        '''The words of compgen -W: shell words of `text`, expanded.'''
        p = Parser(text)
        out = []
        while True:
            while p.at(' \t\n'):
                p.i += 1
            if p.i >= p.n:
                return out
            if p.at('<>&|;()'):
                raise Unsupported('metacharacter in a compgen word list')
            w = p.word(' \t\n')
            for v in braces(w):
                for s in self.expand_word(v):
                    out.append(mkstr([c for c, _q in s]))


_PATS = {}


def braces(word):
    '''Brace expansion of a word: numeric ranges and comma lists in unquoted text.'''
    if not any(p.k == 'lit' and not p.b and any(isc(c, '{') for c in it(p.a)) for p in word.a):
        return [word]
    if len(word.a) != 1:
        if any(p.k == 'lit' and not p.b and any(isc(c, ',.') for c in it(p.a)) for p in word.a):
            raise Unsupported('brace expansion')
        return [word]
    text = native(word.a[0].a)
    i = text.index('{')
    j = text.find('}', i)
    if j < 0:
        return [word]
    body = text[i + 1:j]
    m = re.fullmatch(r'([+-]?[0-9]+)\.\.([+-]?[0-9]+)(?:\.\.([+-]?[0-9]+))?', body)
    if m:
        a, b, st = int(m.group(1)), int(m.group(2)), abs(int(m.group(3) or 1)) or 1
        if any(re.match('[+-]?0[0-9]', x) for x in m.groups()[:2]):
            raise Unsupported('padded range')
        alts = [str(x) for x in (range(a, b + 1, st) if a <= b else range(a, b - 1, -st))]
    elif ',' in body and '{' not in body:
        alts = body.split(',')
    elif ',' in text or '..' in text:
        raise Unsupported('brace expansion')
    else:
        return [word]
    out = []
    for x in alts:
        out.extend(braces(Node('word', [Node('lit', text[:i] + x + text[j + 1:], False)])))
    return out


def split_read(line, ifs, nfields):
    '''Field splitting of `read`.'''
    ws = ''.join(c for c in ifs if c in ' \t\n')
    other = ''.join(c for c in ifs if c not in ' \t\n')
    s = list(line)
    if ws:
        while s and isc(s[0], ws):
            s.pop(0)
        while s and isc(s[-1], ws):
            s.pop()
    out = []
    i = 0
    n = len(s)
    if n == 0:
        return []
    if not ifs:
        return [mkstr(s)]
    while i < n:
        if nfields is not None and len(out) == nfields - 1:
            rest = s[i:]
            # a single trailing non-whitespace delimiter is dropped when it ends the last field
            if other and rest and isc(rest[-1], other):
                inner = rest[:-1]
                if not any(isc(c, ifs) for c in inner):
                    rest = inner
                    if ws:
                        while rest and isc(rest[-1], ws):
                            rest.pop()
            out.append(mkstr(rest))
            return out
        j = i
        while j < n and not isc(s[j], ifs):
            j += 1
        out.append(mkstr(s[i:j]))
        if j >= n:
            break
        # skip ws* (other)? ws*
        while j < n and ws and isc(s[j], ws):
            j += 1
        if j < n and other and isc(s[j], other):
            j += 1
            while j < n and ws and isc(s[j], ws):
                j += 1
        i = j
    return out


def dequote_text(text):
    '''bash_dequote_text(): what compgen does to the word it matches against.'''
    s = it(text)
    out = []
    i = 0
    n = len(s)
    if not n:
        return ''
    quoted = None
    if isc(s[0], '"'):
        quoted = '"'
    elif isc(s[0], "'"):
        quoted = "'"
    # quote state of bash_dequote_filename starts with the opening quote itself
    q = quoted
    first = quoted is not None
    while i < n:
        c = s[i]
        if isc(c, '\\'):
            if q == "'":
                out.append(c)
                i += 1
                continue
            if q == '"' and i + 1 < n and not isc(s[i + 1], '$`"\\\n'):
                out.append(c)
            if i + 1 >= n:
                # the terminating NUL is copied: end of text
                break
            out.append(s[i + 1])
            i += 2
            continue
        if q is not None and isc(c, q):
            # closes the quote (or is the opening one)
            q = None
            i += 1
            if first:
                first = False
                # the opening quote toggles off first, as in bash
            continue
        if q is None and isc(c, '\'"'):
            q = fork_char(c)
            i += 1
            continue
        out.append(c)
        i += 1
    return mkstr(out)


_BSQ = ' \t\n\'"\\|&;()<>!{}*[]?^$`,'


def quote_q(x):
    '''printf %q'''
    s = it(x)
    if not s:
        return "''"
    ctrl = core.mask_of_pred('q-ctrl', lambda c: not (c.isprintable() or c == '\u00ad') and c not in '\t' or c in '\n\t')
    if any(mkbool(char_in(c, ctrl, lambda d: not d.isprintable() or d in '\n\t')) for c in s):
        raise Unsupported('printf %q of a control character')
    out = []
    for i, c in enumerate(s):
        if isc(c, _BSQ) or (i == 0 and isc(c, '#~')) or (i > 0 and isc(c, '~') and isc(s[i - 1], ':=')):
            out.append('\\')
        out.append(c)
    return mkstr(out)
