'''The `when` condition language.'''

from crazy_complete import shell_parser
from symx.ctx import Alphabet


class Bad(Exception):
    pass


OPS = ('!', '(', ')')


def tokenize(s):
    '''Reference lexer: operators and words; a word is ('w', text).'''
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c in '!()' and not (c == '!' and s[i + 1:i + 2] == '='):
            out.append(str(c))
            i += 1
        elif c in '&|':
            if i + 1 >= n or s[i + 1] != c:
                raise Bad('single operator')
            out.append('&&' if c == '&' else '||')
            i += 2
        else:
            w = ''
            if c == '!':
                # the operator of positional_count
                w = '!='
                i += 2
            while i < n:
                c = s[i]
                if c.isspace() or c in '&|!()':
                    break
                if c == "'":
                    i += 1
                    while True:
                        if i >= n:
                            raise Bad('unclosed quote')
                        if s[i] == "'":
                            break
                        w = w + s[i]
                        i += 1
                    i += 1
                elif c == '"':
                    i += 1
                    while True:
                        if i >= n:
                            raise Bad('unclosed quote')
                        if s[i] == '"':
                            break
                        if s[i] == '\\':
                            i += 1
                            if i >= n:
                                raise Bad('unclosed quote')
                        w = w + s[i]
                        i += 1
                    i += 1
                else:
                    w = w + c
                    i += 1
            out.append(('w', w))
    return out


def check_grammar(toks):
    '''expr: term (('&&'|'||') term)*;  term: '!'* (command | '(' expr ')').'''
    pos = expr(toks, 0)
    if pos != len(toks):
        raise Bad('trailing tokens')


def expr(toks, i):
    i = term(toks, i)
    while i < len(toks) and toks[i] in ('&&', '||'):
        i = term(toks, i + 1)
    return i


def term(toks, i):
    while i < len(toks) and toks[i] == '!':
        i += 1
    if i >= len(toks):
        raise Bad('missing command')
    if toks[i] == '(':
        i = expr(toks, i + 1)
        if i >= len(toks) or toks[i] != ')':
            raise Bad('missing )')
        return i + 1
    if not isinstance(toks[i], tuple):
        raise Bad('missing command')
    while i < len(toks) and isinstance(toks[i], tuple):
        i += 1
    return i


def compare(sx, s):
    try:
        want = tokenize(s)
        check_grammar(want)
    except Bad:
        want = None
    try:
        got = shell_parser.parse(s)
    except ValueError:
        got = None
    if want is None:
        sx.check(got is None, 'a malformed condition is accepted')
        sx.cover('rejected')
        return
    sx.check(got is not None, 'a well-formed condition is rejected')
    flat = []
    for t in got:
        if isinstance(t, shell_parser.Command):
            for a in t.args:
                flat.append(('w', a))
        else:
            flat.append(t)
    sx.observe([x if isinstance(x, str) else x[1] for x in flat])
    sx.check(len(flat) == len(want), 'wrong number of tokens')
    for a, b in zip(flat, want):
        if isinstance(b, tuple):
            sx.check(isinstance(a, tuple), 'a word is read as an operator')
            sx.check(a[1] == b[1], 'a word is read differently')
        else:
            sx.check(not isinstance(a, tuple) and a == b, 'an operator is read differently')
    sx.cover('accepted')


def text(sx):
    '''Arbitrary text.'''
    compare(sx, sx.str('s', sx.params['n'], 0, Alphabet.NO_NUL))


def operators(sx):
    '''Longer texts over words and operators.'''
    parts = []
    for i in range(sx.params['k']):
        parts.append(sx.choice('t%d' % i, ['a', '!', '(', ')', '&&', '||', '']))
    compare(sx, ' '.join(parts))
