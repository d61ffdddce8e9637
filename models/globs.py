'''File-name patterns: parsing of Bash, Zsh and PCRE patterns and matching.

A pattern is a list of items:
    ('c', ch)                one literal character
    ('any',)                 one arbitrary character
    ('set', [(lo, hi)], neg) one character of (or outside) a set
    ('rep', [alternatives], lo, hi)  lo..hi repetitions (hi None: unbounded)
matches() builds one formula over the characters of the text and never forks.
'''

from symx.values import is_sym, sand, sor, snot


class BadPattern(Exception):
    pass


def _class(p, i, quotes, negs):
    '''Parse the inside of a bracket expression; i is behind the '['.'''
    n = len(p)
    neg = False
    if i < n and p[i] in negs:
        neg = True
        i += 1
    items = []          # (char, literal)
    first = True
    while True:
        if i >= n:
            raise BadPattern('unterminated class')
        c = p[i]
        if c == ']' and not first:
            i += 1
            break
        first = False
        if c == '\\':
            if i + 1 >= n:
                raise BadPattern('dangling backslash')
            items.append((p[i + 1], True))
            i += 2
        elif c == '[' and i + 1 < n and p[i + 1] in ':.=':
            raise BadPattern('named class')
        elif c in quotes:
            raise BadPattern('quote in class')
        else:
            items.append((c, False))
            i += 1
    ranges = []
    k = 0
    while k < len(items):
        if k + 2 < len(items) and items[k + 1][1] is False and items[k + 1][0] == '-':
            lo, hi = items[k][0], items[k + 2][0]
            if hi < lo:
                raise BadPattern('empty range')
            ranges.append((lo, hi))
            k += 3
        else:
            ranges.append((items[k][0], items[k][0]))
            k += 1
    return ('set', ranges, neg), i


def parse_bash(p):
    '''Bash pattern (extglob on) as the value of an unquoted variable.'''
    pat, i = _bash_seq(p, 0, False)
    return pat


def _bash_seq(p, i, inner):
    out = []
    n = len(p)
    while i < n:
        c = p[i]
        if inner and c in '|)':
            break
        if c in '?*+@!' and i + 1 < n and p[i + 1] == '(':
            alts = []
            j = i + 2
            while True:
                alt, j = _bash_seq(p, j, True)
                alts.append(alt)
                if j >= n:
                    raise BadPattern('unterminated group')
                j += 1
                if p[j - 1] == ')':
                    break
            if c == '!':
                raise BadPattern('negated group')
            lo, hi = {'@': (1, 1), '?': (0, 1), '*': (0, None), '+': (1, None)}[str(c)]
            out.append(('rep', alts, lo, hi))
            i = j
        elif c == '*':
            out.append(('rep', [[('any',)]], 0, None))
            i += 1
        elif c == '?':
            out.append(('any',))
            i += 1
        elif c == '[':
            item, i = _class(p, i + 1, '', '!^')
            out.append(item)
        elif c == '\\':
            if i + 1 >= n:
                raise BadPattern('dangling backslash')
            out.append(('c', p[i + 1]))
            i += 2
        else:
            out.append(('c', c))
            i += 1
    return out, i


def parse_zsh(p):
    '''Zsh pattern (extendedglob) as the value of ${~p}: (a|b) groups, (#i) flags.'''
    pat, i = _zsh_seq(p, 0, 0)
    return pat


def _zsh_seq(p, i, depth):
    out = []
    n = len(p)
    nocase = False
    while i < n:
        c = p[i]
        if depth and c in '|)':
            break
        if c == '(' and p[i:i + 4] == '(#i)':
            nocase = True
            i += 4
        elif c == '(':
            alts = []
            j = i + 1
            while True:
                alt, j = _zsh_seq(p, j, depth + 1)
                alts.append(alt)
                if j >= n:
                    raise BadPattern('unterminated group')
                j += 1
                if p[j - 1] == ')':
                    break
            out.append(('nc' if nocase else 'rep', alts, 1, 1))
            i = j
        elif c == '*':
            out.append(('rep', [[('any',)]], 0, None))
            i += 1
        elif c == '?':
            out.append(('any',))
            i += 1
        elif c == '[':
            item, i = _class(p, i + 1, '', '!^')
            out.append(item)
        elif c == '\\':
            if i + 1 >= n:
                raise BadPattern('dangling backslash')
            out.append(('c', p[i + 1]))
            i += 2
        elif c in '|)<>#^~':
            raise BadPattern('operator')
        else:
            out.append(('nc', [[('c', c)]], 1, 1) if nocase else ('c', c))
            i += 1
    return out, i


def parse_regex(p):
    '''PCRE / ERE subset: literals, escapes, ., [..], (..|..), * + ?.'''
    alts, i = _re_alts(p, 0)
    if i < len(p):
        raise BadPattern('unbalanced )')
    return [('rep', alts, 1, 1)]


def _re_alts(p, i):
    alts = [[]]
    n = len(p)
    while i < n:
        c = p[i]
        if c == ')':
            break
        if c == '|':
            alts.append([])
            i += 1
            continue
        if c == '(':
            if i + 1 < n and p[i + 1] in '?*':
                raise BadPattern('special group')
            sub, i = _re_alts(p, i + 1)
            if i >= n:
                raise BadPattern('unterminated group')
            i += 1
            item = ('rep', sub, 1, 1)
        elif c == '[':
            item, i = _class(p, i + 1, '', '^')
        elif c == '.':
            item = ('any',)
            i += 1
        elif c == '\\':
            if i + 1 >= n:
                raise BadPattern('dangling backslash')
            if p[i + 1].isalnum() or not p[i + 1].isascii():
                raise BadPattern('escape of a letter')
            item = ('c', p[i + 1])
            i += 2
        elif c in '^$*+?{}':
            raise BadPattern('operator in the wrong place')
        else:
            item = ('c', c)
            i += 1
        if i < n and p[i] in '*+?':
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[str(p[i])]
            item = ('rep', [[item]], lo, hi)
            i += 1
            if i < n and p[i] in '*+?':
                raise BadPattern('double quantifier')
        alts[-1].append(item)
    return alts, i


def _same_nocase(a, b):
    if not is_sym(a) and not is_sym(b):
        return a.lower() == b.lower()
    parts = [a == b]
    for lo in 'abcdefghijklmnopqrstuvwxyz':
        up = lo.upper()
        parts.append(sand(sor(a == lo, a == up), sor(b == lo, b == up)))
    return sor(*parts)


def _char(item, ch, nocase):
    kind = item[0]
    if kind == 'any':
        return True
    if kind == 'c':
        if nocase:
            return _same_nocase(ch, item[1])
        return ch == item[1]
    parts = []
    for lo, hi in item[1]:
        if nocase:
            raise BadPattern('class without case')
        parts.append(sand(lo <= ch, ch <= hi))
    r = sor(*parts)
    return snot(r) if item[2] else r


def _step(item, text, cur, nocase):
    '''Positions (with conditions) after the item, given those before it.'''
    n = len(text)
    out = [False] * (n + 1)
    if item[0] in ('any', 'c', 'set'):
        for i in range(n):
            if cur[i] is not False:
                out[i + 1] = sand(cur[i], _char(item, text[i], nocase))
        return out
    alts, lo, hi = item[1], item[2], item[3]
    nc = nocase or item[0] == 'nc'
    count = 0
    state = cur
    if lo == 0:
        out = list(cur)
    while hi is None or count < hi:
        nxt = [False] * (n + 1)
        for alt in alts:
            st = state
            for it in alt:
                st = _step(it, text, st, nc)
            nxt = [sor(a, b) for a, b in zip(nxt, st)]
        count += 1
        state = nxt
        if count >= lo:
            out = [sor(a, b) for a, b in zip(out, state)]
        if count > n + 1:
            break
    return out


def matches(pat, text, nocase=False):
    '''The pattern matches the whole text.'''
    cur = [True] + [False] * len(text)
    for item in pat:
        cur = _step(item, text, cur, nocase)
    return cur[len(text)]
