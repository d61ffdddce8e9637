'''What _arguments reads in a specification (written from the zsh manual and parse_cadef in computil.c).

Works on symbolic text; a malformed specification raises Malformed.
'''

from models import shwords


class Malformed(Exception):
    pass


class Spec:
    kind = ''          # 'opt' or 'arg'
    hidden = False
    excl = ()
    multi = False
    name = None
    form = ''          # '', '-', '+', '=', '=-'
    desc = None
    args = ()          # [(optional, message, action)]
    num = None         # number or '*'


def colon(s):
    r"""Remove the backslash of every '\:'."""
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] == ':':
            i += 1
        out = out + s[i]
        i += 1
    return out


def unescape(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            i += 1
        out = out + s[i]
        i += 1
    return out


def until(s, i, stops):
    while i < len(s) and s[i] not in stops:
        if s[i] == '\\' and i + 1 < len(s):
            i += 1
        i += 1
    return i


def decode(s):
    r = Spec()
    i = 0
    n = len(s)
    if n and s[0] == '!':
        r.hidden = True
        i = 1
    if i < n and s[i] == '(':
        j = i + 1
        while j < n and s[j] != ')':
            j += 1
        if j >= n:
            raise Malformed('exclusion list')
        r.excl = s[i + 1:j].split(' ') if j > i + 1 else []
        i = j + 1
    if i < n and (s[i] in '-+' or s[i] == '*' and i + 1 < n and s[i + 1] in '-+'):
        r.kind = 'opt'
        if s[i] == '*':
            r.multi = True
            i += 1
        return option(r, s, i)
    r.kind = 'arg'
    if i < n and s[i] == '*':
        r.num = '*'
        i += 1
    else:
        j = i
        while j < n and s[j] in '0123456789':
            j += 1
        if j == i:
            raise Malformed('argument without a number')
        r.num = int(s[i:j])
        i = j
    if i >= n or s[i] != ':':
        raise Malformed('argument')
    optional = i + 1 < n and s[i + 1] == ':'
    if optional:
        i += 1
    if r.num == '*' and i + 1 < n and s[i + 1] == ':':
        i += 1
    j = until(s, i + 1, ':')
    # the action of an argument is the rest of the text
    r.args = [(optional, colon(s[i + 1:j]), colon(s[j + 1:]) if j < n else '')]
    return r


def option(r, s, i):
    n = len(s)
    j = i + 1
    while j < n:
        c = s[j]
        if c == ':' or c == '[':
            break
        last = j + 1 >= n or s[j + 1] == ':' or s[j + 1] == '['
        if (c == '-' or c == '+') and last:
            break
        if c == '=' and (last or s[j + 1] == '-'):
            break
        if c == '\\' and j + 1 < n:
            j += 1
        j += 1
    r.name = colon(s[i:j])
    form = ''
    if j < n and s[j] in '-+':
        form = '-' if s[j] == '-' else '+'
        j += 1
    elif j < n and s[j] == '=':
        form = '='
        j += 1
        if j < n and s[j] == '-':
            form = '=-'
            j += 1
    r.form = form
    if j < n and s[j] == '[':
        k = until(s, j + 1, ']')
        if k >= n:
            raise Malformed('description')
        r.desc = unescape(s[j + 1:k])
        j = k + 1
    if j < n and s[j] != ':':
        raise Malformed('option')
    args = []
    while j < n:
        j += 1
        optional = j < n and s[j] == ':'
        if optional:
            j += 1
        if j < n and s[j] == '*':
            raise Malformed('rest of the arguments')
        k = until(s, j, ':')
        msg = colon(s[j:k])
        act = ''
        if k < n:
            m = until(s, k + 1, ':')
            act = colon(s[k + 1:m])
            k = m
        args.append((optional, msg, act))
        j = k
    r.args = args
    return r


def values(action, words, describe):
    '''Values of an action: '(a b)', '((a:x b:y))' or a function that calls _describe.'''
    if len(action) > 3 and action[:2] == '((' and action[-2:] == '))':
        return [item(w) for w in words(action[2:-2])]
    if len(action) > 1 and action[0] == '(' and action[-1] == ')':
        return [(w, None) for w in words(action[1:-1])]
    return [item(w) for w in describe(action)]


def item(w):
    '''name:description of _describe.'''
    j = until(w, 0, ':')
    return unescape(w[:j]), (unescape(w[j + 1:]) if j < len(w) else None)


def decode_words(text):
    '''What `eval ws=( text )` stores; None if it is not a literal list.'''
    try:
        return shwords.decode_zsh(text)
    except shwords.NotLiteral as e:
        raise Malformed('values: ' + str(e)) from e
