'''Reference word decoding of a simple command line in Bash, Zsh and Fish.

decode_bash / decode_zsh / decode_fish return the list of words that the shell
passes to the command for the given source text, or raise NotLiteral when the
text contains anything the shell would expand, glob, split as a command, or
that does not parse. They describe the fragment of each shell's grammar that
consists of unquoted, single-quoted, double-quoted and backslashed characters.
'''


class NotLiteral(Exception):
    pass


_SPACE = ' \t'


def decode_bash(src):
    words = []
    cur = None
    i = 0
    n = len(src)
    start = False
    while i < n:
        c = src[i]
        if c in _SPACE:
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
            continue
        first = cur is None
        if first:
            cur = ''
        if c == "'":
            j = i + 1
            while True:
                if j >= n:
                    raise NotLiteral('unterminated single quote')
                if src[j] == "'":
                    break
                j += 1
            cur = cur + src[i + 1:j]
            i = j + 1
        elif c == '"':
            i += 1
            while True:
                if i >= n:
                    raise NotLiteral('unterminated double quote')
                d = src[i]
                if d == '"':
                    i += 1
                    break
                if d == '\\':
                    if i + 1 >= n:
                        raise NotLiteral('dangling backslash')
                    e = src[i + 1]
                    if e == '\n':
                        pass
                    elif e in '$`"\\':
                        cur = cur + e
                    else:
                        cur = cur + d + e
                    i += 2
                elif d in '$`':
                    raise NotLiteral('expansion in double quotes')
                else:
                    cur = cur + d
                    i += 1
        elif c == '\\':
            if i + 1 >= n:
                raise NotLiteral('dangling backslash')
            if src[i + 1] != '\n':
                cur = cur + src[i + 1]
            i += 2
        elif c in '|&;<>()$`*?[]{}!\n':
            raise NotLiteral('special character')
        elif c in '~#' and first:
            raise NotLiteral('special character at the start of a word')
        elif c == '\0':
            raise NotLiteral('NUL')
        else:
            cur = cur + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def decode_zsh(src):
    words = []
    cur = None
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if c in _SPACE:
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
            continue
        first = cur is None
        if first:
            cur = ''
        if c == "'":
            j = i + 1
            while True:
                if j >= n:
                    raise NotLiteral('unterminated single quote')
                if src[j] == "'":
                    break
                j += 1
            cur = cur + src[i + 1:j]
            i = j + 1
        elif c == '"':
            i += 1
            while True:
                if i >= n:
                    raise NotLiteral('unterminated double quote')
                d = src[i]
                if d == '"':
                    i += 1
                    break
                if d == '\\':
                    if i + 1 >= n:
                        raise NotLiteral('dangling backslash')
                    e = src[i + 1]
                    if e == '\n':
                        pass
                    elif e in '$`"\\':
                        cur = cur + e
                    else:
                        cur = cur + d + e
                    i += 2
                elif d in '$`':
                    raise NotLiteral('expansion in double quotes')
                else:
                    cur = cur + d
                    i += 1
        elif c == '\\':
            if i + 1 >= n:
                raise NotLiteral('dangling backslash')
            if src[i + 1] != '\n':
                cur = cur + src[i + 1]
            i += 2
        elif c in '|&;<>()$`*?[]{}!\n^':
            raise NotLiteral('special character')
        elif c in '~#' and first or c == '=' and first and i + 1 < n and src[i + 1] not in _SPACE:
            raise NotLiteral('special character at the start of a word')
        elif c == '\0':
            raise NotLiteral('NUL')
        else:
            cur = cur + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def decode_fish(src):
    words = []
    cur = None
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if c in _SPACE:
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
            continue
        first = cur is None
        if first:
            cur = ''
        if c == "'":
            i += 1
            while True:
                if i >= n:
                    raise NotLiteral('unterminated single quote')
                d = src[i]
                if d == "'":
                    i += 1
                    break
                if d == '\\' and i + 1 < n and src[i + 1] in "\\'":
                    cur = cur + src[i + 1]
                    i += 2
                else:
                    cur = cur + d
                    i += 1
        elif c == '"':
            i += 1
            while True:
                if i >= n:
                    raise NotLiteral('unterminated double quote')
                d = src[i]
                if d == '"':
                    i += 1
                    break
                if d == '\\' and i + 1 < n and src[i + 1] in '\\"$\n':
                    if src[i + 1] != '\n':
                        cur = cur + src[i + 1]
                    i += 2
                elif d == '$':
                    raise NotLiteral('expansion in double quotes')
                else:
                    cur = cur + d
                    i += 1
        elif c == '\\':
            if i + 1 >= n:
                raise NotLiteral('dangling backslash')
            e = src[i + 1]
            if e in 'abcefnrtuUvxX01234567':
                raise NotLiteral('escape sequence')
            if e != '\n':
                cur = cur + e
            i += 2
        elif c in '|&;<>()$*?[]{}\n':
            raise NotLiteral('special character')
        elif c in '~#' and first or c == '%' and first and src[i + 1:i + 5] == 'self':
            raise NotLiteral('special character at the start of a word')
        elif c == '\0':
            raise NotLiteral('NUL')
        else:
            cur = cur + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


DECODE = {'bash': decode_bash, 'zsh': decode_zsh, 'fish': decode_fish}


def words(sx, shell, text):
    '''Words of `text` according to the model (symbolic) or the real shell (replay).
    None when the text is not a literal word list.'''
    if not sx.symbolic:
        from . import shells
        return shells.argv_of(shell, text)
    try:
        return DECODE[shell](text)
    except NotLiteral:
        return None
