'''Glob translation and file-extension patterns.'''

import subprocess

from crazy_complete import bash_utils, fish_complete, pattern, zsh_utils
from models import globs, shells
from symx.ctx import Alphabet

NAME = Alphabet.of('aAbBzZ019._-+@,=%~ ^$!(){}[]|&*?\\é')
GLOB = Alphabet.of('abA1.-_+@=*?[]!(|)^')
EXTS = {'few': 'aA1.+', 'many': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.+-_@%,='}


def _bash_says(p, name):
    rc, out, _ = shells.run('bash', 'shopt -s extglob; LC_ALL=C; p=$1; [[ "$2" == $p ]] && echo y || echo n', [p, name])
    return out == 'y\n'


def _zsh_says(p, name):
    rc, out, _ = shells.run('zsh', 'setopt extendedglob; p=$1; [[ "$2" == ${~p} ]] && echo y || echo n', [p, name])
    return out == 'y\n'


def _fish_says(p, name):
    rc, out, _ = shells.run('fish', 'if string match -qr -- "^($argv[1])\\$" $argv[2]; echo y; else; echo n; end', [p, name])
    return out == 'y\n'


def _agree(sx, model, real, p, name):
    '''Concrete runs: the reference matcher has to agree with the shell.'''
    if not sx.symbolic and name.isascii():
        if bool(model) != real(p, name):
            raise AssertionError(f'matcher and shell disagree on {p!r} {name!r}')


def regex_same(sx):
    '''bash_glob_to_regex(p) matches exactly the names Bash matches with p.'''
    p = sx.str('p', sx.params['n'], 1, GLOB)
    name = sx.str('name', sx.params['m'], sx.params['m'], NAME)
    try:
        want = globs.parse_bash(p)
    except globs.BadPattern:
        sx.abort()
    try:
        r = pattern.bash_glob_to_regex(p)
    except ValueError:
        sx.cover('rejected')
        sx.abort()
    sx.observe(r)
    a = globs.matches(want, name)
    _agree(sx, a, _bash_says, p, name)
    try:
        got = globs.parse_regex(r)
    except globs.BadPattern:
        sx.fail('the regular expression is not well-formed')
    b = globs.matches(got, name)
    _agree(sx, b, _fish_says, r, name)
    sx.cover('translated')
    sx.check(a == b, 'the regular expression matches different file names')


def zsh_same(sx):
    p = sx.str('p', sx.params['n'], 1, GLOB)
    name = sx.str('name', sx.params['m'], sx.params['m'], NAME)
    try:
        want = globs.parse_bash(p)
    except globs.BadPattern:
        sx.abort()
    try:
        r = pattern.bash_glob_to_zsh_glob(p)
    except ValueError:
        sx.cover('rejected')
        sx.abort()
    sx.observe(r)
    a = globs.matches(want, name)
    _agree(sx, a, _bash_says, p, name)
    sx.known('zsh-quoted-brackets', "'" in r)
    try:
        got = globs.parse_zsh(r)
    except globs.BadPattern:
        sx.fail('the Zsh glob is not well-formed')
    b = globs.matches(got, name)
    _agree(sx, b, _zsh_says, r, name)
    sx.cover('translated')
    sx.check(a == b, 'the Zsh glob matches different file names')


def extensions(sx):
    '''Only names with one of the extensions, in any case, are offered.'''
    alphabet = Alphabet.of(EXTS[sx.params['chars']])
    exts = [sx.str('e%d' % i, sx.params['n'], 1, alphabet) for i in range(sx.params['k'])]
    fuzzy = sx.bool('fuzzy')
    name = sx.str('name', sx.params['m'], sx.params['m'], alphabet)
    sh = sx.params['shell']
    star = ('rep', [[('any',)]], 0, None)
    alts = [[('c', '.')] + [('c', c) for c in e] for e in exts]
    want = globs.matches([star, ('rep', alts, 1, 1)] + ([star] if fuzzy else []), name, nocase=True)
    if sh == 'bash':
        p = '*.' + bash_utils.make_file_extension_pattern(exts, fuzzy)
        got = globs.matches(globs.parse_bash(p), name)
        _agree(sx, got, _bash_says, p, name)
    elif sh == 'zsh':
        p = zsh_utils.make_file_extension_pattern(exts, fuzzy)
        got = globs.matches(globs.parse_zsh(p), name)
        _agree(sx, got, _zsh_says, p, name)
    else:
        p = fish_complete._get_extension_regex(exts, fuzzy)
        got = globs.matches(globs.parse_regex(p), name)
        _agree(sx, got, _fish_says, p, name)
    sx.observe(p)
    sx.check(got == want, f'{sh}: wrong file names are offered for the extensions')
    sx.cover('fuzzy' if fuzzy else 'exact')
