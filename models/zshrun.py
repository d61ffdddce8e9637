'''Running a generated Zsh script (written with zsh_compdef off) for one command line.

Symbolic runs interpret the script with shmodel.zsh, concrete replays use the real Zsh; in both
the arguments that reach _arguments and _describe are what is observed.
'''

from models import shells

REAL = r'''
setopt bareglobqual extendedglob glob multibyte multifuncdef nullglob rcexpandparam unset
_arguments() { printf 'A\0%s\0' $#; (( $# )) && printf '%s\0' "$@" }
_describe() { printf 'D\0%s\0' ${#${(P)@[-1]}}; (( ${#${(P)@[-1]}} )) && printf '%s\0' "${(@P)@[-1]}" }
compdef() { _vp_f=$1 }
zstyle() { : }
'''


def read(out, letter):
    parts = out.split('\0')
    res = []
    i = 0
    while i + 1 < len(parts) and parts[i] == letter:
        n = int(parts[i + 1])
        res.append(parts[i + 2:i + 2 + n])
        i += 2 + n
    return res


def arguments(sx, script, words):
    '''The argument lists of the calls of _arguments.'''
    if sx.symbolic:
        from shmodel import zshdrive
        return zshdrive.arguments(script, words)
    _rc, out, err = shells.run('zsh', REAL + 'vp_words=("$@")\n' + script + '\nwords=("${vp_words[@]}")\n$_vp_f 2>/dev/null\n', words)
    if err and not out:
        raise AssertionError('zsh: ' + err[-1000:])
    return read(out, 'A')


def describe(sx, script, func):
    if sx.symbolic:
        from shmodel import zshdrive
        return zshdrive.describe(script, func)
    _rc, out, _err = shells.run('zsh', REAL + script + '\n"$1"\n', [func])
    res = read(out, 'D')
    if len(res) != 1:
        raise AssertionError('not one _describe: ' + out[-500:])
    return res[0]
