'''Running a generated Bash script for one command line.

Symbolic runs interpret the script with shmodel.bash; concrete replays use the
real Bash with the same stubs for what the bash-completion library provides.
'''

from models import shells

STUBS = ('_filedir', '_comp_compgen_filedir', '_pids', '_pnames', '_uids', '_gids', '_shells', '_signals',
         '_fstypes', '_command_offset', '_comp_command_offset', '_available_interfaces', '_ip_addresses',
         '_comp_compgen_pids', '_comp_compgen_pnames', '_comp_compgen', '_comp_compgen_signals',
         '_comp_compgen_uids', '_comp_compgen_gids', '_comp_compgen_ip_addresses',
         '_comp_compgen_available_interfaces', '_completion_loader', '_comp_complete_load')

PRELUDE = '\n'.join('%s() { COMPREPLY+=("<%s:$*>"); }' % (n, n) for n in STUBS) + '''
_init_completion() { words=("${__W[@]}"); cword=$__CW; cur="${words[cword]}"; prev="${words[cword-1]}"; return 0; }
_comp_initialize() { words=("${__W[@]}"); cword=$__CW; cur="${words[cword]}"; prev="${words[cword-1]}"; return 0; }
__ltrim_colon_completions() { :; }
compgen() { if [[ "$1" == -W ]]; then builtin compgen "$@"; else echo "<compgen:$*>"; fi; }
'''

WORDBREAKS = ' \t\n"\'><=;|&(:'

REAL = r'''
shopt -s extglob
__F=; __P=
complete() { while (( $# )); do case "$1" in -F) __F="$2"; shift 2;; -*) shift;; *) __P="$__P $1"; shift;; esac; done; }
compopt() { __O="$__O $*"; }
COMP_WORDBREAKS=$' \t\n"\'><=;|&(:'
'''

REAL_END = r'''
__CW=$1; shift
__W=("$@")
COMPREPLY=(); __O=
COMP_CWORD=$__CW; COMP_WORDS=("$@"); COMP_LINE="$*"; COMP_POINT=${#COMP_LINE}
"$__F" "${__W[0]}" "${__W[__CW]}" "${__W[__CW-1]}" 2>/dev/null
printf 'R\0%s\0' "$?"
(( ${#COMPREPLY[@]} )) && printf '%s\0' "${COMPREPLY[@]}"
printf 'O\0%s\0' "$__O"
'''

_CACHE = {}


class Result:
    def __init__(self, status, replies, opts):
        self.status = status
        self.replies = replies
        self.opts = opts


def complete(sx, script, words, cword=None, extra=''):
    '''Complete words[cword] (the last word by default).'''
    if cword is None:
        cword = len(words) - 1
    if sx.symbolic:
        return _model(script, words, cword, extra)
    _rc, out, err = shells.run('bash', REAL + PRELUDE + extra + '\n' + script + REAL_END, [str(cword)] + list(words))
    parts = out.split('\0')
    if 'R' not in parts:
        raise AssertionError('no result from Bash: ' + out[-500:] + err[-2000:])
    r = len(parts) - 1 - parts[::-1].index('R')
    o = len(parts) - 1 - parts[::-1].index('O')
    return Result(int(parts[r + 1]), parts[r + 2:o], parts[o + 1])


def _model(script, words, cword, extra):
    from shmodel import bashdrive
    st, replies, opts = bashdrive.complete(PRELUDE + extra + '\n' + script, words, cword)
    return Result(st, replies, opts)
