'''Loading a generated Fish script and asking which of its entries are active.

Fish itself decides which entry's names and arguments fit the word under the cursor;
that part is trusted. The entries, their conditions and their arguments come from the
script: symbolic runs interpret it with shmodel.fish, replays use the real Fish.
'''

from models import shells
from symx.core import Unsupported

STUBS = ('__fish_complete_path', '__fish_complete_directories', '__fish_complete_list', '__fish_complete_command',
         '__fish_complete_groups', '__fish_complete_users', '__fish_complete_pids', '__fish_complete_proc')

PRELUDE = ''.join("function %s; printf '%%s\\n' '<%s>' $argv; end\n" % (n, n) for n in STUBS)

REAL = r'''
set -g __vp_n 0
function complete
  set -g __vp_n (math $__vp_n + 1)
  set -g __vp_e$__vp_n $argv
end
function commandline
  switch "$argv"
    case '-poc' '-opc'
      set -q __vp_before[1]; and printf '%s\n' $__vp_before
    case '-po'
      printf '%s\n' $__vp_before $__vp_cur $__vp_after
    case '-ct'
      printf '%s\n' $__vp_cur
  end
end
'''

REAL_END = r'''
function __vp_cond
  eval $argv[1] >/dev/null 2>/dev/null
end
function __vp_values
  set -l __vp_v
  eval "set __vp_v $argv[1]" 2>/dev/null
  printf '%s\0' V $__vp_v
end
function __vp_run
  for __vp_k in (seq 1 $__vp_n)
    set -l __vp_name __vp_e$__vp_k
    set -l __vp_args $$__vp_name
    printf '%s\0' E (count $__vp_args) $__vp_args
    set -l __vp_ok 1
    set -l __vp_i 1
    set -l __vp_a
    while test $__vp_i -le (count $__vp_args)
      switch $__vp_args[$__vp_i]
        case -n
          set __vp_i (math $__vp_i + 1)
          if test $__vp_ok = 1
            __vp_cond $__vp_args[$__vp_i]
            or set __vp_ok 0
          end
        case -a
          set __vp_i (math $__vp_i + 1)
          set __vp_a $__vp_args[$__vp_i]
        case -c -s -l -o -d -w
          set __vp_i (math $__vp_i + 1)
      end
      set __vp_i (math $__vp_i + 1)
    end
    printf '%s\0' A $__vp_ok
    if test $__vp_ok = 1; and set -q __vp_a[1]
      __vp_values $__vp_a
    end
    printf '%s\0' X
  end
end
__vp_run
'''


class Entry:
    '''One `complete` command of the script.'''

    def __init__(self, args):
        self.args = args
        self.conditions = []
        self.short = []
        self.long = []
        self.old = []
        self.flags = ''
        self.description = None
        self.arguments = None
        self.command = None
        self.wraps = None
        self.active = None
        self.values = None
        i = 0
        while i < len(args):
            a = args[i]
            if len(a) == 2 and a[0] == '-' and a[1] in 'nslodacw':
                v = args[i + 1]
                i += 1
                k = a[1]
                if k == 'n':
                    self.conditions.append(v)
                elif k == 's':
                    self.short.append(v)
                elif k == 'l':
                    self.long.append(v)
                elif k == 'o':
                    self.old.append(v)
                elif k == 'd':
                    self.description = v
                elif k == 'a':
                    self.arguments = v
                elif k == 'c':
                    self.command = v
                else:
                    self.wraps = v
            elif a.startswith('-'):
                self.flags += a[1:]
            else:
                raise Unsupported('complete ' + a)
            i += 1

    def strings(self):
        return ['-' + s for s in self.short] + ['--' + s for s in self.long] + ['-' + s for s in self.old]


def complete(sx, script, words, cur, after=()):
    '''All entries of the script with `active` and, if active, `values`.'''
    if sx.symbolic:
        return _model(script, words, cur, after)
    head = REAL + PRELUDE
    q = "'%s'"
    for n, xs in (('__vp_before', words), ('__vp_cur', [cur]), ('__vp_after', after)):
        head += 'set -g %s %s\n' % (n, ' '.join(q % x.replace('\\', '\\\\').replace("'", "\\'") for x in xs))
    _rc, out, err = shells.run('fish', head + script + REAL_END)
    parts = out.split('\0')
    res = []
    i = 0
    while i < len(parts) and parts[i] == 'E':
        n = int(parts[i + 1])
        e = Entry(parts[i + 2:i + 2 + n])
        i += 2 + n
        if parts[i] != 'A':
            raise AssertionError('fish: ' + out[-500:] + err[-2000:])
        e.active = parts[i + 1] == '1'
        i += 2
        e.values = []
        if parts[i] == 'V':
            j = parts.index('X', i)
            e.values = parts[i + 1:j]
            i = j
        if parts[i] != 'X':
            raise AssertionError('fish: ' + out[-500:] + err[-2000:])
        i += 1
        res.append(e)
    if not res:
        raise AssertionError('fish: ' + out[-500:] + err[-2000:])
    return res


def _model(script, words, cur, after):
    from shmodel import fishdrive
    sh = fishdrive.loaded(script, PRELUDE)
    sh.tokens = list(words) + [cur] + list(after)
    sh.cursor = len(words)
    out = []
    cache = {}
    for args in sh.entries:
        e = Entry(args)
        e.active = True
        for c in e.conditions:
            if c not in cache:
                cache[c] = fishdrive.holds(sh, [c])
            if not cache[c]:
                e.active = False
                break
        e.values = fishdrive.arguments(sh, e.arguments) if e.active and e.arguments is not None else []
        out.append(e)
    return out
