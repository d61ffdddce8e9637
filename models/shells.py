'''Running the real shells. Only concrete replays come here; the symbolic side
uses the models. Everything runs as `nobody` in a scratch directory.'''

import os
import shutil
import subprocess
import tempfile


def _drop():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


ARGV = {
    'bash': ['bash', '--norc', '--noprofile'],
    'zsh': ['zsh', '-f'],
    'fish': ['fish', '--no-config'],
}


def run(shell, script, args=(), files=(), stdin='', path=None):
    '''Run `script`; returns (exit status, stdout). `files` are created in the scratch cwd.'''
    d = tempfile.mkdtemp(prefix='symx-sh.')
    try:
        os.chmod(d, 0o755)
        cwd = os.path.join(d, 'w')
        home = os.path.join(d, 'h')
        for x in (cwd, home):
            os.mkdir(x)
            os.chmod(x, 0o777)
        for f in files:
            p = os.path.join(cwd, f)
            if f.endswith('/'):
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8'):
                    pass
        with open(os.path.join(d, 'script'), 'w', encoding='utf-8', newline='') as fh:
            fh.write(script)
        env = {'PATH': path or os.path.join(d, 'nopath'), 'HOME': home, 'LANG': 'C.UTF-8', 'TERM': 'dumb',
               'XDG_CONFIG_HOME': home, 'XDG_DATA_HOME': home, 'XDG_RUNTIME_DIR': home}
        exe = shutil.which(shell) or '/usr/bin/' + shell
        argv = [exe] + ARGV[shell][1:] + [os.path.join(d, 'script')] + list(args)
        p = subprocess.run(argv, cwd=cwd, env=env, input=stdin.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, preexec_fn=_drop, check=False)
        return p.returncode, p.stdout.decode('utf-8', 'surrogateescape'), p.stderr.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


PRINT_ARGS = {
    'bash': 'f() { printf "%d\\0" $#; (( $# )) && printf "%s\\0" "$@"; }\n',
    'zsh': 'f() { printf "%d\\0" $#; (( $# )) && printf "%s\\0" "$@"; }\n',
    'fish': 'function f; printf "%s\\0" (count $argv) $argv; end\n',
}


def argv_of(shell, text):
    '''The words the real shell passes for `text`, or None if it does not run.'''
    _rc, out, _err = run(shell, PRINT_ARGS[shell] + 'f ' + text + '\n')
    parts = out.split('\0')
    if len(parts) < 2 or not parts[0].isdigit():
        return None
    n = int(parts[0])
    words = parts[1:-1]
    if n != len(words):
        return None
    return words
