'''Drives the Fish model: loads a script, then evaluates its completion entries.'''

from . import fish
from .fish import Fish, Scope


def load(text, prelude=''):
    sh = Fish()
    if prelude:
        sh.run(fish.parse(prelude))
    sh.push()
    sh.run(fish.parse(text))
    sh.scope = Scope(None, True)
    return sh


_LOADED = {}


def loaded(text, prelude):
    '''A fresh interpreter with the script loaded (loading a concrete script is done once).'''
    if type(text) is not str:
        return load(text, prelude)
    if text not in _LOADED:
        if len(_LOADED) > 500:
            _LOADED.clear()
        _LOADED[text] = load(text, prelude)
    src = _LOADED[text]
    sh = Fish()
    sh.globals = dict(src.globals)
    sh.funcs = dict(src.funcs)
    sh.entries = [list(e) for e in src.entries]
    sh.scope = Scope(None, True)
    return sh


def holds(sh, conditions):
    for c in conditions:
        sh.scope = Scope(None, True)
        sh.set_ok(True)
        sh.eval(c)
        sh.out = []
        if not sh.ok:
            return False
    return True


def arguments(sh, text):
    '''Values of a `-a` argument.'''
    p = fish.Parser(text)
    out = []
    while True:
        p.seps()
        if p.i >= p.n:
            return out
        sh.scope = Scope(None, True)
        out.extend(sh.expand(p.word()))
