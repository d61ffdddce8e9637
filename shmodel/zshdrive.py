'''Drives the Zsh model: which arguments a generated completion function passes to _arguments.'''

from symx.core import Unsupported
from . import zsh
from .bash import native
from .zsh import Zsh

_LOADED = {}


class Loaded:
    def __init__(self, text):
        sh = Zsh()
        self.compdef = None
        sh.builtins['compdef'] = self._compdef
        sh.run(zsh.parse(text))
        self.funcs = sh.funcs

    def _compdef(self, _sh, a):
        self.compdef = native(a[0])
        return 0


def loaded(text):
    if type(text) is not str:
        return Loaded(text)
    if text not in _LOADED:
        if len(_LOADED) > 500:
            _LOADED.clear()
        _LOADED[text] = Loaded(text)
    return _LOADED[text]


def arguments(text, words):
    '''Arguments of every call of _arguments, for the command line `words`.'''
    src = loaded(text)
    if src.compdef is None:
        raise AssertionError('no completion function')
    calls = []

    def rec(_sh, a):
        calls.append(list(a))
        return 0
    sh = Zsh({'_arguments': rec})
    sh.funcs = dict(src.funcs)
    sh.set_array('words', list(words))
    sh.call([src.compdef])
    return calls


def describe(text, func):
    '''Items a function passes to _describe.'''
    out = []

    def rec(sh, a):
        out.append(list(sh.array(native(a[-1]))))
        return 0
    sh = Zsh({'_describe': rec})
    sh.funcs = dict(loaded(text).funcs)
    sh.call([func])
    if len(out) != 1:
        raise Unsupported('an action that is not one _describe')
    return out[0]
