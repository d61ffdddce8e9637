'''Drives the Bash model through one completion.'''

import os

from . import bash
from .bash import Bash, Var, Node


def complete(text, words, cword):
    ast = bash.parse(text)
    sh = Bash()
    sh.opts_text = ''

    def compopt(s, a):
        s.opts_text = bash.cat(s.opts_text, ' ', *_join(a))
        return 0
    sh.builtins['compopt'] = compopt
    g = sh.frames[0]
    g['COMP_WORDBREAKS'] = Var('s', ' \t\n"\'><=;|&(:')
    sh.set_array('__W', list(words))
    sh.set('__CW', str(cword))
    sh.set_array('COMPREPLY', [])
    sh.set_array('COMP_WORDS', list(words))
    sh.set('COMP_CWORD', str(cword))
    line = []
    for i, w in enumerate(words):
        if i:
            line.append(' ')
        line.append(w)
    sh.set('COMP_LINE', bash.cat(*line))
    sh.set('COMP_POINT', str(sum(len(x) for x in line)))
    sh.run(ast)
    sh.set_array('COMPREPLY', [])
    sh.opts_text = ''
    f = None
    for c in sh.completes:
        if '-F' in c:
            f = c[c.index('-F') + 1]
    if f is None:
        raise AssertionError('no completion function')
    sh.call([f, words[0], words[cword], words[cword - 1]])
    st = sh.status
    return st, list(sh.array('COMPREPLY')), sh.opts_text


def _join(a):
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(' ')
        out.append(x)
    return out
