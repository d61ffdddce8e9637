'''The values that are validated and the values that are used.'''

import yaml

from crazy_complete.errors import CrazyError
from crazy_complete.extended_yaml_parser import ExtendedYAMLParser
from models import definition
from symx.ctx import Alphabet


def strip(x):
    '''The values without their positions.'''
    v = x.value
    if isinstance(v, list):
        return [strip(y) for y in v]
    if hasattr(v, 'items'):
        return {'dict': [[strip(k), strip(y)] for k, y in v.items()]}
    return v


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, 'items'):
        return {'dict': [[plain(k), plain(v)] for k, v in x.items()]}
    return x


def agree(sx):
    '''A YAML text is read the same with and without positions.'''
    before, after = sx.params['around']
    text = before + sx.choice('head', sx.params.get('heads', [''])) + sx.str('t', sx.params['n'], 0, Alphabet.of(sx.params['chars'])) + after
    try:
        used = plain(list(yaml.safe_load_all(text)))
    except Exception:   # PyYAML refuses it, or fails
        sx.abort()
    try:
        checked = [strip(d) for d in ExtendedYAMLParser().parse(text)]
    except (CrazyError, yaml.YAMLError):
        sx.cover('refused')
        return
    definition.same(sx, used, checked, 'the values differ')
    sx.cover('done')
