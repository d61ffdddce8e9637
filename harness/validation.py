'''Definitions are refused with a message, or scripts are generated from them.'''

from crazy_complete import bash, fish, zsh, dictionary_source, scheme_validator
from crazy_complete.errors import CrazyError, CrazySchemaValidationError
from crazy_complete.value_with_trace import ValueWithTrace
from harness import bashlines
from symx.ctx import Alphabet

GENERATORS = [bash, fish, zsh]
CHARS = Alphabet.of("a-% ('\\\n\0")

COMPLETERS = {
    'choices': ['choices', ['a', 1]],
    'described': ['choices', {'a': 'b', 'c': 1}],
    'combine': ['combine', [['choices', ['a']], ['user']]],
    'command_append': ['command', {'path_append': '/a'}],
    'command_path': ['command', {'path': '/a'}],
    'date': ['date', '%Y'],
    'directory': ['directory', {'directory': '/a'}],
    'directory_list': ['directory_list', {'separator': ':', 'duplicates': True, 'directory': '/a'}],
    'exec': ['exec', 'a'],
    'exec_fast': ['exec_fast', 'a'],
    'exec_internal': ['exec_internal', 'a'],
    'file': ['file', {'directory': '/a', 'extensions': ['a'], 'fuzzy': True, 'ignore_globs': ['*.a']}],
    'file_list': ['file_list', {'separator': ':', 'extensions': ['a']}],
    'float': ['float', {'min': 1.5, 'max': 3, 'help': 'h', 'suffixes': {'k': 'd'}}],
    'integer': ['integer', {'min': 1, 'max': 3, 'help': 'h', 'suffixes': {'k': 'd'}}],
    'history': ['history', 'a'],
    'ip_address': ['ip_address', 'ipv4'],
    'key_value_list': ['key_value_list', ',', '=', [['a', 'd', ['choices', ['x']]], ['*b', None, None, ['a']]]],
    'key_value_pair': ['key_value_pair', '=', [['a', 'd', ['choices', ['x']]], ['b', None, None]], 'cond'],
    'key_value_list_exec': ['key_value_list_exec', ',', '=', 'a'],
    'key_value_pair_exec': ['key_value_pair_exec', '=', 'a'],
    'list': ['list', ['choices', ['a']], {'separator': ':', 'duplicates': True}],
    'mime_file': ['mime_file', 'a'],
    'none': ['none'],
    'prefix': ['prefix', 'a', ['choices', ['b']]],
    'range': ['range', 1, 3, 1],
    'value_list': ['value_list', {'values': ['a'], 'separator': ':', 'duplicates': True}],
    'value_list_dict': ['value_list', {'values': {'a': 'b'}}],
    'void': ['alsa_card'], 'void2': ['user'], 'void3': ['variable'], 'void4': ['pid'],
}


def base(sx):
    name = sx.choice('base', sx.params['base'].split('+'))
    if name == 'option':
        return [{'prog': 'prog', 'options': [
            {'option_strings': ['-a', '--bb'], 'metavar': 'M', 'help': 'h', 'optional_arg': True, 'groups': ['g'], 'repeatable': True,
             'final': True, 'hidden': False, 'nosort': True, 'complete': ['none'], 'when': 'has_option -c', 'capture': 'V',
             'long_opt_arg_sep': 'equals'},
            {'option_strings': ['-c'], 'group': 'g', 'hidden': True}]}]
    if name == 'positional':
        return [{'prog': 'prog', 'positionals': [
            {'number': 1, 'metavar': 'M', 'help': 'h', 'repeatable': False, 'nosort': True, 'complete': ['none'],
             'when': 'has_option -c', 'capture': 'V'},
            {'number': 2, 'repeatable': True}]}]
    if name == 'command':
        return [{'prog': 'prog', 'help': 'h', 'aliases': ['p'], 'wraps': 'w', 'abbreviate_commands': True,
                 'abbreviate_options': False, 'inherit_options': 'INHERIT', 'options': [{'option_strings': ['-c']}],
                 'positionals': [{'number': 1}]},
                {'prog': 'prog s', 'aliases': ['t'], 'positionals': [{'number': 1, 'repeatable': True}]}]
    if name == 'reversed':
        return [{'prog': 'prog', 'positionals': [{'number': 2, 'repeatable': True, 'complete': ['command_arg']},
                                                 {'number': 1, 'complete': ['command']}]}]
    if name == 'command_arg':
        return [{'prog': 'prog', 'positionals': [{'number': 1, 'complete': ['command']},
                                                 {'number': 2, 'repeatable': True, 'complete': ['command_arg']}]}]
    comp = COMPLETERS[name]
    if sx.params['in'] == 'option':
        return [{'prog': 'prog', 'options': [{'option_strings': ['-a'], 'complete': comp}]}]
    return [{'prog': 'prog', 'positionals': [{'number': 1, 'complete': comp}]}]


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, path + (i,))


def replace(x, path, f):
    '''A copy of x where the value at path is f of it; DROP removes it.'''
    if not path:
        return f(x)
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == path[0]:
                r = replace(v, path[1:], f)
                if r is not DROP:
                    out[k] = r
            else:
                out[k] = v
        return out
    out = []
    for i, v in enumerate(x):
        r = replace(v, path[1:], f) if i == path[0] else v
        if r is not DROP:
            out.append(r)
    return out


DROP = object()
KINDS = ['as it is', 'drop', 'none', 'bool', 'int', 'float', 'text', 'empty list', 'list', 'empty dict', 'dict', 'more', 'key']


def value(sx, kind, old):
    n = sx.params['n']
    if kind == 'as it is':
        return old
    if kind == 'drop':
        return DROP
    if kind == 'none':
        return None
    if kind == 'bool':
        return bool(sx.bool('b'))
    if kind == 'int':
        return sx.choice('i', [-1, 0, 1, 2, 5])
    if kind == 'float':
        return 0.5
    if kind == 'text':
        return sx.str('t', n, 0, CHARS)
    if kind == 'empty list':
        return []
    if kind == 'list':
        return [sx.choice('e', [None, 'x', 'exec', 1, ['x'], {'x': 'y'}])]
    if kind == 'empty dict':
        return {}
    if kind == 'dict':
        return {'x': sx.choice('e', [None, 'x', 1, ['x']])}
    if kind == 'key':
        if not isinstance(old, dict):
            sx.abort()
        return {**old, sx.str('t', n, 0, CHARS): 'y'}
    if isinstance(old, list):
        return old + [sx.choice('e', [None, 'x', 1, ['x'], {'x': 'y'}])]
    if isinstance(old, dict):
        return {**old, sx.choice('k', [None, 1, True, 'zz']): sx.choice('e', [None, 'x', 1, ['x']])}
    if isinstance(old, str):
        return old + sx.str('t', n, min(1, n), CHARS)
    return sx.abort()


def trace(x):
    if isinstance(x, dict):
        x = {trace(k): trace(v) for k, v in x.items()}
    elif isinstance(x, list):
        x = [trace(v) for v in x]
    return ValueWithTrace(x, '', 1, 1)


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    return x


def accepted(defs):
    try:
        scheme_validator.validate([trace(d) for d in defs])
        return True
    except CrazySchemaValidationError:
        return False


def generate(sx, defs):
    '''None, or why no script was generated.'''
    for g in GENERATORS:
        try:
            g.generate_completion(dictionary_source.dictionaries_to_commandline(copy(defs)), bashlines.config({}))
        except CrazyError as e:
            return str(e)
    return None


def later(defs, a, b):
    order = list(nodes(defs))
    return order.index(b) > order.index(a) and b[:len(a)] != a


FEW = ['drop', 'none', 'int', 'list', 'dict']
SECOND = [DROP, True, None, 'exec', 0, [], 'x', [['x']], ['x'], {}, {'x': 'y'}]


def mutated(sx):
    '''A valid definition with one or two values replaced.'''
    defs = base(sx)
    path = sx.choice('path', [p for p in nodes(defs) if len(p) > 0])
    two = sx.params['two']
    kind = sx.choice('kind', FEW if two == 1 else KINDS)
    if two:
        if kind == 'as it is':
            sx.abort()
        # one beside it, or below one beside it
        near = [p for p in nodes(defs) if later(defs, path, p) and p[:len(path) - 1] == path[:-1]]
        if not near:
            sx.abort()
        other = sx.choice('other', near)
        new = sx.choice('new', SECOND[::2] if two == 1 else SECOND)
        defs = replace(defs, other, lambda old: new)
    defs = replace(defs, path, lambda old: value(sx, kind, old))
    ok = accepted(defs)
    if kind == 'as it is':
        sx.check(ok, 'a valid definition is refused')
    if ok:
        why = generate(sx, defs)
        if kind == 'as it is':
            sx.check(why is None, 'no script is generated')
        sx.cover('accepted')
    else:
        sx.cover('refused')
