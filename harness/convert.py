'''Converting definitions to YAML, JSON and dictionaries and back.'''

import yaml

from crazy_complete import dictionary_source, json_source, yaml_source
from models import definition, files
from symx.ctx import Alphabet

# characters that YAML or JSON treat in a way of their own, and others
TEXT = Alphabet.PRINT | Alphabet.of('\0\x01\t\n\r\x1b\x7f\x80\x85é\u2028\ufeff\ufffd😀')
WORD = Alphabet.minus(TEXT, '\0\x01\t\n\r\x1b\x80\x85\u2028\ufeff ,')


def text(sx, name='t', alphabet=TEXT, lo=0):
    return sx.choice('head_' + name, sx.params.get('heads', [''])) + sx.str(name, sx.params['n'], lo, alphabet)


def ext_bool(sx, name):
    return sx.choice(name, [None, True, False, 'INHERIT'])


def put(d, **kw):
    for k, v in kw.items():
        if v is not None:
            d[k] = v
    return d


def texts(sx):
    '''A definition with a symbolic text at one place.'''
    place = sx.params['place']
    t = text(sx, 't', WORD, 1) if place == 'names' else text(sx)
    opt = {'option_strings': ['-a'], 'complete': ['choices', ['x']]}
    pos = {'number': 1}
    cmd = {'prog': 'prog', 'options': [opt], 'positionals': [pos]}
    if place == 'help':
        cmd['help'] = t
        opt['help'] = t
        pos['help'] = t
    elif place == 'metavar':
        opt['metavar'] = t
        pos['metavar'] = t
    elif place == 'values':
        opt['complete'] = ['choices', [t, 'x']]
        pos['complete'] = ['choices', {t: 'd', 'e ' + t: t}]
    elif place == 'groups':
        opt['groups'] = [t, 'g']
    elif place == 'names':
        opt['option_strings'] = ['--' + t, '-a']
        cmd['aliases'] = [t]
        cmd['wraps'] = t
        return [cmd, {'prog': 'prog x' + t, 'options': [{'option_strings': ['-' + t]}] if t != '-' else []},
                {'prog': 'prog x' + t + ' y' + t}]
    elif place == 'command':
        opt['complete'] = ['exec', t]
        opt['groups'] = None
        pos['complete'] = ['combine', [['exec', 'a ' + t], ['file', {'directory': 'd' + t}]]]
    return [cmd]


def flags(sx):
    '''A definition with every field that is not text.'''
    kind = sx.choice('kind', ['option', 'positional', 'command'])
    opt = {'option_strings': ['-a', '--long']}
    pos = {'number': 1}
    cmd = {'prog': 'prog'}
    sub = {'prog': 'prog sub'}
    if kind == 'option':
        a, b = (('M', 'VAR') if sx.bool('texts') else (None, None))
        put(opt, metavar=a, groups=sx.choice('groups', [None, [], ['g']]),
            repeatable=ext_bool(sx, 'repeatable'), final=bool(sx.bool('final')), hidden=bool(sx.bool('hidden')),
            nosort=bool(sx.bool('nosort')), optional_arg=bool(sx.bool('optional')),
            long_opt_arg_sep=sx.choice('sep', [None, 'space', 'equals', 'both', 'INHERIT']),
            capture=b, when='has_option -b' if a is None else None, complete=['choices', ['x']])
        if opt.get('repeatable') is True and opt['hidden']:
            sx.abort()
    elif kind == 'positional':
        pos = {'number': sx.choice('number', [1, 2])}
        put(pos, metavar=sx.choice('metavar', [None, 'M']), repeatable=bool(sx.bool('repeatable')),
            nosort=bool(sx.bool('nosort')), capture=sx.choice('capture', [None, 'VAR']),
            when=sx.choice('when', [None, 'has_option -b']), help=sx.choice('help', [None, '', 'h']),
            complete=sx.choice('complete', [None, ['none'], ['range', 1, 9], ['range', 9, 1, -2], ['file', {'fuzzy': True}],
                                            ['integer', {'min': 0, 'max': 5}], ['float', {'min': 1.5, 'max': 1e30}],
                                            ['key_value_list', ',', '=', [['k', None, None], ['*m', 'd', ['none'], ['k']]]]]))
    else:
        i = sx.choice('texts', [0, 1, 2])
        put(cmd, aliases=[None, [], ['a', 'b']][i], help=[None, 'h', ''][i],
            wraps=sx.choice('wraps', [None, 'w']), abbreviate_commands=ext_bool(sx, 'commands'),
            abbreviate_options=ext_bool(sx, 'options'), inherit_options=ext_bool(sx, 'inherit'))
        put(sub, aliases=sx.choice('aliases_s', [None, ['a']]), abbreviate_options=ext_bool(sx, 'options_s') if sx.params['all'] else None)
    cmd['options'] = [opt, {'option_strings': ['-b']}]
    cmd['positionals'] = [pos] if kind == 'positional' else []
    if kind == 'positional':
        return [cmd]
    return [cmd, sub]


def load(sx, defs):
    return dictionary_source.dictionaries_to_commandline(copy(defs))


def copy(x):
    if isinstance(x, list):
        return [copy(y) for y in x]
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return x


def roundtrip(sx):
    what, to = sx.params['what'], sx.params['to']
    defs = texts(sx) if what == 'texts' else flags(sx)
    cl = load(sx, defs)
    want = definition.describe(cl)
    if to == 'dictionaries':
        again = dictionary_source.dictionaries_to_commandline(dictionary_source.commandline_to_dictionaries(cl))
    elif to == 'json':
        with files.file(sx, json_source.commandline_to_json(cl), '.json') as name:
            again = json_source.load_from_file(name)
    else:
        out = yaml_source.commandline_to_yaml(cl)
        with files.file(sx, out, '.yaml') as name:
            try:
                again = yaml_source.load_from_file(name)
            except yaml.YAMLError as e:
                sx.fail('the YAML cannot be read')
    definition.same(sx, definition.describe(again), want, 'the definition differs')
    # the conversion leaves the definition as it was
    definition.same(sx, definition.describe(cl), want, 'the conversion changes the definition')
    sx.cover('done')
