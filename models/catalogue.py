'''Families of definitions used by the end-to-end harnesses.

A family is a function of the harness context: its choices (which spellings, kinds
and attributes the options have) are symbolic. It returns definition, configuration
and the characters of the symbolic command line.
'''


def CH(*v):
    return ['choices', list(v)]


def option(strings, kind='flag', values=('v',), **kw):
    d = {'option_strings': list(strings)}
    if kind != 'flag':
        d['complete'] = CH(*values)
    if kind == 'opt':
        d['optional_arg'] = True
    d.update(kw)
    return d


def pad(dicts, n=14):
    '''Options that never occur on the command line but make the script longer.'''
    d = dicts[0]
    d['options'] = d.get('options', []) + [
        option(['--zz%d' % i, '-%s' % 'GHIJKLMNOPQRSTUVWXYZ'[i]], 'req', ('Z',), hidden=True) for i in range(n)]
    return dicts


KINDS = ('flag', 'req', 'opt')


def kinds(sx):
    '''Two options of any kind and spelling.'''
    a = sx.choice('a', [['-a'], ['--aa'], ['-aa'], ['-a', '--aa']])
    b = sx.choice('b', [['-b'], ['--ab'], ['-ab'], ['-b', '--b', '-bb']])
    ka = sx.choice('ka', KINDS)
    kb = sx.choice('kb', KINDS)
    return [{'prog': 'prog', 'options': [option(a, ka, ('a', 'x')), option(b, kb, ('b', 'ba'))],
             'positionals': [{'number': 1, 'complete': CH('p', 'a')}]}], {}, 'abx-='


def clusters(sx):
    '''Three short options that can be written together.'''
    ks = [sx.choice('k%d' % i, KINDS) for i in range(3)]
    opts = [option(['-' + c], k, (c.upper(), c.upper() + 'b')) for c, k in zip('abc', ks)]
    if sx.bool('old'):
        opts.append(option(['-ab'], sx.choice('ko', KINDS), ('o',)))
    return [{'prog': 'prog', 'options': opts}], {}, 'abcAB-'


CONFS = [{}, {'repeatable_options': True}, {'disable_hidden': True}, {'disable_final': True},
         {'disable_groups': True}, {'disable_repeatable': True}]


def attributes(sx):
    '''Grouping, finality, repeatability and visibility.'''
    if sx.bool('by_config'):
        kb, final, ga, gb = 'flag', True, ['g'], ['g']
        ra = sx.choice('ra', [None, True, False])
        hidden = bool(sx.bool('hidden'))
        conf = sx.choice('conf', CONFS)
    else:
        kb = sx.choice('kb', ('flag', 'opt'))
        final = bool(sx.bool('final'))
        ga = sx.choice('ga', [None, ['g'], ['g', 'h']])
        gb = sx.choice('gb', [None, ['g'], ['h']])
        ra, hidden, conf = None, False, {}
    a = option(['-a', '--aa'], final=final, groups=ga, repeatable=ra)
    b = option(['-b'], kb, ('B',), hidden=hidden, groups=gb)
    c = option(['-c', '--cc'], 'req', ('C',), groups=['h'])
    return [{'prog': 'prog', 'options': [a, b, c]}], conf, 'abcC-='


def positionals(sx):
    '''Positionals, repeated ones and the end of options.'''
    rep = bool(sx.bool('rep'))
    two = bool(sx.bool('two'))
    ps = [{'number': 1, 'complete': CH('p', 'pa')}]
    if two:
        ps.append({'number': 2, 'complete': CH('q')})
    if rep:
        ps[-1]['repeatable'] = True
    ps.reverse()
    if sx.bool('order'):
        ps.reverse()
    return [{'prog': 'prog', 'options': [option(['-a'], 'req', ('A',))], 'positionals': ps}], {}, 'apqA-'


def subcommands(sx):
    '''Subcommands with aliases, inherited options and positionals before them.'''
    before = bool(sx.bool('before'))
    conf = {'inherit_options': True} if sx.bool('inherit') else {}
    root = {'prog': 'prog', 'options': [option(['-a'], sx.choice('ka', ('flag', 'req')), ('A',)), option(['--aa'])]}
    if before:
        root['positionals'] = [{'number': 1, 'complete': CH('p')}]
    s1 = {'prog': 'prog s', 'aliases': ['t'], 'options': [option(['-b'], sx.choice('kb', KINDS), ('B',))],
          'positionals': [{'number': 1, 'complete': CH('q')}, {'number': 2, 'complete': CH('r'), 'repeatable': True}]}
    s2 = {'prog': 'prog st', 'options': [option(['-c'], 'flag')]}
    return [root, s1, s2], conf, 'stabcpqAB-'


def nested(sx):
    '''Two levels of subcommands.'''
    i0 = sx.choice('i0', ['INHERIT', True])
    i1 = sx.choice('i1', ['INHERIT', True])
    root = {'prog': 'prog', 'inherit_options': i0, 'options': [option(['-a'], 'req', ('A',))]}
    if sx.bool('before0'):
        root['positionals'] = [{'number': 1, 'complete': CH('p')}]
    s = {'prog': 'prog s', 'inherit_options': i1, 'options': [option(['-b'], 'opt', ('B',))]}
    if sx.bool('before1'):
        s['positionals'] = [{'number': 1, 'complete': CH('q', 'p')}]
    t = {'prog': 'prog s t', 'options': [option(['-c'], 'flag', final=True), option(['--cc'], 'req', ('C',))],
         'positionals': [{'number': 1, 'complete': CH('p')}]}
    u = {'prog': 'prog u', 'options': [option(['-c'], 'req', ('U',))]}
    return [root, s, t, u], {}, 'stuabcpA-'


def abbreviated(sx):
    '''Abbreviated options and subcommands.'''
    conf = {'abbreviate_options': True, 'abbreviate_commands': True}
    if sx.bool('inherit'):
        conf['inherit_options'] = True
    o1 = option([sx.choice('o1', ['--aab', '--aa', '-aab'])], sx.choice('k1', ('flag', 'req')), ('V',))
    o2 = option([sx.choice('o2', ['--abb', '--aabb', '-abb'])], sx.choice('k2', ('flag', 'opt')), ('W',))
    root = {'prog': 'prog', 'options': [o1, o2]}
    s1 = {'prog': 'prog sa', 'options': [option(['--bbb'], 'req', ('B',))]}
    s2 = {'prog': 'prog sbc', 'aliases': ['x'], 'options': [option(['-c'])]}
    return [root, s1, s2], conf, 'abscxV-='


def separators(sx):
    '''long_opt_arg_sep.'''
    s = sx.choice('sep', ['INHERIT', 'both', 'space', 'equals'])
    g = sx.choice('gsep', ['both', 'space', 'equals'])
    k = sx.choice('k', ('req', 'opt'))
    return [{'prog': 'prog', 'options': [option(['-a', '--aa', '-ab'], k, ('A', 'Ab'), long_opt_arg_sep=s),
                                         option(['--b'], 'req', ('B',))],
             'positionals': [{'number': 1, 'complete': CH('A', 'p')}]}], {'long_opt_arg_sep': g}, 'abAp-='


WHENS = [
    ('has', ['-a']),
    ('has', ['-a', '-b']),
    ('not', ('has', ['--aa'])),
    ('is', ['-b'], ['x', 'y'], False, False),
    ('is', ['-b'], ['x'], True, False),
    ('is', ['--bb', '-c'], ['x'], False, False),
    ('is', ['-b'], ['X'], False, True),
    ('is', ['-b', '-c'], ['Xy', 'x'], True, True),
    ('count', '==', 1),
    ('count', '>=', 1),
    ('count', '<', 1),
    ('count', '!=', 1),
    ('count', '>', 1),
    ('count', '<=', 1),
    ('contains', 1, ['x', 'p'], False),
    ('contains', 1, ['X'], True),
    ('and', ('has', ['-a']), ('is', ['-b'], ['x'], False, False)),
    ('or', ('has', ['-a']), ('is', ['-b'], ['x'], False, False)),
    ('and', ('or', ('has', ['-a']), ('has', ['-c'])), ('not', ('has', ['-b']))),
    ('or', ('has', ['-a']), ('and', ('has', ['-c']), ('not', ('has', ['-b'])))),
    ('or', ('and', ('has', ['-a']), ('has', ['-b'])), ('has', ['-c'])),
    ('not', ('or', ('has', ['-a']), ('has', ['-b']))),
    ('not', ('and', ('has', ['-a']), ('has', ['-b']))),
    ('and', ('not', ('has', ['-a'])), ('not', ('has', ['-b']))),
]


def when(sx):
    '''Options and positionals that appear under a condition.'''
    w = sx.choice('when', WHENS)
    on = sx.choice('on', ['flag', 'req', 'pos'])
    opts = [option(['-a', '--aa']), option(['-b', '--bb'], 'req', ('x', 'y'), repeatable=True),
            option(['-c'], 'opt', ('x',), repeatable=True)]
    d = {'prog': 'prog', 'options': opts, 'positionals': [{'number': 1, 'complete': CH('p')}]}
    if on == 'pos':
        d['positionals'].append({'number': 2, 'complete': CH('q'), 'repeatable': True, '__when': w})
    else:
        opts.append(option(['-d', '--dd'], on, ('D',), __when=w))
    return [d], {}, 'abcdxXyp-='


FAMILIES = {f.__name__: f for f in (kinds, clusters, attributes, positionals, subcommands, nested, abbreviated,
                                    separators, when)}
