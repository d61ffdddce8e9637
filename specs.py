'''Which harnesses decide which property.'''

from symx.spec import H, Prop

PROPS = {}


def prop(pid, harnesses, **kw):
    PROPS[pid] = Prop(pid, harnesses, **kw)


def bash(family, quick, thorough=None, pads=(False, True), **kw):
    return [H('harness.bashlines:lines', {'family': family, 'pad': pad, 'lens': quick, **kw},
              {'lens': thorough} if thorough else None, covers=['suggestions'],
              bounds='command lines of words of up to the given lengths over the family\'s characters')
            for pad in pads]


def fish(family, quick, thorough=None, **kw):
    return [H('harness.fishlines:lines', {'family': family, 'lens': quick, **kw},
              {'lens': thorough} if thorough else None, covers=['entries'],
              bounds='command lines of words of up to the given lengths over the family\'s characters')]


def zsh(family, quick, thorough=None, **kw):
    return [H('harness.zshlines:lines', {'family': family, 'lens': quick, **kw},
              {'lens': thorough} if thorough else None, covers=['specifications'],
              bounds='command lines of words of up to the given lengths over the family\'s characters')]


prop('C01', [
    H('harness.quoting:quote_one', {'shell': sh, 'n': 4}, {'n': 6}, covers=['full length'],
      bounds='text of up to n characters over the full alphabet without NUL')
    for sh in ('bash', 'zsh', 'fish')
] + [
    H('harness.quoting:join_two', {'shell': sh, 'n': 2}, {'n': 3}, covers=['done'],
      bounds='two words of up to n characters each')
    for sh in ('bash', 'zsh', 'fish')
])

prop('C08', [
    H('harness.globs:regex_same', {'n': 4, 'm': 2}, {'n': 5, 'm': 3}, covers=['translated', 'rejected'],
      bounds='globs of up to n characters, names of m characters'),
    H('harness.globs:zsh_same', {'n': 4, 'm': 2}, {'n': 5, 'm': 3}, covers=['translated', 'rejected'],
      bounds='globs of up to n characters, names of m characters'),
])

prop('C25', [
    H('harness.globs:extensions', {'shell': sh, **q}, t, covers=['fuzzy', 'exact'],
      bounds='k extensions of up to n characters, names of m characters')
    for sh in ('bash', 'zsh', 'fish')
    for q, t in (({'n': 2, 'k': 1, 'm': 5, 'chars': 'few'}, {'n': 3, 'm': 6}),
                 ({'n': 1, 'k': 2, 'm': 4, 'chars': 'few'}, {'n': 2, 'm': 5}),
                 ({'n': 1, 'k': 1, 'm': 3, 'chars': 'many'}, {'m': 4}))
])

prop('C04', [
    H('harness.patterns:exact', {'chars': 'digits', 'n': 2, 'k': 3, 'm': 4}, {'k': 4, 'm': 4}, covers=['done'],
      bounds='k strings of up to n characters against texts of up to m characters'),
    H('harness.patterns:exact', {'chars': 'names', 'n': 3, 'k': 2, 'm': 4}, {'n': 3, 'k': 3, 'm': 5}, covers=['done'],
      bounds='k strings of up to n characters against texts of up to m characters'),
    H('harness.patterns:exact', {'chars': 'wide', 'n': 1, 'k': 3, 'm': 2}, {'k': 3, 'm': 3}, covers=['done'],
      bounds='k strings of up to n characters against texts of up to m characters'),
])

prop('C05', [
    H('harness.patterns:abbreviations', {'kind': kind, 'n': 4, 'k': 3}, {'n': 5, 'k': 4}, covers=['done'],
      bounds='k words of up to n characters')
    for kind in ('options', 'commands')
] + bash('abbreviated', [4, 3], [4, 4]))

prop('C07', [
    H('harness.conditions:text', {'n': 6}, {'n': 7}, covers=['accepted', 'rejected'],
      bounds='conditions of up to n arbitrary characters'),
    H('harness.conditions:operators', {'k': 6}, {'k': 8}, covers=['accepted', 'rejected'],
      bounds='conditions of up to k words and operators'),
])
prop('C06', bash('when', [3, 2], [3, 3], (False,)) + bash('when', [2, 1], [3, 2], heads=['', '--bb=', '-'])
     + bash('when', [1, 1, 0], [2, 1, 1], (True,), heads=['-', '-b'])
     + fish('when', [2, 1], [3, 1], heads=['', '-', '--bb='])  + fish('when', [1, 1, 0], [2, 2, 0])
     + zsh('when', [3, 1], [3, 2]) + zsh('when', [2, 1, 0], [2, 2, 1], heads=['', '-', '--bb=']))

prop('C09', bash('kinds', [2, 3], [3, 4], (False,)) + bash('kinds', [2, 2], [3, 3], heads=['', '--aa', '--ab='])
     + bash('clusters', [3, 3], [4, 4], (False,)) + bash('clusters', [2, 3], [4, 4], (True,)) + bash('separators', [2, 2], [3, 3], heads=['', '-a', '--aa'])
     + bash('kinds', [1, 1, 1], [2, 2, 2], (True,), heads=['', '-']))

prop('C10', bash('attributes', [2, 1], [3, 2], heads=['-', '--cc']) + bash('attributes', [2, 2, 1], [2, 2, 2], (False,))
     + bash('kinds', [3, 1], None, heads=['-', '--aa=']) + bash('subcommands', [2, 1, 2], [2, 2, 2], (False,))
     + bash('nested', [2, 1, 1, 2], None))

prop('C13', bash('positionals', [2, 2, 2], [2, 2, 2, 2]) + bash('positionals', [2, 2, 2], None, (False,), after=[1])
     + bash('subcommands', [2, 2, 2], [2, 2, 2, 2]) + bash('nested', [1, 1, 2], [2, 2, 2, 2])
     + bash('nested', [1, 1, 1, 2], [2, 1, 1, 2]) + bash('nested', [1, 1, 1, 2, 2], [2, 1, 1, 1, 2, 2]))

prop('C11', fish('kinds', [3, 2], [4, 2]) + fish('kinds', [2, 1, 1], [2, 2, 2], heads=['', '-', '--a'])
     + fish('clusters', [4, 1], [5, 1]) + fish('attributes', [1, 2], [2, 2], heads=['', '-', '--cc'])
     + fish('positionals', [2, 2, 1], [2, 2, 2, 1]) + fish('subcommands', [2, 2, 2, 1], [2, 2, 2, 2, 1]) + fish('nested', [1, 1, 1, 1], [2, 2, 1, 1, 1]))

prop('C12', zsh('subcommands', [2, 2, 2], [2, 2, 2, 2]) + zsh('nested', [1, 1, 1, 1], [2, 2, 1, 1]) + zsh('kinds', [2, 2, 1], [3, 2, 2])
     + zsh('kinds', [2, 1], [3, 2], heads=['', '--aa=', '-']) + zsh('clusters', [3, 1], [4, 2]) + zsh('attributes', [2, 1], [3, 2], heads=['-', '--cc'])
     + zsh('positionals', [2, 2, 1], [2, 2, 2, 2]) + zsh('separators', [2, 2], [3, 3], heads=['', '-a', '--aa']))

prop('C03', [H('harness.zshtext:' + f, {'n': q}, {'n': t}, covers=['done'], bounds='texts of up to n arbitrary characters')
             for f, q, t in (('description', 3, 4), ('metavar', 3, 4), ('names', 2, 3), ('choices', 2, 3), ('commands', 1, 2))])

prop('C02', [H('harness.fishtext:' + f, q, t, covers=['done'], bounds='texts of up to n arbitrary characters')
             for f, q, t in (('description', {'n': 3}, {'n': 4}), ('names', {'n': 2, 'n_b': 1}, {'n': 2, 'n_b': 2}),
                             ('choices', {'n': 2}, {'n': 3}), ('commands', {'n': 1}, {'n': 2}), ('conditions', {'n': 2}, {'n': 3}))])

prop('C26', [H('harness.bashtext:' + f, q, t, covers=['done'], bounds='texts of up to n printable ASCII characters')
             for f, q, t in (('names', {'n': 1, 'pad': False}, {'n': 2}), ('names', {'n': 1, 'pad': True}, {'n': 2}), ('pairs', {'n': 1, 'heads': ['', 'a']}, {'n': 2}),
                             ('choices', {'n': 1}, {'n': 2}), ('commands', {'n': 1, 'pad': False}, {'n': 2}),
                             ('commands', {'n': 1, 'pad': True}, {'n': 2}), ('conditions', {'n': 1}, {'n': 2}))])

prop('C19', [H('harness.funcnames:' + f, {'shell': sh, **q}, t, covers=['done'], bounds='names of up to n characters')
             for sh in ('bash', 'zsh', 'fish')
             for f, q, t in (('commands', {'n': 2}, {'n': 3}), ('values', {'n': 1}, {'n': 2}), ('prog', {'n': 2}, {'n': 3}))])

prop('C23', [H('harness.lists:value_list', {'shell': sh, 'sep': sep, 'n': 3, 'heads': ['', 'aa' + sep]}, {'n': 4, 'heads': ['', 'aa' + sep, 'ab' + sep + 'b' + sep]},
               covers=['done'], bounds='words of up to n symbolic characters after the given beginnings') for sh in ('bash', 'fish') for sep in ',:.']
     + [H('harness.lists:pairs', {'shell': sh, 'sep': sep, 'eq': eq, 'n': 2, 'heads': ['', 'fa' + sep, 'ex' + sep, 'fb' + eq, 'fb' + eq + 'x', 'ra' + eq + 'x' + sep, 'ky' + eq]},
          {'n': 3}, covers=['done'], bounds='words of up to n symbolic characters after the given beginnings') for sh in ('bash', 'fish') for sep, eq in (',=', ':+', ';:')]
     + [H('harness.lists:prefix', {'shell': sh, 'pre': p, 'n': 3, 'heads': ['', p]}, {'n': 4}, covers=['done'],
          bounds='words of up to n symbolic characters after the given beginnings') for sh in ('bash', 'fish') for p in ('p:', '+q', 'x')])

prop('C14', [H('harness.convert:roundtrip', {'what': 'texts', 'to': to, 'place': place, 'n': n}, {'n': n + 1}, covers=['done'],
               bounds='texts of up to n characters')
             for to, n in (('yaml', 2), ('json', 2), ('dictionaries', 3))
             for place in ('help', 'metavar', 'values', 'groups', 'names', 'command')]
     + [H('harness.convert:roundtrip', {'what': 'flags', 'to': to, 'all': False}, {'all': True}, covers=['done'], bounds='every combination of the fields of an option, positional or command')
        for to in ('yaml', 'json', 'dictionaries')])

SCALARS = ['', '0x', '1', '-.', '1e', '2020-01-', 'tru', 'O', 'nul', '~', '!!str ', '!!int ', "'", '"\\']
prop('C20', [
    H('harness.yamlvalues:agree', {'around': ['prog: p\nhelp: ', '\n'], 'n': 2, 'heads': SCALARS, 'chars': '01afeEnxlOs_:.-+~=! #"\''}, {'n': 3}, covers=['done'],
      bounds='plain and quoted scalars of up to n characters after the given beginnings'),
    H('harness.yamlvalues:agree', {'around': ['', '\n'], 'n': 4, 'chars': 'a1-: \n[]{},?'}, {'n': 5, 'chars': 'a1-: \n[]{},?\'"&*!#<='}, covers=['done'],
      bounds='documents of up to n characters'),
    H('harness.yamlvalues:agree', {'around': ['prog: p\nhelp:', '\n'], 'n': 4, 'chars': 'a -:\n|>'}, {'n': 6}, covers=['done'],
      bounds='documents with a field of up to n characters'),
])

BASES = ['option', 'positional+command_arg+reversed', 'command', 'choices+described+combine+command_append+command_path+date',
         'directory+directory_list+exec+exec_fast+exec_internal+file+file_list', 'float+integer+history+ip_address',
         'key_value_list', 'key_value_pair+key_value_list_exec+key_value_pair_exec', 'list+mime_file+none+prefix+range',
         'value_list+value_list_dict+void+void2+void3+void4']
prop('C16', [
    H('harness.validation:mutated', {'base': b, 'in': 'option' if i % 2 else 'positional', 'n': n, 'two': two}, {'n': 2, 'two': 2 * two},
      covers=['refused'] if two else ['accepted', 'refused'],
      bounds='one value of the definition (two: and one value beside or below it) replaced by, or extended with, values of every type; '
      'texts of up to n characters')
    for two, n in ((0, 2), (1, 0)) for i, b in enumerate(BASES)
])
