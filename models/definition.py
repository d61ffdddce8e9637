'''What a command line object says, as plain values.'''

OPTION = ['option_strings', 'metavar', 'help', 'optional_arg', 'groups', 'repeatable', 'final', 'hidden', 'complete',
          'nosort', 'when', 'capture', 'long_opt_arg_sep']
POSITIONAL = ['number', 'metavar', 'help', 'repeatable', 'complete', 'nosort', 'when', 'capture']
COMMAND = ['prog', 'help', 'aliases', 'wraps', 'abbreviate_commands', 'abbreviate_options', 'inherit_options']


def plain(x):
    '''Values that mean the same compare equal.'''
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, 'items'):
        return {'dict': [[plain(k), plain(v)] for k, v in x.items()]}
    return x


def fields(obj, names):
    out = []
    for n in names:
        v = plain(getattr(obj, n))
        if n == 'complete' and not v:
            v = None
        out.append([n, v])
    return out


def describe(cl):
    subs = cl.get_subcommands()
    return [fields(cl, COMMAND), [fields(o, OPTION) for o in cl.options], [fields(p, POSITIONAL) for p in cl.positionals],
            [describe(c) for c in subs.subcommands] if subs else []]


def same(sx, a, b, msg, where=''):
    '''Check that two plain values are equal, part by part.'''
    if isinstance(a, list):
        sx.check(isinstance(b, list) and len(a) == len(b), msg + where)
        for i, (x, y) in enumerate(zip(a, b)):
            same(sx, x, y, msg, where or (': ' + a[0] if len(a) == 2 and isinstance(a[0], str) and where == '' else ''))
    elif hasattr(a, 'items'):
        sx.check(hasattr(b, 'items') and len(a) == len(b), msg + where)
        for k in a:
            sx.check(k in b, msg + where)
            same(sx, a[k], b[k], msg, where)
    else:
        sx.check(type(a) is type(b), msg + where)
        sx.check(a == b, msg + where)
