'''Declaration of properties and their harnesses.'''


class H:
    '''One harness: 'module:function', parameters per tier, covers that must be reached.'''

    def __init__(self, target, quick=None, thorough=None, covers=(), bounds='',
                 nsamples=24, timeout=(300, 3000)):
        self.target = target
        self.quick = dict(quick or {})
        self.thorough = {**self.quick, **(thorough or {})}
        self.covers = tuple(covers)
        self.bounds = bounds
        self.nsamples = nsamples
        self.timeout = timeout

    def params(self, tier):
        return dict(self.thorough if tier == 'thorough' else self.quick)

    def label(self):
        return self.target + (' ' + ','.join(f'{k}={v}' for k, v in self.quick.items()) if self.quick else '')


class Prop:
    def __init__(self, pid, harnesses, outside='', assumptions=()):
        self.id = pid
        self.harnesses = harnesses
        self.outside = outside
        self.assumptions = list(assumptions)
