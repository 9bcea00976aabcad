"""Agenda: priority queue with decrease-key and removal."""
NEEDS = ['bit']
OUTSIDE = ('Histories longer than the stated number of operations; keys '
        'other than three distinct ones; values that are not integers '
        '(any totally ordered values behave alike: the code only uses < '
        'and ==).')
ASSUMPTIONS = ['priorities are mathematical integers']


class Model:
    """Reference: list of (key, value) in order of first insertion."""
    def __init__(self):
        self.items = []

    def idx(self, key):
        for n, (k, _) in enumerate(self.items):
            if k == key:
                return n
        return -1

    def set(self, key, value):
        n = self.idx(key)
        if n == -1:
            self.items.append((key, value))
        else:
            self.items[n] = (key, value)

    def best(self):
        b = 0
        for n in range(1, len(self.items)):
            if self.items[n][1] < self.items[b][1]:
                b = n
        return b


def state(ctx, ag, model):
    ctx.check(len(ag) == len(model.items), 'length of agenda')
    ctx.check(bool(ag) == bool(model.items), 'truth value of agenda')
    for k, v in model.items:
        ctx.check(k in ag, 'inserted key missing')
        ctx.check(ag[k] == v, 'value stored for key')


def drain(ctx, ag, model):
    while model.items:
        n = model.best()
        k, v = model.items.pop(n)
        gk, gv = ag.popitem()
        ctx.check(gv == v, 'popitem returns best value')
        ctx.check(gk == k, 'popitem returns first inserted of best')
    ctx.check(len(ag) == 0 and not ag, 'agenda empty after draining')
    try:
        ag.popitem()
    except IndexError:
        pass
    else:
        ctx.fail('popitem on empty agenda')


def history(ctx):
    """Any history of at most n operations, then draining, behaves like the
    reference list model."""
    ag = ctx.mod('util').PyAgenda()
    model = Model()
    ops = ctx.params['ops']
    vals = []
    for i in range(ctx.params['n']):
        op = ctx.pick('op', ops)
        if op == 'set' or op == 'update':
            k, v = ctx.choice('key', ctx.params['keys']), ctx.int('val', 0, 99)
            if op == 'set':
                ag[k] = v
            else:
                ag.update([(k, v)])
            model.set(k, v)
        elif op == 'del' or op == 'pop':
            k = ctx.choice('key', ctx.params['keys'])
            n = model.idx(k)
            try:
                if op == 'del':
                    del ag[k]
                else:
                    got = ag.pop(k)
            except KeyError:
                ctx.check(n == -1, 'removal of existing key raised KeyError')
            else:
                ctx.check(n != -1, 'removal of missing key')
                if op == 'pop':
                    ctx.check(got == model.items[n][1],
                            'pop(key) returns its value')
                model.items.pop(n)
        elif op == 'popitem' or op == 'popnone':
            try:
                got = (ag.popitem() if op == 'popitem'
                        else (None, ag.pop(None)))
            except IndexError:
                ctx.check(not model.items, 'popitem raised on nonempty')
            else:
                ctx.check(bool(model.items), 'popitem on empty agenda')
                k, v = model.items.pop(model.best())
                ctx.check(got[1] == v, 'popitem returns best value')
                if op == 'popitem':
                    ctx.check(got[0] == k, 'popitem returns best key')
        elif op == 'peek':
            try:
                k, v = ag.peekitem()
            except IndexError:
                ctx.check(not model.items, 'peekitem raised on nonempty')
            else:
                ctx.check(bool(model.items), 'peekitem on empty agenda')
                b = model.items[model.best()]
                ctx.check(v == b[1], 'peekitem returns best value')
                ctx.check(k == b[0], 'peekitem returns best key')
        elif op == 'clear':
            ag.clear()
            model.items = []
        ctx.reach(op)
        ctx.check(len(ag) == len(model.items), 'length of agenda')
    state(ctx, ag, model)
    ctx.observe([[k, v] for k, v in model.items], len(ag))
    drain(ctx, ag, model)


def initial(ctx):
    """Construction from an iterable keeps the best value of duplicate keys
    and insertion order among equal values."""
    n = ctx.params['n']
    pairs = [(ctx.choice('key', ctx.params['keys']), ctx.int('val', 0, 99))
            for _ in range(n)]
    ag = ctx.mod('util').PyAgenda(pairs)
    model = Model()
    for k, v in pairs:
        i = model.idx(k)
        if i == -1 or v < model.items[i][1]:
            model.set(k, v)
    ctx.reach('init')
    state(ctx, ag, model)
    ctx.check(sorted(ag.keys()) == sorted(k for k, _ in model.items), 'keys')
    ctx.observe(len(ag), [v for _, v in pairs])
    drain(ctx, ag, model)


def ties(ctx):
    """Insert n items with priorities 0 or 1, then update, remove and pop:
    equal priorities leave in insertion order."""
    n = ctx.params['n']
    ag = ctx.mod('util').PyAgenda()
    model = Model()
    for k in range(n):
        v = ctx.int('val', 0, 1) if ctx.params['vals'] else 0
        ag[k] = v
        model.set(k, v)
    for _ in range(ctx.params['m']):
        op = ctx.pick('op', ctx.params['ops'])
        if op == 'popitem':
            k, v = ag.popitem()
            w = model.items.pop(model.best())
            ctx.check(k == w[0], 'ties leave in insertion order')
            continue
        k = ctx.choice('which', n)
        if op == 'pop':
            if model.idx(k) != -1:
                ag.pop(k)
                model.items.pop(model.idx(k))
        else:
            v = ctx.int('newval', 0, 1)
            ag[k] = v
            model.set(k, v)
    ctx.reach('ties')
    ctx.observe(len(ag))
    drain(ctx, ag, model)


ALLOPS = ['set', 'popitem', 'peek', 'del', 'pop', 'clear', 'update', 'popnone']
BASIC = ['set', 'popitem', 'peek', 'del']
TIES = ['popitem', 'pop', 'set']
HARNESSES = {
    'history': dict(fn=history, reach=['set', 'popitem', 'peek', 'del'],
        params=dict(
            quick=[dict(n=3, keys=2, ops=ALLOPS),
                dict(n=4, keys=3, ops=BASIC),
                dict(n=5, keys=2, ops=BASIC)],
            thorough=[dict(n=4, keys=3, ops=ALLOPS),
                dict(n=5, keys=3, ops=BASIC),
                dict(n=6, keys=2, ops=BASIC)])),
    'initial': dict(fn=initial, reach=['init'], params=dict(
        quick=[dict(n=3, keys=2), dict(n=4, keys=4)],
        thorough=[dict(n=3, keys=3), dict(n=5, keys=4)])),
    'ties': dict(fn=ties, reach=['ties'], params=dict(
        quick=[dict(n=12, m=2, vals=False, ops=['pop', 'popitem']),
            dict(n=4, m=3, vals=True, ops=TIES)],
        thorough=[dict(n=14, m=3, vals=False, ops=['pop', 'popitem']),
            dict(n=5, m=3, vals=True, ops=TIES)])),
}
