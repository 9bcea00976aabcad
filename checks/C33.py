"""Outside estimates for A* parsing."""
from plib import Gram, eq, le
import C25
import C26
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'estimates',
        'probe']
OUTSIDE = ('Sentences longer than the maximum length for which estimates were '
        'computed; floating-point rounding (exact reals); getpcfgestimatesrec '
        '(documented not to support unary rules); the C++ containers, which '
        'are modelled.')
ASSUMPTIONS = ['C++ containers behave as documented']


def makegrammar(ctx):
    p = ctx.params
    rules = [tuple(r) for r in p['rules']]
    for r in p.get('maybe', ()):
        if ctx.flag('rule'):
            rules.append(tuple(r))
    lexicon = list(p['lexicon'])
    if isinstance(rules[0][0], (tuple, list)):
        rules = [(tuple(r), tuple(map(tuple, yf))) for r, yf in rules]
    bare = [r[0] if isinstance(r[0], tuple) else r for r in rules]
    seen = [r[0] for r in bare] + [a for a, _ in lexicon]
    for r in bare:
        for a in r[1:]:
            ctx.assume(a in seen)
    n = len(rules) + len(lexicon)
    cost = [ctx.real('c', 0.25, 8) if m in p.get('symbolic', ())
            else p['cost'][m] if 'cost' in p
            else (1 + (m * 3) % n) / 4. for m in range(n)]
    return bare, Gram(ctx, rules, lexicon, fixed=cost)


def lowest(ctx, a, b):
    if a is None or b is None:
        return b if a is None else a
    if type(a) in (int, float) and type(b) in (int, float):
        return min(a, b)
    return ctx.If(a <= b, a, b)


def add(*args):
    if any(a is None for a in args):
        return None
    return sum(args[1:], args[0])


def reference(ctx, gr, rules, maxlen):
    """Cost of cheapest derivation of n words with X, and of the cheapest
    context of an X with given numbers of words to its left and right."""
    inside = [{} for _ in range(maxlen + 1)]
    for m, (tag, _) in enumerate(gr.lexicon):
        inside[1][tag] = lowest(ctx, inside[1].get(tag), gr.lexcost[m])
    unaries = [(m, r) for m, r in enumerate(rules) if len(r) == 2]
    binaries = [(m, r) for m, r in enumerate(rules) if len(r) == 3]
    for n in range(1, maxlen + 1):
        now = inside[n]
        for m, r in binaries:
            for k in range(1, n):
                now[r[0]] = lowest(ctx, now.get(r[0]), add(gr.cost[m],
                        inside[k].get(r[1]), inside[n - k].get(r[2])))
        for _ in unaries:
            for m, r in unaries:
                now[r[0]] = lowest(ctx, now.get(r[0]), add(gr.cost[m],
                        now.get(r[1])))
    outside = {('S', 0, 0): 0}
    for t in range(maxlen):
        for left in range(t + 1):
            right = t - left

            def update(x, c):
                outside[x, left, right] = lowest(ctx, outside.get(
                        (x, left, right)), c)
            for m, r in binaries:
                for k in range(1, right + 1):
                    update(r[1], add(gr.cost[m], inside[k].get(r[2]),
                            outside.get((r[0], left, right - k))))
                for k in range(1, left + 1):
                    update(r[2], add(gr.cost[m], inside[k].get(r[1]),
                            outside.get((r[0], left - k, right))))
            for _ in unaries:
                for m, r in unaries:
                    update(r[1], add(gr.cost[m], outside.get(
                            (r[0], left, right))))
    return inside, outside


def pcfg(ctx):
    """The estimate for a PCFG is the cost of the cheapest context."""
    p = ctx.params
    rules, gr = makegrammar(ctx)
    maxlen = p['maxlen']
    got = ctx.mod('estimates').getpcfgestimates(gr.grammar, maxlen, 'S')
    _, outside = reference(ctx, gr, rules, maxlen)
    pr = ctx.mod('probe')
    for lab in gr.labels:
        no = pr.labelid(gr.grammar, lab)
        for left in range(maxlen):
            for right in range(maxlen - left):
                a = got[no, left, right, 0]
                b = outside.get((lab, left, right))
                if b is None:
                    ctx.check(a == float('inf'), 'no such context')
                else:
                    ctx.check(type(a) is not float or a < 1e300,
                            'there is a context')
                    ctx.check(eq(a, b), 'cost of cheapest context')
                    ctx.reach('estimate')


def contexts(ctx, gr, edges, inside, root):
    """Cheapest context of items in derivations of the sentence."""
    result = {root: 0}
    for _ in edges:
        done = True
        for x in edges:
            if x not in result:
                continue
            for kind, no, a, b in edges[x]:
                for y, z in ((a, b), (b, a)):
                    if y is None:
                        continue
                    c = add(result[x], gr.cost[no],
                            inside[z] if z is not None else 0)
                    if y not in result or c < result[y]:
                        result[y] = c
                        done = False
        if done:
            break
    return result


def best(gr, edges):
    result = {}
    while True:
        done = True
        for x in edges:
            for e in edges[x]:
                if all(y is None or y in result for y in e[2:]):
                    c = C25.edgecost(gr, e, result)
                    if x not in result or c < result[x]:
                        result[x] = c
                        done = False
        if done:
            return result


def parse(ctx):
    """Estimates are lower bounds on the cost of the context of an item, and
    A* parsing with them gives the best derivation."""
    p = ctx.params
    rules, gr = makegrammar(ctx)
    sent = C25.sentence(ctx, p)
    n = len(sent)
    maxlen = p['maxlen']
    pr = ctx.mod('probe')
    if p['type'] == 'SX':
        est = ctx.mod('estimates').getpcfgestimates(gr.grammar, maxlen, 'S')
    else:
        est = ctx.mod('estimates').getestimates(gr.grammar, maxlen, 'S')
    edges = C26.closure(gr, sent)
    root = ('S', tuple(range(n)))
    inside = best(gr, edges)
    if root in edges:
        outside = contexts(ctx, gr, edges, inside, root)
        for lab, pos in outside:
            no = pr.labelid(gr.grammar, lab)
            left, right = pos[0], n - 1 - pos[-1]
            if p['type'] == 'SX':
                a = est[no, left, right, 0]
            else:
                a = est[no, len(pos), left + right,
                        n - left - right - len(pos)]
            ctx.check(le(a, outside[lab, pos]), 'estimate is a lower bound')
            ctx.reach('bound')
    chart, _ = C26.parser(ctx, p)(sent, gr.grammar, exhaustive=False,
            estimates=(p['type'], est))
    ctx.check(bool(chart) == (root in edges), 'parse succeeds')
    if root in edges:
        ctx.check(eq(pr.cost(chart, chart.root()), inside[root]),
                'best derivation')
        ctx.reach('parse')


PC = dict(rules=[('S', 'A', 'B'), ('A', 'A', 'B'), ('S', 'B')],
        maybe=[('B', 'B', 'A'), ('A', 'B'), ('B', 'A', 'A')],
        lexicon=[('A', 'a'), ('B', 'a'), ('B', 'b')], words=['a', 'b'])
# more rules with a given left or right child than there are labels
MANY = dict(rules=[('S', 'T'), ('T', 'A', 'A'), ('T', 'A', 'B'),
            ('T', 'A', 'T'), ('A', 'A', 'A'), ('A', 'A', 'B'),
            ('A', 'A', 'T'), ('B', 'A', 'A'), ('B', 'A', 'B'),
            ('B', 'A', 'T')],
        lexicon=[('A', 'a'), ('B', 'b'), ('T', 'b')], words=['a', 'b'])
MANR = dict(MANY, rules=[r if len(r) == 2 else (r[0], r[2], r[1])
        for r in MANY['rules']])
# the left child is the last to be found
LAST = dict(rules=[('S', 'T'), ('T', 'A', 'B'), ('T', 'A', 'U'),
            ('V', 'A', 'U'), ('V', 'A', 'B'), ('V', 'A', 'T'),
            ('V', 'A', 'A'), ('V', 'A', 'V'), ('U', 'A', 'U'),
            ('U', 'B', 'B'), ('U', 'B', 'U'), ('U', 'U', 'B'),
            ('U', 'U', 'U'), ('U', 'T', 'T')],
        lexicon=[('B', 'b'), ('U', 'b'), ('A', 'a'), ('T', 'b')],
        words=['a', 'b'],
        cost=[0, 1, 1, 1, 1, 1, 1, 1, 2, 8, 8, 8, 8, 8, 0.75, 0.25, 4, 0.75])
LASTR = dict(LAST, rules=[r if len(r) == 2 else (r[0], r[2], r[1])
        for r in LAST['rules']])
UN = dict(rules=[('S', 'X'), ('S', 'Y', 'X'), ('X', 'Y'), ('Y', 'Z'),
            ('Z', 'X', 'Y')], maybe=[('X', 'Z'), ('Y', 'X')],
        lexicon=[('Z', 'a'), ('Y', 'b')], words=['a', 'b'])
LG = dict(rules=[(('S', 'P', 'A'), ((0, 1, 0), )),
            (('P', 'A', 'B'), ((0, ), (1, ))),
            (('P', 'P', 'A'), ((0, ), (0, 1))), (('S', 'B', 'A'), ((0, 1), ))],
        maybe=[(('P', 'A', 'P'), ((1, ), (1, 0))),
            (('B', 'A', 'B'), ((0, 1), ))],
        lexicon=[('A', 'a'), ('B', 'a')], words=['a'])
LG3 = dict(rules=[(('S', 'P', 'Q'), ((0, 1, 0, 1), )),
            (('P', 'A', 'A'), ((0, ), (1, ))),
            (('Q', 'B', 'A'), ((0, ), (1, ))),
            (('P', 'P', 'B'), ((0, 1), (0, )))],
        maybe=[(('Q', 'P', 'B'), ((0, ), (0, 1))),
            (('S', 'Q', 'P'), ((0, 1, 0), ))],
        lexicon=[('A', 'a'), ('B', 'a')], words=['a'])


def lcfrs(d):
    """PCFG as LCFRS."""
    def conv(rules):
        return [(r, ((0, 1), ) if len(r) == 3 else ((0, ), )) for r in rules]
    return dict(d, rules=conv(d['rules']), maybe=conv(d.get('maybe', ())))


HARNESSES = {
    'pcfg': dict(fn=pcfg, reach=['estimate'], params=dict(
        quick=[
            dict(PC, maxlen=3, symbolic=[0]),
            dict(MANY, maxlen=3, symbolic=[10]),
            dict(MANR, maxlen=3, symbolic=[10]),
            dict(LAST, maxlen=3, symbolic=[8]),
            dict(LASTR, maxlen=3, symbolic=[8]),
            dict(UN, maxlen=3, symbolic=[2]),
            ],
        thorough=[
            dict(PC, maxlen=4, symbolic=[0, 3, 6]),
            dict(PC, maxlen=5, symbolic=[2]),
            dict(MANY, maxlen=4, symbolic=[1, 10]),
            dict(MANR, maxlen=4, symbolic=[1, 10]),
            dict(LAST, maxlen=4, symbolic=[8, 15, 16]),
            dict(LASTR, maxlen=4, symbolic=[8, 15, 16]),
            dict(UN, maxlen=4, symbolic=[2, 3]),
            ])),
    'parse': dict(fn=parse, reach=['parse', 'bound'], params=dict(
        quick=[
            dict(lcfrs(PC), type='SX', sizes=[1, 2, 3], maxlen=3),
            dict(lcfrs(UN), type='SX', sizes=[2, 3], maxlen=4),
            dict(LG, type='SXlrgaps', sizes=[2, 3, 4], maxlen=4),
            dict(LG, type='SXlrgaps', sizes=[3], maxlen=3, symbolic=[1]),
            dict(LG3, type='SXlrgaps', sizes=[3, 4], maxlen=5),
            dict(lcfrs(LAST), type='SXlrgaps', sizes=[3], maxlen=3),
            ],
        thorough=[
            dict(lcfrs(PC), type='SX', sizes=[2, 3, 4], maxlen=4),
            dict(lcfrs(PC), type='SX', sizes=[3], maxlen=3,
                symbolic=[0, 6]),
            dict(lcfrs(PC), type='SXlrgaps', sizes=[2, 3, 4], maxlen=4),
            dict(lcfrs(UN), type='SX', sizes=[2, 3, 4], maxlen=4,
                symbolic=[3]),
            dict(LG, type='SXlrgaps', sizes=[2, 3, 4, 5], maxlen=5),
            dict(LG, type='SXlrgaps', sizes=[3, 4], maxlen=4,
                symbolic=[1, 6]),
            dict(LG3, type='SXlrgaps', sizes=[3, 4, 5], maxlen=5),
            dict(LG3, type='SXlrgaps', sizes=[4], maxlen=4,
                symbolic=[1, 3]),
            dict(lcfrs(LAST), type='SXlrgaps', sizes=[3], maxlen=3,
                symbolic=[8]),
            ])),
}
