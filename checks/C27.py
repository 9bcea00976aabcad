"""k-best extraction: the k best derivations of a chart, in order."""
import tlib
from plib import Gram, eq, le
import C25
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'probe']
OUTSIDE = ('Charts with cycles of rules with cost zero; derivations deeper '
        'than 200 levels; larger k and charts than stated; floating-point '
        'rounding (exact reals); the C++ containers, which are modelled.')
ASSUMPTIONS = ['costs are positive reals', 'C++ containers behave as '
        'documented']


def derivations(edges, item, gr, cost, limit=None, above=()):
    """All derivations of item as (string, cost); without repeating items
    along a path when there are cycles."""
    result = []
    if item in above:
        return result
    above = above + (item, )
    for kind, no, a, b in edges[item]:
        if kind == 'lex':
            result.append(('(%s %d)' % (item[0], item[1]), gr.lexcost[no]))
            continue
        for s, c in derivations(edges, a, gr, cost, limit, above):
            if b is None:
                result.append(('(%s %s)' % (item[0], s), gr.cost[no] + c))
                continue
            for t, d in derivations(edges, b, gr, cost, limit, above):
                result.append(('(%s %s %s)' % (item[0], s, t),
                        gr.cost[no] + c + d))
    return result


def check(ctx, got, want, k):
    ctx.check(len(got) == min(k, len(want)), 'number of derivations')
    ctx.check(len(set(s for s, _ in got)) == len(got),
            'derivations are distinct')
    costs = dict(want)
    for s, c in got:
        ctx.check(s in costs, 'derivation of the chart')
        ctx.check(eq(c, costs[s]), 'cost of derivation')
    for (_, c), (_, d) in zip(got, got[1:]):
        ctx.check(le(c, d), 'ordered by cost')
    seen = [s for s, _ in got]
    for s, c in want:
        if s not in seen and got:
            ctx.check(le(got[-1][1], c), 'no better derivation is missing')
            ctx.reach('cut off')
    if len(want) <= k:
        ctx.reach('all')


def kbest(ctx):
    p = ctx.params
    gr = C25.grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    k = ctx.pick('k', p['k'])
    n = len(sent)
    white = None
    if p.get('sparse'):
        pr = ctx.mod('probe')
        gr.grammar.getmapping(gr.grammar)
        ids = [pr.labelid(gr.grammar, lab) for lab in gr.labels]
        white = pr.cfgwhitelist(gr.grammar,
                [ids for _ in range(pr.cell(n - 1, n, n, 1) + 1)])
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar, whitelist=white)
    edges = C25.closure(gr, sent)
    if ('S', 0, n) not in edges:
        try:
            ctx.mod('kbest').lazykbest(chart, k)
        except ValueError:
            ctx.reach('no parse')
        else:
            ctx.fail('k-best of chart without parse')
        return
    want = derivations(edges, ('S', 0, n), gr, None)
    ctx.check(len(set(s for s, _ in want)) == len(want), 'reference')
    got = ctx.mod('kbest').lazykbest(chart, k)
    check(ctx, got, want, k)
    if p.get('again'):
        # results do not depend on earlier extractions
        k2 = ctx.pick('k', p['k'])
        check(ctx, ctx.mod('kbest').lazykbest(chart, k2), want, k2)
    ctx.reach('kbest')
    ctx.observe([s for s, _ in got])


def cyclic(ctx):
    """With cycles, the best derivations are found, if any occurrence of a
    cycle increases the cost."""
    p = ctx.params
    gr = C25.grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    k = ctx.pick('k', p['k'])
    n = len(sent)
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar)
    edges = C25.closure(gr, sent)
    ctx.assume(('S', 0, n) in edges)
    got = ctx.mod('kbest').lazykbest(chart, k)
    want = dict(unrolled(edges, ('S', 0, n), gr, p['depth']))
    ctx.check(len(got) == k, 'number of derivations')
    ctx.check(len(set(s for s, _ in got)) == len(got),
            'derivations are distinct')
    for s, c in got:
        if s in want:
            ctx.check(eq(c, want[s]), 'cost of derivation')
        else:
            ctx.check(s.count('(') > p['depth'], 'derivation of the chart')
    for (_, c), (_, d) in zip(got, got[1:]):
        ctx.check(le(c, d), 'ordered by cost')
    seen = [s for s, _ in got]
    for s, c in want.items():
        if s not in seen:
            ctx.check(le(got[-1][1], c), 'no better derivation is missing')
    ctx.reach('cyclic')
    ctx.observe(seen)


def unrolled(edges, item, gr, depth):
    result = []
    if depth == 0:
        return result
    for kind, no, a, b in edges[item]:
        if kind == 'lex':
            result.append(('(%s %d)' % (item[0], item[1]), gr.lexcost[no]))
            continue
        for s, c in unrolled(edges, a, gr, depth - 1):
            if b is None:
                result.append(('(%s %s)' % (item[0], s), gr.cost[no] + c))
                continue
            for t, d in unrolled(edges, b, gr, depth - 1):
                result.append(('(%s %s %s)' % (item[0], s, t),
                        gr.cost[no] + c + d))
    return result


def partition(ctx):
    """A chart without a full parse is partitioned into the largest
    subtrees, preferring those to the left, with the best label."""
    p = ctx.params
    gr = C25.grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    n = len(sent)
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar)
    edges = C25.closure(gr, sent)
    ctx.assume(C25.covered(gr, sent))
    items, cost, _ = C25.readchart(ctx, gr, chart, sent)
    got = ctx.mod('kbest').partitionincompletechart(chart, 0, n)
    ctx.check([a for _, a, _ in got][:1] == [0] and got[-1][2] == n
            and all(x[2] == y[1] for x, y in zip(got, got[1:])),
            'parts cover the sentence without overlap')
    ctx.check([x[1:] for x in got] == greedy(
            [i for i in edges if '*' not in i[0]], 0, n), 'largest parts')
    for lab, a, b in got:
        ctx.check((lab, a, b) in cost and '*' not in lab, 'part of chart')
        for x in cost:
            if x[1:] == (a, b) and '*' not in x[0]:
                ctx.check(le(cost[lab, a, b], cost[x]), 'best label')
    ctx.reach('several' if len(got) > 1 else 'single')
    ctx.observe(got)


def greedy(items, start, end):
    if start == end:
        return []
    for size in range(end - start, 0, -1):
        for i in range(start, end - size + 1):
            if any(x[1:] == (i, i + size) for x in items):
                return (greedy(items, start, i) + [(i, i + size)]
                        + greedy(items, i + size, end))
    raise ValueError


XX = dict(rules=[('S', 'X'), ('X', 'X', 'X')], lexicon=[('X', 'a')],
        words=['a'])
XY = dict(rules=[('S', 'X'), ('X', 'X', 'Y'), ('Y', 'X', 'X'),
            ('X', 'X', 'X')],
        lexicon=[('X', 'a'), ('Y', 'a')], words=['a'])
UN = dict(rules=[('S', 'X'), ('S', 'Y'), ('X', 'Y'), ('X', 'Z'), ('Y', 'Z'),
            ('X', 'Z', 'Z'), ('Y', 'X', 'Z')],
        lexicon=[('Z', 'a'), ('Y', 'a')], words=['a'])
MIX = C25.MIX
CY = dict(rules=[('S', 'X'), ('X', 'Y'), ('Y', 'X'), ('X', 'Z'),
            ('Y', 'Z')],
        lexicon=[('Z', 'a')], words=['a'])
PART = dict(rules=[('S', 'A', 'B'), ('A', 'B'), ('X*', 'A', 'A'),
        ('B', 'X*', 'B')], maybe=[('A', 'A', 'A'), ('C', 'B', 'A')],
        lexicon=[('A', 'a'), ('B', 'b'), ('C', 'b')], words=['a', 'b'])
HARNESSES = {
    'kbest': dict(fn=kbest, reach=['kbest'], params=dict(
        quick=[
            dict(XX, sizes=[1, 2, 3, 4], k=[1, 2, 3, 5, 10]),
            dict(XX, sizes=[5], k=[14, 50]),
            dict(XY, sizes=[1, 2], k=[1, 2, 3, 50]),
            dict(XY, sizes=[3], k=[4], lo=0.25, hi=8),
            dict(UN, sizes=[1, 2], k=[1, 2, 3, 50]),
            dict(UN, sizes=[1, 2], k=[1, 3, 50], sparse=True),
            dict(XY, sizes=[3], k=[1, 2, 3, 4, 5, 6, 7, 100], unit=True,
                again=True),
            dict(MIX, sizes=[1, 2, 3], k=[1, 2, 3, 100], unit=True),
            ])),
    'cyclic': dict(fn=cyclic, reach=['cyclic'], params=dict(
        quick=[
            dict(CY, sizes=[1], k=[1, 2, 3, 4, 5, 6], depth=7, unit=True),
            dict(CY, sizes=[1], k=[3], depth=5),
            ])),
    'partition': dict(fn=partition, reach=['several', 'single'], params=dict(
        quick=[dict(PART, sizes=[1, 2, 3])])),
}
