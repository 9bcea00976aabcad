"""Inside and outside probabilities, and coarse-to-fine pruning."""
import re
from plib import Gram, eq, le
import C25
import C26
import C27
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
        'probe']
OUTSIDE = ('Charts with unary cycles (inside probabilities are then infinite '
        'sums); longer sentences; floating-point rounding and underflow '
        '(exact reals); the C++ containers, which are modelled.')
ASSUMPTIONS = ['C++ containers behave as documented']


def makegrammar(ctx, p, probs=False, prefix=''):
    rules = [tuple(r) for r in p[prefix + 'rules']]
    for r in p.get(prefix + 'maybe', ()):
        if ctx.flag(prefix + 'rule'):
            rules.append(tuple(r))
    lexicon = list(p[prefix + 'lexicon'])
    islcfrs = isinstance(rules[0][0], (tuple, list))
    if islcfrs:
        rules = [(tuple(r), tuple(map(tuple, yf))) for r, yf in rules]
    bare = [r[0] for r in rules] if islcfrs else rules
    seen = [r[0] for r in bare] + [a for a, _ in lexicon]
    for r in bare:
        for a in r[1:]:
            ctx.assume(a in seen)
    n = len(rules) + len(lexicon)
    pr = None
    if probs:
        pr = [ctx.real('p', 0.125, 0.875) if m in p.get('symbolic', ())
                else (1 + m % 5) / 8. for m in range(n)]
    # costs such that derivations with different rules have different costs
    cost = [1 + (2 ** m) / 1024. for m in range(n)]
    if p.get('costs'):
        cost = [cost[(m * p['costs']) % n] for m in range(n)]
    return islcfrs, Gram(ctx, rules, lexicon, fixed=cost, probs=pr)


def parse(ctx, p, islcfrs, gr, sent, **kwargs):
    if not islcfrs:
        if p.get('sparse'):
            pr = ctx.mod('probe')
            n = len(sent)
            gr.grammar.getmapping(gr.grammar)
            ids = [pr.labelid(gr.grammar, lab) for lab in gr.labels]
            kwargs['whitelist'] = pr.cfgwhitelist(gr.grammar,
                    [ids for _ in range(pr.cell(n - 1, n, n, 1) + 1)])
        chart, _ = ctx.mod('pcfg').parse(sent, gr.grammar, **kwargs)
        return chart, C25.closure(gr, sent), C25.readchart
    chart, _ = C26.parser(ctx, p)(sent, gr.grammar, **kwargs)
    return chart, C26.closure(gr, sent), C26.readchart


def rootitem(islcfrs, sent):
    if islcfrs:
        return ('S', tuple(range(len(sent))))
    return ('S', 0, len(sent))


def insides(gr, edges):
    memo = {}

    def inside(x):
        if x not in memo:
            total = 0
            for kind, no, a, b in edges[x]:
                if kind == 'lex':
                    total = total + gr.lexprob[no]
                elif b is None:
                    total = total + gr.prob[no] * inside(a)
                else:
                    total = total + gr.prob[no] * inside(a) * inside(b)
            memo[x] = total
        return memo[x]
    for x in edges:
        inside(x)
    return memo


def outsides(gr, edges, inside, root):
    """Sum over all ways in which an item is part of a derivation."""
    above = {x: [] for x in edges}
    for x in edges:
        for kind, no, a, b in edges[x]:
            if a is not None:
                above[a].append((x, no, b))
            if b is not None:
                above[b].append((x, no, a))
    memo = {}

    def outside(x):
        if x not in memo:
            total = 1 if x == root else 0
            for parent, no, sibling in above[x]:
                w = gr.prob[no] * outside(parent)
                if sibling is not None:
                    w = w * inside[sibling]
                total = total + w
            memo[x] = total
        return memo[x]
    for x in edges:
        outside(x)
    return memo


def insideoutside(ctx):
    """Inside probability: sum over derivations of an item; outside
    probability: sum over derivations of the sentence without the item."""
    p = ctx.params
    islcfrs, gr = makegrammar(ctx, p, True)
    sent = C25.sentence(ctx, p)
    kwargs = {}
    if p.get('tags'):
        kwargs['tags'] = [ctx.pick('tag', p['tags']) for _ in sent]
    chart, edges, readchart = parse(ctx, p, islcfrs, gr, sent, **kwargs)
    if p.get('tags'):
        lex2, prob2 = [], []
        for i, (w, t) in enumerate(zip(sent, kwargs['tags'])):
            for m, (a, x) in enumerate(gr.lexicon):
                if x == w and (not t or a == t):
                    lex2.append((a, i))
                    prob2.append(gr.lexprob[m])
            if t and (t, i) not in lex2:
                lex2.append((t, i))
                prob2.append(1)
                ctx.reach('unseen tag')
        gr2 = C25.Other(gr, lex2, prob2)
        gr2.prob, gr2.lexprob = gr.prob, prob2
        gr, sent = gr2, list(range(len(sent)))
        edges = (C26 if islcfrs else C25).closure(gr, sent)
    root = rootitem(islcfrs, sent)
    threshold = ctx.pick('threshold', p['threshold'])
    if root not in edges:
        try:
            ctx.mod('coarsetofine').posteriorthreshold(chart, threshold)
        except ValueError:
            ctx.reach('no parse')
        else:
            ctx.fail('posteriors without parse')
        return
    items, _, _ = readchart(ctx, gr, chart, sent)
    before = gr.grammar.logprob
    keep, msg = ctx.mod('coarsetofine').posteriorthreshold(chart, threshold)
    ctx.check(gr.grammar.logprob == before, 'grammar is unchanged')
    inside = insides(gr, edges)
    outside = outsides(gr, edges, inside, root)
    pr = ctx.mod('probe')
    for x, item in items.items():
        ctx.check(eq(pr.inside(chart, x), inside[item]),
                'inside probability')
        ctx.check(eq(pr.outside(chart, x), outside[item]),
                'outside probability')
        a = inside[item] * outside[item]
        b = threshold * inside[root]
        if x in keep:
            ctx.check(le(b, a), 'item above threshold')
        else:
            ctx.check(le(a, b), 'item below threshold')
            ctx.reach('pruned')
    ctx.check(set(keep) <= set(items), 'only items of chart')
    ctx.reach('posterior')
    ctx.observe(sorted(items[x] for x in keep))


def used(edges, deriv):
    """Items in a derivation (nested tuples)."""
    result = {deriv[0]}
    for d in deriv[1:]:
        result |= used(edges, d)
    return result


def derivs(edges, gr, item):
    result = []
    for kind, no, a, b in edges[item]:
        if kind == 'lex':
            result.append((gr.lexcost[no], frozenset([item])))
            continue
        for c, s in derivs(edges, gr, a):
            if b is None:
                result.append((gr.cost[no] + c, s | {item}))
                continue
            for d, t in derivs(edges, gr, b):
                result.append((gr.cost[no] + c + d, s | t | {item}))
    return result


def reference(ctx, p, gr, edges, root, k, require, block):
    """Items that should be in the whitelist."""
    if k == 0:
        result = set(C25.reachable(edges, root))
    elif k < 1:
        inside = insides(gr, edges)
        outside = outsides(gr, edges, inside, root)
        result = set(x for x in edges
                if inside[x] * outside[x] > k * inside[root])
        for x in edges:  # avoid ties
            ctx.assume(abs(inside[x] * outside[x] - k * inside[root])
                    > 1e-9)
    else:
        ds = sorted(derivs(edges, gr, root), key=lambda x: x[0])
        for (a, _), (b, _) in zip(ds, ds[1:]):
            if abs(a - b) < 1e-9 and len(ds) > k:
                ctx.assume(False)  # ties
        ds = [s for _, s in ds[:k]]
        if require:
            ds = [s for s in ds if all(r in s for r in require)]
        result = set()
        for s in ds:
            result |= s
    return result - set(block)


def prune(ctx):
    """A fine chart has precisely the items whose projection is among the
    selected items of the coarse chart."""
    p = ctx.params
    islcfrs, gr = makegrammar(ctx, p, True)
    finelcfrs, fine = makegrammar(ctx, p, False, 'fine')
    sent = C25.sentence(ctx, p)
    split, mark = bool(p.get('split')), bool(p.get('mark'))
    fine.grammar.getmapping(gr.grammar, re.compile(p['strip']), None, split,
            mark)
    k = ctx.pick('k', p['k'])
    chart, edges, readchart = parse(ctx, p, islcfrs, gr, sent)
    root = rootitem(islcfrs, sent)
    ctx.assume(root in edges)
    require, block = [], []
    if p.get('constraints'):
        cand = sorted(x for x in edges if x != root)
        x = cand[ctx.choice('constraint', len(cand))]
        if ctx.flag('require') and k >= 1:
            require.append(x)
        else:
            block.append(x)

    def spec(x):
        return (x[0], x[1] if islcfrs else tuple(range(x[1], x[2])))
    white, msg = ctx.mod('coarsetofine').prunechart(chart, fine.grammar, k,
            split, mark, not finelcfrs,
            require=set(map(spec, require)),
            block=set(map(spec, block)))
    ok = reference(ctx, p, gr, edges, root, k, require, block)
    strip = re.compile(p['strip'])
    fan = C26.fanouts(fine)

    def norm(lab, pos):
        return (lab, pos) if islcfrs else (lab, pos[0], pos[-1] + 1)

    def allowed(lab, *where):
        pos = where[0] if finelcfrs else tuple(range(where[0], where[1]))
        lab1 = strip.sub('', lab)
        if split and fan[lab] > 1:
            return all(norm('%s*%s' % (lab1, m if mark else ''),
                    tuple(range(a, b))) in ok
                    for m, (a, b) in enumerate(C26.runs(pos)))
        if not islcfrs and len(C26.runs(pos)) > 1:
            return False
        return norm(lab1, pos) in ok

    if finelcfrs:
        chart2, _ = C26.parser(ctx, p)(sent, fine.grammar, whitelist=white,
                splitprune=split, markorigin=mark)
        edges2 = C26.closure(fine, sent, allowed=allowed)
        if all(any((tag, (i, )) in edges2 for tag, _ in fine.lexicon)
                for i in range(len(sent))):
            C26.checkchart(ctx, fine, chart2, sent, edges2)
            ctx.reach('fine')
        else:
            ctx.check(not chart2, 'all tags pruned')
    else:
        chart2, _ = ctx.mod('pcfg').parse(sent, fine.grammar,
                whitelist=white)
        edges2 = C25.closure(fine, sent, allowed=allowed)
        if all(any((tag, i, i + 1) in edges2 for tag, _ in fine.lexicon)
                for i in range(len(sent))):
            C25.checkchart(ctx, fine, chart2, sent, edges2)
            ctx.reach('fine')
        else:
            ctx.check(not chart2, 'all tags pruned')
    ctx.observe(len(ok), len(edges2), bool(chart2))


def longsent(ctx):
    """Pruning of sentences longer than a machine word: a fine chart has
    precisely the items whose projection is part of a coarse derivation."""
    p = ctx.params
    n = ctx.pick('n', p['sizes'])
    islcfrs = p['lcfrs']
    rules = [('S', 'A', 'X'), ('X', 'A', 'X')]
    finerules = [('S', 'A@1', 'X'), ('X', 'A', 'X'), ('X', 'A@1', 'X'),
            ('X', 'Y', 'X')]
    at = ctx.pick('at', [0, n - 2])
    words = ['a'] * (n - 1) + ['x']
    words[at] = 'b'
    lexicon = [('X', 'x'), ('A', 'a'), ('Y', 'a'), ('A', 'b')]
    finelexicon = [('X', 'x'), ('A', 'a'), ('A@1', 'a'), ('Y', 'a'),
            ('A', 'b'), ('A@1', 'b'), ('Y', 'b')]

    def conv(rules, yf):
        return [(r, ((0, 1), )) for r in rules] if yf else rules
    extra = [('Q', 'Y', 'Y')]
    gr = Gram(ctx, conv(rules + extra, islcfrs), lexicon,
            fixed=[1.] * (len(rules) + 1 + len(lexicon)))
    fine = Gram(ctx, conv(finerules, True), finelexicon,
            fixed=[1.] * (len(finerules) + len(finelexicon)))
    fine.grammar.getmapping(gr.grammar, re.compile('@[0-9]+$'))
    if islcfrs:
        chart, _ = ctx.mod('plcfrs').parse(words, gr.grammar)
    else:
        chart, _ = ctx.mod('pcfg').parse(words, gr.grammar)
    white, _ = ctx.mod('coarsetofine').prunechart(chart, fine.grammar, 0,
            False, False, False)
    chart2, _ = ctx.mod('plcfrs').parse(words, fine.grammar, whitelist=white)
    pr = ctx.mod('probe')
    ids = {pr.labelid(fine.grammar, a): a for a in fine.labels}
    got = set((ids[pr.label(chart2, x)], tuple(chart2.indices(x)))
            for x in pr.items(chart2) if pr.edges(chart2, x))
    want = {('S', tuple(range(n)))}
    for m in range(n - 1):
        want |= {('A', (m, )), ('A@1', (m, ))}
    for m in range(1, n):
        want.add(('X', tuple(range(m, n))))
    ctx.check(got == want, 'items of fine chart')
    ctx.reach('fine')


CF = dict(rules=[('S', 'A', 'B'), ('S', 'B', 'A'), ('A', 'A', 'B'),
            ('B', 'B', 'A')],
        maybe=[('S', 'A'), ('A', 'B', 'B'), ('B', 'A', 'A')],
        lexicon=[('A', 'a'), ('B', 'a'), ('B', 'b')], words=['a', 'b'])
CU = dict(rules=[('S', 'X'), ('X', 'Y'), ('X', 'Z'), ('Y', 'Z'),
            ('Z', 'A', 'A'), ('X', 'A', 'A'), ('Y', 'A', 'A'),
            ('A', 'X', 'A')], maybe=[('A', 'A', 'A')],
        lexicon=[('A', 'a'), ('A', 'b')], words=['a'])
TG = dict(rules=[('S', 'A', 'B'), ('S', 'A', 'C'), ('S', 'A', 'A'),
            ('A', 'B')],
        lexicon=[('A', 'a'), ('B', 'b'), ('C', 'b')], words=['a', 'b'],
        tags=[None, 'A', 'B'])
LU = dict(rules=[(('S', 'X'), ((0, ), )), (('X', 'Y'), ((0, ), )),
            (('Y', 'Z'), ((0, ), )), (('X', 'Z'), ((0, ), )),
            (('Z', 'A', 'A'), ((0, 1), )), (('Y', 'A', 'A'), ((0, 1), )),
            (('A', 'X', 'A'), ((0, 1), ))],
        maybe=[(('A', 'A', 'A'), ((0, 1), ))],
        lexicon=[('A', 'a')], words=['a'])
LD = dict(rules=[(('S', 'P', 'A'), ((0, 1, 0), )),
            (('P', 'A', 'A'), ((0, ), (1, ))),
            (('P', 'P', 'A'), ((0, ), (0, 1)))],
        maybe=[(('P', 'P', 'A'), ((0, 1), (0, ))),
            (('A', 'P', 'A'), ((0, 1, 0), ))],
        lexicon=[('A', 'a')], words=['a'])
FCF = dict(finerules=[('S', 'A', 'B'), ('S', 'B', 'A'), ('A', 'A@1', 'B'),
            ('A@1', 'A', 'B@2'), ('A', 'A@1', 'B@2'), ('B@2', 'B', 'A')],
        finemaybe=[('S', 'A@1', 'B@2')],
        finelexicon=[('A', 'a'), ('B', 'a'), ('B@2', 'a'), ('A@1', 'a')],
        strip='@[0-9]+$')
FLD = dict(finerules=[(('S', 'P', 'A'), ((0, 1, 0), )),
            (('P', 'A', 'A'), ((0, ), (1, ))),
            (('P@1', 'A', 'A@2'), ((0, ), (1, ))),
            (('S', 'P@1', 'A@2'), ((0, 1, 0), )),
            (('P', 'P@1', 'A'), ((0, ), (0, 1)))],
        finelexicon=[('A', 'a'), ('A@2', 'a')], strip='@[0-9]+$')
# coarse split grammar: P*0 and P*1 are the components of P_2
SM = dict(rules=[('S', 'P*0', 'Q'), ('Q', 'A', 'P*1'), ('S', 'A', 'Q'),
            ('Q', 'A', 'A'), ('P*0', 'A'), ('P*1', 'A'), ('P*0', 'A', 'A'),
            ('P*1', 'A', 'A')],
        lexicon=[('A', 'a'), ('Q', 'a')], words=['a'],
        finerules=[(('S', 'P_2', 'A'), ((0, 1, 0), )),
            (('P_2', 'A', 'A'), ((0, ), (1, ))),
            (('P_2', 'P_2', 'A'), ((0, ), (0, 1))),
            (('P_2', 'P_2', 'A'), ((0, 1), (0, ))),
            (('S', 'A', 'Q'), ((0, 1), )), (('Q', 'A', 'A'), ((0, 1), ))],
        finelexicon=[('A', 'a'), ('Q', 'a')], split=1, mark=1,
        strip='@[0-9]+$|_[0-9]+$')
SU = dict(SM, rules=[tuple(a.replace('*0', '*').replace('*1', '*') for a in r)
        for r in SM['rules'] if r[0] != 'P*1'], mark=0)
HARNESSES = {
    'insideoutside': dict(fn=insideoutside, reach=['posterior'], params=dict(
        quick=[
            dict(CF, sizes=[1, 2], symbolic=[0, 2], threshold=[0.25]),
            dict(CU, sizes=[2, 3], symbolic=[1], threshold=[0.1]),
            dict(CU, sizes=[3], symbolic=[], costs=5, sparse=1,
                threshold=[0.1]),
            dict(LU, sizes=[2], symbolic=[1], threshold=[0.1]),
            dict(LU, sizes=[3], symbolic=[], threshold=[0.1], costs=5),
            dict(LD, sizes=[2, 3], symbolic=[0], threshold=[0.1]),
            dict(TG, sizes=[2], symbolic=[0], threshold=[0.1]),
            ], thorough=[
            dict(CF, sizes=[1, 2, 3], symbolic=[0, 2], threshold=[0.25]),
            dict(CF, sizes=[1, 2, 3], symbolic=[1, 4], threshold=[0.02]),
            dict(CF, sizes=[4], symbolic=[], sparse=1, costs=3,
                threshold=[0.1, 0.4]),
            dict(CU, sizes=[2, 3], symbolic=[1, 2], threshold=[0.1]),
            dict(CU, sizes=[2, 3], symbolic=[4], costs=5, threshold=[0.1]),
            dict(CU, sizes=[3, 4], symbolic=[], costs=7, sparse=1,
                threshold=[0.1]),
            dict(LU, sizes=[2, 3], symbolic=[1, 2], threshold=[0.1]),
            dict(LU, sizes=[2, 3], symbolic=[3], threshold=[0.1], costs=5),
            dict(LU, sizes=[3], symbolic=[0], threshold=[0.1], costs=3,
                fat=1),
            dict(LD, sizes=[2, 3, 4], symbolic=[0, 2], threshold=[0.1]),
            dict(LD, sizes=[4], symbolic=[1], threshold=[0.1], fat=1),
            dict(TG, sizes=[2], symbolic=[0, 3], threshold=[0.1]),
            dict(TG, sizes=[2], symbolic=[1], sparse=1, threshold=[0.3]),
            ])),
    'prune': dict(fn=prune, reach=['fine'], params=dict(
        quick=[
            dict(CF, sizes=[2, 3], words=['a'], k=[0, 0.2, 1, 2], **FCF),
            dict(CF, sizes=[3], words=['a'], k=[1, 3], constraints=1, **FCF),
            dict(LD, sizes=[3, 4], k=[0, 0.2, 1, 2], **FLD),
            dict(SM, sizes=[3, 4], k=[0, 0.2, 1, 2]),
            dict(SU, sizes=[3, 4], k=[0, 1, 2]),
            ], thorough=[
            dict(CF, sizes=[2, 3], words=['a'], k=[0, 0.05, 0.2, 0.5, 1, 2, 3,
                5], **FCF),
            dict(CF, sizes=[3], sparse=1, k=[0, 0.3, 2], **FCF),
            dict(CF, sizes=[3], k=[0, 1, 3], constraints=1, **FCF),
            dict(CF, sizes=[4], words=['a'], k=[0, 0.1, 2], **FCF),
            dict(LD, sizes=[3, 4, 5], k=[0, 0.2, 1, 2, 4], **FLD),
            dict(LD, sizes=[4], k=[1, 3], constraints=1, **FLD),
            dict(SM, sizes=[3, 4, 5], k=[0, 0.2, 0.5, 1, 2, 3]),
            dict(SU, sizes=[3, 4, 5], k=[0, 1, 2]),
            ])),
    'longsent': dict(fn=longsent, steps=10 ** 7, reach=['fine'], params=dict(
        quick=[dict(sizes=[64], lcfrs=False), dict(sizes=[65], lcfrs=True)],
        thorough=[dict(sizes=[63, 64, 65, 66, 127, 128], lcfrs=False),
            dict(sizes=[63, 64, 65, 127, 128], lcfrs=True)])),
}
