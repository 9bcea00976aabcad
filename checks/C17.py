"""LCFRS productions and treebank grammars."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Larger trees and treebanks; weights of extra rules other than '
        'the stated ones; trees with empty constituents other than frontier '
        'nodes.')


def word(ctx):
    return ctx.string('w', ctx.params.get('words', 'ab'), 1, 1)


def gen(ctx, n):
    p = ctx.params
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p.get('unary', 0),
            pos=(lambda: ctx.string('p', p['pos'], 1, 1))
                if 'pos' in p else lambda: 'P')
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    return t


def esc(ctx, w):
    """Escaped form of a one-character word."""
    for a, b in zip('()[]', ['#LRB#', '#RRB#', '#LSB#', '#RSB#']):
        if w == a:
            return b
    return w


def apply(yf, kids):
    """Instantiate a yield function; kids is a list of lists of ranges.
    Returns ranges of the LHS, or None when the instantiation is invalid."""
    used = [0] * len(kids)
    out = []
    for comp in yf:
        cur = None
        prev = None
        for a in comp:
            if a == prev or used[a] == len(kids[a]):
                return None
            s, e = kids[a][used[a]]
            used[a] += 1
            if cur is None:
                cur = [s, e]
            elif s != cur[1]:
                return None
            else:
                cur[1] = e
            prev = a
        if cur is None:
            return None
        out.append(tuple(cur))
    if used != [len(a) for a in kids]:
        return None
    return out


def productions(ctx):
    """Each node gives one production; its yield function composes the ranges
    of the children into those of the node, in order, using each once."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    n = p['n']
    t = gen(ctx, n)
    extra = ctx.choice('before', 2)
    if extra:  # sentence has more words than the tree
        t = shift(t, 1)
    words = [word(ctx) for _ in range(n + extra)]
    front = ctx.flag('frontiers')
    holes = [ctx.flag('frontier') if p.get('holes') else False
            for _ in range(n + extra)]
    sent = [None if h else w for w, h in zip(words, holes)]
    tree = tlib.totree(mod.Tree, t)
    prods = gr.lcfrsproductions(tree, sent, frontiers=front)
    want = [a for a in tlib.subtrees(t)
            if isinstance(a[1][0], tuple) or not holes[a[1][0]] or front]
    ctx.check(len(prods) == len(want), 'one production per node')
    for (r, yf), node in zip(prods, want):
        if isinstance(node[1][0], tuple):
            ctx.check(len(r) == 1 + len(node[1]), 'arity')
            ctx.check(ctx.And(r[0] == node[0], *[a == b[0]
                    for a, b in zip(r[1:], node[1])]), 'labels')
            got = apply(yf, [tlib.ranges(tlib.leaves(a)) for a in node[1]])
            ctx.check(got == tlib.ranges(tlib.leaves(node)),
                    'yield function gives the ranges of the node')
            heads = [min(tlib.leaves(a)) for a in node[1]]
            first = []
            for comp in yf:
                first.extend(a for a in comp if a not in first)
            ctx.check([heads[a] for a in first] == sorted(heads),
                    'components in order')
        elif holes[node[1][0]]:
            ctx.check(len(r) == 1 and r[0] == node[0] and yf == (),
                    'frontier')
        else:
            ctx.check(len(r) == 2 and len(yf) == 1, 'lexical production')
            ctx.check(ctx.And(r[0] == node[0], r[1] == 'Epsilon',
                    yf[0] == esc(ctx, sent[node[1][0]])),
                    'lexical production')
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), t), 'tree not modified')
    if not p.get('holes'):
        ctx.check(tlib.same(ctx, rebuild(prods, n, extra),
                tlib.canonical(t)) if not p.get('perm') else True,
                'productions determine the tree')
    ctx.observe([yf for _, yf in prods])
    ctx.reach('ok')


def shift(t, k):
    if isinstance(t, tuple):
        return (t[0], [shift(a, k) for a in t[1]])
    return t + k


def rebuild(prods, n, start):
    """Tree described by a pre-order sequence of productions: the first
    position is known, all others follow from the yield functions."""
    it = iter(prods)

    def build():
        r, yf = next(it)
        if len(r) == 2 and isinstance(yf[0], (str, )) or not isinstance(
                yf[0], tuple):
            return (r[0], [0], [1])
        kids = [build() for _ in r[1:]]
        # lengths of the components
        used = [0] * len(kids)
        comps = []
        for comp in yf:
            x = 0
            for a in comp:
                x += kids[a][2][used[a]]
                used[a] += 1
            comps.append(x)
        return (r[0], kids, comps, yf)

    def place(node, starts):
        if len(node) == 3:
            return (node[0], [starts[0]])
        used = [[] for _ in node[1]]
        for s, comp in zip(starts, node[3]):
            for a in comp:
                used[a].append(s)
                s += node[1][a][2][len(used[a]) - 1]
        return (node[0], [place(a, b) for a, b in zip(node[1], used)])
    root = build()
    if len(root[2]) != 1:
        return None
    return place(root, [start])


def invalid(ctx):
    """Trees that do not describe the sentence are refused."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    n = ctx.params['n']
    idx = [ctx.int('i', -1, n) for _ in range(n)]
    slen = ctx.choice('slen', n + 2)
    kind = ctx.pick('kind', ['flat', 'nested', 'empty', 'str', 'mixed'])
    kids = [mod.Tree('P', [i]) for i in idx]
    if kind == 'nested':
        tree = mod.Tree('S', [mod.Tree('X', kids[:-1]), kids[-1]])
    elif kind == 'empty':
        tree = mod.Tree('S', kids + [mod.Tree('E', [])])
    elif kind == 'str':
        tree = mod.Tree('S', kids + [mod.Tree('E', ['w'])])
    elif kind == 'mixed':
        tree = mod.Tree('S', kids[:-1] + [idx[-1]])
    else:
        tree = mod.Tree('S', kids)
    valid = kind in ('flat', 'nested') and slen > 0
    if valid:
        valid = ctx.And(*[ctx.And(a >= 0, a < slen) for a in idx] + [
                ctx.Not(a == b) for m, a in enumerate(idx)
                for b in idx[:m]])
    try:
        prods = gr.lcfrsproductions(tree, ['w'] * slen)
    except ValueError:
        ctx.check(ctx.Not(valid), 'a valid tree was refused')
        ctx.reach('refused')
    else:
        ctx.check(valid, 'an invalid tree was accepted')
        ctx.check(len(prods) == n + 1 + (kind == 'nested'), 'productions')
        ctx.reach('accepted')


def samerule(ctx, a, b):
    """Equality of (labels, yield function)."""
    (r1, yf1), (r2, yf2) = a, b
    if len(r1) != len(r2) or len(yf1) != len(yf2):
        return False
    if yf1 and isinstance(yf1[0], tuple) != isinstance(yf2[0], tuple):
        return False
    if yf1 and isinstance(yf1[0], tuple):
        if yf1 != yf2:
            return False
        return ctx.And(*[x == y for x, y in zip(r1, r2)])
    return ctx.And(*[x == y for x, y in zip(r1 + yf1, r2 + yf2)])


def total(ctx, conds):
    return sum(ctx.If(c, 1, 0) for c in conds)


def counting(ctx):
    """treebankgrammar: every production once, with the number of its
    occurrences in the trees plus extra rules; sorted in three clusters."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    trees, sents, prods = [], [], []
    for n in p['sizes']:
        t = gen(ctx, n)
        trees.append(tlib.totree(mod.Tree, t))
        sents.append([word(ctx) for _ in range(n)])
        prods.extend(gr.lcfrsproductions(trees[-1], sents[-1]))
    extra = None
    if p.get('extra'):
        new = ((ctx.string('l', p['labels'], 1, 1), 'P'), ((0, ), ))
        lex = (('P', 'Epsilon'), (word(ctx), ))
        extra = ctx.dict([(new, 5), (lex, 7)])
    got = gr.treebankgrammar(trees, sents, extra)
    for m, (rule, freq) in enumerate(got):
        want = total(ctx, [samerule(ctx, rule, a) for a in prods])
        if extra:
            want += (ctx.If(samerule(ctx, rule, new), 5, 0)
                    + ctx.If(samerule(ctx, rule, lex), 7, 0))
        ctx.check(freq == want, 'frequency')
        for rule2, _ in got[:m]:
            ctx.check(ctx.Not(samerule(ctx, rule, rule2)), 'listed once')
    size = sum(f for _, f in got)
    ctx.check(size == len(prods) + (12 if extra else 0), 'total frequency')
    order(ctx, got)
    ctx.observe([f for _, f in got])
    ctx.reach('ok')


def order(ctx, rules):
    """Phrasal rules by LHS, then lexical rules by word."""
    def key(rule):
        (r, yf), _ = rule
        if r[1] == 'Epsilon':
            return (1, yf[0], r[0])
        return (0, '', r[0])
    for a, b in zip(rules, rules[1:]):
        x, y = key(a), key(b)
        if x[0] != y[0]:
            ctx.check(x[0] < y[0], 'lexical rules last')
        elif x[0]:
            ctx.check(ctx.Or(x[1] < y[1], ctx.And(x[1] == y[1],
                    x[2] <= y[2])), 'lexical rules sorted')
        else:
            ctx.check(x[2] <= y[2], 'rules sorted by LHS')


def sorting(ctx):
    """sortgrammar permutes rules and alternative weights alike."""
    gr = ctx.mod('grammar')
    p = ctx.params
    rules = []
    for i in range(p['n']):
        k = ctx.pick('kind', ['phrasal', 'bin', 'lex'])
        a = ctx.string('l', 'AB', 1, 1)
        if k == 'phrasal':
            rules.append((((a, 'X%d' % i), ((0, ), )), i))
        elif k == 'bin':
            rules.append((((a + '}<1>', 'X%d' % i), ((0, ), )), i))
        else:
            rules.append((((a, 'Epsilon'), (ctx.string('w', 'ab', 1, 1), )),
                    i))
    import numpy
    alt = {'ewe': numpy.array([10. * i for i in range(p['n'])])}
    got = gr.sortgrammar(list(rules))
    ctx.check(sorted(w for _, w in got) == list(range(p['n'])),
            'a permutation')
    for rule, w in got:
        ctx.check(rule is rules[w][0], 'rule and weight kept together')

    def key(rule):
        (r, yf), i = rule
        if r[1] == 'Epsilon':
            return (2, yf[0], r[0], i)
        return (1 if len(r[0]) > 1 else 0, '', r[0], i)
    for a, b in zip(got, got[1:]):
        x, y = key(a), key(b)
        if x[0] != y[0]:
            ctx.check(x[0] < y[0], 'clusters')
        else:
            ctx.check(ctx.Or(x[1] < y[1], ctx.And(x[1] == y[1], ctx.Or(
                    x[2] < y[2], ctx.And(x[2] == y[2], x[3] < y[3])))),
                    'stable order')
    rules2, alt2 = gr.sortgrammar(list(rules), alt)
    ctx.check([w for _, w in rules2] == [w for _, w in got], 'same order')
    ctx.check(list(alt2['ewe']) == [10. * w for _, w in got],
            'weights follow the rules')
    ctx.reach('ok')
    ctx.observe([w for _, w in got])


def subset(ctx):
    """subsetgrammar compares rules, ignoring weights."""
    gr = ctx.mod('grammar')

    def make(n, w):
        return [(((ctx.string('l', 'AB', 1, 1), 'X'),
                (ctx.pick('yf', [(0, ), (0, 0)]), )), w) for _ in range(n)]
    a, b = make(ctx.choice('n', 3), 1), make(ctx.choice('m', 3), 2)
    got = gr.subsetgrammar(a, b)
    want = ctx.And(*[ctx.Or(*[samerule(ctx, x, y) for y, _ in b])
            for x, _ in a])
    ctx.check(ctx.If(want, True, False) == got if not isinstance(want, bool)
            else got == want, 'subset')
    ctx.reach('yes' if got else 'no')


HARNESSES = {
    'productions': dict(fn=productions, reach=['ok'], params=dict(
        quick=[dict(n=4, labels='AB', words='a('),
            dict(n=3, labels='A', perm=1, unary=1, words='a'),
            dict(n=3, labels='A', unary=1, holes=1, words='a'),
            dict(n=13, labels='A', words='a', pad=9),
            dict(n=5, labels='A', words='a')],
        thorough=[dict(n=6, labels='A', words='a'), dict(n=4, labels='AB',
            unary=1, pos='PQ', words='a()['), dict(n=4, labels='A', holes=1,
            perm=1, words='a')])),
    'invalid': dict(fn=invalid, reach=['accepted', 'refused'], params=dict(
        quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])),
    'counts': dict(fn=counting, reach=['ok'], params=dict(
        quick=[dict(sizes=[3, 2], labels='AB', words='ab', pos='P'),
            dict(sizes=[3], labels='AB', pos='PQ', unary=1),
            dict(sizes=[2, 1], labels='AB', extra=1, unary=1)],
        thorough=[dict(sizes=[3, 3], labels='AB', words='ab'),
            dict(sizes=[2, 2, 2], labels='AB', pos='PQ', extra=1)])),
    'sorting': dict(fn=sorting, reach=['ok'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=4)])),
    'subset': dict(fn=subset, reach=['yes', 'no'], params=dict(
        quick=[dict()], thorough=[dict()])),
}
