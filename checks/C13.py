"""Conversion of discontinuous trees to continuous ones and back."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Labels containing an asterisk, two discontinuous sisters with the '
        'same label (their components cannot be told apart, except when '
        'marked with numbers and in the same order), terminals '
        'with siblings, more than one head per constituent.')


def sameorder(a, b):
    """Whether the components of two nodes can be told apart by number."""
    if min(tlib.leaves(a)) > min(tlib.leaves(b)):
        a, b = b, a
    ra, rb = tlib.ranges(tlib.leaves(a)), tlib.ranges(tlib.leaves(b))
    return len(ra) >= len(rb) and all(x < y for x, y in zip(ra, rb))


def gen(ctx, distinct=True, index=False):
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p.get('unary', 0), pos=lambda: 'P')
    if p.get('root', True):
        t = ('R', [t])
    if distinct:
        for x in tlib.subtrees(t):
            d = [a for a in x[1] if isinstance(a, tuple)
                    and tlib.fanout(a) > 1]
            for n, a in enumerate(d):
                for b in d[:n]:
                    if index and sameorder(a, b):
                        continue
                    ctx.assume(ctx.Not(a[0] == b[0]))
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    return t


def groups(nodes):
    """Partition nodes into sequences with contiguous yields."""
    nodes = sorted(nodes, key=lambda a: min(tlib.leaves(a)))
    left = list(nodes)
    out = []
    for s, e in tlib.ranges([x for a in nodes for x in tlib.leaves(a)]):
        out.append([a for a in left if s <= min(tlib.leaves(a)) < e])
    return out


def split(t, index):
    """Reference: replace each discontinuous child by its components."""
    if not isinstance(t, tuple):
        return t
    kids = []
    for a in t[1]:
        b = split(a, index)
        if isinstance(b, tuple) and tlib.fanout(b) > 1:
            for n, g in enumerate(groups(b[1])):
                kids.append((b[0] + ('*%d' % n if index else '*'), g))
        else:
            kids.append(b)
    return tlib.canonical((t[0], kids))


def setheads(ctx, tree, mod, skip=()):
    """One head child per constituent; returns {id(node): head leaf}."""
    heads = {}
    for node in tree.postorder():
        if not isinstance(node[0], mod.Tree):
            heads[id(node)] = node[0]
            continue
        h = ctx.choice('head', len(node))
        node[h].type = mod.HEAD
        heads[id(node)] = heads[id(node[h])]
    return heads


def splitmerge(ctx):
    """splitdiscnodes gives a continuous tree with one node per component,
    mergediscnodes restores the original tree with heads and sources."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    index = ctx.flag('markorigin')
    t = gen(ctx, index=index)
    cls = getattr(mod, ctx.pick('cls', ctx.params.get('cls',
            ['ParentedTree'])))
    tree = tlib.totree(cls, t)
    if ctx.params.get('heads'):
        setheads(ctx, tree, mod)
    heads = [a.type == mod.HEAD for a in tree.subtrees()]
    for n, a in enumerate(tree.subtrees()):
        a.source = [n]
    res = tt.splitdiscnodes(tree, markorigin=index)
    ctx.check(res is tree, 'modified in-place')
    got = tlib.fromtree(tree)
    ctx.check(tlib.same(ctx, got, split(t, index)), 'components')
    for x in tlib.subtrees(got):
        ctx.check(x is got or tlib.fanout(x) == 1, 'result is continuous')
    ctx.check(tlib.leaves(got) == list(range(ctx.params['n'])),
            'words in order')
    if cls is mod.ParentedTree:
        parents(ctx, mod, tree)
    ctx.observe(tlib.show(got))
    ctx.reach('split' if any(a[0].endswith('*') or a[0].endswith('0')
            for a in tlib.subtrees(got)) else 'cont')
    res = tt.mergediscnodes(tree)
    ctx.check(res is tree, 'merge is in-place')
    if cls is mod.ParentedTree:
        parents(ctx, mod, tree)
    canon = tlib.canonical(t)
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), canon),
            'mergediscnodes(splitdiscnodes(tree))')
    order = [n for n, _ in preorder(t)]
    ctx.check([a.source[0] for a in tree.subtrees()] == order,
            'source of merged nodes')
    ctx.check([a.type == mod.HEAD for a in tree.subtrees()]
            == [heads[n] for n in order], 'head marks of merged nodes')


def preorder(t):
    """(pre-order number in t, node) for nodes in canonical order."""
    numbered = {}

    def number(x):
        if isinstance(x, tuple):
            numbered[id(x)] = len(numbered)
            for a in x[1]:
                number(a)
    number(t)
    out = []

    def visit(x):
        if isinstance(x, tuple):
            out.append((numbered[id(x)], x))
            for a in sorted(x[1], key=lambda z: min(tlib.leaves(z))):
                visit(a)
    visit(t)
    return out


def parents(ctx, mod, tree):
    for node in tree.subtrees():
        for n, a in enumerate(node):
            if isinstance(a, mod.Tree):
                ctx.check(a.parent is node and a.parent_index == n,
                        'parent pointers')


def raising(ctx):
    """raisediscnodes: every constituent keeps the component with its head
    word, the others are attached to its parent; without heads it refuses."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = gen(ctx, distinct=False)
    tree = tlib.totree(mod.ParentedTree, t)
    heads = setheads(ctx, tree, mod)
    ref = []

    def conv(node):
        if not isinstance(node[0], mod.Tree):
            return (node.label, [node[0]])
        kids = []
        for a in node:
            b = conv(a)
            if tlib.fanout(b) == 1:
                kids.append(b)
                continue
            for g in groups(b[1]):
                if heads[id(a)] in [x for c in g for x in tlib.leaves(c)]:
                    kids.append((b[0], g))
                else:
                    kids.extend(g)
        return tlib.canonical((node.label, kids))
    want = conv(tree)
    if ctx.params.get('nohead'):
        node = ctx.pick('nohead', [a for a in tree.subtrees()
                if isinstance(a[0], mod.Tree)])
        for a in node:
            a.type = None
        before = tlib.fromtree(tree)
        try:
            tt.raisediscnodes(tree)
        except ValueError:
            ctx.reach('refused')
            ctx.check(tlib.same(ctx, before, tlib.fromtree(tree)),
                    'refused tree is unchanged')
            return
        ctx.fail('constituent without head is not refused')
    res = tt.raisediscnodes(tree)
    got = tlib.fromtree(res)
    ctx.check(all(tlib.fanout(a) == 1 for a in tlib.subtrees(got)),
            'result is continuous')
    ctx.check(tlib.leaves(got) == list(range(ctx.params['n'])),
            'words in order')
    ctx.check(tlib.same(ctx, got, want), 'constituents after raising')
    parents(ctx, mod, tree)
    ctx.reach('raised')
    ctx.observe(tlib.show(got))


def canon(ctx):
    """canonicalize sorts children by first word and changes nothing else;
    contsets partitions into maximal contiguous subsets; treebankfanout is
    the largest fan-out."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = gen(ctx, distinct=False)
    tree = tlib.totree(mod.ParentedTree, t)
    res = tt.canonicalize(tree)
    ctx.check(res is tree, 'in-place')
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), tlib.canonical(t)),
            'canonical order')
    parents(ctx, mod, tree)
    for node in tree.subtrees(lambda n: isinstance(n[0], mod.Tree)):
        if any(tlib.fanout(tlib.fromtree(a)) > 1 for a in node):
            continue
        got = [[tlib.fromtree(a) for a in g] for g in tt.contsets(node)]
        want = groups([tlib.fromtree(a) for a in node])
        ctx.check(len(got) == len(want), 'number of subsets')
        for g, w in zip(got, want):
            ctx.check(tlib.same(ctx, ('', g), ('', w)), 'subset')
    fans = [tlib.fanout(x) for x in tlib.subtrees(t) if len(x[1]) > 1]
    fan, n = tt.treebankfanout([tree])
    ctx.check(fan == (max(fans) if fans else 1) and n == 0,
            'treebank fan-out')
    other = mod.ParentedTree('(R (X (P 0) (P 2)) (P 1))')
    fan, n = tt.treebankfanout([tree, other])
    m = max(fans, default=1)
    ctx.check(fan == max(m, 2), 'fan-out of two trees')
    ctx.check(n == 1 if m < 2 else n in (0, 1) if m == 2 else n == 0,
            'number of tree with highest fan-out')
    im = tt.addbitsets(tree)
    for node in im.subtrees():
        f = len(tlib.ranges(node.leaves()))
        ctx.check(tt.fanout(node) == f, 'fan-out')
        kids = [len(tlib.ranges(a.leaves())) if isinstance(a, mod.Tree)
                else 1 for a in node]
        ctx.check(tt.complexity(node) == f + sum(kids), 'complexity')
        ctx.check(tt.complexityfanout(node) == (f + sum(kids), f), 'cf')
        ctx.check(tt.fanoutcomplexity(node) == (f, f + sum(kids)), 'fc')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(tree)), fan, n)


HARNESSES = {
    'splitmerge': dict(fn=splitmerge, reach=['split'], params=dict(
        quick=[dict(n=4, labels='A', perm=0, unary=0, cls=['ParentedTree',
                'Tree']),
            dict(n=4, labels='AB', unary=1), dict(n=3, labels='A', perm=1),
            dict(n=4, labels='A', heads=1), dict(n=5, labels='A'),
            dict(n=13, labels='A', pad=9)],
        thorough=[dict(n=5, labels='AB', unary=1), dict(n=6, labels='A'),
            dict(n=4, labels='AB', perm=1), dict(n=5, labels='A',
            heads=1)])),
    'raise': dict(fn=raising, reach=['raised'], params=dict(
        quick=[dict(n=4, labels='A', unary=0), dict(n=3, labels='AB',
            perm=1, unary=1), dict(n=5, labels='A')],
        thorough=[dict(n=5, labels='AB', unary=1), dict(n=6, labels='A')])),
    'nohead': dict(fn=raising, reach=['refused'], params=dict(
        quick=[dict(n=3, labels='A', unary=1, nohead=1)], thorough=[
            dict(n=4, labels='A', unary=1, nohead=1)])),
    'canonical': dict(fn=canon, reach=['ok'], params=dict(
        quick=[dict(n=3, labels='AB', perm=1, unary=1), dict(n=4,
            labels='A', perm=1)],
        thorough=[dict(n=5, labels='AB'), dict(n=4, labels='AB', perm=1)])),
}
