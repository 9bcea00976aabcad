"""Tree edit distance: minimal cost of a mapping between two trees."""
import tlib
NEEDS = []
OUTSIDE = ('Larger trees; terminals with siblings; empty constituents.')


def shape(t):
    """Canonical tree whose preterminals are leaves with an index."""
    t = tlib.canonical(t)

    def rec(x):
        if not isinstance(x[1][0], tuple):
            return (x[0] + '-%d' % x[1][0], [])
        return (x[0], [rec(a) for a in x[1]])
    return rec(t)


def order(t):
    """[(label, set of ancestors)] in post-order."""
    out = []

    def rec(x):
        below = []
        for a in x[1]:
            below.extend(rec(a))
        out.append((x[0], []))
        n = len(out) - 1
        for b in below:
            out[b][1].append(n)
        return below + [n]
    rec(t)
    return out


def mappings(a, b):
    """Mappings that preserve order and ancestors, as lists of pairs."""
    out = [[]]
    for i in range(len(a)):
        for m in list(out):
            for j in range(m[-1][1] + 1 if m else 0, len(b)):
                if all((i in a[x][1]) == (j in b[y][1]) for x, y in m):
                    out.append(m + [(i, j)])
    return out


def gen(ctx, n):
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', ctx.params['labels'],
            1, 1), pos=lambda: ctx.string('p', ctx.params.get('pos', 'P'),
            1, 1), unary=ctx.params.get('unary', 0),
            cont=ctx.params.get('cont', False))
    if ctx.params.get('perm'):
        t = tlib.permute(ctx, t)
    return t


def distance(ctx):
    """Both implementations give the least cost over all mappings between
    the trees; the distance is symmetric and zero only for equal trees."""
    mod, td = ctx.mod('tree'), ctx.mod('treedist')
    t1, t2 = (gen(ctx, n) for n in ctx.params['sizes'])
    tree1, tree2 = tlib.totree(mod.Tree, t1), tlib.totree(
            mod.ParentedTree, t2)
    which = ctx.pick('impl', ['treedist', 'newtreedist'])
    got = int(getattr(td, which)(tree1, tree2))
    ctx.check(tlib.same(ctx, tlib.fromtree(tree1), t1)
            and tlib.same(ctx, tlib.fromtree(tree2), t2), 'input unchanged')
    a, b = order(shape(t1)), order(shape(t2))
    costs = [len(a) + len(b) - 2 * len(m) + sum(
            ctx.If(a[i][0] == b[j][0], 0, 1) for i, j in m)
            for m in mappings(a, b)]
    ctx.check(ctx.And(*[c >= got for c in costs]), 'not too high')
    ctx.check(ctx.Or(*[c == got for c in costs]), 'not too low')
    same = tlib.same(ctx, shape(t1), shape(t2))
    ctx.check(ctx.If(same, 1, 0) == (1 if got == 0 else 0),
            'zero exactly for equal trees')
    ctx.check(int(getattr(td, which)(tree2, tree1)) == got, 'symmetric')
    ctx.reach(which)
    ctx.reach('same' if got == 0 else 'different')
    ctx.observe(got)


def script(ctx):
    """The edit script has as many operations as the distance and turns the
    first tree into the second."""
    mod, td = ctx.mod('tree'), ctx.mod('treedist')
    t1, t2 = (gen(ctx, n) for n in ctx.params['sizes'])
    f1, f2 = (td.prepare(tlib.totree(mod.Tree, t)).freeze()
            for t in (t1, t2))
    res = td.geteditstats((f1, ), (f2, ))
    td.geteditstats.mem.clear()
    ops = list(res.editscript)
    ctx.check(len(ops) == res.distance, 'number of operations')
    size1, size2 = len(tlib.subtrees(t1)), len(tlib.subtrees(t2))
    gone1, gone2, new = [], [], []
    for op, x, y in ops:
        if op == 'D':
            ctx.check(y is None, 'deletion')
            gone1.append(x)
        elif op == 'I':
            ctx.check(x is None, 'insertion')
            gone2.append(y)
        else:
            ctx.check(op == 'S', 'kind of operation')
            ctx.check(ctx.Not(x.label == y.label), 'substitution')
            new.append((x, y.label))
    ctx.check(res.matched == size1 - len(gone1) - len(new)
            and res.matched == size2 - len(gone2) - len(new),
            'number of matches')

    def apply(x, gone):
        kids = [b for a in x for b in apply(a, gone)]
        if any(x is a for a in gone):
            return kids
        label = x.label
        for a, lab in new:
            if a is x:
                label = lab
        return [(label, kids)]
    ctx.check(tlib.same(ctx, ('', apply(f1, gone1)), ('', apply(f2, gone2))),
            'edit script')
    ctx.reach('ok')
    ctx.observe([a for a, _, _ in ops])


def preparing(ctx):
    """prepare merges preterminals with terminals in canonical order, without
    affecting its argument; with includeterms terminals are kept."""
    mod, td = ctx.mod('tree'), ctx.mod('treedist')
    t, = (gen(ctx, n) for n in ctx.params['sizes'])
    tree = tlib.totree(mod.ParentedTree, t)
    terms = ctx.flag('includeterms')
    got = td.prepare(tree, includeterms=terms)
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), t), 'input unchanged')
    ctx.check(type(got) is mod.Tree, 'class')
    for x in tree.subtrees():
        for k in x:
            ctx.check(not isinstance(k, mod.Tree) or k.parent is x,
                    'parents')

    def conv(x):
        if isinstance(x, td.Terminal):
            return x.label
        return (x.label, [conv(a) for a in x.children])
    ctx.check(tlib.same(ctx, conv(got), tlib.canonical(t) if terms
            else shape(t)), 'prepared tree')
    ctx.reach('terms' if terms else 'plain')
    ctx.observe(tlib.show(conv(got)))


HARNESSES = {
    'distance': dict(fn=distance, reach=['treedist', 'newtreedist',
        'different'], params=dict(
        quick=[dict(sizes=[2, 2], labels='AB', pos='PQ', unary=1),
            dict(sizes=[3, 2], labels='AB', unary=1),
            dict(sizes=[3, 3], labels='AB'),
            dict(sizes=[4, 3], labels='A', cont=True)],
        thorough=[dict(sizes=[3, 3], labels='ABC', unary=1),
            dict(sizes=[4, 4], labels='AB', cont=True)])),
    'script': dict(fn=script, reach=['ok'], params=dict(
        quick=[dict(sizes=[2, 2], labels='AB', pos='PQ', unary=1),
            dict(sizes=[3, 3], labels='AB')],
        thorough=[dict(sizes=[4, 3], labels='AB', unary=1)])),
    'prepare': dict(fn=preparing, reach=['terms', 'plain'], params=dict(
        quick=[dict(sizes=[3], labels='AB', perm=1, unary=1)],
        thorough=[dict(sizes=[4], labels='A', perm=1, unary=1)])),
}
