"""Equality and hashing of trees."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Trees with more leaves than stated; labels and words are strings '
        'of one character over a two letter alphabet (the code only compares '
        'them); hash collisions of unequal values.')
ASSUMPTIONS = ['hash() of a tuple of strings is congruent with equality']


def gen(ctx, n, ab, name, unary):
    return tlib.gentree(ctx, n, lambda: ctx.string(name, ab, 1, 1),
            unary=unary)


def plain(ctx):
    """Trees are equal iff label, structure and leaves agree; != is the
    negation; equality ignores the class; equal immutable trees hash equal."""
    mod = ctx.mod('tree')
    n = ctx.params['n']
    t1 = gen(ctx, n, 'AB', 'l', ctx.params['unary'])
    t2 = gen(ctx, n, 'AB', 'm', ctx.params['unary'])
    if ctx.params.get('perm'):
        t2 = tlib.permute(ctx, t2)
    c1 = getattr(mod, ctx.pick('c1', ['Tree', 'ImmutableTree']))
    c2 = getattr(mod, ctx.pick('c2', ['ParentedTree', 'ImmutableTree']))
    a, b = tlib.totree(c1, t1), tlib.totree(c2, t2)
    want = tlib.same(ctx, t1, t2)
    got = a == b
    ctx.check(bool(got) == bool(want), 'equality')
    ctx.check(bool(b == a) == bool(want), 'equality is symmetric')
    ctx.check(bool(a != b) != bool(want), 'inequality is the negation')
    ctx.check(a == a and not a != a, 'equality is reflexive')
    ctx.check(not (a == t1[0]) and a != None, 'tree equals non-tree')
    ia, ib = mod.ImmutableTree.convert(a), mod.ImmutableTree.convert(b)
    if got:
        ctx.reach('equal')
        ctx.check(ctx.hash(ia) == ctx.hash(ib), 'hash of equal trees')
        ctx.check(ctx.hash(a.freeze()) == ctx.hash(ib), 'hash after freeze')
    else:
        ctx.reach('unequal')
    ctx.observe(bool(got))


def disc(ctx):
    """DiscTree: equal iff same labels, same structure and the same word at
    each corresponding leaf; equal trees hash equal."""
    mod = ctx.mod('tree')
    n = ctx.params['n']
    pre = ctx.params['pre']

    def build(name):
        lab = lambda: ctx.string(name, 'AB', 1, 1)
        return tlib.gentree(ctx, n, lab, unary=ctx.params['unary'],
                leafparent=pre)
    t1, t2 = build('l'), build('m')
    s1 = [ctx.string('w', 'xy', 1, 1) for _ in range(n)]
    s2 = [ctx.string('v', 'xy', 1, 1) for _ in range(n)]
    a = mod.DiscTree(tlib.totree(mod.Tree, t1), s1)
    b = mod.DiscTree(tlib.totree(mod.Tree, t2), s2)

    def sub(t, sent):
        if isinstance(t, tuple):
            return (t[0], [sub(x, sent) for x in t[1]])
        return sent[t]
    want = bool(tlib.same(ctx, sub(t1, s1), sub(t2, s2)))
    ctx.check(bool(a == b) == want, 'equality of trees with words')
    ctx.check(bool(b == a) == want, 'equality is symmetric')
    ctx.check(bool(a != b) == (not want), 'inequality is the negation')
    if want:
        ctx.reach('equal')
        ctx.check(ctx.hash(a) == ctx.hash(b), 'hash of equal trees')
    else:
        ctx.reach('unequal')
    ctx.observe(want, tlib.show(tlib.fromtree(a)))


def immutable(ctx):
    """Immutable trees: precomputed leaves and bit set of every node."""
    mod = ctx.mod('tree')
    n = ctx.params['n']
    t = tlib.gentree(ctx, n, lambda: 'A', unary=1)
    if ctx.params.get('perm'):
        t = tlib.permute(ctx, t)
    cls = getattr(mod, ctx.pick('cls', ['ImmutableTree',
            'ImmutableParentedTree']))
    src = getattr(mod, ctx.pick('src', ['Tree', 'ParentedTree',
            'ImmutableTree']))
    new = cls.convert(tlib.totree(src, t))
    if ctx.params.get('addbits'):
        new = ctx.mod('treetransforms').addbitsets(tlib.totree(src, t))
    nodes = list(new.subtrees())
    want = tlib.subtrees(t)
    ctx.check(len(nodes) == len(want), 'number of nodes')
    for x, y in zip(nodes, want):
        ctx.check(x.leaves() == tlib.leaves(y), 'leaves of node')
        ctx.check(x.bitset == sum(1 << i for i in tlib.leaves(y)),
                'bit set of node')
    ctx.reach('immutable')
    ctx.observe([x.bitset for x in nodes])


HARNESSES = {
    'plain': dict(fn=plain, reach=['equal', 'unequal'], params=dict(
        quick=[dict(n=2, unary=1), dict(n=3, unary=0, perm=1)],
        thorough=[dict(n=2, unary=2), dict(n=3, unary=1, perm=1)])),
    'disc': dict(fn=disc, reach=['equal', 'unequal'], params=dict(
        quick=[dict(n=2, unary=1, pre=True), dict(n=3, unary=0, pre=False)],
        thorough=[dict(n=3, unary=1, pre=True),
            dict(n=3, unary=1, pre=False)])),
    'immutable': dict(fn=immutable, reach=['immutable'], params=dict(
        quick=[dict(n=3, perm=1), dict(n=4), dict(n=3, addbits=1)],
        thorough=[dict(n=4, perm=1), dict(n=5), dict(n=4, addbits=1)])),
}
