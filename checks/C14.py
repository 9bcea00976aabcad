"""Label markers, artificial preterminals and removal of terminals."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Labels that already end with an underscore and digits; '
        'preterminals with more than one terminal in removeterminals.')


def label(ctx):
    p = ctx.params
    x = ctx.string('l', p['labels'], 1, p.get('ll', 1))
    for i in range(len(x)):
        if i + 1 < len(x):
            ctx.assume(ctx.Not(ctx.And(x[i] == '_', *[
                    ctx.And(*[x[j] != a for a in set(p['labels'])
                        if not a.isdigit()])
                    for j in range(i + 1, len(x))])))
    return x


def markers(ctx):
    """addfanoutmarkers marks exactly the discontinuous constituents with
    their fan-out; repeating it changes nothing; removefanoutmarkers restores
    every label."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    one = p.get('ll', 1) > 1
    t = tlib.gentree(ctx, p['n'], lambda: 'X' if one else label(ctx),
            pos=(lambda: 'P') if one else None,
            unary=p.get('unary', 0), leafparent=p.get('pre', True))
    if one:  # one node with an arbitrary label
        k = ctx.choice('node', len(tlib.subtrees(t)))
        new = label(ctx)

        def relabel(x, num):
            if not isinstance(x, tuple):
                return x
            num[0] += 1
            return (new if num[0] == k + 1 else x[0],
                    [relabel(a, num) for a in x[1]])
        t = relabel(t, [0])
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    tree = tlib.totree(mod.ParentedTree, t)
    res = tt.addfanoutmarkers(tree)
    ctx.check(res is tree, 'in-place')

    def mark(x):
        if not isinstance(x, tuple):
            return x
        f = tlib.fanout(x)
        return (x[0] + ('_%d' % f if f > 1 else ''), [mark(a) for a in x[1]])
    want = mark(t)
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), want), 'marked labels')
    ctx.reach('disc' if any(tlib.fanout(a) > 1 for a in tlib.subtrees(t))
            else 'cont')
    ctx.observe(tlib.show(tlib.fromtree(tree)))
    tt.addfanoutmarkers(tree)
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), want), 'idempotent')
    res = tt.removefanoutmarkers(tree)
    ctx.check(tlib.same(ctx, tlib.fromtree(res), t), 'markers removed')


def mixed(ctx, leaves):
    """A tree in which terminals may have siblings; some nodes with several
    terminals."""
    p = ctx.params
    if len(leaves) == 1:
        if ctx.flag('bare'):
            return leaves[0]
        return (ctx.string('l', p['labels'], 1, 1), [leaves[0]])
    part = ctx.pick('part', [a for a in tlib.partitions(leaves)
            if len(a) > 1])
    return (ctx.string('l', p['labels'], 1, 1), [mixed(ctx, a) for a in part])


def preterminals(ctx):
    """introducepreterminals gives each terminal with siblings its own
    preterminal and leaves everything else alone."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = mixed(ctx, tuple(range(p['n'])))
    ctx.assume(isinstance(t, tuple))
    sent = [None if ctx.flag('none') else ctx.string('w', p['words'], 0, 1)
            for _ in range(p['n'])]
    useids = ctx.flag('ids')
    cls = getattr(mod, ctx.pick('cls', ['Tree', 'ParentedTree']))
    tree = tlib.totree(cls, t)
    if useids:
        tree = tt.introducepreterminals(tree, sent, ids=iter(
                ['#%d' % n for n in range(9)]))
    else:
        tree = tt.introducepreterminals(tree, sent)
    seen = []

    def compare(x, node):
        ctx.check(node.label == x[0], 'label')
        ctx.check(len(node) == len(x[1]), 'number of children')
        for a, b in zip(x[1], node):
            if isinstance(a, tuple):
                ctx.check(isinstance(b, mod.Tree), 'constituent is kept')
                compare(a, b)
            elif len(x[1]) == 1:
                ctx.check(b == a, 'only child is kept')
            else:
                ctx.check(isinstance(b, mod.Tree) and len(b) == 1
                        and b[0] == a, 'new preterminal')
                if cls is mod.ParentedTree:
                    ctx.check(b.parent is node, 'parent of new node')
                if useids:
                    seen.append(b.label[b.label.find('/') + 1:])
                    ctx.check(b.label.startswith(x[0] + '/'), 'tag')
                else:
                    ctx.check(b.label == x[0] + '/' + (sent[a] or ''),
                            'label of new preterminal')
    compare(t, tree)
    if useids:
        ctx.check(sorted(seen) == ['#%d' % n for n in range(len(seen))],
                'each identifier is used once')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(tree)))


def substitution(ctx):
    """handledisc binarizes constituents that consist of terminals; their
    words are kept and unbinarizing restores them."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    k = ctx.pick('k', p['k'])
    n = p['n']
    inside = ctx.pick('inside', [a for a in subsets(n) if len(a) == k])
    t = ('S', [(ctx.string('l', 'AB', 1, 1), list(inside))]
            + [('P', [i]) for i in range(n) if i not in inside])
    tree = tlib.totree(mod.Tree, tlib.canonical(t))
    res = tt.handledisc(tree)
    for node in res.subtrees():
        if node is res:
            continue
        ctx.check(len(node) <= 2, 'binary')
        ctx.check(sum(not isinstance(a, mod.Tree) for a in node) <= 1,
                'one terminal per node')
    ctx.check(sorted(res.leaves()) == list(range(n)), 'terminals')
    ctx.observe(tlib.show(tlib.fromtree(res)))
    back = tt.unbinarize(res)
    ctx.check(tlib.same(ctx, tlib.fromtree(back), tlib.canonical(t)),
            'unbinarize(handledisc)')
    ctx.reach('ok')


def subsets(n):
    return [tuple(i for i in range(n) if m >> i & 1) for m in range(1 << n)]


def prune(t, gone):
    """Remove terminals; drop empty constituents."""
    if not isinstance(t, tuple):
        return None if t in gone else t
    kids = [prune(a, gone) for a in t[1]]
    kids = [a for a in kids if a is not None]
    return (t[0], kids) if kids else None


def renumber(t, new):
    if not isinstance(t, tuple):
        return new[t]
    return (t[0], [renumber(a, new) for a in t[1]])


def checkremoved(ctx, tree, sent, t, words, gone):
    want = prune(t, gone)
    left = [i for i in range(len(words)) if i not in gone]
    if want is None:
        want = (t[0], [])
    want = renumber(want, {a: n for n, a in enumerate(left)})
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), want), 'pruned tree')
    ctx.check(len(sent) == len(left), 'length of sentence')
    for n, i in enumerate(left):
        ctx.check(sent[n] == words[i], 'remaining words')


def removal(ctx):
    """removeterminals and removeemptynodes remove exactly the selected
    terminals and the constituents that become empty, and renumber."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    n = p['n']
    t = tlib.gentree(ctx, n, lambda: 'X', pos=lambda: ctx.pick('pos',
            p.get('pos', ['P'])), unary=p.get('unary', 0))
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    if ctx.params.get('root', True):
        t = ('R', [t])
    tree = tlib.totree(mod.ParentedTree, t)
    tags = {x[1][0]: x[0] for x in tlib.preterminals(t)}
    how = ctx.pick('how', p['how'])
    if how == 'func':
        words = [ctx.string('w', 'ab', 1, 1) for _ in range(n)]
        sent = list(words)
        tt.removeterminals(tree, sent, lambda w, node: w == 'a')
        gone = {i for i in range(n) if words[i] == 'a'}
    else:
        words = [None if ctx.flag('none') else ctx.string('w', 'ab', 0, 1)
                for _ in range(n)]
        sent = list(words)
        tt.removeemptynodes(tree, sent)
        gone = {i for i in range(n) if words[i] is None or words[i] == ''
                or tags[i] == '-NONE-'}
    ctx.reach('all' if len(gone) == n else 'some' if gone else 'none')
    checkremoved(ctx, tree, sent, t, words, gone)
    for node in tree.subtrees():
        for i, a in enumerate(node):
            if isinstance(a, mod.Tree):
                ctx.check(a.parent is node and a.parent_index == i,
                        'parent pointers')
    ctx.observe(tlib.show(tlib.fromtree(tree)), sent)


HARNESSES = {
    'markers': dict(fn=markers, reach=['disc', 'cont'], params=dict(
        quick=[dict(n=4, labels='A'), dict(n=3, labels='A_', ll=2, unary=1),
            dict(n=3, labels='A_2', ll=3), dict(n=4, labels='A', pre=False),
            dict(n=3, labels='A', perm=1, unary=1), dict(n=5, labels='A'),
            dict(n=12, labels='A', pad=9)],
        thorough=[dict(n=6, labels='A'), dict(n=3, labels='A_2', ll=4,
            unary=1)])),
    'preterminals': dict(fn=preterminals, reach=['ok'], params=dict(
        quick=[dict(n=3, labels='A', words='w')],
        thorough=[dict(n=4, labels='A', words='w')])),
    'substitution': dict(fn=substitution, reach=['ok'], params=dict(
        quick=[dict(n=5, k=[2, 3, 4, 5])], thorough=[dict(n=7,
            k=[2, 3, 4, 5, 6, 7])])),
    'removal': dict(fn=removal, reach=['all', 'some', 'none'], params=dict(
        quick=[dict(n=3, unary=1, how=['func']), dict(n=3, perm=1,
            how=['func', 'empty'], pos=['P', '-NONE-']), dict(n=4,
            how=['func']), dict(n=2, root=False, how=['func', 'empty'])],
        thorough=[dict(n=4, unary=2, how=['func']), dict(n=4, perm=1,
            how=['func', 'empty'])])),
}
