"""Optimal binarization for LCFRS."""
import tlib
from C03 import popcount
NEEDS = ['bit']
OUTSIDE = ('Constituents with more children or spanning more positions than '
        'stated; scoring functions other than complexity and fan-out; '
        'children not given in canonical order; v=0.')


def runs(ctx, x, w):
    """Number of maximal runs of set bits."""
    y = x << 1
    return popcount(ctx, x ^ (x & y), w + 1)


def maxi(ctx, a, b):
    return ctx.If(a < b, b, a)


def bracketings(items):
    """Unordered binary trees over a tuple; leaf = item, node = pair."""
    if len(items) == 1:
        return [items[0]]
    out = []
    for p in tlib.partitions(items):
        if len(p) == 2:
            out.extend((a, b) for a in bracketings(p[0])
                    for b in bracketings(p[1]))
    return out


def linear(items, head):
    """Add one item at a time to head."""
    if not items:
        return [head]
    return [(a, rest) for a in items for rest in linear(
            tuple(b for b in items if b != a), head)]


def cover(t):
    return {t} if isinstance(t, int) else cover(t[0]) | cover(t[1])


def minimal(ctx):
    """The returned binarization has the lowest maximum score among all
    binarizations of a constituent, for every assignment of positions to its
    children."""
    p = ctx.params
    k, w = p['k'], p['w']
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    fun = ctx.pick('fun', p.get('fun', ['complexityfanout']))
    score = getattr(tt, fun)
    bits = [ctx.bv('b', w) for _ in range(k)]
    for n, a in enumerate(bits):
        ctx.assume(a != 0)
        for b in bits[:n]:
            ctx.assume(a & b == 0)
            # canonical order: first position of b is smaller
            ctx.assume((b & (a ^ (a - 1))) != 0)
    total = bits[0]
    for a in bits[1:]:
        total = total | a
    if not p.get('part'):
        ctx.assume(total == (1 << w) - 1)
    kids = []
    for n, a in enumerate(bits):
        child = mod.ImmutableTree('ABCDE'[n], [n])
        child.bitset = a
        kids.append(child)
    tree = mod.ImmutableTree('X', kids)
    tree.bitset = total
    head = None
    if p.get('headdriven'):
        head = ctx.pick('head', p.get('heads', [k - 1]))
    h = p.get('h', 999)
    res = tt.minimalbinarization(tree, score, head=head, h=h)

    fans = {}

    def fan(s):
        s = frozenset(s)
        if s not in fans:
            x = 0
            for i in s:
                x = x | bits[i]
            fans[s] = runs(ctx, x, w)
        return fans[s]

    def encode(comp, fn):
        # scores are pairs compared lexicographically
        if fun == 'complexityfanout':
            return comp * 100 + fn
        return fn * 100 + comp

    def value(t):
        """Maximum score of a bracketing."""
        if isinstance(t, int):
            return encode(fan([t]) + 1, fan([t]))
        a, b = t
        s = cover(t)
        own = encode(fan(s) + fan(cover(a)) + fan(cover(b)), fan(s))
        return maxi(ctx, own, maxi(ctx, value(a), value(b)))

    def conv(node):
        """Result to bracketing."""
        if not isinstance(node[0], mod.Tree):
            ctx.check(node.label == 'ABCDE'[node[0]], 'child is unchanged')
            ctx.check(node.bitset == bits[node[0]], 'bits of child')
            return node[0]
        ctx.check(len(node) == 2, 'result is binary')
        t = (conv(node[0]), conv(node[1]))
        x = 0
        for i in cover(t):
            x = x | bits[i]
        ctx.check(node.bitset == x, 'bitset of artificial node')
        return t
    got = conv(res)
    ctx.check(sorted(res.leaves()) == list(range(k)), 'all children are kept')
    ctx.check(res.label == 'X', 'label of constituent')
    for node in res.subtrees():
        if node is not res and isinstance(node[0], mod.Tree):
            ctx.check(node.label.startswith('X|<'), 'artificial label')
    if head is None:
        cands = bracketings(tuple(range(k)))
    else:
        cands = linear(tuple(i for i in range(k) if i != head), head)
        contfan = ctx.And(fan(range(k)) == 1, *[fan([i]) == 1
                for i in range(k)])
        t = got
        while isinstance(t, tuple):
            ok = isinstance(t[0], int)
            ctx.check(ctx.Or(ok, contfan), 'adds one nonterminal at a time')
            t = t[1]
            if not ok:
                break
        else:
            ctx.check(ctx.Or(t == head, contfan), 'head is added first')
    best = value(got)
    ctx.observe(best)
    ctx.reach('head' if head is not None else 'free')
    for c in cands:
        ctx.check(best <= value(c), 'a better binarization exists: %s'
                % (c, ))


def whole(ctx):
    """optimalbinarize: binary, every constituent covers the same words as
    before, and unbinarize gives back the tree in canonical order."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p.get('unary', 0), cont=p.get('cont', False))
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    hd = ctx.flag('headdriven') if p.get('hd', True) else False
    v = ctx.pick('v', p.get('v', [1, 2, 3]))
    h = ctx.pick('h', [None, 1, 2]) if hd else None
    if h:
        t = tlib.canonical(t)
    tree = tlib.totree(mod.Tree if p.get('cls') else mod.ParentedTree, t)
    res = tt.optimalbinarize(tree, headdriven=hd, h=h, v=v)
    canon = tlib.canonical(t)
    for node in res.subtrees():
        ctx.check(len(node) <= 2, 'at most two children')
        bits = 0
        for a in node.leaves():
            bits = bits | 1 << a
        ctx.check(node.bitset == bits, 'bitset of node')
    # labels
    art = [a for a in res.subtrees() if '|<' in a.label]
    ctx.reach('art' if art else 'noart')

    def par(anc):
        """Parent annotation."""
        return ('^<' + tlib.join(',', anc[:v - 1]) + '>') if v > 1 else ''

    def spine(x):
        """Children of a constituent below artificial nodes."""
        return [z for y in x for z in ([y] if not isinstance(y, mod.Tree)
                or '|<' not in y.label else spine(y))]

    def verify(node, x, anc):
        """Labels consist of the original label and ancestors; artificial
        labels have the children that are covered in order of occurrence, or
        up to h starting with the last one to be attached to the head, which
        is the last child."""
        lab = x[0] + par(anc)
        ctx.check(node.label == lab or (not anc and bool(node.label == x[0])),
                'label')
        if not isinstance(x[1][0], tuple):
            return
        below = [x[0]] + anc
        kids = spine(node)
        first = {min(tlib.leaves(a)): a for a in x[1]}
        ctx.check(len(kids) == len(x[1]) and all(min(a.leaves()) in first
                for a in kids), 'children')
        if hd and len(kids) > 2:
            ctx.check(kids[-1].leaves() == tlib.leaves(x[1][-1]),
                    'head is the innermost child')
        todo = [a for a in node if '|<' in a.label]
        while todo:
            a = todo.pop()
            todo.extend(b for b in a if '|<' in b.label)
            sub = spine(a)
            if hd:
                ctx.check('|<' not in a[0].label, 'left child')
                sub = sub[:h or 999]
            else:
                sub.sort(key=lambda z: min(z.leaves()))
            want = node.label + '|<' + tlib.join(',', [z.label
                    for z in sub]) + '>'
            ctx.check(ctx.Or(a.label == want, a.label == want + par(anc)),
                    'label of artificial node')
        for a in kids:
            verify(a, first[min(a.leaves())], below)
    verify(res, canon, [])
    back = tt.unbinarize(mod.Tree.convert(res))
    ctx.check(tlib.same(ctx, tlib.canonical(tlib.fromtree(back)), canon),
            'unbinarize(optimalbinarize)')
    if not hd:
        ctx.check(tlib.same(ctx, tlib.fromtree(tt.canonicalize(back)), canon),
                'canonicalize')
    ctx.observe(tlib.show(tlib.fromtree(res)))


def default(ctx):
    """factorconstituent is one step of right or left factored binarization
    with labels made of the h neighbouring siblings."""
    p = ctx.params
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    k = p['k']
    labs = [ctx.string('l', 'AB', 1, 1) for _ in range(k)]
    sh = ctx.pick('owner', owners(k, p['w']))
    tree = mod.Tree('X', [mod.Tree(labs[i], [mod.Tree('t', [j]) for j in
            range(p['w']) if sh[j] == i]) for i in range(k)])
    tree = tt.addbitsets(tree)
    factor = ctx.pick('factor', ['right', 'left'])
    h = ctx.pick('h', [999, 1, 0, 2])
    markf = ctx.flag('markfanout')
    thr = ctx.pick('threshold', [2, 1])
    filt = ctx.pick('filter', [(), ('A', )])
    got = tt.factorconstituent(tree, factor=factor, h=h, markfanout=markf,
            threshold=thr, filterlabels=filt)
    ctx.check(got.label == 'X', 'label')
    leaves = {i: [j for j in range(p['w']) if sh[j] == i] for i in range(k)}

    def key(idx):
        return tlib.join(',', [labs[i] for i in idx
                if labs[i] not in filt])
    if k <= thr:
        ctx.check(got is tree, 'unchanged')
        ctx.reach('unchanged')
        return
    ctx.reach('factored')
    if k <= 2:
        ctx.check(len(got) == 1, 'unary')
        ctx.check(got[0].label == 'X|<' + key(range(k)[:h]) + '>', 'label')
        ctx.check(tlib.same(ctx, ('', tlib.fromtree(got[0])[1]),
                ('', tlib.fromtree(tree)[1])), 'children')
        ctx.check(got.bitset == tree.bitset, 'bits')
        return
    node = got
    idx = list(range(k))
    while True:
        ctx.check(len(node) == 2, 'binary')
        ctx.check(node.bitset == sum(1 << j for i in idx for j in leaves[i]),
                'bitset')
        ctx.check(sorted(node.leaves()) == sorted(j for i in idx
                for j in leaves[i]), 'leaves')
        if node is not got:
            if factor == 'right':
                want = key(idx[:h])
            else:
                want = key(idx[max(0, len(idx) - h):] if h else [])
            f = len(tlib.ranges(node.leaves()))
            ctx.check(node.label == 'X|<' + want + '>' + ('_%d' % f
                    if markf and f > 1 else ''), 'artificial label')
        a, b = (node[0], node[1]) if factor == 'right' else (node[1],
                node[0])
        i = idx.pop(0 if factor == 'right' else -1)
        ctx.check(a.label == labs[i], 'child')
        ctx.check(a.leaves() == leaves[i], 'leaves of child')
        node = b
        if len(idx) == 1:
            ctx.check(node.label == labs[idx[0]], 'last child')
            ctx.check(node.leaves() == leaves[idx[0]], 'last child leaves')
            break
    ctx.observe(tlib.show(tlib.fromtree(got)))


def owners(k, w):
    """Assignments of positions to children; children in canonical order."""
    out = [()]
    for _ in range(w):
        out = [a + (i, ) for a in out for i in range(k)
                if i in a or i == len(set(a))]
    return [a for a in out if len(set(a)) == k]


def yieldfunctions(ctx):
    """getyf, getbits, contsets, fanout and complexity describe the bits."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    w = ctx.params['w']
    a, b = ctx.bv('a', w), ctx.bv('b', w)
    ctx.assume(a != 0)
    ctx.assume(a & b == 0)

    class Node:
        def __init__(self, bits):
            self.bitset = bits
    isnone = ctx.flag('none')
    if isnone:
        ctx.assume(b == 0)
    got = tt.getyf(Node(a), None if isnone else Node(b)) \
            if not isnone else tt.getyf(Node(a), Node(b))
    # reference
    out, cur = ';', ','
    for n in range(w):
        x = '0' if (a >> n) & 1 == 1 else ('1' if (b >> n) & 1 == 1 else ',')
        if x != cur:
            out += x
            cur = x
    out = out.rstrip(',')
    ctx.check(got == out, 'yield function')
    ctx.check(not got.endswith(','), 'no trailing gap')
    bits = list(tt.getbits(a))
    ctx.check(bits == [n for n in range(w) if (a >> n) & 1 == 1], 'getbits')
    ctx.reach('ok')
    ctx.observe(got, bits)


HARNESSES = {
    'minimal': dict(fn=minimal, reach=[], params=dict(
        quick=[dict(k=3, w=6), dict(k=3, w=6, headdriven=1, heads=[0, 1, 2]),
            dict(k=4, w=5),
            dict(k=3, w=5, fun=['fanoutcomplexity'], part=1)],
        thorough=[dict(k=4, w=6), dict(k=4, w=6, headdriven=1),
            dict(k=3, w=7, part=1), dict(k=4, w=6, fun=['fanoutcomplexity'])
            ])),
    'whole': dict(fn=whole, reach=['art'], params=dict(
        quick=[dict(n=4, labels='A', unary=0), dict(n=3, labels='AB',
            unary=1, perm=1), dict(n=5, labels='A', v=[2])],
        thorough=[dict(n=5, labels='A', unary=0, v=[1, 2], hd=False),
            dict(n=4, labels='AB', unary=1, perm=1)])),
    'factorconstituent': dict(fn=default, reach=['factored'], params=dict(
        quick=[dict(k=2, w=2), dict(k=3, w=5), dict(k=4, w=5)],
        thorough=[dict(k=4, w=7), dict(k=5, w=6)])),
    'yf': dict(fn=yieldfunctions, reach=['ok'], params=dict(
        quick=[dict(w=5)], thorough=[dict(w=8)])),
}
