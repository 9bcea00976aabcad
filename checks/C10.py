"""Tree traversal, positions and bracket notation of Tree itself."""
import tlib
NEEDS = ['bit']
OUTSIDE = 'Trees with more leaves or unary nodes than stated.'


def traversals(ctx):
    """subtrees, postorder, leaves, height, pos, find, treepositions agree
    with the structure of the tree, for every tree and filter."""
    mod = ctx.mod('tree')
    t = tlib.gentree(ctx, ctx.params['n'],
            lambda: ctx.string('l', 'AB', 1, 1), unary=ctx.params['unary'],
            leafparent=ctx.params.get('pre', True))
    if ctx.params.get('perm'):
        t = tlib.permute(ctx, t)
    tree = tlib.totree(mod.Tree, t)
    nodes = {}

    def index(x, node):
        nodes[id(node)] = x
        for a, b in zip(x[1], node.children):
            if isinstance(a, tuple):
                index(a, b)
    index(t, tree)

    def ref(got):
        return [nodes[id(a)] for a in got]

    def ident(got, want):
        return len(got) == len(want) and all(a is b for a, b in zip(got,
                want))
    ctx.check(ident(ref(tree.subtrees()), tlib.subtrees(t)), 'subtrees')
    ctx.check(ident(ref(tree.postorder()), tlib.postorder(t)), 'postorder')
    cond = lambda x: x.label == 'A'
    ctx.check(ident(ref(tree.subtrees(cond)), [a for a in tlib.subtrees(t)
            if a[0] == 'A']), 'filtered subtrees')
    ctx.check(ident(ref(tree.postorder(cond)), [a for a in tlib.postorder(t)
            if a[0] == 'A']), 'filtered postorder')
    ctx.check(tree.leaves() == tlib.leaves(t), 'leaves')

    def height(x):
        return (1 + max(height(a) for a in x[1]) if isinstance(x, tuple)
                else 1)
    ctx.check(tree.height() == height(t), 'height')
    pre = tlib.preterminals(t)
    ctx.check(ident(ref(tree.pos(nodes=True)), pre), 'preterminal nodes')
    want = [(b, a[0]) for a in pre for b in a[1] if not isinstance(b, tuple)]
    got = tree.pos()
    ctx.check(len(got) == len(want) and ctx.And(*[ctx.And(x[0] == y[0],
            x[1] == y[1]) for x, y in zip(got, want)]), 'tags of leaves')
    first = [a for a in t[1] if isinstance(a, tuple) and a[0] == 'A']
    got = tree.find(lambda x: isinstance(x, mod.Tree) and x.label == 'A')
    ctx.check((got is None) == (not first) and (got is None
            or nodes[id(got)] is first[0]), 'find')
    pos = tlib.positions(t)
    ctx.check(tree.treepositions() == [p for p, _ in pos], 'treepositions')
    ctx.check(tree.treepositions('leaves') == [p for p, a in pos
            if not isinstance(a, tuple)], 'leaf positions')

    def post(x, p=()):
        if not isinstance(x, tuple):
            return [p]
        return [q for i, a in enumerate(x[1])
                for q in post(a, p + (i, ))] + [p]
    ctx.check(tree.treepositions('postorder') == post(t), 'postorder '
            'positions')
    for p, a in pos:
        b = tree[p]
        ctx.check(nodes[id(b)] is a if isinstance(a, tuple) else a == b,
                'node at position')
    lp = [p for p, a in pos if not isinstance(a, tuple)]
    for n, p in enumerate(lp):
        ctx.check(tree.leaf_treeposition(n) == p, 'position of leaf')
    try:
        tree.leaf_treeposition(len(lp))
    except IndexError:
        pass
    else:
        ctx.fail('position of a leaf that does not exist')
    for i in range(len(lp)):
        for j in range(i + 1, len(lp) + 1):
            got = tree.treeposition_spanning_leaves(i, j)
            both = [p for p, a in pos if isinstance(a, tuple) or j == i + 1
                    if lp[i][:len(p)] == p and lp[j - 1][:len(p)] == p]
            ctx.check(got == max(both, key=len), 'lowest spanning node')
    ctx.reach('ok')
    ctx.observe(tlib.show(t), tree.treepositions('postorder'))


def assignment(ctx):
    """Reading, assigning and deleting by tree position affects exactly that
    position."""
    mod = ctx.mod('tree')
    cls = getattr(mod, ctx.pick('cls', ['Tree', 'ParentedTree']))
    t = tlib.gentree(ctx, ctx.params['n'], lambda: 'A', unary=1)
    tree = tlib.totree(cls, t)
    pos = [p for p, _ in tlib.positions(t)]
    p = ctx.pick('pos', pos)
    delete = ctx.flag('delete')

    def change(x, p):
        if len(p) == 1:
            kids = list(x[1])
            kids[p[0]:p[0] + 1] = [] if delete else [('NEW', [9])]
            return (x[0], kids)
        return (x[0], [change(a, p[1:]) if i == p[0] else a
                for i, a in enumerate(x[1])])
    try:
        if delete:
            del tree[p]
        else:
            tree[p] = cls('NEW', [9])
    except IndexError:
        ctx.check(p == (), 'assignment at position refused')
        ctx.reach('root')
        return
    ctx.check(p != (), 'root was replaced')
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), change(t, p)),
            'tree after assignment')
    ctx.reach('assigned')
    ctx.observe(tlib.show(tlib.fromtree(tree)))


def notation(ctx):
    """str() and parse() are inverse for labels of any characters but
    whitespace and brackets; pprint with any margin denotes the same tree."""
    mod = ctx.mod('tree')
    al = ctx.params['alphabet']
    words = ctx.params['words']
    t = tlib.gentree(ctx, ctx.params['n'],
            lambda: ctx.string('l', al, ctx.params['lo'], ctx.params['hi']),
            unary=ctx.params['unary'])
    leaf = (lambda s: s) if words else None
    sent = [ctx.string('w', al, 1, 2) for _ in range(ctx.params['n'])]

    def sub(x):
        if isinstance(x, tuple):
            return (x[0], [sub(a) for a in x[1]])
        return sent[x] if words else x
    cls = getattr(mod, ctx.pick('cls', ['Tree', 'ParentedTree']))
    t = sub(t)
    tree = tlib.totree(cls, t)
    s = ctx.str(tree)
    kw = dict(parse_leaf=None) if words else {}
    back = cls.parse(s, **kw)
    ctx.check(type(back) is cls, 'class of parsed tree')
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t), 'parse(str(tree))')
    ctx.check(ctx.str(back) == s, 'str(parse(s))')
    m = ctx.params.get('margin')
    if m is not None:
        p = tree.pprint(margin=m)
        ctx.check(tlib.same(ctx, tlib.fromtree(cls.parse(p, **kw)), t),
                'parse(pprint(tree))')
    ctx.reach('ok')
    ctx.observe(s)


def malformed(ctx):
    """A bracket string is accepted iff it is one well-formed tree."""
    mod = ctx.mod('tree')
    s = ctx.string('s', '()A ', ctx.params['lo'], ctx.params['hi'])

    def wellformed(s):
        """Reference parser; None if not exactly one tree."""
        toks = []
        for c in s:
            if c == '(' or c == ')':
                toks.append(c)
                glue = c == '('
                continue
            if c == ' ':
                toks.append(' ')
                continue
            if toks and toks[-1] and toks[-1][0] == 'A':
                toks[-1] += 'A'
            else:
                toks.append('A')
        depth, done, n = 0, False, 0
        prev = None
        toks = [a for a in toks if a != ' ']
        i = 0
        stack = [[]]
        while i < len(toks):
            a = toks[i]
            if a == '(':
                if len(stack) == 1 and stack[0]:
                    return None
                label = ''
                if i + 1 < len(toks) and toks[i + 1][0] == 'A':
                    label = toks[i + 1]
                    i += 1
                stack.append((label, []))
            elif a == ')':
                if len(stack) == 1:
                    return None
                label, kids = stack.pop()
                (stack[-1] if len(stack) == 1 else stack[-1][1]).append(
                        (label, kids))
            else:
                if len(stack) == 1:
                    return None
                stack[-1][1].append(a)
            i += 1
        if len(stack) > 1 or len(stack[0]) != 1:
            return None
        return stack[0][0]
    want = wellformed(s)
    try:
        got = mod.Tree.parse(s, parse_leaf=None)
    except ValueError:
        ctx.check(want is None, 'well-formed tree was refused')
        ctx.reach('refused')
        ctx.observe('refused')
        return
    ctx.check(want is not None, 'malformed string was accepted')
    ctx.check(tlib.same(ctx, tlib.fromtree(got), want), 'parsed tree')
    ctx.reach('parsed')
    ctx.observe(tlib.show(tlib.fromtree(got)))


def drawing(ctx):
    """DrawTree: every node and leaf is placed exactly once in its own cell,
    every node but the root has the edge to its parent, leaves appear in
    sentence order on one row, and a parent is above its children."""
    mod = ctx.mod('tree')
    n = ctx.params['n']
    t = tlib.gentree(ctx, n, lambda: 'A', unary=ctx.params['unary'])
    d = mod.DrawTree(tlib.totree(mod.Tree, t), ['w%d' % i for i in range(n)])
    pos = tlib.positions(tlib.canonical(t))
    ctx.check(len(d.nodes) == len(pos) and len(d.coords) == len(pos),
            'every node is drawn once')
    ctx.check(len(set(d.coords.values())) == len(pos), 'cells are distinct')
    ids = {p: i for i, (p, _) in enumerate(pos)}
    for p, a in pos:
        i = ids[p]
        if p == ():
            ctx.check(i not in d.edges, 'edge above the root')
            continue
        ctx.check(d.edges.get(i) == ids[p[:-1]], 'edge to the parent')
        ctx.check(d.coords[i][0] > d.coords[ids[p[:-1]]][0],
                'parent is above child')
        if not isinstance(a, tuple):
            ctx.check(d.nodes[i] == 'w%d' % a, 'word at leaf')
    lv = sorted((a, d.coords[ids[p]]) for p, a in pos
            if not isinstance(a, tuple))
    ctx.check(len({c[0] for _, c in lv}) == 1, 'leaves on one row')
    ctx.check(all(x[1][1] < y[1][1] for x, y in zip(lv, lv[1:])),
            'leaves in sentence order')
    ctx.check(d.coords[0][0] == 0, 'root on first row')
    ctx.reach('drawn')
    ctx.observe(sorted(d.coords.items()))


HARNESSES = {
    'traversals': dict(fn=traversals, reach=['ok'], params=dict(
        quick=[dict(n=2, unary=1), dict(n=3, unary=1), dict(n=3, unary=0,
            perm=1), dict(n=3, unary=0, pre=False)],
        thorough=[dict(n=4, unary=1), dict(n=4, unary=0, perm=1)])),
    'assignment': dict(fn=assignment, reach=['assigned', 'root'],
        params=dict(quick=[dict(n=3)], thorough=[dict(n=4)])),
    'notation': dict(fn=notation, reach=['ok'], params=dict(
        quick=[dict(n=2, unary=0, alphabet='A-=|<>*{}%#', lo=1, hi=2,
            words=True), dict(n=2, unary=1, alphabet='A-|', lo=1, hi=1,
            words=False, margin=8), dict(n=2, unary=0, alphabet='A1,',
            lo=1, hi=1, words=True, margin=12)],
        thorough=[dict(n=3, unary=0, alphabet='A-=|<>*{}%#', lo=1, hi=1,
            words=True), dict(n=3, unary=1, alphabet='A-|', lo=1, hi=1,
            words=False, margin=9)])),
    'malformed': dict(fn=malformed, reach=['refused', 'parsed'], params=dict(
        quick=[dict(lo=0, hi=4), dict(lo=5, hi=6)],
        thorough=[dict(lo=7, hi=8)])),
    'drawing': dict(fn=drawing, reach=['drawn'], params=dict(
        quick=[dict(n=3, unary=1), dict(n=4, unary=0)],
        thorough=[dict(n=4, unary=1), dict(n=5, unary=0)])),
}
