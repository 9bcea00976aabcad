"""ParentedTree: container behaviour and parent pointers."""
NEEDS = ['bit']
OUTSIDE = ('Histories longer than the stated number of operations, nodes with '
        'more than five children, inserting a node below itself, and direct '
        'assignment to the children attribute.')


class Node:
    """Reference node: plain list of children."""
    def __init__(self, tree):
        self.tree = tree
        self.kids = []


class World:
    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.nodes = []   # all reference nodes that were ever created
        self.bytree = {}

    def new(self, label, kids):
        t = self.cls(label, [k.tree if isinstance(k, Node) else k
                for k in kids])
        return self.add(t, kids)

    def add(self, t, kids):
        n = Node(t)
        n.kids = list(kids)
        self.nodes.append(n)
        self.bytree[id(t)] = n
        return n

    def parent(self, n):
        for m in self.nodes:
            for k in m.kids:
                if k is n:
                    return m
        return None

    def verify(self):
        """Children lists equal the model's and parents are consistent."""
        ctx = self.ctx
        for n in self.nodes:
            t = n.tree
            kids = list(t.children)
            ctx.check(len(kids) == len(n.kids), 'number of children')
            for a, b in zip(kids, n.kids):
                ctx.check((a is b.tree) if isinstance(b, Node)
                        else (a == b), 'children equal those of plain list')
            p = self.parent(n)
            if p is None:
                ctx.check(t.parent is None, 'parent of a node not in a tree')
                ctx.check(t.parent_index is None, 'parent_index of root')
                ctx.check(t.left_sibling is None and t.right_sibling is None,
                        'siblings of root')
                ctx.check(t.root is t and t.treeposition == (),
                        'root of root')
                continue
            ctx.check(t.parent is p.tree, 'parent pointer')
            i = [x is n for x in p.kids].index(True)
            ctx.check(sum(x is n for x in p.kids) == 1,
                    'node occurs once in its parent')
            ctx.check(t.parent_index == i, 'parent_index')
            sib = p.kids[i - 1] if i else None
            ctx.check(t.left_sibling is sib.tree if isinstance(sib, Node)
                    else t.left_sibling == sib, 'left sibling')
            sib = p.kids[i + 1] if i + 1 < len(p.kids) else None
            ctx.check(t.right_sibling is sib.tree if isinstance(sib, Node)
                    else t.right_sibling == sib, 'right sibling')
            r, pos = n, ()
            while self.parent(r) is not None:
                q = self.parent(r)
                pos = ([x is r for x in q.kids].index(True), ) + pos
                r = q
            ctx.check(t.root is r.tree, 'root')
            ctx.check(t.treeposition == pos, 'treeposition')
            ctx.check(t.root[t.treeposition] is t, 'position leads to node')

    def below(self, n, m):
        """m is n or an ancestor of n."""
        while n is not None:
            if n is m:
                return True
            n = self.parent(n)
        return False


def arg(w, pool, target):
    """A child to insert: leaf, fresh node, or a node that may already have
    a parent (not an ancestor of target: that would be circular)."""
    cands = [99] + [a for a in pool if not w.below(target, a)]
    return w.ctx.pick('child', cands)


def haschild(w, k):
    return isinstance(k, Node) and w.parent(k) is not None


def raw(k):
    return k.tree if isinstance(k, Node) else k


def step(w, op, pool):
    """Apply one operation to tree and model."""
    ctx = w.ctx
    target = ctx.pick('target', pool[:ctx.params['targets']])
    t, kids = target.tree, target.kids
    n = len(kids)
    if op in ('append', 'insert', 'set'):
        k = arg(w, pool, target)
        i = n if op == 'append' else ctx.int('i', -n - 2, n + 1)
        i = int(i)
        has = haschild(w, k)
        try:
            if op == 'append':
                t.append(raw(k))
            elif op == 'insert':
                t.insert(i, raw(k))
            else:
                t[i] = raw(k)
        except ValueError:
            ctx.check(has, 'insertion of a free node refused')
            return
        except IndexError:
            ctx.check(op == 'set' and not -n <= i < n,
                    'IndexError for valid index')
            return
        if op == 'set':
            ctx.check(-n <= i < n, 'assignment to invalid index accepted')
            if kids[i] is k:
                return
            ctx.check(not has, 'node shared by two parents')
            kids[i] = k
        else:
            ctx.check(not has, 'node shared by two parents')
            kids.insert(i, k)
    elif op in ('del', 'pop'):
        i = int(ctx.int('i', -n - 2, n + 1))
        try:
            if op == 'del':
                del t[i]
            else:
                got = t.pop(i)
        except IndexError:
            ctx.check(not -n <= i < n, 'IndexError for valid index')
            return
        ctx.check(-n <= i < n, 'deletion of invalid index accepted')
        k = kids.pop(i)
        if op == 'pop':
            ctx.check(got is raw(k) if isinstance(k, Node) else got == k,
                    'pop returns the removed child')
    elif op in ('delslice', 'setslice'):
        a = int(ctx.int('a', -n - 1, n + 1))
        b = int(ctx.int('b', -n - 1, n + 1))
        if op == 'delslice':
            del t[a:b]
            del kids[a:b]
            return
        new = [arg(w, pool, target) for _ in range(ctx.choice('len', 3))]
        dup = (len(new) == 2 and new[0] is new[1]
                and isinstance(new[0], Node))
        try:
            t[a:b] = [raw(k) for k in new]
        except ValueError:
            ctx.check(dup or any(haschild(w, k) for k in new),
                    'slice assignment of free nodes refused')
            return
        ctx.check(not dup, 'node inserted twice')
        # children being replaced may be assigned again
        ctx.check(not any(haschild(w, k) and not any(k is x
                for x in kids[a:b]) for k in new), 'node shared')
        kids[a:b] = new
    elif op == 'extend':
        new = [arg(w, pool, target) for _ in range(2)]
        try:
            t.extend([raw(k) for k in new])
        except ValueError:
            # children before the offending one may have been added
            seen = []
            for k in new:
                if haschild(w, k):
                    break
                seen.append(k)
                kids.append(k)
            ctx.check(len(seen) < len(new), 'extend with free nodes refused')
            if len(t.children) != len(kids):
                del kids[n:]
            return
        for k in new:
            ctx.check(not haschild(w, k), 'node shared by two parents')
            kids.append(k)
    elif op == 'remove':
        k = ctx.pick('which', pool + [0, 99])
        idx = [j for j, x in enumerate(kids) if raw(x) == raw(k)]
        try:
            t.remove(raw(k))
        except ValueError:
            ctx.check(not idx, 'remove did not find child')
            return
        ctx.check(bool(idx), 'remove of an absent child accepted')
        kids.pop(idx[0])
    elif op == 'detach':
        got = t.detach()
        ctx.check(got is t, 'detach returns node')
        p = w.parent(target)
        if p is not None:
            p.kids = [x for x in p.kids if x is not target]
    elif op == 'disown':
        got = t.disown()
        ctx.check(len(got) == n and all(x is raw(k) if isinstance(k, Node)
                else x == k for x, k in zip(got, kids)), 'disown')
        target.kids = []
    elif op == 'splicebelow':
        got = t.splicebelow('NEW')
        ctx.check(got.label == 'NEW', 'label of new node')
        new = w.add(got, kids)
        target.kids = [new]
    elif op == 'spliceabove':
        p = w.parent(target)
        if p is None:
            return
        got = t.spliceabove('NEW')
        ctx.check(got.label == 'NEW', 'label of new node')
        i = [x is target for x in p.kids].index(True)
        p.kids[i] = w.add(got, [target])
    elif op == 'prune':
        p = w.parent(target)
        if p is None:
            return
        t.prune()
        i = [x is target for x in p.kids].index(True)
        p.kids[i:i + 1] = kids
        target.kids = []
    ctx.reach(op)


def history(ctx):
    """Any history of operations on a parented tree: children lists behave
    as plain lists, every parent pointer and derived property is exact, also
    after an operation that was refused."""
    mod = ctx.mod('tree')
    w = World(ctx, mod.ParentedTree)
    c = ctx.params.get('labels')
    lab = (lambda: ctx.string('label', 'AB', 1, 1)) if c else (lambda: 'X')
    d = w.new(lab(), [1])
    e = w.new(lab(), [1 if c else 2])
    a = w.new('A', [d, e])
    b = w.new(lab(), [1 if c else 3])
    root = w.new('S', [0, a, b])
    spare = w.new(lab(), [1 if c else 4])
    pool = [root, a, b, d, spare] if not c else [a, root, d, e, b, spare]
    w.verify()
    for _ in range(ctx.params['n']):
        step(w, ctx.pick('op', ctx.params['ops']), pool)
        w.verify()
    ctx.observe([[x.tree.label, len(x.tree.children)] for x in w.nodes])


def construct(ctx):
    """Construction: children get the new node as parent; using a node that
    has a parent or using a node twice is refused and changes nothing."""
    mod = ctx.mod('tree')
    w = World(ctx, mod.ParentedTree)
    a, b = w.new('A', [0]), w.new('B', [1])
    s = w.new('S', [b])
    pool = [a, b, s, 5]
    new = [ctx.pick('kid', pool) for _ in range(ctx.choice('len', 4))]
    bad = any(haschild(w, k) for k in new) or any(
            x is y and isinstance(x, Node) for i, x in enumerate(new)
            for y in new[:i])
    try:
        t = w.cls('T', [raw(k) for k in new])
    except ValueError:
        ctx.check(bad, 'construction from free nodes refused')
        ctx.reach('refused')
    else:
        ctx.check(not bad, 'node shared by two parents')
        w.add(t, new)
        ctx.reach('made')
    w.verify()
    ctx.observe(len(new))


def mixed(ctx):
    """A node that is not a ParentedTree is refused, without effect."""
    mod = ctx.mod('tree')
    w = World(ctx, mod.ParentedTree)
    a = w.new('A', [0])
    s = w.new('S', [a, 1])
    bad = mod.Tree('X', [2])
    op = ctx.choice('op', 5)
    try:
        if op == 0:
            s.tree.append(bad)
        elif op == 1:
            s.tree.insert(0, bad)
        elif op == 2:
            s.tree[0] = bad
        elif op == 3:
            s.tree[0:1] = [bad]
        else:
            w.cls('T', [bad])
    except TypeError:
        ctx.reach('refused')
    else:
        ctx.fail('plain tree accepted in parented tree')
    w.verify()
    ctx.observe(op)


def copies(ctx):
    """copy(deep), convert and freeze give independent trees with exact
    parent pointers; immutable variants refuse every modification."""
    import tlib
    mod = ctx.mod('tree')
    t = tlib.gentree(ctx, ctx.params['n'], lambda: ctx.string('l', 'AB', 1, 1),
            unary=1)
    cls = ctx.pick('cls', ['Tree', 'ParentedTree', 'ImmutableTree',
            'ImmutableParentedTree'])
    src = ctx.pick('src', ['Tree', 'ParentedTree'])
    orig = tlib.totree(getattr(mod, src), t)
    how = ctx.pick('how', ['convert', 'copy', 'freeze'])
    if how == 'convert':
        new = getattr(mod, cls).convert(orig)
    elif how == 'copy':
        new = orig.copy(deep=True)
        cls = src
    else:
        new = orig.freeze()
        cls = 'Immutable' + src
    ctx.check(type(new).__name__ == cls, 'class of result')
    ctx.check(tlib.same(ctx, tlib.fromtree(new), t), 'content of result')
    ctx.check(tlib.same(ctx, tlib.fromtree(orig), t), 'original changed')
    olds = {id(a) for a in orig.subtrees()}
    for node in new.subtrees():
        ctx.check(id(node) not in olds, 'node shared with the original')
        ctx.check(type(node).__name__ == cls, 'class of node')
        if 'Parented' in cls:
            for k in node:
                if isinstance(k, mod.Tree):
                    ctx.check(k.parent is node, 'parent in result')
    if 'Parented' in cls:
        ctx.check(new.parent is None, 'parent of root')
    ctx.reach(how)
    if cls.startswith('Immutable'):
        op = ctx.choice('op', 8)
        try:
            if op == 0:
                new[0] = 5
            elif op == 1:
                del new[0]
            elif op == 2:
                new.append(5)
            elif op == 3:
                new.extend([5])
            elif op == 4:
                new.insert(0, 5)
            elif op == 5:
                new.pop()
            elif op == 6:
                new.remove(new[0])
            else:
                new[0:1] = []
        except ValueError:
            ctx.reach('refused')
        else:
            ctx.fail('immutable tree was modified')
        ctx.check(tlib.same(ctx, tlib.fromtree(new), t),
                'immutable tree changed')
    ctx.observe(tlib.show(tlib.fromtree(new)))


ALL = ['append', 'insert', 'set', 'del', 'pop', 'delslice', 'setslice',
        'extend', 'remove', 'detach', 'disown', 'splicebelow', 'spliceabove',
        'prune']
SHORT = ['append', 'insert', 'set', 'pop', 'detach', 'disown',
        'splicebelow', 'spliceabove', 'prune']
HARNESSES = {
    'history': dict(fn=history, reach=['append', 'set', 'pop'], params=dict(
        quick=[dict(n=1, targets=3, ops=ALL),
            dict(n=2, targets=2, ops=SHORT)],
        thorough=[dict(n=2, targets=3, ops=ALL),
            dict(n=3, targets=2, ops=['append', 'set', 'pop', 'detach',
                'disown', 'splicebelow', 'spliceabove', 'prune'])])),
    'remove': dict(fn=history, reach=['remove'], params=dict(
        quick=[dict(n=1, targets=2, labels=1, ops=['remove'])],
        thorough=[dict(n=2, targets=2, labels=1, ops=['remove', 'pop',
            'append'])])),
    'equal': dict(fn=history, reach=['set', 'detach'], params=dict(
        quick=[dict(n=1, targets=4, labels=1, ops=ALL)],
        thorough=[dict(n=2, targets=2, labels=1, ops=SHORT)])),
    'construct': dict(fn=construct, reach=['made', 'refused'],
        params=dict(quick=[dict()])),
    'mixed': dict(fn=mixed, reach=['refused'], params=dict(quick=[dict()])),
    'copies': dict(fn=copies, reach=['convert', 'copy', 'freeze',
        'refused'], params=dict(quick=[dict(n=2)], thorough=[dict(n=3)])),
}
