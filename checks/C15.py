"""Punctuation strategies."""
import tlib
from C14 import prune, checkremoved
NEEDS = ['bit']
OUTSIDE = ('Empty constituents, trees that consist of one preterminal, '
        'words or tags other than the stated ones.')


def gen(ctx, n=None):
    p = ctx.params
    n = n or p['n']
    words = [ctx.string('w', p['words'], 1, 1) for _ in range(n)]
    if p.get('flatroot'):
        # some terminals directly under the root
        under = [i for i in range(n) if ctx.flag('underroot')]
        rest = tuple(i for i in range(n) if i not in under)
        pre = lambda i: (tag(ctx), [i])
        kids = [pre(i) for i in under]
        if rest:
            def build(s):
                if isinstance(s, int):
                    return pre(s)
                return ('X', [build(a) for a in s])
            sub = build(ctx.pick('shape', tlib.hierarchies(rest,
                    p.get('cont', False))))
            if isinstance(sub[1][0], tuple) and ctx.flag('two'):
                kids.extend(sub[1])
            else:
                kids.append(('Y', [sub]) if ctx.flag('wrap') else sub)
        t = ('R', kids)
    else:
        t = ('R', [tlib.gentree(ctx, n, lambda: 'X', pos=lambda: tag(ctx),
                unary=p.get('unary', 0))])
    t = tlib.canonical(t)
    return t, words


def tag(ctx):
    return ctx.pick('tag', ctx.params.get('tags', ['P', '$.']))


def info(ctx, t, words):
    """Indices of punctuation."""
    tags = {x[1][0]: x[0] for x in tlib.preterminals(t)}
    return {i for i, w in enumerate(words)
            if tags[i] in PTAGS or w in PWORDS}


PTAGS = ('$.', '$(', ',', 'PUNCT')
PWORDS = ('.', ',', '"', '(', ')', '-', '?', '\xab', '\xbb')


def nicetree(ctx, tree, mod):
    for node in tree.subtrees():
        ctx.check(len(node) > 0 or node is tree, 'no empty constituents')
        for i, a in enumerate(node):
            if isinstance(a, mod.Tree):
                ctx.check(a.parent is node and a.parent_index == i,
                        'parent pointers')


def start(ctx):
    mod, pu = ctx.mod('tree'), ctx.mod('punctuation')
    t, words = gen(ctx)
    tree = tlib.totree(mod.ParentedTree, t)
    return mod, pu, t, words, tree, list(words), info(ctx, t, words)


def removing(ctx):
    mod, pu, t, words, tree, sent, punct = start(ctx)
    for node in tree.subtrees(lambda n: isinstance(n[0], int)):
        ctx.check(pu.ispunct(sent[node[0]], node) == (node[0] in punct),
                'ispunct')
    how = ctx.pick('how', ['remove', 'removeall'])
    pu.applypunct(how, tree, sent)
    if how == 'removeall':
        punct = {a[1][0] for a in t[1] if not isinstance(a[1][0], tuple)}
    checkremoved(ctx, tree, sent, t, words, punct)
    nicetree(ctx, tree, mod)
    ctx.reach('some' if punct else 'none')
    ctx.observe(tlib.show(tlib.fromtree(tree)), sent)


LETTERS = ''.join(chr(n) for r in ((48, 58), (65, 91), (97, 123), (192, 215),
        (216, 247), (248, 256), (0x391, 0x3a2), (0x410, 0x450))
        for n in range(*r))
MARKS = '.,():-";?/!*&`[]<>{}|=\xab\xbb\xb7'


def recognizing(ctx):
    """Words of letters and digits are not punctuation, marks are."""
    p = ctx.params
    mod, pu = ctx.mod('tree'), ctx.mod('punctuation')
    label = ctx.pick('tag', ['P', 'NN', '$,', '.', '-LRB-', 'PONCT'])
    word = ctx.string('w', p['words'], 1, p.get('len', 1))
    tree = mod.ParentedTree('R', [mod.ParentedTree(label, [0]),
            mod.ParentedTree('P', [1])])
    want = label not in ('P', 'NN') or p['mark']
    ctx.check(pu.ispunct(word, tree[0]) == want, 'ispunct')
    sent = [word, 'x']
    pu.applypunct('remove', tree, sent)
    ctx.check(len(sent) == (1 if want else 2), 'removed')
    ctx.reach('mark' if want else 'word')
    ctx.observe(len(sent))


PRUNE = ('``', "''", '"', '.')


def pruning(ctx):
    """Quotes and periods at the beginning and end are removed."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    n = len(words)
    a = 0
    while a < n and words[a] in PRUNE:
        a += 1
    b = n
    while b > a and words[b - 1] in PRUNE:
        b -= 1
    gone = set(range(a)) | set(range(b, n))
    sent2 = list(words)
    pu.punctprune(None, sent2)
    pu.punctprune(tree, sent)
    ctx.check(len(sent2) == b - a, 'length without tree')
    for x, y in zip(sent2, words[a:b]):
        ctx.check(x == y, 'words without tree')
    checkremoved(ctx, tree, sent, t, words, gone)
    nicetree(ctx, tree, mod)
    ctx.reach('some' if gone else 'none')
    ctx.observe(sent, tlib.show(tlib.fromtree(tree)))


def same(ctx, tree, want, msg):
    ctx.check(tlib.same(ctx, tlib.canonical(tlib.fromtree(tree)),
            tlib.canonical(want)), msg)


def rooted(ctx):
    """All punctuation becomes a child of the root."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    pu.applypunct('root', tree, sent)
    rest = prune(t, punct) or ('R', [])
    tags = {x[1][0]: x[0] for x in tlib.preterminals(t)}
    want = (rest[0], rest[1] + [(tags[i], [i]) for i in sorted(punct)])
    same(ctx, tree, want, 'punctuation under root')
    ctx.check(len(sent) == len(words), 'sentence')
    nicetree(ctx, tree, mod)
    ctx.reach('some' if punct else 'none')
    ctx.observe(tlib.show(tlib.canonical(tlib.fromtree(tree))))


def lowering(ctx):
    """punctlower attaches punctuation to the lowest constituent found from
    the root whose span includes it."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    pu.punctlower(tree, sent)
    cur = t
    for i in sorted(punct):
        pre = next(x for x in tlib.preterminals(cur) if x[1][0] == i)
        cur = prune(cur, {i}) or ('R', [])

        def lower(node):
            for c in sorted((c for c in node[1]
                    if isinstance(c[1][0], tuple)), key=tlib.leaves):
                if i < min(tlib.leaves(c)):
                    break
                if i < max(tlib.leaves(c)):
                    return (node[0], [lower(d) if d is c else d
                            for d in node[1]])
            return (node[0], node[1] + [pre])
        cur = lower(cur)
    same(ctx, tree, cur, 'punctuation lowered')
    nicetree(ctx, tree, mod)
    ctx.reach('some' if punct else 'none')
    ctx.observe(tlib.show(tlib.canonical(tlib.fromtree(tree))))


def raised(t, i):
    """Attach a punctuation child of the root to the highest constituent
    with a child that starts right after it."""
    pre = next(a for a in t[1] if a[1] == [i])
    if len(t[1]) == 1:
        return t
    t = (t[0], [a for a in t[1] if a is not pre])
    done = []

    def visit(x):
        if done or not isinstance(x[1][0], tuple):
            return x
        if any(min(tlib.leaves(a)) == i + 1 for a in x[1]):
            done.append(1)
            return (x[0], x[1] + [pre])
        return (x[0], [visit(a) for a in x[1]])
    t = visit(t)
    return t if done else (t[0], t[1] + [pre])


def raising(ctx):
    """punctraise: only punctuation under the root moves; it is attached to
    the highest constituent with a child starting right after it;
    constituents do not become more discontinuous."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    every = ctx.flag('rootpreterms')
    under = [a[1][0] for a in t[1] if not isinstance(a[1][0], tuple)]
    if not every:
        under = [a for a in under if a in punct]
    before = {id(a): tlib.fanout(tlib.fromtree(a)) for a in tree.subtrees()}
    pu.punctraise(tree, sent, every)
    want = t
    for i in reversed(under):
        want = raised(want, i)
    same(ctx, tree, want, 'constituents after punctraise')
    for a in tree.subtrees():
        ctx.check(tlib.fanout(tlib.fromtree(a)) <= before[id(a)],
                'fan-out increased')
    ctx.check(sorted(tree.leaves()) == list(range(len(words))), 'words')
    nicetree(ctx, tree, mod)
    ctx.reach('some' if under else 'none')
    ctx.observe(tlib.show(tlib.fromtree(tree)))


MATCH = {'"': '"', "'": "'", '(': ')', '-': '-', '\xab': '\xbb'}


class Node:
    def __init__(self, t, parent=None):
        self.label, self.parent = t[0], parent
        self.kids = [Node(a, self) if isinstance(a, tuple) else a
                for a in t[1]]

    def leaves(self):
        return [x for a in self.kids for x in (a.leaves()
                if isinstance(a, Node) else [a])]

    def detach(self):
        par = self.parent
        par.kids = [a for a in par.kids if a is not self]
        if not par.kids and par.parent is not None:
            par.detach()

    def ref(self):
        return (self.label, [a.ref() if isinstance(a, Node) else a
                for a in self.kids])


def balanced(t, words, tags):
    """Reference for balanced punctuation."""
    root = Node(t)
    pre = {}

    def visit(x):
        if isinstance(x.kids[0], Node):
            for a in x.kids:
                visit(a)
        else:
            pre[x.kids[0]] = x
    visit(root)
    isopen = []  # (closing symbol, index)
    for i, w in enumerate(words):
        if tags[i] not in PTAGS:
            continue
        left = [j for c, j in isopen if w == c]
        if left:
            a, b = pre[left[0]], pre[i]
            isopen = [x for x in isopen if not w == x[0]]
            if max(a.parent.leaves()) == i - 1:
                new = a.parent
                b.detach()
                b.parent = new
                new.kids.append(b)
            elif min(b.parent.leaves()) == left[0] + 1:
                new = b.parent
                a.detach()
                a.parent = new
                new.kids.append(a)
            continue
        for o, c in MATCH.items():
            if w == o:
                isopen = [x for x in isopen if x[0] != c] + [(c, i)]
    return root.ref()


def balancing(ctx):
    """balancedpunctraise: matching marks are brought under one constituent
    when one of them is adjacent to the constituent of the other."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    tags = {x[1][0]: x[0] for x in tlib.preterminals(t)}
    pu.balancedpunctraise(tree, sent)
    want = balanced(t, words, tags)
    same(ctx, tree, want, 'constituents after balancedpunctraise')
    nicetree(ctx, tree, mod)
    ctx.reach('moved' if tlib.canonical(t) != tlib.canonical(want)
            else 'same')
    ctx.observe(tlib.show(tlib.fromtree(tree)))


def moving(ctx):
    """applypunct: the composition of the steps, in canonical order."""
    mod, pu, t, words, tree, sent, punct = start(ctx)
    how = ctx.pick('how', ctx.params['how'])
    pu.applypunct(how, tree, sent)
    cur = list(words)
    if how == 'prune':
        n = len(words)
        a = 0
        while a < n and words[a] in PRUNE:
            a += 1
        b = n
        while b > a and words[b - 1] in PRUNE:
            b -= 1
        t = prune(t, set(range(a)) | set(range(b, n))) or ('R', [])
        from C14 import renumber
        t = renumber(t, {i: i - a for i in range(a, b)})
        cur = words[a:b]
    ctx.check(len(sent) == len(cur), 'length')
    for x, y in zip(sent, cur):
        ctx.check(x == y, 'words')
    if not cur:
        ctx.check(len(tree) == 0, 'empty')
        return
    punct = info(ctx, t, cur)
    under = [a[1][0] for a in t[1] if not isinstance(a[1][0], tuple)]
    if how != 'moveall':
        under = [a for a in under if a in punct]
    for i in reversed(under):
        t = raised(t, i)
    tags = {x[1][0]: x[0] for x in tlib.preterminals(t)}
    t = balanced(t, cur, tags)
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), tlib.canonical(t)),
            'tree after applypunct')
    nicetree(ctx, tree, mod)
    ctx.reach('moved')
    ctx.observe(tlib.show(tlib.fromtree(tree)))


HARNESSES = {
    'recognize': dict(fn=recognizing, reach=[], params=dict(
        quick=[dict(words=LETTERS, mark=False), dict(words=MARKS, mark=True),
            dict(words='0aB\xe9', len=2, mark=False)])),
    'remove': dict(fn=removing, reach=['some', 'none'], params=dict(
        quick=[dict(n=3, words='a.', unary=1, tags=['P', 'PUNCT']),
            dict(n=4, words='a(', flatroot=1, tags=['P'], cont=True),
            dict(n=3, words='a.', unary=2, tags=['P']),
            dict(n=3, words='a,', flatroot=1)],
        thorough=[dict(n=4, words='a.', unary=1), dict(n=4, words='a,',
            flatroot=1)])),
    'prune': dict(fn=pruning, reach=['some', 'none'], params=dict(
        quick=[dict(n=3, words='a."', tags=['P'], unary=1),
            dict(n=4, words='a."', flatroot=1, tags=['P'], cont=True)],
        thorough=[dict(n=5, words='a."', tags=['P'])])),
    'root': dict(fn=rooted, reach=['some', 'none'], params=dict(
        quick=[dict(n=3, words='a.', unary=1, tags=['P', '$.']),
            dict(n=4, words='a.', tags=['P']),
            dict(n=3, words='a.', tags=['P'], unary=2)],
        thorough=[dict(n=5, words='a.', tags=['P'])])),
    'lower': dict(fn=lowering, reach=['some'], params=dict(
        quick=[dict(n=4, words='a.', tags=['P'], flatroot=1),
            dict(n=3, words='a.', unary=1)],
        thorough=[dict(n=5, words='a.', tags=['P'], flatroot=1)])),
    'raise': dict(fn=raising, reach=['some', 'none'], params=dict(
        quick=[dict(n=4, words='a.', tags=['P'], flatroot=1),
            dict(n=3, words='a.', flatroot=1), dict(n=5, words='a.',
            tags=['P'], flatroot=1, cont=True)],
        thorough=[dict(n=5, words='a.', tags=['P'], flatroot=1)])),
    'balanced': dict(fn=balancing, reach=['moved', 'same'], params=dict(
        quick=[dict(n=4, words='a"', tags=['$(']), dict(n=4, words='a()',
            tags=['$('], flatroot=1, cont=True),
            dict(n=3, words='a"', tags=['$('], unary=2),
            dict(n=3, words='a\xab\xbb', tags=['$(']),
            dict(n=3, words='a(")', tags=['P', '$('])],
        thorough=[dict(n=5, words='a"', tags=['$(']), dict(n=5, words='a()',
            tags=['$('], flatroot=1, cont=True)])),
    'move': dict(fn=moving, reach=['moved'], params=dict(
        quick=[dict(n=4, words='a".', tags=['$('], flatroot=1, cont=True,
                how=['move', 'moveall', 'prune']),
            dict(n=2, words='a"', unary=2, how=['move', 'prune']),
            dict(n=3, words='a"', flatroot=1, how=['move', 'moveall'])],
        thorough=[dict(n=5, words='a"', tags=['$('], flatroot=1, cont=True,
            how=['move', 'moveall', 'prune'])])),
}
