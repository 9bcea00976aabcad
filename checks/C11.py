"""Markovized binarization is lossless."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Constituents with more children than stated, labels containing '
        '|< or ^<, and terminals with siblings.')


def gen(ctx):
    p = ctx.params
    if p.get('flat'):
        m = p['n']
        t = ('S', [(ctx.string('l', p['labels'], 1, p.get('ll', 1)), [i])
                for i in range(m)])
        if p.get('nested'):
            i = ctx.choice('nested', m)
            k = list(t[1])
            k[i] = ('X', [('Y', [i]), ('Z', [m]), ('Z', [m + 1])][:3])
            t = (t[0], k)
        return t
    return tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1,
            p.get('ll', 1)), unary=p.get('unary', 0),
            cont=p.get('cont', False))


def options(ctx):
    return {k: ctx.pick(k, v) if isinstance(v, list) else v
            for k, v in ctx.params['opts'].items()}


class Ids(dict):
    """Numeric ids for artificial labels."""
    def __init__(self, ctx):
        self.seen = []

    def __getitem__(self, key):
        for n, a in enumerate(self.seen):
            if a == key:
                return n
        self.seen.append(key)
        return len(self.seen) - 1


def width(t):
    return max((len(a[1]) for a in tlib.subtrees(t)), default=0)


def roundtrip(ctx):
    """unbinarize(binarize(tree, **options)) == tree for every combination of
    options; after binarization every constituent has at most two children
    (or threshold), and the same words in the same order."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = gen(ctx)
    opts = options(ctx)
    cls = getattr(mod, ctx.pick('cls', ctx.params.get('cls',
            ['ParentedTree'])))
    tree = tlib.totree(cls, t)
    heads = ctx.params.get('heads')
    if heads:
        for node in tree.subtrees(lambda n: len(n) > 1):
            h = ctx.choice('head', len(node) + 1)
            if h:
                node[h - 1].type = mod.HEAD
    if opts.pop('ids', None):
        opts['ids'] = Ids(ctx)
    got = tt.binarize(tree, **opts)
    ctx.check(got is tree, 'returns the tree it was given')
    b = tlib.fromtree(tree)
    ctx.check(width(b) <= max(2, opts.get('threshold', 2)),
            'number of children after binarization')
    ctx.check(tlib.leaves(b) == tlib.leaves(t), 'words after binarization')
    ctx.check(tlib.same(ctx, ('', [a for a in tlib.preterminals(b)
            if isinstance(a, tuple)]), ('', tlib.preterminals(t)))
            if not opts.get('vertmarkov', 1) > 1 and not (
                opts.get('leftmostunary') or opts.get('rightmostunary'))
            else True, 'tags after binarization')
    if cls is mod.ParentedTree:
        for node in tree.subtrees():
            for a in node:
                if isinstance(a, mod.Tree):
                    ctx.check(a.parent is node, 'parent pointers')
    res = tt.unbinarize(tree)
    ctx.check(tlib.same(ctx, tlib.fromtree(res), t), 'unbinarize(binarize)')
    if cls is mod.ParentedTree:
        for node in res.subtrees():
            for a in node:
                if isinstance(a, mod.Tree):
                    ctx.check(a.parent is node, 'parent pointers (2)')
    ctx.reach('ok')
    ctx.observe(tlib.show(b))


def labels(ctx):
    """Labels of artificial nodes: the next h siblings and v - 1 ancestors,
    for left and right factored binarization."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    t = gen(ctx)
    h = ctx.pick('horzmarkov', [0, 1, 2, 999])
    v = ctx.pick('vertmarkov', ctx.params.get('v', [1, 2, 3]))
    factor = ctx.pick('factor', ['right', 'left'])
    artpa = ctx.flag('artpa')
    got = tlib.fromtree(tt.binarize(tlib.totree(mod.Tree, t), factor=factor,
            horzmarkov=h, vertmarkov=v, artpa=artpa))

    def conv(x, anc):
        if not isinstance(x[1][0], tuple):
            return x
        par = ''
        if v > 1 and anc:
            par = '^<' + tlib.join(',', anc[:v - 1]) + '>'
        kids = [conv(a, [x[0]] + anc) for a in x[1]]
        labs = [a[0] for a in x[1]]
        n = len(kids)
        art = par if artpa else ''
        if n > 2:
            if factor == 'right':
                cur = kids[-1]
                for i in range(n - 2, -1, -1):
                    new = [kids[i], cur]
                    cur = (x[0] + '|<' + tlib.join(',', labs[i:][:h]) + '>'
                            + art, new)
            else:
                cur = kids[0]
                for i in range(1, n):
                    new = [cur, kids[i]]
                    cur = (x[0] + '|<' + tlib.join(',', labs[max(0,
                            i + 1 - h):i + 1]) + '>' + art, new)
            return (x[0] + par, cur[1])
        return (x[0] + par, kids)
    want = conv(t, [])
    ctx.check(tlib.same(ctx, got, want), 'binarized tree')
    ctx.reach('ok')
    ctx.observe(tlib.show(got))


def context(ctx):
    """Labels of artificial nodes with the options that select what they
    contain: the siblings still to come (h of those not filtered), preceded
    by direction, head, siblings already generated and previous siblings."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    p = ctx.params
    n = p['n']
    t = gen(ctx)
    o = options(ctx)
    labelfun = o.pop('labelfun', None)
    if labelfun:
        o['labelfun'] = lambda a: a.label + '/X'
    head = None
    tree = tlib.totree(mod.Tree, t)
    if p.get('heads'):
        head = ctx.choice('head', n)
        tree[head].type = mod.HEAD
    got = tlib.fromtree(tt.binarize(tree, **o))
    labs = [a[0] + '/X' if labelfun else a[0] for a in t[1]]
    keep = [not any(bool(a[0] == f) for f in o.get('filterlabels', ()))
            for a in t[1]]
    h, r = o.get('horzmarkov', 999), o.get('revhorzmarkov', 0)
    right = o.get('factor', 'right') == 'right'

    def window(idx):
        return [labs[i] for i in idx if keep[i]]

    def label(i, tail=''):
        out = ''
        if o.get('direction'):
            out = 'l:' if right else 'r:'
        if o.get('markhead'):
            out = out + labs[head] + ';'
        if o.get('dot'):
            out = out + tlib.join(',', window(range(i))) + '.'
        if r and i:
            out = out + tlib.join(',', window(range(max(i - r, 0), i)
                    if right else range(n - i, min(n - i + r, n)))) + ';'
        if right:
            out = out + tlib.join(',', window(range(i, n))[:h])
        else:
            w = window(range(n - i))
            out = out + tlib.join(',', w[max(0, len(w) - h):])
        return 'S|' + '<' + tail + out + '>'
    kids = list(t[1])
    if n <= 2:
        want = ('S', kids)
    else:
        last = n - 1 if o.get('rightmostunary') else n - 2
        tail = o.get('tailmarker', '')
        if right:
            cur = [kids[n - 1]] if last == n - 1 else kids[n - 2:]
            for i in range(last, 0, -1):
                cur = [kids[i - 1], (label(i, tail if i + 1 == n else ''),
                        cur)]
        else:
            cur = [kids[0]] if last == n - 1 else kids[:2]
            for i in range(last, 0, -1):
                cur = [(label(i, tail if i + 1 == n else ''), cur),
                        kids[n - i]]
        if o.get('leftmostunary'):
            cur = [(label(0), cur)]
        want = ('S', cur)
    ctx.check(tlib.same(ctx, got, want), 'binarized tree')
    ctx.reach('ok')
    ctx.observe(tlib.show(got))


def unary(ctx):
    """collapseunary and unbinarize are inverse; after collapsing no unary
    chain is left above preterminals (none at all with collapsepos)."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1,
            p.get('ll', 1)), unary=p['unary'], cont=True)
    pos, root = ctx.flag('collapsepos'), ctx.flag('collapseroot')
    cls = getattr(mod, ctx.pick('cls', ['Tree', 'ParentedTree']))
    tree = tlib.totree(cls, t)
    got = tt.collapseunary(tree, collapsepos=pos, collapseroot=root)
    for node in got.subtrees():
        if node is got and not root:
            continue
        if len(node) == 1 and isinstance(node[0], mod.Tree):
            ctx.check(not pos and not isinstance(node[0][0], mod.Tree),
                    'unary node left')
    # collapsed nodes: joined labels
    def conv(x, top=False):
        if not isinstance(x, tuple):
            return x
        if not (top and not root):
            while (len(x[1]) == 1 and isinstance(x[1][0], tuple)
                    and (pos or isinstance(x[1][0][1][0], tuple))):
                x = (x[0] + '+' + x[1][0][0], x[1][0][1])
        # the root production is left alone if it is unary
        return (x[0], [conv(a) for a in x[1]])
    ctx.check(tlib.same(ctx, tlib.fromtree(got), conv(t,
            len(t[1]) == 1)), 'collapsed tree')
    ctx.observe(tlib.show(tlib.fromtree(got)))
    back = tt.unbinarize(got)
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t),
            'unbinarize(collapseunary)')
    ctx.reach('ok')


def both(ctx):
    """Collapsing, binarizing (with fan-out marks) and undoing all of it."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p['unary'])
    tree = tlib.totree(mod.ParentedTree, t)
    h = ctx.pick('h', [0, 1, 999])
    fan = ctx.flag('fanout')
    tt.binarize(tt.collapseunary(tree), horzmarkov=h, vertmarkov=ctx.pick(
            'v', [1, 2]))
    if fan:
        tt.addfanoutmarkers(tree)
    res = tt.unbinarize(tree, expandunary=False)
    if fan:
        tt.removefanoutmarkers(res)
    res = tt.unbinarize(res)
    ctx.check(tlib.same(ctx, tlib.fromtree(res), t), 'original tree')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(res)))


def parts(label):
    """Components of an artificial label: base, head part, siblings,
    ancestors, fan-out marker."""
    i = label.find('|<')
    base, rest = label[:i], label[i + 2:]
    sibs = rest[:rest.find('>')]
    rest = rest[rest.find('>') + 1:]
    anc = []
    if rest.startswith('^<'):
        anc = rest[2:rest.find('>')].split(',')
        rest = rest[rest.find('>') + 1:]
    head = ''
    if ';' in sibs:
        head, sibs = sibs[:sibs.find(';')], sibs[sibs.find(';') + 1:]
    return base, head, sibs.split(','), anc, rest


def threshold(ctx):
    """markovthreshold only changes artificial labels that are rarer than the
    threshold; two labels which are reduced become the same label exactly if
    they agree on constituent, head, first h siblings, first v ancestors, and
    fan-out marker, and they do not coincide with other labels. The trees can
    still be unbinarized."""
    mod, tt = ctx.mod('tree'), ctx.mod('treetransforms')
    p = ctx.params
    ts = [gen(ctx) for _ in range(2)]
    if p.get('deep'):
        ts = [('R', [a]) for a in ts]
    v = ctx.pick('v', p.get('v', [1, 2]))
    mark = ctx.flag('markhead')
    fan = ctx.flag('fanout') if p.get('fanout') else False
    trees = [tlib.totree(mod.ParentedTree, t) for t in ts]
    if mark:
        for x in trees:
            for node in x.subtrees(lambda n: len(n) > 1):
                node[0].type = mod.HEAD
    for x in trees:
        tt.binarize(x, vertmarkov=v, markhead=mark)
        if fan:
            tt.addfanoutmarkers(x)
    before = [[a.label for a in x.subtrees()] for x in trees]
    n = ctx.pick('n', p.get('freq', [1, 2, 3]))
    h, v2 = ctx.pick('h', p.get('h', [0, 1])), ctx.pick('v2', [1, 2])
    tt.markovthreshold(trees, n, h, v2)
    flat = [a for b in before for a in b]
    kept, reduced = [], []
    for x, labs in zip(trees, before):
        for node, old in zip(x.subtrees(), labs):
            cnt = 0
            for a in flat:
                if a == old:
                    cnt += 1
            if '|<' not in old or cnt >= n:
                ctx.check(node.label == old, 'label was changed')
                kept.append(old)
            else:
                ctx.check(node.label[:node.label.find('|<')]
                        == old[:old.find('|<')], 'parent part of label')
                a, b, c, d, e = parts(old)
                reduced.append(((a, b, len(c[:h]), len(d[:v2])) + tuple(c[:h])
                        + tuple(d[:v2]) + (e, ), node.label))
    for n1, (key1, lab1) in enumerate(reduced):
        for key2, lab2 in reduced[:n1]:
            same = len(key1) == len(key2) and all(bool(a == b)
                    for a, b in zip(key1, key2))
            ctx.check((lab1 == lab2) if same else (lab1 != lab2),
                    'reduced context')
        for a in kept:
            ctx.check(lab1 != a, 'reduced label is the same as other label')
    if reduced:
        ctx.reach('reduced')
    for x, t in zip(trees, ts):
        back = tt.unbinarize(x)
        if fan:
            back = tt.removefanoutmarkers(back)
        ctx.check(tlib.same(ctx, tlib.fromtree(back), t),
                'unbinarize after markovthreshold')
    ctx.reach('ok')
    ctx.observe([[a.label for a in x.subtrees()] for x in trees])


HARNESSES = {
    'roundtrip': dict(fn=roundtrip, reach=['ok'], params=dict(
        quick=[
            dict(n=4, labels='A', unary=1, cont=True, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 999],
                vertmarkov=[0, 1, 2, 3], threshold=[1, 2, 3])),
            dict(n=4, flat=1, nested=1, labels='A|^<', ll=1, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 2],
                leftmostunary=[False, True], rightmostunary=[False, True],
                tailmarker=['', '$'], revhorzmarkov=[0, 1],
                vertmarkov=[1, 2])),
            dict(n=4, flat=1, labels='A', heads=1, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 999],
                headoutward=[False, True], markhead=[False, True],
                direction=[False, True], dot=[False, True],
                leftmostunary=[False, True], rightmostunary=[False, True])),
            dict(n=3, flat=1, nested=1, labels='AB', cls=['Tree',
                'ParentedTree'], opts=dict(ids=[False, True],
                filterlabels=[(), ('A', )], artpa=[False, True],
                vertmarkov=[1, 2], threshold=[1, 2], dot=[False, True],
                horzmarkov=[1, 999]))],
        thorough=[
            dict(n=5, flat=1, nested=1, labels='A', heads=1, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 2, 999],
                headoutward=[False, True], markhead=[False, True],
                direction=[False, True], dot=[False, True],
                leftmostunary=[False, True], rightmostunary=[False, True],
                vertmarkov=[1, 2], threshold=[1, 2])),
            dict(n=4, labels='A|', unary=2, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 999],
                vertmarkov=[1, 3]))])),
    'labels': dict(fn=labels, reach=['ok'], params=dict(
        quick=[dict(n=4, flat=1, nested=1, labels='AB'),
            dict(n=4, labels='A', unary=1, cont=True)],
        thorough=[dict(n=5, labels='A', unary=1)])),
    'context': dict(fn=context, reach=['ok'], params=dict(
        quick=[dict(n=4, flat=1, labels='AB', heads=1, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 2, 999],
                markhead=[False, True], direction=[False, True],
                revhorzmarkov=[0, 1, 2])),
            dict(n=4, flat=1, labels='AB', opts=dict(
                factor=['right'], horzmarkov=[0, 1, 2, 999],
                filterlabels=[('A', )], labelfun=[False, True],
                revhorzmarkov=[0, 1], dot=[False, True])),
            dict(n=4, flat=1, labels='AB', opts=dict(
                factor=['right', 'left'], horzmarkov=[1, 2, 999],
                rightmostunary=[False, True], leftmostunary=[False, True],
                tailmarker=['', '$']))],
        thorough=[dict(n=5, flat=1, labels='AB', heads=1, opts=dict(
                factor=['right', 'left'], horzmarkov=[0, 1, 2, 3, 999],
                markhead=[False, True], direction=[False, True],
                revhorzmarkov=[0, 1, 2]))])),
    'unary': dict(fn=unary, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='A|', unary=3), dict(n=3, labels='A',
            unary=2)], thorough=[dict(n=3, labels='AB', unary=4)])),
    'both': dict(fn=both, reach=['ok'], params=dict(
        quick=[dict(n=3, labels='A', unary=1), dict(n=4, labels='A',
            unary=0)], thorough=[dict(n=4, labels='AB', unary=2)])),
    'threshold': dict(fn=threshold, reach=['ok', 'reduced'], params=dict(
        quick=[dict(n=3, flat=1, labels='AB', v=[1]),
            dict(n=3, flat=1, nested=1, labels='A', deep=1),
            dict(n=3, flat=1, labels='AB', deep=1, v=[2, 3], freq=[2],
                h=[1, 2]),
            dict(n=4, labels='A', fanout=1, v=[1, 2], h=[1, 2], freq=[3])],
        thorough=[dict(n=4, flat=1, nested=1, labels='AB', deep=1,
            v=[1, 2, 3], h=[0, 1, 2])])),
}
