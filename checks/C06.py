"""Negra export format: lossless, with all annotation columns."""
import tlib
from C04 import samesent
NEEDS = ['bit']
OUTSIDE = ('Words or labels with whitespace, %%, or of the form #5xx; blocks '
        'in which nonterminal rows precede terminal rows; more than 500 '
        'phrasal nodes; lemmas=between combined with functions.')


def nonpair(ctx, s, bad):
    """No two adjacent characters bad."""
    ctx.assume(ctx.Not(ctx.Or(*[ctx.And(s[i] == bad, s[i + 1] == bad)
            for i in range(len(s) - 1)])))
    return s


def tree(ctx, full=True):
    """Reference tree with ROOT, and {node path: fields}."""
    p = ctx.params
    n = p['n']
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', p['labels'], 1, 1),
            pos=lambda: ctx.string('t', p['tags'], 1, p.get('tl', 1)),
            unary=p.get('unary', 0))
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    for _ in range(p.get('tall', 0)):
        t = ('X', [t])
    t = ('ROOT', [t]) if not ctx.flag('flatroot') else ('ROOT', t[1])
    sent = [nonpair(ctx, ctx.string('w', p['words'], 1, p.get('wl', 1)),
            '%') for _ in range(n)]
    fields = {}
    if full:
        for pos, x in tlib.positions(t):
            if not isinstance(x, tuple) or pos == ():
                continue
            pre = not isinstance(x[1][0], tuple)
            a = p.get('fields', 'm')
            f = [ctx.pick('func', ['--', None, 'SB']) if not p.get('symf')
                    else ctx.string('f', a, 1, 1)]
            f.append(ctx.string('m', a, 1, 1) if p.get('symf') else
                    ctx.pick('morph', ['--', 'sg']))
            f.append('--' if not pre else ctx.string('le', a, 1, 1)
                    if p.get('symf') else 'lem')
            fields[pos] = f
    return t, sent, fields


def build(mod, tb, t, fields, pos=()):
    if not isinstance(t, tuple):
        return t
    node = mod.ParentedTree(t[0], [build(mod, tb, a, fields, pos + (i, ))
            for i, a in enumerate(t[1])])
    if pos in fields:
        func, morph, lemma = fields[pos]
        node.source = ['', lemma, node.label, morph, func, '']
    return node


def checknodes(ctx, tb, got, t, fields):
    """Tree with canonical child order and fields of each node."""
    order = {}

    def canon(x, pos):
        if not isinstance(x, tuple):
            return x
        kids = sorted(enumerate(x[1]), key=lambda a: min(tlib.leaves(a[1])))
        order[id(x)] = [i for i, _ in kids]
        return (x[0], [canon(a, pos + (i, )) for i, a in kids])

    def rec(node, x, pos):
        if not isinstance(x, tuple):
            ctx.check(node == x, 'leaf')
            return
        ctx.check(hasattr(node, 'children') and len(node.children)
                == len(x[1]), 'shape of tree')
        ctx.check(node.label == x[0], 'label')
        if pos in fields:
            func, morph, lemma = fields[pos]
            ctx.check(node.source[tb.FUNC] == (func or '--'), 'function')
            ctx.check(node.source[tb.MORPH] == (morph or '--'), 'morphology')
            ctx.check(node.source[tb.LEMMA] == (lemma or '--'), 'lemma')
        kids = sorted(enumerate(x[1]), key=lambda a: min(tlib.leaves(a[1]))
                if isinstance(a[1], tuple) else a[1])
        mine = sorted(node.children, key=lambda a: min(a.leaves())
                if hasattr(a, 'children') else a)
        for (i, a), b in zip(kids, mine):
            rec(b, a, pos + (i, ))
    rec(got, t, ())


def roundtrip(ctx):
    """The block written for a tree is read as the same tree, words, comment
    and annotation, and writing that again gives the same block."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t, sent, fields = tree(ctx)
    comment = ctx.pick('comment', [None, 'two words'])
    orig = build(mod, tb, t, fields)
    s = tb.writetree(orig, sent, '7', 'export', comment=comment)
    ctx.check(s[-1:] == '\n', 'newline')
    block = s[:-1].split('\n')
    item = tb.exporttree(block)
    checknodes(ctx, tb, item.tree, t, fields)
    ctx.check(samesent(ctx, item.sent, sent), 'words')
    ctx.check(item.comment == comment, 'comment')
    ctx.check(item.block == s, 'block')
    again = tb.exporttree(tb.writetree(item.tree, item.sent, '7', 'export',
            comment=comment)[:-1].split('\n'))
    checknodes(ctx, tb, again.tree, t, fields)
    ctx.reach('ok')
    ctx.observe(s)


def secedges(ctx):
    """Secondary edges lead to the same node after a round trip."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t = tlib.gentree(ctx, ctx.params['n'], lambda: 'X', pos=lambda: 'T',
            unary=ctx.params.get('unary', 0))
    t = ('ROOT', [t])
    n = ctx.params['n']
    sent = ['w'] * n
    orig = build(mod, tb, t, {})
    nodes = [(p, orig[p]) for p, x in tlib.positions(t)
            if isinstance(x, tuple) and p != ()]
    phr = [(p, x) for p, x in nodes if isinstance(x[0], mod.Tree)]
    ids = {}
    # arbitrary but distinct ids for the phrasal nodes in the original file
    for k, (p, x) in enumerate(phr):
        ids[p] = 500 + (k if ctx.params.get('inorder')
                else len(phr) - 1 - k)
        x.source = ['#%d' % ids[p], '--', 'X', '--', '--', '0']
    src, node = ctx.pick('from', nodes)
    tgt, _ = ctx.pick('to', phr)
    if node.source is None:
        node.source = ['w', '--', 'T', '--', '--', '0']
    node.source = list(node.source) + ['SEC', str(ids[tgt])]
    s = tb.writetree(orig, sent, '1', 'export')
    item = tb.exporttree(s[:-1].split('\n'))
    # in each tree, find nodes by their yield and depth
    def sig(x):
        d, y = 0, x
        while y.parent is not None:
            d, y = d + 1, y.parent
        return sorted(x.leaves()), d
    found = [x for x in item.tree.subtrees() if x.source
            and len(x.source) > 6]
    ctx.check(len(found) == 1, 'one node has a secondary edge')
    ctx.check(sig(found[0]) == sig(node), 'source of secondary edge')
    ctx.check(found[0].source[6] == 'SEC', 'label of secondary edge')
    hit = [x for x in item.tree.subtrees() if x.source
            and x.source[0] == '#' + found[0].source[7]]
    ctx.check(len(hit) == 1, 'target of secondary edge exists')
    ctx.check(sig(hit[0]) == sig(orig[tgt]), 'target of secondary edge')
    ctx.reach('ok')
    ctx.observe(s)


def options(ctx):
    """functions, morphology and lemmas do what is documented for every
    node and nothing else."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t, sent, fields = tree(ctx)
    f = ctx.pick('functions', ctx.params['functions'])
    m = ctx.pick('morphology', ctx.params['morphology'])
    le = ctx.pick('lemmas', ctx.params['lemmas'])
    # documented conversion
    words = list(sent)

    def conv(x, pos):
        if not isinstance(x, tuple):
            return x
        label = x[0]
        func, morph, lemma = fields.get(pos, ('--', '--', '--'))
        func = func or '--'
        kids = [conv(a, pos + (i, )) for i, a in enumerate(x[1])]
        pre = not isinstance(x[1][0], tuple)
        if pre:
            i = x[1][0]
            if le == 'add':
                words[i] = words[i] + '/' + lemma
            elif le == 'replace':
                words[i] = lemma
            elif le == 'between':
                kids = [(lemma, kids)]
            if m == 'add':
                label = label + '/' + morph
            elif m == 'replace':
                label = morph
            elif m == 'between':
                kids = [(morph, kids)]
        if f == 'remove':
            for char in '-=':
                for i in range(1, len(label)):
                    if label[i] == char:
                        if label[0] != char:
                            label = label[:i]
                        break
        if pos != ():
            if f == 'add' and func != '--':
                label = label + '-' + func
            elif f == 'replace':
                label = func
            elif f == 'between':
                return ('-' + func, [(label, kids)])
        return (label, kids)
    want = conv(t, ())
    orig = build(mod, tb, t, fields)
    s = tb.writetree(orig, sent, '7', 'export')
    item = tb.exporttree(s[:-1].split('\n'), functions=f, morphology=m,
            lemmas=le)
    ctx.check(tlib.same(ctx, sortkids(tlib.fromtree(item.tree)),
            sortkids(want)), 'tree')
    ctx.check(samesent(ctx, item.sent, words), 'words')
    for node in item.tree.subtrees():
        for a in node:
            if isinstance(a, mod.Tree):
                ctx.check(a.parent is node, 'parent pointer')
    ctx.reach('ok')
    ctx.observe(tlib.show(sortkids(tlib.fromtree(item.tree))), item.sent)


def sortkids(t):
    return tlib.canonical(t)


def segmentation(ctx):
    """A file is split at #BOS/#EOS lines; every sentence is yielded once in
    order with its id; inconsistent markers raise ValueError; other lines
    are ignored."""
    tb = ctx.mod('treebank')
    kinds = ['#FORMAT 4', '%% comment', 'w\t--\tT\t--\t--\t0']
    lines = []
    for _ in range(ctx.params['lines']):
        k = ctx.choice('kind', 5)
        if k < 2:
            lines.append(('#BOS ', '#EOS ')[k] + ctx.string('id', '12', 1, 1)
                    + ctx.pick('rest', ['', ' 0 %% c'][:2 - k]))
        else:
            lines.append(kinds[k - 2])
    want, bad, cur, curid, seen = [], False, None, None, []
    for a in lines:
        if a[:5] == '#BOS ':
            if cur is not None:
                bad = True
                break
            cur, curid = [a], a[5:6]
        elif a[:5] == '#EOS ':
            if cur is None or curid != a[5:6] or any(curid == x
                    for x in seen):
                bad = True
                break
            seen.append(curid)
            want.append((curid, cur + [a]))
            cur = None
        elif cur is not None:
            cur.append(a)
    r = ctx.reader('NegraCorpusReader', [a + '\n' for a in lines])
    if bad:
        ctx.check(getattr(r, '_failed', None) is not None,
                'inconsistent sentence markers were accepted')
        ctx.reach('bad')
        return
    ctx.check(getattr(r, '_failed', None) is None, 'valid file was refused')
    got = list(r._read_blocks())
    ctx.check(len(got) == len(want), 'number of sentences')
    for (a, b), (x, y) in zip(got, want):
        ctx.check(a == x, 'sentence id')
        ctx.check(len(b) == len(y) and ctx.And(*[p == q
                for p, q in zip(b, y)]), 'lines of block')
    if want:
        ctx.reach('some')
    ctx.observe([a for a, _ in got])


def corpus(ctx):
    """Reading a file of several written trees gives the trees in order
    with constituents ordered by their first word."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    items, lines = [], ['#FORMAT 4\n', tb.EXPORTHEADER]
    for n in range(ctx.params['sents']):
        t, sent, fields = tree(ctx, full=False)
        comment = ctx.pick('comment', [None, 'c d'])
        items.append((t, sent, comment))
        s = tb.writetree(build(mod, tb, t, fields), sent, 's%d' % n,
                'export', comment=comment)
        lines.extend([a + '\n' for a in s[:-1].split('\n')])
    r = ctx.reader('NegraCorpusReader', lines)
    got = list(r.itertrees())
    ctx.check([k for k, _ in got] == ['s%d' % n
            for n in range(len(items))], 'sentence ids')
    for (k, item), (t, sent, comment) in zip(got, items):
        ctx.check(tlib.same(ctx, tlib.fromtree(item.tree),
                tlib.canonical(t)), 'tree')
        ctx.check(samesent(ctx, item.sent, sent), 'words')
        ctx.check(item.comment == comment, 'comment')
    blocks = list(r.blocks().values())
    ctx.check(len(blocks) == len(items) and tlib.cat(blocks)
            == tlib.cat(lines[2:]), 'blocks')
    ctx.reach('ok')
    ctx.observe(lines)


def tagfields(ctx):
    """POS tag and morphology columns when these are to be separated."""
    p = ctx.params
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    tag = ctx.string('t', p['tags'], 1, p['tl'])
    m = ctx.pick('morphology', [None, 'add', 'replace'])
    node = mod.ParentedTree(tag, [0])
    root = mod.ParentedTree('ROOT', [node])
    morph = ctx.pick('morph', ['--', None, 'sg'])
    if ctx.flag('source'):
        node.source = ['x', 'lem', tag, morph, 'HD', '0']
        lemma, func = 'lem', 'HD'
    else:
        morph, lemma, func = None, '--', '--'
    line = tb.writetree(root, ['x'], '1', 'export', morphology=m)
    lines = line.split('\n')
    ctx.check(len(lines) == 4 and lines[0] == '#BOS 1'
            and lines[2] == '#EOS 1' and lines[3] == '', 'block')
    got = lines[1].split('\t')
    want = [tag, morph or '--']
    if want[1] == '--' and m == 'replace':
        want[1] = tag
    elif want[1] == '--' and m == 'add':
        for i in range(len(tag)):
            if bool(tag[i] == '/'):
                want = [tag[:i], tag[i + 1:]]
                break
    ctx.check(len(got) == 6 and ctx.And(*[a == b for a, b in zip(got,
            ['x', lemma] + want + [func, '0'])]), 'columns')
    ctx.reach(m or 'none')
    ctx.observe(got)


HARNESSES = {
    'tagfields': dict(fn=tagfields, reach=['none', 'add', 'replace'],
        params=dict(quick=[dict(tags='A/', tl=3), dict(tags='-[/b', tl=2)],
            thorough=[dict(tags='A/[', tl=5)])),
    'roundtrip': dict(fn=roundtrip, reach=['ok'], params=dict(
        quick=[dict(n=1, labels='A', tags='A$[-/', tl=2, words='(#5%a', wl=2,
                fields='m-|*', symf=1),
            dict(n=2, labels='A[', tags='T', words='a', unary=1),
            dict(n=12, labels='A', tags='T', words='a', pad=9, symf=1,
                fields='m'),
            dict(n=3, labels='AB', tags='T', words='a(', unary=0, perm=1,
                fields='ms', symf=1),
            dict(n=2, labels='A', tags='T', words='a(', tall=120, symf=1,
                fields='m')],
        thorough=[dict(n=3, labels='A[', tags='T$', words='a#', unary=1,
                fields='ms', symf=1, perm=1)])),
    'secedges': dict(fn=secedges, reach=['ok'], params=dict(
        quick=[dict(n=3, unary=1), dict(n=3, inorder=1)],
        thorough=[dict(n=4, unary=1)])),
    'options': dict(fn=options, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='A-=', tags='T', words='a', symf=1,
                fields='m-', functions=[None, 'leave', 'add', 'replace',
                'remove', 'between'], morphology=[None], lemmas=[None]),
            dict(n=1, labels='A', tags='T-', tl=2, words='a', symf=1,
                fields='m[/', functions=[None, 'add', 'replace', 'remove',
                    'between'],
                morphology=['no', 'add', 'replace', 'between'],
                lemmas=[None]),
            dict(n=2, labels='A', tags='T', words='a', symf=1, fields='m',
                functions=[None], morphology=[None, 'add', 'replace',
                'between'], lemmas=['no', 'add', 'replace', 'between']),
            dict(n=3, labels='A', tags='T', words='a', symf=1, fields='m',
                functions=['add', 'replace', 'between'],
                morphology=[None, 'between'], lemmas=[None])],
        thorough=[dict(n=3, labels='A-=', tags='T', words='a', symf=1,
                fields='m-', functions=['add', 'replace', 'remove',
                'between'], morphology=[None, 'add', 'between'],
                lemmas=[None])])),
    'segmentation': dict(fn=segmentation, reach=['bad', 'some'], params=dict(
        quick=[dict(lines=4)], thorough=[dict(lines=6)])),
    'corpus': dict(fn=corpus, reach=['ok'], params=dict(
        quick=[dict(sents=1, n=3, labels='A', tags='T', words='a(', perm=1,
                unary=1),
            dict(sents=2, n=2, labels='A', tags='T', words='a(')],
        thorough=[dict(sents=2, n=3, labels='A', tags='T', words='a(')])),
}
