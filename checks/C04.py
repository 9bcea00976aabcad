"""Bracket notation with words: writing and reading is lossless."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Tokens with whitespace, tokens containing the literal escape '
        'sequences #LRB#, #RRB#, #FRONTIER#, sentences in which every token '
        'looks like an indexed terminal (1=word), labels with brackets.')


def tree(ctx):
    """A continuous labelled tree and its sentence."""
    p = ctx.params
    n = p['n']
    t = tlib.gentree(ctx, n,
            lambda: ctx.string('l', p['labels'], 1, p.get('ll', 1)),
            cont=True, unary=p.get('unary', 0))
    if p.get('emptyroot') and ctx.flag('emptyroot'):
        t = ('', t[1])
    sent = [ctx.string('w', p['words'], 1, p.get('wl', 2)) for _ in range(n)]
    if p.get('gap'):
        sent[ctx.choice('gap', n)] = None
    # an all-indexed sentence is the discbracket format
    ctx.assume(ctx.Or(*[True if w is None else ctx.Not(indexed(ctx, w))
            for w in sent]))
    return t, sent


def indexed(ctx, w):
    return ctx.Or(*[ctx.And(w[i] == '=', *[ctx.And(w[j] >= '0', w[j] <= '9')
            for j in range(i)]) for i in range(1, len(w))])


def samesent(ctx, a, b):
    if len(a) != len(b):
        return False
    return ctx.And(*[x is y if None in (x, y) else x == y
            for x, y in zip(a, b)])


def roundtrip(ctx):
    """brackettree(writebrackettree(tree, sent)) == tree, sent; and the
    corpus reader for this format reads the same."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    t, sent = tree(ctx)
    cls = getattr(mod, ctx.pick('cls', ['Tree', 'ParentedTree']))
    s = tb.writetree(tlib.totree(cls, t), sent, '1', 'bracket')
    ctx.check(s[-1:] == '\n' and '\n' not in s[:-1], 'one line')
    got, gotsent = mod.brackettree(s, detectdisc=ctx.flag('detect'))
    ctx.check(type(got) is mod.ParentedTree, 'type of tree')
    ctx.check(tlib.same(ctx, tlib.fromtree(got), t), 'brackettree: tree')
    ctx.check(samesent(ctx, gotsent, sent), 'brackettree: words')
    ctx.check(mod.writebrackettree(got, gotsent) == s, 'write(read(s))')
    ctx.reach('ok')
    ctx.observe(s)


def corpus(ctx):
    """BracketCorpusReader: the n-th line is the n-th tree; the words are
    those of the sentence."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    items, lines = [], []
    for n in range(ctx.params['lines']):
        t, sent = tree(ctx)
        items.append((t, sent))
        lines.append(tb.writetree(tlib.totree(mod.ParentedTree, t), sent,
                str(n), 'bracket'))
    if ctx.params.get('nonl') and ctx.flag('nonl'):
        lines[-1] = lines[-1][:-1]  # no newline at end of file
    r = ctx.reader('BracketCorpusReader', lines)
    start = ctx.choice('start', 2)
    got = list(r.itertrees(start or None))
    ctx.check([k for k, _ in got] == list(range(1 + start, len(items) + 1)),
            'sentence numbers')
    for (_, item), (t, sent) in zip(got, items[start:]):
        ctx.check(tlib.same(ctx, tlib.fromtree(item.tree), t), 'tree')
        ctx.check(samesent(ctx, item.sent, sent), 'words')
        ctx.check(item.comment is None, 'comment')
    ctx.check(list(r.blocks().values()) == lines, 'blocks')
    sents = r.sents()
    tagged = r.tagged_sents()
    trees = r.trees()
    for k, (t, sent) in enumerate(items, 1):
        ctx.check(samesent(ctx, sents[k], sent), 'sents()')
        ctx.check(tlib.same(ctx, tlib.fromtree(trees[k]), t), 'trees()')
        tags = [a[0] for a in sorted(tlib.preterminals(t),
                key=lambda a: a[1][0])]
        ctx.check(ctx.And(*[ctx.And(x[1] == y, x[0] is w if w is None
                else x[0] == w) for x, y, w in zip(tagged[k], tags, sent)])
                and len(tagged[k]) == len(sent), 'tagged_sents()')
    ctx.reach('ok')
    ctx.observe([s for s in lines])


def files(ctx):
    """A corpus of several files has the trees of all of its files, in order,
    each under its own number."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    p = ctx.params
    fmt = ctx.pick('fmt', ['bracket', 'discbracket'])
    ctx.file('corpus')
    want, blocks = [], []
    for k in range(p['files']):
        text = ''
        for n in range(ctx.choice('trees', p['trees'] + 1)):
            sent = [ctx.string('w', p['words'], 1, 1)
                    for _ in range(1 + ctx.choice('n', 2))]
            t = (ctx.string('l', p['labels'], 1, 1),
                    [('A', [i]) for i in range(len(sent))])
            want.append((t, sent))
            blocks.append(tb.writetree(tlib.totree(mod.ParentedTree, t),
                    sent, '1', fmt))
            text = text + blocks[-1]
        ctx.file('corpus/f-%d.txt' % (k + 9), text)  # f-9, f-10
    r = tb.READERS[fmt](ctx.file('corpus/') + '*.txt')
    keys = list(range(1, len(want) + 1))
    start = ctx.choice('start', 2)
    got = list(r.itertrees(start or None))
    ctx.check([k for k, _ in got] == keys[start:], 'keys of itertrees()')
    ctx.check(ctx.And(*[ctx.And(tlib.same(ctx, tlib.fromtree(item.tree), t),
            samesent(ctx, item.sent, sent))
            for (_, item), (t, sent) in zip(got, want[start:])]),
            'itertrees()')
    trees, sents, tagged = r.trees(), r.sents(), r.tagged_sents()
    for got in (trees, sents, tagged, r.blocks()):
        ctx.check(list(got) == keys, 'keys')
    for k, (t, sent) in enumerate(want, 1):
        ctx.check(tlib.same(ctx, tlib.fromtree(trees[k]), t), 'trees()')
        ctx.check(samesent(ctx, sents[k], sent), 'sents()')
        ctx.check(samesent(ctx, [w for w, _ in tagged[k]], sent),
                'tagged_sents()')
    ctx.check(list(r.blocks().values()) == blocks, 'blocks()')
    ctx.reach('ok')
    ctx.observe(blocks)


def spacing(ctx):
    """Superfluous whitespace before closing brackets does not matter; an
    empty terminal is read as None."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: 'A', cont=True)
    sent = [ctx.string('w', p['words'], 0, 1) for _ in range(p['n'])]
    sp = lambda: ctx.pick('space', ['', ' ', '\n  '])

    def write(x):
        if isinstance(x[1][0], tuple):
            return '(' + x[0] + tlib.cat(' ' + write(a) for a in x[1]
                    ) + sp() + ')'
        return '(' + x[0] + ' ' + sent[x[1][0]] + ')'
    s = write(t)
    want = [w or None for w in sent]
    got, gotsent = mod.brackettree(s)
    ctx.check(tlib.same(ctx, tlib.fromtree(got), t), 'tree')
    ctx.check(samesent(ctx, gotsent, want), 'words')
    r = ctx.reader('BracketCorpusReader', [s])
    item = r._parse(s)
    ctx.check(tlib.same(ctx, tlib.fromtree(item.tree), t), 'reader: tree')
    ctx.check(samesent(ctx, [w or None for w in item.sent], want),
            'reader: words')
    ctx.reach('ok')
    ctx.observe(s, gotsent)


def escapes(ctx):
    """escape/unescape and ptbescape/ptbunescape are inverse; the escaped
    form has no brackets."""
    mod = ctx.mod('tree')
    w = ctx.string('w', '()[]{}/\\-a', 1, ctx.params['hi'])
    s = mod.escape(w)
    ctx.check('(' not in s and ')' not in s, 'brackets in escaped token')
    ctx.check(mod.unescape(s) == w, 'unescape(escape(w)) == w')
    s = mod.ptbescape(w)
    ctx.check('(' not in s and ')' not in s, 'brackets in escaped token')
    ctx.check(mod.ptbunescape(s) == w, 'ptbunescape(ptbescape(w)) == w')
    ctx.check(mod.unescape(mod.escape(None)) is None
            and mod.ptbunescape(mod.ptbescape(None)) is None, 'None')
    ctx.reach('ok')
    ctx.observe(s)


HARNESSES = {
    'roundtrip': dict(fn=roundtrip, reach=['ok'], params=dict(
        quick=[dict(n=1, labels='A$-=|1', words='()=#1a', wl=3, unary=1,
                emptyroot=1), dict(n=2, labels='A-=', words='(1=a', wl=2),
            dict(n=3, labels='A1', words=')a', wl=1, unary=1),
            dict(n=3, labels='A', words='a', wl=1, unary=1, gap=1)],
        thorough=[dict(n=2, labels='A-=', words='()=#1a', wl=3, ll=2,
            unary=1), dict(n=4, labels='A1', words=')a', wl=1, unary=1)])),
    'corpus': dict(fn=corpus, reach=['ok'], params=dict(
        quick=[dict(lines=1, n=2, labels='A$', words='()a1=', wl=2, nonl=1),
            dict(lines=2, n=2, labels='A', words='(a', wl=1, nonl=1),
            dict(lines=1, n=3, labels='A', words='(a', wl=1, unary=1)],
        thorough=[dict(lines=2, n=2, labels='A$-', words='()a1=', wl=2),
            dict(lines=1, n=3, labels='A$', words='(a', wl=2, unary=1)])),
    'files': dict(fn=files, reach=['ok'], params=dict(
        quick=[dict(files=2, trees=2, words='a1', labels='ST')],
        thorough=[dict(files=3, trees=2, words='a1', labels='S')])),
    'spacing': dict(fn=spacing, reach=['ok'], params=dict(
        quick=[dict(n=2, words='a('.replace('(', 'b')), dict(n=3,
            words='ab')], thorough=[dict(n=4, words='ab')])),
    'escapes': dict(fn=escapes, reach=['ok'], params=dict(
        quick=[dict(hi=3)], thorough=[dict(hi=5)])),
}
