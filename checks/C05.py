"""Discontinuous bracket notation: writing and reading is lossless."""
import tlib
from C04 import samesent
NEEDS = ['bit']
OUTSIDE = ('Tokens with whitespace or literal escape sequences; labels with '
        'brackets; sentences longer than the stated number of words.')


def tree(ctx, perm=True):
    p = ctx.params
    n = p['n']
    t = tlib.gentree(ctx, n,
            lambda: ctx.string('l', p['labels'], 1, p.get('ll', 1)),
            unary=p.get('unary', 0))
    if p.get('perm'):
        t = tlib.permute(ctx, t)
    sent = [ctx.string('w', p['words'], 1, p.get('wl', 1)) for _ in range(n)]
    if p.get('gap'):
        # leaves are an increasing subsequence of the sentence
        lens = [ctx.choice('skip', 3) for _ in range(n)]
        idx, k = {}, 0
        for i in range(n):
            k += (0, 1, 9)[lens[i]]
            idx[i] = k
            k += 1
        new = [None] * k
        for i, j in idx.items():
            new[j] = sent[i]

        def sub(x):
            return ((x[0], [sub(a) for a in x[1]]) if isinstance(x, tuple)
                    else idx[x])
        t, sent = sub(t), new
    elif p.get('none') and ctx.flag('none'):
        sent[ctx.choice('which', n)] = None
    return t, sent


def roundtrip(ctx):
    """Reading what was written gives the same tree, child order, and
    sentence, with every reader of the format."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    t, sent = tree(ctx)
    orig = tlib.totree(mod.ParentedTree, t)
    pretty = ctx.params.get('pretty') and ctx.flag('pretty')
    if pretty:
        s = mod.writediscbrackettree(orig, sent, pretty=True)
    else:
        s = tb.writetree(orig, sent, '1', 'discbracket')
        ctx.check(s[-1:] == '\n' and '\n' not in s[:-1], 'one line')
    how = ctx.choice('how', 2)
    got, gotsent = [mod.discbrackettree, mod.brackettree][how](s)
    ctx.check(tlib.same(ctx, tlib.fromtree(got), t), 'tree')
    # only leaves up to the last index are in the text
    ctx.check(samesent(ctx, gotsent, sent), 'words')
    ctx.check(type(got) is mod.ParentedTree, 'type of tree')
    if not pretty:
        ctx.check(mod.writediscbrackettree(got, gotsent) == s,
                'write(read(s))')
    ctx.reach('pretty' if pretty else 'flat')
    ctx.observe(s, gotsent)


def corpus(ctx):
    """DiscBracketCorpusReader: trees, words and comments in order."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    items, lines = [], []
    for n in range(ctx.params['lines']):
        t, sent = tree(ctx)
        comment = None
        if ctx.flag('comment'):
            comment = ctx.string('c', '(a= \t', 1, 2)
            ctx.assume(comment[-1:] != ' ' and comment[:1] != ' ')
            ctx.assume(comment[-1:] != '\t' and comment[:1] != '\t')
        items.append((t, sent, comment))
        lines.append(tb.writetree(tlib.totree(mod.ParentedTree, t), sent,
                str(n), 'discbracket', comment=comment))
    r = ctx.reader('DiscBracketCorpusReader', lines)
    got = list(r.itertrees())
    ctx.check([k for k, _ in got] == list(range(1, len(items) + 1)),
            'sentence numbers')
    for (_, item), (t, sent, comment) in zip(got, items):
        ctx.check(tlib.same(ctx, tlib.fromtree(item.tree), t), 'tree')
        ctx.check(samesent(ctx, item.sent, sent), 'words')
        ctx.check(item.comment is comment if comment is None
                else item.comment == comment, 'comment')
    ctx.check(list(r.blocks().values()) == lines, 'blocks')
    ctx.reach('ok')
    ctx.observe(lines)


def functions(ctx):
    """Function tags: recognised after the first hyphen of the label (unless
    initial) and stripped with functions='remove'; both bracket formats."""
    mod = ctx.mod('tree')
    tb = ctx.mod('treebank')
    label = ctx.string('l', ctx.params['labels'], 1, ctx.params['ll'])
    t = ('S', [(label, [0]), ('A', [1])])
    fmt = ctx.pick('fmt', ['bracket', 'discbracket'])
    action = ctx.pick('action', [None, 'leave', 'remove'])
    s = tb.writetree(tlib.totree(mod.ParentedTree, t), ['a', 'b'], '1', fmt)
    r = ctx.reader(dict(bracket='BracketCorpusReader',
            discbracket='DiscBracketCorpusReader')[fmt], [s],
            functions=action)
    (_, item), = r.itertrees()
    got = item.tree[0]
    want = label
    if action == 'remove':
        for char in '-=':
            for i in range(1, len(want)):
                if want[i] == char:
                    if want[0] != char:
                        want = want[:i]
                    break
    ctx.check(got.label == want, 'label')
    ctx.check(item.tree.label == 'S' and item.tree[1].label == 'A',
            'other labels')
    # grammatical function: NP-SBJ, NP-SBJ=2, NP-SBJ-1
    if label[0] != '-':
        i = next((i for i in range(1, len(label)) if label[i] == '-'), None)
        if i is None:
            ctx.check(got.source[tb.FUNC] == '--', 'no function')
        elif i < len(label) - 1 and ctx.And(*[ctx.Or(c == 'B', c == 'A')
                for c in label[i + 1:]]):
            ctx.check(got.source[tb.FUNC] == label[i + 1:],
                    'function tag')
            ctx.reach('function')
    ctx.reach('ok')
    ctx.observe(s, got.label, got.source[tb.FUNC])


HARNESSES = {
    'roundtrip': dict(fn=roundtrip, reach=['flat'], params=dict(
        quick=[dict(n=1, labels='A$-=1', words='()=1a', wl=3, unary=1,
                pretty=1),
            dict(n=2, labels='A1', words='(=a', wl=2, unary=1, none=1),
            dict(n=3, labels='A', words=')a', unary=1, pretty=1, perm=1),
            dict(n=2, labels='A', words='1', gap=1, perm=1),
            dict(n=13, labels='A', words='a', pad=9),
            dict(n=12, labels='A', words='a', pad=9, pretty=1, unary=1),
            dict(n=4, labels='A', words='a')],
        thorough=[dict(n=3, labels='A1', words='(=a', wl=2, unary=1, none=1),
            dict(n=4, labels='A', words='(1', unary=1, perm=1),
            dict(n=3, labels='A', words='1', gap=1, pretty=1)])),
    'corpus': dict(fn=corpus, reach=['ok'], params=dict(
        quick=[dict(lines=1, n=2, labels='A', words='(=', wl=1, perm=1),
            dict(lines=2, n=2, labels='A', words='a', wl=1),
            dict(lines=1, n=12, labels='A', words='a', pad=9),
            dict(lines=1, n=3, labels='A', words='a', perm=1)],
        thorough=[dict(lines=2, n=3, labels='A', words='a(')])),
    'functions': dict(fn=functions, reach=['ok', 'function'], params=dict(
        quick=[dict(labels='AB-=1', ll=4)],
        thorough=[dict(labels='AB-=1', ll=6)])),
}
