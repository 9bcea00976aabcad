"""Readers: incremental reading of streams, XML formats, agreement."""
import tlib
from C04 import samesent
from C06 import sortkids
NEEDS = ['bit']
OUTSIDE = ('XML parsing itself (ElementTree is trusted; the readers are given '
        'element objects), streams longer than stated, text with brackets '
        'between trees.')


class Elem:
    """Stand-in for ElementTree.Element that accepts symbolic strings."""
    def __init__(self, tag, **attrib):
        self.tag, self.attrib = tag, attrib
        self.kids, self.text, self.tail = [], None, None

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, val):
        self.attrib[key] = val

    def keys(self):
        return list(self.attrib)

    def append(self, x):
        self.kids.append(x)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def find(self, path):
        cur = self
        for part in path.split('/'):
            cur = next((a for a in cur.kids if a.tag == part), None)
            if cur is None:
                return None
        return cur

    def iter(self, tag=None):
        if tag is None or self.tag == tag:
            yield self
        for a in self.kids:
            yield from a.iter(tag)

    def findall(self, path):
        part, _, rest = path.partition('/')
        for a in self.kids:
            if a.tag == part:
                if rest:
                    yield from a.findall(rest)
                else:
                    yield a


class FakeET:
    """The part of ElementTree used for writing."""
    ParseError = ValueError
    Element = Elem

    @staticmethod
    def SubElement(parent, tag, **attrib):
        x = Elem(tag, **attrib)
        parent.append(x)
        return x

    @staticmethod
    def tostring(x, *a, **kw):
        class Raw:
            def decode(self, *a):
                return x
        return Raw()

    @staticmethod
    def fromstring(x):
        return x


def element(ctx, tag, text=None, kids=(), **attrib):
    """An XML element; the real thing when running concretely."""
    if ctx.symbolic:
        x = Elem(tag, **attrib)
    else:
        import xml.etree.ElementTree as ET
        x = ET.Element(tag, attrib)
    x.text = text
    for a in kids:
        x.append(a)
    return x


def gen(ctx):
    p = ctx.params
    n = p['n']
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', p['labels'], 1, 1),
            pos=lambda: ctx.string('t', p['tags'], 1, 1),
            unary=p.get('unary', 0), cont=p.get('cont', False))
    sent = [ctx.string('w', p['words'], 1, p.get('wl', 1)) for _ in range(n)]
    return t, sent


def agreement(ctx):
    """The same tree written in bracket, discbracket and export format is
    read as the same tree and words by the incremental reader, whichever
    number of trees in the stream."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    items, lines = [], []
    for k in range(ctx.params['trees']):
        t, sent = gen(ctx)
        if not k:  # one format per stream
            fmt = ctx.pick('fmt', ctx.params['formats'])
        top = ('ROOT', [t])
        s = tb.writetree(tlib.totree(mod.ParentedTree, top), sent, str(k),
                fmt)
        if ctx.params.get('othertext'):
            if fmt == 'export' and ctx.flag('text'):
                lines.append('%% text\n')
        part = s.split('\n')[:-1]
        lines.extend([a + '\n' if ctx.params.get('nl', True) else a
                for a in part])
        items.append((top, sent))
    got = list(tb.incrementaltreereader(list(lines)))
    ctx.check(len(got) == len(items), 'number of trees read')
    for (tree, words, _), (t, sent) in zip(got, items):
        ctx.check(tlib.same(ctx, sortkids(tlib.fromtree(tree)),
                sortkids(t)), 'tree')
        ctx.check(samesent(ctx, words, sent), 'words')
    ctx.reach('ok')
    ctx.observe(lines)


def stream(ctx):
    """Bracketed trees in a stream of text, one or more per line or spread
    over lines: every tree is yielded once, in order, with the text between
    it and the next."""
    tb = ctx.mod('treebank')
    text, want, cur = '', [], None
    for k in range(ctx.params['parts']):
        a = ctx.pick('part', ctx.params['kinds'])
        if a == 'tree':
            w = ctx.string('w', 'ab', 1, 1)
            sp = ctx.pick('space', [' ', '\n', '\n  '])
            text = text + '(S (A ' + w + ')' + sp + '(B b))'
            cur = [('S', [('A', [0]), ('B', [1])]), [w, 'b'], '']
            want.append(cur)
        elif a == 'one':
            text = text + '(S (A a))'
            cur = [('S', [('A', [0])]), ['a'], '']
            want.append(cur)
        elif a == 'disc':
            text = text + '(S (A 1=a) (B 0=b))'
            cur = [('S', [('A', [1]), ('B', [0])]), ['b', 'a'], '']
            want.append(cur)
        else:
            s = {'nl': '\n', 'sp': ' ', 'text': ' xy', 'textnl': '\nxy',
                    'hash': '\n# xy\n'}[a]
            text = text + s
            if cur is not None:
                cur[2] += s
    lines = text.split('\n')
    lines = [a + '\n' for a in lines[:-1]] + ([lines[-1]] if lines[-1]
            else [])
    strict = ctx.flag('strict')
    got = list(tb.incrementaltreereader(lines, strict=strict))
    ctx.check(len(got) == len(want), 'number of trees')
    for (tree, sent, rest), (t, s, r) in zip(got, want):
        ctx.check(tlib.same(ctx, tlib.fromtree(tree), t), 'tree')
        ctx.check(samesent(ctx, sent, s), 'words')
        ctx.check(rest == r.rstrip(), 'text after tree')
    ctx.reach('ok' if want else 'none')
    # with othertext=True nothing is lost either
    got = [a for a in tb.incrementaltreereader(lines, othertext=True)]
    ctx.check(len([a for a in got if a[0] is not None]) == len(want),
            'number of trees with othertext')
    ctx.observe(lines)


def unbalanced(ctx):
    """Malformed brackets: with strict=True a surplus closing bracket raises
    ValueError, otherwise complete trees are still found."""
    tb = ctx.mod('treebank')
    lines, n, bad = [], 0, False
    for k in range(ctx.params['parts']):
        a = ctx.pick('part', ['tree', 'close', 'text', 'lone'])
        lines.append({'tree': '(S (A a) (B b))\n', 'close': ')\n',
                'text': 'xy\n', 'lone': '(hm)\n'}[a])
        n += a == 'tree'
        bad |= a == 'close'
    if ctx.flag('strict'):
        try:
            got = list(tb.incrementaltreereader(lines, strict=True))
        except ValueError:
            ctx.check(bad, 'well-formed input was refused')
            ctx.reach('refused')
            return
        ctx.check(not bad, 'unbalanced brackets were accepted')
    else:
        got = list(tb.incrementaltreereader(lines))
    ctx.check(len(got) == n, 'number of trees')
    for tree, sent, _ in got:
        ctx.check(tlib.same(ctx, tlib.fromtree(tree), ('S', [('A', [0]),
                ('B', [1])])), 'tree')
        ctx.check(sent == ['a', 'b'], 'words')
    ctx.reach('read')
    ctx.observe(lines)


def exportstream(ctx):
    """Export blocks in a stream with tables, headers, and comments; nothing
    but the sentences is yielded."""
    tb = ctx.mod('treebank')
    lines, want = [], []
    for k in range(ctx.params['parts']):
        a = ctx.pick('part', ['sent', 'table', 'format', 'comment', 'blank'])
        if a == 'sent':
            w = ctx.string('w', 'a#(', 1, 2)
            lines.extend(['#BOS %d 1 2 %%%% c' % k,
                    w + '\t--\tT\t--\t--\t500', '#500\t--\tX\t--\t--\t0',
                    '#EOS %d' % k])
            want.append((('ROOT', [('X', [('T', [0])])]), [w], 'c'))
        else:
            lines.extend({'table': ['#BOT WORDTAG', '0\tA\tN\tb', '1\tB',
                '#EOT WORDTAG'], 'format': ['#FORMAT 4'],
                'comment': ['%% comment'], 'blank': ['']}[a])
    nl = ctx.pick('nl', ['', '\n'])
    got = list(tb.incrementaltreereader([a + nl for a in lines],
            strict=ctx.flag('strict')))
    ctx.check(len(got) == len(want), 'number of trees')
    for (tree, sent, rest), (t, s, r) in zip(got, want):
        ctx.check(tlib.same(ctx, tlib.fromtree(tree), t), 'tree')
        ctx.check(samesent(ctx, sent, s), 'words')
        ctx.check(rest == r, 'comment')
    ctx.reach('ok')
    ctx.observe(lines)


def tiger(ctx):
    """Tiger XML: the tree of the edges, with words, tags, edge labels."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t, sent = gen(ctx)
    terms, nts, ids, order = [], [], {}, {}
    phr = [a for a in tlib.subtrees(t) if isinstance(a[1][0], tuple)]
    nums = list(range(len(phr)))
    for k, a in enumerate(phr):
        ids[id(a)] = 's1_%s' % ('VROOT' if a is t and ctx.params.get('vroot')
                else 500 + len(phr) - k)
    pres = sorted(tlib.preterminals(t), key=lambda a: a[1][0])
    for a in pres:
        ids[id(a)] = 's1_%d' % (a[1][0] + 1)
    lab, want = {}, {}
    for a in tlib.subtrees(t):
        lab[id(a)] = ctx.string('edge', 'SB', 1, 1)
    kw = lambda a: dict(lemma='l', morph='m')
    terms = [element(ctx, 't', id=ids[id(a)], word=sent[a[1][0]], pos=a[0],
            **kw(a)) for a in pres]
    for a in phr:
        edges = [element(ctx, 'edge', idref=ids[id(b)], label=lab[id(b)])
                for b in a[1]]
        nts.append(element(ctx, 'nt', id=ids[id(a)], cat=a[0], kids=edges))
    if ctx.flag('rev'):
        nts.reverse()
    graph = element(ctx, 'graph', root=ids[id(t)], kids=[
            element(ctx, 'terminals', kids=terms),
            element(ctx, 'nonterminals', kids=nts)])
    s = element(ctx, 's', id='s1', kids=[graph])
    f = ctx.pick('functions', [None, 'add'])
    r = ctx.reader('TigerXMLCorpusReader', ['<x></x>'], functions=f
            ) if False else object.__new__(tb.TigerXMLCorpusReader)
    r.functions, r.morphology, r.lemmas = f, None, None
    item = r._parse((b'raw', s))

    def conv(x):
        if not isinstance(x, tuple):
            return x
        label = x[0]
        if x is t:
            label = ids[id(t)][3:]
        elif f == 'add':
            label = label + '-' + lab[id(x)]
        return (label, [conv(a) for a in x[1]])
    ctx.check(tlib.same(ctx, sortkids(tlib.fromtree(item.tree)),
            sortkids(conv(t))), 'tree')
    ctx.check(samesent(ctx, item.sent, sent), 'words')
    for x in item.tree.subtrees():
        if x is item.tree:
            continue
        ctx.check(len(x.source) == 6 and x.source[tb.FUNC] in ('S', 'B'),
                'edge label')
        if not isinstance(x[0], mod.Tree):
            ctx.check(x.source[tb.LEMMA] == 'l'
                    and x.source[tb.MORPH] == 'm', 'lemma, morphology')
    ctx.reach('ok')
    ctx.observe(tlib.show(sortkids(tlib.fromtree(item.tree))))


def alpino(ctx):
    """Alpino XML: tree of the nodes with a category or word; empty coindexed
    nodes are left out, secondary edges recorded."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t, sent = gen(ctx)
    cnt = [0]
    relof = {}
    coidx = ctx.choice('coindex', 2)  # an empty node referring to a terminal
    target = [None]

    def node(x, root=False):
        i = cnt[0]
        cnt[0] += 1
        rel = ctx.pick('rel', ['su', 'hd']) if not root else 'top'
        relof[id(x)] = rel
        if isinstance(x[1][0], tuple):
            kids = [node(a) for a in x[1]]
            if root and coidx:
                # index of the first terminal; possibly inside an otherwise
                # empty phrase
                e = element(ctx, 'node', id=str(cnt[0]), rel='obj',
                        index='1', begin='0', end='1')
                cnt[0] += 1
                if ctx.flag('empty phrase'):
                    e = element(ctx, 'node', id=str(cnt[0]), rel='mod',
                            cat='np', begin='0', end='1', kids=[e])
                    cnt[0] += 1
                    target[0] = 500 + cnt[0] - 1
                else:
                    target[0] = 500 + i
                kids.insert(ctx.choice('where', 2) * len(kids), e)
            return element(ctx, 'node', id=str(i), rel=rel, cat=x[0],
                    begin=str(min(tlib.leaves(x))),
                    end=str(max(tlib.leaves(x)) + 1), kids=kids)
        n = x[1][0]
        kw = dict(index='1') if coidx and n == 0 else {}
        kw['pt' if ctx.params.get('pt') else 'pos'] = x[0]
        return element(ctx, 'node', id=str(i), rel=rel, word=sent[n],
                lemma='le', postag='po', begin=str(n), end=str(n + 1), **kw)
    root = node(t, True)
    words = element(ctx, 'sentence', text=tlib.join(' ', sent))
    kids = [root, words]
    comment = ctx.flag('comment')
    if comment:
        kids.append(element(ctx, 'comments', kids=[element(ctx, 'comment',
                text='q|c'), element(ctx, 'comment', text='second')]))
    top = element(ctx, 'alpino_ds', version='1.3', kids=kids)
    item = tb.alpinotree((b'raw', top), None, None, None)

    def conv(x):
        if not isinstance(x, tuple):
            return x
        pre = not isinstance(x[1][0], tuple)
        return (x[0] if pre else x[0].upper(), [conv(a) for a in x[1]])
    ctx.check(tlib.same(ctx, sortkids(tlib.fromtree(item.tree)),
            sortkids(conv(t))), 'tree')
    ctx.check(samesent(ctx, item.sent, sent), 'words')
    ctx.check(item.comment == ('q|c' if comment else None), 'comment')
    order = []

    def same(node, x):
        ctx.check(node.source[tb.FUNC] == relof[id(x)], 'relation')
        if isinstance(x[1][0], tuple):
            for a, b in zip(node, x[1]):
                same(a, b)
        else:
            ctx.check(node.source[tb.LEMMA] == 'le'
                    and node.source[tb.MORPH] == 'po', 'lemma, morphology')
            if coidx and x[1][0] == 0:
                ctx.check(node.source[6:] == ['obj', target[0]],
                        'secondary edge')
                ctx.reach('secedge')
    same(item.tree, t)
    ctx.reach('ok')
    ctx.observe(tlib.show(sortkids(tlib.fromtree(item.tree))))


def alpinowrite(ctx):
    """A tree written as Alpino XML is read as the same tree, sentence and
    comment (labels of phrases upper case, of words lower case)."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    t, sent = gen(ctx)
    orig = tlib.totree(mod.ParentedTree, t)
    rels = {}
    for x in orig.subtrees():
        x.source = ['--', 'le', '--', 'mo', ctx.pick('rel', ['su', 'hd']),
                '--']
    if ctx.symbolic:
        tb.ElementTree = FakeET
    comment = ctx.pick('comment', [None, 'cmt'])
    s = tb.writetree(orig, sent, 'key', 'alpino', comment=comment)
    xml = tb.ElementTree.fromstring(s)
    item = tb.alpinotree((s, xml), None, None, None)
    ctx.check(tlib.same(ctx, tlib.fromtree(item.tree), t), 'tree')
    ctx.check(samesent(ctx, item.sent, sent), 'words')
    ctx.check(item.comment == ('key|cmt' if comment else 'key'), 'comment')
    for x, y in zip(orig.subtrees(), item.tree.subtrees()):
        ctx.check(x.source[tb.FUNC] == y.source[tb.FUNC], 'relation')
        if not isinstance(x[0], mod.Tree):
            ctx.check(y.source[tb.LEMMA] == 'le'
                    and y.source[tb.MORPH] == 'mo', 'lemma, morphology')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(item.tree)), item.comment)


def ftb(ctx):
    """FTB XML: words in order, compounds as MW nodes, empty phrases left
    out, functions."""
    mod, tb = ctx.mod('tree'), ctx.mod('treebank')
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.pick('l', ['NP', 'VP']),
            pos=lambda: ctx.string('t', p['tags'], 1, 1), cont=True,
            unary=p.get('unary', 0))
    sent = [ctx.string('w', p['words'], 1, 1) for _ in range(p['n'])]
    mw = {}

    def node(x):
        if not isinstance(x[1][0], tuple):
            return element(ctx, 'w', text=sent[x[1][0]], cat=x[0],
                    lemma='le', ee='mo')
        kids = [node(a) for a in x[1]]
        if x is not t and all(not isinstance(a[1][0], tuple)
                for a in x[1]) and ctx.flag('compound'):
            mw[id(x)] = 'MWN'
            return element(ctx, 'w', cat='N', kids=kids)
        kw = dict(fct='SUJ') if x is not t and ctx.flag('fct') else {}
        if kw:
            mw[id(x)] = x[0] + ':SUJ'
        return element(ctx, x[0], kids=kids, **kw)
    xml = node(t)
    item = tb.ftbtree((b'raw', xml), None, None, None)

    def conv(x):
        if not isinstance(x, tuple):
            return x
        return ('MWN' if mw.get(id(x)) == 'MWN' else x[0],
                [conv(a) for a in x[1]])
    ctx.check(tlib.same(ctx, tlib.fromtree(item.tree), conv(t)), 'tree')
    ctx.check(samesent(ctx, item.sent, sent), 'words')

    def rec(node, x):
        if not isinstance(x, tuple):
            return
        ctx.check(node.source[tb.FUNC] == ('SUJ' if mw.get(id(x), ''
                ).endswith(':SUJ') else ''), 'function')
        for a, b in zip(node, x[1]):
            rec(a, b)
    rec(item.tree, t)
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(item.tree)))


HARNESSES = {
    'agreement': dict(fn=agreement, reach=['ok'], params=dict(
        quick=[dict(trees=1, n=3, labels='A', tags='T', words='a(',
                formats=['discbracket', 'export'], unary=1),
            dict(trees=1, n=3, labels='A-', tags='T', words='a)', wl=2,
                formats=['bracket'], cont=True),
            dict(trees=2, n=2, labels='A', tags='T', words='a(',
                formats=['bracket', 'discbracket', 'export'], cont=True,
                othertext=True),
            dict(trees=1, n=12, pad=9, labels='A', tags='T', words='a',
                formats=['discbracket', 'export']),
            dict(trees=2, n=1, labels='A', tags='T', words='a', nl=False,
                formats=['bracket', 'discbracket', 'export'], cont=True)],
        thorough=[dict(trees=3, n=2, labels='A', tags='T', words='a(',
            formats=['bracket', 'discbracket', 'export'], cont=True,
            othertext=True), dict(trees=2, n=3, labels='A', tags='T',
                words='a', formats=['discbracket', 'export'])])),
    'stream': dict(fn=stream, reach=['ok', 'none'], params=dict(
        quick=[dict(parts=3, kinds=['tree', 'one', 'disc', 'nl', 'sp',
            'text', 'textnl', 'hash'])],
        thorough=[dict(parts=4, kinds=['tree', 'one', 'disc', 'nl', 'sp',
            'text', 'textnl', 'hash'])])),
    'unbalanced': dict(fn=unbalanced, reach=['refused', 'read'],
        params=dict(quick=[dict(parts=3)], thorough=[dict(parts=5)])),
    'exportstream': dict(fn=exportstream, reach=['ok'], params=dict(
        quick=[dict(parts=2)], thorough=[dict(parts=4)])),
    'tiger': dict(fn=tiger, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='A', tags='T', words='a(', vroot=1, unary=1),
            dict(n=3, labels='AB', tags='T', words='a'),
            dict(n=1, labels='A', tags='T[', words='a', unary=1)],
        thorough=[dict(n=3, labels='AB', tags='T', words='a', unary=1,
            vroot=1)])),
    'alpino': dict(fn=alpino, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='ab', tags='tT', words='a(', unary=1),
            dict(n=2, labels='a', tags='t', words='a', pt=1)],
        thorough=[dict(n=3, labels='ab', tags='tT', words='a(', unary=0)])),
    'alpinowrite': dict(fn=alpinowrite, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='AB', tags='tu', words='a(', unary=1),
            dict(n=3, labels='A', tags='t', words='a')],
        thorough=[dict(n=3, labels='AB', tags='tu', words='a(', unary=1)])),
    'ftb': dict(fn=ftb, reach=['ok'], params=dict(
        quick=[dict(n=2, tags='T', words='a(', unary=1),
            dict(n=3, tags='T', words='a')],
        thorough=[dict(n=4, tags='T', words='a')])),
}
