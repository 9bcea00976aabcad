"""Searching through treebanks with tree fragments."""
import tlib
import C28
from C28 import N, instantiate, matches, runs, some
NEEDS = C28.NEEDS
SYMBYTES = True
OUTSIDE = ('The layout of the files with indexed trees and vocabularies, which '
        'are modelled as holding what was stored; words with brackets; more '
        'sentences and larger trees than given; treebanks in which labels '
        'contain "|<".')
ASSUMPTIONS = ['RoaringBitmap behaves as a set of integers',
        'C arrays behave as lists; access out of bounds is reported',
        'indexed trees and vocabularies are read as they were written',
        'jobs of a pool are independent']


def setup(universe, instrument):
    """Files with trees and vocabularies hold a copy of the object."""
    mod = universe.get('containers')
    files = instrument.FILES
    cp = mod._cy.cp
    multi = mod.MultiRoaringBitmap

    def copyctrees(a):
        b = mod.Ctrees.__new__(mod.Ctrees)
        for x in ('len', 'max', 'numnodes', 'numwords', 'maxnodes', 'nodes',
                'trees', 'prodindex'):
            setattr(b, x, getattr(a, x))
        b.max, b.nodesleft, b.allocated = b.len, 0, False
        b.prodindex = multi(list(b.prodindex))
        return b

    def ctofile(self, filename):
        files[filename] = ('ctrees', copyctrees(self))
        instrument.touch(filename)

    def cfromfile(filename):
        return copyctrees(files[filename][1])

    def vtofile(self, filename):
        files[filename] = ('vocab', {x: cp(getattr(self, x))
                for x in ('prodbuf', 'labelidx', 'labelbuf')})
        instrument.touch(filename)

    def vfromfile(filename):
        b = mod.FixedVocabulary.__new__(mod.FixedVocabulary)
        for x, y in files[filename][1].items():
            y = cp(y)
            y.capacity = 0
            setattr(b, x, y)
        return b
    mod.Ctrees.tofile, mod.Ctrees.fromfile = ctofile, staticmethod(cfromfile)
    mod.Vocabulary.tofile = vtofile
    mod.FixedVocabulary.fromfile = staticmethod(vfromfile)


def show(a, disc):
    """Tree or fragment in bracket format."""
    if a.kids:
        return tlib.cat(['(', a.label] + [x for k in a.kids
                for x in (' ', show(k, disc))] + [')'])
    if disc:
        return tlib.cat(['(', a.label] + [x for i in a.leaves
                for x in (' %d=' % i, a.word or '')] + [')'])
    return tlib.cat(['(', a.label, ' ', a.word or '', ')'])


def numnodes(a):
    """Number of nodes after binarization."""
    return 1 + max(len(a.kids) - 2, 0) + sum(map(numnodes, a.kids))


def spans(sent, idx):
    """Indices of characters of tokens with the spaces following them."""
    out, pos = [], 0
    for n, a in enumerate(sent):
        if n in idx:
            out.extend(range(pos, pos + len(a) + (n + 1 < len(sent))))
        pos += len(a) + 1
    return out


def sametree(tree, a):
    """Compare a Tree to a reference tree."""
    if not a.kids:
        return bool(tree.label == a.label) and list(tree) == a.leaves
    return (bool(tree.label == a.label) and len(tree) == len(a.kids)
            and all(sametree(x, y) for x, y in zip(tree, a.kids)))


def labelsof(a):
    return [a.label] + [x for k in a.kids for x in labelsof(k)]


class Bank:
    """A file with trees."""
    def __init__(self, ctx, n, specs, ext):
        self.disc = ext == 'dbr'
        x = [instantiate(ctx, a) for a in specs]
        self.trees, self.sents = [a for a, _ in x], [b for _, b in x]
        self.path = ctx.file('corpus/f%d.%s' % (n, ext), tlib.cat([y
                for a in self.trees for y in (show(a, self.disc), '\n')]))
        ctx.touch(self.path, 1000000000)

    def find(self, frags, start=None, end=None):
        """For each fragment, list of (sentence number, node)."""
        return [[(n, b) for n, a in enumerate(self.trees, 1)
                for b in a.nodes()
                if (not start or n >= start) and (not end or n <= end)
                and matches(q, inside, b)]
                for q, inside in frags]


def fragments(ctx, specs):
    out = []
    for a in specs:
        q = instantiate(ctx, a)[0]
        out.append((q, [b for b in q.nodes()
                if b.kids or b.word is not None]))
    return out


def inside(q, nodes, b):
    """Words of fragment that matches at b."""
    if not b.kids:
        return list(b.leaves) if q.word is not None else []
    if not q.kids:
        return []
    return [i for x, y in zip(q.kids, b.kids) for i in inside(x, nodes, y)]


def remove(ctx, left, cond, what):
    for n, a in enumerate(left):
        if cond(a):
            return left.pop(n)
    ctx.fail('not a match: ' + what)


def checksents(ctx, bank, frags, got, ref, limit, brackets):
    total = sum(map(len, ref))
    ctx.check(len(got) == min(total, limit or total), 'number of sents')
    order = [n for a in ref for n, _ in a]
    ctx.check([a[0] for a in got] == order[:len(got)],
            'sentence numbers of sents')
    pos = 0
    for (q, nodes), expected in zip(frags, ref):
        left = list(expected)
        for sentno, sent, m1, m2 in got[pos:pos + len(expected)]:
            tree, words = bank.trees[sentno - 1], bank.sents[sentno - 1]
            if brackets:
                ctx.check(sent == show(tree, bank.disc), 'tree of sents')
                remove(ctx, left, lambda x: x[0] == sentno and bool(
                        m1 == show(x[1], bank.disc)), 'tree')
                ctx.check(m2 == '', 'second match')
                continue
            ctx.check(sent == tlib.join(' ', words), 'sentence')
            m1, m2 = sorted(m1), sorted(m2)

            def cond(x):
                if x[0] != sentno or m2 != spans(words, x[1].leaves):
                    return False
                need = spans(words, inside(q, nodes, x[1]))
                return all(c in m1 for c in need)
            _, b = remove(ctx, left, cond, 'sentence')
            mine = [a.word for a in nodes if a.word is not None]
            may = spans(words, [i for i in b.leaves if any(
                    bool(words[i] == w) for w in mine)])
            ctx.check(all(c in may for c in m1), 'highlighted words')
            if limit is None and m1:
                ctx.reach('highlighted')
        pos += len(expected)


def checktrees(ctx, bank, got, ref, limit):
    total = sum(map(len, ref))
    ctx.check(len(got) == min(total, limit or total), 'number of trees')
    order = [n for a in ref for n, _ in a]
    ctx.check([a[0] for a in got] == order[:len(got)],
            'sentence numbers of trees')
    pos = 0
    for expected in ref:
        left = list(expected)
        for sentno, tree, sent, high in got[pos:pos + len(expected)]:
            ref = bank.trees[sentno - 1]
            ctx.check(sametree(tree, ref), 'tree')
            ctx.check(len(sent) == len(bank.sents[sentno - 1]) and all(
                    bool(a == b) for a, b in zip(sent,
                    bank.sents[sentno - 1])), 'sentence of tree')
            nodes = [a for a in high if not isinstance(a, int)]
            words = sorted(a for a in high if isinstance(a, int))

            def cond(x):
                return (x[0] == sentno and words == x[1].leaves
                        and len(nodes) == len(x[1].nodes())
                        and sametree(nodes[0], x[1]))
            remove(ctx, left, cond, 'tree')
            # nodes are part of the tree
            every = list(tree.subtrees())
            ctx.check(all(any(a is b for b in every) for a in nodes),
                    'highlighted nodes are those of the tree')
        pos += len(expected)


METHODS = ['counts', 'indices', 'breakdown', 'sents', 'brackets', 'trees',
        'batchcounts', 'batchsents', 'extract', 'getinfo']


def run(ctx, searcher, banks, frags, method, start, end, limit, subset=None,
        sep='\n'):
    query = [show(q, any(a.disc for a in banks)) for q, _ in frags]
    used = [a for a in banks if subset is None or a.path in subset]
    ref = {a.path: a.find(frags, start, end) for a in used}
    one = tlib.join(sep, query)
    if any(a for x in ref.values() for a in x):
        ctx.reach('found')
    else:
        ctx.reach('not found')
    if method == 'counts':
        got = searcher.counts(one, subset, start, end)
        ctx.check(sorted(got) == sorted(ref), 'files')
        for f in ref:
            ctx.check(got[f] == sum(map(len, ref[f])), 'count')
    elif method == 'indices':
        got = searcher.counts(one, subset, start, end, indices=True)
        for f in ref:
            ctx.check(list(got[f]) == [n for a in ref[f] for n, _ in a],
                    'indices')
    elif method == 'breakdown':
        if len(query) > 1 and query[0] == query[1]:
            return
        got = searcher.counts(tlib.join('\n', query), subset, start, end,
                breakdown=True)
        for f in ref:
            for q, a in zip(query, ref[f]):
                ctx.check(got[f][q] == len(a), 'count of fragment')
    elif method == 'batchcounts':
        got = [(f, list(x)) for f, x in searcher.batchcounts(query, subset,
                start, end)]
        ctx.check(sorted(got) == sorted((f, [len(a) for a in ref[f]])
                for f in ref), 'batchcounts')
    elif method in ('sents', 'brackets'):
        got = searcher.sents(one, subset, start, end, limit,
                brackets=method == 'brackets')
        for a in used:
            checksents(ctx, a, frags, [x[1:] for x in got if x[0] == a.path],
                    ref[a.path], limit, method == 'brackets')
    elif method == 'batchsents':
        got = dict(searcher.batchsents(query, subset, start, end, limit))
        for a in used:
            pos = 0
            for b, expected in zip(frags, ref[a.path]):
                n = min(len(expected), limit or len(expected))
                checksents(ctx, a, [b], got[a.path][pos:pos + n], [expected],
                        limit, False)
                pos += n
            ctx.check(len(got[a.path]) == pos, 'number of batchsents')
    elif method == 'trees':
        got = searcher.trees(one, subset, start, end, limit)
        for a in used:
            checktrees(ctx, a, [x[1:] for x in got if x[0] == a.path],
                    ref[a.path], limit)
    elif method == 'extract':
        for a in used:
            idx = list(range(len(a.trees), 0, -1))
            got = searcher.extract(a.path, idx)
            for n, (tree, sent) in zip(idx, got):
                ctx.check(sametree(tree, a.trees[n - 1]), 'extracted tree')
                ctx.check(tlib.join(' ', sent) == tlib.join(' ',
                        a.sents[n - 1]), 'sentence of extracted tree')
            got = searcher.extract(a.path, idx, sents=True)
            for n, sent in zip(idx, got):
                ctx.check(sent == tlib.join(' ', a.sents[n - 1]),
                        'extracted sentence')
    elif method == 'getinfo':
        for a in used:
            got = searcher.getinfo(a.path)
            ctx.check(got.len == len(a.trees), 'number of sentences')
            ctx.check(got.numwords == sum(map(len, a.sents)),
                    'number of words')
            ctx.check(got.numnodes == sum(map(numnodes, a.trees)),
                    'number of nodes')
            ctx.check(got.maxnodes == max(map(numnodes, a.trees)),
                    'largest number of nodes')


def open_(ctx, banks, inmemory=True, numproc=1, reuse=False):
    mod = ctx.mod('treesearch')
    paths = [a.path for a in banks]
    if reuse:
        with mod.FragmentSearcher(paths, numproc=1) as searcher:
            for a in paths:
                ctx.touch(a + '.ct', 2000000000)
            ctx.touch(searcher.vocabpath, 3000000000)
    return mod.FragmentSearcher(paths, numproc=numproc, inmemory=inmemory)


def search(ctx):
    """A query gives exactly the occurrences of its fragments in the requested
    interval; whether or not the index of the corpus existed already."""
    p = ctx.params
    ctx.file('corpus')
    banks = [Bank(ctx, n, a, p['ext']) for n, a in enumerate(p['banks'])]
    frags = fragments(ctx, ctx.pick('query', p['queries']))
    method = ctx.pick('method', p.get('methods', METHODS))
    start = end = limit = None
    if method not in ('extract', 'getinfo'):
        start = ctx.pick('start', p.get('start', [None]))
        end = ctx.pick('end', p.get('end', [None]))
        if start and end and start > end:
            return
    if method in ('sents', 'trees', 'batchsents', 'brackets'):
        limit = ctx.pick('limit', p.get('limit', [None, 1, 2]))
    reuse = ctx.flag('reuse')
    inmemory = ctx.flag('inmemory') if method in ('extract', 'getinfo'
            ) else True
    sep = ctx.pick('sep', p.get('sep', ['\n'])) if len(frags) > 1 else ''
    searcher = open_(ctx, banks, inmemory, 1, reuse)
    run(ctx, searcher, banks, frags, method, start, end, limit, sep=sep)
    searcher.close()


X1 = [['S', ['A', ['?BC', 0]], ['?BC', ['C', 1]]], ['?xyz', 'x']]
X2 = [['S', ['A', ['B', 0], ['?BC', 1], ['C', 2]], ['B', 3]],
        ['x', '?xy', 'y', 'x']]
Q1 = [['A', ['?BC', 0]], ['?xw']]
Q2 = [['A', ['B', 0], ['B', 1], ['?CE', 2]], ['x', None, None]]
Q3 = [['S', ['A', 0], ['?BC', 1]], [None, None]]
Q4 = [['C', 0], ['?xy']]
XD = [['S', ['A', ['B', 0], ['?BC', 2]], ['C', 1]], ['x', '?xyz', 'y']]
QD1 = [['A', ['B', 0], ['C', 2]], ['?xw', None, None]]
QD2 = [['S', ['A', 0, 2], ['C', 1]], [None, '?xy', None]]
QD3 = [['A', ['B', 0], ['?BC', 1]], [None, None]]
R1 = [['A', ['?BE', 0]], ['x']]
# indices of several digits
XL = [['S', *[['F', n] for n in range(9)], ['A', ['B', 9], ['?BC', 11]],
        ['C', 10]], [*'uuuuuuuuu', 'x', '?xyz', 'y']]
XM = [['S', *[['F', n] for n in range(9)], ['A', ['B', 9], ['?BC', 10]],
        ['C', 11]], [*'uuuuuuuuu', 'x', '?xyz', 'y']]
S2 = [None, 1, 2, 3]


def history(ctx):
    """The result of a query does not depend on those before it, nor on the
    order in which the jobs for different files are completed."""
    p = ctx.params
    ctx.file('corpus')
    numproc = p.get('numproc', 1)
    if numproc > 1:
        ctx.futures(lambda n: ctx.choice('order', n))
    banks = [Bank(ctx, n, a, p['ext']) for n, a in enumerate(p['banks'])]
    queries = [fragments(ctx, a) for a in p['queries']]
    searcher = open_(ctx, banks, True, numproc, ctx.flag('reuse'))
    for _ in range(p['steps']):
        method = ctx.pick('method', p['methods'])
        frags = ctx.pick('query', queries)
        limit = (ctx.pick('limit', [None, 1, 2]) if method in ('sents',
                'trees', 'batchsents', 'brackets') else None)
        start, end = ctx.pick('slice', p.get('slices', [[None, None]]))
        subset = None
        if len(banks) > 1 and ctx.flag('subset'):
            subset = [banks[1].path]
        run(ctx, searcher, banks, frags, method, start, end, limit, subset)
    searcher.close()
    ctx.reach('ok')


def index(ctx):
    """An index that was made before is only used if it is still valid."""
    p = ctx.params
    ctx.file('corpus')
    banks = [Bank(ctx, n, a, p['ext']) for n, a in enumerate(p['banks'])]
    first = ctx.pick('first', [[0], [1], [0, 1]])
    mod = ctx.mod('treesearch')
    with mod.FragmentSearcher([banks[n].path for n in first],
            numproc=1) as searcher:
        for n in first:
            ctx.touch(banks[n].path + '.ct', 2000000000)
        ctx.touch(searcher.vocabpath, 3000000000)
    if ctx.flag('modified'):
        banks[0] = Bank(ctx, 0, p['other'], p['ext'])
        ctx.touch(banks[0].path, 4000000000)
        ctx.reach('modified')
    second = ctx.pick('second', [[0], [1], [0, 1], [1, 0]])
    banks = [banks[n] for n in second]
    if second != first:
        ctx.reach('other')
    frags = fragments(ctx, p['query'])
    searcher = mod.FragmentSearcher([a.path for a in banks], numproc=1)
    run(ctx, searcher, banks, frags, ctx.pick('method', ['sents', 'trees',
            'extract', 'counts']), None, None, None)


def labels(ctx):
    """Function tags and morphological features are removed from labels in
    trees, and neither from words nor from what is highlighted."""
    p = ctx.params
    ctx.file('corpus')
    mod = ctx.mod('treesearch')
    nofunc, nomorph = ctx.flag('nofunc'), ctx.flag('nomorph')

    def label(cat):
        morph = ctx.pick('morph', ['', '[a,b]'])
        func = ctx.pick('func', ['', '-X'] if morph else ['', '-XY-Z'])
        idx = ctx.pick('idx', ['', '*0'])
        return (cat + morph + func + idx, cat + ('' if nomorph else morph)
                + ('' if nofunc else func) + idx)
    (s, s1), (a, a1) = label('S'), label('NP')
    w = ctx.string('word', 'x-[', 1, 3)
    v = 'y-z'
    path = ctx.file('corpus/a.mrg', tlib.cat(['(', s, ' (', a, ' ', w, ') (B ',
            v, '))\n']))
    searcher = mod.FragmentSearcher([path], numproc=1)
    want = tlib.cat(['(', s1, ' (', a1, ' 0) (B 1))'])
    got = searcher.extract(path, [1], nofunc=nofunc, nomorph=nomorph)
    ctx.check(ctx.str(got[0][0]) == want, 'extracted tree')
    ctx.check(got[0][1][0] == w and got[0][1][1] == v, 'extracted words')
    got = searcher.trees(tlib.cat(['(', a, ' ', w, ')']), nofunc=nofunc,
            nomorph=nomorph)
    ctx.check(len(got) == 1 and ctx.str(got[0][2]) == want, 'tree')
    ctx.check(got[0][3][0] == w and got[0][3][1] == v, 'words')
    ctx.check(len(got[0][4]) == 2 and got[0][4][1] == 0
            and got[0][4][0].label == a1, 'highlight')
    ctx.reach('ok')


HARNESSES = {
    'search': dict(fn=search, reach=['found', 'not found'], params=dict(quick=[
        dict(ext='dbr', banks=[[some(XL, 1), some(XD, 1)]], queries=[[QD1],
            [some(Q4)]], limit=[None]),
        dict(ext='mrg', banks=[[some(XM, 1), some(X2, 1)]], queries=[[Q3],
            [QD3]], limit=[None], methods=['sents', 'brackets']),
        dict(ext='mrg', banks=[[X1, some(X2, 1)]], queries=[[Q1], [Q2], [Q3]]),
        dict(ext='mrg', banks=[[some(X1, 1), some(X2, 1), some(X1, 3)]],
            queries=[[R1, Q4]], start=S2, end=S2, sep=['\n', ' '],
            methods=METHODS[:8], limit=[None, 2]),
        dict(ext='dbr', banks=[[XD, some(X2, 1)]],
            queries=[[QD1], [QD2], [QD3]]),
        dict(ext='mrg', banks=[[some(X1, 1)], [some(X2, 1)]],
            queries=[[Q1], [Q4]], limit=[None, 1]),
        ], thorough=[
        dict(ext='dbr', banks=[[XL, some(XD, 1)]], queries=[[QD1], [QD3],
            [Q4]], limit=[None, 1]),
        dict(ext='mrg', banks=[[X1, X2]], queries=[[Q1], [Q2], [Q3], [Q4]],
            start=S2[:3], end=S2[:3]),
        dict(ext='dbr', banks=[[XD, X2], [some(XD, 1)]],
            queries=[[QD1], [QD2], [QD3], [QD1, QD3]]),
        dict(ext='mrg', banks=[[X1, some(X2, 1), some(X1, 3), some(X2, 1)]],
            queries=[[R1, Q4]], start=S2, end=S2, sep=['\n', ' '],
            methods=METHODS[:8]),
        ])),
    'history': dict(fn=history, reach=['ok', 'found'], params=dict(quick=[
        dict(ext='mrg', banks=[[some(X1, 1), some(X2, 1)]], steps=2,
            queries=[[R1], [some(Q4)]], methods=['sents', 'brackets', 'trees',
                'counts', 'indices'], slices=[[None, None], [2, 2]]),
        dict(ext='mrg', banks=[[some(X1, 1)], [some(X2)]], steps=2, numproc=2,
            queries=[[R1]], methods=['sents', 'trees', 'counts',
                'batchcounts']),
        ], thorough=[
        dict(ext='mrg', banks=[[some(X1, 1), some(X2)]], steps=3,
            queries=[[R1], [some(Q4)]], methods=['sents', 'brackets', 'trees',
                'counts', 'indices'], slices=[[None, None], [2, 2]]),
        dict(ext='dbr', banks=[[some(XD, 1)], [some(XD, 2)]], steps=2,
            numproc=2, queries=[[QD3], [R1, QD3]], methods=METHODS[:8]),
        ])),
    'index': dict(fn=index, reach=['found', 'not found', 'modified', 'other'],
        params=dict(quick=[
        dict(ext='mrg', banks=[[some(X1, 1)], [some(X2)]],
            other=[some(X2, 1), some(X1)], query=[R1])],
        thorough=[dict(ext='dbr', banks=[[some(XD, 1)], [XD]],
            other=[some(X2, 1), some(X1)], query=[QD3])])),
    'labels': dict(fn=labels, reach=['ok'], params=dict(quick=[dict()])),
}
