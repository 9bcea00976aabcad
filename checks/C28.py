"""Fragment extraction: the recurring fragments of a treebank."""
import tlib
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
        'disambiguation', 'probe']
SYMBYTES = True
OUTSIDE = ('More trees and larger trees than the given shapes (except for one '
        'tree with more than 64 nodes); multiprocessing (numproc > 1); '
        'the file formats of Ctrees and Vocabulary objects; the word Epsilon; '
        'labels and words outside of ASCII.')
ASSUMPTIONS = ['RoaringBitmap behaves as a set of integers',
        'C arrays behave as lists; access out of bounds is reported']


class N:
    """Node of a reference tree."""
    def __init__(self, label, kids, leaves, word=None):
        self.label, self.kids, self.leaves, self.word = (
                label, kids, leaves, word)
        self.prod = production(self)

    def nodes(self):
        return [self] + [a for k in self.kids for a in k.nodes()]


def production(a):
    """Label, labels of children, and order of (parts of) the children."""
    if not a.kids:
        return (a.label, (), a.word, ())
    owner = {i: n for n, k in enumerate(a.kids) for i in k.leaves}
    yf, prev = [], None
    for i in sorted(owner):
        if prev is None or i != prev + 1:
            yf.append('|')
            yf.append(owner[i])
        elif owner[i] != owner[prev]:
            yf.append(owner[i])
        prev = i
    return (a.label, tuple(k.label for k in a.kids), None, tuple(yf))


def sameprod(a, b):
    x, y = a.prod, b.prod
    if len(x[1]) != len(y[1]) or x[3] != y[3]:
        return False
    if (x[2] is None) != (y[2] is None):
        return False
    return (x[0] == y[0] and all(m == n for m, n in zip(x[1], y[1]))
            and (x[2] is None or x[2] == y[2]))


def instantiate(ctx, spec):
    """Replace symbolic labels and words.

    A label or word of the form ?xyz stands for any of x, y, z."""
    tree, sent = spec
    sent = [ctx.string('w', w[1:], 1, 1) if w is not None and w[0] == '?'
            and w != '?' else w for w in sent]

    def build(t):
        label = (ctx.string('l', t[0][1:], 1, 1) if t[0][0] == '?' else t[0])
        if isinstance(t[1], int):
            return N(label, [], list(t[1:]), sent[t[1]])
        kids = [build(k) for k in t[1:]]
        return N(label, kids, sorted(i for k in kids for i in k.leaves))
    return build(tree), sent


def totree(mod, a):
    return mod.Tree(a.label, [totree(mod, k) for k in a.kids] or a.leaves)


def runs(idx):
    out = []
    for i in sorted(idx):
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def fragstring(root, inside, disc):
    """String of the fragment with root and its other expanded nodes."""
    units = {}

    def collect(a):
        if a not in inside or not a.kids:
            for x, y in (runs(a.leaves)):
                units[x] = y
        else:
            for k in a.kids:
                collect(k)
    collect(root)
    new, n, prev = {}, 0, None
    for x in sorted(units):
        if prev is not None and x != prev + 1:
            n += 1
        new[x] = n
        n += 1
        prev = units[x]

    def show(a):
        out = ['(', a.label, ' ']
        if a in inside and a.kids:
            for m, k in enumerate(a.kids):
                if m:
                    out.append(' ')
                out.append(show(k))
        elif a in inside and a.word is not None:
            if disc:
                out.append('%d=' % new[a.leaves[0]])
            out.append(a.word)
        elif disc:
            out.append(' '.join('%d=' % new[x] for x, _ in runs(a.leaves)))
        out.append(')')
        return tlib.cat(out)
    return show(root)


def common(a, b):
    """The nodes of the largest common fragment at a pair of nodes."""
    out = [a]
    for x, y in zip(a.kids, b.kids):
        if sameprod(x, y):
            out.extend(common(x, y))
    return out


def maximal(t1, t2):
    """All maximal common fragments of two trees, as lists of nodes of t1."""
    out = []

    def visit(a, b, above):
        pass
    parent1 = {k: (a, n) for a in t1.nodes() for n, k in enumerate(a.kids)}
    parent2 = {k: (a, n) for a in t2.nodes() for n, k in enumerate(a.kids)}
    for a in t1.nodes():
        for b in t2.nodes():
            if not sameprod(a, b):
                continue
            if a in parent1 and b in parent2:
                (x, m), (y, n) = parent1[a], parent2[b]
                if m == n and sameprod(x, y):
                    continue  # part of a larger common fragment
            out.append(common(a, b))
    return out


def matches(a, inside, b):
    """Whether fragment (root a, expanded nodes inside) occurs at b."""
    return sameprod(a, b) and all(matches(x, inside, y)
            for x, y in zip(a.kids, b.kids) if x in inside)


def allof(a):
    """All fragments with root a: (nodes, depth, no. of frontiers)."""
    if not a.kids:
        return [([a], 1, 0)]
    combos = [([a], 0, 0)]
    for k in a.kids:
        opts = [([], 0, 1)] + allof(k)
        combos = [(n1 + n2, max(d1, d2), f1 + f2)
                for n1, d1, f1 in combos for n2, d2, f2 in opts]
    return [(n, d + 1, f) for n, d, f in combos]


def words(nodes):
    return sum(a.word is not None for a in nodes)


def treebank(ctx, specs):
    mod = ctx.mod('tree')
    trees = [instantiate(ctx, a) for a in specs]
    return ([t for t, _ in trees],
            [(totree(mod, t), sent) for t, sent in trees])


def lookup(ctx, pairs, key):
    for a, b in pairs:
        if a == key:
            return b
    return None


def compare(ctx, got, expected, what):
    """got: list of (string, value), expected: idem; unique keys."""
    for a, v in got:
        x = lookup(ctx, expected, a)
        if x is None:
            ctx.fail('not a %s: %s' % (what, ctx.str(a)))
        ctx.check(v == x, 'value of ' + what)
    for a, _ in expected:
        if lookup(ctx, got, a) is None:
            ctx.fail('missing %s: %s' % (what, ctx.str(a)))


def tally(occurrences):
    out = []
    for s, v in occurrences:
        for x in out:
            if x[0] == s:
                x[1] = x[1] + v
                break
        else:
            out.append([s, v])
    return [tuple(x) for x in out]


def pairs(ctx, bank1, bank2, adjacent=False):
    for n, a in enumerate(bank1):
        for m, b in enumerate(bank1 if bank2 is None else bank2):
            if adjacent and m != n + 1:
                continue
            if bank2 is None and m <= n:
                continue
            yield n, a, m, b


def expectedfrags(ctx, bank1, bank2, disc, cond=None, adjacent=False,
        minwords=0):
    """The maximal fragments: (string, no. of occurrences in bank1)."""
    found = {}
    for n, a, m, b in pairs(ctx, bank1, bank2, adjacent):
        if cond is not None and not cond(a, b):
            continue
        for nodes in maximal(a, b):
            if words(nodes) >= minwords:
                found[n, frozenset(nodes)] = nodes
    return tally([(fragstring(nodes[0], nodes, disc), 1)
            for nodes in found.values()]), list(found.values())


def load(ctx, p):
    mod = ctx.mod('_fragments')
    bank1, items1 = treebank(ctx, p['trees'])
    bank2 = items2 = None
    if 'trees2' in p:
        bank2, items2 = treebank(ctx, p['trees2'])
    obj = mod.getctrees(items1, items2)
    return mod, bank1, bank2, obj


def extract(ctx):
    p = ctx.params
    mod, bank1, bank2, obj = load(ctx, p)
    disc = p['disc']
    adjacent = p.get('adjacent', False)
    got = mod.extractfragments(obj['trees1'], 0, 0, obj['vocab'],
            obj['trees2'], approx=True, disc=disc, adjacent=adjacent)
    expected, found = expectedfrags(ctx, bank1, bank2, disc,
            adjacent=adjacent)
    compare(ctx, list(got.items()), expected, 'maximal common fragment')
    if found:
        ctx.reach('common')
    if any(len(a) > 1 for a in found):
        ctx.reach('larger')
    # parts of the work
    got = []
    for n in range(len(bank1)):
        got.extend(mod.extractfragments(obj['trees1'], n, n + 1, obj['vocab'],
                obj['trees2'], approx=True, disc=disc, adjacent=adjacent
                ).items())
    compare(ctx, tally(got), expected, 'maximal common fragment in part')


def occurrences(nodes, bank, start=0, end=None):
    """Trees and nodes where a fragment occurs."""
    inside = frozenset(nodes)
    return [(m, b) for m, t in enumerate(bank) for b in t.nodes()
            if m >= start and (end is None or m < end)
            and matches(nodes[0], inside, b)]


def counts(ctx):
    """Exact counts and indices of the extracted fragments."""
    p = ctx.params
    mod, bank1, bank2, obj = load(ctx, p)
    disc = p['disc']
    frags = mod.extractfragments(obj['trees1'], 0, 0, obj['vocab'],
            obj['trees2'], approx=False, disc=disc)
    expected, found = expectedfrags(ctx, bank1, bank2, disc)
    keys = list(frags)
    compare(ctx, [(a, 0) for a in keys], [(a, 0) for a, _ in expected],
            'maximal common fragment')
    bitsets = [frags[a] for a in keys]
    strs = [(fragstring(nodes[0], nodes, disc), nodes) for nodes in found]
    found = [lookup(ctx, strs, a) for a in keys]
    hay = obj['trees1' if p.get('haystack', 1) == 1 else 'trees2']
    bank = bank1 if p.get('haystack', 1) == 1 else bank2
    maxnodes = max(obj[a].maxnodes for a in ('trees1', 'trees2') if obj[a])
    opts = {}
    if p.get('haystack', 1) == 1 and bank2 is not None:
        opts['maxnodes'] = maxnodes
    occ = [occurrences(nodes, bank) for nodes in found]
    if any(len(a) > len({m for m, _ in a}) for a in occ):
        ctx.reach('twice')
    if bank2 is None:
        ctx.check(all(len(a) > 1 for a in occ), 'all fragments recur')
    args = (bitsets, obj['trees1'], hay)
    got = mod.exactcounts(*args, **opts)
    ctx.check(list(got) == [len(a) for a in occ], 'exact counts')
    got = mod.exactcounts(*args, indices=1, **opts)
    ctx.check([list(a) for a in got] == [[m for m, _ in a] for a in occ],
            'indices of trees')
    got = mod.exactcounts(*args, indices=2, **opts)
    checknodes(ctx, mod, obj, hay, got, occ)
    start = ctx.pick('start', [None, 0, 1])
    end = ctx.pick('end', [None, 1, 2])
    if start and end and start >= end:
        return
    occ = [[(m, b) for m, b in a if m >= (start or 0)
            and (end is None or m < end)] for a in occ]
    opts.update(start=start, end=end)
    got = mod.exactcountsslice(*args, **opts)
    ctx.check(list(got) == [len(a) for a in occ], 'counts in interval')
    got = mod.exactcountsslice(*args, indices=1, **opts)
    ctx.check([list(a) for a in got] == [[m for m, _ in a] for a in occ],
            'indices in interval')
    got = mod.exactcountsslice(*args, indices=2, **opts)
    checknodes(ctx, mod, obj, hay, got, occ)
    limit = ctx.pick('maxresults', [1, 2, 3])
    opts['maxresults'] = limit
    left, want = limit, []
    for a in occ:
        want.append(a[:left])
        left -= len(want[-1])
    if left == 0:
        ctx.reach('limit')
    got = mod.exactcountsslice(*args, indices=1, **opts)
    ctx.check([list(a) for a in got] == [[m for m, _ in a] for a in want],
            'limited number of results')
    got = mod.exactcountsslice(*args, **opts)
    ctx.check(list(got) == [len(a) for a in want], 'limited count')


def checknodes(ctx, mod, obj, hay, got, occ):
    for (trees, nodes), exp in zip(got, occ):
        ctx.check(list(trees) == [m for m, _ in exp],
                'indices of trees, with nodes')
        ctx.check(len(set(zip(trees, nodes))) == len(exp),
                'every occurrence is given once')
        strs = [(m, hay.extract(m, obj['vocab'], True, n))
                for m, n in zip(trees, nodes)]
        for m, b in exp:
            want = discstring(b)
            for n, x in enumerate(strs):
                if x[0] == m and x[1] == want:
                    strs.pop(n)
                    break
            else:
                ctx.fail('no occurrence at subtree ' + ctx.str(want))


def discstring(a):
    """A complete tree with indices."""
    out = ['(', a.label]
    for k in a.kids:
        out += [' ', discstring(k)]
    if not a.kids:
        for n, x in enumerate(a.leaves):
            out += [' %d=' % x]
            if n == 0 and a.word is not None:
                out.append(a.word)
    return tlib.cat(out + [')'])


def allfrags(ctx):
    """All fragments up to a depth and number of frontiers."""
    p = ctx.params
    mod, bank, _, obj = load(ctx, p)
    depth = ctx.pick('depth', p['depths'])
    limit = ctx.pick('frontiers', p['frontiers'])
    occ = []
    for n, t in enumerate(bank):
        for a in t.nodes():
            for nodes, d, f in allof(a):
                if d <= depth and (limit is None or f <= limit):
                    occ.append((fragstring(a, nodes, p['disc']), [n]))
                elif d <= depth:
                    ctx.reach('frontiers')
                else:
                    ctx.reach('depth')
    exp = tally(occ)
    got = mod.allfragments(obj['trees1'], obj['vocab'], depth,
            *([] if limit is None else [limit]), disc=p['disc'])
    compare(ctx, list(got.items()), [(a, len(b)) for a, b in exp], 'fragment')
    got = mod.allfragments(obj['trees1'], obj['vocab'], depth,
            *([] if limit is None else [limit]), disc=p['disc'], indices=True)
    compare(ctx, [(a, sorted(b)) for a, b in got.items()], exp,
            'fragment with indices')
    got = mod.allfragments(obj['trees1'], obj['vocab'], depth,
            *([] if limit is None else [limit]), disc=p['disc'],
            start=1, end=2)
    compare(ctx, list(got.items()), [(a, b.count(1)) for a, b in exp
            if 1 in b], 'fragment in interval')
    ctx.reach('all')


def recurring(ctx):
    """Recurring fragments together with the productions."""
    p = ctx.params
    mod = ctx.mod('fragments')
    bank, items = treebank(ctx, p['trees'])
    disc, depth = p['disc'], ctx.pick('depth', p['depths'])
    indices = ctx.flag('indices')
    got = mod.recurringfragments([a for a, _ in items], [b for _, b in items],
            numproc=1, disc=disc, indices=indices, maxdepth=depth)
    expected, found = expectedfrags(ctx, bank, None, disc)
    exp = []
    for nodes in found:
        s = fragstring(nodes[0], nodes, disc)
        if lookup(ctx, exp, s) is None:
            exp.append((s, [m for m, _ in occurrences(nodes, bank)]))
    occ = []
    for n, t in enumerate(bank):
        for a in t.nodes():
            for nodes, d, f in allof(a):
                if d <= depth:
                    occ.append((fragstring(a, nodes, disc), [n]))
    cover = [(a, b) for a, b in tally(occ) if lookup(ctx, exp, a) is None]
    if cover:
        ctx.reach('cover')
    if exp:
        ctx.reach('recurring')
    compare(ctx, [(a, list(b) if indices else b) for a, b in got.items()],
            [(a, b if indices else len(b)) for a, b in exp + cover],
            'recurring fragment or production')


def complete(ctx):
    """Whole trees as queries."""
    p = ctx.params
    mod, bank1, bank2, obj = load(ctx, p)
    t1, t2 = obj['trees1'], obj['trees2']
    maxnodes = max(t1.maxnodes, t2.maxnodes)
    strs, bitsets = mod.completebitsets(t1, obj['vocab'], maxnodes,
            p['disc'])
    queries = []
    for t in bank1:
        nodes = [a for a in t.nodes() if a.kids or a.word is not None]
        queries.append(nodes)
    ctx.check(len(strs) == len(queries), 'number of queries')
    for s, nodes in zip(strs, queries):
        ctx.check(s == fragstring(nodes[0], nodes, p['disc']),
                'complete tree')
    occ = [occurrences(nodes, bank2) for nodes in queries]
    if any(occ):
        ctx.reach('found')
    if not all(occ):
        ctx.reach('not found')
    for fun in (mod.exactcounts, mod.exactcountsslice):
        got = fun(bitsets, t1, t2, maxnodes=maxnodes)
        ctx.check(list(got) == [len(a) for a in occ],
                'number of occurrences of tree')
        got = fun(bitsets, t1, t2, indices=1, maxnodes=maxnodes)
        ctx.check([list(a) for a in got] == [[m for m, _ in a] for a in occ],
                'occurrences of tree')


def twoterms(ctx):
    """Fragments with two words, one of which has a given part of speech."""
    p = ctx.params
    mod, bank1, bank2, obj = load(ctx, p)
    disc = p['disc']
    opts = {}
    if bank2 is not None and ctx.flag('slice'):
        opts = dict(start2=1, end2=2)
    got = mod.extractfragments(obj['trees1'], 0, 0, obj['vocab'],
            obj['trees2'], disc=disc, twoterms=p['regex'], **opts)
    found = {}
    for n, a, m, b in pairs(ctx, bank1, bank2):
        if opts and m != 1:
            continue
        for nodes in maximal(a, b):
            if words(nodes) > 1 and any(x.word is not None
                    and x.label == p['tag'] for x in nodes):
                found[n, frozenset(nodes)] = nodes
            elif words(nodes) > 1:
                ctx.reach('function words')
    if found:
        ctx.reach('two words')
    exp = tally([(fragstring(a[0], a, disc), 1) for a in found.values()])
    compare(ctx, list(got.items()), exp, 'fragment with two words')


def reader(ctx):
    """Reading bracketed trees binarizes as documented."""
    p = ctx.params
    tree, mod = ctx.mod('tree'), ctx.mod('_fragments')
    bank, items = treebank(ctx, p['trees'])
    lines = [plainstring(t, p.get('space', '')) + '\n' for t in bank]
    path = ctx.file('corpus.mrg', tlib.cat(lines))
    vocab = ctx.mod('containers').Vocabulary()
    got = mod.readtreebank(path, vocab)
    binarize = ctx.mod('treetransforms').binarize
    obj = mod.getctrees([(binarize(t, dot=True), sent) for t, sent in items])
    ref = obj['trees1']
    ctx.check(len(got) == len(ref), 'number of trees')
    for n in range(len(ref)):
        a, b = got.extract(n, vocab), ref.extract(n, obj['vocab'])
        ctx.check(a == b, 'tree that was read')
        ctx.check(got.extractsent(n, vocab) == ref.extractsent(n,
                obj['vocab']), 'sentence')
    got.indextrees(vocab)
    a = mod.extractfragments(got, 0, 0, vocab)
    b = mod.extractfragments(ref, 0, 0, obj['vocab'])
    compare(ctx, list(a.items()), list(b.items()),
            'fragment of the trees that were read')
    ctx.reach('read')


class Out:
    def __init__(self):
        self.parts = []

    def write(self, a):
        self.parts.append(a)


def program(ctx):
    """The command line tool with one or two treebanks."""
    p = ctx.params
    mod = ctx.mod('fragments')
    ctx.mod('tree')
    flags = dict(approx=False, indices=False, nofreq=False, complete=False,
            alt=False, relfreq=False, adjacent=False, debin=False,
            debug=False, quiet=True, disc=False, fmt='bracket', cover=None,
            twoterms=None)
    mode = ctx.pick('mode', p['modes'])
    if mode == 'cover':
        flags['cover'] = (2, 1)
    elif mode == 'nofreq':
        flags.update(nofreq=True, cover=(1, 999))
    elif mode != 'plain':
        flags[mode] = True
    mod.PARAMS.clear()
    mod.PARAMS.update(flags)
    banks, files = [], []
    for n, specs in enumerate(p['files']):
        bank = [instantiate(ctx, a)[0] for a in specs]
        # a tree with many nodes
        lines = [plainstring(t, '') for t in bank]
        if n == p.get('large'):
            lines.append('(Q%s)' % (' (R r)' * 40))
        banks.append(bank)
        files.append(ctx.file('bank%d.mrg' % n, tlib.cat(
                [x for a in lines for x in (a, '\n')])))
    keys, counts = mod.regular(files, 1, None, 'utf8')
    out = Out()
    mod.printfragments(keys, counts, out=out)
    got = []
    text = tlib.cat(out.parts) if out.parts else ''
    for line in text.splitlines():
        x = line.split('\t')
        got.append((x[0], x[1] if len(x) > 1 else ''))
    bank1, bank2 = banks[0], banks[1] if len(banks) > 1 else None
    if mode == 'complete':
        exp = tally([(fragstring(a, a.nodes(), False),
                [m for m, _ in occurrences(a.nodes(), bank2)])
                for a in bank1])
        exp = [(a, b) for a, b in exp if b]
    else:
        approx, found = expectedfrags(ctx, bank1, bank2, False)
        exp = []
        for nodes in found:
            s = fragstring(nodes[0], nodes, False)
            if lookup(ctx, exp, s) is None:
                exp.append((s, [m for m, _ in occurrences(nodes, bank1)]))
        if flags['cover']:
            cover = []
            for n, t in enumerate(bank1):
                for a in t.nodes():
                    for nodes, d, f in allof(a):
                        if d <= flags['cover'][0] and f <= flags['cover'][1]:
                            cover.append((fragstring(a, nodes, False), [n]))
            exp += [(a, b) for a, b in tally(cover)
                    if lookup(ctx, exp, a) is None]
    if mode == 'approx':
        exp = [(a, '%d' % b) for a, b in approx]
    elif mode == 'nofreq':
        exp = [(a, '') for a, b in exp]
    elif mode == 'indices':
        exp = [(a, repr(b)) for a, b in exp]
    elif mode == 'relfreq':
        total = tally([(a[1:a.index(' ')], len(b)) for a, b in exp])
        exp = [(a, '%d/%d' % (len(b), lookup(ctx, total,
                a[1:a.index(' ')]))) for a, b in exp]
    else:
        exp = [(a, '%d' % len(b)) for a, b in exp]
    compare(ctx, got, exp, 'line of output')
    if len(exp) > 1:
        ctx.reach('output')


def options(ctx):
    """The command line interface, with its options and batch mode."""
    p = ctx.params
    mod = ctx.mod('fragments')
    ctx.mod('tree')
    argv, mode = ['--quiet'], ctx.pick('mode', p['modes'])
    out = ctx.file('out', '')
    banks, files = [], []
    for n, specs in enumerate(p['files']):
        bank = [instantiate(ctx, a)[0] for a in specs]
        banks.append(bank)
        name = 'bank%d' % n
        if p.get('disc'):
            lines = [discstring(t) for t in bank]
        else:
            lines = [plainstring(t, '') for t in bank]
        files.append(ctx.file(name, tlib.cat(
                [x for a in lines for x in (a, '\n')])))
    if p.get('disc'):
        argv.append('--fmt=discbracket')
    cover = limit = None
    for opt in mode.split():
        if opt.startswith('cover'):
            argv.append('--' + opt)
            a = opt[6:].split(',')
            cover = int(a[0]), int(a[1]) if len(a) > 1 else 999
        elif opt.startswith('numtrees'):
            argv.append('--' + opt)
            limit = int(opt[9:])
        else:
            argv.append('--' + opt)
    if p.get('batch'):
        folder = out[:out.rindex('/')]
        argv.append('--batch=' + folder)
        names = [folder + '/bank0_' + a[a.rindex('/') + 1:]
                for a in files[1:]]
    else:
        argv += ['-o', out]
        names = [out]
    mod.PARAMS.clear()
    mod.main(argv + files)
    one = banks[0][:limit]
    for n, name in enumerate(names):
        got = []
        for line in ctx.filetext(name).splitlines():
            x = line.split('\t')
            got.append((x[0], x[1] if len(x) > 1 else ''))
        bank2 = banks[n + 1][:limit] if len(banks) > 1 else None
        hay = bank2 if p.get('batch') else one
        disc = bool(p.get('disc'))
        if 'complete' in mode:
            exp = tally([(fragstring(a, a.nodes(), disc),
                    [m for m, _ in occurrences(a.nodes(), bank2)])
                    for a in one])
            exp = [(a, b) for a, b in exp if b]
        else:
            approx, found = expectedfrags(ctx, one, bank2, disc,
                    adjacent='adjacent' in mode)
            exp = []
            for nodes in found:
                s = fragstring(nodes[0], nodes, disc)
                if lookup(ctx, exp, s) is None:
                    exp.append((s, [m for m, _ in occurrences(nodes, hay)]))
        if cover is not None:
            extra = []
            for m, t in enumerate(one):
                for a in t.nodes():
                    for nodes, d, f in allof(a):
                        if d <= cover[0] and f <= cover[1]:
                            extra.append((fragstring(a, nodes, disc), [m]))
            exp += [(a, b) for a, b in tally(extra)
                    if lookup(ctx, exp, a) is None]
        if 'approx' in mode:
            exp = [(a, '%d' % b) for a, b in approx]
        elif 'nofreq' in mode:
            exp = [(a, '') for a, b in exp]
        elif 'indices' in mode:
            exp = [(a, repr(b)) for a, b in exp]
        else:
            exp = [(a, '%d' % len(b)) for a, b in exp]
        compare(ctx, got, exp, 'line of output')
        if len(exp) > 1:
            ctx.reach('output')


def division(ctx):
    """Work is divided into consecutive intervals that cover all trees."""
    p = ctx.params
    mod = ctx.mod('fragments')
    n = ctx.choice('numtrees', p['trees'] + 1)
    numproc = 1 + ctx.choice('numproc', p['numproc'])
    mult = 1 + ctx.choice('mult', 2)
    got = mod.workload(n, mult, numproc)
    ctx.check([a for a, _ in got] + [n] == [0] + [b for _, b in got]
            or not n and all(a == b for a, b in got), 'consecutive intervals')
    ctx.check(n == 0 or all(a < b for a, b in got), 'work in each interval')
    comparisons = [sum(n - x - 1 for x in range(a, b)) for a, b in got]
    total = n * (n - 1) / 2
    ctx.check(sum(comparisons) == total, 'each pair is compared')
    ctx.check(len(got) <= mult * numproc + 1, 'number of intervals')
    if numproc > 1 and n:
        # each is at most one tree larger than its share
        ctx.check(max(comparisons) <= total / (mult * numproc) + 1 + n,
                'balanced')
    ctx.reach('several' if len(got) > 1 else 'one')
    ctx.observe(len(got))


def alternative(ctx):
    """The alternative notation and debinarization of fragments."""
    p = ctx.params
    mod = ctx.mod('fragments')
    t = instantiate(ctx, p['tree'])[0]
    frags = allof(t)
    nodes, _, _ = frags[ctx.choice('frag', len(frags))]

    def show(a):
        if a not in nodes:
            return a.label
        if not a.kids:
            word = []
            for c in a.word:
                word.append("''" if c == '"' else c)
            return tlib.cat(['(', a.label, ' "'] + word + ['")'])
        return tlib.cat(['(', a.label] + [x for k in a.kids
                for x in (' ', show(k))] + [')'])

    def binarized(a, inside):
        out = ['(', a.label, ' ']
        if a in inside and not a.kids:
            out.append(a.word)
        elif a in inside:
            out.append(binarized(a.kids[0], inside))
            rest = a.kids[1:]
            end = 0
            while len(rest) > 1:
                out += [' (', a.label, '|<', ','.join('B' for _ in rest),
                        '> ', binarized(rest[0], inside)]
                end += 1
                rest = rest[1:]
            for k in rest:
                out += [' ', binarized(k, inside)]
            out.append(')' * end)
        return tlib.cat(out + [')'])
    ctx.check(mod.altrepr(fragstring(t, nodes, False)) == show(t),
            'alternative notation')
    mod.PARAMS.clear()
    mod.PARAMS.update(disc=False)
    got = mod.debinarize([binarized(t, nodes)])
    ctx.check(len(got) == 1, 'number of fragments')
    ctx.check(got[0] == fragstring(t, nodes, False), 'debinarized')
    ctx.reach('done')
    ctx.observe(len(nodes))


def plainstring(a, space):
    if a.kids:
        return tlib.cat(['(', space, a.label, ' '] + [
                x for n, k in enumerate(a.kids) for x in (
                    ([' '] if n else []) + [plainstring(k, space)])]
                + [space, ')'])
    return tlib.cat(['(', space, a.label, ' ',
            '' if a.word is None else a.word, space, ')'])


T1 = [['S', ['?ABCD', ['?ABCD', 0], ['C', 1]], ['B', 2]], ['?xyz', 'x', 'z']]
T2 = [['S', ['A', ['?ABCD', 0], ['C', 1]], ['?ABCD', 2]], ['x', '?xyz', 'z']]
U1 = [['S', ['A', ['?ABCD', ['B', 0]]], ['B', ['A', 1]]], ['x', '?xyz']]
U2 = [['S', ['A', ['B', ['?ABCD', 0]]], ['B', ['A', 1]]], ['?xyz', 'y']]
D1 = [['S', ['A', ['B', 0], ['?ABCD', 2]], ['C', 1]], ['x', '?xyz', 'x']]
D2 = [['S', ['?ABCD', ['B', 0], ['C', 2]], ['C', 1]], ['?xyz', 'y', 'x']]
D3 = [['S', ['A', ['B', 0], ['?ABCD', 3]], ['C', ['?ABCD', 1], ['B', 2]]],
        ['x', 'y', '?xyz', 'x']]
D4 = [['S', ['A', ['B', 0], ['C', 3]], ['?ABCD', ['A', 1], ['?ABCD', 2]]],
        ['x', 'y', 'x', '?xyz']]
F1 = [['?ST', ['A', ['?ABCD', 0], ['C', 1]], ['B', 2]], [None, '?xyz', None]]
F2 = [['S', ['A', 0], ['?ABCD', 1]], [None, '?xyz']]
FD = [['S', ['A', ['B', 0], ['?ABCD', 2]], ['C', 1]], ['x', '?xyz', None]]
FE = [['A', ['B', 0], ['?ABCD', 2]], ['x', None, None]]


def some(spec, *keep):
    """Make all symbolic labels and words concrete except for some."""
    count = [0]

    def conv(a):
        if isinstance(a, str) and a[0] == '?':
            count[0] += 1
            return a if count[0] in keep else a[1]
        return [conv(b) for b in a] if isinstance(a, list) else a
    return conv(spec)


W1 = [['S', ['A', ['B', 0], ['C', 1]], ['?ABCD', ['?ABCD', 2], ['B', 3]]],
        ['x', 'y', '?xyz', 'z']]
W2 = [['S', ['A', ['B', 0], ['C', 1]], ['A', ['?ABCD', 2], ['B', 3]]],
        ['x', '?xyz', 'z', 'z']]
# indices of several digits
def right(labels, words, spec, sent):
    """Add nodes to the left of a tree."""
    for n, a in enumerate(reversed(labels), 1):
        spec = ['S', [a, len(words) - n], spec]
    return [spec, [*words, *sent]]


L1 = right('ABCABCAB', 'abcdefgh', ['S', ['C', ['A', ['B', 8], ['?ABCD', 11]],
        ['B', ['B', 9], ['B', 10]]], ['?ABCD', ['B', 12], ['A', 13]]],
        ['x', 'y', 'y', 'x', '?xyz', 'z'])
L2 = right('ABCABCAB', 'abcdefgh', ['S', ['C', ['A', ['B', 8], ['B', 11]],
        ['B', ['A', 9], ['B', 10]]], ['C', ['B', 12], ['A', 13]]],
        ['x', 'y', 'y', '?xyz', 'z', 'z'])
T1C = some(T1)
U1C = some(U1)
HARNESSES = {
    'extract': dict(fn=extract, reach=['common', 'larger'], params=dict(
        quick=[
            dict(disc=False, trees=[some(T1, 1, 3), some(T2, 1, 3)]),
            dict(disc=True, trees=[U1, some(U2, 1)]),
            dict(disc=True, trees=[D1, D2]),
            dict(disc=True, trees=[some(D3, 1, 2)], trees2=[some(D4, 1, 3)]),
            dict(disc=False, trees=[some(T1, 1)], trees2=[some(T2, 2), U1]),
            dict(disc=False, trees=[some(U1, 1), U2, some(U2, 2)],
                adjacent=True),
            dict(disc=True, trees=[some(L1, 2), some(L2, 1)]),
            ], thorough=[
            dict(disc=True, trees=[some(L1, 1, 3), L2]),
            dict(disc=False, trees=[T1, T2]),
            dict(disc=True, trees=[some(T1, 1, 3), T2, some(U1, 1)]),
            dict(disc=True, trees=[D1, D2, some(D4, 1)]),
            dict(disc=True, trees=[D3, some(D4, 1, 3), some(D3, 2)]),
            dict(disc=True, trees=[D1, some(T1, 1), some(T2, 2), D2],
                adjacent=True),
            ])),
    'counts': dict(fn=counts, reach=['twice', 'limit'], params=dict(
        quick=[
            dict(disc=False, trees=[some(U1, 1), some(U2, 2)]),
            dict(disc=True, trees=[D1, some(D2, 1)]),
            dict(disc=True, trees=[some(U1, 1)], trees2=[some(U2, 1, 2)],
                haystack=2),
            ], thorough=[
            dict(disc=False, trees=[U1, U2]),
            dict(disc=True, trees=[D1, D2]),
            dict(disc=True, trees=[some(D3, 1, 3), some(D4, 1, 3)]),
            dict(disc=True, trees=[D1], trees2=[D2, some(D4, 1)]),
            dict(disc=True, trees=[D1], trees2=[D2, some(D4, 1)], haystack=2),
            ])),
    'all': dict(fn=allfrags, reach=['all', 'depth', 'frontiers'], params=dict(
        quick=[
            dict(disc=False, trees=[some(U1, 1), some(U2, 2)],
                depths=[1, 2, 3], frontiers=[None, 0, 1]),
            dict(disc=True, trees=[some(D1, 1), some(D2, 2)],
                depths=[1, 2, 3], frontiers=[None, 0, 1, 2]),
            ], thorough=[
            dict(disc=False, trees=[U1, U2], depths=[1, 2, 3],
                frontiers=[None, 0, 1]),
            dict(disc=True, trees=[D1, D2], depths=[1, 2, 3],
                frontiers=[None, 0, 1, 2]),
            dict(disc=True, trees=[some(T1, 1, 3), some(T2, 1)],
                depths=[1, 2, 3], frontiers=[None, 0, 1, 2, 3]),
            dict(disc=True, trees=[some(D3, 1, 3), some(D4, 1)],
                depths=[2, 3], frontiers=[None, 0, 1, 2, 3]),
            ])),
    'recurring': dict(fn=recurring, reach=['cover', 'recurring'],
        params=dict(quick=[
            dict(disc=False, trees=[some(U1, 1), some(U2, 2)],
                depths=[0, 1, 2]),
            dict(disc=True, trees=[some(D1, 1), D2], depths=[0, 1]),
            ], thorough=[
            dict(disc=False, trees=[U1, U2], depths=[0, 1, 2]),
            dict(disc=False, trees=[some(T1, 1, 3), T2, some(U1, 1)],
                depths=[0, 1]),
            dict(disc=True, trees=[some(D3, 1, 3), some(D4, 1, 3)],
                depths=[0, 1, 2]),
            ])),
    'program': dict(fn=program, reach=['output'], params=dict(quick=[
            dict(modes=['plain', 'approx', 'indices', 'nofreq', 'cover',
                'relfreq'], files=[[some(U1, 1), some(U2, 2)]]),
            dict(modes=['plain', 'complete', 'indices'], files=[
                [some(U1, 1), T1C], [some(U2, 2), U1C]]),
            dict(modes=['plain'], files=[[some(U1, 1), U1C],
                [some(U2, 2)]], large=1),
            ], thorough=[
            dict(modes=['plain', 'approx', 'indices', 'nofreq', 'cover',
                'relfreq'], files=[[some(T1, 1, 3), T2, some(U1, 1)]]),
            dict(modes=['plain', 'complete', 'indices', 'relfreq'], files=[
                [U1, some(T1, 1)], [U2, some(T1, 2)]]),
            ])),
    'options': dict(fn=options, reach=['output'], params=dict(quick=[
            dict(modes=['indices', 'cover=2,1', 'cover=1', 'numtrees=2',
                'adjacent', 'nofreq cover=1'],
                files=[[some(U1, 1), U1C, some(U2, 2)]]),
            dict(disc=True, modes=['indices', 'approx'],
                files=[[some(D1, 1), some(D2, 2)]]),
            dict(batch=True, modes=['indices', 'nofreq', 'approx',
                'complete', 'numtrees=1'], files=[[some(U1, 1), T1C],
                    [some(U2, 2), U1C], [some(T2, 1)]]),
            ])),
    'division': dict(fn=division, reach=['several', 'one'], params=dict(
        quick=[dict(trees=16, numproc=6)],
        thorough=[dict(trees=40, numproc=16)])),
    'alternative': dict(fn=alternative, reach=['done'], params=dict(
        quick=[dict(tree=[['?ST', ['A', ['?AB', 0], ['C', 1], ['B', 3]],
            ['B', 2]], ['?x"', '?y"', 'z', 'a"']]),
            dict(tree=[['S', ['?AB', 0], ['C', 1], ['B', 2], ['A', 3]],
            ['x', '?y"', 'z', 'a"']])])),
    'complete': dict(fn=complete, reach=['found', 'not found'],
        params=dict(quick=[
            dict(disc=False, trees=[some(F1, 2, 3), some(F2, 1)],
                trees2=[some(T1, 2), some(T2, 3)]),
            dict(disc=True, trees=[FD, FE], trees2=[some(D1, 1), D2]),
            ], thorough=[
            dict(disc=False, trees=[F1, F2],
                trees2=[some(T1, 1, 3), some(T2, 1)]),
            dict(disc=True, trees=[some(F1, 2), F2, FD, FE],
                trees2=[some(T1, 1), D1, some(D2, 1)]),
            ])),
    'twoterms': dict(fn=twoterms, reach=['two words'],
        params=dict(quick=[
            dict(disc=False, regex='^A$', tag='A',
                trees=[some(U1, 1, 2), some(U2, 1)]),
            dict(disc=False, regex='^A$', tag='A', trees=[some(T1, 2, 3)],
                trees2=[some(T2, 1), some(T1, 2)]),
            dict(disc=True, regex='^C$', tag='C', trees=[W1, some(W2, 1)]),
            dict(disc=True, regex='^C$', tag='C', trees=[D1, D2]),
            ], thorough=[
            dict(disc=False, regex='^A$', tag='A', trees=[W1, W2]),
            dict(disc=True, regex='^C$', tag='C',
                trees=[some(D3, 1, 3), some(D4, 1, 3)]),
            dict(disc=False, regex='^A$', tag='A',
                trees=[some(T1, 1, 3), T2, some(U1, 1)]),
            ])),
    'reader': dict(fn=reader, reach=['read'], params=dict(quick=[
            dict(trees=[
                [['S', ['A', 0], ['?ABCD', 1], ['B', ['B', 2]],
                    ['C', 3]], ['x', 'y', '?xyz', 'z']],
                [['S', ['A', ['B', 0], ['?ABCD', 1], ['A', 2]], ['B', 3]],
                    ['x', 'y', 'x', 'z']]]),
            dict(space=' ', trees=[
                [['S', ['A', 0], ['?ABCD', 1], ['A', ['?ABCD', 2], ['B', 3],
                    ['C', 4]]], ['x', None, '?xyz', None, 'z']]]),
            ], thorough=[
            dict(trees=[
                [['S', ['A', 0], ['?ABCD', 1], ['?ABCD', 2], ['?ABCD', 3],
                    ['B', 4]], ['x', 'y', '?xyz', 'z', None]],
                [['S', ['?ABCD', ['B', 0], ['C', 1], ['A', 2]], ['B', 3]],
                    ['?xyz', 'y', 'x', 'z']]]),
            ])),
}
