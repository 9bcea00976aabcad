"""DOP reduction: equivalence with an explicit all-fragments grammar."""
from fractions import Fraction
import tlib
NEEDS = ['bit']
OUTSIDE = ('Larger trees and treebanks; labels that contain "@"; the '
        'estimate bon.')


TWISTED = [
        ('S', [('X_2', [('A_2', [('P', [0]), ('P', [2])]),
            ('B_2', [('P', [1]), ('P', [4])])]), ('P', [3])]),
        ('S', [('X_2', [('A_2', [('P', [0]), ('P', [3])]),
            ('B_2', [('P', [1]), ('P', [4])])]), ('P', [2])])]


def gen(ctx, n):
    p = ctx.params
    if p.get('twisted'):
        return ctx.pick('tree', TWISTED)
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p.get('unary', 0), cont=p.get('cont', True),
            pos=(lambda: ctx.string('p', p['pos'], 1, 1))
                if 'pos' in p else lambda: 'P')
    return t


def production(t, sent):
    """(label, [child labels or word], yf)."""
    if not isinstance(t[1][0], tuple):
        return (t[0], None, sent[t[1][0]])
    yf = []
    owner = {x: n for n, a in enumerate(t[1]) for x in tlib.leaves(a)}
    for s, e in tlib.ranges(list(owner)):
        comp = []
        for x in range(s, e):
            if not comp or comp[-1] != owner[x]:
                comp.append(owner[x])
        yf.append(tuple(comp))
    return (t[0], tuple(a[0] for a in t[1]), tuple(yf))


def fragments(t, sent):
    """All fragments rooted at node: (production, subfragments or None)."""
    prod = production(t, sent)
    out = [(prod, ())]
    if prod[1] is None:
        return out
    for a in t[1]:
        sub = [None] + fragments(a, sent)
        out = [(b, c + (s, )) for b, c in out for s in sub]
    return out


def conc(ctx, x):
    """Bool of a condition that is fixed by the path."""
    return bool(x)


def sameprod(a, b):
    if (a[1] is None) != (b[1] is None) or not bool(a[0] == b[0]):
        return False
    if a[1] is None:
        return bool(a[2] == b[2])
    return (len(a[1]) == len(b[1]) and a[2] == b[2]
            and all(bool(x == y) for x, y in zip(a[1], b[1])))


def samefrag(a, b):
    if not sameprod(a[0], b[0]):
        return False
    return all((x is None) == (y is None)
            and (x is None or samefrag(x, y)) for x, y in zip(a[1], b[1]))


class Table(object):
    """Mapping with symbolic keys; compares keys pairwise."""

    def __init__(self):
        self.rows = []

    def add(self, key, n):
        for row in self.rows:
            if bool(row[0] == key):
                row[1] += n
                return
        self.rows.append([key, n])

    def get(self, key):
        for k, n in self.rows:
            if bool(k == key):
                return n
        return 0


def base(label):
    """Label without address."""
    i = label.find('@')
    return label if i == -1 else label[:i]


def weightof(frag, lhs, rules, norm):
    """Sum of weights of the derivations of fragment from a given symbol."""
    prod, sub = frag
    result = Fraction(0)
    for (r, yf), w in rules:
        if not bool(r[0] == lhs):
            continue
        if prod[1] is None:
            if r[1] == 'Epsilon' and bool(yf[0] == prod[2]):
                result += Fraction(w) / norm(lhs)
            continue
        if r[1] == 'Epsilon' or len(r) != 1 + len(prod[1]) or yf != prod[2]:
            continue
        x = Fraction(w) / norm(lhs)
        for a, b, s in zip(r[1:], prod[1], sub):
            addressed = a.find('@') != -1
            if addressed != (s is not None) or not bool(base(a) == b):
                x = 0
                break
            if s is not None:
                x *= weightof(s, a, rules, norm)
                if not x:
                    break
        result += x
    return result


def reduction(ctx):
    """The probability of each fragment under the reduction is its relative
    frequency among all fragments of the treebank with the same root."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    trees, sents, refs = [], [], []
    for n in p['sizes']:
        t = gen(ctx, n)
        refs.append(t)
        trees.append(tlib.totree(mod.Tree, t))
        sents.append([ctx.string('w', p['words'], 1, 1) for _ in range(n)])
    packed = ctx.flag('packed') if p.get('packed') is None else p['packed']
    extra = None
    if p.get('extra'):
        x = ctx.string('l', p['labels'], 1, 1)
        y = ctx.string('w', p['words'], 1, 1)
        extra = ctx.dict([(((x, 'Epsilon'), (y, )), 2)])
    rules, alt = gr.dopreduction(trees, sents, packedgraph=packed,
            extrarules=extra)
    rules = list(rules)
    # reference
    counts, totals, ntfd = [], Table(), Table()
    for t, sent in zip(refs, sents):
        for node in tlib.subtrees(t):
            frags = fragments(node, sent)
            totals.add(node[0], len(frags))
            ntfd.add(node[0], 1)
            for f in frags:
                for row in counts:
                    if samefrag(row[0], f):
                        row[1] += 1
                        break
                else:
                    counts.append([f, 1])
    if extra:
        totals.add(x, 2)
        f = ((x, None, y), ())
        for row in counts:
            if samefrag(row[0], f):
                row[1] += 2
                break
        else:
            counts.append([f, 2])
    norms = Table()
    for (r, _), w in rules:
        norms.add(r[0], w)
    for f, n in counts:
        got = weightof(f, f[0][0], rules, norms.get)
        ctx.check(got == Fraction(n, totals.get(f[0][0])),
                'probability of a fragment')
    ctx.check(len(alt['ewe']) == len(rules)
            and len(alt['shortest']) == len(rules), 'alternative weights')
    for ((r, yf), w), s, e in zip(rules, alt['shortest'], alt['ewe']):
        addressed = r[0].find('@') != -1
        ctx.check(s == (1 if addressed else 0.5), 'shortest')
        want = float(w) / norms.get(r[0])
        if not addressed:
            want /= ntfd.get(r[0]) or 1
            if not extra:
                ctx.check(norms.get(r[0]) == totals.get(r[0]),
                        'weights are counts of fragments')
        if not extra:
            ctx.check(abs(e - want) < 1e-9, 'equal weights estimate')
    for n, ((r, yf), _) in enumerate(rules):
        for (r2, yf2), _ in rules[:n]:
            ctx.check(not (len(r) == len(r2) and bool(yf == yf2)
                    and all(bool(c == d) for c, d in zip(r, r2))),
                    'each rule once')
    ctx.observe(len(rules), len(counts))
    ctx.reach('packed' if packed else 'plain')


def decorating(ctx):
    """Decorated trees equal the originals apart from addresses, which are
    unique, or shared by exactly the equal subtrees."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    packed = ctx.flag('packed')
    dec = gr.TreeDecorator(memoize=packed)
    seen = []
    for n in p['sizes']:
        t = gen(ctx, n)
        sent = [ctx.string('w', p['words'], 1, 1) for _ in range(n)]
        d = tlib.fromtree(dec.decorate(tlib.totree(mod.Tree, t), sent))
        ctx.check(tlib.same(ctx, plain(d), t), 'labels and structure')
        ctx.check(d[0].find('@') == -1, 'root has no address')
        for a, b in list(zip(tlib.subtrees(d), tlib.subtrees(t)))[1:]:
            ctx.check(a[0].find('@') != -1, 'address')
            seen.append((a[0], b, sent))
    for n, (x, a, s1) in enumerate(seen):
        for y, b, s2 in seen[:n]:
            if packed:
                same = samesub(a, b, s1, s2)
                if bool(x == y):
                    ctx.check(same and yfs(a) == yfs(b),
                            'address shared by different subtrees')
                else:
                    ctx.check(not (same and gaps(a) == gaps(b)),
                            'equal subtrees have the same address')
            else:
                ctx.check(not bool(x == y), 'unique address')
    ctx.reach('packed' if packed else 'plain')
    ctx.observe(len(seen))


def plain(t):
    if not isinstance(t, tuple):
        return t
    return (base(t[0]), [plain(a) for a in t[1]])


def yfs(t):
    if not isinstance(t, tuple):
        return ()
    return (production(t, [None] * 9)[2], [yfs(a) for a in t[1]])


def gaps(t):
    idx = tlib.leaves(t)
    return [x - idx[0] for x in idx]


def samesub(a, b, s1, s2):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return (not isinstance(a, tuple) and not isinstance(b, tuple)
                and bool(s1[a] == s2[b]))
    return (len(a[1]) == len(b[1]) and bool(a[0] == b[0])
            and all(samesub(x, y, s1, s2) for x, y in zip(a[1], b[1])))


def frequencies(ctx):
    """nodefreq counts nodes and fragments."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    n = p['n']
    t = gen(ctx, n)
    sent = ['w%d' % i for i in range(n)]
    tree = tlib.totree(mod.Tree, t)
    dec = gr.TreeDecorator().decorate(tree, sent)
    fd = gr.defaultdict(int)
    ntfd = gr.defaultdict(int)
    got = gr.nodefreq(tree, dec, fd, ntfd)
    ctx.check(got == len(fragments(t, sent)), 'number of fragments')
    tot, nts = Table(), Table()
    for a in tlib.subtrees(t):
        tot.add(a[0], len(fragments(a, sent)))
        nts.add(a[0], 1)
    for lab, k in tot.rows:
        ctx.check(fd[lab] == k, 'fragments per label')
    for lab, k in nts.rows:
        ctx.check(ntfd[lab] == k, 'nodes per label')
    for a, d in list(zip(tlib.subtrees(t), dec.subtrees()))[1:]:
        ctx.check(fd[d.label] == len(fragments(a, sent))
                and ntfd[d.label] == 1, 'addressed node')
    ctx.reach('ok')
    ctx.observe(got)


HARNESSES = {
    'reduction': dict(fn=reduction, reach=['packed', 'plain'], params=dict(
        quick=[dict(sizes=[3], labels='AB', words='ab'),
            dict(sizes=[2, 2], labels='A', words='ab', unary=1),
            dict(sizes=[3], labels='AB', words='a', cont=False, pos='PQ'),
            dict(sizes=[2, 1], labels='AB', words='a', extra=1),
            dict(sizes=[4], labels='A', words='a'),
            dict(sizes=[5, 5], words='a', twisted=1)],
        thorough=[dict(sizes=[3, 2], labels='AB', words='ab'),
            dict(sizes=[4], labels='AB', words='a', cont=False),
            dict(sizes=[2, 2, 1], labels='A', words='ab', unary=1)])),
    'decorate': dict(fn=decorating, reach=['packed', 'plain'], params=dict(
        quick=[dict(sizes=[3, 2], labels='A', words='ab', cont=False),
            dict(sizes=[5, 5], words='a', twisted=1),
            dict(sizes=[2, 2], labels='AB', words='ab'),
            dict(sizes=[2, 1], labels='A', words='a', unary=2)],
        thorough=[dict(sizes=[4, 3], labels='A', words='ab')])),
    'nodefreq': dict(fn=frequencies, reach=['ok'], params=dict(
        quick=[dict(n=3, labels='AB', pos='PA', unary=1), dict(n=4,
            labels='AB', cont=False)],
        thorough=[dict(n=5, labels='AB')])),
}
