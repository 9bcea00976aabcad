"""Disambiguation: from derivations to parse trees."""
import re
import itertools
import numpy as np
import tlib
from plib import Gram, Costs, eq, le
import C25
import C26
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
        'disambiguation', 'probe']
OUTSIDE = ('Larger grammars and sentences; fewer derivations than there are '
        '(the list of k-best derivations is covered by C27); osTAG; '
        'floating-point rounding of probabilities (exact reals, except for '
        'the number of fragments); the C++ containers, which are modelled.')
ASSUMPTIONS = ['C++ containers behave as documented', 'probabilities are '
        'positive']
IDS = re.compile('@[-0-9]+')


def probabilities(ctx, p, n):
    """Symbolic probabilities for the rules in p['symbolic'], others fixed."""
    return [ctx.prob('p', 0.0625) if m in p.get('symbolic', ())
            else (2 + (5 * m + p.get('offset', 0)) % 13) / 16.
            for m in range(n)]


def getrules(ctx, p):
    rules = [tuple(r) for r in p['rules']]
    for r in p.get('maybe', ()):
        if ctx.flag('rule'):
            rules.append(tuple(r))
    if isinstance(rules[0][0], (tuple, list)):
        rules = [(tuple(r), tuple(map(tuple, yf))) for r, yf in rules]
        bare = [r for r, _ in rules]
    else:
        bare = rules
    lexicon = [tuple(a) for a in p['lexicon']]
    seen = [r[0] for r in bare] + [a for a, _ in lexicon]
    for r in bare:
        for a in r[1:]:
            ctx.assume(a in seen)
    return rules, lexicon


def mass(ps):
    total = ps[0]
    for p in ps[1:]:
        total = total + p
    return total


def product(ps):
    total = ps[0]
    for p in ps[1:]:
        total = total * p
    return total


# -- DOP reduction ---------------------------------------------------------
def node(a, pos, children):
    return (a, tuple(pos), tuple(children))


def enumerate_(edges, x, gr):
    """All derivations as trees (label, positions, children) with their
    rules; there are no unary cycles."""
    out = []
    for kind, m, a, b in edges[x]:
        if kind == 'lex':
            out.append((node(x[0], x[1], ()), (len(gr.rules) + m, )))
            continue
        for t, c in enumerate_(edges, a, gr):
            if b is None:
                out.append((node(x[0], x[1], (t, )), (m, ) + c))
                continue
            for u, d in enumerate_(edges, b, gr):
                out.append((node(x[0], x[1], (t, u)), (m, ) + c + d))
    return out


def derivstr(t):
    if not t[2]:
        return '(%s %d)' % (t[0], t[1][0])
    return '(%s %s)' % (t[0], ' '.join(derivstr(a) for a in t[2]))


def nodes(t):
    return [t] + [b for a in t[2] for b in nodes(a)]


def length(t):
    """Number of fragments: nodes that are not interior nodes."""
    return sum('@' not in a[0] for a in nodes(t))


def ranges(pos):
    out = []
    for a in pos:
        if not out or a != out[-1] + 1:
            out.append(a)
        else:
            out[-1] = a
    return len(C26.runs(sorted(pos)))


def renumber(frag, sent):
    """Fragment in discbracket format; frag is (label, children) with as
    leaves (label, positions, word or None)."""
    ends = []

    def rec(a):
        if len(a) == 3:
            ends.append(a)
        else:
            for b in a[1]:
                rec(b)
    rec(frag)
    owner = {}
    for n, a in enumerate(ends):
        for x in a[1]:
            owner[x] = n
    idx, prev, num = -1, None, {}
    for x in sorted(owner):
        if prev is None or prev + 1 != x or owner[prev] != owner[x]:
            idx += 1 if prev is None or prev + 1 == x else 2
            num.setdefault(owner[x], []).append(idx)
        prev = x
    count = [0]

    def write(a):
        if len(a) == 3:
            n = count[0]
            count[0] += 1
            if a[2] is not None:
                return '(%s %d=%s)' % (a[0], num[n][0], a[2])
            return '(%s %s)' % (a[0], ' '.join('%d=' % x for x in num[n]))
        return '(%s %s)' % (a[0], ' '.join(write(b) for b in a[1]))
    return write(frag)


def redfragments(t, sent):
    """Fragments in a derivation of a DOP reduction, in pre-order."""
    def cut(a):
        kids = []
        for b in a[2]:
            if '@' not in b[0]:
                kids.append((b[0], b[1], None))
            elif b[2]:
                kids.append(cut(b))
            else:
                kids.append((IDS.sub('', b[0]), b[1], sent[b[1][0]]))
        if not kids:
            return (IDS.sub('', a[0]), a[1], sent[a[1][0]])
        return (IDS.sub('', a[0]), kids)
    return [renumber(cut(a), sent) for a in nodes(t) if '@' not in a[0]]


class Case(object):
    """A sentence with a chart and the reference set of derivations. Each of
    these: tree, segmentation, probability, number of fragments, fragments"""


def reduction(ctx):
    p = ctx.params
    c = Case()
    rules, lexicon = getrules(ctx, p)
    n = len(rules) + len(lexicon)
    prob = probabilities(ctx, p, n)
    bare = [r[0] if isinstance(r[0], tuple) else r for r in rules]
    short = [1 if '@' in a else .5 for a in [r[0] for r in bare] + [
            a for a, _ in lexicon]]
    gr = Gram(ctx, rules, lexicon, fixed=[ctx.neglog(a) for a in prob],
            more={'shortest': short})
    c.gr, c.sent = gr, C25.sentence(ctx, p)
    g = gr.grammar
    g.getmapping(None, striplabelre=re.compile(r'@[-0-9]+\b'))
    g.getrulemapping(g, re.compile(r'@[-0-9]+\b'))
    edges = C26.closure(gr, c.sent)
    c.root = ('S', tuple(range(len(c.sent))))
    c.derivs = []
    if c.root in edges:
        for t, used in enumerate_(edges, c.root, gr):
            s = derivstr(t)
            c.derivs.append((IDS.sub('', s), IDS.sub('@1', s),
                    product([prob[m] for m in used]), length(t),
                    redfragments(t, c.sent)))
    return c


# -- Double-DOP ------------------------------------------------------------
def parsefrag(s):
    """Fragment as (label, children), leaves are (label, [indices], word)."""
    tokens = re.findall(r'\(|\)|[^\s()]+', s)
    pos = [0]

    def rec():
        pos[0] += 1
        label = tokens[pos[0]]
        pos[0] += 1
        kids, idx, word = [], [], None
        while tokens[pos[0]] != ')':
            if tokens[pos[0]] == '(':
                kids.append(rec())
            else:
                i, w = tokens[pos[0]].split('=')
                idx.append(int(i))
                word = w or word
                pos[0] += 1
        pos[0] += 1
        return (label, kids) if kids else (label, idx, word)
    return rec()


def frontier(f):
    return [f] if len(f) == 3 else [b for a in f[1] for b in frontier(a)]


def cover(f, choice):
    """Positions covered when frontier nodes cover given positions, or None
    if these do not fit."""
    where = {}
    for n, a in enumerate(frontier(f)):
        for m, x in enumerate(a[1]):
            where[x] = (n, m)
    parts = [C26.runs(pos) for pos in choice]
    for a, r in zip(frontier(f), parts):
        if len(a[1]) != len(r):
            return None
    prev = end = None
    for x in sorted(where):
        n, m = where[x]
        a, b = parts[n][m]
        if prev is not None:
            if x == prev + 1 and a != end or x != prev + 1 and a <= end:
                return None
        prev, end = x, b
    return tuple(sorted(x for pos in choice for x in pos))


def tsgderivations(frags, prob, sent):
    """All derivations of all items: {(label, pos): [deriv, ...]}."""
    items = {}
    for n, f in enumerate(frags):
        if len(f) == 3:
            for i, w in enumerate(sent):
                if w == f[2]:
                    items.setdefault((f[0], (i, )), {})[n, ()] = ()
    new = True
    while new:
        new = False
        for n, f in enumerate(frags):
            if len(f) == 3:
                continue
            cands = []
            for a in frontier(f):
                if a[2] is not None:
                    cands.append([(a[0], (i, ), True) for i, w in
                            enumerate(sent) if w == a[2]])
                else:
                    cands.append([x + (False, ) for x in items
                            if x[0] == a[0]])
            for choice in itertools.product(*cands):
                used = [x for a in choice for x in a[1]]
                if len(set(used)) != len(used):
                    continue
                pos = cover(f, [a[1] for a in choice])
                if pos is None:
                    continue
                edge = items.setdefault((f[0], pos), {})
                if (n, choice) not in edge:
                    edge[n, choice] = None
                    new = True

    def tree(f, choice, subs):
        if len(f) == 3:
            a, s = choice.pop(0), subs.pop(0)
            return s if s is not None else '(%s %d)' % (f[0], a[1][0])
        return '(%s %s)' % (f[0], ' '.join(tree(a, choice, subs)
                for a in f[1]))

    def derivs(x):
        out = []
        for n, choice in items.get(x, ()):
            f = frags[n]
            if len(f) == 3:
                out.append(('(%s %d)' % (f[0], x[1][0]), [n], [None]))
                continue
            lists = [[None] if a[2] else derivs(a[:2]) for a in choice]
            for subs in itertools.product(*lists):
                out.append((tree(f, list(choice),
                        [b and b[0] for b in subs]),
                        [n] + [m for b in subs if b for m in b[1]], None))
        return out
    return derivs


def doubledop(ctx):
    p = ctx.params
    c = Case()
    texts = list(p['frags'])
    for a in p.get('maybe', ()):
        if ctx.flag('frag'):
            texts.append(a)
    c.frags = [parsefrag(a) for a in texts]
    roots = [a[0] for a in c.frags]
    for f in c.frags:
        for a in frontier(f):
            ctx.assume(a[2] is not None or a[0] in roots)
    prob = probabilities(ctx, p, len(texts))
    gram = ctx.mod('grammar')
    tuples, back, alt = gram.compiletsg({a: 10 + n
            for n, a in enumerate(texts)})
    # NB: weights identify the fragment
    ids = [None if w < 10 else w - 10 for _, w in tuples]
    n = sum(r[1] != 'Epsilon' for (r, _), _ in tuples)
    words, order = [], list(range(n))
    for (r, yf), _ in tuples[n:]:
        if yf[0] not in words:
            words.append(yf[0])
    for w in words:
        order.extend(m for m in range(n, len(tuples))
                if tuples[m][0][1][0] == w)
    probs = [1 if ids[m] is None else prob[ids[m]] for m in order]
    g = ctx.mod('containers').Grammar(tuples, start='S', backtransform=back,
            altweights={'costs': Costs(ctx, [ctx.neglog(a) for a in probs]),
                'shortest': np.array([1 if ids[m] is None else 0.5
                    for m in order], dtype=float)})
    g.switch('costs', True)
    g.getmapping(None, neverblockre=re.compile('.+}<'))
    c.gr = Case()
    c.gr.grammar = g
    c.sent = C25.sentence(ctx, p)
    derivs = tsgderivations(c.frags, prob, c.sent)
    c.derivs = []
    for t, used, _ in derivs(('S', tuple(range(len(c.sent))))):
        c.derivs.append((t, (t, tuple(used)), product([prob[m] for m in used]),
                len(used), [texts[m] for m in used]))
    return c


# -- objectives --------------------------------------------------------------
def bytree(c):
    trees = {}
    for d in c.derivs:
        trees.setdefault(d[0], []).append(d)
    return trees


def parse(ctx, c):
    p = ctx.params
    if p.get('pcfg'):
        chart, _ = ctx.mod('pcfg').parse(c.sent, c.gr.grammar)
    else:
        chart, _ = C26.parser(ctx, p)(c.sent, c.gr.grammar)
    ctx.check(bool(chart) == bool(c.derivs), 'parse succeeds')
    return chart


def checkfrags(ctx, got, derivs):
    """Fragments are those of a best derivation."""
    frags = [a for a, _ in got]
    match = [d for d in derivs if d[4] == frags]
    ctx.check(len(match) >= 1, 'fragments of a derivation of the tree')
    ctx.check(ctx.Or(*[ctx.And(*[le(e[2], d[2]) for e in derivs])
            for d in match]), 'fragments of a best derivation')
    ctx.reach('fragments')


def case(ctx):
    p = ctx.params
    return doubledop(ctx) if 'frags' in p else reduction(ctx)


def derive(ctx, chart, c, method):
    p = ctx.params
    dis = ctx.mod('disambiguation')
    dis.getderivations(chart, p.get('k', 1000), derivstrings='frags' not in p
            or method == 'mcp')
    return dis


def mpp(ctx):
    """Most probable parse: the probability of a tree is the sum of the
    probabilities of its derivations. Most probable derivation."""
    c = case(ctx)
    chart = parse(ctx, c)
    if not c.derivs:
        ctx.reach('no parse')
        return
    method = ctx.pick('method', ['mpp', 'mpd'])
    dis = derive(ctx, chart, c, method)
    got, msg = dis.marginalize(method, chart, sent=c.sent)
    trees = bytree(c)
    if method == 'mpp' or 'frags' in ctx.params:
        ctx.check(sorted(a for a, _, _ in got) == sorted(trees),
                'parse trees of the sentence')
        for t, prob, frags in got:
            probs = [d[2] for d in trees[t]]
            if method == 'mpp':
                ctx.check(eq(prob, mass(probs)),
                        'probability is sum over derivations')
            else:
                ctx.check(ctx.And(*[le(a, prob) for a in probs]),
                        'no derivation is better')
                ctx.check(ctx.Or(*[eq(a, prob) for a in probs]),
                        'probability of a derivation')
            checkfrags(ctx, frags, trees[t])
    else:
        segs = {}
        for d in c.derivs:
            segs.setdefault(d[1], []).append(d)
        left = list(segs)
        ctx.check(len(got) == len(segs), 'number of segmentations')
        for t, prob, frags in got:
            m = [s for s in left if IDS.sub('', s) == t
                    and any([a for a, _ in frags] == d[4] for d in segs[s])]
            ctx.check(len(m) >= 1, 'segmentation of the tree')
            probs = [d[2] for d in segs[m[0]]]
            left.remove(m[0])
            ctx.check(ctx.And(*[le(a, prob) for a in probs]),
                    'no derivation is better')
            ctx.check(ctx.Or(*[eq(a, prob) for a in probs]),
                    'probability of a derivation')
    ctx.reach(method)
    ctx.observe(sorted(a for a, _, _ in got))


def shortest(ctx):
    """Derivations with the smallest number of fragments, with their
    probability in the other model."""
    c = case(ctx)
    c.gr.grammar.switch('shortest', True)
    chart = parse(ctx, c)
    if not c.derivs:
        return
    dis = derive(ctx, chart, c, 'shortest')
    c.gr.grammar.switch('costs', True)
    got, msg = dis.marginalize('shortest', chart, sent=c.sent)
    least = min(d[3] for d in c.derivs)
    best = [d for d in c.derivs if d[3] == least]
    if 'frags' in ctx.params:
        trees = {}
        for d in best:
            trees.setdefault(d[0], []).append(d)
        ctx.check(sorted(a for a, _, _ in got) == sorted(trees),
                'trees with the shortest derivations')
        for t, (num, prob), frags in got:
            ctx.check(num == least, 'number of fragments')
            probs = [d[2] for d in trees[t]]
            ctx.check(ctx.And(*[le(a, prob) for a in probs]),
                    'no shortest derivation is better')
            ctx.check(ctx.Or(*[eq(a, prob) for a in probs]),
                    'probability of a derivation')
            checkfrags(ctx, frags, trees[t])
    else:
        segs = {}
        for d in best:
            segs.setdefault(d[1], []).append(d)
        ctx.check(len(got) == len(segs), 'number of segmentations')
        left = list(segs)
        for t, (num, prob), frags in got:
            ctx.check(num == least, 'number of fragments')
            m = [s for s in left if IDS.sub('', s) == t
                    and any([a for a, _ in frags] == d[4] for d in segs[s])]
            ctx.check(len(m) >= 1, 'segmentation of the tree')
            left.remove(m[0])
            ctx.check(eq(prob, mass([d[2] for d in segs[m[0]]])),
                    'sum of the derivations with the same segmentation')
    if len(best) > 1:
        ctx.reach('tie')
    ctx.reach('shortest')
    ctx.observe(sorted(a for a, _, _ in got))


def sldop(ctx):
    """The n most probable parse trees, with their shortest derivation."""
    c = case(ctx)
    chart = parse(ctx, c)
    if not c.derivs:
        return
    method = ctx.pick('method', ctx.params['methods'])
    dis = derive(ctx, chart, c, method)
    n = ctx.pick('n', ctx.params['best'])
    got, msg = dis.marginalize(method, chart, sent=c.sent, k=1000, sldop_n=n)
    trees = bytree(c)
    probs = {t: mass([d[2] for d in trees[t]]) for t in trees}
    ctx.check(len(got) == min(n, len(trees)), 'number of trees')
    ctx.check(len(set(a for a, _, _ in got)) == len(got), 'trees once')
    for t, (num, prob), frags in got:
        ctx.check(t in trees, 'tree of the sentence')
        ctx.check(eq(prob, probs[t]), 'probability is sum over derivations')
        least = min(d[3] for d in trees[t])
        ctx.check(num == -least, 'length of shortest derivation')
        ctx.check(any([a for a, _ in frags] == d[4] for d in trees[t]
                if d[3] == least), 'fragments of a shortest derivation')
        for u in trees:
            if u not in [a for a, _, _ in got]:
                ctx.check(le(probs[u], probs[t]), 'most probable trees')
                ctx.reach('cut off')
    ctx.check(c.gr.grammar.currentmodel == 'costs', 'weights are restored')
    ctx.reach(method)
    ctx.observe(sorted(a for a, _, _ in got))


def spansof(treestr):
    """Labeled spans of a tree."""
    out, stack = set(), []
    for tok in re.findall(r'[()]|[^\s()]+', treestr):
        if tok == '(':
            stack.append([])
        elif tok == ')':
            a = stack.pop()
            out.add((a[0], tuple(sorted(a[1:]))))
            if stack:
                stack[-1].extend(a[1:])
        elif stack[-1]:
            stack[-1].append(int(tok))
        else:
            stack[-1].append(tok)
    return out


def constraints(ctx):
    """Only trees with required labeled spans, and without blocked ones."""
    c = case(ctx)
    chart = parse(ctx, c)
    if not c.derivs:
        return
    method = ctx.pick('method', ['mpp', 'mpd', 'shortest'])
    dis = derive(ctx, chart, c, method)
    before, _ = dis.marginalize(method, chart, sent=c.sent)
    dis.getderivations(chart, 1000, derivstrings='frags' not in ctx.params)
    spans = [(a, tuple(b)) for a, b in ctx.params['spans']]
    opts = {}
    for name in ('require', 'block'):
        if ctx.flag(name):
            opts[name] = {ctx.pick('span', spans)}
            ctx.reach(name)
    got, _ = dis.marginalize(method, chart, sent=c.sent, **opts)
    ok = []
    for t in before:
        have = spansof(t[0])
        if opts.get('require', set()) <= have and not (
                opts.get('block', set()) & have):
            ok.append(t[0])
    ctx.check(sorted(a for a, _, _ in got) == sorted(ok),
            'trees which meet the constraints')
    if 0 < len(ok) < len(before):
        ctx.reach('some')
    ctx.observe(sorted(a for a, _, _ in got))


def rerank(ctx):
    """Exact probability of a parse tree according to a DOP reduction."""
    c = case(ctx)
    if not c.derivs:
        return
    dis = ctx.mod('disambiguation')
    gr = c.gr
    rules, lexicon = [], []
    for (r, yf), _ in zip(gr.rules, gr.rules):
        r = tuple(IDS.sub('', a) for a in r)
        if (r, yf) not in rules:
            rules.append((r, yf))
    for a, w in gr.lexicon:
        if (IDS.sub('', a), w) not in lexicon:
            lexicon.append((IDS.sub('', a), w))
    coarse = Gram(ctx, rules, lexicon, fixed=[ctx.neglog(.5)
            for _ in rules + lexicon])
    gr.grammar.getrulemapping(coarse.grammar, re.compile(r'@[-0-9]+\b'))
    trees = bytree(c)
    given = [(t, 1. / (n + 2), None) for n, t in enumerate(sorted(trees))]
    got, _ = dis.doprerank(given, c.sent, len(given), coarse.grammar,
            gr.grammar)
    ctx.check(sorted(a for a, _, _ in got) == sorted(trees), 'same trees')
    for t, prob, _ in got:
        ctx.check(eq(prob, mass([d[2] for d in trees[t]])),
                'probability is sum over derivations')
        if len(trees[t]) > 1:
            ctx.reach('sum')
    ctx.observe(sorted(a for a, _, _ in got))


RED = dict(rules=[('S', 'A', 'B'), ('S', 'A@1', 'B'), ('S', 'A', 'B@2'),
            ('A@1', 'A', 'B@12'), ('A', 'A', 'B'), ('B', 'B', 'B')],
        maybe=[('B@2', 'A', 'B'), ('S', 'A@1', 'B@2'), ('S', 'S')],
        lexicon=[('A', 'a'), ('B', 'a'), ('B@12', 'a'), ('A@1', 'a'),
            ('B@2', 'a')], words=['a'])
RED['maybe'] = RED['maybe'][:2]

# unary nodes with the same label as their child
REDU = dict(rules=[('S', 'A'), ('A', 'A@1'), ('A@1', 'B', 'B@1'),
            ('A', 'B', 'B'), ('S', 'A@1')], maybe=[('S', 'A@2'),
            ('A@2', 'A@1'), ('A@1', 'B')],
        lexicon=[('A', 'a'), ('A@1', 'a'), ('B', 'a'), ('B@1', 'a')],
        words=['a'])
# discontinuous constituents
A2 = ((0, ), (1, ))
REDD = dict(rules=[(('S', 'A', 'B'), ((0, 1, 0), )),
            (('S', 'A@10-12', 'B'), ((0, 1, 0), )),
            (('S', 'A', 'B@2'), ((0, 1, 0), )),
            (('A', 'B', 'B'), A2), (('A@10-12', 'B', 'B'), A2),
            (('A@10-12', 'B', 'B@2'), A2), (('S', 'B', 'B'), ((0, 1), )),
            (('B', 'B', 'B'), ((0, 1), ))],
        maybe=[(('A', 'B', 'A@10-12'), ((0, 1), (1, ))),
            (('B@2', 'B', 'B'), ((0, 1), )),
            (('S', 'A@10-12', 'B@2'), ((0, 1, 0), ))],
        lexicon=[('B', 'a'), ('B@2', 'a')], words=['a'])
TSGD = dict(frags=['(S (A 0= 2=) (B 1=))', '(A (B 0=) (B 2=))', '(B 0=a)',
            '(S (A (B 0=a) (B 2=)) (B 1=))', '(B (B 0=) (B 1=))',
            '(S (B 0=) (B 1=))'],
        maybe=['(A (B 0=a) (B 2=a))', '(A (B 0=) (A 1= 3=))',
            '(S (A (B 0=a) (A 1= 3=)) (B 2=a))'], words=['a'])

TSG = dict(frags=['(S (A 0=) (B 1=))', '(A (A 0=) (B 1=))', '(A 0=a)',
            '(B 0=a)', '(S (A 0=) (B (B 1=a) (B 2=)))',
            '(B (B 0=) (B 1=))'],
        maybe=['(S (A (A 0=a) (B 1=)) (B 2=))',
            '(S (A 0=) (B 1=a))', '(A (A 0=a) (B 1=a))'], words=['a'])

HARNESSES = {
    'mpp': dict(fn=mpp, reach=['mpp', 'mpd', 'fragments'], params=dict(
        quick=[
            dict(RED, sizes=[1, 2, 3], symbolic=[0]),
            dict(RED, sizes=[3], symbolic=[3], pcfg=1),
            dict(TSG, sizes=[1, 2, 3], symbolic=[0]),
            dict(REDD, sizes=[3], symbolic=[1]),
            dict(REDU, sizes=[1, 2], symbolic=[0]),
            dict(TSGD, sizes=[3], symbolic=[0]),
            ], thorough=[
            dict(RED, sizes=[3, 4], symbolic=[0, 3]),
            dict(RED, sizes=[2, 3], symbolic=[1, 4], words=["a"], pcfg=1),
            dict(TSG, sizes=[3, 4], symbolic=[0, 4]),
            dict(TSG, sizes=[3], symbolic=[1, 5], pcfg=1),
            dict(REDD, sizes=[3, 4], symbolic=[1, 5]),
            dict(REDU, sizes=[1, 2], symbolic=[0, 1]),
            dict(TSGD, sizes=[3, 4], symbolic=[0, 3]),
            ])),
    'shortest': dict(fn=shortest, reach=['shortest', 'tie'], params=dict(
        quick=[
            dict(RED, sizes=[2, 3], symbolic=[0]),
            dict(TSG, sizes=[2, 3], symbolic=[0]),
            dict(REDD, sizes=[3, 4], symbolic=[1]),
            dict(REDU, sizes=[1, 2], symbolic=[0]),
            dict(TSGD, sizes=[3], symbolic=[0]),
            ], thorough=[
            dict(RED, sizes=[3, 4], symbolic=[0, 3]),
            dict(RED, sizes=[2, 3, 4], symbolic=[1, 4], pcfg=1),
            dict(TSG, sizes=[3, 4], symbolic=[0, 4]),
            dict(TSG, sizes=[3, 4], symbolic=[1, 5], pcfg=1),
            dict(REDD, sizes=[3, 4], symbolic=[1, 5]),
            dict(REDU, sizes=[1, 2, 3], symbolic=[0, 1]),
            dict(TSGD, sizes=[3, 4], symbolic=[0, 3]),
            ])),
    'sldop': dict(fn=sldop, reach=['cut off', 'sl-dop', 'sl-dop-simple'],
        params=dict(quick=[
            dict(RED, sizes=[3], symbolic=[0], best=[1, 2, 7],
                methods=['sl-dop', 'sl-dop-simple']),
            dict(TSG, sizes=[3], symbolic=[0], best=[1, 2, 7],
                methods=['sl-dop', 'sl-dop-simple']),
            dict(REDD, sizes=[3], symbolic=[1], best=[1],
                methods=['sl-dop', 'sl-dop-simple']),
            dict(TSGD, sizes=[3], symbolic=[0], best=[1],
                methods=['sl-dop', 'sl-dop-simple']),
            ], thorough=[
            dict(RED, sizes=[3, 4], symbolic=[0], best=[1, 2, 3], methods=['sl-dop', 'sl-dop-simple']),
            dict(RED, sizes=[3], symbolic=[0, 3], best=[1, 2], methods=['sl-dop', 'sl-dop-simple']),
            dict(TSG, sizes=[3, 4], symbolic=[0], best=[1, 2, 3], methods=['sl-dop', 'sl-dop-simple']),
            dict(REDD, sizes=[3, 4], symbolic=[1], best=[1, 2], methods=['sl-dop', 'sl-dop-simple']),
            dict(TSGD, sizes=[3, 4], symbolic=[0], best=[1, 2], methods=['sl-dop', 'sl-dop-simple']),
            ])),
    'constraints': dict(fn=constraints, reach=['require', 'block', 'some'],
        params=dict(quick=[
            dict(RED, sizes=[3], maybe=[], symbolic=[], spans=[
                ('A', [0]), ('A', [0, 1]), ('B', [1, 2]), ('B', [0, 1])]),
            dict(TSGD, sizes=[3], maybe=[], symbolic=[], spans=[
                ('A', [0, 2]), ('A', [0, 1]), ('B', [0, 1]), ('B', [1])]),
            ], thorough=[
            dict(RED, sizes=[3, 4], symbolic=[], spans=[('A', [0]), ('A', [0, 1]), ('B', [1, 2]), ('A', [0, 1, 2])]),
            dict(REDD, sizes=[3, 4], symbolic=[], spans=[('A', [0, 2]), ('A', [0, 1]), ('B', [0, 1]), ('B', [1])]),
            ])),
    'rerank': dict(fn=rerank, reach=['sum'], params=dict(quick=[
            dict(RED, sizes=[1, 2, 3], symbolic=[0, 3]),
            dict(REDD, sizes=[3], symbolic=[1]),
            dict(REDU, sizes=[1, 2], symbolic=[0]),
            ], thorough=[
            dict(RED, sizes=[3, 4], symbolic=[0, 3, 4]),
            dict(REDD, sizes=[3, 4], symbolic=[1, 5]),
            dict(REDU, sizes=[1, 2, 3], symbolic=[0, 1, 2]),
            ])),
}
