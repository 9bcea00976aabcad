"""Merging, slices, ordered sets and tokenization."""
import tlib
NEEDS = []
OUTSIDE = ('Longer sequences and texts; keys that are not totally ordered; '
        'slices with negative steps; characters other than those stated.')


def merging(ctx):
    """merge: a stable merge of sorted sequences, with or without key."""
    util = ctx.mod('util')
    p = ctx.params
    seqs = []
    for k in p['sizes']:
        n = ctx.choice('len', k + 1)
        s = [ctx.int('x', 0, 9) for _ in range(n)]
        for a, b in zip(s, s[1:]):
            ctx.assume(a <= b)
        seqs.append(s)
    usekey = ctx.flag('key')
    total = sum(len(s) for s in seqs)
    if usekey:
        rows = [[(a, (i, j)) for j, a in enumerate(s)]
                for i, s in enumerate(seqs)]
        got = list(util.merge(*rows, key=lambda x: x[0]))
        ctx.check(sorted(b for _, b in got) == [b for s in rows
                for _, b in s], 'every element once')
        for (a, x), (b, y) in zip(got, got[1:]):
            ctx.check(a <= b, 'sorted')
            ctx.check(ctx.Or(a < b, x < y), 'stable')
    else:
        got = list(util.merge(*[iter(s) for s in seqs]))
        ctx.check(len(got) == total, 'number of elements')
        for a, b in zip(got, got[1:]):
            ctx.check(a <= b, 'sorted')
        for s in seqs:
            for x in s:
                ctx.check(sum(ctx.If(a == x, 1, 0) for a in got)
                        == sum(ctx.If(a == x, 1, 0)
                            for t in seqs for a in t), 'same elements')
    ctx.observe(got if not usekey else [b for _, b in got])
    ctx.reach('key' if usekey else 'plain')


def slices(ctx):
    """slice_bounds agrees with Python's slices."""
    util = ctx.mod('util')
    n = ctx.choice('n', ctx.params['n'] + 1)
    seq = list(range(n))
    lim = ctx.params['n'] + 2
    start = None if ctx.flag('nostart') else ctx.int('a', -lim, lim)
    stop = None if ctx.flag('nostop') else ctx.int('b', -lim, lim)
    step = ctx.pick('step', [None, 1, 2, 3])
    a, b, c = None, None, None
    if step in (None, 1) and not ctx.flag('allow'):
        a, b, c = util.slice_bounds(seq, slice(start, stop, step))
        ctx.check(c == 1, 'step')
    else:
        a, b, c = util.slice_bounds(seq, slice(start, stop, step),
                allow_step=True)
        ctx.check(c == (1 if step is None else step), 'step')
    ctx.check(ctx.And(0 <= a, a <= b, b <= n), '0 <= start <= stop <= len')

    def inside(x, lo, hi):
        return ctx.And(lo <= x, x < hi)

    def norm(x, default):
        if x is None:
            return default
        x = ctx.If(x < 0, x + n, x)
        return ctx.If(x < 0, 0, ctx.If(x > n, n, x))
    lo, hi = norm(start, 0), norm(stop, n)
    for x in seq:
        ctx.check(inside(x, lo, hi) == inside(x, a, b), 'selected elements')
    ctx.check(ctx.Or(lo > hi, a == lo), 'start')
    ctx.reach('ok')
    ctx.observe(a, b)


def badslice(ctx):
    """Steps are refused unless allowed."""
    util = ctx.mod('util')
    step = ctx.int('step', -3, 3)
    try:
        util.slice_bounds([1, 2, 3], slice(0, 2, step))
    except ValueError:
        ctx.check(step != 1, 'refused')
        ctx.reach('refused')
    else:
        ctx.check(step == 1, 'accepted')
        ctx.reach('accepted')


def sets(ctx):
    """OrderedSet: a set that keeps order of first insertion; equality and
    hash ignore order."""
    util = ctx.mod('util')
    p = ctx.params

    def make(k):
        return [ctx.int('x', 0, p.get('max', 2)) for _ in range(
                ctx.choice('len', k + 1))]
    a, b = make(p['n']), make(p['n'])
    s, t = util.OrderedSet(a), util.OrderedSet(iter(b))
    for x, y in ((s, a), (t, b)):
        first = []
        for e in y:
            if not any(bool(e == f) for f in first):
                first.append(e)
        ctx.check(list(x) == first, 'order of insertion without duplicates')
        ctx.check(len(x) == len(first), 'length')
        ctx.check(list(reversed(x)) == first[::-1], 'reversed')
        for n, e in enumerate(first):
            ctx.check(x[n] == e, 'index')
    eq = ctx.And(*[ctx.Or(*[e == f for f in b]) for e in a]
            + [ctx.Or(*[e == f for f in b]) for f in a][:0]
            + [ctx.Or(*[e == f for e in a]) for f in b])
    same = bool(s == t)
    ctx.check(ctx.If(eq, 1, 0) == int(same), 'equality')
    ctx.check((s != t) == (not same), 'inequality')
    if same:
        ctx.check(ctx.hash(s) == ctx.hash(t), 'hash')
    v = ctx.int('v', 0, 3)
    ctx.check((v in s) == any(bool(v == e) for e in a), 'membership')
    inter = list(s & t)
    ctx.check(inter == [e for e in list(s) if any(bool(e == f) for f in b)],
            'intersection keeps order')
    union = list(s | t)
    ctx.check(union == list(s) + [f for f in list(t)
            if not any(bool(e == f) for e in a)], 'union')
    ctx.check(list(s - t) == [e for e in list(s) if not any(bool(e == f)
            for f in b)], 'difference')
    ctx.check((s <= t) == all(any(bool(e == f) for f in b) for e in a),
            'subset')
    ctx.reach('equal' if same else 'different')
    ctx.observe(inter, union)


def tokens(ctx):
    """tokenize only inserts or removes white space."""
    util = ctx.mod('util')
    p = ctx.params
    text = p.get('prefix', '') + ctx.string('t', p['chars'], 0, p['n']) \
            + p.get('suffix', '')
    got = util.tokenize(text)
    want = ''
    for i in range(len(text)):
        if text[i] != ' ':
            want = want + text[i]
    ctx.check(tlib.cat(got) == want, 'no characters are lost')
    for a in got:
        ctx.check(len(a) > 0 and a.find(' ') == -1, 'no white space')
    i = 0
    # a space in the input always separates tokens
    cuts = []
    for a in got:
        i += len(a)
        cuts.append(i)
    i = 0
    last = None
    for k in range(len(text)):
        if text[k] == ' ':
            if i and i < len(want):
                ctx.check(i in cuts or p.get('french'),
                        'words stay separate')
        else:
            i += 1
    ctx.reach('ok')
    ctx.observe(got)


HARNESSES = {
    'merge': dict(fn=merging, reach=['key', 'plain'], params=dict(
        quick=[dict(sizes=[3, 2]), dict(sizes=[1, 2, 2])],
        thorough=[dict(sizes=[4, 3]), dict(sizes=[2, 2, 2]),
            dict(sizes=[1, 1, 2, 1])])),
    'slices': dict(fn=slices, reach=['ok'], params=dict(
        quick=[dict(n=4)], thorough=[dict(n=7)])),
    'badslice': dict(fn=badslice, reach=['refused', 'accepted'],
        params=dict(quick=[dict()], thorough=[dict()])),
    'sets': dict(fn=sets, reach=['equal', 'different'], params=dict(
        quick=[dict(n=2, max=2)], thorough=[dict(n=3, max=2)])),
    'tokenize': dict(fn=tokens, reach=['ok'], params=dict(
        quick=[dict(n=4, chars="a.',(n "), dict(n=2, prefix='can',
            chars="not' "), dict(n=3, prefix="a'", chars="lve't ",
            suffix=' b'), dict(n=2, prefix="qu", chars="'a ",
            suffix=' b', french=1)],
        thorough=[dict(n=6, chars="a.', ")])),
}
