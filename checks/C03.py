"""Bit-vector operations on Python integers and machine words."""
NEEDS = ['bit']
OUTSIDE = ('Python integers wider than the stated number of bits; the '
        'compiled (C) form of the code is replayed only on sampled values.')
ASSUMPTIONS = ['C integer arithmetic wraps as on x86-64; '
        '__builtin_ctzl/clzl/popcountl implement their documentation']


def popcount(ctx, x, w):
    """Number of set bits of a w-bit value, as sum."""
    if not ctx.symbolic:
        return bin(x).count('1')
    from symx import cyrt
    if isinstance(x, int) and type(x) is int:
        return bin(x).count('1')
    return cyrt.SymBV(cyrt.popcount(x._ext(w), 16), False)


def count(ctx):
    """bitcount / pyintbitcount: number of set bits, for every value; adding
    one bit adds one."""
    w = ctx.params['w']
    mod = ctx.mod('bit')
    x = ctx.bv('x', w)
    if ctx.params['f'] == 'bitcount':
        got = mod.bitcount(x)
    else:
        got = mod.pyintbitcount(x)
    ctx.reach('count')
    ctx.check(got == popcount(ctx, x, w), 'number of set bits')
    ctx.observe(got)


def nextset(ctx):
    """pyintnextset: the returned index is the first set bit at or after pos,
    -1 iff there is none."""
    w = ctx.params['w']
    x = ctx.bv('x', w) << ctx.params.get('shift', 0)
    w += ctx.params.get('shift', 0)
    pos = ctx.choice('pos', w + 2)
    got = ctx.mod('bit').pyintnextset(x, pos)
    ctx.observe(got)
    rest = x >> pos
    if got == -1:
        ctx.reach('none')
        ctx.check(rest == 0, 'no set bit reported although there is one')
        return
    ctx.reach('found')
    ctx.check(got >= pos, 'set bit before pos')
    ctx.check(ctx.And(*[ctx.Or(ctx.Not(got == i), (x >> i) & 1 == 1)
            for i in range(w)]), 'bit at returned index is not set')
    ctx.check(ctx.And(*[ctx.Or(ctx.Not(got > i), (x >> i) & 1 == 0)
            for i in range(pos, w)]), 'a set bit was skipped')
    ctx.check(got < w, 'index out of range')


def fan(ctx):
    """fanout: number of maximal runs of consecutive set bits."""
    w = ctx.params['w']
    x = ctx.bv('x', w)
    sh = ctx.params.get('shift', 0)
    if ctx.params.get('high'):
        # make the bigint branch necessary
        x = x | (1 << (w - 1))
    x = x << sh
    got = ctx.mod('bit').fanout(x)
    ctx.observe(got)
    ctx.reach('runs')
    y = (x << 1) | 0
    starts = (x ^ (x & y))
    ctx.check(got == popcount(ctx, starts, w + sh + 1), 'number of runs')


def components(ctx):
    """fanout is one more than the number of gaps: joining two disjoint,
    non-adjacent blocks gives the sum of their fan-outs; adjacent blocks
    give one less."""
    w = ctx.params['w']
    a = ctx.bv('a', w)
    b = ctx.bv('b', w)
    ctx.assume(a != 0)
    ctx.assume(b != 0)
    mod = ctx.mod('bit')
    gap = ctx.params['gap']
    fa, fb = mod.fanout(a), mod.fanout(b)
    joined = (b << (w + gap)) | a
    fj = mod.fanout(joined)
    ctx.observe(fa, fb, fj)
    ctx.reach('join')
    touch = 0 if gap else ctx.If(ctx.And((a >> (w - 1)) == 1, b & 1 == 1),
            1, 0)
    ctx.check(fj == fa + fb - touch, 'fan-out of joined blocks')


HARNESSES = {
    'count': dict(fn=count, reach=['count'], params=dict(
        quick=[dict(f='bitcount', w=64), dict(f='pyintbitcount', w=10),
            dict(f='pyintbitcount', w=5)],
        thorough=[dict(f='bitcount', w=64), dict(f='pyintbitcount', w=16),
            ])),
    'nextset': dict(fn=nextset, reach=['none', 'found'], params=dict(
        quick=[dict(w=64), dict(w=10, shift=60), dict(w=6, shift=126)],
        thorough=[dict(w=64), dict(w=130), dict(w=30, shift=50),
            dict(w=6, shift=190)])),
    'fanout': dict(fn=fan, reach=['runs'], params=dict(
        quick=[dict(w=10), dict(w=8, shift=58), dict(w=8, high=1, shift=56),
            dict(w=6, high=1, shift=62)],
        thorough=[dict(w=24), dict(w=16, shift=56), dict(w=16, high=1,
            shift=50), dict(w=10, high=1, shift=122), dict(w=64)])),
    'components': dict(fn=components, reach=['join'], params=dict(
        quick=[dict(w=5, gap=0), dict(w=5, gap=1), dict(w=5, gap=60)],
        thorough=[dict(w=8, gap=0), dict(w=8, gap=1), dict(w=8, gap=50),
            dict(w=8, gap=64)])),
}
