"""Fragments are flattened to productions without loss."""
import tlib
NEEDS = ['bit']
OUTSIDE = ('Fragments with more frontier nodes than stated; labels with '
        'braces or "@"; words with brackets (these are escaped).')


def fragment(ctx, n):
    """A fragment as (label, kids), terminal (label, idx, word) or frontier
    (label, [idx, ...]); its root may be discontinuous."""
    p = ctx.params
    t = tlib.gentree(ctx, n, lambda: ctx.string('l', p['labels'], 1, 1),
            unary=p.get('unary', 0), pos=lambda: ctx.string('p',
                p.get('pos', 'P'), 1, 1))
    if p.get('disc') and len(t[1]) > 1:
        t = t[1][0]  # this may be a preterminal
        ctx.assume(isinstance(t[1][0], tuple))

    def cut(x, root=False):
        if not isinstance(x[1][0], tuple):
            if isinstance(x[0], str) and x[0] == 'W':
                return (x[0], [x[1][0]], None if x[1][0] % 2 else 'v')
            if ctx.flag('frontier') if p.get('mix', True) else False:
                return (x[0], [x[1][0]], None)
            return (x[0], [x[1][0]], ctx.string('w', p['words'], 1,
                    p.get('wl', 1)))
        if not root and p.get('cut', True) and ctx.flag('cut'):
            return (x[0], sorted(tlib.leaves(x)), None)
        return (x[0], [cut(a) for a in x[1]])
    f = cut(t, True)
    return number(f)


def ends(f):
    """Terminals and frontier nodes, in order of first index."""
    if len(f) == 3:
        return [f]
    return sorted((b for a in f[1] for b in ends(a)), key=lambda x: x[1][0])


def number(f):
    """One index per component; gaps have length one."""
    owner = {x: a for a in ends(f) for x in a[1]}
    idx, prev, num = -1, None, {}
    for x in sorted(owner):
        if prev is not None and x == prev + 1 and owner[x] is owner[prev]:
            pass
        else:
            idx += 1 if prev is None or x == prev + 1 else 2
            num.setdefault(id(owner[x]), []).append(idx)
        prev = x

    def rec(a):
        if len(a) == 3:
            return (a[0], num[id(a)], a[2])
        return (a[0], [rec(b) for b in a[1]])
    return rec(f)


def text(f):
    """Fragment in discbracket notation."""
    if len(f) == 3:
        if f[2] is not None:
            return '(' + f[0] + ' %d=' % f[1][0] + f[2] + ')'
        return '(' + f[0] + ' ' + ' '.join('%d=' % x for x in f[1]) + ')'
    return '(' + f[0] + ' ' + tlib.join(' ', [text(a) for a in f[1]]) + ')'


def lookup(rules, label):
    out = []
    for r, yf in rules:
        if bool(r[0] == label) and not any(len(r) == len(r2)
                and bool(yf == yf2) and all(bool(c == d)
                    for c, d in zip(r, r2)) for r2, yf2 in out):
            out.append((r, yf))
    return out


def derivations(prod, rules):
    """All expansions of a production as (components, children); components
    are sequences of (child number, component number) or words; children are
    labels of substitution sites and (label, word) of terminals."""
    r, yf = prod
    results = [[]]
    for a in r[1:]:
        if a.find('}<') != -1 or a.find('@') != -1:
            exp = []
            for b in lookup(rules, a):
                if b[0][1] == 'Epsilon':
                    exp.append(([[(0, 0)]], [(a, b[1][0])]))
                else:
                    exp.extend(derivations(b, rules))
        else:
            exp = [(None, [a])]
        results = [x + [y] for x in results for y in exp]
    out = []
    for res in results:
        offset, n = [], 0
        kids = []
        for _, k in res:
            offset.append(n)
            n += len(k)
            kids.extend(k)
        used = [0] * len(res)
        comps = []
        for comp in yf:
            c = []
            for a in comp:
                if res[a][0] is None:
                    c.append((offset[a], used[a]))
                else:
                    c.extend((offset[a] + x, y)
                            for x, y in res[a][0][used[a]])
                used[a] += 1
            comps.append(c)
        for u, (c, _) in zip(used, res):
            if c is not None and u != len(c):
                return [('bad', None)]
        out.append((comps, kids))
    return out


def wanted(f):
    """Components of the root in terms of terminals and frontier nodes."""
    where = {}
    for n, a in enumerate(ends(f)):
        for m, x in enumerate(a[1]):
            where[x] = (n, m)
    return [[where[x] for x in range(s, e)]
            for s, e in tlib.ranges(list(where))]


def checkfragment(ctx, f, prods, template):
    first = prods[0]
    ctx.check(first[0][0] == f[0], 'label of root')
    ders = derivations(first, prods)
    ctx.check(len(ders) == 1, 'a fragment has exactly one derivation')
    comps, kids = ders[0]
    ctx.check(comps == wanted(f), 'order of frontier nodes and terminals')
    ee = ends(f)
    ctx.check(len(kids) == len(ee), 'number of frontier nodes')
    for a, b in zip(kids, ee):
        if b[2] is None:
            ctx.check(not isinstance(a, tuple) and a == b[0], 'frontier label')
        else:
            ctx.check(isinstance(a, tuple) and ctx.And(
                    a[0] == b[0] + '@' + b[2], a[1] == b[2]),
                    'terminal with tag')
    for (r, yf) in prods:
        ctx.check(len(r) <= 3, 'binary')
    checktemplate(ctx, f, template)


def checktemplate(ctx, f, template):
    got = template
    for n, a in enumerate(ends(f)):
        parts = got.split('{%d}' % n)
        ctx.check(len(parts) == 2, 'placeholder occurs once')
        got = parts[0] + text(a) + parts[1]
    ctx.check(got == text(f), 'template gives back the fragment')


def flattening(ctx):
    """flatten: the productions of a fragment derive precisely its frontier,
    and the template restores the fragment."""
    gr = ctx.mod('grammar')
    p = ctx.params
    ids = gr.UniqueIDs()
    for n in p['sizes']:
        f = fragment(ctx, n)
        prods, template = gr.flatten(text(f), ids)
        checkfragment(ctx, f, prods, template)
    ctx.observe([yf for _, yf in prods if isinstance(yf[0], tuple)])
    ctx.reach('ok')


def single(ctx):
    """A preterminal with a word gives a lexical production."""
    gr = ctx.mod('grammar')
    lab = ctx.string('l', ctx.params['labels'], 1, 2)
    w = ctx.string('w', ctx.params['words'], 1, 2)
    prods, template = gr.flatten('(' + lab + ' 0=' + w + ')', gr.UniqueIDs())
    ctx.check(len(prods) == 1, 'one production')
    (r, yf), = prods
    ctx.check(len(r) == 2 and len(yf) == 1, 'lexical production')
    ctx.check(ctx.And(r[0] == lab, r[1] == 'Epsilon', yf[0] == w),
            'lexical production')
    ctx.check(template == '(' + lab + ' 0)', 'template')
    ctx.reach('ok')


ARRANGEMENTS = [
        [[0, 2], [1, 4], [3], [5], [6]],
        [[0, 3], [1, 4], [2], [5], [6]],
        [[0, 2], [1, 3], [4], [5], [6]],
        [[0, 3], [1], [2], [4], [5]],
        [[0], [1, 3], [2, 4], [5], [6]]]


def flat(ctx):
    arr = ctx.pick('arrangement', ARRANGEMENTS)
    return ('S', [(('ABCDE'[n]) + ('_2' if len(a) > 1 else ''), a, None)
            for n, a in enumerate(arr)])


def dop(ctx):
    """dopgrammar: each fragment has exactly one derivation in the grammar as
    a whole, weights are as documented, and templates and fragments line up
    with the rules."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    p = ctx.params
    frags = []
    for n in p['sizes']:
        f = flat(ctx) if p.get('flat') else fragment(ctx, n)
        frags.append((f, text(f)))
    for n, (_, s) in enumerate(frags):
        for _, s2 in frags[:n]:
            ctx.assume(ctx.Not(s == s2))
    occ = [ctx.pick('occ', [[0], [0, 1], [1, 1]]) for _ in frags]
    if p.get('lexical'):
        x, y = ctx.string('l', p['labels'], 1, 1), ctx.string('w',
                p['words'], 1, 1)
        frags.append(((x, [0], y), '(' + x + ' 0=' + y + ')'))
        occ.append([0, 0, 1])
    fragdict = ctx.dict(list(zip([s for _, s in frags], occ)))
    treelabels = [f[0] for f, _ in frags] + [ctx.string('l',
            p.get('labels', 'S'), 1, 1)]
    trees = [mod.Tree(a, [0]) for a in treelabels]
    method = ctx.pick('method', ['dop', 'tsg'])
    extra = None
    if method == 'dop':
        if p.get('extra'):
            extra = ctx.dict([((('P', 'Epsilon'), ('q', )), 3)])
        grammar, back, alt, fr = gr.dopgrammar(trees, fragdict,
                extrarules=extra)
    else:
        grammar, back, alt = gr.compiletsg(ctx.dict([(s, 10 + n)
                for n, (_, s) in enumerate(frags)]))
        ctx.check(alt == {}, 'no alternative weights')
    rules = [a for a, _ in grammar]
    for n, ((r, yf), _) in enumerate(grammar):
        for (r2, yf2), _ in grammar[:n]:
            ctx.check(not (len(r) == len(r2) and bool(yf == yf2)
                    and all(bool(c == d) for c, d in zip(r, r2))),
                    'each rule once')
    # the rules that introduce a fragment come first
    multi = [(f, s, n) for n, (f, s) in enumerate(frags) if len(f) == 2]
    ctx.check(len(back) == len(multi), 'number of templates')
    seen = []
    sums = {}
    counts = [0, 0]
    for o in occ:
        for i in o:
            counts[i] += 1
    ewes = []
    for m, (rule, w) in enumerate(grammar):
        f = None
        if m < len(back):
            ders = derivations(rule, rules)
            ctx.check(len(ders) == 1,
                    'a fragment has exactly one derivation')
            match = [(f, s, n) for f, s, n in multi if n not in seen
                    and restored(f, back[m], s)]
            ctx.check(len(match) >= 1, 'template of a fragment')
            f, s, n = match[0]
            seen.append(n)
            comps, kids = ders[0]
            ctx.check(comps == wanted(f),
                    'derivation has the frontier of the template')
            ctx.check(len(kids) == len(ends(f)), 'number of frontier nodes')
            for a, b in zip(kids, ends(f)):
                ctx.check((a == b[0]) if b[2] is None
                        else a[0] == b[0] + '@' + b[2], 'label')
            if method == 'dop':
                ctx.check(bool(fr[m][0] == s) and fr[m][1] is occ[n],
                        'fragments in the same order as rules')
        elif rule[0][1] == 'Epsilon' and rule[0][0].find('@') == -1:
            if extra and bool(rule[0][0] == 'P') and bool(rule[1][0] == 'q'):
                ctx.check(w == 3, 'extra rule')
                ewes.append((rule[0][0], 3))
                continue
            n = len(frags) - 1
            f = frags[n][0]
            ctx.check(p.get('lexical') and ctx.And(rule[0][0] == f[0],
                    rule[1][0] == f[2]), 'lexical rule')
        else:
            ctx.check(w == 1, 'weight of other rules')
            ewes.append((rule[0][0], 1))
        if f is not None:
            ctx.check(w == (len(occ[n]) if method == 'dop' else 10 + n),
                    'weight of a fragment')
            ewes.append((f[0], sum(1 / counts[i] for i in occ[n])))
            if method == 'dop':
                num = sum(bool(a == f[0]) for a in treelabels)
                nts = size(f) - 1
                ctx.check(abs(alt['bon'][m] - 2. ** -nts * len(occ[n])
                        / num) < 1e-9, 'Bonnema weight')
                ctx.check(alt['shortest'][m] == .5, 'shortest')
    if method == 'dop':
        for m, (lab, x) in enumerate(ewes):
            z = sum(b for a, b in ewes if bool(a == lab))
            ctx.check(abs(alt['ewe'][m] - x / z) < 1e-9,
                    'equal weights estimate')
    ctx.reach(method)
    ctx.observe(len(rules))


def size(f):
    """Number of nonterminals."""
    return 1 if len(f) == 3 else 1 + sum(size(a) for a in f[1])


def restored(f, template, s):
    got = template
    for n, a in enumerate(ends(f)):
        parts = got.split('{%d}' % n)
        if len(parts) != 2:
            return False
        got = parts[0] + text(a) + parts[1]
    return bool(got == s)


def ids(ctx):
    """UniqueIDs never repeats an identifier, but reuses those of keys."""
    gr = ctx.mod('grammar')
    u = gr.UniqueIDs(ctx.pick('prefix', ['', 'x']))
    seen, known = [], []
    for _ in range(ctx.params['n']):
        if ctx.flag('next'):
            a = next(u)
            ctx.check(a not in seen, 'new identifier')
            seen.append(a)
        else:
            k = ctx.string('k', 'ab', 1, 1)
            a = u[k]
            for b, v in known:
                if bool(k == b):
                    ctx.check(a == v, 'same identifier')
                    break
            else:
                ctx.check(a not in seen, 'new identifier')
                seen.append(a)
                known.append((k, a))
    ctx.reach('ok')
    ctx.observe(seen)


HARNESSES = {
    'flatten': dict(fn=flattening, reach=['ok'], params=dict(
        quick=[dict(sizes=[4], labels='A', words='a', cut=False),
            dict(sizes=[3], labels='AB', words='a=', unary=1),
            dict(sizes=[4], labels='A', words='a'),
            dict(sizes=[5], labels='A', words='a', disc=1, mix=False),
            dict(sizes=[12], labels='A', words='a', pad=9, unary=1),
            dict(sizes=[2, 2], labels='A', words='a')],
        thorough=[dict(sizes=[5], labels='A', words='a', mix=False),
            dict(sizes=[4], labels='AB', words='a=', wl=2, cut=False)])),
    'single': dict(fn=single, reach=['ok'], params=dict(
        quick=[dict(labels='A|<', words='a=@0')],
        thorough=[dict(labels='A|<>,$', words='a=@0')])),
    'grammar': dict(fn=dop, reach=['dop', 'tsg'], params=dict(
        quick=[dict(sizes=[2, 2], labels='AB', words='a'),
            dict(sizes=[5, 5], flat=1), dict(sizes=[2], labels='AB',
                words='ab', lexical=1, extra=1, unary=1),
            dict(sizes=[3], labels='A', words='ab', lexical=1)],
        thorough=[dict(sizes=[3, 2], labels='A', words='ab'),
            dict(sizes=[2, 2, 1], labels='AB', words='a', cut=False)])),
    'ids': dict(fn=ids, reach=['ok'], params=dict(
        quick=[dict(n=4)], thorough=[dict(n=6)])),
}
