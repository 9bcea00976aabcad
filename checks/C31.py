"""Random generation of sentences with an LCFRS."""
import tlib
NEEDS = []
OUTSIDE = ('Larger grammars; derivations with more rule applications than the '
        'bound; rounding of floating point numbers in weights that are not '
        'dyadic; unary rules that merge components.')

YF2 = {  # binary yield functions by fan-out of (rhs1, rhs2)
    (1, 1): [((0, 1), ), ((1, 0), ), ((0, ), (1, ))],
    (2, 1): [((0, 1, 0), ), ((0, 1), (0, )), ((0, ), (0, 1)), ((0, 0, 1), )],
    (1, 2): [((1, 0, 1), ), ((1, ), (0, 1)), ((0, 1), (1, ))],
    (2, 2): [((0, 1, 0, 1), ), ((0, 1), (0, 1)), ((0, 1, 1, 0), ),
        ((0, 1), (1, 0))]}


def draws(ctx, limit):
    """Stand-in for random(); the numbers drawn are recorded."""
    seen = []

    def random():
        ctx.assume(len(seen) < limit)
        u = ctx.real('u', 0, 1)
        ctx.assume(u < 1)
        seen.append(u)
        return u
    return random, seen


def choosing(ctx):
    """A rule is chosen when the number drawn lies in its part of the unit
    interval, proportional to its (discounted) weight."""
    g = ctx.mod('gen')
    p = ctx.params
    k = ctx.pick('k', p['k'])
    ws = [ctx.pick('w', p['weights']) for _ in range(k)]
    counts = [ctx.pick('c', p['counts']) for _ in range(k + 1)]
    d = ctx.pick('discount', p.get('discounts', [1.0, .5, .75]))
    first = ctx.choice('first', 2)
    rules = [g.Rule(2, 3, 4, None, None, w, i + first)
            for i, w in enumerate(ws)]
    random, seen = draws(ctx, 1)
    g.random = random
    r = g.chooserule(rules, d, list(counts))
    ctx.check(len(seen) == 1, 'one number drawn')
    n = r.no - first
    ctx.check(r is rules[n], 'rule')
    eff = [w * d ** counts[i + first] for i, w in enumerate(ws)]
    pos = seen[0] * sum(eff)
    ctx.check(ctx.And(pos >= sum(eff[:n]), pos < sum(eff[:n + 1])), 'choice')
    ctx.reach('first' if n == 0 else 'later')
    ctx.observe(n)


def fanout(yf):
    return len(yf)


def makerules(ctx, p):
    """A grammar for labels of increasing fan-out; [(rule, yf), weight]."""
    word = iter('abcdefghijklmnop')
    rules = []

    def lex(tag):
        rules.append((((tag, 'Epsilon'), (next(word), )),
                ctx.pick('lw', p['lexweights'])))
    for tag in 'PQ':
        for _ in range(ctx.pick('words', p['words'])):
            lex(tag)
    # phrasal labels A, B, .. each defined in terms of previous labels
    fan = {'P': 1, 'Q': 1}
    names = 'AB'[:p['labels']]
    for lab in names:
        f = None
        for i in range(ctx.pick('rules', p['rules'])):
            known = sorted(fan)
            x, y = ctx.pick('x', known), ctx.pick('y', known)
            yfs = [a for a in YF2[fan[x], fan[y]] if f is None or len(a) == f]
            ctx.assume(yfs)
            yf = ctx.pick('yf', yfs)
            f = len(yf)
            rules.append((((lab, x, y), yf), ctx.pick('w', p['weights'])))
        if f == 1 and ctx.flag('alsolex'):
            lex(lab)
        fan[lab] = f
    last = names[-1]
    rules.append(((('ROOT', last), ((0, ), ) * fan[last]), 0.5))
    if p.get('rename'):
        # no extra label; the order of rules should be immaterial
        rules.reverse()
    return rules


def derivations(rules, lab):
    """All (probability, components) of a non-recursive grammar."""
    out = []
    for (r, yf), w in rules:
        if r[0] != lab:
            continue
        if r[1] == 'Epsilon':
            out.append((w, [[yf[0]]]))
        elif len(r) == 2:
            out.extend((w * a, b) for a, b in derivations(rules, r[1]))
        else:
            for p1, l1 in derivations(rules, r[1]):
                for p2, l2 in derivations(rules, r[2]):
                    it = iter(l1), iter(l2)
                    res = []
                    for comp in yf:
                        x = []
                        for b in comp:
                            x.extend(next(it[b]))
                        res.append(x)
                    out.append((w * p1 * p2, res))
    return out


def sentence(ctx):
    """The generated components and probability are those of a derivation,
    and every derivation can be generated."""
    g = ctx.mod('gen')
    p = ctx.params
    rules = makerules(ctx, p)
    grammar = g.splitgrammar(list(rules))
    g.random, _ = draws(ctx, 20)
    # ask for one of the derivations; is it generated for some numbers?
    ders = derivations(rules, 'ROOT')
    prob, comps = g.gen(grammar, start=grammar.toid['ROOT'])
    ctx.check(any(comps == c and abs(prob - q) < 1e-6 for q, c in ders),
            'yield and probability of a derivation')
    for n, (q, c) in enumerate(ders):
        if c == comps and abs(prob - q) < 1e-6:
            ctx.reach('derivation %d' % n)
    if len(ders) > 1:
        ctx.reach('several')
    ctx.observe(comps)


def recursion(ctx):
    """With a recursive rule, the sentence is determined by the numbers
    drawn: each application inside itself is discounted."""
    g = ctx.mod('gen')
    p = ctx.params
    w1, w2 = ctx.pick('w', p['weights']), ctx.pick('v', [.5, .25])
    d = ctx.pick('discount', [1.0, 0.5, 0.75])
    rules = [((('ROOT', 'S'), ((0, ), )), 0.5),
            ((('S', 'P', 'S'), ((0, 1), )), w1),
            ((('S', 'Q'), ((0, ), )), w2),
            ((('P', 'Epsilon'), ('a', )), 1.0),
            ((('Q', 'Epsilon'), ('b', )), 1.0)]
    if ctx.flag('reverse'):
        rules.reverse()
    grammar = g.splitgrammar(list(rules))
    g.random, seen = draws(ctx, p['limit'])
    prob, comps = g.gen(grammar, start=grammar.toid['ROOT'], discount=d)
    words, = comps
    n = len(words) - 1
    ctx.check(words == ['a'] * n + ['b'], 'words')
    ctx.check(abs(prob - .5 * w1 ** n * w2) < 1e-6, 'probability')
    # number of draws: ROOT, n times (S, P), S, Q in either order
    ctx.check(len(seen) == 3 + 2 * n, 'one number for each rule')
    # each count starts at one
    sno = [a[0][0][0] for a in rules].index('S')
    firstis = rules[sno][0][0][1] == 'P'
    for m in range(n + 1):
        e1, e2 = w1 * d ** (m + 1), w2 * d
        u = seen[1 + 2 * m] * (e1 + e2)
        rec = u < e1 if firstis else u >= e2
        ctx.check(rec if m < n else ctx.Not(rec), 'choice at depth')
    ctx.reach('recursive' if n > 1 else 'base')
    ctx.observe(n)


def vectors(ctx):
    """arraytoyf is the inverse of yfarray, and bit n of a component is the
    n-th element."""
    g = ctx.mod('gen')
    yf = []
    for _ in range(ctx.pick('fanout', ctx.params['fanout'])):
        yf.append(tuple(ctx.choice('b', 2) for _ in range(
                ctx.pick('len', ctx.params['len']))))
    yf = tuple(yf)
    args, lengths = g.yfarray(yf)
    ctx.check(list(lengths) == [len(a) for a in yf], 'lengths')
    ctx.check(list(args) == [sum(b << n for n, b in enumerate(a))
            for a in yf], 'bits')
    ctx.check(g.arraytoyf(args, lengths) == yf, 'inverse')
    ctx.reach('ok')
    ctx.observe(yf)


def tables(ctx):
    """splitgrammar stores each rule once in each table, under the right
    label, with its weight; labels are numbered uniquely."""
    g = ctx.mod('gen')
    p = ctx.params
    rules = []
    for _ in range(p['n']):
        kind = ctx.pick('kind', ['unary', 'binary', 'lex'])
        lab = ctx.string('l', p['alphabet'], 1, 1)
        x, y = (ctx.string('r', p['alphabet'], 1, 1) for _ in range(2))
        w = ctx.pick('w', p['weights'])
        if kind == 'lex':
            rules.append((((lab, 'Epsilon'), (x, )), w))
        elif kind == 'unary':
            rules.append((((lab, x), ((0, ), )), w))
        else:
            yf = ctx.pick('yf', [((0, 1), ), ((1, 0), )])
            rules.append((((lab, x, y), yf), w))
    grammar = g.splitgrammar(list(rules))
    ctx.check(grammar.numrules == len(rules), 'numrules')
    ctx.check(grammar.tolabel[0] == 'Epsilon'
            and grammar.tolabel[1] == 'ROOT', 'special labels')
    for (r, yf), w in rules:
        for lab in r:
            ctx.check(grammar.tolabel[grammar.toid[lab]] == lab, 'labels')
    labs = [grammar.tolabel[n] for n in range(len(grammar.bylhs))]
    for n, a in enumerate(labs):
        for b in labs[:n]:
            ctx.check(ctx.Not(a == b), 'unique labels')
    got = dict(bylhs=[], unary=[], lbinary=[], rbinary=[])
    for name in got:
        for n, bucket in enumerate(getattr(grammar, name)):
            for r in bucket:
                key = dict(bylhs=r.lhs, unary=r.rhs1, lbinary=r.rhs1,
                        rbinary=r.rhs2)[name]
                ctx.check(key == n, name)
                got[name].append(r)
    lexlhs = []
    for lhs, bucket in grammar.lexicalbylhs.items():
        for r in bucket:
            ctx.check(r.lhs == lhs, 'lexicalbylhs')
            lexlhs.append(r)
    lexword = []
    for word, bucket in grammar.lexicalbyword.items():
        for r in bucket:
            ctx.check(r.word == word, 'lexicalbyword')
            lexword.append(r)
    kinds = [(r[1] == 'Epsilon', len(r)) for (r, yf), w in rules]
    nos = [[n for n, (lex, _) in enumerate(kinds) if lex],
            [n for n, (lex, k) in enumerate(kinds) if not lex],
            [n for n, (lex, k) in enumerate(kinds) if not lex and k == 2],
            [n for n, (lex, k) in enumerate(kinds) if k == 3]]

    def numbers(rs):
        return sorted(r.no for r in rs)
    ctx.check(numbers(lexlhs) == nos[0] and numbers(lexword) == nos[0],
            'lexical rules')
    ctx.check(numbers(got['bylhs']) == nos[1], 'bylhs: rules')
    ctx.check(numbers(got['unary']) == nos[2], 'unary: rules')
    ctx.check(numbers(got['lbinary']) == nos[3], 'lbinary: rules')
    ctx.check(numbers(got['rbinary']) == nos[3], 'rbinary: rules')
    for r in got['bylhs'] + lexlhs:
        (rule, yf), w = rules[r.no]
        ctx.check(grammar.tolabel[r.lhs] == rule[0], 'LHS of rule')
        ctx.check(abs(r.prob - w) < 1e-6, 'weight of rule')
        if rule[1] == 'Epsilon':
            ctx.check(r.word == yf[0], 'word')
            continue
        ctx.check(grammar.tolabel[r.rhs1] == rule[1], 'RHS of rule')
        if len(rule) == 3:
            ctx.check(grammar.tolabel[r.rhs2] == rule[2], 'RHS of rule')
        else:
            ctx.check(r.rhs2 == 0, 'RHS of unary')
        ctx.check(g.arraytoyf(r.args, r.lengths) == yf, 'yield function')
    ctx.reach('ok')
    ctx.observe(len(lexlhs))


WEIGHTS = [('1', 1.0), ('0.5', .5), ('3/8', .375), ('2/1', 2.0)]


def reading(ctx):
    """The readers return each rule of a grammar file; rules written by
    writegrammar are read back."""
    g, gr = ctx.mod('gen'), ctx.mod('grammar')
    p = ctx.params
    bitpar = ctx.flag('bitpar')
    integral = True
    grammar = []
    for _ in range(p['n']):
        w = ctx.pick('w', p['bitparweights'] if bitpar else p['weights'])
        kind = ctx.pick('kind', ['unary', 'binary', 'lex'])
        lab, x, y = (ctx.string('l', p['alphabet'], 1, 1) for _ in range(3))
        if kind == 'lex':
            # the lexicon is grouped by word
            word = ctx.string('w', p['alphabet'], 1, 1)
            grammar.append((((lab, 'Epsilon'), (word, )), w))
        elif kind == 'unary':
            grammar.append((((lab, x), ((0, ), )), w))
        else:
            yf = ((0, 1), ) if bitpar else ctx.pick('yf',
                    [((0, 1), ), ((0, ), (0, 1)), ((1, 0, 1), )])
            grammar.append((((lab, x, y), yf), w))
        integral = integral and int(w) == w
    # phrasal rules come first
    want = [a for a in grammar if a[0][0][1] != 'Epsilon']
    lex = [a for a in grammar if a[0][0][1] == 'Epsilon']
    words = []
    for a in lex:
        for b in words:
            if bool(b[0] == a[0][1][0]):
                b[1].append(a)
                break
        else:
            words.append((a[0][1][0], [a]))
    want = want + [a for _, b in words for a in b]
    rules, lexicon = gr.writegrammar(grammar, bitpar=bitpar)
    rules, lexicon = lines(rules), lines(lexicon)
    if bitpar:
        got = g.read_bitpar_grammar(rules, lexicon)
        if integral:
            tot = []
            for (r, yf), w in want:
                tot.append(sum(ctx.If(a[0][0][0] == r[0], int(a[1]), 0)
                        for a in want))
    else:
        got = g.read_lcfrs_grammar(rules, lexicon)
    ctx.check(len(got) == len(want), 'number of rules')
    for n, (a, b) in enumerate(zip(got, want)):
        (r1, yf1), w1 = a
        (r2, yf2), w2 = b
        ctx.check(len(r1) == len(r2)
                and ctx.And(*[x == y for x, y in zip(r1, r2)]), 'labels')
        ctx.check(yf1[0] == yf2[0] if r2[1] == 'Epsilon'
                else tuple(yf1) == yf2, 'yield function or word')
        if bitpar and integral:
            # exact up to rounding
            diff = w1 * tot[n] - w2
            ctx.check(ctx.And(diff < 1e-6, diff > -1e-6),
                    'relative frequency')
        else:
            ctx.check(w1 == w2, 'weight')
    ctx.reach(('integral' if integral else 'weights') if bitpar
            else 'plcfrs')
    ctx.observe(len(got))


def lines(text):
    """Lines without separating newlines."""
    return text.split('\n')[:-1]


def command(ctx):
    """The command reads a grammar in either format from files and prints
    twenty derivable sentences."""
    import sys
    g = ctx.mod('gen')
    p = ctx.params
    fmt = ctx.pick('fmt', ['plcfrs', 'bitpar'])
    start = ctx.pick('start', ['ROOT', 'S'])
    n = ctx.pick('number', [1, 2])
    if fmt == 'plcfrs':
        rules = 'ROOT\tS\t0\t1\nS\tNP\tVP\t01,0\t1\n'.replace('01,0', '01')
        lex = 'he\tNP 1\nruns\tVP 1/2\n' + (
                'sleeps\tVP 1/2\n' if n == 2 else '')
    else:
        rules = '2\tROOT\tS\n2\tS\tNP\tVP\n'
        lex = 'he\tNP 2\nruns\tVP 1\n' + (
                'sleeps\tVP 1\n' if n == 2 else '')
    out = []

    def show(*args, **kwargs):
        out.append((args, kwargs))
    g.print = show
    argv = ['gen']
    if start != 'ROOT':
        argv += ['-s', start]
    argv += [ctx.file('rules', rules), ctx.file('lexicon', lex)]
    old = g.sys.argv
    try:
        g.sys.argv = argv
        g.random = lambda: .25
        g.main()
    finally:
        g.sys.argv = old
        del g.print
    ctx.check(len(out) == 20, 'twenty sentences')
    prob = .5 if n == 2 or fmt == 'plcfrs' else 1
    for args, kwargs in out:
        ctx.check(len(args) == 1 and not kwargs
                and args[0] == '[%g] he runs' % prob, 'sentence')
    ctx.reach(fmt)
    ctx.observe(len(out))


HARNESSES = {
    'choose': dict(fn=choosing, reach=['first', 'later'], params=dict(
        quick=[dict(k=[1, 2, 3], weights=[1.0, .25], counts=[1, 2], discounts=[1.0, .5])],
        thorough=[dict(k=[3, 4], weights=[1.0, .5, 2.0],
            counts=[0, 1, 2])])),
    'sentence': dict(fn=sentence, reach=['derivation 0', 'derivation 1',
        'several'], params=dict(
        quick=[dict(labels=2, rules=[1], words=[1], weights=[1.0],
            lexweights=[.5]),
            dict(labels=1, rules=[2], words=[2], weights=[.25],
            lexweights=[.5, .25]),
            dict(labels=1, rules=[1, 2], words=[1, 2], weights=[.5],
            lexweights=[.5], rename=1)],
        thorough=[dict(labels=2, rules=[1, 2], words=[1, 2], weights=[.5],
            lexweights=[.5])])),
    'recursion': dict(fn=recursion, reach=['base', 'recursive'], params=dict(
        quick=[dict(weights=[.5, .25, 1.0], limit=9)],
        thorough=[dict(weights=[.5, .25, 1.0], limit=17)])),
    'vectors': dict(fn=vectors, reach=['ok'], params=dict(
        quick=[dict(fanout=[1, 2], len=[1, 2, 3]),
            dict(fanout=[3], len=[1, 2])],
        thorough=[dict(fanout=[1, 2, 3], len=[1, 2, 3, 4])])),
    'tables': dict(fn=tables, reach=['ok'], params=dict(
        quick=[dict(n=2, alphabet='AB', weights=[.5, .25]),
            dict(n=3, alphabet='A', weights=[.5])],
        thorough=[dict(n=3, alphabet='AB', weights=[.5, .25])])),
    'reading': dict(fn=reading, reach=['integral', 'weights', 'plcfrs'],
        params=dict(
        quick=[dict(n=2, alphabet='AB', weights=[1.0, .375],
            bitparweights=[1.0, 3.0, .5])],
        thorough=[dict(n=3, alphabet='AB', weights=[1.0, .375],
            bitparweights=[1.0, 3.0, .5])])),
    'command': dict(fn=command, reach=['plcfrs', 'bitpar'], params=dict(
        quick=[{}], thorough=[{}])),
}
