"""LCFRS parser: combining spans, and charts with precisely the derivable
items and edges, with Viterbi costs."""
from plib import Gram, eq, le
import C25
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'probe']
OUTSIDE = ('Longer sentences, larger grammars; floating-point rounding of '
        'sums of costs (exact reals); costs of derivations that exceed '
        'MAX_LOGPROB (300); context-summary estimates; the C++ containers '
        '(hash maps, vectors, agenda), which are modelled by their '
        'documented behaviour.')
ASSUMPTIONS = ['costs are positive reals', 'C++ containers behave as '
        'documented']


# -- yield functions -------------------------------------------------------
def runs(pos):
    """Split sorted positions into maximal contiguous ranges."""
    result = []
    for a in pos:
        if result and result[-1][1] == a:
            result[-1] = (result[-1][0], a + 1)
        else:
            result.append((a, a + 1))
    return result


def compose(yf, left, right=None):
    """Positions covered by applying yield function yf; None if it does not
    apply."""
    if right is None:
        return left
    if set(left) & set(right):
        return None
    todo = [runs(left), runs(right)]
    end = -1
    for comp in yf:
        for n, side in enumerate(comp):
            if not todo[side]:
                return None
            a, b = todo[side].pop(0)
            if n and a != end or not n and a <= end:
                return None
            end = b
    if todo[0] or todo[1]:
        return None
    return tuple(sorted(left + right))


def allyfs(maxlen):
    """All yield functions of binary rules with up to maxlen variables."""
    result = []
    for size in range(2, maxlen + 1):
        for args in range(1 << size):
            for gaps in range(1 << (size - 1)):
                comps = [[args & 1]]
                for n in range(1, size):
                    if gaps >> (n - 1) & 1:
                        comps.append([])
                    comps[-1].append(args >> n & 1)
                yf = tuple(map(tuple, comps))
                if (len(set(sum(yf, ()))) == 2 and all(a != b
                        for c in yf for a, b in zip(c, c[1:]))):
                    result.append(yf)
    return result


def bit(vec, n):
    return vec[n >> 6] >> (n & 63) & 1 == 1


def accepts(ctx, yf, left, right, width):
    """Whether the vectors compose according to yf, as a formula: an
    automaton reads the positions from left to right."""
    segs = []  # (side, is there a gap before this segment)
    for c in yf:
        for n, side in enumerate(c):
            segs.append((side, n == 0 and bool(segs)))
    n = len(segs)
    # state: (number of segments started, is the last one still open)
    state = {(0, False): True}
    for i in range(width):
        l, r = bit(left, i), bit(right, i)
        none = ctx.And(ctx.Not(l), ctx.Not(r))
        sides = [ctx.And(l, ctx.Not(r)), ctx.And(r, ctx.Not(l))]
        new = {}
        for (k, isopen), cond in state.items():
            new.setdefault((k, False), []).append(ctx.And(cond, none))
            if isopen:
                new.setdefault((k, True), []).append(
                        ctx.And(cond, sides[segs[k - 1][0]]))
            if k < n:
                side, gap = segs[k]
                if k == 0 or gap and not isopen or not gap and isopen:
                    new.setdefault((k + 1, True), []).append(
                            ctx.And(cond, sides[side]))
        state = {key: ctx.Or(*conds) for key, conds in new.items()}
    return ctx.Or(*[c for (k, _), c in state.items() if k == n])


def concat(ctx):
    """concat() accepts two vectors iff they compose according to the yield
    function of the rule; the result is their union."""
    p = ctx.params
    yfs = [yf for yf in allyfs(p['maxlen']) if yf[0][0] == 0 or p.get('all')]
    yf = yfs[ctx.choice('yf', len(yfs))]
    args = lengths = n = 0
    for c in yf:
        for a in c:
            args |= a << n
            n += 1
        lengths |= 1 << (n - 1)
    slots = 2 if p['fat'] else 1
    # sentences of 64 words do not use SmallChartItem
    width = 128 if p['fat'] else 63
    left = [ctx.bv('l', 64) for _ in range(slots)]
    right = [ctx.bv('r', 64) for _ in range(slots)]
    if not p['fat']:
        ctx.assume(ctx.And(left[0] >> 63 == 0, right[0] >> 63 == 0))
    if p.get('window'):  # only bits in a window around the border of words
        a = p['window']
        for v in (left, right):
            ctx.assume(v[0] & ((1 << (64 - a)) - 1) == 0)
            ctx.assume(v[1] >> a == 0)
    if p.get('high'):
        for v in (left, right):
            ctx.assume(v[0] == 0)
            ctx.assume(v[1] & ((1 << (64 - p['high'])) - 1) == 0)
    if p.get('low'):
        for v in (left, right):
            ctx.assume(v[0] >> p['low'] == 0)
            if slots == 2:
                ctx.assume(v[1] == 0)
    # items have the fan-out that the rule expects
    for side, v in ((0, left), (1, right)):
        x = v[0] if slots == 1 else (v[1] << 64) | v[0]
        for _ in range(sum(c.count(side) for c in yf)):
            ctx.assume(x != 0)
            x = x & (x + (x & (~x + 1)))  # drop lowest run
        ctx.assume(x == 0)
    got = ctx.mod('plcfrs').probe_concat(args, lengths, left, right,
            bool(p['fat']))
    want = accepts(ctx, yf, left, right, width)

    if got is None:
        ctx.reach('no')
        ctx.check(ctx.Not(want), 'vectors that compose are rejected')
        return
    ctx.reach('yes')
    ctx.check(want, 'vectors that do not compose are accepted')
    for g, l, r in zip(got, left, right):
        ctx.check(g == l | r, 'union')


# -- charts ----------------------------------------------------------------
def closure(gr, sent, tags=None, allowed=None, active=None, barred=None):
    """Items (label, positions) and instances of rules that derive them."""
    edges = {}
    for i, w in enumerate(sent):
        w = C25.lexword(gr, w)
        for m, (tag, word) in enumerate(gr.lexicon):
            if word == w and (allowed is None or allowed(tag, (i, ))):
                edges.setdefault((tag, (i, )), []).append(
                        ('lex', m, None, None))
    new = True
    while new:
        new = False
        for m, (r, yf) in enumerate(gr.rules):
            if active is not None and not active[m]:
                continue
            first = [x for x in edges if x[0] == r[1] and x != barred]
            second = [None] if len(r) == 2 else [
                    x for x in edges if x[0] == r[2] and x != barred]
            for a in first:
                for b in second:
                    pos = compose(yf, a[1], None if b is None else b[1])
                    if pos is None or (allowed is not None
                            and not allowed(r[0], pos)):
                        continue
                    es = edges.setdefault((r[0], pos), [])
                    if ('rule', m, a, b) not in es:
                        es.append(('rule', m, a, b))
                        new = True
    return edges


def readchart(ctx, gr, chart, sent, msg=''):
    """Chart as: items by number, costs by item, edges by item."""
    pr = ctx.mod('probe')
    ids = {}
    for lab in gr.labels:
        ids[pr.labelid(gr.grammar, lab)] = lab
    items, cost, edges = {}, {}, {}
    for x in pr.items(chart):
        if not pr.edges(chart, x):
            continue  # blocked
        item = (ids[pr.label(chart, x)], tuple(chart.indices(x)))
        ctx.check(item not in cost, msg + 'item occurs once')
        items[x] = item
        cost[item] = pr.cost(chart, x)
    for x, item in items.items():
        got = []
        for no, left, right, word in pr.edges(chart, x):
            if no == -1:
                ctx.check((word, ) == item[1], msg + 'word of lexical edge')
                m = [m for m, (tag, w) in enumerate(gr.lexicon)
                        if tag == item[0]
                        and w == C25.lexword(gr, sent[word])]
                ctx.check(len(m) == 1, msg + 'lexical edge')
                got.append(('lex', m[0], None, None))
                continue
            r = gr.rules[no][0]
            a = items.get(left)
            b = items.get(right) if len(r) == 3 else None
            ctx.check(a is not None and (len(r) == 2 or b is not None),
                    msg + 'children of edge are in the chart')
            got.append(('rule', no, a, b))
        ctx.check(len(set(got)) == len(got), msg + 'edges occur once')
        edges[item] = got
    return items, cost, edges


def checkchart(ctx, gr, chart, sent, edges, msg='', start=None):
    items, cost, got = readchart(ctx, gr, chart, sent, msg)
    ctx.check(sorted(cost) == sorted(edges), msg + 'derivable items')
    for item in got:
        ctx.check(sorted(map(str, got[item])) == sorted(map(str,
                edges[item])), msg + 'edges are the instances of rules')
        C25.checkcost(ctx, gr, item, cost, edges, msg)
    root = (start or gr.grammar.start, tuple(range(len(sent))))
    ctx.check(bool(chart) == (root in edges), msg + 'success of parse')
    if root in edges:
        ctx.check(items.get(chart.root()) == root, msg + 'root item')
    return items, cost


def grammar(ctx, p):
    rules = [((tuple(r), tuple(map(tuple, yf)))) for r, yf in p['rules']]
    for r, yf in p.get('maybe', ()):
        if ctx.flag('rule'):
            rules.append((tuple(r), tuple(map(tuple, yf))))
    lexicon = list(p['lexicon'])
    seen = [r[0] for r, _ in rules] + [a for a, _ in lexicon]
    for r, _ in rules:
        for a in r[1:]:
            ctx.assume(a in seen)
    fixed = None
    n = len(rules) + len(lexicon)
    if p.get('unit'):
        fixed = [1 + m / 8. for m in range(n)]
    elif 'symbolic' in p:
        fixed = [ctx.real('c', 0.25, 8) if m in p['symbolic'] else 1 + m / 8.
                for m in range(n)]
    return Gram(ctx, rules, lexicon, fixed=fixed, hi=p.get('hi', 8))


def parser(ctx, p):
    mod = ctx.mod('plcfrs')
    return mod.probe_fat if p.get('fat') else mod.parse


def parsing(ctx):
    """Exhaustive parsing without pruning."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    chart, msg = parser(ctx, p)(sent, gr.grammar)
    if not C25.covered(gr, sent):
        ctx.check(not chart, 'no parse with unknown word')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('unknown word')
        return
    edges = closure(gr, sent)
    items, cost = checkchart(ctx, gr, chart, sent, edges)
    ok = ('S', tuple(range(len(sent)))) in edges
    ctx.check(('no parse' in msg) == (not ok), 'message')
    if p.get('lookup'):
        lookup(ctx, gr, chart, sent, cost)
    ctx.reach('parse' if ok else 'no parse')
    if p.get('filter') and ok:
        C25.filtering(ctx, gr, chart, edges, items, cost)
        ctx.reach('filter')
    ctx.observe(len(edges), ok)


def lookup(ctx, gr, chart, sent, cost):
    pr = ctx.mod('probe')
    n = len(sent)
    for lab in gr.labels:
        for bits in range(1, 1 << n):
            pos = tuple(i for i in range(n) if bits >> i & 1)
            x = chart.itemid(lab, list(pos))
            ctx.check(bool(x) == ((lab, pos) in cost),
                    'item is found iff derivable')
            if x:
                ctx.check(eq(pr.cost(chart, x), cost[lab, pos]),
                        'itemid gives the item')
    for i in range(n):
        for j in range(i + 1, n + 1):
            cell = [cost[x] for x in cost if x[1] == tuple(range(i, j))
                    and '*' not in x[0] and '<' not in x[0]]
            x = chart.bestsubtree(i, j)
            ctx.check(bool(x) == bool(cell), 'best subtree exists')
            if x:
                for c in cell:
                    ctx.check(le(pr.cost(chart, x), c), 'best subtree')
    ctx.check(not chart.itemid('NOSUCH', [0]), 'unknown label')


def first(ctx):
    """Without exhaustive parsing, the best derivation is found."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    full, _ = parser(ctx, p)(sent, gr.grammar)
    chart, msg = parser(ctx, p)(sent, gr.grammar, exhaustive=False)
    edges = closure(gr, sent)
    root = ('S', tuple(range(len(sent))))
    ctx.check(bool(chart) == (root in edges), 'success of parse')
    items, cost, got = readchart(ctx, gr, chart, sent)
    for item in got:
        ctx.check(item in edges and all(e in edges[item]
                for e in got[item]), 'item is derivable')
    if root in edges:
        pr = ctx.mod('probe')
        ctx.check(eq(pr.cost(chart, chart.root()),
                pr.cost(full, full.root())), 'cost of best derivation')
        ctx.reach('best')
    ctx.observe(bool(chart))


def goldtags(ctx):
    """Given tags restrict the tags of words."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    tags = [ctx.pick('tag', p['tags']) for _ in sent]
    chart, msg = parser(ctx, p)(sent, gr.grammar, tags=tags)
    zero, tagged = [], []
    for i, (w, t) in enumerate(zip(sent, tags)):
        m = [tag for tag, word in gr.lexicon if word == w
                and (not t or C25.matchtag(tag, t))]
        if not m and t:
            # tags are used even if not seen with the word
            m = [a for a in dict.fromkeys(tag for tag, _ in gr.lexicon)
                    if C25.matchtag(a, t)]
            zero += [(a, i) for a in m]
        tagged.append(m)
    if not all(tagged):
        ctx.check(not chart, 'no parse without tag')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('no tag')
        return
    lex2, costs2 = [], []
    for i, m in enumerate(tagged):
        for a in m:
            lex2.append((a, i))
            if (a, i) in zero:
                costs2.append(0)
                ctx.reach('unseen tag')
            else:
                costs2.append(gr.lexcost[gr.lexicon.index((a, sent[i]))])
    gr2 = C25.Other(gr, lex2, costs2)
    edges = closure(gr2, list(range(len(sent))))
    checkchart(ctx, gr2, chart, list(range(len(sent))), edges)
    ctx.reach('tags')
    ctx.observe(len(edges))


def masking(ctx):
    """Rules that are masked are not used; the mask can be removed."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    active = [bool(ctx.flag('active')) for _ in gr.rules]
    gr.grammar.setmask([n for n, a in enumerate(active) if a])
    chart, msg = parser(ctx, p)(sent, gr.grammar)
    edges = closure(gr, sent, active=active)
    checkchart(ctx, gr, chart, sent, edges, 'mask: ')
    gr.grammar.setmask(None)
    chart, msg = parser(ctx, p)(sent, gr.grammar)
    checkchart(ctx, gr, chart, sent, closure(gr, sent), 'unmask: ')
    ctx.reach('mask')
    ctx.observe(active, len(edges))


def startsymbol(ctx):
    """Parsing with another start symbol."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    lab = ctx.pick('start', gr.labels)
    chart, msg = parser(ctx, p)(sent, gr.grammar, start=lab)
    goal = (lab, tuple(range(len(sent))))
    # the goal is not used as part of other items
    edges = closure(gr, sent, barred=goal)
    checkchart(ctx, gr, chart, sent, edges, start=lab)
    ctx.check(bool(chart) == (goal in closure(gr, sent)), 'parse')
    ctx.reach('start' if goal in edges else 'no parse')
    ctx.observe(len(edges))


def spans(ctx, p, sent, fanout):
    """Sets of positions, by number of components."""
    n = len(sent)
    result = []
    for bits in range(1, 1 << n):
        pos = tuple(i for i in range(n) if bits >> i & 1)
        if len(runs(pos)) == fanout:
            result.append(pos)
    return result


def fanouts(gr):
    result = {tag: 1 for tag, _ in gr.lexicon}
    for r, yf in gr.rules:
        result[r[0]] = len(yf)
    return result


def whitelisting(ctx):
    """Only items in the whitelist enter the chart; labels that are not
    mapped to a coarse label are not pruned."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    pr = ctx.mod('probe')
    never = None
    if p.get('never'):
        import re
        never = re.compile(p['never'])
    gr.grammar.getmapping(gr.grammar, None, never)
    fan = fanouts(gr)
    white, ok = [], []
    for lab in gr.labels:
        for pos in spans(ctx, p, sent, fan[lab]):
            if p.get('never') and lab == p['never']:
                ok.append((lab, pos))
            elif lab not in p['labels'] or ctx.flag('allow'):
                white.append((pr.labelid(gr.grammar, lab), list(pos)))
                ok.append((lab, pos))
    w = pr.lcfrswhitelist(gr.grammar, gr.grammar, white, bool(p.get('fat')))
    chart, msg = parser(ctx, p)(sent, gr.grammar, whitelist=w)
    if any(not any((tag, (i, )) in ok for tag, x in gr.lexicon if x == word)
            for i, word in enumerate(sent)):
        ctx.check(not chart, 'no parse when all tags are blocked')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('blocked tags')
        return
    edges = closure(gr, sent, allowed=lambda lab, pos: (lab, pos) in ok)
    items, cost = checkchart(ctx, gr, chart, sent, edges)
    for lab in gr.labels:
        for pos in spans(ctx, p, sent, fan[lab]):
            x = chart.itemid(lab, list(pos))
            ctx.check(bool(x and (x in chart)) == ((lab, pos) in cost),
                    'item is found')
    root = ('S', tuple(range(len(sent)))) in edges
    ctx.check(('no parse' in msg) == (not root), 'message')
    ctx.reach('parse' if root else 'no parse')
    ctx.observe(len(edges), root)


def splitpruning(ctx):
    """Discontinuous items are allowed iff each component is in the
    whitelist; with markorigin, components are distinguished."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    pr = ctx.mod('probe')
    fan = fanouts(gr)
    mark = p['markorigin']
    # a coarse grammar with the right labels
    coarse = []
    for lab in gr.labels:
        if fan[lab] == 1:
            coarse.append(lab)
        elif mark:
            coarse += ['%s*%d' % (lab, n) for n in range(fan[lab])]
        else:
            coarse.append(lab + '*')
    crules = [(((a, b), ((0, ), )), 1) for a, b in zip(coarse, coarse[1:])
            if b != 'S']
    crules += [(((a, 'Epsilon'), ('a', )), 1) for a in coarse if a != 'S']
    assert coarse[0] == 'S'
    cgr = ctx.mod('containers').Grammar(crules, start='S')
    gr.grammar.getmapping(cgr, None, None, True, bool(mark))
    white, ok = [], []
    n = len(sent)
    for lab in coarse:
        for i in range(n):
            for j in range(i + 1, n + 1):
                pos = tuple(range(i, j))
                if '*' not in lab or ctx.flag('allow'):
                    white.append((pr.labelid(cgr, lab), list(pos)))
                    ok.append((lab, pos))
    w = pr.lcfrswhitelist(gr.grammar, cgr, white, bool(p.get('fat')))

    def allowed(lab, pos):
        if fan[lab] == 1:
            return True
        return all(('%s*%s' % (lab, m if mark else ''), tuple(range(a, b)))
                in ok for m, (a, b) in enumerate(runs(pos)))
    chart, msg = parser(ctx, p)(sent, gr.grammar, whitelist=w,
            splitprune=True, markorigin=bool(mark))
    edges = closure(gr, sent, allowed=allowed)
    items, cost = checkchart(ctx, gr, chart, sent, edges)
    root = ('S', tuple(range(len(sent)))) in edges
    ctx.reach('parse' if root else 'no parse')
    ctx.observe(len(edges), root)


def beam(ctx):
    """Beam search: a subset of the chart; an item is only missing if its
    edges are beyond the beam of the best edge for the same span."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = C25.sentence(ctx, p)
    beta = ctx.real('beta', 0.25, 4)
    delta = ctx.pick('delta', p['delta'])
    chart, msg = parser(ctx, p)(sent, gr.grammar, beam_beta=beta,
            beam_delta=delta)
    full = closure(gr, sent)
    items, cost, edges = readchart(ctx, gr, chart, sent)
    for item in edges:
        ctx.check(item in full, 'item is derivable')
        for e in edges[item]:
            ctx.check(e in full[item], 'edge is an instance of a rule')
        C25.checkcost(ctx, gr, item, cost, edges)
    root = ('S', tuple(range(len(sent))))
    ctx.check(bool(chart) == (root in edges), 'success of parse')
    for pos in set(x[1] for x in full):
        cand = [(item, e) for item in full if item[1] == pos
                for e in full[item]
                if all(a is None or a in cost for a in e[2:])]
        total = [C25.edgecost(gr, e, cost) for _, e in cand]
        best = [c for c, (_, e) in zip(total, cand) if e[3] is not None]
        for c, (item, e) in zip(total, cand):
            missing = item not in edges or e not in edges[item]
            if not missing:
                continue
            ctx.check(e[3] is not None and len(pos) <= delta,
                    'edges not subject to beam are not pruned')
            ctx.check(ctx.Or(*[ctx.Not(le(c, b + beta)) for b in best]),
                    'edges within beam are not pruned')
            ctx.reach('pruned')
    ctx.reach('beam')
    ctx.observe(len(edges))


def long(ctx):
    """Sentences longer than a machine word; the gap in a constituent is at
    various positions."""
    p = ctx.params
    gr = grammar(ctx, p)
    n = ctx.pick('n', p['sizes'])
    at = ctx.pick('at', p['at'])
    ctx.assume(2 < at < n - 1)
    sent = (['p'] + ['x'] * (at - 2) + ['q', 'v', 'z']
            + ['x'] * (n - at - 2))
    edges = {}
    for i, w in enumerate(sent):
        edges[w.upper(), (i, )] = [('lex', [a for _, a in gr.lexicon].index(
                w), None, None)]
    prev = ('P', (0, ))
    for i in range(1, at):
        item = ('F' if i == at - 1 else 'E', tuple(range(i + 1)))
        rule = [r for r, _ in gr.rules].index(
                (item[0], prev[0], sent[i].upper()))
        edges[item] = [('rule', rule, prev, (sent[i].upper(), (i, )))]
        prev = item
    for i in range(at + 1, n):
        item = ('D', prev[1] + (i, ))
        rule = [r for r, _ in gr.rules].index(
                (item[0], prev[0], sent[i].upper()))
        edges[item] = [('rule', rule, prev, (sent[i].upper(), (i, )))]
        prev = item
        x = ('S', tuple(sorted(item[1] + (at, ))))
        edges[x] = [('rule', 0, item, ('V', (at, )))]
    chart, msg = ctx.mod('plcfrs').parse(sent, gr.grammar)
    checkchart(ctx, gr, chart, sent, edges)
    ctx.check(bool(chart), 'parse')
    ctx.reach('long')
    ctx.observe(len(edges))


HEAD = [(('S', 'P', 'V'), ((0, 1, 0), )), (('P', 'P', 'A'), ((0, ), (0, 1))),
        (('P', 'W', 'X'), ((0, ), (1, )))]
DISC = dict(rules=HEAD, lexicon=[('W', 'a'), ('V', 'a'), ('X', 'a'),
        ('A', 'a')], words=['a'])
NEG = dict(rules=[(('S', 'P', 'A'), ((0, 1, 0), )),
            (('S', 'A', 'P'), ((0, 1), (1, )))][:1]
        + [(('P', 'A', 'A'), ((0, ), (1, ))), (('P', 'P', 'A'),
            ((0, ), (0, 1)))],
        maybe=[(('P', 'P', 'A'), ((0, 1), (0, ))),
            (('S', 'P', 'P'), ((0, 1, 0, 1), )),
            (('P', 'P', 'P'), ((0, 1), (0, 1))),
            (('P', 'P', 'P'), ((0, 1), (1, 0))),
            (('A', 'P', 'A'), ((0, 1, 0), ))],
        lexicon=[('A', 'a')], words=['a'])
UN = dict(rules=[(('S', 'X'), ((0, ), )), (('X', 'Y'), ((0, ), )),
            (('Y', 'Z'), ((0, ), )), (('X', 'Z'), ((0, ), )),
            (('Z', 'A', 'A'), ((0, 1), )), (('Y', 'A', 'A'), ((0, 1), ))],
        lexicon=[('A', 'a')], words=['a'])
CYC = dict(rules=[(('S', 'X'), ((0, ), )), (('X', 'Y'), ((0, ), )),
            (('Y', 'X'), ((0, ), )), (('X', 'A'), ((0, ), )),
            (('Y', 'A'), ((0, ), )), (('X', 'X', 'A'), ((0, 1), ))],
        lexicon=[('A', 'a')], words=['a'])
TAGUN = dict(rules=[(('S', 'A'), ((0, ), )), (('A', 'B'), ((0, ), )),
            (('S', 'A', 'B'), ((0, 1), ))],
        lexicon=[('A', 'a'), ('B', 'a')], words=['a'])
TAGS = dict(rules=[(('S', 'A', 'B'), ((0, 1), )),
            (('S', 'A-x', 'B'), ((0, 1), )), (('S', 'A', 'A'), ((0, 1), )),
            (('S', 'B@1', 'A'), ((0, 1), ))],
        lexicon=[('A', 'a'), ('A-x', 'a'), ('AB', 'a'), ('B', 'b'),
            ('B@1', 'b')],
        words=['a', 'b', 'z'], tags=[None, '', 'A', 'B', 'Z'])
LONG = dict(rules=[(('S', 'D', 'V'), ((0, 1, 0), )),
            (('E', 'P', 'X'), ((0, 1), )), (('F', 'P', 'Q'), ((0, 1), )),
            (('E', 'E', 'X'), ((0, 1), )), (('F', 'E', 'Q'), ((0, 1), )),
            (('D', 'F', 'Z'), ((0, ), (1, ))),
            (('D', 'D', 'X'), ((0, ), (0, 1)))],
        lexicon=[('P', 'p'), ('Q', 'q'), ('V', 'v'), ('X', 'x'), ('Z', 'z')])
HARNESSES = {
    'concat': dict(fn=concat, reach=['yes', 'no'], params=dict(
        quick=[dict(maxlen=3, fat=0), dict(maxlen=3, fat=1, window=4),
            dict(maxlen=3, fat=1, high=5), dict(maxlen=4, fat=1, low=5)],
        thorough=[dict(maxlen=4, fat=0, all=1),
            dict(maxlen=3, fat=1, window=6, all=1),
            dict(maxlen=4, fat=1, high=7), dict(maxlen=5, fat=1, low=7)])),
    'parse': dict(fn=parsing, reach=['parse'], params=dict(
        quick=[
            dict(DISC, sizes=[1, 2, 3], lookup=True, symbolic=[0, 1, 2, 3]),
            dict(DISC, sizes=[4], lookup=True, filter=True, unit=True),
            dict(DISC, sizes=[4], lookup=True, filter=True, unit=True, fat=1),
            dict(NEG, sizes=[1, 2, 3], unit=True),
            dict(NEG, sizes=[4], unit=True, lookup=True),
            dict(NEG, sizes=[3], symbolic=[0, 1, 2, 3, 4], fat=1),
            dict(UN, sizes=[2], filter=True),
            dict(UN, sizes=[2], fat=1),
            dict(CYC, sizes=[1, 2], filter=True),
            dict(TAGUN, sizes=[1, 2]),
            ])),
    'first': dict(fn=first, reach=['best'], params=dict(
        quick=[dict(CYC, sizes=[1, 2])])),
    'goldtags': dict(fn=goldtags, reach=['tags', 'no tag', 'unseen tag'],
        params=dict(quick=[dict(TAGS, sizes=[2], unit=True),
            dict(TAGS, sizes=[2], fat=1, unit=True)])),
    'mask': dict(fn=masking, reach=['mask'], params=dict(
        quick=[dict(UN, sizes=[2], unit=True),
            dict(UN, sizes=[2], unit=True, fat=1),
            dict(NEG, sizes=[3], unit=True, maybe=[],
                rules=NEG['rules'] + NEG['maybe']),
            ])),
    'start': dict(fn=startsymbol, reach=['start'], params=dict(
        quick=[dict(UN, sizes=[1, 2]), dict(CYC, sizes=[1, 2]),
            dict(NEG, sizes=[3], unit=True, fat=1)])),
    'whitelist': dict(fn=whitelisting, reach=['parse', 'no parse'],
        params=dict(quick=[
            dict(NEG, maybe=NEG['maybe'][:1], sizes=[3], unit=True,
                labels=['P', 'A']),
            dict(NEG, maybe=[], sizes=[3], unit=True, labels=['P', 'S'],
                fat=1),
            dict(UN, sizes=[2], unit=True, labels=['A', 'X', 'Y']),
            dict(UN, sizes=[2], labels=['X', 'Y']),
            dict(UN, sizes=[2], unit=True, labels=['A', 'X', 'Y', 'Z'],
                never='Y'),
            dict(TAGUN, sizes=[2], unit=True, labels=['A', 'B']),
            ])),
    'split': dict(fn=splitpruning, reach=['parse', 'no parse'],
        params=dict(quick=[
            dict(NEG, maybe=[], sizes=[3], markorigin=True, unit=True),
            dict(NEG, maybe=[], sizes=[3], markorigin=True, fat=1,
                unit=True),
            dict(NEG, maybe=[], sizes=[3], markorigin=False, unit=True),
            dict(NEG, maybe=[], sizes=[3], markorigin=False, fat=1,
                unit=True),
            ])),
    'beam': dict(fn=beam, reach=['beam', 'pruned'], params=dict(
        quick=[dict(NEG, sizes=[3], symbolic=[0, 1, 2, 3], maybe=[],
            delta=[2, 9], rules=NEG['rules'] + [
                (('A', 'A', 'A'), ((0, 1), ))]),
            dict(UN, sizes=[2], delta=[9]),
            dict(UN, sizes=[2], delta=[9], fat=1)])),
    'long': dict(fn=long, reach=['long'], steps=10 ** 6, params=dict(
        quick=[dict(LONG, sizes=[63, 64, 128], at=[3, 63, 126],
            unit=True)])),
}
