"""Grammar objects and PCFG parser: charts contain precisely the derivable items and edges, with
Viterbi costs."""
import math
from plib import Gram, eq, le
NEEDS = ['bit', 'containers', 'pcfg', 'probe']
OUTSIDE = ('Longer sentences, larger grammars; floating-point rounding of '
        'sums of costs (exact reals); the C++ containers (hash maps, vectors, '
        'agenda), which are modelled by their documented behaviour.')
ASSUMPTIONS = ['costs are positive reals', 'C++ containers behave as '
        'documented']


def lexword(gr, w):
    """Words that are not in the lexicon are looked up in lower case."""
    if type(w) is int or any(w == x for _, x in gr.lexicon):
        return w
    return w.lower()


def closure(gr, sent, tags=None, allowed=None, active=None):
    """Items (label, start, end) and instances of rules that derive them."""
    n = len(sent)
    edges = {}
    for i, w in enumerate(sent):
        w = lexword(gr, w)
        for m, (tag, word) in enumerate(gr.lexicon):
            if word == w and (allowed is None or allowed(tag, i, i + 1)) and (
                    not tags or not tags[i] or matchtag(tag, tags[i])):
                edges.setdefault((tag, i, i + 1), []).append(
                        ('lex', m, None, None))
    for span in range(1, n + 1):
        for i in range(n - span + 1):
            j = i + span
            new = True
            while new:
                new = False
                for m, (r, _) in enumerate(gr.rules):
                    if active is not None and not active[m]:
                        continue
                    if allowed is not None and not allowed(r[0], i, j):
                        continue
                    if len(r) == 2:
                        cand = [((r[1], i, j), None)]
                    else:
                        cand = [((r[1], i, k), (r[2], k, j))
                                for k in range(i + 1, j)]
                    for a, b in cand:
                        if a in edges and (b is None or b in edges):
                            es = edges.setdefault((r[0], i, j), [])
                            if ('rule', m, a, b) not in es:
                                es.append(('rule', m, a, b))
                                new = True
    return edges


def matchtag(tag, gold):
    return tag == gold or tag[:len(gold)] == gold and tag[
            len(gold)] in '-@^/'


def readchart(ctx, gr, chart, sent, msg=''):
    """Chart as: items by number, costs by item, edges by item."""
    pr = ctx.mod('probe')
    n = len(sent)
    spans = {}
    for i in range(n):
        for j in range(i + 1, n + 1):
            spans[pr.cell(i, j, n, 1)] = (i, j)
    ids = {}
    for lab in gr.labels:
        ids[pr.labelid(gr.grammar, lab)] = lab
    items, cost, edges = {}, {}, {}
    for x in pr.items(chart):
        item = (ids[pr.label(chart, x)], ) + spans[pr.span(chart, x)]
        ctx.check(item not in cost, msg + 'item occurs once')
        items[x] = item
        cost[item] = pr.cost(chart, x)
        ctx.check(list(chart.indices(x)) == list(range(item[1], item[2])),
                msg + 'indices of item')
    for x, item in items.items():
        got = []
        for no, left, right, word in pr.edges(chart, x):
            if no == -1:
                ctx.check(word == item[1] and item[2] == word + 1,
                        msg + 'word of lexical edge')
                m = [m for m, (tag, w) in enumerate(gr.lexicon)
                        if tag == item[0] and w == lexword(gr, sent[word])]
                ctx.check(len(m) == 1, msg + 'lexical edge')
                got.append(('lex', m[0], None, None))
                continue
            r = gr.rules[no][0]
            a = items.get(left)
            b = items.get(right) if len(r) == 3 else None
            ctx.check(a is not None and (len(r) == 2 or b is not None),
                    msg + 'children of edge are in the chart')
            got.append(('rule', no, a, b))
        ctx.check(len(set(got)) == len(got), msg + 'edges occur once')
        edges[item] = got
    return items, cost, edges


def edgecost(gr, e, cost):
    kind, no, a, b = e
    if kind == 'lex':
        return gr.lexcost[no]
    c = gr.cost[no] + cost[a]
    return c if b is None else c + cost[b]


def checkcost(ctx, gr, item, cost, edges, msg=''):
    """Viterbi cost of an item is the lowest cost of its edges."""
    total = [edgecost(gr, e, cost) for e in edges[item]]
    for c in total:
        ctx.check(le(cost[item], c), msg + 'cost is a lower bound')
    ctx.check(ctx.Or(*[eq(cost[item], c) for c in total]),
            msg + 'cost is attained')


def checkchart(ctx, gr, chart, sent, edges, msg=''):
    items, cost, got = readchart(ctx, gr, chart, sent, msg)
    ctx.check(sorted(cost) == sorted(edges), msg + 'derivable items')
    for item in got:
        ctx.check(sorted(map(str, got[item])) == sorted(map(str,
                edges[item])), msg + 'edges are the instances of rules')
        checkcost(ctx, gr, item, cost, edges, msg)
    root = (gr.grammar.start, 0, len(sent))
    ctx.check(bool(chart) == (root in edges), msg + 'success of parse')
    if root in edges:
        ctx.check(items.get(chart.root()) == root, msg + 'root item')
    return items, cost


def grammar(ctx, p, **kwargs):
    rules = [r for r in p['rules']]
    for r in p.get('maybe', ()):
        if ctx.flag('rule'):
            rules.append(r)
    lexicon = list(p['lexicon'])
    for a in p.get('maybelex', ()):
        if ctx.flag('lex'):
            lexicon.append(a)
    seen = [r[0] for r in rules] + [a for a, _ in lexicon]
    for r in rules:
        for a in r[1:]:
            ctx.assume(a in seen)
    ctx.assume('S' in seen)
    if p.get('unit'):
        kwargs['fixed'] = [1 + n / 8. for n in range(
                len(rules) + len(lexicon))]
    return Gram(ctx, rules, lexicon, **kwargs)


def sentence(ctx, p):
    n = ctx.pick('n', p['sizes'])
    return [ctx.pick('w', p['words']) for _ in range(n)]


def covered(gr, sent):
    return all(any(lexword(gr, w) == x for _, x in gr.lexicon)
            for w in sent)


def parsing(ctx):
    """Exhaustive parsing without pruning."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = sentence(ctx, p)
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar)
    if not covered(gr, sent):
        ctx.check(not chart, 'no parse with unknown word')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('unknown word')
        return
    edges = closure(gr, sent)
    items, cost = checkchart(ctx, gr, chart, sent, edges)
    ok = ('S', 0, len(sent)) in edges
    ctx.check(('no parse' in msg) == (not ok), 'message')
    lookup(ctx, gr, chart, sent, cost)
    ctx.reach('parse' if ok else 'no parse')
    if p.get('filter') and ok:
        filtering(ctx, gr, chart, edges, items, cost)
        ctx.reach('filter')
    ctx.observe(len(edges), ok)


def lookup(ctx, gr, chart, sent, cost):
    """Look up items by label and span; the best item of a span."""
    pr = ctx.mod('probe')
    n = len(sent)
    for i in range(n):
        for j in range(i + 1, n + 1):
            incell = []
            for lab in gr.labels:
                x = chart.itemid(lab, list(range(i, j)))
                item = (lab, i, j)
                ctx.check(bool(x) == (item in cost),
                        'item is found iff derivable')
                if x:
                    ctx.check(eq(pr.cost(chart, x), cost[item]),
                            'itemid gives the item')
                if item in cost and '*' not in lab and '<' not in lab:
                    incell.append(cost[item])
            x = chart.bestsubtree(i, j)
            ctx.check(bool(x) == bool(incell), 'best subtree exists')
            if x:
                for c in incell:
                    ctx.check(le(pr.cost(chart, x), c), 'best subtree')
    ctx.check(not chart.itemid('NOSUCH', [0]), 'unknown label')


def reachable(edges, root):
    seen, agenda = [root], [root]
    while agenda:
        for _, _, a, b in edges[agenda.pop()]:
            for x in (a, b):
                if x is not None and x not in seen:
                    seen.append(x)
                    agenda.append(x)
    return seen


def filtering(ctx, gr, chart, edges, items, cost):
    """filter() keeps precisely the items that are part of a derivation."""
    pr = ctx.mod('probe')
    before = {x: pr.edges(chart, x) for x in items}
    keep = reachable(edges, items[chart.root()])
    chart.filter()
    for x, item in items.items():
        if item in keep:
            ctx.check(pr.edges(chart, x) == before[x], 'filter keeps edges')
        else:
            ctx.check(pr.edges(chart, x) == [], 'filter drops items')
        ctx.check((x in chart) == (item in keep), 'filtered items')


def goldtags(ctx):
    """Given tags restrict the tags of words."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = sentence(ctx, p)
    tags = [ctx.pick('tag', p['tags']) for _ in sent]
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar, tags=tags)
    edges, zero = {}, []
    tagged = []
    for i, (w, t) in enumerate(zip(sent, tags)):
        m = [tag for tag, word in gr.lexicon if word == w
                and (not t or matchtag(tag, t))]
        if not m and t:
            # tags are used even if not seen with the word
            m = [a for a in dict.fromkeys(tag for tag, _ in gr.lexicon)
                    if matchtag(a, t)]
            zero += [(a, i) for a in m]
        tagged.append(m)
    if not all(tagged):
        ctx.check(not chart, 'no parse without tag')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('no tag')
        return
    lex2 = []
    costs2 = []
    for i, m in enumerate(tagged):
        for a in m:
            lex2.append((a, i))
            if (a, i) in zero:
                costs2.append(0)
                ctx.reach('unseen tag')
            else:
                costs2.append(gr.lexcost[gr.lexicon.index((a, sent[i]))])
    gr2 = Other(gr, lex2, costs2)
    edges = closure(gr2, list(range(len(sent))))
    checkchart(ctx, gr2, chart, list(range(len(sent))), edges)
    ctx.reach('tags')
    ctx.observe(len(edges))


class Other(object):
    """The same grammar with another lexicon."""
    def __init__(self, gr, lexicon, lexcost):
        self.grammar, self.rules, self.cost = gr.grammar, gr.rules, gr.cost
        self.labels = gr.labels
        self.lexicon, self.lexcost = lexicon, lexcost


def masking(ctx):
    """Rules that are masked are not used; the mask can be removed."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = sentence(ctx, p)
    active = [bool(ctx.flag('active')) for _ in gr.rules]
    gr.grammar.setmask([n for n, a in enumerate(active) if a])
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar)
    edges = closure(gr, sent, active=active)
    checkchart(ctx, gr, chart, sent, edges, 'mask: ')
    gr.grammar.setmask(None)
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar)
    checkchart(ctx, gr, chart, sent, closure(gr, sent), 'unmask: ')
    ctx.reach('mask')
    ctx.observe(active, len(edges))


def whitelisting(ctx):
    """Only items in the whitelist enter the chart."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = sentence(ctx, p)
    n = len(sent)
    pr = ctx.mod('probe')
    gr.grammar.getmapping(gr.grammar)
    ids = {lab: pr.labelid(gr.grammar, lab) for lab in gr.labels}
    ncells = pr.cell(n - 1, n, n, 1) + 1
    cells = [[] for _ in range(ncells)]
    ok = []
    free = [lab for lab in gr.labels if lab in p['labels']]
    for i in range(n):
        for j in range(i + 1, n + 1):
            for lab in gr.labels:
                if (lab not in free or j - i not in p['spans']
                        or ctx.flag('allow')):
                    cells[pr.cell(i, j, n, 1)].append(ids[lab])
                    ok.append((lab, i, j))
    white = pr.cfgwhitelist(gr.grammar, cells)
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar, whitelist=white)
    edges = closure(gr, sent,
            allowed=lambda lab, i, j: (lab, i, j) in ok)
    if any(not any((tag, i, i + 1) in ok for tag, x in gr.lexicon if x == w)
            for i, w in enumerate(sent)):
        ctx.check(not chart, 'no parse when all tags are blocked')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('blocked tags')
        return
    items, cost = checkchart(ctx, gr, chart, sent, edges)
    lookup(ctx, gr, chart, sent, cost)
    root = ('S', 0, n) in edges
    ctx.check(('no parse' in msg) == (not root), 'message')
    ctx.reach('parse' if root else 'no parse')
    ctx.observe(len(edges), root)


def beam(ctx):
    """Beam search: a subset of the chart, which has at least the edges with
    a cost within the beam of the best edge in the cell."""
    p = ctx.params
    gr = grammar(ctx, p)
    sent = sentence(ctx, p)
    n = len(sent)
    pr = ctx.mod('probe')
    beta = ctx.real('beta', 0.25, 4)
    delta = ctx.pick('delta', p['delta'])
    white = None
    if p.get('sparse'):
        gr.grammar.getmapping(gr.grammar)
        ids = [pr.labelid(gr.grammar, lab) for lab in gr.labels]
        white = pr.cfgwhitelist(gr.grammar,
                [ids for _ in range(pr.cell(n - 1, n, n, 1) + 1)])
    chart, msg = ctx.mod('pcfg').parse(sent, gr.grammar, whitelist=white,
            beam_beta=beta, beam_delta=delta)
    full = closure(gr, sent)
    items, cost, edges = readchart(ctx, gr, chart, sent)
    for item in edges:
        ctx.check(item in full, 'item is derivable')
        for e in edges[item]:
            ctx.check(e in full[item], 'edge is an instance of a rule')
        checkcost(ctx, gr, item, cost, edges)
    root = ('S', 0, n)
    ctx.check(bool(chart) == (root in edges), 'success of parse')
    for i in range(n):
        for j in range(i + 1, n + 1):
            cand = [(item, e) for item in full if item[1:] == (i, j)
                    for e in full[item]
                    if all(a is None or a in cost for a in e[2:])]
            total = [edgecost(gr, e, cost) for _, e in cand]
            best = [c for c, (_, e) in zip(total, cand) if e[3] is not None]
            for c, (item, e) in zip(total, cand):
                missing = item not in edges or e not in edges[item]
                if not missing:
                    continue
                ctx.check(e[3] is not None and j - i <= delta,
                        'edges not subject to beam are not pruned')
                ctx.check(ctx.Or(*[ctx.Not(le(c, b + beta)) for b in best]),
                        'edges within beam are not pruned')
                ctx.reach('pruned')
    ctx.reach('beam')
    ctx.observe(len(edges))


def near(a, b):
    return abs(a - b) < 1e-9


def counts(ctx):
    """Grammar computes relative frequencies, whatever the order of rules;
    weights of rules that occur more than once are added; the indices give
    the rules with a given label."""
    p = ctx.params
    entries = []
    for r in p['rules']:
        for _ in range(ctx.pick('copies', p['copies'])):
            entries.append(((tuple(r), ((0, 1), ) if len(r) == 3
                    else ((0, ), )), ctx.pick('freq', p['freq'])))
    for tag, word in p['lexicon']:
        if ctx.flag('lex'):
            entries.append((((tag, 'Epsilon'), (word, )),
                    ctx.pick('freq', p['freq'])))
    order = p['orders'][ctx.choice('order', len(p['orders']))]
    entries = [e for _, e in sorted(zip(
            [order[n % len(order)] for n in range(len(entries))], entries),
            key=lambda x: x[0])]
    rules, lexicon, total = {}, {}, {}
    for (r, yf), f in entries:
        total[r[0]] = total.get(r[0], 0) + f
        if r[1] == 'Epsilon':
            lexicon[r[0], yf[0]] = lexicon.get((r[0], yf[0]), 0) + f
        else:
            rules[r] = rules.get(r, 0) + f
    for r in rules:
        for a in r[1:]:
            ctx.assume(a in total)
    ctx.assume('S' in total)
    ctx.assume(lexicon)
    g = ctx.mod('containers').Grammar(entries, start='S')
    if p.get('add'):
        extra = [r for r in p['add'] if all(a in total for a in r[1:])]
        ctx.assume(extra)
        text = ''
        for r in extra:
            f = ctx.pick('freq', p['freq'])
            text += '%s\t%s\t%d\n' % ('\t'.join(r),
                    '01' if len(r) == 3 else '0', f)
            rules[tuple(r)] = rules.get(tuple(r), 0) + f
            total[r[0]] = total.get(r[0], 0) + f
        tag, word = p['addlex']
        lexicon[tag, word] = lexicon.get((tag, word), 0) + 2
        total[tag] = total.get(tag, 0) + 2
        g.addrules(text.encode('utf8'), ('%s\t%s 2\n' % (word, tag)
                ).encode('utf8'))
    pr = ctx.mod('probe')
    ctx.check(g.numrules == len(rules), 'number of rules')
    for logprob in (True, False, True):
        g.switch('default', logprob)

        def want(lhs, f):
            return -math.log(f / total[lhs]) if logprob else f / total[lhs]

        names = {}
        for no, (lhs, rhs1, rhs2, prob) in pr.rules(g):
            r = (lhs, rhs1) if rhs2 == 'Epsilon' else (lhs, rhs1, rhs2)
            ctx.check(r in rules and no not in names, 'rule')
            names[no] = r
            ctx.check(near(prob, want(lhs, rules[r])), 'relative frequency')
        ctx.check(sorted(names) == list(range(len(rules))), 'rule numbers')
        if not p.get('add'):
            ctx.check([names[n] for n in range(len(rules))] == list(rules),
                    'rule numbers are in order of rules')
        for lab in total:
            for idx in range(4):
                got = pr.index(g, idx, pr.labelid(g, lab))
                expect = [n for n, r in names.items()
                        if (r[0] == lab if idx == 0
                            else len(r) == 2 and r[1] == lab if idx == 1
                            else len(r) == 3 and r[idx - 1] == lab)]
                ctx.check(sorted(n for n, _ in got) == sorted(expect),
                        'index of rules')
                for n, prob in got:
                    ctx.check(near(prob, want(names[n][0], rules[names[n]])),
                            'weight in index')
        lex = pr.lexical(g)
        ctx.check(sorted((t, w) for t, w, _ in lex) == sorted(lexicon),
                'lexical rules')
        for tag, word, prob in lex:
            ctx.check(near(prob, want(tag, lexicon[tag, word])),
                    'relative frequency of word')
    for n, r in names.items():
        ctx.check(g.getruleno(r, ((0, 1), ) if len(r) == 3 else ((0, ), ))
                == n, 'number of rule')
    ctx.check(g.testgrammar(1e-9)[0], 'weights sum to one')
    ctx.reach('counts')
    ctx.observe(len(rules), len(lexicon))


def addressing(ctx):
    """Cells are numbered without gaps, and in an invertible way."""
    pr = ctx.mod('probe')
    n = ctx.pick('n', range(1, ctx.params['n'] + 1))
    nts = ctx.pick('nts', ctx.params['nts'])
    seen = []
    for i in range(n):
        for j in range(i + 1, n + 1):
            x = pr.cell(i, j, n, nts)
            seen.append(x)
            off = ctx.int('label', 0, nts - 1)
            ctx.check(pr.uncell(x + off, n, nts) == (i, j), 'inverse')
    ctx.check(sorted(seen) == [nts * a for a in range(
            min(seen) // nts, min(seen) // nts + len(seen))], 'no gaps')
    ctx.reach('cells')
    ctx.observe(seen)


PP = dict(rules=[('S', 'A'), ('A', 'A', 'A')], lexicon=[('A', 'p')],
        words=['p'])
PQ = dict(rules=[('S', 'A'), ('A', 'A', 'A'),
            ('A', 'A', 'B'), ('B', 'A', 'A')], words=['p', 'q'],
        lexicon=[('A', 'p'), ('A', 'q')])
# unary chains and cycles
UN = dict(rules=[('S', 'A'), ('A', 'B'), ('B', 'C'), ('C', 'A'),
            ('B', 'D'), ('A', 'B', 'D')],
        lexicon=[('D', 'd'), ('C', 'd')], words=['d'])
UN2 = dict(rules=[('S', 'X'), ('X', 'B'), ('X', 'A'), ('A', 'X'), ('B', 'A'),
            ('A', 'D'), ('B', 'D'), ('X', 'X', 'D')],
        lexicon=[('D', 'd')], words=['d'])
# various rules
MIX = dict(rules=[('S', 'A', 'B')],
        maybe=[('S', 'B', 'A'), ('A', 'A', 'B'), ('B', 'B', 'A'),
            ('A', 'B', 'B'), ('S', 'A'), ('B', 'A', 'A')],
        lexicon=[('A', 'a'), ('B', 'b')], maybelex=[('B', 'a')],
        words=['a', 'b'])
TAGS = dict(rules=[('S', 'A', 'B'), ('S', 'A-x', 'B'), ('S', 'A', 'A'),
            ('S', 'B@1', 'A')],
        lexicon=[('A', 'a'), ('A-x', 'a'), ('AB', 'a'), ('B', 'b'),
            ('B@1', 'b')],
        maybelex=[('B', 'a')],
        words=['a', 'b', 'z'], tags=[None, '', 'A', 'B', 'Z'])
MIX2 = dict(rules=[('S', 'A', 'B'), ('A', 'B'), ('A', 'B', 'A'),
        ('S', 'A')],
        lexicon=[('A', 'a'), ('B', 'a'), ('B', 'b')])
ORDERS = [(0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0),
        (3, 1, 0, 6, 2, 5, 4)]
HARNESSES = {
    'parse': dict(fn=parsing, reach=['parse'], params=dict(
        quick=[
            dict(PP, sizes=[1, 2, 3, 4, 5], filter=True),
            dict(UN, sizes=[1, 2], filter=True),
            dict(UN2, sizes=[1, 2], filter=True),
            dict(MIX, sizes=[1, 2, 3], filter=True, unit=True),
            dict(MIX, sizes=[3], maybe=[], maybelex=[], words=['a'],
                rules=[('S', 'A', 'B'), ('S', 'A'), ('A', 'A', 'B'),
                    ('B', 'A', 'A')],
                lexicon=[('A', 'a'), ('B', 'a')]),
            dict(MIX, words=['a', 'b', 'z', 'B'], maybe=MIX['maybe'][:2],
                sizes=[1, 2]),
            ],
        thorough=[
            dict(PP, sizes=[6], filter=True),
            dict(UN, sizes=[3], filter=True),
            dict(UN2, sizes=[3], filter=True),
            dict(MIX, sizes=[3], filter=True),
            dict(MIX, sizes=[4], maybe=[], maybelex=[], words=['a'],
                rules=[('S', 'A', 'B'), ('S', 'A'), ('A', 'A', 'B'),
                    ('B', 'A', 'A')],
                lexicon=[('A', 'a'), ('B', 'a')]),
            ])),
    'goldtags': dict(fn=goldtags, reach=['tags', 'no tag', 'unseen tag'],
        params=dict(
            quick=[dict(TAGS, sizes=[2])],
            thorough=[dict(TAGS, sizes=[3])])),
    'mask': dict(fn=masking, reach=['mask'], params=dict(
        quick=[dict(UN, sizes=[1]),
            dict(UN, sizes=[2], unit=True),
            dict(MIX, sizes=[3], maybe=[], unit=True,
                rules=MIX['rules'] + MIX['maybe'], words=['a'],
                maybelex=[], lexicon=[('A', 'a'), ('B', 'a')])],
        thorough=[dict(UN, sizes=[2]),
            dict(MIX, sizes=[3], maybe=[],
                rules=MIX['rules'] + MIX['maybe'], words=['a'],
                maybelex=[], lexicon=[('A', 'a'), ('B', 'a')])])),
    'whitelist': dict(fn=whitelisting, reach=['parse', 'no parse'],
        params=dict(
            quick=[
                dict(MIX, maybe=[], rules=MIX['rules'] + MIX['maybe'],
                    words=['a'], maybelex=[], sizes=[3], unit=True,
                    lexicon=[('A', 'a'), ('B', 'a')],
                    spans=[2], labels=['A', 'B', 'S']),
                dict(UN, sizes=[1], spans=[1], labels=['A', 'B', 'S']),
                dict(UN, sizes=[2], spans=[1, 2], unit=True,
                    labels=['A', 'B']),
                dict(PP, sizes=[2, 3], spans=[1, 2, 3], labels=['A']),
                dict(PP, sizes=[4], spans=[2, 3], labels=['A']),
                ],
            thorough=[
                dict(MIX, maybe=[], rules=MIX['rules'] + MIX['maybe'],
                    words=['a'], maybelex=[], sizes=[3],
                    lexicon=[('A', 'a'), ('B', 'a')],
                    spans=[1, 2], labels=['A', 'B']),
                dict(UN, sizes=[1, 2], spans=[1, 2], labels=['A', 'B', 'S']),
                dict(PP, sizes=[5], spans=[2, 3, 4], labels=['A']),
                ])),
    'beam': dict(fn=beam, reach=['beam', 'pruned'], params=dict(
        quick=[
            dict(PQ, sizes=[3], delta=[2, 9]),
            dict(PQ, sizes=[3], delta=[9], sparse=True),
            dict(UN, sizes=[2], delta=[9], maybe=[],
                rules=[('S', 'A'), ('S', 'B', 'A'), ('A', 'B', 'B'),
                    ('B', 'A', 'B'), ('A', 'B')],
                lexicon=[('A', 'd'), ('B', 'd')]),
            dict(UN, sizes=[2], delta=[9], maybe=[], sparse=True,
                rules=[('S', 'A'), ('S', 'B', 'A'), ('A', 'B', 'B'),
                    ('B', 'A', 'B'), ('A', 'B')],
                lexicon=[('A', 'd'), ('B', 'd')]),
            ])),
    'grammar': dict(fn=counts, reach=['counts'], params=dict(
        quick=[
            dict(MIX2, copies=[1, 2], freq=[1, 3], orders=ORDERS[:1],
                rules=MIX2['rules'][:3]),
            dict(MIX2, copies=[1], freq=[2], orders=ORDERS),
            dict(MIX2, copies=[0, 1], freq=[1], orders=ORDERS[:1],
                add=[('A', 'B', 'B'), ('B', 'A'), ('S', 'A')],
                addlex=('A', 'a')),
            dict(MIX2, copies=[0, 1], freq=[2], orders=ORDERS[1:],
                add=[('B', 'A', 'B'), ('S', 'B'), ('D', 'B')],
                addlex=('C', 'a')),
            ])),
    'cells': dict(fn=addressing, reach=['cells'], params=dict(
        quick=[dict(n=6, nts=[1, 2, 3, 7])],
        thorough=[dict(n=12, nts=[1, 2, 3, 7, 20])])),
}
