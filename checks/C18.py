"""Grammar text files: writing, parsing and summing of weights."""
import itertools
import tlib
NEEDS = ['bit']
OUTSIDE = ('Weights with more than six digits (rounded on output), '
        'hexadecimal weights in rule files, labels with white space or '
        'labels that look like numbers.')

WEIGHTS = [1, 0.5, 2500000, 1e-07]


def num(x):
    return '%g' % x


def writing(ctx):
    """Each rule gives one line in either format, which is parsed as the rule
    and weight; lexical rules are grouped by word."""
    gr = ctx.mod('grammar')
    p = ctx.params
    weights = p.get('weights', WEIGHTS)
    grammar, phrasal, lexical = [], [], []

    def label():
        return ctx.string('l', p['labels'], 1, p.get('ll', 1))
    for _ in range(p['n']):
        w = ctx.pick('weight', weights)
        kind = ctx.pick('kind', ['unary', 'binary', 'lex'])
        if kind == 'lex':
            word = ctx.string('w', p['words'], 1, 1)
            shown = word
            for a, b in zip('()', ['#LRB#', '#RRB#']):
                if word == a:
                    shown = b
            lexical.append((word, label(), w))
            grammar.append((((lexical[-1][1], 'Epsilon'), (shown, )), w))
        elif kind == 'unary':
            r = (label(), label())
            yf = ctx.pick('yf', [((0, ), ), ((0, ), (0, ))])
            phrasal.append((r, yf, w))
            grammar.append(((r, yf), w))
        else:
            r = (label(), label(), label())
            yf = ctx.pick('yf', [((0, 1), ), ((0, 1, 0), ),
                    ((0, ), (1, 0))])
            phrasal.append((r, yf, w))
            grammar.append(((r, yf), w))
    bitpar = ctx.flag('bitpar')
    rules, lex = gr.writegrammar(grammar, bitpar=bitpar)
    lines = rules.split('\n')
    ctx.check(lines[-1] == '' and len(lines) == len(phrasal) + 1,
            'one line per rule')
    for line, (r, yf, w) in zip(lines, phrasal):
        if bitpar:
            want = tlib.join('\t', (num(w), ) + r)
            bare = tlib.join('\t', r)
        else:
            bare = tlib.join('\t', r + (','.join(''.join(map(str, a))
                for a in yf), ))
            want = bare + '\t' + num(w)
        ctx.check(line == want, 'line of rule')
        ctx.check(gr.stripweight(line) == bare, 'stripweight')
        m = gr.RULERE.match(line)
        got = m.group('WEIGHT1') or m.group('FREQ2')
        ctx.check(gr.convertweight(got) == w, 'weight')
        ctx.check((m.group('LHS1') or m.group('LHS2')) == r[0], 'LHS')
    groups = []
    for word, tag, w in lexical:
        for g in groups:
            if bool(g[0] == word):
                g[1].append((tag, w))
                break
        else:
            groups.append((word, [(tag, w)]))
    want = ''
    for word, tags in groups:
        want = want + word
        for tag, w in tags:
            want = want + '\t' + tag + ' ' + num(w)
        want = want + '\n'
    ctx.check(lex == want, 'lexicon')
    ctx.reach('bitpar' if bitpar else 'plcfrs')
    ctx.observe(len(groups))


def order(ctx):
    """sortgrammar: phrasal rules by LHS, then rules with labels of binarized
    fragments, then lexical rules in order of their words; alternative weights
    stay with their rules."""
    gr = ctx.mod('grammar')
    tree = ctx.mod('tree')
    p = ctx.params
    import numpy
    rules, ids = [], []
    for n in range(p['n']):
        kind = ctx.pick('kind', ['rule', 'bin', 'lex'])
        lab = ctx.string('l', p['labels'], 1, 1)
        if kind == 'lex':
            word = ctx.string('w', p['words'], 1, 1)
            rules.append((((lab, 'Epsilon'), (tree.escape(word), )), n))
            ids.append((2, word))
        elif kind == 'bin':
            rules.append((((lab + '}<%d>' % n, 'X'), ((0, ), )), n))
            ids.append((1, lab))
        else:
            rules.append((((lab, 'X'), ((0, ), )), n))
            ids.append((0, lab))
    got, alt = gr.sortgrammar(rules, dict(a=numpy.array(
            [n + .5 for n in range(p['n'])])))
    again = gr.sortgrammar(rules)
    nums = [w for _, w in got]
    ctx.check(sorted(nums) == list(range(p['n'])), 'same rules')
    ctx.check([w for _, w in again] == nums, 'with and without weights')
    ctx.check(list(alt['a']) == [n + .5 for n in nums], 'alternative weights')
    for a, b in zip(nums, nums[1:]):
        ctx.check(ids[a][0] <= ids[b][0], 'phrasal before lexical')
        if ids[a][0] == ids[b][0]:
            ctx.check(ids[a][1] <= ids[b][1], 'order')
    ctx.reach('ok')
    ctx.observe(nums)


def weightstrings(ctx):
    """convertweight and splitweight on integers, decimals, fractions and
    hexadecimal floats."""
    gr = ctx.mod('grammar')
    a, b = ctx.pick('a', [0, 1, 7, 2.5]), ctx.pick('b', [1, 3, 8])
    kind = ctx.pick('kind', ['plain', 'fraction', 'hex', 'exp'])
    if kind == 'fraction':
        text = '%g/%d' % (a, b)
        want, pair = a / b, (float(a), float(b))
    elif kind == 'hex':
        text, want = float(a / b).hex(), a / b
        pair = want
    elif kind == 'exp':
        text, want = '%de-%02d' % (int(a), b), float('%de-%d' % (int(a), b))
        pair = want
    else:
        text, want = '%g' % a, float(a)
        pair = want
    ctx.check(gr.convertweight(text) == want, 'convertweight')
    ctx.check(gr.splitweight(text) == pair, 'splitweight')
    ctx.reach(kind)


def table(ctx, rows):
    """[(key, [values])] from a sequence with duplicates, in order."""
    out = []
    for k, v in rows:
        if out and bool(out[-1][0] == k):
            out[-1][1].append(v)
        else:
            out.append((k, [v]))
    return out


def summing(ctx):
    """sumrules and sumfrags: each key once with the sum of its weights
    divided by the number of grammars."""
    gr = ctx.mod('grammar')
    p = ctx.params
    kind = ctx.pick('kind', p.get('kinds', ['plcfrs', 'bitpar', 'frags']))
    n = ctx.pick('n', [1, 2])
    m = ctx.choice('m', p['m'] + 1)
    ws = p.get('weights', [('1', 1), ('1/2', .5), ('2e+06', 2e6)])
    rows, lines = [], []
    for i in range(m):
        t, w = ctx.pick('w', [a for a in ws
                if kind != 'bitpar' or '/' not in a[0]])
        a, b = ctx.string('l', p['labels'], 1, 1), ctx.string('r',
                p['labels'], 1, 1)
        if kind == 'plcfrs':
            key = a + '\t' + b + '\t0'
        elif kind == 'bitpar':
            key = a + '\t' + b
        else:
            key = '(' + a + ' ' + b + ')'
        if rows:
            ctx.assume(rows[-1][0] <= key)
        rows.append((key, w))
        lines.append(t + '\t' + key + '\n' if kind == 'bitpar'
                else key + '\t' + t + '\n')
    got = list((gr.sumfrags if kind == 'frags' else gr.sumrules)(
            iter(lines), n))
    want = table(ctx, rows)
    ctx.check(len(got) == len(want), 'each rule once')
    for line, (key, vals) in zip(got, want):
        x = num(sum(vals) / n)
        ctx.check(line == (x + '\t' + key + '\n' if kind == 'bitpar'
                else key + '\t' + x + '\n'), 'summed weight')
    ctx.reach(kind)
    ctx.observe(len(got))


def lexlines(ctx, m):
    p = ctx.params
    rows, lines = [], []
    for i in range(m):
        word = ctx.string('w', p['words'], 1, 1)
        if rows:
            ctx.assume(rows[-1][0] <= word)
        line = word
        for _ in range(1 + ctx.choice('ntags', p.get('tags', 2))):
            tag = ctx.string('t', p['labels'], 1, 1)
            t, w = ctx.pick('w', [('1', 1), ('1/2', .5)])
            line = line + '\t' + tag + ' ' + t
            rows.append((word, tag, w))
        lines.append(line + '\n')
    return rows, lines


def checklex(ctx, got, rows, n):
    words = []
    for word, tag, w in rows:
        for g in words:
            if bool(g[0] == word):
                break
        else:
            g = (word, [])
            words.append(g)
        for h in g[1]:
            if bool(h[0] == tag):
                h[1] += w
                break
        else:
            g[1].append([tag, w])
    ctx.check(len(got) == len(words), 'each word once')
    words.sort(key=Key)
    for line, (word, tags) in zip(got, words):
        parts = line.rstrip('\n').split('\t')
        ctx.check(parts[0] == word, 'word')
        ctx.check(len(parts) == 1 + len(tags), 'each tag once')
        for a in parts[1:]:
            ctx.check(ctx.Or(*[a == t + ' ' + num(w / n) for t, w in tags]),
                    'weight of tag')


class Key(object):
    def __init__(self, row):
        self.word = row[0]

    def __lt__(self, other):
        return bool(self.word < other.word)


def lexsum(ctx):
    """sumlex: each word once, with the sum of the weights per tag."""
    gr = ctx.mod('grammar')
    n = ctx.pick('n', [1, 2])
    rows, lines = lexlines(ctx, ctx.choice('m', ctx.params['m'] + 1))
    got = list(gr.sumlex(iter(lines), n))
    checklex(ctx, got, rows, n)
    ctx.reach('ok')
    ctx.observe(len(got))


def merging(ctx):
    """Merging grammar files interpolates them: weights of every rule are
    averaged over the files."""
    gr = ctx.mod('grammar')
    p = ctx.params
    k = p['files']
    kind = ctx.pick('kind', ['rules', 'lexicon', 'bylhs', 'bitpar'])
    names, allrows = [], []
    for i in range(k):
        m = ctx.choice('m', p['m'] + 1)
        if kind == 'lexicon':
            rows, lines = lexlines(ctx, m)
        elif kind in ('bylhs', 'bitpar'):  # order of RHS is arbitrary
            rows, lines = [], []
            for _ in range(m):
                lhs = ctx.string('l', p['labels'], 1, 1)
                key = lhs + '\t' + ctx.string('r', 'AB', 1, 1)
                if kind == 'bylhs':
                    key = key + '\t0'
                if rows:
                    ctx.assume(rows[-1][0][:1] <= lhs)
                    ctx.assume(ctx.And(*[a[0] != key for a in rows]))
                w = ctx.pick('w', [1, 3])
                rows.append((key, w))
                lines.append(key + '\t%d\n' % w if kind == 'bylhs'
                        else '%d\t' % w + key + '\n')
        else:
            rows, lines = [], []
            for _ in range(m):
                key = ctx.string('l', p['labels'], 1, 1) + '\tB\t0'
                if rows:
                    ctx.assume(rows[-1][0] < key)
                w = ctx.pick('w', [1, 3])
                rows.append((key, w))
                lines.append(key + '\t%d\n' % w)
        allrows.extend(rows)
        names.append(ctx.file('in%d' % i, tlib.cat(lines)))
    out = ctx.file('out')
    if kind == 'lexicon':
        gr.merge(names, out, gr.sumlex, lambda x: x.split(None, 1)[0])
    else:
        gr.merge(names, out, gr.sumrules, gr.stripweight if kind == 'rules'
                else gr.lhskey)
    text = ctx.filetext(out)
    got = text.split('\n')
    ctx.check(got[-1] == '', 'newline')
    got = got[:-1]
    if kind == 'lexicon':
        checklex(ctx, got, allrows, k)
    elif kind in ('bylhs', 'bitpar'):
        want = []
        for key, w in allrows:
            for a in want:
                if bool(a[0] == key):
                    a[1] += w
                    break
            else:
                want.append([key, w])
        ctx.check(len(got) == len(want), 'each rule once')
        for line in got:
            ctx.check(ctx.Or(*[line == (key + '\t' + num(w / k)
                    if kind == 'bylhs' else num(w / k) + '\t' + key)
                    for key, w in want]), 'average weight of rule')
        lhs = [a.split('\t')[0 if kind == 'bylhs' else 1] for a in got]
        ctx.check(ctx.And(*[a <= b for a, b in zip(lhs, lhs[1:])]),
                'sorted by LHS')
    else:
        allrows.sort(key=Key)
        want = table(ctx, allrows)
        ctx.check(len(got) == len(want), 'each rule once')
        for line, (key, vals) in zip(got, want):
            ctx.check(line == key + '\t' + num(sum(vals) / k),
                    'average weight')
    ctx.reach(kind)
    ctx.observe(len(got))


def helpers(ctx):
    """printrule, ranges, rangeheads, cartpi and addindices."""
    gr = ctx.mod('grammar')
    n = ctx.params['n']
    idx = [ctx.int('i', 0, 2 * n) for _ in range(n)]
    for a, b in zip(idx, idx[1:]):
        ctx.assume(a < b)
    rng = [list(a) for a in gr.ranges(idx)]
    ctx.check([x for a in rng for x in a] == idx, 'partition')
    for a in rng:
        for x, y in zip(a, a[1:]):
            ctx.check(y == x + 1, 'contiguous')
    for a, b in zip(rng, rng[1:]):
        ctx.check(b[0] != a[-1] + 1, 'maximal')
    ctx.check(gr.rangeheads(idx) == [a[0] for a in rng], 'rangeheads')
    seqs = [list(range(ctx.choice('len', 3))) for _ in range(n)]
    ctx.check(list(gr.cartpi(seqs)) == list(itertools.product(*seqs)),
            'cartesian product')
    ctx.reach('ok')
    ctx.observe(rng)


def fallback(ctx):
    """defaultparse gives a tree over the same words and tags."""
    mod, gr = ctx.mod('tree'), ctx.mod('grammar')
    n = 1 + ctx.choice('n', ctx.params['n'])
    wt = [(ctx.string('w', 'ab', 1, 1), ctx.string('t', 'AB', 1, 1))
            for _ in range(n)]
    right = ctx.flag('right')
    got = gr.defaultparse(wt, right)
    if right:
        want = ''
        for i, (w, t) in enumerate(wt):
            want = want + '(NP (' + t + ' ' + w + ')' + (
                    ' ' if i + 1 < n else '')
        want = want + ')' * n
    else:
        want = '(NOPARSE ' + tlib.join(' ', ['(' + t + ' ' + w + ')'
                for w, t in wt]) + ')'
    ctx.check(got == want, 'tree')
    ctx.reach('ok')


def indices(ctx):
    """addindices numbers words and frontier nodes from left to right."""
    gr = ctx.mod('grammar')
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', 'AB', 1, 1),
            cont=True, pos=lambda: 'P', unary=p.get('unary', 0))
    words = [None if ctx.flag('frontier') else ctx.string('w', p['words'],
            1, 2) for _ in range(p['n'])]

    def text(x, num):
        if not isinstance(x, tuple):
            w = words[x]
            if num:
                return '%d=' % x + (w or '')
            return w or ''
        return '(' + x[0] + ' ' + tlib.join(' ', [text(a, num)
                for a in x[1]]) + ')'
    ctx.check(gr.addindices(text(t, False)) == text(t, True), 'indices')
    ctx.reach('ok')


def statistics(ctx):
    """grammarstats prints the number of rules and the total frequency of
    each run of rules with the same LHS."""
    gr = ctx.mod('grammar')
    p = ctx.params
    rows, lines = [], []
    bitpar = ctx.flag('bitpar')
    for _ in range(ctx.choice('m', p['m'] + 1)):
        a, b = ctx.string('l', p['labels'], 1, 1), ctx.string('r', 'AB', 1, 1)
        w = ctx.pick('w', [1, 2.5])
        rows.append((a, w))
        lines.append('%g\t' % w + a + '\t' + b + '\n' if bitpar
                else a + '\t' + b + '\t0\t%g\n' % w)
    out = []
    gr.print = lambda *a: out.append(a[0])
    try:
        gr.grammarstats(ctx.file('rules', tlib.cat(lines)))
    finally:
        del gr.print
    want = table(ctx, rows)
    ctx.check(len(out) == 1 + len(want), 'one line per LHS')
    for line, (lab, ws) in zip(out[1:], want):
        ctx.check(line == lab + '\t%d\t%g' % (len(ws), sum(ws)), 'counts')
    ctx.reach('ok')
    ctx.observe(len(out))


HARNESSES = {
    'stats': dict(fn=statistics, reach=['ok'], params=dict(
        quick=[dict(m=3, labels='AB')], thorough=[dict(m=4, labels='AB')])),
    'write': dict(fn=writing, reach=['bitpar', 'plcfrs'], params=dict(
        quick=[dict(n=2, labels='A.', words='a(', weights=[.5, 2500000]),
            dict(n=1, labels='A.e',
            ll=2, words='a'), dict(n=3, labels='A', words='ab',
            weights=[1])],
        thorough=[dict(n=2, labels='A.e', words='a()'), dict(n=4,
            labels='A', words='ab', weights=[1])])),
    'order': dict(fn=order, reach=['ok'], params=dict(
        quick=[dict(n=2, labels='AB', words='a()$')],
        thorough=[dict(n=3, labels='AB', words='a()$')])),
    'weights': dict(fn=weightstrings, reach=['plain', 'fraction', 'hex',
        'exp'], params=dict(quick=[dict()], thorough=[dict()])),
    'sum': dict(fn=summing, reach=['plcfrs', 'bitpar', 'frags'], params=dict(
        quick=[dict(m=3, labels='AB', weights=[('1', 1), ('1/2', .5)]),
            dict(m=2, labels='A.')],
        thorough=[dict(m=4, labels='AB', weights=[('1', 1), ('1/2', .5)]),
            dict(m=3, labels='A.')])),
    'lexsum': dict(fn=lexsum, reach=['ok'], params=dict(
        quick=[dict(m=2, words='ab', labels='AB'), dict(m=3, words='ab',
            labels='A', tags=1)],
        thorough=[dict(m=3, words='ab', labels='AB')])),
    'merge': dict(fn=merging, reach=['rules', 'lexicon', 'bylhs', 'bitpar'], params=dict(
        quick=[dict(files=2, m=2, labels='ABC', words='ab', tags=1)],
        thorough=[dict(files=3, m=2, labels='ABC', words='ab', tags=1)])),
    'helpers': dict(fn=helpers, reach=['ok'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=5)])),
    'default': dict(fn=fallback, reach=['ok'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=5)])),
    'indices': dict(fn=indices, reach=['ok'], params=dict(
        quick=[dict(n=3, words='a=', unary=1)], thorough=[dict(n=4,
            words='a=', unary=1)])),
}
