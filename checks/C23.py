"""Evaluation of parse trees against gold trees."""
from fractions import Fraction
import tlib
NEEDS = ['bit', 'containers']
LITE = ['containers']
OUTSIDE = ('More and larger trees than the given shapes; CUTOFF_LEN=None; '
        'visualization; candidates with words which are not in the gold '
        'sentence; empty constituents; function tags when evaluating without '
        'labels; dependencies when words or constituents are deleted.')


class Ref:
    """A tree after the transformations, as (label, kids, leaves, func)."""
    def __init__(self, label, kids, leaves, func=(), pos=False):
        self.label, self.kids, self.leaves, self.func, self.pos = (
                label, kids, frozenset(leaves), func, pos)

    def nodes(self):
        return [self] + [a for k in self.kids for a in k.nodes()]


def label(ctx, spec):
    """Label, function tag, and whether this is the head."""
    head = spec.endswith('*')
    spec = spec.rstrip('*')
    spec, _, func = spec.partition('/')
    if spec[0] == '?':
        spec = ctx.string('l', spec[1:], 1, 1)
    if func[:1] == '?':
        func = ctx.pick('func', func[1:].split('?'))
    return spec, func, head


def instantiate(ctx, spec):
    """(label, func, head, kids) with leaves at preterminals."""
    lab, func, head = label(ctx, spec[0])
    return (lab, func, head, [instantiate(ctx, a)
            if isinstance(a, list) else a for a in spec[1:]])


def totree(ctx, mod, t, heads):
    node = mod.ParentedTree(t[0], [totree(ctx, mod, a, heads)
            if isinstance(a, tuple) else a for a in t[3]])
    node.source = ['--', '--', t[0], '--', t[1] or '--', '0']
    if heads and t[2]:
        node.type = ctx.mod('heads').HEAD
    return node


def tags(t):
    if not isinstance(t[3][0], tuple):
        return [(t[3][0], t[0])]
    return sorted(x for a in t[3] for x in tags(a))


def rename(a, eq):
    for x, y in eq:
        if a == x:
            return y
    return a


def member(a, seq):
    return any(a == b for b in seq)


def keep(t, sent, goldtags, p, rootpos):
    """The indices of the words which are kept."""
    return [n for n, w in enumerate(sent)
            if not member(goldtags[n], p['DELETE_LABEL'])
            and not member(w, p['DELETE_WORD'])
            and not (p['DELETE_ROOT_PRETERMS'] and n in rootpos)]


def transformed(t, kept, p, root=True):
    """List of trees that remain."""
    lab = rename(t[0], p['EQ_LABEL'])
    func = tuple(a for a in t[1].split('-') if a)
    if not isinstance(t[3][0], tuple):
        if t[3][0] not in kept:
            return []
        return [Ref(lab, [], [kept.index(t[3][0])], func, True)]
    kids = [x for a in t[3] for x in transformed(a, kept, p, False)]
    if (not kids or member(lab, p['DELETE_LABEL'])) and not root:
        return kids
    return [Ref(lab, kids, [i for k in kids for i in k.leaves], func)]


def brackets(t, p, root=True):
    out = []
    if t.kids and not (root and member(t.label, p['DELETE_LABEL'])):
        if not p['DISC_ONLY'] or len(tlib.ranges(t.leaves)) > 1:
            out.append((t.label if p['LABELED'] else '', t.leaves))
    return out + [x for k in t.kids for x in brackets(k, p, False)]


def overlap(a, b):
    """Size of the intersection of two multisets."""
    b, n = list(b), 0
    for x in a:
        for m, y in enumerate(b):
            if x[1:] == y[1:] and x[0] == y[0]:
                del b[m]
                n += 1
                break
    return n


def lineages(t, p):
    """Path of the ancestors of each leaf, with boundary symbols."""
    out = {i: [] for i in t.leaves}
    marked = {i: set() for i in t.leaves}

    def mark(i, x):
        if x not in marked[i]:
            marked[i].add(x)
            out[i].append(x)

    def visit(a, root):
        if not a.kids:
            return
        if not (root and member(a.label, p['DELETE_LABEL'])):
            for i in a.leaves:
                if i + 1 not in a.leaves:
                    mark(i, ')' if i == max(a.leaves) else ']')
                out[i].append(a.label)
                if i - 1 not in a.leaves:
                    mark(i, '(' if i == min(a.leaves) else '[')
        for k in a.kids:
            visit(k, False)
    visit(t, True)
    return out


def levenshtein(a, b):
    if not a or not b:
        return len(a) + len(b)
    if a[0] == b[0]:
        return levenshtein(a[1:], b[1:])
    return 1 + min(levenshtein(a[1:], b), levenshtein(a, b[1:]),
            levenshtein(a[1:], b[1:]))


def lascore(g, c, p):
    a, b = lineages(g, p), lineages(c, p)
    scores = [1 - Fraction(levenshtein(a[i], b[i]),
            max(len(a[i]) + len(b[i]), 1)) for i in a]
    return sum(scores) / len(scores)


def treedist(a, b):
    """Edit distance of two forests of (label, kids)."""
    memo = {}

    def conv(x):
        if x.pos:
            return (x.label, min(x.leaves), ())
        return (x.label, None, tuple(conv(k) for k in sorted(x.kids,
                key=lambda k: min(k.leaves))))

    def size(f):
        return sum(1 + size(x[2]) for x in f)

    def dist(f, g):
        if not f or not g:
            return size(f) + size(g)
        key = (id(f), id(g), tuple(map(id, f)), tuple(map(id, g)))
        if key not in memo:
            x, y = f[-1], g[-1]
            cost = 0 if x[1] == y[1] and x[0] == y[0] else 1
            memo[key] = f, g, min(dist(f[:-1] + x[2], g) + 1,
                    dist(f, g[:-1] + y[2]) + 1,
                    dist(x[2], y[2]) + dist(f[:-1], g[:-1]) + cost)
        return memo[key][2]
    return dist((conv(a), ), (conv(b), ))


def depends(t):
    """(dependent, function, head) of a tree with heads."""
    out = []

    def lexhead(a):
        if not isinstance(a[3][0], tuple):
            return a[3][0] + 1
        heads = [lexhead(k) for k in a[3]]
        head = heads[[k[2] for k in a[3]].index(True)]
        out.extend((h, head) for h in heads if h != head)
        return head
    for k in t[3]:
        out.append((lexhead(k), 0))
    return sorted(out)


def pairstats(gold, cand, gsent, csent, p, heads):
    """Statistics for a pair of trees."""
    gtags = [b for _, b in tags(gold)]
    ctags = [b for _, b in tags(cand)]
    rootpos = [k[3][0] for k in gold[3] if not isinstance(k[3][0], tuple)]
    align, m = [], 0
    for w in csent:
        while m < len(gsent) and not (rename(w, p['EQ_WORD'])
                == rename(gsent[m], p['EQ_WORD'])):
            m += 1
        if m == len(gsent):
            return None
        align.append(m)
        m += 1
    gkept = keep(gold, gsent, gtags, p, rootpos)
    ckept = keep(cand, csent, [gtags[m] for m in align], p,
            [n for n, m in enumerate(align) if m in rootpos])
    r = dict(length=sum(not member(a, p['DELETE_LABEL_FOR_LENGTH'])
            for a in gtags))
    if [align[n] for n in ckept] != gkept:
        return None
    g, = transformed(gold, gkept, p)
    c, = transformed(cand, ckept, p)
    gb, cb = brackets(g, p), brackets(c, p)
    r.update(gold=len(gb), cand=len(cb), match=overlap(gb, cb),
            words=len(gkept), disc=sum(len(tlib.ranges(x)) > 1
                for _, x in gb), cdisc=sum(len(tlib.ranges(x)) > 1
                for _, x in cb),
            pos=sum(1 if gtags[m] == ctags[n] else 0
                for m, n in zip(gkept, ckept)))
    r.update(trees=(g, c), tags=[(gtags[m], ctags[n])
            for m, n in zip(gkept, ckept)])
    r['exact'] = int(r['gold'] == r['cand'] == r['match'])

    def funs(t, other, othertags):
        """Functions of constituents that are also in the other tree."""
        return [(f, a.label, a.leaves) for a in t.nodes() for f in a.func
                if (a.pos and a.label == othertags[min(a.leaves)])
                or any(a.leaves == x and a.label == y for y, x in other)]
    gf = funs(g, cb, [ctags[n] for n in ckept])
    cf = funs(c, gb, [gtags[n] for n in gkept])
    r.update(funs=(gf, cf), brackets=(gb, cb))
    r.update(gfun=len(gf), cfun=len(cf),
            fun=overlap3(gf, cf))
    if gkept:
        if p['LA']:
            r['la'] = lascore(g, c, p)
        if p['TED']:
            r['ted'] = treedist(g, c)
            r['ceil'] = len(g.nodes()) + len(c.nodes()) - 2 * member(
                    g.label, p['DELETE_LABEL'])
        if heads:
            gd, cd = depends(gold), depends(cand)
            r['deps'], r['dep'] = len(gd), len(set(gd) & set(cd))
    return r


def overlap3(a, b):
    b, n = list(b), 0
    for x in a:
        for m, y in enumerate(b):
            if x[2] == y[2] and x[0] == y[0] and x[1] == y[1]:
                del b[m]
                n += 1
                break
    return n


def ratio(a, b):
    return Fraction(a, b) if b else None


def fscore(match, gold, cand):
    return Fraction(2 * match, gold + cand) if match else None


def number(s):
    """Printed percentage, or None when undefined."""
    s = s.strip()
    return None if s in ('0DIV!', 'nan', 'NaN', 'None') else Fraction(s)


def check(ctx, got, want, what):
    got = number(got)
    if want is None:
        ctx.check(got is None or got == 0, 'undefined ' + what)
    else:
        ctx.check(got is not None and abs(got - 100 * want)
                <= Fraction(1, 199), what)


def scores(stats):
    """Scores over a number of pairs."""
    def tot(key):
        return sum(r.get(key, 0) for r in stats)
    r = {a: tot(a) for a in ('gold', 'cand', 'match', 'disc', 'cdisc')}
    n = r['n'] = len(stats)
    las = [x['la'] for x in stats if 'la' in x]
    r.update(longest=max([x['length'] for x in stats] or [0]),
            lr=ratio(r['match'], r['gold']), lp=ratio(r['match'], r['cand']),
            lf=fscore(r['match'], r['gold'], r['cand']),
            ex=ratio(tot('exact'), n), tag=ratio(tot('pos'), tot('words')),
            fun=fscore(tot('fun'), tot('gfun'), tot('cfun')),
            la=ratio(sum(las), len(las)),
            ted=ratio(tot('ceil') - tot('ted'), tot('ceil')),
            dep=ratio(tot('dep'), tot('deps')))
    return r


ROWS = [('labeled recall', 'lr'), ('labeled precision', 'lp'),
        ('labeled f-measure', 'lf'), ('exact match', 'ex'),
        ('leaf-ancestor', 'la'), ('tree-dist', 'ted'),
        ('unlabeled dependencies', 'dep'), ('function tags', 'fun'),
        ('pos accuracy', 'tag')]


def table(ctx, text):
    """Rows of the summary."""
    rows = {}
    for line in text.splitlines()[1:]:
        key, _, rest = line.replace('micro avg)', 'micro avg):').partition(
                ':')
        rows[key.strip()] = rest.split()
    return rows


def stat(label, gold, cand, match, total):
    return (label, ratio(gold, total), ratio(match, gold),
            ratio(match, cand), fscore(match, gold, cand))


def checkrows(ctx, lines, stats, wrong, what):
    """Check rows of statistics with mismatches beside it."""
    got, mismatches = [], []
    for line in lines:
        x = line.split()
        if len(x) in (5, 8):
            got.append(x[:5])
        if len(x) in (3, 8):
            mismatches.append((x[-3], x[-2], x[-1]))
    ctx.check(len(got) == len(stats), 'number of ' + what)
    for x in got:
        for y in stats:
            if x[0] == y[0]:
                for a, b in zip(x[1:], y[1:]):
                    check(ctx, a, b, 'statistics of ' + what)
                break
        else:
            ctx.fail('statistics of %s: %s' % (what, ctx.str(x[0])))
    if wrong is not None:
        want = tally(wrong)
        if want:
            ctx.reach('wrong ' + what)
        ctx.check(len(mismatches) == len(want), 'number of wrong ' + what)
        for a, b, n in mismatches:
            ctx.check(any(a == x[0] and b == x[1] and int(n) == k
                    for x, k in want), 'wrong ' + what)


def tally(seq):
    out = []
    for a in seq:
        for x in out:
            if all(m == n for m, n in zip(x[0], a)):
                x[1] += 1
                break
        else:
            out.append([a, 1])
    return [tuple(x) for x in out]


def distinct(seq):
    out = []
    for a in seq:
        if not member(a, out):
            out.append(a)
    return out


def unique(seq):
    return len(seq) == len(set(seq))


def production(a):
    """Parent, children, and order of parts of the children."""
    kids = sorted(a.kids, key=lambda k: min(k.leaves))
    owner = {i: n for n, k in enumerate(kids) for i in k.leaves}
    parts, prev = [], None
    for i in sorted(owner):
        if prev is None:
            parts.append('%d' % owner[i])
        elif i != prev + 1:
            parts.append(',%d' % owner[i])
        elif owner[i] != owner[prev]:
            parts.append('%d' % owner[i])
        prev = i
    return tlib.cat([''.join(parts), '\t', a.label] + [
            x for k in kids for x in (' ', k.label)])


def checkbreakdowns(ctx, ev, stats, debug):
    """Tables of errors and frequencies; only when spans are unique."""
    text = ctx.stdout(ev.breakdowns)
    sections, lines = {}, []
    for line in text.splitlines():
        if line.startswith(' ') and line[1:2] not in (' ', '_'):
            lines = sections.setdefault(line.strip().split('(')[0].strip()
                    + ('(' + line.split('(')[1] if 'rules (' in line
                        else ''), [])
        elif line.strip() and line.strip()[0] != '_':
            lines.append(line)
    gold, cand, wrong, dup = [], [], [], False
    for r in stats:
        gb, cb = r['brackets']
        gold += [a for a, _ in gb]
        cand += [a for a, _ in cb]
        dup |= not unique([b for _, b in gb]) or not unique(
                [b for _, b in cb])
        wrong += [(a, x) for a, b in cb for x, y in gb
                if b == y and not a == x]
    match = [sum(overlap([x for x in r['brackets'][0] if x[0] == a],
            [x for x in r['brackets'][1] if x[0] == a]) for r in stats)
            for a in distinct(gold + cand)]
    rows = [stat(a, sum(a == b for b in gold), sum(a == b for b in cand), m,
            len(gold)) for a, m in zip(distinct(gold + cand), match)]
    checkrows(ctx, sections['Category Statistics'][1:], rows,
            None if dup else wrong, 'categories')
    # part-of-speech tags
    pairs = [x for r in stats for x in r['tags']]
    if all(a == b for a, b in pairs):
        ctx.check('POS Statistics' not in sections, 'no errors in tags')
    else:
        rows = [stat(a, sum(a == x for x, _ in pairs), sum(a == y
                for _, y in pairs), sum(a == x and a == y
                for x, y in pairs), len(pairs))
                for a in distinct([x for x, _ in pairs])]
        checkrows(ctx, sections['POS Statistics'][1:], rows,
                [(b, a) for a, b in pairs if not a == b], 'tags')
    # function tags
    gold, cand, wrong, dupf = [], [], [], False
    for r in stats:
        gf, cf = r['funs']
        gold += [x[0] for x in gf]
        cand += [x[0] for x in cf]
        dupf |= not unique([x[2] for x in gf]) or not unique(
                [x[2] for x in cf])
        wrong += [(x[0], y[0]) for x in cf for y in gf if x[1] == y[1]
                and x[2] == y[2] and x[0] != y[0]]
    if cand:
        rows = [stat(a, sum(a == b for b in gold), sum(a == b for b in cand),
                sum(overlap3([x for x in r['funs'][0] if x[0] == a],
                    [x for x in r['funs'][1] if x[0] == a]) for r in stats),
                len(gold)) for a in distinct(gold + cand)]
        checkrows(ctx, sections['Function Tag Statistics'][1:], rows,
                None if dupf else wrong, 'functions')
    else:
        ctx.check('Function Tag Statistics' not in sections, 'no functions')
    if dup or any(not unique([a.leaves for a in t.nodes() if not a.pos])
            for r in stats for t in r['trees']):
        return
    # parents of correct constituents
    wrong, rules, extra, missing = [], [], [], []
    for r in stats:
        if not r['words']:
            continue
        tables = []
        for t, br in zip(r['trees'], r['brackets']):
            found = {t: ''}
            for a in t.nodes():
                for k in a.kids:
                    found[k] = a.label
            tables.append({a.leaves: (a, b) for a, b in found.items()
                    if a.kids})
        spans = [[b for _, b in br] for br in r['brackets']]
        for b in spans[0]:
            if b in spans[1]:
                (x, gp), (y, cp) = tables[0][b], tables[1][b]
                if x.label == y.label and not gp == cp:
                    wrong.append((x.label, cp, gp))
        prods = [{b: production(a) for b, (a, _) in x.items() if len(b) > 1}
                for x in tables]
        rules += [(prods[1][b], prods[0][b]) for b in prods[1]
                if b in prods[0] and not prods[1][b] == prods[0][b]]
        extra += [(prods[1][b], ) for b in prods[1] if b not in prods[0]]
        missing += [(prods[0][b], ) for b in prods[0] if b not in prods[1]]
    got = [x.split() for x in sections['Attachment errors'][1:]]
    got = [x if len(x) == 4 else None for x in got]
    want = tally(wrong)
    ctx.check(len(got) == len(want), 'number of attachment errors')
    for x in got:
        if x is not None:  # not the parent of the root
            ctx.check(any(a[0] == x[0] and a[1] == x[1] and a[2] == x[2]
                    and k == int(x[3]) for a, k in want),
                    'attachment error')
    if want:
        ctx.reach('attachment')
    if not debug and max(len(rules), len(extra), len(missing)) > 10:
        return
    for title, want, size in (
            ('Rewrite rule mismatches', rules, 2),
            ('Rewrite rules(span not in gold trees)', extra, 1),
            ('Rewrite rules(span missing from candidate parses)', missing,
                1)):
        lines = sections[title][1:]
        got = [(int(lines[n][:8]), tuple(a[10:]
                for a in lines[n:n + size]))
                for n in range(0, len(lines), size)]
        want = tally(want)
        ctx.check(len(got) == len(want), title)
        for n, x in got:
            ctx.check(any(n == k and all(a == b for a, b in zip(x, y))
                    for y, k in want), title)
        if want:
            ctx.reach(title)
    ctx.reach('breakdowns')


def settings(ctx, p):
    param = dict(DEBUG=-1, MAX_ERROR=10, CUTOFF_LEN=40, LABELED=1,
            DISC_ONLY=0, LA=0, TED=0, DEP=0, DELETE_ROOT_PRETERMS=0,
            DELETE_LABEL_FOR_LENGTH=[], DELETE_LABEL=[], DELETE_WORD=[],
            EQ_LABEL=[], EQ_WORD=[])
    for key, val in p.get('param', {}).items():
        if isinstance(val, list) and val[0] == 'n':
            val = ctx.pick(key, val[1:])
        elif isinstance(val, list):
            val = [ctx.string('d', a[1:], 1, 1) if a[0] == '?' else a
                    for a in val]
        elif val == '?':
            val = ctx.choice(key, 2)
        param[key] = val
    for key in ('EQ_LABEL', 'EQ_WORD'):
        if param[key]:
            a, b = param[key]
            param[key] = [(a, a), (b, a)]
    return param


def alltrees(ctx, n, unary=0):
    sent = ['w%d' % i for i in range(n)]
    left = [unary]

    def build(a, root=False):
        if isinstance(a, int):
            return ['?PQ' if a == n - 1 else 'P', a]
        out = ['S' if root else '?AB'] + [build(k) for k in a]
        if left[0] and not root and ctx.flag('unary'):
            left[0] -= 1
            out = ['?AB', out]
        return out
    trees = [build(ctx.pick('shape', tlib.shapes(n)), True)
            for _ in range(2)]
    return trees[0], sent, trees[1], list(range(n))


def inputs(ctx):
    p = ctx.params
    param = settings(ctx, p)
    pairs = []
    for spec in p['pairs']:
        if isinstance(spec, dict):  # all trees with a number of words
            spec = alltrees(ctx, **spec)
        gold, gsent, cand, csent = spec
        g, c = instantiate(ctx, gold), instantiate(ctx, cand)
        gsent = [ctx.string('w', w[1:], 1, 1) if w[0] == '?' else w
                for w in gsent]
        csent = [gsent[w] if isinstance(w, int) else w for w in csent]
        pairs.append((g, gsent, c, csent))
    return param, pairs


def evaluate(ctx):
    """Scores of pairs of trees, separately and in total."""
    p = ctx.params
    mod, tree = ctx.mod('eval'), ctx.mod('tree')
    heads = p.get('heads', False)
    param, pairs = inputs(ctx)
    names = ('DELETE_LABEL_FOR_LENGTH', 'DELETE_LABEL', 'DELETE_WORD')
    real = mod.readparam(None)
    for a in param:
        if a in names:
            for x in param[a]:
                real[a].add(x)
        elif a in ('EQ_LABEL', 'EQ_WORD'):
            for x, y in param[a]:
                real[a][x] = y
        else:
            real[a] = param[a]
    real['DEP'] = heads
    ev = mod.Evaluator(real)
    stats = []
    for n, (gold, gsent, cand, csent) in enumerate(pairs):
        r = pairstats(gold, cand, gsent, csent, param, heads)
        args = ('%d' % n, totree(ctx, tree, gold, heads), list(gsent),
                totree(ctx, tree, cand, heads), list(csent))
        if r is None:
            try:
                ev.add(*args)
            except (ValueError, KeyError):
                ctx.reach('mismatch')
                return
            ctx.fail('sentences that do not match are accepted')
        stats.append(r)
        res = ev.add(*args)
        one = scores([r])
        got = res.scores()
        for key, name in (('LP', 'lp'), ('LR', 'lr'), ('LF', 'lf'),
                ('POS', 'tag')):
            check(ctx, got[key], one[name], key + ' of sentence')
        if param['LABELED']:
            check(ctx, got['FUN'], one['fun'], 'FUN of sentence')
        row = ctx.stdout(res.info).split()
        ctx.check([int(x) for x in row[:2] + row[4:9]] == [n, r['length'],
                r['match'], r['gold'], r['cand'], r['words'], r['pos']],
                'numbers of sentence')
        for x, name in ((row[2], 'lr'), (row[3], 'lp'), (row[9], 'tag')):
            check(ctx, x, one[name], name + ' in row of sentence')
        if r['words'] and r['match'] < r['gold']:
            ctx.reach('errors')
        if r['match']:
            ctx.reach('match')
        if r['words'] < len(gsent):
            ctx.reach('deleted')
        if r['exact']:
            ctx.reach('exact')
    if param['DISC_ONLY']:
        every = [r for r in stats if r['gold'] or r['cand']]
    else:
        every = stats
    total = scores(stats)
    total['ex'] = ratio(sum(r['exact'] for r in every), len(every))
    total['n'] = len(every)
    got = ev.acc.scores()
    for key in ('lr', 'lp', 'lf', 'ex', 'tag', 'fun'):
        if key != 'fun' or param['LABELED']:
            check(ctx, got[key], total[key], key + ' in total')
    rows = table(ctx, ev.summary())
    short = [r for r in stats if r['length'] <= param['CUTOFF_LEN']]
    cols = [total]
    if len(short) < len(stats):
        ctx.reach('cutoff')
        cols.insert(0, scores(short))
        if param['DISC_ONLY']:
            short = [r for r in short if r['gold'] or r['cand']]
        cols[0]['ex'] = ratio(sum(r['exact'] for r in short), len(short))
        cols[0]['n'] = len(short)
    for n, t in enumerate(cols):
        for key, name in ROWS:
            if key == 'function tags' and not param['LABELED']:
                continue
            for row in rows:
                if row.startswith(key):
                    check(ctx, rows[row][n], t[name], key + ' in summary')
        for key, name in (('number of sentences', 'n'),
                ('longest sentence', 'longest')):
            ctx.check(int(rows[key][n]) == t[name], key)
        for key, name, disc in (('gold brackets', 'gold', 'disc'),
                ('cand. brackets', 'cand', 'cdisc')):
            x = rows.get(key) or rows[key + ' (disc.)']
            ctx.check(int(x[n]) == t[name], key)
            if len(cols) == 1:
                ctx.check(len(x) == 2 or (x[1:] == [] and t[disc] == 0),
                        'discontinuous ' + key)
                if len(x) == 2:
                    ctx.check(x[1] == '(%d)' % t[disc],
                            'number of discontinuous ' + key)
    for key, present in (('leaf-ancestor', param['LA']), ('unlabeled '
            'dependencies', heads), ('function tags', any(r['cfun']
            for r in stats) and param['LABELED'])):
        if present:
            ctx.check(any(row.startswith(key) for row in rows),
                    key + ' in summary')
    if param['LABELED']:
        checkbreakdowns(ctx, ev, stats, real['DEBUG'])


def text(a, sent):
    """A tree in (discontinuous) bracket format."""
    return tlib.cat(['(', a[0]] + [x for k in a[3] for x in (
            [' ', text(k, sent)] if isinstance(k, tuple)
            else [' ', sent[k]])] + [')'])


def distext(a, sent):
    return tlib.cat(['(', a[0]] + [x for k in a[3] for x in (
            [' ', distext(k, sent)] if isinstance(k, tuple)
            else [' %d=' % k, sent[k]])] + [')'])


def program(ctx):
    """The command line program."""
    mod = ctx.mod('eval')
    p = ctx.params
    ctx.mod('treebank')
    param, pairs = inputs(ctx)
    conv = text if p['fmt'] == 'bracket' else distext
    files = [ctx.file(name, tlib.cat([x for g, gs, c, cs in pairs for x in (
            conv(*((g, gs) if name[0] == 'g' else (c, cs))), '\n')]))
            for name in ('gold', 'cand')]
    lines = []
    for key in ('DELETE_LABEL', 'DELETE_WORD'):
        lines += [tlib.cat([key, ' ', x, '\n']) for x in param[key]]
    prm = [ctx.file('params', tlib.cat(lines))] if lines else []
    opts = ['--cutofflen=%d' % param['CUTOFF_LEN']]
    for key in ('DISC_ONLY', 'LA', 'TED'):
        if param[key]:
            opts.append('--' + key.replace('_', '').lower())
    stats = [pairstats(g, c, gs, cs, param, False)
            for g, gs, c, cs in pairs]
    import sys
    old = sys.argv
    sys.argv = ['discodop', 'eval', '--fmt=' + p['fmt']] + opts + files + prm
    try:
        out = ctx.stdout(mod.main)
    finally:
        sys.argv = old
    rows = table(ctx, out[out.index(' Summary'):])
    short = [r for r in stats if r['length'] <= param['CUTOFF_LEN']]
    cols = [scores(stats)] if len(short) == len(stats) else [
            scores(short), scores(stats)]
    for n, t in enumerate(cols):
        for key, name in ROWS:
            for row in rows:
                if row.startswith(key) and key != 'exact match':
                    check(ctx, rows[row][n], t[name], key + ' in output')
    for name, key in (('LA', 'leaf-ancestor'), ('TED', 'tree-dist')):
        ctx.check(any(row.startswith(key) for row in rows)
                == bool(param[name]), key + ' enabled')
    ctx.check(int(rows['number of sentences'][-1]) == len(stats)
            or param['DISC_ONLY'], 'number of sentences')
    ctx.check(len(rows['labeled recall']) == len(cols), 'columns')
    ctx.reach('columns %d' % len(cols))


def functions(ctx):
    """Scores of multisets and sequences."""
    mod = ctx.mod('eval')
    n, m = ctx.params['sizes']
    a = [ctx.string('a', 'xyz', 1, 1) for _ in range(n)]
    b = [ctx.string('b', 'xyz', 1, 1) for _ in range(m)]
    lev = mod.editdistance(a, b)
    # least cost over all alignments

    def align(x, y):
        if not x or not y:
            yield len(x) + len(y)
        else:
            for c in align(x[1:], y):
                yield c + 1
            for c in align(x, y[1:]):
                yield c + 1
            d = ctx.If(x[0] == y[0], 0, 1)
            for c in align(x[1:], y[1:]):
                yield c + d
    costs = list(align(a, b))
    ctx.check(ctx.And(*[c >= lev for c in costs]), 'not too high')
    ctx.check(ctx.Or(*[c == lev for c in costs]), 'not too low')
    ctx.reach('distance')


def parameters(ctx):
    """Reading parameters: equivalence classes."""
    mod = ctx.mod('eval')
    key = ctx.pick('key', ['EQ_LABEL', 'EQ_WORD'])
    pairs = [(ctx.string('x', 'ABCD', 1, 1), ctx.string('y', 'ABCD', 1, 1))
            for _ in range(ctx.params['pairs'])]
    word = ctx.string('w', 'AB', 1, 1)
    lines = ['# comment', '', 'LABELED 0', tlib.cat(['DELETE_WORD ', word])]
    if ctx.params.get('twice') and ctx.flag('twice'):
        lines.append('LABELED 1')
    lines += [tlib.cat([key, ' ', x, ' ', y]) for x, y in pairs]
    lines += ['DELETE_LABEL P', 'DELETE_LABEL a b', 'CUTOFF_LEN 12',
            'DELETE_LABEL_FOR_LENGTH Q']
    path = ctx.file('test.prm', tlib.cat([a for x in lines
            for a in (x, '\n')]))
    if 'LABELED 1' in lines:
        try:
            mod.readparam(path)
        except ValueError:
            ctx.reach('error')
            return
        ctx.fail('a parameter is given twice')
    param = mod.readparam(path)
    ctx.check(param['LABELED'] == 0 and param['CUTOFF_LEN'] == 12,
            'numeric parameters')
    for a in 'ABCD':
        ctx.check((a in param['DELETE_WORD']) == bool(word == a), 'words')
    ctx.check(len(param['DELETE_LABEL']) == 2 and 'P' in param['DELETE_LABEL']
            and 'a b' in param['DELETE_LABEL'], 'labels')
    ctx.check('Q' in param['DELETE_LABEL_FOR_LENGTH']
            and len(param['DELETE_LABEL_FOR_LENGTH']) == 1, 'for length')
    eq = param[key]
    other = 'EQ_WORD' if key == 'EQ_LABEL' else 'EQ_LABEL'
    ctx.check(len(param[other]) == 0, 'other equivalences')
    classes = {a: {a} for a in 'ABCD'}
    for x, y in pairs:
        x = [a for a in 'ABCD' if x == a][0]
        y = [a for a in 'ABCD' if y == a][0]
        union = classes[x] | classes[y]
        for a in union:
            classes[a] = union
    for a in 'ABCD':
        x = eq.get(a, a)
        ctx.check(any(x == b for b in classes[a]), 'in the same class')
        for b in 'ABCD':
            ctx.check((x == eq.get(b, b)) == (b in classes[a]),
                    'equivalent')
    ctx.reach('classes')


G1 = ['S', ['?AB', ['P', 0], ['?AB', ['Q', 1], ['?PQ', 2]]], ['?PQ', 3]]
C1 = ['S', ['?AB', ['P', 0], ['Q', 1]], ['?AB', ['?PQ', 2], ['Q', 3]]]
C2 = ['S', ['?AB', ['?AB', ['P', 0], ['Q', 1], ['?PQ', 2]]], ['Q', 3]]
G5 = ['S', ['?ABC', ['?AB', ['P', 0], ['Q', 1]], ['?PQ', 2]], ['?PQ', 3]]
D5 = ['S', ['?AB', ['?AB', ['P', 0], ['Q', 2]], ['P', 3]], ['?PQ', 1]]
D1 = ['S', ['?AB', ['P', 0], ['Q', 2]], ['?AB', ['?PQ', 1], ['P', 3]]]
D2 = ['S', ['?AB', ['P', 0], ['Q', 2], ['?PQ', 3]], ['Q', 1]]
D3 = ['S', ['?AB', ['P', 0], ['P', 4]], ['?AB', ['P', 1], ['P', 3]], ['P', 2]]
D4 = ['S', ['?AB', ['P', 0], ['P', 3]], ['?AB', ['P', 1], ['P', 4]], ['P', 2]]
W4 = ['w', '?xw', 'y', 'z']
I4 = [0, 1, 2, 3]
H1 = ['S', ['A*', ['P*', 0], ['A', ['Q', 1], ['P*', 2]]], ['Q', 3]]
H2 = ['S', ['A*', ['P', 0], ['A*', ['Q*', 1], ['P', 2]]], ['Q', 3]]
H3 = ['S', ['A/SB*', ['P*', 0], ['A/?OC?', ['Q/X', 1], ['P*', 2]]], ['Q', 3]]
F1 = ['S', ['A/?SB?SB-TMP?', ['P', 0], ['A/OC', ['Q/?HD?', 1], ['P', 2]]],
        ['?PQ', 3]]
F2 = ['S', ['?AB/?SB?OC', ['P', 0], ['A/?OC?', ['Q/HD', 1], ['?PQ', 2]]],
        ['P', 3]]


def some(spec, *keep):
    """Make all symbolic labels concrete except for some."""
    count = [0]

    def conv(a):
        if isinstance(a, str) and a[0] == '?':
            count[0] += 1
            return a if count[0] in keep else a[1]
        return [conv(b) for b in a] if isinstance(a, list) else a
    return conv(spec)


W4C = ['w', 'x', 'y', 'z']
HARNESSES = {
    'evaluate': dict(fn=evaluate, reach=[], params=dict(quick=[
        dict(pairs=[dict(n=3)]),
        dict(pairs=[dict(n=3)], param=dict(DELETE_LABEL=['?SA'])),
        dict(pairs=[(G1, W4C, C1, I4)]),
        dict(pairs=[(some(G1, 1, 2), W4C, C2, I4)]),
        dict(pairs=[(D1, W4C, D2, I4)], param=dict(DISC_ONLY='?',
            LABELED='?')),
        dict(pairs=[(some(G1, 1, 3), W4, some(C1, 2, 3), I4)],
            param=dict(DELETE_LABEL=['?ABQ'], DELETE_WORD=['?xyz'])),
        dict(pairs=[(some(G1, 1), W4C, some(C2, 1), I4)],
            param=dict(DELETE_LABEL=['?SA'], EQ_LABEL=['A', '?BPS'])),
        dict(pairs=[(some(D1, 1, 3), W4, some(D2, 1), I4)], param=dict(
            DELETE_ROOT_PRETERMS='?', DELETE_LABEL_FOR_LENGTH=['?PQ'],
            CUTOFF_LEN=3)),
        dict(pairs=[(some(G1, 1, 4), W4, some(C1, 1), I4)],
            param=dict(DELETE_ROOT_PRETERMS='?')),
        ], thorough=[
        dict(pairs=[dict(n=4)], param=dict(LABELED='?')),
        dict(pairs=[dict(n=3, unary=2)], param=dict(DELETE_LABEL=['?SAQ'],
            DISC_ONLY='?')),
        dict(pairs=[(G1, W4, C1, I4)], param=dict(
            DELETE_LABEL=['?ABPQ'], DELETE_WORD=['?xyz'])),
        dict(pairs=[(D1, W4, D2, I4)], param=dict(DELETE_LABEL=['?ABPQ'],
            DELETE_LABEL_FOR_LENGTH=['?PQ'], CUTOFF_LEN=3,
            DELETE_ROOT_PRETERMS='?')),
        dict(pairs=[(G1, W4C, C2, I4)],
            param=dict(DELETE_LABEL=['?SA'], EQ_LABEL=['A', '?BPS'])),
        ])),
    'tables': dict(fn=evaluate, reach=['breakdowns', 'wrong categories',
        'attachment', 'wrong tags', 'Rewrite rule mismatches'],
        params=dict(quick=[
        dict(pairs=[(G5, W4C, G5, I4)], param=dict(DEBUG='?')),
        dict(pairs=[(some(G5, 1), W4C, some(G5, 1, 4), I4),
            (some(D5, 2), W4C, D5, I4)]),
        ], thorough=[
        dict(pairs=[(G5, W4C, D5, I4), (G5, W4C, G5, I4)]),
        dict(pairs=[(some(G5, 1), W4C, G5, I4)], param=dict(
            DELETE_LABEL=['?ASQ'], EQ_LABEL=['A', '?BP'])),
        ])),
    'errors': dict(fn=evaluate, reach=['breakdowns', 'Rewrite rules(span not '
        'in gold trees)', 'Rewrite rules(span missing from candidate parses)'],
        params=dict(quick=[
        dict(pairs=[(some(G5, 1, 2), W4C, some(D5, 1), I4),
            (some(G1, 1), W4C, some(G5, 2), I4)]),
        ], thorough=[
        dict(pairs=[(G5, W4C, D5, I4), (some(G1, 1), W4C, G5, I4)]),
        ])),
    'program': dict(fn=program, reach=['columns 1', 'columns 2'],
        params=dict(quick=[
        dict(pairs=[(some(G1, 1, 4), W4C, some(C1, 1), I4), (some(G5, 2),
            W4C, some(C2, 1), I4)], fmt='bracket', param=dict(
            CUTOFF_LEN=['n', 3, 4], DELETE_LABEL=['?PX'], DELETE_WORD=['?wx'])),
        dict(pairs=[(some(G1, 1, 4), W4C, some(D1, 1), I4), (some(D5, 2),
            W4C, some(D2, 1), I4)], fmt='discbracket', param=dict(
            CUTOFF_LEN=['n', 3, 4], DISC_ONLY='?', LA='?', TED='?')),
        ], thorough=[
        dict(pairs=[(G1, W4C, C1, I4), (some(G5, 2), W4C, C2, I4)],
            fmt='bracket', param=dict(CUTOFF_LEN=['n', 3, 4],
            DELETE_LABEL=['?PX'], DELETE_WORD=['?wx'])),
        dict(pairs=[(some(G1, 1, 4), W4C, D1, I4), (D5, W4C, some(D2, 1),
            I4)], fmt='discbracket', param=dict(CUTOFF_LEN=['n', 3, 4],
            DISC_ONLY='?', LA='?', TED='?', DELETE_LABEL=['?SA'])),
        ])),
    'missing': dict(fn=evaluate, reach=['deleted'],
        params=dict(quick=[
        dict(pairs=[(some(G1, 1, 4), W4, ['S', ['?AB', ['P', 0], ['Q', 1]],
            ['?PQ', 2]], [0, 2, 3])], param=dict(DELETE_LABEL=['?PQ'],
            DELETE_ROOT_PRETERMS='?')),
        dict(pairs=[(['S', ['P', 0], ['A', ['P', 1], ['Q', 2]]],
            ['x', 'y', 'z'], ['S', ['A', ['P', 0], ['Q', 1]]], [1, 2])],
            param=dict(DELETE_ROOT_PRETERMS='?')),
        ], thorough=[
        dict(pairs=[(G1, W4, ['S', ['?AB', ['P', 0], ['Q', 1]],
            ['?PQ', 2]], [0, 2, 3])], param=dict(DELETE_LABEL=['?PQA'],
            DELETE_WORD=['?xyz'], DELETE_ROOT_PRETERMS='?')),
        ])),
    'words': dict(fn=evaluate, reach=['mismatch', 'match'],
        params=dict(quick=[
        dict(pairs=[(some(G1, 1), ['w', '?xy', 'y', '?yz'], some(C1, 1),
            ['w', 'x', 2, 'z'])], param=dict(EQ_WORD=['?xy', '?xy'])),
        ], thorough=[
        dict(pairs=[(G1, ['w', '?xy', 'y', '?yz'], some(C1, 1),
            ['w', 'x', 2, 'z'])], param=dict(EQ_WORD=['?xy', '?xy'],
            DELETE_WORD=['?xy'])),
        ])),
    'corpus': dict(fn=evaluate, reach=['exact', 'errors'],
        params=dict(quick=[
        dict(pairs=[(some(G1, 1), W4C, some(C1, 2, 3), I4),
            (some(D1, 1), W4C, some(D2, 1), I4),
            (['S', ['?AB', ['P', 0]]], ['x'], ['S', ['A', ['?PQ', 0]]],
                [0])], param=dict(CUTOFF_LEN=3, DISC_ONLY='?')),
        dict(pairs=[(some(G1, 1), W4C, some(C1, 2, 3), I4),
            (['S', ['?PQ', 0]], ['x'], ['S', ['P', 0]], [0])],
            param=dict(LA='?', TED='?', DELETE_LABEL=['?SAQ'])),
        ], thorough=[
        dict(pairs=[(G1, W4C, some(C1, 2, 3), I4), (some(D1, 1), W4C, D2,
            I4), (['S', ['?AB', ['?PQ', 0]]], ['x'], ['S', ['A', ['?PQ',
            0]]], [0])], param=dict(CUTOFF_LEN=3, DISC_ONLY='?', LA='?',
            DELETE_LABEL=['?SQ'])),
        ])),
    'distances': dict(fn=evaluate, reach=['errors'], params=dict(quick=[
        dict(pairs=[(some(G1, 1, 2), W4C, some(C2, 1, 2), I4)],
            param=dict(LA=1, TED='?', DELETE_LABEL=['?SX'])),
        dict(pairs=[(some(G1, 1, 2), W4C, some(C1, 1, 2), I4)],
            param=dict(LA='?', TED=1)),
        dict(pairs=[(some(D1, 1, 2), W4C, some(D2, 1), I4)],
            param=dict(LA=1, TED='?')),
        dict(pairs=[(some(D3, 1), W4C + ['v'], some(D4, 2), I4 + [4])],
            param=dict(LA='?', TED='?')),
        ], thorough=[
        dict(pairs=[dict(n=4)], param=dict(LA=1)),
        dict(pairs=[dict(n=3, unary=2)], param=dict(LA='?', TED='?',
            DELETE_LABEL=['?SAQ'])),
        dict(pairs=[(D3, W4C + ['v'], D4, I4 + [4])], param=dict(LA='?',
            TED='?')),
        ])),
    'functions': dict(fn=evaluate, reach=['match'], params=dict(quick=[
        dict(pairs=[(some(F1, 2, 3), W4C, some(F2, 1), I4)]),
        dict(pairs=[(some(F1, 1), W4C, some(F2, 2), I4),
            (some(F2, 1), W4C, F1, I4)], param=dict(CUTOFF_LEN=3,
            DELETE_LABEL_FOR_LENGTH=['?PX'])),
        ], thorough=[
        dict(pairs=[(F1, W4C, F2, I4)], param=dict(DELETE_LABEL=['?AQS'])),
        ])),
    'dependencies': dict(fn=evaluate, reach=['match'], params=dict(quick=[
        dict(pairs=[(H1, W4C, H2, I4), (H3, W4C, H1, I4)], heads=True,
            param=dict(CUTOFF_LEN=3, DELETE_LABEL_FOR_LENGTH=['?PX'])),
        dict(pairs=[(H3, W4C, H2, I4), (H1, W4C, H3, I4)], heads=True),
        ], thorough=[
        dict(pairs=[(H3, W4C, H2, I4), (H1, W4C, H3, I4), (H3, W4C, H1,
            I4)], heads=True, param=dict(LA='?', TED='?')),
        ])),
    'editdistance': dict(fn=functions, reach=['distance'], params=dict(
        quick=[dict(sizes=[3, 3]), dict(sizes=[0, 2]), dict(sizes=[4, 2])],
        thorough=[dict(sizes=[4, 4]), dict(sizes=[5, 3])])),
    'parameters': dict(fn=parameters, reach=['classes'], params=dict(
        quick=[dict(pairs=2, twice=True)], thorough=[dict(pairs=3)])),
}
