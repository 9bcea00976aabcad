"""Treebank transformations: annotation of labels and reversibility."""
import tlib
NEEDS = ['bit', 'containers']
OUTSIDE = ('Language-specific conditions of state splits other than those '
        'listed; compounds of the French treebank; collapsing of the labels '
        'PRT|ADVP and --, which contain a separator; larger trees; reversal of '
        'transformations that are documented as heuristic.')
WORD, LEMMA, TAG, MORPH, FUNC, PARENT = range(6)


def oneof(ctx, name, options):
    """A symbolic string from a fixed set."""
    if len(options) == 1:
        return options[0]
    chars = ''.join(sorted(set(''.join(options))))
    s = ctx.string(name, chars, min(map(len, options)),
            max(map(len, options)))
    ctx.assume(ctx.Or(*[s == a for a in options]))
    return s


class Input(object):
    """A tree with attributes; nodes are numbered in pre-order."""

    def __init__(self, ctx, p, n):
        mod = ctx.mod('tree')
        self.ctx = ctx
        self.ref = tlib.gentree(ctx, n,
                lambda: oneof(ctx, 'l', p.get('labels', ['A', 'B'])),
                pos=lambda: oneof(ctx, 'p', p.get('pos', ['P'])),
                unary=p.get('unary', 0), cont=p.get('cont', False))
        self.ref = (p.get('root', 'ROOT'), [self.ref])
        self.tree = tlib.totree(mod.ParentedTree, self.ref)
        self.nodes = list(self.tree.subtrees())
        self.refs = tlib.subtrees(self.ref)
        self.parents = [None] * len(self.refs)
        for i, a in enumerate(self.refs):
            for j, b in enumerate(self.refs):
                if any(x is a for x in b[1] if isinstance(x, tuple)):
                    self.parents[i] = j
        self.sent = [oneof(ctx, 'w', p.get('words', ['a']))
                for _ in range(n)]
        self.pre = [not isinstance(a[1][0], tuple) for a in self.refs]
        self.func, self.morph, self.lemma = [], [], []
        for a, b, pre in zip(self.nodes, self.refs, self.pre):
            f = oneof(ctx, 'f', p['funcs']) if (
                    'funcs' in p and a is not self.tree) else '--'
            m = oneof(ctx, 'm', p['morph']) if 'morph' in p and pre else '--'
            lem = oneof(ctx, 'L', p['lemma']) if 'lemma' in p and pre else '--'
            self.func.append(f)
            self.morph.append(m)
            self.lemma.append(lem)
            if p.get('frozen'):
                a.source = ('--', lem, b[0], m, f, '0')
            elif not p.get('nosource'):
                a.source = ['--', lem, b[0], m, f, '0']

    def kids(self, i):
        return [j for j, k in enumerate(self.parents) if k == i]


def strip(label):
    for c in '-^':
        i = label.find(c)
        if i != -1:
            label = label[:i]
    return label


def wellformed(ctx, tree, msg):
    mod = ctx.mod('tree')
    for a in tree.subtrees():
        for n, b in enumerate(a):
            if isinstance(b, mod.Tree):
                ctx.check(b.parent is a, msg + 'parent')
        first = [b if not isinstance(b, mod.Tree) else min(b.leaves())
                for b in a]
        ctx.check(first == sorted(first), msg + 'order')
    ctx.check(tree.parent is None, msg + 'root')


def isyear(w):
    return len(w) == 4 and bool(ctx_or(w[:2] == '19', w[:2] == '20')) and all(
            bool(ctx_or(*[c == d for d in '0123456789'])) for c in w[2:])


def ctx_or(*args):
    return any(bool(a) for a in args)


def isin(x, options):
    return any(bool(x == a) for a in options)


def suffix(name, t, i):
    """Annotation for node i as documented."""
    lab, pre = t.refs[i][0], t.pre[i]
    par = t.parents[i]
    func = t.func[i]
    word = t.sent[t.refs[i][1][0]] if pre else None
    if name == 'PARENT':
        # one level of parent annotation; skips preterminals
        return '' if pre or par is None else '^' + strip(t.refs[par][0])
    if name == 'TAGPA':
        return '^' + strip(t.refs[par][0]) if pre and not isin(word,
                ['.', ',']) else ''
    if name == 'MARK-YEAR':
        return '^year' if pre and isyear(word) else ''
    if name == 'PUNCT':
        return '^' + word if pre and isin(word, '.?!') else ''
    if name == 'MARK-UNARY':
        return '^U' if not pre and len(t.refs[i][1]) == 1 else ''
    if name == 'NP-PP':
        return '^NP' if par is not None and bool(lab == 'PP') and bool(
                t.refs[par][0] == 'NP') else ''
    if name == 'S-RC':
        return '^RC' if bool(lab == 'S') and bool(func == 'RC') else ''
    if name == 'NP' or name == 'VP-GF':
        return '^' + ('' if bool(func == '--') else func) if bool(
                lab == name[:2]) else ''
    if name == 'splitBaseNP':
        return '^B' if bool(lab == 'NP') and all(t.pre[j]
                for j in t.kids(i)) and not pre else ''
    if name == 'unaryDT':
        return '^U' if bool(lab == 'DT') and len(t.kids(par)) == 1 else ''
    if name == 'dominatesV':
        return '^v' if bool(lab == 'VP') and any(bool(a[0][0] == 'V')
                for a in tlib.preterminals(t.refs[i])) else ''
    if name == 'splitPercent':
        return '^%' if pre and bool(word == '%') else ''
    if name == 'noHead':
        return '' if pre or par is None or any(isin(t.func[j],
                ['HD', 'PH']) for j in t.kids(i)) else '^nohead'
    raise NotImplementedError


CONFIGS = {
    'PARENT': dict(labels=['A', 'B', 'B-X', 'A^B']),
    'TAGPA': dict(labels=['A', 'B-X'], words=['.', ',', 'a']),
    'MARK-YEAR': dict(words=['1987', '2099', '2100', '198', '19870', '19a7']),
    'PUNCT': dict(words=['.', '?', '!', ',', 'a.', 'a']),
    'MARK-UNARY': dict(labels=['A', 'B']),
    'NP-PP': dict(labels=['NP', 'PP', 'P']),
    'S-RC': dict(labels=['S', 'NP'], funcs=['RC', 'R', '--']),
    'NP': dict(labels=['NP', 'NP-X', 'PP'], funcs=['OA', '--']),
    'VP-GF': dict(labels=['VP', 'NP'], funcs=['OC', '--']),
    'splitBaseNP': dict(labels=['NP', 'PP']),
    'unaryDT': dict(labels=['A'], pos=['DT', 'D']),
    'dominatesV': dict(labels=['VP', 'NP'], pos=['VB', 'NN']),
    'splitPercent': dict(words=['%', '%a', 'a']),
    'noHead': dict(funcs=['HD', 'PH', 'NK']),
}


def annotating(ctx):
    """State splits add the documented annotation to the labels and affect
    nothing else; they are removed by reversetransform."""
    tt = ctx.mod('treebanktransforms')
    p = dict(ctx.params)
    name = ctx.pick('name', p['names'])
    p.update(CONFIGS[name])
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    want = [a[0] + suffix(name, t, i) for i, a in enumerate(t.refs)]
    sent = list(t.sent)
    got = tt.transform(t.tree, t.sent, (name, ))
    ctx.check(got is t.tree, 'in-place')
    nodes = list(got.subtrees())
    ctx.check(len(nodes) == len(t.nodes) and all(a is b
            for a, b in zip(nodes, t.nodes)), 'nodes')
    ctx.check(ctx.And(*[a == b for a, b in zip(sent, t.sent)]), 'sentence')
    ctx.check(got.leaves() == tlib.leaves(t.ref), 'leaves')
    for a, b in zip(nodes, want):
        ctx.check(a.label == b, name + ': label')
    wellformed(ctx, got, name + ': ')
    plain = [ctx.Or(*[c == '^' for c in a[0][1:]]) for a in t.refs]
    back = tt.reversetransform(got, t.sent, (name, ))
    ctx.check(tlib.same(ctx, dropsplits(tlib.fromtree(back)), dropsplits(
            t.ref)), name + ': reversed')
    for a, b in zip(back.subtrees(), t.refs):
        ctx.check(ctx.Not(ctx.Or(*[c == '^' for c in a.label[1:]])),
                name + ': no state splits')
    if not bool(ctx.Or(*plain)):
        ctx.check(tlib.same(ctx, tlib.fromtree(back), t.ref),
                name + ': original')
    if any(len(a) != len(b[0]) for a, b in zip(want, t.refs)):
        ctx.reach(name)
    ctx.observe(want)


def dropsplits(t):
    if not isinstance(t, tuple):
        return t
    lab = t[0]
    i = lab.find('^', 1)
    return (lab if i == -1 else lab[:i], [dropsplits(a) for a in t[1]])


def attr(node, n):
    return node.source[n] if node.source else '--'


def restoring(ctx):
    """Attributes encoded in the tree by transformations are restored by
    the reverse transformation, along with labels and structure."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    names = ctx.pick('names', p['names'])
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    trees = tt.transform(t.tree, t.sent, names)
    ctx.check(trees.leaves() == tlib.leaves(t.ref), 'leaves')
    wellformed(ctx, trees, 'transformed: ')
    for name in names:
        encoded(ctx, t, trees, name, names)
    ctx.observe(trees.label)
    # only labels and structure are available in the output of a parser
    if ctx.flag('strip'):
        for a in trees.subtrees():
            a.source = None
    back = tt.reversetransform(trees, t.sent, names)
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t.ref), 'labels')
    wellformed(ctx, back, 'reversed: ')
    if any(n in ('APPEND-FUNC', 'FUNC-NODE') for n in names):
        for a, f in zip(back.subtrees(), t.func):
            ctx.check(attr(a, FUNC) == f, 'function')
    for a, m, lem, pre, b in zip(back.subtrees(), t.morph, t.lemma, t.pre,
            t.refs):
        if pre and any(n in ('APPEND-MORPH', 'MORPH-NODE') for n in names):
            ctx.check(attr(a, MORPH) == m, 'morphology')
        if pre and 'LEMMA-NODE' in names:
            ctx.check(attr(a, LEMMA) == lem, 'lemma')
        if a.source and pre:
            ctx.check(ctx.Or(a.source[TAG] == b[0], a.source[TAG] == '--'),
                    'tag')
    ctx.reach('-'.join(names))


def brackets(m):
    out = ''
    for c in m:
        out = out + ('[' if bool(c == '(') else ']' if bool(c == ')') else c)
    return out


def encoded(ctx, t, tree, name, names):
    """The attributes are visible in the transformed tree."""
    if len(names) > 1:
        return
    nodes = list(tree.subtrees())
    if name in ('APPEND-FUNC', 'APPEND-MORPH'):
        ctx.check(len(nodes) == len(t.nodes), 'no new nodes')
        for a, b, f, m, pre in zip(nodes, t.refs, t.func, t.morph, t.pre):
            if name == 'APPEND-FUNC':
                ctx.check(a.label == (b[0] if bool(f == '--') else b[0]
                        + '-' + f), 'label with function')
            elif pre:
                ctx.check(a.label == b[0] + '/' + brackets(m),
                        'label with morphology')
            else:
                ctx.check(a.label == b[0], 'label')
        return

    def build(i):
        ref, f, m, lem = t.refs[i], t.func[i], t.morph[i], t.lemma[i]
        if name == 'FUNC-NODE':
            kids = [build(j) for j in t.kids(i)] or ref[1]
            if bool(f == '--'):
                return (ref[0], kids)
            return ('-' + f, [(ref[0], kids)])
        if not t.pre[i]:
            return (ref[0], [build(j) for j in t.kids(i)])
        if name == 'MORPH-NODE':
            return (brackets(m), [ref])
        return (ref[0], [(lem,
                ref[1])])
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), build(0)),
            'inserted nodes')


def unarynodes(ctx):
    """Phrasal projections of single tokens: added above the given tags under
    the given phrases, with the function of the token; reversible."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    name = p['name']
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    for i, pre in enumerate(t.pre):  # no such projections to start with
        if not pre and len(t.refs[i][1]) == 1:
            ctx.assume(ctx.Not(t.refs[i][0] == 'NP'))
    tags, parents = p['tags'], p['parents']

    def build(i):
        ref = t.refs[i]
        if not t.pre[i]:
            return (ref[0], [build(j) for j in t.kids(i)])
        if isin(ref[0], tags) and isin(t.refs[t.parents[i]][0], parents):
            ctx.reach('added')
            return ('NP', [ref])
        return ref
    want = build(0)
    got = tt.transform(t.tree, t.sent, (name, ))
    ctx.check(tlib.same(ctx, tlib.fromtree(got), want), 'transformed')
    wellformed(ctx, got, 'transformed: ')
    for a, f, pre in zip(t.nodes, t.func, t.pre):
        ctx.check(a.source[FUNC] == f, 'function of projection')
        if pre and not isinstance(a[0], int):
            x = a[0].source[FUNC]
            ctx.check(x == 'hd' or x == 'HD', 'token is head')
    back = tt.reversetransform(got, t.sent, (name, ))
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t.ref), 'reversed')
    wellformed(ctx, back, 'reversed: ')
    for a, f in zip(back.subtrees(), t.func):
        ctx.check(attr(a, FUNC) == f, 'function')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(back)))


def structural(ctx):
    """Transformations that introduce nodes keep all other nodes, the words
    and their order, and yield a well-formed tree; those with an inverse are
    undone."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    name = p['name']
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    if p.get('head'):
        for i, pre in enumerate(t.pre):
            if not pre:
                h = ctx.choice('head', len(t.kids(i)))
                t.nodes[t.kids(i)[h]].type = ctx.mod('tree').HEAD
                # a particle is not a head
                ctx.assume(t.func[t.kids(i)[h]] != 'SVP')
    if name == 'SBAR':  # complementizers are words
        for a, pre, f in zip(t.refs, t.pre, t.func):
            ctx.assume(ctx.Or(pre, f != 'CP'))
    sent = list(t.sent)
    before = [a for a, pre in zip(t.nodes, t.pre) if pre]
    got = tt.transform(t.tree, t.sent, (name, ))
    ctx.check(got is t.tree, 'in-place')
    ctx.check(sorted(got.leaves()) == sorted(tlib.leaves(t.ref)), 'leaves')
    ctx.check(ctx.And(*[a == b for a, b in zip(sent, t.sent)]), 'sentence')
    wellformed(ctx, got, 'transformed: ')
    nodes = list(got.subtrees())
    for a, i in zip(before, [i for i, pre in enumerate(t.pre) if pre]):
        ctx.check(any(a is b for b in nodes), 'preterminals are kept')
        ctx.check(a.label == t.refs[i][0], 'label of preterminal')
    for i, ref in enumerate(t.refs):
        span = sorted(tlib.leaves(ref))
        ctx.check(any(sorted(a.leaves()) == span for a in nodes),
                'bracketings are kept')
    if len(nodes) > len(t.refs):
        ctx.reach('new nodes')
    ctx.observe(tlib.show(tlib.fromtree(got)))
    if p.get('reverse'):
        back = tt.reversetransform(got, t.sent, (name, ))
        ctx.check(tlib.same(ctx, tlib.fromtree(back), tlib.canonical(t.ref)),
                'reversed')
        wellformed(ctx, back, 'reversed: ')


def functionsof(ctx):
    """Functions are moved between conjuncts or heads and the phrase."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    name = p['name']
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    want = []
    for i in range(len(t.refs)):
        f = t.func[i]
        if name == 'elimNKCJ' and bool(f == 'NK'):
            want.append('HD')
        elif bool(f == ('CJ' if name == 'elimNKCJ' else 'cnj')):
            par = t.parents[i]
            want.append('--' if par is None else want[par])
        else:
            want.append(f)
    for i in (0, ):
        ctx.assume(ctx.And(*[ctx.Not(t.func[i] == x)
                for x in ('NK', 'CJ', 'cnj')]))
    got = tt.transform(t.tree, t.sent, (name, ))
    ctx.check(tlib.same(ctx, tlib.fromtree(got), t.ref), 'tree is the same')
    for a, f in zip(t.nodes, want):
        ctx.check(a.source[FUNC] == f, 'function')
    ctx.reach('ok')
    ctx.observe(want)


def morphology(ctx):
    """Morphological tags and features are added to labels."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    name = p['name']
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    got = tt.transform(t.tree, t.sent, p.get('names', (name, )))
    ann = [''] * len(t.refs)
    for i, pre, feat in [(i, pre, feat) for feat in ('inf', 'pv')
            for i, pre in enumerate(t.pre)]:
        if not pre:
            continue
        m = t.morph[i]
        if name == 'addCase':
            for case in ('Nom', 'Acc', 'Gen', 'Dat'):
                if any(bool(part == case) for part in m.split('.')):
                    ann[i] = '/' + case
                    break
        elif name == 'nlpercolatemorph':
            feats = m[m.find('(') + 1:-1].split(',') if bool(
                    m.find('(') != -1) else []
            if any(bool(f == feat) for f in feats):
                # two levels up, not for the root
                j = t.parents[i]
                for _ in range(2):
                    if j is None or t.parents[j] is None:
                        break
                    if '^' + feat not in ann[j]:
                        ann[j] = ann[j] + '^' + feat
                    j = t.parents[j]
    for a, b, x in zip(got.subtrees(), t.refs, ann):
        ctx.check(a.label == b[0] + x, 'label')
    ctx.check(tlib.same(ctx, shape(tlib.fromtree(got)), shape(t.ref)),
            'structure')
    if any(ann):
        ctx.reach('annotated')
    back = tt.reversetransform(got, t.sent, (name, ))
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t.ref), 'reversed')
    ctx.observe(ann)


def shape(t):
    if not isinstance(t, tuple):
        return t
    return ('', [shape(a) for a in t[1]])


def relational(ctx):
    """The relational-realizational transformation: each node is expanded to
    category, argument structure and function; reversible."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    t = Input(ctx, p, ctx.pick('n', p['sizes']))
    adj = ctx.pick('adj', p['adj'])
    left, right = ctx.flag('adjleft'), ctx.flag('adjright')
    ignore = p.get('ignore', ())
    root = tt.rrtransform(t.tree, adjunctionlabel=adj,
            ignorefunctions=ignore, ignorecategories=(), adjleft=left,
            adjright=right)[0]

    def build(i):
        lab = t.refs[i][0]
        if t.pre[i]:
            return (lab + '/' + brackets(t.morph[i]), t.refs[i][1])
        kids = t.kids(i)
        args = [not (adj is not None and bool(t.func[j] == adj))
                and not isin(t.func[j], ignore) for j in kids]
        sig = tlib.join(',', sorted2(ctx, [t.func[j]
                for j, a in zip(kids, args) if a]))
        out = []
        for n, j in enumerate(kids):
            f = t.func[j]
            if adj is not None and bool(f == adj):
                prev = [t.func[k] for k, a in zip(kids[:n], args[:n]) if a]
                nxt = [t.func[k] for k, a in zip(kids[n + 1:], args[n + 1:])
                        if a]
                prev = prev[-1] if prev and left else ''
                nxt = nxt[0] if nxt and right else ''
                if bool(prev != '') or bool(nxt != ''):
                    f = prev + ':' + nxt
            out.append((f + '/' + lab, [build(j)]))
        return (lab, [(lab + '/<' + sig + '>', out)])
    ctx.check(tlib.same(ctx, tlib.fromtree(root), build(0)), 'transformed')
    back = tt.rrbacktransform(root, adj)
    ctx.check(tlib.same(ctx, tlib.fromtree(back), t.ref), 'reversed')
    for a, f, m, pre in list(zip(back.subtrees(), t.func, t.morph,
            t.pre))[1:]:
        ctx.check(a.source[FUNC] == f, 'function')
        if pre:
            ctx.check(a.source[MORPH] == m, 'morphology')
    ctx.reach('ok')
    ctx.observe(tlib.show(tlib.fromtree(back)))


def sorted2(ctx, xs):
    out = []
    for x in xs:
        n = 0
        while n < len(out) and bool(out[n] <= x):
            n += 1
        out.insert(n, x)
    return out


def levels(ctx):
    """Each label has a class in all levels of the mapping for its treebank;
    classes of a finer level are part of a class of the previous level."""
    tt = ctx.mod('treebanktransforms')
    tb = ctx.pick('treebank', ['ptb', 'negra', 'alpino'])
    ctx.check(all(a in tt.MAPPINGS[tb] for a in range(3)), 'levels')
    labels = sorted(a for a in tt.MAPPINGS[tb][0]['P'] if a.isalpha())
    ctx.check(len(labels) > 20, 'labels')
    pair = [ctx.pick('a', labels[:14] if ctx.flag('half') else labels[14:]),
            ctx.pick('b', labels)]
    classes = []
    for level in range(3):
        tree = ctx.mod('tree').Tree('ROOT', [ctx.mod('tree').Tree(a, [
                ctx.mod('tree').Tree('ZZ', [n])])
                for n, a in enumerate(pair)])
        (got, ), mapping = tt.collapselabels([tree],
                tbmapping=tt.MAPPINGS[tb][level])
        cls = [a.label for a in got]
        for a, b in zip(pair, cls):
            ctx.check(b in tt.MAPPINGS[tb][level], 'has a class')
            ctx.check(mapping[a] == b.replace('-', ''), 'mapping')
        classes.append(cls[0] == cls[1])
    ctx.check(classes[0], 'one class at level 0')
    ctx.check(classes[1] or not classes[2], 'classes are nested')
    ctx.reach('same' if classes[2] else 'other')
    ctx.observe(classes)


def collapsing(ctx):
    """Phrasal labels are replaced by their class, also inside labels of
    binarized trees; the mapping relates each label to its replacement."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    trees, inputs = [], []
    for n in p['sizes']:
        t = Input(ctx, p, n)
        trees.append(t.tree)
        inputs.append(t)
    root = inputs[0].ref[0]
    table = [('P', ['N', 'V'])] if ctx.flag('coarse') else [
            ('H', ['N']), ('M', ['V'])]
    got, mapping = tt.collapselabels(trees, tbmapping=dict(
            (a, set(b)) for a, b in table))

    def coarse(lab):
        out = ''
        for c in lab:
            for a, b in table:
                if isin(c, b):
                    c = a
                    break
            out = out + c
        return out
    seen = []
    for t, tree in zip(inputs, got):
        ctx.check(tree is t.tree, 'in-place')
        for i, a in enumerate(tree.subtrees()):
            ref = t.refs[i][0]
            if i == 0 or t.pre[i]:
                want = ref
            else:
                want = coarse(ref)
            ctx.check(a.label == want, 'label')
            if i or t is inputs[0]:
                ctx.check(mapping[ref] == want, 'mapping')
            if i and not t.pre[i]:
                seen.append(want)
        ctx.check(tlib.same(ctx, shape(tlib.fromtree(tree)), shape(t.ref)),
                'structure')
    ctx.check(mapping['Epsilon'] == 'Epsilon', 'Epsilon')
    ctx.reach('ok' if seen else 'flat')
    ctx.observe(seen)


def features(ctx):
    """Extraction and unification of morphological features."""
    tt = ctx.mod('treebanktransforms')
    mod = ctx.mod('tree')
    p = ctx.params
    sep = ctx.pick('sep', ['.', ','])
    style = ctx.pick('style', ['bare', 'paren', 'brack'])
    vecs, feats = [], []
    for _ in range(ctx.pick('vectors', [1, 2])):
        vec = [oneof(ctx, 'feat', p['feats']) for _ in range(
                ctx.pick('k', [1, 2]))]
        text = tlib.join(sep, vec)
        if style != 'bare':
            text = 'T' + '([' [style == 'brack'] + text + ')]'[
                    style == 'brack']
        node = mod.ParentedTree('P', [0])
        node.source = ['--', '--', 'P', text, '--', '0']
        got = tt.morphfeats(node)
        if style == 'bare':
            ctx.check(len(got) == 0, 'no features')
        else:
            ctx.check(len(got) == len(vec) and ctx.And(*[a == b
                    for a, b in zip(got, vec)]), 'features')
        feats.extend(vec)
        vecs.append(text.replace('(', '[').replace(')', ']'))
    ctx.check(len(tt.morphfeats(mod.ParentedTree('P', [0]))) == 0,
            'no source')
    chosen = None
    if ctx.flag('selected'):
        chosen = {'a'}
    multi = any(bool(v.find(sep) != -1) for v in vecs)
    res = tt.unifymorphfeat(vecs, chosen)
    want = []
    for f in sorted2(ctx, [f for f in feats if not isin(f, ['*', '--'])
            and (chosen is None or isin(f, ['a']))]):
        if not want or not bool(want[-1] == f):
            want.append(f)
    ctx.check(res == tlib.join(sep if multi else ',', want), 'union')
    ctx.reach(style)
    ctx.observe(len(want))


def helpers(ctx):
    """strip, base, functions and expansion of presets."""
    tt = ctx.mod('treebanktransforms')
    mod = ctx.mod('tree')
    lab = ctx.string('lab', 'NP-^', 1, ctx.params['n'])
    # up to the first of either separator
    ends = [i for i in (lab.find('-'), lab.find('^')) if bool(i != -1)]
    want = lab
    if bool(lab.find('-') != -1):
        want = lab[:lab.find('-')]
    elif bool(lab.find('^') != -1):
        want = lab[:lab.find('^')]
    ctx.check(tt.strip(lab) == want, 'strip')
    node = mod.ParentedTree(lab, [0])
    for m in ('N', 'NP'):
        isbase = bool(lab == m) or (len(lab) > len(m)
                and bool(lab[:len(m)] == m)
                and isin(lab[len(m)], '-^'))
        ctx.check(bool(tt.base(node, m)) == isbase, 'base')
    ctx.check(tt.function(node) == '' and tt.functions(node) == [],
            'no functions')
    f = ctx.string('f', 'ab-', 1, 3)
    ctx.assume(ctx.And(f[0] != '-', f[-1] != '-'))
    node.source = ['--', '--', 'P', '--', f, '0']
    parts = f.split('-')
    ctx.check(tt.function(node) == parts[0], 'function')
    got = tt.functions(node)
    ctx.check(len(got) == len(parts) and ctx.And(*[a == b
            for a, b in zip(got, parts)]), 'functions')
    for none in ('--', ''):
        node.source[FUNC] = none
        ctx.check(tt.functions(node) == [] and tt.function(node) == '',
                'empty function')
    seq = [ctx.pick('t', ['negra', 'wsj', 'PUNCT', 'X']) for _ in range(2)]
    want = []
    for a in seq:
        want.extend({'negra': ['S-RC', 'VP-GF', 'NP', 'PUNCT'],
            'wsj': ['PTBbrackets', 'S-WH', 'VP-HD', 'S-INF']}.get(a, [a]))
    ctx.check(list(tt.expandpresets(seq)) == want, 'presets')
    ctx.reach('sep' if ends else 'plain')
    ctx.observe(want)


def complexity(ctx):
    """D-level: level of the most complex construction in the tree."""
    tt = ctx.mod('treebanktransforms')
    p = ctx.params
    n = ctx.pick('n', p['sizes'])
    t = Input(ctx, dict(p, labels=p['labels'], root='ROOT'), n)
    N = range(len(t.nodes))
    label = [a[0] for a in t.refs]
    func, up = t.func, t.parents
    for i in N:  # numbers of nodes
        if not t.pre[i]:
            t.nodes[i].source[WORD] = '#%d' % (500 + i)
    # verbs do not have the function of a provisional subject
    ctx.assume(ctx.And(*[ctx.Or(func[i] != 'sup', ctx.And(label[i] != 'ww',
            label[i] != 'REL')) for i in N]))
    edges = set()
    if p.get('edges'):
        if not any(up[i] for i in N if not t.pre[i]):
            return
        b = ctx.pick('target', [i for i in N if not t.pre[i] and up[i]])
        a = ctx.pick('source', [i for i in N if up[i] and i != b])
        f = oneof(ctx, 'edge', ['su', 'mod'])
        t.nodes[a].source += ['hd', '499', f, '%d' % (500 + b)]
        if bool(f == 'su'):
            edges.add((a, b))

    def feat(i, x):
        return t.pre[i] and bool(t.morph[i].find(x) != -1)
    sub = ['TI', 'OTI', 'INF']

    def control(role):
        return any(bool(func[i] == 'vc') and isin(label[i], sub)
                and bool(func[j] == role) and (j, i) in edges
                for i in N for j in N if up[i] is not None
                and up[i] == up[j] and not t.pre[i])
    W = [i for i in N if t.pre[i]]
    K = [i for i in N if up[i] is not None]
    pv = sum(1 for i in W if bool(label[i] == 'ww') and feat(i, 'pv'))
    coord = sum(1 for i in W if bool(label[i] == 'vg') and feat(i, 'neven'))
    if pv - coord > 2:
        want = 7
    elif any((bool(label[i] == 'REL') and bool(func[i] == 'mod')
            and bool(func[up[i]] == 'su'))
            or (isin(label[i], ['CP', 'WHSUB', 'WHREL'] + sub)
            and bool(func[i] == 'su'))
            or (bool(label[i] == 'ww') and bool(func[up[i]] == 'su')
            and bool(label[up[i]] == 'NP')) for i in K):
        want = 6
    elif any(bool(label[i] == 'vg') and feat(i, 'onder')
            and bool(t.lemma[i] != 'dat') for i in W):
        want = 5
    elif any(bool(func[i] == 'obcomp') for i in N) or control('obj1'):
        want = 4
    elif any((bool(label[i] == 'REL') and bool(func[i] == 'mod')
            and bool(func[up[i]] == 'obj1'))
            or (bool(label[i] == 'ww') and bool(func[up[i]] == 'obj1')
            and bool(label[up[i]] == 'NP'))
            or (isin(label[i], ['CP', 'WHSUB']) and bool(func[i] == 'vc'))
            or bool(func[i] == 'sup') for i in K):
        want = 3
    elif coord:
        want = 2
    elif control('su'):
        want = 1
    else:
        want = 0
    ctx.check(tt.dlevel(t.tree) == want, 'level')
    for i in N:
        path, j = [], up[i]
        while j is not None:
            path.append(j)
            j = up[j]
        got = list(tt.ancestors(t.nodes[i]))
        ctx.check(len(got) == len(path) and all(a is t.nodes[j]
                for a, j in zip(got, path)), 'ancestors')
    ctx.reach('%d' % want)
    ctx.observe(want)


HARNESSES = {
    'complexity': dict(fn=complexity, reach=[], params=dict(
        quick=[dict(sizes=[3], labels=['NP'], pos=['ww', 'vg'],
                morph=['w(pv)', 'v(neven)'], cont=True),
            dict(sizes=[2], labels=['NP'], pos=['vg'], lemma=['dat', 'om'],
                morph=['v(neven)', 'v(onder)']),
            dict(sizes=[1], labels=['NP', 'REL'], pos=['ww', 'n'],
                funcs=['su', 'mod', 'obj1', 'vc'], unary=2),
            dict(sizes=[1], labels=['CP', 'INF'], pos=['n'],
                funcs=['su', 'vc', 'sup', 'obcomp'], unary=1),
            dict(sizes=[2], labels=['TI', 'NP'], pos=['n'],
                funcs=['su', 'obj1', 'vc'], edges=1, unary=1, cont=True)],
        thorough=[dict(sizes=[4], labels=['NP'], pos=['ww', 'vg'],
            morph=['w(pv,x)', 'v(neven)', 'v(onder)'], lemma=['dat', 'om']),
            dict(sizes=[3], labels=['NP', 'REL', 'CP', 'TI', 'INF'],
                pos=['ww', 'n'], unary=1,
                funcs=['su', 'mod', 'obj1', 'vc', 'sup', 'obcomp']),
            dict(sizes=[3], labels=['TI', 'OTI', 'NP'], pos=['n'],
                funcs=['su', 'obj1', 'vc'], edges=1, unary=1)])),
    'annotate': dict(fn=annotating, reach=sorted(CONFIGS), params=dict(
        quick=[dict(names=sorted(CONFIGS), sizes=[2], unary=1),
            dict(names=sorted(CONFIGS), sizes=[1, 3])],
        thorough=[dict(names=sorted(CONFIGS), sizes=[3], unary=2),
            dict(names=sorted(CONFIGS), sizes=[4], unary=1)])),
    'restore': dict(fn=restoring, reach=['APPEND-FUNC', 'FUNC-NODE'],
        params=dict(
        quick=[dict(names=[('APPEND-FUNC', ), ('FUNC-NODE', )],
            sizes=[2], labels=['A', 'B'], pos=['P', 'Q'],
            funcs=['F', 'G-H', '--'], unary=1),
            dict(names=[('APPEND-FUNC', ), ('FUNC-NODE', )],
            sizes=[3], labels=['A'], funcs=['F', '--'])],
        thorough=[dict(names=[('APPEND-FUNC', ), ('FUNC-NODE', )],
            sizes=[3, 4], labels=['A', 'B'], pos=['P'],
            funcs=['F', '--'], unary=1)])),
    'morph': dict(fn=restoring, reach=['APPEND-MORPH', 'MORPH-NODE',
        'LEMMA-NODE', 'FUNC-NODE-MORPH-NODE-LEMMA-NODE',
        'APPEND-FUNC-APPEND-MORPH'],
        params=dict(
        quick=[dict(names=[('APPEND-MORPH', ), ('MORPH-NODE', ),
            ('LEMMA-NODE', ), ('FUNC-NODE', 'MORPH-NODE', 'LEMMA-NODE'),
            ('APPEND-FUNC', 'APPEND-MORPH')],
            sizes=[2], pos=['P', 'Q'], morph=['m', 'n(o)', '--'],
            lemma=['k', '--'], funcs=['F', '--'], unary=0)],
        thorough=[dict(names=[('APPEND-MORPH', ), ('MORPH-NODE', ),
            ('LEMMA-NODE', ), ('FUNC-NODE', 'MORPH-NODE', 'LEMMA-NODE'),
            ('APPEND-FUNC', 'APPEND-MORPH')],
            sizes=[3], pos=['P', 'Q'], morph=['m', 'n(o)'],
            lemma=['k', '--'], funcs=['F', '--'], unary=1)])),
    'unary': dict(fn=unarynodes, reach=['ok', 'added'], params=dict(
        quick=[dict(name='addUnary', labels=['S', 'NP', 'VP'],
            pos=['NN', 'NE'], tags=['NN'], parents=['S', 'VP'],
            funcs=['SB', '--'], sizes=[2, 3]),
            dict(name='nladdunary', labels=['PP', 'NP', 'INF'],
            pos=['n', 'lid'], tags=['n'], parents=['PP', 'INF'],
            funcs=['su', '--'], sizes=[2, 3])],
        thorough=[dict(name='addUnary', labels=['S', 'NP', 'VP'],
            pos=['NN', 'NE'], tags=['NN'], parents=['S', 'VP'],
            funcs=['SB', '--'], sizes=[3], unary=1)])),
    'structure': dict(fn=structural, reach=['new nodes'], params=dict(
        quick=[dict(name='DP', labels=['NP', 'PP'], pos=['ART', 'NN'],
            sizes=[2, 3], unary=1, reverse=True),
            dict(name='PP-NP', labels=['PP', 'S'], pos=['P'],
            funcs=['AC', 'NK', 'MO'], sizes=[2, 3]),
            dict(name='SBAR', labels=['S', 'NP'], pos=['P'],
            funcs=['CP', 'HD'], sizes=[2, 3], reverse=True),
            dict(name='POS-PART', labels=['A', 'VV'], pos=['VV', 'PTKVZ'],
            funcs=['SVP', 'HD'], sizes=[2, 3], head=True),
            dict(name='VP-FIN_NEGRA', labels=['S', 'VP'], pos=['VVFIN', 'P'],
            funcs=['HD', 'SB', 'DM'], sizes=[2, 3]),
            dict(name='NEST', labels=['NP', 'S'], pos=['P'],
            funcs=['MO', 'NK'], sizes=[2, 3])],
        thorough=[dict(name='NEST', labels=['NP', 'S'], pos=['P'],
            funcs=['MO', 'NK'], sizes=[4])])),
    'functions': dict(fn=functionsof, reach=['ok'], params=dict(
        quick=[dict(name='elimNKCJ', labels=['A'],
            funcs=['NK', 'CJ', 'SB', '--'], sizes=[2, 3]),
            dict(name='nlelimcnj', labels=['A'],
            funcs=['cnj', 'su', '--'], sizes=[2, 3], unary=1)],
        thorough=[dict(name='elimNKCJ', labels=['A'],
            funcs=['NK', 'CJ', 'SB', '--'], sizes=[4], unary=1)])),
    'features': dict(fn=features, reach=['bare', 'paren', 'brack'],
        params=dict(quick=[dict(feats=['a', 'b', '*', '--'])],
        thorough=[dict(feats=['a', 'b', 'c', '*', '--'])])),
    'labelmorph': dict(fn=morphology, reach=['annotated'], params=dict(
        quick=[dict(name='addCase', labels=['A'], sizes=[2, 3],
            morph=['Nom', 'Sg.Acc', 'Nomx', '--']),
            dict(name='nlpercolatemorph', labels=['A'], sizes=[2, 3],
            morph=['w(pv,x)', 'w(inf)', 'w', 'w(pvx)'], unary=1)],
        thorough=[dict(name='nlpercolatemorph', labels=['A'], sizes=[4],
            morph=['w(pv,x)', 'w(inf)', 'w'], unary=1)])),
    'relational': dict(fn=relational, reach=['ok'], params=dict(
        quick=[dict(labels=['S', 'N'], funcs=['HD', 'SB', 'MO'],
            morph=['m', 'n(o)'], adj=['MO'], sizes=[2]),
            dict(labels=['S'], funcs=['HD', 'SB', 'MO'],
            adj=['MO'], sizes=[3]),
            dict(labels=['S'], funcs=['HD', 'PU', 'MO'], ignore=('PU', ),
            adj=['MO'], sizes=[3], cont=True)],
        thorough=[dict(labels=['S', 'N'], funcs=['HD', 'SB', 'MO'],
            adj=['MO'], sizes=[4], cont=True)])),
    'levels': dict(fn=levels, reach=['same', 'other'], params=dict(
        quick=[{}])),
    'collapse': dict(fn=collapsing, reach=['ok'], params=dict(
        quick=[dict(labels=['N', 'V', 'N^V', 'V|<N>'], pos=['P', 'Q'],
            sizes=[3, 1], root='R')],
        thorough=[dict(labels=['N', 'V', 'N^V', 'V|<N>'], pos=['P', 'N'],
            sizes=[3, 3], root='R', unary=1)])),
    'helpers': dict(fn=helpers, reach=['sep', 'plain'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=5)])),
}
