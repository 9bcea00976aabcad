"""Head finding, modifiers and dependencies."""
import tlib
NEEDS = ['bit', 'containers']
LITE = ['containers']
OUTSIDE = ('Tail markers that occur in labels; recovering heads from a left-factored binarization; '
        'constituents with more children or rules with more heads than stated; children with identical yields.')


def kids(ctx, n):
    """Children of a constituent; labels are symbolic."""
    out = []
    for i in range(n):
        k = ctx.pick('kind', ctx.params.get('kinds', ['s']))
        out.append(ctx.string('l', ctx.params['labels'],
                ctx.params.get('ll', 1), ctx.params.get('ll', 1))
                if k == 's' else k)
    return out


DIRS = ['LEFT', 'RIGHT', 'LEFT-TO-RIGHT', 'RIGHT-TO-LEFT', 'LEFTDIS',
        'RIGHTDIS']


def getrules(ctx):
    rules = []
    for _ in range(ctx.choice('nrules', ctx.params['rules'] + 1)):
        d = ctx.pick('dir', ctx.params.get('dirs', DIRS))
        rules.append((d, ctx.pick('heads', ctx.params.get('heads',
                [[], ['A'], ['B', 'A']]))))
    return rules


PUNCT = ('.', ',', ':')


def refhead(labels, rules):
    """Index of the head child."""
    n = len(labels)
    order = list(range(n))
    head = None
    base = [a[:a.find('[')] if '[' in a else a for a in labels]
    base = [a.upper() for a in base]
    for d, heads in rules:
        order = (list(range(n)) if d.startswith('LEFT')
                else list(range(n - 1, -1, -1)))
        if d.endswith('DIS'):
            cand = [i for i in order for h in heads if base[i] == h]
        else:
            cand = [i for h in heads for i in order if base[i] == h]
        if cand:
            head = cand[0]
            break
    if head is None:
        for i in order:
            if labels[i] not in PUNCT:
                return i
        return order[0]
    if head >= 2 and labels[head - 1] in ('CC', 'CONJP'):
        for i in range(head - 2, -1, -1):
            if labels[i] not in PUNCT:
                return i
    return head


def finder(ctx):
    """headfinder follows the rules: priority of heads, direction, default,
    coordination."""
    mod, he = ctx.mod('tree'), ctx.mod('heads')
    n = ctx.choice('n', ctx.params['n']) + 1
    labels = kids(ctx, n)
    parent = ctx.string('p', 'xX', 1, 1)
    rules = getrules(ctx)
    tree = mod.ParentedTree(parent, [mod.ParentedTree(a, [i])
            for i, a in enumerate(labels)])
    want = refhead(labels, rules)
    headrules = {'X': list(rules), 'Y': [('LEFT', ['A'])]}
    got = he.headfinder(tree, headrules)
    ctx.check(got is tree[want], 'head child')
    he.applyheadrules(tree, headrules)
    ctx.check([a.type == mod.HEAD for a in tree]
            == [i == want for i in range(n)], 'exactly one head is marked')
    ctx.check(he.getheadpos(tree) is tree[want], 'head preterminal')
    ctx.observe(want)
    ctx.reach('ok')


def existing(ctx):
    """Existing marks, then function labels, take precedence over rules;
    applying the rules again changes nothing."""
    mod, he = ctx.mod('tree'), ctx.mod('heads')
    n = ctx.choice('n', ctx.params['n']) + 1
    tree = mod.ParentedTree('X', [mod.ParentedTree('B', [i])
            for i in range(n)])
    marked = ctx.choice('marked', n + 1)
    if marked:
        tree[marked - 1].type = mod.HEAD
    funcs = []
    for a in tree:
        f = ctx.pick('func', [None, '--', 'HD', 'SB-HD', 'hd', 'AHD', 'OA'])
        funcs.append(f)
        if f is not None:
            a.source = ['w', 'l', 't', 'm', f, '500']
    rules = {'X': [('RIGHT', ['B'])]}
    hd = [i for i in range(n) if funcs[i] in ('HD', 'SB-HD', 'hd')]
    want = marked - 1 if marked else hd[0] if hd else n - 1
    got = he.headfinder(tree, rules)
    ctx.check(got is tree[want], 'head')
    for _ in range(2):
        he.applyheadrules(tree, rules)
        ctx.check([a.type == mod.HEAD for a in tree]
                == [i == want for i in range(n)], 'one head')
    ctx.reach('ok')
    ctx.observe(want)


def rulefile(ctx):
    """Rules are read in order; later lines for the same label are added,
    LIKE copies, comments and empty lines are skipped."""
    mod, he = ctx.mod('tree'), ctx.mod('heads')
    lines = []
    want = {}
    order = []
    for _ in range(ctx.params['lines']):
        kind = ctx.pick('kind', ['rule', 'comment', 'empty', 'like'])
        if kind == 'comment':
            lines.append('% np left nn' + ctx.pick('eol', ['\n', ' \n']))
        elif kind == 'empty':
            lines.append(ctx.pick('blank', ['\n', '  \n']))
        elif kind == 'like':
            ctx.assume(len(order) > 0)
            a = ctx.string('l', 'ab', 1, 1)
            b = ctx.pick('other', order)
            lines.append(a + ' like ' + b + '\n')
            store(ctx, want, order, a.upper(),
                    list(find(want, b.upper())))
        else:
            a = ctx.string('l', 'ab', 1, 1)
            d = ctx.pick('dir', ctx.params.get('dirs',
                    ['left', 'right-to-left', 'rightdis']))
            heads = [ctx.string('h', 'cd', 1, 1)
                    for _ in range(ctx.choice('nheads', 3))]
            lines.append(tlib.join(' ', [a, d] + heads) + '\n')
            store(ctx, want, order, a.upper(), [(d.upper(),
                    [x.upper() for x in heads])])
    got = he.readheadrules(ctx.file('headrules', tlib.cat(lines)))
    ctx.check(len(got) == len(want), 'number of labels')
    for n, a in want.items():
        b = got[a[0]]
        ctx.check(len(b) == len(a[1]), 'number of rules')
        for x, y in zip(b, a[1]):
            ctx.check(x[0] == y[0], 'direction')
            ctx.check(len(x[1]) == len(y[1]), 'number of heads')
            for h, i in zip(x[1], y[1]):
                ctx.check(h == i, 'head')
    ctx.reach('rules' if want else 'empty')
    ctx.observe(len(got))


def find(want, label):
    for n in want:
        if want[n][0] == label:
            return want[n][1]
    return []


def store(ctx, want, order, label, rules):
    for n in want:
        if want[n][0] == label:
            want[n][1].extend(rules)
            return
    want[len(want)] = (label, list(rules))
    order.append(label)


def modifiers(ctx):
    """markmodifiers: children other than the head are modifiers when a rule
    matches label and function or when a label repeats, else complements."""
    mod, he = ctx.mod('tree'), ctx.mod('heads')
    p = ctx.params
    n = p['n']
    parent = ctx.pick('parent', p.get('parents', ['S', 'VP-X', 'Np']))
    lines = ''
    rules = []
    for a in ctx.pick('rules', p['rules']):
        m = [ctx.pick('mod', p.get('mods',
                    ['A', 'A-MO', '*-MO', 'B-*', '*']))
                for _ in range(1 + ctx.choice('nmod', p.get('nmod', 1)))]
        rules.append((a, m))
        lines += a.lower() + ' ' + ' '.join(m) + '\n'
    mrules = he.readmodifierrules(ctx.file('modrules', lines))
    labels = [ctx.string('l', 'AB', 1, 1) for _ in range(n)]
    funcs = [ctx.pick('func', [None, 'MO', 'mo-X', '--']) for _ in range(n)]
    tree = mod.ParentedTree(parent, [mod.ParentedTree(a, [i])
            for i, a in enumerate(labels)])
    for a, f in zip(tree, funcs):
        if f is not None:
            a.source = ['w', 'l', 't', 'm', f, '500']
    head = ctx.choice('head', n)
    tree[head].type = mod.HEAD
    he.markmodifiers(tree, mrules)
    prev = None
    for i, a in enumerate(tree):
        if i == head:
            ctx.check(a.type == mod.HEAD, 'head is kept')
            continue
        ismod = prev is not None and labels[i] == prev
        for r, ms in rules:
            if r != '*' and r != parent.split('-')[0].upper():
                continue
            for m in ms:
                ml, _, mf = m.partition('-')
                f = (funcs[i] or '').split('-')[0].upper()
                if ((ml == '*' or labels[i] == ml)
                        and (not mf or mf == '*' or f == mf)):
                    ismod = True
        prev = labels[i]
        ctx.check(a.type == (mod.MODIFIER if ismod else mod.COMPLEMENT),
                'modifier or complement')
    ctx.reach('ok')
    ctx.observe([a.type for a in tree])


def headed(ctx, mod, t):
    """Tree with one head per constituent; returns tree and, for each
    constituent, (yield, head word)."""
    tree = tlib.totree(mod.ParentedTree, t)
    lex = {}
    for node in tree.postorder():
        if not isinstance(node[0], mod.Tree):
            lex[id(node)] = node[0]
            continue
        h = ctx.choice('head', len(node))
        node[h].type = mod.HEAD
        lex[id(node)] = lex[id(node[h])]
    return tree, lex


def deps(ctx):
    """Each word gets one head: the head word of the smallest constituent of
    which it is not the head; the words directly below the root of the tree
    attach to the root; arcs form a tree; lengths are added up."""
    mod, tb, he = ctx.mod('tree'), ctx.mod('treebank'), ctx.mod('heads')
    p = ctx.params
    n = p['n']
    t = tlib.gentree(ctx, n, lambda: 'X', pos=lambda: 'P',
            unary=p.get('unary', 0))
    t = ('ROOT', t[1] if ctx.flag('multi') else [t])
    tree, lex = headed(ctx, mod, t)
    for a in tree.subtrees():
        if p.get('funcs') and a is not tree:
            f = ctx.pick('func', [None, 'SB', '--', ''])
            if f is not None:
                a.source = ['w', 'l', 't', 'm', f, '500']
    got = tb.dependencies(tree)
    ctx.check([a for a, _, _ in got] == list(range(1, n + 1)),
            'one arc per word')
    total = num = 0
    for i, rel, head in got:
        # largest projection of the word
        best = max((a for a in tree.subtrees() if a is not tree
                and lex[id(a)] == i - 1), key=lambda a: len(list(
                    a.subtrees())))
        par = best.parent
        if par is tree:
            ctx.check(head == 0 and rel == 'root', 'root arc')
            continue
        ctx.check(head == lex[id(par)] + 1, 'head of word')
        f = best.source[4] if best.source else None
        ctx.check(rel == (f if f and f != '--' else '-'), 'relation')
        total += abs(i - head)
        num += 1
    ctx.check(tb.deplen(got) == (total, float(num)), 'dependency length')
    sent = ['w%d' % i for i in range(n)]
    conll = tb.writedependencies(tree, sent, 'conll')
    rows = [a.split('\t') for a in conll.strip('\n').split('\n')]
    ctx.check([(int(r[0]), r[7], int(r[6])) for r in rows] == list(got),
            'CoNLL rows')
    ctx.check([r[1] for r in rows] == sent, 'words')
    ctx.check([r[3] for r in rows] == ['P'] * n, 'tags')
    mst = tb.writedependencies(tree, sent, 'mst').split('\n')
    ctx.check(mst[0] == '\t'.join(sent) and mst[1] == '\t'.join(['P'] * n)
            and mst[2] == '\t'.join(r for _, r, _ in got)
            and mst[3] == '\t'.join(str(h) for _, _, h in got), 'MST')
    for a in tree.subtrees(lambda x: x is not tree):
        ctx.check(he.getheadpos(a)[0] == lex[id(a)], 'getheadpos')
    ctx.reach('ok')
    ctx.observe(list(got), total)


def saving(ctx):
    """saveheads recovers the heads from a head-outward binarization."""
    mod, tt, he = (ctx.mod('tree'), ctx.mod('treetransforms'),
            ctx.mod('heads'))
    p = ctx.params
    t = tlib.gentree(ctx, p['n'], lambda: ctx.string('l', p['labels'], 1, 1),
            pos=lambda: ctx.pick('pos', ['P', '$,']) if p.get('pos') else 'P',
            cont=p.get('cont', True), unary=p.get('unary', 0))
    tree, lex = headed(ctx, mod, t)
    tail = ctx.pick('tail', ['', '!'])
    opts = {k: ctx.pick(k, v) for k, v in p.get('opts', {}).items()}
    want = [a.type == mod.HEAD for a in tree.subtrees()]
    tt.binarize(tree, headoutward=True, rightmostunary=True,
            tailmarker=tail, **opts)
    for a in tree.subtrees():
        a.type = None
    he.saveheads(tree, tail)
    tt.unbinarize(tree)
    got = [a.type == mod.HEAD for a in tree.subtrees()]
    ctx.check(tlib.same(ctx, tlib.fromtree(tree), t), 'tree')
    # constituents with fewer than 3 children are not binarized
    long = []
    for a in tree.subtrees():
        long.append(a is not tree and len(a.parent) > 2)
    for a, b, c in zip(want, got, long):
        if c:
            ctx.check(a == b, 'head is recovered')
        else:
            ctx.check(not b, 'no head is invented')
    ctx.reach('binarized' if any(long) else 'small')
    ctx.observe(got)


def stats(ctx):
    """headstats counts the label and position of each head."""
    mod, he = ctx.mod('tree'), ctx.mod('heads')
    p = ctx.params
    heads, unk, pos1, pos2 = {}, {}, {}, {}
    trees = []

    def add(d, a, b, m=1):
        d.setdefault(a, {})
        d[a][b] = d[a].get(b, 0) + m
    for _ in range(p['trees']):
        n = 2 + ctx.choice('n', 2)
        labs = [ctx.pick('l', ['A', 'B']) for _ in range(n)]
        h = ctx.choice('head', n + 1)
        tree = mod.ParentedTree('X', [mod.ParentedTree(a, [i])
                for i, a in enumerate(labs)])
        if h:
            tree[h - 1].type = mod.HEAD
            add(heads, 'X', labs[h - 1])
            add(pos1, 'X', h - 1)
            add(pos2, 'X', n - (h + 1))
        else:
            for a in labs:
                add(unk, 'X', a)
        trees.append(tree)
    got = he.headstats(trees)
    for a, b in zip(got, (heads, unk, pos1, pos2)):
        ctx.check({k: dict(v) for k, v in a.items()} == b, 'counts')
    ctx.reach('ok')
    ctx.observe(heads, unk)


HARNESSES = {
    'finder': dict(fn=finder, reach=['ok'], params=dict(
        quick=[dict(n=3, labels='Ab', rules=1), dict(n=2, labels='aB',
            rules=2, kinds=['s', ',']),
            dict(n=3, labels='AB', rules=1, kinds=['s', 'CC', ','],
                heads=[['A'], ['A', 'B']], dirs=['LEFT', 'RIGHTDIS',
                    'RIGHT-TO-LEFT']),
            dict(n=4, labels='A', rules=1, kinds=['s', 'CC', ',', 'C'],
                heads=[['A']], dirs=['RIGHT']),
            dict(n=2, labels='A[', ll=2, rules=1)],
        thorough=[dict(n=3, labels='ABc', rules=2),
            dict(n=4, labels='AB', rules=1, kinds=['s', 'CC', ','])])),
    'existing': dict(fn=existing, reach=['ok'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=4)])),
    'rulefile': dict(fn=rulefile, reach=['rules', 'empty'], params=dict(
        quick=[dict(lines=2)], thorough=[dict(lines=3)])),
    'modifiers': dict(fn=modifiers, reach=['ok'], params=dict(
        quick=[dict(n=2, rules=[['S'], ['*'], ['VP', 'NP']]),
            dict(n=2, rules=[['S', '*'], ['*', 'S']], parents=['S'],
                mods=['A', '*-MO'], nmod=2),
            dict(n=3, rules=[['S']], parents=['S'], mods=['A', 'B-MO'])],
        thorough=[dict(n=3, rules=[['S'], ['*'], ['VP', 'NP']]),
            dict(n=2, rules=[['S', '*'], ['*', 'NP']])])),
    'dependencies': dict(fn=deps, reach=['ok'], params=dict(
        quick=[dict(n=4), dict(n=2, unary=1, funcs=1)],
        thorough=[dict(n=5), dict(n=3, unary=1, funcs=1)])),
    'saveheads': dict(fn=saving, reach=['binarized'], params=dict(
        quick=[dict(n=4, labels='A', opts=dict(horzmarkov=[0, 1, 999])),
            dict(n=3, labels='A', pos=1, unary=1, opts=dict(
                direction=[False, True], markhead=[False, True],
                leftmostunary=[False, True], dot=[False, True]))],
        thorough=[dict(n=5, labels='A', cont=False, opts=dict(
            direction=[False, True]))])),
    'stats': dict(fn=stats, reach=['ok'], params=dict(
        quick=[dict(trees=2)], thorough=[dict(trees=3)])),
}
