"""Tree-adjoining grammars (osTAG): extraction and reduction to a CFG."""
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
        'disambiguation', 'coarsetofine', 'estimates']
OUTSIDE = ('Discontinuous trees; elementary trees without words in the '
        'reduction; labels with "@", "[", "]" or "$"; the selection of '
        'fragments in doubleostagfromtsg; the recovery of fragments used in '
        'a derivation.')


PRINTABLE = [chr(n) for n in range(32, 127)]


class Items(object):
    """Sequence of pairs with the interface of a dictionary."""
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)

    def __len__(self):
        return len(self.pairs)


def concrete(s, values):
    """The value of a symbolic string with one of the given values."""
    if type(s) is not str:
        for v in values:
            if bool(s == v):
                return v
    return s


def instance(ctx, spec, labels):
    """Replace labels that start with '?' by symbolic ones."""
    def rec(x):
        if isinstance(x, (list, tuple)):
            lab = x[0]
            if lab.startswith('?'):
                if lab not in labels:
                    labels[lab] = ctx.string('l', lab[2:], 1, 1)
                lab = labels[lab]
            return (lab, [rec(a) for a in x[1:]])
        return x
    return rec(spec)


def text(t, cnt=None):
    """Discbracket notation; a word, None for a substitution site, '*'."""
    cnt = cnt if cnt is not None else [0]
    out = '(' + t[0]
    for a in t[1]:
        if isinstance(a, tuple):
            out = out + ' ' + text(a, cnt)
        else:
            out = out + ' %d=%s' % (cnt[0], a or '')
            cnt[0] += 1
    return out + ')'


def inner(t):
    return isinstance(t[1][0], tuple)


def subtrees(t):
    """Phrasal nodes in pre-order, as positions."""
    out = []

    def rec(x, pos):
        if inner(x):
            out.append((pos, x))
            for n, a in enumerate(x[1]):
                rec(a, pos + (n, ))
    rec(t, ())
    return out


def replace(t, pos, new):
    if not pos:
        return new
    kids = list(t[1])
    kids[pos[0]] = replace(kids[pos[0]], pos[1:], new)
    return (t[0], kids)


def haswords(t):
    return any(haswords(a) if isinstance(a, tuple) else a is not None
            for a in t[1])


def inducing(ctx):
    """An elementary tree with recursion is factored into an auxiliary tree
    and the initial tree from which it was removed."""
    p = ctx.params
    gram = ctx.mod('grammar')
    labels = {}
    elem = [instance(ctx, a, labels) for a in p['trees']]
    elem = [(a, n + 2) for n, a in enumerate(elem)]
    newinit, aux, rest = [], [], []

    def put(lst, key, w):
        for x in lst:
            if bool(x[0] == key):
                x[1] = w
                return
        lst.append([key, w])
    for t, w in elem:
        found = False
        if haswords(t):
            nodes = dict(subtrees(t))
            for pos, node in subtrees(t):
                for up in range(len(pos) - 1, 0, -1):
                    if bool(nodes[pos[:up]][0] == node[0]):
                        put(newinit, text(replace(t, pos[:up], node)), w)
                        put(aux, text(replace(nodes[pos[:up]], pos[up:],
                                (node[0], ['*']))), w)
                        found = True
                        break
        if not found:
            put(rest, text(t), w)
    for key, w in rest:
        if key.count('(') > 3:
            put(newinit, key, w)
    blank = [a.replace('*', '') for a, _ in aux]
    newinit = [x for x in newinit
            if not any(bool(x[0] == a) for a in blank)]
    gotinit, gotaux = gram.inducetagfromtsg([(text(t), w) for t, w in elem])
    for got, want, msg in ((gotinit, newinit, 'initial trees'),
            (gotaux, aux, 'auxiliary trees')):
        got = list(got.items())
        ctx.check(len(got) == len(want) and ctx.And(*[
                ctx.And(a == x[0], b == x[1])
                for (a, b), x in zip(got, want)]), msg)
        ctx.observe([a for a, _ in got])
    ctx.reach('factored' if aux else 'kept')


def tagderivations(init, aux, root, maxlen):
    """All derivations of a TAG: ``(tree, words, weight)``; repeated
    adjunction is allowed at each node but not at nodes on a spine."""
    def minwords(x):
        return sum(minwords(a) if isinstance(a, tuple) else 1 for a in x[1])

    def onspine(x):
        return any(onspine(a) if isinstance(a, tuple) else a == '*'
                for a in x[1])

    def sequence(kids, budget, foot):
        if not kids:
            return [([], 0, 1)]
        need = sum(minwords(a) for a in kids[1:])
        return [([a] + b, n + m, v * w)
                for a, n, v in derive(kids[0], budget - need, foot)
                for b, m, w in sequence(kids[1:], budget - n, foot)]

    def base(x, budget, foot, weight):
        return [((x[0], kids), n, w * weight)
                for kids, n, w in sequence(x[1], budget, foot)]

    def adjoin(label, target, budget):
        """Expansions of a node, with adjunctions."""
        if budget < 1:
            return []
        out = list(target(budget))
        for a, w in aux:
            if a[0] == label:
                out.extend(base(a, budget, lambda b:
                        adjoin(label, target, b), w))
        return out

    def substitute(label, budget):
        return adjoin(label, lambda b: [x for a, w in init
                if a[0] == label for x in base(a, b, None, w)], budget)

    def derive(x, budget, foot):
        if budget < 1 and not (foot and onspine(x)):
            return []
        if not inner(x):
            word = x[1][0]
            if word is None:
                return substitute(x[0], budget)
            elif word == '*':
                return foot(budget)
            return [((x[0], [word]), 1, 1)]
        if foot and onspine(x):
            return base(x, budget, foot, 1)
        return adjoin(x[0], lambda b: base(x, b, None, 1), budget)
    return substitute(root, maxlen)


def cfgderivations(rules, lexicon, root, maxlen):
    bylhs = {}
    for lhs, rhs, w in rules:
        bylhs.setdefault(lhs, []).append((rhs, w))
    for word, lhs, w in lexicon:
        bylhs.setdefault(lhs, []).append((word, w))

    def seq(kids, budget):
        if not kids:
            return [([], 0, 1)]
        return [([a] + b, n + m, v * w)
                for a, n, v in gen(kids[0], budget - len(kids) + 1)
                for b, m, w in seq(kids[1:], budget - n)]

    def gen(label, budget):
        if budget < 1:
            return []
        out = []
        for rhs, w in bylhs.get(label, []):
            if isinstance(rhs, str):
                out.append(((label, [rhs]), 1, w))
            else:
                out.extend(((label, kids), n, v * w)
                        for kids, n, v in seq(rhs, budget))
        return out
    return gen(root, maxlen)


def strip(label):
    return label.split('@')[0].split('[')[0]


def derived(t):
    """Derived tree of a CFG derivation."""
    if not isinstance(t, tuple):
        return t
    if (len(t[1]) == 1 and isinstance(t[1][0], tuple)
            and '[' in t[1][0][0] and '[' not in t[0]):
        return derived(t[1][0])
    return '(%s %s)' % (strip(t[0]), ' '.join(derived(a) for a in t[1]))


def plain(t):
    return t if not isinstance(t, tuple) else '(%s %s)' % (t[0],
            ' '.join(plain(a) for a in t[1]))


def reducing(ctx):
    """The derivations of the reduction are those of the TAG."""
    p = ctx.params
    gram = ctx.mod('grammar')
    labels = {}
    init = [(instance(ctx, a, labels), n + 2)
            for n, a in enumerate(p['init'])]
    aux = [(instance(ctx, a, labels), n + 3)
            for n, a in enumerate(p['aux'])]
    packed = p.get('packed', False)
    rules, lexicon = gram.ostagreduction(
            Items([(text(t), w) for t, w in init]),
            Items([(text(t), w) for t, w in aux]), packedgraph=packed,
            extrarules={(('N', 'Epsilon'), ('z', )): 4}
            if p.get('extra') else None)
    if p.get('extra'):
        init.append((('N', ['z']), 4))
    # the values of the labels are distinguished from here on
    values = {a: concrete(b, a[2:]) for a, b in labels.items()}

    def known(s):
        """Concrete text, given the values of the labels."""
        if type(s) is str:
            return s
        out = ''
        for i in range(len(s)):
            c = s[i]
            out += c if type(c) is str else concrete(c, PRINTABLE)
        return out

    def conc(x):
        if not isinstance(x, tuple):
            return x
        lab = x[0]
        for a, b in labels.items():
            if b is lab:
                lab = values[a]
        return (lab, [conc(a) for a in x[1]])
    grules = []
    for line in rules.split('\n'):
        if len(line) == 0:
            continue
        fields = line.split('\t')
        ctx.check(fields[-2] == ('01' if len(fields) == 5 else '0'),
                'yield function')
        grules.append((known(fields[0]), [known(a) for a in fields[1:-2]],
                int(known(fields[-1]))))
    ctx.check(len({(a, tuple(b)) for a, b, _ in grules}) == len(grules),
            'each rule is listed once')
    glex = []
    for line in lexicon.split('\n'):
        if len(line) == 0:
            continue
        fields = line.split('\t')
        for a in fields[1:]:
            tag, w = a.split(' ')
            glex.append((known(fields[0]), known(tag), int(known(w))))
    init = [(conc(a), w) for a, w in init]
    aux = [(conc(a), w) for a, w in aux]
    want = sorted((plain(a), 0 if packed else w) for a, _, w
            in tagderivations(init, aux, p['root'], p['maxlen']))
    got = sorted((derived(a), 0 if packed else w) for a, _, w
            in cfgderivations(grules, glex, p['root'], p['maxlen']))
    ctx.check([a for a, _ in got] == [a for a, _ in want], 'derived trees')
    ctx.check(got == want, 'weights of derivations')
    ctx.reach('many' if len(want) > len(init) else 'few')
    ctx.observe(got)


NP = ['NP', ['D', 'the'], ['N', 'man']]
HARNESSES = {
    'induce': dict(fn=inducing, reach=['factored'], params=dict(
        quick=[dict(trees=[['S', ['?1AB', ['?2AB', ['N', 'a']], ['?3AB',
                ['P', 'b'], ['?4AB', ['N', 'c'], ['M', None]]]]]]),
            dict(trees=[['S', ['?1AB', ['D', None], ['?2AB', ['?3AB',
                ['N', 'a'], ['M', 'b']], ['P', None]]], ['V', 'c']]]),
            dict(trees=[['?1AB', ['?2AB', ['?3AB', ['N', 'a']], ['P', 'b']]],
                ['S', ['?4AB', ['?5AB', ['?6AB', ['N', None], ['P', 'b']]]]]]),
            dict(trees=[['?1AB', ['?2AB', ['A', None], ['B', None]]],
                ['S', ['?3AB', ['?4AB', ['N', 'a']]], ['P', 'b']]]),
            dict(trees=[['S', ['?1AB', ['?2AB', ['N', 'a'], ['?3AB', None]],
                ['P', None]]], ['S', ['?4AB', ['?5AB', ['N', 'a'], ['?3AB',
                None]], ['P', None]], ['M', None]]])],
        thorough=[dict(trees=[['?1ABC', ['?2ABC', ['?3ABC', ['?4ABC',
                ['N', 'a'], ['?5ABC', ['M', None]]], ['?6ABC', ['P', 'b']]],
                ['?7ABC', ['P', None]]]]])])),
    'reduce': dict(fn=reducing, reach=['many'], params=dict(
        quick=[dict(root='S', maxlen=4, init=[['S', ['?1AB', ['N', 'a']],
                    ['V', 'b']], ['?2AB', ['N', 'c']]],
                aux=[['?1AB', ['?1AB', '*'], ['?2AB', None]]]),
            dict(root='S', maxlen=5, init=[['S', ['?1AB', ['D', 'a'],
                    ['?2AB', None]], ['V', 'b']], ['?2AB', ['N', 'c']]],
                aux=[['?3AB', ['?4AB', ['P', 'd'], ['?3AB', '*']],
                    ['?5AB', ['P', 'e']]]]),
            dict(root='S', maxlen=5, init=[['S', ['A', ['N', 'a']],
                    ['A', None]], ['?1AB', ['N', 'c']], ['?2AB', ['M', 'd']]],
                aux=[['?3AB', ['?3AB', '*'], ['P', 'x']],
                    ['?4AB', ['P', 'y'], ['?4AB', '*']]]),
            dict(root='S', packed=True, maxlen=4, init=[['S', ['?1AB',
                    ['N', 'a']], ['?2AB', ['N', 'a']]],
                    ['S', ['?2AB', ['N', 'a']], ['?2AB', None]],
                    ['?1AB', ['N', 'c']]],
                aux=[['?1AB', ['?1AB', '*'], ['P', 'x']]]),
            dict(root='S', maxlen=5, init=[['S', ['?1ABC', ['?2ABC',
                    ['N', 'a']], ['?3ABC', None]]], ['?4ABC', ['N', 'c']]],
                aux=[['?5ABC', ['?6ABC', ['?5ABC', '*'], ['P', 'x']]],
                    ['?1ABC', ['?2ABC', ['P', 'y']], ['?1ABC', '*']]]),
            dict(root='S', maxlen=4, extra=1, init=[['S', ['?1AB',
                    ['N', 'a']], ['?2AB', ['N', 'a']]]], aux=[['?1AB',
                    ['?2AB', ['P', 'x']], ['?3AB', ['?1AB', '*']]]])],
        thorough=[dict(root='S', maxlen=7, init=[['S', ['?1ABC', ['?2ABC',
                    ['N', 'a']], ['?3ABC', None]]], ['?4ABC', ['N', 'c']]],
                aux=[['?5ABC', ['?6ABC', ['?5ABC', '*'], ['P', 'x']]],
                    ['?1ABC', ['?2ABC', ['P', 'y']], ['?1ABC', '*']],
                    ['?7ABC', ['?7ABC', '*'], ['?8ABC', None]]])])),
}
