"""The parser as a whole: from sentence to parse tree."""
import re
import logging
from plib import Gram, eq, le
import C25, C26, C27, C32, C34
NEEDS = ["bit", "containers", "pcfg", "plcfrs", "kbest", "_fragments",
        "coarsetofine", "disambiguation", "estimates", "probe"]
OUTSIDE = ('Longer sentences, larger grammars; relational-realizational '
        'transform, function tag classifier, reranking stages, external '
        'taggers, evaluation of pruning with gold trees, models produced by '
        'runexp, multiprocessing; the C++ containers, which are modelled by '
        'their documented behaviour.')
ASSUMPTIONS = ['C++ containers behave as documented', 'probabilities are '
        'positive']
logging.disable(logging.CRITICAL)
MARK = re.compile(r'_[0-9]+$')


def stage(ctx, **kw):
    par = ctx.mod('parser')
    return par.DictObj(dict(par.DEFAULTSTAGE, **kw))


def params(ctx, stages, **kw):
    par = ctx.mod('parser')
    default = dict(stages=stages, transformations=None, binarization=None,
            postagging=None, relationalrealizational=None, verbosity=0,
            punct=None)
    default.update(kw)
    return par.DictObj(default)


def cleaned(t):
    """Remove binarization and markers of derivation (label, pos, kids)."""
    kids = []
    for a in t[2]:
        b = cleaned(a)
        if '|<' in a[0]:
            kids += b[2]
        else:
            kids.append(b)
    label = MARK.sub('', t[0].split('@')[0])
    return (label, tuple(t[1]), tuple(sorted(kids, key=lambda a: a[1])))


def readtree(t):
    kids = () if type(t[0]) is int else tuple(readtree(a) for a in t)
    return (t.label, tuple(sorted(t.leaves())), kids)


def makeparser(ctx, p, gr, **kw):
    """A parser with a single stage; the model with symbolic weights is
    selected as the estimator."""
    return ctx.mod('parser').Parser(params(ctx, [stage(ctx, name='x',
            mode=p['mode'], grammar=gr.grammar, dop='reduction',
            estimator='costs', objective=p.get('objective', 'mpp'), m=1000)],
            **kw))


def maketree(ctx, p):
    rules, lexicon = C34.getrules(ctx, p)
    n = len(rules) + len(lexicon)
    prob = C34.probabilities(ctx, p, n)
    return prob, Gram(ctx, rules, lexicon, fixed=[ctx.neglog(a)
            for a in prob], more=dict(shortest=[.5] * n))


def scores(edges, item, gr, prob, objective='mpp'):
    """Probability of each tree of an item."""
    totals = {}
    if item not in edges:
        return totals
    for t, used in C34.enumerate_(edges, item, gr):
        key = C34.derivstr(t) if objective == 'mpd' else None
        totals.setdefault((cleaned(t), C34.IDS.sub('', C34.derivstr(t)), key),
                []).append(C34.product([prob[m] for m in used]))
    return {k: C34.mass(v) for k, v in totals.items()}


def checkbest(ctx, got, prob, totals):
    """The tree has the highest score."""
    ctx.check(ctx.And(*[le(a, prob) for a in totals.values()]),
            'no tree is better')
    ctx.check(ctx.Or(*[eq(a, prob) for k, a in totals.items()
            if k[0] == got]), 'the tree has this probability')


def checkresult(ctx, res, n, root='S'):
    ctx.check(res.parsetree.label == root, 'root label')
    ctx.check(sorted(res.parsetree.leaves()) == list(range(n)),
            'tree covers the sentence')
    for a in res.parsetree.subtrees():
        ctx.check(len(a) > 0 and (type(a[0]) is not int or len(a) == 1),
                'nodes have children')


def single(ctx):
    """A single stage gives the tree of the best derivation or parse."""
    p = ctx.params
    prob, gr = maketree(ctx, p)
    sent = C25.sentence(ctx, p)
    edges = C26.closure(gr, sent)
    root = ('S', tuple(range(len(sent))))
    parser = makeparser(ctx, p, gr)
    res = list(parser.parse(list(sent)))
    ctx.check(len(res) == 1, 'one result for each stage')
    res = res[0]
    if root not in edges:
        checkresult(ctx, res, len(sent), 'ROOT')
        partial(ctx, p, gr, prob, sent, edges, res)
        return
    checkresult(ctx, res, len(sent))
    ctx.check(not res.noparse, 'success')
    totals = scores(edges, root, gr, prob, p['objective'])
    checkbest(ctx, readtree(res.parsetree), res.prob, totals)
    ctx.check(len(res.parsetrees) == len(totals), 'number of trees')
    ctx.reach('parse')
    ctx.observe(len(totals))


def partial(ctx, p, gr, weights, sent, edges, res):
    """A sentence that cannot be parsed gets the parses of its parts: the
    largest part that can be parsed, and the parts before and after it."""
    if not C25.covered(gr, sent):
        ctx.reach('unknown word')
        return

    def best(a, b):
        return [x for x in edges if x[1] == tuple(range(a, b))
                and '|<' not in x[0]]

    def partition(a, b):
        for n in range(b - a, 0, -1):
            for i in range(a, b - n + 1):
                if best(i, i + n):
                    return (partition(a, i) + [(i, i + n)]
                            + partition(i + n, b))
        return []
    parts = partition(0, len(sent))
    got = readtree(res.parsetree)
    ctx.check([a[1] for a in got[2]] == [tuple(range(a, b))
            for a, b in parts], 'largest parts that can be parsed')
    prob = [1]
    for node, (a, b) in zip(got[2], parts):
        cands = [x for x in best(a, b) if MARK.sub('', x[0]) == node[0]]
        ctx.check(len(cands) == 1, 'label of part')
        totals = scores(edges, cands[0], gr, weights, p['objective'])
        ctx.check(ctx.Or(*[ctx.And(*[le(y, v) for y in totals.values()])
                for k, v in totals.items() if k[0] == node]),
                'best tree of part')
        # the label has the best derivation
        mine = scores(edges, cands[0], gr, weights, 'mpd').values()
        for x in best(a, b):
            other = scores(edges, x, gr, weights, 'mpd').values()
            ctx.check(ctx.And(*[ctx.Or(*[le(z, y) for y in mine])
                    for z in other]), 'label with the best derivation')
        prob = [x * v for x in prob for k, v in totals.items()
                if k[0] == node]
    ctx.check(ctx.Or(*[eq(res.prob, x) for x in prob]),
            'product of the probabilities of the parts')
    ctx.reach('partial')
    ctx.observe(parts)


def escaped(word, ptb):
    """Reference for the escaping of tokens in grammars."""
    if ptb and len(word) == 1:
        for a, b in (('{', '-LCB-'), ('}', '-RCB-'), ('[', '-LSB-'),
                (']', '-RSB-')):
            if word[0] == a:
                return b
    out = ''
    for n in range(len(word)):
        if word[n] == '(':
            out += '-LRB-' if ptb else '#LRB#'
        elif word[n] == ')':
            out += '-RRB-' if ptb else '#RRB#'
        elif ptb and word[n] == '/':
            out += '\\/'
        else:
            out += word[n]
    return out


def tokens(ctx):
    """Special characters in words are escaped in the same way as in
    grammars; initial and final quotes are removed on request."""
    p = ctx.params
    words = [ctx.string('w', *p['alphabet']) for _ in range(p['n'])]
    ptb, prune = 'PTBbrackets' in p['transform'], 'PUNCT-PRUNE' in p[
            'transform']
    known = [tuple(a) for a in p['lexicon']]
    kept = list(range(len(words)))
    if prune:
        quote = [any(w == q for q in ("''", '``', '"', '.')) for w in words]
        while kept and quote[kept[0]]:
            kept.pop(0)
        while kept and quote[kept[-1]]:
            kept.pop()
    want = []
    for i in kept:
        x = escaped(words[i], ptb)
        want.append([t for t, w in known if w == x])
    tags = None
    given = [None] * len(words)
    if p.get('tags'):
        given = [ctx.pick('tag', p['tags']) for _ in words]
        tags = list(given)
    gr = Gram(ctx, p['rules'], known, fixed=[1.] * (
            len(p['rules']) + len(known)))
    parser = makeparser(ctx, dict(mode='pcfg', objective='mpd'), gr,
            transformations=tuple(p['transform']))
    sent = list(words)
    res = list(parser.parse(sent, tags=tags))
    ctx.check(len(res) == 1, 'number of results')
    ctx.check(len(sent) == len(kept), 'pruned words')
    for w, i in zip(sent, kept):
        ctx.check(w == words[i], 'other words are kept')
    if not kept:
        ctx.check(res[0].noparse, 'no words')
        ctx.reach('empty')
        return
    res = res[0]
    got = readtree(res.parsetree)
    ctx.check(got[1] == tuple(range(len(kept))), 'tree covers the sentence')
    if all(want):
        tag = {a[1][0]: a[0] for a in flat(got) if not a[2]}
        for n, (i, ts) in enumerate(zip(kept, want)):
            if given[i]:
                ctx.check(tag[n] == given[i], 'given tag')
            else:
                ctx.check(tag[n] in ts, 'tag of word')
        ctx.check(not res.noparse and got[0] == 'S', 'parse succeeds')
        ctx.reach('parse')
    else:
        ctx.reach('unknown word')
    ctx.observe(len(kept), [len(a) for a in want])


def flat(t):
    return [t] + [b for a in t[2] for b in flat(a)]


def signature(word, n, lexicon):
    return '_UNK-' + ('C' if word[0] == 'b' else 'P' if word[0] == '('
            else 'L')


def unknown(ctx):
    """Words that are not in the grammar are replaced by their signature; a
    known word with special characters is not; the same goes for the words in
    a sentence of which only parts can be parsed."""
    p = ctx.params
    par = ctx.mod('parser')
    words = [ctx.string('w', *p['alphabet']) for _ in range(p['n'])]
    known = [tuple(a) for a in p['lexicon']]
    post = par.DictObj(method='unknownword', model='4',
            unknownwordfun=signature, closedclasswords=set(),
            lexicon={w for _, w in known if not w.startswith('_UNK')},
            sigs={w for _, w in known if w.startswith('_UNK')})
    rules = [tuple(a) for a in p['rules']]
    gr = Gram(ctx, rules, [(a, escaped(b, False)) for a, b in known],
            fixed=[1. + m / 16. for m in range(len(rules) + len(known))])
    want = []
    for w in words:
        a = [t for t, x in known if x == w]
        if not a:
            sig = signature(w, 0, None)
            a = [t for t, x in known if x == sig] or [
                    t for t, x in known if x == '_UNK']
            ctx.reach('unknown')
        want.append(a)
    parser = makeparser(ctx, dict(mode=p['mode'], objective='mpd'), gr,
            postagging=post)
    res = list(parser.parse(list(words)))
    ctx.check(len(res) == 1, 'number of results')
    checkresult(ctx, res[0], len(words), res[0].parsetree.label)
    got = readtree(res[0].parsetree)
    tag = {a[1][0]: a[0] for a in flat(got) if not a[2]}
    for n, ts in enumerate(want):
        ctx.check(tag[n] in ts, 'tag of word')
    # is there a derivation?
    edges = C26.closure(C25.Other(gr, [(t, n) for n, ts in enumerate(want)
            for t in ts], [0] * sum(map(len, want))),
            list(range(len(words))))
    full = ('S', tuple(range(len(words)))) in edges
    ctx.check(got[0] == ('S' if full else 'ROOT'), 'parse or parts')
    ctx.check(not res[0].noparse, 'success')
    ctx.reach('parse' if full else 'partial')
    ctx.observe(tag)


def keep(t, require, block):
    """Whether a derivation string meets the constraints."""
    have = C34.spansof(t)
    return set(require) <= have and not set(block) & have


def merged(t):
    """Undo splitting of discontinuous nodes with marked origin."""
    def flatten(t):
        out = []
        for a in t[2]:
            out += flatten(a) if ':' in a[0] else [a]
        return out
    out = []
    for a in sorted(flatten(t), key=lambda a: a[1]):
        a = merged(a)
        if '*' in a[0]:
            label, m = a[0].split('*')
            if m == '0':
                out.append((label, a[1], a[2], int(m)))
            else:
                n = max(n for n, b in enumerate(out) if b[0] == label
                        and len(b) == 4 and b[3] == int(m) - 1)
                b = out[n]
                out[n] = (label, tuple(sorted(b[1] + a[1])), tuple(sorted(
                        b[2] + a[2], key=lambda x: x[1])), int(m))
        else:
            out.append(a)
    return (t[0], t[1], tuple(a[:3] for a in out))


def stages(ctx):
    """With multiple stages, each stage gives the best of the trees that its
    grammar and the stage by which it is pruned both allow; if there is none,
    the tree of an earlier stage."""
    p = ctx.params
    par = ctx.mod('parser')
    conv = lambda rules: [(tuple(r), tuple(map(tuple, yf)))
            if not isinstance(r, str) else tuple((r, yf) + tuple(more))
            for r, yf, *more in rules]
    split = bool(p.get('split'))
    rules, lexicon = conv(p['coarse']), [tuple(a) for a in p['coarselex']]
    coarse = Gram(ctx, rules, lexicon, fixed=[1 + 2 ** m / 1024.
            for m in range(len(rules) + len(lexicon))])
    rules, lexicon = conv(p['fine']), [tuple(a) for a in p['finelex']]
    prob = [ctx.prob('p', 0.0625) if m in p.get('symbolic', ())
            else (2 + 5 * m % 13) / 16. for m in range(len(rules)
            + len(lexicon))]
    fine = Gram(ctx, rules, lexicon, fixed=[ctx.neglog(a) for a in prob])
    fine.grammar.getmapping(coarse.grammar, re.compile(p['strip']), None,
            split, split)
    sent = C25.sentence(ctx, p)
    root = ('S', tuple(range(len(sent))))
    k = ctx.pick('k', p['k'])
    kw = {}
    if p.get('spans'):
        spans = [(a, tuple(b)) for a, b in p['spans']
                if max(b) < len(sent)]
        for name in ('require', 'block'):
            if spans and ctx.flag(name):
                kw[name] = [ctx.pick('span', spans)]
                ctx.reach(name)
    require, block = kw.get('require', []), kw.get('block', [])
    common = dict(dop='reduction', estimator='costs', m=1000)
    objective = ctx.pick('objective', p['objective'])
    st = [stage(ctx, name='a', mode=p['modes'][0], grammar=coarse.grammar,
            split=split, markorigin=split, objective='mpd', **common),
            stage(ctx, name='b', mode=p['modes'][1], grammar=fine.grammar,
            prune='a', k=k, objective=objective, **common)]
    if p.get('middle'):  # another stage, that is not used for pruning
        mid = Gram(ctx, conv(p['middle']), [tuple(a) for a in p['midlex']],
                fixed=[1.] * (len(p['middle']) + len(p['midlex'])))
        st[0].update(dop=None)
        st.insert(1, stage(ctx, name='m', mode='pcfg', grammar=mid.grammar,
                objective='mpd'))
    parser = par.Parser(params(ctx, st))
    res = list(parser.parse(list(sent), **{a: [(x, list(y)) for x, y in b]
            for a, b in kw.items()}))
    ctx.check([a.name for a in res] == [a.name for a in st],
            'one result per stage')
    earlier = readtree([a for a in res[:-1] if not a.noparse or a is res[0]
            ][-1].parsetree)
    if p.get('middle'):
        ctx.check(not res[1].noparse or res[0].noparse
                or readtree(res[1].parsetree) == readtree(res[0].parsetree),
                'tree of first stage')
        ctx.check(res[1].noparse == (('S', root[1]) not in C26.closure(
                mid, sent)) or root not in C26.closure(coarse, sent),
                'parse of middle stage')
        res.pop(1)

    edges = C26.closure(coarse, sent)
    if root not in edges:
        ctx.check(res[1].noparse, 'no parse if there is no coarse parse')
        checkresult(ctx, res[0], len(sent), 'ROOT')
        if not p.get('middle'):
            checkresult(ctx, res[1], len(sent), 'ROOT')
        ctx.check(readtree(res[1].parsetree) == earlier,
                'parts of earlier stage')
        ctx.reach('no coarse')
        return
    costs = [*coarse.cost, *coarse.lexcost]
    cands = [(sum(costs[m] for m in used), t)
            for t, used in C34.enumerate_(edges, root, coarse)]
    ok = [(c, t) for c, t in cands
            if keep(C34.derivstr(t), require, block)]
    if ok:
        checkresult(ctx, res[0], len(sent))
        ctx.check(not res[0].noparse, 'coarse parse')
        got = readtree(res[0].parsetree)
        good = [merged(cleaned(t)) for c, t in ok
                if le(c, min(c for c, _ in ok))]
        ctx.check(got in good or bool(p.get('middle')), 'best coarse tree')
    else:
        checkresult(ctx, res[0], len(sent))
        ctx.check(res[0].noparse, 'no coarse parse')
        ctx.reach('no coarse')
    allowed = C32.reference(ctx, p, coarse, edges, root, k,
            [(a, b) for a, b in require], [(a, b) for a, b in block])
    strip = re.compile(p['strip'])
    fan = C26.fanouts(fine)

    def allow(lab, pos):
        lab1 = strip.sub('', lab)
        if split and fan[lab] > 1:
            return all(('%s*%d' % (lab1, m), tuple(range(a, b))) in allowed
                    for m, (a, b) in enumerate(C26.runs(pos)))
        return (lab1, pos) in allowed
    edges2 = C26.closure(fine, sent, allowed=allow)
    totals = {}
    if root in edges2:
        for t, used in C34.enumerate_(edges2, root, fine):
            x = C34.IDS.sub('', C34.derivstr(t))
            if keep(x, require, block):
                key = C34.derivstr(t) if objective == 'mpd' else None
                totals.setdefault((cleaned(t), x, key), []).append(
                        C34.product([prob[m] for m in used]))
    totals = {a: C34.mass(b) for a, b in totals.items()}
    if totals:
        checkresult(ctx, res[1], len(sent))
        ctx.check(not res[1].noparse, 'fine parse')
        checkbest(ctx, readtree(res[1].parsetree), res[1].prob, totals)
        ctx.reach('fine')
    elif root in edges2:
        ctx.check(res[1].noparse, 'no fine parse')
        ctx.check(readtree(res[1].parsetree) == earlier,
                'tree of earlier stage')
        ctx.check(len(res[1].parsetrees) == 1, 'one tree')
        ctx.reach('earlier')
    else:  # parses of parts of the sentence
        checkresult(ctx, res[1], len(sent), 'ROOT')
        ctx.reach('parts')
    ctx.observe(res[1].noparse, len(res[1].parsetrees))


TOK = re.compile(r'\(|\)|[^\s()]+')


def readline(line):
    """Labels with positions and words of a line with a tree in bracket or
    discbracket format."""
    line, _, comment = line.partition('\t')
    stack, nodes, words = [], [], {}
    n = 0
    for tok in TOK.findall(line):
        if tok == '(':
            stack.append([None, []])
        elif tok == ')':
            label, pos = stack.pop()
            nodes.append((label, tuple(sorted(pos))))
            if stack:
                stack[-1][1] += pos
        elif stack[-1][0] is None:
            stack[-1][0] = tok
        else:
            if '=' in tok:
                i, _, word = tok.partition('=')
                i = int(i)
            else:
                i, word = n, tok
            n += 1
            words[i] = word.replace('#LRB#', '(').replace('#RRB#', ')')
            stack[-1][1].append(i)
    return None, [words[i] for i in range(len(words))], sorted(nodes), comment


def readexport(lines):
    """Idem for lines with a tree in export format; without its root."""
    key, _, comment = lines[0][len('#BOS '):].partition(' %% ')
    if lines[-1] != '#EOS ' + key:
        raise ValueError(repr(lines))
    terms = [a.split('\t') for a in lines[1:-1] if a[0] != '#']
    phrasal = {a.split('\t')[0][1:]: a.split('\t') for a in lines[1:-1]
            if a[0] == '#'}
    pos = {a: [] for a in phrasal}
    nodes = []
    for i, a in enumerate(terms):
        nodes.append((a[2], (i, )))
        p = a[5]
        while p != '0':
            pos[p].append(i)
            p = phrasal[p][5]
    nodes += [(a[2], tuple(pos[b])) for b, a in phrasal.items()]
    return key, [a[0] for a in terms], sorted(nodes), comment


def readoutput(text, fmt):
    """Trees in the output of the parser."""
    lines = text.splitlines()
    if fmt != 'export':
        return [readline(a) for a in lines]
    out = []
    for a in lines:
        if a.startswith('#BOS '):
            out.append([])
        out[-1].append(a)
    return [readexport(a) for a in out]


def nodesof(t):
    return sorted((a[0], a[1]) for a in flat(t))


def reference(gr, prob, words, tags, objective='mpd'):
    """All trees with their scores, of a sentence or the best of its parts;
    given words as they appear in the input."""
    sent = [escaped(w, False) for w in words]
    edges = C26.closure(gr, sent, allowed=lambda a, pos: not tags
            or len(pos) > 1 or C25.matchtag(a, tags[pos[0]]))
    return scores(edges, ('S', tuple(range(len(sent)))), gr, prob, objective)


def output(ctx):
    """The k best trees of each sentence are written, from best to worst, in
    the requested format, with the words, the ID of the sentence, and the
    probability of the tree."""
    p = ctx.params
    par = ctx.mod('parser')
    fmt, k = ctx.pick('fmt', p['fmt']), ctx.pick('k', p['k'])
    printprob = ctx.flag('prob') if p.get('prob') else False
    usetags = bool(p.get('tags'))
    sentid, lines = bool(p.get('sentid')), bool(p.get('lines'))
    if p.get('main'):
        rules, lexicon = [tuple(a) for a in p['rules']], [
                tuple(a) for a in p['lexicon']]
        if isinstance(rules[0][0], list):
            rules = [(tuple(a), tuple(map(tuple, b))) for a, b in rules]
        counts = p['weights']
        lhs = [(a[0] if isinstance(a[0], str) else a[0][0])
                for a in rules + lexicon]
        prob = [a / float(sum(b for b, y in zip(counts, lhs) if x == y))
                for a, x in zip(counts, lhs)]
        gr = Gram(ctx, rules, lexicon, fixed=[ctx.neglog(a) for a in prob])
    else:
        prob, gr = maketree(ctx, p)
    # the input
    sents, text = [], ''
    for m in range(p['sents']):
        words = [ctx.pick('w', p['words'])
                for _ in range(ctx.pick('n', p['sizes']))]
        tags = [ctx.pick('tag', p['tags']) for _ in words
                ] if usetags else None
        toks = [w + '/' + t for w, t in zip(words, tags)
                ] if usetags else list(words)
        ident = str(m + 1)
        if sentid:
            ident = ctx.pick('id', ['x', 'b.%d' % m])
            if toks:
                toks[0] = ident + '|' + toks[0]
        if toks:
            sents.append((ident if sentid else str(len(sents) + 1), words,
                    tags))
        if lines:
            text += ''.join(a + '\n' for a in toks) + ctx.pick('end',
                    ['\n', '\n\n'])
        else:
            text += ctx.pick('pad', ['', ' ']) + ' '.join(toks) + ctx.pick(
                    'end', ['\n', ' \n'])
    if ctx.flag('final'):
        text = text.rstrip('\n')
    inp, out = ctx.file('input', text), ctx.file('output')
    if p.get('main'):
        argv = ['discodop', 'parser', '--simple', '-s', 'S', '--fmt=' + fmt]
        argv += ['-b', str(k)] if k > 1 else []
        for opt, val in (('--prob', printprob), ('--tags', usetags),
                ('--sentid', sentid), ('-x', lines)):
            if val:
                argv.append(opt)
        argv += [ctx.file('rules', rulestext(gr, p['weights'])),
                ctx.file('lexicon', lextext(gr, p['weights'])), inp, out]
        old = par.sys.argv
        try:
            par.sys.argv = argv
            par.main()
        finally:
            par.sys.argv = old
    else:
        parser = makeparser(ctx, p, gr, transformations=p.get('transform'))
        if p.get('stages'):  # pruned by stage with same grammar
            gr.grammar.getmapping(gr.grammar, None)
            first = parser.stages[0]
            parser.stages.append(stage(ctx, **dict(vars(first), name='y',
                    prune='x', k=50)))
        with par.openread(inp) as infile:
            par.doparsing(parser, infile, par.io.open(out, 'w',
                    encoding='utf8'), printprob, not lines, usetags, k, 1,
                    fmt, None, sentid)
    got = readoutput(ctx.filetext(out), fmt)
    reached = set()
    for key, words, tags in sents:
        while p.get('transform') and words and words[-1] == '.':
            words, tags = words[:-1], tags[:-1]
        while p.get('transform') and words and words[0] == '.':
            words, tags = words[1:], tags[1:]
        totals = reference(gr, prob, words, tags, p['objective'])
        if not totals:
            ctx.check(len(got) > 0, 'a tree for each sentence')
            _, sent, nodes, comment = got.pop(0)
            ctx.check(sent == words, 'words')
            if not words:
                continue
            ctx.check(comment.startswith('prob=') == (printprob
                    and fmt != 'bracket'), 'comment')
            reached.add('no parse')
            continue
        want = {}
        for a, b in totals.items():
            nodes = nodesof(a[0])
            if fmt == 'export':
                nodes.remove(('S', tuple(range(len(words)))))
            want.setdefault(str(nodes), []).append(b)
        m = min(k, len(totals))
        ctx.check(len(got) >= m, 'the best trees of each sentence')
        prev = None
        used = []
        for i in range(m):
            ident, sent, nodes, comment = got.pop(0)
            ctx.check(sent == words, 'words')
            if fmt == 'export':
                ctx.check(ident == (key if k == 1 else '%s-%d' % (key, i)),
                        'sentence ID')
            ctx.check(str(nodes) in want, 'a tree of the sentence')
            used.append(str(nodes))
            if printprob and fmt != 'bracket':
                ctx.check(comment.startswith('prob='), 'comment')
                if p.get('main'):
                    x = float(comment[len('prob='):])
                    ctx.check(min(abs(x - y) for y in want[str(nodes)])
                            < 1e-9 * x, 'probability')
                    ctx.check(prev is None or x <= prev, 'from best to worst')
                    prev = x
                reached.add('prob')
            else:
                ctx.check(comment == '', 'no comment')
        if len(totals) == len(want) and p['objective'] != 'shortest':
            ctx.check(len(set(used)) == m, 'distinct trees')
            for i in range(m):
                for a in want:
                    if a not in used[:i]:
                        ctx.check(le(want[a][0], want[used[i]][0]),
                                'from best to worst')
            reached.add('order')
        reached.add('tree')
    ctx.check(not got, 'no other trees')
    for a in sorted(reached):
        ctx.reach(a)
    ctx.observe(len(sents))


def rulestext(gr, prob):
    out = ''
    lcfrs = isinstance(gr.rules[0][1], tuple) and any(
            len(yf) > 1 or yf[0] != tuple(sorted(yf[0]))
            for _, yf in gr.rules)
    for m, (r, yf) in enumerate(gr.rules):
        w = '%d' % prob[m]
        out += '\t'.join(r + (','.join(''.join(map(str, a)) for a in yf), w)
                if lcfrs else (w, ) + r) + '\n'
    return out


def lextext(gr, prob):
    words = {}
    for m, (t, w) in enumerate(gr.lexicon):
        words.setdefault(w, []).append('%s %d' % (t,
                prob[len(gr.rules) + m]))
    return ''.join('%s\t%s\n' % (w, '\t'.join(a)) for w, a in words.items())


GRAM = dict(rules=[('S', 'A', 'S|<B,B>'), ('S|<B,B>', 'B', 'B'),
            ('S', 'A', 'B'), ('A', 'A', 'B'), ('S', 'C'), ('C', 'A', 'B'),
            ('C', 'A', 'C|<B>'), ('C|<B>', 'A', 'B')],
            lexicon=[('A', 'a'), ('B', 'a')])
LCFRS = dict(rules=[(('S', 'A_2', 'B'), ((0, 1, 0), )),
            (('A_2', 'A', 'A_2|<B>'), ((0, 1), (1, ))),
            (('A_2|<B>', 'B', 'A'), ((0, ), (1, ))),
            (('A_2', 'A', 'B'), ((0, ), (1, ))),
            (('S', 'A', 'S|<B>'), ((0, 1), )),
            (('S|<B>', 'A', 'B'), ((0, 1), ))],
            lexicon=[('A', 'a'), ('B', 'b'), ('A', 'b')])
TOKENS = dict(rules=[('S', a, b) for a in 'AB' for b in 'AB'] + [
        ('S', 'A'), ('S', 'B')] + [('S', 'X', b) for b in 'AB'] + [
        ('X', a, b) for a in 'AB' for b in 'AB'])
COARSE = dict(coarse=[('S', 'A', 'S|<B,B>'), ('S|<B,B>', 'B', 'B'),
            ('S', 'A', 'B'), ('A', 'A', 'B'), ('S', 'C'), ('C', 'A', 'B'),
            ('C', 'A', 'C|<B>'), ('C|<B>', 'A', 'B')],
        coarselex=[('A', 'a'), ('B', 'a'), ('B', 'b')],
        fine=[('S', 'A', 'S|<B,B>'), ('S|<B,B>', 'B@1', 'B'),
            ('S', 'A@1', 'B'), ('S', 'A', 'B@1'), ('A', 'A@1', 'B'),
            ('A', 'B', 'B')],
        finelex=[('A', 'a'), ('B', 'a'), ('A@1', 'a'), ('B@1', 'a'),
            ('B', 'b')], strip='@.+$')
SPLIT = dict(coarse=[('S', 'A_2*0', 'S:<1>'), ('S:<1>', 'B', 'A_2*1'),
            ('S:<1>', 'A_2*1', 'B'), ('S', 'A', 'B'), ('A', 'A', 'B'),
            ('A_2*0', 'A'), ('A_2*1', 'A')],
        coarselex=[('A', 'a'), ('B', 'b'), ('B', 'a')],
        fine=[(('S', 'A_2', 'B'), ((0, 1, 0), )),
            (('A_2', 'A', 'A'), ((0, ), (1, ))),
            (('S', 'A', 'B'), ((0, 1), )), (('A', 'A', 'B'), ((0, 1), ))],
        finelex=[('A', 'a'), ('B', 'b'), ('B', 'a')], strip='@.+$',
        split=True)
OUT = dict(GRAM, lexicon=[('A', 'a'), ('B', 'a'), ('A', '#LRB#'),
            ('B', 'b')], words=['a', '(', 'b'], sizes=[2, 3],
            weights=[3, 4, 5, 2, 1, 7, 11, 1, 3, 8, 2, 5])
LOUT = dict(LCFRS, words=['a', 'b'], sizes=[3],
            rules=LCFRS['rules'] + [(('S', 'C'), ((0, ), )),
                (('C', 'A_2', 'B'), ((0, 1, 0), )),
                (('C', 'A', 'B'), ((0, 1), ))],
            weights=[60, 4, 1, 5, 1, 1, 2, 1, 63, 63, 8, 1])
HARNESSES = {
    'output': dict(fn=output, reach=['tree'], params=dict(
        quick=[dict(OUT, fmt=['discbracket', 'export'], k=[1, 3], sents=1,
            words=['a', '('], symbolic=[0], mode='pcfg', objective='mpp'),
            dict(OUT, fmt=['discbracket'], k=[1], sents=1, words=['a'],
            symbolic=[], mode='pcfg', sizes=[2], objective='shortest', prob=1),
            dict(OUT, fmt=['discbracket'], k=[1, 2], sents=1, words=['a', 'b'],
            symbolic=[], mode='pcfg', sizes=[2], objective='mpd', prob=1,
            stages=1),
            dict(OUT, fmt=['discbracket'], k=[2], sents=1, words=['a', '.'],
            tags=['A', 'B'], mode='pcfg', sizes=[2], objective='mpp',
            transform=['PUNCT-PRUNE']),
            dict(OUT, fmt=['bracket'], k=[2], sents=2, sizes=[0, 2],
            words=['a'], main=1, objective='mpd', sentid=0),
            dict(OUT, fmt=['export'], k=[2], sents=2, sizes=[0, 2],
            words=['a'], main=1, objective='mpd', sentid=1, lines=1),
            dict(OUT, fmt=['discbracket', 'export'], k=[2], sents=1,
            tags=['A', 'B'], words=['a'], main=1, objective='mpd', prob=1),
            dict(LOUT, fmt=['discbracket'], k=[1, 3], sents=1, main=1,
            objective='mpd', prob=1)])),
    'single': dict(fn=single, reach=['parse', 'partial'], params=dict(
        quick=[dict(GRAM, words=['a'], sizes=[1, 2, 3],
            mode=mode, symbolic=[0, 4], objective=obj)
            for mode, obj in (('pcfg', 'mpp'), ('plcfrs', 'mpd'))]
            + [dict(LCFRS, words=['a', 'b'], sizes=[2, 3],
            mode='plcfrs', symbolic=[0, 4], objective='mpp')],
        thorough=[dict(GRAM, words=['a'], sizes=[1, 2, 3, 4],
            mode=mode, symbolic=s, objective=obj)
            for mode in ('pcfg', 'plcfrs') for obj in ('mpp', 'mpd')
            for s in ([0, 4], [1, 3, 7])]
            + [dict(LCFRS, words=['a', 'b'], sizes=[2, 3, 4],
            mode='plcfrs', symbolic=s, objective=obj)
            for obj in ('mpp', 'mpd') for s in ([0, 4], [1, 2], [3, 7])])),
    'tokens': dict(fn=tokens, reach=['parse'], params=dict(
        quick=[dict(TOKENS, transform=t, alphabet=a, lexicon=lex, n=2,
            tags=tags) for t, a, lex, tags in [
                ([], ('(a', 1, 2), [('A', '#LRB#'), ('B', 'a#LRB#'),
                    ('A', 'aa')], None),
                (['PTBbrackets'], ('(/[', 1, 2), [('A', '-LRB-'),
                    ('B', '-LSB-'), ('A', '\\/\\/'), ('B', '[['),
                    ('A', '\\/-LRB-')], None),
                (['PTBbrackets'], (')a{', 1, 1), [('A', '-RRB-'),
                    ('B', '-LCB-'), ('A', 'a')], None)]]
            + [dict(TOKENS, transform=['PUNCT-PRUNE'], alphabet=('a".', 1, 1),
            lexicon=[('A', 'a'), ('B', 'a'), ('A', '"')], n=3, tags=tags)
            for tags in (None, ['A', 'B'])])),
    'stages': dict(fn=stages, reach=['fine'], params=dict(
        quick=[dict(COARSE, words=['a', 'b'], sizes=[1, 2, 3], modes=modes,
            k=k, symbolic=[0, 2, 3], objective=obj) for modes, k, obj in (
                (('pcfg', 'pcfg'), [0, 50], ['mpp', 'mpd']),
                (('plcfrs', 'pcfg'), [1, 2], ['mpp']),
                (('pcfg', 'plcfrs'), [1], ['mpd']))]
            + [dict(COARSE, words=['a'], sizes=[2, 3], modes=['pcfg', 'pcfg'],
                k=[0, 2], symbolic=[0], objective=['mpp'],
                spans=[('A', [0, 1]), ('B', [2]), ('C', [0, 1, 2]),
                    ('A', [0])])]
            + [dict(COARSE, words=['a', 'b'], sizes=[1, 3], modes=['plcfrs',
                'pcfg'], k=[0], symbolic=[0], objective=['mpp'],
                middle=[('S', 'A', 'B'), ('S', 'B', 'A'), ('A', 'A', 'B'),
                    ('S', 'B')],
                midlex=[('A', 'a'), ('B', 'a'), ('B', 'b')])]
            + [dict(SPLIT, words=['a', 'b'], sizes=[2, 3],
                modes=['pcfg', 'plcfrs'], k=[0, 1, 50], symbolic=[0, 2],
                objective=['mpp'])])),
    'unknown': dict(fn=unknown, reach=['unknown', 'parse'], params=dict(
        quick=[dict(rules=r, lexicon=lex, alphabet=alpha, n=n, mode=mode)
            for r, n in (([('S', 'A', 'B'), ('S', 'B', 'A'), ('B', 'B', 'B'),
                ('S', 'A', 'A'), ('A', 'C', 'C')], 2), )
            for alpha in (('ab(', 1, 1), )
            for lex in ([('A', 'a'), ('B', '('), ('A', '_UNK-C'),
                ('C', '_UNK')], [('A', '_UNK-C'), ('B', '_UNK-L'),
                ('C', '_UNK'), ('C', '_UNK-P')])
            for mode in ('pcfg', 'plcfrs')])),
}
