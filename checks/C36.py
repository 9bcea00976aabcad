"""Experiments: from treebank and parameter file to files with results."""
import logging
import math
import tlib
import C35
from plib import Gram
NEEDS = C35.NEEDS
OUTSIDE = ('Treebanks and sentences beyond the stated sizes; reranking '
        'stages, external taggers, function tag classifier, relational-'
        'realizational transform, estimates, multiprocessing; the scores in '
        'the log; compression of files, logging and the C++ containers, '
        'which are modelled by their documented behaviour.')
ASSUMPTIONS = ['C++ containers behave as documented']
logging.disable(logging.CRITICAL)


def treetext(t, words, fmt, key):
    """One tree as it occurs in the treebank file."""
    if fmt == 'export':
        lines, num, ids = [], [499], {}

        def number(a):
            for b in a[1]:
                if isinstance(b[1][0], tuple):
                    number(b)
                    num[0] += 1
                    ids[id(b)] = num[0]
        number(t)
        parent = {id(b): ids.get(id(a), 0) for a in tlib.subtrees(t)
                for b in a[1] if isinstance(b, tuple)}
        for a in sorted(tlib.preterminals(t), key=lambda x: x[1][0]):
            lines.append('\t'.join([words[a[1][0]], '--', a[0], '--', '--',
                    '%d' % parent[id(a)]]))
        for a in sorted((b for b in tlib.subtrees(t) if id(b) in ids),
                key=lambda x: ids[id(x)]):
            lines.append('\t'.join(['#%d' % ids[id(a)], '--', a[0], '--',
                    '--', '%d' % parent[id(a)]]))
        return '#BOS %s\n%s\n#EOS %s\n' % (key, '\n'.join(lines), key)

    def rec(a):
        if not isinstance(a, tuple):
            word = words[a].replace('(', '#LRB#')
            return word if fmt == 'bracket' else '%d=%s' % (a, word)
        return '(%s %s)' % (a[0], ' '.join(rec(b) for b in a[1]))
    return rec(t) + '\n'


def nodes(t, fmt):
    """Labels with positions, as read by C35.readoutput."""
    out = sorted((a[0], tuple(sorted(tlib.leaves(a))))
            for a in tlib.subtrees(t))
    if fmt == 'export':
        out.remove(('ROOT', tuple(sorted(tlib.leaves(t)))))
    return out


def treebank(ctx):
    """Trees with words; each nonterminal label occurs in a single place."""
    p = ctx.params
    fmt = p['fmt']
    out = []

    def build(t):
        return (t[0], [build(b) if isinstance(b, (list, tuple)) else b
                for b in t[1:]])
    for m in range(p['trees'] if p.get('forest') else 0):
        t, words = ctx.pick('tree', p['forest'])
        t, words, key = build(t), words.split(), str(m + 1)
        out.append((key, t, words, treetext(t, words, fmt, key)))
    for m in range(0 if p.get('forest') else p['trees']):
        num = [0]

        def label():
            if p.get('labels'):
                return ctx.pick('label', p['labels'])
            num[0] += 1
            return '%s%s' % ('ABCDE'[m % 5], 'QRTUVWXYZ'[num[0]])

        def pos():
            if p.get('tags'):
                return ctx.pick('tag', p['tags'])
            num[0] += 1
            return 'P%s%s' % ('ABCDE'[m % 5], 'QRTUVWXYZ'[num[0]])
        n = ctx.pick('n', p['sizes'])
        t = tlib.gentree(ctx, n, label, pos, cont=p.get('cont', False),
                unary=p.get('unary', 0))
        t = ('ROOT' if fmt == 'export' else 'S', t[1])
        words = [ctx.pick('w', p['words']) if not p.get('distinct')
                else '%s%d' % ('abcde'[m], i) for i in range(n)]
        key = str(m + 1)
        out.append((key, t, words, treetext(t, words, fmt, key)))
    return out


def paramtext(ctx, corpus, **kw):
    """A parameter file."""
    p = ctx.params
    prm = dict(stages=p['stages'], corpusfmt=p['fmt'], traincorpus=dict(
            dict(path=corpus, maxwords=40, numsents=100),
            **p.get('train', {})),
            testcorpus=dict(dict(path=corpus, maxwords=40, numsents=100,
            skiptrain=False), **p.get('test', {})),
            binarization=p.get('binarization', dict(method='default', h=1)),
            evalparam=ctx.file('eval.prm', 'DEBUG 0\nDELETE_LABEL TOP\n'))
    prm.update({a: b for a, b in p.items() if a in ('punct', 'postagging',
            'transformations')})
    for a, b in kw.items():
        if isinstance(b, dict):
            prm[a] = dict(prm.get(a, {}), **b)
        else:
            prm[a] = b
    return ''.join('%s=%r,\n' % a for a in prm.items())


def run(ctx, text, resultdir, rerun=False):
    runexp, par = ctx.mod('runexp'), ctx.mod('parser')
    prm = par.readparam(ctx.file('exp.prm', text))
    root = logging.getLogger('')
    old = list(root.handlers)
    try:
        return runexp.startexp(prm, resultdir, rerun)
    finally:
        for a in list(root.handlers):
            if a not in old:
                root.removeHandler(a)
                a.close()


EXT = dict(export='export', bracket='mrg', discbracket='dbr')


def results(ctx, resultdir, name):
    fmt = ctx.params['fmt']
    return C35.readoutput(ctx.filetext('%s/%s.%s' % (resultdir, name,
            EXT[fmt])), fmt)


def checkstats(ctx, resultdir, test):
    rows = [a.split('\t') for a in ctx.filetext(resultdir
            + '/stats.tsv').splitlines()]
    stages = [a.get('name') for a in ctx.params['stages']]
    ctx.check(rows[0][:3] == ['sentid', 'len', 'stage'], 'header')
    ctx.check([a[:3] for a in rows[1:]] == [[key, '%d' % len(words), name]
            for key, _, words, _ in test for name in stages],
            'statistics of each sentence and stage')
    ctx.check(all(len(a) == len(rows[0]) for a in rows), 'columns')


def retrain(ctx):
    """After training on a treebank, its sentences are assigned their trees
    by all stages, also when the grammars are read from disk."""
    p = ctx.params
    corpus = treebank(ctx)
    path = ctx.file('corpus', ''.join(a[3] for a in corpus))
    resultdir = ctx.file('results')
    binarization = ctx.pick('binarization', p['binarizations'])
    text = paramtext(ctx, path, binarization=binarization)
    top = run(ctx, text, resultdir)
    ctx.check(top == corpus[0][1][0], 'root label')
    for rerun in (False, True):
        if rerun:
            if not p.get('rerun'):
                break
            for st in p['stages']:
                out = '%s/%s.%s' % (resultdir, st['name'], EXT[p['fmt']])
                ctx.mod('runexp').io.open(out, 'w', encoding='utf8').close()
            run(ctx, text, resultdir, True)
            ctx.reach('rerun')
        for st in p['stages']:
            got = results(ctx, resultdir, st['name'])
            ctx.check(len(got) == len(corpus), 'a tree for each sentence')
            for (key, t, words, _), (ident, sent, found, _) in zip(corpus,
                    got):
                ctx.check(sent == words, 'words')
                if p['fmt'] == 'export':
                    ctx.check(ident == key, 'sentence ID')
                if st['name'] not in p.get('approximate', ()):
                    ctx.check(found == nodes(t, p['fmt']),
                            'the tree in the treebank')
        ctx.check(ctx.filetext('%s/gold.%s' % (resultdir, EXT[p['fmt']]))
                == ''.join(a[3] for a in corpus), 'gold trees verbatim')
        checkstats(ctx, resultdir, corpus)
    ctx.reach('done')
    ctx.observe(len(corpus))


def selection(ctx):
    """Training and test set are the requested parts of the treebank."""
    p = ctx.params
    corpus = treebank(ctx)
    path = ctx.file('corpus', ''.join(a[3] for a in corpus))
    resultdir = ctx.file('results')
    train = {a: ctx.pick(a, p[a]) for a in ('skip', 'numsents', 'maxwords')}
    test = {a: ctx.pick('test' + a, p['test' + a]) for a in ('skip',
            'numsents', 'maxwords')}
    test['skiptrain'] = ctx.flag('skiptrain')
    n = len(corpus)

    def select(skip, num, maxwords):
        return [a for a in corpus[skip:skip + num] if len(a[2]) <= maxwords]
    num = train['numsents']
    if isinstance(num, float):
        num = int(num * n)
    seen = select(train['skip'], num, train['maxwords'])
    tnum, tskip = test['numsents'], test['skip']
    if isinstance(tnum, float):
        tnum = int(tnum * n)
    if test['skiptrain']:
        tskip += train['skip'] + num
    unseen = select(tskip, tnum, test['maxwords'])
    try:
        run(ctx, paramtext(ctx, path, traincorpus=train, testcorpus=test),
                resultdir)
    except ValueError as err:
        ctx.check(not seen or not unseen, 'refused: %s' % err)
        ctx.reach('empty')
        ctx.observe(0)
        return
    ctx.check(bool(seen and unseen), 'empty selection should be refused')
    name = p['stages'][0]['name']
    lex = [a.split('\t')[0] for a in ctx.filetext('%s/%s.lex.gz' % (
            resultdir, name)).splitlines()]
    ctx.check(sorted(lex) == sorted({w for a in seen for w in a[2]}),
            'words in training set')
    got = results(ctx, resultdir, name)
    ctx.check([a[1] for a in got] == [a[2] for a in unseen], 'test set')
    ctx.check(ctx.filetext('%s/gold.%s' % (resultdir, EXT[p['fmt']]))
            == ''.join(a[3] for a in unseen), 'gold trees verbatim')
    checkstats(ctx, resultdir, unseen)
    for (key, t, words, _), (ident, _, found, _) in zip(unseen, got):
        if p['fmt'] == 'export':
            ctx.check(ident == key, 'sentence ID')
        if any(key == a[0] for a in seen):
            ctx.check(found == nodes(t, p['fmt']), 'the tree in the treebank')
            ctx.reach('seen')
        else:
            ctx.reach('unseen')
    ctx.observe(len(seen), len(unseen))


def readgrammar(ctx, resultdir, name):
    """Grammar as written to disk, with relative frequencies."""
    rules, lexicon, counts = [], [], []
    for line in ctx.filetext('%s/%s.rules.gz' % (resultdir, name)
            ).splitlines():
        *r, yf, w = line.split('\t')
        rules.append((tuple(r), tuple(tuple(int(b) for b in a)
                for a in yf.split(','))))
        counts.append(int(w))
    for line in ctx.filetext('%s/%s.lex.gz' % (resultdir, name)
            ).splitlines():
        word, *tags = line.split('\t')
        for a in tags:
            tag, w = a.split(' ')
            lexicon.append((tag, word))
            counts.append(int(w))
    lhs = [r[0] for r, _ in rules] + [a for a, _ in lexicon]
    prob = [a / float(sum(b for b, y in zip(counts, lhs) if x == y))
            for a, x in zip(counts, lhs)]
    return prob, Gram(ctx, rules, lexicon, start='S', fixed=[
            ctx.neglog(a) for a in prob])


def best(ctx):
    """The sentences are assigned the most probable tree of the grammar that
    was written, also when the grammar is read from disk again."""
    p = ctx.params
    corpus = treebank(ctx)
    path = ctx.file('corpus', ''.join(a[3] for a in corpus))
    resultdir = ctx.file('results')
    text = paramtext(ctx, path)
    run(ctx, text, resultdir)
    name = p['stages'][-1]['name']
    files = [ctx.filetext('%s/%s.%s' % (resultdir, a['name'],
            EXT[p['fmt']])) for a in p['stages']]
    checkstats(ctx, resultdir, corpus)
    if not p['stages'][-1].get('dop'):
        prob, gr = readgrammar(ctx, resultdir, name)
        stats = [a.split('\t') for a in ctx.filetext(resultdir
                + '/stats.tsv').splitlines()]
        logprob = {a[0]: a[4] for a in stats if a[2] == name}
        for (key, t, words, _), (_, sent, found, _) in zip(corpus,
                results(ctx, resultdir, name)):
            ctx.check(sent == words, 'words')
            totals = C35.reference(gr, prob, words,
                    [a[1] for a in sorted((a[1][0], a[0])
                    for a in tlib.preterminals(t))])
            totals = {a: b for a, b in totals.items() if b}
            if not totals:
                ctx.reach('noparse')
                continue
            top = max(totals.values())
            ctx.check(any(str(C35.nodesof(k[0])) == str(found)
                    and v > top * (1 - 1e-9) for k, v in totals.items()),
                    'a most probable tree')
            ctx.check(abs(float(logprob[key]) - math.log(top)) < 1e-9,
                    'its probability')
            ctx.reach('several' if len(totals) > 1 else 'single')
    run(ctx, text, resultdir, True)
    again = [ctx.filetext('%s/%s.%s' % (resultdir, a['name'],
            EXT[p['fmt']])) for a in p['stages']]
    ctx.check(again == files, 'same trees with grammars read from disk')
    ctx.reach('done')
    ctx.observe(len(corpus))


def augment(ctx):
    """Adding trees to the grammars of an experiment gives the same result as
    training on all trees."""
    p = ctx.params
    corpus = treebank(ctx)
    k = ctx.pick('split', p['splits'])
    resultdir, total = ctx.file('results'), ctx.file('total')
    some = ctx.file('some', ''.join(a[3] for a in corpus[:k]))
    path = ctx.file('corpus', ''.join(a[3] for a in corpus))
    text = paramtext(ctx, path)
    run(ctx, text, total)
    text = paramtext(ctx, some)
    top = run(ctx, text, resultdir)
    par, tree = ctx.mod('parser'), ctx.mod('tree')
    trans = ctx.mod('treetransforms')
    prm = par.readparam(ctx.file('exp.prm', text))
    prm.resultdir = resultdir
    par.readgrammars(resultdir, prm.stages, prm.postagging, top=top)
    parser = par.Parser(prm)
    obj = ctx.mod('_fragments').getctrees([(trans.binarize(tlib.totree(
            tree.ParentedTree, a[1]), horzmarkov=1), a[2])
            for a in corpus[:k]])
    parser.ctrees, parser.vocab, parser.cnt = obj['trees1'], obj['vocab'], 0
    chunks = [corpus[k:]] if not ctx.flag('separate') else [
            [a] for a in corpus[k:]]
    for chunk in chunks:
        trees = [tlib.totree(tree.ParentedTree, a[1]) for a in chunk]
        before = [str(a) for a in trees]
        parser.augmentgrammar(trees, [list(a[2]) for a in chunk])
        ctx.check([str(a) for a in trees] == before, 'trees are not modified')
    for st in p['stages']:
        prob, gr = readgrammar(ctx, total, st['name'])
        got = next(a for a in prm.stages if a.name == st['name']).grammar
        ctx.check(got.numrules == len(gr.rules), 'number of rules')
    prob, gr = readgrammar(ctx, total, p['stages'][-1]['name'])
    for _, t, words, _ in corpus:
        res = list(parser.parse(list(words)))[-1]
        totals = C35.reference(gr, prob, words, None)
        totals = {a: b for a, b in totals.items() if b}
        ctx.check(not res.noparse, 'success')
        high = max(totals.values())
        ctx.check(abs(math.log(res.prob) - math.log(high)) < 1e-9,
                'its probability')
        found = C35.readtree(res.parsetree)
        ctx.check(any(found == a[0] and b > high * (1 - 1e-9)
                for a, b in totals.items()), 'a most probable tree')
        ctx.reach('several' if len(totals) > 1 else 'single')
    ctx.reach('done')
    ctx.observe(len(corpus))


NOSTEPS = dict(method=None)
PLCFRS = [dict(name='plcfrs', mode='plcfrs')]
PCFG = [dict(name='pcfg', mode='pcfg')]
CTF = [dict(name='pcfg', mode='pcfg', split=True, markorigin=True),
        dict(name='plcfrs', mode='plcfrs', prune='pcfg', k=50)]
DOP = CTF + [dict(name='dop', mode='plcfrs', prune='plcfrs', k=50,
        dop='reduction', objective='mpp', estimator='rfe')]
DOUBLE = CTF[:1] + [dict(name='dop', mode='plcfrs', prune='pcfg', k=50,
        dop='doubledop', objective='mpp', estimator='rfe')]
def conf(*args, **kw):
    return dict(dict(zip(('fmt', 'sizes', 'unary', 'stages',
            'binarizations'), args), trees=1, words=['a', 'b'], rerun=1), **kw)


def two(stages, **kw):
    return dict(dict(fmt='discbracket', trees=2, sizes=[3], words=['a'],
            labels=['A'], tags=['B', 'C'], stages=stages), **kw)


COLLAPSE = [dict(name='coarse', mode='plcfrs', collapse=('ptb', 0)),
        dict(name='fine', mode='plcfrs', prune='coarse', k=1,
            collapse=('ptb', 1)),
        dict(name='finest', mode='plcfrs', prune='fine', k=1)]
FOREST = [
        (['S', ['NP', ['N', 0], ['V', 1]], ['VP', ['V', 2]]], 'a b c'),
        (['S', ['PP', ['N', 0], ['N', 1]], ['ADVP', ['R', 2]]], 'a b d'),
        (['S', ['NP', ['N', 0], ['V', 1]], ['VP', ['R', 2]]], 'a b d'),
        (['S', ['VP', ['N', 0], ['V', 2]], ['ADVP', ['V', 1]]], 'a b c')]
REDUCTION = [dict(name='dop', mode='plcfrs', dop='reduction',
        objective='mpp')]
PCFGDOP = PCFG + [dict(name='dop', mode='pcfg', prune='pcfg', k=50,
        dop='doubledop', objective='mpp')]
DOP1 = CTF[:1] + [dict(name='dop', mode='plcfrs', prune='pcfg', k=50,
        dop='dop1', maxdepth=3, objective='mpd', estimator='ewe')]
SLDOP = CTF + [dict(name='dop', mode='plcfrs', prune='plcfrs', k=50,
        dop='reduction', objective='sl-dop', estimator='rfe')]
SHORTEST = CTF + [dict(name='dop', mode='plcfrs', prune='plcfrs', k=50,
        dop='doubledop', objective='shortest')]
DOPDOP = DOUBLE + [dict(name='dop2', mode='plcfrs', prune='dop', k=50,
        dop='doubledop', objective='mpp')]
DOPRED = DOUBLE + [dict(name='dop2', mode='plcfrs', prune='dop', k=50,
        dop='reduction', objective='mpp')]
REDRED = DOP + [dict(name='dop2', mode='plcfrs', prune='dop', k=50,
        dop='reduction', objective='mpp')]
PACKED = CTF + [dict(name='dop', mode='plcfrs', prune='plcfrs', k=50,
        dop='reduction', packedgraph=True, objective='mpp')]
UNSEEN = [two(st, **dict(dict(train=dict(numsents=1), words=['a', 'b'],
            tags=['B']), **kw))
            for st, kw in ((COLLAPSE, dict(trees=3, train=dict(numsents=2),
                forest=FOREST)), (CTF, dict(words=['a'])),
                (DOUBLE, dict(words=['a'])), (DOPRED, dict(words=['a'])))]
HARNESSES = {
    'retrain': dict(fn=retrain, reach=['done', 'rerun'],
        steps=10 ** 6, params=dict(
        quick=[conf('discbracket', [2, 3], 1, PLCFRS, [dict(h=1),
                dict(h=2, v=2), dict(h=1, factor='left', markhead=True)]),
            conf('export', [2, 3], 1, CTF, [dict(h=1), dict(h=0, v=2)]),
            conf('export', [3], 0, DOP, [dict(h=1)]),
            conf('discbracket', [3], 0, DOUBLE, [dict(h=1)]),
            conf('discbracket', [4], 0, CTF, [dict(method='optimal'),
                dict(h=1)]),
            conf('bracket', [2, 3], 1, PCFG, [dict(h=1), dict(h=1, revh=1)],
                cont=1, words=['a', '(']),
            conf('bracket', [3], 1, PCFGDOP, [dict(h=1)], cont=1,
                words=['a', '(']),
            conf('discbracket', [3], 1, DOP1, [dict(h=1)]),
            conf('export', [3], 0, SLDOP, [dict(h=1)]),
            conf('export', [3], 0, SHORTEST, [dict(h=1)]),
            conf('discbracket', [3], 0, PACKED, [dict(h=1)]),
            conf('discbracket', [3], 0, DOPDOP, [dict(h=1)]),
            conf('discbracket', [3], 0, DOPRED, [dict(h=1)]),
            conf('discbracket', [3], 0, REDRED, [dict(h=1)]),
            conf('discbracket', [4], 0, PLCFRS, [dict(h=1, v=2),
                dict(h=1, fanout_marks_before_bin=True),
                dict(h=1, rightmostunary=True, leftmostunary=True)]),
            ])),
    'best': dict(fn=best, reach=['done'], steps=10 ** 6, params=dict(
        quick=[two(PLCFRS), two(CTF)] + [two(st, tags=['B']) for st in (
                REDUCTION, DOP, DOUBLE, SLDOP, SHORTEST, DOPDOP, DOPRED,
                PACKED, DOP1)] + UNSEEN + [
            two(PCFGDOP, cont=1, fmt='bracket', tags=['B'])],
        thorough=[two(st) for st in (PLCFRS, CTF, REDUCTION, DOP, DOUBLE,
                SLDOP, SHORTEST, DOPDOP, DOPRED, PACKED, DOP1)] + UNSEEN + [
            two(PCFGDOP, cont=1, fmt='bracket'), two(REDRED, tags=['B'])] + [
            two(st, sizes=[4], tags=['B']) for st in (PLCFRS, CTF, DOUBLE)]
        )),
    'augment': dict(fn=augment, reach=['done', 'several'], steps=10 ** 6,
        params=dict(quick=[
            two(PLCFRS, splits=[1], trees=2, labels=['A', 'B'], tags=['B']),
            two(CTF, splits=[1, 2], trees=3, forest=FOREST)])),
    'selection': dict(fn=selection, reach=['empty', 'seen', 'unseen'],
        params=dict(quick=[dict(fmt='discbracket', trees=3, sizes=[2],
            distinct=1, cont=True, stages=PCFG, skip=[0, 1], numsents=[1, 2],
            maxwords=[40], testskip=[0, 1], testnumsents=[1, 2],
            testmaxwords=[40]),
            dict(fmt='export', trees=3, sizes=[2, 3], distinct=1, cont=True,
            stages=PCFG, skip=[0], numsents=[1, 0.7], maxwords=[2, 3],
            testskip=[0], testnumsents=[3, 0.4], testmaxwords=[2])])),
}
