"""Command-line tools do what their options say, to every tree, in order."""
import tlib
import C35
import C38
NEEDS = C35.NEEDS
OUTSIDE = ('Standard input and output as corpus, the commands runexp, eval, '
        'fragments, parser, treesearch, gen (see the properties of those '
        'modules), grammar param, usage messages, other sizes than stated.')
HEADRULES = 'A RIGHT-TO-LEFT B\nB LEFT-TO-RIGHT A C\n'
FLAGS = ('--markorigin --leftunary --rightunary --tailmarker --markhead --dot '
        '--direction').split()


def setup(universe, instrument):
    """Characters are graphemes; grammars are not loaded again after they
    have been written."""
    C38.setup(universe, instrument)

    class Grammar(object):
        def __init__(self, *args, **kwargs):
            pass

        def testgrammar(self):
            return True, 'not tested'
    universe.get('containers').Grammar = Grammar


def fill(ctx, p, shape):
    """Tree with given structure and any labels."""
    if not isinstance(shape, (list, tuple)):
        return shape
    return (ctx.string('l', p['labels'], 1, p.get('ll', 1)),
            [fill(ctx, p, a) for a in shape])


def corpus(ctx, p, fmt):
    """Treebank file, with keys and comments where the format has them."""
    tree, tb = ctx.mod('tree'), ctx.mod('treebank')
    ctx.file('corpus')
    text = ''
    for k in range(ctx.pick('trees', p.get('trees', [2]))):
        shape = ctx.pick('shape', p['shapes'])
        t = fill(ctx, p, shape)
        if p.get('root'):
            t = (p['root'], t[1])
        sent = [ctx.string('w', p['words'], 1, 1)
                for _ in tlib.leaves(t)]
        text = text + tb.writetree(tlib.totree(tree.ParentedTree, t), sent,
                's%d' % (k * 3 + 1), fmt, comment=None if k else 'first')
    return ctx.file('corpus/in', text)


def call(ctx, cmd, args):
    """Run command."""
    cli = ctx.mod('cli')
    cli.argv = ['discodop', cmd] + list(args)
    getattr(cli, cmd)()


def headrules(ctx, args):
    """Substitute name of file with head rules."""
    ctx.file('rules')
    path = ctx.file('rules/heads', HEADRULES)
    return [a.replace('HEADRULES', path) for a in args]


def options(args):
    """The options as a dictionary; last one wins."""
    opts = {}
    args = list(args)
    while args:
        a = args.pop(0)
        if a in ('-h', '-v', '-H', '-n', '-s'):
            opts[a] = args.pop(0)
        elif '=' in a:
            key, val = a.split('=', 1)
            opts[key] = val
        else:
            opts[a] = ''
    return opts


def items(ctx, path, opts):
    """The trees that are selected."""
    tb = ctx.mod('treebank')
    r = tb.READERS[opts.get('--inputfmt', opts.get('--fmt', 'export'))](
            path, encoding=opts.get('--inputenc', opts.get('--enc', 'utf8')),
            headrules=opts.get('--headrules'),
            ensureroot=opts.get('--ensureroot'),
            removeempty='--removeempty' in opts, punct=opts.get('--punct'),
            functions=opts.get('--functions'),
            morphology=opts.get('--morphology'), lemmas=opts.get('--lemmas'))
    got = [(k, a.tree, a.sent, a.comment) for k, a in r.itertrees()]
    a, b = opts.get('--slice', ':').split(':')
    got = got[int(a) if a else None:int(b) if b else None]
    if '--maxlen' in opts:
        got = [x for x in got if len(x[2]) <= int(opts['--maxlen'])]
    if '--renumber' in opts:
        got = [('%8d' % n, ) + x[1:] for n, x in enumerate(got, 1)]
    return got


def transform(ctx, name, tree, sent, opts):
    """Result of a transformation."""
    tt, mod = ctx.mod('treetransforms'), ctx.mod('tree')
    h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
    if name == '--binarize':
        return tt.binarize(tree, factor=opts.get('--factor', 'right'),
                horzmarkov=h, vertmarkov=v,
                revhorzmarkov=int(opts.get('-H', 0)),
                leftmostunary='--leftunary' in opts,
                rightmostunary='--rightunary' in opts,
                tailmarker='$' if '--tailmarker' in opts else '',
                direction='--direction' in opts,
                headoutward='--headrules' in opts,
                markhead='--markhead' in opts, dot='--dot' in opts,
                filterlabels=tuple(opts.get('--filterlabels', '').split()),
                labelfun=(lambda n: n.label[:1]) if '--labelfun' in opts
                else None), sent
    elif name == '--optimalbinarize':
        return mod.ParentedTree.convert(tt.optimalbinarize(tree, '|',
                '--headrules' in opts, h, v)), sent
    elif name == '--unbinarize':
        return tt.unbinarize(tree, sent), sent
    elif name == '--introducepreterminals':
        return tt.introducepreterminals(tree, sent), sent
    elif name == '--splitdisc':
        return tt.splitdiscnodes(tree, '--markorigin' in opts), sent
    elif name == '--mergedisc':
        return tt.mergediscnodes(tree), sent
    elif name == '--raisedisc':
        return tt.raisediscnodes(tree), sent
    elif name == '--canonical':
        return tt.canonicallyorderedtree(tree, sent), sent
    tbt = ctx.mod('treebanktransforms')
    kind, names = name.split('=')
    names = tbt.expandpresets(names.split(','))
    if kind == '--transforms':
        return tbt.transform(tree, sent, names), sent
    return tbt.reversetransform(tree, sent, names), sent


def output(ctx, selected, opts):
    tb, tt = ctx.mod('treebank'), ctx.mod('treetransforms')
    fmt = opts.get('--outputfmt', opts.get('--fmt', 'export'))
    want = tb.EXPORTHEADER if fmt == 'export' else ''
    for key, tree, sent, comment in selected:
        if fmt == 'bracket':
            tt.canonicalize(tree)
        want = want + tb.writetree(tree, sent, key, fmt, comment=comment,
                sentid='--sentid' in opts)
    return want


def transforms(ctx):
    """treetransforms applies the transformations in the order of the command
    line to each tree that is selected, with the given options."""
    p = ctx.params
    tt = ctx.mod('treetransforms')
    fmt = ctx.pick('fmt', p.get('fmts', ['discbracket']))
    path = corpus(ctx, p, fmt)
    acts = ctx.pick('actions', p['actions'])
    extra = headrules(ctx, ctx.pick('options', p['options']))
    args = ['--inputfmt=' + fmt, '--outputfmt=' + ctx.pick('outfmt',
            p.get('outfmts', ['discbracket']))]
    opts = options(args + extra)
    selected = items(ctx, path, opts)
    for n, (key, tree, sent, comment) in enumerate(selected):
        for a in acts:
            tree, sent = transform(ctx, a, tree, sent, opts)
        selected[n] = key, tree, sent, comment
    if '--markovthreshold' in opts:
        v = int(opts.get('-v', 1))
        tt.markovthreshold([a[1] for a in selected],
                int(opts['--markovthreshold']),
                int(opts.get('-H', 0)) + int(opts.get('-h', 999)) - 1,
                v - 1 if v > 1 else 1)
    want = output(ctx, selected, opts)
    out = ctx.file('corpus/out')
    if ctx.flag('last'):
        args = args + list(acts) + extra
    else:
        args = extra + list(acts) + args
    call(ctx, 'treetransforms', [path, out] + args)
    got = ctx.filetext(out)
    ctx.check(got == want, 'output')
    ctx.reach('ok')
    ctx.observe(got)


def formats(ctx):
    """Conversion between formats and selection of trees."""
    p = ctx.params
    tb = ctx.mod('treebank')
    fmt = ctx.pick('fmt', p['fmts'])
    path = corpus(ctx, p, fmt)
    if fmt == 'bracket' and ctx.flag('spaces'):  # superfluous whitespace
        path = ctx.file('corpus/in',
                ctx.filetext(path).replace('\n', ' \n').replace('(', ' ('))
    outfmt = ctx.pick('outfmt', p['outfmts'])
    extra = headrules(ctx, ctx.pick('options', p['options']))
    short = fmt == outfmt and ctx.flag('short')
    if short:
        args = ['--fmt=' + fmt]
    else:
        args = ['--inputfmt=' + fmt, '--outputfmt=' + outfmt]
        if fmt == 'export' and ctx.flag('default'):
            args = args[1:]
    args = extra + args
    opts = options(args)
    out = ctx.file('corpus/out')
    selected = items(ctx, path, opts)
    if outfmt in ('conll', 'mst') and '--headrules' not in opts:
        try:
            call(ctx, 'treetransforms', [path, out] + args)
        except ValueError:
            ctx.reach('ok')
            return
        ctx.fail('dependency conversion without head rules')
    call(ctx, 'treetransforms', [path, out] + args)
    got = ctx.filetext(out)
    if (fmt == outfmt and '--inputfmt' in opts
            and not set(opts) - {'--slice', '--inputfmt', '--outputfmt'}):
        # only a selection: the original text
        blocks = list(tb.READERS[fmt](path).blocks().values())
        a, b = opts.get('--slice', ':').split(':')
        want = tlib.cat([''] + blocks[int(a) if a else None:
                int(b) if b else None])
    else:
        want = output(ctx, selected, opts)
    ctx.check(got == want, 'output')
    ctx.reach('ok')
    ctx.observe(got)


def encodings(ctx):
    """The input is read and the output is written in the given encoding."""
    p = ctx.params
    ctx.file('corpus')
    enc = ctx.pick('enc', ['utf8', 'iso-8859-1', None])
    outenc = ctx.pick('outenc', ['utf8', 'iso-8859-1', None])
    text = ctx.pick('text', ['(S (A é) (B ñ))\n(S (A a) (B ü))\n',
        '(S (A é))\n'])
    path = ctx.file('corpus/in', text, encoding=enc or 'utf8')
    out = ctx.file('corpus/out')
    how = ctx.pick('how', ['verbatim', 'convert', 'shortcut'])
    args = ['--inputfmt=bracket', '--outputfmt=bracket']
    if how == 'convert':
        args = args[:1] + ['--outputfmt=tokens']
    if how == 'shortcut':
        ctx.assume(enc == outenc and enc is not None)
        args = ['--enc=' + enc, '--fmt=bracket']
    else:
        if enc:
            args.append('--inputenc=' + enc)
        if outenc:
            args.insert(0, '--outputenc=' + outenc)
    call(ctx, 'treetransforms', [path, out] + args)
    want = text
    if how == 'convert':
        want = ''.join(' '.join(a.rstrip(')') for a in line.split()
                if a[-1] == ')') + '\n' for line in text.splitlines())
    got = ctx.filetext(out, encoding=outenc or 'utf8')
    ctx.check(got == want, 'text in output encoding')
    ctx.reach(how)
    ctx.observe(len(got))


def reading(ctx):
    """Options for reading trees."""
    p = ctx.params
    ctx.file('corpus')
    w = [ctx.string('w', p['words'], 1, 1) for _ in range(3)]
    text = ('%% a file\n#BOS 1\n' + w[0] + '\tl0\tA\tm0\tF0\t500\n'
            + w[1] + '\t--\t' + ctx.pick('tag', ['B', '$.', '-NONE-'])
            + '\tm1\t--\t0\n' + w[2] + '\tl2\tB\t--\tF2\t500\n'
            '#500\t--\t' + ctx.string('l', p['labels'], 1, 1)
            + '\t--\tF5\t0\n#EOS 1\n')
    path = ctx.file('corpus/in', text)
    out = ctx.file('corpus/out')
    args = headrules(ctx, ctx.pick('options', p['options']))
    opts = options(args)
    want = output(ctx, items(ctx, path, opts), opts)
    call(ctx, 'treetransforms', [path, out] + args)
    got = ctx.filetext(out)
    ctx.check(got == want, 'output')
    ctx.reach('ok')
    ctx.observe(got)


def draw(ctx):
    """treedraw shows each tree, up to the given number, with its identifier
    and comment."""
    p = ctx.params
    tree, tb = ctx.mod('tree'), ctx.mod('treebank')
    fmt = ctx.pick('fmt', p['fmts'])
    path = corpus(ctx, p, fmt)
    auto = ctx.flag('auto')
    extra = ctx.pick('options', p['options'])
    opts = options(extra)
    paths = [path] * (1 if auto else 1 + ctx.choice('paths', p.get('paths',
            1)))
    args = paths + ['--fmt=' + ('auto' if auto else fmt)] + list(extra)
    got = ctx.stdout(lambda: call(ctx, 'treedraw', args))
    kind = opts.get('--output', 'text')
    funs = opts.get('--functions', 'add' if '-f' in opts else None)
    morph = opts.get('--morphology', 'add' if '-m' in opts else None)
    r = tb.READERS[fmt](path, functions=funs, morphology=morph)
    funcsep = '-' if funs in ('add', 'between') else None
    plain = '--plain' in opts
    limit = opts.get('-n', opts.get('--numtrees'))
    heads = tree.DrawTree.templates.get(
            'latex' if kind.startswith('tikz') else kind, ('', ''))
    want = heads[0] + '\n' if heads[0] else ''
    for n, (key, item) in enumerate(r.itertrees(), 1):
        if limit is not None and n > int(limit):
            break
        comment = item.comment or ''
        if auto:
            key = n
            comment = None
        for _ in paths:
            if len(paths) > 1:
                want = want + path + ':'
            want = want + str(key) + '. '
            if '--frontier' in opts:
                fr = [item.sent[i] or a for i, a in sorted(item.tree.pos(),
                        key=lambda x: x[0])]
                if not plain:
                    fr = ['\x1b[31;1m' + a + '\x1b[0m' for a in fr]
                want = want + tlib.join(' ', fr) + ' '
                shown = ''
            else:
                d = tree.DrawTree(item.tree, item.sent,
                        abbr='--abbr' in opts)
                if kind in ('text', 'html'):
                    shown = d.text(unicodelines=True, funcsep=funcsep,
                            ansi=kind == 'text' and not plain,
                            html=kind == 'html' and not plain)
                elif kind == 'svg':
                    shown = d.svg(funcsep=funcsep)
                elif kind == 'tikzqtree':
                    shown = d.tikzqtree() + '\n'
                else:
                    shown = getattr(d, kind)(funcsep=funcsep) + '\n'
                shown = shown + '\n'
            if comment is None:
                ctx.check(got.startswith(want), 'output so far')
                rest = got[len(want):]
                i = rest.find('\n')
                ctx.check(i >= 0 and rest[:i].strip()
                        == (item.comment or ''), 'comment')
                want = want + rest[:i]
            else:
                want = want + comment
            want = want + '\n' + shown
    if heads[1]:
        want = want + heads[1] + '\n'
    ctx.check(got == want, 'output')
    ctx.reach('ok')
    ctx.observe(len(got.split('\n')))


def grammars(ctx):
    """grammar writes the grammar of the treebank that was asked for."""
    p = ctx.params
    tt, tb, gr = ctx.mod('treetransforms'), ctx.mod('treebank'), ctx.mod(
            'grammar')
    fmt = ctx.pick('fmt', p['fmts'])
    path = corpus(ctx, p, fmt)
    model = ctx.pick('model', p['models'])
    extra = ctx.pick('options', p['options'])
    opts = options(extra)
    out = ctx.file('grammar')
    args = [model, path, out, '--inputfmt=' + fmt] + list(extra)
    ctx.stdout(lambda: call(ctx, 'grammar', args))
    r = tb.READERS[fmt](path)
    trees, sents = list(r.trees().values()), list(r.sents().values())
    for a in trees:
        tt.canonicalize(a)
        tt.addfanoutmarkers(a)
    alt, back = {}, None
    if model in ('pcfg', 'plcfrs'):
        g = gr.treebankgrammar(trees, sents)
    elif model == 'dopreduction':
        g, alt = gr.dopreduction(trees, sents, packedgraph='--packed' in opts)
    elif model == 'doubledop':
        g, back, alt, _ = gr.doubledop(trees, sents, numproc=1)
    else:
        g, back, alt, _ = gr.dop1(trees, sents,
                maxdepth=int(opts.get('--maxdepth', 3)),
                maxfrontier=int(opts.get('--maxfrontier', 999)))
    est = opts.get('--dopestimator', 'rfe')
    if est != 'rfe':
        g = [(rule, alt[est][n]) for n, (rule, _) in enumerate(g)]
    written(ctx, out, g, model == 'pcfg' or fmt == 'bracket', back, opts)
    ctx.reach('ok')
    ctx.observe(len(g))


def written(ctx, out, g, bitpar, back, opts):
    gz = '.gz' if '--gzip' in opts else ''
    rules, lex = ctx.mod('grammar').writegrammar(g, bitpar=bitpar)
    ctx.check(ctx.filetext(out + '.rules' + gz) == rules, 'rules')
    ctx.check(ctx.filetext(out + '.lex' + gz) == lex, 'lexicon')
    if back is not None:
        ctx.check(ctx.filetext(out + '.backtransform' + gz)
                == tlib.cat([''] + [a + '\n' for a in back]),
                'backtransform')


def estimators(ctx):
    """Unknown kinds of grammars and estimators are refused."""
    p = ctx.params
    path = corpus(ctx, p, 'bracket')
    out = ctx.file('grammar')
    model, est = ctx.pick('args', [('dopreduction', 'foo'), ('dop1', ''),
            ('foo', 'rfe')])
    try:
        ctx.stdout(lambda: call(ctx, 'grammar', [model, path, out,
                '--inputfmt=bracket', '--dopestimator=' + est]))
    except ValueError:
        ctx.reach('ok')
        return
    ctx.fail('accepted')


def fragments(ctx):
    """grammar ptsg: grammar from weighted fragments."""
    p = ctx.params
    gr, tree, tb = ctx.mod('grammar'), ctx.mod('tree'), ctx.mod('treebank')
    disc = ctx.flag('disc')
    frags, text = ctx.dict(), ''
    keys = []
    for n in range(p['n']):
        sent = [ctx.string('w', p['words'], 1, 1), None]
        t = ('S', fill(ctx, p, [[[0]], [1]] if ctx.flag('deep')
                else [[0], [1]])[1])
        line = tb.writetree(tlib.totree(tree.ParentedTree, t), sent, '1',
                'discbracket').rstrip('\n')
        ctx.assume(ctx.And(*[a != line for a in keys]))
        keys.append(line)
        w, num = ctx.pick('w', [('1', 1), ('1/4', 0.25), ('0.5', .5)])
        frags[line] = num
        text = text + (line if disc else tb.writetree(tlib.totree(
            tree.ParentedTree, t), sent, '1', 'bracket').rstrip('\n')
            ) + '\t' + w + '\n'
    for lab in p['labels']:
        keys.append('(' + lab + ' 0=z)')
        frags[keys[-1]] = 1
        text = text + (keys[-1] if disc else '(' + lab + ' z)') + '\t1\n'
    ctx.file('corpus')
    path = ctx.file('corpus/in', text)
    out = ctx.file('grammar')
    ctx.stdout(lambda: call(ctx, 'grammar', ['ptsg', path, out]))
    g, back, _ = gr.compiletsg(frags)
    written(ctx, out, g, not disc, back, {})
    ctx.reach('ok')
    ctx.observe(len(g))


def merging(ctx):
    """grammar merge: the weight of each rule, word with tag, or fragment is
    the average of its weights in the input."""
    p = ctx.params
    fmt = ctx.pick('fmt', p['fmts'])
    what = ctx.pick('what', ['rules', 'lexicon'])
    suffix = dict(rules='.rules', lexicon='.lex')[what]
    want, ins = [], []
    for n in range(2):
        path = corpus(ctx, p, fmt)
        out = ctx.file('grammar%d' % n)
        ctx.stdout(lambda: call(ctx, 'grammar', ['plcfrs', path, out,
                '--inputfmt=' + fmt]))
        ins.append(out + suffix)
        for key, w in entries(ctx, ctx.filetext(ins[-1]), what, fmt):
            for a in want:
                if bool(a[0] == key):
                    a[1] += w
                    break
            else:
                want.append([key, w])
    out = ctx.file('merged')
    call(ctx, 'grammar', ['merge', what] + ins + [out])
    got = entries(ctx, ctx.filetext(out), what, fmt)
    ctx.check(len(got) == len(want), 'each entry once')
    for key, w in got:
        ctx.check(ctx.Or(*[key == a for a, b in want if b == 2 * w]),
                'average of weights')
    ctx.reach(what)
    ctx.observe(len(got))


def entries(ctx, text, what, fmt):
    """Rules or words with tags, and their weights."""
    out = []
    for line in text.split('\n')[:-1]:
        parts = line.split('\t')
        if what == 'lexicon':
            for a in parts[1:]:
                tag, w = a.split(' ')
                out.append((parts[0] + ' ' + tag, float(w)))
        else:
            k = 0 if fmt == 'bracket' else len(parts) - 1
            out.append((tlib.join(' ', parts[:k] + parts[k + 1:]),
                    float(parts[k])))
    return out


BIN = ['--binarize']
SHAPES = [[[0], [[1], [2]]], [[0], [1], [2], [3]],
        [[0], [[1], [3]], [2]]]
HARNESSES = {
    'binarize': dict(fn=transforms, reach=['ok'], params=dict(
        quick=[dict(actions=[BIN], labels='AB', words='a', trees=[1],
            shapes=[[[0], [1], [2], [[3]]]], options=[[], ['-h', '1'],
            ['-h', '2', '-v', '2'], ['--factor=left'], ['-h', '1', '-H', '1'],
            ['--leftunary'], ['--rightunary', '--tailmarker'], ['--dot'],
            ['--headrules=HEADRULES'], ['--headrules=HEADRULES',
                '--direction'],
            ['--headrules=HEADRULES', '--markhead', '-h', '0'],
            ['--labelfun=lambda n: n.label[:1]'], ['--filterlabels=A'],
            ['--markovthreshold=2', '-h', '2'],
            ['--markovthreshold=2', '-h', '2', '-v', '3', '-H', '1']],
            )])),
    'transforms': dict(fn=transforms, reach=['ok'], params=dict(
        quick=[dict(actions=[[], ['--introducepreterminals'],
            ['--introducepreterminals', '--binarize'],
            ['--binarize', '--introducepreterminals'],
            ['--splitdisc'], ['--splitdisc', '--mergedisc'],
            ['--mergedisc', '--splitdisc'], ['--binarize', '--unbinarize'],
            ['--unbinarize'], ['--canonical'], ['--canonical', '--binarize'],
            ['--optimalbinarize'], ['--optimalbinarize', '--unbinarize']],
            labels='A', words='ab', trees=[1],
            shapes=[[[0], [[1], [3]], [2]]],
            options=[[], ['--markorigin', '-h', '1']],
            outfmts=['discbracket', 'export']),
            dict(actions=[['--introducepreterminals'],
                ['--introducepreterminals', '--binarize',],
                ['--introducepreterminals', '--splitdisc']],
                labels='A', words='ab', trees=[1], shapes=[[[0], 1, [2]]],
                options=[[]], fmts=['bracket']),
            dict(actions=[['--transforms=FUNC-NODE,PARENT'],
                ['--transforms=FUNC-NODE', '--reversetransforms=FUNC-NODE'],
                ['--binarize', '--transforms=FANOUT'],
                ['--transforms=negra'], ['--transforms=FANOUT,MORPH-NODE',
                '--binarize', '--unbinarize',
                '--reversetransforms=FANOUT,MORPH-NODE']],
                labels='A', words='ab', trees=[1],
                shapes=[[[0], [[1], [3]], [2]]], options=[[]],
                fmts=['export']),
            dict(actions=[['--raisedisc'], ['--optimalbinarize'],
                ['--binarize', '--splitdisc'], ['--splitdisc', '--binarize']],
                labels='AB', words='a', trees=[1],
                shapes=[[[0], [[1], [3]], [2]]],
                options=[['--headrules=HEADRULES']]),
            dict(actions=[['--canonical']], labels='A', words='a', trees=[2],
                shapes=[[[0], [1]], [[[0], [2]], [1]]],
                options=[['--slice=1:'], ['--slice=-1:'], ['--maxlen=2'],
                    ['--renumber']], outfmts=['bracket', 'export'])])),
    'formats': dict(fn=formats, reach=['ok'], params=dict(
        quick=[dict(fmts=['export', 'discbracket', 'bracket'],
            labels='A', words='ab', trees=[1], shapes=[[[0], [[1], [2]]]],
            outfmts=['export', 'bracket', 'discbracket', 'tokens', 'wordpos',
                'conll', 'mst'],
            options=[[], ['--sentid'], ['--headrules=HEADRULES']]),
            dict(fmts=['export', 'discbracket', 'bracket'], labels='A',
            words='a', trees=[0, 3], shapes=[[[0]], [[0], [1]]],
            outfmts=['export', 'bracket', 'discbracket'],
            options=[['--slice=1:'], ['--slice=:2'], ['--slice=-2:-1'],
                ['--slice=0:-1'], ['--maxlen=1'], ['--renumber'],
                ['--slice=-1:', '--renumber']])])),
    'encodings': dict(fn=encodings, reach=['verbatim', 'convert', 'shortcut'],
        params=dict(quick=[dict()])),
    'reading': dict(fn=reading, reach=['ok'], params=dict(
        quick=[dict(words='a.', labels='AB', options=[[], ['--functions=add'],
            ['--functions=replace'], ['--morphology=add'],
            ['--morphology=replace'], ['--morphology=between'],
            ['--lemmas=add'], ['--lemmas=replace'], ['--lemmas=between'],
            ['--punct=remove'], ['--punct=move'], ['--punct=prune'],
            ['--punct=root'], ['--removeempty'], ['--ensureroot=TOP'],
            ['--functions=leave', '--morphology=no'],
            ['--outputfmt=conll', '--headrules=HEADRULES'],
            ['--outputfmt=discbracket', '--functions=add',
                '--morphology=add']])])),
    'draw': dict(fn=draw, reach=['ok'], params=dict(
        quick=[dict(fmts=['export', 'bracket', 'discbracket'], labels='A',
            words='ab', shapes=[[[0], [[1], [2]]]], trees=[1, 2], paths=2,
            options=[['--frontier'], ['--frontier', '--plain'],
                ['--plain'], ['--numtrees=1', '--plain']]),
            dict(fmts=['discbracket'], labels='A', ll=6, words='ab',
                shapes=[[[0], [1]]], trees=[1],
                options=[['--abbr', '--plain'], ['-n', '1']]),
            dict(fmts=['export', 'discbracket'], labels='AB', words='a',
                shapes=[[[0], [1]]], trees=[1], options=[['--output=' + a]
                for a in 'html svg tikznode tikzmatrix tikzqtree'.split()]
                + [['-f', '-m'], ['--functions=replace'],
                ['--output=svg', '-f'], ['--plain', '--output=html',
                    '--morphology=replace']])])),
    'grammars': dict(fn=grammars, reach=['ok'], params=dict(
        quick=[dict(fmts=['bracket', 'discbracket', 'export'], root='S', labels='AB',
            words='a(', trees=[1], shapes=[[[0], [[1], [2]]]],
            models=['pcfg', 'plcfrs'], options=[[], ['--gzip']]),
            dict(fmts=['discbracket'], root='S', labels='AB', words='a', trees=[1],
            shapes=[[[[0], [2]], [1]]], models=['dopreduction', 'doubledop',
                'dop1'], options=[[], ['--packed', '--maxdepth=1'],
                ['--dopestimator=ewe'], ['--dopestimator=shortest',
                '--maxfrontier=1'], ['--dopestimator=bon', '--gzip']]),
            dict(fmts=['bracket'], root='S', labels='AB', words='a', trees=[2],
            shapes=[[[0], [1]]], models=['dopreduction', 'doubledop', 'dop1'],
            options=[[], ['--dopestimator=ewe']])])),
    'estimators': dict(fn=estimators, reach=['ok'], params=dict(
        quick=[dict(root='S', labels='A', words='a', trees=[1],
            shapes=[[[0], [1]]])])),
    'ptsg': dict(fn=fragments, reach=['ok'], params=dict(
        quick=[dict(n=1, root='S', labels='AB', words='a('), dict(n=2, root='S', labels='A',
            words='ab')])),
    'merge': dict(fn=merging, reach=['rules', 'lexicon'], params=dict(
        quick=[dict(fmts=['bracket', 'discbracket'], root='S', labels='AB',
            words='($', trees=[1], shapes=[[[0], [1]]]),
            dict(fmts=['bracket'], root='S', labels='AB', words='a', trees=[1, 2],
            shapes=[[[0]], [[0], [0 + 1]]])])),
}
