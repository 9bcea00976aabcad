"""The command treesearch prints the matches of the queries."""
import tlib
import C28
import C30
import C37
import C38
NEEDS = C28.NEEDS
SYMBYTES = True
OUTSIDE = ('tgrep2, which is an external program; usage and error messages; '
        'input that C30 and C37 leave out; for fragments: sentences, trees '
        'and highlighting as given by the searcher (C37) and drawings as '
        'given by DrawTree (C38).')
ASSUMPTIONS = C37.ASSUMPTIONS
RED, END = '\x1b[31;1m', '\x1b[0m'


def setup(universe, instrument):
    C37.setup(universe, instrument)
    C38.setup(universe, instrument)


class Stdout:
    def __init__(self):
        self.text = ''

    def write(self, x):
        self.text = self.text + x


class Sys:
    """Stand-in for the module sys."""
    def __init__(self, args):
        self.argv = ['discodop', 'treesearch'] + args
        self.stdout = Stdout()
        self.stderr = None

    def exit(self, code=0):
        raise AssertionError('exit %d' % code)


def call(ctx, args):
    """Run command; return what it prints."""
    mod = ctx.mod('treesearch')
    mod.sys = Sys(args)
    return ctx.stdout(mod.main) + mod.sys.stdout.text


def prefix(path, n, printfname, printlineno):
    out = '\x1b[35m%s\x1b[0m:' % path if printfname else ''
    if printlineno:
        out = out + '\x1b[32m%d\x1b[0m:' % n
    return out


def tally(ctx, items):
    """Pairs of distinct items and counts."""
    out = []
    for a in items:
        for b in out:
            if bool(a == b[0]):
                b[1] += 1
                break
        else:
            out.append([a, 1])
    return out


def checktally(ctx, lines, sep, items, what, width=0):
    """Lines have the types of items with their counts, frequent first."""
    want = tally(ctx, items)
    ctx.check(len(lines) == len(want), 'number of types of ' + what)
    counts = sorted((b for _, b in want), reverse=True)
    for x, n in zip(lines, counts):
        for a, b in want:
            if b == n and bool(x == (('%5d %s' % (b, '')) + a
                    if sep is None else a + sep + '%d' % b)):
                want.remove([a, b])
                break
        else:
            ctx.fail('count of type of ' + what)


def lines(ctx, text):
    """Split lines."""
    ctx.check(len(text) == 0 or text[len(text) - 1] == '\n',
            'output ends with newline')
    return text.split('\n')[:-1]


def queryargs(ctx, queries):
    """Queries given as argument or in a file."""
    text = tlib.join('\n', queries)
    if not ctx.flag('file'):
        return [text]
    ctx.file('query')
    if ctx.flag('newline'):
        text = text + '\n'
    return [ctx.pick('fileopt', ['-f', '--file']),
            ctx.file('query/q.txt', text)]


def span(a):
    """Options for an interval."""
    return ['--slice=%s:%s' % (a[0] or '', a[1] or '')] if any(a) else []


def regex(ctx):
    """Matches of regular expressions."""
    p = ctx.params
    data = C30.texts(ctx, p)
    if not all(data.values()):
        return
    files = list(data)
    queries = ctx.pick('queries', p['queries'])
    mode = ctx.pick('mode', p['modes'])
    start, end = ctx.pick('slice', p.get('slices', [(None, None)]))
    flags = 0
    args = ['-e', 'regex'] + list(mode) + span((start, end))
    if p.get('case') and ctx.flag('case'):
        args += [ctx.pick('caseopt', ['-i', '--ignore-case'])]
        flags = 2
    limit = None
    sents = not any(a in mode for a in ('-c', '--counts', '--indices'))
    if sents and p.get('max'):
        limit = ctx.pick('max', p['max'])
        args += [] if limit is None else ['-m', '%d' % limit]
        limit = limit or None
    names = len(files) > 1
    if names and ctx.flag('nonames'):
        args += [ctx.pick('namesopt', ['-h', '--no-filename'])]
        names = False
    numbers = p.get('numbers') and ctx.flag('numbers')
    if numbers:
        args += [ctx.pick('numbersopt', ['-n', '--line-number'])]
    args += ['--numproc=1'] + queryargs(ctx, queries) + files
    out = lines(ctx, call(ctx, args))
    mod = ctx.mod('treesearch')
    ref = {f: [C30.find(mod.re, q, data[f],
            start, end, flags)[:limit] for q in queries] for f in files}
    if '--csv' in mode and '--breakdown' not in mode:
        want = ['filename,' + ','.join(queries) + '\r'] + [
                f + ',' + ','.join('%d' % len(a) for a in ref[f]) + '\r'
                for f in files]
        ctx.check(out == want, 'comma-separated counts')
    elif '--indices' in mode:
        want = [prefix(f, 0, names, False) + '%r' % [a[0] for a in ref[f][0]]
                for f in files]
        ctx.check(out == want, 'sentence numbers')
    elif not sents and '--breakdown' in mode:
        for f in files:
            k = len(tally(ctx, [s[b:e] for _, s, b, e in ref[f][0]]))
            ctx.check(out[0] == f and out[k + 1] == '', 'file')
            left = tally(ctx, [s[b:e] for _, s, b, e in ref[f][0]])
            for x in out[1:k + 1]:
                for a in left:
                    if bool(x == a[0] + '\t%d' % a[1]):
                        left.remove(a)
                        break
                else:
                    ctx.fail('breakdown of counts')
            out = out[k + 2:]
        ctx.check(not out, 'nothing else')
    elif not sents and len(queries) > 1:
        want = []
        for f in files:
            want += [f] + ['%s\t%d' % (q, len(a)) for q, a in
                    zip(queries, ref[f]) if a] + ['']
        ctx.check(out == want, 'counts of queries')
    elif not sents:
        want = [prefix(f, 0, names, False) + '%d' % len(ref[f][0])
                for f in files]
        ctx.check(out == want, 'counts')
    else:
        every = [(f, a) for f in files for x in ref[f] for a in x]
        if '--breakdown' in mode:
            checktally(ctx, out, None, [s[b:e] for _, (_, s, b, e) in every],
                    'matches')
        else:
            ctx.check(len(out) == len(every), 'number of results')
            only = any(a in mode for a in ('-o', '--only-matching'))
            for x, (f, (n, s, b, e)) in zip(out, every):
                ctx.check(x == tlib.cat([prefix(f, n, names, numbers)] + (
                        [s[b:e]] if only else [s[:b], RED, s[b:e], END,
                        s[e:]])), 'result')
    ctx.reach('ok')


def frag(ctx):
    """Matches of tree fragments."""
    p = ctx.params
    ctx.file('corpus')
    mod = ctx.mod('treesearch')
    banks = [C37.Bank(ctx, n, a, p['ext']) for n, a in enumerate(p['banks'])]
    files = [a.path for a in banks]
    frags = C37.fragments(ctx, ctx.pick('query', p['queries']))
    disc = any(a.disc for a in banks)
    queries = [C37.show(q, disc) for q, _ in frags]
    mode = ctx.pick('mode', p['modes'])
    start, end = ctx.pick('slice', p.get('slices', [(None, None)]))
    args = ctx.pick('engine', [[], ['-e', 'frag']]) + list(mode) + span(
            (start, end))
    names, numbers = len(files) > 1, False
    limit = 100
    if p.get('options'):
        opts = ctx.pick('options', p['options'])
        args += opts
        if '-m' in opts:
            limit = int(opts[1]) or None
        names = names and '-h' not in opts
        numbers = '-n' in opts
    if len(files) > 1:
        args += ['--numproc=1']
    args += queryargs(ctx, queries) + files
    text = call(ctx, args)
    one = tlib.join('\n', queries)
    searcher = mod.FragmentSearcher(files, numproc=1)
    only = '-o' in mode
    ref = {a.path: a.find(frags, start, end) for a in banks}
    if '-t' not in mode:
        out = lines(ctx, text)
    if '--indices' in mode:
        want = [prefix(f, 0, names, False) + '%r' % [n for a in ref[f]
                for n, _ in a] for f in files]
        ctx.check(out == want, 'sentence numbers')
    elif '-c' in mode and len(queries) == 1 and len(mode) == 1:
        ctx.check(out == [prefix(f, 0, names, False) + '%d' % sum(map(len,
                ref[f])) for f in files], 'counts')
    elif '-c' in mode:
        want = []
        for f in files:
            want += [f] + [tlib.cat([q, '\t%d' % len(a)]) for q, a in
                    zip(queries, ref[f]) if a] + ['']
        ctx.check(len(out) == len(want) and all(bool(a == b) for a, b in
                zip(out, want)), 'counts of queries')
    elif '-t' in mode:
        want = ''
        got = searcher.trees(one, start=start, end=end, maxresults=limit)
        seen = []
        for f, n, tree, sent, high in got:
            node = [a for a in high if not isinstance(a, int)]
            if '--breakdown' in mode:
                a = (spell(node[0], sent), mod.DrawTree(mod.DiscTree(
                        node[0].freeze(), sent), sent).text(unicodelines=True,
                        ansi=True))
                seen.append(a)
                continue
            pre = prefix(f, n, names, numbers)
            if len(pre):
                pre = pre + '\n'
            if only:
                tree = node[0]
            want = tlib.cat([want, pre, mod.DrawTree(tree, sent,
                    highlight=high).text(unicodelines=True, ansi=True), '\n'])
        if '--breakdown' in mode:
            types = tally(ctx, [a for a, _ in seen])
            types.sort(key=lambda a: -a[1])
            for a, k in types:
                want = tlib.cat([want, 'count: %5d\n' % k, [y for x, y in seen
                        if bool(x == a)][0], '\n\n\n'])
            if len(types) != 1 and len({k for _, k in types}) != len(types):
                ctx.check(len(text) == len(want), 'length of breakdown')
                return
        ctx.check(text == want, 'drawings')
    else:
        brackets = '-b' in mode
        got = dict(searcher.batchsents(queries, start=start, end=end,
                maxresults=limit, brackets=brackets))
        every = [(f, x) for f in files for x in got[f]]
        if '--breakdown' in mode:
            checktally(ctx, out, None, [m1 if brackets else visible(sent, m1,
                    m2) for _, (_, sent, m1, m2) in every], 'matches')
        else:
            ctx.check(len(out) == len(every), 'number of results')
            for x, (f, (n, sent, m1, m2)) in zip(out, every):
                pre = prefix(f, n, names, numbers)
                if brackets:
                    ctx.check(x == pre + (m1 if only else mark(sent, m1)),
                            'tree')
                elif only:
                    ctx.check(x == tlib.cat([pre] + [c for i, c in
                            enumerate(sent) if i in m2]), 'part of sentence')
                else:
                    ctx.check(x == pre + mod.applyhighlight(sent, m1, m2),
                            'sentence')
    ctx.reach('ok')


def spell(node, sent):
    """Tree in bracket format without indices."""
    return tlib.cat(['(', node.label] + [x for a in node for x in (' ',
            sent[a] if isinstance(a, int) else spell(a, sent))] + [')'])


def visible(sent, m1, m2):
    """Words of match with gaps."""
    out, gap = [], False
    for i, c in enumerate(sent):
        if i in m1 or i in m2:
            if gap and out:
                if out[-1] == ' ':
                    out.pop()
                out.append(' ... ')
            out.append(c)
            gap = False
        else:
            gap = True
    if out and out[-1] == ' ':
        out.pop()
    return tlib.cat(out)


def mark(text, part):
    """Show occurrences of part in red."""
    out, i = [], 0
    while i < len(text):
        if bool(text[i:i + len(part)] == part):
            out += [RED, part, END]
            i += len(part)
        else:
            out.append(text[i])
            i += 1
    return tlib.cat(out)


Q = C30.Q
R1, Q4, Q1 = C37.R1, C37.Q4, C37.Q1
X1, X2, XD, some = C37.X1, C37.X2, C37.XD, C37.some
HARNESSES = {
    'regex': dict(fn=regex, reach=['ok'], params=dict(
        quick=[dict(lines=2, len=1, prefix=['', 'b a'], chars='ab',
                queries=[['a'], ['[ab]']], max=[None, 1], numbers=1,
                modes=[['-s'], ['--sents', '-o'], [], ['--breakdown'],
                    ['-c'], ['--indices'], ['-c', '--breakdown']],
                slices=[(None, None), (1, 1), (2, None)]),
            dict(lines=1, len=2, files=2, queries=[['a', 'b'], ['b']],
                modes=[['-s'], ['-c'], ['--only-matching'],
                    ['--counts', '--csv']], numbers=1),
            dict(lines=1, len=2, files=2, queries=[['b']],
                modes=[['--indices'], ['--breakdown', '--counts']]),
            dict(lines=2, len=1, chars='aAb', case=1, queries=[['a']],
                modes=[['-c'], ['-o']], max=[0])])),
    'frag': dict(fn=frag, reach=['ok'], params=dict(
        quick=[dict(ext='mrg', banks=[[some(X1, 1), some(X2, 1)]],
                queries=[[R1], [R1, Q4]], modes=[['-c'], ['-s'], ['-s', '-o'],
                    ['-b'], ['-b', '-o'], ['--breakdown'],
                    ['-b', '--breakdown']],
                slices=[(None, None), (2, 2)]),
            dict(ext='mrg', banks=[[some(X1, 1)], [some(X2, 1)]],
                queries=[[R1]], modes=[['-s'], ['-b'], ['-t'], ['-c'],
                    ['--indices']], options=[[], ['-n'], ['-h'], ['-m', '1'],
                    ['-m', '0', '-n', '-h']]),
            dict(ext='mrg', banks=[[some(X1, 1), some(X2, 1), some(X1)]],
                queries=[[R1], [R1, Q4]], modes=[['-t'], ['-t', '-o'],
                    ['-t', '--breakdown'], ['-c', '--breakdown']]),
            dict(ext='dbr', banks=[[XD, some(XD)]],
                queries=[[C37.QD1], [C37.QD3]], modes=[['-t', '-o'], ['-s'],
                    ['--breakdown'], ['-s', '-o'], ['-b'],
                    ['-t', '--breakdown']])])),
}
