"""Searching through treebanks."""
import tlib
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
        'disambiguation', 'probe']
LITE = ['_fragments', 'containers']
SYMBYTES = True
OUTSIDE = ('Text with lines that consist of whitespace only, carriage returns, '
        'and expressions that match line ends or the empty string; the re2 '
        'engine; tgrep2, which is an external program; more sentences than '
        'stated.')
ASSUMPTIONS = ['RoaringBitmap behaves as a sorted set of integers',
        'mmap gives the contents of a file', 'jobs of a pool are independent']


def corpus(ctx, name, p):
    """A text file with symbolic lines. Returns path and sentences."""
    lines = []
    for _ in range(p['lines']):
        x = ctx.string('line', p.get('chars', 'ab'), 0, p.get('len', 2))
        if p.get('prefix'):
            x = ctx.pick('prefix', p['prefix']) + x
        lines.append(x)
    text = tlib.join('\n', lines)
    if ctx.flag('eol'):
        text = text + '\n'
    ctx.assume(len(text) > 0)
    path = ctx.file('corpus/' + name, text)
    return path, [a for a in lines if len(a)]


def texts(ctx, p):
    ctx.file('corpus')
    out = {}
    for n in range(p.get('files', 1)):
        path, sents = corpus(ctx, 'f%d.txt' % n, p)
        out[path] = sents
    return out


def find(re, query, sents, start=None, end=None, flags=0):
    """Reference: (number, sentence, begin, end) of matches in sentences."""
    return [(n, a, m.start(), m.end())
            for n, a in enumerate(sents, 1)
            if (not start or n >= start) and (not end or n <= end)
            for m in re.finditer(query, a, flags)]


def sameseq(got, want):
    return len(got) == len(want) and all(bool(a == b)
            for a, b in zip(got, want))


def checksents(ctx, got, want, what):
    """Compare (number, sentence, highlight, highlight) tuples."""
    ctx.check(len(got) == len(want), 'number of ' + what)
    for (n, sent, h1, h2), (n1, sent1, b, e) in zip(got, want):
        ctx.check(n == n1, 'sentence number of ' + what)
        ctx.check(sent == sent1, 'sentence of ' + what)
        ctx.check(list(h1) == list(range(b, e)) and not list(h2),
                'highlighted characters of ' + what)


def run(ctx, re, searcher, data, method, queries, start, end, maxresults,
        subset=None, flags=0):
    """Call a method of searcher and compare to reference."""
    files = subset or list(data)
    query = queries[0]
    ref = {f: find(re, query, data[f], start, end, flags) for f in files}
    if method == 'counts':
        got = searcher.counts(query, subset, start, end)
        ctx.check(sorted(got) == sorted(files), 'files of counts')
        for f in files:
            ctx.check(got[f] == len(ref[f]), 'count')
    elif method == 'indices':
        got = searcher.counts(query, subset, start, end, indices=True)
        for f in files:
            ctx.check(list(got[f]) == [a[0] for a in ref[f]], 'indices')
    elif method == 'breakdown':
        got = searcher.counts(query, subset, start, end, breakdown=True)
        for f in files:
            left = [(a, got[f][a]) for a in got[f]]
            ctx.check(sum(b for _, b in left) == len(ref[f]),
                    'total of breakdown')
            for _, sent, b, e in ref[f]:
                ctx.check(got[f][sent[b:e]] == sum(1 for _, s1, b1, e1
                        in ref[f] if bool(s1[b1:e1] == sent[b:e])),
                        'count in breakdown')
    elif method == 'sents':
        got = list(searcher.sents(query, subset, start, end, maxresults))
        for f in files:
            checksents(ctx, [a[1:] for a in got if a[0] == f],
                    ref[f][:maxresults], 'sents')
        ctx.check(len(got) == sum(len(ref[f][:maxresults]) for f in files),
                'results of sents')
    elif method == 'batchcounts':
        got = [(f, list(x)) for f, x in searcher.batchcounts(queries, subset,
                start, end)]
        ctx.check(got == [(f, [len(find(re, q, data[f], start, end, flags))
                for q in queries]) for f in files], 'batchcounts')
    elif method == 'batchsents':
        got = list(searcher.batchsents(queries, subset, start, end,
                maxresults))
        ctx.check([f for f, _ in got] == files, 'files of batchsents')
        for f, x in got:
            checksents(ctx, x, [a for q in queries for a in find(re, q,
                    data[f], start, end, flags)[:maxresults]], 'batchsents')
    elif method == 'extract':
        for f in files:
            idx = list(range(len(data[f]), 0, -1))
            got = searcher.extract(f, idx, sents=True)
            ctx.check(sameseq(got, [data[f][n - 1] for n in idx]), 'extract')
    elif method == 'getinfo':
        for f in files:
            got = searcher.getinfo(f)
            ctx.check(got.len == len(data[f]), 'number of sentences')
            ctx.check(got.numwords == sum(a.count(' ') + 1 for a in data[f]),
                    'number of words')


METHODS = ['counts', 'indices', 'breakdown', 'sents', 'batchcounts',
        'batchsents', 'extract', 'getinfo']


def regex(ctx):
    """Every query reports exactly the matches in the sentences of the
    requested interval, with their sentence numbers and characters."""
    p = ctx.params
    mod = ctx.mod('treesearch')
    data = texts(ctx, p)
    queries = ctx.pick('query', p['queries'])
    n = max(map(len, data.values()))
    method = ctx.pick('method', p.get('methods', METHODS))
    start = end = maxresults = None
    if method not in ('extract', 'getinfo'):
        start = ctx.pick('start', [None] + list(range(1, n + 2)))
        end = ctx.pick('end', [None] + list(range(1, n + 2)))
        if start and end and start > end:
            return
    if 'sents' in method:
        maxresults = ctx.pick('maxresults', [None, 1, 100])
    ignore = ctx.flag('ignorecase') if p.get('case') else False
    inmemory = ctx.flag('inmemory') if method in ('extract', 'getinfo'
            ) else False
    searcher = mod.RegexSearcher(list(data), numproc=1, inmemory=inmemory,
            ignorecase=ignore)
    run(ctx, mod.re, searcher, data, method, queries, start, end, maxresults,
            flags=mod.re.I if ignore else 0)
    searcher.close()
    ctx.reach(method)


def history(ctx):
    """The result of a query does not depend on those before it, nor on the
    order in which jobs for different files are completed."""
    p = ctx.params
    mod = ctx.mod('treesearch')
    data = texts(ctx, p)
    numproc = p.get('numproc', 1)
    if numproc > 1:
        ctx.futures(lambda n: ctx.choice('order', n))
    if 'cache' in p:
        mod.CACHESIZE = p['cache']
    searcher = mod.RegexSearcher(list(data), numproc=numproc)
    for _ in range(p['steps']):
        method = ctx.pick('method', p['methods'])
        queries = ctx.pick('query', p['queries'])
        maxresults = ctx.pick('maxresults', p.get('max', [None, 1, 2])
                ) if 'sents' in method else None
        start, end = ctx.pick('slice', p.get('slices', [(None, None)]))
        subset = None
        if p.get('subset') and ctx.flag('subset'):
            subset = list(data)[1:]
        run(ctx, mod.re, searcher, data, method, queries, start, end,
                maxresults, subset)
    ctx.reach('ok')


def index(ctx):
    """An index that was made before is only used if it is still valid."""
    p = ctx.params
    mod = ctx.mod('treesearch')
    data = texts(ctx, dict(p, files=2))
    a, b = list(data)
    first = ctx.pick('first', [[a], [b], [a, b]])
    mod.RegexSearcher(first, numproc=1).close()
    if ctx.flag('modified'):
        path, sents = corpus(ctx, 'f0.txt', p)
        data[path] = sents
        ctx.touch(path, 4000000000)
        ctx.reach('modified')
    second = ctx.pick('second', [[a], [b], [a, b], [b, a]])
    if second != first:
        ctx.reach('other')
    searcher = mod.RegexSearcher(second, numproc=1)
    run(ctx, mod.re, searcher, {f: data[f] for f in second},
            ctx.pick('method', ['sents', 'extract']), ['b'], None, None, None)
    ctx.reach('ok')


def macros(ctx):
    """Macros are replaced by their definition."""
    mod = ctx.mod('treesearch')
    data = texts(ctx, ctx.params)
    mfile = ctx.file('macros.txt', 'x=a\nyy=b=?\n')
    searcher = mod.RegexSearcher(list(data), macros=mfile, numproc=1)
    got = searcher.counts('{x}{yy}')
    got2 = list(searcher.batchcounts(['{x}', 'b{x}']))
    for n, f in enumerate(data):
        ctx.check(got[f] == len(find(mod.re, 'ab=?', data[f])), 'count')
        ctx.check(list(got2[n][1]) == [len(find(mod.re, 'a', data[f])),
                len(find(mod.re, 'ba', data[f]))], 'batchcounts')
    ctx.reach('ok')


def highlight(ctx):
    """charindices gives the characters of tokens with the spaces following
    them; applyhighlight shows the sentence with each character in the colour
    asked for."""
    p = ctx.params
    mod = ctx.mod('treesearch')
    n = ctx.choice('n', p['n']) + 1
    toks = [ctx.string('tok', 'ab', 1, 2) for _ in range(n)]
    h1 = {i for i in range(n) if ctx.flag('h1')}
    h2 = {i for i in range(n) if ctx.flag('h2')}
    sent = tlib.join(' ', toks)
    want, pos = {}, 0
    for i, a in enumerate(toks):
        want[i] = list(range(pos, pos + len(a) + (i + 1 < n)))
        pos += len(a) + 1
    c1 = mod.charindices(toks, h1)
    ctx.check(sorted(c1) == [c for i in sorted(h1) for c in want[i]],
            'charindices')
    c1, c2 = mod.charindices(toks, h1, h2)
    ctx.check(sorted(c1) == [c for i in sorted(h1) for c in want[i]]
            and sorted(c2) == [c for i in sorted(h2) for c in want[i]],
            'charindices of both')
    out = mod.applyhighlight(sent, c1, c2, reset=ctx.flag('reset'))
    # interpret escape codes
    cur, i, plain, cols = None, 0, '', []
    codes = {'31;1': 'red', '34;1': 'blue', '0': None}
    while i < len(out):
        if out[i] == '\x1b':
            j = out.find('m', i)
            code = out[i + 2:j]
            for a in codes:
                if code == a:
                    cur = codes[a]
                    break
            else:
                ctx.fail('unknown escape code')
            i = j + 1
        else:
            plain = plain + out[i]
            cols.append(cur)
            i += 1
    ctx.check(cur is None, 'colour is reset')
    ctx.check(plain == sent, 'sentence')
    ctx.check(cols == ['red' if i in c1 else 'blue' if i in c2 else None
            for i in range(len(sent))], 'colours')
    ctx.reach('ok')


def cache(ctx):
    """The cache keeps the last items that were added, up to its limit."""
    p = ctx.params
    mod = ctx.mod('treesearch')
    limit = ctx.choice('limit', 4)
    d = mod.FIFOOrederedDict(limit)
    ref = []
    for n in range(p['steps']):
        k = ctx.choice('key', 4)
        d[k] = n
        ref = [(a, b) for a, b in ref if a != k] + [(k, n)]
        ref = ref[-limit:] if limit else []
        ctx.check([(a, d[a]) for a in d] == ref, 'contents')
        ctx.check(d.get(9) is None, 'missing')
    ctx.reach('ok')


Q = [['a', 'b'], ['ab', 'b'], ['[ab]b?', 'a'], ['^a', '^b'], ['b$', 'a']]
HARNESSES = {
    'regex': dict(fn=regex, reach=[], params=dict(
        quick=[
            dict(lines=3, len=1, queries=Q[:1]),
            dict(lines=2, len=2, queries=Q[1:]),
            dict(lines=2, len=1, prefix=['', '\u00e9', 'b\u00e9 '],
                queries=[['[ab]', 'b$']]),
            dict(lines=2, len=1, chars='aAb', case=1, queries=Q[:1],
                methods=['counts', 'sents', 'batchcounts'])],
        thorough=[dict(lines=3, len=2, queries=Q),
            dict(lines=4, len=1, queries=Q[:1])])),
    'history': dict(fn=history, reach=['ok'], params=dict(
        quick=[dict(lines=2, len=1, steps=2, queries=[['a', 'b']],
                methods=['sents', 'counts', 'indices'], slices=[(None, None),
                (1, 1), (2, 2)]),
            dict(lines=1, len=2, files=2, numproc=2, steps=1,
                queries=[['a', 'b']], methods=METHODS[:6], max=[1, 100]),
            dict(lines=1, len=1, files=2, numproc=2, steps=2,
                queries=[['a', 'b']], methods=['sents', 'counts'], max=[1],
                subset=1)],
        thorough=[dict(lines=2, len=1, steps=3, queries=[['a', 'b'],
            ['b', 'a']], methods=['sents', 'counts', 'indices'],
            slices=[(None, None), (1, 1), (2, 2)])])),
    'index': dict(fn=index, reach=['ok', 'modified', 'other'], params=dict(
        quick=[dict(lines=1, len=2)],
        thorough=[dict(lines=2, len=1)])),
    'macros': dict(fn=macros, reach=['ok'], params=dict(
        quick=[dict(lines=1, len=4, chars='ab=')])),
    'highlight': dict(fn=highlight, reach=['ok'], params=dict(
        quick=[dict(n=3)], thorough=[dict(n=4)])),
    'cache': dict(fn=cache, reach=['ok'], params=dict(
        quick=[dict(steps=5)], thorough=[dict(steps=7)])),
}
