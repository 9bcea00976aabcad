"""Visualizations of trees show the tree."""
import tlib
NEEDS = []
OUTSIDE = ('Sentences longer than the bound, more than the stated number of '
        'unary nodes; labels and words with spaces or combining characters; '
        'square brackets in TikZ-qtree output; layout of '
        'dependencies other than which arcs there are; whether the result '
        'looks nice.')
LINES = '─┌┐│┬┴┼'
ASCII = dict(zip(LINES, '_  |_||'))
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'


def setup(universe, instrument):
    """Characters in the labels and words are single graphemes."""
    class Grapheme:
        length = staticmethod(lambda text: len(text))
    universe.get('util').grapheme = Grapheme


def skeleton(ctx, s):
    """Tree of given form with any permutation of indices."""
    n = s.count('*')
    idx = []
    for i in range(n):
        idx.append(ctx.pick('index', [a for a in range(n) if a not in idx]))
    left = iter(idx)
    stack = [[]]
    for c in s:
        if c == '(':
            stack.append([])
        elif c == '*':
            stack[-1].append(next(left))
        else:
            kids = stack.pop()
            stack[-1].append(('', kids))
    return stack[0][0], n


class Input:
    """A tree with words; labels and words start with a distinct letter.

    :attr t: reference tree; .words: words by index
    :attr kids: node id → ids of children; .names: label or word of each id
    The id of a nonterminal is its letter; of a terminal, its index."""
    def __init__(self, ctx, p, cont=False):
        self.ctx = ctx
        letters = iter(UPPER)
        self.names, self.kids = {}, {}
        self.left = p.get('some', 99)

        if 'skeleton' in p:
            t, n = skeleton(ctx, p['skeleton'])
        else:
            n = ctx.pick('n', p['n'])
            t = tlib.gentree(ctx, n, lambda: '', cont=cont,
                    unary=p.get('unary', 0))

        def name(s):
            key = next(letters)
            self.names[key] = tlib.cat([key, self.text(p, 'label')])
            return (self.names[key], [name(a) if isinstance(a, tuple) else a
                    for a in s[1]], key)
        self.t = name(t)
        self.words = [tlib.cat([LOWER[i], self.text(p, 'word')])
                for i in range(n)]
        for i, w in enumerate(self.words):
            self.names[i] = w
            self.kids[i] = set()
        if p.get('permute'):
            self.t = self.permute(self.t)
        for a in tlib.subtrees(self.t):
            self.kids[a[2]] = {b[2] if isinstance(b, tuple) else b
                    for b in a[1]}
        self.root = self.t[2]

    def permute(self, t):
        if not isinstance(t, tuple):
            return t
        kids = [self.permute(a) for a in t[1]]
        if len(kids) > 1 and self.ctx.flag('reverse'):
            kids.reverse()
        return (t[0], kids, t[2])

    def text(self, p, what):
        """Remainder of a label/word."""
        alphabet, lo, hi = p.get(what, ['xy', 0, 0])
        if not hi or not self.left or (
                'some' in p and self.ctx.flag('without')):
            return ''
        self.left -= 1
        return self.ctx.string(what, alphabet, lo, hi)

    def tree(self, cls):
        return totree(cls, self.t)

    def key(self, name):
        """Node with this text."""
        first = name[0]
        for k in self.names:
            if first == (LOWER[k] if isinstance(k, int) else k):
                return k
        return None


def totree(cls, t):
    if not isinstance(t, tuple):
        return t
    return cls(t[0], [totree(cls, a) for a in t[1]])


def unchanged(ctx, inp, t, sent):
    """The objects that are drawn are not modified."""
    def eq(a, b):
        if not isinstance(b, tuple):
            return a == b
        return (len(a.children) == len(b[1]) and a.label == b[0]
                and all(eq(x, y) for x, y in zip(a.children, b[1])))
    ctx.check(eq(t, inp.t), 'tree is not modified')
    ctx.check(len(sent) == len(inp.words) and all(a == b for a, b
            in zip(sent, inp.words)), 'sentence is not modified')


def compare(ctx, inp, kids, what):
    """Edges that are shown equal those of the tree."""
    ctx.check(sorted(map(str, kids)) == sorted(map(str, inp.kids)),
            'each node occurs once: ' + what)
    for a in inp.kids:
        ctx.check(kids[a] == inp.kids[a], 'edges: ' + what)


def grid(ctx):
    """Nodes have distinct cells, parents are above children, words are in
    order on the last row, and no line passes through another node or
    coincides with another line."""
    tree = ctx.mod('tree')
    inp = Input(ctx, ctx.params)
    t, sent = inp.tree(tree.ParentedTree), list(inp.words)
    d = tree.DrawTree(t, sent)
    unchanged(ctx, inp, t, sent)
    key = {}
    for n in d.nodes:
        x = d.nodes[n]
        key[n] = inp.key(x.label if isinstance(x, tree.Tree) else x)
    ctx.check(sorted(map(str, key.values())) == sorted(map(str, inp.names)),
            'nodes')
    kids = {a: set() for a in inp.kids}
    for c in d.edges:
        kids[key[d.edges[c]]].add(key[c])
    ctx.check(len(d.edges) == len(inp.kids) - 1, 'number of edges')
    compare(ctx, inp, kids, 'grid')
    ctx.check(sorted(d.coords) == sorted(key), 'nodes with coordinates')
    at = {key[n]: d.coords[n] for n in key}
    ctx.check(len(set(at.values())) == len(at), 'distinct cells')
    ctx.check(at[inp.root][0] == 0, 'root on first row')
    bottom = max(at[a][0] for a in at)
    words = range(len(inp.words))
    ctx.check(all(at[i][0] == bottom for i in words), 'words on last row')
    ctx.check(all(at[i][1] < at[i + 1][1] for i in words[1:]
            for i in [i - 1]), 'order of words')
    spans = {}
    for a in inp.kids:
        cols = [at[c][1] for c in inp.kids[a]]
        ctx.check(len(set(cols)) == len(cols), 'columns of children')
        for c in inp.kids[a]:
            ctx.check(at[a][0] < at[c][0], 'parent above child')
            for b in at:
                if (b != a and b != c and at[b][1] == at[c][1]
                        and at[a][0] < at[b][0] < at[c][0]):
                    ctx.fail('node on vertical line')
        if cols:
            ctx.check(min(cols) <= at[a][1] <= max(cols),
                    'parent between children')
        if len(cols) > 1:
            for lo, hi in spans.get(at[a][0], []):
                ctx.check(hi < min(cols) or max(cols) < lo,
                        'horizontal lines overlap')
            spans.setdefault(at[a][0], []).append((min(cols), max(cols)))
            ctx.reach('branching')
    if any(tree.isdisc(a) for a in t.subtrees()):
        ctx.reach('discontinuous')


def among(c, chars):
    """c in chars, for a possibly symbolic character."""
    return any(c == a for a in chars)


def isline(c):
    return among(c, LINES)


def readtext(ctx, inp, text, lines=LINES):
    """Find labels in the drawing and follow the lines between them.

    :returns: a dictionary with the set of children for each node."""
    rows = text.split('\n')
    ctx.check(rows.pop() == '', 'drawing ends with newline')
    width = max([len(a) for a in rows])
    g = [list(a) + [' '] * (width - len(a)) for a in rows]
    boxes, at = [], {}   # box: list of (row, start, end)
    for y, row in enumerate(g):
        x = 0
        while x < width:
            if row[x] == ' ' or isline(row[x]):
                x += 1
                continue
            end = x
            while end < width and not (row[end] == ' ' or isline(row[end])):
                end += 1
            above = {at[y - 1, i] for i in range(x, end) if (y - 1, i) in at}
            ctx.check(len(above) < 2, 'labels overlap')
            if above:
                k = above.pop()
            else:
                k = len(boxes)
                boxes.append([])
            boxes[k].append((y, x, end))
            for i in range(x, end):
                at[y, i] = k
            x = end
    names = [tlib.cat([a for y, x, e in b for a in g[y][x:e]]) for b in boxes]
    keys = [inp.key(a) for a in names]
    ctx.check(sorted(map(str, keys)) == sorted(map(str, inp.names)),
            'each node is drawn once')
    for k, a in zip(keys, names):
        ctx.check(a == inp.names[k], 'label or word')

    def trace(y, x):
        """Follow line downwards."""
        while True:
            ctx.check(y < len(g), 'line ends below drawing')
            if (y, x) in at:
                return [at[y, x]]
            c = g[y][x]
            if c != '│':
                break
            y += 1
        ctx.check(c != ' ' and c != '─' and c != '┬', 'dangling line')
        return (y, x)

    def branches(y, x):
        found = trace(y, x)
        if isinstance(found, list):
            return found
        y, x = found
        result = []
        if among(g[y][x], '┼┌┐'):
            result.append((y, x))
        for step, stop in ((-1, '┌'), (1, '┐')):
            if g[y][x] == stop:
                continue
            i = x + step
            while True:
                ctx.check(0 <= i < width, 'line does not end')
                c = g[y][i]
                if c == stop:
                    result.append((y, i))
                    break
                if c == '┬':
                    result.append((y, i))
                else:
                    ctx.check(c == '─' or c == '│' or c == ' ',
                            'horizontal lines overlap')
                i += step
        children = []
        for y, x in result:
            end = trace(y + 1, x)
            ctx.check(isinstance(end, list), 'line continues as branch')
            children.extend(end)
        return children
    kids = {}
    for k, b in enumerate(boxes):
        y, start, end = b[-1]
        found = []
        if y + 1 < len(g):
            cols = [x for x in range(start, end)
                    if (y + 1, x) not in at and among(g[y + 1][x], '│┴┼┌┐')]
            ctx.check(len(cols) < 2, 'a single line below label')
            for x in cols:
                found = branches(y + 1, x)
        kids[keys[k]] = {keys[a] for a in found}
        ctx.check(len(kids[keys[k]]) == len(found), 'one line for each child')
    return kids, g


def text(ctx):
    """The tree can be read off the drawing with box characters; the drawing
    in ASCII has the same lines."""
    p = ctx.params
    tree = ctx.mod('tree')
    inp = Input(ctx, p)
    t, sent = inp.tree(tree.Tree), list(inp.words)
    abbr = p.get('abbr') and ctx.flag('abbr')
    d = tree.DrawTree(t, sent, abbr=abbr)
    if abbr:
        for k in inp.names:
            a = inp.names[k]
            if not isinstance(k, int) and len(a) > 5:
                inp.names[k] = tlib.cat([a[:4], '…'])
                ctx.reach('abbreviated')
    maxwidth = ctx.pick('maxwidth', p.get('maxwidth', [16]))
    out = d.text(unicodelines=True, maxwidth=maxwidth)
    kids, g = readtext(ctx, inp, out)
    compare(ctx, inp, kids, 'drawing')
    out = d.text(unicodelines=False, maxwidth=maxwidth)
    rows = out.split('\n')[:-1]
    ctx.check(len(rows) == len(g), 'number of rows')
    for row, other in zip(rows, g):
        for i, c in enumerate(other):
            x = row[i] if i < len(row) else ' '
            ctx.check(x == (ASCII[ctx.str(c)] if isline(c) else c),
                    'drawing in ASCII')
    if maxwidth and any(len(a) > maxwidth for a in inp.names.values()):
        ctx.reach('wrapped')
    ctx.reach('ok')


def parsexml(ctx, s):
    """Well-formed list of elements [tag, attributes, texts, children]; text
    is unescaped."""
    ents = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', '#x27': "'"}
    root = ['', {}, [], []]
    stack = [root]
    i, n = 0, len(s)

    def until(i, stop):
        j = i
        while j < n and not (s[j] == stop):
            j += 1
        ctx.check(j < n, 'well-formed')
        return j

    def unescape(x):
        out, i = [], 0
        while i < len(x):
            if x[i] == '&':
                j = i + 1
                while j < len(x) and j < i + 6 and x[j] != ';':
                    j += 1
                name = ctx.str(x[i + 1:j])
                for e in ents:
                    if name == e:
                        out.append(ents[e])
                        break
                else:
                    ctx.fail('ampersand is escaped')
                i = j + 1
            else:
                out.append(x[i])
                i += 1
        return tlib.cat(out)
    while i < n:
        if s[i] == '<':
            if s[i + 1] == '/':
                j = until(i, '>')
                elem = stack.pop()
                ctx.check(s[i + 2:j] == elem[0], 'closing tag')
                i = j + 1
                continue
            j = i + 1
            while not among(s[j], ' >/'):
                j += 1
            elem = [s[i + 1:j], {}, [], []]
            ctx.check(all(among(a, LOWER) for a in elem[0]) and len(elem[0]),
                    'name of tag')
            stack[-1][3].append(elem)
            while True:
                if s[j] == ' ':
                    j += 1
                elif s[j] == '>':
                    stack.append(elem)
                    break
                elif s[j] == '/':
                    ctx.check(s[j + 1] == '>', 'well-formed')
                    j += 1
                    break
                else:
                    k = j
                    while k < n and not among(s[k], '= >'):
                        k += 1
                    ctx.check(k < n and s[k] == '=', 'attribute')
                    name = ctx.str(s[j:k])
                    if s[k + 1] == '"' or s[k + 1] == "'":
                        j = until(k + 2, s[k + 1]) + 1
                        val = s[k + 2:j - 1]
                    else:
                        j = k + 1
                        while not among(s[j], ' >'):
                            j += 1
                        val = s[k + 1:j]
                    elem[1][name] = unescape(val)
            i = j + 1
            continue
        j = i
        while j < n and not (s[j] == '<'):
            j += 1
        x = s[i:j]
        stack[-1][2].append(unescape(x))
        stack[-1][3].append(unescape(x))
        i = j
    ctx.check(len(stack) == 1, 'all tags are closed')
    return root


def elements(elem):
    for a in elem[3]:
        if isinstance(a, list):
            yield a
            for b in elements(a):
                yield b


def alltext(elem):
    return tlib.cat([alltext(a) if isinstance(a, list) else a
            for a in elem[3]])


def tags(ctx, inp, name, isnode, sep, elem, colors, high, highfunc, css):
    """Check label of a node with colors of spans."""
    parts = name.split(sep, 1) if isnode and sep else [name]
    spans = [a for a in elem[3] if isinstance(a, list)]
    want = colors['node' if isnode else 'leaf'] if high else 'black'
    ctx.check(css % want in spans[0][1]['style'], 'color')
    ctx.check(alltext(spans[0]) == parts[0], 'label without function')
    ctx.check(len(spans) == len(parts),
            'function is separate')
    if len(spans) == 2:
        ctx.reach('function')
        ctx.check(alltext(spans[1]) == parts[1], 'function tag')
        want = colors['func'] if highfunc else 'black'
        ctx.check(css % want in spans[1][1]['style'], 'color of function')


def highlights(ctx, inp, t, p):
    """Choose nodes to highlight: (objects, keys)."""
    if not p.get('highlight') or ctx.flag('highlight all'):
        return (), set(inp.names)
    objs, keys = [], set()

    def visit(node, ref):
        if not isinstance(ref, tuple):
            if ctx.flag('highlight'):
                objs.append(node)
                keys.add(ref)
            return
        if ctx.flag('highlight'):
            objs.append(node)
            keys.add(ref[2])
        for a, b in zip(node.children, ref[1]):
            visit(a, b)
    visit(t, inp.t)
    ctx.assume(keys)
    ctx.reach('some highlighted')
    return objs, keys


def svg(ctx):
    """The tree can be read off the SVG drawing."""
    p = ctx.params
    tree = ctx.mod('tree')
    inp = Input(ctx, p)
    t = inp.tree(tree.ParentedTree)
    objs, high = highlights(ctx, inp, t, p)
    d = tree.DrawTree(t, list(inp.words), highlight=objs)
    sep = ctx.pick('funcsep', p.get('funcsep', [None]))
    colors = dict(node='teal', leaf='olive', func='navy')
    out = parsexml(ctx, d.svg(nodecolor='teal', leafcolor='olive',
            funccolor='navy', funcsep=sep))
    at, vert, horz, ticks = {}, set(), [], []
    for elem in elements(out):
        if elem[0] == 'text':
            name = alltext(elem)
            k = inp.key(name)
            ctx.check(k is not None and k not in at, 'node is drawn once')
            ctx.check(name == inp.names[k], 'label or word')
            at[k] = (float(elem[1]['x']), float(elem[1]['y']))
            tags(ctx, inp, name, not isinstance(k, int), sep, elem, colors,
                    k in high, k in high, 'fill: %s;')
        elif elem[0] == 'polyline':
            (x1, y1), (x2, y2) = [tuple(map(float, a.split(',')))
                    for a in ctx.str(elem[1]['points']).split(' ')]
            if 'stroke:white' in elem[1]['style']:
                continue
            if y1 == y2:
                horz.append((min(x1, x2), max(x1, x2), y1))
            else:
                ctx.check(x1 == x2, 'lines are horizontal or vertical')
                vert.add((x1, min(y1, y2), max(y1, y2)))
    ctx.check(sorted(map(str, at)) == sorted(map(str, inp.names)), 'nodes')
    kids = {a: set() for a in inp.kids}
    for c in at:
        if c == inp.root:
            continue
        # vertical line which ends above this node, to horizontal line
        up = [v for v in vert if v[0] == at[c][0] and v[1] < at[c][1]
                and 0 < at[c][1] - v[2] < 13]
        ctx.check(len(up) == 1, 'line above node')
        y = up[0][1]
        # the node just above a horizontal line at this point
        found = [a for a in at for lo, hi, yy in horz
                if yy == y and lo <= up[0][0] <= hi and lo <= at[a][0] <= hi
                and 0 < yy - at[a][1] < 13
                and (at[a][0], yy) in [(v[0], v[2]) for v in vert]
                and (hi > lo or at[a][0] == up[0][0])]
        ctx.check(len(found) == 1, 'parent of node')
        kids[found[0]].add(c)
    compare(ctx, inp, kids, 'svg')
    ctx.reach('ok')


def html(ctx):
    """Colored drawings contain the same text."""
    p = ctx.params
    tree = ctx.mod('tree')
    inp = Input(ctx, p)
    t = inp.tree(tree.ParentedTree)
    objs, high = highlights(ctx, inp, t, p)
    d = tree.DrawTree(t, list(inp.words), highlight=objs)
    sep = ctx.pick('funcsep', p.get('funcsep', [None]))
    uni = ctx.flag('unicodelines')
    plain = d.text(unicodelines=uni)
    kind = ctx.pick('kind', ['html', 'ansi'] + (['props'] if not objs
            else []))
    colors = dict(nodecolor='cyan', leafcolor='red', funccolor='green')
    if kind == 'ansi':
        code = ctx.mod('util').ANSICOLOR
        out = d.text(unicodelines=uni, ansi=True, funcsep=sep, **colors)
        result, parts, i = [], [], 0
        while i < len(out):
            if out[i] == '\x1b':
                j = i
                while out[j] != 'm':
                    j += 1
                esc = ctx.str(out[i:j + 1])
                if esc == '\x1b[0m':
                    parts[-1] = (parts[-1][0], len(result))
                    color = None
                else:
                    ctx.check(esc in ['\x1b[%d;1m' % code[a] for a
                            in colors.values()], 'escape code')
                    parts.append((len(result), None))
                i = j + 1
                continue
            result.append(out[i])
            i += 1
        ctx.check(tlib.cat(result) == plain, 'same text')
        spans = [tlib.cat(result[a:b]) for a, b in parts]
    else:
        out = d.text(unicodelines=uni, html=True, funcsep=sep,
                nodeprops='t' if kind == 'props' else None, **colors)
        elem = parsexml(ctx, out)
        ctx.check(alltext(elem) == plain, 'same text')
        spans = [alltext(a) for a in elem[3] if isinstance(a, list)]
    spans = [a.strip(' ') for a in spans]
    got = {inp.key(a) for a in spans if len(a)} - {None}
    ctx.check(got == high, 'nodes with color')
    ctx.reach(kind)


LATEX = {'textbackslash': '\\', 'textasciitilde': '~',
        'textasciicircum': '^'}


def unlatex(ctx, s, i, stop):
    """Text typeset by latex code up to unbalanced/unquoted stop character.

    :returns: (text, position)"""
    out = []
    while True:
        ctx.check(i < len(s), 'balanced braces')
        c = s[i]
        if c == stop:
            return tlib.cat(out), i
        if c == '\\':
            i += 1
            j = i
            while among(s[j], LOWER):
                j += 1
            if j == i:
                ctx.check(among(s[i], '#$%&_{}'), 'quoted character')
                out.append(s[i])
                i += 1
                continue
            cmd = ctx.str(s[i:j])
            i = j
            if cmd in LATEX:
                out.append(LATEX[cmd])
                if s[i] == '{':
                    ctx.check(s[i + 1] == '}', 'empty argument')
                    i += 2
            elif cmd == 'textcolor':
                ctx.check(s[i] == '{', 'color')
                while s[i] != '}':
                    i += 1
                ctx.check(s[i + 1] == '{', 'colored text')
                x, i = unlatex(ctx, s, i + 2, '}')
                i += 1
                out.append(x)
            else:
                ctx.fail('unexpected command')
        elif c == '$':
            if s[i + 1] == '<' or s[i + 1] == '>':
                out.append(s[i + 1])
                ctx.check(s[i + 2] == '$', 'math mode')
                i += 3
                continue
            # binarized label
            marks = {' ': '', '_': '|<', '^': '>^<'}
            i += 1
            end = ''
            while s[i] != '$':
                if s[i] == ' ':
                    i += 1
                elif s[i] == '_' or s[i] == '^':
                    out.append('|<' if s[i] == '_' else '>^<')
                    end = '>'
                    i += 1
                else:
                    ctx.check(s[i:i + 8] == '\\textsf{', 'math mode')
                    x, i = unlatex(ctx, s, i + 8, '}')
                    i += 1
                    out.append(x)
            out.append(end)
            i += 1
        else:
            ctx.check(not among(c, '#%&_{}^~'), 'special character is quoted')
            out.append(c)
            i += 1


def tikz(ctx):
    """Nodes and edges in TikZ code."""
    p = ctx.params
    tree = ctx.mod('tree')
    inp = Input(ctx, p)
    d = tree.DrawTree(inp.tree(tree.Tree), list(inp.words))
    form = ctx.pick('format', ['tikzmatrix', 'tikznode'])
    sep = ctx.pick('funcsep', p.get('funcsep', [None]))
    out = getattr(d, form)(nodecolor='cyan', leafcolor='red',
            funccolor='green', funcsep=sep)
    lines = out.split('\n')
    names, kids, cells = {}, {a: set() for a in inp.kids}, {}
    row = 0
    for line in lines:
        line = line.strip()
        if line.startswith('%'):
            continue
        if line.startswith('\\draw') or line.startswith('\\end'):
            if '[white' in line or line.startswith('\\end'):
                continue
            a, b = [x[:x.index(')')] for x in ctx.str(line).split('(n')[1:]]
            ctx.check(names[b] not in kids[names[a]], 'one line')
            kids[names[a]].add(names[b])
            continue
        i, col, seen = 0, 0, False
        while i < len(line):
            if line[i] == '&':
                col += 1
            elif line[i:i + 2] == '(n':
                j = line.index(')', i)
                n = ctx.str(line[i + 2:j])
                ctx.check(n not in names, 'node is drawn once')
                ctx.check(line[j + 1:j + 4] == ' { ', 'label')
                x, i = unlatex(ctx, line, j + 4, '}')
                x = x.strip(' ')
                names[n] = inp.key(x)
                ctx.check(names[n] is not None, 'node')
                ctx.check(x == inp.names[names[n]], 'label or word')
                if form == 'tikzmatrix':
                    cells[n] = (row, col)
                else:
                    c = ctx.str(line[1:line.index(')')]).split(',')
                    cells[n] = (-int(c[1]), int(c[0]))
                seen = True
            i += 1
        row += seen
    ctx.check(sorted(map(str, names.values()))
            == sorted(map(str, inp.names)), 'nodes')
    compare(ctx, inp, kids, 'tikz')
    top = min([cells[n][0] for n in cells])
    for n in names:
        ctx.check((cells[n][0] - top, cells[n][1]) == d.coords[int(n)],
                'position of node')
    ctx.reach(form)


def qtree(ctx):
    """Tree in TikZ-qtree code."""
    p = ctx.params
    tree = ctx.mod('tree')
    inp = Input(ctx, p, cont=True)
    t, sent = inp.tree(tree.ParentedTree), list(inp.words)
    d = tree.DrawTree(t, sent)
    out = d.tikzqtree()
    unchanged(ctx, inp, t, sent)
    # skip comment, find tree
    lines = out.split('\n')
    s = tlib.cat([tlib.cat([a, ' ']) for a in lines[1:]])
    i = s.index('\\Tree ') + 6

    def special(i):
        return s[i] == ' ' or s[i] == ']' or s[i] == '['

    def parse(i):
        ctx.check(s[i:i + 2] == '[.', 'bracket')
        x, i = unlatex(ctx, s, i + 2, ' ')
        kids = []
        while True:
            if s[i] == ' ':
                i += 1
            elif s[i] == ']':
                return (x, kids), i + 1
            elif s[i] == '[':
                k, i = parse(i)
                kids.append(k)
            else:
                k, i = unlatex(ctx, s, i, ' ')
                kids.append(k)
    got, i = parse(i)

    def eq(a, b):
        if not isinstance(b, tuple):
            ctx.check(not isinstance(a, tuple) and a == inp.words[b], 'word')
            return
        ctx.check(isinstance(a, tuple) and a[0] == b[0], 'label')
        ctx.check(len(a[1]) == len(b[1]), 'number of children')
        for x, y in zip(a[1], b[1]):
            eq(x, y)
    eq(got, inp.t)
    ctx.reach('ok')


def nosent(ctx):
    """A continuous tree with words as leaves, multiple words or no words
    under a nonterminal."""
    tree = ctx.mod('tree')
    n = ctx.pick('n', ctx.params['n'])
    words, count = [], iter(UPPER)

    def build(s):
        """Tree with words and with indices."""
        if isinstance(s, int):
            form = ctx.pick('form', ['pos', 'word', 'frontier'])
            if form == 'word':
                words.append(tlib.cat(['w', ctx.string('w', '0=a', 1, 2)]))
                return words[-1], len(words) - 1
            lab = tlib.cat([next(count), ctx.string('label', 'xy', 0, 1)])
            if form == 'frontier':
                ctx.reach('frontier')
                words.append(None)
                return tree.Tree(lab, []), tree.Tree(lab, [len(words) - 1])
            words.append(tlib.cat(['w', ctx.string('w', '0=a', 1, 2)]))
            return (tree.Tree(lab, [words[-1]]),
                    tree.Tree(lab, [len(words) - 1]))
        lab = next(count)
        kids = [build(a) for a in s]
        return (tree.Tree(lab, [a for a, _ in kids]),
                tree.Tree(lab, [a for _, a in kids]))
    shape = ctx.pick('shape', tlib.shapes(n, cont=True))
    t, t1 = build(shape if not isinstance(shape, int) else (shape, ))
    before = ctx.str(t)
    got = tree.DrawTree(t).text(unicodelines=True)
    ctx.check(ctx.str(t) == before, 'tree is not modified')
    want = tree.DrawTree(t1, words).text(unicodelines=True)
    ctx.check(got == want, 'drawing of tree without sentence')
    ctx.reach('ok')


def deps(ctx):
    """Words, tags and arcs of dependencies are shown; arcs which span other
    arcs are above them."""
    p = ctx.params
    tree = ctx.mod('tree')
    n = ctx.pick('n', p['n'])
    which = ctx.choice('which', 3 * n)

    def text(i, first):
        return (tlib.cat([first, ctx.string('text', '<&"x', 1, 2)])
                if i == which else first)
    sent = [text(i, LOWER[i]) for i in range(n)]
    pos = [text(n + i, UPPER[i]) for i in range(n)]
    labels = [text(2 * n + i, 'R%d' % i) for i in range(n)]
    heads = [ctx.pick('head', [a for a in range(n + 1) if a != i + 1])
            for i in range(n)]
    for i in range(n):   # no cycles
        j, seen = i + 1, []
        while j and j not in seen:
            seen.append(j)
            j = heads[j - 1]
        ctx.assume(j == 0)
    tree.random.seed(1)
    if ctx.flag('conll'):
        data = tlib.cat([tlib.cat(['%d\t' % (i + 1), sent[i], '\t_\t', pos[i],
                '\t-\t_\t%d\t' % heads[i], labels[i], '\t_\t_\n'])
                for i in range(n)])
        d = tree.DrawDependencies.fromconll(data)
        ctx.reach('conll')
    else:
        d = tree.DrawDependencies(sent, pos, [(i + 1, labels[i], heads[i])
                for i in range(n)])
    out = parsexml(ctx, d.svg())
    found = {}
    for elem in elements(out):
        if elem[0] == 'text' or elem[0] == 'path':
            cls = ctx.str(elem[1].get('class', '')).split(' ')
            if cls[0] in ('word', 'tag', 'dependency', 'edge'):
                key = cls[0] if cls[0] in ('word', 'tag') else (
                        cls[0] + cls[1])
                k = (key, cls[-1])
                ctx.check(k not in found, 'drawn once')
                found[k] = elem
    ctx.check(len(found) == 4 * n + 1, 'number of items')
    ctx.check(alltext(found['word', 'w0']) == 'ROOT', 'root')
    x = [float(found['word', 'w%d' % i][1]['x']) for i in range(n + 1)]
    ctx.check(all(a < b for a, b in zip(x, x[1:])), 'order of words')
    tops = {}
    for i in range(n):
        w, h = 'w%d' % (i + 1), 'w%d' % heads[i]
        ctx.check(('edge' + h, w) in found and ('dependency' + h, w) in found,
                'dependency')
        ctx.check(alltext(found['word', w]) == sent[i], 'word')
        ctx.check(alltext(found['tag', w]) == pos[i], 'tag')
        ctx.check(float(found['tag', w][1]['x']) == x[i + 1], 'tag position')
        ctx.check(alltext(found['dependency' + h, w]) == labels[i], 'label')
        path = ctx.str(found['edge' + h, w][1]['d'])
        nums = [float(a) for a in path.replace('M', '').replace('C', ''
                ).replace(',', ' ').split(' ')]
        ctx.check(abs(nums[0] - x[heads[i]]) <= 20, 'start of arc')
        ctx.check(abs(nums[6] - x[i + 1]) <= 2, 'end of arc')
        ctx.check(nums[3] == nums[5] and nums[3] < nums[1], 'arc')
        tops[i] = nums[3]
        ctx.check(nums[3] >= 0, 'arc within image')
    for i in range(n):
        for j in range(n):
            a, b = sorted((i + 1, heads[i])), sorted((j + 1, heads[j]))
            if a != b and a[0] <= b[0] and b[1] <= a[1]:
                ctx.check(tops[i] < tops[j], 'arcs are nested')
                ctx.reach('nested')


T6 = dict(n=[6], unary=0)
S5 = '((((*))((*)))((((*)(*))(*))))'
S5A = '((((*)(*))(*))((*)((*))))'
S6 = '(((*)(*))(((*)((*)))(*)))'
S6A = '(((*)(*))((((*))((*)))(*))(*))'
S7 = '((((*)(*))(*))(((*)(*))(*))(*))'
S7A = '(((((*))(*)))(((*)(*))(*))((((*)))((*))))'
S7B = '((((((*)(*)))(*)))((((*))(*))((((*))(*)))))'
def secondary(ctx):
    """Secondary edges are shown as indices at their sources and targets."""
    tree = ctx.mod('tree')
    p = ctx.params
    inp = Input(ctx, p)
    t = inp.tree(tree.ParentedTree)
    nodes = list(t.subtrees())
    phrasal = [a for a in nodes if not isinstance(a[0], int)]
    ids = {}
    for a in nodes:
        a.source = ['w', '--', a.label, '--', '--', '0']
    for n, a in enumerate(phrasal):
        ids[inp.key(a.label)] = 500 + n * 7
        a.source[0] = '#%d' % (500 + n * 7)
    out, targets = {}, set()
    for _ in range(p['edges']):
        a = ctx.pick('source', nodes)
        b = inp.key(ctx.pick('target', phrasal).label)
        if p.get('missing') and ctx.flag('missing'):
            a.source += ['X', '999']
            continue
        f = ctx.string('func', 'AB', 1, 1)
        a.source += [f, '%d' % ids[b]]
        targets.add(b)
        out.setdefault(inp.key(a.label), []).append(tlib.cat([f, ':%d' % (
                ids[b] - 500)]))
    flag = ctx.flag('secedge')
    before = ctx.str(t)
    dt = tree.DrawTree(t, list(inp.words), secedge=flag)
    ctx.check(ctx.str(t) == before, 'tree is not modified')
    seen = set()
    for i, a in dt.nodes.items():
        if not isinstance(a, tree.Tree):
            ctx.check(dt.labels[i] == a, 'word')
            continue
        k = inp.key(a.label)
        seen.add(k)
        want = [inp.names[k]]
        if flag:
            if k in targets:
                want.append('=%d' % (ids[k] - 500))
            if k in out:
                want += ['[', tlib.join(',', out[k]), ']']
        ctx.check(dt.labels[i] == tlib.cat(want), 'label')
        if flag and k in targets and k in out:
            ctx.reach('both')
    ctx.check(seen == {inp.key(a.label) for a in nodes}, 'all nodes')
    ctx.reach('ok')


HARNESSES = {
    'secondary': dict(fn=secondary, reach=['ok', 'both'], params=dict(
        quick=[dict(n=[2], edges=2, permute=1, unary=1),
            dict(n=[3], edges=1, missing=1, label=['=x', 0, 1], some=1)],
        thorough=[dict(n=[3], edges=2, permute=1, unary=1, missing=1)])),
    'grid': dict(fn=grid, reach=['branching', 'discontinuous'], params=dict(
        quick=[dict(n=[3, 4], unary=1), dict(n=[5]), dict(skeleton=S5),
            dict(skeleton=S5A), dict(skeleton=S6A),
            dict(skeleton=S7A)],
        thorough=[dict(n=[3, 4], unary=2), dict(n=[5], unary=1), T6,
            dict(skeleton=S5), dict(skeleton=S5A),
            dict(skeleton=S6), dict(skeleton=S6A), dict(skeleton=S7),
            dict(skeleton=S7A), dict(skeleton=S7B)])),
    'text': dict(fn=text, reach=['ok'], params=dict(quick=[
        dict(n=[3], unary=1, label=['x|', 1, 2], word=['_y', 1, 2], some=2),
        dict(n=[4], label=['x|', 3, 3], some=1), dict(n=[5])], thorough=[
        dict(n=[3], unary=1, label=['x|', 0, 1], word=['_y', 0, 2]),
        dict(n=[4], unary=1, label=['x|', 3, 3], word=['_y', 4, 4], some=3),
        dict(n=[5], label=['x|', 3, 3], some=1), T6])),
    'wrap': dict(fn=text, reach=['ok', 'wrapped', 'abbreviated'], params=dict(
        quick=[dict(n=[2], label=['x-', 4, 7], word=['y-', 3, 7], some=1,
            maxwidth=[5, 6, None], abbr=True)])),
    'svg': dict(fn=svg, reach=['ok'], params=dict(quick=[
        dict(n=[2], label=['-<&', 1, 2], word=['"&', 1, 2], some=2,
            funcsep=[None, '-']),
        dict(n=[3], highlight=True, permute=True)])),
    'html': dict(fn=html, reach=['html', 'ansi'], params=dict(quick=[
        dict(n=[2], label=['-<&', 1, 2], word=['"&', 1, 2], some=2,
            funcsep=[None, '-']),
        dict(n=[3], highlight=True)])),
    'tikz': dict(fn=tikz, reach=['tikzmatrix', 'tikznode'], params=dict(quick=[
        dict(n=[2], label=['-<&^\\', 1, 2], word=['%$#_{}', 1, 2], some=1,
            funcsep=[None, '-']),
        dict(n=[3])])),
    'qtree': dict(fn=qtree, reach=['ok'], params=dict(quick=[
        dict(n=[2], label=['-<&^\\', 1, 2], word=['%$#_{}', 1, 2], some=1),
        dict(n=[3], unary=1)])),
    'dependencies': dict(fn=deps, reach=['conll', 'nested'], params=dict(
        quick=[dict(n=[1, 2, 3])], thorough=[dict(n=[1, 2, 3]),
            dict(n=[4])])),
    'nosent': dict(fn=nosent, reach=['ok', 'frontier'], params=dict(quick=[
        dict(n=[1, 2, 3])])),
}
