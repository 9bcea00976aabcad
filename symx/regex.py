"""Drop-in for ``re`` that also matches symbolic strings.

Concrete subjects are delegated to the real ``re``; for symbolic subjects the
parsed pattern (``re._parser``) is matched by backtracking in the same order
as the real engine, deciding every character test with the solver."""
import re as _re
import re._parser as _parser
import re._constants as _c
from .values import SymBytes, frombytestr, SymStr, SymChar, mkstr, chars, decide, chareq, isstr
from .core import Inconclusive
from .strfmt import sxjoin

A = ASCII = _re.A
I = IGNORECASE = _re.I
M = MULTILINE = _re.M
S = DOTALL = _re.S
X = VERBOSE = _re.X
U = UNICODE = _re.U
L = LOCALE = _re.L
error = _re.error
escape_ = _re.escape
Match = _re.Match


def _conc(x):
    return x.concretize() if type(x) is SymStr else x


def escape(p):
    return _re.escape(_conc(p))


_CACHE = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    pattern = _conc(pattern)
    if isinstance(pattern, bytes):
        return BytesPattern(pattern, flags)
    k = (pattern, int(flags))
    if k not in _CACHE:
        _CACHE[k] = SymPattern(pattern, flags)
    return _CACHE[k]


def purge():
    pass


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def test(ch, pred):
    if type(ch) is str:
        return pred(ch)
    return decide(ch.member(pred))


_CATS = {
    _c.CATEGORY_DIGIT: _re.compile(r'\d'),
    _c.CATEGORY_NOT_DIGIT: _re.compile(r'\D'),
    _c.CATEGORY_SPACE: _re.compile(r'\s'),
    _c.CATEGORY_NOT_SPACE: _re.compile(r'\S'),
    _c.CATEGORY_WORD: _re.compile(r'\w'),
    _c.CATEGORY_NOT_WORD: _re.compile(r'\W'),
}


def _inset(items, c, ignorecase):
    """Is concrete char c in the character set?"""
    cs = {c, c.lower(), c.upper()} if ignorecase else {c}
    neg = False
    res = False
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            res = res or any(len(x) == 1 and ord(x) == av for x in cs)
        elif op is _c.RANGE:
            res = res or any(len(x) == 1 and av[0] <= ord(x) <= av[1]
                    for x in cs)
        elif op is _c.CATEGORY:
            res = res or _CATS[av].match(c) is not None
        else:
            raise Inconclusive('regex set item %s' % op)
    return res != neg


class Matcher:
    def __init__(self, s, flags, endpos):
        self.s, self.flags, self.n = s, flags, endpos

    def seq(self, items, i, pos, gr):
        """Yield (pos, groups) for each way to match items[i:]."""
        if i == len(items):
            yield pos, gr
            return
        op, av = items[i]
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
            if pos < self.n and self.one(op, av, self.s[pos]):
                yield from self.seq(items, i + 1, pos + 1, gr)
        elif op is _c.SUBPATTERN:
            group, addf, delf, sub = av
            if addf or delf:
                raise Inconclusive('inline regex flags')
            for p, g in self.seq(sub.data, 0, pos, gr):
                if group is not None:
                    g = dict(g)
                    g[group] = (pos, p)
                    g['last'] = group
                yield from self.seq(items, i + 1, p, g)
        elif op is _c.BRANCH:
            for alt in av[1]:
                for p, g in self.seq(alt.data, 0, pos, gr):
                    yield from self.seq(items, i + 1, p, g)
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, sub = av
            for p, g in self.repeat(sub.data, lo, hi, pos, gr, 0,
                    op is _c.MAX_REPEAT):
                yield from self.seq(items, i + 1, p, g)
        elif op is _c.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            for p, g in self.repeat(sub.data, lo, hi, pos, gr, 0, True):
                yield from self.seq(items, i + 1, p, g)
                break
        elif op is _c.ATOMIC_GROUP:
            for p, g in self.seq(av.data, 0, pos, gr):
                yield from self.seq(items, i + 1, p, g)
                break
        elif op is _c.AT:
            if self.at(av, pos):
                yield from self.seq(items, i + 1, pos, gr)
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            direction, sub = av
            if direction >= 0:
                start = pos
                res = next(self.seq(sub.data, 0, start, gr), None)
            else:
                lo, hi = sub.getwidth()
                start = pos - lo
                res = None
                if start >= 0:
                    save = self.n
                    res = next((x for x in self.seq(sub.data, 0, start, gr)
                            if x[0] == pos), None)
                    self.n = save
            if (res is not None) == (op is _c.ASSERT):
                g = res[1] if res is not None else gr
                yield from self.seq(items, i + 1, pos, g)
        elif op is _c.GROUPREF:
            if av in gr:
                a, b = gr[av]
                n = b - a
                if pos + n <= self.n and all(decide(chareq(x, y))
                        for x, y in zip(self.s[a:b], self.s[pos:pos + n])):
                    yield from self.seq(items, i + 1, pos + n, gr)
        else:
            raise Inconclusive('regex op %s' % op)

    def repeat(self, sub, lo, hi, pos, gr, n, greedy, last=None):
        """``last`` is the position at which the previous optional iteration
        started; as in CPython, no iteration starts there again."""
        if n < lo:
            for p, g in self.seq(sub, 0, pos, gr):
                yield from self.repeat(sub, lo, hi, p, g, n + 1, greedy)
            return
        if not greedy:
            yield pos, gr
        if (hi is _c.MAXREPEAT or n < hi) and pos != last:
            for p, g in self.seq(sub, 0, pos, gr):
                yield from self.repeat(sub, lo, hi, p, g, n + 1, greedy, pos)
        if greedy:
            yield pos, gr

    def one(self, op, av, ch):
        ic = self.flags & _re.I
        if op is _c.LITERAL or op is _c.NOT_LITERAL:
            if ic:
                want = chr(av)
                r = test(ch, lambda c: c == want or c.lower() == want.lower())
            else:
                r = decide(chareq(ch, chr(av)))
            return r == (op is _c.LITERAL)
        if op is _c.ANY:
            return (self.flags & _re.S) or not decide(chareq(ch, '\n'))
        return test(ch, lambda c: _inset(av, c, ic))

    def word(self, i):
        return 0 <= i < len(self.s) and test(self.s[i],
                lambda c: c.isalnum() or c == '_')

    def at(self, av, pos):
        s, n = self.s, self.n
        if av is _c.AT_BEGINNING_STRING:
            return pos == 0
        if av is _c.AT_BEGINNING:
            return pos == 0 or bool(self.flags & _re.M
                    and decide(chareq(s[pos - 1], '\n')))
        if av is _c.AT_END_STRING:
            return pos == n
        if av is _c.AT_END:
            return (pos == n
                    or (pos == n - 1 and decide(chareq(s[pos], '\n')))
                    or bool(self.flags & _re.M
                        and decide(chareq(s[pos], '\n'))))
        if av is _c.AT_BOUNDARY:
            return self.word(pos - 1) != self.word(pos)
        if av is _c.AT_NON_BOUNDARY:
            return self.word(pos - 1) == self.word(pos)
        raise Inconclusive('regex at %s' % av)


class SymMatch:
    def __init__(self, pat, string, start, end, groups, pos, endpos):
        self.re, self.string = pat, string
        self._g = groups
        self._g0 = (start, end)
        self.pos, self.endpos = pos, endpos
        self.lastindex = groups.get('last')
        self.lastgroup = None
        for name, n in pat.groupindex.items():
            if n == self.lastindex:
                self.lastgroup = name

    def span(self, g=0):
        if g == 0:
            return self._g0
        g = self.re.groupindex.get(g, g) if isinstance(g, str) else g
        if not 1 <= g <= self.re.groups:
            raise IndexError('no such group')
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a == -1 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default)
                for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    def expand(self, template):
        return expand(self, template)


def expand(m, template):
    if type(template) is SymStr or '\\' in template:
        template = _conc(template)
        parsed = _parser.parse_template(template, m.re.real)
        return sxjoin('', [a if isinstance(a, str) else (
                m.group(a) if m.group(a) is not None else '')
                for a in parsed])
    return template


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self.tree = _parser.parse(pattern, flags)

    def _run(self, s, pos, endpos, full=False, notempty=False):
        m = Matcher(s.cs, self.flags, endpos)
        for p, g in m.seq(self.tree.data, 0, pos, {}):
            if full and p != endpos:
                continue
            if notempty and p == pos:
                continue
            return SymMatch(self, s, pos, p, g, pos, endpos)
        return None

    def match(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return self.real.match(s, *self._b(s, pos, endpos))
        pos, endpos = self._b(s, pos, endpos)
        return self._run(s, pos, endpos)

    def _b(self, s, pos, endpos):
        n = len(s)
        endpos = n if endpos is None else max(0, min(n, endpos))
        return min(max(0, pos), n), endpos

    def fullmatch(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return self.real.fullmatch(s, *self._b(s, pos, endpos))
        pos, endpos = self._b(s, pos, endpos)
        return self._run(s, pos, endpos, full=True)

    def search(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return self.real.search(s, *self._b(s, pos, endpos))
        pos, endpos = self._b(s, pos, endpos)
        for i in range(pos, endpos + 1):
            m = self._run(s, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            yield from self.real.finditer(s, *self._b(s, pos, endpos))
            return
        pos, endpos = self._b(s, pos, endpos)
        i, notempty = pos, False
        while i <= endpos:
            m = self._run(s, i, endpos, notempty=notempty)
            if m is None:
                i += 1
                notempty = False
                continue
            yield m
            if m.end() == m.start():
                # an empty match: next try a nonempty one at same position
                notempty = True
                i = m.end()
            else:
                i = m.end()
                notempty = False

    def findall(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return self.real.findall(s, *self._b(s, pos, endpos))
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, s, count=0):
        def issym(x):
            return type(x) is SymStr
        if type(s) is not SymStr and not issym(repl) and not callable(repl):
            return self.real.subn(repl, s, count)
        if type(s) is not SymStr:
            it = self.real.finditer(s)
        else:
            it = self.finditer(s)
        out, last, n = [], 0, 0
        for m in it:
            if count and n >= count:
                break
            if m.start() == m.end() and n and m.start() == last \
                    and False:
                continue
            out.append(s[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            elif isinstance(m, SymMatch):
                out.append(expand(m, repl))
            else:
                out.append(m.expand(_conc(repl)))
            last = m.end()
            n += 1
        out.append(s[last:])
        return sxjoin('', out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def scanner(self, s):
        return self.real.scanner(_conc(s))

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)


Pattern = SymPattern


class BytesMatch:
    """Match of a bytes pattern with partly symbolic bytes."""
    def __init__(self, m):
        self.m = m

    def group(self, *args):
        return frombytestr(self.m.group(*args))

    def groups(self, *args):
        return frombytestr(self.m.groups(*args))

    def __getitem__(self, g):
        return self.group(g)

    def __getattr__(self, name):
        if name not in ('start', 'end', 'span', 'pos', 'endpos', 'lastindex'):
            raise AttributeError(name)
        return getattr(self.m, name)


class BytesPattern:
    """A pattern for bytes; characters stand for single bytes."""
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self.sym = SymPattern(pattern.decode('latin-1'),
                (flags & ~_re.U) | _re.A)

    def _call(self, name, s, args):
        s = getattr(s, 'contents', s)
        if not isinstance(s, SymBytes):
            return getattr(self.real, name)(s, *args)
        return getattr(self.sym, name)(s.latin1(), *args)

    def _match(self, name, s, args):
        m = self._call(name, s, args)
        return m if m is None or isinstance(m, _re.Match) else BytesMatch(m)

    def match(self, s, *args):
        return self._match('match', s, args)

    def search(self, s, *args):
        return self._match('search', s, args)

    def fullmatch(self, s, *args):
        return self._match('fullmatch', s, args)

    def finditer(self, s, *args):
        for m in self._call('finditer', s, args):
            yield m if isinstance(m, _re.Match) else BytesMatch(m)

    def findall(self, s, *args):
        return frombytestr(self._call('findall', s, args))

    def __eq__(self, o):
        return isinstance(o, BytesPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)
