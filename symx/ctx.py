"""Harness contexts: the same harness runs symbolically and concretely."""


class Skip(Exception):
    """Concrete run: an assumption does not hold."""


class ConcreteViolation(Exception):
    pass


def enc(v):
    """JSON encoding of concrete values."""
    from fractions import Fraction
    if isinstance(v, Fraction):
        return {'frac': [v.numerator, v.denominator]}
    return v


def dec(v):
    from fractions import Fraction
    if isinstance(v, dict) and 'frac' in v:
        return float(Fraction(*v['frac']))
    return v


class ConcreteCtx:
    """Inputs come from a recorded assignment; modules are the real ones."""
    symbolic = False

    def __init__(self, values, params=None):
        self.values = values
        self.params = params or {}
        self.counters = {}
        self.observed = []
        self.reached = set()

    def _get(self, name, default):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        name = name if n == 0 else '%s#%d' % (name, n)
        return dec(self.values.get(name, default))

    def mod(self, short):
        import importlib
        return importlib.import_module('discodop.' + short)

    def choice(self, name, n):
        return self._get(name, 0)

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def bool(self, name):
        return self._get(name, False)
    flag = bool

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bv(self, name, width):
        return self._get(name, 0)

    def neglog(self, p):
        import math
        return -math.log(p)

    def prob(self, name, lo):
        return self.real(name, lo, 1)

    def real(self, name, lo=None, hi=None):
        v = self._get(name, 0.0 if lo is None else lo)
        return float(v)

    def string(self, name, alphabet, lo, hi):
        return self._get(name, alphabet[0] * lo)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, msg):
        if not cond:
            raise ConcreteViolation(msg)

    def fail(self, msg):
        raise ConcreteViolation(msg)

    def observe(self, *vals):
        self.observed.append(plain(vals))

    def reach(self, tag):
        self.reached.add(tag)

    def reader(self, cls, lines, **kwargs):
        """Corpus reader (class name) for a file with the given lines."""
        import tempfile
        import os
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, 'corpus')
            with open(path, 'w', encoding='utf8', newline='') as out:
                out.write(''.join(lines))
            r = getattr(self.mod('treebank'), cls)(path, **kwargs)
            # read everything while the file exists
            try:
                blocks = list(r._read_blocks())
            except ValueError as err:
                r._failed = err
                return r
            r._read_blocks = lambda: iter(blocks)
            return r

    def file(self, name, text=None, encoding='utf8'):
        """Name of a file in a scratch directory; optionally with text."""
        import tempfile
        import os
        if not hasattr(self, 'tmp'):
            self.tmp = tempfile.TemporaryDirectory()
        path = os.path.join(self.tmp.name, name)
        if text is not None:
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if text is not None:
            with open(path, 'w', encoding=encoding, newline='') as out:
                out.write(text)
        return path

    def touch(self, path, t):
        """Set modification time of file."""
        import os
        os.utime(path, (t, t))

    def futures(self, choose):
        """Run jobs submitted to a pool at once, completing them in the order
        determined by choose(n)."""
        import concurrent.futures as mod
        from .futures import Futures
        Futures.choose = staticmethod(choose)
        mod.ThreadPoolExecutor = mod.ProcessPoolExecutor = Futures.Executor
        mod.as_completed = Futures.as_completed

    def filetext(self, path, encoding='utf8'):
        import gzip
        opener = gzip.open if path.endswith('.gz') else open
        with opener(path, 'rt', encoding=encoding, newline='') as inp:
            return inp.read()

    def stdout(self, fn):
        """Call fn and return what it prints."""
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fn()
        return out.getvalue()

    def hash(self, x):
        return hash(x)

    def dict(self, items=()):
        return dict(items)

    def str(self, x):
        return str(x)

    def repr(self, x):
        return repr(x)

    def And(self, *conds):
        return all(conds)

    def Or(self, *conds):
        return any(conds)

    def Not(self, cond):
        return not cond

    def If(self, c, a, b):
        return a if c else b


def plain(v):
    """Normalise an observed value to JSON-able structure."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return '%.6g' % v
    if isinstance(v, (list, tuple)):
        return [plain(a) for a in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(a) for a in v), key=repr)
    if isinstance(v, dict):
        return [[plain(a), plain(b)] for a, b in v.items()]
    return type(v).__name__


class SymCtx:
    symbolic = True

    def __init__(self, engine, universe, params=None):
        self.e, self.u = engine, universe
        self.params = params or {}
        from . import instrument, futures
        instrument.MTIMES.clear()
        futures.Futures.choose = None

    def mod(self, short):
        return self.u.get(short)

    def choice(self, name, n):
        """A structural choice from range(n), explored by forking."""
        import z3
        name = self.e.name(name)
        if n == 1:
            self.e.inputs[name] = lambda m: 0
            return 0
        v = z3.Int(name)
        self.e.assume(z3.And(v >= 0, v < n), fresh=True)
        val = self.e.choose(v, range(n))
        self.e.inputs[name] = lambda m: val
        return val

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def bool(self, name):
        """Boolean that is only forked on when the code inspects it."""
        import z3
        from .values import SymBool
        name = self.e.name(name)
        v = z3.Bool(name)
        self.e.inputs[name] = lambda m: z3.is_true(
                m.eval(v, model_completion=True))
        return SymBool(v)

    def flag(self, name):
        return bool(self.bool(name))

    def int(self, name, lo, hi):
        import z3
        from .values import mkint
        if lo == hi:
            return lo
        name = self.e.name(name)
        v = z3.Int(name)
        self.e.assume(z3.And(v >= lo, v <= hi), fresh=True)
        self.e.inputs[name] = lambda m: m.eval(v,
                model_completion=True).as_long()
        return mkint(v, lo, hi)

    def bv(self, name, width):
        import z3
        from .cyrt import SymBV
        name = self.e.name(name)
        v = z3.BitVec(name, width)
        self.e.inputs[name] = lambda m: m.eval(v,
                model_completion=True).as_long()
        return SymBV(v, False)

    def real(self, name, lo=None, hi=None):
        import z3
        from fractions import Fraction
        from .values import SymReal
        name = self.e.name(name)
        v = z3.Real(name)
        cs = []
        if lo is not None:
            cs.append(v >= z3.RealVal(Fraction(lo)))
        if hi is not None:
            cs.append(v <= z3.RealVal(Fraction(hi)))
        if cs:
            self.e.assume(z3.And(cs), fresh=True)

        def val(m):
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        self.e.inputs[name] = val
        return SymReal(v)

    def neglog(self, p):
        """Cost -log(p) of a probability (a number or result of real())."""
        from .values import SymLog
        return -SymLog.of(p)

    def prob(self, name, lo):
        """A symbolic probability: lo <= p <= 1."""
        import math
        from .values import LOGBOUNDS
        p = self.real(name, lo, 1)
        LOGBOUNDS[p.e.get_id()] = (p.e, math.log(lo), 0.0)
        return p

    def string(self, name, alphabet, lo, hi):
        """String over alphabet with lo <= length <= hi."""
        import z3
        from .values import SymChar, mkstr
        name = self.e.name(name)
        n = lo
        if hi > lo:
            ln = z3.Int(name + '.len')
            self.e.assume(z3.And(ln >= lo, ln <= hi), fresh=True)
            n = self.e.choose(ln, range(lo, hi + 1))
        dom = tuple(sorted(set(alphabet)))
        if len(dom) == 1:
            val = dom[0] * n
            self.e.inputs[name] = lambda m: val
            return val
        cs = []
        cons = []
        for i in range(n):
            c = z3.Int('%s.%d' % (name, i))
            cons.append(ranges(c, dom))
            cs.append(SymChar(c, dom))
        if cons:
            self.e.assume(z3.And(cons), fresh=True)
        self.e.inputs[name] = lambda m: ''.join(
                chr(m.eval(c.e, model_completion=True).as_long())
                for c in cs)
        return mkstr(cs)

    def assume(self, cond):
        from .values import zbool
        self.e.assume(zbool(cond))

    def check(self, cond, msg):
        from .values import zbool
        self.e.check(zbool(cond), msg)

    def fail(self, msg):
        self.e.check(False, msg)

    def observe(self, *vals):
        self.e.observed.append(vals)

    def reach(self, tag):
        self.e.reached.add(tag)

    def reader(self, cls, lines, **kwargs):
        """As the concrete variant; opening the file is replaced."""
        mod = self.mod('treebank')

        class File:
            def __enter__(self):
                return iter(lines)

            def __exit__(self, *a):
                return False
        saved = mod.openread, mod.glob
        mod.openread = lambda *a, **kw: File()
        mod.glob = lambda p: [p]
        try:
            r = getattr(mod, cls)('corpus', **kwargs)
            try:
                blocks = list(r._read_blocks())
            except ValueError as err:
                r._failed = err
                return r
        finally:
            mod.openread, mod.glob = saved
        r._read_blocks = lambda: iter(blocks)
        return r

    def file(self, name, text=None, encoding='utf8'):
        from .instrument import FILEPREFIX, touch
        for a in list(self.u.files):
            if a == FILEPREFIX + name or a.startswith(FILEPREFIX + name + '/'):
                del self.u.files[a]
        if text is not None:
            self.u.files[FILEPREFIX + name] = text
            self.u.encodings[FILEPREFIX + name] = encoding
            touch(FILEPREFIX + name)
        return FILEPREFIX + name

    def touch(self, path, t):
        from .instrument import MTIMES
        MTIMES[path] = t

    def futures(self, choose):
        from .futures import Futures
        Futures.choose = staticmethod(choose)

    def filetext(self, path, encoding='utf8'):
        from .instrument import recode
        return recode(self.u.files[path], self.u.encodings.get(path),
                encoding)

    def stdout(self, fn):
        from . import instrument
        out = []
        instrument.STDOUT.append(out)
        try:
            fn()
        finally:
            instrument.STDOUT.pop()
        text = ''
        for a in out:
            text = text + a
        return text

    def dict(self, items=()):
        from .instrument import SxDict
        return SxDict(items)

    def hash(self, x):
        from .instrument import sxhash
        return sxhash(x)

    def str(self, x):
        from .strfmt import sxstr
        return sxstr(x)

    def repr(self, x):
        from .strfmt import sxrepr
        return sxrepr(x)

    def And(self, *conds):
        from .values import zand, zbool, mkbool
        return mkbool(zand([zbool(a) for a in conds]))

    def Or(self, *conds):
        from .values import zor, zbool, mkbool
        return mkbool(zor([zbool(a) for a in conds]))

    def Not(self, cond):
        from .values import znot, zbool, mkbool
        return mkbool(znot(zbool(cond)))

    def If(self, c, a, b):
        """Non-forking conditional for numeric values."""
        import z3
        from .values import SymBool, SymInt, SymReal, zbool
        c = zbool(c)
        if c is True:
            return a
        if c is False:
            return b
        if (isinstance(a, (float, SymReal))
                or isinstance(b, (float, SymReal))):
            return SymReal(z3.If(c, SymReal.lift(a), SymReal.lift(b)))
        if 'SymBV' in (type(a).__name__, type(b).__name__):
            from .cyrt import bvif
            return bvif(c, a, b)
        a, b = SymInt.lift(a), SymInt.lift(b)
        lo = None if None in (a.lo, b.lo) else min(a.lo, b.lo)
        hi = None if None in (a.hi, b.hi) else max(a.hi, b.hi)
        return SymInt(z3.If(c, a.e, b.e), lo, hi)


def ranges(c, dom):
    """Membership of integer term in a set of code points, as intervals."""
    import z3
    pts = sorted(ord(a) for a in dom)
    out, start, prev = [], pts[0], pts[0]
    for p in pts[1:] + [None]:
        if p is not None and p == prev + 1:
            prev = p
            continue
        out.append(c == start if start == prev
                else z3.And(c >= start, c <= prev))
        start = prev = p
    return out[0] if len(out) == 1 else z3.Or(out)


def modelplain(v, m):
    """Evaluate an observed (possibly symbolic) value under model m."""
    import z3
    from .values import SymStr, SymInt, SymReal, SymLog, SymBool
    t = type(v)
    if t is SymStr:
        return ''.join(c if type(c) is str else chr(m.eval(c.e,
                model_completion=True).as_long()) for c in v.cs)
    if t is SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is SymReal:
        x = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        return '%.6g' % (x.numerator_as_long() / x.denominator_as_long())
    if t is SymLog:
        import math
        x = modelplain(v.exp(), m)
        return '%.6g' % math.log(float(x))
    if t.__name__ == 'SymBV':
        return v.modelvalue(m)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return '%.6g' % v
    if isinstance(v, (list, tuple)):
        return [modelplain(a, m) for a in v]
    if isinstance(v, (set, frozenset)):
        return sorted((modelplain(a, m) for a in v), key=repr)
    if isinstance(v, dict):
        return [[modelplain(a, m), modelplain(b, m)] for a, b in v.items()]
    return t.__name__
