"""Proxy values: symbolic booleans, integers, reals and strings."""
import z3
from . import core
from .core import SymHash, Inconclusive


def zbool(x):
    """Python value / SymBool -> z3 Bool or Python bool."""
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def znot(e):
    if e is True:
        return False
    if e is False:
        return True
    return z3.Not(e)


def zand(es):
    out = []
    for e in es:
        if e is True:
            continue
        if e is False:
            return False
        out.append(e)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def zor(es):
    out = []
    for e in es:
        if e is False:
            continue
        if e is True:
            return True
        out.append(e)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


class SymBool:
    __slots__ = ('e', )
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.ENG.branch(self.e)

    def __and__(self, o):
        if isinstance(o, bool) or type(o) is SymBool:
            return mkbool(zand([self.e, zbool(o)]))
        return bool(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool) or type(o) is SymBool:
            return mkbool(zor([self.e, zbool(o)]))
        return bool(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return mkbool(self.e if o else z3.Not(self.e))
        return bool(self) == o

    def __ne__(self, o):
        return mkbool(znot(zbool(self == o)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return bool(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return bool(self) - o

    def __rsub__(self, o):
        return o - bool(self)

    def __mul__(self, o):
        return bool(self) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return bool(self) < o

    def __gt__(self, o):
        return bool(self) > o

    def __le__(self, o):
        return bool(self) <= o

    def __ge__(self, o):
        return bool(self) >= o

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def _bnd(a, op, b):
    if a is None or b is None:
        return None
    return op(a, b)


class SymInt:
    """Unbounded Python integer (z3 Int) with optional interval bounds."""
    __slots__ = ('e', 'lo', 'hi')
    __class__ = property(lambda self: int)

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    @staticmethod
    def lift(o):
        t = type(o)
        if t is SymInt:
            return o
        if t is int or t is bool:
            return SymInt(z3.IntVal(int(o)), int(o), int(o))
        if t is SymBool:
            return SymInt(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        return None

    def _un(self, o):
        return SymInt.lift(o)

    def __add__(self, o):
        if type(o) is SymReal or type(o) is float:
            return SymReal(z3.ToReal(self.e)) + o
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        return mkint(self.e + o.e, _bnd(self.lo, int.__add__, o.lo),
                _bnd(self.hi, int.__add__, o.hi))
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymReal or type(o) is float:
            return SymReal(z3.ToReal(self.e)) - o
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        return mkint(self.e - o.e, _bnd(self.lo, int.__sub__, o.hi),
                _bnd(self.hi, int.__sub__, o.lo))

    def __rsub__(self, o):
        if type(o) is float:
            return o - SymReal(z3.ToReal(self.e))
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        return o - self

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi,
                None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        t = type(o)
        if t is SymReal or t is float:
            return SymReal(z3.ToReal(self.e)) * o
        if t in (list, tuple, str):
            return o * self.__index__()
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        lo = hi = None
        if None not in (self.lo, self.hi, o.lo, o.hi):
            c = [a * b for a in (self.lo, self.hi) for b in (o.lo, o.hi)]
            lo, hi = min(c), max(c)
        return mkint(self.e * o.e, lo, hi)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.e))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:  # z3 div floors for positive divisors
            return mkint(self.e / o,
                    None if self.lo is None else self.lo // o,
                    None if self.hi is None else self.hi // o)
        return self.__index__() // o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e % o, 0, o - 1)
        return self.__index__() % o

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> o

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def _cmp(self, o, op):
        if type(o) is SymReal or type(o) is float:
            return getattr(SymReal(z3.ToReal(self.e)), op)(o)
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if op == '__eq__':
            if None not in (self.lo, o.hi) and self.lo > o.hi:
                return False
            if None not in (self.hi, o.lo) and self.hi < o.lo:
                return False
            return mkbool(self.e == o.e)
        if op == '__lt__':
            if None not in (self.hi, o.lo) and self.hi < o.lo:
                return True
            if None not in (self.lo, o.hi) and self.lo >= o.hi:
                return False
            return mkbool(self.e < o.e)
        if None not in (self.hi, o.lo) and self.hi <= o.lo:
            return True
        if None not in (self.lo, o.hi) and self.lo > o.hi:
            return False
        return mkbool(self.e <= o.e)

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        r = self._cmp(o, '__eq__')
        if r is NotImplemented:
            return r
        return mkbool(znot(zbool(r)))

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        r = self._cmp(o, '__le__')
        if r is NotImplemented:
            return r
        return mkbool(znot(zbool(r)))

    def __ge__(self, o):
        r = self._cmp(o, '__lt__')
        if r is NotImplemented:
            return r
        return mkbool(znot(zbool(r)))

    def __bool__(self):
        return bool(self != 0)

    def concretize(self):
        if self.lo is None or self.hi is None or self.hi - self.lo > 4096:
            raise Inconclusive('concretizing unbounded integer')
        return core.ENG.choose(self.e, range(self.lo, self.hi + 1))

    def __index__(self):
        return self.concretize()
    __int__ = __index__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        raise SymHash()

    def bit_length(self):
        return self.concretize().bit_length()

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkint(e, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    return SymInt(e, lo, hi)


class SymReal:
    """Real number standing in for a float (rounding is not modelled)."""
    __slots__ = ('e', )
    __class__ = property(lambda self: float)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(o):
        t = type(o)
        if t is SymReal:
            return o.e
        if t is int or t is bool:
            return z3.RealVal(int(o))
        if t is float:
            if o != o or o in (float('inf'), float('-inf')):
                return None
            from fractions import Fraction
            return z3.RealVal(Fraction(o))
        if t is SymInt:
            return z3.ToReal(o.e)
        if t is SymBool:
            return z3.If(o.e, z3.RealVal(1), z3.RealVal(0))
        return None

    def _bin(self, o, f):
        if type(o) is float and o in (float('inf'), float('-inf')):
            # arithmetic with infinity: only + and - occur
            return f(0.0, o)
        oe = SymReal.lift(o)
        if oe is None:
            return NotImplemented
        return SymReal(f(self.e, oe))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is float and o in (float('inf'), float('-inf')):
            raise Inconclusive('symbolic real times infinity')
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if self == 0:
            raise ZeroDivisionError('float division by zero')
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f):
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        oe = SymReal.lift(o)
        if oe is None:
            return NotImplemented
        return mkbool(f(self.e, oe))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise SymHash()

    def __float__(self):
        raise Inconclusive('concretizing a symbolic real')

    def __repr__(self):
        return 'SymReal(%s)' % self.e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


LOGBOUNDS = {}  # id of term => (term, lower, upper bound of its logarithm)


def logbounds(e):
    return LOGBOUNDS.get(e.get_id(), (e, None, None))[1:]


def _prod(factors):
    if not factors:
        return z3.RealVal(1)
    result = factors[0]
    for a in factors[1:]:
        result = result * a
    return result


class SymLog:
    """Logarithm of a symbolic positive real: log(k * num / den) + c.
    Sums are represented as products; comparisons as comparisons of products
    (the logarithm is monotonic), so that there is no transcendental
    function left for the solver."""
    __slots__ = ('k', 'num', 'den', 'c')
    __class__ = property(lambda self: float)

    def __init__(self, k, num=(), den=(), c=0.0):
        self.k, self.num, self.den, self.c = k, num, den, c

    @staticmethod
    def of(x):
        """Logarithm of x, a number or a SymReal."""
        from fractions import Fraction
        if type(x) is SymReal:
            e = x.e
            if z3.is_rational_value(e):
                return SymLog(e.as_fraction())
            return SymLog(Fraction(1), (e, ))
        return SymLog(Fraction(x))

    def exp(self):
        from fractions import Fraction
        import math
        k = self.k
        if self.c:
            k = k * Fraction(math.exp(self.c))
        if not self.num and not self.den:
            return SymReal(z3.RealVal(k))
        e = _prod(self.num)
        if self.den:
            e = e / _prod(self.den)
        if k != 1:
            e = z3.RealVal(k) * e
        lo, hi = self.bounds()
        LOGBOUNDS[e.get_id()] = (e, lo, hi)
        return SymReal(e)

    def bounds(self):
        import math
        lo = hi = _log(self.k) + self.c
        for a in self.num:
            x, y = logbounds(a)
            lo = None if lo is None or x is None else lo + x
            hi = None if hi is None or y is None else hi + y
        for a in self.den:
            x, y = logbounds(a)
            lo = None if lo is None or y is None else lo - y
            hi = None if hi is None or x is None else hi - x
        return lo, hi

    def __neg__(self):
        return SymLog(1 / self.k, self.den, self.num, -self.c)

    def __pos__(self):
        return self

    def __add__(self, o):
        t = type(o)
        if t is float and o in (float('inf'), float('-inf')):
            return o
        if t is int or t is float:
            return SymLog(self.k, self.num, self.den, self.c + o)
        if t is not SymLog:
            return NotImplemented
        num, den = list(self.num), list(self.den)
        for a in o.num:
            _cancel(a, den, num)
        for a in o.den:
            _cancel(a, num, den)
        return SymLog(self.k * o.k, tuple(num), tuple(den), self.c + o.c)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) not in (int, float, SymLog):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) in (int, float) and o == 1:
            return self
        if self.num or self.den:
            raise Inconclusive('multiplication of symbolic logarithm')
        return float(self) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.num or self.den:
            raise Inconclusive('division of symbolic logarithm')
        return float(self) / o

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f):
        t = type(o)
        if t is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        if t not in (int, float, SymLog):
            return NotImplemented
        d = self - o
        if not d.num and not d.den:
            if d.c == 0:
                return f(d.k, 1)
            return f(_log(d.k) + d.c, 0.0)
        lo, hi = d.bounds()
        if lo is not None and lo > 1e-9:
            return f(1, 0)
        if hi is not None and hi < -1e-9:
            return f(-1, 0)
        from fractions import Fraction
        import math
        k = d.k
        if d.c:
            k = k * Fraction(math.exp(d.c))
        return mkbool(f(z3.RealVal(k) * _prod(d.num), _prod(d.den)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise SymHash()

    def __float__(self):
        if self.num or self.den:
            raise Inconclusive('concretizing a symbolic logarithm')
        return _log(self.k) + self.c

    def __repr__(self):
        return 'SymLog(%s * %s / %s, %s)' % (self.k, self.num, self.den,
                self.c)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _log(k):
    import math
    return math.log(k.numerator) - math.log(k.denominator)


def _cancel(a, other, same):
    for n, b in enumerate(other):
        if a.eq(b):
            del other[n]
            return
    same.append(a)


# --- strings ---------------------------------------------------------------

class SymChar:
    """A character: integer term with a finite domain of code points."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e, self.dom = e, dom  # dom: tuple of 1-char strings

    def member(self, pred):
        """Condition that pred (function of a concrete char) holds."""
        yes = [c for c in self.dom if pred(c)]
        if not yes:
            return False
        if len(yes) == len(self.dom):
            return True
        if len(yes) <= len(self.dom) // 2 + 1:
            return zor([self.e == ord(c) for c in yes])
        return znot(zor([self.e == ord(c) for c in self.dom
                if c not in yes]))

    def map(self, f):
        """Apply char->char function."""
        new = {c: f(c) for c in self.dom}
        if any(len(v) != 1 for v in new.values()):
            raise Inconclusive('character mapping changes length')
        if all(k == v for k, v in new.items()):
            return self
        e = self.e
        for c, v in new.items():
            if c != v:
                e = z3.If(self.e == ord(c), z3.IntVal(ord(v)), e)
        return SymChar(e, tuple(sorted(set(new.values()))))


def chareq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        if b not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return a.e == ord(b)
    if a.e.get_id() == b.e.get_id():
        return True
    if not set(a.dom) & set(b.dom):
        return False
    return a.e == b.e


def charlt(a, b):
    ea = z3.IntVal(ord(a)) if type(a) is str else a.e
    eb = z3.IntVal(ord(b)) if type(b) is str else b.e
    if type(a) is str and type(b) is str:
        return a < b
    return ea < eb


def chars(s):
    """Sequence of characters of str or SymStr."""
    if type(s) is SymStr:
        return s.cs
    if isinstance(s, str):
        return tuple(s)
    raise TypeError('expected str instance, %s found' % type(s).__name__)


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if type(c) is not str:
            return SymStr(cs)
    return ''.join(cs)


def isstr(x):
    return type(x) is SymStr or isinstance(x, str)


def streq(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        e = chareq(x, y)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return zand(out)


def decide(e):
    if e is True or e is False:
        return e
    return core.ENG.branch(e)


def iswhite(c):
    return c.isspace()


class SymStr:
    """String of concrete length with symbolic characters."""
    __slots__ = ('cs', )
    __class__ = property(lambda self: str)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield c if type(c) is str else SymStr((c, ))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and type(i.step) is not int:
                i = slice(i.start, i.stop, i.step.__index__())
            return mkstr(self.cs[i])
        return mkstr((self.cs[i], ))

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(streq(self, o))

    def __ne__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(znot(streq(self, o)))

    def __hash__(self):
        raise SymHash()

    def _lt(self, o, orequal):
        a, b = self.cs, chars(o)
        # lexicographic
        e = (len(a) <= len(b)) if orequal else (len(a) < len(b))
        for x, y in reversed(list(zip(a, b))):
            lt = charlt(x, y)
            eq = chareq(x, y)
            e = zor([lt, zand([eq, e])])
        return e

    def __lt__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(self._lt(o, False))

    def __le__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(self._lt(o, True))

    def __gt__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(znot(self._lt(o, True)))

    def __ge__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(znot(self._lt(o, False)))

    def __bool__(self):
        return len(self.cs) > 0

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        from .strfmt import percentformat
        return percentformat(self, args)

    def __contains__(self, o):
        return decide(self._containscond(o))

    def _matchat(self, o, i):
        return streq(mkstr(self.cs[i:i + len(o)]), o)

    def _containscond(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        return zor([self._matchat(o, i)
                for i in range(len(self.cs) - len(o) + 1)])

    def __repr__(self):
        raise Inconclusive('repr of symbolic string')

    def __str__(self):
        # only reached from uninstrumented code: concretize by forking
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def concretize(self):
        return ''.join(c if type(c) is str
                else chr(core.ENG.choose(c.e, [ord(x) for x in c.dom]))
                for c in self.cs)

    # -- str API --
    def _slicebounds(self, start, end):
        n = len(self.cs)
        a, b, _ = slice(start, end).indices(n)
        return a, b

    def find(self, sub, start=None, end=None):
        a, b = self._slicebounds(start, end)
        for i in range(a, b - len(sub) + 1):
            if decide(self._matchat(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        a, b = self._slicebounds(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if decide(self._matchat(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        a, b = self._slicebounds(start, end)
        if len(sub) == 0:
            return b - a + 1
        n, i = 0, a
        while i <= b - len(sub):
            if decide(self._matchat(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.startswith(x, start, end) for x in p)
        a, b = self._slicebounds(start, end)
        if len(p) > b - a:
            return False
        return mkbool(self._matchat(p, a))

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return any(self.endswith(x, start, end) for x in p)
        a, b = self._slicebounds(start, end)
        if len(p) > b - a:
            return False
        return mkbool(self._matchat(p, b - len(p)))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._splitwhite(maxsplit)
        if len(sep) == 0:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        n = len(self.cs)
        while i <= n - len(sep) and (maxsplit < 0 or len(out) < maxsplit):
            if decide(self._matchat(sep, i)):
                out.append(mkstr(self.cs[last:i]))
                i += len(sep)
                last = i
            else:
                i += 1
        out.append(mkstr(self.cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out = []
        if sep is None:
            # split from the right on whitespace
            j = len(self.cs)
            while True:
                while j > 0 and self._white(j - 1):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    out.append(mkstr(self.cs[:j]))
                    break
                i = j
                while i > 0 and not self._white(i - 1):
                    i -= 1
                out.append(mkstr(self.cs[i:j]))
                j = i
            return out[::-1]
        end, i = len(self.cs), len(self.cs) - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if decide(self._matchat(sep, i)):
                out.append(mkstr(self.cs[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mkstr(self.cs[:end]))
        return out[::-1]

    def _test(self, i, pred):
        c = self.cs[i]
        if type(c) is str:
            return pred(c)
        return decide(c.member(pred))

    def _white(self, i):
        return self._test(i, iswhite)

    def _splitwhite(self, maxsplit=-1):
        out, i, n = [], 0, len(self.cs)
        while True:
            while i < n and self._white(i):
                i += 1
            if i == n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(mkstr(self.cs[i:]))
                break
            j = i
            while j < n and not self._white(j):
                j += 1
            out.append(mkstr(self.cs[i:j]))
            i = j
        return out

    def splitlines(self, keepends=False):
        out, last, i, n = [], 0, 0, len(self.cs)

        def isnl(c):
            return len(('a' + c).splitlines()[0]) == 1 and len(c) == 1
        while i < n:
            if self._test(i, isnl):
                j = i + 1
                if (j < n and self._test(i, lambda c: c == '\r')
                        and self._test(j, lambda c: c == '\n')):
                    j += 1
                out.append(mkstr(self.cs[last:j if keepends else i]))
                i = last = j
            else:
                i += 1
        if last < n:
            out.append(mkstr(self.cs[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i == -1:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def replace(self, old, new, count=-1):
        if len(old) == 0:
            raise Inconclusive('replace of empty string')
        out, i, n, k = [], 0, len(self.cs), 0
        while i < n:
            if (i + len(old) <= n and (count < 0 or k < count)
                    and decide(self._matchat(old, i))):
                out.extend(chars(new))
                i += len(old)
                k += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def _instrip(self, i, what):
        if what is None:
            return self._white(i)
        c = mkstr((self.cs[i], ))
        return decide(zor([chareq(self.cs[i], x) for x in chars(what)])
                ) if c is not None else False

    def lstrip(self, what=None):
        i = 0
        while i < len(self.cs) and self._instrip(i, what):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, what=None):
        j = len(self.cs)
        while j > 0 and self._instrip(j - 1, what):
            j -= 1
        return mkstr(self.cs[:j])

    def strip(self, what=None):
        r = self.lstrip(what)
        return r.rstrip(what)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def join(self, items):
        items = list(items)
        out = []
        for n, a in enumerate(items):
            if n:
                out.extend(self.cs)
            if not isstr(a):
                raise TypeError('sequence item %d: expected str instance, '
                        '%s found' % (n, type(a).__name__))
            out.extend(chars(a))
        return mkstr(out)

    def _map(self, f):
        return mkstr(f(c) if type(c) is str else c.map(f) for c in self.cs)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return (mkstr(self.cs[:1])._map(str.upper)
                if type(self.cs[0]) is not str
                else self.cs[0].upper()) + mkstr(SymStr(self.cs[1:]
                )._map(str.lower))

    def title(self):
        raise Inconclusive('title() of symbolic string')

    def casefold(self):
        return self._map(str.casefold)

    def _all(self, pred):
        if not self.cs:
            return False
        return mkbool(zand([pred(c) if type(c) is str else c.member(pred)
                for c in self.cs]))

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii)

    def isidentifier(self):
        return self.concretize().isidentifier()

    def isprintable(self):
        return self._all(str.isprintable)

    def _anycased(self, pred):
        return mkbool(zor([pred(c) if type(c) is str else c.member(pred)
                for c in self.cs]))

    def isupper(self):
        return mkbool(zand([zbool(self._anycased(str.isupper)),
                znot(zbool(self._anycased(str.islower)))]))

    def islower(self):
        return mkbool(zand([zbool(self._anycased(str.islower)),
                znot(zbool(self._anycased(str.isupper)))]))

    def istitle(self):
        return self.concretize().istitle()

    def ljust(self, w, fill=' '):
        return self + fill * (w - len(self.cs))

    def rjust(self, w, fill=' '):
        return fill * (w - len(self.cs)) + self

    def center(self, w, fill=' '):
        n = len(self.cs)
        if w <= n:
            return self
        d = 'x' * n
        c = d.center(w, fill)
        # position of left padding as computed by str.center
        pad = w - n
        left = pad // 2 + (pad & w & 1)
        assert len(c) == w
        return fill * left + self + fill * (pad - left)

    def zfill(self, w):
        return self.concretize().zfill(w)

    def expandtabs(self, tabsize=8):
        return self.concretize().expandtabs(tabsize)

    def translate(self, table):
        out = []
        for c in self.cs:
            if type(c) is str:
                out.extend(c.translate(table))
                continue
            vals = {x: x.translate(table) for x in c.dom}
            if all(len(v) == 1 for v in vals.values()):
                out.append(c.map(lambda x: vals[x]))
            else:
                out.extend(chr(core.ENG.choose(c.e,
                        [ord(x) for x in c.dom])).translate(table))
        return mkstr(out)

    def encode(self, encoding='utf-8', errors='strict'):
        if SYMBYTES and all(type(c) is str and c < '\x80'
                or type(c) is SymChar and all(x < '\x80' for x in c.dom)
                for c in chars(self)):
            return SymBytes(c if type(c) is SymChar else ord(c)
                    for c in chars(self))
        return self.concretize().encode(encoding, errors)

    def format(self, *a, **k):
        return self.concretize().format(*a, **k)


SYMBYTES = False  # set for checks that ask for it


class SymBytes:
    """Encoded text: ASCII characters, some of which symbolic, and bytes."""
    __slots__ = ('cells', )

    def __init__(self, cells):
        self.cells = list(cells)

    def __len__(self):
        return len(self.cells)

    def latin1(self):
        """A string with one character for each byte."""
        return mkstr([c if type(c) is SymChar else chr(c)
                for c in self.cells])

    def decode(self, encoding='utf-8', errors='strict'):
        out, run = [], bytearray()
        for c in self.cells:
            if type(c) is SymChar:
                out.extend(bytes(run).decode(encoding, errors))
                out.append(c)
                run = bytearray()
            else:
                run.append(c)
        out.extend(bytes(run).decode(encoding, errors))
        return mkstr(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tobytes(self.cells[i])
        c = self.cells[i]
        if type(c) is not SymChar:
            return c
        ds = [ord(x) for x in c.dom]
        return SymInt(c.e, min(ds), max(ds))

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __add__(self, o):
        return tobytes(self.cells + bytecells(o))

    def __radd__(self, o):
        return tobytes(bytecells(o) + self.cells)

    def __contains__(self, o):
        return bytestr(o) in self.latin1()

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        return self.latin1() == bytestr(o)

    def __ne__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        return self.latin1() != bytestr(o)

    def __hash__(self):
        raise SymHash()

    def __getattr__(self, name):
        if name not in ('count', 'find', 'rfind', 'index', 'startswith',
                'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'isspace',
                'replace', 'splitlines', 'rsplit', 'partition'):
            raise AttributeError(name)

        def call(*args):
            x = self.latin1()
            return frombytestr(getattr(x, name)(*[bytestr(a) for a in args]))
        return call


def bytecells(x):
    return x.cells if isinstance(x, SymBytes) else list(x)


def bytestr(x):
    """String with one character for each byte; other arguments unchanged."""
    if isinstance(x, SymBytes):
        return x.latin1()
    return x.decode('latin-1') if isinstance(x, (bytes, bytearray)) else x


def tobytes(cells):
    """Concrete bytes if possible."""
    if any(type(c) is SymChar for c in cells):
        return SymBytes(cells)
    return bytes(cells)


def frombytestr(x):
    """Inverse of bytestr; also for lists and tuples."""
    if isinstance(x, (list, tuple)):
        return type(x)(frombytestr(a) for a in x)
    if type(x) is str:
        return x.encode('latin-1')
    if type(x) is SymStr:
        return SymBytes(c if type(c) is SymChar else ord(c) for c in chars(x))
    return x


def textbytes(x):
    """Text to bytes in UTF-8."""
    if type(x) is str:
        return x.encode('utf8')
    cells = []
    for c in chars(x):
        if type(c) is SymChar:
            if not all(a < '\x80' for a in c.dom):
                raise core.Inconclusive('encoding of symbolic character')
            cells.append(c)
        else:
            cells.extend(c.encode('utf8'))
    return SymBytes(cells)


def symbolic(x, depth=4):
    """Does x contain a symbolic value (looking into tuples)?"""
    t = type(x)
    if t in (str, int, float, bool, type(None)):
        return False
    if t in (SymStr, SymInt, SymReal, SymBool):
        return True
    if depth and isinstance(x, tuple) and t is not SymStr:
        return any(symbolic(a, depth - 1) for a in x)
    return False
