"""Runtime for translated Cython code: fixed-width integers, pointers,
structs, and models of the C++ containers."""
import math
import z3
from . import core
from . import values
from .values import (SymBool, SymInt, SymReal, SymLog, SymStr, mkbool, zbool, znot,
        zand, zor)
INF = float('inf')


def _mk(e, w, signed):
    """Bit-vector term -> value; constants become Python ints."""
    e = z3.simplify(e) if e.num_args() == 0 or all(z3.is_bv_value(a)
            for a in e.children()) else e
    if z3.is_bv_value(e):
        return e.as_signed_long() if signed else e.as_long()
    return SymBV(e, signed)


class SymBV:
    """Machine integer.  Both operands of an operation have been converted to
    a common type by the translated code, except for Python ints that are
    known to be in range; shifts and bitwise operations wrap (the translated
    code converts explicitly)."""
    __slots__ = ('e', 'signed', 'w')
    __class__ = property(lambda self: int)

    def __init__(self, e, signed):
        self.e, self.signed, self.w = e, signed, e.size()

    # value lattice: choose the width in which an operation is exact
    def _other(self, o):
        t = type(o)
        if t is SymBV:
            return o
        if t is bool or t is int:
            o = int(o)
            w = max(1, o.bit_length() + (o < 0))
            if o < 0:
                return SymBV(z3.BitVecVal(o, w), True)
            return SymBV(z3.BitVecVal(o, w), False)
        if t is SymBool:
            return SymBV(z3.If(o.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)),
                    False)
        if t is SymInt:
            o = o.concretize()
            return self._other(o)
        return None

    def _ext(self, w):
        if w == self.w:
            return self.e
        if w < self.w:
            return z3.Extract(w - 1, 0, self.e)
        return (z3.SignExt if self.signed else z3.ZeroExt)(w - self.w, self.e)

    def _exact(self, o, extra):
        """Both operands in a signed width wide enough."""
        a = self.w + (not self.signed)
        b = o.w + (not o.signed)
        return max(a, b) + extra

    def __add__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if not self.signed and not o.signed:
            w = max(self.w, o.w) + 1
            return _mk(self._ext(w) + o._ext(w), w, False)
        w = self._exact(o, 1)
        return _mk(self._ext(w) + o._ext(w), w, True)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        w = self._exact(o, 1)
        return _mk(self._ext(w) - o._ext(w), w, True)

    def __rsub__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return o - self

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __mul__(self, o):
        if type(o) in (list, tuple, str):
            return o * self.__index__()
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self.signed or o.signed
        w = self.w + o.w + 1
        return _mk(self._ext(w) * o._ext(w), w, s)
    __rmul__ = __mul__

    def __invert__(self):
        if self.signed:
            return SymBV(~self.e, True)
        return SymBV(~self._ext(self.w + 1), True)

    def __and__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if not self.signed and not o.signed:
            w = min(self.w, o.w)
            return _mk(self._ext(w) & o._ext(w), w, False)
        if not self.signed:
            return _mk(self.e & o._ext(self.w), self.w, False)
        if not o.signed:
            return _mk(o.e & self._ext(o.w), o.w, False)
        w = max(self.w, o.w)
        return _mk(self._ext(w) & o._ext(w), w, True)
    __rand__ = __and__

    def _bit(self, o, f):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if not self.signed and not o.signed:
            w = max(self.w, o.w)
            return _mk(f(self._ext(w), o._ext(w)), w, False)
        w = self._exact(o, 0)
        return _mk(f(self._ext(w), o._ext(w)), w, True)

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if type(o) in (int, bool):
            if o == 0:
                return self
            return SymBV(z3.Concat(self.e, z3.BitVecVal(0, int(o))),
                    self.signed)
        o = self._other(o)
        if o.w > 8:  # amount fits a machine width
            o = SymBV(z3.Extract(7, 0, o.e), False)
        mx = min((1 << o.w) - 1, 64)
        w = self.w + mx
        return SymBV(self._ext(w) << o._ext(w), self.signed)

    def __rlshift__(self, o):
        return self._other(o) << self

    def __rshift__(self, o):
        if type(o) in (int, bool):
            if o >= self.w:
                if not self.signed:
                    return 0
                o = self.w - 1
            if o == 0:
                return self
            return SymBV(z3.Extract(self.w - 1, int(o), self.e), self.signed)
        o = self._other(o)
        # comparison of amount with width happens in the wider type
        w = max(self.w, o.w)
        if self.signed:
            r = self._ext(w) >> o._ext(w)
        else:
            r = z3.LShR(self._ext(w), o._ext(w))
        return SymBV(z3.Extract(self.w - 1, 0, r), self.signed)

    def __rrshift__(self, o):
        return self._other(o) >> self

    def _cmp(self, o, s, u):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if not self.signed and not o.signed:
            w = max(self.w, o.w)
            return mkbool(z3.simplify(u(self._ext(w), o._ext(w))))
        w = self._exact(o, 0)
        return mkbool(z3.simplify(s(self._ext(w), o._ext(w))))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(znot(zbool(r)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, z3.ULT)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, z3.ULE)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, z3.UGT)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, z3.UGE)

    def __bool__(self):
        return core.ENG.branch(self.e != 0)

    def __floordiv__(self, o):
        return self.__index__() // o

    def __mod__(self, o):
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        return self.__index__() % o

    def __truediv__(self, o):
        return self.__index__() / o

    def concretize(self):
        return concretebv(self)

    def __index__(self):
        return concretebv(self)
    __int__ = __index__

    def __float__(self):
        return float(concretebv(self))

    def bit_length(self):
        """Number of significant bits of a non-negative value."""
        if self.signed and core.ENG.branch(self.e < 0):
            return (-self).bit_length()
        r = z3.BitVecVal(0, 16)
        for i in range(self.w):
            r = z3.If(z3.Extract(i, i, self.e) == 1,
                    z3.BitVecVal(i + 1, 16), r)
        return SymBV(r, False)

    def __hash__(self):
        raise core.SymHash()

    def __repr__(self):
        return 'SymBV(%s)' % self.e

    def __str__(self):
        return str(concretebv(self))

    def __format__(self, spec):
        return format(concretebv(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def modelvalue(self, m):
        v = m.eval(self.e, model_completion=True)
        return v.as_signed_long() if self.signed else v.as_long()


def bvif(c, a, b):
    """Conditional expression over integers of which one is a bit vector."""
    one = a if type(a) is SymBV else b
    a, b = (x if type(x) is SymBV else one._other(x) for x in (a, b))
    signed = a.signed or b.signed
    w = max(a.w + (signed and not a.signed), b.w + (signed and not b.signed))
    return SymBV(z3.If(c, a._ext(w), b._ext(w)), signed)


def concretebv(x):
    """Fork over all feasible values (limited in number)."""
    # the candidates are only computed the first time this point is reached
    v = core.ENG.choose(x.e, _candidates(x))
    return v


def _candidates(x):
    eng = core.ENG
    out = []
    eng.solver.push()
    try:
        while eng._sat():
            v = x.modelvalue(eng.solver.model())
            out.append(v)
            if len(out) > 4096:
                raise core.Inconclusive('too many values of a machine integer')
            eng.solver.add(x.e != z3.BitVecVal(v, x.w))
    finally:
        eng.solver.pop()
    eng.model = None
    yield from sorted(out)


def _wrap(width, signed):
    mask = (1 << width) - 1
    top = 1 << (width - 1)

    def conv(x):
        t = type(x)
        if t is int or t is bool:
            x = int(x) & mask
            return x - (mask + 1) if signed and x & top else x
        if t is SymBV:
            if x.w == width and x.signed == signed:
                return x
            return _mk(x._ext(width), width, signed)
        if t is SymBool:
            return SymBV(z3.If(x.e, z3.BitVecVal(1, width),
                    z3.BitVecVal(0, width)), signed)
        if t is SymInt:
            lo, hi = (-top, top - 1) if signed else (0, mask)
            if (x.lo is not None and x.hi is not None and x.lo >= lo
                    and x.hi <= hi):
                return x
            return conv(x.concretize())
        if t is float:
            return conv(int(x))
        if t is SymReal or t is SymLog:
            raise core.Inconclusive('real to integer conversion')
        if x is None:
            raise TypeError('an integer is required')
        if isinstance(x, Ptr):
            return conv(id(x.c))
        return conv(int(x))
    return conv


def _frompy(width, signed):
    lo = -(1 << (width - 1)) if signed else 0
    hi = (1 << (width - signed)) - 1
    conv = _wrap(width, signed)

    def check(x):
        t = type(x)
        if t is int:
            if lo <= x <= hi:
                return x
            raise OverflowError('value too large to convert')
        if t is bool:
            return int(x)
        if t is SymInt:
            if x.lo is None or x.lo < lo:
                if x < lo:
                    raise OverflowError('value too large to convert')
            if x.hi is None or x.hi > hi:
                if x > hi:
                    raise OverflowError('value too large to convert')
            return x
        if t is SymBV:
            if x < lo or x > hi:
                raise OverflowError('value too large to convert')
            return conv(x)
        if t is SymBool:
            return conv(x)
        if t in (float, SymReal, SymLog, str) or x is None:
            raise TypeError('an integer is required')
        return check(x.__index__())
    return check


for _w in (8, 16, 32, 64):
    for _s, _c in ((True, 'i'), (False, 'u')):
        globals()['%s%d' % (_c, _w)] = _wrap(_w, _s)
        globals()['p_%s%d' % (_c, _w)] = _frompy(_w, _s)


def f64(x):
    if type(x) in (float, SymReal, SymLog):
        return x
    if type(x) in (int, bool):
        return float(x)
    if type(x) is SymInt:
        return SymReal(z3.ToReal(x.e))
    if type(x) is SymBool:
        return SymReal(SymReal.lift(x))
    return float(x)


def bint(x):
    t = type(x)
    if t is SymBool or t is bool:
        return x
    if t in (SymInt, SymReal, SymLog):
        return x != 0
    if t is SymBV:
        return mkbool(x.e != 0)
    return bool(x)


pybool = bint


def isfused(have, name):
    names = {'uint8_t': 'u8', 'uint16_t': 'u16', 'uint32_t': 'u32',
            'uint64_t': 'u64'}
    if isinstance(have, type):
        return have.__name__ == name
    return have == names.get(name, name)


def fcast(ft, x):
    if isinstance(ft, str):
        return globals()[ft if ft in globals() else 'u64'](x)
    return x


def cdiv(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise core.Violation('division by zero', core.ENG.getmodel())
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if type(a) is SymBV and type(b) is int and b > 0 and b & (b - 1) == 0 and not a.signed:
        return a >> (b.bit_length() - 1)
    if type(a) is SymInt and type(b) is int and b > 0 and a.lo is not None and a.lo >= 0:
        return a // b
    return cdiv(int(a), int(b))


def cmod(a, b):
    if type(a) is SymBV and type(b) is int and b > 0 and b & (b - 1) == 0 and not a.signed:
        return a & (b - 1)
    if type(a) is SymInt and type(b) is int and b > 0 and a.lo is not None and a.lo >= 0:
        return a % b
    a, b = int(a), int(b)
    return a - b * cdiv(a, b)


def fdiv(a, b):
    if type(b) in (int, float) and b == 0:
        if type(a) in (int, float):
            return float('nan') if a == 0 else math.copysign(INF, a)
        raise core.Inconclusive('symbolic division by zero')
    return a / b


# -- bit operations ---------------------------------------------------------
def _bvwidth(x, w=64):
    return x._ext(w) if type(x) is SymBV else z3.BitVecVal(x, w)


def bit_ctz(x):
    if type(x) is SymInt:
        x = x.concretize()
    if type(x) is int:
        if x == 0:
            return 64  # undefined in C; result of 'rep bsf' / tzcnt
        return (x & -x).bit_length() - 1
    if core.ENG.branch(x.e == 0):
        return 64
    e = _bvwidth(x)
    r = z3.BitVecVal(0, 32)
    n = z3.BitVecVal(0, 32)
    for k in (32, 16, 8, 4, 2, 1):
        low = z3.Extract(k - 1, 0, e)
        c = low == 0
        n = n + z3.If(c, z3.BitVecVal(k, 32), r)
        e = z3.If(c, z3.LShR(e, z3.BitVecVal(k, 64)), e)
    return SymBV(n, False)


def bit_clz(x):
    if type(x) is SymInt:
        x = x.concretize()
    if type(x) is int:
        if x == 0:
            undefined('count leading zeros of 0')
        return 64 - x.bit_length()
    if core.ENG.branch(x.e == 0):
        undefined('count leading zeros of 0')
    e = _bvwidth(x)
    n = z3.BitVecVal(0, 32)
    z = z3.BitVecVal(0, 32)
    for k in (32, 16, 8, 4, 2, 1):
        c = z3.Extract(63, 64 - k, e) == 0
        n = n + z3.If(c, z3.BitVecVal(k, 32), z)
        e = z3.If(c, e << z3.BitVecVal(k, 64), e)
    return SymBV(n, False)


def bit_popcount(x):
    if type(x) is SymInt:
        x = x.concretize()
    if type(x) is int:
        return bin(x).count('1')
    return SymBV(popcount(x.e, 32), False)


def popcount(e, w):
    """Balanced sum of the bits of a bit-vector term."""
    bits = [z3.ZeroExt(w - 1, z3.Extract(i, i, e)) for i in range(e.size())]
    while len(bits) > 1:
        bits = [bits[i] + bits[i + 1] if i + 1 < len(bits) else bits[i]
                for i in range(0, len(bits), 2)]
    return bits[0]


class Undefined(Exception):
    """C undefined behaviour was reached."""


def undefined(what):
    raise Undefined(what)


def BITMASK(b):
    return u64(1 << cmod(u32(b), 64))


def TESTBIT(a, b):
    return a[cdiv(b, 64)] & BITMASK(b)


def SETBIT(a, b):
    i = cdiv(b, 64)
    a[i] = a[i] | BITMASK(b)


def CLEARBIT(a, b):
    i = cdiv(b, 64)
    a[i] = a[i] & u64(~BITMASK(b))


def BITNSLOTS(n):
    return cdiv(u32(n) + 63, 64)


def TOGGLEBIT(a, b):
    i = cdiv(b, 64)
    a[i] = a[i] ^ BITMASK(b)


# -- values, pointers --------------------------------------------------------
structs = {}
sizes = {'char': 1, 'bool': 1, 'double': 8, 'void': 1}


def cp(x):
    """C++ copy of a value (pointers and Python objects are shared)."""
    t = type(x)
    if t in VALUETYPES or getattr(t, '_sx_value', False):
        return x.copy()
    if t is Ref:
        return x
    if t is list:
        return list(x)
    return x


def assign(old, new):
    if type(new) is Ref:
        new = new.x
    if type(old) is Vector and type(new) in (list, tuple):
        result = old.copy()
        result.clear()
        for a in new:
            result.push_back(a)
        return result
    return cp(new)


def typeof(x):
    if type(x) is Ref:
        return type(x.x)
    if type(x) is Ptr:
        return type(x.c[x.i])
    return type(x)


class Ref:
    """Pointer to a variable holding a struct or container."""
    __slots__ = ('x', )

    def __init__(self, x):
        object.__setattr__(self, 'x', x)

    def __getitem__(self, k):
        if idx(k) != 0:
            undefined('pointer arithmetic on the address of a variable')
        return self.x

    def __getattr__(self, name):
        return getattr(self.x, name)

    def __setattr__(self, name, v):
        setattr(self.x, name, v)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.x is o.x

    def __hash__(self):
        return id(self.x)


class FieldPtr:
    """Pointer to a field of a struct."""
    __slots__ = ('ob', 'name')

    def __init__(self, ob, name):
        self.ob, self.name = ob, name

    def __getitem__(self, k):
        if idx(k) != 0:
            undefined('pointer arithmetic on the address of a field')
        return getattr(self.ob, self.name)

    def __setitem__(self, k, v):
        if idx(k) != 0:
            undefined('pointer arithmetic on the address of a field')
        setattr(self.ob, self.name, v)


class Ptr:
    """Pointer into a container (list, array, Vector)."""
    __slots__ = ('c', 'i')

    def __init__(self, c, i=0):
        object.__setattr__(self, 'c', c)
        object.__setattr__(self, 'i', i)

    def __getitem__(self, k):
        if type(k) is slice:
            return [self[n] for n in range(k.start or 0, k.stop)]
        k = self.i + idx(k)
        if k < 0:
            undefined('read before start of array')
        try:
            return self.c[k]
        except IndexError:
            undefined('read past end of array')

    def __setitem__(self, k, v):
        k = self.i + idx(k)
        if k < 0:
            undefined('write before start of array')
        try:
            self.c[k] = v
        except IndexError:
            undefined('write past end of array')

    def __add__(self, k):
        return Ptr(self.c, self.i + idx(k))

    def __sub__(self, o):
        if isinstance(o, Ptr):
            return self.i - o.i
        return Ptr(self.c, self.i - idx(o))

    def __getattr__(self, name):
        return getattr(self[0], name)

    def __setattr__(self, name, v):
        setattr(self[0], name, v)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.i == o.i

    def __lt__(self, o):
        return self.i < o.i

    def __le__(self, o):
        return self.i <= o.i

    def __gt__(self, o):
        return self.i > o.i

    def __ge__(self, o):
        return self.i >= o.i

    def __hash__(self):
        return hash((id(self.c), self.i))

    def _sx_next(self):
        object.__setattr__(self, 'i', self.i + 1)
        return self


def idx(k):
    return k if type(k) is int else int(k)


def ptr(c, i=0):
    """&c[i]"""
    if type(c) in (Ptr, BPtr, CharPtr):
        return c + i
    if isinstance(c, (bytes, CStr)):
        return CharPtr(bytes(c), idx(i))
    if type(c) is Ref:
        if idx(i) == 0:
            return c
        undefined('pointer arithmetic on the address of a variable')
    if hasattr(c, '_sx_buf'):
        return c._sx_buf() + i
    return Ptr(c, idx(i))


def deref(x):
    if type(x) is Iter:
        return x.entry()
    return x[0]


dereference = deref


def preincrement(x):
    return x._sx_next()


def postincrement(x):
    old = x.copy()
    x._sx_next()
    return old


preinc, postinc = preincrement, postincrement


# -- structs ---------------------------------------------------------------
def _intsize(spec):
    return spec[1] // 8


def _specsize(spec):
    if spec is None:
        return 8
    if spec[0] in ('int', 'bint'):
        return _intsize(spec)
    if spec[0] == 'struct':
        return SizeOf(spec[1])
    return 8


def SizeOf(name):
    return sizes[name]


COMPARE = {'Rule': None, 'SmallChartItem': None, 'FatChartItem': None}


def struct(name, fields, union):
    if name in structs:
        return structs[name]
    cls = (_union if union is True else _struct)(name, fields)
    if union == 'packed':
        off = 0
        for n, (_, size) in list(cls._sx_layout.items()):
            cls._sx_layout[n] = off, size
            off += size
        sizes[name] = off
    structs[name] = cls
    return cls


def _layout(fields, union):
    off = size = 0
    align = 1
    out = {}
    for n, fac, spec in fields:
        v = fac()
        if isinstance(v, list):
            sz = 8 * len(v)
            al = 8
        else:
            sz = _specsize(spec)
            al = min(sz, 8)
            if spec is not None and spec[0] == 'struct':
                al = 4 if sz % 8 else 8
        align = max(align, al)
        if union:
            out[n] = (0, sz)
            size = max(size, sz)
        else:
            off = -(-off // al) * al
            out[n] = (off, sz)
            off += sz
            size = off
    return out, -(-size // align) * align


def _key(v):
    if type(v) is list:
        return tuple(_key(a) for a in v)
    if type(v) is SymBV:
        return idx(v)
    return v


def _struct(name, fields):
    names = [f[0] for f in fields]

    class Struct:
        __slots__ = tuple(names)
        _sx_value = True
        _sx_names = names
        _sx_fields_ = fields

        def __init__(self, *args):
            for n, (fn, fac, _) in enumerate(fields):
                setattr(self, fn, cp(args[n]) if n < len(args) else fac())
            if len(args) > len(fields):
                raise core.Inconclusive('constructor of struct ' + name)

        def copy(self):
            ob = Struct.__new__(Struct)
            for n in names:
                setattr(ob, n, cp(getattr(self, n)))
            return ob

        def _fields(self):
            return tuple(getattr(self, n) for n in names)

        def __eq__(self, o):
            if type(o) in (Ref, Ptr):
                o = o[0]
            if type(o) is not Struct:
                return NotImplemented
            if name == 'RankedEdge':
                a, b = self.edge.rule, o.edge.rule
                return bool(self.left == o.left and self.right == o.right
                        and self.edge.pos.lvec == o.edge.pos.lvec
                        and (a.no == b.no if a is not None and b is not None
                            else a is None and b is None))
            for n in names:
                x, y = getattr(self, n), getattr(o, n)
                if type(x) is list:
                    if not all(p == q for p, q in zip(x, y)):
                        return False
                elif not x == y:
                    return False
            return True

        def __hash__(self):
            if name == 'RankedEdge':
                return hash((_key(self.left), _key(self.right),
                        _key(self.edge.pos.lvec)))
            return hash(tuple(_key(getattr(self, n)) for n in names))

        def __lt__(self, o):
            if name == 'FatChartItem':
                if self.label != o.label:
                    return self.label < o.label
                return (b''.join(idx(v).to_bytes(8, 'little')
                        for v in self.vec) < b''.join(
                        idx(v).to_bytes(8, 'little') for v in o.vec))
            return self._fields() < o._fields()

        def __repr__(self):
            return '%s(%s)' % (name, ', '.join('%s=%r' % (n, getattr(self, n))
                    for n in names))
    Struct.__name__ = Struct.__qualname__ = name
    if name == 'LexCmp':
        Struct = _lexcmp(name, lambda lex, a, b: lex[a].lhs < lex[b].lhs)
    elif name == 'LexLabelCmp':
        Struct = _lexcmp(name, lambda lex, a, b: lex[a].lhs < b)
    Struct._sx_layout, sizes[name] = _layout(fields, False)
    return Struct


def _lexcmp(name, fun):
    class Cmp:
        def __init__(self, lexical):
            self.lexical = lexical

        def __call__(self, a, b):
            return fun(self.lexical, a, b)
    Cmp.__name__ = name
    return Cmp


class _SubStruct:
    """Struct member of a union over an integer."""
    __slots__ = ('_u', '_cls')

    def __init__(self, u, cls):
        object.__setattr__(self, '_u', u)
        object.__setattr__(self, '_cls', cls)

    def __getattr__(self, name):
        off, sz = self._cls._sx_layout[name]
        return (self._u._raw >> (8 * off)) & ((1 << (8 * sz)) - 1)

    def __setattr__(self, name, v):
        off, sz = self._cls._sx_layout[name]
        mask = (1 << (8 * sz)) - 1
        self._u._raw = (self._u._raw & ~(mask << (8 * off))) | (
                (idx(v) & mask) << (8 * off))


def _union(name, fields):
    specs = {f[0]: f[2] for f in fields}
    if any(s is None or s[0] == 'ptr' for s in specs.values()):
        return _ptrunion(name, fields)

    class Union:
        __slots__ = ('_raw', )
        _sx_value = True

        def __init__(self):
            object.__setattr__(self, '_raw', 0)

        def copy(self):
            ob = Union()
            ob._raw = self._raw
            return ob

        def __getattr__(self, fn):
            try:
                spec = specs[fn]
            except KeyError:
                raise AttributeError(fn)
            if spec[0] == 'struct':
                return _SubStruct(self, structs[spec[1]])
            if type(self._raw) is SymBV:
                return _wrap(spec[1], spec[2])(self._raw)
            v = self._raw & ((1 << spec[1]) - 1)
            if spec[2] and v >> (spec[1] - 1):
                v -= 1 << spec[1]
            return v

        def __setattr__(self, fn, v):
            if fn == '_raw':
                return object.__setattr__(self, fn, v)
            spec = specs[fn]
            if type(v) is SymBV:
                if spec[1] == 64:
                    object.__setattr__(self, '_raw', v)
                    return
                v = idx(v)
            mask = (1 << spec[1]) - 1
            self._raw = (idx(self._raw) & ~mask) | (idx(v) & mask)

        def __repr__(self):
            return '%s(%s)' % (name, self._raw)
    Union.__name__ = Union.__qualname__ = name
    Union._sx_layout, sizes[name] = _layout(fields, True)
    return Union


def _ptrunion(name, fields):
    specs = {f[0]: f[2] for f in fields}

    class Union:
        __slots__ = ('_p', )
        _sx_value = True

        def __init__(self):
            object.__setattr__(self, '_p', None)

        def copy(self):
            ob = Union()
            object.__setattr__(ob, '_p', self._p)
            return ob

        def __getattr__(self, fn):
            spec = specs[fn]
            if self._p is None or spec is None or spec[0] != 'ptr':
                return self._p
            return ptrcast(self._p, spec[1])

        def __setattr__(self, fn, v):
            object.__setattr__(self, '_p', v)
    Union.__name__ = Union.__qualname__ = name
    sizes[name] = 8
    Union._sx_layout = {}
    return Union


def classnew(cls, *args, **kwargs):
    ob = object.__new__(cls)
    fields = {}
    for c in reversed(cls.__mro__):
        fields.update(c.__dict__.get('_sx_fields', ()))
    for n, fac in fields.items():
        object.__setattr__(ob, n, fac())
    for c in reversed(cls.__mro__):
        f = c.__dict__.get('__cinit__')
        if f is not None:
            f(ob)
    return ob


# -- strings and raw memory ------------------------------------------------
def _raw(x):
    if type(x) is bytes:
        return x
    if type(x) is str:
        return x.encode('utf8')
    if type(x) is CStr:
        return bytes(x.b)
    if type(x) is CharPtr:
        return x.rest()
    if type(x) is list:
        return bytes(x).split(b'\0')[0]
    if type(x) is BPtr:
        out = bytearray()
        while x[0]:
            out.append(idx(x[0]))
            x = x + 1
        return bytes(out)
    raise core.Inconclusive('char data of type %s' % type(x).__name__)


class CStr:
    """std::string"""
    __slots__ = ('b', )
    _sx_value = True

    def __init__(self, b=b''):
        self.b = bytearray(b)

    def copy(self):
        return CStr(self.b)

    def __bytes__(self):
        return bytes(self.b)

    def size(self):
        return len(self.b)
    length = __len__ = size

    def c_str(self):
        return CharPtr(bytes(self.b), 0)

    def find_first_of(self, c, pos=0):
        c = c if type(c) is int else _raw(c)[0]
        n = self.b.find(c, pos)
        return (1 << 64) - 1 if n == -1 else n
    find = find_first_of

    def append(self, x):
        self.b += _raw(x)

    def push_back(self, x):
        self.b += _raw(x)[:1]

    def __iadd__(self, x):
        self.append(x)
        return self

    def __add__(self, x):
        return CStr(bytes(self.b) + _raw(x))

    def clear(self):
        del self.b[:]

    def decode(self, enc='utf8'):
        return bytes(self.b).decode(enc)

    def __iter__(self):
        for n in range(len(self.b)):
            yield bytes(self.b[n:n + 1])

    def __getitem__(self, n):
        return bytes(self.b[n:n + 1])

    def __eq__(self, o):
        if type(o) is CStr:
            return self.b == o.b
        if type(o) is bytes:
            return bytes(self.b) == o
        return NotImplemented

    def __lt__(self, o):
        return bytes(self.b) < _raw(o)

    def __hash__(self):
        return hash(bytes(self.b))

    def __repr__(self):
        return repr(bytes(self.b))


def string(x=b'', n=None):
    """Constructor of std::string."""
    b = _raw(x)
    if n is not None:
        b = b[:idx(n)]
    return CStr(b)


def tobytes(x):
    if type(x) is CStr:
        return x.copy()
    if isinstance(x, bytes):
        return CStr(x)
    raise TypeError('expected bytes, %s found' % type(x).__name__)


class CharPtr:
    """Pointer into constant character data."""
    __slots__ = ('b', 'i')

    def __init__(self, b, i):
        self.b, self.i = b, i

    def rest(self):
        return self.b[self.i:].split(b'\0')[0]

    def __getitem__(self, k):
        if type(k) is slice:
            return self.b[self.i + idx(k.start or 0):self.i + idx(k.stop)]
        k = self.i + idx(k)
        if k < 0 or k > len(self.b):
            undefined('read outside of string')
        return self.b[k:k + 1]

    def __add__(self, k):
        return CharPtr(self.b, self.i + idx(k))

    def __sub__(self, o):
        if type(o) is bytes:
            return self.i
        if type(o) is CharPtr:
            return self.i - o.i
        return CharPtr(self.b, self.i - idx(o))

    def _pos(self, o):
        return 0 if type(o) is bytes else o.i

    def __lt__(self, o):
        return self.i < self._pos(o)

    def __le__(self, o):
        return self.i <= self._pos(o)

    def __gt__(self, o):
        return self.i > self._pos(o)

    def __ge__(self, o):
        return self.i >= self._pos(o)

    def __eq__(self, o):
        return type(o) is CharPtr and self.i == o.i and self.b == o.b

    def __hash__(self):
        return hash((self.b, self.i))


def _charptr(x):
    if type(x) is CharPtr:
        return x
    return CharPtr(_raw(x), 0)


def strchr(s, c):
    s = _charptr(s)
    c = bytes([c]) if type(c) is int else c
    end = s.b.find(b'\0', s.i)
    n = s.b.find(c, s.i, len(s.b) if end == -1 else end)
    return None if n == -1 else CharPtr(s.b, n)


import re as _re
FLOATRE = _re.compile(rb'\s*([-+]?0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?'
        rb'(?:[pP][-+]?[0-9]+)?|[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)'
        rb'(?:[eE][-+]?[0-9]+)?|[-+]?(?:inf(?:inity)?|nan))', _re.I)


def strtod(s, endptr):
    s = _charptr(s)
    m = FLOATRE.match(s.b, s.i)
    if m is None:
        endptr[0] = s
        return 0.0
    endptr[0] = CharPtr(s.b, m.end())
    t = m.group(1).decode('ascii')
    return float.fromhex(t) if 'x' in t.lower() else float(t)


def sprintf(buf, fmt, *args):
    out = _raw(fmt) % args
    if len(out) >= len(buf):
        undefined('sprintf past end of buffer')
    for n, a in enumerate(out + b'\0'):
        buf[n] = a
    return len(out)


class BPtr:
    """Pointer into raw memory (a list of byte values), with an item type."""
    __slots__ = ('a', 'i', 'spec')

    def __init__(self, a, i=0, spec=None):
        object.__setattr__(self, 'a', a)
        object.__setattr__(self, 'i', i)
        object.__setattr__(self, 'spec', spec)

    def _size(self):
        return 1 if self.spec is None else _specsize(self.spec)

    def _read(self, off, size):
        if off < 0 or off + size > len(self.a):
            undefined('read outside of allocated memory')
        cells = self.a[off:off + size]
        if any(c is None for c in cells):
            undefined('read of uninitialized memory')
        return cells

    def _write(self, off, cells):
        if off < 0 or off + len(cells) > len(self.a):
            undefined('write outside of allocated memory')
        self.a[off:off + len(cells)] = cells

    def _get(self, off, spec):
        if spec is None:
            return self._read(off, 1)[0]
        if spec[0] == 'struct':
            return BPtr(self.a, off, spec)
        cells = self._read(off, _specsize(spec))
        return int.from_bytes(bytes(cells), 'little', signed=spec[2])

    def __getitem__(self, k):
        return self._get(self.i + idx(k) * self._size(), self.spec)

    def __setitem__(self, k, v):
        off = self.i + idx(k) * self._size()
        if self.spec is None:
            self._write(off, [v])
        elif self.spec[0] == 'struct':
            self._write(off, list(tomem(v)))
        else:
            n = _specsize(self.spec)
            self._write(off, list((idx(v) & ((1 << (8 * n)) - 1)).to_bytes(
                    n, 'little')))

    def __getattr__(self, name):
        if self.spec is None or self.spec[0] != 'struct':
            raise AttributeError(name)
        cls = structs[self.spec[1]]
        off, _ = cls._sx_layout[name]
        for n, _, spec in cls._sx_fields_:
            if n == name:
                return self._get(self.i + off, spec)
        raise AttributeError(name)

    def __setattr__(self, name, v):
        cls = structs[self.spec[1]]
        off, size = cls._sx_layout[name]
        self._write(self.i + off, list((idx(v) & ((1 << (8 * size)) - 1)
                ).to_bytes(size, 'little')))

    def __add__(self, k):
        return BPtr(self.a, self.i + idx(k) * self._size(), self.spec)

    def __sub__(self, o):
        if type(o) is BPtr:
            return (self.i - o.i) // self._size()
        return BPtr(self.a, self.i - idx(o) * self._size(), self.spec)

    def __eq__(self, o):
        return type(o) is BPtr and self.a is o.a and self.i == o.i

    def __hash__(self):
        return hash((id(self.a), self.i))


def tomem(x, size=None):
    """Bytes of an object in memory."""
    if type(x) in (Ref, ):
        x = x.x
    if type(x) is values.SymBytes:
        return x.cells if size is None else x.cells[:size]
    if isinstance(x, (bytes, bytearray)):
        return bytes(x) if size is None else bytes(x)[:size]
    if type(x) is CharPtr:
        return x.b[x.i:] if size is None else x.b[x.i:x.i + size]
    if type(x) is BPtr:
        return x._read(x.i, size)
    if getattr(type(x), '_sx_layout', None):
        out = bytearray(sizes[type(x).__name__])
        for n, (off, sz) in type(x)._sx_layout.items():
            v = getattr(x, n)
            if isinstance(v, float):
                raise core.Inconclusive('bytes of a floating point value')
            out[off:off + sz] = (idx(v) & ((1 << (8 * sz)) - 1)).to_bytes(sz,
                    'little')
        return bytes(out)
    raise core.Inconclusive('memory of type %s' % type(x).__name__)


class Overlay:
    """A packed struct on top of cells of an array of 64-bit integers."""
    __slots__ = ('c', 'i', 'cls')

    def __init__(self, c, i, cls):
        object.__setattr__(self, 'c', c)
        object.__setattr__(self, 'i', i)
        object.__setattr__(self, 'cls', cls)

    def _cell(self, name):
        off, size = self.cls._sx_layout[name]
        k = self.i + off // 8
        if k < 0 or k >= len(self.c) or off % 8 + size > 8:
            undefined('access outside of array')
        return k, 8 * (off % 8), size

    def __getattr__(self, name):
        for n, _, spec in self.cls._sx_fields_:
            if n == name:
                k, shift, size = self._cell(name)
                return int.from_bytes(((idx(self.c[k]) >> shift) & (
                        (1 << (8 * size)) - 1)).to_bytes(size, 'little'),
                        'little', signed=spec[2])
        raise AttributeError(name)

    def __setattr__(self, name, v):
        k, shift, size = self._cell(name)
        mask = (1 << (8 * size)) - 1
        self.c[k] = (idx(self.c[k]) & ~(mask << shift)) | (
                (idx(v) & mask) << shift)

    def __getitem__(self, k):
        if idx(k) != 0:
            undefined('pointer arithmetic on overlay')
        return self


def ptrcast(p, spec):
    if p is None:
        return None
    if spec is not None and spec[0] == 'struct' and type(p) is Ptr and (
            p.i < len(p.c) and type(p.c[p.i]) is int):
        return Overlay(p.c, p.i, structs[spec[1]])
    if type(p) is BPtr:
        return BPtr(p.a, p.i, None if spec is not None and spec[0] == 'int'
                and spec[1] == 8 else spec)
    if type(p) is CharPtr:
        return BPtr(list(p.b), p.i, spec)
    if isinstance(p, bytes):
        return BPtr(list(p), 0, spec)
    if type(p) is Ref and getattr(type(p.x), '_sx_layout', None):
        return p
    return p


def charslice(p, start, stop):
    """Python bytes of a slice of a char pointer."""
    start = 0 if start is None else idx(start)
    if type(p) is Ref:
        return tomem(p)[start:idx(stop)]
    if type(p) in (bytes, bytearray):
        return bytes(p[start:idx(stop)])
    if type(p) is CharPtr:
        return p[start:stop]
    if type(p) is BPtr:
        return joinbytes(p._read(p.i + start, idx(stop) - start))
    if type(p) is CStr:
        return bytes(p.b[start:idx(stop)])
    if type(p) in (Ptr, list):  # 64-bit integers
        c, i = (p.c, p.i) if type(p) is Ptr else (p, 0)
        stop = idx(stop)
        n = (stop + 7) // 8
        if i + n > len(c):
            undefined('read past end of array')
        if start or not all(type(a) is int for a in c[i:i + n]):
            raise core.Inconclusive('bytes of array')
        return b''.join(a.to_bytes(8, 'little') for a in c[i:i + n])[:stop]
    raise core.Inconclusive('slice of %s' % type(p).__name__)


def joinbytes(cells):
    if any(type(a) is values.SymChar for a in cells):
        return values.SymBytes(cells)
    return bytes(cells)


def ptrslice(p, start, stop):
    return [p[n] for n in range(idx(start or 0), idx(stop))]


class Lazy:
    """A large array; elements are made when they are first used."""
    __slots__ = ('d', 'n', 'factory')

    def __init__(self, factory, n, d=()):
        self.factory, self.n, self.d = factory, n, dict(d)

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        if type(k) is slice:
            return [self[x] for x in range(*k.indices(self.n))]
        if not -self.n <= k < self.n:
            raise IndexError
        if k < 0:
            k += self.n
        if k not in self.d:
            self.d[k] = self.factory()
        return self.d[k]

    def __setitem__(self, k, v):
        if not 0 <= k < self.n:
            raise IndexError
        self.d[k] = v


def malloc(factory=None, itemsize=1, size=None):
    if itemsize == 1 and size is None:
        return BPtr([None] * idx(factory))
    n = idx(size) // itemsize
    if n > 256:
        return Ptr(Lazy(factory, n), 0)
    return Ptr([factory() for _ in range(n)], 0)


def calloc(factory=None, itemsize=1, size=None, *args):
    if args:
        size = size * args[0]
    return malloc(factory, itemsize, size)


def realloc(*args):
    if len(args) == 2:
        p, size = args
        size = idx(size)
        a = p._read_all() if False else p.a[:size]
        return BPtr(a + [None] * (size - len(a)))
    factory, itemsize, p, size = args
    n = idx(size) // itemsize
    if n > 256:
        return Ptr(Lazy(factory, n, () if p is None else
                p.c.d if type(p.c) is Lazy else enumerate(p.c)), 0)
    old = [] if p is None else list(p.c[:n])
    return Ptr(old + [factory() for _ in range(n - len(old))], 0)


def free(p):
    pass


def memcpy(dest, src, n):
    n = idx(n)
    if type(dest) is BPtr:
        dest._write(dest.i, list(tomem(src, n)))
    elif type(dest) in (list, Ptr) and type(src) in (list, Ptr, Vector,
            BPtr):
        for k in range(n // 8):
            dest[k] = src[k]
    else:
        raise core.Inconclusive('memcpy')


def memset(dest, v, n):
    if type(dest) in (list, Ptr):
        for k in range(idx(n) // 8):
            dest[k] = idx(v) * 0x0101010101010101
    else:
        raise core.Inconclusive('memset')


def memcmp(a, b, n):
    for k in range(idx(n) // 8):
        if not a[k] == b[k]:
            return -1 if (idx(a[k]).to_bytes(8, 'little')
                    < idx(b[k]).to_bytes(8, 'little')) else 1
    return 0


# -- containers ------------------------------------------------------------
class Vector:
    """std::vector"""
    __slots__ = ('a', 'factory')
    _sx_value = True

    def __init__(self, factory, a=None):
        self.factory = factory
        self.a = [] if a is None else a

    def copy(self):
        return Vector(self.factory, [cp(x) for x in self.a])

    def _i(self, k):
        k = idx(k)
        if not 0 <= k < len(self.a):
            undefined('vector index %d out of range (size %d)' % (k,
                    len(self.a)))
        return k

    def __getitem__(self, k):
        if type(k) is slice:
            return self.a[k]
        return self.a[self._i(k)]

    def __setitem__(self, k, v):
        self.a[self._i(k)] = cp(v)

    def __iter__(self):
        return iter(self.a)

    def __len__(self):
        return len(self.a)

    def __bool__(self):
        return True

    def size(self):
        return len(self.a)

    def empty(self):
        return not self.a

    def push_back(self, v):
        self.a.append(cp(v))

    def pop_back(self):
        if not self.a:
            undefined('pop_back of empty vector')
        self.a.pop()

    def back(self):
        return self.a[self._i(len(self.a) - 1)]

    def front(self):
        return self.a[self._i(0)]

    def clear(self):
        del self.a[:]

    def reserve(self, n):
        pass

    def resize(self, n, val=None):
        n = idx(n)
        del self.a[n:]
        while len(self.a) < n:
            self.a.append(self.factory() if val is None else cp(val))

    def begin(self):
        return Ptr(self.a, 0)

    def end(self):
        return Ptr(self.a, len(self.a))

    def erase(self, it, last=None):
        del self.a[it.i:it.i + 1 if last is None else last.i]

    def insert(self, it, first, last=None):
        self.a[it.i:it.i] = ([cp(first)] if last is None
                else [cp(x) for x in first.c[first.i:last.i]])

    def swap(self, o):
        self.a, o.a = o.a, self.a

    def assign(self, n, val):
        self.a[:] = [cp(val) for _ in range(idx(n))]

    def _sx_buf(self):
        return Ptr(self.a, 0)

    def __repr__(self):
        return 'Vector(%r)' % self.a


class Pair:
    __slots__ = ('first', 'second')
    _sx_value = True

    def __init__(self, first=None, second=None):
        self.first, self.second = first, second

    def copy(self):
        return Pair(cp(self.first), cp(self.second))

    def __lt__(self, o):
        if self.first < o.first:
            return True
        return bool(self.first == o.first) and bool(self.second < o.second)

    def __le__(self, o):
        return not o < self

    def __gt__(self, o):
        return o < self

    def __ge__(self, o):
        return not self < o

    def __eq__(self, o):
        return bool(self.first == o.first) and bool(self.second == o.second)

    def __hash__(self):
        return hash((self.first, self.second))

    def __iter__(self):
        return iter((self.first, self.second))

    def __repr__(self):
        return 'Pair(%r, %r)' % (self.first, self.second)


class Iter:
    """Iterator of a map or set."""
    __slots__ = ('m', 'k')

    def __init__(self, m, k):
        self.m, self.k = m, k

    def copy(self):
        return Iter(self.m, self.k)

    def entry(self):
        if self.k is None:
            undefined('dereferencing the end of a container')
        return self.m._at(self.k[0])

    def __eq__(self, o):
        return self.m is o.m and self.k == o.k

    def __hash__(self):
        return id(self.m)

    def _sx_next(self):
        if self.k is None:
            undefined('incrementing past the end of a container')
        self.k = self.m._after(self.k[0])
        return self

    @property
    def first(self):
        return self.entry().first

    @property
    def second(self):
        return self.entry().second


def mapkey(k):
    t = type(k)
    if t is SymBV:
        return idx(k)
    if t is bytes:
        return CStr(k)
    if t in (Ref, Ptr):
        return cp(k[0])
    return cp(k)


class HashMap:
    """Hash table; iterates in insertion order."""
    _sx_value = True

    def __init__(self, factory):
        self.factory = factory
        self.d = {}

    def copy(self):
        new = type(self)(self.factory)
        new.d = {k: Pair(cp(e.first), cp(e.second)) for k, e in
                self.d.items()}
        return new

    def _at(self, k):
        return self.d[k]

    def _keys(self):
        return list(self.d)

    def _after(self, k):
        keys = self._keys()
        n = keys.index(k) + 1
        return (keys[n], ) if n < len(keys) else None

    def find(self, k):
        k = mapkey(k)
        return Iter(self, (k, ) if k in self.d else None)

    def begin(self):
        keys = self._keys()
        return Iter(self, (keys[0], ) if keys else None)

    def end(self):
        return Iter(self, None)

    def count(self, k):
        return int(mapkey(k) in self.d)

    def size(self):
        return len(self.d)
    __len__ = size

    def __bool__(self):
        return True

    def empty(self):
        return not self.d

    def clear(self):
        self.d.clear()

    def reserve(self, n):
        pass
    resize = reserve

    def erase(self, k):
        if type(k) is Iter:
            k = k.k[0]
        return int(self.d.pop(mapkey(k), None) is not None)

    def insert(self, entry):
        k = mapkey(entry.first)
        if k not in self.d:
            self.d[k] = Pair(k, cp(entry.second))

    def __getitem__(self, k):
        k = mapkey(k)
        if k not in self.d:
            self.d[k] = Pair(k, self.factory())
        return self.d[k].second

    def __setitem__(self, k, v):
        k = mapkey(k)
        if k in self.d:
            self.d[k].second = cp(v)
        else:
            self.d[k] = Pair(k, cp(v))

    def __iter__(self):
        for k in self._keys():
            yield self.d[k]

    def swap(self, o):
        self.d, o.d = o.d, self.d


class BTreeMap(HashMap):
    """Sorted map."""
    def _keys(self):
        return sorted(self.d)

    def lower_bound(self, k):
        k = mapkey(k)
        for x in self._keys():
            if not x < k:
                return Iter(self, (x, ))
        return Iter(self, None)


class HashSet:
    _sx_value = True

    def __init__(self):
        self.d = {}

    def copy(self):
        new = type(self)()
        new.d = dict(self.d)
        return new

    def _at(self, k):
        return k

    def _keys(self):
        return list(self.d)

    _after = HashMap._after
    begin = HashMap.begin
    find = HashMap.find
    end = HashMap.end
    reserve = HashMap.reserve
    resize = HashMap.reserve

    def insert(self, k):
        self.d[mapkey(k)] = None

    def erase(self, k):
        return int(self.d.pop(mapkey(k), 0) is None)

    def count(self, k):
        return int(mapkey(k) in self.d)

    def size(self):
        return len(self.d)
    __len__ = size

    def __bool__(self):
        return True

    def empty(self):
        return not self.d

    def clear(self):
        self.d.clear()

    def swap(self, o):
        self.d, o.d = o.d, self.d

    def __iter__(self):
        return iter(self._keys())


class BTreeSet(HashSet):
    def _keys(self):
        return sorted(self.d)


class Agenda:
    """The priority queue of _containers.h: best priority first, ties in
    order of insertion; entries superseded by a later one for the same key
    stay in the heap until they surface."""
    _sx_value = True

    def __init__(self):
        self.map, self.heap, self.counter = {}, [], 0

    def copy(self):
        new = Agenda()
        new.map, new.heap = dict(self.map), list(self.heap)
        new.counter = self.counter
        return new

    def reserve(self, n):
        pass

    def empty(self):
        return not self.map

    def size(self):
        return len(self.map)

    def member(self, k):
        return mapkey(k) in self.map

    @staticmethod
    def _before(a, b):
        if a[2] < b[2]:
            return bool(a[1] <= b[1])
        return bool(a[1] < b[1])

    def _push(self, e):
        lo, hi = 0, len(self.heap)
        while lo < hi:
            mid = (lo + hi) // 2
            if self._before(self.heap[mid], e):
                lo = mid + 1
            else:
                hi = mid
        self.heap.insert(lo, e)

    def setitem(self, k, v):
        k, v = mapkey(k), cp(v)
        self.counter += 1
        e = (k, v, self.counter)
        self.map[k] = e
        self._push(e)

    def setifbetter(self, k, v):
        k, v = mapkey(k), cp(v)
        old = self.map.get(k)
        if old is None:
            self.setitem(k, v)
        elif v < old[1]:
            e = (k, v, old[2])
            self.map[k] = e
            self._push(e)

    def replace_entries(self, entries):
        self.map, self.heap, self.counter = {}, [], 0
        for x in entries:
            k = mapkey(x.first)
            self.counter += 1
            self.map[k] = (k, cp(x.second), self.counter)
        for e in self.map.values():
            self._push(e)

    def kbest_entries(self, entries, n):
        self.map, self.heap, self.counter = {}, [], 0
        for x in entries:
            k = mapkey(x.first)
            old = self.map.get(k)
            if old is None:
                self.counter += 1
                self.map[k] = (k, cp(x.second), self.counter)
            elif x.second < old[1]:
                self.map[k] = (k, cp(x.second), old[2])
        for e in self.map.values():
            self._push(e)
        n = idx(n)
        if n < len(self.map):
            del self.heap[n:]
            self.map = {e[0]: e for e in self.heap}

    def pop(self):
        if not self.map:
            undefined('pop from empty agenda')
        while True:
            e = self.heap.pop(0)
            if e[0] in self.map:
                break
        del self.map[e[0]]
        return Pair(cp(e[0]), cp(e[1]))


VALUETYPES = {CStr, Vector, Pair, HashMap, BTreeMap, HashSet, BTreeSet, Agenda}


def sort(first, last, cmp=None):
    from functools import cmp_to_key
    lt = cmp or (lambda a, b: a < b)

    def c(a, b):
        if lt(a, b):
            return -1
        return 1 if lt(b, a) else 0
    first.c[first.i:last.i] = sorted(first.c[first.i:last.i],
            key=cmp_to_key(c))


stdsort = stable_sort = sort


def inplace_merge(first, mid, last, cmp=None):
    # sorted halves; a stable sort gives the same result
    sort(first, last, cmp)


def lower_bound(first, last, x, cmp=None):
    lt = cmp or (lambda a, b: a < b)
    n = first.i
    while n < last.i and lt(first.c[n], x):
        n += 1
    return Ptr(first.c, n)


def fabs(x):
    return abs(x)


def isinf(x):
    return math.isinf(x) if type(x) is float else False


def isfinite(x):
    return math.isfinite(x) if type(x) in (float, int) else True


def isnan(x):
    return math.isnan(x) if type(x) is float else False


def fsum(xs):
    xs = list(xs)
    if any(type(a) not in (int, float) for a in xs):
        return sum(xs[1:], xs[0])
    return math.fsum(xs)


def log(x):
    if type(x) in (SymReal, SymLog):
        return SymLog.of(x)
    return math.log(x)


def exp(x):
    """Exponential; an uninterpreted function for a symbolic number."""
    if type(x) is SymLog:
        return x.exp()
    if type(x) is SymReal:
        f = z3.Function('exp', z3.RealSort(), z3.RealSort())
        return SymReal(f(x.e))
    return math.exp(x)


class NumPy(object):
    """numpy, with arrays that may hold symbolic numbers."""
    def __getattr__(self, name):
        import numpy
        return getattr(numpy, name)

    def load(self, name, *args, **kwargs):
        from .instrument import loadarrays
        return loadarrays(name, *args, **kwargs)

    def empty(self, shape, dtype='d'):
        import numpy
        if dtype != 'd':
            return numpy.empty(shape, dtype)
        a = numpy.empty(shape, dtype=object).view(_ndarray())
        a[...] = None  # uninitialized memory
        return a

    def isnan(self, a):
        import numpy
        if getattr(a, 'dtype', None) != object:
            return numpy.isnan(a)
        return numpy.array([isnan(x) for x in a.flat],
                dtype=bool).reshape(a.shape)


_ARR = []


def _ndarray():
    if not _ARR:
        import numpy

        class Arr(numpy.ndarray):
            """Array as typed memoryview: no wraparound."""
            @property
            def base(self):
                return self

            def _chk(self, k):
                if type(k) is tuple:
                    k = tuple(a if a is Ellipsis or type(a) is slice
                            else idx(a) for a in k)
                    for n, a in enumerate(k):
                        if type(a) is int and not 0 <= a < self.shape[n]:
                            undefined('index %d of array out of range (%d)'
                                    % (a, self.shape[n]))
                return k

            def __getitem__(self, k):
                return numpy.ndarray.__getitem__(self, self._chk(k))

            def __setitem__(self, k, v):
                numpy.ndarray.__setitem__(self, self._chk(k), v)
        _ARR.append(Arr)
    return _ARR[0]


NUMPY = NumPy()


def abort():
    undefined('abort() was called')


class Array(list):
    """array.array, as used through typed buffers."""
    typecode = 'I'

    def __repr__(self):
        return "array('%s'%s)" % (self.typecode,
                ', ' + list.__repr__(self) if len(self) else '')

    __str__ = __repr__

    @property
    def data(self):
        return ArrayData(self)

    def frombytes(self, data):
        raise core.Inconclusive('array.frombytes')


class ArrayData(object):
    def __init__(self, a):
        self.as_ints = self.as_uints = self.as_shorts = self.as_doubles = a

    @property
    def as_chars(self):
        raise core.Inconclusive('array of char')


def extend_buffer(a, src, n):
    for k in range(idx(n)):
        a.append(src[k])


def resize(a, n):
    n = idx(n)
    a[n:] = [None] * (n - len(a))


def clone(template, n, zero):
    result = Array()
    result.typecode = template.typecode
    result.extend([0 if zero else None] * int(n))
    return result


HUGE_VAL = INF
BITSIZE = 64
RTFUNCS = {'bit_ctz', 'bit_clz', 'bit_popcount', 'BITMASK', 'TESTBIT',
        'SETBIT', 'CLEARBIT', 'BITNSLOTS', 'TOGGLEBIT'}
# C library functions that the translated code refers to by name
SIZE_MAX = (1 << 64) - 1

GLOBALS = {n: globals()[n] for n in ('strchr', 'strtod', 'sprintf', 'malloc',
        'realloc', 'calloc', 'free', 'memcpy', 'memset', 'memcmp',
        'inplace_merge', 'lower_bound', 'fabs', 'isinf', 'isfinite', 'isnan',
        'abort', 'SIZE_MAX', 'clone', 'stable_sort', 'extend_buffer', 'resize')}


def lookup(name):
    return globals()[name]


def namespace():
    import sys
    ns = {'_cy': sys.modules[__name__]}
    ns.update(GLOBALS)
    return ns
