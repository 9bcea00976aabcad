"""Load /repo's current Python sources, instrumented for symbolic execution.

The source text is read and parsed on every run.  The rewriting only replaces
operations that CPython implements natively on exact str/dict/set operands
(literals, ``in``, ``%``, f-strings, str methods) by helpers with the same
semantics that also accept symbolic operands."""
import ast
import builtins
import importlib
import sys
import types
import os
import collections as _collections
from . import core, regex, strfmt, values
from .futures import futures
from .values import (SymStr, SymInt, SymReal, SymBool, SymChar, mkstr, mkbool,
        mkint, symbolic, isstr, chars, decide, zor, zbool)
from .containers import (SDict, SSet, SFrozenSet, SDefaultDict, SCounter,
        SOrderedDict)

REPO = os.environ.get('SYMX_REPO', '/repo')

STRMETHODS = {'join', 'startswith', 'endswith', 'replace', 'split', 'rsplit',
        'find', 'rfind', 'index', 'rindex', 'count', 'strip', 'lstrip',
        'rstrip', 'partition', 'rpartition', 'format', 'removeprefix',
        'removesuffix', 'center', 'ljust', 'rjust', 'fromkeys',
        'update', 'union', 'intersection', 'difference', 'issubset',
        'issuperset', 'isdisjoint', 'get', 'extendleft', 'translate', 'write'}

functions = set()
budget = [0, 0]


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, x):
        return issubclass(x, str)

    def __call__(cls, *args, **kwargs):
        if not args:
            return ''
        if len(args) > 1 or kwargs:
            return str(*args, **kwargs)
        return strfmt.sxstr(args[0])

    def __getattr__(cls, name):
        real = getattr(str, name)
        if name == 'maketrans':
            def maketrans(*a):
                a = [dict(x.items()) if isinstance(x, SDict) or type(
                    x) is SDict else x for x in a]
                return str.maketrans(*a)
            return maketrans

        def f(s, *args, **kwargs):
            return meth(s, name, *args, **kwargs)
        return f if callable(real) else real

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


class SxStr(metaclass=_StrMeta):
    __name__ = 'str'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)

    def __call__(cls, x=0, *args):
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return SymInt.lift(x)
        if t is SymStr:
            return symint_of_str(x, *args)
        if t is SymReal:
            import z3
            e = z3.ToInt(x.e)
            return SymInt(z3.If(x.e >= 0, e, -z3.ToInt(-x.e)))
        return int(x, *args)

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SxInt(metaclass=_IntMeta):
    pass


def symint_of_str(x, base=10):
    """int(symbolic string): fork on validity, then build a linear term."""
    import z3
    if base != 10:
        return int(x.concretize(), base)
    s = x.strip()
    neg = False
    if isinstance(s, str) and type(s) is not SymStr:
        return int(s)
    cs = s.cs
    if cs:
        c = cs[0]
        if decide(zor([_eqc(c, '-')])):
            neg, cs = True, cs[1:]
        elif decide(zor([_eqc(c, '+')])):
            cs = cs[1:]
    e, lo, hi = z3.IntVal(0), 0, 0
    if not cs:
        raise ValueError('invalid literal for int() with base 10')
    for c in cs:
        if type(c) is str:
            d, dl, dh = z3.IntVal(int(c)), int(c), int(c)
        else:
            if not decide(c.member(lambda a: a in '0123456789')):
                raise ValueError('invalid literal for int() with base 10: %r'
                        % x.concretize())
            d, dl, dh = c.e - ord('0'), 0, 9
        e, lo, hi = e * 10 + d, lo * 10 + dl, hi * 10 + dh
    return mkint(-e, -hi, -lo) if neg else mkint(e, lo, hi)


def _eqc(a, b):
    from .values import chareq
    return chareq(a, b)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, x):
        return issubclass(x, float)

    def __call__(cls, x=0.0):
        t = type(x)
        if t is SymReal:
            return x
        if t is SymInt:
            import z3
            return SymReal(z3.ToReal(x.e))
        if t is SymBool:
            return SxFloat(SymInt.lift(x))
        if t is SymStr:
            return float(x.concretize())
        return float(x)

    def __getattr__(cls, name):
        return getattr(float, name)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SxFloat(metaclass=_FloatMeta):
    pass


def _ismeta(real, sym):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __eq__(cls, o):
            return o is cls or o is real or o is sym

        def __hash__(cls):
            return hash(real)
    return Meta


class SxDict(SDict, metaclass=_ismeta(dict, SDict)):
    pass


class SxSet(SSet, metaclass=_ismeta(set, SSet)):
    pass


class SxFrozenSet(SFrozenSet, metaclass=_ismeta(frozenset, SFrozenSet)):
    pass


class SxDefaultDict(SDefaultDict,
        metaclass=_ismeta(_collections.defaultdict, SDefaultDict)):
    def __init__(self, default_factory=None, *a, **kw):
        super().__init__(default_factory, *a, **kw)


_TYPES = {SymStr: SxStr, SymInt: SxInt, SymBool: bool, SymReal: SxFloat,
        str: SxStr, int: SxInt, float: SxFloat}


def sxtype(*args):
    if len(args) == 1:
        t = type(args[0])
        return _TYPES.get(t, t)
    return type(*args)


def sxhash(x):
    """hash(): equal for equal values, via an injective-enough structure."""
    h = getattr(type(x), '__hash__')
    if type(x) is tuple:
        from .containers import native
        return hash(x) if native(x) else SymHashVal(x)
    if type(x) in (SymStr, SymInt, SymReal, SymBool):
        return SymHashVal(x)
    if isinstance(x, SFrozenSet) and type(x) is not frozenset:
        return SymHashVal(x)
    return h(x)


class SymHashVal:
    """Result of hash() on a symbolic value: an uninterpreted function whose
    only guaranteed property is congruence (x == y implies equal hashes)."""
    __class__ = property(lambda self: int)

    def __init__(self, *parts):
        self.parts = parts

    def __eq__(self, o):
        if type(o) is SymHashVal:
            return self.parts == o.parts
        if isinstance(o, int):
            if not any(symbolic(p) for p in self.parts):
                return hash(self.parts[0]) == o
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.parts[0])  # raises SymHash if symbolic

    def _op(self, o, name):
        return SymHashVal((name, ) + self.parts, o)

    def __xor__(self, o):
        return self._op(o, '^')

    def __add__(self, o):
        return self._op(o, '+')

    def __mul__(self, o):
        return self._op(o, '*')


def sxord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        ch = c.cs[0]
        ds = [ord(x) for x in ch.dom]
        return SymInt(ch.e, min(ds), max(ds))
    return ord(c)


def sxchr(i):
    return chr(i)


STDOUT = []  # lists that collect what is printed


def sxprint(*args, **kwargs):
    """print: rendered to str (as print does) but only written to a file
    object given explicitly, or to a list that collects output."""
    f = kwargs.get('file')
    text = strfmt.sxjoin(kwargs.get('sep') or ' ',
            [strfmt.sxstr(a) for a in args])
    end = kwargs.get('end', '\n')
    if f is not None and f not in (sys.stderr, sys.stdout):
        f.write(text + ('\n' if end is None else end))
    elif f is not sys.stderr and STDOUT:
        STDOUT[-1].append(text + ('\n' if end is None else end))


def sxany(it):
    for a in it:
        if a:
            return True
    return False


class StringIO:
    """io.StringIO that accepts symbolic strings."""
    def __init__(self, initial='', newline=None):
        self.parts = [initial] if len(initial) else []
        self.pos = 0

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for a in lines:
            self.write(a)

    def getvalue(self):
        return strfmt.sxjoin('', self.parts)

    def read(self, n=-1):
        v = self.getvalue()[self.pos:]
        self.pos += len(v)
        return v

    def readlines(self):
        return list(self)

    def readline(self):
        return next(iter(self), '')

    def __iter__(self):
        while True:
            v = self.getvalue()[self.pos:]
            if not len(v):
                return
            i = v.find('\n')
            line = v if i == -1 else v[:i + 1]
            self.pos += len(line)
            yield line

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def flush(self):
        pass

    def seek(self, n, whence=0):
        self.pos = n

    def tell(self):
        return self.pos


def meth(obj, name, /, *args, **kwargs):
    """obj.name(*args) with symbolic arguments to native str/set/dict."""
    t = type(obj)
    if t is str:
        if name == 'join':
            return strfmt.sxjoin(obj, *args)
        if name == 'format':
            if any(symbolic(a) or not isinstance(a, (str, int, float))
                    for a in args) or any(symbolic(a)
                    for a in kwargs.values()):
                return strfmt.bracesformat(obj, args, kwargs)
            return obj.format(*args, **kwargs)
        for a in args:
            if symbolic(a):
                if type(a) is SymInt:
                    continue
                return getattr(SymStr(obj), name)(*args, **kwargs)
        if name == 'translate' and args and type(args[0]) in (SDict, SxDict):
            return obj.translate(dict(args[0].items()))
        return getattr(obj, name)(*args, **kwargs)
    if t in (dict, set, frozenset, _collections.OrderedDict,
            _collections.defaultdict, _collections.Counter):
        if name == 'get' and symbolic(args[0]):
            for k in obj:
                if k == args[0]:
                    return obj[k]
            return args[1] if len(args) > 1 else None
    return getattr(obj, name)(*args, **kwargs)


def contains(a, b):
    t = type(b)
    if t is str:
        if type(a) is SymStr:
            return mkbool(SymStr(b)._containscond(a))
        return a in b
    if t is SymStr:
        return mkbool(b._containscond(a))
    if t in (dict, set, frozenset) and symbolic(a):
        return sxany(k == a for k in b)
    if t is range and type(a) is SymInt and b.step == 1:
        return (a >= b.start) & (a < b.stop)
    return a in b


def notcontains(a, b):
    r = contains(a, b)
    if type(r) is SymBool:
        import z3
        return mkbool(z3.Not(r.e))
    return not r


def mod(a, b):
    t = type(a)
    if t is str or t is SymStr:
        return strfmt.percentformat(a, b)
    return a % b


def getitem(obj, key):
    if type(obj) is dict and symbolic(key):
        for k in obj:
            if k == key:
                return obj[k]
        raise KeyError(key)
    return obj[key]


def tick():
    budget[0] += 1
    if budget[0] > budget[1]:
        raise core.PathBudget('more than %d loop iterations/calls on one '
                'path' % budget[1])


def fn(name):
    functions.add(name)
    budget[0] += 1
    if budget[0] > budget[1]:
        raise core.PathBudget('more than %d loop iterations/calls on one '
                'path' % budget[1])


def mkdict(pairs):
    d = SxDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d._t.put(k, v)
    return d


_STAR = object()


def mkset(items):
    return SxSet(items)


HELPERS = dict(_sx_dict=mkdict, _sx_set=mkset, _sx_meth=meth, _sx_in=contains,
        _sx_notin=notcontains, _sx_mod=mod, _sx_join=strfmt.sxjoin,
        _sx_format=strfmt.sxformat, _sx_fn=fn, _sx_tick=tick, _sx_star=_STAR,
        _sx_getitem=getitem, _sx_native=strfmt.native)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def call(self, node, name, args):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args,
                []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = [ast.Tuple([ast.Name('_sx_star', ast.Load())
                if k is None else k, v], ast.Load())
                for k, v in zip(node.keys, node.values)]
        return self.call(node, '_sx_dict', [ast.List(pairs, ast.Load())])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call(node, '_sx_set', [ast.List(node.elts, ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.call(node, '_sx_dict', [ast.GeneratorExp(
                ast.Tuple([node.key, node.value], ast.Load()),
                node.generators)])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call(node, '_sx_set', [ast.GeneratorExp(node.elt,
                node.generators)])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                (ast.In, ast.NotIn)):
            return self.call(node, '_sx_in' if isinstance(node.ops[0], ast.In)
                    else '_sx_notin', [node.left, node.comparators[0]])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call(node, '_sx_mod', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], self.call(
                    node, '_sx_mod', [ast.Name(node.target.id, ast.Load()),
                    node.value])), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = chr(v.conversion) if v.conversion != -1 else ''
                spec = (self.visit_JoinedStr(v.format_spec)
                        if v.format_spec is not None
                        else ast.Constant(''))
                parts.append(self.call(node, '_sx_format',
                        [val, ast.Constant(conv), spec]))
        return self.call(node, '_sx_join', [ast.Constant(''),
                ast.List(parts, ast.Load())])

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Attribute)
                and node.func.attr in STRMETHODS
                and not (isinstance(node.func.value, ast.Call)
                    and isinstance(node.func.value.func, ast.Name)
                    and node.func.value.func.id == 'super')):
            node.args = [node.func.value, ast.Constant(node.func.attr)
                    ] + node.args
            node.func = ast.copy_location(ast.Name('_sx_meth', ast.Load()),
                    node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, ast.Slice) and not isinstance(
                node.slice, ast.Constant) and isinstance(
                node.value, ast.Attribute):
            return self.call(node, '_sx_getitem', [node.value, node.slice])
        return node

    def visit_Match(self, node):
        return self.generic_visit(node)

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(self.call(node,
                '_sx_tick', [])), node))
        return node
    visit_While = visit_For = _loop

    def _def(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        decs = node.decorator_list
        self.generic_visit(node)
        self.stack.pop()
        first = 0
        if (node.body and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            first = 1
        node.body.insert(first, ast.copy_location(ast.Expr(self.call(node,
                '_sx_fn', [ast.Constant(qual)])), node))
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = _def

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        for st in node.body:
            if (isinstance(st, ast.FunctionDef)
                    and st.name in ('__repr__', '__str__')):
                st.decorator_list.append(ast.copy_location(ast.Name(
                        '_sx_native', ast.Load()), st))
        return node


class Stub:
    """Placeholder for something from a module outside the encoding."""
    def __init__(self, name):
        self.__dict__['name'] = name

    def __call__(self, *a, **k):
        raise core.Inconclusive('call of unencoded %s' % self.name)

    def __getattr__(self, attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        return Stub('%s.%s' % (self.name, attr))


class StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Stub('%s.%s' % (self.__name__, name))


class SxModule(types.ModuleType):
    pass


FILEPREFIX = '/symbolic/'


class MemFile(StringIO):
    """File in memory with possibly symbolic contents."""
    def __init__(self, files, name, initial=''):
        StringIO.__init__(self, initial)
        self.files, self.name, self.initial = files, name, len(initial)
        files[name] = initial

    def write(self, s):
        n = StringIO.write(self, s)
        self.files[self.name] = self.getvalue()
        return n

    def close(self):
        pass


def recode(text, written, read, errors=None):
    """Text as read with an encoding other than that it was written in."""
    import codecs
    written = codecs.lookup(written or 'utf8').name
    read = codecs.lookup(read or 'utf8').name
    if written == read:
        return text
    if type(text) is not str:
        raise core.Inconclusive('decoding of symbolic text')
    return text.encode(written).decode(read, errors or 'strict')


FILES = {}
MTIMES = {}


def touch(name, t=None):
    """Set modification time; each time is later than those before."""
    MTIMES[name] = 1000 + len(MTIMES) + max(MTIMES.values(),
            default=0) if t is None else t


class BinFile:
    """File in memory opened for reading bytes."""
    def __init__(self, name, contents):
        self.name, self.contents, self.pos = name, contents, 0

    def read(self, n=-1):
        if n is not None and n < -1:
            raise ValueError('read length must be non-negative or -1')
        v = self.contents[self.pos:] if n is None or n < 0 else \
                self.contents[self.pos:self.pos + n]
        self.pos += len(v)
        return v

    def readline(self):
        rest = self.contents[self.pos:]
        i = rest.find(b'\n')
        return self.read(-1 if i == -1 else i + 1)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while self.pos < len(self.contents):
            yield self.readline()

    def seek(self, n, whence=0):
        self.pos = n + (0, self.pos, len(self.contents))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class MMap:
    """Read-only memory map of BinFile; not the whole interface of bytes."""
    def __init__(self, fileno, length=0, *args, **kwargs):
        if not isinstance(fileno, BinFile) or length:
            raise core.Inconclusive('mmap')
        self.contents, self.pos = fileno.contents, 0
        if not len(self.contents):
            raise ValueError('cannot mmap an empty file')

    def __len__(self):
        return len(self.contents)

    def __getitem__(self, i):
        return self.contents[i]

    def find(self, *args):
        return self.contents.find(*args)

    def rfind(self, *args):
        return self.contents.rfind(*args)

    def size(self):
        return len(self.contents)

    read, readline, seek, tell = (BinFile.read, BinFile.readline,
            BinFile.seek, BinFile.tell)

    def close(self):
        pass


class NumPy(types.ModuleType):
    """numpy, with .npz files in memory."""
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')

    def __getattr__(self, name):
        import numpy
        return getattr(numpy, name)

    def savez_compressed(self, name, **arrays):
        if not name.startswith(FILEPREFIX):
            raise core.Inconclusive('savez(%r)' % name)
        if not name.endswith('.npz'):
            name += '.npz'
        FILES[name] = {a: self.asarray(b).copy() for a, b in arrays.items()}
    savez = savez_compressed

    def load(self, name, *args, **kwargs):
        return loadarrays(name)


def loadarrays(name, *args, **kwargs):
    if not isinstance(name, str) or not name.startswith(FILEPREFIX):
        import numpy
        return numpy.load(name, *args, **kwargs)
    if type(FILES.get(name)) is not dict:
        raise FileNotFoundError(name)
    return dict(FILES[name])


class LiteModule(types.ModuleType):
    """Stands in for an extension module of which only the constants defined
    with re.compile() are needed; any other use is inconclusive."""
    def fill(self, path, short):
        import re as _re
        names = [short + '.pyx']
        with open(os.path.join(path, names[0]), encoding='utf8') as inp:
            names += _re.findall(r'^include "(.*)"', inp.read(), _re.M)
        for name in names:
            with open(os.path.join(path, name), encoding='utf8') as inp:
                src = inp.read()
            for m in _re.finditer(r'^(\w+) = re\.compile\(.*\n(?:\t.*\n)*',
                    src, _re.M):
                ns = {'re': regex}
                exec(m.group(0), ns)
                self.__dict__[m.group(1)] = ns[m.group(1)]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from .core import Inconclusive

        class Missing:
            def __init__(self, *args, **kwargs):
                raise Inconclusive('extension module: ' + name)
        return Missing


def roaringbitmap():
    """Stand-in for the third-party module roaringbitmap."""
    mod = types.ModuleType('roaringbitmap')

    class RoaringBitmap(set):
        def __iter__(self):
            return iter(sorted(set.__iter__(self)))

        def __getitem__(self, n):
            return list(self)[n]

        def __and__(self, other):
            return RoaringBitmap(set.__and__(self, set(other)))

        def __or__(self, other):
            return RoaringBitmap(set.__or__(self, set(other)))

        def intersection(self, *args):
            return RoaringBitmap(set.intersection(self, *args))

        def clamp(self, start, stop):
            return RoaringBitmap(a for a in set.__iter__(self)
                    if start <= a < stop)

        def freeze(self):
            return self

        def select(self, n):
            if not 0 <= n < len(self):
                raise IndexError('select: index %d out of range' % n)
            return list(self)[n]

        def rank(self, x):
            return sum(1 for a in set.__iter__(self) if a <= x)

        def min(self):
            return min(set.__iter__(self))

        def max(self):
            return max(set.__iter__(self))

    class MultiRoaringBitmap(list):
        def __init__(self, items=(), filename=None):
            list.__init__(self, items)
            if filename is not None:
                if not filename.startswith(FILEPREFIX):
                    raise core.Inconclusive('write %r' % filename)
                FILES[filename] = ('mrb', tuple(self))
                touch(filename)

        @classmethod
        def fromfile(cls, filename):
            if type(FILES[filename]) is not tuple:
                raise core.Inconclusive('not a bitmap: %r' % filename)
            return cls(FILES[filename][1])

        def get(self, n):
            return self[n]

        def close(self):
            pass

        def intersection(self, indices, start=None, stop=None):
            out = None
            for i in indices:
                if self[i] is None:
                    return RoaringBitmap()
                out = set(self[i]) if out is None else out & set(self[i])
            return RoaringBitmap(a for a in out if (start is None
                    or a >= start) and (stop is None or a < stop))
    mod.RoaringBitmap, mod.MultiRoaringBitmap = (RoaringBitmap,
            MultiRoaringBitmap)
    return mod


class Universe:
    """The instrumented discodop package."""
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = {}
        self.lite = set()  # extension modules of which only constants are used
        col = types.ModuleType('collections')
        col.__dict__.update({k: v for k, v in _collections.__dict__.items()
                if not k.startswith('__')})
        col.defaultdict = SxDefaultDict
        col.Counter = SCounter
        col.OrderedDict = SOrderedDict
        io = types.ModuleType('io')
        import io as _io
        io.__dict__.update({k: v for k, v in _io.__dict__.items()
                if not k.startswith('__')})
        io.StringIO = StringIO
        # in-memory files (name -> contents), see ctx.file()
        self.files = {}
        self.encodings = {}
        io.open = self.open
        import codecs as _codecs
        codecs = types.ModuleType('codecs')
        codecs.__dict__.update({k: v for k, v in _codecs.__dict__.items()
                if not k.startswith('__')})
        codecs.open = self.open

        def wrapper(getter):
            def get(encoding):
                real = getter(encoding)
                return lambda f, *a: (f if isinstance(f, MemFile)
                        else real(f, *a))
            return get
        codecs.getwriter = wrapper(_codecs.getwriter)
        codecs.getreader = wrapper(_codecs.getreader)
        import fnmatch
        import glob as _glob
        globmod = types.ModuleType('glob')

        def glob(path, *args, **kwargs):
            if not path.startswith(FILEPREFIX):
                return _glob.glob(path, *args, **kwargs)
            return [a for a in self.files if fnmatch.fnmatchcase(a, path)]
        globmod.glob = glob
        osmod = types.ModuleType('os')
        osmod.__dict__.update({k: v for k, v in os.__dict__.items()
                if not k.startswith('__')})
        osmod.path = types.ModuleType('os.path')
        osmod.path.__dict__.update({k: v for k, v in os.path.__dict__.items()
                if not k.startswith('__')})

        def isfile(real):
            return lambda path: (path in self.files if isinstance(path, str)
                    and path.startswith(FILEPREFIX) else real(path))
        osmod.path.exists = isfile(os.path.exists)
        osmod.path.isfile = isfile(os.path.isfile)

        def mkdir(path, *args, **kwargs):
            if not path.startswith(FILEPREFIX):
                raise core.Inconclusive('mkdir(%r)' % path)
            if path in self.files:
                raise FileExistsError(path)
            self.files[path] = None
        osmod.mkdir = osmod.makedirs = mkdir

        def stat(path, *args, **kwargs):
            if not str(path).startswith(FILEPREFIX):
                return os.stat(path, *args, **kwargs)
            if path not in self.files:
                raise FileNotFoundError(path)
            if path not in MTIMES:
                touch(path)
            x = self.files[path]
            return types.SimpleNamespace(st_mtime=MTIMES[path],
                    st_mtime_ns=MTIMES[path] * 10 ** 9,
                    st_size=len(values.textbytes(x)) if type(x) in (str,
                        SymStr) else 0)
        osmod.stat = stat
        osmod.path.getmtime = lambda x: stat(x).st_mtime
        osmod.path.getsize = lambda x: stat(x).st_size

        def osopen(path, *args, **kwargs):
            if not path.startswith(FILEPREFIX):
                raise core.Inconclusive('os.open(%r)' % path)
            return self.open(path, 'rb')
        osmod.open = osopen
        osmod.close = lambda x: None
        import mmap as _mmap
        mmap = types.ModuleType('mmap')
        mmap.__dict__.update({k: v for k, v in _mmap.__dict__.items()
                if not k.startswith('__')})
        mmap.mmap = MMap
        import gzip as _gzip
        gzip = types.ModuleType('gzip')
        gzip.__dict__.update({k: v for k, v in _gzip.__dict__.items()
                if not k.startswith('__')})

        def gzopen(name, mode='rb', *args, **kwargs):
            if isinstance(name, str) and name.startswith(FILEPREFIX):
                return self.open(name, mode)  # compression is not modeled
            return _gzip.open(name, mode, *args, **kwargs)
        gzip.open = gzopen
        import logging as _logging
        logging = types.ModuleType('logging')
        logging.__dict__.update({k: v for k, v in _logging.__dict__.items()
                if not k.startswith('__')})
        logging.FileHandler = lambda *args, **kwargs: _logging.NullHandler()
        import json as _json
        json = types.ModuleType('json')

        def nat(x):
            if isinstance(x, dict):
                return {nat(a): nat(b) for a, b in x.items()}
            if isinstance(x, (list, tuple)):
                return [nat(a) for a in x]
            if x is None or type(x) in (bool, int, float, str):
                return x
            raise core.Inconclusive('json of %s' % type(x).__name__)
        json.dumps = lambda x: _json.dumps(nat(x))
        json.loads = lambda x: _json.loads(x)
        json.load = lambda f: _json.loads(f.read())
        global FILES
        FILES = self.files
        self.subst = {'concurrent.futures': futures(), 'mmap': mmap,
                'json': json, 'gzip': gzip, 'logging': logging, 'numpy': NumPy(),
                'os': osmod, 'glob': globmod, 're': regex, 'collections': col, 'io': io,
                'codecs': codecs, 'roaringbitmap': roaringbitmap()}
        self.pkg = SxModule('discodop')
        self.pkg.__path__ = [os.path.join(self.repo, 'discodop')]
        self.mods['discodop'] = self.pkg
        b = dict(builtins.__dict__)
        b.update(str=SxStr, int=SxInt, float=SxFloat, dict=SxDict, set=SxSet,
                frozenset=SxFrozenSet, type=sxtype, hash=sxhash, ord=sxord,
                repr=strfmt.sxrepr, print=sxprint, open=self.open)
        b['__import__'] = self.imp
        self.builtins = b

    def open(self, name, mode='r', *args, **kwargs):
        if not isinstance(name, str) or not name.startswith(FILEPREFIX):
            return open(name, mode, *args, **kwargs)
        if 'r' in mode and '+' not in mode:
            if name not in self.files:
                raise FileNotFoundError(name)
            if 'b' in mode and values.SYMBYTES and type(self.files[name]) in (
                    str, SymStr):
                return BinFile(name, values.textbytes(self.files[name]))
            if 'b' in mode and type(self.files[name]) is str:
                import io as _io
                return _io.BytesIO(self.files[name].encode('utf8'))
            text = self.files[name]
            if 'b' not in mode:
                text = recode(text, self.encodings.get(name),
                        kwargs.get('encoding'), kwargs.get('errors'))
            if text is not self.files[name]:
                return StringIO(text)
            return MemFile(self.files, name, text)
        self.encodings[name] = kwargs.get('encoding')
        return MemFile(self.files, name)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in self.subst:
            if name == 'concurrent.futures' and fromlist:
                return self.subst[name].futures
            return self.subst[name]
        if level == 0 and name == 'os.path':
            return self.subst['os'].path if fromlist else self.subst['os']
        if level == 0 and not (name == 'discodop'
                or name.startswith('discodop.')):
            try:
                return __import__(name, globals, locals, fromlist, level)
            except ImportError:
                if name in ('grapheme', ):
                    raise
                raise
        if level:
            pkg = 'discodop'
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full == 'discodop':
            for f in fromlist or ():
                if f == '__version__':
                    setattr(self.pkg, f, '')
                elif f not in self.pkg.__dict__:
                    setattr(self.pkg, f, self.load('discodop.' + f))
            return self.pkg
        mod = self.load(full)
        if not fromlist:
            return self.pkg
        return mod

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        short = full.split('.', 1)[1]
        base = os.path.join(self.repo, 'discodop', short)
        if short in self.overrides:
            mod = self.overrides[short](self)
        elif os.path.exists(base + '.py'):
            mod = SxModule(full)
            mod.__package__ = 'discodop'
            mod.__file__ = base + '.py'
            self.mods[full] = mod
            with open(base + '.py', encoding='utf8') as inp:
                src = inp.read()
            self.execsource(mod, src, base + '.py', short)
        elif short in self.lite:
            mod = LiteModule(full)
            mod.fill(os.path.dirname(base), short)
        elif os.path.exists(base + '.pyx') or short.startswith('probe'):
            from . import cy
            mod = cy.loadmodule(self, full, short)
        else:
            raise ImportError('No module named %s' % full)
        self.mods[full] = mod
        setattr(self.pkg, short, mod)
        return mod

    def execsource(self, mod, src, filename, short, rewrite=True):
        tree = ast.parse(src, filename)
        if rewrite:
            tree = Rewriter(short).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, filename, 'exec')
        mod.__dict__['__builtins__'] = self.builtins
        mod.__dict__.update(HELPERS)
        old = list(budget)
        budget[:] = [0, 10 ** 9]
        exec(code, mod.__dict__)
        budget[:] = old

    def get(self, short):
        return self.load('discodop.' + short)
