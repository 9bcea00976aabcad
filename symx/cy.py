"""Translate the repository's Cython sources to Python for the encoding.

The .pyx/.pxd text is parsed with Cython's own parser on every run.  The
emitted Python follows C semantics where it matters: fixed-width integer
conversion, unsigned arithmetic and comparison, C division, value semantics of
structs, pointers, references; the C++ containers are modelled in cyrt."""
import os
import re
import ast
from . import core
from . import cyrt


class T:
    """A (best effort) C type."""
    __slots__ = ('kind', 'name', 'width', 'signed', 'base', 'args', 'fields',
            'n', 'union')

    def __init__(self, kind, name='', **kw):
        self.kind, self.name = kind, name
        self.width = self.signed = self.base = self.args = None
        self.fields = self.n = self.union = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


def I(name, width, signed):
    return T('int', name, width=width, signed=signed)


OBJ = T('obj', 'object')
VOID = T('void', 'void')
BINT = T('bint', 'bint', width=32, signed=True)
F64 = T('float', 'double')
INT = I('i32', 32, True)
UINT = I('u32', 32, False)
I64 = I('i64', 64, True)
U64 = I('u64', 64, False)
STRING = T('string', 'string')
CHARP = T('charp', 'char*')
BASIC = {'int': INT, 'uint8_t': I('u8', 8, False), 'int8_t': I('i8', 8, True),
        'uint16_t': I('u16', 16, False), 'int16_t': I('i16', 16, True),
        'uint32_t': UINT, 'int32_t': INT, 'uint64_t': U64, 'int64_t': I64,
        'size_t': U64, 'Py_ssize_t': I64, 'ssize_t': I64, 'double': F64,
        'float': F64, 'bint': BINT, 'bool': BINT, 'void': VOID,
        'object': OBJ, 'list': OBJ, 'dict': OBJ, 'set': OBJ, 'tuple': OBJ,
        'str': OBJ, 'bytes': OBJ, 'unicode': OBJ, 'frozenset': OBJ,
        'array': OBJ, 'string': STRING, 'Py_buffer': OBJ, 'FILE': OBJ}
HASHMAPS = ('sparse_hash_map', 'RuleHashMap')
HASHSETS = ('sparse_hash_set', 'SmallChartItemSet', 'FatChartItemSet',
        'RankedEdgeSet')
BTREEMAPS = ('SmallChartItemBtreeMap', 'FatChartItemBtreeMap')
AGENDAS = ('Agenda', 'SmallChartItemAgenda', 'RankedEdgeAgenda')
CPPNAMES = HASHMAPS + HASHSETS + BTREEMAPS + AGENDAS + (
        'vector', 'pair', 'btree_set', 'unordered_map', 'unordered_set')
U64METHODS = {'size', 'count', 'length'}
BINTMETHODS = {'empty', 'member'}


class Func:
    def __init__(self, name, ret, args, fused=None):
        self.name, self.ret, self.args, self.fused = name, ret, args, fused


class Cls:
    def __init__(self, name):
        self.name, self.bases, self.attrs, self.methods = name, [], {}, {}

    def attr(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            r = b.attr(name)
            if r is not None:
                return r
        return None

    def method(self, name):
        if name in self.methods:
            return self.methods[name]
        for b in self.bases:
            r = b.method(name)
            if r is not None:
                return r
        return None


_parsed = {}
PROBES = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'shims', 'probe')
APPEND = os.path.join(os.path.dirname(PROBES), 'append')


def parsefile(repo, fname):
    """Parse a .pyx/.pxd file after splicing in textual includes."""
    base = os.path.join(repo, 'discodop')
    path = os.path.join(base, fname)
    if fname.startswith('probe'):
        path = os.path.join(PROBES, fname)
    with open(path, encoding='utf8') as inp:
        src = inp.read()
    if os.path.exists(os.path.join(APPEND, fname)):
        with open(os.path.join(APPEND, fname), encoding='utf8') as inp:
            src += inp.read()

    def inc(m):
        with open(os.path.join(base, m.group(1)), encoding='utf8') as inp:
            return inp.read()
    src = re.sub(r'^include "(.*?)"\s*$', inc, src, flags=re.M)
    key = (fname, hash(src))
    if key not in _parsed:
        from Cython.Compiler.TreeFragment import parse_from_strings
        from Cython.Compiler import Errors
        Errors.init_thread()
        _parsed[key] = parse_from_strings(fname.replace('.', '_'), src,
                level='module_pxd' if fname.endswith('pxd') else 'module')
    return _parsed[key]


class Scope:
    """Names of a module: types, functions, classes, variables."""
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.classes = {}
        self.vars = {}
        self.imports = []  # (module, name, asname)
        self.modcimports = {}


class Translator:
    def __init__(self, repo):
        self.repo = repo
        self.scopes = {}

    # -- declarations ------------------------------------------------------
    def scope(self, short):
        """Scope with the declarations from the module's .pxd."""
        if short in self.scopes:
            return self.scopes[short]
        sc = self.scopes[short] = Scope(short)
        if os.path.exists(os.path.join(self.repo, 'discodop',
                short + '.pxd')):
            self.declare(sc, parsefile(self.repo, short + '.pxd').body)
        return sc

    def declare(self, sc, node):
        t = type(node).__name__
        if t == 'StatListNode':
            for a in node.stats:
                self.declare(sc, a)
        elif t == 'CDefExternNode':
            self.declare(sc, node.body)
        elif t == 'FromCImportStatNode':
            self.cimport(sc, node)
        elif t == 'CImportStatNode':
            sc.modcimports[node.as_name or node.module_name] = (
                    node.module_name)
        elif t == 'CTypeDefNode':
            name, typ = self.declarator(sc, node.declarator,
                    self.basetype(sc, node.base_type))
            sc.types[name] = typ
        elif t == 'FusedTypeNode':
            sc.types[node.name] = T('fused', node.name, args=[
                    self.basetype(sc, a) for a in node.types])
        elif t == 'CStructOrUnionDefNode':
            if node.attributes is None:
                return
            typ = T('struct', node.name, fields={},
                    union=node.kind == 'union')
            typ.n = bool(node.packed)
            sc.types[node.name] = typ
            for a in node.attributes:
                for d in a.declarators:
                    n, ft = self.declarator(sc, d,
                            self.basetype(sc, a.base_type))
                    typ.fields[n] = ft
        elif t == 'CppClassNode':
            if node.name in CPPNAMES:
                return
            typ = T('struct', node.name, fields={}, union=False)
            sc.types[node.name] = typ
            for a in node.attributes or ():
                if type(a).__name__ != 'CVarDefNode':
                    continue
                for d in a.declarators:
                    if type(d).__name__ == 'CFuncDeclaratorNode':
                        continue
                    try:
                        n, ft = self.declarator(sc, d,
                                self.basetype(sc, a.base_type))
                    except KeyError:
                        continue
                    if ft.kind != 'func':
                        typ.fields[n] = ft
        elif t == 'CEnumDefNode':
            pass
        elif t == 'CClassDefNode':
            name = node.class_name
            c = sc.classes.get(name) or Cls(name)
            sc.classes[name] = c
            sc.types[name] = T('class', name, base=c)
            if node.bases is not None:
                for b in node.bases.args:
                    bn = getattr(b, 'name', getattr(b, 'attribute', ''))
                    bc = self.findclass(sc, bn)
                    if bc is not None and bc not in c.bases:
                        c.bases.append(bc)
            if node.body is not None:
                self.classdecl(sc, c, node.body)
        elif t == 'CVarDefNode':
            for d in node.declarators:
                bt = self.basetype(sc, node.base_type)
                n, typ = self.declarator(sc, d, bt)
                if typ.kind == 'func':
                    sc.funcs[n] = Func(n, typ.base, typ.args)
                else:
                    sc.vars[n] = typ
        elif t == 'CFuncDefNode':
            f = self.funcinfo(sc, node)
            sc.funcs[f.name] = f

    def findclass(self, sc, name):
        return sc.classes.get(name)

    def classdecl(self, sc, c, node):
        t = type(node).__name__
        if t == 'StatListNode':
            for a in node.stats:
                self.classdecl(sc, c, a)
        elif t == 'CVarDefNode':
            bt = self.basetype(sc, node.base_type)
            for d in node.declarators:
                n, typ = self.declarator(sc, d, bt)
                if typ.kind == 'func':
                    c.methods[n] = Func(n, typ.base, typ.args[1:])
                else:
                    c.attrs[n] = typ
        elif t == 'CFuncDefNode':
            f = self.funcinfo(sc, node)
            f.args = f.args[1:]
            c.methods[f.name] = f

    def funcinfo(self, sc, node):
        ret = self.basetype(sc, node.base_type)
        name, typ = self.declarator(sc, node.declarator, ret)
        fused = None
        for _, at in typ.args:
            if at.kind == 'fused' and at.args[0].kind in ('int', 'float'):
                fused = at
        return Func(name, typ.base, typ.args, fused)

    def cimport(self, sc, node):
        mod = node.module_name
        if node.relative_level:
            other = self.scope(mod)
        elif mod.startswith('discodop.'):
            other = self.scope(mod.split('.', 1)[1])
        else:
            for item in node.imported_names:
                name, asname = item[1], item[2] or item[1]
                if name in BASIC:
                    sc.types[asname] = BASIC[name]
                elif asname != name:
                    sc.imports.append(('!rt', name, asname))
            return
        for item in node.imported_names:
            name, asname = item[1], item[2] or item[1]
            if name in other.types:
                sc.types[asname] = other.types[name]
            if name in other.classes:
                sc.classes[asname] = other.classes[name]
                sc.imports.append((other.name, name, asname))
            if name in other.funcs:
                sc.funcs[asname] = other.funcs[name]
                sc.imports.append((other.name, name, asname))
            if name in other.vars:
                sc.vars[asname] = other.vars[name]
                sc.imports.append((other.name, name, asname))

    # -- types -------------------------------------------------------------
    def basetype(self, sc, node):
        t = type(node).__name__
        if t == 'CSimpleBaseTypeNode':
            name = node.name
            if node.is_basic_c_type:
                if name == 'char':
                    return T('int', 'i8', width=8, signed=True)
                if name == 'int':
                    w = {-1: 16, 0: 32, 1: 64, 2: 64}[node.longness]
                    s = bool(node.signed)
                    return I('%s%d' % ('iu'[not s], w), w, s)
                return BASIC.get(name, OBJ)
            if node.is_self_arg or name is None:
                return OBJ
            return self.named(sc, name)
        elif t in ('CComplexBaseTypeNode', ):
            return self.declarator(sc, node.declarator,
                    self.basetype(sc, node.base_type))[1]
        elif t == 'CQualifierTypeNode':
            return self.basetype(sc, node.base_type)
        elif t == 'TemplatedTypeNode':
            base = node.base_type_node
            name = base.name
            args = [self.basetype(sc, a) if type(a).__name__.endswith(
                    'TypeNode') else self.exprtype(sc, a)
                    for a in node.positional_args]
            return self.template(name, args)
        elif t == 'CNestedBaseTypeNode':
            return OBJ
        elif t == 'CTupleBaseTypeNode':
            return OBJ
        elif t in ('MemoryViewSliceTypeNode', 'BufferAccessNode'):
            return OBJ
        return OBJ

    def exprtype(self, sc, a):
        if type(a).__name__ == 'IndexNode':
            args = (a.index.args if type(a.index).__name__ == 'TupleNode'
                    else [a.index])
            return self.template(a.base.name, [self.exprtype(sc, b)
                    for b in args])
        name = getattr(a, 'name', None)
        return self.named(sc, name) if name else OBJ

    def template(self, name, args):
        if name in CPPNAMES:
            return T('cpp', name, args=args)
        return OBJ

    def named(self, sc, name):
        if name in sc.types:
            return sc.types[name]
        if name in BASIC:
            return BASIC[name]
        if name in CPPNAMES:
            return T('cpp', name, args=self.implied(sc, name))
        return OBJ

    def implied(self, sc, name):
        for prefix in ('SmallChartItem', 'FatChartItem', 'RankedEdge'):
            if name.startswith(prefix):
                return [self.named(sc, prefix)]
        return []

    def declarator(self, sc, d, base):
        """Return (name, type) for a declarator applied to a base type."""
        t = type(d).__name__
        if t == 'CNameDeclaratorNode':
            return d.name, base
        elif t == 'CPtrDeclaratorNode':
            if base.kind == 'int' and base.width == 8:
                return self.declarator(sc, d.base, CHARP if base.signed
                        else T('ptr', base=base))
            return self.declarator(sc, d.base, T('ptr', base=base))
        elif t == 'CReferenceDeclaratorNode':
            return self.declarator(sc, d.base, base)
        elif t == 'CConstDeclaratorNode':
            return self.declarator(sc, d.base, base)
        elif t == 'CArrayDeclaratorNode':
            n = None
            if d.dimension is not None:
                n = self.constint(d.dimension)
            return self.declarator(sc, d.base, T('arr', base=base, n=n))
        elif t == 'CFuncDeclaratorNode':
            args = []
            for a in d.args:
                bt = self.basetype(sc, a.base_type)
                n, at = self.declarator(sc, a.declarator, bt)
                if not n:
                    n, at = getattr(a.base_type, 'name', '') or '', OBJ
                args.append((n, at))
            return self.declarator(sc, d.base, T('func', base=base,
                    args=args))
        raise KeyError(t)

    def constint(self, node):
        try:
            return int(node.constant_result)
        except (TypeError, ValueError, AttributeError):
            return int(node.value) if hasattr(node, 'value') else None


def arith(a, b):
    """Usual arithmetic conversions; None if not both C numbers."""
    if a.kind not in ('int', 'bint', 'float') or b.kind not in (
            'int', 'bint', 'float'):
        return None
    if a.kind == 'float' or b.kind == 'float':
        return F64

    def promote(x):
        return INT if x.width < 32 else x
    a, b = promote(a), promote(b)
    if a.width == b.width:
        s = a.signed and b.signed
        return I('%s%d' % ('iu'[not s], a.width), a.width, s)
    x = a if a.width > b.width else b
    return I(x.name if x.kind == 'int' else 'i32', x.width, x.signed)


class Emitter:
    """Emit Python source for one module."""
    def __init__(self, tr, short):
        self.tr = tr
        self.short = short
        self.sc = tr.scope(short)
        self.lines = []
        self.ind = 0
        self.locals = [{}]
        self.boxed = [set()]
        self.ret = [OBJ]
        self.cls = None
        self.tmp = 0
        self.defined = set()

    def emit(self, s):
        self.lines.append('\t' * self.ind + s)

    def lookup(self, name):
        for sc in reversed(self.locals):
            if name in sc:
                return sc[name]
        if name in self.sc.vars:
            return self.sc.vars[name]
        return None

    def isboxed(self, name):
        for sc, bx in zip(reversed(self.locals), reversed(self.boxed)):
            if name in sc:
                return name in bx
        return False

    # -- modules -----------------------------------------------------------
    def module(self):
        tr = self.tr
        body = parsefile(tr.repo, self.short + '.pyx').body
        self.tr.declare_pyx(self.sc, body)
        done = set()
        for mod, name, asname in self.sc.imports:
            if (mod, name, asname) in done or mod == self.short:
                continue
            done.add((mod, name, asname))
            if name == 'BITSIZE' or name in cyrt.RTFUNCS:
                self.emit('%s = _cy.%s' % (asname, name))
            elif mod == '!rt':
                self.emit('%s = _cy.lookup(%r)' % (asname, name))
            else:
                self.emit('from .%s import %s as %s' % (mod, name, asname))
        for name, typ in self.sc.types.items():
            if typ.kind == 'struct':
                self.emit('%s = _cy.struct(%r, %s, %r)' % (name, typ.name,
                        '[%s]' % ', '.join('(%r, %s, %s)' % (n,
                            self.factory(t), self.typespec(t))
                            for n, t in typ.fields.items()),
                        'packed' if typ.n is True else typ.union))
        pxd = os.path.join(tr.repo, 'discodop', self.short + '.pxd')
        if os.path.exists(pxd):
            for st in parsefile(tr.repo, self.short + '.pxd').body.stats:
                if type(st).__name__ == 'CFuncDefNode':
                    self.stat(st)
                elif type(st).__name__ in ('FromImportStatNode', ):
                    self.stat(st)
        self.stat(body)
        # classes without methods exist only in the .pxd
        for name, c in self.sc.classes.items():
            if name not in self.defined and not any(n == name or a == name
                    for _, n, a in self.sc.imports):
                self.emit('class %s:' % name)
                self.emit('\t_sx_fields = {%s}' % ', '.join('%r: %s' % (n,
                        self.factory(t)) for n, t in c.attrs.items()))
                self.emit('\t__new__ = _cy.classnew')
        return '\n'.join(self.lines) + '\n'

    # -- types → runtime ---------------------------------------------------
    def default(self, t):
        """Expression for the initial value of a variable of this type."""
        k = t.kind
        if k in ('int', 'bint'):
            return '0'
        if k == 'float':
            return '0.0'
        if k == 'string':
            return '_cy.string()'
        if k == 'struct':
            return '%s()' % self.structname(t)
        if k == 'arr':
            return '[%s for _ in range(%d)]' % (self.default(t.base),
                    t.n or 0)
        if k == 'cpp':
            return self.cppnew(t)
        return 'None'

    def structname(self, t):
        return '_cy.structs[%r]' % t.name

    def factory(self, t):
        d = self.default(t)
        return 'lambda: ' + d

    def typespec(self, t):
        if t.kind in ('int', 'bint'):
            return repr((t.kind, t.width, bool(t.signed)))
        if t.kind == 'struct':
            return repr(('struct', t.name, 0))
        if t.kind == 'charp':
            return "('ptr', ('int', 8, True))"
        if t.kind == 'ptr':
            return "('ptr', %s)" % self.typespec(t.base)
        return 'None'

    def cppnew(self, t):
        n = t.name
        if n == 'vector':
            a = t.args[0] if t.args else OBJ
            return '_cy.Vector(%s)' % self.factory(a)
        if n == 'pair':
            return '_cy.Pair(%s, %s)' % (self.default(t.args[0]),
                    self.default(t.args[1]))
        if n in HASHMAPS or n == 'unordered_map':
            return '_cy.HashMap(%s)' % self.factory(t.args[-1])
        if n in BTREEMAPS:
            return '_cy.BTreeMap(%s)' % self.factory(t.args[-1])
        if n in HASHSETS or n == 'unordered_set':
            return '_cy.HashSet()'
        if n == 'btree_set':
            return '_cy.BTreeSet()'
        if n in AGENDAS:
            return '_cy.Agenda()'
        raise core.Inconclusive('cython: no model for ' + n)

    def coerce(self, code, src, dst, const=None):
        """Convert expression of type src to type dst (C or Python)."""
        k = dst.kind
        if k == 'int':
            if const is not None:
                lo = -(1 << (dst.width - 1)) if dst.signed else 0
                hi = (1 << (dst.width - dst.signed)) - 1
                if lo <= const <= hi:
                    return code
                return '_cy.%s(%s)' % (dst.name, code)
            if src.kind == 'int':
                if src.width == dst.width and src.signed == dst.signed:
                    return code
                if src.width < dst.width and (not src.signed or dst.signed):
                    return code
                return '_cy.%s(%s)' % (dst.name, code)
            if src.kind in ('obj', 'class'):
                return '_cy.p_%s(%s)' % (dst.name, code)
            return '_cy.%s(%s)' % (dst.name, code)
        if k == 'bint':
            return code if src.kind == 'bint' else '_cy.bint(%s)' % code
        if k == 'float':
            return code if src.kind == 'float' else '_cy.f64(%s)' % code
        if k in ('struct', 'cpp', 'fused'):
            return '_cy.cp(%s)' % code
        if k == 'obj':
            if src.kind == 'bint':
                return '_cy.pybool(%s)' % code
            if src.kind == 'cpp' and src.name == 'vector':
                return code
        if k == 'string' and src.kind == 'obj':
            return '_cy.tobytes(%s)' % code
        return code

    # -- statements --------------------------------------------------------
    def block(self, node):
        self.ind += 1
        n = len(self.lines)
        self.stat(node)
        if len(self.lines) == n:
            self.emit('pass')
        self.ind -= 1

    def stat(self, node):
        if node is None:
            return
        t = type(node).__name__
        f = getattr(self, 's_' + t, None)
        if f is None:
            raise core.Inconclusive('cython statement %s at %s' % (t,
                    node.pos[1:]))
        f(node)

    def s_StatListNode(self, node):
        for a in node.stats:
            self.stat(a)

    def s_PassStatNode(self, node):
        self.emit('pass')

    def s_CImportStatNode(self, node):
        pass
    s_FromCImportStatNode = s_CDefExternNode = s_CTypeDefNode = s_CImportStatNode
    s_FusedTypeNode = s_CStructOrUnionDefNode = s_CppClassNode = s_CImportStatNode
    s_CEnumDefNode = s_CImportStatNode

    def s_FromImportStatNode(self, node):
        mod = node.module
        level = mod.level if mod.level and mod.level > 0 else 0
        name = str(mod.module_name.value)
        if name == '__future__':
            return
        for item, target in node.items:
            if name == 'math' and item in ('exp', 'log', 'isinf', 'fsum'):
                self.emit('%s = _cy.%s' % (target.name, item))
            else:
                self.emit('from %s%s import %s%s' % ('.' * level, name, item,
                        '' if item == '*' else ' as ' + target.name))
            if item != '*' and len(self.locals) > 1:
                self.locals[-1][target.name] = OBJ

    def s_SingleAssignmentNode(self, node):
        r = node.rhs
        if type(r).__name__ == 'ImportNode':
            name = str(r.module_name.value)
            if name == 'numpy':
                self.emit('%s = _cy.NUMPY' % node.lhs.name)
            else:
                self.emit('import %s as %s' % (name, node.lhs.name))
            return
        self.assign(node.lhs, r)

    def assign(self, lhs, rhs):
        lt = type(lhs).__name__
        if lt in ('TupleNode', 'ListNode'):
            if (type(rhs).__name__ in ('TupleNode', 'ListNode')
                    and len(rhs.args) == len(lhs.args)
                    and not any(type(a).__name__ == 'StarredUnpackingNode'
                        for a in list(lhs.args) + list(rhs.args))):
                vals = []
                for a, b in zip(lhs.args, rhs.args):
                    code, typ = self.expr(b)
                    dst = self.typeof(a)
                    vals.append(self.coerce(code, typ, dst, self.const(b)))
                self.emit('%s = %s' % (', '.join(self.target(a)
                        for a in lhs.args), ', '.join(vals)))
            else:
                code, typ = self.expr(rhs)
                old = {}
                for a in lhs.args:
                    if (type(a).__name__ == 'NameNode'
                            and self.typeof(a).kind == 'cpp'
                            and self.lookup(a.name) is not None):
                        self.tmp += 1
                        old[a.name] = '_tmp%d' % self.tmp
                        self.emit('_tmp%d = %s' % (self.tmp, self.target(a)))
                self.emit('%s = %s' % (self.target(lhs), code))
                self.retype(lhs)
                for a in lhs.args:
                    if type(a).__name__ == 'NameNode' and a.name in old:
                        self.emit('%s = _cy.assign(%s, %s)' % (
                                self.target(a), old[a.name], self.target(a)))
            return
        code, typ = self.expr(rhs)
        if (lt == 'NameNode' and self.lookup(lhs.name) is None
                and len(self.locals) > 1 and self.cls is not False):
            # untyped local: inferred where this is a C++ object
            if typ.kind in ('cpp', 'struct', 'ptr'):
                self.locals[-1][lhs.name] = typ
                self.emit('%s = %s' % (self.target(lhs), code if
                        typ.kind == 'ptr' else '_cy.cp(%s)' % code))
                return
        dst = self.typeof(lhs)
        if (lt == 'NameNode' and dst.kind in ('struct', 'cpp')
                and self.lookup(lhs.name) is not None):
            self.emit('%s = _cy.assign(%s, %s)' % (self.target(lhs),
                    self.target(lhs), code))
            return
        self.emit('%s = %s' % (self.target(lhs), self.coerce(code, typ, dst,
                self.const(rhs))))

    def retype(self, lhs):
        """After unpacking: convert typed names."""
        for a in lhs.args:
            if type(a).__name__ in ('TupleNode', 'ListNode'):
                self.retype(a)
                continue
            t = self.typeof(a)
            if t.kind in ('int', 'float', 'bint', 'struct'):
                tg = self.target(a)
                self.emit('%s = %s' % (tg, self.coerce(tg, OBJ, t)))

    def s_CascadedAssignmentNode(self, node):
        code, typ = self.expr(node.rhs)
        self.tmp += 1
        tmp = '_tmp%d' % self.tmp
        self.emit('%s = %s' % (tmp, code))
        for lhs in node.lhs_list:
            if type(lhs).__name__ in ('TupleNode', 'ListNode'):
                self.emit('%s = %s' % (self.target(lhs), tmp))
                continue
            self.emit('%s = %s' % (self.target(lhs), self.coerce(tmp, typ,
                    self.typeof(lhs), self.const(node.rhs))))

    def s_InPlaceAssignmentNode(self, node):
        dst = self.typeof(node.lhs)
        op = node.operator
        tg = self.target(node.lhs)
        code, typ = self.expr(node.rhs)
        if dst.kind in ('int', 'float', 'bint'):
            val, vt = self.binop(op, tg, dst, code, typ,
                    self.const(node.rhs))
            self.emit('%s = %s' % (tg, self.coerce(val, vt, dst)))
        elif op == '%':
            self.emit('%s = %s %% (%s)' % (tg, tg, code))
        else:
            self.emit('%s %s= %s' % (tg, op, code))

    def s_CVarDefNode(self, node):
        if len(self.locals) == 1 and self.cls is None:
            base = self.tr.basetype(self.sc, node.base_type)
            for d in node.declarators:
                name, typ = self.tr.declarator(self.sc, d, base)
                if typ.kind == 'func':
                    continue
                self.sc.vars[name] = typ
                default = d
                while getattr(default, 'base', None) is not None:
                    default = default.base
                default = getattr(default, 'default', None)
                if default is not None and typ.kind != 'arr':
                    code, st = self.expr(default)
                    self.emit('%s = %s' % (name, self.coerce(code, st, typ,
                            self.const(default))))
                else:
                    self.emit('%s = %s' % (name, self.default(typ)))
            return
        if len(self.locals) == 1:
            return  # attributes of a class: handled in __new__
        base = self.tr.basetype(self.sc, node.base_type)
        for d in node.declarators:
            name, typ = self.tr.declarator(self.sc, d, base)
            default = d
            while getattr(default, 'base', None) is not None:
                default = default.base
            default = getattr(default, 'default', None)
            if default is not None:
                code, st = self.expr(default)
                val = self.coerce(code, st, typ, self.const(default))
                if typ.kind == 'arr' and type(default).__name__ == 'ListNode':
                    val = code
            elif typ.kind in ('obj', 'class', 'fused', 'charp'):
                self.locals[-1][name] = typ
                if typ.kind != 'class' or True:
                    self.emit('%s = %s' % (name, '[None]'
                            if name in self.boxed[-1] else 'None'))
                continue
            else:
                val = self.default(typ)
            self.locals[-1][name] = typ
            if name in self.boxed[-1]:
                self.emit('%s = [%s]' % (name, val))
            else:
                self.emit('%s = %s' % (name, val))

    def s_ExprStatNode(self, node):
        self.emit(self.expr(node.expr)[0])

    def s_IfStatNode(self, node):
        for n, c in enumerate(node.if_clauses):
            self.emit('%s %s:' % ('elif' if n else 'if',
                    self.cond(c.condition)))
            self.block(c.body)
        if node.else_clause is not None:
            self.emit('else:')
            self.block(node.else_clause)

    def cond(self, node):
        return self.expr(node)[0]

    def s_WhileStatNode(self, node):
        self.emit('while %s:' % self.cond(node.condition))
        self.block(node.body)
        if node.else_clause is not None:
            self.emit('else:')
            self.block(node.else_clause)

    def iterable(self, node):
        seq = node.iterator.sequence
        return self.expr(seq)[0]

    def s_ForInStatNode(self, node):
        self.emit('for %s in %s:' % (self.target(node.target, bind=True),
                self.iterable(node)))
        self.ind += 1
        if type(node.target).__name__ == 'NameNode':
            t = self.lookup(node.target.name)
            if t is not None and t.kind in ('struct', ):
                self.emit('%s = _cy.cp(%s)' % (node.target.name,
                        node.target.name))
            elif (t is not None and t.kind == 'int'
                    and not self.israngeloop(node)):
                tg = self.target(node.target)
                self.emit('%s = %s' % (tg, self.coerce(tg, OBJ, t)))
        elif type(node.target).__name__ in ('TupleNode', 'ListNode'):
            self.retype(node.target)
        self.ind -= 1
        self.block(node.body)
        if node.else_clause is not None:
            self.emit('else:')
            self.block(node.else_clause)

    @staticmethod
    def israngeloop(node):
        f = getattr(node.iterator.sequence, 'function', None)
        return getattr(f, 'name', None) == 'range'

    def s_BreakStatNode(self, node):
        self.emit('break')

    def s_ContinueStatNode(self, node):
        self.emit('continue')

    def s_ReturnStatNode(self, node):
        if node.value is None:
            self.emit('return')
            return
        code, typ = self.expr(node.value)
        self.emit('return ' + self.coerce(code, typ, self.ret[-1],
                self.const(node.value)))

    def s_RaiseStatNode(self, node):
        s = 'raise'
        if node.exc_type is not None:
            s += ' ' + self.expr(node.exc_type)[0]
            if node.exc_value is not None:
                s += '(%s)' % self.expr(node.exc_value)[0]
            if getattr(node, 'cause', None) is not None:
                s += ' from ' + self.expr(node.cause)[0]
        self.emit(s)

    def s_ReraiseStatNode(self, node):
        self.emit('raise')

    def s_AssertStatNode(self, node):
        s = 'assert ' + self.expr(node.condition)[0]
        v = getattr(node, 'value', None)
        if v is None and node.exception is not None:
            v = getattr(node.exception, 'exc_value', None)
        if v is not None:
            s += ', ' + self.expr(v)[0]
        self.emit(s)

    def s_DelStatNode(self, node):
        for a in node.args:
            if type(a).__name__ == 'NameNode' and self.lookup(a.name) is not None and self.lookup(
                    a.name).kind == 'ptr':
                continue
            self.emit('del ' + self.target(a))

    def s_GlobalNode(self, node):
        self.emit('global ' + ', '.join(node.names))

    def s_NonlocalNode(self, node):
        self.emit('nonlocal ' + ', '.join(node.names))

    def s_TryExceptStatNode(self, node):
        self.emit('try:')
        self.block(node.body)
        for c in node.except_clauses:
            s = 'except'
            if c.pattern:
                pats = [self.expr(p)[0] for p in c.pattern]
                s += ' ' + (pats[0] if len(pats) == 1
                        else '(%s)' % ', '.join(pats))
                if c.target is not None:
                    s += ' as ' + c.target.name
            self.emit(s + ':')
            self.block(c.body)
        if node.else_clause is not None:
            self.emit('else:')
            self.block(node.else_clause)

    def s_TryFinallyStatNode(self, node):
        self.emit('try:')
        self.block(node.body)
        self.emit('finally:')
        self.block(node.finally_clause)

    def s_GILStatNode(self, node):
        self.stat(node.body)

    def s_GILExitNode(self, node):
        self.stat(getattr(node, 'body', None))

    def s_WithStatNode(self, node):
        s = 'with ' + self.expr(node.manager)[0]
        if node.target is not None:
            s += ' as ' + self.target(node.target)
        self.emit(s + ':')
        self.block(node.body)

    # -- functions and classes ---------------------------------------------
    def decorators(self, node):
        for d in node.decorators or ():
            code = self.expr(d.decorator)[0]
            if not code.startswith('cython.'):
                self.emit('@' + code)

    def s_DefNode(self, node):
        if node.name == '__reduce__':
            pass
        self.decorators(node)
        args = []
        for a in node.args:
            bt = self.tr.basetype(self.sc, a.base_type)
            name, typ = self.tr.declarator(self.sc, a.declarator, bt)
            if not name:
                name, typ = a.base_type.name, OBJ
            args.append((name, typ, a.default, a.kw_only))
        self.function(node.name, args, OBJ, node.body, node.star_arg,
                node.starstar_arg, node.doc)

    def s_CFuncDefNode(self, node):
        self.decorators(node)
        ret = self.tr.basetype(self.sc, node.base_type)
        name, typ = self.tr.declarator(self.sc, node.declarator, ret)
        d = node.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        args = []
        for (n, t), a in zip(typ.args, d.args):
            args.append((n, t, a.default, False))
        info = self.tr.funcinfo(self.sc, node)
        # forward declarations in a pxd have no body
        self.function(name, args, typ.base, node.body, None, None,
                node.doc, info.fused, cdef=True)

    def function(self, name, args, ret, body, star, starstar, doc,
            fused=None, cdef=False):
        params = []
        incls = self.cls is not None and len(self.locals) == 1
        kwonly = False
        for n, (an, at, default, kw) in enumerate(args):
            if kw and not kwonly and not star:
                params.append('*')
                kwonly = True
            if default is not None:
                d = self.expr(default)[0]
                if type(default).__name__ == 'NoneNode' and cdef:
                    d = 'None'
                params.append('%s=%s' % (an, d))
            else:
                params.append(an)
        if star is not None:
            params.append('*' + star.name)
        if fused is not None:
            params.append('_ft=None')
        if starstar is not None:
            params.append('**' + starstar.name)
        self.emit('def %s(%s):' % (name, ', '.join(params)))
        self.ind += 1
        loc = {}
        for n, (an, at, _, _) in enumerate(args):
            if incls and n == 0 and at.kind == 'obj':
                at = T('class', self.cls.name, base=self.cls)
            loc[an] = at
        if star is not None:
            loc[star.name] = OBJ
        if starstar is not None:
            loc[starstar.name] = OBJ
        self.locals.append(loc)
        self.boxed.append(self.addresstaken(body, args))
        self.ret.append(ret)
        for an, at, default, _ in args:
            if at.kind in ('int', 'float', 'bint') and not cdef:
                self.emit('%s = %s' % (an, self.coerce(an, OBJ, at)))
            elif at.kind in ('int', 'float') and default is not None:
                self.emit('%s = %s' % (an, self.coerce(an, OBJ, at)))
            elif at.kind == 'fused' and at is not fused:
                self.emit('%s = _cy.typeof(%s)' % (at.name, an))
            elif (at.kind == 'ptr' and at.base.kind == 'fused'
                    and at.base is not fused):
                self.emit('%s = _cy.typeof(%s)' % (at.base.name, an))
            if an in self.boxed[-1]:
                self.emit('%s = [%s]' % (an, an))
        if fused is not None:
            self.emit('%s = _ft' % fused.name)
        n = len(self.lines)
        self.stat(body)
        if len(self.lines) == n:
            self.emit('pass')
        if ret.kind in ('int', 'float', 'bint', 'struct') and cdef:
            self.emit('return ' + self.default(ret))
        self.ret.pop()
        self.boxed.pop()
        self.locals.pop()
        self.ind -= 1

    def addresstaken(self, body, args):
        """Names of scalar locals whose address is taken."""
        types = {a[0]: a[1] for a in args}
        names = set()

        def walk(n):
            t = type(n).__name__
            if t == 'CVarDefNode':
                base = self.tr.basetype(self.sc, n.base_type)
                for d in n.declarators:
                    name, typ = self.tr.declarator(self.sc, d, base)
                    types[name] = typ
            elif t == 'AmpersandNode':
                if type(n.operand).__name__ == 'NameNode':
                    names.add(n.operand.name)
            for attr in n.child_attrs or ():
                c = getattr(n, attr, None)
                if isinstance(c, list):
                    for x in c:
                        if x is not None:
                            walk(x)
                elif c is not None:
                    walk(c)
        walk(body)
        return {a for a in names if a in types and types[a].kind in (
                'int', 'float', 'bint', 'ptr', 'obj', 'charp', 'class')}

    def s_CClassDefNode(self, node):
        if node.body is None:
            return
        name = node.class_name
        self.defined.add(name)
        c = self.sc.classes[name]
        bases = []
        if node.bases is not None:
            bases = [self.expr(b)[0] for b in node.bases.args]
        self.emit('class %s(%s):' % (name, ', '.join(bases)))
        self.ind += 1
        old, self.cls = self.cls, c
        fields = ['\t_sx_fields = {%s}' % ', '.join('%r: %s' % (n,
                self.factory(t)) for n, t in c.attrs.items())]
        self.emit(fields[0].strip())
        self.emit('__new__ = _cy.classnew')
        self.stat(node.body)
        self.cls = old
        self.ind -= 1

    def s_PyClassDefNode(self, node):
        bases = []
        if node.bases is not None:
            bases = [self.expr(b)[0] for b in node.bases.args]
        self.emit('class %s(%s):' % (node.name, ', '.join(bases)))
        self.ind += 1
        old, self.cls = self.cls, Cls(node.name)
        self.stat(node.body)
        self.emit('pass')
        self.cls = old
        self.ind -= 1

    def s_PropertyNode(self, node):
        raise core.Inconclusive('cython property')

    # -- targets -----------------------------------------------------------
    def target(self, node, bind=False):
        t = type(node).__name__
        if t in ('TupleNode', 'ListNode'):
            inner = ', '.join(self.target(a, bind) for a in node.args)
            return '(%s%s)' % (inner, ',' if len(node.args) == 1 else '')
        if t == 'NameNode':
            if self.isboxed(node.name):
                return node.name + '[0]'
            return node.name
        if t == 'StarredUnpackingNode':
            return '*' + self.target(node.target)
        return self.expr(node)[0]

    def typeof(self, node):
        t = type(node).__name__
        if t == 'NameNode':
            return self.lookup(node.name) or OBJ
        if t in ('TupleNode', 'ListNode'):
            return OBJ
        save = len(self.lines)
        typ = self.expr(node)[1]
        del self.lines[save:]
        return typ

    @staticmethod
    def const(node):
        t = type(node).__name__
        if t == 'IntNode':
            return intvalue(node.value)
        if t == 'UnaryMinusNode' and type(node.operand).__name__ == 'IntNode':
            return -intvalue(node.operand.value)
        return None

    # -- expressions -------------------------------------------------------
    def expr(self, node):
        """Return (code, type)."""
        t = type(node).__name__
        f = getattr(self, 'e_' + t, None)
        if f is None:
            raise core.Inconclusive('cython expression %s at %s' % (t,
                    node.pos[1:]))
        return f(node)

    def code(self, node):
        """As Python object."""
        c, t = self.expr(node)
        if t.kind == 'bint':
            return '_cy.pybool(%s)' % c
        return c

    def e_NameNode(self, node):
        name = node.name
        if name == 'BITSIZE':
            return '64', INT
        t = self.lookup(name)
        if t is None:
            return name, OBJ
        if self.isboxed(name):
            return name + '[0]', t
        return name, t

    def e_NoneNode(self, node):
        return 'None', OBJ

    def e_NullNode(self, node):
        return 'None', T('ptr', base=VOID)

    def e_BoolNode(self, node):
        return repr(bool(node.value)), BINT

    def e_EllipsisNode(self, node):
        return '...', OBJ

    def e_IntNode(self, node):
        v = intvalue(node.value)
        uns = bool(node.unsigned)
        w = 64 if node.longness or v >= (1 << 31) else 32
        if w == 32 and uns:
            t = UINT
        elif w == 32:
            t = INT
        elif v >= 1 << 63 and not uns:
            t = U64 if v < 1 << 64 else OBJ
        else:
            t = U64 if uns else I64
        return str(v), t

    def e_FloatNode(self, node):
        return str(node.value), F64

    def e_UnicodeNode(self, node):
        return repr(str(node.value)), OBJ
    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, node):
        v = node.value
        return repr(v.byteencode() if hasattr(v, 'byteencode')
                else bytes(v, 'latin1')), OBJ

    def e_CharNode(self, node):
        return repr(ord(node.value)), INT

    def e_TupleNode(self, node):
        inner = ', '.join(self.code(a) for a in node.args)
        return '(%s%s)' % (inner, ',' if len(node.args) == 1 else ''), OBJ

    def e_ListNode(self, node):
        return '[%s]' % ', '.join(self.code(a) for a in node.args), OBJ

    def e_SetNode(self, node):
        return '{%s}' % ', '.join(self.code(a) for a in node.args), OBJ

    def e_DictNode(self, node):
        return '{%s}' % ', '.join('%s: %s' % (self.code(a.key),
                self.code(a.value)) for a in node.key_value_pairs), OBJ

    def e_StarredUnpackingNode(self, node):
        return '*' + self.expr(node.target)[0], OBJ

    def e_AsTupleNode(self, node):
        return 'tuple(%s)' % self.expr(node.arg)[0], OBJ

    def e_NotNode(self, node):
        return '(not %s)' % self.expr(node.operand)[0], BINT

    def e_BoolBinopNode(self, node):
        a, ta = self.expr(node.operand1)
        b, tb = self.expr(node.operand2)
        t = ta if ta.kind == tb.kind else OBJ
        if ta.kind == tb.kind == 'int':
            t = arith(ta, tb)
        if {ta.kind, tb.kind} == {'bint', 'int'}:
            t = ta if ta.kind == 'int' else tb
        return '(%s %s %s)' % (a, node.operator, b), t

    def e_CondExprNode(self, node):
        c = self.expr(node.condition)[0]
        a, ta = self.expr(node.true_val)
        b, tb = self.expr(node.false_val)
        t = ta
        if ta.kind != tb.kind or ta.name != tb.name:
            t = arith(ta, tb) or OBJ
            if 'ptr' in (ta.kind, tb.kind):
                t = ta if tb.kind == 'ptr' and tb.base is VOID else tb
        if t.kind in ('int', 'float'):
            a = self.coerce(a, ta, t, self.const(node.true_val))
            b = self.coerce(b, tb, t, self.const(node.false_val))
        return '(%s if %s else %s)' % (a, c, b), t

    def e_UnaryMinusNode(self, node):
        a, t = self.expr(node.operand)
        if t.kind == 'int' and not t.signed:
            return '_cy.%s(-%s)' % (t.name, a), t
        if t.kind == 'bint':
            t = INT
        return '(-%s)' % a, t

    def e_UnaryPlusNode(self, node):
        return self.expr(node.operand)

    def e_TildeNode(self, node):
        a, t = self.expr(node.operand)
        if t.kind in ('int', 'bint'):
            t = INT if t.width < 32 or t.kind == 'bint' else t
            if not t.signed:
                return '_cy.%s(~%s)' % (t.name, a), t
            return '(~%s)' % a, t
        return '(~%s)' % a, OBJ

    def binop(self, op, a, ta, b, tb, cb=None, ca=None):
        t = arith(ta, tb)
        if t is None:
            if ta.kind == 'ptr' and tb.kind in ('int', 'bint', 'obj'):
                return '(%s %s %s)' % (a, op, b), ta
            if ta.kind == 'ptr' and tb.kind == 'ptr':
                return '(%s %s %s)' % (a, op, b), I64
            if op == '%':
                return '(%s %% %s)' % (a, b), OBJ
            return '(%s %s %s)' % (a, op, b), OBJ
        if t.kind == 'float':
            if op == '/':
                return '_cy.fdiv(%s, %s)' % (a, b), t
            return '(%s %s %s)' % (a, op, b), t
        if op == '**':
            return '(%s ** %s)' % (a, b), t
        if op in ('<<', '>>'):
            # the type is that of the promoted left operand
            t = INT if ta.width < 32 or ta.kind == 'bint' else ta
            if op == '>>':
                return '(%s >> %s)' % (a, b), t
            return '_cy.%s(%s << %s)' % (t.name, a, b), t
        if not t.signed:
            # operands are converted to the common unsigned type
            if ta.signed and not (ca is not None and ca >= 0):
                a = '_cy.%s(%s)' % (t.name, a)
            if tb.signed and not (cb is not None and cb >= 0):
                b = '_cy.%s(%s)' % (t.name, b)
        if op in ('/', '//'):
            return '_cy.cdiv(%s, %s)' % (a, b), t
        if op == '%':
            return '_cy.cmod(%s, %s)' % (a, b), t
        if not t.signed and op in '+-*':
            return '_cy.%s(%s %s %s)' % (t.name, a, op, b), t
        return '(%s %s %s)' % (a, op, b), t

    def e_binop(self, node):
        a, ta = self.expr(node.operand1)
        b, tb = self.expr(node.operand2)
        return self.binop(node.operator, a, ta, b, tb,
                self.const(node.operand2), self.const(node.operand1))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_binop
    e_IntBinopNode = e_BitwiseOrNode = e_NumBinopNode = e_PowNode = e_binop

    def e_PrimaryCmpNode(self, node):
        a, ta = self.expr(node.operand1)
        parts = []
        ca = self.const(node.operand1)
        n = node
        while n is not None:
            b, tb = self.expr(n.operand2)
            op = n.operator.replace('_', ' ')
            cb = self.const(n.operand2)
            parts.append((a, ta, ca, op, b, tb, cb))
            a, ta, ca = b, tb, cb
            n = n.cascade
        out = []
        for a, ta, ca, op, b, tb, cb in parts:
            if op in ('is', 'is not') and 'None' in (a, b):
                out.append('%s %s %s' % (a, op, b))
                continue
            if op in ('==', '!=') and 'None' in (a, b):
                out.append('%s %s %s' % (a, 'is' if op == '==' else 'is not',
                        b))
                continue
            if op in ('is', 'is not') and (ta.kind == 'fused'
                    or self.isfusedname(a)):
                out.append('_cy.isfused(%s, %r)' % (a, b)
                        if op == 'is' else '(not _cy.isfused(%s, %r))' % (
                        a, b))
                continue
            t = arith(ta, tb)
            if (t is not None and t.kind == 'int' and not t.signed
                    and op in ('<', '>', '<=', '>=', '==', '!=')):
                if ta.signed and not (ca is not None and ca >= 0):
                    a = '_cy.%s(%s)' % (t.name, a)
                if tb.signed and not (cb is not None and cb >= 0):
                    b = '_cy.%s(%s)' % (t.name, b)
            out.append('%s %s %s' % (a, op, b))
        if len(out) == 1:
            return '(%s)' % out[0], BINT
        return '(%s)' % ' and '.join('(%s)' % a for a in out), BINT

    def isfusedname(self, name):
        t = self.sc.types.get(name)
        return t is not None and t.kind == 'fused'

    def e_AttributeNode(self, node):
        obj = node.obj
        if (type(obj).__name__ == 'NameNode'
                and obj.name in self.sc.modcimports
                and self.lookup(obj.name) is None):
            return '%s.%s' % (obj.name, node.attribute), OBJ
        a, t = self.expr(obj)
        name = node.attribute
        code = '%s.%s' % (a, name)
        if t.kind == 'ptr':
            t = t.base
        if t.kind == 'struct':
            return code, (t.fields or {}).get(name) or OBJ
        if t.kind == 'class':
            at = t.base.attr(name)
            if at is not None:
                return code, at
            return code, OBJ
        if t.kind == 'cpp' and t.name == 'pair' and len(t.args) == 2:
            if name == 'first':
                return code, t.args[0]
            if name == 'second':
                return code, t.args[1]
        return code, OBJ

    def e_IndexNode(self, node):
        base = node.base
        bt = type(base).__name__
        # f[FusedType] specialisation
        if bt == 'NameNode' and (base.name in self.sc.funcs
                and self.lookup(base.name) is None):
            return base.name, OBJ
        a, t = self.expr(base)
        i, it = self.expr(node.index)
        if t.kind in ('ptr', 'arr'):
            return '%s[%s]' % (a, i), t.base
        if t.kind == 'charp':
            return '%s[%s]' % (a, i), INT
        if t.kind == 'cpp':
            if t.name == 'vector':
                return '%s[%s]' % (a, i), (t.args[0] if t.args else OBJ)
            if t.name in HASHMAPS or t.name in BTREEMAPS:
                return '%s[%s]' % (a, i), t.args[-1]
        return '%s[%s]' % (a, i if it.kind != 'bint' else i), OBJ

    def e_SliceIndexNode(self, node):
        a, t = self.expr(node.base)
        start = self.expr(node.start)[0] if node.start is not None else ''
        stop = self.expr(node.stop)[0] if node.stop is not None else ''
        if t.kind == 'ptr':
            return '_cy.ptrslice(%s, %s, %s)' % (a, start or '0', stop), OBJ
        if t.kind == 'charp':
            return '_cy.charslice(%s, %s, %s)' % (a, start or 'None',
                    stop or 'None'), OBJ
        return '%s[%s:%s]' % (a, start, stop), OBJ

    def e_SliceNode(self, node):
        f = lambda x: ('' if x is None or type(x).__name__ == 'NoneNode'
                else self.expr(x)[0])
        s = '%s:%s' % (f(node.start), f(node.stop))
        if f(node.step):
            s += ':' + f(node.step)
        return s, OBJ

    def e_AmpersandNode(self, node):
        op = node.operand
        t = type(op).__name__
        if t == 'NameNode':
            typ = self.lookup(op.name) or OBJ
            if self.isboxed(op.name):
                return '_cy.Ptr(%s, 0)' % op.name, T('ptr', base=typ)
            return '_cy.Ref(%s)' % op.name, T('ptr', base=typ)
        if t == 'IndexNode':
            a, at = self.expr(op.base)
            i = self.expr(op.index)[0]
            et = self.expr(op)[1]
            if at.kind == 'cpp' and at.name not in ('vector', ):
                return '_cy.Ref(%s[%s])' % (a, i), T('ptr', base=et)
            return '_cy.ptr(%s, %s)' % (a, i), T('ptr', base=et)
        if t == 'AttributeNode':
            a, _ = self.expr(op.obj)
            et = self.expr(op)[1]
            if et.kind in ('int', 'float', 'bint', 'ptr', 'obj'):
                return '_cy.FieldPtr(%s, %r)' % (a, op.attribute), T('ptr',
                        base=et)
            return '_cy.Ref(%s.%s)' % (a, op.attribute), T('ptr', base=et)
        a, et = self.expr(op)
        return '_cy.Ref(%s)' % a, T('ptr', base=et)

    def sizeof(self, t):
        if t.kind in ('int', 'bint'):
            return str(t.width // 8)
        if t.kind == 'struct':
            return '_cy.SizeOf(%r)' % t.name
        if t.kind == 'arr':
            return '%s * %d' % (self.sizeof(t.base), t.n or 0)
        return '8'

    def e_SizeofTypeNode(self, node):
        t = self.tr.declarator(self.sc, node.declarator,
                self.tr.basetype(self.sc, node.base_type))[1]
        return self.sizeof(t), U64

    def e_SizeofVarNode(self, node):
        op = node.operand
        if (type(op).__name__ == 'NameNode' and self.lookup(op.name) is None):
            t = self.tr.named(self.sc, op.name)
            if t.kind == 'obj' and op.name == 'int':
                t = INT
            return self.sizeof(t), U64
        t = self.expr(op)[1]
        return self.sizeof(t), U64

    def e_TypecastNode(self, node):
        t = self.tr.declarator(self.sc, node.declarator,
                self.tr.basetype(self.sc, node.base_type))[1]
        op = node.operand
        fn = getattr(getattr(op, 'function', None), 'name', None)
        if t.kind == 'ptr' and fn in ('malloc', 'calloc', 'realloc'):
            args = [self.expr(a)[0] for a in op.args]
            return '_cy.%s(%s, %s, %s)' % (fn, self.factory(t.base),
                    self.sizeof(t.base), ', '.join(args)), t
        a, st = self.expr(op)
        if t.kind == 'fused':
            return '_cy.fcast(%s, %s)' % (t.name, a), I64 if st.kind in (
                'int', ) and st.width == 64 and st.signed else (
                U64 if st.kind == 'int' else t)
        if t.kind in ('int', 'bint', 'float'):
            if st.kind in ('ptr', ):
                return a, t
            return '(%s)' % self.coerce(a, st, t, self.const(op)), t
        if t.kind == 'obj' and st.kind == 'string':
            return a, OBJ
        if t.kind in ('ptr', ) and (st.kind == 'ptr' or st.kind in (
                'string', 'charp', 'obj')
                and t.base.kind in ('int', 'struct')):
            return '_cy.ptrcast(%s, %s)' % (a, self.typespec(t.base)), t
        return a, t

    def e_LambdaNode(self, node):
        args = []
        loc = {}
        for a in node.args:
            name = (a.declarator.name if a.declarator.name
                    else a.base_type.name)
            loc[name] = OBJ
            args.append(name + ('=' + self.expr(a.default)[0]
                    if a.default is not None else ''))
        self.locals.append(loc)
        self.boxed.append(set())
        code = self.expr(node.result_expr)[0]
        self.boxed.pop()
        self.locals.pop()
        return '(lambda %s: %s)' % (', '.join(args), code), OBJ

    def e_ComprehensionNode(self, node):
        self.locals.append({})
        self.boxed.append(set())
        inner = self.comp(node.loop)
        self.boxed.pop()
        self.locals.pop()
        ap = type(node.append).__name__
        if ap == 'DictComprehensionAppendNode' or 'dict' in str(node.type).lower():
            return '{%s}' % inner, OBJ
        if 'set' in str(node.type).lower():
            return '{%s}' % inner, OBJ
        return '[%s]' % inner, OBJ

    def e_GeneratorExpressionNode(self, node):
        self.locals.append({})
        self.boxed.append(set())
        inner = self.comp(node.loop)
        self.boxed.pop()
        self.locals.pop()
        return '(%s)' % inner, OBJ

    def comp(self, node):
        clauses = []
        while True:
            t = type(node).__name__
            if t == 'ForInStatNode':
                it = self.iterable(node)
                self.bindcomp(node.target)
                clauses.append('for %s in %s' % (self.target(node.target),
                        it))
                node = node.body
            elif t == 'IfStatNode':
                clauses.append('if %s' % self.expr(
                        node.if_clauses[0].condition)[0])
                node = node.if_clauses[0].body
            elif t == 'StatListNode' and len(node.stats) == 1:
                node = node.stats[0]
            elif t == 'ComprehensionAppendNode':
                return '%s %s' % (self.code(node.expr), ' '.join(clauses))
            elif t == 'DictComprehensionAppendNode':
                k = self.code(node.key_expr) if hasattr(node, 'key_expr'
                        ) and node.key_expr is not None else None
                if k is None:
                    k = self.code(node.dict_item.key)
                    v = self.code(node.dict_item.value)
                else:
                    v = self.code(node.value_expr)
                return '%s: %s %s' % (k, v, ' '.join(clauses))
            elif t == 'ExprStatNode':
                node = node.expr
            elif t == 'YieldExprNode':
                return '%s %s' % (self.code(node.arg), ' '.join(clauses))
            else:
                raise core.Inconclusive('cython comprehension: ' + t)

    def bindcomp(self, target):
        t = type(target).__name__
        if t == 'NameNode':
            self.locals[-1][target.name] = OBJ
        elif t in ('TupleNode', 'ListNode'):
            for a in target.args:
                self.bindcomp(a)

    def e_YieldExprNode(self, node):
        return '(yield %s)' % (self.expr(node.arg)[0]
                if node.arg is not None else ''), OBJ

    def e_ImportNode(self, node):
        return '__import__(%r)' % str(node.module_name.value), OBJ

    def e_SimpleCallNode(self, node):
        return self.call(node.function, node.args, '')

    def e_GeneralCallNode(self, node):
        pos = node.positional_args
        extra = []
        if type(pos).__name__ == 'TupleNode':
            args = pos.args
        elif type(pos).__name__ == 'AsTupleNode':
            args = []
            extra.append('*' + self.expr(pos.arg)[0])
        else:
            args = []
            extra.append('*' + self.expr(pos)[0])
        kw = node.keyword_args
        if kw is not None:
            kt = type(kw).__name__
            items = ([kw] if kt != 'MergedDictNode' else kw.keyword_args)
            for d in items:
                if type(d).__name__ == 'DictNode':
                    for p in d.key_value_pairs:
                        extra.append('%s=%s' % (p.key.value,
                                self.code(p.value)))
                else:
                    extra.append('**' + self.expr(d)[0])
        return self.call(node.function, args, ', '.join(extra))

    def call(self, fn, args, extra):
        ft = type(fn).__name__
        info = None
        fname = getattr(fn, 'name', None)
        if ft == 'IndexNode':
            # template/fused specialisation f[T](...)
            bn = getattr(fn.base, 'name', None)
            if bn in self.sc.funcs:
                fn, ft, fname = fn.base, 'NameNode', bn
            elif bn in CPPNAMES and self.lookup(bn) is None:
                ix = fn.index
                ixs = ix.args if type(ix).__name__ == 'TupleNode' else [ix]
                t = self.tr.template(bn, [self.tr.exprtype(self.sc, a)
                        for a in ixs])
                if bn == 'pair' and len(args) == 2:
                    return '_cy.Pair(%s, %s)' % tuple(self.expr(a)[0]
                            for a in args), t
                return self.cppnew(t), t
        if ft == 'NameNode' and self.lookup(fname) is None:
            if fname == 'dereference' or fname == 'deref':
                a, t = self.expr(args[0])
                return '_cy.deref(%s)' % a, (t.base if t.kind == 'ptr'
                        else OBJ)
            if fname in ('preincrement', 'preinc', 'postincrement',
                    'predecrement'):
                a, t = self.expr(args[0])
                return '_cy.%s(%s)' % (fname, a), t
            if fname == 'address':
                return '_cy.Ref(%s)' % self.expr(args[0])[0], OBJ
            if fname == 'string':
                return '_cy.string(%s)' % ', '.join(self.expr(a)[0]
                        for a in args), STRING
            if fname in ('BITSLOT', ):
                return '_cy.cdiv(%s, 64)' % self.expr(args[0])[0], U64
            if fname in cyrt.RTFUNCS:
                ret = {'bit_ctz': UINT, 'bit_clz': UINT,
                        'bit_popcount': UINT, 'BITMASK': U64, 'TESTBIT': U64,
                        'fabs': F64, 'log': F64, 'exp': F64, 'strtod': F64,
                        'isinf': BINT, 'isfinite': BINT,
                        'BITNSLOTS': U64}.get(fname, OBJ)
                cs = []
                for a in args:
                    c, t = self.expr(a)
                    if fname.startswith('bit_'):
                        c = self.coerce(c, t, U64)
                    cs.append(c)
                return '_cy.%s(%s)' % (fname, ', '.join(cs)), ret
            st = self.sc.types.get(fname)
            if st is not None and st.kind == 'struct':
                cs = []
                for a, (fn_, ftyp) in zip(args, list(st.fields.items())):
                    c, t = self.expr(a)
                    cs.append(self.coerce(c, t, ftyp, self.const(a)))
                if not st.fields:
                    cs = [self.expr(a)[0] for a in args]
                return '%s(%s)' % (self.structname(st), ', '.join(cs)), st
            if fname in CPPNAMES and fname not in self.sc.classes:
                t = self.tr.named(self.sc, fname)
                return self.cppnew(t), t
            info = self.sc.funcs.get(fname)
            if fname in self.sc.classes:
                return '%s(%s)' % (fname, self.arglist(args, extra)), T(
                        'class', fname, base=self.sc.classes[fname])
            if fname in ('len', ):
                return 'len(%s)' % self.expr(args[0])[0], I64
            if fname in ('isinstance', 'range', 'print'):
                pass
        ret = OBJ
        if ft == 'AttributeNode':
            a, t = self.expr(fn.obj)
            if t.kind == 'ptr':
                t = t.base
            if t.kind == 'class':
                info = t.base.method(fn.attribute)
            elif t.kind == 'cpp' or t.kind == 'string':
                if fn.attribute in U64METHODS:
                    ret = U64
                elif fn.attribute in BINTMETHODS:
                    ret = BINT
                elif fn.attribute in ('push_back', 'push', 'setitem',
                        'setifbetter', 'insert'):
                    cs = []
                    el = (t.args[0] if t.kind == 'cpp' and t.args
                            and t.name == 'vector' else None)
                    for x in args:
                        c, xt = self.expr(x)
                        if el is not None and fn.attribute == 'push_back':
                            c = self.coerce(c, xt, el, self.const(x))
                        elif xt.kind in ('struct', 'cpp'):
                            c = '_cy.cp(%s)' % c
                        cs.append(c)
                    return '%s.%s(%s)' % (a, fn.attribute,
                            ', '.join(cs)), OBJ
                elif fn.attribute in ('back', 'front') and t.args:
                    ret = t.args[0]
                elif fn.attribute == 'pop' and t.name in AGENDAS:
                    ret = T('cpp', 'pair', args=t.args if len(t.args) == 2
                            else [self.agendakey(t), t.args[-1]])
            if (getattr(fn.obj, 'name', None) in self.sc.classes
                    and self.lookup(fn.obj.name) is None):
                # unbound call of base class method
                info = None
            f = '%s.%s' % (a, fn.attribute)
        else:
            f = self.expr(fn)[0]
        if info is not None:
            cs = []
            for n, x in enumerate(args):
                c, t = self.expr(x)
                if n < len(info.args) and info.args[n][1].kind in (
                        'int', 'float', 'bint'):
                    c = self.coerce(c, t, info.args[n][1], self.const(x))
                elif t.kind == 'bint':
                    c = '_cy.pybool(%s)' % c
                cs.append(c)
            if info.fused is not None:
                for n, (_, at) in enumerate(info.args):
                    if at is info.fused or at.kind == 'fused':
                        st = self.expr(args[n])[1]
                        cs.append('_ft=%r' % (st.name if st.kind == 'int'
                                else 'u64'))
                        break
            if extra:
                cs.append(extra)
            return '%s(%s)' % (f, ', '.join(cs)), info.ret
        if isinstance(fname, str) and fname == 'sum' or fname == 'bool':
            pass
        return '%s(%s)' % (f, self.arglist(args, extra)), ret

    def agendakey(self, t):
        for p in ('SmallChartItem', 'RankedEdge'):
            if t.name.startswith(p):
                return self.tr.named(self.sc, p)
        return OBJ

    def arglist(self, args, extra):
        cs = [self.code(a) for a in args]
        if extra:
            cs.append(extra)
        return ', '.join(cs)


def intvalue(s):
    s = str(s).rstrip('uUlL')
    if len(s) > 1 and s[0] == '0' and s[1] in '01234567':
        return int(s, 8)
    return int(s, 0)


def _declare_pyx(self, sc, node):
    """Declarations of the .pyx itself (functions, classes, types)."""
    t = type(node).__name__
    if t == 'StatListNode':
        for a in node.stats:
            _declare_pyx(self, sc, a)
    elif t in ('FromCImportStatNode', 'CImportStatNode', 'CTypeDefNode',
            'FusedTypeNode', 'CStructOrUnionDefNode', 'CDefExternNode',
            'CppClassNode', 'CClassDefNode', 'CFuncDefNode'):
        self.declare(sc, node)


Translator.declare_pyx = _declare_pyx
_translators = {}


def translate(repo, short):
    tr = _translators.setdefault(repo, Translator(repo))
    em = Emitter(tr, short)
    return em.module()


def loadmodule(universe, full, short):
    from .instrument import SxModule
    src = translate(universe.repo, short)
    mod = SxModule(full)
    mod.__package__ = 'discodop'
    mod.__file__ = os.path.join(universe.repo, 'discodop', short + '.pyx')
    universe.mods[full] = mod
    mod.__dict__.update(cyrt.namespace())
    mod.__sx_source__ = src
    universe.execsource(mod, src, '<cython:%s>' % short, short)
    return mod


if __name__ == '__main__':
    import sys
    print(translate(os.environ.get('SYMX_REPO', '/repo'), sys.argv[1]))
