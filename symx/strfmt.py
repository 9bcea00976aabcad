"""%-formatting and f-string formatting over symbolic values."""
import re
from .values import (SymStr, SymInt, SymReal, SymLog, SymBool, mkstr, chars, isstr)
from .core import Inconclusive, SymHash

SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)'
        r'(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def sxstr(x):
    """str(x) that may return a SymStr."""
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return str(x.concretize())
    if t is SymBool:
        return str(bool(x))
    if t is SymReal:
        raise Inconclusive('str of symbolic real')
    if t in (int, float, bool, type(None), bytes, complex):
        return str(x)
    if t in (list, tuple, dict, set, frozenset):
        return sxrepr(x)
    f = t.__str__
    if f is object.__str__:
        return sxrepr(x)
    if f is BaseException.__str__:
        if len(x.args) == 1:
            return sxstr(x.args[0])
        return sxrepr(x.args) if x.args else ''
    return getattr(f, 'sx', f)(x)


def sxrepr(x):
    t = type(x)
    if t is SymStr:
        # representation is only safe if no character needs escaping
        def plain(c):
            return repr(c) == "'%s'" % c
        for c in x.cs:
            if type(c) is str:
                ok = plain(c)
            else:
                ok = all(plain(a) for a in c.dom)
            if not ok:
                return repr(x.concretize())
        return mkstr(("'", ) + x.cs + ("'", ))
    if t is SymInt:
        return repr(x.concretize())
    if t is SymBool:
        return repr(bool(x))
    if t is SymReal:
        raise Inconclusive('repr of symbolic real')
    if t is list:
        return '[' + sxjoin(', ', [sxrepr(a) for a in x]) + ']'
    if t is tuple:
        if len(x) == 1:
            return '(' + sxrepr(x[0]) + ',)'
        return '(' + sxjoin(', ', [sxrepr(a) for a in x]) + ')'
    if t is dict:
        return '{' + sxjoin(', ', [sxrepr(k) + ': ' + sxrepr(v)
                for k, v in x.items()]) + '}'
    if t in (set, frozenset):
        return repr(x)
    f = t.__repr__
    return getattr(f, 'sx', f)(x)


def native(f):
    """Decorator for __str__/__repr__: the interpreter needs a real string,
    the encoding keeps the symbolic one."""
    import functools

    @functools.wraps(f)
    def g(self):
        r = f(self)
        return r.concretize() if type(r) is SymStr else r
    g.sx = f
    return g


def sxjoin(sep, items):
    items = list(items)
    for a in items:
        if type(a) is SymStr:
            break
    else:
        if type(sep) is str:
            return sep.join(items)
    return SymStr(chars(sep)).join(items)


def pad(s, flags, width):
    if width is None:
        return s
    width = int(width)
    n = len(s)
    if n >= width:
        return s
    if '-' in flags:
        return s + ' ' * (width - n)
    return ' ' * (width - n) + s


def percentformat(fmt, args):
    if type(fmt) is SymStr:
        out = []
        # only concrete % directives are supported: a symbolic character
        # that might be % is decided by forking
        cs = []
        for c in fmt.cs:
            if type(c) is not str and '%' in c.dom:
                from .values import decide
                if decide(c.member(lambda a: a == '%')):
                    c = '%'
            cs.append(c)
        # map symbolic chars to private-use placeholders
        table = {}
        text = []
        for c in cs:
            if type(c) is str:
                text.append(c)
            else:
                ph = chr(0xE000 + len(table))
                table[ph] = c
                text.append(ph)
        res = percentformat(''.join(text), args)
        return mkstr(table.get(c, c) if type(c) is str else c
                for c in chars(res))
    ismap = not isinstance(args, (tuple, str)) and hasattr(
            args, '__getitem__') and not isinstance(args, list)
    if type(args) is tuple:
        seq = list(args)
    else:
        seq = [args]
    usedmap = False
    out = []
    pos = 0
    n = 0
    while True:
        i = fmt.find('%', pos)
        if i == -1:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:i])
        m = SPEC.match(fmt, i)
        if m is None:
            raise ValueError('incomplete format')
        pos = m.end()
        conv = m.group('conv')
        flags = m.group('flags') or ''
        width, prec = m.group('width'), m.group('prec')
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = seq[n]
            n += 1
        if prec == '*':
            prec = seq[n]
            n += 1
        if m.group('key') is not None:
            if not ismap:
                raise TypeError('format requires a mapping')
            usedmap = True
            val = args[m.group('key')]
        else:
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            val = seq[n]
            n += 1
        if conv == 's' or conv == 'r':
            s = sxstr(val) if conv == 's' else sxrepr(val)
            if prec is not None:
                s = s[:int(prec)]
            out.append(pad(s, flags, width))
        else:
            if type(val) is SymInt:
                val = val.concretize()
            elif type(val) is SymBool:
                val = bool(val)
            elif type(val) in (SymReal, SymLog):
                # only in messages; a character that does not occur otherwise
                out.append('\ufffc')
                continue
            elif type(val) is SymStr:
                if conv == 'c':
                    out.append(val)
                    continue
                raise TypeError('%%%s format: a number is required, '
                        'not str' % conv)
            spec = '%' + flags + (str(width) if width is not None else '') + (
                    '.%s' % prec if prec is not None else '') + conv
            out.append(spec % (val, ))
    if n < len(seq) and not usedmap and not ismap:
        raise TypeError('not all arguments converted during string '
                'formatting')
    return sxjoin('', out)


def sxformat(val, conv, spec):
    """f-string component."""
    if conv == 'r':
        val = sxrepr(val)
    elif conv == 's':
        val = sxstr(val)
    if not spec:
        return sxstr(val) if type(val) in (
                SymStr, SymInt, SymBool) or type(
                val).__format__ is object.__format__ else format(val, '')
    if type(val) is SymStr:
        m = re.match(r'^(.?[<>^])?(\d*)s?$', spec)
        if m is None:
            return format(val.concretize(), spec)
        al = m.group(1) or '<'
        fill, al = (al[0], al[1]) if len(al) == 2 else (' ', al)
        w = int(m.group(2) or 0)
        n = max(0, w - len(val))
        if al == '<':
            return val + fill * n
        if al == '>':
            return fill * n + val
        return fill * (n // 2) + val + fill * (n - n // 2)
    if type(val) is SymInt:
        return format(val.concretize(), spec)
    return format(val, spec)


def bracesformat(fmt, args, kwargs):
    """str.format with simple fields."""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            val = args[auto]
            auto += 1
        else:
            first = re.match(r'^\w+', field).group()
            val = args[int(first)] if first.isdigit() else kwargs[first]
            for attr, item in re.findall(r'\.(\w+)|\[([^\]]+)\]',
                    field[len(first):]):
                val = getattr(val, attr) if attr else val[
                        int(item) if item.isdigit() else item]
        out.append(sxformat(val, conv, spec))
    return sxjoin('', out)
