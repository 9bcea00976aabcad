"""dict/set/Counter/defaultdict/OrderedDict that accept symbolic keys.

Keys that hash natively are stored in an ordinary dict; keys that contain
symbolic values are compared with ``==`` (forking) against the other keys, so
that on each path all keys are pairwise known to be distinct."""
from .core import SymHash

_MISSING = object()


def native(key):
    """Whether key has an ordinary hash value."""
    try:
        hash(key)
    except SymHash:
        return False
    except TypeError as err:
        # __hash__ method of an object with symbolic parts
        if 'should return an integer' in str(err):
            return False
        raise
    return True


class _Tok:
    __slots__ = ('key', )

    def __init__(self, key):
        self.key = key


def _key(tok):
    return tok.key if type(tok) is _Tok else tok


class _Table:
    """Ordered map of token -> value, where token is key or _Tok(key)."""
    __slots__ = ('m', 'nsym')

    def __init__(self):
        self.m = {}
        self.nsym = 0

    def find(self, key):
        """Return token for key, or _MISSING."""
        if native(key):
            if key in self.m:
                return key
            if self.nsym:
                for tok in self.m:
                    if type(tok) is _Tok and tok.key == key:
                        return tok
            return _MISSING
        for tok in self.m:
            k = _key(tok)
            if k is key or k == key:
                return tok
        return _MISSING

    def newtok(self, key):
        if not native(key):
            self.nsym += 1
            return _Tok(key)
        return key

    def put(self, key, value):
        tok = self.find(key)
        if tok is _MISSING:
            tok = self.newtok(key)
        self.m[tok] = value

    def delete(self, tok):
        del self.m[tok]
        if type(tok) is _Tok:
            self.nsym -= 1

    def keys(self):
        return (_key(t) for t in self.m)

    def copy(self):
        new = _Table()
        new.m = dict(self.m)
        new.nsym = self.nsym
        return new


class SDict:
    __class__ = property(lambda self: dict)
    __hash__ = None

    def __new__(cls, *args, **kwargs):
        self = object.__new__(cls)
        self._t = _Table()
        return self

    def __init__(self, *args, **kwargs):
        self._update(*args, **kwargs)

    @classmethod
    def fromkeys(cls, it, value=None):
        new = cls()
        for k in it:
            new[k] = value
        return new

    def _update(self, *args, **kwargs):
        if args:
            (other, ) = args
            if hasattr(other, 'keys'):
                for k in other.keys():
                    self._t.put(k, other[k])
            else:
                for k, v in other:
                    self._t.put(k, v)
        for k, v in kwargs.items():
            self._t.put(k, v)

    def update(self, *args, **kwargs):
        if args:
            (other, ) = args
            if hasattr(other, 'keys'):
                for k in other.keys():
                    self[k] = other[k]
            else:
                for k, v in other:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def __len__(self):
        return len(self._t.m)

    def __bool__(self):
        return bool(self._t.m)

    def __iter__(self):
        n = len(self._t.m)
        for tok in self._t.m:
            yield _key(tok)
            if len(self._t.m) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter([_key(t) for t in self._t.m][::-1])

    def __contains__(self, k):
        return self._t.find(k) is not _MISSING

    def __getitem__(self, k):
        tok = self._t.find(k)
        if tok is _MISSING:
            if hasattr(type(self), '__missing__'):
                return self.__missing__(k)
            raise KeyError(k)
        return self._t.m[tok]

    def __setitem__(self, k, v):
        self._t.put(k, v)

    def __delitem__(self, k):
        tok = self._t.find(k)
        if tok is _MISSING:
            raise KeyError(k)
        self._t.delete(tok)

    def get(self, k, default=None):
        tok = self._t.find(k)
        return default if tok is _MISSING else self._t.m[tok]

    def setdefault(self, k, default=None):
        tok = self._t.find(k)
        if tok is _MISSING:
            self._t.m[self._t.newtok(k)] = default
            return default
        return self._t.m[tok]

    def pop(self, k, *default):
        tok = self._t.find(k)
        if tok is _MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        v = self._t.m[tok]
        self._t.delete(tok)
        return v

    def popitem(self, last=True):
        if not self._t.m:
            raise KeyError('popitem(): dictionary is empty')
        tok = list(self._t.m)[-1 if last else 0]
        v = self._t.m[tok]
        self._t.delete(tok)
        return _key(tok), v

    def move_to_end(self, k, last=True):
        tok = self._t.find(k)
        if tok is _MISSING:
            raise KeyError(k)
        v = self._t.m.pop(tok)
        if last:
            self._t.m[tok] = v
        else:
            new = {tok: v}
            new.update(self._t.m)
            self._t.m = new

    def clear(self):
        self._t = _Table()

    def copy(self):
        new = type(self).__new__(type(self))
        new.__dict__.update(self.__dict__)
        new._t = self._t.copy()
        return new
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        new = type(self).__new__(type(self))
        for a, b in self.__dict__.items():
            if a != '_t':
                setattr(new, a, b)
        for k, v in self.items():
            new._t.put(copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return new

    def keys(self):
        return SKeys(self)

    def values(self):
        return SValues(self)

    def items(self):
        return SItems(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if isinstance(o, SDict) or type(o).__name__ == 'SDict':
                w = o.get(k, _MISSING)
            else:
                w = SDict(o).get(k, _MISSING)
            if w is _MISSING or not (v is w or v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        new = self.copy()
        new.update(o)
        return new

    def __ror__(self, o):
        new = SDict(o)
        new.update(self)
        return new

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        from .strfmt import sxrepr, sxjoin
        return '{' + sxjoin(', ', [sxrepr(k) + ': ' + sxrepr(v)
                for k, v in self.items()]) + '}'


class _View:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)


class SKeys(_View):
    def __iter__(self):
        return iter(self.d)

    def __reversed__(self):
        return reversed(self.d)

    def __contains__(self, k):
        return k in self.d

    def __and__(self, o):
        return SSet(self) & SSet(o)
    __rand__ = __and__

    def __or__(self, o):
        return SSet(self) | SSet(o)
    __ror__ = __or__

    def __sub__(self, o):
        return SSet(self) - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - SSet(self)

    def __xor__(self, o):
        return SSet(self) ^ SSet(o)

    def __le__(self, o):
        return SSet(self) <= SSet(o)

    def __ge__(self, o):
        return SSet(self) >= SSet(o)

    def __eq__(self, o):
        return SSet(self) == SSet(o)
    __hash__ = None

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)


class SValues(_View):
    def __iter__(self):
        return iter(list(self.d._t.m.values()))

    def __reversed__(self):
        return iter(list(self.d._t.m.values())[::-1])


class SItems(_View):
    def __iter__(self):
        n = len(self.d)
        for t, v in self.d._t.m.items():
            yield (_key(t), v)
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter([(_key(t), v) for t, v in self.d._t.m.items()][::-1])

    def __contains__(self, kv):
        v = self.d.get(kv[0], _MISSING)
        return v is not _MISSING and (v is kv[1] or bool(v == kv[1]))


class SOrderedDict(SDict):
    def __eq__(self, o):
        if type(o) is SOrderedDict:
            return list(self.items()) == list(o.items())
        return SDict.__eq__(self, o)
    __hash__ = None


class SDefaultDict(SDict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        self._update(*args, **kwargs)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self._t.m[self._t.newtok(k)] = v
        return v


class SCounter(SDict):
    def __init__(self, *args, **kwargs):
        self.update(*args, **kwargs)

    def __missing__(self, k):
        return 0

    def update(self, *args, **kwargs):
        for other in args:
            if other is None:
                continue
            if isinstance(other, dict) or hasattr(other, 'items'):
                for k, v in other.items():
                    self[k] = self[k] + v
            else:
                for k in other:
                    self[k] = self[k] + 1
        for k, v in kwargs.items():
            self[k] = self[k] + v

    def subtract(self, *args, **kwargs):
        for other in args:
            if isinstance(other, dict) or hasattr(other, 'items'):
                for k, v in other.items():
                    self[k] = self[k] - v
            else:
                for k in other:
                    self[k] = self[k] - 1

    def __delitem__(self, k):
        tok = self._t.find(k)
        if tok is not _MISSING:
            self._t.delete(tok)

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        res = sorted(self.items(), key=lambda x: x[1], reverse=True)
        return res if n is None else res[:n]

    def total(self):
        return sum(self.values())

    def __add__(self, o):
        new = SCounter()
        for k, v in self.items():
            x = v + o[k]
            if x > 0:
                new[k] = x
        for k, v in o.items():
            if k not in self and v > 0:
                new[k] = v
        return new

    def __sub__(self, o):
        new = SCounter()
        for k, v in self.items():
            x = v - o[k]
            if x > 0:
                new[k] = x
        for k, v in o.items():
            if k not in self and v < 0:
                new[k] = -v
        return new

    def __and__(self, o):
        new = SCounter()
        for k, v in self.items():
            x = min(v, o[k])
            if x > 0:
                new[k] = x
        return new

    def __or__(self, o):
        new = SCounter()
        for k, v in self.items():
            x = max(v, o[k])
            if x > 0:
                new[k] = x
        for k, v in o.items():
            if k not in self and v > 0:
                new[k] = v
        return new

    def __eq__(self, o):
        if type(o) is SCounter:
            return (all(self[k] == o[k] for k in self)
                    and all(self[k] == o[k] for k in o))
        return SDict.__eq__(self, o)
    __hash__ = None


class SSet:
    __class__ = property(lambda self: set)
    __hash__ = None

    def __init__(self, it=()):
        self._t = _Table()
        for a in it:
            self._t.put(a, None)

    def _new(self, it=()):
        return type(self)(it)

    def __len__(self):
        return len(self._t.m)

    def __bool__(self):
        return bool(self._t.m)

    def __iter__(self):
        n = len(self._t.m)
        for tok in self._t.m:
            yield _key(tok)
            if len(self._t.m) != n:
                raise RuntimeError('Set changed size during iteration')

    def __contains__(self, k):
        return self._t.find(k) is not _MISSING

    def add(self, k):
        self._t.put(k, None)

    def discard(self, k):
        tok = self._t.find(k)
        if tok is not _MISSING:
            self._t.delete(tok)

    def remove(self, k):
        tok = self._t.find(k)
        if tok is _MISSING:
            raise KeyError(k)
        self._t.delete(tok)

    def pop(self):
        if not self._t.m:
            raise KeyError('pop from an empty set')
        tok = next(iter(self._t.m))
        self._t.delete(tok)
        return _key(tok)

    def clear(self):
        self._t = _Table()

    def copy(self):
        return self._new(self)
    __copy__ = copy

    def update(self, *others):
        for o in others:
            for k in o:
                self._t.put(k, None)

    def union(self, *others):
        new = self._new(self)
        for o in others:
            for k in o:
                new._t.put(k, None)
        return new

    def intersection(self, *others):
        new = self
        for o in others:
            o = o if hasattr(type(o), '_t_is_set') else SSet(o)
            new = self._new([k for k in new if k in o])
        return new if new is not self else self._new(self)

    def difference(self, *others):
        new = self._new(self)
        for o in others:
            for k in o:
                tok = new._t.find(k)
                if tok is not _MISSING:
                    new._t.delete(tok)
        return new

    def symmetric_difference(self, o):
        o = SSet(o)
        return self._new([k for k in self if k not in o]
                + [k for k in o if k not in self])

    def intersection_update(self, *o):
        self._t = self.intersection(*o)._t

    def difference_update(self, *o):
        self._t = self.difference(*o)._t

    def symmetric_difference_update(self, o):
        self._t = self.symmetric_difference(o)._t

    @staticmethod
    def _isset(o):
        return isinstance(o, (set, frozenset, SKeys)) or isinstance(
                o, type({}.keys()))

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return self._new(o).union(self) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return self._new(o).difference(self) if self._isset(o
                ) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o
                ) else NotImplemented
    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def issubset(self, o):
        o = SSet(o)
        return all(k in o for k in self)

    def issuperset(self, o):
        return all(k in self for k in o)

    def isdisjoint(self, o):
        return not any(k in self for k in o)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        from .strfmt import sxrepr, sxjoin
        if not self._t.m:
            return 'set()'
        return '{' + sxjoin(', ', [sxrepr(k) for k in self]) + '}'


class SFrozenSet(SSet):
    __class__ = property(lambda self: frozenset)

    def __hash__(self):
        return hash(frozenset(self._t.m) if not self._t.nsym
                else hash(tuple(self)))
