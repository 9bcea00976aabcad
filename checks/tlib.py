"""Tree inputs and reference models shared by the harnesses.

Runs in both interpreters.  A reference tree is a pair (label, children) with
integer leaves."""
from functools import lru_cache


def partitions(items):
    """All set partitions of a tuple; blocks ordered by first element."""
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    n = len(rest)
    for mask in range(1 << n):
        block = (first, ) + tuple(rest[i] for i in range(n) if mask >> i & 1)
        other = tuple(rest[i] for i in range(n) if not mask >> i & 1)
        for p in partitions(other):
            yield [block] + p


@lru_cache(None)
def hierarchies(items, cont=False):
    """Ordered-by-first-leaf trees over a tuple of leaves without unary
    nodes; leaf = int, node = tuple of subtrees."""
    if len(items) == 1:
        return (items[0], )
    out = []
    for p in partitions(items):
        if len(p) == 1:
            continue
        if cont and any(b[-1] - b[0] + 1 != len(b) for b in p):
            continue
        combos = [()]
        for b in p:
            combos = [c + (t, ) for c in combos
                    for t in hierarchies(b, cont)]
        out.extend(combos)
    return tuple(out)


def shapes(n, cont=False):
    """Hierarchies over leaves 0..n-1 (a bare leaf for n == 1)."""
    return hierarchies(tuple(range(n)), cont)


def nodes(shape):
    """Number of internal nodes."""
    if isinstance(shape, int):
        return 0
    return 1 + sum(nodes(a) for a in shape)


def gentree(ctx, n, label, pos=None, cont=False, unary=0, flatroot=False,
        leafparent=True):
    """A symbolic labelled tree over n leaves.

    :param label, pos: callables producing a label for a phrase/preterminal.
    :param unary: at most this many unary nodes are inserted (forked)
    :returns: (label, [children]) with int leaves under preterminals.

    With the parameter ``pad`` the first leaves are concrete preterminals
    under the root, such that the others have indices of two digits."""
    pad = ctx.params.get('pad', 0)
    sh = ctx.pick('shape', shapes(n - pad, cont))
    left = [unary]

    def build(s, root=False):
        if isinstance(s, int):
            node = ((pos or label)(), [s]) if leafparent else s
            if not leafparent:
                return node
        else:
            node = (label(), [build(a) for a in s])
        while left[0] and ctx.flag('unary'):
            left[0] -= 1
            node = (label(), [node])
        return node
    t = build(sh, True)
    if isinstance(sh, int) and leafparent:
        t = (label(), [t])
    if pad:
        def shift(s):
            return ((s[0], [shift(a) for a in s[1]])
                    if isinstance(s, tuple) else s + pad)
        t = (t[0], [('W', [i]) if leafparent else i for i in range(pad)]
                + shift(t)[1])
    return t


def totree(cls, t):
    if isinstance(t, tuple):
        return cls(t[0], [totree(cls, a) for a in t[1]])
    return t


def fromtree(t):
    """discodop tree → reference tree."""
    if hasattr(t, 'children'):
        return (t.label, [fromtree(a) for a in t.children])
    return t


def same(ctx, a, b):
    """Structural equality of reference trees as one condition."""
    conds = []
    if not eqconds(a, b, conds):
        return False
    return ctx.And(*conds)


def eqconds(a, b, conds):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if not isinstance(a, tuple):
        conds.append(a == b)
        return True
    if len(a[1]) != len(b[1]):
        return False
    conds.append(a[0] == b[0])
    return all(eqconds(x, y, conds) for x, y in zip(a[1], b[1]))


def leaves(t):
    if not isinstance(t, tuple):
        return [t]
    return [x for a in t[1] for x in leaves(a)]


def subtrees(t):
    """Pre-order list of the nonterminal nodes."""
    if not isinstance(t, tuple):
        return []
    return [t] + [x for a in t[1] for x in subtrees(a)]


def postorder(t):
    if not isinstance(t, tuple):
        return []
    return [x for a in t[1] for x in postorder(a)] + [t]


def preterminals(t):
    return [a for a in subtrees(t) if any(not isinstance(b, tuple)
            for b in a[1])]


def canonical(t):
    """Children sorted by first leaf."""
    if not isinstance(t, tuple):
        return t
    return (t[0], sorted((canonical(a) for a in t[1]),
            key=lambda x: min(leaves(x))))


def ranges(idx):
    """Maximal runs of consecutive integers as (start, end+1)."""
    out = []
    for i in sorted(idx):
        if out and out[-1][1] == i:
            out[-1][1] = i + 1
        else:
            out.append([i, i + 1])
    return [tuple(a) for a in out]


def fanout(t):
    return len(ranges(leaves(t)))


def positions(t, pos=()):
    """(position, node or leaf) pairs in pre-order."""
    out = [(pos, t)]
    if isinstance(t, tuple):
        for n, a in enumerate(t[1]):
            out.extend(positions(a, pos + (n, )))
    return out


def show(t):
    """For observation."""
    if isinstance(t, tuple):
        return [t[0], [show(a) for a in t[1]]]
    return t


def permute(ctx, t):
    """Reorder the children of every node by a forked permutation."""
    if not isinstance(t, tuple):
        return t
    kids = [permute(ctx, a) for a in t[1]]
    out = []
    while kids:
        out.append(kids.pop(ctx.choice('perm', len(kids))))
    return (t[0], out)


def cat(parts):
    """Concatenation that accepts symbolic strings."""
    out = ''
    for a in parts:
        out = out + a
    return out


def join(sep, parts):
    out = None
    for a in parts:
        out = a if out is None else out + sep + a
    return '' if out is None else out
