"""Grammars with symbolic costs, for the checks of parsers."""
import numpy as np


class Costs(object):
    """Passed to Grammar as alternative weights. Grammar.switch() converts
    probabilities to costs with np.abs(np.log(model)); this object stands for
    the probabilities whose costs are the given values."""
    def __init__(self, ctx, values):
        self.values = list(values)
        self.symbolic = not all(type(a) in (int, float)
                for a in self.values)

    def __len__(self):
        return len(self.values)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        if ufunc is np.log:
            return self
        if ufunc is np.absolute:
            if self.symbolic:
                return self.values
            return np.array(self.values, dtype=float)
        raise NotImplementedError


class Model(object):
    """Costs for log probabilities, and (separately) probabilities when the
    grammar is switched to a model without log probabilities."""
    def __new__(cls, costs, probs):
        if all(type(a) in (int, float) for a in probs):
            ob = np.array(probs, dtype=float).view(ArrayModel)
        else:
            ob = SymModel()
            ob.probs = list(probs)
        ob.costs = list(costs)
        return ob


class SymModel(object):
    def __len__(self):
        return len(self.probs)

    def __getitem__(self, n):
        return self.probs[n]

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        if ufunc is np.log:
            return self
        if ufunc is np.absolute:
            return self.costs
        raise NotImplementedError


class ArrayModel(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        if ufunc is np.log:
            return self
        if ufunc is np.absolute:
            return np.array(self.costs, dtype=float)
        raise NotImplementedError


def plain(a):
    """Whether a is an ordinary (not a symbolic) number."""
    return type(a) in (int, float, np.float64)


def eq(a, b):
    """Equality of costs, up to rounding in a replay."""
    if plain(a) and plain(b):
        return bool(a == b or abs(a - b) < 1e-6)
    return a == b


def le(a, b):
    if plain(a) and plain(b):
        return bool(a <= b + 1e-6)
    return a <= b


class Gram(object):
    """A grammar: rules are (lhs, rhs1[, rhs2]) for a PCFG, or
    ((lhs, rhs1[, rhs2]), yf) for an LCFRS; lexicon is a list of (tag, word)."""
    def __init__(self, ctx, rules, lexicon, start='S', lo=0.25, hi=8,
            costs=True, fixed=None, probs=None, more=None):
        self.ctx, self.lexicon = ctx, [tuple(a) for a in lexicon]
        self.rules = []
        for a in rules:
            if isinstance(a[0], tuple):
                self.rules.append((tuple(a[0]), tuple(map(tuple, a[1]))))
            else:
                self.rules.append((tuple(a), ((0, 1), )
                        if len(a) == 3 else ((0, ), )))
        tuples = [(r, 1) for r in self.rules] + [
                (((tag, 'Epsilon'), (word, )), 1)
                for tag, word in self.lexicon]
        n = len(tuples)
        if fixed is not None:
            values = list(fixed)
        else:
            values = [ctx.real('c', lo, hi) for _ in range(n)]
        self.cost = values[:len(self.rules)]
        self.lexcost = values[len(self.rules):]
        # lexical rules are numbered by first occurrence of a word
        words = []
        for _, word in self.lexicon:
            if word not in words:
                words.append(word)
        order = [i for w in words for i, (_, x) in enumerate(self.lexicon)
                if x == w]
        values = self.cost + [self.lexcost[i] for i in order]
        if probs is not None:
            self.prob = list(probs[:len(self.rules)])
            self.lexprob = list(probs[len(self.rules):])
            model = Model(values, self.prob + [self.lexprob[i]
                    for i in order])
        else:
            model = Costs(ctx, values)
        weights = {name: np.array(list(a[:len(self.rules)])
                + [a[len(self.rules) + i] for i in order], dtype=float)
                for name, a in (more or {}).items()}
        self.grammar = ctx.mod('containers').Grammar(tuples, start=start,
                altweights=dict(weights, costs=model) if costs else None)
        if costs:
            self.grammar.switch('costs', True)
        self.labels = []
        for (lhs, *rhs), _ in self.rules:
            for a in [lhs] + rhs:
                if a not in self.labels:
                    self.labels.append(a)
        for a, _ in self.lexicon:
            if a not in self.labels:
                self.labels.append(a)
