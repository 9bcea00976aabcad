"""Access to the C-level interface of charts, for the checks.

This is not part of the code under test: only wrappers without logic."""
from libc.stdint cimport uint8_t, uint32_t, uint64_t
from libcpp.vector cimport vector
from .containers cimport (Chart, Grammar, Edge, Prob, ItemNo, Label,
		Whitelist, ProbRule, SmallChartItem, FatChartItem, SETBIT, cellidx, cellstart, cellend)


def cost(Chart chart, ItemNo item):
	return chart.subtreeprob(item)


def label(Chart chart, ItemNo item):
	return chart.label(item)


def items(Chart chart):
	return [chart.getitemidx(n) for n in range(1, chart.numitems() + 1)]


def edges(Chart chart, ItemNo item):
	"""List of (rule number or -1, left item, right item, index of word)."""
	cdef Edge edge
	cdef uint64_t n
	result = []
	for n in range(chart.parseforest[item].size()):
		edge = chart.parseforest[item][n]
		if edge.rule is NULL:
			result.append((-1, 0, 0, chart.lexidx(edge)))
		else:
			result.append((edge.rule.no, chart._left(item, edge),
					chart._right(item, edge), -1))
	return result


def inside(Chart chart, ItemNo item):
	return chart.inside[item]


def outside(Chart chart, ItemNo item):
	return chart.outside[item]


def span(Chart chart, ItemNo item):
	return chart.asCFGspan(item)


def labelid(Grammar grammar, name):
	return grammar.toid[name]


def cfgwhitelist(Grammar fine, cells):
	"""Whitelist with labels (ids) for each cell; fine.getmapping() should
	have been called first."""
	cdef Whitelist result = Whitelist()
	cdef uint64_t n
	cdef Label lab
	result.cfg.resize(len(cells))
	for n in range(len(cells)):
		for m in cells[n]:
			lab = m
			result.cfg[n].insert(lab)
	result.mapping = &(fine.mapping[0])
	return result


def lcfrswhitelist(Grammar fine, Grammar coarse, items, fat):
	"""Whitelist with items (label id in coarse grammar, indices);
	fine.getmapping() should have been called first."""
	cdef Whitelist result = Whitelist()
	cdef SmallChartItem small
	cdef FatChartItem big
	cdef Label lab
	cdef uint64_t vec
	if fat:
		result.fat.resize(coarse.nonterminals)
	else:
		result.small.resize(coarse.nonterminals)
	for labelid, indices in items:
		lab = labelid
		if fat:
			big = FatChartItem(lab)
			for n in indices:
				SETBIT(big.vec, n)
			result.fat[lab].insert(big)
		else:
			vec = sum([1 << n for n in indices])
			small = SmallChartItem(lab, vec)
			result.small[lab].insert(small)
	result.mapping = &(fine.mapping[0])
	result.splitmapping = &(fine.splitmapping[0])
	return result


def cell(start, end, lensent, nonterminals):
	cdef uint64_t c = cellidx(start, end, lensent, nonterminals)
	return c


def uncell(uint64_t idx, lensent, nonterminals):
	cdef short a = cellstart(idx, lensent, nonterminals)
	cdef short b = cellend(idx, lensent, nonterminals)
	return a, b


def rules(Grammar grammar):
	"""List of (rule number, (lhs, rhs1, rhs2, prob))."""
	cdef uint32_t n
	cdef ProbRule *rule
	result = []
	for n in range(grammar.numrules):
		rule = &(grammar._bylhs[grammar.revrulemap[n]])
		result.append((rule.no, (grammar.tolabel[rule.lhs],
				grammar.tolabel[rule.rhs1],
				grammar.tolabel[rule.rhs2], rule.prob)))
	return result


def index(Grammar grammar, int idx, Label label):
	"""List of (rule number, prob) according to an index; idx is 0 for
	bylhs, 1 for unary, 2 for lbinary, 3 for rbinary."""
	cdef uint32_t n = 0
	cdef ProbRule *rule
	result = []
	while True:
		if idx == 0:
			rule = &(grammar.bylhs[label][n])
			if rule.lhs != label:
				break
		elif idx == 1:
			rule = &(grammar.unary[label][n])
			if rule.rhs1 != label:
				break
		elif idx == 2:
			rule = &(grammar.lbinary[label][n])
			if rule.rhs1 != label:
				break
		else:
			rule = &(grammar.rbinary[label][n])
			if rule.rhs2 != label:
				break
		result.append((rule.no, rule.prob))
		n += 1
	return result


def lexical(Grammar grammar):
	"""List of (tag, word, prob)."""
	cdef uint32_t n
	result = []
	for it in grammar.lexicalbyword:
		for n in it.second:
			result.append((grammar.tolabel[grammar.lexical[n].lhs],
					it.first.decode('utf8'), grammar.lexical[n].prob))
	return result


def rulelabels(Grammar grammar, n):
	return grammar.rulestr(n)
