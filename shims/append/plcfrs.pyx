

# Appended by the checks: access to internal functions, without logic.
def probe_concat(args, lengths, left, right, fat):
	"""Whether left and right vectors (lists of machine words) combine
	according to a yield function, and the resulting vector."""
	cdef ProbRule rule
	cdef SmallChartItem sleft, sright, sresult
	cdef FatChartItem fleft, fright, fresult
	rule.args = args
	rule.lengths = lengths
	if fat:
		fleft = FatChartItem(0)
		fright = FatChartItem(0)
		fresult = FatChartItem(0)
		fleft.vec[0] = left[0]
		fleft.vec[1] = left[1]
		fright.vec[0] = right[0]
		fright.vec[1] = right[1]
		if not concat[FatChartItem](&rule, &fleft, &fright):
			return None
		combine_item[FatChartItem](&fresult, &fleft, &fright)
		return [fresult.vec[0], fresult.vec[1]]
	sleft = SmallChartItem(0, left[0])
	sright = SmallChartItem(0, right[0])
	sresult = SmallChartItem(0, 0)
	if not concat[SmallChartItem](&rule, &sleft, &sright):
		return None
	combine_item[SmallChartItem](&sresult, &sleft, &sright)
	return [sresult.vec]


def probe_fat(sent, Grammar grammar, tags=None, exhaustive=True, start=None,
		Whitelist whitelist=None, splitprune=False, markorigin=False,
		estimates=None, beam_beta=0.0, beam_delta=50):
	"""parse() with a FatLCFRSChart, whatever the length."""
	chart = FatLCFRSChart(grammar, list(sent), start)
	return parse_main[FatLCFRSChart, FatChartItem](
			<FatLCFRSChart>chart, <FatChartItem>(<FatLCFRSChart>chart)._root(),
			sent, grammar, tags, exhaustive, whitelist, splitprune,
			markorigin, estimates, beam_beta, beam_delta, None)
