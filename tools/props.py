NOTE = ('Every feasible path of the real functions is explored for the '
        'stated bounds and each assertion on it is decided by z3 (all values '
        'of the symbolic inputs); nothing is claimed outside the bounds. '
        'Trusted: z3, the instrumentation and models of str/dict/set/re '
        '(cross-checked by replaying sampled paths on the real build). ')
PROPS = [
dict(id='C01', title='Agenda is a faithful updatable priority queue',
    statement='For any sequence of insertions, priority updates, removals, peeks, pops and clears, the agenda reports the same length, membership, stored values and best item as a plain map from keys to priorities. Popping always returns an entry with the best current priority, entries with equal priority leave in order of first insertion, stale priorities never resurface, and draining yields every live entry exactly once.',
    over=['histories', 'inputs'],
    quant='Every history of agenda operations over any keys and any totally ordered priorities, including duplicates and ties.',
    why='The unit tests run a handful of fixed and random histories; tie order and lazily deleted entries depend on particular interleavings of updates and removals.',
    files=['discodop/util.py'],
    mech=[('heap with lazily invalidated entries and insertion counter', 'util.PyAgenda'), ('mapping of keys to entries', 'util.PyAgenda.mapping')],
    note=NOTE + 'Bounds: histories of up to 5 operations over 2-4 keys, tie histories over up to 12 entries; priorities arbitrary integers.'),
dict(id='C03', title='Bit-vector functions implement set semantics',
    statement='Seen as sets of indices, integers of any size are handled exactly: the bit count is the number of set bits, the next set bit is the smallest set index at or after the given position (-1 iff none), and the fan-out is the number of maximal runs of set bits, so that joining two disjoint components adds their fan-outs unless they touch.',
    over=['inputs'],
    quant='Every non-negative integer within the stated widths, on both sides of the machine word boundary, and every position.',
    why='Doctests use one or two constants; the functions switch algorithms at 63/64 bits and loop over words.',
    files=['discodop/bit.pyx', 'discodop/bit.pxd', 'discodop/bitcount.h'],
    mech=[('word-wise and bigint algorithms', 'bit.fanout'), ('word-wise scan with carry of position', 'bit.pyintnextset'), ('population count', 'bit.bitcount, bit.pyintbitcount')],
    note=NOTE + 'The Cython source is translated to Python with fixed-width integer semantics; values of up to 64 bits (popcount, next set bit) or windows of 5-10 symbolic bits at offsets up to 126.'),
dict(id='C08', title='ParentedTree keeps children and parent pointers exact',
    statement='After any sequence of child insertions, assignments, deletions, slice operations, detaching, splicing and pruning, a parented tree has exactly the children a plain list would have, every node occurs under at most one parent, and parent, parent_index, siblings, root and treeposition of every node are exact. A refused operation leaves all of this intact; conversion, copying and freezing yield independent trees, and immutable trees cannot be modified.',
    over=['histories', 'inputs'],
    quant='Every history of mutations with any valid or invalid indices, slices and node choices, within the bounds.',
    why='Unit tests never check parent pointers after mutations; wrong pointers only show up through particular sequences.',
    files=['discodop/tree.py'],
    mech=[('setparent/delparent on each mutation with dry run', 'tree.ParentedTree'), ('disabled mutators', 'tree.ImmutableTree'), ('conversion', 'tree.Tree.convert, copy, freeze')],
    note=NOTE + 'Bounds: 1-2 operations (3 in thorough) on a tree of five nodes with spare nodes; all indices in and just outside range.'),
dict(id='C09', title='Tree equality is structural and consistent with hashing',
    statement='Two trees are equal exactly when their labels, shapes and leaves agree, regardless of the tree class; equality is reflexive and symmetric and inequality its negation. Trees with sentences are equal exactly when labels, shapes and the words at corresponding leaves agree. Equal immutable trees have equal hashes, and their cached leaves and bit sets match their structure.',
    over=['inputs'],
    quant='Every pair of labelled, possibly discontinuous trees within the bounds, any labels and words.',
    why='Tests compare a few fixed trees; wrong equality or hashing silently merges or splits counts of trees, parses and rules.',
    files=['discodop/tree.py', 'discodop/treetransforms.py'],
    mech=[('structural comparison', 'tree.Tree.__eq__, tree.DiscTree.__eq__'), ('precomputed hash, leaves, bitset', 'tree.ImmutableTree'), ('bit sets', 'treetransforms.addbitsets')],
    note=NOTE + 'Bounds: pairs of trees with 2-3 leaves (4 for bit sets), one unary node, labels and words over two letters.'),
dict(id='C10', title='Traversals, tree positions and notation describe the tree',
    statement='Pre-order, post-order, leaf, preterminal and position enumerations visit every node exactly once in the documented order; indexing, assigning and deleting by position hits exactly that node; the position of the n-th leaf and of the lowest node spanning leaves are right. Printing a tree (flat or wrapped at any margin) and parsing it gives back the same tree, a string is accepted by the parser exactly when it is one well-formed tree, and a drawing places each node once, below its parent, with words in sentence order.',
    over=['inputs'],
    quant='Every labelled, possibly discontinuous tree and every bracket string within the bounds.',
    why='Tests look at two or three trees; order, wrapping and malformed-input behaviour depends on shapes and strings.',
    files=['discodop/tree.py'],
    mech=[('agenda based traversal', 'tree.Tree.subtrees, postorder, pos'), ('tree positions', 'tree.Tree.treepositions, leaf_treeposition, __getitem__'), ('regular expression tokenizer with stack', 'tree.Tree.parse'), ('grid layout', 'tree.DrawTree.nodecoords')],
    note=NOTE + 'Bounds: trees of 2-4 leaves with up to one unary node, strings of up to 6 characters over brackets, a letter and space.'),
dict(id='C04', title='Bracketed trees and corpora are read back as written',
    statement='Writing a continuous tree in bracket notation and reading it back gives the same labels, shape and words, whatever brackets or other characters the words contain, whether trees are on one line or several, separated by blank lines or not, and through the corpus reader as well as the single-tree functions. Traces and missing terminals keep their positions.',
    over=['inputs'],
    quant='Every continuous labelled tree and sentence within the bounds.',
    why='Tests round-trip one fixed tree; escaping and segmentation depend on words, shapes and line layout.',
    files=['discodop/tree.py', 'discodop/treebank.py'],
    mech=[('escaping', 'tree.escape, tree.unescape'), ('parsing and numbering', 'tree.brackettree'), ('writing', 'tree.writebrackettree'), ('segmentation', 'treebank.BracketCorpusReader, treebank.segmentbrackets')],
    note=NOTE + 'Bounds: trees of up to 3 leaves (4 thorough), one unary node, words of one or two characters including brackets, corpora of up to two trees.'),
dict(id='C05', title='Discontinuous bracket format is lossless',
    statement='Writing any, possibly discontinuous, tree in discbracket format and reading it back gives the same labels, shape, leaf indices and words; the corpus reader gives the same trees and sentences as the single-tree functions; and a tree is printed in the same way regardless of the order in which children are stored.',
    over=['inputs'],
    quant='Every possibly discontinuous labelled tree and sentence within the bounds.',
    why='Tests round-trip one fixed tree; escaping and index parsing depend on the words and shapes.',
    files=['discodop/tree.py', 'discodop/treebank.py'],
    mech=[('parsing', 'tree.discbrackettree'), ('writing', 'tree.writediscbrackettree'), ('reader', 'treebank.DiscBracketCorpusReader')],
    note=NOTE + 'Bounds: trees of up to 4 leaves, one unary node, words of up to two characters including brackets, = and digits.'),
dict(id='C06', title='Negra export format is lossless with all columns',
    statement='Writing a tree in export format and reading it back gives the same structure, labels, words, function tags, morphology and lemmas; node numbers are assigned bottom-up, every parent reference is valid, and the rows come out the same when written again. Reader options that add, replace or insert functions, morphology or lemmas change exactly the documented part of each label and nothing else.',
    over=['inputs', 'configurations'],
    quant='Every possibly discontinuous tree with arbitrary column values within the bounds, with every combination of the reader options.',
    why='Tests read a few sentences of one file with default options; numbering and columns depend on shapes and values.',
    files=['discodop/treebank.py', 'discodop/tree.py'],
    mech=[('reader', 'treebank.exporttree, treebank.exportparse, treebank.exportsplit'), ('writer', 'treebank.writeexporttree'), ('node numbering', 'treebank.exporttree, indexing in writeexporttree'), ('column options', 'treebank.handlefunctions, handlemorphology, handlelemmas')],
    note=NOTE + 'Bounds: trees of up to 3 leaves (4 for shapes), one unary node, one-character columns.'),
dict(id='C07', title='All treebank formats describe the same trees',
    statement='The same tree and sentence written in bracket, discbracket or export format is read back equal by each corpus reader and by the format-detecting incremental reader, in the same order, with other lines passed through and nothing lost or invented. Trees stored as TIGER, Alpino or FTB XML are read as the tree they describe: labels, order, words, functions, morphology and secondary attributes of every node, and written Alpino XML is read back equal.',
    over=['inputs', 'configurations'],
    quant='Every tree and sentence within the bounds, in every supported format.',
    why='No test compares the readers on the same trees; the XML readers are tested on one sentence at most.',
    files=['discodop/treebank.py'],
    mech=[('incremental reader', 'treebank.incrementaltreereader'), ('XML readers', 'treebank.TigerXMLCorpusReader, treebank.alpinotree, treebank.ftbtree'), ('writers', 'treebank.writetree, treebank.writealpinotree')],
    note=NOTE + 'Bounds: trees of up to 3 leaves, up to two trees per text; the XML parser itself is replaced by the element tree it would give.'),
dict(id='C11', title='Binarization and unary collapsing are reversible',
    statement='Binarizing any tree, with any combination of factorization, Markovization, head and marker options, gives a tree with at most two children per node over the same leaves in which artificial labels have exactly the documented context, and unbinarizing restores the original tree. Collapsing unary productions removes exactly the unary chains asked for and expanding restores them, also combined with binarization and fan-out markers. Reducing Markov order of rare labels changes only labels below the threshold and keeps trees restorable.',
    over=['inputs', 'configurations'],
    quant='Every labelled tree within the bounds with every combination of the stated options.',
    why='Doctests show a few option settings on a fixed tree; label construction depends on combinations of options, position and number of children.',
    files=['discodop/treetransforms.py'],
    mech=[('binarization', 'treetransforms.binarize'), ('inverse', 'treetransforms.unbinarize'), ('unary collapsing', 'treetransforms.collapseunary'), ('label back-off', 'treetransforms.markovthreshold')],
    note=NOTE + 'Bounds: constituents of up to 5 children, trees of up to 5 leaves with up to 3 unary nodes, labels of one symbolic character.'),
dict(id='C12', title='Optimal binarization is a valid and minimal factorization',
    statement='Binarizing a constituent of a discontinuous tree optimally gives, among all binary bracketings of its children (or all head-driven ones when asked), one whose worst score is minimal for parsing complexity or fan-out, keeps the yield of every original constituent and every label, and unbinarizing restores the tree. The default factorization and yield-function operations on bit vectors agree with their set semantics.',
    over=['inputs', 'configurations'],
    quant='Every assignment of sentence positions to the children within the bounds (symbolic bit vectors), any head position.',
    why='Tests check one or two constituents; minimality is a claim over all bracketings of all position assignments.',
    files=['discodop/treetransforms.py', 'discodop/bit.pyx'],
    mech=[('agenda search over partial binarizations', 'treetransforms.minimalbinarization'), ('whole trees', 'treetransforms.optimalbinarize, recbinarizetree'), ('default factorization by range', 'treetransforms.factorconstituent'), ('complexity and fan-out scores', 'treetransforms.complexity, fanout')],
    note=NOTE + 'Bounds: 3-4 children over 5-6 positions (all assignments symbolic); whole trees of up to 4 leaves (5 thorough).'),
dict(id='C13', title='Splitting and raising of discontinuities is exact and reversible',
    statement='Splitting discontinuous constituents gives a continuous tree over the same words in which each component is marked and, for head marks, the head component is kept; merging restores the original tree exactly. Raising removes every discontinuity while keeping words, labels of all nodes and head paths, and refuses trees without head marks. Canonical ordering sorts children by first leaf without changing any constituent, and reported fan-outs are those of the yields.',
    over=['inputs'],
    quant='Every labelled discontinuous tree within the bounds, in any order of children, with any choice of heads.',
    why='Tests do one tree; restoring depends on the pattern of gaps, repeated labels and order of nodes.',
    files=['discodop/treetransforms.py', 'discodop/tree.py'],
    mech=[('splitting', 'treetransforms.splitdiscnodes'), ('merging', 'treetransforms.mergediscnodes'), ('raising', 'treetransforms.raisediscnodes'), ('ordering', 'treetransforms.canonicalize'), ('fan-out', 'treetransforms.disc, contsets, treebankfanout')],
    note=NOTE + 'Bounds: trees of up to 5 leaves, up to one unary node, all orders of children for up to 3 leaves.'),
dict(id='C14', title='Fan-out marking and terminal removal change only what they should',
    statement='Fan-out markers are added to exactly the discontinuous nodes with the right number and removing them restores every label. Artificial preterminals are introduced for exactly the words with siblings, leaving structure and words unchanged. Substitution sites keep the leaf order. Removing terminals drops exactly the selected words and the nodes left empty, renumbering the others in order, with sentence and tree in agreement.',
    over=['inputs'],
    quant='Every labelled, possibly discontinuous tree and every subset of removed terminals within the bounds.',
    why='Tests use one tree; label suffixes, gaps and renumbering depend on the combination.',
    files=['discodop/treetransforms.py', 'discodop/treebank.py'],
    mech=[('markers', 'treetransforms.addfanoutmarkers, removefanoutmarkers'), ('preterminals', 'treetransforms.introducepreterminals'), ('removal', 'treebank.removeterminals'), ('sites', 'treetransforms.handledisc')],
    note=NOTE + 'Bounds: trees of up to 5 leaves for markers, 3-4 for the others, labels of up to 3 symbolic characters.'),
dict(id='C15', title='Punctuation strategies touch only punctuation',
    statement='Each punctuation strategy (remove, remove but keep quotes and final marks, attach to root, lower, raise, balance) changes only where punctuation is attached or whether it is present (words of letters or digits are not punctuation): the words, tags, labels and structure of the rest and the order of words are kept, each punctuation mark ends up exactly where the documented rule puts it, and tree and sentence stay in agreement.',
    over=['inputs', 'configurations'],
    quant='Every labelled, possibly discontinuous tree with punctuation at any positions within the bounds.',
    why='Tests run a strategy on one or two trees; where a mark attaches depends on tree shape and neighbours.',
    files=['discodop/punctuation.py'],
    mech=[('strategies', 'punctuation.applypunct'), ('removal', 'punctuation.punctremove, punctprune'), ('movement', 'punctuation.punctroot, punctlower, punctraise, movepunct'), ('balanced marks', 'punctuation.balancedpunctraise')],
    note=NOTE + 'Bounds: trees of 3-5 leaves with words over two or three symbols and two tags; recognizing punctuation: all letters, digits and marks.'),
dict(id='C16', title='Head rules, modifiers and dependencies follow their definition',
    statement='The head of every constituent is the child chosen by existing marks, function labels, or the first applicable head rule in its direction and priority, and exactly one child is marked. Rule files are read as written. Children are labelled modifier or complement according to the modifier rules. Dependencies give each word exactly one head, the head word of the smallest constituent it does not head, written equally in all formats, and heads stored in a head-outward binarization are recovered.',
    over=['inputs', 'configurations'],
    quant='Every labelled constituent, tree, rule list and head choice within the bounds.',
    why='Tests check one or two sentences with one rule file; precedence of rules, direction and defaults is combinatorial.',
    files=['discodop/heads.py', 'discodop/treebank.py'],
    mech=[('rule application', 'heads.headfinder, applyheadrules'), ('rule files', 'heads.readheadrules, readmodifierrules'), ('modifiers', 'heads.markmodifiers'), ('dependencies', 'treebank.dependencies, writedependencies, deplen'), ('recovery', 'heads.saveheads')],
    note=NOTE + 'Bounds: constituents of up to 4 children, two rules with two heads, rule files of two lines (three thorough), trees of up to 4 leaves.'),
dict(id='C02', title='Merging, slices, ordered sets and tokens behave as documented',
    statement='Merging sorted sequences is a stable sorted merge containing every element once. Slice bounds agree with Python slicing. An ordered set holds each element once, in order of first insertion, with set semantics for membership, operators, equality and hashing. Tokenizing text loses and adds nothing but white space, and words separated by white space stay separate.',
    over=['inputs'],
    quant='Every set of sequences, slice and text within the bounds.',
    why='Doctests use one example each; ties, duplicates, out-of-range bounds and adjacent punctuation are not sampled.',
    files=['discodop/util.py'],
    mech=[('merge with heap and tie break', 'util.merge'), ('bounds', 'util.slice_bounds'), ('sequence plus frozenset', 'util.OrderedSet'), ('regular expressions', 'util.tokenize')],
    note=NOTE + 'Bounds: 2-3 sequences with 5 elements in total, sets from up to 2 elements (3 thorough), texts of 4 characters (6 thorough).'),
dict(id='C17', title='Treebank grammars consist of exactly the productions of the trees',
    statement='Each node of a tree gives one production whose yield function composes the positions of its children into those of the node, in order and each exactly once, so that the productions of a tree describe that tree and sentence uniquely; trees that do not describe the sentence are refused. An induced grammar has each production once with its number of occurrences plus extra rules, in the documented order, and comparison of grammars and alternative weights follow the same rules.',
    over=['inputs', 'configurations'],
    quant='Every labelled, possibly discontinuous tree or pair of trees within the bounds.',
    why='Tests induce a grammar from one treebank; yield functions depend on the interleaving of components.',
    files=['discodop/grammar.py'],
    mech=[('production extraction', 'grammar.lcfrsproductions'), ('counting and ordering', 'grammar.treebankgrammar, sortgrammar'), ('comparison', 'grammar.subsetgrammar')],
    note=NOTE + 'Bounds: trees of up to 4-5 leaves, labels and words over two letters, frontier nodes.'),
dict(id='C18', title='Grammar text files describe exactly the grammar',
    statement='Every rule and lexical rule is written as one line which is parsed as the same rule, yield function and weight in each of the formats, whether weights are integers, fractions, decimals or hexadecimal; lexicon lines group the tags of a word. Summing and merging sorted rule files gives each rule or word once with the total or average of its weights. Statistics, printed rules, ranges and numbering of indices report exactly what is in the grammar.',
    over=['inputs', 'configurations'],
    quant='Every small grammar, weight of the stated kinds and set of rule files within the bounds.',
    why='Tests write one grammar and never compare weights or labels after reading; merging depends on the order and repetition of keys.',
    files=['discodop/grammar.py'],
    mech=[('writing', 'grammar.writegrammar'), ('weights', 'grammar.convertweight, splitweight'), ('summing of sorted streams', 'grammar.sumrules, sumlex, sumfrags, merge'), ('statistics', 'grammar.grammarstats')],
    note=NOTE + 'Bounds: labels of one or two symbolic characters, weights from 4 representative values, files of up to 3 lines in up to 2-3 grammars.'),
dict(id='C19', title='DOP reduction encodes the all-fragments grammar',
    statement='In the DOP reduction of a treebank, the summed weight of the derivations of any fragment equals its relative frequency among all fragments with the same root label, for plain and packed graph encodings and with extra rules, and equals the documented estimate for the other estimators. Decorated trees equal the originals apart from addresses, which are unique or shared by exactly the equal subtrees; the numbers of nodes and fragments are counted exactly.',
    over=['inputs', 'configurations'],
    quant='Every labelled, possibly discontinuous treebank within the bounds.',
    why='Tests reduce a small treebank and check that it parses; weights are never compared with fragment frequencies.',
    files=['discodop/grammar.py', 'discodop/treetransforms.py'],
    mech=[('reduction', 'grammar.dopreduction, nodefreq'), ('addresses', 'grammar.TreeDecorator'), ('packed graph encoding', 'grammar.TreeDecorator (memoize), treetransforms')],
    note=NOTE + 'Bounds: 1-2 trees of up to 3 leaves with symbolic labels plus fixed shapes with gaps of 5 leaves.'),
dict(id='C20', title='Flattened fragments give a grammar with the same derivations',
    statement='Flattening a fragment gives productions that derive precisely its frontier, with components in the same order, and a template that restores the fragment. In the grammar of a set of fragments each fragment has exactly one derivation, whose weight is the relative frequency of the fragment among those with the same root; no other derivations arise from shared artificial labels. Identifiers are unique and stable.',
    over=['inputs', 'configurations'],
    quant='Every possibly discontinuous fragment, or set of fragments with weights, within the bounds.',
    why='Tests flatten a few fixed fragments; collisions of artificial labels depend on combinations of fragments.',
    files=['discodop/grammar.py'],
    mech=[('flattening', 'grammar.flatten'), ('grammar of fragments', 'grammar.dopgrammar, compiletsg'), ('identifiers', 'grammar.UniqueIDs')],
    note=NOTE + 'Bounds: fragments of up to 5 frontier positions, sets of 2-3 fragments.'),
dict(id='C22', title='Tree edit distance is the least cost of an order-preserving mapping',
    statement='The edit distance of two trees, by either implementation, equals the least number of deletions, insertions and relabelings over all mappings that preserve order and ancestors; it is symmetric and zero only for equal trees. The edit script has as many operations as the distance and turns one tree into the other. Preparing a tree for comparison merges terminals with their tags in canonical order without modifying the tree.',
    over=['inputs'],
    quant='Every pair of labelled, possibly discontinuous trees within the bounds.',
    why='Tests compare distances of a few fixed pairs; optimality is a statement over all mappings.',
    files=['discodop/treedist.py'],
    mech=[('dynamic program', 'treedist.treedist, newtreedist'), ('edit script', 'treedist.geteditstats, EditStats'), ('conversion', 'treedist.prepare')],
    note=NOTE + 'Bounds: pairs of trees with up to 3-4 leaves, symbolic labels over two letters, unary nodes.'),
dict(id='C31', title='Generated sentences are derivable and follow the rule weights',
    statement='A rule is chosen exactly when the random number lies in its share of the total discounted weight of the rules with its left-hand side, lexical rules included. A generated sentence and probability are those of a derivation of the grammar, components composed by the yield functions. Reading a grammar in either format gives each rule with its weight or exact relative frequency, and the lookup tables contain each rule once; the command works for both formats.',
    over=['inputs', 'schedules'],
    quant='Every sequence of random numbers (real-valued) for every small LCFRS within the bounds.',
    why='The only test samples one grammar with unpredictable random numbers and checks nothing about the result.',
    files=['discodop/gen.py'],
    mech=[('choice', 'gen.chooserule'), ('generation', 'gen.gen, compose'), ('tables', 'gen.splitgrammar, yfarray'), ('readers', 'gen.read_lcfrs_grammar, read_bitpar_grammar')],
    note=NOTE + 'Bounds: random numbers are symbolic reals; grammars of up to 6 rules with fan-out up to 2-4, dyadic weights; recursion of depth 3 (7 thorough).'),
dict(id='C24', title='Treebank transformations annotate what they document and can be undone',
    statement='A state split adds its documented annotation to the labels of the documented nodes and affects nothing else; reversetransform removes it. Attributes encoded as labels or extra nodes (functions, morphology, lemmas; alone or combined) are restored along with the original tree, also when only labels are left as in parser output. Transformations that insert nodes keep every other node, bracketing, word and the order of leaves, with consistent parent pointers. The relational-realizational transform gives the documented structure and is reversible; label collapsing maps each phrasal label to its class; feature extraction and unification give the union of features; the D-level of a tree is the level of the most complex construction that occurs in it.',
    over=['inputs', 'configurations'],
    quant='Every tree, label, word and attribute within the bounds, for each transformation listed in the check.',
    why='Tests only round-trip three transformations on one treebank and compare unlabelled bracketings.',
    files=['discodop/treebanktransforms.py'],
    mech=[('transformations', 'treebanktransforms.transform, negratransforms, ptbtransforms, lassytransforms'), ('reversal', 'treebanktransforms.reversetransform'), ('relational-realizational', 'treebanktransforms.rrtransform, rrbacktransform'), ('coarse labels', 'treebanktransforms.collapselabels'), ('features', 'treebanktransforms.morphfeats, unifymorphfeat'), ('complexity', 'treebanktransforms.dlevel')],
    note=NOTE + 'Bounds: trees with up to 3 words (4 thorough), labels and attributes chosen symbolically from the values that the transformations distinguish. Not covered: the French transformations and the remaining PTB state splits.'),
dict(id='C25', title='PCFG parsing: charts hold exactly the derivable items with Viterbi probabilities',
    statement='Parsing a sentence with a binarized PCFG gives a chart with precisely the labelled spans that the grammar derives over the sentence, each item with precisely one edge for each instance of a rule that derives it (no duplicates, also with unary cycles and whatever the order in which probabilities compete), and with the probability of its best derivation; the parse succeeds iff the start symbol derives the sentence. The same holds when restricted to given tags, to unmasked rules, or to a whitelist of items (sparse chart); with a beam, the chart is a subset that keeps everything within the beam. chart.filter() keeps exactly the items that are part of a full derivation; items can be looked up by label and span. A Grammar gives rules their relative frequency, also with repeated rules, in any order, and after adding rules.',
    over=['inputs', 'configurations'],
    quant='Every assignment of rule probabilities (symbolic reals) to the grammars considered, every sentence, subset of optional rules, mask, whitelist and tag sequence within the bounds.',
    why='Tests parse a few sentences with one set of probabilities; competition between unary rules and pruned cells depends on the order of probabilities.',
    files=['discodop/pcfg.pyx', 'discodop/containers.pyx', 'discodop/_grammar.pxi'],
    mech=[('CKY parser', 'pcfg.parse, parse_grammarloop, parse_leftchildloop, populatepos, applyunaryrules'), ('charts', 'pcfg.DenseCFGChart, SparseCFGChart; containers.Chart.filter'), ('grammar', 'containers.Grammar: _convertrules, _convertlexicon, _indexrules, addrules, switch, setmask')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers (hash maps, vectors, Agenda of _containers.h) are modelled by their documented behaviour; exact reals instead of floating point. Bounds: sentences of up to 5 words (6 thorough) with a fixed set of grammars with optional rules; costs in [1/4, 8].'),
dict(id='C27', title='k-best extraction gives the k best distinct derivations of a chart',
    statement='lazykbest(chart, k) returns min(k, number of derivations) distinct derivations of the chart in order of cost; each is a derivation of the chart, has the cost of its rules, and no derivation that is left out is better. The ranked edges recorded in the chart reconstruct the same derivations; the result does not depend on the chart type or on earlier calls with another k.',
    over=['inputs', 'configurations'],
    quant='Every assignment of rule probabilities (symbolic reals), every sentence, subset of optional rules and k within the bounds.',
    why='Tests check the k-best list of one grammar with fixed probabilities; which successors are explored depends on the order of all partial costs.',
    files=['discodop/kbest.pyx', 'discodop/containers.pyx'],
    mech=[('lazy enumeration', 'kbest.lazykbest, lazykthbest, lazynext, getcandidates, getderiv'), ('priority queue', 'heap.pxi, _containers.h Agenda (modelled)'), ('chart', 'containers.Chart, Edge, RankedEdge')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals instead of floating point. Cyclic charts: only derivations without a repeated item are counted in the reference for completeness. Bounds: sentences of up to 4 words, k up to 12, grammars with optional rules.'),
dict(id='C26', title='LCFRS parsing: charts hold exactly the derivable discontinuous items',
    statement='Two constituents combine exactly when their spans, taken in the order given by the yield function of a rule, are disjoint, adjacent within a component and separated between components; the result covers precisely their words. Parsing a sentence with a binarized LCFRS gives a chart with precisely the derivable items (label, set of positions), each with precisely one edge for each instance of a rule, and the probability of its best derivation; the parse succeeds iff the start symbol covers the sentence. The same holds for both chart types (short and long sentences), with another start symbol, given tags, masked rules, a whitelist (also one based on the components of discontinuous items); without exhaustive parsing the best derivation is found, and a beam only loses what lies beyond it. Items are found by label and positions.',
    over=['inputs', 'configurations'],
    quant='Every pair of bit vectors (63 bits; windows of 128 bits) for every yield function with up to 3-4 variables; every assignment of rule probabilities, sentence, subset of optional rules, mask, whitelist and tag sequence within the bounds.',
    why='Tests parse a few sentences with fixed probabilities; agenda order, adjacency at word boundaries and pruning depend on the exact vectors and probabilities.',
    files=['discodop/plcfrs.pyx', 'discodop/containers.pyx'],
    mech=[('yield functions', 'plcfrs.concat, combine_item; bit.pxd'), ('agenda parser', 'plcfrs.parse_main, process_edge, process_lexedge, populatepos'), ('pruning', 'plcfrs.checkwhitelist; Grammar.getmapping'), ('charts', 'plcfrs.SmallLCFRSChart, FatLCFRSChart')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals instead of floating point. Bounds: sentences of up to 4 words with optional rules (selected sentences of 63-128 words), costs in [1/4, 8].'),
dict(id='C32', title='Inside-outside probabilities and coarse-to-fine pruning are exact',
    statement='For an acyclic chart, the inside probability of each item is the sum over its derivations of the product of their rule probabilities, and the outside probability the sum over all contexts of the item in derivations of the sentence; posteriorthreshold() selects precisely the items whose posterior is above the threshold and leaves the grammar as it was. prunechart() followed by parsing with a fine grammar gives a fine chart with precisely the derivable items of which the projected labels and spans (for split discontinuous nodes, all of their components) are in the selected part of the coarse chart: all items of complete derivations (k=0), above the posterior threshold (0<k<1), or those of the k best derivations (k>=1), subject to required and blocked constituents; also for sentences longer than a machine word.',
    over=['inputs', 'configurations'],
    quant='Every assignment of the symbolic rule probabilities, every subset of the optional rules, sentence, tag sequence, k, and constraint within the bounds; CFG and LCFRS coarse and fine grammars; dense, sparse and bit vector charts.',
    why='Tests run one coarse-to-fine pipeline; errors show up as a slightly different set of pruned items for particular probabilities or orders of adding items.',
    files=['discodop/coarsetofine.pyx', 'discodop/containers.pyx', 'discodop/plcfrs.pyx', 'discodop/pcfg.pyx'],
    mech=[('inside/outside', 'coarsetofine.getinside, getoutside, posteriorthreshold; Chart.lexprob'), ('pruning', 'coarsetofine.prunechart; kbest.collectitems'), ('projection', 'Grammar.getmapping; plcfrs.checkwhitelist; pcfg whitelist')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals instead of floating point. Charts with unary cycles are outside. Bounds: sentences of up to 3-4 words (64, 65 for a chain grammar), 1-2 symbolic probabilities at a time.'),
dict(id='C33', title='Outside estimates are admissible and A* parsing with them is exact',
    statement='getpcfgestimates(grammar, maxlen, root) gives, for every label and every number of words to its left and right, the cost of the cheapest context of that label in a derivation from the root symbol (infinite when there is none). getestimates() gives a lower bound on the cost of the context of every item of an LCFRS derivation of a sentence of up to maxlen words. Parsing with either kind of estimates succeeds when parsing without them does, and gives the best derivation.',
    over=['inputs', 'configurations'],
    quant='Every assignment of the symbolic rule costs, every subset of the optional rules, and every sentence within the bounds; grammars with more rules for a child than labels, unary chains and cycles, and discontinuous rules.',
    why='An estimate that is too high only shows up as a slightly suboptimal parse for particular costs; the tests do not check estimates at all.',
    files=['discodop/estimates.pyx', 'discodop/plcfrs.pyx'],
    mech=[('PCFG estimates', 'estimates.pcfginsidesx, pcfgoutsidesx'), ('LCFRS estimates', 'estimates.simpleinside, outsidelr'), ('A* parsing', 'plcfrs.parse_main, process_edge')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals instead of floating point. Bounds: estimates for up to 3-5 words, 0-3 symbolic costs at a time in [1/4, 8]; the other costs are fixed.'),
dict(id='C34', title='Disambiguation: trees get the exact sum, maximum or length of derivations',
    statement='Given a chart, the most probable parse objective gives each parse tree of the sentence the sum of the probabilities of its derivations; most probable derivation the maximum; shortest derivation gives the trees with the fewest fragments, and how many, with their probability in the other model; sl-dop gives the n most probable trees with the length of their shortest derivation. Trees are those of the fragments (discontinuous fragments included) which the Double-DOP derivation recovers, or of the DOP reduction without its annotations; the fragments listed form a best derivation of the tree. Trees that do not meet the required or blocked spans are left out. Reranking gives the exact probability of a tree under the DOP reduction. The weights of the grammar are restored.',
    over=['inputs', 'configurations'],
    quant='Every value of the symbolic fragment or rule probabilities, every subset of the optional fragments or rules, every sentence, objective, and n within the bounds.',
    why='Tests check one toy grammar with fixed weights; sums over derivations, ties, and the order of competing derivations depend on the weights.',
    files=['discodop/disambiguation.pyx', 'discodop/grammar.py', 'discodop/containers.pyx'],
    mech=[('objectives', 'disambiguation.marginalize, sldop, sldop_simple'), ('fragments', 'disambiguation.recoverfragments, fragmentsinderiv_re, fragmentsinderiv_str, splitfrag; grammar.compiletsg'), ('parsing of trees', 'disambiguation.treeparsing, dopparseprob, doprerank; Grammar.getrulemapping'), ('constraints', 'disambiguation.testconstraints')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals: log/exp of products of symbolic probabilities are kept symbolic. Bounds: up to 3 words (4 thorough), 6-9 rules or 6-10 fragments of which 3 optional, 1-2 symbolic probabilities, all derivations are requested. Not covered: max constituents parse, osTAG, sampling.'),
dict(id='C28', title='Fragment extraction finds exactly the maximal common fragments',
    statement='For treebanks of binarized (possibly discontinuous) trees, extractfragments() returns precisely the maximal connected tree fragments (sets of whole productions; larger than what any neighbor adds) shared by some pair of trees, with for each the number of trees and nodes they were found at; splitting the work over intervals of trees gives the same result, with or without a second treebank, and with only adjacent trees. exactcounts() and exactcountsslice() give every occurrence of each fragment once, in tree order, restricted to the interval and limited to maxresults. allfragments() gives all fragments up to the given depth and number of frontiers with their counts; recurringfragments() adds these productions to the recurring fragments; completebitsets() finds occurrences of complete trees with wildcards for words; twoterms gives those fragments with at least two words, one of which has a matching POS tag. Reading bracketed trees gives the same fragments as constructing them from Tree objects; the command line program, with its options for limits, counts, frequencies, indices, and with two treebanks or in batch mode, reports precisely these fragments and counts; work is divided in disjoint intervals that cover all trees; the alternative notation and undoing the binarization keep each fragment the same.',
    over=['inputs', 'configurations'],
    quant='Every assignment of the symbolic labels and words to the nodes of the given tree shapes, one or two treebanks, interval of trees, limit, depth, and output mode within the bounds.',
    why='The tests only count fragments for one toy treebank; which fragments are found depends on the alignment of productions in pairs of trees and on the order of productions in the index.',
    files=['discodop/_fragments.pyx', 'discodop/fragments.py', 'discodop/containers.pyx', 'discodop/treetransforms.py'],
    mech=[('extraction', '_fragments.extractfragments, fasttreekernel, extractbitsets'), ('counting', '_fragments.exactcounts, exactcountsslice, containers.Ctrees.indextrees'), ('all fragments', '_fragments.allfragments, completebitsets, fragments.recurringfragments'), ('reading and printing', '_fragments.readtreebank, getctrees; fragments.regular, printfragments')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; bit sets and C arrays are modelled as bounded arrays. Bounds: 2-4 trees of 5-9 nodes, with 2-4 symbolic labels or words at a time out of 3-4 values. Multiprocessing is outside.'),
dict(id='C23', title='Evaluation scores equal their definition',
    statement='Evaluating candidate trees against gold trees gives, per sentence and in total, the labeled or unlabeled precision, recall and F-score over multisets of brackets, exact match, tagging accuracy, crossing brackets, function tag scores, leaf-ancestor score, tree-edit distance score, and (un)labeled dependency accuracy, exactly according to their definitions on the trees as normalized by the parameter file: deleted labels, words and preterminals, deleted root, equivalent labels and words, length cutoff, scores restricted to (dis)continuous brackets. Missing candidates count as failed parses; the breakdowns by category, attachment error and confused tags add up to the same counts; identical trees get perfect scores; the printed tables contain these numbers. Levenshtein distance is the minimal number of edits.',
    over=['inputs', 'configurations'],
    quant='Every assignment of the symbolic labels, function tags and words, every candidate tree structure over the words and every setting of the evaluation parameters within the bounds.',
    why='Tests compare the evaluation of one file; settings interact with deleted words, unary chains, duplicate brackets and discontinuity only in particular combinations of trees.',
    files=['discodop/eval.py', 'discodop/treedist.py', 'discodop/treebank.py'],
    mech=[('evaluation', 'eval.Evaluator, EvalAccumulator, TreePairResult'), ('normalization', 'eval.transform, parsetree; treebank.handlefunctions'), ('metrics', 'eval.bracketings, crossbrackets, leafancestorpaths, pathscore, editdistance, treedisteval'), ('parameter file', 'eval.readparam'), ('command line', 'eval.main, EvalAccumulator.summary, breakdowns')],
    note=NOTE + 'Exact rationals. Bounds: sentences of 1-4 words, up to 2-3 symbolic labels at a time, 1-3 sentences. Outside: dependencies when words are deleted, function tags in unlabeled evaluation, visualization.'),
dict(id='C29', title='The unknown word model gives the parser only words it knows, with the right tags',
    statement='Words that are rare in the training data (frequency at most the threshold, except for words of closed class tags) are replaced by a signature that describes precisely their capitalization, digits, punctuation and suffix; numbers and years by a common token; all other words are kept, and all statistics are exact counts. In a new sentence, words seen in training are kept (if need be in lower case), other words get their signature if it is part of the grammar and the default otherwise, so that every resulting token is part of the grammar extracted from the training data. While parsing, open class words get the tags of their signature in addition to those they were seen with, at a fixed small part of the probability; closed class words and words with a given tag do not.',
    over=['inputs', 'configurations'],
    quant='Every word over the alphabets considered up to the bound, position, training corpus, threshold, and (for tagging) lexical weights, closed class words and sentence.',
    why='There are no tests of unknown words: a token that is not in the grammar makes a sentence unparsable, but only for particular combinations of training data and new words.',
    files=['discodop/lexicon.py', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx'],
    mech=[('statistics', 'lexicon.getunknownwordmodel, simplesmoothlexicon'), ('replacement', 'lexicon.replaceraretrainwords, replaceraretestwords'), ('signatures', 'lexicon.unknownword4, unknownword6, unknownwordbase, unknownwordftb'), ('tagging', 'pcfg.populatepos, plcfrs.populatepos')],
    note=NOTE + 'Bounds: words of up to 4 characters (5 thorough), or 3 with a suffix; training data of 3-4 words of which 2-3 symbolic. Suffix classes of the French model and external taggers are outside.'),
dict(id='C35', title='The parser gives every sentence its best tree',
    statement='For every sentence the parser gives, for each stage, a tree over precisely the words of the sentence: the tree with the highest score (probability of its derivations, or of its best derivation) of those that the grammar of the stage and, if it is pruned, the stage by which it is pruned allow, without binarization and markers, with its score. When the requested constituents or the pruning leave no tree, the tree of the last successful earlier stage is given and the result marked as such; when the grammar does not cover the sentence, the tree consists of the best trees for the largest parts it does cover. Special characters in words are handled in the same way as in grammars, given tags are respected, unknown words are replaced by their signature. The command line interface writes the requested number of trees for each sentence of the input, from best to worst, in the requested format, with the original words, IDs, and probabilities.',
    over=['inputs', 'configurations'],
    quant='Every value of the symbolic probabilities, every sentence and token over the given alphabets, constraint, number of derivations for pruning, output format, number of trees, and layout of the input within the bounds.',
    why='Tests run one experiment with one small treebank; unparsable sentences, failing stages, special characters in words and command line options are not tested at all.',
    files=['discodop/parser.py', 'discodop/kbest.pyx', 'discodop/disambiguation.pyx', 'discodop/coarsetofine.pyx', 'discodop/_grammar.pxi'],
    mech=[('parsing', 'parser.Parser.parse, _parse, postprocess, noparse'), ('parts', 'kbest.partitionincompletechart'), ('words', 'tree.escape, ptbescape; lexicon.replaceraretestwords; punctuation.punctprune; Grammar._convertlexicon'), ('command line', 'parser.main, doparsing, worker, readinputbitparstyle')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers are modelled; exact reals: log/exp of products of symbolic probabilities are kept symbolic. Bounds: up to 3 words (4 thorough), 6-9 rules, 1-3 symbolic probabilities, two or three stages.'),
dict(id='C36', title='An experiment trains on, parses, and writes what was asked',
    statement='An experiment described by a parameter file trains on exactly the requested part of the treebank (after skipping, number or fraction of sentences, maximum length) and parses exactly the requested test set (with skiptrain: sentences after the training set); an empty selection is refused. For each stage, the result file has the test sentences, in order, with their words, in the format of the treebank; the gold file has the trees as they were in the treebank; the statistics have a row for each sentence and stage. Whatever the binarization, format, and kind and number of stages, a sentence whose tree is the only one that the treebank supports gets that tree from all stages; in general a sentence gets a most probable tree of the grammar that is written, with its probability, and the same trees when the experiment is run again with the grammars read from disk. Augmenting a treebank grammar with further trees gives the same rules, counts, lexicon and parses as training on all trees at once.',
    over=['inputs', 'configurations'],
    quant='Every treebank of the given number of trees, sizes, labels and words; every selection, binarization and sequence of stages listed in the bounds.',
    why='The tests for experiments run a few fixed parameter files on one sample and compare a total score with a loose threshold; selections, rerunning with grammars from disk, and most combinations of stages and binarization are not tested.',
    files=['discodop/runexp.py', 'discodop/parser.py', 'discodop/treetransforms.py', 'discodop/grammar.py', 'discodop/treebank.py', 'discodop/_grammar.pxi'],
    mech=[('experiment', 'runexp.startexp, loadtraincorpus, dobinarization, getgrammars, doparsing, writeresults'), ('grammars from disk', 'parser.readparam, readgrammars'), ('postprocessing', 'parser.Parser.postprocess'), ('augmenting', 'parser.Parser.augmentgrammar; Grammar.addrules')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; C++ containers, files and their compression are modelled. Here most of the inputs are finite choices over which the solver branches (shapes of trees, words, labels, selections); the weights follow from the treebank and are concrete. Bounds: treebanks of 1-3 trees with 2-4 words.'),
dict(id='C30', title='A search with regular expressions finds exactly the matching sentences',
    statement='A query with a regular expression on a text corpus reports exactly the matches within the sentences (non-empty lines) of the requested interval of the requested files: counts, sentence numbers, breakdown by matching text, sentences with the characters that match; a limit gives the first so many. This is independent of the queries before it (cache), of the order in which jobs for files are completed, and of an index left by an earlier search, which is only used for the same files when they were not modified. Sentences are extracted by number; the numbers of sentences and words are those of the text; macros are replaced by their definition; highlighting covers the tokens asked for and preserves the sentence.',
    over=['inputs', 'histories', 'schedules'],
    quant='Every text within the given number of lines, lengths and alphabet (including multi-byte characters), with and without final line end; every interval, limit, method, order of completion, and sequence of queries within the bounds.',
    why='The tests run a handful of queries on one corpus, once; the cache, stale indices, and intervals are not exercised.',
    files=['discodop/treesearch.py'],
    mech=[('search', 'treesearch.RegexSearcher.counts, sents, batchcounts, batchsents'), ('line index', 'treesearch._indexfile, _getoffsets, _indexpath'), ('cache', 'treesearch.FIFOOrederedDict')],
    note=NOTE + 'Regular expressions are matched symbolically on the (bytes of the) symbolic text; memory maps, files and the bitmaps are modelled. Bounds: up to 4 lines of up to 2 characters, sequences of up to 3 queries, 2 files.'),
dict(id='C37', title='A search with tree fragments finds exactly their occurrences',
    statement='A query with tree fragments on treebanks reports exactly the occurrences of each fragment in the sentences of the requested interval of the requested files: counts in total and by fragment, sentence numbers, sentences with the words of the matching subtree and query, trees as they were in the treebank with the matching nodes; a limit gives the first so many. Words and labels that do not occur in the corpus match nothing. The result does not depend on earlier queries, on the order in which jobs are completed, or on whether an index existed already, which is only used when it is valid for these files. Function tags and morphology are removed from labels when this is requested, without affecting words or highlighting.',
    over=['inputs', 'histories', 'schedules'],
    quant='Every treebank and query of the given shapes with any of the given labels and words; every interval, limit, method, sequence of queries and order of completion within the bounds; bracket and discontinuous bracket format.',
    why='The tests count a few queries on one treebank, with a new index; re-used indices, limits, intervals, multiple fragments and extraction of trees are not compared to a reference.',
    files=['discodop/treesearch.py', 'discodop/_fragments.pyx', 'discodop/containers.pyx'],
    mech=[('search', 'treesearch.FragmentSearcher, _frag_query; _fragments.exactcountsslice, getcandidates, completebitsets'), ('vocabulary', 'containers.Vocabulary.getprod, FixedVocabulary.getprod'), ('extraction', 'containers.Ctrees.extract, gettree')],
    note=NOTE + 'Translated from Cython by way of the Cython parser; the layout of the files with indexed trees and vocabulary is replaced by a model which holds what was stored. Bounds: 1-4 trees of up to 4 words, 1-2 fragments, 1-2 files, up to 3 queries.'),
dict(id='C38', title='A drawing of a tree shows exactly that tree',
    statement='For any tree, continuous or discontinuous, with any labels and words, drawing succeeds and does not modify the tree, and the tree can be read off the result: each node and word occurs exactly once with its (unescaped) label, words are in order on the last row, parents are above their children, no two nodes share a cell, no line passes through another node or coincides with another line, and following lines from each node leads to exactly its children. This holds for box characters, ASCII, HTML, ANSI colors, SVG, and TikZ; exactly the requested nodes are highlighted; special characters are quoted such that the output is well-formed. A drawing of dependencies shows each word, tag, and labeled arc, with nested arcs below the arcs that span them.',
    over=['inputs'],
    quant='Every tree shape and assignment of indices up to the stated size, every subset of nodes to highlight, and all strings of the stated lengths as remainder of labels and words, including special characters of HTML and LaTeX.',
    why='The tests only print some drawings without looking at the result; whether lines coincide depends on the particular combination of shape and permutation of indices.',
    files=['discodop/tree.py'],
    mech=[('placement in grid', 'tree.DrawTree.nodecoords'), ('drawings', 'tree.DrawTree.text, svg, tikzmatrix, tikznode, tikzqtree; latexlabel'), ('dependencies', 'tree.DrawDependencies')],
    note=NOTE + 'A reader of the drawings that is independent of the code reconstructs the tree. Bounds: all shapes up to 5 words in quick mode (6 in thorough mode), selected forms of 6 and 7 words with all permutations of indices.'),
dict(id='C39', title='The command-line tools do what their options say to every tree, in order',
    statement='discodop treetransforms writes, for every selection of trees, input and output format, encoding, and sequence of options, exactly the selected trees of the corpus in the same order, each transformed by the requested actions in the order given, each action acting exactly as it does by itself; binarization followed by --unbinarize gives the original trees. discodop treedraw shows the selected trees (or reports the frontier) with their identifiers and comments. discodop grammar writes the grammar, lexicon and backtransform that the extraction functions give for the selected trees with the requested estimator, in every output format; ptsg and merge give the grammar described by the given fragments or grammars. Options are neither ignored nor applied to the wrong trees.',
    over=['inputs'],
    quant='Every tree with the stated shapes and all labels and words of the stated alphabets, every listed combination of formats, encodings, slices, actions and estimators.',
    why='The tests never run the command-line tools; options interact with the format, the slice and each other.',
    files=['discodop/cli.py', 'discodop/treebank.py', 'discodop/grammar.py'],
    mech=[('tree transformations', 'cli.treetransforms, treebanktransforms'), ('drawing', 'cli.treedraw'), ('grammars', 'cli.grammar (pcfg, plcfrs, dop1, dopreduction, doubledop, ptsg, merge)'), ('writing', 'treebank.writetree, grammar.write_lcfrs_grammar')],
    note=NOTE + 'The main functions run with a model of files, encodings and standard output; references are independent or, for the composition of actions, the functions themselves which other properties are about. Bounds: corpora of one to three trees with up to four words.'),
dict(id='C40', title='The treesearch command prints exactly the matches that were asked for',
    statement='For every corpus and query, given as argument or in a file, discodop treesearch prints for each file in order exactly the matches of each query within the interval given by --slice and up to the maximum given by -m: as counts, sentence numbers, sentences or trees with exactly the match highlighted, or only the matching part; prefixed with the file name when there are several files (unless -h is given) and the sentence number when -n is given; --breakdown counts each type of match wherever it occurs, most frequent first; --csv gives one row for each file and one column for each query.',
    over=['inputs'],
    quant='All text of the stated lengths and all trees of the stated shapes with the stated labels and words, every listed mode and combination of options and intervals, queries given as argument or in a file with or without final newline.',
    why='The tests never run the treesearch command; its modes and options are combined in one function that the tests of the classes do not reach.',
    files=['discodop/treesearch.py'],
    mech=[('command line', 'treesearch.main'), ('formatting', 'treesearch.applyhighlight, writecounts'), ('searching', 'treesearch.RegexSearcher, FragmentSearcher')],
    note=NOTE + 'An independent reference finds the matches of regular expressions and fragments; the layout of highlighted fragments is composed from results of the searcher (decided by C37). Bounds: two or three sentences, two files.'),
dict(id='C41', title='The reduction of a tree-adjoining grammar has exactly its derivations',
    statement='Each recursion in an elementary tree (the nearest ancestor, below the root, with the same label) is factored into an auxiliary tree and the initial tree that remains when it is removed, such that adjoining the one to the other gives the original tree; elementary trees without recursion and the weights are kept. The context-free rules of an osTAG have exactly the derivations of the TAG: substitution at frontier nodes, adjunction (repeated or not) at all nodes of initial trees and all nodes off the spine of auxiliary trees; each derivation has the derived tree, and the product of the weights of the initial and auxiliary trees it consists of.',
    over=['inputs'],
    quant='Every assignment of the symbolic labels to nodes of the given elementary trees, and every derivation with a yield up to the stated length.',
    why='There are no tests of osTAG except the documentation of one extracted tree; which nodes can be adjoined at which other nodes depends on coinciding labels across all elementary trees.',
    files=['discodop/grammar.py', 'discodop/_fragments.pyx'],
    mech=[('extraction', 'grammar.inducetagfromtsg, extractinit, extractaux, renumber'), ('reduction', 'grammar.ostagreduction, SpinedTreeDecorator')],
    note=NOTE + 'An independent reference enumerates the derivations of the TAG. Bounds: 2-5 elementary trees with 3-8 nodes, of which up to 6 symbolic labels (2 or 3 values), sentences of up to 5 words (7 thorough). With packed graphs, weights are not compared.'),
]
