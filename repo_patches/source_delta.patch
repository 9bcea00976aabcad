From d19efdaa75939d2e0556e8d9a8b713f01e1b4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 001/158] fix: PyAgenda.peekitem skips invalidated entries
 without dropping a valid one

---
 discodop/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..357e592 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -246,15 +246,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and self.heap[0].count == INVALID:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
-- 
2.43.0


From 8da6e3fed917d25ef7553cfdc6a45f736288a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 002/158] fix: PyAgenda.clear resets the length

---
 discodop/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/util.py b/discodop/util.py
index 357e592..6a61a9c 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -284,6 +284,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
-- 
2.43.0


From 53b06a934c0ca9a1c6d1e007c2ca170ed668e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 003/158] fix: PyAgenda keeps insertion order of ties when
 entries are invalidated

---
 discodop/util.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 6a61a9c..73b178a 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -194,15 +194,13 @@ class OrderedSet(Set):
 		return self._from_iterable(value for value in self if value in other)
 
 
-INVALID = 0
-
-
 class Entry(object):
 	"""A PyAgenda entry."""
 	def __init__(self, key, value, count):
 		self.key = key
 		self.value = value
 		self.count = count
+		self.valid = True  # keep count intact: heap order depends on it
 
 	def __lt__(self, b):
 		return (self.value < b.value
@@ -234,7 +232,7 @@ class PyAgenda:
 					oldentry = self.mapping[k]
 					if entry < oldentry:
 						entry.count = oldentry.count
-						oldentry.count = INVALID
+						oldentry.valid = False
 						self.mapping[k] = entry
 						self.heap.append(entry)
 				else:
@@ -246,7 +244,7 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		while self.heap and self.heap[0].count == INVALID:
+		while self.heap and not self.heap[0].valid:
 			heappop(self.heap)
 		if not self.heap:
 			raise IndexError("peek at empty heap")
@@ -259,7 +257,7 @@ class PyAgenda:
 		if key is None:
 			return self.popitem()[1]
 		entry = self.mapping.pop(key)
-		entry.count = INVALID
+		entry.valid = False
 		self.length -= 1
 		return entry.value
 
@@ -267,7 +265,7 @@ class PyAgenda:
 		""":returns: best scoring (key, value) pair; removed from agenda."""
 		entry = None
 		entry = heappop(self.heap)
-		while not entry.count:
+		while not entry.valid:
 			entry = heappop(self.heap)
 		del self.mapping[entry.key]
 		self.length -= 1
@@ -299,7 +297,7 @@ class PyAgenda:
 		if key in self.mapping:
 			oldentry = self.mapping[key]
 			entry.count = oldentry.count
-			oldentry.count = INVALID
+			oldentry.valid = False
 		else:
 			self.length += 1
 			self.counter += 1
@@ -308,13 +306,13 @@ class PyAgenda:
 
 	def __delitem__(self, key):
 		"""Remove key from heap."""
-		self.mapping[key].count = INVALID
+		self.mapping[key].valid = False
 		self.length -= 1
 		del self.mapping[key]
 
 	def __repr__(self):
 		return '%s({%s})' % (self.__class__.__name__, ", ".join(
-				['%r: %r' % (a.key, a.value) for a in self.heap if a.count]))
+				['%r: %r' % (a.key, a.value) for a in self.heap if a.valid]))
 
 	def __str__(self):
 		return self.__repr__()
-- 
2.43.0


From 7771ad5f82813655182d7ed7ff17d3f0a599867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 004/158] fix: ImmutableTree.insert modified the tree

---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..bf250e4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From ffd87f24bcee8c14bef9eff4f15b5f9d01c2b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 005/158] fix: refused duplicate child left inconsistent parent
 pointers

---
 discodop/tree.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index bf250e4..a8fe7da 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -689,6 +689,7 @@ class ParentedTree(Tree):
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i, dry_run=True)
+		self._checkduplicates(self.children)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -786,6 +787,13 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	@staticmethod
+	def _checkduplicates(children):
+		"""Raise ValueError if a subtree occurs more than once."""
+		subtrees = [id(child) for child in children if isinstance(child, Tree)]
+		if len(set(subtrees)) < len(subtrees):
+			raise ValueError('Cannot insert a subtree more than once.')
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -826,6 +834,7 @@ class ParentedTree(Tree):
 			for i, child in enumerate(value):
 				if isinstance(child, Tree):
 					self._setparent(child, start + i, dry_run=True)
+			self._checkduplicates(value)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
-- 
2.43.0


From 07838427c2ed8b12858b2585cd432badf7887db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 006/158] fix: DiscTree equality ignored children after the
 first leaf

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index a8fe7da..aafcba8 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -981,7 +981,8 @@ class DiscTree(ImmutableTree):
 			if istree != isinstance(b, Tree):
 				return False
 			elif not istree:
-				return self.sent[a] == other.sent[b]
+				if self.sent[a] != other.sent[b]:
+					return False
 			elif not a.__eq__(b):
 				return False
 		return True
-- 
2.43.0


From 58d3079074c5220124e1d9bd78972f46ea5a745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 007/158] fix: BracketCorpusReader did not unescape brackets in
 words

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..2caf251 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From e35621a366d626d7292d1c2a6468a50bfa1aeae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 008/158] fix: TIGER XML reader lost functions of nodes that
 follow their parent

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 2caf251..d2b994b 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -397,7 +397,9 @@ class TigerXMLCorpusReader(CorpusReader):
 				ntid = nt.get('id').split('_')[-1]
 				fields[WORD] = '#' + ntid
 				fields[TAG] = nt.get('cat')
-				fields[LEMMA] = fields[MORPH] = fields[FUNC] = '--'
+				fields[LEMMA] = fields[MORPH] = '--'
+				if fields[FUNC] is None:  # parent may precede this node
+					fields[FUNC] = '--'
 			for edge in nt:
 				idref = edge.get('idref')
 				nodes.setdefault(idref, 6 * [None])
-- 
2.43.0


From 082d3f696250fd43c4d5d87b81eb5c1737d39136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 009/158] fix: incremental reader yielded an empty tree for
 tables in export files

---
 discodop/treebank.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index d2b994b..981e713 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1201,6 +1201,11 @@ def segmentexport(morphology, functions, strict=False):
 		elif line.startswith('#EOS ') or line.startswith('#EOT '):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
+			if line.startswith('#EOT '):  # a table, not a tree
+				line = (yield None, CONSUMED)
+				inblock = 0
+				cur = []
+				continue
 			cur.append(line)
 			item = exporttree(cur, functions, morphology)
 			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
-- 
2.43.0


From 118d46f84cda8f71487df85629ec4158c0997a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 010/158] fix: incremental reader refused text before the first
 tree on a line

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 981e713..4ad2972 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1112,7 +1112,8 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					start = a
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From fab507dde76540d02cfc8135a5b08aedad5ebce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 011/158] fix: comment in Alpino XML was written where it is
 not read

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 4ad2972..d80aa76 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -864,10 +864,11 @@ def writealpinotree(tree, sent, key, commentstr):
 	addchildren(tree, sent, result, count())
 	sentence = ElementTree.SubElement(result, 'sentence')
 	sentence.text = ' '.join(sent)
-	comment = ElementTree.SubElement(result, 'comment')
+	comments = ElementTree.SubElement(result, 'comments')
+	comment = ElementTree.SubElement(comments, 'comment')
 	comment.text = ('%s|%s' % (key, commentstr)) if commentstr else str(key)
 	result.text = sentence.tail = '\n  '
-	result.tail = comment.tail = '\n'
+	result.tail = comments.tail = '\n'
 	return ElementTree.tostring(result).decode('utf8')  # hack
 
 
-- 
2.43.0


From 210c9f7867c6191e0387ca4bbaa5401d5270491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 012/158] fix: collapsing and expanding unary nodes failed with
 ParentedTree

---
 discodop/treetransforms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..f6e1049 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -299,8 +299,11 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
+						# detach children so that they may get a new parent.
+						children = list(node)
+						node[:] = []
 						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+								node.label[unaryindex + 1:], children)
 						node.label = node.label[:unaryindex]
 						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
@@ -328,7 +331,11 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				# detach children so that they may get a new parent.
+				child = node[0]
+				children = list(child)
+				child[:] = []
+				node[0:] = children
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From aee8f4ebf6bfa78cb51c1a18c35416d1bd30e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 013/158] fix: artificial nodes with a tail marker were not
 removed by unbinarize

---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index f6e1049..07390a7 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				# NB: must contain childchar + '<' to be recognized by unbinarize()
+				newnode.label = ''.join((
+						origlabel, childchar, mark[:1], marktail, mark[1:]))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From ab2b7d6ca1a74f5c5ff6baefd3f39ec4ec6dc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 014/158] fix: left factored binarization included wrong
 siblings in labels

---
 discodop/treetransforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 07390a7..97ffbc7 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -227,7 +227,10 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
 								if a not in filterlabels) + ';'
-				siblings += ','.join([a for a in childlabels[start:]
+				# with left factoring, the siblings from end are already covered
+				stop = (end if factor == 'left' and not headoutward
+						else numchildren)
+				siblings += ','.join([a for a in childlabels[start:stop]
 						if a not in filterlabels][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
-- 
2.43.0


From 63df6fce5d904d31088312df28b0d0edfa60558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 015/158] fix: splitdiscnodes lost head marks of discontinuous
 nodes

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 97ffbc7..2392383 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -523,7 +523,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in newchild)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From eaae9d394c04597d82dd6f31d5861402587e3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 016/158] fix: removefanoutmarkers truncated labels containing
 an underscore

---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 2392383..add22f5 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -640,7 +640,9 @@ def addfanoutmarkers(tree):
 def removefanoutmarkers(tree):
 	"""Remove fanout marks."""
 	for a in tree.subtrees(lambda x: '_' in x.label):
-		a.label = a.label.rsplit('_', 1)[0]
+		label, marker = a.label.rsplit('_', 1)
+		if marker.isdigit():
+			a.label = label
 	return tree
 
 
-- 
2.43.0


From eb1ee5e4e1285961ca847abfba18a73f63979b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 017/158] fix: punctlower crashed on or lost punctuation

---
 discodop/punctuation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..931389c 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -110,11 +110,19 @@ def punctlower(tree, sent):
 			elif num < max(termdom):
 				lower(node, child)
 				break
+		else:
+			candidate.append(node)
 
-	for a in tree.treepositions('leaves'):
-		if ispunct(sent[tree[a]], tree[a[:-1]]):
+	for num in sorted(tree.leaves()):
+		# look up position anew, because tree is modified
+		a = next(a for a in tree.treepositions('leaves') if tree[a] == num)
+		if ispunct(sent[num], tree[a[:-1]]):
 			b = tree[a[:-1]]
-			del tree[a[:-1]]
+			# remove this punctuation node and any empty ancestors
+			for n in range(1, len(a)):
+				del tree[a[:-n]]
+				if tree[a[:-(n + 1)]]:
+					break
 			lower(b, tree)
 
 
-- 
2.43.0


From a454634afe05886857d0d7b6ec3f071db8f21b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 018/158] fix: head rules without a list of heads were ignored

---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index d16d494..e108527 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -47,7 +47,7 @@ def readheadrules(filename):
 	with io.open(filename, encoding='utf8') as inp:
 		for line in inp:
 			line = line.strip().upper()
-			if line and not line.startswith("%") and len(line.split()) > 2:
+			if line and not line.startswith("%") and len(line.split()) > 1:
 				try:
 					label, direction, heads = HEADRULERE.match(line).groups()
 				except AttributeError:
-- 
2.43.0


From eafbd47835fc5bf0746663f641a6d394d8f101d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 019/158] fix: head and modifier rules were not applied to
 labels with lower case letters

---
 discodop/heads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e108527..008a8bc 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -92,7 +92,7 @@ def headfinder(tree, headrules, headlabels=frozenset({'HD'})):
 	# apply heuristic rules:
 	head = None
 	children = tree
-	for direction, heads in headrules.get(tree.label, []):
+	for direction, heads in headrules.get(tree.label.upper(), []):
 		if direction.startswith('LEFT'):
 			children = tree
 		elif direction.startswith('RIGHT'):
@@ -153,7 +153,7 @@ def markmodifiers(tree, modifierrules):
 		if child.type == HEAD:
 			continue
 		child.type = COMPLEMENT
-		applicablerules = modifierrules.get(tree.label.split('-', 1)[0], []
+		applicablerules = modifierrules.get(tree.label.split('-', 1)[0].upper(), []
 				) + modifierrules.get('*', [])
 		for mod in applicablerules:
 			if ((child.label.split('-', 1)[0].upper() == mod.split('-', 1)[0]
-- 
2.43.0


From 26a0dde22b476e84c5a4c9e0f2277b09e6ed75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 020/158] fix: saveheads with a tail marker marked the
 artificial node as head

---
 discodop/heads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index 008a8bc..0acbaf9 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -171,8 +171,9 @@ def markmodifiers(tree, modifierrules):
 def saveheads(tree, tailmarker):
 	"""Infer head from binarization and store."""
 	if tailmarker:
-		for node in tree.subtrees(lambda n: tailmarker in n.label):
-			node.type = HEAD
+		# the marked artificial node introduces the head.
+		for node in tree.subtrees(lambda n: '|<' + tailmarker in n.label):
+			node[-1].type = HEAD
 	else:
 		# assume head-outward binarization; the last binarized node has the head.
 		for node in tree.subtrees(lambda n: '|<' in n.label
-- 
2.43.0


From e02f2ceefc061b8024e5d1eadd4f5da6426954e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 021/158] fix: deplen counted the dependencies of the root

---
 discodop/treebank.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index d80aa76..f90197c 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -927,9 +927,9 @@ def deplen(deps):
 	"""Compute dependency length from result of ``dependencies()``.
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
-	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
-	return (total, float(len(deps) - 1))  # discount ROOT
+	# discount ROOT
+	lengths = [abs(a - b) for a, label, b in deps if label.upper() != 'ROOT']
+	return (sum(lengths), float(len(lengths)))
 
 
 def handlefunctions(action, tree, pos=True, root=False, morphology=None):
-- 
2.43.0


From 54cf1d5de823f914107aabf78ede4304bddd040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 022/158] fix: frequencies of root nodes were counted twice in
 DOP reduction

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..f79697a 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -805,7 +805,8 @@ def nodefreq(tree, dectree, subtreefd, nonterminalfd):
 	>>> fd == Counter({'S': 4, 'NP': 1, 'VP': 1, 'NP@1-0': 1, 'VP@1-1': 1})
 	True"""
 	nonterminalfd[tree.label] += 1
-	nonterminalfd[dectree.label] += 1
+	if dectree.label != tree.label:  # root node receives no ID
+		nonterminalfd[dectree.label] += 1
 	if isinstance(tree[0], Tree):
 		n = reduce(mul, (nodefreq(x, ux, subtreefd, nonterminalfd) + 1
 			for x, ux in zip(tree, dectree)))
-- 
2.43.0


From f19bfbc9166b312e9b072f3b1a04f6a08a439505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 023/158] fix: packed graph encoding shared addresses of
 subtrees with different gaps

---
 discodop/grammar.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f79697a..4662d42 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -869,13 +869,16 @@ class TreeDecorator(object):
 		"""Traverse subtrees not yet seen."""
 		if isinstance(tree, int):
 			return tree
-		elif tree not in self.packedgraphs:
+		# equality of trees ignores indices, but gaps should match as well.
+		leaves = tree.leaves()
+		key = tree, tuple(a - leaves[0] for a in leaves)
+		if key not in self.packedgraphs:
 			self.ids += 1
-			self.packedgraphs[tree] = ImmutableTree(("%s@%d-%d" % (
+			self.packedgraphs[key] = ImmutableTree(("%s@%d-%d" % (
 					tree.label, self.n, self.ids)),
 					[self._recdecorate(child) for child in tree])
-			return self.packedgraphs[tree]
-		return self._copyexceptindices(tree, self.packedgraphs[tree])
+			return self.packedgraphs[key]
+		return self._copyexceptindices(tree, self.packedgraphs[key])
 
 	def _copyexceptindices(self, tree1, tree2):
 		"""Copy the nonterminals from tree2, but take indices from tree1."""
-- 
2.43.0


From 45ad5a7675f2e95d22d8e1e5dfe94e5c7ef128e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 024/158] fix: DOP reduction failed with an extra rule for a
 new label

---
 discodop/grammar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 4662d42..5247985 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -150,6 +150,7 @@ def dopreduction(trees, sents, packedgraph=False, decorator=None,
 		for rule in extrarules:
 			rules[rule] += extrarules[rule]
 			fd[rule[0][0]] += extrarules[rule]
+			ntfd.setdefault(rule[0][0], 1)  # label may not occur in trees
 
 	def weights(rule):
 		""":returns: rule with RFE and EWE probability."""
-- 
2.43.0


From 7671325f5a5dcc41031b9a4af45f210086600d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 025/158] fix: flattened fragments with different inner yield
 functions shared labels

---
 discodop/treetransforms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index add22f5..2a807ca 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -428,21 +428,23 @@ def factorconstituent(node, sep='|', h=999, factor='right',
 			rng = range(1, len(node) - 1)
 		else:
 			raise ValueError("factor should be 'left' or 'right'.")
+		yf = ''  # the yield functions of all nodes below the current one
 		for i in rng:
+			if markyf:
+				yf += (getyf(node[i], prev) if factor == 'right'
+						else getyf(prev, node[i]))
 			newbitset = node[i].bitset | prev.bitset
 			if factor == 'right' and (ids is None or i > 1):
 				key = ','.join(labelfun(child) for child in node[i:i + h]
 						if labelfun(child) not in filterlabels)
-				if markyf:
-					key += getyf(node[i], prev)
+				key += yf
 				if ids is not None:
 					key = ids[key]
 			elif factor == 'left' and (ids is None or i < len(node) - 2):
 				key = ','.join(labelfun(child)
 						for child in node[max(0, i - h + 1):i + 1]
 						if labelfun(child) not in filterlabels)
-				if markyf:
-					key += getyf(prev, node[i])
+				key += yf
 				if ids is not None:
 					key = ids[key]
 			else:
-- 
2.43.0


From ffd62b797fcb27b139b3dd4c8f701258dea7dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 026/158] fix: grammar rules with label . or large weights
 could not be parsed

---
 discodop/grammar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 5247985..f9752de 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -13,10 +13,12 @@ from .treebank import LEAVESRE
 from .util import openread, merge as utilmerge
 from functools import reduce  # pylint: disable=redefined-builtin
 
+NUMBER = r'[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[-+]?[0-9]+)?'
 RULERE = re.compile(
 		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*)\t'
-		r'(?P<WEIGHT1>(?P<FREQ1>[-.e0-9]+)(?:\/[0-9]+)?)$'
-		r'|(?P<FREQ2>[-.e0-9]+)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')
+		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/[0-9]+)?)$'
+		r'|(?P<FREQ2>%s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$'
+		% (NUMBER, NUMBER))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From 95adaae40c1e338ad78a437d2256e00086eee670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 027/158] fix: sumrules attributed weights to the wrong rule

---
 discodop/grammar.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f9752de..652efd8 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1212,27 +1212,29 @@ def stripweight(line):
 
 def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
-	prev = None
+	prev = prevmatch = None
 	w1 = 0.0
 	for line in iterable:
 		match = RULERE.match(line)
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
+				if prevmatch.group('RULE1') is None:
+					yield '%g\t%s\n' % (w1 / n, prev)
 				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+					yield '%s\t%g\n' % (prev, w1 / n)
 			prev = rule
+			prevmatch = match
 			w1 = 0.0
 		if match.group('RULE1') is None:
 			w1 += convertweight(match.group('FREQ2'))
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
-	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+	if prev is not None:
+		if prevmatch.group('RULE1') is None:
+			yield '%g\t%s\n' % (w1 / n, prev)
+		else:
+			yield '%s\t%g\n' % (prev, w1 / n)
 
 
 def sumlex(iterable, n):
-- 
2.43.0


From 6286c890086466b78ef10094f5a09749b3a84eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 028/158] fix: fragments in bracket notation could not be
 compiled

---
 discodop/cli.py     | 2 +-
 discodop/grammar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..176dd17 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -454,7 +454,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 652efd8..ea99e41 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1286,7 +1286,7 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''), frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From 075338a1a47ebd20a35159214b6718d755bafa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 029/158] fix: grammar statistics could not be read from a file

---
 discodop/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index ea99e41..4c3eeb5 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1163,11 +1163,11 @@ def grammarstats(filename):
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
 	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+			else open)(filename, 'rb')):
 		match = RULERE.match(line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				print('%s\t%d\t%g' % (label, cnt, freq))
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-- 
2.43.0


From fac70131cff4882f25fa7f20dd90d0f2882ccc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 030/158] fix: slice_bounds failed with steps

---
 discodop/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 73b178a..228d429 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -122,15 +122,15 @@ def slice_bounds(seq, slice_obj, allow_step=False):
 		If it does, then return a tuple (start, stop, step)."""
 	start, stop = (slice_obj.start, slice_obj.stop)
 	if allow_step:
-		slice_obj.step = 1 if slice_obj.step is None else slice_obj.step
+		step = 1 if slice_obj.step is None else slice_obj.step
 		# Use a recursive call without allow_step to find the slice
 		# bounds. If step is negative, then the roles of start and
 		# stop (in terms of default values, etc), are swapped.
-		if slice_obj.step < 0:
+		if step < 0:
 			start, stop, _ = slice_bounds(seq, slice(stop, start))
 		else:
 			start, stop, _ = slice_bounds(seq, slice(start, stop))
-		return start, stop, slice_obj.step
+		return start, stop, step
 	elif slice_obj.step not in (None, 1):
 		raise ValueError('slices with steps are not supported by %s' %
 				seq.__class__.__name__)
-- 
2.43.0


From 49f3696644222a4d9585f0415970ef96feaf3f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 031/158] fix: OrderedSet repeated duplicate elements

---
 discodop/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/util.py b/discodop/util.py
index 228d429..0e566b4 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -154,7 +154,7 @@ class OrderedSet(Set):
 
 	def __init__(self, iterable=None):
 		if iterable:
-			self.seq = tuple(iterable)
+			self.seq = tuple(dict.fromkeys(iterable))
 			self.theset = frozenset(self.seq)
 		else:
 			self.seq = ()
-- 
2.43.0


From dd0cd8411cde9e494ebdb53fee9921625dde18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 032/158] fix: left factored binarization with head label
 included wrong siblings

---
 discodop/treetransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 2a807ca..977abee 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -125,6 +125,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				if isinstance(child, Tree) and child.type == HEAD:
 					headidx = i
 					break
+		# when switching direction, siblings up to the head are covered
+		headoffset = (headidx or 0) if headoutward else 0
 		# binary form factorization
 		if len(node) <= threshold:
 			continue
@@ -171,9 +173,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					start = i
 					end = i + horzmarkov
 				else:  # factor == 'left'
-					start = max(numchildren - i - horzmarkov + (headidx or 0),
+					start = max(numchildren - i - horzmarkov + headoffset,
 							0)
-					end = min(numchildren - i + (headidx or 0), numchildren)
+					end = min(numchildren - i + headoffset, numchildren)
 				siblings = ''
 				if direction and factor == 'left':
 					siblings += 'r:'
@@ -200,9 +202,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					start = i
 					end = i + horzmarkov
 				else:  # factor == 'left':
-					start = max(numchildren - i - horzmarkov + (headidx or 0),
-							(headidx or 0))
-					end = min(numchildren - i + (headidx or 0),
+					start = max(numchildren - i - horzmarkov + headoffset,
+							headoffset)
+					end = min(numchildren - i + headoffset,
 							numchildren)
 				if factor == 'right':
 					curnode[:] = [childnodes.pop(0), newnode]
-- 
2.43.0


From e10cff802c07cf69ab01fedcdc3788baef2150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 033/158] fix: labels with a slash were not filtered from
 horizontal context

---
 discodop/treetransforms.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 977abee..4764dc3 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -101,6 +101,10 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 	treeclass = tree.__class__
 	origfactor = factor
 
+	def filtered(label):
+		"""Test whether label should be left out of horizontal context."""
+		return label.split('/', 1)[0] in filterlabels
+
 	# Traverse tree depth-first keeping a list of ancestor nodes to the root.
 	agenda = [(tree, [tree.label])]
 	while agenda:
@@ -142,7 +146,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					siblings += node[headidx].label + ';'
 				siblings += ','.join(labelfun(child)
 						for child in node[:horzmarkov]
-						if labelfun(child).split('/', 1)[0] not in filterlabels)
+						if not filtered(labelfun(child)))
 			if dot:
 				siblings += '.'
 			mark = '<%s>%s' % (siblings, parents)
@@ -186,7 +190,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				if dot:
 					siblings += '.'
 				siblings += ','.join(a for a in childlabels[start:end]
-						if a not in filterlabels)
+						if not filtered(a))
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
@@ -219,21 +223,21 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					siblings += childlabels[headidx] + ';'
 				if dot:
 					siblings += ','.join(a for a in childlabels[:start]
-							if a not in filterlabels) + '.'
+							if not filtered(a)) + '.'
 				if revhorzmarkov:
 					if factor == 'right':
 						siblings += ','.join(a for a in childlabels[
 								max(start - revhorzmarkov, 0):start]
-								if a not in filterlabels) + ';'
+								if not filtered(a)) + ';'
 					else:  # factor == 'left':
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
-								if a not in filterlabels) + ';'
+								if not filtered(a)) + ';'
 				# with left factoring, the siblings from end are already covered
 				stop = (end if factor == 'left' and not headoutward
 						else numchildren)
 				siblings += ','.join([a for a in childlabels[start:stop]
-						if a not in filterlabels][:horzmarkov])
+						if not filtered(a)][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-- 
2.43.0


From 5f7956918746d7c8a333025d4cb841ae0d19fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 034/158] fix: lexical rules were lost when reading a bitpar
 grammar

---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..517f8c6 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = list(map(float, weights))
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = list(map(int, weights))
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From 0d1a1d47ef590a4e1f0b86d626b5e3d1d17712fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 035/158] fix: lexical rules of labels that also have phrasal
 rules were never generated

---
 discodop/gen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 517f8c6..a139d0c 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -34,10 +34,10 @@ def gen(grammar, start=1, discount=0.75, prodcounts=None, verbose=False):
 	"""
 	if prodcounts is None:
 		prodcounts = [1] * grammar.numrules
-	if not grammar.bylhs[start]:
-		terminal = chooserule(grammar.lexicalbylhs[start], discount, prodcounts)
-		return (terminal.prob, [[terminal.word]])
-	rule = chooserule(grammar.bylhs[start], discount, prodcounts)
+	rule = chooserule(grammar.bylhs[start]
+			+ grammar.lexicalbylhs.get(start, []), discount, prodcounts)
+	if isinstance(rule, LexicalRule):
+		return (rule.prob, [[rule.word]])
 	prodcounts[rule.no] += 1
 	p1, l1 = gen(grammar, rule.rhs1, discount, prodcounts, verbose)
 	assert l1
-- 
2.43.0


From 147abd81ebaebfca20020d222b6691d1e1ebd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 036/158] fix: generating sentences from files failed in Python
 3

---
 discodop/gen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index a139d0c..3602e0f 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -259,12 +258,13 @@ def main():
 		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(sys.argv[1]) as inp:
+		rules = inp.readlines()
+	with openread(sys.argv[2]) as inp:
+		lexicon = inp.readlines()
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
-	except ValueError:
+	except (ValueError, IndexError):
 		xgrammar = read_bitpar_grammar(rules, lexicon)
 	grammar = splitgrammar(xgrammar)
 	for _ in range(20):
-- 
2.43.0


From 39c3088784934f3ffca9f0f0236ec6454778c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 037/158] fix: option for start symbol of gen removed the name
 of the rules file

---
 discodop/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 3602e0f..b08f984 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -250,7 +250,7 @@ def main():
 	if "-s" in sys.argv:
 		i = sys.argv.index("-s")
 		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
+		sys.argv.pop(i)
 	verbose = "--verbose" in sys.argv
 	if verbose:
 		sys.argv.remove('--verbose')
-- 
2.43.0


From bcec7abbf911732dce910dbd6141c7c910e4761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 038/158] fix: APPEND-MORPH called a nonexistent method and
 could not be reversed

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..3f6c312 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,11 +153,11 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a.label += STATESPLIT + morph
+				a.label += '/' + morph
 		elif name == 'MORPH-NODE':  # insert node w/morph. features above POS
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
-- 
2.43.0


From 9ce6435e7506a4e33f9928888814ae45c66bba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 039/158] fix: PP-NP transform raised NameError for PPs with a
 single NK child

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 3f6c312..990ce30 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -249,7 +249,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in ('NP', 'PN')):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From 9ae3d6e98a097e2ae85d6c38a0ee44867dd5fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 040/158] fix: reversal of MORPH-NODE swapped the POS tag and
 the morphology tag

---
 discodop/treebanktransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 990ce30..f81d6ed 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -163,8 +163,9 @@ def transform(tree, sent, transformations):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a[:] = [a.__class__(morph,
+				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
+				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
@@ -1310,8 +1311,8 @@ def reversetransform(tree, sent, transformations):
 		elif name == 'MORPH-NODE':  # nodes with morph. above preterminals
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
-				a.source[MORPH] = a.label
+				a.source = a.source or a[0].source or ['--'] * 6
+				a.source[MORPH] = a.label.replace('[', '(').replace(']', ')')
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
-- 
2.43.0


From f87adb704287b52cf2c7d2b04beb7357c8469bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 041/158] fix: reversal of FUNC-NODE and LEMMA-NODE discarded
 other attributes

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index f81d6ed..3018afe 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1304,7 +1304,7 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n.label.startswith('-')
 					and not n.label.endswith('-')  # -LRB-
 					and n and isinstance(n[0], Tree))):
-				a.source = ['--'] * 6
+				a.source = a.source or a[0].source or ['--'] * 6
 				a.source[FUNC] = a.label[1:]
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
@@ -1318,7 +1318,7 @@ def reversetransform(tree, sent, transformations):
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
+				a.source = a.source or ['--'] * 6
 				a.source[LEMMA] = unescape(a[0].label)
 				a.source[TAG] = a.label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
-- 
2.43.0


From 4369d6cd4fa6af1d017369f3c00fd19c697a44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 042/158] fix: rrtransform labeled adjuncts with last function
 instead of next function

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 3018afe..6ad4544 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1463,7 +1463,7 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				and child.source[FUNC] not in ignorefunctions
 				and child.label not in ignorecategories):
 			nextfunc = child.source[FUNC]
-		childfuncsr.insert(0, prevfunc)
+		childfuncsr.insert(0, nextfunc)
 	funcstr = ','.join(sorted(child.source[FUNC] for child in tree
 			if isinstance(child, Tree) and child.source[FUNC]
 					and child.source[FUNC] != adjunctionlabel
-- 
2.43.0


From 9bc4102b7efef6f5f29ed9dc24135b1eeacee480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 043/158] fix: rrtransform raised TypeError with default
 arguments

---
 discodop/treebanktransforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 6ad4544..16cf392 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1441,6 +1441,8 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				else child.source[FUNC]), tree.label), [newchild])
 		return result, morph, lvl
 
+	ignorefunctions = ignorefunctions or ()
+	ignorecategories = ignorecategories or ()
 	if isinstance(tree[0], int):
 		morph = tree.source[MORPH].replace('(', '[').replace(')', ']')
 		preterminal = tree.__class__('%s/%s' % (tree.label, morph), tree)
-- 
2.43.0


From 5e8164b3d726c50c8654a9b36de95036f95ca2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 044/158] fix: FUNC-NODE and MORPH-NODE lost attributes needed
 by later transformations

---
 discodop/treebanktransforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 16cf392..43948ca 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -151,6 +151,8 @@ def transform(tree, sent, transformations):
 				if func and not a.label.endswith('-'):  # -LRB-
 					a[:] = [a.__class__(a.label,
 							[a.pop() for _ in range(len(a))][::-1])]
+					a[0].source = list(a.source)
+					a[0].source[FUNC] = '--'
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
 			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
@@ -165,6 +167,8 @@ def transform(tree, sent, transformations):
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
 				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
+				if a.source:
+					a[0].source = list(a.source)
 				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
-- 
2.43.0


From bc00e511b51fdade112e8ea10645a865a932a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 045/158] fix: SBAR transform and its reversal inserted nodes
 that already have a parent

---
 discodop/treebanktransforms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 43948ca..1e8f7da 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -321,7 +321,8 @@ def negratransforms(name, tree, sent):
 		for s in list(tree.subtrees(lambda n: n.label == 'S'
 				and function(n[0]) in sbarfunc and len(n) > 1)):
 			s.label = 'SBAR'
-			s[:] = [s[0], ParentedTree('S', s[1:])]
+			children = s.disown()
+			s[:] = [children[0], ParentedTree('S', children[1:])]
 	elif name == 'NEST':  # introduce nested structures for modifiers
 		# (iterated adjunction instead of sister adjunction)
 		adjunctable = {'NP'}  # PP AP VP
@@ -1200,10 +1201,11 @@ def reversetransform(tree, sent, transformations):
 					or (n.label == 'S' and len(n) == 2
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
-				if sbar[0].label == 'S':
-					sbar[:] = sbar[1:] + sbar[0][:]
+				children = sbar.disown()
+				if children[0].label == 'S':
+					sbar[:] = children[1:] + children[0].disown()
 				else:
-					sbar[:] = sbar[:1] + sbar[1][:]
+					sbar[:] = children[:1] + children[1].disown()
 		elif name == 'VP-FIN_NEGRA':
 			def mergevp(s):
 				"""Merge finite VP with S level."""
-- 
2.43.0


From 51c266038e9d4daeff9894b0aecf187de436add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 046/158] fix: NEST transform and its reversal inserted nodes
 that already have a parent

---
 discodop/treebanktransforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 1e8f7da..a9c28d0 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -333,8 +333,9 @@ def negratransforms(name, tree, sent):
 				modifiers[:] = modifiers[::-1]
 			while modifiers:
 				modifier = modifiers.pop()
+				children = a.disown()
 				a[:] = [ParentedTree(a.label,
-						[x for x in a if x != modifier]), modifier]
+						[x for x in children if x is not modifier]), modifier]
 				a = a[0]
 	# The following transformations as described in Fraser et al (CL, 2013)
 	# http://aclweb.org/anthology/J13-1005
@@ -1189,7 +1190,8 @@ def reversetransform(tree, sent, transformations):
 						and [x.label for x in n].count('NP') == 1
 						and not set(labels(n)) & probably_nk):
 					n.children.sort(key=lambda n: n.label == 'NP')
-					n[:] = n[:1] + n[1][:]
+					children = n.disown()
+					n[:] = children[:1] + children[1].disown()
 		elif name == 'PP-NP':  # flatten PPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'):
 				if 'NP' in labels(pp) and 'NN' not in labels(pp):
-- 
2.43.0


From 9ab7c9ba6e1ae3f87c806f92cb493176ad8c423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 047/158] fix: POS-PART transform and its reversal inserted
 nodes that already have a parent

---
 discodop/treebanktransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index a9c28d0..234ad77 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -310,9 +310,10 @@ def negratransforms(name, tree, sent):
 				hd = [x for x in a
 						if isinstance(x, Tree) and x.type == HEAD].pop()
 				if hd.label != a.label:
+					children = a.disown()
 					particleverb = ParentedTree(hd.label, [hd, svp])
-					a[:] = [particleverb if x.type == HEAD else x
-										for x in a if function(x) != 'SVP']
+					a[:] = [particleverb if x is hd else x
+										for x in children if x is not svp]
 	elif name == 'SBAR':  # introduce SBAR level
 		sbarfunc = 'CP'.split()
 		# in the annotation, complementizers belong to the first S
@@ -1235,7 +1236,7 @@ def reversetransform(tree, sent, transformations):
 						and 'PTKVZ' in (c.label for c in b
 							if isinstance(c, Tree))
 						and any(c.label == b.label for c in b)):
-						a[n:n + 1] = b[:]
+						a[n:n + 1] = b.disown()
 		elif name == 'addUnary':
 			# remove phrasal projections for single tokens
 			# e.g. S => NP => NN becomes S => NN
-- 
2.43.0


From ee328abb2433cbc6d4d67ef2449e64995dac9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 048/158] fix: VP-FIN_NEGRA transform lost nodes and did not
 introduce VP

---
 discodop/treebanktransforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 234ad77..8587e2e 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -285,14 +285,17 @@ def negratransforms(name, tree, sent):
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
 				if len(vp) != 1 or vp[0].label != 'VP':
-					s[:] = [a.detach() for a in s if function(a) not in addtovp
-							] + [a.detach() for a in vp]
+					children = s.disown()
+					s[:] = [a for a in children
+							if function(a) not in addtovp
+							] + [ParentedTree('VP', vp)]
 		toplevel_s = []
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
 				while function(s[0]) in newlevel:
-					s[:] = [s[0], ParentedTree('S', s[1:])]
+					children = s.disown()
+					s[:] = [children[0], ParentedTree('S', children[1:])]
 					s = s[1]
 					toplevel_s = [s]
 		elif 'CS' in labels(tree):
-- 
2.43.0


From 3580e0d1bd7c4637b8f40de629a8b518bd1fe54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 049/158] fix: NEST transform introduced empty constituents

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 8587e2e..685aa4e 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -335,7 +335,7 @@ def negratransforms(name, tree, sent):
 			modifiers = [x for x in a if function(x) == 'MO']
 			if min(n for n, x in enumerate(a) if function(x) == 'MO') == 0:
 				modifiers[:] = modifiers[::-1]
-			while modifiers:
+			while modifiers and len(a) > 1:
 				modifier = modifiers.pop()
 				children = a.disown()
 				a[:] = [ParentedTree(a.label,
-- 
2.43.0


From 87837d1cd7705f6f003563e3daf2138ff34a8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 050/158] fix: VP-FIN_NEGRA transform crashed on sentences
 consisting of discourse markers

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 685aa4e..96e08e0 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -293,7 +293,7 @@ def negratransforms(name, tree, sent):
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
-				while function(s[0]) in newlevel:
+				while len(s) > 1 and function(s[0]) in newlevel:
 					children = s.disown()
 					s[:] = [children[0], ParentedTree('S', children[1:])]
 					s = s[1]
-- 
2.43.0


From 17f4e06d4a3ce82c780a990291a8fe9ec9a0c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 051/158] fix: VP-FIN_NEGRA transform introduced empty VPs

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 96e08e0..ae1fee8 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -284,7 +284,7 @@ def negratransforms(name, tree, sent):
 				vp = [a for a in s if function(a) in addtovp]
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
-				if len(vp) != 1 or vp[0].label != 'VP':
+				if vp and (len(vp) != 1 or vp[0].label != 'VP'):
 					children = s.disown()
 					s[:] = [a for a in children
 							if function(a) not in addtovp
-- 
2.43.0


From 6fe1355e92563f5417d2895fc3d10407042ca29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 052/158] fix: POS-PART transform crashed on preterminals

---
 discodop/treebanktransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index ae1fee8..e4e50dd 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -305,7 +305,8 @@ def negratransforms(name, tree, sent):
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
 		for a in tree.subtrees(
-				lambda n: any(function(x) == 'SVP' for x in n)):
+				lambda n: n and isinstance(n[0], Tree)
+				and any(function(x) == 'SVP' for x in n)):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
-- 
2.43.0


From 26b6ed40c4063d772df91d480e65876749d8ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 053/158] fix: order of unary agenda with dense CFG charts

---
 discodop/pcfg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..6c02a1c 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -748,7 +748,7 @@ cdef inline void applyunaryrules(
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
 		unaryagenda.setifbetter(
-				chart._label(item), (<Chart>chart).subtreeprob(itemidx))
+				chart._label(item), chart._subtreeprob(item))
 	# 	unaryentry.first = chart._label(item)
 	# 	unaryentry.second = chart._subtreeprob(item)
 	# 	unaryentries.push_back(unaryentry)
-- 
2.43.0


From d19a6696b65e46b7da97f4e2ff79e31b41df690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 054/158] fix: itemid of sparse CFG chart returned items not in
 chart

---
 discodop/pcfg.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 6c02a1c..d23e406 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -375,7 +375,10 @@ cdef class SparseCFGChart(CFGChart):
 		if whitelist is not None:
 			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
 					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.itemindex.find(item) != self.itemindex.end() and item
+		it = self.itemindex.find(item)
+		if it == self.itemindex.end():
+			return 0
+		return dereference(it).second
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
-- 
2.43.0


From 7d621c15009c42d7cd921d35fcd3af14035e27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 055/158] fix: whitelisted PCFG parser confused items of empty
 cells with other cells

---
 discodop/pcfg.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index d23e406..cf01d9c 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -574,9 +574,13 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				while leftitemidx < chart.items.size():
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					# the cell may be empty, in which case the index refers
+					# to an item of another cell.
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -603,8 +607,6 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-- 
2.43.0


From a3b2782e150c961a45c6e1d00a019ae81e8677db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 056/158] fix: weights of duplicate rules were not added when
 creating a grammar

---
 discodop/_grammar.pxi | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..c6a5d3f 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -328,19 +328,23 @@ cdef class Grammar:
 
 		if init:  # slightly faster way of normalizing than switch()
 			for n in range(self.numrules):
-				self._bylhs[n].prob = fabs(log(self._bylhs[n].prob
+				self._bylhs[n].prob = fabs(log(
+						self.rulecounts[self._bylhs[n].no]
 						/ self.freqmass[self._bylhs[n].lhs]))
 			for n in range(self.numbinary):
-				self._lbinary[n].prob = fabs(log(self._lbinary[n].prob
+				self._lbinary[n].prob = fabs(log(
+						self.rulecounts[self._lbinary[n].no]
 						/ self.freqmass[self._lbinary[n].lhs]))
 			for n in range(self.numbinary):
-				self._rbinary[n].prob = fabs(log(self._rbinary[n].prob
+				self._rbinary[n].prob = fabs(log(
+						self.rulecounts[self._rbinary[n].no]
 						/ self.freqmass[self._rbinary[n].lhs]))
 			for n in range(self.numunary):
-				self._unary[n].prob = fabs(log(self._unary[n].prob
+				self._unary[n].prob = fabs(log(
+						self.rulecounts[self._unary[n].no]
 						/ self.freqmass[self._unary[n].lhs]))
 			for n in range(self.lexical.size()):
-				self.lexical[n].prob = fabs(log(self.lexical[n].prob
+				self.lexical[n].prob = fabs(log(self.lexcounts[n]
 						/ self.freqmass[self.lexical[n].lhs]))
 			self.currentmodel = 'default'
 
-- 
2.43.0


From bc1114f2be7f8497efb79bb0fb7d6b507789de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 057/158] fix: unary agenda of PCFG parser kept entries of
 previous cells

---
 discodop/pcfg.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index cf01d9c..050f269 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -749,6 +749,8 @@ cdef inline void applyunaryrules(
 		bint usemask = grammar.mask.size() != 0
 		# pair[Label, Prob] unaryentry
 		# vector[pair[Label, Prob]] unaryentries
+	# NB: the heap may contain superseded entries from a previous cell.
+	unaryagenda = Agenda[Label, Prob]()
 	# collect possible rhs items for unaries
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
-- 
2.43.0


From f9f4ead6b9eda73fe0a99e425c3a1b9d836b88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 058/158] fix: k-best extraction lost derivations when spans
 share edges

---
 discodop/kbest.pxd |  1 +
 discodop/kbest.pyx | 16 ++++++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/discodop/kbest.pxd b/discodop/kbest.pxd
index 4546020..d2a5b02 100644
--- a/discodop/kbest.pxd
+++ b/discodop/kbest.pxd
@@ -9,6 +9,7 @@ from .pcfg cimport CFGChart, DenseCFGChart, SparseCFGChart
 from .plcfrs cimport LCFRSChart, SmallLCFRSChart, FatLCFRSChart
 
 ctypedef sparse_hash_map[ItemNo, RankedEdgeAgenda[Prob]] agendas_type
+ctypedef sparse_hash_map[ItemNo, RankedEdgeSet] explored_type
 
 cdef string getderiv(ItemNo v, RankedEdge ej, Chart chart)
 cdef collectitems(ItemNo v, RankedEdge& ej, Chart chart, itemset)
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 038c9da..7460b03 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -53,12 +53,12 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-		RankedEdgeSet& explored, int depthlimit):
+		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
 
 	:param k1: the global k, with ``k <= k1``
 	:param cand: contains a queue of edges to consider for each vertex
-	:param explored: a set of all edges already visited."""
+	:param explored: for each vertex, the set of edges already visited."""
 	cdef pair[RankedEdge, Prob] entry
 	cdef RankedEdge ej, ej1
 	cdef int ji
@@ -95,11 +95,11 @@ cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 					# if it exists and is not in heap yet
 					if (chart.rankededges[ei].size() != 0
 							and ji < <int>chart.rankededges[ei].size()
-							and explored.count(ej1) == 0):
+							and explored[v].count(ej1) == 0):
 						# 	and cand[v]): gives duplicates
 						# add it to the heap
 						cand[v].setitem(ej1, getprob(chart, v, ej1))
-						explored.insert(ej1)
+						explored[v].insert(ej1)
 			# end of lazynext
 		if cand[v].empty():
 			break
@@ -135,7 +135,7 @@ cdef inline Prob getprob(Chart chart, ItemNo v, RankedEdge& ej) except -1:
 
 
 cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
-		RankedEdgeSet& explored, int depthlimit) except -2:
+		explored_type& explored, int depthlimit) except -2:
 	"""Traverse derivation to ensure all 1-best RankedEdges are present.
 
 	:returns: True when ``ej`` is a valid, complete derivation."""
@@ -155,7 +155,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[leftitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[leftitem].insert(entry.first)
 		if not explorederivation(leftitem,
 				chart.rankededges[leftitem][ej.left].first,
 				chart, explored, depthlimit - 1):
@@ -170,7 +170,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[rightitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[rightitem].insert(entry.first)
 		return explorederivation(rightitem,
 				chart.rankededges[rightitem][ej.right].first,
 				chart, explored, depthlimit - 1)
@@ -271,7 +271,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 
 	:param k: the number of derivations to enumerate."""
 	cdef agendas_type cand
-	cdef RankedEdgeSet explored
+	cdef explored_type explored
 	cdef pair[RankedEdge, Prob] entry
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
-- 
2.43.0


From 9ee68cc1811f6d2fd14d190ed9b386a1f51b4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 059/158] fix: k-best extraction used Viterbi probability of
 item for lexical edge

---
 discodop/kbest.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 7460b03..f67b7a5 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -32,8 +32,14 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 	for e in chart.parseforest[v]:
 		if e.rule is NULL:
 			# there can only be one lexical edge for this combination of
-			# POS tag and terminal, use viterbi probability directly
+			# POS tag and terminal, use viterbi probability directly,
+			# unless it may be the probability of a unary derivation.
 			prob = chart.subtreeprob(v)
+			if chart.parseforest[v].size() > 1:
+				try:
+					prob = chart.grammar.lexical[chart.lexruleno(v, e)].prob
+				except ValueError:
+					pass  # given tag which does not occur with this word
 			left = right = -1
 		else:
 			left = right = 0
-- 
2.43.0


From 2c160f9dc40f8d3ee411f75248919684b6c8c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 060/158] fix: LCFRS parser read past end of item for word at
 last position

---
 discodop/plcfrs.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..0cd0e0b 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -1028,10 +1028,11 @@ cdef inline bint concat(ProbRule *rule,
 					return False
 				# there should be a gap if and only if
 				# this is the last element of this argument
+				# NB: rpos may be beyond last bit of vector
 				if testbit(rule.lengths, n):
-					if TESTBIT(alvec, rpos):
+					if lpos == rpos:
 						return False
-				elif not TESTBIT(alvec, rpos):
+				elif lpos != rpos:
 					return False
 				# jump to next argument
 				rpos = anextset(arvec, rpos, SLOTS)
@@ -1043,9 +1044,9 @@ cdef inline bint concat(ProbRule *rule,
 				if rpos != -1 and rpos < lpos:
 					return False
 				if testbit(rule.lengths, n):
-					if TESTBIT(arvec, lpos):
+					if rpos == lpos:
 						return False
-				elif not TESTBIT(arvec, lpos):
+				elif rpos != lpos:
 					return False
 				lpos = anextset(alvec, lpos, SLOTS)
 		return lpos == rpos == -1
-- 
2.43.0


From de66b68aee0ca8231a4d06703e00fb3f47e2f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 061/158] fix: POS tag that is also result of unary got wrong
 probability in LCFRS chart

---
 discodop/plcfrs.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 0cd0e0b..c6bfc4d 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -739,9 +739,8 @@ cdef populatepos(Grammar grammar,
 								lexrule.lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
-					# NB: do NOT add length of span to score, so that the
-					# scores of POS tags are all strictly smaller than any
-					# unaries on them.
+					else:  # length of span, cf. parse_main()
+						score += MAX_LOGPROB
 					newitem.label = lexrule.lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
@@ -775,6 +774,8 @@ cdef populatepos(Grammar grammar,
 						memset(<void *>newitem.vec, 0, SLOTS * sizeof(uint64_t))
 						SETBIT(newitem.vec, wordidx)
 					score = lexrule.prob - pylog(openclassfactor)
+					if estimates is None:
+						score += MAX_LOGPROB
 					# process_lexedge checks that tag is not already in agenda
 					if process_lexedge[LCFRSItem_fused, LCFRSChart_fused](
 							newitem, lexrule.prob - pylog(openclassfactor),
@@ -798,6 +799,8 @@ cdef populatepos(Grammar grammar,
 						score += outside[lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
+					else:
+						score += MAX_LOGPROB
 					newitem.label = lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
-- 
2.43.0


From cd05dc72af16c39b0c25cbd812d46e8e1d65c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 062/158] fix: LCFRS parser incremented iterator past end of
 chart items

---
 discodop/plcfrs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index c6bfc4d..fe50821 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -483,7 +483,6 @@ cdef parse_main(LCFRSChart_fused chart, LCFRSItem_fused goal, sent,
 					preincrement(itemidxit)
 				for sibidx in sibvec:
 					sib = chart.items[sibidx]
-					preincrement(itemidxit)
 					if concat[LCFRSItem_fused](rule, &sib, &item):
 						newitem.label = rule.lhs
 						combine_item[LCFRSItem_fused](&newitem, &sib, &item)
-- 
2.43.0


From 833375c053b003a20c9670e9e50fba554ca056ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 063/158] fix: item spanning last word of longest sentence was
 written out of bounds

---
 discodop/containers.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..4986180 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -46,7 +46,8 @@ cdef FatChartItem CFGtoFatChartItem(Label label, Idx start, Idx end):
 		fci.vec[BITSLOT(start)] = ~0UL << (start % BITSIZE)
 		for n in range(BITSLOT(start) + 1, BITSLOT(end)):
 			fci.vec[n] = ~0UL
-		fci.vec[BITSLOT(end)] = BITMASK(end) - 1
+		if BITSLOT(end) < SLOTS:
+			fci.vec[BITSLOT(end)] = BITMASK(end) - 1
 	return fci
 
 
-- 
2.43.0


From 07a6ff4bc0ab973aedcc7d68659d8e14f1cb9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 064/158] fix: split pruning without markorigin did not prune
 discontinuous items

---
 discodop/plcfrs.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index fe50821..491293a 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -892,14 +892,12 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 			if whitelist.splitmapping[newitem.label].size() == 0:
 				return True
 		else:
-			if whitelist.mapping[newitem.label] != 0:
+			if whitelist.mapping[newitem.label] == 0:
 				return True
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
-- 
2.43.0


From 169007352a047d2510c689d4efceac3355ee7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 065/158] fix: inside probabilities used exp() of lexical
 probabilities

---
 discodop/containers.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 4986180..abce608 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -144,8 +144,8 @@ cdef class Chart:
 		cdef int ruleno = self.lexruleno(itemidx, edge)
 		if ruleno >= 0:
 			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.logprob else prob
-		return 0 if self.logprob else 1
+			return exp(-prob) if self.grammar.logprob else prob
+		return 1
 
 	def numitems(self):
 		"""Number of items in chart."""
-- 
2.43.0


From beed70573cb9d930689de1f6370930bbf0d4cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 066/158] fix: lexical edge with given tag or lower-cased word
 had no probability

---
 discodop/coarsetofine.pyx | 11 +----------
 discodop/containers.pyx   | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index a4205e6..91339cc 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -232,16 +232,7 @@ def getinside(Chart chart):
 		item = chart.getitemidx(n)
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
-				try:
-					prob = chart.lexprob(item, edge)
-				except ValueError:
-					# fall back to Viterbi score from chart
-					# if there is a single incoming edge this is correct
-					assert chart.parseforest[item].size() == 1
-					if chart.logprob:
-						prob = exp(-chart.probs[item])
-					else:
-						prob = chart.probs[item]
+				prob = chart.lexprob(item, edge)
 			elif edge.rule.rhs2 == 0:
 				leftitem = chart._left(item, edge)
 				prob = (edge.rule.prob
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index abce608..5935827 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -125,6 +125,9 @@ cdef class Chart:
 		cdef Label label = self.label(itemidx)
 		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
+		if it == self.grammar.lexicalbyword.end():
+			word = self.sent[self.lexidx(edge)].lower().encode('utf8')
+			it = self.grammar.lexicalbyword.find(word)
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
 		# do binary search among rules for word for rule with given lhs
@@ -141,11 +144,15 @@ cdef class Chart:
 
 	cdef Prob lexprob(self, ItemNo itemidx, Edge edge) except -1:
 		"""Return lexical probability given a lexical edge."""
-		cdef int ruleno = self.lexruleno(itemidx, edge)
-		if ruleno >= 0:
-			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.grammar.logprob else prob
-		return 1
+		cdef Prob prob
+		try:
+			prob = self.grammar.lexical[self.lexruleno(itemidx, edge)].prob
+		except ValueError:
+			# e.g., a given tag which does not occur with this word;
+			# fall back to Viterbi probability from chart.
+			prob = self.subtreeprob(itemidx)
+			return exp(-prob) if self.logprob else prob
+		return exp(-prob) if self.grammar.logprob else prob
 
 	def numitems(self):
 		"""Number of items in chart."""
-- 
2.43.0


From 011d7c25331052e9955c2a4987fd790c618a8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 067/158] fix: inside/outside probabilities assumed items were
 added after their children

---
 discodop/coarsetofine.pyx | 41 +++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index 91339cc..a744cf5 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -211,25 +211,47 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
+cdef list bottomuporder(Chart chart):
+	"""Return list of items such that each item follows its children."""
+	cdef ItemNo n
+	cdef list result = []
+	cdef set seen = set()
+	for n in range(1, chart.numitems() + 1):
+		bottomuporder_(chart, chart.getitemidx(n), result, seen)
+	return result
+
+
+cdef void bottomuporder_(Chart chart, ItemNo item, list result, set seen):
+	"""Add item to result after visiting its children."""
+	cdef Edge edge
+	if item in seen:
+		return
+	seen.add(item)
+	for edge in chart.parseforest[item]:
+		if edge.rule is not NULL:
+			bottomuporder_(chart, chart._left(item, edge), result, seen)
+			if edge.rule.rhs2:
+				bottomuporder_(chart, chart._right(item, edge), result, seen)
+	result.append(item)
+
+
 def getinside(Chart chart):
 	"""Compute inside probabilities for a chart given its parse forest."""
-	# this needs to be bottom up, so need order in which items were added
-	# currently separate list, chart.itemsinorder
-	# NB: sorting items by length is not enough,
-	# unaries have to be in the right order...
+	# this needs to be bottom up; neither sorting items by length nor the order
+	# in which items were added is enough, because an edge may be added to an
+	# item before or after its child is added (e.g., with unaries).
 
 	# choices for probs:
 	# - normal => underflow (current)
 	# - logprobs => loss of precision w/addition
 	# - normal, scaled => how?
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double prob
 	chart.inside.resize(chart.probs.size(), 0.0)
 
 	# traverse items in bottom-up order
-	for n in range(1, chart.numitems() + 1):
-		item = chart.getitemidx(n)
+	for item in bottomuporder(chart):
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
 				prob = chart.lexprob(item, edge)
@@ -249,15 +271,14 @@ def getinside(Chart chart):
 
 def getoutside(Chart chart):
 	"""Compute outside probabilities for a chart given its parse forest."""
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
 	# cdef double sentprob = chart.inside[chart.root()]
 	# traverse items in top-down order
 	chart.outside.resize(chart.probs.size(), 0.0)
 	chart.outside[chart.root()] = 1.0
-	for n in range(chart.numitems(), 0, -1):
-		item = chart.getitemidx(n)
+	for item in reversed(bottomuporder(chart)):
 		# can we define outside[item] simply as sentprob - inside[item] ?
 		# chart.outside[item] = sentprob - chart.inside[item]
 		for edge in chart.parseforest[item]:
-- 
2.43.0


From b9dfb506bcdb4205561d15b5b12add4c6f4c5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 068/158] fix: np.NAN does not exist in recent versions of
 numpy

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 798dcc566208aa199a1853fd48e59c86877203c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 069/158] fix: estimates skipped rules when a label occurs in
 more rules than there are labels

---
 discodop/estimates.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index f631f39..9c3aef2 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -116,7 +116,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				or x < insidescores[item.label, item.vec]):
 			insidescores[item.label, item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -124,7 +124,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -135,7 +135,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[rule.rhs2, vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -170,7 +170,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 		if x < insidescores[item.label].get(item.vec, INFINITY):
 			insidescores[item.label][item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -179,7 +179,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -192,7 +192,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 					agenda.setifbetter(SmallChartItem(rule.lhs, left),
 							rule.prob + x + insidescores[rule.rhs2][vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -420,7 +420,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				or x < insidescores[item.vec][item.label]):
 			insidescores[item.vec][item.label] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -428,7 +428,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -439,7 +439,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[vec][rule.rhs2])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
-- 
2.43.0


From b58a75e0be2674103b36802a58ab8a5e5e74a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 070/158] fix: probability of shortest derivation added lexical
 probabilities to log probabilities

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..cd785b5 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -850,7 +850,7 @@ cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 	cdef Prob result
 	cdef ItemNo v1
 	if deriv.edge.rule is NULL:  # is terminal
-		return chart.lexprob(v, deriv.edge)
+		return -log(chart.lexprob(v, deriv.edge))
 	result = deriv.edge.rule.prob
 	v1 = chart.left(v, deriv)
 	result += getderivprob(
-- 
2.43.0


From 4a11c8bc8af756ce4dc5db57fd5dfb2ce16da508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 071/158] fix: number of fragments of shortest derivation was
 truncated

The number of fragments is derived from a sum of logarithms, which is subject
to rounding: 5 fragments were reported as 4, and shortest derivations were
missed because of tests for equality.
---
 discodop/disambiguation.pyx | 17 ++++++++++++-----
 discodop/parser.py          |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index cd785b5..1381b32 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -61,6 +61,13 @@ REMOVESTATESPLITS = re.compile(
 cdef str NONCONSTLABEL = ''
 cdef str NEGATIVECONSTLABEL = '-#-'
 
+cdef inline int numfrags(Prob prob):
+	"""Number of fragments given log probability under 'shortest' weights.
+
+	NB: rounded, because the sum depends on the order of addition."""
+	return <int>round(prob / -log(0.5))
+
+
 cpdef getderivations(Chart chart, int k, derivstrings=True):
 	"""Get *k*-best derivations from chart.
 
@@ -153,14 +160,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				if entry.second < maxprob:
 					maxprob = entry.second
 			for entry in chart.rankededges[root]:
-				if entry.second == maxprob:
+				if numfrags(entry.second) == numfrags(maxprob):
 					entries.push_back(entry)
 			chart.rankededges[root] = entries
 		elif chart.derivations:
 			_, maxprob = min(chart.derivations, key=itemgetter(1))
 			chart.derivations = [(deriv, prob)
 					for deriv, prob in chart.derivations
-					if prob == maxprob]
+					if numfrags(prob) == numfrags(maxprob)]
 
 	if not dopreduction:  # Double-DOP
 		for n in range(chart.rankededges[root].size()):
@@ -179,7 +186,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				# probability in a different model.
 				newprob = exp(-getderivprob(
 						root, entry.first, chart, sent))
-				score = (int(prob / log(0.5)), newprob)
+				score = (-numfrags(prob), newprob)
 				if treestr not in derivlen or score > derivlen[treestr]:
 					derivlen[treestr] = score
 					derivs[treestr] = n
@@ -204,7 +211,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			if shortest:
 				entry = chart.rankededges[root][n]
 				newprob = getderivprob(root, entry.first, chart, sent)
-				score = (int(prob / log(0.5)), exp(-newprob))
+				score = (-numfrags(prob), exp(-newprob))
 				if treestr not in derivlen or (not dopreduction
 						and score > derivlen[treestr]):
 					derivlen[treestr] = score
@@ -466,7 +473,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			treestr = recoverfragments(
 					root, entry.first, chart2, backtransform)
 		if treestr in nmostlikelytrees and treestr not in result:
-			result[treestr] = (-abs(int(s / log(0.5))), parsetreeprob[treestr])
+			result[treestr] = (-numfrags(s), parsetreeprob[treestr])
 			if backtransform is None:
 				derivs[treestr] = fragmentsinderiv_str(
 						deriv, chart2, backtransform)
diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..9c0de6c 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -412,7 +412,7 @@ class Parser(object):
 					print('%d-best derivations:\n%s' % (
 						min(stage.m, 100),
 						'\n'.join('%d. %s %s' % (n + 1,
-							('subtrees=%d' % abs(int(prob / log(0.5))))
+							('subtrees=%d' % abs(int(round(prob / log(0.5)))))
 							if stage.objective == 'shortest'
 							else ('p=%g' % exp(-prob)), deriv)
 						for n, (deriv, prob) in enumerate(
-- 
2.43.0


From 26edebf546e3d264ca3520c0d1600184126a18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 072/158] fix: sl-dop pruned words in Double-DOP fragments

When parsing the most probable trees once more to find their shortest
derivations, the POS tags of words in fragments, which include the word,
were pruned; interior nodes of fragments need not occur in the grammar.
Also restore the weights of the grammar when no tree can be parsed.
---
 discodop/disambiguation.pyx | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 1381b32..ce4bc65 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -462,6 +462,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
 			maskrules=False)
 	if not chart2:
+		chart.grammar.switch(model, logprob=True)
 		return [], 'SL-DOP couldn\'t find parse for tree'
 	result = {}
 	root = chart2.root()
@@ -811,19 +812,24 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 		for node, (r, yf) in zip(tree.subtrees(),
 				lcfrsproductions(tree, sent)):
 			leaves = node.leaves()
-			try:
-				label = grammar.toid[node.label]
-			except KeyError:
+			labels = [node.label]
+			if backtransform is not None and not isinstance(node[0], Tree):
+				# POS tags of words in Double-DOP fragments
+				labels.append('%s@%s' % (node.label, sent[node[0]]))
+			labels = [grammar.toid[a] for a in labels if a in grammar.toid]
+			# interior nodes of Double-DOP fragments need not be in grammar
+			if not labels and backtransform is None:
 				return [], "'%s' not in grammar" % node.label, None
 			# whitelist based on (label, span)
-			if <unsigned>lensent < sizeof(uint64_t) * 8:
-				item = SmallChartItem(label, sum([1L << n for n in leaves]))
-				whitelist.small[label].insert(item)
-			else:
-				fitem = FatChartItem(label)
-				for n in leaves:
-					SETBIT(fitem.vec, n)
-				whitelist.fat[label].insert(fitem)
+			for label in labels:
+				if <unsigned>lensent < sizeof(uint64_t) * 8:
+					item = SmallChartItem(label, sum([1L << n for n in leaves]))
+					whitelist.small[label].insert(item)
+				else:
+					fitem = FatChartItem(label)
+					for n in leaves:
+						SETBIT(fitem.vec, n)
+					whitelist.fat[label].insert(fitem)
 			# whitelist based on grammar rule
 			if maskrules and isinstance(node[0], Tree):
 				try:
-- 
2.43.0


From c7b61cd3a523db27c7811bab5fea362dbb424987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 073/158] fix: marginalize() failed when only one of require,
 block was given

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index ce4bc65..868b8bc 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -291,7 +291,7 @@ def testconstraints(treestr, require, block):
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
 				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
-	return spans.issuperset(require) and spans.isdisjoint(block)
+	return spans.issuperset(require or ()) and spans.isdisjoint(block or ())
 
 
 cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
-- 
2.43.0


From d1b3ac1cca1eac632134ad50c59b03401296ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 074/158] fix: discontinuous substitution sites were shown as
 continuous

Fragments in a derivation of a DOP reduction.
---
 discodop/disambiguation.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 868b8bc..031feb6 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -773,7 +773,7 @@ def splitfrag(node):
 					else splitfrag(child))
 		else:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[yieldranges(sorted(child.leaves()))]))
 	return Tree(node.label, children)
 
 
@@ -1050,7 +1050,7 @@ def splitostagfrag(node, sent):
 				and node.label.endswith(child.label + ']')):
 			# this is a substitution site, or a foot node:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[yieldranges(sorted(child.leaves()))]))
 		elif '[' in child.label and '[' not in node.label:
 			# this is an adjunction site, skip aux tree until foot node:
 			while '[' in child.label:
-- 
2.43.0


From 2e2160703777725b3016ea17f6bd1ca7397fe029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 075/158] fix: dopparseprob() counted derivations twice with
 unary nodes

With a unary node with the same label as its child, derivations of the child
were added to those of its parent.
---
 discodop/disambiguation.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 031feb6..9cfc8ae 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -956,14 +956,17 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 		cell = chart[node.bitset]
 		prod = coarse.getruleno(r, yf)
 		if len(node) == 1:  # unary node
+			# replace cell; the child may have the same label as its parent
+			leftcell = cell
+			chart[node.bitset] = cell = {}
 			for ruleno in fine.rulemapping[prod]:
 				rule = &(fine.bylhs[0][fine.revrulemap[ruleno]])
-				if rule.rhs1 in cell:
+				if rule.rhs1 in leftcell:
+					newprob = -rule.prob + leftcell[rule.rhs1]
 					if rule.lhs in cell:
-						cell[rule.lhs] = logprobadd(cell[rule.lhs],
-								-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = logprobadd(cell[rule.lhs], newprob)
 					else:
-						cell[rule.lhs] = (-rule.prob + cell[rule.rhs1])
+						cell[rule.lhs] = newprob
 		elif len(node) == 2:  # binary node
 			leftcell = chart[node[0].bitset]
 			rightcell = chart[node[1].bitset]
-- 
2.43.0


From b049a928d0b82d960babba6636c84449d71032b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 076/158] fix: exactcountsslice() exceeded maxresults with
 multiple fragments

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..6def2d3 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -517,6 +517,8 @@ cdef int countbitset(uint64_t *bitset, Node *anodes, int i, int n,
 	cdef NodeArray b
 	cdef Node *bnodes
 	for x in range(numcandidates):
+		if nummatches[0] >= maxresults:  # reached with a previous fragment
+			return cnt
 		m = candidatesarrayp[x]
 		b = trees[m]
 		bnodes = &nodes[b.offset]
-- 
2.43.0


From 0197b9a11a40fcda29bda401101e3306fe67f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 077/158] fix: words below unary nodes were not counted for
 twoterms

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 6def2d3..f908314 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -321,7 +321,7 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	elif TESTBIT(&matrix[b[j].left * SLOTS], a[i].left):
 		terms += extractat(matrix, result, a, b, a[i].left, b[j].left, SLOTS)
 	if a[i].right < 0:
-		return 0
+		return terms
 	elif TESTBIT(&matrix[b[j].right * SLOTS], a[i].right):
 		terms += extractat(matrix, result, a, b, a[i].right, b[j].right, SLOTS)
 	return terms
-- 
2.43.0


From a6fdda02b57c3049f31817cfda7257e581ad7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 078/158] fix: extractfragments() with twoterms used tree end2
 as well

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index f908314..67afb00 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -182,7 +182,7 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					contentwordprods, lexicalprods):
 				if singletb and m <= n:
 					continue
-				elif start2 > m or m > end2:
+				elif start2 > m or m >= end2:
 					continue
 				elif m < 0 or m >= trees2.len:
 					raise ValueError('illegal index %d' % m)
-- 
2.43.0


From 7820d21e2947b9ff3c786e72ee0a63c44934a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 079/158] fix: twoterms with a second treebank lacking a word
 raised TypeError

---
 discodop/_fragments.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 67afb00..7af4e8a 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -668,9 +668,12 @@ cdef twoterminals(NodeArray a, Node *anodes,
 		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
 			continue
 		tmp = trees2.prodindex[anodes[i].prod]
+		if tmp is None:  # production does not occur in trees2
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
-					and anodes[j].prod in lexicalprods):
+					and anodes[j].prod in lexicalprods
+					and trees2.prodindex[anodes[j].prod] is not None):
 				candidates |= tmp & trees2.prodindex[anodes[j].prod]
 	return candidates
 
-- 
2.43.0


From 1cba3bab42f18462eba6a56b4db21b07b2565831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 080/158] fix: allfragments() counted frontiers below unary
 nodes too high

---
 discodop/_fragments.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 7af4e8a..6684bdd 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -732,7 +732,7 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 		int maxfrontier, list table, uint64_t *scratch, int SLOTS):
 	"""Collect all fragments of a tree up to maxdepth, maxfrontier."""
 	cdef bytes lfrag, rfrag
-	cdef int ldepth, rdepth, lfrontiers, rfrontiers
+	cdef int ldepth, rdepth, lfrontiers, rfrontiers, right
 	# First collect fragments of children
 	if nodes[i].left >= 0:
 		traverse(tree, nodes, nodes[i].left, n, maxdepth, maxfrontier,
@@ -755,16 +755,17 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 	# Then combine with fragments of children to form prunes of this subtree
 	if nodes[i].left >= 0:
 		# unary, or right node as frontier with all lfrags
+		right = 1 if nodes[i].right >= 0 else 0
 		for lfrag in table[nodes[i].left]:
 			ldepth = getroot(getpointer(lfrag), SLOTS)
 			lfrontiers = getid(getpointer(lfrag), SLOTS)
 			if (ldepth + 1 <= maxdepth
-					and lfrontiers + 1 <= maxfrontier):
+					and lfrontiers + right <= maxfrontier):
 				# bitset with current idx + left bitset
 				memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
 				SETBIT(scratch, i)
 				setunioninplace(scratch, getpointer(lfrag), SLOTS)
-				setrootid(scratch, ldepth + 1, lfrontiers + 1, SLOTS)
+				setrootid(scratch, ldepth + 1, lfrontiers + right, SLOTS)
 				table[i].append(wrap(scratch, SLOTS))
 		if nodes[i].right >= 0:  # binary node
 			# left node as frontier with all rfrags
-- 
2.43.0


From 7dfc0d6f14cd65de9156da5ebdfc816597cf9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 081/158] fix: twoterms returned fragments without a matching
 POS tag

---
 discodop/_fragments.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 6684bdd..e05ef75 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -195,6 +195,10 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 				extractfrompair(a, anodes, trees2, n, m,
 						debug, vocab, inter, minterms, matrix,
 						scratch, SLOTS)
+		if twoterms:  # content word should be part of the fragment itself
+			inter = {wrapper for wrapper in inter
+					if hascontentword(anodes, getpointer(wrapper), a.len,
+						contentwordprods)}
 		collectfragments(fragments, inter, anodes, asent, vocab,
 				disc, approx, False, tmp, SLOTS)
 	free(matrix)
@@ -678,6 +682,17 @@ cdef twoterminals(NodeArray a, Node *anodes,
 	return candidates
 
 
+cdef bint hascontentword(Node *anodes, uint64_t *bitset, short alen,
+		set contentwordprods):
+	"""Test whether fragment contains a terminal from given productions."""
+	cdef int i
+	for i in range(alen):
+		if (TESTBIT(bitset, i) and anodes[i].left < 0
+				and anodes[i].prod in contentwordprods):
+			return True
+	return False
+
+
 def allfragments(Ctrees trees, Vocabulary vocab,
 		unsigned int maxdepth, unsigned int maxfrontier=999, bint disc=True,
 		bint indices=False, start=None, end=None):
-- 
2.43.0


From aa3b403c5448423846bff21c59fbd2ec07367a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 082/158] fix: discodop fragments crashed with --nofreq and
 --cover

---
 discodop/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..e259554 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -199,7 +199,8 @@ def regular(filenames, numproc, limit, encoding):
 		for a in cover:
 			if a not in fragments:
 				fragmentkeys.append(a)
-				counts.append(cover[a])
+				if counts is not None:
+					counts.append(cover[a])
 		logging.info('merged %d cover fragments '
 				'up to depth %d with max %d frontier non-terminals.',
 				len(fragmentkeys) - before, maxdepth, maxfrontier)
-- 
2.43.0


From f4c14ad2afebccd88c60277a67a7e04ea28fc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:18 +0000
Subject: [PATCH 083/158] fix: fragment counts were wrong when second treebank
 has larger trees

---
 discodop/fragments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index e259554..2bd8e8e 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -371,8 +371,12 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	# bitset size is determined by both treebanks
+	maxnodes = max(trees.maxnodes for trees in (trees1, PARAMS['trees2'])
+			if trees is not None)
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=maxnodes)
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From eac80c241ac8f375ad0086ce3740e5610a46e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 084/158] fix: evaluation summary did not count duplicate
 brackets

---
 discodop/eval.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..aa3bbd5 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -250,12 +250,14 @@ class Evaluator(object):
 				'longest sentence:          %6d' % (acc.maxlenseen)]
 			if gdiscbrackets or discbrackets:
 				msg.extend(['gold brackets (disc.):     %6d (%d)' % (
-							len(acc.goldb), gdiscbrackets),
+							sum(acc.goldb.values()), gdiscbrackets),
 						'cand. brackets (disc.):    %6d (%d)' % (
-							len(acc.candb), discbrackets)])
+							sum(acc.candb.values()), discbrackets)])
 			else:
-				msg.extend(['gold brackets:             %6d' % len(acc.goldb),
-					'cand. brackets:            %6d' % len(acc.candb)])
+				msg.extend(['gold brackets:             %6d' % (
+							sum(acc.goldb.values())),
+						'cand. brackets:            %6d' % (
+							sum(acc.candb.values()))])
 			msg.extend([
 					'labeled recall:            %s' % (
 						nozerodiv(lambda: recall(acc.goldb, acc.candb))),
@@ -292,9 +294,9 @@ class Evaluator(object):
 			'longest sentence:          %6d     %6d' % (
 					acc40.maxlenseen, acc.maxlenseen),
 			'gold brackets:             %6d     %6d' % (
-					len(acc40.goldb), len(acc.goldb)),
+					sum(acc40.goldb.values()), sum(acc.goldb.values())),
 			'cand. brackets:            %6d     %6d' % (
-					len(acc40.candb), len(acc.candb))]
+					sum(acc40.candb.values()), sum(acc.candb.values()))]
 		if gdiscbrackets or discbrackets:
 			msg.extend(['disc. gold brackets:       %6d     %6d' % (
 					gdiscbrackets40, gdiscbrackets),
-- 
2.43.0


From eab26a7846080fa796dd18d93c9267536bdf371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 085/158] fix: evaluation raised KeyError for words equivalent
 by EQ_WORD

---
 discodop/eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index aa3bbd5..66ad44b 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -354,7 +354,8 @@ class TreePairResult(object):
 				if child and isinstance(child[0], int)}
 		# massage the data (in-place modifications)
 		self.ctree = transform(ctree, self.csent, self.cpos,
-				alignsent(self.csent, self.gsent, dict(self.gpos)),
+				alignsent(self.csent, self.gsent, dict(self.gpos),
+					self.param['EQ_WORD']),
 				self.param, grootpos)
 		self.gtree = transform(gtree, self.gsent, self.gpos,
 				dict(self.gpos), self.param, grootpos)
@@ -741,9 +742,10 @@ def transitiveclosure(eqpairs):
 	return eqclasses
 
 
-def alignsent(csent, gsent, gpos):
+def alignsent(csent, gsent, gpos, eqword=None):
 	"""Map tokens of ``csent`` onto those of ``gsent``, and translate indices.
 
+	:param eqword: a dictionary mapping equivalent words to the same word.
 	:returns: a copy of ``gpos`` with indices of ``csent`` as keys,
 		but tags from ``gpos``.
 
@@ -752,6 +754,9 @@ def alignsent(csent, gsent, gpos):
 	True"""
 	n = m = 0
 	result = {}
+	if eqword:
+		csent = [eqword.get(a, a) for a in csent]
+		gsent = [eqword.get(a, a) for a in gsent]
 	while n < len(csent) and m < len(gsent):
 		if csent[n] == gsent[m]:
 			result[n] = gpos[m]
-- 
2.43.0


From 90ee3b5e7bcd31429e215d146e77216783d3d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 086/158] fix: DELETE_ROOT_PRETERMS ignored alignment of
 candidate and gold sentence

---
 discodop/eval.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 66ad44b..31116c2 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -353,12 +353,16 @@ class TreePairResult(object):
 		grootpos = {child[0] for child in gtree
 				if child and isinstance(child[0], int)}
 		# massage the data (in-place modifications)
+		# mapping of indices in candidate to indices in gold sentence
+		align = alignsent(self.csent, self.gsent,
+				{m: m for m in range(len(self.gsent))},
+				self.param['EQ_WORD'])
+		gtags = dict(self.gpos)
 		self.ctree = transform(ctree, self.csent, self.cpos,
-				alignsent(self.csent, self.gsent, dict(self.gpos),
-					self.param['EQ_WORD']),
-				self.param, grootpos)
+				{n: gtags[m] for n, m in align.items()}, self.param,
+				{n for n, m in align.items() if m in grootpos})
 		self.gtree = transform(gtree, self.gsent, self.gpos,
-				dict(self.gpos), self.param, grootpos)
+				gtags, self.param, grootpos)
 		if len(self.csent) != len(self.gsent):
 			raise ValueError('sentence length mismatch. sents:\n%s\n%s' % (
 					' '.join(self.csent), ' '.join(self.gsent)))
-- 
2.43.0


From a40aeba23d9a6c8dc7e199f55d8cd39e0c6c1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 087/158] fix: a sentence without evaluated words made LA and
 TED scores undefined

---
 discodop/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 31116c2..45000f6 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -572,9 +572,9 @@ class EvalAccumulator(object):
 		self.candpos.extend(pair.cpos)
 		self.goldfun.update((pair.n, a) for a in pair.goldfun.elements())
 		self.candfun.update((pair.n, a) for a in pair.candfun.elements())
-		if pair.lascore is not None:
+		if pair.lascore == pair.lascore:  # not NaN
 			self.lascores.append(pair.lascore)
-		if pair.ted is not None:
+		if pair.ted == pair.ted:
 			self.dicenoms += pair.ted
 			self.dicedenoms += pair.denom
 		if pair.gdep is not None:
-- 
2.43.0


From d1caa62d9cfb04172166e9f9de40e0cca95d2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 088/158] fix: leaf-ancestor evaluation crashed on
 discontinuous trees

---
 discodop/eval.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 45000f6..a82246c 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -403,8 +403,6 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			self.cdep = dependencies(self.ctree)
 			self.gdep = dependencies(self.gtree)
-		assert self.lascore != 1 or self.gbrack == self.cbrack, (
-				'leaf ancestor score 1.0 but no exact match: (bug?)')
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
-- 
2.43.0


From e1b26b1d40996a75fd97c71b69f7bfb9d9a7bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 089/158] fix: EQ_LABEL was not applied to root labels

---
 discodop/eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/eval.py b/discodop/eval.py
index a82246c..038bd76 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -784,6 +784,7 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 	:returns: an immutable, transformed copy of ``tree``."""
 	leaves = list(range(len(sent)))
 	posnodes = []
+	tree.label = param['EQ_LABEL'].get(tree.label, tree.label)
 	for a in reversed(list(tree.subtrees(
 			lambda n: n and isinstance(n[0], Tree)))):
 		for n, b in list(zip(count(), a))[::-1]:
-- 
2.43.0


From 9c3e9fbe83192f22141021a3250713ff4939850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 090/158] fix: unlabeled dependency evaluation compared labels

---
 discodop/eval.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 038bd76..e496854 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -275,7 +275,7 @@ class Evaluator(object):
 						nozerodiv(lambda: 1 - acc.dicenoms / acc.dicedenoms)))
 			if self.param['DEP']:
 				msg.append('unlabeled dependencies:    %s' % (
-						nozerodiv(lambda: accuracy(acc.golddep, acc.canddep))))
+						nozerodiv(lambda: depaccuracy(acc.golddep, acc.canddep))))
 			if acc.candfun:
 				msg.append('function tags:             %s' %
 						nozerodiv(lambda: f_measure(acc.goldfun, acc.candfun)))
@@ -324,9 +324,10 @@ class Evaluator(object):
 				nozerodiv(lambda: (1 - acc.dicenoms / acc.dicedenoms))))
 		if self.param['DEP']:
 			msg.append('unlabeled dependencies:    %s     %s  (%d / %d)' % (
-					nozerodiv(lambda: accuracy(acc40.golddep, acc40.canddep)),
-					nozerodiv(lambda: accuracy(acc.golddep, acc.canddep)),
-					sum(a[0] == a[1] for a in zip(acc.golddep, acc.canddep)),
+					nozerodiv(lambda: depaccuracy(acc40.golddep, acc40.canddep)),
+					nozerodiv(lambda: depaccuracy(acc.golddep, acc.canddep)),
+					sum(a[::2] == b[::2]
+						for a, b in zip(acc.golddep, acc.canddep)),
 					len(acc.golddep)))
 		if acc.candfun:
 			msg.append('function tags:             %s     %s' % (
@@ -432,7 +433,7 @@ class TreePairResult(object):
 				nozerodiv(lambda: 100 * self.lascore)
 						if self.param['LA'] else '',
 				nozerodiv(lambda: self.ted) if self.param['TED'] else '',
-				nozerodiv(lambda: accuracy(self.gdep, self.cdep))
+				nozerodiv(lambda: depaccuracy(self.gdep, self.cdep))
 						if self.param['DEP'] else ''))
 
 	def debug(self):
@@ -988,6 +989,12 @@ def accuracy(reference, candidate):
 			) / len(reference)
 
 
+def depaccuracy(reference, candidate):
+	"""Accuracy of dependencies, without considering labels."""
+	return accuracy([(a, b) for a, _, b in reference],
+			[(a, b) for a, _, b in candidate])
+
+
 def harmean(seq):
 	"""Compute harmonic mean of a sequence of numbers.
 
@@ -1089,5 +1096,6 @@ __all__ = ['Evaluator', 'TreePairResult', 'EvalAccumulator', 'main',
 		'readparam', 'transitiveclosure', 'alignsent', 'transform',
 		'parentedbracketings', 'bracketings', 'bracketing', 'strbracketings',
 		'leafancestorpaths', 'pathscore', 'leafancestor', 'treedisteval',
-		'recall', 'precision', 'f_measure', 'accuracy', 'harmean', 'mean',
-		'intervals', 'nozerodiv', 'editdistance', 'pyintbitcount']
+		'recall', 'precision', 'f_measure', 'accuracy', 'depaccuracy',
+		'harmean', 'mean', 'intervals', 'nozerodiv', 'editdistance',
+		'pyintbitcount']
-- 
2.43.0


From 174a723bed9b39ed3ba5e7609f608f3a873e429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 091/158] fix: category breakdown failed without gold brackets

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index e496854..3cad26e 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -150,9 +150,10 @@ class Evaluator(object):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
-				print('%s  %6.2f  %s  %s  %s' % (
+				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / len(acc.goldb),
+					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
+							/ sum(acc.goldb.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
-- 
2.43.0


From ac4a7ed21f48f8c43190f7922856f0113859c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 092/158] fix: unknown word model crashed with
 openclassthreshold=0

---
 discodop/lexicon.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..7fffd7b 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -108,13 +108,16 @@ def getunknownwordmodel(tagged_sents, unknownword,
 				sigs[sig] += 1
 	msg = 'word types: %d, signature types: %d\n' % (
 			len(lexicon), len(sigs))
-	msg += 'number of words per collapsed tag: %s\n' % ' '.join(sorted(
-			'%s:%d' % (a, len(b)) for a, b in wordsforcollapsedtags.items()))
-	msg += 'open class tags: %s\n\n' % ' '.join(sorted(
-			'%s:%d' % a for a in openclasstags.items()))
-	msg += 'closed class tags: %s\n' % ' '.join(sorted(
-			'%s:%d' % a for a in closedclasstags.items()))
-	msg += 'closed class words: %s\n' % ' '.join(sorted(closedclasswords))
+	if openclassthreshold:
+		msg += 'number of words per collapsed tag: %s\n' % ' '.join(sorted(
+				'%s:%d' % (a, len(b))
+				for a, b in wordsforcollapsedtags.items()))
+		msg += 'open class tags: %s\n\n' % ' '.join(sorted(
+				'%s:%d' % a for a in openclasstags.items()))
+		msg += 'closed class tags: %s\n' % ' '.join(sorted(
+				'%s:%d' % a for a in closedclasstags.items()))
+		msg += 'closed class words: %s\n' % ' '.join(
+				sorted(closedclasswords))
 	return (sigs, words, lexicon, closedclasswords, tags, wordtags), msg
 
 
-- 
2.43.0


From 913fc26ca8a580f14f47144aedc50ce11d56a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 093/158] fix: numbers were replaced by tokens and signatures
 not in grammar

---
 discodop/lexicon.py | 10 +++++++---
 discodop/parser.py  |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 7fffd7b..e6fabab 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -102,7 +102,11 @@ def getunknownwordmodel(tagged_sents, unknownword,
 	sigs = Counter()
 	for sent in tagged_sents:
 		for n, (word, _) in enumerate(sent):
-			if word not in lexicon:
+			if YEARRE.match(word):
+				sigs['1970'] += 1
+			elif NUMBERRE.match(word):
+				sigs['000'] += 1
+			elif word not in lexicon:
 				# NB: sig depends on n and lexicon
 				sig = unknownword(word, n, lexicon)
 				sigs[sig] += 1
@@ -145,9 +149,9 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 	one is returned."""
 	for n, word in enumerate(sent):
 		if YEARRE.match(word):
-			yield '1970'
+			yield '1970' if '1970' in sigs else UNK
 		elif NUMBERRE.match(word):
-			yield '000'
+			yield '000' if '000' in sigs else UNK
 		elif word in lexicon:
 			yield word
 		elif word.lower() in lexicon:
diff --git a/discodop/parser.py b/discodop/parser.py
index 9c0de6c..45fbd80 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -802,7 +802,7 @@ def readgrammars(resultdir, stages, postagging=None,
 		postagging.lexicon = {w for w in stages[0].grammar.getwords()
 				if not w.startswith(UNK)}
 		postagging.sigs = {w for w in stages[0].grammar.getwords()
-				if w.startswith(UNK)}
+				if w.startswith(UNK) or w in ('000', '1970')}
 	if transformations and 'ftbundocompounds' in transformations:
 		treebanktransforms.getftbcompounds(
 				None, None, resultdir + '/compounds.txt')
-- 
2.43.0


From 91c13a22244fe62e76ed9af8a4bf878ee37f3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 094/158] fix: words ending in punctuation got signature for
 punctuation

---
 discodop/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index e6fabab..a214718 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -353,7 +353,7 @@ def unknownwordftb(word, loc, _lexicon):
 	if POSSIBLEPLURAL.search(word):
 		sig += "-PL"
 
-	if ISPUNC.search(word):
+	if ISPUNC.match(word):
 		sig += "-ISPUNC"
 	elif HASPUNC.search(word):
 		sig += "-HASPUNC"
-- 
2.43.0


From ddf4904b43a4bf9ee602000aa209341405c766a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 095/158] fix: deleting nodes in evaluation left discontinuous
 constituents in wrong order

---
 discodop/eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 3cad26e..bdd3c0d 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -16,7 +16,7 @@ from itertools import count, zip_longest
 from . import grammar
 from .tree import Tree, DrawTree, isdisc, bitfanout
 from .treebank import READERS, dependencies, handlefunctions
-from .treetransforms import getbits
+from .treetransforms import getbits, canonicalize
 from .treebanktransforms import functions
 from .treedist import treedist, newtreedist
 
@@ -819,6 +819,8 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 		a[0] = leafmap[a[0]]
 		if sent[a[0]] in param['EQ_WORD']:
 			sent[a[0]] = param['EQ_WORD'][sent[a[0]]]
+	# deletions may have affected the order of discontinuous constituents
+	canonicalize(tree)
 	return tree.freeze()
 
 
-- 
2.43.0


From fefa72a6be0bb0cfc0947395aa5b315ed4770bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:23 +0000
Subject: [PATCH 096/158] fix: parser crashed on unparsable sentences without
 binarization parameters

---
 discodop/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 45fbd80..a2b6048 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -485,10 +485,12 @@ class Parser(object):
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
 				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
-				from .runexp import dobinarization
-				tree = dobinarization([tree], [sent],
-						self.prm.binarization,
-						self.prm.relationalrealizational, logmsg=False)[0]
+				if self.prm.binarization:
+					from .runexp import dobinarization
+					tree = dobinarization([tree], [sent],
+							self.prm.binarization,
+							self.prm.relationalrealizational,
+							logmsg=False)[0]
 				parsetrees = [(str(tree), prob, None)]
 				partialparse = True
 			if stage.name in (stage.prune for stage in self.stages):
-- 
2.43.0


From a7fb71584b1abe8a798c3d239a9f1146e6a3e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 097/158] fix: wrong number of fragments for partial parses

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index a2b6048..9889d7c 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -822,7 +822,7 @@ def probmult(prob1, prob2):
 	if prob1 == 1:
 		return prob2
 	elif isinstance(prob2, tuple):
-		return (prob1[0] + prob2[1], prob1[1] * prob2[1])
+		return (prob1[0] + prob2[0], prob1[1] * prob2[1])
 	return prob1 * prob2
 
 
-- 
2.43.0


From 18a1d1b4956f0960fcb69c5e296511cf58ba7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 098/158] fix: known words with parentheses were treated as
 unknown words

---
 discodop/parser.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 9889d7c..6b0eee4 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -21,7 +21,7 @@ from . import plcfrs, pcfg, disambiguation
 from . import grammar, treetransforms, treebanktransforms
 from .containers import Grammar, Vocabulary, Ctrees
 from .coarsetofine import prunechart
-from .tree import ParentedTree, escape, ptbescape
+from .tree import ParentedTree, escape, unescape, ptbescape
 from .eval import alignsent
 from .lexicon import replaceraretestwords, UNKNOWNWORDFUNC, UNK
 from .treebank import writetree, handlefunctions
@@ -265,14 +265,13 @@ class Parser(object):
 				newtags = alignsent(sent, origsent, dict(enumerate(tags)))
 				tags = [newtags[n] for n, _ in enumerate(sent)]
 		if 'PTBbrackets' in (self.transformations or ()):
-			sent = xsent = [ptbescape(token) for token in sent]
-		else:
-			xsent = list(sent)
-			sent = [escape(token) for token in sent]
+			sent = [ptbescape(token) for token in sent]
+		xsent = list(sent)
 		if self.postagging and self.postagging.method == 'unknownword':
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
 					self.postagging.lexicon, self.postagging.sigs))
+		sent = [escape(token) for token in sent]
 		if tags is not None:
 			tags = list(tags)
 
@@ -801,9 +800,9 @@ def readgrammars(resultdir, stages, postagging=None,
 		stage.update(grammar=gram, outside=outside)
 	if postagging and postagging.method == 'unknownword':
 		postagging.unknownwordfun = UNKNOWNWORDFUNC[postagging.model]
-		postagging.lexicon = {w for w in stages[0].grammar.getwords()
-				if not w.startswith(UNK)}
-		postagging.sigs = {w for w in stages[0].grammar.getwords()
+		words = {unescape(w) for w in stages[0].grammar.getwords()} - {None}
+		postagging.lexicon = {w for w in words if not w.startswith(UNK)}
+		postagging.sigs = {w for w in words
 				if w.startswith(UNK) or w in ('000', '1970')}
 	if transformations and 'ftbundocompounds' in transformations:
 		treebanktransforms.getftbcompounds(
-- 
2.43.0


From ba10d0ada1a266febee0055846a7ede1b1de4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 099/158] fix: words in partial parses were preprocessed twice

---
 discodop/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 6b0eee4..399452e 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -274,6 +274,15 @@ class Parser(object):
 		sent = [escape(token) for token in sent]
 		if tags is not None:
 			tags = list(tags)
+		yield from self._parse(sent, xsent, tags, root, goldtree, require,
+				block)
+
+	def _parse(self, sent, xsent, tags=None, root=None, goldtree=None,
+			require=(), block=()):
+		"""Parse a sentence after its tokens have been preprocessed.
+
+		:param sent: the tokens as they occur in the grammar.
+		:param xsent: the original tokens."""
 
 		if goldtree is not None:
 			# reproduce preprocessing so that gold items can be counted
@@ -464,8 +473,8 @@ class Parser(object):
 					if label == 'NOPARSE':
 						tmp.append('(NN %d)' % a)
 					else:
-						parts = list(self.parse(
-								sent[a:b],
+						parts = list(self._parse(
+								sent[a:b], xsent[a:b],
 								tags=tags[a:b] if tags else None,
 								root=label))
 						part = parts[-1]
-- 
2.43.0


From 3638f12bd253508476e46c1b85f8f26b49b9b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 100/158] fix: parse from earlier stage was postprocessed for
 the wrong stage

---
 discodop/parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 399452e..58f3543 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -523,16 +523,16 @@ class Parser(object):
 							''.join(traceback.format_exception(
 								*sys.exc_info())))
 					parsetree, prob, noparse = self.noparse(
-							stage, xsent, tags, lastsuccessfulparse, n)
+							stage, xsent, tags, lastsuccessfulparse)
 				else:
-					lastsuccessfulparse = resultstr
+					lastsuccessfulparse = resultstr, n
 				msg += probstr(prob) + ' '
 			else:
 				fragments = None
 				parsetree, prob, noparse = self.noparse(
-						stage, xsent, tags, lastsuccessfulparse, n)
-				parsetrees = [(lastsuccessfulparse or str(parsetree),
-						prob, None)]
+						stage, xsent, tags, lastsuccessfulparse)
+				parsetrees = [(lastsuccessfulparse[0] if lastsuccessfulparse
+						else str(parsetree), prob, None)]
 			elapsedtime = process_time() - begin
 			msg += '%.2fs cpu time elapsed\n' % (elapsedtime)
 			yield DictObj(name=stage.name, parsetree=parsetree, prob=prob,
@@ -568,11 +568,12 @@ class Parser(object):
 			applyheadrules(parsetree, self.headrules)
 		return parsetree, False
 
-	def noparse(self, stage, sent, tags, lastsuccessfulparse, n):
+	def noparse(self, stage, sent, tags, lastsuccessfulparse):
 		"""Return parse from previous stage or a dummy parse."""
 		# use successful parse from earlier stage if available
 		if lastsuccessfulparse is not None:
-			parsetree, _ = self.postprocess(lastsuccessfulparse, sent, n)
+			treestr, n = lastsuccessfulparse
+			parsetree, _ = self.postprocess(treestr, sent, n)
 		else:  # Produce a dummy parse for evaluation purposes.
 			default = grammar.defaultparse([(n, t) for n, t
 					in enumerate(tags or (len(sent) * ['NN']))])
-- 
2.43.0


From 0effa07ca2a861e819cf93a5059bfc57f57070d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 101/158] fix: parser crashed without head rules when there is
 no parse tree

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 58f3543..1fa7f66 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -579,7 +579,8 @@ class Parser(object):
 					in enumerate(tags or (len(sent) * ['NN']))])
 			parsetree = ParentedTree(
 					'(%s %s)' % (stage.grammar.start, default))
-			applyheadrules(parsetree, self.headrules)
+			if self.headrules:
+				applyheadrules(parsetree, self.headrules)
 		noparse = True
 		prob = 1.0
 		return parsetree, prob, noparse
-- 
2.43.0


From ed8166eedf3942835982295d78694e2b6e2efa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 102/158] fix: words with parentheses were not found in lexicon

---
 discodop/_grammar.pxi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index c6a5d3f..5ae4876 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -594,7 +594,7 @@ cdef class Grammar:
 			elif fields.size() == 1:
 				raise ValueError('Expected: word<TAB>tag1<SPACE>weight1...'
 						'Got: %r' % prev[:buf - prev].decode('utf8'))
-			word = fields[0]
+			word = escape(fields[0].decode('utf8')).encode('utf8')
 			if (checkdup and self.lexicalbyword.find(word)
 					!= self.lexicalbyword.end()):
 				raise ValueError('word %r appears more than once '
-- 
2.43.0


From f7944192ad38012681570c948d58d85176aa3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 103/158] fix: sentences in bitpar-style input started with an
 empty token

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 1fa7f66..435ee5a 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -934,7 +934,8 @@ def readinputbitparstyle(infile):
 		if not line:
 			yield ' '.join(sent)
 			sent = []
-		sent.append(line)
+		else:
+			sent.append(line)
 	if sent:
 		yield ' '.join(sent)
 
-- 
2.43.0


From 9383b328515b67ff0cfc65992c171f3f7ac9a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 104/158] fix: parser wrote an extra line for sentences without
 a parse

---
 discodop/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 435ee5a..8660a11 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -970,8 +970,6 @@ def worker(args):
 	output = ''
 	if result.noparse:
 		msg += '\nNo parse for "%s"' % ' '.join(sent)
-		if PARAMS.printprob:
-			output += 'prob=%.16g\n' % result.prob
 		output += writetree(
 				result.parsetree, sent,
 				key if PARAMS.numparses == 1 else ('%s-1' % key),
-- 
2.43.0


From a6bfcd78aaab1f661527a5324d9c44d15673218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 105/158] fix: parser crashed on printing probabilities with
 shortest derivation

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 8660a11..5ce908b 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -987,7 +987,8 @@ def worker(args):
 					tree, sent,
 					key if PARAMS.numparses == 1 else ('%s-%d' % (key, k)),
 					PARAMS.fmt, morphology=PARAMS.morphology,
-					comment=('prob=%.16g' % prob)
+					comment=('prob=%.16g' % (
+						prob[1] if isinstance(prob, tuple) else prob))
 						if PARAMS.printprob else None))
 		output += ''.join(tmp)
 	sec = process_time() - begin
-- 
2.43.0


From 5312d84dc810dbd31a01c2721988f3c5c648f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 106/158] fix: parser crashed on empty input

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 5ce908b..1e73928 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -1025,7 +1025,7 @@ def doparsing(parser, infile, out, printprob, oneline, usetags, numparses,
 			times.append(sec)
 			sys.stderr.flush()
 			out.flush()
-	print('average time per sentence', sum(times) / len(times),
+	print('average time per sentence', sum(times) / (len(times) or 1),
 			'\nunparsed sentences:', unparsed,
 			'\nfinished',
 			file=sys.stderr)
-- 
2.43.0


From 7ef7563dc511b237f2c33e84d51d0e55dad8ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 107/158] fix: pruning punctuation crashed parser with given
 tags

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 1e73928..2871f6a 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -964,7 +964,8 @@ def worker(args):
 	sent = line.split(' ')
 	tags = None
 	if PARAMS.usetags:
-		sent, tags = zip(*(a.rsplit('/', 1) for a in sent))
+		sent, tags = map(list, zip(
+				*(a.rsplit('/', 1) for a in sent)))
 	msg = 'parsing %s: %s' % (key, ' '.join(sent))
 	result = list(PARAMS.parser.parse(sent, tags=tags))[-1]
 	output = ''
-- 
2.43.0


From ab83837ba6584350175857fea0529240257fc652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 108/158] fix: parser crashed when given spans were specified
 with lists

---
 discodop/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/parser.py b/discodop/parser.py
index 2871f6a..ac4a7c4 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -258,6 +258,8 @@ class Parser(object):
 			For example, ``('NP', [0, 1, 2])``.
 		:param block: optionally, a list of tuples ``(label, indices)``;
 			these labeled spans will be pruned."""
+		require = {(label, tuple(indices)) for label, indices in require or ()}
+		block = {(label, tuple(indices)) for label, indices in block or ()}
 		if 'PUNCT-PRUNE' in (self.transformations or ()):
 			origsent = sent[:]
 			punctprune(None, sent)
-- 
2.43.0


From acaccc23c07bb0138298e34e648cc5d931d0f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 109/158] fix: chart was incomplete when pruning a stage with a
 non-adjacent stage

---
 discodop/parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index ac4a7c4..fa04977 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -356,9 +356,8 @@ class Parser(object):
 				elif stage.mode == 'plcfrs':
 					chart, msg1 = plcfrs.parse(
 							sent, stage.grammar, tags=tags, start=root,
-							exhaustive=stage.dop or (
-								n + 1 != len(self.stages)
-								and self.stages[n + 1].prune),
+							exhaustive=stage.dop or stage.name in (
+								a.prune for a in self.stages[n + 1:]),
 							whitelist=whitelist,
 							splitprune=splitprune,
 							markorigin=self.stages[prevn].markorigin,
-- 
2.43.0


From 281b5fdbb68c7b7e97ab9627afaeb2467b6b142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 110/158] fix: chart of unrelated stage was used when pruning
 stage failed

---
 discodop/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/parser.py b/discodop/parser.py
index fa04977..0319197 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -308,6 +308,7 @@ class Parser(object):
 			noparse = False
 			parsetrees = fragments = None
 			golditems = 0
+			chart = charts[stage.prune] if stage.prune else None
 			msg = '%s:\t' % stage.name.upper()
 			model = 'default'
 			if stage.dop:
-- 
2.43.0


From c12018b7ea208d139254e8462c6bbf8becf9621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 111/158] fix: k-best parses with PLCFRS grammar were
 incomplete

---
 discodop/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 0319197..76bf49c 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -118,6 +118,7 @@ DEFAULTSTAGE = dict(
 		kbest=True, sample=False, binarized=True,
 		iterate=False, complement=False,
 		# now automatically inferred:
+		exhaustive=False,  # whether all derivations are needed
 		splitprune=False,  # treat VP_2[101] as {VP*[100], VP*[001]} for pruning
 		)
 
@@ -357,7 +358,7 @@ class Parser(object):
 				elif stage.mode == 'plcfrs':
 					chart, msg1 = plcfrs.parse(
 							sent, stage.grammar, tags=tags, start=root,
-							exhaustive=stage.dop or stage.name in (
+							exhaustive=stage.dop or stage.exhaustive or stage.name in (
 								a.prune for a in self.stages[n + 1:]),
 							whitelist=whitelist,
 							splitprune=splitprune,
@@ -1077,6 +1078,7 @@ def main():
 				mode=mode,
 				grammar=gram,
 				m=numparses,
+				exhaustive=numparses > 1,
 				objective='mpd')
 		if '--obj' in opts:
 			stage.update(
@@ -1102,6 +1104,7 @@ def main():
 		readgrammars(directory, params.stages, params.postagging,
 				params.transformations, top=getattr(params, 'top', top))
 		params.update(verbosity=int(opts.get('--verbosity', params.verbosity)))
+		params.stages[-1].update(exhaustive=numparses > 1)
 		parser = Parser(params)
 		morph = params.morphology
 		del args[:1]
-- 
2.43.0


From e68c8ac12fcd032c4379dc39f201dbb141c76e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:58 +0000
Subject: [PATCH 112/158] fix: split nodes with parent annotation were not
 merged

---
 discodop/disambiguation.pyx | 3 ++-
 discodop/parser.py          | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 9cfc8ae..6370de7 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -341,7 +341,8 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 					unbinarize(
 						mergediscnodes(unbinarize(
 							Tree(treestr),
-							childchar=':', expandunary=False)),
+							childchar=':', parentchar='\t',
+							expandunary=False)),
 						expandunary=False),
 					joinchar='+',
 					collapsepos=True,
diff --git a/discodop/parser.py b/discodop/parser.py
index 76bf49c..9973279 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -549,8 +549,11 @@ class Parser(object):
 		"""Take parse tree and apply postprocessing."""
 		parsetree = ParentedTree(treestr)
 		if self.stages[stage].split:
+			# NB: the index of a split node follows any parent annotation, so
+			# do not strip the latter yet.
 			treetransforms.mergediscnodes(treetransforms.unbinarize(
-					parsetree, childchar=':', expandunary=False))
+					parsetree, childchar=':', parentchar='\t',
+					expandunary=False))
 		# when possible, infer head from binarization
 		if (self.binarization and self.binarization.headrules
 				and self.binarization.rightmostunary):
-- 
2.43.0


From ae9b4f3f7271895e58d6c090cc7b68d5159571b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:17 +0000
Subject: [PATCH 113/158] fix: test set with skiptrain overlapped with training
 set after skip

When traincorpus.skip was non-zero, the test set started before the end of
the training set.
---
 discodop/runexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..9b527de 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -92,7 +92,8 @@ def startexp(
 				* len(testsettb.blocks()))
 	if prm.testcorpus.skiptrain:
 		prm.testcorpus.skip += (  # pylint: disable=maybe-no-member
-				prm.traincorpus.numsents)  # pylint: disable=maybe-no-member
+				prm.traincorpus.skip  # pylint: disable=maybe-no-member
+				+ prm.traincorpus.numsents)  # pylint: disable=maybe-no-member
 
 	test_blocks = OrderedDict()
 	test_trees = OrderedDict()
-- 
2.43.0


From 974fd3dee08b7e7187fdb3777d3513adf6e948be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 114/158] fix: KeyError when parsing parts with label of other
 stage

When labels are collapsed, a coarse stage does not have the labels of later
stages and vice versa; therefore a sentence that could not be parsed in one of
the stages led to a KeyError when its parts were parsed with all stages.
---
 discodop/containers.pxd |  2 +-
 discodop/parser.py      | 88 +++++++++++++++++++++++------------------
 2 files changed, 51 insertions(+), 39 deletions(-)

diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index ea1743e..e9ef641 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -545,7 +545,7 @@ cdef class Grammar:
 	cdef vector[uint64_t] mask
 	cdef vector[uint8_t] fanout
 	cdef StringList tolabel
-	cdef StringIntDict toid
+	cdef readonly StringIntDict toid
 	cdef vector[uint32_t] revrulemap
 	cdef vector[Label] mapping
 	cdef vector[Label] selfmapping
diff --git a/discodop/parser.py b/discodop/parser.py
index 9973279..d09b4ac 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -281,11 +281,13 @@ class Parser(object):
 				block)
 
 	def _parse(self, sent, xsent, tags=None, root=None, goldtree=None,
-			require=(), block=()):
+			require=(), block=(), ispart=False):
 		"""Parse a sentence after its tokens have been preprocessed.
 
 		:param sent: the tokens as they occur in the grammar.
-		:param xsent: the original tokens."""
+		:param xsent: the original tokens.
+		:param ispart: whether this is a part of an unparsable sentence; skip
+			stages in which its label ``root`` does not occur."""
 
 		if goldtree is not None:
 			# reproduce preprocessing so that gold items can be counted
@@ -310,6 +312,10 @@ class Parser(object):
 			parsetrees = fragments = None
 			golditems = 0
 			chart = charts[stage.prune] if stage.prune else None
+			skip = (ispart and stage.mode not in ('dop-rerank', 'mc-rerank')
+					and root not in stage.grammar.toid)
+			if skip:
+				chart = None
 			msg = '%s:\t' % stage.name.upper()
 			model = 'default'
 			if stage.dop:
@@ -323,7 +329,7 @@ class Parser(object):
 			# do parsing; if CTF pruning enabled, require parent stage to
 			# be successful.
 			splitprune = False
-			if sent and (not stage.prune or charts[stage.prune]):
+			if sent and not skip and (not stage.prune or charts[stage.prune]):
 				prevn = 0
 				if stage.prune:
 					prevn = [a.name for a in self.stages].index(stage.prune)
@@ -463,47 +469,53 @@ class Parser(object):
 							if chart.itemid(node.label, node.leaves()))
 					msg += ('%d/%d gold items in derivations\n\t' % (
 							golditems, totalgolditems))
-			elif (sent and not chart
+			elif (sent and chart is not None and not chart
 					and stage.mode not in ('dop-rerank', 'mc-rerank')
 					and not (self.relationalrealizational and stage.split)
 					and not partialparse):  # sentence could not be parsed
 				partition = partitionincompletechart(chart, 0, len(sent))
 				msg = '%spartition: %s\n' % (
 						msg.rstrip('\t'), repr(partition))
-				tmp = []
-				prob = 1
-				for label, a, b in partition:
-					if label == 'NOPARSE':
-						tmp.append('(NN %d)' % a)
-					else:
-						parts = list(self._parse(
-								sent[a:b], xsent[a:b],
-								tags=tags[a:b] if tags else None,
-								root=label))
-						part = parts[-1]
-						parttree, partprob, _partfrags = max(
-								part.parsetrees, key=itemgetter(1))
-						prob = probmult(prob, partprob)
-						parttree = ParentedTree(parttree)
-						for node in parttree.subtrees(
-								lambda n: isinstance(n[0], int)):
-							node[0] += a
-						tmp.append(str(parttree))
-						if self.verbosity >= 3:
-							print('part:', parttree)
-						# msg += 'part %s %g\n%s' % ((label, a, b), partprob,
-						# 		''.join(part.msg for part in parts))
-						msg += 'part %s %s\n%s' % (
-								(label, a, b), probstr(partprob), part.msg)
-				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
-				if self.prm.binarization:
-					from .runexp import dobinarization
-					tree = dobinarization([tree], [sent],
-							self.prm.binarization,
-							self.prm.relationalrealizational,
-							logmsg=False)[0]
-				parsetrees = [(str(tree), prob, None)]
-				partialparse = True
+				# fall back to parse of earlier stage when a label does not occur
+				# in its grammar (e.g., when labels have been collapsed).
+				if all(label == 'NOPARSE' or label in a.grammar.toid
+						for label, _, _ in partition
+							for a in self.stages[:n] if a.mode not in (
+								'dop-rerank', 'mc-rerank')):
+					tmp = []
+					prob = 1
+					for label, a, b in partition:
+						if label == 'NOPARSE':
+							tmp.append('(NN %d)' % a)
+						else:
+							parts = list(self._parse(
+									sent[a:b], xsent[a:b],
+									tags=tags[a:b] if tags else None,
+									root=label, ispart=True))
+							part = parts[-1]
+							parttree, partprob, _partfrags = max(
+									part.parsetrees, key=itemgetter(1))
+							prob = probmult(prob, partprob)
+							parttree = ParentedTree(parttree)
+							for node in parttree.subtrees(
+									lambda n: isinstance(n[0], int)):
+								node[0] += a
+							tmp.append(str(parttree))
+							if self.verbosity >= 3:
+								print('part:', parttree)
+							# msg += 'part %s %g\n%s' % ((label, a, b), partprob,
+							# 		''.join(part.msg for part in parts))
+							msg += 'part %s %s\n%s' % (
+									(label, a, b), probstr(partprob), part.msg)
+					tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
+					if self.prm.binarization:
+						from .runexp import dobinarization
+						tree = dobinarization([tree], [sent],
+								self.prm.binarization,
+								self.prm.relationalrealizational,
+								logmsg=False)[0]
+					parsetrees = [(str(tree), prob, None)]
+					partialparse = True
 			if stage.name in (stage.prune for stage in self.stages):
 				charts[stage.name] = chart
 				prevparsetrees[stage.name] = parsetrees
-- 
2.43.0


From d3ac3250f68c880e5c5957bd409388d230320c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 115/158] fix: PP labels were missing in collapsed labels for
 negra level 2

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index e4e50dd..018f715 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -96,8 +96,8 @@ MAPPINGS = {
 			2: {'S_': {'S', 'VP', 'VZ', 'CO', 'AA', 'CS', 'CVP',
 					'CVZ', 'CCP', 'DL', 'ISU', 'QL'},
 				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH'},
-				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'}},
-				'P_': {'PP', 'CPP', 'CAC'}
+				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'},
+				'P_': {'PP', 'CPP', 'CAC'}},
 			# level 3: no-op, return original treebank labels
 		},
 		'alpino': {
-- 
2.43.0


From bf77f78510b53735cf2af1a5ea10bf5f53f33c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:01 +0000
Subject: [PATCH 116/158] fix: parent annotation was lost when reducing markov
 order

The third group of MARKOVRE was greedy, so that the parent annotation was taken
to be part of the horizontal context.
---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 4764dc3..c420d62 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -26,7 +26,7 @@ from .util import OrderedSet, PyAgenda
 
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
-MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
+MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(?:\^<(.*)>)?([^<>]*)$')
 
 
 def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
-- 
2.43.0


From d4e9bfb1a02cf9345f0147bb5a55d2970e440bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:17 +0000
Subject: [PATCH 117/158] fix: number of sentences and words of text corpus was
 wrong

The index has one more offset than there are lines; mmap objects and bytes
do not support counting strings.
---
 discodop/treesearch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..d8316ae 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1036,13 +1036,14 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		# the last offset in the index is the end of the file
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
-			with openread(filename) as inp:
+			with open(filename, 'rb') as inp:
 				data = inp.read()
 		else:
-			_, data = self.files[filename]
-		numwords = data.count(' ') + numlines
+			data = self.files[filename][1][:]
+		numwords = data.count(b' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
 				numnodes=0, maxnodes=None)
-- 
2.43.0


From 884e81718465d5fe8f1d65d46620022b62a5e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:17 +0000
Subject: [PATCH 118/158] fix: sentences were cached for interval with offsets
 of last match

The offsets overwrote the start and end parameters.
---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d8316ae..4a443fe 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -958,8 +958,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-- 
2.43.0


From f3415ed464329cac0138b011d5c2c1420b34d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:17 +0000
Subject: [PATCH 119/158] fix: TypeError when limiting results after query
 without limit

When all results are in the cache, they can be used for any limit.
---
 discodop/treesearch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 4a443fe..7d4a34d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -357,7 +357,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if maxresults2 is not None and (
+					not maxresults or maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -415,7 +416,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if maxresults2 is not None and (
+					not maxresults or maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -681,7 +683,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if maxresults2 is not None and (
+					not maxresults or maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -733,7 +736,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if maxresults2 is not None and (
+					not maxresults or maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -946,7 +950,8 @@ class RegexSearcher(CorpusSearcher):
 						start, end, True, True]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if maxresults2 is not None and (
+					not maxresults or maxresults > maxresults2):
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
-- 
2.43.0


From c3e994a9b18b1de61d8291cb87b3bd723d84d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:27 +0000
Subject: [PATCH 120/158] fix: batch of queries had no counts for files that
 are too short

When the interval starts after the last sentence, all counts are zero.
---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 7d4a34d..2645bbf 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1168,7 +1168,7 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 	else:
 		result = array.array('I')
 	if start and start >= len(lineindex):
-		return result
+		return result if sents else array.array('I', [0] * len(patterns))
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
 		try:
-- 
2.43.0


From c2c8dc485cde624f8d2b00b99c4666c5eb9bf032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 121/158] fix: index of other files was used after list of
 files changed

The index of line numbers and the vocabulary were stored under the same name for
every set of files in a directory. An index was only recreated if the number
of files changed or if a file was newer.
---
 discodop/treesearch.py  | 15 +++++++++++----
 docs/cli/treesearch.rst |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 2645bbf..d6955a4 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -11,6 +11,7 @@ import csv
 import sys
 import mmap
 import array
+import hashlib
 import tempfile
 import subprocess
 import multiprocessing
@@ -567,8 +568,7 @@ class FragmentSearcher(CorpusSearcher):
 		super().__init__(files, macros, numproc)
 		self.disc = False
 		newvocab = True
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
+		self.vocabpath = _indexpath(files, 'treesearchvocab')
 		if os.path.exists(self.vocabpath):
 			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
@@ -876,8 +876,7 @@ class RegexSearcher(CorpusSearcher):
 				self.macros = dict(line.strip().split('=', 1) for line in tmp)
 		self.fileno = {filename: n for n, filename in enumerate(sorted(files))}
 		maxmtime = max(os.stat(a).st_mtime for a in files)
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.lineidxpath = os.path.join(path, 'treesearchline.idx')
+		self.lineidxpath = _indexpath(files, 'treesearchline')
 		if os.path.exists(self.lineidxpath):
 			mtime = os.stat(self.lineidxpath).st_mtime
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
@@ -1220,6 +1219,14 @@ def _getoffsets(lineno, lineindex, data):
 	return offset, nextoffset
 
 
+def _indexpath(files, name):
+	"""Return path for an index that is specific to this set of files."""
+	path = os.path.dirname(min(files))
+	names = '\n'.join(os.path.relpath(a, path or '.') for a in sorted(files))
+	return os.path.join(path, '%s-%s.idx' % (
+			name, hashlib.md5(names.encode('utf8')).hexdigest()))
+
+
 def _indexfile(filename):
 	"""Create bitmap with locations of non-empty lines."""
 	result = RoaringBitmap()
diff --git a/docs/cli/treesearch.rst b/docs/cli/treesearch.rst
index af4fa63..6549b2e 100644
--- a/docs/cli/treesearch.rst
+++ b/docs/cli/treesearch.rst
@@ -74,7 +74,7 @@ e.g., to handle punctuation, and include functional or morphological tags.
 
 A cached copy of the treebank is created in an indexed format; given ``filename.mrg``,
 this indexed version is stored as ``filename.mrg.ct`` (in the same directory).
-Another file, ``treesearchvocab.idx``, contains a global index of productions;
+Another file, ``treesearchvocab-<hash>.idx``, contains a global index of productions;
 this index should automatically be recreated when the list of files changes or
 any file is updated.
 For the treesearch web interface, these indexed files need to be created in advance.
@@ -133,7 +133,7 @@ resulting RE will match the second character::
 More information: https://docs.python.org/3/library/re.html#regular-expression-syntax
 
 This query engine creates a cached index of line numbers in all files
-``treesearchline.idx``; this index should be recreated automatically when
+``treesearchline-<hash>.idx``; this index should be recreated automatically when
 the list of files changes or any file is updated.
 Install https://github.com/andreasvc/pyre2
 for faster queries using linear time deterministic finite automata.
-- 
2.43.0


From 3c4d14b75a450410a49c30f5eed2526418632a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:18 +0000
Subject: [PATCH 122/158] fix: AttributeError when closing FragmentSearcher

---
 discodop/treesearch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d6955a4..349e20f 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -602,10 +602,13 @@ class FragmentSearcher(CorpusSearcher):
 		self.pool = concurrent.futures.ProcessPoolExecutor(self.numproc)
 
 	def close(self):
+		if self.files is None:
+			return
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if hasattr(a, 'close'):
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From d97be7618fce892be02f9e1e5ec53a43acf5d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:34 +0000
Subject: [PATCH 123/158] fix: unseen words in queries were ignored when
 re-using index

---
 discodop/containers.pyx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 5935827..72fce2c 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -771,7 +771,7 @@ cdef class Vocabulary:
 
 	cdef str getlabel(self, int prodno):
 		cdef Rule *rule
-		if prodno < 0:
+		if prodno < 0 or prodno * sizeof(Rule) >= self.prodbuf.len:
 			return '<UNKNOWN>'
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
@@ -780,7 +780,7 @@ cdef class Vocabulary:
 
 	cdef str getword(self, int prodno):
 		cdef Rule *rule
-		if prodno < 0:
+		if prodno < 0 or prodno * sizeof(Rule) >= self.prodbuf.len:
 			return '<UNKNOWN>'
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
@@ -793,6 +793,8 @@ cdef class Vocabulary:
 		cdef Rule *rule
 		if prodno < 0:
 			return False
+		elif prodno * sizeof(Rule) >= self.prodbuf.len:
+			return True  # unknown production, not a frontier non-terminal
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
 		return rule.args != 0 and rule.lengths == 0
@@ -801,7 +803,7 @@ cdef class Vocabulary:
 		cdef Rule *rule
 		cdef int fanout, n, m = 0
 		cdef str yf = ''
-		if prodno < 0:
+		if prodno < 0 or prodno * sizeof(Rule) >= self.prodbuf.len:
 			return '<UNKNOWN>'
 		rule = <Rule *>(&self.prodbuf.d.aschar[
 				prodno * sizeof(Rule)])
@@ -1025,34 +1027,38 @@ cdef class FixedVocabulary(Vocabulary):
 				for n in range(self.labelidx.len - 1)}
 
 	cdef int getprod(self, tuple r, tuple yf) except -2:
-		"""Lookup production ID. Return -1 when not seen before."""
+		"""Lookup production ID.
+
+		Return -1 for a frontier non-terminal, and an unused ID (viz. the
+		number of productions) for a production that was not seen before."""
 		cdef Rule rule
+		cdef int unseen = len(self.prods) if len(r) > 1 else -1
 		cdef char *tmp = <char *>&rule
 		res = self.labels.get(r[0], None)
 		if res is None:
-			return -1
+			return unseen
 		rule.lhs = res
 		res = self.labels.get(r[1], None) if len(r) > 1 else 0
 		if res is None:
-			return -1
+			return unseen
 		rule.rhs1 = res
 		if len(r) > 2:
 			res = self.labels.get(r[2], None)
 			if res is None:
-				return -1
+				return unseen
 			rule.rhs2 = res
 		else:
 			rule.rhs2 = 0
 		if rule.rhs1 == 0 and len(r) > 1:
 			res = self.labels.get(yf[0], None)
 			if res is None:
-				return -1
+				return unseen
 			rule.args = res
 			rule.lengths = 0
 		else:
 			getyf(yf, &rule.args, &rule.lengths)
 		prod = <bytes>tmp[:sizeof(Rule)]
-		return self.prods.get(prod, -1)
+		return self.prods.get(prod, unseen)
 
 
 cdef inline gettree(list result, Node *tree, Vocabulary vocab, int i,
-- 
2.43.0


From 9be4d3c08c65d57edcec6775f4feb1ae5a3e791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:22 +0000
Subject: [PATCH 124/158] fix: matches were missing with several fragments on
 one line of query

---
 discodop/treesearch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 349e20f..7dc89b8 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -754,7 +754,7 @@ class FragmentSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for frag, matches in zip(query.splitlines(), future.result()):
+			for fragwords, matches in zip(cquery['words'], future.result()):
 				for sentno, treestr, match in matches:
 					if brackets:
 						sent = treestr
@@ -765,7 +765,6 @@ class FragmentSearcher(CorpusSearcher):
 					else:
 						_, xsent = discbrackettree(treestr)
 						sent = ' '.join(xsent)
-						fragwords = set(GETLEAVES.findall(frag))
 						match1 = {int(a) for a, b
 								in LEAFINDICESWORDS.findall(match)
 								if b in fragwords}
@@ -810,13 +809,14 @@ class FragmentSearcher(CorpusSearcher):
 		else:
 			qitems = treebank.incrementaltreereader(
 					io.StringIO(query), strict=True, robust=False)
-		qitems = (
+		qitems = [
 				(binarize(handledisc(item[0]) if disc else item[0], dot=True),
-				item[1]) for item in qitems)
+				item[1]) for item in qitems]
 		# FIXME: this function could be parallelized.
 		queries = _fragments.getctrees(qitems, vocab=self.vocab, index=False)
 		if not queries['trees1']:
 			raise ValueError('no valid fragments in query.')
+		queries['words'] = [set(sent) for _, sent in qitems]
 		maxnodes = queries['trees1'].maxnodes
 		_fragmentkeys, bitsets = _fragments.completebitsets(
 				queries['trees1'], self.vocab, maxnodes, disc=disc,
-- 
2.43.0


From 0648b2d1d1464241023fc1542e0ff700064d76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:52 +0000
Subject: [PATCH 125/158] fix: parts of words with hyphens were removed with
 function tags

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 7dc89b8..9d61805 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -40,7 +40,7 @@ LEAFINDICES = re.compile(r' ([0-9]+)=')
 LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
-FUNC_TAGS = re.compile(r'-\w+')
+FUNC_TAGS = re.compile(r'-\w+(?=[^ ()]* )')  # do not match words
 
 CorpusInfo = namedtuple('CorpusInfo',
 		['len', 'numwords', 'numnodes', 'maxnodes'])
-- 
2.43.0


From 5dccde8d55487f188019db237c2b197d64546f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:52 +0000
Subject: [PATCH 126/158] fix: match was not highlighted after removing
 function tags

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 9d61805..fd2e9fd 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -704,6 +704,7 @@ class FragmentSearcher(CorpusSearcher):
 			for matches in future.result():
 				for sentno, treestr, match in matches:
 					treestr = filterlabels(treestr, nofunc, nomorph)
+					match = filterlabels(match, nofunc, nomorph)
 					# FIXME: this highlights the whole subtree, of which
 					# frag may be a subgraph.
 					treestr = treestr.replace(
-- 
2.43.0


From 6133c97b8ac6686d1e4cb97d090e10555d68ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:25 +0000
Subject: [PATCH 127/158] fix: results of fragment search had binarized trees

---
 discodop/containers.pyx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 72fce2c..42884fe 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -1065,12 +1065,18 @@ cdef inline gettree(list result, Node *tree, Vocabulary vocab, int i,
 		bint disc):
 	"""Collect string of tree and sentence for a tree.
 
+	Nodes introduced by binarization are not part of the result,
+	except for the initial node.
+
 	:param result: provide an empty list for the initial call.
 	:param i: node number to start with."""
 	cdef int j = tree[i].right
-	result.append('(')
-	result.append(vocab.getlabel(tree[i].prod))
-	result.append(' ')
+	cdef str label = vocab.getlabel(tree[i].prod)
+	cdef bint artificial = result and tree[i].left >= 0 and '|<' in label
+	if not artificial:
+		result.append('(')
+		result.append(label)
+		result.append(' ')
 	if tree[i].left >= 0:
 		gettree(result, tree, vocab, tree[i].left, disc)
 		if tree[i].right >= 0:
@@ -1086,7 +1092,8 @@ cdef inline gettree(list result, Node *tree, Vocabulary vocab, int i,
 			j = tree[j].right
 	else:
 		result.append(vocab.getword(tree[i].prod) or '')
-	result.append(')')
+	if not artificial:
+		result.append(')')
 
 
 cdef inline int getbufptr(
-- 
2.43.0


From 926eba02c2b0bc72020f657585c9fe135679d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 128/158] fix: overlapping lines and ValueError when drawing
 discontinuous trees

The free cell for a node was determined without regard for horizontal lines
that span the cells of a row, or for lines and nodes in rows that were already
added above it.
---
 discodop/tree.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index aafcba8..5566907 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1163,28 +1163,28 @@ class DrawTree(object):
 				i = j = center
 				if len(children[m]) == 1:  # place unaries directly above child
 					return rowidx, next(iter(children[m]))[1]
-				elif all(a is None or a == vertline for a
-						in row[min(candidates):max(candidates) + 1]):
+				elif (all(a is None or a == vertline for a
+						in row[minidx:maxidx + 1])
+						and not any(a <= maxidx and minidx <= b
+							for a, b in horzlines[rowidx])):
 					# find free column
 					for n in range(scale):
 						i = j = center + n
 						while j > minidx or i < maxidx:
-							if i < maxidx and (matrix[rowidx][i] is None
-									or i in candidates):
+							if i < maxidx and (i in candidates
+									or isvacant(matrix, rowidx, i)):
 								return rowidx, i
-							elif j > minidx and (matrix[rowidx][j] is None
-									or j in candidates):
+							elif j > minidx and (j in candidates
+									or isvacant(matrix, rowidx, j)):
 								return rowidx, j
 							i += scale
 							j -= scale
-			raise ValueError('could not find a free cell for:\n%s\n%s'
-					'min=%d; max=%d' % (tree[m], dumpmatrix(), minidx, maxidx))
+			# no vacant column in between: place directly above first child
+			return rowidx, minidx
 
-		def dumpmatrix():
-			"""Dump matrix contents for debugging purposes."""
-			return '\n'.join(
-				'%2d: %s' % (n, ' '.join(('%2r' % i)[:2] for i in row))
-				for n, row in enumerate(matrix))
+		def isvacant(matrix, rowidx, i):
+			"""Test whether column i is vacant, from this row upwards."""
+			return all(row[i] is None for row in matrix[rowidx:])
 
 		leaves = tree.leaves()
 		if not all(isinstance(n, int) for n in leaves):
@@ -1211,6 +1211,7 @@ class DrawTree(object):
 		maxdepth = max(map(len, positions)) + 1
 		childcols = defaultdict(set)
 		matrix = [[None] * (len(sent) * scale)]
+		horzlines = defaultdict(list)  # first, last column of lines in each row
 		nodes = {}
 		ids = {a: n for n, a in enumerate(positions)}
 		self.highlight = {n for a, n in ids.items()
@@ -1272,6 +1273,14 @@ class DrawTree(object):
 				# 		matrix[rowidx][i], m, str(tree), ' '.join(sent))
 				# node itself
 				matrix[rowidx][i] = ids[m]
+				# update vertical lines in existing rows above this node
+				for row in matrix[rowidx + 1:]:
+					for _, x in childcols[m]:
+						row[x] = None
+					row[i] = vertline
+				if len(childcols[m]) > 1:
+					columns = [x for _, x in childcols[m]]
+					horzlines[rowidx].append((min(columns), max(columns)))
 				nodes[ids[m]] = tree[m]
 				# add column to the set of children for its parent
 				if m != ():
-- 
2.43.0


From cbe4fe32b63acedd9eac2a6ee053b1a2d42d03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 129/158] fix: DrawTree: support trees without sentence as
 documented

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5566907..da8019b 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1075,7 +1075,7 @@ class DrawTree(object):
 				self.tree = self.tree.copy(True)
 				self.sent = []
 				for a in self.tree.subtrees():
-					if a:
+					if not a:
 						a.append(len(self.sent))
 						self.sent.append(None)
 					elif any(not isinstance(b, Tree) for b in a):
-- 
2.43.0


From 80899fa8db28fe4dfa03e2d5d82d386d7daa1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 130/158] fix: DrawTree.text: maxwidth=None disables wrapping
 as documented

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index da8019b..d483eda 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1574,8 +1574,9 @@ class DrawTree(object):
 		maxchildcol = {}
 		childcols = defaultdict(set)
 		labels = {}
-		wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
-				maxwidth - 4, maxwidth, maxwidth))
+		if maxwidth:
+			wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
+					maxwidth - 4, maxwidth, maxwidth))
 		# collect labels and coordinates
 		for a in self.nodes:
 			row, column = self.coords[a]
-- 
2.43.0


From 93e1e8b09bf99fbd6bdb073514219b933c8b7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 131/158] fix: DrawTree: escape function tags in svg and labels
 in html attributes

---
 discodop/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index d483eda..ce47c4e 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1425,7 +1425,7 @@ class DrawTree(object):
 			if func:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
-							else 'black', func)
+							else 'black', htmlescape(func))
 			result[-1] += '</text>'
 		result += ['</svg>']
 		return '\n'.join(result)
@@ -1497,7 +1497,7 @@ class DrawTree(object):
 					cat, morph = cat.rsplit(morphsep, 1)
 			if isinstance(node, Tree):
 				labeledspan = '%s %s' % (
-						node.label,
+						htmlescape(node.label),
 						','.join(str(a[0]) if len(a) == 1
 							else ('%d-%d' % (a[0], a[-1]))
 							for a in ranges(sorted(node.leaves()))))
-- 
2.43.0


From 1b3f0c0122655ab6fba493f4cb8aadeec4929683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:49 +0000
Subject: [PATCH 132/158] fix: quote words, function tags, and binarized labels
 in TikZ output

---
 discodop/tree.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index ce47c4e..623eeaf 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -997,6 +997,13 @@ class DiscTree(ImmutableTree):
 				super().__repr__(), self.sent)
 
 
+LATEXESCAPES = {
+		'#': r'\#', '$': r'\$', '%': r'\%', '&': r'\&', '_': r'\_',
+		'{': r'\{', '}': r'\}', '<': '$<$', '>': '$>$',
+		'^': r'\textasciicircum{}', '~': r'\textasciitilde{}',
+		'\\': r'\textbackslash{}'}
+
+
 class DrawTree(object):
 	"""Visualize a discontinuous tree in various formats.
 
@@ -1696,11 +1703,11 @@ class DrawTree(object):
 								and label not in PTBPUNC):
 							cat, func = label.split(funcsep, 1)
 							func = r'%s\textcolor{%s}{%s}' % (
-									funcsep, funccolor, func)
+									funcsep, funccolor, latexescape(func))
 						label = latexlabel(cat)
 					else:
 						color = leafcolor
-						label = node
+						label = latexescape(label)
 					if n not in self.highlight:
 						color = 'black'
 					line.append(r'\node (n%d) { \textcolor{%s}{%s}%s };' % (
@@ -1737,11 +1744,11 @@ class DrawTree(object):
 						and label not in PTBPUNC):
 					cat, func = label.split(funcsep, 1)
 					func = r'%s\textcolor{%s}{%s}' % (
-							funcsep, funccolor, func)
+							funcsep, funccolor, latexescape(func))
 				label = latexlabel(cat)
 			else:
 				color = leafcolor
-				label = node
+				label = latexescape(label)
 			if n not in self.highlight:
 				color = 'black'
 			result.append(r'	(%d, %d) node (n%d) { \textcolor{%s}{%s}%s }'
@@ -1879,21 +1886,22 @@ class DrawDependencies(object):
 
 def latexlabel(label):
 	"""Quote/format label for latex."""
-	newlabel = label.replace('$', r'\$').replace('_', r'\_')
 	# turn binarization marker into subscripts in math mode
-	if '|' in newlabel:
-		cat, siblings = newlabel.split('|', 1)
-		siblings = siblings.strip('<>')
+	if '|' in label:
+		cat, siblings = label.split('|', 1)
 		if '^' in siblings:
 			siblings, parents = siblings.rsplit('^', 1)
-			newlabel = '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
-					cat, siblings[1:-1], parents)
-		else:
-			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
-					cat, siblings)
-	else:
-		newlabel = newlabel.replace('<', '$<$').replace('>', '$>$')
-	return newlabel
+			return '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
+					latexescape(cat), latexescape(siblings.strip('<>')),
+					latexescape(parents.strip('<>')))
+		return '$ \\textsf{%s}_\\textsf{%s} $' % (
+				latexescape(cat), latexescape(siblings.strip('<>')))
+	return latexescape(label)
+
+
+def latexescape(text):
+	"""Quote characters with a special meaning in latex."""
+	return ''.join(LATEXESCAPES.get(a, a) for a in text)
 
 
 def frontier(tree, sent, nodecolor='blue', leafcolor='red'):
-- 
2.43.0


From 09b855aa566bd1cdf13a8b84de8564c8dc21b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:49 +0000
Subject: [PATCH 133/158] fix: show words instead of indices in TikZ-qtree
 output

---
 discodop/tree.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 623eeaf..5666cbe 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1782,16 +1782,19 @@ class DrawTree(object):
 			\tikzset{edge from parent/.style={draw, edge from parent path={
 				(\tikzparentnode.south) -- +(0,-3pt) -| (\tikzchildnode)}}}
 		"""
-		reserved_chars = re.compile('([#$%&~_{}])')
-
-		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
-		escaped = re.sub(reserved_chars, r'\\\1', pprint)
+		tree = self.tree.copy(True)
+		for node in tree.subtrees():
+			node.label = latexescape(node.label)
+			node.children[:] = [child if isinstance(child, Tree)
+					else latexescape('...' if self.sent[child] is None
+						else self.sent[child]) for child in node]
+		pprint = tree.pprint(indent=6, brackets=('[.', ' ]'))
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
 			'\\begin{tikzpicture}',
 			'  \\tikzset{every node/.style={color=%s}, font=\\sf}' % nodecolor,
 			'  \\tikzset{every leaf node/.style={color=%s}}' % leafcolor,
-			'  \\Tree %s' % escaped,
+			'  \\Tree %s' % pprint,
 			'\\end{tikzpicture}'])
 
 
-- 
2.43.0


From 2e3b6b0950dff1173d280f48a151c6ef53c01b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 134/158] fix: DrawTree: highlight nodes whose children are not
 in order

---
 discodop/tree.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5666cbe..4166c48 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1193,6 +1193,15 @@ class DrawTree(object):
 			"""Test whether column i is vacant, from this row upwards."""
 			return all(row[i] is None for row in matrix[rowidx:])
 
+		def sortedcopy(node):
+			"""Copy of node with children in order of first index."""
+			result = Tree.convert(node)
+			if isinstance(result, Tree):
+				for a in result.subtrees():
+					a.children.sort(key=lambda n: min(n.leaves())
+							if isinstance(n, Tree) else n)
+			return result
+
 		leaves = tree.leaves()
 		if not all(isinstance(n, int) for n in leaves):
 			raise ValueError('All leaves must be integer indices.')
@@ -1207,10 +1216,10 @@ class DrawTree(object):
 				raise ValueError(
 						'Non-terminals must dominate one or more leaves')
 		vertline, corner = -1, -2  # constants
-		tree = Tree.convert(tree)
-		for a in tree.subtrees():
-			a.children.sort(key=lambda n: min(n.leaves())
-					if isinstance(n, Tree) else n)
+		tree = sortedcopy(tree)
+		# these nodes are compared to the nodes in the sorted tree
+		highlight = [sortedcopy(a) for a in highlight]
+		highlightfunc = [sortedcopy(a) for a in highlightfunc]
 		scale = 2
 		crossed = set()
 		# internal nodes and lexical nodes (no frontiers)
-- 
2.43.0


From 3f21ca39dca33717112c1ed3e47ec994073b132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:21 +0000
Subject: [PATCH 135/158] fix: DrawTree: order of words in trees with mixed
 terminals

---
 discodop/tree.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 4166c48..91f4efd 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1081,15 +1081,7 @@ class DrawTree(object):
 				# and multiple/mixed terminals under non-terminals.
 				self.tree = self.tree.copy(True)
 				self.sent = []
-				for a in self.tree.subtrees():
-					if not a:
-						a.append(len(self.sent))
-						self.sent.append(None)
-					elif any(not isinstance(b, Tree) for b in a):
-						for n, b in enumerate(a):
-							if not isinstance(b, Tree):
-								a[n] = len(self.sent)
-								self.sent.append('%s' % b)
+				self._substleaves(self.tree)
 		if abbr:
 			if self.tree is tree:
 				self.tree = self.tree.copy(True)
@@ -1100,6 +1092,19 @@ class DrawTree(object):
 		self.nodes, self.coords, self.edges, self.labels = self.nodecoords(
 				self.tree, self.sent, highlight, highlightfunc, secedge)
 
+	def _substleaves(self, node):
+		"""Replace leaves with indices, in order; collect words."""
+		if len(node) == 0:
+			node.append(len(self.sent))
+			self.sent.append(None)
+			return
+		for n, child in enumerate(node):
+			if isinstance(child, Tree):
+				self._substleaves(child)
+			else:
+				node[n] = len(self.sent)
+				self.sent.append('%s' % child)
+
 	def __str__(self):
 		return self.text(unicodelines=True)
 
-- 
2.43.0


From 7e5f343cf319258ec52ca61d8be1eee96f48f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:21 +0000
Subject: [PATCH 136/158] fix: drawing label that ends with function tag
 separator

---
 discodop/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 91f4efd..6b8b4f0 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1443,7 +1443,7 @@ class DrawTree(object):
 					'<tspan style="fill: %s; ">%s</tspan>' % (
 					x, y, fontsize,
 					color, htmlescape(cat)))
-			if func:
+			if func is not None:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
 							else 'black', htmlescape(func))
@@ -1530,7 +1530,7 @@ class DrawTree(object):
 			else:
 				newtext.append('<font color="%s">%s</font>' % (
 						color, cat))
-			if func:
+			if func is not None:
 				newtext[-1] += ('%s<span class=f '
 						'data-id="%s_%d" data-s="%s">%s</span>'
 						% (funcsep, nodeprops, n, labeledspan, func))
-- 
2.43.0


From ca176f797ac1bcebf29a4f8a3c032bb6fe178a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:05 +0000
Subject: [PATCH 137/158] fix: DrawDependencies: escape words and labels

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 6b8b4f0..7ce2251 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1863,12 +1863,12 @@ class DrawDependencies(object):
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); "'
 					'>%s</text>' % (
-					n, xpos[n], height - wordheight, n, word))
+					n, xpos[n], height - wordheight, n, htmlescape(word)))
 			result.append('<text class="tag w%d" x=%d y=%d '
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); " '
 					'fill=blue text-anchor=middle>%s</text>' % (
-					n, xpos[n], height - 4, n, pos))
+					n, xpos[n], height - 4, n, htmlescape(pos)))
 
 		for n, deplabel, head in self.deps:
 			start = xpos[head] + random.randint(0, 4) * 5
@@ -1888,7 +1888,7 @@ class DrawDependencies(object):
 					"marker-end='url(#head)'/>" % (head, n, path))
 			result.append('<text class="dependency w%d w%d" x=%d y=%d '
 					'fill=green text-anchor=middle>%s</text>' % (
-						head, n, mid, arrow + 15, deplabel))
+						head, n, mid, arrow + 15, htmlescape(deplabel)))
 		width = x + 30
 		result.insert(0, '<svg xmlns="http://www.w3.org/2000/svg" '
 				'width=%d height=%d style="font-family: monospace; ">' % (
-- 
2.43.0


From 7e45dfd9cf583734970b41b076990a02395c3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:38 +0000
Subject: [PATCH 138/158] fix: trees of a bracket corpus in several files were
 lost

---
 discodop/treebank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f90197c..e4827e7 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -217,9 +217,12 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		n = 0
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for line in inp:
+					n += 1
+					yield n, line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From d66902a3ae7fa7b487f57419af286302a539ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 139/158] fix: treetransforms: --markovthreshold was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 176dd17..dd83e83 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -332,7 +332,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From 82008835500e9f92c49e29abfee41b71e6c1f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 140/158] fix: treetransforms: --outputenc was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index dd83e83..526af8f 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -345,7 +345,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From 7c2d16a9ee71710d4adc66db2f3acc6c4e78f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 141/158] fix: treetransforms: support negative indices in
 --slice as documented

---
 discodop/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 526af8f..bd0373a 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -205,7 +205,6 @@ where input and output are treebanks; standard in/output is used if not given.
 """
 	import io
 	from getopt import gnu_getopt, GetoptError
-	from itertools import islice
 	from . import treebank, treebanktransforms
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
@@ -254,8 +253,10 @@ where input and output are treebanks; standard in/output is used if not given.
 			lemmas=opts.get('--lemmas'))
 	start, end = opts.get('--slice', ':').split(':')
 	start, end = (int(start) if start else None), (int(end) if end else None)
-	# FIXME: support negative indices
-	trees = corpus.itertrees(start, end)
+	if (start or 0) >= 0 and (end or 0) >= 0:
+		trees = corpus.itertrees(start, end)
+	else:  # need to know the number of trees
+		trees = (a for a in list(corpus.itertrees())[start:end])
 	if '--maxlen' in opts:
 		maxlen = int(opts['--maxlen'])
 		trees = ((key, item) for key, item in trees
@@ -354,7 +355,7 @@ where input and output are treebanks; standard in/output is used if not given.
 					'export', 'bracket', 'discbracket')
 				and set(opts) <= {'--slice', '--inputenc', '--outputenc',
 					'--inputfmt', '--outputfmt'}):
-			for block in islice(corpus.blocks().values(), start, end):
+			for block in list(corpus.blocks().values())[start:end]:
 				outfile.write(block)
 				cnt += 1
 		else:
-- 
2.43.0


From 884b9c40be330d6b31e02d4915467174dd4be3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 142/158] fix: grammar: --dopestimator was not validated

---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index bd0373a..984fd3d 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -418,8 +418,9 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	if model not in ('pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1',
 			'ptsg', 'param', 'info', 'merge'):
 		raise ValueError('unrecognized model: %r' % model)
-	if opts.get('dopestimator', 'rfe') not in ('rfe', 'ewe', 'shortest'):
-		raise ValueError('unrecognized estimator: %r' % opts['dopestimator'])
+	if opts.get('--dopestimator', 'rfe') not in (
+			'rfe', 'ewe', 'bon', 'shortest'):
+		raise ValueError('unrecognized estimator: %r' % opts['--dopestimator'])
 
 	if model == 'info':
 		grammarstats(args[1])
-- 
2.43.0


From 9ae32c56af2f0c62548c8a492be5ea4a013c9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:33 +0000
Subject: [PATCH 143/158] fix: treetransforms: --optimalbinarize with export
 format or --unbinarize

---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 984fd3d..5f04944 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -206,6 +206,7 @@ where input and output are treebanks; standard in/output is used if not given.
 	import io
 	from getopt import gnu_getopt, GetoptError
 	from . import treebank, treebanktransforms
+	from .tree import ParentedTree
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
 			raisediscnodes, introducepreterminals, markovthreshold,
@@ -299,11 +300,11 @@ where input and output are treebanks; standard in/output is used if not given.
 						sent))
 			elif key == '--optimalbinarize':
 				actions.append(lambda tree, sent:
-						(optimalbinarize(
+						(ParentedTree.convert(optimalbinarize(
 							tree, '|',
 							'--headrules' in opts,
 							int(opts.get('-h', 999)),
-							int(opts.get('-v', 1))),
+							int(opts.get('-v', 1)))),
 						sent))
 		elif key == '--splitdisc':
 			actions.append(lambda tree, sent:
-- 
2.43.0


From 5e5315d65fa39d957c50d02d130a97244025ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:02 +0000
Subject: [PATCH 144/158] fix: treedraw: trees without comment were shown with
 comment 'None'

---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 5f04944..f8f83c5 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -118,9 +118,10 @@ Pipe the output through 'less -R' to preserve the colors."""
 					print(arg, end=':')
 				print(sentid, end='. ')
 				if '--frontier' in opts:
-					print(frontier(item.tree, item.sent), item.comment)
+					print('%s %s' % (frontier(item.tree, item.sent),
+							item.comment or ''))
 				else:
-					print(item.comment)
+					print(item.comment or '')
 					print(processtree(item.tree, item.sent))
 	else:  # read from stdin + detect format
 		encoding = opts.get('--encoding', 'utf8')
-- 
2.43.0


From b7219c41781dd3eed35db5e7a2b8290f23f69fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:02 +0000
Subject: [PATCH 145/158] fix: treedraw: --frontier ignored --plain

---
 discodop/cli.py  | 6 ++++--
 discodop/tree.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index f8f83c5..33893d5 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -118,7 +118,8 @@ Pipe the output through 'less -R' to preserve the colors."""
 					print(arg, end=':')
 				print(sentid, end='. ')
 				if '--frontier' in opts:
-					print('%s %s' % (frontier(item.tree, item.sent),
+					print('%s %s' % (frontier(item.tree, item.sent,
+								ansi='--plain' not in opts),
 							item.comment or ''))
 				else:
 					print(item.comment or '')
@@ -143,7 +144,8 @@ Pipe the output through 'less -R' to preserve the colors."""
 					continue
 				print(n, end='. ')
 				if '--frontier' in opts:
-					print('%s %s' % (frontier(tree, sent), rest))
+					print('%s %s' % (frontier(tree, sent,
+							ansi='--plain' not in opts), rest))
 				else:
 					print(rest or '')
 					print(processtree(tree, sent))
diff --git a/discodop/tree.py b/discodop/tree.py
index 7ce2251..908f9c3 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1921,8 +1921,11 @@ def latexescape(text):
 	return ''.join(LATEXESCAPES.get(a, a) for a in text)
 
 
-def frontier(tree, sent, nodecolor='blue', leafcolor='red'):
+def frontier(tree, sent, nodecolor='blue', leafcolor='red', ansi=True):
 	"""Return a representation of the frontier of a tree with ANSI colors."""
+	if not ansi:
+		return ' '.join(pos if sent[idx] is None else sent[idx]
+				for idx, pos in sorted(tree.pos()))
 	return ' '.join(
 			'\x1b[%d;1m%s\x1b[0m' % (ANSICOLOR[nodecolor], pos)
 			if sent[idx] is None else
-- 
2.43.0


From 704009a2c7623dccc006bfb5099a1c0a3e025e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:02 +0000
Subject: [PATCH 146/158] fix: grammar: write backtransform of dop1 grammar

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 33893d5..c0c2297 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -520,7 +520,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		rulesfile.write(rules)
 	with codecs.getwriter('utf8')(myopen(lexiconname, 'wb')) as lexiconfile:
 		lexiconfile.write(lexicon)
-	if model in ('doubledop', 'ptsg'):
+	if model in ('doubledop', 'dop1', 'ptsg'):
 		backtransformfile = '%s.backtransform%s' % (grammarfile,
 			'.gz' if '--gzip' in opts else '')
 		with codecs.getwriter('utf8')(myopen(backtransformfile, 'wb')) as bt:
-- 
2.43.0


From 633d8cc8e55bb6471e6a7bf3cfdc4390117bc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:26 +0000
Subject: [PATCH 147/158] fix: grammar merge: rules that are only sorted by LHS
 were not merged

---
 discodop/cli.py     |  4 ++--
 discodop/grammar.py | 51 ++++++++++++++++++++++++++-------------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index c0c2297..8461099 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -397,7 +397,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	from .treetransforms import addfanoutmarkers, canonicalize
 	from .grammar import (treebankgrammar, dopreduction, doubledop, dop1,
 			compiletsg, writegrammar, grammarinfo, grammarstats,
-			splitweight, merge, sumfrags, sumrules, sumlex, stripweight,
+			splitweight, merge, sumfrags, sumrules, sumlex, lhskey,
 			addindices)
 	from .parser import readparam
 	from .runexp import (loadtraincorpus, getposmodel, dobinarization,
@@ -433,7 +433,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		if len(args) < 5:
 			raise ValueError('need at least 2 input and 1 output arguments.')
 		if args[1] == 'rules':
-			merge(args[2:-1], args[-1], sumrules, stripweight)
+			merge(args[2:-1], args[-1], sumrules, lhskey)
 		elif args[1] == 'lexicon':
 			merge(args[2:-1], args[-1], sumlex, lambda x: x.split(None, 1)[0])
 		elif args[1] == 'fragments':
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 4c3eeb5..7e4b9ab 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1210,31 +1210,38 @@ def stripweight(line):
 	return match.group('RULE1') or match.group('RULE2')
 
 
+def lhskey(line):
+	"""Sort key for rules by LHS, in the order produced by sortgrammar()."""
+	lhs = stripweight(line).split(None, 1)[0]
+	return '}<' in lhs, lhs
+
+
 def sumrules(iterable, n):
-	"""Given a sorted iterable of rules, sum weights of identical rules."""
-	prev = prevmatch = None
-	w1 = 0.0
+	"""Given rules sorted by LHS, sum weights of identical rules."""
+	prev = bitpar = None
+	weights = OrderedDict()
 	for line in iterable:
 		match = RULERE.match(line)
-		rule = match.group('RULE1') or match.group('RULE2')
-		if rule != prev:
-			if prev is not None:
-				if prevmatch.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, prev)
-				else:
-					yield '%s\t%g\n' % (prev, w1 / n)
-			prev = rule
-			prevmatch = match
-			w1 = 0.0
-		if match.group('RULE1') is None:
-			w1 += convertweight(match.group('FREQ2'))
+		lhs = match.group('LHS1') or match.group('LHS2')
+		if lhs != prev:
+			for rule, w1 in weights.items():
+				yield _writerule(rule, w1 / n, bitpar)
+			prev = lhs
+			weights = OrderedDict()
+		bitpar = match.group('RULE1') is None
+		if bitpar:
+			rule, w2 = match.group('RULE2'), match.group('FREQ2')
 		else:
-			w1 += convertweight(match.group('WEIGHT1'))
-	if prev is not None:
-		if prevmatch.group('RULE1') is None:
-			yield '%g\t%s\n' % (w1 / n, prev)
-		else:
-			yield '%s\t%g\n' % (prev, w1 / n)
+			rule, w2 = match.group('RULE1'), match.group('WEIGHT1')
+		weights[rule] = weights.get(rule, 0.0) + convertweight(w2)
+	for rule, w1 in weights.items():
+		yield _writerule(rule, w1 / n, bitpar)
+
+
+def _writerule(rule, weight, bitpar):
+	"""Format rule with weight as line in grammar file."""
+	return ('%g\t%s\n' % (weight, rule) if bitpar
+			else '%s\t%g\n' % (rule, weight))
 
 
 def sumlex(iterable, n):
@@ -1294,5 +1301,5 @@ __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
 		'nodefreq', 'TreeDecorator', 'UniqueIDs', 'mean', 'addindices',
 		'rangeheads', 'ranges', 'defaultparse', 'printrule', 'cartpi',
 		'writegrammar', 'subsetgrammar', 'grammarinfo', 'grammarstats',
-		'splitweight', 'convertweight', 'stripweight', 'sumrules', 'sumlex',
+		'splitweight', 'convertweight', 'stripweight', 'lhskey', 'sumrules', 'sumlex',
 		'sumfrags', 'merge']
-- 
2.43.0


From bceddd13c1ac9ad628fae36269ac0d2324fd120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:26 +0000
Subject: [PATCH 148/158] fix: grammar ptsg: fractional weights

---
 discodop/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 8461099..773ed57 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -397,7 +397,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	from .treetransforms import addfanoutmarkers, canonicalize
 	from .grammar import (treebankgrammar, dopreduction, doubledop, dop1,
 			compiletsg, writegrammar, grammarinfo, grammarstats,
-			splitweight, merge, sumfrags, sumrules, sumlex, lhskey,
+			convertweight, merge, sumfrags, sumrules, sumlex, lhskey,
 			addindices)
 	from .parser import readparam
 	from .runexp import (loadtraincorpus, getposmodel, dobinarization,
@@ -456,7 +456,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: splitweight(weight) for frag, weight
+		xfragments = {frag: convertweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
-- 
2.43.0


From f32bc7d41e540cbd7d19c14bcc5024f3f92fec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:02 +0000
Subject: [PATCH 149/158] fix: words with brackets were not in sorted order in
 lexicon

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 7e4b9ab..82bac09 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -687,7 +687,7 @@ def sortgrammar(grammar, altweights=None):
 	def sortkey(rule):
 		"""Sort key ``(word or '', 2dop binarized rule?, lhs)``."""
 		(nts, yf), _p = rule
-		word = yf[0] if nts[1] == 'Epsilon' else ''
+		word = unescape(yf[0]) if nts[1] == 'Epsilon' else ''
 		return word, '}<' in nts[0], nts[0]
 
 	if altweights is None:
-- 
2.43.0


From 2252779480480f584d0776b544e408da2086d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:43 +0000
Subject: [PATCH 150/158] fix: treedraw: comment 'None' with --frontier and
 automatic detection of format

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 773ed57..dfb46a7 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -145,7 +145,7 @@ Pipe the output through 'less -R' to preserve the colors."""
 				print(n, end='. ')
 				if '--frontier' in opts:
 					print('%s %s' % (frontier(tree, sent,
-							ansi='--plain' not in opts), rest))
+							ansi='--plain' not in opts), rest or ''))
 				else:
 					print(rest or '')
 					print(processtree(tree, sent))
-- 
2.43.0


From 05c2308f07c9cc1334fead89ad60100d943957b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:47 +0000
Subject: [PATCH 151/158] fix: grammar ptsg: write bitpar format given
 fragments in bracket format

---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index dfb46a7..30f6cde 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -459,7 +459,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		xfragments = {frag: convertweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
-		if STRTERMRE.search(next(iter(xfragments))) is not None:
+		bracketfmt = STRTERMRE.search(next(iter(xfragments))) is not None
+		if bracketfmt:
 			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
@@ -512,7 +513,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		lexiconname += '.gz'
 	bitpar = model == 'pcfg' or opts.get('--inputfmt') == 'bracket'
 	if model == 'ptsg':
-		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
+		bitpar = bracketfmt
 
 	rules, lexicon = writegrammar(xgrammar, bitpar=bitpar)
 	# write output
-- 
2.43.0


From 30c7ab98ad5974fec4740e1524e3cc1965986495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 152/158] fix: treesearch: newline after query in file was part
 of the query

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index fd2e9fd..9191a10 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1403,7 +1403,7 @@ def main():
 	opts = dict(opts)
 	if '--file' in opts or '-f' in opts:
 		with openread(query) as tmp:
-			query = tmp.read()
+			query = tmp.read().rstrip('\r\n')
 	macros = opts.get('--macros', opts.get('-M'))
 	engine = opts.get('--engine', opts.get('-e', 'frag'))
 	maxresults = int(opts.get('--max-count', opts.get('-m', 100))) or None
-- 
2.43.0


From 5cba2702e2946a3d51263df199328bab90a58030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:00 +0000
Subject: [PATCH 153/158] fix: treesearch: breakdown of sentences: same match
 at different positions counted apart

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 9191a10..511fe51 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1495,7 +1495,7 @@ def main():
 					breakdown.update(re.sub(
 						' {2,}', ' ... ',
 						''.join(char if n in high1 or n in high2 else ' '
-							for n, char in enumerate(sent)))
+							for n, char in enumerate(sent)).strip())
 						for _, sent, high1, high2 in result)
 				continue
 			for sentno, sent, high1, high2 in result:
-- 
2.43.0


From 9649a789bb30ad3c42f749b1cf7b9f7fa9772606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:24 +0000
Subject: [PATCH 154/158] fix: dlevel: level of non-finite clause with subject
 coindexed from main clause is 1

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 018f715..668b84d 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1611,7 +1611,7 @@ def dlevel(tree, lang='nl'):
 			vcid = node.source[WORD].lstrip('#')
 			for sib in node.parent:
 				if function(sib) == 'su' and hassecedge(sib, 'su', vcid):
-					return 2
+					return 1
 	# 0: simple sentence
 	return 0
 
-- 
2.43.0


From d9dfbb16fe2b0a2b8b62a565268ee32100f91f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:24 +0000
Subject: [PATCH 155/158] fix: ancestors: do not yield None after the root node

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 668b84d..100ca1a 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -729,7 +729,7 @@ def ftbtransforms(name, tree, sent):
 		for t in tree.subtrees(lambda n:
 				strip(n.label) in ("PP", "COORD")):
 			a = list(ancestors(t))
-			for n in range(2, len(a)):
+			for n in range(2, len(a) + 1):
 				if PPORNP.match("".join(strip(x.label) for x in a[:n])):
 					if (strip(a[n - 1][0].label) == "P"
 							and DERE.match(sent[a[n - 1][0][0]])):
@@ -1666,7 +1666,7 @@ def strip(label):
 
 def ancestors(node):
 	"""Yield ancestors of node from direct parent to root node."""
-	while node:
+	while node.parent is not None:
 		node = node.parent
 		yield node
 
-- 
2.43.0


From b277e952951b25081bafc2f8b1fd1bb7450ec8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:03 +0000
Subject: [PATCH 156/158] fix: DrawTree: node with both incoming and outgoing
 secondary edges showed only one of them

---
 discodop/tree.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 908f9c3..a1351a1 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1337,7 +1337,7 @@ class DrawTree(object):
 				edges[ids[i + (j, )]] = ids[i]
 
 		# handle secondary edges
-		labels = {}
+		labels, suffixes = {}, {}
 		for a in nodes:
 			labels.setdefault(a,
 					(nodes[a].label
@@ -1360,8 +1360,9 @@ class DrawTree(object):
 					coindexes.append('%s:%d' % (
 							secedgelabel, int(secedgeparent) - 500))
 				if coindexes:
-					labels[a] = '%s[%s]' % (nodes[a].label,
-							','.join(coindexes))
+					suffixes[a] = '[%s]' % ','.join(coindexes)
+		for a, suffix in suffixes.items():
+			labels[a] += suffix
 
 		return nodes, coords, edges, labels
 
-- 
2.43.0


From 825d640b6cb73e36978be6c7b057bbafdf3ca87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:56 +0000
Subject: [PATCH 157/158] fix: punctuation: guillemets were written as UTF-8
 bytes, so the letter A with circumflex counted as punctuation and guillemets
 were not matched

---
 discodop/punctuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 931389c..c3a43e9 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -13,7 +13,7 @@ PUNCTTAGS = {'.', ',', ':', "'", "''", '`', '``', '"',  # General
 # NB: ' is not in this list of tokens, because if it occurs as a possesive
 # marker it should be left alone; occurrences of ' as quotation marker may
 # still be identified using tags.
-PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xc2\xab\xc2\xbb\xb7\xad\\'
+PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xab\xbb\xb7\xad\\'
 		) | {'&bullet;', '..', '...', '....', '.....', '......',
 		'!!', '!!!', '??', '???', "''", '``', ',,',
 		'--', '---', '----', '-LRB-', '-RRB-', '-LCB-', '-RCB-',
@@ -26,7 +26,7 @@ PRUNEPUNCT = {'``', "''", '"', '.'}
 # Punctuation that come in pairs (left: right).
 BALANCEDPUNCTMATCH = {'"': '"', "'": "'", '``': "''",
 		'[': ']', '(': ')', '-LRB-': '-RRB-', '-LSB-': '-RSB-',
-		'-': '-', '\xc2\xab': '\xc2\xbb'}  # unicode << and >>
+		'-': '-', '\xab': '\xbb'}  # unicode << and >>
 
 
 def applypunct(method, tree, sent):
-- 
2.43.0


From eeb088c7ce953ba88e43acdee2276e1261fae42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:36 +0000
Subject: [PATCH 158/158] fix: ostagreduction: add the weight of an auxiliary
 tree once for each adjunction site, not for each of its nodes

---
 discodop/grammar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 82bac09..b068827 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -588,11 +588,11 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 							'\t'.join(child.label for child in node),
 							yfstr)
 					rules[rule] += 1
-			# rule type 3 (type 4 eliminated):
-			# M => N(M) s.t. N is an aux root node
-			for m in adjsites[REMOVEDEC.sub('', tree.label)]:
-				rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
-				rules[rule] += weight
+		# rule type 3 (type 4 eliminated):
+		# M => N(M) s.t. N is an aux root node
+		for m in adjsites[REMOVEDEC.sub('', tree.label)]:
+			rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
+			rules[rule] += weight
 		cnt += 1
 		if cnt % 100 == 0:
 			logging.info('proccessed aux tree %d / %d', cnt, len(auxtrees))
-- 
2.43.0

