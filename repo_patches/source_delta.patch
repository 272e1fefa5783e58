From 7cdbdc2c945803d55c5eacd6acb2d46e75dabb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 01/64] fix: treesearch: sents() must not overwrite the queried
 interval

The loops over matches reused the names start and end, which are also the
interval of sentences to query: results were cached under a wrong key, and with
the tgrep2 engine, jobs that started after the first file was processed were
given the wrong interval.
---
 discodop/treesearch.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..f31eb94 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -325,17 +325,17 @@ class TgrepSearcher(CorpusSearcher):
 			filename = jobs[future]
 			result = []
 			for sentno, line in future.result():
-				sent, match, begin, end = line.splitlines()
+				sent, match, left, right = line.splitlines()
 				if brackets:
 					match1 = match
 					match2 = ''
 				else:
-					begin, end = int(begin) - 1, int(end)
+					left, right = int(left) - 1, int(right)
 					tokens = [ptbunescape(token)
 							for token in GETLEAVES.findall(sent)]
 					sent = ' '.join(tokens)
-					prelen = len(' '.join(tokens[:begin]))
-					match = ' '.join(tokens[begin:end])
+					prelen = len(' '.join(tokens[:left]))
+					match = ' '.join(tokens[left:right])
 					match1 = set(range(prelen, prelen + len(match) + 1))
 					match2 = set()
 				result.append((sentno, sent, match1, match2))
@@ -426,17 +426,17 @@ class TgrepSearcher(CorpusSearcher):
 			filename = jobs[future]
 			x = []
 			for sentno, line in future.result():
-				sent, match, begin, end = line.splitlines()
+				sent, match, left, right = line.splitlines()
 				if brackets:
 					match1 = match
 					match2 = ''
 				else:
-					begin, end = int(begin) - 1, int(end)
+					left, right = int(left) - 1, int(right)
 					tokens = [ptbunescape(token)
 							for token in GETLEAVES.findall(sent)]
 					sent = ' '.join(tokens)
-					prelen = len(' '.join(tokens[:begin]))
-					match = ' '.join(tokens[begin:end])
+					prelen = len(' '.join(tokens[:left]))
+					match = ' '.join(tokens[left:right])
 					match1 = set(range(prelen, prelen + len(match) + 1))
 					match2 = set()
 				x.append((filename, sentno, sent, match1, match2))
@@ -958,8 +958,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, left, right in future.result():
+				highlight = range(left, right)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-- 
2.43.0


From 851985efc6295a93b01114113afdee5e52a77dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 02/64] fix: treesearch: only reuse cached trees/sentences for
 the same limit

Reusing cached results of a request with a larger maximum number of results
raised TypeError when the earlier request had no limit, and gave other results
than a fresh query for queries with multiple fragments.
---
 discodop/treesearch.py | 54 ++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index f31eb94..13f60a9 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -353,17 +353,16 @@ class TgrepSearcher(CorpusSearcher):
 		jobs = {}
 		for filename in subset:
 			try:
-				x, maxresults2 = self.cache['trees', query, filename,
-						start, end, nofunc, nomorph, detectdisc, mergedisc]
+				x = self.cache['trees', query, filename,
+						start, end, nofunc, nomorph, detectdisc, mergedisc,
+						maxresults]
 			except KeyError:
-				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result.extend(x)
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -395,7 +394,7 @@ class TgrepSearcher(CorpusSearcher):
 							% (nodenum, tree))
 				x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc, maxresults] = x
 			result.extend(x)
 		return result
 
@@ -411,17 +410,15 @@ class TgrepSearcher(CorpusSearcher):
 		jobs = {}
 		for filename in subset:
 			try:
-				x, maxresults2 = self.cache['sents', query, filename,
-						start, end, brackets]
+				x = self.cache['sents', query, filename,
+						start, end, brackets, maxresults]
 			except KeyError:
-				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result.extend(x)
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -441,7 +438,7 @@ class TgrepSearcher(CorpusSearcher):
 					match2 = set()
 				x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets, maxresults] = x
 			result.extend(x)
 		return result
 
@@ -677,11 +674,10 @@ class FragmentSearcher(CorpusSearcher):
 		cquery = None
 		for filename in subset:
 			try:
-				x, maxresults2 = self.cache['trees', query, filename,
-						start, end, nofunc, nomorph, detectdisc, mergedisc]
+				x = self.cache['trees', query, filename,
+						start, end, nofunc, nomorph, detectdisc, mergedisc,
+						maxresults]
 			except KeyError:
-				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -691,7 +687,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result.extend(x)
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -715,7 +711,7 @@ class FragmentSearcher(CorpusSearcher):
 						high = list(high.subtrees()) + high.leaves()
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
-					nofunc, nomorph, detectdisc, mergedisc] = x, maxresults
+					nofunc, nomorph, detectdisc, mergedisc, maxresults] = x
 			result.extend(x)
 		return result
 
@@ -729,11 +725,9 @@ class FragmentSearcher(CorpusSearcher):
 		cquery = None
 		for filename in subset:
 			try:
-				x, maxresults2 = self.cache['sents', query, filename,
-						start, end, brackets]
+				x = self.cache['sents', query, filename,
+						start, end, brackets, maxresults]
 			except KeyError:
-				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -743,7 +737,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result.extend(x)
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -767,7 +761,7 @@ class FragmentSearcher(CorpusSearcher):
 						match1, match2 = charindices(xsent, match1, match2)
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
-					start, end, brackets] = x, maxresults
+					start, end, brackets, maxresults] = x
 			result.extend(x)
 		return result
 
@@ -942,11 +936,9 @@ class RegexSearcher(CorpusSearcher):
 		jobs = {}
 		for filename in subset:
 			try:
-				x, maxresults2 = self.cache['sents', query, filename,
-						start, end, True, True]
+				x = self.cache['sents', query, filename,
+						start, end, True, True, maxresults]
 			except KeyError:
-				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
@@ -954,15 +946,15 @@ class RegexSearcher(CorpusSearcher):
 						True, True,
 						)] = filename
 			else:
-				result.extend(x[:maxresults])
+				result.extend(x)
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
 			for sentno, sent, left, right in future.result():
 				highlight = range(left, right)
 				x.append((filename, sentno, sent, highlight, ()))
-			self.cache['sents', query, filename, start, end, True, True
-					] = x, maxresults
+			self.cache['sents', query, filename, start, end, True, True,
+					maxresults] = x
 			result.extend(x)
 		return result
 
-- 
2.43.0


From dae2dabf369932b24f663ac2209fb5e0fba2d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/64] fix: treesearch: yield batch results in the order of
 the corpora

batchcounts() documents that the order of corpora is preserved, but the tgrep2
and fragment engines yielded corpora in the order the workers finished.
---
 discodop/treesearch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 13f60a9..6d4e3d1 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -302,8 +302,7 @@ class TgrepSearcher(CorpusSearcher):
 						for _, queryno in self._query(
 							queries, x, fmt, start, end, None)).items())],
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():  # preserve order of corpora
 			yield filename, future.result()
 
 	def batchsents(self, queries, subset=None, start=None, end=None,
@@ -321,8 +320,7 @@ class TgrepSearcher(CorpusSearcher):
 					lambda x: list(self._query(
 						queries, x, fmt, start, end, maxresults)),
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():  # preserve order of corpora
 			result = []
 			for sentno, line in future.result():
 				sent, match, left, right = line.splitlines()
@@ -660,8 +658,7 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():  # preserve order of corpora
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
-- 
2.43.0


From f53ac4df2c40bc78386e6e9b6394789ac18325d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 04/64] fix: treesearch: tgrep2 batchcounts() must return a
 count for every query

Queries without matches were left out of the list of counts, so that counts
could not be related to the queries they belong to.
---
 discodop/treesearch.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 6d4e3d1..5377e34 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -293,14 +293,13 @@ class TgrepSearcher(CorpusSearcher):
 		subset = subset or self.files
 		jobs = {}
 		# %s the sentence number
-		# %p the number of the matching pattern
-		fmt = r'%s\n%p:::\n'
+		fmt = r'%s\n:::\n'
 		for filename in subset:
 			# NB: not using cache
 			jobs[self._submit(
-					lambda x: [cnt for _, cnt in sorted(Counter(int(queryno)
-						for _, queryno in self._query(
-							queries, x, fmt, start, end, None)).items())],
+					lambda x: [sum(1 for _ in self._query(
+						[query], x, fmt, start, end, None))
+						for query in queries],
 					filename)] = filename
 		for future, filename in jobs.items():  # preserve order of corpora
 			yield filename, future.result()
-- 
2.43.0


From b3ad9b4ceac2c4e903b1e126515d104777467b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 05/64] fix: treesearch: regex batchcounts() past the end of a
 file gives zeros

A file shorter than the queried interval got an empty list instead of a zero
count for every query.
---
 discodop/treesearch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 5377e34..6690b1a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1150,6 +1150,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 	else:
 		result = array.array('I')
 	if start and start >= len(lineindex):
+		if not sents:
+			result.extend(0 for _ in patterns)
 		return result
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
-- 
2.43.0


From e0cdcc3f6abe95feeebf4a1673ce2917a58874ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/64] fix: treesearch: getinfo() of in-memory regex corpora

---
 discodop/treesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 6690b1a..47681b3 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1029,7 +1029,8 @@ class RegexSearcher(CorpusSearcher):
 			with openread(filename) as inp:
 				data = inp.read()
 		else:
-			_, data = self.files[filename]
+			_, buf = self.files[filename]
+			data = buf[:].decode('utf8')  # an mmap has no count() method
 		numwords = data.count(' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
-- 
2.43.0


From d5c90e13a1cf69bac003f1451cc6fb616cae7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/64] fix: treesearch: indexes belong to one list of files
 and are replaced atomically

---
 discodop/treesearch.py  | 47 +++++++++++++++++++++++++++++++++++------
 docs/cli/treesearch.rst |  4 ++--
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 47681b3..838f330 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -11,10 +11,12 @@ import csv
 import sys
 import mmap
 import array
+import hashlib
 import tempfile
 import subprocess
 import multiprocessing
 import concurrent.futures
+from contextlib import contextmanager
 from itertools import islice
 from collections import Counter, OrderedDict, namedtuple
 try:
@@ -559,8 +561,7 @@ class FragmentSearcher(CorpusSearcher):
 		super().__init__(files, macros, numproc)
 		self.disc = False
 		newvocab = True
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
+		self.vocabpath = _indexpath(files, 'treesearchvocab')
 		if os.path.exists(self.vocabpath):
 			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
@@ -581,12 +582,14 @@ class FragmentSearcher(CorpusSearcher):
 				fmt = ext[filename.rsplit('.', 1)[1]]
 				corpus = _fragments.readtreebank(filename, self.vocab, fmt=fmt)
 				corpus.indextrees(self.vocab)
-				corpus.tofile('%s.ct' % filename)
+				with _replacefile('%s.ct' % filename) as tmp:
+					corpus.tofile(tmp)
 				newvocab = True
 			if inmemory:
 				self.files[filename] = Ctrees.fromfile('%s.ct' % filename)
 		if newvocab:
-			self.vocab.tofile(self.vocabpath)
+			with _replacefile(self.vocabpath) as tmp:
+				self.vocab.tofile(tmp)
 		self.macros = None
 		if macros:
 			with openread(macros) as tmp:
@@ -862,8 +865,7 @@ class RegexSearcher(CorpusSearcher):
 				self.macros = dict(line.strip().split('=', 1) for line in tmp)
 		self.fileno = {filename: n for n, filename in enumerate(sorted(files))}
 		maxmtime = max(os.stat(a).st_mtime for a in files)
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.lineidxpath = os.path.join(path, 'treesearchline.idx')
+		self.lineidxpath = _indexpath(files, 'treesearchline')
 		if os.path.exists(self.lineidxpath):
 			mtime = os.stat(self.lineidxpath).st_mtime
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
@@ -873,7 +875,8 @@ class RegexSearcher(CorpusSearcher):
 			self.lineindex = tmp
 		else:
 			tmp = [_indexfile(name) for name in sorted(files)]
-			self.lineindex = MultiRoaringBitmap(tmp, filename=self.lineidxpath)
+			with _replacefile(self.lineidxpath) as tmpname:
+				self.lineindex = MultiRoaringBitmap(tmp, filename=tmpname)
 		if inmemory:
 			for filename in self.files:
 				fileno = os.open(filename, os.O_RDONLY)
@@ -1218,6 +1221,36 @@ def _indexfile(filename):
 	return result.freeze()
 
 
+def _indexpath(files, name):
+	"""Return filename of an index for exactly this list of files.
+
+	The index is stored in the directory of the (alphabetically) first file; the
+	file names are part of its name, because the index of one list of files
+	cannot be used with another."""
+	names = sorted(files)
+	digest = hashlib.sha1(os.fsencode('\0'.join(
+			os.path.abspath(a) for a in names))).hexdigest()[:16]
+	return os.path.join(os.path.dirname(names[0]),
+			'%s-%s.idx' % (name, digest))
+
+
+@contextmanager
+def _replacefile(filename):
+	"""Create or replace a file only once its contents are complete.
+
+	Yields a temporary filename in the same directory (with the same extension)
+	which becomes `filename` when the block ends without an exception."""
+	root, ext = os.path.splitext(filename)
+	tmpname = '%s.tmp%d%s' % (root, os.getpid(), ext)
+	try:
+		yield tmpname
+		os.replace(tmpname, filename)
+	except BaseException:
+		if os.path.exists(tmpname):
+			os.unlink(tmpname)
+		raise
+
+
 class NoFuture(object):
 	"""A non-asynchronous version of concurrent.futures.Future."""
 
diff --git a/docs/cli/treesearch.rst b/docs/cli/treesearch.rst
index af4fa63..e76b2dd 100644
--- a/docs/cli/treesearch.rst
+++ b/docs/cli/treesearch.rst
@@ -74,7 +74,7 @@ e.g., to handle punctuation, and include functional or morphological tags.
 
 A cached copy of the treebank is created in an indexed format; given ``filename.mrg``,
 this indexed version is stored as ``filename.mrg.ct`` (in the same directory).
-Another file, ``treesearchvocab.idx``, contains a global index of productions;
+Another file, ``treesearchvocab-*.idx``, contains a global index of productions;
 this index should automatically be recreated when the list of files changes or
 any file is updated.
 For the treesearch web interface, these indexed files need to be created in advance.
@@ -133,7 +133,7 @@ resulting RE will match the second character::
 More information: https://docs.python.org/3/library/re.html#regular-expression-syntax
 
 This query engine creates a cached index of line numbers in all files
-``treesearchline.idx``; this index should be recreated automatically when
+``treesearchline-*.idx``; this index should be recreated automatically when
 the list of files changes or any file is updated.
 Install https://github.com/andreasvc/pyre2
 for faster queries using linear time deterministic finite automata.
-- 
2.43.0


From 7c82703c0dd0558f2995db01d555f6cbd42cdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/64] fix: treesearch: rebuild tgrep2 index when the corpus
 has changed

---
 discodop/treesearch.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 838f330..d2d75d9 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -224,22 +224,26 @@ class TgrepSearcher(CorpusSearcher):
 	def __init__(self, files, macros=None, numproc=None):
 		def convert(filename):
 			"""Create tgrep2 indexed files (.t2c) if necessary."""
-			if not os.path.exists(self._internalfilename(filename)):
+			internalfilename = self._internalfilename(filename)
+			if not (os.path.exists(internalfilename)
+					and os.stat(internalfilename).st_mtime
+					> os.stat(filename).st_mtime):
 				origfile = filename
 				if filename.endswith('.gz') or filename.endswith('.zst'):
 					with tempfile.NamedTemporaryFile(delete=False) as tmp:
 						tmp.write(readbytes(filename))
 						origfile = tmp.name
 				try:
-					args = [which('tgrep2'), '-p', origfile,
-							self._internalfilename(filename)]
-					returncode, _, stderr = run(args=args)
-					if 'must use the -K flag' in stderr.decode('utf8'):
-						returncode, _, stderr = run(
-								args=[args[0], '-K'] + args[1:])
-					if returncode != 0:
-						raise ValueError('Error creating tgrep2 index of %r:\n'
-								'%s' % (filename, stderr.decode('utf8')))
+					with _replacefile(internalfilename) as tmpname:
+						args = [which('tgrep2'), '-p', origfile, tmpname]
+						returncode, _, stderr = run(args=args)
+						if 'must use the -K flag' in stderr.decode('utf8'):
+							returncode, _, stderr = run(
+									args=[args[0], '-K'] + args[1:])
+						if returncode != 0:
+							raise ValueError('Error creating tgrep2 index of '
+									'%r:\n%s' % (
+									filename, stderr.decode('utf8')))
 				finally:
 					if filename != origfile:
 						os.unlink(origfile)
@@ -480,9 +484,8 @@ class TgrepSearcher(CorpusSearcher):
 				maxnodes=None)
 
 	def _internalfilename(self, filename):
-		"""Strip possible .gz extension and add .t2c.gz or .t2c.lz4."""
-		return '%s.t2c.%s' % (re.sub(r'\.gz$', '', filename),
-				self._compressext)
+		"""Add .t2c.gz or .t2c.lz4, etc."""
+		return '%s.t2c.%s' % (filename, self._compressext)
 
 	@workerfunc
 	def _query(self, queries, filename, fmt, start=None, end=None,
-- 
2.43.0


From 448d3302d9e00b499ea3dac86d173a63cd3e745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 09/64] fix: containers: Vocabulary.tofile() must notice errors
 when closing the file

---
 discodop/containers.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..c37aee4 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -826,6 +826,7 @@ cdef class Vocabulary:
 		"""Serialize mutable Vocabulary object to file."""
 		cdef FILE *out = fopen(filename.encode('utf8'), b'wb')
 		cdef size_t written = 0
+		cdef int result = 0
 		cdef uint32_t header[3]
 		header[:] = [len(self.prods), len(self.labels) + 1, self.labelbuf.len]
 		if out is NULL:
@@ -840,7 +841,9 @@ cdef class Vocabulary:
 					+ self.labelidx.len * sizeof(uint32_t) + self.labelbuf.len):
 				raise ValueError('error writing to file.')
 		finally:
-			fclose(out)
+			result = fclose(out)  # may fail when writing buffered data
+		if result != 0:
+			raise ValueError('error writing to file.')
 
 	@classmethod
 	def fromfile(cls, filename):
-- 
2.43.0


From c97e806f9a184953a870ee9df62420dfc4d575e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 10/64] fix: treesearch: FragmentSearcher.close() must close
 corpora, not file names

---
 discodop/treesearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d2d75d9..d39171a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -602,8 +602,9 @@ class FragmentSearcher(CorpusSearcher):
 	def close(self):
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if a is not None:
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From 058f5bb1fa9ea5b347de67d343ca53ed9290d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 11/64] fix: treesearch: TgrepSearcher must read both pipes and
 check the exit status

With a range or limit, the exit status of a failed tgrep2 process was not
checked before returning partial results, and a process writing a lot to
stderr would block forever.
---
 discodop/treesearch.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d39171a..a057446 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -502,34 +502,25 @@ class TgrepSearcher(CorpusSearcher):
 				args=cmd, shell=False, bufsize=0,
 				stdout=subprocess.PIPE, stderr=subprocess.PIPE)
 		linere = re.compile(r'([0-9]+)\n(.*?):::\n', flags=re.DOTALL)
+		# NB: read both pipes, to avoid blocking when the other one is full
+		out, err = proc.communicate()
+		if proc.returncode != 0:
+			raise ValueError('command: %s\n%s' % (
+					' '.join(cmd), err.decode('utf8')))
+		matches = linere.finditer(out.decode('utf8'))
 		if start or end or maxresults:
 			start = start or 1
 			results = []
-			for n, match in enumerate(linere.finditer(
-					proc.stdout.read().decode('utf8'))):
+			for n, match in enumerate(matches):
 				m, a = int(match.group(1)), match.group(2)
 				if m < start:
 					continue
 				elif (end and m > end) or (maxresults and n >= maxresults):
-					proc.stdout.close()
-					proc.stderr.close()
-					proc.terminate()
-					return results
+					break
 				results.append((m, a))
-			if proc.wait() != 0:
-				proc.stdout.close()
-				err = proc.stderr.read().decode('utf8')
-				proc.stderr.close()
 		else:
-			out, err = proc.communicate()
-			out = out.decode('utf8')
-			err = err.decode('utf8')
-			proc.stdout.close()
-			proc.stderr.close()
-			results = ((int(match.group(1)), match.group(2)) for match
-					in linere.finditer(out))
-		if proc.returncode != 0:
-			raise ValueError('command: %s\n%s' % (' '.join(cmd), err))
+			results = ((int(match.group(1)), match.group(2))
+					for match in matches)
 		return results
 
 
-- 
2.43.0


From 4c9b1fe45c87a41a9045b5e28e74225d7b7cdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 12/64] fix: lexicon: externaltagging() must check exit status
 and remove temp files

The tree-tagger and stanford branches wrote bytes to a text file and always
failed; the exit status of the tagger was ignored, output lacking its last
part was accepted, and temporary files were left behind upon errors.
---
 discodop/lexicon.py | 75 ++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..cf34025 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -374,47 +374,46 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 		if not os.path.exists('tree-tagger/bin/tree-tagger'):
 			raise ValueError(TREETAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
-			for tagsent in sents.values():
-				sent = map(itemgetter(0), tagsent)
-				infile.write('\n'.join(w.encode('utf-8')
-					for w in sent) + '\n<S>\n')
-		filtertags = ''
-		if not model:
-			model = 'tree-tagger/lib/german-par-linux-3.2-utf8.bin'
-			filtertags = '| tree-tagger/cmd/filter-german-tags'
-		tagger = Popen('tree-tagger/bin/tree-tagger -token -sgml'
-				' %s %s %s' % (model, inname, filtertags),
-				stdout=PIPE, shell=True)
-		tagout = tagger.stdout.read(
-				).decode('utf-8').split('<S>')[:-1]
-		os.unlink(inname)
+		try:
+			with os.fdopen(infile, 'w', encoding='utf8') as infile:
+				for tagsent in sents.values():
+					infile.write('\n'.join(w for w, _ in tagsent) + '\n<S>\n')
+			filtertags = ''
+			if not model:
+				model = 'tree-tagger/lib/german-par-linux-3.2-utf8.bin'
+				filtertags = '| tree-tagger/cmd/filter-german-tags'
+			tagger = Popen('tree-tagger/bin/tree-tagger -token -sgml'
+					' %s %s %s' % (model, inname, filtertags),
+					stdout=PIPE, shell=True)
+			tagout = tagger.communicate()[0].decode('utf-8')
+		finally:
+			os.unlink(inname)
 		taggedsents = OrderedDict((n, [tagmangle(a, None, overridetag, tagmap)
 					for a in tags.splitlines() if a.strip()])
-					for n, tags in zip(sents, tagout))
+					for n, tags in zip(sents, tagout.split('<S>')[:-1]))
 	elif usetagger == 'stanford':  # Stanford Tagger
 		if not os.path.exists('stanford-postagger-full-2012-07-09'):
 			raise ValueError(STANFORDTAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
-			for tagsent in sents.values():
-				sent = map(itemgetter(0), tagsent)
-				infile.write(' '.join(w.encode('utf-8')
-					for w in sent) + '\n')
-		if not model:
-			model = 'models/german-hgc.tagger'
-		tagger = Popen(args=(
-				'/usr/bin/java -mx2G -classpath stanford-postagger.jar'
-				' edu.stanford.nlp.tagger.maxent.MaxentTagger'
-				' -tokenize false -encoding utf-8'
-				' -model %s -textFile %s' % (model, inname)).split(),
-				cwd='stanford-postagger-full-2012-07-09',
-				shell=False, stdout=PIPE)
-		tagout = tagger.stdout.read(
-				).decode('utf-8').splitlines()
-		os.unlink(inname)
+		try:
+			with os.fdopen(infile, 'w', encoding='utf8') as infile:
+				for tagsent in sents.values():
+					infile.write(' '.join(w for w, _ in tagsent) + '\n')
+			if not model:
+				model = 'models/german-hgc.tagger'
+			tagger = Popen(args=(
+					'/usr/bin/java -mx2G -classpath stanford-postagger.jar'
+					' edu.stanford.nlp.tagger.maxent.MaxentTagger'
+					' -tokenize false -encoding utf-8'
+					' -model %s -textFile %s' % (model, inname)).split(),
+					cwd='stanford-postagger-full-2012-07-09',
+					shell=False, stdout=PIPE)
+			tagout = tagger.communicate()[0].decode('utf-8')
+		finally:
+			os.unlink(inname)
 		taggedsents = OrderedDict((n, [tagmangle(a, '_', overridetag, tagmap)
-			for a in tags.split()]) for n, tags in zip(sents, tagout))
+			for a in tags.split()]) for n, tags
+			in zip(sents, tagout.splitlines()))
 	elif usetagger == 'frog':  # Dutch 'frog' tagger
 		tagger = Popen(args=[which('frog')]
 					+ '-n --skip=tacmnp -t /dev/stdin'.split(),
@@ -423,12 +422,18 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 				' '.join(w for w in map(itemgetter(0), tagsent)) + '\n'
 				for tagsent in sents.values()).encode('utf8'))
 		logging.info(stderr)
+		tagout = tagout.decode('utf-8')
 		# lines consist of: 'idx token lemma POS score'
 		taggedsents = OrderedDict((n,
 				[(line.split()[1],
 					line.split()[3].replace('(', '[').replace(')', ']'))
 					for line in lines.splitlines()]) for n, lines
-				in zip(sents, tagout.decode('utf-8').split('\n\n')))
+				in zip(sents, tagout.split('\n\n')))
+	if tagger.returncode != 0:
+		raise ValueError('non-zero exit code %s from tagger %s'
+				% (tagger.returncode, usetagger))
+	if not tagout.endswith('\n'):
+		raise ValueError('incomplete output from tagger %s' % usetagger)
 	if len(taggedsents) != len(sents):
 		raise ValueError('mismatch in number of sentences after tagging.')
 	for n, tags in taggedsents.items():
-- 
2.43.0


From b6049850cfe6c4cffcbe38a4192e66c0d68f8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 13/64] fix: util: (de)compressors must not block on
 diagnostics or unread data

Nothing read the stderr pipe while the command was running, and leaving the
block before the end of the file waited for a command blocked on its output.
Lines are now delimited as in other text files (codecs readers also split on
e.g. U+2028).
---
 discodop/util.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..7fdda02 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -1,9 +1,12 @@
 """Misc code to avoid cyclic imports."""
+import io
 import os
 import re
 import sys
 import gzip
 import codecs
+import signal
+import tempfile
 import traceback
 import subprocess
 from contextlib import contextmanager
@@ -52,17 +55,24 @@ def genericdecompressor(cmd, filename, encoding='utf8'):
 	:raises ValueError: if command returns an error.
 	:returns: a file-like object that must be used in a with-statement;
 		supports .read() and iteration, but not seeking."""
-	with subprocess.Popen(
+	# NB: stderr is a file because nothing reads it while the command runs;
+	# the command would block when a pipe is full.
+	with tempfile.TemporaryFile() as err, subprocess.Popen(
 			[which(cmd), '--decompress', '--stdout', '--quiet', filename],
-			stdout=subprocess.PIPE, stderr=subprocess.PIPE) as proc:
-		# FIXME: should use select to avoid deadlocks due to OS pipe buffers
-		# filling up and blocking the child process.
-		yield proc.stdout if encoding is None else codecs.getreader(
-				encoding)(proc.stdout)
+			stdout=subprocess.PIPE, stderr=err) as proc:
+		out = proc.stdout if encoding is None else io.TextIOWrapper(
+				proc.stdout, encoding=encoding)
+		yield out
+		# The caller may have stopped reading before the end, in which case the
+		# command is ended by SIGPIPE.
+		complete = not out.closed and not proc.stdout.read(1)
+		out.close()
 		retcode = proc.wait()
-		if retcode:  # FIXME: retcode 2 means warning. allow warnings?
+		# FIXME: retcode 2 means warning. allow warnings?
+		if retcode and (complete or retcode != -signal.SIGPIPE):
+			err.seek(0)
 			raise ValueError('non-zero exit code %s from compressor %s:\n%r'
-					% (retcode, cmd, proc.stderr.read()))
+					% (retcode, cmd, err.read()))
 
 
 @contextmanager
@@ -76,16 +86,18 @@ def genericcompressor(cmd, filename, encoding='utf8', compresslevel=8):
 	:raises ValueError: if command returns an error.
 	:returns: a file-like object that must be used in a with-statement;
 		supports .write() but not seeking."""
-	with open(filename, 'wb') as out, subprocess.Popen(
+	with open(filename, 'wb') as out, tempfile.TemporaryFile() as err, \
+			subprocess.Popen(
 			[which(cmd), '--stdout', '--quiet', '-%s' % compresslevel],
-			stdin=subprocess.PIPE, stdout=out, stderr=subprocess.PIPE) as proc:
+			stdin=subprocess.PIPE, stdout=out, stderr=err) as proc:
 		yield proc.stdin if encoding is None else codecs.getwriter(
 				encoding)(proc.stdin)
 		proc.stdin.close()
 		retcode = proc.wait()
 		if retcode:
+			err.seek(0)
 			raise ValueError('non-zero exit code %s from compressor %s:\n%r'
-					% (retcode, cmd, proc.stderr.read()))
+					% (retcode, cmd, err.read()))
 
 
 def openread(filename, encoding='utf8'):
-- 
2.43.0


From 9e75f86e27666792ed6fe626d1ded913641e80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 14/64] fix: treebank: incrementaltreereader() must not turn
 #BOT tables into empty trees

---
 discodop/treebank.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..9a1f612 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1199,9 +1199,13 @@ def segmentexport(morphology, functions, strict=False):
 		elif line.startswith('#EOS ') or line.startswith('#EOT '):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
-			cur.append(line)
-			item = exporttree(cur, functions, morphology)
-			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
+			if inblock == 1 and line.startswith('#EOS '):
+				cur.append(line)
+				item = exporttree(cur, functions, morphology)
+				line = (yield ((item.tree, item.sent, item.comment), ),
+						CONSUMED)
+			else:  # end of table, or end of sentence without start
+				line = (yield None, CONSUMED)
 			inblock = 0
 			cur = []
 		elif line:
-- 
2.43.0


From cb3d480d2919407e91638c6af4a65be1ca336ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 15/64] fix: treebank: fixed order for files with the same
 number in their name

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 9a1f612..5596b20 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -101,7 +101,8 @@ class CorpusReader(object):
 				if modifierrules else None)
 		self._encoding = encoding
 		try:
-			self._filenames = (sorted(glob(path), key=numbase)
+			# NB: sort twice so that files with the same number have a fixed order
+			self._filenames = (sorted(sorted(glob(path)), key=numbase)
 					if path != '-' else ['-'])
 		except TypeError:
 			# print('all sentence IDs must have the same type signature '
-- 
2.43.0


From f9e75c6cf8155c21fc9221f410462810a962cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 16/64] fix: treebank: trees of multiple bracket files must not
 replace each other

The numbering of trees started again in each file, so that trees(), sents(),
and blocks() would only return the last tree with each number.
---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 5596b20..fdd6101 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -218,9 +218,11 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		n = 0  # continue numbering in next file to get unique IDs
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for n, line in enumerate((line for line in inp if line), n + 1):
+					yield n, line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From a3920b4e0291121f5338fce4ab4c24699e4ff431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 17/64] fix: treebank: do not return previous tree for
 malformed Alpino file

After reporting a malformed XML file, the reader went on to use the tree of
the file before it.
---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index fdd6101..aa653ec 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -462,6 +462,7 @@ class AlpinoCorpusReader(CorpusReader):
 						filename,
 						rawblock.decode('utf8', errors='replace')),
 						file=sys.stderr)
+				raise
 			yield n, (rawblock, xmlblock)
 
 	def _parse(self, block):
@@ -494,6 +495,7 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 						print('Problem with %r:\n%s' % (
 								n, block.decode('utf8', errors='replace')),
 								file=sys.stderr)
+						raise
 					yield n, (block, xmlblock)
 
 
-- 
2.43.0


From 860757fd814af85cbe8b87445276611fe2778563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 18/64] fix: treebank: report incomplete last sentence of
 export file

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index aa653ec..042cdf7 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -344,6 +344,8 @@ class NegraCorpusReader(CorpusReader):
 					elif started:
 						lines.append(line)
 					# other lines are ignored: #FORMAT x, %% comments, ...
+		if started:
+			raise ValueError('end of file inside sentence: %s' % sentid)
 
 	def _parse(self, block):
 		return exporttree(block, self.functions, self.morphology, self.lemmas)
-- 
2.43.0


From 08c6a6eb3695e92e0208cfdc6cf4d1a726b838d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 19/64] fix: eval: breakdowns in a fixed order for equal counts

The order and selection of equally frequent errors depended on the order
in which sentences were added and on the hash seed, as did the choice of
representatives of equivalence classes.
---
 discodop/eval.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..1c146ae 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -99,7 +99,7 @@ class Evaluator(object):
 				if pyintbitcount(indices) > 1 and (n, indices) in gmismatch)
 		print('\n Rewrite rule mismatches (for given span)')
 		print('   count   cand / gold rules')
-		for (crule, grule), cnt in wrong.most_common(limit):
+		for (crule, grule), cnt in mostcommon(wrong, limit):
 			print(' %7d  %s' % (cnt, grammar.printrule(*crule)))
 			print(' %7s  %s' % (' ', grammar.printrule(*grule)))
 		gspans = {(n, indices) for n, indices, _ in acc.goldrule}
@@ -108,7 +108,7 @@ class Evaluator(object):
 				if pyintbitcount(indices) > 1 and (n, indices) not in gspans)
 		print('\n Rewrite rules (span not in gold trees)')
 		print('   count   rule in candidate parses')
-		for crule, cnt in wrong.most_common(limit):
+		for crule, cnt in mostcommon(wrong, limit):
 			print(' %7d  %s' % (cnt, grammar.printrule(*crule)))
 		cspans = {(n, indices) for n, indices, _ in acc.candrule}
 		wrong = Counter(rule for n, indices, rule
@@ -116,7 +116,7 @@ class Evaluator(object):
 				if pyintbitcount(indices) > 1 and (n, indices) not in cspans)
 		print('\n Rewrite rules (span missing from candidate parses)')
 		print('   count   rule in gold standard set')
-		for grule, cnt in wrong.most_common(limit):
+		for grule, cnt in mostcommon(wrong, limit):
 			print(' %7d  %s' % (cnt, grammar.printrule(*grule)))
 
 	def catbreakdown(self, limit=10):
@@ -125,12 +125,12 @@ class Evaluator(object):
 		print('\n Attachment errors (correct labeled bracketing, wrong parent)')
 		print('  label     cand     gold    count')
 		print(' ' + 33 * '_')
-		gmismatch = dict(acc.goldbatt - acc.candbatt)
+		gmismatch = dict(sorted(acc.goldbatt - acc.candbatt))
 		wrong = Counter((label, cparent, gmismatch[n, label, indices])
 					for (n, label, indices), cparent
 					in acc.candbatt - acc.goldbatt
 					if (n, label, indices) in gmismatch)
-		for (cat, gparent, cparent), cnt in wrong.most_common(limit):
+		for (cat, gparent, cparent), cnt in mostcommon(wrong, limit):
 			print('%s  %s  %s  %7d' % (cat.rjust(7), gparent.rjust(7),
 					cparent.rjust(7), cnt))
 		print('\n Category Statistics (%s categories / errors)' % (
@@ -144,9 +144,9 @@ class Evaluator(object):
 					for n, (label, indices) in acc.candb - acc.goldb
 					if (n, indices) in gmismatch)
 		freqcats = sorted(set(acc.goldbcat) | set(acc.candbcat),
-				key=lambda x: len(acc.goldbcat[x]), reverse=True)
+				key=lambda x: (-len(acc.goldbcat[x]), x))
 		for cat, mismatch in zip_longest(freqcats[:limit],
-				wrong.most_common(limit)):
+				mostcommon(wrong, limit)):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
@@ -179,9 +179,9 @@ class Evaluator(object):
 					for n, (span, tag) in acc.candfun - acc.goldfun
 					if (n, span) in gmismatch)
 		freqcats = sorted(set(acc.goldbfunc) | set(acc.candbfunc),
-				key=lambda x: len(acc.goldbfunc[x]), reverse=True)
+				key=lambda x: (-len(acc.goldbfunc[x]), x))
 		for cat, mismatch in zip_longest(freqcats[:limit],
-				wrong.most_common(limit)):
+				mostcommon(wrong, limit)):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
@@ -212,8 +212,8 @@ class Evaluator(object):
 		tags = Counter(acc.goldpos)
 		wrong = Counter((c, g) for c, g
 				in zip(acc.candpos, acc.goldpos) if c != g)
-		for tag, mismatch in zip_longest(tags.most_common(limit),
-				wrong.most_common(limit)):
+		for tag, mismatch in zip_longest(mostcommon(tags, limit),
+				mostcommon(wrong, limit)):
 			if tag is None:
 				print(''.rjust(40), end='')
 			else:
@@ -726,7 +726,7 @@ def transitiveclosure(eqpairs):
 		edges[b].add(a)
 	eqclasses = {}
 	seen = set()
-	for elem in set(edges):
+	for elem in sorted(edges):
 		if elem in seen:
 			continue
 		eqclasses[elem] = set()
@@ -739,6 +739,11 @@ def transitiveclosure(eqpairs):
 	return eqclasses
 
 
+def mostcommon(counts, limit=None):
+	"""Like ``Counter.most_common()``, but in a fixed order for equal counts."""
+	return sorted(counts.items(), key=lambda x: (-x[1], str(x[0])))[:limit]
+
+
 def alignsent(csent, gsent, gpos):
 	"""Map tokens of ``csent`` onto those of ``gsent``, and translate indices.
 
-- 
2.43.0


From d4842e8f4c0698e5100dbc937c62a570f21404eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 20/64] fix: gen: rounding must not make the selection of a
 rule fail

---
 discodop/gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..91b66ce 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -64,6 +64,10 @@ def chooserule(rules, discount, prodcounts):
 		position -= w
 		if position < 0:
 			return r
+	# Due to rounding (or underflow), no rule may have been selected.
+	for r, w in reversed(list(zip(rules, weights))):
+		if w > 0 or (r.prob > 0 and not any(weights)):
+			return r
 	raise ValueError('random selection out of range.')
 
 
-- 
2.43.0


From 26cc08536be07f91cee3cf6941546ac1bbab8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 21/64] fix: gen: reading of grammar files

The lexicon was dropped from bitpar grammars because iterators were
consumed twice; compressed grammars were read as binary, and the lexicon
could not be decoded at all.
---
 discodop/gen.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 91b66ce..f3d3518 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -140,13 +139,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = list(map(float, weights))
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = list(map(int, weights))
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
@@ -263,12 +262,13 @@ def main():
 		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(sys.argv[1]) as inp:
+		rules = list(inp)
+	with openread(sys.argv[2]) as inp:
+		lexicon = list(inp)
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
-	except ValueError:
+	except (ValueError, IndexError):
 		xgrammar = read_bitpar_grammar(rules, lexicon)
 	grammar = splitgrammar(xgrammar)
 	for _ in range(20):
-- 
2.43.0


From 6e22dd5f9b6067401bc83e7f2403d637c800f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 22/64] fix: parser: sentence without parse must not require
 head rules

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..91d1b29 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -568,7 +568,8 @@ class Parser(object):
 					in enumerate(tags or (len(sent) * ['NN']))])
 			parsetree = ParentedTree(
 					'(%s %s)' % (stage.grammar.start, default))
-			applyheadrules(parsetree, self.headrules)
+			if self.headrules:
+				applyheadrules(parsetree, self.headrules)
 		noparse = True
 		prob = 1.0
 		return parsetree, prob, noparse
-- 
2.43.0


From afa22920c3d6c338d73e4b8e3e833e6517d7f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 23/64] fix: plcfrs: pruning with split items without
 markorigin used an empty mapping

---
 discodop/plcfrs.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..cb74e1b 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -890,14 +890,12 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 			if whitelist.splitmapping[newitem.label].size() == 0:
 				return True
 		else:
-			if whitelist.mapping[newitem.label] != 0:
+			if whitelist.mapping[newitem.label] == 0:
 				return True
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
-- 
2.43.0


From 3633097909ea7a3f12064f951c849668b8192699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 24/64] fix: estimates: np.NAN is gone in numpy 2

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 7380b7e613aaf110004859bc31374d8bfe38a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 25/64] fix: lexicon: unknown word model with
 openclassthreshold 0

---
 discodop/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index cf34025..3ccc4da 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -71,10 +71,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			wordsfortag[tag].add(word)
 			tags[tag] += 1
 			wordtags[word, tag] += 1
-	openclasstags = {}
+	openclasstags, closedclasstags = {}, {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From a573f68f6051ce8eed59885e762a1d20a80d16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 26/64] fix: parser: identifiers in paragraph mode got a
 leading space

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 91d1b29..dd3e9ec 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -923,7 +923,8 @@ def readinputbitparstyle(infile):
 		if not line:
 			yield ' '.join(sent)
 			sent = []
-		sent.append(line)
+		else:
+			sent.append(line)
 	if sent:
 		yield ' '.join(sent)
 
-- 
2.43.0


From b39099783bb3b0357bd371cadd0f6670068dfec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 27/64] fix: parser: input without sentences is not an error

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index dd3e9ec..d6329c6 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -1015,7 +1015,7 @@ def doparsing(parser, infile, out, printprob, oneline, usetags, numparses,
 			times.append(sec)
 			sys.stderr.flush()
 			out.flush()
-	print('average time per sentence', sum(times) / len(times),
+	print('average time per sentence', sum(times) / max(1, len(times)),
 			'\nunparsed sentences:', unparsed,
 			'\nfinished',
 			file=sys.stderr)
-- 
2.43.0


From aedd6f65b0cc0b0ce02789eb13552f2a19f73c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 28/64] fix: Grammar.switch: do not share open weights file
 with worker processes

---
 discodop/_grammar.pxi | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..48b0407 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -741,7 +741,10 @@ cdef class Grammar:
 						self.revrulemap[self._unary[n].no]].prob
 		else:
 			if self.models is None and self.altweightsfile:
-				self.models = np.load(self.altweightsfile)  # FIXME: keep open?
+				# read everything now; an open file would be shared with
+				# worker processes, which then disturb each other's reading.
+				with np.load(self.altweightsfile) as inp:
+					self.models = {a: inp[a] for a in inp.files}
 			model = self.models[name]
 			if len(model) != <signed>numweights:
 				raise ValueError('length mismatch: %d grammar rules, '
-- 
2.43.0


From 5ff19fe107c8114ac71887744f7acecbd8f10954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 29/64] fix: pcfg: read past the items of a cell

---
 discodop/pcfg.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..88d78d0 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -571,9 +571,12 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				# NB: this cell may be empty, or the last one with items so far.
+				while leftitemidx < chart.items.size():
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -600,8 +603,6 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-- 
2.43.0


From 112b0c58beebba36c9ddfcd50ab5b525a12e5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 30/64] fix: fragments: wrong counts when second treebank has
 larger trees

---
 discodop/fragments.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..0f12bc6 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -370,8 +370,13 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	# the size of the bitsets depends on both treebanks
+	maxnodes = trees1.maxnodes
+	if PARAMS['trees2'] is not None:
+		maxnodes = max(maxnodes, PARAMS['trees2'].maxnodes)
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=maxnodes)
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From 0a606f2851156ae6fc5fb8dc5475e95edfa64b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 31/64] fix: fragments: --complete failed with multiple
 processes

---
 discodop/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 0f12bc6..b61c36f 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -206,7 +206,7 @@ def regular(filenames, numproc, limit, encoding):
 	if numproc != 1:
 		pool.close()
 		pool.join()
-		del dowork, pool
+		del pool
 	return fragmentkeys, counts
 
 
-- 
2.43.0


From 12f96f899b422a0545bd6acda44567b772c09439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 32/64] fix: fragments: --alt must not modify the fragments of
 a batch in place

---
 discodop/fragments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index b61c36f..961788c 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -541,8 +541,7 @@ def printfragments(fragments, counts, out=None):
 		if sys.stdout.encoding is None:
 			out = codecs.getwriter('utf8')(out)
 	if PARAMS['alt']:
-		for n, a in enumerate(fragments):
-			fragments[n] = altrepr(a)
+		fragments = [altrepr(a) for a in fragments]
 	if PARAMS['complete']:
 		logging.info('total number of matches: %d',
 				sum(sum(a) for a in counts)
-- 
2.43.0


From a29fb5c9e2cfa374b4d0f93a037cc1ed39666ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 33/64] fix: fragments: remove temporary file on errors; close
 output files

---
 discodop/fragments.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 961788c..a18f7e6 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -83,13 +83,8 @@ def main(argv=None):
 	for n, fname in enumerate(args):
 		if fname == '-':
 			if numproc != 1:
-				# write to temp file so that contents can be read
-				# in multiple processes
 				if readstdin is not None:
 					raise ValueError('can only read from stdin once.')
-				with tempfile.NamedTemporaryFile(delete=False) as tmp:
-					tmp.write(open(sys.stdin.fileno(), 'rb').read())
-					args[n] = tmp.name
 				readstdin = n
 		elif not os.path.exists(fname):
 			raise ValueError('not found: %r' % fname)
@@ -116,17 +111,29 @@ def main(argv=None):
 	logging.info('\n'.join('treebank%d: %s' % (n + 1, a)
 		for n, a in enumerate(args)))
 
-	if numproc == 1 and batchdir:
-		batch(batchdir, args, limit, encoding, '--debin' in opts)
-	else:
-		fragmentkeys, counts = regular(args, numproc, limit, encoding)
-		out = (io.open(opts['-o'], 'w', encoding=encoding)
-				if '-o' in opts else None)
-		if '--debin' in opts:
-			fragmentkeys = debinarize(fragmentkeys)
-		printfragments(fragmentkeys, counts, out=out)
-	if readstdin is not None:
-		os.unlink(args[readstdin])
+	tmpname = None
+	try:
+		if readstdin is not None:
+			# write to temp file so that contents can be read
+			# in multiple processes
+			with tempfile.NamedTemporaryFile(delete=False) as tmp:
+				tmpname = tmp.name
+				tmp.write(open(sys.stdin.fileno(), 'rb').read())
+			args[readstdin] = tmpname
+		if numproc == 1 and batchdir:
+			batch(batchdir, args, limit, encoding, '--debin' in opts)
+		else:
+			fragmentkeys, counts = regular(args, numproc, limit, encoding)
+			if '--debin' in opts:
+				fragmentkeys = debinarize(fragmentkeys)
+			if '-o' in opts:
+				with io.open(opts['-o'], 'w', encoding=encoding) as out:
+					printfragments(fragmentkeys, counts, out=out)
+			else:
+				printfragments(fragmentkeys, counts)
+	finally:
+		if tmpname is not None:
+			os.unlink(tmpname)
 
 
 def regular(filenames, numproc, limit, encoding):
@@ -258,10 +265,10 @@ def batch(outputdir, filenames, limit, encoding, debin):
 					maxnodes=maxnodes)
 		outputfilename = '%s/%s_%s' % (outputdir,
 				os.path.basename(filenames[0]), os.path.basename(filename))
-		out = io.open(outputfilename, 'w', encoding=encoding)
 		if debin:
 			fragmentkeys = debinarize(fragmentkeys)
-		printfragments(fragmentkeys, counts, out=out)
+		with io.open(outputfilename, 'w', encoding=encoding) as out:
+			printfragments(fragmentkeys, counts, out=out)
 		logging.info('wrote to %s', outputfilename)
 
 
-- 
2.43.0


From d577fa87c298f142dddd3678cb9ba6e23efff53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 34/64] fix: fragments: do not wait for ever for workers that
 cannot read a treebank

---
 discodop/fragments.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index a18f7e6..1914bfe 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -14,6 +14,7 @@ import sys
 import codecs
 import logging
 import tempfile
+import traceback
 if sys.version_info[0] == 2:
 	from itertools import imap as map  # pylint: disable=E0611,W0622
 import multiprocessing
@@ -152,7 +153,7 @@ def regular(filenames, numproc, limit, encoding):
 		mymap, myworker = map, worker
 	else:  # multiprocessing, start worker processes
 		pool = multiprocessing.Pool(
-				processes=numproc, initializer=initworker,
+				processes=numproc, initializer=mpinitworker,
 				initargs=(filenames[0], filenames[1] if len(filenames) == 2
 					else None, limit, encoding))
 		mymap, myworker = pool.imap, mpworker
@@ -333,6 +334,24 @@ def initworker(filename1, filename2, limit, encoding):
 	logging.info('%s%r', m, PARAMS['vocab'])
 
 
+def mpinitworker(filename1, filename2, limit, encoding):
+	"""Initialize a worker process (multiprocessing wrapper).
+
+	A process that fails here would be replaced by a new one for ever;
+	instead, let its tasks report the error."""
+	try:
+		initworker(filename1, filename2, limit, encoding)
+	except Exception:  # pylint: disable=broad-except
+		PARAMS['initerror'] = traceback.format_exc()
+
+
+def checkinitworker():
+	"""Raise an error if this worker process could not be initialized."""
+	if PARAMS.get('initerror'):
+		raise ValueError('worker process could not be initialized:\n%s'
+				% PARAMS['initerror'])
+
+
 def initworkersimple(trees, sents, trees2=None, sents2=None):
 	"""Initialization for a worker in which a treebank was already loaded."""
 	PARAMS.update(_fragments.getctrees(zip(trees, sents),
@@ -343,6 +362,7 @@ def initworkersimple(trees, sents, trees2=None, sents2=None):
 @workerfunc
 def mpworker(interval):
 	"""Worker function for fragment extraction (multiprocessing wrapper)."""
+	checkinitworker()
 	return worker(interval)
 
 
@@ -365,6 +385,7 @@ def worker(interval):
 @workerfunc
 def mpexactcountworker(args):
 	"""Worker function for counts (multiprocessing wrapper)."""
+	checkinitworker()
 	return exactcountworker(args)
 
 
-- 
2.43.0


From a93ba0d9aca65feefadc08903b0e8a9fbc1d189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 35/64] fix: readgrammars: apply same label mappings as when
 grammars are made

Loading the grammars of an experiment with a DOP stage pruned by another
stage used different regular expressions for the mapping to coarse labels than
getgrammars(), so that a re-run of an experiment gave different parses.
---
 discodop/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index d6329c6..6a93cdb 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -751,15 +751,18 @@ def readgrammars(resultdir, stages, postagging=None,
 						None, neverblockre=re.compile('.+}<'), debug=False)
 				if n and stage.prune:
 					_ = gram.getmapping(stages[prevn].grammar,
-						striplabelre=re.compile('@.+$'),
-						neverblockre=re.compile('^#[0-9]+|.+}<'),
+						striplabelre=None if stages[prevn].dop
+							else re.compile('@.+$'),
+						neverblockre=re.compile('.+}<'),
 						splitprune=not stage.split and stages[prevn].split,
 						markorigin=stages[prevn].markorigin,
 						mapping=stage.mapping, debug=False)
 			else:  # dop reduction
 				if n and stage.prune:
 					_ = gram.getmapping(stages[prevn].grammar,
-						striplabelre=re.compile(r'@[-0-9]+(?:\$\[.*\])?$'),
+						striplabelre=None if stages[prevn].dop
+							and stages[prevn].dop not in ('doubledop', 'dop1')
+							else re.compile(r'@[-0-9]+(?:\$\[.*\])?$'),
 						neverblockre=re.compile(stage.neverblockre)
 							if stage.neverblockre else None,
 						splitprune=not stage.split and stages[prevn].split,
-- 
2.43.0


From 1ae108de450a98a3b9f6eb5ff66d74f651e4f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 36/64] fix: openread: an empty .gz file is truncated, not an
 empty text

Python's gzip module reads a zero-length file as empty data; after a crash
or full disk, an empty .backtransform.gz led to a segmentation fault.
---
 discodop/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/util.py b/discodop/util.py
index 7fdda02..655205a 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -109,6 +109,9 @@ def openread(filename, encoding='utf8'):
 		return open(sys.stdin.fileno(), mode=mode, encoding=encoding)
 	if not isinstance(filename, int):
 		if filename.endswith('.gz'):
+			# a valid gzip file has a header, even if it has no contents.
+			if os.path.isfile(filename) and not os.path.getsize(filename):
+				raise EOFError('%s: unexpected end of file' % filename)
 			return gzip.open(filename, mode=mode, encoding=encoding)
 		elif filename.endswith('.zst'):
 			return genericdecompressor('zstd', filename, encoding)
-- 
2.43.0


From 7ffaaa16222ccb8a34e3e7248556a0774dbf0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 37/64] fix: grammar param: store closed class words like
 runexp does

The unknown word model of a grammar made with 'grammar param' differed from
the one used when parsing with it.
---
 discodop/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..15cc01c 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -447,6 +447,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.transformations, prm.relationalrealizational, resultdir)
 		if prm.postagging and prm.postagging.method == 'unknownword':
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
+			with open(resultdir + '/closedclasswords.txt', 'w') as out:
+				out.writelines(w + '\n' for w in lexmodel[3])
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-- 
2.43.0


From 54d67bec302fa1a01a0a6723ebf4d84e4ed7b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 38/64] fix: write params.prm atomically

A parameter file that was cut off by a full disk or crash could still be read,
leading to parses with other parameters without any error.
---
 discodop/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 15cc01c..a37edbd 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -192,10 +192,12 @@ overwritten."""
 			paramlines = inp.readlines()
 		if paramlines[0].startswith("top='"):
 			paramlines = paramlines[1:]
+		# the presence of this file signals a complete set of grammars
 		outfile = os.path.join(resultdir, 'params.prm')
-		with io.open(outfile, 'w', encoding='utf8') as out:
+		with io.open(outfile + '.tmp', 'w', encoding='utf8') as out:
 			out.write("top='%s',\n" % top)
 			out.writelines(paramlines)
+		os.replace(outfile + '.tmp', outfile)
 
 
 def treetransforms():
@@ -492,8 +494,9 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.numproc, lexmodel, trees[0].label)
 		paramfile = os.path.join(resultdir, 'params.prm')
 		with openread(args[1]) as inp:
-			with io.open(paramfile, 'w', encoding='utf8') as out:
+			with io.open(paramfile + '.tmp', 'w', encoding='utf8') as out:
 				out.write("top='%s',\n%s" % (trees[0].label, inp.read()))
+		os.replace(paramfile + '.tmp', paramfile)
 		return  # grammars have already been written
 	if opts.get('--dopestimator', 'rfe') != 'rfe':
 		xgrammar = [(rule, w) for (rule, _), w in
-- 
2.43.0


From e9cefc049cfdde4ba6cc6a8aa16387911705ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 39/64] fix: order of grammar rules should not depend on how
 grammar was loaded

Rules loaded from a cached binary grammar are sorted from another initial
order; ties were broken differently, so that another derivation was found.
---
 discodop/_grammar.pxi | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 48b0407..5129a80 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -29,9 +29,14 @@ cdef bool lt0(const ProbRule &a, const ProbRule &b) nogil:
 cdef bool lt1(const ProbRule &a, const ProbRule &b) nogil:
 	# sort unaries by rhs1 first, then by lhs, so that we can do
 	# incremental binary search for the unaries of a given rhs1.
-	return a.lhs < b.lhs if a.rhs1 == b.rhs1 else a.rhs1 < b.rhs1
+	# rule no as final criterion: result should not depend on original order.
+	if a.rhs1 != b.rhs1:
+		return a.rhs1 < b.rhs1
+	return a.no < b.no if a.lhs == b.lhs else a.lhs < b.lhs
 cdef bool lt2(const ProbRule &a, const ProbRule &b) nogil:
-	return a.prob < b.prob if a.rhs2 == b.rhs2 else a.rhs2 < b.rhs2
+	if a.rhs2 != b.rhs2:
+		return a.rhs2 < b.rhs2
+	return a.no < b.no if a.prob == b.prob else a.prob < b.prob
 
 
 @cython.final
-- 
2.43.0


From 4b36306be436ffd3cb745815444d5d4896a80f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 40/64] fix: caches of grammars and training trees

- replace caches only when complete; a partially written cache led to
  segmentation faults
- write vocab.idx before train.ct, since only the latter is checked
- keep alternative weights with a cached grammar (KeyError: 'ewe')
- do not use a cached grammar when the original grammar is newer
---
 discodop/_grammar.pxi  | 11 +++++++----
 discodop/parser.py     | 21 ++++++++++++++-------
 discodop/treesearch.py | 29 ++++++-----------------------
 discodop/util.py       | 17 +++++++++++++++++
 4 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 5129a80..01b0260 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -183,12 +183,14 @@ cdef class Grammar:
 			buf.tofile(outfile)
 
 	@classmethod
-	def frombinfile(cls, filename, rulesfile, lexiconfile, backtransform=None):
+	def frombinfile(cls, filename, rulesfile, lexiconfile, altweights=None,
+			backtransform=None):
 		"""Load grammar from cached binary file.
 
 		:param filename: file produced by tobinfile() method; format subject to
 			change, recreate as needed.
-		:param rulesfile: original grammar file, used only when pickling."""
+		:param rulesfile: original grammar file, used only when pickling.
+		:param altweights: filename with numpy arrays of alternative weights."""
 		cdef Grammar ob = Grammar.__new__(Grammar)
 		cdef bytes data
 		cdef char *ptr
@@ -209,8 +211,9 @@ cdef class Grammar:
 		ob.maxfanout = 1
 		ob.logprob = True
 		ob.bitpar = False
-		ob.models = {}
-		ob.altweightsfile = ob.ruletuples = None
+		ob.models = {} if altweights is None else None
+		ob.altweightsfile = altweights
+		ob.ruletuples = None
 		# read file
 		with open(filename, 'rb') as inp:
 			data = inp.read()
diff --git a/discodop/parser.py b/discodop/parser.py
index 6a93cdb..4e2dcdd 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -28,7 +28,7 @@ from .treebank import writetree, handlefunctions
 from .heads import saveheads, readheadrules, applyheadrules
 from .punctuation import punctprune, applypunct
 from .functiontags import applyfunctionclassifier
-from .util import workerfunc, openread
+from .util import workerfunc, openread, replacefile
 from .treetransforms import binarizetree, binarize, splitdiscnodes
 from .grammar import UniqueIDs
 from .kbest import partitionincompletechart
@@ -208,8 +208,11 @@ class Parser(object):
 					prm.relationalrealizational)
 			result = _fragments.getctrees(zip(trees, sents))
 			self.ctrees, self.vocab = result['trees1'], result['vocab']
-			self.ctrees.tofile('%s/train.ct' % prm.resultdir)
-			self.vocab.tofile('%s/vocab.idx' % prm.resultdir)
+			# NB: vocab.idx should be in place before train.ct
+			with replacefile('%s/vocab.idx' % prm.resultdir) as filename:
+				self.vocab.tofile(filename)
+			with replacefile('%s/train.ct' % prm.resultdir) as filename:
+				self.ctrees.tofile(filename)
 		self.newctrees = Ctrees()
 		m = 0
 		for n, stage in enumerate(prm.stages):
@@ -728,14 +731,18 @@ def readgrammars(resultdir, stages, postagging=None,
 			if stage.dop in ('doubledop', 'dop1'):
 				backtransform = openread('%s/%s.backtransform.gz' % (
 						resultdir, stage.name)).read().splitlines()
-			if cache and os.path.exists('%s/%s.g' % (resultdir, stage.name)):
-				gram = Grammar.frombinfile('%s/%s.g' % (resultdir, stage.name),
-						rules, lexicon, backtransform=backtransform)
+			cachefile = '%s/%s.g' % (resultdir, stage.name)
+			if (cache and os.path.exists(cachefile)
+					and os.path.getmtime(cachefile) > max(
+						os.path.getmtime(rules), os.path.getmtime(lexicon))):
+				gram = Grammar.frombinfile(cachefile, rules, lexicon,
+						altweights=probsfile, backtransform=backtransform)
 			else:
 				gram = Grammar(rules, lexicon, start=top, altweights=probsfile,
 						backtransform=backtransform)
 				if cache:
-					gram.tobinfile('%s/%s.g' % (resultdir, stage.name))
+					with replacefile(cachefile) as filename:
+						gram.tobinfile(filename)
 		if n and stage.prune:
 			prevn = [a.name for a in stages].index(stage.prune)
 		if stage.mode == 'mc-rerank':
diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index a057446..b69172d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -16,7 +16,6 @@ import tempfile
 import subprocess
 import multiprocessing
 import concurrent.futures
-from contextlib import contextmanager
 from itertools import islice
 from collections import Counter, OrderedDict, namedtuple
 try:
@@ -29,7 +28,8 @@ from . import treebank, _fragments
 from .tree import (Tree, DrawTree, DiscTree, brackettree, discbrackettree,
 		ptbunescape)
 from .treetransforms import binarize, mergediscnodes, handledisc
-from .util import which, workerfunc, openread, readbytes, run, ANSICOLOR
+from .util import (which, workerfunc, openread, readbytes, run, replacefile,
+		ANSICOLOR)
 from .containers import Vocabulary, FixedVocabulary, Ctrees
 
 SHORTUSAGE = '''Search through treebanks with queries.
@@ -234,7 +234,7 @@ class TgrepSearcher(CorpusSearcher):
 						tmp.write(readbytes(filename))
 						origfile = tmp.name
 				try:
-					with _replacefile(internalfilename) as tmpname:
+					with replacefile(internalfilename) as tmpname:
 						args = [which('tgrep2'), '-p', origfile, tmpname]
 						returncode, _, stderr = run(args=args)
 						if 'must use the -K flag' in stderr.decode('utf8'):
@@ -576,13 +576,13 @@ class FragmentSearcher(CorpusSearcher):
 				fmt = ext[filename.rsplit('.', 1)[1]]
 				corpus = _fragments.readtreebank(filename, self.vocab, fmt=fmt)
 				corpus.indextrees(self.vocab)
-				with _replacefile('%s.ct' % filename) as tmp:
+				with replacefile('%s.ct' % filename) as tmp:
 					corpus.tofile(tmp)
 				newvocab = True
 			if inmemory:
 				self.files[filename] = Ctrees.fromfile('%s.ct' % filename)
 		if newvocab:
-			with _replacefile(self.vocabpath) as tmp:
+			with replacefile(self.vocabpath) as tmp:
 				self.vocab.tofile(tmp)
 		self.macros = None
 		if macros:
@@ -870,7 +870,7 @@ class RegexSearcher(CorpusSearcher):
 			self.lineindex = tmp
 		else:
 			tmp = [_indexfile(name) for name in sorted(files)]
-			with _replacefile(self.lineidxpath) as tmpname:
+			with replacefile(self.lineidxpath) as tmpname:
 				self.lineindex = MultiRoaringBitmap(tmp, filename=tmpname)
 		if inmemory:
 			for filename in self.files:
@@ -1229,23 +1229,6 @@ def _indexpath(files, name):
 			'%s-%s.idx' % (name, digest))
 
 
-@contextmanager
-def _replacefile(filename):
-	"""Create or replace a file only once its contents are complete.
-
-	Yields a temporary filename in the same directory (with the same extension)
-	which becomes `filename` when the block ends without an exception."""
-	root, ext = os.path.splitext(filename)
-	tmpname = '%s.tmp%d%s' % (root, os.getpid(), ext)
-	try:
-		yield tmpname
-		os.replace(tmpname, filename)
-	except BaseException:
-		if os.path.exists(tmpname):
-			os.unlink(tmpname)
-		raise
-
-
 class NoFuture(object):
 	"""A non-asynchronous version of concurrent.futures.Future."""
 
diff --git a/discodop/util.py b/discodop/util.py
index 655205a..89d7083 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -126,6 +126,23 @@ def readbytes(filename):
 		return inp.read()
 
 
+@contextmanager
+def replacefile(filename):
+	"""Create or replace a file only once its contents are complete.
+
+	Yields a temporary filename in the same directory (with the same extension)
+	which becomes `filename` when the block ends without an exception."""
+	root, ext = os.path.splitext(filename)
+	tmpname = '%s.tmp%d%s' % (root, os.getpid(), ext)
+	try:
+		yield tmpname
+		os.replace(tmpname, filename)
+	except BaseException:
+		if os.path.exists(tmpname):
+			os.unlink(tmpname)
+		raise
+
+
 def slice_bounds(seq, slice_obj, allow_step=False):
 	"""Calculate the effective (start, stop) bounds of a slice.
 
-- 
2.43.0


From 8854c7d3a2ee044322f179160460033bef0e8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 41/64] fix: treedraw: do not ignore I/O errors

---
 discodop/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/cli.py b/discodop/cli.py
index a37edbd..f9daf74 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -50,6 +50,7 @@ def treedraw():
 
 If no treebank is given, input is read from standard input; format is detected.
 Pipe the output through 'less -R' to preserve the colors."""
+	from errno import EPIPE
 	from getopt import gnu_getopt, GetoptError
 	from itertools import islice, chain
 	from .treebank import READERS, incrementaltreereader
@@ -154,6 +155,9 @@ Pipe the output through 'less -R' to preserve the colors."""
 	elif output in ('tikznode', 'tikzmatrix', 'tikzqtree'):
 		print(DrawTree.templates['latex'][1])  # postamble
 
+		except IOError as err:
+			if err.errno != EPIPE:  # i.e., output truncated with e.g. head
+				raise
 
 def runexp(args=None):
 	"""Usage: discodop runexp <parameter file> [--rerun]
-- 
2.43.0


From 844205f959fd9ec8f82be3a46722a20903713483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 42/64] fix: parser: sentences without parse with --simple;
 (number of subtrees, probability) pairs

---
 discodop/parser.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 4e2dcdd..db81dc8 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -488,10 +488,12 @@ class Parser(object):
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
 				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
-				from .runexp import dobinarization
-				tree = dobinarization([tree], [sent],
-						self.prm.binarization,
-						self.prm.relationalrealizational, logmsg=False)[0]
+				if self.prm.binarization:
+					from .runexp import dobinarization
+					tree = dobinarization([tree], [sent],
+							self.prm.binarization,
+							self.prm.relationalrealizational,
+							logmsg=False)[0]
 				parsetrees = [(str(tree), prob, None)]
 				partialparse = True
 			if stage.name in (stage.prune for stage in self.stages):
@@ -828,10 +830,21 @@ def probstr(prob):
 
 def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
+def probcomment(prob):
+	"""Render probability as comment for parse tree, in full precision."""
+	if isinstance(prob, tuple):
+		return 'subtrees=%d, prob=%.16g' % (abs(prob[0]), prob[1])
+	return 'prob=%.16g' % prob
+
+
 	if prob1 == 1:
 		return prob2
 	elif isinstance(prob2, tuple):
-		return (prob1[0] + prob2[1], prob1[1] * prob2[1])
+		return (prob2[0], prob1 * prob2[1])
+	elif isinstance(prob1, tuple) and isinstance(prob2, tuple):
+		return (prob1[0] + prob2[0], prob1[1] * prob2[1])
+	elif isinstance(prob1, tuple):
+		return (prob1[0], prob1[1] * prob2)
 	return prob1 * prob2
 
 
@@ -970,12 +983,12 @@ def worker(args):
 	if result.noparse:
 		msg += '\nNo parse for "%s"' % ' '.join(sent)
 		if PARAMS.printprob:
-			output += 'prob=%.16g\n' % result.prob
+			output += '%s\n' % probcomment(result.prob)
 		output += writetree(
 				result.parsetree, sent,
 				key if PARAMS.numparses == 1 else ('%s-1' % key),
 				PARAMS.fmt, morphology=PARAMS.morphology,
-				comment=('prob=%.16g' % result.prob)
+				comment=probcomment(result.prob)
 					if PARAMS.printprob else None)
 	else:
 		tmp = []
@@ -988,7 +1001,7 @@ def worker(args):
 					tree, sent,
 					key if PARAMS.numparses == 1 else ('%s-%d' % (key, k)),
 					PARAMS.fmt, morphology=PARAMS.morphology,
-					comment=('prob=%.16g' % prob)
+					comment=probcomment(prob)
 						if PARAMS.printprob else None))
 		output += ''.join(tmp)
 	sec = process_time() - begin
-- 
2.43.0


From d1b3dbdf4c4e102a5605284949cdbfdfbf6d4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 43/64] fix: grammar merge rules: weights were listed with the
 next rule

---
 discodop/grammar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..526467f 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1213,9 +1213,9 @@ def sumrules(iterable, n):
 		if rule != prev:
 			if prev is not None:
 				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
+					yield '%g\t%s\n' % (w1 / n, prev)
 				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+					yield '%s\t%g\n' % (prev, w1 / n)
 			prev = rule
 			w1 = 0.0
 		if match.group('RULE1') is None:
@@ -1223,6 +1223,8 @@ def sumrules(iterable, n):
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
 	if match.group('RULE1') is None:
+	if prev is None:
+		return
 		yield '%g\t%s\n' % (w1 / n, rule)
 	else:
 		yield '%s\t%g\n' % (rule, w1 / n)
-- 
2.43.0


From 5ec4749f19d7a8d9c338f663d4df4c163226c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 44/64] fix: treetransforms: --outputenc was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index f9daf74..2eb8b9c 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -351,7 +351,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From ab5f93e4994b2ba7d150cf7ae43af922415e25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 45/64] fix: grammar ptsg: weights of fragments without indices
 were converted twice

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 2eb8b9c..d37aa63 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -462,7 +462,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
-- 
2.43.0


From 02ed2e6378d724758e56dd05b090e085da537f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 46/64] fix: use openread() in with-statements, to support
 .zst/.lz4 and plain files everywhere

---
 discodop/_fragments.pyx | 30 +++++++++++++++---------------
 discodop/cli.py         | 28 +++++++++++++++++-----------
 discodop/grammar.py     | 32 ++++++++++++++++++--------------
 discodop/parser.py      | 19 +++++++++++--------
 4 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..6058dd0 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -1230,21 +1230,21 @@ def readtreebank(treebankfile, Vocabulary vocab,
 		stack = clone(shortarray, 0, False)
 		labels = clone(intarray, 0, False)
 		children = []  # list of lists
-		data = openread(treebankfile, encoding=encoding)
-		for n, line in enumerate(islice(data, limit), 1):
-			cnt = line.count('(')
-			if cnt > maxnodes:
-				maxnodes = 2 * cnt
-				scratch = <Node *>realloc(scratch,
-						maxnodes * binfactor * sizeof(Node))
-				if scratch is NULL:
-					raise MemoryError('allocation error')
-			cnt = readtree(line, vocab, scratch, stack, labels, children)
-			if cnt <= 0:
-				raise ValueError('error %d in line %d: %s\n%s' % (
-						cnt, n, TREEPARSEMSG[-cnt], line))
-			ctrees.addnodes(scratch, cnt, 0)
-			del labels[:], children[:]
+		with openread(treebankfile, encoding=encoding) as data:
+			for n, line in enumerate(islice(data, limit), 1):
+				cnt = line.count('(')
+				if cnt > maxnodes:
+					maxnodes = 2 * cnt
+					scratch = <Node *>realloc(scratch,
+							maxnodes * binfactor * sizeof(Node))
+					if scratch is NULL:
+						raise MemoryError('allocation error')
+				cnt = readtree(line, vocab, scratch, stack, labels, children)
+				if cnt <= 0:
+					raise ValueError('error %d in line %d: %s\n%s' % (
+							cnt, n, TREEPARSEMSG[-cnt], line))
+				ctrees.addnodes(scratch, cnt, 0)
+				del labels[:], children[:]
 		if not ctrees.len:
 			raise ValueError('%r appears to be empty' % treebankfile)
 	free(scratch)
diff --git a/discodop/cli.py b/discodop/cli.py
index d37aa63..87c960a 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -52,7 +52,7 @@ If no treebank is given, input is read from standard input; format is detected.
 Pipe the output through 'less -R' to preserve the colors."""
 	from errno import EPIPE
 	from getopt import gnu_getopt, GetoptError
-	from itertools import islice, chain
+	from itertools import islice
 	from .treebank import READERS, incrementaltreereader
 	from .tree import DrawTree, frontier
 	from .util import openread
@@ -61,6 +61,13 @@ Pipe the output through 'less -R' to preserve the colors."""
 	except ImportError:
 		izip = zip
 
+	def readlines(filenames, encoding):
+		"""Read lines from a sequence of files."""
+		for filename in filenames:
+			with openread(filename, encoding=encoding) as inp:
+				for line in inp:
+					yield line
+
 	def processtree(tree, sent):
 		"""Produced output for a single tree."""
 		dt = DrawTree(
@@ -127,9 +134,7 @@ Pipe the output through 'less -R' to preserve the colors."""
 		encoding = opts.get('--encoding', 'utf8')
 		if not args:
 			args = ['-']
-		stream = chain.from_iterable(
-				openread(fname, encoding=encoding)
-				for fname in args)
+		stream = readlines(args, encoding)
 		trees = islice(incrementaltreereader(stream,
 				morphology=opts.get('--morphology'),
 				functions=opts.get('--functions'),
@@ -148,16 +153,16 @@ Pipe the output through 'less -R' to preserve the colors."""
 					print(rest or '')
 					print(processtree(tree, sent))
 				n += 1
-		except (IOError, KeyboardInterrupt):
+		except KeyboardInterrupt:
 			pass
+		except IOError as err:
+			if err.errno != EPIPE:  # i.e., output truncated with e.g. head
+				raise
 	if output in ('html', 'svg'):
 		print(DrawTree.templates[output][1])  # postamble
 	elif output in ('tikznode', 'tikzmatrix', 'tikzqtree'):
 		print(DrawTree.templates['latex'][1])  # postamble
 
-		except IOError as err:
-			if err.errno != EPIPE:  # i.e., output truncated with e.g. head
-				raise
 
 def runexp(args=None):
 	"""Usage: discodop runexp <parameter file> [--rerun]
@@ -458,9 +463,10 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: splitweight(weight) for frag, weight
-				in (line.split('\t') for line in openread(treebankfile,
-					encoding=opts.get('--inputenc', 'utf8')))}
+		with openread(treebankfile,
+				encoding=opts.get('--inputenc', 'utf8')) as inp:
+			xfragments = {frag: splitweight(weight) for frag, weight
+					in (line.split('\t') for line in inp)}
 		if STRTERMRE.search(next(iter(xfragments))) is not None:
 			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 526467f..21159a7 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -6,6 +6,7 @@ import codecs
 from operator import mul, itemgetter
 from itertools import count, islice, repeat
 from collections import defaultdict, Counter, OrderedDict
+from contextlib import ExitStack
 import numpy as np
 from .tree import (Tree, ParentedTree, ImmutableTree, DiscTree,
 		escape, unescape, brackettree, writediscbrackettree)
@@ -1155,16 +1156,16 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
-		match = RULERE.match(line)
-		if (match.group('LHS1') or match.group('LHS2')) != label:
-			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
-			cnt = freq = 0
-			label = (match.group('LHS1') or match.group('LHS2'))
-		cnt += 1
-		freq += float((match.group('FREQ1') or match.group('FREQ2')))
+	with openread(filename) as inp:
+		for line in inp:
+			match = RULERE.match(line)
+			if (match.group('LHS1') or match.group('LHS2')) != label:
+				if label is not None:
+					print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				cnt = freq = 0
+				label = (match.group('LHS1') or match.group('LHS2'))
+			cnt += 1
+			freq += float((match.group('FREQ1') or match.group('FREQ2')))
 	if label is not None:
 		print('%s\t%d\t%g' % (label, cnt, freq))
 
@@ -1222,9 +1223,9 @@ def sumrules(iterable, n):
 			w1 += convertweight(match.group('FREQ2'))
 		else:
 			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
 	if prev is None:
 		return
+	if match.group('RULE1') is None:
 		yield '%g\t%s\n' % (w1 / n, rule)
 	else:
 		yield '%s\t%g\n' % (rule, w1 / n)
@@ -1269,9 +1270,12 @@ def sumfrags(iterable, n):
 
 def merge(filenames, outfilename, sumfunc, key):
 	"""Interpolate weights of given files."""
-	openfiles = [iter(openread(filename)) for filename in filenames]
-	with codecs.getwriter('utf8')((gzip.open if outfilename.endswith('.gz')
-			else open)(outfilename, 'wb')) as out:
+	with ExitStack() as stack:
+		openfiles = [iter(stack.enter_context(openread(filename)))
+				for filename in filenames]
+		out = stack.enter_context(codecs.getwriter('utf8')(
+				(gzip.open if outfilename.endswith('.gz')
+				else open)(outfilename, 'wb')))
 		out.writelines(sumfunc(
 				utilmerge(*openfiles, key=key), len(openfiles)))
 
diff --git a/discodop/parser.py b/discodop/parser.py
index db81dc8..cea23b1 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -708,7 +708,8 @@ def readgrammars(resultdir, stages, postagging=None,
 	Expects a directory ``resultdir`` which contains the relevant grammars and
 	the parameter file ``params.prm``, as produced by ``runexp``."""
 	if os.path.exists('%s/mapping.json.gz' % resultdir):
-		mappings = json.load(openread('%s/mapping.json.gz' % resultdir))
+		with openread('%s/mapping.json.gz' % resultdir) as inp:
+			mappings = json.load(inp)
 		for stage, mapping in zip(stages, mappings):
 			stage.mapping = mapping
 	else:
@@ -731,8 +732,9 @@ def readgrammars(resultdir, stages, postagging=None,
 			if not os.path.exists(probsfile):
 				probsfile = None
 			if stage.dop in ('doubledop', 'dop1'):
-				backtransform = openread('%s/%s.backtransform.gz' % (
-						resultdir, stage.name)).read().splitlines()
+				with openread('%s/%s.backtransform.gz' % (
+						resultdir, stage.name)) as inp:
+					backtransform = inp.read().splitlines()
 			cachefile = '%s/%s.g' % (resultdir, stage.name)
 			if (cache and os.path.exists(cachefile)
 					and os.path.getmtime(cachefile) > max(
@@ -828,8 +830,6 @@ def probstr(prob):
 	return 'p=%.4g' % prob
 
 
-def probmult(prob1, prob2):
-	"""Multiply probabilities (and optionally number of subtrees)."""
 def probcomment(prob):
 	"""Render probability as comment for parse tree, in full precision."""
 	if isinstance(prob, tuple):
@@ -837,14 +837,16 @@ def probcomment(prob):
 	return 'prob=%.16g' % prob
 
 
+def probmult(prob1, prob2):
+	"""Multiply probabilities (and optionally number of subtrees)."""
 	if prob1 == 1:
 		return prob2
-	elif isinstance(prob2, tuple):
-		return (prob2[0], prob1 * prob2[1])
 	elif isinstance(prob1, tuple) and isinstance(prob2, tuple):
 		return (prob1[0] + prob2[0], prob1[1] * prob2[1])
 	elif isinstance(prob1, tuple):
 		return (prob1[0], prob1[1] * prob2)
+	elif isinstance(prob2, tuple):
+		return (prob2[0], prob1 * prob2[1])
 	return prob1 * prob2
 
 
@@ -1077,7 +1079,8 @@ def main():
 		rules, lexicon = args[0], args[1]
 		backtransform = None
 		if opts.get('--bt'):
-			backtransform = openread(opts.get('--bt')).read().splitlines()
+			with openread(opts.get('--bt')) as inp:
+				backtransform = inp.read().splitlines()
 		gram = Grammar(rules, lexicon, start=top, backtransform=backtransform)
 		mode = 'pcfg' if gram.maxfanout == 1 else 'plcfrs'
 		stages = []
-- 
2.43.0


From 27abb50f95be05f8a982b6a34fc2cc2f27bd3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 47/64] fix: treesearch: remove temporary file when
 decompressing a corpus for tgrep2 fails

---
 discodop/treesearch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index b69172d..27cfc84 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -229,11 +229,11 @@ class TgrepSearcher(CorpusSearcher):
 					and os.stat(internalfilename).st_mtime
 					> os.stat(filename).st_mtime):
 				origfile = filename
-				if filename.endswith('.gz') or filename.endswith('.zst'):
-					with tempfile.NamedTemporaryFile(delete=False) as tmp:
-						tmp.write(readbytes(filename))
-						origfile = tmp.name
 				try:
+					if filename.endswith('.gz') or filename.endswith('.zst'):
+						with tempfile.NamedTemporaryFile(delete=False) as tmp:
+							origfile = tmp.name
+							tmp.write(readbytes(filename))
 					with replacefile(internalfilename) as tmpname:
 						args = [which('tgrep2'), '-p', origfile, tmpname]
 						returncode, _, stderr = run(args=args)
-- 
2.43.0


From a154e69a8208dd3a8de8f3d90c14404d309482d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 48/64] fix: treesearch: results list corpora in the order
 given, not in order of completion

---
 discodop/treesearch.py | 47 ++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 27cfc84..956b764 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -352,7 +352,7 @@ class TgrepSearcher(CorpusSearcher):
 		# %h the tree matched by the head (first) node of the pattern
 		# %nh the depth-first pre-order node number of the tree head
 		fmt = r'%s\n%w\n%h\n%nh:::\n'
-		result = []
+		result = OrderedDict()  # preserves order of corpora
 		jobs = {}
 		for filename in subset:
 			try:
@@ -360,12 +360,13 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc,
 						maxresults]
 			except KeyError:
+				result[filename] = None
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x)
+				result[filename] = x
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -398,8 +399,8 @@ class TgrepSearcher(CorpusSearcher):
 				x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc, maxresults] = x
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def sents(self, query, subset=None, start=None, end=None, maxresults=100,
 			brackets=False):
@@ -409,19 +410,20 @@ class TgrepSearcher(CorpusSearcher):
 		# %h the tree matched by the head (first) node of the pattern
 		# %yh %zh the terminal index of the first/last terminal in the match
 		fmt = r'%s\n%w\n%h\n%yh\n%zh:::\n'
-		result = []
+		result = OrderedDict()  # preserves order of corpora
 		jobs = {}
 		for filename in subset:
 			try:
 				x = self.cache['sents', query, filename,
 						start, end, brackets, maxresults]
 			except KeyError:
+				result[filename] = None
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
 						filename)] = filename
 			else:
-				result.extend(x)
+				result[filename] = x
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -442,8 +444,8 @@ class TgrepSearcher(CorpusSearcher):
 				x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
 					start, end, brackets, maxresults] = x
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=True, sents=False):
@@ -627,6 +629,7 @@ class FragmentSearcher(CorpusSearcher):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
+				result[filename] = None  # preserve order of corpora
 				jobs[self._submit(
 						_frag_query if self.numproc == 1 else _frag_query_mp,
 						cquery, bitsets, maxnodes, filename, self.vocabpath,
@@ -663,7 +666,7 @@ class FragmentSearcher(CorpusSearcher):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()  # preserves order of corpora
 		jobs = {}
 		cquery = None
 		for filename in subset:
@@ -672,6 +675,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc,
 						maxresults]
 			except KeyError:
+				result[filename] = None
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -681,7 +685,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x)
+				result[filename] = x
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -706,15 +710,15 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, tree, sent, high))
 			self.cache['trees', query, filename, start, end,
 					nofunc, nomorph, detectdisc, mergedisc, maxresults] = x
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def sents(self, query, subset=None, start=None, end=None,
 			maxresults=100, brackets=False):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()  # preserves order of corpora
 		jobs = {}
 		cquery = None
 		for filename in subset:
@@ -722,6 +726,7 @@ class FragmentSearcher(CorpusSearcher):
 				x = self.cache['sents', query, filename,
 						start, end, brackets, maxresults]
 			except KeyError:
+				result[filename] = None
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -731,7 +736,7 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, maxresults, indices=True, trees=True,
 						)] = filename
 			else:
-				result.extend(x)
+				result[filename] = x
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -756,8 +761,8 @@ class FragmentSearcher(CorpusSearcher):
 					x.append((filename, sentno, sent, match1, match2))
 			self.cache['sents', query, filename,
 					start, end, brackets, maxresults] = x
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def extract(self, filename, indices, nofunc=False, nomorph=False,
 			detectdisc=True, mergedisc=False, sents=False):
@@ -907,6 +912,7 @@ class RegexSearcher(CorpusSearcher):
 						'counts', query, filename, start, end, indices, False,
 						breakdown]
 			except KeyError:
+				result[filename] = None  # preserve order of corpora
 				jobs[self._submit(
 						_regex_run_query,
 						pattern, filename, self.fileno[filename],
@@ -926,13 +932,14 @@ class RegexSearcher(CorpusSearcher):
 		subset = subset or self.files
 		if self.macros is not None:
 			query = query.format(**self.macros)
-		result = []
+		result = OrderedDict()  # preserves order of corpora
 		jobs = {}
 		for filename in subset:
 			try:
 				x = self.cache['sents', query, filename,
 						start, end, True, True, maxresults]
 			except KeyError:
+				result[filename] = None
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
@@ -940,7 +947,7 @@ class RegexSearcher(CorpusSearcher):
 						True, True,
 						)] = filename
 			else:
-				result.extend(x)
+				result[filename] = x
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
@@ -949,8 +956,8 @@ class RegexSearcher(CorpusSearcher):
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True,
 					maxresults] = x
-			result.extend(x)
-		return result
+			result[filename] = x
+		return [a for x in result.values() for a in x]
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
 			nofunc=False, nomorph=False, detectdisc=True, mergedisc=True):
-- 
2.43.0


From 26962787705a612052cd58bc5668a0f003c75dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 49/64] fix: fragments: order of fragments depended on hash
 randomization

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 6058dd0..27e4330 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -226,7 +226,7 @@ cdef inline collectfragments(dict fragments, set inter, Node *anodes,
 		bint indices, list tmp, short SLOTS):
 	"""Collect string representations of fragments given as bitsets."""
 	cdef uint64_t *bitset
-	for wrapper in inter:
+	for wrapper in sorted(inter):  # fixed order
 		bitset = getpointer(wrapper)
 		getsubtree(tmp, anodes, bitset, vocab,
 				disc, getroot(bitset, SLOTS))
-- 
2.43.0


From da698927460050bed36bc95a5b364298538ab212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 50/64] fix: write closed class words in a fixed order

---
 discodop/cli.py    | 2 +-
 discodop/runexp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 87c960a..4738765 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -459,7 +459,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		if prm.postagging and prm.postagging.method == 'unknownword':
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
 			with open(resultdir + '/closedclasswords.txt', 'w') as out:
-				out.writelines(w + '\n' for w in lexmodel[3])
+				out.writelines(w + '\n' for w in sorted(lexmodel[3]))
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..64939ba 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -146,7 +146,7 @@ def startexp(
 		if not rerun:
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
 			with open(resultdir + '/closedclasswords.txt', 'w') as out:
-				out.writelines(w + '\n' for w in lexmodel[3])
+				out.writelines(w + '\n' for w in sorted(lexmodel[3]))
 		usetags = False  # make sure gold POS tags are not given to parser
 	else:
 		usetags = True  # give gold POS tags to parser
-- 
2.43.0


From 41b11737ea254fbfea24d3756c56c0377f2a20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 51/64] fix: sl-dop: probabilities and ties depended on hash
 randomization

---
 discodop/disambiguation.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..ae922b5 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -444,10 +444,10 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			derivsfortree[recoverfragments(
 					root, entry.first, chart, backtransform)].add(deriv)
 	# sum over probs of derivations to get probs of parse trees
-	parsetreeprob = {tree: logprobsum([-derivations[d] for d in ds])
+	parsetreeprob = {tree: logprobsum([-derivations[d] for d in sorted(ds)])
 			for tree, ds in derivsfortree.items()}
-	nmostlikelytrees = set(nlargest(sldop_n, parsetreeprob,
-			key=parsetreeprob.get))
+	nmostlikelytrees = nlargest(sldop_n, parsetreeprob,
+			key=parsetreeprob.get)
 
 	model = chart.grammar.currentmodel
 	chart.grammar.switch(u'shortest', logprob=True)
@@ -515,7 +515,7 @@ cdef sldop_simple(int sldop_n, Chart chart):
 			derivsfortree[tree].add(deriv)
 
 	# sum over derivations to get parse trees
-	parsetreeprob = {tree: logprobsum([-derivations[d] for d in ds])
+	parsetreeprob = {tree: logprobsum([-derivations[d] for d in sorted(ds)])
 			for tree, ds in derivsfortree.items()}
 	selectedtrees = nlargest(sldop_n, parsetreeprob, key=parsetreeprob.get)
 
-- 
2.43.0


From cf1f7a13da009e9722158bcfb4e440df868004e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 52/64] fix: treedraw: requests shared files, blocked on output
 of LaTeX

All requests wrote to the same files in /tmp, so that concurrent requests could
receive each other's drawing, or a partial one; when LaTeX failed, the drawing
of a previous request was returned. The pipes for the output of LaTeX were not
read, so that it could block forever.
---
 web/treedraw.py | 64 ++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/web/treedraw.py b/web/treedraw.py
index f48512f..6f47c56 100644
--- a/web/treedraw.py
+++ b/web/treedraw.py
@@ -3,7 +3,8 @@ Optional: pdflatex, tikz, imagemagick."""
 # stdlib
 import io
 import os
-from subprocess import Popen, PIPE
+import tempfile
+from subprocess import run, DEVNULL, CalledProcessError
 # Flask & co
 from flask import Flask, Response
 from flask import request, render_template, redirect, url_for
@@ -120,41 +121,32 @@ def drawtrees(form, dts):
 				for dt in dts) + postamble)
 	if form.get('output', 'text') == 'latex':
 		return Response(latexcode, mimetype='text/plain')
-	with io.open('/tmp/dtree.tex', 'w', encoding='utf8') as tex:
-		tex.write(latexcode)
-	os.chdir('/tmp')
-	proc = Popen('/usr/bin/pdflatex -halt-on-error  /tmp/dtree.tex'.split(),
-			stdin=None, stdout=PIPE, stderr=PIPE, shell=False)
-	proc.wait()
-	if form.get('output', 'text') == 'pdf':
-		try:
-			return send_from_directory('/tmp', 'dtree.pdf',
-					mimetype='application/pdf')
-		except IOError:
-			pass
-		for ext in ('aux', 'log', 'pdf'):
-			os.remove('/tmp/dtree.' + ext)
-	if form.get('output', 'text') == 'png':
-		proc = Popen('/usr/bin/convert -density 125 /tmp/dtree.pdf'
-				' /tmp/dtree.png'.split(),  # -trim
-				stdin=None, stdout=PIPE, stderr=PIPE, shell=False)
-		proc.wait()
-		# set Expires one day ahead (according to server time)
-		# req.headers_out['Expires'] = (
-		# 	datetime.utcnow() + timedelta( 1, 0 )
-		# 	).strftime('%a, %d %b %Y %H:%M:%S UTC')
-		# req.headers_out['Cache-Control'] = 'max-age=604800, public'
-		try:
-			return send_from_directory('/tmp', 'dtree.png',
-					mimetype='image/png')
-		except IOError:
-			pass
-		for filename in ('/tmp/dtree.aux', '/tmp/dtree.log',
-				'/tmp/dtree.tex', '/tmp/dtree.pdf', '/tmp/dtree.png'):
-			try:
-				os.remove(filename)
-			except OSError:
-				break
+	try:
+		result = compilelatex(latexcode, png=form.get('output') == 'png')
+	except (OSError, CalledProcessError) as err:
+		return Response('could not draw tree: %s' % err, status=500,
+				mimetype='text/plain')
+	if form.get('output') == 'png':
+		return Response(result, mimetype='image/png')
+	return Response(result, mimetype='application/pdf')
+
+
+def compilelatex(latexcode, png=False):
+	"""Compile LaTeX code in a temporary directory; returns PDF or PNG data."""
+	with tempfile.TemporaryDirectory() as tmpdir:
+		with io.open(os.path.join(tmpdir, 'dtree.tex'), 'w',
+				encoding='utf8') as tex:
+			tex.write(latexcode)
+		cmds = [['/usr/bin/pdflatex', '-halt-on-error', 'dtree.tex']]
+		if png:
+			cmds.append(['/usr/bin/convert', '-density', '125', 'dtree.pdf',
+					'dtree.png'])
+		for cmd in cmds:
+			run(cmd, cwd=tmpdir, stdin=DEVNULL, stdout=DEVNULL, stderr=DEVNULL,
+					check=True)
+		with open(os.path.join(tmpdir, 'dtree.png' if png else 'dtree.pdf'),
+				'rb') as out:
+			return out.read()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From ca5f2598319bb1c75c345195069baddff1116379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 53/64] fix: web parser: responses depended on other requests

Parse options are attributes of a parser shared by all requests, so that
concurrent requests could be parsed with each other's options, and parsing
itself changes the weights of the grammar. Cached responses were in HTML or
plain text depending on the first request, and contained its sentence and
link. Guessing the language used the weights as left by the last request; ties
depended on the order of directories.
---
 web/parse.py | 195 +++++++++++++++++++++++++++------------------------
 1 file changed, 105 insertions(+), 90 deletions(-)

diff --git a/web/parse.py b/web/parse.py
index b5a1da2..f8d5c4a 100644
--- a/web/parse.py
+++ b/web/parse.py
@@ -15,6 +15,7 @@ import string  # pylint: disable=W0402
 import random
 import logging
 import math
+import threading
 from operator import itemgetter
 from urllib.parse import urlencode
 from flask import Flask, Response, redirect, url_for
@@ -38,6 +39,8 @@ LOG = APP.logger
 LIMIT = 40  # maximum sentence length
 CACHE = SimpleCache()
 PARSERS = {}
+# the parsers are modified by parse options and by parsing itself.
+PARSERLOCK = threading.RLock()
 SHOWFUNC = True  # show function tags in results
 SHOWMORPH = True  # show morphological features in results
 # POS tagged input is tokenized, and every token is of the form "word/POS"
@@ -109,96 +112,21 @@ def parse():
 		if not block:
 			return 'incorrect block argument'
 
-	key = (senttok, tags, est, marg, objfun, coarse, lang, require, block)
+	urlparams = dict(sent=sent, lang=lang, est=est, marg=marg,
+			objfun=objfun, coarse=coarse, html=html)
+	if require:
+		urlparams['require'] = json.dumps(require)
+	if block:
+		urlparams['block'] = json.dumps(block)
+	link = '?' + urlencode(urlparams)
+	key = (senttok, tags, est, marg, objfun, coarse, lang, require, block,
+			html)
 	resp = CACHE.get(key)
 	if resp is None:
-		urlparams = dict(sent=sent, lang=lang, est=est, marg=marg,
-				objfun=objfun, coarse=coarse, html=html)
-		if require:
-			urlparams['require'] = json.dumps(require)
-		if block:
-			urlparams['block'] = json.dumps(block)
-		link = '?' + urlencode(urlparams)
-		PARSERS[lang].stages[-1].estimator = est
-		PARSERS[lang].stages[-1].objective = objfun
-		PARSERS[lang].stages[-1].kbest = marg in ('nbest', 'both')
-		PARSERS[lang].stages[-1].sample = marg in ('sample', 'both')
-		if PARSERS[lang].stages[0].mode.startswith('pcfg') and coarse:
-			PARSERS[lang].stages[0].mode = (
-					'pcfg' if coarse == 'pcfg-posterior' else coarse)
-			if len(PARSERS[lang].stages) > 1:
-				PARSERS[lang].stages[1].k = (1e-5
-						if coarse == 'pcfg-posterior' else 50)
-		results = list(PARSERS[lang].parse(
-				senttok, tags=tags, require=require, block=block))
-		if SHOWMORPH:
-			replacemorph(results[-1].parsetree)
-		if SHOWFUNC:
-			treebank.handlefunctions('add', results[-1].parsetree, pos=True)
-		tree = str(results[-1].parsetree)
-		prob = results[-1].prob
-		parsetrees = results[-1].parsetrees or []
-		parsetrees = heapq.nlargest(10, parsetrees, key=itemgetter(1))
-		parsetrees_ = []
-		LOG.info('[%s] %s', probstr(prob), tree)
-		tree = Tree.parse(tree, parse_leaf=int)
-		result = Markup(DrawTree(tree, senttok).text(
-				unicodelines=True, html=html, funcsep='-'))
-		for tree, prob, x in parsetrees:
-			tree = PARSERS[lang].postprocess(tree, senttok, -1)[0]
-			if SHOWMORPH:
-				replacemorph(tree)
-			if SHOWFUNC:
-				treebank.handlefunctions('add', tree, pos=True)
-			parsetrees_.append((tree, prob, x))
-		if PARSERS[lang].headrules:
-			xtree = PARSERS[lang].postprocess(
-					parsetrees[0][0], senttok, -1)[0]
-			dep = treebank.writedependencies(xtree, senttok, 'conll')
-			depsvg = Markup(DrawDependencies.fromconll(dep).svg())
-		else:
-			dep = depsvg = ''
-		rid = randid()
-		nbest = Markup('\n\n'.join('%d. [%s] '
-				'<a href=\'javascript: toggle("f%s%d"); \'>'
-				'derivation</a>\n'
-				'<span id=f%s%d style="display: none; margin-left: 3em; ">'
-				'Fragments used in the highest ranked derivation'
-				' of this parse tree:\n%s</span>\n%s' % (
-					n + 1,
-					probstr(prob),
-					rid, n + 1,
-					rid, n + 1,
-					'\n\n'.join('%s\n%s' % (w,
-						DrawTree(frag).text(unicodelines=True, html=html))
-						for frag, w in fragments or ()  # if frag.count('(') > 1
-					),
-					DrawTree(tree, senttok).text(
-						unicodelines=True, html=html, funcsep='-'))
-				for n, (tree, prob, fragments) in enumerate(parsetrees_)))
-		deriv = Markup(
-				'Fragments used in the highest ranked derivation'
-				' of best parse tree:\n%s' % (
-					'\n\n'.join('%s\n%s' % (w,
-						DrawTree(frag).text(unicodelines=True, html=html))
-						for frag, w in parsetrees_[0][2] or ()
-						# if frag.count('(') > 1
-					))) if parsetrees_ else ''
-		msg = '\n'.join(stage.msg for stage in results)
-		elapsed = [stage.elapsedtime for stage in results]
-		elapsed = 'CPU time elapsed: %s => %gs' % (
-				' '.join('%gs' % a for a in elapsed), sum(elapsed))
-		info = '\n'.join(('length: %d; lang=%s; est=%s; objfun=%s; marg=%s' % (
-				len(senttok), lang, est, objfun, marg), msg, elapsed,
-				'10 most probable parse trees:',
-				''.join('%d. [%s] %s' % (n + 1, probstr(prob),
-						writediscbrackettree(tree, senttok))
-						for n, (tree, prob, _) in enumerate(parsetrees))
-				+ '\n'))
-		CACHE.set(key, (sent, result, nbest, deriv, info, link, dep, depsvg),
-				timeout=5000)
-	else:
-		(sent, result, nbest, deriv, info, link, dep, depsvg) = resp
+		with PARSERLOCK:
+			resp = getparse(*key)
+		CACHE.set(key, resp, timeout=5000)
+	result, nbest, deriv, info, dep, depsvg = resp
 	if html:
 		return render_template('parsetree.html', sent=sent, result=result,
 				nbest=nbest, deriv=deriv, info=info, link=link, dep=dep,
@@ -208,6 +136,88 @@ def parse():
 				mimetype='text/plain')
 
 
+def getparse(senttok, tags, est, marg, objfun, coarse, lang, require, block,
+		html):
+	"""Parse sentence and prepare visualizations of results."""
+	PARSERS[lang].stages[-1].estimator = est
+	PARSERS[lang].stages[-1].objective = objfun
+	PARSERS[lang].stages[-1].kbest = marg in ('nbest', 'both')
+	PARSERS[lang].stages[-1].sample = marg in ('sample', 'both')
+	if PARSERS[lang].stages[0].mode.startswith('pcfg') and coarse:
+		PARSERS[lang].stages[0].mode = (
+				'pcfg' if coarse == 'pcfg-posterior' else coarse)
+		if len(PARSERS[lang].stages) > 1:
+			PARSERS[lang].stages[1].k = (1e-5
+					if coarse == 'pcfg-posterior' else 50)
+	results = list(PARSERS[lang].parse(
+			senttok, tags=tags, require=require, block=block))
+	if SHOWMORPH:
+		replacemorph(results[-1].parsetree)
+	if SHOWFUNC:
+		treebank.handlefunctions('add', results[-1].parsetree, pos=True)
+	tree = str(results[-1].parsetree)
+	prob = results[-1].prob
+	parsetrees = results[-1].parsetrees or []
+	parsetrees = heapq.nlargest(10, parsetrees, key=itemgetter(1))
+	parsetrees_ = []
+	LOG.info('[%s] %s', probstr(prob), tree)
+	tree = Tree.parse(tree, parse_leaf=int)
+	result = Markup(DrawTree(tree, senttok).text(
+			unicodelines=True, html=html, funcsep='-'))
+	for tree, prob, x in parsetrees:
+		tree = PARSERS[lang].postprocess(tree, senttok, -1)[0]
+		if SHOWMORPH:
+			replacemorph(tree)
+		if SHOWFUNC:
+			treebank.handlefunctions('add', tree, pos=True)
+		parsetrees_.append((tree, prob, x))
+	if PARSERS[lang].headrules:
+		xtree = PARSERS[lang].postprocess(
+				parsetrees[0][0], senttok, -1)[0]
+		dep = treebank.writedependencies(xtree, senttok, 'conll')
+		depsvg = Markup(DrawDependencies.fromconll(dep).svg())
+	else:
+		dep = depsvg = ''
+	rid = randid()
+	nbest = Markup('\n\n'.join('%d. [%s] '
+			'<a href=\'javascript: toggle("f%s%d"); \'>'
+			'derivation</a>\n'
+			'<span id=f%s%d style="display: none; margin-left: 3em; ">'
+			'Fragments used in the highest ranked derivation'
+			' of this parse tree:\n%s</span>\n%s' % (
+				n + 1,
+				probstr(prob),
+				rid, n + 1,
+				rid, n + 1,
+				'\n\n'.join('%s\n%s' % (w,
+					DrawTree(frag).text(unicodelines=True, html=html))
+					for frag, w in fragments or ()  # if frag.count('(') > 1
+				),
+				DrawTree(tree, senttok).text(
+					unicodelines=True, html=html, funcsep='-'))
+			for n, (tree, prob, fragments) in enumerate(parsetrees_)))
+	deriv = Markup(
+			'Fragments used in the highest ranked derivation'
+			' of best parse tree:\n%s' % (
+				'\n\n'.join('%s\n%s' % (w,
+					DrawTree(frag).text(unicodelines=True, html=html))
+					for frag, w in parsetrees_[0][2] or ()
+					# if frag.count('(') > 1
+				))) if parsetrees_ else ''
+	msg = '\n'.join(stage.msg for stage in results)
+	elapsed = [stage.elapsedtime for stage in results]
+	elapsed = 'CPU time elapsed: %s => %gs' % (
+			' '.join('%gs' % a for a in elapsed), sum(elapsed))
+	info = '\n'.join(('length: %d; lang=%s; est=%s; objfun=%s; marg=%s' % (
+			len(senttok), lang, est, objfun, marg), msg, elapsed,
+			'10 most probable parse trees:',
+			''.join('%d. [%s] %s' % (n + 1, probstr(prob),
+					writediscbrackettree(tree, senttok))
+					for n, (tree, prob, _) in enumerate(parsetrees))
+			+ '\n'))
+	return result, nbest, deriv, info, dep, depsvg
+
+
 @APP.route('/parser/favicon.ico')
 def favicon():
 	"""Serve the favicon."""
@@ -232,7 +242,7 @@ def stylecss():
 def loadparsers():
 	"""Load grammars if necessary."""
 	if not PARSERS:
-		for directory in glob.glob('grammars/*/'):
+		for directory in sorted(glob.glob('grammars/*/')):
 			_, lang = os.path.split(os.path.dirname(directory))
 			LOG.info('Loading grammar %r', lang)
 			params = readparam(os.path.join(directory, 'params.prm'))
@@ -266,7 +276,12 @@ def unigramprob(model, sent, smooth=-math.log(1e-20)):
 
 def guesslang(sent):
 	"""Heuristic: pick language that contains most words from input."""
-	probs = {lang: unigramprob(PARSERS[lang], sent) for lang in PARSERS}
+	probs = {}
+	with PARSERLOCK:
+		for lang, parser in PARSERS.items():
+			# probabilities may have been changed by a previous request
+			parser.stages[0].grammar.switch('default', logprob=True)
+			probs[lang] = unigramprob(parser, sent)
 	LOG.info('Lang: %r; Sent: %s', probs, ' '.join(sent))
 	return min(probs, key=probs.get)
 
-- 
2.43.0


From 6ec6cfb4d874cd27c0c115a108a73ef65a0365cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 54/64] fix: RegexSearcher.getinfo counted the end of the file
 as a sentence

---
 discodop/treesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 956b764..08ef8aa 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1029,7 +1029,8 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		# the last offset is the end of the file
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
 			with openread(filename) as inp:
 				data = inp.read()
-- 
2.43.0


From e840b6cfa16a8d139d35548012b9b6c206857589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 55/64] fix: web treesearch: results depended on concurrent
 requests and on leftovers

- parameters of the fragment extraction were shared between requests
- a pickle that could not be read completely, or as old as the corpora was used
- an unreadable password file disabled password protection
- every page with results failed (separator of urlencode),
  as did fragments of results of FragmentSearcher
---
 web/treesearch.py | 112 +++++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 62 deletions(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index ddd47c3..0163bd2 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -9,6 +9,7 @@ import sys
 import json
 import glob
 import logging
+import threading
 from heapq import nlargest
 from datetime import datetime, timedelta
 from operator import itemgetter
@@ -34,6 +35,7 @@ from flask import request, render_template, send_from_directory
 # disco-dop
 from discodop import fragments, treesearch
 from discodop.tree import Tree, DiscTree, DrawTree
+from discodop.util import replacefile
 
 DEBUG = False  # when True: enable debugging interface, disable multiprocessing
 INMEMORY = False  # keep corpora in memory
@@ -53,6 +55,7 @@ logging.basicConfig(
 		format='%(asctime)s %(message)s',
 		datefmt='%Y-%m-%d %H:%M:%S',
 		level=logging.DEBUG)
+FRAGLOCK = threading.Lock()  # fragments.PARAMS is shared by all requests
 APP = Flask(__name__)
 LOG = APP.logger
 
@@ -210,8 +213,7 @@ def counts(form, doexport=False):
 	target = METADATA[form['target']] if form.get('target') else None
 	target2 = METADATA[form['target2']] if form.get('target2') else None
 	if not doexport:
-		url = 'counts?' + urlencode(dict(export='csv', **form),
-				separator=b';')
+		url = 'counts?' + urlparams(dict(export='csv', **form))
 		yield ('Counts from queries '
 				'(<a href="%s">export to CSV</a>):\n' % url)
 	# Combined results of all queries on each file
@@ -291,11 +293,10 @@ def counts(form, doexport=False):
 				out = ('%s (<a href="browsesents?%s">browse</a>)    '
 						'%5d %5.2f %%' % (
 						text.ljust(COLWIDTH)[:COLWIDTH],
-						urlencode(
-							dict(text=textno, sent=1,
+						urlparams(dict(
+								text=textno, sent=1,
 								query=query or form['query'],
-								engine=engine),
-							separator=b';'),
+								engine=engine)),
 						cnt, relfreq[text]))
 				barcode = ''
 				if resultsindices is not None:
@@ -377,7 +378,7 @@ def trees(form):
 	start, end = getslice(form.get('slice'))
 	maxresults = min(int(form.get('maxresults') or TREELIMIT), TREELIMIT)
 	# NB: we do not hide function or morphology tags when exporting
-	url = 'trees?' + urlencode(dict(export='csv', **form), separator=b';')
+	url = 'trees?' + urlparams(dict(export='csv', **form))
 	yield ('<pre>Query: %s\n'
 			'Trees (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
@@ -416,8 +417,8 @@ def trees(form):
 					'|<a href="browsesents?%s">context</a>' % (
 					textno, sentno, ';nofunc' if 'nofunc' in form else '',
 					';nomorph' if 'nomorph' in form else '',
-					urlencode(dict(text=textno, sent=sentno,
-						query=form['query'], engine=engine), separator=b';')))
+					urlparams(dict(text=textno, sent=sentno,
+						query=form['query'], engine=engine))))
 			try:
 				treerepr = DrawTree(tree, sent, highlight=high).text(
 						unicodelines=True, html=True, funcsep='-')
@@ -441,7 +442,7 @@ def sents(form, dobrackets=False):
 	start, end = getslice(form.get('slice'))
 	maxresults = min(int(form.get('maxresults') or SENTLIMIT), SENTLIMIT)
 	url = '%s?%s' % ('trees' if dobrackets else 'sents',
-			urlencode(dict(export='csv', **form), separator=b';'))
+			urlparams(dict(export='csv', **form)))
 	yield ('<pre>Query: %s\n'
 			'Sentences (showing up to %d per text; '
 			'export: <a href="%s">plain</a>, '
@@ -485,8 +486,8 @@ def sents(form, dobrackets=False):
 					'|<a href="browsesents?%s">context</a>' % (
 					textno, sentno, ';nofunc' if 'nofunc' in form else '',
 					';nomorph' if 'nomorph' in form else '',
-					urlencode(dict(text=textno, sent=sentno, highlight=sentno,
-						query=form['query'], engine=engine), separator=b';')))
+					urlparams(dict(text=textno, sent=sentno, highlight=sentno,
+						query=form['query'], engine=engine))))
 			if dobrackets:
 				sent = htmlescape(sent.replace(" )", " -NONE-)"))
 				out = sent.replace(high1, "<span class=r>%s</span>" % high1)
@@ -555,10 +556,9 @@ def fragmentsinresults(form, doexport=False):
 			for a in CORPORA[engine].files}
 	selected = {filenames[TEXTS[n]]: n for n in selectedtexts(form)}
 	start, end = getslice(form.get('slice'))
-	uniquetrees = set()
+	uniquetrees = OrderedDict()  # preserves order of results
 	if not doexport:
-		url = 'fragments?' + urlencode(dict(export='csv', **form),
-				separator=b';')
+		url = 'fragments?' + urlparams(dict(export='csv', **form))
 		yield ('<pre>Query: %s\n'
 				'Fragments (showing up to %d fragments '
 				'in the first %d search results from selected texts;\n'
@@ -567,11 +567,7 @@ def fragmentsinresults(form, doexport=False):
 				% (form['query'] if len(form['query']) < 128
 					else form['query'][:128] + '...',
 					FRAGLIMIT, SENTLIMIT, url))
-	disc = engine != 'tgrep2'
-	if disc:
-		fragments.PARAMS.update(disc=True, fmt='discbracket')
-	else:
-		fragments.PARAMS.update(disc=False, fmt='bracket')
+	disc = engine == 'frag' and CORPORA[engine].disc
 	for n, (_, _, treestr, _, _) in enumerate(CORPORA[engine].sents(
 			form['query'], selected, start, end,
 			maxresults=SENTLIMIT, brackets=True)):
@@ -583,48 +579,35 @@ def fragmentsinresults(form, doexport=False):
 			line = treestr + '\n'
 		else:
 			raise ValueError
-		uniquetrees.add(line.encode('utf8'))
-	if not gotresults and not doexport:
-		yield "No matches."
+		uniquetrees[line.encode('utf8')] = None
+	if not gotresults:
+		if not doexport:
+			yield "No matches."
 		return
 	# TODO: get counts from whole text (preload)
 	import tempfile
-	with tempfile.NamedTemporaryFile(delete=True) as tmp:
+	with FRAGLOCK, tempfile.NamedTemporaryFile(delete=True) as tmp:
 		tmp.writelines(uniquetrees)
 		tmp.flush()
+		fragments.PARAMS.update(
+				disc=disc, fmt='discbracket' if disc else 'bracket')
 		results, approxcounts = fragments.regular([tmp.name], 1, None, 'utf8')
-	if disc:
-		results = nlargest(FRAGLIMIT, zip(results, approxcounts),
-				key=lambda ff: sum(1 for a in ff[0][1] if a) ** 2 * ff[1] ** 0.5)
-	else:
-		results = nlargest(FRAGLIMIT, zip(results, approxcounts),
-				key=lambda ff: sum(1 for _
-				in re.finditer(r'[^ ()]\)', ff[0])) ** 2 * ff[1] ** 0.5)
+	words = re.compile(r'\d=[^ ()]+\)' if disc else r'[^ ()]\)')
+	results = nlargest(FRAGLIMIT, zip(results, approxcounts),
+			key=lambda ff: sum(1 for _ in words.finditer(ff[0])) ** 2
+				* ff[1] ** 0.5)
 	gotresults = False
 	if not doexport:
 		yield "<ol>"
 	for tree, freq in results:
 		gotresults = True
-		if disc:
-			tree, sent = tree
-			sent = ' '.join(a or '' for a in sent)
 		if doexport:
-			if disc:
-				yield '%s\t%s\t%s\n' % (tree, sent, freq)
-			else:
-				yield '%s\t%s\n' % (tree, freq)
+			yield '%s\t%s\n' % (tree, freq)
 		else:
-			if disc:
-				link = '<a href="draw?tree=%s;sent=%s">draw</a>' % (
-						quote(tree.encode('utf8')), quote(sent.encode('utf8')))
-				sent = GETLEAVES.sub(' <font color=red>\\1</font>',
-						htmlescape(' ' + sent + ' '))
-				tree = htmlescape(tree) + ' ' + sent
-			else:
-				link = '<a href="draw?tree=%s">draw</a>' % (
-						quote(tree.encode('utf8')))
-				tree = GETLEAVES.sub(' <font color=red>\\1</font>',
-						htmlescape(tree))
+			link = '<a href="draw?tree=%s">draw</a>' % (
+					quote(tree.encode('utf8')))
+			tree = GETLEAVES.sub(' <font color=red>\\1</font>',
+					htmlescape(tree))
 			tree = GETFRONTIERNTS.sub('(<font color=blue>\\1</font> )', tree)
 			yield "<li>freq=%3d [%s] %s" % (freq, link, tree)
 	if not doexport:
@@ -673,7 +656,7 @@ def style():
 	def generatecsv():
 		"""Generate CSV file."""
 		import csv
-		tmp = io.BytesIO()
+		tmp = io.StringIO()
 		keys = sorted(next(iter(STYLETABLE.values()))) if STYLETABLE else []
 		writer = csv.writer(tmp)
 		writer.writerow(['text'] + keys)
@@ -816,10 +799,9 @@ def browsesents():
 		# results = [htmlescape(a) for a in results]
 		legend = queryparams = ''
 		if request.args.get('query', ''):
-			queryparams = ';' + urlencode(dict(
+			queryparams = ';' + urlparams(dict(
 					query=request.args['query'],
-					engine=engine),
-					separator=b';')
+					engine=engine))
 			queries = querydict(request.args['query'])
 			legend = 'Legend:\t%s\n' % ('\t'.join(
 					'\n<font color=%s>%s</font>' % (COLORS.get(n, 'gray'),
@@ -981,6 +963,11 @@ def dispplot(indices, start, end, width=800.0, runle=False):
 	return result + '</svg>'
 
 
+def urlparams(params):
+	"""Encode parameters with ; as delimiter."""
+	return urlencode(params).replace('&', ';')
+
+
 def selectedtexts(form):
 	"""Find available texts and parse selected texts argument."""
 	selected = set()
@@ -1062,8 +1049,8 @@ def getcorpus():
 		try:
 			with open(picklefile, 'rb') as inp:
 				texts, corpusinfo, styletable = pickle.load(inp)
-		except ValueError:
-			pass
+		except Exception as err:  # pylint: disable=broad-except
+			LOG.warning('cannot read %s: %s', picklefile, err)
 	tfiles = [a for a in sorted(glob.glob(os.path.join(CORPUS_DIR, '*')))
 			if re.search(r'\.mrg(?:\.gz|\.zst)?$', a) is not None]
 	ffiles = [re.sub(r'\.ct$', '', a) for a in sorted(
@@ -1099,7 +1086,7 @@ def getcorpus():
 		picklemtime = os.stat(picklefile).st_mtime
 	currentfiles = {EXTRE.sub('', os.path.basename(filename))
 			for filename in tfiles + ffiles + tokfiles}
-	if (set(texts) != currentfiles or any(os.stat(a).st_mtime > picklemtime
+	if (set(texts) != currentfiles or any(os.stat(a).st_mtime >= picklemtime
 				for a in tfiles + ffiles + tokfiles)
 				or corpusinfo.keys() != corpora.keys()):
 		corpusinfo = {}
@@ -1113,9 +1100,10 @@ def getcorpus():
 				for filename in ffiles or tfiles or tokfiles]
 		styletable = getreadabilitymeasures(
 				[a.len for a in next(iter(corpusinfo.values()))])
-		with open(picklefile, 'wb') as out:
-			pickle.dump((texts, corpusinfo, styletable),
-					out, protocol=-1)
+		with replacefile(picklefile) as tmpname:
+			with open(tmpname, 'wb') as out:
+				pickle.dump((texts, corpusinfo, styletable),
+						out, protocol=-1)
 	if os.path.exists(os.path.join(CORPUS_DIR, 'metadata.csv')):
 		metadata = pandas.read_csv(
 				os.path.join(CORPUS_DIR, 'metadata.csv'), index_col=0)
@@ -1143,7 +1131,7 @@ class JsonSetEncoder(json.JSONEncoder):
 	"""Convert sets to lists for JSON encoding."""
 	def default(self, obj):  # pylint: disable=method-hidden
 		"""Do conversion."""
-		if isinstance(obj, set):
+		if isinstance(obj, (set, range)):
 			return list(obj)
 		return json.JSONEncoder.default(self, obj)
 
@@ -1198,9 +1186,9 @@ LOG.info('corpus loaded.')
 try:
 	with open('treesearchpasswd.txt', 'rt') as fileobj:
 		PASSWD = {a.strip(): b.strip() for a, b
-				in (line.split(':', 1) for line in fileobj)}
+				in (line.split(':', 1) for line in fileobj if line.strip())}
 	LOG.info('password protection enabled.')
-except Exception as err:
+except FileNotFoundError as err:
 	PASSWD = None
 	LOG.info('no password protection: %s', err)
 if __name__ == '__main__':
-- 
2.43.0


From cc5fedb568628abc1cf7211fc112f87a8b72620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 56/64] fix: Ctrees: a failed allocation lost the treebank;
 trees could not be added after unpickling

---
 discodop/containers.pyx | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index c37aee4..bd1532f 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -326,11 +326,15 @@ cdef class Ctrees:
 
 	cpdef alloc(self, int numtrees, long numnodes):
 		"""Initialize an array of trees of nodes structs."""
-		self.max = numtrees
-		self.trees = <NodeArray *>malloc(numtrees * sizeof(NodeArray))
-		self.nodes = <Node *>malloc(numnodes * sizeof(Node))
-		if self.trees is NULL or self.nodes is NULL:
+		cdef NodeArray *trees = <NodeArray *>malloc(
+				numtrees * sizeof(NodeArray))
+		cdef Node *nodes = <Node *>malloc(numnodes * sizeof(Node))
+		if trees is NULL or nodes is NULL:
+			free(trees)
+			free(nodes)
 			raise MemoryError('allocation error')
+		self.trees, self.nodes = trees, nodes
+		self.max = numtrees
 		self.nodesleft = numnodes
 		self.allocated = True
 
@@ -338,13 +342,16 @@ cdef class Ctrees:
 		"""Increase size of array (handy with incremental binarization)."""
 		# based on Python's listobject.c list_resize()
 		cdef numnodes
+		cdef void *tmp
+		if self.trees is not NULL and not self.allocated:
+			raise ValueError('trees cannot be added to read-only Ctrees.')
 		if numtrees > self.max:
 			# overallocate to get linear-time amortized behavior
 			numtrees += (numtrees >> 3) + (3 if numtrees < 9 else 6)
-			self.trees = <NodeArray *>realloc(self.trees,
-					numtrees * sizeof(NodeArray))
-			if self.trees is NULL:
+			tmp = realloc(self.trees, numtrees * sizeof(NodeArray))
+			if tmp is NULL:
 				raise MemoryError('allocation error')
+			self.trees = <NodeArray *>tmp
 			self.max = numtrees
 		if extranodes > self.nodesleft:
 			numnodes = self.numnodes + extranodes
@@ -352,9 +359,10 @@ cdef class Ctrees:
 			# self.nodesleft += (self.max - self.len) * (self.numnodes / self.len)
 			# overallocate to get linear-time amortized behavior
 			numnodes += (numnodes >> 3) + (3 if numnodes < 9 else 6)
-			self.nodes = <Node *>realloc(self.nodes, numnodes * sizeof(Node))
-			if self.nodes is NULL:
+			tmp = realloc(self.nodes, numnodes * sizeof(Node))
+			if tmp is NULL:
 				raise MemoryError('allocation error')
+			self.nodes = <Node *>tmp
 			self.nodesleft = numnodes - self.numnodes
 		self.allocated = True
 
@@ -493,16 +501,16 @@ cdef class Ctrees:
 					prodindex=self.prodindex)
 
 	def __setstate__(self, state):
-		self.len = self.max = state['len']
+		cdef bytes nodes = state['nodes'], trees = state['trees']
+		self.alloc(state['len'], state['numnodes'])
+		memcpy(self.nodes, <char *>nodes, len(nodes))
+		memcpy(self.trees, <char *>trees, len(trees))
+		self.len = state['len']
 		self.numnodes = state['numnodes']
 		self.numwords = state['numwords']
 		self.maxnodes = state['maxnodes']
 		self.prodindex = state['prodindex']
 		self.nodesleft = 0
-		self.nodes = <Node *><char *><bytes>state['nodes']
-		self.trees = <NodeArray *><char *><bytes>state['trees']
-		self.allocated = False
-		self._state = state  # keep reference alive
 
 	def tofile(self, filename):
 		cdef array out
-- 
2.43.0


From 31e0c584035ca85541737f5c8dd56538d68c7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 57/64] fix: Vocabulary: a failed allocation left an
 inconsistent vocabulary

---
 discodop/containers.pyx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index bd1532f..f6479f1 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -684,12 +684,14 @@ cdef inline darray_init(DArray *self, uint8_t itemsize):
 
 cdef inline darray_append_uint32(DArray *self, uint32_t elem):
 	cdef void *tmp
+	cdef size_t capacity
 	if self.len == self.capacity:
-		self.capacity *= 2
-		tmp = realloc(self.d.ptr, self.capacity * self.itemsize)
+		capacity = 2 * self.capacity
+		tmp = realloc(self.d.ptr, capacity * self.itemsize)
 		if tmp is NULL:
 			raise MemoryError
 		self.d.ptr = tmp
+		self.capacity = capacity
 	self.d.asint[self.len] = elem
 	self.len += 1
 
@@ -697,12 +699,14 @@ cdef inline darray_append_uint32(DArray *self, uint32_t elem):
 cdef inline darray_extend(DArray *self, bytes data):
 	cdef void *tmp
 	cdef int n = len(data)
+	cdef size_t capacity
 	if self.len + n >= self.capacity:
-		self.capacity = 2 * (self.capacity + n)
-		tmp = realloc(self.d.ptr, self.capacity * self.itemsize)
+		capacity = 2 * (self.capacity + n)
+		tmp = realloc(self.d.ptr, capacity * self.itemsize)
 		if tmp is NULL:
 			raise MemoryError
 		self.d.ptr = tmp
+		self.capacity = capacity
 	memcpy(&(self.d.aschar[self.len]), <char *>data, n)
 	self.len += n
 
@@ -753,16 +757,21 @@ cdef class Vocabulary:
 		cdef uint32_t n
 		if prod not in self.prods:
 			n = len(self.prods)
-			self.prods[prod] = n
 			darray_extend(&self.prodbuf, prod)
+			self.prods[prod] = n
 			return n
 		return self.prods[prod]
 
 	cdef int _getlabelid(self, str label) except -1:
+		cdef size_t oldlen = self.labelbuf.len
 		if label not in self.labels:
-			self.labels[label] = len(self.labels)
 			darray_extend(&self.labelbuf, label.encode('utf8'))
-			darray_append_uint32(&self.labelidx, self.labelbuf.len)
+			try:
+				darray_append_uint32(&self.labelidx, self.labelbuf.len)
+			except MemoryError:
+				self.labelbuf.len = oldlen
+				raise
+			self.labels[label] = len(self.labels)
 		return self.labels[label]
 
 	cdef str idtolabel(self, uint32_t i):
-- 
2.43.0


From 623839b21865316e5ef6c31d1fb0edb17e3f91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 58/64] fix: Ctrees.fromfilemut: treebank with unseen
 productions was not read back as saved

---
 discodop/containers.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index f6479f1..ceb8ad7 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -594,7 +594,7 @@ cdef class Ctrees:
 					+ ob.len * sizeof(NodeArray)]),
 				ob.numnodes * sizeof(Node))
 		# create mutable copy of mrb
-		ob.prodindex = [RoaringBitmap(a) for a in prodindex]
+		ob.prodindex = [RoaringBitmap(a) if a else None for a in prodindex]
 		return ob
 
 	def addtrees(self, items, Vocabulary vocab, index=True):
-- 
2.43.0


From 468a6a7d9508c7a02aff60941ce186e3cef4d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 59/64] fix: fragments: unchecked and leaked allocations

---
 discodop/_fragments.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 27e4330..08a8068 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -165,6 +165,8 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 	matrix = <uint64_t *>malloc(trees2.maxnodes * SLOTS * sizeof(uint64_t))
 	scratch = <uint64_t *>malloc((SLOTS + 2) * sizeof(uint64_t))
 	if matrix is NULL or scratch is NULL:
+		free(matrix)
+		free(scratch)
 		raise MemoryError('allocation error')
 	end2 = min(end2 or trees2.len, trees2.len)
 	# loop over tree pairs to extract fragments from
@@ -626,6 +628,8 @@ cpdef completebitsets(Ctrees trees, Vocabulary vocab,
 		short SLOTS = BITNSLOTS(maxnodes + 1)
 		uint64_t *scratch = <uint64_t *>malloc((SLOTS + 2) * sizeof(uint64_t))
 		Node *nodes
+	if scratch is NULL:
+		raise MemoryError('allocation error')
 	start, end, unused_step = slice(start, end).indices(trees.len)
 	for n in range(<int>start, <int>end):
 		memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
-- 
2.43.0


From 01f89ba7e08ebe6a9b02ba6bc4cb23980b2d24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 60/64] fix: fragments: twoterminals with productions not
 occurring in second treebank

---
 discodop/_fragments.pyx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 08a8068..bd8e244 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -653,6 +653,11 @@ cpdef completebitsets(Ctrees trees, Vocabulary vocab,
 	return result, bitsets
 
 
+cdef inline getprodindex(Ctrees trees, int prod):
+	"""Return indices of trees with production, or None if it is unseen."""
+	return trees.prodindex[prod] if prod < len(trees.prodindex) else None
+
+
 cdef twoterminals(NodeArray a, Node *anodes,
 		Ctrees trees2, set contentwordprods, set lexicalprods):
 	"""Produce tree pairs that share at least two words.
@@ -663,17 +668,21 @@ cdef twoterminals(NodeArray a, Node *anodes,
 
 	if trees2 is None, pairs (n, m) are such that n < m."""
 	cdef int i, j
-	cdef object tmp, candidates = RoaringBitmap()
+	cdef object tmp, tmp2, candidates = RoaringBitmap()
 	# select candidates from 'trees2' that share productions with tree 'a'
 	# want to select at least 1 content POS tag, 1 other lexical prod
 	for i in range(a.len):
 		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
 			continue
-		tmp = trees2.prodindex[anodes[i].prod]
+		tmp = getprodindex(trees2, anodes[i].prod)
+		if not tmp:  # production does not occur in trees2
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
 					and anodes[j].prod in lexicalprods):
-				candidates |= tmp & trees2.prodindex[anodes[j].prod]
+				tmp2 = getprodindex(trees2, anodes[j].prod)
+				if tmp2:
+					candidates |= tmp & tmp2
 	return candidates
 
 
-- 
2.43.0


From 761d45057b6132c452c471f861a049d3e1938f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 61/64] fix: treesearch web: counts failed for a text with a
 single sentence

---
 web/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/treesearch.py b/web/treesearch.py
index 0163bd2..2cb25c5 100644
--- a/web/treesearch.py
+++ b/web/treesearch.py
@@ -958,7 +958,7 @@ def dispplot(indices, start, end, width=800.0, runle=False):
 			strokes = ['M %d 0v 10' % (idx - start) for idx in sorted(a)]
 		result += ('<g transform="scale(%g, 1)">\n'
 				'<path stroke=%s d="%s" /></g>' % (
-				width / (end - start), COLORS.get(n, 'black'),
+				width / max(1, end - start), COLORS.get(n, 'black'),
 				''.join(strokes)))
 	return result + '</svg>'
 
-- 
2.43.0


From 513d430bc977b56b55f6dfbabf8347e85466cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:01 +0000
Subject: [PATCH 62/64] fix: eval: parameters printed in a fixed order

---
 discodop/eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 1c146ae..05ea306 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -10,6 +10,7 @@ distance, unlabeled dependencies), as well as facilities for error analysis.
 import io
 import sys
 from getopt import gnu_getopt, GetoptError
+from pprint import pformat
 from decimal import Decimal, InvalidOperation
 from collections import defaultdict, Counter  # == multiset
 from itertools import count, zip_longest
@@ -46,7 +47,8 @@ class Evaluator(object):
 		if param['DEBUG'] >= 1:
 			print('Parameters:')
 			for a in param:
-				print('%s\t%s' % (a, param[a]))
+				# NB: pformat gives a fixed order for sets and dictionaries
+				print('%s\t%s' % (a, pformat(param[a], width=sys.maxsize)))
 			for a in HEADER:
 				print(' ' * (self.keylen - 4) + a)
 			print('', '_' * ((self.keylen - 5) + len(HEADER[-1])))
-- 
2.43.0


From 003900bdf6ac6c93291d34973f30529cc75b3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:01 +0000
Subject: [PATCH 63/64] fix: web browse: first sentence was never shown;
 unreadable password file meant no protection

---
 web/browse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/browse.py b/web/browse.py
index 74c8861..b5a874c 100644
--- a/web/browse.py
+++ b/web/browse.py
@@ -203,7 +203,7 @@ def browsetrees():
 		nofunc = 'nofunc' in request.args
 		nomorph = 'nomorph' in request.args
 		filename = os.path.join(CORPUS_DIR, TEXTS[textno] + '.export')
-		trees = CORPORA[filename].itertrees(start, stop)
+		trees = CORPORA[filename].itertrees(start - 1, stop - 1)
 		results = ['<pre id="t%s"%s>%s\n%s</pre>' % (n,
 				' style="display: none; "' if 'ajax' in request.args else '',
 				', '.join('%s: %.3g' % (f, addsentweight(FILTERS[f](item))[1])
@@ -245,7 +245,7 @@ def browsesents():
 		stop = start + chunk
 		filename = os.path.join(CORPUS_DIR, TEXTS[textno] + '.export')
 		feat = request.args.get('feat', next(iter(FILTERS)))
-		trees = list(CORPORA[filename].itertrees(start, stop))
+		trees = list(CORPORA[filename].itertrees(start - 1, stop - 1))
 		results = []
 		values = [addsentweight(FILTERS[feat](item))
 				for n, (_key, item) in enumerate(trees, start)]
@@ -370,9 +370,9 @@ log.info('corpus loaded.')
 try:
 	with open('treesearchpasswd.txt', 'rt') as fileobj:
 		PASSWD = {a.strip(): b.strip() for a, b
-				in (line.split(':', 1) for line in fileobj)}
+				in (line.split(':', 1) for line in fileobj if line.strip())}
 	log.info('password protection enabled.')
-except IOError:
+except FileNotFoundError:
 	log.info('no password protection.')
 if STANDALONE:
 	APP.run(use_reloader=False,
-- 
2.43.0


From f41199b4ca430d3114543920455ef4306502b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:13 +0000
Subject: [PATCH 64/64] fix: alpinocompact: an empty .data.dz file is
 truncated, not an empty corpus

---
 discodop/treebank.py |  5 ++---
 discodop/util.py     | 13 +++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 042cdf7..fac54ff 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -3,7 +3,6 @@ from __future__ import generator_stop
 import os
 import re
 import sys
-import gzip
 from glob import glob
 from itertools import count, chain, islice
 from collections import defaultdict
@@ -14,7 +13,7 @@ from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
 from .heads import applyheadrules, readheadrules, readmodifierrules
-from .util import openread
+from .util import openread, opengzip
 
 FIELDS = tuple(range(6))
 WORD, LEMMA, TAG, MORPH, FUNC, PARENT = FIELDS
@@ -487,7 +486,7 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 		for filename in self._filenames:
 			dzfile = re.sub(r'\.index$', '.data.dz', filename)
 			dirname = os.path.basename(re.sub(r'\.index$', '', filename))
-			with gzip.open(dzfile, 'rb') as inp:
+			with opengzip(dzfile) as inp:
 				for block in ALPINOXML.findall(inp.read()):
 					sentid = ALPINOSENTID.search(block).group(1).decode('utf8')
 					n = '%s/%s' % (dirname, sentid)
diff --git a/discodop/util.py b/discodop/util.py
index 89d7083..ef54b64 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -109,10 +109,7 @@ def openread(filename, encoding='utf8'):
 		return open(sys.stdin.fileno(), mode=mode, encoding=encoding)
 	if not isinstance(filename, int):
 		if filename.endswith('.gz'):
-			# a valid gzip file has a header, even if it has no contents.
-			if os.path.isfile(filename) and not os.path.getsize(filename):
-				raise EOFError('%s: unexpected end of file' % filename)
-			return gzip.open(filename, mode=mode, encoding=encoding)
+			return opengzip(filename, mode=mode, encoding=encoding)
 		elif filename.endswith('.zst'):
 			return genericdecompressor('zstd', filename, encoding)
 		elif filename.endswith('.lz4'):
@@ -120,6 +117,14 @@ def openread(filename, encoding='utf8'):
 	return open(filename, mode=mode, encoding=encoding)
 
 
+def opengzip(filename, mode='rb', encoding=None):
+	"""Open gzip-compressed file for reading."""
+	# a valid gzip file has a header, even if it has no contents.
+	if os.path.isfile(filename) and not os.path.getsize(filename):
+		raise EOFError('%s: unexpected end of file' % filename)
+	return gzip.open(filename, mode=mode, encoding=encoding)
+
+
 def readbytes(filename):
 	"""Read bytes from stdin/file; decompress gz/lz4/zst files on-the-fly."""
 	with openread(filename, encoding=None) as inp:
-- 
2.43.0

