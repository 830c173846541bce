From f26de1048474eddfc5b6f2b2412670df62dafa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 01/74] fix: count the last word of segments not longer than
 the right span

ColFreqHandler.process_right_window stopped one node early, so the last
word of every segment with at most `right-span` words was never counted
as a target.
---
 nephosem/models/typetoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..78f8185 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,10 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            # the number of nodes left is not bound to the remaining steps
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 6e94aa21a5755409a3927f04314cd4751977a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 02/74] fix: collect the tokens of all workers

TokenHandler._process_results read as many queue entries as there are
files, but each worker puts one dict plus an indicator for every job
after its first one. With an idle worker the tokens of another one were
lost.
---
 nephosem/models/typetoken.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 78f8185..4a5568f 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -644,7 +644,9 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # every worker puts its dict (also one that got no file) besides the
+        # indicators, so the number of entries is not the number of files
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From e3b48b4c4485dc12972ef57a10f2bc4b32df9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 03/74] fix: retrieve tokens with a right span of 0

TokenHandler.process_right_window looked into the empty right window and
raised IndexError at the end of a segment without words.
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 4a5568f..53af0a3 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -624,7 +624,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right_span > 0 and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 1240c2d69e5f4dcccdd672a6e1c5e7b8584ce680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 04/74] fix: report failed worker processes

When a worker died (e.g. on an unreadable or undecodable file) the main
process waited for ever for its results, or returned results which
silently lacked its files.
---
 nephosem/core/handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..c95224d 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -148,6 +148,12 @@ class Paralleler(object):
         for worker in workers:
             worker.join()
 
+        # results of a worker which did not end normally are incomplete
+        failed = [worker for worker in workers if worker.exitcode != 0]
+        if failed:
+            raise RuntimeError("{} of {} worker processes failed while processing the files!".format(
+                len(failed), len(workers)))
+
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
         
-- 
2.43.0


From cf19d61efbc4d136096bbca4d1dc37a194263745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 05/74] fix: default temporary directory below the output path

The condition was inverted: with an output path the directory was not
used, without one the constructor raised KeyError.
---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index c95224d..4802d33 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -261,8 +261,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From 12b2d413fe90f0a9fae2b768437d207fcef862b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 06/74] fix: resolve bare names in a fnames file against the
 corpus path

The encoding was passed as the directory name.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 4802d33..c53d4cb 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -297,7 +297,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, self.corpus_path, encoding=self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From 5f56ef456e15f8c41fb4e77aaa08fef232bff4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 07/74] fix: do not insert an item into a vocabulary by reading
 it

A Vocab built from a defaultdict (frequency lists of the corpus handlers)
gained an item with frequency 0 when a missing item was looked up.
---
 nephosem/core/vocab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..7162ea4 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -145,6 +145,8 @@ class Vocab(object):
 
         """
         if utils.is_string(arg):  # 'arg' is a str: e.g. vocab['argument/NN0']
+            if arg not in self.freq_dict and isinstance(self.freq_dict, defaultdict):
+                return self.freq_dict.default_factory()  # do not insert the item
             return self.freq_dict[arg]
         elif isinstance(arg, list):  # vocab[]
             d = dict()
-- 
2.43.0


From 1c989831b3a293cd5300edf5ec8a80934c93ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 08/74] fix: load plain frequency lists with exponents

A frequency written as 1e-05 could not be read back.
---
 nephosem/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..475d8b8 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -267,7 +267,10 @@ def load_dict_plain(filename, encoding='utf-8'):
             pair = line.strip().split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:  # e.g. '0.5', '1e-05'
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From dd2fb89b0fede4e21f05085ba3be4321c439c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 09/74] fix: use vocabularies filled item by item as row and
 column vocabulary

Only a Vocab constructed with data has FILTERPRESENT set. One filled by
increment() or item assignment was not used to restrict rows or columns:
it was changed in the workers and the results could not be collected.
---
 nephosem/models/typetoken.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 53af0a3..79c52d9 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -383,10 +383,10 @@ class ColFreqHandler(BaseHandler):
         match = cnode[0]  # node -> (match, lid) (lid is useful in token level)
         type_ = self.formatter.get_type(match)
 
-        # if row_vocab.FILTERPRESENT is True
+        # if row_vocab is not empty
         # we should use row_vocab to filter the types we encounter
         # otherwise always found target word (type)
-        found = type_ in row_vocab if row_vocab.FILTERPRESENT else True
+        found = type_ in row_vocab if len(row_vocab) > 0 else True
         if not found:  # if not found any type (in the row_vocab), just return
             return
 
@@ -399,7 +399,7 @@ class ColFreqHandler(BaseHandler):
             match, _ = win.left[i]
             colloc = self.formatter.get_colloc(match)
 
-            if not col_vocab.FILTERPRESENT:  # if no given col_vocab
+            if self.nocolvocab:  # if no given col_vocab
                 col_vocab.increment(colloc)  # update the col_vocab
                 mtx_dict[type_][colloc] += 1
             elif colloc in col_vocab:  # if the colloc in the given col_vocab
@@ -414,7 +414,7 @@ class ColFreqHandler(BaseHandler):
             match = win.right[i][0]
             colloc = self.formatter.get_colloc(match)
 
-            if not col_vocab.FILTERPRESENT:
+            if self.nocolvocab:
                 col_vocab.increment(colloc)
                 mtx_dict[type_][colloc] += 1
             elif colloc in col_vocab:
-- 
2.43.0


From f969ca53fa0eaf2f42ca45df50d342545079666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 10/74] fix: do not empty the default temporary directory

Constructing any handler (also one with its own temporary directory)
removed everything below `~/tmp`: the files of the user, the log of the
library and the partial results of other handlers that were running.
---
 nephosem/core/handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index c53d4cb..95f28b8 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From 280c0d54c81496378c411b5099f39d24241b996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 11/74] fix: sum and count matrices with a single row or column

np.squeeze made a 0-dimensional array of the only sum, so sum(), count_nonzero()
and drop() failed.
---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..09988e1 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -865,7 +865,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1126,7 +1126,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From e3f1cc8ebed9ac58b0f4f0636f2295141fbb3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 12/74] fix: accept dense matrices which happen to be symmetric

A dense matrix with different row and column items whose values were
symmetric (e.g. any 1 x 1 submatrix) could not be constructed.
---
 nephosem/core/matrix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 09988e1..d51733b 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -690,9 +690,8 @@ class TypeTokenMatrix(BaseMatrix):
         if isinstance(self.matrix, sp.spmatrix):
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
-            if check_symmetric(self.matrix):
-                if self.row_items != self.col_items:
-                    raise ValueError("The row items and column items are not equal!")
+            # values can be symmetric by chance
+            if check_symmetric(self.matrix) and self.row_items == self.col_items:
                 self._mxbehavior = SquareMatrix(self.matrix)
             else:
                 self._mxbehavior = NormalMatrix(self.matrix)
-- 
2.43.0


From b34969285e29529fa68049d1abc5f43ad3dc4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 13/74] fix: select only rows or only columns of a square
 matrix

Indexing with None added a dimension, so submatrix(row=...) and sample()
failed.
---
 nephosem/core/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index d51733b..8b6998f 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -593,8 +593,11 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix[row]
-        submx = submx[:, col]
+        submx = self.matrix
+        if row is not None:
+            submx = submx[row]
+        if col is not None:
+            submx = submx[:, col]
         return submx
 
     def merge(self, *args):
-- 
2.43.0


From c1b7b0b601a09ead215568cd3039d80813280375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 14/74] fix: data frames of matrices with current pandas

pd.SparseDataFrame and DataFrame.as_matrix no longer exist, so dataframe,
to_csv() of sparse matrices, read_csv() and from_dataframe() failed.
---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 8b6998f..0d80b4d 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -152,7 +152,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1310,7 +1310,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From 11d3615961aeb62547c8e9cf0013cd5e583d5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 15/74] fix: drop_empty of columns when no column is left

As for rows, the result is None.
---
 nephosem/core/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 0d80b4d..9011358 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1121,6 +1121,8 @@ class TypeTokenMatrix(BaseMatrix):
         elif axis == 1:
             tmx = self.transpose()
             dropped_tmx = tmx.drop_empty_rows(explicit=explicit)
+            if dropped_tmx is None:  # no column left
+                return None
             return dropped_tmx.transpose()
         else:
             raise ValueError("axis should be 0 or 1!")
-- 
2.43.0


From fe3d26977648bea7f4c623e227ea4eab86bab690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 16/74] fix: keep sparse matrices in csr format

transpose() and concatenate() gave csc and coo matrices, which were saved
and merged with the wrong cells or could not be indexed.
---
 nephosem/core/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9011358..d15bebc 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -691,6 +691,9 @@ class TypeTokenMatrix(BaseMatrix):
         self._item2colid = None
 
         if isinstance(self.matrix, sp.spmatrix):
+            # slicing, merging and saving assume the csr format
+            if not isinstance(self.matrix, sp.csr_matrix):
+                self.matrix = self.matrix.tocsr()
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
             # values can be symmetric by chance
-- 
2.43.0


From a3f6efcb3f227b0823130d6d0e1b3121893b47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 17/74] fix: merge matrices without stored cells

An empty list of indices became an array of floats.
---
 nephosem/specutils/mxutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..95aa019 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -215,7 +215,7 @@ def transform_indices(mtx, new_col_items):
     glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}
     subidx2glbidx = [glbitem2glbidx[it] for i, it in enumerate(mtx.col_items)]
     # time cost bottleneck (the size of matrix.indices is large)
-    newindices = np.array([subidx2glbidx[i] for i in spmx.indices])
+    newindices = np.array([subidx2glbidx[i] for i in spmx.indices], dtype=spmx.indices.dtype)
     newspmx = sp.csr_matrix((spmx.data, newindices, spmx.indptr), shape=(spmx.shape[0], len(new_col_items)))
     return newspmx
 
-- 
2.43.0


From 5c750412654fb9d33cbd1a4796d86b98ad138657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 18/74] fix: type of a sparse matrix built from a dict

The type of the first value was used for all values and for the indices:
floats after an integer were truncated and large indices lost precision.
---
 nephosem/specutils/mxutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 95aa019..2efdf45 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,9 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
+    row = np.array(row, dtype=int)
+    col = np.array(col, dtype=int)
+    data = np.array(data)
 
     nEles = len(data)
     if verbose:
-- 
2.43.0


From 8f7444f020686222a0b93c3205816659869932a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 19/74] fix: load the kind of matrix that was saved

After saving a dense matrix unpacked under the name of a sparse one,
the older sparse matrix was loaded with the new labels.
---
 nephosem/core/matrix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index d15bebc..2c568f2 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1325,6 +1325,8 @@ class TypeTokenMatrix(BaseMatrix):
         meta_data['row_items'] = self.row_items
         meta_data['col_items'] = self.col_items
         meta_data.update(self.meta_data)
+        # an older file of the other kind may exist beside the new one
+        meta_data['issparse'] = isinstance(self.matrix, sp.spmatrix)
 
         basename, ext = os.path.splitext(filename)
         if pack:
@@ -1400,14 +1402,6 @@ class TypeTokenMatrix(BaseMatrix):
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
         np_fname = "{}.npy".format(basename)
-        issparse = True
-        if os.path.exists(sp_fname):
-            mx_fname = sp_fname
-        elif os.path.exists(np_fname):
-            mx_fname = np_fname
-            issparse = False
-        else:
-            raise ValueError("No such matrix file!")
 
         # TODO: check passed encoding with the encoding in meta data
         # load meta data
@@ -1416,6 +1410,12 @@ class TypeTokenMatrix(BaseMatrix):
         if meta_data is None:
             raise(AttributeError("Matrix meta data load error!"))
 
+        # files of older versions do not tell the kind of matrix
+        issparse = meta_data.get('issparse', os.path.exists(sp_fname))
+        mx_fname = sp_fname if issparse else np_fname
+        if not os.path.exists(mx_fname):
+            raise ValueError("No such matrix file!")
+
         # load matrix
         matrix = np.load(mx_fname)
         if issparse:
-- 
2.43.0


From d3b82582d2373c3bc7379a871d52f1e4d1110daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 20/74] fix: load unpacked matrices whose name ends in .pac

save() keeps the whole name in this case.
---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 2c568f2..b77d7da 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1391,7 +1391,7 @@ class TypeTokenMatrix(BaseMatrix):
 
         """
         basename, ext = os.path.splitext(filename)
-        if ext != '.pac':
+        if ext != '.pac' or not pack:
             basename = filename
         if pack:
             zip_fname = "{}.pac".format(basename)
-- 
2.43.0


From af0d3228ffae373a0dbd6fd814a65497f1673ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 21/74] fix: keep the files next to a matrix package

Saving or loading x.pac overwrote and removed x.meta, x.npz and x.npy in
its directory, and a package could not be loaded after renaming it.
---
 nephosem/core/matrix.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index b77d7da..e0e19fc 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -38,6 +38,7 @@ import codecs
 import json
 import logging
 import os
+import tempfile
 import zipfile
 
 import random
@@ -1340,6 +1341,10 @@ class TypeTokenMatrix(BaseMatrix):
             # filename: '/xxx/BrownNouns.wcmx.freq'
             basename = filename
 
+        if pack:
+            # next to the package its members would replace other files
+            tmp_dir = tempfile.TemporaryDirectory()
+            basename = os.path.join(tmp_dir.name, os.path.basename(basename))
         meta_fname = "{}.meta".format(basename)
         if verbose:
             logger.info("\nSaving matrix...")
@@ -1366,8 +1371,7 @@ class TypeTokenMatrix(BaseMatrix):
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
                 inf.write(meta_fname, os.path.basename(meta_fname))
                 inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            tmp_dir.cleanup()
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
@@ -1395,9 +1399,13 @@ class TypeTokenMatrix(BaseMatrix):
             basename = filename
         if pack:
             zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
+            # next to the package its members would replace other files
+            tmp_dir = tempfile.TemporaryDirectory()
             with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
+                zf.extractall(tmp_dir.name)
+                # the package can have been renamed
+                meta_name = [name for name in zf.namelist() if name.endswith('.meta')][0]
+            basename = os.path.join(tmp_dir.name, meta_name[:-len('.meta')])
 
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
@@ -1423,8 +1431,7 @@ class TypeTokenMatrix(BaseMatrix):
 
         # clean files
         if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            tmp_dir.cleanup()
 
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
-- 
2.43.0


From 9d709187a277168872531be7e601e24916a519ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 22/74] fix: merge dense integer and float matrices

Adding in place cannot change the type of the first matrix.
---
 nephosem/specutils/mxutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 2efdf45..afa999f 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -251,7 +251,7 @@ def merge_matrices(matrices):
         # we can use scipy sparse matrix method to merge matrices
         spmx = matrices[0].matrix.copy()
         for i in range(1, len(matrices)):
-            spmx += matrices[i].matrix
+            spmx = spmx + matrices[i].matrix
         return spmx, row_items, col_items
     else:  # transform sub-matrices to Python dict of dict and merge
         mxdict_list = []
-- 
2.43.0


From 7331d5db40b2bb2ea90638dcf287143eb8e71d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 23/74] fix: compute_ppmi without given marginals

The total was read from nfreq before looking whether it was given, and the
sums of a matrix with one row or one column lost their only dimension.
---
 nephosem/specutils/mxcalc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..9b1da76 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,18 +42,18 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(freqmx.sum() if nfreq is None else nfreq.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.ravel(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.ravel(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
-- 
2.43.0


From 83825afebdd6a4ce4d6ffe1402b1a26c3b79551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 24/74] fix: log-likelihood of a collocate that takes the whole
 total

The collocate-absent column of the table is empty then; it contributes
nothing, but computing it divided by zero.
---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 9b1da76..19501f7 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -250,7 +250,7 @@ def calc_lik(c_a_b, c_na_b, c_a_nb, c_na_nb):
     o11, o21, o12, o22 = float(c_a_b), float(c_na_b), float(c_a_nb), float(c_na_nb)
     p1 = o11 / (o11 + o21)
     p1 = adjust_val(p1)
-    p2 = o12 / (o12 + o22)
+    p2 = o12 / (o12 + o22) if o12 + o22 > 0 else 0.0
     p2 = adjust_val(p2)
     p = (o11 + o12) / (o11 + o12 + o21 + o22)
     p = adjust_val(p)
-- 
2.43.0


From 4a2e085fca855e6da2afc48851622e21f4ec6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 25/74] fix: compute_token_weights with current numpy

np.bool does not exist any more, so every call failed.
---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 19501f7..77e84e1 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From bd7ec1b68cdab2d3d7ab31f8222f5736978fadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 26/74] fix: multiplication of token weights and second order
 values

The test that skips empty second order cells was missing its comparison
and skipped the non-empty ones instead.
---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 77e84e1..b06b281 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From f4612d0fda8b50d87f0ab0fe161023145a309058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:36 +0000
Subject: [PATCH 27/74] fix: most_similar returns k other items when values are
 equal

The item was expected among its own k+1 nearest and removed afterwards;
with equal values it may not be there, and k+1 items came back.
---
 nephosem/core/matrix.py       | 10 ++++++----
 nephosem/specutils/mxutils.py |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index e0e19fc..1408354 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -640,12 +640,14 @@ class SquareMatrix(BaseMatrix):
         a list of elements
 
         """
-        row = self.matrix[rid]
+        # the item itself need not be among the k+1 nearest when values are equal
+        others = np.delete(np.arange(self.matrix.shape[0]), rid)
+        row = self.matrix[rid][others]
         if descending:  # for similarity matrix
-            idx = mxutils.get_largest_k(row, k+1)
+            idx = mxutils.get_largest_k(row, k)
         else:
-            idx = mxutils.get_smallest_k(row, k+1)
-        return idx
+            idx = mxutils.get_smallest_k(row, k)
+        return others[idx]
 
 
 class TypeTokenMatrix(BaseMatrix):
diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index afa999f..b1d6510 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -297,6 +297,8 @@ def get_largest_k(arr, k):
     """
     if k >= arr.shape[0]:
         return np.arange(arr.shape[0])
+    if k == 0:
+        return np.arange(0)  # [-0:] would be everything
     indices = np.argpartition(arr, -k)[-k:]  # see usage of numpy.argpartition
     return indices
 
-- 
2.43.0


From eeeda5f7ed820c7c6b229b5c95f026d9d1b27697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 28/74] fix: a macro without target filter keeps every match

---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..fb55f56 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -612,7 +612,7 @@ class MacroGraph(PatternGraph):
     """
     connector = '/'
 
-    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter={}, feature_filter={}):
+    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter=None, feature_filter={}):
         """
 
         Parameters
-- 
2.43.0


From 73ee9db02694833dec5c582d5ba6cc3a40b437d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 29/74] fix: pattern nodes and edges without constraints match

---
 nephosem/core/graph.py         | 2 +-
 nephosem/specutils/deputils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index fb55f56..b2f6e38 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -477,7 +477,7 @@ class PatternGraph(DiGraph):
             if m is None:
                 return None
             match[attr] = m
-        return match
+        return match  # empty when the pattern node has no constraints
 
     def match_edge(self, edge, idx=0):
         """Match the passing sentence edge with the corresponding edge in the pattern graph.
diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..cab851b 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -183,7 +183,7 @@ def tree_match(sentence, macro):
 
     # iterate over each sentence node that matches the root of the feature
     for v, vitem in sentence.nodes:
-        if not macro.match_node(vitem, idx=froot):
+        if macro.match_node(vitem, idx=froot) is None:
             continue
         mapping = {froot: v}  # mapping of the first level
         # recursively match the sentence with the feature from this node
@@ -346,7 +346,7 @@ def match_successors(sentence, scur, pattern, fcur):
                 vmatched = pattern.match_node(vitem, idx=fsuc)
                 ematched = pattern.match_edge(eitem, idx=(fcur, fsuc))
                 # if not matched, the returned vmatched or ematched should be None
-                if vmatched and ematched:
+                if vmatched is not None and ematched is not None:
                     msuccs.append(ssuc)
             # TODO: check for symmetry
             if len(msuccs) > 0:
-- 
2.43.0


From eab4c8b80f77e8225d756a0f23a83972437c0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 30/74] fix: the root of a pattern need not be node 1

---
 nephosem/core/graph.py         | 4 ++--
 nephosem/specutils/deputils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index b2f6e38..604ee8a 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -31,7 +31,7 @@ import networkx as nx
 import xml
 from xml.dom import minidom
 
-from nephosem.specutils.deputils import match_graph, tree_match, get_depth, draw_tree, draw_match, parse_pattern
+from nephosem.specutils.deputils import match_graph, tree_match, get_root, get_depth, draw_tree, draw_match, parse_pattern
 
 logger = logging.getLogger(__name__)
 
@@ -704,7 +704,7 @@ class MacroGraph(PatternGraph):
         node_dict = self.matched_nodes[index]
         edge_dict = self.matched_edges[index]
         # preorder traversal, start from the root
-        start = 1
+        start = get_root(self.graph)
         reprs = []
         # add the string repr of the start node
         if start == self.target_idx:
diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index cab851b..391bd81 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -120,7 +120,7 @@ def parse_pattern(target, feature, larrow='<-', rarrow='->'):
 
 def get_root(gx):
     """Get the root of a tree"""
-    v = 1
+    v = next(iter(gx.nodes))
     while True:
         ps = gx.predecessors(v)  # there should always be one predecessor
         try:
-- 
2.43.0


From 16be3f1685ee27b426b1a55206c85240c5f96f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 31/74] fix: matching in token mode leaves the sentence
 unchanged

---
 nephosem/specutils/deputils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 391bd81..7b8a424 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -245,7 +245,8 @@ def add_match(sentence, lmatches, macro):
         for m in lmatch:
             nodemapping.update(m)
         # remap feature node to sentence node label (type)
-        matched_nodes = {fn: sentence.nodes[sn] for fn, sn in nodemapping.items()}
+        # (copied, the match must not share its attributes with the sentence)
+        matched_nodes = {fn: dict(sentence.nodes[sn]) for fn, sn in nodemapping.items()}
         # if the target filter is given, check whether the matched target node appear in the target filter
         if macro.target_filter is not None:
             target_node_dict = matched_nodes[macro.target_idx]
@@ -261,7 +262,7 @@ def add_match(sentence, lmatches, macro):
                 attrs['FID'] = sentence.fid
                 attrs['fid'] = sentence.fid
         # remap feature edge (tuple of node idx) to sentence edge label (dependency relation)
-        matched_edges = {(head, tail): sentence.edges[(nodemapping[head], nodemapping[tail])]
+        matched_edges = {(head, tail): dict(sentence.edges[(nodemapping[head], nodemapping[tail])])
                          for head, tail in macro.edges}
         # append matched nodes and edges to the feature
         macro.add_match(matched_nodes, matched_edges)
-- 
2.43.0


From 7658a0ef82452d9d3e49a632f038c0cb3d66250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 32/74] fix: targets in token mode with upper case LID

---
 nephosem/specutils/deputils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 7b8a424..16e9103 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -261,6 +261,8 @@ def add_match(sentence, lmatches, macro):
             for nid, attrs in matched_nodes.items():
                 attrs['FID'] = sentence.fid
                 attrs['fid'] = sentence.fid
+                if 'lid' in attrs:
+                    attrs['LID'] = attrs['lid']
         # remap feature edge (tuple of node idx) to sentence edge label (dependency relation)
         matched_edges = {(head, tail): dict(sentence.edges[(nodemapping[head], nodemapping[tail])])
                          for head, tail in macro.edges}
-- 
2.43.0


From 64bee52332e39a17a4bfad427a018a754c26ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 33/74] fix: the target filter compares target items

---
 nephosem/core/graph.py         | 8 ++++++--
 nephosem/specutils/deputils.py | 6 ++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 604ee8a..95d9b19 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -655,6 +655,10 @@ class MacroGraph(PatternGraph):
 
     def target(self, index=0, mode='type'):
         """Return the target of the `index` match."""
+        return self.target_of(self.matched_nodes[index], mode=mode)
+
+    def target_of(self, matched_nodes, mode='type'):
+        """Return the target of a match given by its matched nodes."""
         target_idx = self.target_idx
         vals = []
         # for attr in self.node_repr_fmt.split(self.connector):
@@ -663,10 +667,10 @@ class MacroGraph(PatternGraph):
                 if mode == 'type':
                     continue
                 elif mode == 'token':
-                    mtrgt_repr = str(self.matched_nodes[index][target_idx][attr])  # LID is int
+                    mtrgt_repr = str(matched_nodes[target_idx][attr])  # LID is int
             else:
                 target_regex = self.graph.nodes[target_idx][attr]
-                target_node = self.matched_nodes[index][target_idx][attr]
+                target_node = matched_nodes[target_idx][attr]
                 mtarget = re.match(target_regex, target_node)
                 try:
                     mtrgt_repr = mtarget.group(gid)
diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 16e9103..8156dc0 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -249,10 +249,8 @@ def add_match(sentence, lmatches, macro):
         matched_nodes = {fn: dict(sentence.nodes[sn]) for fn, sn in nodemapping.items()}
         # if the target filter is given, check whether the matched target node appear in the target filter
         if macro.target_filter is not None:
-            target_node_dict = matched_nodes[macro.target_idx]
-            # example of target_node_dict: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
-            vals = [target_node_dict[attr] for attr, _idx in macro.target_node_attrs.items() if attr not in ['FID', 'LID', 'fid', 'lid']]
-            target_type = macro.connector.join(vals)
+            # example of the target node: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
+            target_type = macro.target_of(matched_nodes)
             # if the matched target type does not appear in the given target filter
             # do not add this match to the macro (for speeding up processing and save memory space)
             if target_type not in macro.target_filter:
-- 
2.43.0


From 5a69603bc9fe7d3baba1ad406f94325754783097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 34/74] fix: without targets every match counts

DepRelHandler without `targets` used an empty Vocab as the target filter,
which rejected every match.
---
 nephosem/models/deprel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..1df2fdb 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -54,7 +54,7 @@ class DepRelHandler(BaseHandler):
             else:
                 raise AttributeError("The `targets` should be a list of string or a `Vocab` object!")
         else:
-            self.targets = Vocab()
+            self.targets = None  # every target (an empty Vocab would reject all of them)
         self.mode = mode
         # normally, we don't set features previously
         self.macros = []
-- 
2.43.0


From 021748e6c23381fac5d2ab93ac544733d469593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 35/74] fix: read_sentence skips empty stretches between
 separator lines

The empty sentence made SentenceGraph raise, and the whole corpus failed.
---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 1df2fdb..6771110 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -301,7 +301,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # e.g. two separator lines in a row
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 2effeb3b6f9b5119e641421f2abd0b849ed7e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 36/74] fix: build_dependency starts without the matches of an
 earlier call

A second call counted the earlier matches again, once more for every file.
---
 nephosem/models/deprel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 6771110..6577e82 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -137,6 +137,10 @@ class DepRelHandler(BaseHandler):
 
         """
         fnames = self.prepare_fnames(fnames)
+        # the matches of an earlier call do not belong to this matrix
+        for macro in self.macros:
+            macro.matched_nodes = []
+            macro.matched_edges = []
         logger.info("Building dependency features...")
         _res = self.process(fnames)
 
-- 
2.43.0


From 1968e317d8ba08f4588ddc2cebdd2bf6c239c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 37/74] fix: the feature of a match does not depend on its
 target

Siblings were sorted by the target's own word, and a relation containing
a colon lost its second part next to the target.
---
 nephosem/core/graph.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 95d9b19..630b577 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -732,17 +732,17 @@ class MacroGraph(PatternGraph):
             for succ in self.graph.successors(curr):
                 edge_attrs = edge_dict[(curr, succ)]
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
-                node_attrs = node_dict[succ]
-                node_repr = self.get_node_repr(succ, node_attrs)
+                if succ == self.target_idx:
+                    # the target is represented by '#T#' (also when sorting:
+                    # the feature must not depend on the target)
+                    node_repr = '#T#'
+                else:
+                    node_repr = self.get_node_repr(succ, node_dict[succ])
                 succs.append((succ, ':'.join([edge_repr, node_repr])))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
             for succ, srepr in succs:
-                if succ == self.target_idx:
-                    # replace the target node repr by '#T#'
-                    reprs.append(':'.join([srepr.split(':')[0], '#T#']))
-                else:
-                    reprs.append(srepr)
+                reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
                 reprs.append(',')
             reprs.pop()  # pop the last ','
-- 
2.43.0


From 697db1a81ed92c351284fbd3bcd12fa5dc1f07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 38/74] fix: tokens of dependency matches name their file as
 other tokens do

Files of the same name in different folders gave the same tokens.
---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 6577e82..49c44c0 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -257,7 +257,8 @@ class DepRelHandler(BaseHandler):
             2.2 so the matching should be a target-feature matching
             2.3 this is a way of speeding up the process when the targets are provided
         """
-        basename = os.path.basename(fname).rsplit('.', 1)[0]  # for filename in token
+        # for filename in token, as BaseHandler.update_one_file
+        basename = os.path.splitext(os.path.relpath(fname, start=self.settings['corpus-path']))[0]
         # read each sentence from the corpus file
         sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
         for s in sentences:
-- 
2.43.0


From 2c5bed98e26a8190bdb6b1ddd18f84fe7a9bbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 39/74] fix: read pattern files whatever their line breaks

The file was cut into graphs line by line: graphs which did not start and
end on lines of their own, or stood in a comment, were lost or misread.
---
 nephosem/core/graph.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 630b577..174e4c8 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -545,32 +545,16 @@ class PatternGraph(DiGraph):
 
     @classmethod
     def read_graphml(cls, fname):
-        with open(fname) as fin:
-            graphs = []
-            header = []
-            ender = None
-            graphml = []
-            line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('<graph') and not sline.startswith('<graphml'):
-                    break
-                header.append(line)
-                line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('</graphml'):
-                    ender = line
-                    break
-                graphml.append(line)
-                if sline.startswith('</graph'):
-                    graphs.append(graphml)
-                    graphml = []
-                # start of a graph
-                line = fin.readline()
-        graphs = [''.join(header + gml + [ender]) for gml in graphs]
-
         doc = minidom.parse(fname)
+        # one document per graph (networkx returns the first graph of a document)
+        graphs = []
+        for i in range(len(doc.getElementsByTagName('graph'))):
+            single = doc.cloneNode(True)
+            for j, graph in enumerate(single.getElementsByTagName('graph')):
+                if j != i:
+                    graph.parentNode.removeChild(graph)
+            graphs.append(single.toxml())
+
         attrs = doc.getElementsByTagName('key')
         defaults = {}
         for attr in attrs:
-- 
2.43.0


From 5c5859ab7774ddeb0948371415dff390d0ab4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 40/74] fix: default values of edges in pattern files belong to
 edges

They were given to the nodes, which then matched no word.
---
 nephosem/core/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 174e4c8..34bd52f 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -556,12 +556,12 @@ class PatternGraph(DiGraph):
             graphs.append(single.toxml())
 
         attrs = doc.getElementsByTagName('key')
-        defaults = {}
+        defaults = {'node': {}, 'edge': {}}
         for attr in attrs:
             attrname = attr.attributes['attr.name'].value
             try:
                 default = attr.getElementsByTagName('default')[0]
-                defaults[attrname] = default.childNodes[0].data
+                defaults[attr.attributes['for'].value][attrname] = default.childNodes[0].data
             except:
                 pass
 
@@ -570,7 +570,11 @@ class PatternGraph(DiGraph):
             g = nx.parse_graphml(graphml_string=gmlstring, node_type=int)
             # add default attribute values
             for n, attrs in g.nodes(data=True):
-                for attr, val in defaults.items():
+                for attr, val in defaults['node'].items():
+                    if attr not in attrs:
+                        attrs[attr] = val
+            for _, _, attrs in g.edges(data=True):
+                for attr, val in defaults['edge'].items():
                     if attr not in attrs:
                         attrs[attr] = val
 
-- 
2.43.0


From d8cd23b30249fc4db01fab9cfbba851e8b41eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 41/74] fix: macro files with an empty description

---
 nephosem/core/graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 34bd52f..a3e0846 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -965,6 +965,13 @@ class MacroGraph(PatternGraph):
 
         return macros
 
+    @staticmethod
+    def description_of(tags):
+        """Return the text of a list of description elements (of a target or feature)."""
+        if len(tags) > 0 and len(tags[0].childNodes) > 0:
+            return tags[0].childNodes[0].data
+        return "no description"
+
     @classmethod
     def parse_macro_xml(cls, macroxml, id2patt):
         """Example XML:
@@ -1000,7 +1007,7 @@ class MacroGraph(PatternGraph):
         target = macroxml.getElementsByTagName('target')[0]
         target_idx = int(target.attributes['nodeID'].value)
         target_desc_tag = target.getElementsByTagName('description')
-        target_desc = target_desc_tag[0].childNodes[0].data if len(target_desc_tag) > 0 else "no description"
+        target_desc = cls.description_of(target_desc_tag)
         # parse the feature information
         feature = macroxml.getElementsByTagName('feature')[0]
         try:
@@ -1008,7 +1015,7 @@ class MacroGraph(PatternGraph):
         except Exception as e:
             feature_idx = -1
         feat_desc_tag = feature.getElementsByTagName('description')
-        feat_desc = feat_desc_tag[0].childNodes[0].data if len(feat_desc_tag) > 0 else "no description"
+        feat_desc = cls.description_of(feat_desc_tag)
         # construct a macro
         macro = cls(id2patt[pattern_id], target_idx=target_idx, feature_idx=feature_idx)
         macro.id = macro_id
-- 
2.43.0


From 1da9923d0733845ba5ae0981a2be437e4f520c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 42/74] fix: MacroGraph.read_csv

It called the constructor with an unknown argument.
---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index a3e0846..a25b676 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -885,7 +885,7 @@ class MacroGraph(PatternGraph):
         templates = PatternGraph.read_csv(fname, target_colname=target_colname, feature_colname=feature_colname,
                                           sep=sep, header=header, **kwargs)
         # target node index is always 1
-        features = [cls(tplt, target=1) for tplt in templates]
+        features = [cls(tplt, target_idx=1) for tplt in templates]
         return features
 
     @classmethod
-- 
2.43.0


From b3c48c51f708cf0dbec017cc8af465772ee709d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 43/74] fix: patterns with a node of more than three neighbours
 are not linear

---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index a25b676..83f8758 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -445,7 +445,7 @@ class PatternGraph(DiGraph):
             # if digx.in_degree(nxt) == 2:  # a dependent cannot have two heads
             #     return False
             # the two header nodes have one degree, the others have two degree
-            if len(neighbors) == 3:
+            if len(neighbors) > 2:
                 return False
             if len(neighbors) == 1:  # reach the other header
                 break
-- 
2.43.0


From b0fb3d410529b68cb4522b59dc289647e6d8955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 44/74] fix: parse_pattern with nested lists of nodes

The commas of an inner list split the outer one, and a blank after an
inner arrow was taken for the relation.
---
 nephosem/specutils/deputils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 8156dc0..603fdc4 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -54,16 +54,33 @@ def find_arrow(s, start, larrow='<-', rarrow='->'):
     return len(s)
 
 
+def split_nodes(s):
+    """Split a list of nodes at its commas, except for those inside of brackets"""
+    nodes = ['']
+    level = 0
+    for c in s:
+        if c == '[':
+            level += 1
+        elif c == ']':
+            level -= 1
+        if c == ',' and level == 0:
+            nodes.append('')
+        else:
+            nodes[-1] += c
+    return nodes
+
+
 def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
               larrow='<-', rarrow='->'):
-    if len(subfeature.strip()) <= 0:
+    subfeature = subfeature.strip()
+    if len(subfeature) <= 0:
         return
 
     arrow_len = len(larrow)
     # the sub-feature would be either a list of nodes or a sub-tree
     if subfeature[0] == '[' and subfeature[-1] == ']':
         # list of nodes: [(acomp) (\w+)/(JJ) , (nsubj) (\w+)/(N)\w*]
-        next_nodes = subfeature[1:-1].split(',')
+        next_nodes = split_nodes(subfeature[1:-1])
         next_nodes = [n.strip() for n in next_nodes]
         for node in next_nodes:
             node = node.strip()
-- 
2.43.0


From b63e064b6f1d1e3ba16d851613afbacba358b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 45/74] fix: a sentence given by a node without edges

---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 83f8758..7db9c0a 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -217,7 +217,7 @@ class SentenceGraph(DiGraph):
         self.mode = mode
         self.fid = fname
         self.formatter = formatter
-        if nodes and edges:
+        if nodes and edges is not None:  # (a single word has no edges)
             self.generate_graph(nodes, edges)
         elif sentence:
             self.build_graph(sentence)
-- 
2.43.0


From 209538b39b7c738394384a8233942d8826d52949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 46/74] fix: linear patterns with a node 0

---
 nephosem/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 7db9c0a..6f1813f 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -431,12 +431,12 @@ class PatternGraph(DiGraph):
         gx = digx.to_undirected()
         if gx.number_of_edges() == 1:
             return True
-        cur = 0
+        cur = None
         for v in gx.nodes:
             if gx.degree(v) == 1:
                 cur = v
                 break
-        if cur == 0:
+        if cur is None:
             return False
 
         nxt = next(gx.neighbors(cur))  # only one element in this iterator
-- 
2.43.0


From 7cd9fcfacbc1fabe33785439e341a8d8bea0da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 47/74] fix: cluster clean-up keeps one copy of a cluster that
 is found more than once

---
 nephosem/models/cbc.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..735dbd2 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -644,17 +644,14 @@ def remove_duplicate(clusters):
     """Remove duplicate clusters"""
     if len(clusters) <= 0:
         return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    seen = set()  # -> clusters already kept
+    diffL = []
+    for s, clust in clusters:
+        # the same cluster need not follow directly, as other clusters may have the same score
+        key = frozenset(clust)
+        if key not in seen:
+            seen.add(key)
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From c466da670a94316d3b07551a2eb4e6c2f61b19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 48/74] fix: merging committees considers every later committee

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 735dbd2..a8e7a77 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -573,7 +573,7 @@ def get_merged_committee(simmx, theta=0.35):
         sortidx = sortsimmx[i]
         # iterate over the indices from the largest one
         idx = -1
-        for j in range(-2, -(sortidx.shape[0]), -1):
+        for j in range(-1, -(sortidx.shape[0]) - 1, -1):
             tmpidx = sortidx[j]
             if tmpidx > i and tmpidx not in merged:
                 # if committee has not been processed
-- 
2.43.0


From afc894ec3295fe1712c8ca0bd15fc47fa62f7797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 49/74] fix: clustering by committee leaves all elements as
 residues when it finds no committees

---
 nephosem/models/cbc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index a8e7a77..2faf034 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -186,8 +186,9 @@ class CBC(object):
             try:
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
+                # nothing found, every element is left
                 logger.exception(err)
-                curC, curR = [], []
+                curC, curR = [], residues
 
             Cs.append(curC)
             Rs.append(curR)
@@ -481,10 +482,12 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
     if not L or len(L) <= 0:
-        return L
+        return [], []
 
     # clean clusters
     committees, singletons = clean_clusters(L)
+    if len(committees) == 0:  # only singletons
+        return [], []
 
     # transform cluster elements from str to int
     e2id = {e: i for i, e in enumerate(elements)}
-- 
2.43.0


From 4914c8f851657509b4bf3b6ef498b118788d7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 50/74] fix: elements near a committee are added to the
 committees that are returned

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 2faf034..13bbee2 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -285,7 +285,7 @@ def major_steps(cbc, eles=None, multicore=True):
     #       so the ids would be sub-matrix ids
     # id2item = freqmx.row_items
     # curC = [[id2item[i] for i in c] for c in curC]
-    return curC, R
+    return comms, R
 
 
 def cbc_step1_multicore(elements, distmx=None, k=100,
-- 
2.43.0


From 1f5f807a54d7aa4be38351e071bd3e9407b0298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 51/74] fix: clustering by committee takes the matrix rows of
 its elements

---
 nephosem/models/cbc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 13bbee2..f0b5918 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -241,9 +241,10 @@ def major_steps(cbc, eles=None, multicore=True):
         eles = cbc.elements
     # in later recursions use submatrix of residues to speed up
     # and we have to, because the similar elements of a residue are fetched from all residues
-    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.elements != eles else cbc.freqmx
-    measmx = cbc.measmx.submatrix(row=eles) if cbc.elements != eles else cbc.measmx
-    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.elements != eles else cbc.distmx
+    # (also in the first one, as the elements may be a selection of the rows or in another order)
+    freqmx = cbc.freqmx.submatrix(row=eles)
+    measmx = cbc.measmx.submatrix(row=eles)
+    distmx = cbc.distmx.submatrix(row=eles, col=eles)
 
     # step 1
     logger.info("\nstep 1 ...")
-- 
2.43.0


From 8abe4b57ae5e4330960effc031cebde6f297f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 52/74] fix: clustering by committee can compute its
 association and distance matrices

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index f0b5918..2d32970 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -49,7 +49,7 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
-from nephosem.specutils.mxcalc import calc_association, calc_distance
+from nephosem.specutils.mxcalc import compute_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir, clean_dir
 
@@ -123,11 +123,11 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = compute_association(freqmx, freqmx.sum(axis=1), freqmx.sum(axis=0), meas='ppmi')
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = compute_distance(measmx)
             print("done.")
 
         self.elements = elements
-- 
2.43.0


From 77c34c8b8e74a5cc919fdcbe8220ee76c7cd2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 53/74] fix: clustering by committee passes on highest_score

---
 nephosem/models/cbc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 2d32970..7033092 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -254,6 +254,7 @@ def major_steps(cbc, eles=None, multicore=True):
         'distmx': distmx, 'k': cbc.k,
         'prune_method': cbc.prune_method, 't': cbc.t,
         'score_metric': cbc.score_metric,
+        'highest_score': cbc.highest_score,
     }
     if multicore and len(eles) > num_workers:
         # use multicore version when the number of elements is large ( > number of cpu cores)
-- 
2.43.0


From b464043dd696147c5b0d64ccc2e44f9cc3ff8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 54/74] fix: cluster scores honour score_func

---
 nephosem/models/cbc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 7033092..dcf56d5 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1069,7 +1069,9 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
             continue
 
         avgsim = clustsims[cid]
-        if metric == 'with_size_sqrt':
+        if score_func is not None:
+            score = score_func(len(ids), avgsim)
+        elif metric == 'with_size_sqrt':
             score = math.sqrt(len(ids)) * avgsim
         elif metric == 'with_size':
             score = len(ids) * avgsim
-- 
2.43.0


From 6807532550e8e0ecad435aa60779d9020a6e2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 55/74] fix: clusters of every group of elements are collected

A process of the pool that got a second group of elements overwrote the
file with the clusters of its first group.
---
 nephosem/models/cbc.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index dcf56d5..06f920e 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -295,7 +295,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                         score_metric='without_size', highest_score=False):
     """
     ~/.cbc/.10933/
-                 /L/  : folder for temporary L(s)
                  /distmx.meta
                  /distmx.npy
     """
@@ -303,9 +302,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
     make_dir(tmpdir)
     clean_dir(tmpdir)
-    L_tmpdir = os.path.join(tmpdir, 'L')
-    make_dir(L_tmpdir)
-    clean_dir(L_tmpdir)
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
@@ -317,6 +313,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
         data_group[idx].append(elements[i])
 
     pool = Pool(processes=num_cores)
+    results = []
     for i in range(num_cores):
         args = (data_group[i], tmpdir,)
         kwargs = {
@@ -325,25 +322,20 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
             'score_metric': score_metric, 'highest_score': highest_score,
         }
         try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
+            results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
         except Exception as err:
             logger.exception("Error:", err)
     pool.close()
     pool.join()
 
-    # merge results
+    # merge results, one of each group
+    # (a file per process would not do, as a process may get more than one group)
     L = []
-    for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
+    for res in results:
+        L.extend(res.get())
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
-        os.rmdir(L_tmpdir)
         os.rmdir(tmpdir)
     except Exception as err:
         logger.exception("clean tmp folder error: {}".format(err))
@@ -383,10 +375,6 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
-    with codecs.open(tmp_proc_fname, 'w') as outf:
-        json.dump(L, outf, ensure_ascii=False, indent=4)
-
     return L
 
 
-- 
2.43.0


From 2498f802eb16b04270dea01d7929b8275030271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 56/74] fix: multicore clustering uses a temporary folder of
 its own

Two of them started in the same minute removed each other's files.
---
 nephosem/models/cbc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 06f920e..438a874 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -38,6 +38,7 @@ import logging
 import math
 import operator
 import os
+import tempfile
 from collections import defaultdict
 from copy import deepcopy
 from multiprocessing import cpu_count, Pool
@@ -51,7 +52,7 @@ from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.specutils.mxcalc import compute_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
-from nephosem.utils import make_dir, clean_dir
+from nephosem.utils import make_dir
 
 __all__ = ['CBC']
 
@@ -299,9 +300,9 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                  /distmx.npy
     """
     homedir = os.path.expanduser('~')
-    tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-    make_dir(tmpdir)
-    clean_dir(tmpdir)
+    make_dir(os.path.join(homedir, '.cbc'))
+    tmpdir = tempfile.mkdtemp(prefix=datetime.datetime.now().strftime("%Y.%m.%d.%H.%M."),
+                              dir=os.path.join(homedir, '.cbc'))
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-- 
2.43.0


From 502d93de82690447a52eed21f5b5e2e6224d41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 57/74] fix: multicore clustering works on a single core

---
 nephosem/models/cbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 438a874..8cc4058 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -249,7 +249,7 @@ def major_steps(cbc, eles=None, multicore=True):
 
     # step 1
     logger.info("\nstep 1 ...")
-    num_workers = cpu_count() - 1
+    num_workers = max(1, cpu_count() - 1)
     args = (eles,)
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
@@ -306,7 +306,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(1, cpu_count() - 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-- 
2.43.0


From d73931741ef8b15fe5380732218463e7aa2286d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 58/74] fix: clustering by committee passes marginal
 frequencies as vocabularies

---
 nephosem/models/cbc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 8cc4058..bd16c5b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -50,6 +50,7 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
+from nephosem.core.vocab import Vocab
 from nephosem.specutils.mxcalc import compute_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir
@@ -124,7 +125,7 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = compute_association(freqmx, freqmx.sum(axis=1), freqmx.sum(axis=0), meas='ppmi')
+            measmx = compute_association(freqmx, Vocab(freqmx.sum(axis=1)), Vocab(freqmx.sum(axis=0)), meas='ppmi')
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-- 
2.43.0


From e7e0ed08f6928d0ab77f56c5b3f999b6f291c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 59/74] fix: read configuration values with a percent sign as
 they are written

---
 nephosem/conf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/conf.py b/nephosem/conf.py
index 0752841..f3f785b 100644
--- a/nephosem/conf.py
+++ b/nephosem/conf.py
@@ -78,7 +78,8 @@ class ConfigLoader(object):
     def load_config(cls, config_file):
         """Read settings in a config file."""
         sett = dict()
-        config = ConfigParser()  # Python (3) package configparser.ConfigParser
+        # values are taken as they are, e.g. a regular expression or a path with '%'
+        config = ConfigParser(interpolation=None)  # Python (3) package configparser.ConfigParser
         # ConfigParser parses INI files which are expected to be parsed case-insensitively
         # disable this behaviour by replacing the RawConfigParser.optionxform() function
         config.optionxform = str
-- 
2.43.0


From 7e2e60f54ee06c09eb34e0f989e306e001cd38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 60/74] fix: accept settings with only one of the two names of
 the single boundary expression

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..9de4c26 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -586,9 +586,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From 86a1a98476d4cbd1be0106c23b4edf2f26aef7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 61/74] fix: recognise separator lines with left-right boundary
 detection

---
 nephosem/core/terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 9de4c26..cfbc8c7 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -650,6 +650,8 @@ class CorpusFormatter(object):
             raise NotImplementedError("Only support 'type', 'colloc' and 'token'.")
 
     def separator_line_machine(self, line):
+        if self.bound_mech == 'left-right':
+            return self._left_bound_machine.match(line) or self._right_bound_machine.match(line)
         return self._single_bound_machine.match(line)
 
     def left_bound_machine(self, line):
-- 
2.43.0


From 41dc551b70b898ff8b8e7143eac5ffcddefb87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 62/74] fix: a corpus formatter does not change the settings of
 its caller

---
 nephosem/core/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index cfbc8c7..8b8e2dc 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -619,6 +619,7 @@ class CorpusFormatter(object):
         # self._lemma = col2id.get('lemma', -1)
         # self._pos = col2id.get('pos', -1)
 
+        settings = deepcopy(settings)  # the settings of the caller are not changed
         self.type_format = settings['type']  # e.g. 'lemma/pos'
         type_eles = settings['type'].split(self.connector)
         self._type = [col2id[e] for e in type_eles]  # -> [2, 3]
@@ -635,7 +636,7 @@ class CorpusFormatter(object):
         self.node_attr = settings.get('node-attr', 'word,pos,lemma')
         self.edge_attr = settings.get('edge-attr', None)
 
-        self.settings = deepcopy(settings)  # store settings for possible uses
+        self.settings = settings  # store settings for possible uses
 
     def match_line(self, line, form=None):
         if not form:
-- 
2.43.0


From eba1a5b91ac96d2dd45be25a472c842d20b70b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 63/74] fix: look up word queries with the default key that
 reading them uses

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 475d8b8..6eedb67 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -442,7 +442,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
     return retval
 
 
-def get_word_str(wquery, specific=False, corpus_name='', def_key=None):
+def get_word_str(wquery, specific=False, corpus_name='', def_key='_DEFAULT_'):
     """
 
     Parameters
-- 
2.43.0


From 6b051b8767983046a17caac0f16050c72697efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:27 +0000
Subject: [PATCH 64/74] fix: sample the tokens of a type however it was made

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 8b8e2dc..f4fd6d4 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -258,7 +258,7 @@ class TypeNode(ItemNode):
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
 
-        wn = TypeNode(type_str=self.type, type_fmt=self.type_fmt, tokens=sample_tokens)
+        wn = TypeNode(type_str=self.type, type_fmt=self.format, tokens=sample_tokens)
         return wn
 
     @classmethod
-- 
2.43.0


From 5c9f8ef0b2c428bb1cfa14e5f7c68127417472bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:27 +0000
Subject: [PATCH 65/74] fix: a token made without collocates has none

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index f4fd6d4..946b1a7 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -363,8 +363,8 @@ class TokenNode(ItemNode):
         self.fid = fid
         self.lid = str(lid)
         self.format = token_fmt
-        self.lcollocs = lcollocs
-        self.rcollocs = rcollocs
+        self.lcollocs = lcollocs if lcollocs is not None else []
+        self.rcollocs = rcollocs if rcollocs is not None else []
         self.__dict__.update(**kwargs)
 
     @property
-- 
2.43.0


From 5c47989f6edadcd13c12668c8faf4102cfd8016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:27 +0000
Subject: [PATCH 66/74] fix: load the tokens of a type that were saved

---
 nephosem/core/terms.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 946b1a7..be40ec7 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -225,6 +225,8 @@ class TypeNode(ItemNode):
         data = dict()
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['word'] = self.word
+        data['format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,8 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(word=data.get('word'), lemma=data['lemma'], pos=data['pos'],
+                   type_fmt=data.get('format', 'lemma/pos'), tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -388,6 +391,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -400,9 +404,12 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        fmt = json_data.get('format', 'word/pos/fid/lid')
+        columns = ('word', 'pos', 'lemma')  # the order of ItemNode.__str__
+        lcollocs = [ItemNode(**dict(zip(columns, col.split('\t')))) for col in json_data['left-collocates']]
+        rcollocs = [ItemNode(**dict(zip(columns, col.split('\t')))) for col in json_data['right-collocates']]
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid, token_fmt=fmt,
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From afc2495cbe7e881f8a9ab0bd43fafa0f4fe63f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 67/74] fix: vectorizing types passes the marginal frequencies
 of the matrix

---
 nephosem/models/typetoken.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 79c52d9..13d6d4d 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -816,7 +816,9 @@ class TypeVectorizer(object):
         -------
         vectors : :class:`nephosem.core.matrix.TypeTokenMatrix`
         """
-        self.vectors = mxcalc.compute_association(self.freqmx, meas=meas)
+        nfreq = Vocab(self.freqmx.sum(axis=1))
+        cfreq = Vocab(self.freqmx.sum(axis=0))
+        self.vectors = mxcalc.compute_association(self.freqmx, nfreq=nfreq, cfreq=cfreq, meas=meas)
         return self.vectors
 
 
-- 
2.43.0


From c8830f44a04664e229d1c596751448c80a81fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 68/74] fix: the token vectorizer takes the type nodes of the
 retrieved tokens, not their matrix

---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 13d6d4d..2c8579d 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -851,7 +851,8 @@ class TokenVectorizer(object):
             query_dict.update(queries)
 
         tokhan = TokenHandler(Vocab(query_dict), settings=self.settings)
-        typenodes = tokhan.retrieve_tokens(fnames=fnames)
+        tokhan.retrieve_tokens(fnames=fnames)
+        typenodes = tokhan.type2toks
 
         self.concepts = dict()
         for concept, variants in self.concept_queries.items():
-- 
2.43.0


From f92d7a4f89dd1090c76d69f350538c6cb2d6e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 69/74] fix: at least one worker process, also on a machine
 with one processor

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 95f28b8..58f207c 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(1, mp.cpu_count()-1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From 7190af30010c7bd3cbb32709fd69c8f891b9f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 70/74] fix: a second token retrieval does not repeat the
 tokens of the first

---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 2c8579d..91331ee 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -523,6 +523,9 @@ class TokenHandler(BaseHandler):
         :class:`~nephosem.TypeTokenMatrix`
         """
         fnames = self.prepare_fnames(fnames)
+        # start without the tokens of an earlier call
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         logger.info("Scanning tokens of queries in corpus...")
         res = self.process(fnames)
         self.type2toks = res
-- 
2.43.0


From aa656bd6f53f11cda15547515d66f3407774dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 71/74] fix: lines of corpus files end at line breaks only, not
 at U+0085 or U+2028, and cut off characters are an error

---
 nephosem/core/handler.py     | 3 +--
 nephosem/models/deprel.py    | 3 +--
 nephosem/models/typetoken.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 58f207c..9872bd8 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -33,7 +33,6 @@ try:
 except ImportError:
     import pickle as _pickle
 
-import codecs
 import logging
 import os
 from copy import deepcopy
@@ -325,7 +324,7 @@ class BaseHandler(Paralleler):
         # process file
         fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
         # fname = os.path.basename(filename).rsplit('.', 1)[0]  # for filename in token
-        with codecs.open(filename, 'r', input_encoding) as fin:
+        with open(filename, 'r', encoding=input_encoding) as fin:
             lid = 0  # line number (1-based)
             for line in fin:
                 lid += 1
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 49c44c0..dacb3a7 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -16,7 +16,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Nephosem. If not, see <https://www.gnu.org/licenses/>.
 
-import codecs
 import logging
 import multiprocessing as mp
 import os
@@ -295,7 +294,7 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
     -------
     generator of sentences (tuple(int, string))
     """
-    with codecs.open(filename, 'r', encoding=encoding) as fin:
+    with open(filename, 'r', encoding=encoding) as fin:
         sentence = []
         lid = 0
         for line in fin:
diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 91331ee..615ae7c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -43,7 +43,6 @@ Initialize a model with e.g.
 
 from __future__ import division
 
-import codecs
 import logging
 import os
 from collections import defaultdict
@@ -155,7 +154,7 @@ class ItemFreqHandler(BaseHandler):
             The corpus file name to process
         """
         # return super(ItemFreqHandler, self).update_one_file(filename, data)
-        with codecs.open(filename, 'r', self.input_encoding) as fin:
+        with open(filename, 'r', encoding=self.input_encoding) as fin:
             for line in fin:
                 line = line.strip()  # in case there is a '\n'
                 match = self.formatter.match_line(line)
-- 
2.43.0


From 4e19133814796a24f7a8f9b71af9697e38f14d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:36 +0000
Subject: [PATCH 72/74] fix: frequency and file lists with items that contain
 U+0085 or U+2028 are read line by line

---
 nephosem/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 6eedb67..dd29532 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -139,7 +139,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     if ext != ".fnames":
         filename = "{}.fnames".format(filename)
     try:
-        with codecs.open(filename, 'r', encoding=encoding) as inf:
+        with open(filename, 'r', encoding=encoding) as inf:
             for line in inf:
                 line = line.strip()
                 if len(line) <= 0 or line.startswith('#'):
@@ -262,7 +262,7 @@ def load_dict_plain(filename, encoding='utf-8'):
     One word per line ( word[TAB]freq )
     """
     res_dict = dict()
-    with codecs.open(filename, 'r', encoding) as fin:
+    with open(filename, 'r', encoding=encoding) as fin:
         for line in fin:
             pair = line.strip().split('\t')
             if len(pair) < 2:
-- 
2.43.0


From 4f7a42239984926d987d6a7e785ad463d7c01b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 73/74] fix: word queries that contain U+0085 or U+2028 are
 read as one line

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index dd29532..1ac3cde 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -416,7 +416,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
     retval = []
     if not os.path.isfile(fname):
         return retval
-    with codecs.open(fname, 'r', encoding=encoding) as inf:
+    with open(fname, 'r', encoding=encoding) as inf:
         for line in inf:
             line = line.strip()
             if len(line) <= 0 or line.startswith('#'):
-- 
2.43.0


From 3a96c55cb3ba6cccca58d13652852c572406b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:56 +0000
Subject: [PATCH 74/74] fix: label token-level weights with the context items
 they belong to

build_tc_weight_matrix placed the weights by the column order of the type-level
matrix but labelled them with the columns of the token-context matrix, and
failed on a token without context items.
---
 nephosem/models/typetoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 615ae7c..111b9d8 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1238,7 +1238,7 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
     for type_, toks in type2token.items():
         tw_row = type_weight_mtx[type_]
         for tok in toks:
-            tc_row = tok_context_mtx[tok]
+            tc_row = tok_context_mtx.get(tok, {})  # a token may have no context items
             tc_feats = tc_row.keys()
             for feat in tc_feats:
                 if feat not in tw_row:
@@ -1246,5 +1246,5 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
                 val = tw_row[feat]
                 tok_weight_dict[tok][feat] = val
 
-    tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, twMTX.col_items)
+    tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, tcPositionMTX.col_items)
     return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, tcPositionMTX.col_items)
-- 
2.43.0

