From 705d1f3fe1e33e2d1a94c61a76a616febef16084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 01/87] fix: count the last token of segments no longer than
 the right span

ColFreqHandler stopped draining the right window one token early when a
segment had at most right-span tokens, so that token was never treated as
a node and its left collocates were lost.
---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..9f89413 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 0bfbdc9b2616ca329248d65dc29f6b1e5c7a63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 02/87] fix: merge the results of all workers when retrieving
 tokens

Every worker puts its dict in the result queue, also one that got no file,
so with idle workers there are more results than files and the last ones
(depending on scheduling) were dropped.
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 9f89413..d717eb4 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -643,7 +643,7 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From d4d71ab9cb88a7e8cca5ac18fc16fa13eb28b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 03/87] fix: token retrieval with a right span of 0

The worker died with an IndexError on an empty segment (for example a file
ending with a separator line).
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index d717eb4..08d815b 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right_span > 0 and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 0ad12fc8e38603b5d217f4859b1e721f7d28188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 04/87] fix: report a worker process that did not finish

A worker that died (an unreadable file, a kill) left the parent waiting for
its results for ever, or its share was silently missing from the result.
---
 nephosem/core/handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..a047aaf 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -147,6 +147,10 @@ class Paralleler(object):
         
         for worker in workers:
             worker.join()
+        failed = [worker.exitcode for worker in workers if worker.exitcode != 0]
+        if failed:
+            raise RuntimeError("{} worker process(es) did not finish (exit codes: {}), "
+                               "the results are incomplete!".format(len(failed), failed))
 
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
-- 
2.43.0


From 5cc77692429ff502acd27bae53e1c1574bd3ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 05/87] fix: use at least one worker process on a single-core
 machine

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index a047aaf..a552acd 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(1, mp.cpu_count()-1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From fa33040fef1c2ba8b837960473317f299a479a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 06/87] fix: without targets, match every target

No targets given to the handler (or no filter given to a macro) means an
empty filter, which rejected every match instead of accepting all of them.
---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..6ce2e4c 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -247,7 +247,7 @@ def add_match(sentence, lmatches, macro):
         # remap feature node to sentence node label (type)
         matched_nodes = {fn: sentence.nodes[sn] for fn, sn in nodemapping.items()}
         # if the target filter is given, check whether the matched target node appear in the target filter
-        if macro.target_filter is not None:
+        if macro.target_filter is not None and len(macro.target_filter) > 0:
             target_node_dict = matched_nodes[macro.target_idx]
             # example of target_node_dict: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
             vals = [target_node_dict[attr] for attr, _idx in macro.target_node_attrs.items() if attr not in ['FID', 'LID', 'fid', 'lid']]
-- 
2.43.0


From 7d256a808fabe71170ea7b53c7e27482f479d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 07/87] fix: skip empty sentences of a dependency corpus

A separator without any token before it gave an empty sentence, on which
building the sentence graph raised and killed the worker process.
---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..2d75d38 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -301,7 +301,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # e.g. two separators in a row
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 153d1ed2ae369a07ffb9b42c903fc3d82a79ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:58 +0000
Subject: [PATCH 08/87] fix: Vocab can be copied with the copy module and
 pickled

__getattr__ answered None for any unknown attribute, also for the hooks of
copy and pickle, which then failed with a TypeError.
---
 nephosem/core/vocab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..8553bd6 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -182,6 +182,7 @@ class Vocab(object):
         # so vocab.freq returns itself
         if item == 'freq':
             return self
+        raise AttributeError(item)
 
     def __lt__(self, arg):
         if isinstance(arg, int) or isinstance(arg, float):
-- 
2.43.0


From ec0766a89538421c037dfcd42717e78c1957e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 09/87] fix: base names in a fnames file are relative to the
 corpus path

The encoding was passed as the corpus directory, so a file listed by its
base name was looked up as e.g. 'utf-8/name'.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index a552acd..485859e 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -295,7 +295,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, self.corpus_path or '', self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From d04a20a5e68e1c3e006ba48db3db8497a21f3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 10/87] fix: retrieving tokens twice with one handler repeats
 no earlier tokens

Every worker started from, and returned, the tokens of the previous call.
---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 08d815b..e73faff 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -523,6 +523,9 @@ class TokenHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Scanning tokens of queries in corpus...")
+        # start without the tokens of a previous call
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         res = self.process(fnames)
         self.type2toks = res
         logger.info("Creating matrix...")
-- 
2.43.0


From 37bf316f69f9c28c94231b1bad8592dff4583b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 11/87] fix: building dependencies twice with one handler
 repeats no earlier matches

Every job started from, and returned, the matches of the previous call.
---
 nephosem/models/deprel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 2d75d38..1857563 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -138,6 +138,10 @@ class DepRelHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Building dependency features...")
+        # start without the matches of a previous call
+        for macro in self.macros:
+            macro.matched_nodes = []
+            macro.matched_edges = []
         _res = self.process(fnames)
 
         logger.info("Building matrix...")
-- 
2.43.0


From c3dfe43f7b77adb32a7ce462a2df279378e21c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 12/87] fix: creating a handler does not empty ~/tmp

~/tmp is the default output directory as well, and it is not even used for
temporary files when the settings name another directory.
---
 nephosem/core/handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 485859e..de56d8b 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From 0f9a0f1054e1f8024772c3b0f0c5ecffa2bdb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 13/87] fix: choose the default temporary directory the right
 way round

Without output-path and tmp-path every handler raised a KeyError.
---
 nephosem/core/handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index de56d8b..00eb74c 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -258,8 +258,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From 0f873a348cf260ea6dafa86d6a955d479ea3575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 14/87] fix: save sparse matrices that are not in CSR format

load() reads CSR arrays: a transposed matrix came back garbled and a
column-wise concatenated one could not be saved.
---
 nephosem/core/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..52a0a77 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1340,12 +1340,13 @@ class TypeTokenMatrix(BaseMatrix):
             json.dump(meta_data, outf, ensure_ascii=False, indent=4)
 
         if isinstance(self.matrix, sp.spmatrix):
+            csrmx = self.matrix.tocsr()  # the format which is expected by `load()`
             mx_fname = "{}.npz".format(basename)
             np.savez(mx_fname,
-                     data=self.matrix.data,
-                     indices=self.matrix.indices,
-                     indptr=self.matrix.indptr,
-                     shape=self.matrix.shape)
+                     data=csrmx.data,
+                     indices=csrmx.indices,
+                     indptr=csrmx.indptr,
+                     shape=csrmx.shape)
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
-- 
2.43.0


From 930dde795ab96d2ae9cbaaeb7b9026ae75c7cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 15/87] fix: a dense matrix saved over a sparse one is the one
 that is loaded

---
 nephosem/core/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 52a0a77..ea53bff 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1350,6 +1350,9 @@ class TypeTokenMatrix(BaseMatrix):
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
+            # a sparse matrix saved before under this name must not be loaded instead
+            if os.path.exists("{}.npz".format(basename)):
+                os.remove("{}.npz".format(basename))
         else:
             raise ValueError
 
-- 
2.43.0


From 31809195cd9c47cd9264a6bb0fcab3ac70287c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 16/87] fix: packed matrices are saved and loaded without
 touching other files

The loose files x.meta and x.npz (or x.npy) of another matrix in the same
directory were overwritten and removed, a stale x.npz was loaded instead of the
packed dense matrix, and a renamed package could not be loaded.
---
 nephosem/core/matrix.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index ea53bff..2044f38 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -38,6 +38,8 @@ import codecs
 import json
 import logging
 import os
+import shutil
+import tempfile
 import zipfile
 
 import random
@@ -1331,6 +1333,10 @@ class TypeTokenMatrix(BaseMatrix):
             # filename: '/xxx/BrownNouns.wcmx.freq'
             basename = filename
 
+        if pack:
+            # the loose files go to a directory of their own: files next to the package are not touched
+            tmpdir = tempfile.mkdtemp()
+            basename = os.path.join(tmpdir, os.path.basename(basename))
         meta_fname = "{}.meta".format(basename)
         if verbose:
             logger.info("\nSaving matrix...")
@@ -1361,8 +1367,7 @@ class TypeTokenMatrix(BaseMatrix):
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
                 inf.write(meta_fname, os.path.basename(meta_fname))
                 inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            shutil.rmtree(tmpdir)
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
@@ -1390,9 +1395,11 @@ class TypeTokenMatrix(BaseMatrix):
             basename = filename
         if pack:
             zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
+            tmpdir = tempfile.mkdtemp()  # do not touch the files next to the package
             with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
+                zf.extractall(tmpdir)
+                # the package may have been renamed
+                basename = os.path.join(tmpdir, os.path.splitext(zf.namelist()[0])[0])
 
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
@@ -1420,8 +1427,7 @@ class TypeTokenMatrix(BaseMatrix):
 
         # clean files
         if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            shutil.rmtree(tmpdir)
 
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
-- 
2.43.0


From fda9728f33242a20f2c6d5618082e36669624fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 17/87] fix: only line ends end a line of a text file

codecs.open splits lines at form feeds, NEL (0x85 in latin-1), U+2028 and other
characters as well: the lines of a corpus containing them were cut and all
line numbers after them were wrong.
---
 nephosem/core/handler.py     | 4 ++--
 nephosem/models/deprel.py    | 4 ++--
 nephosem/models/typetoken.py | 4 ++--
 nephosem/utils.py            | 7 ++++---
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 00eb74c..629d6de 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -33,7 +33,7 @@ try:
 except ImportError:
     import pickle as _pickle
 
-import codecs
+import io
 import logging
 import os
 from copy import deepcopy
@@ -323,7 +323,7 @@ class BaseHandler(Paralleler):
         # process file
         fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
         # fname = os.path.basename(filename).rsplit('.', 1)[0]  # for filename in token
-        with codecs.open(filename, 'r', input_encoding) as fin:
+        with io.open(filename, 'r', encoding=input_encoding) as fin:
             lid = 0  # line number (1-based)
             for line in fin:
                 lid += 1
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 1857563..61b60fb 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -16,7 +16,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Nephosem. If not, see <https://www.gnu.org/licenses/>.
 
-import codecs
+import io
 import logging
 import multiprocessing as mp
 import os
@@ -294,7 +294,7 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
     -------
     generator of sentences (tuple(int, string))
     """
-    with codecs.open(filename, 'r', encoding=encoding) as fin:
+    with io.open(filename, 'r', encoding=encoding) as fin:
         sentence = []
         lid = 0
         for line in fin:
diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index e73faff..b81faf6 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -43,7 +43,7 @@ Initialize a model with e.g.
 
 from __future__ import division
 
-import codecs
+import io
 import logging
 import os
 from collections import defaultdict
@@ -155,7 +155,7 @@ class ItemFreqHandler(BaseHandler):
             The corpus file name to process
         """
         # return super(ItemFreqHandler, self).update_one_file(filename, data)
-        with codecs.open(filename, 'r', self.input_encoding) as fin:
+        with io.open(filename, 'r', encoding=self.input_encoding) as fin:
             for line in fin:
                 line = line.strip()  # in case there is a '\n'
                 match = self.formatter.match_line(line)
diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..04ffb43 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -29,6 +29,7 @@ import os
 import sys
 import time
 import codecs
+import io
 import operator
 import shutil
 import json
@@ -139,7 +140,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     if ext != ".fnames":
         filename = "{}.fnames".format(filename)
     try:
-        with codecs.open(filename, 'r', encoding=encoding) as inf:
+        with io.open(filename, 'r', encoding=encoding) as inf:
             for line in inf:
                 line = line.strip()
                 if len(line) <= 0 or line.startswith('#'):
@@ -262,7 +263,7 @@ def load_dict_plain(filename, encoding='utf-8'):
     One word per line ( word[TAB]freq )
     """
     res_dict = dict()
-    with codecs.open(filename, 'r', encoding) as fin:
+    with io.open(filename, 'r', encoding=encoding) as fin:
         for line in fin:
             pair = line.strip().split('\t')
             if len(pair) < 2:
@@ -413,7 +414,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
     retval = []
     if not os.path.isfile(fname):
         return retval
-    with codecs.open(fname, 'r', encoding=encoding) as inf:
+    with io.open(fname, 'r', encoding=encoding) as inf:
         for line in inf:
             line = line.strip()
             if len(line) <= 0 or line.startswith('#'):
-- 
2.43.0


From 21a7612d3597fb642ee8f88d3fda32fa0e806028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 18/87] fix: plain frequency lists keep their items and
 frequencies

Blanks at the beginning of an item were stripped, and frequencies written
with an exponent (1e-05) could not be read back.
---
 nephosem/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 04ffb43..ecc2315 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -265,10 +265,13 @@ def load_dict_plain(filename, encoding='utf-8'):
     res_dict = dict()
     with io.open(filename, 'r', encoding=encoding) as fin:
         for line in fin:
-            pair = line.strip().split('\t')
+            pair = line.rstrip('\r\n').split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:  # e.g. 0.5, 1e-05
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From 5ff59a9d67252198e848cca4ab3634526d6b9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 19/87] fix: vocabularies filled by increments work as row and
 column vocabulary

They did not filter, so counting failed with a KeyError for any other item.
---
 nephosem/models/typetoken.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b81faf6..3205d70 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -218,6 +218,8 @@ class ColFreqHandler(BaseHandler):
             logger.error("No vocabulary of nodes has been provided.")
             return
         self.col_vocab = col_vocab if col_vocab else self.col_vocab
+        # the copy of a non-empty vocab always filters, also when the vocab was filled by increments
+        self.row_vocab, self.col_vocab = self.row_vocab.copy(), self.col_vocab.copy()
         logger.info("Building collocate frequency matrix...")
         res = self.process(fnames)
         return res
-- 
2.43.0


From 72a31345357486309415a61bd6b698aedf4059a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 20/87] fix: looking up a missing item does not add it to the
 vocabulary

---
 nephosem/core/vocab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index 8553bd6..fb1b74a 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -145,6 +145,8 @@ class Vocab(object):
 
         """
         if utils.is_string(arg):  # 'arg' is a str: e.g. vocab['argument/NN0']
+            if isinstance(self.freq_dict, defaultdict) and arg not in self.freq_dict:
+                return 0  # looking up an item does not add it
             return self.freq_dict[arg]
         elif isinstance(arg, list):  # vocab[]
             d = dict()
-- 
2.43.0


From 3c7e01f8ea6b15cc8854b56fb01f83eda39c2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 21/87] fix: sums, counts and drop of matrices with a single
 row or column

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 2044f38..79b5dbf 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -867,7 +867,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1128,7 +1128,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From a7f666a0b82f636476ac830db8cfddfd6ec534ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 22/87] fix: dense matrices with symmetric values need not have
 equal row and column labels

---
 nephosem/core/matrix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 79b5dbf..d40cc4b 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -692,9 +692,8 @@ class TypeTokenMatrix(BaseMatrix):
         if isinstance(self.matrix, sp.spmatrix):
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
-            if check_symmetric(self.matrix):
-                if self.row_items != self.col_items:
-                    raise ValueError("The row items and column items are not equal!")
+            # a matrix with other columns than rows is not square even if its values are symmetric
+            if self.row_items == self.col_items and check_symmetric(self.matrix):
                 self._mxbehavior = SquareMatrix(self.matrix)
             else:
                 self._mxbehavior = NormalMatrix(self.matrix)
-- 
2.43.0


From 4d5d96fa07c35f44acfb8b95020825fc15c2252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 23/87] fix: select only rows or only columns of a square
 matrix

---
 nephosem/core/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index d40cc4b..e3c360c 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -595,8 +595,11 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix[row]
-        submx = submx[:, col]
+        submx = self.matrix
+        if row is not None:
+            submx = submx[row]
+        if col is not None:
+            submx = submx[:, col]
         return submx
 
     def merge(self, *args):
-- 
2.43.0


From 4f642fe3b0f33e1bdb78ab14651355cc82f864a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 24/87] fix: concatenated sparse matrices can be indexed

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index e3c360c..dae692d 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -426,9 +426,9 @@ class SparseMatrix(BaseMatrix):
         axis : int
         """
         if axis == 0:
-            return sp.vstack([self.matrix, othermx])
+            return sp.vstack([self.matrix, othermx], format='csr')
         elif axis == 1:
-            return sp.hstack([self.matrix, othermx])
+            return sp.hstack([self.matrix, othermx], format='csr')
         else:
             raise ValueError("axis should be 0 or 1!")
 
-- 
2.43.0


From a1bbd78aa7d36019709ac625af0843c5e30e8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 25/87] fix: multiply a sparse matrix with explicit zeros by
 the values of the other matrix

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index dae692d..a1d64f5 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -193,13 +193,13 @@ class SparseMatrix(BaseMatrix):
             coomx = self.matrix.tocoo(copy=True)
             row, col, data = coomx.row, coomx.col, coomx.data
             othercoo = other.tocoo(copy=True)
-            mask_pairs = {(r, c) for r, c in zip(othercoo.row, othercoo.col)}
+            mask_pairs = {(r, c): d for r, c, d in zip(othercoo.row, othercoo.col, othercoo.data)}
             masked_row, masked_col, masked_data = [], [], []
             for r, c, d in zip(row, col, data):
                 if (r, c) in mask_pairs:
                     masked_row.append(r)
                     masked_col.append(c)
-                    masked_data.append(d)
+                    masked_data.append(d * mask_pairs[(r, c)])
             masked_row, masked_col, masked_data = np.array(masked_row), np.array(masked_col), np.array(masked_data)
             masked_mtx = sp.csr_matrix(
                             (masked_data, (masked_row, masked_col)),
-- 
2.43.0


From bf06b379e8c81fb91eb04664c13bbd69dda5eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 26/87] fix: conversion of matrices to and from data frames
 with current pandas

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a1d64f5..3904bef 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -154,7 +154,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1312,7 +1312,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From b6ebeb394d4c3f094ae11792d2828cff99f4383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 27/87] fix: dropping no rows returns a matrix of its own

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 3904bef..9bc8a09 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1178,7 +1178,7 @@ class TypeTokenMatrix(BaseMatrix):
         empty_items = self.empty_rows(explicit=explicit)
         if len(empty_items) == 0:
             logger.info("No empty rows!")
-            return self
+            return self.copy()
         empty_items = set(empty_items)
         rest_items = [e for e in self.row_items if e not in empty_items]
         return self.submatrix(row=rest_items)
-- 
2.43.0


From 364e4e00dad292f07f7de2e2bc438edfebb1dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 28/87] fix: matrices from dictionaries keep fractional values
 after an integer

---
 nephosem/specutils/mxutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..f152d1e 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,9 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
+    row = np.array(row, dtype=int)
+    col = np.array(col, dtype=int)
+    data = np.array(data)  # the data type is one that can hold all the values
 
     nEles = len(data)
     if verbose:
-- 
2.43.0


From 5105f076cdaeba270cf28c5a241de6b86a4ce473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 29/87] fix: merge two matrices of which one is transposed or
 empty

---
 nephosem/specutils/mxutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index f152d1e..a6fd194 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -210,11 +210,11 @@ def merge_two_matrices(mtx1, mtx2):
 
 def transform_indices(mtx, new_col_items):
     """"""
-    spmx = mtx.matrix
+    spmx = mtx.matrix.tocsr()
     glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}
     subidx2glbidx = [glbitem2glbidx[it] for i, it in enumerate(mtx.col_items)]
     # time cost bottleneck (the size of matrix.indices is large)
-    newindices = np.array([subidx2glbidx[i] for i in spmx.indices])
+    newindices = np.array([subidx2glbidx[i] for i in spmx.indices], dtype=int)
     newspmx = sp.csr_matrix((spmx.data, newindices, spmx.indptr), shape=(spmx.shape[0], len(new_col_items)))
     return newspmx
 
-- 
2.43.0


From 49e7af9d195e1def1df483a3f3d243c6f2216f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 30/87] fix: dropping all columns as empty gives None like
 dropping all rows

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9bc8a09..3f6d442 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1123,7 +1123,7 @@ class TypeTokenMatrix(BaseMatrix):
         elif axis == 1:
             tmx = self.transpose()
             dropped_tmx = tmx.drop_empty_rows(explicit=explicit)
-            return dropped_tmx.transpose()
+            return dropped_tmx.transpose() if dropped_tmx is not None else None
         else:
             raise ValueError("axis should be 0 or 1!")
 
-- 
2.43.0


From b256e21e55865069e1bfcd68e903c25916a4f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 31/87] fix: element-wise product of a sparse and a dense
 matrix

---
 nephosem/core/matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 3f6d442..80cc791 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -192,7 +192,7 @@ class SparseMatrix(BaseMatrix):
         if nonzeros > 0:  # sparse matrix has zero values
             coomx = self.matrix.tocoo(copy=True)
             row, col, data = coomx.row, coomx.col, coomx.data
-            othercoo = other.tocoo(copy=True)
+            othercoo = sp.coo_matrix(other)
             mask_pairs = {(r, c): d for r, c, d in zip(othercoo.row, othercoo.col, othercoo.data)}
             masked_row, masked_col, masked_data = [], [], []
             for r, c, d in zip(row, col, data):
@@ -206,7 +206,7 @@ class SparseMatrix(BaseMatrix):
                             shape=self.matrix.shape)
             return masked_mtx
         else:
-            return self.matrix.multiply(other)
+            return sp.csr_matrix(self.matrix.multiply(other))
 
     def __lt__(self, other):
         if other <= 0.0:
@@ -466,6 +466,8 @@ class NormalMatrix(BaseMatrix):
         return self.matrix[arg]
 
     def multiply(self, other):
+        if sp.issparse(other):
+            other = other.toarray()  # the product of the cells, not of the matrices
         return self.matrix * other
 
     def __lt__(self, other):
-- 
2.43.0


From e16b43def70a554e3a2967df9f02bb81508f6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 32/87] fix: compute_token_weights with current numpy

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..6cb912a 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From 130476bc2d27e987eaa7211096e12421bc877dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 33/87] fix: multiply token vectors by the non-zero values of
 the context words

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 6cb912a..37796e5 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From a81a50a5fd8ab0ac63d021b04f01833a05d54a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 34/87] fix: compute_ppmi without marginal frequencies

---
 nephosem/specutils/mxcalc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 37796e5..f4dead4 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,18 +42,18 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(freqmx.sum() if nfreq is None else nfreq.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
-- 
2.43.0


From 953864fd02aeb0ad347ee9022018c1778c69fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 35/87] fix: token vectors from transposed (column-ordered)
 matrices

---
 nephosem/specutils/mxcalc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index f4dead4..f94c63f 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -602,8 +602,7 @@ def compute_token_vectors(tcWeightMTX, soccMTX, operation='addition', normalizat
 def dot_addition(mtx_l, mtx_r):
     """Dot addition of two matrices"""
     # check mtx type
-    assert isinstance(mtx_l, sp.csr_matrix)
-    assert isinstance(mtx_r, sp.csr_matrix)
+    assert sp.issparse(mtx_l) and sp.issparse(mtx_r)
     return mtx_l.dot(mtx_r).toarray()
 
 
-- 
2.43.0


From 4dee6a927a94e0eebf567af3673d34491d8552f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 36/87] fix: most_similar returns k items in the order of their
 values

---
 nephosem/core/matrix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 80cc791..980f909 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -643,12 +643,16 @@ class SquareMatrix(BaseMatrix):
         a list of elements
 
         """
-        row = self.matrix[rid]
+        # the item itself is not one of its similar items
+        others = np.delete(np.arange(self.matrix.shape[1]), rid)
+        row = self.matrix[rid][others]
         if descending:  # for similarity matrix
-            idx = mxutils.get_largest_k(row, k+1)
+            idx = mxutils.get_largest_k(row, k)
+            idx = idx[np.argsort(row[idx], kind='stable')[::-1]]
         else:
-            idx = mxutils.get_smallest_k(row, k+1)
-        return idx
+            idx = mxutils.get_smallest_k(row, k)
+            idx = idx[np.argsort(row[idx], kind='stable')]
+        return others[idx]
 
 
 class TypeTokenMatrix(BaseMatrix):
-- 
2.43.0


From 6a7eb2adc46da0bd554228a3488368281f61d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 37/87] fix: accept the distance metric 'cos'

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index f94c63f..3b7bd6d 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -376,7 +376,7 @@ def compute_distance(measMTX, axis=0, metric='cosine'):
     }
     if metric not in dtypes:
         raise NotImplementedError("Unknown metric {}".format(metric))
-    distmx = calc_distance(measmx, metric=metric)
+    distmx = calc_distance(measmx, metric='cosine' if metric == 'cos' else metric)
 
     kwargs = {
         'matrix': distmx, 'row_items': items, 'col_items': items,  # necessary parameters
-- 
2.43.0


From bd01ba0e2933519e45b6e361644f98ec0f06c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 38/87] fix: the data frame of a dense matrix is a copy

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 980f909..a121c09 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -457,7 +457,7 @@ class NormalMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.DataFrame(self.matrix)
+        return pd.DataFrame(self.matrix, copy=True)
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -559,7 +559,7 @@ class SquareMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.DataFrame(self.matrix)
+        return pd.DataFrame(self.matrix, copy=True)
 
     def __getitem__(self, arg):
         return self._get_value(arg)
-- 
2.43.0


From c9bc671a68a9c4a678b541f15ba5ceb9aed994e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 39/87] fix: the result of merge_matrices is independent of the
 first matrix

---
 nephosem/specutils/mxutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index a6fd194..bd1fc36 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -235,11 +235,11 @@ def merge_matrices(matrices):
     if not matrices or len(matrices) == 0:
         return matrices
     if len(matrices) == 1:
-        return matrices[0].matrix, matrices[0].row_items, matrices[0].col_items
+        return matrices[0].matrix.copy(), list(matrices[0].row_items), list(matrices[0].col_items)
 
     consistent = True
     # check row items and column items consistency
-    row_items, col_items = matrices[0].row_items, matrices[0].col_items
+    row_items, col_items = list(matrices[0].row_items), list(matrices[0].col_items)
     for i in range(1, len(matrices)):
         if matrices[i].row_items != row_items:
             consistent = False
-- 
2.43.0


From 31d17cb225155401d4f0f82c6e3d2a62ec107325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 40/87] fix: find the root of a pattern whatever its nodes are
 called

---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 6ce2e4c..6cdd1db 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -120,7 +120,7 @@ def parse_pattern(target, feature, larrow='<-', rarrow='->'):
 
 def get_root(gx):
     """Get the root of a tree"""
-    v = 1
+    v = next(iter(gx.nodes))
     while True:
         ps = gx.predecessors(v)  # there should always be one predecessor
         try:
-- 
2.43.0


From 7b7ce2ac671c717afc432b5be37a19f8a5911bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 41/87] fix: a pattern node or edge without conditions matches
 anything

---
 nephosem/specutils/deputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 6cdd1db..33ff594 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -183,7 +183,7 @@ def tree_match(sentence, macro):
 
     # iterate over each sentence node that matches the root of the feature
     for v, vitem in sentence.nodes:
-        if not macro.match_node(vitem, idx=froot):
+        if macro.match_node(vitem, idx=froot) is None:
             continue
         mapping = {froot: v}  # mapping of the first level
         # recursively match the sentence with the feature from this node
@@ -346,7 +346,7 @@ def match_successors(sentence, scur, pattern, fcur):
                 vmatched = pattern.match_node(vitem, idx=fsuc)
                 ematched = pattern.match_edge(eitem, idx=(fcur, fsuc))
                 # if not matched, the returned vmatched or ematched should be None
-                if vmatched and ematched:
+                if vmatched is not None and ematched is not None:
                     msuccs.append(ssuc)
             # TODO: check for symmetry
             if len(msuccs) > 0:
-- 
2.43.0


From a5967ab07812db41d6d8456f48530c58aace5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 42/87] fix: a full feature starts at the root of the pattern,
 whatever its number

---
 nephosem/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..b499451 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -31,7 +31,7 @@ import networkx as nx
 import xml
 from xml.dom import minidom
 
-from nephosem.specutils.deputils import match_graph, tree_match, get_depth, draw_tree, draw_match, parse_pattern
+from nephosem.specutils.deputils import match_graph, tree_match, get_depth, get_root, draw_tree, draw_match, parse_pattern
 
 logger = logging.getLogger(__name__)
 
@@ -704,7 +704,7 @@ class MacroGraph(PatternGraph):
         node_dict = self.matched_nodes[index]
         edge_dict = self.matched_edges[index]
         # preorder traversal, start from the root
-        start = 1
+        start = get_root(self.graph)
         reprs = []
         # add the string repr of the start node
         if start == self.target_idx:
-- 
2.43.0


From 6275f159d8da612696d2bc9b6dc3c5ad5174f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 43/87] fix: keep relations with a colon whole in full features

---
 nephosem/core/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index b499451..1748d69 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -730,13 +730,13 @@ class MacroGraph(PatternGraph):
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
                 node_attrs = node_dict[succ]
                 node_repr = self.get_node_repr(succ, node_attrs)
-                succs.append((succ, ':'.join([edge_repr, node_repr])))
+                succs.append((succ, ':'.join([edge_repr, node_repr]), edge_repr))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
-            for succ, srepr in succs:
+            for succ, srepr, edge_repr in succs:
                 if succ == self.target_idx:
                     # replace the target node repr by '#T#'
-                    reprs.append(':'.join([srepr.split(':')[0], '#T#']))
+                    reprs.append(':'.join([edge_repr, '#T#']))
                 else:
                     reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
-- 
2.43.0


From c2a213282c50685869420cfd79abca217dfe8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:53 +0000
Subject: [PATCH 44/87] fix: the order of the parts of a full feature does not
 depend on the target word

---
 nephosem/core/graph.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 1748d69..bd15ee8 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -729,16 +729,13 @@ class MacroGraph(PatternGraph):
                 edge_attrs = edge_dict[(curr, succ)]
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
                 node_attrs = node_dict[succ]
-                node_repr = self.get_node_repr(succ, node_attrs)
-                succs.append((succ, ':'.join([edge_repr, node_repr]), edge_repr))
+                # replace the target node repr by '#T#'
+                node_repr = '#T#' if succ == self.target_idx else self.get_node_repr(succ, node_attrs)
+                succs.append((succ, ':'.join([edge_repr, node_repr])))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
-            for succ, srepr, edge_repr in succs:
-                if succ == self.target_idx:
-                    # replace the target node repr by '#T#'
-                    reprs.append(':'.join([edge_repr, '#T#']))
-                else:
-                    reprs.append(srepr)
+            for succ, srepr in succs:
+                reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
                 reprs.append(',')
             reprs.pop()  # pop the last ','
-- 
2.43.0


From bd26958affc452933c2896687c10ff901b842b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 45/87] fix: read graphml patterns in any layout and encoding

---
 nephosem/core/graph.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index bd15ee8..719b564 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -545,32 +545,16 @@ class PatternGraph(DiGraph):
 
     @classmethod
     def read_graphml(cls, fname):
-        with open(fname) as fin:
-            graphs = []
-            header = []
-            ender = None
-            graphml = []
-            line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('<graph') and not sline.startswith('<graphml'):
-                    break
-                header.append(line)
-                line = fin.readline()
-            while line:
-                sline = line.strip()
-                if sline.startswith('</graphml'):
-                    ender = line
-                    break
-                graphml.append(line)
-                if sline.startswith('</graph'):
-                    graphs.append(graphml)
-                    graphml = []
-                # start of a graph
-                line = fin.readline()
-        graphs = [''.join(header + gml + [ender]) for gml in graphs]
-
         doc = minidom.parse(fname)
+        # split the document into one document per graph
+        graphs = []
+        for i in range(len(doc.getElementsByTagName('graph'))):
+            single = doc.documentElement.cloneNode(deep=True)
+            for j, other in enumerate(single.getElementsByTagName('graph')):
+                if j != i:
+                    other.parentNode.removeChild(other)
+            graphs.append(single.toxml())
+
         attrs = doc.getElementsByTagName('key')
         defaults = {}
         for attr in attrs:
-- 
2.43.0


From 182edc5abdf4cae94ca51be9ff248bf4ff106f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 46/87] fix: default conditions of edges in graphml patterns
 belong to edges

---
 nephosem/core/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 719b564..68df86b 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -556,12 +556,12 @@ class PatternGraph(DiGraph):
             graphs.append(single.toxml())
 
         attrs = doc.getElementsByTagName('key')
-        defaults = {}
+        defaults = {'node': {}, 'edge': {}}
         for attr in attrs:
             attrname = attr.attributes['attr.name'].value
             try:
                 default = attr.getElementsByTagName('default')[0]
-                defaults[attrname] = default.childNodes[0].data
+                defaults[attr.attributes['for'].value][attrname] = default.childNodes[0].data
             except:
                 pass
 
@@ -570,7 +570,11 @@ class PatternGraph(DiGraph):
             g = nx.parse_graphml(graphml_string=gmlstring, node_type=int)
             # add default attribute values
             for n, attrs in g.nodes(data=True):
-                for attr, val in defaults.items():
+                for attr, val in defaults['node'].items():
+                    if attr not in attrs:
+                        attrs[attr] = val
+            for _h, _d, attrs in g.edges(data=True):
+                for attr, val in defaults['edge'].items():
                     if attr not in attrs:
                         attrs[attr] = val
 
-- 
2.43.0


From fea43a70ed39bd892902e7ad5a22820f5e32bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 47/87] fix: read macros with an empty description

---
 nephosem/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 68df86b..8e946f4 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -993,7 +993,7 @@ class MacroGraph(PatternGraph):
         target = macroxml.getElementsByTagName('target')[0]
         target_idx = int(target.attributes['nodeID'].value)
         target_desc_tag = target.getElementsByTagName('description')
-        target_desc = target_desc_tag[0].childNodes[0].data if len(target_desc_tag) > 0 else "no description"
+        target_desc = target_desc_tag[0].childNodes[0].data if len(target_desc_tag) > 0 and target_desc_tag[0].hasChildNodes() else "no description"
         # parse the feature information
         feature = macroxml.getElementsByTagName('feature')[0]
         try:
@@ -1001,7 +1001,7 @@ class MacroGraph(PatternGraph):
         except Exception as e:
             feature_idx = -1
         feat_desc_tag = feature.getElementsByTagName('description')
-        feat_desc = feat_desc_tag[0].childNodes[0].data if len(feat_desc_tag) > 0 else "no description"
+        feat_desc = feat_desc_tag[0].childNodes[0].data if len(feat_desc_tag) > 0 and feat_desc_tag[0].hasChildNodes() else "no description"
         # construct a macro
         macro = cls(id2patt[pattern_id], target_idx=target_idx, feature_idx=feature_idx)
         macro.id = macro_id
-- 
2.43.0


From 4791673cc62c89fe6238b0d0d96413493eed47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 48/87] fix: read macros from a CSV/TSV file

---
 nephosem/core/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 8e946f4..c082f73 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -878,7 +878,14 @@ class MacroGraph(PatternGraph):
         templates = PatternGraph.read_csv(fname, target_colname=target_colname, feature_colname=feature_colname,
                                           sep=sep, header=header, **kwargs)
         # target node index is always 1
-        features = [cls(tplt, target=1) for tplt in templates]
+        features = [cls(tplt, target_idx=1) for tplt in templates]
+        for feature in features:
+            # the matched parts are the (first) groups of the regular expressions
+            node_attrs = {attr: 1 for attr in feature.graph.nodes[1]}
+            feature.target_node_attrs = dict(node_attrs)
+            feature.feature_node_attrs = dict(node_attrs)
+            feature.feature_edge_attrs = {attr: 1 for _h, _d, attrs in feature.graph.edges(data=True)
+                                          for attr in attrs if attr != 'id'}
         return features
 
     @classmethod
-- 
2.43.0


From f0c32d20d3f4802ea4f8047b3099b79373ea0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 49/87] fix: patterns and macros of a CSV/TSV file have the
 identifiers written there

---
 nephosem/core/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index c082f73..e105262 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -394,6 +394,7 @@ class PatternGraph(DiGraph):
             mapping from two-tuple (of nodes) edge to label
         """
         super(PatternGraph, self).__init__()
+        self.id = None
         if not graph:
             for idx, attrs in nodes.items():
                 if isinstance(attrs, str):
@@ -539,6 +540,8 @@ class PatternGraph(DiGraph):
             tplt = cls(node_dict, edge_dict)
             # add the original string representation as an attribute of template
             tplt.repr_ = feature
+            if 'ID' in feat_df.columns:
+                tplt.id = int(feat_df['ID'].iloc[i])
             templates.append(tplt)
 
         return templates
@@ -631,6 +634,7 @@ class MacroGraph(PatternGraph):
         # example: {'DEPREL': 1}
         self.feature_edge_attrs = {}
         self.target_filter = target_filter
+        self.id = pattern.id
         self.repr_ = pattern.repr_
         # self.set_feature(feature_filter)
         self.matched_nodes = []
-- 
2.43.0


From a18e08a552a2968d6995e983dc88b90472bac3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 50/87] fix: nested lists in the arrow notation of patterns

---
 nephosem/specutils/deputils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 33ff594..53c1f33 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -54,6 +54,21 @@ def find_arrow(s, start, larrow='<-', rarrow='->'):
     return len(s)
 
 
+def split_list(s):
+    """Split a list of nodes at its commas, not at those inside brackets"""
+    parts, depth, start = [], 0, 0
+    for i, c in enumerate(s):
+        if c in '[{(':
+            depth += 1
+        elif c in ')}]':
+            depth -= 1
+        elif c == ',' and depth == 0:
+            parts.append(s[start:i])
+            start = i + 1
+    parts.append(s[start:])
+    return parts
+
+
 def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
               larrow='<-', rarrow='->'):
     if len(subfeature.strip()) <= 0:
@@ -63,8 +78,7 @@ def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
     # the sub-feature would be either a list of nodes or a sub-tree
     if subfeature[0] == '[' and subfeature[-1] == ']':
         # list of nodes: [(acomp) (\w+)/(JJ) , (nsubj) (\w+)/(N)\w*]
-        next_nodes = subfeature[1:-1].split(',')
-        next_nodes = [n.strip() for n in next_nodes]
+        next_nodes = [n.strip() for n in split_list(subfeature[1:-1])]
         for node in next_nodes:
             node = node.strip()
             parse_sub(prev_nid, node, arrow, node_dict, edge_dict)
-- 
2.43.0


From 09bb112f8539edc903a2b3797f909b79da2f9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 51/87] fix: score clusters by the given score function

---
 nephosem/models/cbc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..f97aeb7 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1067,7 +1067,9 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
             continue
 
         avgsim = clustsims[cid]
-        if metric == 'with_size_sqrt':
+        if score_func is not None:
+            score = score_func(len(ids), avgsim)
+        elif metric == 'with_size_sqrt':
             score = math.sqrt(len(ids)) * avgsim
         elif metric == 'with_size':
             score = len(ids) * avgsim
-- 
2.43.0


From 77951f82bd7cb71494bb88d68697863b672c652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:05 +0000
Subject: [PATCH 52/87] fix: keep one of equal clusters when another cluster
 has the same score

---
 nephosem/models/cbc.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index f97aeb7..d8aa806 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -642,19 +642,13 @@ def clean_clusters(L):
 
 def remove_duplicate(clusters):
     """Remove duplicate clusters"""
-    if len(clusters) <= 0:
-        return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    # equal clusters need not be neighbours: other clusters may have the same score
+    seen = set()
+    diffL = []
+    for s, clust in clusters:
+        if frozenset(clust) not in seen:
+            seen.add(frozenset(clust))
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From 056ce9f39751c07fbb96d1d200358877d246015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:13 +0000
Subject: [PATCH 53/87] fix: compare a committee with every other one before
 keeping both

---
 nephosem/models/cbc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index d8aa806..af191ab 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -573,8 +573,7 @@ def get_merged_committee(simmx, theta=0.35):
         sortidx = sortsimmx[i]
         # iterate over the indices from the largest one
         idx = -1
-        for j in range(-2, -(sortidx.shape[0]), -1):
-            tmpidx = sortidx[j]
+        for tmpidx in sortidx[::-1]:
             if tmpidx > i and tmpidx not in merged:
                 # if committee has not been processed
                 # and committee has not been merged
-- 
2.43.0


From 54db3182a5955bb7d441f5e345837d7acfb21d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 54/87] fix: CBC without association measure or distance matrix

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index af191ab..b1d937b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -49,7 +49,7 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
-from nephosem.specutils.mxcalc import calc_association, calc_distance
+from nephosem.specutils.mxcalc import compute_ppmi, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir, clean_dir
 
@@ -123,11 +123,11 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = compute_ppmi(freqmx)
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = compute_distance(measmx)
             print("done.")
 
         self.elements = elements
-- 
2.43.0


From bf9669639bb4103c410dd9eb6226fdd65382bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 55/87] fix: words without any committee are left over instead
 of lost

---
 nephosem/models/cbc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index b1d937b..bfe8d88 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -481,10 +481,12 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
     if not L or len(L) <= 0:
-        return L
+        return [], None
 
     # clean clusters
     committees, singletons = clean_clusters(L)
+    if len(committees) == 0:
+        return [], None
 
     # transform cluster elements from str to int
     e2id = {e: i for i, e in enumerate(elements)}
-- 
2.43.0


From 5db5158ee8f8b6ef0d61729ff4707368c76b557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 56/87] fix: words in another order than, or fewer than, the
 rows of the matrices of CBC

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index bfe8d88..888bb39 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -240,9 +240,9 @@ def major_steps(cbc, eles=None, multicore=True):
         eles = cbc.elements
     # in later recursions use submatrix of residues to speed up
     # and we have to, because the similar elements of a residue are fetched from all residues
-    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.elements != eles else cbc.freqmx
-    measmx = cbc.measmx.submatrix(row=eles) if cbc.elements != eles else cbc.measmx
-    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.elements != eles else cbc.distmx
+    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.freqmx.row_items != eles else cbc.freqmx
+    measmx = cbc.measmx.submatrix(row=eles) if cbc.measmx.row_items != eles else cbc.measmx
+    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.distmx.row_items != eles else cbc.distmx
 
     # step 1
     logger.info("\nstep 1 ...")
-- 
2.43.0


From 4c15f1effc0ecd8d77dc5bb70228d99e22b3054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 57/87] fix: CBC uses its highest_score parameter

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 888bb39..fc19d5c 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -251,7 +251,7 @@ def major_steps(cbc, eles=None, multicore=True):
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
         'prune_method': cbc.prune_method, 't': cbc.t,
-        'score_metric': cbc.score_metric,
+        'score_metric': cbc.score_metric, 'highest_score': cbc.highest_score,
     }
     if multicore and len(eles) > num_workers:
         # use multicore version when the number of elements is large ( > number of cpu cores)
-- 
2.43.0


From 9440749860ee942eeca489dbb5c3b8c4efd3f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 58/87] fix: no clusters are lost when a process of the pool
 takes several groups of words

---
 nephosem/models/cbc.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index fc19d5c..59a4502 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -292,7 +292,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                         score_metric='without_size', highest_score=False):
     """
     ~/.cbc/.10933/
-                 /L/  : folder for temporary L(s)
                  /distmx.meta
                  /distmx.npy
     """
@@ -300,9 +299,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
     make_dir(tmpdir)
     clean_dir(tmpdir)
-    L_tmpdir = os.path.join(tmpdir, 'L')
-    make_dir(L_tmpdir)
-    clean_dir(L_tmpdir)
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
@@ -314,6 +310,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
         data_group[idx].append(elements[i])
 
     pool = Pool(processes=num_cores)
+    results = []
     for i in range(num_cores):
         args = (data_group[i], tmpdir,)
         kwargs = {
@@ -322,25 +319,20 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
             'score_metric': score_metric, 'highest_score': highest_score,
         }
         try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
+            results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
         except Exception as err:
             logger.exception("Error:", err)
     pool.close()
     pool.join()
 
     # merge results
+    # (one process may have clustered several groups of elements)
     L = []
-    for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
+    for res in results:
+        L.extend(res.get())
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
-        os.rmdir(L_tmpdir)
         os.rmdir(tmpdir)
     except Exception as err:
         logger.exception("clean tmp folder error: {}".format(err))
@@ -380,10 +372,6 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
-    with codecs.open(tmp_proc_fname, 'w') as outf:
-        json.dump(L, outf, ensure_ascii=False, indent=4)
-
     return L
 
 
-- 
2.43.0


From 30ddfd5ea9bf4f76b2b242f1dfaaecbb34a76a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 59/87] fix: cluster with one process on a single-core machine

---
 nephosem/models/cbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 59a4502..5e1f951 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -246,7 +246,7 @@ def major_steps(cbc, eles=None, multicore=True):
 
     # step 1
     logger.info("\nstep 1 ...")
-    num_workers = cpu_count() - 1
+    num_workers = max(1, cpu_count() - 1)
     args = (eles,)
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
@@ -302,7 +302,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(1, cpu_count() - 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-- 
2.43.0


From 7a2791b6ed7521af3897d9b7c866120a1eb85090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 60/87] fix: item nodes of corpora without a word, lemma or pos
 column

---
 nephosem/core/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..d45646d 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -73,9 +73,9 @@ class ItemNode(object):
 #             word = formatter.get_word(match)
 #             lemma = formatter.get_lemma(match)
 #             pos = formatter.get_pos(match)
-            word = formatter.get(match, "word")
-            lemma = formatter.get(match, "lemma")
-            pos = formatter.get(match, "pos")
+            word = formatter.get(match, "word") if "word" in formatter.global_columns else None
+            lemma = formatter.get(match, "lemma") if "lemma" in formatter.global_columns else None
+            pos = formatter.get(match, "pos") if "pos" in formatter.global_columns else None
         # if TypeNode and TokenNode both have to deal with 'word', 'lemma', 'pos'
         # then put these parts in super class ItemNode
         self.word = word
-- 
2.43.0


From e520eddb1dc1a1f4c77652305e17655d1386e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 61/87] fix: print item nodes with missing parts

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index d45646d..886a1c6 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -123,7 +123,7 @@ class ItemNode(object):
         """String representation, like it in the original file line.
         [word]\TAB[pos]\TAB[lemma]
         """
-        return '\t'.join([self.word, self.pos, self.lemma])
+        return '\t'.join(['' if x is None else x for x in (self.word, self.pos, self.lemma)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 021daafb9b3dbcca564e86e0a80ed08d4271f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 62/87] fix: type nodes built from strings know their type
 format

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 886a1c6..14afcee 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -183,9 +183,9 @@ class TypeNode(ItemNode):
                         pos = ele
                     else:
                         raise ValueError("Type format should only include 'word', 'lemma', 'pos'!")
-                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos)
+                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos, type_fmt=type_fmt)
             elif word or lemma or pos:  # case 3: at least provide one
-                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos)
+                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos, type_fmt=type_fmt)
         else:
             # raise ValueError("Please provide necessary info!")
             raise ValueError("Please provide type format!")
-- 
2.43.0


From 7e158fd1ca2ae88eeaca236b902467709991422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 63/87] fix: sample a type with fewer tokens than asked for

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 14afcee..e676c06 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -253,7 +253,7 @@ class TypeNode(ItemNode):
         A new TypeNode object
         """
         if method == 'random':
-            sample_indices = set(random.sample(range(self.freq), n))
+            sample_indices = set(random.sample(range(self.freq), min(n, self.freq)))
             sample_tokens = [h for i, h in enumerate(self.tokens) if i in sample_indices]
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
-- 
2.43.0


From 643ee095688ba578a0f9bc346196ec4fc0e121de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 64/87] fix: tokens without collocates

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index e676c06..d84bebd 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -363,8 +363,8 @@ class TokenNode(ItemNode):
         self.fid = fid
         self.lid = str(lid)
         self.format = token_fmt
-        self.lcollocs = lcollocs
-        self.rcollocs = rcollocs
+        self.lcollocs = lcollocs if lcollocs is not None else []
+        self.rcollocs = rcollocs if rcollocs is not None else []
         self.__dict__.update(**kwargs)
 
     @property
-- 
2.43.0


From 4537a70e45ae18eee3fda016ec357b7a65cbaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 65/87] fix: parse token strings of files in subdirectories

---
 nephosem/core/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index d84bebd..eb60918 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -338,6 +338,10 @@ class TokenNode(ItemNode):
             if token_str:  # case 2
                 eles = token_str.split(self.connector)
                 fmts = token_fmt.split(self.connector)
+                if 'fid' in fmts and len(eles) > len(fmts):
+                    # the file id may be a relative path, e.g. 'is/verb/dir/fname/1'
+                    i, more = fmts.index('fid'), len(eles) - len(fmts)
+                    eles[i:i + more + 1] = [self.connector.join(eles[i:i + more + 1])]
                 if len(eles) != len(fmts):
                     raise ValueError("Provided type string and type_fmt length inconsistent!")
                 for ele, fmt in zip(eles, fmts):
-- 
2.43.0


From 83c070902317c9ae7c438c1b85e5b98dd64dadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 66/87] fix: token string of an integer line number

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index eb60918..a3d8c8c 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -683,7 +683,7 @@ class CorpusFormatter(object):
 
     def get_token(self, match, fid, lid):
         """Get token string from match object."""
-        eles = [match.group(i) for i in self._token] + [fid, lid]
+        eles = [match.group(i) for i in self._token] + [fid, str(lid)]
         return self.connector.join(eles)
 
     def get_colloc(self, match):
-- 
2.43.0


From eeb489a8c3172e21ecda20b0356e6cda4c4133a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 67/87] fix: save and load type nodes

---
 nephosem/core/terms.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index a3d8c8c..97c106c 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -223,8 +223,10 @@ class TypeNode(ItemNode):
         if verbose:
             print("Saving tokens of {}/{}".format(self.lemma, self.pos))
         data = dict()
+        data['word'] = self.word
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['type-format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,8 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(word=data.get('word'), lemma=data['lemma'], pos=data['pos'],
+                   type_fmt=data.get('type-format', 'lemma/pos'), tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -392,6 +395,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['token-format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -404,9 +408,16 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        token_fmt = json_data.get('token-format', 'word/pos/fid/lid')
+
+        def load_colloc(col):  # [word]\TAB[pos]\TAB[lemma]
+            parts = [x if x else None for x in col.split('\t')]
+            return ItemNode(word=parts[0], pos=parts[1], lemma=parts[2])
+
+        lcollocs = [load_colloc(col) for col in json_data['left-collocates']]
+        rcollocs = [load_colloc(col) for col in json_data['right-collocates']]
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid, token_fmt=token_fmt,
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From 10aaf0eb38938dcc74841ff3a01add1f605452c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:08 +0000
Subject: [PATCH 68/87] fix: read word queries that contain a colon

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ecc2315..ccab835 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -431,7 +431,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
                 }
                 fields = line.split("\t")
                 for field in fields:
-                    eles = field.split(":")
+                    eles = field.split(":", 1)
                     if len(eles) != 2:
                         continue
                     item_corpus_name = eles[0].strip()
-- 
2.43.0


From 53e6802f4e8759b2db9031c3dcecffd527fab205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 69/87] fix: restore nested objects when saving fails

---
 nephosem/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ccab835..86b8cc6 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -688,13 +688,14 @@ class SaveLoad(object):
 
         recursive_saveloads = []
         restores = []
-        for attrib, val in iteritems(self.__dict__):
-            if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
-                recursive_saveloads.append(attrib)
-                cfname = '.'.join((fname, attrib))
-                restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
-
         try:
+            for attrib, val in iteritems(self.__dict__):
+                if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                    recursive_saveloads.append(attrib)
+                    cfname = '.'.join((fname, attrib))
+                    restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol,
+                                                       compress, subname))
+
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
                 if isinstance(val, np.ndarray) and attrib not in ignore:
@@ -740,8 +741,9 @@ class SaveLoad(object):
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
         except Exception:
             # restore the attributes if exception-interrupted
-            for attrib, val in iteritems(asides):
-                setattr(self, attrib, val)
+            for obj, obj_asides in restores + [(self, asides)]:
+                for attrib, val in iteritems(obj_asides):
+                    setattr(obj, attrib, val)
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From 9a89651bdb1c85a2a15c6151af0ec7e441c95a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:51 +0000
Subject: [PATCH 70/87] fix: saving an object again after storing attributes
 separately

---
 nephosem/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 86b8cc6..4d3b45f 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -582,6 +582,12 @@ class SaveLoad(object):
         for attrib in getattr(self, '__ignoreds', []):
             logger.info("setting ignored attribute %s to None", attrib)
             setattr(self, attrib, None)
+        self._drop_marks()
+
+    def _drop_marks(self):
+        """Forget which attributes are stored separately: that is only true of the file."""
+        for mark in ('__numpys', '__scipys', '__ignoreds', '__recursive_saveloads'):
+            self.__dict__.pop(mark, None)
 
     @staticmethod
     def _adapt_by_suffix(fname):
@@ -640,6 +646,7 @@ class SaveLoad(object):
             for obj, asides in restores:
                 for attrib, val in iteritems(asides):
                     setattr(obj, attrib, val)
+                obj._drop_marks()
         logger.info("saved %s", fname)
 
     def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname):
@@ -744,6 +751,7 @@ class SaveLoad(object):
             for obj, obj_asides in restores + [(self, asides)]:
                 for attrib, val in iteritems(obj_asides):
                     setattr(obj, attrib, val)
+                obj._drop_marks()
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From 5c5fe7ed6a11269d289bcfe7612e7bc519366a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 71/87] fix: files of the same name in different folders got
 the same dependency token identifiers

---
 nephosem/models/deprel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 61b60fb..78b9a59 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -257,11 +257,12 @@ class DepRelHandler(BaseHandler):
             2.2 so the matching should be a target-feature matching
             2.3 this is a way of speeding up the process when the targets are provided
         """
-        basename = os.path.basename(fname).rsplit('.', 1)[0]  # for filename in token
+        # file path relative to the corpus without extension, like in `BaseHandler.update_one_file()`
+        fid = os.path.splitext(os.path.relpath(fname, start=self.corpus_path or os.path.dirname(os.path.abspath(fname))))[0]
         # read each sentence from the corpus file
         sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
         for s in sentences:
-            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=basename, mode=self.mode)
+            ss = SentenceGraph(sentence=s, formatter=self.formatter, fname=fid, mode=self.mode)
             if ss.istree:
                 for macro in macros:
                     ss.match_pattern(macro)
-- 
2.43.0


From 678fe10e995f59a946ef2e5a774ce0305e3e6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 72/87] fix: vocabularies given to one call of build_col_freq
 also filtered later calls without them

---
 nephosem/models/typetoken.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 3205d70..f30bd0e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -213,6 +213,7 @@ class ColFreqHandler(BaseHandler):
         :class:`~nephosem.TypeTokenMatrix`
         """
         fnames = self.prepare_fnames(fnames)
+        init_vocabs = self.row_vocab, self.col_vocab
         self.row_vocab = row_vocab if row_vocab else self.row_vocab
         if len(self.row_vocab) == 0:
             logger.error("No vocabulary of nodes has been provided.")
@@ -221,7 +222,11 @@ class ColFreqHandler(BaseHandler):
         # the copy of a non-empty vocab always filters, also when the vocab was filled by increments
         self.row_vocab, self.col_vocab = self.row_vocab.copy(), self.col_vocab.copy()
         logger.info("Building collocate frequency matrix...")
-        res = self.process(fnames)
+        try:
+            res = self.process(fnames)
+        finally:
+            # the vocabs of this call are not those of later calls
+            self.row_vocab, self.col_vocab = init_vocabs
         return res
 
     def process(self, fnames, **kwargs):
-- 
2.43.0


From 5cb14ceafd9c9c9900f0caecac467a982b440f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 73/87] fix: two runs started at the same time both create the
 temporary directory

The one that came second ended with FileExistsError.
---
 nephosem/logging.py | 3 +--
 nephosem/utils.py   | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index f707522..88871bd 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -119,8 +119,7 @@ def init_logging():
     # do not use system temporary folder, users might not have privilege.
     homedir = os.path.expanduser('~')
     tmpdir = os.path.join(homedir, 'tmp')
-    if not os.path.exists(tmpdir):
-        os.makedirs(tmpdir)
+    os.makedirs(tmpdir, exist_ok=True)  # another process may create it at the same time
 
     # create a file handler
     file_handler = logging.FileHandler('{}/nephosem.log'.format(tmpdir))  # ~/tmp/nephosem.log
diff --git a/nephosem/utils.py b/nephosem/utils.py
index 4d3b45f..c88004c 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -86,9 +86,7 @@ def is_string(text):
 
 def make_dir(dirname):
     """Create directory if not exist."""
-    if not os.path.exists(dirname):
-        os.makedirs(dirname)
-    # os.makedirs(dirname, exist_ok=True)  # only for Python3
+    os.makedirs(dirname, exist_ok=True)  # another process may create it at the same time
 
 
 def clean_dir(dirname):
-- 
2.43.0


From 16e52505bfa34cd65d90b03bc37a6441bbc547f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 74/87] fix: CBC runs within the same minute use each other's
 temporary directory

A run deleted or replaced the distance matrix of another one that was still
working, and stored its results over those of the other one.
---
 nephosem/models/cbc.py |  7 +++----
 nephosem/utils.py      | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 5e1f951..2deb062 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -51,7 +51,7 @@ from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.specutils.mxcalc import compute_ppmi, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
-from nephosem.utils import make_dir, clean_dir
+from nephosem.utils import make_dir, make_new_dir
 
 __all__ = ['CBC']
 
@@ -206,7 +206,7 @@ class CBC(object):
             i += 1
 
         restmpdir = os.path.join(tmpdir, 'res.{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-        make_dir(restmpdir)
+        restmpdir = make_new_dir(restmpdir)  # keep the results of other runs
         try:
             save_committees_json(restmpdir, Cs)
             save_residues_json(restmpdir, Rs)
@@ -297,8 +297,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     """
     homedir = os.path.expanduser('~')
     tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-    make_dir(tmpdir)
-    clean_dir(tmpdir)
+    tmpdir = make_new_dir(tmpdir)  # other runs may use theirs at the same time
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
diff --git a/nephosem/utils.py b/nephosem/utils.py
index c88004c..6481a26 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -89,6 +89,25 @@ def make_dir(dirname):
     os.makedirs(dirname, exist_ok=True)  # another process may create it at the same time
 
 
+def make_new_dir(dirname):
+    """Create a directory that did not exist before:
+    `dirname`, or if there is one already `dirname`.1, `dirname`.2, etc.
+
+    Returns
+    -------
+    str
+        The name of the new directory.
+    """
+    newdir, i = dirname, 0
+    while True:
+        try:
+            os.makedirs(newdir)
+            return newdir
+        except FileExistsError:
+            i += 1
+            newdir = '{}.{}'.format(dirname, i)
+
+
 def clean_dir(dirname):
     """Clean directory.
     If there are files in this directory, remove them all.
-- 
2.43.0


From 58fe098e07c92774894169efab3cbc1b61cd25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 75/87] fix: matrices with different labels are multiplied by
 position

---
 nephosem/core/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a121c09..edf117e 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -812,7 +812,8 @@ class TypeTokenMatrix(BaseMatrix):
         return self._mxbehavior[arg]
 
     def multiply(self, other):
-        # TODO: check consistency first!!!
+        if self.row_items != other.row_items or self.col_items != other.col_items:
+            raise ValueError("The row and column items of the two matrices are not equal!")
         resmx = self._mxbehavior.multiply(other.matrix)
         return TypeTokenMatrix(resmx, self.row_items, self.col_items, **self.meta_data)
 
-- 
2.43.0


From f325e2db49bcc06b6d972279e76f3f834f93aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 76/87] fix: submatrix() of the whole matrix shares its values
 with the matrix

---
 nephosem/core/matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index edf117e..798e476 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -951,7 +951,9 @@ class TypeTokenMatrix(BaseMatrix):
             sub_col_items = deepcopy(self.col_items)
         submx = self._mxbehavior.submatrix(row=row, col=col)
         # since we generate a new sub-matrix object, we need not deep copy when generating a new TypeTokenMatrix object
-        return TypeTokenMatrix(submx, sub_row_items, sub_col_items, deep=False, **self.meta_data)
+        # (unless the whole matrix is selected)
+        deep = row is None and col is None
+        return TypeTokenMatrix(submx, sub_row_items, sub_col_items, deep=deep, **self.meta_data)
 
     def most_similar(self, item, k=10, descending=False):
         """Get most similar items of the target item.
-- 
2.43.0


From 3748b414393d66aaae039797c7069f54dd8bebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:17 +0000
Subject: [PATCH 77/87] fix: words get lost when a round of CBC ends with an
 error

They were neither in committees nor among the residues. A process of the pool
that cannot read the distances returned no clusters for its words.
---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 2deb062..a48c3a2 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -187,7 +187,7 @@ class CBC(object):
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
                 logger.exception(err)
-                curC, curR = [], []
+                curC, curR = [], residues  # no word gets lost
 
             Cs.append(curC)
             Rs.append(curR)
@@ -348,8 +348,8 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
     try:
         distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
     except Exception as err:
-        logger.exception("Matrix load error: ".format(err))
-        return []
+        logger.exception("Matrix load error: {}".format(err))
+        raise
     logger.info("Starting subprocess {}...".format(pid))
 
     L = []
-- 
2.43.0


From 262abc6bea240a5d0b5139b81e83f0cb1d2ce813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:17 +0000
Subject: [PATCH 78/87] fix: attributes that are not arrays get lost when they
 are to be stored separately

---
 nephosem/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 6481a26..83b96e6 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -705,8 +705,10 @@ class SaveLoad(object):
                     separately.append(attrib)
 
         # whatever's in `separately` or `ignore` at this point won't get pickled
+        # (only arrays can be stored separately)
         for attrib in separately + list(ignore):
-            if hasattr(self, attrib):
+            if attrib in ignore and hasattr(self, attrib) or \
+                    isinstance(getattr(self, attrib, None), (np.ndarray,) + sparse_matrices):
                 asides[attrib] = getattr(self, attrib)
                 delattr(self, attrib)
 
-- 
2.43.0


From ffd2a3d42de8610cc2129c821510c9d169d098bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:12 +0000
Subject: [PATCH 79/87] fix: settings with only one of the two names of the
 separator expression raise KeyError

When both are set, 'separator-line-machine' is still the one that is used.
---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 97c106c..7976397 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -601,9 +601,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From ab90819903edd23fa307879170211bcba6826b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:13 +0000
Subject: [PATCH 80/87] fix: compute_ppmi with very large frequencies overflows

The product of two frequencies of 3.1e9 or more does not fit in 64 bits.
---
 nephosem/specutils/mxcalc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 3b7bd6d..22a3a8c 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -50,12 +50,12 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
         # sum of each rows of freqmx (size = row-size)
         row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
-        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
+        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items], dtype=np.float64)
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
         col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
-        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
+        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items], dtype=np.float64)
 
     freqmx = freqmx.tocoo()
     row = freqmx.row  # indices of row
-- 
2.43.0


From 1d20d9cc6528a5666ff2edbb83d405f505c7030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:41 +0000
Subject: [PATCH 81/87] fix: creating a CorpusFormatter adds a collocate format
 to the settings of the caller

When the type format was changed afterwards, the collocate format stayed the old one.
---
 nephosem/core/handler.py | 1 +
 nephosem/core/terms.py   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 629d6de..640c043 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -249,6 +249,7 @@ class BaseHandler(Paralleler):
 
         self.settings = deepcopy(settings)
         self.formatter = CorpusFormatter(self.settings)
+        self.settings.setdefault('colloc', self.formatter.colloc_format)
         if 'corpus-path' not in self.settings:
             logger.warning("There is no corpus path!")
         self.corpus_path = self.settings.get('corpus-path', None)
diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 7976397..1c15991 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -587,6 +587,7 @@ class CorpusFormatter(object):
     connector = '/'  # string for connecting components of a type, token and colloc
 
     def __init__(self, settings):
+        settings = deepcopy(settings)  # the defaults set below are not for the settings of the caller
         self.match = None
         if 'line-machine' in settings:
             self.line_machine = re.compile(settings['line-machine'])
@@ -650,7 +651,7 @@ class CorpusFormatter(object):
         self.node_attr = settings.get('node-attr', 'word,pos,lemma')
         self.edge_attr = settings.get('edge-attr', None)
 
-        self.settings = deepcopy(settings)  # store settings for possible uses
+        self.settings = settings  # store settings for possible uses
 
     def match_line(self, line, form=None):
         if not form:
-- 
2.43.0


From dfbd8d8ec2a35a49e5aa49bc6cefc0e142d39c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:41 +0000
Subject: [PATCH 82/87] fix: sparse matrices that store a cell in several parts
 give other values

Merging, comparisons, equality and association measures saw only one
of the parts of a cell, or each of them on its own.
---
 nephosem/core/matrix.py       | 6 ++++++
 nephosem/specutils/mxutils.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 798e476..5be468f 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -699,6 +699,12 @@ class TypeTokenMatrix(BaseMatrix):
         self._item2colid = None
 
         if isinstance(self.matrix, sp.spmatrix):
+            if self.matrix.format in ('csr', 'csc', 'coo') and not self.matrix.has_canonical_format:
+                # the value of a cell is the sum of everything that is stored for it
+                summed = self.matrix.copy()
+                summed.sum_duplicates()
+                if summed.nnz != self.matrix.nnz:
+                    self.matrix = summed
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
             # a matrix with other columns than rows is not square even if its values are symmetric
diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index bd1fc36..2d828cc 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -118,7 +118,8 @@ def transform_spmatrix_to_dict(spmatrix, rowid2item, colid2item, verbose=False):
         print("\nBuilding python dict of dict from sparse matrix...")
 
     dict_mtx = dict()
-    matrix = spmatrix.tocoo()  # easier usage
+    matrix = spmatrix.tocoo(copy=True)  # easier usage
+    matrix.sum_duplicates()  # the value of a cell is the sum of everything that is stored for it
     row, col, data = matrix.row, matrix.col, matrix.data
     for i in range(len(data)):
         rid, cid = row[i], col[i]
-- 
2.43.0


From 706597c74916f4da600e7f1c03ed8162da9c311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:27 +0000
Subject: [PATCH 83/87] fix: labels that look like numbers are printed as other
 labels, and large values lose digits

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 5be468f..b32bafa 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1522,7 +1522,7 @@ class TypeTokenMatrix(BaseMatrix):
         if n_rows < shape[0]:
             res.append(["..."] * len(res[0]))
 
-        table = tabulate(res, tablefmt='plain')
+        table = tabulate(res, tablefmt='plain', disable_numparse=True)
         return table
 
     def spmatrix_to_dict(self):
-- 
2.43.0


From 3309a002fbe7da903f4734dbb7c127314cd452fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:29 +0000
Subject: [PATCH 84/87] fix: subvocab forgets the encoding of the vocabulary

Saved without naming an encoding, the list was written in UTF-8, unlike every other selection.
---
 nephosem/core/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index fb1b74a..55ce4d6 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -319,7 +319,7 @@ class Vocab(object):
         sub_vocab = dict()
         for it in items:
             sub_vocab[it] = self.freq_dict.get(it, 0)
-        return self.__class__(sub_vocab)
+        return self.__class__(sub_vocab, encoding=self.encoding)
 
     # ------- filter methods -------
     @staticmethod
-- 
2.43.0


From 400063fd481b92a7d202f9f37999b145e08adb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:29 +0000
Subject: [PATCH 85/87] fix: build_tc_weight_matrix gives weights to the wrong
 context words

The columns of the result are those of the weight matrix, but it was
labelled with the columns of the position matrix. A token without any
context word raised a KeyError.
---
 nephosem/models/typetoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index f30bd0e..05b510c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1240,7 +1240,7 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
     for type_, toks in type2token.items():
         tw_row = type_weight_mtx[type_]
         for tok in toks:
-            tc_row = tok_context_mtx[tok]
+            tc_row = tok_context_mtx.get(tok, {})  # a token without context words has no row
             tc_feats = tc_row.keys()
             for feat in tc_feats:
                 if feat not in tw_row:
@@ -1249,4 +1249,4 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
                 tok_weight_dict[tok][feat] = val
 
     tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, twMTX.col_items)
-    return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, tcPositionMTX.col_items)
+    return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, twMTX.col_items)
-- 
2.43.0


From 4888997983d3b9bc74a16404d968fcc816535252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:44 +0000
Subject: [PATCH 86/87] fix: association of words that meet as often as
 expected is not exactly zero

The expected frequency 1 and the ratio 1 were replaced by 0.9999999999, so pmi and ppmi of some independent pairs
were 1e-10. Such columns were not dropped as empty, and a weighted mean over such weights alone gave a full vector.
---
 nephosem/specutils/mxcalc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 22a3a8c..9003e2f 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -233,8 +233,9 @@ def calc_pmi(c_a_b, c_na_b, c_a_nb, c_na_nb):
     pmi = math.log(adjust_val(jprob / (xprob * yprob)))
     '''
     e11 = (o11 + o12) * (o11 + o21) / N
-    e11 = adjust_val(e11)
-    pmi = math.log(adjust_val(o11 / e11))
+    # only zeros are replaced: a ratio of 1 is exactly 0, also when the expected frequency is 1
+    ratio = o11 / (e11 if e11 != 0 else 1e-10)
+    pmi = math.log(ratio if ratio != 0 else 1e-10)
     return pmi
 
 
@@ -316,7 +317,7 @@ def calc_log_ratio(c_a_b, c_na_b, c_a_nb, c_na_nb):
     o11, o21, o12, o22 = float(c_a_b), float(c_na_b), float(c_a_nb), float(c_na_nb)
     # ratio = (o11 * (o21 + o22)) / (o21 * (o21 + o22)) if o21 != 0 else 1.0
     ratio = (o11 / (o11 + o12)) / (o21 / (o21 + o22)) if o21 != 0 else 1.0
-    logr = math.log(adjust_val(ratio))
+    logr = math.log(ratio if ratio != 0 else 1e-10)
     return logr
 
 
-- 
2.43.0


From 736c82a91cc30656cddd0ddcabc3ee0b4b8ff56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:44 +0000
Subject: [PATCH 87/87] fix: calc_association without marginals fails for a
 matrix of one row or one column

---
 nephosem/specutils/mxcalc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 9003e2f..8cb5ad3 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -155,12 +155,12 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
     # we are calculating on a subset of the complete matrix
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array(nfreq) if isinstance(nfreq, list) else nfreq
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
-- 
2.43.0

