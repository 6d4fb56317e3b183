From c469e95a02865ec202cfa3122add9e3b4b7ecd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:38 +0000
Subject: [PATCH 01/39] fix: restore the exact position of the shuffling
 iterator

set_state() left the unread part of the previous line and the end-of-file flag
in place, so that an iterator that was rewound returned words of another
sentence or ended the epoch, and the unread part of a split sentence was lost
from the saved state.
---
 theanolm/parsing/shufflingbatchiterator.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..0d2b457 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -14,6 +14,7 @@ from numpy import random
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -155,6 +156,9 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        # When the maximum sequence length is limited, the end of the line that
+        # was read last may still be waiting in the buffer.
+        h5_iterator.attrs['buffered_words'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -184,6 +188,19 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+
+        # Forget what was read before restoring the state, and return to the
+        # same position inside the line.
+        self._end_of_file = False
+        self._buffer = []
+        buffered_words = int(h5_iterator.attrs.get('buffered_words', 0))
+        if buffered_words > 0:
+            self._next_line -= 1
+            line, file_id = self._readline()
+            self._buffer = [(word, file_id)
+                            for word in utterance_from_line(line)]
+            self._buffer = self._buffer[-buffered_words:]
+
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From bd44d282c4fa3e13070ecf46cfbd436c4afde232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:38 +0000
Subject: [PATCH 02/39] fix: count mini-batches from the beginning in
 BatchIterator.__len__()

The unread part of a split sentence was counted, and the end-of-file flag made
the next epoch empty, if the iterator had been used before.
---
 theanolm/parsing/batchiterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..8277027 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -105,6 +105,9 @@ class BatchIterator(object, metaclass=ABCMeta):
         :returns: the number of mini-batches that the iterator creates
         """
 
+        # Start from the beginning, regardless of how much has been read.
+        self._buffer = []
+        self._end_of_file = False
         self._reset(False)
         num_sequences = 0
 
-- 
2.43.0


From 41ad09a5386e679c712c48c9789da95792436b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 03/39] fix: use the class membership probability of the
 predicted word in lattice decoding

---
 theanolm/scoring/latticedecoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..ff6199a 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,13 +629,15 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
-        target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
-        target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        target_word_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
+        target_word_ids *= target_word_id
+        target_class_ids, membership_probs = \
+            self._vocabulary.get_class_memberships(target_word_ids)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
-- 
2.43.0


From 25cf20a1e996d7ea5b154cb90a9d555f2f1348a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 04/39] fix: visit every reachable node when sorting a word
 lattice

---
 theanolm/scoring/lattice.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..cccec4f 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -180,11 +180,23 @@ class Lattice(object):
         stamps.
         """
 
+        # The nodes that can be reached from the initial node. Links from other
+        # nodes have to be ignored, because they will never be traversed.
+        reachable = {self.initial_node.id}
+        node_queue = [self.initial_node]
+        while node_queue:
+            for link in node_queue.pop().out_links:
+                if link.end_node.id not in reachable:
+                    reachable.add(link.end_node.id)
+                    node_queue.append(link.end_node)
+
         result = []
         # A queue of nodes to be visited next:
         node_queue = [self.initial_node]
         # The number of incoming links not traversed yet:
-        in_degrees = [len(node.in_links) for node in self.nodes]
+        in_degrees = [sum(link.start_node.id in reachable
+                          for link in node.in_links)
+                      for node in self.nodes]
         while node_queue:
             node = node_queue.pop()
             result.append(node)
@@ -198,6 +210,8 @@ class Lattice(object):
                 elif in_degrees[next_node.id] < 0:
                     raise InputError("Word lattice contains a cycle.")
 
+        if len(result) < len(reachable):
+            raise InputError("Word lattice contains a cycle.")
         if len(result) < len(self.nodes):
             logging.warning("Word lattice contains unreachable nodes.")
         else:
-- 
2.43.0


From 4b2096c602f6b02e828d2a535a48bdae47aebd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 05/39] fix: keep words with special characters when reading
 and writing SLF lattices

---
 theanolm/scoring/lattice.py    | 11 ++++++++++-
 theanolm/scoring/slflattice.py |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index cccec4f..41b2c73 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -97,9 +97,16 @@ class Lattice(object):
         :param output_file: a file where to write the output
         """
 
+        def quote(value):
+            """Quotes the value of a field. Quotation marks and backslashes have
+            to be escaped.
+            """
+            value = str(value).replace('\\', '\\\\').replace('"', '\\"')
+            return '"{}"'.format(value)
+
         output_file.write("# Header (generated by TheanoLM)\n")
         output_file.write("VERSION=1.1\n")
-        output_file.write('UTTERANCE="{}"\n'.format(self.utterance_id))
+        output_file.write("UTTERANCE={}\n".format(quote(self.utterance_id)))
         fields = []
         if self.lm_scale is not None:
             fields.append("lmscale={}".format(self.lm_scale))
@@ -125,6 +132,8 @@ class Lattice(object):
                       "E={}".format(link.end_node.id)]
             if link.word is None:
                 fields.append("W=!NULL")
+            elif any(x in link.word for x in ' \t"\\'):
+                fields.append("W={}".format(quote(link.word)))
             else:
                 fields.append("W={}".format(link.word))
             if link.ac_logprob is not None:
diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..af618bc 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -28,7 +28,12 @@ def _split_slf_line(line):
               marks removed
     """
 
+    # Only entire lines are comments. A # may be a part of a word.
+    if line.lstrip().startswith('#'):
+        return []
+
     lex = shlex(line, posix=True)
+    lex.commenters = ''
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-- 
2.43.0


From b9b95928f45bdabd83ef586ffc7ecdf6b24ba4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 06/39] fix: keep the transition IDs of null links in the right
 order in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..05ab842 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -50,8 +50,9 @@ def _follow_word_from_node(node, word):
             ac_logprob += link.ac_logprob
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
+        if link.transitions:
+            transitions = '_'.join(filter(None, (link.transitions,
+                                                 transitions)))
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
-- 
2.43.0


From cc6c4e209f2587363c340fff0dde316e5d417e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 07/39] fix: keep final weights in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 63 +++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 05ab842..b6557f5 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -55,6 +55,39 @@ def _follow_word_from_node(node, word):
                                                  transitions)))
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_null_links_to_final(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (Lattice.Node, float, float, str)
+    :returns: the final node (or ``None`` if a final node cannot be reached
+              without words), and the total acoustic log probability, LM log
+              probability, and transition IDs of the null links
+    """
+
+    if node.final:
+        return (node, 0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        final_node, ac_logprob, lm_logprob, transitions = \
+            _follow_null_links_to_final(link.end_node)
+        if final_node is None:
+            continue
+        if link.ac_logprob is not None:
+            ac_logprob += link.ac_logprob
+        if link.lm_logprob is not None:
+            lm_logprob += link.lm_logprob
+        if link.transitions:
+            transitions = '_'.join(filter(None, (link.transitions,
+                                                 transitions)))
+        return (final_node, ac_logprob, lm_logprob, transitions)
+
+    return (None, 0.0, 0.0, "")
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -97,8 +130,9 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of two Lattice.Nodes
+            :returns: the last node of the path in this lattice, and in the
+                      original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
@@ -120,18 +154,22 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
+            # the entire path probability in the final link. The null links at
+            # the end of the path (e.g. the final weight in a Kaldi lattice) are
+            # included in the final link.
+            _, ac_logprob, lm_logprob, transitions = \
+                _follow_null_links_to_final(orig_node)
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -149,7 +187,7 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, _ = follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -162,7 +200,7 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
+            from_node, _ = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
             new_link = self.Link(from_node, recomb_link.end_node, word,
                                  recomb_link.ac_logprob,
@@ -238,8 +276,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of two Lattice.Nodes
+        :returns: the last node of the path in this lattice, and in the original
+                  lattice
         """
 
         node = self.initial_node
@@ -272,4 +311,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From 6fdf29b52ea0995d138475b160acc9079dee7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 08/39] fix: use the scores of the right link for recombined
 tokens in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index b6557f5..b8995b1 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -200,12 +200,18 @@ class RescoredLattice(Lattice):
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node, _ = follow_word_ids(token.history[:-1])
+            from_node, orig_node = follow_word_ids(token.history[:-1])
             lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
+            # The other scores come from the link that the dropped token
+            # followed.
+            orig_end_node, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(orig_node, word)
+            if orig_end_node is None:
+                continue
             new_link = self.Link(from_node, recomb_link.end_node, word,
-                                 recomb_link.ac_logprob,
-                                 recomb_link.lm_logprob + lm_logprob_diff,
-                                 recomb_link.transitions)
+                                 ac_logprob,
+                                 lm_logprob + lm_logprob_diff,
+                                 transitions)
             from_node.out_links.append(new_link)
             # Tokens never contain null words, so we can be sure that
             # word_to_link maps in our new lattice never skip nodes.
-- 
2.43.0


From 5e19db6b3ec75ae914d66926f1ed81e031164236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 09/39] fix: keep paths that are recombined at the end of the
 sentence in rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index b8995b1..03cf7c8 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -152,8 +152,14 @@ class RescoredLattice(Lattice):
 
         self._add_word_maps(original_lattice.nodes)
 
-        # Create all the paths that correspond to the final tokens.
-        for token in final_tokens:
+        # Create all the paths that correspond to the final tokens. Tokens that
+        # were recombined after reaching the end of the sentence are final too.
+        eos_id = vocabulary.word_to_id['</s>']
+        recomb_final_tokens = [token for token, _, _ in recomb_tokens
+                               if token.history[-1] == eos_id]
+        recomb_tokens = [recomb for recomb in recomb_tokens
+                         if recomb[0].history[-1] != eos_id]
+        for token in list(final_tokens) + recomb_final_tokens:
             node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
-- 
2.43.0


From ef7fcc7c74e6f170be8f5e94e4d30b958c6fcb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 10/39] fix: pass the relative pruning options of theanolm
 decode to the decoder

---
 theanolm/commands/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..f8ddd0b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,7 +135,7 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
         help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From cbcc6dabcf16a84381fc4165f643e1cee833e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 11/39] fix: write the word insertion penalty of a rescored
 lattice in the base of its other scores

---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index f8ddd0b..e1564fd 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -248,7 +248,7 @@ def decode(args):
                                                recomb_tokens,
                                                network.vocabulary)
             rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            rescored_lattice.wi_penalty = wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From 982fb30686a2d99dd11eeae867b624dd2a3028bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:21 +0000
Subject: [PATCH 12/39] fix: do not require GPU support for decoding lattices

---
 theanolm/backend/gpu.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..3ca49ef 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,14 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
+    try:
+        names = theano.gpuarray.type.list_contexts()
+    except AttributeError:
+        # No GPU support or we couldn't list the contexts because an old version
+        # of libgpuarray is installed.
+        return
+
+    for name in names:
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
         logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
-- 
2.43.0


From f4478861c07ddf97d7429bedf343fe18a0faf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:40 +0000
Subject: [PATCH 13/39] fix: mask padding out of the shifted input of backward
 layers

---
 theanolm/network/grulayer.py  | 8 +++++++-
 theanolm/network/lstmlayer.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..91c6988 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -76,9 +76,15 @@ class GRULayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. Mask out the words past
+            # the end of a sequence first, so that the state does not depend on
+            # how much the sequence has been padded.
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
+            layer_input_preact = tensor.switch(
+                self._network.mask[:, :, None],
+                layer_input_preact,
+                tensor.zeros_like(layer_input_preact))
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
                 axis=0)
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..8b85c6e 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -81,9 +81,15 @@ class LSTMLayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. Mask out the words past
+            # the end of a sequence first, so that the state does not depend on
+            # how much the sequence has been padded.
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
+            layer_input_preact = tensor.switch(
+                self._network.mask[:, :, None],
+                layer_input_preact,
+                tensor.zeros_like(layer_input_preact))
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
                 axis=0)
-- 
2.43.0


From c0f70844394de991c6af49413442da6d4167d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:23 +0000
Subject: [PATCH 14/39] fix: hierarchical softmax ignored exclude_unk

---
 theanolm/network/hsoftmaxlayer.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/theanolm/network/hsoftmaxlayer.py b/theanolm/network/hsoftmaxlayer.py
index 4087688..63cd1ad 100644
--- a/theanolm/network/hsoftmaxlayer.py
+++ b/theanolm/network/hsoftmaxlayer.py
@@ -52,6 +52,10 @@ class HSoftmaxLayer(BasicLayer):
                           scale=0.01)
         self._init_bias('level1/b', (level1_size, level2_size))
 
+        vocabulary = self._network.vocabulary
+        self._unk_id = vocabulary.word_to_id['<unk>']
+        self._unk_class_id = vocabulary.word_id_to_class_id[self._unk_id]
+
         self.output = None
         self.output_probs = None
         self.target_probs = None
@@ -94,6 +98,23 @@ class HSoftmaxLayer(BasicLayer):
                                       input_bias,
                                       level1_weight,
                                       level1_bias)
+        if self._network.exclude_unk:
+            # Set <unk> probability to zero and normalize.
+            unk_class_ids = tensor.alloc(numpy.int64(self._unk_class_id),
+                                         minibatch_size)
+            unk_probs = tensor.nnet.h_softmax(
+                layer_input.reshape([minibatch_size, input_size]),
+                minibatch_size,
+                self.output_size,
+                self._level1_size,
+                self._level2_size,
+                input_weight,
+                input_bias,
+                level1_weight,
+                level1_bias,
+                unk_class_ids).reshape([minibatch_size])
+            probs = tensor.set_subtensor(probs[:, self._unk_class_id], 0.0)
+            probs /= (1.0 - unk_probs)[:, None]
         self.output_probs = probs.reshape([num_time_steps,
                                            num_sequences,
                                            self.output_size])
@@ -112,5 +133,9 @@ class HSoftmaxLayer(BasicLayer):
                                       level1_weight,
                                       level1_bias,
                                       target_class_ids)
+        if self._network.exclude_unk:
+            probs = probs.reshape([minibatch_size]) / (1.0 - unk_probs)
+            probs = tensor.switch(
+                tensor.eq(target_class_ids, self._unk_class_id), 0.0, probs)
         self.target_probs = probs.reshape([num_time_steps,
                                            num_sequences])
-- 
2.43.0


From a7ffce6f5292e69e439cbc232e9efcfe9c45a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:52 +0000
Subject: [PATCH 15/39] fix: read numbered inputs and list values of an
 architecture in numeric order

---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From f73d4a8228fc67cb4d43d7eee3058bbea5d06271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:18 +0000
Subject: [PATCH 16/39] fix: report every architecture mismatch as an
 incompatible state

---
 theanolm/network/architecture.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..8e34a2b 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0}.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,6 +246,10 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0}.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -323,6 +331,12 @@ class Architecture(object):
                           strings
         """
 
+        for variable in list(h5_group.attrs) + list(h5_group):
+            if variable not in variables:
+                raise IncompatibleStateError(
+                    "Neural network state specifies {}, while this "
+                    "architecture does not.".format(variable))
+
         for variable, values in variables.items():
             if isinstance(values, list):
                 # For backward compatibility. Remove at some point.
@@ -334,7 +348,16 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
+                if variable not in h5_group:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {}, while this "
+                        "architecture does.".format(variable))
                 h5_values = h5_group[variable]
+                if len(h5_values.attrs) != len(values):
+                    raise IncompatibleStateError(
+                        "Neural network state has {1} {2}, while this "
+                        "architecture has {0}.".format(
+                            len(values), len(h5_values.attrs), variable))
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
                     if value != h5_value:
@@ -343,6 +366,10 @@ class Architecture(object):
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
+                if variable not in h5_group.attrs:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {}, while this "
+                        "architecture does.".format(variable))
                 h5_value = h5_group.attrs[variable]
                 if values != h5_value:
                     raise IncompatibleStateError(
-- 
2.43.0


From aa95dccbbe06b15895b1919dfb6c7fb2ad6d7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:18 +0000
Subject: [PATCH 17/39] fix: save scalar parameters also over an earlier value

---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From e6d6cb956552ef867c4a4a0168ab23709a9ead1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:29 +0000
Subject: [PATCH 18/39] fix: score lines that contain out-of-shortlist words

---
 theanolm/scoring/textscorer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..89567c0 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,9 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        # Out-of-shortlist words don't have own classes, they are in the <unk>
+        # class.
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 5dce216807d70198a2b416618d26cab65a9e1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:29 +0000
Subject: [PATCH 19/39] fix: do not divide by zero when all the words are
 excluded from scoring

---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..04e9a48 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From ae9c4b03c237b47abe6915c28c53c5e1f4f96f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 20/39] fix: use the statistics function given to
 Trainer.set_validation()

---
 theanolm/training/trainer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..4662b34 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -115,8 +115,6 @@ class Trainer(object):
         self._total_updates = 0
         # validation set cost history
         self._cost_history = None
-        # function for averaging cross-validation measurements
-        self._statistics_function = None
         # duration of the last mini-batch update
         self._update_duration = None
 
@@ -148,7 +146,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From bae4d0674d61efe3fc966ea3799ffd8d399f64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 21/39] fix: perform validations also when the interval is
 shorter than the number of samples

---
 theanolm/training/trainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 4662b34..19e33bc 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -144,6 +144,12 @@ class Trainer(object):
 
         if samples_per_validation is not None:
             self._samples_per_validation = samples_per_validation
+        # With more samples than there are updates between two validations, the
+        # samples would never be complete and every validation would be ignored.
+        interval = self._updates_per_epoch // \
+                   max(1, self._options['validation_frequency'])
+        self._samples_per_validation = max(1, min(self._samples_per_validation,
+                                                  interval))
 
         if statistics_function is not None:
             self._statistic_function = statistics_function
-- 
2.43.0


From 5f76fb1cfac56263dfa080d5db11f8257eb93491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 22/39] fix: do not repeat the last epoch when continuing
 training without validation

---
 theanolm/training/trainer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 19e33bc..f9a3ac6 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -234,9 +234,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -251,6 +248,10 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # Training data has been reset to the beginning of the next epoch.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From 83610ad73828f2e6c973d83e6ee3cb09863e892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 23/39] fix: take sampling of training data into account in the
 validation schedule

---
 theanolm/training/trainer.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index f9a3ac6..60462b4 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -13,7 +13,7 @@ import numpy
 import theano
 
 from theanolm.backend import IncompatibleStateError
-from theanolm.parsing import ShufflingBatchIterator, LinearBatchIterator
+from theanolm.parsing import ShufflingBatchIterator
 from theanolm.training.stoppers import create_stopper
 
 class Trainer(object):
@@ -48,17 +48,17 @@ class Trainer(object):
 
         self._vocabulary = vocabulary
 
-        print("Computing the number of mini-batches in training data.")
-        linear_iter = LinearBatchIterator(
+        self._training_iter = ShufflingBatchIterator(
             training_files,
+            sampling,
             vocabulary,
             batch_size=training_options['batch_size'],
             max_sequence_length=training_options['sequence_length'],
             map_oos_to_unk=True)
+
+        print("Computing the number of mini-batches in training data.")
         sys.stdout.flush()
-        self._updates_per_epoch = 0
-        for _, _, _ in linear_iter:
-            self._updates_per_epoch += 1
+        self._updates_per_epoch = len(self._training_iter)
         if self._updates_per_epoch < 1:
             raise ValueError("Training data does not contain any sentences.")
         logging.debug("One epoch of training data contains %d mini-batch "
@@ -70,14 +70,6 @@ class Trainer(object):
                       numpy.log(self.class_prior_probs.min()),
                       numpy.log(self.class_prior_probs.max()))
 
-        self._training_iter = ShufflingBatchIterator(
-            training_files,
-            sampling,
-            vocabulary,
-            batch_size=training_options['batch_size'],
-            max_sequence_length=training_options['sequence_length'],
-            map_oos_to_unk=True)
-
         self._stopper = create_stopper(training_options, self)
         self._options = training_options
 
-- 
2.43.0


From 228ff9ec8fba34bda9254ed815438647fed517a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 24/39] fix: scale mini-batch updates by the weights of the
 training files

---
 theanolm/training/basicoptimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..0e1ab8a 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -110,9 +110,10 @@ class BasicOptimizer(object, metaclass=ABCMeta):
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
         weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
-        modified_alpha = tensor.switch(tensor.gt(num_words, 0),
-                                       alpha * weight / num_words_float,
+        num_positions = tensor.cast(self.network.mask.sum(),
+                                    theano.config.floatX)
+        modified_alpha = tensor.switch(tensor.gt(num_positions, 0),
+                                       alpha * weight / num_positions,
                                        alpha)
 
         # Ignore unused input, because is_training is only used by dropout
@@ -128,7 +129,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0


From f21ceea5b835ff4b232ee64d5825cf3a12356c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 25/39] fix: allow gradients not to be normalized

---
 theanolm/training/basicoptimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 0e1ab8a..d92bc32 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -69,8 +69,9 @@ class BasicOptimizer(object, metaclass=ABCMeta):
             # weights for training files
             self._weights = optimization_options['weights']
             # maximum norm for parameter updates
-            self._max_gradient_norm = float_type(
-                optimization_options['max_gradient_norm'])
+            self._max_gradient_norm = optimization_options['max_gradient_norm']
+            if self._max_gradient_norm is not None:
+                self._max_gradient_norm = float_type(self._max_gradient_norm)
             # number of noise samples for sampling based output
             num_noise_samples = optimization_options['num_noise_samples']
             # noise sample sharing for sampling based output
-- 
2.43.0


From e42d5ce247ed26e6cd01179c88dd5e087fd0b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 26/39] fix: update the mean squared gradient in RMSProp
 Nesterov optimizer

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From b3f6b7354b3a6cab6f78a0a5cb18a033112b8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 27/39] fix: do not divide by zero when all the words of a
 mini-batch are excluded

---
 theanolm/training/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..e88ed5a 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,8 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # All the words may be excluded.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From 0814c77fcd31fa3c378a75c4493e92e539393c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 28/39] fix: exit when some of the parameters are disconnected

---
 theanolm/commands/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..714b2ca 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -442,6 +442,7 @@ def train(args):
                   "parameters are disconnected from the output. Make sure all "
                   "the layers are correctly connected in the network "
                   "architecture. The error message was: `{}´".format(e))
+            sys.exit(1)
 
         if args.print_graph:
             print("Cost function computation graph:")
-- 
2.43.0


From a20c37f58fa9b870cef98ac3968cbf5d48f1de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 29/39] fix: evaluate moves that involve zero counts in
 NumpyBigramOptimizer

---
 wordclasses/numpybigramoptimizer.py | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..37fa695 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -180,6 +178,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
             result += new_count * numpy.log(new_count)
         return result
 
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        vector that may contain zeros (or nothing but zeros).
+        """
+
+        return (numpy.ma.log(x) * x).filled(0)
+
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
         """
-- 
2.43.0


From 1bfe6ca84fd81433f9a0c71c3ff2f67550bfbdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:59 +0000
Subject: [PATCH 30/39] fix: evaluate moves that involve zero counts in
 TheanoBigramOptimizer

---
 wordclasses/theanobigramoptimizer.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..4321c8c 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,18 +302,13 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    @classmethod
+    def _ll_change(cls, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return cls._xlogx(new_count) - cls._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-- 
2.43.0


From 647b4a799b6a9cc5295787ff0156250ab3c00db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 31/39] fix: read gzip-compressed training and validation text

The compressed bytes were memory-mapped instead of the text when a
training or validation file was given with .gz suffix.
---
 theanolm/commands/train.py                 |  6 ++---
 theanolm/parsing/functions.py              | 28 ++++++++++++++++++++++
 theanolm/parsing/shufflingbatchiterator.py |  6 ++---
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 714b2ca..00d0156 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -14,6 +13,7 @@ import theano
 from theanolm import Vocabulary, Architecture, Network
 from theanolm.backend import TextFileType, get_default_device
 from theanolm.parsing import LinearBatchIterator
+from theanolm.parsing.functions import memory_map
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
 from theanolm.scoring import TextScorer
@@ -456,9 +456,7 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
+            validation_mmap = memory_map(args.validation_file)
             validation_iter = \
                 LinearBatchIterator(validation_mmap,
                                     vocabulary,
diff --git a/theanolm/parsing/functions.py b/theanolm/parsing/functions.py
index 6d00336..ff088bf 100644
--- a/theanolm/parsing/functions.py
+++ b/theanolm/parsing/functions.py
@@ -3,6 +3,9 @@
 """Functions related to reading text.
 """
 
+import gzip
+import mmap
+
 def utterance_from_line(line):
     """Converts a line of text, read from an input file, into a list of words.
 
@@ -33,6 +36,31 @@ def utterance_from_line(line):
 
     return result
 
+def memory_map(input_file):
+    """Creates a read-only memory map of a text file.
+
+    The data of a compressed file cannot be mapped directly, so if the file has
+    been opened using ``gzip.open()``, the uncompressed data will be copied to
+    anonymous memory.
+
+    :type input_file: file object
+    :param input_file: input text file, optionally gzip compressed
+
+    :rtype: mmap.mmap
+    :returns: memory-mapped text
+    """
+
+    binary_file = getattr(input_file, 'buffer', input_file)
+    if not isinstance(binary_file, gzip.GzipFile):
+        return mmap.mmap(input_file.fileno(), 0, prot=mmap.PROT_READ)
+
+    binary_file.seek(0)
+    data = binary_file.read()
+    result = mmap.mmap(-1, len(data))
+    result.write(data)
+    result.seek(0)
+    return result
+
 def find_sentence_starts(data):
     """Finds the positions inside a memory-mapped file, where the sentences
     (lines) start.
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 0d2b457..972aa45 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,7 +5,6 @@ sentence order.
 """
 
 import sys
-import mmap
 import logging
 
 import numpy
@@ -14,6 +13,7 @@ from numpy import random
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import memory_map
 from theanolm.parsing.functions import utterance_from_line
 
 class SentencePointers(object):
@@ -43,9 +43,7 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
-                                    0,
-                                    prot=mmap.PROT_READ)
+            subset_mmap = memory_map(subset_file)
             self.mmaps.append(subset_mmap)
 
             logging.debug("Finding sentence start positions in %s.",
-- 
2.43.0


From 74da2b645fb702f927d07ee3b8ef4cc29cda1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:55 +0000
Subject: [PATCH 32/39] fix: file IDs of more than 127 training files

The IDs overflowed an 8-bit integer, so the words of those files were
given the weight of another file.
---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 8277027..71cea99 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -212,13 +212,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From 827dbc71be84f70ea15eb6f50a1992b74de8def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:05 +0000
Subject: [PATCH 33/39] fix: seed words that are not in the shortlist

Text generation with a seed sequence that contained a word outside the
vocabulary or the shortlist stopped in KeyError or IndexError. Such words
are read as <unk>, as everywhere else.
---
 theanolm/textsampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index c92c0c7..223f186 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -77,6 +77,7 @@ class TextSampler(object):
         seed_tokens = seed_sequence.strip().split()
         sos_id = self._vocabulary.word_to_id['<s>']
         sos_class_id = self._vocabulary.word_id_to_class_id[sos_id]
+        unk_id = self._vocabulary.word_to_id['<unk>']
 
         input_word_ids = sos_id * \
                          numpy.ones(shape=(1, num_sequences)).astype('int64')
@@ -93,7 +94,12 @@ class TextSampler(object):
             step_result = self.step_function(input_word_ids,
                                              input_class_ids,
                                              *state.get())
-            token_id = self._vocabulary.word_to_id[token]
+            # The network knows only the words in the shortlist.
+            token_id = unk_id
+            if token in self._vocabulary:
+                word_id = self._vocabulary.word_to_id[token]
+                if self._vocabulary.in_shortlist(word_id):
+                    token_id = word_id
             token_class_id = \
                 self._vocabulary.word_id_to_class_id[token_id]
             input_word_ids = token_id * \
-- 
2.43.0


From 789c0e4d52ff18f6e9786b3807a7fe0ffa98207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 34/39] fix: unigram probabilities of the special tokens when
 the vocabulary is created from text

---
 theanolm/vocabulary/vocabulary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..2bdfde1 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -235,6 +235,7 @@ class Vocabulary(object):
 
         # The special tokens should not be included when creating the classes.
         # They are added to separate classes in the end.
+        all_counts = word_counts
         word_counts = dict(word_counts)
         if '<s>' in word_counts:
             del word_counts['<s>']
@@ -270,7 +271,7 @@ class Vocabulary(object):
         _add_special_tokens(id_to_word, word_id_to_class_id, word_classes)
 
         result = cls(id_to_word, word_id_to_class_id, word_classes)
-        result.compute_probs(word_counts, update_class_probs=True)
+        result.compute_probs(all_counts, update_class_probs=True)
         return result
 
     @classmethod
-- 
2.43.0


From bacfbf9cd057acc967b215f362a4ffb9ea3d38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:12 +0000
Subject: [PATCH 35/39] fix: BlackOut cost of classes that have zero noise
 probability

---
 theanolm/training/cost.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index e88ed5a..c3d0e32 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -235,7 +235,8 @@ class BlackoutCost(Cost):
         # If a single value is retured, it will be broadcasted to the mini-batch
         # shape.
         target_prior_probs = noise_distribution.probs(target_class_ids)
-        target_weighted_probs = target_probs / target_prior_probs
+        target_weighted_probs = \
+            target_probs / (target_prior_probs + self._epsilon)
 
         sample, sample_logprobs = self._network.noise_sample()
         # sample_prior_probs will be a one-dimensional array (or a scalar in
@@ -243,7 +244,8 @@ class BlackoutCost(Cost):
         # sample_logprobs.
         sample_probs = tensor.exp(sample_logprobs)
         sample_prior_probs = noise_distribution.probs(sample)
-        sample_weighted_probs = sample_probs / sample_prior_probs
+        sample_weighted_probs = \
+            sample_probs / (sample_prior_probs + self._epsilon)
 
         denominators = target_weighted_probs + \
                        sample_weighted_probs.sum(2)
-- 
2.43.0


From 57ac80f94278d7e264275f9e2668ffa5b50570b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 36/39] fix: unigram noise shared between sequences is sampled
 separately for each time step

---
 theanolm/network/samplingoutputlayer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/theanolm/network/samplingoutputlayer.py b/theanolm/network/samplingoutputlayer.py
index 2377280..29c10f4 100644
--- a/theanolm/network/samplingoutputlayer.py
+++ b/theanolm/network/samplingoutputlayer.py
@@ -109,12 +109,11 @@ class SamplingOutputLayer(BasicLayer, metaclass=ABCMeta):
 
         num_time_steps = layer_input.shape[0]
         num_samples = self._network.num_noise_samples
-        num_batch_samples = num_time_steps * num_samples
         num_classes = numpy.int64(self._network.vocabulary.num_classes())
 
-        # Sampling k noise words per time step is inefficient with multinomial.
-        sample = noise_distribution.sample(1, num_batch_samples)
-        sample = sample.reshape([num_time_steps, num_samples])
+        # A multinomial distribution is sampled without replacement, so the
+        # samples of different time steps have to be drawn separately.
+        sample = noise_distribution.sample(num_time_steps, num_samples)
         return sample[:, None, :], \
                self._get_target_seq_preact(layer_input, sample)
 
-- 
2.43.0


From 0ca3fec874d1d9078afe76412d766338127bf07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:10 +0000
Subject: [PATCH 37/39] fix: linear interpolation of subnormal probabilities
 lost precision or gave log(0)

---
 theanolm/backend/probfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theanolm/backend/probfunctions.py b/theanolm/backend/probfunctions.py
index a89eaf8..9fb2d9b 100644
--- a/theanolm/backend/probfunctions.py
+++ b/theanolm/backend/probfunctions.py
@@ -34,13 +34,15 @@ def interpolate_linear(logprob1, logprob2, weight1):
 
     prob1 = numpy.exp(numpy.float64(logprob1))
     prob2 = numpy.exp(numpy.float64(logprob2))
-    if (prob1 > 0) and (prob2 > 0):
+    smallest = numpy.finfo(numpy.float64).tiny
+    if (prob1 >= smallest) and (prob2 >= smallest):
         weight2 = 1.0 - weight1
         prob = weight1 * prob1
         prob += weight2 * prob2
         return logprob_type(numpy.log(prob))
     else:
-        # An exp() resulted in an underflow (or -inf logprob). Use the decimal
+        # An exp() resulted in an underflow (or -inf logprob), or in a
+        # subnormal number that has lost most of its precision. Use the decimal
         # library.
         getcontext().prec = 16
         d_weight1 = Decimal(float(weight1))
-- 
2.43.0


From 1d22a800b78eb4dd11dbf518be81b3a459c92c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 38/39] fix: Kaldi vocabulary with gaps in the word IDs could
 not be read

---
 theanolm/scoring/latticebatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticebatch.py b/theanolm/scoring/latticebatch.py
index 68ea893..aadaf2e 100644
--- a/theanolm/scoring/latticebatch.py
+++ b/theanolm/scoring/latticebatch.py
@@ -43,7 +43,8 @@ class LatticeBatch(object):
         # Read Kaldi word ID mapping.
         if kaldi_vocabulary is not None:
             self.kaldi_word_to_id = read_kaldi_vocabulary(kaldi_vocabulary)
-            self.kaldi_id_to_word = [None] * len(self.kaldi_word_to_id)
+            num_ids = max(self.kaldi_word_to_id.values(), default=-1) + 1
+            self.kaldi_id_to_word = [None] * num_ids
             for word, id in self.kaldi_word_to_id.items():
                 self.kaldi_id_to_word[id] = word
         elif lattice_format == 'kaldi':
-- 
2.43.0


From 6ec280b59f882c221f1690c464d48021c07359d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 39/39] fix: a token limit that was tightened relative to
 lattice size removed every hypothesis

---
 theanolm/scoring/latticedecoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index ff6199a..28b67eb 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -552,7 +552,8 @@ class LatticeDecoder(object):
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            # The best token is always kept, so that decoding can continue.
+            max_tokens = max(max_tokens, self._abs_min_max_tokens, 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0

