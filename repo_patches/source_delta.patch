From 29098873560a56501fde70527c398d091f9d6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 01/35] fix: compare every pair of equal-cost rules when
 checking ambiguity

A pair of rules with no overlap ended the scan of the remaining pairs of
the first rule, so later ambiguous pairs were never examined.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From 8b488796a2cadf7ae03d85deb98a425c60824d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:40 +0000
Subject: [PATCH 02/35] fix: only a strictly less costly rule resolves an
 ambiguity

A third rule of the same cost was accepted as a less costly one, so three
mutually ambiguous rules hid each other.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..cd9e408 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -122,7 +122,7 @@ def check_for_ambiguity(transliterator):
                     for r_i, rule in enumerate(rules):
                         if r_i in (i_index, j_index):
                             continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From 5d5480ef1e861e71a62f32515fa5b31303d56a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:48 +0000
Subject: [PATCH 03/35] fix: prune by whole production when given a single str

pruned_of('AB') also removed the rules producing 'A', 'B' and '', as the
production was searched for inside the string.
---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..98a58e1 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -798,6 +798,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From 19d201f9d6b2eed2c28eda28d215eb4f0484c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:57 +0000
Subject: [PATCH 04/35] fix: compare versions numerically when loading

Versions were compared as strings, so 1.10.0 passed as earlier than 1.2.4.
---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 98a58e1..1e1139a 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -50,6 +50,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_key(version):
+    """Version as a list of its numbers, so that 1.10.0 is later than 1.9.0."""
+    return [int(_) for _ in re.findall(r"[0-9]+", version)]
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -86,7 +91,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From 0a3b6f2febb428dd06f6b8ace79114db52c93486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 05/35] fix: honour keyword options when loading serialized
 settings

load() and loads() dropped check_ambiguity always, and every option when the
settings were compressed, so the CLI and bundled JSON ignored ignore_errors.
---
 graphtransliterator/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 1e1139a..acc83c8 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -95,8 +95,10 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
+            # Keep whatever was passed along with the compressed settings
+            options = {k: v for k, v in data.items() if k != "compressed_settings"}
             data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            data.update(options)
         return data
 
     @post_load
@@ -106,7 +108,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data.setdefault("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From 499deec9d98f8817f39abb65684ac2cf59bcbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 06/35] fix: keep ignore_errors in compressed dumps

Compression loses no information according to its documentation, but
ignore_errors was only dumped at compression level 0.
---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index acc83c8..22d5846 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -579,6 +579,7 @@ class GraphTransliterator:
             )
         return {
             "graphtransliterator_version": __version__,
+            "ignore_errors": self.ignore_errors,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
-- 
2.43.0


From 9b2b8b4e76f15f7cde396189b265f13d15af5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 07/35] fix: load dumps of transliterators without metadata

Their metadata is dumped as null, which load() then rejected.
---
 graphtransliterator/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 22d5846..0c89c92 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -67,7 +67,9 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(),  # No restriction on values
+        required=False,
+        allow_none=True,
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From a908b024bd891571828d3cf68d119dcc3c1597c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 08/35] fix: accept direct settings without onmatch_rules

The field is optional, but validation raised KeyError when it was absent.
---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..4bf83bf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type) or []:
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From a321495bdc95e02b734d8b88a93f71f95522fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 09/35] fix: do not match the final token more than once

The position was not advanced past the last token, so rules ending in
whitespace could match it repeatedly, and their constraints were checked
one token too early.
---
 graphtransliterator/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 0c89c92..93ca7b0 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -722,7 +722,8 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                if token_i < len(tokens):
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low for stack:
                     for child_key in reversed(children):
@@ -755,9 +756,7 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
-                _append_children(node_key, token_i)
+                _append_children(node_key, token_i + 1)
         if match_all:
             return matches
 
-- 
2.43.0


From 478412f8cf49680a97866760396bf2230f8a0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 10/35] fix: find the least costly matching rule

The depth-first search stopped at the first match below the branch with the
cheapest rule, even if a less costly rule matched on another branch.
---
 docs/usage.rst              |  2 +-
 graphtransliterator/core.py | 34 +++++++++++++++++-----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/docs/usage.rst b/docs/usage.rst
index 455d833..acf9950 100644
--- a/docs/usage.rst
+++ b/docs/usage.rst
@@ -833,7 +833,7 @@ An edge list is also maintained that consists of a tuple of (head, tail):
 Search and Preprocessing
 ------------------------
 
-Graph Transliterator uses a best-first search, implemented using a stack, that finds the
+Graph Transliterator uses a best-first search, implemented using a heap, that finds the
 transliteration with the the lowest cost. The cost function is:
 
 .. math::
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 93ca7b0..4ee3167 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -28,7 +28,8 @@ from .schemas import (
     TransliterationRuleSchema,
     WhitespaceSettingsSchema,
 )
-from collections import deque
+from heapq import heappop, heappush
+from itertools import count
 
 from graphtransliterator import __version__ as __version__
 import json
@@ -716,7 +717,8 @@ class GraphTransliterator:
         graph_edge = graph.edge
         if match_all:
             matches = []
-        stack = deque()
+        frontier = []  # heap of edges to try, least costly first
+        order = count()
 
         def _append_children(node_key, token_i):
             children = None
@@ -724,27 +726,25 @@ class GraphTransliterator:
             if ordered_children:
                 if token_i < len(tokens):
                     children = ordered_children.get(tokens[token_i])
-                if children:
-                    # reordered high to low for stack:
-                    for child_key in reversed(children):
-                        stack.appendleft((child_key, node_key, token_i))
-                else:
-                    rules_keys = ordered_children.get("__rules__")  # leafs
-                    if rules_keys:
-                        # There may be more than one rule, as certain rules have
-                        # constraints on them.
-                        # Reordered so higher cost go on stack last.
-                        for rule_key in reversed(rules_keys):
-                            stack.appendleft((rule_key, node_key, token_i))
+                if not children:
+                    # There may be more than one rule, as certain rules have
+                    # constraints on them.
+                    children = ordered_children.get("__rules__")  # leafs
+                # Of edges that cost the same, the last added is tried first, so
+                # children are added in reverse.
+                for child_key in reversed(children or []):
+                    cost = graph_edge[node_key][child_key]["cost"]
+                    heappush(
+                        frontier, (cost, -next(order), child_key, node_key, token_i)
+                    )
 
         _append_children(0, token_i)  # Append all children of root node
 
-        while stack:  # LIFO
-            node_key, parent_key, token_i = stack.popleft()
+        while frontier:  # Best first
+            _, _, node_key, parent_key, token_i = heappop(frontier)
 
             curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
-            # But edge is accessed regardless to test coverage
             incident_edge = graph_edge[parent_key][node_key]
             # Pass edge, curr_node, token index, and tokens to check constraints
             if curr_node.get("accepting") and self._match_constraints(
-- 
2.43.0


From 4da65b4e58f738cb47ffae1fe40da0ea62ad29d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 11/35] fix: reject empty tokens and rules that match no tokens

tokenize() and transliterate() never advanced past either, so they looped
forever.
---
 graphtransliterator/core.py    |  5 ++++-
 graphtransliterator/schemas.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 4ee3167..10f466b 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -39,6 +39,7 @@ from marshmallow import (
     pre_load,
     post_load,
     Schema,
+    validate,
     validates_schema,
     ValidationError,
 )
@@ -60,7 +61,9 @@ class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 4bf83bf..0029b08 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -40,7 +40,9 @@ class EasyReadingSettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Dict(
         keys=fields.Str(validate=validate.Regexp(RULE_RE)),
@@ -66,7 +68,9 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    tokens = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
@@ -118,7 +122,9 @@ class SettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From 80f388e4aad92d78dfda1cf4b18663ae0439d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 12/35] fix: generate onmatch tests from the next classes

The previous classes were sampled twice, so generated tests did not match
the rule they were made for.
---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From 69a922a315d21b5ec41cd69409cee2352caea9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 13/35] fix: unescape Unicode character names containing digits

---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..ead4122 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -261,8 +261,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From 1f8e8b94a48298637b8675e41c1cf785deceb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:57 +0000
Subject: [PATCH 14/35] fix: dump token classes in a consistent order

They were dumped in the iteration order of sets, which varies between runs,
so the same transliterator could have different JSON.
---
 graphtransliterator/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 10f466b..0bf4f31 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -36,6 +36,7 @@ import json
 import logging
 from marshmallow import (
     fields,
+    post_dump,
     pre_load,
     post_load,
     Schema,
@@ -107,6 +108,13 @@ class GraphTransliteratorSchema(Schema):
             data.update(options)
         return data
 
+    @post_dump
+    def sort_sets(self, data, **kwargs):
+        """Sort what is held as sets to make dumps consistent."""
+        for key in ("tokens", "tokens_by_class"):
+            data[key] = {k: sorted(v) for k, v in data[key].items()}
+        return data
+
     @post_load
     def make_GraphTransliterator(self, data, **kwargs):
         # Convert lists to sets
-- 
2.43.0


From 1401de2984b9b3cd5dcd5ff7476b919944889ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 15/35] fix: do not count dumping as a visit when checking
 coverage

Iterating over the logged graph and onmatch rules marked everything as
visited, so check_coverage() passed after a dump().
---
 graphtransliterator/graphs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..47b42a2 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -170,6 +170,9 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        return iter(self.data)  # iteration, e.g. to dump, is not a visit
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -185,6 +188,12 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    def items(self):
+        return self.data.items()  # iteration, e.g. to dump, is not a visit
+
+    def values(self):
+        return self.data.values()
+
     def clear_visited(self):
         self.visited.clear()
 
-- 
2.43.0


From 5cb5f4d2b10a4308795664bd24146ebbbf30a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 16/35] fix: sample the first token of a class in generated
 tests

The sample was the first of a set, so generated tests varied between runs.
---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..6b4a7ce 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -161,7 +161,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
             """Return first token in token class."""
 
             tokens_in_class = self.tokens_by_class[token_class]
-            return list(tokens_in_class)[0]
+            return next(_ for _ in self.tokens if _ in tokens_in_class)
 
         for rule in self.rules:
             input_ = ""
-- 
2.43.0


From 98686261e05b82832aaa5f7d166025d0c2184288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 17/35] fix: list an edge once when it is added again

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 47b42a2..77c2691 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From f86a03ffb1ce7a41444d79b21ad22f858dd18a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 18/35] fix: have last_input_tokens before the first
 transliteration

The property raised AttributeError on a new transliterator.
---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 0bf4f31..d3a1eb0 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -264,6 +264,7 @@ class GraphTransliterator:
             graph = _graph_from(rules)
         self._graph = graph
 
+        self._input_tokens = []  # last tokenization
         self._rule_keys = []  # last matched rules
 
         # When, or if, necessary, add version checking here
-- 
2.43.0


From c607109b214d0f468bd2d0984fe7f6d2deb104cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 19/35] fix: do not drop part of a rule with misplaced token
 classes

'a <class> b' was read as 'a <class>' and 'a (b <class> c)' as
'a (b <class>)', silently. They are now rejected as invalid tokens.
---
 graphtransliterator/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..97e1116 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -41,9 +41,9 @@ RULE_RE = re.compile(
     r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
-    r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
+    r"\s+(?:\((.+?)((?:\s+<[^<>]+>)*)\)$)"
     r"|"
-    r"((?:\s+<.+?>)+)"
+    r"((?:\s+<[^<>]+>)+)\s*$"
     r"|"
     r"$)"
 )
-- 
2.43.0


From e57e899524401c890a808d3cf9a83b28c289e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 20/35] fix: build the graph for rules with a cost of one or
 more

The edge to their tokens was left without a cost, which raised KeyError.
---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index ead4122..796b7a5 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -162,8 +162,8 @@ def _graph_from(rules):
                 parent_node["token_children"] = token_children
 
             curr_edge = graph.edge[parent_key][token_node_key]
-            curr_cost = curr_edge.get("cost", 1)
-            if curr_cost > rule.cost:
+            curr_cost = curr_edge.get("cost")
+            if curr_cost is None or curr_cost > rule.cost:
                 curr_edge["cost"] = rule.cost
 
             parent_key = token_node_key
-- 
2.43.0


From e32056bdab89a33bfe6fc356a3ed1f24f7cc8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 21/35] fix: compress rule costs that were set explicitly

Only costs calculated from a number of tokens survived compression: others
were changed, or raised ZeroDivisionError.
---
 graphtransliterator/compression.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..10026dd 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -100,7 +100,11 @@ def compress_config(config, compression_level=1):
         return config
 
     def compressed_cost(x):
-        return -1 * round((1 / (2**x - 1) - 1))  # convert to -int
+        if 0 < 2**x - 1 <= 1:
+            token_count = round(1 / (2**x - 1) - 1)
+            if math.log2(1 + 1 / (1 + token_count)) == x:
+                return -1 * token_count  # convert to -int
+        return [x]  # not calculated from the number of tokens
 
     def compress_edge_data(data):
         constraints = data.get("constraints")
@@ -269,7 +273,9 @@ def _strip_empty(d):
 
 def decompress_config(compressed_config):
     def decompressed_cost(x):
-        """x will be negative."""
+        """x will be negative, or a list of the cost if it could not be compressed."""
+        if isinstance(x, (list, tuple)):
+            return x[0]
         return math.log2(1 + 1 / (1 - x))
 
     def decompress_node(_node):
-- 
2.43.0


From 6bbb3a6f34d95f2d480470c0d5d83b6e93fc0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 22/35] fix: validate the cost of a rule

A cost that is not a number raised TypeError when the rules were sorted.
---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 0029b08..484f37b 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -75,6 +75,7 @@ class TransliterationRuleSchema(Schema):
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
     next_tokens = fields.List(fields.Str(), allow_none=True)
+    cost = fields.Float()
 
     class Meta:
         fields = (
-- 
2.43.0


From 04e51af008a05add421d38127af8764157041781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 23/35] fix: keep a rule cost of zero when decompressing

---
 graphtransliterator/compression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 10026dd..a6f9aa8 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -46,7 +46,7 @@ def compress_config(config, compression_level=1):
 
                 Next class ids : (`tuple` of `int`) or 0 (`int`) for None
 
-            Cost : Negative integer cost (`int`)
+                Cost : Negative integer cost (`int`), or (`list` of `float`)
 
             Graph : `tuple`
 
@@ -90,7 +90,7 @@ def compress_config(config, compression_level=1):
 
                             Next classes : class ids (`list` of `int`), or 0 (`int`)
 
-                        Cost : Negative integer cost (`int`)
+                        Cost : Negative integer cost (`int`), or (`list` of `float`)
 
                         Token: Token id (`int`) or -1 for None
     """
@@ -267,7 +267,7 @@ def _strip_empty(d):
     return {
         k: v
         for k, v in d.items()
-        if v or (type(v) is int and v == 0) or (type(v) is str and v == "")
+        if v or (type(v) in (int, float) and v == 0) or (type(v) is str and v == "")
     }
 
 
-- 
2.43.0


From 7434bd075be14bd5be87307693001141eb63f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 24/35] fix: read and write settings as UTF-8 whatever the
 locale

Bundled YAML and user files were decoded with the encoding of the locale.
---
 graphtransliterator/cli.py                     | 6 +++---
 graphtransliterator/core.py                    | 2 +-
 graphtransliterator/transliterators/bundled.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..8f4265d 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -31,7 +31,7 @@ def load_transliterator(source, **kwargs):
     elif format == "json":
         return GraphTransliterator.loads(parameter, **kwargs)
     elif format == "json_file":
-        with open(parameter, "r") as f:
+        with open(parameter, "r", encoding="utf-8") as f:
             return GraphTransliterator.loads(f.read(), **kwargs)
     elif format == "yaml_file":
         return GraphTransliterator.from_yaml_file(parameter, **kwargs)
@@ -139,7 +139,7 @@ def dump_tests(bundled, to):
         transliteration_tests = transliterator.load_yaml_tests()
         click.echo(json.dumps(transliteration_tests))
     elif to == "yaml":
-        with open(transliterator.yaml_tests_filen, "r") as f:
+        with open(transliterator.yaml_tests_filen, "r", encoding="utf-8") as f:
             click.echo(f.read())
 
 
@@ -226,7 +226,7 @@ def make_json(bundled, regex):
         json_filename = os.path.join(
             transliterator.directory, transliterator.name + ".json"
         )
-        with open(json_filename, "w") as f:
+        with open(json_filename, "w", encoding="utf-8") as f:
             f.write(transliterator.dumps())
         click.echo(f"Made JSON of {_}.")
 
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d3a1eb0..81321a6 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -1190,7 +1190,7 @@ class GraphTransliterator:
         from_yaml : Constructor from YAML string in "easy reading" format
         from_easyreading_dict : Constructor from dictionary in "easy reading" format
         """
-        with open(yaml_filename, "r") as f:
+        with open(yaml_filename, "r", encoding="utf-8") as f:
             yaml_string = f.read()
 
         return GraphTransliterator.from_yaml(yaml_string, **kwargs)
diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6b4a7ce..d5bb13a 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -38,7 +38,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         if method == "yaml":
             gt = GraphTransliterator.from_yaml_file(filename, **kwargs)
         elif method == "json":
-            with open(filename, "r") as f:
+            with open(filename, "r", encoding="utf-8") as f:
                 gt = GraphTransliterator.loads(f.read(), **kwargs)
         # Select coverage superclass, if coverage set.
         if kwargs.get("coverage"):
@@ -120,7 +120,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         `NAME_tests.yaml, e.g. `source_to_target/tests/source_to_target_tests.yaml`.
         """
         test_file = self.yaml_tests_filen
-        with open(test_file, "r") as f:
+        with open(test_file, "r", encoding="utf-8") as f:
             return {str(k): str(i) for k, i in yaml.safe_load(f).items()}
 
     def run_tests(self, transliteration_tests):
-- 
2.43.0


From f547bc81957f3c47bcff04881a2cef9d299975f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 25/35] fix: take the name given to make-json literally without
 --regex

---
 graphtransliterator/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 8f4265d..969586f 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -214,7 +214,7 @@ def make_json(bundled, regex):
     import graphtransliterator.transliterators as transliterators  # pragma: no cover
 
     if not regex:
-        bundled = f"^{bundled}$"
+        bundled = f"^{re.escape(bundled)}$"
     to_dump = [_ for _ in transliterators.iter_names() if re.match(bundled, _)]
     if not to_dump:
         click.echo(f"No bundled transliterator found matching /{bundled}/.")
-- 
2.43.0


From f7c54b5630a527ad49038fc953603c88408eefe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 26/35] fix: pass keyword parameters of iter_transliterators on

They were accepted and dropped.
---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..a3a1468 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -72,4 +72,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield globals()[_](**kwds)
-- 
2.43.0


From b3f88237d0b2455be6d3559bfdf0563210795f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 27/35] fix: leave the original graph as it is when logging
 visits

The edges of the graph passed in were replaced by logging ones.
---
 graphtransliterator/graphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 77c2691..a349026 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -210,10 +210,10 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        self.edge = VisitLoggingDict(
+            {head: VisitLoggingDict(tails) for head, tails in self.edge.items()}
+        )
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From 36e072117494ea723270822d8556c28824c9af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 28/35] fix: reject onmatch rules without classes or production

They raised KeyError or IndexError instead of a ValidationError.
---
 graphtransliterator/schemas.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 484f37b..b993934 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -103,9 +103,13 @@ class TransliterationRuleSchema(Schema):
 class OnMatchRuleSchema(Schema):
     """Schema for :class:`OnMatchRule`."""
 
-    prev_classes = fields.List(fields.Str())
-    next_classes = fields.List(fields.Str())
-    production = fields.Str()
+    prev_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    next_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    production = fields.Str(required=True)
 
     class Meta:
         fields = ("prev_classes", "next_classes", "production")
-- 
2.43.0


From 23d4efee2f1452d8273758194c67c8cd616a6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 29/35] fix: consolidate whitespace into the default whitespace
 token

A run of different whitespace tokens became the first of them.
---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 81321a6..59b70a1 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -885,6 +885,7 @@ class GraphTransliterator:
                 # matched_at = match.span(0)[0]
                 if is_whitespace(token):
                     if prev_whitespace and self.whitespace.consolidate:
+                        tokens[-1] = self.whitespace.default
                         continue
                     else:
                         prev_whitespace = True
-- 
2.43.0


From 86bb4881359c4ff991001ef365e571c7ab7310c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 30/35] fix: validate that an onmatch rule item holds one rule

Items with several rules failed an assertion, or lost all but the first one
when Python runs with assertions off.
---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index b993934..54aac02 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -54,6 +54,7 @@ class EasyReadingSettingsSchema(Schema):
             keys=fields.Str(validate=validate.Regexp(ONMATCH_RE)),
             values=fields.Str(),
             required=False,
+            validate=validate.Length(equal=1),
         )
     )
     metadata = fields.Dict(
-- 
2.43.0


From 66366fa0513a40d9763cedc31b29b1f035b1bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 31/35] fix: fail transliteration tests when Python runs with
 -O

run_tests() checked results with an assert statement, so with assertions off
every test passed.
---
 graphtransliterator/transliterators/bundled.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index d5bb13a..4c3f068 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -135,11 +135,12 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
             source = str(source)
             target = str(target)
             result = self.transliterate(source)
-            assert (
-                self.transliterate(source) == target
-            ), 'Transliteration error: "{}" -> "{}"; should -> "{}"'.format(
-                source, result, target
-            )
+            if result != target:
+                raise AssertionError(
+                    'Transliteration error: "{}" -> "{}"; should -> "{}"'.format(
+                        source, result, target
+                    )
+                )
 
     def run_yaml_tests(self):
         """Run YAML tests in MODULE/tests/MODULE_tests.yaml"""
-- 
2.43.0


From 0302602c4abf90aebe0a0091bad96a5aff296df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 32/35] fix: check ambiguity of equal-cost rules given in any
 order

---
 graphtransliterator/ambiguity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index cd9e408..ea64bce 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -102,8 +102,11 @@ def check_for_ambiguity(transliterator):
     # ambiguities, then see if a less costly rule would match the rule. If it does
     # not, there is ambiguity.
 
+    def _cost(indexed_rule):
+        return indexed_rule[1].cost
+
     for _group_val, group_iter in itertools.groupby(
-        enumerate(transliterator._rules), key=lambda x: x[1].cost
+        sorted(enumerate(transliterator._rules), key=_cost), key=_cost
     ):
         group = list(group_iter)
         if len(group) == 1:
-- 
2.43.0


From 9bc30a667aaca651f553d24fb9d45c911103d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 33/35] fix: report of a failed tokenization is not of an
 earlier call

---
 graphtransliterator/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 59b70a1..830d1cb 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -954,9 +954,10 @@ class GraphTransliterator:
           ''').transliterate("a a")
 
         """
+        self._input_tokens = []  # Nothing is left of an earlier call
+        self._rule_keys = []  # Matched ule keys are saved here
         tokens = self.tokenize(input)  # Adds initial+final whitespace
         self._input_tokens = tokens  # Tokens are saved here
-        self._rule_keys = []  # Matched ule keys are saved here
         output = ""
         token_i = 1  # Adjust for initial whitespace
 
-- 
2.43.0


From 5fac64e7580075ec42ce2d1e0e1eea1528f804b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 34/35] fix: make the order of token classes the same on every
 run

The generated table of tokens by class had its keys in the iteration order of
sets, so uncompressed dumps of the same settings could differ between runs.
---
 graphtransliterator/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index 796b7a5..ac410ab 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -19,7 +19,7 @@ def _tokens_by_class_of(tokens):
 
     out = defaultdict(set)
     for token, token_classes in tokens.items():
-        for token_class in token_classes:
+        for token_class in sorted(token_classes):
             out[token_class].add(token)
     return out
 
-- 
2.43.0


From d37bc8b154c47ce38ea654f004914108a7e5734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 35/35] fix: have -nie not ignore errors

It was a second name of -ie, and so turned on what it is named to turn off.
---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 969586f..a50de44 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0

