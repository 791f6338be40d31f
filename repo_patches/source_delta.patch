From bca014cfe486eda01090d4f6406d6f4a6b1bb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 01/81] fix: compare objective values in the right direction
 under maximization

_compare(f1, f2) answered "f1 is worse than f2" when maximizing, so a run with
minimize=False and a target stopped before the target was reached.
---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From d3ef7d462151105c8c27da5a6310269d3de3087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 02/81] fix: do not overwrite the subset mask when computing
 the categorical mask

The third positional argument of np.bitwise_or is the output array.
---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..34db5ab 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -228,7 +228,7 @@ class SearchSpace:
             ]
             self.categorical_mask = np.bitwise_or(
                 self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+                np.bitwise_or(np.bitwise_or(self.discrete_mask, self.ordinal_mask), self.subset_mask),
             )
 
     def _set_levels(self):
-- 
2.43.0


From b64d4841c2d4bc13765f0db22185a3ed2e76f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 03/81] fix: SearchSpace.update with more than one common or
 new variable

Comparing the two name arrays elementwise raised or picked the wrong variables
unless exactly one name was common and one was new.
---
 bayes_optim/search_space/search_space.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 34db5ab..5148692 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -482,18 +482,12 @@ class SearchSpace:
         space : SearchSpace
             the input space for the update
         """
-        _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
+        _index = {name: k for k, name in enumerate(self.var_name)}
+        for var in space.data:
+            if var.name in _index:
+                self.data[_index[var.name]] = deepcopy(var)
+            else:
+                self.data.append(deepcopy(var))
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From a0e8a8128183abfc9045baee282dd94a945d96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 04/81] fix: SearchSpace.from_dict with a default value or a
 step

A default value raised KeyError (misspelt key); the step was popped from the
caller's dictionary and only applied to the first of N replicates.
---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5148692..822626e 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -639,7 +639,7 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
+            default_value = v["default"] if "default" in v else None
             try:
                 if v["type"] in ["r", "real"]:  # real-valued parameter
                     precision = v["precision"] if "precision" in v else None
@@ -656,7 +656,7 @@ class SearchSpace:
                     ]
                 elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                     _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
+                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
                         for _ in N
                     ]
                 elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-- 
2.43.0


From 7f3b41c2d94d063bf9cc847366e28545e3c24764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 05/81] fix: SearchSpace.from_dict reports invalid variables
 instead of dropping them

A bare except printed the input and went on: a malformed entry vanished from the
space, and an entry of unknown type silently repeated the previous variable.
---
 bayes_optim/search_space/search_space.py | 59 ++++++++++++------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 822626e..1816112 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -640,36 +640,35 @@ class SearchSpace:
 
             N = range(int(v["N"])) if "N" in v else range(1)
             default_value = v["default"] if "default" in v else None
-            try:
-                if v["type"] in ["r", "real"]:  # real-valued parameter
-                    precision = v["precision"] if "precision" in v else None
-                    scale = v["scale"] if "scale" in v else "linear"
-                    _vars = [
-                        Real(
-                            bounds,
-                            name=k,
-                            default_value=default_value,
-                            precision=precision,
-                            scale=scale,
-                        )
-                        for _ in N
-                    ]
-                elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
-                    _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
-                        for _ in N
-                    ]
-                elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-                    _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["c", "cat"]:  # category-valued parameter
-                    _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["s", "subset"]:  # subset parameter
-                    _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["b", "bool"]:  # Boolean-valued
-                    _vars = [Bool(name=k, default_value=default_value) for _ in N]
-                variables += _vars
-            except:
-                print(param)
+            if v["type"] in ["r", "real"]:  # real-valued parameter
+                precision = v["precision"] if "precision" in v else None
+                scale = v["scale"] if "scale" in v else "linear"
+                _vars = [
+                    Real(
+                        bounds,
+                        name=k,
+                        default_value=default_value,
+                        precision=precision,
+                        scale=scale,
+                    )
+                    for _ in N
+                ]
+            elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
+                _vars = [
+                    Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
+                    for _ in N
+                ]
+            elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
+                _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["c", "cat"]:  # category-valued parameter
+                _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["s", "subset"]:  # subset parameter
+                _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
+            elif v["type"] in ["b", "bool"]:  # Boolean-valued
+                _vars = [Bool(name=k, default_value=default_value) for _ in N]
+            else:
+                raise ValueError(f"variable type {v['type']} of {k} is not supported")
+            variables += _vars
         return SearchSpace(variables)
 
     @classmethod
-- 
2.43.0


From 48c84dfa2d1bbdb1e9b61fd6aebf28aa5d48f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 06/81] fix: SearchSpace.to_dict/to_json produce what
 from_dict/from_json read

to_dict stored the variable class as the type (to_json raised TypeError and
from_dict dropped every variable), lost default values and exported the
enumerated subsets and the parsed condition instead of their definition.
---
 bayes_optim/search_space/search_space.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1816112..fd3e0cf 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -585,18 +585,20 @@ class SearchSpace:
         out: dict = {}
         for _, var in enumerate(self.data):
             value = {
-                "range": var.bounds,
-                "type": type(var),
+                "range": var._bounds if isinstance(var, Subset) else var.bounds,
+                "type": type(var).__name__.lower(),
                 "N": 1,
             }
+            if var.default_value is not None:
+                value["default"] = var.default_value
             if isinstance(var, Real):
                 value["precision"] = var.precision
                 value["scale"] = var.scale
             elif isinstance(var, Integer):
                 value["step"] = var.step
 
-            if hasattr(var, "conditions"):
-                value["conditions"] = var.conditions
+            if getattr(var, "conditions", None) is not None:
+                value["conditions"] = var.conditions["string"]
                 # TODO: also export var._action?
             out[var.name] = value
         return out
@@ -640,6 +642,7 @@ class SearchSpace:
 
             N = range(int(v["N"])) if "N" in v else range(1)
             default_value = v["default"] if "default" in v else None
+            conditions = v["conditions"] if "conditions" in v else None
             if v["type"] in ["r", "real"]:  # real-valued parameter
                 precision = v["precision"] if "precision" in v else None
                 scale = v["scale"] if "scale" in v else "linear"
@@ -650,22 +653,23 @@ class SearchSpace:
                         default_value=default_value,
                         precision=precision,
                         scale=scale,
+                        conditions=conditions,
                     )
                     for _ in N
                 ]
             elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                 _vars = [
-                    Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
+                    Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1), conditions=conditions)
                     for _ in N
                 ]
             elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-                _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
-            elif v["type"] in ["c", "cat"]:  # category-valued parameter
-                _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
+                _vars = [Ordinal(bounds, name=k, default_value=default_value, conditions=conditions) for _ in N]
+            elif v["type"] in ["c", "cat", "discrete"]:  # category-valued parameter
+                _vars = [Discrete(bounds, name=k, default_value=default_value, conditions=conditions) for _ in N]
             elif v["type"] in ["s", "subset"]:  # subset parameter
-                _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
+                _vars = [Subset(bounds, name=k, default_value=default_value, conditions=conditions) for _ in N]
             elif v["type"] in ["b", "bool"]:  # Boolean-valued
-                _vars = [Bool(name=k, default_value=default_value) for _ in N]
+                _vars = [Bool(name=k, default_value=default_value, conditions=conditions) for _ in N]
             else:
                 raise ValueError(f"variable type {v['type']} of {k} is not supported")
             variables += _vars
-- 
2.43.0


From cf6ab0b2b356a2909b44b3871847775593946805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:41 +0000
Subject: [PATCH 07/81] fix: Node.remove with invert=False

The conditional expression returned a (truthy) function, so every node was
dropped: Node.deepcopy returned None and conditional spaces could not be added.
---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..e671a7f 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = lambda e, S: (e not in S) if invert else (e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From c0b70ab06f44d3d733e20e172d705778bf7962a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 08/81] fix: read the default value of a Subset variable from
 JSON

JSON has no tuples, so the default came back as a list and failed validation.
---
 bayes_optim/search_space/search_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index fd3e0cf..2f84790 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -667,6 +667,8 @@ class SearchSpace:
             elif v["type"] in ["c", "cat", "discrete"]:  # category-valued parameter
                 _vars = [Discrete(bounds, name=k, default_value=default_value, conditions=conditions) for _ in N]
             elif v["type"] in ["s", "subset"]:  # subset parameter
+                if default_value is not None:
+                    default_value = tuple(default_value)  # JSON turns tuples into lists
                 _vars = [Subset(bounds, name=k, default_value=default_value, conditions=conditions) for _ in N]
             elif v["type"] in ["b", "bool"]:  # Boolean-valued
                 _vars = [Bool(name=k, default_value=default_value, conditions=conditions) for _ in N]
-- 
2.43.0


From 47801482fa43d57566adf3531f138fa3134dcce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 09/81] fix: do not duplicate conditions when a conditional
 space is sliced or rebuilt

The conditions of the variables were appended again to a structure that already
held them, and to the dictionary passed in by the caller.
---
 bayes_optim/search_space/search_space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 2f84790..1857ed1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -180,7 +180,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = {k: list(v) for k, v in structure.items()}
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -189,9 +189,9 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            child = {"name": var.name, "condition": var.conditions["string"]}
+            if child not in _structure.setdefault(key, []):
+                _structure[key].append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From d575cf91d2d826ce2b1994c1c4bc22ffd9746ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 10/81] fix: keep sibling variables that share a branch with an
 internal node

A leaf and an internal node under the same condition are active together, but
the leaf was only listed on a path of its own, hence lost from the subspaces.
Also, the order of the paths no longer depends on string hashing.
---
 bayes_optim/search_space/node.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index e671a7f..b5d8964 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
+import itertools
 from copy import copy, deepcopy
+from itertools import chain
 from typing import Any, Dict, List, Tuple
 
 
@@ -172,17 +174,16 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
+        for br in dict.fromkeys(self.branches):
+            # all children on this branch are active simultaneously
             _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
+                [(p, v if p else [child.name]) for p, v in Node.get_all_path(child).items()]
+                for child, b in zip(self.children, self.branches)
+                if b == br
             ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+            for item in itertools.product(*_path):
+                key = (br,) + tuple(chain.from_iterable(p for p, _ in item))
+                path[key] = list(chain.from_iterable(v for _, v in item))
         return path
 
     def __str__(self) -> str:
-- 
2.43.0


From 20ac0aa1bf0e4456fbb1878fe56d10754b144381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 11/81] fix: read negative values in conditions

`x == -1` is a unary operation in the syntax tree, for which None was returned.
---
 bayes_optim/search_space/search_space.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1857ed1..40882df 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,7 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
 class SearchSpace:
-- 
2.43.0


From 15517e5ad942902d0052bc2412f0ff25dd85d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 12/81] fix: keep the order of unconditional variables in the
 subspaces

Iterating over a set made it depend on string hashing.
---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 40882df..f260e93 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -696,7 +696,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0


From e9903d61b397013a73ac3879151271cdf2499829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 13/81] fix: in-place replication of a search space by one

`space *= 1` doubled the space.
---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f260e93..4abe21c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -394,7 +394,7 @@ class SearchSpace:
             `self`
         """
         self._set_data(
-            self.data + [deepcopy(var) for _ in range(max(1, int(N - 1))) for var in self.data]
+            self.data + [deepcopy(var) for _ in range(max(1, int(N)) - 1) for var in self.data]
         )
         return self
 
-- 
2.43.0


From 56ad1e151734312031530fdec5a1280d249a9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 14/81] fix: do not rename the variables of the right operand
 when adding spaces

The variables of the right operand were shared with the sum, so making the
names unique in the sum also changed the operand.
---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 4abe21c..df48870 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -315,7 +315,7 @@ class SearchSpace:
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
         random_seed = self.random_seed if self.random_seed else space.random_seed
-        data = deepcopy(self.data) + space.data
+        data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
                 t.deepcopy() for t in space.structure
@@ -329,7 +329,7 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
-        self._set_data(self.data + space.data)
+        self._set_data(self.data + deepcopy(space.data))
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From c422b46c538600548f3d0b93f5a3e3375a8139ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 15/81] fix: refresh the type of a search space after assigning
 variables

Assigning, e.g., an integer variable into a RealSpace left its class unchanged
and sampling from it raised.
---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index df48870..1bcf23e 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -280,6 +280,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From 172aced736e17119a822f1eb7d2dac8d4dbae8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 16/81] fix: keep the conditional structure in step under +=
 and -=

The structure of the added space was lost and removed variables stayed in it.
---
 bayes_optim/search_space/search_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1bcf23e..20bd0b8 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -330,7 +330,9 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
+        structure = [t.deepcopy() for t in self.structure + space.structure]
         self._set_data(self.data + deepcopy(space.data))
+        self._set_structure(structure)
         SearchSpace.__set_type(self)
         return self
 
@@ -355,6 +357,7 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         self._set_data([self.data[i] for i in range(self.dim) if i in _index])
+        self._set_structure(self.structure)
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From ada1c834f171c59957090f364984c2c848606b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 17/81] fix: variable names made unique must not collide with
 existing names

Variables named x, x, x0 became x0, x1, x0.
---
 bayes_optim/search_space/search_space.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 20bd0b8..c615271 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -163,9 +163,10 @@ class SearchSpace:
         for name, count in Counter(names).items():
             if count > 1:
                 idx = np.nonzero(names == name)[0]
-                _names = [name + str(i) for i in range(count)]
-                for i, k in enumerate(idx):
-                    data[k].name = _names[i]
+                _names = (f"{name}{i}" for i in itertools.count())
+                _names = (n for n in _names if n not in names)
+                for k in idx:
+                    data[k].name = next(_names)
 
     def _set_structure(self, structure: Union[dict, List[Node]] = None):
         if structure is None:
-- 
2.43.0


From 4b0b93d48edf4d37b7c0091e91a793249486909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 18/81] fix: samples of real variables never leave the bounds

Mapping the bounds to the sampling scale and back is subject to round-off errors,
so the extreme draws fell outside of the bounds.
---
 bayes_optim/search_space/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index c615271..4901012 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -751,7 +751,9 @@ class RealSpace(SearchSpace):
                 X = (ub - lb) * lhs(self.dim, samples=N, criterion="maximin") + lb
         elif method == "sobol":
             X = (ub - lb) * i4_sobol_generate(self.dim, N) + lb
-        return self.round(self.to_linear_scale(X))
+        # the transformation is subject to round-off errors
+        bounds = np.array(self.bounds)
+        return self.round(np.clip(self.to_linear_scale(X), bounds[:, 0], bounds[:, 1]))
 
     def round(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
         X = np.atleast_2d(X).astype(float)
-- 
2.43.0


From b7915930770c827293ea88b82895a62f9bacd97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 19/81] fix: sampling on the logit scale with an upper bound of
 one

logit(1) is infinite, hence every sample was exactly 1 (or NaN).
---
 bayes_optim/search_space/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 8a4a41b..3b535d5 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -41,7 +41,7 @@ TRANS = {
     "linear": [identity, [-MAX, MAX]],
     "log": [np.log, [1e-300, MAX]],
     "log10": [np.log10, [1e-300, MAX]],
-    "logit": [sp.special.logit, [1e-300, 1]],
+    "logit": [sp.special.logit, [1e-300, 1 - 1e-16]],
     "bilog": [bilog, [-MAX, MAX]],
 }
 INV_TRANS = {
-- 
2.43.0


From 5f5624d08584b4aab2245952a36840797f98ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 20/81] fix: honour the step of integer variables

The step was only respected by plain random sampling: membership tests, the
mutation of MIES and the proposals of the constrained sampler ignored it, so ask
returned integers that are not admitted by the variable.
---
 bayes_optim/acquisition/optim/mies.py | 7 ++++---
 bayes_optim/search_space/samplers.py  | 7 ++++++-
 bayes_optim/search_space/variable.py  | 9 +++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..d5ad203 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -254,11 +254,12 @@ class MIES:
         eta[eta > 1] = 1
 
         p = 1 - (eta / self.N_i) / (1 + np.sqrt(1 + (eta / self.N_i) ** 2.0))
-        x_ = x + geometric(p) - geometric(p)
+        variables = [self._space.data[i] for i in self.id_i]
+        x_ = x + (geometric(p) - geometric(p)) * [var.step for var in variables]
 
         # Interval Bounds Treatment
-        x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
-        individual[self.id_i] = x_
+        x_ = handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1])
+        individual[self.id_i] = [var.round(v) for var, v in zip(variables, x_)]
         individual[self._id_eta] = eta
 
     def _mutate_d(self, individual):
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..421c934 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -137,11 +137,16 @@ class SCMC:
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
         p = norm.cdf(np.std(X_, axis=0) / (t + 1))
+        variables = [self.sample_space.data[i] for i in self.id_i]
+        step = [var.step for var in variables]
         X[:, self.id_i] = np.clip(
-            X_ + np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape),
+            X_ + (np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape)) * step,
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
+        if np.all(np.isfinite(self.bounds_i)):
+            for i, var in zip(self.id_i, variables):
+                X[:, i] = [var.round(x) for x in X[:, i]]
 
     def _rproposal_discrete(self, X: np.ndarray, t: int):
         N = len(X)
diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 3b535d5..0464485 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -322,20 +322,25 @@ class Integer(_Discrete):
         step: Optional[Union[int, float]] = 1,
         **kwargs,
     ):
+        self.step = step
         super().__init__(bounds, name, default_value, **kwargs)
         assert len(self.bounds) == 2
         assert self.bounds[0] < self.bounds[1]
         assert all(map(lambda x: isinstance(x, (int, float)), self.bounds))
-        self.step = step
         self._map_func = _gen_map_func(self.bounds[0], self.step)
         self._size = int(np.floor((self.bounds[1] - self.bounds[0]) / self.step) + 1)
 
     def __contains__(self, x: int) -> bool:
-        return self.bounds[0] <= x <= self.bounds[1]
+        k = (x - self.bounds[0]) / self.step
+        return bool(self.bounds[0] <= x <= self.bounds[1] and np.isclose(k, np.round(k), rtol=0))
 
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.step))
 
+    def round(self, x: Union[int, float]) -> int:
+        """Round `x` to the closest value admitted by `bounds` and `step`"""
+        return self._map_func(int(np.clip(np.round((x - self.bounds[0]) / self.step), 0, self._size - 1)))
+
     def __str__(self):
         msg = super().__str__()
         msg += f" | step: {self.step}"
-- 
2.43.0


From c9a5f218bf7299b23066278c241bb7794d235688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 21/81] fix: keep the levels of categorical variables intact in
 the constrained sampler

Converting the levels to an array changed their type (e.g. numbers to strings for
mixed levels, Python bools to numpy ones) and raised for subsets of unequal size.
---
 bayes_optim/search_space/samplers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index 421c934..4937e87 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -152,9 +152,10 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            levels = self.sample_space.bounds[i]
+            idx = np.nonzero(np.random.rand(N) < prob)[0]
+            for k, j in zip(idx, np.random.randint(0, len(levels), len(idx))):
+                X[k, i] = levels[j]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From 41bc52ff4851634e33b0b388e795e25c8cf2bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 22/81] fix: slicing or creating a search space must not reset
 the random number generator

Every space without a seed re-seeded the global generator with fresh entropy,
which made the seed of the optimizers and of fmin void; every slice of a seeded
space restarted the generator, so the space kept producing the same points.
---
 bayes_optim/search_space/search_space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 4901012..f379efc 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -127,7 +127,8 @@ class SearchSpace:
         if seed:
             seed = int(seed)
         self._random_seed = seed
-        np.random.seed(self._random_seed)
+        if seed is not None:
+            np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -257,7 +258,8 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            out = SearchSpace(data)
+            out._random_seed = self.random_seed
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
-- 
2.43.0


From 5e879ad44479a491271103d49b7a5541f3a5f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 23/81] fix: accept zero as a random seed and make the seed
 readable when unset

---
 bayes_optim/_base.py                                 | 7 +++----
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..531ef4c 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From d09fdcc1d7d5e9231ff6dfc63c4cd9b4470a28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 24/81] fix: the (1+1)-CMA-ES is not seeded by default

The default seed (documented as None) reset the global generator, so all restarts
of the acquisition optimization were identical and every later draw repeated.
---
 bayes_optim/acquisition/optim/__init__.py            | 2 --
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..9c218cc 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -104,7 +103,6 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 531ef4c..a8af1b7 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -35,7 +35,7 @@ class OnePlusOne_CMA(object):
         ftol: float = 1e-4,
         verbose: bool = False,
         log_file: str = None,
-        random_seed: int = 42,
+        random_seed: int = None,
         **kwargs,
     ):
         """Hereafter, we use the following customized
-- 
2.43.0


From b79d6b1cb2ba6f8a5fbd1b832dbe120760c53d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 25/81] fix: match the keys of dictionaries by name when
 creating solutions

The values were taken in the order of insertion: dictionaries whose keys come in
another order had their values stored under the wrong variables.
---
 bayes_optim/base.py     | 4 +++-
 bayes_optim/solution.py | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..ba159f5 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..ebffd97 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,11 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else var_name
+            res = cls.__new__(cls, x=[x[k] for k in var_name], var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            var_name = list(x[0].keys()) if var_name is None else var_name
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 0b1cf3f0430169aa11a50ba2908237d90a69495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 26/81] fix: align the columns by name when concatenating
 solutions

Only the sets of names were compared, so columns in a different order were mixed.
---
 bayes_optim/solution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index ebffd97..1e30bde 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -149,6 +149,11 @@ class Solution(np.ndarray):
         assert len(set(self.fitness_name).symmetric_difference(other.fitness_name)) == 0
         assert len(set(self.var_name).symmetric_difference(other.var_name)) == 0
 
+        if list(self.var_name) != list(other.var_name):
+            # align the columns of `other` by name
+            order = [list(other.var_name).index(name) for name in self.var_name]
+            other = other[order] if len(other.shape) == 1 else other[:, order]
+
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
-- 
2.43.0


From f7ba6675132a6c48de4b17d68891d086e8377530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 27/81] fix: NoisyBO.ask

NoisyBO.pre_eval_check returned a Solution object, which is added elementwise to
the list of candidates in ask/create_DoE and raised there.
---
 bayes_optim/bayes_opt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..9580551 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -178,9 +178,8 @@ class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
     def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+        """Re-evaluating a point is meaningful in noisy cases, hence duplications are allowed"""
+        return X.tolist() if isinstance(X, np.ndarray) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From 0faccb16ee6bc9f59c65ee19a05da68c38c74cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 28/81] fix: no duplicated points within one batch of
 candidates

The rounds of random sampling were not compared to each other nor to the
candidates found by the acquisition optimization, so ask could return the same
point twice. Of identical points in a batch, keep one instead of none.
---
 bayes_optim/base.py      | 10 +++++++---
 bayes_optim/bayes_opt.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ba159f5..2581c7a 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -288,7 +288,7 @@ class BaseBO(BaseOptimizer):
                 )
                 N = n_point - len(X)
                 # take random samples if the acquisition optimization failed
-                X += self.create_DoE(N, fixed=fixed)
+                X += self.create_DoE(N, fixed=fixed, known=X)
         else:  # take the initial DoE
             n_point = self._DoE_size if n_point is None else n_point
             msg = f"asking {n_point} points (using DoE):"
@@ -361,19 +361,22 @@ class BaseBO(BaseOptimizer):
             self.iter_count += 1
             self.hist_f.append(xopt.fitness)
 
-    def create_DoE(self, n_point: int, fixed: Dict = None) -> List:
+    def create_DoE(self, n_point: int, fixed: Dict = None, known: List = None) -> List:
         """get the initial sample points using Design of Experiemnt (DoE) methods
 
         Parameters
         ----------
         n_point : int
             the number of sample points to draw
+        known : List, optional
+            points selected already, which should not be drawn again, by default None
 
         Returns
         -------
         List
             a list of sample points
         """
+        known = [] if known is None else list(known)
         fixed = {} if fixed is None else fixed
         search_space = self.search_space.filter(fixed.keys(), invert=True)
 
@@ -392,7 +395,8 @@ class BaseBO(BaseOptimizer):
 
             if len(X) != 0:
                 X = self.search_space.round(X)
-                X = self.pre_eval_check(X)
+                X = X.tolist() if isinstance(X, np.ndarray) else X
+                X = self.pre_eval_check(known + DoE + X)[len(known) + len(DoE) :]
                 DoE += X
                 n_point -= len(X)
 
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 9580551..d5924b7 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -39,7 +39,8 @@ class BO(BaseBO):
         _ = []
         for i in range(N):
             x = X[i]
-            idx = np.arange(len(X)) != i
+            # compare to the evaluated points and the ones kept from this batch
+            idx = _ + list(range(N, len(X)))
             CON = np.all(
                 np.isclose(
                     np.asarray(X[idx][:, self.r_index], dtype="float"),
-- 
2.43.0


From f3b7d6d28e8f0fc26a6ccfc37d41fdd37585c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:59 +0000
Subject: [PATCH 29/81] fix: propose the remaining points of a finite search
 space

When a few random draws all hit evaluated points, ask raised AskEmptyError (or
returned too few points) although most of the space was not evaluated yet.
---
 bayes_optim/base.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 2581c7a..2668c09 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -1,7 +1,9 @@
 import functools
+import math
 import os
 from abc import abstractmethod
 from copy import copy
+from itertools import product
 from typing import Any, Callable, Dict, List, Optional, Tuple, Union
 
 import dill
@@ -13,7 +15,7 @@ from bayes_optim.utils.logger import dump_logger, load_logger
 from ._base import BaseOptimizer
 from .acquisition import acquisition_fun as AcquisitionFunction
 from .acquisition.optim import argmax_restart, default_AQ_max_FEs, default_AQ_n_restart, default_AQ_wait_iter
-from .search_space import RealSpace
+from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .utils import (
     arg_to_int,
@@ -403,8 +405,29 @@ class BaseBO(BaseOptimizer):
             count += 1
             if count > 3:  # maximally 3 iterations
                 break
+
+        if n_point:
+            DoE += self._enumerate_unseen(search_space, fixed, known + DoE)[:n_point]
         return DoE
 
+    def _enumerate_unseen(self, search_space: SearchSpace, fixed: Dict, known: List) -> List:
+        """enumerate all points of a (small) finite search space that are not evaluated yet"""
+        if not all(hasattr(var, "_size") for var in search_space.data):
+            return []
+        if math.prod(var._size for var in search_space.data) > 1e4:
+            return []
+
+        X = list(product(*[[var._map_func(i) for i in range(var._size)] for var in search_space.data]))
+        X = [list(X[i]) for i in np.random.permutation(len(X))]
+        X = fillin_fixed_value(X, fixed, self.search_space)
+        seen = known + (self.data.tolist() if hasattr(self, "data") else [])
+        X = [x for x in X if x not in seen]
+        if self._h:
+            X = [x for x in X if np.all(np.abs(self._h(x)) <= 1e-2)]
+        if self._g:
+            X = [x for x in X if np.all(self._g(x) <= 0)]
+        return X
+
     @abstractmethod
     def pre_eval_check(self, X: Solution) -> Solution:
         """This function is meant for checking validaty of the solutions prior to the evaluation
-- 
2.43.0


From 7249f23f490982eaab9b64b48246c06ccbce5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 30/81] fix: count one evaluation per told point

With list-typed points, the number of evaluations started at one before being
incremented, hence data (and the data file) reported two evaluations per point.
---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 2668c09..b57f6b3 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -179,7 +179,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From 0db1ab290f23f15cdbb5a8158f439ba77714a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 31/81] fix: failed evaluations in multi-objective optimization

The mask of the failed evaluations is two-dimensional for multiple objectives, so
removing a point with a NaN objective raised an IndexError.
---
 bayes_optim/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index b57f6b3..ad571c8 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -441,6 +441,8 @@ class BaseBO(BaseOptimizer):
 
     def post_eval_check(self, X: Solution) -> Solution:
         _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        if _.ndim > 1:  # multi-objective: a point is dropped if any of its objectives failed
+            _ = np.any(_, axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From f3beca6e306338c28687224afe2d560467dbb350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 32/81] fix: warm-starting from Solution objects, dictionaries
 and non-string categories

A Solution raised on the comparison of the variable names, eval_type="dict" raised
when the data were told, and Boolean, numeric or subset levels were rejected.
---
 bayes_optim/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ad571c8..89b33da 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -164,7 +164,7 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
             else:
                 X = self._to_geno(X)
 
@@ -172,7 +172,7 @@ class BaseBO(BaseOptimizer):
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            assert all([_ in self.search_space.data[i] for i in self.d_index for _ in X[:, int(i)].ravel()])
             self._warm_data = X
             self.tell(X, y, warm_start=True)
 
@@ -190,7 +190,7 @@ class BaseBO(BaseOptimizer):
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
             self._to_geno = lambda x, index=None: Solution.from_dict(
-                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+                x.to_dict() if isinstance(x, Solution) else x, index=index, var_name=self.var_names, n_obj=self.n_obj
             )
 
     def _set_internal_optimization(self, kwargs):
-- 
2.43.0


From 06771bd9491b194dc899810245d3771c69e54fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 33/81] fix: do not share the acquisition parameters between
 optimizers

The (default) dictionary was stored by reference and updated in place, so one
AnnealingBO changed the parameters of the other optimizers and of the caller.
---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 89b33da..1f02e95 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -111,7 +111,7 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        self._acquisition_par = copy(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
-- 
2.43.0


From ddc9d11ea2c18c5ee67556fec3803e96394c6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 34/81] fix: use the acquisition parameters when proposing a
 single point

acquisition_par was ignored whenever one point is asked for.
---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 1f02e95..d9c7850 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -499,7 +499,9 @@ class BaseBO(BaseOptimizer):
                 n_point=n_point, return_dx=return_dx, fixed=fixed
             )
         else:  # single-point strategy
-            criteria = self._create_acquisition(par={}, return_dx=return_dx, fixed=fixed)
+            criteria = self._create_acquisition(
+                par=copy(self._acquisition_par), return_dx=return_dx, fixed=fixed
+            )
             candidates, values = self._argmax_restart(criteria, logger=self.logger)
             candidates, values = [candidates], [values]
 
-- 
2.43.0


From f8d57740eeaa0dcc63ed2413caf8a40a4d22dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 35/81] fix: a failing save neither corrupts the optimizer nor
 the existing file

When dumping or writing failed, the optimizer was left with its data and logger
replaced by byte strings, and the previous checkpoint was already truncated.
---
 bayes_optim/base.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d9c7850..a6e9dd7 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -535,21 +535,28 @@ class BaseBO(BaseOptimizer):
         if dirname != "":
             os.makedirs(dirname, exist_ok=True)
 
-        with open(filename, "wb") as f:
-            # NOTE: we need to dump `self.data` first. Otherwise, some
-            # attributes of it will be lost
-            if hasattr(self, "data"):
+        # NOTE: we need to dump `self.data` first. Otherwise, some
+        # attributes of it will be lost
+        state = {k: getattr(self, k) for k in ("data", "logger") if hasattr(self, k)}
+        try:
+            if "data" in state:
                 self.data = dill.dumps(self.data)
-
-            logger = self.logger
             self.logger = dump_logger(self.logger)
-
-            dill.dump(self, f)
-
-            self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
-            self.logger.info(f"save to file {filename}...")
+            content = dill.dumps(self)
+        finally:
+            self.__dict__.update(state)
+
+        # NOTE: an existing file is only replaced after the new one is written completely
+        tmp_file = f"{filename}.tmp"
+        try:
+            with open(tmp_file, "wb") as f:
+                f.write(content)
+            os.replace(tmp_file, filename)
+        except BaseException:
+            if os.path.exists(tmp_file):
+                os.remove(tmp_file)
+            raise
+        self.logger.info(f"save to file {filename}...")
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From 4d1cf6834303664ea13a86273102975a3043d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 36/81] fix: survive batches in which all evaluations failed

---
 bayes_optim/_base.py | 3 ++-
 bayes_optim/base.py  | 6 +++++-
 bayes_optim/mobo.py  | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 91036a7..5a05451 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -133,7 +133,8 @@ class BaseOptimizer:
     def run(self) -> Tuple[List[Solution], dict]:
         while not self.check_stop():
             self.step()
-        return self._to_pheno(self.xopt), self.xopt.fitness, self.stop_dict
+        xopt = self.recommend()
+        return self._to_pheno(xopt), xopt.fitness, self.stop_dict
 
     @property
     def xopt(self) -> Solution:
diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index a6e9dd7..a7f1d1d 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -341,7 +341,11 @@ class BaseBO(BaseOptimizer):
             self.logger.info(f"#{i + 1} - fitness: {func_vals[i]}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
-        self.data = self.data + X if hasattr(self, "data") else X
+        if len(X) != 0:
+            self.data = self.data + X if hasattr(self, "data") else X
+        if not hasattr(self, "data"):  # all evaluations failed so far
+            self.iter_count += int(not warm_start)
+            return
         self.update_model()
 
         if self.data_file is not None:
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..a81d772 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -128,7 +128,11 @@ class BaseMOBO(BO):
         X = self.post_eval_check(X)
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
-        self.data = self.data + X if hasattr(self, "data") else X
+        if len(X) != 0:
+            self.data = self.data + X if hasattr(self, "data") else X
+        if not hasattr(self, "data"):  # all evaluations failed so far
+            self.iter_count += int(not warm_start)
+            return
 
         # update the surrogate models
         self.update_model()
-- 
2.43.0


From b851e3b5e61c918aa8038f0f448f47cbb53f9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 37/81] fix: the probability of improvement can be instantiated

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..59d27ef 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From dd6878737d60ff184d099de14f08592a266add90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 38/81] fix: the direction of the upper confidence bound

---
 bayes_optim/acquisition/acquisition_fun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 59d27ef..dd7dc32 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -110,7 +110,8 @@ class UCB(AcquisitionFunction):
 
         \alpha(x) = m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value (with the reversed sign under minimization) and \sigma(x) is
+        the uncertainty of the prediction
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +131,8 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            # NOTE: `y_hat` is always subject to minimization while UCB is maximized
+            f_value = -1.0 * y_hat + self.alpha * sd
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +142,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = -1.0 * y_dx + self.alpha * sd_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From 8c59841cbbaf2b8cd32a2acdf28c176146093b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 39/81] fix: fmin accepts integers, tuples, and arrays as
 bounds

---
 bayes_optim/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..0441323 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -136,9 +136,9 @@ def fmin(
     """
     obj_func = lambda x: func(x, *args)
 
-    if isinstance(lower, float) and isinstance(upper, float):
+    if np.isscalar(lower) and np.isscalar(upper):
         search_space = RealSpace([lower, upper])
-    elif isinstance(lower, list) and isinstance(upper, list):
+    else:
         assert len(lower) == len(upper)
         search_space = RealSpace(list(zip(lower, upper)))
 
-- 
2.43.0


From a2299a7fd4bc36006749ffd0739502a0a2e74f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 40/81] fix: fmin returns the points of every iteration

---
 bayes_optim/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0441323..6f2784b 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -186,13 +186,12 @@ def fmin(
         random_seed=seed,
         **kwargs,
     )
-    opt.run()
-
-    N, n = opt.DoE_size, opt.n_point
-    _data, data = opt.data[:N, :], opt.data[N:, :]
-
-    data_per_iteration = [np.asarray(data[:N, :])]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    data_per_iteration = []
+    while not opt.check_stop():
+        N = len(opt.data) if hasattr(opt, "data") else 0
+        opt.step()
+        data_per_iteration.append(np.asarray(opt.data[N:, :]) if hasattr(opt, "data") else np.empty((0, dim)))
+    opt.recommend()
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From f99a274da01e837ed23e4d18ff9b283ae24ca62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 41/81] fix: round the constrained sample before testing its
 feasibility

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f379efc..4e0d8f6 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -529,7 +529,7 @@ class SearchSpace:
         # 10 is the minimal number of sample points to take under constraints
         n = max(N, 10) if h or g else N
         constraints = lambda x: np.r_[np.abs(h(x)) if h else [], np.array(g(x)) if g else []]
-        S = SCMC(self, constraints, tol=tol).sample(n) if h or g else self._sample(N, method)
+        S = self.round(SCMC(self, constraints, tol=tol).sample(n)) if h or g else self._sample(N, method)
         try:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
-- 
2.43.0


From f5791465de635361fc129bb6df722fd88ffb62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 42/81] fix: candidates of BFGS and the initial point of
 (1+1)-CMA-ES respect the numerical precision

---
 bayes_optim/acquisition/optim/__init__.py            | 5 +++++
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 9c218cc..8825a00 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -87,6 +87,11 @@ def argmax_restart(
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
+            # rounding if a coarser numerical precision is provided
+            x_ = search_space.round(xopt_).ravel().tolist()
+            if x_ != xopt_:
+                xopt_ = x_
+                fopt_ = float(np.ravel(obj_func(xopt_)[0])[0])
 
             if logger is not None and stop_dict["warnflag"] != 0:
                 logger.debug("L-BFGS-B terminated abnormally with the state: %s" % stop_dict)
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index a8af1b7..7709afe 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -213,6 +213,7 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            x = self.search_space.round(x).ravel()
 
         self._x = x
         y = self.evaluate(x)
-- 
2.43.0


From 52294ff1764592ad409691c5e5057ebb646dfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 43/81] fix: restart (1+1)-CMA-ES at most n_restart times

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 7709afe..f0f0cd1 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -264,7 +264,7 @@ class OnePlusOne_CMA(object):
         return fval
 
     def restart(self):
-        if self._restart:
+        if self._restart and not self._stop:
             self.logger.info("restarting... ")
             self.x = None
             self.sigma = self.sigma0
@@ -275,6 +275,7 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From 3ef51c188ca12cb5a1ee303b918d9f578f2cfac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 44/81] fix: determine the efficient set on the exact objective
 values

---
 bayes_optim/mobo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index a81d772..e1362d8 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -2,6 +2,7 @@ import functools
 from typing import Dict, List, Tuple, Union
 
 import numpy as np
+import torch
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
@@ -51,9 +52,12 @@ class BaseMOBO(BO):
     @property
     def xopt(self):
         """get the non-dominated subset of solutions"""
-        if self.y is None:
+        if not hasattr(self, "data"):
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        # NOTE: neither normalize the objective values nor cast them to single precision here since
+        # different objective values might coincide thereafter
+        y = np.asarray(self.data.fitness, dtype=float) * (-1.0) ** self.minimize
+        idx = is_non_dominated(torch.from_numpy(y)).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From 1d35b02ee763808f399807148ee9bd5528c3ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 45/81] fix: ConditionalBO keeps zero and False

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..9d9b0b5 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -288,7 +288,7 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
-- 
2.43.0


From 483773963efbd46ac1369c046958c09652ec93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 46/81] fix: failed evaluations in ConditionalBO

---
 bayes_optim/extension.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 9d9b0b5..e0792fa 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -293,9 +293,13 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
-        self.data = self.data + X if hasattr(self, "data") else X
         self.eval_count += len(X)
+        X = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
+        if len(X) != 0:
+            self.data = self.data + X if hasattr(self, "data") else X
+        if not hasattr(self, "data"):  # all evaluations failed so far
+            self.iter_count += int(not warm_start)
+            return
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From 48e0e1edcce24b009755aac074a3cdc440de0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 47/81] fix: the box-constraint handling neither changes its
 input nor leaves the box

---
 bayes_optim/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..181b57a 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -113,7 +113,7 @@ def handle_box_constraint(x, lb, ub):
     Analysis" as alorithm 6.
 
     """
-    x = np.asarray(x, dtype="float")
+    x = np.array(x, dtype="float")
     shape_ori = x.shape
     x = np.atleast_2d(x)
     lb = np.atleast_1d(lb)
@@ -139,7 +139,7 @@ def handle_box_constraint(x, lb, ub):
     yprime[I] = np.abs(y[I] - np.floor(y[I]))
     yprime[~I] = 1.0 - np.abs(y[~I] - np.floor(y[~I]))
 
-    x[valid, :] = LB + (UB - LB) * yprime
+    x[valid, :] = np.clip(LB + (UB - LB) * yprime, LB, UB)
 
     if transpose:
         x = x.T
-- 
2.43.0


From bc6969a7de44cc33f552e0989ca7c163e91c5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 48/81] fix: partially apply a function to several points

---
 bayes_optim/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 181b57a..59afd53 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -186,7 +186,7 @@ def partial_argument(
         if not isinstance(X, np.ndarray):
             X = np.array(X, dtype=object)
 
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
         # this is needed if `values` contains tuples
-- 
2.43.0


From 5cf42dcf1f11d6eda3314bf07bb8a4b1d4029aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 49/81] fix: the linear annealing schedule does not go below
 the final value

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index d5924b7..e800b9e 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -131,7 +131,7 @@ class AnnealingBO(ParallelBO):
             self._anealer = lambda t: t * self.alpha
         elif self.schedule == "linear":
             self.eta = (t0 - self.tf) / max_iter  # linear
-            self._anealer = lambda t: t - self.eta
+            self._anealer = lambda t: max(t - self.eta, self.tf)
         elif self.schedule == "log":
             self.c = self.tf * np.log(max_iter + 1)  # logarithmic
             self._anealer = lambda t: t * self.c / np.log(self.iter_count + 2)
-- 
2.43.0


From 60a3e9d1db77b068c8bc9a6e27a5b43ca1ebf8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 50/81] fix: SelfAdaptiveBO ranks the acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index e800b9e..3a03ac0 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -170,7 +170,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([np.ravel(value)[0] for _, value in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From 87f30b687106f3552ea469221a382fb607bfb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 51/81] fix: ParallelBO with UCB and the default parameters

---
 bayes_optim/bayes_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 3a03ac0..99ab09d 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -68,9 +68,11 @@ class ParallelBO(BO):
         self,
         n_point: int = 3,
         acquisition_fun: str = "MGFI",
-        acquisition_par: Dict = {"t": 2},
+        acquisition_par: Dict = None,
         **kwargs,
     ):
+        if acquisition_par is None and acquisition_fun == "MGFI":
+            acquisition_par = {"t": 2}
         super().__init__(
             n_point=n_point,
             acquisition_fun=acquisition_fun,
-- 
2.43.0


From 792c8138eb1b53f13b903a4d1959bfbafd55797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:26 +0000
Subject: [PATCH 52/81] fix: the covariance update of (1+1)-Cholesky-CMA-ES
 with a vanishing path

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index f0f0cd1..5f13c19 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -462,8 +462,9 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
-        self._A *= np.sqrt(ca)
+        if L > 0:  # otherwise the rank-one update vanishes
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
 
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
+        self._A *= np.sqrt(ca)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From fb58dc6bf7c19da70f218a2948342423b41bca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:59 +0000
Subject: [PATCH 53/81] fix: drop conditional trees without children

---
 bayes_optim/search_space/search_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 4e0d8f6..a586c0b 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -191,7 +191,8 @@ class SearchSpace:
             if child not in _structure.setdefault(key, []):
                 _structure[key].append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-        self.structure = [t for t in self.structure if t]
+        # a root without children imposes no condition
+        self.structure = [t for t in self.structure if t and t.children]
 
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
-- 
2.43.0


From af41831f8374dabfbe5e1429bc36e21c028a018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:46 +0000
Subject: [PATCH 54/81] fix: negative and numpy integers as indices of
 solutions

---
 bayes_optim/solution.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 1e30bde..065ed9d 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -211,11 +211,14 @@ class Solution(np.ndarray):
 
     def __getitem__(self, index):
         _, __ = index, slice(None, None)
+        _int = (int, np.integer)
+        # NOTE: the stop of the slice for the last element is `None`
+        _to_slice = lambda i: slice(i, i + 1 if i != -1 else None)
         if isinstance(index, tuple):
             _ = index[0]
             if len(index) == 2:
-                if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                if isinstance(index[1], _int) and not isinstance(index[0], _int):
+                    __ = _to_slice(index[1])
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -227,7 +230,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = _to_slice(_) if isinstance(_, _int) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From 54808e5f9683381dfc76ec3337f65b7a10b6e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:31 +0000
Subject: [PATCH 55/81] fix: concatenate, replicate, and export single
 multi-objective solutions

---
 bayes_optim/solution.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 065ed9d..f9ededc 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -158,7 +158,7 @@ class Solution(np.ndarray):
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._fitness_rows().tolist() + other._fitness_rows().tolist(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -174,7 +174,7 @@ class Solution(np.ndarray):
             raise Exception("Replication is not supported for 2D")
         return Solution(
             [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            self._fitness_rows().tolist() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -182,6 +182,10 @@ class Solution(np.ndarray):
             verbose=self.verbose,
         )
 
+    def _fitness_rows(self) -> np.ndarray:
+        """one row of objective values per solution, also for a single multi-objective solution"""
+        return self.fitness.reshape(-1, self.n_obj) if self.n_obj > 1 else self.fitness
+
     def __rmul__(self, N: int) -> Solution:
         return self.__mul__(N)
 
@@ -376,7 +380,7 @@ class Solution(np.ndarray):
         if index:
             data = np.c_[self.index, data]
         if attribute:
-            data = np.c_[data, self.n_eval, self.fitness]
+            data = np.c_[data, self.n_eval, self._fitness_rows()]
 
         out = [delimiter.join(map(str, row)) + "\n" for row in data.tolist()]
         mode = "a" if append else "w"
-- 
2.43.0


From 5ac5ca916858c8ef1ba582a884865f1e0a758406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:02 +0000
Subject: [PATCH 56/81] fix: a single solution that starts with a subset value

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index f9ededc..540b604 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -76,7 +76,7 @@ class Solution(np.ndarray):
             obj = np.asarray([_ + [1] for _ in x], dtype="object")[:, 0:dim].view(cls)
         elif isinstance(x[0], tuple):
             dim = len(x)
-            obj = np.asarray(x + [1], dtype="object")[:, 0:dim].view(cls)
+            obj = np.asarray(x + [1], dtype="object")[0:dim].view(cls)
         else:
             obj = np.asarray(x, dtype="object").view(cls)
 
-- 
2.43.0


From c3e158a64199cf25103e4bdf5091b6a44f830e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:35 +0000
Subject: [PATCH 57/81] fix: PCA-BO copes with failed and few evaluations

A first batch without any successful evaluation raised a division by zero, and
fewer observations than components made the PCA fail.
---
 bayes_optim/extension.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index e0792fa..be6c4b0 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -165,7 +165,13 @@ class PCABO(BO):
         self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
-        self.data = self.data + new_X if hasattr(self, "data") else new_X
+        if len(new_X) != 0:
+            self.data = self.data + new_X if hasattr(self, "data") else new_X
+        # keep sampling the original space if the PCA transformation cannot be determined yet
+        n_components = self._pca.n_components
+        n_min = max(2, n_components if isinstance(n_components, int) else 0)
+        if not hasattr(self, "data") or len(self.data) < n_min:
+            return
         # re-fit the PCA transformation
         X = self._pca.fit_transform(np.array(self.data), self.data.fitness)
         bounds = self._compute_bounds(self._pca, self.__search_space)
-- 
2.43.0


From 701b824d9bf98fc7f8758edd8561d3c187386174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:11 +0000
Subject: [PATCH 58/81] fix: accept warm-starting data in PCABO

PCABO.tell lacked the warm_start argument used for warm-starting data, and data given at construction were told before the transformation existed.
---
 bayes_optim/extension.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index be6c4b0..7eb16ed 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import functools
 from copy import copy, deepcopy
-from typing import Callable, Dict, List, Union
+from typing import Callable, Dict, List, Tuple, Union
 
 import numpy as np
 from joblib import Parallel, delayed
@@ -99,7 +99,7 @@ class PCABO(BO):
 
     """
 
-    def __init__(self, n_components: Union[float, int] = None, **kwargs):
+    def __init__(self, n_components: Union[float, int] = None, warm_data: Tuple = None, **kwargs):
         super().__init__(**kwargs)
         if self.model is not None:
             self.logger.warning(
@@ -109,6 +109,7 @@ class PCABO(BO):
         assert isinstance(self._search_space, RealSpace)
         self.__search_space = deepcopy(self._search_space)  # the original search space
         self._pca = LinearTransform(n_components=n_components, svd_solver="full", minimize=self.minimize)
+        self.warm_data = warm_data
 
     @staticmethod
     def _compute_bounds(pca: PCA, search_space: SearchSpace) -> List[float]:
@@ -151,7 +152,7 @@ class PCABO(BO):
     def ask(self, n_point: int = None) -> List[List[float]]:
         return self._pca.inverse_transform(super().ask(n_point))
 
-    def tell(self, new_X, new_y):
+    def tell(self, new_X, new_y, warm_start: bool = False):
         self.logger.info(f"observing {len(new_X)} points:")
         for i, x in enumerate(new_X):
             self.logger.info(f"#{i + 1} - fitness: {new_y[i]}, solution: {x}")
@@ -161,8 +162,9 @@ class PCABO(BO):
             index += len(self.data)
         # convert `new_X` to a `Solution` object
         new_X = self._to_geno(new_X, index=index, n_eval=1, fitness=new_y)
-        self.iter_count += 1
-        self.eval_count += len(new_X)
+        if not warm_start:
+            self.iter_count += 1
+            self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
         if len(new_X) != 0:
-- 
2.43.0


From 0f3e0da321103b0fee5839a5fc4fbf5763641862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 59/81] fix: evaluate constraints of a point that starts with a
 subset

The penalty of the incumbent was computed by passing a bare point, whose first value was mistaken for a point if it is a subset (tuple).
---
 bayes_optim/base.py | 2 +-
 bayes_optim/mobo.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index a7f1d1d..3b98edb 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -355,7 +355,7 @@ class BaseBO(BaseOptimizer):
         self.logger.info(f"fopt: {xopt.fitness}")
         # show the current penalty value if cheap constraints are present
         if self.h is not None or self.g is not None:
-            _penalty = dynamic_penalty(xopt.tolist(), 1, self._h, self._g, minimize=self.minimize)
+            _penalty = dynamic_penalty([xopt.tolist()], 1, self._h, self._g, minimize=self.minimize)
             self.logger.info(f"penalty: {_penalty[0]:.4e}")
         self.logger.info(f"xopt: {self._to_pheno(xopt)}\n")
 
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index e1362d8..863e5ce 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -152,7 +152,7 @@ class BaseMOBO(BO):
 
         if self.h is not None or self.g is not None:
             penalty = np.array(
-                [dynamic_penalty(x, 1, self._h, self._g, minimize=False) for x in xopt]
+                [dynamic_penalty([x], 1, self._h, self._g, minimize=False) for x in xopt.tolist()]
             ).ravel()
             self.logger.info(f"... with corresponding penalty: {penalty}")
 
-- 
2.43.0


From cf540618eb921b24f4967e0f13813c842c845a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:35 +0000
Subject: [PATCH 60/81] fix: do not truncate indices assigned to solutions

The index was a fixed-width string array, so assigning a longer name cut it off.
---
 bayes_optim/solution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 540b604..c467275 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -132,7 +132,7 @@ class Solution(np.ndarray):
         # TODO: a np.ndarray is used for those attributes because slicing it returns references
         super(Solution, obj).__setattr__("fitness", np.asarray(fitness, dtype=float))
         super(Solution, obj).__setattr__("n_eval", np.asarray(n_eval, dtype=int))
-        super(Solution, obj).__setattr__("index", np.asarray(index, dtype=str))
+        super(Solution, obj).__setattr__("index", np.asarray(index, dtype=str).astype(object))
         obj.var_name = np.asarray(var_name)
         obj.fitness_name = fitness_name
         obj.verbose = verbose
@@ -192,7 +192,8 @@ class Solution(np.ndarray):
     def __setattr__(self, name, value):
         attr = getattr(self, name, None)
         if hasattr(attr, "__iter__") and name in ["fitness", "n_eval", "index"]:
-            attr[:] = value  # NOTE: copy the value (not reference) to the attribute
+            # NOTE: copy the value (not reference) to the attribute
+            attr[:] = np.asarray(value, dtype=str) if name == "index" else value
         else:
             super(Solution, self).__setattr__(name, value)
 
-- 
2.43.0


From e9b7c327076e1bf79632848d3e07ec3f18fce298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 61/81] fix: Boolean spaces with several named variables

---
 bayes_optim/search_space/search_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a586c0b..d4b6fc1 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -869,6 +869,7 @@ class BoolSpace(_DiscreteSpace):
         default_value: Union[bool, List[bool]] = None,
         **kwargs,
     ):
-        out = self._ready_args((False, True), var_name, default_value=default_value)
+        bounds = [(False, True)] * (1 if isinstance(var_name, str) else len(var_name))
+        out = self._ready_args(bounds, var_name, default_value=default_value)
         data = [Bool(**_) for _ in out]
         super().__init__(data, **kwargs)
-- 
2.43.0


From 7f632bcabbe95f08ea9610880c4f02b1c2531339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 62/81] fix: OnePlusOne_CMA ignores a starting covariance that
 is not positive definite

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 5f13c19..dc97166 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -158,11 +158,9 @@ class OnePlusOne_CMA(object):
         self._coeff: float = self.cc * (2 - self.cc)
 
     def _init_covariance(self, C):
-        if C is None:
-            self._C = np.eye(self.dim)
-            self._A = np.eye(self.dim)
-        else:
-            self.C = C
+        self._C = np.eye(self.dim)
+        self._A = np.eye(self.dim)
+        self.C = C  # NOTE: input that is not positive definite is ignored
 
     def _init_logging_var(self):
         # parameters for logging the history
-- 
2.43.0


From 554d3470a8547dc8facde9646cbf103b2e3d9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 63/81] fix: OnePlusOne_CMA reports the penalty of constrained
 problems when verbose

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index dc97166..dbc6267 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -341,7 +341,7 @@ class OnePlusOne_CMA(object):
             self.logger.info(f"fopt: {self.fopt}")
             if self.h is not None or self.g is not None:
                 _penalty = (self.fopt - self.fopt_penalized) * (-1) ** self.minimize
-                self.logger.info(f"penalty: {_penalty[0]:.4e}")
+                self.logger.info(f"penalty: {float(np.ravel(_penalty)[0]):.4e}")
             self.logger.info(f"xopt: {self.xopt.tolist()}")
             self.logger.info(f"sigma: {self._sigma}\n")
 
-- 
2.43.0


From 10efd641432f71a040af8cce24691517d97c35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 64/81] fix: copies of solutions have attributes of their own

---
 bayes_optim/solution.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index c467275..a212c39 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Dict, List, Optional, Sequence, Union
 
 import numpy as np
@@ -277,6 +278,21 @@ class Solution(np.ndarray):
         self.N: int = getattr(obj, "N", None)
         self.n_obj: int = getattr(obj, "n_obj", None)
 
+    def _detach(self, obj: Solution) -> Solution:
+        """give `self`, which is a copy of `obj`, its own attributes"""
+        for name in ("fitness", "n_eval", "index"):
+            super(Solution, self).__setattr__(name, deepcopy(getattr(obj, name)))
+        return self
+
+    def copy(self, order: str = "C") -> Solution:
+        return super().copy(order)._detach(self)
+
+    def __copy__(self) -> Solution:
+        return self.copy()
+
+    def __deepcopy__(self, memo: dict) -> Solution:
+        return super().__deepcopy__(memo)._detach(self)
+
     @classmethod
     def from_dict(
         cls,
-- 
2.43.0


From afd3a7de33233e88b9aa2fbe01c51044f9426316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:45 +0000
Subject: [PATCH 65/81] fix: solutions keep their attributes when pickled

---
 bayes_optim/solution.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index a212c39..91753b1 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -293,6 +293,16 @@ class Solution(np.ndarray):
     def __deepcopy__(self, memo: dict) -> Solution:
         return super().__deepcopy__(memo)._detach(self)
 
+    def __reduce__(self) -> tuple:
+        fun, args, state = super().__reduce__()
+        return fun, args, (state, self.__dict__)
+
+    def __setstate__(self, state: tuple):
+        if len(state) == 2:
+            state, attributes = state
+            self.__dict__.update(attributes)
+        super().__setstate__(state)
+
     @classmethod
     def from_dict(
         cls,
-- 
2.43.0


From d3332e61ef8693f38cad384e92a1fd748e4cd48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 66/81] fix: gradient of the Matern correlation at the data
 points

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..a70df50 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -642,8 +642,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     if nu == 0.5:
                         grad = -diff * theta / D * r
                     elif nu == 1.5:
-                        grad = diff * theta / D
-                        grad *= -3.0 * D * exp(-c * D)
+                        grad = -3.0 * diff * theta * exp(-c * D)
                     elif nu == 2.5:
                         pass
 
-- 
2.43.0


From 0150da0ea800b42aea59efd87ce97c33b2ee7bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 67/81] fix: predictions of the Gaussian process in batches

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index a70df50..c3be716 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -516,19 +516,17 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                 raise Exception("batch_size must be a positive integer")
 
             if eval_MSE:
-                y, MSE = np.zeros(n_eval), np.zeros(n_eval)
-                for k in range(max(1, n_eval / batch_size)):
-                    batch_from = k * batch_size
-                    batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
+                y, MSE = np.zeros((n_eval, n_targets)), np.zeros((n_eval, n_targets))
+                for batch_from in range(0, n_eval, batch_size):
+                    batch_to = batch_from + batch_size
                     y[batch_from:batch_to], MSE[batch_from:batch_to] = self.predict(
                         X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
                     )
                 return y, MSE
 
-            y = np.zeros(n_eval)
-            for k in range(max(1, n_eval / batch_size)):
-                batch_from = k * batch_size
-                batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
+            y = np.zeros((n_eval, n_targets))
+            for batch_from in range(0, n_eval, batch_size):
+                batch_to = batch_from + batch_size
                 y[batch_from:batch_to] = self.predict(
                     X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
                 )
-- 
2.43.0


From fb00c7da5e127a303485a479d1564ed8d28b9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 68/81] fix: Gaussian processes with several targets

---
 bayes_optim/surrogate/gaussian_process/gpr.py   | 2 +-
 bayes_optim/surrogate/gaussian_process/trend.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index c3be716..247d177 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -570,7 +570,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             Ft2inv = linalg.inv(dot(self.Ft.T, self.Ft))
             mse_dx += u.T.dot(Ft2inv).dot(u_dx)
 
-        mse_dx = 2.0 * self.sigma2 * mse_dx
+        mse_dx = 2.0 * np.outer(self.sigma2, mse_dx)
         return y_dx.T, mse_dx.T
 
     def Hessian(self, x):
diff --git a/bayes_optim/surrogate/gaussian_process/trend.py b/bayes_optim/surrogate/gaussian_process/trend.py
index 784d36d..15b6688 100755
--- a/bayes_optim/surrogate/gaussian_process/trend.py
+++ b/bayes_optim/surrogate/gaussian_process/trend.py
@@ -23,7 +23,9 @@ class BasisExpansionTrend:
         if beta is not None:
             if not hasattr(beta, "__iter__"):
                 beta = array([beta] * self.n_dim)
-            beta = atleast_2d(beta).reshape(-1, 1)
+            beta = atleast_2d(beta)
+            if len(beta) != self.n_dim:  # one column of coefficients per target otherwise
+                beta = beta.reshape(-1, 1)
             if len(beta) != self.n_dim:
                 raise Exception("Shapes of beta and F do not match.")
         self._beta = beta
-- 
2.43.0


From 610315df81a391b54adbbaab5a6f2dc09047f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 69/81] fix: prior covariance between two sets of points

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 247d177..a2106d8 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -318,7 +318,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
     def prior_cov(self, X1, X2=None, corr=False):
         # Check input shapes
         X1 = np.atleast_2d(X1)
-        X2 = np.atleast_2d(X2) if X2 else X1
+        X2 = np.atleast_2d(X2) if X2 is not None else X1
 
         n_eval_X1, _ = X1.shape
         n_eval_X2, _ = X2.shape
-- 
2.43.0


From 81ec7ac64ad525d12003d08177e5a15708fbb08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:09 +0000
Subject: [PATCH 70/81] fix: Gaussian processes fitted with the restricted
 likelihood

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index a2106d8..88c3ccb 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -899,7 +899,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     gradient[i] = -0.5 * (np.sum(Cinv * C_grad) - gamma_.T.dot(C_grad).dot(gamma_))
 
         if env is not None:
-            env["sigma2"] = sigma2
+            env["sigma2"] = np.repeat(sigma2, self.y.shape[1])
             env["noise_var"] = noise_var
             env["rho"] = rho
             env["Yt"] = Yt
-- 
2.43.0


From eec0477752844ba94ab05b692a0af7131e1cdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:09 +0000
Subject: [PATCH 71/81] fix: gradient of the variance at several points of one
 variable

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index dbf9559..2bb2cd6 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -187,7 +187,7 @@ class GaussianProcessSklearn:
                 setattr(gp, "_K_inv", L_inv.dot(L_inv.T))
 
             mean_dx[i, ...] = scale * k_dx @ gp.alpha_
-            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k)
+            var_dx[i, ...] = -2.0 * scale**2 * (k_dx @ getattr(gp, "_K_inv") @ k)[..., 0]
         return mean_dx, var_dx
 
     def kernel_dx(self, gp: sk_gpr, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d189af1f0f6ab4213d09770af058848f1b1bed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 72/81] fix: points of small or remote domains are not
 duplicates

---
 bayes_optim/bayes_opt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 99ab09d..bf0f1ec 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -36,16 +36,21 @@ class BO(BaseBO):
         if hasattr(self, "data"):
             X = X + self.data
 
+        # tolerance of the real variables, relative to their range if it is small
+        r_vars = [self._search_space.data[k] for k in self.r_index]
+        width = np.array([v.bounds[1] - v.bounds[0] for v in r_vars], dtype="float")
+        linear = np.array([v.scale == "linear" for v in r_vars], dtype="float")
+        atol = 1e-8 * np.minimum(1, width) * linear
+
         _ = []
         for i in range(N):
             x = X[i]
             # compare to the evaluated points and the ones kept from this batch
             idx = _ + list(range(N, len(X)))
+            r = np.asarray(x[self.r_index], dtype="float")
             CON = np.all(
-                np.isclose(
-                    np.asarray(X[idx][:, self.r_index], dtype="float"),
-                    np.asarray(x[self.r_index], dtype="float"),
-                ),
+                np.abs(np.asarray(X[idx][:, self.r_index], dtype="float") - r)
+                <= atol + 1e-5 * np.minimum(np.abs(r), width),
                 axis=1,
             )
             INT = np.all(X[idx][:, self.i_index] == x[self.i_index], axis=1)
-- 
2.43.0


From e85ffa19c40a436a9148ad1979cff9f84f78a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 73/81] fix: small objective values are not flat

---
 bayes_optim/base.py      | 5 +++--
 bayes_optim/extension.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 3b98edb..d0b0f87 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -466,10 +466,11 @@ class BaseBO(BaseOptimizer):
         # Standardization should make it easier to specify the GP prior, compared to
         # rescaling values to the unit interval.
         _std = np.std(fitness)
-        if len(fitness) > 5 and np.isclose(_std, 0):
+        flat = _std == 0 or np.all(fitness == fitness[0])
+        if len(fitness) > 5 and flat:
             raise FlatFitnessError()
 
-        fitness_ = fitness if np.isclose(_std, 0) else (fitness - np.mean(fitness)) / np.std(fitness)
+        fitness_ = fitness if flat else (fitness - np.mean(fitness)) / np.std(fitness)
         self.fmin, self.fmax = np.min(fitness_), np.max(fitness_)
         self.frange = self.fmax - self.fmin
 
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 7eb16ed..25f4819 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -203,7 +203,7 @@ class PCABO(BO):
         )
 
         _std = np.std(y)
-        y_ = y if np.isclose(_std, 0) else (y - np.mean(y)) / _std
+        y_ = y if _std == 0 or np.all(y == y[0]) else (y - np.mean(y)) / _std
 
         self.fmin, self.fmax = np.min(y_), np.max(y_)
         self.frange = self.fmax - self.fmin
-- 
2.43.0


From 2661e04e18b8558821b5c5df439813d508cd8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:30 +0000
Subject: [PATCH 74/81] fix: slices and subspaces of a search space do not
 share variables with it

---
 bayes_optim/search_space/search_space.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d4b6fc1..3b4a4ce 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -259,7 +259,8 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data)
+            # NOTE: copy the variables since renaming them in the slice should not affect `self`
+            out = SearchSpace([copy(var) for var in data])
             out._random_seed = self.random_seed
             # backwards compatibility
             if hasattr(self, "structure"):
@@ -717,7 +718,7 @@ class SearchSpace:
             # create all unconditional subspaces
             for condition, var in d.items():
                 key = {_get_var(c): _get_val(c) for c in condition}
-                out.append((key, SearchSpace(isolated_var + [self[v] for v in var])))
+                out.append((key, SearchSpace([copy(v) for v in isolated_var + [self[v] for v in var]])))
             # TODO: consider the case where selector/conditioning variable has other values
         else:
             out = [({}, self)]
-- 
2.43.0


From e6ba3e5dbe0abac56df6383dd1c59f2521fe7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:53 +0000
Subject: [PATCH 75/81] fix: the conditions of a search space follow renamed,
 replaced and replicated variables

---
 bayes_optim/search_space/search_space.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 3b4a4ce..54bcb3b 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -106,9 +106,11 @@ class SearchSpace:
         else:
             assert len(var_name) == self.dim
 
+        old = self._var_name
         for i, name in enumerate(var_name):
             self.data[i].name = name
         self._set_data(self.data)
+        self._reset_structure([n for i, n in enumerate(old) if n != self._var_name[i]])
 
     @property
     def var_type(self):
@@ -194,6 +196,13 @@ class SearchSpace:
         # a root without children imposes no condition
         self.structure = [t for t in self.structure if t and t.children]
 
+    def _reset_structure(self, names: List[str]):
+        """forget the conditions of the variables listed in `names`, which are renamed or replaced"""
+        # backwards compatibility
+        if hasattr(self, "structure"):
+            structure = [t.remove(names) for t in self.structure]
+            self._set_structure([t for t in structure if t])
+
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
         _type = np.unique(obj.var_type)
@@ -268,6 +277,7 @@ class SearchSpace:
         return out
 
     def __setitem__(self, index, value):
+        data = list(self.data)
         if isinstance(index, (int, slice)):
             self.data[index] = value
         elif isinstance(index, str):
@@ -284,7 +294,9 @@ class SearchSpace:
                     self.data[i] = v
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
+        replaced = [old.name for old in data if not any(old is new for new in self.data)]
         self._set_data(self.data)
+        self._reset_structure(replaced)
         SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
@@ -405,6 +417,7 @@ class SearchSpace:
         self._set_data(
             self.data + [deepcopy(var) for _ in range(max(1, int(N)) - 1) for var in self.data]
         )
+        self._reset_structure([])
         return self
 
     def __repr__(self):
-- 
2.43.0


From 07a581de59c284d75753b9d4406bdfabf1b43af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:07 +0000
Subject: [PATCH 76/81] fix: concatenating one search space and the subspaces
 of an unconditional one give new spaces

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 54bcb3b..b845b71 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -457,7 +457,7 @@ class SearchSpace:
     @classmethod
     def concat(cls, *args: Tuple[SearchSpace]):
         if len(args) == 1:
-            return args[0]
+            return deepcopy(args[0])
 
         assert isinstance(args[0], SearchSpace)
         data = list(chain.from_iterable([deepcopy(cs.data) for cs in args]))
@@ -734,7 +734,7 @@ class SearchSpace:
                 out.append((key, SearchSpace([copy(v) for v in isolated_var + [self[v] for v in var]])))
             # TODO: consider the case where selector/conditioning variable has other values
         else:
-            out = [({}, self)]
+            out = [({}, self[:])]
         return out
 
 
-- 
2.43.0


From 233916ed9212845a4012f81f35fe9aebd2f36dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 77/81] fix: unique solutions of mixed, missing and subset
 values are compared by value

---
 bayes_optim/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 91753b1..3e0aa65 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -323,8 +323,8 @@ class Solution(np.ndarray):
     def unique(self) -> Solution:
         if len(self.shape) == 1:
             return self
-        _, index = np.unique(self.tolist(), axis=0, return_index=True)
-        return self[np.sort(index)]
+        X = self.tolist()
+        return self[[i for i, x in enumerate(X) if x not in X[:i]]]
 
     def to_list(self) -> List:
         return super().tolist()
-- 
2.43.0


From 03f48e897082144ce40bfea22c6dbfe0869a3ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 78/81] fix: concatenated solutions align the objectives by
 their names

---
 bayes_optim/solution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 3e0aa65..d0c2bae 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -154,12 +154,16 @@ class Solution(np.ndarray):
             # align the columns of `other` by name
             order = [list(other.var_name).index(name) for name in self.var_name]
             other = other[order] if len(other.shape) == 1 else other[:, order]
+        fitness = other._fitness_rows()
+        if list(self.fitness_name) != list(other.fitness_name):
+            # align the objectives of `other` by name
+            fitness = fitness[:, [list(other.fitness_name).index(name) for name in self.fitness_name]]
 
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
             _ + __,
-            self._fitness_rows().tolist() + other._fitness_rows().tolist(),
+            self._fitness_rows().tolist() + fitness.tolist(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
-- 
2.43.0


From 848954c9f19a6564c0d36577c802ef2645653120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:57 +0000
Subject: [PATCH 79/81] fix: points are reflected at the finite bound of
 half-open intervals

---
 bayes_optim/utils/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 59afd53..bd8b4bb 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -141,6 +141,12 @@ def handle_box_constraint(x, lb, ub):
 
     x[valid, :] = np.clip(LB + (UB - LB) * yprime, LB, UB)
 
+    # reflect at the finite bound of half-open intervals
+    lower, upper = lb_index & ~up_index, ~lb_index & up_index
+    LB, UB = lb[lower][:, np.newaxis], ub[upper][:, np.newaxis]
+    x[lower, :] = LB + np.abs(x[lower, :] - LB)
+    x[upper, :] = UB - np.abs(UB - x[upper, :])
+
     if transpose:
         x = x.T
     return x.reshape(shape_ori)
-- 
2.43.0


From d3488898f6ca15cde3aef7996c54c14655d7d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:44 +0000
Subject: [PATCH 80/81] fix: the optimizer for conditional spaces honours fixed
 variables

---
 bayes_optim/extension.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 25f4819..c34c6b6 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -16,6 +16,7 @@ from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
 from .utils import timeit
+from .utils.exception import AskEmptyError
 
 
 class LinearTransform(PCA):
@@ -245,30 +246,41 @@ class ConditionalBO(ParallelBO):
             for _, cs in self.subspaces
         ]
         self.n_subspace = len(self.subspaces)
-        self._init_gen = iter(range(self.n_subspace))
+        self._init_idx = list(range(self.n_subspace))  # the subspaces not proposed yet
         self._fixed_vars = [d for d, _ in self.subspaces]
 
-    def select_subspace(self, n_point: int) -> List[int]:
+    def select_subspace(self, n_point: int, fixed: Dict = None) -> List[int]:
         if n_point == 0:
             return []
-        return np.random.choice(self.n_subspace, n_point).tolist()
+        idx = [k for k in range(self.n_subspace) if self._is_consistent(k, fixed)]
+        if len(idx) == 0:
+            return []
+        return [idx[i] for i in np.random.choice(len(idx), n_point)]
+
+    def _is_consistent(self, k: int, fixed: Dict = None) -> bool:
+        """whether the fixed variables can take their values in the k-th subspace"""
+        key, cs = self.subspaces[k]
+        return all(key[n] == v if n in key else n in cs.var_name for n, v in (fixed or {}).items())
 
     @timeit
     def ask(self, n_point: int = None, fixed: Dict[str, Union[float, int, str]] = None) -> List[dict]:
         n_point = self.n_point if n_point is None else n_point
         idx = []
         # initial DoE
-        for _ in range(n_point):
-            try:
-                idx.append(next(self._init_gen))
-            except StopIteration:
-                break
+        for k in [k for k in self._init_idx if self._is_consistent(k, fixed)][:n_point]:
+            self._init_idx.remove(k)
+            idx.append(k)
 
         # select subspaces/BOs
-        idx += self.select_subspace(n_point=n_point - len(idx))
+        idx += self.select_subspace(n_point=n_point - len(idx), fixed=fixed)
+        if len(idx) == 0:
+            raise AskEmptyError()
         self._bo_idx = idx
         # calling `ask` methods from BO's from each subspace
-        X = [self._bo[i].ask()[0] for i in idx]
+        X = []
+        for i in idx:
+            _fixed = {k: v for k, v in (fixed or {}).items() if k not in self._fixed_vars[i]}
+            X.append(self._bo[i].ask(fixed=_fixed if _fixed else None)[0])
         # fill in the value for conditioning and irrelative variables (None)
         for i, k in enumerate(idx):
             X[i].update(self._fixed_vars[k])
-- 
2.43.0


From 94bd536f0e4d26d7a63de0bae0c714961ff842bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:09 +0000
Subject: [PATCH 81/81] fix: variables without levels, with too many bounds or
 without a positive step are rejected

---
 bayes_optim/search_space/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 0464485..2afd888 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -189,7 +189,7 @@ class Real(Variable):
         scale : str, optional
             the scale on which uniform sampling is performed, by default 'linear'
         """
-        assert bounds[0] < bounds[1]
+        assert len(bounds) == 2 and bounds[0] < bounds[1]
         assert scale in TRANS.keys()
         assert precision is None or isinstance(precision, int)
         super().__init__(bounds, name, default_value, **kwargs)
@@ -263,6 +263,7 @@ class _Discrete(Variable):
     def __init__(self, bounds, *args, **kwargs):
         # get rid of duplicated levels
         bounds = list(dict.fromkeys(bounds))
+        assert len(bounds) > 0
         # map discrete values (bounds) to integers for sampling
         self._map_func: callable = None
         self._size: int = None
@@ -324,7 +325,7 @@ class Integer(_Discrete):
     ):
         self.step = step
         super().__init__(bounds, name, default_value, **kwargs)
-        assert len(self.bounds) == 2
+        assert len(self.bounds) == 2 and self.step > 0
         assert self.bounds[0] < self.bounds[1]
         assert all(map(lambda x: isinstance(x, (int, float)), self.bounds))
         self._map_func = _gen_map_func(self.bounds[0], self.step)
-- 
2.43.0

