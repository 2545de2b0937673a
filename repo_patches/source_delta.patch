From f94a5b837d64c7091c495a5885674e390e510bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 001/115] fix: rotating a frame by an even amount must not
 reverse its components

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..494f68d 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2150,12 +2150,13 @@ class Frame(Box):
 
     def rotate(self, z: int) -> Self:
         """Rotate the box, changing the winding number."""
+        components = (reversed(self.components) if z % 2 == 1
+                      else self.components)
         return replace(self,
                        dom=self.dom.rotate(z),
                        cod=self.cod.rotate(z),
                        z=self.z + z,
-                       components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                       components=[c.rotate(z) for c in components])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
-- 
2.43.0


From cd8405a3d7fcd17574f9d472548ec7a99a6f8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 002/115] fix: partial reversed slices of a diagram get their
 own domain and codomain

---
 lambeq/backend/grammar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 494f68d..db2f9ce 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1000,7 +1000,11 @@ class Diagram(Entity):
         if isinstance(key, slice):
             if key.step == -1:
                 layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if not layers:
+                    start = key.indices(len(self))[0]
+                    return self.id(self.dom if start < 0
+                                   else self.layers[start].cod)
+                return type(self)(layers[0].dom, layers[-1].cod, layers)
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From 85a584d42f9a9c0cbf906cdb5b5db2279f857ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 003/115] fix: to_left/to_right of cups and caps honour
 is_reversed

---
 lambeq/backend/grammar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index db2f9ce..d1bf4ef 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1479,11 +1479,11 @@ class Cap(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.r if is_reversed else left.l)
+        return cls(left, left.r if is_reversed else left.l, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.l if is_reversed else right.r, right)
+        return cls(right.l if is_reversed else right.r, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cap."""
@@ -1606,11 +1606,11 @@ class Cup(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.l if is_reversed else left.r)
+        return cls(left, left.l if is_reversed else left.r, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.r if is_reversed else right.l, right)
+        return cls(right.r if is_reversed else right.l, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cup."""
-- 
2.43.0


From 99ac851447a25a22562ba1bcafc305e8bae99453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 004/115] fix: reversed cups and caps of composite types

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index d1bf4ef..6aee482 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1466,7 +1466,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1593,7 +1593,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
-- 
2.43.0


From 676bfa4bffa815e140054d0cbd1727ecc2702cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 005/115] fix: snake removal leaves cup/cap pairs that differ
 in reversal alone

Yanking a cap against a cup of the opposite reversal changes the type of
the wire, so the result was an ill-typed diagram.
---
 lambeq/backend/snake_removal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..5c160fc 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -110,6 +110,8 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
                 cup, wire, obstructions = follow_wire(diagram, cap, wire)
                 not_yankable = (cup == len(diagram)
                                 or not isinstance(diagram.boxes[cup], Cup)
+                                or (diagram.boxes[cup].z
+                                    != diagram.boxes[cap].z)
                                 or (left_snake
                                     and diagram.offsets[cup] + 1 != wire)
                                 or (not left_snake
-- 
2.43.0


From b545fefe864b490351da6696a4ad118e0e22a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 006/115] fix: index errors when swap removal leaves detached
 cups

---
 lambeq/rewrite/rewrite_diagram.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..78f2cbb 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -332,8 +332,8 @@ class RemoveSwapsRewriter(DiagramRewriter):
             for mor in morphisms:
                 if (isinstance(mor.morphism, Cup) and mor.start in rng
                         and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
+                    scan.remove(mor.start)
+                    scan.remove(mor.end)
                     mor.deleted = True
 
             if len(scan) == len(rng):
@@ -343,6 +343,15 @@ class RemoveSwapsRewriter(DiagramRewriter):
                 # word type has been reduced in length
                 typ = Ty().tensor(*[atomic_types[i] for i in scan])
                 new_words.append(Word(wrd.word.name, typ))
+            elif w_idx == len(words) - 1:
+                # last word has been eliminated, merge word label with
+                # previous one
+                prev_wrd = new_words.pop() if new_words else None
+                new_words.append(
+                    Word(f'{prev_wrd.name} {wrd.word.name}', prev_wrd.cod)
+                    if prev_wrd is not None
+                    else Word(wrd.word.name, Ty())
+                )
             else:
                 # word type has been eliminated, merge word label
                 # with next one
@@ -359,19 +368,14 @@ class RemoveSwapsRewriter(DiagramRewriter):
             total_ofs += len(w.cod)
 
         # Create new morphism and offset lists
-        new_morphisms: list[Box] = []
-        mor_offsets: list[int] = []
         for m_idx, m in enumerate(morphisms):
-            if not m.deleted:
-                # morphism is not deleted, add it with its offset
-                new_morphisms.append(m.morphism)
-                mor_offsets.append(m.offset)
-            else:
+            if m.deleted:
                 # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
+                for above in morphisms[:m_idx]:
+                    if above.start > m.start:
+                        above.offset -= 2
+        new_morphisms = [m.morphism for m in morphisms if not m.deleted]
+        mor_offsets = [m.offset for m in morphisms if not m.deleted]
 
         new_diag = Id(diagram.dom)
         for box, offset in zip(new_words+new_morphisms,
-- 
2.43.0


From 6e2b9392c11e67f096c21e71d6b8967a7f1a932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 007/115] fix: pregroup normal form of diagrams with an open
 domain

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 6aee482..04c5273 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1180,9 +1180,10 @@ class Diagram(Entity):
         words = Id()
         is_pregroup = True
 
-        for _, box, right in self:
+        for left, box, right in self:
             if isinstance(box, Word):
-                if right:  # word boxes should be tensored left to right.
+                # word boxes should be tensored left to right.
+                if right or left != words.cod:
                     is_pregroup = False
                     break
                 words = words @ box
-- 
2.43.0


From 3eb5eb6a11fd05e736d257689468581a48615332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 008/115] fix: functors only cache well-typed images

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 04c5273..6df08b7 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2084,8 +2084,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2093,6 +2091,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From 2692169efe8d3f5240a7fc413c2815419e3ad141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 009/115] fix: mutating a functor's result no longer changes
 its cache

---
 lambeq/backend/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 6df08b7..b3ef68d 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2092,7 +2092,8 @@ class Functor:
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
 
-        self.ar_cache[ar] = ret
+        # The caller owns `ret`, so cache a copy of it.
+        self.ar_cache[ar] = fast_deepcopy(ret)
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From af47e09648b11861bdb7e9e0adb10139d0bdc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 010/115] fix: tensoring a diagram with no further diagrams, so
 spiders on the empty type exist

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index b3ef68d..0ff254a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -967,8 +967,8 @@ class Diagram(Entity):
         except ValueError:
             return NotImplemented   # type: ignore[no-any-return]
 
-        right = dom = self.dom.tensor(*[
-            diagram.to_diagram().dom for diagram in diagrams
+        right = dom = self.dom.tensor([
+            ob for diagram in diags[1:] for ob in diagram.dom
         ])
         left = self.category.Ty()
         layers = []
-- 
2.43.0


From 0ea379c0be113e4fb1f8e061d0173a58f54b8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 011/115] fix: tensor cups and caps of dimension above two are
 the identity pairing

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..21f757b 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -453,10 +453,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -494,10 +491,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From 8d8d594edb45733cae113b8e99df983cb8449536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 012/115] fix: functors commute with the dagger of frames

---
 lambeq/backend/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 0ff254a..27710a7 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2275,6 +2275,9 @@ class DaggeredFrame(Frame):
     def dagger(self) -> Frame:
         return self.frame
 
+    def apply_functor(self, functor: Functor) -> Diagrammable:
+        return functor(self.dagger()).dagger()
+
     def __hash__(self) -> int:
         return hash(repr(self))
 
-- 
2.43.0


From fc9b1ed94848969fe887b4f431e5876d3de02142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 013/115] fix: conjugate and adjoint of tensor boxes given by
 flat or torch data

---
 lambeq/backend/tensor.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 21f757b..86b3356 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -187,22 +187,25 @@ class Box(grammar.Box):
 
         arr = self.array
 
-        source = range(len(self.dom @ self.cod))
-        target = [i + len(self.cod) if i < len(self.dom) else
-                  i - len(self.dom) for i in range(len(self.dom @ self.cod))]
+        source = tuple(range(len(self.dom @ self.cod)))
+        target = tuple(i + len(self.cod) if i < len(self.dom) else
+                       i - len(self.dom)
+                       for i in range(len(self.dom @ self.cod)))
         with backend() as np:
-            return np.conjugate(np.moveaxis(arr, source, target))
+            return np.conj(np.moveaxis(arr, source, target))
 
     def _conjugate_array(self):
         """Returns the diagrammtic conjugate of the box's data"""
 
         dom, cod = self.dom, self.cod
         with backend() as np:
-            array = np.moveaxis(self.data,
-                                range(len(dom @ cod)),
-                                [len(dom) - i - 1
-                                    for i in range(len(dom @ cod))])
-            return np.conjugate(array)
+            # The data is given for the unrotated box
+            array = np.array(self.data).reshape(dom.dim[::-1] + cod.dim[::-1])
+            array = np.moveaxis(array,
+                                tuple(range(len(dom @ cod))),
+                                tuple(len(dom) - i - 1
+                                      for i in range(len(dom @ cod))))
+            return np.conj(array)
 
     def dagger(self):
         """Get the dagger (adjoint) of the box.
-- 
2.43.0


From f02072641de33c4540d54064c4b4b8c97dde2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 014/115] fix: a tensor diagram without boxes and wires
 evaluates to 1

---
 lambeq/backend/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 86b3356..e0db3f6 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -351,7 +351,11 @@ class Diagram(grammar.Diagram):
 
         """
 
-        return contractor(*self.to_tn(dtype=dtype)).tensor
+        nodes, edges = self.to_tn(dtype=dtype)
+        if not nodes:
+            # No boxes and no wires: the scalar 1
+            return get_backend().array(np.ones((), dtype=dtype or np.float32))
+        return contractor(nodes, edges).tensor
 
     def to_tn(self, dtype: type | None = None):
         """Convert the diagram to a `tensornetwork` TN.
-- 
2.43.0


From 3cb680f8bb80bac39e102b75fab22095d03110a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 015/115] fix: tensor caps take the dtype of the evaluation

---
 lambeq/backend/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index e0db3f6..7d3ac36 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -409,6 +409,9 @@ class Diagram(grammar.Diagram):
                     node = tn.CopyNode(box.n_legs_in + box.n_legs_out,
                                        box.type.product, dtype=dtype,
                                        backend=backend)
+                elif isinstance(box, Cap):
+                    node = tn.CopyNode(2, box.left.product, dtype=dtype,
+                                       backend=backend)
                 else:
                     node = tn.Node(box.array,
                                    str(box.name),
-- 
2.43.0


From ca287b9bdfb59f2f7651c78a2157b221200ff321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 016/115] fix: rotating a circuit with scalars

---
 lambeq/backend/quantum.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..1337b4e 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1088,6 +1088,14 @@ class Scalar(Box):
     def dagger(self):
         return replace(self, data=self.data.conjugate())
 
+    def rotate(self, z):
+        """Conjugate the box."""
+
+        if z % 2 == 0:
+            return self
+
+        return self.dagger()
+
 
 @dataclass
 class Sqrt(Scalar):
-- 
2.43.0


From cd0a3b49568da761ef7e64343cd1c88bfba974dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 017/115] fix: mixed evaluation of swaps that involve bits

---
 lambeq/backend/quantum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1337b4e..5fc0ac2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -515,8 +515,12 @@ class Diagram(tensor.Diagram):
             q_offset = list(left).count(qubit)
 
             if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+                c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
+                                                          c_scan[c_offset])
+
+            elif isinstance(box, Swap) and box.left != box.right:
+                # Bits and qubits are tracked separately
+                pass
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
-- 
2.43.0


From 03ec4c36fb70b434e5de1fe9e3b8f4e9a726ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 018/115] fix: mixed evaluation of classical bits

---
 lambeq/backend/quantum.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5fc0ac2..7ef0715 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -558,6 +558,16 @@ class Diagram(tensor.Diagram):
                 q_scan1[q_offset:q_offset + q_dom] = q_edges1
                 q_scan2[q_offset:q_offset + q_dom] = q_edges2
 
+                nodes.append(node)
+            elif box.is_classical:
+                node = tn.Node(box.array + 0j, 'c_' + str(box))
+
+                for i in range(len(box.dom)):
+                    tn.connect(c_scan[c_offset + i], node[i])
+
+                c_scan[c_offset:c_offset
+                       + len(box.dom)] = node[len(box.dom):]
+
                 nodes.append(node)
             else:
                 # Purely quantum box
-- 
2.43.0


From 48cab7b02bba879183b6b237c2e1e7f7ca76959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 019/115] fix: rotating a classical bit

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 7ef0715..c4a5057 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1176,7 +1176,7 @@ class Daggered(tensor.Daggered, Box):
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
 
 
-class Bit(Box):
+class Bit(SelfConjugate, Box):
     """Classical state for a given bit."""
 
     def __new__(cls, *bitstring: int):
-- 
2.43.0


From 7aed4177e6d204127ebb51368ed980e30e86e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 020/115] fix: a diagram with gates after a post-selection is
 not circuital

---
 lambeq/backend/quantum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c4a5057..a8fe16f 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -301,16 +301,15 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
+        # Check there are no gates after the first post-selection.
         measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
                        if isinstance(layer.box, (Discard, Bra))]
         if not measure_idx:
             return True
-        mmax = max(measure_idx)
         mmin = min(measure_idx)
         for i, gate in enumerate(layers[num_qubits:]):
             if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
+                if i > mmin:
                     return False
 
         return True
-- 
2.43.0


From 242e149ab6f7c4c354c9dcad3b757690adddb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 021/115] fix: circuital diagrams that prepare the state 1 keep
 it on export

---
 lambeq/backend/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index a8fe16f..8862557 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1703,7 +1703,8 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From e11fe81195539b6c362cdcf3895f3a1b7fa3c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 022/115] fix: exported measurements keep the order of the
 circuit's bits

---
 lambeq/backend/quantum.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8862557..813ade7 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1694,7 +1694,9 @@ def readoff_circuital(diagram: Diagram,
     layers = diagram.layers
 
     total_qubits = sum([1 for layer in layers if isinstance(layer.box, Ket)])
-    available_qubits = list(range(total_qubits))
+    # The qubit that each wire of the current layer lives on. Swaps are
+    # exported as gates, so they do not move wires between qubits.
+    register = list(range(total_qubits))
 
     gates: list[Gate] = []
     bitmap: dict = {}
@@ -1706,23 +1708,21 @@ def readoff_circuital(diagram: Diagram,
             if layer.box.bit:
                 gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
-            bitmap[qi] = len(bitmap)
+            pass
         elif isinstance(layer.box, Bra):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
-            bitmap[qi] = len(bitmap)
-            postmap[qi] = layer.box.bit
+            postmap[register.pop(len(layer.left))] = layer.box.bit
         elif isinstance(layer.box, Discard):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
-            discards.append(qi)
+            discards.append(register.pop(len(layer.left)))
         else:
             qi = len(layer.left)
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Bits are numbered in the order of the wires they end up on
+    measured = [qi for qi, ty in zip(register, diagram.cod) if ty == bit]
+    for qi in sorted([*measured, *postmap]):
+        bitmap[qi] = len(bitmap)
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 061f1d5305223754d64b6479a8395fe5cacf7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 023/115] fix: tket post-selection refers to bits rather than
 qubits

---
 lambeq/backend/converters/tk.py | 4 +++-
 lambeq/backend/quantum.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..547e2d8 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -239,7 +239,9 @@ def to_tk(diagram: Diagram) -> Circuit:
 
     circuit = Circuit(circuit_info.total_qubits,
                       len(circuit_info.bitmap),
-                      post_selection=circuit_info.postmap)
+                      post_selection={circuit_info.bitmap[qi]: value
+                                      for qi, value
+                                      in circuit_info.postmap.items()})
 
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar':
diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 813ade7..16fd23a 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -422,7 +422,7 @@ class Diagram(tensor.Diagram):
         ...     >> CX\\
         ...     >> Id(qubit) @ Bra(0)
         >>> circuit3.to_tk()
-        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({1: 0})
+        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({0: 0})
         """
         from lambeq.backend.converters.tk import to_tk
         return to_tk(self)
-- 
2.43.0


From 4519b8b1446177ee2f33d51f5371fce10282d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 024/115] fix: export rotations of zero angle to tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 547e2d8..35455ea 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -253,7 +253,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From e4bdbff2975488a4a690291ffdd2a284a9036d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 025/115] fix: export the angle of controlled Ry gates

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 16fd23a..c2eec43 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1621,7 +1621,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 31247c32fb6c390360ca3e11a9ac51a12c680a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 026/115] fix: apply the classical post-processing of backend
 results

---
 lambeq/backend/quantum.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c2eec43..398d41b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -358,10 +358,7 @@ class Diagram(tensor.Diagram):
             if circuit.post_processing:
                 post_result = circuit.post_processing.eval().astype(float)
 
-                if result.shape and post_result.shape:
-                    result = np.tensordot(result, post_result, -1)
-                else:
-                    result * post_result
+                result = np.tensordot(result, post_result, n_bits)
             results.append(result)
         return results if len(results) > 1 else results[0]
 
-- 
2.43.0


From 1334a9d09f806134870ea081a97b8a1931ec315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 027/115] fix: conjugated gates are not exported as the gates
 they conjugate

---
 lambeq/backend/quantum.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 398d41b..56eb204 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1586,6 +1586,10 @@ class Gate:
             dagger = True
             gtype = box.name.split('(')[0]
 
+        if box.z % 2 and gtype in ('S', 'T'):
+            # The conjugate of a diagonal unitary is its inverse
+            dagger = not dagger
+
         if isinstance(box, (Rx, Ry, Rz)):
             phase = box.phase
             if use_sympy and isinstance(box.phase, Symbol):
@@ -1612,6 +1616,10 @@ class Gate:
                     right_most_idx = max(rel_idx)
                     rel_idx.insert(-1, right_most_idx - dist)
 
+            if curr_box.z % 2:
+                # Not the gate of this name
+                gtype += '.r'
+
             i_qubits = [qubits[i] for i in rel_idx]
 
             qubits = i_qubits
-- 
2.43.0


From 581b68953d2cd6deac697c50eab6595dfdcf8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 028/115] fix: import tket circuits whose gates span measured
 qubits

---
 lambeq/backend/converters/tk.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 35455ea..dd904e6 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -341,21 +341,29 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
     bras = {}
+    measures = []
     for tk_gate in tk_circ.get_commands():
+        if any(tk_qubit.index[0] in (*measures, *bras)
+               for tk_qubit in tk_gate.qubits):
+            raise NotImplementedError('Gates after a measurement are not '
+                                      'supported.')
         if tk_gate.op.type.name == 'Measure':
             offset: int = tk_gate.qubits[0].index[0]
             bit_index: int = tk_gate.bits[0].index[0]
+            # Measurements and post selection happen at the end, so that
+            # gates may still span the measured qubit.
             if bit_index in tk_circ.post_selection:
                 bras[offset] = tk_circ.post_selection[bit_index]
-                continue  # post selection happens at the end
-            left = circuit.cod[:offset]
-            right = circuit.cod[offset + 1:]
-            circuit = circuit >> left @ Measure() @ right
+            else:
+                measures.append(offset)
         else:
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
             right = circuit.cod[offset + len(box.dom):]
             circuit = circuit >> left @ box @ right
+    for offset in measures:
+        circuit = circuit >> circuit.cod[:offset] @ Measure() \
+            @ circuit.cod[offset + 1:]
     circuit = circuit >> Id().tensor(*(
         Bra(bras[i]) if i in bras
         else Discard() if x == qubit else Id(bit)
-- 
2.43.0


From aaca7992d53f14f1f531f623fa6c388bd4b25f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 029/115] fix: import plain pytket circuits

---
 lambeq/backend/converters/tk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index dd904e6..2c91262 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -67,9 +67,9 @@ class Circuit(tk.Circuit):
         """
         result = Circuit(tk_circuit.n_qubits,
                          len(tk_circuit.bits),
-                         tk_circuit.post_selection,
-                         tk_circuit.scalar,
-                         tk_circuit.post_processing)
+                         getattr(tk_circuit, 'post_selection', None),
+                         getattr(tk_circuit, 'scalar', None),
+                         getattr(tk_circuit, 'post_processing', None))
         for gate in tk_circuit:
             name, inputs = gate.op.type.name, gate.op.params + [
                 x.index[0] for x in gate.qubits + gate.bits]
-- 
2.43.0


From 0d1035d4f3af41ed43567baa3acb5219fb757dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 030/115] fix: imported tket circuits keep the order of the
 bits

---
 lambeq/backend/converters/tk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 2c91262..9923393 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -341,7 +341,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
     bras = {}
-    measures = []
+    measures = {}
     for tk_gate in tk_circ.get_commands():
         if any(tk_qubit.index[0] in (*measures, *bras)
                for tk_qubit in tk_gate.qubits):
@@ -355,7 +355,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             if bit_index in tk_circ.post_selection:
                 bras[offset] = tk_circ.post_selection[bit_index]
             else:
-                measures.append(offset)
+                measures[offset] = bit_index
         else:
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
@@ -368,6 +368,9 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         Bra(bras[i]) if i in bras
         else Discard() if x == qubit else Id(bit)
         for i, x in enumerate(circuit.cod)))
+    # The bits are currently in the order of the measured qubits
+    bits = [measures[offset] for offset in sorted(measures)]
+    circuit = circuit.permuted([bits.index(i) for i in sorted(bits)])
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From 2ebca9083c0810c8464927044fd9254d3f3bf6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 031/115] fix: import tket three-qubit gates away from the
 first qubit

---
 lambeq/backend/converters/tk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 9923393..6d1a37b 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -327,12 +327,14 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         if len(tk_gate.args) == 3:  # three qubit gate
             controls = (tk_gate.args[0].index[0], tk_gate.args[1].index[0])
             target = tk_gate.args[2].index[0]
-            span = max(controls + (target,)) - min(controls + (target,)) + 1
+            offset = min(controls + (target,))
+            span = max(controls + (target,)) - offset + 1
+            controls = (controls[0] - offset, controls[1] - offset)
+            target -= offset
             if name == 'CCX':
                 box = Id(qubit**span).apply_gate(CCX, *controls, target)
             elif name == 'CCZ':
                 box = Id(qubit**span).apply_gate(CCZ, *controls, target)
-            offset = min(controls + (target,))
 
         if box is None:
             raise NotImplementedError
-- 
2.43.0


From 045d3dbb3d188ba086cb463d9b5cb56333d42ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 032/115] fix: import tket circuits without qubits

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 6d1a37b..8ddc26e 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -341,7 +341,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         else:
             return box.to_diagram(), offset  # type: ignore [return-value]
 
-    circuit = Ket(*(0, ) * n_qubits).to_diagram()
+    circuit = Id().tensor(*[Ket(0)] * n_qubits)
     bras = {}
     measures = {}
     for tk_gate in tk_circ.get_commands():
-- 
2.43.0


From a8ad3d3570b14fbdc198442937a342cf6df4f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 033/115] fix: daggered gates are not converted to PennyLane as
 the gates themselves

---
 lambeq/backend/pennylane.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a20d9aa..929b78e 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -58,15 +58,23 @@ if TYPE_CHECKING:
     from lambeq.backend.quantum import Diagram
 
 
+def _sdg(wires):
+    return qml.adjoint(qml.S(wires=wires))
+
+
+def _tdg(wires):
+    return qml.adjoint(qml.T(wires=wires))
+
+
 OP_MAP = {
     'H': qml.Hadamard,
     'X': qml.PauliX,
     'Y': qml.PauliY,
     'Z': qml.PauliZ,
     'S': qml.S,
-    'Sdg': lambda wires: qml.S(wires=wires).inv(),
+    'Sdg': _sdg,
     'T': qml.T,
-    'Tdg': lambda wires: qml.T(wires=wires).inv(),
+    'Tdg': _tdg,
     'Rx': qml.RX,
     'Ry': qml.RY,
     'Rz': qml.RZ,
@@ -115,7 +123,7 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [OP_MAP[x.gtype] for x in gates]
+    ops = [OP_MAP[x.gtype + 'dg' if x.dagger else x.gtype] for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-- 
2.43.0


From f1d7a1e410d1194383022122fde5a3b675d84956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 034/115] fix: convert rotations of zero angle to PennyLane

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 929b78e..0b541cf 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -127,7 +127,7 @@ def extract_ops_from_circuital(
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-                                               if x.phase
+                                               if x.phase is not None
                                                else []
                                                for x in gates]
 
-- 
2.43.0


From 6901879d1eee673732859caf4b90c5739aacbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 035/115] fix: scaled symbols in PennyLane circuits

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 0b541cf..a8b0aa3 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -143,7 +143,7 @@ def extract_ops_from_circuital(
         elif not isinstance(param, Symbol):
             param = torch.tensor(param)
         else:
-            symbols.add(param)
+            symbols.add(param.unscaled)
 
         remapped_params.append([param])
 
-- 
2.43.0


From 69e30cad55ca4e279bad5efededa91b05fd5a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 036/115] fix: convert circuits with several scalars to
 PennyLane

---
 lambeq/backend/pennylane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a8b0aa3..9879bb9 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -209,9 +209,9 @@ def to_pennylane(diagram: Diagram,
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
-            circuit_info.gates.remove(gate)
 
-    ex_ops = extract_ops_from_circuital(circuit_info.gates)
+    ex_ops = extract_ops_from_circuital([gate for gate in circuit_info.gates
+                                         if gate.gtype != 'Scalar'])
     op_list, params_list, symbols_set, wires_list = ex_ops
 
     # Get post selection bits
-- 
2.43.0


From e25234ddc6dc04cafd02fd3af2c7f76d8507a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 037/115] fix: probabilities of PennyLane circuits with complex
 scalars

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 9879bb9..6d5cc78 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -419,7 +419,7 @@ class PennyLaneCircuit:
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-        post_selected_states *= (self._scale ** 2 if self._probabilities
+        post_selected_states *= (abs(self._scale) ** 2 if self._probabilities
                                  else self._scale)
 
         if post_selected_states.shape[0] == 1:
-- 
2.43.0


From f0bb6df437c5432f7712a28c28244ea564ee494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 038/115] fix: PennyLane circuits with discards respect scalars
 and post-selections

---
 lambeq/backend/pennylane.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 6d5cc78..cd2e511 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -387,9 +387,9 @@ class PennyLaneCircuit:
             for op, params, wires in zip(self._ops, circ_params, self._wires):
                 op(*[2 * torch.pi * p for p in params], wires=wires)
 
-            if self._mixed:
+            if self._mixed and self._post_selection:
                 return qml.density_matrix(self._post_selection.keys())
-            if self._probabilities:
+            if self._probabilities and not self._mixed:
                 return qml.probs(wires=range(self._n_qubits))
             else:
                 return qml.state()
@@ -414,8 +414,13 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
-            # Select the all-zeros subsystem
-            return states[0][0]
+            # Select the post-selected subsystem
+            if self._post_selection:
+                idx = int(''.join(map(str, self._post_selection.values())), 2)
+                states = states[idx][idx]
+            else:
+                states = torch.sum(torch.square(torch.abs(states)))
+            return states * abs(self._scale) ** 2
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From da336f059b2508747a03cd7fa58190342c3aeba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 039/115] fix: the sign of conjugated Y gates in PennyLane
 circuits

---
 lambeq/backend/pennylane.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index cd2e511..8911af7 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -209,6 +209,10 @@ def to_pennylane(diagram: Diagram,
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
+    for box in diagram.boxes:
+        if box.name == 'Y' and box.z % 2:
+            # The conjugate of Y is -Y
+            scalar *= -1
 
     ex_ops = extract_ops_from_circuital([gate for gate in circuit_info.gates
                                          if gate.gtype != 'Scalar'])
-- 
2.43.0


From f015badcac6591b21649c4bf28c5926cbf9e9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 040/115] fix: unary rules that swap the direction of a type
 exchange its sides correctly

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..aa73f4a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -392,11 +392,11 @@ class CCGTree:
                 #  Ty() << (Ty() << Y)       -> Y.l.l
                 # (Ty() << (Ty() << Y)) >> X -> Y.l.l.r @ X = Y.l @ X
                 other_direction = '\\' if output.direction == '/' else '/'
-                resolved_dom = (output.argument.slash(
+                resolved_dom = (output.result.slash(
                     other_direction,
                     CCGType().slash(
                         output.direction,
-                        CCGType().slash(output.direction, output.result)
+                        CCGType().slash(output.direction, output.argument)
                     )
                 ),)
             else:
-- 
2.43.0


From 1c74530dfebba513b508c318d5c365a812a282ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 041/115] fix: planar generalised crossed composition keeps the
 derivation of its argument

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index aa73f4a..74df26a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From 63cd2224ac766351544a7f1c53cee8926c007550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 042/115] fix: height of a CCG tree is updated when trivial
 unary rules are removed

---
 lambeq/text2diagram/ccg_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 74df26a..a9eedd0 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -182,6 +182,9 @@ class CCGTree:
             new_tree = new_tree.children[0]
         new_tree.children = [child.without_trivial_unary_rules() for child
                              in new_tree.children]
+        if new_tree.children:
+            new_tree.height = 1 + max(child.height
+                                      for child in new_tree.children)
         return new_tree
 
     def to_json(self) -> _JSONDictT:
-- 
2.43.0


From 87d9fe1f153c953634a8781abb45682d484942d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 043/115] fix: early stopping counts evaluations that only
 equal the best value as no improvement

---
 lambeq/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..c63a8c9 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -466,7 +466,7 @@ class Trainer(ABC):
                 factor * val for val in
                 criterion_vals[-early_stopping_interval:]
             ]
-            early_stopping = reference < min(latter_vals)
+            early_stopping = reference <= min(latter_vals)
 
         return early_stopping
 
-- 
2.43.0


From 9a9103a3c6220ddd54ae57560af382ab7239c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 044/115] fix: a failed checkpoint save keeps the previous
 checkpoint

---
 lambeq/training/checkpoint.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/checkpoint.py b/lambeq/training/checkpoint.py
index 7eb8036..1863973 100644
--- a/lambeq/training/checkpoint.py
+++ b/lambeq/training/checkpoint.py
@@ -119,17 +119,26 @@ class Checkpoint(Mapping):
     def to_file(self, path: StrPathT) -> None:
         """Save entries to a file and deletes the in-memory copy.
 
+        The file is only replaced once all entries have been written,
+        so a failed save leaves a previous checkpoint untouched.
+
         Parameters
         ----------
         path : str or PathLike
             Path to the checkpoint file.
 
         """
+        tmp_path = f'{os.fspath(path)}.tmp'
         try:
-            with open(path, 'wb+') as ckp:
+            with open(tmp_path, 'wb+') as ckp:
                 pickle.dump(self.entries, ckp)
+            os.replace(tmp_path, path)
         except FileNotFoundError as e:
             raise FileNotFoundError(
                 'The directory does not exist. Check path `{path}`'
             ) from e
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
         self.entries = {}
-- 
2.43.0


From 26018fe0b73f6388d7cc8ed9ffe76ba20655267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 045/115] fix: a resumed training run remembers the best
 validation value so far

---
 lambeq/training/trainer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index c63a8c9..b065d8c 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -568,6 +568,16 @@ class Trainer(ABC):
         with backend(self.backend):
             early_stopping = False
             best_val_criterion = float('inf')
+            if self.from_checkpoint:
+                # continue from the best value of the restored history
+                criterion_vals = (
+                    self.val_costs if early_stopping_criterion is None
+                    else self.val_eval_results[early_stopping_criterion]
+                )
+                best_val_criterion = min(
+                    (factor * val for val in criterion_vals),
+                    default=best_val_criterion
+                )
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
-- 
2.43.0


From 631b1cfd0da3fb9ddb7410efe2e1666656bfcbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 046/115] fix: a resumed training run keeps the train metrics
 gathered since the last evaluation

---
 lambeq/training/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index b065d8c..b779c64 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -272,6 +272,8 @@ class Trainer(ABC):
         self.train_epoch_costs = checkpoint['train_epoch_costs']
         self.train_epoch_durations = checkpoint['train_epoch_durations']
         self.train_eval_results = checkpoint['train_eval_results']
+        if 'train_eval_running' in checkpoint:
+            self._train_eval_running = checkpoint['train_eval_running']
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
@@ -706,6 +708,7 @@ class Trainer(ABC):
                                  'train_durations': self.train_durations,
                                  'train_epoch_costs': self.train_epoch_costs,
                                  'train_eval_results': self.train_eval_results,
+                                 'train_eval_running': self._train_eval_running,   # noqa: E501
                                  'val_costs': self.val_costs,
                                  'val_durations': self.val_durations,
                                  'train_epoch_durations': self.train_epoch_durations,   # noqa: E501
@@ -792,6 +795,7 @@ class Trainer(ABC):
                      'train_durations': self.train_durations,
                      'train_epoch_costs': self.train_epoch_costs,
                      'train_eval_results': self.train_eval_results,
+                     'train_eval_running': self._train_eval_running,
                      'train_epoch_durations': self.train_epoch_durations,
                      'val_costs': self.val_costs,
                      'val_durations': self.val_durations,
-- 
2.43.0


From 4f5be321d8424670459440ca41f081afbd4a4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 047/115] fix: resuming an early-stopped training run does not
 train any further

---
 lambeq/training/trainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index b779c64..4e2b49b 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -580,6 +580,11 @@ class Trainer(ABC):
                     (factor * val for val in criterion_vals),
                     default=best_val_criterion
                 )
+                early_stopping = self._check_early_stopping(
+                    early_stopping_criterion,
+                    early_stopping_interval,
+                    minimize_criterion
+                )
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
@@ -587,6 +592,9 @@ class Trainer(ABC):
                                 leave=False,
                                 position=1):
 
+                if early_stopping:
+                    break   # the restored run had already been stopped
+
                 epoch_start = time.time()
                 train_losses: list[tuple[int, Any]] = []
                 for batch in tqdm(train_dataset,
-- 
2.43.0


From f04e0cbb3e70894d002fabd3afa1e71c37820fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 048/115] fix: NumpyModel drops compiled functions when it
 loads other symbols

---
 lambeq/training/numpy_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lambeq/training/numpy_model.py b/lambeq/training/numpy_model.py
index f45efb0..36b8077 100644
--- a/lambeq/training/numpy_model.py
+++ b/lambeq/training/numpy_model.py
@@ -35,6 +35,7 @@ from numpy.typing import ArrayLike
 from lambeq.backend import numerical_backend
 from lambeq.backend.quantum import Diagram as Circuit
 from lambeq.backend.tensor import Diagram
+from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.quantum_model import QuantumModel
 
 if TYPE_CHECKING:
@@ -60,6 +61,11 @@ class NumpyModel(QuantumModel):
         self.use_jit = use_jit
         self.lambdas: dict[Diagram, Callable[..., Any]] = {}
 
+    def _load_checkpoint(self, checkpoint: Checkpoint) -> None:
+        super()._load_checkpoint(checkpoint)
+        # compiled functions depend on the positions of the symbols
+        self.lambdas = {}
+
     def _get_lambda(self, diagram: Diagram) -> Callable[[Any], Any]:
         """Get lambda function that evaluates the provided diagram.
 
-- 
2.43.0


From c532ebb86dd6ac5ad9bfa78f62688c9b00815fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 049/115] fix: rules added to a used Rewriter take effect

---
 lambeq/rewrite/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..4414187 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -402,6 +402,10 @@ class Rewriter:
         else:
             self.rules = []
             self.add_rules(*rules)
+        self._reset_functor()
+
+    def _reset_functor(self) -> None:
+        # The functor caches its results, which depend on the rules.
         self.apply_rewrites = Functor(target_category=grammar,
                                       ob=self._ob,
                                       ar=self._ar)
@@ -423,6 +427,7 @@ class Rewriter:
                     raise ValueError(
                         f'`{rule}` is not a valid rewrite rule.'
                     ) from e
+        self._reset_functor()
 
     def __call__(self, diagram: Diagram) -> Diagram:
         """Apply the rewrite rules to the given diagram."""
-- 
2.43.0


From 9de493a6acb7323c9cb31f5f07ffaca6a82d4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 050/115] fix: SimpleRewriteRule ignores case in its own word
 list too

---
 lambeq/rewrite/base.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 4414187..d9b250f 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -169,9 +169,19 @@ class SimpleRewriteRule(RewriteRule):
         self.case_sensitive = case_sensitive
 
     def matches(self, box: Box) -> bool:
-        word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        return box.cod == self.cod and self._matches_word(box.name)
+
+    def _matches_word(self, word: str) -> bool:
+        if self.words is None:
+            return True
+        if self.case_sensitive:
+            return word in self.words
+        word = word.lower()
+        return word in self.words or (
+            isinstance(self.words, Iterable)
+            and not isinstance(self.words, str)
+            and any(word == w.lower() for w in self.words)
+        )
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
-- 
2.43.0


From 3b7a4059ed847f208f04522cbdb2de1244aea8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 051/115] fix: RemoveCupsRewriter accepts a cup nested with a
 reversed cup

---
 lambeq/rewrite/rewrite_diagram.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 78f2cbb..0031dfa 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -123,6 +123,11 @@ class RemoveCupsRewriter(DiagramRewriter):
                           and layers
                           and isinstance(layers[-1][0].boxes[0], Cup)
                           and offset == layers[-1][1] - 1)
+            if nested_cup:
+                inner = layers[-1][0].dom
+                # a cup and a reversed cup do not make a compound cup
+                nested_cup = ((box.dom[:1].r == box.dom[1:])
+                              == (inner[:1].r == inner[1:]))
             if nested_cup:
                 dom = box.dom[:1] @ layers[-1][0].dom @ box.dom[1:]
                 layers[-1] = (Box(CUP_TOKEN, dom, Ty()), offset)
-- 
2.43.0


From 5a164f5e90a7d25bf0bd1143e167853f6344e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 052/115] fix: RemoveSwapsRewriter refuses diagrams that are
 not pregroup diagrams

---
 lambeq/rewrite/rewrite_diagram.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 0031dfa..0737cc6 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -295,10 +295,7 @@ class RemoveSwapsRewriter(DiagramRewriter):
 
     def matches(self, diagram: Diagram) -> bool:
         if not diagram.is_pregroup:
-            try:
-                diagram = diagram.normal_form()
-            except ValueError as e:
-                raise ValueError('Not a valid pregroup diagram.') from e
+            raise ValueError('Not a valid pregroup diagram.')
         return True
 
     def _remove_detached_cups(self, diagram: Diagram) -> Diagram:
-- 
2.43.0


From e33b44270349f4e6e96bde1b6e1600d1ca4e5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 053/115] fix: currying and collapsing rules keep frames and
 their contents

---
 lambeq/rewrite/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index d9b250f..8f4d868 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -81,8 +81,8 @@ from collections import Counter
 from collections.abc import Container, Iterable
 
 from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Diagrammable,
-                                    Functor, grammar, Id, Spider, Swap,
-                                    Ty, Word)
+                                    Frame, Functor, grammar, Id, Spider,
+                                    Swap, Ty, Word)
 from lambeq.core.types import AtomicType
 
 N = AtomicType.NOUN
@@ -310,7 +310,8 @@ class CurryRewriteRule(RewriteRule):
         """
 
     def matches(self, box: Box) -> bool:
-        return bool(box.cod and (box.cod[0].z or box.cod[-1].z))
+        return bool(not isinstance(box, Frame) and box.cod
+                    and (box.cod[0].z or box.cod[-1].z))
 
     def rewrite(self, box: Box) -> Diagrammable:
         cod = box.cod
@@ -352,7 +353,7 @@ class CollapseDomainRewriteRule(RewriteRule):
         self.left = left
 
     def matches(self, box: Box) -> bool:
-        return bool(box.dom)
+        return bool(box.dom) and not isinstance(box, Frame)
 
     def rewrite(self, box: Box) -> Diagrammable:
         Cup = box.category.Diagram.special_boxes['cup']
-- 
2.43.0


From a4d31465d4f20bf59b7cd4f678e5bb1ac3f8f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 054/115] fix: RemoveCupsRewriter bends only boxes that make up
 a whole side of a cup

---
 lambeq/rewrite/rewrite_diagram.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 0737cc6..7f9015f 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -169,12 +169,15 @@ class RemoveCupsRewriter(DiagramRewriter):
                     # contract greedily, else combine
                     pg_len = len(box.dom) // 2
                     pg_type1, pg_type2 = box.dom[:pg_len], box.dom[pg_len:]
-                    if len(left.cod) == pg_len and not left.dom:
+                    if (off == 0 and len(left.cod) == pg_len
+                            and not left.dom):
                         if pg_type1.r == pg_type2:
                             new_diag = right >> (left.dagger().r @ wires_r)
                         else:  # illegal cup
                             new_diag = right >> (left.dagger().l @ wires_r)
-                    elif len(right.cod) == pg_len and not right.dom:
+                    elif (off + pg_len == len(left.cod)
+                            and len(right.cod) == pg_len
+                            and not right.dom):
                         if pg_type1.r == pg_type2:
                             new_diag = left >> (wires_l @ right.dagger().l)
                         else:
-- 
2.43.0


From 91f967e8387fba699c8000d72ca4382fcef23b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 055/115] fix: SimpleRewriteRule keeps frames and their
 contents

---
 lambeq/rewrite/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 8f4d868..c8303fe 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -169,7 +169,9 @@ class SimpleRewriteRule(RewriteRule):
         self.case_sensitive = case_sensitive
 
     def matches(self, box: Box) -> bool:
-        return box.cod == self.cod and self._matches_word(box.name)
+        return (not isinstance(box, Frame)
+                and box.cod == self.cod
+                and self._matches_word(box.name))
 
     def _matches_word(self, word: str) -> bool:
         if self.words is None:
-- 
2.43.0


From 084c472c5d7088cde90a0a536ca923fd9e0c8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 056/115] fix: SPSA keeps decaying from the restored
 hyperparameters

---
 lambeq/training/spsa_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..4681bc1 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -192,8 +192,8 @@ class SPSAOptimizer(Optimizer):
         self.current_sweep += 1
         a_decay = (self.current_sweep+self.A)**self.alpha
         c_decay = (self.current_sweep)**self.gamma
-        self.ak = self.hyperparams['a']/a_decay
-        self.ck = self.hyperparams['c']/c_decay
+        self.ak = self.a/a_decay
+        self.ck = self.c/c_decay
 
     def state_dict(self) -> dict[str, Any]:
         """Return optimizer states as dictionary.
-- 
2.43.0


From 6bc22c8838032e75315d1191b1afd4a2e80e1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 057/115] fix: SPSA leaves parameters pinned by their bounds
 alone

---
 lambeq/training/spsa_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 4681bc1..87534c6 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,12 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            diff = xplus - xminus
+            # parameters that cannot move between their bounds
+            pinned = diff == 0
+            grad = np.where(pinned,
+                            0,
+                            (loss0 - loss1) / np.where(pinned, 1, diff))
 
         self.gradient += grad * mask
 
-- 
2.43.0


From 7d6969163d2f2b56f0e9e7068f2d4dec36f9e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 058/115] fix: Rotosolve takes negative angles modulo a full
 turn

---
 lambeq/training/rotosolve_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..76acf1c 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -77,7 +77,7 @@ class RotosolveOptimizer(Optimizer):
 
     @staticmethod
     def project(x: np.ndarray) -> np.ndarray:
-        return abs(x) % 1
+        return x % 1
 
     def backward(self,
                  batch: tuple[Iterable[Any], np.ndarray]) -> float:
-- 
2.43.0


From 2e55266a9ab2171f7a801bb92067abada01f9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 059/115] fix: Rotosolve leaves parameters that do not affect
 the loss alone

---
 lambeq/training/rotosolve_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index 76acf1c..fa9e593 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -114,6 +114,11 @@ class RotosolveOptimizer(Optimizer):
             self.model.weights[i] = phi - 1/4
             m_phi_minus = self.loss_fn(self.model(diagrams), targets)
 
+            if m_phi_plus == m_phi == m_phi_minus:
+                # the loss does not depend on this parameter
+                self.model.weights[i] = phi
+                continue
+
             # Update weight
             angle = np.arctan2(2*m_phi - m_phi_plus - m_phi_minus,
                                m_phi_plus - m_phi_minus)
-- 
2.43.0


From 07a853a8348d223f31e3c6236c8348ef972310b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 060/115] fix: NelderMead state dictionaries do not change with
 the optimiser

---
 lambeq/training/nelder_mead_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..cb72ebe 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -398,8 +398,8 @@ class NelderMeadOptimizer(Optimizer):
             'initial_simplex': self.initial_simplex,
             'xatol': self.xatol,
             'fatol': self.fatol,
-            'sim': self.sim,
-            'fsim': self.fsim,
+            'sim': np.copy(self.sim),
+            'fsim': np.copy(self.fsim),
             'ncalls': self.ncalls,
             'first_iter': self.first_iter,
             'current_sweep': self.current_sweep,
@@ -418,8 +418,8 @@ class NelderMeadOptimizer(Optimizer):
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-        self.sim = state_dict['sim']
-        self.fsim = state_dict['fsim']
+        self.sim = np.copy(state_dict['sim'])
+        self.fsim = np.copy(state_dict['fsim'])
         self.ncalls = state_dict['ncalls']
         self.first_iter = state_dict['first_iter']
         self.current_sweep = state_dict['current_sweep']
-- 
2.43.0


From d3f690a66cf7ef895789a096a9f4c7328da8fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 061/115] fix: NelderMead applies the restored adaptive setting

---
 lambeq/training/nelder_mead_optimizer.py | 26 ++++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index cb72ebe..790a030 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -140,17 +140,7 @@ class NelderMeadOptimizer(Optimizer):
         self.xatol = hyperparams.get('xatol', 1e-4)
         self.fatol = hyperparams.get('fatol', 1e-4)
 
-        if self.adaptive:
-            self.dim = float(len(self.model.weights))
-            self.rho = 1
-            self.chi = 1 + 2 / self.dim
-            self.psi = 0.75 - 1 / (2 * self.dim)
-            self.sigma = 1 - 1 / self.dim
-        else:
-            self.rho = 1
-            self.chi = 2
-            self.psi = 0.5
-            self.sigma = 0.5
+        self._set_coefficients()
 
         self.nonzdelt = 0.05
         self.zdelt = 0.00025
@@ -218,6 +208,19 @@ class NelderMeadOptimizer(Optimizer):
         self.fsim = np.full((self.N + 1,), np.inf, dtype=float)
         self.first_iter = True  # flag for first iteration
 
+    def _set_coefficients(self) -> None:
+        if self.adaptive:
+            self.dim = float(len(self.model.weights))
+            self.rho = 1
+            self.chi = 1 + 2 / self.dim
+            self.psi = 0.75 - 1 / (2 * self.dim)
+            self.sigma = 1 - 1 / self.dim
+        else:
+            self.rho = 1
+            self.chi = 2
+            self.psi = 0.5
+            self.sigma = 0.5
+
     def project(self, x: np.ndarray) -> np.ndarray:
         if self.bounds is None:
             return x
@@ -415,6 +418,7 @@ class NelderMeadOptimizer(Optimizer):
 
         """
         self.adaptive = state_dict['adaptive']
+        self._set_coefficients()
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-- 
2.43.0


From 494b1a20377c5a56a03f4caa8c498e8d9defe816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 062/115] fix: ChartParser does not return a parse of part of
 the sentence

---
 lambeq/bobcat/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/parser.py b/lambeq/bobcat/parser.py
index 14e5909..1cd154c 100644
--- a/lambeq/bobcat/parser.py
+++ b/lambeq/bobcat/parser.py
@@ -464,7 +464,12 @@ class ChartParser:
                                 else:
                                     self.calc_score_unary(tree, span_scores)
                             chart.add(start, end, results)
-        return ParseResult(chart)
+
+        result = ParseResult(chart)
+        if len(result.words) != len(sentence):
+            # some word has no categories, so nothing spans the sentence
+            result.root = []
+        return result
 
     def calc_score_unary(self,
                          tree: ParseTree,
-- 
2.43.0


From 72d27db66f529ff6c17f3522bfe3f0b2a068b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 063/115] fix: Tagger drops the empty span category whatever
 was tagged before

---
 lambeq/bobcat/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 9ad8e31..1ced428 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -381,7 +381,7 @@ class Tagger:
                     for score, index in zip(scores, indices):
                         if score < threshold:
                             break
-                        elif index != 0 or output_batch == tag_output:
+                        elif index != 0 or output_batch is tag_output:
                             output.append((index, score))
 
         spans_list = [[(*idx2span(i), output)
-- 
2.43.0


From f563d987b9bdd83b501c561b461748c4b4970c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 064/115] fix: Tagger does not score padding in place of
 missing words

---
 lambeq/bobcat/tagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 1ced428..a588b79 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -345,7 +345,9 @@ class Tagger:
         tag_output: list[list[TagListT]] = []
         span_output: list[list[TagListT]] = []
 
-        tag_lengths = [len(sentence) for sentence in inputs]
+        # Words that are truncated, or have no word pieces, are not scored
+        tag_lengths = [sum(map(bool, word_mask))
+                       for word_mask in encodings['word_mask']]
         span_lengths = [chart_size(length) for length in tag_lengths]
 
         tag_args = (tag_output,
-- 
2.43.0


From 9c233445519dcbb66248dbf0a2d46faf77889544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 065/115] fix: Tagger accepts batches in which no sentence has
 a word piece

---
 lambeq/bobcat/tagger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index a588b79..71a2c7e 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -165,7 +165,8 @@ class BertForChartClassification(BertPreTrainedModel):
         else:
             tag_input = sequence_output
 
-        chart_spans = get_chart_spans(tag_input.shape[-2])
+        chart_spans = torch.tensor(get_chart_spans(tag_input.shape[-2]),
+                                   dtype=torch.int64).reshape(-1, 2)
         span_input = tag_input[:, chart_spans].flatten(start_dim=-2)
 
         tag_logits = self.tag_classifier(self.dropout(tag_input))
-- 
2.43.0


From 85239548cbdebb4b54fd1e60b388dc0d5cc8bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 066/115] fix: CCGBankParser returns no tree for a line with
 extra text

---
 lambeq/text2diagram/ccgbank_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..5eced18 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -383,6 +383,7 @@ class CCGBankParser(CCGParser):
             except Exception as e:
                 if not suppress_exceptions:
                     raise CCGBankParseError(sentence, str(e)) from e
+                tree = None
             trees.append(tree)
         return trees
 
-- 
2.43.0


From faf4481f3f2ec19b5c25110019c00f00b2d14989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 067/115] fix: CCGBankParser reports a file that ends after an
 ID line

---
 lambeq/text2diagram/ccgbank_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index 5eced18..1e32109 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -209,7 +209,7 @@ class CCGBankParser(CCGParser):
                         line_no += 1
                         tree = None
                         try:
-                            tree = self.sentence2tree(next(f).strip())
+                            tree = self.sentence2tree(next(f, '').strip())
                         except CCGBankParseError as e:
                             if not suppress_exceptions:
                                 raise CCGBankParseError(
-- 
2.43.0


From 46c47f6f24cab81b394db3a61f4c64c0fd9b0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 068/115] fix: WebParser treats an answer that is no tree as a
 failed sentence

---
 lambeq/text2diagram/web_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lambeq/text2diagram/web_parser.py b/lambeq/text2diagram/web_parser.py
index ee15246..76c8e6e 100644
--- a/lambeq/text2diagram/web_parser.py
+++ b/lambeq/text2diagram/web_parser.py
@@ -152,15 +152,15 @@ class WebParser(CCGParser):
 
             try:
                 data = requests.get(self.service_url, params=params).json()
-            except requests.RequestException as e:
+                tree = CCGTree.from_json(data)
+            except Exception as e:
                 if suppress_exceptions:
                     tree = None
-                elif isinstance(e, requests.JSONDecodeError):
-                    raise WebParseError(str(sentence)) from e
-                else:
+                elif (isinstance(e, requests.RequestException)
+                        and not isinstance(e, requests.JSONDecodeError)):
                     raise e
-            else:
-                tree = CCGTree.from_json(data)
+                else:
+                    raise WebParseError(str(sentence)) from e
             trees.append(tree)
 
         for i in empty_indices:
-- 
2.43.0


From c5762e92bf9b2095bf234dbd19c05ba99612dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 069/115] fix: DepCCGParser does not remove sentences from its
 input

---
 lambeq/text2diagram/depccg_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index 3d844a7..b1a26a4 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -259,6 +259,7 @@ class DepCCGParser(CCGParser):
             if TYPE_CHECKING:  # temporary fix
                 from typing import cast     # noqa: I100
                 sentences = cast(list[list[str]], sentences)
+            sentences = list(sentences)
         else:
             if not untokenised_batch_type_check(sentences):
                 raise ValueError('`tokenised` set to `False`, but variable '
-- 
2.43.0


From 89398520f7fc2c214476808c9cfdfc6474b0f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 070/115] fix: DepCCGParser suppresses the failure of a single
 sentence

---
 lambeq/text2diagram/depccg_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index b1a26a4..853cf06 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -282,12 +282,14 @@ class DepCCGParser(CCGParser):
         if sentences:
             parses = self._depccg_parse(sentences)
             for (depccg_tree, *_), sentence in zip(parses, sentences):
-                if depccg_tree.score > float('-inf'):
+                try:
+                    if not depccg_tree.score > float('-inf'):
+                        raise DepCCGParseError(' '.join(sentence))
                     trees.append(self._build_ccgtree(depccg_tree.tree))
-                elif suppress_exceptions:
+                except Exception:
+                    if not suppress_exceptions:
+                        raise
                     trees.append(None)
-                else:
-                    raise DepCCGParseError(' '.join(sentence))
 
         for i in empty_indices:
             trees.insert(i, None)
-- 
2.43.0


From 3ccbaefdf9bee38ea4e696194da77b780e45ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 071/115] fix: lambdifying a rotated tensor box keeps its
 rotation

---
 lambeq/backend/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 7d3ac36..dc6ea3a 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -281,9 +281,8 @@ class Box(grammar.Box):
         if not any(x in self.free_symbols for x in symbols):
             return lambda *xs: self
 
-        return lambda *xs: type(self)(
-            self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+        return lambda *xs: replace(self,
+                                   data=lambdify(symbols, self.data)(*xs))
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From f1192c6667eb5655befcc6096c6c15ee619d0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 072/115] fix: evaluating a circuit without boxes and wires
 gives the scalar one

---
 lambeq/backend/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 56eb204..e8ae4a3 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -344,7 +344,11 @@ class Diagram(tensor.Diagram):
 
         """
         if backend is None:
-            return contractor(*self.to_tn(mixed=mixed)).tensor
+            nodes, edges = self.to_tn(mixed=mixed)
+            if not nodes:
+                # No boxes and no wires: the scalar 1
+                return get_backend().array(np.ones((), dtype=complex))
+            return contractor(nodes, edges).tensor
 
         circuits = [circuit.to_tk() for circuit in (self, ) + others]
         results, counts = [], circuits[0].get_counts(
-- 
2.43.0


From 2bb18393b3def84848d5fe135d0d748dbb430800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 073/115] fix: lambdifying with some of the symbols leaves the
 others in place

---
 lambeq/backend/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/symbol.py b/lambeq/backend/symbol.py
index fb14ca2..2bb2f15 100644
--- a/lambeq/backend/symbol.py
+++ b/lambeq/backend/symbol.py
@@ -104,7 +104,7 @@ def lambdify(symbol: Sequence[Symbol],
         Lambda function for returning evaluation of expr
 
     """
-    if not isinstance(expr, Symbol):
+    if not isinstance(expr, Symbol) or expr.unscaled not in symbol:
         return lambda *_lx: expr
 
     idx = symbol.index(expr.unscaled)
-- 
2.43.0


From d13bee06c14e60beb677e20a46dd66d3152089b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 074/115] fix: a new file for cached contraction paths is not
 made as a directory

---
 lambeq/training/tn_path_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..3babbed 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,7 +194,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                self.filepath.parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
-- 
2.43.0


From eed00339da47f5d8c7d5edf92e350464548c480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 075/115] fix: PytorchModel evaluates boxes with scaled symbols

---
 lambeq/training/pytorch_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/pytorch_model.py b/lambeq/training/pytorch_model.py
index f4cc86d..7495369 100644
--- a/lambeq/training/pytorch_model.py
+++ b/lambeq/training/pytorch_model.py
@@ -165,7 +165,9 @@ class PytorchModel(Model, torch.nn.Module):
             for b in diagram.boxes:
                 if isinstance(b.data, Symbol):
                     try:
-                        b.data = parameters[b.data]  # type: ignore[attr-defined]  # noqa: E501
+                        weight = parameters[b.data.unscaled]
+                        b.data = (weight if b.data.scale == 1  # type: ignore[attr-defined]  # noqa: E501
+                                  else b.data.scale * weight)
                     except KeyError as e:
                         raise KeyError(
                             f'Unknown symbol: {repr(b.data)}'
-- 
2.43.0


From 3dcedc1f7b140db54a97cbfe37cb8548f094ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 076/115] fix: comparing daggered gates does not compare their
 arrays for truth

---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index e8ae4a3..3f04fc7 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1174,6 +1174,7 @@ class Daggered(tensor.Daggered, Box):
 
     __hash__: Callable[[Box], int] = Box.__hash__   # type: ignore[assignment]
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
+    __eq__ = tensor.Daggered.__eq__
 
 
 class Bit(SelfConjugate, Box):
-- 
2.43.0


From 618bc899a0f668941dd753f309961f966c11d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 077/115] fix: rotations by numbers have arrays in the PyTorch
 backend

---
 lambeq/backend/quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 3f04fc7..144ca8c 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -891,7 +891,7 @@ class Rx(AntiConjugate, Rotation):
     @property
     def array(self):
         with backend() as np:
-            half_theta = np.pi * self.phase
+            half_theta = np.array(np.pi * self.phase)
             sin = self.modules.sin(half_theta)
             cos = self.modules.cos(half_theta)
 
@@ -907,7 +907,7 @@ class Ry(SelfConjugate, Rotation):
     @property
     def array(self):
         with backend() as np:
-            half_theta = np.pi * self.phase
+            half_theta = np.array(np.pi * self.phase)
             sin = self.modules.sin(half_theta)
             cos = self.modules.cos(half_theta)
 
-- 
2.43.0


From c21dca7735148033a65bc63dd9b57f52f2997351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 078/115] fix: controlled gates of any distance have arrays in
 the PyTorch backend

---
 lambeq/backend/quantum.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 144ca8c..59c448a 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1012,16 +1012,26 @@ class Controlled(Parametrized):
             controlled, distance = self.controlled, self.distance
 
             n_qubits = len(self.dom)
-            if distance == 1:
-                d = 1 << n_qubits - 1
-                part1 = np.array([[1, 0], [0, 0]])
-                part2 = np.array([[0, 0], [0, 1]])
-                array = (np.kron(part1, np.eye(d))
-                         + np.kron(part2,
-                                   np.array(controlled.array.reshape(d, d))))
+            d = 1 << len(controlled.dom)
+            part1 = np.array([[1, 0], [0, 0]])
+            part2 = np.array([[0, 0], [0, 1]])
+            # Flattening first makes the array contiguous
+            inner = np.array(controlled.array.reshape(-1).reshape(d, d))
+            array = np.kron(part1, np.eye(d)) + np.kron(part2, inner)
+
+            # Put the control and the target at their distance
+            skipped_qbs = abs(distance) - 1
+            array = np.kron(array, np.eye(1 << skipped_qbs))
+            array = array.reshape(*[2] * 2 * n_qubits)
+            wires = list(range(n_qubits))
+            if distance > 0:
+                order = [0, *wires[skipped_qbs + 1:],
+                         *wires[1:skipped_qbs + 1]]
             else:
-                array = self.decompose().eval()
-            return array.reshape(*[2] * 2 * n_qubits)
+                order = [n_qubits - 1, *wires[:-1]]
+            return np.moveaxis(array,
+                               tuple(range(2 * n_qubits)),
+                               (*order, *(n_qubits + i for i in order)))
 
     def dagger(self):
         """Return the dagger of the box."""
-- 
2.43.0


From d7bf911e63750abf7a504cb82f0d098f853af832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 079/115] fix: circuits that differ in the distance of a
 controlled gate have different keys

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 59c448a..86ce547 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -964,6 +964,10 @@ class Controlled(Parametrized):
     def __hash__(self) -> int:
         return hash((self.controlled, self.distance))
 
+    def __repr__(self) -> str:
+        # The name alone does not tell the distances
+        return f'Controlled({repr(self.controlled)}, {self.distance})'
+
     def __setattr__(self, __name: str, __value: Any) -> None:
         if __name == 'data':
             self.controlled.data = __value
-- 
2.43.0


From b802fa9bcba842d5c82d678531f849984f2bea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 080/115] fix: lambdified and rotated quantum boxes stay mixed

---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 86ce547..50e5081 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -103,6 +103,7 @@ qubit = Ty('qubit')
 bit = Ty('bit')
 
 
+@dataclass(init=False, eq=False, repr=False)
 @quantum
 class Box(tensor.Box):
     """A box in the quantum category."""
-- 
2.43.0


From 0420c2085d0979a7c35a5019a5e05a94a9350c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 081/115] fix: contracting tensor networks keeps the nodes with
 traced edges

---
 lambeq/training/tn_path_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 3babbed..5bb9186 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -319,8 +319,11 @@ def ordered_nodes_contractor(
         if not edge.is_disabled:
             # if it is disabled we already contracted it
             if edge.is_trace():
-                nodes_set.remove(edge.node1)
-                nodes_set.add(contract_parallel(edge))
+                traced_node = edge.node1
+                new_node = contract_parallel(edge)
+                nodes_set.remove(traced_node)
+                nodes_set.add(new_node)
+                nodes = [new_node if n is traced_node else n for n in nodes]
 
     if len(nodes_set) == 1:
         # There's nothing to contract.
-- 
2.43.0


From e575891a66e8d8135f3c3457b8accac95875a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 082/115] fix: models substitute into gates with several
 controls

---
 lambeq/training/quantum_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..78119a7 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -138,8 +138,10 @@ class QuantumModel(Model):
         for diagram in diagrams:
             for b in diagram.boxes:
                 if b.free_symbols:
+                    chain = [b]
                     while hasattr(b, 'controlled'):
                         b = b.controlled
+                        chain.append(b)
                     syms, values = [], []
                     for sym in b.free_symbols:
                         syms.append(sym)
@@ -149,8 +151,11 @@ class QuantumModel(Model):
                             raise KeyError(
                                 f'Unknown symbol: {repr(sym)}'
                             ) from e
-                    b.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
-                    del b.free_symbols
+                    # Setting the data of a controlled gate sets the data
+                    # of the gates in it.
+                    chain[0].data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
+                    for b in chain:
+                        b.__dict__.pop('free_symbols', None)
         return diagrams
 
     @abstractmethod
-- 
2.43.0


From 89d14890c2e672b83f62baebc4a10f52b7e05952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 083/115] fix: lambdifying an array of symbols substitutes its
 entries

---
 lambeq/backend/symbol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/backend/symbol.py b/lambeq/backend/symbol.py
index 2bb2f15..5686503 100644
--- a/lambeq/backend/symbol.py
+++ b/lambeq/backend/symbol.py
@@ -104,6 +104,11 @@ def lambdify(symbol: Sequence[Symbol],
         Lambda function for returning evaluation of expr
 
     """
+    if isinstance(expr, np.ndarray) and expr.dtype == object:
+        fns = [lambdify(symbol, e) for e in expr.flat]
+        return lambda *lx: np.array([fn(*lx) for fn in fns]
+                                    ).reshape(expr.shape)
+
     if not isinstance(expr, Symbol) or expr.unscaled not in symbol:
         return lambda *_lx: expr
 
-- 
2.43.0


From b0cdd6ce1c8ce237b0abbc12534da9c63a65bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:55 +0000
Subject: [PATCH 084/115] fix: reading a diagram from JSON data leaves the data
 as it was

---
 lambeq/backend/grammar.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 27710a7..4d680e7 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -365,7 +365,7 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +540,7 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +647,7 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1341,7 +1341,7 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1512,7 +1512,7 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1642,7 +1642,7 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1699,7 +1699,7 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.Box.from_json(data_dict['box'])
 
@@ -1802,7 +1802,7 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1895,7 +1895,7 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1956,7 +1956,7 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2194,7 +2194,7 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2283,7 +2283,7 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From db2e5cbdf4b00ec5be40bcd789bf0fab8f8e6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:55 +0000
Subject: [PATCH 085/115] fix: daggered words can be read from JSON

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 4d680e7..9dbe539 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1701,7 +1701,7 @@ class Daggered(Box):
     def from_json(cls, data: _JSONDictT | str) -> Self:
         data_dict = dict(json.loads(data) if isinstance(data, str) else data)
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
-- 
2.43.0


From 258213359a184f3ebf37a8fe9e2678f196634016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:55 +0000
Subject: [PATCH 086/115] fix: frames with any kind of component can be read
 from JSON

---
 lambeq/backend/grammar.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 9dbe539..999196e 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2198,21 +2198,9 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [cls.category.from_json(component_json)
+                                   for component_json
+                                   in data_dict['components']]
 
         return cls(**data_dict)
 
-- 
2.43.0


From 427caa2a649d761a4c6b77bfb03ccae075112fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 087/115] fix: the empty CCG type can be read back from its
 string

---
 lambeq/text2diagram/ccg_type.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 1f6b35e..fedd1ef 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -359,6 +359,9 @@ class CCGType:
     ) -> tuple[CCGType, int]:
         if not cat[start:]:
             raise CCGParseError(cat, 'unexpected end of input')
+        if cat.startswith('()', start):
+            # the empty type
+            return cls(), start + 2
         if cat[start] != '(':
             # base case
             if cat[start] in r'/\)':
-- 
2.43.0


From 8ffe8a9d91759f3d6af6c52b636d522300443702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 088/115] fix: a malformed bracket in a CCG category is
 reported as a parse error

---
 lambeq/text2diagram/ccg_type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index fedd1ef..8961ea0 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -385,7 +385,11 @@ class CCGType:
                     cat,
                     f'input ended with unmatched "(" at index {start}'
                 )
-            assert cat[end] == ')'
+            if cat[end] != ')':
+                raise CCGParseError(
+                    cat,
+                    f'expected ")" at index {end}, got {repr(cat[end])}'
+                )
             end += 1
 
         return biclosed_type, end
-- 
2.43.0


From 7e8ab9be09deefc4aebfd234d6a777d690ae728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 089/115] fix: swaps in tree2diagram act on neighbouring wires
 when several links cross

---
 .../text2diagram/pregroup_tree_converter.py   | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 4e56ff9..9db9604 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -843,36 +843,36 @@ def tree2diagram(
     for i in range(n_morphisms):
         m_t, m_l, m_r = morphisms[i]
         swaps = []
-        for j in range(i + 1, n_morphisms):
-            o_t, o_l, o_r = morphisms[j]
-            if o_l == o_r and m_l < o_l < m_r:
-                # o_l == o_r indicates a free string
-                swaps.append(('Swap', m_l, o_l))
-                morphisms[j] = (o_t, m_l, m_l)
-                m_l = o_l
-            if o_l != o_r:
-                # Always introduce swaps with the free wires
-                # if they are in between wires that will get swapped
-                if o_l < m_l < o_r < m_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if m_l < free_wire < o_r:
-                            swaps.append(('Swap', m_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', m_l, m_l)
-                            m_l = free_wire
-                    swaps.append(('Swap', m_l, o_r))
-                    morphisms[j] = (o_t, o_l, m_l)
-                    m_l = o_r
-                elif m_l < o_l < m_r < o_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if o_l < free_wire < m_r:
-                            swaps.append(('Swap', o_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', o_l, o_l)
-                            o_l = free_wire
-                    swaps.append(('Swap', o_l, m_r))
-                    morphisms[j] = (o_t, m_r, o_r)
-                    m_r = o_l
+
+        def swap(left: int, right: int) -> None:
+            """Swap two neighbouring wires and the ends attached."""
+            swaps.append(('Swap', left, right))
+            moved = {left: right, right: left}
+            for j in range(i + 1, n_morphisms):
+                o_t, o_l, o_r = morphisms[j]
+                morphisms[j] = (o_t, moved.get(o_l, o_l), moved.get(o_r, o_r))
+
+        # The wires in the way, split into those that are joined to a
+        # wire further right and the rest.
+        between = sorted({wire for _, o_l, o_r in morphisms[i + 1:]
+                          for wire in (o_l, o_r) if m_l < wire < m_r})
+        go_right = {o_l for _, o_l, o_r in morphisms[i + 1:]
+                    if m_l < o_l < m_r < o_r}
+        n_rest = 0
+        for k, wire in enumerate(between):
+            if wire not in go_right:
+                # Bring it before the wires that go right
+                for at in range(k, n_rest, -1):
+                    swap(between[at - 1], between[at])
+                n_rest += 1
+
+        # The left end goes past the former, the right end past the rest
+        for wire in between[:n_rest]:
+            swap(m_l, wire)
+            m_l = wire
+        for wire in between[:n_rest - 1:-1] if n_rest else between[::-1]:
+            swap(wire, m_r)
+            m_r = wire
 
         new_morphism = (m_t, m_l, m_r)
         new_morphisms.extend(swaps)
-- 
2.43.0


From d4d5afb77d8958ebff60cb75a3acec20e269fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 090/115] fix: cycles can be broken when the root is linked to
 itself

---
 lambeq/text2diagram/pregroup_tree_converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 9db9604..e648e72 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -236,16 +236,16 @@ def remove_cycles(root: PregroupTreeNode) -> None:
     `pregroup_tree.PregroupTreeNode`
         The root node of the new tree without the duplicate nodes.
     """
+    # Remove nodes that cycles to itself
+    # (see https://github.com/CQCL/lambeq/issues/180)
+    root.remove_self_cycles()
+
     root_word_idx = root.ind
     nodes = root.get_nodes()
     assert len(nodes[root_word_idx]) == 1
 
     root_node = nodes[root_word_idx][0]
 
-    # Remove nodes that cycles to itself
-    # (see https://github.com/CQCL/lambeq/issues/180)
-    root_node.remove_self_cycles()
-
     for _, nodes_for_idx in enumerate(nodes):
         if len(nodes_for_idx) > 1:
             # Retain the deepest copy of the node
-- 
2.43.0


From 6fc976a759e81d32789ae70a9d3a7443e886d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 091/115] fix: caps in any position are followed when a diagram
 is made into a tree

---
 .../text2diagram/pregroup_tree_converter.py   | 83 +++----------------
 1 file changed, 12 insertions(+), 71 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index e648e72..d63a568 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -79,47 +79,10 @@ def diagram2tree(diagram: Diagram,
                 box_ends = types_ind[left_len:]
 
             if isinstance(l.box, Cap):
-                if left_len < len(types_ind):
-                    box_left_end = types_ind[left_len]
-                else:
-                    box_left_end = types_ind[left_len - 1] + 1
-                words_by_typ_index = (words_by_typ_index[:box_left_end]
-                                      + [(None, None), (None, None)]
-                                      + words_by_typ_index[box_left_end:])
-                types = (types[:box_left_end]
-                         + [l.box.left, l.box.right]
-                         + types[box_left_end:])
-
-                box_ends = [box_left_end, box_left_end + 1]
-                new_boxes_absolute = []
-                for box_abs in boxes_absolute:
-                    if box_abs[1] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1] + 2,
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[1])] += 2
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    elif box_abs[2] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1],
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    else:
-                        new_boxes_absolute.append(box_abs)
-                boxes_absolute = new_boxes_absolute
-
-                # update node type indices
-                right_cod = [ind + 2 for ind in right_cod]
+                # The wires of a cap are numbered after those of the words
+                box_ends = [len(types), len(types) + 1]
+                types.extend([l.box.left, l.box.right])
+                words_by_typ_index += [(None, None), (None, None)]
 
             assert len(box_ends) == 2
 
@@ -168,38 +131,16 @@ def diagram2tree(diagram: Diagram,
         cups = [box for box in boxes_absolute
                 if (box[0] == 'Cup'
                     and (cap[1] in box[1:] or cap[2] in box[1:]))]
+        ends = [ind for cup in cups for ind in cup[1:]
+                if ind not in cap[1:]]
 
-        if len(cups) == 2:
-            # three cases:
-            if max(cups[0][1], cups[1][1]) < cap[1]:
-                # cap is to the right of cups
-                new_cup_ends = [cups[0][1], cups[1][1]]
-            elif min(cups[0][2], cups[1][2]) > cap[2]:
-                # cap is to the left of cups
-                new_cup_ends = [cups[0][2], cups[1][2]]
-            else:
-                # cap is in the middle of the cups
-                new_cup_ends = [
-                    min(cups[0][1], cups[1][1]),
-                    max(cups[0][2], cups[1][2]),
-                ]
-
-            boxes_absolute.append((
-                'Cup', min(new_cup_ends), max(new_cup_ends)
-            ))
-        elif len(cups) == 1:
+        if len(ends) == 2:
+            # the cap joins the other ends of the two cups
+            boxes_absolute.append(('Cup', min(ends), max(ends)))
+        elif len(ends) == 1:
             # this cup-cap can be yanked to the free index
-            snake_inds = [
-                cups[0][1], cups[0][2],
-                cap[1], cap[2]
-            ]
-            assert types_ind[0] in snake_inds
-            if types_ind[0] == min(snake_inds):
-                types_ind = [max(snake_inds)]
-            elif types_ind[0] == max(snake_inds):
-                types_ind = [min(snake_inds)]
-            else:
-                raise Exception('Impossible case when removing caps.')
+            types_ind = [ends[0] if ind in cap[1:] else ind
+                         for ind in types_ind]
 
         for cup in cups:
             boxes_absolute.remove(cup)
-- 
2.43.0


From 364ba05ea05ef5add04f46be7efa59cf847e5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 092/115] fix: wires start under their types when a word is
 wider than its type

---
 lambeq/backend/drawing/text_printer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index aef8711..03a0641 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -149,14 +149,15 @@ class PregroupTextPrinter(DiagramTextPrinter):
             type_str = type_sep.join(types)
             width = max(len(word), len(type_str))
 
-            last_pos = len(type_line) + (width - len(type_str)) // 2
+            type_text = type_str.center(width)
+            last_pos = len(type_line) + type_text.find(type_str)
             for t in types:
                 pos.append(last_pos + (len(t) - 1) // 2)
                 last_pos += len(t) + len(type_sep)
 
             word_line += word.center(width)
             underlines += self.chr_set['LINE'] * width
-            type_line += type_str.center(width)
+            type_line += type_text
 
         # process layers
         scan = [*range(len(pos))]
-- 
2.43.0


From 291d07a52ba1a0a33195b9650a9e7de564d2fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 093/115] fix: swaps rendered with use_ascii are ASCII

---
 lambeq/backend/drawing/text_printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index 03a0641..c4d67a0 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -56,8 +56,8 @@ UNICODE_CHAR_SET: dict[str, str] = {
 
 ASCII_CHAR_SET: dict[str, str] = {
     'BAR': '|',
-    'TOP_R_CORNER': chr(160),
-    'TOP_L_CORNER': chr(160),
+    'TOP_R_CORNER': ' ',
+    'TOP_L_CORNER': ' ',
     'BOTTOM_L_CORNER': '\\',
     'BOTTOM_R_CORNER': '/',
     'LINE': '_',
-- 
2.43.0


From 207f65112fdecfc6b5384c4e28975723684c742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 094/115] fix: words of discopy that were rotated keep their
 domain

---
 lambeq/backend/converters/discopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/discopy.py b/lambeq/backend/converters/discopy.py
index dd59e17..5796471 100644
--- a/lambeq/backend/converters/discopy.py
+++ b/lambeq/backend/converters/discopy.py
@@ -398,7 +398,7 @@ def convert_grammar_d2l(box: dg.Box) -> lg.Box:
                        n_legs_in=len(box.dom),
                        n_legs_out=len(box.cod))
 
-    elif isinstance(box, dg.Word):
+    elif isinstance(box, dg.Word) and not box.dom:
         op = lg.Word(name=box.name,
                      cod=ty_d2l(box.cod, lg.Ty),
                      z=box.z)
-- 
2.43.0


From 043421005c62853cec5c2d0d17b587ae196ff41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 095/115] fix: a stored mode is used when the arguments are
 loaded

---
 lambeq/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..5162043 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -611,6 +611,8 @@ class DiagramSaveModule(CLIModule):
 
 def main() -> None:
     parser = prepare_parser()
+    # The default mode is only filled in after any stored arguments
+    parser.set_defaults(mode=None)
     cl_args = parser.parse_args()
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
-- 
2.43.0


From 16be673bb0865f1216125174a7fddfd8d650385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 096/115] fix: an ansatz without options uses the default
 options

---
 lambeq/cli.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 5162043..80a0d0a 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -75,10 +75,20 @@ AVAILABLE_IMAGE_TYPES: list[str] = [
     'svgz', 'tif', 'tiff'
 ]
 
-DEFAULT_ARG_VALUES: dict[str, str] = {
+DEFAULT_ANSATZ_OPTIONS: dict[str, int] = {
+    'dim_n': 2,
+    'dim_s': 2,
+    'n_layers': 2,
+    'n_single_qubit_params': 3,
+    'bond_dim': 3,
+    'max_order': 3
+}
+
+DEFAULT_ARG_VALUES: dict[str, Any] = {
     'output_format': 'text-unicode',
     'image_format': 'png',
-    'mode': 'string-diagram'
+    'mode': 'string-diagram',
+    'ansatz_options': DEFAULT_ANSATZ_OPTIONS
 }
 
 
@@ -304,12 +314,10 @@ def prepare_parser() -> argparse.ArgumentParser:
             choices=AVAILABLE_ANSATZE.keys(),
             help='Ansatz to be used. This determines if the result will be a '
                  'quantum circuit or a tensor network.')
-    ansatz_arglist = ArgumentList([('dim_n', int, 2),
-                                   ('dim_s', int, 2),
-                                   ('n_layers', int, 2),
-                                   ('n_single_qubit_params', int, 3),
-                                   ('bond_dim', int, 3),
-                                   ('max_order', int, 3)])
+    ansatz_arglist = ArgumentList([
+        (key, int, default)
+        for key, default in DEFAULT_ANSATZ_OPTIONS.items()
+    ])
 
     ansatz_group.add_argument(
             '-n',
-- 
2.43.0


From 9ad8cc4d78f7f01bf4fbf691dd2a8830450a39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 097/115] fix: an output file that names an image type is
 written as that type

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 80a0d0a..53308c1 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -600,7 +600,7 @@ class DiagramSaveModule(CLIModule):
                 else:
                     image_path = cl_args.output_file
                     file_name, file_extension = os.path.splitext(image_path)
-                    if file_extension not in AVAILABLE_IMAGE_TYPES:
+                    if file_extension[1:] not in AVAILABLE_IMAGE_TYPES:
                         image_path = f'{file_name}.{cl_args.image_format}'
                 draw_args: dict[str, Any] = {'path': image_path}
                 if ('fig_width' in cl_args.output_options
-- 
2.43.0


From f334fd6c20a9f641a57ab6f45028cb286754050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 098/115] fix: an empty list of rewrite rules is not replaced
 by the stored rules

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 53308c1..1a22bfe 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -626,7 +626,7 @@ def main() -> None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
                                Loader=yaml.FullLoader)
         for key, value in saved_args.items():
-            if not getattr(cl_args, key, False):
+            if getattr(cl_args, key, None) in (None, False, '', {}):
                 setattr(cl_args, key, value)
     for key, value in DEFAULT_ARG_VALUES.items():
         if not getattr(cl_args, key, False):
-- 
2.43.0


From db048724369bb4543f44446b8fb1d5860c882299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 099/115] fix: an output given with stored arguments replaces
 the stored output

---
 lambeq/cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 1a22bfe..fb7bdc6 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -625,6 +625,11 @@ def main() -> None:
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
                                Loader=yaml.FullLoader)
+        # An output given explicitly replaces the stored one
+        if cl_args.output_file is not None:
+            saved_args.pop('output_dir', None)
+        elif cl_args.output_dir is not None:
+            saved_args.pop('output_file', None)
         for key, value in saved_args.items():
             if getattr(cl_args, key, None) in (None, False, '', {}):
                 setattr(cl_args, key, value)
-- 
2.43.0


From 393303032f673becedfb5838f772576d2f31cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 100/115] fix: root categories are used when the Bobcat parser
 is chosen explicitly

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index fb7bdc6..3b56c76 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -450,7 +450,7 @@ class ParserModule(CLIModule):
             read_sents = reader.sentences2diagrams(sentences,
                                                    tokenised=cl_args.tokenise)
             return [sent for sent in read_sents if sent is not None]
-        elif cl_args.parser is not None:
+        elif cl_args.parser not in (None, 'bobcat'):
             parser = AVAILABLE_PARSERS[cl_args.parser]()
         else:
             parser = AVAILABLE_PARSERS['bobcat'](
-- 
2.43.0


From 81c1140d31625536c0dd4d8e583f80a70b39afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 101/115] fix: a text can start with a sentence that mentions
 no noun

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 1e2476c..2da9107 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -410,7 +410,7 @@ class DisCoCircReader(Reader):
                   else Spider(NOUN,
                               1,
                               wire_counter[wid])
-                  for wid in range(max(wire_ids)+1)])
+                  for wid in range(len(noun2wire))])
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-- 
2.43.0


From 1995d44fdd9b5600a2264828839f0a4e34207ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 102/115] fix: an added noun is not taken for the last word of
 the sentence

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 2da9107..8dc59ad 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -99,7 +99,7 @@ class DisCoCircReader(Reader):
         if root.typ not in (Ty('s'), Ty('n')):
             root.typ = Ty('s')
             root.children.append(PregroupTreeNode(
-                '', len(sentence)-1, Ty('n'), [], [], []))
+                '', len(sentence), Ty('n'), [], [], []))
         return root
 
     def _tree2circuital(self,
-- 
2.43.0


From 54d6815500eeb6744605ba1e20701fccaebee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 103/115] fix: all the mentions of a pruned noun are pruned

---
 lambeq/experimental/discocirc/reader.py | 37 +++++++------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 8dc59ad..2034d88 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -262,37 +262,20 @@ class DisCoCircReader(Reader):
 
         return bigdiag, nouns, noun_inds, noun_cursor
 
-    def _get_index(self, s, pnoun):
-        for j, w in enumerate(s):
-            if w == pnoun:
-                return j
-        return -1
-
     def _prune_indices(self,
                        sentences,
                        corefs,
                        pruned_nouns: Iterable[str] = ()):
-        initial_ids = []
-
-        pruned_ids = [[] for _ in sentences]
-        # Find first coref of each pruned noun
-        for pnoun in pruned_nouns:
-            for i, s in enumerate(sentences):
-                j = self._get_index(s, pnoun)
-                if j != -1:
-                    initial_ids.append((i, j))
-                    break
-
-        for i, j in initial_ids:
-            pruned_ids[i].append(j)
-            for p in corefs:
-                if i >= len(p):
-                    break
-                elif j in p[i]:
-                    for h, hword in enumerate(p):
-                        if len(hword) > 0 and h != i:
-                            pruned_ids[h].append(hword[0])
-                    break
+        # All the mentions of a pruned noun are pruned
+        corefd = self.coref_resolver.dict_from_corefs(corefs)
+        pruned_nouns = set(pruned_nouns)
+        pruned = {corefd.get((i, j), (i, j))
+                  for i, s in enumerate(sentences)
+                  for j, w in enumerate(s) if w in pruned_nouns}
+
+        pruned_ids = [[j for j in range(len(s))
+                       if corefd.get((i, j), (i, j)) in pruned]
+                      for i, s in enumerate(sentences)]
 
         return pruned_ids
 
-- 
2.43.0


From 923719c6f81cc2250dd0a5d0cfd91ab981f7554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 104/115] fix: nouns that are mentioned rarely are pruned and
 not their namesakes

---
 lambeq/experimental/discocirc/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 2034d88..5421a08 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -265,13 +265,15 @@ class DisCoCircReader(Reader):
     def _prune_indices(self,
                        sentences,
                        corefs,
-                       pruned_nouns: Iterable[str] = ()):
+                       pruned_nouns: Iterable[str] = (),
+                       pruned_nids: Iterable[tuple[int, int]] = ()):
         # All the mentions of a pruned noun are pruned
         corefd = self.coref_resolver.dict_from_corefs(corefs)
         pruned_nouns = set(pruned_nouns)
         pruned = {corefd.get((i, j), (i, j))
                   for i, s in enumerate(sentences)
                   for j, w in enumerate(s) if w in pruned_nouns}
+        pruned.update(pruned_nids)
 
         pruned_ids = [[j for j in range(len(s))
                        if corefd.get((i, j), (i, j)) in pruned]
@@ -332,10 +334,8 @@ class DisCoCircReader(Reader):
         freq_pruned_ids = [nid for nid, count in noun_counts.items()
                            if count < min_noun_freq]
 
-        pruned_nouns = set(pruned_nouns).union(
-                        {sentences[i][j] for (i, j) in freq_pruned_ids})
-
-        pruned_ids = self._prune_indices(sentences, corefs, pruned_nouns)
+        pruned_ids = self._prune_indices(sentences, corefs,
+                                         pruned_nouns, freq_pruned_ids)
 
         rewriter = TreeRewriter(rewrite_rules)
 
-- 
2.43.0


From 0678a5ccbbc4f42db36624765c6442c1476b28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 105/115] fix: the wires of missing arguments in text circuits
 have simple types

---
 lambeq/experimental/discocirc/reader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 5421a08..43d7054 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -139,20 +139,21 @@ class DisCoCircReader(Reader):
         noun_inds = [nid for _, _, nids in subdiags_n_nouns
                      for nid in nids]
 
-        dom = Ty().tensor(Ty(),
-                          *list(filter(lambda t: t.z != 0, node.typ)))
+        # The wires of the missing arguments, without their adjoints
+        dom = Ty().tensor(Ty(), *[t.unwind() for t in reversed(node.typ)
+                                  if t.z != 0])
 
         if not nouns and not dom:
             return Id(), [], []
 
         if not subdiags or not any(d.layers for d in subdiags):
             return Box(node.word,
-                       NOUN ** len(nouns) @ dom.l,
-                       NOUN ** len(nouns) @ dom.l), nouns, noun_inds
+                       NOUN ** len(nouns) @ dom,
+                       NOUN ** len(nouns) @ dom), nouns, noun_inds
         else:
             f = Frame(node.word,
-                      NOUN ** len(nouns) @ dom.l,
-                      NOUN ** len(nouns) @ dom.l,
+                      NOUN ** len(nouns) @ dom,
+                      NOUN ** len(nouns) @ dom,
                       0,
                       subdiags)
             return f, nouns, noun_inds
-- 
2.43.0


From 5b337e03ff4f2b8d8243285a9b5c2391d4d2519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 106/115] fix: a noun argument does not add a layer to the
 sandwich of its word

---
 lambeq/experimental/discocirc/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 43d7054..407d205 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -227,9 +227,10 @@ class DisCoCircReader(Reader):
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-            subdiags.append(permute
-                            >> Id(NOUN ** len(ancilla_nouns)) @ c_subdiag
-                            >> permute.dagger())
+            if c_subdiag.layers:
+                subdiags.append(permute
+                                >> Id(NOUN ** len(ancilla_nouns)) @ c_subdiag
+                                >> permute.dagger())
 
         subdiags = [subdiag for subdiag in subdiags if subdiag.layers]
         if not noun2wire:
-- 
2.43.0


From 599d14837a56c8a1405952084166c8870bfe79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:00 +0000
Subject: [PATCH 107/115] fix: a non-constructive discopy encoding is not taken
 for a plain one

---
 lambeq/backend/converters/discopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/converters/discopy.py b/lambeq/backend/converters/discopy.py
index 5796471..89f2958 100644
--- a/lambeq/backend/converters/discopy.py
+++ b/lambeq/backend/converters/discopy.py
@@ -234,6 +234,10 @@ def convert_quantum_d2l(box: dq.Box) -> lq.Box | lq.Diagram:
             op = lq.Id()
 
     elif isinstance(box, (dq.Discard, dq.Encode)):
+        if isinstance(box, dq.Encode) and (not box.constructive
+                                           or box.reset_bits):
+            raise NotImplementedError(f'Non-constructive encoding {box} '
+                                      'not supported.')
         lq_box = cast(type[Union[lq.Discard, lq.Encode]],
                       QUANTUM_MAPPINGS_D2L[type(box)])
         op = lq_box()
-- 
2.43.0


From f4333a94585f2f3e0c8e309f3c06fc412a960d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:00 +0000
Subject: [PATCH 108/115] fix: a box after the last open wire is drawn below
 the earlier ones

---
 lambeq/backend/drawing/drawable.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ad792a1..e6025a0 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -435,12 +435,11 @@ class DrawableDiagram:
             The x and y coordinates of the box.
         """
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
@@ -788,12 +787,11 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         """Determines x and y coords for a new box.
         Modifies x coordinates of existing nodes to make space."""
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
-- 
2.43.0


From 4a6e9ab0235833214e5ba1abaa1f5f4a6d0ab1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:15 +0000
Subject: [PATCH 109/115] fix: a mixed discopy scalar is not taken for an
 amplitude

---
 lambeq/backend/converters/discopy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/backend/converters/discopy.py b/lambeq/backend/converters/discopy.py
index 89f2958..aa3f768 100644
--- a/lambeq/backend/converters/discopy.py
+++ b/lambeq/backend/converters/discopy.py
@@ -220,6 +220,8 @@ def convert_quantum_d2l(box: dq.Box) -> lq.Box | lq.Diagram:
 
     elif isinstance(box, (dq.Rx, dq.Ry, dq.Rz,
                           dq.gates.Scalar, dq.gates.Sqrt)):
+        if box.is_mixed:
+            raise NotImplementedError(f'Mixed scalar {box} not supported.')
         lq_box = cast(type[Union[lq.Rx, lq.Ry, lq.Rz, lq.Scalar, lq.Sqrt]],
                       QUANTUM_MAPPINGS_D2L[type(box)])
         op = lq_box(cast(float, box.data))
-- 
2.43.0


From fbe10a5520315467a4410b9265505680c6dc112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 110/115] fix: a diagram without boxes and wires can be drawn

---
 lambeq/backend/drawing/drawable.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index e6025a0..ca83b78 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -488,12 +488,12 @@ class DrawableDiagram:
         """
 
         min_x = min(
-            [node.x for node in self.boxes + self.wire_endpoints])
+            [node.x for node in self.boxes + self.wire_endpoints], default=0)
 
         min_y = min(
-            [node.y for node in self.boxes + self.wire_endpoints])
+            [node.y for node in self.boxes + self.wire_endpoints], default=0)
         max_y = max(
-            [node.y for node in self.boxes + self.wire_endpoints])
+            [node.y for node in self.boxes + self.wire_endpoints], default=0)
 
         mid_y = (min_y + max_y) / 2
 
@@ -574,8 +574,10 @@ class DrawableDiagram:
 
         """
 
-        min_x = min([node.x for node in self.boxes + self.wire_endpoints])
-        min_y = min([node.y for node in self.boxes + self.wire_endpoints])
+        min_x = min([node.x for node in self.boxes + self.wire_endpoints],
+                    default=0)
+        min_y = min([node.y for node in self.boxes + self.wire_endpoints],
+                    default=0)
 
         for wire_end in self.wire_endpoints:
             wire_end.x = min_x + (wire_end.x - min_x) * scale[0] + pad[0]
@@ -755,7 +757,7 @@ class DrawablePregroup(DrawableDiagram):
             for i in range(l_track, r_track + 1):
                 depth_map[i] = y - VSPACE
 
-        min_y = min(depth_map)
+        min_y = min(depth_map, default=0)
 
         for i, obj in enumerate(diagram.cod):
             wire_end = WireEndpoint(WireEndpointType.OUTPUT,
-- 
2.43.0


From 9da52be56175a0af93a0f4ac05a6032636285692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:38 +0000
Subject: [PATCH 111/115] fix: diagrams with frames but without outputs can be
 drawn

---
 lambeq/backend/drawing/drawable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ca83b78..2450f2f 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1237,6 +1237,8 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         for box in self.boxes:
             if box.parent is None and not (box.dom_wires or box.cod_wires):
                 floating_boxes.append(box)
+        if not floating_boxes:
+            return
 
         floating_boxes = sorted(
             floating_boxes,
-- 
2.43.0


From 27b881b6ea1ce49f2695da054355c034ef018aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:38 +0000
Subject: [PATCH 112/115] fix: swaps in diagrams with frames find the nouns of
 their wires

---
 lambeq/backend/drawing/drawable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 2450f2f..5bbd053 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -866,7 +866,7 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         node = BoxNode(box, x_pos, y_pos)
 
         box_ind = self._add_boxnode(node)
-        num_input = len(box.dom)
+        num_input = off + len(box.dom)
         input_nouns = input_nouns or []
         for i in range(num_input):
             if i < len(input_nouns):
-- 
2.43.0


From e8048a2f398401684a8e0ddd23e7e6157a0e83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:38 +0000
Subject: [PATCH 113/115] fix: frames with empty components can be drawn

---
 lambeq/backend/drawing/drawable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 5bbd053..564f509 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1062,6 +1062,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             all_xs.extend(box.get_x_lims(self))
             all_ys.extend(box.get_y_lims(self))
 
+        if not all_xs:
+            return 0, 0, 0, 0
+
         return min(all_xs), min(all_ys), max(all_xs), max(all_ys)
 
     def get_noun_id(self) -> int:
-- 
2.43.0


From cac3e51e01a5fa53e695d0b01f972e861e570584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 114/115] fix: frames without components can be drawn

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 999196e..cd7b33b 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2182,7 +2182,7 @@ class Frame(Box):
         going outward."""
         component_frame_orders = [c.frame_order if isinstance(c, Frame) else 0
                                   for c in self.components]
-        return max(component_frame_orders) + 1
+        return max(component_frame_orders, default=0) + 1
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-- 
2.43.0


From e349428c77cf3246faa7d38c665d2cb8941c20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:21 +0000
Subject: [PATCH 115/115] fix: the symbols of matplotlib equations are drawn
 clear of the boxes

---
 lambeq/backend/drawing/mat_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/backend/drawing/mat_backend.py b/lambeq/backend/drawing/mat_backend.py
index 2f598b8..b0a8e91 100644
--- a/lambeq/backend/drawing/mat_backend.py
+++ b/lambeq/backend/drawing/mat_backend.py
@@ -72,6 +72,8 @@ class MatBackend(DrawingBackend):
         self.axis.add_patch(PathPatch(
             path, facecolor=COLORS[color], linewidth=self.box_linewidth))
 
+        self.max_width = max(self.max_width, *(x for x, _ in points))
+
     def draw_wire(self,
                   source: tuple[float, float],
                   target: tuple[float, float],
-- 
2.43.0

