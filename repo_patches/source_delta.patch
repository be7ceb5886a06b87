From a821d570d3546ba1b47558f0fda78df8d3874097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 001/131] fix: clebsch_gordan sign: reduce the whole exponent
 j1-j2+m3 modulo 2

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 02cae879186974139ee5bea41cafe0b8aa185470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 002/131] fix: H_dump lists the annihilation operators and the
 pair-hopping amplitude that are in the Hamiltonian

---
 python/triqs/operators/util/hamiltonians.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..4853ca2 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,8 +91,8 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
                 H_dump_file.write(str(U_val.real) + '\n')
 
     return H
@@ -194,7 +194,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From 50272ba7cd5941c1b7ab278b3bd306dee121cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 003/131] fix: in-place product of matrix-valued Gf accepts
 square (not nonsquare) arguments

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..706f1b4 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], "In place multiplication not supported if " \
+                        "the argument is a nonsquare matrix. Use regular multiplication instead."
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From 61f3d681a06ae93bcc6019b479f34c485575a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 004/131] fix: MeshProduct.to_data_index returns a tuple usable
 as an index

---
 python/triqs/gf/mesh_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index e27bbec..62be47e 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -98,7 +98,7 @@ class MeshProduct:
     def to_data_index(self, idx) :
         """
         """
-        return (x.to_data_index(i) for x,i in zip(self._mlist, idx))
+        return tuple(x.to_data_index(i) for x,i in zip(self._mlist, idx))
 
     def __repr__(self):
         """ """
-- 
2.43.0


From 6b78e320a13d78e343e50405e71732a37fff26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 005/131] fix: x_data_view works on the values of the mesh
 points

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 706f1b4..47df454 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -772,7 +772,7 @@ class Gf(metaclass=AddMethod):
         """
         
         X = [x.imag for x in self.mesh] if isinstance(self.mesh, meshes.MeshImFreq) \
-            else [x for x in self.mesh]
+            else [x.value for x in self.mesh]
         
         X, data = np.array(X), self.data
         if x_window:
-- 
2.43.0


From 22613a29d0ed3de604a1d786709f2f51b5c2916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 006/131] fix: SemiCircular on a real-frequency mesh is
 diagonal in the target space

---
 python/triqs/gf/descriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..7ab945c 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -96,9 +96,9 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From 69f40a729d94dd9395f8e8d06afd26ddc463c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 007/131] fix: SemiCircular.__str__

---
 python/triqs/gf/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 7ab945c..724ecfa 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
-- 
2.43.0


From ff78d9b99104e8716569ab368c1e8e84a8490f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 008/131] fix: transform applies the terminal function at every
 depth

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..5122150 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -120,7 +120,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From 8a3fce81f20003663c1ccc13de85a0287fd81ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 009/131] fix: matrix * BlockGf multiplies from the left

---
 python/triqs/gf/block_gf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..e9398af 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -360,7 +360,10 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for i,g in c: g << x * g
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From f0bba6170a32007eb38c776ba91bb8a18ac4ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 010/131] fix: matrix * Block2Gf multiplies from the left

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..00b5b22 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -299,7 +299,10 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for bn, g in c: g << x * g
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 64259843eadabb6093ad4ffc10e8de0c9052c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 011/131] fix: BlockGf.copy_from for any target rank

---
 python/triqs/gf/block_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index e9398af..6dd5d4b 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -152,8 +152,8 @@ class BlockGf:
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if tuple(g.target_shape) != tuple(g2.target_shape):
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2)) 
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 1e6763ea1fc563d8063c132fccb795a00167d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 012/131] fix: BlockGf.all_indices yields integer indices

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 6dd5d4b..592d99f 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -193,10 +193,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for ind in g.target_indices:
+              yield (sig,) + ind
 
     @property
     def n_blocks(self):
-- 
2.43.0


From 6c27e7369d6ca76c143c3190dcd6da6c4a50b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 013/131] fix: Block2Gf can be pickled

---
 python/triqs/gf/block2_gf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 00b5b22..d162291 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -24,6 +24,10 @@ from itertools import chain, product
 import numpy as np
 
 
+def call_factory_from_dict(cl,name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
+
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -182,7 +186,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From fb573e9d0e84cd9fdc9df0ed3072e456e7233492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 014/131] fix: unknown block of a Block2Gf raises IndexError

---
 python/triqs/gf/block2_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index d162291..03d6a0b 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -219,14 +219,14 @@ class Block2Gf:
     def __getitem__(self,key):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr(list(product(self.__indices1,self.__indices2))))
         return g
 
     def __setitem__(self,key,val):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
         g << val
 
-- 
2.43.0


From 7626b258e217a9e2b5c777b4aeae8d016f2571b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 015/131] fix: Block2Gf << initializer initialises all blocks

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 03d6a0b..440fd4a 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -240,7 +240,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 3f6956cafd06cfeea2700f19418124bb9b29ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 016/131] fix: Block2Gf arithmetic with a list of one operand
 per block

---
 python/triqs/gf/block2_gf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 440fd4a..619f6a9 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -247,8 +247,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
             for bn, g in self: self[bn] += arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] += l
+            assert len(arg) == len(self), "list of incorrect length"
+            for l, (bn, g) in zip(arg,self): self[bn] += l
         else:
             for bn, g in self: self[bn] += arg
         return self
@@ -264,8 +264,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
            for bn, g in self: self[bn] -= arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] -= l
+            assert len(arg) == len(self) , "list of incorrect length"
+            for l, (bn, g) in zip(arg,self): self[bn] -= l
         else:
             for bn, g in self: self[bn] -= arg
         return self
@@ -284,8 +284,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
             for bn, g in self: self[bn] *= arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] *= l
+            assert len(arg) == len(self) , "list of incorrect length"
+            for l, (bn, g) in zip(arg,self): self[bn] *= l
         else:
             for bn, g in self: self[bn] *= arg
         return self
@@ -310,8 +310,8 @@ class Block2Gf:
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] /= l
+            assert len(arg) == len(self) , "list of incorrect length"
+            for l, (bn, g) in zip(arg,self): self[bn] /= l
         else:
             for bn, g in self: self[bn] /= arg
         return self
-- 
2.43.0


From 4077a97e512c2498306b65fa903ea62e4bad5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 017/131] fix: Block2Gf selected blocks come in the order of
 self

---
 python/triqs/gf/block2_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 619f6a9..7201c6f 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -108,13 +108,13 @@ class Block2Gf:
         """Returns a VIEW of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
+        return self.__class__ ([b for b in self.__indices1 if b in selected_blocks1], [b for b in self.__indices2 if b in selected_blocks2], lambda bn1, bn2: self[bn1,bn2], make_copies=False)
 
     def copy_selected_blocks(self, selected_blocks1, selected_blocks2):
         """Returns a COPY of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
+        return self.__class__ ([b for b in self.__indices1 if b in selected_blocks1], [b for b in self.__indices2 if b in selected_blocks2], lambda bn1, bn2: self[bn1,bn2], make_copies=True)
 
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
-- 
2.43.0


From 82d9bbc5a7ec34985f52d6338829093123f7d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 018/131] fix: Block2Gf << dict keeps assigning block by block

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 7201c6f..a2680b2 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -240,7 +240,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self: g << A
+           for bn, g in self: g << (A[bn] if isinstance(A, dict) else A)
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 95941fd1cc6bcaaa0b3a12ceb91505df37d0f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 019/131] fix: make_delta accepts a list of bath energies, as
 documented

---
 python/triqs/gf/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..e708157 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -310,6 +310,7 @@ def make_delta(V, eps, mesh, block_names=None):
         delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
         return BlockGf(name_list=block_names, block_list=delta_list)
 
+    eps = np.asarray(eps)
     assert V.shape[1] == len(eps), 'number of bath sides in V and eps does not match'
 
     delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
-- 
2.43.0


From b5177d2f6eaaeddc3b4dd510a1fa4525869362d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 020/131] fix: discretize_bath(cmplx=True) with a real initial
 guess

---
 python/triqs/gf/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index e708157..4c9b7e7 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -469,6 +469,10 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
     else:
         raise ValueError('V0 has invalid type {}, should be one of: None, float, complex, or np.ndarray'.format(type(V0)))
 
+    # the parameters of a complex fit are complex hoppings
+    if cmplx:
+        V0 = np.ascontiguousarray(V0, dtype=complex)
+
     # bath energies are initialized as linspace over the approximate bandwidth or given as list
     if (isinstance(eps0, list) or isinstance(eps0, np.ndarray)):
         assert len(eps0) == Nb, 'len(eps) does not match number of bath sides'
-- 
2.43.0


From e277f24b2cffc94cfdb8c66edb153e655e4923d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 021/131] fix: Gf * lazy expression

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 47df454..10de222 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -546,6 +546,8 @@ class Gf(metaclass=AddMethod):
         elif isinstance(y, (numbers.Number, np.ndarray)):
             c = self.copy()
             c *= y
+        elif descriptor_base.is_lazy(y):
+            return lazy_expressions.make_lazy(self) * y
         else:
             assert False, "Invalid operand type for Gf multiplication"
         return c
-- 
2.43.0


From 9e8865654cb95293da7ac7dc33f05e5d0a8a9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 022/131] fix: evaluation context of lazy expressions

---
 python/triqs/gf/descriptor_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..9129d58 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
-- 
2.43.0


From f953205580ddc21b4425582cc6a52e7af3097f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 023/131] fix: a block descriptor can be applied more than once

---
 python/triqs/gf/descriptor_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 9129d58..adbfc68 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -72,13 +72,13 @@ class BaseBlock(Base):
     def __init__ (self, G, *args, **kw):
         Base.__init__(self, G = G)
         if self.is_block_descriptor():
-            self.descriptor_iter = (self.__class__(g, *args, **kw) for i,g in G)
+            self.descriptor_list = [self.__class__(g, *args, **kw) for i,g in G]
 
     def is_block_descriptor(self):
         return self.G.__class__.__name__ == 'BlockGf'
 
     def __iter__ (self):
-        return self.descriptor_iter
+        return iter(self.descriptor_list)
                 
 #########################################################################
 
-- 
2.43.0


From a7e0f4d76b0085f723541b9e7e6bc208dcf89f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 024/131] fix: printing of lazy expressions

---
 python/triqs/gf/lazy_expressions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 5122150..a51c120 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -75,12 +75,14 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
-            return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-        par = lambda op, e: "%s"%e if op_priority[e.tag] >= op_priority[op] else "(%s)"%e
-        return "%s %s %s "%(par(self.tag , self.childs[0]), self.tag , par(self.tag , self.childs[1]))
+            return self.childs[0].get_terminal()[0] + "(" + ", ".join(F(e) for e in self.childs[1:]) + ')'
+        par = lambda p, e: "%s"%e if op_priority[e.tag] >= p else "(%s)"%e
+        p = op_priority[self.tag]
+        # the right operand of - and / needs parentheses at equal priority
+        return "%s %s %s "%(par(p, self.childs[0]), self.tag , par(p + (self.tag in "-/"), self.childs[1]))
 
     def __str__(self): return self.__aux_print(str)
     def __repr__(self): return self.__aux_print(repr)
-- 
2.43.0


From dba05868eb4b04d15a3f6ff4a0dc7c2d12aefcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 025/131] fix: OneFermionInTime uses the current mesh interface

---
 python/triqs/gf/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 724ecfa..33853a2 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -22,7 +22,7 @@
 r""" """
 
 from .descriptor_base import *
-from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq
+from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq, MeshImTime
 import warnings
                 
 #######################################
@@ -33,12 +33,12 @@ class OneFermionInTime(Base):
          
     def __call__(self,G):
         L = self.L
-        if G.mesh.TypeGF not in [GF_Type.Imaginary_Time]: 
-            raise TypeError("This initializer is only correct in frequency")
+        if type(G.mesh) is not MeshImTime:
+            raise TypeError("This initializer is only correct in imaginary time")
 
         Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
 
-        fact = -1/(1+exp(-L*G.beta))
+        fact = -1/(1+exp(-L*G.mesh.beta))
         Function(lambda t: fact* exp(-L*t) *Id)(G)
         return G
 
-- 
2.43.0


From c66711d4ef54cb095b9f784655cd8e5442f27aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 026/131] fix: LazyCTX is looked up in descriptor_base

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 10de222..c42c776 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -377,7 +377,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From 432577792ee96a1674222b9bfd56a84a2922351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 027/131] fix: copy of a lazy expression

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index a51c120..0eca026 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -59,7 +59,7 @@ class LazyExpr (__aux):
 
     def copy(self):
         """ Deep copy"""
-        return LazyExpr(self.tag, self.childs)
+        return LazyExpr(self.tag, *self.childs)
 
     def set_from(self, y):
         """ self:= y """
-- 
2.43.0


From 339a6c5a13f7bb123f78eb197370968f43098bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 028/131] fix: TBSuperLattice: removal of the internal hoppings

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..4bfbb94 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -134,7 +134,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From f7008a3c83443c8748784890fd134a417cf09de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 029/131] fix: TBSuperLattice.change_coordinates_SL_to_L

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 4bfbb94..51baed5 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -142,7 +142,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + numpy.array(self.__cluster_sites[alpha])
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From 605e4fb1db7bb5d0467db2e03b93a39b91bf7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 030/131] fix: TBSuperLattice: cluster sites given as tuples or
 arrays

---
 python/triqs/lattice/super_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 51baed5..f366721 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [list(site) for site in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
-- 
2.43.0


From b58d439a0bda29f3434cc461046045c5e1c09bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 031/131] fix: TBSuperLattice: search range of the automatic
 cluster sites

---
 python/triqs/lattice/super_lattice.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index f366721..edf0c80 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,10 +73,8 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
-            else: raise ValueError("ndim is not between 1 and 3 !!")
+            # |x_i| <= sum_j |M_ij| for all the points of the super-cell
+            a = [int(x) for x in abs(self._M).sum(axis=1)] + [0] * (3 - ndim)
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
                 for ny in r(1):
-- 
2.43.0


From 5b71a85f0d6a917e7c1d81ed9a3a7270b6a16ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 032/131] fix: TBSuperLattice.__reduce__

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index edf0c80..37b000f 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -114,10 +114,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From ba6ef2b192ef3f64f4d04c4e995599cf834bb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 033/131] fix: TB_from_pythTB for one and two dimensional
 models

---
 python/triqs/lattice/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..71ae7b1 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -236,7 +236,7 @@ def TB_from_pythTB(ptb):
     m_zero = np.zeros((ptb.get_num_orbitals(), ptb.get_num_orbitals()), dtype=complex)
 
     # fill on-site energies
-    hopp_dict[(0, 0, 0)] = np.eye(ptb.get_num_orbitals(), dtype=complex) * ptb._site_energies
+    hopp_dict[(0,) * len(ptb.get_lat())] = np.eye(ptb.get_num_orbitals(), dtype=complex) * ptb._site_energies
 
     # fill hoppings
     for hopp, orb_from, orb_to, displacement in ptb._hoppings:
-- 
2.43.0


From 4a764179e2faa3abbe503b496c41e2a59903e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 034/131] fix: HilbertTransform.__reduce__

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..357db79 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
-- 
2.43.0


From 3f23c37910b55f265a75d30d70d64dcb1c0b16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 035/131] fix: HilbertTransform with an epsilon-dependent Sigma

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 357db79..8eeca76 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.getfullargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
-- 
2.43.0


From 6ed0f7071a77a15be8d02f9c7006faf0ba79503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 036/131] fix: HilbertTransform with a matrix field

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 8eeca76..4fc3b8f 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
-- 
2.43.0


From bd9ecce1455df9a03553e8357716851a609fc8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 037/131] fix: HilbertTransform with n_points_integral

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 4fc3b8f..fe9b4da 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -168,7 +168,7 @@ class HilbertTransform:
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
             else:
-                self.dos._DOS__f(n_points_integral)
+                self.dos._DOSFromFunction__f(n_points_integral)
                 self.__normalize()
 
             HT(result)
@@ -176,7 +176,7 @@ class HilbertTransform:
             nloop, test = 1, 0
             while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
                 if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
+                    self.dos._DOSFromFunction__f(n_points_integral)
                     self.__normalize()
 
                 result_old = result.copy()
-- 
2.43.0


From 970afa06a709bff4aa5812b4996505da34bab0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 038/131] fix: HilbertTransform with test_convergence

---
 python/triqs/dos/hilbert_transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index fe9b4da..2c97f5c 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -173,16 +173,16 @@ class HilbertTransform:
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOSFromFunction__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 1, not test_convergence
+            while not converged and nloop < 10:
+                n_points_integral *=2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
+                nloop += 1
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From 87151bf55142d4f159525dc818dfcff149b39386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 039/131] fix: DOS.density for a chemical potential below the
 band

---
 python/triqs/dos/dos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 3570c17..c559477 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -97,6 +97,8 @@ name : string
         except:
             ind = self.eps.shape[0]
 
+        if ind == 0: return dens # mu is below the band
+
         de = self.eps[1]-self.eps[0]
         #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
         #    dens += r
-- 
2.43.0


From 43de51d9bb8caec5e96832d7ee9e22aa3843151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 040/131] fix: SumkDiscrete with a k-dependent Sigma

---
 python/triqs/sumk/sumk_discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..a20d036 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.getfullargspec(Sigma)[0])
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
-- 
2.43.0


From d16a4562e7dd742d499c5adfcf468037ae8cc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 041/131] fix: SumkDiscrete with a matrix field

---
 python/triqs/sumk/sumk_discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index a20d036..77bde7e 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -142,7 +142,7 @@ class SumkDiscrete:
         tmp,tmp2 = G.copy(),G.copy()
         mupat = mu * numpy.identity(no, numpy.complex_)
         tmp << iOmega_n
-        if field != None: tmp -= field
+        if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
 
         # Loop on k points...
-- 
2.43.0


From 741506f9d42f07562e298d6499d148aeaba604c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 042/131] fix: SumkDiscreteFromLattice.Recompute_Grid with a
 shift Q

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..f279efe 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -111,13 +111,13 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
+        if Q is not None:
             try:
                 Q = np.array(Q)
                 assert len(Q.shape) ==1
             except:
                 raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.bz_points[k_index,:] +=Q
 
         # Compute the discretized hoppings from the Superlattice
-- 
2.43.0


From e20e7c223b5464c41a3732f9a8fc1b67db259dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 043/131] fix: SumkDiscreteFromLattice on a patch

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index f279efe..2657765 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -141,7 +141,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -172,6 +172,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From f376815065d4639b0b30459a8dbff8b6a986573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 044/131] fix: pickling of SumkDiscreteFromLattice

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 2657765..896bb44 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -53,7 +53,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
      #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
+        return self.__class__,  (self.SL, self.patch, self.__n_points, self.method)
 
      #-------------------------------------------------------------
 
@@ -66,7 +66,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
               computes t(k+Q) instead of t(k) (useful for bare chi_0)
         """
         assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
-        self.method = method
+        self.method, self.__n_points = method, n_points
         self.resize_arrays(n_points)
         if self.patch:
             self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
-- 
2.43.0


From 3904c1f7fdde96aa97c2986193434eb5bc974cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 045/131] fix: Fit uses getfullargspec

---
 python/triqs/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index 8e3f17e..ebcb3dd 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -48,7 +48,7 @@ class Fit:
 
         """
         self.function, self.fname, p00 = fitter
-        assert len(ins.getargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
+        assert len(ins.getfullargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-- 
2.43.0


From cbc1656d58376676c658b86b752b8c288edaefb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 046/131] fix: Fit accepts an array as initial guess

---
 python/triqs/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index ebcb3dd..7f75e95 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -52,7 +52,7 @@ class Fit:
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-        self.param, success = leastsq(errfunc, p0 if p0 else p00 )
+        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
 
     def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
     def __repr__ (self) : return str(self)
-- 
2.43.0


From d59c749ea1fadb117ec3b6362934d9b3fd2ea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 047/131] fix: send and recv without MPI

---
 python/triqs/utility/mpi_nompi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2ce9570 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -60,10 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
+    global _sendval
     _sendval = val
     return
 
 def recv(source = 0):
+    global _sendval
     if _sendval is None:
         raise Exception('send val not set')
     recval = _sendval
-- 
2.43.0


From c3d90535d9d3e65ca4c2f8a3ca62bf76a632adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 048/131] fix: master_gets_host_names

---
 python/triqs/utility/mpi_mpi4py.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..46a58c2 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,13 +118,12 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-    assert len(HostNames)==size," internal pb MPI module"
-    
     if is_master_node() :
+      assert len(HostNames)==size," internal pb MPI module"
       print("Hostnames : ")
       for u,host in list(HostNames.items()) :
         print("Node %d  on machine %s"%(u,host))
-- 
2.43.0


From 5cd374e2c1a6889843fefc6b3af574588c0cc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 049/131] fix: redirected C++ output is decoded

---
 python/triqs/utility/redirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 8409818..8777f2b 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -50,7 +50,7 @@ class T(threading.Thread):
       try:
         # read out the pipe and write it to the screen
         # if the pipe was empty it return an error (hence the try-except)
-        sys.stdout.write(os.read(piper, 10000))
+        sys.stdout.write(os.read(piper, 10000).decode(errors='replace'))
         sys.stdout.flush()
       except:
         pass
-- 
2.43.0


From e1890d20baae9a727129aafbb01e730de7a30a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 050/131] fix: message of h5diff for different numbers

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 6f451ae..ae1ff69 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -65,7 +65,7 @@ def compare(key, a, b, level, precision):
             assert_arrays_are_close(a,b)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
+            assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From 421eefdde5e6b7e068f28b9850f2bb5e00b0afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 051/131] fix: h5diff reports arrays of different shapes

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index ae1ff69..7e0cc77 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -62,6 +62,7 @@ def compare(key, a, b, level, precision):
 
         # ... until here
         elif isinstance(a, numpy.ndarray):
+            assert a.shape == b.shape, "Arrays have different shapes: %s vs %s"%(a.shape, b.shape)
             assert_arrays_are_close(a,b)
 
         elif t in [int, float, complex]:
-- 
2.43.0


From 4de5fc44c6faa80b7da5bf6a37189001ca0a40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 052/131] fix: h5diff uses the requested precision for arrays

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 7e0cc77..9a9c2f3 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -63,7 +63,7 @@ def compare(key, a, b, level, precision):
         # ... until here
         elif isinstance(a, numpy.ndarray):
             assert a.shape == b.shape, "Arrays have different shapes: %s vs %s"%(a.shape, b.shape)
-            assert_arrays_are_close(a,b)
+            assert_arrays_are_close(a,b,precision)
 
         elif t in [int, float, complex]:
             assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
-- 
2.43.0


From 0e616490c5946d1547cf29bbeb4d06e2de462ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 053/131] fix: comparison of empty arrays

---
 python/triqs/utility/comparison_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index 54f46bb..a110d6b 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -20,7 +20,7 @@
 import numpy as np
 
 def assert_arrays_are_close(a, b, precision = 1.e-6):
-    d = np.amax(np.abs(a - b))
+    d = np.amax(np.abs(a - b), initial=0)
     assert  d< precision, "Arrays are different. Difference is %s.\n %s \n\n --------- \n\n %s"%(d,a,b)
 
 def assert_array_close_to_scalar(a, x, precision = 1.e-6):
-- 
2.43.0


From fc1180625043d735458dfdf0380d5e7d2f54b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 054/131] fix: h5diff forgets the failures of earlier
 comparisons

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 9a9c2f3..cf6f5c0 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -88,6 +88,7 @@ def compare(key, a, b, level, precision):
         failures.append("Comparison of key '%s'  has failed:\n """%key + mess)
 
 def h5diff(f1, f2, precision= 1.e-6):
+    del failures[:]
     compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
     if failures :
         print ('-'*50, file=sys.stderr )
-- 
2.43.0


From 162d3dcca692bb2b24e7d5e84de9ae736bf57f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 055/131] fix: plot protocol for a list of (x, complex y)

---
 python/triqs/plot/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index 311af15..5fd14c7 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -70,7 +70,7 @@ def plot_protocol_apply(ob, opt_dict, xlims):
         Y = numpy.array([ob(x) for x in X])
     else:
         try: # generator x,y
-            X, Y = zip(*ob)
+            X, Y = map(numpy.array, zip(*ob))
         except:
             raise RuntimeError("Object cannot be plotted")
 
-- 
2.43.0


From ab6eb51d27bc89f1e061652a6d742ac80889a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 056/131] fix: oplot options of functions and arrays

---
 python/triqs/plot/protocol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index 5fd14c7..7531992 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -76,7 +76,9 @@ def plot_protocol_apply(ob, opt_dict, xlims):
 
     name = opt_dict.pop('name', str(ob))
     if numpy.iscomplexobj(Y):
-        return([{'xdata': X, 'ydata': Y.real, 'label': "Re " + name},
-                {'xdata': X, 'ydata': Y.imag, 'label': "Im " + name}])
+        res = [{'xdata': X, 'ydata': Y.real, 'label': "Re " + name},
+               {'xdata': X, 'ydata': Y.imag, 'label': "Im " + name}]
     else:
-        return([{'xdata': X, 'ydata': Y, 'label': name}])
+        res = [{'xdata': X, 'ydata': Y, 'label': name}]
+    for r in res: r.update(opt_dict) # pass all other options on, as for any plottable object
+    return res
-- 
2.43.0


From 095793ac0f4e33e3d613aa95dd97c8c8727e4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 057/131] fix: buffered_function without a function throws

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From e2f85661a15ccba1b9c75df0df50bbaa8e65ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 058/131] fix: assigning a Mersenne twister does not share its
 state

---
 c++/triqs/mc_tools/MersenneRNG.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c++/triqs/mc_tools/MersenneRNG.hpp b/c++/triqs/mc_tools/MersenneRNG.hpp
index 4ed6581..4282a8d 100644
--- a/c++/triqs/mc_tools/MersenneRNG.hpp
+++ b/c++/triqs/mc_tools/MersenneRNG.hpp
@@ -144,6 +144,11 @@ namespace triqs {
 
         RandMT(RandMT const &R) { seedMT(R.seed_save); }
 
+        RandMT &operator=(RandMT const &R) {
+          seedMT(R.seed_save);
+          return *this;
+        }
+
         void seedMT(uint32 seed) {
 
           seed_save = seed;
-- 
2.43.0


From 6c954bc30518f4207a12ef5e34481ff585110274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 059/131] fix: det_manip: blocks of one row and column in
 try_insert_k and try_remove_k

---
 c++/triqs/det_manip/det_manip.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..6e04aec 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -144,7 +144,6 @@ namespace triqs {
         // MC = C*A^(-1)
         matrix_type MB, MC, B, C, ksi;
         void resize(long N, long k) {
-          if (k < 2) return;
           x.resize(k);
           y.resize(k);
           i.resize(k);
@@ -815,8 +814,8 @@ namespace triqs {
         std::sort(j.begin(), j.end());
 
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(N >= 2);
         TRIQS_ASSERT(i.size() == j.size());
+        TRIQS_ASSERT(N >= long(i.size()));
 
         k = i.size();
         reserve(N - k, k);
-- 
2.43.0


From 82de308100020665e8f168fd656f5fe49d30ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 060/131] fix: det_manip: swap and move all the data members

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 6e04aec..fe34c6a 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -198,6 +198,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -207,8 +209,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From 770dc72e1140398dc018726c2d5603bd7e5845cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 061/131] fix: det_manip: size the work data after reading from
 a file

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index fe34c6a..f5c2a4f 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -105,6 +105,8 @@ namespace triqs {
         h5_read(gr, "N", g.N);
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
+        g.w1.resize(g.Nmax);               // and the size of the work data
+        g.wk.resize(g.Nmax, g.kmax);
         g.last_try = NoTry;
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
-- 
2.43.0


From b8e88c9809653c2fc33b7bcadecd07828b1383fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 062/131] fix: det_manip: check every index of a try

---
 c++/triqs/det_manip/det_manip.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index f5c2a4f..48b9b89 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -622,7 +622,6 @@ namespace triqs {
 
         k = i.size();
         reserve(N + k, k);
-        last_try = InsertK;
 
         auto const argsort = [](auto const &vec) {
           std::vector<long> idx(vec.size());
@@ -642,10 +641,11 @@ namespace triqs {
         };
 
         // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
+        for (long l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == 0 or wk.i[l - 1] != wk.i[l]) and 0 <= wk.i[l] and wk.i[l] < N + k);
+          TRIQS_ASSERT((l == 0 or wk.j[l - 1] != wk.j[l]) and 0 <= wk.j[l] and wk.j[l] < N + k);
         }
+        last_try = InsertK;
 
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
         for (long m = 0; m < k; ++m) {
@@ -826,14 +826,14 @@ namespace triqs {
         TRIQS_ASSERT(N >= long(i.size()));
 
         k = i.size();
-        reserve(N - k, k);
-        last_try = RemoveK;
 
         // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
+        for (long l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == 0 or i[l - 1] != i[l]) and 0 <= i[l] and i[l] < N);
+          TRIQS_ASSERT((l == 0 or j[l - 1] != j[l]) and 0 <= j[l] and j[l] < N);
         }
+        reserve(N - k, k);
+        last_try = RemoveK;
 
         for (long l = 0; l < k; ++l) {
           wk.i[l]     = i[l];
@@ -970,7 +970,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From e7c04f5654d9dd05d748843beff6b99a2614f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 063/131] fix: det_manip: rolling an empty matrix

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 48b9b89..f52781b 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1326,6 +1326,7 @@ namespace triqs {
        * WHY is it like this ???? : try_roll : return det +1/-1.
        */
       int roll_matrix(RollDirection roll) {
+        if (N == 0) return 1; // nothing to roll
         long tmp;
         const long NN = N;
         switch (roll) {
-- 
2.43.0


From fc8dd8684b0a0b6026bf0b9da40b7e989ecc80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 064/131] fix: operators: print, write and read integer indices
 as long

---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 c++/triqs/operators/many_body_operator.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..d641218 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..3f37bf0 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -34,7 +34,7 @@ namespace triqs {
     struct print_visitor { // TODO C17 use generic lambda + if constexpr
       std::ostream &os;
       void operator()(std::string const &x) { os << '\'' << x << '\''; }
-      void operator()(int i) { os << i; }
+      void operator()(long i) { os << i; }
     };
 
     std::ostream &operator<<(std::ostream &os, canonical_ops_t const &op) {
-- 
2.43.0


From 9605df5790b3490668c2da1ed6cfcc1ea699dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 065/131] fix: operators: reading an operator replaces its
 former content

---
 c++/triqs/operators/many_body_operator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 3f37bf0..353058d 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -160,6 +160,8 @@ namespace triqs {
 
       // ---- Now we must reverse the operations of write
 
+      op.monomials.clear(); // the operator read replaces the former content
+
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
       for (auto const &mon : datavec) {
-- 
2.43.0


From 2913e8de37460f9ea242402eca270ecdeba006ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 066/131] fix: operators: subtract an operator from itself

---
 c++/triqs/operators/many_body_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..1f78f86 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -250,6 +250,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (this == &op) { // the terms can not be erased while iterating over them
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From 28caec3d99eb6228213650d37badedf355c7c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 067/131] fix: extractors: terms accepted by
 block_matrix_from_op

---
 c++/triqs/operators/util/extractors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..c201805 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,8 +286,8 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices.size() == 2 and m[1].indices.size() == 2
+          and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 96c27541ed272286798ce637a3456f0bedee13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 068/131] fix: extractors: refuse operators outside the block
 structure

---
 c++/triqs/operators/util/extractors.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index c201805..765ad95 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -292,7 +292,12 @@ namespace triqs::operators::utils {
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
 
-        bl_mat[name_to_bl(bl_name)](op1_idx, op2_idx) = coef;
+        auto bl = name_to_bl(bl_name);
+        if (bl == n_bl) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Block " << bl_name << " of the operator is not in gf_struct";
+        auto in_block = [n = gf_struct[bl].second](long i) { return 0 <= i and i < n; };
+        if (not in_block(op1_idx) or not in_block(op2_idx))
+          TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Indices " << op1_idx << "," << op2_idx << " of the operator are not in block " << bl_name;
+        bl_mat[bl](op1_idx, op2_idx) = coef;
       } else {
         if (!ignore_irrelevant) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term is not of the form 'coeff * c_dag{bl,i} * c_{bl,j}'";
         ;
-- 
2.43.0


From 31afb6fcf19eeaaa7591d11b088398a58eeeacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 069/131] fix: state: amplitudes of a constant state stored in
 a map

---
 c++/triqs/hilbert_space/state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/state.hpp b/c++/triqs/hilbert_space/state.hpp
index 94c2ddd..254c1b5 100644
--- a/c++/triqs/hilbert_space/state.hpp
+++ b/c++/triqs/hilbert_space/state.hpp
@@ -120,7 +120,11 @@ namespace triqs {
    @param i index of the requested amplitude
    @return Constant reference to the requested amplitude
   */
-      value_type const &operator()(fock_state_t i) const { return ampli[i]; }
+      value_type const &operator()(fock_state_t i) const {
+        static const value_type zero(0);
+        auto it = ampli.find(i);
+        return it != ampli.end() ? it->second : zero;
+      }
 
       /// In-place addition of another state
       /**
-- 
2.43.0


From fadbd4b2dca30d1527d3b528e945871b7503a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 070/131] fix: state: project onto a smaller Hilbert space

---
 c++/triqs/hilbert_space/state.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/state.hpp b/c++/triqs/hilbert_space/state.hpp
index 254c1b5..4a497f9 100644
--- a/c++/triqs/hilbert_space/state.hpp
+++ b/c++/triqs/hilbert_space/state.hpp
@@ -391,7 +391,10 @@ namespace triqs {
     template <typename TargetState, typename OriginalState> TargetState project(OriginalState const &psi, hilbert_space const &proj_hs) {
       TargetState proj_psi(proj_hs);
       auto const &hs = psi.get_hilbert();
-      foreach (psi, [&](int i, typename OriginalState::value_type v) { proj_psi(hs.get_fock_state(i)) = v; })
+      foreach (psi, [&](int i, typename OriginalState::value_type v) {
+        auto f = hs.get_fock_state(i);
+        if (proj_hs.has_state(f)) proj_psi(f) = v;
+      })
         ;
       return proj_psi;
     }
-- 
2.43.0


From a32326e852752ed6e9ea29fb264a78ac354a85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 071/131] fix: imperative_operator: fermionic sign beyond 16
 orbitals

---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From 42f784c6435713710b9b52befcca7073e5abe92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 072/131] fix: Order the quantum numbers of atom_diag as its
 subspaces

---
 c++/triqs/atom_diag/impl/worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 2cca809..920def4 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -328,6 +328,10 @@ namespace triqs {
           ++i;
         }
         std::swap(tmp, hdiag->sub_hilbert_spaces);
+        if (!hdiag->quantum_numbers.empty()) {
+          auto qn = hdiag->quantum_numbers;
+          for (auto const &[old_spn, new_spn] : remap) hdiag->quantum_numbers[new_spn] = qn[old_spn];
+        }
         auto remap_connection = [&](matrix<long> &connection) {
           auto c2 = connection;
           for (int n = 0; n < first_dim(connection); ++n)
-- 
2.43.0


From 3dd0b8e2c17ebe52a08fae574101d1f37e3d8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 073/131] fix: Initialise the vacuum subspace index of
 atom_diag

---
 c++/triqs/atom_diag/atom_diag.hpp      | 4 ++--
 c++/triqs/atom_diag/impl/atom_diag.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/atom_diag.hpp b/c++/triqs/atom_diag/atom_diag.hpp
index 8820a07..fe51900 100644
--- a/c++/triqs/atom_diag/atom_diag.hpp
+++ b/c++/triqs/atom_diag/atom_diag.hpp
@@ -245,7 +245,7 @@ namespace triqs {
       /// Ground state energy (i.e. min of all subspaces)
       double get_gs_energy() const { return gs_energy; }
 
-      /// Returns invariant subspace containing the vacuum state
+      /// Returns invariant subspace containing the vacuum state (-1 if the vacuum has been filtered out)
       long get_vacuum_subspace_index() const { return vacuum_subspace_index; }
 
       /// Returns the vacuum state as a vector in the full Hilbert space
@@ -322,7 +322,7 @@ namespace triqs {
       std::vector<std::vector<matrix_t>> cdag_matrices;  // cdag_matrices[operator_linear_index][B] = matrix from subspace B to subspace B'
       std::vector<std::vector<matrix_t>> c_matrices;     // idem for annihilation operators
       double gs_energy;                                  // Energy of the ground state
-      long vacuum_subspace_index;                        // Invariant subspace containing |0>
+      long vacuum_subspace_index = -1;                   // Invariant subspace containing |0>
       full_hilbert_space_state_t vacuum;                 // Vacuum vector (in the eigenbasis)
 
       std::vector<std::vector<quantum_number_t>> quantum_numbers; // Values of the quantum numbers for each subspace
diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index dd7ca3c..8b7d53f 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -80,7 +80,8 @@ namespace triqs {
 
     ATOM_DIAG_METHOD(void, compute_vacuum()) {
       // Compute vacuum vector in the eigenbasis
-      vacuum() = 0;
+      vacuum()              = 0;
+      vacuum_subspace_index = -1;
       for (int sp : range(sub_hilbert_spaces.size())) {
         if (sub_hilbert_spaces[sp].has_state(fock_state_t(0))) {
           vacuum_subspace_index               = sp;
-- 
2.43.0


From 68eb700cec8408977a3c143a2cdb5d827d21c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 074/131] fix: Check imaginary off-diagonal elements in
 quantum_number_eigenvalues_checked

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..3310aa7 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      ATOM_DIAG_T::matrix_t M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0


From 7ec469da4ed37e3e21553b4dd2492c32cd140595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 075/131] fix: Discard the former matrices when reading an
 atom_diag

---
 c++/triqs/atom_diag/impl/atom_diag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index 8b7d53f..c6421f8 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -226,7 +226,7 @@ namespace triqs {
       h5::read(gr, "annihilation_connection", ad.annihilation_connection);
 
       auto read_sparse = [&](std::string na, std::vector<std::vector<matrix_t>> &Mvv) {
-        Mvv.resize(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
+        Mvv.assign(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
         auto gr2 = gr.open_group(na);
         for (auto s : gr2.get_all_dataset_names()) {
           std::stringstream ss(s);
-- 
2.43.0


From 28f206c2e29a638f4bf4e0ca9bd55ac60e3ecf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 076/131] fix: Avoid the overflow of atomic_g_l for large beta
 times energy

---
 c++/triqs/atom_diag/impl/gf.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/gf.cpp b/c++/triqs/atom_diag/impl/gf.cpp
index 6a82080..6ebdeda 100644
--- a/c++/triqs/atom_diag/impl/gf.cpp
+++ b/c++/triqs/atom_diag/impl/gf.cpp
@@ -249,6 +249,18 @@ namespace triqs {
     /// GF: Legendre coefficients ///
     /////////////////////////////////
 
+    // Ratio i_l(x) / cosh(x), where i_l is the modified spherical Bessel function of the first kind and x >= 0
+    // Both functions overflow for large x, where the asymptotic expansion is exact up to exponentially small terms
+    inline double scaled_bessel_i(int l, double x) {
+      if (x < 500) return triqs::utility::mod_cyl_bessel_i(l, x) / std::cosh(x);
+      double term = 1, res = 1;
+      for (int k = 1; k <= l; ++k) {
+        term *= -(l + k) * (l - k + 1) / (2 * x * k);
+        res += term;
+      }
+      return res / x;
+    }
+
     // Returns lambda-function compatible with atomic_g_lehmann_impl
     // The lambda-function captures 'gf' and fills it when passed to atomic_g_lehmann_impl
     template <bool Complex> auto make_term_proc(double beta, block_gf_view<legendre> gf) {
@@ -257,10 +269,10 @@ namespace triqs {
 
         // Set data points
         double x = beta * pole / 2;
-        double w = -beta / (2 * std::cosh(x));
+        double w = -beta / 2;
         for (auto l : g.mesh()) {
           g[l] += residue * w * std::sqrt(2 * l.index() + 1) * (l.index() % 2 == 0 ? 1 : std::copysign(1, -x))
-             * triqs::utility::mod_cyl_bessel_i(l.index(), std::abs(x));
+             * scaled_bessel_i(l.index(), std::abs(x));
         }
       };
     }
-- 
2.43.0


From 272d4870e3fd6829a729d6a28208b39c1975c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 077/131] fix: Report an exception in a Monte Carlo run without
 MPI environment

---
 c++/triqs/mc_tools/mc_generic.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..5b26a4a 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -257,6 +257,7 @@ namespace triqs::mc_tools {
 
       std::unique_ptr<mpi::monitor> node_monitor;
       if (rethrow_exception and mpi::has_env) node_monitor = std::make_unique<mpi::monitor>(c);
+      bool local_emergency = false; // an exception occurred, and there is no monitor to tell the other nodes
 
       for (; !stop_it; ++NC) { // do NOT reinit NC to 0
         try {
@@ -286,10 +287,12 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
+          if (not rethrow_exception)
+            c.abort(2);
+          else if (node_monitor)
             node_monitor->request_emergency_stop();
           else
-            c.abort(2);
+            local_emergency = true;
         }
 
         // recompute fraction done
@@ -309,6 +312,7 @@ namespace triqs::mc_tools {
 
         // Stop if an emergeny occured on any node
         if (node_monitor) stop_it |= node_monitor->emergency_occured();
+        stop_it |= local_emergency;
 
       } // end main NC loop
 
@@ -322,6 +326,7 @@ namespace triqs::mc_tools {
         node_monitor->finalize_communications();
         if (node_monitor->emergency_occured()) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
       }
+      if (local_emergency) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception";
 
       // final reporting
       if (status == 1) report << "mc_generic stops because of stop_callback" << std::endl;
-- 
2.43.0


From 58e267e7d5b1ec5f0b376f88d0705c01bf0d65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 078/131] fix: Leave clock and counters in order after a Monte
 Carlo run of zero cycles

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 5b26a4a..533a20c 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -245,12 +245,12 @@ namespace triqs::mc_tools {
 
       AllMoves.clear_statistics();
 
-      timer_run = {};
-      timer_run.start();
-      if (n_cycles == 0) return 0;
-      triqs::signal_handler::start();
+      timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
+      if (n_cycles == 0) return 0;
+      timer_run.start();
+      triqs::signal_handler::start();
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
@@ -436,7 +436,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 7b1ce01f7c8501c41aa2c71cb338d7d623bebab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 079/131] fix: Give the documented status when a signal
 interrupts the last Monte Carlo cycle

---
 c++/triqs/mc_tools/mc_generic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 533a20c..ff2deef 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -260,6 +260,7 @@ namespace triqs::mc_tools {
       bool local_emergency = false; // an exception occurred, and there is no monitor to tell the other nodes
 
       for (; !stop_it; ++NC) { // do NOT reinit NC to 0
+        bool interrupted = false;
         try {
           // Metropolis loop. Switch here for HeatBath, etc...
           for (int64_t k = 1; (k <= length_cycle); k++) {
@@ -284,6 +285,7 @@ namespace triqs::mc_tools {
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
           // current cycle interrupted, stop calculation below
+          interrupted = true;
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -307,7 +309,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From 618d7f24bf70829333c6e6acc4596fe608f081f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 080/131] fix: Make the time point of beta the upper end of its
 segment

---
 c++/triqs/utility/time_pt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..c7cb654 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,9 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        double y = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        // Nmax is rounded up to 2^64 as a double, which does not fit into uint64_t
+        uint64_t n = (y >= static_cast<double>(time_pt::Nmax) ? time_pt::Nmax : static_cast<uint64_t>(y));
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From 4ea7bf3b754843494a1e0c565a5d99e73d9bfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 081/131] fix: mean_and_err and mean_and_err_mpi compile for
 arrays

---
 c++/triqs/stat/mean_error.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/mean_error.hpp b/c++/triqs/stat/mean_error.hpp
index ff60e15..8d318a3 100644
--- a/c++/triqs/stat/mean_error.hpp
+++ b/c++/triqs/stat/mean_error.hpp
@@ -65,7 +65,8 @@ namespace triqs::stat {
     auto err_calc  = make_real(mean_calc);
     err_calc       = 0;
     for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
-    err_calc = std::sqrt(err_calc);
+    using std::sqrt;
+    err_calc = sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
   }
 
@@ -83,7 +84,8 @@ namespace triqs::stat {
     err_calc       = 0;
     for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
     mpi::all_reduce_in_place(err_calc, c);
-    err_calc = std::sqrt(err_calc);
+    using std::sqrt;
+    err_calc = sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
   }
 
-- 
2.43.0


From dc804079be2057387226728c652b33478b37c201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 082/131] fix: jackknife compiles for numbers without other
 headers

---
 c++/triqs/stat/jackknife.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..c899911 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -82,7 +82,7 @@ namespace triqs::stat {
       // containing f immediately.
       // Cf below, M and Q computation.
       // Check by ASAN sanitizer on tests
-      auto M = make_regular(f(ja[0]...));
+      auto M = nda::make_regular(f(ja[0]...));
 
       for (long i = 1; i < N; ++i) {
         M += (f(ja[i]...) - M) / (i + 1); // cf NB
@@ -98,7 +98,7 @@ namespace triqs::stat {
       }
 
       // Compute the variance
-      auto Q = make_regular(nda::real(M));
+      auto Q = nda::make_regular(nda::real(M));
       Q      = 0;
       for (long i = 0; i < N; ++i) {
         Q += nda::abs2(f(ja[i]...) - M); // Cf NB
@@ -107,9 +107,9 @@ namespace triqs::stat {
       // reduce Q
       if (c) Q = mpi::all_reduce(Q, *c);
 
-      auto f_on_averages = make_regular(f(ja.average()...));
-      auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto f_on_averages = nda::make_regular(f(ja.average()...));
+      auto std_err       = nda::make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
+      auto average       = nda::make_regular(N * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From da07b93fa8d3a0d97a292e2f50e38a8300af7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 083/131] fix: jackknife of a series without data throws
 instead of reading the first element

---
 c++/triqs/stat/jackknife.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index c899911..ea7fd27 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -40,8 +40,8 @@ namespace triqs::stat {
 
       // On each node independently
       jackknifed_t(V const &bins) : original_series(bins) {
-        // ENSURE(bins.size()>0)
         n_tot = original_series.size();
+        if (n_tot == 0) TRIQS_RUNTIME_ERROR << "No data !";
         // compute the sum of B into a new T.
         sum = original_series[0];
         for (long i = 1; i < original_series.size(); ++i) sum += original_series[i];
-- 
2.43.0


From 1006f69d1c2430781f0fe29e064d6825b0a18162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 084/131] fix: jackknife_mpi uses the number of data of all
 ranks on every rank

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ea7fd27..c43b44b 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = nda::make_regular(f(ja.average()...));
       auto std_err       = nda::make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = nda::make_regular(N * (f_on_averages - M) + M);
+      auto average       = nda::make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 109b1eaaea8dca64abad4f7a373e6635baeb5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 085/131] fix: keep the maximum number of logarithmic bins of
 an accumulator in HDF5

---
 c++/triqs/stat/accumulator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..9370609 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,8 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      // Files written by former versions do not contain the maximum number of bins
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins);
     }
 
   } // namespace details
-- 
2.43.0


From b718ce76051637242413de26651a694913739f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 086/131] fix: histogram discards NaN samples

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..438b935 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!((x >= a) && (x <= b))) // also discards NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From 2df348408b54730d53b61703ef3170334d467db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 087/131] fix: Brillouin zone coordinate transformations accept
 vectors of three components in lower dimensions

---
 c++/triqs/lattice/brillouin_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..0cdd0b5 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -71,12 +71,12 @@ namespace triqs {
 
       /// Transform from lattice to real coordinates
       template <typename K> k_t lattice_to_real_coordinates(K const &k) const {
-        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       /// Transform from real to lattice coordinates
       template <typename K> k_t real_to_lattice_coordinates(K const &k) const {
-        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       // ------------------- Comparison -------------------
-- 
2.43.0


From d99a87f623301230f213e9aa1e6479beba5aebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 088/131] fix: compare lattice meshes by dimensions and units

---
 c++/triqs/mesh/brzone.hpp | 2 +-
 c++/triqs/mesh/cyclat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..a8ee719 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return dims_ == M.dims_ and units_ == M.units_; }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..2e7a299 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return dims_ == M.dims_ and units_ == M.units_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
-- 
2.43.0


From b4685dc24ce421066dee81b4b8e7bc9486f01335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 089/131] fix: report a band without dispersion in the
 densities of states

---
 c++/triqs/lattice/tight_binding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index ab8f663..6a37e9e 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -85,6 +85,7 @@ namespace triqs {
       double epsmax = max_element(eval);
       double epsmin = min_element(eval);
       double deps   = (epsmax - epsmin) / neps;
+      if (deps == 0) TRIQS_RUNTIME_ERROR << "dos : all energies are equal to " << epsmin << ", there is no energy window to bin";
       // for (int i =0; i< neps; ++i) epsilon(i)= epsmin+i/(neps-1.0)*(epsmax-epsmin);
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + (i + 0.5) * deps;
 
@@ -178,6 +179,7 @@ namespace triqs {
       // define the epsilon mesh, etc.
       array<double, 1> epsilon(neps);
       double deps = (epsmax - epsmin) / neps;
+      if (deps == 0) TRIQS_RUNTIME_ERROR << "dos_patch : all energies are equal to " << epsmin << ", there is no energy window to bin";
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + i / (neps - 1.0) * (epsmax - epsmin);
 
       // bin the eigenvalues according to their energy
-- 
2.43.0


From cecb52f0e1ea5230eb95f81977a93a6d1c0c928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 090/131] fix: find the closest mesh point of a skewed
 Brillouin zone mesh

---
 c++/triqs/mesh/brzone.hpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index a8ee719..96d6d08 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -234,23 +234,36 @@ namespace triqs::mesh {
         // prepare result container and distance measure
         auto dst = std::numeric_limits<double>::infinity();
 
-        // check flatness along mesh dimensions
-        long r1 = std::min(dims()[0], 2l);
-        long r2 = std::min(dims()[1], 2l);
-        long r3 = std::min(dims()[2], 2l);
-
-        // find nearest neighbor by comparing distances
+        // update result when the distance of a neighbor is smaller than current
         nda::stack_vector<long, 3> res;
-        for (auto const &[i1, i2, i3] : itertools::product_range(r1, r2, r3)) {
+        auto update = [&](long i1, long i2, long i3) {
           auto iv   = nda::stack_vector<long, 3>{i1, i2, i3};
           auto dstp = nda::norm(transpose(units()) * (w - iv));
-
-          // update result when distance is smaller than current
           if (dstp < dst) {
             dst = dstp;
             res = n + iv;
           }
+        };
+
+        // check flatness along mesh dimensions
+        long r1 = std::min(dims()[0], 2l);
+        long r2 = std::min(dims()[1], 2l);
+        long r3 = std::min(dims()[2], 2l);
+
+        // find nearest neighbor by comparing distances
+        for (auto const &[i1, i2, i3] : itertools::product_range(r1, r2, r3)) update(i1, i2, i3);
+
+        // In a skewed lattice the nearest neighbor may be outside of this cell. The distance found so far
+        // bounds its coordinates, compare all the points within these bounds.
+        std::array<long, 3> first{}, last{};
+        for (auto i : range(3)) {
+          double r = dst * nda::norm(units_inv_(range::all, i));
+          first[i] = long(std::ceil(w[i] - r));
+          last[i]  = long(std::floor(w[i] + r));
         }
+        for (long i1 = first[0]; i1 <= last[0]; ++i1)
+          for (long i2 = first[1]; i2 <= last[1]; ++i2)
+            for (long i3 = first[2]; i3 <= last[2]; ++i3) update(i1, i2, i3);
 
         // fold back to brzone mesh (nearest neighbor could be out of bounds)
         return index_modulo({res[0], res[1], res[2]});
-- 
2.43.0


From c9cb7435a1bea9615309b5d404152f3d7f41d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 091/131] fix: divide Matsubara frequencies

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From 97ef14ba7eb52b9761509441542463af0413d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 092/131] fix: closest point of a linear mesh with a single
 value

---
 c++/triqs/mesh/bases/linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..13b3b3a 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (delta_x == 0.0) return 0;
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
-- 
2.43.0


From 2ff5131b95ad98c235eee7ae9248a1f6836ecba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 093/131] fix: compare the parameters of DLR meshes

---
 c++/triqs/mesh/dlr.hpp        | 4 +++-
 c++/triqs/mesh/dlr_imfreq.hpp | 4 +++-
 c++/triqs/mesh/dlr_imtime.hpp | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/mesh/dlr.hpp b/c++/triqs/mesh/dlr.hpp
index dc211f2..0091361 100644
--- a/c++/triqs/mesh/dlr.hpp
+++ b/c++/triqs/mesh/dlr.hpp
@@ -97,7 +97,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 1a1b56b..084943a 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -92,7 +92,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imfreq const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr_imfreq const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr_imfreq const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index acee943..9b7c149 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -91,13 +91,15 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imtime const &m) const { return _mesh_hash == m._mesh_hash and _statistic == m._statistic; }
+    bool operator==(dlr_imtime const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps and _mesh_hash == m._mesh_hash;
+    }
     bool operator!=(dlr_imtime const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
 
     struct mesh_point_t {
-      using mesh_t = dlr;
+      using mesh_t = dlr_imtime;
 
       private:
       long _index         = 0;
-- 
2.43.0


From c46866e4c9f8d98a96a64606674c7d53bde67cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 094/131] fix: keep the order of the other variables when a
 Green function is flattened

---
 c++/triqs/gfs/gf/flatten.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/gfs/gf/flatten.hpp b/c++/triqs/gfs/gf/flatten.hpp
index 12425ff..cc7986e 100644
--- a/c++/triqs/gfs/gf/flatten.hpp
+++ b/c++/triqs/gfs/gf/flatten.hpp
@@ -33,17 +33,15 @@ namespace triqs::gfs {
   template <int N = 0, nda::MemoryArray A> auto flatten_2d(A const &v) {
     long nrows = v.extent(N);      // # rows of the result, i.e. n-th dim, which is now at 0.
     long ncols = v.size() / nrows; // # columns of the result. Everything but n-th dim.
-    return reshape(typename A::regular_type{nda::transposed_view<0, N>(v)}, nrows, ncols);
+    return reshape(typename A::regular_type{nda::rotate_index_view<N>(v)}, nrows, ncols);
   }
 
   // -------------------------------------------------------
 
   /// Inverse of flatten_2d
   template <int N = 0> void unflatten_2d(nda::MemoryArray auto &&out, nda::MemoryArray auto const &afl) {
-    auto sh_fl = out.shape();
-    std::swap(sh_fl[0], sh_fl[N]);
-    auto data_fl = reshape(afl, sh_fl);
-    out()        = nda::transposed_view<0, N>(data_fl);
+    auto out_rot = nda::rotate_index_view<N>(out()); // view of out with the n-th dim at 0, the others in the original order
+    out_rot      = reshape(afl, out_rot.shape());
   }
 
   //-------------------------------------
-- 
2.43.0


From 9b809e930cba2128b3f7050cb247687165e4d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 095/131] fix: transpose of a Green function

---
 c++/triqs/gfs/functions/functions2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/functions2.hpp b/c++/triqs/gfs/functions/functions2.hpp
index 1a9a2b2..0c5b562 100644
--- a/c++/triqs/gfs/functions/functions2.hpp
+++ b/c++/triqs/gfs/functions/functions2.hpp
@@ -268,7 +268,7 @@ namespace triqs::gfs {
   *                      Transpose. Create a NEW gf
   *-----------------------------------------------------------------------------------------------------*/
 
-  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) { return {g.mesh(), transposed_view(g.data(), 0, 2, 1)}; }
+  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) { return {g.mesh(), nda::transposed_view<1, 2>(g.data())}; }
 
   /*------------------------------------------------------------------------------------------------------
   *                      Conjugate
-- 
2.43.0


From acea42e8925b56b3b53c087d4f5ab802a576ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 096/131] fix: Fourier transform of G(tau) on less than nine
 points

---
 c++/triqs/gfs/transform/fourier_matsubara.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier_matsubara.cpp b/c++/triqs/gfs/transform/fourier_matsubara.cpp
index 06157b4..05a07be 100644
--- a/c++/triqs/gfs/transform/fourier_matsubara.cpp
+++ b/c++/triqs/gfs/transform/fourier_matsubara.cpp
@@ -101,6 +101,14 @@ namespace triqs::gfs {
       // A simple check on whether or not we are dealing with noisy data
       auto dat  = gt.data();
       int n_tau = gt.mesh().size();
+
+      // The tail-fit uses the first and the last nine points of the mesh
+      if (n_tau < 9) {
+        std::cerr << "WARNING: Direct Fourier cannot deduce the high-frequency moments of G(tau) from less than nine points. \
+	  Please specify the high-frequency moments for higher accuracy.\n";
+        return _fourier_impl(iw_mesh, gt, make_zero_tail(gt, 4));
+      }
+
       auto der_1 =
          max_element(abs(dat(1, range::all) - dat(0, range::all)) + abs(dat(n_tau - 2, range::all) - dat(n_tau - 1, range::all))) / gt.mesh().delta();
       auto der_2 = 0.5 * max_element(abs(dat(2, range::all) - dat(0, range::all)) + abs(dat(n_tau - 3, range::all) - dat(n_tau - 1, range::all)))
-- 
2.43.0


From e298e7400501e6f9fc933b7ec173b0b2bcd52131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 097/131] fix: refuse Fourier transforms between Matsubara
 meshes of different beta or statistic

---
 c++/triqs/gfs/transform/fourier_matsubara.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier_matsubara.cpp b/c++/triqs/gfs/transform/fourier_matsubara.cpp
index 05a07be..86456bb 100644
--- a/c++/triqs/gfs/transform/fourier_matsubara.cpp
+++ b/c++/triqs/gfs/transform/fourier_matsubara.cpp
@@ -91,10 +91,20 @@ namespace triqs::gfs {
     return tail;
   }
 
+  namespace {
+    // the time and the frequency mesh must describe functions with the same periodicity
+    void check_compatible(mesh::imtime const &tau_mesh, mesh::imfreq const &iw_mesh) {
+      if (tau_mesh.statistic() != iw_mesh.statistic() or std::abs(tau_mesh.beta() - iw_mesh.beta()) > 1.e-10 * tau_mesh.beta())
+        TRIQS_RUNTIME_ERROR << "Fourier: the imaginary-time mesh and the Matsubara mesh have a different beta or statistic";
+    }
+  } // namespace
+
   // ------------------------ DIRECT TRANSFORM --------------------------------------------
 
   gf_vec_t<imfreq> _fourier_impl(mesh::imfreq const &iw_mesh, gf_vec_cvt<imtime> gt, nda::array_const_view<dcomplex, 2> known_moments) {
 
+    check_compatible(gt.mesh(), iw_mesh);
+
     nda::array<dcomplex, 2> tail;
 
     if (known_moments.is_empty()) {
@@ -197,6 +207,8 @@ namespace triqs::gfs {
 
   gf_vec_t<imtime> _fourier_impl(mesh::imtime const &tau_mesh, gf_vec_cvt<imfreq> gw, nda::array_const_view<dcomplex, 2> known_moments) {
 
+    check_compatible(tau_mesh, gw.mesh());
+
     TRIQS_ASSERT2(!gw.mesh().positive_only(), "Fourier is only implemented for g(i omega_n) with full mesh (positive and negative frequencies)");
 
     nda::array_const_view<dcomplex, 2> tail;
-- 
2.43.0


From 408dfb9f97a533e6e6c322d807da8f10fb5a0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 098/131] fix: refuse lattice Fourier transforms between meshes
 of different dimensions

---
 c++/triqs/gfs/transform/fourier_lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/gfs/transform/fourier_lattice.cpp b/c++/triqs/gfs/transform/fourier_lattice.cpp
index 7858647..069d5ed 100644
--- a/c++/triqs/gfs/transform/fourier_lattice.cpp
+++ b/c++/triqs/gfs/transform/fourier_lattice.cpp
@@ -40,6 +40,7 @@ namespace triqs::gfs {
 
     auto dims     = g_in.mesh().dims();
     auto dims_int = stdutil::make_std_array<int>(dims);
+    ASSERT_EQUAL(out_mesh.dims(), dims, "Fourier: the Brillouin zone mesh and the lattice mesh have different dimensions");
 
     _fourier_base(g_in.data(), g_out.data(), dims.size(), dims_int.data(), n_others, fftw_backward_forward);
 
-- 
2.43.0


From 90bc54fa55072199a67218bd41df122f46fc1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 099/131] fix: refuse the zero-temperature density on a mesh
 ending below w=0

---
 c++/triqs/gfs/functions/density.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 70f1a43..af76f13 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -143,6 +143,9 @@ namespace triqs::gfs {
     auto N0    = int(std::floor(-wmin / dw)) + 1; // frequency index at or above w=0
     double dw0 = -wmin - (N0 - 1) * dw;           // last interval width to w=0
 
+    // the integration needs the mesh to reach w=0
+    if (N0 > N or (N0 == N and abs(dw0) > 1e-9)) TRIQS_RUNTIME_ERROR << "density: the frequency mesh does not extend to w=0";
+
     nda::matrix<dcomplex> res(g.target_shape());
 
     // Trapetzoidal integration, with partial right interval
-- 
2.43.0


From 1ce45502ee06916606a19d188972e7732c7a1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 100/131] fix: restricted_view of a bosonic Green function

---
 c++/triqs/gfs/functions/imfreq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index a1d93f2..f92897c 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -246,7 +246,7 @@ namespace triqs::gfs {
   // ------------------------------------------------------------------------------------------------------
 
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
-    auto iw_mesh = mesh::imfreq{g.mesh().beta(), Fermion, n_max};
+    auto iw_mesh = mesh::imfreq{g.mesh().beta(), g.mesh().statistic(), n_max};
 
     auto const &old_mesh = g.mesh();
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
-- 
2.43.0


From c12e1e357e129c6d68b497145b16d43571e70bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 101/131] fix: replace_by_tail of a bosonic Green function is
 symmetric

---
 c++/triqs/gfs/functions/imfreq.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index f92897c..bc8f5ff 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -257,8 +257,10 @@ namespace triqs::gfs {
   }
 
   template <typename T> void replace_by_tail(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail, int n_min) {
+    // the counterpart of iw_n is iw_{-n-1} for fermions, iw_{-n} for bosons
+    long n_neg = (g.mesh().statistic() == Fermion ? -n_min - 1 : -n_min);
     for (auto iw : g.mesh())
-      if (iw.n >= n_min or iw.n < -n_min) g[iw] = tail_eval(tail, iw);
+      if (iw.n >= n_min or iw.n <= n_neg) g[iw] = tail_eval(tail, iw);
   }
 
   template <typename T> void replace_by_tail_in_fit_window(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail) {
-- 
2.43.0


From 919fc2bead378fba716c098573ed7f8fca39a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 102/131] fix: tail-fit window contains the outermost
 frequencies of both sides

---
 c++/triqs/mesh/tail_fitter.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/triqs/mesh/tail_fitter.hpp b/c++/triqs/mesh/tail_fitter.hpp
index 5083b9b..19f4a6a 100644
--- a/c++/triqs/mesh/tail_fitter.hpp
+++ b/c++/triqs/mesh/tail_fitter.hpp
@@ -113,15 +113,15 @@ namespace triqs::mesh {
       std::vector<long> idx_vec;
       idx_vec.reserve(2 * n_tail);
 
+      // The window contains the n_pts_in_fit_range outermost points on both sides,
+      // the points on the negative side are the counterparts of the points on the positive side
       double step = double(n_pts_in_fit_range) / n_tail;
-      double idx1 = m.first_index();
-      double idx2 = m.last_index() - n_pts_in_fit_range;
+      double idx  = m.last_index() + 1 - n_pts_in_fit_range;
 
       for (int n : range(n_tail)) {
-        idx_vec.push_back(long(idx1));
-        idx_vec.push_back(long(idx2));
-        idx1 += step;
-        idx2 += step;
+        idx_vec.push_back(m.first_index() + m.last_index() - long(idx));
+        idx_vec.push_back(long(idx));
+        idx += step;
       }
 
       return std::move(idx_vec);
-- 
2.43.0


From 1e453f6eb75ef0e246c467078696a9af6162abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 103/131] fix: zero-temperature density of a real-frequency
 Green function

---
 c++/triqs/gfs/functions/density.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index af76f13..3968935 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -153,7 +153,7 @@ namespace triqs::gfs {
     for (auto widx : range(1, N0)) res += g[widx];
     if (abs(dw0) > 1e-9) {
       double a = dw0 / dw;
-      res += 0.5 * ((a * a - 1.) * g[N0 - 1] + a * (2. - a) * g[N0]);
+      res += 0.5 * (a * a * g[N0] - (1. - a) * (1. - a) * g[N0 - 1]);
     } else
       res -= 0.5 * g[N0 - 1];
 
-- 
2.43.0


From 9fd8e53a9dd37ce6eaee7bc589c0d9433ba32b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 104/131] Revert "fix: Order the quantum numbers of atom_diag
 as its subspaces"

The committed reference of test atom_diag_real stores the former order; recorded as a known finding instead.
---
 c++/triqs/atom_diag/impl/worker.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 920def4..2cca809 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -328,10 +328,6 @@ namespace triqs {
           ++i;
         }
         std::swap(tmp, hdiag->sub_hilbert_spaces);
-        if (!hdiag->quantum_numbers.empty()) {
-          auto qn = hdiag->quantum_numbers;
-          for (auto const &[old_spn, new_spn] : remap) hdiag->quantum_numbers[new_spn] = qn[old_spn];
-        }
         auto remap_connection = [&](matrix<long> &connection) {
           auto c2 = connection;
           for (int n = 0; n < first_dim(connection); ++n)
-- 
2.43.0


From 6eaf657295e23ffb818c05b50bdd29e74b8e5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 105/131] fix: Legendre transform of bosonic Green functions to
 Matsubara frequencies

---
 c++/triqs/gfs/transform/legendre_matsubara.hpp |  3 ++-
 c++/triqs/utility/legendre.cpp                 | 10 ++++++++++
 c++/triqs/utility/legendre.hpp                 |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/legendre_matsubara.hpp b/c++/triqs/gfs/transform/legendre_matsubara.hpp
index 454dd6a..c2af782 100644
--- a/c++/triqs/gfs/transform/legendre_matsubara.hpp
+++ b/c++/triqs/gfs/transform/legendre_matsubara.hpp
@@ -44,8 +44,9 @@ namespace triqs::gfs {
     gw() = 0.0;
 
     // Use the transformation matrix
+    auto T = (gw.mesh().statistic() == Fermion) ? triqs::utility::legendre_T : triqs::utility::legendre_T_boson;
     for (auto om : gw.mesh()) {
-      for (auto l : gl.mesh()) { gw[om] += triqs::utility::legendre_T(om.index(), l.index()) * gl[l]; }
+      for (auto l : gl.mesh()) { gw[om] += T(om.index(), l.index()) * gl[l]; }
     }
   }
 
diff --git a/c++/triqs/utility/legendre.cpp b/c++/triqs/utility/legendre.cpp
index 4c82dbb..aabe3a1 100644
--- a/c++/triqs/utility/legendre.cpp
+++ b/c++/triqs/utility/legendre.cpp
@@ -39,6 +39,16 @@ std::complex<double> triqs::utility::legendre_T(int n, int l) {
   return neg_n ? std::conj(res) : res;
 }
 
+std::complex<double> triqs::utility::legendre_T_boson(int n, int l) {
+
+  // j_l (-x) = (-1)^l j_l (x)
+  double j = boost::math::sph_bessel(l, std::abs(n) * M_PI);
+  if (n < 0 and l % 2 == 1) j = -j;
+
+  std::complex<double> il[4] = {1., 1i, -1., -1i};
+  return sqrt(2 * l + 1) * (n % 2 == 0 ? 1. : -1.) * il[l % 4] * j;
+}
+
 double triqs::utility::legendre_t(int l, int p) {
 
   // p is the 1/omega power, it can't be negative
diff --git a/c++/triqs/utility/legendre.hpp b/c++/triqs/utility/legendre.hpp
index 2775761..2b50c3d 100644
--- a/c++/triqs/utility/legendre.hpp
+++ b/c++/triqs/utility/legendre.hpp
@@ -27,6 +27,9 @@ namespace triqs::utility {
   // This is T_{nl} following Eq.(E2) of our paper
   std::complex<double> legendre_T(int n, int l);
 
+  // The same for the bosonic Matsubara frequency of index n
+  std::complex<double> legendre_T_boson(int n, int l);
+
   // This is t_l^p following Eq.(E8) of our paper
   double legendre_t(int l, int p);
 
-- 
2.43.0


From 51263e4d5e569bcb7712b11813348d65ff5b9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 106/131] fix: refuse Legendre transforms between different
 temperatures or statistics

---
 c++/triqs/gfs/transform/legendre_matsubara.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c++/triqs/gfs/transform/legendre_matsubara.hpp b/c++/triqs/gfs/transform/legendre_matsubara.hpp
index c2af782..0e24fff 100644
--- a/c++/triqs/gfs/transform/legendre_matsubara.hpp
+++ b/c++/triqs/gfs/transform/legendre_matsubara.hpp
@@ -33,6 +33,13 @@ namespace triqs::gfs {
 
   // ----------------------------
 
+  template <typename M1, typename M2> void check_legendre_meshes(M1 const &m1, M2 const &m2) {
+    if (std::abs(m1.beta() - m2.beta()) > 1e-12 * m1.beta() or m1.statistic() != m2.statistic())
+      TRIQS_RUNTIME_ERROR << "Legendre transform: the meshes have different inverse temperatures or statistics";
+  }
+
+  // ----------------------------
+
   template <typename G1, typename G2>
     requires(is_gf_v<G1, imfreq>)
   void legendre_matsubara_direct(G1 &&gw, G2 const &gl) {
@@ -41,6 +48,7 @@ namespace triqs::gfs {
     static_assert(std::is_same_v<typename std::decay_t<G1>::target_t, typename std::decay_t<G2>::target_t>,
                   "Arguments to legendre_matsubara_direct require same target_t");
 
+    check_legendre_meshes(gw.mesh(), gl.mesh());
     gw() = 0.0;
 
     // Use the transformation matrix
@@ -60,6 +68,7 @@ namespace triqs::gfs {
     static_assert(std::is_same_v<typename std::decay_t<G1>::target_t, typename std::decay_t<G2>::target_t>,
                   "Arguments to legendre_matsubara_direct require same target_t");
 
+    check_legendre_meshes(gt.mesh(), gl.mesh());
     gt() = 0.0;
     utility::legendre_generator L;
 
@@ -79,6 +88,7 @@ namespace triqs::gfs {
     static_assert(std::is_same_v<typename std::decay_t<G1>::target_t, typename std::decay_t<G2>::target_t>,
                   "Arguments to legendre_matsubara_inverse require same target_t");
 
+    check_legendre_meshes(gl.mesh(), gw.mesh());
     gl() = 0.0;
 
     // Construct a temporary imaginary-time Green's function gt
@@ -102,6 +112,7 @@ namespace triqs::gfs {
     static_assert(std::is_same_v<typename std::decay_t<G1>::target_t, typename std::decay_t<G2>::target_t>,
                   "Arguments to legendre_matsubara_inverse require same target_t");
 
+    check_legendre_meshes(gl.mesh(), gt.mesh());
     gl() = 0.0;
     utility::legendre_generator L;
     auto N = gt.mesh().size() - 1;
-- 
2.43.0


From b58f3f538fcf352dd3b2d0df5c5298dba6f4bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 107/131] fix: moments of a Legendre Green function

---
 c++/triqs/gfs/functions/legendre.cpp | 3 ++-
 c++/triqs/gfs/functions/legendre.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index c68f31c..b865b88 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -38,7 +38,8 @@ namespace triqs {
       array<dcomplex, 3> t{sh};
       t() = 0.0;
 
-      for (int p = 0; p < order; p++)
+      // the moment of order 0 vanishes
+      for (int p = 1; p < order; p++)
         for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p) / std::pow(gl.mesh().beta(), p)) * gl[l];
 
       return t;
diff --git a/c++/triqs/gfs/functions/legendre.hpp b/c++/triqs/gfs/functions/legendre.hpp
index 439cf37..1d156d6 100644
--- a/c++/triqs/gfs/functions/legendre.hpp
+++ b/c++/triqs/gfs/functions/legendre.hpp
@@ -26,7 +26,7 @@ namespace triqs {
     // For Legendre functions
     // ------------------------------------------------------
 
-    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl);
+    array<dcomplex, 3> get_tail(gf_const_view<mesh::legendre> gl, int order = 10);
 
     void enforce_discontinuity(gf_view<mesh::legendre> &gl, nda::array_view<double, 2> disc);
   } // namespace gfs
-- 
2.43.0


From e209fcd7fa1e056a82a28e55fad8f8cda3e2b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 108/131] fix: density of matrix- and tensor-valued DLR Green
 functions

---
 c++/triqs/gfs/functions/density.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.hpp b/c++/triqs/gfs/functions/density.hpp
index 4d83f6f..f0413e6 100644
--- a/c++/triqs/gfs/functions/density.hpp
+++ b/c++/triqs/gfs/functions/density.hpp
@@ -52,7 +52,9 @@ namespace triqs {
       res      = -g(g.mesh().beta());
       // Transpose to get <cdag_i c_j> instead of <cdag_j c_i>
       if constexpr (requires { transpose(res); }) {
-        res = transpose(res);
+        // a copy: transpose(res) is a view of res
+        auto const tmp = res;
+        res            = transpose(tmp);
         return res;
       } else
         return res;
-- 
2.43.0


From 6152d2e284c4d488cb8795678edfb4d63045892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 109/131] fix: negate two-index block Green functions

---
 c++/triqs/gfs/block/expr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..33b08fe 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -107,10 +107,14 @@ namespace triqs {
       using mesh_t   = typename L_t::mesh_t;
       using target_t = typename L_t::target_t;
 
+      static constexpr int arity = L_t::arity;
+
       L l;
       template <typename LL> bgf_unary_m_expr(LL &&l_) : l(std::forward<LL>(l_)) {}
 
       auto size() const { return l.size(); }
+      auto size1() const { return l.size1(); }
+      auto size2() const { return l.size2(); }
       auto block_names() const { return l.block_names(); }
 
       template <typename... Keys> auto operator[](Keys &&...keys) const { return -l.operator[](std::forward<Keys>(keys)...); } // Clang fix
-- 
2.43.0


From 323e57958a2f996cf51ade52c703cb22670a9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 110/131] fix: mpi reduction of two-index block Green functions

---
 c++/triqs/gfs/block/block_gf.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index a834b27..5d3beba 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -173,7 +173,7 @@ namespace triqs::gfs {
 
     /// Construct from the mpi lazy class of the implementation class, cf mpi section
     // NB : type must be the same, e.g. g2(reduce(g1)) will work only if mesh, Target, Singularity are the same...
-    template <typename Tag> block_gf(mpi::lazy<Tag, block_gf_const_view<Mesh, Target>> x) : block_gf() { operator=(x); }
+    template <typename Tag> block_gf(mpi::lazy<Tag, block_gf_const_view<Mesh, Target, Arity>> x) : block_gf() { operator=(x); }
 
     /// Construct from a vector of gf
     block_gf(data_t V)
@@ -252,10 +252,15 @@ namespace triqs::gfs {
     block_gf &operator=(mpi::lazy<mpi::tag::reduce, block_gf::const_view_type> l) {
 
       _block_names = l.rhs.block_names();
-      _glist       = mpi::reduce(l.rhs.data(), l.c, l.root, l.all, l.op);
-
+      if constexpr (Arity == 1) {
+        // reduce of vector produces a new vector of gf, so it is fine here
+        _glist = mpi::reduce(l.rhs.data(), l.c, l.root, l.all, l.op);
+      } else {
+        data_t glist;
+        for (auto const &x : l.rhs.data()) glist.push_back(mpi::reduce(x, l.c, l.root, l.all, l.op));
+        _glist = std::move(glist);
+      }
       return *this;
-      // reduce of vector produces a new vector of gf, so it is fine here
     }
 
     /**
-- 
2.43.0


From 75ea851a3891562f8b351e4e0f25662ca04743a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 111/131] fix: refuse expressions of block Green functions with
 different numbers of blocks

---
 c++/triqs/gfs/block/expr.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 33b08fe..8e60b55 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -76,7 +76,16 @@ namespace triqs {
 
       L l;
       R r;
-      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
+      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {
+        if constexpr (arity_of<L_t> == arity_of<R_t>) {
+          bool same = true;
+          if constexpr (arity == 2)
+            same = (l.size1() == r.size1() and l.size2() == r.size2());
+          else
+            same = (l.size() == r.size());
+          if (not same) TRIQS_RUNTIME_ERROR << "Block Green functions expression: the operands have different numbers of blocks";
+        }
+      }
 
       auto size() const { return std::max(l.size(), r.size()); }
       auto size1() const { return std::max(l.size1(), r.size1()); }
-- 
2.43.0


From 2ea2e9e8ae915468da34fab409bfffb8ca5de062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 112/131] fix: refuse assignments to block views of a different
 number of blocks

---
 c++/triqs/gfs/block/block_gf_view.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index efaa3c3..ee18d5e 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -55,6 +55,16 @@ namespace triqs::gfs {
     struct impl_tag {};
     template <typename G> block_gf_view(impl_tag, G &&x) : _block_names(x.block_names()), _glist(factory<data_t>(x.data())), name(x.name) {}
 
+    // The right hand side of an assignment must have the same number of blocks
+    template <typename RHS> void _check_size(RHS const &rhs) const {
+      if constexpr (Arity == 1) {
+        if (size() != rhs.size()) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size " << size() << " vs " << rhs.size();
+      } else {
+        if (size1() != rhs.size1() or size2() != rhs.size2())
+          TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size " << size1() << " x " << size2() << " vs " << rhs.size1() << " x " << rhs.size2();
+      }
+    }
+
     public:
     /// Copy constructor
     block_gf_view(block_gf_view const &x) = default;
@@ -100,6 +110,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(block_gf_view const &rhs)
       requires(not IsConst)
     {
+      _check_size(rhs);
       _assign_impl(rhs);
       return *this;
     }
@@ -112,7 +123,7 @@ namespace triqs::gfs {
       requires(not IsConst)
     {
       if constexpr (not nda::is_scalar_v<RHS>) {
-        if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+        _check_size(rhs);
         _assign_impl(rhs);
       } else {
         if constexpr (Arity == 1) {
@@ -134,6 +145,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(lazy_transform_t<L, G> const &rhs)
       requires(not IsConst)
     {
+      _check_size(rhs.value);
       if constexpr (Arity == 1) {
         for (int i = 0; i < rhs.value.size(); ++i) (*this)[i] = rhs.lambda(rhs.value[i]);
       } else {
@@ -151,8 +163,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(mpi::lazy<mpi::tag::reduce, const_view_type> l)
       requires(not IsConst)
     {
-      if (l.rhs.size() != this->size())
-        TRIQS_RUNTIME_ERROR << "mpi reduction of block_gf : size of RHS is incompatible with the size of the view to be assigned to";
+      _check_size(l.rhs);
       _block_names = l.rhs.block_names();
       if constexpr (Arity == 1) {
         for (int i = 0; i < size(); ++i) _glist[i] = mpi::reduce(l.rhs.data()[i], l.c, l.root, l.all, l.op);
-- 
2.43.0


From d192286adc19d89f456e4fab18408db609ec9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 113/131] fix: refuse two-index block Green functions with rows
 of different lengths

---
 c++/triqs/gfs/block/block_gf.hpp      | 4 ++--
 c++/triqs/gfs/block/block_gf_view.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index 5d3beba..83f4dfe 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -149,8 +149,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &row : _glist)
+          if (row.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index ee18d5e..5685ffa 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -80,8 +80,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &row : _glist)
+          if (row.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
-- 
2.43.0


From a0ba08195d4bcbe305afd8948ad51873182ddb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 114/131] fix: size2 of an empty two-index block Green function

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index d2f6c73..0f1037e 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -45,7 +45,7 @@ int size1() const
 int size2() const
   requires(Arity == 2)
 {
-  return _glist.at(0).size();
+  return _glist.empty() ? 0 : _glist[0].size();
 }
 int size() const {
   if constexpr (Arity == 1) {
-- 
2.43.0


From e0b2f96c713a2053ead7fe74b25d74ac7c718398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 115/131] fix: cbegin and cend of block Green functions

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index 0f1037e..4a21be2 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -269,5 +269,5 @@ iterator begin() { return {*this, false}; }
 const_iterator begin() const { return {*this, false}; }
 iterator end() { return {*this, true}; }
 const_iterator end() const { return {*this, true}; }
-auto cbegin() { return const_view_type(*this).begin(); }
-auto cend() { return const_view_type(*this).end(); }
+const_iterator cbegin() const { return begin(); }
+const_iterator cend() const { return end(); }
-- 
2.43.0


From 1df82bb53a757a9740ef22e1297ece76fea8810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 116/131] fix: keep the message of a copied exception

---
 c++/triqs/utility/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/utility/exceptions.hpp b/c++/triqs/utility/exceptions.hpp
index 002948e..1befbbf 100644
--- a/c++/triqs/utility/exceptions.hpp
+++ b/c++/triqs/utility/exceptions.hpp
@@ -45,7 +45,7 @@ namespace triqs {
 
     public:
     exception() throw() : std::exception() {} // _trace = utility::stack_trace(); }
-    exception(exception const &e) throw() : acc(e.acc.str()), _trace(e._trace), _what(e._what) {}
+    exception(exception const &e) throw() : _trace(e._trace), _what(e._what) { acc << e.acc.str(); }
     virtual ~exception() throw() {}
     template <typename T> exception &operator<<(T const &x) {
       acc << x;
-- 
2.43.0


From f87136e136af37973949f1df9fde6d22388e4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 117/131] fix: compile crash_logger and let it be moved

---
 c++/triqs/utility/crash_logger.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/crash_logger.hpp b/c++/triqs/utility/crash_logger.hpp
index 784de66..8ed3b3a 100644
--- a/c++/triqs/utility/crash_logger.hpp
+++ b/c++/triqs/utility/crash_logger.hpp
@@ -64,6 +64,7 @@ namespace triqs {
       crash_logger &operator=(const crash_logger &) = delete;
       crash_logger &operator=(crash_logger &&x) {
         using std::swap;
+        swap(filename_, x.filename_);
         swap(guards, x.guards);
         swap(names, x.names);
         return *this;
@@ -71,10 +72,10 @@ namespace triqs {
       ///
       template <typename Obj> crash_logger &operator()(Obj const &obj, std::string name) {
         names.push_back(name);
-        guards.emplace_back([&obj, this, name]() {
+        guards.emplace_back([&obj, filename = filename_, name]() {
           using h5::h5_write; // to have the proper overload for scalar type !!
           try {
-            h5_write(h5::group(h5::file(this->filename_.c_str(), 'a')), name, obj);
+            h5_write(h5::group(h5::file(filename.c_str(), 'a')), name, obj);
           } catch (...) {
             std::cerr << "An exception has occurred in crash_logger for an object of type " << typeid_name(obj) << " named " << name << std::endl;
           }
@@ -82,7 +83,7 @@ namespace triqs {
         return *this;
       }
       ///
-      ~crash_logger() noexcept() {
+      ~crash_logger() noexcept {
         if ((guards.size() > 0) && (guards.front().active())) {
           std::cerr << "crash_logger : I am destroyed without being dismissed. Dumping the objects : ";
           for (auto &x : names) std::cerr << "\"" << x << "\" ";
-- 
2.43.0


From dd574def9142caac64023652fcd6bb8128292148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 118/131] fix: refuse a Block2Gf whose block names are not
 strings in its conversion to C++

---
 c++/triqs/cpp2py_converters/gf.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/cpp2py_converters/gf.hpp b/c++/triqs/cpp2py_converters/gf.hpp
index 8e629a1..0460a37 100644
--- a/c++/triqs/cpp2py_converters/gf.hpp
+++ b/c++/triqs/cpp2py_converters/gf.hpp
@@ -285,7 +285,13 @@ namespace cpp2py {
 
       pyref x   = borrowed(ob);
       pyref gfs = x.attr("_Block2Gf__GFlist");
-      return py_converter<std::vector<std::vector<gf_view_type>>>::is_convertible(gfs, raise_exception);
+      if (!py_converter<std::vector<std::vector<gf_view_type>>>::is_convertible(gfs, raise_exception)) return false;
+
+      // check the block names
+      pyref names1 = x.attr("_Block2Gf__indices1");
+      pyref names2 = x.attr("_Block2Gf__indices2");
+      return py_converter<std::vector<std::string>>::is_convertible(names1, raise_exception)
+         and py_converter<std::vector<std::string>>::is_convertible(names2, raise_exception);
     }
 
     // ----------------------------------------------
-- 
2.43.0


From 09ef493ae65ee41c06f7e7c47881312bca669864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 119/131] fix: refuse a string without UTF-8 representation as
 a particle statistic

---
 c++/triqs/cpp2py_converters/mesh.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/cpp2py_converters/mesh.hpp b/c++/triqs/cpp2py_converters/mesh.hpp
index 8848dce..4242ce0 100644
--- a/c++/triqs/cpp2py_converters/mesh.hpp
+++ b/c++/triqs/cpp2py_converters/mesh.hpp
@@ -62,7 +62,13 @@ namespace cpp2py {
         if (raise_exception) PyErr_SetString(PyExc_ValueError, "Convertion of C++ enum statistic_enum : the object is not a string");
         return false;
       }
-      std::string s = PyUnicode_AsUTF8(ob);
+      const char *str = PyUnicode_AsUTF8(ob);
+      if (str == nullptr) { // not representable, e.g. a lone surrogate
+        PyErr_Clear();
+        if (raise_exception) PyErr_SetString(PyExc_ValueError, "Convertion of C++ enum statistic_enum : the string is not in [Fermion,Boson]");
+        return false;
+      }
+      std::string s = str;
       if (s == "Fermion") return true;
       if (s == "Boson") return true;
       if (raise_exception) {
-- 
2.43.0


From 98dd84c7f64392a1e0b7f4d8e182fe2e020c5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 120/131] fix: set an error when the conversion to all_t is
 refused

---
 c++/triqs/cpp2py_converters/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/cpp2py_converters/mesh.hpp b/c++/triqs/cpp2py_converters/mesh.hpp
index 4242ce0..3ab8d7d 100644
--- a/c++/triqs/cpp2py_converters/mesh.hpp
+++ b/c++/triqs/cpp2py_converters/mesh.hpp
@@ -37,7 +37,9 @@ namespace cpp2py {
 
     static bool is_convertible(PyObject *ob, bool raise_exception) {
       pyref all = pyref::get_class("builtins", "all", true);
-      return (all == ob);
+      if (all == ob) return true;
+      if (raise_exception) PyErr_SetString(PyExc_TypeError, "Cannot convert to triqs::mesh::all_t : the object is not the builtin all");
+      return false;
     }
 
     static triqs::mesh::all_t py2c(PyObject *ob) { return {}; }
-- 
2.43.0


From c5810422e69216eec9b90f57359879c078c93355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 121/131] fix: check the attributes of Matsubara frequencies
 and lattice points before converting them to C++

---
 c++/triqs/cpp2py_converters/mesh.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/cpp2py_converters/mesh.hpp b/c++/triqs/cpp2py_converters/mesh.hpp
index 3ab8d7d..83bc345 100644
--- a/c++/triqs/cpp2py_converters/mesh.hpp
+++ b/c++/triqs/cpp2py_converters/mesh.hpp
@@ -112,7 +112,17 @@ namespace cpp2py {
     static bool is_convertible(PyObject *ob, bool raise_exception) {
       pyref cls = pyref::get_class("triqs.gf", "MatsubaraFreq", true);
       if (not pyref::check_is_instance(ob, cls, raise_exception)) return false;
-      return true;
+
+      // check the attributes
+      pyref x    = borrowed(ob);
+      auto check = [&](const char *name, bool (*is_conv)(PyObject *, bool)) {
+        pyref a = x.attr(name);
+        if (not a.is_null()) return is_conv(a, raise_exception);
+        if (not raise_exception) PyErr_Clear();
+        return false;
+      };
+      return check("n", py_converter<long>::is_convertible) and check("beta", py_converter<double>::is_convertible)
+         and check("statistic", py_converter<triqs::mesh::statistic_enum>::is_convertible);
     }
 
     // ----------------------------------------------
@@ -154,7 +164,11 @@ namespace cpp2py {
     static bool is_convertible(PyObject *ob, bool raise_exception) {
       pyref cls = pyref::get_class("triqs.lattice", "LatticePoint", true);
       if (not pyref::check_is_instance(ob, cls, raise_exception)) return false;
-      return true;
+
+      // check the index
+      pyref x     = borrowed(ob);
+      pyref index = x.attr("index");
+      return py_converter<std::array<long, 3>>::is_convertible(index, raise_exception);
     }
 
     // ----------------------------------------------
-- 
2.43.0


From 822b34a568706e4f128665183b60d2e92a2762dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 122/131] fix: porting tool ports every file outside of .git,
 and keeps line ends and bytes which are not text

---
 porting_tools/port_to_triqs3 | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/porting_tools/port_to_triqs3 b/porting_tools/port_to_triqs3
index 5f7e829..c757152 100755
--- a/porting_tools/port_to_triqs3
+++ b/porting_tools/port_to_triqs3
@@ -5,8 +5,8 @@ import os
 import glob
 import re
 
-# Ignore these files
-ignore_lst = [".git/", "port.py"]
+# Ignore these files and directories
+ignore_lst = [".git", "port.py"]
 
 repl_dict = {
         "pytriqs": "triqs",
@@ -109,6 +109,9 @@ port_root = os.getcwd()
 # Recurse over all subdirectories and files
 for root, dirs, files in os.walk(port_root):
 
+    # Do not enter the ignored directories
+    dirs[:] = [d for d in dirs if d not in ignore_lst]
+
     for fname in files:
         # Make sure that one of the file endings matches
         if not any([fname.endswith(ending) for ending in file_endings]):
@@ -117,20 +120,23 @@ for root, dirs, files in os.walk(port_root):
         # Make path absolute
         fpath = os.path.join(root, fname)
 
-        # Ignore certain files / directories
-        if any(it in fpath for it in ignore_lst):
+        # Ignore certain files
+        if fname in ignore_lst:
             continue
 
         if os.path.isfile(fpath):
 
-            # Replace port and APP4TRIQS in all files
-            with open(fpath, 'r') as f:
+            # Keep the line ends and any byte that is not utf-8 as they are
+            with open(fpath, 'r', encoding='utf-8', errors='surrogateescape') as f:
                 s = f.read()
+                newline = f.newlines if isinstance(f.newlines, str) else None
+            ported = s
 
             # Execute all replacements
             for old, new in list(repl_dict.items()):
-                s = re.sub(old, new, s)
+                ported = re.sub(old, new, ported)
 
             # Write the updated file
-            with open(fpath, 'w') as f:
-                f.write(s)
+            if ported != s:
+                with open(fpath, 'w', encoding='utf-8', errors='surrogateescape', newline=newline) as f:
+                    f.write(ported)
-- 
2.43.0


From 1f21cee392ff4aa34c8aac0dd152a4f621be4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 123/131] fix: rules of the porting tool reach the text they
 are written for, and nothing else

---
 porting_tools/port_to_triqs3 | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/porting_tools/port_to_triqs3 b/porting_tools/port_to_triqs3
index c757152..59b18de 100755
--- a/porting_tools/port_to_triqs3
+++ b/porting_tools/port_to_triqs3
@@ -11,15 +11,15 @@ ignore_lst = [".git", "port.py"]
 repl_dict = {
         "pytriqs": "triqs",
         "triqs\.gf\.local": "triqs.gf",
+        r"triqs\.archive\.hdf_archive\b": "h5.archive",
         "triqs\.archive": "h5",
-        "triqs\.archive\.hdf_archive": "h5.archive",
         "hdf_archive_schemes": "formats",
         "set_from_inverse_fourier": "set_from_fourier",
         "make_gf_from_inverse_fourier": "make_gf_from_fourier",
         "InverseFourier": "Fourier",
         "triqs::h5": "h5",
         "triqs/h5/serialization\.hpp": "h5/serialization.hpp",
-        "triqs/h5.*\.hpp": "h5/h5.hpp",
+        r"triqs/h5[^\s>\"]*\.hpp": "h5/h5.hpp",
         "triqs/utility/variant\.hpp": "variant",
         "<cpp2py.hpp>": "<cpp2py/cpp2py.hpp>",
         "hdf5_scheme": "hdf5_format",
@@ -46,7 +46,7 @@ repl_dict = {
         "gf_mesh{": "mesh::prod{",
         "gf_mesh<(.+?)>": r"mesh::\1", # really necessary?
         "matsubara_mesh_opt": "imfreq::option",
-        "get_dimensions()": "dims()",
+        "get_dimensions\(\)": "dims()",
         "locate_neighbours": "closest_index",
         "linear_dims": "dims",
         "latt_to_real_x": "lattice_to_real_coordinates",
@@ -59,6 +59,7 @@ repl_dict = {
         "#include <triqs/arrays.hpp>": "#include <nda/nda.hpp>",
         "#include <triqs/arrays/array.hpp>": "#include <nda/nda.hpp>",
         "#include <triqs/arrays/linalg.*?.hpp>": "#include <nda/linalg.hpp>",
+        "#include <triqs/arrays/blas_lapack/dot.hpp>": "#include <nda/blas/dot.hpp>",
         "#include <triqs/arrays/": "#include <nda/",
         "clef/clef.hpp>": "clef.hpp>",
         "TRIQS_CLEF_": "CLEF_",
@@ -68,12 +69,11 @@ repl_dict = {
         "triqs::blas_lapack": "nda::blas_lapack",
         "triqs::utility::mini_vector": "std::array",
         "mini_vector": "std::array",
-        "first_dim\((.*?\(.*?\))\)": r"\1.shape()[0]",
-        "second_dim\((.*?\(.*?\))\)": r"\1.shape()[1]",
-        "first_dim\((.*?)\)": r"\1.shape()[0]",
-        "second_dim\((.*?)\)": r"\1.shape()[1]",
+        "first_dim\(([^()]*\([^()]*\))\)": r"\1.shape()[0]",
+        "second_dim\(([^()]*\([^()]*\))\)": r"\1.shape()[1]",
+        "first_dim\(([^()]*)\)": r"\1.shape()[0]",
+        "second_dim\(([^()]*)\)": r"\1.shape()[1]",
         "data_start\(\)": "data()",
-        "#include <triqs/arrays/blas_lapack/dot.hpp>": "#include <nda/blas/dot.hpp>",
         "#include <triqs/arrays/linalg/eigenelements.hpp>": "#include <nda/linalg/eigenelements.hpp>",
         "make_unit_matrix<": "nda::eye<",
         "triqs::arrays::dot": "nda::blas::dot",
@@ -87,7 +87,7 @@ repl_dict = {
         "\.linear_index\(\)": ".data_index()",
         "\.linear_index": ".data_index",
         "is_product_v": "is_product",
-        "for *\( *auto *(?:const)? *& *(.*?) *: *(.*?)mesh(.*?)\)": r"for (auto \1 : \2mesh\3)",
+        "for *\( *auto *(?:const)? *& *(\w+) *: *((?:[^();\n]|\([^()\n]*\)|\()*?)mesh(.*?)\)": r"for (auto \1 : \2mesh\3)",
         "h5_try_read": "h5::try_read",
         "x_min\(\)": "t_min()",
         "x_max\(\)": "t_max()",
-- 
2.43.0


From b58b338735bdd56c917193f28b322c03187c94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 124/131] fix: discretising a hybridisation leaves it
 unchanged, and works for scalar ones without a guess

---
 python/triqs/gf/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 4c9b7e7..3554b74 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -403,8 +403,8 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
     if isinstance(delta_in.mesh, MeshImFreq):
         assert delta_in.is_gf_real_in_tau()
 
-    # enforce hermiticity
-    delta_in << make_hermitian(delta_in)
+    # enforce hermiticity, on a copy
+    delta_in = make_hermitian(delta_in)
 
     def unflatten(x):
         # first half of parameters are hoppings, second half are bath energies
@@ -457,7 +457,7 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         else:
             leading_moment = -delta_in.data[0, ...]-delta_in.data[-1, ...]
         # obtain guess from cholesky decomposition of 1st moment (tail[1])
-        chol = np.linalg.cholesky(leading_moment)
+        chol = np.linalg.cholesky(np.reshape(leading_moment, (n_orb, n_orb)))
         # chol always returns complex arrays
         if not cmplx:
             chol = chol.real
-- 
2.43.0


From 4643ef52742c9512562ca02dac52cbe3b7d40c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 125/131] fix: h5diff compares numbers and operators with the
 requested precision

---
 python/triqs/utility/h5diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index cf6f5c0..b05f35d 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -54,7 +54,7 @@ def compare(key, a, b, level, precision):
             assert_block2_gfs_are_close(a,b,precision)
 
         elif t in [Operator]:
-            assert (a-b).is_zero(), "Many body operators not equal"
+            assert all(abs(coef) < precision for _, coef in a-b), "Many body operators not equal"
 
         # elif t in [BlockMatrix]:
             # for i in range(len(a.matrix_vec)):
@@ -66,7 +66,7 @@ def compare(key, a, b, level, precision):
             assert_arrays_are_close(a,b,precision)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
+            assert abs(a-b) < precision, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From 0edd667a862ab7c6f753e8a4f8482619b6fa3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 126/131] fix: invert in place a Gf whose data are not
 contiguous

---
 python/triqs/gf/gf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index c42c776..2f1090a 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -600,9 +600,10 @@ class Gf(metaclass=AddMethod):
         elif self.target_rank == 2: # Matrix target space
             # TODO: Replace by np.linag.inv, since v1.8
             # Cf https://docs.scipy.org/doc/numpy/reference/generated/numpy.reshape.html
-            d = self.data.view()
-            d.shape = (np.prod(d.shape[:-2]),) + d.shape[-2:] # reshaped view, guarantee no copy
+            # A view if the data are contiguous, a copy otherwise (e.g. a slice of a multivariable function)
+            d = self.data.reshape((np.prod(self.data.shape[:-2], dtype=int),) + self.data.shape[-2:])
             wrapped_aux._gf_invert_data_in_place(d)
+            self.data[...] = d.reshape(self.data.shape)
         else:
             raise TypeError(
                 "Inversion only makes sense for matrix or scalar_valued Greens functions")
-- 
2.43.0


From 5a24c6fb47000b05d2f079d1a2e1adb25cdabef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 127/131] fix: transpose the target indices of a Gf of several
 variables

---
 c++/triqs/gfs/functions/functions2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/functions2.hpp b/c++/triqs/gfs/functions/functions2.hpp
index 0c5b562..8055722 100644
--- a/c++/triqs/gfs/functions/functions2.hpp
+++ b/c++/triqs/gfs/functions/functions2.hpp
@@ -268,7 +268,10 @@ namespace triqs::gfs {
   *                      Transpose. Create a NEW gf
   *-----------------------------------------------------------------------------------------------------*/
 
-  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) { return {g.mesh(), nda::transposed_view<1, 2>(g.data())}; }
+  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) {
+    constexpr int R = gf_view<M, matrix_valued>::data_rank; // the target indices are the last two
+    return {g.mesh(), nda::transposed_view<R - 2, R - 1>(g.data())};
+  }
 
   /*------------------------------------------------------------------------------------------------------
   *                      Conjugate
-- 
2.43.0


From 3315d4a54575258a45bcb7a5a4c8c38913b8fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 128/131] fix: report archive groups with different keys in
 h5diff

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index b05f35d..02d6665 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -39,7 +39,7 @@ def compare(key, a, b, level, precision):
         if t == dict or isinstance(a, HDFArchiveGroup) :
             if list(a.keys()) != list(b.keys()):
                 failures.append("Two archive groups '%s' with different keys \n %s \n vs\n %s"%(key,list(a.keys()), list(b.keys())))
-            for k in a.keys():
+            for k in [k for k in a.keys() if k in b.keys()]:
                 compare(key + '/'+ k, a[k], b[k], level + 1, precision)
 
         # The TRIQS object which are comparable starts here ....
-- 
2.43.0


From f150b6ed6b01085c02a574e8267083f05e272b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:08 +0000
Subject: [PATCH 129/131] fix: closeness assertion refuses data of different
 shapes and NaN

---
 c++/triqs/gfs/gf_tests.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/gf_tests.hpp b/c++/triqs/gfs/gf_tests.hpp
index 4d71377..6256262 100644
--- a/c++/triqs/gfs/gf_tests.hpp
+++ b/c++/triqs/gfs/gf_tests.hpp
@@ -18,6 +18,7 @@
 // Authors: Michel Ferrero, Olivier Parcollet, Nils Wentzell
 
 #pragma once
+#include <algorithm>
 
 namespace triqs {
   namespace gfs {
@@ -25,10 +26,14 @@ namespace triqs {
     // check gfs are close
     template <typename X, typename Y> void assert_gfs_are_close(X const &x, Y const &y, double precision) {
 
-      // meshes must be identical and data close
+      // meshes and target shapes must be identical and data close
       if (x.mesh() != y.mesh()) TRIQS_RUNTIME_ERROR << "GFs have different meshes\n -- 1st Mesh \n" << x.mesh() << "\n -- 2nd Mesh \n" << y.mesh();
-      if (max_element(abs(x.data() - y.data())) > precision)
-        TRIQS_RUNTIME_ERROR << "Gfs have different data. max(abs(x-y)) = " << max_element(abs(x.data() - y.data()));
+      if (x.data().shape() != y.data().shape())
+        TRIQS_RUNTIME_ERROR << "Gfs have data of different shapes : " << x.data().shape() << " vs " << y.data().shape();
+      auto const diff = nda::make_regular(abs(x.data() - y.data()));
+      // written such that a NaN is not close to anything
+      if (!std::all_of(diff.begin(), diff.end(), [precision](double d) { return d <= precision; }))
+        TRIQS_RUNTIME_ERROR << "Gfs have different data. max(abs(x-y)) = " << max_element(diff);
     }
 
     // check block gfs are close
-- 
2.43.0


From f460c68d1259245892c6589aa38f268e69025db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:55 +0000
Subject: [PATCH 130/131] fix: hilbert_space::get_fock_state: shift a 64-bit
 one, valid for all modes

---
 c++/triqs/hilbert_space/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 85e5560..3332eb8 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -107,7 +107,7 @@ namespace triqs {
  */
       fock_state_t get_fock_state(fundamental_operator_set const &fops, std::set<fundamental_operator_set::indices_t> const &indices) const {
         fock_state_t f = 0;
-        for (auto const &index : indices) f += 1 << fops[index];
+        for (auto const &index : indices) f += fock_state_t(1) << fops[index];
         return f;
       }
 
-- 
2.43.0


From 3f8a08951d00a0e901fdcff326ad23610d4d90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:55 +0000
Subject: [PATCH 131/131] fix: many_body_operator: normal order the monomial
 given to the constructor

---
 c++/triqs/operators/many_body_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 1f78f86..fcaa452 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -134,7 +134,7 @@ namespace triqs {
 
       many_body_operator_generic(scalar_t const &x, monomial_t monomial) {
         using triqs::utility::is_zero;
-        if (!is_zero(x)) monomials.emplace(std::move(monomial), x);
+        if (!is_zero(x)) normalize_and_insert(std::move(monomial), x, monomials);
       }
 
       struct _cdress;
-- 
2.43.0

