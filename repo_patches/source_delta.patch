From f5cc52356eafe19128034b22e2e2ba6145e112a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 01/28] fix: fall back to gesvd when the constraint SVD does
 not converge

jax reports LAPACK gesdd non-convergence as nans, which silently became an
all-nan equivariant basis (e.g. T(4) of Cube()).
---
 emlp/reps/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..f781a5a 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -3,6 +3,7 @@ import jax
 import jax.numpy as jnp
 from jax import jit, device_put,vmap
 import optax
+from scipy.linalg import svd
 from sklearn.cluster import KMeans
 from tqdm.auto import tqdm
 from .linear_operator_base import LinearOperator, Lazy
@@ -304,6 +305,8 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if jnp.isnan(S).any(): # LAPACK gesdd did not converge (jax returns nans), gesvd is slower but reliable
+        _,S,VH = map(jnp.asarray,svd(np.asarray(proj),full_matrices=True,lapack_driver='gesvd'))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From 576cbf739b913b656139fdaa9d70c927222179ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 02/28] fix: keep the multiplicities of LazyDirectSum in its
 adjoint and inverse transpose

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..4c90b5e 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -137,8 +137,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
+                      sum(Mi.shape[-1]*c for Mi,c in zip(Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -149,9 +149,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([lazify(M).invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 35d1806bc93ba23a07e95309fd2f5565a9dcdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 03/28] fix: invT of sums, scalings and kronecker products of
 dense matrices is the inverse transpose

---
 emlp/reps/linear_operator_base.py | 4 ++--
 emlp/reps/linear_operators.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..a5333ee 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -556,7 +556,7 @@ class _SumLinearOperator(LinearOperator):
 
     def invT(self):
         A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +623,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 4c90b5e..00d1b7e 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -50,7 +50,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([Mi.T for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([lazify(M).invT() for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
-- 
2.43.0


From 1fcfda0ec38b5f9afb5b6054ef24cada62bfbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 04/28] fix: adjoints of lazy operators conjugate complex
 entries

---
 emlp/reps/linear_operator_base.py | 4 ++--
 emlp/reps/linear_operators.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index a5333ee..e92f6c8 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -727,9 +727,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return np.conj(self.A).T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return np.conj(self.A).T@v
     def to_dense(self):
         return self.A
     def invT(self):
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 00d1b7e..188a852 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -48,7 +48,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([lazify(Mi).H for Mi in self.Ms])
     def invT(self):
         return LazyKron([lazify(M).invT() for M in self.Ms])
     def to_dense(self):
@@ -85,7 +85,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([lazify(Mi).H for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -128,7 +128,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([lazify(self.Ms[i]).H@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -149,7 +149,7 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
+        return LazyDirectSum([lazify(Mi).H for Mi in self.Ms],self.multiplicities)
     def invT(self):
         return LazyDirectSum([lazify(M).invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
-- 
2.43.0


From e4109e731ee43ab32a9a4bd71527f2182577f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 05/28] fix: transposes of Rot90, LazyJVP and ConcatLazy on
 vectors, SwapMatrix on current jax

---
 emlp/reps/linear_operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 188a852..f4c7850 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -112,6 +112,8 @@ class LazyJVP(LinearOperator):
         return self.vjp(v)
     def _rmatmat(self,v):
         return self.vjp_T(v)
+    def _rmatvec(self,v):
+        return self.vjp_T(v)
     
 
 class ConcatLazy(LinearOperator):
@@ -129,6 +131,8 @@ class ConcatLazy(LinearOperator):
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
         return sum([lazify(self.Ms[i]).H@Vs[i] for i in range(len(self.Ms))])
+    def _rmatvec(self,v):
+        return self._rmatmat(v)
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -210,8 +214,8 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
-        return V
+        rows = np.asarray(self.swaprows)
+        return jnp.asarray(V).at[rows].set(V[rows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
@@ -229,5 +233,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
         return self
\ No newline at end of file
-- 
2.43.0


From 1c0a1f830510a8941bb13d2d7c45cba448fb3109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 06/28] fix: sums and products over several groups no longer
 depend on the hash order of the groups

---
 emlp/reps/product_sum_reps.py | 14 +++++++++-----
 emlp/reps/representation.py   |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..19daf6d 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -114,17 +114,21 @@ class SumRep(Rep):
         unique_reps = sorted(reduce(lambda a,b: a|b,[cnter.keys() for cnter in rep_cnters]))
         merged_cnt = defaultdict(int)
         permlist = []
-        ids = [0]*len(rep_cnters)
         shifted_perms = []
         n=0
         for perm in rep_perms:
             shifted_perms.append(n+perm)
             n+=len(perm)
+        # Where each rep starts within each of the summands (which need not be ordered like unique_reps)
+        starts = []
+        for cnter in rep_cnters:
+            ends = np.cumsum([0]+[c*rep.size() for rep,c in cnter.items()])
+            starts.append(dict(zip(cnter,ends)))
         for rep in unique_reps:
-            for i in range(len(ids)):
-                c = rep_cnters[i].get(rep,0)
-                permlist.append(shifted_perms[i][ids[i]:ids[i]+c*rep.size()])
-                ids[i]+=+c*rep.size()
+            for i,start in enumerate(starts):
+                if rep not in start: continue
+                c = rep_cnters[i][rep]
+                permlist.append(shifted_perms[i][start[rep]:start[rep]+c*rep.size()])
                 merged_cnt[rep]+=c
         return dict(merged_cnt),np.concatenate(permlist)
     def __iter__(self):  # not a great idea to use this method (ignores permutation ordering)
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index f781a5a..e85ae7d 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -258,7 +258,7 @@ class Base(Rep):
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
     def __lt__(self,other):
-        if isinstance(other,Dual): return True
+        if isinstance(other,Dual) and other.rep==self: return True
         return super().__lt__(other)
     # @property
     # def T(self):
-- 
2.43.0


From e2856903a2128543014bb1b159a0abca580b781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 07/28] fix: the dihedral group D(1) is not a permutation group

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..8a38288 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,7 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_permutation = False # super() has only seen the rotation (the identity for k=1)
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From 36aa022ad722b847ff8c363235f7f9a066e7547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 08/28] fix: SU(1) can be constructed

---
 emlp/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 8a38288..1e51de9 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -328,7 +328,9 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
+        if n==1: # SU(1) is the trivial group
+            self.d = 1
+            return super().__init__(n)
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From 7231baa78fa1fa0663398c48c67bedf8113f1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 09/28] fix: groups with different arguments are not mistaken
 for each other

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 1e51de9..b158acc 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From 386f9edafe6ac6cc2318d1e70ad9414ee86cee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 10/28] fix: Embed keeps complex and lazy generators and tells
 different slices apart

---
 emlp/groups.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index b158acc..3343df7 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -435,12 +435,14 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
-        self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        A_dense = np.array([Ai@jnp.eye(G.d) for Ai in G.lie_algebra]).reshape(-1,G.d,G.d)
+        h_dense = np.array([hi@jnp.eye(G.d) for hi in G.discrete_generators]).reshape(-1,G.d,G.d)
+        self.lie_algebra = np.zeros((len(A_dense),d,d),dtype=A_dense.dtype)
+        self.discrete_generators = np.zeros((len(h_dense),d,d),dtype=h_dense.dtype)
+        self.discrete_generators += np.eye(d,dtype=h_dense.dtype)
+        self.lie_algebra[:,slice,slice] = A_dense
+        self.discrete_generators[:,slice,slice]  =h_dense
+        self.name = f"{G}_R{d}{list(range(d))[slice]}"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 267528223d861c03b88c4cddc13f83940b8b5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 11/28] fix: hidden representations of an EMLP that are not
 sums, or sums in non canonical order

---
 emlp/nn/objax.py              | 4 ++--
 emlp/reps/product_sum_reps.py | 3 +--
 emlp/reps/representation.py   | 3 ++-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..2c6b865 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -333,12 +333,12 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep.is_permutation else np.full(channels,channels)
 
+    perm = ch_rep.perm
     num_nonscalars = 0
     i=0
     for rep in ch_rep:
diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 19daf6d..cd9589c 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,10 +41,9 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index e85ae7d..a000099 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -420,8 +420,9 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    in_rep,out_rep = [rep if isinstance(rep,SumRep) else SumRep(rep) for rep in (in_rep,out_rep)]
     W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
     x_rep=in_rep
-- 
2.43.0


From 1d061738662644538033c9cad07595414d13cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 12/28] fix: the pytorch EMLP and MLP can be wrapped in
 Standardize

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..30276db 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -163,7 +163,7 @@ class EMLP(nn.Module):
             *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
             Linear(reps[-1],self.rep_out)
         )
-    def forward(self,x):
+    def forward(self,x,training=True):
         return self.network(x)
 
 class Swish(nn.Module):
@@ -189,7 +189,7 @@ class MLP(nn.Module):
             nn.Linear(chs[-1],cout)
         )
 
-    def forward(self,x):
+    def forward(self,x,training=True):
         y = self.net(x)
         return y
 
-- 
2.43.0


From 846d1cd4d50c33a568b1bde134e7fb0dbe22f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 13/28] fix: GroupAugmentation of a model

---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0405843 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in if rep_in.concrete else rep_in(group)
+        self.rep_out=rep_out if rep_out.concrete else rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From 8881b5278ce57ed611fb1f773cd93030292588aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 14/28] fix: kronecker products with empty equivariant bases
 can be applied

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index f4c7850..a35ad48 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -41,10 +41,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],product((1,)+v.shape[1:]))
         for i,M in enumerate(self.Ms):
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product((1,)+ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
@@ -76,11 +76,11 @@ class LazyKronsum(LinearOperator):
         return self._matmat(v).reshape(-1)
 
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],product((1,)+v.shape[1:]))
         out = 0*ev
         for i,M in enumerate(self.Ms):
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product((1,)+ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             out += jnp.moveaxis(Mev_front,0,i)
         return out.reshape(self.shape[0],ev.shape[-1])
         
-- 
2.43.0


From e3c47e07a25dbc9a6150e4661d0e1f6d50ddbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 15/28] fix: the RubiksCube generators are quarter turns of a
 Rubik's cube

---
 emlp/groups.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 3343df7..7085f85 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -393,14 +393,19 @@ class RubiksCube(Group): #3x3 rubiks cube
         order_padded[FRBL,:3] = order_padded[np.roll(FRBL,1),:3] # F <- L,R <- F,B <- R,L <- B
         Uperm = unpad(order_padded)
         # Now form all other generators by using full rotations of the cube by 90 clockwise about a given face
+        turn = lambda face,k: np.rot90(face.reshape(3,3),k).reshape(9) # the stickers on a face turn as it moves
+        order_padded = pad(order)
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
-        RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        RotFront[URDL,:] = [turn(face,-1) for face in order_padded[np.roll(URDL,1),:]]
+        RotFront[1],RotFront[3] = turn(order_padded[1],-1),turn(order_padded[3],1) # Front and Back turn in place
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
-        RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        RotLeft[UFDB,:] = order_padded[np.roll(UFDB,1),:]
+        RotLeft[0],RotLeft[3] = turn(order_padded[3],2),turn(order_padded[5],2) # Back is upside down seen from Up and Down
+        RotLeft[4],RotLeft[2] = turn(order_padded[4],-1),turn(order_padded[2],1) # Left and Right turn in place
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 8fec2604fd25369b7ff2f8485bef2baada196b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 16/28] fix: product representations in non canonical order can
 be hashed

---
 emlp/reps/product_sum_reps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index cd9589c..f02c766 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -280,7 +280,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
-- 
2.43.0


From e9bfea32b8e624e570ed47d03ecbdb42e624c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 17/28] fix: Scalar comes first in the canonical order
 whichever group it was last called with

---
 emlp/reps/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a000099..c7f26c8 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -167,6 +167,7 @@ class Rep(object):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
         if other==Scalar: return False
+        if self==Scalar: return True # whichever group the shared Scalar was last called with
         try: 
             if self.G<other.G: return True
             if self.G>other.G: return False
-- 
2.43.0


From f557c43323383581822de84b128025f7030b2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 18/28] fix: the canonical order of representations is a total
 order

---
 emlp/reps/representation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index c7f26c8..a18bf27 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -168,10 +168,11 @@ class Rep(object):
             Canonical ordering is determined first by Group, then by size, then by hash"""
         if other==Scalar: return False
         if self==Scalar: return True # whichever group the shared Scalar was last called with
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
+        G1,G2 = getattr(self,'G',None),getattr(other,'G',None)
+        if (G1 is None) != (G2 is None): return G1 is None # products over several groups have no G
+        if G1 is not None:
+            if G1<G2: return True
+            if G1>G2: return False
         if self.size()<other.size(): return True
         if self.size()>other.size(): return False
         return hash(self) < hash(other) #For sorting purposes only
-- 
2.43.0


From f92af690643f543d59b215ee81b0c2c31fed2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 19/28] fix: gradients of jax functions with several outputs
 pass through the torch bridge

---
 emlp/nn/pytorch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index 30276db..296f1b0 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -58,11 +58,12 @@ def torchify_fn(function):
         def forward(ctx,*args):
             if any(ctx.needs_input_grad):
                 y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
+                ctx.out_tree = tree_flatten(y)[1]
                 return to_pytorch(y)
             return to_pytorch(function(*to_jax(args)))
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
+            return to_pytorch(ctx.vjp_fn(tree_unflatten(ctx.out_tree,to_jax(grad_outputs)))) # the cotangents have the structure of the output
     return torched_fn.apply #TORCHED #Roasted
 
 
-- 
2.43.0


From 4c6172fdbfbfde0c6d0f6a427b45ab1cc176d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 20/28] fix: reloading a cached trajectory dataset raised since
 torch.load only loads weights by default

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..f8dd062 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -91,7 +91,7 @@ class HamiltonianDataset(Dataset):
         filename = os.path.join(root_dir, f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz")
 
         if os.path.exists(filename) and not regen:
-            Zs = torch.load(filename)
+            Zs = torch.load(filename, weights_only=False)
         else:
             zs = self.generate_trajectory_data(n_systems, dt, integration_time)
             Zs = np.asarray(self.chunk_training_data(zs, chunk_len))
-- 
2.43.0


From 4adb1d4293bce1987730376a80b2f721ffa37e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 21/28] fix: trajectory chunks had the wrong length, or raised,
 when chunk_len does not divide the trajectory length

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index f8dd062..fb7cbd0 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -128,7 +128,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:,:n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0


From d23c7e4c79a8c9c18b8bd71bdef9fbae7fdec561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 22/28] fix: rounding gave the evaluation times of a chunk one
 entry too many for some dt

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index fb7cbd0..7d9f976 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -99,7 +99,7 @@ class HamiltonianDataset(Dataset):
             torch.save(Zs, filename)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len))
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
-- 
2.43.0


From dcbedd010a9243e1df5df236dce46d359167d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 23/28] fix: different groups of one name compared equal and
 shared cached solutions

---
 emlp/groups.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 7085f85..6431534 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -90,7 +90,8 @@ class Group(object,metaclass=Named):
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-        return repr(self)==repr(G2)
+        if type(self) is not type(G2) or repr(self)!=repr(G2): return False # another class may have the same name
+        return all(a==b for a,b in zip(self.args,G2.args) if isinstance(a,Group))
         
     def __hash__(self):
         return hash(repr(self))
@@ -448,7 +449,7 @@ class Embed(Group):
         self.lie_algebra[:,slice,slice] = A_dense
         self.discrete_generators[:,slice,slice]  =h_dense
         self.name = f"{G}_R{d}{list(range(d))[slice]}"
-        super().__init__()
+        super().__init__(G,d,slice)
    
     def __repr__(self):
         return self.name
@@ -475,7 +476,7 @@ class DirectProduct(Group):
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
         self.names = (repr(G1),repr(G2))
-        super().__init__()
+        super().__init__(G1,G2)
 
     def __repr__(self):
         return f"{self.names[0]}x{self.names[1]}"
-- 
2.43.0


From afea06fd1db21205eda36dbd7a286adc5f8d99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 24/28] fix: metrics average over the examples when the last
 minibatch is smaller

---
 experiments/trainer/trainer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 180b7d6..3021e1d 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -96,8 +96,7 @@ class Trainer(object,metaclass=Named):
     def evalAverageMetrics(self,loader,metrics):
         num_total, loss_totals = 0, 0
         for minibatch in loader:
-            try: mb_size = loader.batch_size
-            except AttributeError: mb_size=1
+            mb_size = len(minibatch[-1]) # the last minibatch can be smaller than loader.batch_size
             loss_totals += mb_size*metrics(minibatch)
             num_total += mb_size
         if num_total==0: raise KeyError("dataloader is empty")
-- 
2.43.0


From 0b2a9837e4f42944090aa352f325865a2fd22545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 25/28] fix: training for no further epochs leaves the epoch
 counter alone

---
 experiments/trainer/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 3021e1d..6db5a41 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -62,7 +62,7 @@ class Trainer(object,metaclass=Named):
                 self.step(self.epoch+i/steps_per_epoch,minibatch)
                 with self.logger as do_log:
                     if do_log: self.logStuff(step, minibatch)
-        self.epoch+=1
+        self.epoch = start_epoch+num_epochs
         self.logStuff(step)
 
     def step(self, epoch, minibatch):
-- 
2.43.0


From 83882e91c2139273fb0608e40e46af79672df4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 26/28] fix: the iterative solver found only real solutions of
 complex constraints

---
 emlp/reps/representation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a18bf27..1286985 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -332,7 +332,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         up to the rank r, with given tolerance. Uses gradient descent (+ momentum) on the
         objective |CQ|^2, which provably converges at an exponential rate."""
     W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
-    W = device_put(W)
+    W = device_put(W).astype((C@W).dtype) # complex constraints can have complex solutions
     opt_init,opt_update = optax.sgd(lr,.9)
     opt_state = opt_init(W)  # init stats
 
@@ -349,7 +349,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W)
         W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-- 
2.43.0


From 772d20417565b810c6e4a997686235682c4cdb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 27/28] fix: the iterative solver kept too high a learning rate
 once the loss was nan

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 1286985..c589b3a 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -361,7 +361,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         if jnp.sqrt(lossval) <tol: # check convergence condition
             pbar.close()
             break # has converged
-        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
+        if not lossval<=2e3 and i>100: # Solve diverged due to too high learning rate (possibly to nan)
             logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
             if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
             return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
-- 
2.43.0


From b0dd2cf437a192eed316df31f1a743ec1f0c2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 28/28] fix: the iterative solver raised when it found every
 vector to be a solution

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index c589b3a..9ee0f37 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -375,7 +375,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0

