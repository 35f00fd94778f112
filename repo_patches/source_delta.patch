From fb2d901fd1ecbee184780b022e199efbe69192ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 01/13] fix: pass the second orbital set through get_chem_anti

get_chem_anti forwarded its first orbital set twice and ignored the second
one, so the antisymmetrized integrals were wrong whenever o1 and o2 differed.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From 03cef7e21d6cd7c4afb06a62fe2fbc88d76b7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 02/13] fix: loop over occupied indices when building
 quadruples

q_strings looped over the occupation numbers instead of the indices of the
occupied orbitals. It returned duplicates and missed most quadruples.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..6f0c98a 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From 5e4b43b46e0e1f725830a0d0c04f7dd52a864f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 03/13] fix: add the constant to diagonal elements in
 gci_matrixel

The const argument was accepted but never used, unlike in ci_matrixel.
---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 6f0c98a..113cf72 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1279,7 +1279,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
-- 
2.43.0


From a655ae93516c1f7e1947d210a926e6b1fb6898c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 04/13] fix: sign of double excitations in gci_matrixel

When both particles lie above or below both holes the two single-excitation
phases overlap and the product picks up an extra minus sign. ci_matrixel
already accounts for this.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 113cf72..27795db 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1303,9 +1303,10 @@ def gci_matrixel(bra, ket, h, I, const):
         j1, j2 = min(o2, v2), max(o2, v2)
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From 8aeed41fd598890c991438b496b673c76399c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 05/13] fix: default occupation in gmakeCfromT

The default occupation had half the required length, so every call without
an explicit occ failed. Use the reference determinant of the basis.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 27795db..a4c7ce1 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,8 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        # same reference as the basis
+        occ = [int(x) for x in basis[0].occ]
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From 910f7357d92a2cac02c89e628acc99bdca0d4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:17 +0000
Subject: [PATCH 06/13] fix: add the missing T1b^2*T2aa term to makeCfromT

The fourth-order expansion contained T1a^2*T2bb but not its spin-flipped
counterpart, so alpha-alpha-beta-beta quadruples were wrong.
---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index a4c7ce1..da19734 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1078,6 +1078,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa1*sa2*sb1*sb2*T1a[a, i]*T1a[b, j]*T2bb[c, d, k, l]/2.0
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1a*T1b*T2ab
         for i in range(noa):
             for j in range(nob):
-- 
2.43.0


From 2104651d27d5daddc168b29907b984269bceb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:21 +0000
Subject: [PATCH 07/13] fix: honour fac in the Stanton-style Lambda update

Every other update routine scales its contribution by fac; this one accepted
the argument and ignored it.
---
 cqcpy/cc_equations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 5d6ed1e..fe4afbf 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -1161,30 +1161,33 @@ def _Lambda_Stanton(L1, L2, F, I, L1old, L2old, T1old, T2old, fac=1.0):
     Gvv = -0.5*einsum('mnaf,efmn->ae', L2old, T2old)
     Goo = 0.5*einsum('inef,efmn->mi', L2old, T2old)
 
-    L1 += einsum('ie,ea->ia', L1old, F1vv)
-    L1 -= einsum('ma,im->ia', L1old, F1oo)
-    L1 += einsum('me,ieam->ia', L1old, W1ovvo)
-    L1 += 0.5*einsum('imef,efam->ia', L2old, W1vvvo)
-    L1 -= 0.5*einsum('mnae,iemn->ia', L2old, W1ovoo)
-    L1 -= einsum('ef,eifa->ia', Gvv, W1vovv)
-    L1 -= einsum('mn,mina->ia', Goo, W1ooov)
+    L1 += fac*einsum('ie,ea->ia', L1old, F1vv)
+    L1 -= fac*einsum('ma,im->ia', L1old, F1oo)
+    L1 += fac*einsum('me,ieam->ia', L1old, W1ovvo)
+    L1 += 0.5*fac*einsum('imef,efam->ia', L2old, W1vvvo)
+    L1 -= 0.5*fac*einsum('mnae,iemn->ia', L2old, W1ovoo)
+    L1 -= fac*einsum('ef,eifa->ia', Gvv, W1vovv)
+    L1 -= fac*einsum('mn,mina->ia', Goo, W1ooov)
 
-    L2 += 0.5*einsum('mnab,ijmn->ijab', L2old, W1oooo)
-    L2 += 0.5*einsum('ijef,efab->ijab', L2old, W1vvvv)
+    L2 += 0.5*fac*einsum('mnab,ijmn->ijab', L2old, W1oooo)
+    L2 += 0.5*fac*einsum('ijef,efab->ijab', L2old, W1vvvv)
 
     tempijab = einsum('ia,jb->ijab', L1old, F1ov)
     tempijab += einsum('imae,jebm->ijab', L2old, W1ovvo)
+    tempijab *= fac
     L2 += tempijab - tempijab.transpose((0, 1, 3, 2)) \
         - tempijab.transpose((1, 0, 2, 3)) + tempijab.transpose((1, 0, 3, 2))
 
     tempij = -einsum('imab,jm->ijab', L2old, F1oo)
     tempij += einsum('ie,ejab->ijab', L1old, W1vovv)
     tempij -= einsum('imab,mj->ijab', I.oovv, Goo)
+    tempij *= fac
     L2 += tempij - tempij.transpose((1, 0, 2, 3))
 
     tempab = einsum('ijae,eb->ijab', L2old, F1vv)
     tempab -= einsum('ma,ijmb->ijab', L1old, W1ooov)
     tempab += einsum('ijae,be->ijab', I.oovv, Gvv)
+    tempab *= fac
     L2 += tempab - tempab.transpose((0, 1, 3, 2))
 
 
-- 
2.43.0


From 973777e507a8fe03965f97809b0cd45f1da4dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:48 +0000
Subject: [PATCH 08/13] fix: keep the imaginary part of periodic spin-orbital
 integrals

The result array took its dtype from the orbital coefficients. With real
coefficients at a k-point other than Gamma the integrals are complex and their
imaginary part was dropped.
---
 cqcpy/integrals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c2b7918..c49b095 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -249,7 +249,7 @@ def get_chemu_sol(mf, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
-    dtype = o1.dtype
+    dtype = numpy.result_type(Ia, Ib, Iaabb, Ibbaa)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -288,7 +288,7 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
         (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
     Iab = mf.with_df.ao2mo(
         (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
-    Id = numpy.zeros((n, n, n, n), dtype=oa.dtype)
+    Id = numpy.zeros((n, n, n, n), dtype=numpy.result_type(Ia, Ib, Iab))
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
     Id[:na, :na, na:, na:] = Iab
-- 
2.43.0


From 4acb5ef83f342735d9bb5d7650908000535a3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:48 +0000
Subject: [PATCH 09/13] fix: treat singly occupied orbitals as beta virtuals in
 eri_blocks

For an ROHF reference eri_blocks counted the open-shell orbitals as occupied
for both spins, so the blocks belonged to a system with too many electrons.
---
 cqcpy/integrals.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c49b095..bf3d4a7 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -385,12 +385,15 @@ class eri_blocks(object):
         pbc = hasattr(mf, "kpt")
 
         if len(mo_occ.shape) == 1:
-            o = mf.mo_coeff[:, mo_occ > 0]
-            v = mf.mo_coeff[:, mo_occ == 0]
+            oa = mf.mo_coeff[:, mo_occ > 0]
+            va = mf.mo_coeff[:, mo_occ == 0]
+            # singly occupied orbitals (ROHF) are virtual for beta spin
+            ob = mf.mo_coeff[:, mo_occ > 1]
+            vb = mf.mo_coeff[:, mo_occ <= 1]
             if pbc:
-                self._build_integrals_sol(mf, o, o, v, v)
+                self._build_integrals_sol(mf, oa, ob, va, vb)
             else:
-                self._build_integrals_mol(mf, o, o, v, v)
+                self._build_integrals_mol(mf, oa, ob, va, vb)
         elif len(mo_occ.shape) == 2:
             mo_occa = mo_occ[0]
             mo_occb = mo_occ[1]
-- 
2.43.0


From c0182d7f0517941e752513e41a35d3b891078173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:48 +0000
Subject: [PATCH 10/13] fix: keep complex tensors complex in the spin
 conversions

The spin-orbital arrays were always allocated as real, so the imaginary part
of complex Fock blocks, amplitudes and integrals was dropped.
---
 cqcpy/spin_utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..788ff84 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -4,22 +4,27 @@ from cqcpy.ov_blocks import two_e_blocks
 from cqcpy.ov_blocks import two_e_blocks_full
 
 
+def _dtype(*arrays):
+    # at least double precision, complex if any block is complex
+    return numpy.result_type(float, *arrays)
+
+
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    Foo = numpy.zeros((no, no), dtype=_dtype(Faa.oo, Fbb.oo))
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    Fov = numpy.zeros((no, nv), dtype=_dtype(Faa.ov, Fbb.ov))
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    Fvo = numpy.zeros((nv, no), dtype=_dtype(Faa.vo, Fbb.vo))
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    Fvv = numpy.zeros((nv, nv), dtype=_dtype(Faa.vv, Fbb.vv))
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +53,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=_dtype(Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +92,7 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    T = numpy.zeros((nv, nv, no, no), dtype=_dtype(Taa, Tab, Tbb))
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -100,7 +105,7 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    D = numpy.zeros((nv, nv, no, no), dtype=_dtype(Daa, Dab, Dbb))
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
@@ -123,7 +128,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    dtype = _dtype(aaaa, bbbb, abab, baba, abba, baab)
+    I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From ed16119970cc7850a4bd368b276c67ca3e27d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:48 +0000
Subject: [PATCH 11/13] fix: let Dstring.excite handle equal indices

Removing and re-adding the same electron leaves the determinant unchanged.
The branch for this case could never be reached because the check for an empty
target orbital came first.
---
 cqcpy/ci_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index da19734..0f5ffd3 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,12 +10,12 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
+        if i == a:
+            return (1.0, Dstring(self.n, self.occ.copy()))
         if self.occ[a] != 0:
             return (None, None)
 
-        if i == a:
-            return (1.0, Dstring(self.n, self.occ))
-        elif i < a:
+        if i < a:
             occnew = self.occ.copy()
             occnew[i] = 0
             occnew[a] = 1
-- 
2.43.0


From e248c913103e5df5d5e388277bc48b8b592fdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:05 +0000
Subject: [PATCH 12/13] fix: keep complex CI vectors complex

Operators acting on CI vectors and the CC-to-CI expansion always returned real
arrays and dropped the imaginary part of complex input.
---
 cqcpy/ci_utils.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 0f5ffd3..4c9816f 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1,6 +1,11 @@
 import numpy
 
 
+def _dtype(*arrays):
+    # at least double precision, complex if any array is complex
+    return numpy.result_type(float, *arrays)
+
+
 class Dstring(object):
     def __init__(self, n, occ):
         self.occ = numpy.asarray(occ)
@@ -439,7 +444,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
     ref = Dstring(nmo, occ)
 
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=_dtype(T1, T2))
     C[0] = 1.0
     # loop over T1
     for ii, i in enumerate(iocc):
@@ -620,7 +625,7 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
     refa = Dstring(na, occa)
     refb = Dstring(nb, occb)
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=_dtype(T1a, T1b, T2aa, T2ab, T2bb))
     C[0] = 1.0
 
     # loop over T1a
@@ -1450,7 +1455,7 @@ def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
 
 
 def s_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s, new = dd.excite(i, a)
@@ -1465,7 +1470,7 @@ def s_on_vec(basis, vec, i, a):
 
 
 def sa_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1480,7 +1485,7 @@ def sa_on_vec(basis, vec, i, a):
 
 
 def sb_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sb, bnew = bb.excite(i, a)
@@ -1495,7 +1500,7 @@ def sb_on_vec(basis, vec, i, a):
 
 
 def d_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s1, temp = dd.excite(i, a)
@@ -1513,7 +1518,7 @@ def d_on_vec(basis, vec, i, j, a, b):
 
 
 def da_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, atemp = ab.excite(i, a)
@@ -1531,7 +1536,7 @@ def da_on_vec(basis, vec, i, j, a, b):
 
 
 def db_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, btemp = bb.excite(i, a)
@@ -1549,7 +1554,7 @@ def db_on_vec(basis, vec, i, j, a, b):
 
 
 def sasb_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1567,7 +1572,8 @@ def sasb_on_vec(basis, vec, i, j, a, b):
 
 
 def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(
+        vec.shape, dtype=_dtype(vec, ha, hb, Ia, Ib, Iabab))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*ci_matrixel(
@@ -1576,7 +1582,7 @@ def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
 
 
 def gH_on_vec(basis, vec, h, I,):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=_dtype(vec, h, I))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)
-- 
2.43.0


From 616b471dc4530424b511d5df8ba84c4e55f85ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:37 +0000
Subject: [PATCH 13/13] fix: return zero CI matrix elements between
 determinants with different particle numbers

---
 cqcpy/ci_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 4c9816f..05380f0 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1298,6 +1298,8 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
 
 
 def gci_matrixel(bra, ket, h, I, const):
+    if bra.occ.sum() != ket.occ.sum():
+        return 0.0
     ddd = diff(bra, ket)//2
     aa = [(ob - ok) for ob, ok in zip(bra.occ, ket.occ)]
     ao = [-1 if a < 0 else 0 for a in aa]
@@ -1340,6 +1342,8 @@ def gci_matrixel(bra, ket, h, I, const):
 
 
 def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
+    if braa.occ.sum() != keta.occ.sum() or brab.occ.sum() != ketb.occ.sum():
+        return 0.0
     diffa = diff(braa, keta) // 2
     diffb = diff(brab, ketb) // 2
     aa = [(ob - ok) for ob, ok in zip(braa.occ, keta.occ)]
-- 
2.43.0

