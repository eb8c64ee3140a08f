From 11d1d5f9b5d927c25bcf9ad3fe216ba797442f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 01/52] fix: make the spinor sign matching with the tables
 deterministic

The signs relating the SU(2) matrices to those of the tables came from a
minimisation started at an unseeded random point. In many groups several sign
patterns have zero residue, so the labels of double-valued irreps changed from
run to run. The rotation between both spin frames is fixed by the reference
cell, so use it directly.
---
 irrep/spacegroup.py | 95 ++++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 66 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..ac079f9 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -22,7 +22,7 @@ from math import pi
 from scipy.linalg import expm
 import spglib
 from irreptables import IrrepTable
-from scipy.optimize import minimize
+from scipy.spatial.transform import Rotation
 from .utility import str_, log_message, BOHR
 from packaging import version
 
@@ -861,7 +861,7 @@ class SpaceGroup():
                     self.shiftUC) for s in self.symmetries) +
             "\n\n")
 
-    def __match_spinor_rotations(self, S1, S2):
+    def __match_spinor_rotations(self, S1, S2, refUC):
         """
         Determine the sign difference between matrices describing the 
         transformation of spinors found by `spglib` and those read from tables.
@@ -874,6 +874,9 @@ class SpaceGroup():
         S2 : list
             Contains the matrices for the transformation of spinors 
             corresponding to symmetry operations read from tables.
+        refUC : array
+            3x3 array describing the transformation of vectors defining the 
+            unit cell to the standard setting.
 
         Returns
         -------
@@ -881,73 +884,33 @@ class SpaceGroup():
             The `j`-th element is the matrix to match the `j`-th matrices of 
             `S1` and `S2`.
         """
-        n = 2
-
-        def RR(x): 
-            """
-            Constructs a 2x2 complex matrix out of a list containing real and 
-            imaginary parts.
-
-            Parameters
-            ----------
-            x : list, length=8
-                Length is 8. `x[:4]` contains the real parts, `x[4:]` the 
-                imaginary parts.
-            
-            Returns
-            -------
-            array, shape=(2,2)
-                Matrix of complex elements. 
-            """
-
-            return np.array([[x1 + 1j * x2 for x1, x2 in zip(l1, l2)] for l1, l2 in zip(x[:n * n].reshape((n, n)), x[n * n:].reshape((n, n)))])
-
-        def residue_matrix(r): 
-            """
-            Calculate the residue of a matrix.
-
-            Parameters
-            ----------
-            r : array
-                Matrix used as ansatz for the minimization.
-
-            Returns
-            -------
-            float            
-            """
-
-            return sum([min(abs(r.dot(b).dot(r.T.conj()) - s * a).sum() for s in (1, -1)) for a, b in zip(S1, S2)])
-
-        def residue(x): 
-            """
-            Calculate the normalized residue.
-
-            Parameters
-            ----------
-            x : list, length=8
-                Length is 8. `x[:4]` contains the real parts, `x[4:]` the 
-                imaginary parts.
-            
-            Returns
-            -------
-            float
-            """
-            return residue_matrix(RR(x)) / len(S1)
-
-        for i in range(11):
-            x0 = np.random.random(2 * n * n)
-            res = minimize(residue, x0)
-            r = res.fun
-            if r < 1e-4:
-                break
+
+        # Cartesian frame of the reference cell: x along a, z along c*. A
+        # rotation of spinors doesn't depend on the handedness of the cell
+        vecs = refUC.T.dot(self.Lattice)
+        vecs = vecs * np.sign(np.linalg.det(vecs))
+        z = np.cross(vecs[0], vecs[1])
+        x = vecs[0] / np.linalg.norm(vecs[0])
+        z = z / np.linalg.norm(z)
+        frame = np.array([x, np.cross(z, x), z])
+
+        # In trigonal and hexagonal groups, tables refer spinors to other axes
+        if 143 <= self.number <= 194:
+            frame = np.array([[0, -1, 0], [-1, 0, 0], [0, 0, -1]]).dot(frame)
+
+        # SU(2) matrix for the rotation from the frame of tables to that of S1
+        rotvec = Rotation.from_matrix(frame.T).as_rotvec()
+        U = expm(-0.5j * np.einsum('i,ijk->jk', rotvec, pauli_sigma))
+
+        traces = np.array([0.5 * np.trace(U.dot(b).dot(U.T.conj()).dot(a.T.conj()))
+                           for a, b in zip(S1, S2)])
+        signs = np.where(traces.real < 0, -1, 1)
+        r = abs(traces - signs).max()
         if r > 1e-3:
             raise RuntimeError(
                 "the accurcy is only {0}. Is this good?".format(r))
 
-        R1 = RR(res.x)
-
-        return np.array([R1.dot(b).dot(R1.T.conj()).dot(np.linalg.inv(
-            a)).diagonal().mean().real.round() for a, b in zip(S1, S2)], dtype=int)
+        return signs
 
     def get_irreps_from_table(self, kpname, K, v=0):
         """
@@ -1282,7 +1245,7 @@ class SpaceGroup():
         if signs:
             S1 = [sym.spinor_rotation for sym in self.symmetries]
             S2 = [self.symmetries_tables[i].S for i in ind]
-            signs_array = self.__match_spinor_rotations(S1, S2)
+            signs_array = self.__match_spinor_rotations(S1, S2, refUC)
         else:
             signs_array = np.ones(len(ind), dtype=int)
         return ind, dt, signs_array
-- 
2.43.0


From 1f4913c0472056f00b04ea3ff6da961a4a6ce3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 02/52] fix: order of the outermost plane waves in VASP files

With a period of max-min, plane waves with the largest and the smallest index
along an axis coincide modulo the period, so they were not sorted as in the
WAVECAR and their coefficients were exchanged.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..bc665d1 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = igall.max(axis=0) - igall.min(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 0d70fa8b75d58d4a25f75dd94e71038a79eefc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 03/52] fix: phase of nonsymmorphic operations in symm_matrix

The phase of {A|T} on a plane wave is that of A^-1 T, as in symm_eigenvalues.
Both agree only when A T and A^-1 T are equal modulo lattice vectors.
---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index bc665d1..f0626e2 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 5f275878760dcde8113bbc0c411193b2e4962b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 04/52] fix: print the last level when irreps are not
 identified

Without -kpnames the list of labels had one element less than the number of
degenerate sets: the last level was missing in the output, a single level
crashed, and so did the separation of states by a symmetry.
---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From c8b449aa983481f01b3a805cee9069b59b5af533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 05/52] fix: skip k points of a WFK file when only some are
 asked for

The header was compared with the data of the requested k point, not of the one
being skipped, and one record was skipped instead of one per band.
---
 irrep/readfiles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..fdf7fec 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -330,13 +330,13 @@ class ParserAbinit():
             # 1st record: npw, nspinor, nband
             record = record_abinit(self.fWFK, "i4")  # [0]
             npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
+            assert npw == self.npwarr[i], ("Different number of plane waves "
                                             "in header and k-point's block. "
                                             "Probably a bug in Abinit...")
             assert nspinor_loc == nspinor, ("Different values of nspinor in "
                                             "header and k-point's block. "
                                             "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
+            assert nband == self.nband[i], ("Different number of bands in "
                                              "header and k-point's block. "
                                              "Probably a bug in Abinit...")
 
@@ -351,7 +351,8 @@ class ParserAbinit():
 
             # 4th record: coefficients of expansions in plane waves
             if skip:
-                record = record_abinit(self.fWFK, "f8")
+                for iband in range(nband):
+                    record = record_abinit(self.fWFK, "f8")
             else:
                 CG = np.zeros((nband, npw * nspinor), dtype=complex)
                 for iband in range(nband):
-- 
2.43.0


From 67d6d7353893cede60def074f4404caaf852631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 06/52] fix: read WFK files of crystals with one atom per cell

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index fdf7fec..e67aa71 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # int if there is a single atom
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 8ca8664aa9ff9d394253f88034be54ec77770ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 07/52] fix: energies of the chosen spin channel in Quantum
 Espresso

The eigenvalues of both channels are listed together, up first. States of the
dw channel got the energies of up states, and the last up state a gap with the
first dw state.
---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index e67aa71..d277daa 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -693,6 +693,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if spin_channel == "up":  # energies of up states, then those of dw
+            Energy = Energy[:NBin]
+        elif spin_channel == "dw":
+            Energy = Energy[-NBin:]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From 75cfee5848bd704bccd84dfc614f4d642227493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 08/52] fix: read back the translations written to prefix.sym

The file contains -t, as the operations of pw2wannier90 act on r as rR - t, but
the sign was not undone when reading it.
---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index ac079f9..1de10a1 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1376,5 +1376,6 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    # the operations in prefix.sym act on a point r as rR - t
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From 1fcb46a4a76f04caa80852d7c5a11f396577e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 09/52] fix: printed vectors and atomic positions of the
 reference cell

The vectors were computed with the matrices in the wrong order, and positions
ignored the shift of the origin.
---
 irrep/spacegroup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 1de10a1..e1e499e 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
@@ -765,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 48beedf60131cddacc32e294e8d605f932e6c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 10/52] fix: units of length and of the cutoff in Abinit and
 Quantum Espresso

Lattice vectors of Abinit were kept in Bohr, although angstroms are assumed
and printed. Plane-wave energies of Quantum Espresso were computed with half a
Bohr instead of 0.529 angstroms, so Ecut was 12% larger than asked for.
---
 irrep/bandstructure.py | 6 +++---
 irrep/readfiles.py     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..14a3119 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -335,13 +335,13 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index d277daa..f661448 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -196,7 +196,7 @@ class ParserAbinit():
          usepaw,
          nspinor,
          occopt) = np.array(record[0])[[0, 4, 8, 12, 13, 11, 14, 17, 10, 15]]
-        rprimd = record[1][7:16].reshape((3, 3))
+        rprimd = record[1][7:16].reshape((3, 3)) * BOHR  # in angstroms
         ecut = record[1][0] * Hartree_eV
         nshiftk_orig = record[2][1]
         nshiftk = record[2][2]
-- 
2.43.0


From 840643abed7a63e453a0961f7b793dcca7e24d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 11/52] fix: pass -trans_thresh and -alat on to the calculation

Both options were accepted and ignored. Without alat, -from_sym_file could only
be used with Quantum Espresso.
---
 irrep/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..ceaaa0d 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -375,9 +375,11 @@ def cli(
         refUC = refuc,
         shiftUC = shiftuc,
         search_cell = searchcell,
+        trans_thresh=trans_thresh,
         degen_thresh=degenthresh,
         save_wf=save_wf,
         v=v,
+        alat=alat,
         from_sym_file=from_sym_file
     )
 
-- 
2.43.0


From 04c0c357de2b763fda26408dc19894417708f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 12/52] fix: names of k points in irrep-output.json

They were always null, or the indices given in -symmetries after a separation
by symmetry eigenvalues.
---
 irrep/cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index ceaaa0d..65b2122 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -412,7 +412,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
@@ -439,7 +439,12 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                # A subspace may not have states in all k points
+                sub_kpnames = kpnames
+                if kpnames is not None:
+                    names = {KP.ik0: name for KP, name in zip(bandstr.kpoints, kpnames)}
+                    sub_kpnames = [names[KP.ik0] for KP in sub.kpoints]
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(sub_kpnames)})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 7e22c425d49de704092b1d15289a4b5bf7fe39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 13/52] fix: separate by several symmetries without repeating
 states

Subspaces of the first symmetry were kept together with the subspaces of the
following ones.
---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 65b2122..bb8cab9 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -421,8 +421,8 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
+            tmp_subbands = {}
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
-- 
2.43.0


From cb87232ed014278d9b872c0dd30724df95834ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 14/52] fix: Zak phases and Wannier charge centers

zakphase used an attribute of k points that does not exist any more, and wcc
took the angle of the pair (eigenvalues, eigenvectors).
---
 irrep/bandstructure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 14a3119..06b7881 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -751,7 +751,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -762,13 +762,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
@@ -794,7 +794,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From 43108e87083fb7577990fa59d980d2717719a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 15/52] fix: print the Zak phases of all subspaces

The program ended after the first one.
---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index bb8cab9..e6b3d96 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -463,7 +463,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 8c77753ea300bc093f157056c992eb462a1c8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 16/52] fix: orthonormal states in the subspaces of a symmetry

np.linalg.eig returns vectors that are not orthogonal for repeated eigenvalues.
The verbosity was overwritten in the same loop, so that the warning about
eigenvalues raised an error.
---
 irrep/kpoint.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..1baa6c6 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -18,8 +18,8 @@
 
 from functools import lru_cache
 import numpy as np
-import numpy.linalg as la
 import copy
+from scipy.linalg import schur
 from .gvectors import symm_eigenvalues, symm_matrix
 from .utility import compstr, is_round, format_matrix, log_message
 
@@ -503,15 +503,15 @@ class Kpoint:
             b1 = self.borders[istate]
             b2 = self.borders[istate+1]
             inds_states += [istate] * num_states  # index for set of states
-            W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
-                eigenvalues.append(w)
+            # Schur vectors are orthonormal, also if eigenvalues are repeated
+            W, V = schur(S[b1:b2, b1:b2], output='complex')
+            for eigval, eigvec in zip(W.diagonal(), V.T):
+                eigenvalues.append(eigval)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), eigvec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -521,6 +521,7 @@ class Kpoint:
         if np.abs((np.abs(w) - 1.0)).max() > 3e-1:
             raise RuntimeError(" some eigenvalues are not unitary :{0} ".format(w))
         w /= np.abs(w)
+        v = np.array(eigenvectors).T # each col an eigenvector
 
         subspaces = {}
 
-- 
2.43.0


From ce644e45aca0feee339c898fc0f5a7899778f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 17/52] fix: separate states without grouping Kramers pairs

copy_sub was called with arguments that it does not have.
---
 irrep/kpoint.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 1baa6c6..a4b315c 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -544,7 +544,7 @@ class Kpoint:
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
                 v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
@@ -553,18 +553,21 @@ class Kpoint:
             w = w[arg]
             v = v[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
             if len(borders) > 0:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
                     v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
                     subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[: (b2 - b1) % self.num_bands]
                     )
 
             else:
                 v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From 93ae455056b958194482a10e881fa99d90d5031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 18/52] fix: separate subspaces of a symmetry by another
 symmetry

Subspaces kept the energies of all states and the limits of their degenerate
sets, so they could not be separated again, nor could Zak phases be computed.
---
 irrep/kpoint.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index a4b315c..10b600c 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -293,7 +293,14 @@ class Kpoint:
         inds = inds[sortE]
 
         # Do not group by degeneracy of energy-levels for printing
-        other.degeneracies = [1] * other.num_bands
+        other.degeneracies = np.ones(other.num_bands, dtype=int)
+        # but keep track of it, to separate the states again
+        other.Energy_raw = other.Energy_mean
+        other.borders = np.hstack([
+             [0],
+             np.where(other.Energy_mean[1:] != other.Energy_mean[:-1])[0] + 1,
+             [other.num_bands],
+        ])
         char = []
         char_refUC = []
         for i in inds:
@@ -499,10 +506,10 @@ class Kpoint:
         eigenvectors = []
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
+        set_of_state = np.repeat(np.arange(len(self.degeneracies)), self.degeneracies)
+        for b1, b2 in zip(self.borders, self.borders[1:]):
+            inds_states += list(set_of_state[b1:b2])  # index for set of states
+            istate = set_of_state[b1]
             # Schur vectors are orthonormal, also if eigenvalues are repeated
             W, V = schur(S[b1:b2, b1:b2], output='complex')
             for eigval, eigvec in zip(W.diagonal(), V.T):
-- 
2.43.0


From 7defa049f36bc508e1e3a5ba4978a91d2d6de328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 19/52] fix: keep states whose Kramers partner is not in the k
 point

They are grouped by the real part of the eigenvalue, but were dropped if the
mean eigenvalue had an imaginary part.
---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 06b7881..3c61984 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -690,8 +690,8 @@ class BandStructure:
                     other.kpoints = []
                     for K in kpseparated:
                         vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
+                        vk0 = vk[np.argmin(np.abs(v - np.real(vk)))]
+                        if abs(np.real(vk0) - v) < 0.05:
                             other.kpoints.append(K[vk0])
                     subspaces[v] = other # unnecessary indent ?
                 return subspaces
-- 
2.43.0


From b268b345ea430ec5768be5bce8f73acc8f80b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 20/52] fix: number the atom types of Wannier90 in order of
 appearance

The numbers came from the order of a set of strings, which changes from run to
run.
---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index f661448..b042fad 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -883,7 +883,7 @@ class ParserW90:
                                 break
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
-                    typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
+                    typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
                     if l[1][6:10] == "cart":  # from cartesian to direct coords
-- 
2.43.0


From fd6ea0ba29ac307beee01915a674e9ba7ccddbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 21/52] fix: read units and order of the blocks in Wannier90
 input

Cartesian positions had to be given after the unit cell and without the line
with their units, which wannier90 allows.
---
 irrep/readfiles.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index b042fad..3c5b3b3 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -870,8 +870,12 @@ class ParserW90:
                     found_atoms = True
                     positions = []
                     nameat = []
+                    units = 1.0
                     while True:
                         l1 = next(self.iterwin)
+                        if l1[0] in ("bohr", "ang") and len(l1) == 1:
+                            units = BOHR if l1[0] == "bohr" else 1.0
+                            continue
                         if l1[0] == "end":
                             if l1[1] != l[1]:
                                 raise RuntimeError(
@@ -885,9 +889,11 @@ class ParserW90:
                         positions.append(l1[1:4])
                     typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
-                    positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+                    positions = np.array(positions, dtype=float) * units
+                    cartesian = l[1][6:10] == "cart"
+
+        if found_atoms and cartesian:  # from cartesian to direct coords
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From ce86bd2e7c5fb6d90d978baece142433b997dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 22/52] fix: read mp_grid without a separator in Wannier90
 input

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 3c5b3b3..9b68650 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -796,7 +796,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From 580a9ae71e60e16fc1c53c2783047acb54ca1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 23/52] fix: apply -correct_Ecut0

The option was accepted and ignored.
---
 irrep/bandstructure.py | 5 +++++
 irrep/cli.py           | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 3c61984..76c4606 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -92,6 +92,9 @@ class BandStructure:
         1: print info about decisions taken internally by the code, recommended 
         when the code runs without errors but the result is not the expected.
         2: print detailed info, recommended when the code stops with an error
+    correct_Ecut0 : float, default=0.0
+        Small correction (in eV) to the cutoff read from WAVECAR, in case the 
+        number of plane waves does not match.
 
     Attributes
     ----------
@@ -161,6 +164,7 @@ class BandStructure:
         v=0,
         alat=None,
         from_sym_file=None,
+        correct_Ecut0=0.0,
     ):
 
         code = code.lower()
@@ -180,6 +184,7 @@ class BandStructure:
             self.Lattice, positions, typat = parser.parse_poscar(v)
             if not onlysym:
                 NK, NBin, self.Ecut0, lattice = parser.parse_header()
+                self.Ecut0 += correct_Ecut0
                 if not np.allclose(self.Lattice, lattice):
                     raise RuntimeError("POSCAR and WAVECAR contain different lattices")
                 EF_in = None  # not written in WAVECAR
diff --git a/irrep/cli.py b/irrep/cli.py
index e6b3d96..b6fc488 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -380,7 +380,8 @@ def cli(
         save_wf=save_wf,
         v=v,
         alat=alat,
-        from_sym_file=from_sym_file
+        from_sym_file=from_sym_file,
+        correct_Ecut0=correct_ecut0
     )
 
     bandstr.spacegroup.show()
-- 
2.43.0


From 56df2708e12fd13a3e35da2a626f08d23551f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 24/52] fix: do not modify the list of k points passed by the
 caller

It was decremented in place, so that using the same array again selected other
k points. Lists, as documented, were not accepted.
---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 76c4606..40b3e93 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -309,8 +309,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k > 0 and k <= NK], dtype=int)
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From f736d96a20283d2f56a5a8d629605016b510591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 25/52] fix: plane waves of Wannier90 in the corners of the
 grid

The number of cycles was limited to half of the grid, but a cycle runs over
the sum of the three components, so plane waves below the cutoff were lost.
---
 irrep/bandstructure.py | 5 +++--
 irrep/gvectors.py      | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 40b3e93..e080249 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -355,8 +355,9 @@ class BandStructure:
                                    self.RecLattice,
                                    self.Ecut,
                                    spinor=self.spinor,
-                                   nplanemax=np.max([ngx, ngy, ngz]) // 2,
-                                   v=v
+                                   nplanemax=ngx // 2 + ngy // 2 + ngz // 2 + 1,
+                                   v=v,
+                                   grid=(ngx, ngy, ngz)
                                    )
                 selectG = tuple(kg[0:3])
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index f0626e2..8d3bf67 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -46,7 +46,8 @@ def calc_gvectors(
     thresh=1e-3,
     spinor=True,
     nplanemax=10000,
-    v=0
+    v=0,
+    grid=None
 ):
     """ 
     Generates G-vectors taking part in the plane-wave expansion of 
@@ -75,6 +76,9 @@ def calc_gvectors(
         will be read from DFT files. Mandatory for `vasp`.
     nplanemax : int, default=10000
         Sets the maximun number of iterations when calculating vectors.
+    grid : array, default=None
+        Number of points of the FFT grid in each direction. If given, plane 
+        waves that don't fit in the grid are left out.
 
     Returns
     -------
@@ -123,6 +127,8 @@ def calc_gvectors(
             for ig2 in range(-(N - abs(ig3)), N - abs(ig3) + 1):
                 for ig1 in set([-(N - abs(ig3) - abs(ig2)), N - abs(ig3) - abs(ig2)]):
                     igp = (ig1, ig2, ig3)
+                    if grid is not None and any(2 * abs(g) >= n for g, n in zip(igp, grid)):
+                        continue
                     etot = la.norm((K + np.array(igp)).dot(B)) ** 2 / twomhbar2
                     if etot < Ecut:
                         igall.append(igp)
-- 
2.43.0


From 0745ef2978b58460ba65f8cb3f2e8cf7a7eee726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 26/52] fix: read .eig files with a single energy

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 9b68650..ce64247 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -910,7 +910,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(self.prefix + ".eig", ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0


From 09be9c5eaa5a2406b473f721a8bd4aafcab55c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 27/52] fix: scaling factor of POSCAR

It applies to Cartesian positions too, and a negative one is the volume.
---
 irrep/readfiles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index ce64247..bb00cfd 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -422,8 +422,11 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = np.array([next(fpos).split() for i in range(3)], dtype=float)
+        if scale < 0:  # minus the volume of the cell
+            scale = (-scale / abs(np.linalg.det(lattice)))**(1 / 3)
+        lattice *= scale
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -456,7 +459,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From bf62a682171709532b6f4051a8679111848d1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 28/52] fix: compare translations with the tables in the
 conventional cell

The translations of the tables are rounded to 5 digits. When compared in a
primitive cell with long vectors the rounding error was multiplied and
the search of the conventional cell failed.
---
 irrep/spacegroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index e1e499e..b949e86 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1195,9 +1195,9 @@ class SpaceGroup():
             t = sym.translation_refUC(refUC, shiftUC)
             found = False
             for i, sym2 in enumerate(self.symmetries_tables):
-                t1 = refUC.dot(sym2.t - t) % 1
-                #t1 = np.dot(sym2.t - t, refUC) % 1
-                t1[1 - t1 < trans_thresh] = 0
+                # Difference mod. lattice translations, in conv. cell
+                t1 = refUC.dot(sym2.t - t)
+                t1 = np.linalg.inv(refUC).dot(t1 - np.round(t1))
                 if np.allclose(R, sym2.R):
                     if np.allclose(t1, [0, 0, 0], atol=trans_thresh):
                         ind.append(i)
-- 
2.43.0


From 26e886be173f5c38c33572fee4351a6ce6bd7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 29/52] fix: order of plane waves in VASP files at k points far
 from Gamma

When all plane waves have a positive index along some axis the period did not
reach the largest index, which was sorted before the others.
---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 8d3bf67..bcef140 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -154,7 +154,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0) + 1
+    ng = 2 * abs(igall).max(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 0e25da39c42e5a4a364da12cbe4e8a0d8de7b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 30/52] fix: compare coordinates of k points with the tables
 within a tolerance

After rounding to 5 digits, the rounding error of the tables (times the
transformation to the primitive cell) could change the last digit,
and correct k points were refused.
---
 irrep/spacegroup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index b949e86..1c32309 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -954,8 +954,9 @@ class SpaceGroup():
         for irr in table.irreps:
             if irr.kpname == kpname:
                 k1 = np.round(np.linalg.inv(self.refUC.T).dot(irr.k), 5) % 1
-                k2 = np.round(K, 5) % 1
-                if not all(np.isclose(k1, k2)):
+                dk = np.linalg.inv(self.refUC.T).dot(irr.k) - K
+                # k in tables and files is rounded, and so is mod. 1
+                if not np.allclose(dk, np.round(dk), rtol=0, atol=1e-4):
                     raise RuntimeError(
                         "the kpoint {0} does not correspond to the point {1} ({2} in refUC / {3} in primUC) in the table".format(
                             K,
-- 
2.43.0


From 8a70c9bb7b32578f02d90553bb725fb398721404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 31/52] fix: refuse tables of another space group

The number of the space group in the file was compared with a key that never
occurs, so it was never checked.
---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..0cf712b 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -340,7 +340,7 @@ class IrrepTable:
         while len(lines) > 0:
             l = lines.pop().strip().split("=")
             # logger.debug(l,l[0].lower())
-            if l[0].lower() == "SG":
+            if l[0].lower() == "sg":
                 assert int(l[1]) == self.number
             elif l[0].lower() == "name":
                 self.name = l[1]
-- 
2.43.0


From a322afc22b601c5dea7fee8a895d95babc911d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 32/52] fix: comments at the end of a line in Wannier90 input

---
 irrep/readfiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index bb00cfd..7b5f677 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -768,11 +768,12 @@ class ParserW90:
     def __init__(self, prefix):
 
         self.prefix = prefix
-        self.fwin = [l.strip().lower() for l in open(prefix + ".win").readlines()]
+        self.fwin = [l.split("!")[0].split("#")[0].strip().lower()
+                     for l in open(prefix + ".win").readlines()]
         self.fwin = [
             [s.strip() for s in split(l)]
             for l in self.fwin
-            if len(l) > 0 and l[0] not in ("!", "#")
+            if len(l) > 0
         ]
         self.ind = np.array([l[0] for l in self.fwin])
         self.iterwin = iter(self.fwin)
-- 
2.43.0


From f8e5ae84021396a1720e4065b0d909653ea29a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 33/52] fix: number of bands of Abinit files with different
 bands per k point

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index e080249..206fe86 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -381,7 +381,7 @@ class BandStructure:
                 Energy=Energy,
                 ig=kg,
                 upper=upper,
-                num_bands=NBout,
+                num_bands=len(Energy),
                 RecLattice=self.RecLattice,
                 calculate_traces=calculate_traces,
                 symmetries_SG=self.spacegroup.symmetries,
-- 
2.43.0


From 179d27d8a71133b6be3deb0e21099d4bf650f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 34/52] fix: print only the symmetries asked for with
 -symmetries

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index b6fc488..af97e16 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -384,7 +384,7 @@ def cli(
         correct_Ecut0=correct_ecut0
     )
 
-    bandstr.spacegroup.show()
+    bandstr.spacegroup.show(symmetries=symmetries)
 
     if writesym:
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
-- 
2.43.0


From 7d51af64d2395012fcd893f1693973026ab6654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 35/52] fix: separate by several symmetries in the command line

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index af97e16..6540af3 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -353,7 +353,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From d27d0e190432fa35e4d5fef249e3138f1ea89940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 36/52] fix: do not identify irreps in a cell that does not
 match the tables

---
 irrep/spacegroup.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 1c32309..86b14fc 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -603,7 +603,9 @@ class SpaceGroup():
                 self.symmetries[i_ind].sign = signs[i_ind]
                 self.symmetries.append(self.symmetries[i_ind])
             self.symmetries = self.symmetries[i+1:]
+            self.match_tables = True
         except RuntimeError:
+            self.match_tables = False
             if search_cell:  # symmetries must match to identify irreps
                 raise RuntimeError((
                     "refUC and shiftUC don't transform the cellto one where "
@@ -949,6 +951,12 @@ class SpaceGroup():
             given in parameter `kpname`.
         """
 
+        if not self.match_tables:
+            raise RuntimeError(
+                "refUC and shiftUC don't transform the cell to one where "
+                "symmetries are identical to those read from tables, so that "
+                "irreps can't be identified. Try with search_cell=True.")
+
         table = IrrepTable(self.number, self.spinor, v=v)
         tab = {}
         for irr in table.irreps:
-- 
2.43.0


From 9a5d5a702fb11a30776490ce9f964975b7c85d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 37/52] fix: refuse incomplete sets of operations when matching
 the tables

---
 irrep/spacegroup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 86b14fc..8ba0364 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -596,6 +596,8 @@ class SpaceGroup():
             ind, dt, signs = self.match_symmetries(signs=self.spinor,
                                                    trans_thresh=trans_thresh
                                                    )
+            if sorted(ind) != list(range(len(self.symmetries_tables))):
+                raise RuntimeError("Symmetries are not all those of the tables")
             # Sort symmetries like in tables
             args = np.argsort(ind)
             for i,i_ind in enumerate(args):
-- 
2.43.0


From f362bcf659b3cc6400ee9b469863030d6118be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 38/52] fix: refuse VASP spinors with fewer plane waves than
 expected instead of looping

---
 irrep/gvectors.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index bcef140..776f4d5 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -114,14 +114,16 @@ def calc_gvectors(
             else:      # Sure that not spinors?
                 if len(igall) >= nplane: # spinor=F, all plane waves found
                     break
-                elif np.all(memory): # probably spinor wrong set as spinor=F
-                    raise RuntimeError(
-                          "calc_gvectors is stuck "
-                          "calculating plane waves of energy larger "
-                          "than cutoff Ecut = {}. Make sure that the "
-                          "VASP calculation does not include SOC and "
-                          "set -spinor if it does.".format(Ecut)
-                    )
+        if nplane < np.inf and len(igall) > 0 and np.all(memory):
+            # probably spinor wrong set, or cutoff of another calculation
+            raise RuntimeError(
+                  "calc_gvectors is stuck "
+                  "calculating plane waves of energy larger "
+                  "than cutoff Ecut = {}: found {}, expected {}. Make sure "
+                  "that the VASP calculation does not include SOC and "
+                  "set -spinor if it does.".format(
+                      Ecut, len(igall), nplane / 2 if spinor else nplane)
+            )
 
         for ig3 in range(-N, N + 1):
             for ig2 in range(-(N - abs(ig3)), N - abs(ig3) + 1):
-- 
2.43.0


From c06b5fb21c8905ec6d2851ebaac0518963a2305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 39/52] fix: refuse VASP files with more plane waves below the
 cutoff than expected

---
 irrep/gvectors.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 776f4d5..4f900f1 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -141,6 +141,21 @@ def calc_gvectors(
 
     ncnt = len(igall)
     if nplane < np.inf: # vasp
+        # the loop stopped at nplane plane waves, there should be no others 
+        # below Ecut
+        gmax = np.sqrt(Ecut * twomhbar2) * la.norm(la.inv(B), axis=0)
+        box = [np.arange(np.floor(-k - g), np.ceil(-k + g) + 1)
+               for k, g in zip(K, gmax)]
+        box = np.stack(np.meshgrid(*box, indexing='ij'), axis=-1)
+        norms = la.norm((box + K).dot(B), axis=-1) ** 2 / twomhbar2
+        nbelow = np.count_nonzero(norms < Ecut * (1 - 1e-6))
+        if nbelow > ncnt:
+            raise RuntimeError(
+                "*** error - {} plane waves have energy below Ecut={}, but "
+                "only {} are expected".format(
+                    nbelow, Ecut, nplane / 2 if spinor else nplane
+                )
+            )
         if spinor:
             if 2 * ncnt != nplane:
                 raise RuntimeError(
-- 
2.43.0


From 86dc74ffc2bea9e95124cfc32efdd5e70d19fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 40/52] fix: comparison of k points of the tables

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 0cf712b..47998f7 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -162,7 +162,7 @@ class KPoint:
             return False
         if np.linalg.norm(self.k - other.k) > 1e-8:
             return False
-        if self.isym != other.isym:
+        if list(self.isym) != list(other.isym):
             return False
         return True
 
-- 
2.43.0


From eda38d495c46911f0c484bfa01c9bb9c64a02ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 41/52] fix: k points of the tables written with their keyword

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 47998f7..8181687 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -187,7 +187,7 @@ class KPoint:
             Line that, when parsed, would lead to an instance of class `KPoint` 
             with identical values of attributes.
         '''
-        return "{0} : {1}  : {2}".format(
+        return "kpoint {0} : {1}  : {2}".format(
             self.name,
             " ".join(str(x) for x in self.k),
             " ".join(str(x) for x in sorted(self.isym)),
-- 
2.43.0


From 2869bea85d06d9ad7721794e1edef7fa2e02dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 42/52] fix: parity of inversion whose translation is zero
 within tolerance

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 10b600c..3bd5b5a 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -224,7 +224,7 @@ class Kpoint:
             found = False
             for i,sym in enumerate(self.little_group):
                 if (
-                    sum(abs(sym.translation)) < 1e-6
+                    abs(sym.translation).max() < 1e-5
                     and
                     abs(sym.rotation + np.eye(3)).sum() < 1e-6
                 ):
-- 
2.43.0


From 372c9e2586ac2192b5a6def317e62ecd4d0c6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 43/52] fix: error raised for a plane wave without image

---
 irrep/gvectors.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 4f900f1..536a26b 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -324,14 +324,13 @@ def transformed_g(kpt, ig, RecLattice, A):
             raise RuntimeError(
                     "Error in the transformation of plane-waves in k-point={}: "
                     .format(kpt) +
-                    "Not pair found for the g-vector igTr[{i}]={igtr}"
+                    "Not pair found for the g-vector igTr[{i}]={igtr} "
                     .format(i=i, igtr=igTr[:,i]) +
                     "obtained when transforming the g-vector ig[{i}]={ig} "
-                    .format(i=i, ig=ig[:3,i] +
+                    .format(i=i, ig=ig[:3,i]) +
                     "with the matrix {B}, where B=inv(A).T with A={A}"
                     .format(B=B, A=A)
                 )
-            )
     return rotind
 
 
-- 
2.43.0


From 43f6af5d51a3e3ed996024ce70883fad42f7c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 44/52] fix: images of plane waves when the lattice is given
 with few digits

---
 irrep/gvectors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 536a26b..1e3bbcd 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -320,6 +320,12 @@ def transformed_g(kpt, ig, RecLattice, A):
             if (igTr[:, i] == ig[:3, j]).all():
                 rotind[i] = j
                 break
+        if rotind[i] == -1:
+            # energies may differ by more than the threshold of sortIG when 
+            # the lattice is given with few digits
+            pair = np.where((ig[:3] == igTr[:, i, None]).all(axis=0))[0]
+            if len(pair) > 0:
+                rotind[i] = pair[0]
         if rotind[i] == -1:
             raise RuntimeError(
                     "Error in the transformation of plane-waves in k-point={}: "
-- 
2.43.0


From 43365dd59d717b97ca7c59dd2441aaf804688888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 45/52] fix: number of inversion-odd states in the subspaces of
 a symmetry

---
 irrep/kpoint.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 3bd5b5a..5fc1ed5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -221,16 +221,9 @@ class Kpoint:
             self.char, self.char_refUC, self.Energy_mean = self.calculate_traces(refUC, shiftUC, symmetries_tables, v)
 
             # Determine number of band inversions based on parity
-            found = False
-            for i,sym in enumerate(self.little_group):
-                if (
-                    abs(sym.translation).max() < 1e-5
-                    and
-                    abs(sym.rotation + np.eye(3)).sum() < 1e-6
-                ):
-                    found = True
-                    break
-            if found:
+            inversion = self._get_inversion()
+            if inversion is not None:
+                i = self.little_group.index(inversion)
                 # Number of inversion odd states (not pairs!)
                 self.num_bandinvs = int(round(sum(self.degeneracies - self.char[:,i].real) / 2))
             else:
@@ -239,6 +232,20 @@ class Kpoint:
         if not save_wf:
             self.WF = None
 
+    def _get_inversion(self):
+        """
+        Returns the symmetry of the little group that is an inversion without 
+        translation. `None` if there isn't any.
+        """
+        for sym in self.little_group:
+            if (
+                abs(sym.translation).max() < 1e-5
+                and
+                abs(sym.rotation + np.eye(3)).sum() < 1e-6
+            ):
+                return sym
+        return None
+
     @property
     def K(self):
         """Getter for the redfuced coordinates of the k-point
@@ -312,6 +319,21 @@ class Kpoint:
         for i in inds:
             irreps.append(other.irreps[i])
         other.irreps = irreps
+
+        # Parity of these states only
+        inversion = self._get_inversion()
+        if inversion is not None:
+            parity = symm_eigenvalues(
+                other.k,
+                other.RecLattice,
+                other.WF,
+                other.ig,
+                inversion.rotation,
+                inversion.spinor_rotation,
+                inversion.translation,
+                other.spinor,
+            ).sum().real
+            other.num_bandinvs = int(round((other.num_bands - parity) / 2))
         return other
 
     def unfold(self, supercell, kptPBZ, degen_thresh=1e-4):
-- 
2.43.0


From 5dc57cb188c7c7edb8f98d292c04575a4faad34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 46/52] fix: separation by the identity when it isn't the first
 operation of the file

---
 irrep/bandstructure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 206fe86..2348d65 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -657,11 +657,16 @@ class BandStructure:
             the subspace of that eigenvalue.
         """
 
-        if isymop == 1:
+        symop = self.spacegroup.symmetries[isymop - 1]
+
+        # The identity may not be the first symmetry of a symmetry file
+        if (
+            np.allclose(symop.rotation, np.eye(3))
+            and np.allclose(symop.translation, 0, atol=1e-5)
+        ):
             return {1: self}
 
         # Print description of symmetry used for separation
-        symop = self.spacegroup.symmetries[isymop - 1]
         symop.show()
 
         # Separate each k-point
-- 
2.43.0


From f39bb354d3709124cc4fd4c22e31d269531c167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 47/52] fix: little group of k points given with few digits

---
 irrep/gvectors.py | 2 +-
 irrep/kpoint.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 1e3bbcd..14510a6 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -304,7 +304,7 @@ def transformed_g(kpt, ig, RecLattice, A):
     B = np.linalg.inv(A).T
     kpt_ = B.dot(kpt)
     dkpt = np.array(np.round(kpt_ - kpt), dtype=int)
-    if not np.isclose(dkpt, kpt_ - kpt).all():
+    if not np.allclose(dkpt, kpt_ - kpt, rtol=0, atol=1e-4):
         raise NotSymmetryError(
             "The k-point {0} is transformed to non-equivalent point {1}  under transformation\n {2}".format(
                 kpt, kpt_, A
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 5fc1ed5..c6cd517 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -201,7 +201,8 @@ class Kpoint:
                 continue
             k_rotated = np.dot(np.linalg.inv(symop.rotation).T, self.k)
             dkpt = np.array(np.round(k_rotated - self.k), dtype=int)
-            if np.allclose(dkpt, k_rotated - self.k):
+            # k in files is rounded
+            if np.allclose(dkpt, k_rotated - self.k, rtol=0, atol=1e-4):
                 self.little_group.append(symop)
 
         # Sort symmetries based on their indices
-- 
2.43.0


From 6767ff66d0ee72be236f18632c5a0f44ad662d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 48/52] fix: imaginary parts of printed characters that are
 complex in the reference cell only

---
 irrep/kpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index c6cd517..631bbf1 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -758,7 +758,8 @@ class Kpoint:
             str_irreps.append(s)
 
         # Set auxiliary blank strings for formatting
-        writeimaginary = np.abs(self.char.imag).max() > 1e-4
+        writeimaginary = max(np.abs(self.char.imag).max(),
+                             np.abs(self.char_refUC.imag).max()) > 1e-4
         if writeimaginary:
             aux1 = ' ' * 4
         else:
-- 
2.43.0


From c0bee2875f7aa373d581b01bb759ed9a51aab683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 49/52] fix: refuse to separate by a symmetry that doesn't
 exist

---
 irrep/bandstructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 2348d65..f1a0e49 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -657,6 +657,9 @@ class BandStructure:
             the subspace of that eigenvalue.
         """
 
+        if not 1 <= isymop <= len(self.spacegroup.symmetries):
+            raise RuntimeError("There is no symmetry {} to separate states"
+                               .format(isymop))
         symop = self.spacegroup.symmetries[isymop - 1]
 
         # The identity may not be the first symmetry of a symmetry file
-- 
2.43.0


From 63a5e00473073bbf4e3da6f0d3d3334f89d81374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 50/52] fix: read the crystal structure of Quantum Espresso's
 output, not that of its input

---
 irrep/readfiles.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 7b5f677..dcd94cc 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -540,6 +540,9 @@ class ParserEspresso:
     input : class
         Instance of `Element` in the ElementTree XML API corresponding 
         to tag `input` in `data-file-schema.xml` file
+    output : class
+        Instance of `Element` in the ElementTree XML API corresponding 
+        to tag `output` in `data-file-schema.xml` file
     bandstructure : class
         Instance of `Element` in the ElementTree XML API corresponding 
         to tag `band_structure` in `data-file-schema.xml` file
@@ -553,8 +556,8 @@ class ParserEspresso:
         myroot = mytree.getroot()
 
         self.input = myroot.find("input")
-        outp = myroot.find("output")
-        self.bandstr = outp.find("band_structure")
+        self.output = myroot.find("output")
+        self.bandstr = self.output.find("band_structure")
 
         # todo: define spinor as property with getter
         self.spinor = str2bool(self.bandstr.find("noncolin").text)
@@ -633,6 +636,11 @@ class ParserEspresso:
         alat = float(struct.attrib["alat"])
         del nat
 
+        # Structure of the wave functions: it differs from that of the input 
+        # if it was relaxed or read from a previous calculation
+        if self.output.find("atomic_structure") is not None:
+            struct = self.output.find("atomic_structure")
+
         # Parse lattice vectors
         lattice = []
         for i in range(3):
-- 
2.43.0


From d1b38d4d4ebfa4151f920080ce1fce619fcefd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 51/52] fix: read VASP files of cells that are not reduced

The search of plane waves was given up when ten successive shells of
|g1|+|g2|+|g3| held none, although with long or skew vectors there are
plane waves farther out. It ends now where none can be below the cutoff.
---
 irrep/gvectors.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 14510a6..c571264 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -102,9 +102,9 @@ def calc_gvectors(
     igp = np.zeros(3)
     igall = []
     Eg = []
-    memory = np.full(10, True)
+    # plane waves below Ecut have |K+g| <= gmax in each direction
+    gmax = np.sqrt(Ecut * twomhbar2) * la.norm(la.inv(B), axis=0)
     for N in range(nplanemax):
-        flag = True
         if N % 10 == 0:
             msg = f'Cycle {N:>3d}: number of plane waves = {len(igall):>10d}'
             log_message(msg, v, 2)
@@ -114,7 +114,7 @@ def calc_gvectors(
             else:      # Sure that not spinors?
                 if len(igall) >= nplane: # spinor=F, all plane waves found
                     break
-        if nplane < np.inf and len(igall) > 0 and np.all(memory):
+        if nplane < np.inf and N > np.sum(np.ceil(gmax + abs(np.array(K)))):
             # probably spinor wrong set, or cutoff of another calculation
             raise RuntimeError(
                   "calc_gvectors is stuck "
@@ -135,15 +135,11 @@ def calc_gvectors(
                     if etot < Ecut:
                         igall.append(igp)
                         Eg.append(etot)
-                        flag = False
-        memory[:-1] = memory[1:]
-        memory[-1] = flag
 
     ncnt = len(igall)
     if nplane < np.inf: # vasp
         # the loop stopped at nplane plane waves, there should be no others 
         # below Ecut
-        gmax = np.sqrt(Ecut * twomhbar2) * la.norm(la.inv(B), axis=0)
         box = [np.arange(np.floor(-k - g), np.ceil(-k + g) + 1)
                for k, g in zip(K, gmax)]
         box = np.stack(np.meshgrid(*box, indexing='ij'), axis=-1)
-- 
2.43.0


From 9fabc4cb68ac0c2e4221e30a795ec1bfad1675fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 52/52] fix: write complex eigenvalues of separating symmetries
 in JSON

---
 irrep/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 6540af3..cad0c9a 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -445,7 +445,10 @@ def cli(
                 if kpnames is not None:
                     names = {KP.ik0: name for KP, name in zip(bandstr.kpoints, kpnames)}
                     sub_kpnames = [names[KP.ik0] for KP in sub.kpoints]
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(sub_kpnames)})
+                eigenvalues = k
+                if not groupkramers:  # complex, write real and imaginary parts
+                    eigenvalues = [(ev.real, ev.imag) for ev in k]
+                json_data["characters and irreps"].append({"symmetry eigenvalues": eigenvalues , "subspace": sub.json(sub_kpnames)})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0

