From 52b12ce27aed0316e0a07ecae590fc1f5dadde2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 01/31] fix: compare the symmetry flag by value, not by
 identity

A dynamically created 'spin' string silently lost the spin duplication of tleads, lead and phonon parameters.
---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From f95ae490156f2cd27a32e905975f052ea2444927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 02/31] fix: density-matrix accessors for population-only
 approaches and removed states

get_phi0 raised IndexError for Pauli and RTD off-diagonal elements (the funcp.kerntype it tested is never
'Pauli'), returned another state's element for removed states, and get_phi1 raised TypeError where no current
amplitudes exist.
---
 qmeq/builder/various.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..0532735 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -27,6 +27,29 @@ def get_charge(self, b):
     return sum(self.si.get_state(b))
 
 
+def get_kept_charge(self, b):
+    """
+    Get charge of the many-body state b, if it is used in the calculations.
+
+    Parameters
+    ----------
+    self : Builder or Approach.
+        The system given as Builder or Approach object.
+    b : int
+        Label of the many-body state.
+
+    Returns
+    -------
+    int or None
+        Position in si.statesdm of the charge sector containing b.
+        None if the state was removed from the calculations.
+    """
+    for charge in range(self.si.ncharge):
+        if b in self.si.statesdm[charge]:
+            return charge
+    return None
+
+
 def multiarray_sort(arr, srt=[0]):
     """
     Sort rows of a two-dimensional array for a given
@@ -101,10 +124,13 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_kept_charge(self, b)
+    bpcharge = get_kept_charge(self, bp)
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
+    if bcharge is None or bpcharge is None:
+        return phi0bbp
+    # Approaches like Pauli or RTD have just populations
+    if len(self.phi0) == self.si.npauli:
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -141,14 +167,17 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    # Approaches like Pauli, Lindblad, or RTD do not have current amplitudes
+    if self.phi1 is None:
         return None
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_kept_charge(self, c)
+        bcharge = get_kept_charge(self, b)
         phi1cb = 0.0
+        if ccharge is None or bcharge is None:
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0


From 31b06ccdc4a3f14802423d0e698aa2b69424180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 03/31] fix: let change() set Coulomb matrix elements to zero
 when given as a list

make_coulomb_dict dropped zero entries of lists and arrays, so change(coulomb=[[m, n, k, l, 0]]) had no effect.
---
 qmeq/qdot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..76c4e4e 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,7 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +839,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 028c8be9a746c7e2f735ecf79ccc209e9e3e17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 04/31] fix: keep the single-particle amplitudes used by RTD in
 step with tleads

change(tleads=...) never refreshed tleads_array and the compiled RTD approach kept a view of a replaced array, so
its energy currents were computed with old amplitudes. update_Tba0/update_Vbbp0 also ignored the conversion of
list input and of the spin symmetry.
---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..28c5e6c 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -471,7 +471,8 @@ class LeadsTunneling(object):
                         self.tleads[j0] += tleads[j0]
                     else:
                         self.tleads.update({j0: tleads[j0]})
-                self.tleads_array = make_tleads_array(self.tleads, self.si)
+            # The array is updated in place, because it can be shared with an approach
+            self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             self.Tba0 = construct_Tba(self, tleads, self.Tba0)
 
     def change(self, tleads=None, mulst=None, tlst=None, dlst=None):
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From 97a579368f5051ac9481bcfb46c1c422c6aac825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 05/31] fix: accept Coulomb matrix elements given as an array

The documented array format failed, because the state labels stayed floating point numbers.
---
 qmeq/qdot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 76c4e4e..80716a6 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -652,7 +652,7 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
         for j0 in coulomb:
             m, n, k, l, U = j0
             if U != 0 or add_zeros:
-                coulomb_dict.update({(m, n, k, l): U})
+                coulomb_dict.update({tuple(int(np.real(j1)) for j1 in (m, n, k, l)): U})
     else:
         return {}
     #
-- 
2.43.0


From 79502fed2e03fc59f78e91e735441e253901cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 06/31] fix: do not modify the list given to sort_eigenstates

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 0532735..eb9022d 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -99,7 +99,7 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt) + [-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
-- 
2.43.0


From 8df1957f0ca5faa5326e02f38e99ced26882efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 07/31] fix: remove_coherences drops the removed elements from
 the equations and can be repeated

The removed elements stayed in booldm0/inddm0 and the approach was not told to prepare its arrays
again, so that a removal after a solve used stale sizes and a second removal failed.
---
 qmeq/builder/various.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index eb9022d..50a05e7 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -290,6 +290,7 @@ def remove_coherences(self, dE):
             b, bp = si.inddm0[ind]
             if abs(E[b]-E[bp]) > dE:
                 si.mapdm0[i] = -1
+                si.booldm0[i] = False
             else:
                 ilst.append(i)
                 indlst.append(ind)
@@ -307,8 +308,14 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        old_ind = si.mapdm0[ilst[i]]
+        inddm0[indlst[i]] = si.inddm0[old_ind]
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
+    # The arrays of the approach have to be prepared again
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From 8724dd1554f7e663ca6f78b417c1aa4c30b09872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 08/31] fix: switching mfreeq or solmethod takes effect on the
 next solve

The arrays and the solver were not prepared again, so that a switch after a solve used the kernel
handler, or the solution method, of the previous mode; setting solmethod of a compiled approach
before the first solve raised.
---
 qmeq/approach/aprclass.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..2aeb332 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -66,13 +66,17 @@ class Approach(object):
     @solmethod.setter
     def solmethod(self, value):
         self.funcp.solmethod = value
-        self.prepare_solver()
+        # The solver is prepared again on the next call of solve()
+        self.is_prepared = False
 
     @property
     def mfreeq(self):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -197,14 +201,17 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            # The methods for a kernel matrix can be left over from a previous solution
+            if solmethod in {None, 'solve', 'lsqr'}:
+                solmethod = 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        # The matrix free methods can be left over from a previous solution
+        if solmethod not in {'solve', 'lsqr'}:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
-- 
2.43.0


From 8810e0e0dc9ef6c7f149d5cff5e07ec5e2aeb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 09/31] fix: prepare the approach again when its input arrays
 are replaced or make_kern_copy is set

Compiled approaches kept using the old arrays after, for example, an assignment of a new mulst or Tba
following a solve, and ignored make_kern_copy set after a solve.
---
 qmeq/approach/aprclass.py    | 18 +++++++++++++++++-
 qmeq/approach/c_aprclass.pyx | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 2aeb332..edbf5b2 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -123,6 +123,7 @@ class Approach(object):
     def restart(self):
         """Restart values of some variables."""
         self.is_prepared = False
+        self.prepared_for = []
         self.make_kern_copy = False
 
         self.kern, self.bvec, self.norm_vec = None, None, None
@@ -141,8 +142,19 @@ class Approach(object):
     def get_kern_size(self):
         return self.si.ndm0r
 
+    def get_prepared_for(self):
+        """Returns a list of objects for which the arrays of the approach are prepared."""
+        return [self.qd.Ea, self.leads.Tba, self.leads.mulst, self.leads.tlst, self.leads.dlst]
+
+    def needs_preparation(self):
+        """Determines if the arrays of the approach have to be prepared (again)."""
+        if not self.is_prepared or self.si.states_changed:
+            return True
+        # For example, Tba or mulst were replaced by new arrays
+        return any(old is not new for old, new in zip(self.prepared_for, self.get_prepared_for()))
+
     def prepare_kern(self):
-        if self.is_prepared and not self.si.states_changed:
+        if not self.needs_preparation():
             self.clean_arrays()
             return
 
@@ -150,6 +162,7 @@ class Approach(object):
         self.prepare_arrays()
         self.prepare_solver()
 
+        self.prepared_for = self.get_prepared_for()
         self.si.states_changed = False
         self.is_prepared = True
 
@@ -413,6 +426,9 @@ class ApproachElPh(Approach):
         self.w1fct, self.paulifct_elph = None, None
         self.tLbbp = None
 
+    def get_prepared_for(self):
+        return Approach.get_prepared_for(self) + [self.baths.tlst_ph, self.baths.dlst_ph, self.baths.Vbbp]
+
     def rotate(self):
         self.leads.rotate(self.qd.vecslst)
         self.baths.rotate(self.qd.vecslst)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..a4f00e5 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -87,6 +87,8 @@ cdef class Approach:
     @make_kern_copy.setter
     def make_kern_copy(self, value):
         self._make_kern_copy = value
+        # The solver is prepared again on the next call of solve()
+        self.is_prepared = False
 
     #endregion Properties
 
@@ -101,8 +103,14 @@ cdef class Approach:
     def get_kern_size(self):
         return ApproachPy.get_kern_size(self)
 
+    def get_prepared_for(self):
+        return ApproachPy.get_prepared_for(self)
+
+    def needs_preparation(self):
+        return ApproachPy.needs_preparation(self)
+
     cpdef void prepare_kern(self):
-        if self.is_prepared and not self.si.states_changed:
+        if not self.needs_preparation():
             self.clean_arrays()
             return
 
@@ -114,6 +122,7 @@ cdef class Approach:
         self._norm_row = self.funcp.norm_row
         self._symq = self.funcp.symq
 
+        self.prepared_for = self.get_prepared_for()
         self.si.states_changed = False
         self.is_prepared = True
 
@@ -296,5 +305,8 @@ cdef class ApproachElPh(Approach):
     def restart(self):
         ApproachElPhPy.restart(self)
 
+    def get_prepared_for(self):
+        return ApproachElPhPy.get_prepared_for(self)
+
     def rotate(self):
         ApproachElPhPy.rotate(self)
-- 
2.43.0


From fb8b81a71cc9dfd998be55ebdf8cfe8e6c025414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 10/31] fix: RTD with removed states, toggled off-diagonal
 corrections and changed number of states

The energy current indexed Ea by the position of the population instead of the many-body state,
off_diag_corrections switched after a solve used unallocated arrays, the flag of complex amplitudes
survived a preparation, and the per-thread copies were allocated for the initial number of states.
---
 qmeq/approach/base/RTD.py    | 8 ++++++--
 qmeq/approach/base/c_RTD.pyx | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..44ebfd0 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -44,11 +44,16 @@ class ApproachPyRTD(Approach):
         self.ImWdn = None
         self.Lnn = None
 
+    def get_prepared_for(self):
+        return Approach.get_prepared_for(self) + [self.leads.tleads_array, self.funcp.off_diag_corrections]
+
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
+        self.ImGamma = False
+        self.off_diag_corrections = self.funcp.off_diag_corrections
 
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
@@ -120,7 +125,6 @@ class ApproachPyRTD(Approach):
         """
         si, kh = self.si, self.kernel_handler
         ncharge, statesdm = si.ncharge, si.statesdm
-        self.off_diag_corrections = self.funcp.off_diag_corrections
 
         if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
@@ -213,7 +217,7 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = 2 * np.array([self.qd.Ea[b] for states in self.si.statesdm for b in states])
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..86de727 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -71,9 +69,12 @@ cdef class ApproachRTD(Approach):
     def restart(self):
         ApproachPyRTD.restart(self)
 
+    def get_prepared_for(self):
+        return ApproachPyRTD.get_prepared_for(self)
 
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
+        self.ImGamma = False
         cdef KernelHandlerRTD kh = self._kernel_handler
 
         cdef long_t nleads = kh.nleads
@@ -83,6 +84,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # For parallel
+        self.nbr_Wdd2_copies = min(kern_size, openmp.omp_get_max_threads())
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
@@ -261,7 +264,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From 49e61b371b211cae7693bdbd04a17061cafd37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 11/31] fix: repeated removal of Fock states in Lin indexing,
 stale state order, shared sector lists

A second remove_fock_states used renumbered labels in the Lin indexing, states_order kept the removed
states, and set_statesdm of StateIndexingDMc and StateIndexingPauli extended the list it was given.
---
 qmeq/indexing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..70b9cd3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -506,15 +506,18 @@ class StateIndexing(object):
             print("WARNING: For 'sz' or 'ssq' indexing, nsingle has to be even. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         elif indexing == 'Lin':
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         else:
             print("WARNING: The indexing has to be 'Lin', 'charge', or 'sz'. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         self.j = make_inverse_map(self.i)
@@ -625,7 +628,7 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        chargelst_lin = self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
@@ -662,6 +665,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
@@ -718,7 +722,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1096,7 +1100,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From 9903444fd9f3882e7411bc18aac3f0bac65adc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/31] fix: accept an Approach class as kerntype on
 construction

---
 qmeq/builder/builder_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..9d26ebb 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -125,7 +125,6 @@ class BuilderBase(object):
             self.Approach = self.globals['Approach'+approach_string]
         elif issubclass(kerntype, Approach):
             self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
 
     def _init_create_setup(self):
         data = self.data
-- 
2.43.0


From 13d2458c361272610dd49bba498945c68869acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 13/31] fix: validate itype, mfreeq and indexing whenever the
 approach or the setting changes

mfreeq=True with the RTD approach crashed the interpreter, and a change of kerntype to 2vN or RTD kept
an indexing, itype or mfreeq which the constructor replaces by a supported value.
---
 qmeq/builder/builder_base.py | 26 ++++++++++++++++++++++++--
 qmeq/builder/validation.py   | 11 +++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 9d26ebb..d066e84 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -23,7 +23,9 @@ from .various import use_all_states
 
 from .validation import validate_kerntype
 from .validation import validate_itype
+from .validation import validate_mfreeq
 from .validation import validate_indexing
+from .validation import validate_kerntype_change
 
 # -----------------------------------------------------------
 # Python modules
@@ -68,8 +70,8 @@ attribute_map = dict(
     iters='appr', kern='appr', success='appr', make_kern_copy='appr',
     # FunctionProperties
     kpnt='funcp', symq='appr', norm_row='appr', solmethod='appr',
-    itype='appr', dqawc_limit='funcp',
-    mfreeq='appr', phi0_init='funcp', off_diag_corrections='funcp'
+    dqawc_limit='funcp',
+    phi0_init='funcp', off_diag_corrections='funcp'
     )
 
 
@@ -111,6 +113,7 @@ class BuilderBase(object):
         data = self.data
         data.itype = validate_itype(data.itype, data.kerntype)
         data.kerntype = validate_kerntype(data.kerntype)
+        data.mfreeq = validate_mfreeq(data.kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
                                           data.kerntype)
@@ -177,9 +180,12 @@ class BuilderBase(object):
     def set_kerntype(self, value):
         if isinstance(value, str):
             if self.appr.kerntype != value:
+                validate_kerntype_change(value, self.si)
                 approach_string = value[0].capitalize() + value[1:]
                 self.Approach = self.globals['Approach'+approach_string]
                 self.change_si()
+                self.funcp.itype = validate_itype(self.funcp.itype, value)
+                self.funcp.mfreeq = validate_mfreeq(value, self.funcp.mfreeq)
                 self.appr = self.Approach(self)
         else:
             if issubclass(value, Approach):
@@ -198,6 +204,22 @@ class BuilderBase(object):
                   + '\' Consider constructing a new system using \'indexing='+value+'\'')
     indexing = property(get_indexing, set_indexing)
 
+    # itype
+    def get_itype(self):
+        return self.appr.itype
+
+    def set_itype(self, value):
+        self.appr.itype = validate_itype(value, self.kerntype)
+    itype = property(get_itype, set_itype)
+
+    # mfreeq
+    def get_mfreeq(self):
+        return self.appr.mfreeq
+
+    def set_mfreeq(self, value):
+        self.appr.mfreeq = validate_mfreeq(self.kerntype, value)
+    mfreeq = property(get_mfreeq, set_mfreeq)
+
     # dband
     def get_dband(self):
         return self.funcp.dband
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9135908..49cfdea 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -32,8 +32,8 @@ def validate_itype_ph(itype_ph):
     return itype_ph
 
 def validate_mfreeq(kerntype, mfreeq):
-    if mfreeq and kerntype in {'RTD', 'pyRTD'}:
-        print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+    if mfreeq and kerntype in {'RTD', 'pyRTD', '2vN', 'py2vN'}:
+        print("WARNING: mfreeq=True is not supported by the RTD and 2vN approaches. Using default mfreeq=False.")
         mfreeq = False
     return mfreeq
 
@@ -65,3 +65,10 @@ def validate_indexing(indexing, symmetry, kerntype):
         indexing = 'charge'
 
     return indexing, symmetry
+
+
+def validate_kerntype_change(kerntype, si):
+    """Determines if the approach can be changed to kerntype for already constructed state indexing."""
+    if kerntype in {'2vN', 'py2vN', 'RTD', 'pyRTD'} and si.indexing not in {'Lin', 'charge'}:
+        raise ValueError('The ' + kerntype + ' approach is not supported for indexing=\'' + si.indexing + '\'. '
+                         + 'Consider constructing a new system using indexing=\'charge\'.')
-- 
2.43.0


From f8d5336d6319ec80e5323d775598791749676677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 14/31] fix: gain term of the phonon jump operators in the
 compiled Lindblad approach

The second jump operator amplitude used the state a instead of ap.
---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From ac96eaa418193dbaf2bd97d9c22767729d2dd938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 15/31] fix: switching between approach families keeps removed
 states, state order and phonon baths

---
 qmeq/builder/builder_base.py | 12 +++++++++++-
 qmeq/builder/builder_elph.py | 15 ++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index d066e84..58375c0 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -168,11 +168,21 @@ class BuilderBase(object):
         icn = self.Approach.indexing_class_name
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
-            self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self.si = self.create_si(self.globals[icn], si)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def create_si(self, si_class, si):
+        """Creates the state indexing of the given class, which describes the same states as si."""
+        si_new = si_class(si.nsingle, si.indexing, si.symmetry, si.nleads)
+        si_new.nbaths = si.nbaths
+        if si.removed_fock_states is not None:
+            si_new.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+        si_new.set_statesdm(si.statesdm[:si.ncharge])
+        si_new.states_order = si.states_order
+        return si_new
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..5aa8bbe 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -37,7 +37,7 @@ except ImportError:
 
 attribute_map_elph = dict(
     # StateIndexing
-    baths='si', velph='baths',
+    nbaths='si', velph='baths',
     # PhononBaths
     tlst_ph='baths', dlst_ph='baths',
     Vbbp='baths', bath_func='baths',
@@ -112,14 +112,11 @@ class BuilderElPh(BuilderBase):
 
     def change_si(self):
         BuilderBase.change_si(self)
+        self.baths.si = self.si
         self.create_si_elph()
 
     def create_si_elph(self):
-        si = self.si
-        si_elph = StateIndexingDMc(si.nsingle, si.indexing,
-                                   si.symmetry, si.nleads)
-        si_elph.nbaths = si.nbaths
-        self.si_elph = si_elph
+        self.si_elph = self.create_si(StateIndexingDMc, self.si)
 
     def add(self,
             hsingle=None, coulomb=None, tleads=None, mulst=None, tlst=None, dlst=None,
@@ -137,13 +134,17 @@ class BuilderElPh(BuilderBase):
 
     def remove_states(self, dE):
         BuilderBase.remove_states(self, dE)
-        self.si_elph.set_statesdm(self.si.statesdm)
+        self.si_elph.set_statesdm(self.si.statesdm[:self.si.ncharge])
 
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
         self.si_elph.remove_fock_states(lin_state_indices)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm[:self.si.ncharge])
+
 
 class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
     """
-- 
2.43.0


From 428a2e3f469d3035122f251a673a1dc44e50eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 16/31] fix: reject normalisation rows which are out of bounds
 or give a singular kernel

---
 qmeq/approach/aprclass.py    | 13 +++++++++++++
 qmeq/approach/c_aprclass.pyx |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index edbf5b2..55a5c46 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -315,6 +315,17 @@ class Approach(object):
 
     #region Solution
 
+    def check_norm_row(self):
+        """Determines if norm_row is the row of a diagonal density matrix element."""
+        # Only the equations for the diagonal elements are linearly dependent
+        # and one of them can be replaced by the normalisation condition.
+        if not (self.funcp.symq or self.funcp.mfreeq):
+            return
+        npauli = self.si.npauli
+        if not 0 <= self.funcp.norm_row < npauli:
+            raise ValueError('norm_row needs to be between 0 and ' + str(npauli-1) + ', the given value is '
+                             + str(self.funcp.norm_row) + '.')
+
     def solve_kern(self):
         """Finds the stationary state using least squares or using LU decomposition."""
         solmethod = self.funcp.solmethod
@@ -402,6 +413,7 @@ class Approach(object):
                 self.rotate()
         #
         if masterq:
+            self.check_norm_row()
             self.prepare_kern()
             self.generate_fct()
             if not self.funcp.mfreeq:
@@ -629,6 +641,7 @@ class ApproachBase2vN(Approach):
             if niter is None:
                 raise ValueError('Number of iterations niter needs to be specified')
 
+            self.check_norm_row()
             for it in range(niter):
                 self.iteration()
                 if func_iter is not None:
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index a4f00e5..5614d17 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -271,6 +271,9 @@ cdef class Approach:
     def set_phi0_init(self):
         return ApproachPy.set_phi0_init(self)
 
+    def check_norm_row(self):
+        ApproachPy.check_norm_row(self)
+
     def rotate(self):
         ApproachPy.rotate(self)
 
-- 
2.43.0


From 9c2512a545394491764eec0b6c3fbb2828a8e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 17/31] fix: removal of coherences in approaches which need all
 of them

---
 qmeq/builder/builder_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 58375c0..77d1b10 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -171,6 +171,9 @@ class BuilderBase(object):
             self.si = self.create_si(self.globals[icn], si)
             self.qd.si = self.si
             self.leads.si = self.si
+        elif self.Approach.kerntype in {'RTD', 'pyRTD'}:
+            # Removal of coherences is not supported by the RTD approach
+            si.set_statesdm(si.statesdm[:si.ncharge])
         self.si.states_changed = True
 
     def create_si(self, si_class, si):
@@ -307,6 +310,9 @@ class BuilderBase(object):
         """
         Remove the coherences with energy difference larger than dE.
         """
+        if self.kerntype in {'2vN', 'py2vN', 'RTD', 'pyRTD'}:
+            print("WARNING: Removal of coherences is not supported by the RTD and 2vN approaches.")
+            return
         remove_coherences(self, dE)
 
     def remove_states(self, dE):
-- 
2.43.0


From 2072c1d3117bf1c1ec6ab779e135c284306b0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 18/31] fix: state indexing of systems given by many-body
 states

---
 qmeq/builder/builder_base.py | 42 +++++++++++++++++++++++++-----------
 qmeq/builder/builder_elph.py | 11 +++++++---
 qmeq/builder/various.py      |  2 +-
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 77d1b10..db29fee 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -4,10 +4,12 @@ import copy
 import numpy as np
 
 from ..wrappers.mytypes import longnp
+from ..wrappers.mytypes import doublenp
 
 from ..approach.aprclass import Approach
 from ..indexing import StateIndexingDM
 from ..indexing import StateIndexingDMc
+from ..indexing import make_quantum_numbers
 from ..qdot import QuantumDot
 from ..leadstun import LeadsTunneling
 from .funcprop import FunctionProperties
@@ -373,24 +375,40 @@ class BuilderManyBody(BuilderBase):
 
         self._init_state_indexing(Na, Ea)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
+        self.qd.Ea = np.array(Ea, dtype=doublenp) if Ea is not None else None
+        self.leads.Tba = np.array(Tba, dtype=mtype_leads) if Tba is not None else None
 
     def _init_state_indexing(self, Na, Ea):
         Na = np.array(Na, dtype=int)
         nmin, nmax = Na.min(), Na.max()
-        ncharge = nmax-nmin+1
         nmany = len(Ea) if Ea is not None else 0
 
-        statesdm = [[] for _ in range(ncharge)]
+        # Only the differences of the particle numbers are important
+        chargelst = [[] for _ in range(nmax-nmin+1)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            chargelst[Na[i]-nmin].append(i)
 
         self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+        self._set_many_body_states(self.si, chargelst)
+
+    @staticmethod
+    def _set_many_body_states(si, chargelst):
+        nmany, ncharge = sum(map(len, chargelst)), len(chargelst)
+        si.nmany = si.nmany_ = nmany
+        si.ncharge = ncharge
+        si.chargelst = chargelst
+        si.qn_ind, si.ind_qn = make_quantum_numbers(si)
+        si.states_order = list(range(nmany))
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(chargelst)
+
+    def create_si(self, si_class, si):
+        si_new = si_class(si.nsingle, si.indexing, si.symmetry, si.nleads)
+        si_new.nbaths = si.nbaths
+        self._set_many_body_states(si_new, si.chargelst)
+        si_new.set_statesdm(si.statesdm[:si.ncharge])
+        si_new.states_order = si.states_order
+        return si_new
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index 5aa8bbe..2b5a188 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,5 +1,9 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
+import numpy as np
+
+from ..wrappers.mytypes import doublenp
+
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -184,7 +188,8 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self._set_many_body_states(self.si_elph, self.si.chargelst)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
-        self.baths.Vbbp = Vbbp
+        self.qd.Ea = np.array(Ea, dtype=doublenp) if Ea is not None else None
+        self.leads.Tba = np.array(Tba, dtype=mtype_leads) if Tba is not None else None
+        self.baths.Vbbp = np.array(Vbbp, dtype=self.baths.mtype) if Vbbp is not None else None
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 50a05e7..e5be6e4 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -334,7 +334,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From bdefa56d4b7677db7730afe736ea321099a0b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 19/31] fix: pyRTD without off-diagonal corrections needs no
 off-diagonal matrices

---
 qmeq/approach/base/RTD.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 44ebfd0..c5af06d 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -82,11 +82,11 @@ class ApproachPyRTD(Approach):
             self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
             self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
 
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         kh.set_matrix_list()
 
-- 
2.43.0


From 4cb8f42c596894c09cffb780d99a19093d9188c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 20/31] fix: generate_vec returns a copy, because the solvers
 keep the returned values

---
 qmeq/approach/aprclass.py    | 3 ++-
 qmeq/approach/c_aprclass.pyx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 55a5c46..2c7ec2a 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -309,7 +309,8 @@ class Approach(object):
 
         self.dphi0_dt[norm_row] = norm-1
 
-        return self.dphi0_dt
+        # The solvers can keep the returned values, while dphi0_dt is reused
+        return np.array(self.dphi0_dt)
 
     #endregion Generation
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 5614d17..f9f4358 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -231,7 +231,8 @@ cdef class Approach:
 
         self._dphi0_dt[norm_row] = norm-1
 
-        return self._dphi0_dt
+        # The solvers can keep the returned values, while dphi0_dt is reused
+        return np.array(self._dphi0_dt)
 
 
     #endregion Generation
-- 
2.43.0


From 6f5c9769c9c81c292abcfdae1ef901ba349e4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 21/31] fix: currents of the matrix-free solution are generated
 from the solution

---
 qmeq/approach/aprclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 2c7ec2a..cafc9ef 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -384,6 +384,9 @@ class Approach(object):
             self.phi0.fill(0.0)
             self.success = False
 
+        # Use the solution and not the last evaluated vector when generating the current
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0


From 8d6163d836a8dd3ac91404a8f912e8b7661ad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 22/31] fix: real matrix types with the compiled approaches

---
 qmeq/approach/base/c_neumann2.pyx |  1 +
 qmeq/approach/c_aprclass.pyx      |  1 +
 qmeq/leadstun.py                  | 13 +++++++++++++
 3 files changed, 15 insertions(+)

diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..6a6fd1c 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -40,6 +40,7 @@ class Approach2vN(Approach2vNPy):
     no_coherences = False
 
     def prepare_kernel_handler(self):
+        self.leads.use_mtype(complex)
         self.kernel_handler = KernelHandler(self.si, self.no_coherences)
 
     def iterate(self):
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index f9f4358..ed72844 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -114,6 +114,7 @@ cdef class Approach:
             self.clean_arrays()
             return
 
+        self.leads.use_mtype(complex)
         self.prepare_kernel_handler()
         self.prepare_arrays()
         self.prepare_solver()
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 28c5e6c..9052c29 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -531,6 +531,19 @@ class LeadsTunneling(object):
         """
         self.Tba[:] = self.Tba0
 
+    def use_mtype(self, mtype=complex):
+        """
+        Changes the type of the Tba matrix. The compiled approaches need complex matrices.
+
+        Parameters
+        ----------
+        mtype : type
+            Defines type of the Tba matrix. For example, float, complex, etc.
+        """
+        self.mtype = mtype
+        if self.Tba.dtype != mtype:
+            self.Tba = self.Tba.astype(mtype)
+
     def update_Tba0(self, nleads, tleads, mtype=complex):
         """
         Updates the Tba0 in the Fock basis using new single-particle tunneling amplitudes.
-- 
2.43.0


From e472cf835d79b20248736f325b224a8e8adf1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 23/31] fix: accept compiled Approach classes as kerntype

---
 qmeq/builder/builder_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index db29fee..a1f1e5d 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -42,6 +42,7 @@ from ..approach.base.RTD import ApproachPyRTD as ApproachPyRTD
 # Cython compiled modules
 
 try:
+    from ..approach.c_aprclass import Approach as ApproachCompiled
     from ..approach.base.c_pauli import ApproachPauli
     from ..approach.base.c_lindblad import ApproachLindblad
     from ..approach.base.c_redfield import ApproachRedfield
@@ -50,6 +51,7 @@ try:
     from ..approach.base.c_RTD import ApproachRTD
 except ImportError as ie:
     print("WARNING: Cannot import Cython compiled modules for the approaches (builder_base.py).")
+    ApproachCompiled = Approach
     ApproachPauli = ApproachPyPauli
     ApproachLindblad = ApproachPyLindblad
     ApproachRedfield = ApproachPyRedfield
@@ -128,7 +130,7 @@ class BuilderBase(object):
         if isinstance(kerntype, str):
             approach_string = kerntype[0].capitalize() + kerntype[1:]
             self.Approach = self.globals['Approach'+approach_string]
-        elif issubclass(kerntype, Approach):
+        elif issubclass(kerntype, (Approach, ApproachCompiled)):
             self.Approach = kerntype
 
     def _init_create_setup(self):
@@ -203,7 +205,7 @@ class BuilderBase(object):
                 self.funcp.mfreeq = validate_mfreeq(value, self.funcp.mfreeq)
                 self.appr = self.Approach(self)
         else:
-            if issubclass(value, Approach):
+            if issubclass(value, (Approach, ApproachCompiled)):
                 self.Approach = value
                 self.change_si()
                 self.appr = self.Approach(self)
-- 
2.43.0


From 1846565a349ecc9a130bd4f3191be3f5995a5060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 24/31] fix: overflow guards of diff_fermi and bose account for
 the sign

---
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..d820210 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -100,7 +100,7 @@ cdef double_t fermi_func(double_t x) nogil:
 @cython.cdivision(True)
 cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
     """Calculates the derivative of the Fermi function."""
-    if x > 354.885:
+    if sign*x > 354.885:
         return 0.0
     cdef double_t e = exp(sign*x)
     return -sign*e / ((e + 1.0)**2)
@@ -109,7 +109,7 @@ cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
 @cython.cdivision(True)
 cdef double_t bose(double_t x, double_t sign=1) nogil:
     """Calculates the Bose distribution function at x."""
-    if x > 709.77: #To avoid overflow in the denominator.
+    if sign*x > 709.77: #To avoid overflow in the denominator.
         return 0.0
     cdef double_t e = exp( sign * x )
     return 1.0 / (e - 1.0)
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..67c59c7 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -213,7 +213,7 @@ def diff_fermi(x, sign=1):
     double
         The function value
     """
-    if x > 709.77 / 2:  # To avoid overflow in the denominator
+    if sign * x > 709.77 / 2:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return -sign * e / ((e + 1.0) ** 2)
@@ -234,7 +234,7 @@ def bose(x, sign=1):
     double
         The function value
     """
-    if x > 709.77:  # To avoid overflow in the denominator
+    if sign * x > 709.77:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return 1 / (e - 1)
-- 
2.43.0


From 0d6ad3e32905857c38c8f0650c929d02442d6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 25/31] fix: polygamma for arguments with negative real part

---
 qmeq/specfunc/c_specfunc.pyx | 21 ++++++++++++++-------
 qmeq/specfunc/specfunc.py    | 21 +++++++++++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index d820210..5f9629f 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -255,7 +255,7 @@ cdef complex_t digamma(complex_t z) nogil:
 @cython.cdivision(True)
 cdef complex_t polygamma( complex_t U, long_t K ) nogil:
     """Calculates the Kth derivative of the digamma function with argument U."""
-    cdef complex_t hh1, hh2, hh3, V, H, R, P
+    cdef complex_t hh1, hh2, hh3, V, H, R, P, Q
     cdef double X, A, B, T, Y
     cdef long_t i, K1
 
@@ -301,18 +301,25 @@ cdef complex_t polygamma( complex_t U, long_t K ) nogil:
         Y = V.imag
         A = sin( X )
         B = cos( X )
-        T = tanh( X )
-        P = B - 1j*A*T / (A + 1j*A*T)
+        T = tanh( Y )
+        P = (B - 1j*A*T) / (A + 1j*B*T)
+        Q = P**2 + 1.0
 
         if K == 0 :
             H = H + 1/ U
             H = H + P*pi
         elif K == 1 :
-            H =  H + 1/( U**2)
-            H = H + (P**2 + 1.0)*9.869604401089358
+            H = 1/(U**2) - H
+            H = H + Q*9.869604401089358
         elif K == 2 :
-            H = H + 1/(U**3)
-            H = H + (P**2 + 1.0)*62.01255336059963
+            H = H + 2/(U**3)
+            H = H + P*Q*62.01255336059963
+        elif K == 3 :
+            H = 6/(U**4) - H
+            H = H + Q*(1.0 + 3.0*P**2)*2*pi**4
+        elif K == 4 :
+            H = H + 24/(U**5)
+            H = H + P*Q*(2.0 + 3.0*P**2)*8*pi**5
 
     return H
 
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 67c59c7..65a6039 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -439,19 +439,28 @@ def polygamma(U, K):
         X, Y = V.real, V.imag
         A = np.sin(X)
         B = np.cos(X)
-        T = np.tanh(X)
-        P = B - 1j * A * T / (A + 1j * A * T)
+        T = np.tanh(Y)
+        P = (B - 1j * A * T) / (A + 1j * B * T)
+        Q = P ** 2 + 1.0
 
         if K == 0:
             H += 1 / U + P * PI
 
         elif K == 1:
-            H += 1 / (U ** 2)
-            H += (P ** 2 + 1.0) * 9.869604401089358
+            H = 1 / (U ** 2) - H
+            H += Q * 9.869604401089358
 
         elif K == 2:
-            H += 1 / (U ** 3)
-            H += (P ** 2 + 1.0) * 62.01255336059963
+            H += 2 / (U ** 3)
+            H += P * Q * 62.01255336059963
+
+        elif K == 3:
+            H = 6 / (U ** 4) - H
+            H += Q * (1 + 3 * P ** 2) * 2 * PI ** 4
+
+        elif K == 4:
+            H += 24 / (U ** 5)
+            H += P * Q * (2 + 3 * P ** 2) * 8 * PI ** 5
 
     return H
 
-- 
2.43.0


From 828360393a4e578603b353a3dab11e3ece64cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 26/31] fix: report a failure when the solution of the master
 equation is not finite

---
 qmeq/approach/aprclass.py    |  2 ++
 qmeq/approach/c_aprclass.pyx | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index cafc9ef..8417678 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -354,6 +354,8 @@ class Approach(object):
                 self.sol0 = np.linalg.lstsq(kern, bvec, rcond=-1)
 
             self.phi0[:] = self.sol0[0]
+            if not np.isfinite(self.phi0).all():
+                raise ValueError('The solution is not finite.')
             self.success = True
         except Exception as exept:
             self.funcp.print_error(exept)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index ed72844..b53cf0d 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -260,12 +260,16 @@ cdef class Approach:
         cdef long_t phi0_size = self._phi0.shape[0]
         self._phi0[:] = self._bvec[0:phi0_size]
 
-        if self._solver.info == 0:
-            self._success = True
-        else:
+        if self._solver.info != 0:
             self.funcp.print_error("Singular matrix.")
             self._phi0[::1] = 0.0
             self._success = False
+        elif not np.isfinite(self._phi0).all():
+            self.funcp.print_error("The solution is not finite.")
+            self._phi0[::1] = 0.0
+            self._success = False
+        else:
+            self._success = True
 
     def solve_matrix_free(self):
         ApproachPy.solve_matrix_free(self)
-- 
2.43.0


From 0df04f6bd51c6d144c1643884bc2a6f5c36aee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 27/31] fix: change() restores the Hamiltonian and couplings
 after values which are not finite

---
 qmeq/baths.py    | 5 +++++
 qmeq/leadstun.py | 6 ++++++
 qmeq/qdot.py     | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 9bc9b95..5a8c9d6 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -292,6 +292,11 @@ class PhononBaths(object):
                     if velph_diff != 0:
                         velph_add.update({j0: velph_diff})
                         self.velph.update({j0: velph_diff})
+            # The new values cannot be reached from values, which are not finite, by adding differences
+            if not np.isfinite(list(velph_add.values())).all():
+                self.velph.update(velph)
+                self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
+                return
             # Add the differences
             self.add(velph_add, updateq=False, lstq=False)
 
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 9052c29..67aa49f 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -508,6 +508,12 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            # The new values cannot be reached from values, which are not finite, by adding differences
+            if not np.isfinite(list(tleads_add.values())).all():
+                self.tleads.update(tleads)
+                self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
+                self.Tba0 = construct_Tba(self, self.tleads)
+                return
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 80716a6..226d553 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -871,6 +871,12 @@ class QuantumDot(object):
                     coulomb_add.update({j0: coulomb_diff})
                     if updateq:
                         self.coulomb.update({j0: coulomb_diff})
+        # The new values cannot be reached from values, which are not finite, by adding differences
+        if updateq and not np.isfinite(list(hsingle_add.values())+list(coulomb_add.values())).all():
+            self.hsingle.update(hsingle)
+            self.coulomb.update(coulomb)
+            self._init_hamiltonian()
+            return
         # Then add the differences
         self.add(hsingle_add, coulomb_add, False)
 
-- 
2.43.0


From 808a1f2b3a0f314ee7c444396356da6576f207d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 28/31] fix: exceptions in the integrals and spectral densities
 of the compiled approaches are not ignored

---
 qmeq/approach/base/c_RTD.pxd      |  2 +-
 qmeq/approach/base/c_RTD.pyx      |  6 +++---
 qmeq/approach/base/c_lindblad.pyx |  2 +-
 qmeq/approach/base/c_neumann1.pyx |  2 +-
 qmeq/approach/base/c_pauli.pyx    |  2 +-
 qmeq/approach/base/c_redfield.pyx |  2 +-
 qmeq/approach/c_aprclass.pxd      |  4 ++--
 qmeq/approach/c_aprclass.pyx      |  4 ++--
 qmeq/approach/elph/c_lindblad.pyx |  2 +-
 qmeq/approach/elph/c_neumann1.pyx |  2 +-
 qmeq/approach/elph/c_pauli.pyx    |  2 +-
 qmeq/approach/elph/c_redfield.pyx |  2 +-
 qmeq/specfunc/c_specfunc.pxd      |  2 +-
 qmeq/specfunc/c_specfunc.pyx      |  2 +-
 qmeq/specfunc/c_specfunc_elph.pxd | 10 +++++-----
 qmeq/specfunc/c_specfunc_elph.pyx | 10 +++++-----
 16 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pxd b/qmeq/approach/base/c_RTD.pxd
index 75ede3f..a065d8f 100644
--- a/qmeq/approach/base/c_RTD.pxd
+++ b/qmeq/approach/base/c_RTD.pxd
@@ -32,4 +32,4 @@ cdef class ApproachRTD(Approach):
     cdef void generate_col_nondiag_kern_1st_order_nd(self, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_row_inverse_Liouvillian(self, long_t, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_LN(self)
-    cdef void set_Ozaki_params(self)
\ No newline at end of file
+    cdef void set_Ozaki_params(self) except *
\ No newline at end of file
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 86de727..fd876ad 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -168,7 +168,7 @@ cdef class ApproachRTD(Approach):
             self._Lnn[::1] = 0.0
 
 
-    cpdef void generate_kern(self):
+    cpdef void generate_kern(self) except *:
         cdef long_t bcharge, b, bp, bcount, i, j
         cdef KernelHandlerRTD kh = self.kernel_handler
         cdef long_t ncharge = kh.ncharge
@@ -289,7 +289,7 @@ cdef class ApproachRTD(Approach):
                       ' particle state is connected to more than one lead.')
                 self.nsingle_warning_printed = True
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef int_t itype
         cdef long_t c, b, bcharge, cb, l, nleads
         cdef double_t Ecb, xcb
@@ -963,7 +963,7 @@ cdef class ApproachRTD(Approach):
         kh.add_matrix_element(1.0/E1, 0, a1, b1, charge, a1, b1, charge, 7)
 
 
-    cdef void set_Ozaki_params(self):
+    cdef void set_Ozaki_params(self) except *:
         cdef double_t[:,:] Ozaki_poles_and_residues
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..07c72c9 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -48,7 +48,7 @@ cdef class ApproachLindblad(Approach):
         Approach.clean_arrays(self)
         self._tLba[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
diff --git a/qmeq/approach/base/c_neumann1.pyx b/qmeq/approach/base/c_neumann1.pyx
index 67e8ee5..d653db5 100644
--- a/qmeq/approach/base/c_neumann1.pyx
+++ b/qmeq/approach/base/c_neumann1.pyx
@@ -52,7 +52,7 @@ cdef class Approach1vN(Approach):
         self._phi1fct_energy[::1] = 0.0
         self._phi1[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
         cdef double_t [:] tlst = self._tlst
diff --git a/qmeq/approach/base/c_pauli.pyx b/qmeq/approach/base/c_pauli.pyx
index 294c936..ca63b8c 100644
--- a/qmeq/approach/base/c_pauli.pyx
+++ b/qmeq/approach/base/c_pauli.pyx
@@ -49,7 +49,7 @@ cdef class ApproachPauli(Approach):
         Approach.clean_arrays(self)
         self._paulifct[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] mulst = self._mulst
diff --git a/qmeq/approach/base/c_redfield.pyx b/qmeq/approach/base/c_redfield.pyx
index a459ee3..d50c7bc 100644
--- a/qmeq/approach/base/c_redfield.pyx
+++ b/qmeq/approach/base/c_redfield.pyx
@@ -40,7 +40,7 @@ cdef class ApproachRedfield(Approach):
     cdef void clean_arrays(self):
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..9a8009c 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -49,8 +49,8 @@ cdef class Approach:
     cdef bool_t _symq
     cdef long_t _norm_row
 
-    cpdef void generate_fct(self)
-    cpdef void generate_kern(self)
+    cpdef void generate_fct(self) except *
+    cpdef void generate_kern(self) except *
     cpdef void generate_current(self)
     cpdef generate_vec(self, phi0)
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index b53cf0d..a68492d 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -194,10 +194,10 @@ cdef class Approach:
                 bb = kh.get_ind_dm0(b, b, bcharge)
                 norm_vec[bb] += 1
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         pass
 
-    cpdef void generate_kern(self):
+    cpdef void generate_kern(self) except *:
         cdef double_t [:] E = self._Ea
         cdef KernelHandler kh = self._kernel_handler
 
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 4779640..6307a86 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -57,7 +57,7 @@ cdef class ApproachLindblad(ApproachElPh):
         self._tLbbp[::1] = 0.0
         self._func_pauli_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachLindbladBase.generate_fct(self)
 
         cdef complex_t [:, :, :] Vbbp = self._Vbbp
diff --git a/qmeq/approach/elph/c_neumann1.pyx b/qmeq/approach/elph/c_neumann1.pyx
index 001d06d..06f310c 100644
--- a/qmeq/approach/elph/c_neumann1.pyx
+++ b/qmeq/approach/elph/c_neumann1.pyx
@@ -53,7 +53,7 @@ cdef class Approach1vN(ApproachElPh):
         self._w1fct[::1] = 0.0
         self._func_1vN_elph_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vNBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
diff --git a/qmeq/approach/elph/c_pauli.pyx b/qmeq/approach/elph/c_pauli.pyx
index dd3ab55..5e9d445 100644
--- a/qmeq/approach/elph/c_pauli.pyx
+++ b/qmeq/approach/elph/c_pauli.pyx
@@ -54,7 +54,7 @@ cdef class ApproachPauli(ApproachElPh):
         ApproachPauliBase.clean_arrays(self)
         self._paulifct_elph[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachPauliBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
diff --git a/qmeq/approach/elph/c_redfield.pyx b/qmeq/approach/elph/c_redfield.pyx
index 66832d2..be85a19 100644
--- a/qmeq/approach/elph/c_redfield.pyx
+++ b/qmeq/approach/elph/c_redfield.pyx
@@ -44,7 +44,7 @@ cdef class ApproachRedfield(ApproachElPh):
     cdef void clean_arrays(self):
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
diff --git a/qmeq/specfunc/c_specfunc.pxd b/qmeq/specfunc/c_specfunc.pxd
index e124d94..c3f3a60 100644
--- a/qmeq/specfunc/c_specfunc.pxd
+++ b/qmeq/specfunc/c_specfunc.pxd
@@ -15,7 +15,7 @@ cdef int_t func_pauli(double_t, double_t, double_t, double_t, double_t,
                       int_t, double_t [:])
 
 cdef int_t func_1vN(double_t, double_t, double_t, double_t, double_t,
-                    int_t, int_t, complex_t [:])
+                    int_t, int_t, complex_t [:]) except -1
 
 cdef complex_t digamma(complex_t) nogil
 cdef complex_t polygamma(complex_t, long_t) nogil
diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 5f9629f..8c9ed5c 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -168,7 +168,7 @@ cdef int_t func_pauli(double_t Ecb, double_t mu, double_t T,
 cdef int_t func_1vN(double_t Ecb, double_t mu, double_t T,
                     double_t Dm, double_t Dp,
                     int_t itype, int_t limit,
-                    complex_t [:] rez):
+                    complex_t [:] rez) except -1:
     cdef double_t alpha, Rm, Rp, err
     cdef complex_t cur0, cur1, en0, en1, const0, const1
     # -------------------------
diff --git a/qmeq/specfunc/c_specfunc_elph.pxd b/qmeq/specfunc/c_specfunc_elph.pxd
index 43a20cb..d2efcab 100644
--- a/qmeq/specfunc/c_specfunc_elph.pxd
+++ b/qmeq/specfunc/c_specfunc_elph.pxd
@@ -9,7 +9,7 @@ from ..wrappers.c_mytypes cimport complex_t
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x)
+    cpdef double_t eval(self, double_t x) except *
 
 
 cdef class FuncBose:
@@ -25,7 +25,7 @@ cdef class FuncPauliElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public double_t val
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
 
 
 cdef class Func1vNElPh:
@@ -39,6 +39,6 @@ cdef class Func1vNElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public complex_t val0, val1
-    cpdef double_t iplus(self, double_t x)
-    cpdef double_t iminus(self, double_t x)
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef double_t iplus(self, double_t x) except *
+    cpdef double_t iminus(self, double_t x) except *
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
diff --git a/qmeq/specfunc/c_specfunc_elph.pyx b/qmeq/specfunc/c_specfunc_elph.pyx
index 7e9c586..d450adf 100644
--- a/qmeq/specfunc/c_specfunc_elph.pyx
+++ b/qmeq/specfunc/c_specfunc_elph.pyx
@@ -15,7 +15,7 @@ from libc.math cimport log
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x):
+    cpdef double_t eval(self, double_t x) except *:
         return 1.
 
 
@@ -42,7 +42,7 @@ cdef class FuncPauliElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val = 0.
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp
         T, omm, omp = self.tlst[l], self.dlst[l,0], self.dlst[l,1]
@@ -80,13 +80,13 @@ cdef class Func1vNElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val0, self.val1 = 0., 0.
 
-    cpdef double_t iplus(self, double_t x):
+    cpdef double_t iplus(self, double_t x) except *:
         return +self.dos.eval(self.T*x)*self.bose.eval(x)
 
-    cpdef double_t iminus(self, double_t x):
+    cpdef double_t iminus(self, double_t x) except *:
         return -self.dos.eval(self.T*x)*(1.+self.bose.eval(x))
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp, err
         cdef complex_t val0, val1
-- 
2.43.0


From d26718ba01d4ba4c6f95225a3a74bb0747fd7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 29/31] fix: too few spectral densities of phonon baths do not
 crash the process

---
 qmeq/specfunc/c_specfunc_elph.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc_elph.pyx b/qmeq/specfunc/c_specfunc_elph.pyx
index d450adf..06ad628 100644
--- a/qmeq/specfunc/c_specfunc_elph.pyx
+++ b/qmeq/specfunc/c_specfunc_elph.pyx
@@ -27,7 +27,6 @@ cdef class FuncBose:
 
 
 @cython.cdivision(True)
-@cython.boundscheck(False)
 cdef class FuncPauliElPh:
 
     def __init__(self, double_t [:] tlst,
@@ -62,7 +61,6 @@ cdef class FuncPauliElPh:
 
 
 @cython.cdivision(True)
-@cython.boundscheck(False)
 cdef class Func1vNElPh:
 
     def __init__(self, double_t [:] tlst,
-- 
2.43.0


From 21ae6577fdb3b8aa54b4ea391bf905614b366cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 30/31] fix: thresholds of the RTD approach are relative to the
 temperature

---
 qmeq/approach/base/RTD.py    |  4 ++--
 qmeq/approach/base/c_RTD.pyx | 11 +++++++++--
 qmeq/specfunc/c_specfunc.pyx |  4 ++--
 qmeq/specfunc/specfunc.py    |  6 +++---
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index c5af06d..2d5a776 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -126,7 +126,7 @@ class ApproachPyRTD(Approach):
         si, kh = self.si, self.kernel_handler
         ncharge, statesdm = si.ncharge, si.statesdm
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
@@ -909,7 +909,7 @@ class ApproachPyRTD(Approach):
         # Variables names follow Leijnse et al PRB 78, 235424 (2008).
         E = self.qd.Ea
 
-        minE = 1e-10
+        minE = 1e-10*max(self.leads.tlst)
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index fd876ad..4de6283 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -950,10 +950,17 @@ cdef class ApproachRTD(Approach):
 
 
     cdef void generate_row_inverse_Liouvillian(self, long_t a1, long_t b1, long_t charge, KernelHandlerRTD kh) nogil:
-        cdef double_t minE, E1
+        cdef double_t minE, maxTemp, E1
         cdef double_t [:] E = self._Ea
+        cdef double_t [:] tlst = self._tlst
+        cdef long_t i
 
-        minE = 1e-10
+        maxTemp = 0.0
+        for i in range(kh.nleads):
+            if tlst[i] > maxTemp:
+                maxTemp = tlst[i]
+
+        minE = 1e-10*maxTemp
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 8c9ed5c..514284d 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -329,7 +329,7 @@ cdef complex_t integralD(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -346,7 +346,7 @@ cdef complex_t integralX(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) /T1
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 65a6039..d09d51d 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -503,7 +503,7 @@ def integralD(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
     TMIN = 1e-5
-    if abs(T2-T1) < TMIN and not ImGamma:
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -551,8 +551,8 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
-    if abs(T2-T1) < TMIN and not ImGamma:
+    TMIN = 1e-5
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) / T1
-- 
2.43.0


From dc8155d08ff7f76d07a77114983969baab1865f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:10 +0000
Subject: [PATCH 31/31] fix: phonon rates between degenerate states in 1vN and
 Redfield approaches are not doubled

For equal energies both the absorption and the emission branch of the
correlation function were taken in full, so that transitions between
exactly degenerate states had twice the rate of nearly degenerate ones and
the results depended on the choice of the degenerate basis. Each branch
contributes one half, as it already does for the diagonal elements.
---
 qmeq/approach/elph/c_neumann1.pyx | 12 +++++++++---
 qmeq/approach/elph/neumann1.py    | 18 +++++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/qmeq/approach/elph/c_neumann1.pyx b/qmeq/approach/elph/c_neumann1.pyx
index 06f310c..1c7ab2e 100644
--- a/qmeq/approach/elph/c_neumann1.pyx
+++ b/qmeq/approach/elph/c_neumann1.pyx
@@ -63,6 +63,7 @@ cdef class Approach1vN(ApproachElPh):
 
         cdef long_t b, bp, bbp, bb, bcharge, l, i
         cdef double_t Ebbp
+        cdef double_t eps = self.funcp.eps_elph
 
         func_1vN_elph = Func1vNElPh(self._tlst_ph, self._dlst_ph,
                                     self.funcp.itype_ph, self.funcp.dqawc_limit,
@@ -90,9 +91,14 @@ cdef class Approach1vN(ApproachElPh):
             else:
                 Ebbp = E[b]-E[bp]
                 for l in range(nbaths):
-                    func_1vN_elph.eval(Ebbp, l)
-                    w1fct[l, bbp, 0] = func_1vN_elph.val0
-                    w1fct[l, bbp, 1] = func_1vN_elph.val1
+                    # For states with the same energy absorption and emission contribute one half of the rate
+                    if abs(Ebbp) < eps*self._tlst_ph[l]:
+                        w1fct[l, bbp, 0] = func_1vN_elph_at_zero[l, 0]
+                        w1fct[l, bbp, 1] = func_1vN_elph_at_zero[l, 1]
+                    else:
+                        func_1vN_elph.eval(Ebbp, l)
+                        w1fct[l, bbp, 0] = func_1vN_elph.val0
+                        w1fct[l, bbp, 1] = func_1vN_elph.val1
 
     cdef void generate_coupling_terms(self,
                 long_t b, long_t bp, long_t bcharge,
diff --git a/qmeq/approach/elph/neumann1.py b/qmeq/approach/elph/neumann1.py
index da3dd33..ca2e28a 100644
--- a/qmeq/approach/elph/neumann1.py
+++ b/qmeq/approach/elph/neumann1.py
@@ -40,16 +40,20 @@ class Approach1vN(ApproachElPh):
                                     self.funcp.eps_elph)
 
         w1fct = self.w1fct
+        # For states with the same energy absorption and emission contribute one half of the rate
+        at_zero = np.zeros((nbaths, 2), dtype=complexnp)
         # Diagonal elements
         for l in range(nbaths):
             func_1vN_elph.eval(0., l)
+            at_zero[l, 0] = func_1vN_elph.val0 - 0.5j*func_1vN_elph.val0.imag
+            at_zero[l, 1] = func_1vN_elph.val1 - 0.5j*func_1vN_elph.val1.imag
             for charge in range(ncharge):
                 for b in statesdm[charge]:
                     bb = si.get_ind_dm0(b, b, charge)
                     bb_bool = si.get_ind_dm0(b, b, charge, maptype=2)
                     if bb != -1 and bb_bool:
-                        w1fct[l, bb, 0] = func_1vN_elph.val0 - 0.5j*func_1vN_elph.val0.imag
-                        w1fct[l, bb, 1] = func_1vN_elph.val1 - 0.5j*func_1vN_elph.val1.imag
+                        w1fct[l, bb, 0] = at_zero[l, 0]
+                        w1fct[l, bb, 1] = at_zero[l, 1]
         # Off-diagonal elements
         for charge in range(ncharge):
             for b, bp in itertools.permutations(statesdm[charge], 2):
@@ -58,9 +62,13 @@ class Approach1vN(ApproachElPh):
                 if bbp != -1 and bbp_bool:
                     Ebbp = E[b]-E[bp]
                     for l in range(nbaths):
-                        func_1vN_elph.eval(Ebbp, l)
-                        w1fct[l, bbp, 0] = func_1vN_elph.val0
-                        w1fct[l, bbp, 1] = func_1vN_elph.val1
+                        if abs(Ebbp) < self.funcp.eps_elph*self.baths.tlst_ph[l]:
+                            w1fct[l, bbp, 0] = at_zero[l, 0]
+                            w1fct[l, bbp, 1] = at_zero[l, 1]
+                        else:
+                            func_1vN_elph.eval(Ebbp, l)
+                            w1fct[l, bbp, 0] = func_1vN_elph.val0
+                            w1fct[l, bbp, 1] = func_1vN_elph.val1
 
     def generate_coupling_terms(self, b, bp, bcharge):
         Approach1vNBase.generate_coupling_terms(self, b, bp, bcharge)
-- 
2.43.0

