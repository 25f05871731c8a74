From fd982aefb30a1db83460e8682ccc360cd1f036f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 01/67] fix: removing double counting crashed when only the
 non-canonical bond is present

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From e406290b2710f44d3aa4b07ced6fcd1f2e86598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 02/67] fix: both bonds of a pair of atoms with the same index
 were lost without double counting

---
 src/magnopy/spinham/hamiltonian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..8747113 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -343,7 +343,11 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                or (
+                    (i, j, k) == (0, 0, 0)
+                    # Names break the tie, as two atoms can have the same index
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 if (atom2, atom1, (-i, -j, -k)) in self:
-- 
2.43.0


From 5c6c7e73f9664e0e843af9123b72ee5e1ddf62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:16 +0000
Subject: [PATCH 03/67] fix: a parameter object given to several bonds was
 rescaled once per bond by the change of notation

---
 src/magnopy/spinham/hamiltonian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 8747113..b076663 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -711,7 +711,9 @@ class SpinHamiltonian(Crystal):
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
-        self._exchange[(atom1, atom2, ijk)] = parameter
+        # Changes of notation rescale parameters of each bond in place, thus
+        # one object must not be shared between the bonds.
+        self._exchange[(atom1, atom2, ijk)] = deepcopy(parameter)
 
         # Check for double counting
         try:
@@ -802,7 +804,7 @@ class SpinHamiltonian(Crystal):
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
-        self._on_site[atom] = parameter
+        self._on_site[atom] = deepcopy(parameter)
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
         r"""
-- 
2.43.0


From 799039efe62467638b9d052da352f9cc95a0f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 04/67] fix: rewriting a bond under double counting left the
 old value in the mirrored bond

---
 src/magnopy/spinham/hamiltonian.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b076663..ab2ff08 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -718,11 +718,9 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            mirrored_bond = (atom2, atom1, (-i, -j, -k))
+            if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
+                self._exchange[mirrored_bond] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From a5d6d69878114832417773c221afb7a27c1e7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 05/67] fix: remove_on_site did not accept the name of the atom

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index ab2ff08..b3e2dd6 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -818,7 +818,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From 3b3505d864f7bcc6cc8cc9b5177464ec1e9171d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 06/67] fix: remove_atom crashed under double counting

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b3e2dd6..8b14790 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -956,7 +956,9 @@ class SpinHamiltonian(Crystal):
         for parameter in parameters_for_removal:
             # Parameter has different type (tuple or atom) but the same syntax
             # works for both, see __delitem__ for details
-            del self[parameter]
+            # With double counting the mirrored bond might be already removed
+            if parameter in self:
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 564d4def360d4809236c2e6e75e128cce45b654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 07/67] fix: on-site terms were presented in exchange_like with
 the inverted factor

---
 src/magnopy/spinham/hamiltonian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 8b14790..342b474 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1054,7 +1054,9 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = 1
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From 718c73bc70a2f8cbcae9990f5779d581fe150561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 08/67] fix: Energy changed the Hamiltonian passed to it and
 ignored spin normalization

---
 src/magnopy/spinham/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..f585c4a 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -557,9 +557,12 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
+        # Force notation with double counting and not normalized spins.
+        # Work with the copy to not change the original SpinHamiltonian.
+        spinham = spinham.copy()
+        if not spinham.double_counting:
+            spinham.double_counting = True
+        spinham.spin_normalized = False
 
         # Get all bonds of the Hamiltonian.
         self._bonds = []
@@ -569,9 +572,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 91832fc5aa9661d3556e74dfa9ea74a3d196360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:56 +0000
Subject: [PATCH 09/67] fix: Zeeman energy did not depend on the spin values

---
 src/magnopy/spinham/energy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f585c4a..99ad73a 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1084,7 +1084,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1202,7 +1206,7 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij", self._g_factors, self._spins, self.magnetic_field, so_prime
             )
 
         return energy
@@ -1323,7 +1327,7 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij", self._g_factors, self._spins, self.magnetic_field, so_prime
             )
 
         return energy
-- 
2.43.0


From c0dcf92da9065255d3b3259b14cb76af4e17b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:00 +0000
Subject: [PATCH 10/67] fix: Zeeman energy of antiferro and spiral states
 included the components orthogonal to the cone axis

---
 src/magnopy/spinham/energy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 99ad73a..7f2a09e 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1202,9 +1202,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij", self._g_factors, self._spins, self.magnetic_field, so_prime
             )
@@ -1323,9 +1321,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij", self._g_factors, self._spins, self.magnetic_field, so_prime
             )
-- 
2.43.0


From addf77fc4b4ede2fb318c9d9fa2e925fdd64c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 11/67] fix: setters of Energy.g_factors and Energy.spins
 always crashed

---
 src/magnopy/spinham/energy.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 7f2a09e..b2e43d0 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -738,7 +738,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -746,13 +746,14 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        new_value = list(new_value)
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_value[i] = float(g_factor)
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
         self._g_factors = new_value
 
@@ -770,18 +771,19 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        new_value = list(new_value)
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_value[i] = float(spin)
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
         self._spins = new_value
 
-- 
2.43.0


From b4e9b51c6b8673df9ed293e3ad7c657f4427c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 12/67] fix: Energy.wolfe_c2 returned the value of wolfe_c1

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index b2e43d0..f5b8513 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -673,7 +673,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From 0d378ef6552ccc975d0d321c232d7d6e1d0e5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:26 +0000
Subject: [PATCH 13/67] fix: SpinHamiltonian.crystal shared atoms with the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 342b474..b384650 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -981,7 +981,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 9f5e68493e1e95fd26622360005d8e1cc43607a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:26 +0000
Subject: [PATCH 14/67] fix: line search accepted growth of the energy and
 failed when the first step was too short

---
 src/magnopy/spinham/energy.py | 62 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f5b8513..2604b30 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1731,42 +1731,30 @@ class Energy:
         Compute the step length across given search direction. Universal and does not
         depend on the choice of the ground state type.
         """
-        step = 1
         fx = energy(*_unpack(x))
-        x_new = _update(x, search_direction, step)
-        nabla_new = _grad(*_unpack(x_new))[0]
-        nabla = _grad(*_unpack(x))[0]
-        i = 0
-        tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
-            self._wolfe_c1 * step * nabla.T @ search_direction
-        ) or abs(nabla_new.T @ search_direction) > abs(
-            self._wolfe_c2 * nabla.T @ search_direction
-        ):
-            step *= 0.99
+        # Note: variables are updated as x - step * search_direction, i.e. the slope is
+        # the negative of the derivative at step = 0.
+        slope = _grad(*_unpack(x))[0] @ search_direction
+        step, lower, upper = 1.0, 0.0, None
+
+        for _ in range(self._wolfe_iter_max):
             x_new = _update(x, search_direction, step)
-            nabla_new = _grad(*_unpack(x_new))[0]
-            # print(
-            #     energy(*_unpack(x_new)),
-            #     fx,
-            #     fx + self._wolfe_c1 * step * nabla.T @ search_direction,
-            #     abs(nabla_new.T @ search_direction),
-            #     abs(self._wolfe_c2 * nabla.T @ search_direction),
-            # )
-            tmp[0].append(step)
-            tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
-            if i > self._wolfe_iter_max:
-                print("\n\n")
-                # TODO go into the details and deal with the failing cases
-                import matplotlib.pyplot as plt
-
-                fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
-                # return 1
-                raise ValueError("Wolfe failed")
-            i += 1
-        return step
+            if energy(*_unpack(x_new)) > fx - self._wolfe_c1 * step * slope:
+                # Step is too long
+                upper = step
+            elif _grad(*_unpack(x_new))[0] @ search_direction > self._wolfe_c2 * slope:
+                # Step is too short
+                lower = step
+            else:
+                return step
+
+            if upper is None:
+                step = 2 * lower
+            elif upper - lower > np.finfo(float).eps * upper and upper > 1e-12:
+                step = (lower + upper) / 2
+            else:
+                break
+
+        # Conditions can not be satisfied within the numerical accuracy.
+        # lower is either zero or it decreases the energy.
+        return lower
-- 
2.43.0


From 604dbff9d40334cafcaf56bf06ec8071aa28cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:31 +0000
Subject: [PATCH 15/67] fix: L-BFGS history was never used because of the sign
 of the step and of the empty loop

---
 src/magnopy/spinham/energy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 2604b30..80984d5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1693,11 +1693,12 @@ class Energy:
             self._gamma = np.zeros((self._m), dtype=float)
             search_direction = gradient_vector
         else:
-            self._d_vec[n] = previous_lambda * previous_search_direction
+            # Variables are updated as x - lambda * search_direction
+            self._d_vec[n] = -previous_lambda * previous_search_direction
             self._y_vec[n] = gradient_vector - previous_gradient_vector
-            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+            curvature = self._d_vec[n] @ self._y_vec[n]
 
-            if self._rho[n] < 0:
+            if curvature <= 0:
                 return (
                     0,
                     self._compute_search_direction(0, gradient_vector=gradient_vector)[
@@ -1705,13 +1706,14 @@ class Energy:
                     ],
                 )
 
+            self._rho[n] = 1 / curvature
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]) ** 2)
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From 44eec404c4540fd144a02d28d2d9590763b32206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 16/67] fix: gradient of the cone axis overwrote the one of the
 last spin in the antiferro optimization

---
 src/magnopy/spinham/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 80984d5..3404c56 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -242,9 +242,9 @@ def _update_x_antiferro(x, search_direction, step=1):
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -910,9 +910,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 677a9621d9e243c086beb2b1ad16ff6e90c1d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 17/67] fix: spiral vector was updated in the direction of the
 growth of the energy

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 3404c56..6a114d0 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -305,7 +305,7 @@ def _update_x_spiral(x, search_direction, step=1):
             + (1 - np.cos(theta)) * r * (r @ x_0[i])
         )
 
-    x_1 += search_direction[-3:] * step
+    x_1 -= search_direction[-3:] * step
 
     return [x_0, x_1]
 
-- 
2.43.0


From e926cda05056855b1146b0eeea14c514ce4f9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 18/67] fix: history of the optimization was lost when the
 maximum number of iterations is reached

---
 src/magnopy/spinham/energy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6a114d0..c1195e6 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -417,7 +417,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11}"
 
         for i in range(nspins):
@@ -447,7 +447,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -487,7 +487,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -1567,7 +1567,7 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
-                return _unpack(x)
+                break
 
             # Compute gradient and torques
             _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
@@ -1628,7 +1628,7 @@ class Energy:
                     history = []
 
         # Output remaining part of history
-        if save_history:
+        if save_history and len(history) > 0:
             history_processor(history, filename=history_filename)
 
         # Return minimized configuration
-- 
2.43.0


From c35bad814d3e5076cf86db8d88c7189ec75b1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 19/67] fix: convergence of the optimization was decided by the
 torques of the previous state

---
 src/magnopy/spinham/energy.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index c1195e6..01fa2de 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1559,6 +1559,9 @@ class Energy:
         if save_history:
             history = [[energy_prev, torque_targets, x]]
 
+        # Compute gradient and torques
+        _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
+
         while condition:
             # Check whether number of iterations is exceeded
             if max_iterations is not None and iteration_counter >= max_iterations:
@@ -1569,9 +1572,6 @@ class Energy:
                 )
                 break
 
-            # Compute gradient and torques
-            _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
-
             # Compute search direction
             k, search_direction = self._compute_search_direction(
                 k,
@@ -1594,6 +1594,13 @@ class Energy:
             # Update the generalized coordinate
             x = _update(x, search_direction, step)
 
+            # Keep values for the next loop
+            previous_gradient_vector = gradient_vector.copy()
+            previous_search_direction = search_direction.copy()
+
+            # Compute gradient and torques of the updated state
+            _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
+
             # Compute convergence targets
             energy_current = energy(*_unpack(x))
             energy_diff = abs(energy_prev - energy_current)
@@ -1604,11 +1611,19 @@ class Energy:
             for i in range(len(torque_targets)):
                 condition = condition or torque_targets[i] > tolerance[i + 1]
 
-            # Keep values for the next loop
-            previous_gradient_vector = gradient_vector.copy()
-            previous_search_direction = search_direction.copy()
             energy_prev = energy_current
 
+            if step == 0 and condition:
+                # Energy can not be decreased along the search direction within the
+                # numerical accuracy.
+                if k == 0:
+                    _logger.warning(
+                        f"Energy can not be decreased further. Torques: {torque_targets}."
+                    )
+                    condition = False
+                # Try the steepest descent
+                k = -1
+
             # Update iterators
             k += 1
             iteration_counter += 1
-- 
2.43.0


From 0eb1a3a3e45f7d682f8df5239471cc05a95aef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 20/67] fix: Colpa transformation was not canonical for the
 degenerate spectra

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 3bc31d5c522fcf9c1042be1f4e2a3562f12bb5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:12 +0000
Subject: [PATCH 21/67] fix: negative semidefinite Hamiltonian was regularized
 with the wrong sign

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..1adcf57 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From 52c2b548758c39921200253930a3e527d41981f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 22/67] fix: N zeros instead of 2N were returned together with
 G when Colpa failed

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 1adcf57..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From a9e590f49d7d0bbbf68b35f4a9f47497589f5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:15 +0000
Subject: [PATCH 23/67] fix: exchange parameters in Joule crashed the reading
 of txt files

---
 src/magnopy/io/txt/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..24fb86b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
-- 
2.43.0


From 881bbfc9d84381c4a09d51f61b17b116db931886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:32 +0000
Subject: [PATCH 24/67] fix: energy units of the exchange section were ignored

---
 src/magnopy/io/txt/internal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 24fb86b..0182506 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -761,10 +761,9 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
             for j in range(3):
                 i += 1
                 matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
         i += 1
+    parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+    spinham.add_exchange(name1, name2, R, parameter * units_conversion)
     return spinham
 
 
-- 
2.43.0


From 66d86a122d13ee7d3949615d0070523da7e1c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 25/67] fix: spiral vector of the txt file was not stored in
 relative coordinates

---
 src/magnopy/io/txt/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 0182506..effb0b1 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -1015,8 +1015,8 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    if not relative:
+        q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
 
-- 
2.43.0


From 643e20e50e61c54c2c8d6202329f4c48b6b93ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 26/67] fix: atoms with the blocks skipped by "-" crashed the
 reading of txt files

---
 src/magnopy/io/txt/internal.py | 5 +++++
 src/magnopy/io/txt/verify.py   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index effb0b1..e6d7ab6 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -483,8 +483,13 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     data_header = lines[1].lower().split()
 
     # Read atoms's information
+    all_blocks = data_header
     for line in lines[2:]:
         line = line.split()
+        # Blocks marked with "-" are skipped for this atom
+        data_header = [key for key, block in zip(all_blocks, line) if block != "-"]
+        line = [block for block in line if block != "-"]
+
         name = line[data_header.index("name")]
 
         # Find the coordinates
diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..61f7c41 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -785,6 +785,15 @@ def _verify_atoms(lines, line_indices):
                     )
                 )
 
+        # Blocks marked with "-" are skipped for this atom, the rest have to be complete
+        if "-" in line and len(line) == N:
+            header = [
+                key for key, block in zip(lines[1].split(), line) if block != "-"
+            ]
+            errors = (
+                errors or _verify_atoms_data_header(" ".join(header), line_indices[i])[2]
+            )
+
     if len(allowed_atoms) != len(lines) - 2:
         errors = True
         _logger.error(
-- 
2.43.0


From 183baea187f0d46c2a91e6fb8ded08cbe7fd3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 27/67] fix: incomplete line of the atoms section crashed the
 verification

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 61f7c41..8b945d6 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -763,7 +763,7 @@ def _verify_atoms(lines, line_indices):
             )
 
         # Check atom's names if any
-        if name_index is not None:
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From 2d487f3bc3e53a236c1ffb5af8cfda170c757164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 28/67] fix: txt file with parameters and without the notation
 section passed the verification

---
 src/magnopy/io/txt/verify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 8b945d6..3aa13b2 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1500,6 +1500,14 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error(
+            'File: "notation" section is required if "exchange" or "on-site" is present'
+        )
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 7fcc13c90cd252c8e48f45401e8dcf46fe133f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 29/67] fix: repeated section of the txt file silently replaced
 the previous one

---
 src/magnopy/io/txt/verify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 3aa13b2..79937a9 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1492,6 +1492,12 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
         )
 
         # Save the position of the found section
+        if section_keyword in found_sections and section_keyword in _SUPPORTED_SECTIONS:
+            errors = True
+            _logger.error(
+                f"Line {line_indices[section_start]}: "
+                f'found more than one "{section_keyword}" section'
+            )
         found_sections[section_keyword] = (section_start, section_end)
 
     # Check if all required sections are found
-- 
2.43.0


From b3187a940c8cce1c385d8fef3cbf4cc269732e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 30/67] fix: cell with linearly dependent vectors passed the
 verification

---
 src/magnopy/io/txt/verify.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 79937a9..d602088 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -18,6 +18,8 @@
 
 import logging
 
+import numpy as np
+
 from magnopy.exceptions import FailedToVerifyTxtModelFile
 from magnopy.units.inside import FALSE_KEYWORDS, TRUE_KEYWORDS
 
@@ -501,6 +503,16 @@ def _verify_cell(lines, line_indices) -> bool:
         cell_lines, [3, 3, 3], cell_lines_indices
     )
 
+    # Check that the lattice vectors are linearly independent
+    if not errors:
+        cell = np.array([[float(x) for x in line.split()] for line in cell_lines])
+        scale = np.prod(np.linalg.norm(cell, axis=1))
+        if not abs(np.linalg.det(cell)) > 1e-12 * scale:
+            errors = True
+            _logger.error(
+                f"Line {cell_lines_indices[0]}: lattice vectors are linearly dependent"
+            )
+
     return errors
 
 
-- 
2.43.0


From eb1d87bc0c84f968177b3aff0341547f18e90fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 31/67] fix: zero cone axis passed the verification

---
 src/magnopy/io/txt/verify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index d602088..66f4d2f 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1357,6 +1357,11 @@ def _verify_cone_axis(lines, line_indices) -> bool:
         [lines[1]], [[3, 2]], [line_indices[1]]
     )
 
+    numbers = lines[1].split()
+    if not errors and len(numbers) == 3 and not any(float(x) for x in numbers):
+        errors = True
+        _logger.error(f"Line {line_indices[1]}: cone axis can not be a zero vector")
+
     return errors
 
 
-- 
2.43.0


From a9e63631dda415372fd0851c3c70372fc2c7c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 32/67] fix: names of atoms with double underscore in the
 middle crashed the reading of txt files

---
 src/magnopy/io/txt/internal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index e6d7ab6..6f67079 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -768,7 +768,9 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
                 matrix[j] = [float(x) for x in lines[i].split()]
         i += 1
     parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
-    spinham.add_exchange(name1, name2, R, parameter * units_conversion)
+    # Names are compared directly, as wulfric treats "__" as a separator of the index
+    atoms = dict([(atom.name, atom) for atom in spinham.atoms])
+    spinham.add_exchange(atoms[name1], atoms[name2], R, parameter * units_conversion)
     return spinham
 
 
@@ -865,7 +867,9 @@ def _read_on_site(lines, spinham: SpinHamiltonian):
             break
 
         # Read atom's label:
-        atom = spinham.get_atom(lines[i].strip())
+        # Names are compared directly, as wulfric treats "__" as a separator of the index
+        atoms = dict([(atom.name, atom) for atom in spinham.atoms])
+        atom = atoms[lines[i].strip()]
 
         i += 1
 
-- 
2.43.0


From 58575ed9304210015ba363987e3d21fac8642342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 33/67] fix: spin angles could not be written in the txt files

---
 src/magnopy/geometry.py        | 8 +++++---
 src/magnopy/io/txt/internal.py | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..920ab88 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,9 +40,9 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    if modulus == 0 or np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
@@ -52,8 +52,10 @@ def vector_to_angles(vector, in_degrees=True):
         azimuthal = np.arccos(
             np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
         )
+        if vector[1] < 0:
+            azimuthal = 2 * np.pi - azimuthal
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 6f67079..a568b1c 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -212,8 +212,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From 59a90e823b4bb0c472be86264bb071e5d5e4e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 34/67] fix: g-factors and charges of atoms were lost in the
 txt files

---
 src/magnopy/io/txt/internal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index a568b1c..5ab1628 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -196,6 +196,7 @@ def dump_spinham_txt(
         text[-1] += f" {'St':>6} {'Sp':>6} {'S':>6}"
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
+    text[-1] += f" {'g':>8} {'q':>8}"
     for atom in spinham.atoms:
         text.append(
             " ".join(
@@ -233,6 +234,11 @@ def dump_spinham_txt(
                     f"{'-':>8}",
                 ]
             )
+        text[-1] += f" {atom.g_factor:8.4f}"
+        try:
+            text[-1] += f" {atom.charge:8.4f}"
+        except ValueError:
+            text[-1] += f" {'-':>8}"
     text.append(SEPARATOR)
 
     # Write notation
-- 
2.43.0


From 0cc5c604c2dc7a6566907616917b5bb469a1a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 35/67] fix: filtered copy of the txt file could not be saved

---
 src/magnopy/io/txt/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 5ab1628..6ad3991 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1099,7 +1100,9 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        filtered_filename = os.path.join(
+            os.path.dirname(filename), f"filtered_{os.path.basename(filename)}"
+        )
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From c519e2be7be4cbe751334df732b9bb50a41ca580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 36/67] fix: order of atoms and parameters was lost in hdf5
 files with ten or more of them

---
 src/magnopy/io/hdf5/internal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..3a87993 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,8 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    # Order groups as numbers, i.e. "2" before "10"
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +212,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in sorted(exchange, key=int):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +252,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in sorted(on_site, key=int):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From e99f7e4aa805b4a743308b418391ae85c28a487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:55 +0000
Subject: [PATCH 37/67] fix: hdf5 files were left open after the reading or
 after the refused writing

---
 src/magnopy/io/hdf5/internal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 3a87993..c3b54cf 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -70,9 +70,12 @@ def load_spinham_hdf5(
         The SpinHamiltonian object loaded from the file.
     """
 
-    # Open a file and try to detect the desired group
-    file = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as file:
+        return _load_spinham_hdf5(file, filename, groupname)
 
+
+def _load_spinham_hdf5(file, filename, groupname):
+    # Try to detect the desired group
     if groupname is None:
         _logger.info(f"Groupname not provided, trying to detect it in file {filename}.")
 
@@ -329,7 +332,11 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
-    file = h5py.File(filename, "a")
+    with h5py.File(filename, "a") as file:
+        _dump_spinham_hdf5(spinham, file, filename, groupname, overwrite)
+
+
+def _dump_spinham_hdf5(spinham, file, filename, groupname, overwrite):
     try:
         root_group = file.create_group(groupname)
     except ValueError:
@@ -414,6 +421,3 @@ def dump_spinham_hdf5(
             "cone-axis", data=spinham.cone_axis, dtype=float
         )
         cone_axis.attrs["units"] = "Absolute"
-
-    if filename is not None:
-        file.close()
-- 
2.43.0


From c2b556782d56b5fc191638211a0fc21e7b76b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 38/67] fix: unknown atom in the bond of the hdf5 file raised
 TypeError from the error message

---
 src/magnopy/io/hdf5/internal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c3b54cf..943ff69 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -222,14 +222,14 @@ def _load_spinham_hdf5(file, filename, groupname):
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
@@ -262,7 +262,7 @@ def _load_spinham_hdf5(file, filename, groupname):
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
-- 
2.43.0


From cc94a1ad786f9c87411f285897ed795a0bdf23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 39/67] fix: unknown units of the cell in the hdf5 file raised
 KeyError from the error message

---
 src/magnopy/io/hdf5/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 943ff69..0493a86 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -126,7 +126,10 @@ def _load_spinham_hdf5(file, filename, groupname):
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
-- 
2.43.0


From bc59b5a56c9653ce0ecbd67a2ed52890ebbb31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:20 +0000
Subject: [PATCH 40/67] fix: foreign groups with not a string in the type
 attribute crashed the search of the Hamiltonian

---
 src/magnopy/io/hdf5/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 0493a86..e7f390a 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -84,7 +84,7 @@ def _load_spinham_hdf5(file, filename, groupname):
         # Parser rule for the groupname
         def find_spinhams(name):
             try:
-                if file[name].attrs["type"].lower() == "spinhamiltonian":
+                if str(file[name].attrs["type"]).lower() == "spinhamiltonian":
                     potential_groupnames.append(name)
             except KeyError:
                 pass
-- 
2.43.0


From 39b0f5966fa771a75e5ca27bf21006bebc4db5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 41/67] fix: dump_mat and dump_vampire always crashed on the
 removed attribute of an atom

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..7f16760 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From a62664c901ffe71ee0956aef39da6a84d8d25294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 42/67] fix: dump_ucf changed bonds of the Hamiltonian passed
 to it

---
 src/magnopy/io/txt/vampire.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 7f16760..d73882b 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,9 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Work with the copy to not change the original SpinHamiltonian
+    spinham = spinham.copy()
+    spinham.notation  # Raises NotationError if notation is not defined
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +247,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 59a1ff6cd6fc13a92bec2c0a196d889974e2a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:25 +0000
Subject: [PATCH 43/67] fix: TB2J file was left open and the separator after
 the last bond crashed the reading

---
 src/magnopy/io/txt/tb2j.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/magnopy/io/txt/tb2j.py b/src/magnopy/io/txt/tb2j.py
index 85605e6..63cd551 100644
--- a/src/magnopy/io/txt/tb2j.py
+++ b/src/magnopy/io/txt/tb2j.py
@@ -158,6 +158,9 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
         while line and minor_sep not in line:
             line = file.readline()
         line = file.readline().translate(garbage).split()
+        # Separator after the last bond
+        if not line:
+            break
         atom1 = line[0]
         atom2 = line[1]
         R = tuple(map(int, line[2:5]))
@@ -196,4 +199,6 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
                 + f"Read: {distance:.4f}\n"
             )
 
+    file.close()
+
     return model
-- 
2.43.0


From 4c8a266c3042f380d4cdab6a27d74d8041bf1671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 44/67] fix: histories and the summary of the antiferro
 minimization were mixed up by the shadowed counter

---
 src/magnopy/score/minimize_energy.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..29f316f 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -64,19 +64,18 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         f"History of the minimization is written in the 26 files\n"
     )
 
-    i = 0
+    q_index = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
-        i += 1
-        print(qrel)
-        history_file = f"{seedname}-antiferro-history-{i}"
         if (qrel == [0, 0, 0]).all():
             continue
+        q_index += 1
+        history_file = f"{seedname}-antiferro-history-{q_index}"
 
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -86,7 +85,7 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
             antiferro_q=q,
         )
         output_file.write(
-            f"Minimization for the antiferro case is done {i} out of 26.\n"
+            f"Minimization for the antiferro case is done {q_index} out of 26.\n"
             "Spin orientations in the minimum configuration:\n"
         )
         output_file.write(
@@ -209,8 +208,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for j in range(26):
+                output_file.write(f"  {j+1} {energies[i][j]:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 4a35f2a0d4ddbc9d210834dabdd401c6792df6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 45/67] fix: standardization of the cell left the bonds and the
 spiral vector in the basis of the old cell

---
 src/magnopy/spinham/hamiltonian.py | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b384650..549ea1c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -86,6 +86,38 @@ class SpinHamiltonian(Crystal):
     #                            Parameter's properties                            #
     ################################################################################
 
+    def standardize(self):
+        r"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Unit cells of the bonds and spiral vector are recalculated with respect to the
+        standardized cell, therefore, the Hamiltonian itself is not changed.
+
+        See :py:meth:`wulfric.Crystal.standardize` for details.
+        """
+
+        old_cell = np.array(self.cell)
+
+        super().standardize()
+
+        # Lattice vectors of the old cell in the basis of the standardized one
+        transformation = old_cell @ np.linalg.inv(self.cell)
+
+        self._exchange = {
+            (
+                atom1,
+                atom2,
+                tuple(int(x) for x in np.rint(np.array(ijk) @ transformation)),
+            ): parameter
+            for (atom1, atom2, ijk), parameter in self._exchange.items()
+        }
+        # Canonical member of the pair depends on the choice of the cell
+        if self._double_counting is not None and not self._double_counting:
+            self._ensure_no_double_counting()
+
+        if self._spiral_vector is not None:
+            self._spiral_vector = np.linalg.inv(transformation) @ self._spiral_vector
+
     @property
     def exchange(self):
         R"""
-- 
2.43.0


From d82a2005bb6001ad9acbae0254b0b61282af5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:23 +0000
Subject: [PATCH 46/67] fix: magnon Hamiltonian was not Hermitian for the
 non-symmetric on-site parameters

---
 src/magnopy/magnons/dispersion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index d26bef7..f395db9 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -123,6 +123,9 @@ class MagnonDispersion:
             i = self._atom_indices[atom1]
             j = self._atom_indices[atom2]
             d = self._model.get_vector(atom1, atom2, R)
+            # Antisymmetric part of the on-site term does not enter the energy
+            if i == j and tuple(R) == (0, 0, 0):
+                J = (J + J.T) / 2
             self.J_matrices.append(J)
             self.indices_i.append(i)
             self.indices_j.append(j)
-- 
2.43.0


From ff2f21fc330f34239675d65e95108404738d7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 47/67] fix: documented header "Atoms Relative" did not pass
 the verification

---
 src/magnopy/io/txt/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 66f4d2f..f6e94ac 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -750,7 +750,9 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(
+        lines[0], line_indices[0], ["a", "b", "r"]
+    )
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From bd7be75234183bdb0e46c93cda944795d2c5111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 48/67] fix: absolute spiral vector was read in inverse
 Angstrom when the cell is given in Bohr

---
 src/magnopy/io/txt/internal.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 6ad3991..343dc95 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -971,7 +971,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, units_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -995,6 +995,10 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    units_conversion : float, default 1
+        Conversion factor of the units of the cell section to the default units of
+        magnopy (``LENGTH``). Absolute coordinates are given in the inverse units of the
+        cell section.
 
     Returns
     -------
@@ -1032,6 +1036,7 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
     q = [float(x) for x in lines[1].split()]
 
     if not relative:
+        q = np.array(q, dtype=float) / units_conversion
         q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
@@ -1172,6 +1177,15 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        cell_header = lines[sections["cell"][0]].lower().split()
+        if len(cell_header) == 2 and cell_header[1].startswith("b"):
+            units_conversion = BOHR_RADIUS / LENGTH
+        else:
+            units_conversion = ANGSTROM / LENGTH
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            units_conversion=units_conversion,
+        )
 
     return spinham
-- 
2.43.0


From 84967354ad8fe480ac1dd8129bc1f78910d39aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:33 +0000
Subject: [PATCH 49/67] fix: integer lattice vectors in the hdf5 file crashed
 the reading

---
 src/magnopy/io/hdf5/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index e7f390a..4440949 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -131,7 +131,7 @@ def _load_spinham_hdf5(file, filename, groupname):
         )
         raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
-    spinham.cell *= units_conversion
+    spinham.cell = spinham.cell * units_conversion
 
     # Read the atoms
     atoms = root_group["atoms"]
-- 
2.43.0


From f05201e2e9403d3703197951744aa8ebeeca16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:00 +0000
Subject: [PATCH 50/67] fix: given but not required parts of the notation were
 ignored in the hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 4440949..18624d3 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -174,6 +174,15 @@ def _load_spinham_hdf5(file, filename, groupname):
             )
             raise e
 
+        # Properties, that are not required, but given (same as in the txt file)
+        if "exchange" not in root_group:
+            if "double-counting" in notation:
+                spinham.double_counting = notation["double-counting"][()]
+            if "exchange-factor" in notation:
+                spinham.exchange_factor = notation["exchange-factor"][()]
+        if "on-site" not in root_group and "on-site-factor" in notation:
+            spinham.on_site_factor = notation["on-site-factor"][()]
+
         if "exchange" in root_group:
             try:
                 spinham.double_counting = notation["double-counting"][()]
-- 
2.43.0


From dff41f1d9362480eb5bddc577300f9c2fc2eed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:58 +0000
Subject: [PATCH 51/67] fix: names of atoms with double underscore in the
 middle crashed the reading of hdf5 files

---
 src/magnopy/io/hdf5/internal.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 18624d3..bc4e771 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -156,6 +156,9 @@ def _load_spinham_hdf5(file, filename, groupname):
             charge=charge,
             relative=True,
         )
+    # Names are compared directly, as wulfric treats "__" as a separator of the index
+    atoms_by_name = dict([(atom.name, atom) for atom in spinham.atoms])
+
     # Read notation
     if "exchange" in root_group or "on-site" in root_group:
         try:
@@ -231,18 +234,20 @@ def _load_spinham_hdf5(file, filename, groupname):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
-                atom1 = spinham.get_atom(atom1)
-            except ValueError as e:
+                atom1 = atoms_by_name[atom1]
+            except KeyError as e:
                 _logger.error(
                     f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
-                atom2 = spinham.get_atom(atom2)
-            except ValueError as e:
+                atom2 = atoms_by_name[atom2]
+            except KeyError as e:
                 _logger.error(
                     f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
             spinham.add_exchange(atom1, atom2, ijk, matrix=matrix * units_conversion)
@@ -271,11 +276,12 @@ def _load_spinham_hdf5(file, filename, groupname):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-                atom = spinham.get_atom(atom)
-            except ValueError as e:
+                atom = atoms_by_name[atom]
+            except KeyError as e:
                 _logger.error(
                     f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
 
-- 
2.43.0


From af59299180227743d11b50a955ad10519e31b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 52/67] fix: order of magnetic atoms with equal indices does
 not depend on the hash of their names

---
 src/magnopy/spinham/hamiltonian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 549ea1c..a3e27ec 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -679,6 +679,10 @@ class SpinHamiltonian(Crystal):
         for atom in self._on_site:
             result.add(atom)
 
+        # Index is not unique when atoms are removed and added. Order of the atoms in
+        # the crystal decides then, as the order of the set is arbitrary.
+        result = [atom for atom in self.atoms if atom in result]
+
         return sorted(list(result), key=lambda x: x.index)
 
     @property
-- 
2.43.0


From 55d0a1bbcf9be9f06409a32c7e8d8c1f9d02d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 53/67] fix: initial guess that is not array-like was refused
 with UnboundLocalError

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 01fa2de..534c84a 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -56,7 +56,7 @@ def _starting_ferro(n_spins, initial_guess=None):
         try:
             spin_orientation = np.array(initial_guess, dtype=float)
         except:
-            raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
+            raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
-- 
2.43.0


From 5740271afd39d32157508c6ca1ba1d152b8eb719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 54/67] fix: history of the minimization was glued to the
 content of an already existing file

---
 src/magnopy/spinham/energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 534c84a..c6d669f 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -425,7 +425,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
@@ -459,7 +459,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
@@ -499,7 +499,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
-- 
2.43.0


From 10dd25830cd0ec1cfdfd5aac0819a50c1c30f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 55/67] fix: unsuccessful dump to the hdf5 file deleted the
 group it had to overwrite or left an incomplete one

---
 src/magnopy/io/hdf5/internal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index bc4e771..0068f45 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -350,6 +350,11 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
+    # Write to the memory first: if spin Hamiltonian can not be stored, then the
+    # existing file (and the group to be overwritten) is not touched.
+    with h5py.File("memory", "w", driver="core", backing_store=False) as file:
+        _dump_spinham_hdf5(spinham, file, filename, "spinham", overwrite)
+
     with h5py.File(filename, "a") as file:
         _dump_spinham_hdf5(spinham, file, filename, groupname, overwrite)
 
-- 
2.43.0


From 4c8008c60449a2aa81a3dd4fd1ae218ea6f75946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:09 +0000
Subject: [PATCH 56/67] fix: refused add_exchange and add_on_site left a broken
 bond or extra atoms in the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index a3e27ec..2fb4676 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -731,21 +731,23 @@ class SpinHamiltonian(Crystal):
             Ignored if ``parameter`` is given.
         """
 
+        # Check everything that can be wrong before the Hamiltonian is changed
+        i, j, k = ijk
+
+        # Construct parameter if it is not given
+        if parameter is None:
+            parameter = MatrixParameter(**kwargs)
+
         # Get the atom by the name
         if isinstance(atom1, str):
             atom1 = self.get_atom(atom1)
-        elif atom1 not in self.atoms:
-            self.add_atom(atom1)
-
-        # Get the atom by the name
         if isinstance(atom2, str):
             atom2 = self.get_atom(atom2)
-        elif atom2 not in self.atoms:
-            self.add_atom(atom2)
 
-        # Construct parameter if it is not given
-        if parameter is None:
-            parameter = MatrixParameter(**kwargs)
+        if atom1 not in self.atoms:
+            self.add_atom(atom1)
+        if atom2 not in self.atoms:
+            self.add_atom(atom2)
 
         # Changes of notation rescale parameters of each bond in place, thus
         # one object must not be shared between the bonds.
@@ -753,7 +755,6 @@ class SpinHamiltonian(Crystal):
 
         # Check for double counting
         try:
-            i, j, k = ijk
             mirrored_bond = (atom2, atom1, (-i, -j, -k))
             if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
                 self._exchange[mirrored_bond] = parameter.T
@@ -829,15 +830,16 @@ class SpinHamiltonian(Crystal):
         # Get the atom by the name
         if isinstance(atom, str):
             atom = self.get_atom(atom)
-        # Add atom to the Hamiltonian if it is not in it
-        # Only works for Atom class
-        elif atom not in self.atoms:
-            self.add_atom(atom)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        # Add atom to the Hamiltonian if it is not in it
+        # Only works for Atom class
+        if atom not in self.atoms:
+            self.add_atom(atom)
+
         self._on_site[atom] = deepcopy(parameter)
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
-- 
2.43.0


From fde6c02533e8d14e439c205377f8beb69abaecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:25 +0000
Subject: [PATCH 57/67] fix: Energy and MagnonDispersion silently accepted the
 Hamiltonian with undefined notation

---
 src/magnopy/magnons/dispersion.py | 8 ++++++++
 src/magnopy/spinham/energy.py     | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index f395db9..575e903 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -105,6 +105,14 @@ class MagnonDispersion:
         self._C = None
         # Store the exchange model, but privately
         self._model = deepcopy(model)
+        # Raises NotationError if the meaning of the parameters is not defined
+        if len(self._model.exchange) > 0:
+            self._model.double_counting
+            self._model.spin_normalized
+            self._model.exchange_factor
+        if len(self._model.on_site) > 0:
+            self._model.spin_normalized
+            self._model.on_site_factor
         self._model.notation = "SpinW"
 
         # Get the number of magnetic atoms
diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index c6d669f..eb6d186 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -562,7 +562,9 @@ class Energy:
         spinham = spinham.copy()
         if not spinham.double_counting:
             spinham.double_counting = True
-        spinham.spin_normalized = False
+        # Raises NotationError if spin_normalized is not defined
+        if spinham.spin_normalized:
+            spinham.spin_normalized = False
 
         # Get all bonds of the Hamiltonian.
         self._bonds = []
-- 
2.43.0


From 231e7a5c0d755808a2e536902bf36ab725746dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 58/67] fix: lines of the information below the logo were
 rotated if there are more than seven of them

---
 src/magnopy/_pinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/_pinfo.py b/src/magnopy/_pinfo.py
index ceb947c..b4442ee 100644
--- a/src/magnopy/_pinfo.py
+++ b/src/magnopy/_pinfo.py
@@ -124,9 +124,9 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
             after = len(info) - len(cat) - before
             for i in range(len(info)):
                 if i < before or i >= len(info) - after:
-                    logo_info.append(f"{info[i-before]:^{N-n}}")
+                    logo_info.append(f"{info[i]:^{N-n}}")
                 else:
-                    logo_info.append(f"{info[i-before]:^{N-n}}{cat[i-before]:^{n}}")
+                    logo_info.append(f"{info[i]:^{N-n}}{cat[i-before]:^{n}}")
 
     logo_info = [f"{comment}{x:^{line_length}}\n" for x in logo_info]
     return "".join(logo_info)[:-1]
-- 
2.43.0


From 9fe17c24a8ee9036a7c398f90ccb64fb20b850ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:54 +0000
Subject: [PATCH 59/67] fix: formatting of the parameter without the format
 specification raised ValueError

---
 src/magnopy/spinham/parameter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/parameter.py b/src/magnopy/spinham/parameter.py
index f2a4863..e0358eb 100644
--- a/src/magnopy/spinham/parameter.py
+++ b/src/magnopy/spinham/parameter.py
@@ -73,6 +73,9 @@ class MatrixParameter:
     #                     String representation and formatting                     #
     ################################################################################
     def __format__(self, fmt):
+        # Empty specification is given by "{}".format() and f"{parameter}"
+        if fmt == "":
+            return self.__str__()
         return self.__str__(fmt=fmt)
 
     def __str__(self, fmt=".4f"):
-- 
2.43.0


From 51d14a7eac1a3ae923705bfbfed84eac14073cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:13 +0000
Subject: [PATCH 60/67] fix: logo with comment=False started every line with
 the word False

---
 src/magnopy/_pinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/_pinfo.py b/src/magnopy/_pinfo.py
index b4442ee..ecaa170 100644
--- a/src/magnopy/_pinfo.py
+++ b/src/magnopy/_pinfo.py
@@ -102,8 +102,8 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
         line_length = N
     if line_length < N:
         line_length = N
-    if isinstance(comment, bool) and comment:
-        comment = "# "
+    if isinstance(comment, bool):
+        comment = "# " if comment else ""
     elif comment is not None:
         comment = str(comment)
     else:
-- 
2.43.0


From ff56cc277b1ee3be9d06775809e7c83733fe58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 61/67] fix: keep the documented minimum line length of the
 flat banner

---
 src/magnopy/_pinfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/_pinfo.py b/src/magnopy/_pinfo.py
index ecaa170..f3070f3 100644
--- a/src/magnopy/_pinfo.py
+++ b/src/magnopy/_pinfo.py
@@ -96,7 +96,8 @@ def logo(info=None, line_length=None, flat=False, date_time=False, comment=None)
         " ▀▀▀▀▀▀▀▀ ",
     ]
 
-    N = len(logo[0])
+    # The flat logo is one symbol shorter, than the documented minimum length of the line
+    N = max(len(logo[0]), 70)
     n = len(cat[0]) + 2
     if line_length is None:
         line_length = N
-- 
2.43.0


From 28fef76d5e3ce5eb122f3999a8e5bf8f7f9f5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 62/67] fix: keep the cell when the standardized one describes
 another lattice

---
 src/magnopy/spinham/hamiltonian.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 2fb4676..ad51766 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -18,6 +18,7 @@
 
 __all__ = ["SpinHamiltonian", "PREDEFINED_NOTATIONS"]
 
+import logging
 from copy import deepcopy
 from typing import Iterable, Tuple
 
@@ -27,6 +28,8 @@ from wulfric import Atom, Crystal
 from magnopy.exceptions import NotationError
 from magnopy.spinham.parameter import MatrixParameter
 
+_logger = logging.getLogger(__name__)
+
 PREDEFINED_NOTATIONS = {
     "magnopy": (True, False, 0.5, 1),
     "tb2j": (True, True, -1, -1),
@@ -94,15 +97,34 @@ class SpinHamiltonian(Crystal):
         standardized cell, therefore, the Hamiltonian itself is not changed.
 
         See :py:meth:`wulfric.Crystal.standardize` for details.
+
+        If the standardized cell does not describe the same lattice (in rare cases for
+        low-symmetry lattices), then the cell is left as it is.
         """
 
         old_cell = np.array(self.cell)
+        old_positions = [np.array(atom.position) for atom in self.atoms]
 
         super().standardize()
 
         # Lattice vectors of the old cell in the basis of the standardized one
         transformation = old_cell @ np.linalg.inv(self.cell)
 
+        # Both cells have to be the primitive cells of one lattice
+        if (
+            not np.allclose(transformation, np.rint(transformation), rtol=0, atol=1e-3)
+            or np.rint(abs(np.linalg.det(transformation))) != 1
+        ):
+            _logger.warning(
+                "Standardized cell does not describe the same lattice, the cell is not changed."
+            )
+            self.cell = old_cell
+            self._standardized = False
+            self._kpoints = None
+            for atom, position in zip(self.atoms, old_positions):
+                atom.position = position
+            return
+
         self._exchange = {
             (
                 atom1,
-- 
2.43.0


From fe6f1273e479ddae9ce0d517e62b605de4781eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 63/67] fix: notation and factors that are not numbers raised
 TypeError instead of ValueError

---
 src/magnopy/spinham/hamiltonian.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index ad51766..36c9aaa 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -38,6 +38,17 @@ PREDEFINED_NOTATIONS = {
 }
 
 
+def _to_factor(value) -> float:
+    r"""
+    Convert the factor to float, raise ValueError if it is not a number.
+    """
+
+    try:
+        return float(value)
+    except TypeError:
+        raise ValueError(f"Factor of the notation is not a number: {value}")
+
+
 class SpinHamiltonian(Crystal):
     r"""
     Spin Hamiltonian.
@@ -294,19 +305,21 @@ class SpinHamiltonian(Crystal):
             new_notation = PREDEFINED_NOTATIONS[new_notation]
         # Set the notation from three or four values
         elif isinstance(new_notation, Iterable):
+            # Iterators do not have a length
+            new_notation = tuple(new_notation)
             if len(new_notation) == 3:
                 new_notation = (
                     bool(new_notation[0]),
                     bool(new_notation[1]),
-                    float(new_notation[2]),
-                    float(new_notation[2]),
+                    _to_factor(new_notation[2]),
+                    _to_factor(new_notation[2]),
                 )
             elif len(new_notation) == 4:
                 new_notation = (
                     bool(new_notation[0]),
                     bool(new_notation[1]),
-                    float(new_notation[2]),
-                    float(new_notation[3]),
+                    _to_factor(new_notation[2]),
+                    _to_factor(new_notation[3]),
                 )
             else:
                 raise ValueError(
@@ -532,7 +545,7 @@ class SpinHamiltonian(Crystal):
 
     @exchange_factor.setter
     def exchange_factor(self, new_factor: float):
-        new_factor = float(new_factor)
+        new_factor = _to_factor(new_factor)
         # If factor is changing one need to scale parameters.
         if self._exchange_factor is not None and self._exchange_factor != new_factor:
             # Only exchange parameters have to be scaled
@@ -573,7 +586,7 @@ class SpinHamiltonian(Crystal):
 
     @on_site_factor.setter
     def on_site_factor(self, new_factor: float):
-        new_factor = float(new_factor)
+        new_factor = _to_factor(new_factor)
         # If factor is changing one need to scale parameters.
         if self._on_site_factor is not None and self._on_site_factor != new_factor:
             # Only on-site parameters have to be scaled
-- 
2.43.0


From 6325812f12571d26caa629bad9380bb6872f6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 64/67] fix: arrays given as the isotropic parameter changed
 the anisotropic one instead of being refused

---
 src/magnopy/spinham/parameter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnopy/spinham/parameter.py b/src/magnopy/spinham/parameter.py
index e0358eb..ec97a08 100644
--- a/src/magnopy/spinham/parameter.py
+++ b/src/magnopy/spinham/parameter.py
@@ -234,6 +234,10 @@ class MatrixParameter:
 
     @iso.setter
     def iso(self, new_iso):
+        try:
+            new_iso = float(new_iso)
+        except:
+            raise ValueError(f"New iso is not a number: {new_iso}")
         new_iso = new_iso - self.iso
         self.matrix = self.matrix + (new_iso) * np.identity(3, dtype=float)
 
-- 
2.43.0


From 313f743808530d421d9a926ab06752ac513aae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 65/67] fix: a matrix given in the place of the parameter was
 stored as it is, and wrong values left half of the bond

---
 src/magnopy/spinham/hamiltonian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 36c9aaa..0f0a2bc 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -772,6 +772,9 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Matrices have to become parameters, wrong values are refused here
+        elif not isinstance(parameter, MatrixParameter):
+            parameter = MatrixParameter(matrix=parameter)
 
         # Get the atom by the name
         if isinstance(atom1, str):
@@ -869,6 +872,9 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Matrices have to become parameters, wrong values are refused here
+        elif not isinstance(parameter, MatrixParameter):
+            parameter = MatrixParameter(matrix=parameter)
 
         # Add atom to the Hamiltonian if it is not in it
         # Only works for Atom class
-- 
2.43.0


From bb27f00104639471fc9553a1f1750f95eff886eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 66/67] fix: wrong forms of spin directions, tolerances and
 steps were not refused with ValueError, and some after the history file was
 created

---
 src/magnopy/spinham/energy.py | 58 +++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index eb6d186..f66b512 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -58,6 +58,12 @@ def _starting_ferro(n_spins, initial_guess=None):
         except:
             raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
+        if spin_orientation.ndim != 2 and (spin_orientation.ndim != 1 or n_spins != 1):
+            raise ValueError(
+                f"spin_orientation has to be a list of vectors, "
+                f"got an array of the shape {spin_orientation.shape}"
+            )
+
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
@@ -81,6 +87,11 @@ def _starting_ferro(n_spins, initial_guess=None):
 
 
 def _starting_antiferro(n_spins, antiferro_q, initial_guess=None):
+    if initial_guess is not None and not isinstance(initial_guess, Iterable):
+        raise ValueError(
+            f"Initial guess has to be a tuple or None, got: {initial_guess}"
+        )
+
     if initial_guess is not None and len(initial_guess) != 2:
         raise ValueError(
             "If initial guess is not None, then tuple with two elements "
@@ -128,6 +139,11 @@ def _starting_antiferro(n_spins, antiferro_q, initial_guess=None):
 
 
 def _starting_spiral(n_spins, initial_guess=None):
+    if initial_guess is not None and not isinstance(initial_guess, Iterable):
+        raise ValueError(
+            f"Initial guess has to be a tuple or None, got: {initial_guess}"
+        )
+
     if initial_guess is not None and len(initial_guess) != 3:
         raise ValueError(
             "If initial guess is not None, then tuple with three elements "
@@ -1053,6 +1069,14 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
+        if spin_orientation.ndim != 2 and (
+            spin_orientation.ndim != 1 or len(self._spins) != 1
+        ):
+            raise ValueError(
+                f"spin_orientation has to be a list of vectors, "
+                f"got an array of the shape {spin_orientation.shape}"
+            )
+
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
@@ -1131,6 +1155,14 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
+        if spin_orientation.ndim != 2 and (
+            spin_orientation.ndim != 1 or len(self._spins) != 1
+        ):
+            raise ValueError(
+                f"spin_orientation has to be a list of vectors, "
+                f"got an array of the shape {spin_orientation.shape}"
+            )
+
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
@@ -1243,6 +1275,14 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
+        if spin_orientation.ndim != 2 and (
+            spin_orientation.ndim != 1 or len(self._spins) != 1
+        ):
+            raise ValueError(
+                f"spin_orientation has to be a list of vectors, "
+                f"got an array of the shape {spin_orientation.shape}"
+            )
+
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
@@ -1452,6 +1492,24 @@ class Energy:
             ``case = "spiral"``
         """
 
+        # Check the correctness of the settings
+        if tolerance is not None:
+            try:
+                tolerance = tuple(float(value) for value in tolerance)
+            except (TypeError, ValueError):
+                raise ValueError(f"Expected tuple of floats, got {tolerance}")
+        if max_iterations is not None:
+            try:
+                max_iterations = float(max_iterations)
+            except (TypeError, ValueError):
+                raise ValueError(f"max_iterations is not a number: {max_iterations}")
+        try:
+            history_step = float(history_step)
+        except (TypeError, ValueError):
+            raise ValueError(f"history_step is not a number: {history_step}")
+        if history_step == 0:
+            raise ValueError("history_step can not be zero")
+
         # Check the correctness of the initial guess if any.
         # Make a random one otherwise.
 
-- 
2.43.0


From 40a058903e75c35c5d2c4cc67196bef3b28740c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 67/67] fix: manager of the minimization script failed without
 ground_state_type

---
 src/magnopy/score/minimize_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 29f316f..e2fe2d8 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -167,7 +167,7 @@ def manager(
         energy.magnetic_field = magnetic_field
 
     # Decide which ground state types to minimize
-    if "all" in ground_state_type:
+    if ground_state_type is None or "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
     else:
         gs_to_minimize = ground_state_type
-- 
2.43.0

