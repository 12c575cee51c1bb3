From 634b79426807e986f2acac0fd9dad056a0d2e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 01/57] fix: discard the power spectrum partials with the other
 spectra

After a change of algorithm, number of MEM coefficients or frequency range
get_power_spectrum_partials() kept returning the old spectra.
---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..c655269 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -68,6 +68,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
-- 
2.43.0


From 0b87befc58b3cf1a80bcf734290af744134e77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 02/57] fix: discard projected results when the projected atom
 type changes

set_projection_onto_atom_type() kept velocities, spectra and force constants
computed for the previous projection.
---
 dynaphopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c655269..248802e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -132,6 +132,9 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self.full_clear()
+                self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-- 
2.43.0


From bef8fda5527600df278807ec114ab22ea9ca2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 03/57] fix: discard renormalized data when the QHA force
 constants change

The QHA shift enters the commensurate points data, which was kept.
---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 248802e..b4eea98 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1448,6 +1448,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From df4d6d823539813c9d3b6db6c67fae8ef203cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 04/57] fix: cropping the trajectory discards the results of
 the uncropped one

Quasiparticle.crop_trajectory() kept spectra, projections and temperature, and
cropped only the projected velocity once that had been calculated.
---
 dynaphopy/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b4eea98..532430f 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_loaded = vc is not None
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -39,6 +40,7 @@ class Quasiparticle:
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
         self._temperature = None
+        self._temperature_md = None
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -46,7 +48,11 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        self.power_spectra_clear()
+        self._vq = None
+        self._temperature_md = None
+        if self._vc is None or not self._vc_loaded:
+            self._vc = None
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
@@ -1088,12 +1094,15 @@ class Quasiparticle:
         energy.boltzmann_distribution(self.dynamic, self.parameters)
 
     def get_temperature(self):
-        if not self._temperature:
+        if self._temperature:
+            return self._temperature
+
+        if self._temperature_md is None:
             save_status = self.parameters.silent
             self.parameters.silent = True
-            self._temperature = energy.boltzmann_distribution(self.dynamic, self.parameters)
+            self._temperature_md = energy.boltzmann_distribution(self.dynamic, self.parameters)
             self.parameters.silent = save_status
-        return self._temperature
+        return self._temperature_md
 
     def set_temperature(self, temperature):
         self._temperature = temperature
-- 
2.43.0


From cffa1839dcc31f64172bcad330e887db947a465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 05/57] fix: full power spectrum is recalculated for another
 coordinate

get_power_spectrum_full(projection_on_coordinate) returned the spectrum of the
coordinate requested first.
---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 532430f..581fdc1 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -34,6 +34,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_direct_coordinate = None
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
@@ -794,8 +795,9 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or self._power_spectrum_direct_coordinate != projection_on_coordinate:
             print("Calculation full power spectrum")
+            self._power_spectrum_direct_coordinate = projection_on_coordinate
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
 
-- 
2.43.0


From 0ad03b22c62412deb6e1c6049dcb228b25524e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 06/57] fix: mean displacement matrix is recalculated for the
 other reference

get_mean_displacement_matrix(use_average_positions) returned the matrix of the
reference requested first.
---
 dynaphopy/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..aaa0c52 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -29,6 +29,7 @@ class Dynamics:
         self._supercell_matrix = None
         self._number_of_atoms = None
         self._mean_displacement_matrix = None
+        self._mean_displacement_average = None
 
         if structure is not None:
             self._structure = structure
@@ -206,8 +207,9 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if self._mean_displacement_matrix is None or self._mean_displacement_average != use_average_positions:
 
+            self._mean_displacement_average = use_average_positions
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
 
-- 
2.43.0


From f0a94d963109f3d3f6e9e603b7911001da96be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 07/57] fix: print_phonon_dispersion_bands passes the band
 ranges

It passed the dictionary of ranges and labels and failed.
---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 581fdc1..08aeb61 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -581,7 +581,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From 2bc1feefb8c685e49c10f154408f019ac7636fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 08/57] fix: writing extra quasiparticle data does not alter
 the stored data

After write_quasiparticles_data(with_extra=True) the extra properties stayed in
the stored commensurate points data and were written by later calls without it.
---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 08aeb61..015ea20 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1256,7 +1256,7 @@ class Quasiparticle:
         pho_interface.save_force_constants_to_file(force_constants, filename)
 
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
-        quasiparticle_data = self.get_commensurate_points_data()
+        quasiparticle_data = dict(self.get_commensurate_points_data())
         if with_extra:
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
-- 
2.43.0


From 1379e5de78b487395f75e4b9bb6a7baf3effa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 09/57] fix: changing the MEM coefficients from the menu
 discards old spectra

---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From 82df4ca64a7c6751c09c55be9f2b264917231a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 10/57] fix: save_renormalized_frequencies option takes effect
 (misspelt attribute)

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 00c9201543f5f6aa8849f01b40c3c1b6845044d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 11/57] fix: --fcsymm option takes effect (assigned to a
 setting nothing reads)

---
 scripts/dynaphopy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From 035be6d1d748e89421bbb95b85ffa1d70d214ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 12/57] fix: conversion factor of older phonopy versions is
 imported by its name

---
 dynaphopy/interface/phonopy_link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..6281b9f 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -13,7 +13,7 @@ except ImportError:
     from phonopy.structure.atoms import Atoms as PhonopyAtoms
 
 try:
-    from phonopy.units import VaspToTHza
+    from phonopy.units import VaspToTHz
 except ImportError:
     from phonopy.physical_units import get_physical_units
     VaspToTHz = get_physical_units().DefaultToTHz
-- 
2.43.0


From 6ab434b8dcafb4c3e15e73988fa5ccd0a2008c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 13/57] fix: symmetrizing force constants works with current
 phonopy

PhonopyAtoms has no get_cell()/get_scaled_positions(), and the lattice is
expected with its vectors in columns.
---
 dynaphopy/interface/phonopy_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index 6281b9f..c530df2 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -393,8 +393,8 @@ def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, str
     if symmetrize:
         print('Symmetrizing force constants')
         set_tensor_symmetry_PJ(force_constants.get_array(),
-                               phonon.supercell.get_cell(),
-                               phonon.supercell.get_scaled_positions(),
+                               phonon.supercell.cell.T,
+                               phonon.supercell.scaled_positions,
                                phonon.symmetry)
 
     return force_constants
-- 
2.43.0


From dd2d6f1413b9d4abb9223b98cfbcbf394078ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 14/57] fix: loaded projected velocity is cropped together with
 its time

The loaded array is now kept apart from the calculated one, so that cropping
knows which of the two it has to crop.
---
 dynaphopy/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 015ea20..425ea36 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -26,8 +26,8 @@ class Quasiparticle:
                  vc=None):
 
         self._dynamic = dynamic
-        self._vc = vc
-        self._vc_loaded = vc is not None
+        self._vc = None
+        self._vc_loaded = vc
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -52,20 +52,22 @@ class Quasiparticle:
         self.power_spectra_clear()
         self._vq = None
         self._temperature_md = None
-        if self._vc is None or not self._vc_loaded:
+        if self._vc_loaded is None:
             self._vc = None
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
             if last_steps is not None:
-                self._vc = self._vc[-last_steps:, :, :]
-            print("Using {0} steps".format(len(self._vc)))
+                self._vc_loaded = self._vc_loaded[-last_steps:, :, :]
+                self._dynamic.set_time(self._dynamic.get_time()[-last_steps:])
+            print("Using {0} steps".format(len(self._vc_loaded)))
 
     # Memory clear methods
     def full_clear(self):
         self._eigenvectors = None
         self._frequencies = None
         self._vc = None
+        self._vc_loaded = None
         self._vq = None
         self._power_spectrum_direct = None
         self._power_spectrum_wave_vector = None
@@ -635,6 +637,9 @@ class Quasiparticle:
 
     # Projections related methods
     def get_vc(self):
+        if self._vc_loaded is not None:
+            return self._vc_loaded
+
         if self._vc is None:
             print("Projecting into wave vector")
             # Check if commensurate point
-- 
2.43.0


From e81071bc3e11f3aeea6de09a6b8ab1a4a2abcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 15/57] fix: supercell lattice vectors are multiples of the
 unit cell vectors

Lattice vectors are in rows, get_cell(supercell) scaled the columns instead,
which is wrong for non orthogonal cells in anisotropic supercells.
---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From 7b6b5011f1f6c7ee1e33dcda90188717f86e0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 16/57] fix: primitive matrix obtained from the primitive cell
 is its inverse relation

get_primitive_cell() uses cell.T * primitive_matrix = primitive_cell.T
---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..e07236a 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -129,7 +129,7 @@ class Structure:
                 print('Warning: No primitive matrix defined! Using unit cell as primitive')
                 self._primitive_matrix = np.identity(self.get_number_of_dimensions())
             else:
-                self._primitive_matrix = np.dot(np.linalg.inv(self.get_cell()), self._primitive_cell)
+                self._primitive_matrix = np.dot(np.linalg.inv(self.get_cell().T), self._primitive_cell.T)
         return self._primitive_matrix
 
     # Positions related methods
-- 
2.43.0


From 7d88e087bab96a91449f8bf5598679ad9f8c5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 17/57] fix: structure setters discard the quantities derived
 from the old data

set_positions() had no effect on get_positions() once these had been requested
(or given), set_cell() kept the old primitive cell and Cartesian positions, and
set_masses() the atom types found with the old masses.
---
 dynaphopy/atoms.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index e07236a..93bb1de 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -84,6 +84,13 @@ class Structure:
     # Cell related methods
     def set_cell(self, cell):
         self._cell = np.array(cell, dtype='double')
+        self._primitive_cell = None
+        self._clear_atom_types()
+
+    def _clear_atom_types(self):
+        self._number_of_atom_types = None
+        self._number_of_primitive_atoms = None
+        self._atom_type_index = None
 
     def get_cell(self, supercell=None):
 
@@ -134,37 +141,42 @@ class Structure:
 
     # Positions related methods
     def set_positions(self, cart_positions):
-        self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
+        self._positions = np.array(cart_positions)
+        self._scaled_positions = None
+        self._number_of_cell_atoms = None
+        self._number_of_atoms = None
+        self._clear_atom_types()
 
     def get_positions(self, supercell=None):
-        if self._positions is None:
+        positions = self._positions
+        if positions is None:
             if self._scaled_positions is None:
                 print('No positions provided')
                 exit()
             else:
-                self._positions = np.dot(self._scaled_positions, self.get_cell())
+                positions = np.dot(self._scaled_positions, self.get_cell())
 
         if supercell is None:
             supercell = self.get_number_of_dimensions() * [1]
 
         position_supercell = []
-        for k in range(self._positions.shape[0]):
+        for k in range(positions.shape[0]):
             for r in itertools.product(*[range (i) for i in supercell[::-1]]):
-                position_supercell.append(self._positions[k,:] + np.dot(np.array(r[::-1]), self.get_cell()))
+                position_supercell.append(positions[k,:] + np.dot(np.array(r[::-1]), self.get_cell()))
         position_supercell = np.array(position_supercell)
 
         return position_supercell
 
     def get_scaled_positions(self, supercell=None):
 
-        if self._scaled_positions is None:
-            self._scaled_positions = np.dot(self.get_positions(), np.linalg.inv(self.get_cell()))
-
         if supercell is not None:
             cell = self.get_cell(supercell=supercell)
             scaled_positions = np.dot(self.get_positions(supercell), np.linalg.inv(cell))
             return scaled_positions
 
+        if self._scaled_positions is None:
+            return np.dot(self.get_positions(), np.linalg.inv(self.get_cell()))
+
         return self._scaled_positions
 
     # Force related methods
@@ -197,6 +209,7 @@ class Structure:
 
     def set_masses(self, masses):
         self._masses = np.array(masses, dtype='double')
+        self._clear_atom_types()
 
     def get_masses(self, supercell=None):
         if supercell is None:
-- 
2.43.0


From 482cc713b36f9173d14de2d900c7d5083e7e0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 18/57] fix: each memory mapped array has its own file

The file names depended only on the process id, so that two trajectories of one
process shared (and overwrote) the same file, and the deletion of one removed
the file of the other. The file of a scaled trajectory was never removed.
---
 dynaphopy/dynamics.py                         | 40 ++++++++++++++-----
 .../interface/iofile/trajectory_parsers.py    |  4 +-
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index aaa0c52..7c2c352 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -1,6 +1,30 @@
 import numpy as np
 from dynaphopy.displacements import atomic_displacements
 import os
+import tempfile
+
+
+def memmap_file_name(directory, name):
+    """
+    Creates the file for one memory mapped array
+
+    :param directory: directory of the file (ending in / or empty)
+    :param name: name of the array
+    :return: name of a file not used by any other array
+    """
+    file_descriptor, file_name = tempfile.mkstemp(prefix='{0}.{1}.'.format(name, os.getpid()),
+                                                  dir=directory if directory else os.curdir)
+    os.close(file_descriptor)
+    return file_name
+
+
+def _remove_memmap_file(mapped_array):
+    filename = getattr(mapped_array, 'filename', None)
+    if filename is not None:
+        try:
+            os.remove(filename)
+        except OSError:
+            pass
 
 
 class Dynamics:
@@ -54,13 +78,9 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
-                try:
-                    filename = mapped_array.filename
-                except AttributeError:
-                    continue
-                del mapped_array
-                os.remove(filename)
+            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
+                                 self._relative_trajectory, self._velocity_mass_average]:
+                _remove_memmap_file(mapped_array)
 
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
@@ -144,7 +164,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
+                self._velocity_mass_average = np.memmap(memmap_file_name(self._temp_directory, 'velocity_mass'),
                                                         dtype='complex', mode='w+', shape=self.velocity.shape)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
@@ -168,7 +188,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
+                normalized_trajectory = np.memmap(memmap_file_name(self._temp_directory, 'r_trajectory'),
                                                   dtype='complex', mode='w+', shape=trajectory.shape)
             else:
                 normalized_trajectory = self.trajectory.copy()
@@ -317,7 +337,7 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
+                self._velocity = np.memmap(memmap_file_name(self._temp_directory, 'velocity'),
                                            dtype='complex',
                                            mode='w+',
                                            shape=self.get_relative_trajectory().shape)
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..44e9a36 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -276,7 +276,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -425,7 +425,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             if memmap:
                 if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                    data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                 else:
                     print('Memory mapping requires to define reading range (use read_from/read_to option)')
                     exit()
-- 
2.43.0


From 622f3f1b8ae386bb216c5528e860ca62df776c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 19/57] fix: XDATCAR parser creates the memory mapped array
 once

It was created (emptied) again at each step, only the last step was kept.
---
 dynaphopy/interface/iofile/trajectory_parsers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 44e9a36..00a8994 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -413,6 +413,13 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
 
+        if memmap:
+            if end_cut:
+                data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+            else:
+                print('Memory mapping requires to define reading range (use read_from/read_to option)')
+                exit()
+
         while True:
 
             counter += 1
@@ -423,14 +430,6 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
-                if end_cut:
-                    data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
-                else:
-                    print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                    exit()
-
-
             #Initial cut control
             if initial_cut > counter:
                 continue
-- 
2.43.0


From 221a388242c1c122bc2309ed121e08a21af6ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 20/57] fix: trajectory setters and crop discard the data
 derived from the old data

The time step, mean displacement matrix and mass weighted velocity of the old
data were kept, and cropping failed with memory mapping.
---
 dynaphopy/dynamics.py | 64 +++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 7c2c352..5ea85ad 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -44,6 +44,7 @@ class Dynamics:
         self._scaled_trajectory = scaled_trajectory
         self._energy = energy
         self._velocity = velocity
+        self._trajectory_velocity = None  # calculated from trajectory
         self._supercell = supercell
         self._memmap=memmap
 
@@ -79,9 +80,22 @@ class Dynamics:
         #Clean all temporal files from memmap
         if self._memmap:
             for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
-                                 self._relative_trajectory, self._velocity_mass_average]:
+                                 self._relative_trajectory, self._trajectory_velocity, self._velocity_mass_average]:
                 _remove_memmap_file(mapped_array)
 
+    # Clear data derived from the velocity / trajectory
+    def _clear_velocity(self):
+        for mapped_array in [self._trajectory_velocity, self._velocity_mass_average]:
+            _remove_memmap_file(mapped_array)
+        self._trajectory_velocity = None
+        self._velocity_mass_average = None
+
+    def _clear_trajectory(self):
+        _remove_memmap_file(self._relative_trajectory)
+        self._relative_trajectory = None
+        self._mean_displacement_matrix = None
+        self._clear_velocity()
+
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
 
@@ -90,40 +104,23 @@ class Dynamics:
 
         if self._trajectory is not None:
             self._trajectory = self._trajectory[-last_steps:, :, :]
-            self._relative_trajectory = None
-            self._scaled_trajectory = None
-
-        if self._relative_trajectory is not None:
-            self._relative_trajectory = self._relative_trajectory[-last_steps:, :, :]
-            self._trajectory = None
-            self._scaled_trajectory = None
 
         if self._scaled_trajectory is not None:
             self._scaled_trajectory = self._scaled_trajectory[-last_steps:, :, :]
-            self._trajectory = None
-            self._relative_trajectory = None
 
         if self._energy is not None:
             self._energy = self._energy[-last_steps:]
         if self._time is not None:
             self._time = self._time[-last_steps:]
 
+        self._time_step_average = None
+        self._clear_trajectory()
+
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
 
-        self.velocity = self.velocity[-last_steps:, :, :]
-
-        self._velocity_mass_average = None
-
-        if self._memmap:
-            filename = self._relative_trajectory.filename
-            self._relative_trajectory = None
-            try:
-                os.remove(filename)
-            except:
-                pass
-        else:
-            self._relative_trajectory = None
+        if self._velocity is not None:
+            self._velocity = self._velocity[-last_steps:, :, :]
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
 
@@ -134,6 +131,8 @@ class Dynamics:
 
     def set_time(self, time):
         self._time = time
+        self._time_step_average = None
+        self._clear_velocity()
 
     def get_time(self):
         return self._time
@@ -160,6 +159,9 @@ class Dynamics:
 
     def set_structure(self, structure):
         self._structure = structure
+        self._supercell_matrix = None
+        self._number_of_atoms = None
+        self._clear_trajectory()
 
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
@@ -334,22 +336,26 @@ class Dynamics:
 
     @property
     def velocity(self):
-        if self._velocity is None:
+        if self._velocity is not None:
+            return self._velocity
+
+        if self._trajectory_velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(memmap_file_name(self._temp_directory, 'velocity'),
+                self._trajectory_velocity = np.memmap(memmap_file_name(self._temp_directory, 'velocity'),
                                            dtype='complex',
                                            mode='w+',
                                            shape=self.get_relative_trajectory().shape)
             else:
-                self._velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
+                self._trajectory_velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
             for i in range(self.get_number_of_atoms()):
                 for j in range(self.structure.get_number_of_dimensions()):
-                    self._velocity[:, i, j] = np.gradient(self.get_relative_trajectory()[:, i, j],
+                    self._trajectory_velocity[:, i, j] = np.gradient(self.get_relative_trajectory()[:, i, j],
                                                           self.get_time_step_average())
 
-        return self._velocity
+        return self._trajectory_velocity
 
     @velocity.setter
     def velocity(self,velocity):
-        self._velocity = velocity
\ No newline at end of file
+        self._velocity = velocity
+        self._clear_velocity()
\ No newline at end of file
-- 
2.43.0


From 95357ed42365c7be77ef7dc1c9ab98b84c82cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 21/57] fix: average_positions samples with a function that
 current numpy has

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 5ea85ad..5b7d457 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -278,7 +278,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
-- 
2.43.0


From 46dc83274d8464ef8876c501a737b4531acc5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 22/57] fix: input files are opened for reading only

Read-only structure and trajectory files could not be read, and they were mapped
with write access.
---
 dynaphopy/interface/iofile/__init__.py           |  8 ++++----
 dynaphopy/interface/iofile/trajectory_parsers.py | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..6a890ab 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -155,8 +155,8 @@ def get_trajectory_parser(file_name, bytes_to_check=1000000):
 
     # Check available parsers
     for parser in parsers_keywords.values():
-        with open(file_name, "r+b") as f:
-            file_map = mmap.mmap(f.fileno(), np.min([bytes_to_check, file_size]))
+        with open(file_name, "rb") as f:
+            file_map = mmap.mmap(f.fileno(), np.min([bytes_to_check, file_size]), access=mmap.ACCESS_READ)
             num_test = [file_map.find(keyword.encode()) for keyword in list(parser['keywords'])]
 
         if not -1 in num_test:
@@ -175,9 +175,9 @@ def read_from_file_structure_outcar(file_name):
     # Read from VASP OUTCAR file
     print('Reading VASP structure')
 
-    with open(file_name, "r+b") as f:
+    with open(file_name, "rb") as f:
         # memory-map the file
-        file_map = mmap.mmap(f.fileno(), 0)
+        file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
 
         # Setting number of dimensions
         number_of_dimensions = 3
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 00a8994..039e883 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -36,10 +36,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
     # Dimensionality of VASP calculation
     number_of_dimensions = 3
 
-    with open(file_name, "r+") as f:
+    with open(file_name, "rb") as f:
 
         #Memory-map the file
-        file_map = mmap.mmap(f.fileno(), 0)
+        file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
         position_number=file_map.find(b'NIONS =')
         file_map.seek(position_number+7)
         number_of_atoms = int(file_map.readline())
@@ -185,9 +185,9 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     lammps_labels = False
 
-    with open(file_name, "r+") as f:
+    with open(file_name, "rb") as f:
 
-        file_map = mmap.mmap(f.fileno(), 0)
+        file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
 
         while True:
 
@@ -204,7 +204,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             if number_of_atoms is None:
                 #Read number of atoms
-                file_map = mmap.mmap(f.fileno(), 0)
+                file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
                 position_number=file_map.find(b'NUMBER OF ATOMS')
                 file_map.seek(position_number)
                 file_map.readline()
@@ -217,7 +217,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             if bounds is None:
                 #Read cell
-                file_map = mmap.mmap(f.fileno(), 0)
+                file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
                 position_number=file_map.find(b'BOX BOUNDS')
                 file_map.seek(position_number)
                 file_map.readline()
@@ -399,9 +399,9 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
     data = []
     counter = 0
 
-    with open(file_name, "r+b") as f:
+    with open(file_name, "rb") as f:
 
-        file_map = mmap.mmap(f.fileno(), 0)
+        file_map = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
 
         #Read cell
         for i in range(2): file_map.readline()
-- 
2.43.0


From 54f0811cdb9e30bf2baf55327986f4023a9455e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 23/57] fix: XDATCAR parser does not keep the time of skipped
 steps

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 039e883..91f7924 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -432,6 +432,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             #Initial cut control
             if initial_cut > counter:
+                time = []
                 continue
 
             #Reading coordinates
-- 
2.43.0


From a08b63ce61de4b61920c189fa5e2f55966932417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 24/57] fix: truncated trajectory files give as many times as
 steps read

The time of the incomplete last step was kept (or the parser failed), and with
memory mapping the steps missing in the file were taken as zero coordinates.
---
 .../interface/iofile/trajectory_parsers.py    | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 91f7924..f319aa3 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -295,13 +295,14 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-            read_coordinates = np.array(read_coordinates, dtype=float)
-
-            if template is not None:
-                indexing = np.argsort(template)
-                read_coordinates = read_coordinates[indexing, :]
 
             try:
+                read_coordinates = np.array(read_coordinates, dtype=float)
+
+                if template is not None:
+                    indexing = np.argsort(template)
+                    read_coordinates = read_coordinates[indexing, :]
+
                 read_coordinates = np.dot(read_coordinates, transformation_mat)
                 if memmap:
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
@@ -310,6 +311,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
+                time.pop()
                 break
                 # print(read_coordinates)
 
@@ -325,7 +327,9 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
         if last_steps is not None:
@@ -440,12 +444,13 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
 
-            read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
-            if template is not None:
-                indexing = np.argsort(template)
-                read_coordinates = read_coordinates[indexing, :]
 
             try:
+                read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
+                if template is not None:
+                    indexing = np.argsort(template)
+                    read_coordinates = read_coordinates[indexing, :]
+
                 if memmap:
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
@@ -453,6 +458,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
+                time.pop()
                 break
                 # print(read_coordinates)
 
@@ -468,7 +474,9 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
         if last_steps is not None:
-- 
2.43.0


From 3d73908ca301e74110f4f37f9fd19fd7d6c1bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 25/57] fix: OUTCAR parser skips the steps before the first
 requested

It only counted them, and returned the same number of steps from the start of
the file.
---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index f319aa3..eb16db2 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,9 +74,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,6 +82,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-- 
2.43.0


From 6a3f51bddb96a58d4ba4bb569561f9295513aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 26/57] fix: time is cut like the data when reading part of a
 hdf5 file

---
 dynaphopy/interface/iofile/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 6a890ab..5a651c1 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -702,6 +702,15 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
     time = hdf5_file['time'][:]
+    for name in ('trajectory', 'velocity', 'vc'):
+        if name in hdf5_file and len(time) < hdf5_file[name].shape[0]:
+            # Files joined without joining their time
+            time = time[0] + np.arange(hdf5_file[name].shape[0]) * (time[1] - time[0])
+    if final_cut is not None:
+        time = time[initial_cut-1:final_cut]
+    else:
+        time = time[initial_cut-1:]
+
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From 46c76ef8dc7352134e92b99373d3104a34ddda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 27/57] fix: concath5 joins the time of the files

The output had the time of the first file only, including the skipped steps.
---
 scripts/concath5 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..69b3b4f 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -92,6 +92,8 @@ if args.velocity_only:
     trajectory = None
     vc = None
 
+time = time[first:]
+
 if velocity is not None:
     velocity = velocity[first:]
 
@@ -105,7 +107,14 @@ print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # Time continues after the last step
+    new_time = new_time[first:]
+    if len(new_time) > 0 and len(time) > 0:
+        time_step = time[-1] - time[-2] if len(time) > 1 else new_time[-1] - new_time[-2]
+        new_time = new_time - new_time[0] + time[-1] + time_step
+    time = np.concatenate((time, new_time), axis=0)
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From cb8769da71dbbc0d9ab2540eaec83a6753b936df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 28/57] fix: Cartesian positions of POSCAR are multiplied by
 the scale factor

---
 dynaphopy/interface/iofile/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 5a651c1..23e7c65 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -296,6 +296,9 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
             positions = np.array([data_lines[8+k].split()[0:3]
                                   for k in range(np.sum(number_of_types))],dtype=float)
 
+        if positions is not None:
+            positions *= multiply
+
         atomic_types = []
         for i,j in enumerate(data_lines[5].split()):
             atomic_types.append([j]*number_of_types[i])
@@ -314,6 +317,9 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
             positions = np.array([data_lines[7+k].split()[0:3]
                                   for k in range(np.sum(number_of_types))], dtype=float)
 
+        if positions is not None:
+            positions *= multiply
+
         atomic_types = []
         for i,j in enumerate(data_lines[0].split()):
             atomic_types.append([j]*number_of_types[i])
-- 
2.43.0


From 5790bdbceedde0011852660385a4ca9b84dcbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 29/57] fix: phase_0 changes the phase of the test trajectory,
 not its amplitude

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 23e7c65..b488922 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -414,7 +414,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From fb4c270d9c6a256f399f24fbb629f343072f89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 30/57] fix: atoms from LAMMPS are sorted by their id

Indexing with the ids applies the inverse of the permutation that sorts them.
---
 dynaphopy/interface/lammps_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..762e9d9 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -94,7 +94,7 @@ def generate_lammps_trajectory(structure,
 
     na = lmp.get_natoms()
     id = lmp.extract_atom("id", 0)
-    id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+    id = np.argsort([id[i] for i in range(na)])
 
     xp = lmp.extract_atom("x", 3)
     reference = np.array([[xp[i][0], xp[i][1], xp[i][2]] for i in range(na)], dtype=float)[id, :]
@@ -123,7 +123,7 @@ def generate_lammps_trajectory(structure,
         energy.append(lmp.extract_variable('energy', 'all', 0))
 
         id = lmp.extract_atom("id", 0)
-        id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+        id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
         velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
-- 
2.43.0


From 4a0a05f094b73e509f45c3a69fedb7040fde6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 31/57] fix: rfc_calc reads the quasiparticle data file as it
 is written

The file contains a list of wave vectors rounded to 8 decimals.
---
 scripts/rfc_calc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..6590b74 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -58,10 +58,10 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     with open(freq_filename, 'r') as stream:
         data_dict = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
+            for q_point in data_dict:
                 # print q_point
                 # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+                if np.allclose(q_point['reduced_wave_vector'], wv, atol=1e-6):
                     renormalized_frequencies.append(q_point['frequencies'])
                     # com_points.append(q_point['reduced_wave_vector'])
 
-- 
2.43.0


From 72253b33c908bb8e098df3445e62eaade662cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 32/57] fix: rfc_calc uses the requested supercell and band
 ranges

---
 scripts/rfc_calc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 6590b74..9367fea 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -49,6 +49,8 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
         else:
             print('please define supercell phonon in inputfile')
             exit()
+    else:
+        fc_supercell = np.diag(args.dim)
 
     com_points = pho_interface.get_commensurate_points(structure, fc_supercell)
 
@@ -82,7 +84,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
 
     if '_band_ranges' in input_parameters:
-        band_ranges = input_parameters['_band_ranges']
+        band_ranges = input_parameters['_band_ranges']['ranges']
     else:
         band_ranges = structure.get_path_using_seek_path()['ranges']
 
-- 
2.43.0


From feb311dc00a51926b8b45b0fa300abe6bcc80b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 33/57] fix: qha_extract sorts the force constants like their
 volumes

---
 scripts/qha_extract | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/qha_extract b/scripts/qha_extract
index 7178267..c7a4d37 100755
--- a/scripts/qha_extract
+++ b/scripts/qha_extract
@@ -128,7 +128,7 @@ for filename in fc_filenames:
     force_constants = phonopy_link.get_force_constants_from_file(filename, fc_supercell=fc_supercell)
     force_constants_mat.append(force_constants.get_array())
 
-force_constants_mat = np.array(force_constants_mat).T
+force_constants_mat = np.array(force_constants_mat)[sort_index].T
 f_temperature = interp1d(volumes, force_constants_mat, kind='quadratic')
 
 # Get force constants at the requested temperature
-- 
2.43.0


From 5efb32b737819c588f07c4e1d30c0730c9932edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 34/57] fix: fitdata does not drop the first data line

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..7505ebf 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -68,6 +68,7 @@ else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
 
 
+input_file.seek(0)
 initial_data = []
 for line in input_file:
     initial_data.append(line.split())
-- 
2.43.0


From 41bc7569f6042b16dd2eb192d10d3204754aed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 35/57] fix: phases of the correlation method are imaginary
 exponentials

---
 c/correlation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..133e3b1 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -155,19 +155,19 @@ double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOf
     _Dcomplex Correl_i, Correl_j;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
             Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency * ((i+Increment)*TimeStep))));
+                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency * (i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
 
                     //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
                     //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
                     // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
                     break;
-- 
2.43.0


From 514777e4251337885a90acadc727dc49d225aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 36/57] fix: correlation kernel checks its arguments and
 releases its arrays

---
 c/correlation.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 133e3b1..cdc66ae 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -120,31 +120,56 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1) {
+        PyErr_SetString(PyExc_ValueError, "frequency and velocity should be one dimensional arrays");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int     NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
     int     NumberOfFrequencies = (int)PyArray_DIM((PyArrayObject *)frequency_array, 0);
 
 
+    // Check options before using them
+    if (IntMethod < 0 || IntMethod > 1) {
+        PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+    if (Increment < 1 || Increment > NumberOfData) {
+        PyErr_SetString(PyExc_ValueError, "step should be between 1 and the number of data");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     //Create new numpy array for storing result
     PyArrayObject *PowerSpectrum_object;
     npy_intp dims[1]={NumberOfFrequencies};
     //PowerSpectrum_object = (PyArrayObject *) PyArray_FromDims(1, dims,NPY_DOUBLE);
     PowerSpectrum_object = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-
-    double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
-
-    // Maximum Entropy Method Algorithm
-    if (IntMethod < 0 || IntMethod > 1) {
-        puts ("\nIntegration method selected does not exist\n");
+    if (PowerSpectrum_object == NULL) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
         return NULL;
     }
 
+    double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
+
 # pragma omp parallel for default(shared) private(AngularFrequency)
     for (int i=0;i<NumberOfFrequencies;i++) {
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
-- 
2.43.0


From 550069c6f66985345062a053a9486eadaac1fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 37/57] fix: maximum entropy kernel reads all its data and
 nothing beyond them

---
 c/mem.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..e560f85 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -120,12 +120,26 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
         return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1) {
+        PyErr_SetString(PyExc_ValueError, "frequency and velocity should be one dimensional arrays");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int    NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
     int     NumberOfFrequencies = (int)PyArray_DIM((PyArrayObject *)frequency_array, 0);
 
 
+    if (NumberOfData < 1 || NumberOfCoefficients < 0) {
+        PyErr_SetString(PyExc_ValueError, "no data or negative number of coefficients");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     //Create new numpy array for storing result
     PyArrayObject *PowerSpectrum_object;
     npy_intp dims[]={NumberOfFrequencies};
@@ -202,20 +216,17 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  p=0.0;
 
     double  MeanSquareDiscrepancy;
-    double  *wk1 = malloc(NumberOfData*sizeof(double));
-    double  *wk2 = malloc(NumberOfData*sizeof(double));
-    double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
+    double  *wk1 = malloc((NumberOfData+1)*sizeof(double));
+    double  *wk2 = malloc((NumberOfData+1)*sizeof(double));
+    double  *wkm = malloc((NumberOfCoefficients+1)*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
-
-    for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+    for (j=1; j <= NumberOfData-1; j++) {
+        wk1[j]=Data[j-1];
+        wk2[j]=Data[j];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From 54d4aa190311a6d1d3c03f9be44de0db2dc01bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 38/57] fix: maximum entropy kernel releases all its buffers
 and checks them

---
 c/mem.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index e560f85..b76ceb0 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -31,7 +31,7 @@ _Dcomplex _Cmulcc(_Dcomplex num1, _Dcomplex num2){
 
 
 static double FrequencyEvaluation(double Delta, double  Coefficients[], int m, double xms);
-static double GetCoefficients(double  *data, int n, int m, double  d[]);
+static double GetCoefficients(double  *data, int n, int m, double  d[], double  *wk1, double  *wk2, double  *wkm);
 static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *keywords);
 
 
@@ -144,7 +144,11 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
     PyArrayObject *PowerSpectrum_object;
     npy_intp dims[]={NumberOfFrequencies};
     PowerSpectrum_object = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_DOUBLE);
-
+    if (PowerSpectrum_object == NULL) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
 
     double *PowerSpectrum  = (double*)PyArray_DATA(PowerSpectrum_object);
 
@@ -157,14 +161,34 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
     double *Velocity_r = (double *)malloc(NumberOfData * sizeof(double));
     double *Velocity_i = (double *)malloc(NumberOfData * sizeof(double));
 
+    // Work space of the linear prediction
+    double *wk1 = (double *)malloc((NumberOfData+1)*sizeof(double));
+    double *wk2 = (double *)malloc((NumberOfData+1)*sizeof(double));
+    double *wkm = (double *)malloc((NumberOfCoefficients+1)*sizeof(double));
+
+    if (Coefficients_r == NULL || Coefficients_i == NULL || Velocity_r == NULL || Velocity_i == NULL ||
+        wk1 == NULL || wk2 == NULL || wkm == NULL) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        Py_DECREF(PowerSpectrum_object);
+        free(Velocity_r);
+        free(Velocity_i);
+        free(Coefficients_r);
+        free(Coefficients_i);
+        free(wk1);
+        free(wk2);
+        free(wkm);
+        return PyErr_NoMemory();
+    }
+
     for (int i=0; i < NumberOfData; i++)  {
         Velocity_r[i] = (double)creal(Velocity[i]);
         Velocity_i[i] = (double)cimag(Velocity[i]);
     }
 
     // Maximum Entropy Method Algorithm
-    double  MeanSquareDiscrepancy_r = GetCoefficients(Velocity_r, NumberOfData, NumberOfCoefficients, Coefficients_r);
-    double  MeanSquareDiscrepancy_i = GetCoefficients(Velocity_i, NumberOfData, NumberOfCoefficients, Coefficients_i);
+    double  MeanSquareDiscrepancy_r = GetCoefficients(Velocity_r, NumberOfData, NumberOfCoefficients, Coefficients_r, wk1, wk2, wkm);
+    double  MeanSquareDiscrepancy_i = GetCoefficients(Velocity_i, NumberOfData, NumberOfCoefficients, Coefficients_i, wk1, wk2, wkm);
 
     # pragma omp parallel for default(shared) private(AngularFrequency)
     for (int i=0; i < NumberOfFrequencies; i++) {
@@ -187,8 +211,12 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
+    free(wk1);
+    free(wk2);
+    free(wkm);
 
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
@@ -210,16 +238,13 @@ static double FrequencyEvaluation(double Delta, double  Coefficients[], int Numb
 }
 
 // Get LP coefficients
-static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoefficients, double  Coefficients[]) {
+static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoefficients, double  Coefficients[],
+                               double  *wk1, double  *wk2, double  *wkm) {
 
     int k, j, i;
     double  p=0.0;
 
     double  MeanSquareDiscrepancy;
-    double  *wk1 = malloc((NumberOfData+1)*sizeof(double));
-    double  *wk2 = malloc((NumberOfData+1)*sizeof(double));
-    double  *wkm = malloc((NumberOfCoefficients+1)*sizeof(double));
-
 
     for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
@@ -254,10 +279,6 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             wk2[j]  = wk2[j+1] - wkm[k] * wk1[j+1];
         }
     }
-    // Free memory
-    free(wk1);
-    free(wk2);
-    free(wkm);
 
     return MeanSquareDiscrepancy;
 };
-- 
2.43.0


From 8b8f7583dbcb638210b795433a1131daf8a3c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 39/57] fix: displacements kernel checks the arrays it receives
 and creates

---
 c/displacements.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..d6d8ecf 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -106,7 +106,7 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     PyObject *Positions_array = PyArray_FROM_OTF(Positions_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     PyObject *Cell_array = PyArray_FROM_OTF(Cell_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
 
-    if (Cell_array == NULL || Trajectory_array == NULL) {
+    if (Cell_array == NULL || Trajectory_array == NULL || Positions_array == NULL) {
          Py_XDECREF(Cell_array);
          Py_XDECREF(Trajectory_array);
          Py_XDECREF(Positions_array);
@@ -114,6 +114,20 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     }
 
 
+    // Check the shapes of the arrays
+    if (PyArray_NDIM((PyArrayObject *)Cell_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Trajectory_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Positions_array) != 1 ||
+        PyArray_DIM((PyArrayObject *)Cell_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Trajectory_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Positions_array, 0) != PyArray_DIM((PyArrayObject *)Cell_array, 0)) {
+        PyErr_SetString(PyExc_ValueError, "cell, trajectory and positions have inconsistent shapes");
+        Py_DECREF(Trajectory_array);
+        Py_DECREF(Positions_array);
+        Py_DECREF(Cell_array);
+        return NULL;
+    }
+
 //  double _Complex *Cell           = (double _Complex*)PyArray_DATA(Cell_array);
     _Dcomplex *Trajectory     = (_Dcomplex*)PyArray_DATA((PyArrayObject *)Trajectory_array);
     double *Positions               = (double*)PyArray_DATA((PyArrayObject *)Positions_array);
@@ -127,6 +141,12 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 
     npy_intp dims[]={NumberOfData, NumberOfDimensions};
     Displacement_object=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_CDOUBLE);
+    if (Displacement_object == NULL) {
+        Py_DECREF(Trajectory_array);
+        Py_DECREF(Positions_array);
+        Py_DECREF(Cell_array);
+        return NULL;
+    }
     Displacement=pymatrix_to_c_array_complex( Displacement_object);
 
 
-- 
2.43.0


From 234902c8e68863970d06e9b82d41d735eff42929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 40/57] fix: displacements kernel releases its matrices

---
 c/displacements.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/displacements.c b/c/displacements.c
index d6d8ecf..72b9461 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -204,7 +204,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     //Free memory
     for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
     for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
- 	free(Cell_c);
+    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free(Displacement);
 
     // Free python memory
     Py_DECREF(Trajectory_array);
@@ -280,6 +281,9 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
+    for (int i = 0; i < n; i++) free(cof[i]);
+    free(cof);
+
 	return b;
 
 };
-- 
2.43.0


From 34dbce39c126b0672095699baa4875af59d40e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 41/57] fix: fatal errors end with a non-zero exit status

---
 dynaphopy/__init__.py                            | 10 +++++-----
 dynaphopy/atoms.py                               |  4 ++--
 dynaphopy/dynamics.py                            |  4 ++--
 dynaphopy/interface/iofile/__init__.py           | 10 +++++-----
 dynaphopy/interface/iofile/trajectory_parsers.py | 12 ++++++------
 dynaphopy/interface/lammps_link.py               |  2 +-
 dynaphopy/interface/phonopy_link.py              |  4 ++--
 dynaphopy/power_spectrum/__init__.py             |  2 +-
 dynaphopy/projection.py                          |  2 +-
 scripts/concath5                                 |  2 +-
 scripts/dynaphopy                                |  6 +++---
 scripts/fitdata                                  |  2 +-
 scripts/rfc_calc                                 |  2 +-
 13 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 425ea36..f433ef8 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -147,7 +147,7 @@ class Quasiparticle:
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-            exit()
+            exit(1)
 
     def _set_frequency_range(self, frequency_range):
         if not np.array_equiv(np.array(frequency_range), np.array(self.parameters.frequency_range)):
@@ -720,7 +720,7 @@ class Quasiparticle:
             print("Power spectrum algorithm number not found!\nPlease select:")
             for i in power_spectrum_functions.keys():
                 print('{0} : {1}'.format(i, power_spectrum_functions[i][1]))
-            exit()
+            exit(1)
 
     def select_fitting_function(self, function):
         from dynaphopy.analysis.fitting.fitting_functions import fitting_functions
@@ -732,7 +732,7 @@ class Quasiparticle:
             print("Fitting function number not found!\nPlease select:")
             for i in fitting_functions.keys():
                 print('{0} : {1}'.format(i, fitting_functions[i]))
-            exit()
+            exit(1)
 
     def get_power_spectrum_phonon(self):
         if self._power_spectrum_phonon is None:
@@ -813,12 +813,12 @@ class Quasiparticle:
                 atom_indices = np.argwhere(atom_types == projected_atom_type).flatten()
                 if len(atom_indices) == 0:
                     print('Atom type {0} does not exist'.format(projected_atom_type))
-                    exit()
+                    exit(1)
 
                 # Only works if project on atom is requested!
                 if projection_on_coordinate >= number_of_dimensions:
                     print('Projected coordinate should be smaller than {}'.format(number_of_dimensions))
-                    exit()
+                    exit(1)
                 if projection_on_coordinate > -1:
                     print('Power spectrum projected onto coordinate {}'.format(projection_on_coordinate))
                     velocity_mass_average = velocity_mass_average[:, atom_indices, projection_on_coordinate, None]
diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 93bb1de..aba8f60 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -152,7 +152,7 @@ class Structure:
         if positions is None:
             if self._scaled_positions is None:
                 print('No positions provided')
-                exit()
+                exit(1)
             else:
                 positions = np.dot(self._scaled_positions, self.get_cell())
 
@@ -203,7 +203,7 @@ class Structure:
 
             if force_atoms_file != force_atoms_input:
                 print("Error: FORCE_SETS file does not match with SUPERCELL MATRIX")
-                exit()
+                exit(1)
 
         return self._force_sets
 
diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 5b7d457..cdefbc9 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -221,7 +221,7 @@ class Dynamics:
                 print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
-                exit()
+                exit(1)
 
             print('MD cell size relation: {0}'.format(self._supercell_matrix))
 
@@ -330,7 +330,7 @@ class Dynamics:
                 self._trajectory = np.dot(self._scaled_trajectory, self.get_supercell())
             else:
                 print('No trajectory loaded')
-                exit()
+                exit(1)
 
         return self._trajectory
 
diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index b488922..db576b9 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -149,7 +149,7 @@ def get_trajectory_parser(file_name, bytes_to_check=1000000):
     # Check file exists
     if not os.path.isfile(file_name):
         print (file_name + ' file does not exist')
-        exit()
+        exit(1)
 
     file_size = os.stat(file_name).st_size
 
@@ -170,7 +170,7 @@ def read_from_file_structure_outcar(file_name):
     # Check file exists
     if not os.path.isfile(file_name):
         print('Structure file does not exist!')
-        exit()
+        exit(1)
 
     # Read from VASP OUTCAR file
     print('Reading VASP structure')
@@ -269,7 +269,7 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     # Check file exists
     if not os.path.isfile(file_name):
         print('Structure file does not exist!')
-        exit()
+        exit(1)
 
     # Read from VASP POSCAR file
     print("Reading VASP POSCAR structure")
@@ -547,7 +547,7 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
     # Check file exists
     if not os.path.isfile(file_name):
         print (file_name + ' file does not exist')
-        exit()
+        exit(1)
 
     with open(file_name, "r") as f:
         input_file = f.readlines()
@@ -679,7 +679,7 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
     # Check file exists
     if not os.path.isfile(file_name):
         print(file_name + ' file does not exist!')
-        exit()
+        exit(1)
 
     hdf5_file = h5py.File(file_name, "r")
     if "trajectory" in hdf5_file and read_trajectory is True:
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index eb16db2..c058b2d 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -20,7 +20,7 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
     # Check file exists
     if not os.path.isfile(file_name):
         print('Trajectory file does not exist!')
-        exit()
+        exit(1)
 
     # Check time step
     if time_step is not None:
@@ -162,7 +162,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
     #Check file exists
     if not os.path.isfile(file_name):
         print('Trajectory file does not exist!')
-        exit()
+        exit(1)
 
     # Check time step
     if time_step is None:
@@ -280,7 +280,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                         data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                        exit()
+                        exit(1)
 
             position_number = file_map.find(b'ITEM: ATOMS')
 
@@ -354,7 +354,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                             memmap=memmap)
 
     print('LAMMPS parsing error. Data not recognized: {}'.format(lammps_labels))
-    exit()
+    exit(1)
 
 
 def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
@@ -385,7 +385,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
     #Check file exists
     if not os.path.isfile(file_name):
         print('Trajectory file does not exist!')
-        exit()
+        exit(1)
 
     #Check time step
     if time_step is None:
@@ -423,7 +423,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                 data = np.memmap(dyn.memmap_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
             else:
                 print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                exit()
+                exit(1)
 
         while True:
 
diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 762e9d9..3678b76 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -39,7 +39,7 @@ def generate_lammps_trajectory(structure,
     # Check if correct number of atoms
     if lmp.extract_global("natoms",0) < 2:
         print ('Number of atoms in MD should be higher than 1!')
-        exit()
+        exit(1)
 
     # Check if initial velocities all zero
     if not np.array(lmp.gather_atoms("v", 1, 3)).any():
diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index c530df2..75a2c84 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -158,7 +158,7 @@ def get_phonon(structure, NAC=False, setup_forces=True, custom_supercell=None, s
                                                          supercell=structure.get_force_sets().get_supercell()))
         else:
             print('No force sets/constants available!')
-            exit()
+            exit(1)
 
     if NAC:
         print("Warning: Using Non Analytical Corrections")
@@ -225,7 +225,7 @@ def obtain_phonopy_dos(structure, mesh=(40, 40, 40), force_constants=None,
 
         if projected_on_atom >= len(phonon.get_projected_dos_dict()['projected_dos']):
             print('No atom type {0}'.format(projected_on_atom))
-            exit()
+            exit(1)
 
         # total_dos = np.array([phonon.get_partial_DOS()[0], phonon.get_partial_DOS()[1][projected_on_atom]])
         total_dos = np.array([phonon.get_projected_dos_dict()['frequency_points'],
diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 28b69e9..5b97043 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -84,7 +84,7 @@ def get_mem_power_spectra(vq, trajectory, parameters):
     # Check number of coefficients
     if vq.shape[0] <= parameters.number_of_coefficients_mem+1:
         print('Number of coefficients should be smaller than the number of time steps')
-        exit()
+        exit(1)
 
     psd_vector = []
     if not parameters.silent:
diff --git a/dynaphopy/projection.py b/dynaphopy/projection.py
index d4f24cd..871fc6a 100644
--- a/dynaphopy/projection.py
+++ b/dynaphopy/projection.py
@@ -18,7 +18,7 @@ def project_onto_wave_vector(trajectory, q_vector, project_on_atom=-1):
 
     if q_vector.shape[0] != coordinates.shape[1]:
         print("Warning!! Q-vector and coordinates dimension do not match")
-        exit()
+        exit(1)
 
     #Projection into wave vector
     for i in range(number_of_atoms):
diff --git a/scripts/concath5 b/scripts/concath5
index 69b3b4f..a7802bb 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -80,7 +80,7 @@ def save_data_hdf5(file_name, time, supercell, trajectory=None, velocity=None, v
 
 if len(sys.argv) == 1:
     print('Usage: concath5 file.h5 file2.h5 ...  concatenated.h5')
-    exit()
+    exit(1)
 
 
 first = args.f[0]
diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index 4720273..5dd7a99 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -219,7 +219,7 @@ if 'force_constants_file_name' in input_parameters:
 
 if 'force_sets_file_name' in input_parameters and 'force_constants_file_name' in input_parameters:
     print('Both FORCE SETS and FORCE CONSTANTS are found in input file, only one is allowed')
-    exit()
+    exit(1)
 
 if args.c_poscar:
     f = open(args.c_poscar[0], 'w')
@@ -247,7 +247,7 @@ if args.md_file:
     trajectory_reading_function = reading.get_trajectory_parser(args.md_file)
     if trajectory_reading_function is None:
         print('Trajectory file format not recognized')
-        exit()
+        exit(1)
     if args.auto_order:
         print ('Use auto order')
         template = reading.check_atoms_order(args.md_file, trajectory_reading_function, structure)
@@ -417,5 +417,5 @@ if args.average:
 if args.interactive:
     if isinstance(trajectory, list) or isinstance(trajectory, tuple):
         print('Interactive mode cannot be used loading wave vector projected velocity')
-        exit()
+        exit(1)
     interactive_ui.interactive_interface(calculation, trajectory, args, structure_file)
\ No newline at end of file
diff --git a/scripts/fitdata b/scripts/fitdata
index 7505ebf..cb5815f 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -59,7 +59,7 @@ try:
     input_file = open(args.file, "r")
 except IOError:
     print("File not found")
-    exit()
+    exit(1)
 
 if args.bi is None:
     data_num = len(input_file.readline().split())
diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 9367fea..5925895 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -48,7 +48,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
             fc_supercell = input_parameters['supercell_phonon']
         else:
             print('please define supercell phonon in inputfile')
-            exit()
+            exit(1)
     else:
         fc_supercell = np.diag(args.dim)
 
-- 
2.43.0


From 6ec48d61f21f90991d23ae7787ca090c651d34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 42/57] fix: POSCAR element counts follow the atom order for
 interleaved elements

---
 dynaphopy/generate_cell.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..34dc23d 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -7,13 +7,10 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
-
+    # Groups of consecutive atoms of the same element
+    first_index = [i for i in range(len(types)) if i == 0 or types[i] != types[i-1]]
+    elements = [types[i] for i in first_index]
+    elements_count = np.diff(first_index + [len(types)])
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
     vasp_POSCAR += '1.0\n'
-- 
2.43.0


From 6cd62cc0af22f7153988f2d826d44e4acd57eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 43/57] fix: python version of the relative trajectory works
 for non orthogonal cells

---
 dynaphopy/analysis/coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/coordinates.py b/dynaphopy/analysis/coordinates.py
index 680a246..8cc4812 100644
--- a/dynaphopy/analysis/coordinates.py
+++ b/dynaphopy/analysis/coordinates.py
@@ -67,7 +67,7 @@ def relativize_trajectory_py(dynamic):
             difference = normalized_trajectory[i, j, :] - position[j]
 
             # difference_matrix = np.array(np.dot(np.linalg.inv(cell),(IniSep)),dtype=int)
-            difference_matrix = np.around(np.dot(np.linalg.inv(cell), difference), decimals=0)
+            difference_matrix = np.around(np.dot(np.linalg.inv(cell).T, difference), decimals=0)
             normalized_trajectory[i, j, :] -= np.dot(difference_matrix, cell) + position[j]
 
         progress_bar(float(j+1)/number_of_atoms)
-- 
2.43.0


From 599a80f1ab3e1bb96ca82068a5a6ee7d3f7219e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 44/57] fix: standalone relative trajectory has a memory mapped
 file of its own

---
 dynaphopy/analysis/coordinates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/coordinates.py b/dynaphopy/analysis/coordinates.py
index 8cc4812..70ecb1c 100644
--- a/dynaphopy/analysis/coordinates.py
+++ b/dynaphopy/analysis/coordinates.py
@@ -1,6 +1,7 @@
 import numpy as np
 import sys
 from dynaphopy.displacements import atomic_displacements
+from dynaphopy.dynamics import memmap_file_name
 
 
 def progress_bar(progress):
@@ -37,7 +38,7 @@ def relativize_trajectory(dynamic, memmap=False):
     trajectory = dynamic.trajectory
 
     if memmap:
-        normalized_trajectory = np.memmap('r_trajectory.map', dtype='complex', mode='w+', shape=trajectory.shape)
+        normalized_trajectory = np.memmap(memmap_file_name('', 'r_trajectory'), dtype='complex', mode='w+', shape=trajectory.shape)
     else:
         normalized_trajectory = dynamic.trajectory.copy()
 
-- 
2.43.0


From cad90826afe90f38ad45343196d44f2d0ea237e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 45/57] fix: atom types compare the masses of the unit cell
 atoms

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index aba8f60..354b6df 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -298,7 +298,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From 83018f3e2883a6b705c86f79ca2496b25f9b9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 46/57] fix: commensurate points data are kept per auto_range
 argument

A result computed with one value of auto_range was returned to a later request
with the other value.
---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index f433ef8..f6ef6af 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -40,6 +40,7 @@ class Quasiparticle:
         self._renormalized_bands = None
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
+        self._commensurate_points_auto_range = None
         self._temperature = None
         self._temperature_md = None
         self._force_constants_qha = None
@@ -1119,7 +1120,7 @@ class Quasiparticle:
 
     def get_commensurate_points_data(self, auto_range=True):
 
-        if self._commensurate_points_data is None:
+        if self._commensurate_points_data is None or self._commensurate_points_auto_range != auto_range:
 
             if auto_range:
                 # Get range from harmonic DOS
@@ -1209,6 +1210,7 @@ class Quasiparticle:
                                               'frequency_shifts': frequency_shifts,
                                               'q_points': q_points_list,
                                               'fc_supercell': fc_supercell}
+            self._commensurate_points_auto_range = auto_range
 
             self.set_reduced_q_vector(initial_reduced_q_vector)
 
-- 
2.43.0


From be765db96de480cafb72b01238bd34e5e7790679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 47/57] fix: mode plot divides each eigenvector by the mass of
 its own atom

---
 dynaphopy/analysis/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index 73dcd61..bef3add 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -76,7 +76,7 @@ def plot_phonon_modes(structure, eigenvectors, q_vector,
         for i, position in enumerate(positions):
             eigenvector_atom = np.array(eigenvectors[i_phonon, atom_type[i], :])
             phase = 1.j * np.dot(position, q_vector)
-            vector = (eigenvector_atom / np.sqrt(masses[atom_type[i]]) * np.exp(phase) * vectors_scale).real
+            vector = (eigenvector_atom / np.sqrt(masses[i]) * np.exp(phase) * vectors_scale).real
  #           vector = np.dot(vector, np.linalg.inv(structure.get_primitive_matrix().T))
             a = Arrow3D([position[0], position[0]+vector[0]], [position[1], position[1]+vector[1]],
                         [position[2], position[2]+vector[2]], mutation_scale=20, lw=3, arrowstyle="-|>", color="r")
-- 
2.43.0


From a1614775e51736c4b93c2caf0e6d8c9eebd3b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 48/57] fix: last steps are selected from memory mapped
 trajectories too

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index c058b2d..5d981ad 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -333,9 +333,9 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
     else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
@@ -480,9 +480,9 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
     else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From 201ddfd89e67610049d42ad2c45239398ca97975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 49/57] fix: displacements kernel checks the memory it
 allocates

---
 c/displacements.c | 127 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 37 deletions(-)

diff --git a/c/displacements.c b/c/displacements.c
index 72b9461..960b0e7 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -23,6 +23,8 @@ _Dcomplex _Cbuild(double real, double imag){
 static double   **matrix_multiplication (double **a, double **b, int n, int l, int m);
 
 static int        TwotoOne              (int Row, int Column, int NumColumns);
+static double   **new_matrix            (int n, int m);
+static void       free_matrix           (double **a, int n);
 static double   **pymatrix_to_c_array_real   (PyArrayObject *array);
 
 static _Dcomplex  **pymatrix_to_c_array_complex   (PyArrayObject *array);
@@ -152,6 +154,9 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 
 //  Create a pointer array from cell matrix (to be improved)
     double  **Cell_c = pymatrix_to_c_array_real((PyArrayObject *) Cell_array);
+    double  **Cell_i = NULL;
+    double  **Difference = NULL;
+    if (Displacement == NULL || Cell_c == NULL) goto no_memory;
 
 /*
 	printf("\nCell Matrix");
@@ -164,7 +169,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 */
 
 //	Matrix inverse
-	double  **Cell_i = matrix_inverse(Cell_c, NumberOfDimensions);
+	Cell_i = matrix_inverse(Cell_c, NumberOfDimensions);
+    if (Cell_i == NULL) goto no_memory;
 
 /*
 	printf("\nMatrix Inverse");
@@ -175,8 +181,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 	printf("\n\n");
 */
 
-	double ** Difference = malloc(NumberOfDimensions * sizeof(double *));
-    for (int i = 0; i < NumberOfDimensions; i++) Difference[i] = (double *) malloc( sizeof(double ));
+	Difference = new_matrix(NumberOfDimensions, 1);
+    if (Difference == NULL) goto no_memory;
 
     for (int i = 0; i < NumberOfData; i++) {
 
@@ -185,26 +191,31 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
         }
 
         double ** DifferenceMatrix = matrix_multiplication(Cell_i, Difference, NumberOfDimensions, NumberOfDimensions, 1);
+        if (DifferenceMatrix == NULL) goto no_memory;
 
         for (int k = 0; k < NumberOfDimensions; k++) {
                 DifferenceMatrix[k][0] = round(DifferenceMatrix[k][0]);
         }
 
         double ** PeriodicDisplacement = matrix_multiplication(Cell_c, DifferenceMatrix, NumberOfDimensions, NumberOfDimensions, 1);
+        if (PeriodicDisplacement == NULL) {
+            free_matrix(DifferenceMatrix, NumberOfDimensions);
+            goto no_memory;
+        }
 
         for (int k = 0; k < NumberOfDimensions; k++) {
             Displacement[i][k] = _Cbuild(creal(Trajectory[TwotoOne(i, k, NumberOfDimensions)]) - PeriodicDisplacement[k][0] - Positions[k],0);
 		}
 
         //Free memory
-        for (int k=0 ; k<NumberOfDimensions; k++) free(DifferenceMatrix[k]); free(DifferenceMatrix);
-        for (int k=0 ; k<NumberOfDimensions; k++) free(PeriodicDisplacement[k]); free(PeriodicDisplacement);
+        free_matrix(DifferenceMatrix, NumberOfDimensions);
+        free_matrix(PeriodicDisplacement, NumberOfDimensions);
 
     }
     //Free memory
-    for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
-    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
-    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free_matrix(Difference, NumberOfDimensions);
+    free_matrix(Cell_i, NumberOfDimensions);
+    free_matrix(Cell_c, NumberOfDimensions);
     free(Displacement);
 
     // Free python memory
@@ -214,9 +225,45 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 
 //  Returning python array
     return(PyArray_Return(Displacement_object));
+
+no_memory:
+    free_matrix(Difference, NumberOfDimensions);
+    free_matrix(Cell_i, NumberOfDimensions);
+    free_matrix(Cell_c, NumberOfDimensions);
+    free(Displacement);
+    Py_DECREF(Trajectory_array);
+    Py_DECREF(Positions_array);
+    Py_DECREF(Cell_array);
+    Py_DECREF(Displacement_object);
+    return PyErr_NoMemory();
 };
 
 
+//  Matrix of n rows of m elements (NULL if there is not enough memory)
+static double  **new_matrix(int n, int m) {
+
+    double  **a = malloc((n > 0 ? n : 1)*sizeof(double *));
+    if (a == NULL) return NULL;
+
+    for (int i = 0; i < n; i++) {
+        a[i] = (double *) malloc((m > 0 ? m : 1)*sizeof(double ));
+        if (a[i] == NULL) {
+            free_matrix(a, i);
+            return NULL;
+        }
+    }
+    return a;
+}
+
+
+static void free_matrix(double  **a, int n) {
+
+    if (a == NULL) return;
+    for (int i = 0; i < n; i++) free(a[i]);
+    free(a);
+}
+
+
 
 static _Dcomplex **pymatrix_to_c_array_complex(PyArrayObject *array)  {
 
@@ -226,7 +273,8 @@ static _Dcomplex **pymatrix_to_c_array_complex(PyArrayObject *array)  {
       long n = PyArray_DIMS(array)[0];
       long m = PyArray_DIMS(array)[1];
 
-      _Dcomplex ** c = malloc(n*sizeof(_Dcomplex));
+      _Dcomplex ** c = malloc((n > 0 ? n : 1)*sizeof(_Dcomplex));
+      if (c == NULL) return NULL;
 
       //_Dcomplex *a = (_Dcomplex *) (*array).data;  /* pointer to array data as double _Complex */
 
@@ -248,16 +296,15 @@ static double  **pymatrix_to_c_array_real(PyArrayObject *array)  {
       long m = PyArray_DIMS(array)[1];
       //PyObject *transpose_array = PyArray_Transpose(array, dims);
 
-      double  ** c = malloc(n*sizeof(double));
+      double  ** c = new_matrix(n, m);
+      if (c == NULL) return NULL;
       // double  *a = (double  *) (*array).data;
       double *a = (double *) PyArray_DATA(array);
 
       for ( int i=0; i<n; i++)  {
-          double  *b = malloc(m*sizeof(double));
           for ( int j=0; j<m; j++)  {
-              b[j] = a[i+n*j];
+              c[i][j] = a[i+n*j];
           }
-          c[i]=b;
       }
 
       //for ( int i=0; i<n; i++)  {
@@ -270,10 +317,13 @@ static double  **pymatrix_to_c_array_real(PyArrayObject *array)  {
 
 static double  **matrix_inverse ( double ** a ,int n){
 
-	double ** b = malloc(n*sizeof(double *));
-    for (int i = 0; i < n; i++) b[i] = (double *) malloc(n*sizeof(double ));
-
+	double ** b = new_matrix(n, n);
     double  **cof = CoFactor(a,n);
+    if (b == NULL || cof == NULL) {
+        free_matrix(b, n);
+        free_matrix(cof, n);
+        return NULL;
+    }
 
 	for(int i=0;i<n;i++){
 		for(int j=0;j<n;j++) {
@@ -281,14 +331,20 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
-    for (int i = 0; i < n; i++) free(cof[i]);
-    free(cof);
+    free_matrix(cof, n);
+
+    // Some determinant could not be calculated
+    if (PyErr_Occurred()) {
+        free_matrix(b, n);
+        return NULL;
+    }
 
 	return b;
 
 };
 
 //  Recursive definition of determinate using expansion by minors.
+//  (sets a Python exception if there is not enough memory)
 static double  Determinant(double  **a,int n)
 {
    int i,j,j1,j2;
@@ -304,9 +360,11 @@ static double  Determinant(double  **a,int n)
    } else {
       det = 0;
       for (j1=0;j1<n;j1++) {
-         m = malloc((n-1)*sizeof(double *));
-         for (i=0;i<n-1;i++)
-            m[i] = malloc((n-1)*sizeof(double ));
+         m = new_matrix(n-1, n-1);
+         if (m == NULL) {
+            PyErr_NoMemory();
+            return 0;
+         }
          for (i=1;i<n;i++) {
             j2 = 0;
             for (j=0;j<n;j++) {
@@ -317,9 +375,7 @@ static double  Determinant(double  **a,int n)
             }
          }
          det += pow(-1.0,j1+2.0) * a[0][j1] * Determinant(m,n-1);
-         for (i=0;i<n-1;i++)
-            free(m[i]);
-         free(m);
+         free_matrix(m, n-1);
       }
    }
    return(det);
@@ -332,13 +388,13 @@ static double **CoFactor(double  **a,int n)
    double  det;
    double  **c;
 
-   c = malloc((n-1)*sizeof(double  *));
-   for (i=0;i<n-1;i++)
-     c[i] = malloc((n-1)*sizeof(double ));
-
-	double ** b = malloc(n*sizeof(double *));
-    for (int i = 0; i < n; i++) b[i] = (double *) malloc(n*sizeof(double ));
-
+   c = new_matrix(n-1, n-1);
+   double ** b = new_matrix(n, n);
+   if (b == NULL || c == NULL) {
+      free_matrix(c, n-1);
+      free_matrix(b, n);
+      return NULL;
+   }
 
    for (j=0;j<n;j++) {
       for (i=0;i<n;i++) {
@@ -365,9 +421,7 @@ static double **CoFactor(double  **a,int n)
       }
    }
 
-   for (i=0;i<n-1;i++)
-      free(c[i]);
-   free(c);
+   free_matrix(c, n-1);
    return b;
 
 };
@@ -375,9 +429,8 @@ static double **CoFactor(double  **a,int n)
 //  Calculate the matrix multiplication
 static double  **matrix_multiplication ( double   **a, double   **b, int n, int l, int m ){
 
-	double **c = malloc(n*sizeof(double *));
-    for (int i = 0; i < n; i++)
-		c[i] = (double *) malloc(m*sizeof(double ));
+	double **c = new_matrix(n, m);
+    if (c == NULL) return NULL;
 
 	for (int i = 0 ; i< n ;i++) {
 		for (int j  = 0; j<m ; j++) {
-- 
2.43.0


From 46258a569304af4f1a0924d8fc56cb7cebd70fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 50/57] fix: conversion of spectra to eV*ps uses the mass of
 the atomic mass unit

---
 dynaphopy/power_spectrum/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 5b97043..f5277b5 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -6,7 +6,7 @@ import matplotlib.pyplot as plt
 from dynaphopy.power_spectrum import mem
 from dynaphopy.power_spectrum import correlation
 
-unit_conversion = 0.00010585723  # u * A^2 * THz -> eV*ps
+unit_conversion = 0.000103642697  # u * A^2 * THz -> eV*ps
 
 
 def _progress_bar(progress, label):
-- 
2.43.0


From 02fdb960ccc3cddb80dfab190a84b4f2b2cbd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 51/57] fix: occupation number of a mode uses its frequency in
 THz with the Planck constant

---
 dynaphopy/analysis/fitting/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/analysis/fitting/__init__.py b/dynaphopy/analysis/fitting/__init__.py
index a63d981..1db2adf 100644
--- a/dynaphopy/analysis/fitting/__init__.py
+++ b/dynaphopy/analysis/fitting/__init__.py
@@ -95,12 +95,12 @@ def phonon_fitting_analysis(original, ps_frequencies,
             # Q2_lor = dt_Q2_lor / pow(position * 2 * np.pi, 2)
             # Q2_tot = dt_Q2_tot / pow(position * 2 * np.pi,2)
 
-            occupancy_lor = dt_Q2_lor / (position * h_planck_bar) - 0.5
-            occupancy_tot = dt_Q2_tot / (position * h_planck_bar) - 0.5
+            occupancy_lor = dt_Q2_lor / (position * h_planck) - 0.5
+            occupancy_tot = dt_Q2_tot / (position * h_planck) - 0.5
 
             # fit_temperature = dt_Q2_lor / kb_boltzmann  # High temperature limit
-            fit_temperature = h_planck_bar * position / (kb_boltzmann * np.log((1.0 / occupancy_lor + 1.0)))
-            fit_temperature_tot = h_planck_bar * position / (kb_boltzmann * np.log((1.0 / occupancy_tot + 1.0)))
+            fit_temperature = h_planck * position / (kb_boltzmann * np.log((1.0 / occupancy_lor + 1.0)))
+            fit_temperature_tot = h_planck * position / (kb_boltzmann * np.log((1.0 / occupancy_tot + 1.0)))
 
         except RuntimeWarning:
             # This warning happens in acoustic branches at gamma point because the peak
-- 
2.43.0


From f04926241f027b5f1d91ff4cfa0ec437e29223fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 52/57] fix: free energy includes the first point of the
 frequency range

---
 dynaphopy/analysis/thermal_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index c6dad4f..79bf48f 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -51,7 +51,7 @@ def get_free_energy(temperature, frequency, dos):
     free_energy = np.nan_to_num([dos[i] * k_b * temperature * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature)))
                                  for i, freq in enumerate(frequency)])
 
-    free_energy[0] = 0
+    free_energy[np.asarray(frequency) == 0] = 0
     free_energy = simps(free_energy, x=frequency) * N_a / 1000  # KJ/K/mol
     return free_energy
 
-- 
2.43.0


From 5f8460d844ced9db7d1bd3b07e7eb40a9040a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:36 +0000
Subject: [PATCH 53/57] fix: normalized thermal properties compare densities of
 states normalized alike

---
 dynaphopy/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index f6ef6af..b9770d9 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1311,6 +1311,13 @@ class Quasiparticle:
                                                              projected_on_atom=self.parameters.project_on_atom,
                                                              NAC=self.parameters.use_NAC)
 
+            if normalize_dos:
+                phonopy_dos_h[1] /= simps(phonopy_dos_h[1], x=phonopy_dos_h[0]) / (
+                        self.dynamic.structure.get_number_of_atoms() *
+                        self.dynamic.structure.get_number_of_dimensions())
+                if self.parameters.project_on_atom > -1:
+                    phonopy_dos_h[1] /= self.dynamic.structure.get_number_of_primitive_atoms()
+
             free_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
                                                               phonopy_dos[1])
             total_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
-- 
2.43.0


From 43adebee35d7fec4eb24e80a39e5d88b5b5ec8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 54/57] fix: mass weighted velocities are labelled with their
 unit

---
 dynaphopy/analysis/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/analysis/energy.py b/dynaphopy/analysis/energy.py
index fece85b..46b00b1 100644
--- a/dynaphopy/analysis/energy.py
+++ b/dynaphopy/analysis/energy.py
@@ -14,12 +14,12 @@ def boltzmann_distribution(trajectory, parameters):
 
     average = np.average(velocity)
     deviation = np.std(velocity)
-    print('Average: {0:3.7e} Angstrom/ps'.format(average))
-    print('Deviation: {0:3.7e} Angstrom/ps'.format(deviation))
+    print('Average: {0:3.7e} u^(1/2)*Angstrom/ps'.format(average))
+    print('Deviation: {0:3.7e} u^(1/2)*Angstrom/ps'.format(deviation))
     maxwell = stats.maxwell
 
     params = maxwell.fit(velocity, floc=0, scale=np.average([average, deviation]))
-    print('Distribution parameter: {0:3.7e} Angstrom/ps'.format(params[1]))
+    print('Distribution parameter: {0:3.7e} u^(1/2)*Angstrom/ps'.format(params[1]))
 
     temperature = pow(params[1], 2)/ kb_boltzmann
     print('Temperature fit: {0:7.6f} K'.format(temperature))
@@ -28,7 +28,7 @@ def boltzmann_distribution(trajectory, parameters):
         x = np.linspace(0, float(average + 3 * deviation), 100)
         fig = plt.figure()
         ax = fig.add_subplot(111)
-        plt.xlabel('Velocity [Angstrom/ps]')
+        plt.xlabel('Velocity [u^(1/2)*Angstrom/ps]')
         ax.plot(x, maxwell.pdf(x, *params), lw=3)
         ax.text(0.95, 0.90, 'Temperature: {0:7.1f} K'.format(temperature),
                 verticalalignment='bottom',
-- 
2.43.0


From 2d38937a0b8533569801680e6df48f0e4eb1321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 55/57] fix: labels of atoms in the plot of the modes are those
 of their types

The elements were taken at the number of the type instead of at the first
atom of this type.
---
 dynaphopy/analysis/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index bef3add..f341858 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -83,7 +83,7 @@ def plot_phonon_modes(structure, eigenvectors, q_vector,
             ax.add_artist(a)
 
         # Legend
-        atom_type_index_unique = np.unique(atom_type, return_index=True)[0]
+        atom_type_index_unique = np.unique(atom_type, return_index=True)[1]
 
 
 
-- 
2.43.0


From f8d00bcc03c3c4cc110abacbfa03cb0a1cc35f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 56/57] fix: types of atoms by element are numbered from all
 the elements

The atomic numbers were compared with those of the first atoms only, so
atoms of other elements kept their atomic number as type.
---
 dynaphopy/atoms.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 354b6df..e4b5003 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -289,11 +289,10 @@ class Structure:
 
     def set_atom_type_index_by_element(self):
         if self._atom_type_index is None:
-            self._atom_type_index = self._atomic_numbers.copy()
-            for i in range(self.get_number_of_cell_atoms()):
-                for index in range(self.get_number_of_atom_types()):
-                    if self._atomic_numbers[index] == self._atomic_numbers[i]:
-                        self._atom_type_index[i] = index
+            # Elements numbered in the order they appear
+            elements = [number for i, number in enumerate(self._atomic_numbers)
+                        if number not in self._atomic_numbers[:i]]
+            self._atom_type_index = np.array([elements.index(number) for number in self._atomic_numbers])
 
     def get_atom_type_index(self, supercell=None):
 
-- 
2.43.0


From 9ca29c17ab17ce89b4ea301715f1953392a5fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 57/57] fix: trajectories of the lammps interface are in the
 orientation of the structure

Positions, velocities and the simulation cell were kept in the orientation
lammps uses (first lattice vector along x), as the dump reader does not.
---
 dynaphopy/interface/lammps_link.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 3678b76..3aaba41 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -88,6 +88,13 @@ def generate_lammps_trajectory(structure,
                            [0,  yhi-ylo,  yz],
                            [0,   0,  zhi-zlo]]).T
 
+    # rotate lammps orientation to match unit cell orientation
+    def unit_matrix(matrix):
+        return np.array([np.array(row)/np.linalg.norm(row) for row in matrix])
+
+    transformation_mat = np.dot(np.linalg.inv(unit_matrix(structure.get_cell())), unit_matrix(simulation_cell)).T
+    simulation_cell = np.dot(simulation_cell, transformation_mat)
+
     positions = []
     velocity = []
     energy = []
@@ -102,6 +109,7 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
+    reference = np.dot(reference, transformation_mat)
     template = get_correct_arrangement(reference, structure)
     indexing = np.argsort(template)
 
@@ -126,12 +134,14 @@ def generate_lammps_trajectory(structure,
         id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
-        velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
+        step_velocity = np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :]
+        velocity.append(np.dot(step_velocity, transformation_mat))
         # velocity.append(np.array([vc[i] for i in range(na * 3)]).reshape((na, 3))[indexing, :])
 
         if not velocity_only:
             xc = lmp.extract_atom("x", 3)
-            positions.append(np.array([[xc[i][0], xc[i][1], xc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
+            step_positions = np.array([[xc[i][0], xc[i][1], xc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :]
+            positions.append(np.dot(step_positions, transformation_mat))
             # positions.append(np.array([xc[i] for i in range(na * 3)]).reshape((na, 3))[indexing, :])
 
     positions = np.array(positions, dtype=complex)
-- 
2.43.0

