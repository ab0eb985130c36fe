From 528614b1c136be47a4c837e116695c46461e352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 01/23] fix: fill every state of the O matrix when the sampling
 model has its own number of states

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..419c845 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,7 +1107,7 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    for a in range(model.omatrix.shape[2]):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
     temp_states = model.omatrix.shape[2]
-- 
2.43.0


From fc91f95511747d9d3aa9154af815fa08e62cf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 02/23] fix: build the M matrix of the plus/minus numerators at
 their own temperature

---
 pibronic/pimc/pimc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 419c845..90b0008 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,8 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
+
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1180,7 +1182,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 0d0bd17a0b06773d1fd360a91dcf9af96be61b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 03/23] fix: compute beta/tau plus and minus after beta has
 been set

---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 90b0008..b9644fb 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -729,14 +729,14 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
+        # do the usual work
+        super().preprocess()
+
         # compute extra constants
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
         self.tau_minus = self.beta_minus / self.beads
-
-        # do the usual work
-        super().preprocess()
         return
 
 
-- 
2.43.0


From f42b2a23094234f895ab08e1eca18ec20f8246fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 04/23] fix: shift the training set co-ordinates only once when
 evaluating g(R) and rho(R)

---
 pibronic/pimc/pimc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b9644fb..8b2934f 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -607,9 +607,7 @@ class BoxData:
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
+        # the transformation to surface dependent co-ordinates q = R - d is done in build_o_matrix
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1293,8 +1291,8 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
 
         # we copy in the data values that we read in from load_R_samples
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
+        # the transformation to surface dependent co-ordinates q = R - d is done in build_o_matrix
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 85198233ca5d9d4736bd19d75dd742e7ac3837ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 05/23] fix: compare the number of samples by value when
 loading a result file

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 8b2934f..38f6814 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -842,7 +842,7 @@ class BoxResult:
             # BoxResult.verify_hashes_are_valid()
             if self.samples is 0:
                 self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 17d170b25aef2da7a5d5f9f44e95d27f4c1f527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 06/23] fix: load results in the given order and stop exactly
 at the desired number of samples

---
 pibronic/pimc/pimc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 38f6814..8534a8c 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -881,7 +881,7 @@ class BoxResult:
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -904,7 +904,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1007,7 +1007,7 @@ class BoxResultPM(BoxResult):
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -1030,7 +1030,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From 174a7b38fdcf42cbaa85a209469858ac2ad28103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:09 +0000
Subject: [PATCH 07/23] fix: load diagonal models whose energies are all zero

---
 pibronic/vibronic/vibronic_model_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..fc2a30e 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,8 +572,9 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
-    """returns a dictionary filled with the values stored in the .json file located at path"""
+def _load_from_JSON(path, shape_dict=model_shape_dict):
+    """returns a dictionary filled with the values stored in the .json file located at path
+    shape_dict is the function which provides the shapes of the arrays of this kind of model"""
 
     with open(path, mode='r', encoding='UTF8') as file:
         input_dictionary = json.loads(file.read())
@@ -588,7 +589,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_dict(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +634,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From aef711a87c1ebb1d4855f9cc3f08f6b44582005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 08/23] fix: compare the dimensions of both models in
 _same_model and _same_diagonal_model

---
 pibronic/vibronic/vibronic_model_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index fc2a30e..ccfd8e5 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -210,7 +210,7 @@ def _same_model(d1, d2):
     verify_model_parameters(d2)
 
     A1, N1 = _extract_dimensions_from_dictionary(d1)
-    A2, N2 = _extract_dimensions_from_dictionary(d1)
+    A2, N2 = _extract_dimensions_from_dictionary(d2)
 
     if A1 != A2 or N1 != N2:
         return False
@@ -245,7 +245,7 @@ def _same_diagonal_model(d1, d2):
     verify_diagonal_model_parameters(d2)
 
     A1, N1 = _extract_dimensions_from_dictionary(d1)
-    A2, N2 = _extract_dimensions_from_dictionary(d1)
+    A2, N2 = _extract_dimensions_from_dictionary(d2)
 
     if A1 != A2 or N1 != N2:
         return False
-- 
2.43.0


From 853cf44aa107d0a59f9b17f76ffa6dedea70d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:18 +0000
Subject: [PATCH 09/23] fix: numpy only accepts a single character delimiter
 when loading a sequence

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 5e27064afb0934d4d8bfdd8ad33a0ece6112c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 10/23] fix: halve the diagonal surfaces of the .op couplings,
 not the last column

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From e6bbdc313537f49dd58d5e838dd5d8633f9bd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 11/23] fix: encode the execution parameters with the keys they
 are decoded with

---
 pibronic/pimc/pimc.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 8534a8c..ed82980 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -445,6 +445,7 @@ class BoxData:
 
     id_data = 0
     id_rho = 0
+    path_root = ""
 
     # instance of the ModelVibronic class
     # holds all parameters associated with the model
@@ -477,6 +478,7 @@ class BoxData:
         data.id_data = FS.id_data
         data.id_rho = FS.id_rho
 
+        data.path_root = FS.path_root
         data.path_vib_model = FS.path_vib_model
         data.path_rho_model = FS.path_rho_model
 
@@ -499,7 +501,7 @@ class BoxData:
         """constructor wrapper"""
         with open(path, mode='r', encoding='UTF8') as target_file:
             file_data = target_file.read()
-        return cls.from_json_string(cls, file_data)
+        return cls.from_json_string(file_data)
 
     @classmethod
     def from_json_string(cls, json_str):
@@ -523,18 +525,19 @@ class BoxData:
         if params is None:
             log.flow("params was none")
             params = {
-                SEP.X: self.samples,
-                SEP.nBlk: self.blocks,
-                SEP.A: self.states,
-                SEP.P: self.beads,
-                SEP.N: self.modes,
-                SEP.T: self.temperature,
-                SEP.BlkS: self.block_size,
-                SEP.dB: self.delta_beta,
-                SEP.D: self.id_data,
-                SEP.R: self.id_rho,
-                SEP.beta: self.beta,
-                SEP.tau: self.tau,
+                SEP.X.value: self.samples,
+                SEP.nBlk.value: self.blocks,
+                SEP.A.value: self.states,
+                SEP.P.value: self.beads,
+                SEP.N.value: self.modes,
+                SEP.T.value: self.temperature,
+                SEP.BlkS.value: self.block_size,
+                SEP.dB.value: self.delta_beta,
+                SEP.D.value: self.id_data,
+                SEP.R.value: self.id_rho,
+                SEP.beta.value: self.beta,
+                SEP.tau.value: self.tau,
+                "path_root": self.path_root,
                 # "s": self.hash_vib,
                 # "x": self.hash_rho,
             }
@@ -581,7 +584,8 @@ class BoxData:
                 self.delta_beta = params[SEP.dB.value]
 
         # fill the paths
-        FS = file_structure.FileStructure(params["path_root"], self.id_data, self.id_rho)
+        self.path_root = params["path_root"]
+        FS = file_structure.FileStructure(self.path_root, self.id_data, self.id_rho)
         self.path_vib_model = FS.path_vib_model
         self.path_rho_model = FS.path_rho_model
 
-- 
2.43.0


From 48ca34a21a95afbb3216362db389b8f7762a8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:15 +0000
Subject: [PATCH 12/23] fix: check the directories and not their attribute
 names in directories_exist

---
 pibronic/data/file_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..cf27926 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,7 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
+        if False in map(os.path.isdir, [getattr(self, name) for name in self.dir_list]):
             return False
         return True
 
-- 
2.43.0


From c85d6d060a9c7aab8d9b670b4380e38e88a8248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 13/23] fix: change_rho updates the rho id, the rho path and
 drops the old rho hash

---
 pibronic/data/file_structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index cf27926..3001fcc 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -175,7 +175,12 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        # the sampling model changes, so its hash value is no longer valid
+        if id_rho != self.id_rho and self._has_rho_hash():
+            del self.hash_rho
+        self.id_rho = id_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
-- 
2.43.0


From f39cb3fe72d811ad2440bcb6c465aeb3b7816326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 14/23] fix: extract parameters from the name of the file and
 not from its directories

---
 pibronic/data/postprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..693f9af 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -86,7 +86,7 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B"))
 
 
 def extract_trotter_paramater_list(list_trotter):
@@ -102,7 +102,7 @@ def extract_trotter_paramater_list(list_trotter):
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -117,7 +117,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -130,7 +130,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -146,7 +146,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -159,17 +159,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(os.path.basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
-- 
2.43.0


From e790bd3c21af93d2654d562de68f597839c0534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 15/23] fix: extract the beads and basis size of trotter files

---
 pibronic/data/postprocessing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 693f9af..70a156e 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -86,16 +86,20 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B")[0])
+
+
+def extract_basis_value_from_trotter_file_path(file_path):
+    """ does what it says, returns an int """
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis = extract_basis_value_from_trotter_file_path(path)
+        trotterDict[basis].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
-- 
2.43.0


From badd67344431067a3cd0a18da5935f3cdc39f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 16/23] fix: only analyze pimc results generated with the
 current models

---
 pibronic/data/postprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 70a156e..6e5b376 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -307,7 +307,9 @@ def load_pimc_data(FS, P, T, pimc_results):
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
     path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
-    list_of_files = [file for file in glob.glob(path_data_points)]
+    # only use the results which were generated with the current models
+    FS.generate_model_hashes()
+    list_of_files = prune_results_using_hashes(FS, glob.glob(path_data_points))
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From 5c707c338f88481e1cb494b48a2c9674349cb603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 17/23] fix: a submission no longer changes the default
 parameters of later submissions

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..b4d9888 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -2,6 +2,7 @@
 assumes the server uses SLURM"""
 
 # system imports
+import copy
 import subprocess
 import threading
 import socket
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # each submission has its own copy of the default values
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
@@ -577,7 +581,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From 7c45e7c2f579780e6634de41e4b2912f19d2b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 18/23] fix: return the path of the python executable and of
 the job_boss directory

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index b4d9888..ef947fa 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -31,12 +31,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From 391405df0a52a463a83cf11af50960407d35e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 19/23] fix: plan enough jobs for the requested samples and
 only whole blocks per job

---
 pibronic/server/job_boss.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index ef947fa..6e5e35b 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -553,15 +553,15 @@ class PimcSubmissionClass(SubmissionClass):
         assert block_size <= n_samples, f"block size {block_size} must be less than or equal to the number of samples {n_samples}"
         assert block_size <= self.MAX_SAMPLES_PER_JOB, f"block size {block_size} must be less than or equal to the maximum number of samples per job {self.MAX_SAMPLES_PER_JOB}"
 
-        # calculate how many samples we need for each job
-        samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
-        self.param_dict["number_of_samples_per_job"] = samples_per_job
-        self.param_dict["number_of_samples"] = samples_per_job
-
         # calculate how many blocks we need for each job
-        blocks_per_job = samples_per_job // block_size
+        blocks_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB) // block_size
         self.param_dict["number_of_blocks"] = blocks_per_job
 
+        # calculate how many samples we need for each job, every sample has to be part of a block
+        samples_per_job = blocks_per_job * block_size
+        self.param_dict["number_of_samples_per_job"] = samples_per_job
+        self.param_dict["number_of_samples"] = samples_per_job
+
         # calculate how many jobs we need
         total_samples = self.param_dict["number_of_samples_overall"]
 
@@ -570,7 +570,8 @@ class PimcSubmissionClass(SubmissionClass):
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        # round up, otherwise we draw less samples than were requested
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From bfc9282421acd99421cc5fab49eafbd795b60360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:50 +0000
Subject: [PATCH 20/23] fix: execution parameters containing a semicolon decode
 to themselves

---
 pibronic/pimc/pimc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index ed82980..a2805a4 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -465,7 +465,7 @@ class BoxData:
     # to allow the string to be treated as a SINGLE environment variable
     # slurm uses commas as the delimiters for its environment variable list
     _COMMA_REPLACEMENT = ";"
-    _SEPARATORS = (_COMMA_REPLACEMENT, ':')
+    _SEPARATORS = (",", ":")
 
     # the hash values for the vibronic model and the Gaussian mixture distribution
     hash_vib = None
@@ -516,7 +516,9 @@ class BoxData:
     @classmethod
     def json_serialize(cls, params):
         json_str = json.dumps(params, separators=cls._SEPARATORS)
-        return json_str
+        # escape the symbol if it is part of a value, otherwise that value is changed when decoding
+        json_str = json_str.replace(cls._COMMA_REPLACEMENT, "\\u003b")
+        return json_str.replace(",", cls._COMMA_REPLACEMENT)
 
     def encode_self(self, params=None):
         """encodes json str with member values or given params"""
-- 
2.43.0


From 210900160128c68ae2d87d980961a4b353e5462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 21/23] fix: keep a delta_beta which was given as an integer

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index a2805a4..9dbc875 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -582,7 +582,7 @@ class BoxData:
             self.tau = self.beta / self.beads
         # dumb hacks
         if SEP.dB.value in params.keys():
-            if type(params[SEP.dB.value]) is float:
+            if isinstance(params[SEP.dB.value], (int, float)):
                 self.delta_beta = params[SEP.dB.value]
 
         # fill the paths
-- 
2.43.0


From fb6ae3349d299f6665f92e195c9bf04964a5b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:33 +0000
Subject: [PATCH 22/23] fix: refuse a model file which does not fit before
 overwriting the provided arrays

---
 pibronic/vibronic/vibronic_model_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index ccfd8e5..a08ebcb 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -561,6 +561,14 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    # refuse values which do not fit before any of the provided arrays is overwritten
+    # (numpy would silently broadcast some of them)
+    for key in (VMK.A, VMK.N):
+        assert input_dictionary.get(key) == dictionary[key], f"{key} of the file and of the provided dictionary differ"
+    for key, value in dictionary.items():
+        if isinstance(value, np.ndarray) and key in input_dictionary:
+            assert np.shape(input_dictionary[key]) == value.shape, f"{key} has an incorrect shape"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
-- 
2.43.0


From 78af46592b76345fab0d53f46d8d9a4cbd86d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:41 +0000
Subject: [PATCH 23/23] fix: refuse cubic and quartic terms when re-weighting
 instead of ignoring them

---
 pibronic/vibronic/vibronic_model_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index a08ebcb..f0a9879 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -666,8 +666,9 @@ def simple_single_point_energy_calculation(FS, path):
     returns a list of energy values in eV which"""
 
     iterative_model = load_diagonal_model_from_JSON(path)
-    if VMK.G2 in iterative_model and not np.allclose(iterative_model[VMK.G2], 0.0):
-        raise Exception("Support for non-zero quadratic terms in simple_single_point_energy_calculation() has not been implemented")
+    for key in (VMK.G2, VMK.G3, VMK.G4):
+        if key in iterative_model and not np.allclose(iterative_model[key], 0.0):
+            raise Exception("Support for non-zero quadratic or higher order terms in simple_single_point_energy_calculation() has not been implemented")
 
     Ai, Ni = _extract_dimensions_from_dictionary(iterative_model)
 
@@ -690,8 +691,9 @@ def simple_single_point_energy_calculation(FS, path):
 
     if VMK.G1 in coupled_model:
         lin[:] = coupled_model[VMK.G1]
-    if VMK.G2 in coupled_model and not np.allclose(coupled_model[VMK.G2], 0.0):
-        raise Exception("Support for non-zero quadratic terms in simple_single_point_energy_calculation() has not been implemented")
+    for key in (VMK.G2, VMK.G3, VMK.G4):
+        if key in coupled_model and not np.allclose(coupled_model[key], 0.0):
+            raise Exception("Support for non-zero quadratic or higher order terms in simple_single_point_energy_calculation() has not been implemented")
 
     new_energy_values = np.zeros(Ai)
 
-- 
2.43.0

