From c51b9282e42f004c913f4ba23f8fb3090a507bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:56 +0000
Subject: [PATCH 01/31] fix: keep the non-stellarator-symmetric coefficients on
 hot restart

With lasym = true a hot-restarted run dropped rmns, zmnc and lmnc of the
initial state and the asymmetric part of the fixed boundary, and then reported
convergence to a different, stellarator-symmetric equilibrium.
---
 .../vmec/fourier_geometry/fourier_geometry.cc | 93 +++++++++++++++++++
 .../vmec/fourier_geometry/fourier_geometry.h  |  6 +-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       |  8 +-
 3 files changed, 104 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
index 02c8ebf..051957f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
@@ -174,6 +174,9 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
                                     const RowMatrixXd& rmnc,
                                     const RowMatrixXd& zmns,
                                     const RowMatrixXd& lmns_full,
+                                    const RowMatrixXd& rmns,
+                                    const RowMatrixXd& zmnc,
+                                    const RowMatrixXd& lmnc_full,
                                     const RadialProfiles& p,
                                     const VmecConstants& constants,
                                     const Boundaries* b) {
@@ -211,6 +214,37 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      const Eigen::VectorXd rmns_col = rmns.col(jF);
+      const std::vector<double> rmns_col_vector(
+          rmns_col.data(), rmns_col.data() + rmns_col.size());
+      std::vector<double> rmnsc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> rmncs_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.sin_to_sc_cs(rmns_col_vector, rmnsc_at_jF, rmncs_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const Eigen::VectorXd zmnc_col = zmnc.col(jF);
+      const std::vector<double> zmnc_col_vector(
+          zmnc_col.data(), zmnc_col.data() + zmnc_col.size());
+      std::vector<double> zmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> zmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(zmnc_col_vector, zmncc_at_jF, zmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          rmnsc[idx_jmn] = rmnsc_at_jF[idx_mn];
+          zmncc[idx_jmn] = zmncc_at_jF[idx_mn];
+          if (s_.lthreed) {
+            rmncs[idx_jmn] = rmncs_at_jF[idx_mn];
+            zmnss[idx_jmn] = zmnss_at_jF[idx_mn];
+          }
+        }
+      }
+    }
   }
 
   // This loop always need to go over the full radial range
@@ -242,6 +276,30 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      const Eigen::VectorXd lmnc_col = lmnc_full.col(jF);
+      const std::vector<double> lmnc_col_vector(
+          lmnc_col.data(), lmnc_col.data() + lmnc_col.size());
+      std::vector<double> lmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> lmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(lmnc_col_vector, lmncc_at_jF, lmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          const double lambda_unscaling =
+              constants.lamscale / p.phipF[jF - r_.nsMinF1];
+
+          lmncc[idx_jmn] = lmncc_at_jF[idx_mn] / lambda_unscaling;
+          if (s_.lthreed) {
+            lmnss[idx_jmn] = lmnss_at_jF[idx_mn] / lambda_unscaling;
+          }
+        }
+      }
+    }
   }
 
   // boundary from b, if present
@@ -264,6 +322,25 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       std::copy(b->zbcs.begin(), b->zbcs.begin() + mnsize, zmncs_begin);
     }
 
+    if (s_.lasym) {
+      auto rmnsc_begin =
+          rmnsc.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+      std::copy(b->rbsc.begin(), b->rbsc.begin() + mnsize, rmnsc_begin);
+      auto zmncc_begin =
+          zmncc.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+      std::copy(b->zbcc.begin(), b->zbcc.begin() + mnsize, zmncc_begin);
+
+      if (s_.lthreed) {
+        auto rmncs_begin =
+            rmncs.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+        std::copy(b->rbcs.begin(), b->rbcs.begin() + mnsize, rmncs_begin);
+
+        auto zmnss_begin =
+            zmnss.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+        std::copy(b->zbss.begin(), b->zbss.begin() + mnsize, zmnss_begin);
+      }
+    }
+
     for (int m = 0; m < s_.mpol; ++m) {
       for (int n = 0; n < s_.ntor + 1; ++n) {
         int idx_fc = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
@@ -277,6 +354,16 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
           rmnss[idx_fc] *= basis_norm;
           zmncs[idx_fc] *= basis_norm;
         }
+
+        if (s_.lasym) {
+          rmnsc[idx_fc] *= basis_norm;
+          zmncc[idx_fc] *= basis_norm;
+
+          if (s_.lthreed) {
+            rmncs[idx_fc] *= basis_norm;
+            zmnss[idx_fc] *= basis_norm;
+          }
+        }
       }
     }
   }
@@ -301,6 +388,12 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       if (s_.lthreed) {
         lmncs[idx_fc] = 0.0;
       }
+      if (s_.lasym) {
+        lmncc[idx_fc] = 0.0;
+        if (s_.lthreed) {
+          lmnss[idx_fc] = 0.0;
+        }
+      }
     }
   }
 }  // InitFromState
diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
index fa65a02..1dd76f1 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
@@ -33,9 +33,13 @@ class FourierGeometry : public FourierCoeffs {
   // instead of from the Fourier coefficient matrices.
   // This latter use case applies to fixed-boundary hot-restart operation of
   // VMEC++.
+  // The non-stellarator-symmetric coefficients (rmns, zmnc, lmnc_full) are only
+  // accessed if lasym is true.
   void InitFromState(const FourierBasisFastPoloidal &fb,
                      const RowMatrixXd &rmnc, const RowMatrixXd &zmns,
-                     const RowMatrixXd &lmns_full, const RadialProfiles &p,
+                     const RowMatrixXd &lmns_full, const RowMatrixXd &rmns,
+                     const RowMatrixXd &zmnc, const RowMatrixXd &lmnc_full,
+                     const RadialProfiles &p,
                      const VmecConstants &constants,
                      const Boundaries *b = nullptr);
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 27067a2..ed400f9 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -713,13 +713,17 @@ bool Vmec::InitializeRadial(
           // free-boundary hot restart: use all flux surfaces from initial state
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_);
+              initial_state->wout.lmns_full, initial_state->wout.rmns,
+              initial_state->wout.zmnc, initial_state->wout.lmnc_full,
+              *p_[thread_id], constants_);
         } else {
           // fixed-boundary hot restart: use inner flux surfaces from initial
           // state, and LCFS geometry from Boundaries (from INDATA)
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_);
+              initial_state->wout.lmns_full, initial_state->wout.rmns,
+              initial_state->wout.zmnc, initial_state->wout.lmnc_full,
+              *p_[thread_id], constants_, &b_);
         }
       }
     } else {
-- 
2.43.0


From 3ad0b1784bcd1ce6b75f152a2bce009ad5fb597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:19 +0000
Subject: [PATCH 02/31] fix: a failed wout save is reported and leaves no file
 behind

Failed writes were not always reported by the NetCDF library, which left a
corrupt wout file in place of the previous one (or crashed the process), and
a failure to close or move the temporary file left it behind.
---
 src/vmecpp/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 409569e..0ff09ea 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1422,17 +1422,23 @@ class VmecWOut(BaseModelWithNumpy):
         tmp_fd, tmp_name = tempfile.mkstemp(
             dir=out_path.parent, prefix=out_path.name + ".", suffix=".tmp"
         )
-        os.close(tmp_fd)
         try:
-            self._save_to_netcdf3(tmp_name)
+            with os.fdopen(tmp_fd, "wb") as tmp_file:
+                tmp_file.write(self._to_netcdf3())
+            Path(tmp_name).replace(out_path)
         except BaseException:
             Path(tmp_name).unlink(missing_ok=True)
             raise
-        Path(tmp_name).replace(out_path)
 
-    def _save_to_netcdf3(self, out_path: str | Path) -> None:
-        """Write the NetCDF3 wout representation of this object to out_path."""
-        with netCDF4.Dataset(out_path, "w", format="NETCDF3_CLASSIC") as fnc:
+    def _to_netcdf3(self) -> memoryview:
+        """Contents of the NetCDF3 wout file that represents this object.
+
+        The file is assembled in memory and written out by the caller: when writing to
+        disk directly, the NetCDF library does not report every failed write.
+        """
+        with contextlib.nullcontext(
+            netCDF4.Dataset("wout.nc", "w", format="NETCDF3_CLASSIC", memory=0)
+        ) as fnc:
             # create dimensions (in the same order as VMEC2000)
             # Dimensions that are not in use yet, written for compatibility
             fnc.createDimension("mn_mode_pot", 100)
@@ -1607,6 +1613,8 @@ class VmecWOut(BaseModelWithNumpy):
                     )
                     raise ValueError(msg)
 
+            return fnc.close()
+
     @staticmethod
     def _from_cpp_wout(cpp_wout: _vmecpp.VmecppWOut) -> VmecWOut:
         attrs = {}
-- 
2.43.0


From 21b89a80bef23fc32d4dc698e38e0499c41ee253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:52 +0000
Subject: [PATCH 03/31] fix: a wout loaded from an older file can be saved
 again

Optional arrays that such a file does not contain are left out instead of
failing the save, and so does an empty text variable no longer.
---
 src/vmecpp/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 0ff09ea..094ec48 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1505,7 +1505,8 @@ class VmecWOut(BaseModelWithNumpy):
                         max_len = field_info.metadata[0].max_length
                     else:
                         # No max_length metadata, dynamic length
-                        max_len = len(value)
+                        # (a dimension of length zero would be an unlimited one)
+                        max_len = max(len(value), 1)
                     dim_name = f"dim_{max_len:05d}"
                     # Create the dimension if it doesn't exist yet
                     if dim_name not in fnc.dimensions:
@@ -1524,6 +1525,14 @@ class VmecWOut(BaseModelWithNumpy):
                 elif value is None:
                     # Skip None values (e.g., asymmetric arrays when lasym=False)
                     continue
+                elif (
+                    field_info is not None
+                    and not field_info.is_required()
+                    and np.shape(value) == (0,)
+                ):
+                    # Skip arrays that were absent from the (older) wout file
+                    # this object was loaded from
+                    continue
                 elif field_type is np.ndarray or field_type is list:
                     value_array = np.array(value)
                     # Fallback to default dimension names like dim_00001, dim_00002, etc.
-- 
2.43.0


From 408bc0931bc6ee930013cc09983a27ed7ff9e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 04/31] fix: file_io reports failed reads and writes instead of
 throwing or succeeding

---
 src/vmecpp/cpp/util/file_io/file_io.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/file_io/file_io.cc b/src/vmecpp/cpp/util/file_io/file_io.cc
index 6651fcc..78bb9cc 100644
--- a/src/vmecpp/cpp/util/file_io/file_io.cc
+++ b/src/vmecpp/cpp/util/file_io/file_io.cc
@@ -4,10 +4,11 @@
 // SPDX-License-Identifier: MIT
 #include "util/file_io/file_io.h"
 
+#include <array>
 #include <filesystem>
 #include <fstream>
-#include <iterator>
 #include <string>
+#include <system_error>
 
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
@@ -15,7 +16,8 @@
 namespace fs = std::filesystem;
 
 absl::StatusOr<std::string> file_io::ReadFile(const fs::path& filename) {
-  if (!fs::exists(filename)) {
+  std::error_code error;
+  if (!fs::exists(filename, error)) {
     return absl::NotFoundError("File " + filename.string() + " not found.");
   }
 
@@ -25,7 +27,15 @@ absl::StatusOr<std::string> file_io::ReadFile(const fs::path& filename) {
                                        " could not be opened for reading.");
   }
 
-  std::string contents(std::istreambuf_iterator<char>{ifs}, {});
+  std::string contents;
+  std::array<char, 4096> buffer;
+  while (ifs.read(buffer.data(), buffer.size()) || ifs.gcount() > 0) {
+    contents.append(buffer.data(), ifs.gcount());
+  }
+  if (ifs.bad()) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be read completely.");
+  }
   return contents;
 }
 
@@ -41,6 +51,10 @@ absl::Status file_io::WriteFile(const std::filesystem::path& filename,
 
   file_stream.flush();
   file_stream.close();
+  if (file_stream.fail()) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be written completely.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From a7ce49c259577787be754d06454cffdacd42e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 05/31] fix: json_io rejects integers that do not fit into an
 int

---
 src/vmecpp/cpp/util/json_io/json_io.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..6d4970d 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -4,6 +4,7 @@
 // SPDX-License-Identifier: MIT
 #include "util/json_io/json_io.h"
 
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -11,7 +12,13 @@
 
 namespace {
 using nlohmann::json;
+
+// true if the given JSON value is an integer that can be represented as `int`
+bool IsInt(const json& j) {
+  return j.is_number_integer() && j >= std::numeric_limits<int>::min() &&
+         j <= std::numeric_limits<int>::max();
 }
+}  // namespace
 
 namespace json_io {
 
@@ -37,7 +44,7 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
     return std::nullopt;
   }
 
-  if (!j[name].is_number_integer()) {
+  if (!IsInt(j[name])) {
     return absl::InvalidArgumentError(
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
@@ -90,7 +97,7 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   std::vector<int> entries;
   int i = 0;
   for (const auto& entry : j[name]) {
-    if (entry.is_number_integer()) {
+    if (IsInt(entry)) {
       entries.push_back(entry);
     } else {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 234567c9436aee0171e7852bc24a2ec8e98d9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 06/31] fix: netcdf_io converts variables to the requested type
 instead of reinterpreting bytes

---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 23 ++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..153a4d1 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -121,8 +121,8 @@ absl::StatusOr<char> NetcdfReadChar(int ncid,
   // actually read data
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<char> variable_data(1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -209,8 +209,8 @@ absl::StatusOr<std::string> NetcdfReadString(int ncid,
   // one extra element that stays at 0 in order to properly zero-terminate the
   // string
   std::vector<char> variable_data(total_element_count + 1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -247,8 +247,9 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(),
+                         variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +284,9 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(),
+                         variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +329,9 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(),
+                         variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From 7d54b9a0f851fe85077d048d64d25449eeacea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 07/31] fix: reject makegrid coils files without a coil
 geometry section

---
 .../magnetic_configuration_lib.cc                          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..7ebcfac 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -166,6 +166,7 @@ absl::Status ParseCurrentCarriers(
 absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
     const std::string& makegrid_coils) {
   MagneticConfiguration magnetic_configuration;
+  bool found_filaments = false;
 
   std::stringstream makegrid_coils_ss(makegrid_coils);
   for (std::string raw_line; std::getline(makegrid_coils_ss, raw_line);
@@ -187,6 +188,7 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
       }
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
+      found_filaments = true;
       absl::Status status =
           ParseCurrentCarriers(makegrid_coils_ss, magnetic_configuration);
       if (status != absl::OkStatus()) {
@@ -198,6 +200,11 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
     }
   }
 
+  if (!found_filaments) {
+    return absl::NotFoundError(
+        "did not find 'begin filament' line in makegrid_coils file");
+  }
+
   return magnetic_configuration;
 }  // ImportMagneticConfigurationFromMakegrid
 
-- 
2.43.0


From 1fb8f87204d922532587e54e67ad99e916562c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 08/31] fix: ImportMakegridParametersFromFile returns an error
 instead of aborting

---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..1737dd2 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -274,7 +274,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
-- 
2.43.0


From 235d44799976cd5f483579cdd2fd7d30250c9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 09/31] fix: WriteMakegridNetCDFFile notices data that did not
 reach the file

---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 1737dd2..e50e1e6 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -1041,6 +1041,8 @@ absl::Status WriteMakegridNetCDFFile(
     }
   }  // number_of_serial_circuits
 
+  // nc_close() does not report whether the buffered data reached the file.
+  CHECK_EQ(nc_sync(ncid), NC_NOERR);
   CHECK_EQ(nc_close(ncid), NC_NOERR);
 
   return absl::OkStatus();
-- 
2.43.0


From 75aad05a3a296444b294fe6ba500fb1021759794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 10/31] fix: ignore boundary coefficients with m < 0 or huge n
 instead of writing out of bounds

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..1b1fb1c 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -982,14 +982,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring rbc entry with m = %d, since m is not in 0..(mpol - 1) = "
+            "%d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1012,14 +1012,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring zbs entry with m = %d, since m is not in 0..(mpol - 1) = "
+            "%d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1049,14 +1049,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring rbs entry with m = %d, since m is not in 0..(mpol - 1) = "
+              "%d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with n = %d, since |n| is larger than ntor = "
               "%d",
@@ -1079,14 +1079,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring zbc entry with m = %d, since m is not in 0..(mpol - 1) = "
+              "%d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with n = %d, since |n| is larger than ntor = "
               "%d",
-- 
2.43.0


From 9ead29be4cf1c5c6fe1b973e845752790145e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:57 +0000
Subject: [PATCH 11/31] fix: write the complete non-symmetric axis and boundary
 arrays to HDF5

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 1b1fb1c..df020c8 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
-- 
2.43.0


From aa47e7b23274cdde491e24fa0624729a7482d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:57 +0000
Subject: [PATCH 12/31] fix: do not transpose square Fourier arrays when
 loading current HDF5 files

---
 .../vmecpp/vmec/output_quantities/output_quantities.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..b4d4818 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1066,6 +1066,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
 
   // 2D Fourier arrays: old HDF5 files store (ns, mnmax) layout,
   // new format uses (mnmax, ns). Detect by checking if dimensions match.
+  // A square array fits both layouts; only files with the legacy field names
+  // can hold the old one.
+  const bool is_legacy_file =
+      !from_file.nameExists(absl::StrFormat("%s/%s", H5key, "iotas"));
   // Also handle half-grid arrays that changed from (ns-1, mnmax) to (mnmax,
   // ns).
   auto ReadAndTranspose2D = [&](RowMatrixXd& dest, const std::string& name) {
@@ -1075,7 +1079,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // New layout is (mnmax, ns) where mnmax < ns is not guaranteed,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
-    if (tmp.rows() == m_obj.ns &&
+    if ((is_legacy_file || tmp.rows() != tmp.cols()) &&
+        tmp.rows() == m_obj.ns &&
         (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
       dest = tmp.transpose();
     } else {
@@ -1090,7 +1095,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if ((is_legacy_file || tmp.rows() != tmp.cols()) &&
+                   tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
-- 
2.43.0


From ac1ab1526250708994ee9f838cbd978f6bf4d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:57 +0000
Subject: [PATCH 13/31] fix: save and load all members of WOutFileContents in
 HDF5 files

---
 .../output_quantities/output_quantities.cc    | 32 ++++++++++++++++---
 .../output_quantities/output_quantities.h     |  2 +-
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index b4d4818..b9d15db 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -52,6 +52,12 @@ VectorXd NonEmptyVectorOr(const Eigen::VectorXd& vec, const double val) {
                   from_file);                                         \
   }
 
+// Read a field that files written by earlier versions do not have.
+#define READMEMBER_IF_PRESENT(x)                                   \
+  if (from_file.nameExists(absl::StrFormat("%s/%s", H5key, #x))) { \
+    READMEMBER(x);                                                 \
+  }
+
 // Write object to the specified HDF5 file, under key "vmecinternalresults".
 absl::Status vmecpp::VmecInternalResults::WriteTo(H5::H5File& file) const {
   file.createGroup(H5key);
@@ -805,7 +811,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   file.createGroup(this->H5key);
 
   WRITEMEMBER(version_);
-  // TODO(jurasic) input_extension
+  WRITEMEMBER(input_extension);
   WRITEMEMBER(signgs);
   WRITEMEMBER(gamma);
   WRITEMEMBER(pcurr_type);
@@ -824,6 +830,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(mpol);
   WRITEMEMBER(ntor);
   WRITEMEMBER(lasym);
+  WRITEMEMBER(lrfp);
   WRITEMEMBER(ns);
   WRITEMEMBER(ftolv);
   WRITEMEMBER(niter);
@@ -857,6 +864,14 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(fsqr);
   WRITEMEMBER(fsqz);
   WRITEMEMBER(fsql);
+  WRITEMEMBER(itfsq);
+  WRITEMEMBER(fsqt);
+  WRITEMEMBER(force_residual_r);
+  WRITEMEMBER(force_residual_z);
+  WRITEMEMBER(force_residual_lambda);
+  WRITEMEMBER(delbsq);
+  WRITEMEMBER(restart_reason_timetrace);
+  WRITEMEMBER(wdot);
   WRITEMEMBER(iotaf);
   WRITEMEMBER(q_factor);
   WRITEMEMBER(presf);
@@ -941,7 +956,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
                   from_file);
     m_obj.version_ = std::stod(version_str);
   }
-  // TODO(jurasic) input_extension
+  READMEMBER_IF_PRESENT(input_extension);
   READMEMBER_COMPAT(signgs, "sign_of_jacobian");
   READMEMBER(gamma);
   READMEMBER(pcurr_type);
@@ -960,6 +975,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(mpol);
   READMEMBER(ntor);
   READMEMBER(lasym);
+  READMEMBER_IF_PRESENT(lrfp);
   READMEMBER(ns);
   READMEMBER(ftolv);
   READMEMBER_COMPAT(niter, "maximum_iterations");
@@ -1000,6 +1016,14 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(fsqr);
   READMEMBER(fsqz);
   READMEMBER(fsql);
+  READMEMBER_IF_PRESENT(itfsq);
+  READMEMBER_IF_PRESENT(fsqt);
+  READMEMBER_IF_PRESENT(force_residual_r);
+  READMEMBER_IF_PRESENT(force_residual_z);
+  READMEMBER_IF_PRESENT(force_residual_lambda);
+  READMEMBER_IF_PRESENT(delbsq);
+  READMEMBER_IF_PRESENT(restart_reason_timetrace);
+  READMEMBER_IF_PRESENT(wdot);
   READMEMBER_COMPAT(iotaf, "iota_full");
   READMEMBER_COMPAT(q_factor, "safety_factor");
   READMEMBER_COMPAT(presf, "pressure_full");
@@ -1045,9 +1069,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     ReadHalfGridCompat(m_obj.over_r, "overr");
   }
   READMEMBER(jdotb);
-  // TODO(jurasic) We will deprecate HDF5 soon, regenerate large_cpp_tests
-  // reference files with all quantities once that is done
-  //  READMEMBER(bdotb);
+  READMEMBER_IF_PRESENT(bdotb);
   READMEMBER(bdotgradv);
   READMEMBER(DMerc);
   READMEMBER_COMPAT(DShear, "Dshear");
diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
index bf3a081..154ae14 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
@@ -1131,7 +1131,7 @@ struct WOutFileContents {
   // Number of "time steps" of the force relaxation that were actually required
   // to achieve convergence. (How many of the maximum niter steps we ended up
   // using.)
-  int itfsq;
+  int itfsq = 0;
 
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From 7a5a9c54e7b887bc71344a65ae0d1924b28f8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:09 +0000
Subject: [PATCH 14/31] fix: hdf5_io reads and writes lists of strings as
 strings, not as std::string objects

---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..72dcd90 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -32,7 +32,13 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+
+  std::vector<const char*> c_strs;
+  c_strs.reserve(vs.size());
+  for (const std::string& s : vs) {
+    c_strs.push_back(s.c_str());
+  }
+  dataset.write(c_strs.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -64,9 +70,17 @@ void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
   hsize_t size;
   space.getSimpleExtentDims(&size);
 
-  vs.resize(size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  std::vector<char*> c_strs(size, nullptr);
+  ds.read(c_strs.data(), str_type);
+
+  vs.clear();
+  for (const char* c_str : c_strs) {
+    vs.emplace_back(c_str == nullptr ? "" : c_str);
+  }
+  if (!c_strs.empty()) {
+    H5::DataSet::vlenReclaim(c_strs.data(), str_type, space);
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
-- 
2.43.0


From d72bcd7c75e9fd5f43201ac818a7c11b0e00eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:09 +0000
Subject: [PATCH 15/31] fix: OutputQuantities::Save reports data that could not
 be written

---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc                         | 3 +++
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.h                          | 3 +++
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 72dcd90..2bde547 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -16,6 +16,7 @@ void hdf5_io::WriteH5Dataset(const hdf5_io::RowMatrixXd& m,
   H5::DataSet dataset =
       file.createDataSet(name, H5::PredType::NATIVE_DOUBLE, dataspace);
   dataset.write(m.data(), H5::PredType::NATIVE_DOUBLE);
+  dataset.close();
 }
 
 template void hdf5_io::WriteH5Dataset(const Eigen::VectorXd& v,
@@ -39,6 +40,7 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
     c_strs.push_back(s.c_str());
   }
   dataset.write(c_strs.data(), str_type);
+  dataset.close();
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -47,6 +49,7 @@ void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
   dataset.write(str, str_type);
+  dataset.close();
 }
 
 void hdf5_io::ReadH5Dataset(hdf5_io::RowMatrixXd& m, const std::string& dataset,
diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
index aae43ba..732887d 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
@@ -47,6 +47,7 @@ void WriteH5Dataset(const Vector& v, const std::string& name,
   } else {
     dataset.write(v.data(), type);
   }
+  dataset.close();
 }
 
 extern template void WriteH5Dataset(const Eigen::VectorXd& v,
@@ -74,6 +75,7 @@ void WriteH5Dataset(Scalar v, const std::string& name, H5::H5File& file) {
 
   H5::DataSet dataset = file.createDataSet(name, type, dataspace);
   dataset.write(&v, type);
+  dataset.close();
 }
 
 void ReadH5Dataset(RowMatrixXd& m, const std::string& dataset,
@@ -184,6 +186,7 @@ void WriteH5Dataset(const Vector& vector, const std::vector<hsize_t>& dims,
   H5::DataSet dataset = h5file_output.createDataSet(name, type, dataspace);
 
   dataset.write(vector.data(), type);
+  dataset.close();
 }
 
 }  // namespace hdf5_io
diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index b9d15db..7ebba7e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1272,6 +1272,9 @@ absl::Status vmecpp::OutputQuantities::Save(
     return status;
   }
 
+  // The destructor of H5File would not report a failure to write the file.
+  file.flush(H5F_SCOPE_GLOBAL);
+
   return absl::OkStatus();
 }
 
-- 
2.43.0


From be40e725f8b33530f30883980a0f5652f121b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 16/31] fix: OutputQuantities::Save leaves the previous file if
 it fails

---
 .../output_quantities/output_quantities.cc    | 31 +++++++++++++++++++
 .../output_quantities/output_quantities.h     |  4 +++
 2 files changed, 35 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7ebba7e..fdb9b53 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4,10 +4,14 @@
 // SPDX-License-Identifier: MIT
 #include "vmecpp/vmec/output_quantities/output_quantities.h"
 
+#include <unistd.h>  // getpid
+
 #include <Eigen/Dense>  // VectorXd
 #include <algorithm>
+#include <filesystem>
 #include <memory>
 #include <string>
+#include <system_error>
 #include <vector>
 
 #include "H5Cpp.h"
@@ -1173,6 +1177,33 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
 
 absl::Status vmecpp::OutputQuantities::Save(
     const std::filesystem::path& path) const {
+  // Write to a temporary file next to the target and move it into place once
+  // it is complete: a save that fails must not leave part of a result at path.
+  std::filesystem::path temporary_path = path;
+  temporary_path += "." + std::to_string(getpid()) + ".tmp";
+
+  std::error_code error;
+  absl::Status status;
+  try {
+    status = WriteFile(temporary_path);
+  } catch (...) {
+    std::filesystem::remove(temporary_path, error);
+    throw;
+  }
+  if (status.ok()) {
+    std::filesystem::rename(temporary_path, path, error);
+    if (!error) {
+      return absl::OkStatus();
+    }
+    status = absl::InternalError("could not write " + path.string() + ": " +
+                                 error.message());
+  }
+  std::filesystem::remove(temporary_path, error);
+  return status;
+}
+
+absl::Status vmecpp::OutputQuantities::WriteFile(
+    const std::filesystem::path& path) const {
   H5::H5File file(path, H5F_ACC_TRUNC);
 
   absl::Status status;
diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
index 154ae14..690099f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.h
@@ -1353,6 +1353,7 @@ struct OutputQuantities {
 
   // Write the output quantities to the HDF5 file at the specified path.
   // If a file already exists, it is overwritten.
+  // If saving fails, an already existing file is left as it was.
   absl::Status Save(const std::filesystem::path& path) const;
 
   // Return a OutputQuantities instance populated with the contents of the
@@ -1360,6 +1361,9 @@ struct OutputQuantities {
   // one produced by OutputQuantities::Save.
   static absl::StatusOr<OutputQuantities> Load(
       const std::filesystem::path& path);
+
+ private:
+  absl::Status WriteFile(const std::filesystem::path& path) const;
 };
 
 // Compute the output quantities of VMEC++.
-- 
2.43.0


From 569d92c2d055ff767d283caa3616c42f2f4c80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:12 +0000
Subject: [PATCH 17/31] fix: vmec_8_52 Python driver takes the restart
 decisions in the order of the C++ solver

---
 src/vmecpp/_iteration.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..f1fb80b 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -436,23 +436,30 @@ def solve_equilibrium(
                 if iter2 == iter1 or res0 == -1.0:
                     res0 = fsq1
                 res0 = min(res0, fsq1)
+                improved = fsq1 <= res0 and (iter2 - iter1) > 10
                 blew_up = fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1
-                if rr == RestartReason.BAD_JACOBIAN or blew_up:
+                slow = (
+                    (iter2 - iter1) > _PRECOND_INTERVAL // 2
+                    and iter2 > 2 * _PRECOND_INTERVAL
+                    and (fsqr + fsqz) > 1.0e-2
+                )
+                bad_jacobian = rr == RestartReason.BAD_JACOBIAN
+                if blew_up or (bad_jacobian and (improved or not slow)):
                     model.restore_backup()
                     delt0r *= 0.9
                     ijacob += 1
                     iter1 = iter2
-                    bad_resets += 1
+                    # The C++ store branch (RestartIteration on an improved
+                    # residual) reverts a bad Jacobian as well, but keeps
+                    # counting iter2.
+                    if not improved:
+                        bad_resets += 1
                     n_restarts += 1
                     restarted = True
-                elif fsq1 <= res0 and (iter2 - iter1) > 10:
+                elif improved:
                     model.save_backup()
                     saved_backup = True
-                elif (
-                    (iter2 - iter1) > _PRECOND_INTERVAL // 2
-                    and iter2 > 2 * _PRECOND_INTERVAL
-                    and (fsqr + fsqz) > 1.0e-2
-                ):
+                elif slow:
                     model.restore_backup()
                     delt0r /= 1.03
                     iter1 = iter2
-- 
2.43.0


From af7bd76c95eb9d5f06bbb7776f3819eadd8f9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:12 +0000
Subject: [PATCH 18/31] fix: parvmec and robust Python drivers revert a mid-run
 bad Jacobian instead of storing it

---
 src/vmecpp/_iteration.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f1fb80b..2712cb2 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -384,7 +384,17 @@ def solve_equilibrium(
                     res1 = fsq0
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
+                improved = fsq1 <= res0 and fsq0 <= res1
+                if improved and rr == RestartReason.BAD_JACOBIAN:
+                    # C++ calls RestartIteration here, which reverts (and
+                    # escalates) instead of storing overlapping surfaces
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    n_restarts += 1
+                    restarted = True
+                elif improved:
                     model.save_backup()
                     saved_backup = True
                 elif (iter2 - iter1) > 10 and (
@@ -396,6 +406,14 @@ def solve_equilibrium(
                     bad_resets += 1
                     n_restarts += 1
                     restarted = True
+                elif rr == RestartReason.BAD_JACOBIAN:
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    bad_resets += 1
+                    n_restarts += 1
+                    restarted = True
             elif robust:
                 # Common-ground control: PARVMEC's dual-residual permissive leash
                 # (revert gently, without counting toward the give-up escalation)
@@ -407,7 +425,15 @@ def solve_equilibrium(
                     res1 = fsq0
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
+                if rr == RestartReason.BAD_JACOBIAN:
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    bad_resets += 1
+                    n_restarts += 1
+                    restarted = True
+                elif fsq1 <= res0 and fsq0 <= res1:
                     model.save_backup()
                     saved_backup = True
                 elif (
-- 
2.43.0


From 1d23a85387a9fc425ac1e056a46f67e793333a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:12 +0000
Subject: [PATCH 19/31] fix: initialise all residuals of FlowControl (reported
 before the first evaluation completes)

---
 src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 70a0130..0e1bf5b 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -56,6 +56,10 @@ FlowControl::FlowControl(bool lfreeb, double delt, int num_grids,
   // INITIALIZE PARAMETERS
   fsqr = 1.0;
   fsqz = 1.0;
+  fsql = 1.0;
+  fsqr1 = 1.0;
+  fsqz1 = 1.0;
+  fsql1 = 1.0;
   ftolv = fsqr;
   ijacob = 0;
   restart_reason = RestartReason::NO_RESTART;
-- 
2.43.0


From 26b54b348211cdc5e1398112bf940e7e0087857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:23 +0000
Subject: [PATCH 20/31] fix: VmecInput.from_file reads the mpol/ntor
 continuation schedules that save writes

---
 src/vmecpp/__init__.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 094ec48..3c61331 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -104,6 +104,33 @@ def _final_resolution(value: int | np.ndarray) -> int:
     return value if isinstance(value, int) else int(value[-1])
 
 
+def _split_fourier_schedules(
+    json_file: Path,
+) -> tuple[dict[str, int | np.ndarray], str]:
+    """Separates ``mpol``/``ntor`` continuation schedules from a JSON input file.
+
+    VmecINDATA only knows scalar resolutions. Returns the schedules found and the JSON
+    with each of them replaced by its final resolution.
+    """
+    text = json_file.read_text()
+    try:
+        contents = json.loads(text)
+    except ValueError:
+        return {}, text  # VmecINDATA reports what is wrong with it
+    schedules: dict[str, int | np.ndarray] = {}
+    if isinstance(contents, dict):
+        for name in ("mpol", "ntor"):
+            value = contents.get(name)
+            if (
+                isinstance(value, list)
+                and value
+                and all(type(entry) is int for entry in value)
+            ):
+                schedules[name] = _coerce_mpol_ntor(value)
+                contents[name] = value[-1]
+    return schedules, json.dumps(contents)
+
+
 AuxFType = typing.Annotated[
     _ArrayType,
     pydantic.BeforeValidator(lambda x: _util.right_pad(x, ndfmax, 0.0)),
@@ -668,10 +695,17 @@ class VmecInput(BaseModelWithNumpy):
             with ensure_vmecpp_input(absolute_input_path) as vmecpp_input_file:
                 # `VmecINDATA` populates missing fields with default values, while `VmecInput` doesn't.
                 # Therefore we use `VmecINDATA` here to read the user input, before validating the model
+                schedules, scalar_json = _split_fourier_schedules(vmecpp_input_file)
+                if schedules:
+                    vmecpp_input_file = Path(tmpdir, absolute_input_path.name)
+                    vmecpp_input_file.write_text(scalar_json)
                 vmecpp_indata = _vmecpp.VmecINDATA.from_file(vmecpp_input_file)
         # At this point all required fields are populated with user defined or default values.
         # Passing missing or extra fields to `VmecInput.model_validate` will otherwise raise an error.
-        return VmecInput._from_cpp_vmecindata(vmecpp_indata)
+        vmec_input = VmecInput._from_cpp_vmecindata(vmecpp_indata)
+        for name, schedule in schedules.items():
+            setattr(vmec_input, name, schedule)
+        return vmec_input
 
     @staticmethod
     def _from_cpp_vmecindata(
-- 
2.43.0


From 61b1e1e65950095c9179925c82a4048994171331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:07 +0000
Subject: [PATCH 21/31] fix: a failed conversion of an INDATA file leaves no
 partial JSON file behind

---
 src/vmecpp/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 3c61331..764f1d0 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -2567,14 +2567,16 @@ def ensure_vmecpp_input(input_path: Path) -> Generator[Path, None, None]:
         configuration_name = _util.get_vmec_configuration_name(input_path)
         output_file = input_path.with_name(f"{configuration_name}.{os.getpid()}.json")
 
-        vmecpp_input_path = _util.indata_to_json(
-            input_path, output_override=output_file
-        )
-        assert vmecpp_input_path == output_file.resolve()
+        output_file = output_file.absolute()
         try:
+            vmecpp_input_path = _util.indata_to_json(
+                input_path, output_override=output_file
+            )
+            assert vmecpp_input_path == output_file.resolve()
             yield vmecpp_input_path
         finally:
-            os.remove(vmecpp_input_path)
+            # also if the conversion failed half way
+            output_file.unlink(missing_ok=True)
     else:
         # if the file is not a VMEC2000 indata file, we assume
         # it is a VMEC++ JSON input file
-- 
2.43.0


From 7f353f6be19a3cdc5411f522594558f66f29f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 22/31] fix: keep the magnetic axis when converting a JSON
 input to INDATA

---
 src/vmecpp/_util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..0efe88f 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,15 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    for indata_name, json_name in (
+        ("raxis_cc", "raxis_c"),
+        ("zaxis_cs", "zaxis_s"),
+        ("raxis_cs", "raxis_s"),
+        ("zaxis_cc", "zaxis_c"),
+    ):
+        # the JSON input calls the axis coefficients differently
+        axis = vmecpp_json.get(json_name, vmecpp_json.get(indata_name))
+        indata += _float_array_to_namelist(indata_name, {indata_name: axis})
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
-- 
2.43.0


From 6decbcab0875c148c8431beb43467b3053990900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:28 +0000
Subject: [PATCH 23/31] fix: guess the magnetic axis of
 non-stellarator-symmetric inputs from their whole cross sections

---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 122 ++++++++++--------
 1 file changed, 66 insertions(+), 56 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..660ea0a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -227,8 +227,15 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
+  // (without stellarator symmetry, the whole poloidal range is needed)
+  const int num_theta = s.lasym ? s.nThetaEven : s.nThetaReduced;
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    for (int l = 0; l < num_theta; ++l) {
+      // the basis is tabulated for theta in [0, pi] only
+      const bool is_reduced = l < s.nThetaReduced;
+      const int l_basis = is_reduced ? l : s.nThetaEven - l;
+      const double sin_sign = is_reduced ? 1.0 : -1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +249,85 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_basis;
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
+          const double cosmu = t.cosmu[idx_ml];
+          const double sinmu = sin_sign * t.sinmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmum = sin_sign * t.sinmum[idx_ml];
 
-          w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-          w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+          w.r_lcfs[k][l] += basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
+          w.z_lcfs[k][l] += basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
-            w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * sinmu * t.sinnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rss_half[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcs_half[m][n] * sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
-            w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * sinmu * t.cosnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rsc_half[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcc_half[m][n] * sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
-              w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
-
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_lcfs[k][l] +=
+                  basis_norm * rbcs[idx_mn] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_lcfs[k][l] +=
+                  basis_norm * zbss[idx_mn] * cosmum * t.sinnv[idx_kn];
+
+              w.r_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+              w.z_half[k][l] +=
+                  basis_norm * zss_half[m][n] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_half[k][l] +=
+                  basis_norm * zss_half[m][n] * cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +388,8 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
-- 
2.43.0


From 48ccfd10577c4db128b15c60e536affbfacce9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 24/31] fix: read back an input whose non-symmetric boundary
 coefficients are all zero

VmecInput.model_validate_json(x.model_dump_json()) failed for lasym inputs with
all-zero rbs or zbc: their sparse form is an empty list.
---
 src/vmecpp/_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 0efe88f..516f814 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -408,7 +408,11 @@ def sparse_to_dense_coefficients_implicit(
     (mpol, 2*ntor+1) shape from the maximum mode numbers OR return the original array if
     the input representation is already dense."""
     if isinstance(maybe_sparse_list, np.ndarray):
-        return maybe_sparse_list
+        if maybe_sparse_list.shape != (0,):
+            return maybe_sparse_list
+        # The sparse form of all-zero coefficients is an empty list, which arrives
+        # here as an empty array.
+        maybe_sparse_list = []
 
     mpol = 0
     ntor = 0
-- 
2.43.0


From df7a82897bac26453f6c66dd66078c4cd227aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:36 +0000
Subject: [PATCH 25/31] fix: pass an edited magnetic field response table on to
 the solver

The C++ object behind a table was reused whenever the arrays were views of
it, so changed parameters, and sliced or swapped arrays, were ignored.
---
 src/vmecpp/_free_boundary.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/_free_boundary.py b/src/vmecpp/_free_boundary.py
index 690554c..45ae6b8 100644
--- a/src/vmecpp/_free_boundary.py
+++ b/src/vmecpp/_free_boundary.py
@@ -127,8 +127,13 @@ class MagneticFieldResponseTable(BaseModelWithNumpy):
         underlying = self.b_r.base
         if (
             isinstance(underlying, _vmecpp.MagneticFieldResponseTable)
-            and underlying == self.b_p.base
-            and underlying == self.b_z.base
+            and all(
+                getattr(self, name).__array_interface__
+                == getattr(underlying, name).__array_interface__
+                for name in ("b_r", "b_p", "b_z")
+            )
+            and self.parameters
+            == MakegridParameters._from_cpp_makegrid_parameters(underlying.parameters)
         ):
             return underlying
         # Otherwise, create a new C++ object
-- 
2.43.0


From 2f22a54a1642b6a33db629fc66611e7f0fedbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:37 +0000
Subject: [PATCH 26/31] fix: accept FreeBoundaryMethod and IterationStyle
 members in VmecInput

str() of an enum member is 'FreeBoundaryMethod.NESTOR', so an input made
with a member, or validated from its own model_dump, was rejected.
---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 764f1d0..9494337 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -199,7 +199,7 @@ def _validate_free_boundary_method(
     """Convert various representations to FreeBoundaryMethod."""
     if isinstance(value, _vmecpp.FreeBoundaryMethod):
         return FreeBoundaryMethod(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return FreeBoundaryMethod(str(value))
+    return FreeBoundaryMethod(value)
 
 
 def _validate_iteration_style(
@@ -208,7 +208,7 @@ def _validate_iteration_style(
     """Convert various representations to IterationStyle."""
     if isinstance(value, _vmecpp.IterationStyle):
         return IterationStyle(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return IterationStyle(str(value))
+    return IterationStyle(value)
 
 
 # This is a pure Python equivalent of VmecINDATAPyWrapper.
-- 
2.43.0


From 17e014a1fef929f03e42f974d8acfe91c66f1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:50 +0000
Subject: [PATCH 27/31] fix: refuse a response table in memory whose arrays do
 not fit its grid

LoadFields read past the end of arrays smaller than the grid parameters say.
---
 .../mgrid_provider/mgrid_provider.cc              | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index b1291d8..9164078 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -262,6 +262,21 @@ absl::Status MGridProvider::LoadFields(
         "response table %d.",
         coil_currents.size(), magnetic_response_table.b_p.rows()));
   }
+  const Eigen::Index expected_grid_points =
+      static_cast<Eigen::Index>(mgrid_params.number_of_phi_grid_points) *
+      mgrid_params.number_of_z_grid_points *
+      mgrid_params.number_of_r_grid_points;
+  for (const auto* field :
+       {&magnetic_response_table.b_r, &magnetic_response_table.b_p,
+        &magnetic_response_table.b_z}) {
+    if (field->rows() != coil_currents.size() ||
+        field->cols() != expected_grid_points) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Response table field has shape (%d, %d), expected (%d, %d).",
+          field->rows(), field->cols(), coil_currents.size(),
+          expected_grid_points));
+    }
+  }
 
   nfp = mgrid_params.number_of_field_periods;
 
-- 
2.43.0


From 0948dd540e644c546bd02e67009aaf1f4e170e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:51 +0000
Subject: [PATCH 28/31] fix: do not keep using an mgrid provider whose reload
 failed

After a refused file the provider was still marked as loaded, with the grid
of the new file and the fields of the old one.
---
 .../cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index 9164078..56c50df 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -148,6 +148,10 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     return with_context(read_status);
   }
 
+  // From here on the previous contents are overwritten; the provider must not
+  // be used if loading the new contents fails.
+  has_mgrid_loaded_ = false;
+
   nfp = *nfp_or;
 
   numR = *num_r_or;
-- 
2.43.0


From e7e21a3a72f11747de444870fb74293dc5aee064 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 29/31] fix: zero-initialise radial profiles that best-effort
 outputs report before they are computed

---
 .../vmec/radial_profiles/radial_profiles.cc   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..1f54e3c 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -251,16 +251,17 @@ RadialProfiles::RadialProfiles(const RadialPartitioning* r,
 
   // ---------------------------------
 
-  dVdsH.resize(r_.nsMaxH - r_.nsMinH);
-  presH.resize(r_.nsMaxH - r_.nsMinH);
-  bucoH.resize(r_.nsMaxH - r_.nsMinH);
-  bvcoH.resize(r_.nsMaxH - r_.nsMinH);
-
-  jcuruF.resize(r_.nsMaxFi - r_.nsMinFi);
-  jcurvF.resize(r_.nsMaxFi - r_.nsMinFi);
-  presgradF.resize(r_.nsMaxFi - r_.nsMinFi);
-  dVdsF.resize(r_.nsMaxFi - r_.nsMinFi);
-  equiF.resize(r_.nsMaxFi - r_.nsMinFi);
+  // The outputs of a run that stops early hold these before they were computed.
+  dVdsH.setZero(r_.nsMaxH - r_.nsMinH);
+  presH.setZero(r_.nsMaxH - r_.nsMinH);
+  bucoH.setZero(r_.nsMaxH - r_.nsMinH);
+  bvcoH.setZero(r_.nsMaxH - r_.nsMinH);
+
+  jcuruF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  jcurvF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  presgradF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  dVdsF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  equiF.setZero(r_.nsMaxFi - r_.nsMinFi);
 
   spectral_width.resize(r_.nsMaxF1 - r_.nsMinF1);
   spectral_width.setZero();
-- 
2.43.0


From e4c4a44396ca7a9ab1b5f8ad2bb590a7cef2a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:47 +0000
Subject: [PATCH 30/31] fix: double apostrophes in strings of a Fortran
 namelist

---
 src/vmecpp/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 516f814..6970568 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -261,7 +261,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # Fortran writes an apostrophe inside a string as two
+    value = str(vmecpp_json[varname]).replace("'", "''")
+    return f"  {varname} = '{value}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-- 
2.43.0


From f7e39867325c2b70a528be2960e33c03891fbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 31/31] fix: refuse numbers in a coils file that are only
 partly numeric

---
 .../magnetic_configuration_lib.cc             | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 7ebcfac..06bca82 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -7,6 +7,7 @@
 #include <Eigen/Dense>
 #include <algorithm>
 #include <cctype>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -20,6 +21,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/ascii.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "util/file_io/file_io.h"
@@ -70,16 +72,30 @@ absl::Status ParseCurrentCarriers(
 
     if (num_line_parts == 4 || num_line_parts == 6) {
       // handle first four columns: x, y, z, w
-      x.push_back(std::stod(line_parts[0]));  // x or r
-      y.push_back(std::stod(line_parts[1]));  // y or 0.0
-      z.push_back(std::stod(line_parts[2]));  // z
-      w.push_back(std::stod(line_parts[3]));  // num_windings or 0.0 or current
-                                              // or any product of those
+      double values[4];
+      for (int i = 0; i < 4; ++i) {
+        if (!absl::SimpleAtod(line_parts[i], &values[i]) ||
+            !std::isfinite(values[i])) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse '", line_parts[i], "' on line '",
+                           stripped_line, "' as a number"));
+        }
+      }
+      x.push_back(values[0]);  // x or r
+      y.push_back(values[1]);  // y or 0.0
+      z.push_back(values[2]);  // z
+      w.push_back(values[3]);  // num_windings or 0.0 or current
+                               // or any product of those
 
       if (num_line_parts == 6) {
         // handle six columns: x, y, z, 0.0, serial_circuit_id,
         // current_carrier_name
-        int serial_circuit_id = std::stoi(line_parts[4]);
+        int serial_circuit_id;
+        if (!absl::SimpleAtoi(line_parts[4], &serial_circuit_id)) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse '", line_parts[4], "' on line '",
+                           stripped_line, "' as a circuit ID"));
+        }
         std::string current_carrier_name = line_parts[5];
 
         // find or create target serial circuit based on circuit ID
@@ -184,7 +200,13 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
                       << stripped_line << "'";
         return absl::NotFoundError(error_message.str());
       } else {
-        magnetic_configuration.set_num_field_periods(std::stoi(line_parts[1]));
+        int num_field_periods;
+        if (!absl::SimpleAtoi(line_parts[1], &num_field_periods)) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse '", line_parts[1],
+                           "' as the number of field periods"));
+        }
+        magnetic_configuration.set_num_field_periods(num_field_periods);
       }
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
-- 
2.43.0

