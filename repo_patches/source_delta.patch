From 45c39a82cc7abf3a987092c70ffca27bc15dd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 01/33] fix: translate C++ exceptions on all back-end bindings

---
 src/triumvirate/_fftlog.pxd  |  4 +++-
 src/triumvirate/_field.pxd   |  2 +-
 src/triumvirate/_threept.pyx | 12 ++++++------
 src/triumvirate/_twopt.pyx   | 16 ++++++++--------
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/triumvirate/_fftlog.pxd b/src/triumvirate/_fftlog.pxd
index 355e9d2..1467355 100644
--- a/src/triumvirate/_fftlog.pxd
+++ b/src/triumvirate/_fftlog.pxd
@@ -18,7 +18,9 @@ cdef extern from "include/fftlog.hpp":
         vector[double] pre_sampts
         vector[double] post_sampts
 
-        CppHankelTransform(double mu, double q, bool_t threaded)
+        CppHankelTransform(
+            double mu, double q, bool_t threaded
+        ) except +
 
         void initialise(
             vector[double] sample_pts, double kr_c, bool_t lowring,
diff --git a/src/triumvirate/_field.pxd b/src/triumvirate/_field.pxd
index e25f7b9..ccc7311 100644
--- a/src/triumvirate/_field.pxd
+++ b/src/triumvirate/_field.pxd
@@ -10,7 +10,7 @@ from .parameters cimport CppParameterSet
 
 cdef extern from "include/field.hpp":
     cdef cppclass CppFieldStats "trv::FieldStats":
-        CppFieldStats(CppParameterSet& params, bool_t plan_ini)
+        CppFieldStats(CppParameterSet& params, bool_t plan_ini) except +
 
         BinnedVectors record_binned_vectors(
             CppBinning& binning,
diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..34cbd65 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..e9522f6 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
-- 
2.43.0


From bb9dab1b0577c1cf04b97e643c67eabb372aee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 02/33] fix: keep is_gpu_enabled from throwing in destructors
 on huge TRV_GPU_MAXNUM

---
 src/triumvirate/src/monitor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4bc37a4..26f750c 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -274,7 +274,11 @@ int get_gpu_count(bool sys) {
     std::string gpu_maxnum(env_gpu_maxnum);
     std::regex re_int("^[0-9]+$");
     if (std::regex_match(gpu_maxnum, re_int)) {
-      max_gpus = std::stoi(gpu_maxnum);
+      try {
+        max_gpus = std::stoi(gpu_maxnum);
+      } catch (const std::exception& e) {
+        max_gpus = num_gpus;  // number too large to be a limit
+      }
     }
   }
 
-- 
2.43.0


From 369d6f3de6603e1f6289694eb91283f1b9485dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 03/33] fix: apply contrast and mean-density subtraction to the
 interlaced field

---
 src/triumvirate/src/field.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..70f8999 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1241,6 +1241,16 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+      // this->field_s[gid][1] -= 0.; (unused)
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
@@ -1359,6 +1369,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1486,6 +1506,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From 810d9cc777111dbe8a19c4d61a2e54b7fcde8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 04/33] fix: copy the shape member of ParameterSet

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..3c184c3 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -68,6 +68,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->i_wa = other.i_wa;
   this->j_wa = other.j_wa;
   this->form = other.form;
+  this->shape = other.shape;
   this->norm_convention = other.norm_convention;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
-- 
2.43.0


From 0a15750b1b37ac2d9cae6e7ce908329417e3113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 05/33] fix: compare every component when ordering Multipole
 indices

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From f19518b5e9f2d378dfe8218ed81b5fd713622c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 06/33] fix: read and print the mesh cell count in 64 bits

---
 src/triumvirate/src/parameters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 3c184c3..f3e0935 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -389,7 +389,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
@@ -1295,6 +1295,9 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
+    std::fprintf(ofileptr, fmt, par_val);
+  };
   auto print_par_double = [ofileptr](const char* fmt, double par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
@@ -1316,7 +1319,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
   print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
   print_par_double("expand = %.4f\n", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
-- 
2.43.0


From 99baa1b1bdc57cfc4a79982838fca2464db6e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 07/33] fix: initialise box size and mesh numbers left out of a
 parameter file

---
 src/triumvirate/src/parameters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index f3e0935..07a9ad5 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -114,8 +114,8 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   char catalogue_dataset_[1024] = "";
   char output_tag_[1024] = "";
 
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
 
   char alignment_[16] = "";
   char padscale_[16] = "";
-- 
2.43.0


From 533debb6db703fa73cad5b810e531c074ee1749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 08/33] fix: match parameter names exactly and bound the text
 read into buffers

---
 src/triumvirate/src/parameters.cpp | 92 ++++++++++++++++--------------
 1 file changed, 50 insertions(+), 42 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 07a9ad5..d314387 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -138,7 +138,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
+  char key_str[1024], dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
@@ -147,7 +147,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     if (
       std::sscanf(
         line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
+        key_str, dummy_equal, dummy_str
       ) != 3
     ) {
       continue;
@@ -157,10 +157,10 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     }  // skip non-assignment lines
 
     // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    auto scan_par_str = [&line_str, &key_str, &dummy_str, &dummy_equal](
+      const char* par_name, const char* fmt, char* par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
+      if (std::strcmp(key_str, par_name) == 0) {
         std::sscanf(
           line_str.data(), fmt, dummy_str, dummy_equal, par_value
         );
@@ -169,140 +169,148 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", "%1023s %1023s %1023s", catalogue_dir_);
+    scan_par_str("measurement_dir", "%1023s %1023s %1023s", measurement_dir_);
+    scan_par_str(
+      "data_catalogue_file", "%1023s %1023s %262143s", data_catalogue_file_
+    );
+    scan_par_str(
+      "rand_catalogue_file", "%1023s %1023s %262143s", rand_catalogue_file_
+    );
+    scan_par_str(
+      "catalogue_columns", "%1023s %1023s %1023s", catalogue_columns_
+    );
+    scan_par_str(
+      "catalogue_dataset", "%1023s %1023s %1023s", catalogue_dataset_
+    );
+    scan_par_str("output_tag", "%1023s %1023s %1023s", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
+    if (std::strcmp(key_str, "boxsize_x") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_x
       );
     }
-    if (line_str.find("boxsize_y") != std::string::npos) {
+    if (std::strcmp(key_str, "boxsize_y") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_y
       );
     }
-    if (line_str.find("boxsize_z") != std::string::npos) {
+    if (std::strcmp(key_str, "boxsize_z") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_z
       );
     }
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
+    if (std::strcmp(key_str, "ngrid_x") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_x
       );
     }
-    if (line_str.find("ngrid_y") != std::string::npos) {
+    if (std::strcmp(key_str, "ngrid_y") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_y
       );
     }
-    if (line_str.find("ngrid_z") != std::string::npos) {
+    if (std::strcmp(key_str, "ngrid_z") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
       );
     }
 
-    if (line_str.find("expand") != std::string::npos) {
+    if (std::strcmp(key_str, "expand") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->expand
       );
     }
 
-    scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
-    scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
+    scan_par_str("alignment", "%1023s %1023s %15s", alignment_);
+    scan_par_str("padscale", "%1023s %1023s %15s", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
+    if (std::strcmp(key_str, "padfactor") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->padfactor
       );
     }
 
-    scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
-    scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
+    scan_par_str("assignment", "%1023s %1023s %15s", assignment_);
+    scan_par_str("interlace", "%1023s %1023s %15s", interlace_);
 
     // -- Measurement ----------------------------------------------------
 
-    scan_par_str("catalogue_type", "%1023s %1023s %1023s", catalogue_type_);
-    scan_par_str("statistic_type", "%1023s %1023s %1023s", statistic_type_);
-    scan_par_str("form", "%1023s %1023s %1023s", form_);
-    scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
-    scan_par_str("binning", "%1023s %1023s %1023s", binning_);
+    scan_par_str("catalogue_type", "%1023s %1023s %15s", catalogue_type_);
+    scan_par_str("statistic_type", "%1023s %1023s %15s", statistic_type_);
+    scan_par_str("form", "%1023s %1023s %15s", form_);
+    scan_par_str("norm_convention", "%1023s %1023s %15s", norm_convention_);
+    scan_par_str("binning", "%1023s %1023s %15s", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
+    if (std::strcmp(key_str, "ell1") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell1
       );
     }
-    if (line_str.find("ell2") != std::string::npos) {
+    if (std::strcmp(key_str, "ell2") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell2
       );
     }
-    if (line_str.find("ELL") != std::string::npos) {
+    if (std::strcmp(key_str, "ELL") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ELL
       );
     }
 
-    if (line_str.find("i_wa") != std::string::npos) {
+    if (std::strcmp(key_str, "i_wa") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->i_wa
       );
     }
-    if (line_str.find("j_wa") != std::string::npos) {
+    if (std::strcmp(key_str, "j_wa") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->j_wa
       );
     }
 
-    if (line_str.find("bin_min") != std::string::npos) {
+    if (std::strcmp(key_str, "bin_min") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_min
       );
     }
-    if (line_str.find("bin_max") != std::string::npos) {
+    if (std::strcmp(key_str, "bin_max") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_max
       );
     }
 
-    if (line_str.find("num_bins") != std::string::npos) {
+    if (std::strcmp(key_str, "num_bins") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->num_bins
       );
     }
-    if (line_str.find("idx_bin") != std::string::npos) {
+    if (std::strcmp(key_str, "idx_bin") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->idx_bin
       );
     }
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
+    if (std::strcmp(key_str, "cutoff_nyq") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->cutoff_nyq
@@ -311,14 +319,14 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- Misc -------------------------------------------------------------
 
-    scan_par_str("fftw_scheme", "%1023s %1023s %1023s", fftw_scheme_);
+    scan_par_str("fftw_scheme", "%1023s %1023s %15s", fftw_scheme_);
     scan_par_str("use_fftw_wisdom", "%1023s %1023s %1023s", use_fftw_wisdom_);
     scan_par_str(
       "save_binned_vectors", "%1023s %1023s %1023s", save_binned_vectors_
     );
-    scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
+    scan_par_str("progbar", "%1023s %1023s %15s", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
+    if (std::strcmp(key_str, "verbose") == 0) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->verbose
-- 
2.43.0


From 3e25831894deac418e5193341650cb535b898145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 09/33] fix: print the Nyquist cutoff parameter to file

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index d314387..774f9af 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1357,6 +1357,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
 
   print_par_double("bin_min = %.4f\n", this->bin_min);
   print_par_double("bin_max = %.4f\n", this->bin_max);
+  print_par_double("cutoff_nyq = %.6e\n", this->cutoff_nyq);
   print_par_int("num_bins = %d\n", this->num_bins);
   print_par_int("idx_bin = %d\n", this->idx_bin);
 
-- 
2.43.0


From e16e535248921329c3ee01b8592f5537fa8d84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 10/33] fix: resolve names and arguments in window function
 subselection and convolution matrices

---
 src/triumvirate/winconv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..58e5818 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1182,7 +1182,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1200,7 +1200,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
@@ -2518,7 +2521,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(_k_in_),
+                    base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
@@ -2850,7 +2854,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2875,7 +2879,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 955a32550d6b1134caa36f4896a891c2f866f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 11/33] fix: reject 'mesh-mixed' normalisation without paired
 survey catalogues

---
 src/triumvirate/src/parameters.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 774f9af..d74be03 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -890,6 +890,22 @@ int ParameterSet::validate(bool init) {
       this->npoint.c_str()
     );
   }
+  if (
+    this->norm_convention == "mesh-mixed" && this->catalogue_type != "survey"
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Normalisation convention 'mesh-mixed' only applies to "
+        "'survey' catalogues: `catalogue_type` = '%s'.",
+        this->catalogue_type.c_str()
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Normalisation convention 'mesh-mixed' only applies to "
+      "'survey' catalogues: `catalogue_type` = '%s'.",
+      this->catalogue_type.c_str()
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From ca50e11d1d6215f4748427131ab0810bec65b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 12/33] fix: show option values in Python as validated by the
 backend

Option values are accepted in any letter case (or left unset), but only the
backend copy was normalised; routines comparing the Python copy then matched
no branch.
---
 src/triumvirate/parameters.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..a5567e8 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -496,7 +496,7 @@ cdef class ParameterSet:
 
         if (form_ := self._params.get('form')) is not None:
             self.thisptr.form = form_.lower().encode('utf-8')
-            if form_ in {'off-diag', 'row'} \
+            if form_.lower() in {'off-diag', 'row'} \
                     and self._params.get('idx_bin') is None:
                 raise InvalidParameterError(
                     "`idx_bin` parameter must be set "
@@ -560,6 +560,20 @@ cdef class ParameterSet:
 
         # Fetch validated parameters that have been derived or transmuted.
         # Transmuted I/O paths are not fetched.
+        self._params['alignment'] = self.thisptr.alignment.decode('utf-8')
+        self._params['padscale'] = self.thisptr.padscale.decode('utf-8')
+        self._params['assignment'] = self.thisptr.assignment.decode('utf-8')
+        if self._params.get('catalogue_type') is not None:
+            self._params['catalogue_type'] = \
+                self.thisptr.catalogue_type.decode('utf-8')
+        if self._params.get('statistic_type') is not None:
+            self._params['statistic_type'] = \
+                self.thisptr.statistic_type.decode('utf-8')
+        self._params['form'] = self.thisptr.form.decode('utf-8')
+        self._params['norm_convention'] = \
+            self.thisptr.norm_convention.decode('utf-8')
+        self._params['binning'] = self.thisptr.binning.decode('utf-8')
+
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
-- 
2.43.0


From 4947ed51e78ce4ffe379685edee54fff982b5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 13/33] fix: leave transform inputs and keyword mappings of
 callers unmodified

---
 src/triumvirate/transforms.py | 2 +-
 src/triumvirate/winconv.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..f36202e 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = pre_samples * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 58e5818..1bf165a 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1969,7 +1969,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2478,7 +2478,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From 25cb80c3aaee858284577d368ae2c81a0c535a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 14/33] fix: log to standard loggers without backend-only
 keywords in measurements

---
 src/triumvirate/threept.py | 50 +++++++++++++++-----------------------
 src/triumvirate/twopt.py   | 50 +++++++++++++++-----------------------
 2 files changed, 40 insertions(+), 60 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..4077ec7 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -598,10 +598,9 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 "Preparing catalogue for clustering algorithm...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -615,10 +614,9 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 "... prepared catalogue for clustering algorithm.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -675,12 +673,11 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 statistic_name,
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -696,12 +693,11 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 statistic_name,
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1495,10 +1491,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 "Preparing catalogue for clustering algorithm...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1510,10 +1505,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 "... prepared catalogue for clustering algorithm.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1559,12 +1553,11 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 statistic_name,
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1577,12 +1570,11 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 statistic_name,
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2042,11 +2034,10 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 "from a random catalogue...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2062,11 +2053,10 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 "from a random catalogue.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..028d714 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -521,10 +521,9 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 "Preparing catalogue for clustering algorithm...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -538,10 +537,9 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 "... prepared catalogue for clustering algorithm.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -601,12 +599,11 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 statistic_name,
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -622,12 +619,11 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 statistic_name,
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1051,10 +1047,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 "Preparing catalogue for clustering algorithm...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1066,10 +1061,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 "... prepared catalogue for clustering algorithm.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1115,12 +1109,11 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 statistic_name,
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1133,12 +1126,11 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 statistic_name,
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1526,11 +1518,10 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 "from a random catalogue...",
                 cpp_state='start'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1545,11 +1536,10 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 "from a random catalogue.",
                 cpp_state='end'
             )
-        except AttributeError:
+        except (AttributeError, TypeError):
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 4aec5cc8a64a50ffa35cfbdad7cd1368d7cf8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/33] fix: forward values and level of generic log entries to
 the emitter

---
 src/triumvirate/src/monitor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 26f750c..453d47c 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -375,13 +375,19 @@ void Logger::emit(
 }
 
 void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
-  Logger::log(static_cast<int>(entry_level), fmt_string);
+  char log_mesg_buf[4096];
+  std::va_list args;
+  va_start(args, fmt_string);
+  std::vsnprintf(log_mesg_buf, sizeof(log_mesg_buf), fmt_string, args);
+  va_end(args);
+
+  Logger::log(static_cast<int>(entry_level), "%s", log_mesg_buf);
 }
 
 void Logger::log(int level_entry, const char* fmt_string, ...) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
-    level_entry /= 10;
+    level_entry -= level_entry % 10;
 
     std::string log_type;
 
-- 
2.43.0


From 4094041a37b8afc2a37fdd3fd67307fc5e61bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 16/33] fix: wrap the last cell of interlaced TSC assignment
 periodically

---
 src/triumvirate/src/field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 70f8999..d849667 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -944,8 +944,8 @@ OMP_ATOMIC
         } else {
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
-            ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+            ? 0 : idx_grid + 1;
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From 4f821862f3581d6717cd16ce174aa5b78d4062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 17/33] fix: keep particles at the upper box faces on the mesh

---
 src/triumvirate/src/field.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index d849667..71161dd 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,10 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -689,7 +693,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -753,6 +757,10 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -800,7 +808,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -864,6 +872,10 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -929,7 +941,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1012,6 +1024,10 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
@@ -1067,7 +1083,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 5ddbc32004c5fdece59800d6023000f84ab8ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 18/33] fix: stop at the last bin in full-form bispectrum shot
 noise

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From ff3c44d7a5b0d2ea4c48e72e5110763e836c1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 19/33] fix: follow the binning's number of bins in three-point
 statistics

---
 src/triumvirate/src/threept.cpp | 162 ++++++++++++++++----------------
 1 file changed, 81 insertions(+), 81 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 6a38c39..3fd9b60 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -649,9 +649,9 @@ trv::BispecMeasurements compute_bispec(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
               double k_lower_a = kbinning.bin_edges[idx_row];
               double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -709,9 +709,9 @@ trv::BispecMeasurements compute_bispec(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               double k_lower_a = kbinning.bin_edges[idx_row];
@@ -847,12 +847,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
               }
@@ -860,13 +860,13 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+              for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -920,12 +920,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "full") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
               }
@@ -933,12 +933,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "triu") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
               for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -1263,9 +1263,9 @@ trv::ThreePCFMeasurements compute_3pcf(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = idx_row * params.num_bins + idx_row;
+            int idx_dv = idx_row * rbinning.num_bins + idx_row;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -1274,9 +1274,9 @@ trv::ThreePCFMeasurements compute_3pcf(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+            int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -1334,9 +1334,9 @@ trv::ThreePCFMeasurements compute_3pcf(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
                 r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -1349,10 +1349,10 @@ trv::ThreePCFMeasurements compute_3pcf(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -1847,9 +1847,9 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
       }
 
       if (params.shape == "full") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-            int idx_dv = idx_row * params.num_bins + idx_col;
+        for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+            int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
             double k_lower_a = kbinning.bin_edges[idx_row];
             double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -1907,9 +1907,9 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
       }
 
       if (params.shape == "triu") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-          for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+        for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+          for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+            int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
               + (idx_col - idx_row);
 
             double k_lower_a = kbinning.bin_edges[idx_row];
@@ -2027,12 +2027,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
             std::complex<double> S_i_jk_row_ = coupling * (
               stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
             );
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
             }
@@ -2040,12 +2040,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
             std::complex<double> S_i_jk_row_ = coupling * (
               stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
             );
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
               sn_dv[idx_dv] +=
                 S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -2096,12 +2096,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
             }
@@ -2109,12 +2109,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
             for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2415,9 +2415,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       }
 
       if (params.shape == "full") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+        for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
-          int idx_dv = idx_row * params.num_bins + idx_row;
+          int idx_dv = idx_row * rbinning.num_bins + idx_row;
           sn_dv[idx_dv] += coupling * factor_parity * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2426,9 +2426,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       }
 
       if (params.shape == "triu") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+        for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
-          int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+          int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
           sn_dv[idx_dv] += coupling * factor_parity * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2486,9 +2486,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
               r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
               r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -2501,9 +2501,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++) {
+              int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -2864,9 +2864,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = idx_row * params.num_bins + idx_row;
+            int idx_dv = idx_row * rbinning.num_bins + idx_row;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2875,9 +2875,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+            int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2934,9 +2934,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
                 r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -2949,10 +2949,10 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -3522,9 +3522,9 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
               double k_lower_a = kbinning.bin_edges[idx_row];
               double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -3582,9 +3582,9 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               double k_lower_a = kbinning.bin_edges[idx_row];
@@ -3798,12 +3798,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
               }
@@ -3811,13 +3811,13 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+              for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -3872,12 +3872,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "full") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
               }
@@ -3885,12 +3885,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "triu") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
               for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 63446125e355b3c916696ea1d5bebc9f78a247b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 20/33] fix: return a zero field for bands without wavevector
 modes

---
 src/triumvirate/src/field.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 71161dd..1abb53e 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1939,6 +1939,12 @@ void MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited(
   }
   trvs::count_ifft += 1;
 
+  // Return the zero field at the band centre if it contains no modes.
+  if (nmodes == 0) {
+    k_eff = (k_lower + k_upper) / 2.;
+    return;
+  }
+
   // Average over wavevector modes in the band.
 #ifdef TRV_USE_OMP
 #pragma omp parallel for simd
-- 
2.43.0


From c4bcc47678f7cd187cbcb9bfc1cb9a2a4328f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 21/33] fix: keep output tags containing dots in measurement
 file names

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 4077ec7..5bdb121 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -716,14 +716,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1593,14 +1593,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2075,14 +2075,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 028d714..438bb6d 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -641,14 +641,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1148,14 +1148,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1557,14 +1557,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 9cf67952d304a9513286bcbff197fc4609072e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 22/33] fix: name wide-angle window three-point output as such

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 5bdb121..95c6937 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1934,7 +1934,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From c32500528148c96d20a7ed40a00f14fba47b83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 23/33] fix: reject catalogues with missing columns or entries

---
 src/triumvirate/src/particles.cpp | 89 +++++++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..3989f23 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -91,6 +91,71 @@ PURE ParticleData& ParticleCatalogue::operator[](const int pid) {
 // Data I/O
 // ***********************************************************************
 
+/**
+ * @brief Check that the position columns are present in a catalogue.
+ *
+ * @param name_indices Indices of the catalogue columns, with the first
+ *                     three being the position columns.
+ * @param catalogue_filepath Catalogue file path.
+ * @returns Minimum number of entries in each row of the catalogue.
+ *
+ * @throws trv::sys::InvalidDataError When a position column is missing.
+ */
+static std::size_t _require_columns(
+  const std::vector<int>& name_indices, const std::string& catalogue_filepath
+) {
+  std::size_t min_entries = 0;
+  for (std::size_t iname = 0; iname < name_indices.size(); iname++) {
+    if (name_indices[iname] < 0) {
+      if (iname < 3) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Missing position column(s) in catalogue: %s",
+            catalogue_filepath.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Missing position column(s) in catalogue: %s",
+          catalogue_filepath.c_str()
+        );
+      }
+      continue;
+    }
+    min_entries = std::max(
+      min_entries, static_cast<std::size_t>(name_indices[iname]) + 1
+    );
+  }
+
+  return min_entries;
+}
+
+/**
+ * @brief Check that a catalogue row contains all the columns needed.
+ *
+ * @param row Row entries.
+ * @param min_entries Minimum number of entries.
+ * @param catalogue_filepath Catalogue file path.
+ *
+ * @throws trv::sys::InvalidDataError When there are too few numeric entries.
+ */
+static void _require_entries(
+  const std::vector<double>& row, std::size_t min_entries,
+  const std::string& catalogue_filepath
+) {
+  if (row.size() < min_entries) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Missing or non-numeric entries in catalogue: %s",
+        catalogue_filepath.c_str()
+      );
+    }
+    throw trvs::InvalidDataError(
+      "Missing or non-numeric entries in catalogue: %s",
+      catalogue_filepath.c_str()
+    );
+  }
+}
+
 int ParticleCatalogue::load_catalogue_file(
   const std::string& catalogue_filepath,
   const std::string& catalogue_columns,
@@ -321,6 +386,10 @@ int ParticleCatalogue::load_catalogue_file(
         nentry += num_rows;
       }
 
+      std::size_t min_entries = _require_columns(
+        name_indices, catalogue_filepath
+      );
+
       // Initialise particle data.
       this->initialise_particles(nentry);
 
@@ -344,6 +413,8 @@ int ParticleCatalogue::load_catalogue_file(
       int idx_row = 0;    // current row number
       double nz, ws, wc;  // placeholder variables
       for (const auto& row : ctlg_data) {
+        _require_entries(row, min_entries, catalogue_filepath);
+
         this->pdata[idx_row].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_row].pos[1] = row[name_indices[1]];  // y
         this->pdata[idx_row].pos[2] = row[name_indices[2]];  // z
@@ -381,6 +452,10 @@ int ParticleCatalogue::load_catalogue_file(
     }
 #endif  // TRV_USE_H5
   } else {
+    std::size_t min_entries = _require_columns(
+      name_indices, catalogue_filepath
+    );
+
     int nentry = 0;
     for (const auto& ctlg_subfilepath : catalogue_subfilepaths) {
       std::ifstream fin;
@@ -443,6 +518,18 @@ int ParticleCatalogue::load_catalogue_file(
       std::ifstream fin;
       fin.open(ctlg_subfilepath.c_str(), std::ios::in);
 
+      if (fin.fail()) {
+        fin.close();
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Failed to open file: %s", ctlg_subfilepath.c_str()
+          );
+        }
+        throw trvs::IOError(
+          "Failed to open file: %s", ctlg_subfilepath.c_str()
+        );
+      }
+
       double nz, ws, wc;  // placeholder variables
       double entry;       // data entry (per column per row)
       while (std::getline(fin, entry_str)) {
@@ -461,6 +548,8 @@ int ParticleCatalogue::load_catalogue_file(
         );
         while (ss >> entry) {row.push_back(entry);}
 
+        _require_entries(row, min_entries, ctlg_subfilepath);
+
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_entry].pos[1] = row[name_indices[1]];  // y
-- 
2.43.0


From c1b7d848b3aed859a7fa1907947888ba75cbb9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 24/33] fix: report parameter and measurement files that cannot
 be opened or written

---
 src/triumvirate/main/triumvirate.cpp | 109 +++++++++++++++++++++------
 src/triumvirate/src/parameters.cpp   |  22 +++++-
 2 files changed, 106 insertions(+), 25 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..236abe8 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -98,6 +98,52 @@ void _set_custom_bins(trv::Binning& _binning) {
   _binning.bin_edges.push_back(_binning.bin_max);
 }
 
+/**
+ * @brief Create a directory for output or exit if that fails.
+ *
+ * @param dirpath Directory path.
+ */
+static void _prepare_write_dir(const std::string& dirpath) {
+  try {
+    trv::sys::make_write_dir(dirpath);
+  } catch (const trv::sys::IOError& err) {
+    trv::sys::exit_fatal(
+      "Failed to initialise program: unwritable output directory."
+    );
+  }
+}
+
+/**
+ * @brief Open a measurement file to write or exit if that fails.
+ *
+ * @param filepath Measurement file path.
+ * @returns Open file.
+ */
+static std::FILE* _open_save_file(const char* filepath) {
+  std::FILE* fileptr = std::fopen(filepath, "w");
+  if (fileptr == nullptr) {
+    trv::sys::logger.error(
+      "Non-existent or unwritable measurement file: %s", filepath
+    );
+    trv::sys::exit_fatal("Failed to save measurements.");
+  }
+  return fileptr;
+}
+
+/**
+ * @brief Close a measurement file or exit if any write to it has failed.
+ *
+ * @param fileptr Open file.
+ * @param filepath Measurement file path.
+ */
+static void _close_save_file(std::FILE* fileptr, const char* filepath) {
+  bool write_failed = std::ferror(fileptr) != 0;
+  if (std::fclose(fileptr) != 0 || write_failed) {
+    trv::sys::logger.error("Failed to write measurement file: %s", filepath);
+    trv::sys::exit_fatal("Failed to save measurements.");
+  }
+}
+
 /**
  * @brief A 'black-box' program for measuring two- and three-point
  *        clustering statistics.
@@ -172,6 +218,8 @@ int main(int argc, char* argv[]) {
   int exit_code = 0;
   try {
     exit_code = params.read_from_file(argv[1]);
+  } catch (const trv::sys::IOError& err) {
+    exit_code = 1;
   } catch (const trv::sys::InvalidParameterError& err) {
     exit_code = 1;
   }
@@ -185,8 +233,13 @@ int main(int argc, char* argv[]) {
 
   trv::override_paramset_by_envvars(params);
 
-  trv::sys::make_write_dir(params.measurement_dir);
-  if (params.print_to_file()) {
+  _prepare_write_dir(params.measurement_dir);
+  try {
+    exit_code = params.print_to_file();
+  } catch (const trv::sys::IOError& err) {
+    exit_code = 1;
+  }
+  if (exit_code != 0) {
     if (trv::sys::currTask == 0) {
       trv::sys::logger.warn(
         "Failed to print used parameters to file "
@@ -236,6 +289,8 @@ int main(int argc, char* argv[]) {
       );
     } catch (const trv::sys::IOError& err) {
       exit_code = 1;
+    } catch (const trv::sys::InvalidDataError& err) {
+      exit_code = 1;
     }
     if (exit_code != 0) {
       if (trv::sys::currTask == 0) {
@@ -273,6 +328,8 @@ int main(int argc, char* argv[]) {
       );
     } catch (const trv::sys::IOError& err) {
       exit_code = 1;
+    } catch (const trv::sys::InvalidDataError& err) {
+      exit_code = 1;
     }
     if (exit_code != 0) {
       if (trv::sys::currTask == 0) {
@@ -292,7 +349,7 @@ int main(int argc, char* argv[]) {
   }
 
   if (params.use_fftw_wisdom != "") {
-    trv::sys::make_write_dir(params.use_fftw_wisdom);
+    _prepare_write_dir(params.use_fftw_wisdom);
   }
 
   // =====================================================================
@@ -607,7 +664,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -617,7 +674,7 @@ int main(int argc, char* argv[]) {
       meas_powspec = trv::compute_powspec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -626,7 +683,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_powspec
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf") {
     std::snprintf(
@@ -640,7 +697,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -650,7 +707,7 @@ int main(int argc, char* argv[]) {
       meas_2pcf = trv::compute_corrfunc_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -659,7 +716,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf-win") {
     std::snprintf(
@@ -670,7 +727,7 @@ int main(int argc, char* argv[]) {
     trv::TwoPCFWindowMeasurements meas_2pcf_win = trv::compute_corrfunc_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor
     );  // two-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -678,7 +735,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf_win
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "bispec") {
     if (params.form == "full" || params.form == "diag") {
@@ -713,7 +770,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -723,7 +780,7 @@ int main(int argc, char* argv[]) {
       meas_bispec = trv::compute_bispec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -732,7 +789,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_bispec
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf") {
     if (params.form == "full" || params.form == "diag") {
@@ -767,7 +824,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -777,7 +834,7 @@ int main(int argc, char* argv[]) {
       meas_3pcf = trv::compute_3pcf_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -786,7 +843,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win") {
     if (params.form == "full" || params.form == "diag") {
@@ -819,7 +876,7 @@ int main(int argc, char* argv[]) {
     trv::ThreePCFWindowMeasurements meas_3pcf_win = trv::compute_3pcf_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
     );  // three-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -827,7 +884,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win-wa") {
     if (params.form == "full" || params.form == "diag") {
@@ -865,7 +922,7 @@ int main(int argc, char* argv[]) {
       trv::compute_3pcf_window(
         catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
       );  // three-point correlation function window wide-angle corrections
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -873,14 +930,18 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win_wa
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   }
 
   if (params.save_binned_vectors != "") {
     trv::FieldStats binning_meshgrid(params, false);
-    trv::BinnedVectors binned_vectors = binning_meshgrid.record_binned_vectors(
-      binning, params.save_binned_vectors
-    );
+    try {
+      binning_meshgrid.record_binned_vectors(
+        binning, params.save_binned_vectors
+      );
+    } catch (const trv::sys::IOError& err) {
+      trv::sys::exit_fatal("Failed to save binned vectors.");
+    }
     if (params.statistic_type == "modes" || params.statistic_type == "pairs") {
       std::snprintf(
         save_filepath, sizeof(save_filepath), "%s",
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index d74be03..548db23 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -101,6 +101,16 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   std::string param_filepath = parameter_filepath;
 
   std::ifstream fin(param_filepath.c_str());
+  if (fin.fail()) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Failed to open parameter file: %s", param_filepath.c_str()
+      );
+    }
+    throw trvs::IOError(
+      "Failed to open parameter file: %s", param_filepath.c_str()
+    );
+  }
 
   // Initialise temporary variables to hold the extracted parameters.
   // NOTE: Assume file systems allow path character lengths up to 4096,
@@ -1386,7 +1396,17 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("verbose = %d\n", this->verbose);
   print_par_int("fftw_planner_flag = %d\n", this->fftw_planner_flag);
 
-  std::fclose(ofileptr);
+  bool write_failed = std::ferror(ofileptr) != 0;
+  if (std::fclose(ofileptr) != 0 || write_failed) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Failed to write used-parameter file: %s", out_parameter_filepath
+      );
+    }
+    throw trvs::IOError(
+      "Failed to write used-parameter file: %s", out_parameter_filepath
+    );
+  }
 
   if (trvs::currTask == 0) {
     trvs::logger.info(
-- 
2.43.0


From 2673cf975422db5be614d819709d74b893a58658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 25/33] fix: report binned-vector files that cannot be written

---
 src/triumvirate/src/field.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 1abb53e..7aede80 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2537,10 +2537,32 @@ OMP_CRITICAL
   // Save the binned vectors.
   if (save_file != "") {
     std::FILE* save_fileptr = std::fopen(save_file.c_str(), "w");
+    if (save_fileptr == nullptr) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Non-existent or unwritable binned-vectors file: %s",
+          save_file.c_str()
+        );
+      }
+      throw trvs::IOError(
+        "Non-existent or unwritable binned-vectors file: %s",
+        save_file.c_str()
+      );
+    }
     trv::io::print_binned_vectors_to_file(
       save_fileptr, this->params, binned_vectors_sorted
     );
-    std::fclose(save_fileptr);
+    bool write_failed = std::ferror(save_fileptr) != 0;
+    if (std::fclose(save_fileptr) != 0 || write_failed) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Failed to write binned-vectors file: %s", save_file.c_str()
+        );
+      }
+      throw trvs::IOError(
+        "Failed to write binned-vectors file: %s", save_file.c_str()
+      );
+    }
 
     if (trvs::currTask == 0) {
       trvs::logger.info(
-- 
2.43.0


From ac3d6e234d5ad13101a3043dabf55a0e4c809b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 26/33] fix: report FFTW wisdom as imported or exported only
 when it is

---
 src/triumvirate/src/field.cpp | 86 ++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 7aede80..c111308 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -156,15 +156,25 @@ MeshField::MeshField(
     }
 
     if (import_fftw_wisdom_f) {
-      fftw_import_wisdom_from_filename(
-        this->params.fftw_wisdom_file_f.c_str()
-      );
-      trv::sys::fftw_wisdom_f_imported = true;
-      if (trvs::currTask == 0) {
-        trvs::logger.info(
-          "FFTW wisdom file for forward transforms has been imported: %s",
+      if (
+        fftw_import_wisdom_from_filename(
           this->params.fftw_wisdom_file_f.c_str()
-        );
+        ) != 0
+      ) {
+        trv::sys::fftw_wisdom_f_imported = true;
+        if (trvs::currTask == 0) {
+          trvs::logger.info(
+            "FFTW wisdom file for forward transforms has been imported: %s",
+            this->params.fftw_wisdom_file_f.c_str()
+          );
+        }
+      } else {
+        if (trvs::currTask == 0) {
+          trvs::logger.warn(
+            "FFTW wisdom file for forward transforms cannot be imported: %s",
+            this->params.fftw_wisdom_file_f.c_str()
+          );
+        }
       }
     }
 
@@ -268,28 +278,45 @@ MeshField::MeshField(
     }
 
     if (export_fftw_wisdom_f) {
-      fftw_export_wisdom_to_filename(
+      int exported_f = fftw_export_wisdom_to_filename(
         this->params.fftw_wisdom_file_f.c_str()
       );
       if (trvs::currTask == 0) {
-        trvs::logger.info(
-          "FFTW wisdom file for forward transforms has been exported: %s",
-          this->params.fftw_wisdom_file_f.c_str()
-        );
+        if (exported_f != 0) {
+          trvs::logger.info(
+            "FFTW wisdom file for forward transforms has been exported: %s",
+            this->params.fftw_wisdom_file_f.c_str()
+          );
+        } else {
+          trvs::logger.warn(
+            "FFTW wisdom file for forward transforms cannot be exported: %s",
+            this->params.fftw_wisdom_file_f.c_str()
+          );
+        }
       }
       trv::sys::fftw_wisdom_f_imported = true;
     }
 
     if (import_fftw_wisdom_b) {
-      fftw_import_wisdom_from_filename(
-        this->params.fftw_wisdom_file_b.c_str()
-      );
-      trv::sys::fftw_wisdom_b_imported = true;
-      if (trvs::currTask == 0) {
-        trvs::logger.info(
-          "FFTW wisdom file for backward transforms has been imported: %s",
+      if (
+        fftw_import_wisdom_from_filename(
           this->params.fftw_wisdom_file_b.c_str()
-        );
+        ) != 0
+      ) {
+        trv::sys::fftw_wisdom_b_imported = true;
+        if (trvs::currTask == 0) {
+          trvs::logger.info(
+            "FFTW wisdom file for backward transforms has been imported: %s",
+            this->params.fftw_wisdom_file_b.c_str()
+          );
+        }
+      } else {
+        if (trvs::currTask == 0) {
+          trvs::logger.warn(
+            "FFTW wisdom file for backward transforms cannot be imported: %s",
+            this->params.fftw_wisdom_file_b.c_str()
+          );
+        }
       }
     }
 
@@ -321,14 +348,21 @@ MeshField::MeshField(
     }
 
     if (export_fftw_wisdom_b) {
-      fftw_export_wisdom_to_filename(
+      int exported_b = fftw_export_wisdom_to_filename(
         this->params.fftw_wisdom_file_b.c_str()
       );
       if (trvs::currTask == 0) {
-        trvs::logger.info(
-          "FFTW wisdom file for backward transforms has been exported: %s",
-          this->params.fftw_wisdom_file_b.c_str()
-        );
+        if (exported_b != 0) {
+          trvs::logger.info(
+            "FFTW wisdom file for backward transforms has been exported: %s",
+            this->params.fftw_wisdom_file_b.c_str()
+          );
+        } else {
+          trvs::logger.warn(
+            "FFTW wisdom file for backward transforms cannot be exported: %s",
+            this->params.fftw_wisdom_file_b.c_str()
+          );
+        }
       }
       trv::sys::fftw_wisdom_b_imported = true;
     }
-- 
2.43.0


From e9a050d4807d11a0a7719ae27bad1804450ff05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 27/33] fix: report empty catalogues instead of terminating

---
 src/triumvirate/main/triumvirate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 236abe8..c8a2659 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -291,6 +291,8 @@ int main(int argc, char* argv[]) {
       exit_code = 1;
     } catch (const trv::sys::InvalidDataError& err) {
       exit_code = 1;
+    } catch (const trv::sys::InvalidParameterError& err) {
+      exit_code = 1;
     }
     if (exit_code != 0) {
       if (trv::sys::currTask == 0) {
@@ -330,6 +332,8 @@ int main(int argc, char* argv[]) {
       exit_code = 1;
     } catch (const trv::sys::InvalidDataError& err) {
       exit_code = 1;
+    } catch (const trv::sys::InvalidParameterError& err) {
+      exit_code = 1;
     }
     if (exit_code != 0) {
       if (trv::sys::currTask == 0) {
-- 
2.43.0


From 11a78d35ed172de36c18a7e1a810b1dd241126de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 28/33] fix: leave bins unchanged when new bins are rejected

Bin setters modified the range and cleared the bins before rejecting the
scheme or range, leaving a binning with a number of bins but no edges, and
padded schemes with no more bins than the padding produced more bins than
their number.  A binning without bins also held indeterminate numbers.
---
 src/triumvirate/include/dataobjs.hpp |  6 ++--
 src/triumvirate/src/dataobjs.cpp     | 43 ++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/triumvirate/include/dataobjs.hpp b/src/triumvirate/include/dataobjs.hpp
index 3e63e50..23b7fd5 100644
--- a/src/triumvirate/include/dataobjs.hpp
+++ b/src/triumvirate/include/dataobjs.hpp
@@ -59,9 +59,9 @@ class Binning {
  public:
   std::string space;                ///< coordinate space
   std::string scheme;               ///< binning scheme
-  double bin_min;                   ///< lowest bin edge
-  double bin_max;                   ///< highest bin edge
-  int num_bins;                     ///< number of bins
+  double bin_min = 0.;              ///< lowest bin edge
+  double bin_max = 0.;              ///< highest bin edge
+  int num_bins = 0;                 ///< number of bins
   std::vector<double> bin_edges;    ///< bin edges
   std::vector<double> bin_centres;  ///< bin centres
   std::vector<double> bin_widths;   ///< bin widths
diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..598a4f9 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -67,20 +67,30 @@ void Binning::set_bins(double coord_min, double coord_max, int nbin) {
     );
   }
 
-  this->bin_min = coord_min;
-  this->bin_max = coord_max;
-  this->num_bins = nbin;
+  // Work on a copy so that bins are unchanged if the new ones are rejected.
+  trv::Binning binning(*this);
 
-  this->set_bins();
+  binning.bin_min = coord_min;
+  binning.bin_max = coord_max;
+  binning.num_bins = nbin;
+
+  binning.set_bins();
+
+  *this = binning;
 }
 
 void Binning::set_bins() {
+  // Work on a copy so that bins are unchanged if the new ones are rejected.
+  trv::Binning binning(*this);
+
   // Reset vector attributes.
-  this->bin_edges.clear();
-  this->bin_centres.clear();
-  this->bin_widths.clear();
+  binning.bin_edges.clear();
+  binning.bin_centres.clear();
+  binning.bin_widths.clear();
 
-  this->compute_binning();
+  binning.compute_binning();
+
+  *this = binning;
 }
 
 void Binning::set_bins(double boxsize_max, int ngrid_min) {
@@ -110,6 +120,12 @@ void Binning::set_bins(double boxsize_max, int ngrid_min) {
 }
 
 void Binning::set_bins(std::vector<double> bin_edges) {
+  if (bin_edges.size() < 2) {
+    throw trvs::InvalidParameterError(
+      "Custom bins must have at least two edges."
+    );
+  }
+
   this->bin_min = bin_edges.front();
   this->bin_max = bin_edges.back();
   this->num_bins = bin_edges.size() - 1;
@@ -141,6 +157,17 @@ void Binning::compute_binning() {
     dbin_pad = this->dbin_pad_config;
   }
 
+  // Padded schemes need at least one bin beyond the padding.
+  if (
+    (this->scheme == "linpad" || this->scheme == "logpad")
+    && this->num_bins <= this->nbin_pad
+  ) {
+    throw trvs::InvalidParameterError(
+      "Number of bins must be greater than %d for padded binning.",
+      this->nbin_pad
+    );
+  }
+
   // Implement binning scheme.
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From 26c27cd9ba8285e270353d4950f92060b4917584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 29/33] fix: refresh all binning attributes from the backend

The Python binning changed its visible range before the backend accepted
it, so that a rejected call mixed two settings; an incomplete range at
construction was shown but not held by the backend.
---
 src/triumvirate/dataobjs.pxd |  1 +
 src/triumvirate/dataobjs.pyx | 51 ++++++++++++++++--------------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/triumvirate/dataobjs.pxd b/src/triumvirate/dataobjs.pxd
index 844dc51..da08359 100644
--- a/src/triumvirate/dataobjs.pxd
+++ b/src/triumvirate/dataobjs.pxd
@@ -28,6 +28,7 @@ cdef extern from "include/dataobjs.hpp":
 
         void set_bins(double bin_min, double bin_max, int nbins) except +
         void set_bins(double boxsize_max, int ngrid_min) except +
+        void set_bins(vector[double] bin_edges) except +
 
 
     # --------------------------------------------------------------------
diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 40e614e..5c94cdd 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -10,6 +10,8 @@ Define data objects.
 """
 import numpy as np
 
+from libcpp.vector cimport vector
+
 from .dataobjs cimport CppBinning
 
 
@@ -75,14 +77,17 @@ cdef class Binning:
         _settable = True
         if bin_min is not None:
             self.bin_min = bin_min
+            self.thisptr.bin_min = self.bin_min
         else:
             _settable = False
         if bin_max is not None:
             self.bin_max = bin_max
+            self.thisptr.bin_max = self.bin_max
         else:
             _settable = False
         if num_bins is not None:
             self.num_bins = num_bins
+            self.thisptr.num_bins = self.num_bins
         else:
             _settable = False
 
@@ -150,14 +155,9 @@ cdef class Binning:
             Number of bins.
 
         """
-        self.bin_min, self.bin_max = bin_min, bin_max
-        self.num_bins = num_bins
-
-        self.thisptr.set_bins(self.bin_min, self.bin_max, self.num_bins)
+        self.thisptr.set_bins(bin_min, bin_max, num_bins)
 
-        self.bin_edges = self.thisptr.bin_edges
-        self.bin_centres = self.thisptr.bin_centres
-        self.bin_widths = self.thisptr.bin_widths
+        self._refresh()
 
     def set_grid_based_bins(self, boxsize, ngrid):
         """Set linear binning based on a mesh grid.
@@ -181,12 +181,7 @@ cdef class Binning:
 
         self.thisptr.set_bins(boxsize, ngrid)
 
-        self.bin_min, self.bin_max = self.thisptr.bin_min, self.thisptr.bin_max
-        self.num_bins = self.thisptr.num_bins
-        self.bin_edges = self.thisptr.bin_edges
-        self.bin_centres = self.thisptr.bin_centres
-        self.bin_widths = self.thisptr.bin_widths
-        self.scheme = self.thisptr.scheme
+        self._refresh()
 
     def set_custom_bins(self, bin_edges):
         """Set customised binning using bin edges.
@@ -201,22 +196,20 @@ cdef class Binning:
             Bin edges of length (:attr:`num_bins` + 1).
 
         """
-        self.bin_min, self.bin_max = bin_edges[0], bin_edges[-1]
-        self.num_bins = len(bin_edges) - 1
-
-        self.bin_edges = np.array(bin_edges)
-        self.bin_centres = np.add(bin_edges[:-1], bin_edges[1:]) / 2.
-        self.bin_widths = np.subtract(bin_edges[1:], bin_edges[:-1])
-
-        self.scheme = 'custom'
-
-        self.thisptr.bin_min = self.bin_min
-        self.thisptr.bin_max = self.bin_max
-        self.thisptr.num_bins = self.num_bins
-        self.thisptr.bin_edges = self.bin_edges
-        self.thisptr.bin_centres = self.bin_centres
-        self.thisptr.bin_widths = self.bin_widths
-        self.thisptr.scheme = self.scheme.encode('utf-8')
+        self.thisptr.set_bins(<vector[double]>bin_edges)
+
+        self._refresh()
+
+    def _refresh(self):
+        """Refresh the attributes with those held by the backend.
+
+        """
+        self.scheme = self.thisptr.scheme
+        self.bin_min, self.bin_max = self.thisptr.bin_min, self.thisptr.bin_max
+        self.num_bins = self.thisptr.num_bins
+        self.bin_edges = self.thisptr.bin_edges
+        self.bin_centres = self.thisptr.bin_centres
+        self.bin_widths = self.thisptr.bin_widths
 
 
 # NOTE: Remove docstrings from Cython pseudo special functions.
-- 
2.43.0


From f2b12bbec24a125abbd92dc5627ed3d97c9c33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 30/33] fix: allocate the two-point mesh of field statistics
 made without a plan

---
 src/triumvirate/include/field.hpp |  6 +++++
 src/triumvirate/src/field.cpp     | 37 +++++++++++++++++++------------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/include/field.hpp b/src/triumvirate/include/field.hpp
index a37b91d..8749d5e 100644
--- a/src/triumvirate/include/field.hpp
+++ b/src/triumvirate/include/field.hpp
@@ -936,6 +936,12 @@ class FieldStats {
     int i, int j, int k, int order
   );
 
+  /**
+   * @brief Allocate the mesh for pseudo-two-point statistics if it has
+   *        not been allocated.
+   */
+  void prepare_twopt_mesh();
+
   /**
    * Compute the shot-noise aliasing function.
    *
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index c111308..e84067e 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2180,7 +2180,7 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
 
   // Set up FFTW plans.
   if (plan_ini) {
-    this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+    this->prepare_twopt_mesh();
 #ifdef TRV_USE_HIP
     if (trvs::is_gpu_enabled()) {
       HIP_EXEC(hipMalloc(
@@ -2192,12 +2192,6 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
     }
 #endif  // TRV_USE_HIP
 
-    trvs::count_cgrid += 1;
-    trvs::count_grid += 1;
-    trvs::update_maxcntgrid();
-    trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(this->params.nmesh);
-    trvs::update_maxmem();
-
 #if defined(TRV_USE_OMP) && defined(TRV_USE_FFTWOMP)
     fftw_plan_with_nthreads(omp_get_max_threads());
 #endif  // TRV_USE_OMP && TRV_USE_FFTWOMP
@@ -2320,17 +2314,29 @@ FieldStats::~FieldStats() {
     } else {
       fftw_destroy_plan(this->inv_transform);
     }
+  }
 
-    if (this->twopt_3d != nullptr) {
-      fftw_free(this->twopt_3d);
-      this->twopt_3d = nullptr;
-      trvs::count_cgrid -= 1;
-      trvs::count_grid -= 1;
-      trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
-    }
+  if (this->twopt_3d != nullptr) {
+    fftw_free(this->twopt_3d);
+    this->twopt_3d = nullptr;
+    trvs::count_cgrid -= 1;
+    trvs::count_grid -= 1;
+    trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
   }
 }
 
+void FieldStats::prepare_twopt_mesh() {
+  if (this->twopt_3d != nullptr) {return;}
+
+  this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+
+  trvs::count_cgrid += 1;
+  trvs::count_grid += 1;
+  trvs::update_maxcntgrid();
+  trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(this->params.nmesh);
+  trvs::update_maxmem();
+}
+
 void FieldStats::reset_stats() {
   std::fill(this->nmodes.begin(), this->nmodes.end(), 0);
   std::fill(this->npairs.begin(), this->npairs.end(), 0);
@@ -2833,6 +2839,7 @@ void FieldStats::compute_ylm_wgtd_2pt_stats_in_config(
     field_a.get_grid_pos_vector(i, j, k, rvec);
   };
 
+  this->prepare_twopt_mesh();
   this->compute_shotnoise_aliasing();
 
   std::function<double(int, int, int)> calc_shotnoise_aliasing = [this](
@@ -3082,6 +3089,7 @@ void FieldStats::compute_uncoupled_shotnoise_for_3pcf(
     field_a.get_grid_pos_vector(i, j, k, rvec);
   };
 
+  this->prepare_twopt_mesh();
   this->compute_shotnoise_aliasing();
 
   std::function<double(int, int, int)> calc_shotnoise_aliasing = [this](
@@ -3337,6 +3345,7 @@ FieldStats::compute_uncoupled_shotnoise_for_bispec_per_bin(
     field_a.get_grid_pos_vector(i, j, k, rvec);
   };
 
+  this->prepare_twopt_mesh();
   this->compute_shotnoise_aliasing();
 
   std::function<double(int, int, int)> calc_shotnoise_aliasing = [this](
-- 
2.43.0


From 47744acd34026317814da1db6cbaa55cf9e60a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:55 +0000
Subject: [PATCH 31/33] fix: make log timestamps safe in parallel regions

---
 src/triumvirate/src/monitor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 453d47c..2012632 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -191,15 +191,17 @@ std::string show_current_datetime(bool utc) {
   auto now = std::chrono::system_clock::now();
   auto timenow = std::chrono::system_clock::to_time_t(now);
 
-  // Format timestamp.
+  // Format timestamp (thread-safely, as parallel regions may log messages).
   char buffer[21];
+  std::tm tm_now;
   if (utc) {
     std::strftime(
-      buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", std::gmtime(&timenow)
+      buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", gmtime_r(&timenow, &tm_now)
     );
   } else {
     std::strftime(
-      buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", std::localtime(&timenow)
+      buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S",
+      localtime_r(&timenow, &tm_now)
     );
   };
 
-- 
2.43.0


From d4818fe06a8070b6a068808a232723ddf8887735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 32/33] fix: keep visible and backend parameters in step when
 any is derived or unset

---
 src/triumvirate/parameters.pyx | 17 ++++++++++++++---
 src/triumvirate/threept.py     | 12 ++++++------
 src/triumvirate/twopt.py       | 12 ++++++------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index a5567e8..6b1f14d 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -131,7 +132,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
@@ -304,6 +305,10 @@ cdef class ParameterSet:
         # Parsing
         # ----------------------------------------------------------------
 
+        # Discard previously parsed values as any of them may now be unset.
+        del self.thisptr
+        self.thisptr = new CppParameterSet()
+
         # -- I/O ---------------------------------------------------------
 
         # Directories, files and tags default to empty if unset.
@@ -478,8 +483,6 @@ cdef class ParameterSet:
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -574,6 +577,14 @@ cdef class ParameterSet:
             self.thisptr.norm_convention.decode('utf-8')
         self._params['binning'] = self.thisptr.binning.decode('utf-8')
 
+        # The grid cell numbers may have been derived from the Nyquist cutoff.
+        if self.thisptr.nmesh > 0:
+            self._params['ngrid'] = dict(zip(
+                ['x', 'y', 'z'], self.thisptr.ngrid
+            ))
+        self._params['volume'] = self.thisptr.volume
+        self._params['nmesh'] = self.thisptr.nmesh
+
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 95c6937..d4e2ece 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -540,8 +540,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_rand.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -553,7 +553,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1437,8 +1437,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_data.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1450,7 +1450,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 438bb6d..dbd72a4 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -463,8 +463,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_rand.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -476,7 +476,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -993,8 +993,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_data.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1006,7 +1006,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 7d0b55c3d514ec55d971b0090317e63bbf796f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 33/33] fix: release line-of-sight buffers and statistics
 objects when a call raises

Free the line-of-sight arrays and the field statistics object on every path
of the bindings, and account for the particles being released rather than
the ones about to be allocated when a catalogue is reinitialised.
---
 src/triumvirate/_field.pyx        |   9 +-
 src/triumvirate/_threept.pyx      | 145 ++++++++++++++++--------------
 src/triumvirate/_twopt.pyx        | 143 +++++++++++++++--------------
 src/triumvirate/src/particles.cpp |   4 +-
 4 files changed, 163 insertions(+), 138 deletions(-)

diff --git a/src/triumvirate/_field.pyx b/src/triumvirate/_field.pyx
index 8b070ce..cf030f4 100644
--- a/src/triumvirate/_field.pyx
+++ b/src/triumvirate/_field.pyx
@@ -44,9 +44,12 @@ def _record_binned_vectors(Binning binning not None,
     """
     fieldstats_ptr = new CppFieldStats(deref(paramset.thisptr), False)
 
-    binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
-        deref(binning.thisptr), ''.encode('utf-8')
-    )
+    try:
+        binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
+            deref(binning.thisptr), ''.encode('utf-8')
+        )
+    finally:
+        del fieldstats_ptr
 
     binned_vectors = np.empty(
         binned_vectors_struct.count,
diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 34cbd65..aaf7da6 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -134,33 +134,37 @@ def _compute_bispec(
         Binning kbinning not None,
         double norm_factor
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_data_cpp = NULL
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef BispecMeasurements results
-    results = compute_bispec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
 
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_data_cpp = <LineOfSight*>malloc(
+            len(los_data) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_bispec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'k1_bin': np.asarray(results.k1_bin),
@@ -183,33 +187,37 @@ def _compute_3pcf(
         Binning rbinning not None,
         double norm_factor
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_data_cpp = NULL
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef ThreePCFMeasurements results
-    results = compute_3pcf_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
 
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_data_cpp = <LineOfSight*>malloc(
+            len(los_data) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_3pcf_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
@@ -282,25 +290,28 @@ def _compute_3pcf_window(
         double norm_factor,
         bool_t wide_angle
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef ThreePCFWindowMeasurements results
-    results = compute_3pcf_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor,
-        wide_angle
-    )
 
-    free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_3pcf_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor,
+            wide_angle
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index e9522f6..201f362 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -170,33 +170,37 @@ def _compute_powspec(
         Binning kbinning not None,
         double norm_factor
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_data_cpp = NULL
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef PowspecMeasurements results
-    results = compute_powspec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
 
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_data_cpp = <LineOfSight*>malloc(
+            len(los_data) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_powspec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'kbin': np.asarray(results.kbin),
@@ -216,33 +220,37 @@ def _compute_corrfunc(
         Binning rbinning not None,
         double norm_factor
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
-        len(los_data) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_data_cpp = NULL
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef TwoPCFMeasurements results
-    results = compute_corrfunc_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
 
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_data_cpp = <LineOfSight*>malloc(
+            len(los_data) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_corrfunc_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
@@ -303,24 +311,27 @@ def _compute_corrfunc_window(
         double alpha,
         double norm_factor
     ):
-    # Parse lines of sight per particle.
-    cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
-        len(los_rand) * sizeof(LineOfSight)
-    )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
-
-    # Run algorithm.
+    cdef LineOfSight* los_rand_cpp = NULL
     cdef TwoPCFWindowMeasurements results
-    results = compute_corrfunc_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor
-    )
 
-    free(los_rand_cpp)
+    try:
+        # Parse lines of sight per particle.
+        los_rand_cpp = <LineOfSight*>malloc(
+            len(los_rand) * sizeof(LineOfSight)
+        )
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
+        # Run algorithm.
+        results = compute_corrfunc_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 3989f23..5fef77a 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
   // Renew particle data.
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0

