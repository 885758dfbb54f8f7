From 66dcb7948ddafa5e779e2c9d2f28bf587269bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 01/36] fix: MPI_Manager::reduce of an array does not compile
 on the non-root branch

---
 levels/cxxsupport/ls_mpi_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index f8872af..98ee464 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -198,7 +198,7 @@ class MPI_Manager
       }
     template<typename T> void reduce_s (const arr<T> &in, redOp op, int root=0)
       const
-      { reduceRaw (&in[0], 0, in.size(), op, root); }
+      { reduceRaw (&in[0], static_cast<T *>(0), in.size(), op, root); }
 
     void allgatherRawVoid (const void *in, void *out, NDT type, tsize num)
       const;
-- 
2.43.0


From 6c4d5b0af92470c94e391afcc85d9762c027fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 02/36] fix: processes without samples skip collective calls of
 convolve()

---
 levels/cxxsupport/mpi_support.cc |  6 +++++-
 src/conviqt_math.cpp             | 28 ++++++++++++----------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..500b17b 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,11 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  {
+  // two empty buffers may share the null address
+  levels_assert ((a!=b) || (a==0),
+    "input and output buffers must not be identical");
+  }
 
 } // unnamed namespace
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..c04316e 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1555,14 +1555,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1620,14 +1618,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From 070106bf8f5633b506cbf3b41d677a87f93bdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 03/36] fix: beam::read() sets mmax to the requested lmax

---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..f3bf0df 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = std::min(beammmax, lmax);
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From 1dd07af7b141a99be4dca56e501b752994c087a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 04/36] fix: a beam read after normalize() counts as normalized

---
 src/conviqt_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index f3bf0df..46e9a4b 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -44,6 +44,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         lmax = lmax_file;
     }
     // mmax
+    normalized_ = false;
     if (beammmax > 0) {
         mmax = std::min(beammmax, lmax);
     } else {
-- 
2.43.0


From aed50f090a511168bb9d522a86b65bf67287df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 05/36] fix: automatic convolver lmax exceeds the shorter
 expansion

---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index c04316e..7e40f0a 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,7 +121,7 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
-- 
2.43.0


From e494ef78d3ca851830a70ab8161b78fa3ba1edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 06/36] fix: convolver mmax above lmax reads past the phase
 tables

---
 src/conviqt_math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 7e40f0a..c898762 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -132,6 +132,10 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     } else if (beammmax > mmax_beam) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
+    // Beam orders above lmax do not contribute
+    if (this->beammmax > this->lmax) {
+        this->beammmax = this->lmax;
+    }
 
     // data cube gridding
 
-- 
2.43.0


From 1857c3459e9b9f1f05f152ba281251c07047b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 07/36] fix: interpolation stencils longer than the longitude
 grid leave the data cube

---
 src/conviqt_math.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index c898762..30f8675 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1405,9 +1405,8 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
-                iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            iphi0 %= nphi;
+            if (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1425,10 +1424,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             const double weight1 = 2 * wgt1[thetaoffset - itheta0[ii]];
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
-                long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
-                    iphinew -= nphi;
-                }
+                const long iphinew = (iphi0 + iphi) % nphi;
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
                 double x = 0;
                 for (long ipsi = 0; ipsi < npsi; ++ipsi) {
-- 
2.43.0


From ac680bafd64aaf6d44b2e27ec11ba59fdfdd425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 08/36] fix: latitude hit map is accessed past its end

---
 src/conviqt_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 30f8675..e5af43c 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -294,7 +294,8 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         if (beta > halfpi) {
             beta = pi - beta;
         }
-        long ibin = beta / wbin;
+        // beta = pi / 2 belongs to the last bin
+        long ibin = std::min(long(beta / wbin), nbin - 1);
         ++my_hits[ibin];
     }
 
@@ -311,7 +312,7 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         double nhit_target = nhitleft / divisor;
         long bin_hit = 0;
         while (ibin < nbin) {
-            ++ibin;
+            if (++ibin == nbin) break;
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
                 bin_hit += hits[ibin];
-- 
2.43.0


From 3a61ab9b89d565676502a13d45685216f383223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 09/36] fix: a failed beam or sky read is only reported on the
 root process

---
 src/conviqt_io.cpp | 74 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 46e9a4b..71b1f3c 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -1,5 +1,7 @@
 #include "conviqt.hpp"
 
+#include <exception>
+
 // This file will contain the I/O facilities: read beam, read sky, read detector
 
 // An end user will have the choice between using these facilities or providing inputs directly
@@ -8,6 +10,20 @@ using namespace levels;
 
 namespace conviqt {
 
+// Let all processes know whether the root process succeeded in accessing
+// the file.  If it did not, fail on all of them.
+
+static void check_root(MPI_Manager &mpiMgr, std::exception_ptr error,
+                       const std::string &fname) {
+    int failed = error ? 1 : 0;
+    mpiMgr.bcast(failed);
+    if (error) {
+        std::rethrow_exception(error);
+    } else if (failed) {
+        throw std::runtime_error("Failed to read " + fname + " on the root process.");
+    }
+}
+
 int beam::read(long beamlmax, long beammmax, bool beampol,
                std::string infile_beam, MPI_Comm comm) {
 
@@ -20,14 +36,20 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
 
     pol = beampol;
-    int lmax_file, mmax_file;
+    int lmax_file = -1, mmax_file = -1;
+    std::exception_ptr error;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            error = std::current_exception();
         }
     }
+    check_root(mpiMgr, error, infile_beam);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -61,15 +83,20 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+            }
+        } catch (...) {
+            error = std::current_exception();
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
+    check_root(mpiMgr, error, infile_beam);
 
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
@@ -114,14 +141,20 @@ int sky::read(long skylmax, bool skypol,
     }
 
     pol = skypol;
-    int lmax_file, mmax_file;
+    int lmax_file = -1, mmax_file = -1;
+    std::exception_ptr error;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            error = std::current_exception();
         }
     }
+    check_root(mpiMgr, error, infile_sky);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -151,15 +184,20 @@ int sky::read(long skylmax, bool skypol,
     long slmsize = (lmax + 1) * (lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+            }
+        } catch (...) {
+            error = std::current_exception();
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
+    check_root(mpiMgr, error, infile_sky);
 
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
-- 
2.43.0


From 414982c135f9702ffe27dbcc27add81ea7b13164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 10/36] fix: invalid indices and expansion orders in a file are
 not detected

---
 levels/Healpix_cxx/alm_fitsio.cc |  2 ++
 src/conviqt_io.cpp               | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index efc8fc5..078434e 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -62,6 +62,7 @@ void get_almsize(fitshandle &inp, int &lmax, int &mmax)
 
     for (tsize i=0; i<ppix; ++i)
       {
+      levels_assert(index[i]>=1, "invalid index encountered");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       if (l>lmax) lmax=l;
@@ -117,6 +118,7 @@ template<typename T> void read_Alm_from_fits
       {
       if (index[i]>max_index) continue;
 
+      levels_assert(index[i]>=1, "invalid index encountered");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       levels_assert(m>=0,"negative m encountered");
diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 71b1f3c..3027ef8 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -24,6 +24,19 @@ static void check_root(MPI_Manager &mpiMgr, std::exception_ptr error,
     }
 }
 
+// Largest expansion order whose (l, m) index fits in the 32 bit index column
+
+static const int lmax_limit = 46338;
+
+// The expansion orders are either found in the file header or derived from
+// the index column. Neither is to be trusted.
+
+static void check_almsize(const int lmax, const int mmax, const std::string &fname) {
+    if (lmax < 0 || mmax < 0 || lmax > lmax_limit) {
+        throw std::runtime_error("Invalid expansion order in " + fname);
+    }
+}
+
 int beam::read(long beamlmax, long beammmax, bool beampol,
                std::string infile_beam, MPI_Comm comm) {
 
@@ -52,6 +65,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     check_root(mpiMgr, error, infile_beam);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
+    check_almsize(lmax_file, mmax_file, infile_beam);
     // Ensure that the beam in the file has a high enough expansion order.
     if (lmax_file < beamlmax) {
         throw std::runtime_error("Beam lmax exceeds available expansion order.");
@@ -157,6 +171,7 @@ int sky::read(long skylmax, bool skypol,
     check_root(mpiMgr, error, infile_sky);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
+    check_almsize(lmax_file, mmax_file, infile_sky);
     // If user provided skylmax, ensure that the file has high enough
     // expansion order
     if (lmax_file < skylmax) {
-- 
2.43.0


From 1312bd330e82b6ec7e1fd1d57e5961fc688e6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 11/36] fix: detector efficiency and expansion limits are not
 initialized

---
 src/conviqt.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..f53d2d6 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -53,8 +53,8 @@ public :
 private :
     Alm< xcomplex<float> > blmT_, blmG_, blmC_;
     bool normalized_;
-    long lmax, mmax;
-    bool pol;
+    long lmax = 0, mmax = 0;
+    bool pol = false;
     int verbosity = 0;
     std::string fname;
 };
@@ -78,9 +78,9 @@ public :
     void remove_dipole(void);
 private :
     Alm< xcomplex<float> > slmT_, slmG_, slmC_;
-    long lmax;
-    bool pol;
-    double fwhm_deconv;
+    long lmax = 0;
+    bool pol = false;
+    double fwhm_deconv = 0;
     int verbosity = 0;
     std::string fname;
 };
@@ -113,7 +113,7 @@ public :
 private :
 
     std::string det_id_;
-    double epsilon_;
+    double epsilon_ = 0;
     int verbosity = 0;
 
 };
-- 
2.43.0


From e410bc15cdabf5183273ebb1dd5b238c45690a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 12/36] fix: a failed read changes the polarization flag but
 not the expansion

---
 src/conviqt_io.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 3027ef8..2e9f1b0 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -48,12 +48,11 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
     }
 
-    pol = beampol;
     int lmax_file = -1, mmax_file = -1;
     std::exception_ptr error;
     if (rank == 0) {
         try {
-            if (pol) {
+            if (beampol) {
                 get_almsize_pol(infile_beam, lmax_file, mmax_file);
             } else {
                 get_almsize(infile_beam, lmax_file, mmax_file);
@@ -87,6 +86,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         mmax = std::min((int)lmax, mmax_file);
     }
     fname = infile_beam;
+    pol = beampol;
 
     blmT_.Set(lmax, mmax);
     if (pol) {
@@ -154,12 +154,11 @@ int sky::read(long skylmax, bool skypol,
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
     }
 
-    pol = skypol;
     int lmax_file = -1, mmax_file = -1;
     std::exception_ptr error;
     if (rank == 0) {
         try {
-            if (pol) {
+            if (skypol) {
                 get_almsize_pol(infile_sky, lmax_file, mmax_file);
             } else {
                 get_almsize(infile_sky, lmax_file, mmax_file);
@@ -188,6 +187,7 @@ int sky::read(long skylmax, bool skypol,
     }
     int mmax = lmax;
     fname = infile_sky;
+    pol = skypol;
     fwhm_deconv = fwhm_deconv_sky;
 
     slmT_.Set(lmax, lmax);
-- 
2.43.0


From 1ed91180c7cee88e15fd8554356143e15f57816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 13/36] fix: replaced sky or beam is not checked against the
 convolver limits

---
 src/conviqt.hpp      |  4 ++++
 src/conviqt_math.cpp | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index f53d2d6..1eece99 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -48,6 +48,7 @@ public :
     Alm< xcomplex<float> > & blmC(void);
     int get_lmax(void) { return lmax; }
     int get_mmax(void) { return mmax; }
+    bool polarized(void) { return pol; }
     double normalize(void);
     bool normalized() { return normalized_; }
 private :
@@ -74,6 +75,7 @@ public :
     Alm< xcomplex<float> > & slmG(void);
     Alm< xcomplex<float> > & slmC(void);
     int get_lmax(void) { return lmax; }
+    bool polarized(void) { return pol; }
     void remove_monopole(void);
     void remove_dipole(void);
 private :
@@ -172,6 +174,8 @@ private :
         n_distribute_colatitudes, n_conviqt_hemiscm_pol,
         n_alltoall_datacube, n_sort, n_fillingBetaSeg;
 
+    void check_inputs();
+
     void weight_ncm_initialize();
     void weight_ncm(double x, std::vector<double> &wgt);
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index e5af43c..f58b271 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -199,6 +199,23 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
 }
 
 
+void convolver::check_inputs() {
+    /*
+      The sky and the beam may have been replaced or read again
+      after the convolver was built.
+     */
+    if (lmax > s->get_lmax() || lmax > b->get_lmax()) {
+        throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+    }
+    if (beammmax > b->get_mmax()) {
+        throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+    }
+    if (pol && (!s->polarized() || !b->polarized())) {
+        throw std::runtime_error("Polarized convolution requires polarized inputs.");
+    }
+}
+
+
 int convolver::set_sky(sky *s) {
 
   this->s = s;
@@ -1479,6 +1496,8 @@ void convolver::arrFillingcm(long ntod,
 
 int convolver::convolve(pointing &pntarr, bool calibrate) {
 
+    check_inputs();
+
     mpiMgr.barrier();
 
     if (verbosity > 5 or (corenum == 0 and verbosity > 0)) {
-- 
2.43.0


From 2fe218231bc6ca9e991e2d2ce14a7ec4c30b4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 14/36] fix: illegal convolver lmax or order terminates the
 process

---
 src/conviqt_math.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index f58b271..b20cddc 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -126,6 +126,13 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
 
+    if (this->lmax < 1) {
+        throw std::runtime_error("Convolver lmax must be positive.");
+    }
+    if (order < 0) {
+        throw std::runtime_error("Interpolation order must not be negative.");
+    }
+
     const int mmax_beam = b->get_mmax();
     if (beammmax < 0) {
         this->beammmax = mmax_beam;
-- 
2.43.0


From 9982347ddc279b94556e62018b1c06ebfe94da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 15/36] fix: illegal pointing is only noticed on the process
 that holds it

---
 src/conviqt_math.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index b20cddc..6891b1a 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -2,6 +2,7 @@
 
 #include <sstream>
 
+#include <cmath>
 #include <cstring>
 
 #ifdef _OPENMP
@@ -1520,6 +1521,28 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     const long totsize = pntarr.size() / 5;
 
+    // Check the angles for conformity. All processes must agree on the result
+    // and the pointing must not be modified if it is illegal.
+
+    std::string error;
+    for (long i = 0; i < totsize; ++i) {
+        double theta = pntarr[5 * i + 1];
+        if (!(theta >= 0 && theta <= pi)) {
+            error = "Illegal theta: " + std::to_string(theta) + " not in 0..pi";
+            break;
+        }
+        if (!std::isfinite(pntarr[5 * i]) || !std::isfinite(pntarr[5 * i + 2])) {
+            error = "phi and psi must be finite";
+            break;
+        }
+    }
+    int illegal = !error.empty();
+    mpiMgr.allreduce(illegal, MPI_Manager::Max);
+    if (illegal) {
+        if (error.empty()) error = "Illegal pointing on another process";
+        throw std::runtime_error("convolver::convolve: " + error);
+    }
+
     // Assign a running index across the communicator to the last column of pntarr
     // It is needed to collect the convolved data.
     long my_offset = 0;
@@ -1530,16 +1553,6 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
         pntarr[5 * ii + 4] = my_offset + ii;
     }
 
-    // Check the angles for conformity
-
-    for (long i = 0; i < totsize; ++i) {
-        double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
-        }
-    }
-
     // distribute the co-latitudes.
 
     levels::arr<double> corethetaarr(cores);
-- 
2.43.0


From 502c057141ddea0fb8187a0fc42b87d7e1d060b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 16/36] fix: exceptions escape from the C interface

---
 src/cconviqt.cpp | 60 ++++++++++++++++++++++++++++++++++++++++--------
 src/cconviqt.h   |  2 ++
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..20254ac 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -9,7 +9,13 @@ extern "C" {
 
 #include <string.h>
 
-    void *conviqt_beam_new() { return new(std::nothrow) conviqt::beam; }
+    void *conviqt_beam_new() {
+        try {
+            return new(std::nothrow) conviqt::beam;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_beam_del(void *ptr) {
         try {
@@ -103,7 +109,13 @@ extern "C" {
         }
     }
 
-    void *conviqt_sky_new() { return new(std::nothrow) conviqt::sky; }
+    void *conviqt_sky_new() {
+        try {
+            return new(std::nothrow) conviqt::sky;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_sky_del(void *ptr) {
         try {
@@ -186,10 +198,20 @@ extern "C" {
         }
     }
 
-    void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
+    void *conviqt_detector_new() {
+        try {
+            return new(std::nothrow) conviqt::detector;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new(std::nothrow) conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -242,7 +264,13 @@ extern "C" {
         return 0;
     }
 
-    void *conviqt_pointing_new() { return new(std::nothrow) conviqt::pointing; }
+    void *conviqt_pointing_new() {
+        try {
+            return new(std::nothrow) conviqt::pointing;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_pointing_del(void *ptr) {
         try {
@@ -314,9 +342,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
+                                                        lmax, beammmax, order,
+                                                        verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -376,9 +413,12 @@ extern "C" {
 #endif
 
             cnvref->convolve(*pntref, calibrate);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_convolve threw an exception: " << e.what()
+                      << std::endl;
+            return -1;
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "conviqt_convolver_convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
diff --git a/src/cconviqt.h b/src/cconviqt.h
index 7016b11..ff6bf09 100644
--- a/src/cconviqt.h
+++ b/src/cconviqt.h
@@ -60,6 +60,8 @@ extern "C" {
 
   int conviqt_detector_get_epsilon(void *ptr, double *epsilon);
 
+  int conviqt_detector_set_id(void *ptr, char *det_id);
+
   int conviqt_detector_get_id(void *ptr, char *det_id);
 
   // Pointing
-- 
2.43.0


From fa5678ac8b98f9f1668e4b0c11ae39859e784025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 17/36] fix: MPI_Manager::sendrecv does not communicate

---
 levels/cxxsupport/mpi_support.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 500b17b..8d5e0f4 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -211,7 +211,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -221,9 +220,6 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
-
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
   }
@@ -233,7 +229,7 @@ void MPI_Manager::gatherRawVoid (const void *in, tsize num, void *out, NDT type,
   {
   assert_unequal(in,out);
   MPI_Datatype dtype = ndt2mpi(type);
-  MPI_Gather(const_cast<void *>(in),1,dtype,out,num,dtype,root,LS_COMM);
+  MPI_Gather(const_cast<void *>(in),num,dtype,out,num,dtype,root,LS_COMM);
   }
 void MPI_Manager::gathervRawVoid (const void *in, tsize num, void *out,
   const int *nval, const int *offset, NDT type) const
-- 
2.43.0


From ea5346dc4e2103d3ad7f10ca2ddcd4358c709cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 18/36] fix: running out of memory in a parallel section
 terminates the process

---
 src/conviqt_math.cpp | 87 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 18 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 6891b1a..5474312 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -4,6 +4,8 @@
 
 #include <cmath>
 #include <cstring>
+#include <exception>
+#include <memory>
 
 #ifdef _OPENMP
 # include <omp.h>
@@ -731,16 +733,26 @@ void convolver::conviqt_hemiscm(levels::arr3<xcomplex<double> > &tod1,
     levels::arr<double> cs(nphi), sn(nphi);
     levels::arr<double> cs0(nphi), sn0(nphi);
 
+    std::exception_ptr error;  // An exception must not leave the parallel section
+
 #pragma omp parallel default(shared)
     {
         double t1 = mpiMgr.Wtime();
-        wignergen wgen(lmax, rthetas, conv_acc), wgen_neg(lmax, rthetas, conv_acc);
+        std::unique_ptr<wignergen> wgen, wgen_neg;
+        try {
+            wgen.reset(new wignergen(lmax, rthetas, conv_acc));
+            wgen_neg.reset(new wignergen(lmax, rthetas, conv_acc));
+        } catch (...) {
+#pragma omp critical
+            error = std::current_exception();
+        }
+#pragma omp barrier
         if (omp_get_thread_num() == 0) {
             t_wigner_init += mpiMgr.Wtime() - t1;
             ++n_wigner_init;
         }
         //wigner_estimator estimator(lmax,100);
-        for(long mbeam = 0; mbeam < npsi; ++mbeam) {
+        for(long mbeam = 0; mbeam < npsi && !error; ++mbeam) {
             double dsignb = levels::xpow(mbeam, 1);
 #pragma omp for schedule(static, 8)
             for (long msky = 0; msky <= lmax; ++msky) {
@@ -750,8 +762,8 @@ void convolver::conviqt_hemiscm(levels::arr3<xcomplex<double> > &tod1,
                 // if (estimator.canSkip(rthetas[my_ntheta - 1]))
                 //     continue; // negligible dmm
                 t1 = mpiMgr.Wtime();
-                wgen.prepare(mbeam, msky);
-                wgen_neg.prepare(mbeam, -msky);
+                wgen->prepare(mbeam, msky);
+                wgen_neg->prepare(mbeam, -msky);
                 if (omp_get_thread_num() == 0) {
                     t_wigner_prepare += mpiMgr.Wtime() - t1;
                     ++n_wigner_prepare;
@@ -762,8 +774,8 @@ void convolver::conviqt_hemiscm(levels::arr3<xcomplex<double> > &tod1,
                     xcomplex<double> &Cmm2_pos = my_Cmm2(msky + lmax, mbeam, lat);
                     xcomplex<double> &Cmm2_neg = my_Cmm2(-msky + lmax, mbeam, lat);
                     int firstl1, firstl2;
-                    const levels::arr<double> &dmm = wgen.calc(lat, firstl1);
-                    const levels::arr<double> &dmmneg = wgen_neg.calc(lat, firstl2);
+                    const levels::arr<double> &dmm = wgen->calc(lat, firstl1);
+                    const levels::arr<double> &dmmneg = wgen_neg->calc(lat, firstl2);
                     const int firstl = std::max(firstl1, firstl2);
                     double dlb = -levels::xpow(firstl, dsignb);
                     for (long ii = firstl; ii <= lmax; ++ii) {
@@ -820,6 +832,8 @@ void convolver::conviqt_hemiscm(levels::arr3<xcomplex<double> > &tod1,
         }
     } // End of parallel section
 
+    if (error) std::rethrow_exception(error);
+
     todAnnulus(my_tod1, my_Cmm1, cs, sn, cs0, sn0, my_ntheta);
     todAnnulus(my_tod2, my_Cmm2, cs, sn, cs0, sn0, my_ntheta);
 
@@ -987,16 +1001,26 @@ void convolver::conviqt_hemiscm_pol(levels::arr3< xcomplex<double> > &tod1,
     levels::arr<double> cs(nphi), sn(nphi);
     levels::arr<double> cs0(nphi), sn0(nphi);
 
+    std::exception_ptr error;  // An exception must not leave the parallel section
+
 #pragma omp parallel default(shared)
     {
         double t1 = mpiMgr.Wtime();
-        wignergen wgen(lmax, rthetas, conv_acc), wgen_neg(lmax, rthetas, conv_acc);
+        std::unique_ptr<wignergen> wgen, wgen_neg;
+        try {
+            wgen.reset(new wignergen(lmax, rthetas, conv_acc));
+            wgen_neg.reset(new wignergen(lmax, rthetas, conv_acc));
+        } catch (...) {
+#pragma omp critical
+            error = std::current_exception();
+        }
+#pragma omp barrier
         if (omp_get_thread_num() == 0) {
             t_wigner_init += mpiMgr.Wtime() - t1;
             ++n_wigner_init;
         }
         // wigner_estimator estimator(lmax, 100);
-        for(long mbeam = 0; mbeam < npsi; ++mbeam) {
+        for(long mbeam = 0; mbeam < npsi && !error; ++mbeam) {
             const double dsignb = levels::xpow(mbeam, 1);
 #pragma omp for schedule(static, 8)
             for (long msky = 0; msky <= lmax; ++msky) {
@@ -1006,16 +1030,16 @@ void convolver::conviqt_hemiscm_pol(levels::arr3< xcomplex<double> > &tod1,
                 // if (estimator.canSkip(rthetas[my_ntheta - 1]))
                 //     continue; // negligible dmm
                 t1 = mpiMgr.Wtime();
-                wgen.prepare(mbeam, msky);
-                wgen_neg.prepare(mbeam, -msky);
+                wgen->prepare(mbeam, msky);
+                wgen_neg->prepare(mbeam, -msky);
                 if (omp_get_thread_num() == 0) {
                     t_wigner_prepare += mpiMgr.Wtime() - t1;
                     ++n_wigner_prepare;
                 }
                 for (long itheta = 0; itheta < my_ntheta; ++itheta) {
                     int firstl1, firstl2;
-                    const levels::arr<double> &dmm = wgen.calc(itheta, firstl1);
-                    const levels::arr<double> &dmmneg = wgen_neg.calc(itheta, firstl2);
+                    const levels::arr<double> &dmm = wgen->calc(itheta, firstl1);
+                    const levels::arr<double> &dmmneg = wgen_neg->calc(itheta, firstl2);
                     xcomplex<double> &Cmm1_pos = my_Cmm1(msky + lmax, mbeam, itheta);
                     xcomplex<double> &Cmm1_neg = my_Cmm1(-msky + lmax, mbeam, itheta);
                     xcomplex<double> &Cmm2_pos = my_Cmm2(msky + lmax, mbeam, itheta);
@@ -1080,6 +1104,8 @@ void convolver::conviqt_hemiscm_pol(levels::arr3< xcomplex<double> > &tod1,
         }
     } // End of parallel section
 
+    if (error) std::rethrow_exception(error);
+
     todAnnulus(my_tod1, my_Cmm1, cs, sn, cs0, sn0, my_ntheta);
     todAnnulus(my_tod2, my_Cmm2, cs, sn, cs0, sn0, my_ntheta);
 
@@ -1224,10 +1250,19 @@ void convolver::todAnnulus(levels::arr3<xcomplex<double> > &tod,
     double tstart = mpiMgr.Wtime();
     ++n_todAnnulus;
 
+    std::exception_ptr error;  // An exception must not leave the parallel section
+
 #pragma omp parallel default(shared)
     {
-        levels::arr< xcomplex<double> > Cmsky(nphi, 0);
-        cfft p1(nphi);
+        levels::arr< xcomplex<double> > Cmsky;
+        cfft p1;
+        try {
+            Cmsky.allocAndFill(nphi, 0);
+            p1.Set(nphi);
+        } catch (...) {
+#pragma omp critical
+            error = std::current_exception();
+        }
 
 #pragma omp for schedule(static, 8)
         for (long msky = -lmax; msky <= lmax; ++msky) {
@@ -1251,7 +1286,7 @@ void convolver::todAnnulus(levels::arr3<xcomplex<double> > &tod,
 
 #pragma omp for schedule(static, 1)
         for (long mbeam = 0; mbeam < npsi; ++mbeam) {
-            for (long lat = 0; lat < NThetaIndex; ++lat) {
+            for (long lat = 0; lat < NThetaIndex && !error; ++lat) {
                 for (long msky = -lmax; msky <= lmax; ++msky) {
                     const long ii = msky + lmax;
                     Cmsky[ii] = Cmm(ii, mbeam, lat);
@@ -1294,6 +1329,8 @@ void convolver::todAnnulus(levels::arr3<xcomplex<double> > &tod,
 
     } // end of parallel region
 
+    if (error) std::rethrow_exception(error);
+
     // Finished with convolution and FFT over msky.
 
     t_todAnnulus += mpiMgr.Wtime() - tstart;
@@ -1414,14 +1451,26 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
 
     const long thetaoffset = thetaIndex + itheta0[ntod - 1];
 
+    std::exception_ptr error;  // An exception must not leave the parallel section
+
 #pragma omp parallel default(shared)
     {
-        std::vector<double> cosang(npsi), sinang(npsi);
-        std::vector<double> wgt1(npoints, 0.);
-        std::vector<double> wgt2(npoints, 0.);
+        std::vector<double> cosang, sinang;
+        std::vector<double> wgt1, wgt2;
+        try {
+            cosang.resize(npsi);
+            sinang.resize(npsi);
+            wgt1.resize(npoints, 0.);
+            wgt2.resize(npoints, 0.);
+        } catch (...) {
+#pragma omp critical
+            error = std::current_exception();
+        }
+#pragma omp barrier
 
 #pragma omp for schedule(static, 1)
         for (int ii = lowerIndex[thetaIndex]; ii >= upperIndex[thetaIndex]; --ii) {
+            if (error) continue;
             // Co-latitude, theta
             double frac = (outpntarr[5 * ii + 1] - theta0) * inv_delta_theta;
             frac -= itheta0[ii];
@@ -1462,6 +1511,8 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
 
     } // end parallel region
 
+    if (error) std::rethrow_exception(error);
+
     t_conviqt_tod_loop += mpiMgr.Wtime() - tstart;
     if (verbosity > 5) {
         std::cerr << corenum << " : Exiting conviqt_tod_loop" << std::endl;
-- 
2.43.0


From ab184f6f1edd3c0c06ce51696d13cf23fb807e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 19/36] fix: a failed array allocation leaves a dangling
 pointer

---
 levels/cxxsupport/ls_arr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..10c2c33 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -219,10 +219,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
     void alloc (tsize sz)
       {
       if (sz==this->s) return;
-      if (own) stm.dealloc(this->d);
-      this->s = sz;
+      dealloc();
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
-- 
2.43.0


From 1f014fe5a844b573eb723867c263f43bf8e06ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 20/36] fix: MPI_Manager ignores MPI errors

---
 levels/cxxsupport/mpi_support.cc | 68 +++++++++++++++++++++-----------
 src/conviqt_io.cpp               |  6 +--
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 8d5e0f4..625f083 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -97,6 +97,14 @@ MPI_Op op2mop (MPI_Manager::redOp op)
     }
   }
 
+// The error handler of the communicator may let the calls return
+
+void check_mpi (int err, const char *func)
+  {
+  if (err!=MPI_SUCCESS)
+    levels_fail (std::string(func)+" returned an error");
+  }
+
 } // unnamed namespace
 
 #endif
@@ -164,8 +172,10 @@ MPI_Manager::MPI_Manager ( MPI_Comm comm ) : comm_(comm)
     MPI_Init(0,0);
     MPI_Comm_set_errhandler( LS_COMM, MPI_ERRORS_ARE_FATAL);
     }
-  MPI_Comm_size(LS_COMM, &num_ranks_);
-  MPI_Comm_rank(LS_COMM, &rank_);
+  check_mpi (MPI_Comm_size(LS_COMM, &num_ranks_),
+    "MPI_Comm_size");
+  check_mpi (MPI_Comm_rank(LS_COMM, &rank_),
+    "MPI_Comm_rank");
   }
 MPI_Manager::~MPI_Manager ()
   {
@@ -181,7 +191,8 @@ void MPI_Manager::abort() const
   { MPI_Abort(LS_COMM, 1); }
 
 void MPI_Manager::barrier() const
-  { MPI_Barrier(LS_COMM); }
+  { check_mpi (MPI_Barrier(LS_COMM),
+    "MPI_Barrier"); }
 
 double MPI_Manager::Wtime()
  { return MPI_Wtime(); }
@@ -205,23 +216,27 @@ double MPI_Manager::Wtime()
 #ifdef USE_MPI
 void MPI_Manager::sendRawVoid (const void *data, NDT type, tsize num,
   tsize dest) const
-  { MPI_Send(const_cast<void *>(data),num,ndt2mpi(type),dest,0,LS_COMM); }
+  { check_mpi (MPI_Send(const_cast<void *>(data),num,ndt2mpi(type),dest,0,LS_COMM),
+    "MPI_Send"); }
 void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
-  { MPI_Recv(data,num,ndt2mpi(type),src,0,LS_COMM,MPI_STATUS_IGNORE); }
+  { check_mpi (MPI_Recv(data,num,ndt2mpi(type),src,0,LS_COMM,MPI_STATUS_IGNORE),
+    "MPI_Recv"); }
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
-  MPI_Sendrecv (const_cast<void *>(sendbuf),sendcnt,dtype,dest,0,
-    recvbuf,recvcnt,dtype,src,0,LS_COMM,MPI_STATUS_IGNORE);
+  check_mpi (MPI_Sendrecv (const_cast<void *>(sendbuf),sendcnt,dtype,dest,0,
+    recvbuf,recvcnt,dtype,src,0,LS_COMM,MPI_STATUS_IGNORE),
+    "MPI_Sendrecv");
   }
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
-    MPI_STATUS_IGNORE);
+  check_mpi (MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
+    MPI_STATUS_IGNORE),
+    "MPI_Sendrecv_replace");
   }
 
 void MPI_Manager::gatherRawVoid (const void *in, tsize num, void *out, NDT type,
@@ -229,15 +244,17 @@ void MPI_Manager::gatherRawVoid (const void *in, tsize num, void *out, NDT type,
   {
   assert_unequal(in,out);
   MPI_Datatype dtype = ndt2mpi(type);
-  MPI_Gather(const_cast<void *>(in),num,dtype,out,num,dtype,root,LS_COMM);
+  check_mpi (MPI_Gather(const_cast<void *>(in),num,dtype,out,num,dtype,root,LS_COMM),
+    "MPI_Gather");
   }
 void MPI_Manager::gathervRawVoid (const void *in, tsize num, void *out,
   const int *nval, const int *offset, NDT type) const
   {
   assert_unequal(in,out);
   MPI_Datatype dtype = ndt2mpi(type);
-  MPI_Gatherv(const_cast<void *>(in),num,dtype,out,const_cast<int *>(nval),
-    const_cast<int *>(offset),dtype,0,LS_COMM);
+  check_mpi (MPI_Gatherv(const_cast<void *>(in),num,dtype,out,const_cast<int *>(nval),
+    const_cast<int *>(offset),dtype,0,LS_COMM),
+    "MPI_Gatherv");
   }
 
 void MPI_Manager::allgatherRawVoid (const void *in, void *out, NDT type,
@@ -245,27 +262,32 @@ void MPI_Manager::allgatherRawVoid (const void *in, void *out, NDT type,
   {
   assert_unequal(in,out);
   MPI_Datatype tp = ndt2mpi(type);
-  MPI_Allgather (const_cast<void *>(in),num,tp,out,num,tp,LS_COMM);
+  check_mpi (MPI_Allgather (const_cast<void *>(in),num,tp,out,num,tp,LS_COMM),
+    "MPI_Allgather");
   }
 void MPI_Manager::allreduceRawVoid (void *data, NDT type,
   tsize num, redOp op) const
-  { MPI_Allreduce (MPI_IN_PLACE,data,num,ndt2mpi(type),op2mop(op),LS_COMM); }
+  { check_mpi (MPI_Allreduce (MPI_IN_PLACE,data,num,ndt2mpi(type),op2mop(op),LS_COMM),
+    "MPI_Allreduce"); }
 void MPI_Manager::allreduceRawVoid (const void *in, void *out, NDT type,
   tsize num, redOp op) const
   {
   assert_unequal(in,out);
-  MPI_Allreduce (const_cast<void *>(in),out,num,ndt2mpi(type),op2mop(op),LS_COMM);
+  check_mpi (MPI_Allreduce (const_cast<void *>(in),out,num,ndt2mpi(type),op2mop(op),LS_COMM),
+    "MPI_Allreduce");
   }
 void MPI_Manager::reduceRawVoid (const void *in, void *out, NDT type, tsize num,
   redOp op, int root) const
   {
   assert_unequal(in,out);
-  MPI_Reduce (const_cast<void *>(in),out,num,ndt2mpi(type),op2mop(op), root,
-    LS_COMM);
+  check_mpi (MPI_Reduce (const_cast<void *>(in),out,num,ndt2mpi(type),op2mop(op), root,
+    LS_COMM),
+    "MPI_Reduce");
   }
 
 void MPI_Manager::bcastRawVoid (void *data, NDT type, tsize num, int root) const
-  { MPI_Bcast (data,num,ndt2mpi(type),root,LS_COMM); }
+  { check_mpi (MPI_Bcast (data,num,ndt2mpi(type),root,LS_COMM),
+    "MPI_Bcast"); }
 
 void MPI_Manager::all2allRawVoid (const void *in, void *out, NDT type,
   tsize num) const
@@ -274,8 +296,9 @@ void MPI_Manager::all2allRawVoid (const void *in, void *out, NDT type,
   levels_assert (num%num_ranks_==0,
     "array size is not divisible by number of ranks");
   MPI_Datatype tp = ndt2mpi(type);
-  MPI_Alltoall (const_cast<void *>(in),num/num_ranks_,tp,out,num/num_ranks_,
-    tp,LS_COMM);
+  check_mpi (MPI_Alltoall (const_cast<void *>(in),num/num_ranks_,tp,out,num/num_ranks_,
+    tp,LS_COMM),
+    "MPI_Alltoall");
   }
 
 void MPI_Manager::all2allvRawVoid (const void *in, const int *numin,
@@ -284,9 +307,10 @@ void MPI_Manager::all2allvRawVoid (const void *in, const int *numin,
   {
   assert_unequal(in,out);
   MPI_Datatype tp = ndt2mpi(type);
-  MPI_Alltoallv (const_cast<void *>(in), const_cast<int *>(numin),
+  check_mpi (MPI_Alltoallv (const_cast<void *>(in), const_cast<int *>(numin),
     const_cast<int *>(disin), tp, out, const_cast<int *>(numout),
-    const_cast<int *>(disout), tp, LS_COMM);
+    const_cast<int *>(disout), tp, LS_COMM),
+    "MPI_Alltoallv");
   }
 
 #else
diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 2e9f1b0..05e3e71 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -41,8 +41,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
                std::string infile_beam, MPI_Comm comm) {
 
     MPI_Manager mpiMgr(comm);
-    int rank;
-    MPI_Comm_rank(comm, &rank);
+    const int rank = mpiMgr.rank();
 
     if (verbosity > 5) {
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
@@ -147,8 +146,7 @@ int sky::read(long skylmax, bool skypol,
               MPI_Comm comm) {
 
     MPI_Manager mpiMgr(comm);
-    int rank;
-    MPI_Comm_rank(comm, &rank);
+    const int rank = mpiMgr.rank();
 
     if (verbosity > 5) {
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
-- 
2.43.0


From 5f96627dade50b537eebff5cb805c1473c074389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 21/36] fix: an error closing a file in the fitshandle
 destructor terminates the process

---
 levels/cxxsupport/fitshandle.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..001f586 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -179,9 +179,10 @@ void fitshandle::clean_all()
   {
   if (!fptr) return;
   clean_data();
-  fits_close_file (FPTR, &status);
+  fitsfile *ptr = FPTR;
+  fptr=0; // the file is closed even if there is an error
+  fits_close_file (ptr, &status);
   check_errors();
-  fptr=0;
   }
 
 bool fitshandle::table_hdu (tsize col) const
@@ -298,7 +299,11 @@ fitshandle::fitshandle ()
   : status(0), fptr(0), hdutype_(INVALID), bitpix_(INVALID), nrows_(0) {}
 
 fitshandle::~fitshandle()
-  { clean_all(); }
+  {
+  // call close() to be notified of errors
+  try { clean_all(); }
+  catch (...) {}
+  }
 
 void fitshandle::open (const string &fname)
   {
-- 
2.43.0


From 904a04613026fd63081d4392761f5369f3800ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 22/36] fix: long file names and empty columns are not rejected

---
 levels/cxxsupport/fitshandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 001f586..3df4305 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -264,6 +264,7 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert(repc>0,"read_column(): column is empty");
   levels_assert (ndata<=(repc*nrows_-offset),"read_column(): array too large");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
@@ -310,6 +311,7 @@ void fitshandle::open (const string &fname)
   clean_all();
   fitsfile *ptr=NULL;
   // Fixed a Valgrind error by using a fixed length char array for the file name
+  levels_assert(fname.length()<FLEN_FILENAME,"file name is too long");
   char fn[FLEN_FILENAME];
   std::copy(fname.begin(), fname.end(), fn);
   fn[ fname.length() ] = '\0';
-- 
2.43.0


From f3b3a4cc50eec6c9537cbd92e331c079b3df52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 23/36] fix: write_Alm_to_fits() does not report an error
 closing the file

---
 levels/Healpix_cxx/ls_alm_fitsio.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/Healpix_cxx/ls_alm_fitsio.h b/levels/Healpix_cxx/ls_alm_fitsio.h
index aa462a1..5dafcde 100644
--- a/levels/Healpix_cxx/ls_alm_fitsio.h
+++ b/levels/Healpix_cxx/ls_alm_fitsio.h
@@ -97,6 +97,7 @@ template<typename T> inline void write_Alm_to_fits
   fitshandle out;
   out.create(outfile);
   write_Alm_to_fits (out, alms, lmax, mmax, datatype);
+  out.close();
   }
 
 template<typename T> inline void write_Alm_to_fits
@@ -109,6 +110,7 @@ template<typename T> inline void write_Alm_to_fits
   write_Alm_to_fits (out, almT, lmax, mmax, datatype);
   write_Alm_to_fits (out, almG, lmax, mmax, datatype);
   write_Alm_to_fits (out, almC, lmax, mmax, datatype);
+  out.close();
   }
 
 /*! Inserts a new binary table into \a out, which contains three columns
-- 
2.43.0


From 4f2f0806a734f5e14366563b78da1b2fd9e766b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 24/36] fix: get_almsize_pol() turns negative limits into an
 expansion of order 0

A file whose keywords announce negative limits is refused by the
unpolarised read, but was accepted by the polarised one, which delivered
an expansion of order 0.
---
 levels/Healpix_cxx/alm_fitsio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index 078434e..c7e8f32 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -84,7 +84,7 @@ void get_almsize_pol(const string &filename, int &lmax, int &mmax)
   int tlmax, tmmax;
   fitshandle inp;
   inp.open (filename);
-  lmax=mmax=0;
+  lmax=mmax=-1;
   for (int hdu=2; hdu<=4; ++hdu)
     {
     inp.goto_hdu(hdu);
-- 
2.43.0


From d690357772d7da45602a09bb542ac891f5330879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 25/36] fix: Python Convolver raises when the library cannot
 instantiate it

ctypes returns a null pointer as None, not as 0.
---
 python/libconviqt_wrapper/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..5c0dd83 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -451,7 +451,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if not self._conv:  # ctypes returns a null pointer as None
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From 0159d4dcc132545e36a8a9c63448a31fb1bb212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 26/36] fix: Python objects raise when the library cannot
 allocate them

A null handle was passed on to the library and dereferenced there.
---
 python/libconviqt_wrapper/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 5c0dd83..2c89a71 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -91,6 +91,8 @@ if available:
 
         def __init__(self, lmax, mmax, pol, beamfile, comm):
             self._beam = _conviqt.conviqt_beam_new()
+            if not self._beam:
+                raise RuntimeError("Failed to instantiate beam")
             self._pol = pol
             err = _conviqt.conviqt_beam_read(
                 self._beam, lmax, mmax, pol, beamfile.encode(), encode_comm(comm)
@@ -223,6 +225,8 @@ if available:
 
         def __init__(self, lmax, pol, skyfile, fwhm, comm):
             self._sky = _conviqt.conviqt_sky_new()
+            if not self._sky:
+                raise RuntimeError("Failed to instantiate sky")
             self._pol = pol
             err = _conviqt.conviqt_sky_read(
                 self._sky, lmax, pol, skyfile.encode(), fwhm, encode_comm(comm)
@@ -329,6 +333,8 @@ if available:
                 self._det = _conviqt.conviqt_detector_new()
             else:
                 self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+            if not self._det:
+                raise RuntimeError("Failed to instantiate detector")
             if epsilon is not None:
                 self.set_epsilon(epsilon)
 
@@ -384,6 +390,8 @@ if available:
 
         def __init__(self, nrow=None):
             self._pnt = _conviqt.conviqt_pointing_new()
+            if not self._pnt:
+                raise RuntimeError("Failed to instantiate pointing")
             if nrow is not None:
                 self.alloc(nrow)
 
-- 
2.43.0


From 83ed69ffcf60877baf9aede3f30b05f2180d51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 27/36] fix: Python Convolver keeps its sky, beam and detector
 alive

The library only holds pointers to them; dropping the last Python reference
to one of them left the convolver with a dangling pointer.
---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 2c89a71..6ec07d2 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -461,6 +461,8 @@ if available:
             )
             if not self._conv:  # ctypes returns a null pointer as None
                 raise RuntimeError("Failed to instantiate convolver")
+            # The library refers to these objects, keep them alive
+            self._inputs = (sky, beam, detector)
 
         def __del__(self):
             try:
-- 
2.43.0


From f38825b93f255ebb7897b1876b6765e13bc761f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 28/36] fix: Python Pointing.data() works without rows

A process without samples got "NULL pointer access".
---
 python/libconviqt_wrapper/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 6ec07d2..8ae7b80 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -415,6 +415,9 @@ if available:
                 )
 
         def data(self):
+            if self._nrow == 0:
+                # There is no buffer to point to
+                return np.empty((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
-- 
2.43.0


From a4cde92e21f44faa4e7565d0a1d147a48dcbf99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 29/36] fix: Python Sky.remove_monopole(), remove_dipole() and
 Detector.get_id() raise on errors

---
 python/libconviqt_wrapper/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 8ae7b80..42abea6 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -247,9 +247,13 @@ if available:
 
         def remove_monopole(self):
             err = _conviqt.conviqt_sky_remove_monopole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove monopole")
 
         def remove_dipole(self):
             err = _conviqt.conviqt_sky_remove_dipole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove dipole")
 
         def num_alms(self):
             lmax = self.lmax()
@@ -363,7 +367,9 @@ if available:
 
         def get_id(self):
             s = ct.create_string_buffer(1024)
-            _conviqt.conviqt_detector_get_id(self._det, s)
+            err = _conviqt.conviqt_detector_get_id(self._det, s)
+            if err != 0:
+                raise RuntimeError("Failed to get detector ID")
             return s.value
 
     # Pointing functions
-- 
2.43.0


From 45182f8b22f0ed45ea7fc9ffea2be46f3f5e046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 30/36] fix: Python Detector.get_id() overruns its buffer

An identifier of 1024 characters or more did not fit.
---
 python/libconviqt_wrapper/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 42abea6..21cc36c 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -334,9 +334,12 @@ if available:
 
         def __init__(self, name=None, epsilon=None):
             if name is None:
+                self._id_size = 1
                 self._det = _conviqt.conviqt_detector_new()
             else:
-                self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+                id = name.encode()
+                self._id_size = len(id) + 1
+                self._det = _conviqt.conviqt_detector_new_with_id(id)
             if not self._det:
                 raise RuntimeError("Failed to instantiate detector")
             if epsilon is not None:
@@ -366,7 +369,7 @@ if available:
             return eps.value
 
         def get_id(self):
-            s = ct.create_string_buffer(1024)
+            s = ct.create_string_buffer(self._id_size)
             err = _conviqt.conviqt_detector_get_id(self._det, s)
             if err != 0:
                 raise RuntimeError("Failed to get detector ID")
-- 
2.43.0


From 83d7a3e2d9c20fa89b1daf69c6ea993eb94ea8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 31/36] fix: number of rows of a table is wrong after writing a
 vector column

fitshandle counted the elements written, so read_column() and friends
refused or overran what is in a table with a repetition count above 1.
A column without elements led to a division by zero.
---
 levels/cxxsupport/fitshandle.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 3df4305..b74f435 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -277,11 +277,12 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert(repc>0,"write_column(): column is empty");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
-  nrows_ = max(nrows_,offset+ndata);
+  nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
   check_errors();
   }
 
-- 
2.43.0


From 7f4bc983dfcbb8e7ca69c8da482a2a4478c52848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 32/36] fix: tiny coefficients break
 write_compressed_Alm_to_fits()

The square of a coefficient can underflow; it was then not written, but
its space in the table was skipped or read past the expansion.
---
 levels/Healpix_cxx/alm_fitsio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index c7e8f32..647556a 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -214,7 +214,7 @@ template<typename T> void write_compressed_Alm_to_fits
   int n_alms = 0;
   for (int m=0; m<=mmax; ++m)
     for (int l=m; l<=lmax; ++l)
-      if (alms(l,m).norm()>0) ++n_alms;
+      if ((alms(l,m).re!=0) || (alms(l,m).im!=0)) ++n_alms;
 
   int l=0, m=0;
   int real_lmax=0, real_mmax=0;
@@ -226,7 +226,7 @@ template<typename T> void write_compressed_Alm_to_fits
     re.alloc(ppix); im.alloc(ppix);
     for (tsize i=0; i<ppix; ++i)
       {
-      while (alms(l,m).norm()==0)
+      while ((alms(l,m).re==0) && (alms(l,m).im==0))
         {
         ++m;
         if ((m>l) || (m>mmax)) { ++l; m=0; }
-- 
2.43.0


From b24fad9f1b99c942938005ac7106d09c7c2a5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 33/36] fix: a failed read leaves the beam or sky inconsistent

The limits, the coefficients and the normalization flag were replaced one by
one while reading, so a read that was refused or ran out of memory left an
object that claimed limits its coefficients did not have.  Read into local
expansions and commit them together once everything succeeded.
---
 src/conviqt_io.cpp | 106 +++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 05e3e71..9dc9396 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -72,35 +72,27 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         throw std::runtime_error("Beam mmax exceeds available expansion order.");
     }
     // lmax
-    if (beamlmax > 0) {
-        lmax = beamlmax;
-    } else {
-        lmax = lmax_file;
-    }
+    const long new_lmax = beamlmax > 0 ? beamlmax : lmax_file;
     // mmax
-    normalized_ = false;
-    if (beammmax > 0) {
-        mmax = std::min(beammmax, lmax);
-    } else {
-        mmax = std::min((int)lmax, mmax_file);
-    }
-    fname = infile_beam;
-    pol = beampol;
+    const long new_mmax = std::min(new_lmax, beammmax > 0 ? beammmax : (long)mmax_file);
 
-    blmT_.Set(lmax, mmax);
-    if (pol) {
-        blmG_.Set(lmax, mmax);
-        blmC_.Set(lmax, mmax);
+    // The object is left untouched until the new expansion is complete
+    Alm< xcomplex<float> > almT, almG, almC;
+    almT.Set(new_lmax, new_mmax);
+    if (beampol) {
+        almG.Set(new_lmax, new_mmax);
+        almC.Set(new_lmax, new_mmax);
     }
 
-    long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
+    long blmsize = (new_mmax + 1) * (new_mmax + 2)
+        + 2 * (new_mmax + 1) * (new_lmax - new_mmax);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            if (beampol) {
+                read_Alm_from_fits(infile_beam, almT, almG, almC, new_lmax, new_mmax);
             } else {
-                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+                read_Alm_from_fits(infile_beam, almT, new_lmax, new_mmax);
             }
         } catch (...) {
             error = std::current_exception();
@@ -111,12 +103,21 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     check_root(mpiMgr, error, infile_beam);
 
-    mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
-        mpiMgr.bcastRaw(&blmC_(0, 0).re, blmsize, 0);
+    mpiMgr.bcastRaw(&almT(0, 0).re, blmsize, 0);
+    if (beampol) {
+        mpiMgr.bcastRaw(&almG(0, 0).re, blmsize, 0);
+        mpiMgr.bcastRaw(&almC(0, 0).re, blmsize, 0);
     }
 
+    lmax = new_lmax;
+    mmax = new_mmax;
+    pol = beampol;
+    normalized_ = false;
+    fname.swap(infile_beam);
+    blmT_.swap(almT);
+    blmG_.swap(almG);
+    blmC_.swap(almC);
+
     return 0;
 }
 
@@ -174,34 +175,29 @@ int sky::read(long skylmax, bool skypol,
     if (lmax_file < skylmax) {
         throw std::runtime_error("Sky lmax exceeds available expansion order.");
     }
-    if (skylmax > 0) {
-        lmax = skylmax;
-    } else {
-        lmax = lmax_file;
-    }
+    const long new_lmax = skylmax > 0 ? skylmax : lmax_file;
     // We require equal lmax and mmax
-    if (mmax_file < lmax) {
+    if (mmax_file < new_lmax) {
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
-    int mmax = lmax;
-    fname = infile_sky;
-    pol = skypol;
-    fwhm_deconv = fwhm_deconv_sky;
+    const long new_mmax = new_lmax;
 
-    slmT_.Set(lmax, lmax);
-    if (pol) {
-        slmG_.Set(lmax, mmax);
-        slmC_.Set(lmax, mmax);
+    // The object is left untouched until the new expansion is complete
+    Alm< xcomplex<float> > almT, almG, almC;
+    almT.Set(new_lmax, new_mmax);
+    if (skypol) {
+        almG.Set(new_lmax, new_mmax);
+        almC.Set(new_lmax, new_mmax);
     }
 
-    long slmsize = (lmax + 1) * (lmax + 2);
+    long slmsize = (new_lmax + 1) * (new_lmax + 2);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            if (skypol) {
+                read_Alm_from_fits(infile_sky, almT, almG, almC, new_lmax, new_mmax);
             } else {
-                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+                read_Alm_from_fits (infile_sky, almT, new_lmax, new_mmax);
             }
         } catch (...) {
             error = std::current_exception();
@@ -212,19 +208,27 @@ int sky::read(long skylmax, bool skypol,
     }
     check_root(mpiMgr, error, infile_sky);
 
-    mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-        mpiMgr.bcastRaw(&slmC_(0, 0).re, slmsize, 0);
+    mpiMgr.bcastRaw(&almT(0, 0).re, slmsize, 0);
+    if (skypol) {
+        mpiMgr.bcastRaw(&almG(0, 0).re, slmsize, 0);
+        mpiMgr.bcastRaw(&almC(0, 0).re, slmsize, 0);
     }
 
-    double fwhm = arcmin2rad * fwhm_deconv;
-    if (pol) {
-        smoothWithGauss(slmT_, slmG_, slmC_, -fwhm);
+    double fwhm = arcmin2rad * fwhm_deconv_sky;
+    if (skypol) {
+        smoothWithGauss(almT, almG, almC, -fwhm);
     } else {
-        smoothWithGauss (slmT_, -fwhm);
+        smoothWithGauss (almT, -fwhm);
     }
 
+    lmax = new_lmax;
+    pol = skypol;
+    fwhm_deconv = fwhm_deconv_sky;
+    fname.swap(infile_sky);
+    slmT_.swap(almT);
+    slmG_.swap(almG);
+    slmC_.swap(almC);
+
     return 0;
 }
 
-- 
2.43.0


From d9412912b226415f16d4af12cbadba7e2ff3ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 34/36] fix: ASCII tables cannot have columns of strings

insert_asctab() compared the library's type code with cfitsio's TSTRING, so a
column of strings was refused, and the width of such a column in an existing
table was taken to be 1, so that it could not be read.
---
 levels/cxxsupport/fitshandle.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index b74f435..1fd0d75 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -210,6 +210,7 @@ void fitshandle::init_asciitab()
   {
   char ttype[81], tunit[81], tform[81];
   int ncol, typecode;
+  long width;
   fits_get_num_cols (FPTR, &ncol, &status);
   { LONGLONG tmp; fits_get_num_rowsll (FPTR, &tmp, &status); nrows_=tmp; }
   check_errors();
@@ -217,9 +218,10 @@ void fitshandle::init_asciitab()
     {
     fits_get_acolparms (FPTR, m, ttype, 0, tunit, tform,
                         0, 0, 0, 0, &status);
-    fits_ascii_tform (tform, &typecode, 0,0, &status);
+    fits_ascii_tform (tform, &typecode, &width, 0, &status);
     check_errors();
-    columns_.push_back (fitscolumn (ttype,tunit,1,ftc2type(typecode)));
+    columns_.push_back (fitscolumn (ttype,tunit,
+      (typecode==TSTRING) ? width : 1,ftc2type(typecode)));
     }
   }
 
@@ -415,7 +417,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-    if (cols[m].type()!=TSTRING)
+    if (cols[m].type()!=LEVELS_STRING)
       {
       levels_assert (cols[m].repcount()==1,"bad repcount for ASCII table");
       x << type2asciiform(cols[m].type());
-- 
2.43.0


From a17662cb6d17cafe0f021b2a768a4643ea3c0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 35/36] fix: long column names overrun a buffer when a table is
 created

Names and units of more than 80 characters were copied into buffers of 81
bytes; shorter ones, and the name of the extension, were silently cut to what
a FITS header can hold.  Refuse what does not fit.
---
 levels/cxxsupport/fitshandle.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 1fd0d75..ba815da 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -130,6 +130,25 @@ const char *type2asciiform (PDT type)
     }
   }
 
+/*! Makes sure that \a val can be stored as the value of a string keyword. */
+void check_keyval (const string &val)
+  {
+  tsize len=val.size();
+  for (tsize m=0; m<val.size(); ++m)
+    if (val[m]=='\'') ++len; // quotes are doubled
+  levels_assert(len<FLEN_VALUE-2,"string too long for a FITS header: "+val);
+  }
+
+void check_columns (const vector<fitscolumn> &cols, const string &extname)
+  {
+  check_keyval(extname);
+  for (tsize m=0; m<cols.size(); ++m)
+    {
+    check_keyval(cols[m].name());
+    check_keyval(cols[m].unit());
+    }
+  }
+
 string fixkey (const string &key)
   {
   for (tsize m=0; m<key.size(); ++m)
@@ -387,6 +406,7 @@ int fitshandle::num_hdus () const
 void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  check_columns(cols,extname);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -408,6 +428,7 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  check_columns(cols,extname);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
-- 
2.43.0


From 04b94148475de2e4c8d877ef2b36bfbd0d365c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:54 +0000
Subject: [PATCH 36/36] fix: data of a pointing that is no longer referenced

The array returned by Pointing.data() refers to memory of the pointing
object but did not keep the object alive: reading it after the last
reference to the pointing was gone crashed or returned other data.
---
 python/libconviqt_wrapper/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 21cc36c..7583b38 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -428,8 +428,11 @@ if available:
                 # There is no buffer to point to
                 return np.empty((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
-            arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
-            return arr
+            shape = ct.c_double * self._ncol * self._nrow
+            arr = ct.cast(buf, ct.POINTER(shape)).contents
+            # The array refers to memory of this object, keep it alive
+            arr._pointing = self
+            return np.ctypeslib.as_array(arr)
 
     # Convolver functions
 
-- 
2.43.0

