From 7fdb549157d7f454cc88ade509dfb1e2ece3168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 01/55] fix: wrap the longitude stencil as often as needed

With order + 1 > 2 * lmax + 2 the stencil is wider than the longitude
grid and a single wrap left indices outside the data cube.
---
 src/conviqt_math.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..99b36e8 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1401,9 +1401,11 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
+            // The stencil may be wider than the grid, wrap as often as needed
+            while (iphi0 >= nphi) {
                 iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            }
+            while (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1422,7 +1424,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
                 long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
+                while (iphinew >= nphi) {
                     iphinew -= nphi;
                 }
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
-- 
2.43.0


From c6a31631a819fb2c84a017c1061abe4168944601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/55] fix: default convolver lmax is the smaller of sky and
 beam lmax

The larger one makes the convolver read beyond the end of the other
expansion.
---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 99b36e8..d6b8de2 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,7 +121,7 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
-- 
2.43.0


From 60e38938cda643d7ca046d7de9854a4356f5e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/55] fix: limit the convolver's beam mmax to its lmax

Azimuthal orders above lmax made the Wigner recursion and the psi
phase tables run out of bounds.
---
 src/conviqt_math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index d6b8de2..ce9dd74 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -132,6 +132,10 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     } else if (beammmax > mmax_beam) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
+    if (this->beammmax > this->lmax) {
+        // There are no multipoles to go with the higher azimuthal orders
+        this->beammmax = this->lmax;
+    }
 
     // data cube gridding
 
-- 
2.43.0


From 835d5a3b5719023a8a6e5e212697ca1161014fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 04/55] fix: beam::read honours the requested mmax

It set mmax to the requested lmax whenever an mmax was asked for.
---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..f3bf0df 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = std::min(beammmax, lmax);
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From c59c2e858aaf4dff011bbfd5dd6d5347b333bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 05/55] fix: a beam that is read anew is not normalized

The flag of the previous coefficients survived, so normalize() and the
calibration were skipped.
---
 src/conviqt_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index f3bf0df..4b72a91 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -50,6 +50,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         mmax = std::min((int)lmax, mmax_file);
     }
     fname = infile_beam;
+    normalized_ = false;
 
     blmT_.Set(lmax, mmax);
     if (pol) {
-- 
2.43.0


From fc91911ff7c57bb7fbd55563f77fa6dc8c47255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 06/55] fix: every process learns that a sky or beam could not
 be read

Rank 0 alone accesses the file. When that failed, it threw and the other
processes waited in the broadcast forever.
---
 src/conviqt_io.cpp | 64 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 4b72a91..4b78b7e 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -8,6 +8,14 @@ using namespace levels;
 
 namespace conviqt {
 
+static void check_rank_zero(MPI_Manager &mpiMgr, int failed, std::string fname) {
+    // Only rank 0 accesses the file, let every process know if it could not
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read " + fname);
+    }
+}
+
 int beam::read(long beamlmax, long beammmax, bool beampol,
                std::string infile_beam, MPI_Comm comm) {
 
@@ -20,14 +28,19 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
 
     pol = beampol;
-    int lmax_file, mmax_file;
+    int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    check_rank_zero(mpiMgr, failed, infile_beam);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -61,15 +74,20 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
+    check_rank_zero(mpiMgr, failed, infile_beam);
 
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
@@ -114,14 +132,19 @@ int sky::read(long skylmax, bool skypol,
     }
 
     pol = skypol;
-    int lmax_file, mmax_file;
+    int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    check_rank_zero(mpiMgr, failed, infile_sky);
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -151,15 +174,20 @@ int sky::read(long skylmax, bool skypol,
     long slmsize = (lmax + 1) * (lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
+    check_rank_zero(mpiMgr, failed, infile_sky);
 
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
-- 
2.43.0


From 1071a6d7fac1083a7f6e4dbed65c6e91139ad743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 07/55] fix: keep latitude bin indices within the hit map

Samples at the equator and running out of samples before running out of
processes both accessed the element past the end.
---
 src/conviqt_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index ce9dd74..f81065c 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -294,7 +294,8 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         if (beta > halfpi) {
             beta = pi - beta;
         }
-        long ibin = beta / wbin;
+        // The equator belongs in the last bin
+        long ibin = std::min(long(beta / wbin), nbin - 1);
         ++my_hits[ibin];
     }
 
@@ -310,7 +311,7 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         double divisor = cores - corenum + 1;
         double nhit_target = nhitleft / divisor;
         long bin_hit = 0;
-        while (ibin < nbin) {
+        while (ibin < nbin - 1) {
             ++ibin;
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
-- 
2.43.0


From 72e8cf5973089f8e84a0f454c078a256021d2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 08/55] fix: refuse illegal colatitudes on every process and
 refuse NaN

The process with the illegal sample threw while the others waited for it in
the next collective call. A colatitude that is not a number passed the check
and indexed the hit map.
---
 src/conviqt_math.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index f81065c..539d439 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1510,15 +1510,26 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
         pntarr[5 * ii + 4] = my_offset + ii;
     }
 
-    // Check the angles for conformity
+    // Check the angles for conformity. Every process must learn about the
+    // outcome or the others would wait for this one.
 
+    int illegal = 0;
+    double illegal_theta = 0;
     for (long i = 0; i < totsize; ++i) {
         double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
+        if (!(theta >= 0 && theta <= pi)) {
+            illegal = 1;
+            illegal_theta = theta;
         }
     }
+    int any_illegal = 0;
+    mpiMgr.allreduceRaw<int>(&illegal, &any_illegal, 1, mpiMgr.Max);
+    if (illegal) {
+        throw std::runtime_error("convolver::convolve: Illegal theta: " +
+                                 std::to_string(illegal_theta) + " not in 0..pi");
+    } else if (any_illegal) {
+        throw std::runtime_error("convolver::convolve: Illegal theta on another process");
+    }
 
     // distribute the co-latitudes.
 
-- 
2.43.0


From 42ee4fbce159cbeecf4446400e70bae65dc3a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 09/55] fix: processes without samples take part in the
 convolution

They skipped the collective calls that redistribute the samples unless they
received some, leaving the other processes waiting. Two empty (null) buffers
are not an aliasing error either.
---
 levels/cxxsupport/mpi_support.cc |  2 +-
 src/conviqt_math.cpp             | 30 ++++++++++++++----------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..842f1bf 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,7 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  { levels_assert ((a!=b)||(a==0),"input and output buffers must not be identical"); }
 
 } // unnamed namespace
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 539d439..f9fa60d 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1573,14 +1573,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    // (collective, processes without samples take part)
+
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1638,14 +1638,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From 097831aeba9739b04d782533c50bbd2116ef74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 10/55] fix: sendrecv exchanges data between different
 processes

Both variants returned without communicating unless a process talked to itself.
---
 levels/cxxsupport/mpi_support.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 842f1bf..6696b7f 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -207,7 +207,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -217,9 +216,6 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
-
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
   }
-- 
2.43.0


From 212140869fe9147467f02efc035fdd076e9c25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 11/55] fix: initialize the members of default-constructed sky,
 beam and detector

Whether components exist, the expansion orders and the cross-polar leakage
used in the calibration were indeterminate.
---
 src/conviqt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..839f619 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -37,7 +37,7 @@ namespace conviqt {
 
 class beam {
 public :
-    beam() { normalized_ = false; }
+    beam() { normalized_ = false; lmax = 0; mmax = 0; pol = false; }
     beam(long beamlmax, long beammmax, bool pol,
          std::string infile_beam, MPI_Comm comm);
     int read(long beamlmax, long beammmax, bool pol,
@@ -61,7 +61,7 @@ private :
 
 class sky {
 public :
-    sky() {}
+    sky() { lmax = 0; pol = false; }
     sky(long skylmax, bool pol,
         std::string infile_sky,
         double fwhm_deconv_sky,
@@ -113,7 +113,7 @@ public :
 private :
 
     std::string det_id_;
-    double epsilon_;
+    double epsilon_ = 0;
     int verbosity = 0;
 
 };
-- 
2.43.0


From af72ed188283718f9e26dffe81157f08f220563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 12/55] fix: refuse to set up a convolver with lmax = 0

The Wigner generator rejects it with an exception inside a parallel region,
which ended the program.
---
 src/conviqt_math.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index f9fa60d..98612bf 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -125,6 +125,9 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
+    if (this->lmax < 1) {
+        throw std::runtime_error("Convolver lmax must be positive.");
+    }
 
     const int mmax_beam = b->get_mmax();
     if (beammmax < 0) {
-- 
2.43.0


From 7d2dbbd0f47d26feefaf5bdd6b12ee96f3469413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 13/55] fix: the C interface does not throw from the convolver
 functions

conviqt_convolver_new let exceptions of the constructor pass and
conviqt_convolver_convolve rethrew them.
---
 src/cconviqt.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..c58f675 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -314,9 +314,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
+                                                        lmax, beammmax, order,
+                                                        verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -377,8 +386,7 @@ extern "C" {
 
             cnvref->convolve(*pntref, calibrate);
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "conviqt_convolver_convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 8b208dce39a879ad60f7ff50f81700574754f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 14/55] fix: the Python wrapper raises when the convolver
 cannot be created

ctypes turns NULL into None, which never equals 0.
---
 python/libconviqt_wrapper/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..ede31a8 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -451,7 +451,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if not self._conv:  # a NULL pointer is None
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From b42bebd0daf2680fc61095404ec857778dfb0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 15/55] fix: the Python convolver keeps its sky, beam and
 detector alive

The library stores pointers to them; convolving after the last Python
reference was gone used freed memory.
---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index ede31a8..13d8b2f 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -440,6 +440,8 @@ if available:
         def __init__(
             self, sky, beam, detector, pol, lmax, mmax, order, verbosity, comm
         ):
+            # The library only stores pointers, keep the objects alive
+            self._inputs = (sky, beam, detector)
             self._conv = _conviqt.conviqt_convolver_new(
                 sky._sky,
                 beam._beam,
-- 
2.43.0


From 074a1b8f163882d89530caee7113c1094b533d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 16/55] fix: a failed read leaves the sky or beam as it was

The expansion orders and the polarisation flag were changed before the
file was known to be readable, so that using the object after the error
accessed coefficients that do not exist. Tables without any coefficients
are refused.
---
 src/conviqt_io.cpp | 101 +++++++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 40 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 4b78b7e..c4638b0 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -27,15 +27,15 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
     }
 
-    pol = beampol;
     int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
         try {
-            if (pol) {
+            if (beampol) {
                 get_almsize_pol(infile_beam, lmax_file, mmax_file);
             } else {
                 get_almsize(infile_beam, lmax_file, mmax_file);
             }
+            failed = lmax_file < 0 || mmax_file < 0; // no coefficients at all
         } catch (...) {
             failed = 1;
         }
@@ -51,34 +51,26 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         throw std::runtime_error("Beam mmax exceeds available expansion order.");
     }
     // lmax
-    if (beamlmax > 0) {
-        lmax = beamlmax;
-    } else {
-        lmax = lmax_file;
+    if (beamlmax <= 0) {
+        beamlmax = lmax_file;
     }
     // mmax
-    if (beammmax > 0) {
-        mmax = std::min(beammmax, lmax);
-    } else {
-        mmax = std::min((int)lmax, mmax_file);
+    if (beammmax <= 0) {
+        beammmax = mmax_file;
     }
-    fname = infile_beam;
-    normalized_ = false;
+    beammmax = std::min(beammmax, beamlmax);
 
-    blmT_.Set(lmax, mmax);
-    if (pol) {
-        blmG_.Set(lmax, mmax);
-        blmC_.Set(lmax, mmax);
-    }
+    // Only touch the members once the whole file has been read
+    Alm< xcomplex<float> > blmT, blmG, blmC;
 
-    long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
+    long blmsize = (beammmax + 1) * (beammmax + 2) + 2 * (beammmax + 1) * (beamlmax - beammmax);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            if (beampol) {
+                read_Alm_from_fits(infile_beam, blmT, blmG, blmC, beamlmax, beammmax);
             } else {
-                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+                read_Alm_from_fits(infile_beam, blmT, beamlmax, beammmax);
             }
         } catch (...) {
             failed = 1;
@@ -89,6 +81,25 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     check_rank_zero(mpiMgr, failed, infile_beam);
 
+    pol = beampol;
+    lmax = beamlmax;
+    mmax = beammmax;
+    fname = infile_beam;
+    normalized_ = false;
+
+    blmT_.Set(beamlmax, beammmax);
+    if (pol) {
+        blmG_.Set(beamlmax, beammmax);
+        blmC_.Set(beamlmax, beammmax);
+    }
+    if (rank == 0) {
+        blmT_ = blmT;
+        if (pol) {
+            blmG_ = blmG;
+            blmC_ = blmC;
+        }
+    }
+
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
@@ -131,15 +142,15 @@ int sky::read(long skylmax, bool skypol,
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
     }
 
-    pol = skypol;
     int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
         try {
-            if (pol) {
+            if (skypol) {
                 get_almsize_pol(infile_sky, lmax_file, mmax_file);
             } else {
                 get_almsize(infile_sky, lmax_file, mmax_file);
             }
+            failed = lmax_file < 0 || mmax_file < 0; // no coefficients at all
         } catch (...) {
             failed = 1;
         }
@@ -152,33 +163,25 @@ int sky::read(long skylmax, bool skypol,
     if (lmax_file < skylmax) {
         throw std::runtime_error("Sky lmax exceeds available expansion order.");
     }
-    if (skylmax > 0) {
-        lmax = skylmax;
-    } else {
-        lmax = lmax_file;
+    if (skylmax <= 0) {
+        skylmax = lmax_file;
     }
     // We require equal lmax and mmax
-    if (mmax_file < lmax) {
+    if (mmax_file < skylmax) {
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
-    int mmax = lmax;
-    fname = infile_sky;
-    fwhm_deconv = fwhm_deconv_sky;
 
-    slmT_.Set(lmax, lmax);
-    if (pol) {
-        slmG_.Set(lmax, mmax);
-        slmC_.Set(lmax, mmax);
-    }
+    // Only touch the members once the whole file has been read
+    Alm< xcomplex<float> > slmT, slmG, slmC;
 
-    long slmsize = (lmax + 1) * (lmax + 2);
+    long slmsize = (skylmax + 1) * (skylmax + 2);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            if (skypol) {
+                read_Alm_from_fits(infile_sky, slmT, slmG, slmC, skylmax, skylmax);
             } else {
-                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+                read_Alm_from_fits (infile_sky, slmT, skylmax, skylmax);
             }
         } catch (...) {
             failed = 1;
@@ -189,6 +192,24 @@ int sky::read(long skylmax, bool skypol,
     }
     check_rank_zero(mpiMgr, failed, infile_sky);
 
+    pol = skypol;
+    lmax = skylmax;
+    fname = infile_sky;
+    fwhm_deconv = fwhm_deconv_sky;
+
+    slmT_.Set(skylmax, skylmax);
+    if (pol) {
+        slmG_.Set(skylmax, skylmax);
+        slmC_.Set(skylmax, skylmax);
+    }
+    if (rank == 0) {
+        slmT_ = slmT;
+        if (pol) {
+            slmG_ = slmG;
+            slmC_ = slmC;
+        }
+    }
+
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-- 
2.43.0


From 12c832b7865135e4c3ee38806ab1b78288dd621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 17/55] fix: an array whose allocation failed does not keep the
 freed memory

arr::alloc left size and pointer pointing to memory already returned, so
that the destructor freed it a second time.
---
 levels/cxxsupport/ls_arr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..0a0adc3 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -220,9 +220,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
       {
       if (sz==this->s) return;
       if (own) stm.dealloc(this->d);
-      this->s = sz;
+      reset(); // in case the allocation fails
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
-- 
2.43.0


From b9254e1e9eb02c3176fc43f43765568b2a9a7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 18/55] fix: arr::interpol_helper finds the function it is
 based on

---
 levels/cxxsupport/ls_arr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 0a0adc3..d4a374d 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -102,7 +102,7 @@ template <typename T> class arr_ref
         The array must be ordered in ascending order; no two values may be
         equal. */
     void interpol_helper (const T &val, tsize &idx, double &frac) const
-      { ::interpol_helper (d, d+s, val, idx, frac); }
+      { levels::interpol_helper (d, d+s, val, idx, frac); }
 
     /*! Helper function for linear interpolation (or extrapolation).
         \a idx and \a val are computed such that
@@ -114,7 +114,7 @@ template <typename T> class arr_ref
         for \a i<j; no two values may be equal. */
     template<typename Comp> void interpol_helper (const T &val, Comp comp,
       tsize &idx, double &frac) const
-      { ::interpol_helper (d, d+s, val, comp, idx, frac); }
+      { levels::interpol_helper (d, d+s, val, comp, idx, frac); }
 
     /*! Returns the minimum and maximum entry in \a minv and \a maxv,
         respectively. Throws an exception if the array is zero-sized. */
-- 
2.43.0


From e7516ee7902d0d82803f051ba6ecd3ed8a5ed45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 19/55] fix: nearest and isqrt are exact for all arguments

nearest rounded arguments just below 0.5 and odd ones above 2^52 up,
isqrt overflowed for arguments close to the largest 64 bit integer.
---
 levels/cxxsupport/ls_math_utils.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/ls_math_utils.h b/levels/cxxsupport/ls_math_utils.h
index 1f0bc5d..6a4a758 100644
--- a/levels/cxxsupport/ls_math_utils.h
+++ b/levels/cxxsupport/ls_math_utils.h
@@ -64,7 +64,12 @@ template<typename I, typename F> inline I ifloor (F arg)
 
 /*! Returns the integer which is nearest to \a arg. */
 template<typename I, typename F> inline I nearest (F arg)
-  { return ifloor<I>(arg+0.5); }
+  {
+  // adding 0.5 first would round for arguments just below 0.5 and above 2^52
+  using namespace std;
+  F fl = floor(arg);
+  return I((arg-fl>=0.5) ? fl+1 : fl);
+  }
 
 /*! Returns the remainder of the division \a v1/v2.
     The result is non-negative.
@@ -110,9 +115,10 @@ template<typename I> struct isqrt_helper__ <I, true>
     using namespace std;
     I res = sqrt(double(arg)+0.5);
     if (arg<(int64(1)<<50)) return uint32(res);
-    if (res*res>arg)
+    // comparing quotients, as the squares might overflow
+    if (res>arg/res)
       --res;
-    else if ((res+1)*(res+1)<=arg)
+    else if ((res+1)<=arg/(res+1))
       ++res;
     return uint32(res);
     }
-- 
2.43.0


From 055b1dd98f883155cbfb7dedf6efdcf8ed07cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 20/55] fix: chunkMaker does not wrap around for huge ranges

---
 levels/cxxsupport/ls_share_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_share_utils.h b/levels/cxxsupport/ls_share_utils.h
index 077c6b9..86aa671 100644
--- a/levels/cxxsupport/ls_share_utils.h
+++ b/levels/cxxsupport/ls_share_utils.h
@@ -76,7 +76,7 @@ class chunkMaker
       if (offset>=s_full) return false;
       start=offset;
       size=min(s_chunk,s_full-offset);
-      offset+=s_chunk;
+      offset+=size;
       return true;
       }
   };
-- 
2.43.0


From 098ed3d836ea6a9c090be82fbfb0b06a87ba8cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 21/55] fix: no integer overflow in the first
 wignergen::prepare

---
 levels/cxxsupport/wigner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/wigner.cc b/levels/cxxsupport/wigner.cc
index 75b806d..c48c7c7 100644
--- a/levels/cxxsupport/wigner.cc
+++ b/levels/cxxsupport/wigner.cc
@@ -317,7 +317,7 @@ void wignergen_scalar::prepare (int m1_, int m2_)
   int mlo_=std::abs(m1_), mhi_=std::abs(m2_);
   if (mhi_<mlo_) swap(mhi_,mlo_);
   bool ms_similar = ((mhi==mhi_) && (mlo==mlo_));
-  bool flip_m_sign = ((m1*m2)!=(m1_*m2_));
+  bool flip_m_sign = ((int64(m1)*m2)!=(int64(m1_)*m2_));
 
   m1=m1_; m2=m2_;
   mlo=am1=std::abs(m1); mhi=am2=std::abs(m2);
-- 
2.43.0


From 4a14f186607bb9ca891e01d7d8870d936e840cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 22/55] fix: svd_init left the superdiagonal unscaled when
 cancelling a zero singular value

---
 levels/c_utils/svd_c.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/levels/c_utils/svd_c.c b/levels/c_utils/svd_c.c
index aa3fecc..4f9d434 100644
--- a/levels/c_utils/svd_c.c
+++ b/levels/c_utils/svd_c.c
@@ -239,21 +239,21 @@ void svd_init (double **matrix, double epsilon, int m, int n,
         for (i=l; i<=k; ++i)
           {
           f = s*rv1[i];
-          if (fabs(f) + anorm != anorm)
+          rv1[i] = c*rv1[i];
+          if (fabs(f) + anorm == anorm)
+            break;
+          g = w[i];
+          h = pythag(f, g);
+          w[i] = h;
+          h = 1.0/h;
+          c = g*h;
+          s = (-f*h);
+          for (j=0; j<m; ++j)
             {
-            g = w[i];
-            h = pythag(f, g);
-            w[i] = h;
-            h = 1.0/h;
-            c = g*h;
-            s = (-f*h);
-            for (j=0; j<m; ++j)
-              {
-              y = u[nm][j];
-              z = u[i][j];
-              u[nm][j] = y*c + z*s;
-              u[i][j]  = z*c - y*s;
-              }
+            y = u[nm][j];
+            z = u[i][j];
+            u[nm][j] = y*c + z*s;
+            u[i][j]  = z*c - y*s;
             }
           }
         }
-- 
2.43.0


From 2748cfba274adcc9cacd1217b60d2252b7121081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 23/55] fix: rotmatrix::toAxisAngle returned a wrong axis close
 to half a turn

---
 levels/cxxsupport/rotmatrix.cc | 52 ++++++++++++++++------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/levels/cxxsupport/rotmatrix.cc b/levels/cxxsupport/rotmatrix.cc
index d56feec..fe10bee 100644
--- a/levels/cxxsupport/rotmatrix.cc
+++ b/levels/cxxsupport/rotmatrix.cc
@@ -73,47 +73,45 @@ void rotmatrix::toAxisAngle (vec3 &axis, double &angle) const
 
   double s2 = axis.Length();
 
-  if (s2>0)
-    {
-    angle = atan2(s2,c2);
-    axis *= 1/s2;
-    return;
-    }
+  angle = atan2(s2,c2);
 
-  if (c2>=2) // angle is 0
+  if (c2>0) // less than 90 degrees
     {
-    axis = vec3(1,0,0);
-    angle = 0;
+    if (s2>0)
+      axis *= 1/s2;
+    else // angle is 0
+      axis = vec3(1,0,0);
     return;
     }
 
-  angle = pi;
+  // For larger angles the antisymmetric part is small close to pi, and only
+  // good for the sign; the direction is taken from the symmetric part.
+  const vec3 anti(axis);
 
   int choice = 0; // assume entry[0][0] is the largest
-  if ((entry[1][1]>entry[0][0]) && (entry[1][1]>entry[2][2])) choice=1;
-  if ((entry[2][2]>entry[0][0]) && (entry[2][2]>entry[1][1])) choice=2;
+  if (entry[1][1]>entry[0][0]) choice=1;
+  if (entry[2][2]>entry[choice][choice]) choice=2;
 
   if (choice==0)
     {
-    axis.x = 0.5*sqrt(entry[0][0]-entry[1][1]-entry[2][2]+1);
-    double half_inv = 0.5/axis.x;
-    axis.y = half_inv*entry[0][1];
-    axis.z = half_inv*entry[0][2];
-    return;
+    axis.x = 2*entry[0][0]-c2;
+    axis.y = entry[0][1]+entry[1][0];
+    axis.z = entry[0][2]+entry[2][0];
     }
-  if (choice==1)
+  else if (choice==1)
     {
-    axis.y = 0.5*sqrt(entry[1][1]-entry[0][0]-entry[2][2]+1);
-    double half_inv = 0.5/axis.y;
-    axis.x = half_inv*entry[0][1];
-    axis.z = half_inv*entry[1][2];
-    return;
+    axis.x = entry[0][1]+entry[1][0];
+    axis.y = 2*entry[1][1]-c2;
+    axis.z = entry[1][2]+entry[2][1];
+    }
+  else
+    {
+    axis.x = entry[0][2]+entry[2][0];
+    axis.y = entry[1][2]+entry[2][1];
+    axis.z = 2*entry[2][2]-c2;
     }
 
-  axis.z = 0.5*sqrt(entry[2][2]-entry[0][0]-entry[1][1]+1);
-  double half_inv = 0.5/axis.z;
-  axis.x = half_inv*entry[0][2];
-  axis.y = half_inv*entry[1][2];
+  axis *= ((dotprod(axis,anti)<0) ? -1 : 1)/axis.Length();
   }
 
 void rotmatrix::Make_Axis_Rotation_Transform (const vec3 &axis, double angle)
-- 
2.43.0


From 00aedc40ca88c4f96e1541a908cead1609592b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 24/55] fix: dataToString lost the last digit of some floats
 and doubles

---
 levels/cxxsupport/string_utils.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 72160c2..a253685 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -62,18 +62,30 @@ template<> string dataToString (const bool &x)
   { return x ? "T" : "F"; }
 template<> string dataToString (const string &x)
   { return trim(x); }
-template<> string dataToString (const float &x)
+namespace {
+
+/* Converts \a x with \a prec significant digits, or with one more digit if
+   those do not identify the value uniquely. */
+template<typename T> string floatToString (const T &x, int prec)
   {
   ostringstream strstrm;
-  strstrm << setprecision(8) << x;
-  return trim(strstrm.str());
+  strstrm << setprecision(prec) << x;
+  string res=trim(strstrm.str());
+  istringstream back(res);
+  T y;
+  back >> y;
+  if (back && (y==x)) return res;
+  ostringstream strstrm2;
+  strstrm2 << setprecision(prec+1) << x;
+  return trim(strstrm2.str());
   }
+
+} // unnamed namespace
+
+template<> string dataToString (const float &x)
+  { return floatToString(x,8); }
 template<> string dataToString (const double &x)
-  {
-  ostringstream strstrm;
-  strstrm << setprecision(16) << x;
-  return trim(strstrm.str());
-  }
+  { return floatToString(x,16); }
 template<> string dataToString (const long double &x)
   {
   ostringstream strstrm;
-- 
2.43.0


From 0a6bc244ff58ee9c30ac7e43289e523c4daaf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 25/55] fix: intToString negated the smallest integer in a
 signed type

---
 levels/cxxsupport/string_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index a253685..d3b9bd2 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -108,7 +108,7 @@ string intToString(int64 x, tsize width)
   {
   ostringstream strstrm;
   (x>=0) ? strstrm << setw(width) << setfill('0') << x
-         : strstrm << "-" << setw(width-1) << setfill('0') << -x;
+         : strstrm << "-" << setw(width-1) << setfill('0') << -uint64(x);
   string res = strstrm.str();
   levels_assert(res.size()==width,"number too large");
   return trim(res);
-- 
2.43.0


From 5ab4f3d54fb9e813a95c794af540b43b9d0181e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 26/55] fix: stringToData accepted negative numbers for
 unsigned types

---
 levels/cxxsupport/string_utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index d3b9bd2..740006c 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -34,6 +34,7 @@
 #include <fstream>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <string>
 #include <cstring>
 #include <cctype>
@@ -130,6 +131,11 @@ void end_stringToData (const string &x, const char *tn, istringstream &strstrm)
 
 template<typename T> void stringToData (const string &x, T &value)
   {
+  // operator>> wraps negative numbers around when reading unsigned types
+  if (numeric_limits<T>::is_integer && (!numeric_limits<T>::is_signed)
+      && (sizeof(T)>1))
+    levels_assert (x.find('-')==string::npos, string("conversion error in "
+      "stringToData<")+type2typename<T>()+">(\""+x+"\")");
   istringstream strstrm(x);
   strstrm >> value;
   end_stringToData (x,type2typename<T>(),strstrm);
-- 
2.43.0


From aa62dc475eb3e38555d6fe91c730286203c3e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 27/55] fix: dateandtime2planck failed for the last second of
 1969

---
 levels/c_utils/time_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/levels/c_utils/time_utils.c b/levels/c_utils/time_utils.c
index 065ce4b..9e4946a 100644
--- a/levels/c_utils/time_utils.c
+++ b/levels/c_utils/time_utils.c
@@ -95,8 +95,10 @@ long long dateandtime2planck (int yr, int mth, int day, int hr, int min,
   mytime.tm_mon = mth-1;
   mytime.tm_year = yr-1900;
   mytime.tm_isdst=0;
+  mytime.tm_wday=-1;
   tplanck = my_timegm(&mytime);
-  UTIL_ASSERT(tplanck!=-1,"error in mktime()");
+  /* -1 is also the last second of 1969; tm_wday is only set on success */
+  UTIL_ASSERT((tplanck!=-1)||(mytime.tm_wday>=0),"error in mktime()");
   return tplanck-unixzero+SECS_1958_TO_1970;
   }
 
-- 
2.43.0


From 551041516745548555d2d27d6952e10fab53f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 28/55] fix: multi-dimensional arrays kept their old sizes
 after a failed allocation

---
 levels/cxxsupport/ls_arr.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index d4a374d..4552206 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -384,7 +384,10 @@ template <typename T, typename storageManager> class arr2T
     void alloc (tsize sz1, tsize sz2)
       {
       if (sz1*sz2 != d.size())
+        {
+        s1=s2=0; // in case the allocation fails
         d.alloc(sz1*sz2);
+        }
       s1=sz1; s2=sz2;
       }
     /*! Allocates space for an array with \a sz1*sz2 elements.
@@ -540,9 +543,10 @@ template <typename T> class arr2b
     void alloc (tsize sz1, tsize sz2)
       {
       if ((s1==sz1) && (s2==sz2)) return;
+      s1=s2=0; // in case the allocation fails
+      d.alloc(sz1*sz2);
+      d1.alloc(sz1);
       s1=sz1; s2=sz2;
-      d.alloc(s1*s2);
-      d1.alloc(s1);
       fill_d1();
       }
     /*! Deallocates the space and makes the array zero-sized. */
@@ -605,6 +609,8 @@ template <typename T> class arr3
         The content of the array is undefined on exit. */
     void alloc (tsize sz1, tsize sz2, tsize sz3)
       {
+      if (sz1*sz2*sz3 != d.size())
+        s1=s2=s3=s2s3=0; // in case the allocation fails
       d.alloc(sz1*sz2*sz3);
       s1=sz1; s2=sz2; s3=sz3; s2s3=s2*s3;
       }
-- 
2.43.0


From 08f9b070d8cc00987f7571a5ca3bcf52abab3423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 29/55] fix: aligned arrays with an overflowing size in bytes
 were allocated too small

---
 levels/cxxsupport/ls_alloc_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/cxxsupport/ls_alloc_utils.h b/levels/cxxsupport/ls_alloc_utils.h
index bd82054..b2a70cc 100644
--- a/levels/cxxsupport/ls_alloc_utils.h
+++ b/levels/cxxsupport/ls_alloc_utils.h
@@ -52,6 +52,7 @@ template <typename T, int align> class alignAlloc__
       using namespace std;
       if (sz==0) return 0;
       levels_assert((align&(align-1))==0,"alignment must be power of 2");
+      levels_assert(sz<=tsize(-1)/sizeof(T),"array size too large");
       void *res;
 /* OSX up to version 10.5 does not define posix_memalign(), but fortunately
    the normal malloc() returns 16 byte aligned storage */
-- 
2.43.0


From f6f1ac5a21411a0a22f37aa1aeef6322c1e20f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 30/55] fix: sorting empty arrays accessed elements that do not
 exist

---
 src/conviqt_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_util.cpp b/src/conviqt_util.cpp
index 7c99637..3dde34a 100644
--- a/src/conviqt_util.cpp
+++ b/src/conviqt_util.cpp
@@ -44,7 +44,7 @@ void hpsort_DL(levels::arr<double> &ra, levels::arr<long> &brr) {
         temp[i] = brr[j];
     }
 
-    memcpy(&(brr[0]), &(temp[0]), sizeof(long) * n);
+    std::copy(temp.begin(), temp.end(), brr.begin());
 
 }
 
@@ -149,7 +149,7 @@ void hpsort_DDcm(levels::arr<double> &ra, levels::arr<double> &brr) {
         ra[i] = brr[j];
     }
 
-    memcpy(&(brr[0]), &(ra[0]), sizeof(double) * n);
+    std::copy(ra.begin(), ra.end(), brr.begin());
 
     // Pull the sorted ar-values
 
-- 
2.43.0


From 8881b6fd9e0de0d38883afe1ae4fd3989381a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 31/55] fix: number of rows after writing to vector columns,
 and columns without elements

---
 levels/cxxsupport/fitshandle.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..77c2fac 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -263,7 +263,9 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
-  levels_assert (ndata<=(repc*nrows_-offset),"read_column(): array too large");
+  levels_assert ((offset>=0) && (ndata<=(repc*nrows_-offset)),
+    "read_column(): array too large");
+  if (repc==0) return;
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
   fits_read_col (FPTR, type2ftc(type), colnum, frow, felem, ndata, 0, data, 0,
@@ -275,12 +277,14 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert ((repc>0)||(ndata==0),"write_column(): column has no elements");
+  if (ndata==0) return;
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
-  nrows_ = max(nrows_,offset+ndata);
   check_errors();
+  nrows_ = max(nrows_,(offset+ndata-1)/repc+1);
   }
 
 void fitshandle::getKeyHelper(const string &name) const
@@ -712,8 +716,8 @@ void fitshandle::write_column_raw_void
         }
       fits_write_col (FPTR, TSTRING, colnum, offset+1, 1, num,
         tdata.p0(), &status);
-      nrows_ = max(nrows_,offset+num);
       check_errors();
+      if (num>0) nrows_ = max(nrows_,offset+num);
       break;
       }
     default:
-- 
2.43.0


From 600b74bad7452e2f6fdbd6421fd20f51b7e61704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 32/55] fix: long file names overflowed a buffer in
 fitshandle::open

---
 levels/cxxsupport/fitshandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 77c2fac..c08fd51 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -309,6 +309,7 @@ void fitshandle::open (const string &fname)
   clean_all();
   fitsfile *ptr=NULL;
   // Fixed a Valgrind error by using a fixed length char array for the file name
+  levels_assert (fname.length()<FLEN_FILENAME, "FITS file name too long");
   char fn[FLEN_FILENAME];
   std::copy(fname.begin(), fname.end(), fn);
   fn[ fname.length() ] = '\0';
-- 
2.43.0


From a1b536088ff723cd4612670dccead8b84b65e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 33/55] fix: fitshandle accesses without a file, with over-long
 names, or to columns that do not exist

---
 levels/cxxsupport/fitshandle.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index c08fd51..f871e16 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -361,9 +361,10 @@ string fitshandle::fileName() const
 
 void fitshandle::goto_hdu (int hdu)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   int curhdu;
   fits_get_hdu_num(FPTR,&curhdu);
-  if (curhdu!=hdu)
+  if ((curhdu!=hdu) || (hdutype_==INVALID))
     {
     fits_movabs_hdu(FPTR, hdu, &hdutype_, &status);
     check_errors();
@@ -373,6 +374,7 @@ void fitshandle::goto_hdu (int hdu)
 
 int fitshandle::num_hdus () const
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   int result;
   fits_get_num_hdus (FPTR, &result, &status);
   check_errors();
@@ -382,12 +384,15 @@ int fitshandle::num_hdus () const
 void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert((cols[m].name().size()<=80) && (cols[m].unit().size()<=80),
+      "name or unit of a column too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
@@ -403,12 +408,15 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert((cols[m].name().size()<=80) && (cols[m].unit().size()<=80),
+      "name or unit of a column too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
@@ -431,6 +439,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
 void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   arr<LONGLONG> tmpax(Axes.size());
   for (long m=0; m<long(Axes.size()); m++) tmpax[m]=Axes[Axes.size()-1-m];
@@ -442,6 +451,7 @@ void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
 template<typename T>
   void fitshandle::insert_image (PDT type, const arr2<T> &data)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   arr<LONGLONG> tmpax(2);
   tmpax[0] = data.size2(); tmpax[1] = data.size1();
@@ -458,7 +468,7 @@ template void fitshandle::insert_image (PDT type, const arr2<float> &data);
 
 void fitshandle::write_checksum()
   {
-  levels_assert(connected(),"handle not connected to a file");
+  levels_assert(fptr!=0,"handle not connected to a file");
   fits_write_chksum (FPTR, &status);
   check_errors();
   }
@@ -506,7 +516,7 @@ int64 fitshandle::nelems(int i) const
   }
 int64 fitshandle::efficientChunkSize(int i) const
   {
-  levels_assert(table_hdu(1),"incorrect FITS table access");
+  levels_assert(table_hdu(i),"incorrect FITS table access");
   long int res;
   fits_get_rowsize(FPTR, &res, &status);
   levels_assert(res>=1,"bad recommended FITS chunk size");
-- 
2.43.0


From 3c9aede470d053d6abd7a56c6eb27af8420a7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 34/55] fix: text columns in ASCII tables could be neither
 created nor read

---
 levels/cxxsupport/fitshandle.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index f871e16..8c3a3b5 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -209,6 +209,7 @@ void fitshandle::init_asciitab()
   {
   char ttype[81], tunit[81], tform[81];
   int ncol, typecode;
+  long width;
   fits_get_num_cols (FPTR, &ncol, &status);
   { LONGLONG tmp; fits_get_num_rowsll (FPTR, &tmp, &status); nrows_=tmp; }
   check_errors();
@@ -216,9 +217,10 @@ void fitshandle::init_asciitab()
     {
     fits_get_acolparms (FPTR, m, ttype, 0, tunit, tform,
                         0, 0, 0, 0, &status);
-    fits_ascii_tform (tform, &typecode, 0,0, &status);
+    fits_ascii_tform (tform, &typecode, &width,0, &status);
     check_errors();
-    columns_.push_back (fitscolumn (ttype,tunit,1,ftc2type(typecode)));
+    columns_.push_back (fitscolumn (ttype,tunit,
+      (typecode==TSTRING) ? width : 1,ftc2type(typecode)));
     }
   }
 
@@ -420,7 +422,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-    if (cols[m].type()!=TSTRING)
+    if (cols[m].type()!=LEVELS_STRING)
       {
       levels_assert (cols[m].repcount()==1,"bad repcount for ASCII table");
       x << type2asciiform(cols[m].type());
-- 
2.43.0


From 4761f3c565a0c69695c64e16b3f5b88dfac0542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 35/55] fix: sub-images exceeding the image delivered other
 pixels

---
 levels/cxxsupport/fitshandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 8c3a3b5..0655646 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -792,6 +792,8 @@ template<typename T> void fitshandle::read_subimage
   {
   levels_assert(image_hdu(),"not connected to an image");
   levels_assert (axes_.size()==2, "wrong number of dimensions");
+  levels_assert ((xl>=0) && (yl>=0) && (int64(xl+data.size1())<=axes_[0])
+    && (int64(yl+data.size2())<=axes_[1]), "sub-image exceeds the image");
   for (tsize m=0; m<data.size1(); ++m)
     fits_read_img (FPTR, fitsType<T>(), (xl+m)*axes_[1]+yl+1,
       data.size2(), 0, &data[m][0], 0, &status);
-- 
2.43.0


From 63f91a41882f1c97256e4cd1e914385dda2ff899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 36/55] fix: compressed coefficient files of higher order than
 the coefficients

---
 levels/Healpix_cxx/alm_fitsio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index efc8fc5..2f76152 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -209,6 +209,10 @@ template<typename T> void write_compressed_Alm_to_fits
   arr<int> index;
   arr<double> re, im;
 
+  // coefficients beyond the orders of the input are zero
+  if (lmax>alms.Lmax()) lmax=alms.Lmax();
+  if (mmax>alms.Mmax()) mmax=alms.Mmax();
+
   int n_alms = 0;
   for (int m=0; m<=mmax; ++m)
     for (int l=m; l<=lmax; ++l)
-- 
2.43.0


From 2dd2e71504eee6a2d14d9240eb4445b2b6f9ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 37/55] fix: tiny coefficients were dropped from compressed
 coefficient files

---
 levels/Healpix_cxx/alm_fitsio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index 2f76152..194aa46 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -216,7 +216,7 @@ template<typename T> void write_compressed_Alm_to_fits
   int n_alms = 0;
   for (int m=0; m<=mmax; ++m)
     for (int l=m; l<=lmax; ++l)
-      if (alms(l,m).norm()>0) ++n_alms;
+      if ((alms(l,m).re!=0) || (alms(l,m).im!=0)) ++n_alms;
 
   int l=0, m=0;
   int real_lmax=0, real_mmax=0;
@@ -228,7 +228,7 @@ template<typename T> void write_compressed_Alm_to_fits
     re.alloc(ppix); im.alloc(ppix);
     for (tsize i=0; i<ppix; ++i)
       {
-      while (alms(l,m).norm()==0)
+      while ((alms(l,m).re==0) && (alms(l,m).im==0))
         {
         ++m;
         if ((m>l) || (m>mmax)) { ++l; m=0; }
-- 
2.43.0


From 75c7e2f78eecdae3489a94701ee6399cda415c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 38/55] fix: negative 8-bit header keys were stored as positive
 values

---
 levels/cxxsupport/fitshandle.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 0655646..f4a79af 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -561,6 +561,10 @@ void fitshandle::set_key_void (const string &key, const void *value,
   switch (type)
     {
     case LEVELS_INT8:
+      fits_update_key (FPTR, TSBYTE, const_cast<char *>(key2.c_str()),
+        const_cast<void *>(value), const_cast<char *>(comment.c_str()),
+        &status);
+      break;
     case LEVELS_UINT8:
     case LEVELS_INT16:
     case LEVELS_INT32:
@@ -598,6 +602,10 @@ void fitshandle::get_key_void (const string &name, void *value, PDT type) const
   switch (type)
     {
     case LEVELS_INT8:
+      fits_read_key (FPTR, TSBYTE, const_cast<char *>(name.c_str()),
+        value, 0, &status);
+      getKeyHelper(name);
+      break;
     case LEVELS_UINT8:
     case LEVELS_INT16:
     case LEVELS_INT32:
-- 
2.43.0


From 6e9a305c7b730c39dd5af098f82a06b715c8fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 39/55] fix: writing data to a read-only file was accepted and
 ended the program later

---
 levels/cxxsupport/fitshandle.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index f4a79af..24158ef 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -137,6 +137,14 @@ string fixkey (const string &key)
 
   return key;
   }
+
+/*! Writing to a read-only file would only be noticed when it is closed. */
+void assert_writable (fitsfile *ptr)
+  {
+  int mode=READONLY, stat=0;
+  fits_file_mode (ptr, &mode, &stat);
+  levels_assert ((stat==0) && (mode==READWRITE),"file not open for writing");
+  }
 } // unnamed namespace
 
 fitscolumn::fitscolumn()
@@ -278,6 +286,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   PDT type, int64 offset)
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
+  assert_writable(FPTR);
   int64 repc = columns_[colnum-1].repcount();
   levels_assert ((repc>0)||(ndata==0),"write_column(): column has no elements");
   if (ndata==0) return;
@@ -387,6 +396,7 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
   const string &extname)
   {
   levels_assert(fptr!=0,"handle not connected to a file");
+  assert_writable(FPTR);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -411,6 +421,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
   const string &extname)
   {
   levels_assert(fptr!=0,"handle not connected to a file");
+  assert_writable(FPTR);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -442,6 +453,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
   {
   levels_assert(fptr!=0,"handle not connected to a file");
+  assert_writable(FPTR);
   clean_data();
   arr<LONGLONG> tmpax(Axes.size());
   for (long m=0; m<long(Axes.size()); m++) tmpax[m]=Axes[Axes.size()-1-m];
@@ -454,6 +466,7 @@ template<typename T>
   void fitshandle::insert_image (PDT type, const arr2<T> &data)
   {
   levels_assert(fptr!=0,"handle not connected to a file");
+  assert_writable(FPTR);
   clean_data();
   arr<LONGLONG> tmpax(2);
   tmpax[0] = data.size2(); tmpax[1] = data.size1();
@@ -471,6 +484,7 @@ template void fitshandle::insert_image (PDT type, const arr2<float> &data);
 void fitshandle::write_checksum()
   {
   levels_assert(fptr!=0,"handle not connected to a file");
+  assert_writable(FPTR);
   fits_write_chksum (FPTR, &status);
   check_errors();
   }
@@ -557,6 +571,7 @@ void fitshandle::set_key_void (const string &key, const void *value,
   PDT type, const string &comment)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   string key2 = fixkey(key);
   switch (type)
     {
@@ -644,6 +659,7 @@ void fitshandle::get_key_void (const string &name, void *value, PDT type) const
 void fitshandle::delete_key (const string &name)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   fits_delete_key (FPTR, const_cast<char *>(name.c_str()), &status);
   check_errors();
   }
@@ -651,6 +667,7 @@ void fitshandle::delete_key (const string &name)
 void fitshandle::add_comment(const string &comment)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   fits_write_comment(FPTR,const_cast<char *>(comment.c_str()),&status);
   check_errors();
   }
@@ -728,6 +745,7 @@ void fitshandle::write_column_raw_void
       {
       const string *data2 = static_cast<const string *> (data);
       levels_assert(table_hdu(colnum),"incorrect FITS table access");
+      assert_writable(FPTR);
       tsize stringlen = safe_cast<tsize>(columns_[colnum-1].repcount()+1);
       arr2b<char> tdata(safe_cast<tsize>(num), stringlen);
       for (long m=0;m<num;++m)
@@ -753,6 +771,7 @@ void fitshandle::write_image2D_void (const void *data, PDT type, tsize s1,
   levels_assert (axes_.size()==2, "wrong number of dimensions");
   levels_assert (axes_[0]==int64(s1), "wrong size of dimension 1");
   levels_assert (axes_[1]==int64(s2), "wrong size of dimension 2");
+  assert_writable(FPTR);
 
   fits_write_img (FPTR, type2ftc(type), 1, axes_[0]*axes_[1],
     const_cast<void *>(data), &status);
@@ -763,6 +782,7 @@ void fitshandle::write_subimage_void (const void *data, PDT type, tsize sz,
   int64 offset)
   {
   levels_assert(image_hdu(),"not connected to an image");
+  assert_writable(FPTR);
   fits_write_img (FPTR, type2ftc(type), 1+offset, sz, const_cast<void *>(data),
     &status);
   check_errors();
-- 
2.43.0


From bd761ba9e1ce1e86e0d9d68235b98685d4fae759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 40/55] fix: a file that could not be closed properly was
 closed twice

---
 levels/cxxsupport/fitshandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 24158ef..733ae39 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -188,8 +188,8 @@ void fitshandle::clean_all()
   if (!fptr) return;
   clean_data();
   fits_close_file (FPTR, &status);
-  check_errors();
   fptr=0;
+  check_errors();
   }
 
 bool fitshandle::table_hdu (tsize col) const
-- 
2.43.0


From ec8592fbfbd71d9c662a1efb46a8c636b1bac5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 41/55] fix: sub-images could be written and read beyond the
 end of the image

---
 levels/cxxsupport/fitshandle.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 733ae39..fb83eac 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -783,6 +783,10 @@ void fitshandle::write_subimage_void (const void *data, PDT type, tsize sz,
   {
   levels_assert(image_hdu(),"not connected to an image");
   assert_writable(FPTR);
+  int64 npix = 1;
+  for (tsize m=0; m<axes_.size(); ++m) npix *= axes_[m];
+  levels_assert ((offset>=0) && (offset<=npix) && (int64(sz)<=npix-offset),
+    "sub-image exceeds the image");
   fits_write_img (FPTR, type2ftc(type), 1+offset, sz, const_cast<void *>(data),
     &status);
   check_errors();
@@ -837,6 +841,10 @@ void fitshandle::read_subimage_void (void *data, PDT type, tsize ndata,
   int64 offset) const
   {
   levels_assert(image_hdu(),"not connected to an image");
+  int64 npix = 1;
+  for (tsize m=0; m<axes_.size(); ++m) npix *= axes_[m];
+  levels_assert ((offset>=0) && (offset<=npix) && (int64(ndata)<=npix-offset),
+    "sub-image exceeds the image");
   fits_read_img (FPTR, type2ftc(type), 1+offset, ndata, 0, data, 0, &status);
   check_errors();
   }
-- 
2.43.0


From e421381433d10946777e823861bf38433021856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 42/55] fix: a refused Alm::Set changed the orders but not the
 coefficients

---
 levels/Healpix_cxx/ls_alm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/Healpix_cxx/ls_alm.h b/levels/Healpix_cxx/ls_alm.h
index d3b6ad8..817a695 100644
--- a/levels/Healpix_cxx/ls_alm.h
+++ b/levels/Healpix_cxx/ls_alm.h
@@ -100,8 +100,8 @@ template<typename T> class Alm: public Alm_Base
         \a lmax and \a mmax. */
     void Set (int lmax_, int mmax_)
       {
+      alm.alloc(Num_Alms(lmax_,mmax_));
       Alm_Base::Set(lmax_, mmax_);
-      alm.alloc(Num_Alms(lmax,mmax));
       }
 
     /*! Deallocates the old coefficients and uses the content of \a data
-- 
2.43.0


From 928acfbd153e99b24029a4b5a4be54e3fa2e6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 43/55] fix: power spectra with fewer components kept the
 arrays of the others, and had no defined number at first

---
 levels/Healpix_cxx/ls_powspec.h | 2 +-
 levels/Healpix_cxx/powspec.cc   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/levels/Healpix_cxx/ls_powspec.h b/levels/Healpix_cxx/ls_powspec.h
index 3c83a45..157f68a 100644
--- a/levels/Healpix_cxx/ls_powspec.h
+++ b/levels/Healpix_cxx/ls_powspec.h
@@ -47,7 +47,7 @@ class PowSpec
 
   public:
     /*! */
-    PowSpec() {}
+    PowSpec() : num_specs(0) {}
     /*! Constructs a \a PowSpec with \a nspec components and a maximum
         multipole of \a lmax. \a nspec can be 1 (TT), 4 (TT,GG,CC,TG) or
         6 (TT,GG,CC,TG,TC,GC). */
diff --git a/levels/Healpix_cxx/powspec.cc b/levels/Healpix_cxx/powspec.cc
index a9ab576..3b9b70f 100644
--- a/levels/Healpix_cxx/powspec.cc
+++ b/levels/Healpix_cxx/powspec.cc
@@ -93,9 +93,10 @@ bool PowSpec::consistentAutoPowspec() const
 
 void PowSpec::Set(int nspec, int lmax)
   {
-  num_specs=nspec;
-  levels_assert ((num_specs==1) || (num_specs==4) || (num_specs==6),
+  levels_assert ((nspec==1) || (nspec==4) || (nspec==6),
     "wrong number of spectrums");
+  dealloc();
+  num_specs=nspec;
   tt_.alloc(lmax+1);
   if (num_specs>1)
     {
-- 
2.43.0


From b1f9709fa734f1fe2a183f74be5e7e50be1e34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 44/55] fix: realisations had no polarisation where there is no
 intensity

---
 levels/Healpix_cxx/alm_powspec_tools.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm_powspec_tools.cc b/levels/Healpix_cxx/alm_powspec_tools.cc
index 82fe4fc..0ed36c1 100644
--- a/levels/Healpix_cxx/alm_powspec_tools.cc
+++ b/levels/Healpix_cxx/alm_powspec_tools.cc
@@ -116,9 +116,11 @@ template<typename T> void create_alm_pol
           "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
         rms_g2 = 0;
         }
-      rms_g2 = ::sqrt(rms_g2);
-      rms_cc = ::sqrt(powspec.cc(l));
       }
+    else
+      rms_g2 = powspec.gg(l);
+    rms_g2 = ::sqrt(rms_g2);
+    rms_cc = ::sqrt(powspec.cc(l));
     almG(l,0) += T(rng.rand_gauss()*rms_g2);
     almC(l,0)  = T(rng.rand_gauss()*rms_cc);
 
-- 
2.43.0


From 249c10c812fe5c134c5eee0b393607fb3156f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 45/55] fix: realisations of short or unpolarised spectra read
 beyond their end

---
 levels/Healpix_cxx/alm_powspec_tools.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/levels/Healpix_cxx/alm_powspec_tools.cc b/levels/Healpix_cxx/alm_powspec_tools.cc
index 0ed36c1..1d7ac57 100644
--- a/levels/Healpix_cxx/alm_powspec_tools.cc
+++ b/levels/Healpix_cxx/alm_powspec_tools.cc
@@ -49,6 +49,7 @@ template<typename T> void create_alm
   {
   int lmax = alm.Lmax();
   int mmax = alm.Mmax();
+  levels_assert (powspec.Lmax()>=lmax, "power spectrum too short");
   const double hsqrt2 = 1/::sqrt(2.);
 
   for (int l=0; l<=lmax; ++l)
@@ -80,6 +81,10 @@ template<typename T> void create_alm_pol
   {
   int lmax = almT.Lmax();
   int mmax = almT.Mmax();
+  levels_assert ((powspec.Num_specs()>=4) && (powspec.Lmax()>=lmax),
+    "power spectrum too short or unpolarised");
+  levels_assert (almG.conformable(almT) && almC.conformable(almT),
+    "a_lm are not conformable");
   const double hsqrt2 = 1/::sqrt(2.);
 
   for (int l=0; l<=lmax; ++l)
-- 
2.43.0


From 83a2eb8aa98945f2e0efef70fddc67a880113d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 46/55] fix: reductions of arrays on the other processes did
 not compile

---
 levels/cxxsupport/ls_mpi_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index f8872af..98ee464 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -198,7 +198,7 @@ class MPI_Manager
       }
     template<typename T> void reduce_s (const arr<T> &in, redOp op, int root=0)
       const
-      { reduceRaw (&in[0], 0, in.size(), op, root); }
+      { reduceRaw (&in[0], static_cast<T *>(0), in.size(), op, root); }
 
     void allgatherRawVoid (const void *in, void *out, NDT type, tsize num)
       const;
-- 
2.43.0


From 3da3d861fe01efdbe5c2886a54fe1924bbc41228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 47/55] fix: gathering two-dimensional arrays without columns
 divided by zero

---
 levels/cxxsupport/ls_mpi_support.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index 98ee464..e99a69a 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -167,7 +167,8 @@ class MPI_Manager
       int nval_loc = in.size(), nval_tot;
       arr<int> nval, offset;
       gatherv_helper1_m (nval_loc, nval, offset, nval_tot);
-      out.alloc(nval_tot/in.size2(),in.size2());
+      levels_assert ((in.size2()>0)||(nval_tot==0), "array size mismatch");
+      out.alloc((in.size2()>0) ? nval_tot/in.size2() : 0,in.size2());
       gathervRawVoid (&in[0][0],nval_loc,&out[0][0],&nval[0],&offset[0],
         nativeType<T>());
       }
-- 
2.43.0


From 98554d5d4fae22c4f4c5412f76de2115744fabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 48/55] fix: long detector names overflowed the buffer of
 Detector.get_id

---
 python/libconviqt_wrapper/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 13d8b2f..4ba3994 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -325,10 +325,13 @@ if available:
         """
 
         def __init__(self, name=None, epsilon=None):
+            self._idlen = 0
             if name is None:
                 self._det = _conviqt.conviqt_detector_new()
             else:
-                self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+                det_id = name.encode()
+                self._idlen = len(det_id)
+                self._det = _conviqt.conviqt_detector_new_with_id(det_id)
             if epsilon is not None:
                 self.set_epsilon(epsilon)
 
@@ -356,7 +359,8 @@ if available:
             return eps.value
 
         def get_id(self):
-            s = ct.create_string_buffer(1024)
+            # The library copies the whole name
+            s = ct.create_string_buffer(max(1024, self._idlen + 1))
             _conviqt.conviqt_detector_get_id(self._det, s)
             return s.value
 
-- 
2.43.0


From c00ecfa986a048292611b032935aff627a79ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 49/55] fix: Pointing.data failed without rows

---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 4ba3994..12fd66f 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -411,6 +411,8 @@ if available:
                 )
 
         def data(self):
+            if self._nrow == 0:
+                return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
-- 
2.43.0


From d2792ddf4b4ce29f3e46377968730a30d14c4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 50/55] fix: the array from Pointing.data was left dangling
 when the Pointing was dropped

---
 python/libconviqt_wrapper/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 12fd66f..831144d 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -414,6 +414,9 @@ if available:
             if self._nrow == 0:
                 return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
+            # The library owns the rows, keep it from freeing them while
+            # they are in use
+            buf._pointing = self
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
 
-- 
2.43.0


From 9ec9821b025361e96e7c2ad880ae065640785513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 51/55] fix: a failed Pointing.alloc left the number of rows at
 the refused value

---
 python/libconviqt_wrapper/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 831144d..8524868 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -403,12 +403,13 @@ if available:
                 )
 
         def alloc(self, nrow):
-            self._nrow = nrow
-            err = _conviqt.conviqt_pointing_alloc(self._pnt, self._nrow * self._ncol)
+            self._nrow = 0  # nothing is left if the allocation fails
+            err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
                     "Failed to allocate {} rows to pointing".format(nrow)
                 )
+            self._nrow = nrow
 
         def data(self):
             if self._nrow == 0:
-- 
2.43.0


From 4e8d0a9cec9a4dd6a04d92c4d7d6f262201a9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 52/55] fix: residentSetSize reported -1 although the size
 could be read

---
 levels/c_utils/memusage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/c_utils/memusage.c b/levels/c_utils/memusage.c
index a1c25c0..ef4bed5 100644
--- a/levels/c_utils/memusage.c
+++ b/levels/c_utils/memusage.c
@@ -38,7 +38,7 @@ double residentSetSize(void)
   FILE *statm = fopen("/proc/self/statm","r");
   double res;
   if (!statm) return -1.0;
-  if (fscanf(statm,"%*f %lf",&res))
+  if (fscanf(statm,"%*f %lf",&res)!=1)
       { fclose(statm); return -1.0; }
   fclose(statm);
   return (res*4096);
-- 
2.43.0


From 7cb07bcf285fe64e6273e216ca67cc570e1e6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 53/55] fix: wrec3jj lost the sign of the sequence when its
 last value underflowed

The value at the largest l1 fixes the overall sign, but for large quantum
numbers the rescalings of the backward iteration underflow it to zero, and all
values then came out with an arbitrary sign.
---
 levels/c_utils/wrec3a.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/levels/c_utils/wrec3a.c b/levels/c_utils/wrec3a.c
index c52cfa1..1c8dbd9 100644
--- a/levels/c_utils/wrec3a.c
+++ b/levels/c_utils/wrec3a.c
@@ -70,7 +70,7 @@ void wrec3jj (double l2, double l3, double m2, double m3, double *res, int sz)
                m3mm2 = m3-m2;
 
   int i=0;
-  double sumfor,sumbac;
+  double sumfor,sumbac,signlast;
   double c1=1e300;
   double oldfac=0.;
 
@@ -124,6 +124,10 @@ void wrec3jj (double l2, double l3, double m2, double m3, double *res, int sz)
     }
     }
 
+  /* res[ncoef-1] itself may underflow to zero during the backward iteration,
+     which always starts from a positive value */
+  signlast = (i<ncoef-1) ? 1. : res[ncoef-1];
+
   sumbac=0.;
   if (i<ncoef-1) /* we have to iterate from the other side */
     {
@@ -178,7 +182,7 @@ void wrec3jj (double l2, double l3, double m2, double m3, double *res, int sz)
   {
   double cnorm=1./sqrt(sumfor+sumbac);
   int k;
-  if (xpow(nearest_int(l2-l3-m1),res[ncoef-1])<0.)
+  if (xpow(nearest_int(l2-l3-m1),signlast)<0.)
     cnorm = -cnorm;
 
   for (k=0; k<ncoef; ++k)
-- 
2.43.0


From c300d0646d7bd0f22d12fee4690d02bd640e8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 54/55] fix: C constructors let exceptions escape when memory
 runs out

---
 src/cconviqt.cpp | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index c58f675..357413e 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -9,7 +9,13 @@ extern "C" {
 
 #include <string.h>
 
-    void *conviqt_beam_new() { return new(std::nothrow) conviqt::beam; }
+    void *conviqt_beam_new() {
+        try {
+            return new(std::nothrow) conviqt::beam;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_beam_del(void *ptr) {
         try {
@@ -103,7 +109,13 @@ extern "C" {
         }
     }
 
-    void *conviqt_sky_new() { return new(std::nothrow) conviqt::sky; }
+    void *conviqt_sky_new() {
+        try {
+            return new(std::nothrow) conviqt::sky;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_sky_del(void *ptr) {
         try {
@@ -186,10 +198,20 @@ extern "C" {
         }
     }
 
-    void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
+    void *conviqt_detector_new() {
+        try {
+            return new(std::nothrow) conviqt::detector;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new(std::nothrow) conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -242,7 +264,13 @@ extern "C" {
         return 0;
     }
 
-    void *conviqt_pointing_new() { return new(std::nothrow) conviqt::pointing; }
+    void *conviqt_pointing_new() {
+        try {
+            return new(std::nothrow) conviqt::pointing;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_pointing_del(void *ptr) {
         try {
-- 
2.43.0


From c52e391b03ff4ab82a7e13078a9c118588bfd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 55/55] fix: convolving with a replaced sky or beam of lower
 order or without polarization accessed coefficients that do not exist

---
 src/conviqt.hpp      |  2 ++
 src/conviqt_math.cpp | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index 839f619..35188e5 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -48,6 +48,7 @@ public :
     Alm< xcomplex<float> > & blmC(void);
     int get_lmax(void) { return lmax; }
     int get_mmax(void) { return mmax; }
+    bool get_pol(void) { return pol; }
     double normalize(void);
     bool normalized() { return normalized_; }
 private :
@@ -74,6 +75,7 @@ public :
     Alm< xcomplex<float> > & slmG(void);
     Alm< xcomplex<float> > & slmC(void);
     int get_lmax(void) { return lmax; }
+    bool get_pol(void) { return pol; }
     void remove_monopole(void);
     void remove_dipole(void);
 private :
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 98612bf..ad3b09f 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1525,13 +1525,24 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
             illegal_theta = theta;
         }
     }
+
+    // The sky and the beam may have been replaced or read again since the
+    // convolver was built.
+
+    const bool lacking = lmax > s->get_lmax() || lmax > b->get_lmax()
+        || beammmax > b->get_mmax() || (pol && !(s->get_pol() && b->get_pol()));
+    if (lacking) illegal = 1;
+
     int any_illegal = 0;
     mpiMgr.allreduceRaw<int>(&illegal, &any_illegal, 1, mpiMgr.Max);
-    if (illegal) {
+    if (lacking) {
+        throw std::runtime_error("convolver::convolve: The sky or the beam lacks the "
+                                 "expansion order or the polarization of the convolver");
+    } else if (illegal) {
         throw std::runtime_error("convolver::convolve: Illegal theta: " +
                                  std::to_string(illegal_theta) + " not in 0..pi");
     } else if (any_illegal) {
-        throw std::runtime_error("convolver::convolve: Illegal theta on another process");
+        throw std::runtime_error("convolver::convolve: Illegal input on another process");
     }
 
     // distribute the co-latitudes.
-- 
2.43.0

