From 92ba8cd2db2f9600fffda86b639402884fdd91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:18 +0000
Subject: [PATCH 01/31] fix: FFT size search computes its exponents in double
 precision

The float conversion rounded sizes above 2^24 down, so the returned size could be
smaller than the requested minimum (16777217 -> 16777216).
---
 src/nrlib/fft/fft.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..fff5de4 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -56,10 +56,10 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil(log((double)(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil(log((double)(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil(log((double)(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil(log((double)(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From 45cda8c97f04213fdbad17e3ac780f04d12b6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:18 +0000
Subject: [PATCH 02/31] fix: FFT size search honours the even-size requirement
 for a requested size of one

---
 src/nrlib/fft/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index fff5de4..5ac0438 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -62,7 +62,7 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   int maxant7 = static_cast<int>(ceil(log((double)(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
-  size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
+  size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2 < minant2 ? minant2 : maxant2));
 
   // kan forbedres ved aa trekke fra i endepunktene.i for lokkene
   for (i = minant2; i < maxant2 + 1; i++)
-- 
2.43.0


From c4d9323b5f6e33670dad5468f37c7bf555e4e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:30 +0000
Subject: [PATCH 03/31] fix: a zero perpendicular or depth range defaults to
 the main range, as documented

variogram('spherical', 1000.0, 0.0) produced NaN correlations.
---
 src/gaussfft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..bf8a642 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -60,9 +60,9 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
                                              double              dip_angle,
                                              double              power)
 {
-  if (range_y < 0.0)
+  if (range_y <= 0.0)
     range_y = range_x;
-  if (range_z < 0.0)
+  if (range_z <= 0.0)
     range_z = range_x;
 
   azimuth_angle *= NRLib::Degree;
-- 
2.43.0


From f438548acb31ef321b8dfd4284a18c14d49e0c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:29 +0000
Subject: [PATCH 04/31] fix: tail branch of the normal deviate rejects the
 centre of the unit circle (w=0 gave NaN)

---
 src/nrlib/random/random.cpp          | 2 +-
 src/nrlib/random/randomgenerator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..46620b9 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -103,7 +103,7 @@ double Random::Norm01()
         v2 = 2.0*u2-1.0;
         w = v1*v1+v2*v2;
       }
-      while(w>=1.0);
+      while(w>=1.0 || w==0.0);
       c = sqrt((9.0-2.0*log(w))/w);
       s = c*v1;
       t = c*v2;
diff --git a/src/nrlib/random/randomgenerator.cpp b/src/nrlib/random/randomgenerator.cpp
index 7d2c5e3..93a2ea6 100644
--- a/src/nrlib/random/randomgenerator.cpp
+++ b/src/nrlib/random/randomgenerator.cpp
@@ -111,7 +111,7 @@ RandomGenerator::Norm01()
         v2 = 2.0*u2-1.0;
         w = v1*v1+v2*v2;
       }
-      while(w>=1.0);
+      while(w>=1.0 || w==0.0);
       c = sqrt((9.0-2.0*log(w))/w);
       s = c*v1;
       t = c*v2;
-- 
2.43.0


From 557046f0b2f93c0c39a8dbe48c8f7d96aa36562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 05/31] fix: Grid4D::GetIJKL returned an out-of-range k and a
 wrong l for grids with more than one l layer

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..d625fc0 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = (index - k*ni_*nj_ - j*ni_ - i)/ni_/nj_/nk_;
 }
 
 template<class A>
-- 
2.43.0


From 9f56ef6b416499d07a4428b3464944df10667b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 06/31] fix: Grid5D::GetIJKLM did not invert GetIndex (and read
 m uninitialised); Grid5D::Resize did not compile

---
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..f05f520 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = (index - k*ni_*nj_ - j*ni_ - i)/ni_/nj_/nk_ % nl_;
+  m = (index - l*ni_*nj_*nk_ - k*ni_*nj_ - j*ni_ - i)/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From c1c8b7c671e3da5494bca709ccb30d6a04007667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 07/31] fix: Grid2DGeneral::Swap left the index ranges behind

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..c43d897 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -198,6 +198,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
   data_.swap(other.data_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
 }
 
 template<class A>
-- 
2.43.0


From cdf22b1a33e6dbae48807190ee8abbe6301e934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 08/31] fix: RegularSurfaceRotated::SetAngle kept the bounding
 box of the old angle

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..3f08e0f 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle; CalculateMinMaxXY(); }
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From 21622799a546654dec73e3a67d3e2443564cdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 09/31] fix: ResampleSurface sampled beside the nodes of the
 resampled surface

---
 src/nrlib/surface/regularsurfacerotated.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 3f08e0f..0208fe9 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,8 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      x = surf.GetX(i);
+      y = surf.GetY(j);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From 8b359b989518f6e2c61e698179248243abcbcb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 10/31] fix: a copy of a Volume lost its tolerance

---
 src/nrlib/volume/volume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..45cdc9f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -118,7 +118,7 @@ Volume::Volume(const Volume & volume)
   else {
     erosion_bot_ = 0;
   }
-  tolerance_   = 1e-6;
+  tolerance_   = volume.tolerance_;
 }
 
 
-- 
2.43.0


From 7f701fd75b548e34e7c0ca21e804a24b0448df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 11/31] fix: Volume::FindCenter ignored the rotation of the
 volume

---
 src/nrlib/volume/volume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 45cdc9f..c6047cf 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  LocalToGlobalCoord(0.5 * GetLX(), 0.5 * GetLY(), x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 991f3a66d406dc9b963dbfd37439a030bc9faecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 12/31] fix: SegyGeometry::FindIndex accepted the line after
 the last one

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..5d73151 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -938,7 +938,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From faa3e22e0465f5a2a94e5ef80489d1b5cac9419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 13/31] fix: SegyGeometry without line numbers swapped its two
 axes

The crossline number follows the first axis (xl_stepX_ is cos/dx), but the ranges and the axis flag said the opposite.
---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 5d73151..cd76037 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From eb74f3fc308b562ccb34fa3fd8285dbddda96f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 14/31] fix: SegyGeometry::FindILXL rounded negative line
 numbers upwards

---
 src/nrlib/segy/segygeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index cd76037..856e8ae 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1002,8 +1002,8 @@ SegyGeometry::FindContIndexFromContILXL(double il, double xl, double &xind, doub
 void
 SegyGeometry::FindILXL(double x, double y, int &IL, int &XL) const
 {
-  IL = static_cast<int>(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_);
-  XL = static_cast<int>(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_);
+  IL = static_cast<int>(std::floor(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_));
+  XL = static_cast<int>(std::floor(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_));
 }
 
 
-- 
2.43.0


From c0a086386bfd92ee7cea7b22cc14c16613994481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 15/31] fix: SegyGeometry from a single crossline failed for
 decreasing inline numbers

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 856e8ae..b81d4d8 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -207,7 +207,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From 828311d0b25ce43a9c50c318bf2c1879eff4f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 16/31] fix: SplitUniform::Pdf is non-zero on the upper half
 and zero above the maximum

---
 src/nrlib/random/splituniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/splituniform.hpp b/src/nrlib/random/splituniform.hpp
index 2e4b393..df15b7a 100644
--- a/src/nrlib/random/splituniform.hpp
+++ b/src/nrlib/random/splituniform.hpp
@@ -69,7 +69,7 @@ double SplitUniform::Pdf(double x) const {
   if (x >= min_val_ && x < mean_val_) {
     p = 0.5 / (mean_val_ - min_val_);
   }
-  else if (x > mean_val_ && x > max_val_) {
+  else if (x > mean_val_ && x <= max_val_) {
     p = 0.5 / (max_val_ - mean_val_);
   }
   else if (x == mean_val_) {
-- 
2.43.0


From b4b1367c3a53576d7b951a65948f72bc540e4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 17/31] fix: LogNormal::SetParameters passes the new parameters
 to the normal distribution it draws from

---
 src/nrlib/random/lognormal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index e574d2f..55e34ae 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -62,7 +62,7 @@ void LogNormal::SetParameters(double mu, double sigma)
 {
   // If mean and std. dev. are in the log normal distribution, we calculate the corresponding
   // mu and sigma in the normal distribution
-  normal_.SetParameters(mu_, sigma_);
+  normal_.SetParameters(mu, sigma);
   mu_ = mu;
   sigma_ = sigma;
   exp_ = std::exp(mu_ + 0.5 * sigma_ * sigma_);
-- 
2.43.0


From ea3165fe6a324cdfbf6f17e1ca9ad3ab7d2e9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 18/31] fix: the default LogNormal has standard deviation one,
 as its normal distribution, mean and deviation have

---
 src/nrlib/random/lognormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/lognormal.cpp b/src/nrlib/random/lognormal.cpp
index 619df76..2c27adf 100644
--- a/src/nrlib/random/lognormal.cpp
+++ b/src/nrlib/random/lognormal.cpp
@@ -31,7 +31,7 @@ namespace NRLib {
 LogNormal::LogNormal()
   : normal_(Normal()),
     mu_(0.0),
-    sigma_(0.0)
+    sigma_(1.0)
 {
   exp_ = std::exp(0.5);
   std_dev_ = std::sqrt((std::exp(1.0) - 1.0) * std::exp(1.0));
-- 
2.43.0


From 812e3bc21800fa2217d5f2c381e5f4e328b66933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 19/31] fix: LogNormal::Pdf and Cdf are zero for arguments that
 are not positive

---
 src/nrlib/random/lognormal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index 55e34ae..c8ed316 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -82,11 +82,15 @@ double LogNormal::Draw(RandomGenerator & g) const {
 }
 
 double LogNormal::Pdf(double x) const {
+  if (x <= 0.0)
+    return 0.0;
   double var = sigma_*sigma_;
   return std::exp(-(log(x)-mu_)*(log(x)-mu_)/(2.0*var)) / (sqrt(2.0*NRLib::Pi)*sigma_*x);
 }
 
 double LogNormal::Cdf(double x) const {
+  if (x <= 0.0)
+    return 0.0;
   double z = (log(x) - mu_)/sigma_;
   return erfc(-z * NRLib::Sqrt1_2) / 2.0;
 }
-- 
2.43.0


From 322b8aecb374bfb7568715c8c19775557862545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 20/31] fix: Beta::Pdf uses the cell that contains the argument

---
 src/nrlib/random/beta.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/beta.hpp b/src/nrlib/random/beta.hpp
index 182c563..d777c08 100644
--- a/src/nrlib/random/beta.hpp
+++ b/src/nrlib/random/beta.hpp
@@ -66,8 +66,10 @@ private:
 double
 Beta::Pdf(double x) const
 {
-  // round x to cell-center
-  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_-0.5 );
+  // use the center of the cell that contains x
+  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_ );
+  if(ix >= nx_)
+    ix = nx_-1;
   double d = 0.0;
   if(x >= min_val_ && x <= max_val_)
    d = pdf_[ix];
-- 
2.43.0


From 1cef419089f9e49d12a86dc31ee316705b36868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 21/31] fix: GeneralDiscrete::Quantile stops at the last
 outcome when the cumulative sum rounds below one

---
 src/nrlib/random/generaldiscrete.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/generaldiscrete.hpp b/src/nrlib/random/generaldiscrete.hpp
index fac145b..43f66ac 100644
--- a/src/nrlib/random/generaldiscrete.hpp
+++ b/src/nrlib/random/generaldiscrete.hpp
@@ -55,7 +55,8 @@ private:
 int GeneralDiscrete::Quantile(double p) const {
   assert(p >= 0.0 && p <= 1.0);
   int i = 0;
-  while (cum_hist_[i] < p) {
+  // The last cumulative value may be slightly less than one.
+  while (i + 1 < static_cast<int>(cum_hist_.size()) && cum_hist_[i] < p) {
     i++;
   }
   return(i);
-- 
2.43.0


From 4e46097aae6c36c09b3881a8433c21e06c8c53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 22/31] fix: Binomial::Quantile returns the smallest outcome
 whose cumulative probability reaches the argument

---
 src/nrlib/random/binomial.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 17df430..b088ee8 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -93,20 +93,17 @@ int Binomial::Quantile(double q) const
   while (high - low > 1)
   {
     middle = (high + low) >> 1;
-    if (cdf_[middle] <=q)
+    if (cdf_[middle] < q)
       low = middle;
     else
       high = middle;
     //    middle = int(0.5*(high+low));
   }
 
-  if (high == low)
+  if (cdf_[low] >= q)
     return low;
   else
-    if (cdf_[high] > q && cdf_[low] <= q)
-      return high;
-    else
-      return low;
+    return high;
 }
 
 } // namespace NRLib
-- 
2.43.0


From dbeaba3b446e05193ae0334f8ec8d42d3067ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 23/31] fix: Poisson::Pdf and Cdf: no integer overflow of the
 factorial, cumulative probability is that of the Poisson distribution

---
 src/nrlib/random/poisson.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/nrlib/random/poisson.cpp b/src/nrlib/random/poisson.cpp
index bae965d..444ee90 100644
--- a/src/nrlib/random/poisson.cpp
+++ b/src/nrlib/random/poisson.cpp
@@ -66,27 +66,19 @@ namespace NRLib {
 
   double Poisson::Pdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double pdf = std::exp(x*std::log(lambda_)-lambda_)/x_fac;
+    if (x < 0)
+      return 0.0;
+    double pdf = std::exp(x*std::log(lambda_)-lambda_-NRLib::gammln(x + 1.0));
     return pdf;
   }
 
 
   double Poisson::Cdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
+    if (x < 0)
+      return 0.0;
     double x1 = x + 1.0;
-    double cdf = NRLib::gammp(x1, lambda_)/x_fac;
+    double cdf = 1.0 - NRLib::gammp(x1, lambda_);
     return cdf;
 
   }
-- 
2.43.0


From 0c7a733c9ea7dd12da82a1a13f649dee87cdbbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 24/31] fix: ChiSquared::Pdf at zero with two degrees of
 freedom

---
 src/nrlib/random/chisquared.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/random/chisquared.hpp b/src/nrlib/random/chisquared.hpp
index 5212aac..02375d4 100644
--- a/src/nrlib/random/chisquared.hpp
+++ b/src/nrlib/random/chisquared.hpp
@@ -56,6 +56,8 @@ double ChiSquared::Pdf(double x) const
 {
   if (x < 0)
     return 0.0;
+  else if (x == 0 && df_ == 2) // (df_-2)*log(x) is zero
+    return std::exp(-fac_);
   else
     return std::exp(-0.5*(x-(df_-2)*std::log(x)) - fac_);
 }
-- 
2.43.0


From 6d93e90573527cc3f3be5672f877319ff12b57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 25/31] fix: Line::FindDistanceAndSide: side of points
 projected on or beyond the second end point

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..1523a5f 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
-- 
2.43.0


From 103676ff941ede0c3ed470cc4b3ab07731b351a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 26/31] fix: Line::IsParallel: parallel lines are parallel with
 the default limit of zero

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 1523a5f..36b2a4d 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -144,7 +144,7 @@ bool Line::IsPointOnLine(const Point& p_in, double min_in) const
 
 bool Line::IsParallel(const Line& line_in, double min_in) const
 {
-  if (Cross(GetDir(), line_in.GetDir()).Norm() < min_in) // true -> parallel
+  if (Cross(GetDir(), line_in.GetDir()).Norm() <= min_in) // true -> parallel
     return true;
   else
     return false;
-- 
2.43.0


From 98bda6975dac0c57e0738d9253605ee68f65a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 27/31] fix: Line::FindDistance to a line segment of zero
 length

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 36b2a4d..31125ec 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -192,7 +192,7 @@ double Line::FindDistance(const Line   & line_in,
     }
   }
 
-  if (line_in.IsEndPt1() && tn < 0) {
+  if (line_in.IsEndPt1() && (tn < 0 || c == 0)) { // c == 0: line_in is a single point
     tn = 0;
     // recalculate sc:
     if (IsEndPt1() && -d < 0) {
-- 
2.43.0


From b898e341580b323dc686d88ad27cffc3f8facf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 28/31] fix: Point::GetAngle: no NaN for parallel vectors when
 the cosine is rounded beyond one

---
 src/nrlib/geometry/point.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/geometry/point.cpp b/src/nrlib/geometry/point.cpp
index c884158..1d438e1 100644
--- a/src/nrlib/geometry/point.cpp
+++ b/src/nrlib/geometry/point.cpp
@@ -63,6 +63,10 @@ double Point::GetAngle(const Point& p_in) const
   double norm = Norm()*p_in.Norm();
   if (norm > 0.0) {
     loc = this->Dot(p_in) / norm;
+    if (loc > 1.0)        // rounding
+      loc = 1.0;
+    else if (loc < -1.0)
+      loc = -1.0;
     return std::acos(loc);
   }
   else
-- 
2.43.0


From a9adb5d3e4eacd260ece3da1adb27b9b787c2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:58 +0000
Subject: [PATCH 29/31] fix: Cov of one pair of values is zero, not undefined

---
 src/nrlib/statistics/statistics.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/statistics/statistics.hpp b/src/nrlib/statistics/statistics.hpp
index 3a7a6b3..2875eb0 100644
--- a/src/nrlib/statistics/statistics.hpp
+++ b/src/nrlib/statistics/statistics.hpp
@@ -342,6 +342,10 @@ double NRLib::Cov(FIA beginA, FIA endA, FIB beginB, FIB endB,
     }
   }
 
+  if (cA == 1) {
+    return 0.0;
+  }
+
   double sum = 0.0;
   double meanA = NRLib::Mean(beginA, endA, mayThrow);
   double meanB = NRLib::Mean(beginB, endB, mayThrow);
-- 
2.43.0


From 6f01952323b2d8bd0c2bde4e754f623bd7050629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 30/31] fix: orientation of a polygon takes its closing edge
 into account

---
 src/nrlib/geometry/polygon.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..e134b37 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -93,8 +93,10 @@ bool Polygon::IsInsidePolygonXY(double x, double y)  const
 bool Polygon::IsCounterclockwise()
 {
   double doublearea=0;
-  for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
-    doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
+  const size_t n = polygon_points_.size();
+  for (size_t i=0; i<n ;i++) {
+    const size_t next = (i+1 < n ? i+1 : 0);   // the last edge closes the polygon
+    doublearea+=polygon_points_[i].x*polygon_points_[next].y-polygon_points_[i].y*polygon_points_[next].x;
   }
   return (doublearea>=0);
 }
-- 
2.43.0


From ae942aced680081b9206b1c684794b5051a99abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 31/31] fix: circumference of a polygon includes the edge
 before its last point

---
 src/nrlib/geometry/polygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index e134b37..3ca5ad7 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -341,7 +341,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i < poly_size - 1; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0

