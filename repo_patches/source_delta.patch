From 354090d4fbf61cae3628915720dd4669dd664d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 01/46] fix: determinant of a singular matrix must not be NaN

---
 src/diffpy/srreal/R3linalg.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..85a1970 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,12 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // Use explicit expansion, because LU decomposition of an exactly singular
+    // matrix may produce NaN.
+    double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From ea1976285ac34a926663f924463e4e256086a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 02/46] fix: asind returned arc cosine for general arguments

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From f68b3b19da9efa2b232efcc8721590815ecdfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 03/46] fix: copied PointsInSphere must not share indices with
 the original

---
 src/diffpy/srreal/PointsInSphere.cpp | 24 +++++++++++-------------
 src/diffpy/srreal/PointsInSphere.hpp |  6 +-----
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..d3ee087 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -89,8 +89,7 @@ LatticeParameters LatticeParameters::reciprocal() const
 PointsInSphere::PointsInSphere(double rmin, double rmax,
         const LatticeParameters& _latpar ) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_latpar),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_latpar)
 {
     init();
     rewind();
@@ -101,8 +100,7 @@ PointsInSphere::PointsInSphere(double rmin, double rmax,
         double _a, double _b, double _c,
         double _alpha, double _beta, double _gamma) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_a, _b, _c, _alpha, _beta, _gamma),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_a, _b, _c, _alpha, _beta, _gamma)
 {
     init();
     rewind();
@@ -116,10 +114,10 @@ void PointsInSphere::rewind()
 {
     mHalfSpan = Rmax()*latpar.ar;
     hi_m = int(ceil(mHalfSpan));
-    this->_m = -hi_m;
+    this->_mno[0] = -hi_m;
     // make indices n, o invalid, reset the neares point
-    this->_n = hi_n = 0;
-    this->_o = hi_o = outside_o = 0;
+    this->_mno[1] = hi_n = 0;
+    this->_mno[2] = hi_o = outside_o = 0;
     n0plane = o0plane = o0line = 0.0;
     // unset excluded zone
     oExclHalfSpan = 0.0;
@@ -189,7 +187,7 @@ double PointsInSphere::r() const
 
 void PointsInSphere::next_m()
 {
-    this->_m += 1;
+    this->_mno[0] += 1;
     if (finished())
     {
         return;
@@ -199,7 +197,7 @@ void PointsInSphere::next_m()
     o0plane = m()*do0dm;
     RplaneSquare = RmaxSquare - pow(m()/latpar.ar,2);
     nHalfSpan = RplaneSquare > 0.0 ? sqrt(RplaneSquare)*b2r : 0.0;
-    this->_n = int(floor(n0plane - nHalfSpan));
+    this->_mno[1] = int(floor(n0plane - nHalfSpan));
     hi_n = int(ceil(n0plane + nHalfSpan));
 }
 
@@ -208,7 +206,7 @@ void PointsInSphere::next_n()
 {
     do
     {
-        this->_n += 1;
+        this->_mno[1] += 1;
         if (n() < hi_n)
         {
             o0line = o0plane + (n()-n0plane)*do0dn;
@@ -217,7 +215,7 @@ void PointsInSphere::next_n()
             // parentheses improve round-off errors around [0,0,0]
             double RExclSquare = (RlineSquare - RmaxSquare) + RminSquare;
             oExclHalfSpan = RExclSquare > 0.0 ? sqrt(RExclSquare)*c1r : 0.0;
-            this->_o = int(floor(o0line - oHalfSpan));
+            this->_mno[2] = int(floor(o0line - oHalfSpan));
             outside_o = int(ceil(o0line + oHalfSpan));
             hi_o = outside_o;
             if (oExclHalfSpan)
@@ -237,7 +235,7 @@ void PointsInSphere::next_o()
 {
     do
     {
-        this->_o += 1;
+        this->_mno[2] += 1;
         if (o() < hi_o)
         {
             return;
@@ -245,7 +243,7 @@ void PointsInSphere::next_o()
         if (hi_o != outside_o)
         {
             hi_o = outside_o;
-            this->_o = int( ceil(o0line+oExclHalfSpan) ) - 1;
+            this->_mno[2] = int( ceil(o0line+oExclHalfSpan) ) - 1;
             continue;
         }
         next_n();
diff --git a/src/diffpy/srreal/PointsInSphere.hpp b/src/diffpy/srreal/PointsInSphere.hpp
index 40451aa..1fa1465 100644
--- a/src/diffpy/srreal/PointsInSphere.hpp
+++ b/src/diffpy/srreal/PointsInSphere.hpp
@@ -122,9 +122,6 @@ class PointsInSphere
         const pointsinsphere::LatticeParameters latpar;
         // output
         int _mno[3];
-        int& _m;
-        int& _n;
-        int& _o;
         // calculated constants set by init()
         double RminSquare, RmaxSquare;
         // 2D reciprocal parameters and cosine in bc plane
@@ -221,8 +218,7 @@ class ReflectionsInDmaxDmin : public ReflectionsInQminQmax
 template <class L>
 PointsInSphere::PointsInSphere(double rmin, double rmax, const L& lat) :
     _Rmin(rmin), _Rmax(rmax),
-    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma()),
-    _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma())
 {
     init();
     rewind();
-- 
2.43.0


From 1f65ff388dfd41bfb404c79a53d49b92c14589c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 04/46] fix: Lattice must not change when base vectors are
 rejected

---
 src/diffpy/srreal/Lattice.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..367a9b4 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix newbase;
+    R3::row(newbase, 0) = va0;
+    R3::row(newbase, 1) = vb0;
+    R3::row(newbase, 2) = vc0;
+    double detbase = R3::determinant(newbase);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +119,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = newbase;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From 6a58c724c9ee20d7546a7b7f5248716be6394506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 05/46] fix: Lattice angle of parallel vectors must not be NaN

---
 src/diffpy/srreal/Lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..908b379 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -502,6 +502,8 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid NaN from round-off errors for (anti)parallel vectors
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acosd(ca);
 }
 
@@ -510,6 +512,8 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid NaN from round-off errors for (anti)parallel vectors
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acos(ca);
 }
 
-- 
2.43.0


From 8ac81f10e82b02c92d8c35f44290e60e0e5a12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 06/46] fix: crystal without symmetry operations must keep
 atoms in the unit cell

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..de84232 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -191,7 +191,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(a0.xyz_cartn);
+        eqsumpos.push_back(L.ucvFractional(a0.xyz_cartn));
         eqduplicity.push_back(1);
     }
     // calculate mean values from equivalent sites and adjust any roundoffs
-- 
2.43.0


From 54850c19680fb08f935adfe21e2cbc5606d33513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 07/46] fix: mean of equivalent positions at opposite cell
 boundaries

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index de84232..12774a4 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -181,7 +181,13 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // sum offsets from the first position to get correct mean value
+        // when equivalent positions are at the opposite cell boundaries.
+        R3::Vector dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        dxyz[0] -= round(dxyz[0]);
+        dxyz[1] -= round(dxyz[1]);
+        dxyz[2] -= round(dxyz[2]);
+        eqsumpos[ieq] += dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
@@ -191,10 +197,10 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(L.ucvFractional(a0.xyz_cartn));
+        eqsumpos.push_back(R3::zerovector);
         eqduplicity.push_back(1);
     }
-    // calculate mean values from equivalent sites and adjust any roundoffs
+    // calculate mean values from equivalent sites and move to the unit cell
     assert(eqsites.size() == eqduplicity.size());
     assert(eqsites.size() == eqsumpos.size());
     iterator ai = eqsites.begin();
@@ -202,7 +208,8 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     vector<int>::const_iterator dpi = eqduplicity.begin();
     for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        R3::Vector xyzmean = ai->xyz_cartn + (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional(xyzmean);
     }
     return eqsites;
 }
-- 
2.43.0


From eb22cf8d7224077792b65f7150bf747447bfb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 08/46] fix: displacement tensor of anchor atom must follow its
 symmetry position

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 8 ++++++++
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 12774a4..bdf1c98 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -309,6 +309,14 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
 }
 
 
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    // The anchor is at the first symmetry position of its site.
+    const AtomVector& sa = mcstructure->msymatoms[this->site0()];
+    return sa[0].uij_cartn;
+}
+
+
 const R3::Matrix& CrystalStructureBondGenerator::Ucartesian1() const
 {
     return *mpuc1;
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..ba2552a 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -148,6 +148,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
-- 
2.43.0


From 39ae37965a04c973689d8de76c38b2411a528de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 09/46] fix: new bond generator must not invalidate existing
 ones for a crystal

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 7 ++++---
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 1 -
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index bdf1c98..354a599 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -296,7 +296,6 @@ CrystalStructureBondGenerator::CrystalStructureBondGenerator(
     mcstructure = dynamic_cast<const CrystalStructureAdapter*>(adpt.get());
     assert(mcstructure);
     msymidx = 0;
-    mpuc1 = &(R3::zeromatrix());
 }
 
 // Public Methods ------------------------------------------------------------
@@ -319,7 +318,10 @@ const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
 
 const R3::Matrix& CrystalStructureBondGenerator::Ucartesian1() const
 {
-    return *mpuc1;
+    // Look up the tensor every time.  The symmetry positions may be updated
+    // when another bond generator is created.
+    const AtomVector& sa = mcstructure->msymatoms[this->site1()];
+    return sa[msymidx].uij_cartn;
 }
 
 // Protected Methods ---------------------------------------------------------
@@ -363,7 +365,6 @@ void CrystalStructureBondGenerator::updater1()
     const AtomVector& sa = this->symatoms(this->site1());
     assert(msymidx < sa.size());
     mr1 = mrcsphere + sa[msymidx].xyz_cartn;
-    mpuc1 = &(sa[msymidx].uij_cartn);
     this->updateDistance();
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index ba2552a..18f79b5 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -162,7 +162,6 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         // data
         const CrystalStructureAdapter* mcstructure;
         size_t msymidx;
-        const R3::Matrix* mpuc1;
 
     private:
 
-- 
2.43.0


From f62b183f4053bea6350ba2c354b8beff34481c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 10/46] fix: assigned structure must not leave reset value as a
 base for fast update

---
 src/diffpy/srreal/PQEvaluator.cpp  |  4 ++--
 src/diffpy/srreal/PairQuantity.cpp | 16 ++++++++++++----
 src/diffpy/srreal/PairQuantity.hpp |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..2ba1ac3 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -97,7 +97,7 @@ void PQEvaluatorBasic::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
     mtypeused = BASIC;
-    pq.setStructure(stru);
+    pq.applyStructure(stru);
     BaseBondGeneratorPtr bnds = pq.mstructure->createBondGenerator();
     pq.configureBondGenerator(*bnds);
     int cntsites = pq.mstructure->countSites();
@@ -250,7 +250,7 @@ void PQEvaluatorOptimized::updateValue(
     // setStructure(stru1) calls stru1->customPQConfig(pq), which may totally
     // change pq configuration.  If so, revert to full calculation.
     assert(pq.ticker() < mvalue_ticker);
-    pq.setStructure(sd.stru1);
+    pq.applyStructure(convertToStructureAdapter(sd.stru1));
     if (pq.ticker() >= mvalue_ticker)
     {
         return this->updateValueCompletely(pq, stru);
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..98dd8a2 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,10 +68,9 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    mstructure = stru.get() ? stru : emptyStructureAdapter();
-    mstructure->customPQConfig(this);
-    this->updateMaskData();
-    this->resetValue();
+    this->applyStructure(stru);
+    // the value was reset, it cannot be a base of any fast update
+    mticker.click();
 }
 
 
@@ -419,6 +418,15 @@ void PairQuantity::restorePartialValue()
 
 // Private Methods -----------------------------------------------------------
 
+void PairQuantity::applyStructure(StructureAdapterPtr stru)
+{
+    mstructure = stru.get() ? stru : emptyStructureAdapter();
+    mstructure->customPQConfig(this);
+    this->updateMaskData();
+    this->resetValue();
+}
+
+
 void PairQuantity::updateMaskData()
 {
     int cntsites = this->countSites();
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..3b7c288 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -126,6 +126,7 @@ class PairQuantity : public diffpy::Attributes
     private:
 
         // methods
+        void applyStructure(StructureAdapterPtr);
         void updateMaskData();
         bool setPairMaskValue(int i, int j, bool mask);
 
-- 
2.43.0


From d33196a2732a5fb068b12242ae88324c54e31e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 11/46] fix: structures of different types must not be compared
 by atoms only

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..01e95b6 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,9 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // equal atoms make different bonds in other types of structures
+    const AtomicStructureAdapter& rother = *pother;
+    if (typeid(*this) != typeid(rother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0


From ab49ad819eeac9329eb14262fc8d7d5216b6383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 12/46] fix: CroppedGaussianProfile must be zero for zero width

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From 03f33f5f461c1400d96d2d250e7d1174c1c98c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 13/46] fix: fast update of PDFCalculator must not abort when
 there are no grid points

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..07ef654 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From d1ce99812841b9e5e272abc2139b5f0a3303af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 14/46] fix: Debye sum must use occupancy of each site

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..d251491 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -21,6 +21,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <functional>
+#include <map>
 
 #include <diffpy/srreal/BaseDebyeSum.hpp>
 #include <diffpy/mathutils.hpp>
@@ -234,19 +235,22 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors per site depend on atom type and on site occupancy
+    map<pair<string,double>,int> atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const pair<string,double> smblocc(
+                mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(smblocc))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(smblocc, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[smblocc];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From 857fd3260410bc85228703dbb0086b1d17cbc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 15/46] fix: fast update of DebyePDFCalculator must not ignore
 changed pair range

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..607ac6d 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -193,10 +193,13 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    // limits of the Debye summation are multiples of rstep
+    if (mrstep != rstep)
+    {
+        mticker.click();
+        mrlimits_are_cached = false;
+    }
     mrstep = rstep;
 }
 
@@ -383,12 +386,16 @@ void DebyePDFCalculator::cacheRlimitsData() const
     const double& rmin = this->getRmin();
     const double& rmax = this->getRmax();
     const double& dr = this->getRstep();
+    const int nlo0 = mrcalclosteps;
+    const int nhi0 = mrcalchisteps;
     mrcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     const int nhi = pdfutils_rmaxSteps(rmax + ext_total, dr);
     if (nhi <= (mrcalchisteps - minreductionsteps) || nhi > mrcalchisteps)
     {
         mrcalchisteps = nhi;
     }
+    // value from a different pair range cannot be used for fast updates
+    if (nlo0 != mrcalclosteps || nhi0 != mrcalchisteps)  mticker.click();
     mrlimits_are_cached = true;
 }
 
-- 
2.43.0


From 49ba57529f84ed59fd61f7990c21b02fcb143c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 16/46] fix: fast update of PDFCalculator must not ignore
 changed pair range

---
 src/diffpy/srreal/PDFCalculator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 07ef654..d5ecd79 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -725,6 +725,8 @@ void PDFCalculator::cacheStructureData()
 
 void PDFCalculator::cacheRlimitsData()
 {
+    const int nlo0 = mrlimits_cache.rcalclosteps;
+    const int nhi0 = mrlimits_cache.rcalchisteps;
     mrlimits_cache.extendedrminsteps = 0;
     mrlimits_cache.extendedrmaxsteps = 0;
     mrlimits_cache.rcalclosteps = 0;
@@ -749,6 +751,11 @@ void PDFCalculator::cacheRlimitsData()
     mrlimits_cache.extendedrmaxsteps = pdfutils_rmaxSteps(rmax + ext_ripples, dr);
     mrlimits_cache.rcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     mrlimits_cache.rcalchisteps = pdfutils_rmaxSteps(rmax + ext_total, dr);
+    // value from a different pair range cannot be used for fast updates,
+    // because peak widths may grow outside of the range from rmin to rmax
+    const bool samerange = (nlo0 == mrlimits_cache.rcalclosteps &&
+            nhi0 == mrlimits_cache.rcalchisteps);
+    if (!samerange)  mticker.click();
 }
 
 }   // namespace diffpy
-- 
2.43.0


From 2cb636b2b7125310c698fc8e994f93a9a98197e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 17/46] fix: setup of parallel run must invalidate value for
 the fast update

---
 src/diffpy/srreal/PQEvaluator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 2ba1ac3..c232c21 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,11 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // value for a different part cannot be used as a base for fast updates
+    if (mcpuindex != cpuindex || mncpu != ncpu)
+    {
+        mvalue_ticker = eventticker::EventTicker();
+    }
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
-- 
2.43.0


From a5e22169fbaec1da4242aa9e245bb6342ec40cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 18/46] fix: parallel data of BondCalculator were empty for a
 single worker

---
 src/diffpy/srreal/BondCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..6ea7f08 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,10 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // after serial evaluation all bonds are already in the final value
+    const BondDataStorage& badd =
+        mevaluator->isParallel() ? maddbonds : mbonds;
+    oa << mpopbonds << badd;
     return storage.str();
 }
 
-- 
2.43.0


From d1354774697a7ac968a891f068ceeca2e14df573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 19/46] fix: neighbors in OverlapCalculator must be updated
 after parallel merge

---
 src/diffpy/srreal/OverlapCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..bf0b356 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,8 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 0747d56b85e55c19804a17c291a4d6efb0ccc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 20/46] fix: loaded OverlapCalculator must not duplicate cached
 neighbors

---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index bf0b356..5b2cbe4 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -546,7 +546,8 @@ OverlapCalculator::getNeighborIds(int k) const
     assert(0 <= k && k < this->countSites());
     if (!mneighborids_cached)
     {
-        assert(mneighborids.empty());
+        // neighbors could be loaded from an archive
+        mneighborids.clear();
         int n = this->count();
         for (int idx = 0; idx < n; ++idx)
         {
-- 
2.43.0


From d514b7912e52a3376ba56378d2efed327dd4fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 21/46] fix: type masks must apply to the assigned structure
 right away

---
 src/diffpy/srreal/PairQuantity.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 98dd8a2..6645273 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -317,7 +317,13 @@ setTypeMask(string smbli, string smblj, bool mask)
     pmm = mtypemask.emplace(smblij, mask);
     if (pmm.second || pmm.first->second != mask)  modified = true;
     pmm.first->second = mask;
-    if (modified)  mticker.click();
+    if (modified)
+    {
+        mticker.click();
+        // resolve new type masks for the current structure, so they are
+        // not lost when followed by setPairMask
+        this->updateMaskData();
+    }
 }
 
 
-- 
2.43.0


From 240b2114eae2631a62f6e885c6396dec1f1c7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 22/46] fix: bond valence sums in crystals with unequal site
 multiplicities

---
 src/diffpy/srreal/BVSCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..da3c3dd 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -176,7 +176,10 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    // bonds from site1 to site0 are not visited for symmetry equivalent anchors
+    const double m01 = double(bnds.multiplicity()) /
+        mstructure->siteMultiplicity(bnds.site1());
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * m01;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From bd2e1689b46778a1f7cb5bf89a3ffdb59d00795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 23/46] fix: BVSCalculator must respect rmin

---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index da3c3dd..b3b15aa 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From 53c0fdedbdbfc0e173431b63ba6bae5bea400482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 24/46] fix: PairCounter must count pairs of all symmetry
 equivalent sites

---
 src/diffpy/srreal/PairCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairCounter.cpp b/src/diffpy/srreal/PairCounter.cpp
index e11c9f9..f5584b0 100644
--- a/src/diffpy/srreal/PairCounter.cpp
+++ b/src/diffpy/srreal/PairCounter.cpp
@@ -34,7 +34,7 @@ PairCounter::PairCounter()
 void PairCounter::addPairContribution(const BaseBondGenerator& bnds,
         int summationscale)
 {
-    mvalue.front() += summationscale / 2.0;
+    mvalue.front() += bnds.multiplicity() * summationscale / 2.0;
 }
 
 // End of file
-- 
2.43.0


From 9f9fde4d726ac3545e3dd4efcfdc7c20294932f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 25/46] fix: pair range must cover the largest principal
 displacement of atoms

---
 src/diffpy/srreal/StructureAdapter.cpp | 13 +++++++++++--
 src/diffpy/srreal/StructureAdapter.hpp |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/StructureAdapter.cpp b/src/diffpy/srreal/StructureAdapter.cpp
index d3468ea..3830714 100644
--- a/src/diffpy/srreal/StructureAdapter.cpp
+++ b/src/diffpy/srreal/StructureAdapter.cpp
@@ -115,10 +115,19 @@ double maxUii(StructureAdapterPtr stru)
     for (int i = 0; i < stru->countSites(); ++i)
     {
         const R3::Matrix& U = stru->siteCartesianUij(i);
-        for (int k = 0; k < R3::Ndim; k++)
+        const double uoff2 = U(0,1) * U(0,1) + U(0,2) * U(0,2) + U(1,2) * U(1,2);
+        if (!(uoff2 > 0.0))
         {
-            if (U(k,k) > rv)   rv = U(k,k);
+            rv = max(rv, max(U(0,0), max(U(1,1), U(2,2))));
+            continue;
         }
+        // largest eigenvalue of a symmetric 3x3 matrix
+        const double um = (U(0,0) + U(1,1) + U(2,2)) / 3.0;
+        const double p = sqrt((pow(U(0,0) - um, 2) + pow(U(1,1) - um, 2) +
+                    pow(U(2,2) - um, 2) + 2 * uoff2) / 6.0);
+        R3::Matrix B = (U - um * R3::identity()) / p;
+        const double hd = min(1.0, max(-1.0, R3::determinant(B) / 2.0));
+        rv = max(rv, um + 2 * p * cos(acos(hd) / 3.0));
     }
     return rv;
 }
diff --git a/src/diffpy/srreal/StructureAdapter.hpp b/src/diffpy/srreal/StructureAdapter.hpp
index 1ff4218..447e683 100644
--- a/src/diffpy/srreal/StructureAdapter.hpp
+++ b/src/diffpy/srreal/StructureAdapter.hpp
@@ -114,7 +114,8 @@ StructureAdapterPtr emptyStructureAdapter();
 double meanSquareDisplacement(const R3::Matrix& Uijcartn, const R3::Vector& s,
         bool anisotropy=true);
 
-/// Maximum diagonal Uii element from all atoms in the structure.
+/// Maximum mean square displacement from all atoms in the structure
+/// along any direction, i.e., the largest principal component of Uij.
 double maxUii(StructureAdapterPtr stru);
 
 /// Translate an index container to a vector of string symbols
-- 
2.43.0


From d6a6189c2af8f7b0cf86ab739f8b39e516bf85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 26/46] fix: cone filter must keep bonds that are parallel to
 its axis

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 6ea7f08..1d2a5f6 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -288,7 +288,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // dot product of unit vectors may exceed 1 due to a roundoff
+        double cosa = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(cosa);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 3e5b212a97701c4fd91aef7be615991f72b5f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 27/46] fix: CHECK evaluator must compare finished values of
 BondCalculator

---
 src/diffpy/srreal/PQEvaluator.cpp  | 2 ++
 src/diffpy/srreal/PairQuantity.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index c232c21..b6c96eb 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -422,8 +422,10 @@ void PQEvaluatorCheck::updateValue(
 {
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
+    pq.finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
     this->PQEvaluatorBasic::updateValue(pq, stru);
+    pq.finishValue();
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index 3b7c288..eaa29c0 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -84,6 +84,7 @@ class PairQuantity : public diffpy::Attributes
 
         friend class PQEvaluatorBasic;
         friend class PQEvaluatorOptimized;
+        friend class PQEvaluatorCheck;
         friend StructureAdapterPtr
             replacePairQuantityStructure(PairQuantity&, StructureAdapterPtr);
 
-- 
2.43.0


From a8b3070cb681bd8be4df551e922d656368589946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 28/46] fix: calculators with CHECK evaluator could not be
 serialized

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index b6c96eb..d063d89 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -479,5 +479,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0393e5c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -160,5 +160,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From c6883134413b08aa7f59ffa5a7fc13baba563010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 29/46] fix: later type mask with all must win over an opposite
 one

---
 src/diffpy/srreal/PairQuantity.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 6645273..b094ef9 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -313,6 +313,29 @@ setTypeMask(string smbli, string smblj, bool mask)
             else  ++tpmsk;
         }
     }
+    // the new mask must win for pairs with types that have an opposite all-mask
+    if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
+    {
+        const string& sk = (ALLATOMSSTR != smbli) ? smbli : smblj;
+        list<string> others;
+        TypeMaskStorage::const_iterator tpmsk;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const pair<string,string>& tpp = tpmsk->first;
+            const bool hasall =
+                (ALLATOMSSTR == tpp.first || ALLATOMSSTR == tpp.second);
+            if (!hasall || tpp == smblij || mask == tpmsk->second)  continue;
+            others.push_back(ALLATOMSSTR != tpp.first ? tpp.first : tpp.second);
+        }
+        list<string>::const_iterator so;
+        for (so = others.begin(); so != others.end(); ++so)
+        {
+            pair<string,string> smblko =
+                (sk > *so) ? make_pair(*so, sk) : make_pair(sk, *so);
+            mtypemask[smblko] = mask;
+            modified = true;
+        }
+    }
     pair<TypeMaskStorage::iterator, bool> pmm;
     pmm = mtypemask.emplace(smblij, mask);
     if (pmm.second || pmm.first->second != mask)  modified = true;
-- 
2.43.0


From ad0d451dfbb07ecf3581312341b7d69a088c2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 30/46] fix: pairs below rmin must reach the first point of the
 PDF

The lower limit of the pair range was rounded up to the next multiple of
rstep, which dropped pairs whose peaks extend past rmin.
---
 src/diffpy/srreal/PDFCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index d5ecd79..3c43eae 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -749,7 +749,8 @@ void PDFCalculator::cacheRlimitsData()
     const double& dr = this->getRstep();
     mrlimits_cache.extendedrminsteps = max(0, pdfutils_rminSteps(rmin - ext_ripples, dr));
     mrlimits_cache.extendedrmaxsteps = pdfutils_rmaxSteps(rmax + ext_ripples, dr);
-    mrlimits_cache.rcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
+    // round down to include all pairs within ext_total from rmin
+    mrlimits_cache.rcalclosteps = max(0, int(floor((rmin - ext_total) / dr)));
     mrlimits_cache.rcalchisteps = pdfutils_rmaxSteps(rmax + ext_total, dr);
     // value from a different pair range cannot be used for fast updates,
     // because peak widths may grow outside of the range from rmin to rmax
-- 
2.43.0


From 3c14e434ed352146e2d1b92b1021bd496d3705ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 31/46] fix: Debye PDF for electron scattering factors must not
 be NaN

Electron scattering factors diverge at Q=0 where sin(Q r) is zero.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index d251491..f270b62 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -177,7 +177,8 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
     const int nqpts = pdfutils_qmaxSteps(this);
     const int smscale = summationscale * bnds.multiplicity();
     const double& sineprec = this->getDebyePrecision();
-    for (int kq = pdfutils_qminSteps(this); kq < nqpts; ++kq)
+    // there is no contribution at Q=0, where scattering factor may be infinite
+    for (int kq = max(1, pdfutils_qminSteps(this)); kq < nqpts; ++kq)
     {
         const double q = kq * this->getQstep();
         const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));
-- 
2.43.0


From f392ed90556ce799d37081f71439f6da106f5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 32/46] fix: Debye sum must not stop where scattering factors
 cross zero

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index f270b62..904a32e 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -185,7 +185,8 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
         const double sinescale = smscale * dwscale *
             this->sfSiteAtkQ(bnds.site0(), kq) *
             this->sfSiteAtkQ(bnds.site1(), kq) / dist;
-        if (eps_eq(0.0, sinescale, sineprec))   break;
+        // scattering factors may cross zero and grow again at higher Q
+        if (eps_eq(0.0, sinescale, sineprec))   continue;
         mvalue[kq] += sinescale * sin(q * dist);
     }
 }
-- 
2.43.0


From 2b03807415fa36613118d6a75863ce8a5bcc9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 33/46] fix: bond valence lookup must not depend on the order
 of equal valence ions

---
 src/diffpy/srreal/BVParam.cpp           | 4 +++-
 src/diffpy/srreal/BVParametersTable.cpp | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..c16d567 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,9 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // use unique order also for atoms of the same valence
+    if (mvalence0 < mvalence1 ||
+            (mvalence0 == mvalence1 && matom1 < matom0))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..b828a6e 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -77,6 +77,15 @@ const BVParam& BVParametersTable::lookup(const BVParam& bpk) const
     if (bpit != mcustomtable.end())  return *bpit;
     bpit = stdtable.find(bpk9);
     if (bpit != stdtable.end())  return *bpit;
+    // either of two equal valences may belong to the unspecified cation
+    if (bpk.mvalence0 == bpk.mvalence1)
+    {
+        bpk9.matom0.swap(bpk9.matom1);
+        bpit = mcustomtable.find(bpk9);
+        if (bpit != mcustomtable.end())  return *bpit;
+        bpit = stdtable.find(bpk9);
+        if (bpit != stdtable.end())  return *bpit;
+    }
     // not found - return blank BVParam
     return this->none();
 }
-- 
2.43.0


From d2749bfbf27da9cce5678fac59958699993973e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 34/46] fix: copied calculators must not share their evaluator

---
 src/diffpy/srreal/PairQuantity.cpp | 30 ++++++++++++++++++++++++++++++
 src/diffpy/srreal/PairQuantity.hpp |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b094ef9..ad85715 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -50,6 +50,36 @@ PairQuantity::PairQuantity() :
             &PairQuantity::getRmax, &PairQuantity::setRmax);
 }
 
+
+// Evaluators keep track of the last evaluation, thus a copy needs its own.
+
+PairQuantity::PairQuantity(const PairQuantity& src) :
+    diffpy::Attributes(src)
+{
+    *this = src;
+}
+
+
+PairQuantity& PairQuantity::operator=(const PairQuantity& src)
+{
+    if (this == &src)  return *this;
+    PQEvaluatorPtr pqev = createPQEvaluator(
+            src.mevaluator->typeint(), src.mevaluator);
+    this->Attributes::operator=(src);
+    mvalue = src.mvalue;
+    mstructure = src.mstructure;
+    mrmin = src.mrmin;
+    mrmax = src.mrmax;
+    mevaluator = pqev;
+    mdefaultpairmask = src.mdefaultpairmask;
+    minvertpairmask = src.minvertpairmask;
+    msiteallmask = src.msiteallmask;
+    mtypemask = src.mtypemask;
+    mmergedvaluescount = src.mmergedvaluescount;
+    mticker = src.mticker;
+    return *this;
+}
+
 // Public Methods ------------------------------------------------------------
 
 const QuantityType& PairQuantity::eval()
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index eaa29c0..482bc1b 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -47,6 +47,8 @@ class PairQuantity : public diffpy::Attributes
 
         // constructor
         PairQuantity();
+        PairQuantity(const PairQuantity&);
+        PairQuantity& operator=(const PairQuantity&);
         virtual ~PairQuantity()  { }
 
         // methods
-- 
2.43.0


From bdf3c55de1f3a52c6d2c64a36fe3eaa8774d0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 35/46] fix: radii string with extra characters after the
 number must be rejected

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..be14292 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -74,7 +74,7 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
-        if (!(ssv >> value))
+        if (!(ssv >> value) || ssv.peek() != EOF)
         {
             ostringstream emsg;
             emsg << "Invalid floating point number in '" << w << "'.";
-- 
2.43.0


From 8d689167dd2928bdfa4bf74c9432fd791c6368ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 36/46] fix: string of custom radii must preserve their values

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index be14292..70dcaad 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -18,6 +18,8 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstdlib>
+#include <iomanip>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -121,7 +123,16 @@ string AtomRadiiTable::toString(string separator) const
     for (smbi = symbols.begin(); smbi != symbols.end(); ++smbi)
     {
         if (smbi != symbols.begin())  rv << separator;
-        rv << *smbi << ':' << mcustomradius.at(*smbi);
+        const double& radius = mcustomradius.at(*smbi);
+        // increase precision when necessary to recover the same radius
+        ostringstream srad;
+        srad << radius;
+        if (strtod(srad.str().c_str(), NULL) != radius)
+        {
+            srad.str("");
+            srad << setprecision(17) << radius;
+        }
+        rv << *smbi << ':' << srad.str();
     }
     return rv.str();
 }
-- 
2.43.0


From ae21a2e4b44d35411e6680ee7419a1a9a6aee324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 37/46] fix: X-ray factors of isotopes must be found for
 multivalent ions

---
 src/diffpy/srreal/scatteringfactordata.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..49fbd8e 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -198,12 +198,12 @@ SetOfWKFormulas::const_iterator findWKFormula(const string& smbl)
     // try again with an adjusted charge suffix
     wk.symbol = atomBareSymbol(smbl);
     int v = atomValence(smbl);
-    if (v == 0)  wkit = swk.find(wk);
-    else if (abs(v) == 1)
+    if (v != 0)
     {
-        wk.symbol += ((v > 0) ? "1+" : "1-");
-        wkit = swk.find(wk);
+        wk.symbol += char('0' + abs(v));
+        wk.symbol += (v > 0) ? '+' : '-';
     }
+    wkit = swk.find(wk);
     // raise exception if no match
     if (wkit == swk.end())
     {
-- 
2.43.0


From ebcd0b9ba52ec7b4c16e16754797839bd89b840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 38/46] fix: overlap gradients must account for occupancy and
 multiplicity

---
 src/diffpy/srreal/OverlapCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 5b2cbe4..755f119 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -238,9 +238,12 @@ vector<R3::Vector> OverlapCalculator::gradients() const
         if (olp <= 0.0)  continue;
         const double& dst = this->subvalue(DISTANCE_OFFSET, index);
         assert(eps_gt(dst, 0.0));
+        int i = int(this->subvalue(SITE0_OFFSET, index));
         int j = int(this->subvalue(SITE1_OFFSET, index));
-        gij = -2.0 * olp / dst * this->subdirection(index);
-        rv[j] += gij;
+        const double scale = mstructure->siteMultiplicity(i) *
+            mstructure->siteOccupancy(i) * mstructure->siteOccupancy(j);
+        gij = 2.0 * scale * olp / dst * this->subdirection(index);
+        rv[i] += gij;
     }
     return rv;
 }
-- 
2.43.0


From 4dc7561e3001fca942ab00f5874c948a5877cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 39/46] fix: upper limits of r and Q grids must be robust to
 roundoff

---
 src/diffpy/srreal/PDFUtils.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFUtils.ipp b/src/diffpy/srreal/PDFUtils.ipp
index 28d62b5..234b811 100644
--- a/src/diffpy/srreal/PDFUtils.ipp
+++ b/src/diffpy/srreal/PDFUtils.ipp
@@ -61,9 +61,12 @@ int pdfutils_qminSteps(const T* pdfc)
 template <class T>
 int pdfutils_qmaxSteps(const T* pdfc)
 {
+    using diffpy::mathutils::eps_eq;
     const double dq = pdfc->getQstep();
     if (dq <= 0.0)  return 0;
-    int rv = int(ceil(pdfc->getQmax() / dq));
+    const double qmax = pdfc->getQmax();
+    int rv = int(ceil(qmax / dq));
+    if (eps_eq(qmax, (rv - 1) * dq))  rv -= 1;
     return rv;
 }
 
@@ -107,7 +110,9 @@ int pdfutils_rminSteps(const T* pdfc)
 inline
 int pdfutils_rmaxSteps(const double& rmax, const double& rstep)
 {
+    using diffpy::mathutils::eps_eq;
     int rv = int(ceil(rmax / rstep));
+    if (eps_eq(rmax, (rv - 1) * rstep))  rv -= 1;
     return rv;
 }
 
-- 
2.43.0


From a685ca00f6ba126d9bda13adae4fada21c4f992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 40/46] fix: sine transformation must accept nonzero value at
 zero

---
 src/diffpy/srreal/PDFUtils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PDFUtils.cpp b/src/diffpy/srreal/PDFUtils.cpp
index 37a50b6..0061026 100644
--- a/src/diffpy/srreal/PDFUtils.cpp
+++ b/src/diffpy/srreal/PDFUtils.cpp
@@ -60,6 +60,8 @@ QuantityType fftgtof(const QuantityType& g, double rstep, double rmin)
     {
         gpadc[2 * ilo] = *gi;
     }
+    // sine transformation does not depend on the value at zero
+    gpadc[0] = 0.0;
     // copy the odd part of g skipping the first point,
     // because it is periodic image of gpadc[0]
     int ihi = 2 * Npad2 - 1;
-- 
2.43.0


From 87a4205c527973fba8180e37f2963665b079a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 41/46] fix: setQmax(0) must not throw after it changed the
 calculator

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 607ac6d..453c517 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -329,6 +329,8 @@ void DebyePDFCalculator::updateQstep()
     // Avoid division by zero.
     double oqstep = (this->getQmax() * rmaxext / M_PI > 4) ?
         (M_PI / rmaxext) : (this->getQmax() / 4);
+    // keep the current step when Qmax is zero, Q grid is then empty
+    if (!eps_gt(oqstep, 0.0))  return;
     // if custom qstep is higher than the optimum one,
     // force adjustment to the optimum value.
     if (this->getQstep() >= oqstep)  moptimumqstep = true;
-- 
2.43.0


From 1162bdd2d45fecfee9a5c95a54e55ee79b907c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 42/46] fix: failed load of a data file must not leave an empty
 table behind

---
 src/diffpy/srreal/BVParametersTable.cpp    | 10 +++++---
 src/diffpy/srreal/scatteringfactordata.cpp | 30 +++++++++++++---------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index b828a6e..94744e7 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -173,10 +173,11 @@ BVParametersTable::getStandardSetOfBVParam() const
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
-    static unique_ptr<SetOfBVParam> the_set;
-    if (!the_set)
+    static unique_ptr<SetOfBVParam> loaded_set;
+    if (!loaded_set)
     {
-        the_set.reset(new SetOfBVParam);
+        // keep the loaded data only when there is no error
+        unique_ptr<SetOfBVParam> the_set(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -198,8 +199,9 @@ BVParametersTable::getStandardSetOfBVParam() const
             assert(!the_set->count(bp));
             the_set->insert(bp);
         }
+        loaded_set.swap(the_set);
     }
-    return *the_set;
+    return *loaded_set;
 }
 
 }   // namespace srreal
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 49fbd8e..25d2f14 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -131,9 +131,10 @@ const SetOfWKFormulas& getWKFormulasSet()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
-    static unique_ptr<SetOfWKFormulas> the_set;
-    if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    static unique_ptr<SetOfWKFormulas> loaded_set;
+    if (loaded_set)  return *loaded_set;
+    // keep the loaded data only when there is no error
+    unique_ptr<SetOfWKFormulas> the_set(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -182,7 +183,8 @@ const SetOfWKFormulas& getWKFormulasSet()
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    loaded_set.swap(the_set);
+    return *loaded_set;
 }
 
 
@@ -223,11 +225,12 @@ ElectronNumberStorage& getElectronNumberTable()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
-    static unique_ptr<ElectronNumberStorage> entable;
+    static unique_ptr<ElectronNumberStorage> loaded_table;
     typedef ElectronNumberStorage::value_type ENPair;
-    if (!entable)
+    if (!loaded_table)
     {
-        entable.reset(new ElectronNumberStorage);
+        // keep the loaded data only when there is no error
+        unique_ptr<ElectronNumberStorage> entable(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -260,8 +263,9 @@ ElectronNumberStorage& getElectronNumberTable()
                 " items loaded " << entable->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        loaded_table.swap(entable);
     }
-    return *entable;
+    return *loaded_table;
 }
 
 // Neutron scattering lengths
@@ -273,9 +277,10 @@ const NeutronBCStorage& getNeutronBCTable()
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
     typedef NeutronBCStorage::value_type BCPair;
-    static unique_ptr<NeutronBCStorage> bctable;
-    if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    static unique_ptr<NeutronBCStorage> loaded_table;
+    if (loaded_table)  return *loaded_table;
+    // keep the loaded data only when there is no error
+    unique_ptr<NeutronBCStorage> bctable(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -343,7 +348,8 @@ const NeutronBCStorage& getNeutronBCTable()
     bctable->insert(BCPair("n", bctable->at("1-n")));
     bctable->insert(BCPair("D", bctable->at("2-H")));
     bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    loaded_table.swap(bctable);
+    return *loaded_table;
 }
 
 }   // namespace
-- 
2.43.0


From 902171ff33bd0f499e83493550b031826f9ec124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 43/46] fix: rejected radiation alias must not leave the table
 type registered

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..e6bbbc3 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -16,6 +16,8 @@
 *
 *****************************************************************************/
 
+#include <stdexcept>
+
 #include <diffpy/srreal/ScatteringFactorTable.hpp>
 #include <diffpy/HasClassRegistry.ipp>
 #include <diffpy/validators.hpp>
@@ -39,8 +41,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    // do not leave the type registered when its alias is rejected
+    catch (const logic_error&) {
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From fd3f97a204043d21d6b650a3bf19dfdc187cd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 44/46] fix: do not use a failed evaluation as a base for fast
 updates

---
 src/diffpy/srreal/PQEvaluator.cpp  | 4 ++++
 src/diffpy/srreal/PairQuantity.cpp | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index d063d89..bdb82d1 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -205,6 +205,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // there is no base for the next fast update if this one fails
+    mlast_structure.reset();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -306,6 +308,8 @@ void PQEvaluatorOptimized::updateValue(
 void PQEvaluatorOptimized::updateValueCompletely(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    // there is no base for the next fast update if this one fails
+    mlast_structure.reset();
     this->PQEvaluatorBasic::updateValue(pq, stru);
     mlast_structure = pq.getStructure()->clone();
 }
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index ad85715..94db63d 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -98,9 +98,9 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    this->applyStructure(stru);
-    // the value was reset, it cannot be a base of any fast update
+    // the value is reset, it cannot be a base of any fast update
     mticker.click();
+    this->applyStructure(stru);
 }
 
 
-- 
2.43.0


From 14998b444267943eab857c9d16656e3b9a71c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:52 +0000
Subject: [PATCH 45/46] fix: update Q-step of a restored PDFCalculator with an
 empty structure

---
 src/diffpy/srreal/PDFCalculator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 3c43eae..8b0cf85 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -44,10 +44,11 @@ namespace {
 template <class PDFC>
 bool _initialQstepUpdate(const PDFC* pc)
 {
-    // Check if we use the initial empty structure and constructor
-    // has completed, i.e., the last attribute is available.
+    // Check if we use an empty structure and constructor has completed,
+    // i.e., the last attribute is available.  The structure of a calculator
+    // restored from an archive is not identical to emptyStructureAdapter().
     const bool rv =
-        (pc->getStructure() == emptyStructureAdapter()) &&
+        (0 == pc->getStructure()->countSites()) &&
         pc->hasDoubleAttr("extendedrmax");
     return rv;
 }
-- 
2.43.0


From af03cfa7f78b6574a41ebb6836d8b7ade3f99111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 46/46] fix: allow nested calls of R3::mxvecproduct

The argument may be a reference to the static result of a previous call,
which got overwritten while it was still in use.
---
 src/diffpy/srreal/R3linalg.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.hpp b/src/diffpy/srreal/R3linalg.hpp
index bffd5c7..c7f5eaf 100644
--- a/src/diffpy/srreal/R3linalg.hpp
+++ b/src/diffpy/srreal/R3linalg.hpp
@@ -250,9 +250,11 @@ template <class V>
 const Vector& mxvecproduct(const Matrix& M, const V& u)
 {
     static Vector res;
-    res[0] = M(0,0)*u[0] + M(0,1)*u[1] + M(0,2)*u[2];
-    res[1] = M(1,0)*u[0] + M(1,1)*u[1] + M(1,2)*u[2];
-    res[2] = M(2,0)*u[0] + M(2,1)*u[1] + M(2,2)*u[2];
+    // u may refer to the result of a previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = M(0,0)*u0 + M(0,1)*u1 + M(0,2)*u2;
+    res[1] = M(1,0)*u0 + M(1,1)*u1 + M(1,2)*u2;
+    res[2] = M(2,0)*u0 + M(2,1)*u1 + M(2,2)*u2;
     return res;
 }
 
@@ -261,9 +263,11 @@ template <class V>
 const Vector& mxvecproduct(const V& u, const Matrix& M)
 {
     static Vector res;
-    res[0] = u[0]*M(0,0) + u[1]*M(1,0) + u[2]*M(2,0);
-    res[1] = u[0]*M(0,1) + u[1]*M(1,1) + u[2]*M(2,1);
-    res[2] = u[0]*M(0,2) + u[1]*M(1,2) + u[2]*M(2,2);
+    // u may refer to the result of a previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = u0*M(0,0) + u1*M(1,0) + u2*M(2,0);
+    res[1] = u0*M(0,1) + u1*M(1,1) + u2*M(2,1);
+    res[2] = u0*M(0,2) + u1*M(1,2) + u2*M(2,2);
     return res;
 }
 
-- 
2.43.0

