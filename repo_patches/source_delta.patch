From eb65fe61078e05b2eea5d5e8cb3df8917ccbe1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 01/30] fix: asind returned arccosine for arguments without a
 tabulated value

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From 034e10e4a978e447e0e357a2f6fcd0c930a9dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 02/30] fix: keep Lattice unchanged when setLatBase rejects the
 base vectors

---
 src/diffpy/srreal/Lattice.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..dbad84e 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,12 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    // check the new base before touching any data
+    R3::Matrix base0;
+    R3::row(base0, 0) = va0;
+    R3::row(base0, 1) = vb0;
+    R3::row(base0, 2) = vc0;
+    double detbase = R3::determinant(base0);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +120,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = base0;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From 88589695629930aa55ce9c2ef4bdb71382213ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 03/30] fix: Lattice angle of parallel vectors must not be NaN
 due to round-off

---
 src/diffpy/srreal/Lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..eeba99b 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -502,6 +502,8 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // round-off must not take the cosine out of the acos domain
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acosd(ca);
 }
 
@@ -510,6 +512,8 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // round-off must not take the cosine out of the acos domain
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acos(ca);
 }
 
-- 
2.43.0


From 377c8b5a354cd15036713c785eafe7c662c10438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 04/30] fix: nested mxvecproduct calls overwrote their own
 argument

---
 src/diffpy/srreal/R3linalg.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.hpp b/src/diffpy/srreal/R3linalg.hpp
index bffd5c7..bbb7134 100644
--- a/src/diffpy/srreal/R3linalg.hpp
+++ b/src/diffpy/srreal/R3linalg.hpp
@@ -250,9 +250,11 @@ template <class V>
 const Vector& mxvecproduct(const Matrix& M, const V& u)
 {
     static Vector res;
-    res[0] = M(0,0)*u[0] + M(0,1)*u[1] + M(0,2)*u[2];
-    res[1] = M(1,0)*u[0] + M(1,1)*u[1] + M(1,2)*u[2];
-    res[2] = M(2,0)*u[0] + M(2,1)*u[1] + M(2,2)*u[2];
+    // u may be a reference to res
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = M(0,0)*u0 + M(0,1)*u1 + M(0,2)*u2;
+    res[1] = M(1,0)*u0 + M(1,1)*u1 + M(1,2)*u2;
+    res[2] = M(2,0)*u0 + M(2,1)*u1 + M(2,2)*u2;
     return res;
 }
 
@@ -261,9 +263,11 @@ template <class V>
 const Vector& mxvecproduct(const V& u, const Matrix& M)
 {
     static Vector res;
-    res[0] = u[0]*M(0,0) + u[1]*M(1,0) + u[2]*M(2,0);
-    res[1] = u[0]*M(0,1) + u[1]*M(1,1) + u[2]*M(2,1);
-    res[2] = u[0]*M(0,2) + u[1]*M(1,2) + u[2]*M(2,2);
+    // u may be a reference to res
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = u0*M(0,0) + u1*M(1,0) + u2*M(2,0);
+    res[1] = u0*M(0,1) + u1*M(1,1) + u2*M(2,1);
+    res[2] = u0*M(0,2) + u1*M(1,2) + u2*M(2,2);
     return res;
 }
 
-- 
2.43.0


From e1ea9dea72a808c8b8f513d1156b8a6bbe1224e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 05/30] fix: pair masks with 'all' must follow the order of
 mask calls

Overlapping all-masks were applied in the arbitrary order of a hash table and
a later single-pair mask erased the all-mask of its site for sites that are
added afterwards.  getTypeMask depended on the order of its arguments.
---
 src/diffpy/srreal/PairQuantity.cpp | 82 +++++++++++++++++++++++++-----
 src/diffpy/srreal/PairQuantity.hpp |  8 +++
 2 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..b6e919e 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -187,6 +187,7 @@ void PairQuantity::maskAllPairs(bool mask)
     if (!nochange)  mticker.click();
     minvertpairmask.clear();
     msiteallmask.clear();
+    msitepairmask.clear();
     mtypemask.clear();
     mdefaultpairmask = mask;
 }
@@ -201,6 +202,11 @@ void PairQuantity::invertMask()
     {
         mm->second = !(mm->second);
     }
+    SitePairMaskStorage::iterator spmsk;
+    for (spmsk = msitepairmask.begin(); spmsk != msitepairmask.end(); ++spmsk)
+    {
+        spmsk->second = !(spmsk->second);
+    }
     TypeMaskStorage::iterator tpmsk;
     for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
     {
@@ -234,27 +240,42 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         pmm = msiteallmask.emplace(k, mask);
         if (pmm.second || pmm.first->second != mask)  modified = true;
         pmm.first->second = mask;
+        // this call overrides any earlier masks of the pairs with site k
+        SitePairMaskStorage::iterator spmsk;
+        for (spmsk = msitepairmask.begin(); spmsk != msitepairmask.end();)
+        {
+            const bool eraseitem =
+                (k == spmsk->first.first || k == spmsk->first.second);
+            if (eraseitem)
+            {
+                if (mask != spmsk->second)  modified = true;
+                spmsk = msitepairmask.erase(spmsk);
+            }
+            else  ++spmsk;
+        }
+        // remember pairs where some other site has the opposite all-mask
+        unordered_map<int, bool>::const_iterator mm;
+        for (mm = msiteallmask.begin(); mm != msiteallmask.end(); ++mm)
+        {
+            if (mm->second == mask)  continue;
+            msitepairmask[this->sortedIndexPair(k, mm->first)] = mask;
+        }
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            if (this->setPairMaskValue(k, l, mask))  modified = true;
         }
         if (modified)  mticker.click();
         return;
     }
     // here neither i nor j is ALLATOMSINT
-    unordered_map<int, bool>::iterator ii, jj;
-    ii = msiteallmask.find(i);
-    if (ii != msiteallmask.end() && mask != ii->second)
-    {
-        msiteallmask.erase(ii);
-        modified = true;
-    }
-    jj = msiteallmask.find(j);
-    if (jj != msiteallmask.end() && mask != jj->second)
+    // remember pairs that are excepted from the all-mask of either site
+    if (msiteallmask.count(i) || msiteallmask.count(j))
     {
-        msiteallmask.erase(jj);
-        modified = true;
+        pair<SitePairMaskStorage::iterator, bool> spmm;
+        spmm = msitepairmask.emplace(this->sortedIndexPair(i, j), mask);
+        if (spmm.second || spmm.first->second != mask)  modified = true;
+        spmm.first->second = mask;
     }
     modified = this->setPairMaskValue(i, j, mask) ? true : modified;
     if (modified)  mticker.click();
@@ -263,7 +284,7 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
 
 bool PairQuantity::getPairMask(int i, int j) const
 {
-    pair<int,int> ij = (i > j) ? make_pair(j, i) : make_pair(i, j);
+    pair<int,int> ij = this->sortedIndexPair(i, j);
     bool rv = minvertpairmask.count(ij) ?
         !mdefaultpairmask : mdefaultpairmask;
     return rv;
@@ -295,6 +316,7 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
+    msitepairmask.clear();
     bool modified = false;
     // when all is used, remove all typemask elements with the other type
     if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
@@ -318,6 +340,25 @@ setTypeMask(string smbli, string smblj, bool mask)
     pmm = mtypemask.emplace(smblij, mask);
     if (pmm.second || pmm.first->second != mask)  modified = true;
     pmm.first->second = mask;
+    // preserve this mask for pairs with any type that has the opposite
+    // all-mask, because their order of precedence would be otherwise lost
+    if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
+    {
+        const string sk = (ALLATOMSSTR != smbli) ? smbli : smblj;
+        list< pair<string,string> > exceptions;
+        TypeMaskStorage::const_iterator tpmsk;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const pair<string,string>& tt = tpmsk->first;
+            if (tpmsk->second == mask)  continue;
+            if (ALLATOMSSTR != tt.first && ALLATOMSSTR != tt.second)  continue;
+            const string& sm = (ALLATOMSSTR != tt.first) ? tt.first : tt.second;
+            exceptions.push_back((sk > sm) ?
+                    make_pair(sm, sk) : make_pair(sk, sm));
+        }
+        list< pair<string,string> >::const_iterator ex = exceptions.begin();
+        for (; ex != exceptions.end(); ++ex)  mtypemask[*ex] = mask;
+    }
     if (modified)  mticker.click();
 }
 
@@ -433,6 +474,13 @@ void PairQuantity::updateMaskData()
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
+        // Apply exceptions from the ALLATOMSINT masks.
+        SitePairMaskStorage::const_iterator sp;
+        for (sp = msitepairmask.begin(); sp != msitepairmask.end(); ++sp)
+        {
+            this->setPairMaskValue(
+                    sp->first.first, sp->first.second, sp->second);
+        }
     }
     // For type masking propagate atom types to corresponding atom indices.
     else
@@ -477,10 +525,16 @@ void PairQuantity::updateMaskData()
 }
 
 
+pair<int,int> PairQuantity::sortedIndexPair(int i, int j) const
+{
+    return (i > j) ? make_pair(j, i) : make_pair(i, j);
+}
+
+
 bool PairQuantity::setPairMaskValue(int i, int j, bool mask)
 {
     assert(i >= 0 && j >= 0);
-    pair<int,int> ij = (i > j) ? make_pair(j, i) : make_pair(i, j);
+    pair<int,int> ij = this->sortedIndexPair(i, j);
     bool rv;
     rv = (mask == mdefaultpairmask) ?
         minvertpairmask.erase(ij) :
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..8f9c6c1 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -111,6 +111,10 @@ class PairQuantity : public diffpy::Attributes
             std::pair<std::string,std::string>, bool,
             boost::hash< std::pair<std::string,std::string> >
                 > TypeMaskStorage;
+        typedef std::unordered_map<
+            std::pair<int,int>, bool,
+            boost::hash< std::pair<int,int> >
+                > SitePairMaskStorage;
         QuantityType mvalue;
         StructureAdapterPtr mstructure;
         double mrmin;
@@ -120,6 +124,7 @@ class PairQuantity : public diffpy::Attributes
         PairMaskStorage minvertpairmask;
         std::unordered_map<int, bool> msiteallmask;
         TypeMaskStorage mtypemask;
+        SitePairMaskStorage msitepairmask;
         int mmergedvaluescount;
         mutable eventticker::EventTicker mticker;
 
@@ -128,6 +133,7 @@ class PairQuantity : public diffpy::Attributes
         // methods
         void updateMaskData();
         bool setPairMaskValue(int i, int j, bool mask);
+        std::pair<int,int> sortedIndexPair(int i, int j) const;
 
         // serialization
         friend class boost::serialization::access;
@@ -145,6 +151,7 @@ class PairQuantity : public diffpy::Attributes
             ar & mtypemask;
             ar & mmergedvaluescount;
             ar & mticker;
+            if (version >= 1)  ar & msitepairmask;
         }
 
 };
@@ -180,6 +187,7 @@ replacePairQuantityStructure(PairQuantity& pq, StructureAdapterPtr stru);
 // Serialization -------------------------------------------------------------
 
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PairQuantity)
+BOOST_CLASS_VERSION(diffpy::srreal::PairQuantity, 1)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PairQuantity)
 
 #endif  // PAIRQUANTITY_HPP_INCLUDED
-- 
2.43.0


From 5a1535f2bf24029f2e28b0688ca928bb28806140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 06/30] fix: explicit setStructure must invalidate the value
 for fast updates

PairQuantity::setStructure resets the value, but the OPTIMIZED evaluator
still applied its next fast update to that zero value.
---
 src/diffpy/srreal/PQEvaluator.cpp  |  4 ++--
 src/diffpy/srreal/PairQuantity.cpp | 16 ++++++++++++----
 src/diffpy/srreal/PairQuantity.hpp |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..97f498d 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -97,7 +97,7 @@ void PQEvaluatorBasic::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
     mtypeused = BASIC;
-    pq.setStructure(stru);
+    pq.assignStructure(stru);
     BaseBondGeneratorPtr bnds = pq.mstructure->createBondGenerator();
     pq.configureBondGenerator(*bnds);
     int cntsites = pq.mstructure->countSites();
@@ -250,7 +250,7 @@ void PQEvaluatorOptimized::updateValue(
     // setStructure(stru1) calls stru1->customPQConfig(pq), which may totally
     // change pq configuration.  If so, revert to full calculation.
     assert(pq.ticker() < mvalue_ticker);
-    pq.setStructure(sd.stru1);
+    pq.assignStructure(convertToStructureAdapter(sd.stru1));
     if (pq.ticker() >= mvalue_ticker)
     {
         return this->updateValueCompletely(pq, stru);
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b6e919e..bafb85d 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,10 +68,9 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    mstructure = stru.get() ? stru : emptyStructureAdapter();
-    mstructure->customPQConfig(this);
-    this->updateMaskData();
-    this->resetValue();
+    // the reset value is not suitable for any fast updates
+    mticker.click();
+    this->assignStructure(stru);
 }
 
 
@@ -460,6 +459,15 @@ void PairQuantity::restorePartialValue()
 
 // Private Methods -----------------------------------------------------------
 
+void PairQuantity::assignStructure(StructureAdapterPtr stru)
+{
+    mstructure = stru.get() ? stru : emptyStructureAdapter();
+    mstructure->customPQConfig(this);
+    this->updateMaskData();
+    this->resetValue();
+}
+
+
 void PairQuantity::updateMaskData()
 {
     int cntsites = this->countSites();
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index 8f9c6c1..a72569f 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -131,6 +131,7 @@ class PairQuantity : public diffpy::Attributes
     private:
 
         // methods
+        void assignStructure(StructureAdapterPtr);
         void updateMaskData();
         bool setPairMaskValue(int i, int j, bool mask);
         std::pair<int,int> sortedIndexPair(int i, int j) const;
-- 
2.43.0


From 081a2b89ca0ad696597cb7459a1843c412e25968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 07/30] fix: parallel setup must invalidate the value for fast
 updates

After setupParallelRun the OPTIMIZED evaluator returned the cached value for
the previous division of work.
---
 src/diffpy/srreal/PQEvaluator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 97f498d..ca22d2b 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,11 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // any previous value was obtained for a different division of work
+    if (mcpuindex != cpuindex || mncpu != ncpu)
+    {
+        mvalue_ticker = eventticker::EventTicker();
+    }
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
-- 
2.43.0


From da727c76e65fefe1e9b3e147cd0fa8d50d79337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 08/30] fix: failed evaluation must not leave a base for fast
 updates

When evaluation raised an exception, the OPTIMIZED evaluator applied the next
fast update to the incomplete value.
---
 src/diffpy/srreal/PQEvaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index ca22d2b..73fc29f 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -205,6 +205,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // require full calculation if this update gets interrupted by exception
+    mlast_structure.reset();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -306,6 +308,7 @@ void PQEvaluatorOptimized::updateValue(
 void PQEvaluatorOptimized::updateValueCompletely(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    mlast_structure.reset();
     this->PQEvaluatorBasic::updateValue(pq, stru);
     mlast_structure = pq.getStructure()->clone();
 }
-- 
2.43.0


From 28f51a5037951d1a7ee386cab4436e930f9c9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 09/30] fix: cone filter must not drop bonds along its axis due
 to round-off

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..8124fb7 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -285,7 +285,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // avoid NaN when round-off pushes the cosine out of [-1, +1]
+        double ca = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(ca);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 440dbae169e1d771a96990a3cc09331f628a0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 10/30] fix: crystal images must be averaged modulo lattice
 vectors

Equal images on the opposite sides of the unit cell were averaged to a
position in the middle of the cell, and sites without any symmetry operation
were left outside of the unit cell, so their bonds were not found.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..a48adb3 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -181,7 +181,13 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // average over the images that are closest to the first position,
+        // because equal positions may differ by a lattice vector
+        R3::Vector dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        dxyz[0] -= round(dxyz[0]);
+        dxyz[1] -= round(dxyz[1]);
+        dxyz[2] -= round(dxyz[2]);
+        eqsumpos[ieq] += eqsites[ieq].xyz_cartn + dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
@@ -202,7 +208,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     vector<int>::const_iterator dpi = eqduplicity.begin();
     for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional((*sii) / (*dpi));
     }
     return eqsites;
 }
-- 
2.43.0


From 9a3d3c83243c12339b17070b0ebd7d9970ebaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 11/30] fix: cropped Gaussian profile must vanish for
 nonpositive width

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From 377ec4ac32471e93252ceec54dd7beb7442758ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 12/30] fix: exclude inner lattice points when the hole edge is
 a lattice point

---
 src/diffpy/srreal/PointsInSphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..11e1afd 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -222,7 +222,7 @@ void PointsInSphere::next_n()
             hi_o = outside_o;
             if (oExclHalfSpan)
             {
-                int hole_o = int(ceil(o0line - oExclHalfSpan));
+                int hole_o = int(floor(o0line - oExclHalfSpan)) + 1;
                 if (fabs(hole_o-o0line) < oExclHalfSpan)    hi_o = hole_o;
             }
             return;
-- 
2.43.0


From a3357b5d561ebd41e157c7a18ef334409ebc998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 13/30] fix: DebyePDFCalculator read past the transformed PDF
 for grids of 2^n points

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..c73da63 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -312,8 +312,10 @@ QuantityType DebyePDFCalculator::getPDFAtQmin(double qmin) const
         int iphi = iplo + 1;
         double wphi = xdrp - iplo;
         double wplo = 1.0 - wphi;
-        assert(iphi < int(gpad.size()));
-        *pdfi = wplo * gpad[iplo] + wphi * gpad[iphi];
+        assert(iphi <= int(gpad.size()));
+        // sine transformation is zero right after the last point of gpad
+        double ghi = (iphi < int(gpad.size())) ? gpad[iphi] : 0.0;
+        *pdfi = wplo * gpad[iplo] + wphi * ghi;
     }
     return pdf0;
 }
-- 
2.43.0


From cec1dddbeb9c8d82af5bbf9bfa4e3d4df8480aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 14/30] fix: DebyePDFCalculator rejected zero Qmax after
 storing it

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index c73da63..e5d1019 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -328,6 +328,12 @@ void DebyePDFCalculator::updateQstep()
     // Avoid division by zero.
     double oqstep = (this->getQmax() * rmaxext / M_PI > 4) ?
         (M_PI / rmaxext) : (this->getQmax() / 4);
+    // without any Q-range to divide just use the step for the r-range
+    if (!eps_gt(oqstep, 0.0))
+    {
+        if (!eps_gt(rmaxext, 0.0))  return;
+        oqstep = M_PI / rmaxext;
+    }
     // if custom qstep is higher than the optimum one,
     // force adjustment to the optimum value.
     if (this->getQstep() >= oqstep)  moptimumqstep = true;
-- 
2.43.0


From f1f4403d566025bd639ec9c81701a9037ab72e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 15/30] fix: fast update of PDFCalculator with an empty r-range
 failed on assertion

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..07ef654 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From 213a5a831b50ce06ae0f79b831c36bcb35934a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:50 +0000
Subject: [PATCH 16/30] fix: parallel bond data with fast updates or with one
 CPU

BondCalculator lost earlier additions on fast updates in a parallel worker
(and aborted in debug builds).
---
 src/diffpy/srreal/BondCalculator.cpp | 15 ++++++++++-----
 src/diffpy/srreal/BondCalculator.hpp |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 8124fb7..1781583 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -233,18 +233,20 @@ void BondCalculator::executeParallelMerge(const std::string& pdata)
 
 void BondCalculator::finishValue()
 {
-    // filter-out entries marked for removal
-    assert(mpopbonds.size() <= mbonds.size());
     sort(mpopbonds.begin(), mpopbonds.end(), BondOp::compare);
     sort(maddbonds.begin(), maddbonds.end(), BondOp::compare);
+    // keep the changes since the last full evaluation for getParallelData
     if (mevaluator->isParallel())  return;
+    if (mbonds.empty())  mbonds.swap(maddbonds);
+    else  BondOp::bmerge(mbonds, maddbonds);
+    // filter-out entries marked for removal.  These may be among the added
+    // entries when merging data from several fast updates.
+    assert(mpopbonds.size() <= mbonds.size());
     BondDataStorage::iterator last;
     last = set_difference(mbonds.begin(), mbonds.end(),
             mpopbonds.begin(), mpopbonds.end(),
             mbonds.begin(), BondOp::compare);
     mbonds.erase(last, mbonds.end());
-    if (mbonds.empty())  mbonds.swap(maddbonds);
-    else  BondOp::bmerge(mbonds, maddbonds);
     mvalue = this->distances();
     mpopbonds.clear();
     maddbonds.clear();
@@ -255,7 +257,8 @@ void BondCalculator::stashPartialValue()
 {
     mstashedvalue.bonds.swap(mbonds);
     mstashedvalue.popbonds.swap(mpopbonds);
-    // No need to stash maddbonds as they are evaluated after partial value.
+    // maddbonds may hold earlier additions when running in parallel
+    mstashedvalue.addbonds.swap(maddbonds);
 }
 
 
@@ -263,8 +266,10 @@ void BondCalculator::restorePartialValue()
 {
     mbonds.swap(mstashedvalue.bonds);
     mpopbonds.swap(mstashedvalue.popbonds);
+    maddbonds.swap(mstashedvalue.addbonds);
     mstashedvalue.bonds.clear();
     mstashedvalue.popbonds.clear();
+    mstashedvalue.addbonds.clear();
 }
 
 // Private Methods -----------------------------------------------------------
diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..94ae340 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -111,6 +111,7 @@ class BondCalculator : public PairQuantity
         struct {
             BondDataStorage bonds;
             BondDataStorage popbonds;
+            BondDataStorage addbonds;
         } mstashedvalue;
 
 };
-- 
2.43.0


From 07d38c7c1af2e7c752ba3c979b737759d7ddcb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 17/30] fix: BondCalculator parallel data for a single CPU are
 not empty

---
 src/diffpy/srreal/BondCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 1781583..100828d 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,10 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // all bonds were already applied when there is just one CPU
+    const BondDataStorage nobonds;
+    if (mevaluator->isParallel())  oa << mpopbonds << maddbonds;
+    else  oa << nobonds << mbonds;
     return storage.str();
 }
 
-- 
2.43.0


From b959fede276e78a266f849f080acb6201a997710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 18/30] fix: Debye sums with different occupancies of the same
 atom type

Scattering factors were cached per atom type although they include the
occupancy of the first such site.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..096934e 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -234,19 +234,23 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors depend on both atom type and site occupancy
+    typedef pair<string,double> TypeOccupancy;
+    unordered_map< TypeOccupancy, int, boost::hash<TypeOccupancy> >
+        atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const TypeOccupancy tpocc(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(tpocc))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(tpocc, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[tpocc];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From f2da7c5b75fde8f3eedb73e4c627571fe93f9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:20 +0000
Subject: [PATCH 19/30] fix: reject trailing characters after a radius in
 AtomRadiiTable::fromString

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..e4399a1 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -74,7 +74,7 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
-        if (!(ssv >> value))
+        if (!(ssv >> value && ssv.peek() == istringstream::traits_type::eof()))
         {
             ostringstream emsg;
             emsg << "Invalid floating point number in '" << w << "'.";
-- 
2.43.0


From e3dbfd8a602f0c58639c1a8a3ab07078e10a2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:31 +0000
Subject: [PATCH 20/30] fix: atomBareSymbol returned signs of a symbol without
 any letter

---
 src/diffpy/srreal/AtomUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomUtils.cpp b/src/diffpy/srreal/AtomUtils.cpp
index 37cd41a..6c0136d 100644
--- a/src/diffpy/srreal/AtomUtils.cpp
+++ b/src/diffpy/srreal/AtomUtils.cpp
@@ -28,7 +28,7 @@ std::string atomBareSymbol(const std::string& atomtype)
     pe = atomtype.find_last_not_of("+-012345678 \t");
     std::string::size_type npos = std::string::npos;
     std::string rv;
-    if (pb != npos && pe != npos)  rv = atomtype.substr(pb, pe - pb + 1);
+    if (pb != npos && pe != npos && pb <= pe)  rv = atomtype.substr(pb, pe - pb + 1);
     return rv;
 }
 
-- 
2.43.0


From ee532578a003eaf6e61f14f47cf66ae3f9c065be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 21/30] fix: determinant of a singular matrix was NaN and
 setLatBase aborted on some degenerate bases

---
 src/diffpy/srreal/R3linalg.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..ecf433f 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,11 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // LU decomposition may yield NaN for singular matrices
+    double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From 5004f713f6d0e0d9e3cf63bdc29ba9a50520318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:24 +0000
Subject: [PATCH 22/30] fix: BVSCalculator sums for sites of different
 multiplicity

The valence of a bond was added to its second site just once, although
that site has one such bond for every symmetry equivalent of the first
site.
---
 src/diffpy/srreal/BVSCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..87a8b2f 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -176,7 +176,10 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    // site1 has this bond once for every symmetry equivalent of site0
+    const double m01 = 1.0 * mstructure->siteMultiplicity(bnds.site0()) /
+        mstructure->siteMultiplicity(bnds.site1());
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * m01;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From bd383c3b376146a55135c058f5706035867cd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:24 +0000
Subject: [PATCH 23/30] fix: lower distance bound is ignored by BVSCalculator

---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 87a8b2f..84d6bf3 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From bcdc4da543870b4ecdb6f244a767e378094e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:36 +0000
Subject: [PATCH 24/30] fix: bond parameters of equal valences depend on the
 order of atoms

---
 src/diffpy/srreal/BVParam.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..f4a1837 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,9 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // the same bond must have the same key for either order of its atoms
+    if (mvalence0 < mvalence1 ||
+            (mvalence0 == mvalence1 && matom1 < matom0))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
-- 
2.43.0


From 738fbdae64bf2ef720001a6ed31eb01fb1618da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:05 +0000
Subject: [PATCH 25/30] fix: forget cached overlap neighbors when merging
 parallel data

OverlapCalculator neighbor queries made before the last mergeParallelData
left a stale cache, thus getNeighborSites, coordinationByTypes and
flipDiffTotal ignored the pairs merged later.
---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..67bf872 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,9 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    // neighbors cached before the merge do not include the new pairs
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 6ec59907a10334081dcb51f714ee29dbea211fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:26 +0000
Subject: [PATCH 26/30] fix: rebuild overlap neighbors after loading a
 calculator

The neighbor lists were archived without the flag that they are valid.
The first neighbor query in a restored OverlapCalculator hit an assertion
or listed every neighbor twice, and loading to a calculator that had been
queried kept the flag of its old data.
---
 src/diffpy/srreal/OverlapCalculator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..bfc2b50 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -127,6 +127,12 @@ class OverlapCalculator : public PairQuantity
             ar & mneighborids;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
+            // rebuild neighbor data after loading when needed
+            if (Archive::is_loading::value)
+            {
+                mneighborids.clear();
+                mneighborids_cached = false;
+            }
         }
 
 };
-- 
2.43.0


From d71a5d714d9e71411f08a627ca5ce54958128e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:08 +0000
Subject: [PATCH 27/30] fix: keep adding Debye terms beyond a zero of the
 scattering factors

The summation over Q stopped at the first term within debyeprecision.
Scattering factors that pass through zero thus lost all contributions
at higher Q.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index 096934e..ca3c8c0 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -183,7 +183,9 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
         const double sinescale = smscale * dwscale *
             this->sfSiteAtkQ(bnds.site0(), kq) *
             this->sfSiteAtkQ(bnds.site1(), kq) / dist;
-        if (eps_eq(0.0, sinescale, sineprec))   break;
+        // NOTE: the scattering factors may change sign, so that larger
+        // contributions are possible at higher Q.
+        if (eps_eq(0.0, sinescale, sineprec))   continue;
         mvalue[kq] += sinescale * sin(q * dist);
     }
 }
-- 
2.43.0


From fd3e9692b285b42d79e8edd6ef7e2d7039df651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 28/30] fix: crystal multiplicities follow atoms and lattices
 changed in place

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 13 +++++++++----
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 11 +++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index a48adb3..1e2789d 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -231,6 +231,8 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    msymsource.assign(this->begin(), this->end());
+    msymbase = this->getLattice().base();
     msymmetry_cached = true;
 }
 
@@ -254,10 +256,13 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
+        (int(msymatoms.size()) == this->countSites()) &&
+        (msymsource.size() == msymatoms.size()) &&
+        (msymsource[idx] == this->at(idx)) &&
+        (msymbase == this->getLattice().base());
     return msymmetry_cached;
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..af0f11e 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -101,14 +101,17 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
         mutable bool msymmetry_cached;
+        /// asymmetric unit and lattice used for msymatoms
+        mutable AtomVector msymsource;
+        mutable R3::Matrix msymbase;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions are up to date for site idx.
+        /// this detects addition or removal of atoms in the asymmetric
+        /// unit, changes of the atom idx and changes of the lattice.
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
-- 
2.43.0


From 641938c05a42a5e7a8de598cf19634ca5bf70d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:48 +0000
Subject: [PATCH 29/30] fix: displacement tensor of a crystal bond anchor
 belongs to its first image

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 9 ++++++++-
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 1e2789d..eceae9e 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -313,6 +313,13 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
 }
 
 
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    // the anchor is at the first symmetry position
+    return this->symatoms(this->site0())[0].uij_cartn;
+}
+
+
 const R3::Matrix& CrystalStructureBondGenerator::Ucartesian1() const
 {
     return *mpuc1;
@@ -366,7 +373,7 @@ void CrystalStructureBondGenerator::updater1()
 // Private Methods -----------------------------------------------------------
 
 const CrystalStructureAdapter::AtomVector&
-CrystalStructureBondGenerator::symatoms(int idx)
+CrystalStructureBondGenerator::symatoms(int idx) const
 {
     assert(0 <= idx && idx < int(mcstructure->msymatoms.size()));
     return mcstructure->msymatoms[idx];
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index af0f11e..13e569c 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -151,6 +151,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
@@ -171,7 +172,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         typedef CrystalStructureAdapter::AtomVector AtomVector;
 
         // methods
-        const AtomVector& symatoms(int idx);
+        const AtomVector& symatoms(int idx) const;
 
 };
 
-- 
2.43.0


From d763d42ae1f21fe649f88d10f6647ba52b09223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:08 +0000
Subject: [PATCH 30/30] fix: differences of structures of other types are
 complete

A cluster and a periodic cell with the same atoms had no difference, so that
a fast update kept the value of the cluster.
---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..6a1e580 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,8 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // structures of other types may have different bonds at the same sites
+    if (typeid(*this) != typeid(*pother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0

