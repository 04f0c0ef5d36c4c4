From 7d468c6e8914b9b2170d95b181e3f13b113bb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/47] fix: do full evaluation after setStructure erased the
 value

setStructure() zeroes the calculator value, but the OPTIMIZED evaluator kept
treating it as the result for its last structure.  The next evaluation
applied a fast update on top of an all-zero array.
---
 src/diffpy/srreal/PQEvaluator.cpp  |  8 ++++----
 src/diffpy/srreal/PairQuantity.cpp | 17 +++++++++++++----
 src/diffpy/srreal/PairQuantity.hpp |  2 ++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..879a5f0 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -97,7 +97,7 @@ void PQEvaluatorBasic::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
     mtypeused = BASIC;
-    pq.setStructure(stru);
+    pq.assignStructure(stru);
     BaseBondGeneratorPtr bnds = pq.mstructure->createBondGenerator();
     pq.configureBondGenerator(*bnds);
     int cntsites = pq.mstructure->countSites();
@@ -244,13 +244,13 @@ void PQEvaluatorOptimized::updateValue(
         }
     }
     // Add contributions from the new atoms in the updated structure
-    // save current value to override the resetValue call from setStructure
+    // save current value to override the resetValue call from assignStructure
     assert(sd.stru1);
     pq.stashPartialValue();
-    // setStructure(stru1) calls stru1->customPQConfig(pq), which may totally
+    // assignStructure(stru1) calls stru1->customPQConfig(pq), which may totally
     // change pq configuration.  If so, revert to full calculation.
     assert(pq.ticker() < mvalue_ticker);
-    pq.setStructure(sd.stru1);
+    pq.assignStructure(convertToStructureAdapter(sd.stru1));
     if (pq.ticker() >= mvalue_ticker)
     {
         return this->updateValueCompletely(pq, stru);
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..df5c2e1 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,10 +68,10 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    mstructure = stru.get() ? stru : emptyStructureAdapter();
-    mstructure->customPQConfig(this);
-    this->updateMaskData();
-    this->resetValue();
+    // existing value is about to be erased, make sure it is not reused
+    // for a fast update in the next evaluation.
+    mticker.click();
+    this->assignStructure(stru);
 }
 
 
@@ -419,6 +419,15 @@ void PairQuantity::restorePartialValue()
 
 // Private Methods -----------------------------------------------------------
 
+void PairQuantity::assignStructure(StructureAdapterPtr stru)
+{
+    mstructure = stru.get() ? stru : emptyStructureAdapter();
+    mstructure->customPQConfig(this);
+    this->updateMaskData();
+    this->resetValue();
+}
+
+
 void PairQuantity::updateMaskData()
 {
     int cntsites = this->countSites();
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..8907499 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -126,6 +126,8 @@ class PairQuantity : public diffpy::Attributes
     private:
 
         // methods
+        /// assign structure and reset the value without updating the ticker
+        void assignStructure(StructureAdapterPtr);
         void updateMaskData();
         bool setPairMaskValue(int i, int j, bool mask);
 
-- 
2.43.0


From 5fdf1114968dd24ee289bcce835ec2cde2f5ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/47] fix: do full evaluation after a failed one

An exception thrown in the midst of evaluation leaves partially updated
value, which must not be used for a fast update in the next evaluation.
---
 src/diffpy/srreal/PairQuantity.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index df5c2e1..b244198 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -60,8 +60,17 @@ const QuantityType& PairQuantity::eval()
 
 const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 {
-    mevaluator->updateValue(*this, stru);
-    this->finishValue();
+    try
+    {
+        mevaluator->updateValue(*this, stru);
+        this->finishValue();
+    }
+    catch (...)
+    {
+        // the value is incomplete, do not use it for a fast update
+        mticker.click();
+        throw;
+    }
     return this->value();
 }
 
-- 
2.43.0


From f3046714198a449965bcf26b94dc612e7040c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/47] fix: never use fast updates in parallel runs

A fast update splits the pair sum differently than a full evaluation.
Sum of the partial results was wrong unless all CPUs had the same evaluation
history, and it was never correct for BondCalculator.  Changing the parallel
setup invalidates the current value as well.
---
 src/diffpy/srreal/PQEvaluator.cpp  | 6 ++++++
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 879a5f0..eafc76e 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -187,6 +187,12 @@ void PQEvaluatorOptimized::updateValue(
     {
         return this->updateValueCompletely(pq, stru);
     }
+    // A parallel run must always evaluate the full contribution of this CPU,
+    // because the other CPUs may have different or no last structure.
+    if (this->isParallel())
+    {
+        return this->updateValueCompletely(pq, stru);
+    }
     // do not do fast updates if they take more work
     StructureDifference sd = mlast_structure->diff(stru);
     if (!sd.allowsfastupdate())
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b244198..15ee8d5 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -186,6 +186,8 @@ PQEvaluatorType PairQuantity::getEvaluatorTypeUsed() const
 void PairQuantity::setupParallelRun(int cpuindex, int ncpu)
 {
     mevaluator->setupParallelRun(cpuindex, ncpu);
+    // the current value may apply to a different subset of atom pairs
+    mticker.click();
 }
 
 
-- 
2.43.0


From c6dc660ea431bb78a20d016881411add1e92f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 04/47] fix: do full PDF evaluation when the summed r-range
 changes

PDFCalculator and DebyePDFCalculator adjust the range of summed pairs to the
maximum peak width in the structure or to rstep.  A fast update after such
change combined pairs from different ranges and missed some contributions.
---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 14 +++++++++++---
 src/diffpy/srreal/PDFCalculator.cpp      | 14 ++++++++++++++
 src/diffpy/srreal/PDFCalculator.hpp      |  9 +++++----
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..b16d885 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -193,10 +193,13 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    if (mrstep != rstep)
+    {
+        // the range of summed pairs is rounded to a multiple of rstep
+        mticker.click();
+        mrlimits_are_cached = false;
+    }
     mrstep = rstep;
 }
 
@@ -383,12 +386,17 @@ void DebyePDFCalculator::cacheRlimitsData() const
     const double& rmin = this->getRmin();
     const double& rmax = this->getRmax();
     const double& dr = this->getRstep();
+    const int lo0 = mrcalclosteps;
+    const int hi0 = mrcalchisteps;
     mrcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     const int nhi = pdfutils_rmaxSteps(rmax + ext_total, dr);
     if (nhi <= (mrcalchisteps - minreductionsteps) || nhi > mrcalchisteps)
     {
         mrcalchisteps = nhi;
     }
+    // existing value does not contain pairs outside of its calculation range
+    // and thus it cannot be used for a fast update over a different range.
+    if (lo0 != mrcalclosteps || hi0 != mrcalchisteps)  mticker.click();
     mrlimits_are_cached = true;
 }
 
diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..0fad0c3 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -726,6 +726,20 @@ void PDFCalculator::cacheStructureData()
 
 
 void PDFCalculator::cacheRlimitsData()
+{
+    const int lo0 = mrlimits_cache.rcalclosteps;
+    const int hi0 = mrlimits_cache.rcalchisteps;
+    this->updateRlimitsData();
+    // existing value does not contain pairs outside of its calculation range
+    // and thus it cannot be used for a fast update over a different range.
+    if (lo0 != this->rcalcloSteps() || hi0 != this->rcalchiSteps())
+    {
+        mticker.click();
+    }
+}
+
+
+void PDFCalculator::updateRlimitsData()
 {
     mrlimits_cache.extendedrminsteps = 0;
     mrlimits_cache.extendedrmaxsteps = 0;
diff --git a/src/diffpy/srreal/PDFCalculator.hpp b/src/diffpy/srreal/PDFCalculator.hpp
index 79220e0..d0a3182 100644
--- a/src/diffpy/srreal/PDFCalculator.hpp
+++ b/src/diffpy/srreal/PDFCalculator.hpp
@@ -151,6 +151,7 @@ class PDFCalculator :
         double sfAverage() const;
         void cacheStructureData();
         void cacheRlimitsData();
+        void updateRlimitsData();
 
         // data
         // configuration
@@ -167,10 +168,10 @@ class PDFCalculator :
             double activeoccupancy;
         } mstructure_cache;
         struct {
-            int extendedrminsteps;
-            int extendedrmaxsteps;
-            int rcalclosteps;
-            int rcalchisteps;
+            int extendedrminsteps = 0;
+            int extendedrmaxsteps = 0;
+            int rcalclosteps = 0;
+            int rcalchisteps = 0;
         } mrlimits_cache;
         // support for PQEvaluatorOptimized
         struct {
-- 
2.43.0


From 8f37ac06eadb710d7a7d18317e54695a9d2fd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/47] fix: CHECK evaluator for BondCalculator

CHECK compared bonds before applying their updates and thus it always
failed in the second evaluation of BondCalculator.
---
 src/diffpy/srreal/BondCalculator.hpp | 1 +
 src/diffpy/srreal/PQEvaluator.cpp    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..ae1ba9f 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -58,6 +58,7 @@ class BondCalculator : public PairQuantity
         virtual void restorePartialValue();
 
         friend class BondOp;
+        friend class PQEvaluatorCheck;
         class BondEntry {
 
             public:
diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index eafc76e..273e3d1 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -423,8 +423,12 @@ void PQEvaluatorCheck::updateValue(
 {
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
+    // bonds are comparable only after applying their pending updates
+    BondCalculator* pbc = dynamic_cast<BondCalculator*>(&pq);
+    if (pbc)  pbc->finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
     this->PQEvaluatorBasic::updateValue(pq, stru);
+    if (pbc)  pbc->finishValue();
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
-- 
2.43.0


From 950ed42e95f9705d07712efae7df5aa46d43ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 06/47] fix: register CHECK evaluator for serialization

Saving of any calculator that used the CHECK evaluator failed with
unregistered class exception.
---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 273e3d1..c820b8a 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -482,5 +482,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0393e5c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -160,5 +160,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From e318567615b54310afd8e002249f48e89dd61d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 07/47] fix: preserve BondCalculator parallel data

Parallel data were empty after a parallel run with a single CPU, and data
that were not merged yet got lost in serialization.
---
 src/diffpy/srreal/BondCalculator.cpp | 6 +++++-
 src/diffpy/srreal/BondCalculator.hpp | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..cc58c5f 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,11 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // include bonds that are already completed, which is the case
+    // after serial evaluation, i.e., in a parallel run with a single CPU.
+    BondDataStorage badd = mbonds;
+    BondOp::bmerge(badd, maddbonds);
+    oa << mpopbonds << badd;
     return storage.str();
 }
 
diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index ae1ba9f..eefad9e 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -96,6 +96,7 @@ class BondCalculator : public PairQuantity
             ar & mbonds;
             ar & mfilter_directions;
             ar & mfilter_degrees;
+            if (version >= 1)  ar & mpopbonds & maddbonds;
         }
 
         // methods
@@ -132,5 +133,6 @@ QuantityType BondCalculator::operator()(const T& stru)
 // Serialization -------------------------------------------------------------
 
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::BondCalculator)
+BOOST_CLASS_VERSION(diffpy::srreal::BondCalculator, 1)
 
 #endif  // BONDCALCULATOR_HPP_INCLUDED
-- 
2.43.0


From 3a86014dbe91fe0b688c7adfcc5ebf71fd860751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/47] fix: neighbor cache in OverlapCalculator

Cached neighbors caused assertion error or double-counted sites after
deserialization and they were stale after merging of parallel data.
---
 src/diffpy/srreal/OverlapCalculator.cpp | 4 +++-
 src/diffpy/srreal/OverlapCalculator.hpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..1f4456e 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,7 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
@@ -544,7 +545,8 @@ OverlapCalculator::getNeighborIds(int k) const
     assert(0 <= k && k < this->countSites());
     if (!mneighborids_cached)
     {
-        assert(mneighborids.empty());
+        // remove any partial, outdated or deserialized data
+        mneighborids.clear();
         int n = this->count();
         for (int idx = 0; idx < n; ++idx)
         {
diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..7838391 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -125,6 +125,7 @@ class OverlapCalculator : public PairQuantity
             ar & base_object<PairQuantity>(*this);
             ar & matomradiitable;
             ar & mneighborids;
+            if (Archive::is_loading::value)  mneighborids_cached = false;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
         }
-- 
2.43.0


From 49cb2361e01395c9597558f075c5a82815450ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 09/47] fix: partially loaded tables of atom properties

When a data file could not be opened, read or parsed, the failed load left
an incomplete table that was silently used in any subsequent lookup.
Read errors amid a file were silently ignored.
---
 src/diffpy/srreal/BVParametersTable.cpp    | 10 +++--
 src/diffpy/srreal/scatteringfactordata.cpp | 50 ++++++++++++++--------
 src/diffpy/validators.hpp                  | 13 ++++++
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..8c83c60 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -164,10 +164,12 @@ BVParametersTable::getStandardSetOfBVParam() const
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
+    using diffpy::validators::ensureFileReadOK;
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        // assign the_set only after a complete load
+        unique_ptr<SetOfBVParam> bvset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -186,9 +188,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!bvset->count(bp));
+            bvset->insert(bp);
         }
+        ensureFileReadOK(bvparmfile, fp);
+        the_set.swap(bvset);
     }
     return *the_set;
 }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..4d777d2 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -131,9 +131,11 @@ const SetOfWKFormulas& getWKFormulasSet()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
+    using diffpy::validators::ensureFileReadOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    // assign the_set only after a complete load
+    unique_ptr<SetOfWKFormulas> wkset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,17 +174,19 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (wkset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            wkset->insert(wk);
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    ensureFileReadOK(wkfile, fp);
+    the_set.swap(wkset);
+    return *the_set;
 }
 
 
@@ -223,11 +227,13 @@ ElectronNumberStorage& getElectronNumberTable()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
+    using diffpy::validators::ensureFileReadOK;
     static unique_ptr<ElectronNumberStorage> entable;
     typedef ElectronNumberStorage::value_type ENPair;
     if (!entable)
     {
-        entable.reset(new ElectronNumberStorage);
+        // assign entable only after a complete load
+        unique_ptr<ElectronNumberStorage> ents(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -244,22 +250,24 @@ ElectronNumberStorage& getElectronNumberTable()
                 throw line.format_error(ionfile,
                         "Expected at least 2 columns for (symbol, Z).");
             }
-            entable->insert(ENPair(element, z));
+            ents->insert(ENPair(element, z));
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
-                entable->insert(ENPair(smbl.str(), z - v));
+                ents->insert(ENPair(smbl.str(), z - v));
             }
         }
+        ensureFileReadOK(ionfile, fp0);
         const size_t mintablesize = 447;
-        if (entable->size() < mintablesize)
+        if (ents->size() < mintablesize)
         {
             ostringstream emsg;
             emsg << "Incomplete file.  Expected " << mintablesize <<
-                " items loaded " << entable->size() << ".";
+                " items loaded " << ents->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        entable.swap(ents);
     }
     return *entable;
 }
@@ -272,10 +280,12 @@ const NeutronBCStorage& getNeutronBCTable()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
+    using diffpy::validators::ensureFileReadOK;
     typedef NeutronBCStorage::value_type BCPair;
     static unique_ptr<NeutronBCStorage> bctable;
     if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    // assign bctable only after a complete load
+    unique_ptr<NeutronBCStorage> bcs(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -310,13 +320,13 @@ const NeutronBCStorage& getNeutronBCTable()
         {
             throw line.format_error(nsffile, "Invalid b_c value.");
         }
-        if (bctable->count(smbl))
+        if (bcs->count(smbl))
         {
             string emsg = "Duplicate atom symbol \"";
             emsg += smbl + "\".";
             throw line.format_error(nsffile, emsg);
         }
-        bctable->insert(BCPair(smbl, bc));
+        bcs->insert(BCPair(smbl, bc));
         // elements are not explicitly included if there is just one isotope
         // or if all isotopes are unstable
         size_t p2 = smbl.find_first_of('-');
@@ -326,24 +336,26 @@ const NeutronBCStorage& getNeutronBCTable()
             // there is just one isotope
             const string& chlf = line.words[1];
             bool addel = (chlf == "100") ||
-                (!bctable->count(el) && *chlf.rbegin() == 'Y');
+                (!bcs->count(el) && *chlf.rbegin() == 'Y');
             if (addel)
             {
-                if (bctable->count(el))
+                if (bcs->count(el))
                 {
                     string emsg = "Duplicate element entry for \"";
                     emsg += el + "\".";
                     throw line.format_error(nsffile, emsg);;
                 }
-                bctable->insert(BCPair(el, bc));
+                bcs->insert(BCPair(el, bc));
             }
         }
     }
+    ensureFileReadOK(nsffile, fp);
     // define aliases for neutron, deuterium and tritium
-    bctable->insert(BCPair("n", bctable->at("1-n")));
-    bctable->insert(BCPair("D", bctable->at("2-H")));
-    bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    bcs->insert(BCPair("n", bcs->at("1-n")));
+    bcs->insert(BCPair("D", bcs->at("2-H")));
+    bcs->insert(BCPair("T", bcs->at("3-H")));
+    bctable.swap(bcs);
+    return *bctable;
 }
 
 }   // namespace
diff --git a/src/diffpy/validators.hpp b/src/diffpy/validators.hpp
index 6c6907d..38cca8d 100644
--- a/src/diffpy/validators.hpp
+++ b/src/diffpy/validators.hpp
@@ -81,6 +81,19 @@ void ensureFileOK(const std::string& fname, const T& fp)
     }
 }
 
+/// Throw runtime_error if there was a read error on a file argument.
+
+template <class T>
+void ensureFileReadOK(const std::string& fname, const T& fp)
+{
+    if (fp.bad())
+    {
+        std::string emsg = "Error reading '";
+        emsg += fname + "'.";
+        throw std::runtime_error(emsg);
+    }
+}
+
 }   // namespace validators
 }   // namespace diffpy
 
-- 
2.43.0


From ffea725f298caba82b2284201ff8fa719eda68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 10/47] fix: crash when runtime path cannot be resolved

realpath() may fail, for example when the directory gets removed or becomes
inaccessible, and its NULL result must not be converted to a string.
---
 src/diffpy/runtimepath.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/runtimepath.cpp b/src/diffpy/runtimepath.cpp
index 0957e74..88242e6 100644
--- a/src/diffpy/runtimepath.cpp
+++ b/src/diffpy/runtimepath.cpp
@@ -65,6 +65,15 @@ void ensureIsDir(const std::string& d)
 }
 
 
+/// return resolved path or throw runtime error if not possible.
+string resolvepath(const string& d)
+{
+    char fpb[PATH_MAX];
+    if (realpath(d.c_str(), fpb))  return fpb;
+    throw runtime_error("Cannot resolve path '" + d + "'.");
+}
+
+
 const string& diffpyruntime()
 {
     char fpb[PATH_MAX];
@@ -86,7 +95,7 @@ const string& diffpyruntime()
             if (pt == string::npos)  envrt = envrt.substr(0, 1);
             else  envrt.erase(pt + 1);
             ensureIsDir(envrt);
-            envrt = realpath(envrt.c_str(), fpb);
+            envrt = resolvepath(envrt);
             did_envrt = true;
         }
         return envrt;
@@ -100,17 +109,18 @@ const string& diffpyruntime()
     string d1 = string(dirname(fpb)) + "/" + runtimerelpath;
     if (isdir(d1))
     {
-        librt = realpath(d1.c_str(), fpb);
+        librt = resolvepath(d1);
         did_librt = true;
         return librt;
     }
     // second candidate is resolved with respect to physical library location
     // according to the source tree layout
-    string d2 = dirname(realpath(i.dli_fname, fpb));
+    strcpy(fpb, resolvepath(i.dli_fname).c_str());
+    string d2 = dirname(fpb);
     d2 += "/../../src/runtime";
     if (isdir(d2))
     {
-        librt = realpath(d2.c_str(), fpb);
+        librt = resolvepath(d2);
         did_librt = true;
         return librt;
     }
-- 
2.43.0


From baeafe715cbc6b65537bb0af3c210cd1b83820d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 11/47] fix: ambiguous pair masks for sites or types with
 all-atom masks

Masks for a pair of sites or types that both had different all-atom masks
depended on the order of hash table items, and therefore changed after
evaluation or after each serialization.  The latest mask always applies now.
---
 src/diffpy/srreal/PairQuantity.cpp | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 15ee8d5..46ac359 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -248,7 +248,14 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            modified = this->setPairMaskValue(k, l, mask) || modified;
+        }
+        // explicitly set masks for pairs of sites that both have an all-atom
+        // mask, because the latest one must be applied.
+        unordered_map<int, bool>::const_iterator ll;
+        for (ll = msiteallmask.begin(); ll != msiteallmask.end(); ++ll)
+        {
+            modified = this->setPairMaskValue(k, ll->first, mask) || modified;
         }
         if (modified)  mticker.click();
         return;
@@ -329,6 +336,28 @@ setTypeMask(string smbli, string smblj, bool mask)
     pmm = mtypemask.emplace(smblij, mask);
     if (pmm.second || pmm.first->second != mask)  modified = true;
     pmm.first->second = mask;
+    // explicitly set masks for pairs of types that both have an all-atom
+    // mask, because the latest one must be applied.
+    if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
+    {
+        const string& sk = (ALLATOMSSTR != smbli) ? smbli : smblj;
+        list<string> overlapping;
+        TypeMaskStorage::const_iterator tpmsk;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const pair<string,string>& tp = tpmsk->first;
+            if (tpmsk->second == mask)  continue;
+            if (ALLATOMSSTR == tp.first)  overlapping.push_back(tp.second);
+            if (ALLATOMSSTR == tp.second)  overlapping.push_back(tp.first);
+        }
+        list<string>::const_iterator sl;
+        for (sl = overlapping.begin(); sl != overlapping.end(); ++sl)
+        {
+            mtypemask[(sk > *sl) ? make_pair(*sl, sk) :
+                make_pair(sk, *sl)] = mask;
+            modified = true;
+        }
+    }
     if (modified)  mticker.click();
 }
 
@@ -450,6 +479,8 @@ void PairQuantity::updateMaskData()
         {
             for (int j = 0; j < cntsites; ++j)
             {
+                // pairs with two all-atom masks were resolved in setPairMask
+                if (msiteallmask.count(j))  continue;
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
-- 
2.43.0


From cbb6acbd5a6744528548f68994758226be923a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 12/47] fix: carry in the event ticker relied on signed
 overflow

---
 src/diffpy/EventTicker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/EventTicker.cpp b/src/diffpy/EventTicker.cpp
index 5caf20f..1348060 100644
--- a/src/diffpy/EventTicker.cpp
+++ b/src/diffpy/EventTicker.cpp
@@ -20,6 +20,8 @@
 *
 *****************************************************************************/
 
+#include <climits>
+
 #include <diffpy/EventTicker.hpp>
 #include <diffpy/serialization.ipp>
 
@@ -39,12 +41,13 @@ EventTicker::EventTicker() : mtick(0, 0)
 
 void EventTicker::click()
 {
-    ++gtick.second;
-    if (0 >= gtick.second)
+    // avoid signed overflow, which is undefined
+    if (LONG_MAX == gtick.second)
     {
         ++gtick.first;
         gtick.second = 0;
     }
+    else  ++gtick.second;
     mtick = gtick;
 }
 
-- 
2.43.0


From ce62502e9f8370cbe7a8677a3ac806f157ff48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 13/47] fix: Debye sum for sites of the same type but different
 occupancy

Occupancy of the first site of a given type was used for all such sites, and
changing it led to incorrect fast update of the Debye sum.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..0bdb821 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <cassert>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <sstream>
@@ -234,19 +235,22 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors depend on both the atom type and its occupancy
+    typedef pair<string,double> TypeOccupancy;
+    map<TypeOccupancy,int> atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const TypeOccupancy tpocc(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(tpocc))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(tpocc, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[tpocc];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From ad2f8256fe8e9a1fac3b9dc6cf81d470946c21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 14/47] fix: out of bounds read in DebyePDFCalculator
 interpolation

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index b16d885..0bde021 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -315,8 +315,11 @@ QuantityType DebyePDFCalculator::getPDFAtQmin(double qmin) const
         int iphi = iplo + 1;
         double wphi = xdrp - iplo;
         double wplo = 1.0 - wphi;
-        assert(iphi < int(gpad.size()));
-        *pdfi = wplo * gpad[iplo] + wphi * gpad[iphi];
+        // the sine transformation is zero at the end of gpad range
+        const int npad = gpad.size();
+        assert(iplo < npad);
+        const double gphi = (iphi < npad) ? gpad[iphi] : 0.0;
+        *pdfi = wplo * gpad[iplo] + wphi * gphi;
     }
     return pdf0;
 }
-- 
2.43.0


From a1893f86758bf1c9e78c202dd9cc2ac3afef6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 15/47] fix: undefined Debye sum at Q=0 for electron scattering
 from ions

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index 0bdb821..2403d71 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -82,6 +82,8 @@ QuantityType BaseDebyeSum::getF() const
     const int npts = pdfutils_qmaxSteps(this);
     for (int kq = pdfutils_qminSteps(this); kq < npts; ++kq)
     {
+        // avoid scaling of zero by undefined scattering factor at Q = 0
+        if (rv[kq] == 0.0)  continue;
         double sfavg = this->sfAverageAtkQ(kq);
         double fscale = (sfavg * totocc) == 0 ? 0.0 :
             1.0 / (sfavg * sfavg * totocc);
@@ -180,6 +182,9 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
     for (int kq = pdfutils_qminSteps(this); kq < nqpts; ++kq)
     {
         const double q = kq * this->getQstep();
+        // there is no contribution at Q = 0, but the scattering factor
+        // may be infinite there, e.g., for electrons and ions.
+        if (q == 0.0)  continue;
         const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));
         const double sinescale = smscale * dwscale *
             this->sfSiteAtkQ(bnds.site0(), kq) *
-- 
2.43.0


From df30679e8a21857c9ac85e60dc3591e7a92c832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 16/47] fix: stale symmetry positions after in-place edits of a
 crystal

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 16 +++++++++++-----
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 10 ++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..178734a 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -210,6 +210,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
 
 void CrystalStructureAdapter::updateSymmetryPositions() const
 {
+    msymmetry_cached = false;
     // build asymmetric unit in lattice coordinates
     AtomVector lcatoms(this->begin(), this->end());
     AtomVector::iterator lcai = lcatoms.begin();
@@ -225,6 +226,9 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    // remember the source of these positions
+    msymunit.assign(this->begin(), this->end());
+    msymlattice = this->getLattice();
     msymmetry_cached = true;
 }
 
@@ -248,11 +252,13 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
+    const size_t cntsites = this->countSites();
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
-    return msymmetry_cached;
+        msymatoms.size() == cntsites && msymunit.size() == cntsites &&
+        msymlattice == this->getLattice();
+    return msymmetry_cached && msymunit[idx] == this->at(idx);
 }
 
 // Comparison functions ------------------------------------------------------
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..2203826 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -101,14 +101,16 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
         mutable bool msymmetry_cached;
+        // asymmetric unit and lattice that produced the cached positions,
+        // these are not serialized
+        mutable AtomVector msymunit;
+        mutable Lattice msymlattice;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions are up to date for site idx
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
-- 
2.43.0


From f36e34c00a89d3433decb1d616ce03d1074f3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 17/47] fix: inconsistent cone filters after out-of-memory
 error

---
 src/diffpy/srreal/BondCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index cc58c5f..8f7a648 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -171,6 +171,8 @@ void BondCalculator::filterCone(R3::Vector coneaxis, double degrees)
     double nmconeaxis = R3::norm(coneaxis);
     ensureEpsilonPositive("magnitude of cone vector", nmconeaxis);
     coneaxis /= nmconeaxis;
+    // avoid mismatched filter data if there is not enough memory
+    mfilter_degrees.reserve(mfilter_degrees.size() + 1);
     mfilter_directions.push_back(coneaxis);
     mfilter_degrees.push_back(degrees);
     mticker.click();
-- 
2.43.0


From 774066569120fc3d449620b3e4fdce5fa57067b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 18/47] fix: failed change of the evaluator type took effect

---
 src/diffpy/srreal/PairQuantity.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 46ac359..8f21f23 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -166,8 +166,17 @@ void PairQuantity::setEvaluatorType(PQEvaluatorType evtp)
         throw invalid_argument(emsg);
     }
     // validator is good here, use it now.
+    try
+    {
+        this->resetValue();
+    }
+    catch (...)
+    {
+        // the value is incomplete, do not use it for a fast update
+        mticker.click();
+        throw;
+    }
     mevaluator = pqev;
-    this->resetValue();
 }
 
 
-- 
2.43.0


From 90ce0d9fe16cdecd35bd867ae9553019bcb069c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 19/47] fix: partial change of pair masks unnoticed after an
 error

---
 src/diffpy/srreal/PairQuantity.cpp | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 8f21f23..7deec39 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -29,6 +29,29 @@ using namespace std;
 namespace diffpy {
 namespace srreal {
 
+// Local Helpers -------------------------------------------------------------
+
+namespace {
+
+// Advance ticker on leaving the scope if something has been modified.
+// This also applies when the scope is left by an exception.
+class ModificationGuard
+{
+    public:
+
+        ModificationGuard(eventticker::EventTicker& tic) :
+            modified(false), mticker(tic)
+        { }
+        ~ModificationGuard()  { if (modified)  mticker.click(); }
+        bool modified;
+
+    private:
+
+        eventticker::EventTicker& mticker;
+};
+
+}   // namespace
+
 // Class Constants -----------------------------------------------------------
 
 const int PairQuantity::ALLATOMSINT = -1;
@@ -239,7 +262,8 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         this->maskAllPairs(mask);
         return;
     }
-    bool modified = false;
+    ModificationGuard guard(mticker);
+    bool& modified = guard.modified;
     // update ticker if we are switching from type-mask mode
     if (!mtypemask.empty())
     {
@@ -266,7 +290,6 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         {
             modified = this->setPairMaskValue(k, ll->first, mask) || modified;
         }
-        if (modified)  mticker.click();
         return;
     }
     // here neither i nor j is ALLATOMSINT
@@ -284,7 +307,6 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         modified = true;
     }
     modified = this->setPairMaskValue(i, j, mask) ? true : modified;
-    if (modified)  mticker.click();
 }
 
 
@@ -322,7 +344,8 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
-    bool modified = false;
+    ModificationGuard guard(mticker);
+    bool& modified = guard.modified;
     // when all is used, remove all typemask elements with the other type
     if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
     {
@@ -367,7 +390,6 @@ setTypeMask(string smbli, string smblj, bool mask)
             modified = true;
         }
     }
-    if (modified)  mticker.click();
 }
 
 
-- 
2.43.0


From 99f5680dec45f3dc4b09ef2aba7c79d72633461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 20/47] fix: order of restored events in the event ticker

Shifting restored clocks by the difference of global counters made them
older than events they had followed, and resetting them at a new epoch
lost their order.  Advance the global counter instead.
---
 src/diffpy/EventTicker.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/EventTicker.hpp b/src/diffpy/EventTicker.hpp
index 54d11ef..bfc4540 100644
--- a/src/diffpy/EventTicker.hpp
+++ b/src/diffpy/EventTicker.hpp
@@ -76,11 +76,9 @@ class EventTicker
         {
             value_type ga;
             ar >> mtick >> ga;
-            if (ga > gtick)
-            {
-                if (ga.first != gtick.first)  mtick.first = mtick.second = 0;
-                else  mtick.second += gtick.second - ga.second;
-            }
+            // keep the order of restored events and make sure all later
+            // events are newer.
+            if (ga > gtick)  gtick = ga;
         }
 
         BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 416461df59f7b19af05754dd5a0d32a6024ef11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 21/47] fix: restored PDFCalculator without a structure did not
 update its Q-step

---
 src/diffpy/srreal/PDFCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 0fad0c3..8a0a3ec 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -20,6 +20,7 @@
 #include <sstream>
 #include <cmath>
 #include <cassert>
+#include <typeinfo>
 
 #include <diffpy/serialization.ipp>
 #include <diffpy/srreal/PDFCalculator.hpp>
@@ -46,8 +47,11 @@ bool _initialQstepUpdate(const PDFC* pc)
 {
     // Check if we use the initial empty structure and constructor
     // has completed, i.e., the last attribute is available.
+    // Compare types, because a restored calculator has its own empty structure.
+    const StructureAdapter& stru = *(pc->getStructure());
+    const StructureAdapter& empty = *emptyStructureAdapter();
     const bool rv =
-        (pc->getStructure() == emptyStructureAdapter()) &&
+        (typeid(stru) == typeid(empty)) &&
         pc->hasDoubleAttr("extendedrmax");
     return rv;
 }
-- 
2.43.0


From f86e96c1f0db7b4092eb81a59202e18f399f6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 22/47] fix: effect of pair masks set after type masks depended
 on evaluation

Pair masks derived from type masks were kept when switching to masks by
site index, but only if there was an evaluation in between.
---
 src/diffpy/srreal/PairQuantity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 7deec39..a784c64 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -265,9 +265,12 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
     ModificationGuard guard(mticker);
     bool& modified = guard.modified;
     // update ticker if we are switching from type-mask mode
+    // remove also the pair masks that were obtained from types, because
+    // they exist only if type masks were already applied to some structure.
     if (!mtypemask.empty())
     {
         mtypemask.clear();
+        minvertpairmask.clear();
         modified = true;
     }
     // handle one ALLATOMSINT argument
-- 
2.43.0


From 43915594001edb40437a8f259a03d3b2079bb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 23/47] fix: all-atom mask of a site was lost after masking one
 of its pairs

The mask was applied only to the sites of the structure assigned at that
time, thus with no structure yet or with a larger structure later the other
pairs of that site had the default mask.
---
 src/diffpy/srreal/PairQuantity.cpp | 28 ++++++++++++++++------------
 src/diffpy/srreal/PairQuantity.hpp |  4 ++++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index a784c64..21856a0 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -230,6 +230,7 @@ void PairQuantity::maskAllPairs(bool mask)
     if (!nochange)  mticker.click();
     minvertpairmask.clear();
     msiteallmask.clear();
+    msiteallexcept.clear();
     mtypemask.clear();
     mdefaultpairmask = mask;
 }
@@ -281,6 +282,13 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         pmm = msiteallmask.emplace(k, mask);
         if (pmm.second || pmm.first->second != mask)  modified = true;
         pmm.first->second = mask;
+        // this mask overrides any earlier masks for pairs with site k
+        PairMaskStorage::iterator ex;
+        for (ex = msiteallexcept.begin(); ex != msiteallexcept.end();)
+        {
+            const bool overriden = (k == ex->first || k == ex->second);
+            ex = overriden ? msiteallexcept.erase(ex) : ++ex;
+        }
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
@@ -296,18 +304,10 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         return;
     }
     // here neither i nor j is ALLATOMSINT
-    unordered_map<int, bool>::iterator ii, jj;
-    ii = msiteallmask.find(i);
-    if (ii != msiteallmask.end() && mask != ii->second)
-    {
-        msiteallmask.erase(ii);
-        modified = true;
-    }
-    jj = msiteallmask.find(j);
-    if (jj != msiteallmask.end() && mask != jj->second)
+    // protect this pair from all-atom masks of its sites
+    if (msiteallmask.count(i) || msiteallmask.count(j))
     {
-        msiteallmask.erase(jj);
-        modified = true;
+        msiteallexcept.insert((i > j) ? make_pair(j, i) : make_pair(i, j));
     }
     modified = this->setPairMaskValue(i, j, mask) ? true : modified;
 }
@@ -347,6 +347,7 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
+    msiteallexcept.clear();
     ModificationGuard guard(mticker);
     bool& modified = guard.modified;
     // when all is used, remove all typemask elements with the other type
@@ -515,7 +516,10 @@ void PairQuantity::updateMaskData()
             {
                 // pairs with two all-atom masks were resolved in setPairMask
                 if (msiteallmask.count(j))  continue;
-                this->setPairMaskValue(ia->first, j, ia->second);
+                const int& i = ia->first;
+                if (msiteallexcept.count((i > j) ?
+                            make_pair(j, i) : make_pair(i, j)))  continue;
+                this->setPairMaskValue(i, j, ia->second);
             }
         }
     }
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index 8907499..f61a662 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -119,6 +119,8 @@ class PairQuantity : public diffpy::Attributes
         bool mdefaultpairmask;
         PairMaskStorage minvertpairmask;
         std::unordered_map<int, bool> msiteallmask;
+        /// pairs that were masked after the all-atom mask of their site
+        PairMaskStorage msiteallexcept;
         TypeMaskStorage mtypemask;
         int mmergedvaluescount;
         mutable eventticker::EventTicker mticker;
@@ -147,6 +149,7 @@ class PairQuantity : public diffpy::Attributes
             ar & mtypemask;
             ar & mmergedvaluescount;
             ar & mticker;
+            if (version >= 1)  ar & msiteallexcept;
         }
 
 };
@@ -183,5 +186,6 @@ replacePairQuantityStructure(PairQuantity& pq, StructureAdapterPtr stru);
 
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PairQuantity)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PairQuantity)
+BOOST_CLASS_VERSION(diffpy::srreal::PairQuantity, 1)
 
 #endif  // PAIRQUANTITY_HPP_INCLUDED
-- 
2.43.0


From 3bea75eef50d55535d79d0393d1faa02966d18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 24/47] fix: OverlapCalculator accepted parallel data of
 invalid size

---
 src/diffpy/srreal/OverlapCalculator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 1f4456e..496455c 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -452,6 +452,11 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     diffpy::serialization::iarchive ia(storage, ios::binary);
     QuantityType pvalue;
     ia >> pvalue;
+    if (pvalue.size() % CHUNK_SIZE)
+    {
+        const char* emsg = "Merged data array has invalid size.";
+        throw invalid_argument(emsg);
+    }
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
     mneighborids_cached = false;
 }
-- 
2.43.0


From 5601d0f0a7b0645a78541a15010c231842a7112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 25/47] fix: custom bond valence parameter lost or read after
 free when replaced

---
 src/diffpy/srreal/BVParametersTable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 8c83c60..276c9bc 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -105,8 +105,11 @@ const BVParam& BVParametersTable::lookup(const string& atom0, int valence0,
 
 void BVParametersTable::setCustom(const BVParam& bp)
 {
-    this->resetCustom(bp);
-    mcustomtable.insert(bp);
+    // use a copy, because bp may refer to an item in the custom table
+    BVParam bp1(bp);
+    pair<SetOfBVParam::iterator, bool> ii = mcustomtable.insert(bp1);
+    // replace an existing item.  This does not change its hash value.
+    if (!ii.second)  const_cast<BVParam&>(*ii.first) = std::move(bp1);
 }
 
 
-- 
2.43.0


From a22c89b0470c58332fa6d532d93f36f3b48aa3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 26/47] fix: partial change of radii by
 AtomRadiiTable::fromString on error

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..d489854 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -60,7 +60,10 @@ void AtomRadiiTable::fromString(const string& s)
     // replace commas with space so we can use the split function
     replace(s1.begin(), s1.end(), ',', ' ');
     istringstream ss1(s1);
-    CustomRadiiStorage rds;
+    // do not take out-of-memory errors for the end of the string
+    ss1.exceptions(ios::badbit);
+    // update a copy so that nothing is changed in case of an error
+    CustomRadiiStorage rds(mcustomradius);
     for (string w; ss1 >> w;)
     {
         string::size_type p = w.find(':');
@@ -83,8 +86,7 @@ void AtomRadiiTable::fromString(const string& s)
         rds[smbl] = value;
     }
     // everything worked up to here, we can do the assignment
-    CustomRadiiStorage::const_iterator kv = rds.begin();
-    for (; kv != rds.end(); ++kv)  mcustomradius[kv->first] = kv->second;
+    mcustomradius.swap(rds);
 }
 
 
-- 
2.43.0


From 2627e2261e48251b722d52b879869649c9a37090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 27/47] fix: invalid custom scattering factors from zero source
 or after failure

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..95b6a05 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -16,6 +16,8 @@
 *
 *****************************************************************************/
 
+#include <stdexcept>
+
 #include <diffpy/srreal/ScatteringFactorTable.hpp>
 #include <diffpy/HasClassRegistry.ipp>
 #include <diffpy/validators.hpp>
@@ -68,7 +70,7 @@ void ScatteringFactorTable::setCustomAs(
     const double scale = 1.0;
     CustomDataStorage::mapped_type entry(srcsmbl, scale);
     if (mcustom.count(smbl) && mcustom.at(smbl) == entry)  return;
-    mcustom[smbl] = entry;
+    mcustom[smbl].swap(entry);
     mticker.click();
 }
 
@@ -78,10 +80,15 @@ void ScatteringFactorTable::setCustomAs(
         double value, double q)
 {
     double fsrc = this->standardLookup(srcsmbl, q);
+    if (0.0 == fsrc)
+    {
+        const char* emsg = "Cannot rescale zero scattering factor.";
+        throw invalid_argument(emsg);
+    }
     double scale = value / fsrc;
     CustomDataStorage::mapped_type entry(srcsmbl, scale);
     if (mcustom.count(smbl) && mcustom.at(smbl) == entry)  return;
-    mcustom[smbl] = entry;
+    mcustom[smbl].swap(entry);
     mticker.click();
 }
 
-- 
2.43.0


From 26cdfd1acfb68c0a585836f257cc682f2adbf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 28/47] fix: copied calculator shared evaluator state with its
 original

---
 src/diffpy/srreal/PairQuantity.cpp | 41 ++++++++++++++++++++++++++++++
 src/diffpy/srreal/PairQuantity.hpp |  2 ++
 2 files changed, 43 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 21856a0..e31899c 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -73,6 +73,47 @@ PairQuantity::PairQuantity() :
             &PairQuantity::getRmax, &PairQuantity::setRmax);
 }
 
+
+PairQuantity::PairQuantity(const PairQuantity& other) :
+    diffpy::Attributes(other),
+    mvalue(other.mvalue),
+    mstructure(other.mstructure),
+    mrmin(other.mrmin),
+    mrmax(other.mrmax),
+    // the evaluator keeps state of its calculator and must not be shared
+    mevaluator(createPQEvaluator(
+                other.mevaluator->typeint(), other.mevaluator)),
+    mdefaultpairmask(other.mdefaultpairmask),
+    minvertpairmask(other.minvertpairmask),
+    msiteallmask(other.msiteallmask),
+    msiteallexcept(other.msiteallexcept),
+    mtypemask(other.mtypemask),
+    mmergedvaluescount(other.mmergedvaluescount),
+    mticker(other.mticker)
+{ }
+
+
+PairQuantity& PairQuantity::operator=(const PairQuantity& other)
+{
+    if (this == &other)  return *this;
+    this->Attributes::operator=(other);
+    // the evaluator keeps state of its calculator and must not be shared
+    mevaluator = createPQEvaluator(
+            other.mevaluator->typeint(), other.mevaluator);
+    mvalue = other.mvalue;
+    mstructure = other.mstructure;
+    mrmin = other.mrmin;
+    mrmax = other.mrmax;
+    mdefaultpairmask = other.mdefaultpairmask;
+    minvertpairmask = other.minvertpairmask;
+    msiteallmask = other.msiteallmask;
+    msiteallexcept = other.msiteallexcept;
+    mtypemask = other.mtypemask;
+    mmergedvaluescount = other.mmergedvaluescount;
+    mticker = other.mticker;
+    return *this;
+}
+
 // Public Methods ------------------------------------------------------------
 
 const QuantityType& PairQuantity::eval()
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index f61a662..9d97259 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -47,6 +47,8 @@ class PairQuantity : public diffpy::Attributes
 
         // constructor
         PairQuantity();
+        PairQuantity(const PairQuantity&);
+        PairQuantity& operator=(const PairQuantity&);
         virtual ~PairQuantity()  { }
 
         // methods
-- 
2.43.0


From 5e269aa26a1d4ee858afca6b4f09b18a76de57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 29/47] fix: scattering factor type left registered after a
 failed registration

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index 95b6a05..68fed61 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -41,8 +41,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    // do not leave behind a type without its radiation alias
+    catch (...) {
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From 930ff824bd81be46728fbadfd6ce57a92c4616c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 30/47] fix: DebyePDFCalculator kept invalid Qmax after an
 error

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 0bde021..29abbb5 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,8 +140,18 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    const double qmax0 = this->getQmax();
+    const bool optimum0 = moptimumqstep;
     this->BaseDebyeSum::setQmax(qmax);
-    this->updateQstep();
+    // restore the previous range if there is no valid Q-step for the new one
+    try {
+        this->updateQstep();
+    }
+    catch (...) {
+        this->BaseDebyeSum::setQmax(qmax0);
+        moptimumqstep = optimum0;
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 6035d28461641976dbd10975fc098a725f79d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 31/47] fix: mean square displacement mixed up when bond
 generators interleave

---
 src/diffpy/srreal/BaseBondGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BaseBondGenerator.cpp b/src/diffpy/srreal/BaseBondGenerator.cpp
index 6fa3b00..065d4e5 100644
--- a/src/diffpy/srreal/BaseBondGenerator.cpp
+++ b/src/diffpy/srreal/BaseBondGenerator.cpp
@@ -197,8 +197,8 @@ const R3::Matrix& BaseBondGenerator::Ucartesian1() const
 
 double BaseBondGenerator::msd() const
 {
-    static R3::Vector s;
-    s = this->r01();
+    // local copy, because the virtual methods below may use other generators
+    const R3::Vector s = this->r01();
     double msd0 = meanSquareDisplacement(this->Ucartesian0(), s,
             mstructure->siteAnisotropy(this->site0()));
     double msd1 = meanSquareDisplacement(this->Ucartesian1(), s,
-- 
2.43.0


From 7683184274e2884e72b6e508298c210f266ed4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 32/47] fix: assertion failed in incremental update of
 PDFCalculator with empty r-range

---
 src/diffpy/srreal/PDFCalculator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 8a0a3ec..d265af1 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -550,8 +550,7 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
+    // either value may be empty for an empty r-range
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From 8bade3206a7e05bb636eab7af1887846440ec16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 33/47] fix: structures of different types with the same atoms
 compared as equal

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..3cb28d3 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,8 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // structures of different types have different bonds for the same atoms
+    if (typeid(*this) != typeid(*pother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0


From d0ea6017cb66ba7a2f2609b0cf9697308a9b3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 34/47] fix: symmetry sites near a cell boundary averaged with
 their far images

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 178734a..dc499c3 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -181,7 +181,12 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // average the periodic images closest to the first equal position
+        R3::Vector dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        dxyz[0] -= round(dxyz[0]);
+        dxyz[1] -= round(dxyz[1]);
+        dxyz[2] -= round(dxyz[2]);
+        eqsumpos[ieq] += L.ucvFractional(eqsites[ieq].xyz_cartn) + dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
-- 
2.43.0


From ba6e789bed09f44b5f43f7f09ef020bfc0bb6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 35/47] fix: missing bonds of crystal without symmetry
 operations

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index dc499c3..f576464 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -196,7 +196,8 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(a0.xyz_cartn);
+        // bond generator needs positions within the unit cell
+        eqsumpos.push_back(L.ucvFractional(a0.xyz_cartn));
         eqduplicity.push_back(1);
     }
     // calculate mean values from equivalent sites and adjust any roundoffs
-- 
2.43.0


From a11d81460f2b2d7bc7da3ac754cda4100cf4cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 36/47] fix: bond generators of a crystal invalidated by its
 other bond generators

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index f576464..1327feb 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -216,6 +216,11 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
 
 void CrystalStructureAdapter::updateSymmetryPositions() const
 {
+    // keep positions that are up to date, bond generators may refer to them
+    const int cntsites = this->countSites();
+    int idx = 0;
+    while (idx < cntsites && this->isSymmetryCached(idx))  ++idx;
+    if (idx > 0 && idx == cntsites)  return;
     msymmetry_cached = false;
     // build asymmetric unit in lattice coordinates
     AtomVector lcatoms(this->begin(), this->end());
-- 
2.43.0


From f0d902cc6a463de3670c8349be6ee021be4af780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 37/47] fix: words of a data line lost after a failed
 allocation

---
 src/diffpy/runtimepath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/runtimepath.cpp b/src/diffpy/runtimepath.cpp
index 88242e6..b44d1a3 100644
--- a/src/diffpy/runtimepath.cpp
+++ b/src/diffpy/runtimepath.cpp
@@ -207,6 +207,8 @@ istream& operator>> (istream& fp, LineReader& line)
         const char& sep = line.separator[0];
         while (getline(fpline, w, sep))  line.words.push_back(w);
     }
+    // streams intercept bad_alloc, make sure no words get silently lost
+    if (fpline.bad())  fp.setstate(ios_base::badbit);
     return fp;
 }
 
-- 
2.43.0


From d351705cb46edc3349b3e32f6dac4a5e4c1d7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 38/47] fix: duplicate bond valence parameters aborted the
 process

---
 src/diffpy/srreal/BVParametersTable.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 276c9bc..5d12561 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -16,7 +16,6 @@
 *
 *****************************************************************************/
 
-#include <cassert>
 #include <fstream>
 
 #include <diffpy/serialization.ipp>
@@ -191,8 +190,10 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!bvset->count(bp));
-            bvset->insert(bp);
+            if (!bvset->insert(bp).second)
+            {
+                throw lnrd.format_error(bvparmfile, "Duplicate entry.");
+            }
         }
         ensureFileReadOK(bvparmfile, fp);
         the_set.swap(bvset);
-- 
2.43.0


From 5eb66b7a9c85c9eae6c83981178181585c6ae68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 39/47] fix: incomplete data files accepted as complete

---
 src/diffpy/srreal/BVParametersTable.cpp    | 10 ++++++++++
 src/diffpy/srreal/scatteringfactordata.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 5d12561..9675f3f 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -188,6 +188,11 @@ BVParametersTable::getStandardSetOfBVParam() const
         while (fp >> lnrd)
         {
             if (lnrd.isignored())  continue;
+            if (lnrd.wcount() < 8)
+            {
+                throw lnrd.format_error(bvparmfile,
+                        "Expected at least 8 columns of data.");
+            }
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
             if (!bvset->insert(bp).second)
@@ -196,6 +201,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             }
         }
         ensureFileReadOK(bvparmfile, fp);
+        const size_t mintablesize = 1346;
+        if (bvset->size() < mintablesize)
+        {
+            throw lnrd.format_error(bvparmfile, "Incomplete file.");
+        }
         the_set.swap(bvset);
     }
     return *the_set;
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 4d777d2..b3b357f 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -185,6 +185,11 @@ const SetOfWKFormulas& getWKFormulasSet()
         }
     }
     ensureFileReadOK(wkfile, fp);
+    const size_t mintablesize = 211;
+    if (wkset->size() < mintablesize)
+    {
+        throw line.format_error(wkfile, "Incomplete file.");
+    }
     the_set.swap(wkset);
     return *the_set;
 }
@@ -350,6 +355,11 @@ const NeutronBCStorage& getNeutronBCTable()
         }
     }
     ensureFileReadOK(nsffile, fp);
+    const size_t mintablesize = 365;
+    if (bcs->size() < mintablesize)
+    {
+        throw line.format_error(nsffile, "Incomplete file.");
+    }
     // define aliases for neutron, deuterium and tritium
     bcs->insert(BCPair("n", bcs->at("1-n")));
     bcs->insert(BCPair("D", bcs->at("2-H")));
-- 
2.43.0


From 18c68d9b6bfa20462da16e06cb2a0871d19424f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 40/47] fix: empty runtime path after a temporary failure to
 access it

---
 src/diffpy/runtimepath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/runtimepath.cpp b/src/diffpy/runtimepath.cpp
index b44d1a3..16858de 100644
--- a/src/diffpy/runtimepath.cpp
+++ b/src/diffpy/runtimepath.cpp
@@ -124,8 +124,11 @@ const string& diffpyruntime()
         did_librt = true;
         return librt;
     }
-    // nothing worked - throw exception about the first candidate path.
+    // nothing worked - throw exception about the first candidate path
+    // unless it has become accessible in the meantime.
     ensureIsDir(d1);
+    librt = resolvepath(d1);
+    did_librt = true;
     return librt;
 }
 
-- 
2.43.0


From 3fd563a6cb0f2671f66744ef351d2154cb772edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:06 +0000
Subject: [PATCH 41/47] fix: runtime path from the environment ignored later
 changes of the file system

---
 src/diffpy/runtimepath.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/diffpy/runtimepath.cpp b/src/diffpy/runtimepath.cpp
index 16858de..4c17627 100644
--- a/src/diffpy/runtimepath.cpp
+++ b/src/diffpy/runtimepath.cpp
@@ -79,25 +79,18 @@ const string& diffpyruntime()
     char fpb[PATH_MAX];
     static string librt;
     static bool did_librt = false;
-    static string envrt;
-    static bool did_envrt = false;
     // check the DIFFPYRUNTIME environment variable.
+    // resolve it every time, because the file system may have changed.
     char* pe = getenv("DIFFPYRUNTIME");
     if (pe && *pe != '\0')
     {
-        static string dprt;
-        did_envrt = did_envrt && (dprt == pe);
-        if (!did_envrt)
-        {
-            dprt = pe;
-            envrt = pe;
-            size_t pt = envrt.find_last_not_of('/');
-            if (pt == string::npos)  envrt = envrt.substr(0, 1);
-            else  envrt.erase(pt + 1);
-            ensureIsDir(envrt);
-            envrt = resolvepath(envrt);
-            did_envrt = true;
-        }
+        static string envrt;
+        envrt = pe;
+        size_t pt = envrt.find_last_not_of('/');
+        if (pt == string::npos)  envrt = envrt.substr(0, 1);
+        else  envrt.erase(pt + 1);
+        ensureIsDir(envrt);
+        envrt = resolvepath(envrt);
         return envrt;
     }
     if (did_librt)  return librt;
-- 
2.43.0


From ae94951149368dcbfabd3f6b1418a2daa24cbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 42/47] fix: data tables misread or refused under locale with
 other number format

---
 src/diffpy/srreal/BVParam.cpp              | 2 ++
 src/diffpy/srreal/scatteringfactordata.cpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..bd9c57c 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <cmath>
+#include <locale>
 #include <stdexcept>
 #include <sstream>
 #include <boost/functional/hash.hpp>
@@ -97,6 +98,7 @@ void BVParam::setFromCifLine(const std::string& cifline)
     int v0, v1;
     double Ro, B;
     istringstream linefp(cifline);
+    linefp.imbue(locale::classic());
     linefp >> a0 >> v0 >> a1 >> v1 >> Ro >> B >> ref;
     if (!linefp)
     {
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index b3b357f..21a07bb 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <locale>
 #include <sstream>
 #include <memory>
 #include <unordered_set>
@@ -166,6 +167,7 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile, "Expected 11 values.");
             }
             istringstream fpline(line.line);
+            fpline.imbue(locale::classic());
             fpline >>
                 wk.a[0] >> wk.a[1] >> wk.a[2] >> wk.a[3] >> wk.a[4] >>
                 wk.c >> wk.b[0] >> wk.b[1] >> wk.b[2] >> wk.b[3] >> wk.b[4];
@@ -247,6 +249,7 @@ ElectronNumberStorage& getElectronNumberTable()
         {
             if (line.isignored())  continue;
             istringstream fpline(line.line);
+            fpline.imbue(locale::classic());
             string element;
             int z = 0;
             fpline >> element >> z;
@@ -259,6 +262,7 @@ ElectronNumberStorage& getElectronNumberTable()
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
+                smbl.imbue(locale::classic());
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
                 ents->insert(ENPair(smbl.str(), z - v));
             }
@@ -319,6 +323,7 @@ const NeutronBCStorage& getNeutronBCTable()
             smbl = smbl.substr(p1 + 1) + "-" + smbl.substr(0, p1);
         }
         istringstream fpbc(line.words[3]);
+        fpbc.imbue(locale::classic());
         double bc;
         fpbc >> bc;
         if (!fpbc)
@@ -410,6 +415,7 @@ int electronnumber(const string& smbl)
     if (it == entable.end())
     {
         ostringstream smbl1;
+        smbl1.imbue(locale::classic());
         smbl1 << atomBareSymbol(smbl);
         int v = atomValence(smbl);
         if (v)  smbl1 << abs(v) << ((v > 0) ? '+' : '-');
-- 
2.43.0


From 7734e28a80268b055304aa92ecaf11c77bb89dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:00 +0000
Subject: [PATCH 43/47] fix: strings of atom radii depended on global locale

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index d489854..9f39cfa 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -77,6 +78,7 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
+        ssv.imbue(locale::classic());
         if (!(ssv >> value))
         {
             ostringstream emsg;
@@ -119,6 +121,7 @@ string AtomRadiiTable::toString(string separator) const
     }
     sort(symbols.begin(), symbols.end());
     ostringstream rv;
+    rv.imbue(locale::classic());
     vector<string>::const_iterator smbi;
     for (smbi = symbols.begin(); smbi != symbols.end(); ++smbi)
     {
-- 
2.43.0


From dbd61af1d4a2d217134a0b69c21881bea330df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 44/47] fix: memory leak on failed registration of an attribute

---
 src/diffpy/Attributes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/Attributes.cpp b/src/diffpy/Attributes.cpp
index ab2db89..da679c8 100644
--- a/src/diffpy/Attributes.cpp
+++ b/src/diffpy/Attributes.cpp
@@ -206,7 +206,9 @@ names() const
 void registerBaseDoubleAttribute(Attributes* obj,
         const string& name, BaseDoubleAttribute* pa)
 {
-    obj->mdoubleattrs[name].reset(pa);
+    // take the ownership first so that pa is released in case of an error
+    boost::shared_ptr<BaseDoubleAttribute> spa(pa);
+    obj->mdoubleattrs[name] = spa;
 }
 
 
-- 
2.43.0


From 4f40e852b2768f9ac859f3caf945ca2a48f87739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:37 +0000
Subject: [PATCH 45/47] fix: refused base vectors changed the lattice or
 aborted

---
 src/diffpy/srreal/Lattice.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..5c68788 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,11 +106,13 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
-    if (fabs(detbase) < 1.0e-8)
+    R3::Matrix newbase;
+    R3::row(newbase, 0) = va0;
+    R3::row(newbase, 1) = vb0;
+    R3::row(newbase, 2) = vc0;
+    double detbase = R3::determinant(newbase);
+    // refuse also NaN, which may result from a singular matrix
+    if (!(fabs(detbase) >= 1.0e-8))
     {
         throw invalid_argument("base vectors are degenerate");
     }
@@ -118,6 +120,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = newbase;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From e6f9df2ba86b657e46f715e25b1fd2ba3b613766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:37 +0000
Subject: [PATCH 46/47] fix: wrong result of nested mxvecproduct calls

---
 src/diffpy/srreal/R3linalg.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.hpp b/src/diffpy/srreal/R3linalg.hpp
index bffd5c7..e70035c 100644
--- a/src/diffpy/srreal/R3linalg.hpp
+++ b/src/diffpy/srreal/R3linalg.hpp
@@ -250,9 +250,11 @@ template <class V>
 const Vector& mxvecproduct(const Matrix& M, const V& u)
 {
     static Vector res;
-    res[0] = M(0,0)*u[0] + M(0,1)*u[1] + M(0,2)*u[2];
-    res[1] = M(1,0)*u[0] + M(1,1)*u[1] + M(1,2)*u[2];
-    res[2] = M(2,0)*u[0] + M(2,1)*u[1] + M(2,2)*u[2];
+    // u may be a result of the previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = M(0,0)*u0 + M(0,1)*u1 + M(0,2)*u2;
+    res[1] = M(1,0)*u0 + M(1,1)*u1 + M(1,2)*u2;
+    res[2] = M(2,0)*u0 + M(2,1)*u1 + M(2,2)*u2;
     return res;
 }
 
@@ -261,9 +263,11 @@ template <class V>
 const Vector& mxvecproduct(const V& u, const Matrix& M)
 {
     static Vector res;
-    res[0] = u[0]*M(0,0) + u[1]*M(1,0) + u[2]*M(2,0);
-    res[1] = u[0]*M(0,1) + u[1]*M(1,1) + u[2]*M(2,1);
-    res[2] = u[0]*M(0,2) + u[1]*M(1,2) + u[2]*M(2,2);
+    // u may be a result of the previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = u0*M(0,0) + u1*M(1,0) + u2*M(2,0);
+    res[1] = u0*M(0,1) + u1*M(1,1) + u2*M(2,1);
+    res[2] = u0*M(0,2) + u1*M(1,2) + u2*M(2,2);
     return res;
 }
 
-- 
2.43.0


From 8710a5aeca410dae2f7ab0ad8b48c2f533ceb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:37 +0000
Subject: [PATCH 47/47] fix: copies of lattice point enumerators shared their
 position

---
 src/diffpy/srreal/PointsInSphere.cpp | 22 ++++++++++++++++++++++
 src/diffpy/srreal/PointsInSphere.hpp |  1 +
 2 files changed, 23 insertions(+)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..dc84a60 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -108,6 +108,28 @@ PointsInSphere::PointsInSphere(double rmin, double rmax,
     rewind();
 }
 
+
+PointsInSphere::PointsInSphere(const PointsInSphere& src) :
+    _Rmin(src._Rmin), _Rmax(src._Rmax),
+    latpar(src.latpar),
+    _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+{
+    init();
+    std::copy(src._mno, src._mno + 3, _mno);
+    n0plane = src.n0plane;
+    o0plane = src.o0plane;
+    o0line = src.o0line;
+    mHalfSpan = src.mHalfSpan;
+    nHalfSpan = src.nHalfSpan;
+    oHalfSpan = src.oHalfSpan;
+    oExclHalfSpan = src.oExclHalfSpan;
+    hi_m = src.hi_m;
+    hi_n = src.hi_n;
+    hi_o = src.hi_o;
+    outside_o = src.outside_o;
+    RplaneSquare = src.RplaneSquare;
+}
+
 // Public Methods ------------------------------------------------------------
 
 // loop control
diff --git a/src/diffpy/srreal/PointsInSphere.hpp b/src/diffpy/srreal/PointsInSphere.hpp
index 40451aa..5f09f48 100644
--- a/src/diffpy/srreal/PointsInSphere.hpp
+++ b/src/diffpy/srreal/PointsInSphere.hpp
@@ -98,6 +98,7 @@ class PointsInSphere
                 double _alpha, double _beta, double _gamma);
         template <class L>
             PointsInSphere(double rmin, double rmax, const L&);
+        PointsInSphere(const PointsInSphere&);
 
         // methods
         // loop control
-- 
2.43.0

