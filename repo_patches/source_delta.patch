From cfad1b1fd555a2849bf0ae7a22275a21b12cf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 001/100] fix: Histogram bin access one past the end is refused
 instead of reading or writing out of bounds

---
 src/histogram/Histogram.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..9a1265b 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -127,7 +127,7 @@ void Histogram::AddBinContent(size_t bin_, double content_)
 
 void Histogram::SetBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "Out of bounds bin access attempted on bin " << bin_ << " !");
     fBinContents[bin_] = content_;
 }
-- 
2.43.0


From 80521bef19ff6ca8ab066e85381f014556ce533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 002/100] fix: Histogram::GetSlice puts each bin of a
 multi-dimensional slice at its own indices and refuses non-existent bins

---
 src/histogram/Histogram.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9a1265b..b1c0b73 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,11 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin "
+                                << it->second << " of axis " << it->first << "!");
     }
 
     // want to support multidimensional slices
@@ -385,12 +390,14 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
     // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
-        slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
+        // the slice bin has the same index along each of the free axes
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+        slice.AddBinContent(slice.FlattenIndices(sliceCoords), fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
     }
 
     return slice;
-- 
2.43.0


From 2f34470caaa24679127d3aed23002d6224c29824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 003/100] fix: Histogram::GetLatticePointValues refuses points
 outside the lattice instead of indexing out of bounds

---
 src/histogram/Histogram.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index b1c0b73..2b0b200 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -511,7 +511,18 @@ Histogram::GetLatticePointValues(const std::vector<double>& vals, std::vector<st
     GetBinCentres(vals_bin, vals_bin_centre);
 
     std::vector<bool> vals_is_larger; 
-    for (size_t dim=0; dim<fNDims; dim++) { vals_is_larger.push_back(vals.at(dim) >= vals_bin_centre.at(dim)); }
+    for (size_t dim=0; dim<fNDims; dim++)
+    {
+        const size_t last_bin = fAxes.GetAxis(dim).GetNBins() - 1;
+        const double first_centre = fAxes.GetAxis(dim).GetBinCentre(0);
+        const double last_centre = fAxes.GetAxis(dim).GetBinCentre(last_bin);
+        // Only points between the first and last bin centres are surrounded by lattice points
+        if (last_bin == 0 || !(vals.at(dim) >= first_centre && vals.at(dim) <= last_centre))
+        {
+            throw ValueError(Formatter() << "Histogram::GetLatticePointValues(): point is outside of the lattice of bin centres along axis " << fAxes.GetAxis(dim).GetName());
+        }
+        vals_is_larger.push_back(vals.at(dim) >= vals_bin_centre.at(dim) && vals_bin_idxs.at(dim) != last_bin);
+    }
     // Obtain information about surrounding 2^N lattice points
     const size_t N_L_POINTS = 1 << fNDims;
     constexpr size_t MAX_DIMS = 20; // If you've got 20 dimensions in your histogram...tough luck! (arbitrary large number)
-- 
2.43.0


From 2f9d62e2f91977f54a4a25221e2a9fae28bca552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 004/100] fix: entries of a copied OXSXDataSet refer to the
 copy's observable names, not to those of the original

---
 src/data/OXSXDataSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..d413030 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -24,7 +24,10 @@ Event OXSXDataSet::GetEntry(size_t eventIndex_) const
 {
     try
     {
-        return fData.at(eventIndex_);
+        Event entry = fData.at(eventIndex_);
+        // this might be a copy of the data set the event was added to, so point to our own names
+        entry.SetObservableNames(&fObservableNames);
+        return entry;
     }
     catch (std::out_of_range &)
     {
-- 
2.43.0


From 8a683151285e82a6eaf39fa5cc6edd4021fcb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 005/100] fix: concatenating two OXSXDataSets no longer changes
 the left-hand one

---
 src/data/OXSXDataSet.cpp | 7 ++++---
 src/data/OXSXDataSet.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index d413030..ff688b0 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -53,12 +53,13 @@ OXSXDataSet::GetObservableNames() const
 }
 
 OXSXDataSet
-OXSXDataSet::operator+(const OXSXDataSet &other_)
+OXSXDataSet::operator+(const OXSXDataSet &other_) const
 {
+    OXSXDataSet combined(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        combined.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return combined;
 }
 
 void OXSXDataSet::Reserve(int i)
diff --git a/src/data/OXSXDataSet.h b/src/data/OXSXDataSet.h
index 54fff34..06c22b6 100644
--- a/src/data/OXSXDataSet.h
+++ b/src/data/OXSXDataSet.h
@@ -25,7 +25,7 @@ public:
     std::vector<std::string> GetObservableNames() const;
 
     // concatenate
-    OXSXDataSet operator+(const OXSXDataSet &other_);
+    OXSXDataSet operator+(const OXSXDataSet &other_) const;
 
     void Reserve(int);
 
-- 
2.43.0


From 6a8ee5e3b3b470ad978d624e38e66e1110540c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 006/100] fix: Event::SetDatum refuses an index past the end
 instead of writing out of bounds

---
 src/data/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0d29548 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
-- 
2.43.0


From 3c010754b4b51b7048a4126d7f35266f2bf315d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 007/100] fix: asking an Event without observable names for an
 observable by name throws instead of dereferencing NULL

---
 src/data/Event.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 0d29548..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From 2a41ad89207d1bbb0b9fe1a0a959a44f4d896d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 008/100] fix: copying a CompositeED copies the distributions
 it owns, and cloning keeps its name

---
 src/dist/CompositeED.cpp | 17 ++++++++++++++++-
 src/dist/CompositeED.h   |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..307d45e 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,21 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_) : CompositeED(other_.fDistPtrs)
+{
+    fName = other_.fName;
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    CompositeED copy(other_);
+    fName.swap(copy.fName);
+    fDistPtrs.swap(copy.fDistPtrs);
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,7 +71,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
+    EventDistribution *cp = new CompositeED(*this);
     return static_cast<EventDistribution *>(cp);
 }
 
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..db68e58 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_);            // deep copy
+   CompositeED &operator=(const CompositeED &other_); // deep copy
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From c9fb6bebe889cb9dc572cbe31e150ab3e6eb6222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 009/100] fix: assigning an AnalyticED copies its function
 instead of sharing and freeing it twice

---
 src/dist/AnalyticED.cpp | 12 ++++++++++++
 src/dist/AnalyticED.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..9c158a4 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,18 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    PDF *copy = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    delete fFunction;
+    fFunction = copy;
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..0c3d6b4 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_); // deep copy
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
-- 
2.43.0


From 62fea6278cb230265cff34e9806c8619dcbd4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 010/100] fix: systematics no longer use the bin mapping of
 earlier axes or observables after these were replaced

---
 src/systematic/Convolution.h   | 1 +
 src/systematic/Scale.h         | 1 +
 src/systematic/ScaleFunction.h | 1 +
 src/systematic/Shape.h         | 1 +
 src/systematic/Shift.h         | 1 +
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 3 +++
 7 files changed, 11 insertions(+)

diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..cf1801d 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -51,6 +51,7 @@ private:
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
+   void InvalidateCache() { fCachedIndexPermutations = false; }
    void ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                            std::vector<double> &vals) const;
    void MakeFullMatrix(const std::vector<long long unsigned int> &column_indices, const std::vector<long long unsigned int> &row_indices,
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..5db871c 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void InvalidateCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..f834f5a 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -51,6 +51,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void InvalidateCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..981c8c2 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -53,6 +53,7 @@ private:
     bool fCachedBinMapping;
 
     void CacheBinMapping();
+    void InvalidateCache() { fCachedBinMapping = false; }
 };
 
 #endif
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..f6ef958 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void InvalidateCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
                              double shiftedHigh, size_t bin_test);
 };
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..5858001 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    InvalidateCache();
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    InvalidateCache();
 }
 
 ObsSet
@@ -94,5 +96,6 @@ Systematic::GetAxes() const
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
+    InvalidateCache();
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..1555ede 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -46,6 +46,9 @@ protected:
    // obs of the pdfs it will act on, needs to be at least the lenth of the
    // systematics representation
 
+   // called when the axes or observables change: anything worked out from the previous ones is out of date
+   virtual void InvalidateCache() {}
+
    // methods below used for index manipilation between pdf and response
    bool BinsCompatible(size_t bin1, size_t bin2) const;
    bool VectorContains(const std::vector<size_t> &, size_t) const;
-- 
2.43.0


From 33db5aa36e75bbb01fbd421aef89f51159fd9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 011/100] fix: Shape, ScaleFunction and Renorm take only their
 own parameters when set from a dictionary, and refuse incomplete ones

---
 src/systematic/Renorm.cpp        | 9 ++++++---
 src/systematic/ScaleFunction.cpp | 9 ++++++---
 src/systematic/Shape.cpp         | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..262ffa8 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,17 +47,20 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // take only our own parameters, the dictionary might hold those of other components too
+    ParameterDict newValues = fParamDict;
+    for (auto &&pair : newValues)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
+            throw ParameterError("Renorm: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = newValues;
 }
 
 std::set<std::string> Renorm::GetParameterNames() const
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..18f64cd 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,17 +98,20 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // take only our own parameters, the dictionary might hold those of other components too
+    ParameterDict newValues = fParamDict;
+    for (auto &&pair : newValues)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
+            throw ParameterError("ScaleFunction: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = newValues;
 }
 
 std::set<std::string>
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..add7b69 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -83,17 +83,20 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // take only our own parameters, the dictionary might hold those of other components too
+    ParameterDict newValues = fParamDict;
+    for (auto &&pair : newValues)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
+            throw ParameterError("Shape: set dictionary is missing parameter " + pair.first);
         }
     }
+    fParamDict = newValues;
 }
 
 std::set<std::string> Shape::GetParameterNames() const
-- 
2.43.0


From bf74d06aabbe32e421a3219a852409464d6d8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 012/100] fix: renaming a parameter of Shape, ScaleFunction or
 Renorm to itself or to another one no longer loses it

---
 src/systematic/Renorm.cpp        | 4 ++++
 src/systematic/ScaleFunction.cpp | 4 ++++
 src/systematic/Shape.cpp         | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index 262ffa8..f93f59f 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -77,6 +77,10 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Renorm: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 18f64cd..9bb1efe 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -129,6 +129,10 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("ScaleFunction: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index add7b69..9d08b24 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -113,6 +113,10 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (old_ == new_)
+        return;
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Shape: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From cd667ca4dbf955db78778e9040e12b4e396cabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 013/100] fix: Renorm's scale factor is initialised (to one)

---
 src/systematic/Renorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
-- 
2.43.0


From 25fb40401fa87b84c9bb66889406270a4272f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 014/100] fix: Convolution of several observables works when
 their order differs from that of the distribution's observables

---
 src/systematic/Convolution.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..10094d5 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -163,22 +163,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    // the transforming axes are ordered as in the sub-collection
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -186,6 +183,10 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
+    if (!bin_idxs_notsub.size())
+    {
+        return idx_sub; // all of the axes are being transformed
+    }
     const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
-- 
2.43.0


From d6f549052b34ed1228fed3af1771e0c9f1323567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 015/100] fix: constructing a Convolution without any
 transformed observable is refused instead of crashing

---
 src/systematic/Convolution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 10094d5..a22a31f 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -129,6 +129,8 @@ void Convolution::Construct()
     const size_t N = fAxes.GetNBins();
     if (!fDist || !N)
         throw LogicError("Convolution::Construct() : Tried to construct convolution without axes or function/distribution, or both!!");
+    if (!fTransObs.GetNObservables())
+        throw LogicError("Convolution::Construct() : Tried to construct convolution without any observable to transform!!");
     // Only work out what the mapping from blocked index to true bin index if not cached already
     if (!fCachedIndexPermutations)
         CacheIndexPermutations();
-- 
2.43.0


From 0a61a7743312325470754f8721e1f1c9e6fe6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 016/100] fix: accessing the parameters of a Convolution
 without a kernel throws instead of dereferencing NULL

---
 src/systematic/Convolution.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index a22a31f..29d2787 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -238,22 +238,30 @@ void Convolution::CacheIndexPermutations()
 
 void Convolution::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     fDist->RenameParameter(old_, new_);
 }
 
 void Convolution::SetParameter(const std::string &name_, double value_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     fDist->SetParameter(name_, value_);
 }
 
 double
 Convolution::GetParameter(const std::string &name_) const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     return fDist->GetParameter(name_);
 }
 
 void Convolution::SetParameters(const ParameterDict &ps_)
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     try
     {
         fDist->SetParameters(ps_);
@@ -267,18 +275,24 @@ void Convolution::SetParameters(const ParameterDict &ps_)
 ParameterDict
 Convolution::GetParameters() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     return fDist->GetParameters();
 }
 
 size_t
 Convolution::GetParameterCount() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     return fDist->GetParameterCount();
 }
 
 std::set<std::string>
 Convolution::GetParameterNames() const
 {
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution", "Have you set the kernel?");
     return fDist->GetParameterNames();
 }
 
-- 
2.43.0


From 614fdb571a8281fae783903f4b8173eca3cee98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 017/100] fix: asking SystematicManager for the size of an
 unknown group throws NotFoundError instead of reading past the end

---
 src/fitutil/SystematicManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..21786a6 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -191,7 +191,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
-- 
2.43.0


From bdcb308c422e44c7658526766500469959c0e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 018/100] fix: SystematicManager names the systematic that is
 in more than one group instead of indexing out of range

---
 src/fitutil/SystematicManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 21786a6..dd948d0 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -113,7 +113,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
-- 
2.43.0


From 82f03b44df24f46ea0f947e8de9675eb646d42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 019/100] fix: the number of groups of a new SystematicManager
 is initialised

---
 src/fitutil/SystematicManager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
-- 
2.43.0


From bed2b496fda930241d45472209aadfc4c19a7839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 020/100] fix: SystematicManager::DistortEDs gives
 distributions without systematics their own norm and contents, not zero and
 stale ones

---
 src/fitutil/SystematicManager.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index dd948d0..e437d3e 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -150,12 +150,19 @@ void SystematicManager::DistortEDs(const std::vector<BinnedED> &OrignalEDs_,
     {
         const std::string name = OrignalEDs_.at(j).GetName();
 
-        if (fEDGroups.find(name) == fEDGroups.end())
-            continue;
-
         // Copy EDs because WorkingED_s have to have the same binning as OrignalEDs_s.
         WorkingEDs_[j] = OrignalEDs_.at(j);
 
+        // No systematic acts on this one
+        if (fEDGroups.find(name) == fEDGroups.end())
+        {
+            if (norms != nullptr)
+            {
+                norms->operator[](j) = WorkingEDs_.at(j).Integral();
+            }
+            continue;
+        }
+
         // If we haven't explicitly added the "" group to this dist's fEDGroups, apply that group first
         if (std::find(fEDGroups.at(name).begin(), fEDGroups.at(name).end(), "") == fEDGroups.at(name).end() && fGroups.at("").size())
         {
-- 
2.43.0


From ba371d6d2343df1dd94873dc5b65175017568487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 021/100] fix: BinnedEDManager uses each pdf's own fitted norm
 when DIRECT and INDIRECT ones are mixed

---
 src/fitutil/BinnedEDManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..edfa6da 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -318,6 +318,10 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
             {
                 fNormalisations[i] = fFittableNorms.at(j);
+            }
+            // fFittableNorms holds those of both kinds
+            if (fAllowNormsFittable.at(i) != FALSE)
+            {
                 j++;
             }
         }
-- 
2.43.0


From 1203e6d38c33cf4d776becb8758fbfb2806f7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 022/100] fix: BinnedEDManager::SetNormalisations also sets the
 norms used for fitted pdfs

---
 src/fitutil/BinnedEDManager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index edfa6da..eb285ab 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -86,6 +86,16 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
     if (normalisations_.size() != fOriginalPdfs.size())
         throw LogicError("BinnedEDManager: number of norms doesn't match #pdfs");
     fNormalisations = normalisations_;
+    // the fitted ones have to follow
+    size_t j = 0;
+    for (size_t i = 0; i < fNormalisations.size(); i++)
+    {
+        if (fAllowNormsFittable.at(i) != FALSE)
+        {
+            fFittableNorms.at(j) = fNormalisations.at(i);
+            j++;
+        }
+    }
 }
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
-- 
2.43.0


From c6e43ef0ea41adda624ce73e865c04ba971e3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 023/100] fix: adding a pdf to a BinnedEDManager of DIRECT
 norms keeps the norms set so far

---
 src/fitutil/BinnedEDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index eb285ab..cbc583c 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -135,6 +135,11 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    // these are only kept up to date if not all of the norms are DIRECT
+    if (fAllNormsDirFittable)
+    {
+        fFittableNorms = fNormalisations;
+    }
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
-- 
2.43.0


From 730a7a37322d26c37df8e98af7c950f4dbc2d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 024/100] fix: BinnedEDManager::GetNDims returns the number of
 dimensions of its pdfs instead of an uninitialised value

---
 src/fitutil/BinnedEDManager.cpp | 4 ++++
 src/fitutil/BinnedEDManager.h   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index cbc583c..5169edf 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -140,6 +140,10 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     {
         fFittableNorms = fNormalisations;
     }
+    if (!fOriginalPdfs.size())
+    {
+        fNDims = pdf_.GetNDims();
+    }
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..76558b5 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From 4decb606e5d3b1b8d9faa86f945713383d7f2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 025/100] fix: a copied BinnedEDManager, as given to
 BinnedNLLH::SetPdfManager, has the norms as fit parameters

---
 src/fitutil/BinnedEDManager.cpp | 22 ++++++++++++++++++++++
 src/fitutil/BinnedEDManager.h   |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 5169edf..3e38711 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -5,6 +5,28 @@
 #include <Exceptions.h>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
+{
+    *this = other_;
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    // the parameters refer to our own norms
+    RegisterParameters();
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 76558b5..4ccf846 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -23,6 +23,8 @@ class BinnedEDManager : public FitComponent
 {
 public:
    BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
-- 
2.43.0


From 5b138a3741578f8ad9e9a86bfb3405d7dd58d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 026/100] fix: BinnedEDManager recognises shrunk pdfs of
 several dimensions instead of refusing to be evaluated again

---
 src/fitutil/BinnedEDManager.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 3e38711..8da096f 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -217,21 +217,30 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
+    // If the working PDFs already have the binning of a shrunk original, the shrinking has already been applied: probably
+    // because a buffer is being used without systematics. If they have neither that binning nor the original one, something
+    // bad has happened! For these tests we assume the buffer and number of bins are the same for all PDFs so just look at
+    // the 0th element. The working PDFs might have fewer axes than the original ones.
+    bool isShrunk = true;
+    bool isOriginal = true;
     std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
+    const AxisCollection &workingAxes = fWorkingPdfs.at(0).GetAxes();
+    for (size_t i = 0; i < workingAxes.GetNDimensions(); i++)
     {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
+        const std::string axisName = workingAxes.GetAxis(i).GetName();
+        const size_t workingBins = workingAxes.GetAxis(i).GetNBins();
+        const size_t originalBins = fOriginalPdfs.at(0).GetAxes().GetAxis(axisName).GetNBins();
+        size_t bufferBins = 0;
+        if (bufferMap.count(axisName))
+            bufferBins = bufferMap.at(axisName).first + bufferMap.at(axisName).second;
+        if (workingBins + bufferBins != originalBins)
+            isShrunk = false;
+        if (workingBins != originalBins)
+            isOriginal = false;
     }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
+    if (isShrunk)
         return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
+    else if (!isOriginal)
         throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
-- 
2.43.0


From 9e79c6b670697b65bbc5542d3f24fe97bc99807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 027/100] fix: without systematics, BinnedEDManager's norms and
 pdfs do not depend on what was applied before

---
 src/fitutil/BinnedEDManager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 8da096f..79e040e 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -122,11 +122,19 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
-    // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
-
+    // If there are no systematics, working pdfs = original pdfs
     if (!sysMan_.GetNSystematics())
+    {
+        fWorkingPdfs = fOriginalPdfs;
+        for (size_t i = 0; i < fNormalisations.size(); i++)
+        {
+            if (fAllowNormsFittable.at(i) == FALSE)
+            {
+                fNormalisations[i] = fWorkingPdfs.at(i).Integral();
+            }
+        }
         return;
+    }
     if (fAllNormsDirFittable)
     {
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
-- 
2.43.0


From 36d5ea50e458f335f0984f340dab0463d2ece181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 028/100] fix: BinnedEDShrinker::SetBinMap replaces the
 previous map instead of appending to it

---
 src/fitutil/BinnedEDShrinker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..66b430b 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -68,6 +68,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
   if (!fBuffers.size())
     return;
 
+  // forget any previous map
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   size_t nDims = dist_.GetNDims();
 
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
-- 
2.43.0


From 880aa2e23afc3a1dcc2f920c86a542a0efbe307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 029/100] fix: BinnedNLLH shrinks data set after an evaluation
 too

---
 src/teststat/BinnedNLLH.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..c9c41b8 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -127,6 +127,7 @@ void BinnedNLLH::BinData()
 {
     fDataDist = BinnedED(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
     fDataDist.Empty();
+    fAlreadyShrunk = false;
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
     SetCalculatedDataDist(true);
@@ -276,6 +277,7 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
+    fAlreadyShrunk = false;
     SetCalculatedDataDist(true);
 }
 
-- 
2.43.0


From 2c9e033fd514d8e67d56c1699a756fb6ba91658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 030/100] fix: BinnedNLLH with Barlow-Beeston is not NaN if a
 bin without data has a large MC uncertainty

---
 src/teststat/BinnedNLLH.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index c9c41b8..00887ef 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = (q == 0.) ? 0. : fDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -105,7 +105,10 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        // (a bin without data has no log term, even if the updated MC is zero)
+        if (fDataDist.GetBinContent(i))
+            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From 43a0db625bb5b5cf8cdfc790100de9cee037f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 031/100] fix: copying an EDManager copies its distributions
 instead of freeing them twice

---
 src/fitutil/EDManager.cpp | 27 +++++++++++++++++++++++++++
 src/fitutil/EDManager.h   |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..baa84bd 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -3,6 +3,33 @@
 #include <Event.h>
 #include <Exceptions.h>
 
+EDManager::EDManager(const EDManager &other_) : fNDists(0), fNDims(0)
+{
+    *this = other_;
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    std::vector<EventDistribution *> dists;
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        dists.push_back(other_.fDists.at(i)->Clone());
+    for (size_t i = 0; i < fDists.size(); i++)
+        delete fDists[i];
+
+    fDists = dists;
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fName = other_.fName;
+    // the parameters refer to our own norms
+    RegisterParameters();
+    return *this;
+}
+
 EDManager::~EDManager()
 {
     for (size_t i = 0; i < fDists.size(); i++)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..6864fca 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -11,6 +11,8 @@ class EDManager : public FitComponent
 {
 public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
+   EDManager(const EDManager &);            // takes its own pdf copies
+   EDManager &operator=(const EDManager &); // takes its own pdf copies
    ~EDManager(); // free pdf copies
 
    void AddDist(EventDistribution *); // take a copy
-- 
2.43.0


From c100ee5001f15ff6d8846248b6981e94006e5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 032/100] fix: Barlow-Beeston scaling takes the positive root
 also for bins with a large MC uncertainty, instead of giving NaN

---
 src/teststat/BinnedNLLH.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 00887ef..89ec53a 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,7 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = (q == 0.) ? 0. : fDataDist.GetBinContent(i) * sigma2 / q;
+            double x2 = (q == 0.) ? 0. : -fDataDist.GetBinContent(i) * sigma2 / q;
 
             double beta = (x1 > x2) ? x1 : x2;
 
-- 
2.43.0


From b258054f29a94acd3bfc77fa03be0615fe208f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 033/100] fix: ParameterManager::SetParameters with a missing
 parameter changes none instead of some of them

---
 src/core/ParameterManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..9feb0b7 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -18,6 +18,12 @@ ParameterManager::~ParameterManager()
 void ParameterManager::SetParameters(const ParameterDict &params_)
 {
     std::set<std::string> names = GetParameterNames();
+    // nothing is set unless everything is there
+    for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+    {
+        if (!HasKey(params_, *it))
+            throw ParameterError("Parameters missing from set dict! \n " + CompareKeys(fParamPtrs, params_, "Parameter Names", "SetDict"));
+    }
     try
     {
         for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
-- 
2.43.0


From 6f62f1e069f3367b1dff93c8e6b36fa083c31025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 034/100] fix: ComponentManager::SetParameters with a missing
 parameter changes no component instead of those before it

---
 src/core/ComponentManager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/ComponentManager.cpp b/src/core/ComponentManager.cpp
index e17f5bc..30d14f3 100644
--- a/src/core/ComponentManager.cpp
+++ b/src/core/ComponentManager.cpp
@@ -18,7 +18,18 @@ void ComponentManager::SetParameters(const ParameterDict &params_)
     if (!params_.size())
         return;
 
-    // let them each take what they need, they'll complain if something is missing
+    // nothing is set unless everything is there
+    for (size_t i = 0; i < fComponents.size(); i++)
+    {
+        const std::set<std::string> names = fComponents.at(i)->GetParameterNames();
+        for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+        {
+            if (params_.find(*it) == params_.end())
+                throw ParameterError("Parameter " + *it + " of " + fComponents.at(i)->GetName() + " missing from set dict! It has: \n" + ToString(GetKeys(params_)));
+        }
+    }
+
+    // let them each take what they need
     for (size_t i = 0; i < fComponents.size(); i++)
         fComponents[i]->SetParameters(params_);
 }
-- 
2.43.0


From bde469b41a61e98bff60968eb7f2dc8ba9538509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 035/100] fix: SpectralFitDist::SetParameter sets the bin
 content instead of overwriting the parameter's name

---
 src/dist/SpectralFitDist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..eb4c9dc 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
-- 
2.43.0


From e45d54ad6b9554349d6bd39762d11d9aeeff9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 036/100] fix: SpectralFitDist refuses incomplete parameters
 and renaming to an existing parameter without changing anything

---
 src/dist/SpectralFitDist.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index eb4c9dc..f206c0a 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -42,15 +42,13 @@ SpectralFitDist::GetParameter(const std::string &name_) const
 
 void SpectralFitDist::SetParameters(const ParameterDict &pd_)
 {
+    // nothing is set unless everything is there
     for (size_t i = 0; i < fBinNames.size(); i++)
-        try
-        {
-            fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
-        }
-        catch (const std::out_of_range &e_)
-        {
+        if (pd_.find(fBinNames.at(i)) == pd_.end())
             throw ParameterError("Set Parameters: Couldn't set bin content " + fBinNames.at(i));
-        }
+
+    for (size_t i = 0; i < fBinNames.size(); i++)
+        fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
 }
 
 ParameterDict
@@ -76,6 +74,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (new_ != old_ && std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + " : parameter already exists! Parameters are called: \n " + ToString(fBinNames));
     *it = new_;
 }
 
-- 
2.43.0


From 46e94910e7c7f433d9e0882b81347772925a2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 037/100] fix: BivariateQuadraticConstraint refuses every
 correlation of magnitude one or more, not just +1

---
 src/constraint/BivariateQuadraticConstraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..322c70d 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,9 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (!(fCorr > -1. && fCorr < 1.))
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation must be between -1 and 1 (exclusive)!");
         }
     }
     // Evaluate constraint at a particular pair of values
-- 
2.43.0


From 6916b6cbef8f089c757af60f46cc6ae63fdddcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 038/100] fix: assigning a CutCollection to itself no longer
 frees its cuts

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From 70d8941e9ac2137b08cb0eb41108a37ffbe76f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 039/100] fix: CutLog::SaveAs throws if the file can't be
 opened, instead of silently saving nothing

---
 src/cut/CutLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..e6dddf3 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -120,11 +120,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
-- 
2.43.0


From 4f53240ffb08c86afca9118d4232a327011c3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 040/100] fix: CutLog's percentages are zero instead of NaN
 without events

---
 src/cut/CutLog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index e6dddf3..4b82029 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -21,8 +21,9 @@ void CutLog::CalculateMeta()
         numRemaining -= fCutCounts.at(i);
         fRemainderCounts.push_back(numRemaining);
 
-        fCutPercentages.push_back(fCutCounts.at(i) * 100. / fNEvents);
-        fRemainderPercentages.push_back(numRemaining * 100. / fNEvents);
+        // no events, nothing cut and nothing left
+        fCutPercentages.push_back(fNEvents ? fCutCounts.at(i) * 100. / fNEvents : 0);
+        fRemainderPercentages.push_back(fNEvents ? numRemaining * 100. / fNEvents : 0);
     }
 }
 
-- 
2.43.0


From 99c348add711ed1c58d5d0daa78a189c897db59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 041/100] fix: CountingExperiment::CountSignal without a signal
 throws instead of dereferencing an uninitialised pointer

---
 src/count/CountingExperiment.cpp | 4 ++++
 src/count/CountingExperiment.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..3dda7fe 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -1,6 +1,7 @@
 #include <CountingExperiment.h>
 #include <Event.h>
 #include <DataSet.h>
+#include <Exceptions.h>
 #include <Formatter.hpp>
 #include <iostream>
 #include <cmath>
@@ -45,6 +46,9 @@ void CountingExperiment::CountBackgrounds()
 
 void CountingExperiment::CountSignal()
 {
+    if (!fSignalDataSet)
+        throw LogicError("CountingExperiment::CountSignal called without a signal! Set it first");
+
     int signalCount = 0;
     CutLog cutLog = (fCuts.GetCutNames());
     for (size_t i = 0; i < fSignalDataSet->GetNEntries(); i++)
diff --git a/src/count/CountingExperiment.h b/src/count/CountingExperiment.h
index 4411219..ce950f3 100644
--- a/src/count/CountingExperiment.h
+++ b/src/count/CountingExperiment.h
@@ -10,6 +10,7 @@ class EventSystematic;
 class CountingExperiment
 {
 public:
+   CountingExperiment() : fTestDataSet(NULL), fSignalDataSet(NULL) {}
    void CountData(DataSet *);
    void CountBackgrounds();
    void CountSignal();
-- 
2.43.0


From 751db275d6f1b8325c28e23172df1be06f250543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 042/100] fix: EventReconvolution::GetCorrection is defined

---
 src/eventSystematic/EventReconvolution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..b95deef 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -30,6 +30,12 @@ void EventReconvolution::SetCorrection(double correction_)
     fCorrection = correction_;
 }
 
+double
+EventReconvolution::GetCorrection() const
+{
+    return fCorrection;
+}
+
 // Fit Component Interface
 
 void EventReconvolution::SetParameter(const std::string &name_, double value)
-- 
2.43.0


From ae04a7eb50ae4516a2c0d8b5fa00b4607e1078d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 043/100] fix: CutLog::GetRemainderCounts and
 GetRemainderPercentages are defined

---
 src/cut/CutLog.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 4b82029..c80de5d 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -46,12 +46,24 @@ CutLog::GetCutCounts() const
     return fCutCounts;
 }
 
+std::vector<int>
+CutLog::GetRemainderCounts() const
+{
+    return fRemainderCounts;
+}
+
 std::vector<double>
 CutLog::GetCutPercentages() const
 {
     return fCutPercentages;
 }
 
+std::vector<double>
+CutLog::GetRemainderPercentages() const
+{
+    return fRemainderPercentages;
+}
+
 std::vector<std::string>
 CutLog::GetCutNames() const
 {
-- 
2.43.0


From 392b0e24c1dd8231917068cf72b98dfb04918d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 044/100] fix: a copied EventConvolution keeps its name

---
 src/eventSystematic/EventConvolution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..f734700 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -23,6 +23,7 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
 }
 
 EventConvolution
@@ -35,6 +36,7 @@ EventConvolution::operator=(const EventConvolution &other_)
 
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
   return *this;
 }
 
-- 
2.43.0


From 6f25771d792be274dfce1918da4393c63fb3b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 045/100] fix: multiplying a matrix in place updates its number
 of columns

---
 src/core/DenseMatrix.cpp  | 1 +
 src/core/SparseMatrix.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..05c999f 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -62,6 +62,7 @@ DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..df435c2 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -68,6 +68,7 @@ SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
-- 
2.43.0


From f5f1f26325205128bab3e5783a389cb903239832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 046/100] fix: the product of two SparseMatrices no longer
 overwrites the left one

---
 src/core/SparseMatrix.cpp | 7 ++++---
 src/core/SparseMatrix.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index df435c2..98a185c 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -73,10 +73,11 @@ SparseMatrix::operator*=(const SparseMatrix &other_)
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From c6a7a1e9edfeb7e8ed3e3fefc9aba41cec7072ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 047/100] fix: SparseMatrix::SetComponents refuses components
 outside the matrix instead of dropping them

---
 src/core/SparseMatrix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 98a185c..50d47a0 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -102,6 +102,14 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+        if (colIndices_.at(i) >= fNCols || rowIndices_.at(i) >= fNRows)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_.at(i) << "," << colIndices_.at(i) << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
-- 
2.43.0


From 11bb656c6b14f4fde2246b19c3632fba8d905886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 048/100] fix: assigning a FitResult looks at the other's
 statistic space, not at its own, and frees the replaced one

---
 src/optimise/FitResult.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..990f28f 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -38,10 +38,11 @@ FitResult::GetStatSpace() const
 FitResult
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
-        fStatSpace = NULL;
-    else
-        fStatSpace = new Histogram(*other_.fStatSpace);
+    Histogram *statSpace = NULL;
+    if (other_.fStatSpace)
+        statSpace = new Histogram(*other_.fStatSpace);
+    delete fStatSpace;
+    fStatSpace = statSpace;
     fIsValid = other_.fIsValid;
     fBestFit = other_.fBestFit;
     fExtremeVal = other_.fExtremeVal;
-- 
2.43.0


From b8486da7ed89a03f59c66510f3191c981392441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 049/100] fix: the print precision of a copied FitResult is
 initialised

---
 src/optimise/FitResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 990f28f..48b965e 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -50,6 +50,7 @@ FitResult::operator=(const FitResult &other_)
     f1DProjections = other_.f1DProjections;
     f2DProjections = other_.f2DProjections;
     fCovarianceMatrix = other_.fCovarianceMatrix;
+    printPrecision = other_.printPrecision;
     return *this;
 }
 
@@ -67,6 +68,7 @@ FitResult::FitResult(const FitResult &other_)
     f1DProjections = other_.f1DProjections;
     f2DProjections = other_.f2DProjections;
     fCovarianceMatrix = other_.fCovarianceMatrix;
+    printPrecision = other_.printPrecision;
 }
 
 const std::vector<std::vector<double>> &
-- 
2.43.0


From b51a4a0fa3924a632a32d074e2bb985e0ff014ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 050/100] fix: asking a FitResult for a statistic space it
 doesn't have throws instead of dereferencing NULL

---
 src/optimise/FitResult.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 48b965e..cc1c9e1 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,12 +26,16 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *statSpace = new Histogram(statSpace_);
+    delete fStatSpace;
+    fStatSpace = statSpace;
 }
 
 const Histogram &
 FitResult::GetStatSpace() const
 {
+    if (!fStatSpace)
+        throw NULLPointerAccessError("FitResult::GetStatSpace", "The statistic space hasn't been set");
     return *fStatSpace;
 }
 
-- 
2.43.0


From f1f33aa7a4efc9a908edf6f4aa779074357be4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 051/100] fix: FitResult::SaveAs throws if the file can't be
 opened, instead of silently saving nothing

---
 src/optimise/FitResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index cc1c9e1..30c81e1 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -105,6 +105,8 @@ void FitResult::SaveAs(const std::string &fileName_) const
 {
     std::ofstream fs;
     fs.open(fileName_.c_str());
+    if (!fs)
+        throw IOError("FitResult::SaveAs Can't open " + fileName_);
     fs << AsString();
     fs.close();
 }
-- 
2.43.0


From 7b816c15507f461831545107fb2a50bc3a928c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 052/100] fix: GridSearch evaluates its first grid point, and
 stops after the last one without reading past the end of the parameters

---
 src/optimise/GridSearch.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..e9c4740 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -97,7 +97,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -121,7 +121,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
     fFitResult.SetExtremeVal(fMinVal);
     return fFitResult;
@@ -130,10 +130,11 @@ GridSearch::Optimise(TestStatistic *testStat_)
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
+    // rippled past the last index, the grid is complete
+    if (it_ == end_)
         return false;
+
+    const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
     // wrap around past the maximum
@@ -141,10 +142,6 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     {
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
         // ripple up to next index
         if (Increment(++it_, end_)) // propagate the false down
             return true;
-- 
2.43.0


From 6dc778bb8750267e9859022d3ce8fcc5a8614555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 053/100] fix: GridSearch no longer gives up a best value that
 is exactly zero

---
 src/optimise/GridSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index e9c4740..f059646 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -116,7 +116,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        if (bestFit.empty() || currentVal < fMinVal)
         {
             fMinVal = currentVal;
             bestFit = fParamVals;
-- 
2.43.0


From 26de6d10dca6ba1a9be371aef6864984bb372ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 054/100] fix: GridSearch reports the maximum itself, not its
 negative, as Minuit does

---
 src/optimise/GridSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index f059646..ca2be5b 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -123,7 +123,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         }
     } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
-- 
2.43.0


From 3847d551889c6e197ebba5d509b84cc3b00434fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 055/100] fix: GridSearch refuses step sizes that aren't
 positive, which it never stopped stepping by, and inverted ranges

---
 src/optimise/GridSearch.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index ca2be5b..a00f749 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -66,6 +66,13 @@ GridSearch::Optimise(TestStatistic *testStat_)
                          << "StepSizes for :\n"
                          << ToString(GetKeys(fStepSizes)) << "\n");
 
+    for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
+        if (!(fStepSizes[it->first] > 0) || !(it->second <= fMaxima[it->first]))
+            throw ValueError(Formatter()
+                             << "Grid Search initialisation error "
+                             << "can't step from " << it->second << " to " << fMaxima[it->first]
+                             << " in steps of " << fStepSizes[it->first] << " for " << it->first);
+
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
-- 
2.43.0


From b8237dfa8d5b9fe5227ce8a731599b884e371b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 056/100] fix: SigmoidBoundary's penalty doesn't overflow to
 infinity outside the boundary

---
 src/optimise/SigmoidBoundary.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/optimise/SigmoidBoundary.hpp b/src/optimise/SigmoidBoundary.hpp
index c36146b..8066509 100644
--- a/src/optimise/SigmoidBoundary.hpp
+++ b/src/optimise/SigmoidBoundary.hpp
@@ -1,5 +1,12 @@
+#include <algorithm>
 #include <cmath>
 
+// log(1 + e^x), without overflow for large x
+inline double LogOnePlusExp(double x_)
+{
+    return std::max(x_, 0.) + std::log1p(std::exp(-std::abs(x_)));
+}
+
 template <typename Energy>
 void SigmoidBoundary<Energy>::SetParameters(const ParameterDict &d_)
 {
@@ -17,13 +24,13 @@ SigmoidBoundary<Energy>::Evaluate()
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(-fMu * (fParams[it->first] - it->second)));
+        correctedEnergy += LogOnePlusExp(-fMu * (fParams[it->first] - it->second));
     }
 
     for (ParameterDict::iterator it = fMaxima.begin(); it != fMaxima.end();
          ++it)
     {
-        correctedEnergy += log(1 + exp(+fMu * (fParams[it->first] - it->second)));
+        correctedEnergy += LogOnePlusExp(+fMu * (fParams[it->first] - it->second));
     }
     return correctedEnergy;
 }
-- 
2.43.0


From 023ca63e161ef2e1ba77ffd562aa4b86d6793b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 057/100] fix: LeapFrog reflects trajectories that start on a
 wall or hit two walls at once, instead of letting them leave the box

---
 src/optimise/LeapFrog.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/optimise/LeapFrog.cpp b/src/optimise/LeapFrog.cpp
index 6b06b19..233e583 100644
--- a/src/optimise/LeapFrog.cpp
+++ b/src/optimise/LeapFrog.cpp
@@ -21,9 +21,9 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
         double maxtime = IntersectionTime(maxima_.at(it->first), initPos_.at(it->first), vel);
 
         // only pick up crosses in the right direction
-        // the other way shouldn't happen, but round off error can make it so
-        bool mincrossed = (mintime > 0 && mintime < epsilon_ && (it->second > minima_.at(it->first)));
-        bool maxcrossed = (maxtime > 0 && maxtime < epsilon_ && (it->second < maxima_.at(it->first)));
+        // starting on a wall, or just behind it by round off error, and moving outwards is a crossing at once
+        bool mincrossed = (vel < 0 && mintime < epsilon_);
+        bool maxcrossed = (vel > 0 && maxtime < epsilon_);
 
         if (!mincrossed && !maxcrossed)
             continue;
@@ -33,6 +33,8 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
             time = mintime;
         else if (maxcrossed)
             time = maxtime;
+        if (time < 0)
+            time = 0;
 
         if (crossTime_ == -1 || time < crossTime_)
         {
-- 
2.43.0


From 723aaffb4a4d2a1ffc3f4ecfea7f16a442d74596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 058/100] fix: ConfigLoader no longer keeps a deleted parser
 after failing to parse a file

---
 src/config/ConfigLoader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..7a43c2d 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -20,8 +20,10 @@ void ConfigLoader::Open(const std::string &fileName_)
     {
         throw IOError("Can't find config file " + fileName_);
     }
+    // parse first, this throws if the file is malformed
+    INI::Parser *parser = new INI::Parser(ss);
     delete fParser;
-    fParser = new INI::Parser(ss);
+    fParser = parser;
 }
 
 void ConfigLoader::Close()
-- 
2.43.0


From 4698007c4fd76b87ac1201ab74a61104841bf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 059/100] fix: ConfigLoader::Load without an open file throws
 instead of dereferencing NULL

---
 src/config/ConfigLoader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index 7a43c2d..079a868 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -43,6 +43,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw ConfigSectionMissing("Can't find section " + section_ + ", no config file is open");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
-- 
2.43.0


From 93ed4a17aff87c672893e8985f4b06b049fcc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 060/100] fix: ConfigLoader converts the elements of containers
 of numbers, as its description says, instead of not compiling

---
 src/config/ConfigLoader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index 1eec7f0..2256aa0 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -14,7 +14,7 @@ template <typename TargetType>
 void ConfigLoader::Load(const std::string &section_, const std::string &fieldName_, TargetType &loadVal_, typename enable_if<is_container<TargetType>::value, int>::type)
 {
   CheckExists(section_, fieldName_);
-  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<TargetType>());
+  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<typename TargetType::value_type>());
 }
 
 template <typename TargetType>
@@ -36,6 +36,6 @@ void ConvertContainer(const InContainer &incntr_, OutContainer &outcntr_, const
 {
   for (typename InContainer::const_iterator it = incntr_.begin(); it != incntr_.end(); ++it)
   {
-    outcntr_.insert(outcntr_.end(), *it);
+    outcntr_.insert(outcntr_.end(), cnvtr_(*it));
   }
 }
-- 
2.43.0


From 09ed2cdc1d4eedd650a306be7fcf76091215dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 061/100] fix: parsing a configuration file no longer nests one
 call per section, which overflowed the stack for large files

---
 src/config/ini.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 8d9cded..c73806b 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -121,8 +121,9 @@ namespace INI
   }
 
   inline void
-  Parser::parse(Level &l)
+  Parser::parse(Level &top)
   {
+    Level *level = &top; // the section being read
     while (std::getline(*f_, line_))
     {
       ++ln_;
@@ -136,6 +137,7 @@ namespace INI
         size_t depth;
         std::string sname;
         parseSLine(sname, depth);
+        Level &l = *level;
         Level *lp = NULL;
         Level *parent = &l;
         if (depth > l.depth + 1)
@@ -159,7 +161,7 @@ namespace INI
           lp->parent = parent;
         }
         parent->ordered_sections.push_back(parent->sections.find(sname));
-        parse(*lp);
+        level = lp;
       }
       else
       {
@@ -167,11 +169,11 @@ namespace INI
         if (n == std::string::npos)
           err("no '=' found");
         std::pair<Level::value_map_t::const_iterator, bool> res =
-            l.values.insert(std::make_pair(trim(line_.substr(0, n)),
+            level->values.insert(std::make_pair(trim(line_.substr(0, n)),
                                            trim(line_.substr(n + 1, line_.length() - n - 1))));
         if (!res.second)
           err("duplicated key found");
-        l.ordered_values.push_back(res.first);
+        level->ordered_values.push_back(res.first);
       }
     }
   }
-- 
2.43.0


From fd2ad9795a41869461fc46f4a8f4f38070f24b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 062/100] fix: BayesIntervalCalc interpolates in the bin where
 the posterior reaches the level, not two bins further on, and refuses levels
 that are never reached

---
 src/interval/BayesIntervalCalc.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..e288130 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (!(cl_ > 0 && cl_ < 1))
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and <1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -26,16 +26,11 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     // Integrate from the minimum to x until the total probability exceeds cl_
     // find the first bin <b> for which the integral  <0>-><b> > cl
     size_t critBin = 0;
-    double sum = 0;
-    while (sum < cl_)
+    double sum = posterior_.GetBinContent(0);
+    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
         critBin++;
+        sum += posterior_.GetBinContent(critBin);
     }
 
     // now interpolate between the bins
-- 
2.43.0


From ee95782dc70b66b2c9d2b20753fe7e4ac23bda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 063/100] fix: BayesIntervalCalc's coverage is no longer 0/0
 when many more counts are expected than observed

---
 src/interval/BayesIntervalCalc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index e288130..dcae06a 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -44,7 +44,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
 double
 BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCounts_, double upperEdge_)
 {
-    return (gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_ + upperEdge_) - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_)) / (1 - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_));
+    // in terms of the upper incomplete gamma function, as the lower one is 1 for many more expected counts than observed ones
+    double normalisation = gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_);
+    return (normalisation - gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_ + upperEdge_)) / normalisation;
 }
 
 double
-- 
2.43.0


From ae2f74835c4a364538872c8744dafe0cb9c173f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 064/100] fix: BayesIntervalCalc refuses levels, tolerances and
 counts for which its scan never ends

---
 src/interval/BayesIntervalCalc.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index dcae06a..25fafb2 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -52,6 +52,17 @@ BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCou
 double
 BayesIntervalCalc::UpperBound(double expectedCounts_, int observedCounts_, double cl_, double tolerance_)
 {
+    if (!(cl_ > 0 && cl_ < 1))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
+                                     << " , must be >0 and <1!");
+
+    if (!(tolerance_ > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: tolerance = " << tolerance_
+                                     << " , must be >0!");
+
+    if (!(expectedCounts_ >= 0) || observedCounts_ < 0)
+        throw ValueError("BayesIntervalCalc:: numbers of counts can't be negative");
+
     double currentCL = 0;
     double limit = 0;
     while (std::abs(currentCL - cl_) > tolerance_)
-- 
2.43.0


From f10c8194b561cb5a8bb7636d787ad0553005dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 065/100] fix: GaussianFitter::GetParameter reads the parameter
 asked for, not one before the start of the list

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..250ea35 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -101,9 +101,9 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
-- 
2.43.0


From 4380c6bd6d106f206644ab7f905b9b0fdbe3a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 066/100] fix: GaussianFitter::RenameParameter no longer loops
 forever when a parameter is renamed to its own name

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 250ea35..f81f3ba 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
-- 
2.43.0


From 925f197a780b224f8fa92105e54e70f819c9a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 067/100] fix: Gaussian refuses means and widths for dimensions
 it does not have

---
 src/function/Gaussian.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/function/Gaussian.cpp b/src/function/Gaussian.cpp
index 907e3d1..8e3b2e5 100644
--- a/src/function/Gaussian.cpp
+++ b/src/function/Gaussian.cpp
@@ -109,21 +109,29 @@ Gaussian::GetStDev(size_t dimension_) const
 
 void Gaussian::SetMean(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fMeans.size())
+        throw NotFoundError("Gaussian::Tried to set Gaussian mean beyond function dimensionality!");
     fMeans[dim_] = value_;
 }
 
 void Gaussian::SetStDev(const size_t &dim_, const double &value_)
 {
+    if (dim_ >= fStdDevs.size())
+        throw NotFoundError("Gaussian::Tried to set Gaussian stdDev beyond function dimensionality!");
     fStdDevs[dim_] = value_;
 }
 
 void Gaussian::SetMeans(const std::vector<double> &means_)
 {
+    if (means_.size() != fNDims)
+        throw DimensionError("Gaussian::SetMeans", fNDims, means_.size());
     fMeans = means_;
 }
 
 void Gaussian::SetStDevs(const std::vector<double> &stddevs_)
 {
+    if (stddevs_.size() != fNDims)
+        throw DimensionError("Gaussian::SetStDevs", fNDims, stddevs_.size());
     fStdDevs = stddevs_;
 }
 
-- 
2.43.0


From e71b8a7a2eab547bf429bc01dc60615db7917560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 068/100] fix: assigning a JumpPDF frees the function it held
 and returns the assigned object

---
 src/function/JumpPDF.cpp | 9 ++++-----
 src/function/JumpPDF.h   | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..6b9a735 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,13 +33,12 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
-  if (other_.fPDF)
-    fPDF = static_cast<PDF *>(other_.fPDF->Clone());
-  else
-    fPDF = NULL;
+  PDF *pdf = other_.fPDF ? static_cast<PDF *>(other_.fPDF->Clone()) : NULL;
+  delete fPDF;
+  fPDF = pdf;
 
   fName = other_.fName;
   return *this;
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
-- 
2.43.0


From 4735a43500392325c490767cd0ebfc120ceb74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 069/100] fix: JumpPDF refuses points of different dimensions
 instead of reading past the shorter one

---
 src/function/JumpPDF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 6b9a735..23f11e1 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -48,6 +48,8 @@ std::vector<double>
 JumpPDF::Diff(const std::vector<double> &x_,
               const std::vector<double> &x2_) const
 {
+  if (x_.size() != x2_.size())
+    throw DimensionError("JumpPDF::Diff", x_.size(), x2_.size());
   std::vector<double> diff = x_;
   std::transform(diff.begin(), diff.end(), x2_.begin(),
                  diff.begin(), std::minus<double>());
@@ -58,6 +60,8 @@ std::vector<double>
 JumpPDF::Sum(const std::vector<double> &x_,
              const std::vector<double> &x2_) const
 {
+  if (x_.size() != x2_.size())
+    throw DimensionError("JumpPDF::Sum", x_.size(), x2_.size());
   std::vector<double> sum = x_;
   std::transform(sum.begin(), sum.end(), x2_.begin(),
                  sum.begin(), std::plus<double>());
-- 
2.43.0


From 073e46bcad2a20cb1bcf46d0e8e5f7dea5868bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 070/100] fix: copies of a VaryingCDF own their functions and
 kernel, and one without a kernel can be copied and destroyed

---
 src/function/VaryingCDF.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..3176775 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -32,19 +32,22 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    for (const auto &function : copy_.fFunctions)
+        fFunctions[function.first] = function.second->Clone();
+    if (copy_.fCdf)
+        fCdf = copy_.fCdf->Clone();
     fName = copy_.fName;
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    VaryingCDF copy(copy_);
+    std::swap(fFunctions, copy.fFunctions);
+    std::swap(fCdf, copy.fCdf);
+    std::swap(fName, copy.fName);
     return *this;
 }
 
-- 
2.43.0


From 602963c2038290d353d4ea0fb311f2502c4f73eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 071/100] fix: VaryingCDF frees the kernel or function that a
 new one replaces

---
 src/function/VaryingCDF.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 3176775..1120ceb 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -80,7 +80,11 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *function = func_->Clone();
+    std::map<std::string, Function *>::iterator it = fFunctions.find(paraName_);
+    if (it != fFunctions.end())
+        delete it->second;
+    fFunctions[paraName_] = function;
 }
 
 double
@@ -96,7 +100,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *kernel = PDF_->Clone();
+    delete fCdf;
+    fCdf = kernel;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -104,7 +110,9 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
-    fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    ConditionalPDF *kernel = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    delete fCdf;
+    fCdf = kernel;
 }
 
 std::vector<double>
-- 
2.43.0


From ef0c5d2458a08546eed165d45f58aafb51014b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 072/100] fix: VaryingCDF passes a parameter only to the
 functions that have it and refuses names that none has

---
 src/function/VaryingCDF.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 1120ceb..12451f7 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -126,10 +126,16 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(name_))
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << name_ << " not found in fFunctions available. Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -138,13 +144,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -201,10 +202,16 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(old_))
+            continue;
         function->second->RenameParameter(old_, new_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << old_ << " not found in fFunctions available. Parameters available : " << ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From e550bd7915a905b9e3ddcdb18a20eee4c9b41412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 073/100] fix: DataSetGenerator's random draws can take the
 last entry too

---
 src/data/DataSetGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..d56942b 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -211,7 +211,7 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1);
 
     cache = eventIndices[draw];
     eventIndices[draw] = eventIndices[max];
@@ -259,7 +259,7 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
       max = eventIndices.size() - 1;
 
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1);
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From c63022299cae69141dd5155055edefc07a7c13e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 074/100] fix: DataSetGenerator's sequential draws take the
 entries in order, each of them once

---
 src/data/DataSetGenerator.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index d56942b..a49de2c 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -317,13 +317,12 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   {
     eventIndices.reserve(origData->GetNEntries());
 
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
+    for (size_t i = origData->GetNEntries(); i > 0; i--)
+      eventIndices.push_back(i - 1);
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
+  size_t draw = -1; // the draw
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
   size_t oneTenth = nEvents_ / 10;
@@ -335,13 +334,8 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
 
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
+    // draw --> always take the first one left: the indices are in descending order
+    draw = max;
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From 1923f907cdab903189e17906ab40d1b0063b1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 075/100] fix: DataSetGenerator refuses to draw more entries
 without replacement than are left

---
 src/data/DataSetGenerator.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index a49de2c..84016c9 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -194,10 +194,10 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > max + 1)
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
-                                    << "events!)");
+                                    << nEvents_ << " but only have " << max + 1
+                                    << " events left!");
 
   size_t cache = -1; // for swapping
   size_t draw = -1;  // the random draw
@@ -208,8 +208,6 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
     // draw
     draw = Rand::Shoot(max + 1);
 
@@ -255,9 +253,6 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
     // draw
     draw = Rand::Shoot(max + 1);
 
@@ -304,11 +299,6 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
-    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
-                                    << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
@@ -322,6 +312,11 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
+  if (nEvents_ > max + 1)
+    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
+                                    << "\n\t (asked for " << nEvents_
+                                    << " but only have " << max + 1 << " left)");
+
   size_t draw = -1; // the draw
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
@@ -331,9 +326,6 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (oneTenth && !(i % oneTenth))
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
     // draw --> always take the first one left: the indices are in descending order
     draw = max;
 
-- 
2.43.0


From e5e0189471245af3962cbdd69bf7c14f458c2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 076/100] fix: DataSetGenerator's draws with replacement are
 from the whole data set, whatever was drawn before

---
 src/data/DataSetGenerator.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 84016c9..7143319 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -230,21 +230,11 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
                                                   OXSXDataSet &outData_)
 {
 
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
   size_t draw = -1; // the random draw
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
@@ -254,11 +244,11 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
       std::cout << i << "/" << nEvents_ << std::endl;
 
     // draw
-    draw = Rand::Shoot(max + 1);
+    draw = Rand::Shoot(origData->GetNEntries());
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    if (fCuts.PassesCuts(origData->GetEntry(draw)))
+      outData_.AddEntry(origData->GetEntry(draw));
   }
 
   return;
-- 
2.43.0


From bbb47c07c5d5f97d8eb50f7bb73bcbaafa41e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 077/100] fix: DataSetGenerator::AllRemainingEvents also works
 before the first draw and counts the events it gives

---
 src/data/DataSetGenerator.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 7143319..e05974b 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -260,7 +260,7 @@ void DataSetGenerator::AddDataSet(DataSet *data_, double rate_, bool flag_)
   fDataSets.push_back(data_);
   fExpectedRates.push_back(rate_);
   fEventIndicies.push_back(std::vector<size_t>());
-  fMaxs.push_back(0);
+  fMaxs.push_back(-999);
 }
 
 const std::vector<bool> &
@@ -348,25 +348,22 @@ DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
 
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
-
   const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
 
+  // nothing is set up until the first draw without replacement
+  const bool untouched = eventIndices.empty();
+  size_t nEvents = untouched ? fDataSets.at(iDS_)->GetNEntries() : fMaxs.at(iDS_) + 1;
+
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
                 << "(" << 10 * jEV / oneTenth
                 << "%)"
                 << std::endl;
-    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(jEV)));
+    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(untouched ? jEV : eventIndices.at(jEV)));
   }
 
   *eventsTaken_ = nEvents;
-- 
2.43.0


From dcfd3aa4a7f9f7c41260e15e096420b2c1ab6c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 078/100] fix: Rand::VonNeumannSample draws a sample instead of
 always returning 0

---
 src/rand/Rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..8b87db2 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -63,11 +63,11 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
   double fOfX = 1;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From 839a92569d6ac57cc7a381ac29a31d9d0d526388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 079/100] fix: IO refuses names that contain the delimiter of
 the list of names, before it writes anything

---
 src/data/IO.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..8fbe857 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -89,6 +89,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     std::vector<std::string> observableNames = dataSet_.GetObservableNames();
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
+    const std::string flatNames = FlattenStringVector(observableNames);
 
     // Set up files
     H5::H5File file(filename_, H5F_ACC_TRUNC);
@@ -104,7 +105,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::StrType strType(H5::PredType::C_S1, 64);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
+    obsListAtt.write(strType, flatNames);
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
@@ -270,6 +271,10 @@ IO::FlattenStringVector(const std::vector<std::string> &vec_)
     if (!vec_.size())
         return flatString;
 
+    for (const auto &name : vec_)
+        if (name.find(fDelimiter) != std::string::npos)
+            throw IOError("IO::Can't save the name " + name + ", it contains the delimiter of the list of names");
+
     flatString += vec_.at(0);
     for (size_t i = 1; i < vec_.size(); i++)
         flatString += fDelimiter + vec_.at(i);
@@ -338,13 +343,6 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     hsize_t nBins[] = {histo_.GetNBins()};
     std::vector<double> contents = histo_.GetBinContents();
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
-
-    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
-    H5::DataSpace dataSpace(1, nBins);
-    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
-
     // grab axis names
     std::vector<std::string> axisNames;
     std::vector<std::string> axisLatexNames;
@@ -353,16 +351,25 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
         axisNames.push_back(histo_.GetAxes().GetAxis(i).GetName());
         axisLatexNames.push_back(histo_.GetAxes().GetAxis(i).GetLatexName());
     }
+    const std::string flatNames = FlattenStringVector(axisNames);
+    const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+
+    // create the file
+    H5::H5File file(fileName_, H5F_ACC_TRUNC);
+
+    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
+    H5::DataSpace dataSpace(1, nBins);
+    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     // save axes names and latex names
     H5::StrType strType(H5::PredType::C_S1, 64);
     H5::DataSpace attSpace(H5S_SCALAR);
 
     H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
+    nameListAtt.write(strType, flatNames);
 
     H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    latexNameListAtt.write(strType, flatLatexNames);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From 32783c3265a3f72472f2bd80a5f02472d93821f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 080/100] fix: IO saves the names whole, with attributes of the
 length of the list of names

---
 src/data/IO.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 8fbe857..946a083 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -101,8 +101,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
     obsListAtt.write(strType, flatNames);
@@ -362,14 +361,15 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    H5::StrType strType(H5::PredType::C_S1, flatNames.size() + 1);
+    H5::StrType latexStrType(H5::PredType::C_S1, flatLatexNames.size() + 1);
     H5::DataSpace attSpace(H5S_SCALAR);
 
     H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
     nameListAtt.write(strType, flatNames);
 
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, flatLatexNames);
+    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", latexStrType, attSpace);
+    latexNameListAtt.write(latexStrType, flatLatexNames);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From b9145c63d8715bd28d40afea9c196f6c9c319646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 081/100] fix: IO saves and loads data sets without entries

---
 src/data/IO.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 946a083..c56a50f 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -126,6 +126,9 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     std::vector<double> flattenedData;
     std::vector<double> eventData;
 
+    if (!nData)
+        return; // nothing to write
+
     // only both to split the data up into chunks of 1e5 to avoid a big copy
     int nSlabs = nData / 10000 + 1;
     for (int i = 0; i < nSlabs; i++)
@@ -186,11 +189,15 @@ IO::LoadDataSet(const std::string &filename_)
     OXSXDataSet *oxsxDataSet = new OXSXDataSet;
 
     // Set the variable names
-    oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    if (nObs)
+        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
 
     // Read data out as 1D array
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
+    if (!nData || !nObs)
+        return oxsxDataSet; // no entries to read
+
     size_t nEntries = nData / nObs;
     oxsxDataSet->Reserve(nEntries);
 
-- 
2.43.0


From ef9b52314c03613330e7d9749e8aa275a6e29b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 082/100] fix: loading a file that holds something else or is
 cut short is an IOError

---
 src/data/IO.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index c56a50f..178f57f 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -161,6 +161,7 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 
 OXSXDataSet *
 IO::LoadDataSet(const std::string &filename_)
+try
 {
     std::cout << "IO::Loading " << filename_ << std::endl;
     // Get Data Set
@@ -269,6 +270,10 @@ IO::LoadDataSet(const std::string &filename_)
     } // else..
     return oxsxDataSet;
 }
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to read a data set from file : " + filename_);
+}
 
 std::string
 IO::FlattenStringVector(const std::vector<std::string> &vec_)
@@ -415,6 +420,7 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
 
 Histogram
 IO::LoadHistogram(const std::string &fileName_)
+try
 {
     std::cout << "IO::Loading " << fileName_ << std::endl;
 
@@ -492,3 +498,7 @@ IO::LoadHistogram(const std::string &fileName_)
 
     return loadedHisto;
 }
+catch (const H5::Exception &)
+{
+    throw IOError("Failed to read a histogram from file : " + fileName_);
+}
-- 
2.43.0


From 53b18952569f93b95d4c5994d9ccf78b3efbd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 083/100] fix: copies of a LazyOXSXDataSet take part in closing
 each other's data and assignment frees what was loaded

---
 src/data/LazyOXSXDataSet.cpp | 5 +++--
 src/data/LazyOXSXDataSet.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..1688f89 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,13 +12,14 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1aa54b3 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
-- 
2.43.0


From c8a0cdef6c83eaf6a5c474965960459e4e29fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 084/100] fix: IO saves the observable names of a data set
 without entries

---
 src/data/IO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 178f57f..99987e8 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -82,11 +82,11 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
 {
     // Get the relevant params
     hsize_t nEntries = dataSet_.GetNEntries();
-    hsize_t nObs = dataSet_.GetNObservables();
+    std::vector<std::string> observableNames = dataSet_.GetObservableNames();
+    hsize_t nObs = nEntries ? dataSet_.GetNObservables() : observableNames.size();
     hsize_t nData = nObs * nEntries;
 
     // create colon separated string from list of observables
-    std::vector<std::string> observableNames = dataSet_.GetObservableNames();
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
     const std::string flatNames = FlattenStringVector(observableNames);
-- 
2.43.0


From 4a09c6140664eee360955e67f374a32c05359a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 085/100] fix: AutoCorrelationCalc::Var is the variance of the
 values, summed without truncating them to whole numbers

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0


From c48de5ef285d4316f99596e775bb9593043bb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 086/100] fix: MCMC's best fit includes the last step accepted

---
 src/optimise/MCMC.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..a41ef52 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -227,12 +227,6 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
@@ -249,6 +243,12 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
     {
         fCurrentVal = proposedVal;
         fCurrentStep = proposedStep_;
+
+        if (fCurrentVal > fMaxVal)
+        {
+            fMaxVal = fCurrentVal;
+            fBestFit = fCurrentStep;
+        }
     }
 
     return accept;
-- 
2.43.0


From c2bd30ef0ac96b3cf078869ab0bc38fdf1cba975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 087/100] fix: MCMCSamples drops as many steps as the burn-in
 asks for, not one more

---
 src/optimise/MCMCSamples.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..8607d73 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -134,7 +134,7 @@ void MCMCSamples::Fill(const ParameterDict &params_, double val_, bool accepted_
         InitialiseHistograms();
 
     // a. Save the point in question if you are past burn-in phase and according to thinning
-    if (fTotalSteps > fBurnIn && !(fTotalSteps % fThinFactor))
+    if (fTotalSteps >= fBurnIn && !(fTotalSteps % fThinFactor))
     {
         //            fSample.push_back(currentStep);
         if (fSaveFullHistogram)
-- 
2.43.0


From 2b0507c9e499692657a7de56d933485d0b0060d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 088/100] fix: MCMC's saved chain has room for its parameters,
 and saving it is off until asked for

---
 src/optimise/MCMC.h          | 3 ++-
 src/optimise/MCMCSamples.cpp | 2 +-
 src/optimise/MCMCSamples.h   | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 8607d73..58a4aed 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -110,7 +110,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.resize(paramNames.size());
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..df9d5f6 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,6 +14,7 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
+                           fChain(NULL),
                            fSaveChain(false)
    {
    }
-- 
2.43.0


From af7ad90c8229cc39a52e63bcdce42c14c6dea3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 089/100] fix: MCMC refuses minima, maxima and starting points
 of other parameters than the statistic's

---
 src/optimise/MCMC.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index a41ef52..dc542d8 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -152,8 +152,12 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << ContainerTools::ToString(testStat_->GetParameterNames())
                          << "\n If initial trial is specified it should be one per fit parameter");
 
-    // 1. Choose a random starting point or the user defined one
     std::set<std::string> parameterNames = testStat_->GetParameterNames();
+    if (ContainerTools::GetKeys(fMinima) != parameterNames || ContainerTools::GetKeys(fMaxima) != parameterNames || (fInitialTrial.size() && ContainerTools::GetKeys(fInitialTrial) != parameterNames))
+        throw LogicError("MCMC initialisation error - the minima, maxima and initial trial are not for the fit parameters\n Fit Parameters: \n" + ContainerTools::ToString(parameterNames));
+
+    // 1. Choose a random starting point or the user defined one
+    fCurrentStep.clear();
     if (fInitialTrial.size())
         fCurrentStep = fInitialTrial;
     else
-- 
2.43.0


From c070fca4e2fd7cf110a43fb06a6b2a961ed4a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 090/100] fix: DistTools::ToHist keeps the bins of ROOT
 histograms with bins of different widths

---
 src/dist/DistTools.cpp | 58 ++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..b9c3d48 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -171,16 +171,27 @@ TH3D DistTools::ToTH3D(const BinnedED &pdf_)
     return rtHist;
 }
 
+namespace
+{
+// the bins of a ROOT axis, which need not be of equal width
+BinAxis ToBinAxis(const TAxis &axis_)
+{
+    std::vector<double> lowEdges;
+    std::vector<double> highEdges;
+    for (int i = 1; i < axis_.GetNbins() + 1; i++)
+    {
+        lowEdges.push_back(axis_.GetBinLowEdge(i));
+        highEdges.push_back(axis_.GetBinUpEdge(i));
+    }
+    return BinAxis(axis_.GetTitle(), lowEdges, highEdges);
+}
+}
+
 Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +206,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +230,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetZaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From 51224013fa66f88177a2c98969564977cdc578af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 091/100] fix: Minuit keeps the upper contour edge that was set
 instead of resetting it at each fit

---
 src/optimise/Minuit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..0359df2 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
+    const double upperContourEdge = fMinuitFCN.GetUp();
     fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    fMinuitFCN.SetUp(upperContourEdge);
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From 29707c4e1e29519ada5334a7dedb6fe757defe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 092/100] fix: Minuit limits only the parameters that have
 limits and refuses limits of unknown ones

---
 src/optimise/Minuit.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 0359df2..84e06a8 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -101,6 +101,12 @@ void Minuit::Initialise(TestStatistic *testStat_)
                              << "Invalid fit range for " << it->first
                              << " : " << it->second << " - " << fMaxima[it->first]
                              << "\n");
+
+        if (!fInitialValues.count(it->first))
+            throw LogicError(Formatter()
+                             << "Minuit initialisation error "
+                             << "Fit range for unknown parameter " << it->first
+                             << "\n");
     }
 
     // take a copy of these here to make sure we hit the same order each time - minuit uses vector we use set/map...
@@ -124,7 +130,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
         for (std::set<std::string>::iterator it = fParameterNames.begin();
              it != fParameterNames.end(); ++it)
         {
-            params.SetLimits(i++, fMinima[*it], fMaxima[*it]);
+            if (fMinima.count(*it))
+                params.SetLimits(i, fMinima[*it], fMaxima[*it]);
+            i++;
         }
     }
 
-- 
2.43.0


From 3654a8a61c4d9266393307a8358763973b8c0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 093/100] fix: keep cut names and counts apart in the cut log
 table

---
 src/cut/CutLog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index c80de5d..ed9066f 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -104,7 +104,7 @@ CutLog::AsString()
     {
         outString << std::left
                   << std::setw(15)
-                  << fCutNames.at(i)
+                  << fCutNames.at(i) + " " // a name wider than its column is not run into the count
                   << std::left
                   << std::setw(15)
                   << fCutCounts.at(i)
-- 
2.43.0


From b79c8937e6c4446395d22dcaecaf28c13b710f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:49 +0000
Subject: [PATCH 094/100] fix: CountingExperiment counting the backgrounds
 again replaces the previous counts

---
 src/count/CountingExperiment.cpp | 3 +++
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index 3dda7fe..2d2234a 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -22,6 +22,9 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // counting again replaces the previous counts
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From 5739a62910904ccf0184c7c24dd13ca875872387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:49 +0000
Subject: [PATCH 095/100] fix: CountingResult report errors of backgrounds
 sharing a name

---
 src/count/CountingResult.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index c9b1a75..55d8bb3 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -147,26 +147,23 @@ CountingResult::AsString()
                  << std::setw(10)
                  << "Counts";
 
-    std::vector<std::pair<std::string, double>> sortedRatesByName;
-    std::map<std::string, double> sortedErrorsByName;
+    // by index, the names needn't be unique
+    std::vector<std::pair<size_t, double>> sortedRates;
     for (size_t i = 0; i < fExpectedRates.size(); i++)
-    {
-        sortedRatesByName.push_back(std::pair<std::string, double>(fBackgroundNames.at(i), fExpectedRates.at(i)));
-        sortedErrorsByName[fBackgroundNames.at(i)] = fExpectedRateErrors.at(i);
-    }
-    std::sort(sortedRatesByName.begin(), sortedRatesByName.end(), PairSortBySecond<std::string, double, std::greater<double>>());
+        sortedRates.push_back(std::pair<size_t, double>(i, fExpectedRates.at(i)));
+    std::sort(sortedRates.begin(), sortedRates.end(), PairSortBySecond<size_t, double, std::greater<double>>());
 
-    for (size_t i = 0; i < sortedRatesByName.size(); i++)
+    for (size_t i = 0; i < sortedRates.size(); i++)
     {
         resultString << "\n"
                      << std::setw(25)
                      << std::left
-                     << sortedRatesByName.at(i).first
+                     << fBackgroundNames.at(sortedRates.at(i).first)
                      << std::setw(10)
                      << std::left
-                     << sortedRatesByName.at(i).second
+                     << sortedRates.at(i).second
                      << " +- "
-                     << sortedErrorsByName[sortedRatesByName.at(i).first];
+                     << fExpectedRateErrors.at(sortedRates.at(i).first);
     }
 
     resultString << "\n"
-- 
2.43.0


From 55191de87050044b1fdc44fae955d552b40dbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:14 +0000
Subject: [PATCH 096/100] fix: Convolution copies its kernel when it is copied

---
 src/systematic/Convolution.cpp | 28 ++++++++++++++++++++++++++++
 src/systematic/Convolution.h   |  2 ++
 2 files changed, 30 insertions(+)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 29d2787..96d76d4 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -18,6 +18,34 @@ void Convolution::SetConditionalPDF(ConditionalPDF *c_)
     fDist = c_->Clone();
 }
 
+Convolution::Convolution(const Convolution &other_) : Systematic(other_),
+                                                      fDist(other_.fDist ? other_.fDist->Clone() : NULL),
+                                                      fName(other_.fName),
+                                                      fCachedIndexPermutations(other_.fCachedIndexPermutations),
+                                                      fSubMapAxes(other_.fSubMapAxes),
+                                                      fNotSubMapAxes(other_.fNotSubMapAxes),
+                                                      fColumnPerms(other_.fColumnPerms)
+{
+}
+
+Convolution &
+Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+    Systematic::operator=(other_);
+    // the kernel is ours, take a copy
+    ConditionalPDF *dist = other_.fDist ? other_.fDist->Clone() : NULL;
+    delete fDist;
+    fDist = dist;
+    fName = other_.fName;
+    fCachedIndexPermutations = other_.fCachedIndexPermutations;
+    fSubMapAxes = other_.fSubMapAxes;
+    fNotSubMapAxes = other_.fNotSubMapAxes;
+    fColumnPerms = other_.fColumnPerms;
+    return *this;
+}
+
 Convolution::~Convolution()
 {
     delete fDist;
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index cf1801d..dfe96b8 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const Convolution &other_);            // deep copy
+   Convolution &operator=(const Convolution &other_); // deep copy
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
-- 
2.43.0


From bc57132ced76026db1a19523d6dd3b642bd83987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:14 +0000
Subject: [PATCH 097/100] fix: Minuit can be copied, each copy has its own
 minimiser

---
 src/optimise/Minuit.cpp | 29 +++++++++++++++++++++++++++++
 src/optimise/Minuit.h   |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 84e06a8..47c432b 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -21,6 +21,35 @@ using ROOT::Minuit2::MnUserParameters;
 
 // FIXME:: CHeck the length of the vectors as you set them match fNparams
 
+Minuit::Minuit(const Minuit &other_) : Optimiser(other_), fMinimiser(NULL)
+{
+    *this = other_;
+}
+
+Minuit &
+Minuit::operator=(const Minuit &other_)
+{
+    if (this == &other_)
+        return *this;
+    // the minimiser refers to the function of the other one, ours is made when it's needed
+    delete fMinimiser;
+    fMinimiser = NULL;
+    fMinuitFCN = other_.fMinuitFCN;
+    fInitialValues = other_.fInitialValues;
+    fInitialErrors = other_.fInitialErrors;
+    fMinima = other_.fMinima;
+    fMaxima = other_.fMaxima;
+    fFixedParameters = other_.fFixedParameters;
+    fMaxCalls = other_.fMaxCalls;
+    fTolerance = other_.fTolerance;
+    fStrategy = other_.fStrategy;
+    fMethod = other_.fMethod;
+    fParameterNames = other_.fParameterNames;
+    fFitResult = other_.fFitResult;
+    fMaximising = other_.fMaximising;
+    return *this;
+}
+
 Minuit::~Minuit()
 {
     delete fMinimiser;
diff --git a/src/optimise/Minuit.h b/src/optimise/Minuit.h
index d406361..ba983b2 100644
--- a/src/optimise/Minuit.h
+++ b/src/optimise/Minuit.h
@@ -25,6 +25,8 @@ public:
               fMethod("Migrad"),
               fMinimiser(NULL),
               fMaximising(false) {}
+   Minuit(const Minuit &other_);            // copies the settings and the result,
+   Minuit &operator=(const Minuit &other_); // each has its own minimiser
    ~Minuit();
 
    virtual const FitResult &Optimise(TestStatistic *);
-- 
2.43.0


From 74537642517ea807daf2070851749e4520db6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:14 +0000
Subject: [PATCH 098/100] fix: BinnedNLLH registers its own norms when it is
 copied

---
 src/teststat/BinnedNLLH.cpp | 23 +++++++++++++++++++++++
 src/teststat/BinnedNLLH.h   |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 89ec53a..58164ff 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -9,6 +9,29 @@
 #include <iostream>
 #include <Formatter.hpp>
 
+BinnedNLLH::BinnedNLLH(const BinnedNLLH &other_) : TestStatistic(other_), fAlreadyShrunk(false)
+{
+    *this = other_;
+}
+
+BinnedNLLH &
+BinnedNLLH::operator=(const BinnedNLLH &other_)
+{
+    if (this == &other_)
+        return *this;
+    TestStatistic::operator=(other_);
+    fPdfManager = other_.fPdfManager;
+    fPdfShrinker = other_.fPdfShrinker;
+    fDataDist = other_.fDataDist;
+    fAlreadyShrunk = other_.fAlreadyShrunk;
+    fGenRates = other_.fGenRates;
+    fUseBarlowBeeston = other_.fUseBarlowBeeston;
+    // the components copied are those of the other one, register our own
+    if (GetComponentManager().GetComponentCount())
+        RegisterFitComponents();
+    return *this;
+}
+
 double
 BinnedNLLH::Evaluate()
 {
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index c50f5b7..4029b63 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -11,6 +11,8 @@ class BinnedNLLH : public TestStatistic
 {
 public:
    BinnedNLLH() : fAlreadyShrunk(false) {}
+   BinnedNLLH(const BinnedNLLH &other_);            // a copy adjusts its own norms,
+   BinnedNLLH &operator=(const BinnedNLLH &other_); // the systematics are shared
 
    void SetPdfManager(const BinnedEDManager &);
 
-- 
2.43.0


From 4a59081d79d5cb46994bff21ca0204eaf75a1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:28 +0000
Subject: [PATCH 099/100] fix: calc_eff_rad runs: the __future__ import comes
 first

---
 util/calc_eff_rad | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/calc_eff_rad b/util/calc_eff_rad
index d1acb18..20ed9f9 100755
--- a/util/calc_eff_rad
+++ b/util/calc_eff_rad
@@ -4,13 +4,14 @@
 # Take a root ntuple containing an x,y,z position and convert it to another ntuple with only (r/r0)**3 #
 ########################################################################################################
 
-R0 = 6005
-
 from __future__ import print_function
 import argparse
 import os
 import sys
 from array import array
+
+R0 = 6005
+
 try:
     from ROOT import TFile, TTree, TNtuple
 except ImportError:
-- 
2.43.0


From d8fae83dc1f6bdfd52106e49ea7f7abd53398e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:28 +0000
Subject: [PATCH 100/100] fix: prune_flat_tree -nevents writes that many
 entries, not one more

---
 util/prune_flat_tree | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/prune_flat_tree b/util/prune_flat_tree
index 621b310..ebde76e 100755
--- a/util/prune_flat_tree
+++ b/util/prune_flat_tree
@@ -45,7 +45,7 @@ def make_ntup(file_name, tree_name,  branches, outfile, n_events, new_tree_name)
 
     # loop over events and fill the branches of new ntuple
     for index, entry in enumerate(tree):
-        if index > n_events:
+        if index >= n_events:
             break
         vals = array('f', [entry.__getattr__(b) for b in branches])
         nt.Fill(vals)
-- 
2.43.0

