From 9f591476e93c7518436d1d61529aa7c30807bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 01/21] fix: ParameterValue::getUint32 returns the unsigned
 value it converted

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From de87662314d942ae3cf45e75b51d1ebe9ee2c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 02/21] fix: record the stored spelling of a used parameter so
 case-insensitive keys count as used

---
 common/ParameterSetImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..3d34e50 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -327,7 +327,8 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
       throw APSException("Key " + aKey + " unknown");
     }
   } else {
-    itsAskedParms.insert(aKey);
+    // Record the key as stored: with case-insensitive keys aKey may differ.
+    itsAskedParms.insert(iter->first);
   }
 
   return (iter);
-- 
2.43.0


From f0f35966b59dd27cbc81872247fd67cdbfa192ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:17 +0000
Subject: [PATCH 03/21] fix: print the Faraday rotation mode under the name by
 which it can be selected

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From f917ed0198e48372c80558daf8a54204952052dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 04/21] fix: SetBeam passes the end of the data on to the next
 step

---
 steps/SetBeam.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/SetBeam.h b/steps/SetBeam.h
index 0171aa5..8c6e829 100644
--- a/steps/SetBeam.h
+++ b/steps/SetBeam.h
@@ -33,7 +33,7 @@ class SetBeam final : public Step {
 
   bool process(std::unique_ptr<base::DPBuffer> buffer) override;
 
-  void finish() override{};
+  void finish() override { getNextStep()->finish(); }
 
   void updateInfo(const base::DPInfo& info) override;
 
-- 
2.43.0


From c2fe9c9bab7e51b6d3b99d9218bcfe7463a3295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 05/21] fix: MadFlagger requires the flags that it uses and
 extends

---
 steps/MadFlagger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/MadFlagger.h b/steps/MadFlagger.h
index adb0aed..a47b219 100644
--- a/steps/MadFlagger.h
+++ b/steps/MadFlagger.h
@@ -65,7 +65,9 @@ class MadFlagger : public Step {
 
   ~MadFlagger() override;
 
-  common::Fields getRequiredFields() const override { return kDataField; }
+  common::Fields getRequiredFields() const override {
+    return kDataField | kFlagsField;
+  }
 
   common::Fields getProvidedFields() const override { return kFlagsField; }
 
-- 
2.43.0


From bcb5824c8ce70949abae2d39fafdda047e81f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 06/21] fix: MadFlagger checks the selected correlations
 themselves, not their use as an index

---
 steps/MadFlagger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..2c1c43f 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -135,10 +135,10 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
       flagCorr.push_back(i);
     }
   } else {
-    for (const unsigned int ip : itsFlagCorr) {
+    for (const unsigned int corr : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (corr < ncorr) {
+        flagCorr.push_back(corr);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From eece914057abdc8cf05feb8645e788cad55afe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 07/21] fix: bitToBool of no values does not read beyond the
 bits

---
 common/DataConvert.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/DataConvert.cc b/common/DataConvert.cc
index 461873c..515443c 100644
--- a/common/DataConvert.cc
+++ b/common/DataConvert.cc
@@ -109,6 +109,9 @@ unsigned int boolToBit(void* to, const void* from, unsigned int nvalues,
 
 unsigned int bitToBool(void* to, const void* from, unsigned int nvalues,
                        unsigned int startbit) {
+  if (nvalues == 0) {
+    return 0;
+  }
   bool* data = (bool*)to;
   const unsigned char* bits = (const unsigned char*)from + startbit / 8;
   startbit %= 8;
-- 
2.43.0


From 54fd76fb2131c4aab492f48bf83a29def95ee5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 08/21] fix: Median of an even number of values keeps the upper
 middle value in place

---
 common/Median.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..d7dff53 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -24,7 +24,7 @@ T Median(std::vector<T>& v) {
     return *target;
   } else {
     auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    std::nth_element(v.begin(), before, target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From 93841e6b17fb616bc25ae97da2215d0cf6b455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 09/21] fix: the Epanechnikov smoothing kernel is 3/4 (1 -
 x^2), symmetric around its centre

---
 ddecal/constraints/KernelSmoother.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..a83bc95 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,12 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
+        /// 3/4 * (1 - x^2);
+        if (x < NumType(-1.0) || x > NumType(1.0)) {
           return 0.0;
         } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
         }
     }
   }
-- 
2.43.0


From 044dc16dbb1f395347ab5ceb5eb88b9ec8f4d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/21] fix: Do not document parameters that no step reads

The aoflagger parameters pulsar and pedantic, minblperant of gaincal and
beammode of uvwflagger are not read, so setting them has no effect.
---
 docs/schemas/AOFlagger.yml  | 8 --------
 docs/schemas/GainCal.yml    | 5 -----
 docs/schemas/UVWFlagger.yml | 8 --------
 3 files changed, 21 deletions(-)

diff --git a/docs/schemas/AOFlagger.yml b/docs/schemas/AOFlagger.yml
index bb847a2..d78634b 100644
--- a/docs/schemas/AOFlagger.yml
+++ b/docs/schemas/AOFlagger.yml
@@ -67,14 +67,6 @@ inputs:
     type: boolean
     default: true
     doc: Flag autocorrelations?
-  pulsar:
-    type: boolean
-    default: false
-    doc: Use flagging strategy optimized for pulsar observations?
-  pedantic:
-    type: boolean
-    default: false
-    doc: Be more pedantic when flagging?
   keepstatistics:
     type: boolean
     default: true
diff --git a/docs/schemas/GainCal.yml b/docs/schemas/GainCal.yml
index de52b21..bfaedb2 100644
--- a/docs/schemas/GainCal.yml
+++ b/docs/schemas/GainCal.yml
@@ -77,11 +77,6 @@ inputs:
     type: float
     doc: >-
       Tolerance to which the model should match the data.
-  minblperant:
-    default: 4
-    type: int
-    doc: >-
-      If an antenna has less than minblperant unflagged data points for a given solution slot, it is not used for calibration.
   timeslotsperparmupdate:
     default: 500
     type: int
diff --git a/docs/schemas/UVWFlagger.yml b/docs/schemas/UVWFlagger.yml
index 45db286..c7bd27b 100644
--- a/docs/schemas/UVWFlagger.yml
+++ b/docs/schemas/UVWFlagger.yml
@@ -156,11 +156,3 @@ inputs:
       Otherwise the first two values must contain a source position that can be given in sexagesimal format or as a value followed by a unit. 
       The third value can contain the direction type; it defaults to J2000. 
       Possible types are GALACTIC, ECLIPTIC, SUPERGAL, J2000, B1950 (as defined in the casacore Measures system).
-
-  beammode:
-    type: enum
-    symbols: array_factor, element, default
-    doc: >-
-      Beam mode to apply, can be "array_factor", "element" or "default".
-      Default is to apply both the element beam and the array factor. 
-
-- 
2.43.0


From 5fef651be226fb47aa44b1e9fecdadce5693b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 11/21] fix: Document the default values that the code uses

They differed for minpoints of averager, propagatesolutions of demixer and
overlapperc of aoflagger.
---
 docs/schemas/AOFlagger.yml | 6 +++---
 docs/schemas/Averager.yml  | 2 +-
 docs/schemas/Demixer.yml   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/docs/schemas/AOFlagger.yml b/docs/schemas/AOFlagger.yml
index d78634b..398863a 100644
--- a/docs/schemas/AOFlagger.yml
+++ b/docs/schemas/AOFlagger.yml
@@ -54,11 +54,11 @@ inputs:
       on the left and right side to minimize possible boundary effects.
   overlapperc:
     type: float
-    default: 0
+    default: -1
     doc: >-
       If >0, percentage of time window to be added to the left and right side
-      for overlap purposes (to minimize boundary effects). If `overlapmax` is not
-      given, it defaults to 1%.
+      for overlap purposes (to minimize boundary effects). If neither this nor
+      `overlapmax` is given, it is 1%.
   overlapmax:
     type: int
     default: 0
diff --git a/docs/schemas/Averager.yml b/docs/schemas/Averager.yml
index 5b4fa22..08301c0 100644
--- a/docs/schemas/Averager.yml
+++ b/docs/schemas/Averager.yml
@@ -26,7 +26,7 @@ inputs:
     doc: >-
       If number of averaged unflagged input points < minpoints, the averaged
       point is flagged.
-    default: 0
+    default: 1
   minperc:
     type: float
     doc: Like minpoints, but expressed as a percentage of timestep*freqstep..
diff --git a/docs/schemas/Demixer.yml b/docs/schemas/Demixer.yml
index 171f582..711e712 100644
--- a/docs/schemas/Demixer.yml
+++ b/docs/schemas/Demixer.yml
@@ -120,7 +120,7 @@ inputs:
       specified if the source is unknown (which is usually the case). It can be
       done using parameters ``<step>.<sourcename>.phasecenter``.
   propagatesolutions:
-    default: true
+    default: false
     type: boolean
     doc: >-
       If set to true, solutions of a time slot are used as initial values for
-- 
2.43.0


From 5b1ee5fa4a0ddc6bf36d2aaf3fa1e18a75cda056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 12/21] fix: Do not document defaults for parameters that must
 be given

Reading caltype of gaincal, steps and replaceparms of split and the list of
steps throws when they are absent.
---
 docs/schemas/GainCal.yml  | 1 -
 docs/schemas/SVPInput.yml | 1 -
 docs/schemas/Split.yml    | 2 --
 3 files changed, 4 deletions(-)

diff --git a/docs/schemas/GainCal.yml b/docs/schemas/GainCal.yml
index bfaedb2..6cc2222 100644
--- a/docs/schemas/GainCal.yml
+++ b/docs/schemas/GainCal.yml
@@ -7,7 +7,6 @@ inputs:
       Case-insensitive step type; must be 'gaincal' or 'calibrate'.
   caltype:
     type: string
-    default: diagonal
     doc: >-
       The type of calibration that needs to be performed. Options are `scalar`, `scalarphase`, `scalaramplitude`, `diagonal`, `diagonalphase`, `diagonalamplitude`, `fulljones`, 'tec' and 'tec+phase'.
   parmdb:
diff --git a/docs/schemas/SVPInput.yml b/docs/schemas/SVPInput.yml
index 5e33b45..a4444d5 100644
--- a/docs/schemas/SVPInput.yml
+++ b/docs/schemas/SVPInput.yml
@@ -5,7 +5,6 @@ inputs:
     type: string
     doc: Case-insensitive step type; must be 'svpinput'.
   steps:
-    default: "[]"
     type: array of strings
     doc: List steps that follow the 'svpinput' step, e.g. ``[average, msout]``.
      Any such steps can be applied to the data stream that is read from the socket.
diff --git a/docs/schemas/Split.yml b/docs/schemas/Split.yml
index 192a3b3..629bfc1 100644
--- a/docs/schemas/Split.yml
+++ b/docs/schemas/Split.yml
@@ -11,13 +11,11 @@ inputs:
     type: string
     doc: Case-insensitive step type; must be 'split'.
   steps:
-    default: "[]"
     type: array of strings
     doc: List steps that follow the 'split' step, e.g. ``[average, msout]``.
       Split creates multiple pipelines with these steps, using the
       replaceparms setting.
   replaceparms:
-    default: "[]"
     type: array of strings
     doc: >-
       A list of key names that are different for each of the next steps.
-- 
2.43.0


From a4c371115c350fb729dd966e9357092d9374442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 13/21] fix: set the station flags of the unpolarized gain step
 after its parallel loop

The two polarizations of a station share one flag, which one iteration wrote
while another read it.
---
 base/GainCalAlgorithm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/GainCalAlgorithm.cc b/base/GainCalAlgorithm.cc
index cd9b256..5e67aa5 100644
--- a/base/GainCalAlgorithm.cc
+++ b/base/GainCalAlgorithm.cc
@@ -350,6 +350,10 @@ void GainCalAlgorithm::doStep_unpolarized(
     _h(ant, 0) = conj(_g(ant, 0));
   }
 
+  // The solutions of both polarizations of a station share its flag, so new
+  // flags are set when all parallel iterations are done.
+  std::vector<char> unsolvable(_nUn, 0);
+
   recursive_for.Run(0, _nUn, [&](size_t st1, size_t) {
     if (_stationFlagged[st1 % _nSt]) {
       return;
@@ -373,7 +377,7 @@ void GainCalAlgorithm::doStep_unpolarized(
 
     // Flag a station if all baselines are flagged or all data is zero
     if (ww == 0 || std::abs(tt) == 0) {
-      _stationFlagged[st1 % _nSt] = true;
+      unsolvable[st1] = 1;
       _g(st1, 0) = 0;
       return;
     }
@@ -393,6 +397,10 @@ void GainCalAlgorithm::doStep_unpolarized(
       _g(st1, 0) = std::abs(_g(st1, 0));
     }
   });
+
+  for (size_t st1 = 0; st1 != _nUn; ++st1) {
+    if (unsolvable[st1]) _stationFlagged[st1 % _nSt] = true;
+  }
 }
 
 void GainCalAlgorithm::incrementWeight(float weight) { _totalWeight += weight; }
-- 
2.43.0


From 435e8898315d6420629f8accca837deb2221de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 14/21] fix: accumulate GainCal weights per channel inside the
 parallel loop

Channels of one frequency cell incremented the weight of the cell concurrently,
so increments could get lost.
---
 steps/GainCal.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 5c4cc0a..6c83626 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -555,6 +555,10 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
   const size_t n_correlations = getInfoOut().ncorr();
   assert(n_correlations == 4 || n_correlations == 2 || n_correlations == 1);
 
+  // Several channels share a frequency cell, whose weight is incremented when
+  // all channels are done.
+  std::vector<float> channel_weights(n_channels, 0.0f);
+
   schaapcommon::DynamicFor<size_t> loop;
   loop.Run(0, n_channels, [&](size_t ch) {
     constexpr size_t kNumDimensions = 6;
@@ -583,7 +587,7 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
       }
 
       if (itsMode == CalType::kTec || itsMode == CalType::kTecAndPhase) {
-        algorithms_[ch / itsNChan].incrementWeight(weights(bl, ch, 0));
+        channel_weights[ch] += weights(bl, ch, 0);
       }
 
       for (size_t cr = 0; cr < n_correlations; ++cr) {
@@ -608,6 +612,12 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
       }
     }
   });
+
+  if (itsMode == CalType::kTec || itsMode == CalType::kTecAndPhase) {
+    for (size_t ch = 0; ch != n_channels; ++ch) {
+      algorithms_[ch / itsNChan].incrementWeight(channel_weights[ch]);
+    }
+  }
 }
 
 bool GainCal::scalarMode(CalType caltype) {
-- 
2.43.0


From e95e4b36b97b6c2fd81842ebf860722a14464bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 15/21] fix: determine the convergence of all GainCal cells
 after the parallel loop

Several iterations wrote the same flag without synchronization.
---
 steps/GainCal.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 6c83626..83ac477 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -648,19 +648,18 @@ void GainCal::calibrate() {
       itsNFreqCells, GainCalAlgorithm::NOTCONVERGED);
 
   for (; iter < itsMaxIter; ++iter) {
-    bool allConverged = true;
     schaapcommon::RecursiveFor recursive_for;
     recursive_for.Run(0, itsNFreqCells, [&](size_t freqCell) {
       // Do another step when stalled and not all converged
       if (converged[freqCell] != GainCalAlgorithm::CONVERGED) {
         converged[freqCell] = algorithms_[freqCell].doStep(iter, recursive_for);
-        // Only continue if there are steps worth continuing
-        // (so not converged, failed or stalled)
-        if (converged[freqCell] == GainCalAlgorithm::NOTCONVERGED) {
-          allConverged = false;
-        }
       }
     });
+    // Only continue if there are steps worth continuing
+    // (so not converged, failed or stalled)
+    const bool allConverged =
+        std::find(converged.begin(), converged.end(),
+                  GainCalAlgorithm::NOTCONVERGED) == converged.end();
 
     if (itsDebugLevel > 0) {
       for (unsigned int freqCell = 0; freqCell < itsNFreqCells; ++freqCell) {
-- 
2.43.0


From 8b27a0a86ba385285defe5f0371490cf768346d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 16/21] fix: store the GainCal debug solutions after the
 parallel phase fit

Every iteration copied the solutions of all stations, which other iterations
were still writing, to the same place.
---
 steps/GainCal.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 83ac477..64a0c57 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -746,18 +746,17 @@ void GainCal::calibrate() {
             tecsol(st, 1) = 0;  // std::numeric_limits<double>::quiet_NaN();
           }
         }
+      });
 
-        if (itsDebugLevel > 0) {
-          for (unsigned int freqCell = 0; freqCell < itsNFreqCells;
-               ++freqCell) {
-            Matrix<std::complex<double>> fullSolution =
-                algorithms_[freqCell].getSolution(false);
-            std::copy(
-                fullSolution.begin(), fullSolution.end(),
-                &itsAllSolutions(itsStepInParmUpdate, iter, freqCell, 1, 0, 0));
-          }
+      if (itsDebugLevel > 0) {
+        for (unsigned int freqCell = 0; freqCell < itsNFreqCells; ++freqCell) {
+          Matrix<std::complex<double>> fullSolution =
+              algorithms_[freqCell].getSolution(false);
+          std::copy(
+              fullSolution.begin(), fullSolution.end(),
+              &itsAllSolutions(itsStepInParmUpdate, iter, freqCell, 1, 0, 0));
         }
-      });
+      }
       itsTimerPhaseFit.stop();
       itsTimerSolve.start();
     }
-- 
2.43.0


From 3bfd0ce27cd4e47de9af4cf2fc870fee4696810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 17/21] fix: count the flags of ApplyCal per thread

The parallel loop over baselines incremented shared channel counters without
synchronization, so counts could get lost.
---
 steps/OneApplyCal.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/steps/OneApplyCal.cc b/steps/OneApplyCal.cc
index b9cfbf8..5b5881e 100644
--- a/steps/OneApplyCal.cc
+++ b/steps/OneApplyCal.cc
@@ -534,8 +534,12 @@ void OneApplyCal::CorrectionLoop(DPBuffer& buffer,
   const size_t n_chan = buffer.GetData(direction_name).shape(1);
   const size_t n_solution_corr = gains.shape()[0];
 
+  std::mutex flag_counter_mutex;
   schaapcommon::StaticFor<size_t> loop;
   loop.Run(0, n_bl, [&](size_t start_baseline, size_t end_baseline) {
+    base::FlagCounter flag_counter;
+    flag_counter.init(getInfoOut());
+
     for (size_t bl = start_baseline; bl < end_baseline; ++bl) {
       const unsigned int ant_a = getInfoOut().getAnt1()[bl];
       const unsigned int ant_b = getInfoOut().getAnt2()[bl];
@@ -548,14 +552,17 @@ void OneApplyCal::CorrectionLoop(DPBuffer& buffer,
         if (n_solution_corr > 2) {
           ApplyCal::ApplyFull(aocommon::MC2x2F(gain_a),
                               aocommon::MC2x2F(gain_b), buffer, bl, chan,
-                              itsUpdateWeights, itsFlagCounter, direction_name);
+                              itsUpdateWeights, flag_counter, direction_name);
         } else {
           ApplyCal::ApplyDiag(aocommon::MC2x2FDiag(gain_a),
                               aocommon::MC2x2FDiag(gain_b), buffer, bl, chan,
-                              itsUpdateWeights, itsFlagCounter, direction_name);
+                              itsUpdateWeights, flag_counter, direction_name);
         }
       }
     }
+
+    const std::lock_guard<std::mutex> lock(flag_counter_mutex);
+    itsFlagCounter.add(flag_counter);
   });
 }
 
-- 
2.43.0


From cee4c8592470d1e034f0f7b7f6985b8bd7ce6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 18/21] fix: convert the moving phase reference before the
 parallel loop of Demixer

Iterations assigned itsMeasFrame and itsPhaseRef concurrently.
---
 steps/Demixer.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/steps/Demixer.cc b/steps/Demixer.cc
index 7cb2789..a66dc6d 100644
--- a/steps/Demixer.cc
+++ b/steps/Demixer.cc
@@ -942,6 +942,18 @@ void Demixer::demix() {
 
   base::const_cursor<base::Baseline> cr_baseline(&(itsBaselines[0]));
 
+  if (itsMovingPhaseRef && (multiplier != 1 || nCh != nChSubtr)) {
+    // Convert phase reference to J2000
+    itsMeasFrame.set(
+        MEpoch(MVEpoch(getInfoOut().startTime() / 86400), MEpoch::UTC));
+    MDirection dirJ2000(MDirection::Convert(
+        getInfoOut().phaseCenter(),
+        MDirection::Ref(MDirection::J2000, itsMeasFrame))());
+    Quantum<casacore::Vector<double>> angles = dirJ2000.getAngle();
+    itsPhaseRef = base::Direction(angles.getBaseValue()[0],
+                                  angles.getBaseValue()[1]);
+  }
+
   schaapcommon::DynamicFor<size_t> loop;
   loop.Run(0, nTime, [&](size_t ts, size_t thread) {
     ThreadPrivateStorage& storage = threadStorage[thread];
@@ -1053,17 +1065,6 @@ void Demixer::demix() {
                          itsAvgResultSubtr->get()[ts_subtr]->GetUvw(),
                          storage.uvw);
 
-          if (itsMovingPhaseRef) {
-            // Convert phase reference to J2000
-            itsMeasFrame.set(
-                MEpoch(MVEpoch(getInfoOut().startTime() / 86400), MEpoch::UTC));
-            MDirection dirJ2000(MDirection::Convert(
-                getInfoOut().phaseCenter(),
-                MDirection::Ref(MDirection::J2000, itsMeasFrame))());
-            Quantum<casacore::Vector<double>> angles = dirJ2000.getAngle();
-            itsPhaseRef = base::Direction(angles.getBaseValue()[0],
-                                          angles.getBaseValue()[1]);
-          }
           // Rotate the UVW coordinates for the target direction to the
           // direction of source to subtract. This is required because at
           // the resolution of the residual the UVW coordinates for
-- 
2.43.0


From 629fda25e4e2bec7ab021772100b78aedf984d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 19/21] fix: initialise whether a Gaussian's position angle is
 absolute in its first constructor

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From b69e1b6d6a9b97851069ff990a5f922a3e5d4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 20/21] fix: ComponentInfo no longer keeps spectral terms of
 the component before

---
 base/ComponentInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..1058e78 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -37,6 +37,8 @@ void ComponentInfo::update(const PointSource& component) {
     throw std::runtime_error(
         "Cannot handle spectra with more than three components");
   }
+  // Components with fewer terms must not inherit terms of a previous component
+  spectrum_.assign(3, 0.0);
   const size_t spec_size = (spec.size() > 3 ? 3 : spec.size());
   for (size_t index = 0; index < spec_size; index++) {
     spectrum_[index] = spec[index];
-- 
2.43.0


From c0dc0e6ed95fb4b407d754653115ce8ac0e96be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 21/21] fix: write the time step of a dataset description with
 all its digits

---
 common/VdsPartDesc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/VdsPartDesc.cc b/common/VdsPartDesc.cc
index 2cd0424..ecabc77 100644
--- a/common/VdsPartDesc.cc
+++ b/common/VdsPartDesc.cc
@@ -67,7 +67,10 @@ void VdsPartDesc::write(std::ostream& os, const std::string& prefix) const {
      << MVTime(itsStartTime / 86400) << endl;
   os << prefix << "EndTime    = " << MVTime::Format(MVTime::YMD, 9)
      << MVTime(itsEndTime / 86400) << endl;
+  // The times of all parts are computed from the step; keep all its digits.
+  const streamsize stepPrec = os.precision(12);
   os << prefix << "StepTime   = " << itsStepTime << endl;
+  os.precision(stepPrec);
   if (!itsStartTimes.empty()) {
     os << prefix << "StartTimesDiff=[";
     streamsize oldPrec = os.precision(5);
-- 
2.43.0

