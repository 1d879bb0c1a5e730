From e7efb95e70fa0becce1161d79482dc7916fde280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 01/58] fix: do not read the VEV order past its end, and skip
 singlets when zeroing the EW VEVs

---
 src/models/ClassPotentialOrigin.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..fc5335f 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3515,18 +3515,17 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
-  for (std::size_t i = 0; i < NHiggs; i++)
+  for (std::size_t count = 0; count < nVEV; count++)
   {
-    double checkgauge = 0;
+    const std::size_t i = VevOrder[count];
+    double checkgauge   = 0;
     for (std::size_t j = 0; j < NGauge; j++)
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10) // true for doublet vevs
     {
       sol.at(count) = 0;
-      count += 1;
     }
   }
 }
@@ -3971,7 +3970,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < nVEV and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 815994bb0f0897b51be9b0401e43321fa95724d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 02/58] fix: keep the requested order when VEff is called with
 a VEV-space vector

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index fc5335f..627d379 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2973,7 +2973,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From d661d575d609a2b37e34237b157f1e7046bd2091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 03/58] fix: differentiate the Higgs masses at the Higgs mass
 matrix, not at its derivative

---
 src/models/ClassPotentialOrigin.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 627d379..ffb92b8 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2424,7 +2424,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp, diff);
+  const auto MassMatrix = HiggsMassMatrix(v, Temp, 0);
 
   double ZeroMass = std::pow(10, -5);
 
@@ -2466,19 +2466,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
   }
   else if (static_cast<std::size_t>(diff) <= NHiggs and diff > 0)
   {
-    MatrixXd Diff(NHiggs, NHiggs);
-    std::size_t x0 = diff - 1;
-    for (std::size_t i = 0; i < NHiggs; i++)
-    {
-      for (std::size_t j = 0; j < NHiggs; j++)
-      {
-        Diff(i, j) = Curvature_Higgs_L3[i][j][x0];
-        for (std::size_t k = 0; k < NHiggs; k++)
-        {
-          Diff(i, j) += Curvature_Higgs_L4[i][j][x0][k] * v[k];
-        }
-      }
-    }
+    const MatrixXd Diff = HiggsMassMatrix(v, Temp, diff);
     MatrixXcd MassCast(NHiggs, NHiggs);
     MassCast = MassMatrix;
     MatrixXcd DiffCast(NHiggs, NHiggs);
-- 
2.43.0


From ab9d0a4518497dae4340bbea4a31adb3649d57e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 04/58] fix: use the mass derivative of the thermal functions
 for every field derivative of V1Loop

---
 src/models/ClassPotentialOrigin.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index ffb92b8..0c1d0ab 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3056,27 +3056,27 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesVec.at(k + NHiggs) *
-               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += GaugeMassesVec.at(k + NGauge) *
-               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 2 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         res += -6 * QuarkMassesVec.at(k + NQuarks) *
-               fermion(QuarkMassesVec[k], Temp, diff);
+               fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
     }
     else
@@ -3085,25 +3085,25 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesZeroTempVec.at(k + NHiggs) *
-               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 3 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, diff);
+               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, 1);
       }
       double AddContQuark = 0;
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         AddContQuark += -2 * QuarkMassesVec.at(k + NQuarks) *
-                        fermion(QuarkMassesVec[k], Temp, diff);
+                        fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NColour; k++)
         res += AddContQuark;
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
 
       double VDebye = 0;
-- 
2.43.0


From 25582e3a75fac85f8b9aa77ecbd638d8fae7fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 05/58] fix: sign of the Coleman-Weinberg derivative for
 negative squared masses

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 0c1d0ab..0dc953d 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -115,7 +115,7 @@ double Class_Potential_Origin::boson(double MassSquared,
                                      int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), cb, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (diff == 0)
-- 
2.43.0


From 0bc2e9178a1f3e4d39ffec481f58df283acd48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 06/58] fix: derivatives of the thermal boson contribution
 aborted for negative squared masses

---
 src/models/ClassPotentialOrigin.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 0dc953d..c7947ee 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -118,6 +118,13 @@ double Class_Potential_Origin::boson(double MassSquared,
   if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
+  // The integrand of the derivative is singular for negative arguments
+  const auto Jboson = [Ratio](int d)
+  {
+    return Ratio < 0
+               ? ThermalFunctions::JbosonInterpolated(Ratio, d)
+               : ThermalFunctions::JbosonNumericalIntegration(Ratio, d);
+  };
   if (diff == 0)
   {
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
@@ -125,16 +132,13 @@ double Class_Potential_Origin::boson(double MassSquared,
   }
   else if (diff == 1)
   {
-    res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
+    res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) * Jboson(1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
-           (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 0) -
-            2 * Temp * MassSquared *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 1));
+           (4 * std::pow(Temp, 3) * Jboson(0) -
+            2 * Temp * MassSquared * Jboson(1));
   }
   return res;
 }
-- 
2.43.0


From 929713a725eb54145370bf2039aefc68ea12e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 07/58] fix: temperature derivative of V1Loop misses the one of
 the Debye corrected masses

---
 src/models/ClassPotentialOrigin.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index c7947ee..9ea664d 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3204,8 +3204,26 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
           VDebye += -std::pow(GaugeMassesZeroTempVec[k], 1.5);
       }
 
-      VDebye *= -1.0 / (12 * M_PI);
-      res += VDebye;
+      // the thermal masses depend on the temperature as well
+      double VDebyeMasses = 0;
+      for (std::size_t k = 0; k < NHiggs; k++)
+      {
+        if (HiggsMassesVec[k] > 0)
+        {
+          VDebyeMasses += 1.5 * HiggsMassesVec.at(k + NHiggs) *
+                          std::pow(HiggsMassesVec[k], 0.5);
+        }
+      }
+      for (std::size_t k = 0; k < NGauge; k++)
+      {
+        if (GaugeMassesVec[k] > 0)
+        {
+          VDebyeMasses += 1.5 * GaugeMassesVec.at(k + NGauge) *
+                          std::pow(GaugeMassesVec[k], 0.5);
+        }
+      }
+
+      res += -1.0 / (12 * M_PI) * (VDebye + Temp * VDebyeMasses);
     }
   }
 
-- 
2.43.0


From d307671087ef2887421f5c88322696dd602b13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 08/58] fix: integer division in the derivative of
 JInterpolatedHigh

---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0


From 339835c278cf7d6e6ac5aac10bb766a7652b8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 09/58] fix: the threshold for repeated eigenvalues was
 truncated to zero

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 9ea664d..9c8f7ef 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -898,7 +898,7 @@ Class_Potential_Origin::SecondDerivativeOfEigenvaluesNonRepeated(
   const std::size_t nRows = M.rows();
   const std::size_t nCols = M.cols();
 
-  const std::size_t EVThres = std::pow(10, -6);
+  const double EVThres = std::pow(10, -6);
 
   if (nCols != nRows)
   {
-- 
2.43.0


From 075c698bf51dddef98ab67f118bd3ff141758775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 10/58] fix: rotate the fermion couplings with the complex
 eigenvectors

---
 src/models/ClassPotentialOrigin.cpp | 37 +++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 9c8f7ef..6a8d8e9 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -1020,12 +1020,12 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
 
   MassLepton = MIJLeptons.conjugate() * MIJLeptons;
 
-  MatrixXd HiggsRot(NHiggs, NHiggs), GaugeRot(NGauge, NGauge),
-      QuarkRot(NQuarks, NQuarks), LepRot(NLepton, NLepton);
+  MatrixXd HiggsRot(NHiggs, NHiggs), GaugeRot(NGauge, NGauge);
+  MatrixXcd QuarkRot(NQuarks, NQuarks), LepRot(NLepton, NLepton);
   HiggsRot = MatrixXd::Identity(NHiggs, NHiggs);
   GaugeRot = MatrixXd::Identity(NGauge, NGauge);
-  QuarkRot = MatrixXd::Identity(NQuarks, NQuarks);
-  LepRot   = MatrixXd::Identity(NLepton, NLepton);
+  QuarkRot = MatrixXcd::Identity(NQuarks, NQuarks);
+  LepRot   = MatrixXcd::Identity(NLepton, NLepton);
 
   SelfAdjointEigenSolver<MatrixXd> es;
 
@@ -1055,12 +1055,12 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
   }
 
   SelfAdjointEigenSolver<MatrixXcd> esQuark(MassQuark);
-  QuarkRot = esQuark.eigenvectors().transpose().real();
+  QuarkRot = esQuark.eigenvectors().transpose();
   for (std::size_t i = 0; i < NQuarks; i++)
     MassSquaredQuark[i] = esQuark.eigenvalues().real()[i];
 
   SelfAdjointEigenSolver<MatrixXcd> esLepton(MassLepton);
-  LepRot = esLepton.eigenvectors().transpose().real();
+  LepRot = esLepton.eigenvectors().transpose();
   for (std::size_t i = 0; i < NLepton; i++)
     MassSquaredLepton[i] = esLepton.eigenvalues().real()[i];
 
@@ -1313,10 +1313,12 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
         {
           for (std::size_t bs = 0; bs < NQuarks; bs++)
           {
+            const std::complex<double> RotFerm =
+                std::conj(QuarkRot(a, as)) * QuarkRot(b, bs);
+            if (RotFerm == 0.0) continue;
             for (std::size_t is = 0; is < NHiggs; is++)
             {
-              double RotFac =
-                  QuarkRot(a, as) * QuarkRot(b, bs) * HiggsRot(i, is);
+              std::complex<double> RotFac = RotFerm * HiggsRot(i, is);
               Couplings_Quark_Higgs_21[a][b][i] +=
                   RotFac * LambdaQuark_3[as][bs][is];
             }
@@ -1329,12 +1331,15 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
           {
             for (std::size_t bs = 0; bs < NQuarks; bs++)
             {
+              const std::complex<double> RotFerm =
+                  std::conj(QuarkRot(a, as)) * QuarkRot(b, bs);
+              if (RotFerm == 0.0) continue;
               for (std::size_t is = 0; is < NHiggs; is++)
               {
                 for (std::size_t js = 0; js < NHiggs; js++)
                 {
-                  double RotFac = QuarkRot(a, as) * QuarkRot(b, bs) *
-                                  HiggsRot(i, is) * HiggsRot(j, js);
+                  std::complex<double> RotFac =
+                      RotFerm * HiggsRot(i, is) * HiggsRot(j, js);
                   Couplings_Quark_Higgs_22[a][b][i][j] +=
                       RotFac * LambdaQuark_4[as][bs][is][js];
                 }
@@ -1359,9 +1364,12 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
         {
           for (std::size_t bs = 0; bs < NLepton; bs++)
           {
+            const std::complex<double> RotFerm =
+                std::conj(LepRot(a, as)) * LepRot(b, bs);
+            if (RotFerm == 0.0) continue;
             for (std::size_t is = 0; is < NHiggs; is++)
             {
-              double RotFac = LepRot(a, as) * LepRot(b, bs) * HiggsRot(i, is);
+              std::complex<double> RotFac = RotFerm * HiggsRot(i, is);
               Couplings_Lepton_Higgs_21[a][b][i] +=
                   RotFac * LambdaLepton_3[as][bs][is];
             }
@@ -1374,12 +1382,15 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
           {
             for (std::size_t bs = 0; bs < NLepton; bs++)
             {
+              const std::complex<double> RotFerm =
+                  std::conj(LepRot(a, as)) * LepRot(b, bs);
+              if (RotFerm == 0.0) continue;
               for (std::size_t is = 0; is < NHiggs; is++)
               {
                 for (std::size_t js = 0; js < NHiggs; js++)
                 {
-                  double RotFac = LepRot(a, as) * LepRot(b, bs) *
-                                  HiggsRot(i, is) * HiggsRot(j, js);
+                  std::complex<double> RotFac =
+                      RotFerm * HiggsRot(i, is) * HiggsRot(j, js);
                   Couplings_Lepton_Higgs_22[a][b][i][j] +=
                       RotFac * LambdaLepton_4[as][bs][is][js];
                 }
-- 
2.43.0


From a1c56f1535bdfb82837f5d0dad529e84c81b97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 11/58] fix: set_All kept the couplings of the parameters set
 before

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 6a8d8e9..2163842 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -50,7 +50,7 @@ Class_Potential_Origin::~Class_Potential_Origin()
 void Class_Potential_Origin::set_All(const std::vector<double> &par,
                                      const std::vector<double> &parCT)
 {
-
+  resetbools();
   set_gen(par);
   if (!SetCurvatureDone) SetCurvatureArrays();
   set_CT_Pot_Par(parCT);
-- 
2.43.0


From 0dbcc4a386c05e79f8066d79bbd336b573e0bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 12/58] fix: order of the tadpole counterterm labels of
 CPintheDark

---
 src/models/ClassPotentialCPintheDark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d13d99b..ac717a5 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -85,10 +85,10 @@ std::vector<std::string> Class_Potential_CPintheDark::addLegendCT() const
   labels.push_back("dL6");
   labels.push_back("dL7");
   labels.push_back("dL8");
+  labels.push_back("dTCB");
   labels.push_back("dT1");
   labels.push_back("dT2");
   labels.push_back("dTCP");
-  labels.push_back("dTCB");
   labels.push_back("dTS");
   labels.push_back("dImL5");
 
-- 
2.43.0


From 2047bccab85bf7e8ed2e018ca2975b85fc43dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 13/58] fix: thermal integrals aborted for heavy particles

---
 src/ThermalFunctions/ThermalFunctions.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index c957bfc..85c5c68 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -81,7 +81,10 @@ double JbosonIntegrand(const double &x, const double &k, int diff)
   complex<double> TmpSqrt = std::sqrt(kcomplex * kcomplex + xcomplex);
   if (diff == 0)
   {
-    res = kcomplex * kcomplex * log(complex<double>(1, 0) - exp(-TmpSqrt));
+    // log1p keeps the precision for small exponentials
+    res = x >= 0 ? k * k * std::log1p(-exp(-std::sqrt(k * k + x)))
+                 : kcomplex * kcomplex *
+                       log(complex<double>(1, 0) - exp(-TmpSqrt));
   }
   else if (diff == 1)
   {
@@ -107,7 +110,10 @@ double JfermionIntegrand(const double &x, const double &k, int diff)
   complex<double> TmpSqrt = std::sqrt(kcomplex * kcomplex + xcomplex);
   if (diff == 0)
   {
-    res = kcomplex * kcomplex * log(complex<double>(1, 0) + exp(-TmpSqrt));
+    // log1p keeps the precision for small exponentials
+    res = x >= 0 ? k * k * std::log1p(exp(-std::sqrt(k * k + x)))
+                 : kcomplex * kcomplex *
+                       log(complex<double>(1, 0) + exp(-TmpSqrt));
   }
   else if (diff == 1)
   {
-- 
2.43.0


From 600ea0ea6520c270b1ea4141a9e937bd7248c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 14/58] fix: triple Higgs couplings were not updated after
 resetScale

---
 src/models/ClassPotentialOrigin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 2163842..d7b8bc7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3806,8 +3806,9 @@ Class_Potential_Origin::initModel(const std::vector<double> &par)
 
 std::vector<double> Class_Potential_Origin::resetScale(const double &newScale)
 {
-  scale      = newScale;
-  auto parCT = calc_CT();
+  scale                     = newScale;
+  CalculatedTripleCopulings = false;
+  auto parCT                = calc_CT();
   set_CT_Pot_Par(parCT);
 
   parCTStored = parCT;
-- 
2.43.0


From 2a8cfc52329c5e9e79e223427ecb37c041e587e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 15/58] fix: order of the N2HDM scalars depended on the point
 evaluated before

---
 src/models/ClassPotentialN2HDM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 2caed38..05b5738 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -847,6 +847,7 @@ void Class_Potential_N2HDM::TripleHiggsCouplings()
   {
     NeutralHiggs[i] = HiggsMasses[posN.at(i)];
   }
+  MSM = 0;
   for (int i = 0; i < 3; i++)
   {
     if (std::sqrt(NeutralHiggs[i]) < 126 and std::sqrt(NeutralHiggs[i]) > 124)
-- 
2.43.0


From cd8898d308aa621d550cd231edad8c69617c3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 16/58] fix: rounding of a massless fermion gave NaN in the
 Weinberg derivatives

---
 src/models/ClassPotentialOrigin.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index d7b8bc7..8334367 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -967,6 +967,7 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
 {
   if (!SetCurvatureDone) SetCurvatureArrays();
   const double ZeroMass = std::pow(10, -5);
+  const double ZeroMassFermion = std::pow(10, -10);
   MatrixXd MassHiggs(NHiggs, NHiggs), MassGauge(NGauge, NGauge);
   MatrixXcd MassQuark(NQuarks, NQuarks), MassLepton(NLepton, NLepton);
   MassHiggs  = MatrixXd::Zero(NHiggs, NHiggs);
@@ -1057,12 +1058,20 @@ void Class_Potential_Origin::CalculatePhysicalCouplings()
   SelfAdjointEigenSolver<MatrixXcd> esQuark(MassQuark);
   QuarkRot = esQuark.eigenvectors().transpose();
   for (std::size_t i = 0; i < NQuarks; i++)
+  {
     MassSquaredQuark[i] = esQuark.eigenvalues().real()[i];
+    if (std::abs(MassSquaredQuark[i]) < ZeroMassFermion)
+      MassSquaredQuark[i] = 0;
+  }
 
   SelfAdjointEigenSolver<MatrixXcd> esLepton(MassLepton);
   LepRot = esLepton.eigenvectors().transpose();
   for (std::size_t i = 0; i < NLepton; i++)
+  {
     MassSquaredLepton[i] = esLepton.eigenvalues().real()[i];
+    if (std::abs(MassSquaredLepton[i]) < ZeroMassFermion)
+      MassSquaredLepton[i] = 0;
+  }
 
   for (std::size_t a = 0; a < NGauge; a++)
   {
-- 
2.43.0


From 083dd7a9e34214892f1bc8dd073a1f1667e0b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 17/58] fix: thermal integrals aborted when the integrand
 underflows

---
 src/ThermalFunctions/ThermalFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 85c5c68..ab75abb 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -151,7 +151,7 @@ double JbosonNumericalIntegration(const double &x, int diff)
   double error, result;
   double upperLimit = 30;
   gsl_integration_qags(
-      &F, 0, upperLimit, 0, 1e-7, workspaceSize, w, &result, &error);
+      &F, 0, upperLimit, 1e-100, 1e-7, workspaceSize, w, &result, &error);
   gsl_integration_workspace_free(w);
   return result;
 }
@@ -178,7 +178,7 @@ double JfermionNumericalIntegration(const double &x, int diff)
   double error, result;
   double upperLimit = 30;
   gsl_integration_qags(
-      &F, 0, upperLimit, 0, 1e-7, workspaceSize, w, &result, &error);
+      &F, 0, upperLimit, 1e-100, 1e-7, workspaceSize, w, &result, &error);
   gsl_integration_workspace_free(w);
   return result;
 }
-- 
2.43.0


From 1429efbf5bada813d5588cfca13c9e81fa7ad82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 18/58] fix: fourth derivative kernel of one massless and three
 different massive states was zero

---
 src/models/ClassPotentialOrigin.cpp | 70 ++++++++++++++---------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 8334367..8105300 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -566,7 +566,41 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
     res = -1. / (2. * mas * mas);
   }
 
-  // 2) two of the three non-zero masses are equal
+  // 2) all three non-zero masses are different
+  else if (mas == 0 and mbs != mcs and mbs != mds and mcs != mds and
+           mbs != 0 and mcs != 0 and mds != 0)
+  {
+    C = 34;
+    // f0bcd
+    res = LogB / (mbs - mcs) / (mbs - mds) + LogC / (mcs - mbs) / (mcs - mds) +
+          LogD / (mds - mbs) / (mds - mcs);
+  }
+  else if (mbs == 0 and mas != mcs and mas != mds and mcs != mds and
+           mas != 0 and mcs != 0 and mds != 0)
+  {
+    C = 35;
+    // fa0cd
+    res = LogA / (mas - mcs) / (mas - mds) + LogC / (mcs - mas) / (mcs - mds) +
+          LogD / (mds - mas) / (mds - mcs);
+  }
+  else if (mcs == 0 and mas != mbs and mas != mds and mbs != mds and
+           mas != 0 and mbs != 0 and mds != 0)
+  {
+    C = 36;
+    // fab0d
+    res = LogA / (mas - mbs) / (mas - mds) + LogB / (mbs - mas) / (mbs - mds) +
+          LogD / (mds - mas) / (mds - mbs);
+  }
+  else if (mds == 0 and mas != mbs and mas != mcs and mbs != mcs and
+           mas != 0 and mbs != 0 and mcs != 0)
+  {
+    C = 37;
+    // fabc0
+    res = LogA / (mas - mbs) / (mas - mcs) + LogB / (mbs - mas) / (mbs - mcs) +
+          LogC / (mcs - mas) / (mcs - mbs);
+  }
+
+  // 3) two of the three non-zero masses are equal
   else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
   {
     if (mbs == mcs and mds != mbs)
@@ -664,40 +698,6 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
     }
   }
 
-  // 3) all three non-zero masses are different
-  else if (mas == 0 and mbs != mcs and mbs != mds and mcs != mds and
-           mbs != 0 and mcs != 0 and mds != 0)
-  {
-    C = 34;
-    // f0bcd
-    res = LogB / (mbs - mcs) / (mbs - mds) + LogC / (mcs - mbs) / (mcs - mds) +
-          LogD / (mds - mbs) / (mds - mcs);
-  }
-  else if (mbs == 0 and mas != mcs and mas != mds and mcs != mds and
-           mas != 0 and mcs != 0 and mds != 0)
-  {
-    C = 35;
-    // fa0cd
-    res = LogA / (mas - mcs) / (mas - mds) + LogC / (mcs - mas) / (mcs - mds) +
-          LogD / (mds - mas) / (mds - mcs);
-  }
-  else if (mcs == 0 and mas != mbs and mas != mds and mbs != mds and
-           mas != 0 and mbs != 0 and mds != 0)
-  {
-    C = 36;
-    // fab0d
-    res = LogA / (mas - mbs) / (mas - mds) + LogB / (mbs - mas) / (mbs - mds) +
-          LogD / (mds - mas) / (mds - mbs);
-  }
-  else if (mds == 0 and mas != mbs and mas != mcs and mbs != mcs and
-           mas != 0 and mbs != 0 and mcs != 0)
-  {
-    C = 37;
-    // fabc0
-    res = LogA / (mas - mbs) / (mas - mcs) + LogB / (mbs - mas) / (mbs - mcs) +
-          LogC / (mcs - mas) / (mcs - mbs);
-  }
-
   // all four masses are non-zero
   // 1) all four masses are equal
   else if (mas == mbs and mbs == mcs and mcs == mds and mas != 0)
-- 
2.43.0


From 46e1d795d896139ee5d480bef636edc254050ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 19/58] fix: triple Higgs couplings of the C2HDM were not
 updated after set_CT_Pot_Par

---
 src/models/ClassPotentialC2HDM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/ClassPotentialC2HDM.cpp b/src/models/ClassPotentialC2HDM.cpp
index e1e9aac..9722913 100644
--- a/src/models/ClassPotentialC2HDM.cpp
+++ b/src/models/ClassPotentialC2HDM.cpp
@@ -299,6 +299,7 @@ void Class_Potential_C2HDM::set_gen(const std::vector<double> &p)
 
 void Class_Potential_C2HDM::set_CT_Pot_Par(const std::vector<double> &p)
 {
+  CalculatedTripleCopulings = false;
   //	double *p = (double *)par;
 
   Du1CT     = p[0];
-- 
2.43.0


From 762848a5a58adbe02d82de4756a7f42ed0980f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 20/58] fix: right not-a-knot boundary of tk::spline cleared
 the left boundary value

---
 src/utility/spline/spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/spline/spline.cpp b/src/utility/spline/spline.cpp
index 9060bb9..1696d4a 100644
--- a/src/utility/spline/spline.cpp
+++ b/src/utility/spline/spline.cpp
@@ -178,7 +178,7 @@ void spline::set_points(const std::vector<double> &x,
       A(n - 1, n - 3) = -(x[n - 1] - x[n - 2]);
       A(n - 1, n - 2) = x[n - 1] - x[n - 3];
       A(n - 1, n - 1) = -(x[n - 2] - x[n - 3]);
-      rhs[0]          = 0.0;
+      rhs[n - 1]      = 0.0;
     }
     else
     {
-- 
2.43.0


From ce1c938fd057bbc686ef2ac023bb07c8aee95250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 21/58] fix: cvspline::add_point misplaced points and could
 read out of range or not end

---
 src/utility/const_velocity_spline.cpp | 55 +++++++--------------------
 1 file changed, 13 insertions(+), 42 deletions(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index 907e39d..afc89f0 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -160,54 +160,25 @@ void cvspline::add_point(const double &p,
   // The position "p" is going to be rewritten when the path is recompiled
   // It is necessary in order to disambiguate the order of the VEVs
 
-  if (p < 0)
-  {
-    phipath.insert(phipath.begin(), new_vev); // Add VEV
-    if (compile) initialize();                // Redo calculations
-    return;
-  }
   // We allow for p > L as an easy way to add a new false vacuum, no (good)
   // reason to do this tho
-  if (p > L)
-  {
-    phipath.push_back(new_vev); // Add VEV
-    if (compile) initialize();  // Redo calculations
-    return;
-  }
 
-  int lower = 0;              // Index of lower bound
-  int upper = phipath.size(); // Index of upper bound
-  int lower_temp, upper_temp; // Floor/Ceil of the middle point
+  // First knot which is not in front of the position "p"
+  const auto next =
+      std::lower_bound(vev_position.begin(), vev_position.end(), p);
 
-  while (upper - lower !=
-         1) // When upper - lower = 1 then we add the point at that position
+  if (next != vev_position.end() and *next == p)
   {
-
-    // Use the integer version of the bisection method
-    lower_temp = int(floor((upper + lower) / 2)); // Floor of the middle point
-    upper_temp = int(ceil((upper + lower) / 2));  // Ceiling of the middle point
-
-    if ((vev_position[upper] == upper_temp) or
-        (vev_position[lower] == lower_temp))
-    {
-      // Point already exists in the position "p", no point is added
-      BSMPT::Logger::Write(BSMPT::LoggingLevel::TransitionDetailed,
-                           "Point in that position already exists!");
-      return;
-    }
-    if (vev_position[lower_temp] < p)
-    {
-      lower = lower_temp;
-    }
-    if (vev_position[upper_temp] > p)
-    {
-      upper = upper_temp;
-    }
+    // Point already exists in the position "p", no point is added
+    BSMPT::Logger::Write(BSMPT::LoggingLevel::TransitionDetailed,
+                         "Point in that position already exists!");
+    return;
   }
-  phipath.insert(phipath.begin() + upper, new_vev); // Add the point
-  vev_position.insert(vev_position.begin() + upper,
-                      p); // Update the "vev_positions" list, very importante
-                          // to initialize() after all new VEVs are added.
+  phipath.insert(phipath.begin() + (next - vev_position.begin()),
+                 new_vev);      // Add the point
+  vev_position.insert(next, p); // Update the "vev_positions" list, very
+                                // importante to initialize() after all new
+                                // VEVs are added.
 
   if (compile) initialize(); // Redo calculations
 }
-- 
2.43.0


From 7c320c073afe234d39fe0343a78ef7aa6f4a38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 22/58] fix: cvspline of a path with three points was not a
 number

---
 src/utility/const_velocity_spline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index afc89f0..404ff7b 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -111,6 +111,10 @@ void cvspline::initialize() // Initalizes the class
 
   transposed_phi = BSMPT::Transpose(
       phipath); // Transposes the path, helpfull when computing the spline
+  // Three points do not determine a spline with not-a-knot boundaries, use a
+  // natural spline instead
+  const auto boundary =
+      num_points == 3 ? tk::spline::second_deriv : tk::spline::not_a_knot;
   splines = {}; // Reset splines list
   for (int i = 0; i < dim; i++)
   {
@@ -118,9 +122,9 @@ void cvspline::initialize() // Initalizes the class
                  transposed_phi[i],
                  tk::spline::cspline,
                  false,
-                 tk::spline::not_a_knot,
+                 boundary,
                  0.0,
-                 tk::spline::not_a_knot,
+                 boundary,
                  0.0);
     splines.push_back(s);
   }
-- 
2.43.0


From 12036dc12ef4a3ae15f26b142886eeb53f46fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 23/58] fix: length of a cvspline integrated the speed at the
 wrong parameter

---
 src/utility/const_velocity_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index 404ff7b..77bccf4 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -138,7 +138,7 @@ void cvspline::initialize() // Initalizes the class
   {
     double step = linL / num_inter;
     list_l.push_back(list_l.back() +
-                     Simpson_step(list_l.back(), list_l.back() + step));
+                     Simpson_step(list_x.back(), list_x.back() + step));
     list_x.push_back(list_x.back() + step);
   }
   L = list_l.back(); // Set complet length of the path
-- 
2.43.0


From 5a3fa90ac7724a77b23d70537e76c8492c8903ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 24/58] fix: the json option was ignored unless written in
 lower case

---
 src/utility/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/parser.cpp b/src/utility/parser.cpp
index 2f838bb..b07b1c0 100644
--- a/src/utility/parser.cpp
+++ b/src/utility/parser.cpp
@@ -197,7 +197,8 @@ void parser::add_input(const std::vector<std::string> &input)
   if (input.size() == 1)
   {
     std::string arg{input.at(0)};
-    auto [argument, value] = get_key_value(arg);
+    auto [key, value] = get_key_value(arg);
+    auto argument     = to_lower(key);
     if (argument == "help")
     {
       print_help();
-- 
2.43.0


From 4f4f1f937a92966274da56a062c61a51d1f0d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 25/58] fix: SetLogger read past the end of the known levels
 for other arguments

---
 src/utility/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 061282d..8ae7691 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -100,10 +100,11 @@ void SetLogger(const std::vector<std::string> &args)
         std::find_if(LoggingPrefixes.begin(),
                      LoggingPrefixes.end(),
                      [&el](auto pr) { return StringStartsWith(el, pr.first); });
-    if (pos != LoggingPrefixes.end())
+    if (pos == LoggingPrefixes.end())
     {
-      Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
+      continue;
     }
+    Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
     // Catch logginglevel::complete
     if ((pos->second == LoggingLevel::Complete) and
         (el.substr(pos->first.size()) == "true"))
-- 
2.43.0


From f0043a71a76217add61230bf7549d5bf07cc3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 26/58] fix: compute the missing peak frequency in
 CalcGWAmplitude

The first call for a source computed only the peak amplitude, the peak
frequency stayed zero and the amplitude was not a number.
---
 src/gravitational_waves/gw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 506ae1e..0321d8b 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -115,7 +115,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeSoundWave();
     }
-    else if (!this->data.fPeakSoundWave)
+    if (!this->data.fPeakSoundWave)
     {
       this->CalcPeakFrequencySoundWave();
     }
@@ -131,7 +131,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeTurbulence();
     }
-    else if (!this->data.fPeakTurbulence)
+    if (!this->data.fPeakTurbulence)
     {
       this->CalcPeakFrequencyTurbulence();
     }
-- 
2.43.0


From d8bef9b741549152e695193a5a6bc88a51591c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 27/58] fix: integrate the signal-to-noise ratio over log(f)

A spectrum that is narrow compared to the band made the quadrature fail
and GSL abort the program.
---
 src/gravitational_waves/gw.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 0321d8b..76d46ad 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -180,14 +180,15 @@ double h2OmSens(const double f)
          powspec_density(f);
 }
 
-double snr_integrand(double f, void *params)
+double snr_integrand(double logf, void *params)
 {
   class GravitationalWave &obj = *static_cast<GravitationalWave *>(params);
 
+  double f    = std::exp(logf);
   double func = std::pow(
       obj.CalcGWAmplitude(f, obj.data.swON, obj.data.turbON) / (h2OmSens(f)),
       2);
-  return func;
+  return f * func;
 }
 
 struct resultErrorPair
@@ -199,6 +200,7 @@ Nintegrate_SNR(GravitationalWave &obj, const double fmin, const double fmax)
   std::size_t workspace_size = 1000;
   gsl_integration_workspace *w =
       gsl_integration_workspace_alloc(workspace_size);
+  // The spectra extend over many orders of magnitude, integrate over log(f)
   gsl_function F;
   F.function = &snr_integrand;
   F.params   = static_cast<void *>(&obj);
@@ -206,8 +208,8 @@ Nintegrate_SNR(GravitationalWave &obj, const double fmin, const double fmax)
   struct resultErrorPair res;
 
   gsl_integration_qags(&F,
-                       fmin,
-                       fmax,
+                       std::log(fmin),
+                       std::log(fmax),
                        abs_err,
                        rel_err,
                        workspace_size,
-- 
2.43.0


From 2f7886ae3da9755879a1d077614ace9f2e6e4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 28/58] fix: use the exponent 11/3 in the turbulence spectrum

11 / 3 is an integer division.
---
 src/gravitational_waves/gw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 76d46ad..32b8862 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -138,7 +138,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
 
     res += this->data.h2OmegaPeakTurbulence *
            std::pow(f / this->data.fPeakTurbulence, 3) /
-           std::pow(1 + f / this->data.fPeakTurbulence, 11 / 3) /
+           std::pow(1 + f / this->data.fPeakTurbulence, 11. / 3) /
            (1 + 8 * M_PI * f / this->data.Hstar);
   }
 
-- 
2.43.0


From 7897d412cc1c61ee2fb84a677482998ca9de2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 29/58] fix: compare the images of the true vacuum with the
 false vacuum

CalculateOptimalDiscreteSymmetry compared every group element with the
same vector and kept the first one.
---
 src/bounce_solution/bounce_solution.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..402d1ef 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -76,9 +76,9 @@ void BounceSolution::CalculateOptimalDiscreteSymmetry()
   std::stringstream ss;
   ss << "Calculating optimal symmetry\n";
 
-  Eigen::VectorXd TrueVacuum = Eigen::Map<Eigen::VectorXd, Eigen::Unaligned>(
-      phase_pair.true_phase.Get(Tc).point.data(),
-      phase_pair.true_phase.Get(Tc).point.size());
+  std::vector<double> TruePoint = phase_pair.true_phase.Get(Tc).point;
+  Eigen::VectorXd TrueVacuum    = Eigen::Map<Eigen::VectorXd, Eigen::Unaligned>(
+      TruePoint.data(), TruePoint.size());
   std::vector<double> FalseVacuum = phase_pair.false_phase.Get(Tc).point;
 
   // Set the optimal discrete symmetro to the identity matrix
@@ -89,9 +89,9 @@ void BounceSolution::CalculateOptimalDiscreteSymmetry()
   for (auto GroupElement : GroupElements)
   {
     Eigen::VectorXd CandidateTrueVacuum = GroupElement * TrueVacuum;
-    std::vector<double> DeltaVEV        = FalseVacuum;
+    std::vector<double> DeltaVEV;
     for (std::size_t el = 0; el < FalseVacuum.size(); el++)
-      DeltaVEV.push_back(FalseVacuum[el] - TrueVacuum[el]);
+      DeltaVEV.push_back(FalseVacuum[el] - CandidateTrueVacuum[el]);
 
     if (L2NormVector(DeltaVEV) < MaximumDistance)
     {
-- 
2.43.0


From bf2750a123da6c1b408aaa8ead61e76110b4acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 30/58] fix: accept the temperature if the vacuum fraction is
 met early

The bisection stopped once the fraction was met, before the temperature
interval was small enough, and reported a failure.
---
 src/bounce_solution/bounce_solution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 402d1ef..ec75190 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -791,6 +791,12 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
         break;
       }
     }
+    // The fraction is met before the interval is small enough
+    if (almost_the_same(int_at_false_vac_frac,
+                        IatT,
+                        RelativeErrorInCalcTempAtFalseVacFraction *
+                            MarginOfCalcTempAtFalseVacFractionBeforeFailure))
+      res_Temp = T_middle;
   }
   // Not numerically stable
   return res_Temp;
-- 
2.43.0


From f0438391011fbcb3b39ccc8f6130f27146bf45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 31/58] fix: integrate the tunneling rate only where it is
 known

The rate is zero above the last solution, the quadrature could miss a
narrow range below.
---
 src/bounce_solution/bounce_solution.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index ec75190..853a354 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -922,15 +922,17 @@ struct resultErrorPair Nintegrate_Outer(BounceSolution &obj)
 
   struct resultErrorPair res;
 
-  gsl_integration_qags(&F,
-                       obj.GetStoredTemp(),
-                       obj.GetCriticalTemp(),
-                       abs_err,
-                       rel_err,
-                       workspace_size,
-                       w,
-                       &res.result,
-                       &res.error);
+  gsl_integration_qags(
+      &F,
+      obj.GetStoredTemp(),
+      // the tunneling rate is zero above the last solution
+      std::min(obj.GetCriticalTemp(), obj.SolutionList.back().T),
+      abs_err,
+      rel_err,
+      workspace_size,
+      w,
+      &res.result,
+      &res.error);
 
   gsl_integration_workspace_free(w);
 
-- 
2.43.0


From 17c51267b0578e0cd8b5aab582c4c79385e0dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 32/58] fix: do not abort on roundoff in the bubble integrals

---
 include/BSMPT/bounce_solution/bounce_solution.h | 1 +
 src/bounce_solution/bounce_solution.cpp         | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..10af8c1 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -19,6 +19,7 @@
 #include <Eigen/Dense>
 #include <algorithm>             // std::max
 #include <gsl/gsl_deriv.h>       // numerical derivative
+#include <gsl/gsl_errno.h>       // gsl_set_error_handler_off
 #include <gsl/gsl_integration.h> // numerical integration
 
 namespace BSMPT
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 853a354..d2f4681 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -910,6 +910,9 @@ struct resultErrorPair Nintegrate_Inner(BounceSolution &obj,
 
 struct resultErrorPair Nintegrate_Outer(BounceSolution &obj)
 {
+  // roundoff errors are reported by the error estimate, do not abort
+  gsl_set_error_handler_off();
+
   double abs_err = obj.AbsErr;
   double rel_err = obj.RelErr;
 
-- 
2.43.0


From 70da84470f2b2309ab7e7bb2dfe4e11892b6c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:32 +0000
Subject: [PATCH 33/58] fix: initialise the position of the true minimum of the
 bounce path

---
 include/BSMPT/bounce_solution/action_calculation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BSMPT/bounce_solution/action_calculation.h b/include/BSMPT/bounce_solution/action_calculation.h
index 3972f94..fae659f 100644
--- a/include/BSMPT/bounce_solution/action_calculation.h
+++ b/include/BSMPT/bounce_solution/action_calculation.h
@@ -57,7 +57,7 @@ private:
    * @brief Store the value of backwards propagation
    *
    */
-  double Initial_lmin;
+  double Initial_lmin = 0;
 
   /**
    * @brief Potential at the false vacuum in the unshifted potential (in the
-- 
2.43.0


From cba3f529d0cf18b4dd70adec199eeccaf6ad5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 34/58] fix: keep the bounce profile of one-dimensional
 potentials

---
 src/bounce_solution/action_calculation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index b1fd1eb..37ce4d5 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -1740,6 +1740,10 @@ void BounceActionInt::CalculateAction(
                   dl_drho,
                   d2l_drho2,
                   error); // Solves bounce equation once
+    // Save solution
+    rho_sol    = rho;
+    l_sol      = l;
+    dldrho_sol = dl_drho;
   }
 
   if (StateOf1DIntegration == Integration1DStatus::NotConverged)
-- 
2.43.0


From 2c548b51a1ddb31117762311b2fafcfd3b3b7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:29 +0000
Subject: [PATCH 35/58] fix: report success of the bounce action calculation

---
 src/bounce_solution/action_calculation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index 37ce4d5..cf14962 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -1547,6 +1547,8 @@ void BounceActionInt::CalculateAction(
     double error) // Alpha = 2 at T > 0 and Alpha = 3 at T = 0
 {
   std::stringstream ss;
+  StateOfBounceActionInt = ActionStatus::NotCalculated;
+
   if (Calc_d2Vdl2(Spline.L) < 0)
   {
     StateOfBounceActionInt = ActionStatus::FalseVacuumNotMinimum;
@@ -1771,6 +1773,8 @@ void BounceActionInt::CalculateAction(
 
   Action = KineticPart + PotentialPart;
 
+  StateOfBounceActionInt = ActionStatus::Success;
+
   // Print warning the actions dffer by 10%
   if (abs(Action / KineticAction - 1) > 0.1)
   {
-- 
2.43.0


From 78c40c75007efd54cdad39db24becb3af7ebc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 36/58] fix: no infinite step where the bounce integration is
 exact

---
 src/bounce_solution/action_calculation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index cf14962..e7f5283 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -687,13 +687,17 @@ void BounceActionInt::IntegrateBounce(double l0,
     dl_drho.push_back(next_l_dldrho[1]);
     d2l_drho2.push_back(d2ldrho2(l.back(), rho.back(), dl_drho.back()));
 
+    // The error can vanish (constant acceleration), do not make an infinite
+    // step
+    const double growth = delta1 > 0 ? std::pow(delta0 / delta1, 0.2) : 10;
+
     if (max_step > 0)
     {
-      step = std::min((step * std::pow(delta0 / delta1, 0.2)), max_step);
+      step = std::min(step * growth, max_step);
     }
     else
     {
-      step = step * std::pow(delta0 / delta1, 0.2) / 2;
+      step = step * growth / 2;
     }
   }
   if ((abs(dl_drho.back()) <= error) && (abs(l.back() - L) / L <= error))
-- 
2.43.0


From 9c2a76bbc3ffa42cbcc20682777726198b5bff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 37/58] fix: reduce a vev to the same sector whichever image it
 is given as

---
 src/minimum_tracer/minimum_tracer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..f092f63 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -701,16 +701,18 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
 {
   // Saveguard if GroupElements is not populated
   if (GroupElements.size() == 0) return;
-  int MaximumMeasure = -1;
+  // The group elements act on the given point, not on the best image so far
+  const std::vector<double> original = vev;
+  int MaximumMeasure                 = -1;
   char *ptr;
   std::string BinaryNumber;
-  for (auto GroupElement : GroupElements)
+  for (const auto &GroupElement : GroupElements)
   {
     // Clean buffer
     BinaryNumber.clear();
     // Feed buffer
     for (size_t i = 0; i < vev.size(); i++)
-      BinaryNumber.append(std::to_string(vev[i] * GroupElement(i, i) >=
+      BinaryNumber.append(std::to_string(original[i] * GroupElement(i, i) >=
                                          1e-5)); // Heaviside function
 
     // Converto to decimal and compare
@@ -718,7 +720,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
     {
       MaximumMeasure = std::strtol(BinaryNumber.c_str(), &ptr, 2);
       for (size_t i = 0; i < vev.size(); i++)
-        vev[i] *= GroupElement(i, i); // Transform vev
+        vev[i] = original[i] * GroupElement(i, i); // Transform vev
     }
 
     // Reached maximum measure
-- 
2.43.0


From d635c2e2588b8683d1eacf5272d63e302c244ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 38/58] fix: exchange symmetries are no flat directions

---
 src/minimum_tracer/minimum_tracer.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index f092f63..0561927 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -787,7 +787,7 @@ void MinimumTracer::FindFlatDirections()
   // initializsation of vector NonFlatDirections
   NonFlatDirections = std::vector<int>(nvev, 1);
 
-  double res_1, res_2;
+  double res_1, res_2, res_3;
 
   // 3-dimensional flat directions (SO(3))
   for (std::size_t i = 0; i < nvev; i++)
@@ -836,10 +836,19 @@ void MinimumTracer::FindFlatDirections()
                     this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
                 if (almost_the_same(res_1, res_2, 1e-8))
                 {
-                  NonFlatDirections.at(j) = 0; // choose one point in sphere
-                  NonFlatDirections.at(k) = 0; // choose one point in sphere
-                  flat_dirs_found         = true;
-                  flat_3D_dirs.push_back(std::vector<std::size_t>({i, j, k}));
+                  // point on the sphere that is no permutation of the others
+                  point.at(i) = 150;
+                  point.at(j) = 150;
+                  point.at(k) = std::sqrt(5004);
+                  res_1       = this->modelPointer->VEff(
+                      this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
+                  if (almost_the_same(res_1, res_2, 1e-8))
+                  {
+                    NonFlatDirections.at(j) = 0; // choose one point in sphere
+                    NonFlatDirections.at(k) = 0; // choose one point in sphere
+                    flat_dirs_found         = true;
+                    flat_3D_dirs.push_back(std::vector<std::size_t>({i, j, k}));
+                  }
                 }
               }
             }
@@ -868,10 +877,16 @@ void MinimumTracer::FindFlatDirections()
       point.at(j) = 2;
       res_2       = this->modelPointer->VEff(
           this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
+      // point on the circle that is no permutation of the others
+      point.at(i) = 60;
+      point.at(j) = std::sqrt(6404);
+      res_3       = this->modelPointer->VEff(
+          this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
       point.at(i) = 1;
       point.at(j) = 1;
 
-      if (almost_the_same(res_1, res_2, 1e-8))
+      if (almost_the_same(res_1, res_2, 1e-8) and
+          almost_the_same(res_1, res_3, 1e-8))
       {
         NonFlatDirections.at(j) = 0; // choose one point in circle
         flat_dirs_found         = true;
-- 
2.43.0


From 9b5819d015352e6d1b273ade695c511158c7be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 39/58] fix: sign of the stationary point at high temperature

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 0561927..ea16af8 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1261,7 +1261,7 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
     return 1;
 
   Eigen::VectorXd StationaryPoint =
-      HessianEigen.colPivHouseholderQr().solve(GradientEigen);
+      HessianEigen.colPivHouseholderQr().solve(-GradientEigen);
 
   // Locate global stationary point
   point = std::vector<double>(StationaryPoint.data(),
-- 
2.43.0


From eccf367d79c4c56efb33104fc97af085f346f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:26 +0000
Subject: [PATCH 40/58] fix: critical temperature of phases that only touch

---
 src/minimum_tracer/minimum_tracer.cpp | 46 +++++++++++++++------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index ea16af8..55affe2 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1316,27 +1316,31 @@ void CoexPhases::CalculateTc()
   auto deltaV = [&](double T)
   { return true_phase.Get(T).potential - false_phase.Get(T).potential; };
 
-  /// Ploting deltaV
-  std::stringstream ss;
-  AsciiPlotter plotter("dV(T) = V(True Vacuum) - V(False Vacuum) | Phase " +
-                           std::to_string(false_phase.id) + " -> Phase " +
-                           std::to_string(true_phase.id),
-                       100,
-                       35);
-  std::vector<double> plotT, plotDeltaV, plot0;
-  for (double T = T_low; T <= T_high; T += (T_high - T_low) / 100)
-  {
-    plotT.push_back(T);
-    plotDeltaV.push_back(deltaV(T));
-    plot0.push_back(0);
-  }
-  plotter.addPlot(plotT, plot0, "", '.');
-  plotter.addPlot(plotT, plotDeltaV, "dV", '*');
-
-  plotter.xlabel("T (GeV)");
-  plotter.ylabel("dV (GeV)");
-  plotter.show(ss);
-  Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
+  /// Ploting deltaV, if the phases do more than touch
+  if (T_high > T_low)
+  {
+    std::stringstream ss;
+    AsciiPlotter plotter("dV(T) = V(True Vacuum) - V(False Vacuum) | Phase " +
+                             std::to_string(false_phase.id) + " -> Phase " +
+                             std::to_string(true_phase.id),
+                         100,
+                         35);
+    std::vector<double> plotT, plotDeltaV, plot0;
+    for (int i = 0; i <= 100; i++)
+    {
+      const double T = T_low + i * (T_high - T_low) / 100;
+      plotT.push_back(T);
+      plotDeltaV.push_back(deltaV(T));
+      plot0.push_back(0);
+    }
+    plotter.addPlot(plotT, plot0, "", '.');
+    plotter.addPlot(plotT, plotDeltaV, "dV", '*');
+
+    plotter.xlabel("T (GeV)");
+    plotter.ylabel("dV (GeV)");
+    plotter.show(ss);
+    Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
+  }
 
   if (deltaV(T_high) > 0 and deltaV(T_low) > 0)
   {
-- 
2.43.0


From fe2503fb166e092021b4aee3e805d68f5488ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 41/58] fix: search box of NLopt for negative vevs beyond 300
 GeV

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 8e8f767..1ffbc31 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -42,7 +42,7 @@ NLOPTReturnType MinimizeUsingNLOPT(const Class_Potential_Origin &model,
   {
     if (std::abs(model.get_vevTreeMin(i)) > UpperBound.at(i))
     {
-      UpperBound.at(i) = 1.5 * model.get_vevTreeMin(i);
+      UpperBound.at(i) = 1.5 * std::abs(model.get_vevTreeMin(i));
     }
     if (-std::abs(model.get_vevTreeMin(i)) < LowerBound.at(i))
     {
@@ -99,7 +99,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
     {
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) > UpperBound.at(i))
       {
-        UpperBound.at(i) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) < LowerBound.at(i))
       {
@@ -112,7 +113,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) >
           UpperBound.at(i - 1))
       {
-        UpperBound.at(i - 1) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i - 1) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) <
           LowerBound.at(i - 1))
-- 
2.43.0


From d092180ff6f4a8a76a47ba859a6abc454aea05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 42/58] fix: no starting point is taken from an empty queue

---
 src/minimizer/MinimizeGSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..5cc05f5 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From b7a14f60c5a04e505b781003c61b15c158464ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 43/58] fix: following minima stops at the final temperature

---
 src/minimizer/Minimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 09989da..9765133 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -532,8 +532,7 @@ MinimaDevelopmentWithTemperature(
 
   auto StoppingCriteria = [&](const double &Temp)
   {
-    double epsilon = std::abs((FinalTemperature - StartingTemperature) /
-                              StepsizeTemperature) *
+    double epsilon = std::abs(StepsizeTemperature) *
                      1e-2; // because 1+1 = 2.0000000000000001
     if (StartingTemperature < FinalTemperature)
     {
-- 
2.43.0


From 0d9d3e8635e214c9add35c7a3b19d09ef91e523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 44/58] fix: solve the plane equation for the largest component

---
 src/minimizer/MinimizePlane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/minimizer/MinimizePlane.cpp b/src/minimizer/MinimizePlane.cpp
index f0969ce..93d72bd 100644
--- a/src/minimizer/MinimizePlane.cpp
+++ b/src/minimizer/MinimizePlane.cpp
@@ -146,10 +146,12 @@ MinimizePlane(const std::vector<double> &basepoint,
   int IndexNorm = -1;
   for (std::size_t i = 0; i < normalvector.size(); i++)
   {
-    if (std::abs(normalvector.at(i)) >= 1e-3)
+    // Use the largest component, the plane is solved for it
+    if (std::abs(normalvector.at(i)) >= 1e-3 and
+        (IndexNorm == -1 or
+         std::abs(normalvector.at(i)) > std::abs(normalvector.at(IndexNorm))))
     {
       IndexNorm = static_cast<int>(i);
-      break;
     }
   }
   if (IndexNorm == -1)
-- 
2.43.0


From da41c0ed42db6c1b9a47534a6923de1c31272863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:03 +0000
Subject: [PATCH 45/58] fix: keep an exception of NLopt inside of
 FindLocalMinimum

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 1ffbc31..5bd75fb 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -154,13 +154,22 @@ FindLocalMinimum(const std::shared_ptr<Class_Potential_Origin> &model,
   opt.set_xtol_rel(1e-4);
 
   double minf;
-  auto result  = opt.optimize(VEV, minf);
-  bool Success = (result == nlopt::SUCCESS) or
-                 (result == nlopt::FTOL_REACHED) or
-                 (result == nlopt::XTOL_REACHED);
-  NLOPTReturnType res(VEV, minf, result, Success);
-
-  return res;
+  try
+  {
+    auto result  = opt.optimize(VEV, minf);
+    bool Success = (result == nlopt::SUCCESS) or
+                   (result == nlopt::FTOL_REACHED) or
+                   (result == nlopt::XTOL_REACHED);
+    NLOPTReturnType res(VEV, minf, result, Success);
+    return res;
+  }
+  catch (std::exception &e)
+  {
+    (void)e;
+    NLOPTReturnType res(
+        std::vector<double>(), 0, nlopt::result::FORCED_STOP, false);
+    return res;
+  }
 }
 
 } // namespace LibNLOPT
-- 
2.43.0


From 2e4e29eb259a7a14bf8329f4bb164ebcde4e9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 46/58] fix: use the requested false vacuum fractions for
 percolation and completion

---
 include/BSMPT/bounce_solution/bounce_solution.h | 6 ++++++
 src/bounce_solution/bounce_solution.cpp         | 3 ++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 10af8c1..cc96b60 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -77,6 +77,12 @@ public:
    */
   bool percolation_temp_set = false;
 
+  /**
+   * @brief percolation_false_vac_frac false vacuum fraction at the percolation
+   * temperature, as last requested
+   */
+  double percolation_false_vac_frac = 0.71;
+
   /**
    * @brief set to true if completion temperature is set
    */
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index d2f4681..a4c6fb9 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -804,6 +804,7 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
 
 void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
+  percolation_false_vac_frac = false_vac_frac;
   if (status_bounce_sol == StatusGW::Success)
   {
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
@@ -965,7 +966,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(percolation_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..733591e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -204,7 +204,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -227,7 +227,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From 50a8d8a7d2b14b8cfc9a5a06f455d7c89bbbf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 47/58] fix: use and report the wall velocity given by the user

---
 src/bounce_solution/bounce_solution.cpp     | 1 +
 src/transition_tracer/transition_tracer.cpp | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index a4c6fb9..8aa063e 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -36,6 +36,7 @@ BounceSolution::BounceSolution(
   Tm         = phase_pair.T_low;
 
   UserDefined_vwall               = UserDefined_vwall_in;
+  if (UserDefined_vwall >= 0) vwall = UserDefined_vwall;
   epsturb                         = UserDefined_epsturb_in;
   MaxPathIntegrations             = MaxPathIntegrations_in;
   NumberOfInitialScanTemperatures = NumberOfInitialScanTemperatures_in;
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 733591e..1859b60 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -277,9 +277,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Start GW parameters calculation.");
 
-                new_gw_data.vwall = bounce.GetWallVelocity();
-
                 bounce.CalculatePTStrength();
+                new_gw_data.vwall       = bounce.GetWallVelocity();
                 new_gw_data.alpha       = bounce.GetPTStrength();
                 new_gw_data.beta_over_H = bounce.GetInvTimeScale();
 
-- 
2.43.0


From 8c7a7ab7bbbd271d04ea4199395db4cb783d507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 48/58] fix: no success without a percolation or completion
 temperature

---
 src/bounce_solution/bounce_solution.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 8aa063e..3ac9248 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -821,10 +821,14 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
       }
       percolation_temp_set = true;
       SetBounceSol();
-      Tperc       = CalcTempAtFalseVacFraction(false_vac_frac);
+      Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
+    }
+
+    if (Tperc > 0)
+    {
       status_perc = BSMPT::StatusTemperature::Success;
     }
-    else if (Tperc < 0)
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the percolation temperature failed.");
@@ -850,9 +854,13 @@ void BounceSolution::CalculateCompletionTemp(const double &false_vac_frac)
       }
       completion_temp_set = true;
       Tcompl              = CalcTempAtFalseVacFraction(false_vac_frac);
-      status_compl        = BSMPT::StatusTemperature::Success;
     }
-    else if (Tcompl < 0)
+
+    if (Tcompl > 0)
+    {
+      status_compl = BSMPT::StatusTemperature::Success;
+    }
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the completion temperature failed.");
-- 
2.43.0


From 29f1529a2e1e811298f90e94fe8e7b4c47989be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 49/58] fix: end the search for intermediate phases at the
 temperature bounds

---
 src/minimum_tracer/minimum_tracer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 55affe2..688c475 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1998,6 +1998,16 @@ void Vacuum::MultiStepPTMode1(const std::vector<double> &LowTempPoint_in,
     while (not whole_temp_region_traced and global_minimum_overlap and
            not error_detected)
     {
+      if (tmp_high_lowTempPhase > T_high or tmp_low_highTempPhase < T_low)
+      {
+        Logger::Write(LoggingLevel::MinTracerDetailed,
+                      "No intermediate phase left to look for, no coverage "
+                      "achieved.");
+        status_vacuum  = StatusTracing::NoCoverage;
+        error_detected = true;
+        continue;
+      }
+
       Phase LowTempPhaseMiddle(tmp_high_lowTempPhase, T_low, T_high, MinTracer);
       Phase HighTempPhaseMiddle(
           tmp_low_highTempPhase, T_low, T_high, MinTracer);
-- 
2.43.0


From c87b790da7d40e79bd7af4378ec082fd587c3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 50/58] fix: do not trace forever a phase that ends at its
 starting temperature

---
 src/minimum_tracer/minimum_tracer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 688c475..23e7a54 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2511,7 +2511,7 @@ void Vacuum::MultiStepPTTracer(const double &Temp, const double &deltaT)
       Phase HTphase(HTMin.point, T_high, T_low, MinTracer);
       addPhase(HTphase);
       print(HTphase);
-      MultiStepPTTracer(HTphase.T_low, -1);
+      MultiStepPTTracer(HTphase.T_low < Temp ? HTphase.T_low : Temp - 1, -1);
       return;
     }
   }
@@ -2533,7 +2533,8 @@ void Vacuum::MultiStepPTTracer(const double &Temp, const double &deltaT)
     addPhase(phase);
     print(phase);
 
-    MultiStepPTTracer(phase.T_low, -1);
+    // A phase that cannot be followed below Temp must not stop the descent
+    MultiStepPTTracer(phase.T_low < Temp ? phase.T_low : Temp - 1, -1);
   }
   else // found last traced phase again
   {
-- 
2.43.0


From 19177cd30e79aaebc99cec5193584a00a5e71da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:09 +0000
Subject: [PATCH 51/58] fix: no gravitational waves without a percolation
 temperature

---
 src/transition_tracer/transition_tracer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 1859b60..0165f7b 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -271,7 +271,9 @@ TransitionTracer::TransitionTracer(user_input &input)
                 trans_status = bounce.status_compl;
               }
 
+              // the strength is evaluated at the percolation temperature
               if (trans_status == BSMPT::StatusTemperature::Success &&
+                  bounce.status_perc == BSMPT::StatusTemperature::Success &&
                   input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
@@ -318,12 +320,11 @@ TransitionTracer::TransitionTracer(user_input &input)
                   new_gw_data.status_gw = gw.data.status;
                 }
               }
-              else if (input.gw_calculation &&
-                       trans_status != BSMPT::StatusTemperature::Success)
+              else if (input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
-                              "Requested transition temperature could not be "
-                              "calculated.");
+                              "Requested transition temperature or percolation "
+                              "temperature could not be calculated.");
               }
             }
             else
-- 
2.43.0


From 7351ea0e3bc785866c433f7651a12802021dde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:07 +0000
Subject: [PATCH 52/58] fix: do not take the end of the input file for a
 parameter point

---
 src/prog/NLOVEV.cpp     | 4 +---
 src/prog/PotPlotter.cpp | 4 +---
 src/prog/VEVEVO.cpp     | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 8cd51f7..ce88880 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -80,10 +80,8 @@ try
   std::shared_ptr<BSMPT::Class_Potential_Origin> modelPointer =
       ModelID::FChoose(args.Model, SMConstants);
   std::vector<double> Check;
-  while (true)
+  while (getline(infile, linestr))
   {
-
-    getline(infile, linestr);
     if (linecounter > args.LastLine) break;
     if (linecounter == 1)
     {
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec4d8da..ec88ba3 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -89,10 +89,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 2903286..f3d9710 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -81,10 +81,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
-- 
2.43.0


From 33cb2e71f32a7fa66506ae834d8220744e4a8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:07 +0000
Subject: [PATCH 53/58] fix: do not take the legend for a parameter point

---
 src/prog/CalcGW.cpp       | 3 ++-
 src/prog/CalcTemps.cpp    | 3 ++-
 src/prog/MinimaTracer.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index df90892..45c1f48 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -103,7 +103,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1) // line 1 is the legend
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index c8c3efa..ccea6a1 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -100,7 +100,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1) // line 1 is the legend
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 3214037..44a41ce 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -91,7 +91,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1) // line 1 is the legend
     {
       Logger::Write(LoggingLevel::ProgDetailed,
                     "Currently at line " + std::to_string(linecounter));
-- 
2.43.0


From 3410638ea736441600e6ab5abe8fcdd1391f5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:07 +0000
Subject: [PATCH 54/58] fix: accept --checkewsr=keep_ewsr in CalcTemps

---
 src/prog/CalcTemps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index ccea6a1..11a8c45 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -335,7 +335,7 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "Invalid choice for num_check_pts.");
     return false;
   }
-  if (CheckEWSymmetryRestoration > 2 or CheckEWSymmetryRestoration < 0)
+  if (CheckEWSymmetryRestoration > 3 or CheckEWSymmetryRestoration < 0)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid choice for CheckEWSymmetryRestoration.");
-- 
2.43.0


From d503ba695bb257cc1d8ce31dce8db0f7ac2edbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:07 +0000
Subject: [PATCH 55/58] fix: reject invalid values of the options of CalcGW,
 CalcTemps and MinimaTracer

---
 src/prog/CalcGW.cpp       | 23 +++++++++++++++++++++--
 src/prog/CalcTemps.cpp    |  8 ++++++++
 src/prog/MinimaTracer.cpp |  4 ++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index 45c1f48..f8068c2 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -322,12 +322,18 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "firstline or lastline not set.");
     return false;
   }
+  if (firstline < 0 or lastline < 0)
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Invalid input for first- or lastline.");
+    return false;
+  }
   if (firstline > lastline)
   {
-    Logger::Write(LoggingLevel::Default, "firstline is smaller then lastline.");
+    Logger::Write(LoggingLevel::Default, "lastline is smaller then firstline.");
     return false;
   }
-  if (templow > temphigh)
+  if (templow >= temphigh)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
@@ -385,6 +391,7 @@ bool CLIOptions::good() const
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid transition temperature given.");
+    return false;
   }
 
   return true;
@@ -529,6 +536,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       WhichTransitionTemperature = 4;
     }
+    else
+    {
+      WhichTransitionTemperature = 0; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -557,6 +568,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      CheckNLOStability = -1; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -583,6 +598,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 11a8c45..ea7923f 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -497,6 +497,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      CheckNLOStability = -1; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -523,6 +527,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 44a41ce..ba3b7c0 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -461,6 +461,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 0;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // rejected
+    }
   }
   catch (BSMPT::parserException &)
   {
-- 
2.43.0


From 56c0f436dd9a34127600b57e55c846b9c2ddd0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:20 +0000
Subject: [PATCH 56/58] fix: read the field ranges of PotPlotter as real
 numbers

---
 src/prog/PotPlotter.cpp | 67 +++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec88ba3..6df633e 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -20,7 +20,7 @@
 #include <fstream>
 #include <iomanip> // for operator<<, setprecision
 #include <iostream>
-#include <math.h>   // for sqrt, abs
+#include <math.h>   // for sqrt, abs, isnan
 #include <memory>   // for shared_ptr, __shared_...
 #include <stdlib.h> // for atof, EXIT_FAILURE, atoi
 #include <string>   // for getline, operator<<
@@ -38,8 +38,9 @@ struct CLIOptions
   double Temperature{-1};
   int npoints{100}, npoints1{0}, npoints2{0}, npoints3{0}, npoints4{0},
       npoints5{0}, npoints6{0};
-  double low1{-1}, low2{-1}, low3{-1}, low4{-1}, low5{-1}, low6{-1}, high1{-1},
-      high2{-1}, high3{-1}, high4{-1}, high5{-1}, high6{-1};
+  // nan = not set
+  double low1{NAN}, low2{NAN}, low3{NAN}, low4{NAN}, low5{NAN}, low6{NAN},
+      high1{NAN}, high2{NAN}, high3{NAN}, high4{NAN}, high5{NAN}, high6{NAN};
   bool use_slice_plotter = false;
   std::vector<double> min_start, min_end;
   std::vector<double> point;
@@ -407,12 +408,12 @@ bool CLIOptions::good() const
                   "Invalid field value boundaries requested.");
     return false;
   }
-  if ((npoints1 > 0 and (low1 == -1 or high1 == -1)) or
-      (npoints2 > 0 and (low2 == -1 or high2 == -1)) or
-      (npoints3 > 0 and (low3 == -1 or high3 == -1)) or
-      (npoints4 > 0 and (low4 == -1 or high4 == -1)) or
-      (npoints5 > 0 and (low5 == -1 or high5 == -1)) or
-      (npoints6 > 0 and (low6 == -1 or high6 == -1)))
+  if ((npoints1 > 0 and (std::isnan(low1) or std::isnan(high1))) or
+      (npoints2 > 0 and (std::isnan(low2) or std::isnan(high2))) or
+      (npoints3 > 0 and (std::isnan(low3) or std::isnan(high3))) or
+      (npoints4 > 0 and (std::isnan(low4) or std::isnan(high4))) or
+      (npoints5 > 0 and (std::isnan(low5) or std::isnan(high5))) or
+      (npoints6 > 0 and (std::isnan(low6) or std::isnan(high6))))
   {
     Logger::Write(LoggingLevel::Default,
                   "Grid size in VEV direction non-zero, but no low/high field "
@@ -500,100 +501,100 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
 
   try
   {
-    low1 = argparser.get_value<int>("low1");
+    low1 = argparser.get_value<double>("low1");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low1 not set, using default value: " << low1 << "\n";
+    ss << "--low1 not set\n";
   }
   try
   {
-    low2 = argparser.get_value<int>("low2");
+    low2 = argparser.get_value<double>("low2");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low2 not set, using default value: " << low2 << "\n";
+    ss << "--low2 not set\n";
   }
   try
   {
-    low3 = argparser.get_value<int>("low3");
+    low3 = argparser.get_value<double>("low3");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low3 not set, using default value: " << low3 << "\n";
+    ss << "--low3 not set\n";
   }
   try
   {
-    low4 = argparser.get_value<int>("low4");
+    low4 = argparser.get_value<double>("low4");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low4 not set, using default value: " << low4 << "\n";
+    ss << "--low4 not set\n";
   }
   try
   {
-    low5 = argparser.get_value<int>("low5");
+    low5 = argparser.get_value<double>("low5");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low5 not set, using default value: " << low5 << "\n";
+    ss << "--low5 not set\n";
   }
   try
   {
-    low6 = argparser.get_value<int>("low6");
+    low6 = argparser.get_value<double>("low6");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--low6 not set, using default value: " << low6 << "\n";
+    ss << "--low6 not set\n";
   }
 
   try
   {
-    high1 = argparser.get_value<int>("high1");
+    high1 = argparser.get_value<double>("high1");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high1 not set, using default value: " << high1 << "\n";
+    ss << "--high1 not set\n";
   }
   try
   {
-    high2 = argparser.get_value<int>("high2");
+    high2 = argparser.get_value<double>("high2");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high2 not set, using default value: " << high2 << "\n";
+    ss << "--high2 not set\n";
   }
   try
   {
-    high3 = argparser.get_value<int>("high3");
+    high3 = argparser.get_value<double>("high3");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high3 not set, using default value: " << high3 << "\n";
+    ss << "--high3 not set\n";
   }
   try
   {
-    high4 = argparser.get_value<int>("high4");
+    high4 = argparser.get_value<double>("high4");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high4 not set, using default value: " << high4 << "\n";
+    ss << "--high4 not set\n";
   }
   try
   {
-    high5 = argparser.get_value<int>("high5");
+    high5 = argparser.get_value<double>("high5");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high5 not set, using default value: " << high5 << "\n";
+    ss << "--high5 not set\n";
   }
   try
   {
-    high6 = argparser.get_value<int>("high6");
+    high6 = argparser.get_value<double>("high6");
   }
   catch (BSMPT::parserException &)
   {
-    ss << "--high6 not set, using default value: " << high6 << "\n";
+    ss << "--high6 not set\n";
   }
 
   try
-- 
2.43.0


From f2374bd15371fb0188b4f50bd14720a1d35abf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:22 +0000
Subject: [PATCH 57/58] fix: phase tracking loops for ever when the shortened
 last step fails

---
 src/minimum_tracer/minimum_tracer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 23e7a54..e2af40b 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -483,7 +483,10 @@ MinimumTracer::TrackPhase(double &globMinEndT,
     if (SafeStep)
       currentT += dT;
     else
+    { // a failure at finalT goes back by the step that was made
+      dT       = finalT - currentT;
       currentT = finalT;
+    }
   }
   if (output) Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
   if (output)
@@ -688,7 +691,10 @@ MinimumTracer::TrackPhase(const std::vector<double> &point_In,
     if (SafeStep)
       currentT += dT;
     else
+    { // a failure at finalT goes back by the step that was made
+      dT       = finalT - currentT;
       currentT = finalT;
+    }
   }
   if (output) Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
   if (output)
-- 
2.43.0


From 38b4c232aa1403d0ba1586b632f6b02115147a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:22 +0000
Subject: [PATCH 58/58] fix: crash of the multi-step modes when one phase lies
 within the other

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e2af40b..6d48549 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1903,7 +1903,7 @@ bool Vacuum::DoGlobMinOverlap(const Phase &new_phase, const Phase &old_phase)
         phase_high = new_phase;
         phase_low  = old_phase;
       }
-      else if (new_phase.T_low <= old_phase.T_low)
+      else // also if the new phase lies entirely within the old one
       {
         phase_high = old_phase;
         phase_low  = new_phase;
-- 
2.43.0

