From 5bb2bf7154b309fdfebf223a3aae45cb0ec366c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 01/54] fix: report the rejected tabulated_kernel value (it is
 an integer parameter)

---
 src/Common/Dust.cpp                 |  2 +-
 src/Common/Simulation.cpp           | 18 +++++++++---------
 src/GradhSph/GradhSphSimulation.cpp |  2 +-
 src/SM2013/SM2012SphSimulation.cpp  |  2 +-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..2ed299d 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1251,7 +1251,7 @@ DustBase<ndim>* ProcessParameters(Parameters* simparams, ParticleTypeRegister& t
 
 	  else {
 	    string message = "Invalid option for the tabulated_kernel parameter: " +
-	      stringparams["tabulated_kernel"];
+	      simparams->GetParameter("tabulated_kernel");
 	    ExceptionHandler::getIstance().raise(message);
 	  }
 	return NULL ;
diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..b5adbc4 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -760,7 +760,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-        stringparams["tabulated_kernel"];
+        simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
   }
@@ -795,7 +795,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-        stringparams["tabulated_kernel"];
+        simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
     integration_step = max(integration_step,2);
@@ -832,7 +832,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-        stringparams["tabulated_kernel"];
+        simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
   }
@@ -867,7 +867,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-        stringparams["tabulated_kernel"];
+        simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
   }
@@ -902,7 +902,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-        stringparams["tabulated_kernel"];
+        simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
   }
@@ -950,7 +950,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
       }
       else {
         string message = "Invalid option for the tabulated_kernel parameter: "
-          + stringparams["tabulated_kernel"];
+          + simparams->GetParameter("tabulated_kernel");
         ExceptionHandler::getIstance().raise(message);
       }
     }
@@ -985,7 +985,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
       }
       else {
         string message = "Invalid option for the tabulated_kernel parameter: "
-          + stringparams["tabulated_kernel"];
+          + simparams->GetParameter("tabulated_kernel");
         ExceptionHandler::getIstance().raise(message);
       }
     }
@@ -1020,7 +1020,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
       }
       else {
         string message = "Invalid option for the tabulated_kernel parameter: "
-          + stringparams["tabulated_kernel"];
+          + simparams->GetParameter("tabulated_kernel");
         ExceptionHandler::getIstance().raise(message);
       }
     }
@@ -1055,7 +1055,7 @@ void Simulation<ndim>::ProcessNbodyParameters(void)
       }
       else {
         string message = "Invalid option for the tabulated_kernel parameter: "
-          + stringparams["tabulated_kernel"];
+          + simparams->GetParameter("tabulated_kernel");
         ExceptionHandler::getIstance().raise(message);
       }
     }
diff --git a/src/GradhSph/GradhSphSimulation.cpp b/src/GradhSph/GradhSphSimulation.cpp
index 77af3ce..e6ffa3e 100644
--- a/src/GradhSph/GradhSphSimulation.cpp
+++ b/src/GradhSph/GradhSphSimulation.cpp
@@ -161,7 +161,7 @@ void GradhSphSimulation<ndim>::ProcessSphParameters(void)
   }
   else {
     string message = "Invalid option for the tabulated_kernel parameter: " +
-      stringparams["tabulated_kernel"];
+      simparams->GetParameter("tabulated_kernel");
     ExceptionHandler::getIstance().raise(message);
   }
 
diff --git a/src/SM2013/SM2012SphSimulation.cpp b/src/SM2013/SM2012SphSimulation.cpp
index c70abc3..7a115ab 100644
--- a/src/SM2013/SM2012SphSimulation.cpp
+++ b/src/SM2013/SM2012SphSimulation.cpp
@@ -174,7 +174,7 @@ void SM2012SphSimulation<ndim>::ProcessSphParameters(void)
     }
     else {
       string message = "Invalid option for the tabulated_kernel parameter: " +
-	stringparams["tabulated_kernel"];
+	simparams->GetParameter("tabulated_kernel");
       ExceptionHandler::getIstance().raise(message);
     }
   }
-- 
2.43.0


From fddbcb095bc030eb54fd3fa4a568409634f5991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 02/54] fix: full two-fluid dust consults gas_eos (eos is not a
 parameter)

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 2ed299d..87f4e53 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1187,7 +1187,7 @@ DustBase<ndim>* ProcessParameters(Parameters* simparams, ParticleTypeRegister& t
 	  typedef DustFull<ndim, ParticleType, StoppingTime, Kernel> dust ;
 
 	  StoppingTime t_s(K_D) ; Kernel kern(KernelName) ;
-	  bool IntegrateEnergy = stringparams["eos"] != "isothermal" ;
+	  bool IntegrateEnergy = stringparams["gas_eos"] != "isothermal" ;
 
 	  typename dust::DF Forces(t_s, kern, IntegrateEnergy) ;
 	  DustSphNgbFinder<ndim, ParticleType>* d =  new dust(simparams, Forces, types, t, ghost) ;
-- 
2.43.0


From 06eda693e27fac23cebb06e2a5443cae6c6541c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 03/54] fix: force unit scaling reads the registered
 finunit/foutunit parameters

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..d1ebb2a 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -958,8 +958,8 @@ void SimUnits::SetupUnits(Parameters *params)
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
-- 
2.43.0


From 237f3d8a20b99cef621eee90f48f896463a5cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 04/54] fix: magnetic field, charge and current units take
 their own unit parameters

---
 src/Common/SimUnits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index d1ebb2a..06dbbfd 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1057,20 +1057,20 @@ void SimUnits::SetupUnits(Parameters *params)
 
   // Magnetic field units
   //-----------------------------------------------------------------------------------------------
-  B.inunit  = params->stringparams["kappainunit"];
-  B.outunit = params->stringparams["kappaoutunit"];
+  B.inunit  = params->stringparams["Binunit"];
+  B.outunit = params->stringparams["Boutunit"];
 
 
   // Electrical charge units
   //-----------------------------------------------------------------------------------------------
-  Q.inunit  = params->stringparams["kappainunit"];
-  Q.outunit = params->stringparams["kappaoutunit"];
+  Q.inunit  = params->stringparams["Qinunit"];
+  Q.outunit = params->stringparams["Qoutunit"];
 
 
   // Current density units
   //-----------------------------------------------------------------------------------------------
-  Jcur.inunit  = params->stringparams["kappainunit"];
-  Jcur.outunit = params->stringparams["kappaoutunit"];
+  Jcur.inunit  = params->stringparams["Jcurinunit"];
+  Jcur.outunit = params->stringparams["Jcuroutunit"];
 
 
   // Specific internal energy units
-- 
2.43.0


From 42b8302fb5941b729c0f20bbc2d4a79ceb054c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 05/54] fix: 1 Pa is 10 dyn/cm^2

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 06dbbfd..1f5ca21 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -952,7 +952,7 @@ void SimUnits::SetupUnits(Parameters *params)
   press.outscale = (m.outscale*m.outSI) /
     (r.outscale*r.outSI*t.outscale*t.outSI*t.outscale*t.outSI);
   press.outscale = press.outscale / press.outSI;
-  press.outcgs   = 0.1*press.outSI;
+  press.outcgs   = 10.0*press.outSI;
 
   // Force units
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From eefdfd458ea60ddf358609b974ecfbe1492f8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 06/54] fix: 1 GJ is 1e9 J

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 1f5ca21..98ea01b 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -389,7 +389,7 @@ DOUBLE EnergyUnit::SIUnit(string unit_string)
 {
   if (unit_string == "J") return 1.0;
   else if (unit_string == "erg") return 1.0e-7;
-  else if (unit_string == "GJ") return 1.0e12;
+  else if (unit_string == "GJ") return 1.0e9;
   else if (unit_string == "eV") return e_charge;
   else if (unit_string == "10^40erg") return 1.0e33;
   else if (unit_string == "") return 1.0;
-- 
2.43.0


From 3cf277048512d2e16ea180f6d37d9a092631d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 07/54] fix: luminosity scaling is energy per time, not mass
 per time

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 98ea01b..e8da430 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1036,9 +1036,9 @@ void SimUnits::SetupUnits(Parameters *params)
   L.outunit  = params->stringparams["Loutunit"];
   L.inSI     = L.SIUnit(params->stringparams["Linunit"]);
   L.outSI    = L.SIUnit(params->stringparams["Loutunit"]);
-  L.inscale  = m.inscale*m.inSI/(t.inscale*t.inSI);
+  L.inscale  = m.inscale*m.inSI*pow(r.inscale*r.inSI,2)/pow(t.inscale*t.inSI,3);
   L.inscale  = L.inscale / L.inSI;
-  L.outscale = m.outscale*m.outSI/(t.outscale*t.outSI);
+  L.outscale = m.outscale*m.outSI*pow(r.outscale*r.outSI,2)/pow(t.outscale*t.outSI,3);
   L.outscale = L.outscale / L.outSI;
   L.outcgs   = 1.0e7*L.outSI;
 
-- 
2.43.0


From 9c4313c8f420634f3637d55c43f94cb837ea7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 08/54] fix: reported SI values of the time and acceleration
 units

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index e8da430..6e0db5d 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1132,13 +1132,13 @@ void SimUnits::OutputScalingFactors(Parameters *params)
        << "     (SI = " << m.outscale*m.outSI << " kg )" << endl;
   cout << "Time unit    = "
        << t.outscale << " " << params->stringparams["toutunit"]
-       << "     (SI = " << t.outscale*m.outSI << " s )" << endl;
+       << "     (SI = " << t.outscale*t.outSI << " s )" << endl;
   cout << "Velocity unit = "
        << v.outscale << " " << params->stringparams["voutunit"]
        << "     (SI = " << v.outscale*v.outSI << " m_s )" << endl;
   cout << "Accel. unit  = "
        << a.outscale << " " << params->stringparams["aoutunit"]
-       << "     (SI = " << a.outscale*m.outSI << " m_s2 )" << endl;
+       << "     (SI = " << a.outscale*a.outSI << " m_s2 )" << endl;
   cout << "Density unit  = "
        << rho.outscale << " " << params->stringparams["rhooutunit"]
        << "     (SI = " << rho.outscale*rho.outSI << " kg_m3 )" << endl;
-- 
2.43.0


From 592764c35f26c6d11cc43f1a7bcdfb0c0cf6d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 09/54] fix: LaTeX label of m_s

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 6e0db5d..1770745 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -211,7 +211,7 @@ string VelocityUnit::LatexLabel(string unit_string)
 {
   if (unit_string == "km_s") return "km\\,s^{-1}";
   else if (unit_string == "au_yr") return "AU\\,yr^{-1}";
-  else if (unit_string == "m_s") return "m/,s^{-1}";
+  else if (unit_string == "m_s") return "m\\,s^{-1}";
   else if (unit_string == "cm_s") return "cm\\,s^{-1}";
   else return "";
 }
-- 
2.43.0


From 2222bfe2ca9eedfca3f7a9bffd4a90ea0d8b4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 10/54] fix: isothermal sphere ICs take the particle number
 from Nhydro

---
 src/Ic/IsothermalSphereIc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Ic/IsothermalSphereIc.cpp b/src/Ic/IsothermalSphereIc.cpp
index 90ddece..56ca39c 100644
--- a/src/Ic/IsothermalSphereIc.cpp
+++ b/src/Ic/IsothermalSphereIc.cpp
@@ -59,7 +59,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT *r;                         // Particle position vectors
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -131,7 +131,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT pc = 3.08567758*pow(10,16);    // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -230,7 +230,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     DOUBLE *vfield;                   // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     int field_type       = simparams->intparams["field_type"];
     int gridsize         = simparams->intparams["gridsize"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
-- 
2.43.0


From 6d697e975bcbf17ce07f02d4b005713e18dfba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:04 +0000
Subject: [PATCH 11/54] fix: rotating isothermal sphere takes angvel and sets
 velocities in code units

---
 src/Ic/IsothermalSphereIc.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Ic/IsothermalSphereIc.cpp b/src/Ic/IsothermalSphereIc.cpp
index 56ca39c..caac488 100644
--- a/src/Ic/IsothermalSphereIc.cpp
+++ b/src/Ic/IsothermalSphereIc.cpp
@@ -128,7 +128,6 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT r_perp[3];                     // Perpendicular vector
     FLOAT r_center;                      // Radius to centre
     FLOAT norm;                          // ..
-    FLOAT pc = 3.08567758*pow(10,16);    // ..
 
     // Local copies of important parameters
     int Npart            = simparams->intparams["Nhydro"];
@@ -139,8 +138,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT temp0          = simparams->floatparams["temp0"];
     FLOAT mu_bar         = simparams->floatparams["mu_bar"];
     FLOAT gammaone       = simparams->floatparams["gamma_eos"] - 1.0;
-    FLOAT omega          = simparams->floatparams["omega"];
-    FLOAT omega_inv      = 1.0/omega;
+    FLOAT omega          = simparams->floatparams["angvel"];
     string particle_dist = simparams->stringparams["particle_distribution"];
 
     debug2("[Ic::RotIsothermSphere]");
@@ -149,10 +147,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     radius    /= simunits.r.outscale;
     rhofluid  /= simunits.rho.outscale;
     press     /= simunits.press.outscale;
-    omega_inv /= simunits.t.outscale;
-    std::cout << omega << endl;
-    omega = 1 / omega_inv;
-    std::cout << omega << endl;
+    omega     /= simunits.angvel.outscale;
     r = new FLOAT[ndim*Npart];
 
     // Add a sphere of random particles with origin 'rcentre' and radius 'radius'
@@ -203,7 +198,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
         r_perp[1] = r_perp[1]/norm;
         r_perp[2] = r_perp[2]/norm;
         r_center  = pow(pow(part.r[0],2) + pow(part.r[1],2) + pow(part.r[2],2),0.5);
-        for (k=0; k<ndim; k++) part.v[k] = r_perp[k]*r_center*omega*pc;
+        for (k=0; k<ndim; k++) part.v[k] = r_perp[k]*r_center*omega;
       }
     }
 
-- 
2.43.0


From 99dab0c937b8302981a991260e69a5e8766035c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:04 +0000
Subject: [PATCH 12/54] fix: register the parameters of the silcc supernova
 driver

---
 src/Common/Parameters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..61af4d5 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -521,6 +521,10 @@ void Parameters::SetDefaultValues(void)
   // Supernova feedback parameters
   //-----------------------------------------------------------------------------------------------
   stringparams["supernova_feedback"] = "none";
+  stringparams["SNfile_name"] = "";
+  floatparams["Minj"] = 0.005;
+  floatparams["Rinj"] = 0.0;
+  floatparams["R_therm_kin"] = 100000.0;
 
   // Radiative feedback parameters
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 2136af1e66d2d3c7cd781e211258baa8c6a71d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 13/54] fix: a missing silcc supernova file is an error (its
 tables stay unallocated)

---
 src/Feedback/SupernovaDriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Feedback/SupernovaDriver.cpp b/src/Feedback/SupernovaDriver.cpp
index d1df4d2..1ec18e4 100644
--- a/src/Feedback/SupernovaDriver.cpp
+++ b/src/Feedback/SupernovaDriver.cpp
@@ -218,7 +218,7 @@ SilccSupernovaDriver<ndim>::SilccSupernovaDriver
   }
   //-----------------------------------------------------------------------------------------------
   else {
-    cout << "Dateifehler" << endl;
+    ExceptionHandler::getIstance().raise("Could not open supernova file : " + SNfile);
   }
   //-----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 63e96e13fa0a29add2359046a24026331496a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 14/54] fix: SM2012 set-up tests the registered sim parameter

---
 src/SM2013/SM2012SphSimulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SM2013/SM2012SphSimulation.cpp b/src/SM2013/SM2012SphSimulation.cpp
index 7a115ab..b418fdb 100644
--- a/src/SM2013/SM2012SphSimulation.cpp
+++ b/src/SM2013/SM2012SphSimulation.cpp
@@ -136,7 +136,7 @@ void SM2012SphSimulation<ndim>::ProcessSphParameters(void)
 
   // Create Saitoh-Makino (2012) SPH object
   //===========================================================================
-  if (stringparams["sph"] == "sm2012") {
+  if (stringparams["sim"] == "sm2012sph") {
     if (intparams["tabulated_kernel"] == 1) {
       sph = new SM2012Sph<ndim, TabulatedKernel>
         (intparams["hydro_forces"], intparams["self_gravity"], floatparams["alpha_visc"],
@@ -181,8 +181,8 @@ void SM2012SphSimulation<ndim>::ProcessSphParameters(void)
 
   //===========================================================================
   else {
-    string message = "Invalid or unrecognised parameter : sph = "
-      + simparams->stringparams["sph"];
+    string message = "Invalid or unrecognised parameter : sim = "
+      + simparams->stringparams["sim"];
     ExceptionHandler::getIstance().raise(message);
   }
   //===========================================================================
-- 
2.43.0


From b6a5dd86b020d5b2d50682a5bcab6ed77236c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 15/54] fix: quintic softened gravity uses the kernel's
 normalisation (Newtonian at its edge)

---
 src/Headers/SmoothingKernel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..5fe91e6 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -374,12 +374,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (1.0/30.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (1.0/30.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (1.0/30.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -395,13 +395,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (1.0/30.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (1.0/30.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (1.0/30.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From b4d4e30f31d8deaf48e5a10b1eaca79234c3f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 16/54] fix: sign and normalisation of the quintic grad-h
 gravity kernel

---
 src/Headers/SmoothingKernel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 5fe91e6..d03472a 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,17 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
+      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714);
   else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
       + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286);
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
       (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
       (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+      (FLOAT) 52.07142857);
   else
     return 0.0;
 }
-- 
2.43.0


From 132e2ffcf99aa10b2da8af994a5062fd1ac37b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 17/54] fix: Gaussian womega is -(D w0 + s w1)

---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index d03472a..013a5a0 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -483,7 +483,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From b036c717be2942dd8c789e014691e594bae40787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 18/54] fix: Ewald correction of perturbers goes to the
 perturber's own slot, with the sign of the pair force

---
 src/Nbody/Nbody.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index bc4b889..b03c1d3 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -427,7 +427,7 @@ void Nbody<ndim>::CalculatePerturberForces
     // Add periodic gravity contribution (if activated)
     if (simbox.PeriodicGravity) {
       ewald->CalculatePeriodicCorrection(msystot, dr, aperiodic, potperiodic);
-      for (k=0; k<ndim; k++) apert[k] += aperiodic[k];
+      for (k=0; k<ndim; k++) apert[ndim*j + k] -= aperiodic[k];
     }
   }
 
@@ -463,7 +463,7 @@ void Nbody<ndim>::CalculatePerturberForces
       // Add periodic gravity contribution (if activated)
       if (simbox.PeriodicGravity) {
         ewald->CalculatePeriodicCorrection(star[i]->m, dr, aperiodic, potperiodic);
-        for (k=0; k<ndim; k++) apert[k] += aperiodic[k];
+        for (k=0; k<ndim; k++) apert[ndim*j + k] -= aperiodic[k];
       }
 
     }
-- 
2.43.0


From b7de6fc61ca7493913dda20d8a78d2a285cc7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 19/54] fix: Hermite6 sums the second derivative of the
 acceleration over all partners

---
 src/Nbody/NbodyHermite6TS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..2751639 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -151,6 +151,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -164,7 +165,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
-- 
2.43.0


From 179e505172fad50a50260f571f5fcdb015bbefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 20/54] fix: grad-h price2008 conductivity uses the signal
 velocity sqrt(|dP|/rho)

---
 src/GradhSph/GradhSph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..955b359 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -430,8 +430,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroForces
       }
       else if (acond == price2008) {
         parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+          winvrho*sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*
+          fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
@@ -544,8 +544,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
       }
       else if (acond == price2008) {
         parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+          winvrho*sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*
+          fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
-- 
2.43.0


From 4e9d33c9ef08b5254adfae4d2c35c6dd9b9e97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 21/54] fix: MM97 viscosity switch with self-gravity responds
 to convergence (-div v)

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 955b359..88fcdbe 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From d13bb9ff21f025ba803e4b27b6a12cb877ae787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 22/54] fix: gravity-only force uses the level of the listed
 neighbour

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 88fcdbe..189db3e 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From b1c06a2184fafaf368b78c95a8c6aa84306ec3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 23/54] fix: stars feel the periodic correction of the gravity
 of perturbers

---
 src/Nbody/Nbody.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index b03c1d3..aeab13c 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -462,6 +462,9 @@ void Nbody<ndim>::CalculatePerturberForces
 
       // Add periodic gravity contribution (if activated)
       if (simbox.PeriodicGravity) {
+        ewald->CalculatePeriodicCorrection(perturber[j].m, dr, aperiodic, potperiodic);
+        for (k=0; k<ndim; k++) star[i]->a[k] += aperiodic[k];
+        star[i]->gpot += potperiodic;
         ewald->CalculatePeriodicCorrection(star[i]->m, dr, aperiodic, potperiodic);
         for (k=0; k<ndim; k++) apert[ndim*j + k] -= aperiodic[k];
       }
-- 
2.43.0


From ac32e0a3d2099506b586646a76c974d37e5ce413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 24/54] fix: work done by gravity on a meshless particle within
 its step uses the time elapsed, not the full step

---
 src/MeshlessFV/MfvIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..9eb56cb 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -79,8 +79,8 @@ void MfvIntegration<ndim,ParticleType>::AdvanceParticles
     // Add the acceleration / change in energy due to gravity
     for (int k=0; k<ndim; k++) {
       Qcons[ietot] += 0.5 * dt *
-          (part.a0[k]*(part.Qcons0[k] + 0.5*part.Qcons0[irho]*part.a0[k]*part.dt) +
-           part.a0[k]*(Qcons[k]       + 0.5*     Qcons [irho]*part.a0[k]*part.dt));
+          (part.a0[k]*(part.Qcons0[k] + 0.5*part.Qcons0[irho]*part.a0[k]*dt) +
+           part.a0[k]*(Qcons[k]       + 0.5*     Qcons [irho]*part.a0[k]*dt));
 
       Qcons[k] += 0.5*(part.Qcons0[irho] + Qcons[irho])*part.a0[k]*dt;
     }
-- 
2.43.0


From 38e4fc530635ab968f2fc1b52a6f6e21d7ebb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 25/54] fix: momentum predicted by the radws energy integration
 lacked the acceleration

---
 src/Hydrodynamics/EnergyRadws.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/EnergyRadws.cpp b/src/Hydrodynamics/EnergyRadws.cpp
index f4dab08..6d90fb4 100644
--- a/src/Hydrodynamics/EnergyRadws.cpp
+++ b/src/Hydrodynamics/EnergyRadws.cpp
@@ -299,7 +299,7 @@ void EnergyRadws<ndim,MeshlessFVParticle>::EnergyIntegration
             (part.a0[k]*(part.Qcons0[k] + 0.5*part.Qcons0[irho]*part.a0[k]*part.dt) +
              part.a [k]*(Qcons[k]       + 0.5*     Qcons [irho]*part.a0[k]*part.dt));
 
-        Qcons[k] += part.dt * part.Qcons0[irho];
+        Qcons[k] += part.dt * part.Qcons0[irho]*part.a0[k];
       }
       mfv->UpdateArrayVariables(part, Qcons);
       mfv->ComputeThermalProperties(part);
-- 
2.43.0


From a0c5c5f5dba483035ca4cbc7e61090fa463ffef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 26/54] fix: a shortened SPH step also shortens the particle's
 dt

---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 6 +++++-
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..be808b4 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -232,6 +232,7 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
   int level_new;                       // New timestep level
   int nnewstep;                        // New integer timestep
   int activecount = 0;                 // No. of newly active particles
+  const FLOAT tstep = timetep;         // Size of base timestep
   int i;                               // Particle counter
 
   debug2("[SphLeapfrogDKD::CheckTimesteps]");
@@ -258,7 +259,10 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       // If new level is correctly synchronised at the half-step of the
       // new-step (where acceleration is computed), then change all quantities
       if ((2*dn)%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = part.nstep*tstep;
+        }
         part.level = level_new;
         part.flags.set(active);
         activecount++;
diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..9c61e0d 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -292,6 +292,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
   int level_new;                       // New timestep level
   int nnewstep;                        // New integer timestep
   int activecount = 0;                 // No. of newly active particles
+  const FLOAT tstep = timetep;         // Size of base timestep
   int i;                               // Particle counter
 
   debug2("[SphLeapfrogKDK::CheckTimesteps]");
@@ -316,7 +317,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = part.nstep*tstep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From 9114a0dfa4634e1d2f6c5ef8a0ebea4d597d4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:24 +0000
Subject: [PATCH 27/54] fix: double-precision quantities are not rounded
 through single-precision maths

---
 src/Common/SimAnalysis.hpp                     | 10 +++++-----
 src/Hydrodynamics/Sph.cpp                      |  4 ++--
 src/Ic/BinaryAccretionIc.cpp                   |  4 ++--
 src/Ic/BondiAccretionIc.cpp                    | 16 ++++++++--------
 src/Ic/EwaldIc.cpp                             |  8 ++++----
 src/Ic/FilamentIc.cpp                          |  2 +-
 src/Ic/Ic.cpp                                  |  2 +-
 src/Ic/TurbulentCoreIc.cpp                     |  2 +-
 src/MeshlessFV/MeshlessFV.cpp                  |  4 ++--
 src/MeshlessFV/MfvCommon.cpp                   |  2 +-
 src/Nbody/NbodyHermite4.cpp                    |  6 +++---
 src/Nbody/NbodyHermite6TS.cpp                  |  6 +++---
 src/Nbody/NbodyLeapfrogDKD.cpp                 |  2 +-
 src/Nbody/NbodyLeapfrogKDK.cpp                 |  2 +-
 src/Nbody/NbodySimulation.cpp                  |  2 +-
 src/Radiation/TreeRay.cpp                      | 18 +++++++++---------
 src/Radiation/TreeRayOnTheSpot.cpp             |  2 +-
 src/SM2013/SM2012Sph.cpp                       |  2 +-
 .../MonochromaticIonisationMonteCarlo.cpp      |  2 +-
 19 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/Common/SimAnalysis.hpp b/src/Common/SimAnalysis.hpp
index 9028e6e..16d4ccd 100644
--- a/src/Common/SimAnalysis.hpp
+++ b/src/Common/SimAnalysis.hpp
@@ -308,7 +308,7 @@ void Simulation<ndim>::OutputTestDiagnostics(void)
     string solname   = run_id + ".spitzer";
     FLOAT temp_ion   = simparams->floatparams["temp_ion"]/simunits.temp.outscale;
     FLOAT mu_ion     = simparams->floatparams["mu_ion"];
-    FLOAT cion       = sqrtf(temp_ion/mu_ion);
+    FLOAT cion       = sqrt(temp_ion/mu_ion);
     FLOAT radius_ion = (FLOAT) 0.0;
     FLOAT m_ion      = (FLOAT) 0.0;
     FLOAT m_if       = (FLOAT) 0.0;
@@ -317,9 +317,9 @@ void Simulation<ndim>::OutputTestDiagnostics(void)
     FLOAT mcloud     = simparams->floatparams["mcloud"]/simunits.m.outscale;
     FLOAT radius     = simparams->floatparams["radius"]/simunits.r.outscale;
     FLOAT NLyC       = simparams->floatparams["NLyC"]*simunits.t.outscale*simunits.t.outSI;
-    FLOAT rhoneutral = 3.0*mcloud/(4.0*pi*powf(radius,3.0));
+    FLOAT rhoneutral = 3.0*mcloud/(4.0*pi*pow(radius,3.0));
     FLOAT m_h        = m_hydrogen/simunits.m.outscale/simunits.m.outSI;
-    FLOAT Rstromgren = powf(0.75*m_h*m_h*NLyC/(pi*arecomb*rhoneutral*rhoneutral),onethird);
+    FLOAT Rstromgren = pow(0.75*m_h*m_h*NLyC/(pi*arecomb*rhoneutral*rhoneutral),onethird);
 
     cout << "RSTROMGREN : " << Rstromgren*simunits.r.outscale << endl;
     cout << "Sound speed of ionised gas : " << cion*simunits.v.outscale*simunits.v.outSI << endl;
@@ -355,8 +355,8 @@ void Simulation<ndim>::OutputTestDiagnostics(void)
     outfile << t*simunits.t.outscale << "    " << radius_ion*simunits.r.outscale << "    "
             << m_ion*simunits.m.outscale << endl;
     solfile << t*simunits.t.outscale << "   "
-            << Rstromgren*powf(1.0 + 7.0*cion*t/(4.0*Rstromgren),(4.0/7.0))*simunits.r.outscale
-            << "    " << m_h*m_h*NLyC*powf(1.0 + 7.0*cion*t/(4.0*Rstromgren),(6.0/7.0))*
+            << Rstromgren*pow(1.0 + 7.0*cion*t/(4.0*Rstromgren),(4.0/7.0))*simunits.r.outscale
+            << "    " << m_h*m_h*NLyC*pow(1.0 + 7.0*cion*t/(4.0*Rstromgren),(6.0/7.0))*
                          simunits.m.outscale/(arecomb*rhoneutral)
             << endl;
     solfile.close();
diff --git a/src/Hydrodynamics/Sph.cpp b/src/Hydrodynamics/Sph.cpp
index 8230698..26afd89 100644
--- a/src/Hydrodynamics/Sph.cpp
+++ b/src/Hydrodynamics/Sph.cpp
@@ -98,13 +98,13 @@ void Sph<ndim>::InitialSmoothingLengthGuess(void)
   else if (ndim == 2) {
     Ngather = (int) (pi*pow(kernp->kernrange*h_fac,2));
     volume = (rmax[0] - rmin[0])*(rmax[1] - rmin[1]);
-    h_guess = sqrtf((volume*(FLOAT) Ngather)/(4.0*(FLOAT) Nhydro));
+    h_guess = sqrt((volume*(FLOAT) Ngather)/(4.0*(FLOAT) Nhydro));
   }
   //-----------------------------------------------------------------------------------------------
   else if (ndim == 3) {
     Ngather = (int) (4.0*pi*pow(kernp->kernrange*h_fac,3)/3.0);
     volume = (rmax[0] - rmin[0])*(rmax[1] - rmin[1])*(rmax[2] - rmin[2]);
-    h_guess = powf((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Nhydro),onethird);
+    h_guess = pow((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Nhydro),onethird);
   }
   //-----------------------------------------------------------------------------------------------
 
diff --git a/src/Ic/BinaryAccretionIc.cpp b/src/Ic/BinaryAccretionIc.cpp
index 70af5ae..7c5af25 100644
--- a/src/Ic/BinaryAccretionIc.cpp
+++ b/src/Ic/BinaryAccretionIc.cpp
@@ -144,7 +144,7 @@ void BinaryAccretionIc<ndim>::Generate(void)
       volume1 = (box1.max[0] - box1.min[0])*(box1.max[1] - box1.min[1]);
       volume2 = (box2.max[0] - box2.min[0])*(box2.max[1] - box2.min[1]);
       Nneib   = (int) (pi*pow(hydro->kernp->kernrange*hydro->h_fac,2));
-      hfluid1 = sqrtf((volume1*(FLOAT) Nneib)/((FLOAT) 4.0*(FLOAT) Nbox1));
+      hfluid1 = sqrt((volume1*(FLOAT) Nneib)/((FLOAT) 4.0*(FLOAT) Nbox1));
     }
     else if (ndim == 3) {
       volume1 = (box1.max[0] - box1.min[0])*
@@ -152,7 +152,7 @@ void BinaryAccretionIc<ndim>::Generate(void)
       volume2 = (box2.max[0] - box2.min[0])*
         (box2.max[1] - box2.min[1])*(box2.max[2] - box2.min[2]);
       Nneib = (int) (pi*pow(hydro->kernp->kernrange*hydro->h_fac,2));
-      hfluid1 = powf(((FLOAT) 3.0*volume1*(FLOAT) Nneib)/((FLOAT) 32.0*pi*(FLOAT) Nbox1),onethird);
+      hfluid1 = pow(((FLOAT) 3.0*volume1*(FLOAT) Nneib)/((FLOAT) 32.0*pi*(FLOAT) Nbox1),onethird);
     }
 
 
diff --git a/src/Ic/BondiAccretionIc.cpp b/src/Ic/BondiAccretionIc.cpp
index d060009..0a77596 100644
--- a/src/Ic/BondiAccretionIc.cpp
+++ b/src/Ic/BondiAccretionIc.cpp
@@ -101,7 +101,7 @@ void BondiAccretionIc<ndim>::ComputeBondiSolution
     disc = (FLOAT) 100.0*log10(x1) + (FLOAT) isonic - (FLOAT) i;
     if (disc > (FLOAT) 0.0) {
       lx[i]   = (FLOAT) 0.01*(FLOAT)(i - isonic);
-      x[i]    = powf((FLOAT) 10.0,lx[i]);
+      x[i]    = pow((FLOAT) 10.0,lx[i]);
       dlnx[i] = (x[i] - x1)/x1;
       w[i]    = w1 + f5*(x[i] - x1);
       y[i]    = asympt/(x[i]*x[i]*w[i]);
@@ -144,7 +144,7 @@ void BondiAccretionIc<ndim>::ComputeBondiSolution
     disc = (FLOAT) i - (FLOAT) 100.0*log10(x1) - (FLOAT) isonic;
     if (disc > (FLOAT) 0.0) {
       lx[i]   = (FLOAT) 0.01*(FLOAT) (i - isonic);
-      x[i]    = powf((FLOAT) 10.0,lx[i]);
+      x[i]    = pow((FLOAT) 10.0,lx[i]);
       dlnx[i] = (x[i] - x1)/x1;
       w[i]    = w1 + f5*(x[i] - x1);
       lw[i]   = log10(w[i]);
@@ -242,10 +242,10 @@ void BondiAccretionIc<ndim>::Generate(void)
     msink  /= simunits.m.outscale;
     FLOAT radius = (FLOAT) 1.0;
 
-    FLOAT asound = sqrtf(temp0/mu_bar);
+    FLOAT asound = sqrt(temp0/mu_bar);
     racc = (FLOAT) 2.0*msink/asound/asound;
     rsonic = (FLOAT) 0.5*msink/asound/asound;
-    FLOAT dmdt = exp((FLOAT) 1.5)*pi*msink*msink*rhogas/powf(asound,3);
+    FLOAT dmdt = exp((FLOAT) 1.5)*pi*msink*msink*rhogas/pow(asound,3);
 
     r = new FLOAT[ndim*Npart];
     v = new FLOAT[ndim*Npart];
@@ -309,16 +309,16 @@ void BondiAccretionIc<ndim>::Generate(void)
     //mp = 4.0_PR*pi*pow(rsonic,3)*rhogas*mcloud / (FLOAT) Npart;
     //mp = 0.5_PR*PI*rhogas*mcloud*msink**3 / (agas**6) / real(pgas,PR)
     //mp = mcloud/(FLOAT) Npart;
-    mp = 4.0*pi*powf(rsonic,3)*rhogas*mcloud / (FLOAT) Npart;
+    mp = 4.0*pi*pow(rsonic,3)*rhogas*mcloud / (FLOAT) Npart;
     cout << "mp : " << mp << "    "
-         << 0.5*pi*rhogas*mcloud*powf(msink,3)/powf(asound,6)/(FLOAT) Npart << endl;
+         << 0.5*pi*rhogas*mcloud*pow(msink,3)/pow(asound,6)/(FLOAT) Npart << endl;
 
 
     for (i=0; i<Npart; i++) {
       Particle<ndim>& part = hydro->GetParticlePointer(i);
       for (k=0; k<ndim; k++) dr[k] = r[ndim*i + k] - rcentre[k];
-      FLOAT drmag = sqrtf(DotProduct(dr, dr, ndim)) + small_number;
-      FLOAT mint = mcloud*powf(drmag,3);
+      FLOAT drmag = sqrt(DotProduct(dr, dr, ndim)) + small_number;
+      FLOAT mint = mcloud*pow(drmag,3);
       for (int j=0; j<Ntablemax; j++) {
         iradius = j;
         if (z[j] >= mint) break;
diff --git a/src/Ic/EwaldIc.cpp b/src/Ic/EwaldIc.cpp
index 7810d86..dbc44d3 100644
--- a/src/Ic/EwaldIc.cpp
+++ b/src/Ic/EwaldIc.cpp
@@ -224,7 +224,7 @@ void EwaldIc<ndim>::Generate(void)
         ExceptionHandler::getIstance().raise(msg);
       }
 
-      h0 = csound/sqrtf(twopi*rhofluid1);
+      h0 = csound/sqrt(twopi*rhofluid1);
 
       // Add regular distribution of SPH particles
       Ic<ndim>::AddCubicLattice(Npart, Nlattice1, icBox, false, r);
@@ -244,13 +244,13 @@ void EwaldIc<ndim>::Generate(void)
         // normal to the slab depends on chosen BCs
         switch (periodicity) {
           case 3:
-            part.rho = rhofluid1/powf(cosh(part.r[2]/h0),2);
+            part.rho = rhofluid1/pow(cosh(part.r[2]/h0),2);
             break;
           case 5:
-            part.rho = rhofluid1/powf(cosh(part.r[1]/h0),2);
+            part.rho = rhofluid1/pow(cosh(part.r[1]/h0),2);
             break;
           case 6:
-            part.rho = rhofluid1/powf(cosh(part.r[0]/h0),2);
+            part.rho = rhofluid1/pow(cosh(part.r[0]/h0),2);
             break;
         }
         part.m   = part.rho*volp;
diff --git a/src/Ic/FilamentIc.cpp b/src/Ic/FilamentIc.cpp
index 3dcf94d..1b7fdb3 100644
--- a/src/Ic/FilamentIc.cpp
+++ b/src/Ic/FilamentIc.cpp
@@ -115,7 +115,7 @@ void FilamentIc<ndim>::Generate(void)
     mp            = mtot / (FLOAT) Npart;
     FLOAT volume  = Lfilament*pi*pow(Rfilament, 2);
     FLOAT Ngather = (int) (4.0*pi*pow(2.0*1.2,3)/3.0);
-    FLOAT h_guess = 2.0*powf((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Npart), onethird);
+    FLOAT h_guess = 2.0*pow((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Npart), onethird);
     FLOAT *r      = new FLOAT[ndim*Npart];
 
     std::cout << "Ngather : " << Ngather << "   " << h_guess << "   " << Rfilament << std::endl;
diff --git a/src/Ic/Ic.cpp b/src/Ic/Ic.cpp
index 8139b49..558d1c3 100644
--- a/src/Ic/Ic.cpp
+++ b/src/Ic/Ic.cpp
@@ -559,7 +559,7 @@ int Ic<ndim>::AddLatticeSphere
     }
   }
   else if (ndim == 3) {
-    theta = acos(sqrtf(randnumb->floatrand()));
+    theta = acos(sqrt(randnumb->floatrand()));
     phi   = twopi*randnumb->floatrand();
     psi   = twopi*randnumb->floatrand();
     EulerAngleArrayRotation(Naux, phi, theta, psi, raux);
diff --git a/src/Ic/TurbulentCoreIc.cpp b/src/Ic/TurbulentCoreIc.cpp
index d073ca0..033219f 100644
--- a/src/Ic/TurbulentCoreIc.cpp
+++ b/src/Ic/TurbulentCoreIc.cpp
@@ -139,7 +139,7 @@ void TurbulentCoreIc<ndim>::Generate(void)
       for (k=0; k<ndim; k++) part.r[k] = r[ndim*i + k];
       for (k=0; k<ndim; k++) part.v[k] = 0.0;
       part.m = mp;
-      part.h = hydro->h_fac*powf(mp/rho,invndim);
+      part.h = hydro->h_fac*pow(mp/rho,invndim);
       part.u = temp0/gammaone/mu_bar;
       part.ptype = gas_type;
     }
diff --git a/src/MeshlessFV/MeshlessFV.cpp b/src/MeshlessFV/MeshlessFV.cpp
index ea9936d..67ce8b3 100644
--- a/src/MeshlessFV/MeshlessFV.cpp
+++ b/src/MeshlessFV/MeshlessFV.cpp
@@ -248,7 +248,7 @@ void MeshlessFV<2>::InitialSmoothingLengthGuess(void)
   //-----------------------------------------------------------------------------------------------
   Ngather = (int) (pi*pow(kernp->kernrange*h_fac,2));
   volume = (rmax[0] - rmin[0])*(rmax[1] - rmin[1]);
-  h_guess = sqrtf((volume*(FLOAT) Ngather)/((FLOAT) 4.0*(FLOAT) Nhydro));
+  h_guess = sqrt((volume*(FLOAT) Ngather)/((FLOAT) 4.0*(FLOAT) Nhydro));
   //-----------------------------------------------------------------------------------------------
 
   // Set all smoothing lengths equal to average value
@@ -279,7 +279,7 @@ void MeshlessFV<3>::InitialSmoothingLengthGuess(void)
   //-----------------------------------------------------------------------------------------------
   Ngather = (int) ((FLOAT) 4.0*pi*pow(kernp->kernrange*h_fac,3)/(FLOAT) 3.0);
   volume = (rmax[0] - rmin[0])*(rmax[1] - rmin[1])*(rmax[2] - rmin[2]);
-  h_guess = powf((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Nhydro),onethird);
+  h_guess = pow((3.0*volume*(FLOAT) Ngather)/(32.0*pi*(FLOAT) Nhydro),onethird);
   //-----------------------------------------------------------------------------------------------
 
   // Set all smoothing lengths equal to average value
diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..7b0bb9a 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -295,7 +295,7 @@ void MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeGradients
 
     // Calculate maximum signal velocity
     part.vsig_max = max(part.vsig_max, part.sound + neibpart[j].sound -
-        min((FLOAT) 0.0, dvdr/(sqrtf(drsqd) + small_number)));
+        min((FLOAT) 0.0, dvdr/(sqrt(drsqd) + small_number)));
     part.levelneib = max(part.levelneib, neibpart[j].level) ;
     neibpart[j].levelneib = max(neibpart[j].levelneib, part.level);
 
diff --git a/src/Nbody/NbodyHermite4.cpp b/src/Nbody/NbodyHermite4.cpp
index d8d6a61..696bc8a 100644
--- a/src/Nbody/NbodyHermite4.cpp
+++ b/src/Nbody/NbodyHermite4.cpp
@@ -116,7 +116,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = (FLOAT) 2.0/(star[i]->h + star[j]->h);
       drdt     = DotProduct(dv,dr,ndim)*invdrmag;
       paux     = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean    = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
@@ -191,7 +191,7 @@ void NbodyHermite4<ndim, kernelclass>::CalculateDirectHydroForces
     invhmean = 2.0/(star->h + part.h);
     drdt     = DotProduct(dv,dr,ndim)*invdrmag;
     paux     = part.m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-    wkern    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+    wkern    = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
     // Add contribution to main star array
     for (k=0; k<ndim; k++) star->a[k] += paux*dr[k];
@@ -411,7 +411,7 @@ void NbodyHermite4<ndim, kernelclass>::CorrectionTerms
     if (dn == nstep) {
       //dt = timestep*(FLOAT) nstep;
       dt    = t - star[i]->tlast;
-      dt3   = powf(dt, 3);
+      dt3   = pow(dt, 3);
       invdt = (FLOAT) 1.0 / dt;
 
       for (k=0; k<ndim; k++) {
diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 2751639..4930d25 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -227,7 +227,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = 2.0/(star[i]->h + star[j]->h);
       drdt = DotProduct(dv,dr,ndim)*invdrmag;
       paux = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
@@ -301,7 +301,7 @@ void NbodyHermite6TS<ndim, kernelclass>::CalculateDirectHydroForces
     invhmean = 2.0/(star->h + part.h);
     drdt     = DotProduct(dv,dr,ndim)*invdrmag;
     paux     = part.m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-    wkern    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+    wkern    = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
     // Add contribution to main star array
     for (k=0; k<ndim; k++) star->a[k] += paux*dr[k];
@@ -526,7 +526,7 @@ void NbodyHermite6TS<ndim, kernelclass>::CorrectionTerms
     if (dn == nstep) {
       //dt = timestep*(FLOAT) nstep;
       dt = t - star[i]->tlast;
-      dt3 = powf(dt,3);
+      dt3 = pow(dt,3);
       invdt = 1.0 / dt;
 
       for (k=0; k<ndim; k++) {
diff --git a/src/Nbody/NbodyLeapfrogDKD.cpp b/src/Nbody/NbodyLeapfrogDKD.cpp
index 8b326c5..37c7c1c 100644
--- a/src/Nbody/NbodyLeapfrogDKD.cpp
+++ b/src/Nbody/NbodyLeapfrogDKD.cpp
@@ -117,7 +117,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = (FLOAT) 2.0/(star[i]->h + star[j]->h);
       drdt     = DotProduct(dv,dr,ndim)*invdrmag;
       paux     = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean    = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
diff --git a/src/Nbody/NbodyLeapfrogKDK.cpp b/src/Nbody/NbodyLeapfrogKDK.cpp
index 4b8a60b..75a9b8a 100644
--- a/src/Nbody/NbodyLeapfrogKDK.cpp
+++ b/src/Nbody/NbodyLeapfrogKDK.cpp
@@ -117,7 +117,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = (FLOAT) 2.0/(star[i]->h + star[j]->h);
       drdt     = DotProduct(dv,dr,ndim)*invdrmag;
       paux     = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean    = kern.w0(drmag*invhmean)*pow(invhmean,ndim);
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..1c59c83 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -515,7 +515,7 @@ void NbodySimulation<ndim>::ComputeBlockTimesteps(void)
     // Calculate new block timestep levels
     level_max = Nlevels - 1;
     level_step = level_max + integration_step - 1;
-    dt_max = timestep*powf(2.0, level_max);
+    dt_max = timestep*pow(2.0, level_max);
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_nbody = min((int) (invlogetwo*log(dt_max/dt_min_nbody)) + 1, level_max);
diff --git a/src/Radiation/TreeRay.cpp b/src/Radiation/TreeRay.cpp
index b643366..8c4ba13 100644
--- a/src/Radiation/TreeRay.cpp
+++ b/src/Radiation/TreeRay.cpp
@@ -76,9 +76,9 @@ TreeRay<ndim,nfreq,ParticleType,TreeCell>::TreeRay
   // Allocate arrays for rays
   minCellSize = (FLOAT) 0.0;
   for (int k=0; k<ndim; k++) minCellSize = max(minCellSize, simbox.size[k]);
-  minCellSize    = minCellSize/powf(2.0, tree->lmax);
-  max_ray_length = sqrtf(DotProduct(simbox.size, simbox.size, ndim));
-  bhNR           = rayRadRes*((int) (sqrtf(2.0*max_ray_length / minCellSize)) + 1);
+  minCellSize    = minCellSize/pow(2.0, tree->lmax);
+  max_ray_length = sqrt(DotProduct(simbox.size, simbox.size, ndim));
+  bhNR           = rayRadRes*((int) (sqrt(2.0*max_ray_length / minCellSize)) + 1);
 
   cout << "boxsize : " << simbox.size[0] << "   " << simbox.size[1]
        << "   " << simbox.size[2] << endl;
@@ -442,7 +442,7 @@ void TreeRay<ndim,nfreq,ParticleType,TreeCell>::GenerateRadNodeMapping(void)
 
 
       for (int ir=0; ir<bhNR; ir++) {
-        FLOAT r = 0.5*rayRadRes*minCellSize*powf(radNodeMapIndex[IRNM(ir,irf,il)],2);
+        FLOAT r = 0.5*rayRadRes*minCellSize*pow(radNodeMapIndex[IRNM(ir,irf,il)],2);
         cout << "RNM: " << il << "   " << ndSize << "   " << irf << "   " << rNodeCen
              << "    " << ir << "    " << r << "    " << radNodeMapIndex[IRNM(ir,irf,il)]
              << "    " << radNodeMapValue[IRNM(ir,irf,il)] << "   " << totWeight << endl;
@@ -480,10 +480,10 @@ FLOAT TreeRay<ndim,nfreq,ParticleType,TreeCell>::NodeKernel
   const FLOAT rnorm = fabs((r - rNodeCen)/ndSize);
 
   if (rnorm < (FLOAT) 0.5) {
-    return a1*powf(rnorm,3) - ((FLOAT) 0.5*a1 + (FLOAT) 4.0*(M-A))*rnorm*rnorm + M;
+    return a1*pow(rnorm,3) - ((FLOAT) 0.5*a1 + (FLOAT) 4.0*(M-A))*rnorm*rnorm + M;
   }
   else if (rnorm < (FLOAT) 0.5*sqrt((FLOAT) 3.0)) {
-    return a2*powf(rnorm,3) - (0.5*a2*(1.0 + 2*sqrt(3.)) - 2.0*A*(sqrt(3.) + 2.0))*rnorm*rnorm -
+    return a2*pow(rnorm,3) - (0.5*a2*(1.0 + 2*sqrt(3.)) - 2.0*A*(sqrt(3.) + 2.0))*rnorm*rnorm -
       (9.0*a2/4.0 - 0.5*a2*(sqrt(3.0) + 6.0) + 2.0*A*(3.0 + 2.0*sqrt(3.0)))*rnorm +
       3.0*sqrt(3.0)*a2/4.0 - 3.0*a2*(1.0 + 2.0*sqrt(3.0))/8.0 + 1.5*A*(sqrt(3.0) + 2.0);
   }
@@ -708,7 +708,7 @@ void TreeRay<ndim,nfreq,ParticleType,TreeCell>::TreeRayWalk
     // Check if cell is far enough away to use the COM approximation
     //---------------------------------------------------------------------------------------------
     if (drsqd > treeptr->celldata[cc].cdistsqd && treeptr->celldata[cc].N > 0) {
-      cellEdgeSize = treeptr->rootCellSize/powf((FLOAT) 2.0, treeptr->celldata[cc].level);
+      cellEdgeSize = treeptr->rootCellSize/pow((FLOAT) 2.0, treeptr->celldata[cc].level);
       NodeContribution(cell, treeptr->celldata[cc], dr, drsqd, cellEdgeSize);
       cc = treeptr->celldata[cc].cnext;
     }
@@ -723,7 +723,7 @@ void TreeRay<ndim,nfreq,ParticleType,TreeCell>::TreeRayWalk
         cc = treeptr->celldata[cc].copen;
       }
       else {
-        cellEdgeSize = treeptr->rootCellSize/powf(2.0, treeptr->celldata[cc].level);
+        cellEdgeSize = treeptr->rootCellSize/pow(2.0, treeptr->celldata[cc].level);
         NodeContribution(cell, treeptr->celldata[cc], dr, drsqd, cellEdgeSize);
         cc = treeptr->celldata[cc].cnext;
       }
@@ -809,7 +809,7 @@ void TreeRay<ndim,nfreq,ParticleType,TreeCell>::NodeContribution
 
   // Node mass, volume and column density
   //node_mass = node(tr_bhIM)
-  node_vol = powf(cellEdgeSize,3);
+  node_vol = pow(cellEdgeSize,3);
 
   // Node index in the rays-array
   irf = (int) (nFineR*rayRadRes*sqrt(2.0*drmag/minCellSize) - 0.5);
diff --git a/src/Radiation/TreeRayOnTheSpot.cpp b/src/Radiation/TreeRayOnTheSpot.cpp
index fce58dc..3f1e41b 100644
--- a/src/Radiation/TreeRayOnTheSpot.cpp
+++ b/src/Radiation/TreeRayOnTheSpot.cpp
@@ -41,7 +41,7 @@ TreeRayOnTheSpot<ndim,nfreq,TreeCell>::TreeRayOnTheSpot
   THpToEint = boltz*THp / (AbarHp*tr_mH*(GammaHp - 1.0));
 
   // recombination constant
-  recombConst = AlphaStar * powf(Xhydro / tr_mH, 2)/ 3.0;
+  recombConst = AlphaStar * pow(Xhydro / tr_mH, 2)/ 3.0;
 
   // constant for converting photon flux to  energy density
   eflx2Erad = UVPhotonE / (lightSpeed);
diff --git a/src/SM2013/SM2012Sph.cpp b/src/SM2013/SM2012Sph.cpp
index 79b1b8c..cd9c9b7 100755
--- a/src/SM2013/SM2012Sph.cpp
+++ b/src/SM2013/SM2012Sph.cpp
@@ -221,7 +221,7 @@ int SM2012Sph<ndim, kernelclass >::ComputeH
 
 
   // Normalise all SPH sums correctly
-  parti.h         = max(h_fac*powf(parti.m/parti.rho,Sph<ndim>::invndim), h_lower_bound);
+  parti.h         = max(h_fac*pow(parti.m/parti.rho,Sph<ndim>::invndim), h_lower_bound);
   invh            = (FLOAT) 1.0/parti.h;
   parti.hfactor   = pow(invh,ndim+1);
   parti.hrangesqd = kern.kernrangesqd*parti.h*parti.h;
diff --git a/src/Thermal/MonochromaticIonisationMonteCarlo.cpp b/src/Thermal/MonochromaticIonisationMonteCarlo.cpp
index 493ac3e..064d42e 100644
--- a/src/Thermal/MonochromaticIonisationMonteCarlo.cpp
+++ b/src/Thermal/MonochromaticIonisationMonteCarlo.cpp
@@ -804,7 +804,7 @@ void MonochromaticIonisationMonteCarlo<ndim,nfreq,ParticleType,CellType>::Interp
           else {
             weight = 0.0;
           }*/
-          weight = powf(max(0.0, 2.0*part.h - drmag)/(2.0*part.h*(drmag + 0.00001*part.h)), pshep);
+          weight = pow(max(0.0, 2.0*part.h - drmag)/(2.0*part.h*(drmag + 0.00001*part.h)), pshep);
           xion     += cell.Xion*weight;
           xionNorm += weight;
         }
-- 
2.43.0


From 88dd814b0e2817b1c8efeb9e985dc34fb0a5cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 28/54] fix: the polytropic equation of state uses eta_eos as
 the exponent of its pressure

---
 src/Thermal/PolytropicEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..a7acf4a 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -33,7 +33,7 @@
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
-- 
2.43.0


From b8d348fff76742ef47e9e60230b970f8f81cf8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 29/54] fix: the temperature of adiabatic and polytropic gas
 takes the mean molecular weight into account

---
 src/Headers/EOS.h             | 1 +
 src/Thermal/AdiabaticEOS.cpp  | 2 +-
 src/Thermal/PolytropicEOS.cpp | 5 +++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Headers/EOS.h b/src/Headers/EOS.h
index 2d9de76..7271782 100644
--- a/src/Headers/EOS.h
+++ b/src/Headers/EOS.h
@@ -245,6 +245,7 @@ class Polytropic: public EOS<ndim>
 
   const FLOAT Kpoly;
   const FLOAT eta;
+  const FLOAT mu_bar;
 
 };
 
diff --git a/src/Thermal/AdiabaticEOS.cpp b/src/Thermal/AdiabaticEOS.cpp
index 4422fbf..fbba668 100644
--- a/src/Thermal/AdiabaticEOS.cpp
+++ b/src/Thermal/AdiabaticEOS.cpp
@@ -92,7 +92,7 @@ FLOAT Adiabatic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Adiabatic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return gammam1*part.u*mu_bar;
 }
 
 
diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index a7acf4a..6e112aa 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -34,7 +34,8 @@ template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["eta_eos"]),
   eta(simparams->floatparams["eta_eos"]),
-  Kpoly(simparams->floatparams["Kpoly"])
+  Kpoly(simparams->floatparams["Kpoly"]),
+  mu_bar(simparams->floatparams["mu_bar"])
 {
 }
 
@@ -106,7 +107,7 @@ FLOAT Polytropic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part
 template <int ndim>
 FLOAT Polytropic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return gammam1*part.u*mu_bar;
 }
 
 
-- 
2.43.0


From d6729173c38420e41897779b9508793028ad14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 30/54] fix: the Runge-Kutta meshless scheme takes fluxes out
 of the particle through faces that point away from it

---
 src/MeshlessFV/MfvRungeKutta.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 4753401..56b4697 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -71,7 +71,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   int var;                             // Particle state vector variable counter
   FLOAT Aij[ndim];                     // Pseudo 'Area' vector
   FLOAT draux[ndim];                   // Position vector of part relative to neighbour
-  FLOAT dr_unit[ndim];                 // Unit vector from neighbour to part
+  FLOAT dr_unit[ndim];                 // Unit vector from part to neighbour
   FLOAT drsqd;                         // Distance squared
   FLOAT invdrmagaux;                   // 1 / distance
   FLOAT psitildai[ndim];               // Normalised gradient psi value for particle i
@@ -97,7 +97,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     FLOAT invh_j   = 1/neibpart[j].h;
     FLOAT volume_j = 1/neibpart[j].ndens;
 
-    for (k=0; k<ndim; k++) draux[k] = part.r[k] - neibpart[j].r[k];
+    for (k=0; k<ndim; k++) draux[k] = neibpart[j].r[k] - part.r[k];
     drsqd = DotProduct(draux, draux, ndim);
     invdrmagaux = 1.0/sqrt(drsqd + small_number);
     for (k=0; k<ndim; k++) dr_unit[k] = draux[k]*invdrmagaux;
@@ -144,7 +144,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
       for (k=0; k<ndim; k++) rface[k] = (FLOAT) 0.5*(part.r[k] + neibpart[j].r[k]);
       //for (k=0; k<ndim; k++) rface[k] = part.r[k] +
       //  part.h*(neibpart[j].r[k] - part.r[k])/(part.h + neibpart[j].h);
-      for (k=0; k<ndim; k++) draux[k] = part.r[k] - rface[k];
+      for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
       for (k=0; k<ndim; k++) vface[k] = part.v[k] +
         (neibpart[j].v[k] - part.v[k])*DotProduct(draux, dr_unit, ndim)*invdrmagaux;
     }
@@ -168,9 +168,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
-      riemannExact.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannExact.ComputeFluxes(Wleft, Wright, dr_unit, vface, flux);
     else
-      riemannHLLC.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannHLLC.ComputeFluxes(Wleft, Wright, dr_unit, vface, flux);
 
     // Finally calculate flux terms for all quantities based on Lanson & Vila gradient operators
     for (var=0; var<nvar; var++) {
@@ -195,9 +195,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
-      riemannExact.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannExact.ComputeFluxes(Wleft, Wright, dr_unit, vface, flux);
     else
-      riemannHLLC.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannHLLC.ComputeFluxes(Wleft, Wright, dr_unit, vface, flux);
 
     // Finally calculate flux terms for all quantities based on Lanson & Vila gradient operators
     for (var=0; var<nvar; var++) {
-- 
2.43.0


From 49e20fea47913a9911f0de18e95c7d63d24a4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 31/54] fix: the Runge-Kutta meshless scheme integrates each
 face state with its own gradients

---
 src/MeshlessFV/MfvRungeKutta.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 56b4697..9c4cc52 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -82,7 +82,8 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT Wleft[nvar];                   // Primitive vector for LHS of Riemann problem
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
   FLOAT Wdot[nvar];                    // Time derivative of primitive vector
-  FLOAT gradW[nvar][ndim];             // Gradient of primitive vector
+  FLOAT gradWleft[nvar][ndim];         // Gradient of primitive vector for LHS state
+  FLOAT gradWright[nvar][ndim];        // Gradient of primitive vector for RHS state
   FLOAT dW[nvar];                      // Change in primitive quantities
   const FLOAT dt = timestep*(FLOAT) part.nstep;    // Timestep of given particle
 
@@ -151,13 +152,13 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Compute slope-limited values for LHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
-    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradWleft, dW);
     for (var=0; var<nvar; var++) Wleft[var] = part.Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wleft[k] -= vface[k];
 
     // Compute slope-limited values for RHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - neibpart[j].r[k];
-    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradWright, dW);
     for (var=0; var<nvar; var++) Wright[var] = neibpart[j].Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wright[k] -= vface[k];
 
@@ -179,12 +180,12 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     }
 
     // Time-integrate LHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wleft, gradW, part.sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wleft, gradWleft, part.sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += part.a[k];
     for (var=0; var<nvar; var++) Wleft[var] += (FLOAT) Wdot[var]*dt;
 
     // Time-integrate RHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wright, gradW, neibpart[j].sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wright, gradWright, neibpart[j].sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += neibpart[j].a[k];
     for (var=0; var<nvar; var++) Wright[var] += (FLOAT) Wdot[var]*dt;
 
-- 
2.43.0


From 568d2428972f9d6a62d52942afe49277cfb15b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:14 +0000
Subject: [PATCH 32/54] fix: the ambient temperature of one particle could be
 used for another in parallel Rad-WS cooling loops

---
 src/Hydrodynamics/EnergyRadws.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Hydrodynamics/EnergyRadws.cpp b/src/Hydrodynamics/EnergyRadws.cpp
index 6d90fb4..001b4ba 100644
--- a/src/Hydrodynamics/EnergyRadws.cpp
+++ b/src/Hydrodynamics/EnergyRadws.cpp
@@ -168,7 +168,7 @@ void EnergyRadws<ndim,ParticleType>::EndTimestep
 
 
   //-----------------------------------------------------------------------------------------------
-#pragma omp parallel for default(none) private(i, temp, col2) shared(partdata, hydro, temp_amb)
+#pragma omp parallel for default(none) private(i, temp, col2) firstprivate(temp_amb) shared(partdata, hydro)
   for (i=0; i<hydro->Nhydro; i++) {
     ParticleType<ndim> &part = partdata[i];
     if (part.flags.is_dead()) continue;
@@ -219,7 +219,7 @@ void EnergyRadws<ndim,MeshlessFVParticle>::EndTimestep
   int ietot  = MeshlessFV<ndim>::ietot;
 
   //-----------------------------------------------------------------------------------------------
-#pragma omp parallel for default(none) private(i, temp, col2) shared(partdata, mfv, temp_amb, irho, ietot)
+#pragma omp parallel for default(none) private(i, temp, col2) firstprivate(temp_amb) shared(partdata, mfv, irho, ietot)
   for (i=0; i<mfv->Nhydro; i++) {
     MeshlessFVParticle<ndim> &part = partdata[i];
     if (part.flags.is_dead()) continue;
@@ -285,7 +285,7 @@ void EnergyRadws<ndim,MeshlessFVParticle>::EnergyIntegration
   int ietot  = MeshlessFV<ndim>::ietot;
 
   //-----------------------------------------------------------------------------------------------
-#pragma omp parallel for default(none) private(i, temp, col2) shared(partdata, mfv, temp_amb, cout, irho, ietot)
+#pragma omp parallel for default(none) private(i, temp, col2) firstprivate(temp_amb) shared(partdata, mfv, cout, irho, ietot)
   for (i=0; i<mfv->Nhydro; i++) {
     MeshlessFVParticle<ndim> &part = partdata[i];
     if (part.flags.is_dead()) continue;
-- 
2.43.0


From 20f90edf831bb98a2ed05d0d53f5665268991754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:14 +0000
Subject: [PATCH 33/54] fix: the Ewald correction writes unused static maxima
 from all threads at once

---
 src/Common/Ewald.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index d3c941c..7f81608 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -515,8 +515,6 @@ void Ewald<ndim>::CalculatePeriodicCorrection
     double a[3];
     double grEwald[4];                   // array for potential and acceleration
     double wf[8];                        // weighting factors used for interpolation
-    static double dr1=0.0, dr2=0.0, dr3=0.0;
-    static int basemax;
 
     acorr[0] = acorr[1] = acorr[2] = 0 ;
     gpotcorr = 0 ;
@@ -635,12 +633,6 @@ void Ewald<ndim>::CalculatePeriodicCorrection
     indexBase0 = il[0] + il[1]*Ngrid[0] + il[2]*Ngrid[0]*Ngrid[1];
     indexBase1 = indexBase0 + Ngrid[0]*Ngrid[1];
 
-    if (abs(dr[0]) > dr1) dr1 = abs(dr[0]);
-    if (abs(dr[1]) > dr2) dr2 = abs(dr[1]);
-    if (abs(dr[2]) > dr3) dr3 = abs(dr[2]);
-
-    if (indexBase1 > basemax) basemax = indexBase1;
-
     for (k=0; k<=ndim; k++) {
       indexBase2 = indexBase0 + k*one_component;
       indexBase3 = indexBase1 + k*one_component;
-- 
2.43.0


From 2f0cf9e38fa9eb462d3f795234b33c471f294640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:55 +0000
Subject: [PATCH 34/54] fix: the time read from a column snapshot was scaled by
 the time unit twice

---
 src/Common/SimulationIO.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..db059a0 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -202,8 +202,10 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   infile.open(filename.c_str());
 
+  // The header is returned in code units; like all data from files, time is left in the units of
+  // the file here and only converted in ConvertToCodeUnits
   ReadColumnHeaderFile(infile, info);
-  t = info.t;
+  t = info.t*simunits.t.inscale;
   tsnaplast = t;
 
   hydro->Nhydro = info.Nhydro;
-- 
2.43.0


From 25b472f217ea48adb730a3e5db5c16759003af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:55 +0000
Subject: [PATCH 35/54] fix: serial column snapshots wrote and counted accreted
 (dead) particles

---
 src/Common/SimulationIO.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index db059a0..0ca0b44 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -446,15 +446,21 @@ template <int ndim>
 bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 {
   int i;
+  int Nlivehydro = 0;                  // No. of live (i.e. non-accreted) particles
   ofstream outfile;
 
   debug2("[Simulation::WriteColumnSnapshotFile]");
 
   cout << "Writing current data to snapshot file : " << filename << endl;
 
+  // Count the no. of live particles, which are the only ones written
+  for (i=0; i<hydro->Nhydro; i++) {
+    if (!hydro->GetParticlePointer(i).flags.is_dead()) Nlivehydro++;
+  }
+
   // Open file and read header information
   outfile.open(filename.c_str());
-  outfile << hydro->Nhydro << endl;
+  outfile << Nlivehydro << endl;
   outfile << nbody->Nstar << endl;
   outfile << ndim << endl;
   outfile << t*simunits.t.outscale << endl;
@@ -463,6 +469,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<hydro->Nhydro; i++) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     if (ndim == 1) {
       outfile << part.r[0]*simunits.r.outscale << "   "
               << part.v[0]*simunits.v.outscale << "   "
-- 
2.43.0


From c3f893a046946c1747547b35b80be07d4126317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:33 +0000
Subject: [PATCH 36/54] fix: the velocity box of Oct-tree cells was never reset

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..01daa48 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -506,6 +506,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
-- 
2.43.0


From 59c36dada58951c06ddec065b3b8ceeca8a56f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:33 +0000
Subject: [PATCH 37/54] fix: Oct-tree leaf cells without gravitating mass had
 no centre and size

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 01daa48..d5d94b5 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -571,6 +571,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         if (cell.m > 0) {
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
+        }
+        if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
-- 
2.43.0


From 40d16a8d8fb431fcbc4de5a5d4def42e95a48f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:33 +0000
Subject: [PATCH 38/54] fix: stocking a pruned Oct-tree wiped the leaf cells it
 was not to stock

---
 src/Tree/OctTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index d5d94b5..b129b83 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -484,6 +484,9 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
     for (c=firstCell[l]; c<=lastCell[l]; c++) {
       TreeCell<ndim> &cell = celldata[c];
 
+      // If not stocking leaf cells (e.g. in pruned trees), keep their properties
+      if (cell.copen == -1 && !stock_leaf) continue;
+
       // Zero all summation variables for all cells
       cell.Nactive  = 0;
       cell.N        = 0;
-- 
2.43.0


From 45db2ec04974ba214e9e54a4d8431eefb887de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:33 +0000
Subject: [PATCH 39/54] fix: the brute-force tree had no quadrupole moment in
 one dimension

---
 src/Tree/BruteForceTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/BruteForceTree.cpp b/src/Tree/BruteForceTree.cpp
index 1f97d05..2bd9ced 100644
--- a/src/Tree/BruteForceTree.cpp
+++ b/src/Tree/BruteForceTree.cpp
@@ -456,6 +456,9 @@ void BruteForceTree<ndim,ParticleType,TreeCell>::StockTreeProperties
 		  cell.q[1] += mi*(FLOAT) 3.0*dr[0]*dr[1];
 		  cell.q[2] += mi*((FLOAT) 3.0*dr[1]*dr[1] - drsqd);
 		}
+		else if (ndim == 1) {
+		  cell.q[0] += mi*((FLOAT) 3.0*dr[0]*dr[0] - drsqd);
+		}
 	  }
 	  if (i == cell.ilast) break;
 	  i = inext[i];
-- 
2.43.0


From 7896b2e8b81f01d958ad01a13c3653ae8a2c0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 40/54] fix: the root cell of the Oct-tree was built without
 its bounding box

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index b129b83..e8c7024 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -281,6 +281,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[0][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
+  for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
+  for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
   for (k=0; k<ndim; k++) {
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
-- 
2.43.0


From d0056054923229a6f4a0352aa2875bca68d4c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 41/54] fix: building an Oct-tree without particles never ended

---
 src/Tree/OctTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index e8c7024..01874b5 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -272,9 +272,11 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0]       = 0;
+  lastCell[0]        = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
@@ -297,8 +299,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
-- 
2.43.0


From b688fe97945d9f651ed1028294e3424611bbf80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 42/54] fix: the Oct-tree allocated its cells for the previous
 number of particles

---
 src/Tree/OctTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 01874b5..5793e6a 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,7 +109,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
+    gtot        = Nparticles;
 
     firstCell = new int[lmax];
     lastCell  = new int[lmax];
-- 
2.43.0


From b2d58436a4acc873323fcc3c5544da2c317a6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 43/54] fix: periodic distance correction left the non-periodic
 dimensions undefined

---
 src/Headers/GhostNeighbours.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..80ab72f 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -174,6 +174,7 @@ public:
     type_flag PeriodicDistanceCorrection(const FLOAT dr[ndim], FLOAT dr_corr[ndim]) const
     {
       type_flag bound ;
+      for (int k=0; k<ndim; k++) dr_corr[k] = 0 ;
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
@@ -186,8 +187,6 @@ public:
                 dr_corr[k] = _domain.size[k];
                 bound.set(periodic_bound_flags[k][0]) ;
               }
-              else
-                dr_corr[k] = 0 ;
             }
           }
         }
-- 
2.43.0


From fbc5bf4bc47b6f3345c0c0f087ade617e34bcd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 44/54] fix: gravity-only neighbours were selected by the type
 of another particle

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index 2223acf..efd37b0 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -460,7 +460,7 @@ private:
         neiblist.push_back(Nneib);
         neib_idx.push_back(i);
         Nneib++;
-      } else if (keep_direct && gravmask[neibdata[Nneib].ptype]) {
+      } else if (keep_direct && gravmask[partdata[i].ptype]) {
         // Hydro candidates that fail the test get demoted to direct neighbours
         neibdata.push_back(partdata[i]);
         directlist.push_back(Nneib);
-- 
2.43.0


From 644f6c9e9bb3077063d32fe7d3b093d5cc5af8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:02 +0000
Subject: [PATCH 45/54] fix: reflected ghosts were made from a reference that
 push_back invalidates

---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 80ab72f..ef50fc2 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -410,7 +410,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 199b5a59b572154d3f49f02cd80acd5c5ca6bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:31 +0000
Subject: [PATCH 46/54] fix: a full neighbour list was searched further and
 lost its overflow flag

---
 src/Tree/Tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..e7edc51 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer
+  if (Nneib == -1) return -1;
+
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From 743303c26089f77c0c7b2db6dce61f09cdc9bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:48 +0000
Subject: [PATCH 47/54] fix: gravity of gas on a star never ended when the
 neighbour lists were too small

---
 src/Tree/HydroTree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 9d6ff30..bcf5950 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -617,8 +617,13 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
       // If there are too many neighbours, reallocate the arrays and recompute the neighbour lists.
       while (okflag == -1) {
         delete[] gravcell;
+        delete[] directlist;
+        delete[] neiblist;
+        Nneibmax     = max(1, 2*Nneibmax);
         Ngravcellmax = 2*Ngravcellmax;
-        gravcell = new MultipoleMoment<ndim>[Ngravcellmax];
+        neiblist     = new int[Nneibmax];
+        directlist   = new int[Nneibmax];
+        gravcell     = new MultipoleMoment<ndim>[Ngravcellmax];
         okflag = tree->ComputeStarGravityInteractionList
          (star, macfactor, Nneibmax, Nneibmax, Ngravcellmax, Nneib,
           Ndirect, Ngravcell, neiblist, directlist, gravcell, partdata);
-- 
2.43.0


From b549ccc04440fca13ca357ae67eb05148b515b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:48 +0000
Subject: [PATCH 48/54] fix: a sink with more neighbours than the list of its
 thread accreted nothing

---
 src/Nbody/Sinks.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..ce6ea2c 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -507,6 +507,20 @@ void Sinks<ndim>::AccreteMassToSinks
       Nlist = neibsearch->GetGatherNeighbourList
        (sink[s].star->r, sink[s].radius, partdata, hydro->Nhydro, Nneibmax, neiblist);
 
+      // If there are too many neighbours so the buffers are filled,
+      // reallocate the arrays and recompute the neighbour lists.
+      while (Nlist == -1) {
+        delete[] rsqdlist;
+        delete[] neiblist;
+        delete[] ilist;
+        Nneibmax *= 2;
+        ilist = new int[Nneibmax];
+        neiblist = new int[Nneibmax];
+        rsqdlist = new FLOAT[Nneibmax];
+        Nlist = neibsearch->GetGatherNeighbourList
+         (sink[s].star->r, sink[s].radius, partdata, hydro->Nhydro, Nneibmax, neiblist);
+      }
+
       // Loop over all potential sink neighbours
       for (j=0; j<Nlist; j++) {
         i = neiblist[j];
-- 
2.43.0


From 1551bb6d82ef94dd150577c63ddaf1717cba35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 49/54] fix: glass making skipped particles with more
 neighbours than the list holds

---
 src/Ic/ICRegularization.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Ic/ICRegularization.cpp b/src/Ic/ICRegularization.cpp
index 0995c8f..e0859b1 100644
--- a/src/Ic/ICRegularization.cpp
+++ b/src/Ic/ICRegularization.cpp
@@ -84,8 +84,15 @@ void ParticleRegularizer<ndim>::operator()
         // Find list of gather neighbours
         int Nneib = neib->GetGatherNeighbourList(part.r, hydro->kernrange*part.h,
                                                  hydro->GetParticleArrayUnsafe(), hydro->Ntot,
-                                                 hydro->Nhydromax, &(neiblist[0]));
-
+                                                 (int) neiblist.size(), &(neiblist[0]));
+
+        // If there are too many neighbours, enlarge the list and recompute it
+        while (Nneib == -1) {
+          neiblist.resize(2*neiblist.size());
+          Nneib = neib->GetGatherNeighbourList(part.r, hydro->kernrange*part.h,
+                                               hydro->GetParticleArrayUnsafe(), hydro->Ntot,
+                                               (int) neiblist.size(), &(neiblist[0]));
+        }
 
         // Loop over all neighbours and calculate position correction for regularisation
         //-----------------------------------------------------------------------------------------
-- 
2.43.0


From f8723f5c1355e1640d8255d810f83f9694e8b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:23 +0000
Subject: [PATCH 50/54] fix: every density pass leaked an unused array per
 thread

---
 src/GradhSph/GradhSphTree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..3a4f93b 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -130,7 +130,6 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphProperties
     int Nneibmax = Nneibmaxbuf[ithread];       // Local copy of neighbour buffer size
     int* activelist = activelistbuf[ithread];  // Local array of active particle ids
     int* neiblist = new int[Nneibmax];         // Local array of neighbour particle ids
-    int* ptype    = new int[Nneibmax];         // Local array of particle types
     vector<typename Sph<ndim>::DensityParticle> ngb;           // Local array of neighbour data
     vector<typename Sph<ndim>::DensityParticle> ngb2;          // Local array of reduced neighbour data
     ParticleType<ndim>* activepart = activepartbuf[ithread];   // Local array of active particles
-- 
2.43.0


From 85286cb6633bfcf4831f32ada6bcff976765fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:35 +0000
Subject: [PATCH 51/54] fix: the meshless density iteration tests the
 convergence of its own h, relative to h

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 7b0bb9a..ab913f8 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (ndens > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From 0a2f67ec12531fdc851d64556cbed82f9947c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:35 +0000
Subject: [PATCH 52/54] fix: meshless grad-h and zeta terms use the sums of the
 last iteration, not the previous values

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index ab913f8..b949eff 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 140767bd8e3570e4c34ecd4e1c0bd4cc06fd4daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:35 +0000
Subject: [PATCH 53/54] fix: potential minimum flag used the distance of the
 previous neighbour

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 189db3e..d855d7f 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From 7314de4e863f8eb8139c67ba539d1d43bfd591cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:35 +0000
Subject: [PATCH 54/54] fix: SM2012 smoothing length tolerance is relative to h

---
 src/SM2013/SM2012Sph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SM2013/SM2012Sph.cpp b/src/SM2013/SM2012Sph.cpp
index cd9c9b7..d6b9418 100755
--- a/src/SM2013/SM2012Sph.cpp
+++ b/src/SM2013/SM2012Sph.cpp
@@ -184,7 +184,7 @@ int SM2012Sph<ndim, kernelclass >::ComputeH
 
     // If h changes below some fixed tolerance, exit iteration loop
     if (parti.rho > (FLOAT) 0.0 && parti.h > h_lower_bound &&
-        fabs(parti.h - h_fac*pow(parti.m*invrho,invndim)) < h_converge) break;
+        fabs(parti.h - h_fac*pow(parti.m*invrho,invndim))*invh < h_converge) break;
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim),
     // for now.  If this does not converge in a reasonable number of
-- 
2.43.0

