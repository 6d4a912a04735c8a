From b406712eed32fa8ca467e0780375d94745eeadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 01/49] fix: create HDF5 groups that do not exist yet instead
 of those that do

---
 Source/IO/Output/HDF5Output.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..96f09cd 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
@@ -30,12 +31,14 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    // Only create the group if it does not already exist
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From c8c138c4ed1336c1101738143845f7ae03a4cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 02/49] fix: histogram the configured particle property, not
 always the energy

---
 Source/IO/Output/Histogram.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..2b01204 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From e63e37245ae6c1c34ec9b2d6d0121658fa1fb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 03/49] fix: initialise the histogram entry count and do not
 divide by an empty sum

---
 Source/IO/Output/Histogram.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 2b01204..2d5cfb2 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -25,6 +25,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_particle = particle;
 	m_type = type;
 	m_time = time;
+	m_entries = 0;
 	m_nBins = nBins;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
@@ -210,6 +211,7 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
+		if (sum == 0) return;
 		for (unsigned int i = 0; i < m_nBins; i++)
 		{
 			m_binValues[i] /= sum;
-- 
2.43.0


From 34e5f924dc05aa3eb4ba93103aa0592e837b778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 04/49] fix: keep the sampled fraction of stochastic photons,
 not its complement

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From 540a32bd657b1221fee3d1142bc6b97a9e09931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 05/49] fix: rotate sampled source particles from the z axis to
 the beam direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..8117632 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -31,7 +31,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From 60941d4e795e4158fcd4208ae4553dbac79b9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 06/49] fix: give every particle of a mono-energetic source the
 mean energy

---
 Source/Particles/SourceGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 8117632..7af4fd1 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -26,6 +26,9 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
     } else if(distro == "linear" || distro == "Linear")
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+    } else if(distro == "mono" || distro == "Mono")
+    {
+        m_energy = std::vector<double>(nPart, energy1);
     } else
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
-- 
2.43.0


From cb8aa69f56997ba8779eda250b69638763f5f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 07/49] fix: keep B perpendicular to E for polarised plane and
 Gaussian lasers

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 Source/Physics/Fields/EMField/PlaneEMField.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..88b0789 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..ffb21a9 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 076a61acc4390bac7598a424bf4a7e7ebe8f8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 08/49] fix: rotate both focusing-field components from their
 unrotated values

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..1546e98 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -76,14 +76,16 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
+    double eX = eField[0];
+    eField[0] = eX * std::cos(m_polAngle)
         - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
+    eField[1] = eX * std::sin(m_polAngle)
         + eField[1] * std::cos(m_polAngle);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
+    double bX = bField[0];
+    bField[0] = bX * std::cos(m_polAngle)
         - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
+    bField[1] = bX * std::sin(m_polAngle)
         + bField[1] * std::cos(m_polAngle);
     bField = m_rotationInv * bField;
 }
\ No newline at end of file
-- 
2.43.0


From ca42e7afc6f259036a2c7a66008d2b8edb33cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 09/49] fix: centre Gaussian and focusing lasers on their focus
 position

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 2 +-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 1546e98..018ec5d 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 88b0789..5196e19 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 1fdf58d94176f53a7766c19e827a47a3a949d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 10/49] fix: no NaN depth or momentum from pair production in
 weak fields or near threshold

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..d3dec99 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -22,6 +23,8 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
     double chi = CalculateChi(part);
+    // Nothing happens without a field or below the pair rest energy
+    if (chi == 0.0 || part->GetEnergy() <= 2.0) return;
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
@@ -32,8 +35,10 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // Each lepton carries at least its rest energy
+        double pEnergy = std::max(1.0, std::min(split * part->GetEnergy(),
+            part->GetEnergy() - 1.0));
+        double eEnergy = std::max(1.0, part->GetEnergy() - pEnergy);
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0


From b27b29faedf5797056eae1493c39fed47efbe00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 11/49] fix: interpolate continuously at and beyond the last
 sample point

---
 Source/Tools/Numerics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..a6d1545 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -32,12 +32,15 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		// value is not within the range so we need to use extrapolation
 		queryData = sampleData[0] + (sampleData[1] - sampleData[0]) * ((queryPoint - samplePoints[0])
 									/ (samplePoints[1] - samplePoints[0]));
+	} else if (queryPoint == samplePoints[sampleSize-1])
+	{
+		queryData = sampleData[sampleSize-1];
 	} else if (queryPoint > samplePoints[sampleSize-1])
 	{
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
 		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
-									  * ((queryPoint - samplePoints[end-1])
+									  * ((queryPoint - samplePoints[end])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-- 
2.43.0


From 190fcc0a34fbb7e00546cae9564d6c0fac24dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 12/49] fix: let discrete sampling return the first index

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..7f98c71 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From 6d3352a41022833c3bf844ce42510102bfe5aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 13/49] fix: accept the documented "classical" physics name
 from Python

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..6e67db3 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From f7b1b282b7faccdda0f1b5214ccc2c293652153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 14/49] fix: survive a refused beamOn and refuse unusable
 event, thread and time-step values

---
 Source/Python/RunManager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 6e67db3..dac72ef 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -129,13 +129,23 @@ void RunManager::beamOn(int events, int threads)
     }
 #endif
 
+    if (events < 0 || threads < 1)
+    {
+        std::cerr << "Error in beamOn(): events must not be negative and at "
+                     "least one thread is needed." << std::endl;
+        return;
+    }
+
     delete m_pusher;
     delete m_generator;
     delete m_field;
+    m_pusher = nullptr;
+    m_generator = nullptr;
+    m_field = nullptr;
     m_processList.clear();
 
     // Check for time / field properties
-    if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
+    if (!(m_timeStep > 0) || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From 001a23fe79de728a183c88787f9f3e878eba0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 15/49] fix: refuse an unknown particle type in setGenerator
 instead of exiting in beamOn

---
 Source/Python/RunManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index dac72ef..2eb1948 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -85,6 +85,14 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
+    if (particleType != "Photon" && particleType != "photon" &&
+        particleType != "Electron" && particleType != "electron" &&
+        particleType != "Positron" && particleType != "positron")
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type." << std::endl;
+        return;
+    }
     m_genSet = true;
     m_particleType = particleType;
     m_energyDist = energyDist;
-- 
2.43.0


From 1a8e140e5e24e4aa9baef9820061e4fe79ce0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 16/49] fix: honour the default, exponents, signs and
 separators when reading vectors

---
 Source/IO/Input/INIReader.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..a78d062 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == ' ' || c == 'e'
+                || c == 'E' || std::isdigit((unsigned char)c))
             {
                 return false;
             } else
@@ -102,9 +103,9 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    // Anything which is not part of a number separates numbers
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
@@ -118,7 +119,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
-    return vector;
+    return i > 0 ? vector : default_value;
 }
 
 bool INIReader::HasValue(const std::string& section, const std::string& name) const
-- 
2.43.0


From a60dfa5fb069c5746b880b821c569ae1c84364d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 17/49] fix: refuse a short command line argument instead of
 crashing on it

---
 Source/Exec/QEDCASC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..9826577 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,8 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4
+            && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From 675df1650597c1a88403dfbececf44cd876b2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 18/49] fix: hand every source sample to exactly one thread

---
 Source/Particles/SourceGenerator.cpp | 29 ++++++++++++++--------------
 Source/Particles/SourceGenerator.hh  |  3 ++-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 7af4fd1..192b52a 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -43,38 +43,40 @@ SourceGenerator::~SourceGenerator()
 
 ParticleList* SourceGenerator::GenerateList()
 {
-    if (m_partCount == m_nPart)
+    // Each sample is used once, even if several threads ask at the same time
+    unsigned int index = m_partCount++;
+    if (index >= m_nPart)
     {
         std::cerr << "Error: Particle source depleted." << std::endl;
         std::exit(1);
     }
-    ParticleList* list = new ParticleList(std::to_string(m_partCount));
+    ParticleList* list = new ParticleList(std::to_string(index));
 
-    ThreeVector partPosition = ThreeVector(m_xPos[m_partCount],
-                                           m_yPos[m_partCount],
-                                           m_zPos[m_partCount]);
+    ThreeVector partPosition = ThreeVector(m_xPos[index],
+                                           m_yPos[index],
+                                           m_zPos[index]);
     partPosition = m_rotaion * partPosition + m_position;
 
-    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[m_partCount])
-                                          * std::cos(m_phiDir[m_partCount]),
-                                            std::sin(m_thetaDir[m_partCount])
-                                          * std::sin(m_phiDir[m_partCount]),
-                                            std::cos(m_thetaDir[m_partCount]));
+    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[index])
+                                          * std::cos(m_phiDir[index]),
+                                            std::sin(m_thetaDir[index])
+                                          * std::sin(m_phiDir[index]),
+                                            std::cos(m_thetaDir[index]));
     partDirection = m_rotaion * partDirection;
 
     if (m_type == "Photon" || m_type == "photon")
     {
-        Photon* part = new Photon(m_energy[m_partCount], partPosition,
+        Photon* part = new Photon(m_energy[index], partPosition,
             partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Electron" || m_type == "electron")
     {
-        Lepton* part = new Lepton(1.0, -1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, -1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Positron" || m_type == "positron")
     {
-        Lepton* part = new Lepton(1.0, 1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, 1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else
@@ -83,7 +85,6 @@ ParticleList* SourceGenerator::GenerateList()
         std::cerr << "Exiting!\n";
         exit(-1);
     }
-    m_partCount++;
     return list;
 }
 
diff --git a/Source/Particles/SourceGenerator.hh b/Source/Particles/SourceGenerator.hh
index c10bd3b..8eadf97 100644
--- a/Source/Particles/SourceGenerator.hh
+++ b/Source/Particles/SourceGenerator.hh
@@ -1,6 +1,7 @@
 #ifndef SOURCEGENERATOR_HH
 #define SOURCEGENERATOR_HH
 
+#include <atomic>
 #include <vector>
 #include "ThreeVector.hh"
 #include "ParticleList.hh"
@@ -36,7 +37,7 @@ private:
     std::vector<double> m_thetaDir;
     std::vector<double> m_phiDir;
     std::vector<double> m_energy;
-    unsigned int m_partCount;
+    std::atomic<unsigned int> m_partCount;
     ThreeMatrix m_rotaion;
     bool m_track;
 };
-- 
2.43.0


From 8f565d4120a026f9f86617132ebe3288236f211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 19/49] fix: do not share one random number generator between
 threads

---
 Source/Tools/MCTools.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..4311dcb 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,7 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // One generator per thread, they are not safe to share
+    static thread_local std::mt19937 generator(std::random_device{}());
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 5d5fbac6634d453bc73feede892e77e38b21894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 20/49] fix: make SetSeed seed the generator that is sampled

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index 7f98c71..019b8ad 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -4,7 +4,7 @@
 
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    generator.seed(seed);
 }
 
 double MCTools::RandDouble(double low, double high)
-- 
2.43.0


From 00ff501bc79a570937d13209cb7fcee29821fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 21/49] fix: protect histograms and stored tracks shared
 between threads

---
 Source/Exec/QEDCASC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 9826577..4a2ffa6 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -220,6 +220,9 @@ int main(int argc, char* argv[])
                             if (histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
+#ifdef USEOPENMP
+                                #pragma omp critical(histogram)
+#endif
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
                             }
                         }
@@ -245,6 +248,9 @@ int main(int argc, char* argv[])
                     if (histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical(histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
@@ -252,7 +258,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical(track)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0


From 21137cdd2efce4b7e9f8cd68f5c462f3d792befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 22/49] fix: return a unit vector from Direction

---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From 8e7f4e3d19fee62ef0a8d2971df7c5b6f730bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 23/49] fix: keep particles at rest finite by not normalising a
 zero vector to NaN

---
 Source/Tools/ThreeVector.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..9097f90 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -59,7 +59,10 @@ public:
 
 	ThreeVector Norm() const
 	{
-		return *this / Mag();
+		double mag = Mag();
+		// A zero vector has no direction and stays zero
+		if (mag == 0.0) return *this;
+		return *this / mag;
 	}
 
 	// Returns the dot product
-- 
2.43.0


From d21c455c1130aeec70f47cf465cae2161118ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 24/49] fix: rotate a vector onto any antiparallel axis, not
 only along x or z

---
 Source/Tools/ThreeVector.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 9097f90..edc2ac4 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -101,9 +101,18 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Half a turn about any unit vector perpendicular to the axis
+			ThreeVector norm2 = axis.Norm();
+			ThreeVector perp = std::fabs(norm2[0]) < 0.9
+				? norm2.Cross(ThreeVector(1, 0, 0)).Norm()
+				: norm2.Cross(ThreeVector(0, 1, 0)).Norm();
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					rotation[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From 551b94d9241c60844b8365ebee0ae74a0a453876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 25/49] fix: clear the off-diagonal elements when setting the
 identity matrix

---
 Source/Tools/ThreeMatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Tools/ThreeMatrix.hh b/Source/Tools/ThreeMatrix.hh
index 1848278..9ac46bd 100644
--- a/Source/Tools/ThreeMatrix.hh
+++ b/Source/Tools/ThreeMatrix.hh
@@ -34,6 +34,7 @@ public:
 
 	void Ideneity()
 	{
+		Zeros();
 		m_data[0] = 1.0;
 		m_data[4] = 1.0;
 		m_data[8] = 1.0;
-- 
2.43.0


From 10c0bbc88cc67b9c371b72f7e2dcef0d4c4e041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 26/49] fix: record each tracked point with the time it was
 reached

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From d1b0cafcbcb8bf5e479c442aa92b743cbf0e7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 27/49] fix: do not push particles again in the step that
 created them

---
 Source/Exec/QEDCASC.cpp      | 6 ++++--
 Source/Python/RunManager.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 4a2ffa6..0d81594 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -229,8 +229,10 @@ int main(int argc, char* argv[])
                         histCount++;
                     }
                 }
-                // Push particles and interact
-                for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
+                // Push particles and interact. Particles made during this step
+                // are already at its end, so they start moving with the next one
+                unsigned int nPart = event->GetNPart();
+                for (unsigned int k = 0; k < nPart; k++) // Loop particles
                 {
                     pusher->PushParticle(event->GetParticle(k));
                     for (unsigned int proc = 0; proc < processList.size(); proc++) // loop processes
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 2eb1948..be9f165 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -245,8 +245,10 @@ void RunManager::beamOn(int events, int threads)
         double time(0);
         while(time < m_timeEnd) //loop time
         {
-            // Push particles and interact
-            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
+            // Push particles and interact. Particles made during this step
+            // are already at its end, so they start moving with the next one
+            unsigned int nPart = event->GetNPart();
+            for (unsigned int j = 0; j < nPart; j++) // Loop particles
             {
                 m_pusher->PushParticle(event->GetParticle(j));
                 for (unsigned int proc = 0; proc < m_processList.size(); proc++) // loop processes
-- 
2.43.0


From 05d679a713fd8db5406615a5a38b4553f3a30168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 28/49] fix: do not report photons that have been converted to
 pairs as final photons

---
 Source/Exec/QEDCASC.cpp            | 6 ++++--
 Source/IO/Output/OutputManager.cpp | 2 ++
 Source/Python/RunManager.cpp       | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 0d81594..7505dda 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -217,7 +217,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
 #ifdef USEOPENMP
@@ -247,7 +248,8 @@ int main(int argc, char* argv[])
             {
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
 #ifdef USEOPENMP
diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..efa9a27 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -239,6 +239,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -251,6 +252,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index be9f165..5b1ffed 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -262,6 +262,7 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From f5133e5cec48f63c17557642bca321109728da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 29/49] fix: fill every histogram that is due at a time, not
 one per step

---
 Source/Exec/QEDCASC.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 7505dda..b642786 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -210,25 +210,22 @@ int main(int argc, char* argv[])
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                while (histCount < histograms.size()
+                    && time >= histograms[histCount]->GetTime())
                 {
-                 //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
-                    if(time >= histograms[histCount]->GetTime())
+                    for (unsigned int k = 0; k < event->GetNPart(); k++)
                     {
-                        for (unsigned int k = 0; k < event->GetNPart(); k++)
+                        if (event->GetParticle(k)->IsAlive() &&
+                            histograms[histCount]->GetParticle() == 
+                            event->GetParticle(k)->GetName())
                         {
-                            if (event->GetParticle(k)->IsAlive() &&
-                                histograms[histCount]->GetParticle() == 
-                                event->GetParticle(k)->GetName())
-                            {
 #ifdef USEOPENMP
-                                #pragma omp critical(histogram)
+                            #pragma omp critical(histogram)
 #endif
-                                histograms[histCount]->AppParticle(event->GetParticle(k));
-                            }
+                            histograms[histCount]->AppParticle(event->GetParticle(k));
                         }
-                        histCount++;
                     }
+                    histCount++;
                 }
                 // Push particles and interact. Particles made during this step
                 // are already at its end, so they start moving with the next one
-- 
2.43.0


From b288435e0ee488a572244776317db5c9f848b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 30/49] fix: track the electrons and positrons of pairs when
 tracking is on

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index b642786..37d4c96 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -145,7 +145,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From 43fb3413ba965d00482d93349091512746df9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 31/49] fix: space the photon chi axis by its own length, not
 that of the eta axis

---
 Source/Physics/Processes/PhotonEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..0fb8cd8 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -123,7 +123,7 @@ void PhotonEmission::LoadTables()
         double logMinChi = std::log10(m_phEn_chiMinAxis[i]);
         m_phEn_etaAxis[i] = logMinEta + i * deltaEta;
         double deltaChi = (m_phEn_etaAxis[i] - std::log10(2.0)
-            - logMinChi)  / (m_phEn_etaLength - 1.0);
+            - logMinChi)  / (m_phEn_chiLength - 1.0);
         for (unsigned int j = 0; j < m_phEn_chiLength; j++)
         {
             m_phEn_chiAxis[i][j] = logMinChi + j * deltaChi;
-- 
2.43.0


From cf93527a070720111eab0876c508ce5cf2eafa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 32/49] fix: do not scale the dimensionless gamma of tracks by
 the time unit

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index efa9a27..cdd5edb 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -483,7 +483,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From 5e211b623a5eb25757942989750965f8f93e3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 33/49] fix: refuse a time step that never reaches the end of
 the simulation

---
 Source/IO/Input/FileParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c4ce767..1118c45 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -65,6 +65,12 @@ void FileParser::ReadGeneral()
     m_general.units = m_reader->GetString("General", "units", "None");
     m_units = new UnitsSystem(m_general.units);
     m_general.timeStep = m_reader->GetReal("General", "time_step", 0) / m_units->RefTime();
+    if (!(m_general.timeStep > 0))
+    {
+        std::cerr << "Input error: \"time_step\" must be greater than zero\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
     m_general.fileName = m_reader->GetString("General", "file_name", "out.h5");
     m_general.tracking = m_reader->GetBoolean("General", "tracking", false);
-- 
2.43.0


From bfc0ac8b1b35b62c8692441bb7d48bb11e00bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 34/49] fix: give leptons the requested energy, not a momentum
 of that size

---
 Source/Particles/Lepton.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Particles/Lepton.cpp b/Source/Particles/Lepton.cpp
index f283046..86f7b17 100644
--- a/Source/Particles/Lepton.cpp
+++ b/Source/Particles/Lepton.cpp
@@ -1,3 +1,6 @@
+#include <algorithm>
+#include <cmath>
+
 #include "Lepton.hh"
 
 Lepton::Lepton(double mass, double charge, const ThreeVector &position, 
@@ -16,8 +19,9 @@ Particle(mass, charge, position, momentum, weight, time, tracking)
 Lepton::Lepton(double mass, double charge, double energy,
     const ThreeVector &position, const ThreeVector &direction, double weight,
     double time, bool tracking):
-Particle(mass, charge, position, energy * direction.Norm(), weight, time,
-    tracking)
+Particle(mass, charge, position,
+    std::sqrt(std::max(energy * energy - mass * mass, 0.0)) * direction.Norm(),
+    weight, time, tracking)
 {
     if (charge == -1)
     {
-- 
2.43.0


From 1f0de624605d724786f62fd79a1ff0bb5ba6f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 35/49] fix: write each particle source to a group of its own
 instead of failing on the second

---
 Source/IO/Output/OutputManager.cpp | 38 ++++++++++++++++--------------
 Source/IO/Output/OutputManager.hh  |  8 ++++++-
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index cdd5edb..c442bdc 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -328,15 +328,21 @@ void OutputManager::StoreTrack(ParticleList* partList, unsigned int eventID)
     }
 }
 
+std::string OutputManager::NextSourceGroup()
+{
+    // Every source has a group of its own
+    m_particleSourceCount++;
+    std::string name = "Particles/ParticleSource";
+    if (m_particleSourceCount > 1) name += std::to_string(m_particleSourceCount);
+    m_outputFile->AddGroup(name);
+    return name;
+}
+
 void OutputManager::OutputEvents(bool outSource, bool outTrack)
 {
     if (outSource == true)
     {
-        if (m_particleSourceBool == false)
-        {
-            m_outputFile->AddGroup("Particles/ParticleSource");
-            m_particleSourceBool = true;
-        }
+        std::string sourceName = NextSourceGroup();
         double* primeBuff = new double [m_primaryEvent.size()*8];
         for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
         {
@@ -350,7 +356,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             primeBuff[i*8+7] = m_primaryEvent[i][7];
         }
         m_outputFile->AddArray2D(primeBuff, m_primaryEvent.size(), 8,
-                "Particles/ParticleSource/Primary");
+                sourceName + "/Primary");
 
         unsigned int totalElectrons = 0;
         unsigned int totalPositrons = 0;
@@ -412,17 +418,17 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         if (totalElectrons > 0)
         {
             m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
-                    "Particles/ParticleSource/Electrons");
+                    sourceName + "/Electrons");
         }
         if (totalPositrons > 0)
         {
             m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
-                    "Particles/ParticleSource/Positrons");
+                    sourceName + "/Positrons");
         }
         if (totalPhotons > 0)
         {
             m_outputFile->AddArray2D(photonBuff, totalPhotons, 8,
-                    "Particles/ParticleSource/Photons");
+                    sourceName + "/Photons");
         }
         delete [] primeBuff;
         delete [] electronBuff;
@@ -564,11 +570,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
         if (id == 0)
         {
             // We are master
-            if (m_particleSourceBool == false)
-            {
-                m_outputFile->AddGroup("Particles/ParticleSource");
-                m_particleSourceBool = true;
-            }
+            std::string sourceName = NextSourceGroup();
 
             // First start with primary sources
             int arraysize[nProc];
@@ -620,7 +622,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
                 delete[] procBuff;
             }
             m_outputFile->AddArray2D(primeBuff, totalSize / 8, 8,
-                "Particles/ParticleSource/Primary");
+                sourceName + "/Primary");
             delete[] primeBuff;
 
             // Now we move on the end events
@@ -763,17 +765,17 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
             if (totalelectronSize > 0)
             {
                 m_outputFile->AddArray2D(electronBuff, totalelectronSize / 8, 8,
-                        "Particles/ParticleSource/Electrons");
+                        sourceName + "/Electrons");
             }
             if (totalpositronSize > 0)
             {
                 m_outputFile->AddArray2D(positronBuff, totalpositronSize / 8, 8,
-                        "Particles/ParticleSource/Positrons");
+                        sourceName + "/Positrons");
             }
             if (totalphotonSize > 0)
             {
                 m_outputFile->AddArray2D(photonBuff, totalphotonSize / 8, 8,
-                        "Particles/ParticleSource/Photons");
+                        sourceName + "/Photons");
             }
             delete [] electronBuff;
             delete [] positronBuff;
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..8a13753 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -62,6 +62,10 @@ public:
 #endif
 
 
+private:
+    // Adds the group for the next source and returns its name
+    std::string NextSourceGroup();
+
 private:
     HDF5Output* m_outputFile;
     UnitsSystem* m_units;
@@ -69,7 +73,9 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
-    bool m_particleSourceBool = false;
+
+    // Number of sources that have been output
+    unsigned int m_particleSourceCount = 0;
 
     // Structures holding data for source outputs
     std::vector<double*> m_primaryEvent;
-- 
2.43.0


From 0f69cc62344968124354410d1890311d85ba6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 36/49] fix: write the tracks of each source once, in a group
 independent of particle lists

---
 Source/IO/Output/OutputManager.cpp | 13 ++++++++++---
 Source/IO/Output/OutputManager.hh  |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index c442bdc..7688763 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -439,10 +439,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
@@ -462,7 +462,8 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         // Loop through all the tracks
         for (unsigned int i = 0; i < m_idTrack.size(); i++)
         {
-            std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);
+            std::string eventName = "Particles/ParticleTrack/Event"
+                + std::to_string(m_trackCount++);
             m_outputFile->AddGroup(eventName);
 
             double* posBuff = new double [3*m_positionTrack[i].size()];
@@ -502,6 +503,12 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             delete[] gammaBuff;
         }
 
+        // These tracks are done, another source adds its own
+        m_idTrack.clear();
+        m_positionTrack.clear();
+        m_momentumTrack.clear();
+        m_timeTrack.clear();
+        m_gammaTrack.clear();
     }
 }
 
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index 8a13753..0813274 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -73,10 +73,14 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
 
     // Number of sources that have been output
     unsigned int m_particleSourceCount = 0;
 
+    // Number of tracks that have been output
+    unsigned int m_trackCount = 0;
+
     // Structures holding data for source outputs
     std::vector<double*> m_primaryEvent;
     std::vector<double*> m_electronEvent;
-- 
2.43.0


From 8e201788c76bbfd30aee7074053e22f1a8786536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 37/49] fix: emit photons along the direction the lepton had
 before the recoil

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index 82de4c9..13c39f0 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // The recoil of a slow lepton can reverse its direction
+        ThreeVector direction = part->GetDirection();
+        ThreeVector gammaP = gammaE * direction;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                direction, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From 1f4c2fb689c17d1559d80a5bd78b8a484c79361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 38/49] fix: find input sections without regard to case, as
 their keys are

---
 Source/IO/Input/FileParser.cpp | 12 ++++--------
 Source/IO/Input/FileParser.hh  |  1 -
 Source/IO/Input/INIReader.cpp  | 10 ++++++++++
 Source/IO/Input/INIReader.hh   |  3 +++
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 1118c45..1fbbb73 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -1,4 +1,3 @@
-#include <algorithm>
 #include "FileParser.hh"
 #include "UnitsSystem.hh"
 #include <fstream>
@@ -7,7 +6,6 @@ FileParser::FileParser(std::string fileName, bool checkOutput):
 m_checkOutput(checkOutput)
 {
     m_reader = new INIReader(fileName);
-    m_sections = m_reader->GetSections();
     CheckVitals();
 
     if (m_checkOutput == true)
@@ -37,7 +35,7 @@ FileParser::~FileParser()
 
 void FileParser::CheckVitals()
 {
-    if (std::find(m_sections.begin(), m_sections.end(), "General") == m_sections.end())
+    if (!m_reader->HasSection("General"))
     {
         std::cerr << "Input error: File does not contain \"General\" field\n";
         std::cerr << "Exiting!\n";
@@ -89,7 +87,7 @@ void FileParser::ReadGeneral()
 
 void FileParser::ReadField()
 {
-    if (std::find(m_sections.begin(), m_sections.end(), "Field") != m_sections.end())
+    if (m_reader->HasSection("Field"))
     {
         m_field.Type = m_reader->GetString("Field", "field_type", "");
         if (m_field.Type != "gaussian" && m_field.Type != "plane"
@@ -210,8 +208,7 @@ void FileParser::ReadParticles()
     while(true)
     {
         std::string partField = "Particle" + std::to_string(i);
-        if (std::find(m_sections.begin(), m_sections.end(), partField) 
-             != m_sections.end())
+        if (m_reader->HasSection(partField))
         {
             ParticleParameters source;
             source.Number   = m_reader->GetInteger(partField, "number_particles", 1);
@@ -265,8 +262,7 @@ void FileParser::ReadHistograms()
     while(true)
     {
         std::string histField = "Histogram" + std::to_string(i);
-        if (std::find(m_sections.begin(), m_sections.end(), histField) 
-             != m_sections.end())
+        if (m_reader->HasSection(histField))
         {
             HistogramParameters histogram;
             histogram.Name = m_reader->GetString(histField, "name", histField);
diff --git a/Source/IO/Input/FileParser.hh b/Source/IO/Input/FileParser.hh
index a3fddf0..3e8b8fd 100644
--- a/Source/IO/Input/FileParser.hh
+++ b/Source/IO/Input/FileParser.hh
@@ -99,7 +99,6 @@ private:
     void ReadHistograms();
 
 private:
-    std::vector<std::string> m_sections;
     GeneralParameters m_general;
     FieldParameters m_field;
     PhysicsParameters m_physics;
diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index a78d062..f010122 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -128,6 +128,16 @@ bool INIReader::HasValue(const std::string& section, const std::string& name) co
     return _values.count(key);
 }
 
+bool INIReader::HasSection(const std::string& section) const
+{
+    string key = MakeKey(section, "");
+    for (const string& present : _sections)
+    {
+        if (MakeKey(present, "") == key) return true;
+    }
+    return false;
+}
+
 string INIReader::MakeKey(const string& section, const string& name)
 {
     string key = section + "=" + name;
diff --git a/Source/IO/Input/INIReader.hh b/Source/IO/Input/INIReader.hh
index 9f081a1..ef6145e 100644
--- a/Source/IO/Input/INIReader.hh
+++ b/Source/IO/Input/INIReader.hh
@@ -58,6 +58,9 @@ public:
     // Return true if a value exists with the given section and field names.
     bool HasValue(const std::string& section, const std::string& name) const;
 
+    // Return true if the file has a section of the given name (not case sensitive).
+    bool HasSection(const std::string& section) const;
+
     std::vector<std::string> GetSections() const;
 
 private:
-- 
2.43.0


From 0e51ebcf2fbcaeafa59ececade363fb77baf679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 39/49] fix: release the events of a source when the next one
 starts

---
 Source/IO/Output/OutputManager.cpp | 7 +++++++
 Source/IO/Output/OutputManager.hh  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 7688763..e26b8d8 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -49,6 +49,11 @@ OutputManager::~OutputManager()
 #ifdef USEMPI
     }
 #endif
+    FreeSource();
+}
+
+void OutputManager::FreeSource()
+{
     for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
     {
         delete [] m_primaryEvent[i];
@@ -209,6 +214,8 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
 
 void OutputManager::InitSource(unsigned int nEvents)
 {
+    // The events of the source before have been written
+    FreeSource();
     m_primaryEvent  = std::vector<double*>(nEvents);
     m_electronEvent = std::vector<double*>(nEvents);
     m_positronEvent = std::vector<double*>(nEvents);
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index 0813274..0df8147 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -66,6 +66,9 @@ private:
     // Adds the group for the next source and returns its name
     std::string NextSourceGroup();
 
+    // Releases the event data kept for the current source
+    void FreeSource();
+
 private:
     HDF5Output* m_outputFile;
     UnitsSystem* m_units;
-- 
2.43.0


From b9502305c047ffd0e61803aa4856a4414a4df54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 40/49] fix: release the table written for the properties of a
 list

---
 Source/IO/Output/OutputManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index e26b8d8..2ecf670 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -210,6 +210,7 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
         dataBuff[i*5+4] = partList->GetParticle(i)->GetPosition()[2];
     }
     m_outputFile->AddArray2D(dataBuff, partList->GetNPart(), 5, groupName + "/" + setName);
+    delete [] dataBuff;
 }
 
 void OutputManager::InitSource(unsigned int nEvents)
-- 
2.43.0


From 7c2ac5bdb6a97169fa2047ba14adb7d96dfd032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 41/49] fix: release the processes of a run when the next one
 starts

---
 Source/Python/RunManager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 5b1ffed..387a62f 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -29,7 +29,10 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
-    m_processList.clear();
+    for (unsigned int i = 0; i < m_processList.size(); i++)
+    {
+        delete m_processList[i];
+    }
 }
 
 void RunManager::setTime(double timeStep, double timeEnd)
@@ -150,6 +153,10 @@ void RunManager::beamOn(int events, int threads)
     m_pusher = nullptr;
     m_generator = nullptr;
     m_field = nullptr;
+    for (unsigned int i = 0; i < m_processList.size(); i++)
+    {
+        delete m_processList[i];
+    }
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From 7420e4302059af6a835fac4eecac231cf6bbfbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 42/49] fix: end with an error when the output file cannot be
 written

---
 Source/IO/Output/HDF5Output.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 96f09cd..2f28c3c 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <cstdlib>
 
 #include "HDF5Output.hh"
 
@@ -23,6 +24,23 @@ HDF5Output::~HDF5Output()
 {
     delete m_subGroup;
     delete m_group;
+    // What is still in memory is written now, so this may fail
+    try
+    {
+        if (m_file != NULL)
+        {
+            m_file->flush(H5F_SCOPE_GLOBAL);
+            m_file->close();
+        }
+    }
+    catch (const H5::Exception& error)
+    {
+        std::cerr << "Error: Failed to write output file \"" << m_fileName << "\"."
+                  << std::endl;
+        // HDF5 would try again at a normal exit, with a broken file
+        std::cout.flush();
+        std::_Exit(1);
+    }
     delete m_file;
 }
 
@@ -58,6 +76,7 @@ void HDF5Output::AddArray1D(double* data, hsize_t length, std::string dataName)
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(), 
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &length)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    set->close(); // fails if the data cannot be written
     delete set;
 }
 
@@ -68,6 +87,7 @@ void HDF5Output::AddArray2D(double* data, hsize_t xLength, hsize_t yLength,
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dimensions)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    set->close(); // fails if the data cannot be written
     delete set;
 }
 
@@ -79,5 +99,6 @@ void HDF5Output::AddArray3D(double* data, hsize_t xLength, hsize_t yLength,
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(3, dimensions)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    set->close(); // fails if the data cannot be written
     delete set;
 }
\ No newline at end of file
-- 
2.43.0


From 0baf13588b31663dca657f1f27a9564e4e1426c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 43/49] fix: refuse a data table that ends early or cannot be
 read

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 10 ++++++++++
 Source/Physics/Processes/PhotonEmission.cpp        | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index d3dec99..a7c3605 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -146,6 +146,16 @@ void NonLinearBreitWheeler::LoadTables()
             fractFile >> m_eFract_dataTable[i][j];
         }
     }
+
+    if (!tFile || !fractFile || !epsilonFile || !chiFile)
+    {
+        std::string name = !tFile ? "/pairprod.table" : !fractFile
+            ? "/e_split.table" : !epsilonFile ? "/epsilon.table" : "/log_chi.table";
+        std::cerr << "ERROR: Data table for pair production is incomplete!"
+                  << std::endl;
+        std::cerr << "File at: " << path + name << std::endl;
+        exit(1);
+    }
 }
 
 void NonLinearBreitWheeler::UnloadTables()
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 0fb8cd8..4bcd712 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -138,6 +138,16 @@ void PhotonEmission::LoadTables()
 
         }
     }
+
+    if (!hFile || !phEnFile || !chiMinFile)
+    {
+        std::string name = !hFile ? "/hsokolov.table" : !phEnFile
+            ? "/ksi_sokolov.table" : "/chimin.table";
+        std::cerr << "ERROR: Data table for photon emission is incomplete!"
+                  << std::endl;
+        std::cerr << "File at: " << path + name << std::endl;
+        exit(1);
+    }
 }
 
 void PhotonEmission::UnloadTables()
-- 
2.43.0


From 6e4a4e4d34b43ac966842cebe7ff1a0eb3c4ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 44/49] fix: end with an error when the input file cannot be
 read to its end

---
 Source/IO/Input/INIReader.cpp | 5 +++++
 Source/IO/Input/ini.cpp       | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index f010122..c0a5041 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -31,6 +31,11 @@ INIReader::INIReader(const string& filename)
     }
 
     _error = ini_parse(filename.c_str(), ValueHandler, this);
+    if (_error < 0)
+    {
+        std::cerr << "Error: SFQED input could not be read." << std::endl;
+        exit(1);
+    }
 }
 
 int INIReader::ParseError() const
diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 82d02a2..e4e11f1 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -227,6 +227,8 @@ int ini_parse(const char* filename, ini_handler handler, void* user)
     if (!file)
         return -1;
     error = ini_parse_file(file, handler, user);
+    if (ferror(file))
+        error = -1;
     fclose(file);
     return error;
 }
-- 
2.43.0


From 407cc0321ecb1706d7c9d7efdae68053e6614c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 45/49] fix: refuse an empty data table instead of using an
 unset length

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 2 ++
 Source/Physics/Processes/PhotonEmission.cpp        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index a7c3605..16bd7f4 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -118,6 +118,7 @@ void NonLinearBreitWheeler::LoadTables()
         exit(1);
     }
 
+    m_t_length = 0;
     tFile >> m_t_length;
     m_t_chiAxis = new double [m_t_length];
     m_t_dataTable = new double [m_t_length];
@@ -130,6 +131,7 @@ void NonLinearBreitWheeler::LoadTables()
         m_t_dataTable[i] = logTable;
     }
 
+    m_efract_length = 0;
     fractFile >> m_efract_length;
     m_eFract_chiAxis = new double [m_efract_length];
     m_eFract_fractAxis = new double [m_efract_length];
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 4bcd712..c2ac375 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -86,6 +86,7 @@ void PhotonEmission::LoadTables()
     }
 
     // h table
+    m_h_length = 0;
     hFile >> m_h_length;
     m_h_dataTable = new double [m_h_length];
     m_h_etaAxis   = new double [m_h_length];
@@ -100,6 +101,8 @@ void PhotonEmission::LoadTables()
 
     // photon energy and chi min tables
     double logMaxEta, logMinEta;
+    m_phEn_etaLength = 0;
+    m_phEn_chiLength = 0;
     phEnFile >> m_phEn_etaLength >> m_phEn_chiLength >> logMinEta >> logMaxEta;
     m_phEn_etaAxis = new double [m_phEn_etaLength];
     m_phEn_chiMinAxis = new double [m_phEn_etaLength];
-- 
2.43.0


From d163254cfc3d709e681e133b1ea801311c8896ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 46/49] fix: write long histories of particles without using
 the stack

---
 Source/IO/Output/OutputManager.cpp | 72 +++++++++++++++++-------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 2ecf670..d8fb7e7 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -90,14 +90,19 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             time = m_units->RefTime();
         }
 
-        double posBuff[3*part->GetPosHist().size()];
-        double momBuff[3*part->GetMomHist().size()];
-        double timeBuff[part->GetTimeHist().size()];
-        double gammaBuff[part->GetGammaHist().size()];      
-        for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+        // Histories can be long, too long for the stack or to be copied often
+        const std::vector<ThreeVector> posHist = part->GetPosHist();
+        const std::vector<ThreeVector> momHist = part->GetMomHist();
+        const std::vector<double> timeHist = part->GetTimeHist();
+        const std::vector<double> gammaHist = part->GetGammaHist();
+        std::vector<double> posBuff(3*posHist.size());
+        std::vector<double> momBuff(3*momHist.size());
+        std::vector<double> timeBuff(timeHist.size());
+        std::vector<double> gammaBuff(gammaHist.size());
+        for (unsigned int i = 0; i < posHist.size(); i++)
         {
-            ThreeVector pos = part->GetPosHist()[i];
-            ThreeVector mom = part->GetMomHist()[i];
+            ThreeVector pos = posHist[i];
+            ThreeVector mom = momHist[i];
             posBuff[3*i]   = pos[0] * length;
             posBuff[3*i+1] = pos[1] * length;
             posBuff[3*i+2] = pos[2] * length;
@@ -105,20 +110,20 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             momBuff[3*i+1] = mom[1] * momentum;
             momBuff[3*i+2] = mom[2] * momentum;
         }
-        for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+        for (unsigned int i = 0; i < timeHist.size(); i++)
         {
-            timeBuff[i] = part->GetTimeHist()[i] * time;
+            timeBuff[i] = timeHist[i] * time;
         }
-        for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+        for (unsigned int i = 0; i < gammaHist.size(); i++)
         {
-            gammaBuff[i] = part->GetGammaHist()[i];
+            gammaBuff[i] = gammaHist[i];
         }
         std::string groupName = "Particles/Single/" + name;
         m_outputFile->AddGroup(groupName);
-        m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-        m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-        m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-        m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+        m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+        m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+        m_outputFile->AddArray1D(timeBuff.data(), timeHist.size(), groupName + "/Time");
+        m_outputFile->AddArray1D(gammaBuff.data(), gammaHist.size(), groupName + "/Gamma");
     }
 }
 
@@ -154,38 +159,43 @@ void OutputManager::ListTracks(ParticleList* partList, std::string name)
                 time = m_units->RefTime();
             }
 
-            double posBuff[3*part->GetPosHist().size()];
-            double momBuff[3*part->GetMomHist().size()];
-            double timeBuff[part->GetTimeHist().size()];
-            double gammaBuff[part->GetGammaHist().size()];      
-            for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+            // Histories can be long, too long for the stack or to be copied often
+            const std::vector<ThreeVector> posHist = part->GetPosHist();
+            const std::vector<ThreeVector> momHist = part->GetMomHist();
+            const std::vector<double> timeHist = part->GetTimeHist();
+            const std::vector<double> gammaHist = part->GetGammaHist();
+            std::vector<double> posBuff(3*posHist.size());
+            std::vector<double> momBuff(3*momHist.size());
+            std::vector<double> timeBuff(timeHist.size());
+            std::vector<double> gammaBuff(gammaHist.size());
+            for (unsigned int i = 0; i < posHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    posBuff[3*i+j] = part->GetPosHist()[i][j] * length;
+                    posBuff[3*i+j] = posHist[i][j] * length;
                 }
             }
-            for (unsigned int i = 0; i < part->GetMomHist().size(); i++)
+            for (unsigned int i = 0; i < momHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    momBuff[3*i+j] = part->GetMomHist()[i][j] * momentum;
+                    momBuff[3*i+j] = momHist[i][j] * momentum;
                 }
             }
-            for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+            for (unsigned int i = 0; i < timeHist.size(); i++)
             {
-                timeBuff[i] = part->GetTimeHist()[i] * time;
+                timeBuff[i] = timeHist[i] * time;
             }
-            for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+            for (unsigned int i = 0; i < gammaHist.size(); i++)
             {
-                gammaBuff[i] = part->GetGammaHist()[i];
+                gammaBuff[i] = gammaHist[i];
             }
             std::string groupName = "Particles/ParticleList/" + name + "/" + std::to_string(i);
             m_outputFile->AddGroup(groupName);
-            m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-            m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-            m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-            m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+            m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+            m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+            m_outputFile->AddArray1D(timeBuff.data(), timeHist.size(), groupName + "/Time");
+            m_outputFile->AddArray1D(gammaBuff.data(), gammaHist.size(), groupName + "/Gamma");
         }
     }
 }
-- 
2.43.0


From aff1ce176e3b104b0eb34592078a06c290b557bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 47/49] fix: refuse negative numbers of particles and bins in
 the input file

---
 Source/IO/Input/FileParser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 1fbbb73..b28520b 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -211,7 +211,14 @@ void FileParser::ReadParticles()
         if (m_reader->HasSection(partField))
         {
             ParticleParameters source;
-            source.Number   = m_reader->GetInteger(partField, "number_particles", 1);
+            long number = m_reader->GetInteger(partField, "number_particles", 1);
+            if (number < 0)
+            {
+                std::cerr << "Input error: \"number_particles\" must not be negative\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
+            source.Number   = number;
             source.Name     = m_reader->GetString(partField, "name", partField);
             source.Type     = m_reader->GetString(partField, "particle_type", "Electron");
             source.Distro   = m_reader->GetString(partField, "energy_distribution", "mono");
@@ -269,7 +276,14 @@ void FileParser::ReadHistograms()
             histogram.Particle = m_reader->GetString(histField, "particle", "");
             histogram.Type = m_reader->GetString(histField, "type", "");
             histogram.Time = m_reader->GetReal(histField, "time", 0) / m_units->RefTime();
-            histogram.Bins = m_reader->GetInteger(histField, "bins", 1);
+            long bins = m_reader->GetInteger(histField, "bins", 1);
+            if (bins < 0)
+            {
+                std::cerr << "Input error: \"bins\" must not be negative\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
+            histogram.Bins = bins;
             histogram.MinBin = m_reader->GetReal(histField, "min_bin", 0);
             histogram.MaxBin = m_reader->GetReal(histField, "max_bin", 1);
             m_histograms.push_back(histogram);
-- 
2.43.0


From 24f5926f7605c13b03d544cbac9c6428d6712400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 48/49] fix: let table lookups use the last interval of the
 table

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index a6d1545..3169fde 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -103,7 +103,7 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			break;
 		}
 	}
-	if (lowIndex < sampleSize - 2)
+	if (lowIndex < sampleSize - 1)
 	{
 		frac = (queryPoint - samplePoints[lowIndex]) / (samplePoints[lowIndex+1]
 			- samplePoints[lowIndex]);
-- 
2.43.0


From 8a0c46a41311fb122818eb0db9f14494143cd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 49/49] fix: forget a subgroup that was released when the next
 one is refused

---
 Source/IO/Output/HDF5Output.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 2f28c3c..9cac8c6 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -67,6 +67,7 @@ void HDF5Output::AddSubGroup(std::string subGroupName)
     if (m_subGroup != NULL)
     {
         delete m_subGroup;
+        m_subGroup = NULL;
     }
     m_subGroup = new H5::Group(m_file->createGroup(subGroupName.c_str()));
 }
-- 
2.43.0

