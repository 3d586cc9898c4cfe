From 2583f8bfa8373f330aa84b6e058f0d44fdb3913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:26 +0000
Subject: [PATCH 01/54] fix: store the negation flag of an element repository
 match

---
 Merlin++/ElementRepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
-- 
2.43.0


From 5e28e37b403237073d2f86bbc03cb6b0e8e58841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:26 +0000
Subject: [PATCH 02/54] fix: give data members that constructors left unset a
 definite initial value

---
 Merlin++/AcceleratorComponent.h     |  2 +-
 Merlin++/Aperture.h                 | 38 ++++++++++++++---------------
 Merlin++/BetatronTunes.h            |  2 +-
 Merlin++/BunchProcess.h             |  2 +-
 Merlin++/CCFailureProcess.h         | 20 +++++++--------
 Merlin++/ClosedOrbit.h              |  8 +++---
 Merlin++/CollimateParticleProcess.h | 26 ++++++++++----------
 Merlin++/CollimationOutput.h        |  2 +-
 Merlin++/Collimator.h               |  2 +-
 Merlin++/CollimatorDatabase.h       |  6 ++---
 Merlin++/CollimatorWakeProcess.h    |  2 +-
 Merlin++/ComponentTracker.h         |  2 +-
 Merlin++/CouplerWakeFieldProcess.h  |  4 +--
 Merlin++/CrabMarker.h               |  4 +--
 Merlin++/DataTableTFS.h             |  2 +-
 Merlin++/DiffractiveScatter.h       | 24 +++++++++---------
 Merlin++/Dispersion.h               |  4 +--
 Merlin++/ElasticScatter.h           | 16 ++++++------
 Merlin++/ElectronBunch.h            |  2 +-
 Merlin++/EquilibriumDistribution.h  |  8 +++---
 Merlin++/HollowELensProcess.h       |  2 +-
 Merlin++/HollowElectronLens.h       | 22 ++++++++---------
 Merlin++/InterpolatedApertures.h    | 10 ++++----
 Merlin++/Interpolation.cpp          |  2 +-
 Merlin++/Interpolation.h            |  2 +-
 Merlin++/LCAVintegrator.cpp         |  2 +-
 Merlin++/MADInterface.h             |  2 +-
 Merlin++/MaterialProperties.h       |  4 +--
 Merlin++/Monitor.h                  |  2 +-
 Merlin++/MuonBunch.h                |  2 +-
 Merlin++/PSvector.h                 |  2 +-
 Merlin++/ProtonBunch.h              |  2 +-
 Merlin++/RectMultipole.h            |  2 +-
 Merlin++/ResistiveWakePotentials.h  |  6 ++---
 Merlin++/RingDeltaTProcess.h        |  6 ++---
 Merlin++/SMPTransform3D.h           |  2 +-
 Merlin++/SMPWakeFieldProcess.h      |  8 +++---
 Merlin++/ScatteringModel.h          |  2 +-
 Merlin++/ScatteringProcess.h        |  6 ++---
 Merlin++/SpinParticleProcess.h      | 14 +++++------
 Merlin++/StringPattern.h            |  2 +-
 Merlin++/SupportStructure.h         |  2 +-
 Merlin++/SynchRadParticleProcess.h  | 14 +++++------
 Merlin++/TransferMatrix.h           |  4 +--
 Merlin++/WakeFieldProcess.h         |  8 +++---
 Merlin++/WakePotentials.h           |  4 +--
 46 files changed, 155 insertions(+), 155 deletions(-)

diff --git a/Merlin++/AcceleratorComponent.h b/Merlin++/AcceleratorComponent.h
index 0910b5a..4aff2b8 100644
--- a/Merlin++/AcceleratorComponent.h
+++ b/Merlin++/AcceleratorComponent.h
@@ -206,7 +206,7 @@ protected:
 	 */
 ///	Material* material;
 public:
-	MaterialProperties* materialProperties;
+	MaterialProperties* materialProperties = nullptr;
 
 	/**
 	 * A pointer to the Wake potentials for this component
diff --git a/Merlin++/Aperture.h b/Merlin++/Aperture.h
index ff114c7..9a22525 100644
--- a/Merlin++/Aperture.h
+++ b/Merlin++/Aperture.h
@@ -92,7 +92,7 @@ protected:
 	 *  protected aperture parameters accessible only via class get/set functions
 	 */
 	std::string apType;
-	double latticelocation;
+	double latticelocation = 0;
 };
 
 class CircularAperture: public Aperture
@@ -349,11 +349,11 @@ public:
 	struct ap
 	{
 		std::string ApType;
-		double s;
-		double ap1;
-		double ap2;
-		double ap3;
-		double ap4;
+		double s = 0;
+		double ap1 = 0;
+		double ap2 = 0;
+		double ap3 = 0;
+		double ap4 = 0;
 
 	};
 
@@ -367,19 +367,19 @@ protected:
 	/**
 	 *  protected aperture parameters accessible only via class get/set functions
 	 */
-	double rectHalfX;
-	double rectHalfY;
-	double ellipHalfX;
-	double ellipHalfY;
-	double minDim;
-	double maxDim;
-	double minRectDim;
-	double maxRectDim;
-	double minEllipDim;
-	double maxEllipDim;
-	double ellipHalfX_sq;
-	double ellipHalfY_sq;
-	double ellipHalfX_sq_div_ellipHalfY_sq;
+	double rectHalfX = 0;
+	double rectHalfY = 0;
+	double ellipHalfX = 0;
+	double ellipHalfY = 0;
+	double minDim = 0;
+	double maxDim = 0;
+	double minRectDim = 0;
+	double maxRectDim = 0;
+	double minEllipDim = 0;
+	double maxEllipDim = 0;
+	double ellipHalfX_sq = 0;
+	double ellipHalfY_sq = 0;
+	double ellipHalfX_sq_div_ellipHalfY_sq = 0;
 };
 
 class OctagonalAperture: public Aperture
diff --git a/Merlin++/BetatronTunes.h b/Merlin++/BetatronTunes.h
index 13c5270..6714b63 100644
--- a/Merlin++/BetatronTunes.h
+++ b/Merlin++/BetatronTunes.h
@@ -21,7 +21,7 @@ class BetatronTunes
 public:
 	BetatronTunes(AcceleratorModel* aModel, double refMomentum);
 	void FindTunes(PSvector& particle, int ntrack = 256, bool diffusion = true);
-	double Qx, Qy, dQx, dQy;
+	double Qx = 0, Qy = 0, dQx = 0, dQy = 0;
 
 	double GetQx()
 	{
diff --git a/Merlin++/BunchProcess.h b/Merlin++/BunchProcess.h
index f6c5cd5..bb161c4 100644
--- a/Merlin++/BunchProcess.h
+++ b/Merlin++/BunchProcess.h
@@ -126,7 +126,7 @@ public:
 
 protected:
 
-	B* currentBunch;
+	B* currentBunch = nullptr;
 };
 
 inline BunchProcess::BunchProcess(const std::string& anID, int aPriority) :
diff --git a/Merlin++/CCFailureProcess.h b/Merlin++/CCFailureProcess.h
index e5d829e..10adc7f 100644
--- a/Merlin++/CCFailureProcess.h
+++ b/Merlin++/CCFailureProcess.h
@@ -176,20 +176,20 @@ private:
 	int IP5_down_count;
 
 	//Store upstream voltages
-	double Atlas_Upstream_V1[4];
-	double CMS_Upstream_V1[4];
+	double Atlas_Upstream_V1[4] = {};
+	double CMS_Upstream_V1[4] = {};
 	//Store upstream element numbers
-	double Atlas_Upstream_elno[4];
-	double CMS_Upstream_elno[4];
+	double Atlas_Upstream_elno[4] = {};
+	double CMS_Upstream_elno[4] = {};
 	//Store upstream deltamu
-	double Atlas_Upstream_deltamu[4];
-	double CMS_Upstream_deltamu[4];
+	double Atlas_Upstream_deltamu[4] = {};
+	double CMS_Upstream_deltamu[4] = {};
 	// store M12
-	double Atlas_Upstream_M12[4];
-	double CMS_Upstream_M12[4];
+	double Atlas_Upstream_M12[4] = {};
+	double CMS_Upstream_M12[4] = {};
 
-	double Gamma_p;
-	double Beta_p;
+	double Gamma_p = 0;
+	double Beta_p = 0;
 	double omega;       //crab cavity frequency
 	double theta;       //half crossing angle
 	double phi_s;       //crab phase
diff --git a/Merlin++/ClosedOrbit.h b/Merlin++/ClosedOrbit.h
index a16ffe6..8398b58 100644
--- a/Merlin++/ClosedOrbit.h
+++ b/Merlin++/ClosedOrbit.h
@@ -40,10 +40,10 @@ public:
 	// The following member functions are available for diagnostics
 
 	// The final achieved figure of merit for the iteration
-	double w;
+	double w = 0;
 
 	// The number of iterations
-	int iter;
+	int iter = 0;
 
 private:
 	AcceleratorModel* theModel;
@@ -55,8 +55,8 @@ private:
 	double delta;
 	double tol;
 	int max_iter;
-	double radstepsize;
-	int radnumsteps;
+	double radstepsize = 0;
+	int radnumsteps = 0;
 	double bendscale;
 	ParticleTracker* theTracker;
 };
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..74bd592 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -175,22 +175,22 @@ protected:
 	 */
 	PSvectorArray InputArray;
 
-	double s_total;
-	double s;
-	double next_s;
-	double int_s;
+	double s_total = 0;
+	double s = 0;
+	double next_s = 0;
+	double int_s = 0;
 
 	/**
 	 * physical length
 	 */
-	double len;
+	double len = 0;
 
-	bool is_collimator;
-	bool at_entr;
-	bool at_cent;
-	bool at_exit;
+	bool is_collimator = false;
+	bool at_entr = false;
+	bool at_cent = false;
+	bool at_exit = false;
 
-	size_t nlost;
+	size_t nlost = 0;
 
 	double GetBinSize() const
 	{
@@ -199,7 +199,7 @@ protected:
 
 	int ColParProTurn;
 	std::string FirstElementName;
-	double FirstElementS;
+	double FirstElementS = 0;
 	bool FirstElementSet;
 
 private:
@@ -211,10 +211,10 @@ private:
 
 	bool scatter;
 	double bin_size;        ///< size of bins
-	double step_size;       ///< step size to handle when the collimator cannot be split equally into bins
+	double step_size = 0;       ///< step size to handle when the collimator cannot be split equally into bins
 	bool Imperfections;
 
-	double Xr; ///< radiation length
+	double Xr = 0; ///< radiation length
 
 	/**
 	 * Returns absorbed or survived
diff --git a/Merlin++/CollimationOutput.h b/Merlin++/CollimationOutput.h
index b28c79e..60e73e5 100644
--- a/Merlin++/CollimationOutput.h
+++ b/Merlin++/CollimationOutput.h
@@ -41,7 +41,7 @@ struct LossData
 	double position;
 	double length;
 	double lost;
-	LossTypes temperature;
+	LossTypes temperature{};
 	int turn;
 	double angle;
 
diff --git a/Merlin++/Collimator.h b/Merlin++/Collimator.h
index f19891b..6ff8463 100644
--- a/Merlin++/Collimator.h
+++ b/Merlin++/Collimator.h
@@ -81,7 +81,7 @@ public:
 	static const int ID;
 
 private:
-	double Xr;
+	double Xr = 0;
 	bool scatter_at_this_collimator;
 };
 
diff --git a/Merlin++/CollimatorDatabase.h b/Merlin++/CollimatorDatabase.h
index b9a64ca..b94516e 100644
--- a/Merlin++/CollimatorDatabase.h
+++ b/Merlin++/CollimatorDatabase.h
@@ -131,16 +131,16 @@ protected:
 	std::string PrimaryCollimator;      ///< name of collimator where first impact will occur
 	double RequestedImpactFactor;       ///< Impact factor in m
 	double ImpactSigma;                 ///< Impact factor at collimator in number of sigmas
-	std::ostream* log;
+	std::ostream* log = nullptr;
 	bool logFlag;
 
-	std::ostream* ErrorLog;
+	std::ostream* ErrorLog = nullptr;
 	bool ErrorLogFlag;
 
 	/**
 	 * Flag for one side TCDQA jaw
 	 */
-	bool OneSideJawTCDQA;
+	bool OneSideJawTCDQA = false;
 
 	// Match the collimator jaws to the beam envelope? - reference orbit (including crossing angles) and beta functions.
 	bool EnableMatchBeamEnvelope;
diff --git a/Merlin++/CollimatorWakeProcess.h b/Merlin++/CollimatorWakeProcess.h
index 678f910..a033a89 100644
--- a/Merlin++/CollimatorWakeProcess.h
+++ b/Merlin++/CollimatorWakeProcess.h
@@ -52,7 +52,7 @@ private:
 	double** wake_ct;
 	double** wake_st;
 
-	CollimatorWakePotentials* collimator_wake;
+	CollimatorWakePotentials* collimator_wake = nullptr;
 
 	using WakeFieldProcess::CalculateWakeT;
 	using WakeFieldProcess::CalculateWakeL;
diff --git a/Merlin++/ComponentTracker.h b/Merlin++/ComponentTracker.h
index 8766a56..6766642 100644
--- a/Merlin++/ComponentTracker.h
+++ b/Merlin++/ComponentTracker.h
@@ -188,7 +188,7 @@ private:
 	ComponentTracker(const ComponentTracker&);
 
 	State itsState;
-	ComponentIntegrator* integrator; // current integrator
+	ComponentIntegrator* integrator = nullptr; // current integrator
 
 	IntegratorSet* iSet;
 };
diff --git a/Merlin++/CouplerWakeFieldProcess.h b/Merlin++/CouplerWakeFieldProcess.h
index 227cf6f..e35d633 100644
--- a/Merlin++/CouplerWakeFieldProcess.h
+++ b/Merlin++/CouplerWakeFieldProcess.h
@@ -32,8 +32,8 @@ public:
 	virtual void CalculateWakeT();
 
 private:
-	CombinedWakeRF* currentWake;
-	double phi, V, k;
+	CombinedWakeRF* currentWake = nullptr;
+	double phi = 0, V = 0, k = 0;
 
 	//Copy protection
 	CouplerWakeFieldProcess(const CouplerWakeFieldProcess& rhs);
diff --git a/Merlin++/CrabMarker.h b/Merlin++/CrabMarker.h
index eb2fc70..06599c1 100644
--- a/Merlin++/CrabMarker.h
+++ b/Merlin++/CrabMarker.h
@@ -76,8 +76,8 @@ public:
 	}
 
 private:
-	double mu_x;
-	double mu_y;
+	double mu_x = 0;
+	double mu_y = 0;
 
 };
 
diff --git a/Merlin++/DataTableTFS.h b/Merlin++/DataTableTFS.h
index c8c1071..6fc9cb3 100644
--- a/Merlin++/DataTableTFS.h
+++ b/Merlin++/DataTableTFS.h
@@ -63,7 +63,7 @@ private:
 	int width_float;
 	int prec_float;
 
-	std::ostream *out;
+	std::ostream *out = nullptr;
 	std::shared_ptr<std::ostream> outf;
 };
 
diff --git a/Merlin++/DiffractiveScatter.h b/Merlin++/DiffractiveScatter.h
index 4f17d13..6ca47da 100644
--- a/Merlin++/DiffractiveScatter.h
+++ b/Merlin++/DiffractiveScatter.h
@@ -152,8 +152,8 @@ private:
 	/**
 	 * Interpolation classes for the cross section data
 	 */
-	Interpolation *LinearInterpolation;
-	Interpolation *InversionInterpolation;
+	Interpolation *LinearInterpolation = nullptr;
+	Interpolation *InversionInterpolation = nullptr;
 
 	/**
 	 * bool to check if the cross sections have been generated
@@ -163,32 +163,32 @@ private:
 	/**
 	 * double to store the minimum t value to generate
 	 */
-	double t_min;
+	double t_min = 0;
 
 	/**
 	 * double to store the maximum t value to generate
 	 */
-	double t_max;
+	double t_max = 0;
 
 	/**
 	 * double to store the minimum xi value to generate
 	 */
-	double xi_min;
+	double xi_min = 0;
 
 	/**
 	 * double to store the maximum xi value to generate
 	 */
-	double xi_max;
+	double xi_max = 0;
 
 	/**
 	 * double to store the t step size
 	 */
-	double t_step;
+	double t_step = 0;
 
 	/**
 	 * double to store the xi step size
 	 */
-	double xi_step;
+	double xi_step = 0;
 
 	std::vector<double> UniformT;
 	std::vector<double> UniformXi;
@@ -199,7 +199,7 @@ private:
 	/**
 	 * The Integrated Single diffractive cross section
 	 */
-	double SigDiffractive;
+	double SigDiffractive = 0;
 
 	/**
 	 * Enable Scattering/MC debugging
@@ -209,10 +209,10 @@ private:
 //Roger stuff - array size
 	static const int N = 500;
 //static const int N=500;
-	double xarray[N];
-	double tarray[N];
+	double xarray[N] = {};
+	double tarray[N] = {};
 //s of the interaction
-	double ss;
+	double ss = 0;
 
 }; //End class ppDiffractiveScatter
 
diff --git a/Merlin++/Dispersion.h b/Merlin++/Dispersion.h
index aa1b817..c5109e5 100644
--- a/Merlin++/Dispersion.h
+++ b/Merlin++/Dispersion.h
@@ -17,8 +17,8 @@ public:
 	Dispersion(AcceleratorModel* aModel, double refMomentum);
 	void FindDispersion(int n = 0);
 	void FindRMSDispersion(ostream* file = nullptr);
-	double Dx, Dxp, Dy, Dyp;
-	double DxRMS, DyRMS;
+	double Dx = 0, Dxp = 0, Dy = 0, Dyp = 0;
+	double DxRMS = 0, DyRMS = 0;
 	double SetDelta(double new_delta);
 
 private:
diff --git a/Merlin++/ElasticScatter.h b/Merlin++/ElasticScatter.h
index 5687974..dba0377 100644
--- a/Merlin++/ElasticScatter.h
+++ b/Merlin++/ElasticScatter.h
@@ -118,28 +118,28 @@ private:
 	/**
 	 * double to store the minimum t value generate
 	 */
-	double t_min;
+	double t_min = 0;
 
 	/**
 	 * double to store the maximum t value to generate
 	 */
-	double t_max;
+	double t_max = 0;
 
 	/**
 	 * double to store the t step size
 	 */
-	double step;
+	double step = 0;
 
-	std::vector<double> *Uniformt;
-	std::vector<double> *DSig;
+	std::vector<double> *Uniformt = nullptr;
+	std::vector<double> *DSig = nullptr;
 
-	std::vector<double> *DSigN;
+	std::vector<double> *DSigN = nullptr;
 
 	/*
 	 * The Integrated elastic cross section
 	 */
-	double SigElastic;
-	double SigElasticN;
+	double SigElastic = 0;
+	double SigElasticN = 0;
 
 	/**
 	 * Enable Scattering/MC debugging
diff --git a/Merlin++/ElectronBunch.h b/Merlin++/ElectronBunch.h
index 0244b1f..9339cf4 100644
--- a/Merlin++/ElectronBunch.h
+++ b/Merlin++/ElectronBunch.h
@@ -17,7 +17,7 @@ namespace ParticleTracking
 class ElectronBunch: public ParticleBunch
 {
 	static const int ntally = 6;
-	int tally[ntally];
+	int tally[ntally] = {};
 
 public:
 
diff --git a/Merlin++/EquilibriumDistribution.h b/Merlin++/EquilibriumDistribution.h
index 6ea7039..45d4ec4 100644
--- a/Merlin++/EquilibriumDistribution.h
+++ b/Merlin++/EquilibriumDistribution.h
@@ -32,7 +32,7 @@ public:
 //protected:
 	ComplexVector ek;
 	Complex k;
-	double h, tanE1;
+	double h = 0, tanE1 = 0;
 
 //	void interpolate(double x[], double y[], int n, double X, double& Y, double& dy);
 	double trapezium(double a, double b, int n);
@@ -79,9 +79,9 @@ public:
 private:
 	AcceleratorModel* theModel;
 	double p0;
-	double dampingConstant[3];
-	double tune[3];
-	double emittance[3];
+	double dampingConstant[3] = {};
+	double tune[3] = {};
+	double emittance[3] = {};
 	double synchronousTime;
 
 };
diff --git a/Merlin++/HollowELensProcess.h b/Merlin++/HollowELensProcess.h
index 3bcd349..8c48bce 100644
--- a/Merlin++/HollowELensProcess.h
+++ b/Merlin++/HollowELensProcess.h
@@ -79,7 +79,7 @@ public:
 private:
 	// Data Members for Class Attributes
 	HollowElectronLens* currentComponentHEL;
-	double ProtonBeta;
+	double ProtonBeta = 0;
 };
 
 } // end namespace ParticleTracking
diff --git a/Merlin++/HollowElectronLens.h b/Merlin++/HollowElectronLens.h
index 3873d8d..776a162 100644
--- a/Merlin++/HollowElectronLens.h
+++ b/Merlin++/HollowElectronLens.h
@@ -134,8 +134,8 @@ public:
 	static const int ID;
 
 private:
-	double Rmin;
-	double Rmax;
+	double Rmin = 0;
+	double Rmax = 0;
 
 public:
 	// Hardware parameters
@@ -144,24 +144,24 @@ public:
 	double Rigidity;
 
 	double EffectiveLength;
-	double Sigma_x;
+	double Sigma_x = 0;
 
 	// Variables
 	double XOffset;
 	double YOffset;
 
 	//For AC mode
-	double Tune;
-	double DeltaTune;
-	double TuneVarPerStep;
-	double TurnsPerStep;
-	double Multiplier;
-	double Nstep;
+	double Tune = 0;
+	double DeltaTune = 0;
+	double TuneVarPerStep = 0;
+	double TurnsPerStep = 0;
+	double Multiplier = 0;
+	double Nstep = 0;
 
 	int Turn;
 	int SkipTurn;
 
-	double MinTune;
+	double MinTune = 0;
 
 	bool ACSet;                 ///< AC mode variable set?
 	bool SimpleProfile;         ///< 1 = use perfect HEL profile, 0 = use parameterisation of measured LHC prototype cathode profile
@@ -169,7 +169,7 @@ public:
 	bool ElectronDirection;     ///< 1 = opposite protons (-ve kick), 0 = same as protons (+ve kick)
 	bool LHC_Radial;            ///< 1 = use empirically scaled measured radial profile (LHC hardware), 0 = use measured radial HEL profile
 
-	OperationMode OMode;
+	OperationMode OMode{};
 };
 
 #endif
diff --git a/Merlin++/InterpolatedApertures.h b/Merlin++/InterpolatedApertures.h
index 53d60d5..1b5f4b4 100644
--- a/Merlin++/InterpolatedApertures.h
+++ b/Merlin++/InterpolatedApertures.h
@@ -57,11 +57,11 @@ public:
 	struct apStruct
 	{
 		std::string ApType;
-		double s;
-		double ap1;
-		double ap2;
-		double ap3;
-		double ap4;
+		double s = 0;
+		double ap1 = 0;
+		double ap2 = 0;
+		double ap3 = 0;
+		double ap4 = 0;
 
 	};
 
diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..1dc5660 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -31,7 +31,7 @@ public:
 
 	};
 
-	int lastseenat;
+	int lastseenat = 0;
 
 	ArbSpacedData(const vector<double>& xvals, const vector<double>& yvals, int order);
 	ArbSpacedData(const double* xvals, const double* yvals, int n, int order);
diff --git a/Merlin++/Interpolation.h b/Merlin++/Interpolation.h
index cbd59fa..f94b74c 100644
--- a/Merlin++/Interpolation.h
+++ b/Merlin++/Interpolation.h
@@ -58,7 +58,7 @@ public:
 					s = s * x + p[n - j];
 			return s;
 		}
-		int itsOrder;
+		int itsOrder = 0;
 	};
 
 	/**
diff --git a/Merlin++/LCAVintegrator.cpp b/Merlin++/LCAVintegrator.cpp
index 96e3988..939a6a5 100644
--- a/Merlin++/LCAVintegrator.cpp
+++ b/Merlin++/LCAVintegrator.cpp
@@ -104,7 +104,7 @@ struct LCAVMap
 struct ApplyRFMap
 {
 
-	double Vn, k, phi0, d0, ds;
+	double Vn = 0, k = 0, phi0 = 0, d0 = 0, ds = 0;
 
 	ApplyRFMap(double Vnorm, double kval, double phase, double len) :
 		Vn(Vnorm), k(kval), phi0(phase), ds(len)
diff --git a/Merlin++/MADInterface.h b/Merlin++/MADInterface.h
index f4cfd0a..9600c79 100644
--- a/Merlin++/MADInterface.h
+++ b/Merlin++/MADInterface.h
@@ -180,7 +180,7 @@ protected:
 	std::set<std::string> driftTypes;
 
 	AcceleratorModelConstructor* modelconstr = nullptr;
-	AcceleratorComponent* currentcomponent;
+	AcceleratorComponent* currentcomponent = nullptr;
 	std::stack<std::string> frameStack;
 };
 
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 3a7ddbc..e1be9f7 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -41,8 +41,8 @@
 class MaterialProperties
 {
 public:
-	double Z, A, density, dEdx, sigma_R, sigma_I, sigma_E, sigma_D, sigma_T, X0;
-	double lambda;
+	double Z = 0, A = 0, density = 0, dEdx = 0, sigma_R = 0, sigma_I = 0, sigma_E = 0, sigma_D = 0, sigma_T = 0, X0 = 0;
+	double lambda = 0;
 	std::map<std::string, double> *extra;
 
 	virtual double A_R()
diff --git a/Merlin++/Monitor.h b/Merlin++/Monitor.h
index fa1610a..96e5b7d 100644
--- a/Merlin++/Monitor.h
+++ b/Merlin++/Monitor.h
@@ -130,7 +130,7 @@ private:
 	 *	@retval true If x measurement axis is reflected
 	 *	@retval False If x measurement axis is not reflected
 	 */
-	bool reflected;
+	bool reflected = false;
 
 	bool active;
 };
diff --git a/Merlin++/MuonBunch.h b/Merlin++/MuonBunch.h
index 60b2df0..eaf6f5c 100644
--- a/Merlin++/MuonBunch.h
+++ b/Merlin++/MuonBunch.h
@@ -19,7 +19,7 @@ namespace ParticleTracking
 class MuonBunch: public ParticleBunch
 {
 	static const int ntally = 6;
-	int tally[ntally];
+	int tally[ntally] = {};
 
 public:
 
diff --git a/Merlin++/PSvector.h b/Merlin++/PSvector.h
index ed4074b..46fda63 100644
--- a/Merlin++/PSvector.h
+++ b/Merlin++/PSvector.h
@@ -215,7 +215,7 @@ public:
 
 private:
 	double v[PS_LENGTH];
-	int64_t pid;
+	int64_t pid = 0;
 };
 
 /**
diff --git a/Merlin++/ProtonBunch.h b/Merlin++/ProtonBunch.h
index 50c5ba6..2c4b1c0 100644
--- a/Merlin++/ProtonBunch.h
+++ b/Merlin++/ProtonBunch.h
@@ -18,7 +18,7 @@ namespace ParticleTracking
 class ProtonBunch: public ParticleBunch
 {
 	static const int ntally = 6;
-	int tally[ntally];
+	int tally[ntally] = {};
 
 public:
 
diff --git a/Merlin++/RectMultipole.h b/Merlin++/RectMultipole.h
index 44b18d4..b585b2b 100644
--- a/Merlin++/RectMultipole.h
+++ b/Merlin++/RectMultipole.h
@@ -92,7 +92,7 @@ private:
 	/**
 	 *	The primary pole for this multipole.
 	 */
-	int np;
+	int np = 0;
 };
 
 inline void RectMultipole::SetFieldStrength(double b)
diff --git a/Merlin++/ResistiveWakePotentials.h b/Merlin++/ResistiveWakePotentials.h
index 91c950f..633dfd3 100644
--- a/Merlin++/ResistiveWakePotentials.h
+++ b/Merlin++/ResistiveWakePotentials.h
@@ -28,9 +28,9 @@ using namespace ParticleTracking;
 class ResistivePotential: public CollimatorWakePotentials
 {
 public:
-	double sigma, b, leng, scale, step;
-	int ncoeff;
-	double lo, hi, * coeff;
+	double sigma = 0, b = 0, leng = 0, scale = 0, step = 0;
+	int ncoeff = 0;
+	double lo = 0, hi = 0, * coeff = nullptr;
 	collimatortable** Transverse;
 	collimatortable** Longitudinal;
 
diff --git a/Merlin++/RingDeltaTProcess.h b/Merlin++/RingDeltaTProcess.h
index fea1e95..ca78194 100644
--- a/Merlin++/RingDeltaTProcess.h
+++ b/Merlin++/RingDeltaTProcess.h
@@ -32,9 +32,9 @@ public:
 	void SetBendScale(double bendscale);
 protected:
 private:
-	double scale;
-	double dL;
-	double intS;
+	double scale = 0;
+	double dL = 0;
+	double intS = 0;
 };
 
 } // end namespace ParticleTracking
diff --git a/Merlin++/SMPTransform3D.h b/Merlin++/SMPTransform3D.h
index dea174a..eac1a8a 100644
--- a/Merlin++/SMPTransform3D.h
+++ b/Merlin++/SMPTransform3D.h
@@ -34,7 +34,7 @@ public:
 private:
 
 	R2Map R;
-	double delta_x, delta_y, theta_x, theta_y;
+	double delta_x = 0, delta_y = 0, theta_x = 0, theta_y = 0;
 	bool bNoRot;
 	bool nullRotation;
 };
diff --git a/Merlin++/SMPWakeFieldProcess.h b/Merlin++/SMPWakeFieldProcess.h
index 83712af..800e133 100644
--- a/Merlin++/SMPWakeFieldProcess.h
+++ b/Merlin++/SMPWakeFieldProcess.h
@@ -56,9 +56,9 @@ private:
 	void ApplyWakefield(double ds);
 
 	ImpulseLocation imploc;
-	double current_s;
-	double impulse_s;
-	double clen;
+	double current_s = 0;
+	double impulse_s = 0;
+	double clen = 0;
 
 	void Init();
 	void PrepLWake();
@@ -68,7 +68,7 @@ private:
 	std::vector<SMPBunch::iterator> sliceBoundaries;
 	std::vector<double> slice_z;
 	std::vector<double> slice_q;
-	double bload;
+	double bload = 0;
 	bool recalc;
 	bool inc_tw;
 	const double dz; ///< slice width for binning
diff --git a/Merlin++/ScatteringModel.h b/Merlin++/ScatteringModel.h
index 0965fea..7147c57 100644
--- a/Merlin++/ScatteringModel.h
+++ b/Merlin++/ScatteringModel.h
@@ -194,7 +194,7 @@ private:
 
 	void EnergyLossFull(PSvector& p, double x, MaterialProperties* mat, double E0);
 	//0 = SixTrack, 1 = ST+Ad Ion, 2 = ST + Ad El, 3 = ST + Ad SD, 4 = MERLIN
-	int ScatteringPhysicsModel; // Still required for CrossSections
+	int ScatteringPhysicsModel = 0; // Still required for CrossSections
 };
 
 } //end namespace Collimation
diff --git a/Merlin++/ScatteringProcess.h b/Merlin++/ScatteringProcess.h
index 87f7375..b0ffff4 100644
--- a/Merlin++/ScatteringProcess.h
+++ b/Merlin++/ScatteringProcess.h
@@ -40,10 +40,10 @@ class CrossSections;
 class ScatteringProcess
 {
 public:
-	double sigma;           ///< Integrated cross section for this process
+	double sigma = 0;           ///< Integrated cross section for this process
 protected:
-	double E0;              ///< Reference energy
-	MaterialProperties* mat;          ///< Material of the collimator being hit
+	double E0 = 0;              ///< Reference energy
+	MaterialProperties* mat = nullptr;          ///< Material of the collimator being hit
 
 public:
 	virtual ~ScatteringProcess()
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index a981761..cbb5e5f 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -85,13 +85,13 @@ public:
 
 private:
 	int ns;
-	int nk1;
-	double dL;
-	double intS;
-	const SectorBend* sbend;
-	const Solenoid* solnd;
-	const EMField* currentField;
-	double clength;
+	int nk1 = 0;
+	double dL = 0;
+	double intS = 0;
+	const SectorBend* sbend = nullptr;
+	const Solenoid* solnd = nullptr;
+	const EMField* currentField = nullptr;
+	double clength = 0;
 	double pspin;
 };
 
diff --git a/Merlin++/StringPattern.h b/Merlin++/StringPattern.h
index 3f4bc3b..4ca13c5 100644
--- a/Merlin++/StringPattern.h
+++ b/Merlin++/StringPattern.h
@@ -83,7 +83,7 @@ private:
 	 *	Set to true if this pattern is a simple literal string
 	 *	(no wild cards).
 	 */
-	bool isLiteral;
+	bool isLiteral = false;
 
 	std::string str;
 };
diff --git a/Merlin++/SupportStructure.h b/Merlin++/SupportStructure.h
index 0d80e4a..fa36953 100644
--- a/Merlin++/SupportStructure.h
+++ b/Merlin++/SupportStructure.h
@@ -76,7 +76,7 @@ protected:
 private:
 
 	AcceleratorSupport* sup1;
-	AcceleratorSupport* sup2;
+	AcceleratorSupport* sup2 = nullptr;
 
 	/**
 	 *	Updates (if necessary) the local frame transformation
diff --git a/Merlin++/SynchRadParticleProcess.h b/Merlin++/SynchRadParticleProcess.h
index cab4f30..1224ab9 100644
--- a/Merlin++/SynchRadParticleProcess.h
+++ b/Merlin++/SynchRadParticleProcess.h
@@ -154,7 +154,7 @@ public:
 
 	static bool sympVars;   ///< Flag to indicate whether tracking uses symplectic variables
 
-	double PHOTCONST1, PHOTCONST2, ParticleMassMeV;
+	double PHOTCONST1 = 0, PHOTCONST2 = 0, ParticleMassMeV = 0;
 
 protected:
 private:
@@ -174,22 +174,22 @@ private:
 	/**
 	 *	The rms momentum addition per unit length.
 	 */
-	double ds2;
+	double ds2 = 0;
 
 	/**
 	 *	The mean energy loss per unit length.
 	 */
-	double ds1;
+	double ds1 = 0;
 
-	double dL;
+	double dL = 0;
 
-	int nk1;
+	int nk1 = 0;
 
-	double intS;
+	double intS = 0;
 
 	// Data Members for Associations
 
-	MultipoleField* currentField;
+	MultipoleField* currentField = nullptr;
 
 	double dsMax;
 
diff --git a/Merlin++/TransferMatrix.h b/Merlin++/TransferMatrix.h
index 39a00e5..7a50652 100644
--- a/Merlin++/TransferMatrix.h
+++ b/Merlin++/TransferMatrix.h
@@ -40,8 +40,8 @@ private:
 	int obspnt;
 
 	double delta;
-	double radstepsize;
-	int radnumsteps;
+	double radstepsize = 0;
+	int radnumsteps = 0;
 	double bendscale;
 
 };
diff --git a/Merlin++/WakeFieldProcess.h b/Merlin++/WakeFieldProcess.h
index 2a72454..762a21e 100644
--- a/Merlin++/WakeFieldProcess.h
+++ b/Merlin++/WakeFieldProcess.h
@@ -62,9 +62,9 @@ public:
 protected:
 
 	ImpulseLocation imploc;
-	double current_s;
-	double impulse_s;
-	double clen;
+	double current_s = 0;
+	double impulse_s = 0;
+	double clen = 0;
 	size_t nbins;
 	double nsig;
 
@@ -86,7 +86,7 @@ protected:
 	bool recalc;
 	bool inc_tw;
 
-	double zmin, zmax, dz;
+	double zmin = 0, zmax = 0, dz = 0;
 
 	size_t oldBunchLen;
 
diff --git a/Merlin++/WakePotentials.h b/Merlin++/WakePotentials.h
index 36276e9..3680830 100644
--- a/Merlin++/WakePotentials.h
+++ b/Merlin++/WakePotentials.h
@@ -60,8 +60,8 @@ private:
 	WakePotentials(const WakePotentials& wake);
 	WakePotentials& operator=(const WakePotentials& wake);
 	BunchProcess* expectedProcess;
-	double radius;
-	double conductivity;
+	double radius = 0;
+	double conductivity = 0;
 };
 
 #endif
-- 
2.43.0


From 45d1d7e6cccdc6a9076ca69743aa27554702bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 03/54] fix: copying a sequence frame copies its geometry

---
 Merlin++/SequenceFrame.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..84c43b9 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -24,8 +24,10 @@ public:
 
 	SequenceGeometry(SequenceFrame::FrameList* frames, SequenceFrame::Origin origin);
 
-	//	Copy constructor.
-	SequenceGeometry(const SequenceGeometry& rhs);
+	//	Copy for another frame list.
+	SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames);
+	SequenceGeometry(const SequenceGeometry&) = delete;
+	SequenceGeometry& operator=(const SequenceGeometry&) = delete;
 
 	~SequenceGeometry();
 
@@ -106,7 +108,7 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom), &subFrames);
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
 }
@@ -229,8 +231,9 @@ bool SequenceFrame::IsBoundaryPlane(BoundaryPlane p, const LatticeFrame* aSubFra
 	}
 }
 
-SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs) :
-	AcceleratorGeometry()
+SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames) :
+	AcceleratorGeometry(rhs), len_t(rhs.len_t), theFrameList(frames), omode(rhs.omode),
+	t_cache(rhs.t_cache ? new TCache(*rhs.t_cache) : nullptr)
 {
 }
 
-- 
2.43.0


From e38e93d6943b13d9786f373e7553a2618e75ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:42 +0000
Subject: [PATCH 04/54] fix: interpolation built from arrays keeps its data

The array constructor built a temporary from its arguments and dropped it.
---
 Merlin++/Interpolation.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index 1dc5660..3eabc8a 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,9 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
-{ // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
+	// version for old style arrays
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
+{
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From 7a3476319f2c8125a208a5f1427c55c4489caeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 05/54] fix: objects that own storage are copied deeply or not
 at all

Copying or assigning several classes that release storage when destroyed shared
that storage; assigning a Transformable or a pole face pair to itself used it
after release; MADInterface and ppElasticScatter kept deleted pointers.
---
 Merlin++/AcceleratorComponent.h        | 18 ++++++++++++++++++
 Merlin++/AcceleratorModelConstructor.h |  6 ++++++
 Merlin++/ChannelServer.h               |  7 +++++++
 Merlin++/Channels.h                    |  5 +++++
 Merlin++/ClosedOrbit.h                 |  6 ++++++
 Merlin++/CollimatorTable.h             |  6 ++++++
 Merlin++/ComponentTracker.h            | 10 ++++++++++
 Merlin++/ElasticScatter.cpp            |  1 +
 Merlin++/Interpolation.h               |  6 ++++++
 Merlin++/LatticeFunctions.h            |  7 +++++++
 Merlin++/MADInterface.cpp              |  1 +
 Merlin++/MaterialData.h                |  7 +++++++
 Merlin++/MaterialProperties.cpp        |  4 +++-
 Merlin++/SectorBend.h                  |  7 +++++--
 Merlin++/Transformable.h               |  9 ++++++---
 Merlin++/XTFFInterface.h               |  6 ++++++
 16 files changed, 100 insertions(+), 6 deletions(-)

diff --git a/Merlin++/AcceleratorComponent.h b/Merlin++/AcceleratorComponent.h
index 4aff2b8..045d010 100644
--- a/Merlin++/AcceleratorComponent.h
+++ b/Merlin++/AcceleratorComponent.h
@@ -177,6 +177,13 @@ protected:
 	 */
 	AcceleratorComponent(const string& aName, AcceleratorGeometry* aGeom, EMField* aField);
 
+	/**
+	 * Copy constructor. The geometry and field belong to the
+	 * component copied from; a derived class that has them
+	 * supplies copies of its own.
+	 */
+	AcceleratorComponent(const AcceleratorComponent& rhs);
+
 	/**
 	 * Used by derived classes to generate a unique index. All
 	 * derived classes should have a static member ID of type
@@ -223,6 +230,11 @@ public:
 	 * beamline index associated with this component
 	 */
 	size_t blI;
+
+private:
+
+	// owns storage: not assignable
+	AcceleratorComponent& operator=(const AcceleratorComponent&) = delete;
 };
 
 inline AcceleratorComponent::AcceleratorComponent(const string& aName) :
@@ -237,6 +249,12 @@ inline AcceleratorComponent::AcceleratorComponent(const string& aName, Accelerat
 {
 }
 
+inline AcceleratorComponent::AcceleratorComponent(const AcceleratorComponent& rhs) :
+	ModelElement(rhs), itsField(nullptr), itsGeometry(nullptr), itsAperture(rhs.itsAperture), materialProperties(
+		rhs.materialProperties), itsWakes(rhs.itsWakes), position(rhs.position), blI(rhs.blI)
+{
+}
+
 inline const AcceleratorGeometry* AcceleratorComponent::GetGeometry() const
 {
 	return itsGeometry;
diff --git a/Merlin++/AcceleratorModelConstructor.h b/Merlin++/AcceleratorModelConstructor.h
index 21ee793..95a4e6a 100644
--- a/Merlin++/AcceleratorModelConstructor.h
+++ b/Merlin++/AcceleratorModelConstructor.h
@@ -126,6 +126,12 @@ private:
 
 	AcceleratorModel* currentModel;
 	FrameStack frameStack;
+
+private:
+
+	// owns storage: not copyable
+	AcceleratorModelConstructor(const AcceleratorModelConstructor&) = delete;
+	AcceleratorModelConstructor& operator=(const AcceleratorModelConstructor&) = delete;
 };
 
 #endif
diff --git a/Merlin++/ChannelServer.h b/Merlin++/ChannelServer.h
index 0496fde..695c862 100644
--- a/Merlin++/ChannelServer.h
+++ b/Merlin++/ChannelServer.h
@@ -125,6 +125,7 @@ public:
 
 	void SetRepository(ElementRepository* me_repo);
 
+	ChannelServer() = default;
 	~ChannelServer();
 
 private:
@@ -142,6 +143,12 @@ private:
 	 *	type
 	 */
 	void FindElements(const std::string& id_pat, std::vector<ModelElement*>& elements);
+
+private:
+
+	// owns storage: not copyable
+	ChannelServer(const ChannelServer&) = delete;
+	ChannelServer& operator=(const ChannelServer&) = delete;
 };
 
 inline ChannelServer::ChannelCtor::ChannelCtor(const string& aType, const string& aKey) :
diff --git a/Merlin++/Channels.h b/Merlin++/Channels.h
index 572f85a..4d043aa 100644
--- a/Merlin++/Channels.h
+++ b/Merlin++/Channels.h
@@ -137,6 +137,11 @@ protected:
 	void DestroyChannels();
 
 	std::vector<ROChannel*> channels;
+
+private:
+
+	// owns storage: not copyable
+	ROChannelArray& operator=(const ROChannelArray&) = delete;
 };
 
 class RWChannelArray: public ROChannelArray
diff --git a/Merlin++/ClosedOrbit.h b/Merlin++/ClosedOrbit.h
index 8398b58..5d4fd8d 100644
--- a/Merlin++/ClosedOrbit.h
+++ b/Merlin++/ClosedOrbit.h
@@ -59,6 +59,12 @@ private:
 	int radnumsteps = 0;
 	double bendscale;
 	ParticleTracker* theTracker;
+
+private:
+
+	// owns storage: not copyable
+	ClosedOrbit(const ClosedOrbit&) = delete;
+	ClosedOrbit& operator=(const ClosedOrbit&) = delete;
 };
 
 #endif
diff --git a/Merlin++/CollimatorTable.h b/Merlin++/CollimatorTable.h
index 560ad28..ed89a65 100644
--- a/Merlin++/CollimatorTable.h
+++ b/Merlin++/CollimatorTable.h
@@ -261,6 +261,12 @@ public:
 			}
 		}
 	}
+
+private:
+
+	// owns storage: not copyable
+	collimatortable(const collimatortable&) = delete;
+	collimatortable& operator=(const collimatortable&) = delete;
 };
 
 #endif
diff --git a/Merlin++/ComponentTracker.h b/Merlin++/ComponentTracker.h
index 6766642..58d8dae 100644
--- a/Merlin++/ComponentTracker.h
+++ b/Merlin++/ComponentTracker.h
@@ -126,6 +126,7 @@ public:
 	{
 	public:
 		typedef std::map<int, ComponentIntegrator*> IMap;
+		IntegratorSet() = default;
 		~IntegratorSet();
 
 		/**
@@ -143,6 +144,10 @@ public:
 
 	private:
 		IMap itsMap;
+
+		// owns storage: not copyable
+		IntegratorSet(const IntegratorSet&) = delete;
+		IntegratorSet& operator=(const IntegratorSet&) = delete;
 	};
 
 	void ClearIntegratorSet()
@@ -191,6 +196,11 @@ private:
 	ComponentIntegrator* integrator = nullptr; // current integrator
 
 	IntegratorSet* iSet;
+
+private:
+
+	// owns storage: not copyable
+	ComponentTracker& operator=(const ComponentTracker&) = delete;
 };
 
 /**
diff --git a/Merlin++/ElasticScatter.cpp b/Merlin++/ElasticScatter.cpp
index a14ade3..bd1e41f 100644
--- a/Merlin++/ElasticScatter.cpp
+++ b/Merlin++/ElasticScatter.cpp
@@ -124,6 +124,7 @@ void ppElasticScatter::GenerateTDistribution(double energy)
 		delete Uniformt;
 		delete DSig;
 		delete DSigN;
+		Uniformt = DSig = DSigN = nullptr;
 	}
 }
 
diff --git a/Merlin++/Interpolation.h b/Merlin++/Interpolation.h
index f94b74c..942a3f2 100644
--- a/Merlin++/Interpolation.h
+++ b/Merlin++/Interpolation.h
@@ -80,6 +80,12 @@ public:
 	}
 
 	Method* itsMethod;
+
+private:
+
+	// owns storage: not copyable
+	Interpolation(const Interpolation&) = delete;
+	Interpolation& operator=(const Interpolation&) = delete;
 };
 
 #endif
diff --git a/Merlin++/LatticeFunctions.h b/Merlin++/LatticeFunctions.h
index e60664e..274c45f 100644
--- a/Merlin++/LatticeFunctions.h
+++ b/Merlin++/LatticeFunctions.h
@@ -38,6 +38,7 @@ class LatticeFunctionTable
 {
 public:
 	LatticeFunctionTable(AcceleratorModel* aModel, double refMomentum);
+	LatticeFunctionTable(LatticeFunctionTable&&) = default;
 	~LatticeFunctionTable();
 	void AddFunction(int i, int j, int k);
 	void UseDefaultFunctions();
@@ -82,6 +83,12 @@ private:
 	double DoCalculate(double cscale = 0, PSvector* pInit = nullptr, RealMatrix* MInit = nullptr);
 	double DoCalculateOrbitOnly(double cscale = 0, PSvector* pInit = nullptr);
 	vectorlfn::iterator GetColumn(int i, int j, int k);
+
+private:
+
+	// owns storage: not copyable
+	LatticeFunctionTable(const LatticeFunctionTable&) = delete;
+	LatticeFunctionTable& operator=(const LatticeFunctionTable&) = delete;
 };
 
 #endif
diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..e5a43ee 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -108,6 +108,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
diff --git a/Merlin++/MaterialData.h b/Merlin++/MaterialData.h
index 0a668c7..cf6f847 100644
--- a/Merlin++/MaterialData.h
+++ b/Merlin++/MaterialData.h
@@ -30,6 +30,7 @@ public:
 	MaterialData()
 	{
 	}                     // constructor
+	MaterialData(MaterialData&&) = default;
 	~MaterialData();     // destructor
 
 	/**
@@ -53,6 +54,12 @@ public:
 	void MakeMixture(std::string name, std::string s, ...);
 	void MakeMixtureByWeight(std::string name, std::string s, ...);
 	void PrintTable();
+
+private:
+
+	// owns storage: not copyable
+	MaterialData(const MaterialData&) = delete;
+	MaterialData& operator=(const MaterialData&) = delete;
 };
 
 /**
diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..6b42a63 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -76,7 +76,9 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		dEdx = a.dEdx;
 		X0 = a.X0;
 		Z = a.Z;
-		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		map<string, double>* newExtra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		delete extra;
+		extra = newExtra;
 	}
 	return *this;
 }
diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..9bb05fb 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -89,8 +89,11 @@ public:
 
 		PoleFaceInfo& operator =(const PoleFaceInfo& rhs)
 		{
-			Clear();
-			Copy(rhs);
+			if(this != &rhs)
+			{
+				Clear();
+				Copy(rhs);
+			}
 			return *this;
 		}
 
diff --git a/Merlin++/Transformable.h b/Merlin++/Transformable.h
index a8ac90b..0175a42 100644
--- a/Merlin++/Transformable.h
+++ b/Merlin++/Transformable.h
@@ -106,11 +106,14 @@ protected:
 	 */
 	Transformable& operator=(const Transformable& rhs)
 	{
-		if(local_T)
+		if(this != &rhs)
 		{
-			delete local_T;
+			if(local_T)
+			{
+				delete local_T;
+			}
+			local_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
 		}
-		local_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
 		return *this;
 	}
 };
diff --git a/Merlin++/XTFFInterface.h b/Merlin++/XTFFInterface.h
index 3880d56..7b87450 100644
--- a/Merlin++/XTFFInterface.h
+++ b/Merlin++/XTFFInterface.h
@@ -102,6 +102,12 @@ private:
 	bool girders;
 	std::stack<std::string> frameStack;
 	void ConstructNewFrame(const std::string&);
+
+private:
+
+	// owns storage: not copyable
+	XTFFInterface(const XTFFInterface&) = delete;
+	XTFFInterface& operator=(const XTFFInterface&) = delete;
 };
 
 #endif
-- 
2.43.0


From 076b74a61fc8b0edcb37cef2197f8a1acb893a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 06/54] fix: LU decomposition makes room for its pivot indices

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..f94b82e 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -239,6 +239,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	const int n = M.ncols();
 
 	std::vector<T> scale(n);
+	pivot.resize(n);
 
 	sign = 1.0;
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From c6f5b3585481d68df61014cf570f38a6878b2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 07/54] fix: tracking a step returns the distance left, as
 documented

---
 Merlin++/ComponentTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From 775af6a08c4dc42c417fa1043be783a58658757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 08/54] fix: re-seeding restarts every local random generator;
 no private copies of generators

---
 Merlin++/PhotonSpectrumGen.cpp |  2 +-
 Merlin++/RandomNG.cpp          | 10 ++++++++++
 Merlin++/SimpleATL.cpp         | 10 +++++-----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..1833e8d 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	static auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..5ac4abb 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,12 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+
+	// local generators start again from the new seed (in place: references to them stay valid)
+	for(auto& local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
@@ -121,6 +127,10 @@ double RandomNG::landau()
 
 std::mt19937_64& RandomNG::getGenerator()
 {
+	if(!generator)
+	{
+		not_seeded();
+	}
 	return *generator;
 }
 
diff --git a/Merlin++/SimpleATL.cpp b/Merlin++/SimpleATL.cpp
index 6ced498..bc33642 100644
--- a/Merlin++/SimpleATL.cpp
+++ b/Merlin++/SimpleATL.cpp
@@ -89,7 +89,7 @@ SimpleATL::SimpleATL(double anA, const AcceleratorSupportList& supports, double
 	t(0), A(anA), seed(0), vv(vrms * vrms), atlgm(supports.size(), 0.0), theSupports(supports)
 {
 	sort(theSupports.begin(), theSupports.end(), AsZ);
-	rg = &RandomNG::getLocalGenerator(hash_string("ATL2D") + seed);
+	rg = &RandomNG::getLocalGenerator(hash_string("SimpleATL") + seed);
 }
 
 SimpleATL::~SimpleATL()
@@ -131,8 +131,8 @@ double SimpleATL::GetTime() const
 void SimpleATL::SetRandomSeed(unsigned int nseed)
 {
 	seed = nseed;
-	RandomNG::resetLocalGenerator(hash_string("ATL2D") + seed);
-	rg = &RandomNG::getLocalGenerator(hash_string("ATL2D") + seed);
+	RandomNG::resetLocalGenerator(hash_string("SimpleATL") + seed);
+	rg = &RandomNG::getLocalGenerator(hash_string("SimpleATL") + seed);
 }
 
 unsigned int SimpleATL::GetRandomSeed() const
@@ -142,6 +142,6 @@ unsigned int SimpleATL::GetRandomSeed() const
 
 void SimpleATL::ResetRandomSeed()
 {
-	RandomNG::resetLocalGenerator(hash_string("ATL2D") + seed);
-	rg = &RandomNG::getLocalGenerator(hash_string("ATL2D") + seed);
+	RandomNG::resetLocalGenerator(hash_string("SimpleATL") + seed);
+	rg = &RandomNG::getLocalGenerator(hash_string("SimpleATL") + seed);
 }
-- 
2.43.0


From 1fb7f749c853b707924bc30e60770f8ac5d0820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 09/54] fix: removing a process that is not in the table leaves
 the table alone and says so

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 988d4c136baaf865e14770570e13ec9df6905ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 10/54] fix: spin tracking in several steps per component moves
 on to the next step

---
 Merlin++/SpinParticleProcess.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..ab9a80a 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -390,6 +390,10 @@ void SpinParticleProcess::DoProcess(double ds)
 
 	intS += ds;
 
+	if(fequal(intS, (nk1 + 1) * dL))
+	{
+		nk1++;
+	}
 }
 
 double SpinParticleProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From 1a520bc501a2b753b6a1308ba1c698130e8299e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:32 +0000
Subject: [PATCH 11/54] fix: stepping through the beamline applies geometry
 patches and passes frames without a component, as a full run does

---
 Merlin++/TrackingSimulation.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..05ac195 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -271,7 +271,22 @@ bool TrackingSimulation::StepComponent()
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-- 
2.43.0


From 92448eca98400e3daf588408decf044ca9074b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:32 +0000
Subject: [PATCH 12/54] fix: continuing a simulation that has not run yet makes
 its bunch instead of using none

---
 Merlin++/TrackingSimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 05ac195..bf7969f 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -122,7 +122,7 @@ Bunch& TrackingSimulation::DoRun(bool new_bunch, bool do_init)
 	// force initialisation if there is no bunch
 	do_init = new_bunch || do_init || (bunch == nullptr);
 
-	if(new_bunch)
+	if(new_bunch || bunch == nullptr)
 	{
 		assert(ibunchCtor != nullptr);
 		if(bunch != nullptr)
-- 
2.43.0


From 96861d00e4e12fff7b58d66188cb25a664976d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 13/54] fix: bunch moments start from cleared second moments
 when the result object is reused

---
 Merlin++/ParticleBunch.cpp | 1 +
 Merlin++/SMPBunch.cpp      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..f79e893 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -237,6 +237,7 @@ PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
 	sigma[0] = X.x;
 	sigma[1] = X.y;
+	sigma.Zero();
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
 	return sigma;
 }
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..d00ccb9 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,8 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma[0] = sigma[1] = 0;
+	sigma.Zero();
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From c4f9aa4bd673410039156409344400bde264ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 14/54] fix: adjusting the reference of an SMP bunch shifts its
 particles, as for a particle bunch

---
 Merlin++/SMPBunch.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index d00ccb9..df155db 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -156,10 +156,11 @@ double SMPBunch::AdjustRefMomentumToMean()
 	{
 		dp0 += (cp->dp()) * (cp->Q());
 	}
-	double ddp = dp0 / Qt + 1.0;
+	dp0 /= Qt;
+	double ddp = dp0 + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() - dp0) / ddp;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -172,7 +173,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	SetReferenceTime(GetReferenceTime() - ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From 60b224f85532670c5ae097853ea6eb00b7a68926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 15/54] fix: setting the centroid to the first particle
 accounts for that particle staying in place

---
 Merlin++/ParticleBunch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index f79e893..74c0c34 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -389,6 +389,10 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	if(size() > 1)
+	{
+		x *= double(size()) / (size() - 1);   // the first particle stays where it is
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From 2b67095f069f80c1716a4236776445aa9e76e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 16/54] fix: the binning filter stays within the bins and its
 coefficients

---
 Merlin++/ParticleBunchUtilities.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..b03eab0 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -135,8 +135,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	{
 		fbins[n] = hbins[n] * a;
 		if(c)
-			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, n + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 56a3723b4c8b2a484a4b38ab694fe4ce36923de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 17/54] fix: truncating a particle distribution does not step
 back before the first particle

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b03eab0..9e57809 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -176,7 +176,7 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 			if(truncate)
 			{
 				p = bunch.erase(p);
-				p--;
+				continue;
 			}
 		}
 		else
-- 
2.43.0


From 2e36074cf2994d9bc933d2b08484955bdfb82c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 18/54] fix: slicing an SMP bunch counts its first
 macro-particle once

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..8527ad7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -252,7 +252,7 @@ void WakeFieldProcess::PrepSlices()
 	double zavg = (p->ct()) * (p->Q());
 	double qt = p->Q();
 
-	for(; p != currentBunch->end(); p++)
+	for(++p; p != currentBunch->end(); p++)
 	{
 		if(p->ct() >= z)
 		{
-- 
2.43.0


From 3058aba84adb63655be21dc67184d75e3aaf1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 19/54] fix: AddRowFromRow adds a row holding the values of the
 row given (was an empty stub)

---
 Merlin++/DataTable.cpp | 21 +++++++++++++++++++--
 Merlin++/DataTable.h   |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 514f9f0..8906117 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -64,9 +64,26 @@ size_t DataTable::AddRow()
 	return length - 1;
 }
 
-void DataTable::AddRowFromRow(DataTableRow dt)
+void DataTable::AddRowFromRow(DataTableRow dtrow)
 {
-	//TODO
+	size_t row = AddRow();
+	for(const auto &col_name : col_names)
+	{
+		switch(lookup.at(col_name).type)
+		{
+		case 'd':
+			Set_d(col_name, row, dtrow.Get_d(col_name));
+			break;
+		case 'i':
+			Set_i(col_name, row, dtrow.Get_i(col_name));
+			break;
+		case 's':
+			Set_s(col_name, row, dtrow.Get_s(col_name));
+			break;
+		default:
+			throw WrongTypeException("Bad type in lookup");
+		}
+	}
 }
 
 void DataTable::ApertureFromRow(DataTableRow dtrow)
diff --git a/Merlin++/DataTable.h b/Merlin++/DataTable.h
index 8d39165..9d728d0 100644
--- a/Merlin++/DataTable.h
+++ b/Merlin++/DataTable.h
@@ -99,7 +99,8 @@ public:
 	/// New empty row.
 	size_t AddRow();
 
-	void AddRowFromRow(DataTableRow dt);
+	/// New row with the values that dtrow has in the columns of this table.
+	void AddRowFromRow(DataTableRow dtrow);
 
 	//configure aperture info from DataTableRow
 	void ApertureFromRow(DataTableRow dtrow);
-- 
2.43.0


From 6654d756dedd2451076f2e5af964fedbaf4ad0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 20/54] fix: TFS reader keeps empty quoted words, which the
 writer produces for empty strings

---
 Merlin++/DataTableTFS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..3e38f0f 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false; // a quoted word may be empty
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,7 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
-- 
2.43.0


From c57153a9462a4a852e3be02284d9765cfbcbb3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 21/54] fix: TFS reader reports an empty file or a blank type
 line instead of reading past the end of its words

---
 Merlin++/DataTableTFS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 3e38f0f..ebb9ec6 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -118,7 +118,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.empty() || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -131,7 +131,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.empty() || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From bb8a3a860b9a144b7c82a272eb24f9f4efade072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 22/54] fix: ChannelServer keeps looking for channels after an
 element type without any

An element type without a matching channel ended the search, so every matching
element of the types sorted after it was silently left out.
---
 Merlin++/ChannelServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..877f500 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -110,7 +110,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue;
 			}
 		}
 
@@ -152,7 +152,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			if(ctors.empty())
 			{
 				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				continue;
 			}
 		}
 
-- 
2.43.0


From 10b21999b851a4267659feed2834d8af74a0132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 23/54] fix: setting one plane of a corrector winding keeps the
 other plane

SetBx() set the By component to zero and the other way round.
---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From 5313c65fafb39d3ba624be396b4a4cf60b1ae1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 24/54] fix: setting a BPM channel's offset keeps the offset of
 the other plane

Both channels of a BPM share one data buffer.
---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0


From 2a73037f1484b88758f6a2f97d73b64f54cc54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 25/54] fix: asking for a read-only channel for writing is an
 error

Without assertions a null channel was handed out, to be dereferenced by its user.
---
 Merlin++/ChannelServer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 877f500..fc3dd24 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <algorithm>
 #include "MerlinIO.h"
+#include "MerlinException.h"
 #include "Channels.h"
 #include "ModelElement.h"
 #include "StringPattern.h"
@@ -160,7 +161,10 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
+			if(ch == nullptr)
+			{
+				throw MerlinException("ChannelServer: read-only channel " + (*ci)->GetID() + " requested for writing");
+			}
 			channels.push_back(ch);
 			count++;
 		}
@@ -228,7 +232,10 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
+					if(ch == nullptr)
+					{
+						throw MerlinException("ChannelServer: read-only channel " + (*ci)->GetID() + " requested for writing");
+					}
 					channels.push_back(ch);
 					count++;
 				}
-- 
2.43.0


From 1b1d4a68437f0d8e7cf19f873022453c686d8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 26/54] fix: a multipole knows its primary pole number

The constructors never stored it; GetPrimaryPoleNo() returned 0 for every magnet.
---
 Merlin++/RectMultipole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RectMultipole.cpp b/Merlin++/RectMultipole.cpp
index 2e2d53a..721fdfe 100644
--- a/Merlin++/RectMultipole.cpp
+++ b/Merlin++/RectMultipole.cpp
@@ -12,13 +12,13 @@ const int RectMultipole::ID = UniqueIndex();
 
 RectMultipole::RectMultipole(const string& id, double length, int npole, double b, double r0, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(length),
-		new MultipoleField(npole, b, r0, skew))
+		new MultipoleField(npole, b, r0, skew)), np(npole)
 {
 }
 
 RectMultipole::RectMultipole(const string& id, double len, int np, double b, bool skew) :
 	TAccCompGF<RectangularGeometry, MultipoleField>(id, new RectangularGeometry(len),
-		new MultipoleField(np, b, skew))
+		new MultipoleField(np, b, skew)), np(np)
 {
 }
 
-- 
2.43.0


From ad4946e48df46c16df306e98266272896328d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 27/54] fix: CollimatorAperture entrance setters change the jaw
 gap

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..060cfd6 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -43,11 +43,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From 21ec30396f617753b3efbd7aba388860840411f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 28/54] fix: collimator exit gap defaults to the entrance gap
 and bounds the quick test

---
 Merlin++/CollimatorAperture.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 060cfd6..1c7c6c0 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -11,7 +11,7 @@
 CollimatorAperture::CollimatorAperture(double w, double h, double t, double length, double x_off, double y_off) :
 	RectEllipseAperture(), alpha(t), CollimatorLength(length), x_offset_entry(x_off), y_offset_entry(y_off),
 	x_offset_exit(0), y_offset_exit(
-		0), w_entrance(w), h_entrance(h), w_exit(0), h_exit(0), cosalpha(cos(-t)), sinalpha(sin(-t))
+		0), w_entrance(w), h_entrance(h), w_exit(w), h_exit(h), cosalpha(cos(-t)), sinalpha(sin(-t))
 {
 	rectHalfX = w / 2;
 	rectHalfY = h / 2;
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-- 
2.43.0


From bffa797c3b09cb61b8ade69823951c8e8e11f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 29/54] fix: InterpolatedRectEllipseAperture quick test
 considers the back half width

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From 0a7f8e31a2150cd070f825852d222f52d8e693a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 30/54] fix: InterpolatedEllipticalAperture uses its vertical
 dimension

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..dcc9346 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apFront.ap2, apBack.ap1, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From d225a177b68e2f65d9e90bd764a58797475b0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 31/54] fix: interpolated apertures past the last entry use the
 last entry

---
 Merlin++/InterpolatedApertures.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index dcc9346..162073c 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -90,6 +90,11 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	{
 		z = 0;
 	}
+	//past the last entry the last entry holds
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	for(size_t n = 1; n < ApList.size(); ++n)
 	{
@@ -433,6 +438,11 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	{
 		z = 0;
 	}
+	//past the last entry the last entry holds
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-- 
2.43.0


From e2f82d27f8028aac5ed65e2ddd1c04c8c2b40015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 32/54] fix: TransportMatrix::Srot must build a rotation for
 every angle

For a non-zero angle below the comparison tolerance the caller's matrix was
returned untouched (all zero), so a slightly tilted magnet erased the bunch.
---
 Merlin++/TransportMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.h b/Merlin++/TransportMatrix.h
index bb4bcac..a5ba7ea 100644
--- a/Merlin++/TransportMatrix.h
+++ b/Merlin++/TransportMatrix.h
@@ -80,12 +80,12 @@ inline RealMatrix& TransportMatrix::Quadrupole(double length, double Kx, RealMat
 
 inline RealMatrix& TransportMatrix::Srot(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : Srot(cos(phi), sin(phi), R);
+	return Srot(cos(phi), sin(phi), R);
 }
 
 inline RealMatrix& TransportMatrix::SrotR4(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : SrotR4(cos(phi), sin(phi), R);
+	return SrotR4(cos(phi), sin(phi), R);
 }
 
 #endif
-- 
2.43.0


From 3888f249bdad31fc7847fab4284588b40ae60c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 33/54] fix: symplectic RectMultipole: kick in the magnet frame

The quadrupole map is rotated itself, so the multipole kick must not be rotated
again: a defocusing quadrupole with a sextupole kicked out of the horizontal plane.
---
 Merlin++/SymplecticIntegrators.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..1d34835 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1009,15 +1009,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
 			M.Apply(currentBunch->GetParticles());
 			field.SetCoefficient(1, b1);
 		}
-- 
2.43.0


From 410326b9355ccb7182f36c1093d54e00c27b3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 34/54] fix: symplectic RectMultipole: track the second half of
 a split magnet once

With a quadrupole term the trailing block kicked and drifted the bunch again
after the magnet had already been tracked to its end.
---
 Merlin++/SymplecticIntegrators.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 1d34835..dc0cbeb 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1018,15 +1018,15 @@ void RectMultipoleCI::TrackStep(double ds)
 	else
 	{
 		ApplyDriftMap(currentBunch, len);
-	}
 
-	if(splitMagnet)
-	{
-		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(1, Complex(0));
-		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
-		field.SetCoefficient(1, b1);
+		if(splitMagnet)
+		{
+			Complex b1 = field.GetCoefficient(1);
+			field.SetCoefficient(1, Complex(0));
+			for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
+			ApplyDriftMap(currentBunch, len);
+			field.SetCoefficient(1, b1);
+		}
 	}
 }
 
-- 
2.43.0


From 11939955d834c84a5cde12408a9234afc43772a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 35/54] fix: errors raise exceptions instead of ending the
 program

---
 Merlin++/AcceleratorModel.cpp         |  7 ++++---
 Merlin++/ApertureConfiguration.cpp    |  3 ++-
 Merlin++/ApertureSurvey.cpp           |  9 +++++----
 Merlin++/CollimateParticleProcess.cpp |  3 ++-
 Merlin++/CollimateProtonProcess.cpp   |  3 ++-
 Merlin++/CollimatorDatabase.cpp       |  5 +++--
 Merlin++/CollimatorTable.h            |  3 ++-
 Merlin++/DataTableTFS.cpp             |  5 +++--
 Merlin++/InterpolatedApertures.cpp    | 11 ++++++-----
 Merlin++/LatticeFunctions.cpp         |  3 ++-
 Merlin++/MADInterface.cpp             |  5 +++--
 Merlin++/MonitorProcess.cpp           |  3 ++-
 Merlin++/NANCheckProcess.cpp          |  3 ++-
 Merlin++/ParticleBunchUtilities.cpp   |  3 ++-
 Merlin++/SMPBunch.cpp                 |  7 ++++---
 Merlin++/ScatteringModel.cpp          |  5 +++--
 16 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..d9025d0 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -19,6 +19,7 @@
 #include "Drift.h"
 #include "AcceleratorComponent.h"
 #include "TComponentFrame.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -235,7 +236,7 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	if(element->GetLength() != 0)
 	{
 		std::cout << "Currently only zero length elements can be added" << std::endl;
-		exit(1);
+		throw MerlinException("AcceleratorModel: only zero length elements can be installed");
 	}
 
 	// Find insert point
@@ -265,7 +266,7 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	if(current_cf == lattice.end())
 	{
 		std::cout << "Out of range at: " << at << std::endl;
-		exit(1);
+		throw MerlinException("AcceleratorModel: position of element to install is out of range");
 	}
 
 	// For now only allow splitting of a Drift
@@ -273,7 +274,7 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	if(!current_drift)
 	{
 		std::cout << "Not a drift at: " << at << std::endl;
-		exit(1);
+		throw MerlinException("AcceleratorModel: element to install is not inside a drift");
 	}
 
 	// Create new drift sections, and frames to hold them
diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..66f6903 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -17,6 +17,7 @@
 
 #include "ApertureConfiguration.h"
 #include "InterpolatedApertures.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -264,7 +265,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<<
 								"Attempting to interpolate incompatible aperture types (RECTELLIPSE and OCTAGON)... exiting simulation."
 								<< endl;
-							exit(EXIT_FAILURE);
+							throw MerlinException("ApertureConfiguration: cannot interpolate between RECTELLIPSE and OCTAGON apertures");
 						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
diff --git a/Merlin++/ApertureSurvey.cpp b/Merlin++/ApertureSurvey.cpp
index 50c1250..5c4e56b 100644
--- a/Merlin++/ApertureSurvey.cpp
+++ b/Merlin++/ApertureSurvey.cpp
@@ -10,6 +10,7 @@
 #include "ApertureSurvey.h"
 #include "Collimator.h"
 #include "ParticleBunch.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -19,7 +20,7 @@ static ofstream* open_file(const string file_name)
 	if(!output_file->good())
 	{
 		std::cerr << "Could not open ApertureSurvey file:" << file_name << std::endl;
-		exit(EXIT_FAILURE);
+		throw MerlinException("ApertureSurvey: could not open file " + file_name);
 	}
 	return output_file;
 }
@@ -98,7 +99,7 @@ void ApertureSurvey::ApertureSurvey(AcceleratorModel* model, std::ostream* os, S
 		if(points < 1)
 		{
 			std::cerr << "ERROR: With mode=points_per_element, step must be at least 1" << std::endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("ApertureSurvey: points per element must be at least 1");
 		}
 		break;
 	case distance:
@@ -106,7 +107,7 @@ void ApertureSurvey::ApertureSurvey(AcceleratorModel* model, std::ostream* os, S
 		if(step_size <= 0)
 		{
 			std::cerr << "ERROR: step must be positive" << std::endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("ApertureSurvey: step must be positive");
 		}
 		break;
 	}
@@ -128,7 +129,7 @@ void ApertureSurvey::ApertureSurvey(AcceleratorModel* model, std::ostream* os, S
 		if(fabs(s - ac->GetComponentLatticePosition()) > 1e-6)
 		{
 			std::cerr << "ERROR: discrepancy between GetComponentLatticePosition() and sum of lengths" << std::endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("ApertureSurvey: component lattice positions differ from the sum of lengths");
 		}
 
 		// get aperture
diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..8124beb 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -23,6 +23,7 @@
 
 #include "utils.h"
 #include "PhysicalUnits.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -623,7 +624,7 @@ void CollimateParticleProcess::DoOutput(const PSvectorArray& lostb, const list<s
 			if(!file)
 			{
 				std::cerr << "CollimateParticleProcess::DoOutput(): Failed to open " << fname.str() << std::endl;
-				exit(EXIT_FAILURE);
+				throw MerlinException("CollimateParticleProcess: failed to open " + fname.str());
 			}
 
 			if(pindex == nullptr)
diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..2b4ab81 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -26,6 +26,7 @@
 #include "utils.h"
 #include "PhysicalUnits.h"
 #include "PhysicalConstants.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace Collimation;
@@ -86,7 +87,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 	{
 		std::cout << "\nCollimateProtonProcess::SoScatter::WARNING: no ScatteringModel set." << std::endl;
 		std::cout << "Use 'myCollimateProcess->SetScatteringModel(myScatter);'" << std::endl;
-		exit(EXIT_FAILURE);
+		throw MerlinException("CollimateProtonProcess: no ScatteringModel set");
 	}
 	while(lengthtogo > 0)
 	{
diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..0ccd314 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -22,6 +22,7 @@
 #include "PhysicalUnits.h"
 
 #include "RandomNG.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace PhysicalUnits;
@@ -38,7 +39,7 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 	if(input == nullptr || !input->good())
 	{
 		std::cerr << "Failed to open collimator database: " << input_file << " - Exiting." << std::endl;
-		exit(EXIT_FAILURE);
+		throw MerlinException("CollimatorDatabase: failed to open " + input_file);
 	}
 
 	//Find number of elements
@@ -540,7 +541,7 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 						else
 						{
 							std::cerr << "Unsupported collimator configuration in CollimatorDatabase.cpp" << std::endl;
-							exit(1);
+							throw MerlinException("CollimatorDatabase: unsupported collimator configuration");
 						}
 
 						//std::cout << "point7" << std::endl;
diff --git a/Merlin++/CollimatorTable.h b/Merlin++/CollimatorTable.h
index ed89a65..eb834c1 100644
--- a/Merlin++/CollimatorTable.h
+++ b/Merlin++/CollimatorTable.h
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <fstream>
+#include "MerlinException.h"
 
 class collimatortable
 {
@@ -68,7 +69,7 @@ public:
 		if(!f)
 		{
 			std::cout << "Cannot open file " << file << std::endl;
-			exit(1);
+			throw MerlinException(std::string("collimatortable: cannot open file ") + file);
 		}
 
 		int n1, n2, n3;
diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index ebb9ec6..cb48e89 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -11,6 +11,7 @@
 #include <iomanip>
 
 #include "DataTableTFS.h"
+#include "MerlinException.h"
 
 DataTableReaderTFS::DataTableReaderTFS(std::string filename)
 {
@@ -18,7 +19,7 @@ DataTableReaderTFS::DataTableReaderTFS(std::string filename)
 	if(!inf->good())
 	{
 		std::cerr << "Could not open file " << filename << std::endl;
-		exit(1);
+		throw MerlinException("DataTableReaderTFS: could not open file " + filename);
 	}
 	in = inf.get();
 }
@@ -194,7 +195,7 @@ DataTableWriterTFS::DataTableWriterTFS(std::string filename) :
 	if(!outf->good())
 	{
 		std::cerr << "Could not open file " << filename << std::endl;
-		exit(1);
+		throw MerlinException("DataTableWriterTFS: could not open file " + filename);
 	}
 	out = outf.get();
 }
diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 162073c..e5240cd 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -13,6 +13,7 @@
 
 #include "NumericalConstants.h"
 #include "InterpolatedApertures.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -41,7 +42,7 @@ bool InterpolatedAperture::CheckWithinApertureBoundaries(double x, double y, dou
 {
 	//if you're here you're using a yet unsupported interpolation
 	cout << "Unsupported Aperture Interpolation... exiting." << endl;
-	exit(EXIT_FAILURE);
+	throw MerlinException("InterpolatedAperture: unsupported aperture interpolation");
 	return true;
 }
 
@@ -238,7 +239,7 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 				cout << apBack.ap1 << endl;
 				cout << ApList[n].ap1 << endl;
 				cout << ApList[n - 1].ap1 << endl;
-				abort();
+				throw MerlinException("InterpolatedCircularAperture: zero aperture");
 			}
 
 			break;
@@ -252,7 +253,7 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 				cout << "Entry " << m << " - z = " << ApList[m].s << "\t" << ApList[m].ap1
 					 << endl;
 			}
-			abort();
+			throw MerlinException("InterpolatedCircularAperture: no aperture found");
 		}
 	}
 
@@ -351,7 +352,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 				cout << apBack.ap1 << endl;
 				cout << ApList[n].ap1 << endl;
 				cout << ApList[n - 1].ap1 << endl;
-				abort();
+				throw MerlinException("InterpolatedEllipticalAperture: zero aperture");
 			}
 
 			break;
@@ -365,7 +366,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 				cout << "Entry " << m << " - z = " << ApList[m].s << "\t" << ApList[m].ap1
 					 << endl;
 			}
-			abort();
+			throw MerlinException("InterpolatedEllipticalAperture: no aperture found");
 		}
 	}
 
diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index b8abf98..b668381 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -18,6 +18,7 @@
 #include "NumericalConstants.h"
 #include "TLAS.h"
 #include "LatticeFunctions.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace ParticleTracking;
@@ -356,7 +357,7 @@ double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMat
 		if(fabs(M(4, 4) - 1) > 1e-8)
 		{
 			cout << "R_55 not close to 1. Do you have RF enabled? Aborting" << endl;
-			exit(1);
+			throw MerlinException("LatticeFunctionTable: R_55 not close to 1, is RF enabled?");
 		}
 
 		cout << "Setting R_55 to 1 - 1e-12" << endl;
diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index e5a43ee..eb45307 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -17,6 +17,7 @@
 #include "DataTableTFS.h"
 #include "ConstructSrot.h"
 #include "MADInterface.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace PhysicalConstants;
@@ -260,7 +261,7 @@ void MADInterface::ConstructNewFrame(const string& name)
 
 		default:
 			MERLIN_ERR << "Unknown frame character: " << name << endl;
-			abort();
+			throw MerlinException(std::string("MADInterface: unknown frame character: ") + name);
 			break;
 		}
 	}
@@ -299,7 +300,7 @@ void MADInterface::AppendModel(const string& fname, double Pref)
 	if(!(*ifs))
 	{
 		MERLIN_ERR << "ERROR opening file " << fname << endl;
-		abort();
+		throw MerlinException("MADInterface: could not open file " + fname);
 	}
 
 	if(modelconstr == nullptr)
diff --git a/Merlin++/MonitorProcess.cpp b/Merlin++/MonitorProcess.cpp
index 5a431b1..6b3ccd3 100644
--- a/Merlin++/MonitorProcess.cpp
+++ b/Merlin++/MonitorProcess.cpp
@@ -9,6 +9,7 @@
 #include "AcceleratorComponent.h"
 #include <fstream>
 #include "ParticleBunchProcess.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace ParticleTracking;
@@ -55,7 +56,7 @@ void MonitorProcess::DoProcess(const double ds)
 		if(!out_file.good())
 		{
 			cerr << "Error opening " << filename << endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("MonitorProcess: could not open " + filename);
 		}
 		currentBunch->Output(out_file);
 		out_file.close();
diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..1e75cd1 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -9,6 +9,7 @@
 #include "AcceleratorComponent.h"
 #include "ParticleBunchProcess.h"
 #include "ParticleBunch.h"
+#include "MerlinException.h"
 #include <string>
 
 using namespace ParticleTracking;
@@ -54,7 +55,7 @@ void NANCheckProcess::DoProcess(const double ds)
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
-				abort();
+				throw MerlinException("NANCheckProcess: NAN coordinate");
 			}
 		}
 		count++;
diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index 9e57809..8deb0bd 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -7,6 +7,7 @@
 
 #include "merlin_config.h"
 #include "ParticleBunchUtilities.h"
+#include "MerlinException.h"
 
 #include <vector>
 #include <cmath>
@@ -111,7 +112,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		    cerr << "Output of the current bunch is to badbunch.bunch" << endl;
 		 */
 #ifndef ENABLE_MPI
-		abort();
+		throw MerlinException("ParticleBinList: bad slicing");
 #endif
 
 #ifdef ENABLE_MPI
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index df155db..5450598 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -7,6 +7,7 @@
 
 #include "SMPBunch.h"
 #include "SMPTransform3D.h"
+#include "MerlinException.h"
 #include <fstream>
 #include <iterator>
 #include <algorithm>
@@ -28,7 +29,7 @@ SMPBunch::SMPBunch(const std::string& fname) :
 	if(!ifs)
 	{
 		cerr << "SMPBunch file not found: " << fname << endl;
-		abort();
+		throw MerlinException("SMPBunch: could not open " + fname);
 	}
 
 	double p0, ct0;
@@ -42,7 +43,7 @@ SMPBunch::SMPBunch(const std::string& fname) :
 	else
 	{
 		cerr << "Bad SMPBunch file format: " << fname << endl;
-		abort();
+		throw MerlinException("SMPBunch: bad file format: " + fname);
 	}
 	while(ifs)
 	{
@@ -59,7 +60,7 @@ SMPBunch::SMPBunch(const std::string& fname) :
 	if(nmp != 0)
 	{
 		cerr << "Bad SMPBunch file format: " << fname << endl;
-		abort();
+		throw MerlinException("SMPBunch: bad file format: " + fname);
 	}
 
 	sort(begin(), end());
diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 93b1321..c72eb03 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -22,6 +22,7 @@
 #include "NumericalConstants.h"
 
 #include "RandomNG.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace ParticleTracking;
@@ -374,7 +375,7 @@ void ScatteringModel::OutputScatterPlot(string directory, int seed)
 		{
 			std::cerr << "ScatteringModel::OutputJawImpact: Could not open ScatterPlot file for collimator "
 					  << (*name) << std::endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("ScatteringModel: could not open " + scatter_plot_file.str());
 		}
 
 		//~ (*os) << "#\tparticle_id\tx\tx'\ty\ty'\tct\tdpctturn" << endl;
@@ -414,7 +415,7 @@ void ScatteringModel::OutputJawImpact(string directory, int seed)
 		{
 			std::cerr << "ScatteringModel::OutputJawImpact: Could not open JawImpact file for collimator " << (*name)
 					  << std::endl;
-			exit(EXIT_FAILURE);
+			throw MerlinException("ScatteringModel: could not open " + jaw_impact_file.str());
 		}
 
 		(*os) << "#\tparticle_id\tx\tx'\ty\ty'\tct\tdpctturn" << std::endl;
-- 
2.43.0


From ce715dfb5ec1f632d803c0030754cada46e2fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 36/54] fix: every exception thrown derives from the standard
 ones and has a message

---
 Merlin++/AcceleratorGeometry.h |  8 +++++++-
 Merlin++/ComponentFrame.h      |  5 +++--
 Merlin++/ComponentTracker.h    |  9 ++++++++-
 Merlin++/TLAS.h                | 29 +++++++++++++++++++++++++----
 Merlin++/TMatrixLib.h          | 15 +++++++++++++--
 5 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/Merlin++/AcceleratorGeometry.h b/Merlin++/AcceleratorGeometry.h
index 9cb94a6..ab8fbf1 100644
--- a/Merlin++/AcceleratorGeometry.h
+++ b/Merlin++/AcceleratorGeometry.h
@@ -12,6 +12,7 @@
 #include <utility>
 
 #include "Transform3D.h"
+#include "MerlinException.h"
 
 /**
  * Represents a frame of reference for a section of
@@ -40,8 +41,13 @@ public:
 	 * Exception thrown indicating that an s-distance was
 	 * outside of the current geometry extent.
 	 */
-	class BeyondExtent
+	class BeyondExtent: public MerlinException
 	{
+	public:
+		BeyondExtent() :
+			MerlinException("position is outside of the geometry")
+		{
+		}
 	};
 
 	typedef std::pair<double, double> Extent;
diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..2d6a80a 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -10,6 +10,7 @@
 
 #include "merlin_config.h"
 #include "AcceleratorComponent.h"
+#include "MerlinException.h"
 #include "LatticeFrame.h"
 
 /**
@@ -133,7 +134,7 @@ inline AcceleratorComponent& ComponentFrame::GetComponent()
 {
 	if(theComponent == nullptr)
 	{
-		throw "bad_component";
+		throw MerlinException("ComponentFrame: frame has no component");
 	}
 	return *theComponent;
 }
@@ -142,7 +143,7 @@ inline const AcceleratorComponent& ComponentFrame::GetComponent() const
 {
 	if(theComponent == nullptr)
 	{
-		throw "bad_component";
+		throw MerlinException("ComponentFrame: frame has no component");
 	}
 	return *theComponent;
 }
diff --git a/Merlin++/ComponentTracker.h b/Merlin++/ComponentTracker.h
index 58d8dae..5fa9be5 100644
--- a/Merlin++/ComponentTracker.h
+++ b/Merlin++/ComponentTracker.h
@@ -11,6 +11,7 @@
 #include "merlin_config.h"
 #include "ComponentIntegrator.h"
 #include "AcceleratorComponent.h"
+#include "MerlinException.h"
 #include <map>
 
 /**
@@ -58,7 +59,13 @@ public:
 	/**
 	 *	Exception thrown when no valid integrator is identified.
 	 */
-	struct UnknownComponent {};
+	struct UnknownComponent: public MerlinException
+	{
+		UnknownComponent() :
+			MerlinException("no integrator for component")
+		{
+		}
+	};
 
 	/**
 	 *	Destructor
diff --git a/Merlin++/TLAS.h b/Merlin++/TLAS.h
index 79598e3..a61879b 100644
--- a/Merlin++/TLAS.h
+++ b/Merlin++/TLAS.h
@@ -14,6 +14,7 @@
 #include <vector>
 
 #include "TMatrixLib.h"
+#include "MerlinException.h"
 
 namespace TLAS
 {
@@ -40,17 +41,37 @@ Vector<T>& SVDsolve(const Matrix<T>&, const Vector<T>&, const Matrix<T>&, const
 
 // Exceptions used by linear algebra routines.
 
-class SingularMatrix
+class SingularMatrix: public MerlinException
 {
+public:
+	SingularMatrix() :
+		MerlinException("singular matrix")
+	{
+	}
 };
-class ConvergenceFailure
+class ConvergenceFailure: public MerlinException
 {
+public:
+	ConvergenceFailure() :
+		MerlinException("no convergence")
+	{
+	}
 };
-class SingularValuesAllZero
+class SingularValuesAllZero: public MerlinException
 {
+public:
+	SingularValuesAllZero() :
+		MerlinException("all singular values are zero")
+	{
+	}
 };
-class NonSquareMatrix
+class NonSquareMatrix: public MerlinException
 {
+public:
+	NonSquareMatrix() :
+		MerlinException("matrix is not square")
+	{
+	}
 };
 
 template<class T> Matrix<T> Transpose(const Matrix<T>& M)
diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..4233d24 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -19,6 +19,7 @@
 
 #include "tblas.h"
 #include "utils.h"
+#include "MerlinException.h"
 
 namespace TLAS
 {
@@ -33,11 +34,21 @@ template<class T> class ConstSubMatrix;
 struct IdentityMatrix;
 
 // exceptions
-class DimensionError
+class DimensionError: public MerlinException
 {
+public:
+	DimensionError() :
+		MerlinException("dimension error")
+	{
+	}
 };
-class RangeError
+class RangeError: public MerlinException
 {
+public:
+	RangeError() :
+		MerlinException("range error")
+	{
+	}
 };
 
 inline double ABS(double x)
-- 
2.43.0


From 49c0d19346aa3b67b1d37ed8553751e973d9fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:01 +0000
Subject: [PATCH 37/54] fix: building the flat lattice no longer swallows
 errors

---
 Merlin++/AcceleratorModelConstructor.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..4a58950 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -56,22 +56,11 @@ public:
 	virtual void ActOn(LatticeFrame* frame)
 	{
 		erepo->Add(frame);
-		try
+		ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
+		if(cf)
 		{
-			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
-			if(cf)
-			{
-				erepo->Add(&(cf->GetComponent()));
-				lattice->push_back(cf);
-			}
-		}
-		catch(bad_cast& b)
-		{
-			cerr << "bad cast caught here!" << endl;
-		}
-		catch(...)
-		{
-			cerr << "something weird here" << endl;
+			erepo->Add(&(cf->GetComponent()));
+			lattice->push_back(cf);
 		}
 	}
 
-- 
2.43.0


From bcf14619cf231f6aba2a9147516fd29d18789aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 38/54] fix: particles and 2D transformations are written with
 separated columns, loss table header names its columns

---
 Merlin++/DetailedCollimationOutput.cpp | 2 +-
 Merlin++/PSvector.cpp                  | 2 +-
 Merlin++/Transform2D.h                 | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f446ea2..f501118 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -41,7 +41,7 @@ void DetailedCollimationOutput::Dispose(AcceleratorComponent& currcomponent, dou
 
 void DetailedCollimationOutput::Output(std::ostream* os)
 {
-	(*os) << "#name s pos x xp y yp type id location turn" << std::endl;
+	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
 		(*os) << std::setw(16) << std::left << its->ElementName;
diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 3a19520..6da36c1 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -131,7 +131,7 @@ public:
 
 	friend ostream& operator <<(ostream& os, const Rotation2D& rot)
 	{
-		os << rot.cosa;
+		os << rot.cosa << ' ';
 		os << rot.sina;
 		return os;
 	}
@@ -313,8 +313,8 @@ public:
 
 	friend ostream& operator <<(ostream& os, const Transform2D& t)
 	{
-		os << t.x0.x;
-		os << t.x0.y;
+		os << t.x0.x << ' ';
+		os << t.x0.y << ' ';
 		os << t.r;
 		return os;
 	}
-- 
2.43.0


From 293ef3b11acfc8d255bcc88e228db2e8a420516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 39/54] fix: spin bunches are read back with their spins

---
 Merlin++/SpinParticleProcess.cpp | 36 ++++++++++++++++++++++++++++++++
 Merlin++/SpinParticleProcess.h   |  2 ++
 2 files changed, 38 insertions(+)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index ab9a80a..5819708 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -93,9 +93,18 @@ void SpinParticleBunch::SortByCT()
 }
 
 void SpinParticleBunch::Output(std::ostream& os) const
+{
+	Output(os, false);
+}
+
+void SpinParticleBunch::Output(std::ostream& os, bool show_header) const
 {
 	int oldp = os.precision(10);
 	ios_base::fmtflags oflg = os.setf(ios::scientific, ios::floatfield);
+	if(show_header)
+	{
+		os << "#T P0 X XP Y YP CT DP SX SY SZ" << std::endl;
+	}
 	vector<SpinVector>::const_iterator sp = spinArray.begin();
 	for(PSvectorArray::const_iterator p = begin(); p != end(); p++, sp++)
 	{
@@ -114,6 +123,33 @@ void SpinParticleBunch::Output(std::ostream& os) const
 	os.flags(oflg);
 }
 
+void SpinParticleBunch::Input(double Q, std::istream& is)
+{
+	double reftime, refmom;
+	string line;
+	while(getline(is, line))
+	{
+		if(line == "" || line[0] == '#')
+		{
+			continue;
+		}
+		istringstream liness(line);
+		PSvector p(0);
+		SpinVector spin(0, 0, 1);
+		liness >> reftime >> refmom;
+		for(size_t k = 0; k < 6; k++)
+		{
+			liness >> p[k];
+		}
+		liness >> spin.x() >> spin.y() >> spin.z();
+		AddParticle(p, spin);
+
+		SetReferenceTime(reftime);
+		SetReferenceMomentum(refmom);
+	}
+	SetMacroParticleCharge(Q / size());
+}
+
 SpinVector SpinParticleBunch::GetAverageSpin() const
 {
 	SpinVector pa(0, 0, 0);
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index cbb5e5f..a6838ad 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -44,6 +44,8 @@ public:
 	SpinVectorArray::iterator beginSpinArray();
 	SpinVectorArray::iterator endSpinArray();
 	virtual void Output(std::ostream& os) const;
+	virtual void Output(std::ostream& os, bool show_header) const;
+	virtual void Input(double Q, std::istream& is);
 	SpinVector GetAverageSpin() const;
 	virtual bool ApplyTransformation(const Transform3D& t);
 
-- 
2.43.0


From 85f7a80d2d41a4b0095ce9d815d7a208c85a08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 40/54] fix: every lost particle is handed to the loss outputs

---
 Merlin++/CollimateParticleProcess.cpp | 30 +++++++++++++++++++++++----
 Merlin++/CollimateParticleProcess.h   | 11 ++++++----
 Merlin++/CollimateProtonProcess.cpp   |  4 ++++
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 8124beb..52b3019 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -342,13 +342,13 @@ void CollimateParticleProcess::DoCollimation()
 //Only copy the output if we are not a collimator and there are lost particles
 	if(LostParticlePositions.size() != 0 && !is_collimator)
 	{
-		//make a new particle bunch to track the lost particles
-		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
-			currentBunch->GetTotalCharge() / currentBunch->size());
 		double length = currentComponent->GetLength();
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
 		{
+			//make a new particle bunch to track the lost particles
+			ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
+				currentBunch->GetTotalCharge() / currentBunch->size());
 			//Clear out the old lost particles, these will all be at the end of the element which we do not want for a magnet.
 			lost.clear();
 
@@ -447,6 +447,7 @@ void CollimateParticleProcess::DoCollimation()
 						(*p).ct() = length;
 					}
 					lost.push_back(*p);
+					RecordLoss(LostParticleTracker->GetIntegratedLength(), *p);
 				}
 			}
 
@@ -455,8 +456,15 @@ void CollimateParticleProcess::DoCollimation()
 			//and the "lost particle bunch"
 			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length no tracking is needed since all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(PSvectorArray::iterator p = lost.begin(); p != lost.end(); p++)
+			{
+				RecordLoss(0, *p);
+			}
+		}
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -478,6 +486,20 @@ void CollimateParticleProcess::DoCollimation()
 	}
 }
 
+CollimateParticleProcess::ScatterOutcome CollimateParticleProcess::DoScatter(Particle& p)
+{
+	RecordLoss(int_s, p);
+	return ScatterOutcome::absorbed;
+}
+
+void CollimateParticleProcess::RecordLoss(double pos, Particle& p)
+{
+	for(auto &OutIt : CollimationOutputVector)
+	{
+		OutIt->Dispose(*currentComponent, pos, p, ColParProTurn);
+	}
+}
+
 void CollimateParticleProcess::SetNextS()
 {
 
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 74bd592..7258248 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -160,6 +160,12 @@ public:
 
 protected:
 
+	/**
+	 * Tells every attached output of a lost particle
+	 * @param[in] pos The position within the current component
+	 */
+	void RecordLoss(double pos, Particle& p);
+
 	int cmode;
 	std::ostream* os;
 	bool createLossFiles;
@@ -221,10 +227,7 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
-	{
-		return ScatterOutcome::absorbed;
-	}
+	virtual ScatterOutcome DoScatter(Particle& p);
 
 	/**
 	 * A list of particles we want to use in the input array
diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 2b4ab81..1303b27 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -139,6 +139,10 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			RecordLoss(z + zstep, p);
+
 			return ScatterOutcome::absorbed;
 		}
 
-- 
2.43.0


From 871c3ec6763c14b5b442daed6cceaf07c768c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 41/54] fix: a second collimation in the same element finds the
 inputs of the remaining particles

---
 Merlin++/CollimateParticleProcess.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 52b3019..17f745e 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -256,6 +256,9 @@ void CollimateParticleProcess::DoCollimation()
 		/ currentBunch->size());
 	NewBunch->reserve(currentBunch->size());
 
+	//The input of the particles that are still there, in the order of the bunch
+	PSvectorArray RemainingInput;
+
 	size_t particle_number = 0;
 
 	if(is_collimator)
@@ -319,6 +322,10 @@ void CollimateParticleProcess::DoCollimation()
 				(*p).x() += bin_size * (*p).xp();
 				(*p).y() += bin_size * (*p).yp();
 			}
+			else
+			{
+				RemainingInput.push_back(InputArray[particle_number]);
+			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
 			NewBunch->AddParticle(*p);
@@ -476,7 +483,7 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	InputArray.swap(RemainingInput); //The input array: the particles still there may be lost further along this component
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From 79f0f5910e9aa47e527289552df81c0943bee61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:20 +0000
Subject: [PATCH 42/54] fix: the first loss of a loss map counts once, and a
 second report does not count the first again

---
 Merlin++/LossMapCollimationOutput.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..afb8496 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -83,6 +83,9 @@ void LossMapCollimationOutput::Finalise()
 
 	std::cout << "CollimationOutput:: DeadParticles.size() = " << DeadParticles.size() << std::endl;
 
+	//A report made before does not count again
+	OutputLosses.clear();
+
 	int outit = 0;
 	int total = 0;
 
@@ -97,9 +100,8 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -120,9 +122,8 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From 19ba69ac15f64ead428a3898b3fcdea086020588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:20 +0000
Subject: [PATCH 43/54] fix: comparing and adding loss records uses the data of
 both

---
 Merlin++/CollimationOutput.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimationOutput.h b/Merlin++/CollimationOutput.h
index 60e73e5..bda3da4 100644
--- a/Merlin++/CollimationOutput.h
+++ b/Merlin++/CollimationOutput.h
@@ -100,6 +100,8 @@ struct LossData
 			temp.position = position;
 			temp.length = length;
 			temp.temperature = temperature;
+			temp.turn = turn;
+			temp.angle = angle;
 			temp.lost = lost + other.lost;
 
 			return temp;
@@ -125,12 +127,12 @@ struct LossData
 // Comparison function used to sort losses in order of s position
 inline bool Compare_LossData(const LossData &a, const LossData &b)
 {
-	return (a.s + a.position + a.interval) < (b.s + b.position + a.interval);
+	return (a.s + a.position + a.interval) < (b.s + b.position + b.interval);
 }
 
 inline bool Merge_LossData(const LossData &a, const LossData &b)
 {
-	if((a.s + a.position + a.interval) == (b.s + b.position + a.interval))
+	if((a.s + a.position + a.interval) == (b.s + b.position + b.interval))
 	{
 		return true;
 	}
-- 
2.43.0


From 274645fbbc20ddcee2648223d7b93a832f7fed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:35 +0000
Subject: [PATCH 44/54] fix: a hollow electron lens with an invalid operation
 mode is refused

---
 Merlin++/HollowElectronLens.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/HollowElectronLens.cpp b/Merlin++/HollowElectronLens.cpp
index e426263..2fee29e 100644
--- a/Merlin++/HollowElectronLens.cpp
+++ b/Merlin++/HollowElectronLens.cpp
@@ -7,6 +7,7 @@
 
 #include "HollowElectronLens.h"
 #include "ComponentTracker.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -40,6 +41,7 @@ HollowElectronLens::HollowElectronLens(const string& id, double len, int mode, d
 			<<
 			"\tHEL operation mode invalid. Please choose between: \n\t int 0 = DC \n\t int 1 = AC \n\t int 2 = Diffusive \n\t int 3 = Turnskip"
 			<< endl;
+		throw MerlinException("HollowElectronLens: invalid operation mode");
 	}
 }
 
-- 
2.43.0


From 4455daf4175361d3aa82dcfc72b56f3497e49d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:19 +0000
Subject: [PATCH 45/54] fix: XTFFInterface::AppendModel leaves no dangling
 stream behind when the file cannot be opened

---
 Merlin++/XTFFInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 965c22f..ee0987e 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -633,6 +633,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	{
 		string msg = "cannot open file " + fname;
 		delete ifs;
+		ifs = nullptr;
 		throw runtime_error(msg);
 	}
 
-- 
2.43.0


From 3e730bb9049748cb05ffa260bd9d7b6a9680a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 46/54] fix: a bunch file with a line that cannot be read is
 refused instead of repeating the previous particle

---
 Merlin++/ParticleBunch.cpp       | 18 ++++++++++++++++--
 Merlin++/SpinParticleProcess.cpp |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 74c0c34..17be337 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include "MerlinException.h"
 #include <algorithm>
 #include <iostream>
 #include "Transform3D.h"
@@ -366,7 +367,6 @@ void ParticleBunch::OutputIndexParticle(std::ostream& os, int index) const
 void ParticleBunch::Input(double Q, std::istream& is)
 {
 	double reftime, refmom;
-	PSvector p;
 	string line;
 	while(getline(is, line))
 	{
@@ -375,7 +375,21 @@ void ParticleBunch::Input(double Q, std::istream& is)
 			continue;
 		}
 		istringstream liness(line);
-		liness >> reftime >> refmom >> p;
+		PSvector p(0);
+		liness >> reftime >> refmom;
+		for(size_t k = 0; k < 6; k++)
+		{
+			liness >> p[k];
+		}
+		if(!liness)
+		{
+			throw MerlinException("ParticleBunch::Input: cannot read a particle from line: " + line);
+		}
+		int64_t id;
+		if(liness >> id)
+		{
+			p.id() = id;
+		}
 		push_back(p);
 
 		SetReferenceTime(reftime);
diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 5819708..549d757 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -11,6 +11,7 @@
 #include "Space3D.h"
 #include "PhysicalConstants.h"
 #include "utils.h"
+#include "MerlinException.h"
 
 using namespace std;
 using namespace PhysicalConstants;
@@ -142,6 +143,10 @@ void SpinParticleBunch::Input(double Q, std::istream& is)
 			liness >> p[k];
 		}
 		liness >> spin.x() >> spin.y() >> spin.z();
+		if(!liness)
+		{
+			throw MerlinException("SpinParticleBunch::Input: cannot read a particle from line: " + line);
+		}
 		AddParticle(p, spin);
 
 		SetReferenceTime(reftime);
-- 
2.43.0


From 879db673b42abcfc4a6f05773804662a17d6c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 47/54] fix: CollimatorDatabase refuses an entry whose numbers
 cannot be read

---
 Merlin++/CollimatorDatabase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 0ccd314..487f8f3 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -89,6 +89,12 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 		{
 			(*input) >> CollData[i].name >> CollData[i].sigma_x >> CollData[i].sigma_y >> CollData[i].tilt >> buf;
 		}
+		if(!(*input))
+		{
+			delete input;
+			delete[] CollData;
+			throw MerlinException("CollimatorDatabase: cannot read collimator " + std::to_string(i + 1) + " of " + input_file);
+		}
 		//buf contains the material name, must search the material database and check that the appropriate material exists, then adjust the material pointer.
 //		CollData[i].JawMaterial = db->FindMaterial(buf);
 		CollData[i].JawMaterial = db->property[buf];
-- 
2.43.0


From f891f3823539d8584a26aa125bcc5522b0894928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 48/54] fix: XTFFInterface refuses a file whose initial beam
 conditions cannot be read

---
 Merlin++/XTFFInterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index ee0987e..4b9249d 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -738,6 +738,11 @@ int XTFFInterface::ParseHeader(BeamData* bdat)
 	(*ifs) >> bdat->y0;
 	(*ifs) >> bdat->yp0;
 
+	if(!(*ifs))
+	{
+		throw MerlinException("XTFFInterface: cannot read the initial beam conditions");
+	}
+
 	// remove remainder of this line (suml)
 	getline((*ifs), ipline);
 
-- 
2.43.0


From e0cdb43c0c0f115e98154644445988a7db74665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:36 +0000
Subject: [PATCH 49/54] fix: ATL2D refuses eigenvector and eigenvalue files
 that end early or hold no numbers

---
 Merlin++/ATL2D.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..b581609 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -12,6 +12,7 @@
 
 #include "RandomNG.h"
 #include "ATL2D.h"
+#include "MerlinException.h"
 
 #undef ATL_XY
 
@@ -105,13 +106,19 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 		for(row = 0; row < n; row++)
 			for(col = row; col < n; col++)
 			{
-				(*evecTFile) >> element;
+				if(!((*evecTFile) >> element))
+				{
+					throw MerlinException("ATL2D: cannot read the eigenvectors");
+				}
 				evecsT(row, col) = evecsT(col, row) = element;
 			}
 
 		for(row = 0; row < n; row++)
 		{
-			(*evalFile) >> evals(row);
+			if(!((*evalFile) >> evals(row)))
+			{
+				throw MerlinException("ATL2D: cannot read the eigenvalues");
+			}
 		}
 	}
 	else
-- 
2.43.0


From e71e70c1e1b6670cda65941ed2b83355da62c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 50/54] fix: collimatortable refuses a file that ends early or
 holds no number where one belongs

---
 Merlin++/CollimatorTable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/CollimatorTable.h b/Merlin++/CollimatorTable.h
index eb834c1..b619fbb 100644
--- a/Merlin++/CollimatorTable.h
+++ b/Merlin++/CollimatorTable.h
@@ -71,6 +71,8 @@ public:
 			std::cout << "Cannot open file " << file << std::endl;
 			throw MerlinException(std::string("collimatortable: cannot open file ") + file);
 		}
+		// a file that ends early or holds no number where one belongs is an error
+		f.exceptions(std::ifstream::failbit | std::ifstream::badbit);
 
 		int n1, n2, n3;
 		f >> n3 >> lo3 >> hi3;
-- 
2.43.0


From b0e881b5aa1e648d404785b986bae64aac4d1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 51/54] fix: a 2D rotation by 180 degrees is not the identity

---
 Merlin++/Transform2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 6da36c1..f244c56 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -76,7 +76,7 @@ public:
 	 */
 	bool isIdentity() const
 	{
-		return fequal(sina, 0.0);
+		return fequal(sina, 0.0) && cosa > 0;
 	}
 
 	/**
-- 
2.43.0


From f0e1c63680043b93ce08e46aa6af1cee273bcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 52/54] fix: the geometry of a sequence goes backwards within
 one frame, too

---
 Merlin++/SequenceFrame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 84c43b9..d262d89 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -303,7 +303,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	Extent ext = (*fi)->GetLocalGeometryExtent();
 	if(fequal(s, l) || s < l)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		Transform3D t1 = (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		return inv_t ? t1.inv() : t1;
 	}
 
 	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
-- 
2.43.0


From 3a2bd3dc97382153105e2e3fa3353412f9213bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 53/54] fix: the centre of a sequence inside a frame is
 measured from the right end of that frame

---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index d262d89..7e956d8 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -430,7 +430,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From 92d652c515488755f910b0b2c0626fb2799f9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:50 +0000
Subject: [PATCH 54/54] fix: sequences with their origin at the entrance or
 exit know their total transform

---
 Merlin++/SequenceFrame.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 7e956d8..b83ee70 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -383,15 +383,16 @@ double SequenceGeometry::GetGeometryLength() const
 void SequenceGeometry::CalculateCachedTransforms()
 {
 	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	// (the total is put together from the frames, not taken from an earlier cache)
+	delete t_cache;
+	t_cache = nullptr;
+	const Transform3D t_total = GetTotalGeometryTransform();
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = t_total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -399,7 +400,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = t_total.inv();
 		break;
 	}
 
-- 
2.43.0

