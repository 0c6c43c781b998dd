// All settings of a solver configuration by name: reading and assigning.
#pragma once
#include "trace.h"
#include "natrium/solver/SolverConfiguration.h"
#include <functional>
#include <memory>
using namespace natrium;
using namespace vt;
typedef SolverConfiguration C;
struct Item { std::string name; std::function<std::string(C&)> get; std::function<void(C&, const std::string&)> set; };
static std::vector<Item> items;

static double D(const std::string& s) { return std::stod(s); }
static long I(const std::string& s) { return std::stol(s); }
static bool B(const std::string& s) { return s == "true"; }
static std::string b(bool x) { return x ? "true" : "false"; }
template<class E> struct Names { std::vector<std::pair<std::string, E> > v;
	E of(const std::string& s) const { for (auto& p : v) if (p.first == s) return p.second; return (E) std::stoi(s); }
	std::string to(E e) const { for (auto& p : v) if (p.second == e) return p.first; return "?"; } };
#define REAL(N, G, S) items.push_back({N, [](C& c) { return num(c.G()); }, [](C& c, const std::string& v) { c.S(D(v)); }});
#define INTG(N, G, S) items.push_back({N, [](C& c) { return std::to_string(c.G()); }, [](C& c, const std::string& v) { c.S(I(v)); }});
#define BOOL(N, G, S) items.push_back({N, [](C& c) { return b(c.G()); }, [](C& c, const std::string& v) { c.S(B(v)); }});
#define ENUM(N, T, G, S, ...) { static Names<T> t{{__VA_ARGS__}}; items.push_back({N, [](C& c) { return t.to(c.G()); }, [](C& c, const std::string& v) { c.S(t.of(v)); }}); }
#define V(X) {#X, X}
static void fill() {
	REAL("CFL", getCFL, setCFL) REAL("Prandtl", getPrandtlNumber, setPrandtlNumber) REAL("ReferenceTemperature", getReferenceTemperature, setReferenceTemperature)
	REAL("Gamma", getHeatCapacityRatioGamma, setHeatCapacityRatioGamma) REAL("StencilScaling", getStencilScaling, setStencilScaling)
	items.push_back({"PrandtlSet", [](C& c) { return b(c.isPrandtlNumberSet()); }, nullptr});
	items.push_back({"Sutherland", [](C& c) { return b(c.isSutherlandLawSet()); }, [](C& c, const std::string&) { c.setSutherlandLaw(); }});
	BOOL("Analytic", hasAnalyticSolution, setHasAnalyticSolution)
#define S(X) {#X, Stencil_##X}
	ENUM("Stencil", StencilType, getStencil, setStencil, S(D2Q9), S(D2Q19H), S(D2Q19V), S(D2Q25H), S(D2Q777), S(D3Q13), S(D3Q15), S(D3Q19), S(D3Q21), S(D3Q27), S(RD3Q27), S(D3V27), S(D3Q45), S(D3Q77))
	ENUM("Advection", AdvectionSchemeName, getAdvectionScheme, setAdvectionScheme, V(SEDG), V(SEMI_LAGRANGIAN))
	ENUM("SupportPoints", SupportPointsName, getSupportPoints, setSupportPoints, V(GAUSS_LOBATTO_POINTS), V(GAUSS_CHEBYSHEV_POINTS), V(GAUSS_LOBATTO_CHEBYSHEV_POINTS), V(EQUIDISTANT_POINTS))
	ENUM("Quadrature", QuadratureName, getQuadrature, setQuadrature, V(QGAUSS_LOBATTO), V(QGAUSS))
	ENUM("TimeIntegrator", TimeIntegratorName, getTimeIntegrator, setTimeIntegrator, V(RUNGE_KUTTA_5STAGE), V(THETA_METHOD), V(EXPONENTIAL), V(OTHER))
	INTG("Order", getSedgOrderOfFiniteElement, setSedgOrderOfFiniteElement)
	ENUM("Flux", FluxTypeName, getSedgFluxType, setSedgFluxType, V(LAX_FRIEDRICHS), V(CENTRAL))
	REAL("Theta", getThetaMethodTheta, setThetaMethodTheta)
	ENUM("DealIntegrator", DealIntegratorName, getDealIntegrator, setDealIntegrator, V(FORWARD_EULER), V(RK_THIRD_ORDER), V(RK_CLASSIC_FOURTH_ORDER), V(BACKWARD_EULER), V(IMPLICIT_MIDPOINT), V(CRANK_NICOLSON), V(SDIRK_TWO_STAGES), V(HEUN_EULER), V(BOGACKI_SHAMPINE), V(DOPRI), V(FEHLBERG), V(CASH_KARP), V(NONE))
	ENUM("DealSolver", DealSolverName, getDealLinearSolver, setDealLinearSolver, V(BICGSTAB), V(CG), V(FGMRES), V(GMRES), V(MINRES), V(QMRS), V(RELAXATION), V(RICHARDSON))
#define EMB(N, G) items.push_back({N, [](C& c) { return num(c.getEmbeddedDealIntegrator##G()); }, nullptr});
	EMB("EmbCoarsen", CoarsenParameter) EMB("EmbRefine", RefinementParameter) EMB("EmbMinCFL", MinimumCFL) EMB("EmbMaxCFL", MaximumCFL) EMB("EmbRefineTol", RefinementTolerance) EMB("EmbCoarsenTol", CoarsenTolerance)
	ENUM("Collision", CollisionSchemeName, getCollisionScheme, setCollisionScheme, V(BGK_STANDARD), V(BGK_STANDARD_TRANSFORMED), V(BGK_STEADY_STATE), V(BGK_MULTIPHASE), V(BGK_INCOMPRESSIBLE), V(MRT_STANDARD), V(MRT_ENTROPIC), V(ENTROPIC_STABILIZED), V(KBC_STANDARD), V(KBC_CENTRAL), V(BGK_MULTI_AM4), V(BGK_MULTI_BDF2), V(BGK_REGULARIZED))
	ENUM("MRTBasis", MomentBasis, getMRTBasis, setMRTBasis, V(DELLAR_D2Q9), V(LALLEMAND_D2Q9), V(DHUMIERES_D3Q19))
	ENUM("MRTRelaxation", RelaxMode, getMRTRelaxationTimes, setMRTRelaxationTimes, V(RELAX_FULL), V(DELLAR_RELAX_ONLY_N), V(RELAX_DHUMIERES_PAPER))
	ENUM("Equilibrium", EquilibriumSchemeName, getEquilibriumScheme, setEquilibriumScheme, V(BGK_EQUILIBRIUM), V(QUARTIC_EQUILIBRIUM), V(INCOMPRESSIBLE_EQUILIBRIUM), V(STEADYSTATE_EQUILIBRIUM), V(ENTROPIC_EQUILIBRIUM))
	REAL("SteadyGamma", getBGKSteadyStateGamma, setBGKSteadyStateGamma)
	ENUM("Pseudopotential", PseudopotentialType, getPseudopotentialType, setPseudopotentialType, V(SHAN_CHEN), V(SUKOP), V(CARNAHAN_STARLING))
	REAL("PseudoG", getBGKPseudopotentialG, setBGKPseudopotentialG) REAL("PseudoT", getBGKPseudopotentialT, setBGKPseudopotentialT)
	ENUM("Forcing", ForceType, getForcingScheme, setForcingScheme, V(NO_FORCING), V(SHIFTING_VELOCITY), V(EXACT_DIFFERENCE), V(GUO))
	ENUM("Regularization", RegularizationSchemeName, getRegularizationScheme, setRegularizationScheme, V(NO_REGULARIZATION), V(PSEUDO_ENTROPY_MAXIMIZATION), V(ZERO_HIGH_ORDER_MOMENTS), V(ENTROPY_MAXIMIZATION), V(PSEUDO_ENTROPY_MAXIMIZATION_WITH_E))
	BOOL("VmultLimiter", isVmultLimiter, setVmultLimiter) BOOL("Filtering", isFiltering, setFiltering)
	ENUM("FilterScheme", FilteringSchemeName, getFilteringScheme, setFilteringScheme, V(EXPONENTIAL_FILTER), V(NEW_FILTER))
	INTG("FilterInterval", getFilterInterval, setFilterInterval) REAL("FilterAlpha", getExponentialFilterAlpha, setExponentialFilterAlpha) REAL("FilterS", getExponentialFilterS, setExponentialFilterS)
	items.push_back({"FilterNc", [](C& c) { return std::to_string(c.getExponentialFilterNc()); }, [](C& c, const std::string& v) { c.setExponentialFilterNc(D(v)); }});
	BOOL("FilterSums", isFilterDegreeByComponentSums, setFilterDegreeByComponentSums)
	INTG("Restart", getRestartAtIteration, setRestartAtIteration)
	ENUM("Initialization", InitializationSchemeName, getInitializationScheme, setInitializationScheme, V(EQUILIBRIUM), V(ITERATIVE), V(COMPRESSIBLE_ITERATIVE), V(GRADIENTS))
	REAL("InitResidual", getIterativeInitializationResidual, setIterativeInitializationResidual) INTG("InitIterations", getIterativeInitializationNumberOfIterations, setIterativeInitializationNumberOfIterations)
	INTG("Steps", getNumberOfTimeSteps, setNumberOfTimeSteps) REAL("EndTime", getSimulationEndTime, setSimulationEndTime) REAL("Threshold", getConvergenceThreshold, setConvergenceThreshold)
	BOOL("OutputOff", isSwitchOutputOff, setSwitchOutputOff) BOOL("UserInteraction", isUserInteraction, setUserInteraction)
	items.push_back({"OutputDir", [](C& c) { return std::string(c.getOutputDirectory()); }, [](C& c, const std::string& v) { c.setOutputDirectory(v); }});
	INTG("CheckpointInterval", getOutputCheckpointInterval, setOutputCheckpointInterval) INTG("TableInterval", getOutputTableInterval, setOutputTableInterval) INTG("SolutionInterval", getOutputSolutionInterval, setOutputSolutionInterval)
	INTG("Verbosity", getCommandLineVerbosity, setCommandLineVerbosity) BOOL("LogFile", isWriteALogFile, setWriteALogFile)
	BOOL("TurbGlobal", isOutputGlobalTurbulenceStatistics, setOutputGlobalTurbulenceStatistics) BOOL("TurbCompressible", isOutputCompressibleTurbulenceStatistics, setOutputCompressibleTurbulenceStatistics) BOOL("Turb", isOutputTurbulenceStatistics, setOutputTurbulenceStatistics)
	INTG("WallDirection", getWallNormalDirection, setWallNormalDirection)
	items.push_back({"WallCoordinates", [](C& c) { std::string r; for (double x : c.getWallNormalCoordinates()) r += (r.empty() ? "" : " ") + num(x); return r; },
		[](C& c, const std::string& v) { std::istringstream is(v); std::vector<double> x; double d; while (is >> d) x.push_back(d); c.setWallNormalCoordinates(x); }});
}
static std::string all(C& c) {
	std::string r = "{"; bool first = true;
	for (auto& i : items) {
		std::string v;
		try { v = i.get(c); } catch (std::exception& e) { v = "!error"; }
		if (!first) r += ","; first = false;
		if (i.name == "WallCoordinates" && v != "!error") {
			std::istringstream is(v); std::vector<std::string> w; std::string t; while (is >> t) w.push_back(t);
			r += "\"" + i.name + "\":" + Ev::arr(w);
		} else r += "\"" + i.name + "\":\"" + esc(v) + "\"";
	}
	return r + "}";
}
