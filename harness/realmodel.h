// The real model, set up exactly the way the programs do (TempestInitialize.h), with one parametrised test case.
#ifndef REALMODEL_H
#define REALMODEL_H
#include "vp.h"
#include "world.h"
#include "Tempest.h"
#include "WorkflowProcess.h"
#include <map>
typedef std::map<std::string, std::string> KV;
struct Case {
	KV v;
	bool has(const char * k) const { return v.count(k) != 0; }
	std::string s(const char * k, const char * d = "") const { KV::const_iterator i = v.find(k); return i == v.end() ? d : i->second; }
	double d(const char * k, double x) const { return has(k) ? atof(s(k).c_str()) : x; }
	int i(const char * k, int x) const { return has(k) ? atoi(s(k).c_str()) : x; }
	bool cube() const { return s("geom", "cs") == "cs"; }
	bool sw() const { return s("eq", "sw") == "sw"; }
	double planet() const { return d("planet", sw() ? 1.0 : 120.0); }
	int tracers() const { return i("tracers", 0); }
};
class RealTest : public TestCase {
public:
	Case c;
	RealTest(const Case & k) : c(k) {}
	double ztop() const { return 10000.0; }
	virtual double GetZtop() const { return c.sw() ? 1.0 : ztop(); }
	virtual EquationSet::Type GetEquationSetType() const { return c.sw() ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations; }
	virtual void EvaluatePhysicalConstants(PhysicalConstants & phys) const {
		if (c.cube() && c.planet() != 1.0) { phys.SetEarthRadius(phys.GetEarthRadius() / c.planet()); }
		if (c.has("omega")) phys.SetOmega(c.d("omega", 0.0));
		if (c.has("alpha")) phys.SetAlpha(c.d("alpha", 0.0));
	}
	// horizontal position as smooth periodic coordinates
	void pos(double lon, double lat, double & x, double & y, double & z) const {
		if (c.cube()) { x = cos(lat) * cos(lon); y = cos(lat) * sin(lon); z = sin(lat); }
		else { double a = 2.0 * M_PI * lon / 300000.0, b = 2.0 * M_PI * lat / 100000.0; x = cos(a); y = sin(a) + 0.3 * cos(b); z = sin(b); }
	}
	virtual double EvaluateTopography(const PhysicalConstants & phys, double lon, double lat) const {
		if (!c.i("topo", 1)) return 0.0;
		double x, y, z; pos(lon, lat, x, y, z);
		return (c.sw() ? 600.0 : 150.0) * (1.0 + 0.5 * x * y + 0.4 * z);
	}
	virtual void GetUniformDiffusionCoeffs(double & a, double & b) const { a = c.d("diffs", 0.0); b = c.d("diffv", 0.0); }
	virtual bool HasRayleighFriction() const { return !c.sw() && c.i("rayleigh", 0); }
	virtual double EvaluateRayleighStrength(double dZ, double lon, double lat) const { double q = (dZ - 0.6 * ztop()) / (0.4 * ztop()); return q > 0.0 ? 0.01 * q * q : 0.0; }
	virtual bool HasReferenceState() const { return !c.sw() && c.i("refstate", 1); }
	void background(const PhysicalConstants & phys, double dZ, double * s) const {
		double g = phys.GetG(), T0 = 300.0, N = 0.01, th = T0 * exp(N * N / g * dZ);
		double ex = g * g / (phys.GetCp() * T0 * N * N) * (exp(-N * N / g * dZ) - 1.0) + 1.0;
		s[0] = 10.0; s[1] = 0.0; s[2] = th; s[3] = 0.0; s[4] = phys.GetP0() / (phys.GetR() * th) * pow(ex, phys.GetCv() / phys.GetR());
		if (c.cube()) s[0] = 0.0;
	}
	virtual void EvaluateReferenceState(const PhysicalConstants & phys, double dZ, double lon, double lat, double * s) const { background(phys, dZ, s); }
	virtual void EvaluatePointwiseState(const PhysicalConstants & phys, const Time & time, double dZ, double lon, double lat, double * s, double * t) const {
		double x, y, z; pos(lon, lat, x, y, z);
		double cl = c.cube() ? cos(lat) : 1.0;
		if (c.sw()) {
			s[0] = cl * (20.0 + 4.0 * x * z); s[1] = cl * 3.0 * y; s[2] = 5500.0 + 80.0 * x * y - 100.0 * z * z + 30.0 * x;
		} else {
			background(phys, dZ, s);
			double q = sin(M_PI * dZ / ztop());
			s[0] = cl * (10.0 + 2.0 * x * z + 3.0 * q); s[1] = (c.cube() || !c.i("xz", 0)) ? cl * 2.0 * y : 0.0; s[2] += 0.8 * q * (x + y * z); s[4] *= 1.0 + 0.001 * y * q;
		}
		// profile of the tracers: smooth, or with steps across, upward, or both
		int blob = c.i("blob", 0); double f = 1.0, low = (blob & 4) ? 1.0e-8 : 0.05;
		if ((blob & 1) && x < 0.2) f *= low;
		if ((blob & 2) && !c.sw() && (dZ < 0.3 * ztop() || dZ > 0.6 * ztop())) f *= low;
		for (int n = 0; n < c.tracers(); n++) t[n] = f * (c.sw() ? 1.0 : s[4]) * (0.02 * (n + 1) + 0.005 * x * (n ? y : 1.0) + 0.003 * z);
	}
};
struct Built { Model * model; Grid * grid; RealTest * test; _TempestCommandLineVariables vars; };
static Time seconds(int n) { Time t(0, 0, 0, n, 0, Time::CalendarNoLeap, Time::TypeDelta); t.NormalizeTime(); return t; }
static Time stamp(int n) { Time t(1, 1, 1, 0, 0, Time::CalendarNoLeap, Time::TypeFixed); t += seconds(n); return t; }
// restart: file to start from, or empty
static Built build(const Case & c, int dt, int endsec, const std::string & restart = "", bool testcase = true) {
	Built b; _TempestCommandLineVariables & v = b.vars;
	double X = c.planet();
	v.fNoOutput = true; v.strOutputDir = "."; v.strOutputPrefix = "r"; v.strRestartFile = restart; v.fRestartPerturbation = false; v.nOutputsPerFile = -1;
	v.timeOutputDeltaT = seconds(1000000); v.timeOutputRestartDeltaT = Time(); v.timeDeltaT = seconds(dt); v.timeEndTime = stamp(endsec);
	v.nOutputResX = 8; v.nOutputResY = 4; v.nOutputResZ = 0;
	v.fOutputVorticity = v.fOutputDivergence = v.fOutputTemperature = v.fOutputSurfacePressure = v.fOutputRichardson = false;
	v.fNoReferenceState = !c.i("refstate", 1); v.fNoTracers = false; v.fNoHyperviscosity = !c.i("hv", 0); v.nHyperviscosityOrder = c.i("hv", 4) ? c.i("hv", 4) : 4;
	double nu = v.nHyperviscosityOrder == 4 ? 1.0e15 / pow(X, 4.0) : 1.0e6 / (X * X); if (!c.cube()) nu = v.nHyperviscosityOrder == 4 ? 1.0e8 : 1.0e3;
	v.dNuScalar = v.dNuDiv = v.dNuVort = nu; v.dInstepNuDiv = c.i("inud", 0) ? (c.cube() ? 1.0e5 / X : 500.0) : 0.0;
	v.fExplicitVertical = c.i("expl", 0) != 0; v.strVerticalStaggering = c.s("stag", c.sw() ? "LEV" : "LOR"); v.fForceMassFluxOnLevels = c.i("mfl", 0) != 0;
	v.strVerticalStretch = c.s("stretch", "uniform"); v.strVerticalDiscretization = c.s("vdisc", "FE"); v.nVerticalHyperdiffOrder = c.i("vhv", 0);
	v.strTimestepScheme = c.s("scheme", "strang"); v.strHorizontalDynamics = c.s("hm", "V1"); v.strVerticalDynamics = c.s("vm", "V1");
	v.nResolutionX = c.i("res", 2); v.nResolutionY = c.i("resb", 2); v.nLevels = c.sw() ? 1 : c.i("lev", 4); v.nHorizontalOrder = c.i("ord", 4); v.nVerticalOrder = c.i("vord", 1);
	EquationSet eqn(c.sw() ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	for (int n = 0; n < c.tracers(); n++) { std::string q = "Q" + std::to_string(n); eqn.InsertTracer(q, q); }
	UserDataMeta meta; for (int n = 0; n < c.i("user", 0); n++) meta.InsertDataItem2D("U" + std::to_string(n));
	b.model = new Model(eqn, meta);
	b.model->SetStartTime(stamp(0));
	double dim[6] = {0.0, 300000.0, 0.0, 100000.0, 0.0, 10000.0}; int bc[4] = {0, 0, 0, 0}, w = c.i("bc", 0); if (w & 1) bc[0] = bc[2] = 1; if (w & 2) bc[1] = bc[3] = 1;
	int patches = c.i("patches", 0);
	if (patches && restart == "") {      // as the programs do, with a number of patches of our own
		b.model->SetDeltaT(v.timeDeltaT); b.model->SetEndTime(v.timeEndTime);
		_TempestSetupMethodOfLines(*b.model, v);
		std::string g = v.strVerticalStaggering; for (size_t n = 0; n < g.size(); n++) g[n] = tolower(g[n]);
		Grid::VerticalStaggering e = g == "lev" ? Grid::VerticalStaggering_Levels : g == "int" ? Grid::VerticalStaggering_Interfaces : g == "lor" ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_CharneyPhillips;
		Grid::VerticalDiscretization q = v.strVerticalDiscretization == "FV" ? Grid::VerticalDiscretization_FiniteVolume : Grid::VerticalDiscretization_FiniteElement;
		if (c.cube()) { GridCSGLL * p = new GridCSGLL(*b.model); p->DefineParameters(); p->SetParameters(v.nLevels, patches, v.nResolutionX, 4, v.nHorizontalOrder, v.nVerticalOrder, q, e); p->InitializeDataLocal(); b.grid = p; }
		else { GridCartesianGLL * p = new GridCartesianGLL(*b.model); p->DefineParameters(); p->SetParameters(v.nLevels, patches, v.nResolutionX, v.nResolutionY, 4, v.nHorizontalOrder, v.nVerticalOrder, dim, c.d("reflat", 0.5), bc, c.i("xz", 0) != 0, q, e); p->InitializeDataLocal(); b.grid = p; }
		if (c.s("stretch") == "cubic") b.grid->SetVerticalStretchFunction(new VerticalStretchCubic);
		if (c.s("stretch") == "pwlinear") b.grid->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
		b.model->SetGrid(b.grid, patches);
	}
	else if (c.cube()) _TempestSetupCubedSphereModel(*b.model, v);
	else _TempestSetupCartesianModel(*b.model, dim, c.d("reflat", 0.5), bc, c.i("xz", 0) != 0, v);
	b.grid = b.model->GetGrid();
	if (restart == "") b.grid->SetReferenceLength(c.cube() ? 110000.0 / X : 110000.0);
	b.test = new RealTest(c);
	if (testcase) b.model->SetTestCase(b.test);
	return b;
}
static unsigned long long fnv(const void * p, size_t n, unsigned long long h = 1469598103934665603ull) { const unsigned char * q = (const unsigned char *) p; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; } return h; }
static int fold(unsigned long long h) { return (int) ((h ^ (h >> 31)) & 0x3fffffff); }
struct Arr { double * p; int K; };
static Arr stateArr(Grid * grid, GridPatch * p, int inst, int c) {
	Arr a; a.K = grid->GetRElements() + (grid->GetVarLocation(c) == DataLocation_REdge ? 1 : 0); a.p = &(p->GetDataState(inst, grid->GetVarLocation(c))(c, 0, 0, 0)); return a;
}
static Arr tracerArr(Grid * grid, GridPatch * p, int inst, int c) { Arr a; a.K = grid->GetRElements(); a.p = &(p->GetDataTracers(inst)(c, 0, 0, 0)); return a; }
template <class F> static void interior(const PatchBox & b, F f) {
	for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++)
		f((size_t) i * b.GetBTotalWidth() + j, b.GetAGlobalBegin() + i, b.GetBGlobalBegin() + j);
}
static std::string gatherText(const std::string & s) {   // concatenation on the first member, comma separated
	int np, rank; MPI_Comm_size(MPI_COMM_WORLD, &np); MPI_Comm_rank(MPI_COMM_WORLD, &rank);
	int n = s.size(); std::vector<int> ns(np), at(np);
	MPI_Gather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
	int tot = 0; if (rank == 0) for (int r = 0; r < np; r++) { at[r] = tot; tot += ns[r]; }
	std::string all(tot + 1, ' ');
	MPI_Gatherv((void *) s.data(), n, MPI_CHAR, &all[0], ns.data(), at.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
	std::string o; if (rank == 0) for (int r = 0; r < np; r++) if (ns[r]) { if (o.size()) o += ","; o += all.substr(at[r], ns[r]); }
	return o;
}
#endif
