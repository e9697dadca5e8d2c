// Runs the real time integrators on symbolic states: every node of the grid holds the coefficient of one
// basis vector (the initial state, or one evaluated tendency), so each copy of the state is a combination of them.
#include "mini.h"
#include <map>
#include "TempestInitialize.h"
using namespace vp;
typedef std::vector<double> VD;
static Model * model = NULL; static Grid * grid = NULL;
static double unit = 1.0;
struct El { std::string kind; VD arg; std::vector<VD> more; };
static std::vector<El> basis; static size_t reported = 0;
struct Car { int ty, c; DataLocation loc; double scale; };
static std::vector<Car> cars;
struct Pos { GridPatch * p; int i, j, k; };
static std::vector<Pos> pos; static Pos mirror;   // pos[2], mirror: the two copies of a shared node, kept apart until they are averaged
static double & at(const Car & r, int inst, const Pos & x) {
	if (r.ty == 0) return x.p->GetDataState(inst, r.loc)(r.c, x.i, x.j, x.k);
	return x.p->GetDataTracers(inst)(r.c, x.i, x.j, x.k);
}
static std::vector<VD> distinct(int inst) {
	std::vector<VD> r;
	for (size_t q = 0; q < cars.size(); q++) {
		VD v(pos.size());
		for (size_t b = 0; b < pos.size(); b++) v[b] = at(cars[q], inst, pos[b]) / cars[q].scale;
		bool seen = false;
		for (size_t m = 0; m < r.size() && !seen; m++) { double d = 0; for (size_t b = 0; b < v.size(); b++) if (!(fabs(v[b] - r[m][b]) <= d)) d = fabs(v[b] - r[m][b]); seen = d < 1e-9; }
		if (!seen) r.push_back(v);
	}
	return r;
}
static bool same(const VD & a, const VD & b) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) < 1e-10)) return false; return true; }
static void add(int inst, size_t b, double x) {
	if (b >= pos.size()) _EXCEPTIONT("too many tendencies");
	for (size_t q = 0; q < cars.size(); q++) { at(cars[q], inst, pos[b]) += x * cars[q].scale; if (b == 2) at(cars[q], inst, mirror) -= x * cars[q].scale; }
}
static void poison(int inst) {
	for (size_t q = 0; q < cars.size(); q++) for (size_t b = 0; b < pos.size(); b++) { at(cars[q], inst, pos[b]) = (b == 1) ? cars[q].scale : 0.0; at(cars[q], inst, mirror) = 0.0; }
}
static size_t tendency(const std::string & kind, const std::vector<VD> & args) {
	for (size_t e = 3; e < basis.size(); e++) if (basis[e].kind == kind && same(basis[e].arg, args[0]) && basis[e].more.size() + 1 == args.size()) {
		bool ok = true;
		for (size_t m = 1; m < args.size(); m++) ok = ok && same(basis[e].more[m - 1], args[m]);
		if (ok) return e;
	}
	El e; e.kind = kind; e.arg = args[0]; e.more.assign(args.begin() + 1, args.end());
	basis.push_back(e); return basis.size() - 1;
}
static void exStep(const std::string & kind, int in, int up, double dt) { size_t e = tendency(kind, distinct(in)); add(up, e, dt / unit); if (kind == "fh") add(up, 2, dt / unit); }
static void move(int from, int to) {
	for (size_t q = 0; q < cars.size(); q++) for (size_t b = 0; b < pos.size(); b++) { at(cars[q], to, pos[b]) = at(cars[q], from, pos[b]); at(cars[q], to, mirror) = at(cars[q], from, mirror); }
}
static void imStep(const std::string & kind, int in, int up, double dt) {
	std::vector<VD> a = distinct(in);
	size_t e = basis.size();
	for (size_t k = 3; k < basis.size(); k++) if (basis[k].kind == kind) {   // the same solve again
		std::vector<VD> r = a; for (size_t m = 0; m < r.size(); m++) r[m][k] += dt / unit;
		bool ok = same(basis[k].arg, r[0]) && basis[k].more.size() + 1 == r.size();
		for (size_t m = 1; ok && m < r.size(); m++) ok = same(basis[k].more[m - 1], r[m]);
		if (ok) e = k;
	}
	if (e >= pos.size()) _EXCEPTIONT("too many tendencies");
	if (in != up) move(in, up);
	if (e == basis.size()) { for (size_t m = 0; m < a.size(); m++) a[m][e] += dt / unit; El x; x.kind = kind; x.arg = a[0]; x.more.assign(a.begin() + 1, a.end()); basis.push_back(x); }
	add(up, e, dt / unit);
}
static void combine(const DataArray1D<int> & inst, const DataArray1D<double> & co, int up) {
	if (inst.GetRows() != co.GetRows()) _EXCEPTIONT("length mismatch");
	if (inst.GetRows() < 1) _EXCEPTIONT("nothing to combine");
	for (size_t s = 1; s < inst.GetRows(); s++) if (inst[s] == up) _EXCEPTIONT("updated copy must come first");
	for (size_t q = 0; q < cars.size(); q++) for (size_t b = 0; b < pos.size(); b++) {
		double x = 0; for (size_t s = 0; s < inst.GetRows(); s++) x += co[s] * at(cars[q], inst[s], pos[b]);
		at(cars[q], up, pos[b]) = x;
		if (b == 2) { x = 0; for (size_t s = 0; s < inst.GetRows(); s++) x += co[s] * at(cars[q], inst[s], mirror); at(cars[q], up, mirror) = x; }
	}
}
static void after(int in, int up, int work, double dt) {
	if (in == work || up == work) _EXCEPTIONT("working copy must be distinct");
	std::vector<VD> a = distinct(in);
	if (in != up) move(in, up);
	poison(work);
	size_t e = tendency("d", a); add(up, e, dt / unit);
}
class RecH : public StubH {
public:
	template <class... A> RecH(Model & m, A...) : StubH(m, 1) {}
	virtual void StepExplicit(int i, int u, const Time &, double dt) { exStep("fh", i, u, dt); }
	virtual void StepImplicit(int i, int u, const Time &, double dt) { imStep("gh", i, u, dt); }
	virtual void StepExplicitCombine(const DataArray1D<int> & n, const DataArray1D<double> & c, int i, int u, const Time &, double dt) {
		size_t e = tendency("fh", distinct(i)); combine(n, c, u); add(u, e, dt / unit); add(u, 2, dt / unit);
	}
	virtual void StepImplicitCombine(const DataArray1D<int> & n, const DataArray1D<double> & c, int i, int u, const Time &, double dt) { combine(n, c, u); imStep("gh", u, u, dt); }
	virtual void StepAfterSubCycle(int i, int u, int w, const Time &, double dt) { after(i, u, w, dt); }
	virtual void StepAfterSubCycleCombine(int u, int w, const Time &, double dt) { after(u, u, w, dt); }
};
class RecV : public VerticalDynamicsFEM {
public:
	template <class... A> RecV(Model & m, A...) : VerticalDynamicsFEM(m, 4, 1, 0, true, false, false) {}
	virtual void Initialize() {}
	virtual void StepExplicit(int i, int u, const Time &, double dt) { exStep("fv", i, u, dt); }
	virtual void StepImplicitTermsExplicitly(int i, int u, const Time &, double dt) { exStep("gv", i, u, dt); }
	virtual void StepImplicit(int i, int u, const Time &, double dt) { imStep("gv", i, u, dt); }
	virtual void FilterNegativeTracers(int) {}
};
// The table of names, with the dynamics replaced by the recording ones
#undef _TEMPESTINITIALIZE_H_
#define HorizontalDynamicsFEM RecH
#define HorizontalDynamicsFEMV2 RecH
#define SplitExplicitDynamics RecH
#define HighSpeedDynamics RecH
#define VerticalDynamicsFEM RecV
#define VerticalDynamicsFEMV2 RecV
#define VerticalDynamicsSchur RecV
#define VerticalDynamicsStub RecV
namespace rec {
#include "TempestInitialize.h"
}
#undef HorizontalDynamicsFEM
#undef HorizontalDynamicsFEMV2
#undef SplitExplicitDynamics
#undef HighSpeedDynamics
#undef VerticalDynamicsFEM
#undef VerticalDynamicsFEMV2
#undef VerticalDynamicsSchur
#undef VerticalDynamicsStub

static std::string sparse(const VD & v) {
	std::string s = "["; bool first = true;
	for (size_t b = 0; b < v.size(); b++) {
		double x = v[b] * 1e7;
		if (!(fabs(x) < 1.0e9)) x = 1.0e9 + 1;
		long long r = llround(x); if (r == 0) continue;
		if (!first) s += ","; first = false;
		s += "[" + std::to_string(b) + "," + std::to_string(r) + "]";
	}
	return s + "]";
}
static std::string list(const std::vector<VD> & v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) { if (k) s += ","; s += sparse(v[k]); } return s + "]"; }
static void prepare() {
	pos.clear(); cars.clear(); basis.clear(); reported = 3;
	basis.resize(3); basis[2].kind = "unaveraged"; basis[0].kind = "u"; basis[1].kind = "stale";
	for (int n = 0; n < grid->GetActivePatchCount(); n++) {
		GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		for (int k = 0; k < grid->GetRElements(); k++)
		for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
			int a = (i - b.GetAInteriorBegin()) % 4, c = (j - b.GetBInteriorBegin()) % 4;
			if ((a == 1 || a == 2) && (c == 1 || c == 2)) { Pos x; x.p = p; x.i = i; x.j = j; x.k = k; pos.push_back(x); }
		}
	}
	GridPatch * p0 = grid->GetActivePatch(0); int a0 = p0->GetPatchBox().GetAInteriorBegin(), b0 = p0->GetPatchBox().GetBInteriorBegin();
	Pos sh = { p0, a0 + 3, b0 + 1, 0 }; pos.insert(pos.begin() + 2, sh); mirror = sh; mirror.i++;
	const EquationSet & eqn = model->GetEquationSet();
	for (int c = 0; c < (int) eqn.GetComponents(); c++) { Car r; r.ty = 0; r.c = c; r.loc = grid->GetVarLocation(c); r.scale = 1 << c; cars.push_back(r); }
	for (int c = 0; c < (int) eqn.GetTracers(); c++) { Car r; r.ty = 1; r.c = c; r.loc = DataLocation_Node; r.scale = 3 << c; cars.push_back(r); }
	int ni = model->GetTimestepScheme()->GetComponentDataInstances();
	for (int m = 0; m < ni; m++) poison(m);
	for (size_t q = 0; q < cars.size(); q++) for (size_t b = 0; b < pos.size(); b++) { at(cars[q], 0, pos[b]) = (b == 0) ? cars[q].scale : 0.0; at(cars[q], 0, mirror) = 0.0; }
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	quiet();
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	bool restless = false;
	for (size_t n = 0; n < in.size(); n++) {
		std::vector<std::string> w = words(in[n]);
		if (w.size() == 0) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); continue; }
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "scheme") {          // name offcentring(percent, -1: by name) unit tracers sphere
			delete model; model = NULL; bool exc = false; std::string why;
			std::string name = w[1]; int oc = atoi(w[2].c_str()); unit = atof(w[3].c_str()); int nTr = atoi(w[4].c_str());
			Ev("scheme").str("name", name).i("oc", oc < 0 ? 0 : oc).emit();
			try {
				EquationSet eqn(EquationSet::PrimitiveNonhydrostaticEquations);
				for (int t = 0; t < nTr; t++) eqn.InsertTracer("Q" + std::to_string(t), "q" + std::to_string(t));
				model = new Model(eqn);
				if (oc < 0) {
					rec::_TempestCommandLineVariables v;
					v.strTimestepScheme = name; v.strHorizontalDynamics = "v1"; v.strVerticalDynamics = "v1";
					v.fNoHyperviscosity = false; v.nHyperviscosityOrder = 4; v.dNuScalar = v.dNuDiv = v.dNuVort = 1.0; v.dInstepNuDiv = 0.0;
					v.nHorizontalOrder = 4; v.nVerticalOrder = 1; v.nVerticalHyperdiffOrder = 0; v.fExplicitVertical = true; v.fNoReferenceState = true; v.fForceMassFluxOnLevels = false;
					rec::_TempestSetupMethodOfLines(*model, v);
				} else {
					TimestepSchemeStrang::ExplicitDiscretization d = TimestepSchemeStrang::KinnmarkGrayUllrich35;
					if (name == "strang/fe") d = TimestepSchemeStrang::ForwardEuler;
					if (name == "strang/rk4") d = TimestepSchemeStrang::RungeKutta4;
					if (name == "strang/rk3") d = TimestepSchemeStrang::RungeKuttaSSP3;
					if (name == "strang/ssprk53") d = TimestepSchemeStrang::RungeKuttaSSPRK53;
					model->SetTimestepScheme(new TimestepSchemeStrang(*model, oc / 100.0, d));
					model->SetHorizontalDynamics(new RecH(*model)); model->SetVerticalDynamics(new RecV(*model));
				}
				GridSpec g; g.cube = false; g.nPatch = 1; g.resA = 8; g.resB = 8; g.nLev = 1; g.stag = Grid::VerticalStaggering_Lorenz;
				grid = makeGrid(*model, g);
				model->GetTimestepScheme()->Initialize();
				prepare();
			} catch (Exception & x) { exc = true; why = x.ToString(); }
			restless = exc;
			if (exc) Ev("failed").str("why", why).emit();
			continue;
		}
		if (w[0] == "mark") { Ev("mark").raw("c", in[n].substr(5)).emit(); continue; }
		if (restless) continue;
		if (w[0] == "force") {           // something outside changes the state between steps
			El e; e.kind = "x"; e.arg.assign(pos.size(), 0.0); basis.push_back(e); reported = basis.size();
			bool exc = false; try { add(0, basis.size() - 1, 1.0); } catch (Exception & x) { exc = true; }
			Ev("force").i("e", basis.size() - 1).b("exc", exc).emit(); continue;
		}
		if (w[0] == "step") {            // multiple first last
			bool f = w[2] == "1", l = w[3] == "1", exc = false; std::string why;
			try { model->GetTimestepScheme()->Step(f, l, Time(2000, 1, 1, 0, 0), atof(w[1].c_str()) * unit); } catch (Exception & x) { exc = true; why = x.ToString(); }
			std::string nb = "[";
			for (size_t e = reported; e < basis.size(); e++) {
				if (nb.size() > 1) nb += ",";
				std::vector<VD> a(1, basis[e].arg); a.insert(a.end(), basis[e].more.begin(), basis[e].more.end());
				nb += "{\"e\":" + std::to_string(e) + ",\"kind\":\"" + basis[e].kind + "\",\"args\":" + list(a) + "}";
			}
			reported = basis.size();
			Ev("step").i("m", atoi(w[1].c_str())).b("first", f).b("last", l).b("exc", exc).str("why", why).raw("tend", nb + "]").raw("out", list(distinct(0))).emit();
			continue;
		}
	}
	delete model;
	fclose(out);
	MPI_Finalize();
	return 0;
}
