// Whole runs of the real model: restart files (write, damage, read, continue), decompositions, conserved sums.
#include "realmodel.h"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
using namespace vp;
static int rank = 0, np = 1, opno = 0; static Case cs;
struct Restart { std::string file; int at; }; static std::vector<Restart> files; // restart files of the scenario
static std::vector<double> scale; static int period = 1;
static GridGLL * gll(Grid * g) { return dynamic_cast<GridGLL *>(g); }
static std::string dir(int n) { return "d" + std::to_string(scn) + "_" + std::to_string(n); }
static std::string js(const std::vector<int> & v) { std::string q = "["; for (size_t n = 0; n < v.size(); n++) { if (n) q += ","; q += std::to_string(v[n]); } return q + "]"; }
static const void * first(const DataArray1D<double> & a) { return &a[0]; }
static const void * first(const DataArray2D<double> & a) { return &a[0][0]; }
static const void * first(const DataArray3D<double> & a) { return &a(0,0,0); }
static const void * first(const DataArray4D<double> & a) { return &a(0,0,0,0); }
static size_t total(const DataArray1D<double> & a) { return a.GetRows(); }
template <class A> static size_t total(const A & a) { return a.GetTotalSize(); }
template <class A> static int dig(const A & a) { unsigned long long n = total(a); return fold(fnv(n ? first(a) : (const void *) &n, n * sizeof(double), fnv(&n, sizeof n))); }
static int bits(double x) { return fold(fnv(&x, sizeof x)); }
static unsigned long long rnd(unsigned long long & s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static std::vector<int> geometry(const GridPatch & p) {
	std::vector<int> v;
	v.push_back(dig(p.GetANodes())); v.push_back(dig(p.GetBNodes())); v.push_back(dig(p.GetAEdges())); v.push_back(dig(p.GetBEdges()));
	v.push_back(dig(p.GetJacobian2D())); v.push_back(dig(p.GetContraMetric2DA())); v.push_back(dig(p.GetContraMetric2DB())); v.push_back(dig(p.GetCovMetric2DA())); v.push_back(dig(p.GetCovMetric2DB()));
	v.push_back(dig(p.GetJacobian())); v.push_back(dig(p.GetJacobianREdge())); v.push_back(dig(p.GetContraMetricA())); v.push_back(dig(p.GetContraMetricB())); v.push_back(dig(p.GetContraMetricXi()));
	v.push_back(dig(p.GetContraMetricAREdge())); v.push_back(dig(p.GetContraMetricBREdge())); v.push_back(dig(p.GetContraMetricXiREdge()));
	v.push_back(dig(p.GetDerivRNode())); v.push_back(dig(p.GetDerivRREdge())); v.push_back(dig(p.GetElementAreaNode())); v.push_back(dig(p.GetElementAreaREdge()));
	v.push_back(dig(p.GetTopography())); v.push_back(dig(p.GetTopographyDeriv())); v.push_back(dig(p.GetLongitude())); v.push_back(dig(p.GetLatitude())); v.push_back(dig(p.GetCoriolisF()));
	v.push_back(dig(p.GetZLevels())); v.push_back(dig(p.GetZInterfaces()));
	v.push_back(dig(p.GetReferenceState(DataLocation_Node))); v.push_back(dig(p.GetReferenceState(DataLocation_REdge)));
	v.push_back(dig(p.GetRayleighStrength(DataLocation_Node))); v.push_back(dig(p.GetRayleighStrength(DataLocation_REdge)));
	return v;
}
static int hashArr(const std::vector<Arr> & as, const PatchBox & b, bool all) {
	unsigned long long h = fnv("x", 1);
	for (size_t c = 0; c < as.size(); c++) {
		if (all) h = fnv(as[c].p, sizeof(double) * as[c].K * b.GetTotalNodes(), h);
		else interior(b, [&](size_t cell, int, int) { h = fnv(as[c].p + cell * as[c].K, sizeof(double) * as[c].K, h); });
	}
	return fold(h);
}
static std::vector<Arr> states(Grid * g, GridPatch * p) { std::vector<Arr> r; for (int c = 0; c < g->GetModel().GetEquationSet().GetComponents(); c++) r.push_back(stateArr(g, p, 0, c)); return r; }
static std::vector<Arr> tracers(Grid * g, GridPatch * p) { std::vector<Arr> r; for (int c = 0; c < g->GetModel().GetEquationSet().GetTracers(); c++) r.push_back(tracerArr(g, p, 0, c)); return r; }
// per patch: index, geometry, state, tracers
static std::string patchDigests(Grid * g) {
	std::string t;
	for (int n = 0; n < g->GetActivePatchCount(); n++) { GridPatch * p = g->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		if (t.size()) t += ",";
		t += "{\"ix\":" + std::to_string(p->GetPatchIndex()) + ",\"geo\":" + js(geometry(*p)) + ",\"st\":" + std::to_string(hashArr(states(g, p), b, true)) + ",\"tr\":" + std::to_string(hashArr(tracers(g, p), b, true)) + "}"; }
	return "[" + gatherText(t) + "]";
}
static std::string timeDigest(const Time & t) { std::vector<int> v = {t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond(), t.GetMicroSecond(), (int) t.GetCalendarType(), (int) t.GetTimeType()}; return js(v); }
static std::string describe(Grid * g) {
	std::vector<int> v = {g->GetPatchCount(), g->GetRElements(), (int) g->GetVerticalDiscretization(), (int) g->GetVerticalStaggering(), g->GetABaseResolution(), g->GetBBaseResolution(), g->GetRefinementRatio(), gll(g)->GetHorizontalOrder(), gll(g)->GetVerticalOrder()};
	for (int d = 0; d < 4; d++) v.push_back(g->GetBoundaryCondition((Direction) d));
	v.push_back(bits(g->GetReferenceLength())); v.push_back(bits(g->GetZtop()));
	v.push_back(g->HasReferenceState()); v.push_back(g->HasRayleighFriction()); v.push_back(g->HasUniformDiffusion()); v.push_back(bits(g->GetScalarUniformDiffusionCoeff())); v.push_back(bits(g->GetVectorUniformDiffusionCoeff()));
	for (int c = 0; c < g->GetModel().GetEquationSet().GetComponents(); c++) v.push_back((int) g->GetVarLocation(c));
	GridGLL * q = dynamic_cast<GridGLL *>(g); v.push_back(q ? q->GetIsCartesianXZ() : -1);
	if (GridCartesianGLL * k = dynamic_cast<GridCartesianGLL *>(g)) { v.push_back(bits(k->GetReferenceLatitude())); v.push_back(bits(k->GetMinimumX())); v.push_back(bits(k->GetMaximumX())); v.push_back(bits(k->GetMinimumY())); v.push_back(bits(k->GetMaximumY())); }
	v.push_back(dig(g->GetREtaLevels())); v.push_back(dig(g->GetREtaInterfaces())); v.push_back(dig(g->GetREtaLevelsNormArea())); v.push_back(dig(g->GetREtaInterfacesNormArea())); v.push_back(dig(g->GetREtaStretchLevels())); v.push_back(dig(g->GetREtaStretchInterfaces()));
	for (int n = 0; n < g->GetPatchCount(); n++) { const PatchBox & b = g->GetPatchBox(n);
		v.push_back(b.GetPanel()); v.push_back(b.GetAGlobalInteriorBegin()); v.push_back(b.GetAGlobalInteriorEnd()); v.push_back(b.GetBGlobalInteriorBegin()); v.push_back(b.GetBGlobalInteriorEnd()); v.push_back(b.GetHaloElements()); v.push_back(b.GetRefinementLevel()); }
	return js(v);
}
static std::string findRestart(const std::string & d, std::vector<std::string> * all = NULL) {
	std::string r; if (DIR * q = opendir(d.c_str())) { while (dirent * e = readdir(q)) { std::string n = e->d_name; if (n.size() > 12 && n.substr(n.size() - 12) == ".restart.dat") { r = d + "/" + n; if (all) all->push_back(r); } } closedir(q); }
	return r;
}
struct Outcome { bool ok; std::string why; };
// run f on the first k processes; the outcome is the same everywhere
template <class F> static Outcome within(int k, const std::vector<int> & picks, F f) {
	opno++; Outcome o; o.ok = true; std::string msg;
	bool in = world::enter(k, "fail" + std::to_string(scn) + "_" + std::to_string(opno));
	if (in) {
		world::picks = picks;
		try { f(); } catch (Exception & x) { o.ok = false; msg = x.ToString(); world::fail(); } catch (world::Gone &) { o.ok = false; msg = "peer"; world::fail(); } catch (std::exception & x) { o.ok = false; msg = x.what(); world::fail(); }
	}
	world::leave();
	int x = !o.ok, y = 0; PMPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); o.ok = !y;
	o.why = msg.substr(0, 300);
	return o;
}
static void write(const std::vector<std::string> & w) {   // write np t seed [picks]
	int k = atoi(w[1].c_str()), t = atoi(w[2].c_str()); unsigned long long seed = 88172645463325252ull ^ (strtoull(w[3].c_str(), NULL, 10) * 2654435761ull);
	std::vector<int> picks; for (size_t n = 4; n < w.size(); n++) picks.push_back(atoi(w[n].c_str()));
	std::string d = dir(files.size()), pd, desc, tm; if (rank == 0) mkdir(d.c_str(), 0777);
	PMPI_Barrier(MPI_COMM_WORLD);
	Outcome o = within(k, picks, [&]() {
		Built b = build(cs, 10, 100000);
		b.grid->EvaluateGeometricTerms();
		for (int n = 0; n < b.grid->GetActivePatchCount(); n++) { GridPatch * p = b.grid->GetActivePatch(n); const PatchBox & x = p->GetPatchBox();
			unsigned long long s = seed * 6364136223846793005ull + 1442695040888963407ull * (p->GetPatchIndex() + 1); if (!s) s = 1;
			std::vector<Arr> a = states(b.grid, p), q = tracers(b.grid, p); a.insert(a.end(), q.begin(), q.end());
			for (size_t c = 0; c < a.size(); c++) for (size_t i = 0; i < (size_t) a[c].K * x.GetTotalNodes(); i++) a[c].p[i] = ((double) (rnd(s) >> 11) / 9007199254740992.0 - 0.5) * 2000.0; }
		Time now = stamp(t); now += Time(0, 0, 0, 0, t % 1000, Time::CalendarNoLeap, Time::TypeDelta); b.model->SetCurrentTime(now);
		OutputManagerComposite out(*b.grid, seconds(0), d, "r");
		pd = patchDigests(b.grid); desc = describe(b.grid); tm = timeDigest(b.model->GetCurrentTime());
		out.InitialOutput(now);
		delete b.model;
	});
	std::string f = findRestart(d); Restart r; r.file = f; r.at = t; files.push_back(r);
	if (rank == 0) { Ev e("write"); e.b("ok", o.ok && f.size()).i("np", k); if (o.ok) e.raw("patches", pd).raw("desc", desc).raw("time", tm); e.emit(); }
	if (!o.ok && rank == 0 && o.why.size()) Ev("note").str("why", o.why).emit();
}
// damage kind arg: the latest file as it would look after an accident
static void damage(const std::vector<std::string> & w) {
	std::string src = files.back().file, k = w[1]; long long a = atoll(w[2].c_str()); std::string dst = dir(files.size());
	if (rank == 0) {
		mkdir(dst.c_str(), 0777); std::ifstream in(src.c_str(), std::ios::binary); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
		std::string o = all; bool none = false; size_t n = all.size();
		if (k == "cut") o = all.substr(0, a < 0 ? (n > (size_t) -a ? n + a : 0) : a < (long long) n ? a : 0);
		else if (k == "share") { size_t m = (size_t) ((double) n * a / 1000.0); o = all.substr(0, m < n ? m : n - 1); }
		else if (k == "check") { if (o.size() > (size_t) (a & 3)) o[a & 3] ^= 0x40; }
		else if (k == "text") o = "A file of another kind.\n" + std::string((size_t) n, ' ');
		else if (k == "none") none = true;
		if (!none) { std::ofstream out((dst + "/x.restart.dat").c_str(), std::ios::binary); out << o; }
	}
	PMPI_Barrier(MPI_COMM_WORLD);
	Restart r; r.file = dst + "/x.restart.dat"; r.at = files.back().at; files.push_back(r);
	if (rank == 0) Ev("damage").str("kind", k).emit();
}
static void read(const std::vector<std::string> & w) {    // read np file
	int k = atoi(w[1].c_str()); Restart r = files[atoi(w[2].c_str())]; std::string pd, desc, tm;
	Outcome o = within(k, std::vector<int>(), [&]() {
		Built b = build(cs, 10, 100000, r.file, false);
		pd = patchDigests(b.grid); desc = describe(b.grid); tm = timeDigest(b.model->GetCurrentTime());
		delete b.model;
	});
	if (rank == 0) { Ev e("read"); e.b("ok", o.ok).i("np", k).i("f", atoi(w[2].c_str())); if (o.ok) e.raw("patches", pd).raw("desc", desc).raw("time", tm); e.emit(); }
	if (!o.ok && rank == 0 && o.why.size()) Ev("note").str("why", o.why).emit();
}
// ---- whole runs
class Recorder : public OutputManager {
public:
	std::string log; std::string name; bool full; int count;
	Recorder(Grid & g, const Time & f, const std::string & n) : OutputManager(g, f, "", "", -1), name(n), full(false), count(0) {}
	virtual const char * GetName() const { return "Recorder"; }
	virtual bool OpenFile(const std::string &) { return true; }
	virtual void CloseFile() {}
	virtual void Output(const Time & t) {
		std::string s; Grid * g = &m_grid;
		for (int n = 0; n < g->GetActivePatchCount(); n++) { GridPatch * p = g->GetActivePatch(n); std::vector<Arr> a = states(g, p), q = tracers(g, p); a.insert(a.end(), q.begin(), q.end());
			if (s.size()) s += ","; s += "[" + std::to_string(p->GetPatchIndex()) + "," + std::to_string(hashArr(a, p->GetPatchBox(), false)) + "]"; }
		std::string all = gatherText(s);
		if (log.size()) log += ","; log += "{\"t\":" + timeDigest(t) + ",\"st\":[" + all + "]}"; count++;
	}
};
static bool finite(Grid * g) {
	int bad = 0; for (int n = 0; n < g->GetActivePatchCount(); n++) { GridPatch * p = g->GetActivePatch(n); std::vector<Arr> a = states(g, p);
		for (size_t c = 0; c < a.size(); c++) interior(p->GetPatchBox(), [&](size_t x, int, int) { for (int k = 0; k < a[c].K; k++) if (!std::isfinite(a[c].p[x * a[c].K + k]) || fabs(a[c].p[x * a[c].K + k]) > 1.0e12) bad = 1; }); }
	int any = 0; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return !any;
}
// run np dt end every restartevery | cont np dt end every k
static void run(const std::vector<std::string> & w, bool cont) {
	int k = atoi(w[1].c_str()), dt = atoi(w[2].c_str()), end = atoi(w[3].c_str()), every = atoi(w[4].c_str()), last = atoi(w[5].c_str());
	std::string d = dir(files.size()), steps, outs; if (rank == 0) mkdir(d.c_str(), 0777);
	PMPI_Barrier(MPI_COMM_WORLD); bool fin = true;
	Restart r; if (cont) { if (last >= (int) files.size()) { if (rank == 0) Ev("cont").b("ok", false).i("np", k).i("f", last).i("every", period).b("fin", true).emit(); return; } r = files[last]; }
	Outcome o = within(k, std::vector<int>(), [&]() {
		Built b = build(cs, dt, end, cont ? r.file : "");
		Recorder * one = new Recorder(*b.grid, seconds(dt), "steps"), * two = new Recorder(*b.grid, seconds(every), "outputs");
		b.model->AttachOutputManager(one);
		b.model->AttachOutputManager(two);
		if (!cont) b.model->AttachOutputManager(new OutputManagerComposite(*b.grid, seconds(last), d, "r"));
		b.model->Go();
		steps = one->log; outs = two->log; fin = finite(b.grid);
		delete b.model;
	});
	std::vector<std::string> got;
	if (!cont) { findRestart(d, &got); std::sort(got.begin(), got.end()); for (size_t n = 0; n < got.size(); n++) { Restart q; q.file = got[n]; q.at = 0; files.push_back(q); } }
	if (rank == 0) { Ev e(cont ? "cont" : "run"); e.b("ok", o.ok).i("np", k).i("files", got.size()).b("fin", fin); if (cont) e.i("f", last).i("every", period); if (o.ok) e.raw("steps", "[" + steps + "]").raw("outs", "[" + outs + "]"); e.emit(); }
	if (!o.ok && rank == 0 && o.why.size()) Ev("note").str("why", o.why).emit();
}
// field np dt steps patches: one value for every column of nodes (weighted over its levels), in units of 1e-8 of the largest value of the variable in the first run
class Dense : public OutputManager {
public:
	std::vector<std::vector<double> > all;
	Dense(Grid & g, const Time & f) : OutputManager(g, f, "", "", -1) {}
	virtual const char * GetName() const { return "Dense"; }
	virtual bool OpenFile(const std::string &) { return true; }
	virtual void CloseFile() {}
	virtual void Output(const Time & t) {
		Grid * g = &m_grid; bool cube = cs.cube(); int NP = cube ? 6 : 1, NA = g->GetABaseResolution() * gll(g)->GetHorizontalOrder(), NB = g->GetBBaseResolution() * gll(g)->GetHorizontalOrder();
		int C = g->GetModel().GetEquationSet().GetComponents(), T = g->GetModel().GetEquationSet().GetTracers();
		for (int c = 0; c < C + T; c++) { int K = g->GetRElements() + (c < C && g->GetVarLocation(c) == DataLocation_REdge ? 1 : 0);
			std::vector<double> v((size_t) NP * NA * NB, 0.0), r(v.size());
			for (int n = 0; n < g->GetActivePatchCount(); n++) { GridPatch * p = g->GetActivePatch(n); const PatchBox & b = p->GetPatchBox(); Arr a = c < C ? stateArr(g, p, 0, c) : tracerArr(g, p, 0, c - C);
				interior(b, [&](size_t x, int A, int B) { for (int k = 0; k < K; k++) v[((size_t) b.GetPanel() * NA + A) * NB + B] += a.p[x * K + k] * (0.6 + 0.01 * ((k * 37) % 61)); }); }
			MPI_Reduce(v.data(), r.data(), v.size(), MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
			all.push_back(r); }
	}
};
static void field(const std::vector<std::string> & w) {
	int k = atoi(w[1].c_str()), dt = atoi(w[2].c_str()), n = atoi(w[3].c_str()); std::vector<std::vector<double> > v; int patches = 0, vars = 0; bool fin = true;
	if (w.size() > 4) cs.v["patches"] = w[4];
	Outcome o = within(k, std::vector<int>(), [&]() {
		Built b = build(cs, dt, dt * n); Dense * q = new Dense(*b.grid, seconds(dt)); b.model->AttachOutputManager(q); patches = b.grid->GetPatchCount();
		vars = b.model->GetEquationSet().GetComponents() + b.model->GetEquationSet().GetTracers();
		b.model->Go(); v = q->all; fin = finite(b.grid); delete b.model;
	});
	if (rank != 0) return;
	if (o.ok && scale.empty()) for (int c = 0; c < vars; c++) { double m = 0.0; for (size_t s = c; s < v.size(); s += vars) for (double x : v[s]) if (std::isfinite(x)) m = std::max(m, fabs(x)); scale.push_back(m > 0.0 ? m : 1.0); }
	Ev e("field"); e.b("ok", o.ok).i("np", k).i("patches", patches).b("fin", fin).i("vars", vars);
	if (o.ok) { std::string t = "["; for (size_t s = vars; s < v.size(); s++) { if (s > (size_t) vars) t += ","; t += "["; for (size_t x = 0; x < v[s].size(); x++) { if (x) t += ","; double y = v[s][x] / scale[s % vars] * 1.0e8; t += std::isfinite(y) && fabs(y) < 2.0e9 ? std::to_string(llround(y)) : "2000000000"; } t += "]"; } e.raw("v", t + "]"); }
	e.emit();
	if (!o.ok && o.why.size()) Ev("note").str("why", o.why).emit();
}
// sums np dt n: what the global sum reports after every step, in units of 1e-9 of the first
class Sums : public OutputManager {
public:
	std::vector<std::vector<double> > all;
	Sums(Grid & g, const Time & f) : OutputManager(g, f, "", "", -1) {}
	virtual const char * GetName() const { return "Sums"; }
	virtual bool OpenFile(const std::string &) { return true; }
	virtual void CloseFile() {}
	virtual void Output(const Time & t) {
		int C = m_grid.GetModel().GetEquationSet().GetComponents(), T = m_grid.GetModel().GetEquationSet().GetTracers(); std::vector<double> r;
		DataArray1D<double> s(C), q(T ? T : 1); m_grid.Checksum(DataType_State, s, 0, ChecksumType_Sum); r.push_back(s[C - 1]); // fluid comes last
		if (T) { m_grid.Checksum(DataType_Tracers, q, 0, ChecksumType_Sum); for (int n = 0; n < T; n++) r.push_back(q[n]); }
		all.push_back(r);
	}
};
static void sums(const std::vector<std::string> & w) {
	int k = atoi(w[1].c_str()), dt = atoi(w[2].c_str()), n = atoi(w[3].c_str()); std::vector<std::vector<double> > v; bool fin = true;
	if (w.size() > 4) cs.v["patches"] = w[4];
	Outcome o = within(k, std::vector<int>(), [&]() {
		Built b = build(cs, dt, dt * n); Sums * q = new Sums(*b.grid, seconds(dt)); b.model->AttachOutputManager(q); b.model->Go(); v = q->all; fin = finite(b.grid); delete b.model;
	});
	if (rank != 0) return;
	Ev e("sums"); e.b("ok", o.ok).i("np", k).b("fin", fin).i("n", n);
	if (o.ok) { std::string t = "["; for (size_t s = 0; s < v.size(); s++) { if (s) t += ","; t += "["; for (size_t x = 0; x < v[s].size(); x++) { if (x) t += ","; double y = (v[s][x] - v[0][x]) / v[0][x] * 1.0e12; t += std::isfinite(y) && fabs(y) < 2.0e9 ? std::to_string(llround(y)) : "2000000000"; } t += "]"; } e.raw("v", t + "]"); }
	e.emit();
	if (!o.ok && o.why.size()) Ev("note").str("why", o.why).emit();
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	PMPI_Comm_rank(MPI_COMM_WORLD, &rank); PMPI_Comm_size(MPI_COMM_WORLD, &np);
	AnnounceSetOutputBuffer(fopen("/dev/null", "w")); AnnounceOnlyOutputOnRankZero();
	std::string o = argv[2]; if (np > 1) o += "." + std::to_string(rank); out = fopen(o.c_str(), "w");
	std::vector<std::string> L = readlines(argv[1]);
	for (size_t n = 0; n < L.size(); n++) {
		std::vector<std::string> w = words(L[n]); if (w.empty()) continue;
		if (w[0] == "scenario") { for (size_t k = 0; k < files.size() && rank == 0; k++) remove(files[k].file.c_str()); scn = atoi(w[1].c_str()); files.clear(); scale.clear(); opno = 0; Ev("scenario").emit(); }
		else if (w[0] == "mark") { if (rank == 0) Ev("cfg").raw("c", L[n].substr(5)).emit(); }
		else if (w[0] == "model") { cs = Case(); for (size_t k = 1; k < w.size(); k++) { size_t q = w[k].find('='); cs.v[w[k].substr(0, q)] = w[k].substr(q + 1); } }
		else if (w[0] == "write") write(w);
		else if (w[0] == "damage") damage(w);
		else if (w[0] == "read") read(w);
		else if (w[0] == "run") { period = atoi(w[5].c_str()); run(w, false); }
		else if (w[0] == "cont") run(w, true);
		else if (w[0] == "field") field(w);
		else if (w[0] == "sums") sums(w);
		else if (w[0] == "end") Ev("end").emit();
	}
	fclose(out); MPI_Finalize(); return 0;
}
