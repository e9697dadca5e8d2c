// Output on the reference grid: a real model whose fields are painted instead of stepped, the files read back.
#include "realmodel.h"
#include <netcdf.h>
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
using namespace vp;
static int rank = 0, np = 1, opno = 0; static Case cs;
static GridGLL * gll(Grid * g) { return dynamic_cast<GridGLL *>(g); }
static Time delta(int n, Time::CalendarType cal) { Time t(0, 0, n / 86400, n % 86400, 0, cal, Time::TypeDelta); t.NormalizeTime(); return t; }
static Time::CalendarType calendar() { return cs.s("cal", "noleap") == "standard" ? Time::CalendarStandard : Time::CalendarNoLeap; }
class Still : public TimestepScheme {
public:
	Still(Model & m) : TimestepScheme(m) {}
	virtual int GetComponentDataInstances() const { return 1; }
	virtual int GetTracerDataInstances() const { return 1; }
	virtual void Step(bool, bool, const Time &, double) {}
};
// field f at place (a, b), height eta, step s; deg: degree in eta the operators reproduce
static double paint(int f, int s, double a, double b, double eta, int deg) {
	double v = 100.0 + 7.0 * f + (f == 30 ? 0.0 : 10.0 * s) + (11 + f) * a - (13 + f) * b + (3 + f % 4) * a * b;
	if (cs.i("ord", 4) >= 3) v += (2 + f % 3) * a * a;
	if (deg >= 1) v += (17 + f) * eta;
	if (deg >= 2) v += (5 + f % 3) * eta * eta;
	return v;
}
static void space(int panel, double a, double b, double * r);
static std::string num(double y) { return std::isfinite(y) && fabs(y) < 2.0e9 ? std::to_string(llround(y)) : "2000000000"; }
static void place(const GridPatch * p, int i, int j, double & a, double & b) { a = p->GetANode(i); b = p->GetBNode(j); if (!cs.cube()) { a /= 300000.0; b /= 100000.0; } }
static int degree(DataLocation loc) { return loc == DataLocation_REdge ? cs.i("de", 0) : cs.i("dn", 0); }
// fields whose derived quantities are known: diag 1 temperature, 2 weight of the column, 3 uniform flow (totals)
static const double U0 = 5.0, DEPTH = 100.0;
static double radius;
static void flow(Grid * g, GridPatch * p, int s, int panel, int i, int j, double a, double b, double eta, double & u, double & v) {
	int mode = cs.i("diag", 0); double K[3] = {cs.d("kx", 0), cs.d("ky", 0), cs.d("kz", 0)}, G[3] = {cs.d("gx", 0), cs.d("gy", 0), cs.d("gz", 0)}, amp = U0 * (1.0 + s) * (mode != 3 && cs.i("dn", 0) >= 1 ? 1.0 + eta : 1.0);
	if (cs.cube()) {
		double r[3], h = 1.0e-5, q[3], t[3], V[3], dot = 0.0; space(panel, a, b, r); for (int d = 0; d < 3; d++) dot += G[d] * r[d];
		for (int d = 0; d < 3; d++) V[d] = amp * (K[(d + 1) % 3] * r[(d + 2) % 3] - K[(d + 2) % 3] * r[(d + 1) % 3] + G[d] - dot * r[d]);
		double o[2] = {0.0, 0.0}; for (int e = 0; e < 2; e++) { space(panel, a - (e ? 0 : h), b - (e ? h : 0), q); space(panel, a + (e ? 0 : h), b + (e ? h : 0), t); for (int d = 0; d < 3; d++) o[e] += V[d] * (t[d] - q[d]) / (2.0 * h); }
		u = o[0] * radius; v = o[1] * radius; return;
	}
	if (mode == 3) { u = amp * K[0]; v = amp * K[1]; return; }
	double z = cs.i("ord", 4) >= 3 ? 1.0 : 0.0;
	u = amp * (K[0] * b + K[1] * a * b + z * K[2] * b * b + G[0] * a); v = amp * (G[1] * a + G[2] * a * b + z * K[0] * a * a + K[1] * b);
}
class Painter : public OutputManager {
public:
	int s; bool remove;
	Painter(Grid & g, const Time & f, bool r) : OutputManager(g, f, "", "", -1), s(0), remove(r) {}
	virtual const char * GetName() const { return "Painter"; }
	virtual bool OpenFile(const std::string &) { return true; }
	virtual void CloseFile() {}
	virtual void Output(const Time & t) {
		Grid * g = &m_grid; const EquationSet & eqn = g->GetModel().GetEquationSet(); int ord = gll(g)->GetHorizontalOrder();
		for (int n = 0; n < g->GetActivePatchCount(); n++) { GridPatch * p = g->GetActivePatch(n); const PatchBox & x = p->GetPatchBox(); size_t all = x.GetTotalNodes(); int B = x.GetBTotalWidth();
			std::vector<Arr> as; for (int c = 0; c < eqn.GetComponents(); c++) as.push_back(stateArr(g, p, 0, c)); for (int c = 0; c < eqn.GetTracers(); c++) as.push_back(tracerArr(g, p, 0, c));
			DataArray3D<double> & u = p->GetUserData2D(); int U = g->GetModel().GetUserDataMeta().GetUserData2DItemCount();
			for (size_t c = 0; c < as.size(); c++) for (size_t i = 0; i < all * as[c].K; i++) as[c].p[i] = 7.0e7;
			for (int c = 0; c < U; c++) for (int i = 0; i < x.GetATotalWidth(); i++) for (int j = 0; j < B; j++) u(c, i, j) = 7.0e7;
			interior(x, [&](size_t cell, int GA, int GB) {
				int i = cell / B, j = cell % B; double a, b; place(p, i, j, a, b);
				for (size_t c = 0; c < as.size(); c++) { bool st = (int) c < eqn.GetComponents(); DataLocation loc = st ? g->GetVarLocation(c) : DataLocation_Node;
					for (int k = 0; k < as[c].K; k++) { double eta = loc == DataLocation_REdge ? g->GetREtaInterfaces()[k] : g->GetREtaLevels()[k];
						double v = paint(st ? c : 10 + c - eqn.GetComponents(), s, a, b, eta, degree(loc));
						if (st && c == 3) v *= loc == DataLocation_REdge ? p->GetDerivRREdge()(i, j, k, 2) : p->GetDerivRNode()(i, j, k, 2);
						if (st && remove) v += p->GetReferenceState(loc)(c, i, j, k);
						as[c].p[cell * as[c].K + k] = v; } }
				if (int mode = cs.i("diag", 0)) {
					const PhysicalConstants & phys = g->GetModel().GetPhysicalConstants(); bool pe = !cs.sw() && g->GetVarLocation(2) == DataLocation_REdge, we = !cs.sw() && g->GetVarLocation(3) == DataLocation_REdge;
					for (int k = 0; k < as[0].K; k++) flow(g, p, s, x.GetPanel(), i, j, a, b, g->GetREtaLevels()[k], as[0].p[cell * as[0].K + k], as[1].p[cell * as[1].K + k]);
					if (cs.sw()) as[2].p[cell * as[2].K] = DEPTH;
					else {
						double W = mode == 3 ? U0 * cs.d(cs.cube() ? "kx" : "kz", 0) : 0.0;
						for (int k = 0; k < as[3].K; k++) as[3].p[cell * as[3].K + k] = W * (we ? p->GetDerivRREdge()(i, j, k, 2) : p->GetDerivRNode()(i, j, k, 2));
						for (int k = 0; k < as[2].K; k++) { double eta = pe ? g->GetREtaInterfaces()[k] : g->GetREtaLevels()[k]; as[2].p[cell * as[2].K + k] = 300.0 + 10.0 * s + 11.0 * a - 13.0 * b + (pe ? 0.0 : 17.0 * eta); }
						for (int k = 0; k < as[4].K; k++) { double eta = g->GetREtaLevels()[k], rt = 300.0 + 10.0 * s + 11.0 * a - 13.0 * b + (pe ? 0.0 : 17.0 * eta), P = phys.GetP0() * pow(phys.GetR() * rt / phys.GetP0(), phys.GetCp() / (phys.GetCp() - phys.GetR()));
							double & rho = as[4].p[cell * as[4].K + k];
							if (mode == 1) rho = P / (phys.GetR() * paint(31, s, a, b, eta, cs.i("dn", 0)));
							if (mode == 2) rho = paint(32 + k % 3, s, a, b, 0.0, 0) / (phys.GetG() * (p->GetZInterfaces()(i, j, k + 1) - p->GetZInterfaces()(i, j, k)));
							if (mode == 3) { rho = 1.2 * (1.0 + s); as[2].p[cell * as[2].K + k] = phys.GetP0() / phys.GetR() * pow(rho * phys.GetR() * 250.0 / phys.GetP0(), (phys.GetCp() - phys.GetR()) / phys.GetCp()); } }
						if (mode == 3 && we) for (int k = 0; k < as[3].K; k++) p->GetDataState(0, DataLocation_REdge)(4, i, j, k) = 1.2 * (1.0 + s);
					}
				}
				u(0, i, j) = x.GetPanel() * 10000 + (GA / ord) * 100 + GB / ord; u(1, i, j) = a; u(2, i, j) = b;
				for (int c = 3; c < U; c++) u(c, i, j) = paint(20 + c, s, a, b, 0.0, 0);
				if (s == 0 && !cs.i("diag", 0)) p->GetTopography()(i, j) = paint(30, s, a, b, 0.0, 0);
			});
		}
		s++;
	}
};
class Log : public OutputManager {
public:
	Painter * p; Time start; std::string log, tot;
	Log(Grid & g, const Time & f, Painter * q, const Time & t) : OutputManager(g, f, "", "", -1), p(q), start(t) {}
	virtual const char * GetName() const { return "Log"; }
	virtual bool OpenFile(const std::string &) { return true; }
	virtual void CloseFile() {}
	virtual void Output(const Time & t) {
		std::vector<int> v = {p->s - 1, t.GetYear(), t.GetMonth() - 1, t.GetDay() - 1, t.GetSecond()}; char q[100]; snprintf(q, 100, "[%d,%d,%d,%d,%d]", v[0], v[1], v[2], v[3], v[4]);
		if (log.size()) log += ","; log += q;
		if (!cs.sw() && cs.i("diag", 0) != 3) return;
		if (!cs.i("diag", 0)) return;
		double A = cs.cube() ? 4.0 * M_PI * radius * radius : 3.0e10, E = m_grid.ComputeTotalEnergy(0), Z = m_grid.ComputeTotalPotentialEnstrophy(0), M = 0.0;
		if (cs.sw()) { E /= A * 0.5 * DEPTH * U0 * U0 * 1.0e-4; Z /= A * 0.5 / DEPTH * (U0 / radius) * (U0 / radius) * 1.0e-4; }
		else { double mass = A * 1.0e4 * 1.2 * (1.0 + p->s - 1); M = m_grid.GetVarLocation(3) == DataLocation_Node ? m_grid.ComputeTotalVerticalMomentum(0) / (mass * 1.0e4 * U0 * 1.0e-4) : 0.0; E /= mass * 0.1; Z /= mass * U0 * 1.0e-4; if (cs.cube()) Z = 0.0; }
		if (tot.size()) tot += ","; tot += "[" + num(E) + "," + num(Z) + "," + num(M) + "]";
	}
};
struct Outcome { bool ok; std::string why; };
template <class F> static Outcome within(int k, F f) {
	opno++; Outcome o; o.ok = true; std::string msg;
	bool in = world::enter(k, "fail" + std::to_string(scn) + "_" + std::to_string(opno));
	if (in) { try { f(); } catch (Exception & x) { o.ok = false; msg = x.ToString(); world::fail(); } catch (world::Gone &) { o.ok = false; msg = "peer"; world::fail(); } catch (std::exception & x) { o.ok = false; msg = x.what(); world::fail(); } }
	world::leave();
	int x = !o.ok, y = 0; PMPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); o.ok = !y; o.why = msg.substr(0, 300);
	return o;
}
static std::vector<double> var(int f, const char * name, std::vector<size_t> * shape = NULL) {
	int id, nd, dims[8]; std::vector<double> v; if (nc_inq_varid(f, name, &id)) return v;
	nc_inq_varndims(f, id, &nd); nc_inq_vardimid(f, id, dims); size_t n = 1; for (int d = 0; d < nd; d++) { size_t l; nc_inq_dimlen(f, dims[d], &l); n *= l; if (shape) shape->push_back(l); }
	v.resize(n); if (n) nc_get_var_double(f, id, v.data()); return v;
}
static std::string att(int f, const char * name, const char * a) { int id; size_t l; if (nc_inq_varid(f, name, &id) || nc_inq_attlen(f, id, a, &l)) return ""; std::string s(l, ' '); nc_get_att_text(f, id, a, &s[0]); while (s.size() && s[s.size() - 1] == 0) s.erase(s.size() - 1); return s; }
static void space(int panel, double a, double b, double * r) {
	static const int E[6][3][3] = {{{0,1,0},{0,0,1},{1,0,0}},{{-1,0,0},{0,0,1},{0,1,0}},{{0,-1,0},{0,0,1},{-1,0,0}},{{1,0,0},{0,0,1},{0,-1,0}},{{0,1,0},{-1,0,0},{0,0,1}},{{0,1,0},{1,0,0},{0,0,-1}}};
	double x = tan(a), y = tan(b), q = 1.0 / sqrt(1.0 + x * x + y * y); for (int d = 0; d < 3; d++) r[d] = q * (x * E[panel][0][d] + y * E[panel][1][d] + E[panel][2][d]);
}
static void readBack(const std::string & d, int remove, std::string & files, std::string & pts, int T, int U, const std::vector<std::string> & names, const std::vector<std::string> & tn, const std::vector<std::string> & un) {
	std::vector<std::string> ls; if (DIR * q = opendir(d.c_str())) { while (dirent * e = readdir(q)) { std::string n = e->d_name; if (n != "." && n != "..") ls.push_back(n); } closedir(q); } std::sort(ls.begin(), ls.end());
	for (size_t z = 0; z < ls.size(); z++) {
		int f; if (nc_open((d + "/" + ls[z]).c_str(), NC_NOWRITE, &f)) { if (files.size()) files += ","; files += "{\"name\":\"" + ls[z] + "\",\"units\":\"unreadable\",\"cal\":\"\",\"t\":[],\"lev\":[]}"; continue; }
		std::vector<double> t = var(f, "time"), lon = var(f, "lon"), lat = var(f, "lat"), lev = var(f, "lev"); int nx = lon.size(), ny = lat.size(), C = names.size();
		std::vector<double> code = var(f, "U0"), qa = var(f, "U1"), qb = var(f, "U2"), zs = var(f, "Zs"); std::vector<std::vector<double> > fs; std::vector<int> id; std::vector<size_t> ks; std::string bad;
		size_t pl = (size_t) nx * ny;
		auto take = [&](const std::string & n, int f0, bool threeD) { std::vector<size_t> sh; std::vector<double> v = var(f, n.c_str(), &sh); size_t k = threeD && sh.size() == 4 ? sh[1] : 1;
			if (v.size() != t.size() * k * pl || sh.size() != (threeD ? 4 : 3) || sh[0] != t.size() || sh[sh.size() - 2] != (size_t) ny || sh[sh.size() - 1] != (size_t) nx) { bad = n; v.assign(t.size() * k * pl, 1.0e9); } fs.push_back(v); id.push_back(f0); ks.push_back(k); };
		int diag = cs.i("diag", 0);
		if (diag) { take("ZETA", 40, true); take("DELTA", 41, true); if (diag == 1) take("T", 31, true); if (diag == 2) take("PS", 32, false); }
		else {
			for (int c = 0; c < C; c++) take(names[c], c, true);
			for (int c = 0; c < T; c++) take(tn[c], 10 + c, true);
			for (int c = 3; c < U; c++) take(un[c], 20 + c, false);
		}
		if (code.size() != t.size() * pl || qa.size() != code.size() || qb.size() != code.size() || zs.size() != pl) bad = "locators";
		if (files.size()) files += ",";
		files += "{\"name\":\"" + ls[z] + "\",\"units\":\"" + att(f, "time", "units") + "\",\"cal\":\"" + att(f, "time", "calendar") + "\",\"bad\":\"" + bad + "\",\"nx\":" + std::to_string(nx) + ",\"ny\":" + std::to_string(ny) + ",\"lev\":[";
		for (size_t k = 0; k < lev.size(); k++) files += (k ? "," : "") + num(lev[k] * 1.0e6);
		files += "],\"t\":["; for (size_t r = 0; r < t.size(); r++) files += (r ? "," : "") + num(t[r] * 86400.0); files += "],\"day\":[";   // seconds and whole days apart: the value may exceed an integer of seconds
		for (size_t r = 0; r < t.size(); r++) files += (r ? "," : "") + num(floor(t[r] + 1.0e-9)); files += "],\"sec\":[";
		for (size_t r = 0; r < t.size(); r++) files += (r ? "," : "") + num((t[r] - floor(t[r] + 1.0e-9)) * 86400.0 * 1000.0);
		files += "]}";
		for (size_t r = 0; r < t.size() && bad == ""; r++) for (size_t i = 0; i < pl; i++) {
			bool last = z + 1 == ls.size() && r + 1 == t.size(); if (!last && i % 7 != r % 7) continue;
			double a = qa[r * pl + i], b = qb[r * pl + i], cd = code[r * pl + i]; int panel = cs.cube() && cd > -1.0 && cd < 60000.0 ? (int) (cd + 0.5) / 10000 : 0;
			if (pts.size()) pts += ",";
			pts += "{\"f\":" + std::to_string(z) + ",\"r\":" + std::to_string(r) + ",\"i\":" + std::to_string(i % nx) + ",\"j\":" + std::to_string(i / nx) + ",\"c\":" + num(cd * 1000.0) + ",\"a\":" + num(a * 1.0e6) + ",\"b\":" + num(b * 1.0e6);
			double lo = lon[i % nx], la = lat[i / nx];
			if (cs.cube()) { double l = lo * M_PI / 180.0, m = la * M_PI / 180.0; pts += ",\"v\":[" + num(1.0e4 * cos(m) * cos(l)) + "," + num(1.0e4 * cos(m) * sin(l)) + "," + num(1.0e4 * sin(m)) + "],\"x\":" + num(1.0e4 * tan(a)) + ",\"y\":" + num(1.0e4 * tan(b)); }
			else pts += ",\"x\":" + num(lo / 300000.0 * 1.0e6) + ",\"y\":" + num(la / 100000.0 * 1.0e6);
			pts += ",\"q\":[[30,[" + num(zs[i] * 1.0e4) + "]]";
			std::vector<std::vector<double> > w(fs.size()); for (size_t c = 0; c < fs.size(); c++) for (size_t k = 0; k < ks[c]; k++) w[c].push_back(fs[c][(r * ks[c] + k) * pl + i]);
			if (diag) for (int c = 0; c < 2; c++) for (size_t k = 0; k < ks[c]; k++) w[c][k] *= (cs.cube() ? radius : 1.0e5) / U0;
			if (cs.cube() && !diag) {  // zonal and meridional velocity back to components along the panel's coordinates
				double l = lo * M_PI / 180.0, m = la * M_PI / 180.0, e[3] = {-sin(l), cos(l), 0.0}, n[3] = {-sin(m) * cos(l), -sin(m) * sin(l), cos(m)}, h = 1.0e-5, p0[3], p1[3];
				for (size_t k = 0; k < ks[0]; k++) { double u = w[0][k], v = w[1][k], o[2] = {0.0, 0.0};
					for (int d = 0; d < 2; d++) { space(panel, a - (d ? 0 : h), b - (d ? h : 0), p0); space(panel, a + (d ? 0 : h), b + (d ? h : 0), p1); for (int q = 0; q < 3; q++) o[d] += (u * e[q] + v * n[q]) * (p1[q] - p0[q]) / (2.0 * h); o[d] *= radius; }
					w[0][k] = o[0]; w[1][k] = o[1]; } }
			for (size_t c = 0; c < fs.size(); c++) { pts += ",[" + std::to_string(id[c]) + ",["; for (size_t k = 0; k < ks[c]; k++) pts += (k ? "," : "") + num(w[c][k] * 1.0e4); pts += "]]"; }
			pts += "]}";
		}
		nc_close(f);
	}
	for (size_t z = 0; z < ls.size(); z++) remove ? (void) 0 : (void) ::remove((d + "/" + ls[z]).c_str());
	for (size_t z = 0; z < ls.size(); z++) ::remove((d + "/" + ls[z]).c_str());
	rmdir(d.c_str());
}
static std::string etas(const DataArray1D<double> & a) { std::string s = "["; for (size_t k = 0; k < a.GetRows(); k++) s += (k ? "," : "") + num(a[k] * 1.0e6); return s + "]"; }
// ref np patches dt steps every perfile nx ny nz onnodes remove
static void onGrid(const std::vector<std::string> & w) {
	int q[16] = {0}; for (size_t n = 1; n < w.size() && n < 16; n++) q[n] = atoi(w[n].c_str());
	cs.v["patches"] = w[2]; std::string d = "o" + std::to_string(scn) + "_" + std::to_string(opno), outs, tots, files, pts, en, ee; std::vector<std::string> names, tn, un; if (rank == 0) mkdir(d.c_str(), 0777);
	int patches = 0; PMPI_Barrier(MPI_COMM_WORLD); std::vector<int> edge;
	Outcome o = within(q[1], [&]() {
		if (cs.has("W")) { PhysicalConstants ph; cs.v["omega"] = std::to_string(0.0); char t[40]; snprintf(t, 40, "%.15g", cs.d("W", 0) * U0 / (ph.GetEarthRadius() / cs.planet())); cs.v["omega"] = t; }
		Built b = build(cs, 10, 100000);
		Time::CalendarType cal = calendar(); Time t0(cs.i("sy", 1), cs.i("sm", 1) - 1, cs.i("sd", 1) - 1, cs.i("ss", 0), 0, cal, Time::TypeFixed), t1 = t0;
		for (int n = 0; n < q[4]; n++) t1 += delta(q[3], cal);
		b.model->SetStartTime(t0); b.model->SetCurrentTime(t0); b.model->SetEndTime(t1); b.model->m_timeDeltaT = delta(q[3], cal);
		b.model->m_pTimestepScheme = new Still(*b.model);
		b.grid->EvaluateGeometricTerms(); radius = b.model->GetPhysicalConstants().GetEarthRadius();
		Painter * p = new Painter(*b.grid, delta(q[3], cal), q[11] != 0); Log * l = new Log(*b.grid, delta(q[3] * q[5], cal), p, t0);
		b.model->AttachOutputManager(p); b.model->AttachOutputManager(l);
		OutputManagerReference * om = new OutputManagerReference(*b.grid, delta(q[3] * q[5], cal), d, "r", q[6], q[7], q[8], q[9], q[10] != 0, q[11] != 0);
		if (int m = cs.i("diag", 0)) { om->OutputVorticity(true); om->OutputDivergence(true); if (m == 1) om->OutputTemperature(true); if (m == 2) om->OutputSurfacePressure(true); }
		b.model->AttachOutputManager(om);
		patches = b.grid->GetPatchCount(); radius = b.model->GetPhysicalConstants().GetEarthRadius();
		const EquationSet & eqn = b.model->GetEquationSet(); const UserDataMeta & meta = b.model->GetUserDataMeta();
		for (int c = 0; c < eqn.GetComponents(); c++) { names.push_back(eqn.GetComponentShortName(c)); edge.push_back(b.grid->GetVarLocation(c) == DataLocation_REdge); }
		for (int c = 0; c < eqn.GetTracers(); c++) tn.push_back(eqn.GetTracerShortName(c));
		for (int c = 0; c < meta.GetUserData2DItemCount(); c++) un.push_back(meta.GetUserData2DItemName(c));
		b.model->Go();
		outs = l->log; tots = l->tot; en = etas(b.grid->GetREtaLevels()); ee = etas(b.grid->GetREtaInterfaces());
		delete b.model;
	});
	if (rank != 0) return;
	if (o.ok) readBack(d, 0, files, pts, tn.size(), un.size(), names, tn, un);
	Ev e("ref"); e.b("ok", o.ok).i("np", q[1]).i("patches", patches).i("dt", q[3]).i("steps", q[4]).i("every", q[5]).i("per", q[6]).i("nx", q[7]).i("ny", q[8]).i("nz", q[9]).b("nodes", q[10] != 0 || q[9] > 0);
	if (o.ok) { std::string ed = "["; for (size_t c = 0; c < edge.size(); c++) ed += (c ? "," : "") + std::to_string(edge[c]); e.raw("edge", ed + "]").raw("en", en).raw("ee", ee).raw("outs", "[" + outs + "]").raw("tot", "[" + tots + "]").raw("files", "[" + files + "]").raw("pts", "[" + pts + "]"); }
	e.emit();
	if (!o.ok && o.why.size()) Ev("note").str("why", o.why).emit();
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	PMPI_Comm_rank(MPI_COMM_WORLD, &rank); PMPI_Comm_size(MPI_COMM_WORLD, &np);
	AnnounceSetOutputBuffer(fopen("/dev/null", "w")); AnnounceOnlyOutputOnRankZero();
	std::string o = argv[2]; if (np > 1) o += "." + std::to_string(rank); out = fopen(o.c_str(), "w");
	std::vector<std::string> L = readlines(argv[1]);
	for (size_t n = 0; n < L.size(); n++) {
		std::vector<std::string> w = words(L[n]); if (w.empty()) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); opno = 0; Ev("scenario").emit(); }
		else if (w[0] == "mark") { if (rank == 0) Ev("cfg").raw("c", L[n].substr(5)).emit(); }
		else if (w[0] == "model") { cs = Case(); for (size_t k = 1; k < w.size(); k++) { size_t q = w[k].find('='); cs.v[w[k].substr(0, q)] = w[k].substr(q + 1); } }
		else if (w[0] == "ref") onGrid(w);
		else if (w[0] == "end") Ev("end").emit();
	}
	fclose(out); MPI_Finalize(); return 0;
}
