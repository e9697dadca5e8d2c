// Grids of small models on several processes: layout, exchange, averaging, sums, combination of copies.
// Rank 0 reports; everything is gathered there.
#include "mini.h"
#include "commsched.h"
using namespace vp;
typedef std::vector<long long> VL;
typedef std::vector<double> VD;
static int rank = 0, np = 1;
struct Arr { double * p; int K; };   // one component: [i][j][k]
static Model * model = NULL; static Grid * grid = NULL; static GridSpec gs; static int nTr = 0, nInst = 3;
static int NA, NB, NP;
static int stateComps() { return model->GetEquationSet().GetComponents(); }
static int comps(const std::string & ty) {
	if (ty == "state") return stateComps();
	if (ty == "tracers") return nTr;
	return 1;
}
static DataType dtype(const std::string & ty) {
	return ty == "state" ? DataType_State : ty == "tracers" ? DataType_Tracers : ty == "vort" ? DataType_Vorticity : ty == "div" ? DataType_Divergence
		: ty == "temp" ? DataType_Temperature : ty == "rich" ? DataType_Richardson : DataType_TopographyDeriv;
}
static int levels(const std::string & ty, int c) {
	if (ty == "topo") return 2;
	return gs.nLev + ((ty == "state" && grid->GetVarLocation(c) == DataLocation_REdge) ? 1 : 0);
}
static Arr arr(GridPatch * p, const std::string & ty, int inst, int c) {
	Arr a; a.K = levels(ty, c);
	if (ty == "state") a.p = &(p->GetDataState(inst, grid->GetVarLocation(c))(c,0,0,0));
	else if (ty == "tracers") a.p = &(p->GetDataTracers(inst)(c,0,0,0));
	else if (ty == "vort") a.p = &(p->GetDataVorticity()(0,0,0));
	else if (ty == "div") a.p = &(p->GetDataDivergence()(0,0,0));
	else if (ty == "temp") a.p = &(p->GetDataTemperature()(0,0,0));
	else if (ty == "rich") a.p = &(p->m_dataRichardson(0,0,0));
	else a.p = &(p->GetTopographyDeriv()(0,0,0));
	return a;
}
static size_t cell(const PatchBox & b, int i, int j) { return (size_t) i * b.GetBTotalWidth() + j; }
static long long nodeId(int p, int A, int B) { return ((long long) p * NA + A) * NB + B; }
static bool inside(const PatchBox & b, int i, int j) {
	return i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
}
template <class F> static void cells(const PatchBox & b, F f) {
	for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) f(i, j, b.GetAGlobalBegin() + i, b.GetBGlobalBegin() + j);
}
static long long whole(double x, bool & odd) {
	if (!(fabs(x) < 1.0e9)) { odd = true; return x > 0 ? 999999999 : -999999999; }
	long long r = llround(x); if (fabs(x - r) > 1.0e-5) odd = true; return r;
}
static VL reduce(const VL & v) { VL r(v.size()); MPI_Reduce((void *) v.data(), r.data(), v.size(), MPI_LONG_LONG, MPI_SUM, 0, MPI_COMM_WORLD); return r; }
static VD reduce(const VD & v) { VD r(v.size()); MPI_Reduce((void *) v.data(), r.data(), v.size(), MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD); return r; }
static bool any(bool b) { int x = b, y = 0; MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return y != 0; }
static std::string gatherText(const std::string & s) {   // concatenation on rank 0, comma separated
	int n = s.size(); std::vector<int> ns(np), at(np);
	MPI_Gather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
	int tot = 0; for (int r = 0; r < np; r++) { at[r] = tot; tot += ns[r]; }
	std::string all(tot, ' ');
	MPI_Gatherv((void *) s.data(), n, MPI_CHAR, tot ? &all[0] : NULL, ns.data(), at.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
	std::string o; for (int r = 0; r < np; r++) if (ns[r]) { if (o.size()) o += ","; o += all.substr(at[r], ns[r]); }
	return o;
}
static std::string js(const VL & v) { std::string q = "["; for (size_t n = 0; n < v.size(); n++) { if (n) q += ","; q += std::to_string(v[n]); } return q + "]"; }
// everything but the target, interior nodes only where the operation may legitimately touch nothing else
static std::vector<std::string> allTypes() {
	std::vector<std::string> t; t.push_back("state"); if (nTr) t.push_back("tracers");
	t.push_back("vort"); t.push_back("div"); t.push_back("temp"); t.push_back("rich"); t.push_back("topo"); return t;
}
static VD snapshot(const std::string & ty, int inst, bool whichInst) {
	VD v; std::vector<std::string> T = allTypes();
	for (int n = 0; n < grid->GetActivePatchCount(); n++) for (size_t t = 0; t < T.size(); t++) {
		int ni = (T[t] == "state" || T[t] == "tracers") ? nInst : 1;
		for (int m = 0; m < ni; m++) {
			if (T[t] == ty && (!whichInst || ni == 1 || m == inst)) continue;
			for (int c = 0; c < comps(T[t]); c++) {
				Arr a = arr(grid->GetActivePatch(n), T[t], m, c);
				v.insert(v.end(), a.p, a.p + (size_t) grid->GetActivePatch(n)->GetPatchBox().GetTotalNodes() * a.K);
			}
		}
	}
	return v;
}
static bool same(const VD & a, const VD & b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static void fillAll() {     // every array holds something recognisable
	std::vector<std::string> T = allTypes();
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n);
		for (size_t t = 0; t < T.size(); t++) for (int m = 0; m < ((T[t] == "state" || T[t] == "tracers") ? nInst : 1); m++) for (int c = 0; c < comps(T[t]); c++) {
			Arr a = arr(p, T[t], m, c);
			for (size_t x = 0; x < (size_t) p->GetPatchBox().GetTotalNodes() * a.K; x++) a.p[x] = -5000000.0 - t * 100 - m * 10 - c;
		} }
}
static unsigned mix(unsigned a, unsigned b) { a ^= b + 0x9e3779b9u + (a << 6) + (a >> 2); a *= 2654435761u; return a ^ (a >> 15); }
static int W(const std::vector<std::string> & w, int k) { return atoi(w[k].c_str()); }

static void layout(bool refused, const std::string & why) {
	Ev e("layout"); e.b("refused", refused).i("np", np);
	if (refused) { if (rank == 0 || why.size()) Ev("note").str("why", why).i("rank", rank).emit(); if (rank == 0) e.emit(); return; }
	int cnt = grid->GetPatchCount();
	std::string boxes = "[";
	for (int n = 0; n < cnt; n++) { const PatchBox & b = grid->GetPatchBox(n);
		VL v = {b.GetPanel(), b.GetAGlobalInteriorBegin(), b.GetAGlobalInteriorEnd(), b.GetBGlobalInteriorBegin(), b.GetBGlobalInteriorEnd()};
		boxes += (n ? "," : "") + js(v); }
	boxes += "]";
	VL pr; for (int n = 0; n < cnt; n++) pr.push_back(grid->GetPatchProcessor(n));
	VL ac, holds; for (int n = 0; n < grid->GetActivePatchCount(); n++) { ac.push_back(grid->GetActivePatch(n)->GetPatchIndex()); }
	int one = 1; for (int n = 0; n < grid->GetActivePatchCount(); n++) if (!grid->GetActivePatch(n)->ContainsData() || grid->GetActivePatch(n)->GetProcessor() != rank) one = 0;
	std::string procs = gatherText(js(pr)), act = gatherText(js(ac)), bx = gatherText(boxes);
	bool odd = any(!one);
	// look up every index on and around the panels, in two orders and in pieces
	std::string look = "[";
	for (int order = 0; order < 3; order++) {
		int d = order == 1 ? 1 : gs.cube ? NA : 2; VL got;
		std::vector<int> P, A, B;
		for (int p = 0; p < NP; p++) for (int a = -d; a < NA + d; a++) for (int b = -d; b < NB + d; b++) { P.push_back(p); A.push_back(a); B.push_back(b); }
		size_t tot = P.size(); std::vector<size_t> idx(tot);
		for (size_t k = 0; k < tot; k++) idx[k] = order == 0 ? k : order == 1 ? tot - 1 - k : (k * 7919) % tot;
		if (order == 2) { std::vector<char> hit(tot, 0); bool perm = true; for (size_t k = 0; k < tot; k++) { if (hit[idx[k]]) perm = false; hit[idx[k]] = 1; } if (!perm) for (size_t k = 0; k < tot; k++) idx[k] = k; }
		VL res(tot, -9); size_t piece = order == 0 ? tot : order == 1 ? 17 : 101;
		for (size_t s = 0; s < tot; s += piece) {
			size_t len = std::min(piece, tot - s);
			DataArray1D<int> a(piece), b(piece), p(piece), r(piece);
			for (size_t k = 0; k < piece; k++) { size_t x = idx[std::min(s + k, tot - 1)]; a[k] = A[x]; b[k] = B[x]; p[k] = P[x]; r[k] = -8; }
			try { grid->GetPatchFromCoordinateIndex(0, a, b, p, r, (order == 0 && len == piece) ? -1 : (int) len); } catch (Exception & ex) { for (size_t k = 0; k < len; k++) r[k] = -7; }
			for (size_t k = 0; k < len; k++) res[idx[s + k]] = r[k];
		}
		look += std::string(order ? "," : "") + "{\"d\":" + std::to_string(d) + ",\"r\":" + js(res) + "}";
	}
	look += "]";
	std::string looks = gatherText(look);
	// every process must say the same
	bool agree = true;
	if (rank == 0) { std::string l = looks; size_t n = look.size(); for (size_t k = 0; k < (size_t) np; k++) if (l.compare(k * (n + 1), n, look) != 0) agree = false; if (l.size() != np * (n + 1) - 1) agree = false; }
	if (rank == 0) e.i("count", cnt).raw("boxes", "[" + bx + "]").raw("procs", "[" + procs + "]").raw("active", "[" + act + "]").b("placed", !odd).b("agree", agree).raw("look", look).emit();
}
struct Snap { VD before, after; };
static int Qof(const std::string & ty, std::vector<int> & base) { int Q = 0; for (int c = 0; c < comps(ty); c++) { base.push_back(Q); Q += levels(ty, c); } return Q; }
static void exchFill(const std::string & ty, int inst, int salt) {
	std::vector<int> base; Qof(ty, base);
	long long M = (long long) NP * NA * NB, S = (long long) salt * 1000000;
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		for (int c = 0; c < comps(ty); c++) { Arr a = arr(p, ty, inst, c);
			cells(b, [&](int i, int j, int A, int B) { for (int k = 0; k < a.K; k++)
				a.p[cell(b, i, j) * a.K + k] = inside(b, i, j) ? (double) (S + (base[c] + k) * M + nodeId(b.GetPanel(), A, B)) : (double) -(S + 1); }); } }
}
static std::string exchRead(const std::string & ty, int inst) {
	std::string t; bool odd = false;
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		VL v; std::vector<Arr> as; for (int c = 0; c < comps(ty); c++) as.push_back(arr(p, ty, inst, c));
		cells(b, [&](int i, int j, int A, int B) { for (size_t c = 0; c < as.size(); c++) for (int k = 0; k < as[c].K; k++) v.push_back(whole(as[c].p[cell(b, i, j) * as[c].K + k], odd)); });
		if (t.size()) t += ",";
		t += "{\"p\":" + std::to_string(b.GetPanel()) + ",\"a\":" + std::to_string(b.GetAGlobalBegin()) + ",\"b\":" + std::to_string(b.GetBGlobalBegin())
			+ ",\"wa\":" + std::to_string(b.GetATotalWidth()) + ",\"wb\":" + std::to_string(b.GetBTotalWidth()) + ",\"v\":" + js(v) + "}"; }
	return t;
}
// exchanges one after the other without any other communication in between: exch ty m [ty m ...]
static void exch(const std::vector<std::string> & w, int & salt) {
	struct Done { std::string ty, text; int salt; bool exc, same; };
	std::vector<Done> done;
	for (size_t k = 1; k + 1 < w.size(); k += 2) {
		Done d; d.ty = w[k]; int inst = W(w, k + 1); d.salt = ++salt; d.exc = false;
		exchFill(d.ty, inst, d.salt);
		VD before = snapshot(d.ty, inst, true);
		sched::x++; sched::fresh = true;
		try { grid->Exchange(dtype(d.ty), inst); } catch (Exception & x) { d.exc = true; }
		d.same = same(before, snapshot(d.ty, inst, true));
		d.text = exchRead(d.ty, inst); done.push_back(d);
	}
	sched::flush();
	for (size_t k = 0; k < done.size(); k++) { Done & d = done[k];
		std::string all = gatherText(d.text); bool ex = any(d.exc), s = !any(!d.same); std::vector<int> base; int Q = Qof(d.ty, base);
		if (rank == 0) Ev("exch").str("type", d.ty).i("q", Q).i("m", (long long) NP * NA * NB).i("s", (long long) d.salt * 1000000).b("exc", ex).b("same", s).raw("patches", "[" + all + "]").emit(); }
}
static void protocol() {
	std::string t; for (size_t k = 0; k < sched::log_.size(); k++) { if (k) t += ","; t += sched::log_[k]; }
	std::string all = gatherText(t);
	if (rank == 0) Ev("proto").raw("log", "[" + all + "]").emit();
	sched::on = false; sched::plan.clear(); sched::log_.clear(); sched::x = -1;
}
// interior values as dense rows, one per component and level; empty where nobody or several own the node
static std::vector<VL> dense(const std::string & ty, int inst, int c0, bool & odd) {
	std::vector<VL> r; VL cnt((size_t) NP * NA * NB, 0);
	for (int c = c0; c < comps(ty); c++) for (int k = 0; k < levels(ty, c); k++) {
		VL v((size_t) NP * NA * NB, 0);
		for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox(); Arr a = arr(p, ty, inst, c);
			cells(b, [&](int i, int j, int A, int B) { if (inside(b, i, j)) v[nodeId(b.GetPanel(), A, B)] += whole(a.p[cell(b, i, j) * a.K + k], odd); }); }
		r.push_back(reduce(v));
	}
	return r;
}
static std::string js(const std::vector<VL> & v) { std::string q = "["; for (size_t n = 0; n < v.size(); n++) q += (n ? "," : "") + js(v[n]); return q + "]"; }
static void fillRandom(const std::string & ty, int inst, int salt, int lo, int hi, int mul, double halo) {
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		for (int c = 0; c < comps(ty); c++) { Arr a = arr(p, ty, inst, c);
			cells(b, [&](int i, int j, int A, int B) { for (int k = 0; k < a.K; k++) {
				unsigned h = mix(mix(mix(mix(salt, inst * 31 + 7), c * 64 + k), nodeId(b.GetPanel(), A, B)), ty.size());
				a.p[cell(b, i, j) * a.K + k] = inside(b, i, j) ? (double) (mul * (lo + (int) (h % (unsigned) (hi - lo + 1)))) : halo; } }); } }
}
static void dss(const std::string & ty, int inst, int salt) {
	int c0 = (ty == "state") ? 2 : 0; bool odd = false;
	fillRandom(ty, inst, salt, -400, 400, 12, 7.0e8);
	std::vector<VL> pre = dense(ty, inst, c0, odd);
	VD before = snapshot(ty, inst, true); bool exc = false;
	try { grid->PostProcessSubstage(inst, dtype(ty)); } catch (Exception & x) { exc = true; }
	bool sm = same(before, snapshot(ty, inst, true)), o = false;
	std::vector<VL> post = dense(ty, inst, c0, o);
	o = any(o); bool ex = any(exc), s = !any(!sm);
	if (rank == 0) Ev("dss").str("type", ty).b("exc", ex).b("odd", o).b("same", s).raw("pre", js(pre)).raw("post", js(post)).emit();
}
static void sums(const std::string & ty, int inst, int kind, int salt) {
	fillRandom(ty, inst, salt, -9, 9, 1, 4.0e6);
	// areas become small whole numbers, halos enormous
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		DataArray3D<double> & an = const_cast<DataArray3D<double> &>(p->GetElementAreaNode()); DataArray3D<double> & ar = const_cast<DataArray3D<double> &>(p->GetElementAreaREdge());
		cells(b, [&](int i, int j, int A, int B) {
			for (int k = 0; k < gs.nLev; k++) an(i,j,k) = inside(b, i, j) ? 1 + mix(mix(salt, k), nodeId(b.GetPanel(), A, B)) % 7 : 5.0e5;
			for (int k = 0; k <= gs.nLev; k++) ar(i,j,k) = inside(b, i, j) ? 1 + mix(mix(salt + 77, k), nodeId(b.GetPanel(), A, B)) % 5 : 5.0e5; }); }
	bool odd = false; std::vector<VL> v = dense(ty, inst, 0, odd), w;
	for (int c = 0; c < comps(ty); c++) for (int k = 0; k < levels(ty, c); k++) {
		VL x((size_t) NP * NA * NB, 0); bool edge = levels(ty, c) > gs.nLev;
		for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
			cells(b, [&](int i, int j, int A, int B) { if (inside(b, i, j)) x[nodeId(b.GetPanel(), A, B)] += (long long) (edge ? p->GetElementAreaREdge()(i,j,k) : p->GetElementAreaNode()(i,j,k)); }); }
		w.push_back(reduce(x));
	}
	VL ks; for (int c = 0; c < comps(ty); c++) ks.push_back(levels(ty, c));
	VD before = snapshot("", -1, false);
	DataArray1D<double> r; bool exc = false;
	try { grid->Checksum(dtype(ty), r, inst, kind == 0 ? ChecksumType_Sum : kind == 1 ? ChecksumType_L1 : kind == 2 ? ChecksumType_L2 : ChecksumType_Linf); } catch (Exception & x) { exc = true; }
	bool sm = !any(!same(before, snapshot("", -1, false))); bool ex = any(exc);
	VL out; bool o = false;
	if (rank == 0) for (size_t c = 0; c < r.GetRows(); c++) out.push_back(whole(kind == 2 ? r[c] * r[c] : r[c], o));
	static const char * K[4] = {"sum", "l1", "l2", "linf"};
	if (rank == 0) Ev("sum").str("type", ty).str("kind", K[kind]).b("exc", ex).b("odd", o).b("same", sm).arr("ks", ks).raw("v", js(v)).raw("w", js(w)).arr("r", out).emit();
}
// areas of the grid as built, in millionths of the exact area of the domain (per panel)
static void area() {
	for (int n = 0; n < grid->GetActivePatchCount(); n++) grid->GetActivePatch(n)->EvaluateGeometricTerms();
	VD a(2 * NP, 0.0);
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		cells(b, [&](int i, int j, int, int) { if (!inside(b, i, j)) return;
			for (int k = 0; k < gs.nLev; k++) a[b.GetPanel()] += p->GetElementAreaNode()(i,j,k);
			for (int k = 0; k <= gs.nLev; k++) a[NP + b.GetPanel()] += p->GetElementAreaREdge()(i,j,k); }); }
	VD t = reduce(a); bool odd = false;
	double R = model->GetPhysicalConstants().GetEarthRadius();
	double exact = gs.cube ? 4.0 * M_PI * R * R / 6.0 * grid->GetZtop() : 1.0e9;
	VL node, edge; for (int p = 0; p < NP; p++) { node.push_back(llround(1.0e6 * t[p] / exact)); edge.push_back(llround(1.0e6 * t[NP + p] / exact)); }
	if (rank == 0) Ev("area").arr("node", node).arr("redge", edge).emit();
}
static void comb(const std::vector<std::string> & w) {   // copy ty src dst | zero ty dst | lin ty dst coeffs...
	std::string ty = w[1]; int salt = W(w, 2); bool odd = false;
	std::vector<std::vector<VL> > pre, post;
	for (int m = 0; m < nInst; m++) fillRandom(ty, m, salt, -500, 500, 1, 3.0 + m);
	for (int m = 0; m < nInst; m++) pre.push_back(dense(ty, m, 0, odd));
	VD before = snapshot(ty, -1, false); bool exc = false; VL co; int dst = W(w, 3);
	try {
		if (w[0] == "copy") { grid->CopyData(W(w, 4), dst, dtype(ty)); for (int m = 0; m < nInst; m++) co.push_back(m == W(w, 4)); }
		else if (w[0] == "zero") { grid->ZeroData(dst, dtype(ty)); for (int m = 0; m < nInst; m++) co.push_back(0); }
		else { int n = (int) w.size() - 4; DataArray1D<double> d(n); for (int m = 0; m < n; m++) { d[m] = W(w, 4 + m); co.push_back(W(w, 4 + m)); } grid->LinearCombineData(d, dst, dtype(ty)); }
	} catch (Exception & x) { exc = true; }
	bool sm = !any(!same(before, snapshot(ty, -1, false))), o = false, ex = any(exc);
	for (int m = 0; m < nInst; m++) post.push_back(dense(ty, m, 0, o));
	o = any(o);
	std::string a = "[", b = "["; for (int m = 0; m < nInst; m++) { a += (m ? "," : "") + js(pre[m]); b += (m ? "," : "") + js(post[m]); }
	if (rank == 0) Ev("comb").str("op", w[0]).str("type", ty).i("dst", dst).arr("co", co).b("exc", ex).b("odd", o).b("same", sm).raw("pre", a + "]").raw("post", b + "]").emit();
}
// velocities and slopes as vectors in space: r = EN + X EA + Y EB scaled to length one, X = tan alpha
struct V3 { double x[3]; };
static const int AX[6][3][3] = { {{0,1,0},{0,0,1},{1,0,0}}, {{-1,0,0},{0,0,1},{0,1,0}}, {{0,-1,0},{0,0,1},{-1,0,0}},
	{{1,0,0},{0,0,1},{0,-1,0}}, {{0,1,0},{-1,0,0},{0,0,1}}, {{0,1,0},{1,0,0},{0,0,-1}} };
static double dot(const V3 & a, const V3 & b) { return a.x[0]*b.x[0] + a.x[1]*b.x[1] + a.x[2]*b.x[2]; }
static void frame(int p, double al, double be, V3 & r, V3 & ea, V3 & eb) {
	if (!gs.cube) { for (int n = 0; n < 3; n++) { r.x[n] = n == 2; ea.x[n] = n == 0; eb.x[n] = n == 1; } return; }
	double X = tan(al), Y = tan(be), d = sqrt(1 + X*X + Y*Y);
	for (int n = 0; n < 3; n++) {
		double q = AX[p][2][n] + X * AX[p][0][n] + Y * AX[p][1][n];
		r.x[n] = q / d;
		ea.x[n] = (1 + X*X) * (AX[p][0][n] / d - q * X / (d*d*d));
		eb.x[n] = (1 + Y*Y) * (AX[p][1][n] / d - q * Y / (d*d*d)); }
}
static bool covariant(const std::string & ty) {
#ifdef PROGNOSTIC_CONTRAVARIANT_MOMENTA
	if (ty == "state") return false;
#endif
	return true;
}
static void toPanel(bool cov, int p, double al, double be, const V3 & v, double & u1, double & u2) {
	V3 r, a, b; frame(p, al, be, r, a, b);
	double ca = dot(v, a), cb = dot(v, b);
	if (cov) { u1 = ca; u2 = cb; return; }
	double g11 = dot(a, a), g12 = dot(a, b), g22 = dot(b, b), D = g11 * g22 - g12 * g12;
	u1 = (g22 * ca - g12 * cb) / D; u2 = (g11 * cb - g12 * ca) / D;
}
static V3 toSpace(bool cov, int p, double al, double be, double u1, double u2) {
	V3 r, a, b; frame(p, al, be, r, a, b);
	if (cov) { double g11 = dot(a, a), g12 = dot(a, b), g22 = dot(b, b), D = g11 * g22 - g12 * g12, c = (g22 * u1 - g12 * u2) / D; u2 = (g11 * u2 - g12 * u1) / D; u1 = c; }
	V3 v; for (int n = 0; n < 3; n++) v.x[n] = u1 * a.x[n] + u2 * b.x[n];
	return v;
}
static std::vector<double> gll(int n) {   // nodes on [0, 1]
	if (n == 2) return {0, 1};
	if (n == 3) return {0, 0.5, 1};
	double s = sqrt(0.2) / 2; return {0, 0.5 - s, 0.5 + s, 1};
}
static double at(int A, int n) {   // equiangular coordinate of node A of a line of n elements
	std::vector<double> g = gll(gs.hOrd); int e = A >= 0 ? A / gs.hOrd : -((-A - 1) / gs.hOrd) - 1;
	return -M_PI / 4 + (e + g[A - e * gs.hOrd]) * M_PI / 2 / n;
}
static const double VSCALE = 1000.0;
static std::vector<VL> space3(const std::string & ty, int inst, bool & odd) {   // rows level by level, x y z
	std::vector<VL> r; int K = ty == "topo" ? 1 : gs.nLev; bool cov = covariant(ty);
	for (int k = 0; k < K; k++) { VL v[3]; for (int n = 0; n < 3; n++) v[n].assign((size_t) NP * NA * NB, 0);
		for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
			Arr a0 = arr(p, ty, inst, 0), a1 = ty == "topo" ? a0 : arr(p, ty, inst, 1); int k1 = ty == "topo" ? 1 : k;
			cells(b, [&](int i, int j, int A, int B) { if (!inside(b, i, j)) return;
				V3 s = toSpace(cov, b.GetPanel(), at(A, gs.resA), at(B, gs.resA), a0.p[cell(b, i, j) * a0.K + k], a1.p[cell(b, i, j) * a1.K + k1]);
				for (int m = 0; m < 3; m++) { double x = s.x[m] * VSCALE; if (!(fabs(x) < 1e9)) { odd = true; x = 999999999; } v[m][nodeId(b.GetPanel(), A, B)] += llround(x); } }); }
		for (int n = 0; n < 3; n++) r.push_back(reduce(v[n])); }
	return r;
}
static void vec(const std::string & ty, int inst, int salt) {
	bool cov = covariant(ty), odd = false;
	fillRandom(ty, inst, salt, -400, 400, 12, 7.0e8);
	for (int n = 0; n < grid->GetActivePatchCount(); n++) { GridPatch * p = grid->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
		Arr a0 = arr(p, ty, inst, 0), a1 = ty == "topo" ? a0 : arr(p, ty, inst, 1);
		cells(b, [&](int i, int j, int A, int B) { for (int k = 0; k < (ty == "topo" ? 1 : gs.nLev); k++) {
			double & x = a0.p[cell(b, i, j) * a0.K + k]; double & y = a1.p[cell(b, i, j) * a1.K + (ty == "topo" ? 1 : k)];
			if (!inside(b, i, j)) { x = y = 7.0e8; continue; }
			unsigned h = mix(mix(salt, k * 5 + inst), nodeId(b.GetPanel(), A, B));
			V3 v; for (int m = 0; m < 3; m++) { h = mix(h, m + 11); v.x[m] = (double) ((int) (h % 2001u) - 1000); }
			toPanel(cov, b.GetPanel(), at(A, gs.resA), at(B, gs.resA), v, x, y); } }); }
	std::vector<VL> pre = space3(ty, inst, odd);
	VD before = snapshot(ty, inst, true); bool exc = false;
	try { grid->PostProcessSubstage(inst, dtype(ty)); } catch (Exception & x) { exc = true; }
	bool sm = same(before, snapshot(ty, inst, true)), o = false;
	std::vector<VL> post = space3(ty, inst, o);
	o = any(o); bool ex = any(exc), s = !any(!sm);
	if (rank == 0) Ev("vec").str("type", ty).b("exc", ex).b("odd", o).b("same", s).raw("pre", js(pre)).raw("post", js(post)).emit();
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
	quiet();
	std::vector<std::string> in = readlines(argv[1]);
	std::string o = argv[2]; if (np > 1) o += "." + std::to_string(rank);
	out = fopen(o.c_str(), "w");
	int salt = 0;
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w.size() == 0) continue;
		if (w[0] == "scenario" || w[0] == "end") { sched::flush(); if (model) { delete model; model = NULL; grid = NULL; } sched::x = -1; }
		if (w[0] == "scenario") { scn = W(w, 1); salt = 0; Ev("begin").emit(); continue; }
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "cfg") { if (rank == 0) Ev("cfg").raw("c", in[k].substr(4)).emit(); continue; }
		if (w[0] == "grid") {   // cube nPatch resA resB ord halo stag nLev eq tracers bcR bcT bcL bcB
			gs = GridSpec(); gs.cube = W(w, 1) != 0; gs.nPatch = W(w, 2); gs.resA = W(w, 3); gs.resB = W(w, 4); gs.hOrd = W(w, 5); gs.stag = W(w, 7); gs.nLev = W(w, 8); gs.vOrd = gs.stag == Grid::VerticalStaggering_Interfaces ? 2 : 1; nTr = W(w, 10);
			for (int x = 0; x < 4; x++) gs.bc[x] = W(w, 11 + x);
			NP = gs.cube ? 6 : 1; NA = gs.resA * gs.hOrd; NB = (gs.cube ? gs.resA : gs.resB) * gs.hOrd;
			EquationSet eqn(W(w, 9) ? EquationSet::PrimitiveNonhydrostaticEquations : EquationSet::ShallowWaterEquations);
			for (int t = 0; t < nTr; t++) eqn.InsertTracer("T" + std::to_string(t), "tracer");
			bool ref = false; std::string why;
			model = new Model(eqn);
			model->SetTimestepScheme(new StubScheme(*model, nInst)); model->SetHorizontalDynamics(new StubH(*model, W(w, 6))); model->SetVerticalDynamics(new StubV(*model));
			try { grid = makeGrid(*model, gs); fillAll(); } catch (Exception & x) { ref = true; why = x.ToString(); }
			bool r = any(ref);
			layout(r, why);
			if (r) grid = NULL;
			continue;
		}
		if (!grid) continue;
		if (w[0] == "plan") {    // plan late sync defer[np] prio[np]: one line for every exchange and process
			if (W(w, 1) != rank) continue;
			sched::Exchange e; e.late = W(w, 2); e.sync = W(w, 3) != 0;
			for (int r = 0; r < np; r++) e.defer.push_back(W(w, 4 + r));
			for (int r = 0; r < np; r++) e.prio.push_back(W(w, 4 + np + r));
			sched::plan.push_back(e); sched::on = true; continue;
		}
		if (w[0] == "proto") { protocol(); continue; }
		if (w[0] == "exch") { exch(w, salt); continue; }
		salt++;
		if (w[0] == "area") area();
		else if (w[0] == "vec") vec(w[1], W(w, 2), salt);
		else if (w[0] == "dss") dss(w[1], W(w, 2), salt);
		else if (w[0] == "sum") sums(w[1], W(w, 2), W(w, 3), salt);
		else if (w[0] == "copy" || w[0] == "zero" || w[0] == "lin") comb(w);
	}
	fclose(out);
	MPI_Finalize();
	return 0;
}
