// The vertical column of a grid: where levels and interfaces lie, what their areas are, how exact every operator is.
#include "realmodel.h"
#include "GridSpacing.h"
#include "VerticalStretch.h"
#include <functional>
using namespace vp;
typedef std::vector<long long> VL;
static const int MAXD = 8;
static const double SMALL = 1.0e-7;
static long long fix(double x, double s = 1.0e8) { x *= s; if (!(x > -2.0e9)) return -2000000000; if (!(x < 2.0e9)) return 2000000000; return llround(x); }
static std::vector<double> all(const DataArray1D<double> & a) { std::vector<double> v; for (size_t n = 0; n < a.GetRows(); n++) v.push_back(a[n]); return v; }
static VL fixed(const std::vector<double> & a) { VL v; for (double x : a) v.push_back(fix(x)); return v; }
typedef std::function<std::vector<double>(const std::vector<double> &)> Op;
// how many of the first monomials about each place come out as they should; kind: how many times differentiated; zb: 0 or functions that vanish at the ends
static VL exact(const std::vector<double> & from, const std::vector<double> & to, const std::vector<double> & width, int kind, const Op & op, bool zb = false) {
	VL deg(to.size(), 0);
	for (size_t r = 0; r < to.size(); r++) {
		double H = width[r]; int d = 0;
		for (; d < MAXD; d++) {
			std::vector<double> in; double c = to[r], want;
			if (!zb) {
				for (double x : from) in.push_back(pow((x - c) / H, d));
				want = d == kind ? (kind == 2 ? 2.0 : 1.0) : 0.0;
			} else {      // x(1-x) times a monomial about the place
				for (double x : from) in.push_back(x * (1.0 - x) * pow((x - c) / H, d));
				want = d == 0 ? (1.0 - 2.0 * c) * H : d == 1 ? c * (1.0 - c) : 0.0;
			}
			double got = op(in)[r] * (kind == 2 ? H * H : kind == 1 ? H : 1.0);
			if (!(fabs(got - want) < SMALL)) break;
		}
		deg[r] = d;
	}
	return deg;
}
// every way of applying an operator gives the same column
template <class O> static bool same(const O & o, size_t nin, size_t nout) {
	std::vector<double> in(nin), ref(nin), a(nout), b(nout, -7.0), refout(nout), in3(3 * nin), ref3(3 * nin), c3(2 * nout + 2, 5.0), refo2(2 * nout + 2, 0.0), w(nout), w3(2 * nout + 2, 5.0); bool ok = true;
	for (size_t n = 0; n < nin; n++) { in[n] = sin(1.0 + 3.7 * n); ref[n] = cos(2.0 + 1.3 * n); in3[3 * n] = in[n]; ref3[3 * n] = ref[n]; in3[3 * n + 1] = in3[3 * n + 2] = 1.0e9; ref3[3 * n + 1] = ref3[3 * n + 2] = 1.0e8; }
	for (size_t n = 0; n < nout; n++) { refout[n] = 0.3 + n; refo2[2 * n] = refout[n]; refo2[2 * n + 1] = 1.0e9; }
	const DataArray2D<double> & C = o.GetCoeffs();
	for (size_t n = 0; n < nout; n++) { a[n] = 0.0; w[n] = refout[n]; for (size_t m = 0; m < nin; m++) { a[n] += C[n][m] * in[m]; w[n] += C[n][m] * (in[m] - ref[m]); } }
	double tol = 0.0; for (size_t n = 0; n < nout; n++) { double s = 1.0; for (size_t m = 0; m < nin; m++) s += fabs(C[n][m]); if (s > tol) tol = s; } tol *= 1.0e-11;
	o.Apply(&in[0], &b[0]); for (size_t n = 0; n < nout; n++) ok = ok && fabs(a[n] - b[n]) < tol;
	o.Apply(&in3[0], &c3[0], 3, 2); for (size_t n = 0; n < nout; n++) ok = ok && fabs(a[n] - c3[2 * n]) < tol && c3[2 * n + 1] == 5.0;
	o.ApplyWithRef(&in[0], &ref[0], &b[0], &refout[0]); for (size_t n = 0; n < nout; n++) ok = ok && fabs(w[n] - b[n]) < tol;
	o.ApplyWithRef(&in3[0], &ref3[0], &w3[0], &refo2[0], 3, 2); for (size_t n = 0; n < nout; n++) ok = ok && fabs(w[n] - w3[2 * n]) < tol && w3[2 * n + 1] == 5.0;
	for (size_t n = 0; n < nout; n++) ok = ok && fabs(o.Apply(&in[0], n) - a[n]) < tol && fabs(o.Apply(&in3[0], n, 3) - a[n]) < tol && fabs(o.Apply(&in3[0], &ref3[0], refout[n], n, 3) - w[n]) < tol;
	return ok;
}
static Model * model = NULL; static Case cs;
static void column(const std::vector<std::string> & w) {
	bool fv = w[1] == "FV"; std::string stag = w[2]; int vord = atoi(w[3].c_str()), fe = atoi(w[4].c_str()); std::string st = w[5];
	int lev = fv ? fe : stag == "INT" ? fe * (vord - 1) + 1 : fe * vord;
	cs.v["vdisc"] = w[1]; cs.v["stag"] = stag; cs.v["vord"] = w[3]; cs.v["lev"] = std::to_string(lev); cs.v["stretch"] = st; cs.v["eq"] = "nh"; cs.v["geom"] = "ca"; cs.v["res"] = "1"; cs.v["resb"] = "1"; cs.v["ord"] = "2"; cs.v["topo"] = "0"; cs.v["scheme"] = "erk"; cs.v["expl"] = "1"; cs.v["patches"] = "1";
	Ev e("column"); e.str("disc", w[1]).str("stag", stag).i("vord", vord).i("fe", fe).str("stretch", st).i("lev", lev);
	try {
		Model * m = build(cs, 1, 1, "", false).model;
		GridGLL * g = dynamic_cast<GridGLL *>(m->GetGrid());
		std::vector<double> L = all(g->m_dREtaLevels), I = all(g->m_dREtaInterfaces);
		bool ints = stag == "INT" && !fv;
		std::vector<double> edge; int per = fv ? 1 : ints ? vord - 1 : vord; for (int a = 0; a <= fe; a++) edge.push_back((ints ? L : I)[a * per]);
		// local width: the element, or as many volumes as the order asks for
		auto width = [&](const std::vector<double> & to) { std::vector<double> q; for (double x : to) { int a = 0; while (a < fe - 1 && x > edge[a + 1]) a++; double h = edge[a + 1] - edge[a]; if (a < fe - 1 && x > edge[a + 1] - 1.0e-9) h = std::max(h, edge[a + 2] - edge[a + 1]); q.push_back(h); } return q; };
		std::vector<double> hl = width(L), hi = width(I);
		e.i("ok", 1).arr("at", fixed(L)).arr("edge", fixed(I)).arr("la", fixed(all(g->m_dREtaLevelsNormArea))).arr("ia", fixed(all(g->m_dREtaInterfacesNormArea)));
		// integrals of monomials over each element
		VL ql, qi;
		for (int which = 0; which < 2; which++) for (int a = 0; a < fe; a++) {
			const std::vector<double> & P = which ? I : L; std::vector<double> A = all(which ? g->m_dREtaInterfacesNormArea : g->m_dREtaLevelsNormArea); if (which && ints) break;
			bool shared = which || ints; int n0 = a * per, n1 = shared ? n0 + per : n0 + per - 1, d = 0; double h = edge[a + 1] - edge[a], x0 = edge[a];
			for (; d < MAXD; d++) { double s = 0.0;
				for (int n = n0; n <= n1; n++) { double ar = A[n]; if (shared && n == n0 && a > 0) ar *= h / (edge[a + 1] - edge[a - 1]); if (shared && n == n1 && a < fe - 1) ar *= h / (edge[a + 2] - edge[a]); s += ar / h * pow((P[n] - x0) / h, d); }
				if (!(fabs(s - 1.0 / (d + 1)) < SMALL)) break; }
			(which ? qi : ql).push_back(d);
		}
		e.arr("ql", ql).arr("qi", qi);
		std::vector<std::string> names; std::string ops; bool ok = true; size_t nl = L.size(), ni = I.size();
		auto put = [&](const char * name, const VL & v) { ops += std::string(ops.size() ? "," : "") + "\"" + name + "\":["; for (size_t n = 0; n < v.size(); n++) ops += std::string(n ? "," : "") + std::to_string(v[n]); ops += "]"; };
		auto row = [&](auto f, size_t n) { return Op([=](const std::vector<double> & in) { std::vector<double> o(n, 3.0e5); f(&in[0], &o[0]); return o; }); };
		put("nn", exact(L, L, hl, 1, row([g](const double * i, double * o) { g->DifferentiateNodeToNode(i, o); }, nl)));
		put("dnn", exact(L, L, hl, 2, row([g](const double * i, double * o) { g->DiffDiffNodeToNode(i, o); }, nl)));
		ok = ok && same(g->GetOpDiffNodeToNode(), nl, nl) && same(g->GetOpDiffDiffNodeToNode(), nl, nl);
		if (!ints) {
			put("ine", exact(L, I, hi, 0, row([g](const double * i, double * o) { g->InterpolateNodeToREdge(i, o, false); }, ni)));
			put("ien", exact(I, L, hl, 0, row([g](const double * i, double * o) { g->InterpolateREdgeToNode(i, o); }, nl)));
			put("nnz", exact(L, L, hl, 1, row([g](const double * i, double * o) { g->DifferentiateNodeToNode(i, o, true); }, nl), true));
			put("ne", exact(L, I, hi, 1, row([g](const double * i, double * o) { g->DifferentiateNodeToREdge(i, o); }, ni)));
			put("nez", exact(L, I, hi, 1, row([g](const double * i, double * o) { g->DifferentiateNodeToREdge(i, o); }, ni), true));
			put("en", exact(I, L, hl, 1, row([g](const double * i, double * o) { g->DifferentiateREdgeToNode(i, o); }, nl)));
			put("ee", exact(I, I, hi, 1, row([g](const double * i, double * o) { g->DifferentiateREdgeToREdge(i, o); }, ni)));
			put("dee", exact(I, I, hi, 2, row([g](const double * i, double * o) { g->DiffDiffREdgeToREdge(i, o); }, ni)));
			ok = ok && same(g->GetOpInterpNodeToREdge(), nl, ni) && same(g->GetOpInterpREdgeToNode(), ni, nl) && same(g->GetOpDiffNodeToREdge(), nl, ni) && same(g->GetOpDiffREdgeToNode(), ni, nl) && same(g->GetOpDiffREdgeToREdge(), ni, ni) && same(g->GetOpDiffDiffREdgeToREdge(), ni, ni);
			if (fe > 1) {       // the penalty of a polynomial
				std::vector<double> wt(fe, 1.0); VL p(nl, 0);
				for (size_t r = 0; r < nl; r++) for (int d = 0; d < MAXD; d++) { std::vector<double> in, o(nl, 0.0); for (double x : L) in.push_back(pow((x - L[r]) / hl[r], d)); g->GetOpPenaltyNodeToNode().Apply(&wt[0], &in[0], &o[0], 1, 1); if (!(fabs(o[r] * hl[r]) < SMALL)) break; p[r] = d + 1; }
				put("pen", p);
			} else put("pen", VL(nl, MAXD));
		}
		e.raw("ops", "{" + ops + "}").b("same", ok);
	} catch (Exception & x) { e.i("ok", 0).str("why", x.ToString().substr(0, 120)); }
	e.emit();
}
static void stretch(const std::vector<std::string> & w) {
	VerticalStretchFunction * f = w[1] == "cubic" ? (VerticalStretchFunction *) new VerticalStretchCubic : w[1] == "pwlinear" ? (VerticalStretchFunction *) new VerticalStretchPiecewiseLinear : new VerticalStretchUniform;
	int n = atoi(w[2].c_str()); VL v, d;
	for (int k = 0; k <= n; k++) { double a = -1, b = -1; (*f)((double) k / n, a, b); v.push_back(fix(a)); d.push_back(fix(b)); }
	delete f; Ev("stretch").str("kind", w[1]).i("n", n).arr("v", v).arr("d", d).emit();
}
static void spacing(const std::vector<std::string> & w) {   // kind order milli-delta milli-zero from count
	int o = atoi(w[2].c_str()), from = atoi(w[5].c_str()), n = atoi(w[6].c_str()); double dl = atoi(w[3].c_str()) / 1000.0, z = atoi(w[4].c_str()) / 1000.0; GridSpacing * s = NULL;
	if (w[1] == "uniform") s = new GridSpacingUniform(dl, z); if (w[1] == "lobatto") s = new GridSpacingGaussLobatto(dl, z, o); if (w[1] == "repeated") s = new GridSpacingGaussLobattoRepeated(dl, z, o); if (w[1] == "mixed") s = new GridSpacingMixedGaussLobatto(dl, z, o);
	VL a, b, c, d; for (int k = from; k < from + n; k++) { a.push_back(fix(s->GetNode(k), 1e6)); b.push_back(fix(s->GetEdge(k), 1e6)); c.push_back(fix(s->GetNodeNormArea(k), 1e6)); d.push_back(fix(s->GetEdgeNormArea(k), 1e6)); }
	delete s; Ev("spacing").str("kind", w[1]).i("ord", o).i("delta", atoi(w[3].c_str())).i("zero", atoi(w[4].c_str())).i("from", from).arr("node", a).arr("edge", b).arr("na", c).arr("ea", d).emit();
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv); out = fopen(argv[2], "w"); AnnounceOnlyOutputOnRankZero();
	for (const std::string & l : readlines(argv[1])) {
		std::vector<std::string> w = words(l); if (!w.size()) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); Ev("begin").emit(); }
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "column") column(w); if (w[0] == "stretch") stretch(w); if (w[0] == "spacing") spacing(w);
	}
	fclose(out); MPI_Finalize(); return 0;
}
