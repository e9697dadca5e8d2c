// Panel coordinates of the cube: maps, directions, cells, vectors, areas.
#include "vp.h"
#include "Exception.h"
#include "CubedSphereTrans.h"
#include "Direction.h"
using namespace vp;
typedef std::vector<long long> VL;
static const int AX[6][3][3] = { {{0,1,0},{0,0,1},{1,0,0}}, {{-1,0,0},{0,0,1},{0,1,0}}, {{0,-1,0},{0,0,1},{-1,0,0}},
	{{1,0,0},{0,0,1},{0,-1,0}}, {{0,1,0},{-1,0,0},{0,0,1}}, {{0,1,0},{1,0,0},{0,0,-1}} };
struct V3 { double x[3]; };
static double dot(const V3 & a, const V3 & b) { return a.x[0]*b.x[0] + a.x[1]*b.x[1] + a.x[2]*b.x[2]; }
static std::string js(const VL & v) { std::string q = "["; for (size_t n = 0; n < v.size(); n++) { if (n) q += ","; q += std::to_string(v[n]); } return q + "]"; }
static long long fix(double x, double s = 1.0e6) { x *= s; if (!(x > -3.0e7)) return -30000000; if (!(x < 3.0e7)) return 30000000; return llround(x); }
static void at(int p, double X, double Y, V3 & r, V3 & a, V3 & b) {   // unit position, d/dalpha, d/dbeta
	double d = sqrt(1 + X*X + Y*Y);
	for (int n = 0; n < 3; n++) {
		double q = AX[p][2][n] + X * AX[p][0][n] + Y * AX[p][1][n];
		r.x[n] = q / d; a.x[n] = (1 + X*X) * (AX[p][0][n] / d - q * X / (d*d*d)); b.x[n] = (1 + Y*Y) * (AX[p][1][n] / d - q * Y / (d*d*d)); }
}
static V3 comb(double x, const V3 & a, double y, const V3 & b) { V3 v; for (int n = 0; n < 3; n++) v.x[n] = x * a.x[n] + y * b.x[n]; return v; }
static V3 dec(bool cov, double u, double w, const V3 & a, const V3 & b) {
	if (cov) { double g11 = dot(a,a), g12 = dot(a,b), g22 = dot(b,b), D = g11*g22 - g12*g12, c = (g22*u - g12*w) / D; w = (g11*w - g12*u) / D; u = c; }
	return comb(u, a, w, b);
}
static void enc(bool cov, const V3 & v, const V3 & a, const V3 & b, double & u, double & w) {
	u = dot(v, a); w = dot(v, b);
	if (!cov) { double g11 = dot(a,a), g12 = dot(a,b), g22 = dot(b,b), D = g11*g22 - g12*g12, c = (g22*u - g12*w) / D; w = (g11*w - g12*u) / D; u = c; }
}
static void put(std::string & t, int id, int q, const V3 & in, const V3 & out_) {
	VL v = {id, q}; for (int n = 0; n < 3; n++) v.push_back(fix(in.x[n], 1.0e3)); for (int n = 0; n < 3; n++) v.push_back(fix(out_.x[n], 1.0e3));
	if (t.size()) t += ","; t += js(v);
}
static unsigned seed = 1;
static double rnd() { seed = seed * 1664525u + 1013904223u; return (int) ((seed >> 8) % 2001u) - 1000; }
static const double BADV = 1.0e9;
static void points(int p, int n, int reach) {
	for (int x = -reach; x <= reach; x++) {
		std::string rows;
		for (int y = -reach; y <= reach; y++) {
			double X = (double) x / n, Y = (double) y / n, lon = 99, lat = 99, lon2 = 99, lat2 = 99; bool exc = false;
			try { CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat); CubedSphereTrans::RLLFromABP(atan(X), atan(Y), p, lon2, lat2); } catch (Exception & e) { exc = true; }
			VL r = {fix(cos(lon)*cos(lat)), fix(sin(lon)*cos(lat)), fix(sin(lat)), fix(cos(lon2)*cos(lat2)), fix(sin(lon2)*cos(lat2)), fix(sin(lat2)), fix(lon), fix(lat), fix(lon2), fix(lat2)};
			double xx = 9, yy = 9, zz = 9; try { CubedSphereTrans::XYZFromXYP(X, Y, p, xx, yy, zz); } catch (Exception & e) { exc = true; }
			VL c = {fix(xx), fix(yy), fix(zz)};
			std::string home, to, vec;
			if (abs(x) <= n && abs(y) <= n) {
				V3 R, a, b; at(p, X, Y, R, a, b);
				double ln = atan2(R.x[1], R.x[0]), lt = atan2(R.x[2], sqrt(R.x[0]*R.x[0] + R.x[1]*R.x[1]));
				for (int k = 0; k < 5; k++) {
					int q = -7, q2 = -7; double A = 9, B = 9, A2 = 9, B2 = 9, L = k == 0 ? ln : k == 1 ? ln + 2 * M_PI : k == 2 ? ln - 2 * M_PI : lon, T = k > 2 ? lat : lt;
					if (k == 4) { L = lon2; T = lat2; }
					try { CubedSphereTrans::XYPFromRLL(L, T, A, B, q); CubedSphereTrans::ABPFromRLL(L, T, A2, B2, q2); } catch (Exception & e) { exc = true; }
					VL h = {q, fix(A), fix(B), q2, fix(tan(A2)), fix(tan(B2))}; home += (k ? "," : "") + js(h);
				}
			}
			for (int q = 0; q < 6; q++) {
				double A = 9, B = 9; bool no = false;
				try { CubedSphereTrans::XYPFromXYP(X, Y, p, q, A, B); } catch (Exception & e) { no = true; }
				VL t = {q, no, no ? 0 : fix(A), no ? 0 : fix(B)}; to += (q ? "," : "") + js(t);
			}
			V3 R, a, b; at(p, X, Y, R, a, b);
			double ln = atan2(R.x[1], R.x[0]); if (p > 3 && x == 0 && y == 0) ln = lon;
			double lt = atan2(R.x[2], sqrt(R.x[0]*R.x[0] + R.x[1]*R.x[1]));
			V3 el = {{-sin(ln), cos(ln), 0}}, et = {{-sin(lt)*cos(ln), -sin(lt)*sin(ln), cos(lt)}};
			for (int cov = 0; cov < 2; cov++) {
				double ul = rnd(), ut = rnd(), u = BADV, w = BADV;
				try { if (cov) CubedSphereTrans::CoVecTransABPFromRLL(X, Y, p, ul, ut, u, w); else CubedSphereTrans::VecTransABPFromRLL(X, Y, p, ul, ut, u, w); } catch (Exception & e) { exc = true; }
				put(vec, cov * 2, p, comb(ul, el, ut, et), dec(cov, u, w, a, b));
				V3 v = {{rnd(), rnd(), rnd()}}; enc(cov, v, a, b, u, w); V3 vt = dec(cov, u, w, a, b); ul = ut = BADV;
				try { if (cov) CubedSphereTrans::CoVecTransRLLFromABP(X, Y, p, u, w, ul, ut); else CubedSphereTrans::VecTransRLLFromABP(X, Y, p, u, w, ul, ut); } catch (Exception & e) { exc = true; }
				put(vec, cov * 2 + 1, p, vt, comb(ul, el, ut, et));
				for (int q = 0; q < 6; q++) {
					double D = 0, E = 0, F = 0; for (int m = 0; m < 3; m++) { D += AX[q][2][m] * R.x[m]; E += AX[q][0][m] * R.x[m]; F += AX[q][1][m] * R.x[m]; }
					if (q == p || D < 0.02) continue;
					if (AX[q][2][0] == -AX[p][2][0] && AX[q][2][1] == -AX[p][2][1] && AX[q][2][2] == -AX[p][2][2]) continue;
					V3 R2, a2, b2; at(q, E / D, F / D, R2, a2, b2);
					V3 s = {{rnd(), rnd(), rnd()}}; enc(cov, s, a2, b2, u, w); V3 st = dec(cov, u, w, a2, b2);
					try { if (cov) CubedSphereTrans::CoVecPanelTrans(q, p, u, w, X, Y); else CubedSphereTrans::VecPanelTrans(q, p, u, w, X, Y); } catch (Exception & e) { u = w = BADV; }
					put(vec, 4 + cov, q, st, dec(cov, u, w, a, b));
				}
			}
			rows += (rows.size() ? "," : "") + ("{\"y\":" + std::to_string(y)) + ",\"exc\":" + (exc ? "true" : "false") + ",\"r\":" + js(r) + ",\"c\":" + js(c) + ",\"home\":[" + home + "],\"to\":[" + to + "],\"vec\":[" + vec + "]}";
		}
		Ev("points").i("p", p).i("n", n).i("x", x).raw("rows", "[" + rows + "]").emit();
	}
}
static int dirOr(int (*f)(int, int, int), int a, int b, int c) { try { return f(a, b, c); } catch (Exception & e) { return -9; } }
static int fPfd(int p, int d, int) { return CubedSphereTrans::PanelFromDirection(p, (Direction) d); }
static int fDfp(int p, int q, int) { return CubedSphereTrans::DirectionFromPanel(p, q); }
static int fOpp(int p, int q, int d) { return CubedSphereTrans::OpposingDirection(p, q, (Direction) d); }
static int fRp(int p, int d, int w) { int r = -9; Direction o = Direction_Unreachable; CubedSphereTrans::RelativePanel(p, (Direction) d, r, o); return w ? (int) o : r; }
static int fRev(int d, int, int) { return DirectionOpposite((Direction) d); }
static int fInc(int d, int w, int) { int i = 10, j = 20; DirectionIncrement((Direction) d, i, j); return w ? j - 20 : i - 10; }
static void dirs() {
	std::string t;
	for (int p = 0; p < 6; p++) {
		VL pfd, rp, rd; for (int d = -1; d < 4; d++) pfd.push_back(dirOr(fPfd, p, d, 0)); for (int d = 0; d < 4; d++) { rp.push_back(dirOr(fRp, p, d, 0)); rd.push_back(dirOr(fRp, p, d, 1)); }
		std::string opp; VL dfp;
		for (int q = 0; q < 6; q++) { dfp.push_back(dirOr(fDfp, p, q, 0)); VL o; for (int d = -1; d < 8; d++) o.push_back(dirOr(fOpp, p, q, d)); opp += (q ? "," : "") + js(o); }
		t += (p ? "," : "") + ("{\"pfd\":" + js(pfd)) + ",\"rp\":" + js(rp) + ",\"rd\":" + js(rd) + ",\"dfp\":" + js(dfp) + ",\"opp\":[" + opp + "]}";
	}
	VL rev, ia, ib; for (int d = -2; d < 8; d++) rev.push_back(dirOr(fRev, d, 0, 0)); for (int d = -1; d < 8; d++) { ia.push_back(dirOr(fInc, d, 0, 0)); ib.push_back(dirOr(fInc, d, 1, 0)); }
	Ev("dirs").raw("p", "[" + t + "]").arr("rev", rev).arr("ia", ia).arr("ib", ib).emit();
}
static void cells(int p, int n) {
	std::string t;
	for (int i = -n; i < 2 * n; i++) for (int j = -n; j < 2 * n; j++) {
		int q = -7, a = -7, b = -7; bool s = true, r = true, x = true;
		try { CubedSphereTrans::RelativeCoord(n, p, i, j, q, a, b, s, r, x); } catch (Exception & e) { q = -9; }
		VL v = {q, a, b, s, r, x}; if (t.size()) t += ","; t += js(v);
	}
	Ev("cells").i("p", p).i("n", n).raw("v", "[" + t + "]").emit();
}
static void areas(int n) {     // cells of a face, in millionths of the sphere's radius squared; and with radius 3
	VL v, w; double tot = 0;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		double a = CubedSphereTrans::GnomonicElementArea(-1.0 + 2.0 * i / n, 2.0 / n, -1.0 + 2.0 * j / n, 2.0 / n); tot += a;
		v.push_back(fix(a)); w.push_back(fix(CubedSphereTrans::GnomonicElementArea(-1.0 + 2.0 * i / n, 2.0 / n, -1.0 + 2.0 * j / n, 2.0 / n, 3.0))); }
	Ev("areas").i("n", n).arr("v", v).arr("w", w).i("whole", fix(tot)).emit();
}
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]); out = fopen(argv[2], "w");
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]); if (w.empty()) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); seed = 12345 + scn * 7919; Ev("begin").emit(); }
		else if (w[0] == "dirs") dirs();
		else if (w[0] == "cells") cells(atoi(w[1].c_str()), atoi(w[2].c_str()));
		else if (w[0] == "points") points(atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str()));
		else if (w[0] == "areas") areas(atoi(w[1].c_str()));
		else if (w[0] == "end") { Ev("end").emit(); break; }
	}
	fclose(out); return 0;
}
