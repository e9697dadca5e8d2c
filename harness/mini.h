// Small models for the drivers: stub physics on real grids, built the way TempestInitialize.h does.
#ifndef MINI_H
#define MINI_H
#include "vp.h"
#include <mpi.h>
#include "Exception.h"
#include "Announce.h"
#include "Model.h"
#include "TimestepScheme.h"
#include "HorizontalDynamics.h"
#include "VerticalDynamics.h"
#include "OutputManager.h"
#include "WorkflowProcess.h"
#include "TestCase.h"
#include "GridCSGLL.h"
#include "GridCartesianGLL.h"
#include "GridPatch.h"
#include "EquationSet.h"
#include "UserDataMeta.h"
#include "FunctionTimer.h"
#include "VerticalStretch.h"

class StubH : public HorizontalDynamics {
public:
	int halo, inst;
	StubH(Model & m, int h = 1, int n = 0) : HorizontalDynamics(m), halo(h), inst(n) {}
	virtual int GetHaloElements() const { return halo; }
	virtual int GetComponentDataInstances() const { return inst; }
};
class StubV : public VerticalDynamics {
public:
	StubV(Model & m) : VerticalDynamics(m) {}
};
class StubScheme : public TimestepScheme {
public:
	int n;
	StubScheme(Model & m, int inst = 3) : TimestepScheme(m), n(inst) {}
	virtual int GetComponentDataInstances() const { return n; }
	virtual int GetTracerDataInstances() const { return n; }
	virtual void Step(bool, bool, const Time &, double) {}
};
// A state that is a smooth function of position; refstate and tracers optional.
class StubTest : public TestCase {
public:
	int nState, nTracer; double ztop;
	StubTest(int ns, int nt, double z = 1.0) : nState(ns), nTracer(nt), ztop(z) {}
	virtual double GetZtop() const { return ztop; }
	virtual void EvaluatePointwiseState(const PhysicalConstants & phys, const Time & time,
		double dZ, double dLon, double dLat, double * dState, double * dTracer) const {
		for (int c = 0; c < nState; c++) dState[c] = 1.0;
		for (int c = 0; c < nTracer; c++) dTracer[c] = 1.0;
	}
};
struct GridSpec {
	bool cube; int nLev, nPatch, resA, resB, hOrd, vOrd, stag, disc, xz, maxPatch; int bc[4];
	GridSpec() : cube(true), nLev(1), nPatch(6), resA(2), resB(2), hOrd(4), vOrd(1), stag(Grid::VerticalStaggering_Levels),
		disc(Grid::VerticalDiscretization_FiniteElement), xz(0), maxPatch(0) { for (int i = 0; i < 4; i++) bc[i] = 0; }
};
template <class CS = GridCSGLL, class CA = GridCartesianGLL>
inline Grid * makeGrid(Model & model, const GridSpec & g, bool connect = true) {
	int np = g.maxPatch ? g.maxPatch : (g.cube && g.nPatch < 6 ? 6 : g.nPatch);
	Grid * pg;
	if (g.cube) {
		CS * p = new CS(model);
		p->DefineParameters();
		p->SetParameters(g.nLev, np, g.resA, 4, g.hOrd, g.vOrd, g.disc, g.stag);
		p->InitializeDataLocal();
		pg = p;
	} else {
		double dim[6] = {0.0, 1000.0, 0.0, 1000.0, 0.0, 1000.0};
		int bc[4] = {g.bc[0], g.bc[1], g.bc[2], g.bc[3]};
		CA * p = new CA(model);
		p->DefineParameters();
		p->SetParameters(g.nLev, np, g.resA, g.resB, 4, g.hOrd, g.vOrd, dim, 0.0, bc, g.xz != 0, g.disc, g.stag);
		p->InitializeDataLocal();
		pg = p;
	}
	model.SetGrid(pg, g.nPatch, connect);
	return pg;
}
static inline void quiet() { AnnounceSetOutputBuffer(fopen("/dev/null", "w")); }
#endif
