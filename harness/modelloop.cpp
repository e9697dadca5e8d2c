// Replays configurations of ModelLoop.tla on the real Model::Go with recording components.
#include "mini.h"
using namespace vp;
static std::vector<long long> tv(const Time & t) {
	std::vector<long long> v; v.push_back(t.GetYear()); v.push_back(t.GetMonth() - 1); v.push_back(t.GetDay() - 1);
	v.push_back(t.GetSecond()); v.push_back(t.GetMicroSecond()); return v;
}
static std::vector<long long> split(double d) {
	double D = floor(d / 86400.0), r = d - D * 86400.0, S = floor(r), U = floor((r - S) * 1.0e6 + 0.5);
	if (U >= 1e6) { U -= 1e6; S += 1; }
	if (S >= 86400) { S -= 86400; D += 1; }
	std::vector<long long> v; v.push_back((long long) D); v.push_back((long long) S); v.push_back((long long) U); return v;
}
class RecScheme : public StubScheme {
public:
	RecScheme(Model & m) : StubScheme(m, 1) {}
	virtual void Initialize() { Ev("begin").emit(); }
	virtual void Step(bool f, bool l, const Time & t, double dt) {
		Ev("step").b("first", f).b("last", l).arr("t", tv(t)).arr("dt", split(dt)).arr("cur", tv(m_model.GetCurrentTime())).emit();
	}
};
class RecProc : public WorkflowProcess {
public:
	int id;
	RecProc(Model & m, const Time & f, int i) : WorkflowProcess(m, f), id(i) {}
	virtual void Initialize(const Time & t) { Ev("pinit").i("i", id).arr("t", tv(t)).emit(); WorkflowProcess::Initialize(t); }
	virtual void Perform(const Time & t) { Ev("perform").i("i", id).arr("t", tv(t)).emit(); WorkflowProcess::Perform(t); }
};
class RecOut : public OutputManager {
public:
	int id;
	RecOut(Grid & g, const Time & f, int n, int i, bool restart) : OutputManager(g, f, "/tmp", "pre" + std::to_string(i), n), id(i) { m_fFromRestartFile = restart; }
	virtual bool OpenFile(const std::string & s) { Ev("open").i("i", id).chars("name", s).emit(); return true; }
	virtual void CloseFile() { Ev("close").i("i", id).emit(); }
	virtual void Output(const Time & t) { Ev("output").i("i", id).arr("t", tv(t)).emit(); }
};
static Time mk(const std::vector<std::string> & w, int k, Time::TimeType ty) {
	return Time(atoi(w[k].c_str()), atoi(w[k+1].c_str()), atoi(w[k+2].c_str()), atoi(w[k+3].c_str()), atoi(w[k+4].c_str()), Time::CalendarNoLeap, ty);
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	quiet();
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	Time t0, t1, dt; std::vector<std::vector<std::string> > comps;
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w.size() == 0) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); comps.clear(); continue; }
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "cfg") { Ev("cfg").raw("c", in[k].substr(4)).emit(); continue; }
		if (w[0] == "start") { t0 = mk(w, 1, Time::TypeFixed); continue; }
		if (w[0] == "stop") { t1 = mk(w, 1, Time::TypeFixed); continue; }
		if (w[0] == "dt") { dt = mk(w, 1, Time::TypeDelta); continue; }
		if (w[0] == "out" || w[0] == "proc") { comps.push_back(w); continue; }
		if (w[0] != "go") continue;
		bool exc = false;
		Model model(EquationSet::ShallowWaterEquations);
		model.SetStartTime(t0); model.SetEndTime(t1); model.SetDeltaT(dt);
		model.SetTimestepScheme(new RecScheme(model));
		model.SetHorizontalDynamics(new StubH(model));
		model.SetVerticalDynamics(new StubV(model));
		GridSpec g; g.cube = false; g.nPatch = 1; g.resA = 1; g.resB = 1; g.hOrd = 2; g.stag = Grid::VerticalStaggering_Levels;
		Grid * pg = makeGrid(model, g);
		int io = 0, ip = 0;
		for (size_t c = 0; c < comps.size(); c++) {
			Time f = mk(comps[c], 1, Time::TypeDelta);
			if (comps[c][0] == "out") model.AttachOutputManager(new RecOut(*pg, f, atoi(comps[c][6].c_str()), ++io, comps[c][7] == "1"));
			else model.AttachWorkflowProcess(new RecProc(model, f, ++ip));
		}
		model.SetTestCase(new StubTest(3, 0));
		try { model.Go(); } catch (Exception & x) { exc = true; }
		Ev("gone").b("exc", exc).emit();
	}
	fclose(out);
	MPI_Finalize();
	return 0;
}
