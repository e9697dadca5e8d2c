// Gives the command lines of CommandLine.tla to the real parser macros, each in a process of its own.
#include "vp.h"
#include "Exception.h"
#ifdef BASELIB
#include "../base/CommandLine.h"
#define LIB "base"
#else
#include "../atm/CommandLine.h"
#define LIB "atm"
#endif
#include "TimeObj.h"
#include <unistd.h>
#include <sys/wait.h>
using namespace vp;
static std::string tm5(const Time & t) {
	int o = (t.GetTimeType() == Time::TypeFixed) ? 1 : 0; char b[100];
	snprintf(b, 100, "[%d,%d,%d,%d,%d]", t.GetYear(), t.GetMonth() - o, t.GetDay() - o, t.GetSecond(), t.GetMicroSecond()); return b;
}
static std::string q1(const std::string & v) { Ev e("x"); e.s = ""; e.str("t", v); return e.s.substr(5); }
static void child(std::vector<std::string> a, const char * vals) {
	std::vector<char *> av; av.push_back((char *) "prog");
	for (auto & s : a) av.push_back((char *) s.c_str());
	av.push_back(NULL);
	int argc = av.size() - 1; char ** argv = &av[0];
	int n, nn; std::string name, outp; bool verbose, v; double nu, ztop; Time dt(Time::CalendarNoLeap, Time::TypeDelta), start(Time::CalendarNoLeap, Time::TypeFixed);
	BeginCommandLine()
		CommandLineInt(n, "n", 3);
		CommandLineString(name, "name", "none");
		CommandLineBool(verbose, "verbose");
		CommandLineBoolD(v, "v", "short");
#ifndef BASELIB
		CommandLineDeltaTime(dt, "dt", "100s");
#endif
		CommandLineDouble(nu, "nu", 1.5);
#ifndef BASELIB
		CommandLineFixedTime(start, "start", "1990-01-02");
#endif
		CommandLineIntD(nn, "nn", -1, "described");
		CommandLineStringD(outp, "out", "", "output");
		CommandLineDoubleD(ztop, "ztop", 0.0, "top");
		ParseCommandLine(argc, argv);
	EndCommandLine(argv)
	FILE * f = fopen(vals, "w");
	auto m = [](double d) { return fabs(d) < 2.0e6 ? (long long) floor(d * 1000.0 + 0.5) : -99; };
	fprintf(f, "[[%d],[%s],[%s],[%s],%s,[%lld],%s,[%d],[%s],[%lld]]", n, q1(name).c_str(), verbose ? "true" : "false", v ? "true" : "false", tm5(dt).c_str(), m(nu), tm5(start).c_str(), nn, q1(outp).c_str(), m(ztop));
	fclose(f);
}
static std::string slurp(const std::string & f) { std::ifstream in(f.c_str()); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::string list(const std::vector<std::string> & v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + q1(v[i]); return r + "]"; }
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	std::string fo = std::string(argv[2]) + ".o", fv = std::string(argv[2]) + ".v";
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); continue; }
		std::vector<std::string> a;
		for (size_t j = 1; j < w.size(); j++) a.push_back(unhex(w[j]));
		unlink(fv.c_str());
		fflush(NULL);
		pid_t p = fork();
		if (p == 0) { freopen(fo.c_str(), "w", stdout); alarm(20); try { child(a, fv.c_str()); } catch (Exception & x) { fflush(NULL); _exit(9); } fflush(NULL); _exit(0); }
		int st; waitpid(p, &st, 0);
		std::string vals = slurp(fv);
		std::vector<std::string> unk, err, use;
		std::istringstream so(slurp(fo)); std::string l;
		bool us = false;
		while (std::getline(so, l)) {
			size_t q;
			if ((q = l.find("Invalid parameter \"")) != std::string::npos) unk.push_back(l.substr(q + 19, l.rfind('"') - q - 19));
			else if ((q = l.find("Insufficient values for option ")) != std::string::npos) err.push_back(l.substr(q + 31));
			else if (us) { std::vector<std::string> x = words(l); if (x.size()) use.push_back(x[0]); }
			if (l.find("Parameters:") != std::string::npos) us = true;
		}
		Ev("line").str("lib", LIB).raw("a", list(a)).i("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)).b("ran", vals != "").raw("vals", vals == "" ? "[]" : vals)
			.raw("unknown", list(unk)).raw("errors", list(err)).raw("usage", list(use)).emit();
	}
	unlink(fo.c_str()); unlink(fv.c_str());
	fclose(out);
	return 0;
}
