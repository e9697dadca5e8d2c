// Replays behaviours of Timers.tla on the real FunctionTimer, with the clock under control.
#include "vp.h"
#include "Exception.h"
#include "FunctionTimer.h"
#include <sys/time.h>
#include <time.h>
#include <map>
using namespace vp;
static long long now_s = 0, now_u = 0;
extern "C" int gettimeofday(struct timeval * tv, void *) noexcept { tv->tv_sec = 1000 + now_s; tv->tv_usec = now_u; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec * ts) noexcept { ts->tv_sec = 1000 + now_s; ts->tv_nsec = now_u * 1000; return 0; }
static std::string pair(unsigned long t) { return "[" + std::to_string(t / 1000000ul > 2000000000ul ? -1 : (long long)(t / 1000000ul)) + "," + std::to_string(t % 1000000ul) + "]"; }
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	std::map<int, FunctionTimer *> tm;
	const char * names[] = {"Loop", "Loop2", "Communicate", "Never"};
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w[0] == "scenario" || w[0] == "end") {
			for (auto & p : tm) delete p.second;
			tm.clear();
			for (int q = 0; q < 4; q++) FunctionTimer::ResetGroupTimeRecord(names[q]);
			now_s = 0; now_u = 0;
			if (w[0] == "end") { Ev("end").emit(); break; }
			scn = atoi(w[1].c_str()); Ev("begin").emit(); continue;
		}
		Ev e("op"); e.str("op", w[0]);
		bool exc = false;
		try {
			if (w[0] == "tick") {
				long long s = atoll(w[1].c_str()), u = atoll(w[2].c_str());
				now_u += u; now_s += s + now_u / 1000000; now_u %= 1000000;
				e.raw("d", "[" + w[1] + "," + w[2] + "]");
			} else if (w[0] == "clear") {
				std::string g = w.size() > 1 ? w[1] : "";
				e.str("g", g); FunctionTimer::ResetGroupTimeRecord(g.c_str());
			} else {
				int i = atoi(w[1].c_str()); e.i("i", i);
				if (w[0] == "new") {
					std::string g = w.size() > 2 ? w[2] : "";
					e.str("g", g); tm[i] = (g == "" && k % 2) ? new FunctionTimer() : new FunctionTimer(g.c_str());
				}
				else if (w[0] == "reset") tm[i]->Reset();
				else if (w[0] == "peek") e.raw("ret", pair(tm[i]->Time()));
				else if (w[0] == "stop") e.raw("ret", pair((k % 2) ? tm[i]->StopTime() : tm[i]->Time(true)));
				else if (w[0] == "kill") { delete tm[i]; tm.erase(i); }
			}
		} catch (Exception & x) { exc = true; }
		std::string gs = "[";
		for (int q = 0; q < 4; q++) {
			bool has = true; unsigned long tot = 0; unsigned rn = 0;
			try { const FunctionTimer::TimerGroupData & d = FunctionTimer::GetGroupTimeRecord(names[q]); tot = d.iTotalTime; rn = d.nEntries; } catch (Exception & x) { has = false; }
			gs += std::string(q ? "," : "") + "{\"g\":\"" + names[q] + "\",\"n\":" + std::to_string(FunctionTimer::GetNumberOfEntries(names[q]))
				+ ",\"has\":" + (has ? "true" : "false") + ",\"rn\":" + std::to_string(rn) + ",\"tot\":" + pair(tot)
				+ ",\"avg\":" + pair(FunctionTimer::GetAverageGroupTime(names[q])) + "}";
		}
		e.b("exc", exc).raw("groups", gs + "]").emit();
	}
	fclose(out);
	return 0;
}
