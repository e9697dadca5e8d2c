// Replays behaviours of Announce.tla on the real functions. Every rank does the same.
#include "vp.h"
#include "Exception.h"
#include "Announce.h"
#include <mpi.h>
#include <unistd.h>
using namespace vp;
static std::string slurp(const std::string & f) { std::ifstream in(f.c_str()); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::string lines(const std::string & t) {
	std::string r = "["; size_t p = 0; bool first = true;
	while (p < t.size()) {
		size_t q = t.find('\n', p); if (q == std::string::npos) { q = t.size(); }
		Ev e("x"); e.s = ""; e.str("t", t.substr(p, q - p));
		r += (first ? "" : ",") + e.s.substr(5); first = false; p = q + 1;
	}
	return r + "]";
}
int main(int argc, char ** argv) {
	MPI_Init(&argc, &argv);
	int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
	std::vector<std::string> in = readlines(argv[1]);
	std::string o = argv[2];
	if (size > 1) o += "." + std::to_string(rank);
	out = fopen(o.c_str(), "w");
	std::string f0 = o + ".s0", f1 = o + ".s1";
	freopen(f0.c_str(), "w", stdout);
	FILE * other = fopen(f1.c_str(), "w");
	bool heard = true; int cur = 0;
	size_t pos0 = 0, pos1 = 0;
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w[0] == "end" && w.size() == 1) { Ev("end").emit(); break; }
		if (w[0] == "scenario") {
			scn = atoi(w[1].c_str());
			// which ranks speak, which stream is used
			for (int q = 0; q < 20; q++) AnnounceEndBlock((const char *) NULL);
			AnnounceSetVerbosityLevel(0);
			Announce((const char *) NULL);
			heard = (rank == 0) || (scn % 3 == 0);
			if (scn % 3 == 0) AnnounceOutputOnAllRanks(); else AnnounceOnlyOutputOnRankZero();
			cur = (scn / 2) % 2;
			AnnounceSetOutputBuffer(cur ? other : stdout);
			fflush(stdout); fflush(other);
			pos0 = slurp(f0).size(); pos1 = slurp(f1).size();
			Ev("begin").emit(); continue;
		}
		if (w[0] == "flush") {
			Announce((const char *) NULL);
			// the text still buffered by the library's own stream choices
			fflush(stdout); fflush(other);
			std::string a = slurp(f0), b = slurp(f1);
			std::string d0 = a.substr(pos0), d1 = b.substr(pos1);
			pos0 = a.size(); pos1 = b.size();
			Ev("flush").b("heard", heard).i("rank", rank).raw("lines", lines(cur ? d1 : d0)).raw("other", lines(cur ? d0 : d1)).emit();
			continue;
		}
		Ev e("op"); e.str("op", w[0]);
		bool hv = w[1] != "*"; int v = atoi(w[1].c_str());
		if (hv) e.i("v", v);
		std::string t = w.size() > 2 ? unhex(w[2]) : "";
		e.str("t", t);
		bool exc = false;
		try {
			if (w[0] == "verbosity") AnnounceSetVerbosityLevel(v);
			else if (w[0] == "start") { if (hv) AnnounceStartBlock(v, t.c_str()); else AnnounceStartBlock(t.c_str()); }
			else if (w[0] == "end") { if (hv) AnnounceEndBlock(v, t.c_str()); else AnnounceEndBlock(t.c_str()); }
			else if (w[0] == "quiet") AnnounceEndBlock((const char *) NULL);
			else if (w[0] == "banner") AnnounceBanner(t == "" ? NULL : t.c_str());
			else if (w[0] == "msg") {
				// texts also assembled from arguments
				if (hv) Announce(v, "%s", t.c_str());
				else if (t.size() > 3 && t.find('%') == std::string::npos && k % 2) { std::string h = t.substr(0, 2) + "%s"; Announce(h.c_str(), t.c_str() + 2); }
				else Announce("%s", t.c_str());
			}
		} catch (Exception & x) { exc = true; }
		e.b("exc", exc).emit();
	}
	fclose(out);
	unlink(f0.c_str()); unlink(f1.c_str());
	MPI_Finalize();
	return 0;
}
