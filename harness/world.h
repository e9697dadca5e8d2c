// MPI_COMM_WORLD stands for a group of our choosing, so that one launch can hold runs with different numbers
// of processes. Blocking calls give up when a member of the group has failed. Receives that accept any message
// take the waiting ones in a prescribed order.
#ifndef WORLD_H
#define WORLD_H
#include <mpi.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <vector>
#include <string>
namespace world {
struct Gone {};
static MPI_Comm cur = MPI_COMM_NULL; static int size = 0; static std::string flag; static double limit = 60.0;
static std::vector<int> picks; static size_t nextPick = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static MPI_Comm of(MPI_Comm c) { return c == MPI_COMM_WORLD && cur != MPI_COMM_NULL ? cur : c; }
static bool failed() { return flag.size() && access(flag.c_str(), F_OK) == 0; }
static void fail() { if (flag.size()) { int f = open(flag.c_str(), O_CREAT | O_WRONLY, 0600); if (f >= 0) close(f); } }
struct Patience { double t0; int n; Patience() : t0(now()), n(0) {} void operator()() { if (++n % 200 == 0 && (failed() || now() - t0 > limit)) { fail(); throw Gone(); } sched_yield(); } };
static void finish(MPI_Request * r, MPI_Status * st = MPI_STATUS_IGNORE) { Patience p; int f = 0; for (;;) { PMPI_Test(r, &f, st); if (f) return; p(); } }
static bool on() { return cur != MPI_COMM_NULL; }
static int myRank() { int r; PMPI_Comm_rank(cur != MPI_COMM_NULL ? cur : MPI_COMM_WORLD, &r); return r; }
// all processes call it; true on members
static bool enter(int n, const std::string & name) {
	int r; PMPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm c;
	PMPI_Comm_split(MPI_COMM_WORLD, r < n ? 0 : 1, r, &c);
	flag = name; size = n; picks.clear(); nextPick = 0;
	if (r < n) { cur = c; return true; }
	return false;
}
static void leave() { cur = MPI_COMM_NULL; PMPI_Barrier(MPI_COMM_WORLD); }
}
extern "C" {
int MPI_Comm_rank(MPI_Comm c, int * r) { return PMPI_Comm_rank(world::of(c), r); }
int MPI_Comm_size(MPI_Comm c, int * r) { return PMPI_Comm_size(world::of(c), r); }
int MPI_Barrier(MPI_Comm c) { if (!world::on()) return PMPI_Barrier(c); MPI_Request q; PMPI_Ibarrier(world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Bcast(void * b, int n, MPI_Datatype t, int root, MPI_Comm c) { if (!world::on()) return PMPI_Bcast(b, n, t, root, c); MPI_Request q; PMPI_Ibcast(b, n, t, root, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Reduce(const void * a, void * b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { if (!world::on()) return PMPI_Reduce(a, b, n, t, o, root, c); MPI_Request q; PMPI_Ireduce(a, b, n, t, o, root, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Allreduce(const void * a, void * b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { if (!world::on()) return PMPI_Allreduce(a, b, n, t, o, c); MPI_Request q; PMPI_Iallreduce(a, b, n, t, o, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Gather(const void * a, int n, MPI_Datatype t, void * b, int m, MPI_Datatype u, int root, MPI_Comm c) { if (!world::on()) return PMPI_Gather(a, n, t, b, m, u, root, c); MPI_Request q; PMPI_Igather(a, n, t, b, m, u, root, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Gatherv(const void * a, int n, MPI_Datatype t, void * b, const int * m, const int * at, MPI_Datatype u, int root, MPI_Comm c) { if (!world::on()) return PMPI_Gatherv(a, n, t, b, m, at, u, root, c); MPI_Request q; PMPI_Igatherv(a, n, t, b, m, at, u, root, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Allgather(const void * a, int n, MPI_Datatype t, void * b, int m, MPI_Datatype u, MPI_Comm c) { if (!world::on()) return PMPI_Allgather(a, n, t, b, m, u, c); MPI_Request q; PMPI_Iallgather(a, n, t, b, m, u, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Isend(const void * b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request * r) { return PMPI_Isend(b, n, t, to, tag, world::of(c), r); }
int MPI_Irecv(void * b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request * r) { return PMPI_Irecv(b, n, t, from, tag, world::of(c), r); }
int MPI_Send(const void * b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { if (!world::on()) return PMPI_Send(b, n, t, to, tag, c); MPI_Request q; PMPI_Isend(b, n, t, to, tag, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { if (!world::on()) return PMPI_Ssend(b, n, t, to, tag, c); MPI_Request q; PMPI_Issend(b, n, t, to, tag, world::of(c), &q); world::finish(&q); return MPI_SUCCESS; }
int MPI_Iprobe(int from, int tag, MPI_Comm c, int * f, MPI_Status * st) { return PMPI_Iprobe(from, tag, world::of(c), f, st); }
int MPI_Probe(int from, int tag, MPI_Comm c, MPI_Status * st) { if (!world::on()) return PMPI_Probe(from, tag, c, st); world::Patience p; int f = 0; for (;;) { PMPI_Iprobe(from, tag, world::of(c), &f, st); if (f) return MPI_SUCCESS; p(); } }
int MPI_Recv(void * b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status * st) {
	if (!world::on()) return PMPI_Recv(b, n, t, from, tag, c, st);
	if ((from == MPI_ANY_SOURCE || tag == MPI_ANY_TAG) && world::nextPick < world::picks.size()) {
		// let every sender get its message to the door, then choose
		int want = world::picks[world::nextPick++]; world::Patience p;
		if (world::nextPick == 1) usleep(3000);
		for (;;) {
			std::vector<std::pair<int, int> > here;
			for (int s = 0; s < world::size; s++) for (int g = 0; g < 4; g++) { if ((from != MPI_ANY_SOURCE && s != from) || (tag != MPI_ANY_TAG && g != tag)) continue; int f = 0; PMPI_Iprobe(s, g, world::of(c), &f, MPI_STATUS_IGNORE); if (f) here.push_back(std::make_pair(s, g)); }
			if (here.size()) { std::pair<int, int> h = here[want % here.size()]; from = h.first; tag = h.second; break; }
			p();
		}
	}
	MPI_Request q; PMPI_Irecv(b, n, t, from, tag, world::of(c), &q); world::finish(&q, st); return MPI_SUCCESS;
}
int MPI_Test(MPI_Request * r, int * f, MPI_Status * st) { static world::Patience * p = NULL; int rc = PMPI_Test(r, f, st); if (world::on()) { if (*f || !p) { delete p; p = new world::Patience; } else (*p)(); } return rc; }
int MPI_Wait(MPI_Request * r, MPI_Status * st) { if (!world::on()) return PMPI_Wait(r, st); world::finish(r, st); return MPI_SUCCESS; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) { if (!world::on()) return PMPI_Waitall(n, r, st); world::Patience p; int f = 0; for (;;) { PMPI_Testall(n, r, &f, st); if (f) return MPI_SUCCESS; p(); } }
int MPI_Waitany(int n, MPI_Request r[], int * k, MPI_Status * st) { if (!world::on()) return PMPI_Waitany(n, r, k, st); world::Patience p; int f = 0; for (;;) { PMPI_Testany(n, r, k, &f, st); if (f) return MPI_SUCCESS; p(); } }
int MPI_Abort(MPI_Comm c, int code) { if (!world::on()) return PMPI_Abort(c, code); world::fail(); throw world::Gone(); }
}
#endif
