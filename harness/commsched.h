// A communication library as slow and as disorderly as the standard allows, driven by a schedule:
// send buffers are read late, receive buffers hold garbage until the receive is reported complete,
// and completed receives are reported in a prescribed order.
#ifndef COMMSCHED_H
#define COMMSCHED_H
#include <mpi.h>
#include <sched.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <string>
#include <cstring>
namespace sched {
struct Exchange { int late; bool sync; std::vector<int> defer, prio; };      // per partner: tests until the send buffer is read; rank among arrivals
struct SendRec { MPI_Request req; const char * buf; size_t n; int to, x, left; };
struct RecvRec { char * user; std::vector<char> shadow; size_t n; int from, x, tests; };
static bool on = false; static int x = -1; static bool fresh = true;
static std::vector<Exchange> plan;
static std::vector<SendRec> deferred;
static std::map<MPI_Request, RecvRec *> recvs;
static std::vector<std::string> log_;
static int me() { int r; PMPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static int digest(const char * p, size_t n) { unsigned long long h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= (unsigned char) p[i]; h *= 1099511628211ull; } return (int) ((h ^ (h >> 31)) & 0x3fffffff); }
static void note(const char * k, int x_, int other, int d) { log_.push_back(std::string("{\"k\":\"") + k + "\",\"x\":" + std::to_string(x_) + ",\"me\":" + std::to_string(me()) + ",\"o\":" + std::to_string(other) + ",\"d\":" + std::to_string(d) + "}"); }
static void go(SendRec & s) { note("read", s.x, s.to, digest(s.buf, s.n)); PMPI_Start(&s.req); }
static void flush() { for (size_t i = 0; i < deferred.size(); i++) go(deferred[i]); deferred.clear(); }
static void tick() { for (size_t i = 0; i < deferred.size(); ) { if (--deferred[i].left <= 0) { go(deferred[i]); deferred.erase(deferred.begin() + i); } else i++; } }
static const Exchange * cur() { return on && x >= 0 && x < (int) plan.size() ? &plan[x] : NULL; }
static void arrived(MPI_Request r) {
	std::map<MPI_Request, RecvRec *>::iterator it = recvs.find(r); if (it == recvs.end()) return;
	RecvRec * q = it->second; recvs.erase(it);
	memcpy(q->user, q->shadow.data(), q->n); note("got", q->x, q->from, digest(q->user, q->n)); delete q;
}
static int prioOf(int from) { const Exchange * e = cur(); return e && from >= 0 && from < (int) e->prio.size() ? e->prio[from] : 0; }
}
extern "C" {
int MPI_Isend(const void * buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request * r) {
	const sched::Exchange * e = sched::cur();
	if (!e || (t != MPI_BYTE && t != MPI_CHAR)) return PMPI_Isend(buf, n, t, to, tag, c, r);
	int rc = e->sync ? PMPI_Ssend_init(buf, n, t, to, tag, c, r) : PMPI_Send_init(buf, n, t, to, tag, c, r);
	sched::SendRec s; s.req = *r; s.buf = (const char *) buf; s.n = n; s.to = to; s.x = sched::x; s.left = to < (int) e->defer.size() ? e->defer[to] : 0;
	sched::note("sent", s.x, to, sched::digest(s.buf, s.n));
	if (s.left <= 0) sched::go(s); else sched::deferred.push_back(s);
	return rc;
}
int MPI_Irecv(void * buf, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request * r) {
	const sched::Exchange * e = sched::cur();
	if (!e || (t != MPI_BYTE && t != MPI_CHAR)) return PMPI_Irecv(buf, n, t, from, tag, c, r);
	if (sched::fresh) { sched::fresh = false; if (e->late > 0) usleep(e->late); }
	sched::RecvRec * q = new sched::RecvRec; q->user = (char *) buf; q->n = n; q->from = from; q->x = sched::x; q->tests = 0; q->shadow.resize(n);
	memset(buf, 0xA5, n);
	int rc = PMPI_Irecv(q->shadow.data(), n, t, from, tag, c, r);
	sched::recvs[*r] = q; return rc;
}
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * st) {
	if (!sched::on) return PMPI_Test(r, flag, st);
	sched::tick();
	std::map<MPI_Request, sched::RecvRec *>::iterator it = sched::recvs.find(*r);
	if (it != sched::recvs.end() && it->second->tests++ < 5000) {
		bool first = true; int mine = sched::prioOf(it->second->from);
		for (std::map<MPI_Request, sched::RecvRec *>::iterator o = sched::recvs.begin(); o != sched::recvs.end(); ++o)
			if (o->second->x == it->second->x && sched::prioOf(o->second->from) < mine) first = false;
		if (!first) { int f; MPI_Status s; PMPI_Request_get_status(*r, &f, &s); if (it->second->tests % 50 == 0) sched_yield(); *flag = 0; return MPI_SUCCESS; }
	}
	MPI_Request before = *r; int rc = PMPI_Test(r, flag, st);
	if (*flag) sched::arrived(before); else sched_yield();
	return rc;
}
int MPI_Wait(MPI_Request * r, MPI_Status * st) {
	sched::flush(); MPI_Request before = *r; int rc = PMPI_Wait(r, st); sched::arrived(before); return rc;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) {
	sched::flush(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Waitall(n, r, st);
	for (int i = 0; i < n; i++) sched::arrived(b[i]);
	return rc;
}
int MPI_Waitany(int n, MPI_Request r[], int * k, MPI_Status * st) {
	sched::flush(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Waitany(n, r, k, st);
	if (*k >= 0 && *k < n) sched::arrived(b[*k]);
	return rc;
}
int MPI_Testany(int n, MPI_Request r[], int * k, int * flag, MPI_Status * st) {
	sched::tick(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Testany(n, r, k, flag, st);
	if (*flag && *k >= 0 && *k < n) sched::arrived(b[*k]);
	return rc;
}
int MPI_Testall(int n, MPI_Request r[], int * flag, MPI_Status st[]) {
	sched::tick(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Testall(n, r, flag, st);
	if (*flag) for (int i = 0; i < n; i++) sched::arrived(b[i]);
	return rc;
}
int MPI_Waitsome(int n, MPI_Request r[], int * k, int ix[], MPI_Status st[]) {
	sched::flush(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Waitsome(n, r, k, ix, st);
	for (int i = 0; i < *k; i++) sched::arrived(b[ix[i]]);
	return rc;
}
int MPI_Testsome(int n, MPI_Request r[], int * k, int ix[], MPI_Status st[]) {
	sched::tick(); std::vector<MPI_Request> b(r, r + n); int rc = PMPI_Testsome(n, r, k, ix, st);
	for (int i = 0; i < *k; i++) sched::arrived(b[ix[i]]);
	return rc;
}
int MPI_Barrier(MPI_Comm c) { sched::flush(); return PMPI_Barrier(c); }
}
#endif
