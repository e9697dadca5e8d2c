// Replays behaviours of Arrays.tla on the real DataStruct, DataArray1D..4D and DataContainer.
#include "vp.h"
#include "Exception.h"
#include "DataStruct.h"
#include "DataArray1D.h"
#include "DataArray2D.h"
#include "DataArray3D.h"
#include "DataArray4D.h"
#include "DataContainer.h"
#include <map>
#include <new>
#include <cstdint>
using namespace vp;

// every block obtained or given back while an operation on arrays runs
static bool tracking = false;
static std::map<void *, char> * blocks = NULL;     // how it was obtained
static int badfree = 0;
extern "C" void * __real_malloc(size_t); extern "C" void __real_free(void *); extern "C" void * __real_calloc(size_t, size_t); extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void * __real_aligned_alloc(size_t, size_t); extern "C" void * __real_realloc(void *, size_t);
static void got(void * p, char how) { if (tracking && p) { tracking = false; (*blocks)[p] = how; tracking = true; } }
// returns how the block was obtained, 0 if it is none of ours
static char gone(void * p) {
	if (!blocks || !p) return 0;
	auto it = blocks->find(p);
	if (it == blocks->end()) return 0;
	char h = it->second; bool t = tracking; tracking = false; blocks->erase(it); tracking = t; return h;
}
extern "C" void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); got(p, 'm'); return p; }
extern "C" void * __wrap_calloc(size_t n, size_t m) { void * p = __real_calloc(n, m); got(p, 'm'); return p; }
extern "C" void * __wrap_realloc(void * q, size_t n) { gone(q); void * p = __real_realloc(q, n); got(p, 'm'); return p; }
extern "C" void * __wrap_aligned_alloc(size_t a, size_t n) { void * p = __real_aligned_alloc(a, n); got(p, 'm'); return p; }
extern "C" int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) got(*p, 'm'); return r; }
extern "C" void __wrap_free(void * p) { char h = gone(p); if (h == 'n') badfree++; __real_free(p); }
void * operator new[](size_t n) { void * p = __real_malloc(n); if (!p) throw std::bad_alloc(); got(p, 'n'); return p; }
void operator delete[](void * p) noexcept { char h = gone(p); if (h == 'm') badfree++; __real_free(p); }
void operator delete[](void * p, size_t) noexcept { char h = gone(p); if (h == 'm') badfree++; __real_free(p); }

static const int NEXT = 48;
static std::string num(double x) { return std::to_string((long long) x); }
static const int NAmax = 8;

template <class T, int D> struct Arr;
#define IX4 for (size_t i = 0; i < z[0]; i++) for (size_t j = 0; j < z[1]; j++) for (size_t k = 0; k < z[2]; k++) for (size_t l = 0; l < z[3]; l++)
#define IX3 for (size_t i = 0; i < z[0]; i++) for (size_t j = 0; j < z[1]; j++) for (size_t k = 0; k < z[2]; k++)
#define IX2 for (size_t i = 0; i < z[0]; i++) for (size_t j = 0; j < z[1]; j++)
#define IX1 for (size_t i = 0; i < z[0]; i++)
template <class A> static std::vector<size_t> sizes(const A & a, int d) { std::vector<size_t> z; for (int q = 0; q < d; q++) z.push_back(a.GetSize(q)); return z; }
template <class T> struct Arr<T, 0> {
	typedef DataStruct<T> A;
	static std::vector<size_t> size(const A &) { return {}; }
	static void setsize(A &, const std::vector<size_t> &) {}
	static void alloc(A & a, const std::vector<size_t> &) { a.Allocate(); }
	static A * make(const std::vector<size_t> &) { A * a = new A; a->Allocate(); return a; }
	static bool read(const A & a, std::vector<double> & v) { v.push_back((T) a); return true; }
	static void set(A & a, size_t, T x, bool) { a = x; }
	static int ty(const A &) { return 0; } static int lo(const A &) { return 0; } static void kind(A &, int, int) {}
};
#define KIND static int ty(const A & a) { return (int) a.GetDataType(); } static int lo(const A & a) { return (int) a.GetDataLocation(); } \
	static void kind(A & a, int t, int l) { a.SetDataType((DataType) t); a.SetDataLocation((DataLocation) l); }
template <class T> struct Arr<T, 1> {
	typedef DataArray1D<T> A; KIND
	static std::vector<size_t> size(const A & a) { return {a.GetRows()}; }
	static void setsize(A & a, const std::vector<size_t> & z) { a.SetSize(z[0]); }
	static void alloc(A & a, const std::vector<size_t> & z) { a.Allocate(z[0]); }
	static A * make(const std::vector<size_t> & z) { return new A(z[0]); }
	static bool read(const A & a, std::vector<double> & v) { std::vector<size_t> z = size(a); bool ok = a.GetTotalSize() == z[0]; IX1 { v.push_back(a[i]); ok = ok && (&a[i] == (const T *) a + i) && a(i) == a[i]; } return ok; }
	static void set(A & a, size_t p, T x, bool s) { if (s) a[p] = x; else a(p) = x; }
};
template <class T> struct Arr<T, 2> {
	typedef DataArray2D<T> A; KIND
	static std::vector<size_t> size(const A & a) { return {a.GetRows(), a.GetColumns()}; }
	static void setsize(A & a, const std::vector<size_t> & z) { a.SetSize(z[0], z[1]); }
	static void alloc(A & a, const std::vector<size_t> & z) { a.Allocate(z[0], z[1]); }
	static A * make(const std::vector<size_t> & z) { return new A(z[0], z[1]); }
	static bool read(const A & a, std::vector<double> & v) { std::vector<size_t> z = size(a); bool ok = a.GetTotalSize() == z[0] * z[1]; IX2 { v.push_back(a(i, j)); ok = ok && &a(i, j) == &a[i][j] && &a(i, j) == &a(0, 0) + v.size() - 1 && &a(i)[j] == &a(i, j); } return ok; }
	static void set(A & a, size_t p, T x, bool s) { size_t n = a.GetColumns(); if (s) a[p / n][p % n] = x; else a(p / n, p % n) = x; }
};
template <class T> struct Arr<T, 3> {
	typedef DataArray3D<T> A; KIND
	static std::vector<size_t> size(const A & a) { return sizes(a, 3); }
	static void setsize(A & a, const std::vector<size_t> & z) { a.SetSize(z[0], z[1], z[2]); }
	static void alloc(A & a, const std::vector<size_t> & z) { a.Allocate(z[0], z[1], z[2]); }
	static A * make(const std::vector<size_t> & z) { return new A(z[0], z[1], z[2]); }
	static bool read(const A & a, std::vector<double> & v) { std::vector<size_t> z = size(a); bool ok = a.GetTotalSize() == z[0] * z[1] * z[2]; IX3 { v.push_back(a(i, j, k)); ok = ok && &a(i, j, k) == &a[i][j][k] && &a(i, j, k) == &a(0, 0, 0) + v.size() - 1 && a(i, j) + k == &a(i, j, k); } return ok; }
	static void set(A & a, size_t p, T x, bool s) { size_t n = a.GetSize(2), m = a.GetSize(1); if (s) a[p / n / m][p / n % m][p % n] = x; else a(p / n / m, p / n % m, p % n) = x; }
};
template <class T> struct Arr<T, 4> {
	typedef DataArray4D<T> A; KIND
	static std::vector<size_t> size(const A & a) { return sizes(a, 4); }
	static void setsize(A & a, const std::vector<size_t> & z) { a.SetSize(z[0], z[1], z[2], z[3]); }
	static void alloc(A & a, const std::vector<size_t> & z) { a.Allocate(z[0], z[1], z[2], z[3]); }
	static A * make(const std::vector<size_t> & z) { return new A(z[0], z[1], z[2], z[3]); }
	static bool read(const A & a, std::vector<double> & v) { std::vector<size_t> z = size(a); bool ok = a.GetTotalSize() == z[0] * z[1] * z[2] * z[3]; IX4 { v.push_back(a(i, j, k, l)); ok = ok && &a(i, j, k, l) == &a[i][j][k][l] && &a(i, j, k, l) == &a(0, 0, 0, 0) + v.size() - 1 && a(i, j, k) + l == &a(i, j, k, l); } return ok; }
	static void set(A & a, size_t p, T x, bool s) { size_t n = a.GetSize(3), m = a.GetSize(2), h = a.GetSize(1); if (s) a[p / n / m / h][p / n / m % h][p / n % m][p % n] = x; else a(p / n / m / h, p / n / m % h, p / n % m, p % n) = x; }
};

struct World {
	virtual ~World() {}
	virtual bool op(const std::vector<std::string> & w, size_t line) = 0;
	virtual void report(Ev & e) = 0;
};
template <class T, int D> struct WorldOf : World {
	typedef Arr<T, D> R; typedef typename R::A A;
	std::vector<A *> a; std::vector<DataContainer *> c; T * ext[2]; int w;
	WorldOf(int na, int nc, int ww) : w(ww) {
		for (int i = 0; i < na; i++) a.push_back(new A);
		for (int i = 0; i < nc; i++) c.push_back(new DataContainer);
		for (int b = 0; b < 2; b++) { ext[b] = (T *) new double[NEXT]; for (int i = 0; i < NEXT; i++) ext[b][i] = 100 * (b + 1) + i + 1; }
	}
	// containers give back what they hold first, then the arrays
	virtual ~WorldOf() { tracking = true; for (auto p : c) p->Detach(); tracking = false; for (auto p : c) delete p; for (auto p : a) { tracking = true; p->~A(); tracking = false; ::operator delete((void *) p); } for (int b = 0; b < 2; b++) delete[] (double *) ext[b]; }
	virtual bool op(const std::vector<std::string> & q, size_t line) {
		auto I = [&](size_t n) { return atoi(q[n].c_str()); };
		std::vector<size_t> z; if (q[0] == "size" || q[0] == "alloc" || q[0] == "make") for (size_t n = 2; n < q.size(); n++) z.push_back(I(n));
		bool exc = false; int i = q.size() > 1 ? I(1) - 1 : 0; A * fresh = NULL;
		try {
			tracking = true;
			if (q[0] == "size") R::setsize(*a[i], z);
			else if (q[0] == "alloc") R::alloc(*a[i], z);
			else if (q[0] == "attach") a[i]->AttachToData(ext[I(2) - 1] + I(3));
			else if (q[0] == "detach") a[i]->Detach();
			else if (q[0] == "free") a[i]->Deallocate();
			else if (q[0] == "fresh" || q[0] == "make" || q[0] == "copy") { A * old = a[i]; tracking = true;
				fresh = q[0] == "fresh" ? new A : q[0] == "make" ? R::make(z) : (line % 2 ? new A(*a[I(2) - 1]) : new A((const A &) *a[I(2) - 1])); a[i] = fresh; delete old; }
			else if (q[0] == "kind") R::kind(*a[i], I(2), I(3));
			else if (q[0] == "assign") { if (line % 2) a[i]->Assign(*a[I(2) - 1]); else *a[i] = *a[I(2) - 1]; }
			else if (q[0] == "zero") a[i]->Zero();
			else if (q[0] == "scale") a[i]->Scale((T) I(2));
			else if (q[0] == "add") a[i]->AddProduct(*a[I(2) - 1], (T) I(3));
			else if (q[0] == "set") R::set(*a[i], I(2) - 1, (T) I(3), line % 2);
			else if (q[0] == "push") c[i]->PushDataChunk(a[I(2) - 1]);
			else if (q[0] == "calloc") c[i]->Allocate();
			else if (q[0] == "cattach") c[i]->AttachTo((unsigned char *) (ext[I(2) - 1] + I(3)));
			else if (q[0] == "cdetach") { if (line % 2) c[i]->Detach(); else c[i]->Deallocate(); }
			else if (q[0] == "ccopy") memcpy(c[i]->GetPointer(), c[I(2) - 1]->GetPointer(), c[i]->GetTotalByteSize());
		} catch (Exception & x) { exc = true; }
		tracking = false;
		return exc;
	}
	virtual void report(Ev & e) {
		std::string s = "[";
		for (size_t i = 0; i < a.size(); i++) {
			std::vector<double> v; bool sub = true; bool att = a[i]->IsAttached();
			if (att) sub = R::read(*a[i], v);
			Ev x("a"); std::vector<size_t> z = R::size(*a[i]);
			std::vector<long long> d(v.begin(), v.end());
			x.b("att", att).arr("sz", z).i("ty", R::ty(*a[i])).i("lo", R::lo(*a[i])).arr("data", d).b("sub", sub).i("cells", (long long) (a[i]->GetByteSize() / sizeof(T)));
			s += (i ? "," : "") + x.s + "}";
		}
		e.raw("a", s + "]");
		s = "[";
		for (size_t k = 0; k < c.size(); k++) { Ev x("c"); x.b("att", c[k]->IsAttached() && c[k]->GetPointer() != NULL).i("cells", (long long) (c[k]->GetTotalByteSize() / sizeof(T))); s += (k ? "," : "") + x.s + "}"; }
		e.raw("c", s + "]");
		s = "[";
		for (int b = 0; b < 2; b++) { std::vector<long long> v; for (int i = 0; i < NEXT; i++) v.push_back((long long) ext[b][i]); Ev x("x"); x.arr("m", v); s += (b ? "," : "") + x.s + "}"; }
		e.raw("x", s + "]").i("live", (long long) blocks->size()).i("badfree", badfree);
	}
};
template <class T> static World * world(int d, int w) {
	switch (d) { case 0: return new WorldOf<T, 0>(3, 2, w); case 1: return new WorldOf<T, 1>(3, 2, w); case 2: return new WorldOf<T, 2>(3, 2, w); case 3: return new WorldOf<T, 3>(3, 2, w); default: return new WorldOf<T, 4>(3, 2, w); }
}
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	blocks = new std::map<void *, char>;
	World * W = NULL;
	for (size_t n = 0; n < in.size(); n++) {
		std::vector<std::string> w = words(in[n]);
		if (w[0] == "scenario" || w[0] == "end") {
			if (W) { delete W; W = NULL; Ev("close").i("live", (long long) blocks->size()).i("badfree", badfree).emit(); }
			blocks->clear(); badfree = 0;
			if (w[0] == "end") { Ev("end").emit(); break; }
			scn = atoi(w[1].c_str()); continue;
		}
		if (w[0] == "begin") {
			int d = atoi(w[1].c_str()), k = atoi(w[2].c_str());
			W = k == 1 ? world<double>(d, 1) : world<int>(d, 2);
			Ev e("begin"); e.i("d", d).i("w", k); W->report(e); e.emit(); continue;
		}
		bool exc = W->op(w, n);
		Ev e("op"); e.str("op", w[0]).i("line", n).b("exc", exc); W->report(e); e.emit();
	}
	fclose(out);
	return 0;
}
