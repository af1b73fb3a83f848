// Helpers shared by the check harnesses.
#pragma once
#include "sim.h"
// Set by the build only after a full build has failed: 1 leaves out instantiations with types the
// library's own tests and programs never use (fixed-size matrices in solvers), 2 also complex solvers.
#ifndef VF_BASIC
#define VF_BASIC 0
#endif
#include "Types.h"
#include "Vector.h"
#include "matrix/Matrix.h"
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>

using sim::draw; using sim::range; using sim::chance; using sim::pick; using sim::note; using sim::fail;

namespace h {

enum Kind { OK = 0, OOM, NSX, STDX, OTHER };
inline const char* kind_name(Kind k) { static const char* n[] = { "ok", "bad_alloc", "NSException", "std::exception", "unknown exception" }; return n[k]; }

struct Outcome {
	Kind kind; bool fault;          // fault: the armed allocation failure took effect
	std::string type;               // mangled type name of the exception
	bool ok() const { return kind == OK; }
	bool is(const char* t) const { return type.find(t) != std::string::npos; }
};

// Runs f as a library call; k > 0 fails its k-th allocation.
template <class F>
Outcome attempt(F f, uint64_t k = 0, bool sticky = false) {
	Outcome o; o.kind = OK; o.fault = false;
	const char* tn = "";
	if (k) sim::arm_alloc(k, sticky);
	try {
		sim::Lib scope;
		f();
	}
	catch (const std::bad_alloc& e) { o.kind = OOM; tn = typeid(e).name(); }
	catch (const NS::NSException& e) { o.kind = NSX; tn = typeid(e).name(); }
	catch (const std::exception& e) { o.kind = STDX; tn = typeid(e).name(); }
	catch (...) { o.kind = OTHER; tn = "?"; }
	if (k) o.fault = sim::disarm_alloc();
	o.type = tn;
	return o;
}
// k for arm_alloc: 0 (no fault) unless faults are on
inline uint64_t draw_fault(int percent) {
	if ((int)draw(100) < 100 - percent) return 0;
	return draw(4) ? 1 + draw(4) : 1 + draw(40);
}

// a cheap stream of numbers behind one draw, for objects too big to draw entry by entry
struct Rnd { uint64_t s; Rnd() : s(draw(1u << 30)) {} size_t operator()(size_t n) { s = sim::mix(s, 77); return (size_t)((s >> 20) % n); } };

inline const char* str(double v) { static char b[8][40]; static int i; i = (i + 1) & 7; snprintf(b[i], 40, "%.17g", v); return b[i]; }
inline const char* str(std::complex<double> v) { static char b[8][80]; static int i; i = (i + 1) & 7; snprintf(b[i], 80, "%.17g%+.17gi", v.real(), v.imag()); return b[i]; }

template <class T> struct Val;
template <> struct Val<double> {
	static double small(int lim) { return (double)range(-lim, lim); }
	static double mag(double v) { return std::fabs(v); }
	static double conj(double v) { return v; }
	static const bool is_real = true;
};
template <> struct Val<float> {
	static float small(int lim) { return (float)range(-lim, lim); }
	static double mag(float v) { return std::fabs(v); }
	static float conj(float v) { return v; }
	static const bool is_real = true;
};
template <> struct Val<std::complex<double> > {
	typedef std::complex<double> C;
	static C small(int lim) { double a = (double)range(-lim, lim); return C(a, chance(1, 2) ? (double)range(-lim, lim) : 0); }
	static double mag(C v) { return std::max(std::fabs(v.real()), std::fabs(v.imag())); }
	static C conj(C v) { return std::conj(v); }
	static const bool is_real = false;
};

// Rectangular table of numbers: the reference model of every matrix type.
template <class T> struct Table {
	size_t r, c; std::vector<T> v;
	Table(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), v(r_ * c_) {}
	T& at(size_t i, size_t j) { return v[i * c + j]; }
	const T& at(size_t i, size_t j) const { return v[i * c + j]; }
	double mag() const { double m = 0; for (size_t i = 0; i < v.size(); ++i) m = std::max(m, Val<T>::mag(v[i])); return m; }
	size_t filled() const { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) n += v[i] != T(0); return n; }
	bool same(const Table& o) const { return r == o.r && c == o.c && v == o.v; }
	T sum() const { T s = T(0); for (size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }
	T trace() const { T s = T(0); for (size_t i = 0; i < r && i < c; ++i) s += at(i, i); return s; }
	Table transposed(bool conj = false) const { Table t(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) t.at(j, i) = conj ? Val<T>::conj(at(i, j)) : at(i, j); return t; }
	Table conjugated() const { Table t(r, c); for (size_t i = 0; i < v.size(); ++i) t.v[i] = Val<T>::conj(v[i]); return t; }
	Table times(const Table& o) const { Table t(r, o.c); for (size_t i = 0; i < r; ++i) for (size_t k = 0; k < c; ++k) for (size_t j = 0; j < o.c; ++j) t.at(i, j) += at(i, k) * o.at(k, j); return t; }
	uint64_t hash() const { uint64_t h = r * 131 + c; for (size_t i = 0; i < v.size(); ++i) { double a[2] = { 0, 0 }; memcpy(a, &v[i], sizeof(T)); uint64_t u[2]; a[0] += 0.0; a[1] += 0.0; memcpy(u, a, 16); h = sim::mix(sim::mix(h, u[0]), u[1]); } return h; }
};
template <class T, class M> Table<T> table_of(const M& m) {
	Table<T> t(m.rows(), m.columns());
	for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) t.at(i, j) = m.at(i, j);
	return t;
}
template <class T, class V> std::vector<T> list_of(const V& v) {
	std::vector<T> t(v.size());
	for (size_t i = 0; i < t.size(); ++i) t[i] = v.linear_at(i);
	return t;
}
template <class T> bool same_table(const Table<T>& a, const Table<T>& b, size_t& i, size_t& j) {
	i = j = 0;
	if (a.r != b.r || a.c != b.c) return false;
	for (i = 0; i < a.r; ++i) for (j = 0; j < a.c; ++j) if (!(a.at(i, j) == b.at(i, j))) return false;
	return true;
}
template <class T> void expect_table(const Table<T>& got, const Table<T>& want, const char* cls, const char* what) {
	if (got.r != want.r || got.c != want.c) fail(cls, "%s: shape %zux%zu, expected %zux%zu", what, got.r, got.c, want.r, want.c);
	size_t i, j;
	if (!same_table(got, want, i, j)) fail(cls, "%s: entry (%zu,%zu) is %s, expected %s", what, i, j, str(got.at(i, j)), str(want.at(i, j)));
}
} // namespace h
