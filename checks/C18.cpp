// C18: converting, ordering, classifying and measuring matrices follows their entries after any history.
#include "h.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixOperations.h"
#include "OutputStream.h"
#include <sstream>
#include <cctype>
using namespace NS;
using namespace h;
typedef DynamicVector<Index> P;
typedef std::vector<size_t> Perm;

template <class T> struct Wide { typedef long double type; };
template <> struct Wide<std::complex<double> > { typedef std::complex<long double> type; };
static long double absw(long double v) { return fabsl(v); }
static long double absw(std::complex<long double> v) { return std::abs(v); }
template <class T> static T narrow(long double v) { return T((double)v); }
template <class T> static T narrow(std::complex<long double> v) { return T((double)v.real(), (double)v.imag()); }
// the determinant and a bound on the rounding of any elimination
template <class T> static typename Wide<T>::type det(const Table<T>& a, double& scale) {
	typedef typename Wide<T>::type W; const size_t m = a.r; std::vector<W> v(a.v.begin(), a.v.end()); W d = 1; scale = 1;
	for (size_t i = 0; i < m; ++i) { double s = 0; for (size_t j = 0; j < m; ++j) s += std::abs(a.at(i, j)); scale *= std::max(1.0, s); }
	for (size_t k = 0; k < m; ++k) {
		size_t p = k; for (size_t i = k; i < m; ++i) if (absw(v[i * m + k]) > absw(v[p * m + k])) p = i;
		if (absw(v[p * m + k]) == 0) return 0;
		if (p != k) { d = -d; for (size_t j = 0; j < m; ++j) std::swap(v[p * m + j], v[k * m + j]); }
		d *= v[k * m + k];
		for (size_t i = k + 1; i < m; ++i) { W f = v[i * m + k] / v[k * m + k]; for (size_t j = k; j < m; ++j) v[i * m + j] -= f * v[k * m + j]; }
	}
	return d;
}
template <class T> static Table<T> unit(size_t n) { Table<T> t(n, n); for (size_t i = 0; i < n; ++i) t.at(i, i) = T(1); return t; }
template <class T> static Table<T> minus(const Table<T>& a) { Table<T> t(a); for (auto& e : t.v) e = -e; return t; }
// orthogonal, unitary, projection, symmetric, hermitian, skew-symmetric, skew-hermitian
template <class T> static void classes(const Table<T>& t, bool* c) {
	for (int i = 0; i < 7; ++i) c[i] = false;
	if (t.r != t.c) return;
	Table<T> tr = t.transposed(), ad = t.transposed(true);
	c[0] = t.times(tr).same(unit<T>(t.r)); c[1] = t.times(ad).same(unit<T>(t.r)); c[2] = t.times(t).same(t);
	c[3] = tr.same(t); c[4] = ad.same(t); c[5] = minus(tr).same(t); c[6] = minus(ad).same(t);
}
static const char* class_name(int i) { static const char* n[] = { "orthogonal", "unitary", "projection", "symmetric", "hermitian", "skew-symmetric", "skew-hermitian" }; return n[i]; }
template <class T, template <class> class M> static bool ask(const M<T>& m, int i) {
	switch (i) {
	case 0: return Check::matrixIsOrthogonal(m); case 1: return Check::matrixIsUnitary(m); case 2: return Check::matrixIsProjection(m); case 3: return Check::matrixIsSymmetric(m);
	case 4: return Check::matrixIsHermitian(m); case 5: return Check::matrixIsSkewSymmetric(m); default: return Check::matrixIsSkewHermitian(m);
	}
}
template <class T> struct Norms { template <class M> static void run(const M&, double*) {} };
template <> struct Norms<double> { template <class M> static void run(const M& m, double* r) { r[0] = Operations::max_norm2(m); r[1] = Operations::min_norm2(m); r[2] = Operations::cond(m); } };

static bool g_large;
template <class T> struct World {
	typedef SparseMatrix<T> S; typedef DenseMatrix<T> D; typedef DynamicVector<T> V; typedef std::vector<T> L;
	enum { N = 3 };
	S* s[N]; D* d[N]; Table<T> ts[N], td[N]; int faults;
	World() { for (int i = 0; i < N; ++i) { s[i] = nullptr; d[i] = nullptr; } }
	~World() { sim::Lib l; for (int i = 0; i < N; ++i) { delete s[i]; delete d[i]; } }
	static size_t dim() { return g_large ? (size_t)pick({ 24, 1, 17, 40, 33 }) : (size_t)pick({ 3, 1, 2, 4, 5, 6 }); }

	void unchanged(const char* w) {
		for (int i = 0; i < N; ++i) { expect_table(table_of<T>(*s[i]), ts[i], "operands", w); expect_table(table_of<T>(*d[i]), td[i], "operands", w); }
	}
	// f makes a new R; refused: the exception it must end in, or null
	template <class R, class F> R* made(const char* nm, const char* refused, F f) {
		R* r = nullptr;
		auto call = [&]() { r = new R(f()); };
		Outcome o = attempt(call, faults ? draw_fault(faults) : 0);
		note("%s: %s%s%s", nm, kind_name(o.kind), o.kind == NSX ? o.type.c_str() : "", o.fault ? " (allocation failed)" : "");
		if (o.fault && o.kind == OOM) { unchanged(nm); sim::probe("repeated after memory exhaustion"); o = attempt(call); note("  repeated: %s", kind_name(o.kind)); }
		unchanged(nm);
		if (refused) { SIM_CHECK(!o.ok(), "missing-exception", "%s: returned although its arguments do not fit", nm); SIM_CHECK(o.is(refused), "wrong-exception", "%s: refused with %s", nm, o.type.c_str()); sim::probe("ill-sized call refused"); return nullptr; }
		SIM_CHECK(o.ok(), "unexpected-exception", "%s: threw %s", nm, o.type.c_str());
		return r;
	}
	template <class R> struct Own { R* p; Own(R* q) : p(q) {} ~Own() { sim::Lib l; delete p; } };
	template <class M, class F> void matrix(const char* nm, const Table<T>& want, F f) {
		Own<M> r(made<M>(nm, nullptr, f)); expect_table(table_of<T>(*r.p), want, "result", nm); stored(*r.p, want, nm);
	}
	static void stored(const S& m, const Table<T>& want, const char* nm) { SIM_CHECK(m.filled_count() == want.filled(), "stored-count", "%s: %zu entries stored, %zu are not zero", nm, m.filled_count(), want.filled()); }
	static void stored(const D&, const Table<T>&, const char*) {}
	template <class X, class F> X value(const char* nm, F f) { Own<X> r(made<X>(nm, nullptr, f)); return *r.p; }

	// ---- contents
	Table<T> shaped(size_t n, int style) {
		Table<T> t(n, n); int dens = pick({ 60, 100, 30 });
		if (style <= 4) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) if ((int)draw(100) < dens) { // symmetric, hermitian, skew, skew-hermitian, general
			T v = Val<T>::small(3), w = style == 0 ? v : style == 1 ? Val<T>::conj(v) : style == 2 ? -v : style == 3 ? -Val<T>::conj(v) : Val<T>::small(3);
			if (i == j) { if (style == 1) v = (v + Val<T>::conj(v)); if (style == 2) v = T(0); if (style == 3) v = v - Val<T>::conj(v); t.at(i, i) = v; } else { t.at(i, j) = v; t.at(j, i) = w; }
		}
		if (style == 5) { Perm p(n); for (size_t i = 0; i < n; ++i) p[i] = i; for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[draw(i)]); for (size_t i = 0; i < n; ++i) t.at(i, p[i]) = phase(); }
		if (style == 6) for (size_t i = 0; i < n; ++i) t.at(i, i) = T((double)draw(2));
		if (style == 7) { size_t k = draw(n); for (size_t i = 0; i < n; ++i) { if (i < k) t.at(i, i) = T(1); else if (k) t.at(draw(k), i) = Val<T>::small(2); } } // [I A; 0 0]
		return t;
	}
	static T phase() { T v = chance(1, 2) ? T(-1) : T(1); return Val<T>::is_real || chance(1, 2) ? v : v * sqrt(T(-1)); }
	void refill() {
		int i = (int)draw(N), style = (int)draw(8); bool sp = chance(2, 3); size_t n = dim();
		Table<T> t = shaped(n, style);
		if (chance(1, 3)) t.v[draw(t.v.size())] = Val<T>::small(2);
		if (chance(1, 4)) { t = Table<T>(dim(), dim()); for (auto& e : t.v) if (chance(1, 2)) e = Val<T>::small(3); }
		note("refill %s%d %zux%zu style %d", sp ? "s" : "d", i, t.r, t.c, style);
		sim::Lib l;
		if (sp) { S* q = new S(t.r, t.c); delete s[i]; s[i] = q; size_t off = t.v.size() / 2; for (size_t k = 0; k < t.v.size(); ++k) { size_t z = (k + off) % t.v.size(); q->linear_set(z, t.v[z]); } ts[i] = t; }
		else { D* q = new D(t.r, t.c); delete d[i]; d[i] = q; for (size_t k = 0; k < t.v.size(); ++k) q->linear_set(k, t.v[k]); td[i] = t; }
	}
	void update() {
		int i = (int)draw(N); bool sp = chance(2, 3); Table<T>& t = sp ? ts[i] : td[i]; size_t p = draw(t.v.size()); T v = chance(1, 3) ? T(0) : Val<T>::small(3);
		int m = (int)draw(3); uint64_t k = faults ? draw_fault(faults) : 0; Table<T> want = t;
		size_t r = p / t.c, c = p % t.c; if (m == 1 && (t.r != t.c)) m = 0;
		want.v[p] = v; if (m == 1) want.at(c, r) = v; if (m == 2) { want.v[p] = t.v[p]; for (auto& e : want.v) if (e == t.v[p]) e = T(0); }
		const T gone = t.v[p];
		Outcome o = attempt([&]() {
			if (m == 2) { if (sp) for (auto it = s[i]->begin(); it != s[i]->end();) { if (*it == gone) it = s[i]->erase(it); else ++it; } else for (auto it = d[i]->begin(); it != d[i]->end(); ++it) if (*it == gone) d[i]->erase(it); }
			else { if (sp) s[i]->set(r, c, v); else d[i]->set(r, c, v); if (m == 1) { if (sp) s[i]->set(c, r, v); else d[i]->set(c, r, v); } }
		}, k);
		note("update %s%d mode %d -> %s", sp ? "s" : "d", i, m, kind_name(o.kind));
		if (o.ok()) t = want; else { SIM_CHECK(o.fault && o.kind == OOM, "unexpected-exception", "update threw %s", o.type.c_str()); t = sp ? table_of<T>(*s[i]) : table_of<T>(*d[i]); }
		unchanged("update");
	}
	// ---- operations
	void convert() {
		int i = (int)draw(N), j = (int)draw(N); 
		if (chance(1, 2)) { D* r = made<D>("toDenseMatrix", nullptr, [&]() { return Convert::toDenseMatrix(*s[i]); }); { sim::Lib l; delete d[j]; } d[j] = r; td[j] = ts[i]; expect_table(table_of<T>(*r), ts[i], "result", "toDenseMatrix"); }
		else { S* r = made<S>("toSparseMatrix", nullptr, [&]() { return Convert::toSparseMatrix(*d[i]); }); { sim::Lib l; delete s[j]; } s[j] = r; ts[j] = td[i]; expect_table(table_of<T>(*r), td[i], "result", "toSparseMatrix"); stored(*r, td[i], "toSparseMatrix"); }
	}
	template <template <class> class M> void classify(const M<T>& m, const Table<T>& t, const char* w) {
		bool c[7]; classes(t, c); int first = (int)draw(7);
		for (int q = 0; q < 3; ++q) {
			int i = (first + q * 2) % 7; char nm[60]; snprintf(nm, sizeof nm, "%s %s?", w, class_name(i));
			bool got = value<bool>(nm, [&]() { return ask<T, M>(m, i); });
			SIM_CHECK(got == c[i], "classification", "%s is %s%s", w, c[i] ? "" : "not ", class_name(i));
			if (c[i]) sim::probe(class_name(i));
		}
	}
	void fixed_classes() {
		for (int i = 0; i < N; ++i) if (td[i].r == 3 && td[i].c == 3) {
			bool c[7]; classes(td[i], c); typedef FixedMatrix<T, 3, 3> F;
			Own<F> f(made<F>("fixed copy", nullptr, [&]() { F q; for (size_t z = 0; z < 9; ++z) q.linear_set(z, td[i].v[z]); return q; }));
			bool g[7] = { Check::matrixIsOrthogonal(*f.p), Check::matrixIsUnitary(*f.p), Check::matrixIsProjection(*f.p), Check::matrixIsSymmetric(*f.p), Check::matrixIsHermitian(*f.p), Check::matrixIsSkewSymmetric(*f.p), Check::matrixIsSkewHermitian(*f.p) };
			for (int q = 0; q < 7; ++q) SIM_CHECK(g[q] == c[q], "classification", "fixed matrix is %s%s", c[q] ? "" : "not ", class_name(q));
			double sc; T w = narrow<T>(det(td[i], sc)), x = Operations::determinant(*f.p);
			SIM_CHECK(std::abs(x - w) <= 1e-12 * sc, "determinant", "fixed matrix: determinant %s, expected %s", str(x), str(w));
			break;
		}
	}
	template <template <class> class M> void parts(const M<T>& m, const Table<T>& t, const char* w) {
		char nm[80]; size_t n = std::min(t.r, t.c);
		switch (draw(4)) {
		case 0: { snprintf(nm, sizeof nm, "diag(%s)", w); L want(n); for (size_t i = 0; i < n; ++i) want[i] = t.at(i, i);
			Own<V> r(made<V>(nm, nullptr, [&]() { return Construct::diag(m); })); SIM_CHECK(list_of<T>(*r.p) == want, "result", "%s differs", nm);
			Table<T> dd(n, n); for (size_t i = 0; i < n; ++i) dd.at(i, i) = want[i]; snprintf(nm, sizeof nm, "diag(diag(%s))", w);
			const V& v = *r.p; if (n) matrix<M<T> >(nm, dd, [&]() { return Construct::diag<M, T>(v); }); break; }
		case 1: case 2: { int k = g_large ? (int)range(-40, 40) : (int)range(-4, 4); bool lo = draw(2); Table<T> want(t.r, t.c);
			for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) { long off = (long)j - (long)i; if (lo ? off <= k : off >= k) want.at(i, j) = t.at(i, j); }
			snprintf(nm, sizeof nm, "%s(%s, %d)", lo ? "tril" : "triu", w, k); bool dflt = k == 0;
			matrix<M<T> >(nm, want, [&]() { return lo ? (dflt ? Construct::tril(m) : Construct::tril(m, k)) : dflt ? Construct::triu(m) : Construct::triu(m, k); }); break; }
		default: { size_t a = dim(), b = dim(); Table<T> want(a, b); for (size_t i = 0; i < a && i < b; ++i) want.at(i, i) = T(1); snprintf(nm, sizeof nm, "eye(%zu,%zu)", a, b); matrix<M<T> >(nm, want, [&]() { return Construct::eye<M, T>(a, b); }); break; }
		}
	}
	// a Cuthill-McKee numbering: breadth first, lowest degree first among the unnumbered and among the new neighbours of one row
	static void cm_order(const S& m, const Table<T>& t, const Perm& r) {
		size_t n = t.r; std::vector<size_t> pos(n, n);
		for (size_t i = 0; i < n; ++i) { SIM_CHECK(r[i] < n && pos[r[i]] == n, "ordering", "row %zu appears twice or does not exist", r[i]); pos[r[i]] = i; }
		bool sym = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) sym &= (t.at(i, j) != T(0)) == (t.at(j, i) != T(0));
		if (!sym) return;
		std::vector<size_t> deg(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) deg[i] += t.at(i, j) != T(0);
		size_t lastp = n, lastd = 0;
		for (size_t k = 0; k < n; ++k) {
			size_t v = r[k], par = n;
			for (size_t j = 0; j < n; ++j) if (j != v && t.at(v, j) != T(0) && pos[j] < k) par = std::min(par, pos[j]);
			if (par == n) { // a new component
				for (size_t q = 0; q < k; ++q) for (size_t j = 0; j < n; ++j) SIM_CHECK(t.at(r[q], j) == T(0) || pos[j] < k, "ordering", "row %zu is numbered before %zu, a neighbour of the earlier %zu", v, j, r[q]);
				for (size_t q = k; q < n; ++q) SIM_CHECK(deg[v] <= deg[r[q]], "ordering", "starts at row %zu with %zu entries although row %zu has %zu", v, deg[v], r[q], deg[r[q]]);
			} else {
				SIM_CHECK(lastp == n || par >= lastp, "ordering", "row %zu is numbered after the neighbours of later rows", v);
				SIM_CHECK(lastp != par || deg[v] >= lastd, "ordering", "row %zu with %zu entries is numbered after one with %zu", v, deg[v], lastd);
			}
			lastp = par; lastd = deg[v]; if (par == n) lastp = n;
		}
		(void)m; sim::probe("ordering of a symmetric pattern");
	}
	static Perm perm_of(const P& p) { Perm r(p.size()); for (size_t i = 0; i < r.size(); ++i) r[i] = p.at(i); return r; }
	void ordering() {
		int i = (int)draw(N); Table<T>& t = ts[i]; bool sq = t.r == t.c; const char* ref = sq ? nullptr : "NotSquareException";
		Own<P> a(made<P>("cuthill_mckee", ref, [&]() { return cuthill_mckee(*s[i]); })), b(made<P>("r_cuthill_mckee", ref, [&]() { return r_cuthill_mckee(*s[i]); }));
		if (!sq) return;
		SIM_CHECK(a.p->size() == t.r && b.p->size() == t.r, "ordering", "%zu rows but %zu numbers", t.r, a.p->size());
		Perm x = perm_of(*a.p), y = perm_of(*b.p); cm_order(*s[i], t, x);
		std::reverse(y.begin(), y.end()); SIM_CHECK(x == y, "ordering", "the reverse ordering is not the mirrored one");
		permuting(i, *a.p, x); { uint64_t q = 1; for (auto e : x) q = sim::mix(q, e); sim::state(sim::mix(q, t.hash())); }
	}
	void crowded_ordering() { // a row with more neighbours than eight bits can count
		const size_t n = 260 + draw(60), hub = draw(n), hub2 = draw(n); Table<T> t(n, n); auto link = [&](size_t a, size_t b) { t.at(a, b) = t.at(b, a) = T(1); };
		for (size_t i = 0; i < n; ++i) { if (draw(4)) t.at(i, i) = T(2); if (draw(8)) link(hub, i); if (draw(2)) link(hub2, i); if (draw(3) == 0) link(i, draw(n)); }
		Own<S> m(nullptr); { sim::Lib l; m.p = new S(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (t.at(i, j) != T(0)) m.p->set(i, j, t.at(i, j)); }
		Own<P> a(made<P>("cuthill_mckee", nullptr, [&]() { return cuthill_mckee(*m.p); }));
		SIM_CHECK(a.p->size() == n, "ordering", "%zu rows but %zu numbers", n, a.p->size());
		cm_order(*m.p, t, perm_of(*a.p)); sim::probe("ordering with a crowded row");
	}
	void permuting(int i, const P& p, const Perm& x) {
		Table<T>& t = ts[i]; const size_t n = x.size(); Table<T> want(n, n), pm(n, n); L v(n), vw(n); Perm inv(n);
		for (size_t a = 0; a < n; ++a) { inv[x[a]] = a; pm.at(a, x[a]) = T(1); v[a] = Val<T>::small(5); for (size_t b = 0; b < n; ++b) want.at(a, b) = t.at(x[a], x[b]); }
		for (size_t a = 0; a < n; ++a) vw[x[a]] = v[a];
		matrix<S>("permutation_matrix", pm, [&]() { return permutation_matrix<T>(p); });
		Own<P> q(made<P>("inverse_permutation", nullptr, [&]() { return inverse_permutation(p); })); SIM_CHECK(perm_of(*q.p) == inv, "permutation", "inverse_permutation is not the inverse");
		Own<S> m(made<S>("permutate(matrix)", nullptr, [&]() { return permutate(*s[i], p); })); expect_table(table_of<T>(*m.p), want, "permutation", "permutate(matrix)"); stored(*m.p, want, "permutate(matrix)");
		matrix<S>("permutate back", t, [&]() { return permutate(*m.p, *q.p); });
		V* in; { sim::Lib l; in = new V(n); } for (size_t a = 0; a < n; ++a) (*in)[a] = v[a]; Own<V> vi(in);
		Own<V> out(made<V>("permutate(vector)", nullptr, [&]() { return permutate(*in, p); })); SIM_CHECK(list_of<T>(*out.p) == vw, "permutation", "permutate(vector): entry i does not end up at p[i]");
		Own<V> back(made<V>("permutate(vector) back", nullptr, [&]() { return permutate(*out.p, *q.p); })); SIM_CHECK(list_of<T>(*back.p) == v && list_of<T>(*in) == v, "permutation", "permuting a vector and back changes it");
		SIM_CHECK(perm_of(p) == x, "operands", "the permutation changed"); sim::probe("permuted and back");
	}
	void own_permutation() {
		int i = (int)draw(N); Table<T>& t = ts[i]; size_t n = chance(1, 5) ? dim() : t.r; Perm x(n); for (size_t a = 0; a < n; ++a) x[a] = a; for (size_t a = n; a > 1; --a) std::swap(x[a - 1], x[draw(a)]);
		P* p; { sim::Lib l; p = new P(n); } for (size_t a = 0; a < n; ++a) (*p)[a] = x[a]; Own<P> own(p);
		if (t.r != t.c) { Own<S> r(made<S>("permutate a rectangle", "NotSquareException", [&]() { return permutate(*s[i], *p); })); return; }
		if (n != t.r) {
			Own<S> r(made<S>("permutate with a wrong length", "MismatchException", [&]() { return permutate(*s[i], *p); })); V* in; { sim::Lib l; in = new V(t.r); } Own<V> vi(in);
			Own<V> v(made<V>("permutate a vector with a wrong length", "VectorSizeMismatchException", [&]() { return permutate(*in, *p); })); return;
		}
		permuting(i, *p, x);
	}
	template <template <class> class M> void determinant(const M<T>& m, const Table<T>& t, const char* w) {
		char nm[60]; snprintf(nm, sizeof nm, "determinant(%s)", w); T got = value<T>(nm, [&]() { return Operations::determinant(m); }), want = T(0); double sc = 1;
		if (t.r == t.c) want = narrow<T>(det(t, sc));
		SIM_CHECK(std::abs(got - want) <= 1e-12 * sc, "determinant", "%s is %s, expected %s", nm, str(got), str(want)); if (std::abs(want) > 0.5) sim::probe("determinant of a regular matrix");
	}
	template <class M> void norms(const M& m, const Table<T>& t, const char* w) {
		if (!Val<T>::is_real || t.filled() != t.v.size()) return;
		double a = 0, b = 0, r[3]; for (size_t i = 0; i < t.r; ++i) { double mx = 0, mn = 1e300; for (size_t j = 0; j < t.c; ++j) { double q = std::abs(t.at(i, j)); mx = std::max(mx, q); mn = std::min(mn, q); } a += mx * mx; b += mn * mn; }
		Norms<T>::run(m, r); note("norms of %s", w);
		SIM_CHECK(std::fabs(r[0] - std::sqrt(a)) <= 1e-12 * r[0] && std::fabs(r[1] - std::sqrt(b)) <= 1e-12 * r[1] && std::fabs(r[2] - std::sqrt(a / b)) <= 1e-12 * r[2], "norm", "%s: %s, %s and condition %s", w, str(r[0]), str(r[1]), str(r[2]));
		sim::probe("norms compared");
	}
	void hilbert() {
		size_t n = 1 + draw(5); 
		Own<D> h(made<D>("hilbert", nullptr, [&]() { return Construct::hilbert<DenseMatrix, T>((Dimension)n); })); Own<S> g(made<S>("inv_hilbert", nullptr, [&]() { return Construct::inv_hilbert<SparseMatrix, T>((Dimension)n); }));
		Table<T> a = table_of<T>(*h.p), b = table_of<T>(*g.p), c = a.times(b); SIM_CHECK(a.r == n && a.c == n && b.r == n && b.c == n, "shape", "hilbert");
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { SIM_CHECK(std::abs(a.at(i, j) - T(1.0 / (double)(i + j + 1))) <= 1e-15, "result", "hilbert(%zu) at (%zu,%zu) is %s", n, i, j, str(a.at(i, j))); SIM_CHECK(std::abs(c.at(i, j) - T(i == j ? 1 : 0)) <= 1e-9, "result", "hilbert times inv_hilbert of order %zu has %s at (%zu,%zu)", n, str(c.at(i, j)), i, j); }
	}
	// entries far below the machine precision are entries like all others
	void tiny() {
		int i = (int)draw(N); size_t n = dim(), c = chance(1, 3) ? dim() : n; Table<T> t(n, c);
		for (auto& e : t.v) if (chance(1, 2)) e = chance(1, 2) ? Val<T>::small(3) * T(pick({ 1e-20, 1e-17, 1e-300, 1.0, 1e200 })) : Val<T>::small(2);
		if (n == c && chance(2, 3)) { const T sg = chance(1, 2) ? T(1) : T(-1); for (size_t a = 0; a < n; ++a) { for (size_t b = 0; b < a; ++b) t.at(a, b) = sg * t.at(b, a); if (sg != T(1)) t.at(a, a) = T(0); }
			if (n > 1 && chance(1, 3)) { size_t a = draw(n); T& e = t.at(a, a ? a - 1 : n - 1); e = e * T(1 + 1e-15) + T(1e-19); } } // not quite
		note("tiny entries in %zux%zu", n, c);
		{ sim::Lib l; S* q = new S(n, c); D* w = new D(n, c); delete s[i]; delete d[i]; s[i] = q; d[i] = w; for (size_t k = 0; k < t.v.size(); ++k) { q->linear_set(k, t.v[k]); w->linear_set(k, t.v[k]); } ts[i] = td[i] = t; }
		matrix<S>("toSparseMatrix", t, [&]() { return Convert::toSparseMatrix(*d[i]); }); matrix<D>("toDenseMatrix", t, [&]() { return Convert::toDenseMatrix(*s[i]); });
		bool cl[7] = { false }; if (n == c) { Table<T> tr = t.transposed(), ad = t.transposed(true); cl[3] = tr.same(t); cl[4] = ad.same(t); cl[5] = minus(tr).same(t); cl[6] = minus(ad).same(t); }
		const bool sp = chance(1, 2); int q = 3 + (int)draw(4); bool got = value<bool>("classify", [&]() { return sp ? ask<T, SparseMatrix>(*s[i], q) : ask<T, DenseMatrix>(*d[i], q); });
		SIM_CHECK(got == cl[q], "classification", "matrix with tiny entries is %s%s", cl[q] ? "" : "not ", class_name(q));
		if (sp) parts<SparseMatrix>(*s[i], ts[i], "sparse"); else parts<DenseMatrix>(*d[i], td[i], "dense");
		if (n == c) { Perm x(n); for (size_t a = 0; a < n; ++a) x[a] = a; for (size_t a = n; a > 1; --a) std::swap(x[a - 1], x[draw(a)]); P* p; { sim::Lib l; p = new P(n); } for (size_t a = 0; a < n; ++a) (*p)[a] = x[a]; Own<P> own(p); permuting(i, *p, x); }
		sim::probe("tiny and huge entries");
		sim::Lib l; S* q2 = new S(1, 1); D* w2 = new D(1, 1); delete s[i]; delete d[i]; s[i] = q2; d[i] = w2; ts[i] = td[i] = Table<T>(1, 1);
	}
	static bool numbers(const std::string& t, std::vector<double>& out) { // the numbers of a text, in order
		for (size_t i = 0; i < t.size();) { if (std::isdigit((unsigned char)t[i]) || (t[i] == '-' && i + 1 < t.size() && std::isdigit((unsigned char)t[i + 1]))) { char* e; out.push_back(strtod(t.c_str() + i, &e)); i = (size_t)(e - t.c_str()); } else ++i; }
		return true;
	}
	static void put(std::vector<double>& w, double v) { w.push_back(v); }
	static void put(std::vector<double>& w, std::complex<double> v) { w.push_back(v.real()); w.push_back(v.imag()); }
	void print() {
		int i = (int)draw(N), kind = (int)draw(3); std::vector<double> want, got; static char buf[1 << 18]; size_t len = 0;
		if (kind == 0) for (size_t q = 0; q < ts[i].v.size(); ++q) { if (ts[i].v[q] != T(0)) { want.push_back((double)(q / ts[i].c)); want.push_back((double)(q % ts[i].c)); put(want, ts[i].v[q]); } }
		if (kind == 1) for (auto& e : td[i].v) put(want, e);
		V* v = nullptr; if (kind == 2) { { sim::Lib l; v = new V(td[i].r); } for (size_t q = 0; q < td[i].r; ++q) { (*v)[q] = td[i].at(q, 0); put(want, td[i].at(q, 0)); } } Own<V> own(v);
		Outcome o = attempt([&]() { std::ostringstream out; if (kind == 0) out << *s[i]; else if (kind == 1) out << *d[i]; else out << *v; std::string str = out.str(); len = std::min(str.size(), sizeof buf); memcpy(buf, str.data(), len); });
		note("print %d -> %s", kind, kind_name(o.kind)); SIM_CHECK(o.ok(), "unexpected-exception", "printing threw %s", o.type.c_str()); unchanged("print");
		numbers(std::string(buf, len), got); SIM_CHECK(got == want, "printed", "the text \"%.200s\" does not hold the entries in order", std::string(buf, len).c_str());
		if (kind == 1) { size_t bars = 0; for (size_t q = 0; q < len; ++q) bars += buf[q] == '|'; SIM_CHECK(bars + 1 == td[i].r, "printed", "the text \"%.200s\" does not tell %zu rows apart", std::string(buf, len).c_str(), td[i].r); }
	}
	void run() {
		g_large = chance(1, 200);
		faults = chance(2, 3) ? (int)range(10, 60) : 0;
		for (int i = 0; i < N; ++i) { sim::Lib l; s[i] = new S(3, 3); d[i] = new D(3, 3); ts[i] = td[i] = Table<T>(3, 3); }
		for (int i = 0; i < N; ++i) refill();
		sim::plan_steps(2, g_large ? 10 : 18);
		while (sim::next_step()) {
			sim::set_step_budget(g_large ? 1000000000 : 30000000);
			int i = (int)draw(N); bool sp = chance(1, 2);
			switch (draw(19)) {
			case 17: tiny(); break;
			case 0: case 1: refill(); break;
			case 2: case 3: case 4: update(); break;
			case 5: case 6: convert(); break;
			case 7: case 8: if (sp) classify<SparseMatrix>(*s[i], ts[i], "sparse matrix"); else classify<DenseMatrix>(*d[i], td[i], "dense matrix"); break;
			case 9: if (sp) parts<SparseMatrix>(*s[i], ts[i], "sparse"); else parts<DenseMatrix>(*d[i], td[i], "dense"); break;
			case 10: case 11: case 12: if (chance(1, 6000)) { sim::set_step_budget(1000000000); crowded_ordering(); } else ordering(); break;
			case 13: own_permutation(); break;
			case 14: if (sp) determinant<SparseMatrix>(*s[i], ts[i], "sparse"); else determinant<DenseMatrix>(*d[i], td[i], "dense"); break;
			case 15: norms(*s[i], ts[i], "sparse"); norms(*d[i], td[i], "dense"); break;
			case 16: if (chance(1, 3)) hilbert(); else fixed_classes(); break;
			default: print(); break;
			}
			sim::state(sim::mix(ts[i].hash(), td[i].hash()));
			sim::nontrivial();
		}
	}
};
#if VF_BASIC > 1
static void run() { World<double> w; w.run(); }
#else
static void run() { if (chance(1, 3)) { World<std::complex<double> > w; w.run(); } else { World<double> w; w.run(); } }
#endif
int main(int argc, char** argv) {
	sim::Check c = { "C18", run, 60000, 600,
		"one evaluation = one seeded history of up to 18 updates, conversions, classifications, orderings, permutations, determinants and prints over 3 sparse and 3 dense matrices, with allocation failures and repeated calls; distinct = different event log; non-trivial = at least one operation judged against the table of entries",
		"MatrixConverter, MatrixConstructor, MatrixCheck, MatrixOrder, MatrixOperations, OutputStream with SparseMatrix, DenseMatrix, FixedMatrix, Vector (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"matrices of order 1 to 6 (at times up to 40) with small integer entries; the order of rows that Cuthill-McKee's rule leaves open is not prescribed" };
	return sim::runner_main(argc, argv, c);
}
