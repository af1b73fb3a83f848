// Every call of the library that only reads, on one set of objects of its own or shared with others.
#pragma once
#include "progs.h"
namespace h {
using namespace NS;
template <class T> static SparseMatrix<T> sparse_of(const Table<T>& t) { SparseMatrix<T> m(t.r, t.c); for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) if (t.at(i, j) != T(0)) m.set(i, j, t.at(i, j)); return m; }
template <class T> static DenseMatrix<T> dense_of(const Table<T>& t) { DenseMatrix<T> m(t.r, t.c); for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) m.set(i, j, t.at(i, j)); return m; }

template <class T> struct Set {
	size_t n, m;
	SparseMatrix<T> a, b, q, l, u, p, c; DenseMatrix<T> d, e, s, dl, du, dp; DynamicVector<T> x, y, r;
	FixedMatrix<T, 2, 3> f, g; FixedMatrix<T, 3, 3> k; FixedVector<T, 3> v, w;
	Set(Par par) : n(1 + par(5)), m(1 + par(5)), l(n, n), u(n, n), p(n, n), c(n, n), dl(n, n), du(n, n), dp(n, n), x(m), y(n), r(n) {
		Table<T> A(n, m), B(n, m), Q(n, n); int dens = (int)par(3);
		for (auto& z : A.v) if (!dens || par(3)) z = Num<T>::get(par);
		for (auto& z : B.v) if (!dens || par(3)) z = Num<T>::get(par);
		for (size_t i = 0; i < n; ++i) { Q.at(i, i) = T(30 + (double)par(5)); for (size_t j = 0; j < i; ++j) if (par(3)) { Q.at(i, j) = Num<T>::get(par); Q.at(j, i) = Val<T>::conj(Q.at(i, j)); } }
		a = sparse_of(A); b = sparse_of(B); q = sparse_of(Q); d = dense_of(A); e = dense_of(B); s = dense_of(Q);
		LU::serial::doolittle(q, l, u, p); LU::serial::doolittle(s, dl, du, dp);
		for (size_t i = 0; i < n; ++i) c.set(i, i, T(1) / Q.at(i, i));
		for (size_t i = 0; i < m; ++i) x[i] = Num<T>::get(par);
		for (size_t i = 0; i < n; ++i) { y[i] = Num<T>::get(par); r[i] = Num<T>::get(par); }
		for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) { f.set(i, j, Num<T>::get(par)); g.set(i, j, Num<T>::get(par)); }
		for (size_t i = 0; i < 3; ++i) { for (size_t j = 0; j < 3; ++j) k.set(i, j, Num<T>::get(par)); v[i] = Num<T>::get(par); w[i] = Num<T>::get(par); }
	}
	void all(Dig& o) const {
		o.mat(a); o.mat(b); o.mat(q); o.mat(l); o.mat(u); o.mat(p); o.mat(c); o.mat(d); o.mat(e); o.mat(s); o.mat(dl); o.mat(du); o.mat(dp);
		o.vec(x); o.vec(y); o.vec(r); o.mat(f); o.mat(g); o.mat(k); o.vec(v); o.vec(w);
		o.u(a.filled_count()); o.u(b.filled_count()); o.u(q.filled_count());
	}
};
template <class It> static void post_walk(It b, It e, Dig& o) { size_t n = 0; for (It it = b; it != e;) { o.u(it.row()); o.u(it.column()); It was = it++; o.num(*was); o.u(was == it); if (++n > 100000) break; } o.u(n); }
template <class T> struct RealOnly { static void sparse(const Set<T>&, Dig&) {} static void solve(const Set<T>&, uint64_t, Dig&) {} static void vec(const Set<T>&, Dig&) {} static void norms(const Set<T>&, unsigned, Dig&) {} static void reduce(const Set<T>&, Dig&) {} };
template <> struct RealOnly<double> {
	static void sparse(const Set<double>& s, Dig& o) { o.num(s.a.max()); o.num(s.a.min()); o.num(s.a.avg()); o.u(s.a.has_nan()); o.u(s.a.has_inf()); o.num(s.d.max()); o.num(s.d.min()); o.num(s.d.avg()); o.u(s.d.has_nan()); o.u(s.d.has_inf()); o.num(s.k.max()); o.num(s.k.min()); }
	static void solve(const Set<double>& s, uint64_t w, Dig& o) {
		size_t st = 0;
		if (w == 0) o.vec(CG::serial::cg(s.q, s.y, s.r, 4));
		else if (w == 1) o.vec(CG::serial::pcg(s.q, s.y, s.c, s.r, 4));
		else if (w == 2) { SparseMatrix<double> c(s.n, s.n); CG::serial::jacobi(s.q, c); o.mat(c); }
		else { o.vec(CG::serial::cg(s.s, s.y, s.r, 3, 1e-8, &st)); o.u(st); }
	}
	template <class M> static void norm(const M& m, unsigned w, Dig& o) { if (w == 0) o.num(Operations::max_norm2(m)); else if (w == 1) o.num(Operations::min_norm2(m)); else o.num(Operations::cond(m)); }
	static void norms(const Set<double>& s, unsigned w, Dig& o) { if (w % 2) norm(s.q, w / 2 % 3, o); else norm(s.s, w / 2 % 3, o); }
	static void reduce(const Set<double>& s, Dig& o) { o.num(s.q.max()); o.num(s.q.min()); o.num(s.s.max()); o.num(s.s.min()); o.u(s.k.has_nan()); o.u(s.k.has_inf()); o.num(s.f.max()); o.num(s.f.min()); o.num(s.f.avg()); o.num(s.d.avg()); o.num(s.k.avg()); o.u(s.f.has_nan()); o.u(s.f.has_inf()); o.u(s.v.hasNaN()); o.u(s.v.hasInf()); o.u(s.q.has_nan()); o.u(s.q.has_inf()); }
	static void vec(const Set<double>& s, Dig& o) { o.num(s.x.max()); o.num(s.x.min()); o.num(s.x.avg()); o.num(s.v.max()); o.num(s.v.min()); o.u(s.x.hasNaN()); o.u(s.x.hasInf()); o.u(s.v.hasZero()); o.num(s.x.mag()); o.num(s.v.mag()); }
};
struct World {
	Set<double> r; Set<C> z; Mesh2 mesh; Simplex<double, 2> tri; size_t order;
	GaussLegendreQuadrature<double, 1, 1> q11; GaussLegendreQuadrature<double, 1, 2> q12; GaussLegendreQuadrature<double, 1, 3> q13;
	GaussLegendreQuadrature<double, 2, 1> q21; GaussLegendreQuadrature<double, 2, 2> q22; GaussLegendreQuadrature<double, 2, 3> q23;
	PolyShapeFunction<double, 2, 1> s1; PolyShapeFunction<double, 2, 2> s2; PolyShapeFunction<double, 1, 2> s12;
	World(const Par& p, const Par& q, const Tri& t, size_t order_) : r(p), z(q), order(order_) {
		build(mesh, t);
		if (order == 1) PolyShapePolicy<double, 2, 1>::prepareMesh(mesh); else if (order == 2) PolyShapePolicy<double, 2, 2>::prepareMesh(mesh); // 0: not prepared for any element
		mesh.prepare();
		for (int k = 0; k < 3; ++k) for (int c = 0; c < 2; ++c) tri[k][c] = t.p[t.t[0][k]][c];
		tri.prepare();
	}
	uint64_t all() const { Dig o; r.all(o); z.all(o); o.mesh(mesh, true); o.simplex(tri, true); return o.h; }
};
struct Op { unsigned k; uint64_t a, b, c; };
enum { NSET = 41, NMESH = 12, NREST = 15, NOPS = 2 * NSET + NMESH + NREST };
template <class T, class M> static void iter_ops(const M& a, uint64_t i, uint64_t j, Dig& o) {
	o.walk(a.begin(), a.end()); o.walk(a.row_begin(i), a.row_end(i)); o.walk(a.column_begin(j), a.column_end(j));
	o.walk(a.cbegin(), a.cend()); o.walk(a.row_cbegin(i), a.row_cend(i)); o.walk(a.column_cbegin(j), a.column_cend(j));
}
template <class T> static void set_op(const Set<T>& s, const Op& p, unsigned k, Dig& o) {
	size_t i = p.a % s.n, j = p.b % s.m; T t = T((double)(p.c % 7) - 3);
	typedef SparseMatrix<T> S; typedef DenseMatrix<T> D; typedef DynamicVector<T> V;
	switch (k) {
	case 0: for (size_t r = 0; r < s.n; ++r) for (size_t c = 0; c < s.m; ++c) { o.num(s.a.at(r, c)); o.u(s.a.has(r, c)); o.num(s.a.linear_at(r * s.m + c)); } break;
	case 1: { T v = T(0); o.u(s.a.has(i, j, v)); if (s.a.has(i, j)) o.num(v); o.num(s.a.at(i, j)); o.num(s.a.at(0, 0)); break; }
	case 2: iter_ops<T>(s.a, i, j, o); break;
	case 3: o.u(s.a.filled_count()); o.u(s.a.row_filled_count(i)); o.u(s.a.column_filled_count(j)); o.u(s.a.size()); o.u(s.a.empty()); o.u(s.a.has_zero()); break;
	case 4: o.num(s.a.sum()); o.num(s.a.trace()); o.num(s.b.sum()); RealOnly<T>::sparse(s, o); break;
	case 5: o.u(s.a == s.b); o.u(s.a != s.b); o.u(s.a == s.a); o.u(s.d == s.e); o.u(s.d != s.d); o.u(s.k == s.k); break;
	case 6: { S r = s.a + s.b; o.mat(r); S q = s.a - s.b; o.mat(q); break; }
	case 7: { S r = s.a * s.b; o.mat(r); S q = -s.a; o.mat(q); S w = s.a * t; o.mat(w); break; }
	case 8: { S r = s.a.transpose(); o.mat(r); o.mat(s.b.adjugate()); o.mat(s.a.conjugate()); break; }
	case 9: { S r = s.q.mul(s.a); o.mat(r); o.mat(s.a.mul(s.b.transpose())); break; }
	case 10: { V r = s.a.mul(s.x); o.vec(r); V q = s.a.mul_left(s.y); o.vec(q); break; }
	case 11: { S r(s.a); o.mat(r); r.set(i, j, T(9)); o.num(s.a.at(i, j)); r = s.b; r += s.a; o.mat(r); r.swap(r); break; }
	case 12: { S L(s.n, s.n), U(s.n, s.n), P(s.n, s.n); size_t c = 0; LU::serial::doolittle(s.q, L, U, P, &c); o.mat(L); o.mat(U); o.mat(P); o.u(c); break; }
	case 13: { S L(s.n, s.n); LU::serial::cholesky(s.q, L); o.mat(L); break; }
	case 14: { S L(s.n, s.n), U(s.n, s.n); LU::serial::ilu0(s.q, L, U); o.mat(L); o.mat(U); break; }
	case 15: { V r = LU::serial::solve_lu(s.l, s.u, s.y); o.vec(r); S x(s.n, s.n), y(s.n, s.n); LU::serial::ainv_lu(s.l, s.u, x, y); o.mat(x); o.mat(y); break; }
	case 16: { o.mat(Operations::inverse(s.q)); o.num(Operations::determinant(s.q)); o.mat(Operations::inverse(s.l, s.u, s.p)); o.mat(Operations::inverse(s.l, s.u)); break; }
	case 17: { size_t st = 0; o.vec(Iterative::serial::jacobi(s.q, s.y, s.r, 4, 1e-9, &st)); o.u(st); o.vec(Iterative::serial::sor(s.q, s.y, s.r, 1.25, 3)); break; }
	case 18: RealOnly<T>::solve(s, p.c % 4, o); break;
	case 19: { DynamicVector<Index> v = cuthill_mckee(s.q); o.vec(v); DynamicVector<Index> w = inverse_permutation(v); o.vec(w); o.mat(permutate(s.q, v)); o.vec(permutate(s.y, w)); o.vec(r_cuthill_mckee(s.q)); break; }
	case 20: o.u(Check::matrixIsSymmetric(s.q)); o.u(Check::matrixIsHermitian(s.q)); o.u(Check::matrixIsSkewSymmetric(s.q)); o.u(Check::matrixIsSymmetric(s.s)); o.u(Check::matrixIsHermitian(s.s)); o.u(Check::matrixIsProjection(s.p)); break;
	case 21: for (size_t r = 0; r < s.n; ++r) for (size_t c = 0; c < s.m; ++c) { o.num(s.d.at(r, c)); o.u(s.d.has(r, c)); o.num(s.d.linear_at(r * s.m + c)); } iter_ops<T>(s.d, i, j, o); break;
	case 22: { D r = s.d + s.e; o.mat(r); D q = s.d - s.e; o.mat(q); D w = -s.d; o.mat(w); D x = s.d * s.e; o.mat(x); o.num(s.d.sum()); o.num(s.d.trace()); o.u(s.d.empty()); o.u(s.d.has_zero()); break; }
	case 23: { D r = s.d.transpose(); o.mat(r); o.mat(s.s.mul(s.d)); V v = s.d.mul(s.x); o.vec(v); o.vec(s.d.mul_left(s.y)); o.mat(s.e.adjugate()); o.mat(s.e.conjugate()); break; }
	case 24: { D r(s.d); r.set(i, j, T(9)); o.mat(s.d); r = s.e; r += s.d; o.mat(r); V v(s.x); v += s.x; o.vec(v); break; }
	case 25: { D L(s.n, s.n), U(s.n, s.n), P(s.n, s.n); LU::serial::doolittle(s.s, L, U, P); o.mat(L); o.mat(U); LU::serial::cholesky(s.s, L); o.mat(L); o.vec(LU::serial::solve_lu(s.dl, s.du, s.y)); o.mat(Operations::inverse(s.s)); o.num(Operations::determinant(s.s)); break; }
	case 26: { o.vec(Iterative::serial::jacobi(s.s, s.y, s.r, 3)); o.vec(Iterative::serial::sor(s.s, s.y, s.r, 1.0, 3)); break; }
	case 27: { o.vec(s.x); o.num(s.y.dot(s.r)); o.num(s.x.sum()); o.num(s.x.magSqr()); V v = s.y + s.r; o.vec(v); V w = s.y - s.r; o.vec(w); V x = s.y * s.r; o.vec(x); V y = s.y * t; o.vec(y); V z = -s.y; o.vec(z); o.u(s.y == s.r); o.u(s.x == s.x); for (auto e : s.x) o.num(e); RealOnly<T>::vec(s, o); break; }
	case 28: { auto r = s.f + s.g; o.mat(r); auto q = s.f.transpose(); o.mat(q); auto w = s.f.mul(s.k); o.mat(w); FixedVector<T, 2> v = s.f.mul(s.v); o.vec(v); FixedVector<T, 3> x = s.k.mul_left(s.v); o.vec(x); o.num(Operations::determinant(s.k)); o.num(s.f.sum()); iter_ops<T>(s.f, p.a % 2, p.b % 3, o); break; }
	case 29: {
		D ld = { { t, s.x[0] }, { s.y[0], t } }; S ls = { { t, s.x[0] }, { s.y[0], t } }; V lv = { t, s.x[0], s.y[0] }; FixedVector<T, 3> lf = { t, s.x[0], s.y[0] }; FixedMatrix<T, 2, 2> lm = { { t, s.x[0] }, { s.y[0], t } }; o.mat(ld); o.mat(ls); o.vec(lv); o.vec(lf); o.mat(lm);
		D d = Convert::toDenseMatrix(s.a); o.mat(d); S z = Convert::toSparseMatrix(s.d); o.mat(z); D e = Convert::toDenseMatrix(s.q); o.mat(e);
		std::ostringstream text; text.exceptions(std::ios::badbit); text << s.a << s.d << s.x << s.v << s.f; std::string t = text.str(); for (char c : t) o.u((uint64_t)(unsigned char)c); break; }
	case 30: post_walk(s.a.begin(), s.a.end(), o); post_walk(s.a.row_begin(i), s.a.row_end(i), o); post_walk(s.a.column_begin(j), s.a.column_end(j), o); post_walk(s.d.begin(), s.d.end(), o); post_walk(s.d.row_begin(i), s.d.row_end(i), o); post_walk(s.d.column_begin(j), s.d.column_end(j), o);
		post_walk(s.f.begin(), s.f.end(), o); post_walk(s.f.row_cbegin(1), s.f.row_cend(1), o); post_walk(s.f.column_cbegin(2), s.f.column_cend(2), o); { auto it = s.x.begin(); while (it != s.x.end()) { o.u(it.isValid()); o.num(*it++); } auto z = s.v.begin(); while (z != s.v.end()) o.num(*z++); } break;
	case 31: o.u(Check::matrixIsOrthogonal(s.q)); o.u(Check::matrixIsUnitary(s.q)); o.u(Check::matrixIsSkewHermitian(s.q)); o.u(Check::matrixIsProjection(s.q)); o.u(Check::matrixIsOrthogonal(s.p)); o.u(Check::matrixIsUnitary(s.p)); break;
	case 32: o.u(Check::matrixIsOrthogonal(s.s)); o.u(Check::matrixIsUnitary(s.s)); o.u(Check::matrixIsSkewHermitian(s.s)); o.u(Check::matrixIsSkewSymmetric(s.s)); o.u(Check::matrixIsProjection(s.dp)); o.u(Check::matrixIsOrthogonal(s.dp)); o.u(Check::matrixIsUnitary(s.dp));
#if !VF_BASIC
		o.u(Check::matrixIsOrthogonal(s.k)); o.u(Check::matrixIsUnitary(s.k)); o.u(Check::matrixIsSymmetric(s.k)); o.u(Check::matrixIsHermitian(s.k)); o.u(Check::matrixIsSkewSymmetric(s.k)); o.u(Check::matrixIsSkewHermitian(s.k)); o.u(Check::matrixIsProjection(s.k));
#endif
		break;
	case 33: { S e = Construct::eye<SparseMatrix, T>(s.n, s.m); o.mat(e); S g = Construct::diag<SparseMatrix, T>(s.y); o.mat(g); V v = Construct::diag(s.a); o.vec(v); S l = Construct::tril(s.a, (int32)(p.c % 4) - 2); o.mat(l); S u = Construct::triu(s.a, (int32)(p.b % 4) - 2); o.mat(u); S h = Construct::hilbert<SparseMatrix, T>(s.n); o.mat(h); S k = Construct::inv_hilbert<SparseMatrix, T>(s.n); o.mat(k); break; }
	case 34: { D e = Construct::eye<DenseMatrix, T>(s.n, s.m); o.mat(e); D g = Construct::diag<DenseMatrix, T>(s.y); o.mat(g); V v = Construct::diag(s.d); o.vec(v); D l = Construct::tril(s.d, (int32)(p.c % 4) - 2); o.mat(l); D u = Construct::triu(s.d, (int32)(p.b % 4) - 2); o.mat(u); D h = Construct::hilbert<DenseMatrix, T>(s.n); o.mat(h); D k = Construct::inv_hilbert<DenseMatrix, T>(s.n); o.mat(k); auto f = Construct::eye<T, 2, 3>(); o.mat(f); break; }
	case 35: { S r(s.a); r *= s.b; o.mat(r); r = s.a; r -= s.b; r *= t; o.mat(r); S q = t * s.a; o.mat(q); r.linear_set(i * s.m + j, t); o.num(r.linear_at(i * s.m + j)); if (r.begin() != r.end()) { auto it = r.set(r.begin(), T(5)); o.num(*it); *r.begin() = T(6); it = r.erase(r.begin()); o.u(it == r.end()); }
		o.walk(r.begin(), r.end()); o.walk(r.row_begin(i), r.row_end(i)); o.walk(r.column_begin(j), r.column_end(j)); r.swap(q); o.mat(r); S w(std::move(q)); o.mat(w); S z(s.n, s.m, 1 + p.c % 20); z = s.a; o.mat(z); break; }
	case 36: { D r(s.d); r *= s.e; o.mat(r); r -= s.e; r *= t; o.mat(r); D q = t * s.d; o.mat(q); q = s.d * t; o.mat(q); r.linear_set(i * s.m + j, t); auto it = r.begin(); it = r.set(it, T(5)); o.num(*it); *r.row_begin(i) = T(6); it = r.erase(r.begin()); o.walk(r.begin(), r.end()); o.walk(r.row_begin(i), r.row_end(i)); o.walk(r.column_begin(j), r.column_end(j)); r.swap(q); o.mat(r); q.resize(1 + p.a % 4, 1 + p.b % 4); o.u(q.rows() * 8 + q.columns()); D w(std::move(r)); o.mat(w); break; }
	case 37: { FixedMatrix<T, 2, 3> r(s.f); r += s.g; r -= s.f; r *= s.g; r *= t; o.mat(r); auto q = s.f * s.g; o.mat(q); q = s.f * t; o.mat(q); q = t * s.f; o.mat(q); r.swap(q); o.mat(r); r.set(r.begin(), t); r.erase(r.begin()); o.u(s.f == s.g); o.u(s.f != s.g); o.num(s.f.trace()); o.u(s.f.empty()); o.u(s.f.has_zero()); T v = T(0); o.u(s.f.has(1, 2, v)); o.num(v); o.u(s.f.has(0, 1)); o.num(s.f.linear_at(p.a % 6)); o.num(s.d.trace()); v = T(0); o.u(s.d.has(i, j, v)); o.num(v); RealOnly<T>::reduce(s, o); break; }
	case 38: { V r(s.y), d(s.r); T big = T(1000); d += big; r += s.r; r += t; r -= s.y; r -= t; r *= s.r; r *= t; r /= d; r /= (t + big); o.vec(r); V q = t + s.y; o.vec(q); q = t - s.y; o.vec(q); q = t * s.y; o.vec(q); q = s.y + t; o.vec(q); q = s.y - t; o.vec(q); q = t / d; o.vec(q); q = s.y / d; o.vec(q); q = s.y / (t + big); o.vec(q); o.u(s.y != s.r); o.u(s.y.has(0, s.n, t)); o.num(s.y.avg()); o.num(s.x.at(j)); d.do_reciprocal(); o.vec(d); q = d.normalized(); o.vec(q); q.set(i, t); q.fill(t); q.swap(r); o.vec(q); r.resize(1 + p.c % 9); o.u(r.size()); V w(std::move(q)); o.vec(w); break; }
	case 39: { typedef FixedVector<T, 3> F; F r(s.v), d(s.w); T big = T(1000); d += big; r += s.w; r += t; r -= s.w; r -= t; r *= s.w; r *= t; r /= d; r /= (t + big); o.vec(r); F q = t + s.v; o.vec(q); q = t - s.v; o.vec(q); q = t * s.v; o.vec(q); q = s.v + t; o.vec(q); q = s.v - t; o.vec(q); q = t / d; o.vec(q); q = s.v / d; o.vec(q); q = s.v / (t + big); o.vec(q); o.u(s.v != s.w); o.u(s.v.has(0, 3, t)); o.num(s.v.avg()); o.num(s.v.sum()); o.u(s.v.hasZero()); o.num(s.v.at(2)); d.do_reciprocal(); o.vec(d); q = d.normalized(); o.vec(q); q.set(1, t); q.fill(t); q.swap(r); o.vec(q);
		RealOnly<T>::norms(s, (unsigned)(p.c % 6), o); break; }
	default: { FixedVector<T, 3> a = s.v + s.w, b = s.v - s.w, c = s.v * t, d = -s.v, e = s.v * s.w; o.vec(a); o.vec(b); o.vec(c); o.vec(d); o.vec(e); o.num(s.v.dot(s.w)); o.num(s.v.magSqr()); o.u(s.v == s.w); o.num(s.v[1]); auto m = -s.f; o.mat(m); auto g = s.f - s.g; o.mat(g); o.mat(s.f.conjugate()); o.mat(s.f.adjugate()); break; }
	}
}
typedef FixedVector<double, 2> P2; typedef FixedVector<double, 1> P1;
static void op(const World& w, const Op& p, Dig& o, const char* file) {
	if (p.k < NSET) { set_op(w.r, p, p.k, o); return; }
	if (p.k < 2 * NSET) { set_op(w.z, p, p.k - NSET, o); return; }
	unsigned k = p.k - 2 * NSET; auto& m = w.mesh;
	auto e = m.element(p.a % m.elements().size()); const Simplex<double, 2>& s = p.b % 3 ? e->Element : w.tri;
	P2 x; x[0] = (double)(p.b % 9) / 8; x[1] = (double)(p.c % 9) / 8; P1 x1; x1[0] = x[0];
	switch (k) {
	case 0: o.mesh(m, true); break;
	case 1: m.validate(); o.u(m.elements().size()); break;
	case 2: for (size_t i = 0; i < m.vertices().size(); ++i) { auto v = m.vertex(i); o.u(v->GlobalIndex); o.vec(v->Vertex); o.u(v->Elements.size()); } break;
	case 3: for (size_t i = 0; i < m.edges().size(); ++i) { auto g = m.edge(i); o.u(g->Vertices[0]->GlobalIndex + g->Vertices[1]->GlobalIndex); o.u(g->DOFVertices.size()); } break;
	case 4: { Mesh2 c(m), d; d = c; Mesh2 f(std::move(c)); o.mesh(d, true); break; }
	case 5: for (auto q : m.elements()) { o.num(q->Element.volume()); o.num(q->Element.diameter()); for (int i = 0; i < 3; ++i) { o.vec(q->Element.faceCenter(i)); o.vec(q->Element.gradient(i)); } } break;
	case 6: o.vec(s.toLocal(x)); o.vec(s.toGlobal(x)); break;
	case 7: o.num(s.volume()); o.num(s.determinant()); o.mat(s.matrix()); o.mat(s.inverseMatrix()); break;
	case 8: for (int i = 0; i < 3; ++i) { o.vec(s.gradient(i)); o.vec(s.faceNormal(i)); o.vec(s.faceCenter(i)); o.vec(s[i]); } break;
	case 9: o.num(s.diameter()); o.vec(s.center()); o.num(s.outerRadius()); break;
	case 10: { Simplex<double, 2> c(s); c[0][0] += 1; c.prepare(); o.num(c.volume()); o.num(s.volume()); break; }
	case 11: { // a stiffness-like double loop, as an assembling reader does
		double sum = 0; auto& q = w.q22;
		for (auto g : m.elements()) { auto in = [&](const P2& v) -> double { return w.s1.value(0, v) * g->Element.toGlobal(v)[0]; }; sum += q.eval(in) * g->Element.volume() + g->Element.gradient(0).dot(g->Element.gradient(1)); }
		o.num(sum); break; }
	case 12: o.num(w.q11.eval([](const P1& v) -> double { return 1 + v[0]; })); o.num(w.q12.eval([](const P1& v) -> double { return v[0] * v[0]; })); o.num(w.q13.eval([](const P1& v) -> double { return v[0] * v[0]; })); break;
	case 13: o.num(w.q21.eval([](const P2& v) -> double { return v[0] + v[1]; })); o.num(w.q22.eval([](const P2& v) -> double { return v[0] * v[1]; })); break;
	case 14: o.num(w.q23.eval([&](const P2& v) -> double { o.vec(v); return v[0] * v[1]; })); break;
	case 15: o.num(w.q22.eval_index([&](Index i, const P2& v) -> double { o.u(i); return v[0] * (double)i; }, 2.0)); break;
	case 16: o.num(w.q12.eval([&](const P1& v) -> double { return v[0] * w.q23.eval([&](const P2& u) -> double { return u[0] * v[0]; }); })); break;
#if !VF_BASIC
	case 17: { FixedVector<double, 2> r = w.q22.eval([&](const P2& v) -> P2 { return v * 2.0; }, P2()); o.vec(r); break; }
#endif
	case 18: for (Index i = 0; i < 3; ++i) { o.num(w.s1.value(i, x)); o.vec(w.s1.gradient(i, x)); } break;
	case 19: for (Index i = 0; i < 6; ++i) { o.num(w.s2.value(i, x)); o.vec(w.s2.gradient(i, x)); } break;
	case 20: for (Index i = 0; i < 6; ++i) o.vec(w.s2.gradient2(i, x)); break;
	case 21: for (Index i = 0; i < 3; ++i) { o.num(w.s12.value(i, x1)); o.vec(w.s12.gradient(i, x1)); } break;
	case 22: { FixedVector<double, 6> n; for (size_t i = 0; i < 6; ++i) n[i] = (double)i - 2; for (Index i = 0; i < 6; ++i) { o.num(w.s2.value(i, x, n)); o.vec(w.s2.gradient(i, x, n)); } break; }
	case 23: if (w.order) { // each reader writes the shared mesh to a file of its own
		std::string f(file); DynamicVector<double> a(m.vertices().size()); for (size_t i = 0; i < a.size(); ++i) a[i] = (double)((p.b + i) % 17) / 4;
		std::map<std::string, DynamicVector<double>*> pv, cv; pv["u"] = &a;
		VTKExporter<double, 2>::write<DynamicVector<double>>(f, m, pv, cv, (int)(p.c % 32) | (w.order == 2 ? VOO_IsQuadratic : 0));
		std::string t = file_text(f.c_str()); for (char c : t) o.u((uint64_t)(unsigned char)c); o.u(t.size()); break; }
	case 24: { int32 n = 1 + (int32)(p.a % 9); uint32 k = (uint32)(p.b % (unsigned)n); o.u((uint64_t)Math::factorial(n)); o.u((uint64_t)Math::binom(n, k)); o.num(Math::binom((double)n + 0.5, k)); o.num((double)Math::sign_pow(n)); std::array<FixedVector<double, 3>, 2> a; for (int i = 0; i < 3; ++i) { a[0][i] = (double)(p.a % (unsigned)(5 + i)) + i; a[1][i] = (double)(p.b % (unsigned)(7 + i)) - 2 * i; } o.vec(Math::normal<double, 3>(a)); break; }
	case 25: for (size_t i = 0; i < m.elements().size(); ++i) { auto q = m.element(i); o.u(q == m.elements()[i]); for (int c = 0; c < 3; ++c) o.u(q->Neighbors[c]->Elements[0] == q); o.u(q->DOFVertices.size()); } break;
	default: { GaussLegendreQuadrature<double, 2, 2> c(w.q22); o.num(c.eval([](const P2& v) -> double { return v[0]; })); GaussLegendreQuadrature<double, 2, 3> fresh; o.num(fresh.eval([](const P2& v) -> double { return v[1] * v[1]; })); break; }
	}
}
} // namespace h
