// C15: direct factorisations are right whatever their outputs held before, and however earlier ones ended.
#include "h.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "matrix/MatrixOperations.h"
#include "LU.h"
#include <memory>
using namespace NS;
using namespace h;
namespace S = LU::serial;

template <class T> struct Wide;
template <> struct Wide<double> { typedef long double type; };
template <> struct Wide<std::complex<double> > { typedef std::complex<long double> type; };
static double absw(long double v) { return (double)fabsl(v); }
static double absw(std::complex<long double> v) { return (double)std::abs(v); }
static long double whole(long double v) { return roundl(v); }
static std::complex<long double> whole(std::complex<long double> v) { return std::complex<long double>(roundl(v.real()), roundl(v.imag())); }
// determinant of the leading m x m part of an integer matrix
template <class T> static typename Wide<T>::type det(const Table<T>& a, size_t m) {
	typedef typename Wide<T>::type W; std::vector<W> v(m * m); W d = 1;
	for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) v[i * m + j] = W(a.at(i, j));
	for (size_t k = 0; k < m; ++k) {
		size_t p = k; for (size_t i = k; i < m; ++i) if (absw(v[i * m + k]) > absw(v[p * m + k])) p = i;
		if (absw(v[p * m + k]) == 0) return 0;
		if (p != k) { d = -d; for (size_t j = 0; j < m; ++j) std::swap(v[p * m + j], v[k * m + j]); }
		d *= v[k * m + k];
		for (size_t i = k + 1; i < m; ++i) { W f = v[i * m + k] / v[k * m + k]; for (size_t j = k; j < m; ++j) v[i * m + j] -= f * v[k * m + j]; }
	}
	return whole(d);
}
template <class T> static Table<double> mags(const Table<T>& a) { Table<double> r(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) r.v[i] = std::abs(a.v[i]); return r; }

template <class M> struct Shape { static const bool dynamic = true; static const bool sparse = false; static M* make(size_t r, size_t c) { return new M(r, c); } };
template <class T> struct Shape<SparseMatrix<T> > { static const bool dynamic = true; static const bool sparse = true; static SparseMatrix<T>* make(size_t r, size_t c) { return new SparseMatrix<T>(r, c); } };
template <class T, Dimension A, Dimension B> struct Shape<FixedMatrix<T, A, B> > { static const bool dynamic = false; static const bool sparse = false; static FixedMatrix<T, A, B>* make(size_t, size_t) { return new FixedMatrix<T, A, B>(); } };

template <class T, class M, bool D> struct More { // only for dynamic matrices
	static void inverse3(M*& r, const M& a, const M& l, const M& u, const M& p, int m) { r = new M(m == 0 ? Operations::inverse(a) : m == 1 ? Operations::inverse(l, u, p) : Operations::inverse(l, u)); }
	static void ainv(const M& l, const M& u, M& x, M& y) { S::ainv_lu(l, u, x, y); }
};
template <class T, class M> struct More<T, M, false> { static void inverse3(M*&, const M&, const M&, const M&, const M&, int) {} static void ainv(const M&, const M&, M&, M&) {} };
template <class T, class M> struct Ilu { static void run(const M&, M&, M&) {} };
template <class T> struct Ilu<T, SparseMatrix<T> > { static void run(const SparseMatrix<T>& a, SparseMatrix<T>& l, SparseMatrix<T>& u) { S::ilu0(a, l, u); } };

template <class T, class M, class V> struct World {
	typedef std::vector<T> L; typedef Shape<M> Sh;
	size_t n; enum { NM = 5 }; M* m[NM]; M* a; // m: reused outputs
	Table<T> ta, ti; // the matrix, and the integer matrix it is a multiple of
	World(size_t n_) : n(n_) { sim::Lib l; for (auto& p : m) p = Sh::make(n, n); a = Sh::make(n, n); }
	~World() { sim::Lib l; for (auto& p : m) delete p; delete a; }
	void load(const Table<T>& whole) {
		const double unit = pick({ 1.0, 1.0, 1.0, 1024.0, 1048576.0, 1.0 / 64 });
		Table<T> t = whole; ti = whole; for (auto& e : t.v) e *= T(unit);
		ta = t; sim::Lib l;
		if (Sh::dynamic) { M* q = Sh::make(t.r, t.c); delete a; a = q; }
		for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) a->set(i, j, t.at(i, j));
	}
	bool large() const { return n > 8; } // then only matrices whose rank needs no exact arithmetic
	Table<T> general(int style) const {
		if (large() && style == 0) style = 1;
		Table<T> t(n, n); int dens = pick({ 100, 60, 35 });
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j || (int)draw(100) < dens) t.at(i, j) = Val<T>::small(4);
		if (style == 1) for (size_t i = 0; i < n; ++i) { double s = 1; for (size_t j = 0; j < n; ++j) if (i != j) s += std::abs(t.at(i, j)); t.at(i, i) = T(std::ceil(s)); } // dominant
		if (style == 2 && n > 1) { size_t k = draw(n); bool row = draw(2); for (size_t j = 0; j < n; ++j) (row ? t.at(k, j) : t.at(j, k)) = T(0); } // structurally singular
		if (style == 3) { for (auto& e : t.v) e = T(0); for (size_t i = 0; i < n; ++i) t.at(i, (i * 1 + 1) % n) = T(1 + (double)draw(4)); } // every diagonal pivot starts at zero
		return t;
	}
	Table<T> hermitian(int style) const {
		if (large() && style == 2) style = 0;
		Table<T> g(n, n); for (auto& e : g.v) e = Val<T>::small(2);
		Table<T> t = g.transposed(true).times(g);
		if (style == 0) for (size_t i = 0; i < n; ++i) t.at(i, i) += T(1 + (double)draw(3));
		else { size_t i = draw(n); t.at(i, i) = style == 1 ? T(-(double)draw(5)) : t.at(i, i) - T(1 + (double)draw(12)); for (size_t j = 0; j < n; ++j) if (j != i) t.at(j, j) += T(1); }
		return t;
	}
	void unchanged(const char* w) { expect_table(table_of<T>(*a), ta, "inputs", w); }
	// runs f, failing allocation k; after memory exhaustion runs it again with the outputs as they were left
	template <class F> Outcome tried(const char* nm, F f, uint64_t k) {
		Outcome o = attempt(f, k);
		note("%s -> %s%s%s", nm, kind_name(o.kind), o.kind == NSX ? o.type.c_str() : "", o.fault ? " (allocation failed)" : "");
		unchanged(nm);
		if (o.fault && !o.ok()) {
			if (o.kind != NSX) SIM_CHECK(o.kind == OOM, "wrong-exception", "%s: memory exhaustion surfaced as %s", nm, o.type.c_str());
			if (chance(1, 3)) { load(general((int)draw(2))); note("  moved on to another matrix"); return o; } // left behind for the next call
			sim::probe("repeated after memory exhaustion");
			o = attempt(f); note("  repeated -> %s", kind_name(o.kind)); unchanged(nm); o.fault = false;
		}
		SIM_CHECK(o.ok() || o.kind == NSX, "wrong-exception", "%s ended in %s %s", nm, kind_name(o.kind), o.type.c_str());
		return o;
	}
	static void lower(const Table<T>& t, bool unit, const char* nm, const char* w) {
		for (size_t i = 0; i < t.r; ++i) for (size_t j = i; j < t.c; ++j) {
			if (j > i) SIM_CHECK(t.at(i, j) == T(0), "triangular", "%s: %s has %s above the diagonal at (%zu,%zu)", nm, w, str(t.at(i, j)), i, j);
			else if (unit) SIM_CHECK(t.at(i, i) == T(1), "triangular", "%s: %s has %s on the diagonal at %zu", nm, w, str(t.at(i, i)), i);
		}
	}
	static void upper(const Table<T>& t, const char* nm, const char* w, double dust) {
		for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < i; ++j) SIM_CHECK(std::abs(t.at(i, j)) <= dust, "triangular", "%s: %s has %s below the diagonal at (%zu,%zu)", nm, w, str(t.at(i, j)), i, j);
	}
	static void product(const Table<T>& l, const Table<T>& u, const Table<T>& want, const char* nm, double tol, const Table<T>* pattern = nullptr) {
		Table<T> g = l.times(u); Table<double> s = mags(l).times(mags(u));
		for (size_t i = 0; i < g.r; ++i) for (size_t j = 0; j < g.c; ++j) {
			if (pattern && pattern->at(i, j) == T(0)) continue;
			SIM_CHECK(std::abs(g.at(i, j) - want.at(i, j)) <= tol * (s.at(i, j) + std::abs(want.at(i, j))), "product", "%s: the product has %s at (%zu,%zu), expected %s", nm, str(g.at(i, j)), i, j, str(want.at(i, j)));
		}
	}
	static void solves(const Table<T>& t, const L& x, const L& b, const char* nm, double growth) {
		for (size_t i = 0; i < t.r; ++i) {
			T s = T(0); double sc = std::abs(b[i]); for (size_t j = 0; j < t.c; ++j) { s += t.at(i, j) * x[j]; }
			double xm = 0; for (auto& e : x) xm = std::max(xm, std::abs(e));
			sc += growth * xm;
			SIM_CHECK(std::abs(s - b[i]) <= 1e-11 * sc, "solution", "%s: equation %zu gives %s instead of %s", nm, i, str(s), str(b[i]));
		}
	}
	void solve_with(const M& l, const M& u, const M* p, const Table<T>& t, bool regular, bool struct_sing, double growth, uint64_t k) {
		L b(n); for (auto& e : b) e = Val<T>::small(6);
		V* bv; { sim::Lib s; bv = new_vec(); } for (size_t i = 0; i < n; ++i) (*bv)[i] = b[i];
		V* x = nullptr; struct Del { V*& p; V*& q; ~Del() { sim::Lib l; delete p; delete q; } } del = { bv, x };
		auto call = [&]() { x = new V(p ? S::solve_lu(l, u, V(p->mul(*bv))) : S::solve_lu(l, u, *bv)); };
		Outcome o = attempt(call, k); note("  solve -> %s", kind_name(o.kind));
		if (o.fault && o.kind == OOM) { o = attempt(call); sim::probe("solve repeated after memory exhaustion"); }
		SIM_CHECK(list_of<T>(*bv) == b, "inputs", "solve changed the right-hand side");
		if (struct_sing) { SIM_CHECK(!o.ok(), "singular-accepted", "a singular system was solved"); SIM_CHECK(o.is("SingularException"), "wrong-exception", "singular system surfaced as %s", o.type.c_str()); sim::probe("singular system refused"); return; }
		if (!regular) { SIM_CHECK(o.ok() || o.is("SingularException"), "wrong-exception", "solve ended in %s", o.type.c_str()); return; }
		SIM_CHECK(o.ok(), "unexpected-exception", "solving a regular system threw %s", o.type.c_str());
		solves(t, list_of<T>(*x), b, "solve", growth);
	}
	V* new_vec() { return mk((V*)nullptr); }
	V* mk(DynamicVector<T>*) { return (V*)(void*)new DynamicVector<T>(n); }
	template <Dimension K> V* mk(FixedVector<T, K>*) { return new V(); }
	void inverse_ok(const Table<T>& inv, const char* nm) {
		Table<T> g = ta.times(inv); Table<double> s = mags(ta).times(mags(inv)); double gm = 1; for (auto e : s.v) gm = std::max(gm, e);
		double im = inv.mag(), am = ta.mag(); gm = std::max(gm, im * am * (double)n);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) SIM_CHECK(std::abs(g.at(i, j) - T(i == j ? 1 : 0)) <= 1e-11 * gm, "inverse", "%s: matrix times inverse has %s at (%zu,%zu)", nm, str(g.at(i, j)), i, j);
	}
	bool structurally_singular() const { // a zero row or column
		for (size_t i = 0; i < n; ++i) { bool r = true, c = true; for (size_t j = 0; j < n; ++j) { r &= ta.at(i, j) == T(0); c &= ta.at(j, i) == T(0); } if (r || c) return true; }
		return false;
	}
	void op_doolittle(uint64_t k) {
		int style = (int)draw(4); load(general(style));
		int i0 = (int)draw(NM), i1 = (i0 + 1) % NM, i2 = (i0 + 2) % NM; size_t piv = 999; bool wp = chance(3, 4);
		Outcome o = tried("doolittle", [&]() { S::doolittle(*a, *m[i0], *m[i1], *m[i2], wp ? &piv : nullptr); }, k);
		if (o.fault) return;
		bool regular = absw(det(ti, n)) >= 0.5, ss = structurally_singular();
		if (!o.ok()) { SIM_CHECK(!regular, "regular-refused", "doolittle refused a regular matrix (%s)", o.type.c_str()); SIM_CHECK(o.is("SingularException"), "wrong-exception", "singular matrix surfaced as %s", o.type.c_str()); sim::probe("singular matrix refused, outputs left half-done"); return; }
		Table<T> l = table_of<T>(*m[i0]), u = table_of<T>(*m[i1]), p = table_of<T>(*m[i2]);
		SIM_CHECK(l.r == n && l.c == n && u.r == n && u.c == n && p.r == n && p.c == n, "shape", "doolittle: factors have the wrong shape");
		std::vector<size_t> perm(n, n), seen(n, 0);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (p.at(i, j) != T(0)) { SIM_CHECK(p.at(i, j) == T(1) && perm[i] == n && !seen[j], "permutation", "doolittle: P is not a permutation"); perm[i] = j; seen[j] = 1; }
		for (size_t i = 0; i < n; ++i) SIM_CHECK(perm[i] < n, "permutation", "doolittle: row %zu of P is empty", i);
		double gr = std::max(u.mag(), ta.mag()) * std::max(1.0, l.mag()) * (double)n;
		lower(l, true, "doolittle", "L"); upper(u, "doolittle", "U", 1e-13 * gr);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) u.at(i, j) = T(0);
		product(l, u, p.times(ta), "doolittle", 1e-13);
		size_t sw = 0; { std::vector<size_t> q = perm; for (size_t i = 0; i < n; ++i) while (q[i] != i) { std::swap(q[i], q[q[i]]); ++sw; } }
		if (wp) SIM_CHECK(piv % 2 == sw % 2, "pivot-count", "doolittle: %zu row exchanges reported for a permutation of parity %zu", piv, sw % 2);
		sim::state(sim::mix(l.hash(), u.hash()));
		solve_with(*m[i0], *m[i1], m[i2], ta, regular, ss, gr, draw_fault(30));
		if (Sh::dynamic && chance(1, 2)) {
			int mode = (int)draw(3); bool plain = true; for (size_t i = 0; i < n; ++i) plain &= perm[i] == i; if (mode == 2 && !plain) mode = 1;
			M* r = nullptr; struct Del { M*& p; ~Del() { sim::Lib l; delete p; } } del = { r };
			auto call = [&]() { More<T, M, Sh::dynamic>::inverse3(r, *a, *m[i0], *m[i1], *m[i2], mode); };
			Outcome q = attempt(call, draw_fault(30)); note("  inverse %d -> %s", mode, kind_name(q.kind)); unchanged("inverse");
			if (q.fault && q.kind == OOM) q = attempt(call);
			if (ss) { SIM_CHECK(!q.ok() && q.is("SingularException"), "singular-accepted", "inverting a singular matrix: %s %s", kind_name(q.kind), q.type.c_str()); return; }
			if (!regular) { SIM_CHECK(q.ok() || q.is("SingularException"), "wrong-exception", "inverse ended in %s", q.type.c_str()); return; }
			SIM_CHECK(q.ok(), "unexpected-exception", "inverting a regular matrix threw %s", q.type.c_str());
			inverse_ok(table_of<T>(*r), "inverse"); sim::probe("inverse checked");
		}
		if (Sh::dynamic && regular && chance(1, 2)) op_ainv(i0, i1, (i0 + 3) % NM, (i0 + 4) % NM, l, u);
	}
	void op_ainv(int il, int iu, int ix, int iy, const Table<T>& l, const Table<T>& u) {
		auto call = [&]() { More<T, M, Sh::dynamic>::ainv(*m[il], *m[iu], *m[ix], *m[iy]); };
		Outcome o = attempt(call, draw_fault(40)); note("  ainv -> %s", kind_name(o.kind));
		if (o.fault && o.kind == OOM) o = attempt(call);
		bool sing = false, dim = false; for (size_t i = 0; i < n; ++i) { sing |= u.at(i, i) == T(0); dim |= std::abs(u.at(i, i)) < 1e-9; }
		if (sing) { SIM_CHECK(!o.ok() && o.is("SingularException"), "singular-accepted", "ainv_lu with a zero pivot: %s %s", kind_name(o.kind), o.type.c_str()); return; }
		if (dim) return;
		SIM_CHECK(o.ok(), "unexpected-exception", "ainv_lu threw %s", o.type.c_str());
		Table<T> x = table_of<T>(*m[ix]), y = table_of<T>(*m[iy]), id(n, n); for (size_t i = 0; i < n; ++i) id.at(i, i) = T(1);
		lower(x, true, "ainv_lu", "inverse of L"); upper(y, "ainv_lu", "inverse of U", 0);
		product(l, x, id, "ainv_lu (L)", 1e-11); product(u, y, id, "ainv_lu (U)", 1e-11);
		sim::probe("approximate inverse checked");
	}
	void op_cholesky(uint64_t k) {
		int style = (int)draw(3); load(hermitian(style)); int i0 = (int)draw(NM);
		Outcome o = tried("cholesky", [&]() { S::cholesky(*a, *m[i0]); }, k);
		if (o.fault) return;
		size_t bad = 0; double low = 1; for (size_t j = 1; j <= n && !bad; ++j) { auto d = det(ti, j); low = real_part(d); if (low <= 0.5) bad = j; }
		if (bad && low > -0.5 && bad > 1) { SIM_CHECK(o.ok() || o.is("NotPositiveDefinite"), "wrong-exception", "semidefinite matrix surfaced as %s", o.type.c_str()); return; } // zero up to rounding
		if (bad) { SIM_CHECK(!o.ok(), "indefinite-accepted", "cholesky accepted an indefinite matrix"); SIM_CHECK(o.is("NotPositiveDefinite"), "wrong-exception", "indefinite matrix surfaced as %s", o.type.c_str()); sim::probe("indefinite matrix refused, output left half-done"); return; }
		SIM_CHECK(o.ok(), "definite-refused", "cholesky refused a positive definite matrix (%s)", o.type.c_str());
		Table<T> l = table_of<T>(*m[i0]); lower(l, false, "cholesky", "L"); product(l, l.transposed(true), ta, "cholesky", 1e-13);
		for (size_t i = 0; i < n; ++i) SIM_CHECK(std::abs(l.at(i, i)) > 0, "triangular", "cholesky: zero on the diagonal");
		sim::state(sim::mix(7, l.hash()));
		M* u; { sim::Lib s; u = Sh::make(n, n); Table<T> t = l.transposed(true); for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) u->set(i, j, t.at(i, j)); }
		struct Del { M*& p; ~Del() { sim::Lib l; delete p; } } del = { u };
		solve_with(*m[i0], *u, nullptr, ta, true, false, ta.mag() * (double)n, draw_fault(30));
		sim::probe("cholesky solved");
	}
	static double real_part(long double v) { return (double)v; } static double real_part(std::complex<long double> v) { return (double)v.real(); }
	void op_ilu(uint64_t k) {
		if (!Sh::sparse) return;
		int style = (int)draw(4); load(general(style == 3 ? 0 : style)); int i0 = (int)draw(NM), i1 = (i0 + 1) % NM;
		// reference, also telling which pivots are used
		typedef typename Wide<T>::type W; std::vector<W> r(n * n); bool must = false, dim = false;
		for (size_t i = 0; i < n * n; ++i) r[i] = W(ta.v[i]);
		for (size_t i = 1; i < n && !must && !dim; ++i) for (size_t j = 0; j < i && !must; ++j) if (ta.at(i, j) != T(0)) {
			if (absw(r[j * n + j]) == 0 && (ta.at(j, j) == T(0) || j == 0)) { must = true; break; }
			if (absw(r[j * n + j]) < 1e-9) { dim = true; break; }
			W d = r[i * n + j] /= r[j * n + j];
			for (size_t q = j + 1; q < n; ++q) if (ta.at(i, q) != T(0)) r[i * n + q] -= d * r[j * n + q];
		}
		Outcome o = tried("ilu0", [&]() { Ilu<T, M>::run(*a, *m[i0], *m[i1]); }, k);
		if (o.fault || dim) return;
		if (must) { SIM_CHECK(!o.ok(), "singular-accepted", "ilu0 divided by a zero pivot"); SIM_CHECK(o.is("SingularException"), "wrong-exception", "zero pivot surfaced as %s", o.type.c_str()); sim::probe("zero pivot refused"); return; }
		SIM_CHECK(o.ok(), "regular-refused", "ilu0 refused a matrix with usable pivots (%s)", o.type.c_str());
		Table<T> l = table_of<T>(*m[i0]), u = table_of<T>(*m[i1]);
		SIM_CHECK(l.r == n && u.r == n, "shape", "ilu0: factors have the wrong shape");
		lower(l, true, "ilu0", "L"); upper(u, "ilu0", "U", 0);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (ta.at(i, j) == T(0)) SIM_CHECK((j < i ? l : u).at(i, j) == T(0), "pattern", "ilu0: fill at (%zu,%zu)", i, j);
		product(l, u, ta, "ilu0", 1e-11, &ta);
		sim::state(sim::mix(9, sim::mix(l.hash(), u.hash())));
		bool full = true; for (auto& e : ta.v) full &= e != T(0);
		if (full && absw(det(ti, n)) > 0.5) { double gr = std::max(u.mag(), ta.mag()) * std::max(1.0, l.mag()) * (double)n; if (gr < 1e5 * std::max(1.0, ta.mag())) solve_with(*m[i0], *m[i1], nullptr, ta, true, false, gr * 100, draw_fault(30)); }
		if (chance(1, 2)) op_ainv(i0, i1, (i0 + 2) % NM, (i0 + 3) % NM, l, u);
	}
	void op_ill(uint64_t k) {
		if (!Sh::dynamic) return;
		int w = (int)draw(24); size_t x = chance(1, 2) ? n + 1 : n > 1 ? n - 1 : n + 2;
		if (Sh::sparse && (w == 2 || w == 3)) w = 1; // sparse outputs are replaced, whatever their shape
		Outcome o = attempt([&]() {
			std::unique_ptr<M> sq(Sh::make(n, n)), bad(Sh::make(n, x)), tall(Sh::make(x, x)), o1(Sh::make(n, n)), o2(Sh::make(n, n)); std::unique_ptr<DynamicVector<T> > b(new DynamicVector<T>(x)), bn(new DynamicVector<T>(n));
			for (size_t i = 0; i < n; ++i) { sq->set(i, i, T(2)); o1->set(i, i, T(1)); o2->set(i, i, T(1)); } for (size_t i = 0; i < x; ++i) tall->set(i, i, T(2)); for (size_t i = 0; i < x && i < n; ++i) bad->set(i, i, T(2));
			switch (w) {
			case 0: S::cholesky(*bad, *o1); break;
			case 1: S::doolittle(*bad, *o1, *o2, *tall); break;
			case 2: S::doolittle(*sq, *tall, *o2, *o1); break;
			case 3: S::doolittle(*sq, *o1, *o2, *bad); break;
			case 4: S::cholesky(*sq, *bad); break;
			case 5: S::solve_lu(*sq, *sq, *b); break;
			case 6: S::solve_lu(*sq, *tall, *b); break;
			case 7: More<T, M, Sh::dynamic>::ainv(*sq, *sq, *tall, *o1); break;
			case 8: S::solve_lu(*bad, *sq, *bn); break;
			case 9: S::solve_lu(*sq, *bad, *bn); break;
			case 10: More<T, M, Sh::dynamic>::ainv(*bad, *sq, *o1, *o2); break;
			case 11: More<T, M, Sh::dynamic>::ainv(*sq, *bad, *o1, *o2); break;
			case 12: More<T, M, Sh::dynamic>::ainv(*sq, *sq, *bad, *o2); break;
			case 13: More<T, M, Sh::dynamic>::ainv(*sq, *sq, *o1, *bad); break;
			case 14: More<T, M, Sh::dynamic>::ainv(*sq, *tall, *o1, *o2); break;
			case 16: case 17: case 18: case 19: case 20: case 21: case 22: {
				M* r = nullptr; struct Del { M*& p; ~Del() { delete p; } } del = { r };
				if (w == 16) More<T, M, Sh::dynamic>::inverse3(r, *bad, *sq, *sq, *sq, 0); else if (w < 20) More<T, M, Sh::dynamic>::inverse3(r, *sq, w == 17 ? *bad : *sq, w == 17 ? *sq : w == 18 ? *bad : *tall, *sq, 2);
				else More<T, M, Sh::dynamic>::inverse3(r, *sq, w == 20 ? *tall : *sq, *sq, w == 21 ? *bad : w == 22 ? *tall : *sq, 1);
				break; }
			default: Ilu<T, M>::run(*bad, *o1, *o2); if (!Sh::sparse) S::solve_lu(*bad, *sq, *b); break;
			}
		}, k);
		note("ill-sized %d -> %s", w, kind_name(o.kind));
		SIM_CHECK(!o.ok(), "ill-sized", "ill-sized call %d was accepted", w);
		SIM_CHECK(o.kind == NSX || (o.fault && o.kind == OOM), "wrong-exception", "ill-sized call %d surfaced as %s", w, o.type.c_str());
		sim::probe("ill-sized call refused");
	}
	void run() {
		load(general(1));
		sim::plan_steps(2, 12);
		while (sim::next_step()) {
			sim::set_step_budget(n > 8 ? 1000000000 : 20000000);
			uint64_t k = draw_fault(30);
			switch (draw(8)) {
			case 0: case 1: case 2: op_doolittle(k); break;
			case 3: case 4: op_cholesky(k); break;
			case 5: case 6: if (Sh::sparse) op_ilu(k); else op_doolittle(k); break;
			default: op_ill(k); break;
			}
			sim::nontrivial();
		}
	}
};
template <class T> static void with() {
	size_t n = chance(1, 150) ? (size_t)pick({ 12, 17, 33 }) : 1 + draw(6); int kind = (int)draw(VF_BASIC ? 6 : 7); note("kind %d n %zu", kind, kind == 6 ? (size_t)3 : n);
	if (kind < 3) { World<T, SparseMatrix<T>, DynamicVector<T> > w(n); w.run(); }
	else if (kind < 6) { World<T, DenseMatrix<T>, DynamicVector<T> > w(n); w.run(); }
#if !VF_BASIC
	else { World<T, FixedMatrix<T, 3, 3>, FixedVector<T, 3> > w(3); w.run(); }
#endif
}
#if VF_BASIC > 1
static void run() { with<double>(); }
#else
static void run() { if (chance(1, 3)) with<std::complex<double> >(); else with<double>(); }
#endif
int main(int argc, char** argv) {
	sim::Check c = { "C15", run, 40000, 600,
		"one evaluation = one seeded history of up to 12 factorisations (Doolittle, Cholesky, ILU0), solves and inversions that share and reuse output matrices left by earlier, failed or interrupted calls, with allocation failures; distinct = different event log; non-trivial = at least one factorisation judged by its product",
		"LU.inl, MatrixOperations.inl with SparseMatrix, DenseMatrix, FixedMatrix, Vector (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"integer matrices of order 1 to 6 (at times up to 33, then diagonally dominant, permuted diagonal, definite or with an empty line); a singular matrix whose singularity only shows up to rounding may be either refused or factorised" };
	return sim::runner_main(argc, argv, c);
}
