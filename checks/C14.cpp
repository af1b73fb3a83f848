// C14: conjugate gradients under any budget, restart, allocation failure or throwing matrix.
#include "h.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "CG.h"
#include "Iterative.h"
using namespace NS;
using namespace h;
typedef double T;
typedef long double Q;
typedef std::vector<T> L;
typedef std::vector<Q> LQ;

struct Oops { int id; };
static int g_mul_left = -1; // products until the wrapped matrix throws

#if VF_BASIC > 1
template <class B> using Throwing = B;
#else
template <class B> struct Throwing : B {
	using B::B; using typename B::value_type;
	Throwing() {}
	static void tick() { if (g_mul_left >= 0 && g_mul_left-- == 0) { sim::fired("throwing-matrix"); throw Oops{ 42 }; } }
	template <class X> auto mul(const X& v) const -> decltype(std::declval<const B&>().mul(v)) { tick(); return B::mul(v); }
};
#endif

static LQ times(const Table<T>& a, const LQ& x) { LQ y(a.r, 0); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) y[i] += (Q)a.at(i, j) * x[j]; return y; }
static Q dot(const LQ& a, const LQ& b) { Q s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static LQ exact_solution(const Table<T>& a, const L& b) {
	size_t n = a.r; std::vector<LQ> m(n, LQ(n + 1));
	for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) m[i][j] = a.at(i, j); m[i][n] = b[i]; }
	for (size_t k = 0; k < n; ++k) for (size_t i = k + 1; i < n; ++i) { Q f = m[i][k] / m[k][k]; for (size_t j = k; j <= n; ++j) m[i][j] -= f * m[k][j]; }
	LQ x(n); for (size_t i = n; i-- > 0;) { Q s = m[i][n]; for (size_t j = i + 1; j < n; ++j) s -= m[i][j] * x[j]; x[i] = s / m[i][i]; }
	return x;
}
// squared energy norm of the error
static Q energy(const Table<T>& a, const LQ& xs, const LQ& x) { LQ d(x); for (size_t i = 0; i < d.size(); ++i) d[i] -= xs[i]; return dot(d, times(a, d)); }
static LQ up(const L& v) { return LQ(v.begin(), v.end()); }
// textbook (preconditioned) conjugate gradients, m steps
static LQ reference(const Table<T>& a, const Table<T>& c, const L& b, const L& x0, size_t m) {
	LQ x = up(x0), r = up(b), ax = times(a, x); for (size_t i = 0; i < r.size(); ++i) r[i] -= ax[i];
	LQ z = times(c, r), p = z; Q rz = dot(r, z);
	for (size_t k = 0; k < m && k < x.size() && rz > 1e-26L; ++k) {
		LQ t = times(a, p); Q al = rz / dot(t, p);
		for (size_t i = 0; i < x.size(); ++i) { x[i] += al * p[i]; r[i] -= al * t[i]; }
		z = times(c, r); Q q = dot(r, z), be = q / rz; rz = q;
		for (size_t i = 0; i < x.size(); ++i) p[i] = z[i] + be * p[i];
	}
	return x;
}

template <class M, class V> struct World {
	size_t n; M *a, *c; V *b, *x; Table<T> ta, tc; L tb, tx; bool have_c;
	World(size_t n_, M* a_, M* c_, V* b_, V* x_) : n(n_), a(a_), c(c_), b(b_), x(x_), ta(n_, n_), tc(n_, n_), tb(n_), tx(n_), have_c(false) {}
	~World() { g_mul_left = -1; sim::Lib l; delete a; delete c; delete b; delete x; }
	void set_b(const L& v) { for (size_t i = 0; i < n; ++i) (*b)[i] = v[i]; tb = v; }
	void set_x(const L& v) { for (size_t i = 0; i < n; ++i) (*x)[i] = v[i]; tx = v; }
	void unchanged(const char* w) {
		expect_table(table_of<T>(*a), ta, "inputs", w); expect_table(table_of<T>(*c), tc, "inputs", w);
		SIM_CHECK(list_of<T>(*b) == tb, "inputs", "%s: right-hand side changed", w);
		SIM_CHECK(list_of<T>(*x) == tx, "inputs", "%s: start vector changed", w);
	}
	void fill() {
		Table<T> g(n, n); int style = n > 8 ? 1 + (int)draw(2) : (int)draw(3), dens = pick({ 100, 50, 30 });
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) g.at(i, j) = (int)draw(100) < dens ? Val<T>::small(2) : 0;
		if (style == 0) { ta = g.transposed().times(g); for (size_t i = 0; i < n; ++i) ta.at(i, i) += 1 + (double)draw(3); }
		else if (style == 1) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) ta.at(i, j) = ta.at(j, i) = g.at(i, j); for (size_t i = 0; i < n; ++i) { double s = 1 + (double)draw(4); for (size_t j = 0; j < n; ++j) if (i != j) s += std::fabs(ta.at(i, j)); ta.at(i, i) = n > 8 ? std::ceil(1.5 * s) : s; } } // large ones well conditioned: rounding must not matter
		else for (size_t i = 0; i < n; ++i) { ta.at(i, i) = 2; if (i + 1 < n) ta.at(i, i + 1) = ta.at(i + 1, i) = -1; } // one-dimensional Laplacian
		const double unit = pick({ 1.0, 1.0, 1.0, 1024.0, 0.125 }); for (auto& e : ta.v) e *= unit;
		{ sim::Lib l; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a->set(i, j, ta.at(i, j)); }
		vectors();
	}
	void vectors() { L v(n); for (auto& e : v) e = Val<T>::small(6); set_b(v); for (auto& e : v) e = Val<T>::small(4); set_x(v); }
	// leaves c holding the Jacobi preconditioner whatever it held before
	bool jacobi(uint64_t k) {
		int dirt = (int)draw(4);
		for (size_t d = 0; d < n && dirt; ++d) { size_t i = draw(n), j = draw(n); T v = Val<T>::small(3); sim::Lib l; c->set(i, j, v); }
		Outcome o = attempt([&]() { CG::serial::jacobi(*a, *c); }, k);
		note("preconditioner -> %s", kind_name(o.kind));
		if (o.fault && !o.ok()) { SIM_CHECK(o.kind == OOM, "wrong-exception", "jacobi preconditioner: memory exhaustion surfaced as %s", o.type.c_str()); o = attempt([&]() { CG::serial::jacobi(*a, *c); }); sim::probe("repeated after memory exhaustion"); }
		SIM_CHECK(o.ok(), "unexpected-exception", "jacobi preconditioner threw %s", o.type.c_str());
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
			T want = i == j ? 1 / ta.at(i, i) : 0, got = c->at(i, j);
			SIM_CHECK(std::fabs(got - want) <= 1e-14 * std::fabs(want), "preconditioner", "jacobi preconditioner: entry (%zu,%zu) is %s, expected %s", i, j, str(got), str(want));
		}
		tc = table_of<T>(*c); have_c = true; unchanged("jacobi preconditioner");
		return true;
	}
	void identity() { sim::Lib l; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) c->set(i, j, i == j ? T(1 + (i % 2) * 3) : T(0)); tc = table_of<T>(*c); have_c = true; }
	V solve(bool pre, size_t m, double eps, size_t* st, bool defaults) const {
		namespace S = CG::serial;
		if (defaults) return pre ? S::pcg(*a, *b, *c, *x) : S::cg(*a, *b, *x);
		return pre ? S::pcg(*a, *b, *c, *x, m, eps, st) : S::cg(*a, *b, *x, m, eps, st);
	}
	L judged(bool pre, size_t m, double eps, bool ws, bool defaults, uint64_t k, int throw_at) {
		char nm[120]; snprintf(nm, sizeof nm, "%s(budget %zu, eps %g%s)", pre ? "pcg" : "cg", m, eps, defaults ? ", defaults" : "");
		size_t st = 12345; V* r = nullptr; struct Del { V*& p; ~Del() { sim::Lib l; delete p; } } del = { r };
		bool threw = false;
		auto call = [&]() { try { r = new V(solve(pre, m, eps, ws ? &st : nullptr, defaults)); } catch (const Oops& e) { threw = e.id == 42; } };
		g_mul_left = throw_at;
		Outcome o = attempt(call, k);
		bool hit = throw_at >= 0 && g_mul_left < 0; g_mul_left = -1;
		note("%s -> %s%s%s st=%zu", nm, threw ? "matrix threw" : kind_name(o.kind), o.fault ? " (allocation failed)" : "", hit ? " (throwing matrix)" : "", st);
		unchanged(nm);
		SIM_CHECK(o.ok() || (o.fault && o.kind == OOM), "unexpected-exception", "%s threw %s", nm, o.type.c_str());
		if (hit && o.ok() && !o.fault) SIM_CHECK(threw, "swallowed", "%s swallowed the exception its matrix threw", nm);
		if (!r) {
			SIM_CHECK(threw || !o.ok(), "unexpected-exception", "%s gave nothing", nm);
			sim::probe(threw ? "repeated after a throwing matrix" : "repeated after memory exhaustion");
			st = 12345; threw = false; o = attempt(call); note("  repeated -> %s st=%zu", kind_name(o.kind), st);
			SIM_CHECK(o.ok() && r, "unexpected-exception", "%s, repeated, threw %s", nm, o.type.c_str());
			unchanged(nm);
		}
		L got = list_of<T>(*r);
		SIM_CHECK(got.size() == n, "size", "%s: result has %zu entries", nm, got.size());
		if (ws) SIM_CHECK(st <= m, "step-count", "%s: reports %zu steps", nm, st);
		Table<T> id(n, n); for (size_t i = 0; i < n; ++i) id.at(i, i) = 1;
		LQ xs = exact_solution(ta, tb), g = up(got);
		for (size_t i = 0; i < n; ++i) SIM_CHECK(got[i] == got[i] && std::fabs(got[i]) < 1e100, "iterate", "%s: entry %zu is %s", nm, i, str(got[i]));
		Q e0 = energy(ta, xs, up(tx)), e = energy(ta, xs, g), slack = (n > 8 || m > n ? 1e-7L : 1e-9L) * e0 + (m > n || e0 < 1e-12L ? 1e-14L : 1e-20L) * (1 + dot(xs, times(ta, xs)));
		LQ ax = times(ta, g); Q rr = 0, sc = 0; for (size_t i = 0; i < n; ++i) { Q d = tb[i] - ax[i]; rr += d * d; sc = std::max(sc, (Q)std::fabs(tb[i]) + std::max(fabsl(ax[i]), (Q)std::fabs(tx[i]) * ta.mag())); }
		const Q res = sqrtl(rr), tiny = 1e-10L * sc;
		bool early = ws ? st < m : res <= eps * (1 + 1e-6L) + tiny;
		if (ws && st < m) {
			SIM_CHECK(res <= eps * (1 + 1e-6L) + tiny, "early-stop", "%s: stopped after %zu steps with residual %s", nm, st, str((double)res));
			sim::probe("stopped within tolerance");
		}
		if (!early || ws) {
			size_t steps = ws ? st : m; Q want = energy(ta, xs, reference(ta, pre ? tc : id, tb, tx, steps));
			SIM_CHECK(e <= want + slack, "iterate", "%s: error energy after %zu steps is %s, conjugate gradients give %s (start %s)", nm, steps, str((double)e), str((double)want), str((double)e0));
		}
		SIM_CHECK(e <= e0 * (1 + 1e-9L) + slack, "iterate", "%s: error grew from %s to %s", nm, str((double)e0), str((double)e));
		double q = (double)sqrtl(e); int ex; frexp(q, &ex); sim::state(sim::mix(sim::mix(tb.size() * 64 + m, st), sim::mix(ta.hash(), (uint64_t)ex)));
		return got;
	}
	void run(bool dyn) {
		fill();
		sim::plan_steps(2, 14);
		while (sim::next_step()) {
			sim::set_step_budget(n > 8 ? 3000000000ull : 80000000);
			bool pre = chance(1, 2); uint64_t k = draw_fault(25); int thr = chance(1, 6) ? (int)draw(6) : -1;
			double eps = pick({ 0.0, 1e-5, 1e-10, 1e-2, 0.5 });
			if (pre && !have_c) { if (chance(3, 4)) jacobi(draw_fault(30)); else identity(); }
			switch (draw(7)) {
			case 0: case 1: case 2: { size_t m = chance(1, 12) ? 0 : 1 + draw(chance(1, 4) ? 50 : 7); if (n > 8 && chance(1, 2)) m += 28; L out = judged(pre, m, eps, chance(3, 4), false, k, thr); set_x(out); break; } // and restart from there
			case 3: judged(pre, 1024, 10e-6, false, true, k, thr); break;
			case 4: { // start at the solution
				L s(n); for (auto& e : s) e = Val<T>::small(5);
				LQ bb = times(ta, up(s)); set_x(s); set_b(L(bb.begin(), bb.end()));
				L out = judged(pre, 1 + draw(9), eps, chance(1, 2), false, k, thr);
				for (size_t i = 0; i < n; ++i) SIM_CHECK(std::fabs(out[i] - s[i]) <= 1e-12 * (1 + std::fabs(s[i])), "at-solution", "started at the solution, entry %zu moved from %s to %s", i, str(s[i]), str(out[i]));
				sim::probe("started at the solution"); break; }
			case 5: { int m = (int)draw(3); if (m == 0) vectors(); else if (m == 1) { jacobi(k); } else { L out = judged(pre, n * 4 + 8, 1e-9, true, false, k, thr); LQ xs = exact_solution(ta, tb); for (size_t i = 0; i < n; ++i) SIM_CHECK(fabsl(out[i] - xs[i]) <= 1e-6L * (1 + fabsl(xs[i])), "not-solved", "%s with a full budget: entry %zu is %s, the solution has %s", pre ? "pcg" : "cg", i, str(out[i]), str((double)xs[i])); } break; }
			default: if (dyn) ill(k); break;
			}
			sim::nontrivial();
		}
	}
	template <class MM, class VV> struct Dyn { static const bool yes = false; static MM m(size_t, size_t) { return MM(); } static VV v(size_t) { return VV(); } };
	template <class MM> struct Dyn<MM, DynamicVector<T> > { static const bool yes = true; static MM m(size_t r, size_t c) { return MM(r, c); } static DynamicVector<T> v(size_t s) { return DynamicVector<T>(s); } };
	void ill(uint64_t k) {
		typedef Dyn<M, V> D; if (!D::yes) return;
		size_t r = n, cc = n, s = n, t = n, cr = n, ck = n; int m = (int)draw(8); const size_t w = chance(1, 2) ? n + 1 : n > 1 ? n - 1 : n + 2;
		bool pre = false, prec = false, zero = false;
		if (m == 0) r = w; else if (m == 1) cc = w; else if (m == 2) s = w; else if (m == 3) t = w; else if (m == 4) { pre = true; cr = w; } else if (m == 5) { pre = true; cr = ck = w; } else if (m == 6) { prec = true; cr = w; ck = chance(1, 2) ? w : n; } else { prec = true; zero = true; }
		size_t z = draw(n);
		Outcome o = attempt([&]() {
			M aa = D::m(r, cc), pc = D::m(cr, ck); V bb = D::v(s), xx = D::v(t);
			for (size_t i = 0; i < r && i < cc; ++i) aa.set(i, i, zero && i == z ? 0 : 2);
			for (size_t i = 0; i < cr && i < ck; ++i) pc.set(i, i, 0.5);
			bb.fill(1);
			if (prec) CG::serial::jacobi(aa, pc); else if (pre) CG::serial::pcg(aa, bb, pc, xx, 5); else CG::serial::cg(aa, bb, xx, 5);
		}, k);
		note("ill-posed %d -> %s", m, kind_name(o.kind));
		SIM_CHECK(!o.ok(), "ill-sized", "%s", zero ? "a preconditioner was built over a zero diagonal" : "ill-sized input was accepted");
		SIM_CHECK(o.kind == NSX || (o.fault && o.kind == OOM), "wrong-exception", "ill-posed input %d surfaced as %s", m, o.type.c_str());
		if (zero && !o.fault) SIM_CHECK(o.is("SingularException"), "wrong-exception", "zero diagonal surfaced as %s", o.type.c_str());
		sim::probe("ill-posed input refused");
	}
};
template <class M, class V> static void go(size_t n, bool dyn, M* a, M* c, V* b, V* x) { World<M, V> w(n, a, c, b, x); w.run(dyn); }
static void run() {
	size_t n = chance(1, 150) ? (size_t)pick({ 17, 25, 40, 60 }) : 1 + draw(7); int kind = (int)draw(VF_BASIC ? 4 : 5);
	note("kind %d n %zu", kind, kind == 4 ? (size_t)3 : n);
	typedef DynamicVector<T> V; typedef Throwing<SparseMatrix<T> > S; typedef Throwing<DenseMatrix<T> > D; typedef FixedMatrix<T, 3, 3> X; typedef FixedVector<T, 3> F;
	sim::lib_enter();
	if (kind < 2) { S *a = new S(n, n), *c = new S(n, n); V *b = new V(n), *x = new V(n); sim::lib_leave(); go(n, true, a, c, b, x); }
	else if (kind < 4) { D *a = new D(n, n), *c = new D(n, n); V *b = new V(n), *x = new V(n); sim::lib_leave(); go(n, true, a, c, b, x); }
#if !VF_BASIC
	else { X *a = new X(), *c = new X(); F *b = new F(), *x = new F(); sim::lib_leave(); go((size_t)3, false, a, c, b, x); }
#endif
}
int main(int argc, char** argv) {
	sim::Check c = { "C14", run, 40000, 600,
		"one evaluation = one seeded history of up to 14 conjugate-gradient calls (plain and preconditioned; sparse, dense, fixed) with drawn budgets, each restarting from the last result, with allocation failures and matrices that throw mid-solve; distinct = different event log; non-trivial = at least one call judged against the reference iterate",
		"CG.inl with SparseMatrix, DenseMatrix, FixedMatrix, Vector (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated; the matrix product is wrapped so that it can throw",
		"symmetric positive definite real systems of order 1 to 7 (at times up to 60) with small integer entries" };
	return sim::runner_main(argc, argv, c);
}
