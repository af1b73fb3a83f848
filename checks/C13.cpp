// C13: Jacobi and SOR apply textbook sweeps, may be cut off and resumed anywhere, and stop only for a reason.
#include "h.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "Iterative.h"
using namespace NS;
using namespace h;

// Reference iterate with a running rigorous bound on the rounding of any evaluation order.
template <class T> struct Ref {
	std::vector<T> x; std::vector<double> e; double change2, change_err;
	bool wild() const { for (size_t i = 0; i < x.size(); ++i) if (!(Val<T>::mag(x[i]) < 1e120) || !(e[i] < 1e100)) return true; return false; }
	void sweep(const Table<T>& a, const std::vector<T>& b, bool sor, double w) {
		const double u = 2.3e-16; const size_t n = x.size();
		std::vector<T> y = x; std::vector<double> f = e;
		for (size_t i = 0; i < n; ++i) {
			T t = b[i]; double s = std::abs(b[i]), p = 0; 
			for (size_t j = 0; j < n; ++j) if (j != i) {
				bool nw = sor && j < i;
				t -= a.at(i, j) * (nw ? y[j] : x[j]);
				s += std::abs(a.at(i, j)) * std::abs(nw ? y[j] : x[j]); p += std::abs(a.at(i, j)) * (nw ? f[j] : e[j]);
			}
			const double d = std::abs(a.at(i, i)); t /= a.at(i, i);
			if (sor) { y[i] = (1 - w) * x[i] + w * t; f[i] = std::fabs(1 - w) * e[i] + std::fabs(w) * p / d + 8 * (n + 4) * u * ((1 + std::fabs(w)) * std::abs(x[i]) + std::fabs(w) * s / d); }
			else { y[i] = t; f[i] = p / d + 8 * (n + 4) * u * s / d; }
		}
		change2 = 0; change_err = 0;
		for (size_t i = 0; i < n; ++i) { const double c = std::abs(y[i] - x[i]), g = f[i] + e[i]; change2 += c * c; change_err += 2 * c * g + g * g + 1e-14 * c * c; }
		x = y; e = f;
	}
};

template <class T, class M, class V> struct World {
	typedef std::vector<T> L;
	size_t n; M* a; V* b; V* x; Table<T> ta; L tb, tx;
	static void set_m(M& m, size_t i, size_t j, T v) { m.set(i, j, v); }
	World(size_t n_, M* a_, V* b_, V* x_) : n(n_), a(a_), b(b_), x(x_), ta(n_, n_), tb(n_), tx(n_) {}
	~World() { sim::Lib l; delete a; delete b; delete x; }
	void unchanged(const char* w) {
		expect_table(table_of<T>(*a), ta, "inputs", w);
		SIM_CHECK(list_of<T>(*b) == tb, "inputs", "%s: right-hand side changed", w);
		SIM_CHECK(list_of<T>(*x) == tx, "inputs", "%s: start vector changed", w);
	}
	bool zero_diag() const { for (size_t i = 0; i < n; ++i) if (ta.at(i, i) == T(0)) return true; return false; }
	static V solve(bool sor, const M& a, const V& b, const V& x, double w, size_t m, double eps, size_t* st, bool defaults) {
		namespace S = Iterative::serial;
		if (defaults) return sor ? S::sor(a, b, x) : S::jacobi(a, b, x);
		return sor ? S::sor(a, b, x, w, m, eps, st) : S::jacobi(a, b, x, m, eps, st);
	}
	// one call, judged against the reference; the result ends up in out
	void judged(bool sor, double w, size_t m, double eps, bool with_stat, bool defaults, uint64_t k, const L& from, const V* fromv, L& out) {
		char nm[160]; snprintf(nm, sizeof nm, "%s(w=%g, budget %zu, eps %g%s)", sor ? "sor" : "jacobi", w, m, eps, defaults ? ", defaults" : "");
		size_t st = 12345; V* r = nullptr;
		auto call = [&]() { r = new V(solve(sor, *a, *b, *fromv, w, m, eps, with_stat ? &st : nullptr, defaults)); };
		Outcome o = attempt(call, k);
		note("%s -> %s%s st=%zu", nm, kind_name(o.kind), o.fault ? " (allocation failed)" : "", st);
		unchanged(nm);
		if (o.fault && !o.ok()) {
			SIM_CHECK(o.kind == OOM || (zero_diag() && o.kind == NSX), "wrong-exception", "%s: memory exhaustion surfaced as %s %s", nm, kind_name(o.kind), o.type.c_str());
			sim::probe("repeated after memory exhaustion");
			st = 12345; o = attempt(call); note("  repeated -> %s st=%zu", kind_name(o.kind), st); unchanged(nm);
		}
		struct Del { V*& p; ~Del() { sim::Lib l; delete p; p = nullptr; } } del = { r };
		out = from;
		if (zero_diag()) {
			if (m == 0) { SIM_CHECK(o.ok() || o.kind == NSX, "wrong-exception", "%s: %s", nm, o.type.c_str()); return; }
			SIM_CHECK(!o.ok(), "zero-diagonal", "%s: returned although the diagonal holds a zero", nm);
			SIM_CHECK(o.kind == NSX && o.is("MatrixHasZeroInDiag"), "wrong-exception", "%s: zero diagonal surfaced as %s %s", nm, kind_name(o.kind), o.type.c_str());
			sim::probe("zero diagonal reported");
			return;
		}
		Ref<T> ref; ref.x = from; ref.e.assign(n, 0); ref.change2 = ref.change_err = 0;
		size_t todo = m;
		if (o.ok() && with_stat) {
			SIM_CHECK(st <= m, "sweep-count", "%s: reports %zu sweeps", nm, st);
			todo = st;
		}
		for (size_t s = 0; s < todo && !ref.wild(); ++s) {
			ref.sweep(ta, tb, sor, w);
			if (!with_stat && ref.change2 <= eps * eps) { // the caller cannot know how many sweeps there were
				bool clear = ref.change2 + ref.change_err < eps * eps;
				if (!clear) { out.assign(n, T(0)); return; }
				break;
			}
		}
		if (ref.wild()) { // diverged beyond what can be followed
			SIM_CHECK(o.ok() || o.is("MatrixHasZeroInDiag"), "wrong-exception", "%s: diverging run ended in %s", nm, o.type.c_str());
			out.assign(n, T(0)); sim::probe("diverged"); return;
		}
		SIM_CHECK(o.ok(), "unexpected-exception", "%s threw %s %s", nm, kind_name(o.kind), o.type.c_str());
		L got = list_of<T>(*r);
		SIM_CHECK(got.size() == n, "size", "%s: result has %zu entries, expected %zu", nm, got.size(), n);
		double worst = 0;
		for (size_t i = 0; i < n; ++i) {
			SIM_CHECK(std::abs(got[i] - ref.x[i]) <= ref.e[i] + 1e-290, "sweep", "%s: entry %zu after %zu sweeps is %s, the textbook update gives %s", nm, i, todo, str(got[i]), str(ref.x[i]));
			worst = std::max(worst, std::abs(got[i]));
		}
		if (with_stat && st < m) {
			SIM_CHECK(st > 0, "early-stop", "%s: stopped without a sweep", nm);
			SIM_CHECK(ref.change2 <= eps * eps + ref.change_err + 1e-290, "early-stop", "%s: stopped after %zu sweeps although the change was %s", nm, st, str(std::sqrt(ref.change2)));
			sim::probe("stopped within tolerance");
		}
		out = got;
		uint64_t hs = sim::mix(todo, m); for (size_t i = 0; i < n; ++i) { double d = Val<T>::mag(got[i]); uint64_t q; memcpy(&q, &d, 8); hs = sim::mix(hs, q >> 20); } sim::state(hs);
	}
	void set_b(const L& v) { for (size_t i = 0; i < n; ++i) (*b)[i] = v[i]; tb = v; }
	void set_x(const L& v) { for (size_t i = 0; i < n; ++i) (*x)[i] = v[i]; tx = v; }
	void put(size_t i, size_t j, T v) { { sim::Lib l; set_m(*a, i, j, v); } ta.at(i, j) = v; }
	void fill() {
		int style = (int)draw(4), dens = pick({ 100, 60, 30 });
		for (size_t i = 0; i < n; ++i) {
			double s = 0;
			for (size_t j = 0; j < n; ++j) if (i != j && (int)draw(100) < dens) { T v = Val<T>::small(3); put(i, j, v); s += std::abs(v); }
			T d = style == 0 ? T(s + 1) : style == 1 ? T(-(s + (double)draw(5) + 1)) : style == 2 ? T(1 + (double)draw(6)) : T(s + 1 + (double)draw(4));
			if (!Val<T>::is_real && chance(1, 3)) d = d * sqrt(T(-1));
			if (!Val<T>::is_real) d = d + T(0);
			put(i, i, d);
		}
		const double unit = pick({ 1.0, 1.0, 1.0, 1024.0, 1.0 / 1048576, 0.1, 1e-3 }); // the same system in other units
		if (unit != 1) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (ta.at(i, j) != T(0)) put(i, j, ta.at(i, j) * T(unit));
		L v(n); for (auto& e : v) e = Val<T>::small(6) * T(unit); set_b(v);
		for (auto& e : v) e = Val<T>::small(4); set_x(v);
	}
	void run(bool sized) {
		fill();
		sim::plan_steps(2, 14);
		while (sim::next_step()) {
			sim::set_step_budget(n > 8 ? 3000000000ull : 80000000);
			bool sor = chance(1, 2); double w = pick({ 1.0, 0.5, 1.5, 0.75, 1.25, 1.1, 0.9, 1.7, 0.3 });
			uint64_t k = draw_fault(30);
			switch (draw(8)) {
			case 0: case 1: case 2: { // sweeps from the current iterate, then on from there
				size_t m = chance(1, 12) ? 0 : 1 + draw(chance(1, 4) ? 60 : 8); double eps = pick({ 0.0, 1e-5, 1e-10, 1e-2, 0.5 }); L out; bool ws = chance(3, 4);
				judged(sor, w, m, eps, ws, false, k, tx, x, out);
				bool tame = true; for (auto& e : out) if (!(Val<T>::mag(e) < 1e60)) tame = false;
				if (tame) set_x(out); else set_x(L(n, T(0)));
				break; }
			case 3: { // k sweeps and m more are k+m sweeps
				size_t p = 1 + draw(6), q = 1 + draw(6); if (zero_diag()) break;
				V *one = nullptr, *two = nullptr;
				Outcome o = attempt([&]() { one = new V(solve(sor, *a, *b, *x, w, p + q, 0, nullptr, false)); V mid = solve(sor, *a, *b, *x, w, p, 0, nullptr, false); two = new V(solve(sor, *a, *b, mid, w, q, 0, nullptr, false)); }, k);
				note("split %zu+%zu -> %s", p, q, kind_name(o.kind)); unchanged("split run");
				struct Del { V*& p; V*& q; ~Del() { sim::Lib l; delete p; delete q; } } del = { one, two };
				if (!o.ok()) { SIM_CHECK((o.fault && o.kind == OOM) || o.is("MatrixHasZeroInDiag"), "unexpected-exception", "split run threw %s", o.type.c_str()); break; }
				L u = list_of<T>(*one), v = list_of<T>(*two);
				for (size_t i = 0; i < n; ++i) SIM_CHECK(u[i] == v[i] || !(Val<T>::mag(u[i]) < 1e150) || Val<T>::mag(u[i] - v[i]) < 1e-140, "resume", "%s: %zu sweeps then %zu more give %s in entry %zu, %zu at once give %s", sor ? "sor" : "jacobi", p, q, str(v[i]), i, p + q, str(u[i]));
				sim::probe("resumed run compared");
				break; }
			case 4: { L out; judged(sor, 1, 1024, 10e-6, false, true, k, tx, x, out); break; }
			case 5: { // new data
				int m = (int)draw(4); note("update %d", m);
				if (m == 0) { L v(n); for (auto& e : v) e = Val<T>::small(6); set_b(v); }
				else if (m == 1) { L v(n); for (auto& e : v) e = Val<T>::small(6); set_x(v); }
				else if (m == 2) { size_t i = draw(n), j = draw(n); if (i != j) put(i, j, Val<T>::small(3)); }
				else { size_t i = draw(n); put(i, i, chance(1, 3) ? T(0) : T(1 + (double)draw(9))); }
				break; }
			case 6: { // b as its own start
				L out; L keep = tx; judged(sor, w, 1 + draw(5), 0, true, false, k, tb, b, out); break; }
			default: if (sized) ill(sor, w, k); break;
			}
			sim::nontrivial();
		}
	}
	template <class MM, class VV> struct Dyn { static const bool yes = false; static MM m(size_t, size_t) { return MM(); } static VV v(size_t) { return VV(); } };
	template <class MM> struct Dyn<MM, DynamicVector<T> > { static const bool yes = true; static MM m(size_t r, size_t c) { return MM(r, c); } static DynamicVector<T> v(size_t s) { return DynamicVector<T>(s); } };
	void ill(bool sor, double w, uint64_t k) {
		typedef Dyn<M, V> D;
		if (!D::yes) return;
		size_t r = n, c = n, s = n, t = n; int m = (int)draw(4);
		if (m == 0) r = n + 1; else if (m == 1) c = n + 1; else if (m == 2) s = draw(2) ? n + 1 : n - 1; else t = draw(2) ? n + 1 : n - 1;
		Outcome o = attempt([&]() { M aa = D::m(r, c); for (size_t i = 0; i < r && i < c; ++i) aa.set(i, i, T(2)); V bb = D::v(s), xx = D::v(t); V res = solve(sor, aa, bb, xx, w, 3, 0, nullptr, false); }, k);
		note("ill-sized %d -> %s", m, kind_name(o.kind));
		SIM_CHECK(!o.ok(), "ill-sized", "%s accepted a %zux%zu matrix with b of %zu and x of %zu entries", sor ? "sor" : "jacobi", r, c, s, t);
		SIM_CHECK(o.kind == NSX || (o.fault && o.kind == OOM), "wrong-exception", "ill-sized input surfaced as %s", o.type.c_str());
		sim::probe("ill-sized input refused");
	}
};
template <class T> static void with() {
	size_t n = chance(1, 150) ? (size_t)pick({ 17, 33, 50 }) : 1 + draw(7); int kind = (int)draw(VF_BASIC ? 4 : 5);
	note("kind %d n %zu", kind, kind == 4 ? (size_t)3 : n);
	typedef DynamicVector<T> V;
	if (kind < 2) { SparseMatrix<T>* a; V *b, *x; { sim::Lib l; a = new SparseMatrix<T>(n, n); b = new V(n); x = new V(n); } World<T, SparseMatrix<T>, V> w(n, a, b, x); w.run(true); }
	else if (kind < 4) { DenseMatrix<T>* a; V *b, *x; { sim::Lib l; a = new DenseMatrix<T>(n, n); b = new V(n); x = new V(n); } World<T, DenseMatrix<T>, V> w(n, a, b, x); w.run(true); }
#if !VF_BASIC
	else { typedef FixedVector<T, 3> F; FixedMatrix<T, 3, 3>* a; F *b, *x; { sim::Lib l; a = new FixedMatrix<T, 3, 3>(); b = new F(); x = new F(); } World<T, FixedMatrix<T, 3, 3>, F> w(3, a, b, x); w.run(false); }
#endif
}
#if VF_BASIC > 1
static void run() { with<double>(); }
#else
static void run() { if (chance(1, 3)) with<std::complex<double> >(); else with<double>(); }
#endif
int main(int argc, char** argv) {
	sim::Check c = { "C13", run, 40000, 600,
		"one evaluation = one seeded history of up to 14 solver calls (Jacobi and SOR, sparse, dense and fixed, real and complex, order 1 to 7, at times up to 50) on an evolving system, cut off after drawn budgets and resumed, with allocation failures; distinct = different event log; non-trivial = at least one call judged against the reference sweeps",
		"Iterative.inl with SparseMatrix, DenseMatrix, FixedMatrix, Vector (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"iterates that grow beyond 1e120 are only required to end without a wrong exception" };
	return sim::runner_main(argc, argv, c);
}
