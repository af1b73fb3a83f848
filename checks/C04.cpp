// C04: a sparse matrix equals a plain table of numbers after any history.
#include "h.h"
#include <memory>
using namespace NS;
using namespace h;

static bool g_large;  // now and then matrices with hundreds of rows, columns and entries
static bool g_tiny;   // values whose products underflow: sums are order dependent and not compared

template <class T> static T value() {
	if (g_tiny && chance(1, 3)) return sizeof(T) == 4 ? T(pick({ 1e-30, -1e-30, 1e-45 })) : T(pick({ 1e-200, -1e-200, 2e-200, 5e-324 }));
	return chance(1, 30) ? T(-0.0) : Val<T>::small(4);
}

template <class T> struct MinMax { static void check(const SparseMatrix<T>&, const Table<T>&, const char*) {} };
template <class T> struct MinMaxReal {
	static void check(const SparseMatrix<T>& m, const Table<T>& t, const char* w) {
		T mx = t.v[0], mn = t.v[0];
		for (T d : t.v) { mx = std::max(mx, d); mn = std::min(mn, d); }
		SIM_CHECK(m.max() == mx, "reduction", "%s: max() is %s, expected %s", w, str(m.max()), str(mx));
		SIM_CHECK(m.min() == mn, "reduction", "%s: min() is %s, expected %s", w, str(m.min()), str(mn));
		T avg = m.avg(), want = t.sum() / (T)(t.r * t.c);
		SIM_CHECK(g_tiny || std::fabs(avg - want) <= (sizeof(T) == 4 ? 1e-4 : 1e-12) * (1 + std::fabs(want)), "reduction", "%s: avg() is %s, expected %s", w, str(avg), str(want));
		SIM_CHECK(!m.has_nan() && !m.has_inf(), "reduction", "%s: claims NaN or infinity", w);
	}
};
template <> struct MinMax<double> : MinMaxReal<double> {};
template <> struct MinMax<float> : MinMaxReal<float> {};

template <class T, class I> static void walk_line(I it, I end, const Table<T>& t, size_t n, size_t line, bool row, const char* cls, const char* w) {
	size_t pos = 0;
	for (size_t s = 0; s < n; ++s) {
		while (pos < (row ? t.c : t.r) && (row ? t.at(line, pos) : t.at(pos, line)) == T(0)) ++pos;
		SIM_CHECK(it != end && !(it == end), cls, "%s: line %zu ended after %zu of %zu entries", w, line, s, n);
		I old = it++;
		SIM_CHECK((row ? old.row() : old.column()) == line && (row ? old.column() : old.row()) == pos && *old == (row ? t.at(line, pos) : t.at(pos, line)), cls, "%s: it++ on line %zu returned (%zu,%zu)", w, line, old.row(), old.column());
		SIM_CHECK(!(old == it) && old != it, cls, "%s: it++ on line %zu did not move", w, line);
		++pos;
	}
	SIM_CHECK(it == end && !(it != end), cls, "%s: line %zu holds more than %zu entries", w, line, n);
}
template <class T> static void check_full(const SparseMatrix<T>& m, SparseMatrix<T>& mut, const Table<T>& t, const char* w) {
	SIM_CHECK(m.rows() == t.r && m.columns() == t.c && m.size() == t.r * t.c, "shape", "%s: %zux%zu, expected %zux%zu", w, m.rows(), m.columns(), t.r, t.c);
	size_t filled = t.filled();
	SIM_CHECK(m.filled_count() == filled, "stored-count", "%s: filled_count %zu, expected %zu (only non-zero entries are stored)", w, m.filled_count(), filled);
	SIM_CHECK(m.empty() == (filled == 0), "stored-count", "%s: empty() wrong", w);
	SIM_CHECK(m.has_zero() == (filled != t.v.size()), "stored-count", "%s: has_zero() wrong", w);
	for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) {
		T e = t.at(i, j), x = T(77);
		SIM_CHECK(m.at(i, j) == e, "entry", "%s: at(%zu,%zu) is %s, expected %s", w, i, j, str(m.at(i, j)), str(e));
		SIM_CHECK(m.linear_at(i * t.c + j) == e, "entry", "%s: linear_at(%zu) differs", w, i * t.c + j);
		SIM_CHECK(m.has(i, j) == (e != T(0)), "presence", "%s: has(%zu,%zu) is %d for %s", w, i, j, (int)m.has(i, j), str(e));
		SIM_CHECK(m.has(i, j, x) == (e != T(0)) && x == e, "presence", "%s: has(%zu,%zu,val) wrong", w, i, j);
	}
	// the whole matrix, left to right, top to bottom
	size_t k = 0, steps = 0;
	for (auto it = m.begin(); it != m.end(); ++it) {
		SIM_CHECK(++steps <= filled, "iteration", "%s: iteration yields more than %zu entries", w, filled);
		while (k < t.v.size() && t.v[k] == T(0)) ++k;
		SIM_CHECK(it.row() == k / t.c && it.column() == k % t.c, "iteration", "%s: iterator at (%zu,%zu), expected (%zu,%zu)", w, it.row(), it.column(), k / t.c, k % t.c);
		SIM_CHECK(*it == t.v[k], "iteration", "%s: iterator value %s at (%zu,%zu), expected %s", w, str(*it), it.row(), it.column(), str(t.v[k]));
		++k;
	}
	SIM_CHECK(steps == filled, "iteration", "%s: iteration ended after %zu of %zu entries", w, steps, filled);
	steps = 0;
	for (auto it = mut.begin(); it != mut.end(); it++) { const auto& fixed = it; SIM_CHECK(++steps <= filled && *it == t.at(it.row(), it.column()) && *fixed == *it, "iteration", "%s: mutable iteration differs", w); }
	SIM_CHECK(steps == filled, "iteration", "%s: mutable iteration ended after %zu of %zu entries", w, steps, filled);
	// two walks over the same matrix: equal exactly when at the same entry
	steps = 0;
	for (auto it = m.cbegin(), jt = m.cbegin(); it != m.cend(); ++steps) {
		SIM_CHECK(it == jt && !(it != jt), "iterator-equality", "%s: two iterators at entry %zu differ", w, steps);
		auto old = it++;
		SIM_CHECK(old == jt && !(old == it) && old != it, "iterator-equality", "%s: it++ at entry %zu returned the wrong position", w, steps);
		++jt; SIM_CHECK(steps < filled, "iteration", "%s: iteration does not end", w);
	}
	for (size_t i = 0; i < t.r; ++i) {
		size_t n = 0, j = 0;
		for (size_t q = 0; q < t.c; ++q) n += t.at(i, q) != T(0);
		SIM_CHECK(m.row_filled_count(i) == n, "counts", "%s: row_filled_count(%zu) is %zu, expected %zu", w, i, m.row_filled_count(i), n);
		steps = 0;
		for (auto it = m.row_begin(i); it != m.row_end(i); ++it) {
			SIM_CHECK(++steps <= n, "row-iteration", "%s: row %zu yields more than %zu entries", w, i, n);
			while (j < t.c && t.at(i, j) == T(0)) ++j;
			SIM_CHECK(it.row() == i && it.column() == j && *it == t.at(i, j), "row-iteration", "%s: row iterator at (%zu,%zu), expected (%zu,%zu)", w, it.row(), it.column(), i, j);
			++j;
		}
		SIM_CHECK(steps == n, "row-iteration", "%s: row %zu ended after %zu of %zu entries", w, i, steps, n);
		walk_line(mut.row_begin(i), mut.row_end(i), t, n, i, true, "row-iteration", w);
		walk_line(m.row_cbegin(i), m.row_cend(i), t, n, i, true, "row-iteration", w);
	}
	for (size_t j = 0; j < t.c; ++j) {
		size_t n = 0, i = 0;
		for (size_t q = 0; q < t.r; ++q) n += t.at(q, j) != T(0);
		SIM_CHECK(m.column_filled_count(j) == n, "counts", "%s: column_filled_count(%zu) is %zu, expected %zu", w, j, m.column_filled_count(j), n);
		steps = 0;
		for (auto it = m.column_begin(j); it != m.column_end(j); ++it) {
			SIM_CHECK(++steps <= n, "column-iteration", "%s: column %zu yields more than %zu entries", w, j, n);
			while (i < t.r && t.at(i, j) == T(0)) ++i;
			SIM_CHECK(it.row() == i && it.column() == j && *it == t.at(i, j), "column-iteration", "%s: column iterator at (%zu,%zu), expected (%zu,%zu)", w, it.row(), it.column(), i, j);
			++i;
		}
		SIM_CHECK(steps == n, "column-iteration", "%s: column %zu ended after %zu of %zu entries", w, j, steps, n);
		walk_line(mut.column_begin(j), mut.column_end(j), t, n, j, false, "column-iteration", w);
		walk_line(m.column_cbegin(j), m.column_cend(j), t, n, j, false, "column-iteration", w);
	}
	if (!g_tiny) {
		SIM_CHECK(m.sum() == t.sum(), "reduction", "%s: sum() is %s, expected %s", w, str(m.sum()), str(t.sum()));
		SIM_CHECK(m.trace() == t.trace(), "reduction", "%s: trace() is %s, expected %s", w, str(m.trace()), str(t.trace()));
	}
	MinMax<T>::check(m, t, w);
	sim::state(t.hash());
}

// The matrix may hold the old or the new value at each entry.
template <class T> static void check_between(const SparseMatrix<T>& m, const Table<T>& a, const Table<T>& b, bool atomic, const char* w) {
	Table<T> g = table_of<T>(m);
	if (g.same(a) || g.same(b)) return;
	SIM_CHECK(!atomic, "half-done-update", "%s: a failed single-entry update changed other entries", w);
	SIM_CHECK(g.r == a.r && g.c == a.c && a.r == b.r && a.c == b.c, "half-done-update", "%s: shape %zux%zu after a failed call", w, g.r, g.c);
	for (size_t i = 0; i < g.v.size(); ++i)
		SIM_CHECK(g.v[i] == a.v[i] || g.v[i] == b.v[i], "half-done-update", "%s: after a failed call entry (%zu,%zu) is %s, neither the old %s nor the new %s", w, i / g.c, i % g.c, str(g.v[i]), str(a.v[i]), str(b.v[i]));
}

template <class T> struct World {
	enum { N = 4 };
	SparseMatrix<T>* m[N]; Table<T> t[N];
	World() { for (int i = 0; i < N; ++i) m[i] = nullptr; }
	~World() { sim::Lib l; for (int i = 0; i < N; ++i) delete m[i]; }

	static size_t dim() { return g_large ? (size_t)pick({ 33, 1, 17, 130, 40 }) : (size_t)pick({ 3, 1, 2, 4, 5, 7 }); }
	static double cap(double d) { return sizeof(T) == 4 ? std::sqrt(d) / 2 : d; } // keep the arithmetic exact
	void fresh(int i, size_t r, size_t c, size_t expected) {
		sim::Lib l; delete m[i]; m[i] = nullptr; m[i] = new SparseMatrix<T>(r, c, expected); t[i] = Table<T>(r, c);
	}
	int other_with(size_t r, size_t c, int dflt) { // a matrix of that shape, if there is one
		int s = (int)draw(N);
		for (int k = 0; k < N; ++k) { int q = (s + k) % N; if (t[q].r == r && t[q].c == c) return q; }
		return dflt;
	}
	template <class F> Outcome op(const char* name, int target, const Table<T>& want, bool atomic, uint64_t k, F f) {
		Table<T> old = t[target];
		Outcome o = attempt(f, k);
		note("%s -> m%d %zux%zu: %s%s", name, target, want.r, want.c, kind_name(o.kind), o.fault ? " (allocation failed)" : "");
		if (o.kind == OK) { t[target] = want; }
		else {
			SIM_CHECK(o.kind == OOM && o.fault, "unexpected-exception", "%s: threw %s although nothing failed", name, o.type.c_str());
			check_between(*m[target], old, want, atomic, name);
			t[target] = table_of<T>(*m[target]);
			sim::probe("call-failed-by-oom");
		}
		return o;
	}
	// ops that build a new matrix: result compared, operands must not change; result replaces m[dst]
	template <class F> void make(const char* name, int dst, const Table<T>& want, uint64_t k, F f) {
		SparseMatrix<T>* out = nullptr;
		Outcome o = attempt([&]() { out = new SparseMatrix<T>(f()); }, k);
		note("%s -> new %zux%zu: %s%s", name, want.r, want.c, kind_name(o.kind), o.fault ? " (allocation failed)" : "");
		if (o.kind == OK) { { sim::Lib l; delete m[dst]; } m[dst] = out; t[dst] = want; }
		else SIM_CHECK(o.kind == OOM && o.fault, "unexpected-exception", "%s: threw %s although nothing failed", name, o.type.c_str());
	}
	void vec(const char* name, const std::vector<T>& want, uint64_t k, std::function<DynamicVector<T>()> f) {
		std::vector<T> got; bool have = false;
		DynamicVector<T>* out = nullptr;
		Outcome o = attempt([&]() { out = new DynamicVector<T>(f()); }, k);
		if (out) { got = list_of<T>(*out); have = true; sim::Lib l; delete out; }
		note("%s: %s%s", name, kind_name(o.kind), o.fault ? " (allocation failed)" : "");
		if (have) {
			SIM_CHECK(got.size() == want.size(), "vector-product", "%s: %zu entries, expected %zu", name, got.size(), want.size());
			if (!g_tiny) for (size_t i = 0; i < want.size(); ++i) SIM_CHECK(got[i] == want[i], "vector-product", "%s: entry %zu is %s, expected %s", name, i, str(got[i]), str(want[i]));
		} else SIM_CHECK(o.kind == OOM && o.fault, "unexpected-exception", "%s: threw %s although nothing failed", name, o.type.c_str());
	}
	void check_all(const char* w) {
		for (int i = 0; i < N; ++i) { char b[80]; snprintf(b, sizeof b, "m%d after %s", i, w); check_full(*m[i], *m[i], t[i], b); }
		for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
			bool eq = *m[i] == *m[j], ne = *m[i] != *m[j], want = t[i].same(t[j]);
			SIM_CHECK(eq == want && ne == !want, "equality", "after %s: m%d == m%d is %d, expected %d", w, i, j, (int)eq, (int)want);
		}
	}

	// entries that are no numbers are found wherever they are
	static bool nanq(const SparseMatrix<double>& q) { return q.has_nan(); } static bool infq(const SparseMatrix<double>& q) { return q.has_inf(); }
	static bool nanq(const SparseMatrix<float>& q) { return q.has_nan(); } static bool infq(const SparseMatrix<float>& q) { return q.has_inf(); }
	template <class U> static bool nanq(const U&) { return false; } template <class U> static bool infq(const U&) { return false; }
	void not_finite(const Table<T>& X, uint64_t k) {
		if (!Val<T>::is_real) return;
		size_t n = X.v.size(), p = draw(n), p2 = draw(n); bool both = p2 != p && chance(1, 3), inf = chance(1, 2); double bad = inf ? (chance(1, 2) ? INFINITY : -INFINITY) : NAN;
		double other = chance(1, 3) ? NAN : chance(1, 2) ? INFINITY : -INFINITY; bool wn = !inf || (both && std::isnan(other)), wi = inf || (both && !std::isnan(other));
		bool hn = false, hi = false, rn = false, ri = false, has = false;
		Outcome o = attempt([&]() {
			SparseMatrix<T> q(X.r, X.c); for (size_t i = 0; i < n; ++i) if (X.v[i] != T(0)) q.linear_set(i, X.v[i]);
			q.linear_set(p, T(bad)); if (both) q.linear_set(p2, T(other)); hn = nanq(q); hi = infq(q); has = q.has(p / X.c, p % X.c);
			q.linear_set(p, T(0)); if (both) q.linear_set(p2, T(0)); rn = nanq(q); ri = infq(q);
		}, k);
		note("%s at %zu -> %s", inf ? "infinity" : "NaN", p, kind_name(o.kind));
		if (!o.ok()) { SIM_CHECK(o.fault && o.kind == OOM, "unexpected-exception", "threw %s", o.type.c_str()); return; }
		SIM_CHECK(has && hn == wn && hi == wi, "not-finite", "with %s at %zu%s: stored %d has_nan %d has_inf %d", str(bad), p, both ? (std::string(" and ") + str(other) + " at " + std::to_string(p2)).c_str() : "", (int)has, (int)hn, (int)hi);
		SIM_CHECK(!rn && !ri, "not-finite", "still reported after it was overwritten");
	}
	static double ulps() { return sizeof(T) == 4 ? 2e-6 : 4e-15; }
	void rounded(const SparseMatrix<T>& A, const Table<T>& X, uint64_t k) {
		T s = T(pick({ 3.0, -7.0, 0.1, 1.0 / 3, 10.0, -0.3 })), u = T(pick({ 0.7, 1.1, -1.0 / 7 })); int o = (int)draw(5); char nm[60]; snprintf(nm, sizeof nm, "rounded %d with %s", o, str(s));
		if (o < 3) {
			SparseMatrix<T>* r = nullptr; Table<T> want = X; for (auto& e : want.v) e = o == 2 ? (e * s) * (e * u) : e * s;
			Outcome q = attempt([&]() { std::unique_ptr<SparseMatrix<T> > c(new SparseMatrix<T>(A)); if (o == 0) *c *= s; else if (o == 1) { SparseMatrix<T> z = s * A; c->swap(z); } else { SparseMatrix<T> z = A * u; *c *= s; *c *= z; } r = c.release(); }, k);
			note("%s: %s%s", nm, kind_name(q.kind), q.fault ? " (allocation failed)" : "");
			if (!q.ok()) { SIM_CHECK(q.kind == OOM && q.fault, "unexpected-exception", "%s: threw %s although nothing failed", nm, q.type.c_str()); return; }
			for (size_t i = 0; i < X.v.size(); ++i) { T e = r->linear_at(i); SIM_CHECK(Val<T>::mag(e - want.v[i]) <= ulps() * Val<T>::mag(want.v[i]), "entry", "%s: entry (%zu,%zu) is %s, expected %s", nm, i / X.c, i % X.c, str(e), str(want.v[i])); }
			{ sim::Lib l; delete r; }
		} else {
			const bool left = o == 4; size_t n = left ? X.r : X.c, m = left ? X.c : X.r; std::vector<T> x(n), y(m); std::vector<double> lim(m); std::vector<T> got; Rnd g;
			for (auto& v : x) v = g(2) ? s * T((double)g(5)) : u;
			for (size_t i = 0; i < X.r; ++i) for (size_t j = 0; j < X.c; ++j) { T e = X.at(i, j) * x[left ? i : j]; y[left ? j : i] += e; lim[left ? j : i] += Val<T>::mag(e); }
			DynamicVector<T>* V; DynamicVector<T>* out = nullptr; { sim::Lib l; V = new DynamicVector<T>(n); for (size_t i = 0; i < n; ++i) V->set(i, x[i]); }
			Outcome q = attempt([&]() { out = new DynamicVector<T>(left ? A.mul_left(*V) : A.mul(*V)); }, k);
			note("%s: %s%s", nm, kind_name(q.kind), q.fault ? " (allocation failed)" : "");
			if (q.ok()) { got = list_of<T>(*out); SIM_CHECK(got.size() == m, "vector-product", "%s: %zu entries, expected %zu", nm, got.size(), m);
				for (size_t i = 0; i < m; ++i) SIM_CHECK(Val<T>::mag(got[i] - y[i]) <= ulps() * (double)(1 + n) * lim[i], "vector-product", "%s: entry %zu is %s, expected %s", nm, i, str(got[i]), str(y[i])); }
			else SIM_CHECK(q.kind == OOM && q.fault, "unexpected-exception", "%s: threw %s although nothing failed", nm, q.type.c_str());
			{ sim::Lib l; delete V; delete out; }
		}
		sim::probe("rounded arithmetic");
	}
	void run() {
		g_large = sizeof(T) > 4 && chance(1, 500); if (g_large) sim::set_step_budget(2000000000ull); g_tiny = chance(1, 8);
		int faults = chance(2, 3) ? (int)range(10, 60) : 0;
		bool dense_fill = chance(1, 2);
		size_t r = dim(), c = dim();
		for (int i = 0; i < N; ++i) {
			size_t a = i == 1 ? c : r, b = i == 1 ? r : c;
			if (i == 3 && chance(1, 2)) { a = dim(); b = dim(); }
			fresh(i, a, b, chance(1, 3) ? (size_t)draw(a * b + 2) : 0);
			if (g_large) { Rnd g; size_t gaps = g(4); std::vector<int> gap(a); for (auto& e : gap) e = g(4) < gaps; // some rows stay empty
				for (size_t q = std::min<size_t>(a * b / (1 + g(9)), 1500); q--;) { size_t p = g(a * b); if (gap[p / b]) continue; T v = T((double)g(9) - 4); { sim::Lib l; m[i]->linear_set(p, v); } t[i].v[p] = v; } }
			else if (dense_fill) for (size_t q = 0; q < a * b; ++q) if (chance(1, 2)) { T v = value<T>(); { sim::Lib l; m[i]->linear_set(q, v); } t[i].v[q] = v; }
		}
		check_all("setup");
		sim::plan_steps(1, g_large ? 6 : chance(1, 60) ? 150 : 28);
		while (sim::next_step()) {
			int a = (int)draw(N), what = g_large && chance(1, 3) ? 21 : (int)draw(34);
			SparseMatrix<T>& A = *m[a]; Table<T>& X = t[a];
			uint64_t k = faults ? draw_fault(faults) : 0;
			char nm[100];
			Table<T> want = X;
			bool big = X.mag() > cap(1e5);
			if (big) { // keep the arithmetic exact
				op("reset", a, Table<T>(X.r, X.c), false, 0, [&]() { A *= T(0); }); check_all("reset"); continue;
			}
			switch (what) {
			case 0: case 1: case 2: case 3: case 4: case 5: {
				size_t i = draw(X.r), j = draw(X.c); T v = value<T>(); want.at(i, j) = v;
				bool lin = chance(1, 4);
				snprintf(nm, sizeof nm, "m%d.%s(%zu,%zu,%s)", a, lin ? "linear_set" : "set", i, j, str(v));
				op(nm, a, want, true, k, [&]() { if (lin) A.linear_set(i * X.c + j, v); else A.set(i, j, v); });
				break; }
			case 6: case 7: { // write through or erase at an iterator; the successor must be right
				size_t n = X.filled(); if (!n) break;
				size_t pos = draw(n), e = 0, q = 0;
				for (;; ++q) if (X.v[q] != T(0)) { if (e == pos) break; ++e; }
				int mode = (int)draw(3); T v = mode == 1 ? T(0) : value<T>();
				if (mode == 0) v = T(0);
				want.v[q] = v;
				size_t nxt = q + 1; while (nxt < X.v.size() && X.v[nxt] == T(0)) ++nxt;
				snprintf(nm, sizeof nm, "m%d.%s(iterator %zu, %s)", a, mode == 0 ? "erase" : "set", pos, str(v));
				size_t gr = 0, gc = 0; bool gv = false; T gx = T(0);
				Outcome o = op(nm, a, want, true, k, [&]() {
					auto it = A.begin(); for (size_t s = 0; s < pos; ++s) ++it;
					auto res = mode == 0 ? A.erase(it) : A.set(it, v);
					gv = res.isValid(); gr = res.row(); gc = res.column(); if (gv) gx = *res;
				});
				if (o.ok()) {
					size_t expect = v == T(0) ? nxt : q;
					if (expect >= X.v.size()) SIM_CHECK(!gv, "iterator-successor", "%s: returned an iterator at (%zu,%zu), expected the end", nm, gr, gc);
					else SIM_CHECK(gv && gr == expect / X.c && gc == expect % X.c && gx == t[a].v[expect], "iterator-successor", "%s: returned iterator at (%zu,%zu), expected (%zu,%zu)", nm, gr, gc, expect / X.c, expect % X.c);
				}
				break; }
			case 8: { // erase everything matching while iterating
				unsigned mask = (unsigned)draw(8); size_t cnt = 0;
				size_t e = 0; for (size_t q = 0; q < X.v.size(); ++q) if (X.v[q] != T(0)) { if ((mask >> (e % 3)) & 1) want.v[q] = T(0); ++e; }
				snprintf(nm, sizeof nm, "m%d erase-loop mask %u", a, mask);
				size_t limit = X.filled();
				op(nm, a, want, false, k, [&]() {
					size_t e2 = 0;
					for (auto it = A.begin(); it != A.end();) {
						if (++cnt > limit) fail("iteration", "%s: loop visits more entries than the matrix holds", nm);
						if ((mask >> (e2++ % 3)) & 1) it = A.erase(it); else ++it;
					}
				});
				break; }
			case 9: { // assign through references
				T f = value<T>(); if (f == T(0)) f = T(2);
				for (size_t q = 0; q < X.v.size(); ++q) if (X.v[q] != T(0)) want.v[q] = f;
				snprintf(nm, sizeof nm, "m%d fill-by-reference %s", a, str(f));
				op(nm, a, want, false, k, [&]() { for (auto it = A.begin(); it != A.end(); ++it) *it = f; });
				break; }
			case 10: case 11: case 12: case 13: {
				int b = other_with(X.r, X.c, a); Table<T>& Y = t[b]; SparseMatrix<T>& B = *m[b];
				int o2 = (int)draw(3);
				if (g_tiny && o2 != 2) break;
				if (o2 == 2 && Y.mag() > cap(1e3)) break;
				for (size_t q = 0; q < X.v.size(); ++q) want.v[q] = o2 == 0 ? X.v[q] + Y.v[q] : o2 == 1 ? X.v[q] - Y.v[q] : X.v[q] * Y.v[q];
				snprintf(nm, sizeof nm, "m%d %c= m%d", a, "+-*"[o2], b);
				if (what < 12) op(nm, a, want, false, k, [&]() { if (o2 == 0) A += B; else if (o2 == 1) A -= B; else A *= B; });
				else make(nm, (int)draw(N), want, k, [&]() { return o2 == 0 ? A + B : o2 == 1 ? A - B : A * B; });
				break; }
			case 14: case 15: {
				T f = value<T>(); for (auto& v : want.v) v *= f;
				bool ip = what == 14; snprintf(nm, sizeof nm, "m%d * %s", a, str(f));
				if (ip) op(nm, a, want, false, k, [&]() { A *= f; });
				else { bool left = chance(1, 2); make(nm, (int)draw(N), want, k, [&]() { return left ? f * A : A * f; }); }
				break; }
			case 16: { // scalar that is one of the entries
				size_t n = X.filled(); if (!n) break;
				size_t pos = draw(n), e = 0, q = 0; for (;; ++q) if (X.v[q] != T(0)) { if (e == pos) break; ++e; }
				if (X.mag() > cap(1e2)) break;
				bool setit = chance(1, 2); size_t lin = draw(X.v.size());
				if (setit) want.v[lin] = X.v[q]; else { T f = X.v[q]; for (auto& v : want.v) v *= f; }
				snprintf(nm, sizeof nm, "m%d %s own entry %zu", a, setit ? "set to" : "*=", pos);
				op(nm, a, want, setit, k, [&]() { auto it = A.begin(); for (size_t s = 0; s < pos; ++s) ++it; if (setit) A.linear_set(lin, *it); else A *= *it; });
				break; }
			case 17: { for (auto& v : want.v) v = -v; snprintf(nm, sizeof nm, "-m%d", a); make(nm, (int)draw(N), want, k, [&]() { return -A; }); break; }
			case 18: snprintf(nm, sizeof nm, "m%d.transpose()", a); make(nm, (int)draw(N), X.transposed(), k, [&]() { return A.transpose(); }); break;
			case 19: snprintf(nm, sizeof nm, "m%d.conjugate()", a); make(nm, (int)draw(N), X.conjugated(), k, [&]() { return A.conjugate(); }); break;
			case 20: snprintf(nm, sizeof nm, "m%d.adjugate()", a); make(nm, (int)draw(N), X.transposed(true), k, [&]() { return A.adjugate(); }); break;
			case 21: case 22: {
				if (g_tiny) break;
				int b = -1, s = (int)draw(N); for (int q = 0; q < N; ++q) if (t[(s + q) % N].r == X.c) { b = (s + q) % N; break; }
				if (b < 0 || t[b].mag() > cap(1e3)) break;
				snprintf(nm, sizeof nm, "m%d.mul(m%d)", a, b);
				make(nm, (int)draw(N), X.times(t[b]), k, [&]() { return A.mul(*m[b]); });
				break; }
			case 23: case 24: {
				bool left = what == 24; size_t n = left ? X.r : X.c;
				std::vector<T> x(n), y(left ? X.c : X.r); for (auto& v : x) v = Val<T>::small(3);
				for (size_t i = 0; i < X.r; ++i) for (size_t j = 0; j < X.c; ++j) { if (left) y[j] += X.at(i, j) * x[i]; else y[i] += X.at(i, j) * x[j]; }
				DynamicVector<T>* V; { sim::Lib l; V = new DynamicVector<T>(n); for (size_t i = 0; i < n; ++i) V->set(i, x[i]); }
				snprintf(nm, sizeof nm, "m%d.%s(vector)", a, left ? "mul_left" : "mul");
				vec(nm, y, k, [&]() { return left ? A.mul_left(*V) : A.mul(*V); });
				SIM_CHECK(list_of<T>(*V) == x, "operand-changed", "%s: changed its operand", nm);
				{ sim::Lib l; delete V; }
				break; }
			case 25: { int b = (int)draw(N); want = t[b]; snprintf(nm, sizeof nm, "m%d = m%d", a, b); op(nm, a, want, false, k, [&]() { A = *m[b]; }); break; }
			case 26: { int b = (int)draw(N); snprintf(nm, sizeof nm, "copy of m%d", b); make(nm, a, t[b], k, [&]() { return SparseMatrix<T>(*m[b]); }); break; }
			case 27: {
				int b = (int)draw(N); Outcome o = attempt([&]() { A.swap(*m[b]); }, k);
				SIM_CHECK(o.ok(), "unexpected-exception", "swap threw %s", o.type.c_str());
				std::swap(t[a], t[b]); snprintf(nm, sizeof nm, "m%d.swap(m%d)", a, b); note("%s", nm);
				break; }
			case 28: { // ill-sized products are refused and change nothing
				int b = (int)draw(N); if (t[b].r == X.c) break;
				Outcome o = attempt([&]() { A.mul(*m[b]); });
				SIM_CHECK(o.is("MatrixMulMismatchException"), "missing-exception", "m%d.mul(m%d) with unfitting shapes: %s", a, b, kind_name(o.kind));
				snprintf(nm, sizeof nm, "ill-sized mul m%d m%d", a, b); note("%s", nm); break; }
			case 29: { // written out in place, rows of different length
				std::vector<T> e(9); for (auto& v : e) v = value<T>(); int sh = (int)draw(3);
				Table<T> l(sh == 0 ? 3 : sh == 1 ? 1 : 4, sh == 0 ? 3 : sh == 1 ? 4 : 2);
				if (sh == 0) { for (int q = 0; q < 9; ++q) if (q != 5) l.v[q] = e[q > 5 ? q - 1 : q]; }
				else if (sh == 1) for (int q = 0; q < 4; ++q) l.v[q] = e[q];
				else { l.at(0, 0) = e[0]; l.at(1, 0) = e[1]; l.at(1, 1) = e[2]; l.at(3, 0) = e[3]; l.at(3, 1) = e[4]; }
				snprintf(nm, sizeof nm, "m%d = list %d", a, sh);
				make(nm, a, l, k, [&]() {
					if (sh == 0) return SparseMatrix<T>({ { e[0], e[1], e[2] }, { e[3], e[4] }, { e[5], e[6], e[7] } });
					if (sh == 1) return SparseMatrix<T>({ { e[0], e[1], e[2], e[3] } });
					return SparseMatrix<T>({ { e[0] }, { e[1], e[2] }, {}, { e[3], e[4] } });
				});
				break; }
			case 30: not_finite(X, k); snprintf(nm, sizeof nm, "not-finite"); break;
			case 31: { // a matrix without a shape takes over another one
				int b = (int)draw(N); snprintf(nm, sizeof nm, "default, then m%d", b);
				make(nm, a, t[b], k, [&]() { SparseMatrix<T> q; if (q.rows() || q.columns() || q.size() || q.filled_count()) fail("shape", "a default constructed matrix is %zux%zu", q.rows(), q.columns()); q = *m[b]; return q; });
				break; }
			case 32: { // factors whose products are rounded: right to a few units in the last place
				if (g_tiny) break;
				rounded(A, X, k); snprintf(nm, sizeof nm, "rounded"); break; }
			default: {
				size_t rr = dim(), cc = dim(), ex = chance(1, 2) ? draw(rr * cc) : 0;
				snprintf(nm, sizeof nm, "m%d = SparseMatrix(%zu,%zu,%zu)", a, rr, cc, ex);
				make(nm, a, Table<T>(rr, cc), k, [&]() { return SparseMatrix<T>(rr, cc, ex); });
			} }
			check_all("step");
			sim::nontrivial();
		}
	}
};

static void run() {
#if !VF_BASIC
	if (chance(1, 8)) { World<float> w; w.run(); return; }
#endif
	if (chance(1, 3)) { World<std::complex<double> > w; w.run(); }
	else { World<double> w; w.run(); }
}
int main(int argc, char** argv) {
	sim::Check c = { "C04", run, 100000, 600,
		"one evaluation = one seeded history of up to 28 (at times 150) operations on 4 sparse matrices of double, float or complex entries, at times up to 66x66, with allocation failures; distinct = different event log; non-trivial = at least one operation performed and every matrix compared entry by entry with its table",
		"SparseMatrix and its iterators, Vector (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"indices in range, operand shapes fit where the library only asserts" };
	return sim::runner_main(argc, argv, c);
}
