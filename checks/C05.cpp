// C05: vectors and dense matrices equal their model; a failed call changes nothing.
#include "h.h"
#include <memory>
using namespace NS;
using namespace h;

static bool g_large;  // now and then hundreds or thousands of entries
static bool g_fine;   // a few values need more than single precision
static const double Fine = 16777217;
template <class T> static T value() { if (g_fine && sizeof(T) > 4 && chance(1, 8)) return T(chance(1, 2) ? Fine : -Fine); return chance(1, 40) ? T(-0.0) : Val<T>::small(4); }
template <class T> static T divisor() { return T(pick({ 1.0, 2.0, -1.0, -2.0, 4.0, 0.5 })); }
template <class T> static bool exact(const std::vector<T>& v) { // arithmetic on these stays exact
	const double lim = sizeof(T) == 4 ? 60 : 1e4, grid = sizeof(T) == 4 ? 8 : 64; int big = 0; bool broken = false;
	for (auto& e : v) {
		std::complex<double> z(e);
		for (double d : { z.real(), z.imag() }) {
			if (!(std::fabs(d) <= lim)) { if (!(std::fabs(d) <= Fine + 64) || d != std::floor(d) || sizeof(T) == 4 || ++big > 2) return false; }
			if (d * grid != std::floor(d * grid)) return false;
			broken |= d != std::floor(d);
		}
	}
	return !(big && broken);
}
template <class T> static bool near_val(T a, T b, double tol) { return Val<T>::mag(a - b) <= tol * (1 + Val<T>::mag(b)); }

// scalars whose reciprocals and products are rounded; results are then right to a few units in the last place
template <class T> static T rough() { return T(pick({ 3.0, -7.0, 0.1, 1.0 / 3, 10.0, -0.3 })); }
template <class T> static bool close_val(T a, T b) { return Val<T>::mag(b) < HUGE_VAL && Val<T>::mag(a - b) <= (sizeof(T) == 4 ? 2e-6 : 3e-15) * Val<T>::mag(b); }
// a sum over terms of the given total magnitude; beyond the exact range its rounding depends on the order
template <class T> static bool summed(T got, T want, double scale, size_t n) { return got == want || (scale > (sizeof(T) == 4 ? 2e5 : 2e12) && Val<T>::mag(got - want) <= (double)(n + 2) * (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * scale); }
// (the sign of a division by zero depends on that of the zero)
template <class T> static typename std::enable_if<std::is_floating_point<T>::value, bool>::type same_class(T got, T want) { return want != want ? got != got : std::isinf(want) && std::isinf(got); }
template <class T> static typename std::enable_if<!std::is_floating_point<T>::value, bool>::type same_class(T, T) { return false; }
template <class T, class V> struct Real { static void check(const V&, const std::vector<T>&, const char*) {} };
template <class T, class V> struct RealAny {
	static void check(const V& v, const std::vector<T>& t, const char* w) {
		if (t.empty()) return;
		SIM_CHECK(v.max() == *std::max_element(t.begin(), t.end()), "reduction", "%s: max() is %s", w, str(v.max()));
		SIM_CHECK(v.min() == *std::min_element(t.begin(), t.end()), "reduction", "%s: min() is %s", w, str(v.min()));
	}
};
template <class V> struct Real<double, V> : RealAny<double, V> {};
template <class V> struct Real<float, V> : RealAny<float, V> {};
template <class T> static double eps() { return sizeof(T) == 4 ? 1e-5 : 1e-12; }
template <class T, class V> static void check_vec(const V& v, const std::vector<T>& t, const char* w) {
	SIM_CHECK(v.size() == t.size(), "size", "%s: size %zu, expected %zu", w, v.size(), t.size());
	T s = T(0), d = T(0); bool zero = false; double ss = 0, ds = 0;
	for (size_t i = 0; i < t.size(); ++i) {
		SIM_CHECK(v.at(i) == t[i] && v.linear_at(i) == t[i] && v[i] == t[i], "entry", "%s: entry %zu is %s, expected %s", w, i, str(v.at(i)), str(t[i]));
		s += t[i]; d += t[i] * t[i]; ss += Val<T>::mag(t[i]); ds += Val<T>::mag(t[i]) * Val<T>::mag(t[i]); zero |= t[i] == T(0);
	}
	size_t k = 0;
	for (auto it = v.begin(); it != v.end(); ++it, ++k) SIM_CHECK(k < t.size() && *it == t[k], "iteration", "%s: iteration differs at %zu", w, k);
	SIM_CHECK(k == t.size(), "iteration", "%s: iteration ended after %zu of %zu", w, k, t.size());
	{
		auto it = v.begin(); auto first = v.begin();
		for (size_t q = 0; q < t.size(); ++q) {
			SIM_CHECK(it.isValid() && it != v.end() && (it == first) == (q == 0), "iterator-equality", "%s: iterator %zu compares wrongly", w, q);
			auto old = it++; SIM_CHECK(*old == t[q] && old != it && !(old == it), "iteration", "%s: it++ at %zu returned %s", w, q, str(*old));
		}
		SIM_CHECK(it == v.end() && !(it != v.end()) && !it.isValid(), "iterator-equality", "%s: no end after %zu entries", w, t.size());
	}
	SIM_CHECK(summed(v.sum(), s, ss, t.size()), "reduction", "%s: sum() is %s, expected %s", w, str(v.sum()), str(s));
	SIM_CHECK(v.hasZero() == zero && !v.hasNaN() && !v.hasInf(), "reduction", "%s: hasZero/hasNaN/hasInf wrong", w);
	SIM_CHECK(summed(v.dot(v), d, ds, t.size()) && summed(v.magSqr(), d, ds, t.size()), "reduction", "%s: dot/magSqr is %s, expected %s", w, str(v.dot(v)), str(d));
	SIM_CHECK(near_val(v.mag(), T(std::sqrt(d)), eps<T>()), "reduction", "%s: mag() is %s", w, str(v.mag()));
	if (!t.empty()) SIM_CHECK(near_val(v.avg(), s / T((double)t.size()), eps<T>()), "reduction", "%s: avg() is %s", w, str(v.avg()));
	Real<T, V>::check(v, t, w);
}
// values that are not finite for one or two places: bit 1 NaN, 2 infinity, 4 minus infinity
template <class T> struct NotFinite {
	T a, b; bool nan, inf;
	static T get(int bit) { return T(bit == 1 ? NAN : bit == 2 ? INFINITY : -INFINITY); }
	NotFinite(int w, size_t p, size_t q) { int lo = w & -w, hi = w ^ lo ? w ^ lo : lo; if (p == q) hi = lo; a = get(lo); b = get(hi); nan = lo == 1; inf = lo > 1 || hi > 1; }
};
template <class M, class T> struct RealM { static void bad(const M&, bool&, bool&) {} static void check(const M&, const Table<T>&, const char*) {} };
template <class M, class T> struct RealMAny {
	static void bad(const M& m, bool& hn, bool& hi) { hn = m.has_nan(); hi = m.has_inf(); }
	static void check(const M& m, const Table<T>& t, const char* w) {
		SIM_CHECK(m.max() == *std::max_element(t.v.begin(), t.v.end()), "reduction", "%s: max() is %s", w, str(m.max()));
		SIM_CHECK(m.min() == *std::min_element(t.v.begin(), t.v.end()), "reduction", "%s: min() is %s", w, str(m.min()));
		SIM_CHECK(!m.has_nan() && !m.has_inf(), "reduction", "%s: claims NaN or infinity", w);
		SIM_CHECK(near_val(m.avg(), t.sum() / (T)t.v.size(), eps<T>()), "reduction", "%s: avg() is %s", w, str(m.avg()));
	}
};
template <class M> struct RealM<M, double> : RealMAny<M, double> {};
template <class M> struct RealM<M, float> : RealMAny<M, float> {};
// a line walked with it++: old positions, equality and end
template <class T, class I> static void walk(I it, I end, const Table<T>& t, int kind, size_t line, const char* w) {
	const size_t n = kind == 0 ? t.r * t.c : kind == 1 ? t.c : t.r; I begin = it;
	for (size_t s = 0; s < n; ++s) {
		const size_t i = kind == 0 ? s / t.c : kind == 1 ? line : s, j = kind == 0 ? s % t.c : kind == 1 ? s : line;
		SIM_CHECK(it != end && !(it == end) && (it == begin) == (s == 0), "iterator-equality", "%s: iterator %zu of line %zu compares wrongly", w, s, line);
		I old = it++;
		SIM_CHECK(old.row() == i && old.column() == j && *old == t.at(i, j) && old.isValid(), "iteration", "%s: it++ returned (%zu,%zu), expected (%zu,%zu)", w, old.row(), old.column(), i, j);
		SIM_CHECK(old != it && !(old == it), "iterator-equality", "%s: it++ on (%zu,%zu) did not move", w, i, j);
	}
	SIM_CHECK(it == end && !(it != end) && !it.isValid(), "iterator-equality", "%s: line %zu does not end after %zu entries", w, line, n);
}
template <class M, class T> static void check_mat(const M& m, M& mut, const Table<T>& t, const char* w) {
	SIM_CHECK(m.rows() == t.r && m.columns() == t.c && m.size() == t.r * t.c, "shape", "%s: %zux%zu, expected %zux%zu", w, m.rows(), m.columns(), t.r, t.c);
	if (!t.r || !t.c) return;
	for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) {
		T e = t.at(i, j), x = T(77);
		SIM_CHECK(m.at(i, j) == e && m.linear_at(i * t.c + j) == e, "entry", "%s: entry (%zu,%zu) is %s, expected %s", w, i, j, str(m.at(i, j)), str(e));
		SIM_CHECK(m.has(i, j) == (e != T(0)) && m.has(i, j, x) == (e != T(0)) && x == e, "presence", "%s: has(%zu,%zu) wrong", w, i, j);
	}
	size_t k = 0;
	for (auto it = m.begin(); it != m.end(); ++it, ++k) SIM_CHECK(k < t.v.size() && it.row() == k / t.c && it.column() == k % t.c && *it == t.v[k], "iteration", "%s: iteration differs at %zu", w, k);
	SIM_CHECK(k == t.v.size(), "iteration", "%s: iteration ended after %zu of %zu", w, k, t.v.size());
	k = 0;
	for (auto it = mut.begin(); it != mut.end(); it++, ++k) { const auto& fixed = it; SIM_CHECK(k < t.v.size() && *it == t.v[k] && *fixed == t.v[k], "iteration", "%s: mutable iteration differs at %zu", w, k); }
	SIM_CHECK(k == t.v.size(), "iteration", "%s: mutable iteration ended after %zu of %zu", w, k, t.v.size());
	walk(m.cbegin(), m.cend(), t, 0, 0, w);
	for (size_t i = 0; i < t.r; ++i) {
		walk(mut.row_begin(i), mut.row_end(i), t, 1, i, w); walk(m.row_cbegin(i), m.row_cend(i), t, 1, i, w);
		k = 0;
		for (auto it = m.row_begin(i); it != m.row_end(i); ++it, ++k) SIM_CHECK(k < t.c && it.row() == i && it.column() == k && *it == t.at(i, k), "iteration", "%s: row %zu iteration differs at %zu", w, i, k);
		SIM_CHECK(k == t.c, "iteration", "%s: row %zu iteration ended after %zu", w, i, k);
	}
	for (size_t j = 0; j < t.c; ++j) {
		walk(mut.column_begin(j), mut.column_end(j), t, 2, j, w); walk(m.column_cbegin(j), m.column_cend(j), t, 2, j, w);
		k = 0;
		for (auto it = m.column_begin(j); it != m.column_end(j); ++it, ++k) SIM_CHECK(k < t.r && it.row() == k && it.column() == j && *it == t.at(k, j), "iteration", "%s: column %zu iteration differs at %zu", w, j, k);
		SIM_CHECK(k == t.r, "iteration", "%s: column %zu iteration ended after %zu", w, j, k);
	}
	SIM_CHECK(m.sum() == t.sum() && m.trace() == t.trace(), "reduction", "%s: sum() is %s, trace() is %s, expected %s and %s", w, str(m.sum()), str(m.trace()), str(t.sum()), str(t.trace()));
	SIM_CHECK(m.empty() == (t.filled() == 0) && m.has_zero() == (t.filled() != t.v.size()), "reduction", "%s: empty()/has_zero() wrong", w);
	RealM<M, T>::check(m, t, w);
}

template <class T> struct World {
	typedef DynamicVector<T> V; typedef FixedVector<T, 3> F; typedef DenseMatrix<T> D; typedef FixedMatrix<T, 2, 3> X; typedef FixedMatrix<T, 3, 2> Y;
	typedef std::vector<T> L;
	enum { NV = 4, NF = 2, ND = 3 };
	V* v[NV]; L lv[NV]; F* f[NF]; L lf[NF]; D* d[ND]; Table<T> td[ND]; X* x[NF]; Table<T> tx[NF]; Y* y; Table<T> ty;
	int faults;
	World() { memset(v, 0, sizeof v); memset(f, 0, sizeof f); memset(d, 0, sizeof d); memset(x, 0, sizeof x); y = nullptr; }
	~World() { sim::Lib l; for (auto p : v) delete p; for (auto p : f) delete p; for (auto p : d) delete p; for (auto p : x) delete p; delete y; }
	uint64_t k() { return faults ? draw_fault(faults) : 0; }

	// legit: the call must be carried out unless an allocation fails; otherwise it must be refused
	bool judge(const char* name, const Outcome& o, bool legit) {
		note("%s: %s%s", name, o.ok() ? "ok" : o.type.c_str(), o.fault ? " (allocation failed)" : "");
		if (o.ok()) { SIM_CHECK(legit, "missing-exception", "%s: sizes do not fit but the call returned", name); return true; }
		if (o.kind == OOM) SIM_CHECK(o.fault, "unexpected-exception", "%s: bad_alloc although no allocation failed", name);
		else { SIM_CHECK(!legit, "unexpected-exception", "%s: threw %s", name, o.type.c_str()); SIM_CHECK(o.kind == NSX, "unexpected-exception", "%s: refused with %s", name, o.type.c_str()); sim::probe("ill-sized call refused"); }
		if (o.fault) sim::probe("call failed by OOM");
		return false;
	}
	void check_all(const char* w) {
		char b[80]; uint64_t hs = 0;
		for (int i = 0; i < NV; ++i) { snprintf(b, sizeof b, "v%d after %s", i, w); check_vec(*v[i], lv[i], b); for (auto& e : lv[i]) hs = sim::mix(hs, (uint64_t)(int64_t)(Val<T>::mag(e) * 64)); hs = sim::mix(hs, lv[i].size()); }
		for (int i = 0; i < NF; ++i) { snprintf(b, sizeof b, "f%d after %s", i, w); check_vec(*f[i], lf[i], b); }
		for (int i = 0; i < ND; ++i) { snprintf(b, sizeof b, "d%d after %s", i, w); check_mat(*d[i], *d[i], td[i], b); hs = sim::mix(hs, td[i].hash()); }
		for (int i = 0; i < NF; ++i) { snprintf(b, sizeof b, "x%d after %s", i, w); check_mat(*x[i], *x[i], tx[i], b); hs = sim::mix(hs, tx[i].hash()); }
		snprintf(b, sizeof b, "y after %s", w); check_mat(*y, *y, ty, b);
		sim::state(hs);
	}
	static L zip(const L& a, const L& b, int o) { L r(a); for (size_t i = 0; i < r.size(); ++i) r[i] = o == 0 ? a[i] + b[i] : o == 1 ? a[i] - b[i] : o == 2 ? a[i] * b[i] : a[i] / b[i]; return r; }
	static L zips(const L& a, T s, int o) { return zip(a, L(a.size(), s), o); }
	static bool nonzero_pow2(const L& a) { for (auto& e : a) { bool ok = false; for (double q : { 1.0, 2.0, 4.0, 0.5 }) ok |= e == T(q) || e == T(-q); if (!ok) return false; } return true; }
	static size_t dim() { return g_large ? (size_t)pick({ 33, 1, 17, 64, 40 }) : (size_t)pick({ 3, 1, 2, 4, 6 }); }
	static size_t len() { return g_large ? (size_t)pick({ 300, 1000, 17, 4099, 65540 }) : draw(9); }

	template <class W> void vec_op(const char* t, W** a, L* la, int n, bool dyn) {
		int i = (int)draw(n), j = (int)draw(n); W& A = *a[i]; W& B = *a[j]; L& P = la[i]; L& Q = la[j]; char nm[100];
		if (!exact(P)) { attempt([&]() { A.fill(T(1)); }); P.assign(P.size(), T(1)); check_all("fill"); return; }
		if (!exact(Q)) return;
		uint64_t kk = k();
		switch (draw(19)) {
		case 17: { // results which are rounded, on copies
			const int o = (int)draw(7); T s = rough<T>(), u = rough<T>(); const bool pair = o >= 5; bool ok = true; for (auto& e : P) ok &= o < 3 || std::is_floating_point<T>::value || e != T(0); if (!ok || P.empty()) break;
			W* r = nullptr; L want = P; for (auto& e : want) e = o == 0 ? e * s : o == 1 || o == 2 ? e / s : o == 3 ? T(1) / (e * s) : o == 4 ? s / e : o == 5 ? (e * s) / (e * u) : (e * s) * (e * u);
			snprintf(nm, sizeof nm, "copy of %s%d, rounded %d with %s%s", t, i, o, str(s), pair ? " and another" : "");
			if (judge(nm, attempt([&]() { std::unique_ptr<W> c(new W(A)); if (o == 0) *c *= s; else if (o == 1) *c /= s; else if (o == 3) { *c *= s; c->do_reciprocal(); } else if (o == 4) { W q = s / *c; c->swap(q); } else if (o == 2) { W q = *c / s; c->swap(q); } else { W e = A * u; *c *= s; if (o == 5) *c /= e; else *c *= e; } r = c.release(); }, kk), true)) {
				for (size_t q = 0; q < P.size(); ++q) SIM_CHECK(close_val(r->at(q), want[q]) || same_class(r->at(q), want[q]), "entry", "%s: entry %zu is %s, expected %s", nm, q, str(r->at(q)), str(want[q]));
				sim::probe("rounded arithmetic"); sim::Lib l; delete r; } break; }
		case 0: case 1: case 2: { if (P.empty()) break; size_t p = draw(P.size()); T e = chance(1, 4) ? divisor<T>() : value<T>(); int m = (int)draw(3); snprintf(nm, sizeof nm, "%s%d[%zu] = %s", t, i, p, str(e));
			if (judge(nm, attempt([&]() { if (m == 0) A.set(p, e); else if (m == 1) A.linear_set(p, e); else A[p] = e; }, kk), true)) P[p] = e; break; }
		case 3: case 4: case 5: { int o = (int)draw(4); if (o == 3 && !nonzero_pow2(Q)) o = 2; snprintf(nm, sizeof nm, "%s%d %c= %s%d", t, i, "+-*/"[o], t, j);
			bool fit = P.size() == Q.size(); L want = fit ? zip(P, Q, o) : P;
			if (judge(nm, attempt([&]() { if (o == 0) A += B; else if (o == 1) A -= B; else if (o == 2) A *= B; else A /= B; }, kk), fit)) P = want; break; }
		case 6: case 7: { int o = (int)draw(4); if (o == 3 && !nonzero_pow2(Q)) o = 1; snprintf(nm, sizeof nm, "%s%d %c %s%d", t, i, "+-*/"[o], t, j);
			bool fit = P.size() == Q.size(); L want = fit ? zip(P, Q, o) : P; W* r = nullptr;
			if (judge(nm, attempt([&]() { r = new W(o == 0 ? A + B : o == 1 ? A - B : o == 2 ? A * B : A / B); }, kk), fit)) { check_vec(*r, want, nm); sim::Lib l; delete r; } break; }
		case 8: case 9: { int o = (int)draw(4); T s = o == 3 ? divisor<T>() : value<T>(); bool own = !P.empty() && chance(1, 3); size_t p = own ? draw(P.size()) : 0; if (own && o == 3 && !nonzero_pow2(L(1, P[p]))) own = false; if (own) s = P[p];
			snprintf(nm, sizeof nm, "%s%d %c= %s%s", t, i, "+-*/"[o], own ? "its own entry " : "", str(s)); L want = zips(P, s, o);
			if (judge(nm, attempt([&]() { const T& q = own ? A.at(p) : s; if (o == 0) A += q; else if (o == 1) A -= q; else if (o == 2) A *= q; else A /= q; }, kk), true)) P = want; break; }
		case 10: { int o = (int)draw(4); T s = o == 3 ? divisor<T>() : value<T>(); bool left = chance(1, 2); if (left && o == 3 && !nonzero_pow2(P)) left = false;
			L want = left ? zip(L(P.size(), s), P, o) : zips(P, s, o); W* r = nullptr;
			snprintf(nm, sizeof nm, "%s%d %c scalar %s%s", t, i, "+-*/"[o], str(s), left ? " (scalar first)" : "");
			if (judge(nm, attempt([&]() { r = new W(left ? (o == 0 ? s + A : o == 1 ? s - A : o == 2 ? s * A : s / A) : (o == 0 ? A + s : o == 1 ? A - s : o == 2 ? A * s : A / s)); }, kk), true)) { check_vec(*r, want, nm); sim::Lib l; delete r; } break; }
		case 11: { snprintf(nm, sizeof nm, "-%s%d", t, i); L want = zips(P, T(-1), 2); W* r = nullptr; if (judge(nm, attempt([&]() { r = new W(-A); }, kk), true)) { check_vec(*r, want, nm); sim::Lib l; delete r; } break; }
		case 12: { bool fit = P.size() == Q.size(); int m = (int)draw(3); bool e = false; T dt = T(0), s = T(0); snprintf(nm, sizeof nm, "%s%d %s %s%d", t, i, m == 0 ? "==" : m == 1 ? "!=" : "dot", t, j);
			if (judge(nm, attempt([&]() { if (m == 0) e = A == B; else if (m == 1) e = A != B; else dt = A.dot(B); }, kk), fit)) {
				if (m < 2) SIM_CHECK(e == ((P == Q) == (m == 0)), "equality", "%s: %d", nm, (int)e);
				else { double sc = 0; for (size_t q = 0; q < P.size(); ++q) { s += P[q] * Q[q]; sc += Val<T>::mag(P[q]) * Val<T>::mag(Q[q]); } SIM_CHECK(summed(dt, s, sc, P.size()), "reduction", "%s: %s, expected %s", nm, str(dt), str(s)); } } break; }
		case 13: { snprintf(nm, sizeof nm, "%s%d = %s%d", t, i, t, j); if (judge(nm, attempt([&]() { A = B; }, kk), true)) { L c = Q; P = c; } break; }
		case 14: { snprintf(nm, sizeof nm, "%s%d.swap(%s%d)", t, i, t, j); if (judge(nm, attempt([&]() { A.swap(B); }, kk), true) && i != j) P.swap(Q); break; }
		case 15: { if (P.empty()) break; size_t a0 = draw(P.size()), b0 = draw(P.size() + 3); T e = chance(1, 2) ? P[draw(P.size())] : value<T>(); bool want = false; for (size_t q = a0; q < b0 && q < P.size(); ++q) want |= P[q] == e;
			bool got = false; snprintf(nm, sizeof nm, "%s%d.has(%zu,%zu,%s)", t, i, a0, b0, str(e)); if (judge(nm, attempt([&]() { got = A.has(a0, b0, e); }, kk), true)) SIM_CHECK(got == want, "presence", "%s: %d", nm, (int)got); break; }
		case 16: { if (P.empty()) break; size_t p = draw(P.size()); int w = 1 << draw(3) | (chance(1, 3) ? 1 << draw(3) : 0); size_t p2 = draw(P.size()); NotFinite<T> nf(w, p, p2); bool hn = false, hi = false; snprintf(nm, sizeof nm, "%s%d[%zu], [%zu] = not finite (%d), then back", t, i, p, p2, w);
			if (judge(nm, attempt([&]() { T keep = A.at(p), keep2 = A.at(p2); A.set(p, nf.a); if (p2 != p) A.set(p2, nf.b); hn = A.hasNaN(); hi = A.hasInf(); A.set(p, keep); A.set(p2, keep2); }, kk), true)) SIM_CHECK(hn == nf.nan && hi == nf.inf, "not-finite", "%s: hasNaN %d hasInf %d", nm, (int)hn, (int)hi); break; }
		default: { int m = (int)draw(3); 
			if (m == 0) { T e = value<T>(); snprintf(nm, sizeof nm, "%s%d.fill(%s)", t, i, str(e)); if (judge(nm, attempt([&]() { A.fill(e); }, kk), true)) P.assign(P.size(), e); }
			else if (m == 1) { if (!nonzero_pow2(P)) break; snprintf(nm, sizeof nm, "%s%d.do_reciprocal()", t, i); L want = zip(L(P.size(), T(1)), P, 3); if (judge(nm, attempt([&]() { A.do_reciprocal(); }, kk), true)) P = want; }
			else { T s = T(0); for (auto& e : P) s += e * e; if (Val<T>::mag(s) == 0) break; T mg = T(std::sqrt(s)); W* r = nullptr; snprintf(nm, sizeof nm, "%s%d.normalized()", t, i);
				if (judge(nm, attempt([&]() { r = new W(A.normalized()); }, kk), true)) { for (size_t q = 0; q < P.size(); ++q) SIM_CHECK(near_val(r->at(q), P[q] / mg, eps<T>()), "entry", "%s: entry %zu is %s", nm, q, str(r->at(q))); sim::Lib l; delete r; } } }
		}
	}
	template <class M> void mat_op(const char* t, M** a, Table<T>* ta, int n) { // element-wise operations of both matrix kinds
		int i = (int)draw(n), j = (int)draw(n); M& A = *a[i]; M& B = *a[j]; Table<T>& P = ta[i]; Table<T>& Q = ta[j]; char nm[100];
		if (!exact(P.v)) { attempt([&]() { A *= T(0); }); P = Table<T>(P.r, P.c); check_all("reset"); return; }
		if (!exact(Q.v)) return;
		uint64_t kk = k(); bool fit = P.r == Q.r && P.c == Q.c; Table<T> want = P;
		switch (draw(12)) {
		case 10: { const bool first = chance(1, 2); T s = rough<T>(); M* r = nullptr; snprintf(nm, sizeof nm, "%s%d times %s", t, i, str(s));
			if (judge(nm, attempt([&]() { r = new M(first ? s * A : A * s); }, kk), true)) { for (size_t q = 0; q < P.v.size(); ++q) SIM_CHECK(close_val(r->linear_at(q), P.v[q] * s), "entry", "%s: entry %zu is %s", nm, q, str(r->linear_at(q))); sim::Lib l; delete r; } break; }
		case 0: case 1: case 2: { if (P.v.empty()) break; size_t p = draw(P.r), q = draw(P.c); T e = value<T>(); int m = (int)draw(7); if (m == 3) e = T(0); snprintf(nm, sizeof nm, "%s%d(%zu,%zu) = %s by %d", t, i, p, q, str(e), m);
			if (judge(nm, attempt([&]() { if (m == 0) A.set(p, q, e); else if (m == 1) A.linear_set(p * P.c + q, e); else if (m == 5) { auto it = A.row_begin(p); for (size_t z = 0; z < q; ++z) ++it; *it = e; } else if (m == 6) { auto it = A.column_begin(q); for (size_t z = 0; z < p; ++z) ++it; *it = e; } else { auto it = A.begin(); for (size_t z = 0; z < p * P.c + q; ++z) ++it; if (m == 2) A.set(it, e); else if (m == 3) A.erase(it); else *it = e; } }, kk), true)) P.at(p, q) = e; break; }
		case 3: case 4: { int o = (int)draw(3); if (fit) want.v = zip(P.v, Q.v, o); snprintf(nm, sizeof nm, "%s%d %c= %s%d", t, i, "+-*"[o], t, j);
			if (judge(nm, attempt([&]() { if (o == 0) A += B; else if (o == 1) A -= B; else A *= B; }, kk), fit)) P = want; break; }
		case 5: { int o = (int)draw(4); if (fit && o < 3) want.v = zip(P.v, Q.v, o); M* r = nullptr; if (o == 3) { want.v = zips(P.v, T(-1), 2); fit = true; } snprintf(nm, sizeof nm, "%s%d %c %s%d", t, i, "+-*n"[o], t, j);
			if (judge(nm, attempt([&]() { r = new M(o == 0 ? A + B : o == 1 ? A - B : o == 2 ? A * B : -A); }, kk), fit)) { check_mat(*r, *r, want, nm); sim::Lib l; delete r; } break; }
		case 6: { T s = value<T>(); int m = (int)draw(3); size_t own = m == 0 && !P.v.empty() && chance(1, 2) ? 1 + draw(P.v.size()) : 0; if (own) s = P.v[own - 1];
			want.v = zips(P.v, s, 2); M* r = nullptr; snprintf(nm, sizeof nm, "%s%d * %s%s (%d)", t, i, own ? "own entry " : "", str(s), m);
			if (judge(nm, attempt([&]() { if (own) { auto it = A.begin(); for (size_t z = 1; z < own; ++z) ++it; A *= *it; } else if (m == 0) A *= s; else r = new M(m == 1 ? A * s : s * A); }, kk), true)) { if (m == 0) P = want; else { check_mat(*r, *r, want, nm); sim::Lib l; delete r; } } break; }
		case 7: { bool e = false, ne = chance(1, 2); snprintf(nm, sizeof nm, "%s%d %s %s%d", t, i, ne ? "!=" : "==", t, j);
			if (judge(nm, attempt([&]() { e = ne ? A != B : A == B; }, kk), fit)) SIM_CHECK(e == (P.same(Q) != ne), "equality", "%s: %d", nm, (int)e); break; }
		case 8: { snprintf(nm, sizeof nm, "%s%d = %s%d", t, i, t, j); if (judge(nm, attempt([&]() { A = B; }, kk), true)) { Table<T> c = Q; P = c; } break; }
		case 9: { if (P.v.empty() || !Val<T>::is_real) break; size_t p = draw(P.v.size()); int w = 1 << draw(3) | (chance(1, 3) ? 1 << draw(3) : 0); size_t p2 = draw(P.v.size()); NotFinite<T> nf(w, p, p2); bool hn = false, hi = false; snprintf(nm, sizeof nm, "%s%d entries %zu, %zu = not finite (%d), then back", t, i, p, p2, w);
			if (judge(nm, attempt([&]() { T keep = A.linear_at(p), keep2 = A.linear_at(p2); A.linear_set(p, nf.a); if (p2 != p) A.linear_set(p2, nf.b); RealM<M, T>::bad(A, hn, hi); A.linear_set(p, keep); A.linear_set(p2, keep2); }, kk), true)) SIM_CHECK(hn == nf.nan && hi == nf.inf, "not-finite", "%s: has_nan %d has_inf %d", nm, (int)hn, (int)hi); break; }
		default: { snprintf(nm, sizeof nm, "%s%d.swap(%s%d)", t, i, t, j); if (judge(nm, attempt([&]() { A.swap(B); }, kk), true) && i != j) std::swap(P, Q); break; }
		}
	}
	template <class R, class Fn> void result(const char* nm, const Table<T>& want, bool fit, uint64_t kk, Fn fn) {
		R* r = nullptr;
		if (judge(nm, attempt([&]() { r = new R(fn()); }, kk), fit)) { check_mat(*r, *r, want, nm); sim::Lib l; delete r; }
	}
	template <class R, class Fn> void vresult(const char* nm, const L& want, bool fit, uint64_t kk, Fn fn) {
		R* r = nullptr;
		if (judge(nm, attempt([&]() { r = new R(fn()); }, kk), fit)) { check_vec(*r, want, nm); sim::Lib l; delete r; }
	}
	static L tv(const Table<T>& m, const L& q, bool left) { L r(left ? m.c : m.r); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (left) r[j] += m.at(i, j) * q[i]; else r[i] += m.at(i, j) * q[j]; return r; }

	void run() {
		g_large = sizeof(T) > 4 && chance(1, 600); g_fine = !g_large && chance(1, 6); if (g_large) sim::set_step_budget(2000000000ull);
		faults = chance(2, 3) ? (int)range(10, 60) : 0;
		{ sim::Lib l;
			for (int i = 0; i < NF; ++i) { f[i] = new F(); lf[i].assign(3, T(0)); x[i] = new X(); tx[i] = Table<T>(2, 3); }
			y = new Y(); ty = Table<T>(3, 2);
		}
		if (chance(3, 4)) { // otherwise everything starts at zero
			for (int i = 0; i < NF; ++i) { for (size_t q = 0; q < 3; ++q) { lf[i][q] = value<T>(); f[i]->set(q, lf[i][q]); } for (size_t q = 0; q < 6; ++q) { tx[i].v[q] = value<T>(); x[i]->linear_set(q, tx[i].v[q]); } }
			for (size_t q = 0; q < 6; ++q) { ty.v[q] = value<T>(); y->linear_set(q, ty.v[q]); }
		}
		size_t n0 = dim(), r0 = dim(), c0 = dim();
		for (int i = 0; i < NV; ++i) { size_t n = chance(1, 4) ? len() : n0; { sim::Lib l; v[i] = new V(n); } lv[i].assign(n, T(0)); Rnd g; for (size_t q = 0; q < n; ++q) { T e = g_large ? T((double)g(9) - 4) : value<T>(); v[i]->set(q, e); lv[i][q] = e; } }
		for (int i = 0; i < ND; ++i) { size_t r = chance(1, 4) ? dim() : r0, c = chance(1, 4) ? dim() : c0; { sim::Lib l; d[i] = new D(r, c); } td[i] = Table<T>(r, c); Rnd g; for (size_t q = 0; q < r * c; ++q) { T e = g_large ? T((double)g(9) - 4) : value<T>(); d[i]->linear_set(q, e); td[i].v[q] = e; } }
		check_all("setup");
		sim::plan_steps(1, g_large ? 6 : chance(1, 60) ? 150 : 28);
		while (sim::next_step()) {
			char nm[100]; uint64_t kk;
			switch (draw(18)) {
			case 0: case 1: case 2: case 3: vec_op("v", v, lv, NV, true); break;
			case 4: vec_op("f", f, lf, NF, false); break;
			case 5: case 6: case 7: mat_op("d", d, td, ND); break;
			case 8: mat_op("x", x, tx, NF); break;
			case 9: { // resize keeps the leading entries, new ones are zero
				int i = (int)draw(NV); size_t n = len(); L want = lv[i]; want.resize(n); kk = k(); snprintf(nm, sizeof nm, "v%d.resize(%zu) from %zu", i, n, lv[i].size());
				if (judge(nm, attempt([&]() { v[i]->resize(n); }, kk), true)) lv[i] = want; break; }
			case 10: { // constructors
				int i = (int)draw(NV), j = (int)draw(NV), m = (int)draw(3); kk = k(); V* r = nullptr; L want = lv[j]; T a = value<T>(), b = value<T>(), c = value<T>(); size_t n = len();
				if (m == 1) want = L{ a, b, c }; if (m == 2) want.assign(n, T(0)); snprintf(nm, sizeof nm, "v%d constructed (%d)", i, m);
				if (judge(nm, attempt([&]() { r = m == 0 ? new V(*v[j]) : m == 1 ? new V({ a, b, c }) : new V(n); }, kk), true)) { { sim::Lib l; delete v[i]; } v[i] = r; lv[i] = want; } break; }
			case 11: { int i = (int)draw(ND), j = (int)draw(ND), m = (int)draw(4); kk = k(); D* r = nullptr; Table<T> want = td[j]; T a = value<T>(), b = value<T>(), c = value<T>(); size_t p = dim(), q = dim();
				if (m == 1) { want = Table<T>(2, 2); want.v = L{ a, b, c, T(0) }; } if (m == 2) want = Table<T>(p, q); if (m == 3) { want = Table<T>(3, 2); want.v = L{ a, T(0), b, c, T(0), T(0) }; } snprintf(nm, sizeof nm, "d%d constructed (%d)", i, m);
				if (judge(nm, attempt([&]() { r = m == 0 ? new D(*d[j]) : m == 1 ? new D({ { a, b }, { c } }) : m == 2 ? new D(p, q) : new D({ { a }, { b, c }, {} }); }, kk), true)) { { sim::Lib l; delete d[i]; } d[i] = r; td[i] = want; } break; }
			case 12: { int i = (int)draw(ND), m = (int)draw(3); if (!exact(td[i].v)) break; kk = k(); snprintf(nm, sizeof nm, "d%d.%s()", i, m == 0 ? "transpose" : m == 1 ? "conjugate" : "adjugate");
				result<D>(nm, m == 0 ? td[i].transposed() : m == 1 ? td[i].conjugated() : td[i].transposed(true), true, kk, [&]() { return m == 0 ? d[i]->transpose() : m == 1 ? d[i]->conjugate() : d[i]->adjugate(); }); break; }
			case 13: { int i = (int)draw(ND), j = (int)draw(ND); if (!exact(td[i].v) || !exact(td[j].v)) break; kk = k(); bool fit = td[i].c == td[j].r; snprintf(nm, sizeof nm, "d%d.mul(d%d)", i, j);
				result<D>(nm, fit ? td[i].times(td[j]) : td[i], fit, kk, [&]() { return d[i]->mul(*d[j]); }); break; }
			case 14: { int i = (int)draw(ND), j = (int)draw(NV); bool left = draw(2), fx = chance(1, 4); L& q = fx ? lf[j % NF] : lv[j]; if (!exact(td[i].v) || !exact(q)) break; kk = k(); bool fit = (left ? td[i].r : td[i].c) == q.size(); snprintf(nm, sizeof nm, "d%d.%s(%c%d)", i, left ? "mul_left" : "mul", fx ? 'f' : 'v', fx ? j % NF : j);
				vresult<V>(nm, fit ? tv(td[i], q, left) : L(), fit, kk, [&]() { return fx ? (left ? d[i]->mul_left(*f[j % NF]) : d[i]->mul(*f[j % NF])) : left ? d[i]->mul_left(*v[j]) : d[i]->mul(*v[j]); }); break; }
			default: { // fixed matrices, and mixed kinds
				int i = (int)draw(NF), m = (int)draw(10); kk = k(); if (!exact(tx[i].v) || !exact(ty.v) || !exact(lf[i])) { attempt([&]() { *x[i] *= T(0); *y *= T(0); f[i]->fill(T(1)); x[i]->set(1, 2, T(3)); y->set(2, 0, T(2)); y->set(0, 1, T(1)); }); tx[i] = Table<T>(2, 3); tx[i].at(1, 2) = T(3); ty = Table<T>(3, 2); ty.at(2, 0) = T(2); ty.at(0, 1) = T(1); lf[i].assign(3, T(1)); break; }
				snprintf(nm, sizeof nm, "x%d fixed op %d", i, m);
				if (m == 0) result<Y>(nm, tx[i].transposed(), true, kk, [&]() { return x[i]->transpose(); });
				else if (m == 1) result<X>(nm, tx[i].conjugated(), true, kk, [&]() { return x[i]->conjugate(); });
				else if (m == 2) result<Y>(nm, tx[i].transposed(true), true, kk, [&]() { return x[i]->adjugate(); });
				else if (m == 3) result<FixedMatrix<T, 2, 2> >(nm, tx[i].times(ty), true, kk, [&]() { return x[i]->mul(*y); });
				else if (m == 4) { FixedVector<T, 2>* o = nullptr; L want = tv(tx[i], lf[i], false); if (judge(nm, attempt([&]() { o = new FixedVector<T, 2>(x[i]->mul(*f[i])); }, kk), true)) { check_vec(*o, want, nm); sim::Lib l; delete o; } }
				else if (m == 5) { FixedVector<T, 2>* o = nullptr; L want = tv(ty, lf[i], true); if (judge(nm, attempt([&]() { o = new FixedVector<T, 2>(y->mul_left(*f[i])); }, kk), true)) { check_vec(*o, want, nm); sim::Lib l; delete o; } }
				else if (m == 7) { T a = value<T>(), b = value<T>(), c = value<T>(); X* r = nullptr; bool sh = chance(1, 2); snprintf(nm, sizeof nm, "x%d constructed (%d)", i, (int)sh); Table<T> want(2, 3); want.v = sh ? L{ a, b, T(0), c, T(0), T(0) } : L{ a, T(0), T(0), b, c, a };
					if (judge(nm, attempt([&]() { r = sh ? new X({ { a, b }, { c } }) : new X({ { a }, { b, c, a } }); }, kk), true)) { { sim::Lib l; delete x[i]; } x[i] = r; tx[i] = want; } }
				else if (m == 8) { T a = value<T>(), b = value<T>(), c = value<T>(); F* r = nullptr; bool z = chance(1, 3); snprintf(nm, sizeof nm, "f%d constructed (%d)", i, (int)z); if (judge(nm, attempt([&]() { r = z ? new F() : new F({ a, b, c }); }, kk), true)) { { sim::Lib l; delete f[i]; } f[i] = r; lf[i] = z ? L(3, T(0)) : L{ a, b, c }; } }
				else if (m == 6) { size_t p = draw(3), q = draw(2); T e = value<T>(); if (judge(nm, attempt([&]() { y->set(p, q, e); }, kk), true)) ty.at(p, q) = e; }
				else { int j = (int)draw(ND), o = (int)draw(3); if (!exact(td[j].v)) break; bool fit = td[j].r == 2 && td[j].c == 3; L want = td[j].v; if (fit) want = zip(td[j].v, tx[i].v, o); snprintf(nm, sizeof nm, "d%d %c= x%d", j, "+-*"[o], i);
					if (judge(nm, attempt([&]() { if (o == 0) *d[j] += *x[i]; else if (o == 1) *d[j] -= *x[i]; else *d[j] *= *x[i]; }, kk), fit)) td[j].v = want; }
				break; }
			}
			check_all("step");
			sim::nontrivial();
		}
	}
};
static void run() {
#if !VF_BASIC
	if (chance(1, 8)) { World<float> w; w.run(); return; }
#endif
	if (chance(1, 3)) { World<std::complex<double> > w; w.run(); }
	else { World<double> w; w.run(); }
}
int main(int argc, char** argv) {
	sim::Check c = { "C05", run, 60000, 600,
		"one evaluation = one seeded history of up to 28 (at times 150) operations on double, float or complex (at times up to 64x64, vectors up to 65540 entries) dynamic and fixed vectors and dense and fixed matrices, with ill-sized operands and allocation failures; distinct = different event log; non-trivial = at least one operation performed and every object compared entry by entry with its model",
		"Vector, CountableSet, BaseMatrix, DenseMatrix, FixedMatrix (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"indices in range; slices (left/right/mid), documented as not working, are not called; DenseMatrix::resize is a documented stub" };
	return sim::runner_main(argc, argv, c);
}
