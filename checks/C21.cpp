// C21: finite-element quantities built from the library's parts are exact, in any order and after any interruption.
#include "meshgen.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "matrix/SparseMatrix.h"
#include "CG.h"
using namespace h;
typedef long double ld;

// ---- independent model: Lagrange polynomials in barycentric coordinates, with derivatives
struct Jet { ld v, g[3], h[3]; }; // value, gradient, unmixed second derivatives
static Jet lambda(int K, int i, const ld* x) { Jet j = {}; if (i) { j.v = x[i - 1]; j.g[i - 1] = 1; } else { j.v = 1; for (int k = 0; k < K; ++k) { j.v -= x[k]; j.g[k] = -1; } } return j; }
static Jet mul(const Jet& a, const Jet& b) { Jet r; r.v = a.v * b.v; for (int k = 0; k < 3; ++k) { r.g[k] = a.g[k] * b.v + a.v * b.g[k]; r.h[k] = a.h[k] * b.v + 2 * a.g[k] * b.g[k] + a.v * b.h[k]; } return r; }
static Jet lin(const Jet& a, ld s, ld t) { Jet r = a; r.v = s * a.v + t; for (int k = 0; k < 3; ++k) { r.g[k] *= s; r.h[k] *= s; } return r; }
static Jet scaled(const Jet& a, ld s) { return lin(a, s, 0); }
struct Node { int n, b[3]; }; // barycentric position in multiples of 1/Order, as up to three corners
template <int K, int O> struct Ref {
	static int count() { return K == 1 ? O + 1 : K == 2 ? (O + 1) * (O + 2) / 2 : (O + 1) * (O + 2) * (O + 3) / 6; }
	static Node node(int i) { // corners first, then sides as the header draws them
		if (i <= K) return Node{ 1, { i, 0, 0 } };
		if (O == 2) { static const int S1[1][2] = { { 0, 1 } }, S2[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 } }, S3[6][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 1, 3 }, { 0, 3 }, { 2, 3 } };
			const int* s = K == 1 ? S1[i - 2] : K == 2 ? S2[i - 3] : S3[i - 4]; return Node{ 2, { s[0], s[1], 0 } }; }
		static const int C[7][3] = { { 0, 0, 1 }, { 0, 1, 1 }, { 1, 1, 2 }, { 1, 2, 2 }, { 2, 2, 0 }, { 2, 0, 0 }, { 0, 1, 2 } };
		return Node{ 3, { C[i - 3][0], C[i - 3][1], C[i - 3][2] } };
	}
	static void place(int i, ld* x) { Node n = node(i); for (int k = 0; k < K; ++k) { x[k] = 0; for (int q = 0; q < n.n; ++q) if (n.b[q] == k + 1) x[k] += 1.0L / n.n; } }
	static Jet phi(int i, const ld* x) { // product of lambda powers, one at its node
		Node n = node(i); int m[4] = { 0, 0, 0, 0 };
		if (n.n == 1) m[n.b[0]] = O; else for (int q = 0; q < n.n; ++q) ++m[n.b[q]];
		Jet r = {}; r.v = 1;
		for (int c = 0; c <= K; ++c) for (int q = 0; q < m[c]; ++q) r = mul(r, scaled(lin(lambda(K, c, x), O, -q), 1.0L / (q + 1)));
		return r;
	}
};
static ld gll(ld a, ld b, ld tol, ld scale) { return fabsl(a - b) > tol * (1 + scale); }

template <class T, int K, int O> static void reference(uint64_t k) {
	typedef NS::PolyShapeFunction<T, K, O> SF; typedef NS::FixedVector<T, K> P; const int N = Ref<K, O>::count();
	const ld tol = sizeof(T) == 4 ? 2e-5L : 1e-12L;
	ld x[3] = { 0, 0, 0 }; bool at_node = chance(1, 3); int nd = (int)draw((uint64_t)N);
	if (at_node) Ref<K, O>::place(nd, x); else { ld s = 0; for (int q = 0; q < K; ++q) { x[q] = (ld)draw(33) / 32; s += x[q]; } if (s > 1 && chance(7, 8)) for (int q = 0; q < K; ++q) x[q] /= s; }
	P p; for (int q = 0; q < K; ++q) { p[q] = (T)x[q]; x[q] = (ld)p[q]; }
	ld big = 1; for (int q = 0; q < K; ++q) big = std::max(big, fabsl(x[q])); big = 30 * big * big * big;
	int perm[10]; for (int i = 0; i < N; ++i) perm[i] = i; for (int i = N; i > 1; --i) std::swap(perm[i - 1], perm[draw((uint64_t)i)]);
	T v[10]; T g[10][3], h2[10][3];
	Outcome o = attempt([&]() { SF sf; for (int q = 0; q < N; ++q) { NS::Index i = (NS::Index)perm[q]; v[i] = sf.value(i, p); auto a = sf.gradient(i, p); auto b = sf.gradient2(i, p); for (int c = 0; c < K; ++c) { g[i][c] = a[c]; h2[i][c] = b[c]; } } }, k);
	note("shape functions K=%d order %d: %s", K, O, kind_name(o.kind));
	if (!o.ok()) { SIM_CHECK(o.fault && o.kind == OOM, "unexpected-exception", "threw %s", o.type.c_str()); return; }
	ld sum = 0;
	for (int i = 0; i < N; ++i) {
		Jet j = Ref<K, O>::phi(i, x); sum += (ld)v[i];
		SIM_CHECK(!gll(v[i], j.v, tol, big), "shape-value", "K=%d order %d: function %d at (%Lg,%Lg,%Lg) is %s, expected %Lg", K, O, i, x[0], x[1], x[2], str((double)v[i]), j.v);
		if (at_node) SIM_CHECK(!gll(v[i], i == nd, tol, big), "nodal", "K=%d order %d: function %d is %s at node %d", K, O, i, str((double)v[i]), nd);
		for (int c = 0; c < K; ++c) {
			SIM_CHECK(!gll(g[i][c], j.g[c], tol, big), "shape-gradient", "K=%d order %d: derivative %d of function %d at (%Lg,%Lg,%Lg) is %s, expected %Lg", K, O, c, i, x[0], x[1], x[2], str((double)g[i][c]), j.g[c]);
			SIM_CHECK(!gll(h2[i][c], j.h[c], tol, big), "shape-gradient2", "K=%d order %d: second derivative %d of function %d at (%Lg,%Lg,%Lg) is %s, expected %Lg", K, O, c, i, x[0], x[1], x[2], str((double)h2[i][c]), j.h[c]);
		}
	}
	SIM_CHECK(!gll(sum, 1, tol, big), "partition", "K=%d order %d: the shape functions add up to %Lg", K, O, sum);
	// with coefficients: the gradients are the derivatives of the values
	NS::FixedVector<T, SF::DOF> nv; for (int i = 0; i < N; ++i) nv[i] = (T)range(-4, 4);
	NS::Index f = draw((uint64_t)N); int c = (int)draw(K); const T s = (T)0.25; T w[5]; T d1 = 0, d2 = 0;
	o = attempt([&]() { SF sf; for (int q = -2; q <= 2; ++q) { P y = p; y[c] = p[c] + s * q; w[q + 2] = sf.value(f, y, nv); } d1 = sf.gradient(f, p, nv)[c]; d2 = sf.gradient2(f, p, nv)[c]; }, 0);
	SIM_CHECK(o.ok(), "unexpected-exception", "threw %s", o.type.c_str());
	// differences that are exact for cubic polynomials
	ld e1 = ((ld)w[0] - 8 * (ld)w[1] + 8 * (ld)w[3] - (ld)w[4]) / (12 * s), e2 = (-(ld)w[0] + 16 * (ld)w[1] - 30 * (ld)w[2] + 16 * (ld)w[3] - (ld)w[4]) / (12 * s * s);
	SIM_CHECK(!gll(d1, e1, tol * 20, big * 5), "weighted-gradient", "K=%d order %d: derivative %d of weighted function %zu is %s, its values say %Lg", K, O, c, (size_t)f, str((double)d1), e1);
	SIM_CHECK(!gll(d2, e2, tol * 200, big * 5), "weighted-gradient2", "K=%d order %d: second derivative %d of weighted function %zu is %s, its values say %Lg", K, O, c, (size_t)f, str((double)d2), e2);
	sim::state(sim::mix((uint64_t)(K * 8 + O), sim::mix((uint64_t)(x[0] * 1e6L), (uint64_t)(x[1] * 1e6L))));
}
template <class T> static void any_reference(uint64_t k) {
#if VF_BASIC
	if (draw(2)) reference<T, 2, 1>(k); else reference<T, 2, 2>(k);
	return;
#else
	switch (draw(7)) { case 0: reference<T, 2, 1>(k); break; case 1: reference<T, 2, 2>(k); break; case 2: reference<T, 1, 1>(k); break; case 3: reference<T, 1, 2>(k); break; case 4: reference<T, 3, 1>(k); break; case 5: reference<T, 3, 2>(k); break; default: reference<T, 2, 3>(k); }
#endif
}

// ---- a polynomial over the plane
struct Poly {
	int deg; ld c[10], sx; // in x/sx, y/sx
	static int X(int i) { static const int e[] = { 0, 1, 0, 1, 2, 0, 2, 1, 3, 0 }; return e[i]; }
	static int Y(int i) { static const int e[] = { 0, 0, 1, 1, 0, 2, 1, 2, 0, 3 }; return e[i]; }
	static ld pw(ld a, int n) { ld r = 1; while (n-- > 0) r *= a; return r; }
	void random(int d, ld scale) { deg = d; sx = scale; for (int i = 0; i < 10; ++i) c[i] = X(i) + Y(i) <= d ? (ld)range(-3, 3) : 0; if (d >= 0) c[0] += 1; }
	ld at(ld x, ld y) const { ld s = 0; x /= sx; y /= sx; for (int i = 0; i < 10; ++i) if (c[i] != 0) s += c[i] * pw(x, X(i)) * pw(y, Y(i)); return s; }
	ld dx(ld x, ld y) const { ld s = 0; x /= sx; y /= sx; for (int i = 0; i < 10; ++i) if (X(i)) s += c[i] * X(i) * pw(x, X(i) - 1) * pw(y, Y(i)); return s / sx; }
	ld dy(ld x, ld y) const { ld s = 0; x /= sx; y /= sx; for (int i = 0; i < 10; ++i) if (Y(i)) s += c[i] * Y(i) * pw(x, X(i)) * pw(y, Y(i) - 1); return s / sx; }
	ld lap(ld x, ld y) const { ld s = 0; x /= sx; y /= sx; for (int i = 0; i < 10; ++i) { if (X(i) > 1) s += c[i] * X(i) * (X(i) - 1) * pw(x, X(i) - 2) * pw(y, Y(i)); if (Y(i) > 1) s += c[i] * Y(i) * (Y(i) - 1) * pw(x, X(i)) * pw(y, Y(i) - 2); } return s / sx / sx; }
};
template <class F> static ld integrate(const Tri& g, F f, ld& mag) { // exact to degree 6; mag: integral of |f|
	static const ld X[4] = { -0.861136311594052575224L, -0.339981043584856264803L, 0.339981043584856264803L, 0.861136311594052575224L }, W[4] = { 0.347854845137453857373L, 0.652145154862546142627L, 0.652145154862546142627L, 0.347854845137453857373L };
	ld s = 0; mag = 0;
	for (auto& t : g.t) {
		const Pt &a = g.p[t[0]], &b = g.p[t[1]], &c = g.p[t[2]];
		ld ux = (ld)b[0] - a[0], uy = (ld)b[1] - a[1], vx = (ld)c[0] - a[0], vy = (ld)c[1] - a[1], det = fabsl(ux * vy - uy * vx);
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { ld u = (X[i] + 1) / 2, v = (X[j] + 1) / 2 * (1 - u), w = W[i] * W[j] / 4 * (1 - u) * det, y = w * f(a[0] + u * ux + v * vx, a[1] + u * uy + v * vy); s += y; mag += fabsl(y); }
	}
	return s;
}

// One update of the system: all are sums, so any order will do.
struct Update { size_t i, j; double v; };

template <int O> struct System {
	typedef NS::PolyShapeFunction<double, 2, O> SF; typedef NS::GaussLegendreQuadrature<double, 2, O + 1> Q; enum { N = SF::DOF };
	typedef NS::SparseMatrix<double> S; typedef NS::DynamicVector<double> V; typedef NS::FixedVector<double, 2> P;
	Mesh2* m; Tri g; S *K, *M; V* F; size_t n; Poly f; int faults; ld len;
	System() : m(nullptr), K(nullptr), M(nullptr), F(nullptr), n(0), faults(0) {}
	~System() { sim::Lib l; delete K; delete M; delete F; delete m; }
	uint64_t kf() { return faults ? draw_fault(faults) : 0; }
	template <class G> void must(const char* name, G f2) { // repeated until it succeeds
		for (int t = 0;; ++t) { Outcome o = attempt(f2, t < 5 ? kf() : 0); if (o.ok()) return; SIM_CHECK(o.fault && o.kind == OOM, "unexpected-exception", "%s threw %s", name, o.type.c_str()); note("%s: interrupted", name); sim::probe("interrupted"); }
	}
	void clear_system() { sim::Lib l; delete K; delete M; delete F; K = M = nullptr; F = nullptr; K = new S(n, n); M = new S(n, n); F = new V(n); }
	// The element's contributions, as a user would compute them.
	void element(const SF& sf, const Q& q, ME* e, std::vector<Update>& k, std::vector<Update>& mm, std::vector<Update>& ff) {
		double kv[N][N], mv[N][N], fv[N];
		must("element integrals", [&]() {
			const double det = std::fabs(e->Element.determinant()); const auto inv = e->Element.inverseMatrix().transpose();
			for (NS::Index i = 0; i < N; ++i) {
				for (NS::Index j = 0; j < N; ++j) {
					kv[i][j] = det * q.eval([&](const P& p) -> double { return inv.mul(sf.gradient(i, p)).dot(inv.mul(sf.gradient(j, p))); });
					mv[i][j] = det * q.eval([&](const P& p) -> double { return sf.value(i, p) * sf.value(j, p); });
				}
				fv[i] = det * q.eval_index([&](NS::Index, const P& p) -> double { auto x = e->Element.toGlobal(p); return (double)f.at(x[0], x[1]) * sf.value(i, p); });
			}
		});
		for (size_t i = 0; i < (size_t)N; ++i) { size_t gi = e->DOFVertices[i]->GlobalIndex; ff.push_back(Update{ gi, 0, fv[i] }); for (size_t j = 0; j < (size_t)N; ++j) { size_t gj = e->DOFVertices[j]->GlobalIndex; k.push_back(Update{ gi, gj, kv[i][j] }); mm.push_back(Update{ gi, gj, mv[i][j] }); } }
	}
	void setup() {
		g = random_tri(chance(1, 40) ? 7 : 3, false, pick({ 1.0, 0.125, 16.0 }));
		len = 0; for (auto& p : g.p) len = std::max(len, (ld)std::max(std::fabs(p[0]), std::fabs(p[1]))); if (len <= 0) len = 1;
		{ sim::Lib l; m = new Mesh2(); h::build(*m, g); m->setupBoundaries(); NS::PolyShapePolicy<double, 2, O>::prepareMesh(*m); m->prepare(); }
		n = m->vertices().size(); faults = chance(2, 3) ? (int)range(5, 50) : 0;
	}
	void assemble() {
		clear_system(); f.random((int)draw(O + 1), len);
		SF sf; Q* q = nullptr; must("quadrature", [&]() { q = new Q(); });
		std::vector<size_t> order(g.t.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
		if (chance(2, 3)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[draw(i)]);
		bool bulk = chance(1, 3), interleave = chance(1, 2); std::vector<Update> k, mm, ff;
		auto flush = [&]() {
			if (chance(1, 3)) { Rnd r; for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[r(i)]); }
			size_t a = 0, b = 0, c = 0;
			// each update either happens or, if it is cut off, leaves no trace and is repeated
			while (a < k.size() || b < mm.size() || c < ff.size()) {
				for (int t = 0;; ++t) {
					Outcome o = attempt([&]() {
						size_t left = 40;
						while (left-- && (a < k.size() || b < mm.size())) {
							if (a < k.size() && (interleave || b >= mm.size())) { auto& u = k[a]; K->set(u.i, u.j, K->at(u.i, u.j) + u.v); ++a; }
							if (b < mm.size()) { auto& u = mm[b]; M->set(u.i, u.j, M->at(u.i, u.j) + u.v); ++b; }
						}
						while (a >= k.size() && b >= mm.size() && c < ff.size()) { auto& u = ff[c]; F->set(u.i, F->at(u.i) + u.v); ++c; }
					}, t < 3 ? kf() : 0);
					if (o.ok()) break;
					SIM_CHECK(o.fault && o.kind == OOM, "unexpected-exception", "assembly threw %s", o.type.c_str()); note("assembly: interrupted"); sim::probe("interrupted");
				}
			}
			k.clear(); mm.clear(); ff.clear();
		};
		for (size_t e : order) { element(sf, *q, m->element(e), k, mm, ff); if (!bulk) flush(); }
		flush();
		{ sim::Lib l; delete q; }
		note("assembled %zu triangles, %zu unknowns, load of degree %d", g.t.size(), n, f.deg);
	}
	ld form(const S& A, const std::vector<ld>& u, const std::vector<ld>& v, ld& mag) { ld s = 0; mag = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { ld y = v[i] * (ld)A.at(i, j) * u[j]; s += y; mag += fabsl(y); } return s; }
	std::vector<ld> nodal(const Poly& p) { std::vector<ld> u(n); for (size_t i = 0; i < n; ++i) { auto& x = m->vertex(i)->Vertex; u[i] = p.at(x.at(0), x.at(1)); } return u; }
	void check_forms() {
		Poly p, q; p.random(O, len); q.random(O, len); ld mg, mi;
		auto u = nodal(p), v = nodal(q);
		ld a = form(*K, u, v, mg), b = integrate(g, [&](ld x, ld y) { return p.dx(x, y) * q.dx(x, y) + p.dy(x, y) * q.dy(x, y); }, mi);
		SIM_CHECK(fabsl(a - b) <= 1e-11L * (mg + mi), "stiffness", "the stiffness matrix gives %Lg for two polynomials of degree %d, the integral is %Lg", a, O, b);
		q.random(O == 2 ? 1 : O, len); v = nodal(q);
		a = form(*M, u, v, mg); b = integrate(g, [&](ld x, ld y) { return p.at(x, y) * q.at(x, y); }, mi);
		SIM_CHECK(fabsl(a - b) <= 1e-11L * (mg + mi), "mass", "the mass matrix gives %Lg, the integral is %Lg", a, b);
		q.random(1, len); v = nodal(q); a = 0; mg = 0; for (size_t i = 0; i < n; ++i) { a += v[i] * (ld)F->at(i); mg += fabsl(v[i] * (ld)F->at(i)); }
		b = integrate(g, [&](ld x, ld y) { return f.at(x, y) * q.at(x, y); }, mi);
		SIM_CHECK(fabsl(a - b) <= 1e-11L * (mg + mi), "load", "the load vector gives %Lg, the integral is %Lg", a, b);
		for (size_t i = 0; i < n; ++i) { ld row = 0, big = 0; for (size_t j = 0; j < n; ++j) { ld x = K->at(i, j), y = K->at(j, i); row += x; big += fabsl(x); SIM_CHECK(fabsl(x - y) <= 1e-12L * (fabsl(x) + fabsl((ld)K->at(i, i)) + fabsl((ld)K->at(j, j))), "symmetry", "stiffness (%zu,%zu) is %Lg but (%zu,%zu) is %Lg", i, j, x, j, i, y); } SIM_CHECK(fabsl(row) <= 1e-11L * big, "stiffness", "row %zu of the stiffness matrix adds up to %Lg", i, row); }
	}
	void check_interpolation() {
		Poly p; p.random(O, len); auto u = nodal(p); SF sf;
		for (int t = 0; t < 4; ++t) {
			ME* e = m->element(draw(g.t.size())); P loc; loc[0] = (double)draw(17) / 16; loc[1] = (double)draw(17) / 16; if (loc[0] + loc[1] > 1 && chance(3, 4)) { loc[0] = 1 - loc[0]; loc[1] = 1 - loc[1]; }
			ld v = 0, gx = 0, gy = 0, mv = 0, mg = 0; P gl;
			Outcome o = attempt([&]() {
				gl = e->Element.toGlobal(loc); const auto inv = e->Element.inverseMatrix().transpose();
				for (NS::Index i = 0; i < (NS::Index)N; ++i) { ld w = u[e->DOFVertices[i]->GlobalIndex]; double s = sf.value(i, loc); auto d = inv.mul(sf.gradient(i, loc)); v += w * s; gx += w * d[0]; gy += w * d[1]; mv += fabsl(w * s); mg += fabsl(w * d[0]) + fabsl(w * d[1]); }
			});
			SIM_CHECK(o.ok(), "unexpected-exception", "interpolation threw %s", o.type.c_str());
			ld x = gl[0], y = gl[1];
			SIM_CHECK(fabsl(v - p.at(x, y)) <= 1e-11L * (mv + fabsl(p.at(x, y)) + 1), "interpolation", "a polynomial of degree %d interpolated on the mesh is %Lg at (%Lg,%Lg), expected %Lg", O, v, x, y, p.at(x, y));
			SIM_CHECK(fabsl(gx - p.dx(x, y)) + fabsl(gy - p.dy(x, y)) <= 1e-10L * (mg + 1 / len), "interpolation-gradient", "the gradient of a polynomial of degree %d is (%Lg,%Lg) at (%Lg,%Lg), expected (%Lg,%Lg)", O, gx, gy, x, y, p.dx(x, y), p.dy(x, y));
		}
	}
	// Patch test: a polynomial the elements can represent solves its own Poisson problem on any mesh.
	void patch() {
		Poly p; p.random(O, len); std::vector<ld> u = nodal(p); SF sf; Q* q = nullptr;
		const Poly kept = f; f.random(0, len); f.c[0] = -p.lap(0, 0); // constant, degree <= 2
		must("quadrature", [&]() { q = new Q(); });
		std::vector<ld> rhs(n); for (size_t t = 0; t < g.t.size(); ++t) { std::vector<Update> k, mm, ff; int keep = faults; faults = 0; element(sf, *q, m->element(t), k, mm, ff); faults = keep; for (auto& x : ff) rhs[x.i] += x.v; }
		f = kept;
		{ sim::Lib l; delete q; }
		S* A = nullptr; V *B = nullptr, *X = nullptr; size_t it = 0; bool pre = chance(1, 2); S* C = nullptr; ld umax = 0; for (auto x : u) umax = std::max(umax, fabsl(x));
		auto fixed = [&](size_t i) { return (m->vertex(i)->Flags & NS::MVF_StrongBoundary) != 0; };
		{ sim::Lib l; A = new S(*K); B = new V(n); X = new V(n); C = new S(n, n);
			for (size_t i = 0; i < n; ++i) { ld b = rhs[i]; if (fixed(i)) b = u[i]; else for (size_t j = 0; j < n; ++j) if (fixed(j)) b -= (ld)K->at(i, j) * u[j]; B->set(i, (double)b); }
			for (size_t i = 0; i < n; ++i) if (fixed(i)) { for (size_t j = 0; j < n; ++j) { A->set(i, j, 0); A->set(j, i, 0); } A->set(i, i, 1); } }
		Outcome o = attempt([&]() { if (pre) { NS::CG::serial::jacobi(*A, *C); *X = NS::CG::serial::pcg(*A, *B, *C, *X, 6 * n + 50, 1e-12 * (double)umax, &it); } else *X = NS::CG::serial::cg(*A, *B, *X, 6 * n + 50, 1e-12 * (double)umax, &it); }, 0);
		SIM_CHECK(o.ok(), "unexpected-exception", "solving threw %s", o.type.c_str());
		for (size_t i = 0; i < n; ++i) SIM_CHECK(fabsl((ld)X->at(i) - u[i]) <= 1e-7L * (umax + 1e-3L), "patch-test", "a polynomial of degree %d is not its own discrete solution: %Lg instead of %Lg at node %zu of %zu after %zu iterations", O, (ld)X->at(i), u[i], i, n, it);
		note("patch test, %zu iterations", it); sim::probe("patch-test");
		sim::Lib l; delete A; delete B; delete X; delete C;
	}
	void run() {
		setup(); assemble(); check_forms();
		sim::state(sim::mix(g.hash(), O));
		sim::plan_steps(1, 6);
		while (sim::next_step()) {
			switch (draw(6)) {
			case 0: assemble(); check_forms(); break;
			case 1: check_interpolation(); break;
			case 2: patch(); break;
			case 3: any_reference<double>(kf()); break;
			case 4: any_reference<float>(kf()); break;
			default: check_forms(); check_interpolation();
			}
		}
		sim::nontrivial();
	}
};
static void run() { if (draw(2)) { System<2> s; s.run(); } else { System<1> s; s.run(); } }
int main(int argc, char** argv) {
	sim::Check c = { "C21", run, 12000, 600,
		"one evaluation = one random mesh with first- or second-order elements whose stiffness and mass matrices and load vector are assembled in random element and update order, interrupted by allocation failures and resumed, then compared with exact integrals, interpolated, solved (patch test) and interleaved with evaluations of shape functions of every dimension and order; distinct = different event log; non-trivial = an assembled system was compared",
		"PolyShapeFunction, Quadrature, Simplex, Mesh, PolyShapePolicy::prepareMesh, SparseMatrix, DynamicVector, CG", "heap allocator (operator new/delete) simulated",
		"meshes are two-dimensional (the only dimension the library supports); shape functions of dimensions 1 and 3 and of third order are evaluated on the reference element only" };
	return sim::runner_main(argc, argv, c);
}
