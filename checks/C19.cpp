// C19: element geometry follows the vertices through every update.
#include "meshgen.h"
using namespace h;

template <class T> struct Geo {
	typedef NS::Simplex<T, 2> S; typedef NS::FixedVector<T, 2> V2; typedef long double W; typedef std::array<W, 2> P2;
	static W eps() { return sizeof(T) == 4 ? 2e-6L : 4e-15L; }
	struct Box { // what a triangle must be
		P2 p[3]; W det, h, mag;
		Box() : det(0), h(0), mag(0) {}
		void from(const P2* q) {
			for (int i = 0; i < 3; ++i) p[i] = q[i];
			det = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]); h = 0; mag = 0;
			for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; h = std::max(h, hypotl(p[i][0] - p[j][0], p[i][1] - p[j][1])); for (int c = 0; c < 2; ++c) mag = std::max(mag, fabsl(p[i][c])); }
		}
		// relative conditioning of the triangle: how much rounding may be magnified
		W amp() const { W d = fabsl(det); return d == 0 ? 0 : (h * h / d) * (1 + mag / h); }
		bool flat() const { return det == 0 || amp() > (sizeof(T) == 4 ? 1e3L : 1e7L); }
	};
	static const char* s(W v) { return str((double)v); }
	static void near(W got, W want, W tol, const char* cls, const char* w, const char* q) {
		SIM_CHECK(std::isfinite((double)got) && fabsl(got - want) <= tol, cls, "%s: %s is %s, expected %s", w, q, s(got), s(want));
	}
	static P2 at(const V2& v) { return P2{ { (W)v[0], (W)v[1] } }; }
	static void near2(const V2& v, const P2& want, W tol, const char* cls, const char* w, const char* q) {
		for (int c = 0; c < 2; ++c) SIM_CHECK(std::isfinite((double)v[c]) && fabsl((W)v[c] - want[c]) <= tol, cls, "%s: %s is (%s,%s), expected (%s,%s)", w, q, s(v[0]), s(v[1]), s(want[0]), s(want[1]));
	}
	// what needs the vertices only
	static void raw(const S& e, const P2* p, const char* w) {
		Box b; b.from(p); const W r = eps() * (1 + b.mag);
		const S& ce = e; for (int i = 0; i < 3; ++i) SIM_CHECK(at(ce[(size_t)i]) == p[i], "vertex", "%s: corner %d is (%s,%s), expected (%s,%s)", w, i, s(ce[(size_t)i][0]), s(ce[(size_t)i][1]), s(p[i][0]), s(p[i][1]));
		near(e.diameter(), b.h, eps() * (b.h + b.mag), "diameter", w, "the diameter");
		for (int i = 0; i < 3; ++i) {
			int j = (i + 1) % 3, k = (i + 2) % 3; char q[40];
			P2 c = { { (p[j][0] + p[k][0]) / 2, (p[j][1] + p[k][1]) / 2 } }; snprintf(q, sizeof q, "the centre of face %d", i); near2(e.faceCenter((size_t)i), c, r, "face-center", w, q);
			if (b.flat()) continue;
			P2 d = { { p[k][0] - p[j][0], p[k][1] - p[j][1] } }; W l = hypotl(d[0], d[1]); P2 n = { { d[1] / l, -d[0] / l } };
			if ((c[0] - p[i][0]) * n[0] + (c[1] - p[i][1]) * n[1] < 0) { n[0] = -n[0]; n[1] = -n[1]; }
			snprintf(q, sizeof q, "the outer normal of face %d", i); near2(e.faceNormal((size_t)i), n, eps() * 4 * (1 + b.mag / l), "face-normal", w, q);
		}
	}
	// what prepare() computes
	static void prepared(const S& e, const P2* p, const char* w) {
		Box b; b.from(p); W de = eps() * (b.h * b.h + b.h * b.mag) * 4;
		near(e.determinant(), b.det, de, "determinant", w, "the determinant"); near(e.volume(), fabsl(b.det) / 2, de, "volume", w, "the volume");
		Table<T> m = table_of<T>(e.matrix()); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) near(m.at((size_t)i, (size_t)j), p[j + 1][(size_t)i] - p[0][(size_t)i], eps() * (b.h + b.mag), "matrix", w, "an entry of the affine map");
		if (b.flat()) { sim::probe("flat triangle"); return; }
		const W a = eps() * b.amp() * 16; Table<T> v = table_of<T>(e.inverseMatrix());
		W want[4] = { (p[2][1] - p[0][1]) / b.det, -(p[2][0] - p[0][0]) / b.det, -(p[1][1] - p[0][1]) / b.det, (p[1][0] - p[0][0]) / b.det }, big = b.h / fabsl(b.det);
		for (int i = 0; i < 4; ++i) near(v.v[(size_t)i], want[i], a * big, "inverse", w, "an entry of the inverse map");
		P2 g[3] = { { { -want[0] - want[2], -want[1] - want[3] } }, { { want[0], want[1] } }, { { want[2], want[3] } } };
		for (int i = 0; i < 3; ++i) { char q[50]; snprintf(q, sizeof q, "the gradient of coordinate %d", i); near2(e.gradient((size_t)i), g[i], a * big, "gradient", w, q); }
		// corners, centroid and a random point: to local coordinates and back
		for (int i = 0; i < 5; ++i) {
			P2 l = i < 3 ? P2{ { i == 1 ? 1.0L : 0.0L, i == 2 ? 1.0L : 0.0L } } : i == 3 ? P2{ { 1 / 3.0L, 1 / 3.0L } } : P2{ { (W)range(-6, 10) / 4, (W)range(-6, 10) / 4 } };
			P2 x; for (size_t c = 0; c < 2; ++c) x[c] = p[0][c] + l[0] * (p[1][c] - p[0][c]) + l[1] * (p[2][c] - p[0][c]);
			V2 lv, gv; lv[0] = (T)l[0]; lv[1] = (T)l[1]; gv[0] = (T)x[0]; gv[1] = (T)x[1];
			near2(e.toGlobal(lv), x, eps() * 8 * (b.h + b.mag), "to-global", w, "a mapped point"); near2(e.toLocal(gv), l, a * 4, "to-local", w, "the local coordinates of a point");
			V2 rt = e.toGlobal(e.toLocal(gv)); near2(rt, x, a * 8 * (b.h + b.mag), "round-trip", w, "a point mapped to local coordinates and back");
		}
		W x1 = p[1][0] - p[0][0], y1 = p[1][1] - p[0][1], x2 = p[2][0] - p[0][0], y2 = p[2][1] - p[0][1], s1 = x1 * x1 + y1 * y1, s2 = x2 * x2 + y2 * y2;
		P2 c = { { (y2 * s1 - y1 * s2) / (2 * b.det), (x1 * s2 - x2 * s1) / (2 * b.det) } }; W rad = hypotl(c[0], c[1]), tol = a * (rad + b.h + b.mag) * 4; c[0] += p[0][0]; c[1] += p[0][1];
		near2(e.center(), c, tol, "circumcenter", w, "the centre of the circumscribed circle"); near(e.outerRadius(), rad, tol, "circumradius", w, "the radius of the circumscribed circle");
		sim::probe(b.det < 0 ? "clockwise triangle" : "counter-clockwise triangle");
	}

	enum { N = 4 };
	struct Slot { S* e; P2 p[3]; int state; }; // 0 nothing computed yet, 1 computed from these corners, 2 corners moved since
	Slot o[N];
	Geo() { for (auto& x : o) { x.e = nullptr; x.state = 0; } }
	~Geo() { sim::Lib l; for (auto& x : o) delete x.e; }
	static P2 point() {
		static const double scale[] = { 1, 1, 0.25, 1024, 1.0 / 4096 }; double k = scale[draw(5)]; W off = chance(1, 6) ? 64 : 0;
		return P2{ { (W)(T)((double)range(-8, 8) * k) + off, (W)(T)((double)range(-8, 8) * k) + off } };
	}
	static void corners(P2* p) {
		static const double scale[] = { 1, 1, 0.25, 1024, 1.0 / 4096 }; double k = scale[draw(5)]; W ox = chance(1, 3) ? (W)range(-20, 20) * k : 0, oy = chance(1, 3) ? (W)range(-20, 20) * k : 0;
		for (int i = 0; i < 3; ++i) { p[i][0] = (W)range(-8, 8) * k + ox; p[i][1] = (W)range(-8, 8) * k + oy; if (chance(1, 6)) p[i][0] += (W)(T)(0.3 * k); }
		for (int i = 0; i < 3; ++i) for (size_t c = 0; c < 2; ++c) p[i][c] = (W)(T)p[i][c];
	}
	static V2 vec(const P2& q) { V2 v; v[0] = (T)q[0]; v[1] = (T)q[1]; return v; }
	void judge(Slot& x, const char* w) { raw(*x.e, x.p, w); if (x.state == 1) prepared(*x.e, x.p, w); }
	void run() {
		for (auto& x : o) { sim::Lib l; x.e = new S(); for (auto& q : x.p) q = P2{ { 0, 0 } }; }
		SIM_CHECK(S::unitVolume() == (T)0.5 && S::Order == 2 && S::VertexCount == 3, "volume", "the unit triangle has volume %s", s((W)S::unitVolume()));
		sim::plan_steps(2, 24);
		while (sim::next_step()) {
			size_t i = draw(N), j = draw(N); Slot &a = o[i], &b = o[j]; int op = (int)draw(12); uint64_t k = draw_fault(20);
			P2 q[3]; corners(q); size_t c = draw(3); const char* nm = "";
			Outcome r;
			switch (op) {
			case 0: case 1: nm = "place"; for (size_t z = 0; z < 3; ++z) { (*a.e)[z] = vec(q[z]); a.p[z] = q[z]; } if (a.state == 1) a.state = 2; break;
			case 2: { nm = "move a corner"; P2 z = point(); (*a.e)[c] = vec(z); a.p[c] = z; if (a.state == 1) a.state = 2; break; }
			case 3: { nm = "construct"; S* n = nullptr;
				r = attempt([&]() { n = new S({ { (T)q[0][0], (T)q[0][1] }, { (T)q[1][0], (T)q[1][1] }, { (T)q[2][0], (T)q[2][1] } }); }, k);
				if (r.ok()) { { sim::Lib l; delete a.e; } a.e = n; for (int z = 0; z < 3; ++z) a.p[z] = q[z]; a.state = 0; } break; }
			case 4: { nm = "copy"; S* n = nullptr; r = attempt([&]() { n = new S(*b.e); }, k); if (r.ok()) { { sim::Lib l; if (&a != &b) delete a.e; else delete b.e; } Slot t = b; a = t; a.e = n; } break; }
			case 5: { nm = "assign"; r = attempt([&]() { *a.e = *b.e; }); S* e = a.e; Slot t = b; a = t; a.e = e; break; }
			case 6: { nm = "swap"; r = attempt([&]() { std::swap(*a.e, *b.e); }); if (&a != &b) { std::swap(a.e, b.e); std::swap(a, b); } break; }
			case 7: { nm = "translate"; P2 z = point(); V2 d = vec(z); for (size_t x = 0; x < 3; ++x) { (*a.e)[x] += d; for (size_t y = 0; y < 2; ++y) a.p[x][y] = (W)(T)((T)a.p[x][y] + (T)z[y]); } if (a.state == 1) a.state = 2; break; }
			case 8: { nm = "transform"; // moves that keep the volume, the centre or single coordinates, mostly prepared right away
				W n = (W)range(-3, 3); P2 z[3]; int how = (int)draw(7); for (int y = 0; y < 3; ++y) z[y] = a.p[y];
				for (int y = 0; y < 3; ++y) { W dx = a.p[y][0] - a.p[0][0], dy = a.p[y][1] - a.p[0][1];
					switch (how) { case 0: z[y] = P2{ { a.p[0][0] + dx + n * dy, a.p[0][1] + dy } }; break; case 1: z[y] = P2{ { a.p[0][0] + dx, a.p[0][1] + dy + n * dx } }; break; case 2: z[y] = P2{ { a.p[0][0] - dy, a.p[0][1] + dx } }; break;
						case 3: z[y] = P2{ { a.p[0][0] - dx, a.p[0][1] - dy } }; break; case 4: z[y] = P2{ { a.p[0][0] - dx, a.p[0][1] + dy } }; break; case 5: z[y] = a.p[(y + 1) % 3]; break; default: if (y) z[y] = a.p[3 - y]; } }
				for (size_t y = 0; y < 3; ++y) { (*a.e)[y] = vec(z[y]); a.p[y] = at((*a.e)[y]); }
				if (a.state == 1) a.state = 2; if (chance(2, 3)) { r = attempt([&]() { a.e->prepare(); }, k); if (r.ok()) a.state = 1; } break; }
			default: nm = "prepare"; r = attempt([&]() { a.e->prepare(); }, k); if (r.ok()) a.state = 1; else if (a.state == 1) a.state = 2; break;
			}
			if (op >= 3 && op != 7) { note("%s %zu %zu: %s%s", nm, i, j, kind_name(r.kind), r.fault ? " (allocation failed)" : ""); SIM_CHECK(r.ok() || (r.fault && r.kind == OOM), "unexpected-exception", "%s threw %s", nm, r.type.c_str()); }
			else note("%s %zu", nm, i);
			{ sim::Lib l; judge(a, nm); if (&a != &b) judge(b, nm); }
			sim::state(sim::mix(sim::mix((uint64_t)a.state, (uint64_t)(a.p[0][0] * 64)), sim::mix((uint64_t)(a.p[1][0] * 64), (uint64_t)(a.p[2][1] * 64)))); sim::nontrivial();
		}
	}
};
typedef Geo<double> G;
static double area(const Tri& g) { double s = 0; for (auto& t : g.t) { const Pt &a = g.p[t[0]], &b = g.p[t[1]], &c = g.p[t[2]]; s += std::fabs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])) / 2; } return s; }
// the elements of a mesh, each by itself and across shared sides
static void elements(const Mesh2& m, const Tri& g, const char* w) {
	double sum = 0; auto& E = m.elements(); SIM_CHECK(E.size() == g.t.size(), "element-count", "%s: %zu elements, expected %zu", w, E.size(), g.t.size());
	for (size_t e = 0; e < E.size(); ++e) {
		G::P2 p[3]; for (size_t i = 0; i < 3; ++i) for (size_t c = 0; c < 2; ++c) { p[i][c] = g.p[g.t[e][i]][c]; double at = E[e]->Vertices[i]->Vertex[c], in = E[e]->Element[i][c]; SIM_CHECK(near(at, (double)p[i][c], 1e-12) && in == at, "vertex", "%s: corner %zu of element %zu is at %s in the mesh and at %s in the element, expected %s", w, i, e, str(at), str(in), str((double)p[i][c])); p[i][c] = at; }
		char q[80]; snprintf(q, sizeof q, "%s, element %zu", w, e); G::raw(E[e]->Element, p, q); G::prepared(E[e]->Element, p, q); sum += E[e]->Element.volume();
	}
	double want = area(g); SIM_CHECK(std::fabs(sum - want) <= 1e-10 * want, "volume", "%s: the elements add up to %s, the domain has %s", w, str(sum), str(want));
	for (auto s : m.edges()) if (s->Elements[0] && s->Elements[1]) {
		NS::FixedVector<double, 2> n[2], c[2]; double v[2];
		for (int k = 0; k < 2; ++k) { auto el = s->Elements[k]; size_t f = 3; for (size_t i = 0; i < 3; ++i) if (el->Neighbors[i] == s) f = i; SIM_CHECK(f < 3, "edge", "%s: an element does not know its own edge", w); n[k] = el->Element.faceNormal(f); c[k] = el->Element.faceCenter(f); v[k] = el->Element.volume(); }
		for (size_t i = 0; i < 2; ++i) SIM_CHECK(std::fabs(c[0][i] - c[1][i]) <= 1e-12 * (1 + std::fabs(c[0][i])), "face-center", "%s: two elements disagree on the centre of their common side", w);
		SIM_CHECK(v[0] > 0 && v[1] > 0, "volume", "%s: an element has no volume", w); if (n[0][0] * n[1][0] + n[0][1] * n[1][1] < 0) { for (size_t i = 0; i < 2; ++i) SIM_CHECK(std::fabs(n[0][i] + n[1][i]) <= 1e-9, "face-normal", "%s: the two outer normals of a side are not opposite", w); } else fail("face-normal", "%s: the two outer normals of a side point the same way", w);
		sim::probe("side compared from both elements");
	}
}
static void mesh_world() {
	int faults = chance(2, 3) ? (int)range(10, 60) : 0; Tri g = random_tri(chance(1, 200) ? 12 : 3, false, pick({ 1.0, 0.125, 64.0 }));
	struct Own { Mesh2* m; Own() : m(nullptr) {} ~Own() { sim::Lib l; delete m; } } o;
	auto must = [&](const char* nm, std::function<void()> f, std::function<void()> undo) {
		for (int t = 0;; ++t) {
			Outcome r = attempt(f, faults && t < 3 ? draw_fault(faults) : 0); note("%s: %s%s", nm, kind_name(r.kind), r.fault ? " (allocation failed)" : "");
			if (r.ok()) return; SIM_CHECK(r.fault && r.kind == OOM, "unexpected-exception", "%s threw %s", nm, r.type.c_str()); sim::probe("mesh step repeated after memory exhaustion"); undo();
		}
	};
	auto nothing = []() {};
	{ sim::Lib l; o.m = new Mesh2(); }
	must("vertices", [&]() { build_vertices(*o.m, g); }, [&]() { sim::Lib l; o.m->clear(); });
	must("elements", [&]() { build_elements(*o.m, g); }, [&]() { for (;;) { Outcome r = attempt([&]() { o.m->clear(); build_vertices(*o.m, g); }); if (r.ok()) break; } });
	if (chance(3, 4)) must("setupNeighbors", [&]() { o.m->setupNeighbors(); }, nothing);
	must("prepare", [&]() { o.m->prepare(); }, nothing); { sim::Lib l; elements(*o.m, g, "prepared"); }
	sim::plan_steps(1, 6); bool placed = false;
	while (sim::next_step()) {
		switch (draw(5)) {
		case 0: { Mesh2* n = nullptr; must("copy the mesh", [&]() { n = new Mesh2(*o.m); }, nothing); { sim::Lib l; delete o.m; } o.m = n; break; }
		case 1: if (!o.m->edges().empty() && !placed) { placed = true; int ord = 1 + (int)draw(2); Outcome r = attempt([&]() { if (ord == 1) NS::PolyShapePolicy<double, 2, 1>::prepareMesh(*o.m); else NS::PolyShapePolicy<double, 2, 2>::prepareMesh(*o.m); }); note("prepareMesh<%d>", ord); SIM_CHECK(r.ok(), "unexpected-exception", "prepareMesh threw %s", r.type.c_str()); } break;
		case 2: case 3: { // stretch and shift the whole mesh, element by element
			double sx = pick({ 2.0, -1.0, 0.5, 1.0 }), sy = pick({ 1.0, 4.0, -0.5 }), sh = pick({ 0.0, 0.0, 0.25, -0.5 }), ox = (double)range(-3, 3), oy = (double)range(-3, 3); size_t n = g.p.size();
			if (sh != 0 && chance(2, 3)) { sx = 1; sy = pick({ 1.0, -1.0 }); } for (auto& p : g.p) { p[0] = p[0] * sx + p[1] * sh + ox; p[1] = p[1] * sy + oy; }
			{ sim::Lib l; for (size_t i = 0; i < n; ++i) { auto v = o.m->vertices()[i]; v->Vertex[0] = g.p[i][0]; v->Vertex[1] = g.p[i][1]; } for (auto e : o.m->elements()) for (size_t i = 0; i < 3; ++i) e->Element[i] = e->Vertices[i]->Vertex; }
			note("stretch"); break; }
		default: note("again"); break;
		}
		bool one = chance(1, 2);
		must(one ? "prepare each" : "prepare", [&]() { if (one) for (auto e : o.m->elements()) e->Element.prepare(); else o.m->prepare(); }, nothing);
		{ sim::Lib l; elements(*o.m, g, "updated"); }
		sim::state(g.hash()); sim::nontrivial();
	}
}
static void run() { switch (draw(4)) { case 0: case 1: { Geo<double> w; w.run(); break; } case 2: { Geo<float> w; w.run(); break; } default: mesh_world(); } }
int main(int argc, char** argv) {
	sim::Check c = { "C19", run, 60000, 600,
		"one evaluation = one seeded history of up to 24 placements, moves, copies, swaps and preparations of 4 triangles (double or float), or one mesh built, prepared, copied, deformed and prepared again with allocation failures; distinct = different event log; non-trivial = at least one geometry compared with its corners",
		"Simplex, Normal, FixedVector, FixedMatrix, MatrixOperations::determinant, Mesh (src/lib, compiled from the working tree)", "heap allocator (operator new/delete) simulated",
		"two-dimensional elements (the only ones the library compiles); quantities of elements whose corners changed since prepare() are not judged, nor are directions and inverses of flat triangles" };
	return sim::runner_main(argc, argv, c);
}
