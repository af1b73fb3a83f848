// Random triangulations as plain data, building library meshes from them, and
// an independent description of what the topology must be.
#pragma once
#include "h.h"
#include "mesh/Mesh.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <memory>

namespace h {
typedef NS::Mesh<double, 2> Mesh2;
typedef NS::MeshVertex<double, 2> MV;
typedef NS::MeshElement<double, 2> ME;
typedef NS::MeshEdge<double, 2> MG;
typedef std::array<double, 2> Pt;
typedef std::array<size_t, 3> Tr;
typedef std::pair<size_t, size_t> Side;
inline Side side(size_t a, size_t b) { return a < b ? Side(a, b) : Side(b, a); }

struct Tri {
	std::vector<Pt> p; std::vector<Tr> t;
	std::map<Side, std::vector<size_t> > sides() const {
		std::map<Side, std::vector<size_t> > m;
		for (size_t e = 0; e < t.size(); ++e) for (int i = 0; i < 3; ++i) m[side(t[e][(i + 1) % 3], t[e][(i + 2) % 3])].push_back(e);
		return m;
	}
	void drop_isolated() {
		std::vector<size_t> use(p.size(), 0), to(p.size());
		for (auto& e : t) for (auto v : e) use[v] = 1;
		std::vector<Pt> q;
		for (size_t i = 0; i < p.size(); ++i) if (use[i]) { to[i] = q.size(); q.push_back(p[i]); }
		for (auto& e : t) for (auto& v : e) v = to[v];
		p = q;
	}
	uint64_t hash() const { uint64_t h = p.size(); for (auto& e : t) for (auto v : e) h = sim::mix(h, v); for (auto& q : p) { uint64_t u[2]; memcpy(u, q.data(), 16); h = sim::mix(sim::mix(h, u[0]), u[1]); } return h; }
};

// Regular n x m grid in the library's own order (for comparing with HyperCube).
// a long band of n triangles, vertices in the order of their first use
inline Tri band_tri(size_t n) { Tri g; for (size_t i = 0; i < n + 2; ++i) g.p.push_back(Pt{ (double)(i / 2), (double)(i % 2) }); for (size_t i = 0; i < n; ++i) g.t.push_back(Tr{ i, i + 1, i + 2 }); return g; }
inline Tri grid_tri(size_t nx, size_t ny, double sx, double sy, double ox, double oy) {
	Tri g;
	for (size_t i = 0; i <= ny; ++i) for (size_t j = 0; j <= nx; ++j) g.p.push_back(Pt{ { ox + sx / (double)nx * (double)j, oy + sy / (double)ny * (double)i } });
	size_t w = nx + 1;
	for (size_t i = 1; i <= ny; ++i) for (size_t j = 1; j <= nx; ++j) {
		size_t a = (i - 1) * w + j - 1, b = i * w + j - 1, c = i * w + j, d = (i - 1) * w + j;
		g.t.push_back(Tr{ { a, b, c } }); g.t.push_back(Tr{ { a, c, d } });
	}
	return g;
}
static bool plain_meshes = false; // elements with symmetric Jacobians only
// A random triangulation: grid with random diagonals and holes, jittered, in random order.
// 'isolated' keeps vertices no triangle uses.
inline Tri random_tri(size_t maxn, bool isolated = false, double step = 1.0) {
	size_t nx = 1 + draw(maxn), ny = 1 + draw(maxn), w = nx + 1;
	Tri g;
	bool jit = chance(1, 2) && !plain_meshes;
	for (size_t i = 0; i <= ny; ++i) for (size_t j = 0; j <= nx; ++j) {
		double dx = jit ? (double)range(-2, 2) / 16 : 0, dy = jit ? (double)range(-2, 2) / 16 : 0;
		g.p.push_back(Pt{ { step * ((double)j + dx), step * ((double)i + dy) } });
	}
	unsigned keep = chance(1, 3) ? 70 : 100;
	for (size_t i = 1; i <= ny; ++i) for (size_t j = 1; j <= nx; ++j) {
		size_t a = (i - 1) * w + j - 1, b = i * w + j - 1, c = i * w + j, d = (i - 1) * w + j;
		bool diag = draw(2) && !plain_meshes;
		Tr t1 = diag ? Tr{ { a, b, d } } : Tr{ { a, b, c } }, t2 = diag ? Tr{ { d, b, c } } : Tr{ { a, c, d } };
		if (keep == 100 || draw(100) < keep) g.t.push_back(t1);
		if (keep == 100 || draw(100) < keep) g.t.push_back(t2);
	}
	if (g.t.empty()) g.t.push_back(Tr{ { 0, w, w + 1 } });
	if (!isolated) g.drop_isolated();
	if (chance(1, 2)) { // random numbering
		std::vector<size_t> perm(g.p.size());
		for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
		for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[draw(i)]);
		std::vector<Pt> q(g.p.size());
		for (size_t i = 0; i < perm.size(); ++i) q[perm[i]] = g.p[i];
		g.p = q;
		for (auto& e : g.t) for (auto& v : e) v = perm[v];
		for (size_t i = g.t.size(); i > 1; --i) std::swap(g.t[i - 1], g.t[draw(i)]);
		if (!plain_meshes) for (auto& e : g.t) { std::rotate(e.begin(), e.begin() + draw(3), e.end()); if (draw(2)) std::swap(e[0], e[1]); }
	}
	return g;
}

// Library-side construction; call inside a Lib scope.
inline void build_vertices(Mesh2& m, const Tri& g) {
	for (auto& q : g.p) {
		NS::FixedVector<double, 2> v; v[0] = q[0]; v[1] = q[1];
		std::unique_ptr<MV> mv(new MV(v));
		m.addVertex(mv.get()); mv.release();
	}
}
inline void build_elements(Mesh2& m, const Tri& g) {
	for (auto& e : g.t) {
		std::unique_ptr<ME> me(new ME());
		for (int i = 0; i < 3; ++i) me->Vertices[i] = m.vertex(e[i]);
		m.addElement(me.get()); me.release();
	}
}
inline void build(Mesh2& m, const Tri& g) { build_vertices(m, g); build_elements(m, g); m.setupNeighbors(); }

struct MeshExpect {
	bool edges;         // setupNeighbors has completed
	int order;          // 0: prepareMesh not run
	double tol;         // coordinates
	bool boundary;      // setupBoundaries (or a generator) has marked the boundary
	bool rotated;       // element corner order may differ by rotation only (not used)
	MeshExpect() : edges(true), order(0), tol(0), boundary(false), rotated(false) {}
};
inline bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

inline void check_mesh(const Mesh2& m, const Tri& g, const MeshExpect& x, const char* w) {
	auto sd = g.sides();
	size_t nv = g.p.size(), extra = x.order == 2 ? sd.size() : 0;
	auto& V = m.vertices(); auto& E = m.elements(); auto& G = m.edges();
	SIM_CHECK(V.size() == nv + extra, "vertex-count", "%s: %zu vertices, expected %zu", w, V.size(), nv + extra);
	SIM_CHECK(E.size() == g.t.size(), "element-count", "%s: %zu elements, expected %zu", w, E.size(), g.t.size());
	std::map<const MV*, size_t> vi; std::map<const ME*, size_t> ei;
	for (size_t i = 0; i < V.size(); ++i) {
		SIM_CHECK(V[i] && m.vertex(i) == V[i], "vertex", "%s: vertex %zu missing", w, i);
		SIM_CHECK(V[i]->GlobalIndex == i, "index", "%s: vertex %zu has index %zu", w, i, V[i]->GlobalIndex);
		SIM_CHECK(vi.insert(std::make_pair(V[i], i)).second, "vertex", "%s: vertex %zu appears twice", w, i);
		if (i < nv) for (int k = 0; k < 2; ++k) SIM_CHECK(near(V[i]->Vertex.at(k), g.p[i][k], x.tol), "coordinates", "%s: vertex %zu coordinate %d is %s, expected %s", w, i, k, str(V[i]->Vertex.at(k)), str(g.p[i][k]));
	}
	for (size_t i = 0; i < E.size(); ++i) {
		SIM_CHECK(E[i] && m.element(i) == E[i], "element", "%s: element %zu missing", w, i);
		SIM_CHECK(ei.insert(std::make_pair(E[i], i)).second, "element", "%s: element %zu appears twice", w, i);
		for (int k = 0; k < 3; ++k) {
			auto it = vi.find(E[i]->Vertices[k]);
			SIM_CHECK(it != vi.end(), "element-vertex", "%s: element %zu corner %d is not a vertex of the mesh", w, i, k);
			SIM_CHECK(it->second == g.t[i][k], "element-vertex", "%s: element %zu corner %d is vertex %zu, expected %zu", w, i, k, it->second, g.t[i][k]);
			for (int c = 0; c < 2; ++c) SIM_CHECK(E[i]->Element[k].at(c) == E[i]->Vertices[k]->Vertex.at(c), "element-geometry", "%s: element %zu corner %d has other coordinates than its vertex", w, i, k);
		}
	}
	// vertex -> elements
	std::vector<std::vector<size_t> > star(V.size());
	for (size_t e = 0; e < g.t.size(); ++e) for (auto v : g.t[e]) star[v].push_back(e);
	std::map<Side, size_t> mid; // side -> node index
	if (x.order == 2) for (size_t e = 0; e < E.size(); ++e) {
		SIM_CHECK(E[e]->DOFVertices.size() == 6, "dof-list", "%s: element %zu has %zu nodes, expected 6", w, e, E[e]->DOFVertices.size());
		static const int A[3] = { 0, 1, 2 }, B[3] = { 1, 2, 0 };
		for (int k = 0; k < 3; ++k) {
			Side s = side(g.t[e][A[k]], g.t[e][B[k]]);
			auto it = vi.find(E[e]->DOFVertices[3 + k]);
			SIM_CHECK(it != vi.end() && it->second >= nv, "dof-list", "%s: element %zu node %d is not a mid-side node of the mesh", w, e, 3 + k);
			auto ins = mid.insert(std::make_pair(s, it->second));
			SIM_CHECK(ins.first->second == it->second, "dof-list", "%s: the side %zu-%zu has two different mid-side nodes", w, s.first, s.second);
			star[it->second].push_back(e);
			for (int c = 0; c < 2; ++c) SIM_CHECK(near(V[it->second]->Vertex.at(c), (V[s.first]->Vertex.at(c) + V[s.second]->Vertex.at(c)) / 2, 1e-12), "dof-coordinates", "%s: mid-side node of %zu-%zu is not in the middle", w, s.first, s.second);
			SIM_CHECK(V[it->second]->Flags & NS::MVF_Implicit, "dof-flags", "%s: mid-side node is not marked implicit", w);
			if (x.boundary || x.edges) SIM_CHECK(!!(V[it->second]->Flags & NS::MVF_StrongBoundary) == (sd[s].size() == 1), "dof-flags", "%s: mid-side node of %zu-%zu has the wrong boundary mark", w, s.first, s.second);
		}
	}
	if (x.order >= 1) for (size_t e = 0; e < E.size(); ++e) {
		SIM_CHECK(E[e]->DOFVertices.size() == (x.order == 2 ? 6u : 3u), "dof-list", "%s: element %zu has %zu nodes", w, e, E[e]->DOFVertices.size());
		for (int k = 0; k < 3; ++k) SIM_CHECK(E[e]->DOFVertices[k] == E[e]->Vertices[k], "dof-list", "%s: element %zu node %d is not its corner", w, e, k);
	}
	if (x.order == 0) for (size_t e = 0; e < E.size(); ++e) SIM_CHECK(E[e]->DOFVertices.empty(), "dof-list", "%s: element %zu already has nodes", w, e);
	for (size_t i = 0; i < V.size(); ++i) {
		std::vector<size_t> got;
		for (auto e : V[i]->Elements) { auto it = ei.find(e); SIM_CHECK(it != ei.end(), "vertex-elements", "%s: vertex %zu refers to an element that is not in the mesh", w, i); got.push_back(it->second); }
		std::sort(got.begin(), got.end()); std::sort(star[i].begin(), star[i].end());
		SIM_CHECK(got == star[i], "vertex-elements", "%s: vertex %zu lists %zu elements, expected %zu (or others)", w, i, got.size(), star[i].size());
	}
	if (x.edges) {
		SIM_CHECK(G.size() == sd.size(), "edge-count", "%s: %zu edges, expected one per distinct side = %zu", w, G.size(), sd.size());
		std::set<Side> seen; std::map<const MG*, Side> gi;
		for (size_t i = 0; i < G.size(); ++i) {
			MG* e = G[i];
			SIM_CHECK(e && m.edge(i) == e, "edge", "%s: edge %zu missing", w, i);
			auto a = vi.find(e->Vertices[0]), b = vi.find(e->Vertices[1]);
			SIM_CHECK(a != vi.end() && b != vi.end(), "edge", "%s: edge %zu ends outside the mesh", w, i);
			Side s = side(a->second, b->second);
			SIM_CHECK(sd.count(s) && seen.insert(s).second, "edge", "%s: edge %zu (%zu-%zu) is not a side or is there twice", w, i, s.first, s.second);
			gi[e] = s;
			std::vector<size_t> own, want = sd[s];
			for (int k = 0; k < 2; ++k) if (e->Elements[k]) { auto it = ei.find(e->Elements[k]); SIM_CHECK(it != ei.end(), "edge-elements", "%s: edge %zu-%zu refers to an element outside the mesh", w, s.first, s.second); own.push_back(it->second); }
			std::sort(own.begin(), own.end());
			SIM_CHECK(own == want, "edge-elements", "%s: edge %zu-%zu has %zu elements, expected %zu (or others)", w, s.first, s.second, own.size(), want.size());
			if (x.order >= 1) {
				size_t n = x.order == 2 ? 3 : 2;
				SIM_CHECK(e->DOFVertices.size() == n, "edge-dof", "%s: edge %zu-%zu has %zu nodes, expected %zu", w, s.first, s.second, e->DOFVertices.size(), n);
				SIM_CHECK(side(vi[e->DOFVertices[0]], vi[e->DOFVertices[1]]) == s, "edge-dof", "%s: edge %zu-%zu lists other nodes than its ends", w, s.first, s.second);
				if (n == 3) SIM_CHECK(vi[e->DOFVertices[2]] == mid[s], "edge-dof", "%s: edge %zu-%zu has another mid-side node than its elements", w, s.first, s.second);
			}
		}
		for (size_t e = 0; e < E.size(); ++e) for (int k = 0; k < 3; ++k) {
			auto it = gi.find(E[e]->Neighbors[k]);
			SIM_CHECK(it != gi.end(), "neighbor", "%s: element %zu side %d has no edge of the mesh", w, e, k);
			SIM_CHECK(it->second == side(g.t[e][(k + 1) % 3], g.t[e][(k + 2) % 3]), "neighbor", "%s: element %zu side %d is linked to edge %zu-%zu", w, e, k, it->second.first, it->second.second);
		}
	}
	if (x.boundary) {
		std::set<size_t> bd;
		for (auto& s : sd) if (s.second.size() == 1) { bd.insert(s.first.first); bd.insert(s.first.second); }
		for (size_t i = 0; i < nv; ++i) SIM_CHECK(!!(V[i]->Flags & NS::MVF_StrongBoundary) == !!bd.count(i), "boundary", "%s: vertex %zu %s marked as boundary", w, i, bd.count(i) ? "is not" : "is");
	}
}
} // namespace h
