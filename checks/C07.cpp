// C07: building a mesh either completes with a correct topology or fails cleanly.
#include "meshgen.h"
using namespace h;

struct World {
	Mesh2* m; int faults; bool had;
	World() : m(nullptr), had(false) { faults = chance(3, 4) ? (int)range(5, 50) : 0; }
	~World() { sim::Lib l; delete m; }
	uint64_t k() { return faults ? draw_fault(faults) : 0; }

	// whatever happened, everything reachable belongs to the mesh
	void inspect(const char* w) {
		auto& V = m->vertices(); auto& E = m->elements(); auto& G = m->edges();
		std::set<const MV*> vs(V.begin(), V.end()); std::set<const ME*> es(E.begin(), E.end()); std::set<const MG*> gs(G.begin(), G.end());
		SIM_CHECK(vs.size() == V.size() && es.size() == E.size() && gs.size() == G.size(), "duplicate", "%s: an object appears twice in the mesh", w);
		for (size_t i = 0; i < V.size(); ++i) { SIM_CHECK(V[i] && V[i]->GlobalIndex == i && m->vertex(i) == V[i], "index", "%s: vertex %zu has a wrong index", w, i);
			std::set<const ME*> own; for (auto e : V[i]->Elements) { SIM_CHECK(es.count(e), "dangling", "%s: vertex %zu refers to a triangle that is not in the mesh", w, i); SIM_CHECK(own.insert(e).second, "duplicate", "%s: vertex %zu lists a triangle twice", w, i); } }
		for (size_t i = 0; i < E.size(); ++i) {
			for (int c = 0; c < 3; ++c) { SIM_CHECK(E[i]->Vertices[c] && vs.count(E[i]->Vertices[c]), "dangling", "%s: triangle %zu refers to a foreign vertex", w, i); SIM_CHECK(!E[i]->Neighbors[c] || gs.count(E[i]->Neighbors[c]), "dangling", "%s: triangle %zu refers to a foreign edge", w, i); }
			for (auto v : E[i]->DOFVertices) SIM_CHECK(v && vs.count(v), "dangling", "%s: triangle %zu has a foreign node", w, i);
		}
		std::set<Side> sides;
		for (size_t i = 0; i < G.size(); ++i) {
			for (int c = 0; c < 2; ++c) { SIM_CHECK(G[i] && G[i]->Vertices[c] && vs.count(G[i]->Vertices[c]), "dangling", "%s: edge %zu refers to a foreign vertex", w, i); SIM_CHECK(!G[i]->Elements[c] || es.count(G[i]->Elements[c]), "dangling", "%s: edge %zu refers to a foreign triangle", w, i); }
			SIM_CHECK(sides.insert(side(G[i]->Vertices[0]->GlobalIndex, G[i]->Vertices[1]->GlobalIndex)).second, "duplicate", "%s: two edges for one side", w);
			for (auto v : G[i]->DOFVertices) SIM_CHECK(v && vs.count(v), "dangling", "%s: edge %zu has a foreign node", w, i);
		}
	}
	// true when done; false when it failed for want of memory
	template <class F> bool call(const char* name, F f, uint64_t kk) {
		Outcome o = attempt(f, kk);
		if (!o.ok()) { note("%s: %s%s", name, o.type.c_str(), o.fault ? " (allocation failed)" : ""); SIM_CHECK(o.kind == OOM && o.fault, "unexpected-exception", "%s threw %s", name, o.type.c_str()); sim::probe(name); inspect(name); }
		return o.ok();
	}
	void clear() {
		Outcome o = attempt([&]() { m->clear(); });
		SIM_CHECK(o.ok(), "unexpected-exception", "clear() threw");
		SIM_CHECK(m->vertices().empty() && m->elements().empty() && m->edges().empty(), "clear", "the mesh is not empty after clear()");
		note("clear");
	}
	bool validate(const char* w, bool expect) {
		Outcome o = attempt([&]() { m->validate(); });
		if (expect) SIM_CHECK(o.ok(), "validation", "%s: the mesh fails its own validation with %s", w, o.type.c_str());
		else SIM_CHECK(o.kind == NSX, "validation", "%s: validation accepts a mesh with an isolated vertex (%s)", w, kind_name(o.kind));
		return o.ok();
	}
	// boundaries, nodes, validation on a mesh whose edges are complete
	void finish(const Tri& g, MeshExpect x, bool isolated) {
		check_mesh(*m, g, x, "linked");
		if (chance(1, 4)) { if (!call("setupNeighbors again", [&]() { m->setupNeighbors(); }, k())) return; check_mesh(*m, g, x, "linked again"); }
		if (chance(1, 2)) { if (!call("setupBoundaries", [&]() { m->setupBoundaries(); }, k())) return; x.boundary = true; check_mesh(*m, g, x, "boundaries marked"); }
		bool prep = chance(1, 2);
		if (prep) { call("prepare", [&]() { m->prepare(); }, 0); validate("linked", !isolated); }
		int order = (int)draw(3);
		if (order) {
			bool ok = call(order == 1 ? "prepareMesh<1>" : "prepareMesh<2>", [&]() { if (order == 1) NS::PolyShapePolicy<double, 2, 1>::prepareMesh(*m); else NS::PolyShapePolicy<double, 2, 2>::prepareMesh(*m); }, k());
			if (!ok) { attempt([&]() { m->prepare(); m->validate(); }); inspect("failed node placement"); return; }
			x.order = order; check_mesh(*m, g, x, "nodes placed");
			call("prepare", [&]() { m->prepare(); }, 0);
			validate("nodes placed", !isolated);
		}
		sim::probe("completed mesh"); sim::state(sim::mix(g.hash(), (uint64_t)(order * 2 + x.boundary)));
	}
	void grid() {
		size_t lim = chance(1, 500) ? 40 : 6, nx = 1 + draw(lim), ny = 1 + draw(lim); double sx = pick({ 1.0, 2.0, 0.5, 3.0, 1000.0 }), sy = pick({ 1.0, 0.25, 7.0 }), ox = pick({ 0.0, -1.0, 5.5 }), oy = pick({ 0.0, 2.0, -3.25 });
		Tri g = grid_tri(nx, ny, sx, sy, ox, oy);
		uint64_t kk = k(); Mesh2* n = nullptr;
		Outcome o = attempt([&]() { NS::FixedVector<NS::Dimension, 2> e; e[0] = nx; e[1] = ny; NS::FixedVector<double, 2> s, f; s[0] = sx; s[1] = sy; f[0] = ox; f[1] = oy; n = new Mesh2(NS::HyperCube<double, 2>::generate(e, s, f)); }, kk);
		note("grid %zux%zu: %s", nx, ny, kind_name(o.kind));
		if (!o.ok()) { SIM_CHECK(o.kind == OOM && o.fault, "unexpected-exception", "generate threw %s", o.type.c_str()); sim::probe("generate"); return; }
		{ sim::Lib l; delete m; } m = n;
		MeshExpect x; x.tol = 1e-12; x.boundary = true;
		finish(g, x, false);
	}
	void bad_grid() {
		size_t nx = draw(2), ny = nx ? 0 : draw(2);
		Outcome o = attempt([&]() { NS::FixedVector<NS::Dimension, 2> e; e[0] = nx; e[1] = ny; NS::FixedVector<double, 2> s, f; s[0] = s[1] = 1; NS::HyperCube<double, 2>::generate(e, s, f); }, k());
		note("grid %zux%zu: %s", nx, ny, kind_name(o.kind));
		SIM_CHECK(o.kind == NSX || (o.kind == OOM && o.fault), "missing-exception", "a grid of %zux%zu was generated", nx, ny);
	}
	bool add_vertex(const Tri& g, size_t i) {
		return call("addVertex", [&]() { NS::FixedVector<double, 2> q; q[0] = g.p[i][0]; q[1] = g.p[i][1]; std::unique_ptr<MV> v(new MV(q)); m->addVertex(v.get()); v.release(); }, k());
	}
	bool add_element(const Tri& g, size_t i) {
		return call("addElement", [&]() { std::unique_ptr<ME> e(new ME()); for (int c = 0; c < 3; ++c) e->Vertices[c] = m->vertex(g.t[i][c]); m->addElement(e.get()); e.release(); }, k());
	}
	void manual() {
		bool iso = chance(1, 8);
		Tri g = random_tri(chance(1, 500) ? 30 : chance(1, 6) ? 6 : 3, iso, pick({ 1.0, 0.01, 100.0 }));
		bool manifold = true;
		if (chance(1, 8)) { // a third triangle on a side shared by two
			auto sd = g.sides(); std::vector<Side> inner; for (auto& s : sd) if (s.second.size() == 2) inner.push_back(s.first);
			if (!inner.empty()) { Side s = inner[draw(inner.size())]; g.p.push_back(Pt{ { -7, -5 } }); g.t.insert(g.t.begin() + (long)draw(g.t.size() + 1), Tr{ { s.first, s.second, g.p.size() - 1 } }); manifold = false; }
		}
		bool isolated = false; { std::vector<int> use(g.p.size()); for (auto& t : g.t) for (auto v : t) use[v] = 1; for (auto u : use) isolated |= !u; }
		clear();
		if (chance(1, 2) && !call("reserveVertices", [&]() { m->reserveVertices(1 + draw(40)); }, k())) { /* continue without */ }
		if (chance(1, 2) && !call("reserveElements", [&]() { m->reserveElements(1 + draw(40)); }, k())) { }
		Tri done; size_t nv = 0, ne = 0; bool late = chance(1, 2); int tries = 0; MeshExpect part; part.edges = false;
		while (nv < g.p.size() || ne < g.t.size()) {
			bool can = ne < g.t.size() && g.t[ne][0] < nv && g.t[ne][1] < nv && g.t[ne][2] < nv;
			bool elem = can && (nv == g.p.size() || late);
			bool ok = elem ? add_element(g, ne) : add_vertex(g, nv);
			if (ok) { if (elem) done.t.push_back(g.t[ne++]); else done.p.push_back(g.p[nv++]); }
			else { check_mesh(*m, done, part, "after a failed addition"); if (++tries > 12) { clear(); return; } if (chance(1, 6)) { clear(); return; } }
		}
		check_mesh(*m, g, part, "before linking");
		if (!manifold) {
			Outcome o = attempt([&]() { m->setupNeighbors(); }, k());
			note("setupNeighbors of a side shared by three: %s", o.ok() ? "ok" : o.type.c_str());
			SIM_CHECK((o.kind == NSX && o.is("TooManySharedFaces")) || (o.kind == OOM && o.fault), "missing-exception", "a side shared by three triangles was accepted (%s)", kind_name(o.kind));
			inspect("refused linking"); return;
		}
		for (int t = 0; !call("setupNeighbors", [&]() { m->setupNeighbors(); }, t < 4 ? k() : 0); ++t) if (chance(1, 4)) return;
		finish(g, MeshExpect(), isolated);
	}
	void run() {
		{ sim::Lib l; m = new Mesh2(); }
		sim::plan_steps(1, 8);
		while (sim::next_step()) {
			switch (draw(8)) { case 0: case 1: case 2: grid(); break; case 3: bad_grid(); break; default: manual(); }
			inspect("end of session");
			sim::nontrivial();
		}
	}
};
static void run() { World w; w.run(); }
int main(int argc, char** argv) {
	sim::Check c = { "C07", run, 30000, 600,
		"one evaluation = up to 8 mesh-building sessions (grids, triangulations added in random order, non-manifold and isolated input) on one mesh object with allocation failures at every call; distinct = different event log; non-trivial = at least one session whose result was compared with the triangulation",
		"Mesh, HyperCube, PolyShapePolicy::prepareMesh, Simplex, Vector", "heap allocator (operator new/delete) simulated",
		"triangles are added before setupNeighbors; two-dimensional meshes (the only dimension the library compiles for)" };
	return sim::runner_main(argc, argv, c);
}
