// C20: validation accepts exactly the meshes whose structure is sound, through any history of damage and repair.
#include "meshgen.h"
#include "meshfile.h"
using namespace h;

// One injected fault in the mesh's memory, with the way back.
struct Damage { std::string what; int group; std::function<void()> undo; };

struct World {
	Mesh2* m; Mesh2* other; Tri g; bool edges, nodes; std::vector<Damage> done;
	World() : m(nullptr), other(nullptr), edges(false), nodes(false) { done.reserve(16); }
	~World() { sim::Lib l; delete other; delete m; }
	Mesh2& handle() { return other && chance(1, 2) ? *other : *m; }

	void build_mesh() {
		int src = (int)draw(4); if (chance(1, 6000)) src = 4;
		sim::Lib l;
		if (src == 0) {
			size_t nx = 1 + draw(4), ny = 1 + draw(4);
			NS::FixedVector<NS::Dimension, 2> e; e[0] = nx; e[1] = ny; NS::FixedVector<double, 2> s, f; s[0] = s[1] = pick({ 1.0, 0.25, 50.0 }); f[0] = f[1] = pick({ 0.0, -3.0 });
			m = new Mesh2(NS::HyperCube<double, 2>::generate(e, s, f)); g = grid_tri(nx, ny, s[0], s[1], f[0], f[1]);
		} else if (src == 1) {
			MeshFile f; f.make(4);
			f.put("v.a", "v.b"); m = new Mesh2(load_file(f, "v.a", "v.b")); g = f.g;
		} else {
			if (src == 4) { g = band_tri(65540 + draw(20)); sim::set_step_budget(4000000000ull); }
			else g = random_tri(chance(1, 20) ? 12 : 4, false, pick({ 1.0, 0.02, 100.0 }));
			m = new Mesh2(); h::build_vertices(*m, g); h::build_elements(*m, g);
			if (chance(1, 3)) { // not linked yet
				m->prepare(); done.push_back(Damage{ "sides never linked", 9, nullptr }); { check("before linking"); } done.pop_back(); sim::fired("never-linked");
			}
			m->setupNeighbors();
		}
		edges = true;
		std::vector<int> use(g.p.size()); for (auto& t : g.t) for (auto v : t) use[v] = 1;
		for (auto u : use) if (!u && done.empty()) done.push_back(Damage{ "an isolated vertex in the file", 7, nullptr });
		if (chance(1, 2)) m->setupBoundaries();
		if (chance(1, 2)) { if (chance(1, 2)) NS::PolyShapePolicy<double, 2, 1>::prepareMesh(*m); else NS::PolyShapePolicy<double, 2, 2>::prepareMesh(*m); nodes = true; }
		m->prepare();
		if (chance(1, 3)) other = new Mesh2(*m);
	}
	void check(const char* w) {
		Mesh2& q = handle();
		Outcome o = attempt([&]() { q.validate(); });
		bool sound = done.empty();
		if (sound) SIM_CHECK(o.ok(), "rejected-sound", "%s: a sound mesh of %zu triangles is rejected with %s", w, g.t.size(), o.type.c_str());
		else SIM_CHECK(o.kind == NSX, "accepted-damage", "%s: validation of a mesh with %s ends with %s", w, done.back().what.c_str(), o.ok() ? "acceptance" : o.type.c_str());
		sim::state(sim::mix(g.hash(), done.size() * 2 + sound));
	}
	void damage() {
		auto& V = m->vertices(); auto& E = m->elements();
		size_t vi = draw(V.size()), ei = draw(E.size()); int c = (int)draw(3);
		MV* v = V[vi]; ME* e = E[ei];
		char b[160]; std::function<void()> undo;
		// two damages of one group could cancel out
		static const int group[] = { 0, 0, 1, 2, 3, 3, 4, 5, 5, 6, 7, 5, 0, 8 };
		static const char* name[] = { "wrong-number", "exchanged-numbers", "vertex-cut-off", "foreign-triangle", "replaced-corner", "missing-corner", "missing-link", "moved-vertex", "displaced-corner", "collapsed-triangle", "isolated-vertex", "exchanged-corners", "exchanged-places", "replaced-vertex" };
		int kind = (int)draw(14);
		for (auto& d : done) if (d.group == group[kind]) return;
		switch (kind) {
		case 0: { NS::Index old = v->GlobalIndex; v->GlobalIndex = chance(1, 2) ? old + 1 : old + 1 + draw(1000); if (chance(1, 4) && vi) v->GlobalIndex = vi - 1; snprintf(b, sizeof b, "vertex %zu numbered %zu", vi, (size_t)v->GlobalIndex); undo = [=]() { v->GlobalIndex = old; }; break; }
		case 1: { if (V.size() < 2) return; size_t wi = draw(V.size()); if (wi == vi) return; MV* w = V[wi]; std::swap(v->GlobalIndex, w->GlobalIndex); snprintf(b, sizeof b, "the numbers of vertices %zu and %zu exchanged", vi, wi); undo = [=]() { std::swap(v->GlobalIndex, w->GlobalIndex); }; break; }
		case 2: { auto* keep = new std::vector<ME*>; keep->swap(v->Elements); snprintf(b, sizeof b, "vertex %zu cut off from its triangles", vi); undo = [=]() { keep->swap(v->Elements); delete keep; }; break; }
		case 3: { // a vertex lists a triangle that does not contain it
			bool has = false; for (auto q : e->Vertices) has |= q == v; for (auto q : e->DOFVertices) has |= q == v; if (has) return;
			size_t at = draw(v->Elements.size() + 1); ME* x = e; { sim::Lib l; v->Elements.insert(v->Elements.begin() + (long)at, x); }
			snprintf(b, sizeof b, "vertex %zu listing the foreign triangle %zu", vi, ei); undo = [=]() { v->Elements.erase(v->Elements.begin() + (long)at); }; break; }
		case 4: { // a triangle forgets one of its corners (or nodes, once placed)
			if (nodes) { size_t k = draw(e->DOFVertices.size()); MV* old = e->DOFVertices[k]; MV* rep = e->DOFVertices[(k + 1) % e->DOFVertices.size()]; e->DOFVertices[k] = rep; snprintf(b, sizeof b, "node %zu of triangle %zu replaced", k, ei); undo = [=]() { e->DOFVertices[k] = old; }; }
			else { MV* old = e->Vertices[c]; e->Vertices[c] = e->Vertices[(c + 1) % 3]; snprintf(b, sizeof b, "corner %d of triangle %zu replaced", c, ei); undo = [=]() { e->Vertices[c] = old; }; }
			break; }
		case 5: { MV* old = e->Vertices[c]; e->Vertices[c] = nullptr; snprintf(b, sizeof b, "corner %d of triangle %zu missing", c, ei); undo = [=]() { e->Vertices[c] = old; }; break; }
		case 6: { MG* old = e->Neighbors[c]; e->Neighbors[c] = nullptr; snprintf(b, sizeof b, "side %d of triangle %zu not linked", c, ei); undo = [=]() { e->Neighbors[c] = old; }; break; }
		case 7: { // the vertex moved, the triangle did not follow
			int k = (int)draw(2); MV* q = e->Vertices[c]; if (!q) return; double old = q->Vertex.at(k), d = pick({ 1.0, -1.0, 1e-3, 1e-5, 1e4 }); q->Vertex.set(k, old + d); snprintf(b, sizeof b, "a vertex of triangle %zu moved by %g", ei, d); undo = [=]() { q->Vertex.set(k, old); }; break; }
		case 8: { int k = (int)draw(2); double old = e->Element[c].at(k), d = pick({ 1.0, -1.0, 1e-3, 1e-5, 1e4 }); e->Element[c].set(k, old + d); snprintf(b, sizeof b, "corner %d of triangle %zu displaced by %g", c, ei, d); undo = [=]() { e->Element[c].set(k, old); }; break; }
		case 11: { // two corners changed places (the centre and the area stay what they are)
			auto* s = &e->Element; int d = (c + 1 + (int)draw(2)) % 3; bool prep = chance(1, 2);
			auto turn = [=]() { auto x = (*s)[c]; (*s)[c] = (*s)[d]; (*s)[d] = x; if (prep) s->prepare(); };
			{ sim::Lib l; turn(); }
			snprintf(b, sizeof b, "corners %d and %d of triangle %zu exchanged", c, d, ei); undo = [=]() { sim::Lib l; turn(); }; break; }
		case 9: { // collapsed onto a line, consistently, and prepared again
			if (!done.empty()) return;
			// onto or from the first corner, so that the area is exactly zero
			MV* q = e->Vertices[c]; NS::FixedVector<double, 2> old = q->Vertex, to = e->Vertices[c ? 0 : 1 + (int)draw(2)]->Vertex;
			auto place = [=](const NS::FixedVector<double, 2>& p) { q->Vertex = p; for (auto t : q->Elements) for (int i = 0; i < 3; ++i) if (t->Vertices[i] == q) t->Element[i] = p; for (auto t : q->Elements) t->Element.prepare(); };
			{ sim::Lib l; place(to); }
			snprintf(b, sizeof b, "triangle %zu collapsed to a line", ei); undo = [=]() { sim::Lib l; place(old); }; break; }
		case 12: { // two vertices change places in the list, their numbers do not follow
			size_t wi = draw(V.size()); if (wi == vi) return; MV* w = V[wi]; Mesh2* p = &handle();
			p->setVertex(vi, w); p->setVertex(wi, v);
			snprintf(b, sizeof b, "the places of vertices %zu and %zu exchanged", vi, wi); undo = [=]() { p->setVertex(vi, v); p->setVertex(wi, w); }; break; }
		case 13: { // a copy takes a vertex' place; the triangles keep the original
			Mesh2* p = &handle(); MV* n = nullptr; bool bare = chance(1, 2);
			{ sim::Lib l; std::unique_ptr<MV> c(new MV(v->Vertex)); c->GlobalIndex = v->GlobalIndex; if (!bare) c->Elements = v->Elements; n = c.release(); }
			p->setVertex(vi, n);
			snprintf(b, sizeof b, "vertex %zu replaced by a copy", vi); undo = [=]() { p->setVertex(vi, v); sim::Lib l; delete n; }; break; }
		default: { // an extra vertex no triangle uses
			// cannot be taken back
			NS::FixedVector<double, 2> p; p[0] = 7; p[1] = 9; { sim::Lib l; std::unique_ptr<MV> n(new MV(p)); m->addVertex(n.get()); n.release(); }
			snprintf(b, sizeof b, "an isolated vertex"); undo = nullptr; break; }
		}
		note("damage: %s", b); sim::fired(name[kind]);
		done.push_back(Damage{ b, group[kind], undo });
	}
	// changes that leave the mesh sound: list order with the numbers following it
	void reorder() {
		auto& V = m->vertices(); auto& E = m->elements(); Mesh2& p = handle();
		if (chance(1, 2)) { size_t a = draw(E.size()), b = draw(E.size()); ME* x = E[a]; ME* y = E[b]; p.setElement(a, y); p.setElement(b, x); SIM_CHECK(m->element(a) == y && m->element(b) == x && E[a] == y && E[b] == x, "set-element", "elements %zu and %zu exchanged: the mesh lists others", a, b); note("elements %zu and %zu exchanged", a, b); }
		else { size_t a = draw(V.size()), b = draw(V.size()); MV* x = V[a]; MV* y = V[b]; p.setVertex(a, y); y->GlobalIndex = a; p.setVertex(b, x); x->GlobalIndex = b; SIM_CHECK(m->vertex(a) == y && m->vertex(b) == x && V[a] == y && V[b] == x, "set-vertex", "vertices %zu and %zu exchanged: the mesh lists others", a, b); note("vertices %zu and %zu exchanged and renumbered", a, b); }
	}
	void repair() {
		if (done.empty() || !done.back().undo) return;
		note("repair: %s", done.back().what.c_str()); done.back().undo(); done.pop_back();
	}
	void run() {
		build_mesh(); note("mesh of %zu triangles, %zu vertices%s%s", g.t.size(), m->vertices().size(), nodes ? ", nodes placed" : "", other ? ", two handles" : "");
		check("as built");
		sim::plan_steps(1, 12);
		while (sim::next_step()) {
			if (done.size() < 3 && chance(2, 3)) { damage(); if (done.size()) sim::nontrivial(); check("after the damage"); }
			else { repair(); check("after the repair"); }
			if (done.empty() && chance(1, 4)) { reorder(); check("after reordering"); }
			if (done.empty() && chance(1, 6)) { attempt([&]() { m->prepare(); }); check("prepared again"); }
		}
		// whatever was left, the mesh can be emptied and reused
		while (!done.empty()) { if (done.back().undo) done.back().undo(); done.pop_back(); }
		Outcome o = attempt([&]() { m->clear(); m->validate(); });
		SIM_CHECK(o.ok(), "rejected-sound", "an emptied mesh is rejected with %s", o.type.c_str());
	}
};
static void run() { World w; w.run(); }
int main(int argc, char** argv) {
	sim::Check c = { "C20", run, 30000, 600,
		"one evaluation = one mesh (grid, loaded, or random) put through up to 12 injected damages and repairs, validated after each through one of its handles; distinct = different event log; non-trivial = at least one damage was in place when validation ran",
		"Mesh::validate, Mesh::prepare, Simplex, HyperCube, loaders, PolyShapePolicy::prepareMesh", "heap allocator (operator new/delete) and file system simulated",
		"damages are those the validation promises to find (numbering, isolation, vertex-triangle and node relations, missing corners or links, displaced corners, zero volume)" };
	return sim::runner_main(argc, argv, c);
}
