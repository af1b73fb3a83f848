// C03: a mesh lives exactly as long as its last handle, across copies and threads.
#include "meshgen.h"
#include "sf/PolyShapeFunction.h"
using namespace h;

static uint64_t digest(const Mesh2& m) {
	uint64_t d = sim::mix(m.vertices().size() * 31 + m.elements().size(), m.edges().size());
	for (auto v : m.vertices()) { double c[2] = { v->Vertex.at(0), v->Vertex.at(1) }; uint64_t u[2]; memcpy(u, c, 16); d = sim::mix(sim::mix(d, u[0]), sim::mix(u[1], v->GlobalIndex * 8 + v->Flags)); }
	for (auto e : m.elements()) for (int k = 0; k < 3; ++k) d = sim::mix(d, e->Vertices[k]->GlobalIndex);
	for (auto e : m.edges()) d = sim::mix(d, e->Vertices[0]->GlobalIndex * 1000 + e->Vertices[1]->GlobalIndex + (e->Elements[1] ? 7 : 0));
	return d;
}
// stage 0: empty, 1: vertices, 2: and elements, 3: and neighbours (complete), 4: whatever a failed build left behind
struct Model { Tri g; MeshExpect x; int refs; uint64_t dig; int stage; std::vector<Tr> rest; };
struct Slot { Mesh2* m; int id; };      // m null: no handle; id -1: moved-from handle
static std::vector<Model>* M;
static std::vector<Slot>* H;

static void ref(int id) { if (id >= 0) (*M)[id].refs++; }
static void unref(int id) { if (id >= 0) (*M)[id].refs--; }
static void verify(const char* w) {
	for (auto& s : *H) if (s.m && s.id >= 0) { if ((*M)[s.id].stage < 4) check_mesh(*s.m, (*M)[s.id].g, (*M)[s.id].x, w); for (auto& t : *H) if (t.m && t.id == s.id) SIM_CHECK(&t.m->vertices() == &s.m->vertices() && &t.m->elements() == &s.m->elements() && &t.m->edges() == &s.m->edges(), "handles-differ", "%s: two handles of one mesh see different data", w); }
	bool any = false; for (auto& m : *M) any |= m.refs > 0;
	for (auto& s : *H) any |= s.m != nullptr;
	if (!any) { sim::probe("last handle gone"); sim::check_leaks("after the last handle is gone"); }
}
static Tri small_tri() { plain_meshes = false; return random_tri(chance(1, 4) ? 3 : 1, false, pick({ 1.0, 0.5 })); }
static void build_into(Mesh2& m, const Tri& g, int order, int from = 0, int to = 3) {
	if (from < 1) build_vertices(m, g);
	if (from < 2 && to >= 2) build_elements(m, g);
	if (to < 3) return;
	m.setupNeighbors();
	if (order == 1) NS::PolyShapePolicy<double, 2, 1>::prepareMesh(m);
	if (order == 2) NS::PolyShapePolicy<double, 2, 2>::prepareMesh(m);
	m.prepare();
}
static int fresh_model() { Model m; m.refs = 0; m.dig = 0; m.stage = 0; (*M).push_back(m); return (int)M->size() - 1; }
static size_t slot(int want) { // 0: empty, 1: any handle, 2: handle of a mesh
	std::vector<size_t> c;
	for (size_t i = 0; i < H->size(); ++i) { auto& s = (*H)[i]; if (want == 0 ? !s.m : want == 1 ? !!s.m : s.m && s.id >= 0) c.push_back(i); }
	return c.empty() ? H->size() : c[draw(c.size())];
}

static void sequential() {
	int n = 1 + (int)draw(8);
	while (n--) {
		size_t e = slot(0), a = slot(2), b = slot(1), none = H->size();
		uint64_t k = draw_fault(10);
		switch (draw(14)) {
		case 0: case 1: { // new mesh
			if (e == none) break;
			Mesh2* m = nullptr; Outcome o = attempt([&]() { m = new Mesh2(); }, k);
			SIM_CHECK(o.ok() || (o.kind == OOM && o.fault), "unexpected-exception", "constructing a mesh: %s", kind_name(o.kind));
			if (!o.ok()) { verify("failed construction"); break; }
			(*H)[e].m = m; (*H)[e].id = fresh_model(); ref((*H)[e].id); note("h%zu = new mesh %d", e, (*H)[e].id);
		} break;
		case 2: case 3: { // fill an empty mesh
			if (a == none || (*M)[(*H)[a].id].stage > 2) break;
			Model& q = (*M)[(*H)[a].id]; Tri g = q.stage ? q.g : small_tri(); if (q.stage == 1) g.t = q.rest; int order = (int)draw(3);
			int to = chance(1, 3) ? std::min(3, q.stage + 1) : 3; if (to < 3) order = 0;
			Mesh2* m = (*H)[a].m; int from = q.stage;
			Outcome o = attempt([&]() { build_into(*m, g, order, from, to); }, k);
			note("fill mesh %d through h%zu: %zu vertices, stage %d to %d, order %d: %s", (*H)[a].id, a, g.p.size(), from, to, order, kind_name(o.kind));
			SIM_CHECK(o.ok() || (o.kind == OOM && o.fault), "unexpected-exception", "building a mesh: %s", o.type.c_str());
			if (o.ok()) { q.g = g; q.x = MeshExpect(); q.x.order = order; q.stage = to; if (to < 3) { q.x.edges = false; if (to < 2) q.g.t.clear(); sim::probe("partly built mesh"); } if (to < 2) q.rest = g.t; }
			else if (chance(1, 2)) { sim::Lib l; m->clear(); q.g = Tri(); q.x = MeshExpect(); q.stage = 0; }
			else { q.stage = 4; sim::probe("mesh left as a failed build left it"); }
		} break;
		case 4: { if (a == none || e == none) break;
			if (chance(1, 400)) { // a crowd of handles comes and goes
				size_t n = (size_t)pick({ 300, 33000, 70000 }); std::vector<Mesh2> crowd; crowd.reserve(n);
				{ sim::Lib l; while (crowd.size() < n) crowd.push_back(*(*H)[a].m); while (!crowd.empty()) crowd.pop_back(); }
				note("%zu copies of h%zu come and go", n, a); sim::probe("tens of thousands of handles");
			}
			{ sim::Lib l; (*H)[e].m = new Mesh2(*(*H)[a].m); } (*H)[e].id = (*H)[a].id; ref((*H)[e].id); note("h%zu = copy of h%zu", e, a); } break;
		case 5: { if (b == none || e == none) break; { sim::Lib l; (*H)[e].m = new Mesh2(std::move(*(*H)[b].m)); } (*H)[e].id = (*H)[b].id; (*H)[b].id = -1; note("h%zu = moved from h%zu", e, b); } break;
		case 6: case 7: { size_t c = slot(1); if (c == none || b == none) break; { sim::Lib l; *(*H)[c].m = *(*H)[b].m; } ref((*H)[b].id); unref((*H)[c].id); (*H)[c].id = (*H)[b].id; note("h%zu := h%zu", c, b); if (b == c) sim::probe("self assignment"); } break;
		case 8: { size_t c = slot(1); if (c == none || b == none) break; { sim::Lib l; *(*H)[c].m = std::move(*(*H)[b].m); } if (c != b) { unref((*H)[c].id); (*H)[c].id = (*H)[b].id; (*H)[b].id = -1; } note("h%zu := move h%zu", c, b); } break;
		case 9: { size_t c = slot(1); if (c == none || b == none) break; { sim::Lib l; std::swap(*(*H)[c].m, *(*H)[b].m); } std::swap((*H)[c].id, (*H)[b].id); note("swap h%zu h%zu", c, b); } break;
		case 10: case 11: { if (b == none) break; { sim::Lib l; delete (*H)[b].m; } unref((*H)[b].id); (*H)[b].m = nullptr; note("destroy h%zu (mesh %d)", b, (*H)[b].id); } break;
		case 12: { if (a == none) break; uint64_t before = sim::live_lib_blocks(); bool had = (*M)[(*H)[a].id].stage > 0 && (*M)[(*H)[a].id].stage < 4; (*M)[(*H)[a].id].stage = 0; { sim::Lib l; (*H)[a].m->clear(); } (*M)[(*H)[a].id].g = Tri(); (*M)[(*H)[a].id].x = MeshExpect(); note("clear through h%zu", a); SIM_CHECK(!had || sim::live_lib_blocks() < before, "leak", "clear released nothing"); } break;
		default: { // a container of handles that grows, is copied and shrinks
			if (a == none) break;
			{ sim::Lib l; std::vector<Mesh2> v; for (int i = 0; i < 5; ++i) v.push_back(*(*H)[a].m); std::vector<Mesh2> w(v); v.erase(v.begin() + 1); w.insert(w.begin(), v.back()); v.clear(); SIM_CHECK(&w[0].vertices() == &(*H)[a].m->vertices(), "handles-differ", "a copy in a container sees other data"); Mesh2 r = [&]() { Mesh2 t(w[2]); return t; }(); *(*H)[a].m = r; }
			note("containers of copies of h%zu", a);
		}
		}
		verify("after handle operations");
		uint64_t st = 0; for (auto& s : *H) st = sim::mix(st, s.m ? (uint64_t)(s.id + 2) * 64 + (s.id >= 0 ? (*M)[s.id].g.p.size() * 5 + (*M)[s.id].stage : 0) : 0);
		sim::state(st);
	}
}

// ------------------------------------------------------------------ concurrent
struct Op { int op, a, b; };
struct Prog { std::vector<Op> ops; Slot s[3]; std::vector<Tri> own; std::vector<uint64_t> dig; Tri ownt; uint64_t owndig; };
enum { OWN = 1000 };
static uint64_t expected(const Prog& p, int id) { return id == OWN ? p.owndig : p.dig[(size_t)id]; }
static void body(void* v) {
	Prog& p = *(Prog*)v; Slot* s = p.s;
	sim::Lib l;
	for (auto& o : p.ops) {
		Slot &a = s[o.a], &b = s[o.b];
		switch (o.op) {
		case 0: case 1: if (a.m && a.id >= 0) { uint64_t d = digest(*a.m); if (d != expected(p, a.id)) fail("mesh-changed", "thread %d reads a mesh that differs from what was handed to it", sim::self_tid()); } break;
		case 2: case 3: if (a.m) { delete a.m; a.m = nullptr; } break;
		case 4: case 5: if (a.m && a.m != b.m) { Mesh2* n = new Mesh2(*a.m); delete b.m; b.m = n; b.id = a.id; } break;
		case 6: if (a.m && b.m) { *b.m = *a.m; b.id = a.id; } break;
		case 7: if (a.m && b.m) { *b.m = std::move(*a.m); if (a.m != b.m) { b.id = a.id; a.id = -1; } } break;
		case 8: if (a.m && b.m) { std::swap(*a.m, *b.m); std::swap(a.id, b.id); } break;
		case 9: { Mesh2* n = new Mesh2(); build(*n, p.ownt); delete a.m; a.m = n; a.id = OWN; } break;
		default: if (a.m && a.id >= 0) { Mesh2 x(*a.m), y; y = x; x = Mesh2(); if (digest(y) != expected(p, a.id)) fail("mesh-changed", "thread %d: a copy of a copy differs", sim::self_tid()); } break;
		}
	}
}
static void concurrent() {
	int n = 2 + (int)draw(chance(1, 3) ? 3 : 1);
	for (auto& m : *M) m.dig = 0;
	for (auto& s : *H) if (s.m && s.id >= 0) { (*M)[s.id].dig = digest(*s.m); }
	std::vector<Prog*> ps; std::vector<void*> args;
	bool own = chance(1, 4);
	for (int t = 0; t < n; ++t) {
		Prog* p = new Prog(); p->owndig = 0;
		for (auto& m : *M) p->dig.push_back(m.dig);
		p->ownt = small_tri();
		if (own) { sim::Lib l; Mesh2 x; build(x, p->ownt); p->owndig = digest(x); }
		for (auto& s : p->s) {
			s.m = nullptr; s.id = -1;
			size_t a = slot(2);
			if (a < H->size() && !chance(1, 4)) { sim::Lib l; s.m = new Mesh2(*(*H)[a].m); s.id = (*H)[a].id; ref(s.id); }
		}
		int k = 1 + (int)draw(8);
		while (k--) { Op o = { (int)draw(11), (int)draw(3), (int)draw(3) }; if (o.op == 9 && !own) o.op = 2; p->ops.push_back(o); }
		ps.push_back(p); args.push_back(p);
	}
	if (chance(2, 3)) for (auto& s : *H) if (s.m && chance(3, 4)) { { sim::Lib l; delete s.m; } unref(s.id); s.m = nullptr; } // the threads hold the last handles
	std::string pr; for (auto p : ps) { pr += " |"; for (auto& o : p->ops) { char b[24]; snprintf(b, sizeof b, " %d(%d,%d)", o.op, o.a, o.b); pr += b; } }
	note("%d threads:%s", n, pr.c_str());
	sim::run_threads(n, body, args.data());
	// what each thread still holds goes to the main thread
	for (auto p : ps) {
		for (auto& s : p->s) {
			if (s.m && s.id >= 0) SIM_CHECK(digest(*s.m) == expected(*p, s.id), "mesh-changed", "a mesh held by a finished thread differs from what was handed to it");
			{ sim::Lib l; delete s.m; }
		}
		delete p;
	}
	for (auto& m : *M) m.refs = 0;
	for (auto& s : *H) if (s.m && s.id >= 0) (*M)[s.id].refs++;
	sim::nontrivial();
	verify("after the threads");
}
static void run() {
	std::vector<Model> m; std::vector<Slot> hs(5, Slot{ nullptr, -1 }); M = &m; H = &hs;
	sim::plan_steps(1, 6);
	while (sim::next_step()) {
		if (chance(1, 2)) sequential();
		else {
			if (slot(2) == hs.size()) { // something to share
				for (size_t i = 0; i < 1 + draw(2); ++i) { size_t e = slot(0); if (e == hs.size()) break; Tri g = small_tri(); int order = (int)draw(2) * 2; { sim::Lib l; hs[e].m = new Mesh2(); build_into(*hs[e].m, g, order); } hs[e].id = fresh_model(); m[hs[e].id].g = g; m[hs[e].id].x.order = order; m[hs[e].id].stage = 3; ref(hs[e].id); }
			}
			concurrent();
		}
	}
	for (auto& s : hs) { sim::Lib l; delete s.m; s.m = nullptr; s.id = -1; }
	for (auto& q : m) q.refs = 0;
	verify("end");
}
int main(int argc, char** argv) {
	sim::Check c = { "C03", run, 80000, 900,
		"one evaluation = up to 6 phases over 5 mesh handles, each either a sequence of handle operations (construct, fill, copy, move, assign, swap, destroy, clear, containers; failing allocations) checked against a reference model after every operation, or 2-4 threads running drawn handle programs on handles that share meshes under a drawn schedule; distinct = different event log incl. the schedule; non-trivial = threads ran",
		"Mesh and its handles, edges, shape-function numbering, standard containers of handles", "heap (block accounting, use after release), thread scheduling (seeded), atomics sequentially consistent",
		"threads own the handles they use; what a failed build leaves behind is only required to be the same through every handle and to be released; weak-memory value effects are not simulated, missing orderings are reported as races instead" };
	return sim::runner_main(argc, argv, c);
}
