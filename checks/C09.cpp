// C09: a mesh file that cannot be read completely is reported.
#include "meshfile.h"
using namespace h;

// Everything but the last item (whose number may have lost its end) must be what was announced.
static void check_cut(const Mesh2& m, const MeshFile& f, bool cut_a, bool cut_b, const char* w) {
	auto& V = m.vertices(); auto& E = m.elements();
	size_t skip_v = V.size(), skip_e = E.size();
	if (!f.obj) {
		SIM_CHECK(V.size() == f.g.p.size() && E.size() == f.g.t.size(), "half-loaded", "%s: returned %zu vertices and %zu triangles of the announced %zu and %zu", w, V.size(), E.size(), f.g.p.size(), f.g.t.size());
		if (cut_a) skip_v = V.size() - 1;
		if (cut_b) skip_e = E.size() - 1;
	} else { // announces nothing: a prefix of the triangles
		SIM_CHECK(V.size() <= f.g.p.size() + 1 && E.size() <= f.g.t.size(), "half-loaded", "%s: returned more than the file has", w);
		skip_e = E.size() ? E.size() - 1 : 0;
		if (E.size() > 1 && f.g.t.size() > 1) for (int back = 0; back < 8 && skip_e; ++back) --skip_e; // the last face may be a polygon
	}
	for (size_t i = 0; i < V.size(); ++i) if (!f.obj && i != skip_v)
		for (int c = 0; c < 2; ++c) SIM_CHECK(near(V[i]->Vertex.at(c), f.g.p[i][c], f.tol), "half-loaded", "%s: vertex %zu differs from the file", w, i);
	for (size_t e = 0; e < skip_e; ++e)
		for (int c = 0; c < 3; ++c) SIM_CHECK(E[e]->Vertices[c]->GlobalIndex == f.g.t[e][c], "half-loaded", "%s: triangle %zu differs from the file", w, e);
	for (size_t e = 0; e < E.size(); ++e) for (int c = 0; c < 3; ++c) {
		auto v = E[e]->Vertices[c];
		SIM_CHECK(v && v->GlobalIndex < V.size() && V[v->GlobalIndex] == v, "half-loaded", "%s: triangle %zu refers to a vertex that is not in the mesh", w, e);
	}
}
// offset below which a truncation certainly removed needed data
static size_t needed(const std::string& s, bool obj, size_t items, int fields) {
	if (obj) return 0;
	// walk the lines the way a reader would and find where the last needed number starts
	size_t pos = 0, seen = 0, last = 0;
	while (pos < s.size() && seen <= items) {
		size_t e = s.find('\n', pos); if (e == std::string::npos) e = s.size();
		size_t i = pos; int n = 0; bool any = false;
		while (i < e && s[i] != '#') {
			while (i < e && isspace((unsigned char)s[i])) ++i;
			if (i >= e || s[i] == '#') break;
			++n; any = true; if (n <= fields) last = i + 1;
			while (i < e && !isspace((unsigned char)s[i]) && s[i] != '#') ++i;
		}
		if (any) ++seen;
		pos = e + 1;
	}
	return last;
}

// the text without its item-th line of data (the header is number 0)
static std::string without(const std::string& s, size_t item) {
	size_t pos = 0, seen = 0;
	while (pos < s.size()) {
		size_t e = s.find('\n', pos), i = pos; if (e == std::string::npos) e = s.size();
		while (i < e && isspace((unsigned char)s[i])) ++i;
		if (i < e && s[i] != '#' && seen++ == item) { std::string r = s; r.erase(pos, e + 1 - pos); return r; }
		pos = e + 1;
	}
	return s;
}

static void run() {
	MeshFile f; f.make(chance(1, 10) ? 10 : 3, 40);
	note("%s", f.describe().c_str());
	MeshExpect x; x.order = 0; x.tol = f.tol;
	bool big = false;
	if (chance(1, 6)) { // longer than one stream buffer
		std::string pad; while (pad.size() < 9000 + draw(9000)) pad += "# " + std::string(1 + draw(120), 'p') + "\n";
		f.a = pad + f.a; big = true;
	}
	size_t need_a = needed(f.a, f.obj, f.g.p.size(), 3), need_b = needed(f.b, f.obj, f.g.t.size(), 4);
	sim::plan_steps(1, 8);
	while (sim::next_step()) {
		f.put("m.a", "m.b");
		sim::IoPlan base, pa, pb; base.read_frag = (int)draw(3); base.eintr = pick({ 0, 0, 10 });
		pa = pb = base;
		bool second = !f.obj && draw(2), lost = false;
		sim::IoPlan& p = second ? pb : pa; const std::string& s = second ? f.b : f.a; size_t need = second ? need_b : need_a;
		uint64_t k = 0; bool sticky = false, must = false, cut = false, missing = false;
		const char* what = "nothing";
		switch (draw(f.obj ? 8 : 9)) {
		case 0: break;
		case 1: p.open_errno = pick({ 2, 13, 24, 5, 20 }); must = true; what = "open fails"; break;
		case 2: sim::fs_remove(second ? "m.b" : "m.a"); missing = must = true; what = "file missing"; break;
		case 3: k = draw_fault(100); sticky = chance(1, 4); what = "allocation fails"; break;
		case 4: case 5: p.eof_at = (int64_t)draw(s.size() + 1); cut = (size_t)p.eof_at < s.size(); must = (size_t)p.eof_at < need; what = "file cut short"; break;
		case 8: { // as after a lost write: one line of an announced item is not there
			std::string r = without(s, 1 + draw(second ? f.g.t.size() : f.g.p.size())); lost = must = r != s; what = "a line is gone";
			sim::fs_put(second ? "m.b" : "m.a", r.data(), r.size()); break; }
		default: p.read_err_at = (int64_t)draw(s.size() + 1); p.read_errno = pick({ 5, 116, 21 }); p.read_transient = chance(1, 3); must = !p.read_transient; what = "read error"; break;
		}
		sim::fs_clear_plans(); sim::fs_plan("m.a", pa); sim::fs_plan("m.b", pb);
		Mesh2* m = nullptr;
		Outcome o = load_into(m, [&]() { return load_file(f, "m.a", "m.b"); }, k, sticky);
		uint64_t hard = sim::fs_hard_faults();
		note("%s in %s (eof %lld, error %lld, alloc %llu): %s", what, second ? ".ele" : f.obj ? ".obj" : ".node", (long long)p.eof_at, (long long)p.read_err_at, (unsigned long long)k, kind_name(o.kind));
		if (o.ok()) {
			SIM_CHECK(!must || (p.read_err_at >= 0 && !hard), "silent-failure", "%s (%s at %lld of %zu) but a mesh was returned", what, second ? ".ele" : ".node/.obj", (long long)(p.read_err_at >= 0 ? p.read_err_at : p.eof_at), s.size());
			if (cut) check_cut(*m, f, !second, second, what);
			else check_mesh(*m, f.g, x, what);
		} else {
			SIM_CHECK(hard || o.fault || missing || cut || lost, "false-failure", "load threw %s although nothing failed", o.type.c_str());
			if (!o.fault) SIM_CHECK(o.kind == NSX || o.kind == STDX, "exception-type", "load threw %s", o.type.c_str());
		}
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the load", sim::fs_open_count());
		drop(m);
		// once the fault is gone the same call succeeds
		sim::fs_clear_plans(); f.put("m.a", "m.b");
		Outcome r = load_into(m, [&]() { return load_file(f, "m.a", "m.b"); });
		SIM_CHECK(r.ok(), "no-recovery", "loading again after the fault is gone threw %s", r.type.c_str());
		check_mesh(*m, f.g, x, "load after the fault is gone");
		drop(m);
		if (must || o.fault) { sim::nontrivial(); sim::state(sim::mix(f.g.hash(), (uint64_t)(p.eof_at * 7 + p.read_err_at * 11 + p.open_errno))); if (big) sim::probe("fault in a file larger than a stream buffer"); }
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C09", run, 25000, 600,
		"one evaluation = one random mesh file loaded up to 8 times with a missing file, an open error, a lost line, a read error or a truncation at a drawn byte, or a failing allocation, each followed by a clean load; distinct = different event log; non-trivial = a fault that must be noticed took effect",
		"MeshTriangleLoader, MeshObjLoader, tiny_obj_loader, Mesh, libstdc++ streams", "open/read/close (in-memory file system), heap, clock",
		"a truncation inside or after the last needed number is not noticeable; an OBJ file announces no counts" };
	return sim::runner_main(argc, argv, c);
}
