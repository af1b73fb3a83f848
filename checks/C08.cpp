// C08: a loaded mesh depends only on the bytes of the file, not on their delivery.
#include "meshfile.h"
using namespace h;

static void run() {
	MeshFile f; const bool huge = chance(1, 5000); f.rich = chance(1, 3) && !huge; if (huge) { sim::set_step_budget(4000000000ull); f.make_huge(65540 + draw(40)); } else f.make(chance(1, 400) ? 50 : chance(1, 8) ? 16 : 4);
	note("%s", f.describe().c_str());
	f.put("m.a", "m.b");
	static const char mtl[] = "newmtl red\nKa 1 0 0\nKd 0.5 0 0\nmap_Kd x.png\n\nnewmtl blue\nd 1\n";
	sim::fs_put("some.mtl", mtl, sizeof mtl - 1);
	MeshExpect x; x.order = 0; x.tol = f.tol;
	sim::plan_steps(1, huge ? 2 : 6);
	while (sim::next_step()) {
		Mesh2* m = nullptr; Outcome o; char w[80];
		if (chance(1, 4)) {
			o = load_into(m, [&]() { return load_string(f, f.a, f.b); });
			snprintf(w, sizeof w, "load from strings");
		} else {
			sim::IoPlan p; p.read_frag = (int)draw(3); p.eintr = pick({ 0, 0, 15, 40 }); p.pipe = chance(1, 3); if (huge) p.read_frag = 0, p.eintr = 0;
			sim::fs_clear_plans(); sim::fs_plan("*", p);
			o = load_into(m, [&]() { return load_file(f, "m.a", "m.b"); });
			snprintf(w, sizeof w, "load from %s (delivery %d, interruptions %d%%)", p.pipe ? "pipes" : "files", p.read_frag, p.eintr);
			if (sim::fs_fault_count()) sim::nontrivial();
		}
		note("%s: %s", w, kind_name(o.kind));
		SIM_CHECK(o.ok(), "load-failed", "%s: well-formed files rejected with %s", w, o.type.c_str());
		check_mesh(*m, f.g, x, w);
		for (size_t i = 0; i < m->vertices().size(); ++i) SIM_CHECK(m->vertices()[i]->Flags == 0, "marks", "%s: vertex %zu is marked %u although no boundary was set up", w, i, (unsigned)m->vertices()[i]->Flags);
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%s: %d files open", w, sim::fs_open_count());
		drop(m);
		sim::state(sim::mix(f.g.hash(), f.a.size() * 131 + f.b.size()));
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C08", run, 30000, 600,
		"one evaluation = one random mesh file loaded up to 6 times from strings and from files and pipes under different delivery schedules; distinct = different event log; non-trivial = at least one short or interrupted read happened",
		"MeshTriangleLoader, MeshObjLoader, tiny_obj_loader, Mesh, libstdc++ streams", "open/read/close (in-memory file system), heap, clock",
		"OBJ coordinates are single precision; materials and further shapes of an OBJ file are not part of the mesh" };
	return sim::runner_main(argc, argv, c);
}
