// C12: an exported VTK file describes exactly the mesh and data it was given.
#include "vtkmodel.h"
using namespace h;

static void run() {
	sim::plan_steps(1, 4);
	while (sim::next_step()) {
		Export x; bool huge = chance(1, 4000); if (huge) sim::set_step_budget(3000000000ull);
		x.random(huge ? 101 : chance(1, 400) ? 40 : chance(1, 6) ? 12 : 4);
		sim::IoPlan p; p.write_frag = (int)draw(3); p.eintr = pick({ 0, 0, 5, 40 }); if (huge) p = sim::IoPlan();
		sim::fs_plan("*", p);
		if (chance(1, 4)) { std::string junk(draw(20000), 'x'); sim::fs_put("out.vtu", junk.data(), junk.size()); }
		uint64_t before = x.g.hash();
		Outcome o = x.write("out.vtu");
		note("export: %s, %zu bytes", kind_name(o.kind), file_text("out.vtu").size());
		SIM_CHECK(o.ok(), "export-failed", "export threw %s although nothing failed", o.type.c_str());
		x.check_doc(file_text("out.vtu"), "export");
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the export", sim::fs_open_count());
		// the same mesh delivered without any disturbance gives the same bytes
		sim::fs_clear_plans();
		Outcome q = x.write("ref.vtu");
		SIM_CHECK(q.ok() && file_text("ref.vtu") == file_text("out.vtu"), "delivery-dependent", "the document depends on how the system accepted the bytes");
		if (!x.g.t.empty()) { MeshExpect me; me.order = x.order; check_mesh(*x.m, x.g, me, "mesh after the export"); }
		sim::state(sim::mix(before, (uint64_t)x.options * 64 + x.pd.size() * 8 + x.cd.size()));
		sim::nontrivial();
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C12", run, 12000, 600,
		"one evaluation = up to 4 random meshes with random data arrays and option masks exported under a random short-write/interruption schedule; distinct = different event log; non-trivial = at least one document parsed and compared",
		"VTKExporter, Mesh, Simplex, PolyShapePolicy::prepareMesh, libstdc++ file streams", "open/read/write/close (in-memory file system), heap, clock",
		"K = 2 (the only dimension Simplex supports); numbers compared to the six printed digits" };
	return sim::runner_main(argc, argv, c);
}
