// C11: an export that did not reach the disk is reported.
#include "vtkmodel.h"
using namespace h;

static void run() {
	Export x; x.random(chance(1, 5) ? 14 : 4);
	Outcome o = x.write("ref.vtu");
	SIM_CHECK(o.ok(), "export-failed", "undisturbed export threw %s", o.type.c_str());
	const std::string ref = file_text("ref.vtu");
	x.check_doc(ref, "undisturbed export");
	sim::plan_steps(1, 10);
	while (sim::next_step()) {
		sim::IoPlan p; p.write_frag = (int)draw(3); p.eintr = pick({ 0, 0, 10 });
		uint64_t k = 0; bool sticky = false;
		switch (draw(8)) {
		case 0: if (chance(1, 2)) p.rename_errno = pick({ 28, 5, 18 }); else p.fsync_errno = pick({ 28, 5 }); break; // should the export go through a second file
		case 1: p.open_errno = pick({ 13, 2, 24, 28, 30 }); break;
		case 2: p.close_errno = pick({ 5, 28, 122 }); break;
		case 3: p.write_err_at = (int64_t)(ref.size() - draw(std::min<size_t>(ref.size(), 64) + 1)); p.write_errno = pick({ 28, 5 }); break; // the very end
		case 4: k = 1 + draw(4); sticky = chance(1, 3); break;
		case 5: p.write_err_at = (int64_t)draw(ref.size() + 1); p.write_errno = pick({ 28, 5, 122, 27 }); p.write_transient = true; break;
		default: p.write_err_at = (int64_t)draw(ref.size() + 1); p.write_errno = pick({ 28, 5, 122, 27 }); break;
		}
		bool fresh = chance(1, 2);
		if (fresh) sim::fs_remove("out.vtu"); // else it overwrites whatever the step before left
		sim::fs_clear_plans(); sim::fs_plan(chance(1, 2) ? "out.vtu" : "*", p);
		Outcome e = attempt([&]() { NS::VTKExporter<double, 2>::write<Export::V>("out.vtu", *x.m, x.pv, x.cv, x.options); }, k, sticky);
		uint64_t hard = sim::fs_hard_faults();
		const std::string got = file_text("out.vtu");
		note("export with open_errno %d write_err_at %lld close_errno %d alloc %llu: %s (%zu of %zu bytes, %llu hard faults)", p.open_errno, (long long)p.write_err_at, p.close_errno, (unsigned long long)k, kind_name(e.kind), got.size(), ref.size(), (unsigned long long)hard);
		SIM_CHECK(e.ok() || e.kind == NSX || e.kind == OOM || e.kind == STDX, "exception-type", "export threw something unknown");
		if (e.ok()) {
			SIM_CHECK(got == ref, "silent-loss", "export returned normally but the file holds %zu bytes instead of the complete %zu-byte document", got.size(), ref.size());
			SIM_CHECK(!hard || p.write_transient, "silent-loss", "export returned normally although %llu I/O operations failed", (unsigned long long)hard);
		} else SIM_CHECK(hard || e.fault, "false-failure", "export threw %s although nothing failed", e.type.c_str());
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the export", sim::fs_open_count());
		// once the fault is gone
		sim::fs_clear_plans();
		Outcome again = x.write("out.vtu");
		SIM_CHECK(again.ok() && file_text("out.vtu") == ref, "no-recovery", "exporting again after the fault is gone: %s, %zu bytes", kind_name(again.kind), file_text("out.vtu").size());
		if (hard) { sim::nontrivial(); sim::state(sim::mix(x.g.hash(), (uint64_t)p.write_err_at * 8 + (uint64_t)p.open_errno + (uint64_t)p.close_errno * 1000003)); }
	}
	if (!x.g.t.empty()) { MeshExpect me; me.order = x.order; check_mesh(*x.m, x.g, me, "mesh after the exports"); }
}
int main(int argc, char** argv) {
	sim::Check c = { "C11", run, 20000, 600,
		"one evaluation = one random mesh exported up to 10 times with a fault at open, at a drawn output byte, at close, or in an allocation, each followed by a clean retry; distinct = different event log; non-trivial = at least one I/O fault took effect",
		"VTKExporter, Mesh, libstdc++ file streams", "open/read/write/close (in-memory file system), heap, clock",
		"a write the kernel accepted is on disk (no loss after a successful close)" };
	return sim::runner_main(argc, argv, c);
}
