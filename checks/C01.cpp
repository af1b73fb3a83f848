// C01: concurrent readers of shared objects are race-free and see the same values.
#include "readers.h"
using namespace NS;
using namespace h;

// what one op yields: a digest, or how it ended
static uint64_t result(const World& w, const Op& p) {
	Dig o;
	try { char f[20]; snprintf(f, sizeof f, "r%d.vtu", sim::self_tid()); op(w, p, o, f); return o.h | 1; }
	catch (const std::bad_alloc&) { return 0; }
	catch (const NSException& e) { return sim::mix(5, (uint64_t)strlen(typeid(e).name())) * 2; }
	catch (const std::exception& e) { return sim::mix(4, (uint64_t)strlen(typeid(e).name())) * 2; }
}
struct Job { const World* w; std::vector<Op> ops; std::vector<uint64_t> got; };
static void body(void* v) {
	Job& j = *(Job*)v;
	for (size_t i = 0; i < j.ops.size(); ++i) { sim::Lib l; j.got[i] = result(*j.w, j.ops[i]); }
}
static void run() {
	sim::plan_steps(1, 3);
	while (sim::next_step()) {
		Par p, q; p.fill(); q.fill(); plain_meshes = false;
		Tri t = random_tri(chance(1, 4) ? 3 : 1); size_t order = chance(1, 8) ? 0 : 1 + draw(2);
		sim::mark_live();
		World* w; { sim::Lib l; w = new World(p, q, t, order); }
		int n = 2 + (int)draw(3); unsigned focus = chance(1, 3) ? (unsigned)draw(NOPS) + 1 : 0;
		std::vector<Job*> js; std::vector<void*> args; std::string d;
		for (int i = 0; i < n; ++i) {
			Job* j = new Job(); j->w = w; int k = 1 + (int)draw(5); d += " |";
			while (k--) { Op o = { (unsigned)draw(NOPS), draw(1000), draw(1000), draw(1000) }; if (focus && draw(3)) o.k = focus - 1; j->ops.push_back(o); d += " " + std::to_string(o.k); }
			j->got.assign(j->ops.size(), 0); js.push_back(j); args.push_back(j);
		}
		uint64_t k = draw_fault(8);
		note("shared: %zux%zu real, %zux%zu complex, %zu vertices; %d readers:%s%s", w->r.n, w->r.m, w->z.n, w->z.m, t.p.size(), n, d.c_str(), k ? "; one allocation fails" : "");
		if (k) sim::arm_alloc(k);
		sim::run_threads(n, body, args.data());
		bool fault = k && sim::disarm_alloc(); int hit = fault ? sim::alloc_fault_tid() - 1 : -1;
		World* c; { sim::Lib l; c = new World(p, q, t, order); }
		int oom = 0;
		for (int i = 0; i < n; ++i) for (size_t o = 0; o < js[i]->ops.size(); ++o) {
			uint64_t want; { sim::Lib l; want = result(*c, js[i]->ops[o]); }
			SIM_CHECK(want, "unexpected-exception", "call %u alone ran out of memory", js[i]->ops[o].k);
			// an exporter that cannot get memory may report a failed write
			if (i == hit && (!js[i]->got[o] || (js[i]->ops[o].k == 2 * NSET + 23 && !(js[i]->got[o] & 1)))) { SIM_CHECK(!oom++, "unexpected-exception", "two calls ran out of memory after one failed allocation"); continue; }
			SIM_CHECK(js[i]->got[o] == want, "result-differs", "call %u (%llu, %llu, %llu), number %zu of reader %d, gives a different result than on its own", js[i]->ops[o].k, (unsigned long long)js[i]->ops[o].a, (unsigned long long)js[i]->ops[o].b, (unsigned long long)js[i]->ops[o].c, o, i);
			sim::state(sim::mix(js[i]->ops[o].k, o * 7 + i));
		}
		uint64_t a, b; { sim::Lib l; a = w->all(); b = c->all(); }
		SIM_CHECK(a == b, "shared-object-changed", "the shared objects differ after reading");
		{ sim::Lib l; delete w; delete c; }
		for (auto j : js) delete j;
		sim::check_leaks("after the readers");
		sim::nontrivial();
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C01", run, 40000, 900,
		"one evaluation = up to 3 rounds of 2-4 threads, each running up to 5 drawn read-only calls on one shared set of objects (real and complex sparse, dense and fixed matrices, vectors, factors, a mesh, a simplex, quadrature rules, shape functions) under a drawn schedule, at times with one failing allocation; results compared with a lone caller on an identically built set; distinct = different event log incl. the schedule; non-trivial = threads ran",
		"SparseMatrix, DenseMatrix, FixedMatrix, Vector, LU, Operations, Iterative, CG, MatrixOrder, Check, Mesh, Simplex, Quadrature, PolyShapeFunction", "heap allocator, thread scheduling (seeded), atomics sequentially consistent",
		"weak-memory value effects are not simulated, missing orderings are reported as races instead" };
	return sim::runner_main(argc, argv, c);
}
