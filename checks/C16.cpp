// C16: the Poisson program never claims success for results it did not deliver.
#include "fem.h"
#include <iostream>
#include <streambuf>
using namespace h;
int fem_main(int argc, char** argv);

static const char* const OUT[] = { "poisson_fem_data.dat", "poisson_fem_mesh.dat", "poisson_fem_A.dat", "poisson_fem_B.dat", "poisson_fem_ExactError.dat", "poisson_fem_PostError.dat", "poisson_fem.vtu" };
struct Screen : std::streambuf { size_t n = 0; int overflow(int c) override { ++n; return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize k) override { n += (size_t)k; return k; } };

struct Run { bool threw; int code; Outcome o; std::map<std::string, std::string> f; bool success() const { return !threw && code == 0; } };
static Screen screen;
static Run program(const std::vector<std::string>& args, uint64_t k = 0, bool sticky = false) {
	std::vector<std::string> s(args); s.insert(s.begin(), "example_poisson_fem");
	std::vector<char*> v; for (auto& a : s) v.push_back(&a[0]); v.push_back(nullptr);
	std::streambuf* old = std::cout.rdbuf(&screen);
	Run r; r.code = -99;
	r.o = attempt([&]() { r.code = fem_main((int)s.size(), v.data()); }, k, sticky);
	std::cout.rdbuf(old); std::cout.clear();
	r.threw = !r.o.ok();
	for (auto n : OUT) { const char* d; size_t l; if (sim::fs_get(n, &d, &l)) r.f[n] = std::string(d, l); }
	return r;
}
static void complete(const Run& r, const char* w) { for (auto n : OUT) SIM_CHECK(r.f.count(n), "incomplete-file", "%s: %s does not exist after success", w, n); }
static bool same(const Run& a, const Run& b, const char*& which, size_t& at) {
	for (auto n : OUT) { auto x = a.f.find(n), y = b.f.find(n); if (x == a.f.end() || y == b.f.end()) { which = n; at = 0; return false; } if (x->second != y->second) { which = n; at = 0; while (at < x->second.size() && at < y->second.size() && x->second[at] == y->second[at]) ++at; return false; } }
	return true;
}
// The mesh with something that does not fit: 0 a vertex no triangle uses, 1 a flat triangle, 2 a side of three triangles, 3 a triangle given twice on top of a neighbour
static void broken_topology(const MeshFile& f, int how) {
	if (f.obj) { // unused vertices are no part of an OBJ mesh
		std::string s = f.a + "\n";
		if (how == 0) how = 1;
		if (how == 1) s += "v 0 3 0\nv 1 3 1\nv 2 3 2\nf -3 -2 -1\n";
		else s += std::string("v 50 3 0\nv 51 3 0\nv 50 3 1\nv 51 3 1\nv 50.25 3 2\nf -5 -4 -3\nf -4 -3 -2\n") + (how == 2 ? "f -4 -3 -1\n" : "f -4 -2 -3\n");
		sim::fs_put("in.a", s.data(), s.size()); return;
	}
	Tri g = f.g; size_t n = g.p.size();
	if (how == 0) g.p.insert(g.p.begin() + (long)draw(n + 1), Pt{ { 7, 7 } });
	if (how == 0) { size_t at = 0; while (g.p[at][0] != 7) ++at; for (auto& e : g.t) for (auto& v : e) if (v >= at) ++v; }
	if (how == 1) { for (int i = 0; i < 3; ++i) g.p.push_back(Pt{ { 50.0 + i, 50.0 + i } }); g.t.push_back(Tr{ { n, n + 1, n + 2 } }); }
	if (how >= 2) {
		double c[5][2] = { { 50, 50 }, { 51, 50 }, { 50, 51 }, { 51, 51 }, { 50.25, 52 } };
		for (int i = 0; i < (how == 2 ? 5 : 4); ++i) g.p.push_back(Pt{ { c[i][0], c[i][1] } });
		g.t.push_back(Tr{ { n, n + 1, n + 2 } }); g.t.push_back(Tr{ { n + 1, n + 2, n + 3 } }); g.t.push_back(Tr{ { n + 1, n + 2, n + (how == 2 ? 4u : 3u) } });
	}
	std::string a = MeshFile::n2s(g.p.size()) + " 2 0 0\n", b = MeshFile::n2s(g.t.size()) + " 3 0\n";
	for (size_t i = 0; i < g.p.size(); ++i) a += MeshFile::n2s(i) + " " + str(g.p[i][0]) + " " + str(g.p[i][1]) + "\n";
	for (size_t i = 0; i < g.t.size(); ++i) b += MeshFile::n2s(i) + " " + MeshFile::n2s(g.t[i][0]) + " " + MeshFile::n2s(g.t[i][1]) + " " + MeshFile::n2s(g.t[i][2]) + "\n";
	sim::fs_put("in.a", a.data(), a.size()); sim::fs_put("in.b", b.data(), b.size());
}
static std::string join(const std::vector<std::string>& a) { std::string s; for (auto& q : a) s += (s.empty() ? "" : " ") + q; return s; }

static void run() {
	int solver = (int)draw(3), order = 1 + (int)draw(2), kind = (int)draw(4); if (kind == 3) kind = 0;
	size_t N = 0; MeshFile f;
	std::vector<std::string> args = { MeshFile::n2s((size_t)solver), MeshFile::n2s((size_t)order), MeshFile::n2s((size_t)kind) };
	if (kind == 0) { N = 1 + draw(chance(1, 8) ? (order == 1 ? 12 : 6) : 4); args.push_back(MeshFile::n2s(N)); }
	else {
		h::plain_meshes = !chance(1, 12);
		double sc = pick({ 0.25, 0.5, 1.0, 0.125 }); size_t mx = chance(1, 6) ? 6 : 3;
		if (kind == 1) { f.make_obj(mx, true, sc); args.push_back("in.a"); } else { f.make_triangle(mx, sc); args.push_back("in.a"); args.push_back("in.b"); }
		f.put("in.a", "in.b");
	}
	note("program %s", join(args).c_str());
	uint64_t a0 = sim::lib_allocs();
	Run ref = program(args);
	uint64_t allocs = sim::lib_allocs() - a0;
	SIM_CHECK(ref.success(), "program-failed", "undisturbed run %s ended with %s %d", join(args).c_str(), ref.threw ? ref.o.type.c_str() : "status", ref.code);
	SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the run", sim::fs_open_count());
	complete(ref, "undisturbed run");
	Fem m; m.read(ref.f, order, kind == 0);
	if (kind) { // the mesh that was solved is the one in the file
		SIM_CHECK(m.t.size() == f.g.t.size(), "mesh", "the result has %zu triangles, the mesh file %zu", m.t.size(), f.g.t.size());
		for (size_t e = 0; e < m.t.size(); ++e) for (int c = 0; c < 3; ++c) for (int d = 0; d < 2; ++d) { double want = f.g.p[f.g.t[e][c]][d]; SIM_CHECK(std::fabs(m.p[m.t[e][c]][d] - want) <= 2e-5 * (1 + std::fabs(want)), "mesh", "triangle %zu corner %d lies at %s, the mesh file says %s", e, c, str(m.p[m.t[e][c]][d]), str(want)); }
	}
	m.model();
	std::string known[2]; // known findings met in this case: raised at its end, after everything else has been checked
	m.check(kind == 0, N, m.hmax <= 0.36);
	if (m.known_assembly) known[0] = "on a mesh from files the stiffness matrix is assembled with untransposed inverse Jacobians";
	sim::plan_steps(1, m.n > 60 ? 4 : 8);
	while (sim::next_step()) {
		sim::fs_clear_plans();
		if (kind) f.put("in.a", "in.b");
		if (chance(1, 3)) for (auto n : OUT) if (draw(2)) sim::fs_remove(n); // otherwise stale files lie around
		if (chance(1, 6)) for (auto n : OUT) { std::string junk = file_text(n).substr(0, draw(200)) + "stale"; sim::fs_put(n, junk.data(), junk.size()); } // a crashed predecessor
		std::vector<std::string> a = args;
		uint64_t k = 0; bool sticky = false, benign = false, badmesh = false, badargs = false; const char* what = "";
		const char* target = OUT[chance(1, 3) ? draw(7) : 6]; sim::IoPlan p; size_t tsize = ref.f[target].size();
		p.write_frag = (int)draw(3); p.eintr = pick({ 0, 0, 5 });
		switch (draw(9)) {
		case 0: { // schedule of clock and I/O only
			benign = true; what = "clock and I/O schedule";
			sim::IoPlan all; all.read_frag = (int)draw(3); all.write_frag = (int)draw(3); all.eintr = (int)draw(3) * 10; sim::fs_plan("*", all); target = nullptr;
			sim::clock_reads_jump((int)draw(101), 1000000000ll << draw(20)); sim::clock_jump((int64_t)draw(1000000000000ull));
		} break;
		case 1: p.write_err_at = (int64_t)draw(tsize + 1); p.write_errno = pick({ 28, 5, 122, 27 }); what = "write error"; break;
		case 2: p.write_err_at = (int64_t)(tsize - draw(std::min<size_t>(tsize, 16) + 1)); p.write_errno = 28; what = "write error at the end"; break;
		case 3: p.open_errno = pick({ 13, 24, 28, 30, 21 }); what = "open error"; break;
		case 4: p.close_errno = pick({ 5, 28, 122 }); what = "close error"; break;
		case 5: case 6: { // memory
			what = "allocation failure"; target = nullptr; sticky = chance(1, 3);
			k = 1 + draw(draw(3) ? allocs : std::min<uint64_t>(allocs, 400));
		} break;
		case 7: {
			what = "broken mesh input"; target = nullptr;
			if (kind == 0) { badargs = true; a[3] = pick({ "0", "-3", "", "x", "99999999999999999999" }); }
			else switch (int w = (int)draw(8); kind == 1 && w == 3 ? 4 : w) { // a mesh without triangles ends in an assertion (abort), also a failure status
				case 0: sim::fs_remove(kind == 2 && draw(2) ? "in.b" : "in.a"); badmesh = true; break;
				case 1: { sim::IoPlan q; q.open_errno = pick({ 2, 13, 24 }); sim::fs_plan(kind == 2 && draw(2) ? "in.b" : "in.a", q); badmesh = true; } break;
				case 2: { sim::IoPlan q; q.read_err_at = (int64_t)(f.a.size() ? draw(f.a.size()) : 0); sim::fs_plan("in.a", q); badmesh = true; } break;
				case 3: { bool b = kind == 2 && draw(2); const char* nm = b ? "in.b" : "in.a"; sim::fs_put(nm, "", 0); badmesh = true; } break;
				case 5: case 6: case 7: broken_topology(f, (int)draw(4)); badmesh = true; break;
				default: { // an undefined vertex
					if (kind == 2) { MeshFile g = f; g.b = "1 3 0\n0 0 1 " + MeshFile::n2s(g.g.p.size() + 3) + "\n"; g.put("in.a", "in.b"); } else { std::string s = f.a + "\nf 1 2 99999\n"; sim::fs_put("in.a", s.data(), s.size()); }
					badmesh = true;
				}
			}
		} break;
		default: {
			badargs = true; what = "bad arguments"; target = nullptr;
			switch (draw(6)) { case 0: a.pop_back(); break; case 1: a.push_back("extra"); break; case 2: a[0] = pick({ "3", "-1", "x", "" }); break; case 3: a[1] = pick({ "0", "3", "q" }); break; case 4: a[2] = pick({ "3", "-1", "" }); break; default: a.resize(draw(3)); }
		}
		}
		if (target) sim::fs_plan(target, p);
		std::map<std::string, std::string> before; for (auto n : OUT) if (sim::fs_exists(n)) before[n] = file_text(n);
		Run r = program(a, k, sticky);
		uint64_t hard = sim::fs_hard_faults();
		sim::clock_reads_jump(0, 0);
		note("%s%s%s (alloc %llu of %llu): %s %d, %llu hard faults", what, target ? " on " : "", target ? target : "", (unsigned long long)k, (unsigned long long)allocs, r.threw ? kind_name(r.o.kind) : "status", r.code, (unsigned long long)hard);
		SIM_CHECK(r.o.kind != OTHER, "exception-type", "the program ended in something unknown");
		const char* wh; size_t at;
		if (r.success()) {
			SIM_CHECK(!badmesh, "broken-mesh-accepted", "the program claims success although its mesh was missing, unreadable or inconsistent");
			SIM_CHECK(!badargs, "bad-arguments-accepted", "the program claims success for the arguments '%s'", join(a).c_str());
			if (target && target != OUT[6] && hard) { // the text files are written without looking at the result
				for (auto n : OUT) SIM_CHECK(n == target || r.f.count(n), "incomplete-file", "%s on %s: %s does not exist after success", what, target, n);
				Run q = r; q.f[target] = ref.f[target];
				if (!same(ref, q, wh, at)) fail("silent-loss", "after a successful run (%s on %s) %s differs from the undisturbed run at byte %zu", what, target, wh, at);
				known[1] = std::string("the program claims success although writing ") + target + " failed";
				r = q; hard = 0;
			}
			complete(r, what);
			if (!same(ref, r, wh, at)) fail(hard || r.o.fault ? "silent-loss" : "not-repeatable", "after a successful run (%s) %s differs from the undisturbed run at byte %zu (%zu bytes, expected %zu)", what, wh, at, r.f[wh].size(), ref.f[wh].size());
			SIM_CHECK(!hard, "silent-loss", "the program claims success although %llu I/O operations failed", (unsigned long long)hard);
		} else {
			SIM_CHECK(hard || r.o.fault || badmesh || badargs, "false-failure", "the program failed (%s %d) although nothing went wrong", r.threw ? r.o.type.c_str() : "status", r.code);
			if (badargs) for (auto n : OUT) SIM_CHECK(r.f.count(n) == before.count(n) && (!r.f.count(n) || r.f[n] == before[n]), "output-touched", "refusing its arguments, the program touched %s", n);
		}
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the run", sim::fs_open_count());
		if (benign) SIM_CHECK(r.success(), "false-failure", "clock and I/O schedule made the program fail");
		if (!benign) { // once the trouble is over
			sim::fs_clear_plans(); if (kind) f.put("in.a", "in.b");
			if (draw(3) == 0) {
				Run g = program(args);
				SIM_CHECK(g.success(), "no-recovery", "running again after the fault is gone ended with %s %d", g.threw ? g.o.type.c_str() : "status", g.code);
				complete(g, "rerun"); if (!same(ref, g, wh, at)) fail("no-recovery", "rerun after a fault: %s differs at byte %zu", wh, at);
			}
		}
		sim::state(sim::mix(sim::mix(m.n * 7 + (size_t)solver, m.t.size()), sim::mix((uint64_t)p.write_err_at * 64 + (uint64_t)(target ? target[12] : 0), k)));
	}
	sim::forgive_live();
	if (!known[0].empty()) fail("assembly-untransposed", "%s", known[0].c_str());
	if (!known[1].empty()) fail("text-output-unchecked", "%s", known[1].c_str());
}
int main(int argc, char** argv) {
	sim::Check c = { "C16", run, 12000, 900,
		"one evaluation = one configuration (solver, order, grid size or random mesh file) run undisturbed and judged against an independent finite-element model, then re-run up to 8 times with a drawn fault (write/open/close error on a drawn output, failing allocation, broken mesh input, bad arguments) or under a drawn clock and I/O schedule, partly followed by a clean re-run; distinct = different event log; non-trivial = the system has interior unknowns",
		"examples/poisson/fem.cpp main(), Mesh, HyperCube, mesh loaders, PolyShapeFunction, Quadrature, SparseMatrix, CG, SOR, VTKExporter, libstdc++ streams", "open/read/write/close (in-memory file system), heap, clocks, standard output",
		"accuracy bounds: the program's solvers stop at 1e-4; nodal values within 1.5e-3 of the finite-element solution; data a successful close accepted is on disk" };
	return sim::runner_main(argc, argv, c);
}
