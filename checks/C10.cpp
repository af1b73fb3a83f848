// C10: whatever bytes a mesh file contains, loading ends in an exception or an in-range mesh.
#include "meshfile.h"
using namespace h;

static void mutate(std::string& s, const std::string& other) {
	static const char* tok[] = { "-1", "0", "4294967295", "18446744073709551615", "-9223372036854775809", "99999999999999999999999", "1e999", "-1e-999", "nan", "inf", "1e308", "2147483648", "-2147483649", "65536",
		"1/2/3", "//", "1//", "/", "f", "f 1 2 3", "f 1", "f -1 -2 -3", "f 1/1 2/9999999 3/-77", "f 0 0 0", "f 1 2 99999999", "f 2147483647 -2147483648 1", "v", "v 1", "vt 1 2", "vn 1", "g", "g a b c", "o", "o x", "usemtl a", "usemtl ", "mtllib some.mtl", "mtllib", "t", "t crease 1/1/1 2 3.5 x", "t a 999999999/1/1 1", "t a -1/-1/-1", "t a 3/3/3 1/2", "t  0/0/2 a", "s 1", "#", "2", "3", "+", "-", ".", "e", "\\", "\"", "\0x" };
	int n = 1 + (int)draw(chance(1, 3) ? 8 : 2);
	while (n--) {
		size_t p = s.empty() ? 0 : draw(s.size() + 1), l = 1 + draw(chance(1, 3) ? 40 : 4);
		if (p > s.size()) p = s.size();
		switch (draw(14)) {
		case 0: if (p < s.size()) s[p] ^= (char)(1 << draw(8)); break;
		case 1: if (p < s.size()) s[p] = (char)draw(256); break;
		case 2: s.erase(p, l); break;
		case 3: { std::string q = s.substr(p, l); s.insert(draw(s.size() + 1), q); } break;
		case 4: s.insert(p, tok[draw(sizeof tok / sizeof *tok)]); break;
		case 5: case 6: case 7: { // replace one token
			size_t i = p; while (i < s.size() && isspace((unsigned char)s[i])) ++i;
			size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) ++j;
			s.replace(i, j - i, tok[draw(sizeof tok / sizeof *tok)]);
		} break;
		case 8: { std::string q = other.substr(other.empty() ? 0 : draw(other.size())); s.insert(p, q.substr(0, draw(q.size() + 1))); } break;
		case 9: s.resize(p); break;
		case 10: { char ch = pick({ '9', ' ', 'x', '1', '\t', '#', '/', '-', '\0', '\xff' }); s.insert(p, std::string(1 + draw(ch == '/' ? 400 : 9000), ch)); } break; // over-long
		case 11: s.insert(p, std::string(pick({ "\n", "\r", "\r\n", "\n\n", "\t" })) + tok[draw(sizeof tok / sizeof *tok)] + "\n"); break;
		case 12: { // a line with one oversized word
			static const char* kw[] = { "o ", "g ", "usemtl ", "mtllib ", "t ", "t x 1/1/1 ", "t x 0/0/1 ", "f ", "v ", "vn ", "vt ", "newmtl " };
			std::string w = std::string("\n") + kw[draw(12)] + std::string(pick({ 200, 4090, 4095, 4096, 4097, 5000, 9000 }), pick({ 'a', '1', '-', 'e' })) + "\n";
			s.insert(p, w);
		} break;
		default: { size_t q = draw(s.size() + 1); std::string cut = s.substr(p, l); s.erase(p, l); s.insert(std::min(q, s.size()), cut); } break; // moved
		}
	}
	if (s.size() > 40000) s.resize(40000);
}
static void check_safe(const Mesh2& m, const char* w) {
	auto& V = m.vertices(); auto& E = m.elements();
	std::set<const MV*> vs(V.begin(), V.end()); std::set<const ME*> es(E.begin(), E.end()); std::set<const MG*> gs(m.edges().begin(), m.edges().end());
	for (size_t i = 0; i < V.size(); ++i) SIM_CHECK(V[i] && V[i]->GlobalIndex == i, "index", "%s: vertex %zu has a wrong index", w, i);
	for (size_t e = 0; e < E.size(); ++e) for (int c = 0; c < 3; ++c) {
		SIM_CHECK(E[e]->Vertices[c] && vs.count(E[e]->Vertices[c]), "out-of-range", "%s: triangle %zu corner %d is not a vertex of the mesh", w, e, c);
		SIM_CHECK(!E[e]->Neighbors[c] || gs.count(E[e]->Neighbors[c]), "out-of-range", "%s: triangle %zu side %d refers to a foreign edge", w, e, c);
	}
	for (auto v : V) for (auto e : v->Elements) SIM_CHECK(es.count(e), "out-of-range", "%s: a vertex refers to a triangle that is not in the mesh", w);
	for (auto e : m.edges()) for (int c = 0; c < 2; ++c) {
		SIM_CHECK(vs.count(e->Vertices[c]), "out-of-range", "%s: an edge ends outside the mesh", w);
		SIM_CHECK(!e->Elements[c] || es.count(e->Elements[c]), "out-of-range", "%s: an edge refers to a triangle that is not in the mesh", w);
	}
}
static void run() {
	MeshFile f, f2; f.make(3, 55); f2.make(2, 50);
	std::string mtl = "newmtl red\nKa 1 0 0\nKd 0.5 0 0\nNs 10\nd 0.1\nillum 2\nmap_Kd x.png\nfoo bar\n\nnewmtl blue\nd 1\n";
	note("%s", f.describe().c_str());
	sim::plan_steps(1, 8);
	while (sim::next_step()) {
		MeshFile c = f; std::string cm = mtl;
		if (chance(1, 6)) { c.a = c.a.empty() ? c.b : draw(2) ? f2.a : c.b; } // the wrong kind of file
		if (c.obj) { if (chance(1, 3)) c.a = "mtllib some.mtl\nusemtl red\n" + c.a; mutate(c.a, f2.a); if (chance(1, 4)) mutate(cm, c.a); }
		else { if (draw(2)) mutate(c.a, f2.a); else mutate(c.b, f2.b); if (chance(1, 4)) mutate(draw(2) ? c.a : c.b, c.a); }
		c.put("m.a", "m.b");
		sim::fs_put("some.mtl", cm.data(), cm.size());
		sim::IoPlan p; p.read_frag = (int)draw(2) * 2; if (chance(1, 12)) p.read_err_at = (int64_t)draw(c.a.size() + 1);
		sim::fs_clear_plans(); sim::fs_plan("*", p);
		size_t size = c.a.size() + c.b.size() + cm.size();
		sim::set_alloc_cap(65536 + 1024 * size);
		uint64_t k = chance(1, 10) ? draw_fault(100) : 0;
		sim::set_step_budget(3000000 + 3000 * size + 100 * size * size);
		Mesh2* m = nullptr;
		Outcome o = chance(1, 3) ? load_into(m, [&]() { return load_string(c, c.a, c.b); }, k) : load_into(m, [&]() { return load_file(c, "m.a", "m.b"); }, k);
		note("load of %zu corrupted bytes: %s", size, kind_name(o.kind));
		SIM_CHECK(o.kind != OTHER, "exception-type", "load threw something unknown");
		SIM_CHECK(o.kind != OOM || o.fault, "absurd-allocation", "loading %zu bytes asked for an allocation larger than %zu bytes", size, 65536 + 1024 * size);
		if (o.ok()) { check_safe(*m, "mesh from corrupted files"); sim::probe("corrupted file accepted"); } else sim::nontrivial();
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files open after the load", sim::fs_open_count());
		drop(m);
		sim::check_leaks("loading corrupted files");
		sim::state(sim::mix(std::hash<std::string>()(c.a), std::hash<std::string>()(c.b)));
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C10", run, 60000, 900,
		"one evaluation = a random mesh file corrupted and loaded up to 8 times (byte flips, erasures, duplications, splices, absurd numbers and indices, over-long words and lines, wrong file kinds, read errors, failing allocations); distinct = different event log; non-trivial = at least one load ended in an exception",
		"MeshTriangleLoader, MeshObjLoader, tiny_obj_loader incl. materials, Mesh, libstdc++ streams", "open/read/close (in-memory file system), heap, clock",
		"memory errors are those AddressSanitizer, UBSan and libstdc++ assertions report; work is counted in executed basic blocks of the library" };
	return sim::runner_main(argc, argv, c);
}
