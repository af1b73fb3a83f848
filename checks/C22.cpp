// C22: the OBJ reader delivers the whole document: every face of every group with its corners and
// its material, every group with its name and its tags, every material with its parameters.
#include "objdoc.h"
using namespace h;

namespace {
bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }

void check_mats(const Doc& d, const Result& r, const char* w) {
	SIM_CHECK(r.mats.size() == d.mats.size(), "materials", "%s: %zu materials instead of %zu", w, r.mats.size(), d.mats.size());
	for (size_t i = 0; i < d.mats.size(); ++i) {
		const tinyobj::material_t& g = r.mats[i]; const Mat& x = d.mats[i]; const char* nm = x.name.c_str();
		SIM_CHECK(g.name == x.name, "materials", "%s: material %zu is called '%s' instead of '%s'", w, i, g.name.c_str(), nm);
		const float* c[5] = { g.ambient, g.diffuse, g.specular, g.transmittance, g.emission };
		static const char* cn[] = { "ambient", "diffuse", "specular", "transmittance", "emission" };
		for (int k = 0; k < 5; ++k) for (int j = 0; j < 3; ++j) SIM_CHECK(near(c[k][j], x.c[k][j]), "materials", "%s: material '%s': %s[%d] is %s instead of %s", w, nm, cn[k], j, str((double)c[k][j]), str(x.c[k][j]));
		SIM_CHECK(near(g.shininess, x.ns) && near(g.ior, x.ni) && near(g.dissolve, x.d) && g.illum == x.illum, "materials", "%s: material '%s': Ns %s Ni %s d %s illum %d instead of %s %s %s %d", w, nm, str((double)g.shininess), str((double)g.ior), str((double)g.dissolve), g.illum, str(x.ns), str(x.ni), str(x.d), x.illum);
		const std::string* t[7] = { &g.ambient_texname, &g.diffuse_texname, &g.specular_texname, &g.specular_highlight_texname, &g.bump_texname, &g.displacement_texname, &g.alpha_texname };
		for (int k = 0; k < 7; ++k) SIM_CHECK(*t[k] == x.tex[k], "materials", "%s: material '%s': texture %d is '%s' instead of '%s'", w, nm, k, t[k]->c_str(), x.tex[k].c_str());
		SIM_CHECK(g.unknown_parameter == x.unknown, "materials", "%s: material '%s': %zu further parameters instead of %zu, or others", w, nm, g.unknown_parameter.size(), x.unknown.size());
	}
}
void check_shapes(const Doc& d, const Result& r, unsigned flags, bool materials, const char* w) {
	bool fan = flags & 1;
	SIM_CHECK(r.shapes.size() == d.groups.size(), "shapes", "%s: %zu shapes instead of the %zu groups with faces", w, r.shapes.size(), d.groups.size());
	for (size_t s = 0; s < d.groups.size(); ++s) {
		const Group& g = d.groups[s]; const tinyobj::mesh_t& m = r.shapes[s].mesh;
		SIM_CHECK(r.shapes[s].name == g.name, "names", "%s: shape %zu is called '%.60s' instead of '%.60s'", w, s, r.shapes[s].name.c_str(), g.name.c_str());
		std::vector<std::vector<Corner> > want; std::vector<int> mat;
		for (size_t f = 0; f < g.faces.size(); ++f) {
			if (!fan) { want.push_back(g.faces[f]); mat.push_back(g.mat[f]); continue; }
			for (size_t k = 2; k < g.faces[f].size(); ++k) { want.push_back({ g.faces[f][0], g.faces[f][k - 1], g.faces[f][k] }); mat.push_back(g.mat[f]); }
		}
		SIM_CHECK(m.num_vertices.size() == want.size() && m.material_ids.size() == want.size(), "faces", "%s: shape %zu has %zu faces with %zu materials instead of %zu", w, s, m.num_vertices.size(), m.material_ids.size(), want.size());
		std::map<Corner, unsigned> at; size_t pos = 0, count = m.positions.size() / 3;
		for (size_t f = 0; f < want.size(); ++f) {
			SIM_CHECK(m.num_vertices[f] == want[f].size(), "faces", "%s: face %zu of shape %zu has %u corners instead of %zu", w, f, s, (unsigned)m.num_vertices[f], want[f].size());
			if (materials) SIM_CHECK(m.material_ids[f] == mat[f], "face-material", "%s: face %zu of shape %zu has material %d instead of %d", w, f, s, m.material_ids[f], mat[f]);
			for (size_t k = 0; k < want[f].size(); ++k, ++pos) {
				const Corner& c = want[f][k];
				SIM_CHECK(pos < m.indices.size() && m.indices[pos] < count, "faces", "%s: corner %zu of face %zu of shape %zu has no vertex", w, k, f, s);
				unsigned i = m.indices[pos];
				auto ins = at.insert(std::make_pair(c, i));
				SIM_CHECK(ins.first->second == i, "sharing", "%s: corner %zu of face %zu of shape %zu uses vertex %u, the same corner used vertex %u before", w, k, f, s, i, ins.first->second);
				if (!ins.second) continue;
				for (int j = 0; j < 3; ++j) SIM_CHECK(near(m.positions[3 * i + j], d.v[c.v][j]), "positions", "%s: corner %zu of face %zu of shape %zu is at %s instead of %s", w, k, f, s, str((double)m.positions[3 * i + j]), str(d.v[c.v][j]));
				if (g.kind & 1) for (int j = 0; j < 2; ++j) SIM_CHECK(2 * i + j < m.texcoords.size() && near(m.texcoords[2 * i + j], d.t[c.t][j]), "texcoords", "%s: corner %zu of face %zu of shape %zu has another texture coordinate", w, k, f, s);
				if (g.kind & 2) for (int j = 0; j < 3; ++j) SIM_CHECK(3 * i + j < m.normals.size() && near(m.normals[3 * i + j], d.n[c.n][j]), "normals", "%s: corner %zu of face %zu of shape %zu has another normal", w, k, f, s);
			}
		}
		SIM_CHECK(pos == m.indices.size() && count == at.size() && m.positions.size() == 3 * count, "sharing", "%s: shape %zu has %zu corners and %zu vertices instead of %zu and %zu", w, s, m.indices.size(), count, pos, at.size());
		SIM_CHECK(m.texcoords.size() == (g.kind & 1 ? 2 * count : 0), "texcoords", "%s: shape %zu has %zu texture values for %zu vertices", w, s, m.texcoords.size(), count);
		if (flags & 2 && !(g.kind & 2)) { // computed normals: that of one of the triangles at the vertex
			SIM_CHECK(m.normals.size() == 3 * count, "normals", "%s: shape %zu has %zu normal values for %zu vertices", w, s, m.normals.size(), count);
			std::vector<char> good(count, 0);
			for (auto& f : want) {
				P3 e[2], c; const P3 &a = d.v[f[0].v]; double len = 0;
				for (int q = 0; q < 2; ++q) for (int j = 0; j < 3; ++j) e[q][j] = d.v[f[q + 1].v][j] - a[j];
				for (int j = 0; j < 3; ++j) { c[j] = e[0][(j + 1) % 3] * e[1][(j + 2) % 3] - e[0][(j + 2) % 3] * e[1][(j + 1) % 3]; len += c[j] * c[j]; }
				len = std::sqrt(len);
				for (auto& q : f) { unsigned i = at[q]; bool ok = len < 1e-2; for (int j = 0; !ok && j < 3; ++j) if (std::fabs(m.normals[3 * i + j] - c[j] / len) > 1e-2) break; else if (j == 2) ok = true; if (ok) good[i] = 1; }
			}
			for (size_t i = 0; i < count; ++i) SIM_CHECK(good[i], "normals", "%s: the computed normal of vertex %zu of shape %zu belongs to no triangle at it", w, i, s);
		} else SIM_CHECK(m.normals.size() == (g.kind & 2 ? 3 * count : 0), "normals", "%s: shape %zu has %zu normal values for %zu vertices", w, s, m.normals.size(), count);
		SIM_CHECK(m.tags.size() == g.tags.size(), "tags", "%s: shape %zu has %zu tags instead of %zu", w, s, m.tags.size(), g.tags.size());
		for (size_t k = 0; k < g.tags.size(); ++k) {
			const tinyobj::tag_t& a = m.tags[k]; const Tag& x = g.tags[k];
			bool same = a.name == x.name && a.intValues == x.i && a.stringValues == x.s && a.floatValues.size() == x.f.size();
			for (size_t j = 0; same && j < x.f.size(); ++j) same = near(a.floatValues[j], x.f[j]);
			SIM_CHECK(same, "tags", "%s: tag %zu of shape %zu differs from '%s' in the document", w, k, s, x.name.c_str());
		}
	}
}

void run() {
	Doc d; d.make();
	bool any_missing = d.missing[0] || d.missing[1];
	note("document of %zu bytes: %zu groups, %zu faces, %zu materials%s", d.text.size(), d.groups.size(), d.faces, d.mats.size(), d.changes ? ", material changes" : "");
	const char* base = draw(2) ? "lib/" : "";
	sim::fs_put("d.obj", d.text.data(), d.text.size());
	for (int w = 0; w < 2; ++w) if (!d.missing[w]) sim::fs_put((std::string(base) + Doc::fname(w)).c_str(), d.lib[w].data(), d.lib[w].size());
	Result* r = nullptr;
	sim::plan_steps(1, 5);
	while (sim::next_step()) {
		if (!r) { sim::Lib l; r = new Result(); }
		int way = (int)draw(4); unsigned flags = pick({ 1u, 0u, 1u, 3u });
		if (d.changes) flags &= 1;
		uint64_t k = draw_fault(15); bool sticky = chance(1, 3);
		std::string obj = "d.obj";
		sim::IoPlan p; p.read_frag = (int)draw(3); p.eintr = pick({ 0, 0, 15, 40 }); p.pipe = chance(1, 4);
		sim::fs_clear_plans(); sim::fs_plan("*", p);
		int bad = way < 2 && chance(1, 4) ? 1 + (int)draw(4) : 0; // d.obj or a library cannot be read
		if (bad) {
			sim::IoPlan q = p; std::string who = bad <= 2 ? obj : std::string(base) + Doc::fname(bad - 3); size_t len = bad <= 2 ? d.text.size() : d.lib[bad - 3].size();
			if (draw(4) == 3) q.open_errno = pick({ 13, 2, 24, 5 }); else { q.read_err_at = (int64_t)draw(len + 1); q.read_errno = pick({ 5, 21, 116 }); q.read_transient = chance(1, 3); }
			sim::fs_plan(who.c_str(), q);
		}
		{ sim::Lib l; r->shapes.clear(); r->mats.clear(); r->err.clear(); }
		static const char* ways[] = { "file", "stream with file materials", "stream with string materials", "file again" };
		Outcome o;
		switch (way) {
		case 0: o = attempt([&]() { r->ok = tinyobj::LoadObj(r->shapes, r->mats, r->err, obj.c_str(), *base ? base : nullptr, flags); }, k, sticky); break;
		case 1: o = attempt([&]() { std::istringstream in(d.text); in.exceptions(std::ios::badbit); tinyobj::MaterialFileReader rd(base); r->ok = tinyobj::LoadObj(r->shapes, r->mats, r->err, in, rd, flags); }, k, sticky); break;
		case 2: o = attempt([&]() { std::istringstream in(d.text); in.exceptions(std::ios::badbit); StringReader rd(d); r->ok = tinyobj::LoadObj(r->shapes, r->mats, r->err, in, rd, flags); }, k, sticky); break;
		default: { tinyobj::shape_t old; old.name = "left over"; o = attempt([&]() { r->shapes.push_back(old); r->ok = tinyobj::LoadObj(r->shapes, r->mats, r->err, obj.c_str(), base, flags); }, k, sticky); break; }
		}
		uint64_t hard = sim::fs_hard_faults(); char w[120];
		snprintf(w, sizeof w, "%s, flags %u", ways[way], flags);
		note("%s: %s%s%s", w, kind_name(o.kind), o.ok() ? (r->ok ? " true" : " false") : "", hard ? " (read failure)" : "");
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%s: %d files open", w, sim::fs_open_count());
		if (!o.ok()) SIM_CHECK(hard || o.fault, "false-failure", "%s: threw %s although nothing failed", w, o.type.c_str());
		else if (!r->ok && d.large && !(flags & 1)) { SIM_CHECK(!r->err.empty(), "silent-refusal", "%s: refused without a message", w); sim::probe("face too large for its count refused"); }
		else if (!r->ok) SIM_CHECK(hard || o.fault, "false-failure", "%s: a well-formed document was rejected: %.100s", w, r->err.c_str());
		else if (bad <= 2 || !hard) {
			if (hard) fail("silent-loss", "%s: success although reading the document failed", w);
			check_shapes(d, *r, flags, true, w);
			check_mats(d, *r, w);
			if (!o.fault) SIM_CHECK(r->err.empty() == !any_missing, "warning", "%s: %s missing material library but the message is '%.100s'", w, any_missing ? "a" : "no", r->err.c_str());
		} else {
			if (!o.fault) SIM_CHECK(!r->err.empty(), "silent-loss", "%s: success without a warning although a material library could not be read", w);
			check_shapes(d, *r, flags, false, w);
		}
		if (hard || o.fault) { sim::nontrivial(); sim::Lib l; delete r; r = nullptr; }
		else if (sim::fs_fault_count()) sim::nontrivial();
		sim::state(sim::mix(sim::mix(d.text.size() * 131 + d.faces, d.groups.size()), flags * 8 + way));
	}
	if (r) { sim::Lib l; delete r; }
}
} // namespace
int main(int argc, char** argv) {
	sim::Check c = { "C22", run, 30000, 600,
		"one evaluation = one random OBJ document with groups, materials and tags, read up to 5 times through files, streams, pipes and two kinds of material reader, with delivery faults, read failures and failing allocations; distinct = different event log; non-trivial = a delivery, read or allocation fault took effect",
		"tiny_obj_loader (LoadObj, LoadMtl, MaterialFileReader), libstdc++ streams", "open/read/close (in-memory file system), heap, clock",
		"tag lines use single blanks; all corners of a group carry the same kind of attributes; computed normals are judged in documents without material changes" };
	return sim::runner_main(argc, argv, c);
}
