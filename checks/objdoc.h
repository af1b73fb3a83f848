// OBJ documents with groups, materials and tags, and what reading them must deliver.
#pragma once
#include "meshfile.h"
#include "external/tiny_obj_loader.h"
namespace h {
struct Corner { size_t v, t, n; bool operator<(const Corner& o) const { return v != o.v ? v < o.v : t != o.t ? t < o.t : n < o.n; } };
struct Tag { std::string name; std::vector<int> i; std::vector<double> f; std::vector<std::string> s; };
struct Mat {
	std::string name; double c[5][3]; double ns, ni, d; int illum; std::string tex[7]; std::map<std::string, std::string> unknown;
	Mat() : ns(1), ni(1), d(1), illum(0) { for (auto& r : c) for (auto& x : r) x = 0; }
};
struct Group { std::string name; int kind; std::vector<std::vector<Corner> > faces; std::vector<int> mat; std::vector<Tag> tags; };
typedef std::array<double, 3> P3;

struct Doc {
	std::string text, lib[2]; std::vector<Mat> libmat[2]; bool missing[2];
	std::vector<P3> v, n; std::vector<std::array<double, 2> > t;
	std::vector<Group> groups;     // only those with faces
	std::vector<Mat> mats; bool changes, large; // large: a face with more corners than num_vertices can hold
	MeshFile::Style s; size_t faces;

	static const char* fname(int i) { return i ? "second.mtl" : "first.mtl"; }
	std::string eol() const { return MeshFile::eol(s); }
	std::string sep() const { return MeshFile::sep(s); }
	std::string lead() const { return MeshFile::lead(s); }
	static std::string num(double x) { return MeshFile::num(x); }
	static std::string word() { static const char* w[] = { "a", "wall", "Cube.001", "x_y-z", "group1", "off", "f", "v", "newmtl", "g", "0", "1/2/3" }; std::string r = w[draw(12)]; if (chance(1, 40)) r += std::string(200 + draw(800), 'n'); return r; }
	static double val() { if (chance(1, 40)) return pick({ 1.0, -1.0 }) * pick({ 4294967301.0, 12345678912.0, 999999999999.0, 2147483649.5, 1234567.0 }); return pos(); }
	static double pos() { return chance(1, 4) ? (double)range(-8000, 8000) / 1000 : (double)range(-16, 16) / 4; }
	void noise(std::string& o) {
		while (s.junk && draw(8) >= (uint64_t)(8 - s.junk)) {
			static const char* ign[] = { "# f 1 2 3", "", "s off", "s 1", "vp 0 1", "l 1 2", "#usemtl red", "usemap none", "p 1", "   ", "bevel on", "#", "shadow_obj a.obj" };
			const size_t w = (size_t)draw(13); o += lead() + ign[w]; if (w == 11) o += MeshFile::binary(); o += eol();
		}
	}
	void make_lib(int w) {
		std::string& o = lib[w]; o.clear(); libmat[w].clear(); s = MeshFile::style();
		static const char* names[] = { "red", "blue", "Material.001", "x", "steel" };
		size_t k = chance(1, 10) ? 12 : 1 + draw(4);
		for (size_t i = 0; i < k; ++i) {
			Mat m; m.name = names[draw(5)]; if (i > 4 || chance(1, 3)) m.name += "_" + std::to_string(i + 10 * w);
			if (s.junk) o += "# material" + eol();
			o += lead() + "newmtl" + sep() + m.name + eol();
			for (size_t p = draw(8); p > 0; --p) {
				static const char* col[] = { "Ka", "Kd", "Ks", "Kt", "Ke" };
				static const char* tex[] = { "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_bump", "disp", "map_d" };
				o += lead();
				switch (draw(8)) {
				case 0: case 1: { size_t q = draw(5); o += col[q]; for (auto& x : m.c[q]) { x = val(); o += sep() + num(x); } break; }
				case 2: m.ns = val(); o += "Ns" + sep() + num(m.ns); break;
				case 3: m.ni = val(); o += "Ni" + sep() + num(m.ni); break;
				case 4: m.illum = (int)draw(11); o += "illum" + sep() + std::to_string(m.illum); break;
				case 5: { double x = (double)draw(9) / 8; if (draw(2)) { m.d = x; o += "d" + sep() + num(x); } else { m.d = 1 - x; o += "Tr" + sep() + num(x); } break; }
				case 6: { size_t q = draw(7); m.tex[q] = word() + ".png"; o += (q == 4 && draw(2) ? "bump" : tex[q]) + std::string(" ") + m.tex[q]; break; }
				default: { std::string key = "Pr" + std::to_string(draw(3)), x = word(); o += key + (draw(2) ? " " : "\t") + x + (draw(2) ? " 2" : ""); x = o.substr(o.rfind(key) + key.size() + 1); m.unknown.insert(std::make_pair(key, x)); break; }
				}
				o += eol();
				if (s.junk > 1 && draw(4) == 0) o += "  # Kd 9 9 9" + eol();
			}
			libmat[w].push_back(m);
		}
		if (s.tail == 1) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
	}
	void vertex(size_t count, int kind) {
		for (size_t i = 0; i < count; ++i) {
			noise(text);
			P3 p = {{ pos(), pos(), pos() }}; v.push_back(p); // (normals are computed from them)
			text += lead() + "v" + sep() + num(p[0]) + sep() + num(p[1]) + sep() + num(p[2]) + (chance(1, 10) ? " 1.0" : "") + eol();
			if (kind & 1 && draw(2)) { t.push_back({{ val(), val() }}); text += lead() + "vt" + sep() + num(t.back()[0]) + sep() + num(t.back()[1]) + (chance(1, 6) ? " 0" : "") + eol(); }
			if (kind & 2 && draw(2)) { P3 q = {{ val(), val(), val() }}; n.push_back(q); text += lead() + "vn" + sep() + num(q[0]) + sep() + num(q[1]) + sep() + num(q[2]) + eol(); }
		}
		if (kind & 1 && t.empty()) { t.push_back({{ val(), val() }}); text += "vt " + num(t.back()[0]) + " " + num(t.back()[1]) + eol(); }
		if (kind & 2 && n.empty()) { n.push_back({{ 0, 0, 1 }}); text += "vn 0 0 1" + eol(); }
	}
	static std::string ref(size_t i, size_t count) { return draw(4) == 3 ? "-" + std::to_string(count - i) : std::to_string(i + 1); }
	void make() {
		text.clear(); v.clear(); n.clear(); t.clear(); groups.clear(); mats.clear(); changes = large = false; faces = 0;
		int libs = (int)draw(3); missing[0] = missing[1] = false;
		for (int w = 0; w < 2; ++w) make_lib(w);
		s = MeshFile::style();
		std::map<std::string, int> by_name; int cur = -1; int next_lib = 0;
		auto mtllib = [&]() {
			if (next_lib >= libs) return;
			int w = next_lib++;
			missing[w] = chance(1, 12);
			text += lead() + "mtllib" + sep() + fname(w) + eol();
			if (missing[w]) { by_name.insert(std::make_pair(std::string(), (int)mats.size())); mats.push_back(Mat()); return; }
			for (auto& m : libmat[w]) { by_name.insert(std::make_pair(m.name, (int)mats.size())); mats.push_back(m); }
		};
		auto usemtl = [&]() {
			std::string nm = "nothing";
			if (!mats.empty() && !chance(1, 6)) nm = mats[draw(mats.size())].name;
			if (nm.empty()) nm = "nothing";
			text += lead() + "usemtl" + sep() + nm + eol();
			auto it = by_name.find(nm); int m = it == by_name.end() ? -1 : it->second;
			if (m != cur) changes = true;
			cur = m;
		};
		noise(text);
		if (!chance(1, 6)) mtllib();
		size_t sections = 1 + draw(5); if (chance(1, 30)) sections += 20;
		std::string name;
		for (size_t k = 0; k < sections; ++k) {
			Group g; g.kind = (int)draw(4);
			vertex(k == 0 ? 3 + draw(6) : draw(5), g.kind);
			if (k || chance(2, 3)) {
				name = word();
				if (chance(1, 8)) { name.clear(); text += lead() + (draw(2) ? "g " : "o ") + eol(); }
				else text += lead() + (draw(2) ? "g" : "o") + sep() + name + (chance(1, 4) ? " more words" : "") + eol();
			}
			g.name = name;
			if (chance(1, 4)) mtllib();
			size_t nf = chance(1, 8) ? 0 : 1 + draw(6); if (chance(1, 60)) nf += 150;
			if (nf) for (size_t i = chance(1, 3) ? 1 + draw(3) : 0; i > 0; --i) {
				Tag a; a.name = word(); for (size_t q = draw(3); q > 0; --q) a.i.push_back((int)range(-9, 99)); for (size_t q = draw(3); q > 0; --q) a.f.push_back(val()); for (size_t q = draw(3); q > 0; --q) a.s.push_back(word());
				text += lead() + "t " + a.name + " " + std::to_string(a.i.size()) + "/" + std::to_string(a.f.size()) + "/" + std::to_string(a.s.size());
				for (auto x : a.i) text += " " + std::to_string(x); for (auto x : a.f) text += " " + num(x); for (auto& x : a.s) text += " " + x;
				text += eol(); g.tags.push_back(a);
			}
			for (size_t i = 0; i < nf; ++i) {
				if (chance(1, 4)) usemtl();
				if (chance(1, 5)) vertex(1 + draw(2), g.kind);
				noise(text);
				size_t c = chance(1, 2) ? 3 : 4 + draw(4); if (chance(1, 80)) c = 40 + draw(216); if (chance(1, 600)) c = 254 + draw(8); large = large || c > 255;
				std::vector<Corner> f;
				text += lead() + "f";
				for (size_t j = 0; j < c; ++j) {
					Corner q = { draw(v.size()), g.kind & 1 ? draw(t.size()) : 0, g.kind & 2 ? draw(n.size()) : 0 };
					f.push_back(q);
					text += sep() + ref(q.v, v.size());
					if (g.kind == 1) text += "/" + ref(q.t, t.size());
					if (g.kind == 2) text += "//" + ref(q.n, n.size());
					if (g.kind == 3) text += "/" + ref(q.t, t.size()) + "/" + ref(q.n, n.size());
				}
				if (s.ws == 3 && draw(3) == 0) text += " ";
				text += eol();
				g.faces.push_back(f); g.mat.push_back(cur); ++faces;
			}
			if (chance(1, 5)) usemtl();
			if (!g.faces.empty()) groups.push_back(g);
		}
		if (s.tail == 1) while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back();
		if (s.tail == 2) noise(text);
	}
};

struct Result { std::vector<tinyobj::shape_t> shapes; std::vector<tinyobj::material_t> mats; std::string err; bool ok; };

// materials straight from a string
struct StringReader : tinyobj::MaterialReader {
	const Doc& d; explicit StringReader(const Doc& x) : d(x) {}
	virtual bool operator()(const std::string& id, std::vector<tinyobj::material_t>& m, std::map<std::string, int>& map, std::string& err) {
		int w = id == Doc::fname(1); std::istringstream in; in.exceptions(std::ios::badbit);
		if (d.missing[w]) err += "missing"; else in.str(d.lib[w]);
		tinyobj::LoadMtl(map, m, in);
		return true;
	}
};
// reads a document in one of several ways; the files are d.obj and the libraries, all under base
inline void read_document(Result& r, const Doc& d, const std::string& obj, const std::string& base, int way, unsigned flags) {
	switch (way) {
	case 0: r.ok = tinyobj::LoadObj(r.shapes, r.mats, r.err, obj.c_str(), base.c_str(), flags); break;
	case 1: { std::istringstream in(d.text); in.exceptions(std::ios::badbit); tinyobj::MaterialFileReader rd(base); r.ok = tinyobj::LoadObj(r.shapes, r.mats, r.err, in, rd, flags); break; }
	default: { std::istringstream in(d.text); in.exceptions(std::ios::badbit); StringReader rd(d); r.ok = tinyobj::LoadObj(r.shapes, r.mats, r.err, in, rd, flags); }
	}
}
template <class D> void fold(D& o, const Result& r) {
	auto str = [&](const std::string& s) { o.u(s.size()); for (char c : s) o.u((uint64_t)(unsigned char)c); };
	o.u(r.ok); str(r.err); o.u(r.shapes.size()); o.u(r.mats.size());
	for (auto& s : r.shapes) {
		str(s.name); auto& m = s.mesh; for (auto x : m.positions) o.num((double)x); for (auto x : m.normals) o.num((double)x); for (auto x : m.texcoords) o.num((double)x); for (auto x : m.indices) o.u(x); for (auto x : m.num_vertices) o.u(x); for (auto x : m.material_ids) o.u((uint64_t)(x + 1));
		for (auto& t : m.tags) { str(t.name); for (auto x : t.intValues) o.u((uint64_t)(x + 100)); for (auto x : t.floatValues) o.num((double)x); for (auto& x : t.stringValues) str(x); }
	}
	for (auto& m : r.mats) { str(m.name); for (int k = 0; k < 3; ++k) { o.num((double)m.ambient[k]); o.num((double)m.diffuse[k]); o.num((double)m.specular[k]); o.num((double)m.transmittance[k]); o.num((double)m.emission[k]); } o.num((double)m.shininess); o.num((double)m.ior); o.num((double)m.dissolve); o.u((uint64_t)m.illum); str(m.ambient_texname); str(m.diffuse_texname); str(m.specular_texname); str(m.bump_texname); str(m.alpha_texname); for (auto& e : m.unknown_parameter) { str(e.first); str(e.second); } }
}
} // namespace h
