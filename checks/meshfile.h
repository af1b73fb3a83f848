// Mesh files as text: a random triangulation written in the triangle
// (.node/.ele) or OBJ format in many equivalent ways.
#pragma once
#include "meshgen.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
namespace h {

struct MeshFile {
	bool obj; bool z;              // z: OBJ loaded through the (x,z) view
	bool rich = false;             // OBJ: material changes anywhere and further groups, none of which is part of the mesh
	Tri g;                         // what the loaded mesh must be
	double tol;
	std::string a, b;              // .node/.ele or .obj/-
	std::vector<size_t> end_a;     // offsets in a at which an item is completely there (triangle: all vertices)
	std::string describe() const { char c[120]; snprintf(c, sizeof c, "%s%s file pair of %zu+%zu bytes, %zu vertices %zu triangles", obj ? "obj" : "triangle", z ? "(x,z)" : "", a.size(), b.size(), g.p.size(), g.t.size()); return c; }

	struct Style { int ws, junk, eol, tail; size_t wide; mutable int left; }; // wide: some gaps and comments are that long
	static Style style() { Style s; s.ws = (int)draw(4); s.junk = (int)draw(4); s.eol = (int)draw(3); s.tail = (int)draw(3); s.wide = s.ws == 3 && chance(1, 12) ? (size_t)pick({ 300, 1100, 5000, 70000 }) : 0; s.left = 4; return s; }
	static std::string eol(const Style& s) { return s.eol == 1 ? "\r\n" : s.eol == 2 && draw(2) ? "\r\n" : "\n"; }
	static std::string sep(const Style& s) { static const char* w[] = { " ", "  ", "\t", " \t " }; if (s.wide && s.left && chance(1, 12)) { --s.left; return std::string(s.wide - draw(60), ' '); } return s.ws ? w[draw(4)] : " "; }
	static std::string lead(const Style& s) { static const char* w[] = { "", " ", "\t", "    " }; return s.ws >= 2 ? w[draw(4)] : ""; }
	static std::string binary() { static const char b[] = "\0\x1a\xff\x80\xc3\xa4\0\x0c"; std::string r; for (size_t n = 1 + draw(3); n; --n) r += b[draw(8)]; return r + " 4 5"; } // any byte may be in a comment
	void noise(std::string& o, const Style& s) const { // comments and blank lines
		while (s.junk && draw(6) >= (uint64_t)(6 - s.junk)) {
			switch (draw(4)) { case 0: o += lead(s); break; case 1: o += lead(s) + "# a comment 1 2 3"; if (draw(4) == 0) o += binary(); break; case 2: o += "#"; break; default: o += std::string(1 + draw(90), ' '); if (draw(2)) o += "# " + std::string(draw(300), 'x'); }
			o += eol(s);
		}
	}
	static std::string num(double v) { // one of several spellings of the same double
		char c[64]; int k = (int)draw(5);
		switch (k) {
		case 1: snprintf(c, sizeof c, "%.6f", v); if (strtod(c, 0) == v) return c; break;
		case 2: snprintf(c, sizeof c, "%.9e", v); if (strtod(c, 0) == v) return c; break;
		case 3: snprintf(c, sizeof c, "%.10E", v); if (strtod(c, 0) == v) return c; break;
		case 4: snprintf(c, sizeof c, "%.17g", v); return c;
		}
		for (int p = 1; p < 18; ++p) { snprintf(c, sizeof c, "%.*g", p, v); if (strtod(c, 0) == v) break; }
		return c;
	}
	static std::string n2s(size_t n) { char c[32]; snprintf(c, sizeof c, "%zu", n); return c; }

	void make_triangle(size_t maxn, double scale = 0) {
		obj = z = false; tol = 0;
		g = random_tri(maxn, scale > 0 ? false : chance(1, 3), scale > 0 ? scale : pick({ 1.0, 0.1, 1000.0, 1e-6 }));
		Style s = style(); size_t base = draw(2);
		int at = (int)draw(3), bm = (int)draw(2), ea = (int)draw(2);
		a.clear(); b.clear();
		noise(a, s);
		a += lead(s) + n2s(g.p.size()) + sep(s) + "2" + sep(s) + n2s((size_t)at) + sep(s) + n2s((size_t)bm) + (s.junk > 1 ? " # points" : "") + eol(s);
		for (size_t i = 0; i < g.p.size(); ++i) {
			noise(a, s);
			a += lead(s) + n2s(i + base) + sep(s) + num(g.p[i][0]) + sep(s) + num(g.p[i][1]);
			for (int k = 0; k < at; ++k) a += sep(s) + num((double)range(-50, 50));
			if (bm) a += sep(s) + n2s(draw(2));
			if (s.junk > 2 && draw(4) == 0) a += " # v"; if (s.wide && s.left && chance(1, 10)) --s.left, a += " # " + std::string(s.wide - draw(60), 'x') + " 1 2 3";
			if (i + 1 < g.p.size() || s.tail != 1) a += eol(s);
		}
		if (s.tail == 2) noise(a, s);
		Style q = style();
		noise(b, q);
		b += lead(q) + n2s(g.t.size()) + sep(q) + "3" + sep(q) + n2s((size_t)ea) + eol(q);
		for (size_t i = 0; i < g.t.size(); ++i) {
			noise(b, q);
			b += lead(q) + n2s(i + base);
			for (int k = 0; k < 3; ++k) b += sep(q) + n2s(g.t[i][k] + base);
			if (ea) b += sep(q) + n2s(draw(9));
			if (q.junk > 2 && draw(4) == 0) b += "# e";
			if (i + 1 < g.t.size() || q.tail != 1) b += eol(q);
		}
		if (q.tail == 2) noise(b, q);
	}
	void make_obj(size_t maxn, bool force_z = false, double scale = 0) {
		obj = true; z = force_z || draw(2); tol = 1e-5;
		Tri r = random_tri(maxn, chance(1, 3), scale > 0 ? scale : pick({ 1.0, 0.1, 100.0 }));
		Style s = style(); a.clear(); b.clear();
		int kind = (int)draw(4);       // v, v/vt, v//vn, v/vt/vn
		bool rel = chance(1, 4), inter = chance(1, 4), quads = chance(1, 3);
		int prelude = (int)draw(6);
		noise(a, s);
		if (prelude == 1) a += "o Object" + eol(s);
		if (prelude == 2) a += "g some group" + eol(s);
		if (prelude == 3) a += "mtllib missing.mtl" + eol(s);
		if (prelude == 4) a += "mtllib some.mtl" + eol(s);
		size_t nv = 0;
		auto vertex = [&](size_t i) {
			noise(a, s);
			std::string o = num((double)range(-9, 9)), y = num(r.p[i][1]), x = num(r.p[i][0]);
			a += lead(s) + "v" + sep(s) + x + sep(s) + (z ? o : y) + sep(s) + (z ? y : o) + eol(s);
			if (kind & 1) a += "vt " + num((double)draw(8) / 8) + " " + num((double)draw(8) / 8) + eol(s);
			if (kind & 2) a += "vn 0 0 1" + eol(s);
			++nv;
		};
		if (!inter) for (size_t i = 0; i < r.p.size(); ++i) vertex(i);
		if (prelude == 5) a += "s off" + eol(s);
		g.p.clear(); g.t.clear();
		std::map<size_t, size_t> to;
		for (size_t e = 0; e < r.t.size(); ++e) {
			std::vector<size_t> f(r.t[e].begin(), r.t[e].end());
			while (quads && e + 1 < r.t.size() && r.t[e + 1][0] == f[0] && r.t[e + 1][1] == f.back()) f.push_back(r.t[++e][2]);
			if (inter) for (auto v : f) while (nv <= v) vertex(nv);
			noise(a, s);
			if (rich && chance(1, 3)) a += lead(s) + "usemtl" + sep(s) + pick({ "red", "blue", "none" }) + eol(s);
			a += lead(s) + "f";
			for (auto v : f) {
				std::string i = rel ? "-" + n2s(nv - v) : n2s(v + 1);
				a += sep(s) + i + (kind == 1 ? "/" + i : kind == 2 ? "//" + i : kind == 3 ? "/" + i + "/" + i : "");
			}
			if (s.ws == 3 && draw(3) == 0) a += " ";
			if (e + 1 < r.t.size() || s.tail != 1) a += eol(s);
			for (size_t k = 2; k < f.size(); ++k) {
				Tr t; size_t c[3] = { f[0], f[k - 1], f[k] };
				for (int j = 0; j < 3; ++j) { auto ins = to.insert(std::make_pair(c[j], to.size())); if (ins.second) g.p.push_back(r.p[c[j]]); t[j] = ins.first->second; }
				g.t.push_back(t);
			}
		}
		if (rich && !r.t.empty()) {
			if (s.tail == 1) a += eol(s);
			if (chance(1, 3)) a += lead(s) + "usemtl" + sep(s) + pick({ "blue", "red" }) + (s.tail == 1 ? "" : eol(s));
			if (chance(1, 4)) { if (a.back() != '\n') a += eol(s); a += std::string(pick({ "g", "o" })) + " more" + eol(s); if (draw(2)) a += "v 1 2 3" + eol(s); if (draw(2)) a += "usemtl red" + eol(s); if (draw(2)) a += "f 1 2 3" + (s.tail == 1 ? "" : eol(s)); }
		}
		if (s.tail == 2) noise(a, s);
	}
	void make(size_t maxn, int obj_percent = 45) { if ((int)draw(100) >= 100 - obj_percent) make_obj(maxn); else make_triangle(maxn); }
	void make_huge(size_t n) { // more vertices and triangles than 16 bits can count
		obj = draw(2); z = obj && draw(2); tol = 0; g = band_tri(n); a.clear(); b.clear(); end_a.clear(); const size_t base = obj ? 1 : draw(2); char c[96];
		if (!obj) { a = n2s(g.p.size()) + " 2 0 0\n"; b = n2s(n) + " 3 0\n"; }
		for (size_t i = 0; i < g.p.size(); ++i) { int x = (int)g.p[i][0], y = (int)g.p[i][1]; if (obj) snprintf(c, sizeof c, z ? "v %d 7 %d\n" : "v %d %d 7\n", x, y); else snprintf(c, sizeof c, "%zu %d %d\n", i + base, x, y); a += c; }
		for (size_t i = 0; i < n; ++i) { auto& t = g.t[i]; if (obj) { snprintf(c, sizeof c, "f %zu %zu %zu\n", t[0] + 1, t[1] + 1, t[2] + 1); a += c; } else { snprintf(c, sizeof c, "%zu %zu %zu %zu\n", i + base, t[0] + base, t[1] + base, t[2] + base); b += c; } }
	}
	void put(const char* na, const char* nb) const {
		sim::fs_put(na, a.data(), a.size());
		if (!obj) sim::fs_put(nb, b.data(), b.size());
	}
};
inline Mesh2 load_file(const MeshFile& f, const char* na, const char* nb) {
	if (!f.obj) return NS::MeshTriangleLoader<double>::loadFile(na, nb);
	return f.z ? NS::MeshObjLoader<double, 2>::loadFile(na) : NS::MeshObjLoader<double>::loadFile(na);
}
inline Mesh2 load_string(const MeshFile& f, const std::string& a, const std::string& b) {
	if (!f.obj) return NS::MeshTriangleLoader<double>::loadString(a, b);
	return f.z ? NS::MeshObjLoader<double, 2>::loadString(a) : NS::MeshObjLoader<double>::loadString(a);
}
// Loads into *out (which must be null); the mesh lives until the caller deletes it inside a Lib scope.
template <class F> Outcome load_into(Mesh2*& out, F f, uint64_t k = 0, bool sticky = false) { return attempt([&]() { out = new Mesh2(f()); }, k, sticky); }
inline void drop(Mesh2*& m) { sim::Lib l; delete m; m = nullptr; }
} // namespace h
