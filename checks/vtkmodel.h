// A random mesh with data arrays, exporting it, and comparing the document.
#pragma once
#include "meshgen.h"
#include "vtk.h"
#include "export/VTKExporter.h"
namespace h {
struct Export {
	typedef NS::DynamicVector<double> V;
	Tri g; int order; int options; Mesh2* m; bool boundary;
	std::map<std::string, std::vector<double> > pd, cd;
	std::map<std::string, V*> pv, cv;
	Export() : order(1), options(0), m(nullptr), boundary(false) {}
	~Export() { sim::Lib l; clear(); }
	void clear() {
		delete m; m = nullptr;
		for (auto& q : pv) delete q.second;
		for (auto& q : cv) delete q.second;
		std::map<std::string, V*>().swap(pv); std::map<std::string, V*>().swap(cv);
	}
	static double value() {
		switch (draw(20)) { case 18: return (double)range(1, 999999) * (chance(1, 2) ? 1e60 : 1e-60); case 19: return (double)range(-999999, 999999) * (chance(1, 2) ? 1e295 : 1e-300);
			case 0: case 6: case 12: return (double)range(-9, 9); case 1: case 7: case 13: return (double)range(-99999, 99999); case 2: case 8: case 14: return (double)range(-1000000, 1000000) / 1024;
			case 3: case 9: case 15: return (double)range(1, 999) * 1e-12; case 4: case 10: case 16: return (double)range(1, 999999) * 1e15; default: return (double)range(0, 1000000) / 1e6; }
	}
	void random(size_t maxn) {
		bool empty = chance(1, 24);
		bool huge = maxn > 100; // too big to be drawn number by number
		if (huge) {
			size_t nx = 100 + draw(60), ny = 110 + draw(20); empty = false;
			for (size_t i = 0; i <= ny; ++i) for (size_t j = 0; j <= nx; ++j) g.p.push_back(Pt{ { (double)j, (double)i } });
			for (size_t i = 0; i < ny; ++i) for (size_t j = 0; j < nx; ++j) { size_t a = i * (nx + 1) + j, b = a + nx + 1; g.t.push_back(Tr{ { a, b, b + 1 } }); g.t.push_back(Tr{ { a, b + 1, a + 1 } }); }
		} else if (!empty) g = random_tri(maxn, false, pick({ 1.0, 0.0625, 1000.0, 3.3333333 }));
		order = empty ? 0 : (int)range(1, 2);
		boundary = chance(1, 2);
		options = chance(1, 6) ? 0 : (int)draw(32); if (order == 2) options |= NS::VOO_IsQuadratic;
		{ sim::Lib l;
			m = new Mesh2();
			if (!empty) {
				build(*m, g);
				if (boundary) m->setupBoundaries();
				if (order == 1) NS::PolyShapePolicy<double, 2, 1>::prepareMesh(*m);
				if (order == 2) NS::PolyShapePolicy<double, 2, 2>::prepareMesh(*m);
				m->prepare();
			}
		}
		static const char* names[] = { "u", "Result", "error of node", "a", "Z_9", "x.y-z", "a<b & \"c\">" };
		for (int k = 0; k < 2; ++k) {
			auto& dst = k ? cd : pd; size_t n = k ? g.t.size() : m->vertices().size();
			int c = (int)draw(4);
			for (int i = 0; i < c; ++i) { auto& v = dst[names[draw(chance(1, 4) ? 7 : 6)]]; v.clear(); for (size_t q = 0; q < n; ++q) v.push_back(huge ? (double)(q % 1009) / 4 : value()); }
			for (auto& q : dst) {
				V* d; { sim::Lib l; d = new V(q.second.size()); for (size_t i = 0; i < q.second.size(); ++i) d->set(i, q.second[i]); }
				(k ? cv : pv)[q.first] = d;
			}
		}
		note("mesh %zu vertices %zu triangles order %d options %d point arrays %zu cell arrays %zu", m->vertices().size(), g.t.size(), order, options, pd.size(), cd.size());
	}
	Outcome write(const char* path, uint64_t k = 0) {
		std::string p(path);
		return attempt([&]() { if (options) NS::VTKExporter<double, 2>::write<V>(p, *m, pv, cv, options); else NS::VTKExporter<double, 2>::write<V>(p, *m, pv, cv); }, k);
	}
	void check_doc(const std::string& doc, const char* w) {
		Vtk d; VtkReader r(doc);
		if (!r.read(d)) fail("document", "%s: not a complete document: %s", w, r.err.c_str());
		auto& V = m->vertices(); auto& E = m->elements();
		SIM_CHECK(d.points == V.size() && d.cells == E.size(), "header", "%s: header announces %zu points and %zu cells, mesh has %zu and %zu", w, d.points, d.cells, V.size(), E.size());
		SIM_CHECK(d.pts.attr["NumberOfComponents"] == "3" && d.pts.v.size() == 3 * V.size(), "points", "%s: %zu numbers for %zu points", w, d.pts.v.size(), V.size());
		for (size_t i = 0; i < V.size(); ++i) for (int k = 0; k < 3; ++k) { double e = k < 2 ? V[i]->Vertex.at(k) : 0; SIM_CHECK(printed(d.pts.v[3 * i + k], e), "points", "%s: point %zu coordinate %d is %s, expected %s", w, i, k, str(d.pts.v[3 * i + k]), str(e)); }
		SIM_CHECK(d.cellsec.size() == 3, "cells", "%s: %zu arrays in the cells section", w, d.cellsec.size());
		const VtkArray *co = vtk_find(d.cellsec, "connectivity"), *of = vtk_find(d.cellsec, "offsets"), *ty = vtk_find(d.cellsec, "types");
		SIM_CHECK(co && of && ty, "cells", "%s: connectivity, offsets or types missing", w);
		std::vector<double> conn;
		for (auto e : E) for (auto v : e->DOFVertices) conn.push_back((double)v->GlobalIndex);
		SIM_CHECK(co->v == conn, "connectivity", "%s: connectivity differs from the elements' nodes (%zu numbers, expected %zu)", w, co->v.size(), conn.size());
		SIM_CHECK(of->v.size() == E.size() && ty->v.size() == E.size(), "cells", "%s: %zu offsets and %zu types for %zu cells", w, of->v.size(), ty->v.size(), E.size());
		size_t per = order == 2 ? 6 : 3;
		for (size_t i = 0; i < E.size(); ++i) {
			SIM_CHECK(of->v[i] == (double)((i + 1) * per), "offsets", "%s: offset %zu is %s", w, i, str(of->v[i]));
			SIM_CHECK(ty->v[i] == (order == 2 ? 22 : 5), "types", "%s: cell type %zu is %s", w, i, str(ty->v[i]));
		}
		size_t np = pd.size(), nc = cd.size(), cnt;
		for (int k = 0; k < 2; ++k) for (auto& q : k ? cd : pd) {
			const VtkArray* a = vtk_find(k ? d.cdata : d.pdata, q.first, &cnt);
			SIM_CHECK(a && cnt == 1, "array-name", "%s: %s array '%s' appears %zu times", w, k ? "cell" : "point", q.first.c_str(), cnt);
			SIM_CHECK(a->v.size() == q.second.size(), "array-values", "%s: array '%s' has %zu values, expected %zu", w, q.first.c_str(), a->v.size(), q.second.size());
			for (size_t i = 0; i < a->v.size(); ++i) SIM_CHECK(printed(a->v[i], q.second[i]), "array-values", "%s: array '%s' value %zu is %s, expected %s", w, q.first.c_str(), i, str(a->v[i]), str(q.second[i]));
		}
		struct Opt { int bit; const char* name; bool cell; size_t comp; };
		static const Opt opts[] = { { NS::VOO_VertexBoundaryLabel, "BoundaryLabel", false, 1 }, { NS::VOO_VertexImplicitLabel, "ImplicitLabel", false, 1 },
			{ NS::VOO_ElementDeterminant, "ElementDeterminant", true, 1 }, { NS::VOO_ElementMatrix, "ElementMatrix", true, 4 }, { NS::VOO_ElementGradient, "ElementGradient", true, 2 } };
		for (auto& o : opts) {
			const VtkArray* a = vtk_find(o.cell ? d.cdata : d.pdata, o.name, &cnt);
			if (!(options & o.bit)) { SIM_CHECK(!a, "optional-array", "%s: array %s was not requested", w, o.name); continue; }
			SIM_CHECK(a && cnt == 1, "optional-array", "%s: requested array %s appears %zu times", w, o.name, cnt);
			(o.cell ? nc : np)++;
			size_t n = (o.cell ? E.size() : V.size()) * o.comp;
			SIM_CHECK(a->v.size() == n, "optional-array", "%s: array %s has %zu values, expected %zu", w, o.name, a->v.size(), n);
			auto ca = a->attr.find("NumberOfComponents");
			size_t comp = ca == a->attr.end() ? 1 : strtoull(ca->second.c_str(), nullptr, 10);
			SIM_CHECK(comp == o.comp, "optional-array", "%s: array %s declares %zu components, expected %zu", w, o.name, comp, o.comp);
			for (size_t i = 0; i < V.size() && !o.cell; ++i) {
				bool f = V[i]->Flags & (o.bit == NS::VOO_VertexBoundaryLabel ? NS::MVF_StrongBoundary : NS::MVF_Implicit);
				SIM_CHECK(a->v[i] == (f ? 1 : 0), "optional-array", "%s: %s of vertex %zu is %s", w, o.name, i, str(a->v[i]));
			}
			for (size_t i = 0; i < E.size() && o.cell; ++i) {
				const Pt &p0 = g.p[g.t[i][0]], &p1 = g.p[g.t[i][1]], &p2 = g.p[g.t[i][2]];
				double a00 = p1[0] - p0[0], a01 = p2[0] - p0[0], a10 = p1[1] - p0[1], a11 = p2[1] - p0[1], det = a00 * a11 - a01 * a10;
				double want[4]; size_t c = o.comp;
				if (c == 1) want[0] = det;
				else if (c == 4) { want[0] = a00; want[1] = a01; want[2] = a10; want[3] = a11; }
				else { want[0] = (p1[1] - p2[1]) / det; want[1] = (p2[0] - p1[0]) / det; }
				for (size_t q = 0; q < c; ++q) SIM_CHECK(std::fabs(a->v[i * c + q] - want[q]) <= 5e-5 * std::fabs(want[q]) + 1e-9 * std::fabs(a00 + a11), "optional-array", "%s: %s of element %zu is %s, expected %s", w, o.name, i, str(a->v[i * c + q]), str(want[q]));
			}
		}
		auto sc = d.pattr.find("Scalars");
		if (sc != d.pattr.end()) SIM_CHECK(vtk_find(d.pdata, sc->second), "array-name", "%s: the active scalars '%s' are not among the point arrays", w, sc->second.c_str());
		SIM_CHECK(d.pdata.size() == np && d.cdata.size() == nc, "array-count", "%s: %zu point and %zu cell arrays, expected %zu and %zu", w, d.pdata.size(), d.cdata.size(), np, nc);
	}
};
inline std::string file_text(const char* path) { const char* d; size_t n; if (!sim::fs_get(path, &d, &n)) return std::string(); return std::string(d, n); }
} // namespace h
