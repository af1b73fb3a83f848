// Deterministic programs over the whole library, as functions of a parameter
// list, folding everything they observe into a digest.
#pragma once
#include "meshfile.h"
#include "vtkmodel.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixConverter.h"
#include "OutputStream.h"
#include <sstream>
#include "matrix/FixedMatrix.h"
#include "quadrature/Quadrature.h"
#include "Iterative.h"
#include "CG.h"
#include "LU.h"
namespace h {
typedef std::complex<double> C;

struct Par {
	uint64_t v[160]; size_t i;
	Par() : i(0) {}
	void fill() { for (auto& e : v) e = 0; size_t n = 10 + draw(150); for (size_t q = 0; q < n; ++q) v[q] = draw(1 << 20); i = 0; }
	uint64_t operator()(uint64_t n) { uint64_t r = v[i % 160] % n; ++i; return r; }
	double num() { return (double)(int64_t)(*this)(9) - 4; }
};
template <class T> struct Num { static T get(Par& p) { return T(p.num()); } };
template <> struct Num<C> { static C get(Par& p) { double a = p.num(); return p(2) ? C(a, p.num()) : C(a, 0); } };

struct Dig {
	uint64_t h; struct Marks { uint64_t v[96]; size_t n; Marks() : n(0) {} } at;      // running digest and its value at every mark
	Dig() : h(1) {}
	void u(uint64_t x) { h = sim::mix(h, x); }
	void num(double x) { if (x != x) { u(0x7ff8); return; } x += 0.0; uint64_t b; memcpy(&b, &x, 8); u(b); }
	void num(C x) { num(x.real()); num(x.imag()); }
	void num(size_t x) { u(x); }
	template <class V> void vec(const V& v) { u(v.size()); for (size_t i = 0; i < v.size(); ++i) num(v.linear_at(i)); }
	template <class M> void mat(const M& m) { u(m.rows()); u(m.columns()); for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.columns(); ++j) num(m.at(i, j)); }
	template <class It> void walk(It b, It e) { size_t n = 0; for (It it = b; it != e; ++it) { u(it.row()); u(it.column()); num(*it); if (++n > 100000) { u(77); break; } } u(n); }
	void simplex(const NS::Simplex<double, 2>& s, bool prepared) { for (int k = 0; k < 3; ++k) vec(s[k]); if (prepared) { num(s.determinant()); mat(s.matrix()); } }
	void mesh(const Mesh2& m, bool prepared) {
		u(m.vertices().size()); u(m.elements().size()); u(m.edges().size());
		for (auto v : m.vertices()) { vec(v->Vertex); u(v->GlobalIndex); u(v->Flags); uint64_t s = 0; for (auto e : v->Elements) s += sim::mix(3, e->Vertices[0]->GlobalIndex * 10007 + e->Vertices[1]->GlobalIndex); u(s); }
		for (auto e : m.elements()) { for (int k = 0; k < 3; ++k) { u(e->Vertices[k]->GlobalIndex); auto g = e->Neighbors[k]; u(g ? sim::mix(g->Vertices[0]->GlobalIndex + g->Vertices[1]->GlobalIndex, (g->Elements[0] != nullptr) + (g->Elements[1] != nullptr)) : 5); } simplex(e->Element, prepared); u(e->DOFVertices.size()); for (auto v : e->DOFVertices) u(v->GlobalIndex); }
		uint64_t s = 0; for (auto g : m.edges()) { uint64_t t = sim::mix(std::min(g->Vertices[0]->GlobalIndex, g->Vertices[1]->GlobalIndex), std::max(g->Vertices[0]->GlobalIndex, g->Vertices[1]->GlobalIndex)); uint64_t d = 0; for (auto v : g->DOFVertices) d += sim::mix(9, v->GlobalIndex); s += sim::mix(t, d + (g->Elements[0] != nullptr) + (g->Elements[1] != nullptr)); }
		u(s);
	}
	void mark() { if (at.n < 96) at.v[at.n++] = h; else at.v[95] = h; }
};
} // namespace h
