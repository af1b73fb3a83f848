// C02: threads working on separate objects never influence each other.
#include "readers.h"
#include "objdoc.h"
using namespace NS;
using namespace h;

// One thread's work: a program, its parameters, its files.
struct Work {
	unsigned kind; Par p; MeshFile f; std::string fa, fb, out; Tri tri; Doc doc; int options; bool damaged;
	Dig::Marks marks, solo; bool oom; bool planned;
};
struct Thrown { int id; };
// One library call; how it ended becomes part of the digest.
template <class F> static void call(Work& w, Dig& d, F f) {
	try { f(); d.u(11); }
	catch (const std::bad_alloc&) { w.oom = true; throw; }
	catch (const Thrown& t) { d.u(12 + (uint64_t)t.id); }
	catch (const NSException& e) { for (const char* c = typeid(e).name(); *c; ++c) d.u((uint64_t)*c); }
	catch (const std::exception& e) { for (const char* c = typeid(e).name(); *c; ++c) d.u((uint64_t)*c); }
	d.mark();
}
template <class T> static void sparse(Work& w, Dig& o) {
	typedef SparseMatrix<T> S; typedef DynamicVector<T> V; Par& p = w.p;
	size_t n = 1 + p(5), m = p(3) ? n : 1 + p(5);
	S a(n, m), b(n, m), c(n, m); V x(m), y(n); x.fill(T(1)); y.fill(T(2));
	for (size_t q = 4 + p(14); q--;) {
		size_t i = p(n), j = p(m); T v = Num<T>::get(p); unsigned k = (unsigned)p(21);
		call(w, o, [&]() {
			switch (k) {
			case 0: case 1: case 2: case 3: case 4: a.set(i, j, v); break;
			case 5: b.set(i, j, v); break;
			case 6: a += b; break;
			case 7: a -= b; break;
			case 8: a *= b; break;
			case 9: a *= v; break;
			case 10: o.mat(a.transpose()); break;
			case 11: o.mat(a.mul(b.transpose())); break;
			case 12: { V r = a.mul(x); o.vec(r); break; }
			case 13: { V r = a.mul_left(y); o.vec(r); break; }
			case 14: { S d(a); d.set(i, j, v); c = d; break; }
			case 15: b = a; break;
			case 16: { S d(b); d.swap(a); break; }
			case 17: if (a.begin() != a.end()) a.erase(a.begin()); break;
			case 18: { S d = a + b; S e = a - b; S f = -a; o.mat(d); o.mat(e); o.mat(f); break; }
			case 19: { S z = { { v, T(1), v }, { T(2), v, T(3) } }; o.mat(z); o.walk(a.column_begin(j), a.column_end(j)); o.walk(a.row_begin(i), a.row_end(i)); break; }
			default: o.num(a.sum()); o.u(a.filled_count() + 9 * a.row_filled_count(i) + 81 * a.column_filled_count(j)); o.u(a == b); o.u(a.has_zero()); o.walk(a.begin(), a.end()); break;
			}
			o.num(a.at(i, j)); o.u(a.filled_count());
		});
	}
	o.mat(a); o.mat(b); o.mat(c);
}
template <class T> static void dense(Work& w, Dig& o) {
	typedef DenseMatrix<T> D; typedef DynamicVector<T> V; Par& p = w.p;
	size_t n = 1 + p(4), m = p(3) ? n : 1 + p(4);
	D a(n, m), b(n, m); V x(m), y(n); FixedMatrix<T, 2, 3> f; FixedVector<T, 3> g;
	for (size_t q = 4 + p(12); q--;) {
		size_t i = p(n), j = p(m); T v = Num<T>::get(p); unsigned k = (unsigned)p(15);
		call(w, o, [&]() {
			switch (k) {
			case 0: a.set(i, j, v); b.set(j % n, i % m, v); break;
			case 1: a += b; break;
			case 2: a -= b; a *= v; break;
			case 3: o.mat(a.transpose()); o.mat(a.adjugate()); break;
			case 4: o.mat(a.mul(b.transpose())); break;
			case 5: { V r = a.mul(x); o.vec(r); V s = a.mul_left(y); o.vec(s); break; }
			case 6: { D d = a + b; D e = -a; o.mat(d); o.mat(e); break; }
			case 7: { D d(a); d.swap(b); break; }
			case 8: { D z = { { v, T(1), v }, { T(2), v, T(3) } }; V q = { v, T(1), T(2), v }; FixedVector<T, 3> u = { v, T(1), T(2) }; FixedMatrix<T, 2, 2> e = { { v, T(1) }, { T(2), v } }; o.mat(z); o.vec(q); o.vec(u); o.mat(e); } x[j] = v; y[i] = v; x += x; break;
			case 9: { V r = x * v; V s = v + x; o.vec(r); o.vec(s); V q = r - s; o.vec(q); q = v - x; o.vec(q); q = x - v; o.vec(q); q = r * s; o.vec(q); q = r + s; o.vec(q); q = x / (v + T(1000)); o.vec(q); break; }
			case 10: f.set(i % 2, j % 3, v); g[j % 3] = v; { auto t = f.transpose(); auto u = f.mul(t); o.mat(u); FixedVector<T, 2> r = f.mul(g); o.vec(r); o.num(Operations::determinant(u)); } break;
			case 11: { V r = x.normalized(); o.vec(r); o.num(x.dot(x)); break; }
			case 12: o.num(Operations::determinant(a)); break;
			case 13: o.mat(Operations::inverse(a)); break;
			default: o.u(a == b); o.num(a.sum()); o.num(a.trace()); o.num(x.sum()); break;
			}
		});
	}
	o.mat(a); o.mat(b); o.vec(x); o.vec(y); o.mat(f);
}
template <class T, class M> static M matrix(Par& p, size_t n, bool spd) {
	M a(n, n); int dens = (int)p(3);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (!dens || p(3)) a.set(i, j, Num<T>::get(p));
	if (spd) { M t = a.adjugate(); a += t; for (size_t i = 0; i < n; ++i) a.set(i, i, T(40)); }
	else if (p(2)) for (size_t i = 0; i < n; ++i) a.set(i, i, T((double)p(5)));
	return a;
}
template <class M> struct Ilu { static void run(const M&, Dig&) {} };
template <class T> struct Ilu<SparseMatrix<T> > { static void run(const SparseMatrix<T>& a, Dig& o) { SparseMatrix<T> l(a.rows(), a.rows()), u(a.rows(), a.rows()); LU::serial::ilu0(a, l, u); o.mat(l); o.mat(u); } };
template <class T, class M> static void direct(Work& w, Dig& o) {
	namespace S = LU::serial; typedef DynamicVector<T> V; Par& p = w.p;
	size_t n = 1 + p(5); M L(n, n), U(n, n), P(n, n); V b(n);
	for (size_t q = 1 + p(4); q--;) {
		bool spd = p(2); uint64_t k = p(7); for (size_t i = 0; i < n; ++i) b[i] = Num<T>::get(p);
		call(w, o, [&]() {
			M a = matrix<T, M>(p, n, spd);
			switch (k) {
			case 0: case 1: { size_t c = 0; S::doolittle(a, L, U, P, &c); o.mat(L); o.mat(U); o.mat(P); o.u(c); break; }
			case 2: S::cholesky(a, L); o.mat(L); break;
			case 3: { S::doolittle(a, L, U, P); V x = S::solve_lu(L, U, b); o.vec(x); break; }
			case 4: { M i = Operations::inverse(a); o.mat(i); S::doolittle(a, L, U, P); i = Operations::inverse(L, U); o.mat(i); break; }
			case 5: o.num(Operations::determinant(a)); break;
			default: Ilu<M>::run(a, o); break;
			}
		});
	}
}
template <class T> struct Cg { template <class M, class V> static void run(const M&, const V&, V&, size_t, bool, Dig&) {} };
template <> struct Cg<double> { template <class M, class V> static void run(const M& a, const V& b, V& x, size_t k, bool pre, Dig& o) { size_t st = 0; if (!pre) x = CG::serial::cg(a, b, x, k, 1e-10, &st); else { M c(a.rows(), a.rows()); CG::serial::jacobi(a, c); o.mat(c); x = CG::serial::pcg(a, b, c, x, k, 1e-10, &st); } o.u(st); } };
template <class T, class M> static void iterative(Work& w, Dig& o) {
	typedef DynamicVector<T> V; Par& p = w.p; size_t n = 1 + p(5); V b(n), x(n); size_t st = 0;
	for (size_t i = 0; i < n; ++i) b[i] = Num<T>::get(p);
	for (size_t q = 1 + p(3); q--;) {
		uint64_t k = p(4); size_t budget = 1 + p(6);
		call(w, o, [&]() {
			M a = matrix<T, M>(p, n, p(5) != 0);
			if (k == 0) x = Iterative::serial::jacobi(a, b, x, budget, 1e-8, &st);
			else if (k == 1) x = Iterative::serial::sor(a, b, x, 1.25, budget, 1e-8, &st);
			else Cg<T>::run(a, b, x, budget, k == 3, o);
			o.vec(x); o.u(st);
		});
	}
}
static void ordering(Work& w, Dig& o) {
	typedef SparseMatrix<double> S; Par& p = w.p; size_t n = 1 + p(7);
	for (size_t q = 1 + p(3); q--;) call(w, o, [&]() {
		S a(n, n);
		for (size_t i = 0; i < n; ++i) { a.set(i, i, 4); for (size_t j = 0; j < i; ++j) if (!p(3)) { a.set(i, j, (double)p(9)); a.set(j, i, 1); } }
		DynamicVector<Index> r = p(2) ? cuthill_mckee(a) : r_cuthill_mckee(a); o.vec(r);
		DynamicVector<Index> v = inverse_permutation(r); o.vec(v);
		S m = permutate(a, r); o.mat(m); S b = permutate(m, v); o.u(b == a); DynamicVector<double> x(n); for (size_t i = 0; i < n; ++i) x[i] = (double)i; DynamicVector<double> y = permutate(x, r); o.vec(y);
		DenseMatrix<double> dm = Convert::toDenseMatrix(m); o.mat(dm); S sm = Convert::toSparseMatrix(dm); o.mat(sm);
		std::ostringstream text; text.exceptions(std::ios::badbit); text << a << dm << x; std::string t = text.str(); for (char c : t) o.u((uint64_t)(unsigned char)c);
	});
}
template <template <typename> class M> static void construct(Work& w, Dig& o) {
	typedef double T; Par& p = w.p; size_t n = 1 + p(4), m = p(2) ? n : 1 + p(4);
	for (size_t q = 1 + p(2); q--;) call(w, o, [&]() {
		M<T> e = Construct::eye<M, T>(n, m); o.mat(e); DynamicVector<T> d(n); d.fill(3);
		M<T> g = Construct::diag<M, T>(d); o.mat(g); DynamicVector<T> dd = Construct::diag(g); o.vec(dd);
		M<T> l = Construct::tril(e, (int32)p(4) - 2), u = Construct::triu(e, (int32)p(4) - 2); o.mat(l); o.mat(u);
		M<T> h = Construct::hilbert<M, T>(1 + p(3)), i = Construct::inv_hilbert<M, T>(1 + p(3)); o.mat(h); o.mat(i);
		o.u(Check::matrixIsSymmetric(h)); o.u(Check::matrixIsOrthogonal(g)); o.u(Check::matrixIsUnitary(g)); o.u(Check::matrixIsHermitian(e)); o.u(Check::matrixIsProjection(i));
		o.num(Operations::max_norm2(g)); o.num(Operations::cond(h));
	});
}
typedef FixedVector<double, 2> P2; typedef FixedVector<double, 1> P1;
static void quadratures(Work& w, Dig& o) {
	Par& p = w.p;
	for (size_t q = 1 + p(4); q--;) call(w, o, [&]() {
		GaussLegendreQuadrature<double, 2, 2> a; GaussLegendreQuadrature<double, 2, 3> b; GaussLegendreQuadrature<double, 1, 3> c; GaussLegendreQuadrature<double, 1, 2> d;
		double s = p.num(); int at = p(3) ? -1 : (int)p(4), seen = 0;
		o.num(a.eval([&](const P2& x) -> double { o.vec(x); return s * x[0] + c.eval([&](const P1& y) -> double { return y[0] * x[1]; }); }));
		o.num(b.eval_index([&](Index i, const P2& x) -> double { if (seen++ == at) throw Thrown{ 1 }; o.u(i); return x[0] * x[1] * d.eval([](const P1& y) -> double { return y[0]; }); }, s));
		PolyShapeFunction<double, 2, 1> s1; PolyShapeFunction<double, 2, 2> s2; P2 x; x[0] = s / 8; x[1] = 0.25;
		for (Index i = 0; i < 3; ++i) { o.num(s1.value(i, x)); o.vec(s1.gradient(i, x)); }
		for (Index i = 0; i < 6; ++i) { o.num(s2.value(i, x)); o.vec(s2.gradient(i, x)); o.vec(s2.gradient2(i, x)); }
		Simplex<double, 2> t; for (int k = 0; k < 3; ++k) for (int e = 0; e < 2; ++e) t[k][e] = p.num() + (k == 1 && !e ? 20 : 0) + (k == 2 && e ? 20 : 0); t.prepare();
		o.num(t.volume()); { double c = p.num(); Simplex<double, 2> z = { { 0, 0 }, { 30 + c, 0 }, { c, 20 } }; z.prepare(); o.num(z.volume()); o.vec(z[1]); o.vec(z.toLocal(x)); } o.vec(t.toLocal(x)); o.vec(t.toGlobal(x)); for (int k = 0; k < 3; ++k) { o.vec(t.gradient(k)); o.vec(t.faceNormal(k)); o.vec(t.faceCenter(k)); } o.num(t.diameter()); o.vec(t.center()); o.num(t.outerRadius());
	});
}
static void building(Work& w, Dig& o) {
	Par& p = w.p; Mesh2 m; bool pre = false;
	for (size_t q = 1 + p(3); q--;) {
		uint64_t k = p(3);
		call(w, o, [&]() {
			m.clear(); pre = false;
			if (k == 0) { FixedVector<Dimension, 2> e; e[0] = 1 + p(3); e[1] = 1 + p(3); P2 s, f; s[0] = 1; s[1] = 2; f[0] = p.num(); m = HyperCube<double, 2>::generate(e, s, f); }
			else build(m, w.tri);
			o.mesh(m, false);
		});
		call(w, o, [&]() { if (p(2)) m.setupBoundaries(); if (p(2)) PolyShapePolicy<double, 2, 1>::prepareMesh(m); else PolyShapePolicy<double, 2, 2>::prepareMesh(m); m.prepare(); pre = true; m.validate(); o.mesh(m, true); });
		call(w, o, [&]() { Mesh2 c(m), d; d = c; m = d; o.mesh(d, pre); });
	}
}
static void loading(Work& w, Dig& o) {
	Par& p = w.p;
	for (int q = 0; q < 2; ++q) call(w, o, [&]() {
		Mesh2 m = p(3) ? load_file(w.f, w.fa.c_str(), w.fb.c_str()) : load_string(w.f, w.f.a, w.f.b);
		o.mesh(m, false);
		if (!w.damaged) { PolyShapePolicy<double, 2, 1>::prepareMesh(m); m.prepare(); o.mesh(m, true); }
	});
}
static void exporting(Work& w, Dig& o) {
	Par& p = w.p; Mesh2 m; int order = 1 + (int)p(2);
	call(w, o, [&]() { build(m, w.tri); if (order == 1) PolyShapePolicy<double, 2, 1>::prepareMesh(m); else PolyShapePolicy<double, 2, 2>::prepareMesh(m); m.setupBoundaries(); m.prepare(); });
	for (int q = 0; q < 2; ++q) {
		call(w, o, [&]() {
			typedef DynamicVector<double> V; std::map<std::string, V*> pv, cv; V a(m.vertices().size()), b(m.elements().size());
			for (size_t i = 0; i < a.size(); ++i) a[i] = p.num() / 8; for (size_t i = 0; i < b.size(); ++i) b[i] = p.num() * 1000;
			if (p(4)) { pv["u"] = &a; pv["v w"] = &a; } if (p(4)) cv["cell"] = &b;
			VTKExporter<double, 2>::write<V>(w.out, m, pv, cv, (int)p(32) | (order == 2 ? VOO_IsQuadratic : 0));
		});
		std::string t = file_text(w.out.c_str()); for (char c : t) o.u((uint64_t)(unsigned char)c);
		o.u(t.size()); o.mark();
	}
}
// any calls on a set of objects of the thread's own
static void touring(Work& w, Dig& o) {
	Par& p = w.p; Par a = p, b = p; a.i = 7; b.i = 40; std::unique_ptr<World> m;
	call(w, o, [&]() { m.reset(new World(a, b, w.tri, 1 + p(2))); o.u(m->all()); });
	for (size_t q = 2 + p(8); m && q--;) { Op c = { (unsigned)p(NOPS), p(1000), p(1000), p(1000) }; call(w, o, [&]() { op(*m, c, o, w.out.c_str()); }); }
}
// reading documents with materials through the OBJ reader itself
static void documents(Work& w, Dig& o) {
	Par& p = w.p; for (size_t q = 1 + p(2); q--;) { int way = (int)p(3); unsigned flags = p(3) ? 1 : 0; call(w, o, [&]() { Result r; r.ok = false; read_document(r, w.doc, w.fa, w.fb, way, flags); fold(o, r); }); }
}
enum { NK = 19 };
static const char* const NAMES[NK] = { "sparse", "sparse<complex>", "dense", "dense<complex>", "direct sparse", "direct dense", "direct complex", "iterative sparse", "iterative dense", "iterative complex", "ordering", "construct sparse", "construct dense", "quadrature", "building", "touring", "loading", "exporting", "documents" };
static void program(Work& w, Dig::Marks& out) {
	w.p.i = 0; w.oom = false; Dig o;
	try {
		switch (w.kind) {
		case 0: sparse<double>(w, o); break; case 1: sparse<C>(w, o); break;
		case 2: dense<double>(w, o); break; case 3: dense<C>(w, o); break;
		case 4: direct<double, SparseMatrix<double> >(w, o); break; case 5: direct<double, DenseMatrix<double> >(w, o); break;
		case 6: if (w.p(2)) direct<C, SparseMatrix<C> >(w, o); else direct<C, DenseMatrix<C> >(w, o); break;
		case 7: iterative<double, SparseMatrix<double> >(w, o); break; case 8: iterative<double, DenseMatrix<double> >(w, o); break; case 9: iterative<C, SparseMatrix<C> >(w, o); break;
		case 10: ordering(w, o); break; case 11: construct<SparseMatrix>(w, o); break; case 12: construct<DenseMatrix>(w, o); break;
		case 13: quadratures(w, o); break; case 14: building(w, o); break; case 15: touring(w, o); break; case 16: loading(w, o); break; case 17: exporting(w, o); break; default: documents(w, o); break;
		}
	} catch (const std::bad_alloc&) { w.oom = true; }
	o.mark(); out = o.at;
}
static void body(void* v) { Work& w = *(Work*)v; sim::Lib l; program(w, w.marks); }
static void run() {
	sim::plan_steps(1, 3);
	while (sim::next_step()) {
		plain_meshes = false; sim::fs_reset(); sim::fs_clear_plans(); sim::set_alloc_cap(64 << 20);
		int n = 2 + (int)draw(3); bool same = chance(1, 3), twin = chance(1, 8);
		std::vector<Work*> ws; std::vector<void*> args; std::string d;
		unsigned kind = (unsigned)draw(NK); Par shared; shared.fill();
		sim::IoPlan frag; frag.read_frag = (int)draw(3); frag.write_frag = (int)draw(3); frag.eintr = chance(1, 6) ? 10 : 0; sim::fs_plan("*", frag);
		for (int i = 0; i < n; ++i) {
			Work* w; { sim::Lib l; w = new Work(); } w->kind = same || !i ? kind : (unsigned)draw(NK); w->oom = w->planned = w->damaged = false; w->options = (int)draw(32);
			if (twin && same) w->p = shared; else w->p.fill();
			char nm[40]; snprintf(nm, sizeof nm, "t%d", i); w->fa = std::string(nm) + ".a"; w->fb = std::string(nm) + ".b"; w->out = std::string(nm) + ".vtu";
			if (w->kind == 16) {
				w->f.make(2, 50);
				if (chance(1, 4)) { w->damaged = true; w->f.a.resize(draw(w->f.a.size() + 1)); }
				w->f.put(w->fa.c_str(), w->fb.c_str());
			}
			if (w->kind == 18) {
				w->doc.make(); w->fb = std::string(nm) + "/"; if (chance(1, 4)) { w->damaged = true; w->doc.text.resize(draw(w->doc.text.size() + 1)); }
				sim::fs_put(w->fa.c_str(), w->doc.text.data(), w->doc.text.size());
				for (int k = 0; k < 2; ++k) if (!w->doc.missing[k]) sim::fs_put((w->fb + Doc::fname(k)).c_str(), w->doc.lib[k].data(), w->doc.lib[k].size());
			}
			if (w->kind == 14 || w->kind == 15 || w->kind == 17) w->tri = random_tri(2);
			if (w->kind >= 16 && chance(1, 5)) { // this thread's own file is faulty
				sim::IoPlan pl = frag; w->planned = true;
				switch (draw(4)) { case 0: pl.open_errno = 13; break; case 1: pl.read_err_at = (int64_t)draw(100); break; case 2: pl.write_err_at = (int64_t)draw(800); break; default: pl.close_errno = 5; break; }
				sim::fs_plan(w->kind != 17 ? w->fa.c_str() : w->out.c_str(), pl);
			}
			ws.push_back(w); args.push_back(w); d += std::string(" | ") + NAMES[w->kind] + (w->planned ? " (file fault)" : "");
		}
		uint64_t k = draw_fault(10);
		note("%d threads:%s%s", n, d.c_str(), k ? "; one allocation fails" : "");
		sim::mark_live();
		if (k) sim::arm_alloc(k);
		sim::run_threads(n, body, args.data());
		bool fault = k && sim::disarm_alloc(); int hit = fault ? sim::alloc_fault_tid() - 1 : -1;
		for (int i = 0; i < n; ++i) {
			Work& w = *ws[i]; bool was = w.oom; sim::fs_remove(w.out.c_str());
			{ sim::Lib l; program(w, w.solo); }
			SIM_CHECK(!w.oom || w.damaged, "unexpected-exception", "%s alone ran out of memory", NAMES[w.kind]);
			if (i == hit) { sim::probe("a thread ran out of memory while others went on"); continue; }
			SIM_CHECK(!was || w.damaged, "result-differs", "thread %d ran out of memory although another thread's allocation failed", i);
			for (size_t q = 0; q < w.solo.n && q < w.marks.n; ++q) SIM_CHECK(w.solo.v[q] == w.marks.v[q], "result-differs", "thread %d (%s): call %zu gives a different result than alone", i, NAMES[w.kind], q);
			SIM_CHECK(w.solo.n == w.marks.n, "result-differs", "thread %d (%s) ended differently than alone", i, NAMES[w.kind]);
			sim::state(sim::mix(w.marks.v[w.marks.n - 1], w.kind));
		}
		SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%d files left open", sim::fs_open_count());
		for (auto w : ws) { sim::Lib l; delete w; }
		sim::nontrivial();
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C02", run, 40000, 900,
		"one evaluation = up to 3 rounds of 2-4 threads, each running a drawn program on its own objects and files (matrices, factorisations, solvers, orderings, constructors, quadratures, building, loading and exporting meshes) under a drawn schedule with fragmented I/O, at times with a failing allocation or a faulty file in one thread; results compared call by call with the same program run alone; distinct = different event log incl. the schedule; non-trivial = threads ran",
		"the whole library incl. MeshTriangleLoader, MeshObjLoader, tiny_obj_loader and VTKExporter", "heap allocator, file system, thread scheduling (seeded), atomics sequentially consistent",
		"weak-memory value effects are not simulated, missing orderings are reported as races instead" };
	return sim::runner_main(argc, argv, c);
}
