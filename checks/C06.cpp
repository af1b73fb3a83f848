// C06: no library call leaks, however it ends.
#include "readers.h"
#include "objdoc.h"
using namespace NS;
using namespace h;

// A scenario is a deterministic function of its parameters, so that it can be run again with another fault.
struct Thrown { int id; };
static unsigned g_ended[5]; // how the calls of this run ended
// One library call inside a scenario; what it throws is the end of that call only.
template <class F> static void call(F f) {
	Kind k = OK;
	try { f(); } catch (const std::bad_alloc&) { k = OOM; } catch (const NSException&) { k = NSX; } catch (const std::exception&) { k = STDX; } catch (const Thrown&) { k = OTHER; }
	++g_ended[k];
}
template <class T> static void sparse(Par& p) {
	typedef SparseMatrix<T> S; typedef DynamicVector<T> V;
	size_t n = 1 + p(6), m = p(3) ? n : 1 + p(6);
	S a(n, m), b(n, m), c; V x(m), y(n); x.fill(T(1)); y.fill(T(2));
	for (size_t q = 6 + p(30); q--;) {
		size_t i = p(n), j = p(m); T v = Num<T>::get(p);
		switch (p(26)) {
		case 0: case 1: case 2: case 3: case 4: call([&]() { a.set(i, j, v); }); break;
		case 5: call([&]() { b.set(i, j, v); }); break;
		case 6: call([&]() { a += b; }); break;
		case 7: call([&]() { a -= b; }); break;
		case 8: call([&]() { a *= b; }); break;
		case 9: call([&]() { a *= v; }); break;
		case 10: call([&]() { c = a.transpose(); }); break;
		case 11: call([&]() { c = a.mul(b); }); break;
		case 12: call([&]() { c = a.mul(b.transpose()); }); break;
		case 13: call([&]() { V r = a.mul(x); V s = a.mul(y); }); break;
		case 14: call([&]() { V r = a.mul_left(y); V s = a.mul_left(x); }); break;
		case 15: call([&]() { S d(a); d.set(i, j, v); c = d; }); break;
		case 16: call([&]() { b = a; }); break;
		case 17: call([&]() { S d(b); d.swap(a); }); break;
		case 18: call([&]() { if (a.begin() != a.end()) a.erase(a.begin()); }); break;
		case 19: call([&]() { S d = a + b; S e = a - b; S f = -a; S g = a * v; }); break;
		case 20: call([&]() { c = a.adjugate(); c = a.conjugate(); }); break;
		case 21: call([&]() { a.linear_set(i * m + j, v); }); break;
		case 22: call([&]() { S d({ { v, T(1) }, { T(0), v }, { v } }); c = std::move(d); }); break;
		case 23: call([&]() { S d(n, m, 40); d = a; a = std::move(d); }); break;
		case 24: call([&]() { S d(n + 1, m); d = a; S e(d); d = e; }); break;
		default: call([&]() { T s = a.sum(); (void)s; size_t k = a.filled_count() + a.row_filled_count(i) + a.column_filled_count(j); (void)k; bool q = a == b; (void)q; }); break;
		}
	}
}
template <class T> static void dense(Par& p) {
	typedef DenseMatrix<T> D; typedef DynamicVector<T> V; typedef FixedMatrix<T, 2, 3> X;
	size_t n = 1 + p(5), m = p(3) ? n : 1 + p(5);
	D a(n, m), b(n, m), c(1 + p(4), 1 + p(4)); V x(m), y(n), z(1 + p(5)); X f; FixedVector<T, 3> g;
	for (size_t q = 6 + p(24); q--;) {
		size_t i = p(n), j = p(m); T v = Num<T>::get(p);
		switch (p(22)) {
		case 0: call([&]() { a.set(i, j, v); b.set(i, j, v); }); break;
		case 1: call([&]() { a += b; a -= c; }); break;
		case 2: call([&]() { a += c; }); break;
		case 3: call([&]() { a *= b; a *= v; }); break;
		case 4: call([&]() { c = a.transpose(); c = a.adjugate(); c = a.conjugate(); }); break;
		case 5: call([&]() { c = a.mul(b); }); break;
		case 6: call([&]() { c = a.mul(b.transpose()); }); break;
		case 7: call([&]() { V r = a.mul(x); V s = a.mul(z); }); break;
		case 8: call([&]() { V r = a.mul_left(y); V s = a.mul_left(z); }); break;
		case 9: call([&]() { D d = a + b; D e = a - b; D h = -a; D k = a + c; }); break;
		case 10: call([&]() { D d({ { v, T(1) }, { T(2) } }); c = std::move(d); }); break;
		case 11: call([&]() { a = b; D d(a); d.swap(a); }); break;
		case 12: call([&]() { x += z; }); break;
		case 13: call([&]() { x -= z; y *= y; }); break;
		case 14: call([&]() { V r = x + x; V s = x - z; }); break;
		case 15: call([&]() { V r = x * v; V s = v + x; V t = -x; }); break;
		case 16: call([&]() { z.resize(1 + p(9)); }); break;
		case 17: call([&]() { V r({ v, v, T(1) }); z = r; V s(std::move(r)); }); break;
		case 18: call([&]() { z.fill(v); z = x; }); break;
		case 19: call([&]() { X h({ { v, T(1), T(2) }, { T(3) } }); f = h; auto t = f.transpose(); auto u = f.mul(t); FixedVector<T, 2> r = f.mul(g); (void)u; (void)r; }); break;
		case 20: call([&]() { V r = x.normalized(); T d = x.dot(z); (void)d; }); break;
		default: call([&]() { bool e = a == b; (void)e; T s = a.sum() + x.sum(); (void)s; T d = Operations::determinant(a); (void)d; }); break;
		}
	}
}
template <class T, class M> static M matrix(Par& p, size_t n, size_t m, bool spd) {
	M a(n, m); int dens = (int)p(3);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (!dens || p(3)) a.set(i, j, Num<T>::get(p));
	if (spd) { M t = a.adjugate(); a += t; for (size_t i = 0; i < n; ++i) a.set(i, i, T(40)); }
	else if (p(2)) for (size_t i = 0; i < n && i < m; ++i) a.set(i, i, T((double)p(4)));
	return a;
}
template <class T, class M> struct IluCall { static void run(const M&, M&, M&) {} };
template <class T> struct IluCall<T, SparseMatrix<T> > { static void run(const SparseMatrix<T>& a, SparseMatrix<T>& l, SparseMatrix<T>& u) { LU::serial::ilu0(a, l, u); } };
template <class T, class M> static void direct(Par& p) {
	namespace S = LU::serial; typedef DynamicVector<T> V;
	size_t n = 1 + p(5), odd = p(4) ? n : 1 + p(6);
	M L(n, n), U(n, n), P(n, n), X(n, n), Y(odd, n); V b(p(4) ? n : odd); b.fill(T(1));
	for (size_t q = 2 + p(5); q--;) {
		bool spd = p(2); size_t r = p(6) ? n : odd; uint64_t w = p(9);
		call([&]() {
			M a = matrix<T, M>(p, n, spd ? n : r, spd);
			switch (w) {
			case 0: case 1: { size_t c = 0; S::doolittle(a, L, U, P, p(2) ? &c : nullptr); break; }
			case 2: S::cholesky(a, L); break;
			case 3: S::cholesky(a, Y); break;
			case 4: S::solve_lu(L, U, b); break;
			case 5: S::ainv_lu(L, U, X, p(2) ? Y : P); break;
			case 6: { M i = Operations::inverse(a); X = i; break; }
			case 7: { T d = Operations::determinant(a); (void)d; M i = p(2) ? Operations::inverse(L, U, P) : Operations::inverse(L, U); break; }
			default: IluCall<T, M>::run(a, L, U); if (p(2)) S::doolittle(a, L, U, Y); break;
			}
		});
	}
}
static int g_tick = -1;
template <class B> struct Throwing : B {
	using B::B; Throwing() {} Throwing(const B& b) : B(b) {}
	template <class X> auto mul(const X& v) const -> decltype(std::declval<const B&>().mul(v)) { if (g_tick >= 0 && g_tick-- == 0) throw Thrown{ 1 }; return B::mul(v); }
};
template <class T> struct CgCall { // conjugate gradients are for real systems
	template <class M, class V> static void run(const M&, M&, const V&, V&, size_t, bool) {}
};
template <> struct CgCall<double> {
	template <class M, class V> static void run(const M& a, M& c, const V& b, V& x, size_t budget, bool pre) { if (!pre) { x = CG::serial::cg(a, b, x, budget); return; } CG::serial::jacobi(a, c); x = CG::serial::pcg(a, b, c, x, budget); }
};
template <class T, class M> static void iterative(Par& p) {
	typedef DynamicVector<T> V; size_t n = 1 + p(5), odd = p(5) ? n : 1 + p(6);
	V b(p(5) ? n : odd), x(n); b.fill(T(1)); size_t st = 0;
	for (size_t q = 2 + p(4); q--;) {
		bool spd = p(3); uint64_t w = p(5); size_t budget = p(9); g_tick = p(5) ? -1 : (int)p(6);
		call([&]() {
			Throwing<M> a(matrix<T, M>(p, n, p(6) || spd ? n : odd, spd)), c(p(5) ? n : odd, n);
			if (w == 0) x = Iterative::serial::jacobi(a, b, x, budget, 1e-8, &st);
			else if (w == 1) x = Iterative::serial::sor(a, b, x, 1.25, budget, 1e-8);
			else CgCall<T>::run(a, c, b, x, budget, w != 2);
		});
		g_tick = -1;
		bool wild = false; for (size_t i = 0; i < x.size(); ++i) wild |= !(std::abs(x[i]) < 1e50);
		if (x.size() != n || wild) call([&]() { V z(n); x.swap(z); });
	}
}
static void ordering(Par& p) {
	typedef SparseMatrix<double> S; size_t n = 1 + p(8);
	for (size_t q = 1 + p(4); q--;) call([&]() {
		S a(n, p(8) ? n : n + 1);
		for (size_t i = 0; i < n; ++i) { a.set(i, i, 4); for (size_t j = 0; j < i; ++j) if (!p(3)) { a.set(i, j, 1); a.set(j, i, 1); } }
		DynamicVector<Index> o = p(2) ? cuthill_mckee(a) : r_cuthill_mckee(a);
		DynamicVector<Index> v = inverse_permutation(o);
		S m = permutate(a, o); S b = permutate(m, v); DynamicVector<double> x(p(4) ? n : n + 1); DynamicVector<double> y = permutate(x, o);
		bool same = b == a; (void)same;
	});
}
template <template <typename> class M> static void construct(Par& p) {
	typedef double T; size_t n = 1 + p(6), m = p(2) ? n : 1 + p(6);
	for (size_t q = 1 + p(4); q--;) call([&]() {
		M<T> e = Construct::eye<M, T>(n, m); DynamicVector<T> d(n); d.fill(3);
		M<T> g = Construct::diag<M, T>(d); DynamicVector<T> dd = Construct::diag(g);
		M<T> l = Construct::tril(e, (int32)p(4) - 2), u = Construct::triu(e, (int32)p(4) - 2);
		M<T> h = Construct::hilbert<M, T>(1 + p(4)), i = Construct::inv_hilbert<M, T>(1 + p(4));
		bool b = Check::matrixIsSymmetric(h) | Check::matrixIsOrthogonal(g) | Check::matrixIsUnitary(g) | Check::matrixIsHermitian(e) | Check::matrixIsSkewSymmetric(l) | Check::matrixIsSkewHermitian(u) | Check::matrixIsProjection(i); (void)b;
		T c = Operations::cond(h) + Operations::max_norm2(g) + Operations::min_norm2(g); (void)c;
	});
}
template <class Q2, class Q1> static void quadratures(Par& p) {
	for (size_t q = 1 + p(3); q--;) {
		int at = p(2) ? (int)p(9) : -1; int seen = 0;
		call([&]() {
			std::unique_ptr<Q2> r(new Q2()); Q1 s; Q2 t(*r); DynamicVector<double> keep(4);
			auto f = [&](const FixedVector<double, 2>& x) -> double { if (seen++ == at) throw Thrown{ 2 }; DynamicVector<double> tmp(3); tmp.fill(x[0]); return tmp.sum() + s.eval([&](const FixedVector<double, 1>& y) -> double { return y[0]; }); };
			double a = r->eval(f); auto g = [&](Index i, const FixedVector<double, 2>& x) -> double { if (seen++ == at) throw Thrown{ 2 }; DynamicVector<double> tmp(i + 1); return x[1]; };
			double b = t.eval_index(g, 1.0); keep.fill(a + b);
		});
	}
}
static void building(Par& p) {
	Mesh2 m;
	for (size_t q = 1 + p(5); q--;) {
		size_t nx = p(9) ? 1 + p(4) : 0, ny = 1 + p(4); uint64_t w = p(5);
		if (w < 2) call([&]() {
			FixedVector<Dimension, 2> e; e[0] = nx; e[1] = ny; FixedVector<double, 2> s, f; s[0] = s[1] = 1;
			m = HyperCube<double, 2>::generate(e, s, f);
		});
		else if (w < 4) {
			size_t vs = m.vertices().size(); size_t add = 3 + p(4);
			for (size_t i = 0; i < add; ++i) call([&]() { FixedVector<double, 2> x; x[0] = (double)p(50); x[1] = (double)p(50); std::unique_ptr<MV> v(new MV(x)); m.addVertex(v.get()); v.release(); });
			for (size_t i = 0; i + 2 < add; ++i) call([&]() {
				if (m.vertices().size() < vs + 3) return;
				std::unique_ptr<ME> e(new ME()); size_t c = p(m.vertices().size() - 2); for (int k = 0; k < 3; ++k) e->Vertices[k] = m.vertex(p(20) ? c + k : c);
				m.addElement(e.get()); e.release();
			});
			call([&]() { m.setupNeighbors(); });
		} else call([&]() { m.clear(); });
		uint64_t t = p(8); bool linked = true; for (auto e : m.elements()) for (int c = 0; c < 3; ++c) linked &= e->Neighbors[c] != nullptr;
		if (!linked && t > 1) t = 0; // these need the neighbours in place
		if (t < 2) call([&]() { m.setupNeighbors(); });
		if (t == 2 || t == 3) call([&]() { m.setupBoundaries(); });
		if (t == 4) call([&]() { m.prepare(); m.validate(); });
		if (t == 5) call([&]() { PolyShapePolicy<double, 2, 1>::prepareMesh(m); });
		if (t >= 6) call([&]() { bool had = false; for (auto e : m.elements()) had |= !e->DOFVertices.empty(); if (!had && !m.edges().empty()) PolyShapePolicy<double, 2, 2>::prepareMesh(m); });
		if (p(4) == 0) call([&]() { Mesh2 c(m), d; d = c; Mesh2 e(std::move(c)); d = std::move(e); d.prepare(); });
		if (p(6) == 0) call([&]() { m.reserveVertices(1 + p(30)); m.reserveElements(1 + p(30)); });
	}
}
struct Files { MeshFile f; std::string a, b; int how; sim::IoPlan pl; };
static void damage(std::string& s) {
	for (int q = (int)draw(4); q-- > 0 && !s.empty();) switch (draw(5)) {
		case 0: s[draw(s.size())] = (char)draw(256); break;
		case 1: s.erase(draw(s.size()), 1 + draw(6)); break;
		case 2: { size_t at = draw(s.size()); s.insert(at, s.substr(draw(s.size()), 1 + draw(30))); break; }
		case 3: s[draw(s.size())] = "0123456789-+.eE #/\n\t"[draw(20)]; break;
		default: s.resize(draw(s.size() + 1)); break;
	}
}
static void loading(Files& f, Par& p) {
	Mesh2 keep;
	for (int q = 0; q < 2; ++q) call([&]() { Mesh2 m = p(2) ? load_file(f.f, "m.a", "m.b") : load_string(f.f, f.a, f.b); if (p(2)) keep = m; });
}
static const unsigned pick_flags[4] = { 1, 1, 0, 3 };
static void documents(const Doc& d, Par& p) {
	Result keep; keep.ok = false;
	for (size_t q = 1 + p(2); q--;) { int way = (int)p(3); unsigned flags = pick_flags[p(4)]; call([&]() { Result r; r.ok = false; read_document(r, d, "m.a", "", way, flags); if (p(2)) keep = r; }); }
}
static void touring(const Tri& t, Par& p) {
	Par a = p, b = p; a.i = 7; b.i = 40; std::unique_ptr<World> m; Dig o;
	call([&]() { m.reset(new World(a, b, t, 1 + p(2))); o.u(m->all()); });
	for (size_t q = 2 + p(8); m && q--;) { Op c = { (unsigned)p(NOPS), p(1000), p(1000), p(1000) }; call([&]() { op(*m, c, o, "tour.vtu"); }); }
}
static void run() {
	sim::plan_steps(1, 6);
	while (sim::next_step()) {
		Par p; p.fill(); int kind = (int)draw(25); char nm[100];
		static const char* names[] = { "sparse", "sparse<complex>", "dense", "dense<complex>", "direct sparse", "direct dense", "direct complex", "iterative sparse", "iterative dense", "iterative complex", "ordering", "construct sparse", "construct dense", "quadrature 2", "quadrature 3", "building", "building", "loading", "loading", "exporting", "touring", "touring", "touring", "documents", "documents" };
		snprintf(nm, sizeof nm, "%s", names[kind]);
		Files f; Export x; sim::fs_clear_plans();
		if (kind == 17 || kind == 18) {
			f.f.make(3, 50); f.a = f.f.a; f.b = f.f.b; if (chance(2, 3)) { damage(f.a); damage(f.b); }
			f.f.put("m.a", "m.b"); sim::fs_put("m.a", f.a.data(), f.a.size()); if (!f.f.obj) sim::fs_put("m.b", f.b.data(), f.b.size());
			sim::set_alloc_cap(64 << 20);
		}
		if (kind == 19) x.random(2);
		Tri tri; if (kind >= 20 && kind < 23) { plain_meshes = false; tri = random_tri(2); }
		Doc d; if (kind >= 23) {
			d.make(); if (chance(1, 2)) { damage(d.text); damage(d.lib[0]); damage(d.lib[1]); }
			sim::fs_put("m.a", d.text.data(), d.text.size()); for (int k = 0; k < 2; ++k) if (!d.missing[k]) sim::fs_put(Doc::fname(k), d.lib[k].data(), d.lib[k].size()); else sim::fs_remove(Doc::fname(k));
			sim::set_alloc_cap(64 << 20);
		}
		sim::IoPlan io; if (kind >= 17) { io.read_frag = (int)draw(3); io.write_frag = (int)draw(3); io.eintr = pick({ 0, 10 });
			switch (draw(6)) { case 0: io.open_errno = 13; break; case 1: io.read_err_at = (int64_t)draw(400); break; case 2: io.write_err_at = (int64_t)draw(1500); break; case 3: io.close_errno = 5; break; default: break; } }
		auto body = [&]() {
			p.i = 0;
			switch (kind) {
			case 0: sparse<double>(p); break; case 1: sparse<C>(p); break; case 2: dense<double>(p); break; case 3: dense<C>(p); break;
			case 4: direct<double, SparseMatrix<double> >(p); break; case 5: direct<double, DenseMatrix<double> >(p); break; case 6: if (p(2)) direct<C, SparseMatrix<C> >(p); else direct<C, DenseMatrix<C> >(p); break;
			case 7: iterative<double, SparseMatrix<double> >(p); break; case 8: iterative<double, DenseMatrix<double> >(p); break; case 9: iterative<C, SparseMatrix<C> >(p); break;
			case 10: ordering(p); break; case 11: construct<SparseMatrix>(p); break; case 12: construct<DenseMatrix>(p); break;
			case 13: quadratures<GaussLegendreQuadrature<double, 2, 2>, GaussLegendreQuadrature<double, 1, 3> >(p); break;
			case 14: quadratures<GaussLegendreQuadrature<double, 2, 3>, GaussLegendreQuadrature<double, 1, 1> >(p); break;
			case 15: case 16: building(p); break;
			case 17: case 18: loading(f, p); break; case 20: case 21: case 22: touring(tri, p); break; case 23: case 24: documents(d, p); break;
			default: call([&]() { std::string path("o.vtu"); VTKExporter<double, 2>::write<Export::V>(path, *x.m, x.pv, x.cv, x.options); }); break;
			}
		};
		uint64_t total = 0;
		for (int round = 0; round < 4; ++round) { // without a fault, then failing three drawn allocations
			uint64_t k = 0; bool sticky = false;
			if (round) { if (!total) break; k = 1 + draw(total); sticky = chance(1, 8); }
			sim::set_step_budget(60000000);
			sim::fs_clear_plans(); sim::fs_plan("*", io);
			for (auto& e : g_ended) e = 0;
			sim::mark_live(); uint64_t before = sim::lib_allocs();
			Outcome o = attempt(body, k, sticky);
			if (!round) total = sim::lib_allocs() - before;
			note("%s: %llu allocations, failing %llu%s -> ok %u, out of memory %u, library %u, standard %u, caller's %u", nm, (unsigned long long)(sim::lib_allocs() - before), (unsigned long long)k, sticky ? "+" : "", g_ended[OK], g_ended[OOM], g_ended[NSX], g_ended[STDX], g_ended[OTHER]);
			SIM_CHECK(o.kind != OTHER && (o.ok() || o.fault || o.kind == NSX), "unexpected-exception", "%s ended in %s", nm, o.type.c_str());
			if (!k) SIM_CHECK(!g_ended[OOM] || (kind >= 17 && kind < 20) || kind >= 23, "unexpected-exception", "%s ran out of memory without a fault", nm);
			char w[140]; snprintf(w, sizeof w, "%s%s", nm, k ? " with a failed allocation" : "");
			sim::check_leaks(w);
			SIM_CHECK(sim::fs_open_count() == 0, "file-left-open", "%s: %d files left open", w, sim::fs_open_count());
			for (int e = 1; e < 5; ++e) if (g_ended[e]) sim::probe(e == OOM ? "a call ran out of memory" : e == NSX ? "a call threw a library exception" : e == STDX ? "a call threw a standard exception" : "a caller's exception passed through");
			uint64_t hs = (uint64_t)kind; for (auto e : g_ended) hs = sim::mix(hs, e); sim::state(sim::mix(hs, sim::lib_allocs() - before));
			sim::nontrivial();
		}
		{ sim::Lib l; x.clear(); }
	}
}
int main(int argc, char** argv) {
	sim::Check c = { "C06", run, 40000, 600,
		"one evaluation = up to 6 call scenarios over the whole library, each run once as is and three times with one of its allocations failing (drawn uniformly over all it makes), with damaged files, I/O errors and throwing callbacks; distinct = different event log; non-trivial = at least one scenario whose heap was audited",
		"SparseMatrix, DenseMatrix, FixedMatrix, Vector, LU, Operations, Iterative, CG, MatrixOrder, Construct, Convert, Check, Quadrature, Mesh, HyperCube, prepareMesh, MeshTriangleLoader, MeshObjLoader, tiny_obj_loader, VTKExporter", "heap allocator and file system calls simulated",
		"blocks reachable from static storage belong to the program and are not leaks" };
	return sim::runner_main(argc, argv, c);
}
