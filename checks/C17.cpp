// C17: quadrature calls back once per node, re-entrantly, and survives callback failure.
#include "h.h"
#include "quadrature/Quadrature.h"
#include <memory>
using namespace NS;
using namespace h;
typedef std::complex<double> C;
typedef FixedVector<double, 2> P2;

// The rules as published: nodes in order, weights for the unit simplex.
struct Node { double x, y, w; };
struct Rule { int k; std::vector<Node> n; };
static const double A2 = 0.211324865405187, B2 = 0.788675134594813, A3 = 0.112701665379258, B3 = 0.887298334620742, T1 = 1.0 / 3, S = 1.0 / 6, W3 = 25.0 / 96;
static const Rule RULES[7] = {
	{ 1, { { 0.5, 0, 1 } } },
	{ 1, { { A2, 0, 0.5 }, { B2, 0, 0.5 } } },
	{ 1, { { 0.5, 0, 4.0 / 9 }, { A3, 0, 2.5 / 9 }, { B3, 0, 2.5 / 9 } } },
	{ 2, { { T1, T1, 0.5 } } },
	{ 2, { { 0, 0.5, S }, { 0.5, 0, S }, { 0.5, 0.5, S } } },
	{ 2, { { T1, T1, -27.0 / 96 }, { 0.2, 0.2, W3 }, { 0.2, 0.6, W3 }, { 0.6, 0.2, W3 } } },
	{ 2, { { 0, 0.5, S }, { 0.5, 0, S }, { 0.5, 0.5, S } } },   // single precision
};
struct Rules {
	GaussLegendreQuadrature<double, 1, 1> a; GaussLegendreQuadrature<double, 1, 2> b; GaussLegendreQuadrature<double, 1, 3> c;
	GaussLegendreQuadrature<double, 2, 1> d; GaussLegendreQuadrature<double, 2, 2> e; GaussLegendreQuadrature<double, 2, 3> f;
	GaussLegendreQuadrature<float, 2, 2> g;
};
// What a callback may throw; copies are counted.
struct Thrown { int id; int* copies; Thrown(int i, int* c) : id(i), copies(c) {} Thrown(const Thrown& o) : id(o.id), copies(o.copies) { ++*copies; } };
struct Failure : std::exception { int id; explicit Failure(int i) : id(i) {} };

// One evaluation, as drawn: which rule, how it is called, what its callback does.
struct Tree {
	int rule, how, type, thrown, at; double start; bool guard; int id, depth;
	std::vector<std::pair<int, Tree*> > kids;     // at which call which evaluation happens inside
	int odd, odd_at;                              // the callback's value is not a number (1) or infinite (2, 3) at one node
	int extra, extra_at;                          // the callback also copies the rule, builds one, or allocates
	int copies;
	std::vector<Tree*> all;
};
static void grow(Tree* t, int depth, std::vector<Tree*>& all) {
	t->rule = (int)draw(7); t->how = (int)draw(5); t->type = (int)draw(4); t->start = chance(1, 3) ? (double)range(-5, 5) : 0;
	t->thrown = chance(1, 5) ? 1 + (int)draw(4) : 0; size_t n = RULES[t->rule].n.size(); t->at = (int)draw(n); t->guard = chance(1, 2);
	t->extra = chance(1, 4) ? 1 + (int)draw(3) : 0; t->extra_at = (int)draw(n); t->odd = chance(1, 10) ? 1 + (int)draw(3) : 0; t->odd_at = (int)draw(n); t->copies = 0; t->depth = depth; t->id = (int)all.size(); all.push_back(t);
	int k = depth >= 3 || all.size() > 12 ? 0 : (int)draw(3);
	while (k--) { Tree* c = new Tree(); t->kids.push_back(std::make_pair((int)draw(n), c)); grow(c, depth + 1, all); }
}
// A callback's value at a node, a function of node and evaluation.
static double value(const Tree& t, int i, double x, double y) { return (double)(t.id % 5 + 1) * x - y + (double)(i - 1) * 0.5; }
struct Raised { int kind, id; bool any() const { return kind != 0; } };   // 1 Thrown 2 Failure 3 int 4 const char* 5 bad_alloc
static const char TEXT[] = "callback";
static thread_local int g_oom;

static double any_tree(const Rules& r, Tree& t, Raised& out);

template <class RT> struct Lift { static RT get(double v) { return RT(v); } static double back(RT v) { return (double)v; } };
template <> struct Lift<C> { static C get(double v) { return C(v, 2 * v); } static double back(C v) { if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) return v.imag() == v.imag() ? v.imag() : NAN; if (std::fabs(v.imag() - 2 * v.real()) > 1e-9 * (1 + std::fabs(v.real()))) fail("wrong-value", "imaginary part %s of a complex integral, expected %s", str(v.imag()), str(2 * v.real())); return v.real(); } };
template <> struct Lift<P2> { static P2 get(double v) { P2 p; p[0] = v; p[1] = -v; return p; } static double back(P2 v) { if (v[0] != -v[1] && !(v[0] != v[0] && v[1] != v[1])) fail("wrong-value", "components %s and %s of a vector integral do not match", str(v[0]), str(v[1])); return v[0]; } };

struct State { const Rules& r; Tree& t; int calls; bool dead; double model; Raised raised; bool has_index; };
template <class Q, class P> static double called(State& s, const Q& q, int i, const P& x, int dim) {
	const Rule& m = RULES[s.t.rule]; int c = s.calls++;
	SIM_CHECK(!s.dead, "call-after-exception", "evaluation %d: its callback is called again after it threw", s.t.id);
	SIM_CHECK(c < (int)m.n.size(), "call-sequence", "evaluation %d: call %d of a rule with %zu nodes", s.t.id, c + 1, m.n.size());
	if (s.has_index) SIM_CHECK(i == c, "call-sequence", "evaluation %d: call %d is given index %d", s.t.id, c, i);
	const Node& n = m.n[(size_t)c]; double y = dim == 2 ? (double)x[dim - 1] : 0;
	SIM_CHECK(std::fabs(x[0] - n.x) < 1e-6 && std::fabs(y - n.y) < 1e-6, "call-sequence", "evaluation %d: call %d is at (%s, %s), node %d is (%s, %s)", s.t.id, c, str((double)x[0]), str(y), c, str(n.x), str(n.y));
	double v = value(s.t, c, x[0], y);
	s.dead = true;      // unless this call comes to its end
	if (s.t.extra && s.t.extra_at == c) {
		try {
			if (s.t.extra == 1) { std::unique_ptr<Q> copy(new Q(q)); v += 0.0 * copy->eval([&](const P& z) -> double { return z[0]; }); }
			else if (s.t.extra == 2) { GaussLegendreQuadrature<float, 2, 3> fresh; GaussLegendreQuadrature<float, 1, 3> line; v += 0.0 * (double)(fresh.eval([](const FixedVector<float, 2>& z) -> float { return z[1]; }) + line.eval([](const FixedVector<float, 1>& z) -> float { return z[0]; })); }
			else { DynamicVector<double> tmp(5); tmp.fill(v); v = tmp[3]; }
		} catch (const std::bad_alloc&) { s.raised.kind = 5; s.raised.id = s.t.id; throw; }
	}
	for (auto& k : s.t.kids) if (k.first == c) {
		Raised in = { 0, 0 };
		if (s.t.guard) { double w = 0; try { w = any_tree(s.r, *k.second, in); } catch (const Thrown&) { w = 100; } catch (const std::exception&) { w = 200; } catch (int) { w = 300; } catch (const char*) { w = 400; } v += 0.25 * w; }
		else { try { v += 0.25 * any_tree(s.r, *k.second, in); } catch (...) { s.raised = in; throw; } }
	}
	SIM_CHECK(std::fabs(x[0] - n.x) < 1e-6 && std::fabs((dim == 2 ? (double)x[dim - 1] : 0) - n.y) < 1e-6, "node-moved", "evaluation %d: node %d turns into (%s, %s) while its callback runs", s.t.id, c, str((double)x[0]), str(dim == 2 ? (double)x[dim - 1] : 0.0));
	if (s.t.thrown && s.t.at == c) {
		s.raised.kind = s.t.thrown; s.raised.id = s.t.id;
		switch (s.t.thrown) { case 1: s.t.copies = 0; throw Thrown(s.t.id, &s.t.copies); case 2: throw Failure(s.t.id); case 3: throw s.t.id; default: throw TEXT; }
	}
	if (s.t.odd && s.t.odd_at == c) { v = s.t.odd == 1 ? NAN : s.t.odd == 2 ? HUGE_VAL : -HUGE_VAL; sim::probe("a callback returned a value that is not finite"); }
	s.dead = false;
	s.model += n.w * v;
	return v;
}
// without a start value, where that can be said (a vector has no default start)
template <class RT, class Q, class F> static RT eval0(const Q& q, const F& f, std::true_type) { return q.eval(f); }
template <class RT, class Q, class F> static RT eval0(const Q& q, const F& f, std::false_type) { return q.eval(f, RT()); }
template <class RT, class Q, class F> static RT index0(const Q& q, const F& f, std::true_type) { return q.eval_index(f); }
template <class RT, class Q, class F> static RT index0(const Q& q, const F& f, std::false_type) { return q.eval_index(f, RT()); }
template <class Q, class P, class RT> static double eval_as(State& s, const Q& q, int dim) {
	bool zero = s.t.start == 0; RT st = Lift<RT>::get(s.t.start);
	auto f = [&](const P& x) -> RT { return Lift<RT>::get(called(s, q, -1, x, dim)); };
	auto g = [&](Index i, const P& x) -> RT { return Lift<RT>::get(called(s, q, (int)i, x, dim)); };
	struct Functor { State* s; const Q* q; int dim; RT operator()(P x) const { return Lift<RT>::get(called(*s, *q, -1, x, dim)); } } o = { &s, &q, dim };
	RT v = RT(); std::integral_constant<bool, !std::is_same<RT, P2>::value> plain;
	s.has_index = s.t.how == 1 || s.t.how == 3;
	switch (s.t.how) {
	case 0: v = zero ? eval0<RT>(q, f, plain) : q.eval(f, st); break;
	case 1: v = zero ? index0<RT>(q, g, plain) : q.eval_index(g, st); break;
	case 2: { std::function<RT(const P&)> sf(std::ref(f)); v = q.eval(sf, st); break; }
	case 3: { std::function<RT(Index, const P&)> sg(std::ref(g)); v = q.eval_index(sg, st); break; }
	default: v = q.eval(o, st); break;
	}
	return Lift<RT>::back(v);
}
template <class Q, class P> static double eval_typed(State& s, const Q& q, int dim) {
	switch (s.t.type) { case 0: return eval_as<Q, P, double>(s, q, dim); case 1: return eval_as<Q, P, C>(s, q, dim); case 2: return eval_as<Q, P, P2>(s, q, dim); default: return eval_as<Q, P, double>(s, q, dim); }
}
static double any_tree(const Rules& r, Tree& t, Raised& out) {
	State s = { r, t, 0, false, t.start, { 0, 0 }, false };
	double got;
	try {
		switch (t.rule) {
		case 0: got = eval_typed<decltype(r.a), FixedVector<double, 1> >(s, r.a, 1); break;
		case 1: got = eval_typed<decltype(r.b), FixedVector<double, 1> >(s, r.b, 1); break;
		case 2: got = eval_typed<decltype(r.c), FixedVector<double, 1> >(s, r.c, 1); break;
		case 3: got = eval_typed<decltype(r.d), P2>(s, r.d, 2); break;
		case 4: got = eval_typed<decltype(r.e), P2>(s, r.e, 2); break;
		case 5: got = eval_typed<decltype(r.f), P2>(s, r.f, 2); break;
		default: got = eval_as<decltype(r.g), FixedVector<float, 2>, float>(s, r.g, 2); break;
		}
	}
	catch (const Thrown& e) { out = s.raised; SIM_CHECK(s.raised.kind == 1 && s.raised.id == e.id, "exception-changed", "evaluation %d ends in an exception nobody threw there", t.id); SIM_CHECK(*e.copies == 0, "exception-changed", "the callback's exception was copied %d times on its way", *e.copies); throw; }
	catch (const Failure& e) { out = s.raised; SIM_CHECK(s.raised.kind == 2 && s.raised.id == e.id, "exception-changed", "evaluation %d ends in an exception nobody threw there", t.id); throw; }
	catch (int e) { out = s.raised; SIM_CHECK(s.raised.kind == 3 && s.raised.id == e, "exception-changed", "evaluation %d ends in an exception nobody threw there", t.id); throw; }
	catch (const char* e) { out = s.raised; SIM_CHECK(s.raised.kind == 4 && e == TEXT, "exception-changed", "evaluation %d ends in an exception nobody threw there", t.id); throw; }
	catch (const std::bad_alloc&) { ++g_oom; out = s.raised; if (!out.any()) { out.kind = 5; out.id = t.id; } SIM_CHECK(out.kind == 5, "exception-changed", "evaluation %d ends in bad_alloc instead of the callback's exception", t.id); throw; }
	catch (...) { fail("exception-changed", "evaluation %d ends in an exception nobody threw", t.id); }
	SIM_CHECK(!s.dead && !s.raised.any(), "exception-swallowed", "evaluation %d returns a value although its callback threw", t.id);
	const Rule& m = RULES[t.rule];
	SIM_CHECK(s.calls == (int)m.n.size(), "call-sequence", "evaluation %d: %d calls for %zu nodes", t.id, s.calls, m.n.size());
	if (!std::isfinite(s.model)) {
		bool as = s.model != s.model || t.type == 1 ? !std::isfinite(got) : got == s.model; // (a complex product may turn an infinity into NaN)
		SIM_CHECK(as, "wrong-value", "evaluation %d of rule %d returns %s, start plus weighted sum is %s", t.id, t.rule, str(got), str(s.model));
		return 0;
	}
	double tol = (t.rule == 6 ? 1e-5 : 1e-9) * (1 + std::fabs(s.model) + std::fabs(t.start)) + 1e-9 * 500;
	SIM_CHECK(std::fabs(got - s.model) <= tol, "wrong-value", "evaluation %d of rule %d returns %s, start plus weighted sum is %s", t.id, t.rule, str(got), str(s.model));
	return got;
}
struct Job { const Rules* shared; std::vector<Tree*> trees; int ended[6]; bool own; };
static void body(void* v) {
	Job& j = *(Job*)v; sim::Lib l;
	Rules* mine = nullptr;
	try { if (j.own) mine = new Rules(*j.shared); } catch (const std::bad_alloc&) { ++j.ended[5]; }
	const Rules& r = mine ? *mine : *j.shared;
	for (auto t : j.trees) {
		Raised x = { 0, 0 };
		try { any_tree(r, *t, x); ++j.ended[0]; } catch (const Thrown&) { ++j.ended[1]; } catch (const std::bad_alloc&) { ++j.ended[5]; } catch (const std::exception&) { ++j.ended[2]; } catch (int) { ++j.ended[3]; } catch (const char*) { ++j.ended[4]; }
	}
	delete mine;
}
static void destroy(Tree* t) { for (auto& k : t->kids) destroy(k.second); delete t; }
static void run() {
	sim::plan_steps(1, 4); sim::mark_live();
	Rules* shared; { sim::Lib l; shared = new Rules(); }
	while (sim::next_step()) {
		int n = (int)draw(4); if (n) ++n; // 0: no threads at all
		std::vector<Job*> js; std::vector<void*> args; std::string d;
		for (int i = 0; i < (n ? n : 1); ++i) {
			Job* j = new Job(); j->shared = shared; j->own = chance(1, 4); for (auto& e : j->ended) e = 0;
			int k = 1 + (int)draw(4); std::vector<Tree*> all; d += " |";
			while (k--) { Tree* t = new Tree(); size_t b = all.size(); grow(t, 0, all); j->trees.push_back(t); for (; b < all.size(); ++b) { char c[60]; snprintf(c, sizeof c, " %.*sq%d.%d%s", all[b]->depth, ">>>", all[b]->rule, all[b]->how, all[b]->thrown ? "!" : ""); d += c; } }
			js.push_back(j); args.push_back(j);
		}
		uint64_t k = draw_fault(10);
		note("%d threads:%s%s", n, d.c_str(), k ? "; one allocation fails" : "");
		if (k) sim::arm_alloc(k);
		if (n) sim::run_threads(n, body, args.data()); else body(args[0]);
		bool fault = k && sim::disarm_alloc();
		for (auto j : js) {
			SIM_CHECK(!j->ended[5] || fault, "unexpected-exception", "an evaluation ran out of memory without a fault");
			for (int e = 1; e < 6; ++e) if (j->ended[e]) sim::probe(e == 5 ? "an evaluation ran out of memory" : "a callback's exception reached the caller");
			sim::state(sim::mix((uint64_t)j->ended[0] * 100 + (uint64_t)j->ended[1], (uint64_t)j->trees[0]->rule * 7 + (uint64_t)j->trees[0]->how));
		}
		for (auto j : js) { for (auto t : j->trees) destroy(t); delete j; }
		// afterwards the shared rules still do their work
		for (int q = 0; q < 7; ++q) { Tree t; t.rule = q; t.how = q & 1; t.type = 0; t.thrown = 0; t.at = 0; t.start = 1; t.guard = false; t.id = 50; t.depth = 0; t.odd = 0; t.odd_at = 0; t.extra = 0; t.extra_at = 0; t.copies = 0; Raised x = { 0, 0 }; sim::Lib l; any_tree(*shared, t, x); }
		sim::nontrivial();
	}
	{ sim::Lib l; delete shared; }
	sim::check_leaks("after all evaluations");
}
int main(int argc, char** argv) {
	sim::Check c = { "C17", run, 60000, 600,
		"one evaluation = up to 4 rounds in which no, or 2-4, threads run drawn trees of nested quadrature evaluations (7 rules, index and plain calls, start values, four callback styles, real, complex and vector results) on shared or own rules under a drawn schedule, with callbacks that throw, copy and build rules, allocate, and failing allocations; every callback invocation compared online with the rule's node list, every result with start plus weighted sum; distinct = different event log incl. the schedule; non-trivial = all",
		"Quadrature, GaussLegendreQuadratureFactory, Vector", "heap allocator, thread scheduling (seeded)",
		"the node tables are those of the published rules" };
	return sim::runner_main(argc, argv, c);
}
