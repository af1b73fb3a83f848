// An independent finite-element model of the Poisson problem and a reader for
// the files the program writes.
#pragma once
#include "meshfile.h"
#include "vtkmodel.h"
namespace h {

struct Fem {
	// program output
	std::vector<Pt> p; std::vector<double> x;      // poisson_fem_data.dat
	std::vector<Tr> t;                             // poisson_fem_mesh.dat
	std::vector<std::array<size_t, 6> > q;         // nodes per element (3 used for order 1), from the vtu
	std::vector<std::vector<double> > A; std::vector<double> B, exact, post;
	int order; size_t n;
	// reference model
	std::vector<std::vector<double> > K; std::vector<double> F, ref, patch; std::vector<bool> bound;
	double kmax, hmax;

	static std::vector<std::vector<double> > rows(const std::string& s, const char* name, size_t cols) {
		std::vector<std::vector<double> > r; size_t i = 0;
		SIM_CHECK(s.empty() || s.back() == '\n', "incomplete-file", "%s ends inside a line", name);
		while (i < s.size()) {
			size_t e = s.find('\n', i); std::string l = s.substr(i, e - i); i = e + 1;
			std::vector<double> v; const char* c = l.c_str();
			while (true) { char* f; double d = strtod(c, &f); if (f == c) break; v.push_back(d); c = f; }
			while (*c == ' ' || *c == '\t' || *c == '\r') ++c;
			SIM_CHECK(!*c && v.size() == cols, "file-format", "%s line %zu '%s' does not hold %zu numbers", name, r.size() + 1, l.c_str(), cols);
			for (auto d : v) SIM_CHECK(std::isfinite(d), "file-format", "%s line %zu holds %s", name, r.size() + 1, l.c_str());
			r.push_back(v);
		}
		return r;
	}
	static double solution(double x, double y) { return std::sin(M_PI * x) * std::sin(M_PI * y) / (2 * M_PI * M_PI); }
	static double source(double x, double y) { return std::sin(M_PI * x) * std::sin(M_PI * y); }

	// Reads every file; 'grid' = the analytical solution is known.
	void read(const std::map<std::string, std::string>& f, int order_, bool grid) {
		order = order_;
		auto data = rows(f.at("poisson_fem_data.dat"), "poisson_fem_data.dat", 3);
		n = data.size();
		for (auto& r : data) { p.push_back(Pt{ { r[0], r[1] } }); x.push_back(r[2]); }
		auto mesh = rows(f.at("poisson_fem_mesh.dat"), "poisson_fem_mesh.dat", 3);
		for (auto& r : mesh) { Tr e; for (int k = 0; k < 3; ++k) { SIM_CHECK(r[k] >= 1 && r[k] <= (double)n && r[k] == std::floor(r[k]), "file-format", "poisson_fem_mesh.dat refers to node %s of %zu", str(r[k]), n); e[k] = (size_t)r[k] - 1; } t.push_back(e); }
		A.assign(n, std::vector<double>(n, 0)); std::vector<std::vector<char> > seen(n, std::vector<char>(n, 0));
		for (auto& r : rows(f.at("poisson_fem_A.dat"), "poisson_fem_A.dat", 3)) {
			SIM_CHECK(r[0] >= 1 && r[0] <= (double)n && r[1] >= 1 && r[1] <= (double)n, "file-format", "poisson_fem_A.dat entry (%s,%s) of %zu", str(r[0]), str(r[1]), n);
			size_t i = (size_t)r[0] - 1, j = (size_t)r[1] - 1;
			SIM_CHECK(!seen[i][j], "file-format", "poisson_fem_A.dat lists entry (%zu,%zu) twice", i, j);
			seen[i][j] = 1; A[i][j] = r[2];
		}
		auto one = [&](const char* name, size_t want) { auto r = rows(f.at(name), name, 1); SIM_CHECK(r.size() == want, "incomplete-file", "%s has %zu lines, expected %zu", name, r.size(), want); std::vector<double> v; for (auto& c : r) v.push_back(c[0]); return v; };
		B = one("poisson_fem_B.dat", n); exact = one("poisson_fem_ExactError.dat", n); post = one("poisson_fem_PostError.dat", t.size());
		// the document must tell the same story
		Vtk d; const std::string& doc = f.at("poisson_fem.vtu"); VtkReader r(doc);
		if (!r.read(d)) fail("incomplete-file", "poisson_fem.vtu is not a complete document: %s", r.err.c_str());
		SIM_CHECK(d.points == n && d.cells == t.size() && d.pts.v.size() == 3 * n, "files-disagree", "poisson_fem.vtu has %zu points and %zu cells, the data files %zu and %zu", d.points, d.cells, n, t.size());
		for (size_t i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) SIM_CHECK(printed(d.pts.v[3 * i + k], p[i][k]), "files-disagree", "poisson_fem.vtu point %zu differs from the data file", i);
		auto same = [&](const std::vector<std::pair<std::string, VtkArray> >& sec, const char* name, const std::vector<double>& want) {
			size_t c; const VtkArray* a = vtk_find(sec, name, &c);
			SIM_CHECK(a && c == 1 && a->v.size() == want.size(), "files-disagree", "poisson_fem.vtu: array %s missing or of the wrong length", name);
			for (size_t i = 0; i < want.size(); ++i) SIM_CHECK(printed(a->v[i], want[i]), "files-disagree", "poisson_fem.vtu: %s value %zu is %s, the data file says %s", name, i, str(a->v[i]), str(want[i]));
		};
		same(d.pdata, "Results", x); same(d.cdata, "PostError", post);
		if (grid) same(d.pdata, "ExactError", exact);
		const VtkArray* co = vtk_find(d.cellsec, "connectivity"); size_t per = order == 2 ? 6 : 3;
		SIM_CHECK(co && co->v.size() == per * t.size(), "files-disagree", "poisson_fem.vtu: connectivity has %zu numbers for %zu cells", co ? co->v.size() : 0, t.size());
		double size = 0; for (auto& a : p) size = std::max(size, std::max(std::fabs(a[0]), std::fabs(a[1])));
		for (size_t e = 0; e < t.size(); ++e) {
			std::array<size_t, 6> c; c.fill(n);
			for (size_t k = 0; k < per; ++k) {
				double v = co->v[per * e + k]; SIM_CHECK(v >= 0 && v < (double)n, "files-disagree", "poisson_fem.vtu: cell %zu refers to point %s", e, str(v));
				if (k < 3) { SIM_CHECK((size_t)v == t[e][k], "files-disagree", "poisson_fem.vtu: cell %zu corner %zu differs from poisson_fem_mesh.dat", e, k); c[k] = (size_t)v; }
				else { // a mid-side node: find its side
					int s = -1;
					for (int w = 0; w < 3; ++w) { const Pt &a = p[t[e][w]], &b = p[t[e][(w + 1) % 3]], &m = p[(size_t)v]; if (std::fabs(m[0] - (a[0] + b[0]) / 2) < 1e-5 * size && std::fabs(m[1] - (a[1] + b[1]) / 2) < 1e-5 * size) s = w; }
					SIM_CHECK(s >= 0 && c[3 + s] == n, "mid-node", "cell %zu: node %zu is not in the middle of a side of its own", e, (size_t)v);
					c[3 + s] = (size_t)v;
				}
			}
			q.push_back(c);
		}
	}
	// values and gradients of all local shape functions at barycentric l
	void shape(const Pt g[3], const double l[3], double* v, Pt* d) const {
		if (order == 1) { for (int i = 0; i < 3; ++i) { v[i] = l[i]; d[i] = g[i]; } return; }
		for (int i = 0; i < 3; ++i) { v[i] = l[i] * (2 * l[i] - 1); for (int k = 0; k < 2; ++k) d[i][k] = (4 * l[i] - 1) * g[i][k]; }
		for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; v[3 + i] = 4 * l[i] * l[j]; for (int k = 0; k < 2; ++k) d[3 + i][k] = 4 * (l[i] * g[j][k] + l[j] * g[i][k]); }
	}
	// untransposed: gradients mapped with the inverse Jacobian instead of its transpose (known finding of fem.cpp)
	void model(bool untransposed = false) {
		size_t per = order == 2 ? 6 : 3;
		K.assign(n, std::vector<double>(n, 0)); F.assign(n, 0); patch.assign(n, 0); bound.assign(n, false); hmax = 0;
		// tensor Gauss rule (5 points) collapsed onto the triangle
		static const double gx[5] = { -0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640 }, gw[5] = { 0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891 };
		for (size_t e = 0; e < t.size(); ++e) {
			Pt c[3]; for (int k = 0; k < 3; ++k) c[k] = p[t[e][k]];
			double det = (c[1][0] - c[0][0]) * (c[2][1] - c[0][1]) - (c[2][0] - c[0][0]) * (c[1][1] - c[0][1]);
			Pt g[3]; double i00 = (c[2][1] - c[0][1]) / det, i01 = -(c[2][0] - c[0][0]) / det, i10 = -(c[1][1] - c[0][1]) / det, i11 = (c[1][0] - c[0][0]) / det;
			if (untransposed) std::swap(i01, i10); // rows of the inverse are the gradients of the local coordinates
			g[1] = Pt{ { i00, i01 } }; g[2] = Pt{ { i10, i11 } }; g[0] = Pt{ { -i00 - i10, -i01 - i11 } };
			for (int k = 0; k < 3; ++k) { const Pt &a = c[(k + 1) % 3], &b = c[(k + 2) % 3]; hmax = std::max(hmax, std::hypot(a[0] - b[0], a[1] - b[1])); }
			for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) {
				double s = (1 + gx[a]) / 2, u = (1 + gx[b]) / 2, w = gw[a] * gw[b] / 4 * (1 - s) * std::fabs(det);
				double l[3] = { 1 - s - u * (1 - s), s, u * (1 - s) }, v[6]; Pt d[6]; shape(g, l, v, d);
				double px = 0, py = 0; for (int k = 0; k < 3; ++k) { px += l[k] * c[k][0]; py += l[k] * c[k][1]; }
				double f = source(px, py);
				for (size_t i = 0; i < per; ++i) patch[q[e][i]] += w / 3;
				for (size_t i = 0; i < per; ++i) { F[q[e][i]] += w * f * v[i]; for (size_t j = 0; j < per; ++j) K[q[e][i]][q[e][j]] += w * (d[i][0] * d[j][0] + d[i][1] * d[j][1]); }
			}
		}
		std::map<Side, int> cnt;
		for (auto& e : t) for (int k = 0; k < 3; ++k) cnt[side(e[k], e[(k + 1) % 3])]++;
		for (size_t e = 0; e < t.size(); ++e) for (int k = 0; k < 3; ++k) if (cnt[side(t[e][k], t[e][(k + 1) % 3])] == 1) { bound[t[e][k]] = bound[t[e][(k + 1) % 3]] = true; if (order == 2) bound[q[e][3 + k]] = true; }
		kmax = 0; for (auto& r : K) for (auto v : r) kmax = std::max(kmax, std::fabs(v));
	}
	static std::vector<double> solve(std::vector<std::vector<double> > M, std::vector<double> b) { // SPD elimination
		size_t n = b.size();
		for (size_t k = 0; k < n; ++k) for (size_t i = k + 1; i < n; ++i) { double f = M[i][k] / M[k][k]; if (f == 0) continue; for (size_t j = k; j < n; ++j) M[i][j] -= f * M[k][j]; b[i] -= f * b[k]; }
		for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= M[k][j] * b[j]; b[k] /= M[k][k]; }
		return b;
	}
	bool system_matches(size_t& wi, size_t& wj, double& want) const {
		for (wi = 0; wi < n; ++wi) for (wj = 0; wj < n; ++wj) {
			if (wi == wj && bound[wi]) continue;
			want = bound[wi] || bound[wj] ? 0 : K[wi][wj];
			if (!(std::fabs(A[wi][wj] - want) <= 3e-4 * kmax)) return false;
		}
		return true;
	}
	bool known_assembly = false;
	void check(bool grid, size_t N, bool smooth) {
		size_t wi, wj; double want;
		if (!system_matches(wi, wj, want)) {
			double w = want; size_t i = wi, j = wj;
			if (!grid) { model(true); known_assembly = system_matches(wi, wj, want); }
			if (!known_assembly) fail("system", "entry (%zu,%zu) of the system is %s, the stiffness matrix of the mesh has %s", i, j, str(A[i][j]), str(w));
		}
		size_t inner = 0;
		for (size_t i = 0; i < n; ++i) {
			if (bound[i]) SIM_CHECK(std::fabs(x[i]) <= 1e-12, "boundary-value", "node %zu (%s,%s) is on the boundary but its value is %s", i, str(p[i][0]), str(p[i][1]), str(x[i])); else ++inner;
			if (bound[i]) SIM_CHECK(A[i][i] > 0, "system", "boundary row %zu has diagonal %s", i, str(A[i][i]));
			if (bound[i]) SIM_CHECK(B[i] == 0, "system", "right-hand side of boundary node %zu is %s", i, str(B[i]));
			else SIM_CHECK(std::fabs(B[i] - F[i]) <= 0.1 * hmax * hmax * M_PI * M_PI * patch[i] + 1e-6, "system", "right-hand side of node %zu is %s, expected about %s", i, str(B[i]), str(F[i]));
		}
		if (grid) {
			SIM_CHECK(p.size() == (order * N + 1) * (order * N + 1) && t.size() == 2 * N * N, "mesh", "the %zux%zu grid has %zu nodes and %zu triangles", N, N, p.size(), t.size());
			for (size_t i = 0; i < n; ++i) SIM_CHECK(std::fabs(exact[i] - std::fabs(solution(p[i][0], p[i][1]) - x[i])) <= 2e-6, "exact-error", "reported error of node %zu is %s, but the solution there is %s and the result %s", i, str(exact[i]), str(solution(p[i][0], p[i][1])), str(x[i]));
		} else for (size_t i = 0; i < n; ++i) SIM_CHECK(exact[i] == 0, "exact-error", "an error of %s is reported although no exact solution is known", str(exact[i]));
		// the program's own system is solved
		std::vector<size_t> in; for (size_t i = 0; i < n; ++i) if (!bound[i]) in.push_back(i);
		std::vector<std::vector<double> > M(in.size(), std::vector<double>(in.size())); std::vector<double> b;
		for (size_t i = 0; i < in.size(); ++i) { for (size_t j = 0; j < in.size(); ++j) M[i][j] = K[in[i]][in[j]]; b.push_back(B[in[i]]); }
		ref = solve(M, b);
		double worst = 0, scale = 0; wi = 0;
		for (size_t i = 0; i < in.size(); ++i) { scale = std::max(scale, std::fabs(ref[i])); double d = std::fabs(ref[i] - x[in[i]]); if (d > worst) { worst = d; wi = in[i]; } }
		SIM_CHECK(worst <= 1.5e-3 + 1e-4 * scale, "solution", "result at node %zu (%s,%s) is %s, off by %s from the solution of the finite-element system", wi, str(p[wi][0]), str(p[wi][1]), str(x[wi]), str(worst));
		if (grid) {
			double h = 1.0 / (double)N, bad = 0;
			for (size_t i = 0; i < n; ++i) bad = std::max(bad, std::fabs(solution(p[i][0], p[i][1]) - x[i]));
			sim::note("max nodal error %.3g h %.3g solver %.3g", bad, h, worst);
			double bound_ = (order == 1 ? 0.09 * h * h : 0.05 * h * h * h) + 2e-3;
			SIM_CHECK(bad <= bound_, "accuracy", "nodal error %s on the %zux%zu grid with order %d exceeds %s", str(bad), N, N, order, str(bound_));
		} else sim::note("solver error %.3g scale %.3g", worst, scale);
		if (inner) sim::nontrivial();
	}
};
} // namespace h
