// Independent reader for the XML documents the VTK exporter writes.
#pragma once
#include "h.h"
#include <map>
namespace h {
struct VtkArray { std::map<std::string, std::string> attr; std::vector<double> v; };
struct Vtk {
	size_t points, cells;
	VtkArray pts; std::vector<std::pair<std::string, VtkArray> > cellsec, pdata, cdata;
	std::map<std::string, std::string> pattr;
};
struct VtkReader {
	const std::string& s; size_t p; std::string err;
	explicit VtkReader(const std::string& d) : s(d), p(0) {}
	void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
	bool bad(const char* e) { if (err.empty()) { char b[200]; snprintf(b, sizeof b, "%s at byte %zu of %zu", e, p, s.size()); err = b; } return false; }
	// <name a="b" ...> or <?name ...?> ; '/' prefix for closing tags
	bool tag(std::string& name, std::map<std::string, std::string>& attr) {
		ws(); attr.clear(); name.clear();
		if (p >= s.size() || s[p] != '<') return bad("tag expected");
		++p;
		while (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '>') name += s[p++];
		while (true) {
			ws();
			if (p >= s.size()) return bad("unterminated tag");
			if (s[p] == '>') { ++p; return true; }
			if (s[p] == '?' || s[p] == '/') { ++p; continue; }
			std::string k, v;
			while (p < s.size() && s[p] != '=' && s[p] != '>' && !isspace((unsigned char)s[p])) k += s[p++];
			if (p + 1 >= s.size() || s[p] != '=' || s[p + 1] != '"') return bad("attribute expected");
			p += 2;
			while (p < s.size() && s[p] != '"') {
				if (s[p] == '<') return bad("'<' in an attribute");
				if (s[p] == '&') {
					static const char* ent[][2] = { { "&amp;", "&" }, { "&lt;", "<" }, { "&gt;", ">" }, { "&quot;", "\"" }, { "&apos;", "'" } };
					bool ok = false;
					for (auto& e : ent) if (!s.compare(p, strlen(e[0]), e[0])) { v += e[1]; p += strlen(e[0]); ok = true; break; }
					if (ok) continue;
					return bad("bare '&' in an attribute");
				}
				v += s[p++];
			}
			if (p >= s.size()) return bad("unterminated attribute");
			++p; attr[k] = v;
		}
	}
	bool expect(const char* n, std::map<std::string, std::string>& a) { std::string t; if (!tag(t, a)) return false; if (t != n) { err = "<" + std::string(n) + "> expected, found <" + t + ">"; return false; } return true; }
	bool expect(const char* n) { std::map<std::string, std::string> a; return expect(n, a); }
	bool numbers(std::vector<double>& v) {
		while (true) {
			ws();
			if (p >= s.size()) return bad("unterminated array");
			if (s[p] == '<') return true;
			char* e; double d = strtod(s.c_str() + p, &e);
			if (e == s.c_str() + p) return bad("number expected");
			p = (size_t)(e - s.c_str()); v.push_back(d);
			if (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '<') return bad("separator expected after a number");
		}
	}
	bool section(const char* end, std::vector<std::pair<std::string, VtkArray> >& out) {
		while (true) {
			std::string t; VtkArray a; if (!tag(t, a.attr)) return false;
			if (t == end) return true;
			if (t == "DataArray") {
				static const char* types[] = { "Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64" };
				bool known = false; for (auto k : types) known = known || a.attr["type"] == k;
				if (!known || a.attr["format"] != "ascii") { err = "array '" + a.attr["Name"] + "' of type '" + a.attr["type"] + "' and format '" + a.attr["format"] + "'"; return false; }
			}
			if (t != "DataArray") { err = "<DataArray> expected, found <" + t + ">"; return false; }
			if (!numbers(a.v) || !expect("/DataArray")) return false;
			if (a.attr["type"][0] != 'F') for (double v : a.v) if (v != std::floor(v)) { err = "fraction in the integer array '" + a.attr["Name"] + "'"; return false; }
			out.push_back(std::make_pair(a.attr["Name"], a));
		}
	}
	bool read(Vtk& d) {
		std::map<std::string, std::string> a;
		if (!expect("?xml", a)) return false;
		if (a["version"] != "1.0" && a["version"] != "1.1") { err = "no XML version"; return false; }
		if (!expect("VTKFile", a)) return false;
		if (a["type"] != "UnstructuredGrid") { err = "wrong VTKFile type"; return false; }
		if (a["version"] != "0.1" && a["version"] != "1.0") { err = "unknown VTKFile version " + a["version"]; return false; }
		if (a["byte_order"] != "LittleEndian" && a["byte_order"] != "BigEndian") { err = "unknown byte order " + a["byte_order"]; return false; }
		if (!expect("UnstructuredGrid")) return false;
		if (!expect("Piece", a)) return false;
		d.points = strtoull(a["NumberOfPoints"].c_str(), nullptr, 10); d.cells = strtoull(a["NumberOfCells"].c_str(), nullptr, 10);
		std::vector<std::pair<std::string, VtkArray> > ps;
		if (!expect("Points") || !section("/Points", ps)) return false;
		if (ps.size() != 1) { err = "exactly one array expected in <Points>"; return false; }
		d.pts = ps[0].second;
		if (!expect("Cells") || !section("/Cells", d.cellsec)) return false;
		if (!expect("PointData", d.pattr) || !section("/PointData", d.pdata)) return false;
		if (!expect("CellData") || !section("/CellData", d.cdata)) return false;
		if (!expect("/Piece") || !expect("/UnstructuredGrid") || !expect("/VTKFile")) return false;
		ws();
		if (p != s.size()) return bad("text after the document");
		return true;
	}
};
inline bool printed(double got, double want) { // printed with the default six digits
	if (got == want) return true;
	if (std::isnan(got) || std::isnan(want)) return std::isnan(got) && std::isnan(want);
	return std::fabs(got - want) <= 2e-5 * std::fabs(want);
}
inline const VtkArray* vtk_find(const std::vector<std::pair<std::string, VtkArray> >& v, const std::string& n, size_t* count = nullptr) {
	const VtkArray* r = nullptr; size_t c = 0;
	for (auto& q : v) if (q.first == n) { r = &q.second; ++c; }
	if (count) *count = c;
	return r;
}
} // namespace h
