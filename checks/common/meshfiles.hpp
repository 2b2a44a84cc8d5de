// Printing a reference mesh as Gmsh 2 / SU2 in many legal layouts
#ifndef MESHFILES_HPP
#define MESHFILES_HPP
#include "meshgen.hpp"
namespace mg {

struct GmshLayout {
	int nbtag = 2, ndtag = 2;
	int ws = 0;            // 0 single spaces, 1 extra blanks/tabs and blank lines, 2 CRLF
	int numfmt = 0;        // 0 %.17g 1 %.16e 2 %+.17g
	bool physnames = false, trailing = false, finalnewline = true;
	bool vary = false;     // each edge and cell has as many tags as the mesh lists for it
	const char *version = "2.2 0 8";
	std::string str() const { return hx::fmt("gmsh[b%d d%d%s ws%d num%d%s%s%s v%s]", nbtag, ndtag, vary?" varied":"", ws, numfmt, physnames?" phys":"", trailing?" trail":"", finalnewline?"":" nonl", version); }
};
inline std::string num(double x, int f) {
	return f == 1 ? hx::fmt("%.16e", x) : f == 2 ? hx::fmt("%+.17g", x) : hx::fmt("%.17g", x);
}
inline int tagOf(const std::vector<int>& t, int k) { return k < (int)t.size() ? t[k] : 1000 + k; }

/// datastart/dataend: offsets of the first and one past the last data byte (counts included)
inline std::string gmshText(const RM& m, const GmshLayout& L, std::vector<size_t> *tokstart = nullptr) {
	std::string s;
	const std::string nl = L.ws == 2 ? "\r\n" : (L.ws == 1 ? " \n" : "\n"), sp = L.ws == 1 ? "  \t" : " ";
	auto tok = [&](const std::string& t) { if(tokstart) tokstart->push_back(s.size()); s += t; };
	s += "$MeshFormat" + std::string(L.ws==2?"\r\n":"\n") + L.version + (L.ws==2?"\r\n":"\n") + "$EndMeshFormat" + (L.ws==2?"\r\n":"\n");
	if(L.physnames) s += "$PhysicalNames\n3\n1 2 \"wall\"\n1 4 \"farfield\"\n2 1 \"gas\"\n$EndPhysicalNames\n";
	s += "$Nodes" + std::string(L.ws==2?"\r\n":"\n");
	tok(hx::fmt("%d", (int)m.p.size())); s += nl;
	for(size_t i = 0; i < m.p.size(); i++) {
		if(L.ws == 1 && i % 3 == 1) s += "\n";
		tok(hx::fmt("%d", (int)i+1)); s += sp; tok(num(m.p[i][0], L.numfmt)); s += sp; tok(num(m.p[i][1], L.numfmt)); s += sp; tok("0"); s += nl;
	}
	s += "$EndNodes" + nl + "$Elements" + nl;
	tok(hx::fmt("%d", (int)(m.e.size()+m.b.size()))); s += nl;
	int id = 1;
	for(size_t i = 0; i < m.b.size(); i++) {
		tok(hx::fmt("%d", id++)); s += sp; const int nt = L.vary ? (int)m.bt[i].size() : L.nbtag; tok("1"); s += sp; tok(hx::fmt("%d", nt));
		for(int k = 0; k < nt; k++) { s += sp; tok(hx::fmt("%d", tagOf(m.bt[i],k))); }
		for(int k = 0; k < 2; k++) { s += sp; tok(hx::fmt("%d", m.b[i][k]+1)); }
		s += nl;
	}
	for(size_t i = 0; i < m.e.size(); i++) {
		if(L.ws == 1 && i % 2 == 1) s += "\n\n";
		tok(hx::fmt("%d", id++)); s += sp; tok(m.e[i].size() == 3 ? "2" : "3"); const int nt = L.vary ? (int)m.reg[i].size() : L.ndtag; s += sp; tok(hx::fmt("%d", nt));
		for(int k = 0; k < nt; k++) { s += sp; tok(hx::fmt("%d", tagOf(m.reg[i],k))); }
		for(size_t k = 0; k < m.e[i].size(); k++) { s += sp; tok(hx::fmt("%d", m.e[i][k]+1)); }
		s += nl;
	}
	s += "$EndElements";
	if(L.finalnewline) s += nl;
	if(L.trailing) s += "$NodeData\n1\n\"A\"\n1\n0.0\n3\n0\n1\n1\n1 2.5\n$EndNodeData\n";
	return s;
}

struct Su2Layout {
	int eq = 0;            // "K= n", "K=n", "K = n"
	int ws = 0;
	int numfmt = 0;
	bool comments = false, finalnewline = true, twonpoin = false, emptymarker = false, reversemarkers = false;
	std::string str() const { return hx::fmt("su2[eq%d ws%d num%d%s%s%s%s%s]", eq, ws, numfmt, comments?" com":"", finalnewline?"":" nonl", twonpoin?" np2":"", emptymarker?" empty":"", reversemarkers?" rev":""); }
};
/// order: on return, boundary edges in the order the file lists them
inline std::string su2Text(const RM& m, const Su2Layout& L, std::vector<int>& order, std::vector<size_t> *tokstart = nullptr) {
	std::string s;
	const std::string nl = L.ws == 2 ? "\r\n" : (L.ws == 1 ? " \n" : "\n"), sp = L.ws == 1 ? " \t " : " ";
	auto tok = [&](const std::string& t) { if(tokstart) tokstart->push_back(s.size()); s += t; };
	auto kv = [&](const char *k, const std::string& v) { s += k; s += L.eq == 0 ? "= " : L.eq == 1 ? "=" : " = "; tok(v); s += nl; };
	auto com = [&](const char *t) { if(L.comments) s += std::string("% ") + t + nl; };
	com("Problem dimension"); kv("NDIME", "2");
	com("Inner element connectivity"); kv("NELEM", hx::fmt("%d", (int)m.e.size()));
	for(size_t i = 0; i < m.e.size(); i++) {
		tok(m.e[i].size() == 3 ? "5" : "9");
		for(int n : m.e[i]) { s += sp; tok(hx::fmt("%d", n)); }
		s += sp; tok(hx::fmt("%d", (int)i)); s += nl;
	}
	com("Node coordinates"); kv("NPOIN", L.twonpoin ? hx::fmt("%d %d", (int)m.p.size(), (int)m.p.size()) : hx::fmt("%d", (int)m.p.size()));
	for(size_t i = 0; i < m.p.size(); i++) {
		tok(num(m.p[i][0], L.numfmt)); s += sp; tok(num(m.p[i][1], L.numfmt)); s += sp; tok(hx::fmt("%d", (int)i)); s += nl;
	}
	std::vector<int> marks;
	for(auto& t : m.bt) if(std::find(marks.begin(), marks.end(), t[0]) == marks.end()) marks.push_back(t[0]);
	if(L.reversemarkers) std::reverse(marks.begin(), marks.end());
	if(L.emptymarker) marks.insert(marks.begin() + marks.size()/2, 999);
	com("Boundary elements"); kv("NMARK", hx::fmt("%d", (int)marks.size()));
	order.clear();
	for(int mk : marks) {
		std::vector<int> fs;
		for(size_t i = 0; i < m.b.size(); i++) if(m.bt[i][0] == mk) fs.push_back((int)i);
		kv("MARKER_TAG", hx::fmt("%d", mk));
		kv("MARKER_ELEMS", hx::fmt("%d", (int)fs.size()));
		for(int f : fs) { order.push_back(f); tok("3"); for(int k = 0; k < 2; k++) { s += sp; tok(hx::fmt("%d", m.b[f][k])); } s += nl; }
	}
	if(!L.finalnewline) while(!s.empty() && (s.back() == '\n' || s.back() == '\r' || s.back() == ' ')) s.pop_back();
	return s;
}
inline void writeFile(const std::string& path, const std::string& text) {
	std::ofstream o(path, std::ios::binary);
	o << text;
	o.close();
	if(!o) hx::internal_error("cannot write " + path);
}
} // namespace mg
#endif
