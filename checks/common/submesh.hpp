// One rank's part of a mesh, with the data a distributed run would hold there, in a single process
// (needs mockmpi for the rank number)
#ifndef SUBMESH_HPP
#define SUBMESH_HPP
#include "recon.hpp"
#include "parts.hpp"
#include "mockmpi.hpp"
namespace sm {
using namespace fvens;
typedef rc::V V;
typedef rc::Mesh Mesh;
struct Sub {
	Mesh m;
	std::vector<int> cell, face;        // local cell (then neighbours across cuts) -> global cell, local face -> global face
	std::vector<char> turned;           // face seen from the other side
	V cc, gh;
	amat::Array2d<double> gr;
	bool ok = true;
	Sub(const Mesh& gm, const rc::Geo& G, const std::vector<int>& dist, int r, int nr, const std::string& what) {
		mk::setRank(r, nr);
		{ pt::AnyPartition P(gm, dist); m = P.restrictMeshToPartitions(); fvens::preprocessMesh<double>(m); }
		mk::setRank(0, 0);
		const int ne = m.gnelem(), nc = m.gnConnFace();
		for(int i = 0; i < ne; i++) cell.push_back(m.gglobalElemIndex(i));
		for(int i = 0; i < nc; i++) cell.push_back(m.gconnface(i,3));
		for(int i = 0; i < nc; i++) if(m.gintfac(m.gConnBFaceStart()+i,1) != ne+i) { hx::fail("subdomain", what + ": numbering of the cells across cuts"); ok = false; return; }
		typedef std::array<double,2> P2;
		auto key = [](const Mesh& q, int f) { P2 a = {{q.gcoords(q.gintfac(f,2),0), q.gcoords(q.gintfac(f,2),1)}}, b = {{q.gcoords(q.gintfac(f,3),0), q.gcoords(q.gintfac(f,3),1)}}; return a < b ? std::make_pair(a,b) : std::make_pair(b,a); };
		std::map<std::pair<P2,P2>,int> gf;
		for(int f = 0; f < gm.gnaface(); f++) gf[key(gm,f)] = f;
		gr.resize(m.gnaface(), 2);
		gh.assign(2*std::max<int>(1,m.gnbface()), 0);
		for(int f = 0; f < m.gnaface(); f++) {
			auto it = gf.find(key(m,f));
			if(it == gf.end()) { hx::fail("subdomain", what + ": a face that is not one of the mesh"); ok = false; return; }
			face.push_back(it->second);
			for(int k = 0; k < 2; k++) { gr(f,k) = G.f(it->second,k); if(f < m.gPhyBFaceEnd()) gh[2*f+k] = G.g(it->second,k); }
			turned.push_back(cell[m.gintfac(f,0)] != gm.gintfac(it->second,0));
		}
		for(int c : cell) for(int k = 0; k < 2; k++) cc.push_back(G.c(c,k));
	}
	/// per-cell data of the whole mesh -> here (cells across cuts included)
	V cells(const V& g, int n) const { V l; for(int c : cell) for(int k = 0; k < n; k++) l.push_back(g[c*n+k]); return l; }
	V bfaces(const V& g, int n) const { V l; for(int f = 0; f < m.gnbface(); f++) for(int k = 0; k < n; k++) l.push_back(g[face[f]*n+k]); l.resize(l.size()+1); return l; }
};
/// assignments of the cells to ranks: all to two ranks if the mesh is small, some patterns otherwise
inline void forSubs(const Mesh& gm, const rc::Geo& G, bool quick, const std::string& what, const std::function<void(const Sub&, const std::string&)>& f) {
	const int n = gm.gnelem();
	if(n < 2) return;
	// G belongs to the prepared mesh: the numbering must be that of the mesh being cut
	for(int f = 0; f < gm.gnaface(); f++) for(int k = 0; k < 2; k++)
		if(std::fabs(G.f(f,k) - 0.5*(gm.gcoords(gm.gintfac(f,2),k)+gm.gcoords(gm.gintfac(f,3),k))) > 1e-12*(1+std::fabs(G.f(f,k)))) { hx::count("differently_numbered"); return; }
	auto go = [&](const std::vector<int>& d, int nr) {
		for(int r = 0; r < nr; r++) {
			const std::string w = what + ":" + pt::str(d) + hx::fmt("@%d", r);
			Sub S(gm, G, d, r, nr, w);
			if(S.ok && S.m.gnelem() > 0) f(S, w);
		}
	};
	if(n <= (quick ? 4 : 6)) pt::forAssignments(n, 2, [&](const std::vector<int>& d) { if(d[0] == 0) go(d, 2); });
	else {
		std::vector<int> a(n), b(n), c(n), e(n);
		for(int i = 0; i < n; i++) { a[i] = i%2; b[i] = i >= n/2; c[i] = i == n/2 ? 1 : 0; e[i] = (int)(2*mg::hash01(i,3,n)); }
		go(a,2); go(b,2); go(c,2);
		if(std::set<int>(e.begin(), e.end()).size() == 2) go(e,2);
	}
	if(n >= 3) { std::vector<int> d(n); for(int i = 0; i < n; i++) d[i] = i%3; go(d, 3); }
}
} // namespace
#endif
