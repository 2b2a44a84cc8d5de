// Small-mesh families, renumberings and a naive reference of what a mesh is.
#ifndef MESHGEN_HPP
#define MESHGEN_HPP
#include "hx.hpp"
#include "aconstants.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/mesh.hpp"
#include "mesh/ameshutils.hpp"
#include "mesh/meshpartitioning.hpp"

namespace mg {
using fvens::fint;
typedef fvens::UMesh<double,2> Mesh;

struct RM {
	std::string name;
	std::vector<std::array<double,2>> p;
	std::vector<std::vector<int>> e;                 // CCW nodes
	std::vector<std::array<int,2>> b;                // boundary edges (any orientation)
	std::vector<std::vector<int>> bt;                // tags of each boundary edge
	std::vector<std::vector<int>> reg;               // tags of each cell
};

inline double hash01(int a, int b, int c) {
	uint64_t h = hx::fnv(&a, sizeof a); h = hx::fnv(&b, sizeof b, h); h = hx::fnv(&c, sizeof c, h);
	h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
	return (double)(h % 100003) / 100003.0;
}

/// Geometry of logical point (s,t) in [0,1]^2; h: grid spacing
enum Geom { UNIFORM = 0, DISTORTED, STRETCHED, ROTATED, NGEOM };
inline std::array<double,2> place(Geom g, int i, int j, int nx, int ny) {
	double x = (double)i/nx, y = (double)j/ny;
	switch(g) {
	case UNIFORM: return {x, y};
	case DISTORTED: {
		x += 0.22/nx*(hash01(i,j,1)-0.5); y += 0.22/ny*(hash01(i,j,2)-0.5);
		return {1.3*x + 0.2*y, y + 0.1*x*x};
	}
	case STRETCHED: return {2.0*x - 0.7, 0.05*(0.2*y + 0.8*y*y)};
	case ROTATED: {
		const double a = 0.6; x *= 1.7; x += 0.15/nx*(hash01(i,j,5)-0.5); y += 0.15/ny*(hash01(i,j,6)-0.5);
		return {3.0 + std::cos(a)*x - std::sin(a)*y, -2.0 + std::sin(a)*x + std::cos(a)*y};
	}
	default: break;
	}
	return {x,y};
}
inline const char *gname(Geom g) { static const char *n[] = {"uni","dist","str","rot"}; return n[g]; }

/// nx x ny block; pat in base 3: 0 quad, 1 diagonal '/', 2 diagonal '\'. side tags: bottom, right, top, left
inline RM grid(int nx, int ny, long pat, Geom g, std::array<int,4> tags = {{2,3,4,5}}) {
	RM m;
	m.name = hx::fmt("grid%dx%d/p%ld/%s", nx, ny, pat, gname(g));
	for(int j = 0; j <= ny; j++) for(int i = 0; i <= nx; i++) m.p.push_back(place(g,i,j,nx,ny));
	auto id = [&](int i, int j) { return j*(nx+1)+i; };
	long q = pat;
	for(int j = 0; j < ny; j++) for(int i = 0; i < nx; i++) {
		const int a = id(i,j), b = id(i+1,j), c = id(i+1,j+1), d = id(i,j+1);
		switch(q % 3) {
		case 0: m.e.push_back({a,b,c,d}); break;
		case 1: m.e.push_back({a,b,c}); m.e.push_back({a,c,d}); break;
		case 2: m.e.push_back({a,b,d}); m.e.push_back({b,c,d}); break;
		}
		q /= 3;
	}
	for(int i = 0; i < nx; i++) { m.b.push_back({{id(i,0), id(i+1,0)}}); m.bt.push_back({tags[0], 10+i}); }
	for(int j = 0; j < ny; j++) { m.b.push_back({{id(nx,j), id(nx,j+1)}}); m.bt.push_back({tags[1], 20+j}); }
	for(int i = 0; i < nx; i++) { m.b.push_back({{id(i+1,ny), id(i,ny)}}); m.bt.push_back({tags[2], 30+i}); }
	for(int j = 0; j < ny; j++) { m.b.push_back({{id(0,j+1), id(0,j)}}); m.bt.push_back({tags[3], 40+j}); }
	for(size_t i = 0; i < m.e.size(); i++) m.reg.push_back({(int)(1 + i%3), (int)(100+i)});
	return m;
}

/// Ring of nt x nr cells around a hole; tags: inner, outer
inline RM ring(int nt, int nr, long pat, std::array<int,2> tags = {{2,4}}, double r0 = 0.5, double r1 = 2.0) {
	RM m;
	m.name = hx::fmt("ring%dx%d/p%ld", nt, nr, pat);
	auto id = [&](int k, int r) { return r*nt + (k % nt); };
	for(int r = 0; r <= nr; r++) for(int k = 0; k < nt; k++) {
		const double th = 2*M_PI*k/nt + 0.3, rr = r0 + (r1-r0)*r/nr;
		m.p.push_back({{rr*std::cos(th) + 0.1, 1.1*rr*std::sin(th)}});
	}
	long q = pat;
	for(int r = 0; r < nr; r++) for(int k = 0; k < nt; k++) {
		const int a = id(k,r), b = id(k,r+1), c = id(k+1,r+1), d = id(k+1,r);
		switch(q % 3) {
		case 0: m.e.push_back({a,b,c,d}); break;
		case 1: m.e.push_back({a,b,c}); m.e.push_back({a,c,d}); break;
		case 2: m.e.push_back({a,b,d}); m.e.push_back({b,c,d}); break;
		}
		q /= 3;
	}
	for(int k = 0; k < nt; k++) { m.b.push_back({{id(k+1,0), id(k,0)}}); m.bt.push_back({tags[0], 10+k}); }
	for(int k = 0; k < nt; k++) { m.b.push_back({{id(k,nr), id(k+1,nr)}}); m.bt.push_back({tags[1], 20+k}); }
	for(size_t i = 0; i < m.e.size(); i++) m.reg.push_back({(int)(1 + i%3), (int)(100+i)});
	return m;
}

/// n triangles around a centre point
inline RM fan(int n, std::array<int,2> tags = {{2,4}}) {
	RM m;
	m.name = hx::fmt("fan%d", n);
	m.p.push_back({{0.05,-0.03}});
	for(int k = 0; k < n; k++) m.p.push_back({{(1+0.2*hash01(k,0,3))*std::cos(2*M_PI*k/n+0.1), (1+0.2*hash01(k,0,4))*std::sin(2*M_PI*k/n+0.1)}});
	for(int k = 0; k < n; k++) m.e.push_back({0, 1+k, 1+(k+1)%n});
	for(int k = 0; k < n; k++) { m.b.push_back({{1+k, 1+(k+1)%n}}); m.bt.push_back({tags[k%2], 50+k}); }
	for(size_t i = 0; i < m.e.size(); i++) m.reg.push_back({(int)(1 + i%3), (int)(100+i)});
	return m;
}

inline RM single(int nn) {
	RM m;
	m.name = hx::fmt("single%d", nn);
	for(int k = 0; k < nn; k++) m.p.push_back({{std::cos(2*M_PI*k/nn+0.2)*1.4, std::sin(2*M_PI*k/nn+0.2)}});
	m.e.push_back({});
	for(int k = 0; k < nn; k++) { m.e[0].push_back(k); m.b.push_back({{k,(k+1)%nn}}); m.bt.push_back({2+k, 60+k}); }
	m.reg.push_back({7, 100});
	return m;
}

/// L-shaped domain of three quads/triangle pairs: has a re-entrant corner, and a cell touching two boundaries
inline RM lshape(long pat) {
	RM m;
	m.name = hx::fmt("lshape/p%ld", pat);
	// points: (0,0)(1,0)(2,0) (0,1)(1,1)(2,1) (0,2)(1,2)
	const double P[8][2] = {{0,0},{1,0.05},{2,-0.1},{0.1,1},{1,1},{2.1,1.1},{-0.1,2},{0.9,2.05}};
	for(auto& q : P) m.p.push_back({{q[0],q[1]}});
	const int Q[3][4] = {{0,1,4,3},{1,2,5,4},{3,4,7,6}};
	long q = pat;
	for(auto& c : Q) {
		switch(q % 3) {
		case 0: m.e.push_back({c[0],c[1],c[2],c[3]}); break;
		case 1: m.e.push_back({c[0],c[1],c[2]}); m.e.push_back({c[0],c[2],c[3]}); break;
		case 2: m.e.push_back({c[0],c[1],c[3]}); m.e.push_back({c[1],c[2],c[3]}); break;
		}
		q /= 3;
	}
	const int B[8][2] = {{0,1},{1,2},{2,5},{5,4},{4,7},{7,6},{6,3},{3,0}};
	for(int k = 0; k < 8; k++) { m.b.push_back({{B[k][0],B[k][1]}}); m.bt.push_back({2+(k/2)%3, 70+k}); }
	for(size_t i = 0; i < m.e.size(); i++) m.reg.push_back({(int)(1 + i%3), (int)(100+i)});
	return m;
}

inline long ipow(long a, int b) { long r = 1; while(b--) r *= a; return r; }

// ------------------------------------------------------------------ renumberings

inline RM permCells(const RM& m, const std::vector<int>& newToOld) {
	RM r = m;
	for(size_t i = 0; i < m.e.size(); i++) { r.e[i] = m.e[newToOld[i]]; r.reg[i] = m.reg[newToOld[i]]; }
	return r;
}
inline RM permPoints(const RM& m, const std::vector<int>& oldToNew) {
	RM r = m;
	for(size_t i = 0; i < m.p.size(); i++) r.p[oldToNew[i]] = m.p[i];
	for(auto& c : r.e) for(auto& n : c) n = oldToNew[n];
	for(auto& f : r.b) for(auto& n : f) n = oldToNew[n];
	return r;
}
/// rot: mixed-radix number of rotations of each cell's node list
inline RM rotateNodes(const RM& m, long rot) {
	RM r = m;
	for(auto& c : r.e) {
		const int n = (int)c.size();
		std::rotate(c.begin(), c.begin() + rot % n, c.end());
		rot /= n;
	}
	return r;
}
inline long numRotations(const RM& m) { long n = 1; for(auto& c : m.e) n *= (long)c.size(); return n; }
inline RM permBFaces(const RM& m, const std::vector<int>& newToOld) {
	RM r = m;
	for(size_t i = 0; i < m.b.size(); i++) { r.b[i] = m.b[newToOld[i]]; r.bt[i] = m.bt[newToOld[i]]; }
	return r;
}
inline RM flipBFaces(const RM& m, unsigned long mask) {
	RM r = m;
	for(size_t i = 0; i < m.b.size(); i++) if(mask >> i & 1) std::swap(r.b[i][0], r.b[i][1]);
	return r;
}
inline std::vector<int> iota(int n) { std::vector<int> v(n); for(int i = 0; i < n; i++) v[i] = i; return v; }
/// A fixed set of permutations for sizes too big for all of them: identity, reverse, rotations, interleave
inline std::vector<std::vector<int>> somePerms(int n) {
	std::vector<std::vector<int>> out;
	std::set<std::vector<int>> seen;
	auto add = [&](const std::vector<int>& v) { if(seen.insert(v).second) out.push_back(v); };
	std::vector<int> v = iota(n);
	add(v);
	std::reverse(v.begin(), v.end()); add(v);
	for(int k = 1; k < n; k++) { v = iota(n); std::rotate(v.begin(), v.begin()+k, v.end()); add(v); }
	for(int k = 2; k <= 3; k++) { v.clear(); for(int o = 0; o < k; o++) for(int i = o; i < n; i += k) v.push_back(i); add(v); }
	for(int i = 0; i + 1 < n; i++) { v = iota(n); std::swap(v[i], v[i+1]); add(v); }
	// affine shuffles
	for(int a = 2; a < n && a < 12; a++) {
		int x = a, y = n; while(y) { int t = x % y; x = y; y = t; }
		if(x != 1) continue;
		v.clear(); for(int i = 0; i < n; i++) v.push_back((int)((long)i*a + 1) % n); add(v);
	}
	return out;
}

// ------------------------------------------------------------------ conversion

inline fvens::MeshData toMeshData(const RM& m, int nbtag = 2, int ndtag = 2) {
	fvens::MeshData d;
	d.npoin = (fint)m.p.size(); d.nelem = (fint)m.e.size(); d.nbface = (fint)m.b.size();
	d.maxnnode = 3; 
	for(auto& c : m.e) d.maxnnode = std::max(d.maxnnode, (int)c.size());
	d.maxnfael = d.maxnnode; d.nnofa = 2; d.nbtag = nbtag; d.ndtag = ndtag;
	d.coords.resize(d.npoin, 2);
	for(fint i = 0; i < d.npoin; i++) for(int k = 0; k < 2; k++) d.coords(i,k) = m.p[i][k];
	d.inpoel.resize(d.nelem, d.maxnnode);
	for(fint i = 0; i < d.nelem; i++) {
		d.nnode.push_back((int)m.e[i].size()); d.nfael.push_back((int)m.e[i].size());
		for(int j = 0; j < d.maxnnode; j++) d.inpoel(i,j) = j < (int)m.e[i].size() ? m.e[i][j] : -1;
	}
	d.bface.resize(d.nbface, 2+nbtag);
	for(fint i = 0; i < d.nbface; i++) {
		d.bface(i,0) = m.b[i][0]; d.bface(i,1) = m.b[i][1];
		for(int k = 0; k < nbtag; k++) d.bface(i,2+k) = m.bt[i][k];
	}
	d.vol_regions.resize(d.nelem, ndtag);
	for(fint i = 0; i < d.nelem; i++) for(int k = 0; k < ndtag; k++) d.vol_regions(i,k) = m.reg[i][k];
	return d;
}

/// The preparation sequence of constructMesh on the undistributed mesh
inline Mesh prepareGlobal(const RM& m) {
	Mesh g(toMeshData(m));
	g.correctBoundaryFaceOrientation();
	g.compute_topological();
	g.compute_areas();
	g.compute_face_data();
	return g;
}
/// The preparation sequence of constructMesh including distribution (all cells on this process)
inline Mesh prepare(const RM& m) {
	Mesh g(toMeshData(m));
	g.correctBoundaryFaceOrientation();
	g.compute_topological();
	fvens::TrivialReplicatedGlobalMeshPartitioner p(g);
	p.compute_partition();
	Mesh l = p.restrictMeshToPartitions();
	fvens::preprocessMesh<double>(l);
	return l;
}

// ------------------------------------------------------------------ naive reference

struct RefEdge { int a, b; int c[2]; int le[2]; int nc; int bf; };   // a<b; cells in increasing order
struct Ref {
	std::map<std::pair<int,int>,RefEdge> ed;
	std::vector<double> area;
	std::vector<std::array<double,2>> cc;
	explicit Ref(const RM& m) {
		for(size_t i = 0; i < m.e.size(); i++) {
			const auto& c = m.e[i];
			double A = 0, x = 0, y = 0;
			const double x0 = m.p[c[0]][0], y0 = m.p[c[0]][1];
			for(size_t j = 0; j < c.size(); j++) {
				const int n0 = c[j], n1 = c[(j+1)%c.size()];
				A += 0.5*((m.p[n0][0]-x0)*(m.p[n1][1]-y0) - (m.p[n1][0]-x0)*(m.p[n0][1]-y0));
				x += m.p[n0][0]; y += m.p[n0][1];
				auto k = std::make_pair(std::min(n0,n1), std::max(n0,n1));
				auto it = ed.find(k);
				if(it == ed.end()) { RefEdge e{k.first,k.second,{(int)i,-1},{(int)j,-1},1,-1}; ed[k] = e; }
				else {
					if(it->second.nc != 1) hx::internal_error("reference mesh not conforming");
					it->second.c[1] = (int)i; it->second.le[1] = (int)j; it->second.nc = 2;
				}
			}
			if(A <= 0) hx::internal_error("reference cell area not positive");
			area.push_back(A);
			cc.push_back({{x/c.size(), y/c.size()}});
		}
		for(size_t i = 0; i < m.b.size(); i++) {
			auto k = std::make_pair(std::min(m.b[i][0],m.b[i][1]), std::max(m.b[i][0],m.b[i][1]));
			auto it = ed.find(k);
			if(it == ed.end() || it->second.nc != 1 || it->second.bf >= 0) hx::internal_error("bad reference boundary");
			it->second.bf = (int)i;
		}
		for(auto& e : ed) if(e.second.nc == 1 && e.second.bf < 0) hx::internal_error("reference boundary incomplete");
	}
};

/// Checks all connectivity of a prepared mesh against the reference (property M01). Keys are prefixed by kp.
inline bool checkConnectivity(const Mesh& um, const RM& m, const Ref& r, const std::string& kp, const std::string& what) {
	const int ne = (int)m.e.size(), nb = (int)m.b.size(), np = (int)m.p.size();
	int nint = 0;
	for(auto& e : r.ed) if(e.second.nc == 2) nint++;
	bool ok = true;
	auto bad = [&](const std::string& k, const std::string& t) { hx::fail(kp + k, what + ": " + t); ok = false; };
	if(um.gnelem() != ne || um.gnpoin() != np || um.gnbface() != nb) { bad("counts", "numbers of cells/points/boundary faces"); return false; }
	if(um.gninface() != nint) bad("ninface", hx::fmt("ninface %d expected %d", (int)um.gninface(), nint));
	if(um.gnaface() != nint+nb) { bad("naface", hx::fmt("naface %d expected %d", (int)um.gnaface(), nint+nb)); return false; }
	if(um.gPhyBFaceStart() != 0 || um.gPhyBFaceEnd() != nb || um.gDomFaceStart() != nb || um.gDomFaceEnd() != nb+nint
	   || um.gSubDomFaceStart() != nb || um.gSubDomFaceEnd() != nb+nint || um.gFaceStart() != 0 || um.gFaceEnd() != nb+nint
	   || um.gConnBFaceEnd() - um.gConnBFaceStart() != 0)
		{ bad("ranges", "face ranges"); return false; }
	for(int i = 0; i < ne; i++) {
		if(um.gnnode(i) != (int)m.e[i].size() || um.gnfael(i) != (int)m.e[i].size()) { bad("nnode", hx::fmt("cell %d node count", i)); return false; }
		for(int j = 0; j < um.gnnode(i); j++)
			if(um.ginpoel(i,j) != m.e[i][j]) { bad("inpoel", hx::fmt("cell %d node %d", i, j)); return false; }
	}
	for(int i = 0; i < np; i++) if(um.gcoords(i,0) != m.p[i][0] || um.gcoords(i,1) != m.p[i][1]) { bad("coords", hx::fmt("point %d", i)); return false; }

	std::map<std::pair<int,int>,int> faceOf;
	std::set<int> ghosts;
	for(int f = 0; f < nb+nint; f++) {
		const int l = um.gintfac(f,0), rr = um.gintfac(f,1), a = um.gintfac(f,2), b = um.gintfac(f,3);
		auto k = std::make_pair(std::min(a,b), std::max(a,b));
		auto it = r.ed.find(k);
		if(it == r.ed.end()) { bad("noedge", hx::fmt("face %d nodes %d %d are no edge", f, a, b)); continue; }
		if(!faceOf.insert({k,f}).second) bad("dupface", hx::fmt("edge %d-%d has two faces", a, b));
		const RefEdge& e = it->second;
		if((f < nb) != (e.nc == 1)) { bad("order", hx::fmt("face %d: boundary/interior order", f)); continue; }
		if(l != e.c[0]) { bad("left", hx::fmt("face %d left cell %d expected %d", f, l, e.c[0])); continue; }
		// orientation: counter-clockwise in the left cell
		const auto& c = m.e[l];
		if(c[e.le[0]] != a || c[(e.le[0]+1)%c.size()] != b) bad("orient", hx::fmt("face %d orientation", f));
		if(f < nb) {
			if(rr < ne || !ghosts.insert(rr).second) bad("ghost", hx::fmt("face %d ghost index %d", f, rr));
			// tags stay with the geometric edge
			for(int t = 0; t < um.gnbtag() && t < (int)m.bt[e.bf].size(); t++)
				if(um.gbtags(f,t) != m.bt[e.bf][t]) bad("btags", hx::fmt("face %d tag %d is %d expected %d", f, t, um.gbtags(f,t), m.bt[e.bf][t]));
		} else if(rr != e.c[1]) bad("right", hx::fmt("face %d right cell %d expected %d", f, rr, e.c[1]));
	}
	if((int)faceOf.size() != nb+nint) { bad("missing", "some edges have no face"); return false; }
	for(int i = 0; i < ne; i++) {
		const int n = (int)m.e[i].size();
		for(int j = 0; j < n; j++) {
			const int a = m.e[i][j], b = m.e[i][(j+1)%n];
			auto k = std::make_pair(std::min(a,b), std::max(a,b));
			const int f = faceOf[k];
			const RefEdge& e = r.ed.at(k);
			if(um.gelemface(i,j) != f) bad("elemface", hx::fmt("elemface(%d,%d)=%d expected %d", i, j, (int)um.gelemface(i,j), f));
			const int nbr = e.nc == 1 ? (int)um.gintfac(f,1) : (e.c[0] == i ? e.c[1] : e.c[0]);
			if(um.gesuel(i,j) != nbr) bad("esuel", hx::fmt("esuel(%d,%d)=%d expected %d", i, j, (int)um.gesuel(i,j), nbr));
			if(um.getFaceEIndex(false, f, i) != j) bad("faceeindex", hx::fmt("getFaceEIndex(face %d, cell %d)", f, i));
			if(um.getNodeEIndex(i, j, 0) != j || um.getNodeEIndex(i, j, 1) != (j+1)%n) bad("nodeeindex", "getNodeEIndex");
		}
	}
	for(int i = 0; i < np; i++) {
		std::set<int> exp, got;
		for(int c = 0; c < ne; c++) for(int n : m.e[c]) if(n == i) exp.insert(c);
		int cnt = 0;
		for(int s = um.gesup_p(i); s < um.gesup_p(i+1); s++) { got.insert(um.gesup(s)); cnt++; }
		if(got != exp || cnt != (int)exp.size()) bad("esup", hx::fmt("cells around point %d", i));
	}
	return ok;
}

/// Checks areas, normals, lengths, centres (property M02)
inline bool checkMetrics(const Mesh& um, const RM& m, const Ref& r, const std::string& kp, const std::string& what) {
	bool ok = true;
	auto bad = [&](const std::string& k, const std::string& t) { hx::fail(kp + k, what + ": " + t); ok = false; };
	const int ne = (int)m.e.size();
	double size = 0, tot = 0, rtot = 0;
	for(auto& p : m.p) size = std::max(size, std::max(std::fabs(p[0]), std::fabs(p[1])));
	const double atol = 1e-13*size*size, ltol = 1e-14*size;
	for(int i = 0; i < ne; i++) {
		if(!(std::fabs(um.garea(i) - r.area[i]) <= atol + 1e-12*r.area[i])) bad("area", hx::fmt("cell %d area %.17g expected %.17g", i, um.garea(i), r.area[i]));
		tot += um.garea(i); rtot += r.area[i];
	}
	if(!(std::fabs(tot-rtot) <= atol*ne + 1e-12*rtot)) bad("totalarea", "sum of areas");
	// domain area from the boundary loop
	double dom = 0;
	std::vector<std::array<double,3>> closure(ne, {{0,0,0}});
	for(int f = 0; f < um.gnaface(); f++) {
		const int l = um.gintfac(f,0), rr = um.gintfac(f,1);
		const auto& a = m.p[um.gintfac(f,2)]; const auto& b = m.p[um.gintfac(f,3)];
		const double dx = b[0]-a[0], dy = b[1]-a[1], len = std::sqrt(dx*dx+dy*dy);
		const auto n = um.gnormal(f);
		if(!(std::fabs(um.gfacemetric(f,2) - len) <= ltol + 1e-12*len)) bad("length", hx::fmt("face %d length %.17g expected %.17g", f, um.gfacemetric(f,2), len));
		if(!(std::fabs(n[0]*n[0]+n[1]*n[1]-1) <= 1e-12)) bad("unit", hx::fmt("face %d normal not unit", f));
		if(n[0] != um.gfacemetric(f,0) || n[1] != um.gfacemetric(f,1)) bad("gnormal", "gnormal differs from gfacemetric");
		if(!(std::fabs(n[0]*dx+n[1]*dy) <= 1e-11*len + ltol)) bad("perp", hx::fmt("face %d normal not perpendicular", f));
		const double mx = 0.5*(a[0]+b[0]), my = 0.5*(a[1]+b[1]);
		if(!((mx-r.cc[l][0])*n[0] + (my-r.cc[l][1])*n[1] > 0)) bad("outleft", hx::fmt("face %d normal not out of left cell", f));
		if(rr < ne && !((r.cc[rr][0]-mx)*n[0] + (r.cc[rr][1]-my)*n[1] > 0)) bad("toright", hx::fmt("face %d normal not towards right cell", f));
		const double L = um.gfacemetric(f,2);
		closure[l][0] += n[0]*L; closure[l][1] += n[1]*L; closure[l][2] += L;
		if(rr < ne) { closure[rr][0] -= n[0]*L; closure[rr][1] -= n[1]*L; closure[rr][2] += L; }
		else dom += 0.5*(mx*n[0]+my*n[1])*L;
	}
	for(int i = 0; i < ne; i++)
		if(!(std::fabs(closure[i][0]) + std::fabs(closure[i][1]) <= 1e-12*closure[i][2] + 10*ltol)) bad("closure", hx::fmt("cell %d not closed", i));
	if(!(std::fabs(dom - tot) <= 1e-11*tot + 100*atol)) bad("divergence", hx::fmt("boundary integral %.17g area %.17g", dom, tot));
	std::vector<double> c(2*ne, -77);
	um.compute_cell_centres(c.data());
	for(int i = 0; i < ne; i++) for(int k = 0; k < 2; k++)
		if(!(std::fabs(c[2*i+k]-r.cc[i][k]) <= 1e-13*size)) bad("centre", hx::fmt("cell %d centre", i));
	return ok;
}

/// Enumerates the standard mesh families. level 0: tiny .. 3: large
inline void forMeshes(int level, const std::function<void(const RM&)>& f) {
	for(int n : {3,4}) f(single(n));
	for(int n = 3; n <= 6; n++) f(fan(n));
	for(int g = 0; g < NGEOM; g++) {
		for(long p = 0; p < 3; p++) f(grid(1,1,p,(Geom)g));
		for(long p = 0; p < 9; p++) { f(grid(2,1,p,(Geom)g)); f(grid(1,2,p,(Geom)g)); }
		if(level >= 1) for(long p = 0; p < 81; p++) f(grid(2,2,p,(Geom)g));
		if(level >= 2) for(long p = 0; p < 729; p++) f(grid(3,2,p,(Geom)g));
		if(level >= 3) { for(long p = 0; p < 19683; p++) f(grid(3,3,p,(Geom)g)); }
	}
	for(long p = 0; p < 27; p++) { f(lshape(p)); f(ring(3,1,p)); }
	if(level >= 1) for(long p = 0; p < 81; p++) f(ring(4,1,p));
	if(level >= 2) for(long p = 0; p < 729; p++) f(ring(3,2,p));
	if(level >= 3) for(long p = 0; p < 6561; p++) f(ring(4,2,p));
}

} // namespace mg
#endif
