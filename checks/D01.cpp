// D01: every assignment of cells to ranks gives exact, matching subdomain meshes
#include "common/petsc_init.hpp"
#include "common/parts.hpp"
#include "common/mockmpi.hpp"
using namespace mg;
using namespace fvens;

struct Rec { int rank, elem, nbrRank, nbrElem; };
typedef std::pair<int,int> Ed;
static Ed ed(int a, int b) { return {std::min(a,b), std::max(a,b)}; }

/// All subdomains against the reference. L[r] has been restricted; regions are read back from a written file if withFile
static void checkParts(const RM& m, const Ref& ref, const std::vector<int>& dist, int nr, const std::vector<Mesh>& L, bool withFile, const std::string& what) {
	std::map<std::array<double,2>,int> pid;
	for(size_t i = 0; i < m.p.size(); i++) pid[m.p[i]] = (int)i;
	std::map<int,std::vector<Rec>> byFace;         // global face number -> records
	std::map<Ed,std::vector<int>> numOf;           // edge -> global face numbers used for it
	for(int r = 0; r < nr; r++) {
		const Mesh& lm = L[r];
		auto bad = [&](const std::string& k, const std::string& t) { hx::fail(k, what + hx::fmt(" rank %d: ", r) + t); };
		std::vector<int> mine; for(size_t i = 0; i < dist.size(); i++) if(dist[i] == r) mine.push_back((int)i);
		if(lm.gnelem() != (int)mine.size()) { bad("cells", hx::fmt("%d cells, expected %zu", (int)lm.gnelem(), mine.size())); continue; }
		if(lm.gnelemglobal() != (int)m.e.size()) bad("nelemglobal", "global number of cells");
		if(lm.gnpoinglobal() != (int)m.p.size()) bad("npoinglobal", "global number of points");
		// points: exactly the nodes of the cells, once each
		std::set<int> need; for(int c : mine) for(int n : m.e[c]) need.insert(n);
		std::vector<int> l2g(lm.gnpoin(), -1); std::set<int> have;
		for(int i = 0; i < lm.gnpoin(); i++) {
			auto it = pid.find({{lm.gcoords(i,0), lm.gcoords(i,1)}});
			if(it == pid.end()) { bad("coords", hx::fmt("point %d has the coordinates of no point of the mesh", i)); continue; }
			l2g[i] = it->second;
			if(!have.insert(it->second).second) bad("points", hx::fmt("point %d present twice", it->second));
		}
		if(have != need) { bad("points", "set of local points"); continue; }
		std::map<int,int> loc;                       // global cell -> local
		bool ok = true;
		for(int i = 0; i < lm.gnelem() && ok; i++) {
			const int g = lm.gglobalElemIndex(i);
			if(g < 0 || g >= (int)m.e.size() || dist[g] != r) { bad("global-index", hx::fmt("local cell %d claims to be cell %d", i, g)); ok = false; break; }
			if(!loc.insert({g,i}).second) { bad("cells", hx::fmt("cell %d twice", g)); ok = false; break; }
			if(lm.gnnode(i) != (int)m.e[g].size() || lm.gnfael(i) != (int)m.e[g].size()) { bad("nnode", hx::fmt("cell %d", g)); ok = false; break; }
			for(int j = 0; j < lm.gnnode(i); j++) {
				const int n = lm.ginpoel(i,j);
				if(n < 0 || n >= lm.gnpoin() || l2g[n] != m.e[g][j]) { bad("nodes", hx::fmt("cell %d node %d", g, j)); ok = false; break; }
			}
		}
		if(!ok) continue;
		// boundary edges
		std::map<Ed,int> bexp; for(auto& e : ref.ed) if(e.second.nc == 1 && dist[e.second.c[0]] == r) bexp[e.first] = e.second.bf;
		if(lm.gnbface() != (int)bexp.size()) bad("bfaces", hx::fmt("%d boundary faces, expected %zu", (int)lm.gnbface(), bexp.size()));
		std::set<Ed> bseen;
		for(int i = 0; i < lm.gnbface(); i++) {
			const int a = lm.gbface(i,0), b = lm.gbface(i,1);
			if(a < 0 || b < 0 || a >= lm.gnpoin() || b >= lm.gnpoin()) { bad("bface-nodes", hx::fmt("boundary face %d", i)); continue; }
			auto it = bexp.find(ed(l2g[a], l2g[b]));
			if(it == bexp.end()) { bad("bface-extra", hx::fmt("edge %d-%d is not a boundary edge of this rank's cells", l2g[a], l2g[b])); continue; }
			if(!bseen.insert(it->first).second) bad("bface-twice", hx::fmt("edge %d-%d", l2g[a], l2g[b]));
			for(int t = 0; t < lm.gnbtag(); t++) if(lm.gbface(i,2+t) != m.bt[it->second][t]) bad("bface-tag", hx::fmt("edge %d-%d tag %d", l2g[a], l2g[b], t));
		}
		// connectivity faces
		std::map<Ed,const RefEdge*> cexp;
		for(auto& e : ref.ed) if(e.second.nc == 2 && dist[e.second.c[0]] != dist[e.second.c[1]] && (dist[e.second.c[0]] == r || dist[e.second.c[1]] == r)) cexp[e.first] = &e.second;
		if(lm.gnConnFace() != (int)cexp.size()) bad("connfaces", hx::fmt("%d connectivity faces, expected %zu", (int)lm.gnConnFace(), cexp.size()));
		std::set<Ed> cseen;
		for(int i = 0; i < lm.gnConnFace(); i++) {
			const int el = lm.gconnface(i,0), k = lm.gconnface(i,1), nrk = lm.gconnface(i,2), ng = lm.gconnface(i,3), gf = lm.gconnface(i,4);
			if(el < 0 || el >= lm.gnelem() || k < 0 || k >= lm.gnfael(el)) { bad("conn-cell", hx::fmt("connectivity face %d", i)); continue; }
			const int g = lm.gglobalElemIndex(el); const auto& c = m.e[g];
			const Ed e = ed(c[k], c[(k+1)%c.size()]);
			auto it = cexp.find(e);
			if(it == cexp.end()) { bad("conn-extra", hx::fmt("edge %d-%d does not separate ranks", e.first, e.second)); continue; }
			if(!cseen.insert(e).second) bad("conn-twice", hx::fmt("edge %d-%d", e.first, e.second));
			const RefEdge& q = *it->second; const int other = q.c[0] == g ? q.c[1] : q.c[0];
			if(q.c[0] != g && q.c[1] != g) bad("conn-cell", hx::fmt("edge %d-%d is not one of cell %d", e.first, e.second, g));
			if(ng != other) bad("conn-nbr", hx::fmt("edge %d-%d: neighbouring cell %d, expected %d", e.first, e.second, ng, other));
			if(nrk != dist[other]) bad("conn-rank", hx::fmt("edge %d-%d: neighbouring rank %d, expected %d", e.first, e.second, nrk, dist[other]));
			byFace[gf].push_back({r, g, nrk, ng});
			numOf[e].push_back(gf);
		}
		// face structure built on the subdomain
		std::map<Ed,int> fseen;
		const int nint = [&] { int n = 0; for(auto& e : ref.ed) if(e.second.nc == 2 && dist[e.second.c[0]] == r && dist[e.second.c[1]] == r) n++; return n; }();
		if(lm.gnaface() != nint + (int)bexp.size() + (int)cexp.size()) bad("naface", hx::fmt("%d faces, expected %d", (int)lm.gnaface(), nint + (int)(bexp.size() + cexp.size())));
		else for(int f = 0; f < lm.gnaface(); f++) {
			const int l = lm.gintfac(f,0), rr = lm.gintfac(f,1), a = lm.gintfac(f,2), b = lm.gintfac(f,3);
			if(a < 0 || b < 0 || a >= lm.gnpoin() || b >= lm.gnpoin() || l < 0 || l >= lm.gnelem()) { bad("face", hx::fmt("face %d", f)); continue; }
			const Ed e = ed(l2g[a], l2g[b]);
			auto it = ref.ed.find(e);
			if(it == ref.ed.end()) { bad("face-edge", hx::fmt("face %d: %d-%d is no edge", f, e.first, e.second)); continue; }
			if(!fseen.insert({e,f}).second) bad("face-twice", hx::fmt("edge %d-%d", e.first, e.second));
			const int g = lm.gglobalElemIndex(l); const auto& c = m.e[g]; bool okc = false;
			for(size_t j = 0; j < c.size(); j++) if(c[j] == l2g[a] && c[(j+1)%c.size()] == l2g[b]) okc = true;
			if(!okc) bad("face-orient", hx::fmt("face %d is not an edge of its left cell %d in its orientation", f, g));
			const bool isb = f >= lm.gPhyBFaceStart() && f < lm.gPhyBFaceEnd(), isc = f >= lm.gConnBFaceStart() && f < lm.gConnBFaceEnd();
			const bool eb = bexp.count(e), ec = cexp.count(e);
			if(isb != eb || isc != ec) { bad("face-class", hx::fmt("edge %d-%d: class of face %d", e.first, e.second, f)); continue; }
			if(isb) for(int t = 0; t < lm.gnbtag(); t++) if(lm.gbtags(f,t) != m.bt[bexp[e]][t]) bad("face-tag", hx::fmt("edge %d-%d tag %d", e.first, e.second, t));
			if(isc) {
				const int icf = f - lm.gConnBFaceStart();
				const int k = lm.gconnface(icf,1), g2 = lm.gglobalElemIndex(lm.gconnface(icf,0));
				if(g2 != g || ed(m.e[g2][k], m.e[g2][(k+1)%m.e[g2].size()]) != e) bad("face-conn", hx::fmt("face %d and connectivity record %d disagree", f, icf));
				if(rr < lm.gnelem()) bad("face-ghost", hx::fmt("face %d: right cell %d", f, rr));
			}
			if(!isb && !isc && (rr < 0 || rr >= lm.gnelem() || rr == l)) bad("face-right", hx::fmt("face %d: right cell %d", f, rr));
			for(int j = 0; j < 2; j++) {
				const double *p0 = m.p[l2g[a]].data(), *p1 = m.p[l2g[b]].data();
				const double n[2] = {p1[1]-p0[1], p0[0]-p1[0]}, len = std::hypot(n[0],n[1]);
				if(std::fabs(lm.gfacemetric(f,j)*lm.gfacemetric(f,2) - n[j]) > 1e-12*(1+len)) bad("metric", hx::fmt("face %d normal", f));
			}
		}
		for(int i = 0; i < lm.gnelem(); i++) if(std::fabs(lm.garea(i) - ref.area[lm.gglobalElemIndex(i)]) > 1e-12*(1+ref.area[lm.gglobalElemIndex(i)])) bad("area", hx::fmt("cell %d", i));
		if(withFile && lm.gnelem() > 0) {
			const std::string fn = hx::fmt("d01tmp%d.msh", (int)getpid());
			Mesh cp = lm; cp.writeGmsh2(fn);
			const MeshData d = readMesh(fn); unlink(fn.c_str());
			if(d.nelem != lm.gnelem()) bad("written", "number of cells in the written mesh");
			else for(int i = 0; i < d.nelem; i++) for(int k = 0; k < d.ndtag && k < 2; k++)
				if(d.vol_regions(i,k) != m.reg[lm.gglobalElemIndex(i)][k]) bad("region", hx::fmt("cell %d region tag %d is %d, expected %d", (int)lm.gglobalElemIndex(i), k, (int)d.vol_regions(i,k), m.reg[lm.gglobalElemIndex(i)][k]));
		}
	}
	for(auto& f : byFace) {
		const auto& v = f.second;
		HX_CHECK(v.size() == 2 && v[0].rank != v[1].rank && v[0].elem == v[1].nbrElem && v[1].elem == v[0].nbrElem && v[0].rank == v[1].nbrRank && v[1].rank == v[0].nbrRank,
		         "pairing", "%s: global face number %d is used by %zu connectivity faces that do not describe one another", what.c_str(), f.first, v.size());
	}
	for(auto& n : numOf) HX_CHECK(n.second.size() == 2 && n.second[0] == n.second[1], "numbering", "%s: edge %d-%d has %zu records, global numbers %d %d", what.c_str(), n.first.first, n.first.second, n.second.size(), n.second[0], n.second.back());
}

static std::vector<Mesh> restrictAll(const Mesh& gm, const std::vector<int>& dist, int nr, std::string& err) {
	std::vector<Mesh> L;
	for(int r = 0; r < nr; r++) {
		mk::setRank(r, nr);
		try {
			pt::AnyPartition P(gm, dist);
			L.push_back(P.restrictMeshToPartitions());
			preprocessMesh<double>(L.back());
		} catch(const std::exception& e) { err = hx::fmt("rank %d: ", r) + e.what(); break; }
	}
	mk::setRank(0, 0);
	return L;
}

template <class P> struct Expose : public P {
	Expose(const Mesh& g) : P(g) {}
	const std::vector<int>& dist() const { return this->elemdist; }
};

/// a partitioner of the library, run by all ranks
template <class P> static void partitioner(const RM& m, int nr, const std::string& pname) {
	if(!hx::begin(pname + ":" + m.name + hx::fmt(":%d", nr))) return;
	Mesh gm = prepareGlobal(m);
	const Ref ref(m);
	std::vector<std::vector<int>> D(nr);
	mk::Options o; o.nranks = nr; o.reduce = true; mk::Stats st;
	const bool few = (int)m.e.size() < nr;
	std::vector<int> threw(nr, 0);
	const mk::Outcome out = mk::explore(o, [&] { threw.assign(nr, 0); }, [&](int r) {
		try { Expose<P> p(gm); p.compute_partition(); D[r] = p.dist(); }
		catch(const std::runtime_error&) { if(!few) throw; threw[r] = 1; }
	}, [] {}, st);
	hx::eval();
	hx::count("schedules", st.executions);
	if(!out.key.empty()) { hx::fail("partitioner-" + out.key, out.msg); return; }
	if(few) { for(int r = 0; r < nr; r++) HX_CHECK(threw[r], "few-cells", "%d cells for %d ranks accepted", (int)m.e.size(), nr); hx::nontrivial(); return; }
	for(int r = 0; r < nr; r++) {
		HX_CHECK(D[r] == D[0] && D[r].size() == m.e.size(), "partition-differs", "rank %d computed another partition than rank 0", r);
		for(int d : D[r]) HX_CHECK(d >= 0 && d < nr, "partition-range", "cell given to rank %d of %d", d, nr);
	}
	std::set<int> used(D[0].begin(), D[0].end());
	if(pname == "trivial") HX_CHECK((int)used.size() == nr, "partition-empty", "only %zu of %d ranks got cells", used.size(), nr);
	if((int)used.size() > 1) hx::nontrivial();
	std::string err;
	const auto L = restrictAll(gm, D[0], nr, err);
	if(!err.empty()) { hx::fail("restrict", err); return; }
	checkParts(m, ref, D[0], nr, L, false, pname + " " + pt::str(D[0]));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh and number of ranks with one prefix of the assignment of its cells; evaluations count the complete assignments, all of which are run. Non-trivial if some edge separates two ranks.");
	hx::assume("ranks are played one after the other in one process by answering MPI_Comm_rank/size for them; the partitioners run as concurrent ranks over the MPI model");
	const bool q = hx::quick();
	auto all = [&](const RM& m, int nr) {
		Ref ref(m);
		const int n = (int)m.e.size();
		const int pre = n >= 6 ? 2 : 1;
		for(long c = 0; c < ipow(nr, pre); c++) {
			if(!hx::begin(m.name + hx::fmt(":%dranks:prefix%ld", nr, c))) continue;
			Mesh gm = prepareGlobal(m);
			const long N = ipow(nr, n-pre);
			for(long k = 0; k < N; k++) {
				std::vector<int> d(n); long a = c, b = k;
				for(int i = 0; i < n; i++) { long& s = i < pre ? a : b; d[i] = s % nr; s /= nr; }
				std::string err;
				const auto L = restrictAll(gm, d, nr, err);
				const std::string w = m.name + ":" + pt::str(d);
				hx::eval();
				if(!err.empty()) hx::fail("restrict", w + ": " + err);
				else checkParts(m, ref, d, nr, L, k % 7 == 0, w);
				for(auto& e : ref.ed) if(e.second.nc == 2 && d[e.second.c[0]] != d[e.second.c[1]]) { hx::nontrivial(hx::fnv(w)); break; }
				if(hx::S().viol.size() > 20) break;
			}
			hx::sample(m.name + hx::fmt(" over %d ranks, prefix %ld", nr, c));
		}
	};
	std::vector<RM> base = {single(3), single(4), grid(2,1,0,DISTORTED), grid(2,1,3,ROTATED), grid(2,2,0,DISTORTED), grid(2,2,5,DISTORTED), grid(2,2,16,ROTATED), fan(3), fan(4), fan(5), ring(3,1,1), ring(3,1,0), ring(4,1,0), lshape(0), lshape(5), grid(3,1,0,UNIFORM), grid(4,1,0,STRETCHED)};
	for(auto& m : base) for(int nr = 1; nr <= (m.e.size() <= 6 ? 4 : 3); nr++) if((int)m.e.size() >= nr) all(m, nr);
	// renumbered cells
	{ const RM m = grid(2,2,5,DISTORTED); for(auto& p : somePerms((int)m.e.size())) { RM x = permCells(m, p); x.name += ":perm"; for(int v : p) x.name += (char)('0'+v); all(x, 2); if(!q) all(x, 3); } }
	for(long rot : {0l, 1l, 5l, 7l, 23l, 77l, 191l}) { RM x = rotateNodes(grid(2,2,0,DISTORTED), rot); x.name += hx::fmt(":rot%ld", rot); all(x, 2); all(x, 3); }
	all(grid(3,2,0,UNIFORM), 2); all(grid(3,2,0,UNIFORM), 3); all(grid(3,2,7,DISTORTED), 2);
	if(!q) {
		all(grid(3,3,0,DISTORTED), 2); all(grid(3,3,0,DISTORTED), 3); all(grid(3,2,7,DISTORTED), 3); all(grid(2,2,40,DISTORTED), 3); all(ring(4,1,40), 2); all(ring(4,1,40), 3); all(fan(7), 3); all(fan(6), 4);
		for(long p = 0; p < 81; p++) { all(grid(2,2,p,ROTATED), 2); if(p % 3 == 0) all(grid(2,2,p,ROTATED), 3); }
		all(grid(4,3,0,UNIFORM), 2); 
	}
	// the library's own partitioners
	std::vector<RM> pm = base;
	for(auto& m : {grid(3,3,0,DISTORTED), grid(4,3,7777,DISTORTED), grid(5,5,1234567,STRETCHED), ring(8,3,4567)}) pm.push_back(m);
	for(auto& m : pm) for(int nr = 1; nr <= 8; nr++) { partitioner<TrivialReplicatedGlobalMeshPartitioner>(m, nr, "trivial"); if(nr <= 4 || m.e.size() > 20) partitioner<ScotchRGMPartitioner>(m, nr, "scotch"); }
	return hx::finish_petsc();
}
