// M03: files in every legal layout are read faithfully; write-read round trip
#include "common/petsc_init.hpp"
#include "common/meshfiles.hpp"
using namespace mg;
using fvens::MeshData;

// memory is handed out filled with a chosen byte, so that values never set show as differences between readings
static unsigned char fillbyte = 0x5a;
static void *filled(size_t n) { void *p = malloc(n ? n : 1); if(!p) abort(); memset(p, fillbyte, n); return p; }
void *operator new[](size_t n) { return filled(n); }
void *operator new(size_t n) { return filled(n); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

static bool same(double a, double b) { return a == b || std::fabs(a-b) <= 4e-16*std::fabs(b); }

static void compare(const MeshData& d, const RM& m, const std::vector<int>& order, int nbtag, int ndtag, const std::string& kp, const std::string& w) {
	HX_CHECK(d.npoin == (int)m.p.size() && d.nelem == (int)m.e.size() && d.nbface == (int)m.b.size(), kp+"counts", "%s: %d points %d cells %d edges", w.c_str(), (int)d.npoin, (int)d.nelem, (int)d.nbface);
	if(d.npoin != (int)m.p.size() || d.nelem != (int)m.e.size() || d.nbface != (int)m.b.size()) return;
	HX_CHECK(d.nnofa == 2, kp+"nnofa", "%s", w.c_str());
	for(int i = 0; i < d.npoin; i++) for(int k = 0; k < 2; k++)
		HX_CHECK(same(d.coords.get(i,k), m.p[i][k]), kp+"coords", "%s: point %d dim %d: %.17g expected %.17g", w.c_str(), i, k, d.coords.get(i,k), m.p[i][k]);
	for(int i = 0; i < d.nelem; i++) {
		const int n = (int)m.e[i].size();
		HX_CHECK(d.nnode[i] == n && d.nfael[i] == n && n <= d.maxnnode && n <= d.maxnfael, kp+"nnode", "%s: cell %d", w.c_str(), i);
		for(int j = 0; j < n && j < d.maxnnode; j++) HX_CHECK(d.inpoel.get(i,j) == m.e[i][j], kp+"inpoel", "%s: cell %d node %d", w.c_str(), i, j);
	}
	HX_CHECK(d.nbtag >= nbtag, kp+"nbtag", "%s: nbtag %d", w.c_str(), d.nbtag);
	HX_CHECK(d.ndtag >= ndtag, kp+"ndtag", "%s: ndtag %d", w.c_str(), d.ndtag);
	for(int i = 0; i < d.nbface; i++) {
		const int f = order[i];
		for(int k = 0; k < 2; k++) HX_CHECK(d.bface.get(i,k) == m.b[f][k], kp+"bface", "%s: edge %d node %d", w.c_str(), i, k);
		for(int k = 0; k < std::min(nbtag, (int)m.bt[f].size()) && k < d.nbtag; k++) HX_CHECK(d.bface.get(i,2+k) == tagOf(m.bt[f],k), kp+"btag", "%s: edge %d tag %d is %d expected %d", w.c_str(), i, k, (int)d.bface.get(i,2+k), tagOf(m.bt[f],k));
	}
	for(int i = 0; i < d.nelem; i++)
		for(int k = 0; k < std::min(ndtag, (int)m.reg[i].size()) && k < d.ndtag; k++) HX_CHECK(d.vol_regions.get(i,k) == tagOf(m.reg[i],k), kp+"region", "%s: cell %d region tag %d is %d expected %d", w.c_str(), i, k, d.vol_regions.get(i,k), tagOf(m.reg[i],k));
}

static void roundtrip(const MeshData& d, const RM& m, const std::vector<int>& order, int nbtag, int ndtag, const std::string& w) {
	// the accessors of the mesh object agree too
	Mesh um(d);
	for(int i = 0; i < um.gnbface(); i++) for(int k = 0; k < 2+nbtag; k++)
		HX_CHECK(um.gbface(i,k) == d.bface.get(i,k), "umesh-bface", "%s", w.c_str());
	um.writeGmsh2("rt.msh");
	compare(fvens::readMesh("rt.msh"), m, order, nbtag, ndtag, "roundtrip-", w + " written");
	// after preparation (oriented boundary edges), geometry and tags are still those of the mesh
	um.correctBoundaryFaceOrientation();
	um.compute_topological();
	um.writeGmsh2("rt2.msh");
	const MeshData e = fvens::readMesh("rt2.msh");
	if(e.nbface == (int)order.size()) for(int i = 0; i < e.nbface; i++) {
		const auto& b = m.b[order[i]];
		const int x = e.bface.get(i,0), y = e.bface.get(i,1);
		HX_CHECK((x == b[0] && y == b[1]) || (x == b[1] && y == b[0]), "prepared-bface", "%s edge %d", w.c_str(), i);
		for(int k = 0; k < std::min(nbtag, (int)m.bt[order[i]].size()); k++) HX_CHECK(e.bface.get(i,2+k) == tagOf(m.bt[order[i]],k), "prepared-btag", "%s edge %d", w.c_str(), i);
	} else hx::fail("prepared-count", w);
	Ref r(m);
	Mesh um2(e);
	um2.correctBoundaryFaceOrientation(); um2.compute_topological();
	RM mo = m;
	for(size_t i = 0; i < order.size(); i++) { mo.b[i] = m.b[order[i]]; mo.bt[i] = m.bt[order[i]]; }
	int mint = nbtag; for(auto& t : mo.bt) mint = std::min(mint, (int)t.size());
	for(auto& t : mo.bt) t.resize(mint);
	for(auto& p : mo.p) (void)p;
	if(e.npoin == (int)m.p.size()) { for(int i = 0; i < e.npoin; i++) for(int k = 0; k < 2; k++) mo.p[i][k] = e.coords.get(i,k); }
	checkConnectivity(um2, mo, Ref(mo), "reread-", w);
}

static void doGmsh(const RM& m, const GmshLayout& L, int pos = 0) {
	const std::string w = m.name + " " + L.str() + (L.vary ? hx::fmt(" most tags at %d/2", pos) : "");
	try {
		RM x = m;
		for(auto& t : x.bt) while((int)t.size() < L.nbtag) t.push_back(1000 + (int)t.size());
		for(auto& t : x.reg) while((int)t.size() < L.ndtag) t.push_back(1000 + (int)t.size());
		if(L.vary) {
			// 1 to nbtag tags: the most at the first, the last, or one in between
			for(size_t i = 0; i < x.bt.size(); i++) if((int)i != pos*((int)x.bt.size()-1)/2) x.bt[i].resize(1 + i%(L.nbtag-1));
			for(size_t i = 0; i < x.reg.size(); i++) if((int)i != pos*((int)x.reg.size()-1)/2) x.reg[i].resize(1 + i%(L.ndtag-1));
		}
		writeFile("a.msh", gmshText(x, L));
		fillbyte = 0x11;
		const MeshData d2 = fvens::readMesh("a.msh");
		fillbyte = 0x5a;
		const MeshData d = fvens::readMesh("a.msh");
		if(d2.nbface == d.nbface && d2.nbtag == d.nbtag && d2.nelem == d.nelem && d2.ndtag == d.ndtag) {
			for(int i = 0; i < d.nbface; i++) for(int k = 0; k < 2+d.nbtag; k++) HX_CHECK(d.bface.get(i,k) == d2.bface.get(i,k), "gmsh-repeatable", "%s: edge %d entry %d is %d, then %d", w.c_str(), i, k, (int)d2.bface.get(i,k), (int)d.bface.get(i,k));
			for(int i = 0; i < d.nelem; i++) for(int k = 0; k < d.ndtag; k++) HX_CHECK(d.vol_regions.get(i,k) == d2.vol_regions.get(i,k), "gmsh-repeatable", "%s: cell %d region tag %d is %d, then %d", w.c_str(), i, k, (int)d2.vol_regions.get(i,k), (int)d.vol_regions.get(i,k));
		} else hx::fail("gmsh-repeatable", w);
		const auto order = iota((int)m.b.size());
		compare(d, x, order, L.nbtag, L.ndtag, "gmsh-", w);
		if(d.npoin == (int)m.p.size() && d.nelem == (int)m.e.size() && d.nbface == (int)m.b.size()) roundtrip(d, x, order, L.nbtag, L.ndtag, w);
	} catch(const std::exception& e) { hx::fail("gmsh-exception", w + ": " + e.what()); }
	hx::eval(); hx::nontrivial(hx::fnv(w));
	hx::sample(w);
}
static void doSu2(const RM& m, const Su2Layout& L) {
	const std::string w = m.name + " " + L.str();
	try {
		std::vector<int> order;
		writeFile("a.su2", su2Text(m, L, order));
		const MeshData d = fvens::readMesh("./a.su2");
		compare(d, m, order, 1, 0, "su2-", w);
		if(d.npoin == (int)m.p.size() && d.nelem == (int)m.e.size() && d.nbface == (int)m.b.size()) roundtrip(d, m, order, 1, 0, w);
	} catch(const std::exception& e) { hx::fail("su2-exception", w + ": " + e.what()); }
	hx::eval(); hx::nontrivial(hx::fnv(w));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh printed in one file layout (Gmsh: tag counts, uniform or varying from element to element, whitespace/CRLF, number formats, physical-names and trailing sections, format version; SU2: '=' spacing, comments, marker order, empty markers, number formats), read by the real reader and compared token by token with the mesh it was printed from, then written with the real writer, read back and compared again. Distinct by mesh and layout.");
	const int level = hx::quick() ? 0 : 1;
	// all layouts on the tiny meshes
	forMeshes(level, [&](const RM& m0) {
		// thin out: all layouts on few meshes
		const bool full = (m0.name.find("uni") != std::string::npos && m0.e.size() <= 3) || m0.name.find("fan") == 0 || m0.name.find("single") == 0;
		const RM m = flipBFaces(rotateNodes(m0, 5), 0x15);
		if(hx::begin("gmsh:" + m0.name)) {
			for(int nb = 1; nb <= 4; nb++) for(int nd = 1; nd <= 4; nd++) for(int ws = 0; ws < 3; ws++) for(int nf = 0; nf < 3; nf++)
			for(int fl = 0; fl < 8; fl++) {
				if(!full && (nb != 2 || (nd != 2 && nd != 3) || nf != 1 || fl > 1)) continue;
				if(hx::quick() && full && (nf + ws + nb + nd) % 3 != 0) continue;
				GmshLayout L; L.nbtag = nb; L.ndtag = nd; L.ws = ws; L.numfmt = nf; L.physnames = fl & 1; L.trailing = fl & 2; L.finalnewline = !(fl & 4);
				L.version = fl == 3 ? "2 0 8" : fl == 5 ? "2.1 0 8" : "2.2 0 8";
				doGmsh(m, L);
			}
		}
		if(hx::begin("gmshvary:" + m0.name)) {
			for(int nb = 2; nb <= 4; nb++) for(int nd = 2; nd <= 4; nd++) for(int pos = 0; pos < 3; pos++) for(int ws = 0; ws < 3; ws++) {
				if(hx::quick() && !full && (nb+nd+ws) % 3) continue;
				GmshLayout L; L.nbtag = nb; L.ndtag = nd; L.ws = ws; L.vary = true;
				doGmsh(m, L, pos);
			}
		}
		if(hx::begin("su2neg:" + m0.name)) {
			// marker tags are arbitrary integers
			RM mn = m;
			int k = 0;
			for(auto& t : mn.bt) t[0] = (k++ % 3 == 0) ? -t[0] : t[0] + (k % 3) * 100000;
			Su2Layout L; doSu2(mn, L); L.eq = 1; L.comments = true; L.reversemarkers = true; doSu2(mn, L);
		}
		if(hx::begin("su2:" + m0.name)) {
			for(int eq = 0; eq < 3; eq++) for(int ws = 0; ws < 3; ws++) for(int nf = 0; nf < 3; nf++) for(int fl = 0; fl < 32; fl++) {
				if(!full && (eq || nf != 1 || fl > 3)) continue;
				if(hx::quick() && full && (nf + ws + eq) % 3 != 0) continue;
				Su2Layout L; L.eq = eq; L.ws = ws; L.numfmt = nf; L.comments = fl & 1; L.finalnewline = !(fl & 2); L.twonpoin = fl & 4; L.emptymarker = fl & 8; L.reversemarkers = fl & 16;
				doSu2(m, L);
			}
		}
	});
	return hx::finish_petsc();
}
