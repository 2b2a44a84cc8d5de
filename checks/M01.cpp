// M01: connectivity of every small hybrid mesh under every renumbering
#include "common/petsc_init.hpp"
#include "common/meshgen.hpp"
using namespace mg;

static void one(const RM& m, const std::string& what) {
	Ref r(m);
	try {
		const Mesh um = prepareGlobal(m);
		checkConnectivity(um, m, r, "", what);
		const Mesh lm = prepare(m);
		checkConnectivity(lm, m, r, "prepared-", what);
		for(int i = 0; i < (int)m.e.size(); i++)
			HX_CHECK(lm.gglobalElemIndex(i) == i, "globalindex", "%s: global index of cell %d", what.c_str(), i);
		HX_CHECK(lm.gnelemglobal() == (int)m.e.size() && lm.gnpoinglobal() == (int)m.p.size(), "globalcounts", "%s", what.c_str());
	} catch(const std::exception& e) { hx::fail("exception", what + ": " + e.what()); }
	hx::eval();
	if(m.e.size() > 1) hx::nontrivial(hx::fnv(what));
}

// every combination of one family of renumberings with a spread of the others
static void renumber(const RM& m0, bool all) {
	const int ne = (int)m0.e.size(), nb = (int)m0.b.size(), np = (int)m0.p.size();
	if(!hx::begin("cells:" + m0.name)) {} else {
		if(all && ne <= 6) {
			std::vector<int> v = iota(ne);
			long k = 0;
			do { RM m = permCells(m0, v); m = flipBFaces(rotateNodes(m, k*7 % numRotations(m)), (unsigned long)(k*5)); one(m, hx::fmt("perm#%ld", k)); k++; } while(std::next_permutation(v.begin(), v.end()));
		} else { long k = 0; for(auto& v : somePerms(ne)) { one(rotateNodes(permCells(m0, v), k*3 % numRotations(m0)), hx::fmt("someperm#%ld", k)); k++; } }
	}
	if(hx::begin("rot:" + m0.name)) {
		const long n = std::min(numRotations(m0), all ? 4096l : 64l);
		const long step = std::max(1l, numRotations(m0)/n);
		for(long k = 0; k < n; k++) one(rotateNodes(m0, k*step), hx::fmt("rot#%ld", k*step));
	}
	if(hx::begin("flip:" + m0.name)) {
		const unsigned long n = 1ul << std::min(nb, all ? 10 : 5);
		for(unsigned long k = 0; k < n; k++) { const unsigned long mask = nb <= 10 && all ? k : k * 0x21; one(flipBFaces(m0, mask), hx::fmt("flip#%lx", mask)); }
	}
	if(hx::begin("pts:" + m0.name)) {
		long k = 0;
		if(all && np <= 6) { std::vector<int> v = iota(np); do { one(permPoints(m0, v), hx::fmt("pperm#%ld", k++)); } while(std::next_permutation(v.begin(), v.end())); }
		else for(auto& v : somePerms(np)) one(permPoints(m0, v), hx::fmt("somepperm#%ld", k++));
	}
	if(hx::begin("bf:" + m0.name)) {
		long k = 0;
		if(all && nb <= 6) { std::vector<int> v = iota(nb); do { one(flipBFaces(permBFaces(m0, v), k), hx::fmt("bperm#%ld", k)); k++; } while(std::next_permutation(v.begin(), v.end())); }
		else for(auto& v : somePerms(nb)) { one(flipBFaces(permBFaces(m0, v), k), hx::fmt("somebperm#%ld", k)); k++; }
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of a family (single cells, fans, LxM grids with every quad/diagonal pattern in 4 geometries, rings around a hole, L-shapes) with one renumbering (all or a fixed set of permutations of cells, points, boundary edges; node rotations; boundary flips). Every accessor is compared with a naive edge map. Non-trivial: more than one cell; distinct by mesh and renumbering.");
	const int level = hx::quick() ? 1 : 2;
	long nm = 0;
	forMeshes(level, [&](const RM& m) {
		nm++;
		const bool small = m.e.size() <= 4 || (!hx::quick() && m.e.size() <= 6);
		renumber(m, small);
		hx::sample(m.name + hx::fmt(": %d cells", (int)m.e.size()));
	});
	// larger meshes, natural numbering only
	for(int g = 0; g < NGEOM; g++) for(long p = 0; p < (hx::quick() ? 729 : 19683); p++) {
		const RM m = hx::quick() ? grid(3,2,p,(Geom)g) : grid(3,3,p,(Geom)g);
		if(hx::begin("big:" + m.name)) one(rotateNodes(m, p % 24), "natural");
	}
	if(hx::S().shard == 0) hx::count("meshes", nm);
	return hx::finish_petsc();
}
