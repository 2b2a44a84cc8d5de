// M06: level scheduling against its definition, every numbering of every small mesh
#include "common/petsc_init.hpp"
#include "common/meshgen.hpp"
using namespace mg;

static void one(const RM& m, const Mesh& um, const std::string& what) {
	const int ne = (int)m.e.size();
	std::vector<std::set<int>> nb(ne);
	const Ref r(m);
	for(auto& e : r.ed) if(e.second.nc == 2) { nb[e.second.c[0]].insert(e.second.c[1]); nb[e.second.c[1]].insert(e.second.c[0]); }
	const std::vector<fint> lv = fvens::levelSchedule(um);
	hx::eval();
	if(ne > 1) hx::nontrivial(hx::fnv(what));
	if(lv.size() < 2 || lv.front() != 0 || lv.back() != ne) { hx::fail("ends", hx::fmt("%s: levels do not run from 0 to %d", what.c_str(), ne)); return; }
	for(size_t k = 0; k+1 < lv.size(); k++) {
		if(!(lv[k] < lv[k+1])) { hx::fail("increasing", what); return; }
		for(int a = lv[k]; a < lv[k+1]; a++) for(int b = a+1; b < lv[k+1]; b++)
			HX_CHECK(!nb[a].count(b), "independent", "%s: cells %d and %d of level %d are neighbours", what.c_str(), a, b, (int)k);
		if(k) {
			bool dep = false;
			for(int a = lv[k-1]; a < lv[k]; a++) if(nb[lv[k]].count(a)) dep = true;
			HX_CHECK(dep, "maximal", "%s: level %d starts at cell %d which is independent of the level before", what.c_str(), (int)k, (int)lv[k]);
		}
	}
	hx::count("levels", (long)lv.size()-1);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh; every evaluation is one cell numbering of it (all permutations for meshes of up to 6 (quick) or 7 cells, a fixed family beyond). Returned level starts compared with the definition. Non-trivial: more than one cell.");
	forMeshes(hx::quick() ? 1 : 3, [&](const RM& m) {
		if(!hx::begin("lev:" + m.name)) return;
		hx::sample(m.name);
		const int ne = (int)m.e.size();
		auto run = [&](const std::vector<int>& v, long k) {
			const RM q = permCells(m, v);
			one(q, prepareGlobal(q), hx::fmt("perm#%ld", k));
		};
		long k = 0;
		if(ne <= (hx::quick() ? 5 : 6) || (ne == (hx::quick() ? 6 : 7) && m.name.find("/uni") != std::string::npos)) { auto v = iota(ne); do run(v, k++); while(std::next_permutation(v.begin(), v.end())); }
		else for(auto& v : somePerms(ne)) run(v, k++);
		// on the distributed mesh of one process as well
		one(m, prepare(m), "prepared");
	});
	for(long p = 0; p < 19683; p += hx::quick() ? 61 : 3) {
		const RM m = grid(3,3,p,DISTORTED);
		if(!hx::begin("big:" + m.name)) continue;
		long k = 0;
		for(auto& v : somePerms((int)m.e.size())) { const RM q = permCells(m, v); one(q, prepareGlobal(q), hx::fmt("perm#%ld", k++)); }
	}
	return hx::finish_petsc();
}
