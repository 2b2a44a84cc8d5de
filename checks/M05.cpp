// M05: cell reordering is a pure renaming: every permutation, every ordering option
#include "common/petsc_init.hpp"
#include "common/meshgen.hpp"
#include "common/meshfiles.hpp"
#include "common/flow.hpp"
#include "mesh/meshordering.cpp"
using namespace mg;

/// Region tags are only visible through the written file
static void checkRegions(const Mesh& um, const RM& m, const std::string& what) {
	const std::string fn = "m05tmp.msh";
	Mesh cp = um;
	cp.writeGmsh2(fn);
	const fvens::MeshData d = fvens::readMesh(fn);
	unlink(fn.c_str());
	if(d.nelem != (int)m.e.size() || d.nbface != (int)m.b.size()) { hx::fail("regions-count", what); return; }
	for(int i = 0; i < d.nelem; i++) {
		for(int j = 0; j < (int)m.e[i].size(); j++) HX_CHECK(d.inpoel(i,j) == m.e[i][j], "written-cell", "%s: cell %d", what.c_str(), i);
		for(int k = 0; k < d.ndtag && k < 2; k++)
			HX_CHECK(d.vol_regions(i,k) == m.reg[i][k], "region", "%s: cell %d region tag %d is %d expected %d", what.c_str(), i, k, (int)d.vol_regions(i,k), m.reg[i][k]);
	}
}

static void finishMesh(Mesh& g) { g.compute_topological(); g.compute_areas(); g.compute_face_data(); }

static std::vector<std::vector<int>> perms(int n, bool all) {
	if(!all) return somePerms(n);
	std::vector<std::vector<int>> r;
	std::vector<int> v = iota(n);
	do r.push_back(v); while(std::next_permutation(v.begin(), v.end()));
	return r;
}

static const fl::Phys PH = {1.4, 0.6, 288.15, 500, 0.72, 0.3};

template <int nv> static void compare(const std::string& key, const std::string& what, const fl::V& a, const fl::V& b, const std::vector<int>& perm) {
	double sc = 1e-300;
	for(double x : a) sc = std::max(sc, std::fabs(x));
	for(size_t i = 0; i < perm.size(); i++) for(int k = 0; k < nv; k++)
		HX_CHECK(std::fabs(b[i*nv+k] - a[perm[i]*nv+k]) <= 1e-10*sc, key, "%s: cell %d var %d: %.15g vs %.15g", what.c_str(), (int)i, k, b[i*nv+k], a[perm[i]*nv+k]);
}

static void residuals(const RM& m0, const std::vector<int>& perm, const std::string& what, int combo) {
	using namespace fvens;
	const Mesh A = prepare(m0);
	Mesh B = prepare(m0);
	std::vector<PetscInt> pv(perm.begin(), perm.end());
	B.reorder_cells(pv.data());
	finishMesh(B);
	const Ref r(m0);
	std::vector<fl::BC> bcs;
	const BCType types[4] = {SLIP_WALL_BC, INFLOW_OUTFLOW_BC, ADIABATIC_WALL_BC, FARFIELD_BC};
	std::set<int> tg; for(auto& t : m0.bt) tg.insert(t[0]);
	for(int t : tg) { fl::BC b{t, types[(t+combo)%4], {}}; if(b.type == ADIABATIC_WALL_BC) b.vals = {0.0}; bcs.push_back(b); }
	const auto& sch = fl::schemes()[combo % fl::schemes().size()];
	const bool visc = combo % 2;
	const auto fluxes = std::vector<std::string>{"LLF","AUSM","ROE","HLLC","HLL","VANLEER"};
	const FlowPhysicsConfig pc = fl::pconf(PH, visc, combo % 3 == 0, bcs);
	const FlowNumericsConfig nc = fl::nconf(fluxes[combo % 6], sch.grad, sch.rec, sch.o2, "LLF", sch.lp);
	std::unique_ptr<const Spatial<double,4>> sa(create_const_flowSpatialDiscretization(&A, pc, nc)), sb(create_const_flowSpatialDiscretization(&B, pc, nc));
	const fl::V u = fl::field(PH, 1, m0, r);
	fl::V v(u.size());
	for(size_t i = 0; i < perm.size(); i++) for(int k = 0; k < 4; k++) v[4*i+k] = u[4*perm[i]+k];
	fl::V da(1), db(1);
	const fl::V ra = fl::residual<4>(A, *sa, u, &da), rb = fl::residual<4>(B, *sb, v, &db);
	compare<4>("residual-permuted", what + " " + sch.grad + "/" + sch.rec, ra, rb, perm);
	compare<1>("timestep-permuted", what, da, db, perm);
	// scalar diffusion
	auto src = [](const double *const x, const double t, const double *const u, double *const s) { s[0] = std::sin(3*x[0]) + x[1]; };
	DiffusionMA<1> ha(&A, 0.7, 1.5, src, combo % 2 ? "LEASTSQUARES" : "NONE"), hb(&B, 0.7, 1.5, src, combo % 2 ? "LEASTSQUARES" : "NONE");
	fl::V w(perm.size()), wp(perm.size());
	for(size_t i = 0; i < perm.size(); i++) w[i] = u[4*i] + 0.5*u[4*i+1];
	for(size_t i = 0; i < perm.size(); i++) wp[i] = w[perm[i]];
	compare<1>("diffusion-permuted", what, fl::residual<1>(A, ha, w, &da), fl::residual<1>(B, hb, wp, &db), perm);
	compare<1>("diffusion-timestep-permuted", what, da, db, perm);
	hx::eval();
	hx::nontrivial(hx::fnv(what) ^ 77);
}

static bool adjacent(const Ref& r, const RM& m, int a, int b) {
	for(auto& e : r.ed) if(e.second.nc == 2 && ((e.second.c[0] == a && e.second.c[1] == b) || (e.second.c[0] == b && e.second.c[1] == a))) return true;
	return false;
}

static void isPerm(const std::vector<int>& v, int n, const std::string& key, const std::string& what) {
	std::vector<int> c(n, 0);
	bool ok = (int)v.size() == n;
	for(int x : v) if(x < 0 || x >= n || c[x]++) ok = false;
	HX_CHECK(ok, key, "%s: not a permutation of the cells", what.c_str());
}

static void lines(const RM& m, double th, const std::string& what) {
	const int ne = (int)m.e.size();
	const Mesh um = prepareGlobal(m);
	const Ref r(m);
	const fvens::LineConfig lc = fvens::findLines(um, th);
	std::vector<int> where(ne, -1);
	for(size_t l = 0; l < lc.lines.size(); l++) {
		const auto& L = lc.lines[l];
		HX_CHECK(L.size() >= 1, "emptyline", "%s line %d", what.c_str(), (int)l);
		for(size_t k = 0; k < L.size(); k++) {
			if(L[k] < 0 || L[k] >= ne) { hx::fail("line-range", what); return; }
			HX_CHECK(where[L[k]] == -1, "line-overlap", "%s: cell %d in two lines (or twice in one)", what.c_str(), (int)L[k]);
			where[L[k]] = (int)l;
			if(k) HX_CHECK(adjacent(r, m, L[k-1], L[k]), "line-adjacent", "%s: line %d cells %d,%d not adjacent", what.c_str(), (int)l, (int)L[k-1], (int)L[k]);
		}
	}
	HX_CHECK((int)lc.celline.size() == ne, "celline-size", "%s", what.c_str());
	for(int i = 0; i < ne && (int)lc.celline.size() == ne; i++) HX_CHECK(lc.celline[i] == where[i], "celline", "%s: cell %d line %d expected %d", what.c_str(), i, lc.celline[i], where[i]);
	if(lc.lines.size()) hx::count("meshes_with_lines");
	for(const char *o : {"natural", "rcm", "nd", "1wd", "qmd"}) {
		const std::vector<int> ord = fvens::getHybridLineOrdering(um, th, o);
		isPerm(ord, ne, "hybrid-perm", what + " " + o);
		// the cells of a line stay together, in line order
		std::vector<int> pos(ne, 0);
		for(int i = 0; i < ne && i < (int)ord.size(); i++) pos[ord[i]] = i;
		for(auto& L : lc.lines) for(size_t k = 1; k < L.size(); k++)
			HX_CHECK(pos[L[k]] == pos[L[k-1]]+1, "hybrid-line", "%s %s: line cells %d,%d at positions %d,%d", what.c_str(), o, (int)L[k-1], (int)L[k], pos[L[k-1]], pos[L[k]]);
	}
	hx::eval();
	hx::nontrivial(hx::fnv(what));
}

static void preprocess(const RM& m, const std::string& ord, double th, const std::string& what) {
	PetscOptionsSetValue(NULL, "-mesh_reorder", ord.c_str());
	PetscOptionsSetValue(NULL, "-mesh_anisotropy_threshold", hx::fmt("%.17g", th).c_str());
	try {
		const Mesh um = prepare(m);
		// which old cell is each new cell? (by node set)
		std::map<std::vector<int>,int> old;
		for(size_t i = 0; i < m.e.size(); i++) { auto s = m.e[i]; std::sort(s.begin(), s.end()); old[s] = (int)i; }
		std::vector<int> p;
		for(int i = 0; i < um.gnelem(); i++) {
			std::vector<int> s;
			for(int j = 0; j < um.gnnode(i); j++) s.push_back(um.ginpoel(i,j));
			std::sort(s.begin(), s.end());
			auto it = old.find(s);
			p.push_back(it == old.end() ? -1 : it->second);
		}
		isPerm(p, (int)m.e.size(), "preprocess-perm", what);
		bool ok = p.size() == m.e.size();
		for(int x : p) if(x < 0) ok = false;
		if(ok) {
			const RM q = permCells(m, p);
			const Ref r(q);
			checkConnectivity(um, q, r, "preprocess-", what);
			checkMetrics(um, q, r, "preprocess-", what);
			checkRegions(um, q, what);
			if(ord == "natural") HX_CHECK(p == iota((int)p.size()), "natural-moves", "%s", what.c_str());
		}
	} catch(const std::exception& e) { hx::fail("preprocess-exception", what + ": " + e.what()); }
	PetscOptionsClearValue(NULL, "-mesh_reorder");
	PetscOptionsClearValue(NULL, "-mesh_anisotropy_threshold");
	hx::eval();
	hx::nontrivial(hx::fnv(what));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("Cases: (mesh, cell permutation) reorder_cells against the renumbered reference incl. tags, residuals and time steps; (mesh, threshold) line detection and hybrid orderings; (mesh, ordering option, threshold) full preprocessing. All permutations for meshes of up to 5 (quick) or 6 cells, a fixed family beyond. Non-trivial: more than one cell.");
	const int level = hx::quick() ? 1 : 2;
	int combo = 0;
	forMeshes(level, [&](const RM& m) {
		combo++;
		const int ne = (int)m.e.size();
		const bool all = ne <= (hx::quick() ? 5 : 6);
		const auto P = perms(ne, all && (ne <= 4 || combo % (hx::quick() ? 8 : 2) == 0));
		if(hx::begin("perm:" + m.name)) {
			hx::sample(m.name + hx::fmt(": %d permutations", (int)P.size()));
			for(size_t k = 0; k < P.size(); k++) {
				const std::string what = hx::fmt("perm#%d", (int)k);
				const RM q = permCells(m, P[k]);
				const Ref r(q);
				std::vector<PetscInt> pv(P[k].begin(), P[k].end());
				Mesh g = prepareGlobal(m);
				g.reorder_cells(pv.data());
				finishMesh(g);
				checkConnectivity(g, q, r, "", what);
				checkMetrics(g, q, r, "", what);
				if(k % 7 == 1 || P.size() < 8) checkRegions(g, q, what);
				// a second reordering composes
				if(k % 5 == 2) { g.reorder_cells(pv.data()); finishMesh(g); const RM q2 = permCells(q, P[k]); checkConnectivity(g, q2, Ref(q2), "twice-", what); }
				hx::eval();
				if(ne > 1) hx::nontrivial(hx::fnv(what));
			}
		}
		if(ne > 1 && hx::begin("res:" + m.name)) {
			const size_t st = std::max<size_t>(1, P.size()/(hx::quick() ? 4 : 12));
			for(size_t k = P.size()-1; ; k -= st) { residuals(m, P[k], hx::fmt("perm#%d", (int)k), combo*5 + (int)k); if(k < st) break; }
		}
	});
	// anisotropic meshes for the line algorithms: stretched in either direction, every quad/triangle pattern
	const std::vector<double> ths = {0.5, 1.0, 1.2, 1.5, 2.0, 3.0, 5.0, 20.0, 1e9};
	const int orders = 12;
	const char *ON[orders] = {"natural","rcm","nd","1wd","qmd","line","line_natural","line_rcm","line_nd","line_1wd","line_qmd","rowlength"};
	auto aniso = [&](RM m, int ax) { for(auto& p : m.p) p[ax] *= 0.07; m.name += hx::fmt("/thin%d", ax); return m; };
	auto doMesh = [&](const RM& m, bool pp) {
		if(hx::begin("lines:" + m.name))
			for(double th : ths) for(auto& v : {iota((int)m.e.size()), somePerms((int)m.e.size())[1]})
				lines(permCells(m, v), th, hx::fmt("th%g/c%d", th, v[0]));
		if(pp && hx::begin("prep:" + m.name))
			for(int o = 0; o < orders; o++) for(double th : ths) { if(o < 5 && th != 1.0) continue; if(std::string(ON[o]) == "rowlength") continue; preprocess(m, ON[o], th, hx::fmt("%s/th%g", ON[o], th)); }
	};
	// uneven spacings in both directions: lines started at different boundaries meet, cross and run out
	{
		const int n = 4;
		for(unsigned sp = 0; sp < 256; sp++) for(int pt = 0; pt < (hx::quick() ? 1 : 3); pt++) {
			RM m = grid(n, n, pt == 0 ? 0 : pt == 1 ? 123457l*311 % ipow(3,16) : ipow(3,16)/2, UNIFORM);
			double X[n+1] = {0}, Y[n+1] = {0};
			for(int k = 0; k < n; k++) { X[k+1] = X[k] + (sp >> k & 1 ? 0.1 : 1); Y[k+1] = Y[k] + (sp >> (n+k) & 1 ? 0.1 : 1); }
			for(int j = 0; j <= n; j++) for(int i = 0; i <= n; i++) m.p[j*(n+1)+i] = {{X[i], Y[j]}};
			m.name += hx::fmt("/sp%02x", sp);
			if(hx::begin("lines:" + m.name))
				for(double th : {1.01, 1.5, 3.0, 8.0}) for(auto& v : {iota((int)m.e.size()), somePerms((int)m.e.size())[1]})
					lines(permCells(m, v), th, hx::fmt("th%g/c%d", th, v[0]));
			if(sp % (hx::quick() ? 32 : 4) == 5 % (hx::quick() ? 32 : 4) && hx::begin("prep:" + m.name))
				for(const char *o : {"line", "line_rcm", "line_1wd"}) for(double th : {1.01, 3.0}) preprocess(m, o, th, hx::fmt("%s/th%g", o, th));
		}
	}
	for(int ax = -1; ax < 2; ax++) {
		auto A = [&](const RM& m) { return ax < 0 ? m : aniso(m, ax); };
		for(int g = 0; g < 2; g++) {
			for(long p = 0; p < 81; p++) doMesh(A(grid(2,2,p,(Geom)g)), p % 3 == 0 || !hx::quick());
			const long st = hx::quick() ? 7 : 1;
			for(long p = 0; p < 729; p += st) doMesh(A(grid(3,2,p,(Geom)g)), p % (3*st) == 0);
			const long st3 = hx::quick() ? 1201 : 37;
			for(long p = 0; p < 19683; p += st3) doMesh(A(grid(3,3,p,(Geom)g)), p % 2 == 0);
			doMesh(A(grid(5,4,0,(Geom)g)), true);
			doMesh(A(grid(6,5,123457,(Geom)g)), true);
		}
		for(long p = 0; p < 27; p++) doMesh(A(ring(3,1,p)), p % 5 == 0);
		for(long p = 0; p < 6561; p += hx::quick() ? 601 : 41) doMesh(A(ring(4,2,p)), true);
		for(int n = 3; n <= 6; n++) doMesh(A(fan(n)), true);
	}
	return hx::finish_petsc();
}
