// S02: residuals and time steps of arbitrary states against a reference face loop; additivity, locality, conservation
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
using namespace fr;
using namespace mg;

static void compare(const Setup& S, const Mesh& um, const rc::Geo& G, const V& u, const std::string& what, bool deep) {
	const RefOut R = reference(S, um, G, u);
	if(!R.ok) { hx::count("inadmissible_reconstruction_skipped"); return; }
	const int ne = um.gnelem();
	V dt;
	const V res = fl::residual<4>(um, *S.s, u, &dt);
	double tot[4] = {}, ts[4] = {};
	for(int i = 0; i < ne; i++) {
		for(int k = 0; k < 4; k++) {
			HX_CHECK(std::fabs(res[4*i+k]-R.r[4*i+k]) <= 1e-9*R.scale[4*i+k], "residual", "%s cell %d equation %d: %.12g expected %.12g", what.c_str(), i, k, res[4*i+k], R.r[4*i+k]);
			tot[k] += res[4*i+k]; ts[k] += R.scale[4*i+k];
		}
		HX_CHECK(dt[i] > 0, "dt-sign", "%s cell %d: %g", what.c_str(), i, dt[i]);
		HX_CHECK(std::fabs(dt[i]-R.dt[i]) <= 1e-9*R.dt[i], "dt", "%s cell %d: %.12g expected %.12g", what.c_str(), i, dt[i], R.dt[i]);
	}
	for(int k = 0; k < 4; k++) HX_CHECK(std::fabs(tot[k]+R.bflux[k]) <= 1e-9*ts[k], "conservation", "%s equation %d: sum of residuals %.12g, boundary flux %.12g", what.c_str(), k, tot[k], R.bflux[k]);
	hx::eval();
	if(!deep) return;
	// without time steps; added to what the vector held; unaffected by what was evaluated in between
	const V r2 = fl::residual<4>(um, *S.s, u);
	V init(4*ne), u3 = u;
	for(int i = 0; i < 4*ne; i++) init[i] = (0.3 + hash01(i,4,4))*R.scale[i];
	for(int i = 0; i < ne; i++) { u3[4*i] *= 1.1; u3[4*i+3] *= 1.2; }
	V dt3; fl::residual<4>(um, *S.s, u3, &dt3);
	const V r3 = fl::residual<4>(um, *S.s, u, nullptr, &init), r4 = fl::residual<4>(um, *S.s, u);
	for(int i = 0; i < 4*ne; i++) {
		HX_CHECK(std::fabs(r2[i]-res[i]) <= 1e-13*R.scale[i], "dt-changes-residual", "%s entry %d: %.12g with time steps, %.12g without", what.c_str(), i, res[i], r2[i]);
		HX_CHECK(std::fabs(r3[i]-init[i]-res[i]) <= 1e-13*R.scale[i], "additive", "%s entry %d: %.12g from %.12g, residual %.12g", what.c_str(), i, r3[i], init[i], res[i]);
		HX_CHECK(std::fabs(r4[i]-res[i]) <= 1e-13*R.scale[i], "history", "%s entry %d: %.12g then %.12g", what.c_str(), i, res[i], r4[i]);
	}
	hx::eval(4);
}

/// cells whose residual may depend on cell j
static void locality(const Setup& S, const Mesh& um, const V& u, const std::string& what) {
	const int ne = um.gnelem(), rad = !S.sc.o2 ? 1 : S.sc.rec == "WENO" ? 3 : 2;
	const V r0 = fl::residual<4>(um, *S.s, u);
	for(int j = 0; j < ne; j++) {
		V u2 = u; u2[4*j] *= 1.07; u2[4*j+1] += 0.05; u2[4*j+2] -= 0.04; u2[4*j+3] *= 1.1;
		std::vector<int> d(ne, 1000); d[j] = 0;
		for(int it = 0; it < ne; it++) for(int i = 0; i < ne; i++) for(int k = 0; k < um.gnfael(i); k++) { const int q = um.gesuel(i,k); if(q < ne) d[i] = std::min(d[i], d[q]+1); }
		const V r1 = fl::residual<4>(um, *S.s, u2);
		for(int i = 0; i < ne; i++) {
			bool ch = false;
			for(int k = 0; k < 4; k++) if(r0[4*i+k] != r1[4*i+k]) ch = true;
			if(d[i] > rad) { HX_CHECK(!ch, "locality", "%s: residual of cell %d changed with cell %d at distance %d", what.c_str(), i, j, d[i]); hx::count("beyond_stencil"); }
			else if(d[i] <= 1) HX_CHECK(ch, "dependence", "%s: residual of cell %d did not change with cell %d at distance %d", what.c_str(), i, j, d[i]);
		}
		hx::eval();
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh (families, renumbered) with one free stream; within it, fields (smooth, rough, discontinuous, linear, mildly rough) x scheme x flux x viscosity x boundary assignment, a rotating fraction of the product per mesh. Residual, time steps and totals against an independent face loop; additivity, history independence; on strips of cells, every cell perturbed and every other cell's residual compared bit by bit. Distinct by mesh, combination, field.");
	hx::assume("reconstructed states with non-positive density or pressure are outside the statement (admissible states) and are skipped and counted");
	std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{5.0/3,2.0,200,50,1.0,-0.37},{1.1,0.8,250,5,0.9,1.0}};
	const auto& SC = fl::schemes(); const auto& FX = fl::fluxes();
	auto mesh = [&](const RM& m0, int stride) {
		for(size_t ip = 0; ip < P.size(); ip++) {
			if(!hx::begin(hx::fmt("%s:ph%zu", m0.name.c_str(), ip))) continue;
			const fl::Phys& p = P[ip];
			hx::sample(hx::fmt("%s Minf %g", m0.name.c_str(), p.M));
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m);
			const Mesh um = prepare(m);
			const rc::Geo G(&um);
			rc::checkGeo(um, G, m.name);
			long combo = (long)(hx::fnv(m0.name) % 1000) + (long)ip;
			for(size_t is = 0; is < SC.size(); is++) for(size_t ifx = 0; ifx < FX.size(); ifx++) for(int v = 0; v < 3; v++) for(int b = 0; b < 6; b++) {
				if((combo++) % stride) continue;
				Setup S(um, p, v, SC[is], FX[ifx], bcSet(m, [&](int i) { return (i*(1+b%2)+b)%6; }));
				for(int f = 1; f <= 6; f++) {
					const V u = f < 5 ? fl::field(p, f, m, r) : mild(p, m, f);
					compare(S, um, G, u, hx::fmt("%s %s bc#%d field %d", m.name.c_str(), S.str().c_str(), b, f), f == 5);
				}
				hx::nontrivial(hx::fnv(S.str())+b);
			}
		}
	};
	forMeshes(hx::quick() ? 1 : 2, [&](const RM& m) { mesh(m, hx::quick() ? 241 : 61); });
	// the whole product on a few meshes
	std::vector<RM> F = {grid(2,2,5,DISTORTED), ring(3,1,7), fan(5)};
	if(!hx::quick()) { F.push_back(grid(3,2,100,ROTATED)); F.push_back(lshape(11)); F.push_back(single(3)); F.push_back(grid(2,2,40,STRETCHED)); }
	for(auto& m : F) { RM c = m; c.name += "/full"; mesh(c, hx::quick() ? 7 : 1); }
	// strips
	for(int n : {6, 9}) for(long pat : {0l, 1l, 40l}) for(int g : {0,1}) {
		const RM m = grid(n,1,pat,(Geom)g);
		for(size_t is = 0; is < SC.size(); is++) for(int v : {0,1}) {
			if(!hx::begin(hx::fmt("strip:%s:%zu:%d", m.name.c_str(), is, v))) continue;
			const Mesh um = prepare(m);
			Setup S(um, P[0], v, SC[is], FX[is % FX.size()], bcSet(m, [&](int i) { return i%4; }));
			locality(S, um, mild(P[0], m, 3), m.name + " " + S.str());
			hx::nontrivial();
		}
	}
	return hx::finish_petsc();
}
