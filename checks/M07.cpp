// M07: periodic pairing on every grid with translation-matched sides, either axis, every order of the boundary edges
#include "common/petsc_init.hpp"
#include "common/meshgen.hpp"
using namespace mg;

/// n rows along the compared axis, w cells across; sub: bit r set = row r of both sides carries the periodic marker
static RM make(int w, int n, long pat, int axis, unsigned sub, int shape, int marker) {
	RM m = axis == 0 ? grid(w, n, pat, UNIFORM) : grid(n, w, pat, UNIFORM);
	m.name += hx::fmt("/ax%d/sub%x/shape%d", axis, sub, shape);
	// rows of uneven height; interior points moved; whole mesh translated. The two sides stay exact translates.
	for(size_t i = 0; i < m.p.size(); i++) {
		double &across = m.p[i][axis], &along = m.p[i][1-axis];
		const double a0 = across, l0 = along;
		if(shape >= 1) along = l0*(0.6 + 0.4*l0);
		if(shape >= 2 && a0 > 1e-9 && a0 < 1-1e-9) across += 0.1/w*std::sin(7*l0);
		if(shape >= 3) { along = 5*along - 3; across = 2*across + 10; }
		if(shape == 4) { along *= 1e-3; across *= 1e-3; }                // small but well-separated rows
		if(shape == 6) { along *= 1e-6; across *= 1e-6; }                // micrometre meshes
		if(shape == 5) { if(a0 > 1-1e-9) along += 2e-10*std::sin(13*l0); } // as inexact as mesh generators are
	}
	for(size_t i = 0; i < m.b.size(); i++) {
		const int side = m.bt[i][0];   // 2 bottom 3 right 4 top 5 left
		const bool per = axis == 0 ? (side == 3 || side == 5) : (side == 2 || side == 4);
		m.bt[i][0] = per ? 30 : 20 + side;
		if(per) {
			int row = m.bt[i][1] % 10;
			m.bt[i][0] = (sub >> row & 1) ? marker : marker+1;
		}
	}
	return m;
}

static void one(const RM& m, int axis, int marker, const std::string& what, bool prepared) {
	Mesh um = prepared ? prepare(m) : prepareGlobal(m);
	const int nb = um.gnbface(), ne = um.gnelem();
	std::vector<std::array<int,4>> before(um.gnaface());
	for(int f = 0; f < um.gnaface(); f++) for(int k = 0; k < 4; k++) before[f][k] = um.gintfac(f,k);
	um.compute_periodic_map(marker, axis);
	hx::eval();
	hx::nontrivial(hx::fnv(what));
	// independent matching
	std::vector<int> mate(nb, -1);
	auto along = [&](int f) { return 0.5*(um.gcoords(um.gintfac(f,2),1-axis) + um.gcoords(um.gintfac(f,3),1-axis)); };
	auto across = [&](int f) { return 0.5*(um.gcoords(um.gintfac(f,2),axis) + um.gcoords(um.gintfac(f,3),axis)); };
	for(int a = 0; a < nb; a++) if(um.gbtags(a,0) == marker) {
		int best = -1; double bd = 1e300;
		for(int b = 0; b < nb; b++) if(b != a && um.gbtags(b,0) == marker && std::fabs(across(a)-across(b)) > 1e-9 && std::fabs(along(a)-along(b)) < bd) { bd = std::fabs(along(a)-along(b)); best = b; }
		if(best < 0 || bd > 1e-9) hx::internal_error("mesh without periodic mate");
		mate[a] = best;
	}
	int pairs = 0;
	for(int f = 0; f < um.gnaface(); f++) {
		const bool per = f < nb && um.gbtags(f,0) == marker;
		for(int k = 0; k < 4; k++) if(k != 1 || !per)
			HX_CHECK(um.gintfac(f,k) == before[f][k], "untouched", "%s: face %d entry %d changed", what.c_str(), f, k);
		if(per) {
			const int w = before[mate[f]][0];
			HX_CHECK(um.gintfac(f,1) == w, "paired", "%s: face %d has outside neighbour %d, expected %d (of face %d; %d cells)", what.c_str(), f, (int)um.gintfac(f,1), w, mate[f], ne);
			pairs++;
		}
	}
	hx::count("paired_faces", pairs);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one grid (rows 1..4, width 1..3, every quad/diagonal pattern up to a size), axis, set of marked rows, geometry; evaluations vary the order and orientation of boundary edges and the cell numbering. Outside neighbours compared with an independent nearest-position matching. All non-trivial.");
	const int N = hx::quick() ? 3 : 4;
	for(int n = 1; n <= N; n++) for(int w = 1; w <= (hx::quick() ? 2 : 3); w++) {
		const long np = std::min<long>(ipow(3, n*w), hx::quick() ? 81 : 729);
		for(long p = 0; p < np; p++) for(int axis = 0; axis < 2; axis++) for(int shape = 0; shape < 7; shape++) {
			for(unsigned sub = 1; sub < (1u << n); sub++) {
				const int marker = (p + shape) % 3 == 0 ? 0 : 7;
				const RM m = make(w, n, p, axis, sub, shape, marker);
				if(!hx::begin("per:" + m.name + hx::fmt("/w%d", w))) continue;
				if(p < 3) hx::sample(m.name);
				one(m, axis, marker, "natural", false);
				one(m, axis, marker, "prepared", true);
				long k = 0;
				const int nb = (int)m.b.size();
				std::vector<std::vector<int>> P;
				if(nb <= 5 || (!hx::quick() && nb <= 6)) { auto v = iota(nb); do P.push_back(v); while(std::next_permutation(v.begin(), v.end())); }
				else P = somePerms(nb);
				for(auto& v : P) { one(flipBFaces(permBFaces(m, v), k*5), axis, marker, hx::fmt("bperm#%ld", k), false); k++; }
				k = 0;
				for(auto& v : somePerms((int)m.e.size())) { one(permCells(m, v), axis, marker, hx::fmt("cperm#%ld", k++), false); if(k > 6) break; }
			}
		}
	}
	// nothing marked / nothing requested: nothing changes
	if(hx::begin("none")) {
		for(int axis = -1; axis < 2; axis++) for(int bcm : {-1, 9}) {
			const RM m = make(2, 2, 5, 0, 3, 1, 7);
			Mesh um = prepareGlobal(m);
			const Mesh ref = um;
			um.compute_periodic_map(bcm, axis);
			for(int f = 0; f < um.gnaface(); f++) for(int k = 0; k < 4; k++) HX_CHECK(um.gintfac(f,k) == ref.gintfac(f,k), "none", "bcm %d axis %d: face %d changed", bcm, axis, f);
			hx::eval(); hx::nontrivial(axis*10+bcm);
		}
	}
	return hx::finish_petsc();
}
