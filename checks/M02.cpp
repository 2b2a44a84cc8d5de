// M02: metrics of every small hybrid mesh, every node rotation and boundary-edge orientation
#include "common/petsc_init.hpp"
#include "common/meshgen.hpp"
#include "spatial/diffusion.hpp"
using namespace mg;

struct Probe : public fvens::DiffusionMA<1> {
	typedef fvens::Spatial<double,1> B;
	Probe(const Mesh *m) : fvens::DiffusionMA<1>(m, 1.0, 0.0, [](const double *const, const double, const double *const, double *const s) { s[0] = 0; }, "NONE") {}
	double ghost(int f, int k) const { return this->rcbp(f,k); }
	double facec(int f, int k) const { return this->gr(f,k); }
	const double *cc() const { return this->rch.getArray(); }
};

static void one(const RM& m, const std::string& what, bool probe) {
	Ref r(m);
	try {
		const Mesh um = prepareGlobal(m);
		checkMetrics(um, m, r, "", what);
		if(probe) {
			const Mesh lm = prepare(m);
			checkMetrics(lm, m, r, "prepared-", what);
			Probe P(&lm);
			double size = 0;
			for(auto& p : m.p) size = std::max(size, std::max(std::fabs(p[0]), std::fabs(p[1])));
			for(int i = 0; i < (int)m.e.size(); i++) for(int k = 0; k < 2; k++)
				HX_CHECK(std::fabs(P.cc()[2*i+k] - r.cc[i][k]) <= 1e-13*size, "spatial-centre", "%s cell %d", what.c_str(), i);
			for(int f = 0; f < lm.gnaface(); f++) {
				const auto& a = m.p[lm.gintfac(f,2)]; const auto& b = m.p[lm.gintfac(f,3)];
				for(int k = 0; k < 2; k++)
					HX_CHECK(std::fabs(P.facec(f,k) - 0.5*(a[k]+b[k])) <= 1e-13*size, "facecentre", "%s face %d", what.c_str(), f);
			}
			for(int f = lm.gPhyBFaceStart(); f < lm.gPhyBFaceEnd(); f++) {
				const auto& a = m.p[lm.gintfac(f,2)]; const auto& b = m.p[lm.gintfac(f,3)];
				const int l = lm.gintfac(f,0);
				const auto n = lm.gnormal(f);
				const double mx[2] = {0.5*(a[0]+b[0]), 0.5*(a[1]+b[1])};
				const double g[2] = {P.ghost(f-lm.gPhyBFaceStart(),0), P.ghost(f-lm.gPhyBFaceStart(),1)};
				const double din = (mx[0]-r.cc[l][0])*n[0] + (mx[1]-r.cc[l][1])*n[1];
				const double dout = (g[0]-mx[0])*n[0] + (g[1]-mx[1])*n[1];
				HX_CHECK(dout > 0, "ghost-exterior", "%s face %d", what.c_str(), f);
				// whichever reflection is used, the ghost lies as far outside as the cell centre is inside
				HX_CHECK(std::fabs(din-dout) <= 1e-11*size, "ghost-distance", "%s face %d: inside %g outside %g", what.c_str(), f, din, dout);
			}
		}
	} catch(const std::exception& e) { hx::fail("exception", what + ": " + e.what()); }
	hx::eval();
	hx::nontrivial(hx::fnv(what));
}

/// affine images keep conformity; determinant positive
static RM affine(const RM& m, const double *A, const char *tag) {
	RM r = m;
	for(auto& p : r.p) p = {{A[0]*p[0]+A[1]*p[1]+A[4], A[2]*p[0]+A[3]*p[1]+A[5]}};
	r.name += tag;
	return r;
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families with node rotations, boundary-edge flips and cell orders varied, and affine images (thin, tiny, huge, sheared, offset). Areas, lengths, normals, centres, ghost and face points compared with naive formulas and closure/divergence identities. Distinct by mesh, image and renumbering; all non-trivial.");
	forMeshes(hx::quick() ? 1 : 2, [&](const RM& m) {
		hx::sample(m.name);
		if(hx::begin("rot:" + m.name)) {
			const long nr = numRotations(m), n = std::min(nr, hx::quick() ? 48l : 512l), st = std::max(1l, nr/n);
			for(long k = 0; k < n; k++) one(rotateNodes(m, k*st), hx::fmt("rot#%ld", k*st), k < 2);
		}
		if(hx::begin("flip:" + m.name)) {
			const int nb = (int)m.b.size();
			const unsigned long n = 1ul << std::min(nb, hx::quick() ? 6 : 10);
			for(unsigned long k = 0; k < n; k++) one(flipBFaces(m, nb <= 6 ? k : k*0x41), hx::fmt("flip#%lx", k), k % 16 == 5);
		}
		if(hx::begin("perm:" + m.name)) {
			long k = 0;
			for(auto& v : somePerms((int)m.e.size())) { one(flipBFaces(permCells(m, v), k*11), hx::fmt("perm#%ld", k), k < 2); k++; }
		}
		const double IM[6][6] = {{1e-3,0,0,1,0,0},{1e-6,0,0,1e-6,0,0},{1e5,0,0,1e5,0,0},{1,3,0,1,0,0},{1,0,0,1,50,-80},{0,-1,1,0,0,0}};
		for(int t = 0; t < 6; t++) {
			const RM a = affine(m, IM[t], hx::fmt("/aff%d", t).c_str());
			if(hx::begin("aff:" + a.name)) { one(a, "n", true); one(flipBFaces(rotateNodes(a, 5), 0x2b), "rf", true); }
		}
	});
	// non-convex quadrilaterals: alone, and with the notch filled by one cell or two
	for(int fill = 0; fill < 3; fill++) for(int dep = 0; dep < 3; dep++) {
		RM m;
		m.name = hx::fmt("dart/fill%d/d%d", fill, dep);
		const double d = dep == 0 ? 0.95 : dep == 1 ? 0.8 : 0.72;
		m.p = {{{0,0}}, {{2,0.1}}, {{d,d}}, {{-0.1,2}}, {{2.2,2.3}}};
		m.e = {{0,1,2,3}};
		std::vector<std::array<int,2>> B = {{{0,1}}, {{3,0}}};
		if(fill == 0) { m.p.pop_back(); B.push_back({{1,2}}); B.push_back({{2,3}}); }
		if(fill == 1) { m.e.push_back({1,4,3,2}); B.push_back({{1,4}}); B.push_back({{4,3}}); }
		if(fill == 2) { m.e.push_back({1,4,2}); m.e.push_back({2,4,3}); B.push_back({{1,4}}); B.push_back({{4,3}}); }
		for(size_t i = 0; i < B.size(); i++) { m.b.push_back(B[i]); m.bt.push_back({2+(int)i, 10+(int)i}); }
		for(size_t i = 0; i < m.e.size(); i++) m.reg.push_back({1, 100+(int)i});
		if(hx::begin("dart:" + m.name)) for(long k = 0; k < numRotations(m); k++) one(flipBFaces(rotateNodes(m, k), k), hx::fmt("rot#%ld", k), true);
	}
	return hx::finish_petsc();
}
