// O01: what post-processing exports: point and cell values, entropy, surface data, functionals, text and VTU files
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "common/meshfiles.hpp"
#include "common/casesolve.hpp"
#include "spatial/aoutput.hpp"
#include "utilities/casesolvers.hpp"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace fr;
using namespace mg;

extern int convert_main(int, char **);
typedef Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor> EM;

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
/// numbers of every non-comment line
static std::vector<V> rows(const std::string& text, std::vector<V> *comments = nullptr) {
	std::vector<V> o; std::istringstream s(text); std::string l;
	while(std::getline(s, l)) {
		bool com = false; size_t p = l.find_first_not_of(" \t\r");
		if(p == std::string::npos) continue;
		if(l[p] == '#') { com = true; l[p] = ' '; }
		std::istringstream ls(l); std::string t; V v; bool bad = false;
		while(ls >> t) { char *e; v.push_back(strtod(t.c_str(), &e)); if(*e) bad = true; }
		if(com) { if(!bad && comments && !v.empty()) comments->push_back(v); }
		else { if(bad) v.assign(1, NAN); o.push_back(v); }
	}
	return o;
}
static bool near(double a, double b, double rel, double scale) { return std::isfinite(a) && std::fabs(a-b) <= rel*(std::fabs(b)+scale); }

struct Vtu { bool ok; int np, nc; V pts, conn, offs, types; std::map<std::string,V> data; std::map<std::string,int> ncomp; std::string scal, vec; bool cell; };
static V nums(const std::string& t) { V v; std::istringstream s(t); std::string w; while(s >> w) { char *e; v.push_back(strtod(w.c_str(), &e)); if(*e) v.back() = NAN; } return v; }
static Vtu parseVtu(const std::string& file) {
	Vtu r; r.ok = false; r.cell = false; r.np = r.nc = -1;
	try {
		boost::property_tree::ptree t; boost::property_tree::read_xml(file, t);
		if(t.get<std::string>("VTKFile.<xmlattr>.type") != "UnstructuredGrid") return r;
		auto& pc = t.get_child("VTKFile.UnstructuredGrid.Piece");
		r.np = pc.get<int>("<xmlattr>.NumberOfPoints"); r.nc = pc.get<int>("<xmlattr>.NumberOfCells");
		auto& pts = pc.get_child("Points.DataArray");
		if(pts.get<int>("<xmlattr>.NumberOfComponents") != 3) return r;
		r.pts = nums(pts.data());
		for(auto& c : pc.get_child("Cells")) if(c.first == "DataArray") {
			const std::string n = c.second.get<std::string>("<xmlattr>.Name");
			if(n == "connectivity") r.conn = nums(c.second.data());
			if(n == "offsets") r.offs = nums(c.second.data());
			if(n == "types") r.types = nums(c.second.data());
		}
		for(const char *k : {"PointData","CellData"}) if(auto d = pc.get_child_optional(k)) {
			r.cell = std::string(k) == "CellData";
			r.scal = d->get<std::string>("<xmlattr>.Scalars", ""); r.vec = d->get<std::string>("<xmlattr>.Vectors", "");
			for(auto& c : *d) if(c.first == "DataArray") { const std::string n = c.second.get<std::string>("<xmlattr>.Name"); r.data[n] = nums(c.second.data()); r.ncomp[n] = c.second.get<int>("<xmlattr>.NumberOfComponents", 1); }
		}
		r.ok = true;
	} catch(const std::exception& e) { return r; }
	return r;
}
/// vtk cell type by number of nodes
static int vtkType(int n) { return n == 3 ? 5 : n == 4 ? 9 : n == 6 ? 22 : n == 8 ? 23 : 28; }

static void checkGrid(const Mesh& um, const Vtu& v, double coordtol, const std::string& what) {
	HX_CHECK(v.ok, "vtu-parse", "%s: not a readable VTU file", what.c_str());
	if(!v.ok) return;
	const int np = um.gnpoin(), nc = um.gnelem();
	HX_CHECK(v.np == np && v.nc == nc, "vtu-counts", "%s: %d points %d cells declared, mesh has %d and %d", what.c_str(), v.np, v.nc, np, nc);
	HX_CHECK((int)v.pts.size() == 3*np, "vtu-points", "%s: %zu coordinates", what.c_str(), v.pts.size());
	if((int)v.pts.size() == 3*np) for(int i = 0; i < np; i++) for(int d = 0; d < 3; d++)
		HX_CHECK(near(v.pts[3*i+d], d < 2 ? um.gcoords(i,d) : 0.0, coordtol, 1e-8), "vtu-points", "%s: point %d coordinate %d is %.12g, expected %.12g", what.c_str(), i, d, v.pts[3*i+d], d < 2 ? um.gcoords(i,d) : 0.0);
	HX_CHECK((int)v.offs.size() == nc && (int)v.types.size() == nc, "vtu-cells", "%s: %zu offsets, %zu types for %d cells", what.c_str(), v.offs.size(), v.types.size(), nc);
	if((int)v.offs.size() != nc || (int)v.types.size() != nc) return;
	int o = 0;
	for(int i = 0; i < nc; i++) {
		int n = um.gnnode(i);
		// a nine-node quadrilateral may be written without its centre node
		if(n == 9 && v.types[i] == 23) n = 8;
		HX_CHECK(v.types[i] == vtkType(n), "vtu-types", "%s: cell %d with %d nodes has type %g", what.c_str(), i, um.gnnode(i), v.types[i]);
		HX_CHECK(v.offs[i] == o+n, "vtu-offsets", "%s: cell %d ends at offset %g, expected %d", what.c_str(), i, v.offs[i], o+n);
		for(int k = 0; k < n; k++) HX_CHECK(o+k < (int)v.conn.size() && v.conn[o+k] == um.ginpoel(i,k), "vtu-connectivity", "%s: node %d of cell %d is %g, expected %d", what.c_str(), k, i, o+k < (int)v.conn.size() ? v.conn[o+k] : -1, (int)um.ginpoel(i,k));
		o += n;
	}
	HX_CHECK((int)v.conn.size() == o, "vtu-connectivity", "%s: %zu connectivity entries, expected %d", what.c_str(), v.conn.size(), o);
}
/// x: rows x cols, y: rows x 2 or empty
static void checkData(const Vtu& v, int n, const amat::Array2d<double>& x, const std::vector<std::string>& names, const amat::Array2d<double>& y, const std::string& vname, bool cell, const std::string& what) {
	if(!v.ok) return;
	const size_t expect = (x.msize() > 0 ? x.cols() : 0) + (y.msize() > 0 ? 1 : 0);
	HX_CHECK(v.data.size() == expect, "vtu-data", "%s: %zu data arrays, expected %zu", what.c_str(), v.data.size(), expect);
	if(expect) HX_CHECK(v.cell == cell, "vtu-data", "%s: data are attached to %s", what.c_str(), v.cell ? "cells" : "points");
	if(x.msize() > 0) {
		HX_CHECK(v.scal == names[0], "vtu-data", "%s: active scalars %s", what.c_str(), v.scal.c_str());
		for(int c = 0; c < x.cols(); c++) {
			const bool has = v.data.count(names[c]) && (int)v.data.at(names[c]).size() == n;
			HX_CHECK(has, "vtu-data", "%s: scalar %s missing or of wrong length", what.c_str(), names[c].c_str());
			if(has) for(int i = 0; i < n; i++) HX_CHECK(near(v.data.at(names[c])[i], x.get(i,c), 2e-9, 0), "vtu-values", "%s: %s of entry %d is %.12g, given %.12g", what.c_str(), names[c].c_str(), i, v.data.at(names[c])[i], (double)x.get(i,c));
		}
	}
	if(y.msize() > 0) {
		const bool has = v.data.count(vname) && (int)v.data.at(vname).size() == 3*n && v.ncomp.at(vname) == 3 && v.vec == vname;
		HX_CHECK(has, "vtu-data", "%s: vector %s missing or of wrong shape", what.c_str(), vname.c_str());
		if(has) for(int i = 0; i < n; i++) for(int d = 0; d < 3; d++) HX_CHECK(near(v.data.at(vname)[3*i+d], d < 2 ? y.get(i,d) : 0.0, 2e-9, 1e-300), "vtu-values", "%s: component %d of entry %d is %.12g", what.c_str(), d, i, v.data.at(vname)[3*i+d]);
	}
}

/// matches rows to expected ones by the first two columns, each expected row once
static void matchRows(const std::vector<V>& got, const std::vector<V>& exp, const V& colscale, const char *key, const std::string& what) {
	HX_CHECK(got.size() == exp.size(), key, "%s: %zu lines, expected %zu", what.c_str(), got.size(), exp.size());
	std::vector<char> used(got.size(), 0);
	for(auto& e : exp) {
		int best = -1; double bd = 1e300;
		for(size_t i = 0; i < got.size(); i++) if(!used[i] && got[i].size() == e.size()) { const double d = std::hypot(got[i][0]-e[0], got[i][1]-e[1]); if(d < bd) { bd = d; best = (int)i; } }
		HX_CHECK(best >= 0 && bd <= 2e-5*(std::fabs(e[0])+std::fabs(e[1])+1e-6), key, "%s: no line at (%.8g, %.8g)", what.c_str(), e[0], e[1]);
		if(best < 0) continue;
		used[best] = 1;
		for(size_t c = 2; c < e.size(); c++) HX_CHECK(near(got[best][c], e[c], 1e-5, 1e-3*colscale[c]), key, "%s: column %zu at (%.6g, %.6g) is %.10g, expected %.10g", what.c_str(), c+1, e[0], e[1], got[best][c], e[c]);
	}
}

struct Surf { std::vector<V> rows; double Cl, Cdp, Cdf, scp, scf; };
static Surf surface(const Setup& S, const Mesh& um, const V& u, const V& grad, int marker) {
	Surf o; o.Cl = o.Cdp = o.Cdf = 0; o.scp = o.scf = 0;
	const double pinf = 1/(S.ph.g*S.ph.M*S.ph.M), wx = std::cos(S.ph.aoa), wy = std::sin(S.ph.aoa);
	double tot = 0;
	for(int f = 0; f < um.gnbface(); f++) if(um.gbtags(f,0) == marker) {
		const int c = um.gintfac(f,0); const double *w = &u[4*c];
		const double nx = um.gfacemetric(f,0), ny = um.gfacemetric(f,1), len = um.gfacemetric(f,2), tx = ny, ty = -nx;
		const double Cp = 2*(fl::pres(S.ph.g,w)-pinf);
		double du[2][2], mag = 0;
		for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) { const double gm = grad[(4*c+i+1)*2+j], gr = grad[(4*c)*2+j]; du[i][j] = (gm - w[i+1]/w[0]*gr)/w[0]; mag += (std::fabs(gm)+std::fabs(w[i+1]/w[0]*gr))/w[0]; }
		const double mu = S.visc == CONSTV ? 1/S.ph.Re : gas::mu(S.h, w);   // the viscosity of the computation
		const double fx = 2*du[0][0]*nx + (du[0][1]+du[1][0])*ny, fy = (du[0][1]+du[1][0])*nx + 2*du[1][1]*ny;
		const double Cf = 2*mu*(fx*tx+fy*ty);
		o.rows.push_back({0.5*(um.gcoords(um.gintfac(f,2),0)+um.gcoords(um.gintfac(f,3),0)), 0.5*(um.gcoords(um.gintfac(f,2),1)+um.gcoords(um.gintfac(f,3),1)), Cp, Cf});
		o.Cl += Cp*(-nx*wy+ny*wx)*len; o.Cdp += Cp*(nx*wx+ny*wy)*len; o.Cdf += Cf*(tx*wx+ty*wy)*len; tot += len;
		o.scp = std::max(o.scp, fl::pres(S.ph.g,w)+pinf); o.scf = std::max(o.scf, 4*mu*mag);
	}
	o.Cl /= tot; o.Cdp /= tot; o.Cdf /= tot;
	return o;
}

static void one(const RM& m, const Mesh& um, const rc::Geo& G, const Setup& S, const V& u, bool uniform, bool files, const std::string& dir, const std::string& what) {
	const int ne = um.gnelem(), np = um.gnpoin(), nb = um.gnbface();
	const double g = S.ph.g, M = S.ph.M;
	const FlowFV_base<double> *fv = dynamic_cast<const FlowFV_base<double>*>(S.s.get());
	if(!fv) hx::internal_error("not a flow discretization");
	const FlowOutput out(fv, S.phy.get(), S.ph.aoa);
	Vec uv = fl::mkvec<4>(um, u);
	// point values
	amat::Array2d<double> sca, vel;
	HX_CHECK(!out.postprocess_point(uv, sca, vel), "point-error", "%s: error", what.c_str());
	V n(4*np, 0.0), w(np, 0.0);
	for(int i = 0; i < ne; i++) for(int k = 0; k < um.gnnode(i); k++) { const int p = um.ginpoel(i,k); for(int v = 0; v < 4; v++) n[4*p+v] += u[4*i+v]*um.garea(i); w[p] += um.garea(i); }
	auto values = [&](const double *c, double *o) { o[0] = c[0]; o[1] = std::hypot(c[1],c[2])/c[0]/fl::snd(g,c); o[2] = fl::pres(g,c); o[3] = g*M*M*fl::pres(g,c)/c[0]; o[4] = c[1]/c[0]; o[5] = c[2]/c[0]; };
	static const char *names[] = {"density","Mach number","pressure","temperature","x-velocity","y-velocity"};
	for(int p = 0; p < np; p++) {
		double c[4], o[6];
		for(int v = 0; v < 4; v++) c[v] = n[4*p+v]/w[p];
		if(!(fl::pres(g,c) > 0)) continue;
		values(c, o);
		for(int k = 0; k < 6; k++) {
			const double got = k < 4 ? sca(p,k) : vel(p,k-4);
			HX_CHECK(near(got, o[k], 1e-9, k == 1 || k > 3 ? 1 : 0), "point-values", "%s: %s of point %d is %.12g, expected %.12g", what.c_str(), names[k], p, got, o[k]);
		}
		if(uniform) {
			double q[6]; values(&u[0], q);
			for(int k = 0; k < 6; k++) HX_CHECK(near(k < 4 ? sca(p,k) : vel(p,k-4), q[k], 1e-9, k == 1 || k > 3 ? 1 : 0), "point-uniform", "%s: %s of point %d is %.12g in a uniform state of %.12g", what.c_str(), names[k], p, k < 4 ? (double)sca(p,k) : (double)vel(p,k-4), q[k]);
		}
	}
	// cell values
	amat::Array2d<double> cs, cv;
	HX_CHECK(!out.postprocess_cell(uv, cs, cv), "cell-error", "%s: error", what.c_str());
	for(int i = 0; i < ne; i++) {
		double o[6]; values(&u[4*i], o);
		for(int k : {0,1,2,4,5}) HX_CHECK(near(k < 4 ? cs(i,k) : cv(i,k-4), o[k], 1e-10, k == 1 || k > 3 ? 1 : 0), "cell-values", "%s: %s of cell %d is %.12g, expected %.12g", what.c_str(), names[k], i, k < 4 ? (double)cs(i,k) : (double)cv(i,k-4), o[k]);
	}
	// entropy
	double err = 0; const double sinf = 1/(g*M*M);
	double smag = 0, area = 0;
	for(int i = 0; i < ne; i++) { const double s = fl::pres(g,&u[4*i])/std::pow(u[4*i],g), e = (s-sinf)/sinf; err += e*e*um.garea(i); smag = std::max(smag, s/sinf + 1 + u[4*i+3]/std::pow(u[4*i],g)/sinf); area += um.garea(i); }
	const double ge = out.compute_entropy_cell(uv);
	HX_CHECK(near(ge, std::sqrt(err), 1e-9, 1e-5*smag*std::sqrt(area)), "entropy", "%s: entropy error %.12g, expected %.12g", what.c_str(), ge, std::sqrt(err));
	hx::eval(3);
	// gradients used for surface data
	V ub(4*nb), grad(8*ne, 0.0);
	for(int f = 0; f < nb; f++) { const auto nn = um.gnormal(f); S.bc.at(um.gbtags(f,0))->computeGhostState(&u[4*um.gintfac(f,0)], nn.data(), &ub[4*f]); }
	if(S.sc.o2) grad = rc::libGrad<4>(um, G, S.sc.grad, u, ub, 0.0);
	std::vector<GradBlock_t<double,2,4>, Eigen::aligned_allocator<GradBlock_t<double,2,4>>> gr(ne);
	for(auto& b : gr) b.setZero();
	fv->getGradients(uv, gr.data());
	double gm = 0; for(double x : grad) gm = std::max(gm, std::fabs(x));
	for(int i = 0; i < ne; i++) for(int v = 0; v < 4; v++) for(int d = 0; d < 2; d++)
		HX_CHECK(near(gr[i](d,v), grad[(4*i+v)*2+d], 1e-9, gm), "gradients", "%s: gradient of variable %d in cell %d is %.12g, expected %.12g", what.c_str(), v, i, (double)gr[i](d,v), grad[(4*i+v)*2+d]);
	// surface data and functionals
	const amat::Array2dView<double> ua(u.data(), ne, 4);
	for(int t : tagsOf(m)) {
		const Surf E = surface(S, um, u, grad, t);
		MVector<double> o; o.resize(E.rows.size(), 4);
		const auto F = fv->computeSurfaceData(ua, gr.data(), t, o);
		std::vector<V> got; for(size_t i = 0; i < E.rows.size(); i++) got.push_back({o(i,0),o(i,1),o(i,2),o(i,3)});
		HX_CHECK(near(std::get<0>(F), E.Cl, 1e-9, E.scp), "lift", "%s marker %d: CL %.12g, expected %.12g", what.c_str(), t, std::get<0>(F), E.Cl);
		HX_CHECK(near(std::get<1>(F), E.Cdp, 1e-9, E.scp), "pressure-drag", "%s marker %d: CDp %.12g, expected %.12g", what.c_str(), t, std::get<1>(F), E.Cdp);
		HX_CHECK(near(std::get<2>(F), E.Cdf, 1e-9, E.scf), "friction-drag", "%s marker %d: CDf %.12g, expected %.12g", what.c_str(), t, std::get<2>(F), E.Cdf);
		matchRows(got, E.rows, {0,0,1e-3*E.scp,1e-3*E.scf}, "surface-data", what + hx::fmt(" marker %d", t));
		hx::eval();
	}
	if(files) {
		const std::string base = dir + "/o";
		std::vector<int> wl, ol; int k = 0;
		for(int t : tagsOf(m)) { if(k % 3 != 1) wl.push_back(t); if(k % 3 != 0) ol.push_back(t); k++; }
		out.exportSurfaceData(uv, wl, ol, base);
		for(int t : wl) {
			const std::string f = base + "-surf_w" + std::to_string(t) + ".out";
			const Surf E = surface(S, um, u, grad, t);
			std::vector<V> com;
			matchRows(rows(slurp(f), &com), E.rows, {0,0,E.scp,E.scf}, "surface-file", what + " " + f);
			HX_CHECK(com.size() == 1 && com[0].size() == 3 && near(com[0][0],E.Cl,1e-5,1e-3*E.scp) && near(com[0][1],E.Cdp,1e-5,1e-3*E.scp) && near(com[0][2],E.Cdf,1e-5,1e-3*E.scf), "surface-file", "%s: lift and drag line of %s", what.c_str(), f.c_str());
			unlink(f.c_str());
		}
		for(int t : ol) {
			const std::string f = base + "-surf_o" + std::to_string(t) + ".out";
			std::vector<V> E;
			for(auto& r : surface(S, um, u, grad, t).rows) E.push_back(r);
			int j = 0; for(int fc = 0; fc < nb; fc++) if(um.gbtags(fc,0) == t) { const int c = um.gintfac(fc,0); E[j][2] = u[4*c+1]/u[4*c]; E[j][3] = u[4*c+2]/u[4*c]; j++; }
			matchRows(rows(slurp(f)), E, {0,0,1,1}, "other-surface-file", what + " " + f);
			unlink(f.c_str());
		}
		EM ue(ne,4); MVector<double> umat; umat.resize(ne,4);
		for(int i = 0; i < ne; i++) for(int v = 0; v < 4; v++) umat(i,v) = u[4*i+v];
		out.exportVolumeData(umat, base);
		std::vector<V> E;
		for(int i = 0; i < ne; i++) { double o[6], x = 0, y = 0; values(&u[4*i], o); for(int q = 0; q < um.gnnode(i); q++) { x += um.gcoords(um.ginpoel(i,q),0)/um.gnnode(i); y += um.gcoords(um.ginpoel(i,q),1)/um.gnnode(i); } E.push_back({x,y,o[0],o[4],o[5],o[2],o[3],o[1]}); }
		matchRows(rows(slurp(base+"-vol.out")), E, {0,0,1,1,1,1,1,1}, "volume-file", what);
		unlink((base+"-vol.out").c_str());
		std::string sn[] = {"density","mach-number","pressure","temperature"};
		writeScalarsVectorToVtu_PointData(base+".vtu", um, sca, sn, vel, "velocity");
		const Vtu vt = parseVtu(base+".vtu");
		checkGrid(um, vt, 2e-9, what); checkData(vt, np, sca, {sn,sn+4}, vel, "velocity", false, what);
		unlink((base+".vtu").c_str());
		hx::eval(4);
	}
	VecDestroy(&uv);
}

/// mesh and data writers with synthetic data of every shape; mesh conversion
static void writers(const RM& m, const Mesh& um, const std::string& dir, const std::string& what) {
	const std::string f = dir + "/w.vtu";
	for(int cell = 0; cell < 2; cell++) for(int ns = 0; ns < 4; ns++) for(int nv = 0; nv < 2; nv++) {
		const int n = cell ? um.gnelem() : um.gnpoin();
		amat::Array2d<double> x, y; std::string nm[] = {"alpha","beta","gamma","delta"};
		if(ns) { x.resize(n,ns); for(int i = 0; i < n; i++) for(int c = 0; c < ns; c++) x(i,c) = (hash01(i,c,7)-0.5)*std::pow(10.0, c*6-5); }
		if(nv) { y.resize(n,2); for(int i = 0; i < n; i++) for(int c = 0; c < 2; c++) y(i,c) = 40*(hash01(i,c,8)-0.5); }
		if(cell) writeScalarsVectorToVtu_CellData(f, um, x, nm, y, "vee"); else writeScalarsVectorToVtu_PointData(f, um, x, nm, y, "vee");
		const Vtu v = parseVtu(f);
		const std::string w = what + hx::fmt(" %s data %d scalars %d vectors", cell ? "cell" : "point", ns, nv);
		checkGrid(um, v, 2e-9, w); checkData(v, n, x, {nm,nm+4}, y, "vee", cell, w);
		hx::eval();
	}
	writeMeshToVtu(f, um);
	checkGrid(um, parseVtu(f), 2e-9, what + " mesh only");
	unlink(f.c_str());
	// conversion: in = Gmsh text, out = vtu / msh
	const std::string in = dir + "/in.msh", ov = dir + "/out.vtu", om = dir + "/out.msh";
	{ std::ofstream o(in); o << gmshText(m, GmshLayout()); }
	auto conv = [&](std::vector<std::string> a) {
		a.insert(a.begin(), "convert"); std::vector<char*> c; for(auto& s : a) c.push_back(&s[0]); c.push_back(nullptr);
		try { return convert_main((int)a.size(), c.data()); } catch(const std::exception&) { return 99; }
	};
	HX_CHECK(conv({in,ov,"vtu"}) == 0, "convert", "%s: conversion to vtu failed", what.c_str());
	const Mesh im(readMesh(in));
	checkGrid(im, parseVtu(ov), 2e-9, what + " converted");
	HX_CHECK(conv({in,om,"msh"}) == 0, "convert", "%s: conversion to msh failed", what.c_str());
	const Mesh rm(readMesh(om));
	HX_CHECK(rm.gnelem() == im.gnelem() && rm.gnpoin() == im.gnpoin() && rm.gnbface() == im.gnbface(), "convert", "%s: sizes changed", what.c_str());
	if(rm.gnelem() == im.gnelem()) for(int i = 0; i < im.gnelem(); i++) { HX_CHECK(rm.gnnode(i) == im.gnnode(i), "convert", "%s: cell %d", what.c_str(), i); for(int k = 0; k < im.gnnode(i); k++) HX_CHECK(rm.ginpoel(i,k) == im.ginpoel(i,k), "convert", "%s: cell %d node %d", what.c_str(), i, k); }
	HX_CHECK(conv({in,ov,"xyz"}) != 0, "convert-refuses", "%s: unknown format accepted", what.c_str());
	HX_CHECK(conv({in,ov}) != 0, "convert-refuses", "%s: missing argument accepted", what.c_str());
	HX_CHECK(conv({}) != 0, "convert-refuses", "%s: missing arguments accepted", what.c_str());
	for(auto& p : {in,ov,om}) unlink(p.c_str());
	hx::eval(3);
}

/// the same mesh with a node added on every edge (and in the middle of quadrilaterals), written as Gmsh second-order elements
static void secondOrder(const RM& m, bool nine, const std::string& dir, const std::string& what) {
	std::vector<std::array<double,2>> p = m.p; std::map<std::pair<int,int>,int> mid;
	auto edge = [&](int a, int b) { auto k = std::make_pair(std::min(a,b), std::max(a,b)); auto it = mid.find(k); if(it != mid.end()) return it->second; p.push_back({{0.5*(p[a][0]+p[b][0])+0.01*hash01(a+b,a*b,3), 0.5*(p[a][1]+p[b][1])+0.01*hash01(a+b,a*b,4)}}); return mid[k] = (int)p.size()-1; };
	std::vector<std::vector<int>> e, b;
	for(auto& c : m.e) {
		std::vector<int> q = c; const int n = (int)c.size();
		for(int i = 0; i < n; i++) q.push_back(edge(c[i], c[(i+1)%n]));
		if(n == 4 && nine) { p.push_back({{0.25*(p[c[0]][0]+p[c[1]][0]+p[c[2]][0]+p[c[3]][0]), 0.25*(p[c[0]][1]+p[c[1]][1]+p[c[2]][1]+p[c[3]][1])}}); q.push_back((int)p.size()-1); }
		e.push_back(q);
	}
	for(auto& f : m.b) b.push_back({f[0], f[1], edge(f[0], f[1])});
	std::string t = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" + hx::fmt("%zu\n", p.size());
	for(size_t i = 0; i < p.size(); i++) t += hx::fmt("%zu %.17g %.17g 0\n", i+1, p[i][0], p[i][1]);
	t += "$EndNodes\n$Elements\n" + hx::fmt("%zu\n", e.size()+b.size());
	int id = 1;
	for(size_t i = 0; i < b.size(); i++) t += hx::fmt("%d 8 2 %d %d %d %d %d\n", id++, m.bt[i][0], m.bt[i][1], b[i][0]+1, b[i][1]+1, b[i][2]+1);
	for(size_t i = 0; i < e.size(); i++) { t += hx::fmt("%d %d 2 %d %d", id++, e[i].size() == 6 ? 9 : nine ? 10 : 16, m.reg[i][0], m.reg[i][1]); for(int k : e[i]) t += hx::fmt(" %d", k+1); t += "\n"; }
	t += "$EndElements\n";
	const std::string in = dir + "/q.msh", f = dir + "/q.vtu";
	{ std::ofstream o(in); o << t; }
	const Mesh um(readMesh(in));
	HX_CHECK(um.gnelem() == (int)e.size() && um.gnpoin() == (int)p.size() && um.gnbface() == (int)b.size(), "second-order-read", "%s: %d cells %d points %d boundary faces", what.c_str(), (int)um.gnelem(), (int)um.gnpoin(), (int)um.gnbface());
	if(um.gnelem() == (int)e.size()) for(size_t i = 0; i < e.size(); i++) for(size_t k = 0; k < e[i].size(); k++) HX_CHECK(um.gnnode(i) == (int)e[i].size() && um.ginpoel(i,k) == e[i][k], "second-order-read", "%s: cell %zu", what.c_str(), i);
	writeMeshToVtu(f, um);
	checkGrid(um, parseVtu(f), 2e-9, what + " mesh only");
	for(int cell = 0; cell < 2; cell++) {
		const int n = cell ? um.gnelem() : um.gnpoin();
		amat::Array2d<double> x(n,1), y(n,2); std::string nm[] = {"s"};
		for(int i = 0; i < n; i++) { x(i,0) = hash01(i,0,1); y(i,0) = hash01(i,1,1); y(i,1) = -hash01(i,2,1); }
		if(cell) writeScalarsVectorToVtu_CellData(f, um, x, nm, y, "v"); else writeScalarsVectorToVtu_PointData(f, um, x, nm, y, "v");
		const Vtu v = parseVtu(f);
		checkGrid(um, v, 2e-9, what); checkData(v, n, x, {"s"}, y, "v", cell, what);
	}
	unlink(in.c_str()); unlink(f.c_str());
	hx::eval(3);
}

/// a whole case: the files and functionals are those of the final state
static void wholeCase(const RM& m, const fl::Phys& p, int variant, const std::string& dir, const std::string& what) {
	const Mesh um = prepare(m); const rc::Geo G(&um);
	rc::checkGeo(um, G, m.name);
	const auto tags = tagsOf(m); std::vector<fl::BC> bcs; int k = 0;
	for(int t : tags) bcs.push_back({t, (k++ % 2) ? FARFIELD_BC : SLIP_WALL_BC, {}});
	FlowParserOptions o = caseOptions(p, bcs);
	o.logfile = dir + "/case"; o.vtu_output_file = dir + "/case.vtu"; o.volnameprefix = dir + "/case"; o.surfnameprefix = dir + "/case";
	o.vol_output_reqd = variant & 1 ? "YES" : "NO"; const bool surf = variant & 2, vtu = variant & 4;
	o.lognres = variant & 8; o.tolerance = variant & 16 ? 1e-9 : 0.3; o.maxiter = 12; o.initcfl = 4; o.endcfl = 8;
	if(!(variant & 32)) { k = 0; for(int t : tags) ((k++ % 2) ? o.lothers : o.lwalls).push_back(t); }
	o.write_final_lin_sys = variant & 64;
	o.num_out_walls = o.lwalls.size(); o.num_out_others = o.lothers.size();
	V u0; for(int i = 0; i < um.gnelem(); i++) { const St s = fl::freestream(p); u0.insert(u0.end(), s.begin(), s.end()); }
	Vec uv = fl::mkvec<4>(um, u0);
	SteadyFlowCase fc(o);
	FlowSolutionFunctionals F;
	try { F = fc.run_output(surf, vtu, um, uv); } catch(const std::exception& e) { hx::fail("case-output", what + ": " + e.what()); return; }
	const V u = fl::rd(uv, 4*um.gnelem());
	Setup S(um, p, INVISCID, {o.gradientmethod, o.limiter, true, o.limiter_param}, o.invflux, bcs);
	const FlowFV_base<double> *fv = dynamic_cast<const FlowFV_base<double>*>(S.s.get());
	const FlowOutput out(fv, S.phy.get(), p.aoa);
	auto exists = [&](const std::string& f) { return access(f.c_str(), R_OK) == 0; };
	HX_CHECK(near(F.meshSizeParameter, 1/std::sqrt((double)um.gnelem()), 1e-12, 0), "case-functionals", "%s: mesh size %.12g", what.c_str(), F.meshSizeParameter);
	HX_CHECK(near(F.entropy, out.compute_entropy_cell(uv), 1e-10, 1e-10), "case-functionals", "%s: entropy %.12g", what.c_str(), F.entropy);
	V ub(4*um.gnbface());
	for(int f = 0; f < um.gnbface(); f++) { const auto nn = um.gnormal(f); S.bc.at(um.gbtags(f,0))->computeGhostState(&u[4*um.gintfac(f,0)], nn.data(), &ub[4*f]); }
	const V grad = rc::libGrad<4>(um, G, o.gradientmethod, u, ub, 0.0);
	if(!o.lwalls.empty()) {
		const Surf E = surface(S, um, u, grad, o.lwalls[0]);
		HX_CHECK(near(F.CL, E.Cl, 1e-9, E.scp) && near(F.CDp, E.Cdp, 1e-9, E.scp) && near(F.CDsf, E.Cdf, 1e-9, E.scf), "case-functionals", "%s: CL %.12g CDp %.12g CDf %.12g, expected %.12g %.12g %.12g", what.c_str(), F.CL, F.CDp, F.CDsf, E.Cl, E.Cdp, E.Cdf);
	}
	for(int t : o.lwalls) { const std::string f = dir + "/case-surf_w" + std::to_string(t) + ".out"; HX_CHECK(exists(f) == surf, "case-files", "%s: surface file %s", what.c_str(), f.c_str()); if(exists(f)) { const Surf E = surface(S, um, u, grad, t); matchRows(rows(slurp(f)), E.rows, {0,0,E.scp,E.scf}, "case-files", what); } unlink(f.c_str()); }
	for(int t : o.lothers) { const std::string f = dir + "/case-surf_o" + std::to_string(t) + ".out"; HX_CHECK(exists(f) == surf, "case-files", "%s: surface file %s", what.c_str(), f.c_str()); unlink(f.c_str()); }
	HX_CHECK(exists(dir+"/case-vol.out") == (bool)(variant & 1), "case-files", "%s: volume file", what.c_str());
	if(variant & 1) HX_CHECK((int)rows(slurp(dir+"/case-vol.out")).size() == um.gnelem(), "case-files", "%s: volume file", what.c_str());
	HX_CHECK(exists(dir+"/case.vtu") == vtu, "case-files", "%s: vtu file", what.c_str());
	if(vtu) { amat::Array2d<double> sca, vel; out.postprocess_point(uv, sca, vel); const Vtu v = parseVtu(dir+"/case.vtu"); checkGrid(um, v, 2e-9, what); checkData(v, um.gnpoin(), sca, {"density","mach-number","pressure","temperature"}, vel, "velocity", false, what); }
	// the same solves composed by hand
	V us = u0; if(o.usestarter) us = sb::solveBy(um, o, true, us).u;
	const sb::Run B = sb::solveBy(um, o, false, us, true);
	const bool conv = B.outcome == sb::CONVERGED;
	hx::count(conv ? "cases_converged" : "cases_unconverged");
	const std::string hf = dir + "/case-residual_history.log", pf = dir + "/case-prec-timing.log";
	for(auto& f : {hf, pf}) HX_CHECK(exists(f) == ((variant & 8) && conv), "case-history", "%s: file %s of a run that %s", what.c_str(), f.c_str(), conv ? "converged" : "did not converge");
	if(exists(hf)) {
		const auto h = rows(slurp(hf)); hx::count("histories_written");
		HX_CHECK((int)h.size() == B.td.num_timesteps, "case-history", "%s: %zu lines for %d steps", what.c_str(), h.size(), B.td.num_timesteps);
		for(size_t i = 0; i < h.size() && i < B.td.convhis.size(); i++) {
			const auto& e = B.td.convhis[i];
			HX_CHECK(h[i].size() == 7 && h[i][0] == (double)i+1, "case-history", "%s: line %zu of the history", what.c_str(), i);
			if(h[i].size() != 7) continue;
			HX_CHECK(std::fabs(h[i][1]-std::log10(e.rmsres)) <= 2e-5 && std::fabs(h[i][2]-std::log10(e.absrmsres)) <= 2e-5*(1+std::fabs(h[i][2])), "case-history", "%s: line %zu lists logarithms of residuals %g %g, are %g %g", what.c_str(), i, h[i][1], h[i][2], std::log10(e.rmsres), std::log10(e.absrmsres));
			HX_CHECK(h[i][5] == e.linits && std::fabs(h[i][6]-e.cfl) <= 1e-3*e.cfl, "case-history", "%s: line %zu lists %g linear iterations and CFL %g, were %d and %g", what.c_str(), i, h[i][5], h[i][6], e.linits, e.cfl);
		}
		const auto t = rows(slurp(pf));
		HX_CHECK(t.size() == 1 && t[0].size() == 8 && t[0][0] == B.td.num_threads && t[0][4] == B.td.total_lin_iters && t[0][5] == B.td.avg_lin_iters && t[0][6] == B.td.num_timesteps && t[0][7] == 1, "case-history", "%s: line of %s", what.c_str(), pf.c_str());
	}
	// the last linear system: matrix of the last step, its residual, the update it gave
	const std::string lf[] = {dir+"/case_lhs.pmat", dir+"/case_b.pmat", dir+"/case_x.pmat"};
	for(auto& f : lf) HX_CHECK(exists(f) == o.write_final_lin_sys, "case-linear-system", "%s: file %s", what.c_str(), f.c_str());
	if(o.write_final_lin_sys && exists(lf[0]) && exists(lf[1]) && exists(lf[2])) {
		hx::count("linear_systems_written");
		FlowParserOptions op = o; op.maxiter = B.td.num_timesteps-1; op.tolerance = 0;
		const V up = sb::solveBy(um, op, false, us).u;
		const int n = 4*um.gnelem();
		PetscViewer vw; Mat A; Vec b, x, y;
		MatCreate(PETSC_COMM_WORLD, &A); VecCreate(PETSC_COMM_WORLD, &b); VecCreate(PETSC_COMM_WORLD, &x);
		PetscViewerBinaryOpen(PETSC_COMM_WORLD, lf[0].c_str(), FILE_MODE_READ, &vw); MatLoad(A, vw); PetscViewerDestroy(&vw);
		PetscViewerBinaryOpen(PETSC_COMM_WORLD, lf[1].c_str(), FILE_MODE_READ, &vw); VecLoad(b, vw); PetscViewerDestroy(&vw);
		PetscViewerBinaryOpen(PETSC_COMM_WORLD, lf[2].c_str(), FILE_MODE_READ, &vw); VecLoad(x, vw); PetscViewerDestroy(&vw);
		VecDuplicate(x, &y); MatMult(A, x, y); VecAXPY(y, -1, b);
		double e, bn; VecNorm(y, NORM_2, &e); VecNorm(b, NORM_2, &bn);
		HX_CHECK(e <= 1e-2*bn, "case-linear-system", "%s: the solution leaves a residual of %g in the system, right-hand side %g", what.c_str(), e, bn);
		const V xv = fl::rd(x, n), bv = fl::rd(b, n);
		double dm = 0; for(int i = 0; i < n; i++) dm = std::max(dm, std::fabs(u[i]-up[i]));
		for(int i = 0; i < n; i++) HX_CHECK(std::fabs(xv[i]-(u[i]-up[i])) <= 1e-6*dm + 1e-12*std::fabs(u[i]), "case-linear-system", "%s: entry %d of the solution is %.12g, the last step changed the state by %.12g", what.c_str(), i, xv[i], u[i]-up[i]);
		Vec uq = fl::mkvec<4>(um, up), rr = fl::mkvec<4>(um, V(n,0.0)), dt; createSystemVector(&um, 1, &dt);
		fv->compute_residual(uq, rr, true, dt);
		const V rv = fl::rd(rr, n);
		double rm = 0; for(double z : rv) rm = std::max(rm, std::fabs(z));
		for(int i = 0; i < n; i++) HX_CHECK(std::fabs(rv[i]-bv[i]) <= 1e-6*rm, "case-linear-system", "%s: entry %d of the right-hand side is %.12g, the residual %.12g", what.c_str(), i, bv[i], rv[i]);
		// matrix: Jacobian plus area/(CFL dt)
		Mat J; fl::chk(setupSystemMatrix<4>(&um, &J), "matrix"); MatZeroEntries(J); fv->assemble_jacobian(uq, J);
		const V dv = fl::rd(dt, um.gnelem());
		for(int i = 0; i < n; i++) { const double d = um.garea(i/4)/(B.td.convhis.back().cfl*dv[i/4]); const PetscInt ii = i; MatSetValues(J, 1, &ii, 1, &ii, &d, ADD_VALUES); }
		MatAssemblyBegin(J, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(J, MAT_FINAL_ASSEMBLY);
		double mx = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double v; MatGetValue(J, i, j, &v); mx = std::max(mx, std::fabs(v)); }
		for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double v, w; MatGetValue(J, i, j, &v); MatGetValue(A, i, j, &w); HX_CHECK(std::fabs(v-w) <= 1e-6*mx, "case-linear-system", "%s: entry %d,%d of the matrix is %.12g, expected %.12g", what.c_str(), i, j, w, v); }
		MatDestroy(&J); MatDestroy(&A); VecDestroy(&b); VecDestroy(&x); VecDestroy(&y); VecDestroy(&uq); VecDestroy(&rr); VecDestroy(&dt);
	}
	for(auto& f : lf) { unlink(f.c_str()); unlink((f+".info").c_str()); }
	for(const char *s : {"-vol.out",".vtu","-residual_history.log","-prec-timing.log"}) unlink((dir+"/case"+s).c_str());
	VecDestroy(&uv);
	hx::eval();
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families (renumbered) with one free stream: fields (uniform, smooth, rough, discontinuous, linear) x viscosity x gradient scheme x boundary assignment, a rotating part of the product per mesh; exported point and cell values, entropy, gradients, surface coefficients and functionals of every marker, and all exported text and VTU files parsed back and compared with their definitions. Mesh and data writers and the conversion program with every shape of data on every mesh. Whole case runs with every combination of output switches. Distinct by mesh, free stream, combination.");
	hx::assume("cell gradients and boundary states come from the library objects that G01 and B01 decide; text files are compared to the precision they are written with");
	char tmpl[] = "/tmp/o01XXXXXX";
	const std::string dir = mkdtemp(tmpl);
	const bool q = hx::quick();
	std::vector<fl::Phys> P = {{1.4,0.5,288.15,100,0.72,0.1},{5.0/3,2.0,200,50,1.0,-0.37},{1.1,0.8,250,5,0.9,1.0}};
	auto mesh = [&](const RM& m0, int stride) {
		for(size_t ip = 0; ip < P.size(); ip++) {
			if(!hx::begin(hx::fmt("%s:ph%zu", m0.name.c_str(), ip))) continue;
			const fl::Phys& p = P[ip];
			hx::sample(hx::fmt("%s Minf %g", m0.name.c_str(), p.M));
			std::vector<int> rv = iota((int)m0.e.size()); std::reverse(rv.begin(), rv.end());
			const RM m = ip % 2 ? flipBFaces(rotateNodes(permCells(m0, rv), 5), 0x2d) : m0;
			const Ref r(m); const Mesh um = prepare(m); const rc::Geo G(&um);
			rc::checkGeo(um, G, m.name);
			long c = (long)(hx::fnv(m0.name) % 1000) + (long)ip; bool first = true;
			const std::vector<fl::Scheme> SC = {fl::schemes()[0], fl::schemes()[1], fl::schemes()[2]};
			for(auto& sc : SC) for(int v = 0; v < 3; v++) for(int b = 0; b < 6; b++) {
				if((c++) % stride) continue;
				Setup S(um, p, v, sc, "HLLC", bcSet(m, [&](int i) { return (i*(1+b%2)+b)%6; }));
				for(int f = 0; f < 5; f++) { one(m, um, G, S, fl::field(p, f, m, r), f == 0, first || f == c % 5, dir, hx::fmt("%s %s bc#%d field %d", m.name.c_str(), S.str().c_str(), b, f)); first = false; }
				hx::nontrivial(hx::fnv(S.str())+b);
			}
			if(ip < 2) { writers(m, um, dir, m.name); for(int nine = 0; nine < 2; nine++) secondOrder(m, nine, dir, m.name + (nine ? " second-order, nine-node" : " second-order")); }
		}
	};
	forMeshes(q ? 1 : 2, [&](const RM& m) { mesh(m, q ? 7 : 3); });
	std::vector<RM> F = {grid(2,2,5,DISTORTED), ring(3,1,7), lshape(11), single(3), single(4)};
	for(auto& m : F) { RM c = m; c.name += "/full"; mesh(c, 1); }
	for(int im = 0; im < (q ? 3 : 5); im++) for(int var = 0; var < 128; var++) {
		if(!hx::begin(hx::fmt("case:%d:%d", im, var))) continue;
		const RM m = im == 0 ? grid(3,2,5,DISTORTED) : im == 1 ? ring(4,2,3) : im == 2 ? fan(6) : im == 3 ? grid(4,3,100,STRETCHED) : lshape(5);
		wholeCase(m, {1.4, 0.4, 288.15, 100, 0.72, im*0.3}, var, dir, hx::fmt("%s outputs %d", m.name.c_str(), var));
		hx::nontrivial();
	}
	rmdir(dir.c_str());
	return hx::finish_petsc();
}
