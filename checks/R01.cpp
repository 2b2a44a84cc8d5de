// R01: every reconstruction on every small mesh
#include "common/petsc_init.hpp"
#include "common/recon.hpp"
#include "common/submesh.hpp"
using namespace rc;
using namespace mg;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

/// gradients that do not come from a gradient scheme: any the reconstruction may be handed
static V hostile(int n, int k, double scale) { V g(n); for(int i = 0; i < n; i++) g[i] = scale*(hash01(i,k,91)-0.5); return g; }

template <int nv> static void one(const Mesh& m, const Geo& G, const std::string& what) {
	const int ne = m.gnelem(), nb = m.gnbface(), nf = m.gnaface();
	const std::vector<std::pair<std::string,double>> kinds = {{"NONE",0},{"WENO",1},{"WENO",20},{"WENO",1000},{"VANALBADA",0},{"BARTHJESPERSEN",0},
		{"VENKATAKRISHNAN",0.1},{"VENKATAKRISHNAN",1},{"VENKATAKRISHNAN",20}};
	// displacement of face from cell
	auto dsp = [&](int f, int c, int d) { return G.f(f,d) - G.c(c,d); };
	for(int fld = 0; fld < (hx::quick() ? 5 : 7); fld++) {
		V u(ne*nv), ug(nb*nv);
		const double c1 = 1.3, c2 = -0.8;
		for(int pass = 0; pass < 2; pass++) for(int i = 0; i < (pass ? nb : ne); i++) for(int v = 0; v < nv; v++) {
			const double x = pass ? G.g(i,0) : G.c(i,0), y = pass ? G.g(i,1) : G.c(i,1);
			double w;
			switch(fld) {
			case 0: w = v == 0 ? 1 : v == 1 ? -3.7 : v == 2 ? 0 : 1e4; break;
			case 1: w = 2 + (v+1)*c1*x + c2*y; break;
			case 2: w = ((pass*1000+i)*7+v) % 3 == 0 ? 1.0 : 0.0; break;                // steps
			case 3: w = (i + v + pass) % 2 ? -1.0 - 0.1*hash01(i,v,5) : 2.0; break;    // sawtooth
			default: w = -2 + 5*hash01(i+1000*pass, v, 40+fld); break;
			}
			(pass ? ug : u)[i*nv+v] = w;
		}
		for(int gs = 0; gs < 4; gs++) {
			V cond, g;
			if(gs == 0) g = gradGG(m, G, nv, u, ug);
			else if(gs == 1) { g = gradLS(m, G, nv, u, ug, cond); double mx = 0; for(double c : cond) mx = std::max(mx, c); if(mx > 1e8) { hx::count("ill-conditioned"); continue; } }
			else if(gs == 2) { if(fld == 0) g.assign(ne*nv*2, 0.0); else if(fld == 1) { g.resize(ne*nv*2); for(int i = 0; i < ne; i++) for(int v = 0; v < nv; v++) { g[(i*nv+v)*2] = (v+1)*c1; g[(i*nv+v)*2+1] = c2; } } else g = hostile(ne*nv*2, fld, 30); }
			else { g = hostile(ne*nv*2, fld+10, 0.3); if(fld == 0) continue; }
			auto gd = [&](int c, int v, int d) { return g[(c*nv+v)*2+d]; };
			for(auto& kd : kinds) {
				const std::string& T = kd.first;
				const Recon R = libRecon<nv>(m, G, T, kd.second, u, ug, g, NaN);
				const std::string tag = hx::fmt("%s field %d grad %d %s(%g)", what.c_str(), fld, gs, T.c_str(), kd.second);
				for(int f = 0; f < nf; f++) {
					const bool b = f < m.gPhyBFaceEnd();
					for(int side = 0; side < (b ? 1 : 2); side++) {
						const int c = m.gintfac(f,side), o = b ? -1 : m.gintfac(f,1-side);
						for(int v = 0; v < nv; v++) {
							const double got = (side ? R.r : R.l)[f*nv+v], uc = u[c*nv+v], uo = b ? ug[f*nv+v] : u[o*nv+v];
							const double full = gd(c,v,0)*dsp(f,c,0) + gd(c,v,1)*dsp(f,c,1);
							double gm = 0;    // largest variation in reach (WENO borrows neighbours' gradients)
							double lo = uc, hi = uc, um = std::fabs(uc);
							for(int j = 0; j < m.gnfael(c); j++) {
								const int ff = m.gelemface(c,j);
								const bool bb = ff < m.gPhyBFaceEnd();
								const int cc = bb ? -1 : (m.gintfac(ff,0) == c ? m.gintfac(ff,1) : m.gintfac(ff,0));
								const double w = bb ? ug[ff*nv+v] : u[cc*nv+v];
								lo = std::min(lo, w); hi = std::max(hi, w); um = std::max(um, std::fabs(w));
								if(!bb) gm = std::max(gm, std::hypot(gd(cc,v,0), gd(cc,v,1)));
							}
							const double dl = std::hypot(dsp(f,c,0), dsp(f,c,1));
							gm = std::max(gm, std::hypot(gd(c,v,0), gd(c,v,1)));
							const double sc = um + gm*dl, tol = 1e-12*sc + 1e-300;
							HX_CHECK(std::isfinite(got), "not-set", "%s face %d side %d var %d: %g", tag.c_str(), f, side, v, got);
							if(!std::isfinite(got)) continue;
							if(fld == 0 && gs <= 2) {
								const double e = gs == 2 ? 0 : 1e-9*um;
								HX_CHECK(std::fabs(got-uc) <= tol + e, "constant", "%s face %d side %d var %d: %.15g of %.15g", tag.c_str(), f, side, v, got, uc);
							}
							if(T == "NONE") {
								HX_CHECK(std::fabs(got-(uc+full)) <= tol, "linear-value", "%s face %d side %d var %d: %.15g expected %.15g", tag.c_str(), f, side, v, got, uc+full);
								if(fld == 1 && gs == 2) {
									const double ex = 2 + (v+1)*c1*G.f(f,0) + c2*G.f(f,1);
									HX_CHECK(std::fabs(got-ex) <= tol+1e-12*std::fabs(ex), "linear-exact", "%s face %d side %d var %d: %.15g exact %.15g", tag.c_str(), f, side, v, got, ex);
								}
							}
							else if(T == "WENO") {
								// weights fall with steepness; own gradient favoured by the parameter
								double ws = 0, lg[2] = {0,0};
								double glo[2] = {1e300,1e300}, ghi[2] = {-1e300,-1e300};
								auto add = [&](int cell, double cw) {
									const double q = gd(cell,v,0)*gd(cell,v,0)+gd(cell,v,1)*gd(cell,v,1), w = cw/std::pow(q+1e-5, 4.0);
									ws += w;
									for(int d = 0; d < 2; d++) { lg[d] += w*gd(cell,v,d); glo[d] = std::min(glo[d], gd(cell,v,d)); ghi[d] = std::max(ghi[d], gd(cell,v,d)); }
								};
								add(c, kd.second);
								for(int j = 0; j < m.gnfael(c); j++) { const int ff = m.gelemface(c,j); if(ff >= m.gPhyBFaceEnd()) add(m.gintfac(ff,0) == c ? m.gintfac(ff,1) : m.gintfac(ff,0), 1.0); }
								const double ex = uc + (lg[0]*dsp(f,c,0) + lg[1]*dsp(f,c,1))/ws;
								HX_CHECK(std::fabs(got-ex) <= 100*tol, "weno-value", "%s face %d side %d var %d: %.15g expected %.15g", tag.c_str(), f, side, v, got, ex);
								double mn = uc, mx = uc;
								for(int d = 0; d < 2; d++) { const double a = glo[d]*dsp(f,c,d), bq = ghi[d]*dsp(f,c,d); mn += std::min(a,bq); mx += std::max(a,bq); }
								HX_CHECK(got >= mn-tol && got <= mx+tol, "weno-convex", "%s face %d side %d var %d: %.15g outside [%.15g,%.15g]", tag.c_str(), f, side, v, got, mn, mx);
							}
							else if(T == "BARTHJESPERSEN") {
								HX_CHECK(got >= lo-tol && got <= hi+tol, "bj-range", "%s face %d side %d var %d: %.15g outside [%.15g,%.15g]", tag.c_str(), f, side, v, got, lo, hi);
								const double dv = got-uc;
								HX_CHECK(dv*full >= -tol*std::fabs(full) && std::fabs(dv) <= std::fabs(full)+tol, "bj-shrinks", "%s face %d side %d var %d: variation %g of %g", tag.c_str(), f, side, v, dv, full);
								double lim = 1;
								for(int j = 0; j < m.gnfael(c); j++) {
									const int ff = m.gelemface(c,j);
									const double d = gd(c,v,0)*dsp(ff,c,0)+gd(c,v,1)*dsp(ff,c,1);
									if(d > 0) lim = std::min(lim, (hi-uc)/d); else if(d < 0) lim = std::min(lim, (lo-uc)/d);
								}
								HX_CHECK(std::fabs(dv-lim*full) <= 1e-9*std::fabs(full)+10*tol, "bj-value", "%s face %d side %d var %d: %.15g expected %.15g", tag.c_str(), f, side, v, got, uc+lim*full);
							}
							else if(T == "VENKATAKRISHNAN") {
								const double dv = got-uc;
								HX_CHECK(dv*full >= -tol*std::fabs(full) && std::fabs(dv) <= std::fabs(full)+tol, "venkat-reverses", "%s face %d side %d var %d: variation %g of %g", tag.c_str(), f, side, v, dv, full);
								double h = 0, lim = 1;
								for(int j = 0; j < m.gnfael(c); j++) h = std::max(h, m.gfacemetric(m.gelemface(c,j),2));
								const double e2 = std::pow(kd.second*h, 3);
								for(int j = 0; j < m.gnfael(c); j++) {
									const int ff = m.gelemface(c,j);
									const double dm = gd(c,v,0)*dsp(ff,c,0)+gd(c,v,1)*dsp(ff,c,1), dp = dm < 0 ? lo-uc : hi-uc;
									lim = std::min(lim, (dp*dp+2*dp*dm+e2)/(dp*dp+dp*dm+2*dm*dm+e2));
								}
								HX_CHECK(std::fabs(dv-lim*full) <= 1e-9*std::fabs(full)+10*tol, "venkat-value", "%s face %d side %d var %d: %.15g expected %.15g", tag.c_str(), f, side, v, got, uc+lim*full);
							}
							else {
								const double df = uo-uc;
								const double rx = (b ? G.g(f,0) : G.c(o,0)) - G.c(c,0), ry = (b ? G.g(f,1) : G.c(o,1)) - G.c(c,1);
								const double dm = 2*(gd(c,v,0)*rx+gd(c,v,1)*ry) - df;
								const double phi = std::max(0.0, (2*dm*df+1e-8)/(dm*dm+df*df+1e-8));
								const double ex = uc + 0.25*phi*((1-phi/3)*dm + (1+phi/3)*df);
								const double s2 = std::fabs(dm)+std::fabs(df)+um;
								HX_CHECK(std::fabs(got-ex) <= 1e-7*s2, "vanalbada-value", "%s face %d side %d var %d: %.15g expected %.15g", tag.c_str(), f, side, v, got, ex);
								if(!b) {
									const double slack = 2e-4 + 1e-9*s2;
									HX_CHECK(got >= std::min(uc,uo)-slack && got <= std::max(uc,uo)+slack, "vanalbada-between", "%s face %d side %d var %d: %.15g not between %.15g and %.15g", tag.c_str(), f, side, v, got, uc, uo);
								}
							}
						}
					}
				}
				hx::eval();
			}
		}
		hx::nontrivial(hx::fnv(what + hx::fmt("#%d/%d", nv, fld)));
	}
}

/// a rank's part of the mesh reconstructs, on its own side of every face, what the whole mesh does
template <int nv> static void part(const Mesh& m, const Geo& G, const sm::Sub& S, const std::string& what) {
	const Mesh& lm = S.m;
	const int ne = m.gnelem(), nb = m.gnbface(), nl = lm.gnelem(), nt = nl+lm.gnConnFace();
	for(int fld = 0; fld < 2; fld++) {
		V u(ne*nv), ug(nb*nv);
		for(int i = 0; i < ne*nv; i++) u[i] = fld ? -2+5*hash01(i,1,33) : (i/nv)%2 ? 1 : -0.5*(i%nv);
		for(int i = 0; i < nb*nv; i++) ug[i] = fld ? -2+5*hash01(i,2,33) : (i/nv)%2 ? 1 : -0.5*(i%nv);
		const V g = fld ? hostile(ne*nv*2, 7, 3) : gradGG(m, G, nv, u, ug);
		const V lu = S.cells(u, nv), lg = S.bfaces(ug, nv), gl = S.cells(g, 2*nv);
		V raw(gl.size());
		GradBlock_t<double,2,nv> *B = reinterpret_cast<GradBlock_t<double,2,nv>*>(raw.data());
		for(int i = 0; i < nt; i++) for(int v = 0; v < nv; v++) for(int d = 0; d < 2; d++) B[i](d,v) = gl[(i*nv+v)*2+d];
		MVector<double> mu(nt, nv);
		for(int i = 0; i < nt; i++) for(int v = 0; v < nv; v++) mu(i,v) = lu[i*nv+v];
		const std::vector<std::pair<std::string,double>> kinds = {{"NONE",0},{"WENO",20},{"VANALBADA",0},{"BARTHJESPERSEN",0},{"VENKATAKRISHNAN",1}};
		for(auto& kd : kinds) {
			const Recon W = libRecon<nv>(m, G, kd.first, kd.second, u, ug, g, NaN);
			Recon R; R.l.assign(lm.gnaface()*nv, NaN); R.r = R.l;
			static std::ostringstream sink;
			std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
			std::unique_ptr<const SolutionReconstruction<double,nv>> s(create_const_reconstruction<double,nv>(kd.first, &lm, S.cc.data(), S.gh.data(), S.gr, kd.second));
			std::cout.rdbuf(old); sink.str("");
			s->compute_face_values(mu, amat::Array2dView<double>(lg.data(), lm.gnbface(), nv), raw.data(),
				amat::Array2dMutableView<double>(R.l.data(), lm.gnaface(), nv), amat::Array2dMutableView<double>(R.r.data(), lm.gnaface(), nv));
			for(int f = 0; f < lm.gnaface(); f++) {
				const bool cut = f >= lm.gConnBFaceStart() && f < lm.gConnBFaceEnd(), b = f < lm.gPhyBFaceEnd();
				for(int side = 0; side < (cut || b ? 1 : 2); side++) {
					const V& E = (side != 0) != (S.turned[f] != 0) ? W.r : W.l;
					for(int v = 0; v < nv; v++) {
						const double got = (side ? R.r : R.l)[f*nv+v], e = E[S.face[f]*nv+v], uc = u[S.cell[lm.gintfac(f,side)]*nv+v];
						HX_CHECK(std::fabs(got-e) <= 1e-10*(std::fabs(e)+std::fabs(uc)+1), "part", "%s %s field %d face %d side %d var %d: %.15g, on the whole mesh %.15g", what.c_str(), kd.first.c_str(), fld, f, side, v, got, e);
					}
				}
			}
			hx::eval();
		}
	}
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one mesh of the families, with cells renumbered; for each, constant, linear, step, sawtooth and rough fields x Green-Gauss, least-squares, exact or arbitrary gradients x nine reconstruction/parameter choices x 1 and 4 variables, output pre-filled with NaN. Every face value of every side compared with a reference and with the guarantee of its limiter. Each choice is also run on every rank's part of the mesh, given values and gradients across the cuts. Distinct by mesh, numbering, field.");
	forMeshes(hx::quick() ? 1 : 2, [&](const RM& m0) {
		if(!hx::begin("mesh:" + m0.name)) return;
		hx::sample(m0.name);
		forNumberings(m0, hx::quick(), [&](const RM& m, const std::string& nm) {
			const Mesh um = prepare(m);
			const Geo G(&um);
			checkGeo(um, G, m.name);
			one<4>(um, G, m0.name + ":" + nm);
			one<1>(um, G, m0.name + ":" + nm + ":scalar");
			const Mesh gm = prepareGlobal(m);
			sm::forSubs(gm, G, hx::quick(), m0.name + ":" + nm, [&](const sm::Sub& S, const std::string& w) { part<4>(gm, G, S, w); part<1>(gm, G, S, w); });
		});
	});
	return hx::finish_petsc();
}
