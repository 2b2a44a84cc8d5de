// P01: thermodynamic conversions and their derivatives on a lattice of states, free streams and directions
#include "common/petsc_init.hpp"
#include "common/gas.hpp"
#include "aconstants.hpp"
#include "physics/aphysics.hpp"
#include "physics/aphysics_defs.hpp"
#include <functional>
using namespace gas;
typedef Dual<4> D;
typedef fvens::IdealGasPhysics<double> P;

static void dv(const St& s, D *u) { for(int i = 0; i < 4; i++) u[i] = D::var(s[i], i); }
static void cmp(const std::string& key, double got, double exp, double scale, const std::string& what, double tol = 1e-12) {
	if(!near(got, exp, tol, scale)) hx::fail(key, hx::fmt("%s: got %.16g expected %.16g", what.c_str(), got, exp));
}
static bool matches(const double *got, const D& ref, double tol) {
	double sc = 0;
	for(int i = 0; i < 4; i++) sc = std::max(sc, std::fabs(ref.d[i]));
	for(int i = 0; i < 4; i++) if(!near(got[i], ref.d[i], tol, sc+1e-14)) return false;
	return true;
}
/// derivative vector of the code against the exactly differentiated reference
static void cmpd(const std::string& key, const double *got, const D& ref, const std::string& what, double tol = 1e-11) {
	double sc = 0;
	for(int i = 0; i < 4; i++) sc = std::max(sc, std::fabs(ref.d[i]));
	for(int i = 0; i < 4; i++) cmp(key, got[i], ref.d[i], sc + 1e-14, what + hx::fmt(" d/du%d", i), tol);
}

static void state(const Ph& h, const P& ph, const St& s, const std::vector<St>& others, const std::vector<std::array<double,2>>& ns) {
	const double *u = s.data();
	const std::string w = gas::str(u);
	D ud[4]; dv(s, ud);
	const double p_ = gas::p(h,u), T_ = gas::T(h,u), c_ = gas::c(h,u), r = u[0], vx = u[1]/r, vy = u[2]/r;
	const double es = std::fabs(u[3])*(h.g-1);       // rounding scale of a pressure obtained from an energy
	const double Ts = h.g*h.M*h.M*es/r;
	cmp("pressure", ph.getPressureFromConserved(u), p_, es, w);
	cmp("pressure-internal", ph.getPressure(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/r), p_, es, w);
	cmp("temperature", ph.getTemperature(r, p_), T_, 0, w);
	cmp("temperature-cons", ph.getTemperatureFromConserved(u), T_, Ts, w);
	cmp("soundspeed", ph.getSoundSpeed(r, p_), c_, 0, w);
	cmp("soundspeed-cons", ph.getSoundSpeedFromConserved(u), c_, c_*es/p_, w);
	cmp("ideal-gas", ph.getDensityFromPressureTemperature(p_, ph.getTemperature(r,p_)), r, 0, w);
	cmp("entropy", ph.getEntropyFromConserved(u), p_/std::pow(r,h.g), es/std::pow(r,h.g), w);
	cmp("energy-p", ph.getEnergyFromPressure(p_, r, vx*vx+vy*vy), u[3], 0, w);
	cmp("energy-T", ph.getEnergyFromTemperature(T_, r, vx*vx+vy*vy), u[3], 0, w);
	double a[4], b[4];
	ph.getPrimitiveFromConserved(u, a);
	const double pr[4] = {r, vx, vy, p_}, p2[4] = {r, vx, vy, T_};
	for(int i = 0; i < 4; i++) cmp("primitive", a[i], pr[i], i == 3 ? es : 1e-3, w);
	cmp("energy-primitive", ph.getEnergyFromPrimitive(pr), u[3], 0, w);
	cmp("energy-primitive2", ph.getEnergyFromPrimitive2(p2), u[3], 0, w);
	cmp("temperature-primitive", ph.getTemperatureFromPrimitive(pr), T_, 0, w);
	ph.getConservedFromPrimitive(a, b);
	for(int i = 0; i < 4; i++) cmp("roundtrip", b[i], u[i], 1e-3, w);
	for(int i = 0; i < 4; i++) b[i] = u[i];
	ph.getPrimitiveFromConserved(b, b);                                      // documented as usable in place
	for(int i = 0; i < 4; i++) cmp("primitive-inplace", b[i], pr[i], i == 3 ? es : 1e-3, w);
	ph.getConservedFromPrimitive(b, b);
	for(int i = 0; i < 4; i++) cmp("roundtrip-inplace", b[i], u[i], 1e-3, w);
	ph.getPrimitive2FromConserved(u, a);
	for(int i = 0; i < 4; i++) cmp("primitive2", a[i], p2[i], i == 3 ? Ts : 1e-3, w);
	for(int i = 0; i < 4; i++) b[i] = u[i];
	ph.getPrimitive2FromConserved(b, b);
	for(int i = 0; i < 4; i++) cmp("primitive2-inplace", b[i], p2[i], i == 3 ? Ts : 1e-3, w);
	cmp("viscosity-T", ph.getViscosityCoeffFromTemperature(T_), muT(h, T_), 0, w);
	cmp("viscosity", ph.getViscosityCoeffFromConserved(u), gas::mu(h,u), gas::mu(h,u)*Ts/T_, w);
	cmp("conductivity", ph.getThermalConductivityFromViscosity(0.37), 0.37/(h.M*h.M*(h.g-1)*h.Pr), 0, w);
	cmp("constviscosity", ph.getConstantViscosityCoeff(), 1/h.Re, 0, w);

	// derivatives
	const double amp = 1e-12*(1 + es/p_);
	double d[16], e[16], f[16];
	auto z = [&](double *x, int n) { for(int i = 0; i < n; i++) x[i] = 0; };
	z(d,4); ph.getJacobianVmag2WrtConserved(u, d); cmpd("d-vmag2", d, (ud[1]*ud[1]+ud[2]*ud[2])/(ud[0]*ud[0]), w);
	double dp[4] = {0,0,0,0}; ph.getJacobianPressureWrtConserved(u, dp); cmpd("d-pressure", dp, gas::p(h,ud), w);
	z(d,4); ph.getJacobianPressureWrtConserved(u, u[1]*u[1]+u[2]*u[2], d); cmpd("d-pressure2", d, gas::p(h,ud), w);
	const D pd = gas::p(h,ud), Td = gas::T(h,ud), cd = gas::c(h,ud);
	z(d,4); ph.getJacobianTemperature(r, p_, pd.d, d); cmpd("d-temperature", d, Td, w);
	z(d,4); ph.getJacobianTemperatureWrtConserved(u, d); cmpd("d-temperature-cons", d, Td, w, 10*amp);
	z(d,4); ph.getJacobianSoundSpeed(r, p_, pd.d, c_, d); cmpd("d-sound", d, cd, w);
	z(d,4); ph.getJacobianSoundSpeedWrtConserved(u, d); cmpd("d-sound-cons", d, cd, w, 10*amp);
	z(d,4); ph.getJacobianSutherlandViscosityWrtConserved(u, d); const D md = gas::mu(h,ud);
	if(!matches(d, md, 10*amp) && matches(d, muKnown(h, Td), 1e-10 + 10*amp)) hx::fail("d-viscosity-power", w + ": the first term of the derivative of Sutherland's viscosity has T^-1.5 instead of T^0.5");
	else cmpd("d-viscosity", d, md, w, 10*amp);
	z(e,4); ph.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(md.d, e); cmpd("d-conductivity", e, md/(h.M*h.M*(h.g-1)*h.Pr), w);
	z(d,16); ph.getJacobianPrimitive2WrtConserved(u, d);
	cmpd("d-prim2", d, ud[0], w); cmpd("d-prim2", d+4, ud[1]/ud[0], w); cmpd("d-prim2", d+8, ud[2]/ud[0], w); cmpd("d-prim2", d+12, Td, w, 10*amp);
	// energy from derivatives of T and |v|^2; density from those of p and T (any functions of the state serve)
	const D v2 = (ud[1]*ud[1]+ud[2]*ud[2])/(ud[0]*ud[0]);
	z(d,4); ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T_, r, v2.v, Td.d, v2.d, d); cmpd("d-energy", d, ud[3], w, 1e-10);
	z(d,4); ph.getJacobianDensityFromJacobiansPressureTemperature(p_, T_, pd.d, Td.d, d);
	{ // drho = d(g M^2 p/T): equals (1,0,0,0)
		const D rr = h.g*h.M*h.M*pd/Td;
		const double sc = h.g*h.M*h.M*(std::fabs(pd.d[0])/T_ + p_*std::fabs(Td.d[0])/(T_*T_)) + h.g*h.M*h.M*(std::fabs(pd.d[3])/T_ + std::fabs(pd.d[1])/T_+ std::fabs(pd.d[2])/T_) + 1;
		for(int i = 0; i < 4; i++) cmp("d-density", d[i], rr.d[i], sc, w);
	}
	// documented to add to what the output already holds
	{
		auto added = [&](const char *key, int n, const std::function<void(double*)>& fn) {
			double a0[16], a1[16];
			for(int i = 0; i < n; i++) { a0[i] = 0; a1[i] = i - 3.25; }
			fn(a0); fn(a1);
			for(int i = 0; i < n; i++) cmp(std::string("accumulates-") + key, a1[i] - (i - 3.25), a0[i], 16, w + hx::fmt(" entry %d", i), 1e-13*(1+std::fabs(a0[i])));
		};
		added("temperature", 4, [&](double *x) { ph.getJacobianTemperatureWrtConserved(u, x); });
		added("prim2", 16, [&](double *x) { ph.getJacobianPrimitive2WrtConserved(u, x); });
		added("energy", 4, [&](double *x) { ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T_, r, v2.v, Td.d, v2.d, x); });
	}
	for(auto& n : ns) {
		const double *nn = n.data();
		double v[2], vn_, pp, hh;
		ph.getVarsFromConserved(u, nn, v, vn_, pp, hh);
		cmp("vars", v[0], vx, 1e-3, w); cmp("vars", v[1], vy, 1e-3, w);
		cmp("vars-vn", vn_, gas::vn(u,nn), std::hypot(vx,vy)+1e-3, w); cmp("vars-p", pp, p_, es, w); cmp("vars-H", hh, gas::H(h,u), 0, w);
		z(d,8); z(e,4); z(f,4); double g_[4] = {0,0,0,0};
		ph.getJacobianVarsWrtConserved(u, nn, d, e, f, g_);
		cmpd("d-vars-v", d, ud[1]/ud[0], w); cmpd("d-vars-v", d+4, ud[2]/ud[0], w);
		cmpd("d-vars-vn", e, gas::vn(ud,nn), w); cmpd("d-vars-p", f, pd, w); cmpd("d-vars-H", g_, gas::H(h,ud), w, 1e-10);
		double fl[4], rf[4];
		D fd[4]; gas::flux(h, ud, nn, fd);
		gas::flux(h, u, nn, rf);
		double sc = 0; for(double x : rf) sc = std::max(sc, std::fabs(x));
		ph.getDirectionalFluxFromConserved(u, nn, fl);
		for(int i = 0; i < 4; i++) cmp("flux", fl[i], rf[i], sc, w);
		ph.getDirectionalFlux(u, nn, gas::vn(u,nn), p_, fl);
		for(int i = 0; i < 4; i++) cmp("flux2", fl[i], rf[i], sc, w);
		z(d,16); ph.getJacobianDirectionalFluxWrtConserved(u, nn, d);
		for(int i = 0; i < 4; i++) cmpd("d-flux", d+4*i, fd[i], w, 1e-10);
		z(d,4); ph.getJacobianMachNormalWrtConserved(u, nn, d); cmpd("d-machn", d, gas::vn(ud,nn)/cd, w, 100*amp);
	}
	// gradients of derived quantities along a direction: the chain rule. And exact finite pressure changes.
	for(auto& o : others) {
		double gu[4];
		for(int i = 0; i < 4; i++) gu[i] = o[i]-u[i];
		auto along = [&](const D& q) { double x = 0; for(int i = 0; i < 4; i++) x += q.d[i]*gu[i]; return x; };
		auto mag = [&](const D& q) { double x = 0; for(int i = 0; i < 4; i++) x += std::fabs(q.d[i]*gu[i]); return x; };
		cmp("grad-p", ph.getGradPressureFromConservedAndGradConserved(u, gu), along(pd), mag(pd), w, 1e-11);
		cmp("grad-T", ph.getGradTemperatureFromConservedAndGradConserved(u, gu), along(Td), mag(Td) + Ts*std::fabs(gu[0])/r, w, 1e-11);
		cmp("grad-T2", ph.getGradTemperature(r, gu[0], p_, along(pd)), along(Td), mag(Td), w, 1e-11);
		const D q2[4] = {ud[0], ud[1]/ud[0], ud[2]/ud[0], Td};
		double gp[4], gin[4];
		ph.getGradPrimitive2FromConservedAndGradConserved(u, gu, gp);
		for(int i = 0; i < 4; i++) gin[i] = gu[i];
		ph.getGradPrimitive2FromConservedAndGradConserved(u, gin, gin);              // documented as usable in place
		for(int i = 0; i < 4; i++) {
			const double sc = mag(q2[i]) + (i == 3 ? Ts*std::fabs(gu[0])/r : 0) + 1e-13;
			cmp("grad-prim2", gp[i], along(q2[i]), sc, w, 1e-11);
			cmp("grad-prim2-inplace", gin[i], along(q2[i]), sc, w, 1e-11);
		}
		const double gprim[4] = {gu[0], along(q2[1]), along(q2[2]), along(pd)};
		cmp("grad-T-prim", ph.getGradTemperatureFromConservedAndGradPrimitive(u, gprim), along(Td), mag(Td) + Ts*std::fabs(gu[0])/r, w, 1e-11);
		const double dpx = gas::p(h,o.data()) - p_;
		const double dps = es + std::fabs(o[3]) + (h.g-1)*(u[1]*u[1]+u[2]*u[2]+o[1]*o[1]+o[2]*o[2])*(1/r+1/o[0])*(1+r/o[0]+o[0]/r);
		const double gdp = ph.getDeltaPressureFromConserved(u, gu), kdp = dpKnown(h, u, gu);
		if(!near(gdp, dpx, 1e-11, dps) && near(gdp, kdp, 1e-11, dps + std::fabs(kdp))) hx::fail("delta-p-sum", w + hx::fmt(": pressure change %g reported as %g (sums y-momentum and energy instead of the momenta, negated)", dpx, gdp));
		else cmp("delta-p", gdp, dpx, dps, w, 1e-11);
	}
	hx::eval();
	hx::nontrivial(hx::fnv(u, 32) ^ hx::fnv(&h, sizeof h));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::rule("A case is one gas/free-stream configuration and one slice of the state lattice; every IdealGasPhysics method at every state, direction and state pair compared with independent formulas and their exact (dual-number) derivatives. Distinct by configuration and state.");
	const int lv = hx::quick() ? 1 : 2;
	int ip = 0;
	for(auto& h : phys(1)) {
		const P ph(h.g, h.M, h.T, h.Re, h.Pr);
		if(hx::begin(hx::fmt("free:%d", ip))) {
			hx::sample(hx::fmt("gamma %g Minf %g Tinf %g Re %g Pr %g", h.g, h.M, h.T, h.Re, h.Pr));
			for(int k = -36; k <= 36; k++) {
				const double al = k*M_PI/36;
				const auto u = ph.compute_freestream_state(al);
				const std::string w = hx::fmt("aoa %g", al);
				const double q = 1/(h.g*h.M*h.M);
				cmp("free-rho", u[0], 1, 0, w); cmp("free-u", u[1], std::cos(al), 1, w); cmp("free-v", u[2], std::sin(al), 1, w);
				cmp("free-E", u[3], q/(h.g-1)+0.5, 0, w);
				cmp("free-p", ph.getFreestreamPressure(), q, 0, w);
				cmp("free-mach", std::hypot(u[1],u[2])/u[0]/ph.getSoundSpeedFromConserved(u.data()), h.M, 0, w, 1e-10);
				cmp("free-T", ph.getTemperatureFromConserved(u.data()), 1, 0, w, 1e-10);
				cmp("free-mu", ph.getViscosityCoeffFromConserved(u.data()), 1/h.Re, 0, w, 1e-10);
				hx::eval(); hx::nontrivial(k+100);
			}
		}
		const auto S = states(h, lv), O = states(h, 0);
		const auto N = normals(hx::quick() ? 8 : 16);
		for(size_t i = 0; i < S.size(); i += 60) if(hx::begin(hx::fmt("st:%d:%d", ip, (int)i))) {
			for(size_t k = i; k < std::min(S.size(), i+60); k++) state(h, ph, S[k], O, N);
		}
		ip++;
	}
	// stress tensors: all gradients with entries from a small set, and their derivatives
	for(int c = 0; c < 4; c++) for(int a0 = 0; a0 < 3; a0++) if(hx::begin(hx::fmt("stress:%d:%d", c, a0))) {
		const P ph(1.4, 0.5, 288, 100, 0.72);
		const double VAL[3] = {-1.5, 0, 0.8}, MU[4] = {1e-3, 0.2, 1, 7};
		for(int k = 0; k < 27; k++) {
			double g[2][4] = {{0.3,VAL[a0],VAL[k%3],-2},{5,VAL[k/3%3],VAL[k/9],1}};
			const double m = MU[c];
			double s[2][2], t[2][2], dt[2][2][4], dm[4], dg[2][4][4];
			for(int j = 0; j < 4; j++) dm[j] = 0.1*(j-1.5);
			for(int i = 0; i < 2; i++) for(int v = 0; v < 4; v++) for(int j = 0; j < 4; j++) dg[i][v][j] = std::sin(1.0+i*7+v*3+j + k);
			ph.getStressTensor(m, g, s);
			ph.getJacobianStress(m, dm, g, dg, t, dt);
			for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) {
				const double div = g[0][1]+g[1][2], sh = g[i][j+1]+g[j][i+1] - (i == j ? 2.0/3*div : 0);
				cmp("stress", s[i][j], m*sh, m, "stress"); cmp("stress-j", t[i][j], m*sh, m, "stress");
				for(int q = 0; q < 4; q++) {
					const double ddiv = dg[0][1][q]+dg[1][2][q];
					cmp("d-stress", dt[i][j][q], dm[q]*sh + m*(dg[i][j+1][q]+dg[j][i+1][q] - (i == j ? 2.0/3*ddiv : 0)), m+1, "stress");
				}
			}
			hx::eval(); hx::nontrivial(k);
		}
	}
	return hx::finish();
}
