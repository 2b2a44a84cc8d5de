// C01: control files: every documented option, alone and in combination, in every letter case; overrides, defaults, errors, uninitialized memory
#include "common/petsc_init.hpp"
#include "common/flowref.hpp"
#include "utilities/controlparser.hpp"
#include "utilities/aoptionparser.hpp"
#include "utilities/casesolvers.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include <fstream>
#include <unistd.h>
#include <alloca.h>
using namespace fr;
using namespace mg;

// ------------------------------------------------------------------ a control file as a tree of options
struct Opt { std::string sec, key, val; bool keyword, list; };
typedef std::vector<Opt> File;
struct BCx { std::string type; BCType t; int tag; V vals; std::vector<int> opts; };

struct Expect {
	std::string mesh, sol, log; bool lognres, wfls;
	bool ns, constvisc; double gamma, aoa, M, T, Re, Pr;
	std::vector<BCx> bcs;
	std::vector<int> walls, others; std::string surf, vol; bool hasvol;
	int sim; double ftime, pcfl, pdt; int torder; std::string tint;
	std::string flux, jac, grad, lim; bool haslp; double lp;
	bool implicit, starter; double c0, c1, tol, f0, f1, ftol; int it, fit; std::string upd; double minupd;
};

static std::string num(double x) { return hx::fmt("%.10g", x); }

/// variants of each section
enum Sec { FLOW, BCS, OUT, TIME, SPACE, PSEUDO, CMD, STYLE, NSEC };
static const char *SN[] = {"flow","bc","output","time","space","pseudotime","command line","style"};
static const char *FLX[] = {"LLF","VanLeer","HLL","AUSM","Roe","HLLC","AUSMPlus"}, *GRD[] = {"leastSquares","greenGauss","none"}, *LIM[] = {"none","WENO","VanAlbada","Venkatakrishnan","BarthJespersen"};
static int nvar(int s) {
	switch(s) {
	case FLOW: return 4*3; case BCS: return 9; case OUT: return 4*3*2; case TIME: return 3; case SPACE: return 7*3*5*3; case PSEUDO: return 2 + 2*3*2*3; case CMD: return 2*3*2; case STYLE: return 4*2*2;
	}
	return 0;
}
static std::string up(std::string s) { for(auto& c : s) c = toupper(c); return s; }
static std::string low(std::string s) { for(auto& c : s) c = tolower(c); return s; }
static std::string casing(const std::string& s, int k) {
	if(k == 1) return up(s);
	if(k == 2) return low(s);
	if(k == 3) { std::string o = low(s); for(size_t i = 0; i < o.size(); i += 2) o[i] = toupper(o[i]); return o; }
	return s;
}

static void make(const std::vector<int>& v, File& f, Expect& e, std::vector<std::string>& cmd, bool& petsclog) {
	f.clear(); cmd.clear(); petsclog = false;
	auto put = [&](const std::string& s, const std::string& k, const std::string& val, bool kw = false, bool list = false) { f.push_back({s,k,val,kw,list}); };
	e.mesh = "some dir/mesh.msh"; e.sol = "out.vtu"; e.log = "logs/run"; e.lognres = v[OUT] % 2; e.wfls = false;
	put("io","mesh_file",e.mesh); put("io","solution_output_file",e.sol); put("io","log_file_prefix",e.log); put("io","convergence_history_required", e.lognres ? "true" : "false");
	// flow conditions
	{
		const int k = v[FLOW] % 4, w = v[FLOW]/4;
		e.ns = k > 0; e.constvisc = k == 3;
		e.gamma = w == 0 ? 1.4 : w == 1 ? 5.0/3 : 1.1; e.aoa = w == 0 ? 0 : w == 1 ? -12.5 : 90; e.M = w == 0 ? 0.5 : w == 1 ? 2.0 : 0.01;
		e.T = w == 0 ? 290 : w == 1 ? 61.5 : 1200; e.Re = w == 0 ? 5000 : w == 1 ? 1.5 : 3e6; e.Pr = w == 0 ? 0.72 : w == 1 ? 1 : 0.01;
		e.gamma = strtod(num(e.gamma).c_str(), 0);
		put("flow_conditions","flow_type", e.ns ? "navierstokes" : "euler", true);
		put("flow_conditions","adiabatic_index",num(e.gamma)); put("flow_conditions","angle_of_attack",num(e.aoa)); put("flow_conditions","freestream_Mach_number",num(e.M));
		if(e.ns) { put("flow_conditions","freestream_Reynolds_number",num(e.Re)); put("flow_conditions","freestream_temperature",num(e.T)); put("flow_conditions","Prandtl_number",num(e.Pr)); if(k > 1) put("flow_conditions","use_constant_viscosity", e.constvisc ? "true" : "false"); }
	}
	// boundary conditions: tags 2..5 first
	{
		static const BCx ALL[] = {{"slipwall",SLIP_WALL_BC,0,{},{}},{"farfield",FARFIELD_BC,0,{},{}},{"inflowoutflow",INFLOW_OUTFLOW_BC,0,{},{}},{"extrapolation",EXTRAPOLATION_BC,0,{},{}},
			{"adiabaticwall",ADIABATIC_WALL_BC,0,{0.3},{}},{"isothermalwall",ISOTHERMAL_WALL_BC,0,{-0.2,294.5},{}},{"subsonic_inflow",SUBSONIC_INFLOW_BC,0,{2.5,373},{}},{"periodic",PERIODIC_BC,0,{},{7,1}}};
		e.bcs.clear();
		const int n = v[BCS] == 0 ? 0 : v[BCS] == 8 ? 12 : 4;
		for(int i = 0; i < n; i++) {
			BCx b = ALL[v[BCS] == 8 ? i % 8 : (i+v[BCS]-1) % (v[BCS] < 7 ? 6 : 8)];
			b.tag = i < 4 ? 2+i : 20-i; for(auto& x : b.vals) x += i;
			e.bcs.push_back(b);
			const std::string s = "bc.bc" + std::to_string(i);
			put(s,"type",b.type,true); put(s,"marker",std::to_string(b.tag));
			std::string l; for(double x : b.vals) l += (l.empty() ? "" : " ") + num(x);
			if(!l.empty()) put(s,"boundary_values",l,false,true);
			l.clear(); for(int x : b.opts) l += (l.empty() ? "" : " ") + std::to_string(x);
			if(!l.empty()) put(s,"options",l,false,true);
		}
	}
	// output
	{
		const int a = v[OUT]/2 % 4, b = v[OUT]/8;
		static const std::vector<int> W[] = {{},{5},{5,7},{9,2,5}}, O[] = {{},{4},{4,6}};
		e.walls = W[a]; e.others = O[b];
		auto join = [](const std::vector<int>& x) { std::string l; for(int i : x) l += (l.empty() ? "" : " ") + std::to_string(i); return l; };
		if(a) put("bc","listof_output_wall_boundaries",join(e.walls),false,true);
		if(b) put("bc","listof_output_other_boundaries",join(e.others),false,true);
		e.surf = ""; if(a || b) { e.surf = "surf/pre fix"; put("bc","surface_output_file_prefix",e.surf); }
		e.hasvol = (a+b+v[OUT]) % 2; e.vol = e.hasvol ? "vol" : ""; if(e.hasvol) put("bc","volume_output_file_prefix",e.vol);
	}
	e.sim = v[TIME]; e.tint = v[TIME] == 0 ? "NONE" : v[TIME] == 1 ? "TVDRK" : "BDF"; e.ftime = 2.25; e.pcfl = 0.7; e.pdt = 0.0125; e.torder = 1+v[TIME];
	put("time","simulation_type", v[TIME] ? "unsteady" : "steady", true);
	if(v[TIME]) { put("time","final_time",num(e.ftime)); put("time","time_integrator", v[TIME] == 1 ? "tvdrk" : "bdf", true); put("time","temporal_order",std::to_string(e.torder)); if(v[TIME] == 1) put("time","physical_cfl",num(e.pcfl)); else put("time","physical_time_step",num(e.pdt)); }
	{
		int k = v[SPACE]; const int fx = k % 7; k /= 7; const int g = k % 3; k /= 3; const int l = k % 5; k /= 5;
		e.flux = FLX[fx]; e.grad = GRD[g]; e.lim = LIM[l]; e.haslp = k > 0; e.lp = k == 1 ? 20 : 0.3;
		put("spatial_discretization","inviscid_flux",e.flux,true); put("spatial_discretization","gradient_method",e.grad,true); put("spatial_discretization","limiter",e.lim,true);
		if(e.haslp) put("spatial_discretization","limiter_parameter",num(e.lp));
	}
	{
		const int k = v[PSEUDO]; e.implicit = k >= 2; e.starter = k % 2;
		e.c0 = 0.75+k; e.c1 = 2000+k; e.tol = 1e-5; e.it = 500+k; e.f0 = 50.5; e.f1 = 505; e.ftol = 0.1; e.fit = 50;
		put("pseudotime","pseudotime_stepping_type", e.implicit ? "implicit" : "explicit", true);
		put("pseudotime.main","cfl_min",num(e.c0)); put("pseudotime.main","cfl_max",num(e.c1)); put("pseudotime.main","tolerance",num(e.tol)); put("pseudotime.main","max_timesteps",std::to_string(e.it));
		if(e.starter) { put("pseudotime.initialization","cfl_min",num(e.f0)); put("pseudotime.initialization","cfl_max",num(e.f1)); put("pseudotime.initialization","tolerance",num(e.ftol)); put("pseudotime.initialization","max_timesteps",std::to_string(e.fit)); }
		e.jac = ""; e.upd = ""; e.minupd = 0.2;
		if(e.implicit) {
			int q = (k-2)/2; const int j = q % 3; q /= 3; const int u = q % 2; q /= 2;
			static const char *J[] = {"consistent","HLLC","LLF"};
			e.jac = j ? J[j] : e.flux; put("","Jacobian_inviscid_flux",J[j],true);
			e.upd = u ? "FULL" : "ROBUST_FLOW"; put("pseudotime","nonlinear_update_scheme", u ? "full" : "robust_flow", true);
			if(q) { e.minupd = q == 1 ? 0.3 : 1; put("pseudotime","min_nonlinear_relaxation_factor",num(e.minupd)); }
		}
	}
	if(v[CMD] % 2) { cmd.push_back("--mesh_file"); cmd.push_back("cmd.su2"); e.mesh = "cmd.su2"; }
	if(v[CMD]/2 % 3) { e.wfls = v[CMD]/2 % 3 == 1; cmd.push_back("--write_final_linear_system"); cmd.push_back(e.wfls ? "true" : "false"); }
	if(v[CMD]/6) { petsclog = true; e.log = "from/petsc"; }
}

/// text of the file: sections nested, options in the given or reverse order, lists quoted or not
static std::string text(const File& f, int style) {
	const int cs = style % 4; const bool rev = style/4 % 2, quoted = style/8 % 2;
	struct Node { std::vector<std::string> lines; std::vector<std::string> order; std::map<std::string,Node> sub; };
	Node root;
	for(auto& o : f) {
		Node *n = &root; std::string s = o.sec; 
		while(!s.empty()) { const size_t p = s.find('.'); const std::string h = s.substr(0,p); s = p == std::string::npos ? "" : s.substr(p+1); if(!n->sub.count(h)) n->order.push_back(h); n = &n->sub[h]; }
		std::string val = o.keyword ? casing(o.val, cs) : o.val;
		const bool q = o.list ? quoted : val.find(' ') != std::string::npos || val.empty();
		n->lines.push_back(o.key + (cs % 2 ? "\t" : "      ") + (q ? "\"" + val + "\"" : val));
	}
	std::function<std::string(Node&,int)> pr = [&](Node& n, int d) {
		std::string o; const std::string ind(d, '\t');
		std::vector<std::string> L = n.lines, O = n.order;
		if(rev) { std::reverse(L.begin(), L.end()); std::reverse(O.begin(), O.end()); }
		auto subs = [&]() { for(auto& s : O) o += ind + s + (cs == 2 ? " {\n" : "\n" + ind + "{\n") + pr(n.sub[s], d+1) + ind + "}\n\n"; };
		if(rev) subs();
		for(auto& l : L) { if(cs == 3) o += ind + ";; a comment 5 7 { \n"; o += ind + l + "\n"; }
		if(!rev) subs();
		return o;
	};
	return "; control file\n" + pr(root, 0);
}

static std::string gdir;
static void __attribute__((noinline)) poisonStack(int pat) { volatile char *p = (volatile char*)alloca(200000); for(int i = 0; i < 200000; i++) p[i] = (char)pat; }
struct Parsed { bool ok; std::string err; FlowParserOptions *o; std::vector<char> store; Parsed() : ok(false), o(nullptr), store(sizeof(FlowParserOptions)+64) {} ~Parsed() { if(o) o->~FlowParserOptions(); } };
static void __attribute__((noinline)) parseInto(Parsed& P, const std::vector<std::string>& args, int pat) {
	std::vector<const char*> av; for(auto& a : args) av.push_back(a.c_str());
	av.push_back(nullptr);
	memset(P.store.data(), pat, P.store.size());
	void *where = (void*)(((uintptr_t)P.store.data()+31) & ~(uintptr_t)31);
	try {
		boost::program_options::options_description d("x");
		const auto vm = parse_cmd_options((int)args.size(), av.data(), d);
		poisonStack(pat);
		P.o = new(where) FlowParserOptions(parse_flow_controlfile((int)args.size(), av.data(), vm));
		P.ok = true;
	} catch(const std::exception& e) { P.err = e.what(); P.o = nullptr; }
}
static void parse(Parsed& P, const std::string& txt, const std::vector<std::string>& cmd, bool petsclog, int pat) {
	const std::string file = gdir + "/c.ctrl";
	{ std::ofstream f(file); f << txt; }
	std::vector<std::string> a = {"fvens", file}; a.insert(a.end(), cmd.begin(), cmd.end());
	if(petsclog) PetscOptionsSetValue(NULL, "-fvens_log_file_prefix", "from/petsc");
	parseInto(P, a, pat);
	if(petsclog) PetscOptionsClearValue(NULL, "-fvens_log_file_prefix");
}

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a-b) <= 1e-14*(std::fabs(a)+std::fabs(b)); }

static void compare(const Parsed& P, const Expect& e, double& lpseen, const std::string& what, const std::string& txt) {
	HX_CHECK(P.ok, "refused", "%s: %s\n%s", what.c_str(), P.err.c_str(), txt.c_str());
	if(!P.ok) return;
	const FlowParserOptions& o = *P.o;
#define EQS(got, exp, key) HX_CHECK((got) == (exp), key, "%s: '%s', expected '%s'", what.c_str(), std::string(got).c_str(), std::string(exp).c_str())
#define EQN(got, exp, key) HX_CHECK(same((double)(got), (double)(exp)), key, "%s: %.12g, expected %.12g", what.c_str(), (double)(got), (double)(exp))
	EQS(o.meshfile, e.mesh, "mesh_file"); EQS(o.vtu_output_file, e.sol, "solution_output_file"); EQS(o.logfile, e.log, "log_file_prefix");
	EQN(o.lognres, e.lognres, "convergence_history_required"); EQN(o.write_final_lin_sys, e.wfls, "write_final_linear_system");
	EQS(o.flowtype, std::string(e.ns ? "NAVIERSTOKES" : "EULER"), "flow_type"); EQN(o.viscsim, e.ns, "flow_type"); EQN(o.useconstvisc, e.ns && e.constvisc, "use_constant_viscosity");
	EQN(o.gamma, e.gamma, "adiabatic_index"); EQN(o.alpha, e.aoa*M_PI/180, "angle_of_attack"); EQN(o.Minf, e.M, "freestream_Mach_number");
	if(e.ns) { EQN(o.Tinf, e.T, "freestream_temperature"); EQN(o.Reinf, e.Re, "freestream_Reynolds_number"); EQN(o.Pr, e.Pr, "Prandtl_number"); }
	HX_CHECK(o.bcconf.size() == e.bcs.size(), "bc-count", "%s: %zu boundary conditions, expected %zu", what.c_str(), o.bcconf.size(), e.bcs.size());
	if(o.bcconf.size() == e.bcs.size()) for(size_t i = 0; i < e.bcs.size(); i++) {
		EQN(o.bcconf[i].bc_type, e.bcs[i].t, "bc-type"); EQN(o.bcconf[i].bc_tag, e.bcs[i].tag, "bc-marker");
		HX_CHECK(o.bcconf[i].bc_vals == e.bcs[i].vals, "boundary_values", "%s: bc%zu (%s) has %zu values starting with %g, expected %zu starting with %g", what.c_str(), i, e.bcs[i].type.c_str(), o.bcconf[i].bc_vals.size(), o.bcconf[i].bc_vals.empty() ? 0.0 : o.bcconf[i].bc_vals[0], e.bcs[i].vals.size(), e.bcs[i].vals.empty() ? 0.0 : e.bcs[i].vals[0]);
		HX_CHECK(o.bcconf[i].bc_opts == e.bcs[i].opts, "bc-options", "%s: bc%zu has %zu options, expected %zu", what.c_str(), i, o.bcconf[i].bc_opts.size(), e.bcs[i].opts.size());
	}
	HX_CHECK(o.lwalls == e.walls && o.num_out_walls == (int)e.walls.size(), "listof_output_wall_boundaries", "%s: %zu walls (count %d), expected %zu", what.c_str(), o.lwalls.size(), o.num_out_walls, e.walls.size());
	HX_CHECK(o.lothers == e.others && o.num_out_others == (int)e.others.size(), "listof_output_other_boundaries", "%s: %zu others (count %d), expected %zu", what.c_str(), o.lothers.size(), o.num_out_others, e.others.size());
	if(!e.surf.empty()) EQS(o.surfnameprefix, e.surf, "surface_output_file_prefix");
	EQS(o.vol_output_reqd, std::string(e.hasvol ? "YES" : "NO"), "volume_output_file_prefix"); if(e.hasvol) EQS(o.volnameprefix, e.vol, "volume_output_file_prefix");
	EQS(o.sim_type, std::string(e.sim ? "UNSTEADY" : "STEADY"), "simulation_type"); EQS(o.time_integrator, e.tint, "time_integrator");
	if(e.sim) { EQN(o.final_time, e.ftime, "final_time"); EQN(o.time_order, e.torder, "temporal_order"); if(e.sim == 1) EQN(o.phy_cfl, e.pcfl, "physical_cfl"); else EQN(o.phy_timestep, e.pdt, "physical_time_step"); }
	EQS(o.invflux, up(e.flux), "inviscid_flux"); EQS(o.gradientmethod, up(e.grad), "gradient_method"); EQS(o.limiter, up(e.lim), "limiter"); EQN(o.order2, e.grad != "none", "gradient_method");
	if(e.haslp) EQN(o.limiter_param, e.lp, "limiter_parameter");
	else { if(std::isnan(lpseen)) lpseen = o.limiter_param; HX_CHECK(o.limiter_param == lpseen && std::isfinite(o.limiter_param), "limiter_parameter-default", "%s: %g, was %g", what.c_str(), o.limiter_param, lpseen); }
	EQS(o.pseudotimetype, std::string(e.implicit ? "IMPLICIT" : "EXPLICIT"), "pseudotime_stepping_type");
	EQN(o.initcfl, e.c0, "cfl_min"); EQN(o.endcfl, e.c1, "cfl_max"); EQN(o.tolerance, e.tol, "tolerance"); EQN(o.maxiter, e.it, "max_timesteps");
	EQN(o.usestarter != 0, e.starter, "initialization");
	if(e.starter) { EQN(o.firstinitcfl, e.f0, "initialization-cfl_min"); EQN(o.firstendcfl, e.f1, "initialization-cfl_max"); EQN(o.firsttolerance, e.ftol, "initialization-tolerance"); EQN(o.firstmaxiter, e.fit, "initialization-max_timesteps"); }
	if(e.implicit) { EQS(o.invfluxjac, up(e.jac), "Jacobian_inviscid_flux"); EQS(o.nl_update_scheme, e.upd, "nonlinear_update_scheme"); EQN(o.min_nl_update, e.minupd, "min_nonlinear_relaxation_factor"); }
	// the configurations handed to the discretization
	const FlowPhysicsConfig pc = extract_spatial_physics_config(o);
	const FlowNumericsConfig nc = extract_spatial_numerics_config(o), n1 = firstorder_spatial_numerics_config(o);
	EQN(pc.gamma, e.gamma, "physics-config"); EQN(pc.Minf, e.M, "physics-config"); EQN(pc.aoa, e.aoa*M_PI/180, "physics-config"); EQN(pc.viscous_sim, e.ns, "physics-config"); EQN(pc.const_visc, e.ns && e.constvisc, "physics-config"); EQN(pc.bcconf.size(), e.bcs.size(), "physics-config");
	if(e.ns) { EQN(pc.Tinf, e.T, "physics-config"); EQN(pc.Reinf, e.Re, "physics-config"); EQN(pc.Pr, e.Pr, "physics-config"); }
	EQS(nc.conv_numflux, up(e.flux), "numerics-config"); EQS(nc.gradientscheme, up(e.grad), "numerics-config"); EQS(nc.reconstruction, up(e.lim), "numerics-config"); EQN(nc.order2, e.grad != "none", "numerics-config"); EQN(nc.limiter_param, o.limiter_param, "numerics-config");
	EQS(n1.conv_numflux, up(e.flux), "first-order-config"); EQS(n1.gradientscheme, std::string("NONE"), "first-order-config"); EQN(n1.order2, false, "first-order-config");
	if(e.implicit) { EQS(nc.conv_numflux_jac, up(e.jac), "numerics-config"); EQS(n1.conv_numflux_jac, up(e.jac), "first-order-config"); }
	hx::eval();
}

/// what the options do: residual of the discretization they select
static void behaviour(const Parsed& P, const Expect& e, const std::string& what) {
	if(!P.ok) return;
	static const RM rm = grid(2,2,5,DISTORTED); static const Mesh m = prepare(rm);
	const FlowParserOptions& o = *P.o;
	FlowParserOptions ob = o; ob.bcconf.clear();
	// (temperatures in kelvin have no documented meaning without a free-stream temperature)
	auto used = [&](BCType t) { return t != PERIODIC_BC && (e.ns || (t != ISOTHERMAL_WALL_BC && t != SUBSONIC_INFLOW_BC)); };
	for(auto& b : o.bcconf) if(used(b.bc_type)) ob.bcconf.push_back(b);
	if(ob.bcconf.size() < 4) return;
	fl::Phys p = {e.gamma, e.M, e.T, e.Re, e.Pr, e.aoa*M_PI/180};
	std::vector<fl::BC> bcs; for(auto& b : e.bcs) if(used(b.t)) { V vv = b.vals; if(b.t == ISOTHERMAL_WALL_BC || b.t == SUBSONIC_INFLOW_BC) vv[1] /= p.Tinf; bcs.push_back({b.tag, b.t, vv}); }
	std::unique_ptr<const Spatial<double,4>> want(create_const_flowSpatialDiscretization<double>(&m, fl::pconf(p, e.ns, e.ns && e.constvisc, bcs), fl::nconf(up(e.flux), up(e.grad), up(e.lim), e.grad != "none", "LLF", o.limiter_param)));
	if(ob.invfluxjac.empty() || ob.invfluxjac == "VANLEER" || ob.invfluxjac == "AUSMPLUS") ob.invfluxjac = "LLF";
	std::unique_ptr<const Spatial<double,4>> got(createFlowSpatial(ob, m));
	const V u = mild(p, rm, 3);
	V d1, d2;
	const V a = fl::residual<4>(m, *want, u, &d1), b = fl::residual<4>(m, *got, u, &d2);
	for(size_t i = 0; i < a.size(); i++) HX_CHECK(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i]-b[i]) <= 1e-12*(std::fabs(a[i])+std::fabs(b[i])+1), "behaviour", "%s: entry %zu of the residual is %.12g, with the documented meaning of the options %.12g", what.c_str(), i, b[i], a[i]);
	for(size_t i = 0; i < d1.size(); i++) HX_CHECK(same(d1[i], d2[i]) || std::fabs(d1[i]-d2[i]) <= 1e-12*std::fabs(d1[i]) || (std::isnan(d1[i]) && std::isnan(d2[i])), "behaviour", "%s: time step %zu", what.c_str(), i);
	if(e.implicit) {
		std::unique_ptr<const NonlinearUpdate<4>> nl(create_const_nonlinearUpdateScheme<4>(o));
		HX_CHECK((dynamic_cast<const FullUpdate<4>*>(nl.get()) != nullptr) == (e.upd == "FULL"), "update-scheme", "%s: wrong update scheme for %s", what.c_str(), e.upd.c_str());
	}
	hx::eval();
}

static std::vector<int> base(int k) {
	switch(k) {
	case 0: return {1, 1, 0, 0, 4, 2, 0, 0};
	case 1: return {4+3, 8, 2*3+8*2, 2, 7*3*5+7*3+7*1+5, 2+11, 5, 7};
	default: return {8+2, 5, 2*2+8, 1, 2*7*3*5+7*3*2+2, 2+30, 10, 10};
	}
}
static std::string vstr(const std::vector<int>& v) { std::string s; for(int i = 0; i < NSEC; i++) s += hx::fmt("%s%s %d", i ? ", " : "", SN[i], v[i]); return s; }

static double lpseen = NAN;
static void config(const std::vector<int>& v, bool allpoison) {
	File f; Expect e; std::vector<std::string> cmd; bool pl; make(v, f, e, cmd, pl);
	const std::string t = text(f, v[STYLE]);
	for(int pat : {0x00, 0xff, 0x7f}) {
		if(!allpoison && pat == 0x00) continue;
		Parsed P; parse(P, t, cmd, pl, pat);
		compare(P, e, lpseen, vstr(v), t);
		if(pat == 0xff) behaviour(P, e, vstr(v));
	}
	hx::nontrivial(hx::fnv(vstr(v)));
	hx::sample(vstr(v));
}

static void expectError(const std::string& t, const std::vector<std::string>& cmd, const char *key, const std::string& what) {
	Parsed P; parse(P, t, cmd, false, 0x7f);
	HX_CHECK(!P.ok, key, "%s: accepted\n%s", what.c_str(), t.c_str());
	hx::eval(); hx::nontrivial(hx::fnv(what));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A control file is a choice of one variant per section (flow conditions x values, boundary conditions, outputs, time, spatial scheme, pseudo-time, command line, letter case/order/quoting). Enumerated: every pair of variants of every two sections (thorough: every triple of the smaller sections) over three settings of the rest, each parsed with the result's memory and the stack filled with different patterns; every field, derived configuration and the residual of the selected discretization compared with what was written. Every single option removed; every ill-formed value; every order of command-line arguments. Distinct by variant vector.");
	hx::assume("options are written as in doc/example-control-file.ctrl; a setting not documented as having a default is only required not to depend on memory contents");
	const bool q = hx::quick();
	char tmpl[] = "/tmp/c01XXXXXX"; gdir = mkdtemp(tmpl);
	for(int k = 0; k < 3; k++) for(int a = 0; a < NSEC; a++) for(int b = a+1; b < NSEC; b++) for(int va = 0; va < nvar(a); va++) {
		if(!hx::begin(hx::fmt("pair:%d:%s:%s:%d", k, SN[a], SN[b], va))) continue;
		for(int vb = 0; vb < nvar(b); vb++) { auto v = base(k); v[a] = va; v[b] = vb; config(v, k == 1 || !q); }
	}
	if(!q) for(int a = 0; a < NSEC; a++) for(int b = a+1; b < NSEC; b++) for(int c = b+1; c < NSEC; c++) if(a != SPACE && b != SPACE && c != SPACE) for(int va = 0; va < nvar(a); va++) {
		if(!hx::begin(hx::fmt("triple:%s:%s:%s:%d", SN[a], SN[b], SN[c], va))) continue;
		for(int vb = 0; vb < nvar(b); vb++) for(int vc = 0; vc < nvar(c); vc++) { auto v = base((va+vb+vc)%3); v[a] = va; v[b] = vb; v[c] = vc; config(v, false); }
	}
	// every option left out
	for(int k = 0; k < 3; k++) for(int s : {FLOW, BCS, OUT, TIME, PSEUDO}) for(int vs = 0; vs < nvar(s); vs++) {
		if(!hx::begin(hx::fmt("missing:%d:%s:%d", k, SN[s], vs))) continue;
		auto v = base(k); v[s] = vs; v[CMD] = 0;
		File f; Expect e; std::vector<std::string> cmd; bool pl; make(v, f, e, cmd, pl);
		for(size_t i = 0; i < f.size(); i++) {
			static const std::set<std::string> optional = {"use_constant_viscosity","listof_output_wall_boundaries","listof_output_other_boundaries","volume_output_file_prefix","limiter_parameter","min_nonlinear_relaxation_factor"};
			if(optional.count(f[i].key)) continue;
			if(f[i].key == "limiter" && e.grad == "none") continue;
			File g = f; g.erase(g.begin()+i);
			// dropping the only option of a section drops the section
			expectError(text(g, v[STYLE]), {}, "missing-accepted", hx::fmt("%s without %s.%s", vstr(v).c_str(), f[i].sec.c_str(), f[i].key.c_str()));
		}
	}
	// ill-formed values
	if(hx::begin("illegal")) for(int k = 0; k < 3; k++) {
		auto v = base(k); v[CMD] = 0; v[BCS] = 8;
		File f; Expect e; std::vector<std::string> cmd; bool pl; make(v, f, e, cmd, pl);
		auto with = [&](const std::string& sec, const std::string& key, const std::string& val) { File g = f; bool hit = false; for(auto& o : g) if(o.sec == sec && o.key == key) { o.val = val; o.keyword = false; hit = true; } return hit ? text(g, 8) : std::string(); };
		for(const char *t : {"RANS","rans","Rans","navier","", "eulerr"}) expectError(with("flow_conditions","flow_type",t), {}, "flow-type-accepted", std::string("flow type '") + t + "'");
		for(int i = 0; i < 12; i++) for(const char *t : {"", "wall", "slip_wall", "far field", "1"}) expectError(with("bc.bc" + std::to_string(i), "type", t), {}, "bc-type-accepted", hx::fmt("bc%d type '%s'", i, t));
		for(auto& o : f) {
			if(o.keyword || o.sec == "io" || o.list || o.key.find("prefix") != std::string::npos || o.key.find("file") != std::string::npos) continue;
			const std::string t = with(o.sec, o.key, "abc");
			if(o.key != "use_constant_viscosity" && o.key != "limiter_parameter" && o.key != "min_nonlinear_relaxation_factor") expectError(t, {}, "not-a-number-accepted", o.sec + "." + o.key + " = abc");
		}
		// fewer boundary values than the condition has
		for(int i = 0; i < 12; i++) { const BCx& b = e.bcs[i]; if(b.vals.empty()) continue; std::string l; for(size_t n = 0; n < b.vals.size(); n++) { expectError(with("bc.bc"+std::to_string(i), "boundary_values", l), {}, "few-boundary-values", hx::fmt("%s with %zu boundary values", b.type.c_str(), n)); l += (n ? " " : "") + num(b.vals[n]); } }
		Parsed P; parseInto(P, {"fvens", gdir + "/nothere.ctrl"}, 0); HX_CHECK(!P.ok, "missing-file", "a control file that does not exist was accepted");
	}
	// command line
	if(hx::begin("cmdline")) {
		File f; Expect e; std::vector<std::string> cmd; bool pl; auto v = base(0); make(v, f, e, cmd, pl);
		const std::string t = text(f, 0), extra[] = {"-ksp_type","bcgs","-options_file","x.solverc","--foo=3","-mesh_reorder","rcm"};
		for(int mesh = 0; mesh < 3; mesh++) for(int w = 0; w < 5; w++) for(int pos = 0; pos < 4; pos++) for(int ex = 0; ex < 4; ex++) {
			std::vector<std::string> a;
			auto M = [&]() { if(mesh == 1) { a.push_back("--mesh_file"); a.push_back("m x.msh"); } if(mesh == 2) a.push_back("--mesh_file=m x.msh"); };
			auto W = [&]() { if(w == 1 || w == 2) { a.push_back("--write_final_linear_system"); a.push_back(w == 1 ? "true" : "false"); } if(w > 2) a.push_back(std::string("--write_final_linear_system=") + (w == 3 ? "1" : "0")); };
			auto X = [&]() { if(ex == 1) { a.push_back(extra[0]); a.push_back(extra[1]); } if(ex == 2) { a.push_back(extra[2]); a.push_back(extra[3]); a.push_back(extra[5]); a.push_back(extra[6]); } if(ex == 3) a.push_back(extra[4]); };
			if(pos == 0) { M(); W(); X(); } else if(pos == 1) { X(); W(); M(); } else if(pos == 2) { W(); X(); M(); } else { M(); X(); W(); }
			Expect g = e; if(mesh) g.mesh = "m x.msh"; g.wfls = w == 1 || w == 3;
			Parsed P; parse(P, t, a, false, 0xff);
			compare(P, g, lpseen, hx::fmt("command line mesh %d linear system %d order %d others %d", mesh, w, pos, ex), t);
			hx::nontrivial(hx::fnv(hx::fmt("%d/%d/%d/%d", mesh, w, pos, ex)));
		}
		expectError(t, {"--write_final_linear_system", "maybe"}, "bad-command-line-accepted", "write_final_linear_system maybe");
	}
	// PETSc options
	if(hx::begin("petsc")) {
		auto thrown = [](const std::function<void()>& f) { try { f(); } catch(const std::exception&) { return true; } return false; };
		for(const char *n : {"-fv_x", "-fv_long_option_name"}) {
			PetscOptionsClearValue(NULL, n);
			HX_CHECK(!parsePetscCmd_isDefined(n), "petsc-defined", "%s", n);
			HX_CHECK(thrown([&]() { parsePetscCmd_int(n); }) && thrown([&]() { parsePetscCmd_bool(n); }) && thrown([&]() { parsePetscCmd_string(n, 20); }) && thrown([&]() { parsePetscCmd_intArray(n, 4); }), "petsc-missing-accepted", "%s", n);
			for(double d : {1e-7, -3.0, 0.0}) HX_CHECK(parseOptionalPetscCmd_real(n, d) == d, "petsc-default", "%s %g", n, d);
			HX_CHECK(!parseOptionalPetscCmd_bool(n), "petsc-default", "%s", n);
			HX_CHECK(parseOptionalPetscCmd_intArray(n, 5).empty(), "petsc-default", "%s", n);
			for(int i : {0, 1, -7, 2000000000}) { PetscOptionsSetValue(NULL, n, std::to_string(i).c_str()); HX_CHECK(parsePetscCmd_int(n) == i && parsePetscCmd_isDefined(n), "petsc-int", "%s %d", n, i); HX_CHECK(parseOptionalPetscCmd_real(n, 5.5) == (double)i, "petsc-real", "%s %d", n, i); }
			for(double d : {1e-7, -2.5, 100.0}) { PetscOptionsSetValue(NULL, n, num(d).c_str()); HX_CHECK(parseOptionalPetscCmd_real(n, 5.5) == d, "petsc-real", "%s %g", n, d); }
			for(auto& s : {"true","1","yes","false","0","no"}) { PetscOptionsSetValue(NULL, n, s); const bool w = std::string(s) == "true" || std::string(s) == "1" || std::string(s) == "yes"; HX_CHECK(parsePetscCmd_bool(n) == w && parseOptionalPetscCmd_bool(n) == w, "petsc-bool", "%s %s", n, s); }
			for(auto& s : {"a","rcm","line_rcm","a longer value"}) for(size_t len : {20u, 64u}) { PetscOptionsSetValue(NULL, n, s); HX_CHECK(parsePetscCmd_string(n, len) == s, "petsc-string", "%s %s", n, s); }
			const std::vector<int> A = {3,-1,4,1};
			for(int k = 1; k <= 4; k++) for(int mx = k; mx <= 6; mx++) { std::string l; for(int i = 0; i < k; i++) l += (i ? "," : "") + std::to_string(A[i]); PetscOptionsSetValue(NULL, n, l.c_str()); const std::vector<int> w(A.begin(), A.begin()+k); HX_CHECK(parsePetscCmd_intArray(n, mx) == w && parseOptionalPetscCmd_intArray(n, mx) == w, "petsc-array", "%s %s max %d", n, l.c_str(), mx); }
			PetscOptionsClearValue(NULL, n);
			hx::eval(30); hx::nontrivial(hx::fnv(n));
		}
	}
	unlink((gdir + "/c.ctrl").c_str()); rmdir(gdir.c_str());
	return hx::finish_petsc();
}
