// D02: shared-face trace exchange under every schedule of ranks and message deliveries (model of MPI in mockmpi)
#include "common/petsc_init.hpp"
#include "common/parts.hpp"
#include "common/mockmpi.hpp"
#include <memory>
#include "linalg/tracevector.hpp"
using namespace mg;
using namespace fvens;

struct Scenario { const RM *m; std::vector<int> dist; int nr; int nv; int rounds; int nvec; };

static double val(int rank, int gface, int round, int vec, int k) { return 1 + rank*1000.0 + gface*10.0 + round*100000.0 + vec*1e7 + 0.1*k + 0.001*rank; }

template <int nv> static void body(const std::vector<Mesh>& L, const Scenario& S, int rank) {
	const Mesh& m = L[rank];
	std::vector<std::unique_ptr<L2TraceVector<freal,nv>>> T;
	for(int v = 0; v < S.nvec; v++) T.emplace_back(new L2TraceVector<freal,nv>(m));
	const int cs = m.gConnBFaceStart(), ce = m.gConnBFaceEnd(), na = m.gnaface();
	auto bad = [&](const std::string& k, const std::string& t) { mk::violate(k, hx::fmt("rank %d: ", rank) + t); };
	for(int r = 0; r < S.rounds; r++) {
		std::vector<std::vector<double>> left(S.nvec), right(S.nvec);
		for(int v = 0; v < S.nvec; v++) {
			double *l = T[v]->getLocalArrayLeft(), *q = T[v]->getLocalArrayRight();
			for(int f = 0; f < na; f++) for(int k = 0; k < nv; k++) {
				l[f*nv+k] = f >= cs && f < ce ? val(rank, m.gconnface(f-cs,4), r, v, k) : -3.5 - f - 100*k;
				q[f*nv+k] = -7.25 - f - 100*k - r;
			}
			left[v].assign(l, l+na*nv); right[v].assign(q, q+na*nv);
			T[v]->updateSharedFacesBegin();
		}
		for(int v = 0; v < S.nvec; v++) {
			T[v]->updateSharedFacesEnd();
			const double *l = T[v]->getLocalArrayLeft(), *q = T[v]->getLocalArrayRight();
			for(int f = 0; f < na; f++) for(int k = 0; k < nv; k++) {
				if(l[f*nv+k] != left[v][f*nv+k]) bad("left-changed", hx::fmt("left trace of face %d changed", f));
				const bool c = f >= cs && f < ce;
				const double e = c ? val(m.gconnface(f-cs,2), m.gconnface(f-cs,4), r, v, k) : right[v][f*nv+k];
				if(!(q[f*nv+k] == e)) bad(c ? "trace" : "other-trace", hx::fmt("round %d vector %d: right trace of face %d variable %d is %.10g, expected %.10g", r, v, f, k, q[f*nv+k], e));
			}
		}
	}
}

static void scenario(const RM& m, const Mesh& gm, const std::vector<int>& dist, int nr, int nv, int rounds, int nvec, const std::string& tag, bool allmodes, long cap, bool reduce = false) {
	if(!hx::begin(tag)) return;
	Scenario S{&m, dist, nr, nv, rounds, nvec};
	std::vector<Mesh> L;
	long conn = 0; std::set<std::pair<int,int>> pairs;
	for(int r = 0; r < nr; r++) {
		mk::setRank(r, nr);
		pt::AnyPartition P(gm, dist);
		L.push_back(P.restrictMeshToPartitions());
		L.back().compute_topological();
		conn += L.back().gnConnFace();
		for(int c = 0; c < L.back().gnConnFace(); c++) pairs.insert({r, (int)L.back().gconnface(c,2)});
	}
	mk::setRank(0, 0);
	// which sends are buffered and which wait for their receive
	std::vector<std::vector<char>> modes;
	const std::vector<std::pair<int,int>> pv(pairs.begin(), pairs.end());
	auto mode = [&](unsigned long mask) { std::vector<char> q(nr*nr, 0); for(size_t i = 0; i < pv.size(); i++) if(mask >> i & 1) q[pv[i].first*nr+pv[i].second] = 1; modes.push_back(q); };
	const unsigned long full = (1ul << pv.size()) - 1;
	if(allmodes) for(unsigned long k = 0; k <= full; k++) mode(k);
	else { mode(0); if(full) mode(full); for(size_t i = 0; i < pv.size() && pv.size() > 1; i++) { mode(1ul<<i); if(pv.size() > 2) mode(full & ~(1ul<<i)); } }
	for(auto& md : modes) {
		mk::Options o; o.nranks = nr; o.rendezvous = md; o.maxExecutions = cap; o.reduce = reduce;
		mk::Stats st;
		const mk::Outcome out = mk::explore(o, [] {}, [&](int r) { if(nv == 1) body<1>(L, S, r); else body<NVARS>(L, S, r); }, [] {}, st);
		hx::count("traces_validated_against_impl", st.executions); hx::count("states", st.states); hx::count("transitions", st.transitions); hx::count("executions", st.executions);
		if(!st.complete) { hx::S().exhaustive = false; hx::count("capped_scenarios"); }
		hx::eval();
		if(!out.key.empty()) { std::string ms; for(char c : md) ms += (char)('0'+c); hx::fail(out.key, tag + " rendezvous " + ms + ": " + out.msg); break; }
	}
	if(conn) hx::nontrivial();
	hx::sample(hx::fmt("%s: %ld shared face records, %zu send modes", tag.c_str(), conn, modes.size()));
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::S().cpulimit = 600;
	hx::rule("A case is one mesh x assignment of its cells to ranks x number of variables, rounds and simultaneous vectors x every listed choice of buffered or rendezvous sends; within it every reachable state of the ranks (per-rank history of calls and received data) is visited and every enabled rank is run from it. Distinct by scenario; non-trivial if ranks share faces.");
	hx::assume("MPI is replaced by a model of its semantics (matching order, buffered or rendezvous sends, data delivered at completion, receive buffers poisoned while pending); ranks are deterministic between calls, so a state is the per-rank history");
	const bool q = hx::quick();
	// full: every reachable state of the ranks is visited; otherwise partial-order reduced (falls back to full exploration
	// as soon as an operation is used that does not commute with other ranks' operations)
	auto run = [&](const RM& m, int nr, bool full, bool allmodes) {
		Mesh gm = prepareGlobal(m);
		pt::forAssignments((int)m.e.size(), nr, [&](const std::vector<int>& d) {
			const std::string t = m.name + ":" + pt::str(d);
			scenario(m, gm, d, nr, 1, 2, 1, t + ":1var", allmodes, 2000000, !full);
			scenario(m, gm, d, nr, NVARS, 1, 1, t + ":4var", false, 2000000, !full);
			scenario(m, gm, d, nr, 1, 1, 2, t + ":2vec", false, 2000000, !full);
		});
	};
	// quadrilateral, mixed and triangular meshes; ranks with several, one or no shared faces
	for(long p : {0l, 5l, 40l}) { const RM m = grid(2,2,p,DISTORTED); run(m, 2, true, true); run(m, 3, !q && m.e.size() < 6, !q); }
	run(fan(3), 2, true, true); run(fan(3), 3, true, !q);
	run(fan(5), 2, true, true); run(fan(5), 3, !q, !q);
	run(ring(3,1,1), 3, false, !q);
	run(grid(3,2,0,UNIFORM), 2, !q, true);
	run(grid(3,1,0,UNIFORM), 3, true, true);
	run(grid(2,2,0,UNIFORM), 4, false, false);
	if(!q) { run(grid(3,2,7,UNIFORM), 3, false, false); run(lshape(4), 2, true, true); run(grid(4,1,0,UNIFORM), 4, false, true); run(fan(5), 4, false, false); }
	return hx::finish_petsc();
}
