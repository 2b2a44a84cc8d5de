// Partitions of small meshes: every assignment of cells to ranks
#ifndef PARTS_HPP
#define PARTS_HPP
#include "common/meshgen.hpp"
#include "mesh/meshpartitioning.hpp"
namespace pt {
using namespace fvens;
/// the library's restriction under an assignment of ours
struct AnyPartition : public ReplicatedGlobalMeshPartitioner {
	AnyPartition(const mg::Mesh& g, const std::vector<int>& d) : ReplicatedGlobalMeshPartitioner(g) { elemdist = d; }
	void compute_partition() {}
};
inline std::string str(const std::vector<int>& d) { std::string s; for(int i : d) s += (char)('0'+i); return s; }
/// every assignment of n cells to exactly nr ranks, all of them used
inline void forAssignments(int n, int nr, const std::function<void(const std::vector<int>&)>& f) {
	const long N = mg::ipow(nr, n);
	for(long k = 0; k < N; k++) {
		std::vector<int> d(n); long q = k; std::set<int> s;
		for(int i = 0; i < n; i++) { d[i] = q % nr; q /= nr; s.insert(d[i]); }
		if((int)s.size() == nr) f(d);
	}
}
}
#endif
