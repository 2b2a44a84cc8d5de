// A model of MPI under a controlled scheduler: ranks are fibers, every MPI call is a scheduling point, messages follow
// MPI's matching rules, buffers are watched while an operation owns them. Linked in with -Wl,--wrap=<call>.
// Outside mk::Run the wrapped calls answer for the rank set by mk::setRank (size mk::setSize), or go to the real MPI
// when no size is set.
#ifndef MOCKMPI_HPP
#define MOCKMPI_HPP
#include <mpi.h>
#include <functional>
#include <vector>
#include <string>
#include <cstdint>
namespace mk {
void setRank(int rank, int size);            ///< for code that only asks for rank and size; size 0: real MPI
struct Outcome {
	bool pruned = false;                     ///< stopped at a state that was explored before
	std::string key, msg;                    ///< violation, if key is not empty
	long points = 0;
};
struct Options {
	int nranks = 2;
	/// rendezvous[src*nranks+dst]: a send completes only once the receive is posted; otherwise it is buffered
	std::vector<char> rendezvous;
	long maxExecutions = 1000000;
	bool reduce = false;   ///< partial-order reduction: one order if every operation of the execution commutes with other ranks'
};
struct Stats { long executions = 0, states = 0, transitions = 0, maxpoints = 0; bool complete = true; };
/// Explores every schedule of body(rank); after each complete execution calls end() (outside the fibers).
/// Stops at the first violation. reset() is called before each execution.
Outcome explore(const Options& o, const std::function<void()>& reset, const std::function<void(int)>& body,
                const std::function<void()>& end, Stats& st);
/// from inside body: report a violation
void violate(const std::string& key, const std::string& msg);
/// replays one default schedule and returns its observation hash (to check determinism)
extern const char *const wraps;
}
#endif
