// Controlled OpenMP runtime: the threads of a team are fibers scheduled by the check; memory accesses of the instrumented
// code inside parallel regions arrive through the compiler's thread-sanitizer hooks.
#ifndef OMPRT_HPP
#define OMPRT_HPP
namespace ort {
struct Race { unsigned long pc1, pc2, addr; int t1, t2, w1, w2, a1, a2, region; };
struct Stats { long regions, widest, accesses, atomics, barriers, criticals, switches, points; };
void team(int n);                 ///< threads of the following top-level regions (0: as many as asked for by detect_all)
int team();
void detect(bool on);             ///< record accesses and look for conflicts
long nraces();
Race race(long i);
void clear_races();
Stats stats();
void clear_stats();
const char *error();              ///< deadlock and the like; empty if none
void clear_error();
/// Exploration of schedules: in region number 'region' (counted from begin_run) the given choices are followed, then the
/// default (no preemption). choices[i] indexes the options of the i-th scheduling point.
void begin_run(int region, const int *choices, int nchoices);
struct Point { int nopt, chosen; bool running_enabled; };  ///< option 0: carry on with the running thread if enabled
int npoints();
Point point(int i);
void end_run();
long contended();                 ///< number of locations known to be synchronised on by several threads
void clear_contended();
void points_everywhere(bool on);  ///< schedule at every atomic operation instead of at those on contended locations
int regions_run();
bool replay_differs();            ///< the given choices did not fit the run (the set of contended locations grew meanwhile)
                ///< since begin_run
void user_access(void *p, bool write, void *pc);
}
#endif
