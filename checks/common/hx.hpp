// Common harness support: case enumeration with sharding, replay of one case, reporting.
#ifndef HX_HPP
#define HX_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>

namespace hx {

struct State {
	int shard = 0, nshards = 1;
	bool quick = true;
	std::string only, out, casefile;
	bool haveonly = false;
	char *casebuf = nullptr;
	static const int CB = 8192;
	long idx = 0;
	long evals = 0;
	std::unordered_set<uint64_t> nontriv;
	std::map<std::string,long> counts;
	std::vector<std::string> samples;
	std::string rule;
	std::vector<std::string> assumptions;
	bool exhaustive = true;
	struct V { std::string key, cs, msg; };
	std::vector<V> viol;
	std::map<std::string,int> vkeys;
	std::string cur;
	uint64_t curhash = 0;
	double cpulimit = 200;
	double wallbudget = 380;        // quick tier: no case is begun after this many seconds (a slow machine covers less, it does not fail)
	struct timeval t0 = {0,0};
};
inline State& S() { static State s; return s; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *c = (const unsigned char*)p;
	for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

inline std::string jesc(const std::string& s) {
	std::string o;
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

template <typename... A> inline std::string fmt(const char *f, A... a) {
	char b[4096];
	snprintf(b, sizeof b, f, a...);
	return b;
}
inline std::string fmt(const char *f) { return f; }

inline bool quick() { return S().quick; }

/// Harness self-diagnosed internal error (not a verdict about the code)
inline void internal_error(const std::string& m) {
	fprintf(stderr, "HARNESS-INTERNAL: %s (case %s)\n", m.c_str(), S().cur.c_str());
	fflush(stderr);
	_exit(97);
}

inline void write_out(const std::string& path) {
	State& s = S();
	std::ofstream o(path);
	o << "{\"evaluations\":" << s.evals << ",\"nontrivial\":" << s.nontriv.size() << ",\"exhaustive\":"
	  << (s.exhaustive ? "true" : "false") << ",\"rule\":\"" << jesc(s.rule) << "\",\"counts\":{";
	bool f = true;
	for(auto& c : s.counts) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
	o << "},\"samples\":[";
	f = true;
	for(auto& c : s.samples) { o << (f ? "" : ",") << "\"" << jesc(c) << "\""; f = false; }
	o << "],\"assumptions\":[";
	f = true;
	for(auto& c : s.assumptions) { o << (f ? "" : ",") << "\"" << jesc(c) << "\""; f = false; }
	o << "],\"violations\":[";
	f = true;
	for(auto& v : s.viol) {
		o << (f ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"case\":\"" << jesc(v.cs) << "\",\"msg\":\"" << jesc(v.msg) << "\"}";
		f = false;
	}
	o << "]}\n";
}

inline void init(int argc, char **argv) {
	State& s = S();
	for(int i = 1; i + 1 < argc; i++) {
		const std::string a = argv[i];
		if(a == "--tier") s.quick = std::string(argv[i+1]) == "quick";
		else if(a == "--shard") s.shard = atoi(argv[i+1]);
		else if(a == "--nshards") s.nshards = atoi(argv[i+1]);
		else if(a == "--out") s.out = argv[i+1];
		else if(a == "--casefile") s.casefile = argv[i+1];
		else if(a == "--only") { s.only = argv[i+1]; s.haveonly = true; }
	}
	if(!s.casefile.empty()) {
		int fd = open(s.casefile.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
		if(ftruncate(fd, State::CB)) {}
		s.casebuf = (char*)mmap(nullptr, State::CB, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	if(!getenv("HX_VERBOSE")) {
		int fd = open("/dev/null", O_WRONLY);
		fflush(stdout);
		dup2(fd, 1);
		close(fd);
	}
}

/// Starts a case. Returns true if this process has to execute it.
inline bool begin(const std::string& id) {
	State& s = S();
	const long i = s.idx++;
	if(s.haveonly) { if(id != s.only) return false; }
	else if(i % s.nshards != s.shard) return false;
	if(s.quick && !s.haveonly && !getenv("OMPI_COMM_WORLD_SIZE")) {
		struct timeval t; gettimeofday(&t, nullptr);
		if(!s.t0.tv_sec) s.t0 = t;
		if(double(t.tv_sec - s.t0.tv_sec) > s.wallbudget) { s.exhaustive = false; s.counts["cases_not_begun_for_time"]++; return false; }
	}
	s.cur = id;
	s.curhash = fnv(id);
	if(s.casebuf) { strncpy(s.casebuf, id.c_str(), State::CB-1); s.casebuf[std::min<size_t>(id.size(), State::CB-1)] = 0; }
	// CPU-time watchdog per case: a hang ends the process by SIGPROF
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = (long)s.cpulimit;
	setitimer(ITIMER_PROF, &it, nullptr);
	return true;
}
/// Would the next begin() be for this shard? (cheap pre-test that consumes the index when not)
inline bool mine() {
	State& s = S();
	if(s.haveonly) return true;
	if(s.idx % s.nshards != s.shard) { s.idx++; return false; }
	return true;
}

inline void eval(long n = 1) { S().evals += n; }
/// Registers a distinct non-trivial evaluation; h identifies it within the case
inline void nontrivial(uint64_t h = 0) {
	State& s = S();
	if(s.nontriv.size() < 6000000) s.nontriv.insert(s.curhash*31 + h*1099511628211ull + 7);
}
inline void count(const std::string& k, long n = 1) { S().counts[k] += n; }
inline void sample(const std::string& t) { if(S().samples.size() < 2) S().samples.push_back(t); }
inline void rule(const std::string& t) { S().rule = t; }
inline void assume(const std::string& t) { S().assumptions.push_back(t); }

inline void fail(const std::string& key, const std::string& msg) {
	State& s = S();
	s.counts["failing_evaluations"]++;
	if(s.vkeys[key]++ == 0 && s.viol.size() < 200) {
		s.viol.push_back({key, s.cur, msg});
		if(getenv("HX_VERBOSE")) fprintf(stderr, "FAIL %s [%s] %s\n", key.c_str(), s.cur.c_str(), msg.c_str());
		if(!s.out.empty()) write_out(s.out + ".part");
	}
}
inline bool check(bool ok, const std::string& key, const std::string& msg) {
	if(!ok) fail(key, msg);
	return ok;
}
#define HX_CHECK(cond, key, ...) do { if(!(cond)) hx::fail(key, hx::fmt(__VA_ARGS__)); } while(0)

inline int finish() {
	State& s = S();
	struct itimerval it; memset(&it, 0, sizeof it);
	setitimer(ITIMER_PROF, &it, nullptr);
	if(s.haveonly && s.evals == 0 && s.viol.empty()) fprintf(stderr, "case not found: %s\n", s.only.c_str());
	write_out(s.out.empty() ? "/dev/stderr" : s.out);
	return 0;
}

inline bool close(double a, double b, double rtol, double scale) {
	return std::isfinite(a) && std::isfinite(b) && std::fabs(a-b) <= rtol*scale;
}

} // namespace hx
#endif
