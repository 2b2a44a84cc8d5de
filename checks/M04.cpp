// M04: every byte-prefix of valid mesh files
#include "common/petsc_init.hpp"
#include "common/meshfiles.hpp"
#include <sys/resource.h>
using namespace mg;

/// returns 0 accepted, 3 exception, 4 abort, 99 memory error, 124 hang, else other
static int readInChild(const std::string& file) {
	const pid_t pid = fork();
	if(pid == 0) {
		struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
		struct rlimit r = {4, 5}; setrlimit(RLIMIT_CPU, &r);
		signal(SIGXCPU, SIG_DFL);
		const int fd = open("child.log", O_WRONLY|O_CREAT|O_TRUNC, 0644); dup2(fd, 2);
		int rc = 0;
		try { const fvens::MeshData d = fvens::readMesh(file); rc = d.npoin >= 0 ? 0 : 0; }
		catch(...) { rc = 3; }
		_exit(rc);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if(WIFEXITED(st)) return WEXITSTATUS(st);
	const int sig = WTERMSIG(st);
	if(sig == SIGABRT) return 4;
	if(sig == SIGXCPU || sig == SIGKILL) return 124;
	return 128 + sig;
}

static void truncations(const std::string& name, const std::string& ext, const std::string& text, const std::vector<size_t>& tok) {
	const std::string f = "t." + ext;
	// the complete file is accepted
	writeFile(f, text);
	const int full = readInChild(f);
	HX_CHECK(full == 0, ext + "-complete", "%s: complete file not accepted (%d)", name.c_str(), full);
	const size_t last = *std::max_element(tok.begin(), tok.end());
	std::map<int,int> outc;
	for(size_t L = 0; L < text.size(); L++) {
		if(outc[124] >= 3) { hx::S().exhaustive = false; break; }       // enough hangs shown
		writeFile(f, text.substr(0, L));
		const int rc = readInChild(f);
		outc[rc]++;
		hx::eval();
		if(last >= L) {
			hx::nontrivial(L);
			const bool rejected = rc != 0 && rc != 99 && rc != 124 && rc < 128;
			const char *k = rc == 0 ? "accepted" : rc == 124 ? "hang" : rc == 99 ? "memory" : "crash";
			HX_CHECK(rejected, ext + "-" + k, "%s truncated to %d of %d bytes: outcome %d (0 accepted, 99 memory error, 124 hang); ends with '%s'", name.c_str(), (int)L, (int)text.size(), rc, text.substr(L > 25 ? L-25 : 0, L > 25 ? 25 : L).c_str());
		} else
			HX_CHECK(rc != 124 && rc != 99 && rc < 128, ext + "-tail", "%s truncated to %d of %d bytes (all data present): outcome %d", name.c_str(), (int)L, (int)text.size(), rc);
	}
	for(auto& o : outc) hx::count(hx::fmt("outcome_%d", o.first), o.second);
}

int main(int argc, char **argv) {
	hx::init(argc, argv);
	hx::petsc_init();
	hx::rule("A case is one valid mesh file; every proper prefix of it (every byte position) is read by the real reader in a child process with a CPU limit under AddressSanitizer. Non-trivial: prefixes that lack at least one whole data token. Distinct by file and length.");
	hx::S().cpulimit = 1e6;
	std::vector<RM> ms = {single(3), grid(1,1,1,UNIFORM), grid(2,1,3,DISTORTED)};
	if(!hx::quick()) { ms.push_back(fan(4)); ms.push_back(ring(3,1,5)); ms.push_back(lshape(7)); ms.push_back(grid(2,2,10,ROTATED)); }
	for(auto& m : ms) {
		for(int v = 0; v < (hx::quick() ? 3 : 6); v++) {
			GmshLayout L; L.nbtag = 1+v; L.ndtag = 2+v%2; L.ws = v%3; L.numfmt = v%3; L.physnames = v == 1; L.finalnewline = v != 2;
			const std::string nm = m.name + " " + L.str();
			if(hx::begin(nm)) { std::vector<size_t> t; const std::string s = gmshText(m, L, &t); truncations(nm, "msh", s, t); hx::sample(nm + hx::fmt(" %d bytes", (int)s.size())); }
			Su2Layout U; U.eq = v%3; U.ws = v%3; U.numfmt = v%3; U.comments = v == 1; U.finalnewline = v != 2; U.emptymarker = v == 1;
			const std::string nu = m.name + " " + U.str();
			if(hx::begin(nu)) { std::vector<size_t> t; std::vector<int> o; const std::string s = su2Text(m, U, o, &t); truncations(nu, "su2", s, t); hx::sample(nu + hx::fmt(" %d bytes", (int)s.size())); }
		}
	}
	return hx::finish_petsc();
}
