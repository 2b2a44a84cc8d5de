#include "common/mockmpi.hpp"
#define FIBER_IMPLEMENT
#include "common/fiber.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <unordered_set>
#include <stdexcept>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define ASAN_FIBERS 1
#endif

namespace mk {

static int g_rank = 0, g_size = 0;
void setRank(int r, int s) { g_rank = r; g_size = s; }

struct Abandon {};     // thrown into fibers to unwind them

enum Kind { SEND, RECV };
struct Req {
	Kind kind; int owner, peer, tag; MPI_Comm comm; MPI_Datatype dt; int count;
	char *buf; size_t bytes;
	bool persistent = false, active = false, matched = false, complete = false, rendez = false;
	std::vector<char> data;                   // send: content at start; recv: arrived content
	int asrc = -1, atag = -1; size_t abytes = 0;
	unsigned long seq = 0;
};
struct Coll { std::string kind; int arrived = 0; std::vector<int> who; std::function<void(int)> deposit; std::vector<std::vector<char>> in; std::vector<char> out; bool done = false; long sig = 0; int left = 0; };
struct Fiber {
	fb::Ctx ctx; std::vector<char> stack; int rank; bool done = false, started = false;
	std::function<bool()> cond;               // empty: ready
	uint64_t hist = 1469598103934665603ull;
	std::map<MPI_Comm,long> ncoll;
	bool spinning = false;                     // last Test/Iprobe failed; nothing happened since
	unsigned long spunAt = 0;
	void *fake = nullptr;
};

static bool running = false;
static std::vector<Fiber> F;
static int cur = -1;
static fb::Ctx mainctx;
static const Options *opt;
static std::vector<std::unique_ptr<Req>> reqs;
static std::vector<Req*> sends, recvs;          // posted and unmatched, in order
static std::map<std::pair<MPI_Comm,long>, Coll> colls;
static unsigned long seqno, events;
static std::string vkey, vmsg;
static bool abandoning;
static const std::function<void(int)> *gbody;
static void *mainfake; static const void *mainbottom; static size_t mainsize;

struct Point { std::vector<int> enabled; int chosen; };
static std::vector<int> prefix; static std::vector<Point> trail;
static std::unordered_set<uint64_t> *visited;
static bool hitVisited; static long newstates;
static bool nondet;    // the execution contained an operation whose outcome depends on the order of other ranks' operations

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 1099511628211ull; return h; }
static uint64_t hashBytes(const void *p, size_t n) { uint64_t h = 1469598103934665603ull; const unsigned char *c = (const unsigned char*)p; for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }

void violate(const std::string& key, const std::string& msg) { if(vkey.empty()) { vkey = key; vmsg = msg; } }

static void toMain(bool dying = false) {
	Fiber& f = F[cur];
#ifdef ASAN_FIBERS
	__sanitizer_start_switch_fiber(dying ? nullptr : &f.fake, mainbottom, mainsize);
#endif
	fb::swap(f.ctx, mainctx);
#ifdef ASAN_FIBERS
	__sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
#endif
}
static void toFiber(int i) {
	cur = i;
#ifdef ASAN_FIBERS
	__sanitizer_start_switch_fiber(&mainfake, F[i].stack.data(), F[i].stack.size());
#endif
	fb::swap(mainctx, F[i].ctx);
#ifdef ASAN_FIBERS
	__sanitizer_finish_switch_fiber(mainfake, nullptr, nullptr);
#endif
	cur = -1;
}
static void entry() {
#ifdef ASAN_FIBERS
	__sanitizer_finish_switch_fiber(nullptr, &mainbottom, &mainsize);
#endif
	const int r = F[cur].rank;
	try { (*gbody)(r); }
	catch(const Abandon&) {}
	catch(const std::exception& e) { violate("exception", std::string("rank ") + std::to_string(r) + ": " + e.what()); }
	catch(...) { violate("exception", "rank " + std::to_string(r) + ": unknown exception"); }
	F[cur].done = true;
	toMain(true);
	abort();
}

/// a scheduling point before an MPI call
static void point(uint64_t what) {
	if(abandoning) { if(!std::uncaught_exception()) throw Abandon(); return; }
	F[cur].hist = mix(F[cur].hist, what);
	F[cur].cond = nullptr;
	toMain();
	if(abandoning && !std::uncaught_exception()) throw Abandon();
}
static void note(uint64_t res) { F[cur].hist = mix(F[cur].hist, res); }
static void waitFor(const std::function<bool()>& c) {
	if(abandoning) return;
	if(c()) return;
	F[cur].cond = c;
	toMain();
	F[cur].cond = nullptr;
	if(abandoning && !std::uncaught_exception()) throw Abandon();
}

static size_t typeSize(MPI_Datatype dt) { int s = 0; PMPI_Type_size(dt, &s); return (size_t)s; }

static void finishIfBuffered(Req *s) { if(s->kind == SEND && (s->matched || !s->rendez)) s->complete = true; }
static void match() {
	bool again = true;
	while(again) {
		again = false;
		for(size_t i = 0; i < recvs.size() && !again; i++) {
			Req *r = recvs[i];
			for(size_t j = 0; j < sends.size(); j++) {
				Req *s = sends[j];
				if(s->comm != r->comm || s->peer != r->owner) continue;
				if(r->peer != MPI_ANY_SOURCE && r->peer != s->owner) continue;
				if(r->tag != MPI_ANY_TAG && r->tag != s->tag) continue;
				// first matching send in posting order: non-overtaking holds
				if(s->bytes > r->bytes) violate("truncation", "rank " + std::to_string(r->owner) + " receives " + std::to_string(r->bytes) + " bytes, " + std::to_string(s->bytes) + " were sent by rank " + std::to_string(s->owner));
				else if(s->bytes && typeSize(s->dt) != typeSize(r->dt)) violate("type", "datatypes of different size matched");
				else {
					if(s->rendez && s->bytes && memcmp(s->data.data(), s->buf, s->bytes)) violate("send-buffer", "rank " + std::to_string(s->owner) + " modified a send buffer before the send completed");
					r->data = s->data;
				}
				r->asrc = s->owner; r->atag = s->tag; r->abytes = s->bytes;
				r->matched = r->complete = true;
				s->matched = s->complete = true;
				recvs.erase(recvs.begin()+i); sends.erase(sends.begin()+j);
				events++;
				again = true;
				break;
			}
		}
	}
}
static const unsigned char POISON = 0xfb;
static void start(Req *r) {
	r->active = true; r->matched = r->complete = false; r->seq = ++seqno;
	if(r->peer == MPI_PROC_NULL) { r->complete = true; r->matched = true; r->asrc = MPI_PROC_NULL; r->atag = MPI_ANY_TAG; r->abytes = 0; r->data.clear(); return; }
	if(r->peer != MPI_ANY_SOURCE && (r->peer < 0 || r->peer >= opt->nranks)) { violate("rank", "message to or from rank " + std::to_string(r->peer)); r->complete = r->matched = true; return; }
	if(r->kind == SEND) {
		r->data.assign(r->buf, r->buf + r->bytes);
		r->rendez = r->rendez || (!opt->rendezvous.empty() && opt->rendezvous[r->owner*opt->nranks + r->peer]);
		sends.push_back(r);
	} else {
		if(r->peer == MPI_ANY_SOURCE) nondet = true;
		memset(r->buf, POISON, r->bytes);
		r->data.clear();
		recvs.push_back(r);
	}
	events++;
	match();
	finishIfBuffered(r);
}
static Req *make(Kind k, const void *buf, int count, MPI_Datatype dt, int peer, int tag, MPI_Comm comm) {
	reqs.emplace_back(new Req);
	Req *r = reqs.back().get();
	r->kind = k; r->owner = cur; r->peer = peer; r->tag = tag; r->comm = comm; r->dt = dt; r->count = count;
	r->buf = (char*)buf; r->bytes = count < 0 ? 0 : typeSize(dt)*(size_t)count;
	if(count < 0) violate("count", "negative message count");
	return r;
}
/// completes a finished request: checks the buffer and delivers
static void retire(Req *r, MPI_Status *st) {
	if(r->kind == SEND) {
		if(r->bytes && r->data.size() == r->bytes && memcmp(r->data.data(), r->buf, r->bytes)) violate("send-buffer", "rank " + std::to_string(r->owner) + " modified a send buffer before waiting for the send");
	} else {
		for(size_t i = 0; i < r->bytes; i++) if((unsigned char)r->buf[i] != POISON) { violate("recv-buffer", "rank " + std::to_string(r->owner) + " wrote to a receive buffer before the receive completed"); break; }
		if(!r->data.empty()) memcpy(r->buf, r->data.data(), r->data.size());
		note(hashBytes(r->data.data(), r->data.size()));
	}
	if(st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = r->asrc; st->MPI_TAG = r->atag; st->MPI_ERROR = 0; st->_ucount = r->abytes; }
	r->active = false;
}
static Req *R(MPI_Request q) {
	Req *r = (Req*)(void*)q;
	for(auto& x : reqs) if(x.get() == r) return r;
	violate("request", "a request that does not exist was waited for or tested");
	return nullptr;
}
static void drop(MPI_Request *q) { Req *r = R(*q); if(r && !r->persistent) *q = MPI_REQUEST_NULL; }

static std::string desc() {
	std::string s;
	for(auto& f : F) s += "rank " + std::to_string(f.rank) + (f.done ? " finished" : " waiting") + "; ";
	s += std::to_string(sends.size()) + " unmatched sends, " + std::to_string(recvs.size()) + " unmatched receives";
	for(Req *r : sends) s += " [send " + std::to_string(r->owner) + "->" + std::to_string(r->peer) + " tag " + std::to_string(r->tag) + "]";
	for(Req *r : recvs) s += " [recv " + std::to_string(r->owner) + "<-" + std::to_string(r->peer) + " tag " + std::to_string(r->tag) + "]";
	return s;
}

/// one execution following 'prefix', then first choices
static void execute(const std::function<void()>& reset, const std::function<void()>& end) {
	reset();
	reqs.clear(); sends.clear(); recvs.clear(); colls.clear(); seqno = events = 0; vkey.clear(); vmsg.clear(); abandoning = false; trail.clear(); hitVisited = false; nondet = false;
	const int n = opt->nranks;
	if((int)F.size() != n) F = std::vector<Fiber>(n);
	for(int i = 0; i < n; i++) {
		Fiber& f = F[i];
		if(f.stack.empty()) f.stack.resize(512*1024);
		f.rank = i; f.done = f.started = f.spinning = false; f.cond = nullptr; f.hist = 1469598103934665603ull+i; f.ncoll.clear(); f.fake = nullptr;
		fb::make(f.ctx, f.stack.data(), f.stack.size(), entry);
	}
	running = true;
	int last = 0; bool stuck = false;
	size_t step = 0;
	while(vkey.empty()) {
		std::vector<int> en; bool alldone = true, anyspin = false;
		for(int k = 0; k < n; k++) {
			const int i = (last + k) % n;
			if(F[i].done) continue;
			alldone = false;
			if(F[i].spinning && F[i].spunAt == events) { anyspin = true; continue; }
			if(!F[i].cond || F[i].cond()) en.push_back(i);
		}
		if(alldone) break;
		if(en.empty()) { violate(anyspin ? "livelock" : "deadlock", desc()); stuck = true; break; }
		int c;
		if(step < prefix.size()) { c = prefix[step]; if(c >= (int)en.size()) { violate("divergence", "replaying a prefix of choices diverged"); break; } }
		else {
			uint64_t h = 77;
			for(auto& f : F) { h = mix(h, f.hist); h = mix(h, (f.done?1:0) + (f.cond?2:0) + (f.started?4:0)); }
			for(Req *r : recvs) if(r->peer == MPI_ANY_SOURCE) { for(Req *s : sends) h = mix(h, s->seq); break; }
			// who runs first among equals matters only for the order of exploration
			if(!visited->insert(h).second) { hitVisited = true; break; }
			newstates++;
			c = 0;
		}
		trail.push_back({en, c});
		step++;
		last = en[c];
		F[last].spinning = false; F[last].started = true;
		const unsigned long before = events;
		toFiber(last);
		if(F[last].done) events++;
		(void)before;
	}
	if(vkey.empty() && !hitVisited) {
		for(Req *s : sends) violate("unreceived", "message from rank " + std::to_string(s->owner) + " to rank " + std::to_string(s->peer) + " was never received");
		for(Req *r : recvs) violate("unmatched-receive", "receive of rank " + std::to_string(r->owner) + " from rank " + std::to_string(r->peer) + " never matched");
		for(auto& r : reqs) if(r->active) violate("request-leak", "rank " + std::to_string(r->owner) + " never completed a request");
		running = false;
		if(vkey.empty()) end();
	}
	running = true;
	// unwind the fibers that are still suspended
	abandoning = true;
	const std::string k = vkey, m = vmsg;
	for(auto& f : F) if(!f.done && f.started) toFiber(f.rank);
	vkey = k; vmsg = m;
	running = false; abandoning = false;
}

Outcome explore(const Options& o, const std::function<void()>& reset, const std::function<void(int)>& body, const std::function<void()>& end, Stats& st) {
	Options oo = o; opt = &oo; gbody = &body;
	std::unordered_set<uint64_t> seen; visited = &seen; newstates = 0;
	std::vector<std::vector<int>> todo; todo.push_back({});
	Outcome out;
	while(!todo.empty()) {
		if(st.executions >= o.maxExecutions) { st.complete = false; break; }
		prefix = todo.back(); todo.pop_back();
		const size_t p0 = prefix.size();
		execute(reset, end);
		st.executions++;
		st.transitions += (long)(trail.size() - std::min(trail.size(), p0)) + (p0 ? 1 : 0);
		st.maxpoints = std::max<long>(st.maxpoints, (long)trail.size());
		if(!vkey.empty()) {
			out.key = vkey; out.points = (long)trail.size();
			out.msg = vmsg + " | schedule:";
			for(auto& t : trail) out.msg += " " + std::to_string(t.enabled[t.chosen]);
			break;
		}
		// receives from named sources, sends, waits and collectives of different ranks commute: one order stands for all
		if(o.reduce && !nondet && st.executions == 1) break;
		for(size_t i = trail.size(); i-- > p0;)
			for(int a = 1; a < (int)trail[i].enabled.size(); a++) {
				std::vector<int> p; for(size_t j = 0; j < i; j++) p.push_back(trail[j].chosen);
				p.push_back(a);
				todo.push_back(p);
			}
	}
	st.states += newstates;
	opt = nullptr; gbody = nullptr; visited = nullptr;
	return out;
}

static uint64_t ev(int op, int peer = 0, int tag = 0, size_t n = 0) { return mix(mix(mix(op, peer+1000), tag+1000), n); }

/// collective: every rank deposits, the last one computes
static void collective(const std::string& kind, MPI_Comm comm, long sig, const void *in, size_t inbytes, const std::function<void(Coll&)>& compute, const std::function<void(Coll&)>& take) {
	point(ev(90, (int)kind.size(), (int)sig, inbytes));
	const long k = F[cur].ncoll[comm]++;
	Coll& c = colls[std::make_pair(comm,k)];
	if(c.arrived == 0) { c.kind = kind; c.sig = sig; c.in.resize(opt->nranks); }
	else if(c.kind != kind || c.sig != sig) violate("collective-mismatch", "rank " + std::to_string(cur) + " calls " + kind + " where another rank calls " + c.kind);
	c.in[cur].assign((const char*)in, (const char*)in + inbytes);
	c.arrived++; events++;
	if(c.arrived == opt->nranks) { compute(c); c.done = true; }
	Coll *pc = &c;
	waitFor([pc]() { return pc->done; });
	if(pc->done) take(*pc);
}

} // namespace mk

using namespace mk;
static int me() { return running ? F[cur].rank : g_rank; }
static bool mocked() { return running || g_size > 0; }

extern "C" {
#define REALDECL(ret, name, args) ret __real_##name args; ret __wrap_##name args
REALDECL(int, MPI_Comm_rank, (MPI_Comm c, int *r)) { if(!mocked() || c == MPI_COMM_SELF) return __real_MPI_Comm_rank(c, r); *r = me(); return 0; }
REALDECL(int, MPI_Comm_size, (MPI_Comm c, int *s)) { if(!mocked() || c == MPI_COMM_SELF) return __real_MPI_Comm_size(c, s); *s = running ? opt->nranks : g_size; return 0; }
REALDECL(int, MPI_Isend, (const void *b, int n, MPI_Datatype dt, int d, int t, MPI_Comm c, MPI_Request *q)) {
	if(!running) return __real_MPI_Isend(b, n, dt, d, t, c, q);
	point(ev(1, d, t, n)); Req *r = make(SEND, b, n, dt, d, t, c); start(r); *q = (MPI_Request)(void*)r; return 0; }
REALDECL(int, MPI_Issend, (const void *b, int n, MPI_Datatype dt, int d, int t, MPI_Comm c, MPI_Request *q)) {
	if(!running) return __real_MPI_Issend(b, n, dt, d, t, c, q);
	point(ev(2, d, t, n)); Req *r = make(SEND, b, n, dt, d, t, c); r->rendez = true; start(r); *q = (MPI_Request)(void*)r; return 0; }
REALDECL(int, MPI_Irecv, (void *b, int n, MPI_Datatype dt, int s, int t, MPI_Comm c, MPI_Request *q)) {
	if(!running) return __real_MPI_Irecv(b, n, dt, s, t, c, q);
	point(ev(3, s, t, n)); Req *r = make(RECV, b, n, dt, s, t, c); start(r); *q = (MPI_Request)(void*)r; return 0; }
REALDECL(int, MPI_Send_init, (const void *b, int n, MPI_Datatype dt, int d, int t, MPI_Comm c, MPI_Request *q)) {
	if(!running) return __real_MPI_Send_init(b, n, dt, d, t, c, q);
	Req *r = make(SEND, b, n, dt, d, t, c); r->persistent = true; *q = (MPI_Request)(void*)r; return 0; }
REALDECL(int, MPI_Recv_init, (void *b, int n, MPI_Datatype dt, int s, int t, MPI_Comm c, MPI_Request *q)) {
	if(!running) return __real_MPI_Recv_init(b, n, dt, s, t, c, q);
	Req *r = make(RECV, b, n, dt, s, t, c); r->persistent = true; *q = (MPI_Request)(void*)r; return 0; }
REALDECL(int, MPI_Start, (MPI_Request *q)) {
	if(!running) return __real_MPI_Start(q);
	point(ev(4)); Req *r = R(*q); if(r) { if(r->active) violate("request", "an active persistent request was started again"); start(r); } return 0; }
REALDECL(int, MPI_Startall, (int n, MPI_Request *q)) {
	if(!running) return __real_MPI_Startall(n, q);
	for(int i = 0; i < n; i++) __wrap_MPI_Start(q+i); return 0; }
REALDECL(int, MPI_Request_free, (MPI_Request *q)) {
	if(!running) return __real_MPI_Request_free(q);
	Req *r = R(*q); if(r) { if(r->active) violate("request-leak", "an active request was freed"); r->active = false; } *q = MPI_REQUEST_NULL; return 0; }
REALDECL(int, MPI_Wait, (MPI_Request *q, MPI_Status *st)) {
	if(!running) return __real_MPI_Wait(q, st);
	if(*q == MPI_REQUEST_NULL) return 0;
	Req *r = R(*q); if(!r) return 0;
	point(ev(5));
	if(!r->active) return 0;
	waitFor([r]() { return r->complete; });
	if(r->complete) { retire(r, st); drop(q); }
	return 0; }
REALDECL(int, MPI_Waitall, (int n, MPI_Request *q, MPI_Status *st)) {
	if(!running) return __real_MPI_Waitall(n, q, st);
	if(n == 0) return 0;
	point(ev(6, n));
	std::vector<Req*> v;
	for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { Req *r = R(q[i]); if(r && r->active) v.push_back(r); }
	waitFor([v]() { for(Req *r : v) if(!r->complete) return false; return true; });
	for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { Req *r = R(q[i]); if(r && r->active && r->complete) retire(r, st == MPI_STATUSES_IGNORE ? nullptr : st+i); drop(q+i); }
	return 0; }
REALDECL(int, MPI_Waitany, (int n, MPI_Request *q, int *idx, MPI_Status *st)) {
	if(!running) return __real_MPI_Waitany(n, q, idx, st);
	point(ev(7, n)); nondet = true;
	std::vector<Req*> v(n, nullptr); bool any = false;
	for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { Req *r = R(q[i]); if(r && r->active) { v[i] = r; any = true; } }
	if(!any) { *idx = MPI_UNDEFINED; return 0; }
	waitFor([v]() { for(Req *r : v) if(r && r->complete) return true; return false; });
	for(int i = 0; i < n; i++) if(v[i] && v[i]->complete) { *idx = i; note(i); retire(v[i], st); drop(q+i); return 0; }
	*idx = MPI_UNDEFINED; return 0; }
static void testEnd(bool ok) { nondet = true; note(ok); if(!ok) { F[cur].spinning = true; F[cur].spunAt = events; } }
REALDECL(int, MPI_Test, (MPI_Request *q, int *flag, MPI_Status *st)) {
	if(!running) return __real_MPI_Test(q, flag, st);
	if(*q == MPI_REQUEST_NULL) { *flag = 1; return 0; }
	Req *r = R(*q); if(!r) { *flag = 1; return 0; }
	point(ev(8));
	*flag = !r->active || r->complete; testEnd(*flag);
	if(*flag) { if(r->active) retire(r, st); drop(q); }
	return 0; }
REALDECL(int, MPI_Testall, (int n, MPI_Request *q, int *flag, MPI_Status *st)) {
	if(!running) return __real_MPI_Testall(n, q, flag, st);
	point(ev(9, n)); *flag = 1;
	for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { Req *r = R(q[i]); if(r && r->active && !r->complete) *flag = 0; }
	testEnd(*flag);
	if(*flag) for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { Req *r = R(q[i]); if(r && r->active) retire(r, st == MPI_STATUSES_IGNORE ? nullptr : st+i); drop(q+i); }
	return 0; }
REALDECL(int, MPI_Send, (const void *b, int n, MPI_Datatype dt, int d, int t, MPI_Comm c)) {
	if(!running) return __real_MPI_Send(b, n, dt, d, t, c);
	MPI_Request q; __wrap_MPI_Isend(b, n, dt, d, t, c, &q); return __wrap_MPI_Wait(&q, MPI_STATUS_IGNORE); }
REALDECL(int, MPI_Ssend, (const void *b, int n, MPI_Datatype dt, int d, int t, MPI_Comm c)) {
	if(!running) return __real_MPI_Ssend(b, n, dt, d, t, c);
	MPI_Request q; __wrap_MPI_Issend(b, n, dt, d, t, c, &q); return __wrap_MPI_Wait(&q, MPI_STATUS_IGNORE); }
REALDECL(int, MPI_Recv, (void *b, int n, MPI_Datatype dt, int s, int t, MPI_Comm c, MPI_Status *st)) {
	if(!running) return __real_MPI_Recv(b, n, dt, s, t, c, st);
	MPI_Request q; __wrap_MPI_Irecv(b, n, dt, s, t, c, &q); return __wrap_MPI_Wait(&q, st); }
REALDECL(int, MPI_Sendrecv, (const void *sb, int sn, MPI_Datatype sdt, int d, int stg, void *rb, int rn, MPI_Datatype rdt, int s, int rtg, MPI_Comm c, MPI_Status *st)) {
	if(!running) return __real_MPI_Sendrecv(sb, sn, sdt, d, stg, rb, rn, rdt, s, rtg, c, st);
	MPI_Request q[2]; __wrap_MPI_Irecv(rb, rn, rdt, s, rtg, c, q); __wrap_MPI_Isend(sb, sn, sdt, d, stg, c, q+1);
	__wrap_MPI_Wait(q+1, MPI_STATUS_IGNORE); return __wrap_MPI_Wait(q, st); }
static Req *probe(int s, int t, MPI_Comm c) { if(s == MPI_ANY_SOURCE || t == MPI_ANY_TAG) nondet = true; for(Req *x : sends) if(x->comm == c && x->peer == cur && (s == MPI_ANY_SOURCE || s == x->owner) && (t == MPI_ANY_TAG || t == x->tag)) return x; return nullptr; }
static void fill(Req *x, MPI_Status *st) { note(x->owner*1000+x->tag); if(st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = x->owner; st->MPI_TAG = x->tag; st->_ucount = x->bytes; } }
REALDECL(int, MPI_Probe, (int s, int t, MPI_Comm c, MPI_Status *st)) {
	if(!running) return __real_MPI_Probe(s, t, c, st);
	point(ev(10, s, t)); waitFor([=]() { return probe(s,t,c) != nullptr; }); Req *x = probe(s,t,c); if(x) fill(x, st); return 0; }
REALDECL(int, MPI_Iprobe, (int s, int t, MPI_Comm c, int *flag, MPI_Status *st)) {
	if(!running) return __real_MPI_Iprobe(s, t, c, flag, st);
	point(ev(11, s, t)); Req *x = probe(s,t,c); *flag = x != nullptr; testEnd(*flag); if(x) fill(x, st); return 0; }
REALDECL(int, MPI_Barrier, (MPI_Comm c)) {
	if(!mocked()) return __real_MPI_Barrier(c);
	if(!running) return 0;
	collective("Barrier", c, 0, "", 0, [](Coll&) {}, [](Coll&) {}); return 0; }
REALDECL(int, MPI_Bcast, (void *b, int n, MPI_Datatype dt, int root, MPI_Comm c)) {
	if(!running) return __real_MPI_Bcast(b, n, dt, root, c);
	const size_t nb = typeSize(dt)*n;
	collective("Bcast", c, (long)(nb*64+root), b, nb, [=](Coll& k) { k.out = k.in[root]; }, [=](Coll& k) { if(cur != root && nb) memcpy(b, k.out.data(), nb); note(hashBytes(k.out.data(), nb)); }); return 0; }
REALDECL(int, MPI_Allreduce, (const void *s, void *r, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c)) {
	if(!running) return __real_MPI_Allreduce(s, r, n, dt, op, c);
	const size_t nb = typeSize(dt)*n;
	if(s == r && nb) violate("collective-alias", "MPI_Allreduce with the same send and receive buffer");
	collective("Allreduce", c, (long)nb, s == MPI_IN_PLACE ? r : s, nb, [=](Coll& k) { k.out = k.in[0]; for(int i = 1; i < opt->nranks; i++) PMPI_Reduce_local(k.in[i].data(), k.out.data(), n, dt, op); },
		[=](Coll& k) { memcpy(r, k.out.data(), nb); note(hashBytes(k.out.data(), nb)); }); return 0; }
REALDECL(int, MPI_Reduce, (const void *s, void *r, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c)) {
	if(!running) return __real_MPI_Reduce(s, r, n, dt, op, root, c);
	const size_t nb = typeSize(dt)*n;
	collective("Reduce", c, (long)(nb*64+root), s == MPI_IN_PLACE ? r : s, nb, [=](Coll& k) { k.out = k.in[0]; for(int i = 1; i < opt->nranks; i++) PMPI_Reduce_local(k.in[i].data(), k.out.data(), n, dt, op); },
		[=](Coll& k) { if(cur == root) { memcpy(r, k.out.data(), nb); note(hashBytes(k.out.data(), nb)); } }); return 0; }
REALDECL(int, MPI_Allgather, (const void *s, int sn, MPI_Datatype sdt, void *r, int rn, MPI_Datatype rdt, MPI_Comm c)) {
	if(!running) return __real_MPI_Allgather(s, sn, sdt, r, rn, rdt, c);
	const size_t nb = typeSize(rdt)*rn;
	collective("Allgather", c, (long)nb, s == MPI_IN_PLACE ? (char*)r + cur*nb : s, nb, [](Coll& k) { for(auto& v : k.in) k.out.insert(k.out.end(), v.begin(), v.end()); },
		[=](Coll& k) { memcpy(r, k.out.data(), k.out.size()); note(hashBytes(k.out.data(), k.out.size())); }); return 0; }
REALDECL(int, MPI_Alltoall, (const void *s, int sn, MPI_Datatype sdt, void *r, int rn, MPI_Datatype rdt, MPI_Comm c)) {
	if(!running) return __real_MPI_Alltoall(s, sn, sdt, r, rn, rdt, c);
	const size_t nb = typeSize(rdt)*rn; const int P = opt->nranks;
	collective("Alltoall", c, (long)nb, s, nb*P, [](Coll&) {}, [=](Coll& k) { for(int i = 0; i < P; i++) memcpy((char*)r+i*nb, k.in[i].data()+cur*nb, nb); note(hashBytes(r, nb*P)); }); return 0; }
}
