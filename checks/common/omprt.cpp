// See omprt.hpp. Compiled without instrumentation. Nothing here may use templates or library code shared with
// instrumented translation units (their inline functions would be instrumented).
#include "omprt.hpp"
#define FIBER_IMPLEMENT
#include "fiber.hpp"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <new>

typedef uintptr_t up;
typedef unsigned char u8;

namespace {
const int MAXT = 400;
const size_t STK = 192*1024;

int g_team = 1;
bool g_detect = false;
bool g_all = false;
bool g_in = false;             // inside a top-level team with several fibers
bool g_busy = false;           // inside the runtime itself
int g_n = 1, g_cur = 0;        // size of the team, running thread
int g_nest = 0;
ort::Stats st;
char err[256];

enum TS { RUN, BARRIER, LOCK, DONE };
struct Th { fb::Ctx ctx; char *stack; int state; void *want; int nlocks; void *locks[8]; long ws; int noguard; int grp; bool open; void *last; } th[MAXT];
fb::Ctx mainctx;
void (*g_fn)(void*);
void *g_data;

// ---- locks
struct Lk { void *id; int owner; } lk[64];
int nlk = 0;
Lk *lock_of(void *id) {
	for(int i = 0; i < nlk; i++) if(lk[i].id == id) return &lk[i];
	if(nlk == 64) { fprintf(stderr, "HARNESS-INTERNAL: too many locks\n"); _exit(97); }
	lk[nlk].id = id; lk[nlk].owner = -1;
	return &lk[nlk++];
}
unsigned lockbits(const Th& t) {
	unsigned b = 0;
	for(int i = 0; i < t.nlocks; i++) for(int k = 0; k < nlk; k++) if(lk[k].id == t.locks[i]) b |= 1u << (k & 31);
	return b;
}

// ---- work shares
struct Ws { long key, next, end, incr, chunk; long done; int left; bool used; int wsid; long cnt[MAXT]; } *wsv = nullptr;
const int NWS = 64;
Ws *wsget(long id, bool& fresh) {
	if(!wsv) { wsv = (Ws*)mmap(0, sizeof(Ws)*NWS, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); }
	for(int i = 0; i < NWS; i++) if(wsv[i].used && wsv[i].key == id) { fresh = false; return &wsv[i]; }
	for(int i = 0; i < NWS; i++) if(!wsv[i].used) { memset(&wsv[i], 0, sizeof(Ws)); wsv[i].used = true; wsv[i].key = id; fresh = true; return &wsv[i]; }
	fprintf(stderr, "HARNESS-INTERNAL: too many work shares\n"); _exit(97);
}

// ---- shadow memory: open addressing on the 8-byte granule; records of the current epoch only
struct Rec { short t; u8 mask; u8 flags; unsigned locks; int grp; up pc; };   // flags: 1 write, 2 atomic
struct Gr { up a; unsigned epoch; short n, cap; Rec *r; Rec in[3]; };
const size_t HS = 1u << 20;
Gr *tab = nullptr;
unsigned epoch = 1;
size_t tabused = 0;

// Atomic operations are identified by thread and ordinal (a load and the compare-and-exchanges on the same address that
// follow it count as one), which does not depend on addresses; those on locations that several threads touch are marked.
const int MAXG = 1 << 15;
u8 *mark = nullptr; long nmark = 0;
bool xactive = false;          // the running region is the explored one
void mark_op(int t, int g) {
	if(!xactive || g <= 0 || g >= MAXG) return;
	u8& m = mark[(size_t)t*MAXG + g];
	if(!m) { m = 1; nmark++; }
}

ort::Race races[256]; long nrace = 0;

void conflict(const Rec& o, up a, int t, int fl, up pc) {
	for(long i = 0; i < nrace && i < 256; i++) if((races[i].pc1 == o.pc && races[i].pc2 == pc) || (races[i].pc1 == pc && races[i].pc2 == o.pc)) return;
	if(nrace < 256) {
		ort::Race& r = races[nrace];
		r.pc1 = o.pc; r.pc2 = pc; r.addr = a; r.t1 = o.t; r.t2 = t; r.w1 = o.flags & 1; r.w2 = fl & 1; r.a1 = (o.flags>>1)&1; r.a2 = (fl>>1)&1;
		r.region = (int)st.regions;
	}
	nrace++;
}

void granule(up g, u8 mask, int fl, up pc, unsigned locks, int grp) {
	if(!tab) tab = (Gr*)mmap(0, HS*sizeof(Gr), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	size_t h = (g*0x9E3779B97F4A7C15ull) >> 44;
	while(tab[h].a && tab[h].a != g) h = (h+1) & (HS-1);
	Gr& G = tab[h];
	if(!G.a) {
		if(++tabused > HS*3/4) { fprintf(stderr, "HARNESS-INTERNAL: shadow table full\n"); _exit(97); }
		G.a = g; G.r = G.in; G.cap = 3; G.n = 0; G.epoch = epoch;
	}
	if(G.epoch != epoch) { G.epoch = epoch; G.n = 0; }
	for(int i = 0; i < G.n; i++) {
		const Rec& o = G.r[i];
		if(o.t == g_cur) {
			// covered by an equal or stronger record of the same thread
			if((o.mask & mask) == mask && ((o.flags & 1) || !(fl & 1)) && (!(o.flags & 2) || (fl & 2)) && (o.locks & ~locks) == 0 && !(fl & 2)) {
				bool other = false;
				for(int k = i+1; k < G.n; k++) if(G.r[k].t != g_cur) other = true;
				if(!other) return;
			}
			continue;
		}
		if(!(o.mask & mask)) continue;
		if(fl & 2) mark_op(g_cur, grp);
		if(o.flags & 2) mark_op(o.t, o.grp);
		if(!((o.flags | fl) & 1)) continue;
		if((o.flags & fl) & 2) continue;
		if(o.locks & locks) continue;
		conflict(o, g << 3, g_cur, fl, pc);
	}
	for(int i = 0; i < G.n; i++) {
		const Rec& o = G.r[i];
		if(o.t == g_cur && o.mask == mask && o.flags == fl && o.locks == locks && o.grp == grp) return;
	}
	if(G.n == G.cap) {
		const int c = G.cap*3;
		Rec *r = (Rec*)malloc(c*sizeof(Rec));
		memcpy(r, G.r, G.n*sizeof(Rec));
		if(G.r != G.in) free(G.r);
		G.r = r; G.cap = (short)c;
	}
	Rec& r = G.r[G.n++];
	r.t = (short)g_cur; r.mask = mask; r.flags = (u8)fl; r.locks = locks; r.pc = pc; r.grp = grp;
}

inline void access(up a, size_t n, int fl, up pc, int grp = 0) {
	if(!g_in || !g_detect || g_busy || !n) return;
	Th& t = th[g_cur];
	if(t.noguard) return;
	// the thread's own stack is private unless its address is handed to others, which the regions' code never does
	if(a >= (up)t.stack && a < (up)t.stack + STK) return;
	g_busy = true;
	st.accesses++;
	const unsigned lb = t.nlocks ? lockbits(t) : 0;
	up e = a + n;
	while(a < e) {
		const up g = a >> 3;
		const unsigned o = (unsigned)(a & 7);
		unsigned k = 8 - o; if(k > e - a) k = (unsigned)(e - a);
		granule(g, (u8)(((1u << k) - 1) << o), fl, pc, lb, grp);
		a += k;
	}
	g_busy = false;
}

// ---- scheduling
int xregion = -1, xcur = 0, xn = 0, xpos = 0;
const int *xch = nullptr; bool xdiff = false;
const int MAXP = 200000;
ort::Point *xp = nullptr; int nxp = 0;
void fail(const char *m) { if(!err[0]) snprintf(err, sizeof err, "%s", m); }

bool enabled(int t) {
	if(th[t].state == RUN) return true;
	if(th[t].state == LOCK) return lock_of(th[t].want)->owner < 0;
	return false;
}

void switch_to(int t) {
	const int f = g_cur;
	if(t == f) return;
	st.switches++;
	g_cur = t;
	fb::swap(th[f].ctx, th[t].ctx);
}

/// Called by the running thread when it may (or must) give way
void resched(bool mustpoint) {
	const bool me = enabled(g_cur);
	if(xactive && (mustpoint || !me)) {
		int opt[MAXT], n = 0;
		if(me) opt[n++] = g_cur;
		for(int i = 1; i <= g_n; i++) { const int t = (g_cur + i) % g_n; if(t != g_cur && enabled(t)) opt[n++] = t; }
		if(n == 0) goto none;
		{
			int c = 0;
			if(n > 1) {
				if(xpos < xn) c = xch[xpos];
				if(c >= n) { xdiff = true; c = 0; }
				if(xpos < MAXP) { xp[xpos].nopt = n; xp[xpos].chosen = c; xp[xpos].running_enabled = me; }
				else { fprintf(stderr, "HARNESS-INTERNAL: too many scheduling points\n"); _exit(97); }
				xpos++; nxp = xpos; st.points++;
			}
			switch_to(opt[c]);
			return;
		}
	}
	if(me) return;
	for(int i = 1; i <= g_n; i++) { const int t = (g_cur + i) % g_n; if(enabled(t)) { switch_to(t); return; } }
none:
	// nobody can run: barrier release or deadlock
	{
		int nb = 0, nd = 0;
		for(int i = 0; i < g_n; i++) { nb += th[i].state == BARRIER; nd += th[i].state == DONE; }
		if(nb == g_n) {
			epoch++; st.barriers++;
			for(int i = 0; i < g_n; i++) th[i].state = RUN;
			const int f = g_cur;
			if(f != 0) switch_to(0);
			return;
		}
		if(nd == g_n) { const int f = g_cur; fb::swap(th[f].ctx, mainctx); return; }
		fail(nb ? "some threads wait at a barrier that others never reach" : "deadlock: threads wait for each other's locks");
		fprintf(stderr, "OMP: %s\n", err);
		_exit(77);
	}
}

void fibermain() {
	g_fn(g_data);
	th[g_cur].state = DONE;
	if(th[g_cur].nlocks) fail("thread ended inside a critical section");
	for(;;) resched(false);
}

void lock(void *id) {
	if(!g_in || g_nest) return;
	st.criticals++;
	Th& t = th[g_cur];
	for(int i = 0; i < t.nlocks; i++) if(t.locks[i] == id) { fail("critical section entered again inside itself"); fprintf(stderr, "OMP: %s\n", err); _exit(77); }
	if(g_n > 1 && xactive) resched(true);
	Lk *l = lock_of(id);
	while(l->owner >= 0) { t.state = LOCK; t.want = id; resched(false); }
	t.state = RUN;
	l->owner = g_cur;
	if(t.nlocks < 8) t.locks[t.nlocks++] = id;
}
void unlock(void *id) {
	if(!g_in || g_nest) return;
	Th& t = th[g_cur];
	lock_of(id)->owner = -1;
	for(int i = 0; i < t.nlocks; i++) if(t.locks[i] == id) { t.locks[i] = t.locks[--t.nlocks]; break; }
}

void barrier() {
	if(!g_in || g_nest) return;
	th[g_cur].state = BARRIER;
	resched(false);
	while(th[g_cur].state == BARRIER) resched(false);
}

int namelocks[1];   // identity of the unnamed critical lock and the atomic lock
int atomiclock[1];

// frees are put off to the end of the region so that addresses are not reused by another thread
void **defer = nullptr; long ndefer = 0, cdefer = 0;
bool put_off(void *p) {
	if(!g_in || g_busy || !p) return false;
	if(ndefer == cdefer) {
		const long c = cdefer ? cdefer*2 : 1024;
		void **d = (void**)mmap(0, c*sizeof(void*), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
		if(ndefer) memcpy(d, defer, ndefer*sizeof(void*));
		if(defer) munmap(defer, cdefer*sizeof(void*));
		defer = d; cdefer = c;
	}
	defer[ndefer++] = p;
	return true;
}

void parallel(void (*fn)(void*), void *data, unsigned nth) {
	if(g_in) {
		g_nest++;
		fn(data);
		g_nest--;
		return;
	}
	int n = nth ? (int)nth : g_team;
	if(n > MAXT) n = MAXT;
	st.regions++;
	xactive = xregion >= 0 && xcur == xregion;
	xcur++;
	if(n <= 1) { fn(data); xactive = false; return; }
	if(n > st.widest) st.widest = n;
	for(int i = 0; i < n; i++) {
		if(!th[i].stack) th[i].stack = (char*)mmap(0, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		fb::make(th[i].ctx, th[i].stack, STK, fibermain);
		th[i].state = RUN; th[i].nlocks = 0; th[i].ws = 0; th[i].noguard = 0; th[i].grp = 0; th[i].open = false;
	}
	nlk = 0;
	if(tabused > HS/4) {
		for(size_t i = 0; i < HS; i++) if(tab[i].a && tab[i].r != tab[i].in) free(tab[i].r);
		munmap(tab, HS*sizeof(Gr)); tab = nullptr; tabused = 0;
	}
	g_n = n; g_cur = 0; g_fn = fn; g_data = data;
	epoch++;
	g_in = true;
	fb::swap(mainctx, th[0].ctx);
	g_in = false;
	g_n = 1; g_cur = 0;
	xactive = false;
	if(wsv) for(int i = 0; i < NWS; i++) wsv[i].used = false;
	for(long i = 0; i < ndefer; i++) free(defer[i]);
	ndefer = 0;
}
} // namespace

namespace ort {
void team(int n) { g_team = n; }
int team() { return g_team; }
void detect(bool on) { g_detect = on; }
long nraces() { return nrace; }
Race race(long i) { return races[i]; }
void clear_races() { nrace = 0; }
Stats stats() { return st; }
void clear_stats() { memset(&st, 0, sizeof st); }
const char *error() { return err; }
void clear_error() { err[0] = 0; }
void clear_contended() {
	if(mark) munmap(mark, (size_t)MAXT*MAXG);
	mark = (u8*)mmap(0, (size_t)MAXT*MAXG, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	nmark = 0;
}
void begin_run(int region, const int *c, int n) {
	if(!xp) xp = (Point*)mmap(0, MAXP*sizeof(Point), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(!mark) clear_contended();
	xregion = region; xch = c; xn = n; xpos = 0; nxp = 0; xcur = 0; xdiff = false;
}
int npoints() { return nxp; }
Point point(int i) { return xp[i]; }
void end_run() { xregion = -1; }
void points_everywhere(bool on) { g_all = on; }
bool replay_differs() { return xdiff; }
int regions_run() { return xcur; }
long contended() { return nmark; }
void user_access(void *p, bool w, void *pc) { access((up)p, 8, w ? 1 : 0, (up)pc); }
}

#define PC ((up)__builtin_return_address(0))
extern "C" {
// ------------------------------------------------------------------ OpenMP
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nth, unsigned) { parallel(fn, data, nth); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void *data, unsigned nth, unsigned) { parallel(fn, data, nth); return nth ? nth : g_team; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { lock(namelocks); }
void GOMP_critical_end(void) { unlock(namelocks); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(atomiclock); }
void GOMP_atomic_end(void) { unlock(atomiclock); }

static bool solo() { return !g_in || g_nest; }
static long solo_next = 0, solo_end = 0, solo_incr = 1; static bool solo_on = false;

bool GOMP_single_start(void) {
	if(solo()) return true;
	bool fresh; Ws *w = wsget(++th[g_cur].ws, fresh);
	return fresh && (w->done = 1);
}
// loops with run-time scheduling: chunk k goes to thread k mod n, which every schedule kind but static allows and static is
static bool ws_take(Ws *w, long *s, long *e) {
	const long tid = g_cur;
	long total = w->incr > 0 ? (w->end - w->next + w->incr - 1)/w->incr : (w->next - w->end - w->incr - 1)/(-w->incr);
	if(total < 0) total = 0;
	const long chunk = w->chunk > 0 ? w->chunk : 1;
	const long k = w->cnt[tid]*g_n + tid;
	if(k*chunk >= total) return false;
	w->cnt[tid]++;
	const long hi = (k+1)*chunk < total ? (k+1)*chunk : total;
	*s = w->next + k*chunk*w->incr;
	*e = w->next + hi*w->incr;
	return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long *s, long *e, bool stat) {
	if(solo()) {
		if((incr > 0 && start >= end) || (incr < 0 && start <= end)) return false;
		*s = start; *e = end; solo_on = true; return true;
	}
	bool fresh; Ws *w = wsget(++th[g_cur].ws, fresh);
	if(fresh) {
		w->next = start; w->end = end; w->incr = incr; w->chunk = chunk;
		if(stat && chunk <= 0) { const long total = incr > 0 ? (end - start + incr - 1)/incr : (start - end - incr - 1)/(-incr); w->chunk = (total + g_n - 1)/g_n; }
	}
	return ws_take(w, s, e);
}
static bool loop_next(long *s, long *e) {
	if(solo()) { (void)solo_next; (void)solo_end; (void)solo_incr; return false; }
	bool fresh; Ws *w = wsget(th[g_cur].ws, fresh);
	return ws_take(w, s, e);
}
#define LOOPS(kind, stat) \
bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e, stat); } \
bool GOMP_loop_##kind##_next(long *s, long *e) { return loop_next(s, e); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void *data, unsigned nth, long a, long b, long i, long c, unsigned);
LOOPS(static, true) LOOPS(dynamic, false) LOOPS(guided, false) LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, false)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e, false); }
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e, false); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e, false); }
bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }

// combined forms: the work share is opened by the first thread that asks for its next chunk
struct Comb { void (*fn)(void*); void *data; long a, b, i, c; bool stat; };
static Comb comb;
static void comb_fn(void *) {
	// _next of the combined form refers to a work share that exists when the body starts
	bool fresh; Ws *w = wsget(++th[g_cur].ws, fresh);
	if(fresh) { w->next = comb.a; w->end = comb.b; w->incr = comb.i; w->chunk = comb.c; }
	comb.fn(comb.data);
}
static void *comb_solo_data;
static void comb_start(void (*fn)(void*), void *data, unsigned nth, long a, long b, long i, long c) {
	if(g_in || (nth ? (int)nth : g_team) <= 1) {
		// a team of two in which the work is dealt out like in any other
		if(g_in) { fprintf(stderr, "HARNESS-INTERNAL: nested run-time scheduled loop\n"); _exit(97); }
		(void)comb_solo_data;
		nth = 1;
	}
	const Comb old = comb;
	comb.fn = fn; comb.data = data; comb.a = a; comb.b = b; comb.i = i; comb.c = c;
	if(nth == 1) {
		// run as a real team of one
		g_in = true; g_n = 1; g_cur = 0; th[0].ws = 0; th[0].state = RUN; th[0].nlocks = 0; st.regions++; xcur++;
		const bool d = g_detect; g_detect = false;
		comb_fn(nullptr);
		g_detect = d;
		g_in = false;
		if(wsv) for(int k = 0; k < NWS; k++) wsv[k].used = false;
		for(long k = 0; k < ndefer; k++) free(defer[k]);
		ndefer = 0;
	}
	else parallel(comb_fn, nullptr, nth);
	comb = old;
}
#define PLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void *data, unsigned nth, long a, long b, long i, long c, unsigned) { comb_start(fn, data, nth, a, b, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void *data, unsigned nth, long a, long b, long i, unsigned) { comb_start(fn, data, nth, a, b, i, 1); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)

static unsigned sec_next() {
	if(solo()) return 0;
	bool fresh; Ws *w = wsget(th[g_cur].ws, fresh);
	const long k = w->cnt[g_cur]*g_n + g_cur;
	if(k >= w->end) return 0;
	w->cnt[g_cur]++;
	return (unsigned)k+1;
}
static unsigned solo_sec, solo_secn;
unsigned GOMP_sections_start(unsigned n) {
	if(solo()) { solo_sec = 0; solo_secn = n; return solo_sec < solo_secn ? ++solo_sec : 0; }
	bool fresh; Ws *w = wsget(++th[g_cur].ws, fresh);
	if(fresh) w->end = n;
	return sec_next();
}
unsigned GOMP_sections_next(void) { if(solo()) return solo_sec < solo_secn ? ++solo_sec : 0; return sec_next(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}

int omp_get_num_threads(void) { return solo() ? 1 : g_n; }
int omp_get_thread_num(void) { return solo() ? 0 : g_cur; }
int omp_get_max_threads(void) { return g_team; }
int omp_get_num_procs(void) { return g_team; }
int omp_in_parallel(void) { return g_in && g_n > 1; }
int omp_get_level(void) { return g_in ? 1 + g_nest : g_nest; }
void omp_set_num_threads(int n) { g_team = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
double omp_get_wtime(void) { static double t = 0; return t += 1e-3; }

// ------------------------------------------------------------------ accesses
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *p) { access((up)p, n, 0, PC); } \
void __tsan_write##n(void *p) { access((up)p, n, 1, PC); } \
void __tsan_unaligned_read##n(void *p) { access((up)p, n, 0, PC); } \
void __tsan_unaligned_write##n(void *p) { access((up)p, n, 1, PC); } \
void __tsan_volatile_read##n(void *p) { access((up)p, n, 0, PC); } \
void __tsan_volatile_write##n(void *p) { access((up)p, n, 1, PC); } \
void __tsan_unaligned_volatile_read##n(void *p) { access((up)p, n, 0, PC); } \
void __tsan_unaligned_volatile_write##n(void *p) { access((up)p, n, 1, PC); } \
void __tsan_read_write##n(void *p) { access((up)p, n, 0, PC); access((up)p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access((up)p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { access((up)p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { if(*p != v) access((up)p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { access((up)p, 8, 0, PC); }

static inline int apoint(void *p) {
	if(!g_in || g_nest || g_busy) return 0;
	Th& t = th[g_cur];
	if(!(t.open && t.last == p)) { t.grp++; t.open = true; t.last = p; }
	st.atomics++;
	const int g = t.grp;
	if(xactive && g_n > 1 && g < MAXG && (g_all || mark[(size_t)g_cur*MAXG + g])) resched(true);
	return g;
}
static inline void adone() { if(g_in) th[g_cur].open = false; }
#define AOP(n, f) const int gg = apoint((void*)p); access((up)p, n/8, f, PC, gg);
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *p, int) { AOP(n, 2) return *p; } \
void __tsan_atomic##n##_store(volatile T *p, T v, int) { AOP(n, 3) adone(); *p = v; } \
T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { AOP(n, 3) adone(); T o = *p; *p = ~(o & v); return o; } \
bool __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { AOP(n, 3) if(*p == *c) { *p = v; adone(); return true; } *c = *p; return false; } \
bool __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { AOP(n, 3) if(*p == *c) { *p = v; adone(); return true; } *c = *p; return false; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) { AOP(n, 3) T o = *p; if(o == c) { *p = v; adone(); } return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ library functions called by instrumented code
void *__real_memcpy(void*, const void*, size_t);
void *__real_memmove(void*, const void*, size_t);
void *__real_memset(void*, int, size_t);
void __real_free(void*);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if(g_in) { access((up)s, n, 0, PC); access((up)d, n, 1, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if(g_in) { access((up)s, n, 0, PC); access((up)d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if(g_in) access((up)d, n, 1, PC); return __real_memset(d, c, n); }
void __wrap_free(void *p) { if(put_off(p)) return; __real_free(p); }

// initialisation of function-local statics is synchronised by the language
int __real___cxa_guard_acquire(long*);
void __real___cxa_guard_release(long*);
int __wrap___cxa_guard_acquire(long *g) { const int r = __real___cxa_guard_acquire(g); if(r && g_in) th[g_cur].noguard++; return r; }
void __wrap___cxa_guard_release(long *g) { __real___cxa_guard_release(g); if(g_in) th[g_cur].noguard--; }
}

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

// PETSc objects changed in place by several threads: one access to the object per call. An object of libpetsc is not
// thread-safe, so a call is a write of the whole object.
#include <petscmat.h>
#define WR(name, args, call, obj) extern "C" PetscErrorCode __real_##name args; extern "C" PetscErrorCode __wrap_##name args { access((up)obj, 8, 1, PC); return __real_##name call; }
#define RD(name, args, call, obj) extern "C" PetscErrorCode __real_##name args; extern "C" PetscErrorCode __wrap_##name args { access((up)obj, 8, 0, PC); return __real_##name call; }
#define MV (Mat m, PetscInt a, const PetscInt *b, PetscInt c, const PetscInt *d, const PetscScalar *e, InsertMode f), (m, a, b, c, d, e, f), m
#define X_(M, n, ...) M(n, __VA_ARGS__)
X_(WR, MatSetValues, MV) X_(WR, MatSetValuesBlocked, MV) X_(WR, MatSetValuesLocal, MV) X_(WR, MatSetValuesBlockedLocal, MV)
#define VV (Vec v, PetscInt a, const PetscInt *b, const PetscScalar *c, InsertMode f), (v, a, b, c, f), v
X_(WR, VecSetValues, VV) X_(WR, VecSetValuesBlocked, VV) X_(WR, VecSetValuesLocal, VV)
#define VG (Vec v, PetscScalar **a), (v, a), v
X_(WR, VecGetArray, VG) X_(WR, VecRestoreArray, VG)
