// Cooperative scheduler, pthread simulation, signals, recorder.
#include "rt.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

Thread *cur;
std::vector<Thread *> threads;
uint64_t now_ms = 1700000000000ull;
uint64_t nyield;
bool run_over;
std::vector<std::string> evlog;
static Thread mainThread;
static std::string last_how;

// ---- context switch ---------------------------------------------------------
extern "C" void ctx_switch(void **from, void *to);
asm(R"(
.text
.globl ctx_switch
ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
static void trampoline()
{
	cur->entry();
	cur->state = Thread::DONE;
	extern void sched_switch(bool);
	cur->depth = 1;
	sched_switch(true);
	abort();
}

static uint64_t rs = 88172645463325252ull;
void rnd_seed(uint64_t s) { rs = s * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 4; i++) rnd64(); }
uint64_t rnd64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }

// ---- policy -------------------------------------------------------------------
static char pol = 'B';
static double pswitch = 0;
std::function<bool()> settle_pred;
static std::vector<uint64_t> change;    // PCT change points
static size_t nextc = 0;
static uint64_t xk = 0;
static int xt = 0;
static uint64_t max_yield = 3000000;
bool spurious = false;

void set_policy(const std::string &p)
{
	// B | R:seed:percent | P:seed:d:K | X:k:t | E:seed:percent (as R, but nobody runs before the environment waits)
	std::vector<std::string> f;
	size_t b = 0;
	while (b <= p.size()) {
		size_t e = p.find(':', b);
		if (e == std::string::npos) e = p.size();
		f.push_back(p.substr(b, e - b));
		b = e + 1;
	}
	pol = p.empty() ? 'B' : p[0];
	auto num = [&](size_t i, uint64_t d) { return f.size() > i && !f[i].empty() ? strtoull(f[i].c_str(), 0, 10) : d; };
	if (pol == 'R' || pol == 'E') { rnd_seed(num(1, 1)); pswitch = num(2, 20) / 100.0; spurious = num(3, 0); }
	if (pol == 'P') {
		rnd_seed(num(1, 1));
		uint64_t d = num(2, 2), K = num(3, 2000);
		for (uint64_t i = 0; i < d; i++) change.push_back(rnd64() % (K + 1));
		std::sort(change.begin(), change.end());
		spurious = num(4, 0);
	}
	if (pol == 'X') { xk = num(1, 0); xt = (int)num(2, 0); }
}

Thread *spawn(const std::string &name, std::function<void()> f, bool env, size_t stk)
{
	Thread *t = new Thread;
	t->id = (int)threads.size();
	t->name = name;
	t->env = env;
	t->entry = f;
	if (stk < 1024 * 1024) stk = 1024 * 1024;
	t->stksz = stk;
	t->stk = stack_alloc(stk + 4096);
	mprotect(t->stk, 4096, PROT_NONE);
	uintptr_t top = ((uintptr_t)t->stk + stk + 4096) & ~15ull;
	void **sp = (void **)top;
	*--sp = 0;
	*--sp = (void *)trampoline;
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->sp = sp;
	t->prio = pol == 'P' ? (int)(rnd64() % 1000) + 100 : 0;
	threads.push_back(t);
	return t;
}

static bool sigs_for(Thread *t);
static bool can_run(Thread *t)
{
	if (t->state == Thread::RUN) return !t->settling;
	if (t->state == Thread::BLOCKED) {
		if (t->pred && t->pred()) return true;
		if (t->deadline && now_ms >= t->deadline) return true;
		if (sigs_for(t)) return true;
	}
	return false;
}

void sched_switch(bool must)
{
	(void)must;
	std::vector<Thread *> c, parked;
	Thread *settler = nullptr;
	for (Thread *t : threads) {
		if (t->settling) { settler = t; continue; }
		if (!can_run(t)) continue;
		(t->park ? parked : c).push_back(t);
	}
	Thread *n = nullptr;
	if (settler && (c.empty() || (settle_pred && settle_pred()))) {
		n = settler;
	} else if (c.empty() && !parked.empty()) {
		for (Thread *t : parked) t->park = 0;
		c = parked;
	}
	if (!n) {
		if (c.empty()) {
			// nothing can ever run again
			finish_run("stuck");
		}
		if (pol == 'P') {
			n = c[0];
			for (Thread *t : c) if (t->prio > n->prio) n = t;
		} else if (pol == 'R' || pol == 'E') {
			n = c[rnd64() % c.size()];
			if (pol == 'E') for (Thread *t : c) if (t->env) n = t;
		} else {
			// round robin from current
			n = c[0];
			for (Thread *t : c) if (t->id > cur->id) { n = t; break; }
		}
	}
	if (n == cur) { n->state = Thread::RUN; return; }
	Thread *o = cur;
	o->err = errno;
	cur = n;
	n->state = Thread::RUN;
	ctx_switch(&o->sp, n->sp);
	errno = cur->err;
}

void yield_point(int kind)
{
	if (run_over || !cur) return;
	uint64_t k = nyield++;
	if (nyield > max_yield) finish_run("hang");
	if (sigs_for(cur)) deliver_signals();
	switch (pol) {
	case 'B': return;
	case 'R':
		if (kind == Y_SYNC ? (rnd64() % 1000 < pswitch * 1000) : (rnd64() % 4000 < pswitch * 100)) {
			cur->depth++; sched_switch(false); cur->depth--;
		}
		break;
	case 'E':
		if (!cur->env && ((settle_pred && settle_pred()) || (kind == Y_SYNC ? (rnd64() % 1000 < pswitch * 1000) : (rnd64() % 4000 < pswitch * 100)))) {
			cur->depth++; sched_switch(false); cur->depth--;
		}
		break;
	case 'P': {
		bool sw = false;
		while (nextc < change.size() && change[nextc] <= k) {
			nextc++;
			if (!cur->env) cur->park = 1 + rnd64() % 4;
			cur->prio = (int)(change.size() - nextc);
			sw = true;
		}
		if (sw || kind == Y_SYNC) {
			cur->depth++; sched_switch(false); cur->depth--;
		}
		break;
	}
	case 'X':
		if (k == xk) {
			if (!cur->env) cur->park = 1 + xt % 4;
			cur->depth++; sched_switch(false); cur->depth--;
		}
		break;
	}
	if (sigs_for(cur)) deliver_signals();
}

static bool last_restart;
bool block_until(Pred p, const char *why, uint64_t deadline, bool *intr, const void *on)
{
	if (run_over) return true;
	cur->depth++;
	bool ok = true;
	while (true) {
		if (p()) break;
		if (deadline && now_ms >= deadline) { ok = false; break; }
		if (sigs_for(cur)) {
			int d = cur->depth; cur->depth = 0;
			deliver_signals();
			cur->depth = d;
			if (intr && (!last_restart || !strcmp(why, "sleep") || !strcmp(why, "pause"))) { *intr = true; break; }
			continue;
		}
		cur->state = Thread::BLOCKED;
		cur->pred = p;
		cur->deadline = deadline;
		cur->why = why;
		cur->waiton = on;
		sched_switch(true);
	}
	cur->pred = nullptr;
	cur->deadline = 0;
	cur->why = "";
	cur->depth--;
	return ok;
}

// Environment waits until nobody else can run.  soft: parked threads do not count.
void env_settle(bool hard)
{
	if (hard) for (Thread *t : threads) t->park = 0;
	cur->settling = true;
	cur->depth++;
	sched_switch(true);
	if (hard) {
		// parked ones may have appeared meanwhile
		while (true) {
			bool any = false;
			for (Thread *t : threads) if (t != cur && can_run(t)) { t->park = 0; any = true; }
			if (!any) break;
			sched_switch(true);
		}
	}
	cur->settling = false;
	cur->depth--;
	for (Thread *t : threads) if (t->park) t->park--;
}

void run_all()
{
	cur = &mainThread;
	mainThread.name = "root";
	mainThread.state = Thread::DONE;
	mainThread.id = -1;
	mainThread.depth = 1;
	sched_switch(true);
}

// ---- recorder -------------------------------------------------------------------
std::string jstr(const std::string &v)
{
	std::string o = "\"";
	for (unsigned char ch : v) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += (char)ch;
	}
	return o + "\"";
}
Ev &Ev::t(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += jstr(v); return *this; }
void Ev::put()
{
	if (run_over) return;
	if (evlog.size() < 4000) evlog.push_back(s + "}");
	else finish_run("hang");
}
static std::map<std::string, int> interned;
int intern(const std::string &b)
{
	auto it = interned.find(b);
	if (it != interned.end()) return it->second;
	int n = (int)interned.size() + 1;
	interned[b] = n;
	return n;
}

static std::map<std::string, int> memerr_seen;
void memerr(const char *what, const char *how)
{
	std::string k = std::string(what) + "/" + how;
	if (memerr_seen[k]++) return;
	Ev("memerr").t("what", what).t("how", how).t("thr", cur ? cur->name : "?").put();
}
void lib_error(const char *what, const char *how) { memerr(what, how); }

// ---- faults ---------------------------------------------------------------------
std::vector<Fault> faults;
int fault_c, fault_s;
int take_fault(const char *kind, int *arg)
{
	for (size_t i = 0; i < faults.size(); i++) {
		Fault &f = faults[i];
		if (f.kind != kind || f.nth <= 0) continue;
		if (--f.nth == 0) {
			int e = f.err;
			if (arg) *arg = f.arg;
			if (e) Ev("fault").t("k", kind).i("err", e).i("c", fault_c).i("s", fault_s).put();
			faults.erase(faults.begin() + i);
			return e ? e : -1;
		}
		return 0;
	}
	return 0;
}

// ---- signals --------------------------------------------------------------------
static std::vector<int> sigq;
static uint64_t sigmask_all[64];        // per thread id mask (bit per signal)
static struct sigaction sigact[65];
static Thread *sig_main;
void set_signal_thread(Thread *t) { sig_main = t; }
static uint64_t &maskof(Thread *t) { return sigmask_all[t->id & 63]; }
static bool deliverable(Thread *t, int s)
{
	return !(maskof(t) >> s & 1) && !(t->in_handler);
}
static bool sigs_for(Thread *t)
{
	if (sigq.empty() || !sig_main || t->env) return false;
	for (int s : sigq) {
		if (!deliverable(t, s)) continue;
		// a signal sent to the process goes to the main thread if that accepts it
		if (t != sig_main && sig_main->state != Thread::DONE && !(maskof(sig_main) >> s & 1)) continue;
		return true;
	}
	return false;
}
uint64_t alarm_at;
void alarm_check() { if (alarm_at && now_ms >= alarm_at) { alarm_at = 0; post_signal(SIGALRM); } }
void post_signal(int s) { if (std::find(sigq.begin(), sigq.end(), s) == sigq.end()) sigq.push_back(s); }
void deliver_signals()
{
	if (run_over) return;
	last_restart = true;
	for (size_t i = 0; i < sigq.size();) {
		int s = sigq[i];
		if (!deliverable(cur, s)) { i++; continue; }
		sigq.erase(sigq.begin() + i);
		struct sigaction &sa = sigact[s];
		if (!sa.sa_sigaction && !sa.sa_handler) {
			Ev("killed").i("sig", s).put();
			finish_run("exit");
		}
		if (sa.sa_handler == SIG_IGN) continue;
		if (s != SIGALRM) Ev("sighandler").i("sig", s).put();
		if (!(sa.sa_flags & SA_RESTART)) last_restart = false;
		int e = errno;
		siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s;
		int d = cur->depth; cur->depth = 0;
		cur->in_handler = true;
		if (sa.sa_flags & SA_SIGINFO) sa.sa_sigaction(s, &si, nullptr);
		else sa.sa_handler(s);
		cur->in_handler = false;
		cur->depth = d;
		errno = e;
		i = 0;
	}
}
bool sig_restart(int) { return false; }

extern "C" {
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	if (o) *o = sigact[s];
	if (a) sigact[s] = *a;
	yield_point(Y_SYNC);
	return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h)
{
	struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART;
	sh_t o = sigact[s].sa_handler;
	sigact[s] = a;
	return o;
}
int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
	uint64_t &m = maskof(cur);
	if (old) { sigemptyset(old); for (int s = 1; s < 64; s++) if (m >> s & 1) sigaddset(old, s); }
	if (set) {
		uint64_t v = 0;
		for (int s = 1; s < 64; s++) if (sigismember(set, s) == 1) v |= 1ull << s;
		if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else m = v;
	}
	yield_point(Y_SYNC);
	return 0;
}
int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old) { return sim_pthread_sigmask(how, set, old); }
static bool sig_in(const sigset_t *set, int *out)
{
	for (size_t i = 0; i < sigq.size(); i++)
		if (sigismember(set, sigq[i]) == 1) { *out = (int)i; return true; }
	return false;
}
int sim_sigwait(const sigset_t *set, int *sig)
{
	RtScope r;
	yield_point(Y_SYNC);
	int i = -1;
	block_until([&] { return sig_in(set, &i); }, "sigwait");
	sig_in(set, &i);
	*sig = sigq[i];
	sigq.erase(sigq.begin() + i);
	return 0;
}
int sim_sigwaitinfo(const sigset_t *set, siginfo_t *info)
{
	int s; sim_sigwait(set, &s);
	if (info) { memset(info, 0, sizeof *info); info->si_signo = s; }
	return s;
}
unsigned sim_alarm(unsigned s)
{
	RtScope r;
	yield_point(Y_SYNC);
	unsigned left = alarm_at ? (unsigned)((alarm_at - now_ms + 999) / 1000) : 0;
	alarm_at = s ? now_ms + s * 1000ull : 0;
	return left;
}
int sim_pthread_kill(pthread_t t, int s) { (void)t; if (s) post_signal(s); yield_point(Y_SYNC); return 0; }
int sim_raise(int s) { post_signal(s); yield_point(Y_SYNC); return 0; }
int sim_kill(int, int s) { if (s) post_signal(s); yield_point(Y_SYNC); return 0; }
int sim_pause(void)
{
	RtScope r;
	bool intr = false;
	block_until([] { return false; }, "pause", 0, &intr);
	errno = EINTR;
	return -1;
}
int sim_sigsuspend(const sigset_t *) { return sim_pause(); }

// ---- pthread mutex / cond --------------------------------------------------------
}
struct SMutex { Thread *owner = nullptr; bool live = false; bool recursive = false; int cnt = 0; int waiters = 0; };
struct SWaiter { Thread *t; bool woken; };
struct SCond { bool live = false; std::deque<SWaiter *> q; };
struct SRw { bool live = false; Thread *w = nullptr; int readers = 0; };
static std::unordered_map<const void *, SMutex> mtx;
static std::unordered_map<const void *, SCond> cnd;
static std::unordered_map<const void *, SRw> rwl;
static std::unordered_map<const void *, int> oncev;
static std::map<int, std::map<unsigned, void *>> tls;

size_t live_locks() { size_t n = 0; for (auto &x : mtx) n += x.second.live; for (auto &x : cnd) n += x.second.live; return n; }

static SMutex &M(const void *p, const char *how)
{
	SMutex &m = mtx[p];
	if (!m.live) {
		bool zero = true;
		chk(p, sizeof(pthread_mutex_t), false, how);
		for (size_t i = 0; i < sizeof(pthread_mutex_t); i++) if (((const char *)p)[i]) zero = false;
		if (in_arena(p) || !zero) memerr("lock used while not initialised", how);
		m.live = true;
		m.owner = nullptr;
	}
	return m;
}
static SCond &C(const void *p, const char *how)
{
	SCond &c = cnd[p];
	if (!c.live) {
		chk(p, sizeof(pthread_cond_t), false, how);
		if (in_arena(p)) memerr("condition used while not initialised", how);
		c.live = true;
	}
	return c;
}
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	RtScope r;
	int e = take_fault("mutex_init"); if (e > 0) return e;
	chk(m, sizeof *m, true, "pthread_mutex_init");
	SMutex s; s.live = true;
	if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); s.recursive = k == PTHREAD_MUTEX_RECURSIVE; }
	if (mtx.count(m) && mtx[m].live && in_arena(m)) memerr("lock initialised twice", "pthread_mutex_init");
	mtx[m] = s;
	memset(m, 0, sizeof *m);
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	RtScope r;
	SMutex &s = M(m, "pthread_mutex_destroy");
	if (s.owner || s.waiters) memerr("lock destroyed while in use", "pthread_mutex_destroy");
	s.live = false;
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
	RtScope r;
	yield_point(Y_SYNC);
	SMutex &s = M(m, "pthread_mutex_lock");
	if (s.owner == cur && s.recursive) { s.cnt++; return 0; }
	s.waiters++;
	SMutex *sp = &s;
	block_until([sp] { return !sp->owner; }, "mutex", 0, nullptr, m);
	sp->waiters--;
	if (!sp->live) memerr("lock acquired after it was destroyed", "pthread_mutex_lock");
	sp->owner = cur;
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
	RtScope r;
	yield_point(Y_SYNC);
	SMutex &s = M(m, "pthread_mutex_trylock");
	if (s.owner) return EBUSY;
	s.owner = cur;
	return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
	RtScope r;
	yield_point(Y_SYNC);
	SMutex &s = M(m, "pthread_mutex_unlock");
	if (s.owner != cur) { memerr("lock released by a thread that does not hold it", "pthread_mutex_unlock"); if (!s.owner) return 0; }
	if (s.cnt) { s.cnt--; return 0; }
	s.owner = nullptr;
	yield_point(Y_SYNC);
	return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	RtScope r;
	yield_point(Y_SYNC);
	SMutex *s = &M(m, "pthread_mutex_timedlock");
	uint64_t d = (uint64_t)ts->tv_sec * 1000 + ts->tv_nsec / 1000000;
	if (!block_until([s] { return !s->owner; }, "mutex", d)) return ETIMEDOUT;
	s->owner = cur;
	return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
	RtScope r;
	int e = take_fault("cond_init"); if (e > 0) return e;
	chk(c, sizeof *c, true, "pthread_cond_init");
	memset(c, 0, sizeof *c);
	cnd[c] = SCond();
	cnd[c].live = true;
	return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
	RtScope r;
	SCond &s = C(c, "pthread_cond_destroy");
	if (!s.q.empty()) memerr("condition destroyed while in use", "pthread_cond_destroy");
	s.live = false;
	return 0;
}
extern bool spurious_on();
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline, const char *how)
{
	RtScope r;
	yield_point(Y_SYNC);
	SMutex *s = &M(m, how);
	SCond *k = &C(c, how);
	if (s->owner != cur) memerr("condition wait without holding the lock", how);
	SWaiter w{cur, false};
	extern bool spurious;
	if (spurious && rnd64() % 8 == 0) w.woken = true; else k->q.push_back(&w);
	s->owner = nullptr;
	if (w.woken) yield_point(Y_SYNC);
	SWaiter *wp = &w;
	bool ok = block_until([wp] { return wp->woken; }, "cond", deadline, nullptr, c);
	if (!w.woken) for (size_t i = 0; i < k->q.size(); i++) if (k->q[i] == &w) { k->q.erase(k->q.begin() + i); break; }
	if (!k->live) memerr("condition destroyed during a wait", how);
	s->waiters++;
	block_until([s] { return !s->owner; }, "mutex", 0, nullptr, m);
	s->waiters--;
	if (!s->live) memerr("lock acquired after it was destroyed", how);
	s->owner = cur;
	return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0, "pthread_cond_wait"); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { memerr("invalid time given to a timed wait", "pthread_cond_timedwait"); return EINVAL; }
	uint64_t d = (uint64_t)ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000;
	if (!d) d = 1;
	return cwait(c, m, d, "pthread_cond_timedwait");
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return sim_pthread_cond_timedwait(c, m, ts); }
int sim_pthread_cond_signal(pthread_cond_t *c)
{
	RtScope r;
	yield_point(Y_SYNC);
	SCond &k = C(c, "pthread_cond_signal");
	if (!k.q.empty()) {
		size_t i = 0;
		extern uint64_t rnd64();
		if (pol != 'B' && pol != 'X') i = rnd64() % k.q.size();
		k.q[i]->woken = true;
		k.q.erase(k.q.begin() + i);
	}
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
	RtScope r;
	yield_point(Y_SYNC);
	SCond &k = C(c, "pthread_cond_broadcast");
	for (SWaiter *w : k.q) w->woken = true;
	k.q.clear();
	return 0;
}
// rwlocks (not used by the current sources; here so that a rewrite keeps working)
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { RtScope r; chk(l, sizeof *l, true, "rwlock_init"); memset(l, 0, sizeof *l); rwl[l] = SRw(); rwl[l].live = true; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { RtScope r; SRw &s = rwl[l]; if (s.w || s.readers) memerr("lock destroyed while in use", "rwlock_destroy"); s.live = false; return 0; }
static SRw *RW(pthread_rwlock_t *l) { SRw &s = rwl[l]; if (!s.live) { if (in_arena(l)) memerr("lock used while not initialised", "rwlock"); s.live = true; } return &s; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { RtScope r; yield_point(Y_SYNC); SRw *s = RW(l); block_until([s] { return !s->w; }, "rdlock", 0, nullptr, l); s->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { RtScope r; yield_point(Y_SYNC); SRw *s = RW(l); block_until([s] { return !s->w && !s->readers; }, "wrlock", 0, nullptr, l); s->w = cur; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { RtScope r; SRw *s = RW(l); if (s->w) return EBUSY; s->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { RtScope r; SRw *s = RW(l); if (s->w || s->readers) return EBUSY; s->w = cur; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	RtScope r; yield_point(Y_SYNC);
	SRw *s = RW(l);
	if (s->w == cur) s->w = nullptr;
	else if (s->readers > 0) s->readers--;
	else memerr("lock released by a thread that does not hold it", "rwlock_unlock");
	return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { return sim_pthread_mutex_init((pthread_mutex_t *)(void *)l, 0); }

// ---- threads -----------------------------------------------------------------------
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	RtScope r;
	yield_point(Y_SYNC);
	int e = take_fault("pthread_create"); if (e > 0) return e;
	size_t st = 0;
	if (a) pthread_attr_getstacksize(a, &st);
	Thread *n = spawn("t" + std::to_string(threads.size()), nullptr, false, st);
	maskof(n) = maskof(cur);
	n->pfn = fn; n->parg = arg;
	n->entry = [n] { n->ret = n->pfn(n->parg); };
	if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); n->detached = ds == PTHREAD_CREATE_DETACHED; }
	chk(t, sizeof *t, true, "pthread_create");
	*t = (pthread_t)(n->id + 1000);
	yield_point(Y_SYNC);
	return 0;
}
static Thread *T(pthread_t t) { long i = (long)t - 1000; return i >= 0 && i < (long)threads.size() ? threads[i] : nullptr; }
int sim_pthread_join(pthread_t t, void **ret)
{
	RtScope r;
	yield_point(Y_SYNC);
	Thread *n = T(t);
	if (!n || n->joined || n->detached) { memerr("join of a thread that is not joinable", "pthread_join"); return EINVAL; }
	if (n == cur) return EDEADLK;
	block_until([n] { return n->state == Thread::DONE; }, "join", 0, nullptr, n);
	n->joined = true;
	if (ret) *ret = n->ret;
	return 0;
}
int sim_pthread_detach(pthread_t t) { Thread *n = T(t); if (!n) return ESRCH; n->detached = true; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)(cur->id + 1000); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_cancel(pthread_t) { return 0; }
void sim_pthread_exit(void *v) { cur->ret = v; cur->state = Thread::DONE; cur->depth = 1; sched_switch(true); abort(); }
int sim_sched_yield(void) { RtScope r; yield_point(Y_SYNC); if (pol == 'B' || pol == 'X') sched_switch(false); return 0; }
int sim_pthread_yield(void) { return sim_sched_yield(); }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { if (!oncev[o]) { oncev[o] = 1; f(); } return 0; }
int sim_pthread_key_create(pthread_key_t *k, void (*)(void *)) { static unsigned n = 1; *k = n++; return 0; }
int sim_pthread_key_delete(pthread_key_t) { return 0; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { tls[cur->id][k] = (void *)v; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { return tls[cur->id][k]; }

// ---- time ---------------------------------------------------------------------------
time_t sim_time(time_t *t) { time_t v = (time_t)(now_ms / 1000); if (t) *t = v; return v; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { chk(ts, sizeof *ts, true, "clock_gettime"); ts->tv_sec = now_ms / 1000; ts->tv_nsec = (now_ms % 1000) * 1000000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = now_ms / 1000; tv->tv_usec = (now_ms % 1000) * 1000; return 0; }
static int sleep_ms(uint64_t ms)
{
	RtScope r;
	yield_point(Y_SYNC);
	bool intr = false;
	block_until([] { return false; }, "sleep", now_ms + (ms ? ms : 1), &intr);
	if (intr) { errno = EINTR; return -1; }
	return 0;
}
int sim_usleep(unsigned us) { return sleep_ms((us + 999) / 1000); }
unsigned sim_sleep(unsigned s) { return sleep_ms(s * 1000ull) < 0 ? s : 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { return sleep_ms(a->tv_sec * 1000ull + (a->tv_nsec + 999999) / 1000000); }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec *a, struct timespec *)
{
	uint64_t ms = a->tv_sec * 1000ull + (a->tv_nsec + 999999) / 1000000;
	if (fl) ms = ms > now_ms ? ms - now_ms : 0;
	return sleep_ms(ms) < 0 ? EINTR : 0;
}
}

std::string blocked_report()
{
	std::string s;
	for (Thread *t : threads)
		if (t->state == Thread::BLOCKED && !t->env) s += t->name + ":" + t->why + " ";
	return s;
}
