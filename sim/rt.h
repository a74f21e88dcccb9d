// Deterministic simulator for the OpenELP sources: cooperative threads, virtual
// time, virtual network, checked heap, event recorder.  See DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <memory>
#include <functional>

typedef std::function<bool()> Pred;

struct Thread {
	int id = 0;
	std::string name;
	void *sp = nullptr;
	char *stk = nullptr;
	size_t stksz = 0;
	enum { RUN, BLOCKED, DONE } state = RUN;
	Pred pred;
	uint64_t deadline = 0;       // 0 = none (virtual ms)
	bool intr = false;           // blocking call can be interrupted by a signal
	bool syswait = false;        // waiting inside a simulated system call
	int err = 0;                 // saved errno
	int depth = 0;               // >0: inside runtime (no preemption on memory access)
	int prio = 0;
	int park = 0;                // >0: not scheduled until that many settles passed
	bool env = false;            // environment thread
	bool settling = false;
	std::function<void()> entry;
	void *(*pfn)(void *) = nullptr;
	void *parg = nullptr;
	void *ret = nullptr;
	bool joined = false, detached = false;
	bool in_handler = false;
	const char *why = "";
	const void *waiton = nullptr;
};

extern Thread *cur;
extern std::vector<Thread *> threads;
extern uint64_t now_ms;           // virtual clock (monotone)
extern uint64_t nyield;           // scheduling points passed
extern bool run_over;

struct RtScope { RtScope() { cur->depth++; } ~RtScope() { cur->depth--; } };

enum { Y_SYNC = 0, Y_MEM = 1 };
void yield_point(int kind);
// Block the current thread until pred holds; returns false when the deadline passed,
// sets *intr when interrupted by a signal (only if intr != null).
bool block_until(Pred p, const char *why, uint64_t deadline = 0, bool *intr = nullptr, const void *on = nullptr);
Thread *spawn(const std::string &name, std::function<void()> f, bool env = false, size_t stk = 0);
void env_settle(bool hard);
void run_all();
void set_policy(const std::string &p);
void deliver_signals();
void post_signal(int sig);
extern uint64_t alarm_at;
void alarm_check();

// recorder ------------------------------------------------------------------
struct Ev {
	std::string s;
	Ev(const char *e) { s = "{\"e\":\""; s += e; s += "\""; }
	Ev &i(const char *k, long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
	Ev &t(const char *k, const std::string &v);
	Ev &raw(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
	void put();
};
extern std::vector<std::string> evlog;
int intern(const std::string &bytes);
void finish_run(const char *how);       // write the trace and _exit
std::string jstr(const std::string &v);
void memerr(const char *what, const char *how);
void lib_error(const char *what, const char *how);

// faults --------------------------------------------------------------------
struct Fault { std::string kind; int nth; int err; int arg; };
extern std::vector<Fault> faults;
int take_fault(const char *kind, int *arg = nullptr);   // 0 or errno
extern int fault_c, fault_s;      // client / external address the next call concerns

// heap ----------------------------------------------------------------------
void mem_init();
void chk(const void *p, size_t n, bool w, const char *how);
bool in_arena(const void *p);
char *stack_alloc(size_t n);
size_t heap_live(std::string *detail);
extern bool mem_track;

// network -------------------------------------------------------------------
int net_open_fds(std::string *detail);
uint64_t rnd64();
void rnd_seed(uint64_t s);
extern std::map<std::string, std::string> cfg;
extern std::map<std::string, std::string> inforce;   // the configuration the proxy was last opened with
extern std::string oldpw;                             // the password before that
long inforce_port();
long cfgi(const char *k, long d);

// io -------------------------------------------------------------------------
extern std::map<std::string, std::string> vfiles;
int io_open_files(std::string *detail);
extern int lib_live;                    // live pcre2 objects

extern std::vector<std::string> steps;
void harness_main();
[[noreturn]] void sim_exit_run(int code);
