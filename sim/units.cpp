// Unit modes: the same cooperative scheduler, but the user calls the parts directly.
#include "units.h"
#include "net.h"
#include <arpa/inet.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
#include "openelp/openelp.h"
#include "worker.h"
#include "mutex.h"
#include "log.h"
#include "conn.h"
#include "conf.h"
#include "proxy_client.h"
#include "digest.h"
#include "rand.h"
void *sim_calloc(size_t, size_t);
void *sim_malloc(size_t);
void sim_free(void *);
}
bool common_step(const std::vector<std::string> &w);
void end_event();
std::string unhex(const std::string &h);

typedef std::vector<std::string> Op;
struct User { std::deque<Op> q; bool busy = false; std::string f; Thread *t = nullptr; };
static std::map<int, User> users;
static std::function<void(int, const Op &)> doop;
static std::string umode;
static uint64_t T0;
static long ms() { return (long)(now_ms - T0); }
static long num(const Op &w, size_t i, long d = 0) { return w.size() > i ? strtol(w[i].c_str(), 0, 10) : d; }
static std::string str(const Op &w, size_t i, const char *d = "") { return w.size() > i ? w[i] : d; }

static void user_thread(int k)
{
	User &u = users[k];
	while (true) {
		block_until([&u] { return !u.q.empty(); }, "nothing to do");
		Op o = u.q.front();
		u.q.pop_front();
		u.busy = true;
		doop(k, o);
		u.busy = false;
	}
}
static User &user(int k)
{
	User &u = users[k];
	if (!u.t) u.t = spawn("u" + std::to_string(k), [k] { user_thread(k); });
	return u;
}
static void call(int t, const char *f, long a = 0) { Ev("call").i("t", t).t("f", f).i("a", a).i("ms", ms()).put(); }
static int ret(int t, const char *f, int r, long x = 0) { Ev("ret").i("t", t).t("f", f).i("r", r).i("x", x).i("ms", ms()).put(); return r; }

static void env_unit(std::function<void()> fini)
{
	for (auto &l : steps) {
		Op w = words(l);
		if (w.empty()) continue;
		cur->depth++;
		if (w[0] == "do") { User &u = user((int)num(w, 1)); u.q.push_back(Op(w.begin() + 2, w.end())); }
		else if (w[0] == "Q") { env_settle(true); Ev("Q").i("ms", ms()).put(); }
		else if (w[0] == "keep") ;
		else if (w[0] == "tick") { env_settle(true); common_step(w); }
		else if (!common_step(w)) { fprintf(stderr, "bad step: %s\n", l.c_str()); _exit(4); }
		cur->depth--;
		yield_point(Y_SYNC);
	}
	cur->depth++;
	env_settle(true);
	cur->depth--;
	if (fini) fini();
	cur->depth++;
	env_settle(true);
	end_event();
	finish_run("end");
}
static bool idle_users() { for (auto &u : users) if (u.second.busy || !u.second.q.empty()) return false; return true; }

// ---- worker ---------------------------------------------------------------------------------
static worker_handle *wh;
static int selfleft;
static void work(worker_handle *w)
{
	cur->depth++;
	Ev("begin").i("ms", ms()).i("same", w == wh).put();
	cur->depth--;
	yield_point(Y_SYNC);
	if (selfleft > 0) { selfleft--; cur->depth++; call(99, "wake"); cur->depth--; int r = worker_wake(w); cur->depth++; ret(99, "wake", r); cur->depth--; }
	long d = cfgi("dur", 0);
	if (d) { uint64_t e = now_ms + d; block_until([] { return false; }, "work", e); }
	for (long i = 0; i < cfgi("spin", 0); i++) yield_point(Y_SYNC);
	cur->depth++;
	Ev("done").i("ms", ms()).put();
	cur->depth--;
	yield_point(Y_SYNC);
}
static int live_threads() { int n = 0; for (Thread *t : threads) n += t->pfn && t->state != Thread::DONE; return n; }
static bool winit;
static void worker_op(int k, const Op &o)
{
	const std::string &f = o[0];
	if (f == "init") {
		if (wh) return;
		worker_handle *h = (worker_handle *)sim_calloc(1, sizeof *wh);
		if (!h) return;
		h->func_ptr = work;
		h->stack_size = 1 << 16;
		h->periodic_wake = (uint32_t)cfgi("period", 0);
		wh = h;
		call(k, "init");
		int r = worker_init(h);
		winit = r == 0;
		ret(k, "init", r);
		if (r) { wh = nullptr; sim_free(h); }
		return;
	}
	if (f == "y") { for (long i = 0; i < num(o, 1, 1); i++) yield_point(Y_SYNC); return; }
	if (!wh || !winit) return;
	if (f == "free") for (auto &u : users) if (u.first != k && (u.second.busy || !u.second.q.empty())) return;
	// a worker is not started while somebody is still joining it, nor the other way round
	static int joining, starting;
	bool j = f == "join" || f == "free", st = f == "start";
	if (st) block_until([] { return !joining; }, "user");
	if (j) block_until([] { return !starting; }, "user");
	joining += j; starting += st;
	call(k, f.c_str());
	int r = 0;
	if (f == "start") r = worker_start(wh);
	else if (f == "wake") r = worker_wake(wh);
	else if (f == "wait") r = worker_wait_idle(wh);
	else if (f == "idle") r = worker_is_idle(wh);
	else if (f == "join") r = worker_join(wh);
	else if (f == "free") { worker_handle *h = wh; worker_free(h); sim_free(h); wh = nullptr; winit = false; }
	ret(k, f.c_str(), r, j ? live_threads() : 0);
	joining -= j; starting -= st;
}
static void worker_start_mode()
{
	doop = worker_op;
	selfleft = (int)cfgi("self", 0);
	spawn("env", [] { env_unit(nullptr); }, true);
}

// ---- locks -------------------------------------------------------------------------------------
static mutex_handle *mx;
static std::map<int, condvar_handle *> cvs;
static std::map<int, char> hold;
static int shared_word;
static void lock_op(int k, const Op &o)
{
	const std::string &f = o[0];
	char h = hold.count(k) ? hold[k] : 0;
	if (f == "y") { for (long i = 0; i < num(o, 1, 1); i++) yield_point(Y_SYNC); return; }
	if (f == "init") {
		if (mx) return;
		mx = (mutex_handle *)sim_calloc(1, sizeof *mx);
		call(k, "init");
		int r = mx ? mutex_init(mx) : -ENOMEM;
		bool have = r == 0;
		for (int i = 1; i <= 2 && r == 0; i++) {
			cvs[i] = (condvar_handle *)sim_calloc(1, sizeof(condvar_handle));
			r = cvs[i] ? condvar_init(cvs[i]) : -ENOMEM;
			if (r) { if (cvs[i]) sim_free(cvs[i]); cvs.erase(i); }
		}
		if (r) {
			for (auto &c : cvs) { condvar_free(c.second); sim_free(c.second); }
			cvs.clear();
			if (have) mutex_free(mx);
			if (mx) sim_free(mx);
			mx = nullptr;
		}
		ret(k, "init", r);
		return;
	}
	if (!mx) return;
	if (f == "free") {
		for (auto &x : hold) if (x.second) return;
		for (auto &u : users) if (u.first != k && (u.second.busy || !u.second.q.empty())) return;
		call(k, "free");
		for (auto &c : cvs) { condvar_free(c.second); sim_free(c.second); }
		cvs.clear();
		mutex_free(mx);
		sim_free(mx);
		mx = nullptr;
		ret(k, "free", 0);
		return;
	}
	long c = num(o, 1, 1), a = num(o, 2);
	int r = 0;
	if (f == "lock" || f == "slock") {
		if (h) return;
		hold[k] = '?';
		call(k, f.c_str());
		r = f == "lock" ? mutex_lock(mx) : mutex_lock_shared(mx);
		hold[k] = r ? 0 : f == "lock" ? 'x' : 's';
		ret(k, f.c_str(), r);
	} else if (f == "unlock") {
		if (h != 'x' && h != 's') return;
		call(k, f.c_str());
		r = h == 'x' ? mutex_unlock(mx) : mutex_unlock_shared(mx);
		hold[k] = 0;
		ret(k, f.c_str(), r);
	} else if (f == "wait" || f == "twait") {
		if (h != 'x' || !cvs.count((int)c)) return;
		hold[k] = '?';
		Ev("call").i("t", k).t("f", f).i("c", c).i("a", a).i("ms", ms()).put();
		r = f == "wait" ? condvar_wait(cvs[(int)c], mx) : condvar_wait_time(cvs[(int)c], mx, (uint32_t)a);
		hold[k] = 'x';
		ret(k, f.c_str(), r);
	} else if (f == "wake1" || f == "wakea") {
		if (!cvs.count((int)c)) return;
		Ev("call").i("t", k).t("f", f).i("c", c).i("a", 0).i("ms", ms()).put();
		r = f == "wake1" ? condvar_wake_one(cvs[(int)c]) : condvar_wake_all(cvs[(int)c]);
		ret(k, f.c_str(), r);
	}
}
static void lock_start_mode()
{
	doop = lock_op;
	spawn("env", [] { env_unit(nullptr); }, true);
}

// ---- configuration and log, through the public interface -----------------------------------------
static proxy_handle *up;
static std::string opt(const char *s) { return s ? "[" + jstr(s) + "]" : "[]"; }
static void conf_event()
{
	proxy_conf &c = up->conf;
	std::string l = "[";
	for (int i = 0; i < c.bind_addr_ext_add_len; i++) l += (i ? "," : "") + jstr(c.bind_addr_ext_add && c.bind_addr_ext_add[i] ? c.bind_addr_ext_add[i] : "(null)");
	Ev("conf").raw("Port", "[\"" + std::to_string(c.port) + "\"]").raw("ConnectionTimeout", "[\"" + std::to_string(c.connection_timeout) + "\"]")
		.raw("Password", opt(c.password)).raw("BindAddress", opt(c.bind_addr)).raw("ExternalBindAddress", opt(c.bind_addr_ext))
		.raw("PublicAddress", opt(c.public_addr)).raw("RegistrationName", opt(c.reg_name)).raw("RegistrationComment", opt(c.reg_comment))
		.raw("CallsignsAllowed", opt(c.calls_allowed)).raw("CallsignsDenied", opt(c.calls_denied))
		.raw("AdditionalExternalBindAddresses", l + "]").put();
}
static bool uopen, ustarted;
static int parse_medium(const std::string &s)
{
	return s == "none" ? LOG_MEDIUM_NONE : s == "out" ? LOG_MEDIUM_STDOUT : s == "file" ? LOG_MEDIUM_FILE : s == "sys" ? LOG_MEDIUM_SYSLOG : LOG_MEDIUM_EVENTLOG;
}
static void pub_op(int k, const Op &o)
{
	const std::string &f = o[0];
	int r = 0;
	if (f == "init") {
		if (up) return;
		up = (proxy_handle *)sim_calloc(1, sizeof *up);
		if (!up) return;
		call(k, "init");
		r = proxy_init(up);
		ret(k, "init", r, io_open_files(nullptr));
		if (r) { sim_free(up); up = nullptr; }
		return;
	}
	if (!up) return;
	if (f == "free") {
		call(k, "free");
		proxy_free(up);
		sim_free(up);
		up = nullptr;
		uopen = false;
		ret(k, "free", 0, io_open_files(nullptr));
	} else if (f == "load") {
		if (uopen) return;
		std::string path = str(o, 1), text = o.size() > 2 ? unhex(o[2]) : "";
		if (o.size() > 2) vfiles[path] = text == "-" ? "" : text;
		{ RtScope x; Ev("call").i("t", k).t("f", "load").t("text", vfiles.count(path) ? vfiles[path] : "").i("miss", !vfiles.count(path)).put(); }
		char *pp = (char *)sim_malloc(path.size() + 1);
		if (!pp) return;
		memcpy(pp, path.c_str(), path.size() + 1);
		r = proxy_load_conf(up, pp);
		sim_free(pp);
		ret(k, "load", r, io_open_files(nullptr));
		if (r == 0) conf_event();
	} else if (f == "open") {
		if (uopen) return;
		call(k, "open");
		r = proxy_open(up);
		uopen = r == 0;
		{ RtScope x; std::string l = "["; for (auto &q : net_listeners()) l += (l.size() > 1 ? "," : "") + jstr(q); Ev("lis").raw("at", l + "]").put(); }
		ret(k, "open", r, io_open_files(nullptr));
	} else if (f == "close") {
		if (!uopen) return;
		call(k, "close");
		proxy_close(up);
		uopen = false;
		ret(k, "close", 0, io_open_files(nullptr));
	} else if (f == "level") {
		call(k, "level", num(o, 1));
		proxy_log_level(up, (LOG_LEVEL)num(o, 1));
		ret(k, "level", 0, io_open_files(nullptr));
	} else if (f == "select") {
		std::string path = str(o, 2);
		{ RtScope x; Ev("call").i("t", k).t("f", "select").t("m", str(o, 1)).t("p", path).put(); }
		char *pp = nullptr;
		if (o.size() > 2) { pp = (char *)sim_malloc(path.size() + 1); if (!pp) return; memcpy(pp, path.c_str(), path.size() + 1); }
		r = proxy_log_select_medium(up, (LOG_MEDIUM)parse_medium(str(o, 1)), pp);
		if (pp) sim_free(pp);
		ret(k, "select", r, io_open_files(nullptr));
	} else if (f == "log") {
		static int id;
		int lvl = (int)num(o, 1);
		size_t len = (size_t)num(o, 2);
		int me = ++id;
		{ RtScope x; Ev("call").i("t", k).t("f", "log").i("m", me).i("lvl", lvl).put(); }
		std::string pad;
		for (size_t i = 0; i < len; i++) pad += (char)('a' + (i * 7 + me) % 26);
		if (num(o, 3)) proxy_log(up, (LOG_LEVEL)lvl, "M#%d %s%c%s%lu%% #E%d\n", me, pad.c_str(), '.', "%n%s", (unsigned long)len, me);
		else proxy_log(up, (LOG_LEVEL)lvl, "M#%d %s #E%d\n", me, pad.c_str(), me);
		ret(k, "log", 0, io_open_files(nullptr));
	} else if (f == "ident") {
		call(k, "ident");
		proxy_ident(up);
		ret(k, "ident", 0, io_open_files(nullptr));
	}
}
static void pub_fini()
{
	RtScope x;
	for (auto &l : steps) { Op w = words(l); if (w.size() > 2 && w[0] == "keep") {
		std::string c = unhex(w[2]);
		Ev("kept").t("p", w[1]).i("ok", vfiles[w[1]].compare(0, c.size(), c) == 0).put();
	} }
}
static void pub_start_mode()
{
	doop = pub_op;
	for (auto &l : steps) { Op w = words(l); if (w.size() > 2 && w[0] == "keep") vfiles[w[1]] = unhex(w[2]); }
	spawn("env", [] { env_unit(pub_fini); }, true);
}

// ---- connections -----------------------------------------------------------------------------------
struct Hd { conn_handle *h = nullptr; std::string addr, port; bool ok = false, udp = false, acc = false, out = false, open = false; int starting = 0, closing = 0, rd = 0, wr = 0, other = 0; uint64_t own = 0, rpos = 0; };
static std::map<int, Hd> hds;
static int opno;
// where in the streams of the peers do these bytes come from?
static void locate(Hd &x, const std::string &d, long *own, long *pos)
{
	*own = 0; *pos = 0;
	auto at = [&](Peer *p, uint64_t o) { return o + d.size() <= p->upos && tunnel_bytes(p->owner, o, d.size()) == d; };
	for (auto &q : raws) if ((uint64_t)q.first == x.own && at(q.second, x.rpos)) { *own = q.first; *pos = (long)x.rpos; x.rpos += d.size(); return; }
	for (auto &q : raws) for (uint64_t o = 0; o + d.size() <= q.second->upos; o++) if (at(q.second, o)) { *own = q.first; *pos = (long)o; x.own = *own; x.rpos = o + d.size(); return; }
}
static void conn_op(int k, const Op &o)
{
	const std::string &f = o[0];
	if (f == "y") { for (long i = 0; i < num(o, 1, 1); i++) yield_point(Y_SYNC); return; }
	int h = (int)num(o, 1);
	Hd &x = hds[h];
	auto busy = [&] { return x.starting || x.closing || x.rd || x.wr || x.other; };
	auto C = [&](long n = 0, long g = 0, const std::string &s = "") { RtScope y; Ev("call").i("t", k).t("f", f).i("h", h).i("n", n).i("g", g).t("x", s).i("op", ++opno).i("ms", ms()).put(); };
	auto R = [&](int r, long own = 0, long pos = 0, const std::string &ra = "", long cid = 0) { RtScope y; Ev("ret").i("t", k).t("f", f).i("h", h).i("r", r).i("own", own).i("pos", pos).t("ra", ra).i("cid", cid).i("ms", ms()).put(); };
	int r = 0;
	if (f == "init") {
		if (x.h) return;
		x.udp = str(o, 2) == "udp";
		x.addr = str(o, 3); x.port = str(o, 4);
		x.h = (conn_handle *)sim_calloc(1, sizeof *x.h);
		if (!x.h) return;
		x.h->type = x.udp ? CONN_TYPE_UDP : CONN_TYPE_TCP;
		x.h->source_addr = x.addr.empty() || x.addr == "-" ? nullptr : x.addr.c_str();
		x.h->source_port = x.port.empty() || x.port == "-" ? nullptr : x.port.c_str();
		x.open = x.acc = x.out = false;
		x.other++;
		{ RtScope y; Ev("call").i("t", k).t("f", f).i("h", h).i("n", 0).i("g", 0).t("x", "").i("op", ++opno).i("ms", ms()).t("ty", str(o, 2)).t("a", x.addr).t("p", x.port).put(); }
		r = conn_init(x.h);
		x.other--;
		x.ok = r == 0;
		R(r);
		if (r) { sim_free(x.h); x.h = nullptr; }
		return;
	}
	if (!x.h || !x.ok) return;
	if (f == "free") {
		if (busy()) return;
		x.other++;
		C();
		conn_free(x.h);
		x.other--;
		R(0);
		sim_free(x.h); x.h = nullptr; x.ok = false;
	} else if (f == "listen") {
		if (x.open || busy()) return;
		x.open = true; x.starting++;
		x.acc = x.out = false;
		C();
		r = conn_listen(x.h);
		if (r) x.open = false;
		x.starting--;
		R(r);
	} else if (f == "accept") {
		int g = (int)num(o, 2);
		Hd &a = hds[g];
		if (!a.h || !a.ok || a.udp || x.udp || a.open || g == h || a.starting || a.closing || a.rd || a.wr || a.other || x.starting || x.acc || x.out || !x.open) return;
		a.open = true; a.starting++; a.acc = true; a.out = false;
		x.other++;
		C(0, g);
		r = conn_accept(x.h, a.h);
		char *ra = (char *)sim_malloc(54);
		std::string ras;
		if (r == 0 && ra) { conn_get_remote_addr(a.h, ra); RtScope y; ras = ra; }
		if (ra) sim_free(ra);
		a.own = 0; a.rpos = 0;
		if (r == 0) for (auto &q : raws) if (q.second->ip && ras.find("9.9.9." + std::to_string(q.first) + ":") == 0) a.own = q.first;
		a.starting--; x.other--;
		R(r, 0, 0, ras);
	} else if (f == "connect") {
		if (x.open || busy()) return;
		std::string ip = str(o, 2);
		x.open = true; x.starting++;
		x.acc = false; x.out = true;
		std::string port = std::to_string(3000 + opno + 1);
		C(opno + 3001, 0, ip);
		r = conn_connect(x.h, ip.c_str(), port.c_str());
		if (r) x.open = false;
		x.own = 0; x.rpos = 0;
		if (r == 0) for (Peer *q : remotes) if (std::to_string(q->s ? q->s->rport : 0) == port) x.own = q->id;
		x.starting--;
		R(r);
	} else if (f == "recv" || f == "any") {
		if (x.rd) return;
		x.rd++;
		block_until([&] { return !x.starting; }, "user");
		size_t n = (size_t)num(o, 2);
		uint8_t *b = (uint8_t *)sim_malloc(n + !n);
		if (!x.h || !b) { x.rd--; if (b) sim_free(b); return; }
		C((long)n);
		uint32_t ad = 0; uint16_t po = 0;
		r = f == "recv" ? conn_recv(x.h, b, n) : conn_recv_any(x.h, b, n, &ad, &po);
		long own = 0, pos = 0, cid = 0; std::string ra;
		if (r > 0) {
			RtScope y;
			std::string d((char *)b, (size_t)r <= n ? r : n);
			if (x.udp) { cid = intern_bytes(d); const uint8_t *q = (const uint8_t *)&ad; char t[40]; snprintf(t, sizeof t, "%d.%d.%d.%d:%d", q[0], q[1], q[2], q[3], po); ra = t; }
			else locate(x, d, &own, &pos);
		}
		sim_free(b);
		x.rd--;
		R(r, own, pos, ra, cid);
	} else if (f == "send" || f == "sendto") {
		if (x.wr) return;
		x.wr++;
		block_until([&] { return !x.starting; }, "user");
		size_t n = (size_t)num(o, 2);
		uint8_t *b = (uint8_t *)sim_malloc(n + !n);
		if (!x.h || !b) { x.wr--; if (b) sim_free(b); return; }
		std::string d;
		{ RtScope y; d = tunnel_bytes(800000 + opno + 1, 0, n); memcpy(b, d.data(), n); rawsends[opno + 1] = {(int)x.own, n}; }
		if (f == "send") { C((long)n); r = conn_send(x.h, b, n); }
		else {
			{ RtScope y; Ev("call").i("t", k).t("f", f).i("h", h).i("n", (long)n).i("g", num(o, 4)).t("x", str(o, 3)).i("op", ++opno).i("ms", ms()).i("cid", intern_bytes(d)).put(); }
			r = conn_send_to(x.h, b, n, htonl(ip4(str(o, 3))), (uint16_t)num(o, 4));
		}
		sim_free(b);
		x.wr--;
		R(r);
	} else if (f == "drop" || f == "close" || f == "shut") {
		if (f == "drop" && !x.acc) return;
		if (f != "shut" && x.starting) return;
		(f == "shut" ? x.other : x.closing)++;
		C();
		if (f == "drop") conn_drop(x.h); else if (f == "close") conn_close(x.h); else conn_shutdown(x.h);
		(f == "shut" ? x.other : x.closing)--;
		if (f != "shut" && !x.closing) x.open = false;
		R(0);
	} else if (f == "inuse" || f == "timeout") {
		if (f == "timeout" && (!x.out || !x.open || x.starting || x.closing)) return;
		x.other++;
		C(num(o, 2));
		r = f == "inuse" ? conn_in_use(x.h) : conn_set_timeout(x.h, (uint32_t)num(o, 2));
		x.other--;
		R(r);
	} else { fprintf(stderr, "bad op %s\n", f.c_str()); _exit(4); }
}
static void conn_start_mode()
{
	doop = conn_op;
	rawmode = true;
	spawn("env", [] { env_unit(nullptr); }, true);
}

// ---- the library's own client, and the helpers of the public interface ----------------------------------
struct Cl { proxy_client_handle *h = nullptr; std::string call, pw; bool nocall = false, nopw = false, busy = false, open = false; };
static std::map<int, Cl> cls;
static std::map<int, int> portof;
extern bool bytemode;
extern std::function<std::string(int, const std::string &)> digest_for;
static std::string upper_(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static char *dup_(const std::string &s) { char *p = (char *)sim_malloc(s.size() + 1); if (p) memcpy(p, s.c_str(), s.size() + 1); return p; }
static void client_op(int k, const Op &o)
{
	const std::string &f = o[0];
	if (f == "y") { for (long i = 0; i < num(o, 1, 1); i++) yield_point(Y_SYNC); return; }
	int h = (int)num(o, 1), r = 0;
	auto R = [&](const std::string &x = "") { RtScope y; Ev("ret").i("t", k).t("f", f).i("h", h).i("r", r).t("x", x).put(); };
	auto C = [&](long n = 0, const std::string &x = "", const std::string &ip = "") { RtScope y; Ev("call").i("t", k).t("f", f).i("h", h).i("n", n).t("x", x).t("ip", ip).put(); };
	if (f == "respond") {
		// respond NONCE PASSWORD
		std::string pw = o.size() > 2 ? unhex(o[2]) : "";
		uint32_t n = (uint32_t)strtoul(str(o, 1).c_str(), 0, 16);
		char buf[9]; snprintf(buf, sizeof buf, "%08x", n);
		std::string want;
		{ RtScope y; want = hexs(md5(upper_(pw) + buf)); }
		char *p = dup_(pw);
		uint8_t *out = (uint8_t *)sim_malloc(PROXY_PASS_RES_LEN);
		if (p && out) { C(0, want); r = get_password_response(n, p, out); std::string got; { RtScope y; got = hexs(std::string((char *)out, PROXY_PASS_RES_LEN)); } R(r ? "" : got); }
		if (p) sim_free(p);
		if (out) sim_free(out);
		return;
	}
	if (f == "nonce") {
		uint32_t *n = (uint32_t *)sim_malloc(4);
		if (!n) return;
		C();
		r = get_nonce(n);
		std::string got;
		if (!r) { RtScope y; got = std::to_string(*n); }
		sim_free(n);
		R(got);
		return;
	}
	Cl &x = cls[h];
	if (f == "init") {
		if (x.h) return;
		x.nocall = str(o, 2) == "-"; x.nopw = str(o, 3) == "-";
		x.call = x.nocall ? "" : str(o, 2) == "0" ? "" : unhex(str(o, 2));
		x.pw = x.nopw ? "" : str(o, 3) == "0" ? "" : unhex(str(o, 3));
		x.h = (proxy_client_handle *)sim_calloc(1, sizeof *x.h);
		if (!x.h) return;
		x.h->callsign = x.nocall ? nullptr : dup_(x.call);
		x.h->password = x.nopw ? nullptr : dup_(x.pw);
		x.busy = true;
		C(0, hexs(x.call));
		r = proxy_client_init(x.h);
		x.busy = false;
		R();
		if (r) goto gone;
		return;
	}
	if (!x.h || x.busy) return;
	if (f == "connect") {
		if (x.open) return;
		int port = 3000 + ++opno;
		portof[port] = h;
		x.busy = true;
		x.h->host_addr = dup_(str(o, 2));
		x.h->host_port = dup_(std::to_string(port));
		if (x.h->host_addr && x.h->host_port) {
			C(port, "", str(o, 2));
			r = proxy_client_connect(x.h);
			x.open = r == 0;
			R();
		}
		if (x.h->host_addr) sim_free(x.h->host_addr);
		if (x.h->host_port) sim_free(x.h->host_port);
		x.h->host_addr = x.h->host_port = nullptr;
		x.busy = false;
	} else if (f == "disconnect") {
		x.busy = true;
		C();
		proxy_client_disconnect(x.h);
		x.open = x.busy = false;
		R();
	} else if (f == "free") {
		x.busy = true;
		C();
		proxy_client_free(x.h);
		x.open = x.busy = false;
		R();
		goto gone;
	} else { fprintf(stderr, "bad op %s\n", f.c_str()); _exit(4); }
	return;
gone:
	if (x.h->callsign) sim_free(x.h->callsign);
	if (x.h->password) sim_free(x.h->password);
	sim_free(x.h);
	x.h = nullptr;
}
static void client_start_mode()
{
	doop = client_op;
	rawmode = bytemode = true;
	digest_for = [](int port, const std::string &nonce) {
		Cl &x = cls[portof[port]];
		return md5(upper_(x.nopw ? "PUBLIC" : x.pw) + nonce);
	};
	spawn("env", [] { env_unit(nullptr); }, true);
}

void unit_start(const std::string &mode)
{
	umode = mode;
	T0 = now_ms;
	if (mode == "worker") worker_start_mode();
	else if (mode == "lock") lock_start_mode();
	else if (mode == "conf" || mode == "log") pub_start_mode();
	else if (mode == "conn") conn_start_mode();
	else if (mode == "client") client_start_mode();
	else { fprintf(stderr, "unknown mode %s\n", mode.c_str()); _exit(4); }
}
