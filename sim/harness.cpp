// Scenario interpreter: runs each scenario in a child process and prints its trace.
#include "net.h"
#include "units.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
#include <sstream>
#include <fstream>
#include <iostream>
#include <set>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
extern "C" {
#include "openelp/openelp.h"
int proxyd_main(int argc, const char *const argv[]);
void *sim_calloc(size_t, size_t);
void *sim_malloc(size_t);
void sim_free(void *);
}

std::map<std::string, std::string> cfg;
std::vector<std::string> steps;
static std::string scen_id, policy;
static int outfd = 1;

long cfgi(const char *k, long d) { auto i = cfg.find(k); return i == cfg.end() || i->second.empty() ? d : strtol(i->second.c_str(), 0, 10); }
std::map<std::string, std::string> inforce, loaded;
std::string oldpw = "?";
long inforce_port() { return strtol(inforce["port"].c_str(), 0, 10); }
std::vector<std::string> words(const std::string &l)
{
	std::vector<std::string> w; std::istringstream s(l); std::string x;
	while (s >> x) w.push_back(x);
	return w;
}

// the operator's patterns, evaluated by pcre2 itself (the scenarios with rich patterns
// are judged by the specification instead; see the authz mode)
bool call_allowed(const std::string &call)
{
	auto hit = [&](const std::string &pat) {
		int e; PCRE2_SIZE o;
		pcre2_code *c = pcre2_compile((PCRE2_SPTR)pat.c_str(), PCRE2_ZERO_TERMINATED, 0, &e, &o, nullptr);
		if (!c) return -1;
		pcre2_match_data *m = pcre2_match_data_create_from_pattern(c, nullptr);
		int r = pcre2_match(c, (PCRE2_SPTR)call.c_str(), call.size(), 0, 0, m, nullptr);
		pcre2_match_data_free(m); pcre2_code_free(c);
		return r >= 0 ? 1 : r == PCRE2_ERROR_NOMATCH ? 0 : -1;
	};
	if (!inforce["deny"].empty() && hit(inforce["deny"]) != 0) return false;
	if (!inforce["allow"].empty() && hit(inforce["allow"]) != 1) return false;
	return true;
}

static void write_all(int fd, const std::string &s)
{
	size_t o = 0;
	while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n < 0) { if (errno == EINTR) continue; _exit(3); } o += n; }
}
void finish_run(const char *how)
{
	if (run_over) _exit(0);
	std::string h = how;
	if (h == "crash" || h == "hang" || h == "stuck") {
		Ev e(h == "crash" ? "crash" : "hang");
		e.t("why", h == "crash" ? (cur ? cur->name : "?") : h);
		e.t("blocked", h == "crash" ? "" : blocked_report().substr(0, 300));
		evlog.push_back(e.s + "}");
	}
	run_over = true;
	std::string o = "{\"id\":" + jstr(scen_id) + ",\"pol\":" + jstr(policy) + ",\"ny\":" + std::to_string(nyield) + ",\"cfg\":{";
	bool first = true;
	for (auto &c : cfg) { if (c.first[0] == '_') continue; if (!first) o += ","; first = false; o += jstr(c.first) + ":" + jstr(c.second); }
	o += "},\"ev\":[";
	for (size_t i = 0; i < evlog.size(); i++) { if (i) o += ","; o += evlog[i]; }
	o += "]}\n";
	write_all(outfd, o);
	_exit(0);
}
static void on_fault(int s)
{
	static volatile int again;
	if (again++) _exit(9);
	if (s == SIGPROF) finish_run("hang");
	finish_run("crash");
}

// ---- proxy mode ------------------------------------------------------------------------
static struct proxy_handle *ph;
static std::deque<std::string> ctlq;
static bool ctl_busy, acc_run, acc_stop, acc_req;
static std::string ctl_cur;
static Thread *acc_thread;

static std::string conf_text()
{
	std::string t;
	long n = cfgi("n", 1);
	if (cfg.count("conftext")) return cfg["conftext"];
	t += "Port=" + std::to_string(cfgi("port", 8100)) + "\n";
	if (cfg["nopw"] != "1") t += "Password=" + cfg["pw"] + "\n";
	t += "ExternalBindAddress=" + std::string(n > 0 ? "10.0.0.1" : "") + "\n";
	t += "AdditionalExternalBindAddresses=";
	for (long i = 2; i <= n; i++) t += (i > 2 ? "," : "") + std::string("10.0.0.") + std::to_string(i);
	t += "\nRegistrationName=" + cfg["reg"] + "\nRegistrationComment=" + cfg["comment"] + "\nPublicAddress=" + cfg["pubaddr"];
	t += "\nCallsignsAllowed=" + cfg["allow"] + "\nCallsignsDenied=" + cfg["deny"] + "\n";
	return t;
}
static void acceptor()
{
	int bad = 0;
	while (!acc_stop) {
		int r = proxy_process(ph);
		if (r < 0) {
			if (acc_stop) break;
			Ev("pret").i("r", -r).put();
			if (++bad > 40) break;
			// a listener that was shut down ends the loop, as does any error once it is gone
			if (!find_listener((uint16_t)inforce_port())) break;
		}
	}
	acc_run = false;
	Ev("accend").put();
}
// how far the proxy has been brought up: the user of the library calls nothing out of order
static int level;
static bool in_order(const std::string &f)
{
	if (f == "init") return level == 0;
	if (f == "conf") return level == 1 || level == 2;
	if (f == "open") return level == 2;
	if (f == "start") return level == 3;
	if (f == "accept") return level == 4 && !acc_run;
	if (f == "shutdown" || f == "drop") return level == 4;
	if (f == "close") return level >= 3;
	return level >= 1;
}
static void advance_level(const std::string &f, int r)
{
	if (f == "free") level = 0;
	else if (f == "close") level = 2;
	else if (r == 0) {
		if (f == "init") level = 1;
		else if (f == "conf") level = 2;
		else if (f == "open") level = 3;
		else if (f == "start") level = 4;
	}
	else if (f == "conf") level = 1;
}
// must the proxy refuse to open with this configuration?
static bool bad_pattern(const std::string &pat)
{
	int e; PCRE2_SIZE o;
	pcre2_code *c = pcre2_compile((PCRE2_SPTR)pat.c_str(), PCRE2_ZERO_TERMINATED, 0, &e, &o, nullptr);
	if (c) pcre2_code_free(c);
	return !c;
}
static bool haspw;
static int bad_conf(const std::string &f)
{
	if (f == "conf") return cfg["pw"] == "notset" && cfg["nopw"] != "1";
	if (f == "open") return loaded["nopw"] == "1" || bad_pattern(loaded["deny"]) || bad_pattern(loaded["allow"]);
	return 0;
}
static int api(const std::string &f)
{
	if (f == "init") { ph = (proxy_handle *)sim_calloc(1, sizeof *ph); if (!ph) return -ENOMEM; int r = proxy_init(ph); if (r == 0) { proxy_log_level(ph, (LOG_LEVEL)cfgi("loglevel", 3)); } else { sim_free(ph); ph = nullptr; } return r; }
	if (f == "conf") { vfiles["/conf"] = conf_text(); return proxy_load_conf(ph, "/conf"); }
	if (f == "open") return proxy_open(ph);
	if (f == "start") return proxy_start(ph);
	if (f == "accept") { acc_stop = false; acc_run = true; acc_thread = spawn("acceptor", acceptor); return 0; }
	if (f == "shutdown") { acc_stop = true; proxy_shutdown(ph); return 0; }
	if (f == "drop") { proxy_drop(ph); return 0; }
	if (f == "close") {
		acc_stop = true;
		proxy_shutdown(ph);
		block_until([] { return !acc_run; }, "acceptor to end");
		proxy_close(ph);
		return 0;
	}
	if (f == "free") { proxy_free(ph); sim_free(ph); ph = nullptr; return 0; }
	return -1001;
}
static void ctl_thread()
{
	while (true) {
		block_until([] { return !ctlq.empty(); }, "nothing to do");
		std::string f = ctlq.front();
		ctlq.pop_front();
		if (!in_order(f)) continue;
		ctl_cur = f;
		{
			Ev e("call");
			e.t("f", f);
			if (f == "open") {
				if (inforce["pw"] != loaded["pw"]) oldpw = inforce["pw"];
				inforce = loaded;
				if (inforce["port"].empty()) inforce["port"] = "8100";
				long n = strtol(loaded["n"].c_str(), 0, 10);
				e.i("n", n < 1 ? 1 : n).i("reg", !loaded["reg"].empty()).t("pub", loaded["pw"] == "PUBLIC" ? "Y" : "N");
			}
			e.put();
		}
		int bad = bad_conf(f);
		std::map<std::string, std::string> snap = cfg;
		int r = api(f);
		if (f == "init") haspw = false;
		if (f == "conf" && r == 0) {
			// a line that is missing leaves the setting as it was
			std::string pw = loaded["pw"];
			loaded = snap;
			if (snap["nopw"] == "1") { loaded["pw"] = pw; loaded["nopw"] = haspw ? "" : "1"; }
			else haspw = true;
		}
		ctl_cur = "";
		advance_level(f, r);
		Ev("ret").t("f", f).i("r", -r).i("bad", bad).put();
	}
}

static std::map<int, std::string> held;
static std::map<int, int> frag;
static void sendc(int c, const std::string &b)
{
	if (held.count(c)) { held[c] += b; return; }
	int k = frag.count(c) ? frag[c] : 0;
	if (!k || (size_t)k >= b.size()) { client_bytes(c, b); return; }
	for (size_t o = 0; o < b.size(); o += k) { client_bytes(c, b.substr(o, k)); env_settle(false); }
}
static std::string hdr(int t, uint32_t a, uint32_t n)
{
	std::string h(9, 0);
	h[0] = (char)t; h[1] = (char)(a >> 24); h[2] = (char)(a >> 16); h[3] = (char)(a >> 8); h[4] = (char)a;
	h[5] = (char)n; h[6] = (char)(n >> 8); h[7] = (char)(n >> 16); h[8] = (char)(n >> 24);
	return h;
}
static uint64_t ucount = 1;
static std::string payload(size_t n)
{
	uint64_t k = ucount++;
	std::string s = tunnel_bytes(900000 + k, 0, n);
	if (k % 7 == 3) for (char &ch : s) ch &= 1;          // mostly zero bytes now and then
	return s;
}
std::string unhex(const std::string &h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return o; }
static long num(const std::vector<std::string> &w, size_t i, long d = 0) { return w.size() > i ? strtol(w[i].c_str(), 0, 10) : d; }
static std::string str(const std::vector<std::string> &w, size_t i, const char *d = "") { return w.size() > i ? w[i] : d; }

static std::string msg_bytes(int c, const std::vector<std::string> &w, size_t i)
{
	std::string k = str(w, i);
	if (k == "udp") return hdr(str(w, i + 1) == "ctl" ? 6 : 5, ip4(str(w, i + 2)), num(w, i + 3)) + payload(num(w, i + 3));
	if (k == "open") return hdr(1, ip4(str(w, i + 1)), 0);
	if (k == "close") return hdr(3, ip4(str(w, i + 1, "0.0.0.0")), 0);
	if (k == "data") { uint64_t n = num(w, i + 1); Peer *p = clients[c]; static std::map<int, uint64_t> pos; uint64_t at = pos[c]; pos[c] += n; return hdr(2, 0, (uint32_t)n) + tunnel_bytes(p->owner, at, n); }
	if (k == "raw") return hdr(num(w, i + 1), ip4(str(w, i + 2, "0.0.0.0")), (uint32_t)strtoul(str(w, i + 3, "0").c_str(), 0, 0)) + payload(num(w, i + 4));
	return "";
}
static void quiesce()
{
	env_settle(true);
	Ev e("Q");
	std::string st = "[", rs = "[", cn = "[";
	for (auto &c : clients) if (!c.second->gone && c.second->win >= 0 && c.second->s && c.second->s->inflight) st += (st.size() > 1 ? "," : "") + std::to_string(c.first);
	for (Peer *p : remotes) if (!p->gone && p->win >= 0) rs += (rs.size() > 1 ? "," : "") + std::to_string(p->id);
	for (Peer *p : remotes) if (p->s && p->s->connecting) cn += (cn.size() > 1 ? "," : "") + std::to_string(p->id);
	int rh = 0;
	for (Peer *p : regs) if (p->call == "hang" && !p->gone) rh++;
	e.t("pend", ctl_cur).i("acc", acc_run).raw("stall", st + "]").raw("rstall", rs + "]").raw("cing", cn + "]").i("rh", rh);
	e.put();
}
static void advance(uint64_t ms)
{
	uint64_t end = now_ms + ms;
	while (true) {
		uint64_t nx = 0;
		for (Thread *t : threads) if (t->state == Thread::BLOCKED && t->deadline && t->deadline > now_ms && t->deadline <= end && (!nx || t->deadline < nx)) nx = t->deadline;
		if (alarm_at && alarm_at > now_ms && alarm_at <= end && (!nx || alarm_at < nx)) nx = alarm_at;
		if (!nx) break;
		now_ms = nx;
		alarm_check();
		env_settle(true);
	}
	now_ms = end;
	env_settle(true);
}

// await KIND COUNT key=value..: until that many such events were seen, or nothing moves any more
extern std::function<bool()> settle_pred;
static void await(const std::vector<std::string> &w)
{
	std::string head = "{\"e\":\"" + str(w, 1) + "\"";
	std::vector<std::string> keys;
	for (size_t i = 3; i < w.size(); i++) {
		size_t q = w[i].find('=');
		if (q == std::string::npos) continue;
		keys.push_back("\"" + w[i].substr(0, q) + "\":" + w[i].substr(q + 1));
	}
	long want = num(w, 2, 1), have = 0;
	size_t at = 0;
	settle_pred = [&] {
		for (; at < evlog.size() && have < want; at++) {
			const std::string &e = evlog[at];
			bool ok = e.compare(0, head.size(), head) == 0;
			for (auto &k : keys) {
				size_t q = e.find(k);
				ok = ok && q != std::string::npos && q + k.size() < e.size() && (e[q + k.size()] == ',' || e[q + k.size()] == '}');
			}
			have += ok;
		}
		return have >= want;
	};
	if (!settle_pred()) env_settle(false);
	settle_pred = nullptr;
}

bool common_step(const std::vector<std::string> &w)
{
	const std::string &s = w[0];
	int c = (int)num(w, 1);
	if (s == "conn") client_connect(c, w.size() > 2 ? ip4(w[2]) : 0x1e000000 + c);
	else if (s == "login") {
		if (!clients.count(c)) return true;
		if (!clients[c]->have_nonce) env_settle(false);
		if (!clients[c]->have_nonce) env_settle(true);
		if (!clients[c]->have_nonce) return true;
		std::string call = str(w, 2);
		if (call.compare(0, 2, "x:") == 0) call = unhex(call.substr(2));
		std::string b = login_bytes(c, call, str(w, 3, "good"));
		if (w.size() > 4 && num(w, 4) > 0) b = b.substr(0, num(w, 4));
		sendc(c, b);
	} else if (s == "hex") sendc(c, unhex(str(w, 2)));
	else if (s == "m") { if (clients.count(c)) sendc(c, msg_bytes(c, w, 2)); }
	else if (s == "mc") { if (clients.count((int)num(w, 2))) sendc((int)num(w, 2), msg_bytes((int)num(w, 2), w, 3).substr(0, c)); }
	else if (s == "hold") held[c];
	else if (s == "flush") { std::string b = held[c]; held.erase(c); sendc(c, b); }
	else if (s == "frag") frag[c] = (int)num(w, 2);
	else if (s == "fin" || s == "close" || s == "rst") client_end(c, s);
	else if (s == "win") { if (clients.count(c)) { peer_drain(clients[c], num(w, 2, -1)); Ev("cwin").i("c", c).i("n", num(w, 2, -1)).put(); } }
	else if (s == "udp") udp_in(c, str(w, 2) == "ctl" ? 5199 : 5198, ip4(str(w, 3)), (uint16_t)num(w, 5, 5199), payload(num(w, 4)));
	else if (s == "rsend") remote_send(remote_for(ip4(str(w, 1))), num(w, 2));
	else if (s == "rend") remote_end(remote_for(ip4(str(w, 1))), str(w, 2));
	else if (s == "rwin") { Peer *p = remote_for(ip4(str(w, 1))); if (p && !p->refused) { peer_drain(p, num(w, 2, -1)); Ev("rwin").i("k", p->id).i("n", num(w, 2, -1)).put(); } }
	else if (s == "pc") raw_connect(c, ip4(str(w, 3, "10.0.0.1")), (uint16_t)num(w, 2));
	else if (s == "psend") raw_send(c, num(w, 2));
	else if (s == "phex") raw_hex(c, unhex(str(w, 2)));
	else if (s == "pend") raw_end(c, str(w, 2));
	else if (s == "pwin") { if (raws.count(c) && !raws[c]->refused) { peer_drain(raws[c], num(w, 2, -1)); Ev("pwin").i("p", c).i("n", num(w, 2, -1)).put(); } }
	else if (s == "host") hostmode[ip4(str(w, 1))] = str(w, 2);
	else if (s == "hostrel") host_release(ip4(str(w, 1)), str(w, 2));
	else if (s == "reg") { regmode.clear(); for (size_t i = 1; i < w.size(); i++) regmode.push_back(w[i]); }
	else if (s == "regrel") reg_release();
	else if (s == "fault") { Fault f; f.kind = str(w, 1); f.nth = (int)num(w, 2); f.err = (int)num(w, 3); f.arg = (int)num(w, 4); faults.push_back(f); }
	else if (s == "nofault") faults.clear();
	else if (s == "tick") { Ev("tick").i("ms", num(w, 1)).put(); advance(num(w, 1)); }
	else if (s == "settle") env_settle(false);
	else if (s == "await") await(w);
	else if (s == "hard") env_settle(true);
	else if (s == "Q") quiesce();
	else if (s == "y") { for (long i = 0; i < num(w, 1, 1); i++) yield_point(Y_SYNC); }
	else if (s == "set") { std::string v; for (size_t i = 2; i < w.size(); i++) v += (i > 2 ? " " : "") + w[i]; cfg[str(w, 1)] = v; if (cfg["mode"] != "proxy") inforce = cfg; }
	else return false;
	return true;
}
void end_event()
{
	std::string d1, d2, d3;
	int thr = 0;
	for (Thread *t : threads) if (t->state != Thread::DONE && t->pfn) thr++;
	int nf = net_open_fds(&d1); int nh = (int)heap_live(&d2); int nl = io_open_files(&d3);
	Ev("end").i("fds", nf).i("heap", nh).i("files", nl).i("lib", lib_live).i("thr", thr).i("locks", (long)live_locks()).t("d", (nf ? "fd " + d1 : "") + (nh ? "heap " + d2 : "") + (nl ? "file " + d3 : "")).put();
}
static void env_proxy()
{
	for (auto &l : steps) {
		std::vector<std::string> w = words(l);
		if (w.empty()) continue;
		cur->depth++;
		if (w[0] == "api") {
			// wait for the previous call unless it cannot finish by itself
			ctlq.push_back(str(w, 1));
		}
		else if (!common_step(w)) { fprintf(stderr, "bad step: %s\n", l.c_str()); _exit(4); }
		cur->depth--;
		yield_point(Y_SYNC);
	}
	cur->depth++;
	env_settle(true);
	end_event();
	finish_run("end");
}

// ---- daemon mode ---------------------------------------------------------------------------
static void env_daemon()
{
	for (auto &l : steps) {
		std::vector<std::string> w = words(l);
		if (w.empty()) continue;
		cur->depth++;
		if (w[0] == "sig") { int s = w[1] == "TERM" ? SIGTERM : w[1] == "INT" ? SIGINT : w[1] == "USR1" ? SIGUSR1 : SIGHUP; Ev("sig").t("s", w[1]).put(); post_signal(s); }
		else if (w[0] == "when") { Thread *me = cur; (void)me; uint64_t k = num(w, 1); block_until([k] { return nyield >= k; }, "when"); }
		else if (!common_step(w)) { fprintf(stderr, "bad step: %s\n", l.c_str()); _exit(4); }
		cur->depth--;
		yield_point(Y_SYNC);
	}
	cur->depth++;
	env_settle(true);
	// a daemon may be waiting for a timer (its polling loop); give it a while
	for (int i = 0; i < 5; i++) advance(1000);
	quiesce();
	Ev("dend").put();
	finish_run("end");
}
extern void set_signal_thread(Thread *);
static std::vector<std::string> dargs;
static std::vector<const char *> dargv;
static void daemon_thread()
{
	cur->depth++;
	dargv.push_back("openelpd");
	std::vector<Fault> keep;
	keep.swap(faults);
	for (auto &a : dargs) {
		char *p = (char *)sim_malloc(a.size() + 1);
		memcpy(p, a.c_str(), a.size() + 1);
		dargv.push_back(p);
	}
	dargv.push_back(nullptr);
	keep.swap(faults);
	cur->depth--;
	int r = proxyd_main((int)dargv.size() - 1, dargv.data());
	cur->depth++;
	extern void io_flush_partial();
	int nf = net_open_fds(nullptr);
	Ev("exit").i("code", r & 255).i("fds", nf).i("heap", (long)heap_live(nullptr) - (long)dargs.size()).i("files", io_open_files(nullptr)).i("main", 1).put();
	finish_run("exit");
}

static void child(const std::vector<std::string> &lines)
{
	stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
	itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 10;
	setitimer(ITIMER_PROF, &tv, nullptr);
	mem_init();
	std::string mode = "proxy";
	policy = "B";
	cfg["pw"] = "Secret1"; cfg["port"] = "8100"; cfg["n"] = "1";
	for (auto &l : lines) {
		std::vector<std::string> w = words(l);
		if (w.empty() || w[0][0] == '#') continue;
		if (w[0] == "mode") mode = str(w, 1);
		else if (w[0] == "pol") policy = str(w, 1);
		else if (w[0] == "cfg") { size_t p = l.find(w[1], 4); std::string v = l.substr(p + w[1].size()); while (!v.empty() && v[0] == ' ') v.erase(0, 1); cfg[w[1]] = v; }
		else if (w[0] == "arg") { size_t p = l.find("arg") + 4; dargs.push_back(p <= l.size() ? l.substr(p) : ""); }
		else if (w[0] == "file") { vfiles[str(w, 1)] = unhex(str(w, 2)); }
		else steps.push_back(l);
	}
	cfg["mode"] = mode;
	inforce = loaded = cfg;
	rnd_seed(cfgi("seed", 1));
	set_policy(policy);
	if (mode == "proxy") {
		spawn("env", env_proxy, true);
		spawn("ctl", ctl_thread);
	} else if (mode == "daemon") {
		if (!vfiles.count("/conf")) vfiles["/conf"] = conf_text();
		spawn("env", env_daemon, true);
		set_signal_thread(spawn("main", daemon_thread));
	} else unit_start(mode);
	run_all();
	finish_run("end");
}

int main(int argc, char **argv)
{
	if (argc < 3) { fprintf(stderr, "usage: sim scenarios out [k/n]\n"); return 2; }
	std::ifstream in(argv[1]);
	int k = 0, n = 1;
	if (argc > 3) sscanf(argv[3], "%d/%d", &k, &n);
	FILE *out = fopen(argv[2], "w");
	if (!out) return 2;
	std::vector<std::pair<std::string, std::vector<std::string>>> sc;
	std::string l;
	while (std::getline(in, l)) {
		if (l.compare(0, 4, "=== ") == 0) { sc.push_back({l.substr(4), {}}); continue; }
		if (!sc.empty()) sc.back().second.push_back(l);
	}
	for (size_t i = k; i < sc.size(); i += n) {
		int p[2];
		if (pipe(p)) return 2;
		fflush(out);
		pid_t pid = fork();
		if (pid == 0) {
			close(p[0]);
			outfd = p[1];
			scen_id = sc[i].first;
			child(sc[i].second);
			_exit(0);
		}
		close(p[1]);
		std::string buf; char t[65536];
		bool to = false;
		while (true) {
			pollfd pf = {p[0], POLLIN, 0};
			int r = poll(&pf, 1, 60000);
			if (r == 0) { to = true; kill(pid, SIGKILL); break; }
			ssize_t m = read(p[0], t, sizeof t);
			if (m <= 0) break;
			buf.append(t, m);
		}
		close(p[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 4;
		if (buf.empty() || buf.back() != '\n' || to) {
			buf = "{\"id\":" + jstr(sc[i].first) + ",\"pol\":\"?\",\"ny\":0,\"cfg\":{},\"ev\":[{\"e\":\"" + (to ? "hang" : "crash") + "\",\"why\":\"process\",\"blocked\":\"\"}]}\n";
		}
		fwrite(buf.data(), 1, buf.size(), out);
	}
	fclose(out);
	return 0;
}
