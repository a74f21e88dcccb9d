// Virtual network: sockets of the code under test, and the recorder that turns what
// crosses them into events.
#include "net.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <arpa/inet.h>
#include <algorithm>

std::map<int, Peer *> clients;
std::vector<Peer *> remotes, regs;
std::map<uint32_t, std::string> hostmode;
std::deque<std::string> regmode;
static std::map<int, SockP> fds;
static int nsock;
static const uint32_t REGIP = 0x2c000001;
static std::vector<std::weak_ptr<Sock>> allsocks;

uint32_t ip4(const std::string &s) { in_addr a; if (inet_pton(AF_INET, s.c_str(), &a) != 1) return 0; return ntohl(a.s_addr); }
static std::string ipstr(uint32_t ip) { in_addr a; a.s_addr = htonl(ip); char b[32]; inet_ntop(AF_INET, &a, b, sizeof b); return b; }
// External addresses are 10.0.0.1 .. 10.0.0.N; without any the wildcard is address 1.
int slot_of(uint32_t ip) { if (ip == 0) return 1; if ((ip & 0xffffff00) == 0x0a000000) return ip & 255; return 0; }
std::string hexs(const std::string &b) { std::string o; char t[4]; for (unsigned char c : b) { snprintf(t, 4, "%02x", c); o += t; } return o; }

// ---- md5 (independent of the code under test) --------------------------------------
std::string md5(const std::string &msg)
{
	static const uint32_t K[64] = {
		0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
		0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
		0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
		0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
	static const int R[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
	uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
	std::string m = msg;
	uint64_t bits = (uint64_t)msg.size() * 8;
	m += (char)0x80;
	while (m.size() % 64 != 56) m += (char)0;
	for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
	for (size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[16];
		memcpy(w, m.data() + o, 64);
		uint32_t a = a0, b = b0, c = c0, d = d0;
		for (int i = 0; i < 64; i++) {
			uint32_t f; int g;
			if (i < 16) { f = (b & c) | (~b & d); g = i; }
			else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) & 15; }
			else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) & 15; }
			else { f = c ^ (b | ~d); g = (7 * i) & 15; }
			f += a + K[i] + w[g];
			a = d; d = c; c = b;
			b += (f << R[i]) | (f >> (32 - R[i]));
		}
		a0 += a; b0 += b; c0 += c; d0 += d;
	}
	std::string r(16, 0);
	uint32_t v[4] = {a0, b0, c0, d0};
	memcpy(&r[0], v, 16);
	return r;
}

// ---- tunnel contents: byte p of stream `owner` -------------------------------------------
static inline uint8_t tb(uint64_t o, uint64_t p)
{
	uint64_t x = (o * 0x9E3779B97F4A7C15ull) ^ (p / 8 + 1) * 0xC2B2AE3D27D4EB4Full;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
	return (uint8_t)(x >> (8 * (p & 7)));
}
std::string tunnel_bytes(uint64_t o, uint64_t from, size_t n)
{
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++) s[i] = (char)tb(o, from + i);
	return s;
}
static size_t match_at(uint64_t o, uint64_t p, uint64_t lim, const char *d, size_t n)
{
	size_t i = 0;
	while (i < n && p + i < lim && (uint8_t)d[i] == tb(o, p + i)) i++;
	return i;
}

template <class T, class F> static std::string alts(const std::vector<std::pair<T, uint64_t>> &cand, F id)
{
	std::string s = "[";
	for (auto &x : cand) s += (s.size() > 1 ? ",[" : "[") + std::to_string(id(x.first)) + "," + std::to_string(x.second) + "]";
	return s + "]";
}

extern bool rawmode;
// ---- descriptors ---------------------------------------------------------------------------
static SockP getfd(int fd, const char *how)
{
	auto i = fds.find(fd);
	if (i == fds.end()) { if (fd != -1) memerr("descriptor used that is not open", how); errno = EBADF; return nullptr; }
	return i->second;
}
int stdfd[3] = {1, 1, 1};               // 1 open, 2 the null device, 0 closed
static int newfd(SockP s)
{
	int fd = 0;
	while (fd < 3 && (stdfd[fd] || fds.count(fd))) fd++;
	if (fd == 3) { fd = 200; while (fds.count(fd)) fd++; }
	fds[fd] = s;
	return fd;
}
bool fd_taken(int fd) { return fds.count(fd); }
int net_open_fds(std::string *d)
{
	if (d) for (auto &f : fds) *d += std::to_string(f.second->k) + ":" + std::to_string(f.second->port) + " ";
	return (int)fds.size();
}
std::vector<std::string> net_listeners()
{
	std::vector<std::string> r;
	for (auto &f : fds) if (f.second->k == Sock::LISTEN) r.push_back(ipstr(f.second->ip) + ":" + std::to_string(f.second->port));
	return r;
}
static const char *portname(uint16_t p) { return p == 5199 ? "ctl" : p == 5198 ? "dat" : "oth"; }

static void raw_got(Peer *p, const std::string &d);
static void tell_eof(Peer *p)
{
	if (p->eof) return;
	p->eof = true;
	if (p->role == Peer::CLIENT) { Ev e("ceof"); e.i("c", p->id).i("part", (long)p->in.size()); e.put(); }
	if (p->role == Peer::REMOTE) Ev("teof").i("k", p->id).put();
	if (p->role == Peer::RAW) Ev("peof").i("p", p->id).put();
}
static void tell_gone(Peer *p)
{
	tell_eof(p);
	if (p->gone) return;
	p->gone = true;
	if (p->role == Peer::CLIENT) Ev("cgone").i("c", p->id).put();
	if (p->role == Peer::REMOTE) Ev("tgone").i("k", p->id).put();
	if (p->role == Peer::RAW) Ev("pgone").i("p", p->id).put();
}
static void release(SockP s)
{
	if (s->gone || !s->fdclosed || s->inflight) return;
	s->gone = true;
	switch (s->k) {
	case Sock::DGRAM:
		if (s->bound) Ev("uclose").i("s", s->slot).t("p", portname(s->port)).put();
		break;
	case Sock::STREAM:
		if (s->peer) tell_gone(s->peer);
		break;
	case Sock::LISTEN:
		Ev("lclose").i("port", s->port).put();
		for (Peer *p : s->backlog) { if (p->s) { p->s->fdclosed = true; release(p->s); } }
		s->backlog.clear();
		break;
	default: break;
	}
}
struct Use {   // a call in progress keeps the socket alive
	SockP s;
	Use(SockP x) : s(x) { s->inflight++; }
	~Use() { s->inflight--; release(s); }
};

// ---- client side: parsing what the environment sends ------------------------------------------
static std::string upper(std::string s) { for (char &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
std::string resp_for(const std::string &nonce) { return md5(upper(inforce["pw"]) + nonce); }
extern bool call_allowed(const std::string &call);

// datagram messages of more than 4096 bytes: their pieces are found again by their contents
struct BigMsg { int id, client; uint16_t port; uint64_t tot; std::string d; uint64_t done; };
static std::vector<BigMsg> bigs;
static void big_find(int slot_port, const std::string &d, long *u, long *off)
{
	*u = 0; *off = 0;
	if (d.empty()) return;
	for (auto &b : bigs) if (b.done < b.tot && b.port == slot_port && b.d.compare(b.done, d.size(), d) == 0 && b.done + d.size() <= b.d.size()) { *u = b.id; *off = b.done; b.done += d.size(); return; }
	for (auto &b : bigs) { size_t at = b.d.find(d); if (at != std::string::npos) { *u = b.id; *off = at; return; } }
}
static void client_parse_out(Peer *p)
{
	if (p->garbage) return;
	if (!p->logged) {
		size_t nl = p->sent.substr(0, 11).find('\n');
		if (nl == std::string::npos) {
			if (p->sent.size() < 16) return;
			p->logged = true; p->garbage = true;
			Ev("clogin").i("c", p->id).t("k", "malformed").t("call", "").put();
			return;
		}
		if (p->sent.size() < nl + 17) return;
		std::string call = p->sent.substr(0, nl), r = p->sent.substr(nl + 1, 16);
		p->sent.erase(0, nl + 17);
		call = call.substr(0, call.find('\0'));
		p->call = call;
		p->logged = true;
		bool ok = p->have_nonce && r == resp_for(p->nonce);
		bool al = call_allowed(call);
		if (!ok || !al) p->garbage = true;
		Ev("clogin").i("c", p->id).t("k", !ok ? "badpw" : !al ? "badcall" : "good").t("call", hexs(call)).put();
		if (p->garbage) return;
	}
	while (!p->garbage) {
		if (!p->inmsg) {
			if (p->sent.size() < 9) return;
			const unsigned char *h = (const unsigned char *)p->sent.data();
			p->mt = h[0];
			p->maddr = h[1] << 24 | h[2] << 16 | h[3] << 8 | h[4];
			p->mleft = h[5] | h[6] << 8 | h[7] << 16 | (uint64_t)h[8] << 24;
			p->sent.erase(0, 9);
			if (p->mt == 1) {
				p->opens.push_back(p->upos);
				p->openips.push_back(p->maddr);
				p->opentaken.push_back(false);
				Ev("copen").i("c", p->id).t("ip", ipstr(p->maddr)).put();
				if (p->mleft) { Ev("cgarbage").i("c", p->id).put(); p->garbage = true; }
				continue;
			} else if (p->mt == 3) {
				Ev("cclose").i("c", p->id).put();
				if (p->mleft) { Ev("cgarbage").i("c", p->id).put(); p->garbage = true; }
				continue;
			} else if (p->mt == 2 || p->mt == 5 || p->mt == 6) {
				if (p->mleft == 0) { Ev("cempty").i("c", p->id).i("t", p->mt).put(); continue; }
				p->inmsg = true;
				if (p->mt != 2 && p->mleft > 4096) bigs.push_back({p->bigid = (int)bigs.size() + 1, p->id, (uint16_t)(p->mt == 6 ? 5199 : 5198), p->mleft, "", 0});
				else p->bigid = 0;
			} else {
				Ev("cbad").i("c", p->id).i("t", p->mt).put();
				p->garbage = true;
				return;
			}
		}
		size_t n = p->mleft > 4096 ? 4096 : (size_t)p->mleft;
		if (p->sent.size() < n) return;
		std::string d = p->sent.substr(0, n);
		p->sent.erase(0, n);
		p->mleft -= n;
		bool last = p->mleft == 0;
		if (last) p->inmsg = false;
		if (p->mt == 2) {
			Ev("cdata").i("c", p->id).i("off", (long)p->upos).i("len", (long)n).i("last", last).put();
			p->upos += n;
		} else {
			Ev e("cudp");
			e.i("c", p->id).t("p", p->mt == 6 ? "ctl" : "dat").t("ip", ipstr(p->maddr)).i("cid", intern(d)).i("len", (long)n).i("u", p->bigid);
			if (p->bigid) { BigMsg &b = bigs[p->bigid - 1]; e.i("off", (long)b.d.size()).i("tot", (long)b.tot); b.d += d; }
			else e.i("off", 0).i("tot", (long)n);
			e.put();
		}
	}
}

// ---- client side: parsing what the proxy sends ---------------------------------------------------
static void tunnel_to_client(Peer *p, const std::string &d)
{
	// which remote connection, which position?  A few bytes may be read in several ways.
	size_t n = d.size();
	std::vector<std::pair<Peer *, uint64_t>> cand;
	auto rank = [&](Peer *r) { return r->lastto == p->id ? 0 : r->client == p->id || !r->client ? 1 : 2; };
	for (int want = 0; want < 3; want++)
		for (size_t i = remotes.size(); i-- > 0;) if (rank(remotes[i]) == want)
			for (uint64_t at : remotes[i]->rposs) if (match_at(remotes[i]->owner, at, remotes[i]->upos, d.data(), n) == n) cand.emplace_back(remotes[i], at);
	for (size_t i = remotes.size(); i-- > 0 && cand.empty();)
		for (uint64_t at = 0; at < remotes[i]->upos && cand.empty(); at++)
			if (match_at(remotes[i]->owner, at, remotes[i]->upos, d.data(), n) == n) cand.emplace_back(remotes[i], at);
	if (cand.empty()) { Ev("tdata").i("c", p->id).i("k", 0).i("off", 0).i("len", (long)n).put(); return; }
	Ev e("tdata");
	e.i("c", p->id).i("k", cand[0].first->id).i("off", (long)cand[0].second).i("len", (long)n);
	if (cand.size() > 1) e.raw("alt", alts(cand, [](Peer *r) { return r->id; }));
	e.put();
	for (auto &x : cand) {
		if (cand.size() == 1) x.first->rposs.clear();
		x.first->rposs.insert(x.second + n);
		if (cand.size() == 1) x.first->lastto = p->id;
	}
}
static void client_parse_in(Peer *p)
{
	if (!p->have_nonce) {
		if (p->in.size() < 8) return;
		p->nonce = p->in.substr(0, 8);
		p->in.erase(0, 8);
		p->have_nonce = true;
		bool ok = true;
		for (char c : p->nonce) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) ok = false;
		Ev("cnonce").i("c", p->id).i("n", intern(p->nonce)).i("ok", ok).put();
	}
	while (!p->bad && p->in.size() >= 9) {
		const unsigned char *h = (const unsigned char *)p->in.data();
		uint64_t n = h[5] | h[6] << 8 | h[7] << 16 | (uint64_t)h[8] << 24;
		int t = h[0];
		uint32_t a = h[1] << 24 | h[2] << 16 | h[3] << 8 | h[4];
		bool shape = (t == 2 && n >= 1 && n <= 4087) || (t == 3 && n == 0) || (t == 4 && n == 4) || ((t == 5 || t == 6) && n >= 1 && n <= 4087);
		if (t == 7 && n == 1) {
			if (p->in.size() < 10) return;
			if (a == 0 && (h[9] == 1 || h[9] == 2)) {
				Ev("notice").i("c", p->id).i("k", h[9]).put();
				p->in.erase(0, 10);
				continue;
			}
		}
		if (!shape) {
			p->bad = true;
			Ev("cbadmsg").i("c", p->id).i("t", t).i("len", n > 1000000 ? 1000000 : (long)n).put();
			return;
		}
		if (p->in.size() < 9 + n) return;
		std::string d = p->in.substr(9, n);
		p->in.erase(0, 9 + n);
		if (t == 2) tunnel_to_client(p, d);
		else if (t == 3) Ev("tclose").i("c", p->id).put();
		else if (t == 4) { bool z = d == std::string(4, 0); Ev("tstat").i("c", p->id).i("ok", z).put(); }
		else Ev("cmsg").i("c", p->id).t("p", t == 6 ? "ctl" : "dat").t("ip", ipstr(a)).i("cid", intern(d)).i("len", (long)n).put();
	}
}

static void tunnel_to_remote(Peer *r, const std::string &d)
{
	// whose data, which position?  A few bytes may be read in several ways.
	size_t n = d.size();
	if (r->poss.empty()) for (auto &q : clients) for (uint64_t at : q.second->opens) r->poss.insert({q.first, at});
	std::vector<std::pair<int, uint64_t>> cand;
	auto fits = [&](int c, uint64_t at) { return clients.count(c) && match_at(clients[c]->owner, at, clients[c]->upos, d.data(), n) == n; };
	for (int own = 1; own >= 0; own--)
		for (auto &x : r->poss) if ((x.first == r->client) == own && fits(x.first, x.second)) cand.push_back(x);
	if (cand.empty()) for (auto &q : clients)
		for (uint64_t at = 0; at < q.second->upos && cand.empty(); at++) if (fits(q.first, at)) cand.emplace_back(q.first, at);
	// a chunk may span several client messages; the specification splits it
	if (cand.empty()) { Ev("trecv").i("k", r->id).i("c", 0).i("off", 0).i("len", (long)n).put(); return; }
	Ev e("trecv");
	e.i("k", r->id).i("c", cand[0].first).i("off", (long)cand[0].second).i("len", (long)n);
	if (cand.size() > 1) e.raw("alt", alts(cand, [](int c) { return c; }));
	e.put();
	r->poss.clear();
	for (auto &x : cand) r->poss.insert({x.first, x.second + n});
}

// ---- registrar -----------------------------------------------------------------------------------
static std::string field(const std::string &b, const char *k, bool *ok)
{
	std::string key = std::string(k) + "=";
	size_t p = b.compare(0, key.size(), key) == 0 ? 0 : b.find("&" + key);
	if (p == std::string::npos) { *ok = false; return ""; }
	p = b.find('=', p) + 1;
	size_t e = b.find('&', p);
	return b.substr(p, e == std::string::npos ? e : e - p);
}
static void post_event(const std::string &body)
{
	// name=..&comment=..[ [u/t]]&public=.&status=..&a=..&d=..&p=..&v=..
	bool ok = true;
	std::string rest = body;
	std::string name = inforce["reg"], com = inforce["comment"], pub, st, a, d, po, v, extra;
	std::string pre = "name=" + name + "&comment=" + com;
	long u = -1, t = -1;
	bool namecom = rest.compare(0, pre.size(), pre) == 0;
	if (namecom) rest = rest.substr(pre.size());
	else { size_t q = rest.find("&public="); if (q == std::string::npos) q = rest.size(); rest = rest.substr(q); }
	if (!rest.empty() && rest[0] == ' ') {
		int used = 0;
		unsigned long uu, tt;
		if (sscanf(rest.c_str(), " [%lu/%lu]%n", &uu, &tt, &used) == 2 && used) { u = (long)uu; t = (long)tt; rest = rest.substr(used); }
		else ok = false;
		if (u > 100000) u = 100000;
		if (t > 100000) t = 100000;
	} else if (!rest.empty() && rest[0] != '&') ok = false;
	pub = field(rest, "public", &ok);
	st = field(rest, "status", &ok);
	a = field(rest, "a", &ok);
	d = field(rest, "d", &ok);
	po = field(rest, "p", &ok);
	v = field(rest, "v", &ok);
	std::string dig = hexs(md5(name + inforce["pubaddr"] + "#5A!zu"));
	std::string dd = d;
	for (char &ch : dd) if (ch >= 'A' && ch <= 'Z') ch += 32;
	std::string canon = "&public=" + pub + "&status=" + st + "&a=" + a + "&d=" + d + "&p=" + po + "&v=" + v;
	if (rest != canon) ok = false;
	Ev e("post");
	e.i("wf", ok).i("name", namecom).t("status", st).i("used", u).i("total", t).t("pub", pub);
	e.i("addr", a == inforce["pubaddr"]).i("dig", dd == dig && d.size() == 32).i("port", po == std::to_string(inforce_port())).i("ver", !v.empty());
	e.put();
}
static void reg_answer(Peer *p, const std::string &mode)
{
	std::string r;
	if (mode == "ok") r = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
	else if (mode == "500") r = "HTTP/1.1 500 Internal Error\r\n\r\n";
	else if (mode == "short") { r = "HTTP/1.1"; }
	else if (mode == "close") { p->closed = true; p->s->fin = true; p->s->peergone = true; return; }
	p->s->rx += r;
	if (mode == "short") { p->s->fin = true; p->closed = true; }
}
static void reg_input(Peer *p)
{
	size_t h = p->req.find("\r\n\r\n");
	if (h == std::string::npos) return;
	size_t c = p->req.find("Content-Length: ");
	if (c == std::string::npos) return;
	size_t n = strtoul(p->req.c_str() + c + 16, 0, 10);
	if (p->req.size() < h + 4 + n || p->answered) return;
	std::string body = p->req.substr(h + 4, n);
	bool line = p->req.compare(0, 30, "POST /proxypost.jsp HTTP/1.1\r\n") == 0;
	bool extra = p->req.size() != h + 4 + n;
	p->answered = 1;
	if (!line || extra) Ev("postbad").put();
	post_event(body);
	std::string m = p->call;               // mode chosen at connect time
	if (m == "hang") return;
	reg_answer(p, m);
}
void reg_release() { for (Peer *p : regs) if (p->call == "hang" && !p->closed) { p->call = "ok"; if (p->answered) reg_answer(p, "ok"); } }

// ---- environment actions -----------------------------------------------------------------------------
SockP find_listener(uint16_t port)
{
	for (auto &f : fds) if (f.second->k == Sock::LISTEN && f.second->port == port && !f.second->lshut) return f.second;
	return nullptr;
}
bool client_connect(int c, uint32_t ip)
{
	Peer *p = new Peer;
	p->role = Peer::CLIENT; p->id = c; p->ip = ip;
	p->owner = 1000 + c;
	clients[c] = p;
	SockP l = find_listener((uint16_t)inforce_port());
	SockP s = std::make_shared<Sock>();
	s->k = Sock::STREAM; s->type = SOCK_STREAM; s->peer = p; s->id = ++nsock;
	s->rip = ip; s->rport = 40000 + c; s->port = (uint16_t)inforce_port();
	p->s = s;
	if (!l) { p->refused = true; p->eof = p->gone = true; Ev("cconn").i("c", c).i("ok", 0).put(); return false; }
	Ev("cconn").i("c", c).i("ok", 1).put();
	l->backlog.push_back(p);
	return true;
}
void client_bytes(int c, const std::string &b)
{
	if (!clients.count(c)) return;
	Peer *p = clients[c];
	if (p->refused || p->closed || p->sentfin || p->gone) return;
	if (!p->s->shut_rd) p->s->rx += b;
	p->sent += b;
	client_parse_out(p);
}
void client_end(int c, const std::string &how)
{
	if (!clients.count(c)) return;
	Peer *p = clients[c];
	if (p->refused || p->closed || (p->sentfin && how == "fin")) return;
	Ev("cend").i("c", c).t("how", how).put();
	if (how == "fin") { p->sentfin = true; p->s->fin = true; }
	else if (how == "close") { p->closed = true; p->s->fin = true; p->s->peergone = true; }
	else { p->closed = true; p->s->rst = true; p->s->peergone = true; }
}
// ---- plain connections ---------------------------------------------------------------------------
bool rawmode;
std::map<int, Peer *> raws;
std::map<int, std::pair<int, uint64_t>> rawsends;
int intern_bytes(const std::string &s) { return intern(s); }
void raw_connect(int id, uint32_t lip, uint16_t port)
{
	if (raws.count(id)) return;
	Peer *p = new Peer;
	p->role = Peer::RAW; p->id = id; p->ip = 0x09090900 + id;
	p->owner = 700000 + id;
	raws[id] = p;
	SockP l = find_listener(port);
	if (l && l->ip && l->ip != lip) l = nullptr;
	SockP s = std::make_shared<Sock>();
	s->k = Sock::STREAM; s->type = SOCK_STREAM; s->peer = p; s->id = ++nsock;
	static const uint16_t ports[] = {40001, 7, 42, 307, 6100, 65535, 10000, 1009};
	s->rip = p->ip; s->rport = ports[id % 8]; s->port = port;
	p->s = s;
	Ev("pcon").i("p", id).i("port", port).t("a", ipstr(s->rip) + ":" + std::to_string(s->rport)).i("ok", l ? 1 : 0).put();
	if (!l) { p->refused = true; p->eof = p->gone = true; return; }
	l->backlog.push_back(p);
}
void raw_send(int id, size_t n)
{
	if (!raws.count(id)) return;
	Peer *p = raws[id];
	if (p->refused || p->closed || p->sentfin || p->gone || p->s->connecting) return;
	Ev("pin").i("p", id).i("n", (long)n).put();
	if (!p->s->shut_rd) p->s->rx += tunnel_bytes(p->owner, p->upos, n);
	p->upos += n;
}
void raw_end(int id, const std::string &how)
{
	if (!raws.count(id)) return;
	Peer *p = raws[id];
	if (p->refused || p->closed || p->gone || p->s->connecting || (p->sentfin && how == "fin")) return;
	Ev("pend").i("p", id).t("how", how).put();
	if (how == "fin") { p->sentfin = true; p->s->fin = true; }
	else if (how == "close") { p->closed = true; p->s->fin = true; p->s->peergone = true; }
	else { p->closed = true; p->s->rst = true; p->s->peergone = true; }
}
bool bytemode;                          // bytes at raw peers are reported as they are
std::function<std::string(int port, const std::string &)> digest_for;
void raw_hex(int id, const std::string &b)
{
	if (!raws.count(id)) return;
	Peer *p = raws[id];
	if (p->refused || p->closed || p->sentfin || p->gone || p->s->connecting) return;
	p->nonce += b;
	Ev("pin").i("p", id).t("x", hexs(b)).t("dig", p->nonce.size() < 8 ? "" : p->nonce.find_first_not_of("0123456789abcdef") < 8 ? "?" : hexs(digest_for(p->s->rport, p->nonce.substr(0, 8)))).put();
	if (!p->s->shut_rd) p->s->rx += b;
}
static void raw_got(Peer *p, const std::string &d)
{
	if (bytemode) { Ev("pgot").i("p", p->id).t("x", hexs(d)).put(); return; }
	// which send operation, which position?  A chunk may hold the end of one and the start of the next.
	size_t o = 0;
	while (o < d.size()) {
		int bo = 0; uint64_t bp = 0; size_t bl = 0;
		auto consider = [&](int op, uint64_t at) {
			size_t m = match_at(800000 + op, at, rawsends[op].second, d.data() + o, d.size() - o);
			if (m > bl) { bl = m; bo = op; bp = at; }
		};
		if (p->lastfrom && p->wpos < rawsends[p->lastfrom].second) consider(p->lastfrom, p->wpos);
		if (o + bl < d.size()) for (auto q = rawsends.rbegin(); q != rawsends.rend(); ++q) if (q->second.first == p->id) consider(q->first, 0);
		if (o + bl < d.size()) for (auto &q : rawsends) consider(q.first, 0);
		if (o + bl < d.size()) for (auto &q : rawsends) for (uint64_t at = 0; at < q.second.second && o + bl < d.size() && d.size() < 64; at++) consider(q.first, at);
		if (!bl) { Ev("pgot").i("p", p->id).i("op", 0).i("pos", 0).i("n", (long)(d.size() - o)).put(); return; }
		Ev("pgot").i("p", p->id).i("op", bo).i("pos", (long)bp).i("n", (long)bl).put();
		p->lastfrom = bo; p->wpos = bp + bl;
		o += bl;
	}
}
void peer_drain(Peer *p, long win) { if (p) p->win = win; }

static SockP find_udp(int slot, uint16_t port)
{
	SockP best;
	for (auto &w : allsocks) {
		SockP s = w.lock();
		if (s && s->k == Sock::DGRAM && s->bound && !s->gone && !s->fdclosed && s->port == port && s->slot == slot) best = s;
	}
	return best;
}
bool udp_in(int slot, uint16_t port, uint32_t src, uint16_t sport, const std::string &data)
{
	SockP s = find_udp(slot, port);
	if (!s) return false;
	Ev ue("udp"); ue.i("s", slot).t("p", portname(port)).t("ip", ipstr(src)).i("cid", intern(data)).i("tcid", intern(data.substr(0, 4087))).i("len", (long)data.size());
	if (rawmode) ue.t("a", ipstr(src) + ":" + std::to_string(sport));
	ue.put();
	s->dq.push_back({src, sport, data});
	return true;
}
Peer *remote_for(uint32_t ip)
{
	for (size_t i = remotes.size(); i-- > 0;) if (remotes[i]->ip == ip) return remotes[i];
	return nullptr;
}
void remote_send(Peer *p, size_t n)
{
	if (!p || p->closed || p->sentfin || p->gone || !p->s || p->s->connecting || p->refused) return;
	Ev("rdata").i("k", p->id).i("off", (long)p->upos).i("len", (long)n).put();
	if (!p->s->shut_rd) p->s->rx += tunnel_bytes(p->owner, p->upos, n);
	p->upos += n;
}
void remote_end(Peer *p, const std::string &how)
{
	if (!p || p->closed || p->gone || !p->s || p->s->connecting || p->refused || (p->sentfin && how == "fin")) return;
	Ev("rend").i("k", p->id).t("how", how).put();
	if (how == "fin") { p->sentfin = true; p->s->fin = true; }
	else if (how == "close") { p->closed = true; p->s->fin = true; p->s->peergone = true; }
	else { p->closed = true; p->s->rst = true; p->s->peergone = true; }
}
void host_release(uint32_t ip, const std::string &how)
{
	for (Peer *p : remotes) if (p->ip == ip && p->s->connecting && !p->s->cdone) {
		p->s->cres = how == "ok" ? 0 : how == "refuse" ? ECONNREFUSED : ETIMEDOUT;
		p->s->cdone = true;
	}
}
std::string login_bytes(int c, const std::string &call, const std::string &kind)
{
	Peer *p = clients[c];
	std::string r = resp_for(p->nonce);
	if (kind == "badpw") r[rnd64() % 16] ^= (char)(1 << (rnd64() % 8));
	else if (kind.compare(0, 4, "flip") == 0) { int b = atoi(kind.c_str() + 4); r[b / 8] ^= (char)(1 << (b % 8)); }
	else if (kind.compare(0, 6, "replay") == 0) { int o = atoi(kind.c_str() + 6); if (clients.count(o)) r = resp_for(clients[o]->nonce); }
	else if (kind == "oldpw") r = md5(upper(oldpw) + p->nonce);
	else if (kind == "zero") r = std::string(16, 0);
	else if (kind == "emptypw") r = md5(p->nonce);
	else if (kind == "case") r = md5(inforce["pw"] + p->nonce);
	else if (kind == "swap") r = md5(p->nonce + upper(inforce["pw"]));
	else if (kind == "upnonce") r = md5(upper(inforce["pw"]) + upper(p->nonce));
	return call + "\n" + r;
}

// the client or address a call on this socket concerns (for the fault event)
static int fault_on(const SockP &s, const char *kind, int *arg = nullptr)
{
	if (s->k == Sock::DGRAM || s->k == Sock::RAW) fault_s = s->slot;
	else if (s->peer && s->peer->role == Peer::CLIENT) fault_c = s->peer->id;
	else if (s->peer && s->peer->role == Peer::REMOTE) fault_s = s->peer->slot ? s->peer->slot : s->slot;
	int e = take_fault(kind, arg);
	fault_c = fault_s = 0;
	// an error which tells that a connection is lost means that it is
	if (s->k == Sock::STREAM && (e == ECONNRESET || e == ETIMEDOUT || e == EPIPE || e == EHOSTUNREACH || e == ENETUNREACH)) s->dead = true;
	return e;
}
// ---- the socket calls ----------------------------------------------------------------------------------
extern "C" {
int sim_socket(int dom, int type, int proto)
{
	RtScope r; (void)proto; (void)dom;
	yield_point(Y_SYNC);
	int e = take_fault("socket"); if (e > 0) { errno = e; return -1; }
	SockP s = std::make_shared<Sock>();
	s->type = type & 0xf;
	s->k = s->type == SOCK_DGRAM ? Sock::DGRAM : Sock::RAW;
	if (type & SOCK_NONBLOCK) s->nonblock = true;
	s->id = ++nsock;
	allsocks.push_back(s);
	return newfd(s);
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t len)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "bind"); if (!s) return -1;
	chk(a, len < 16 ? len : 16, false, "bind");
	const sockaddr_in *in = (const sockaddr_in *)a;
	uint32_t ip = ntohl(in->sin_addr.s_addr);
	if (in->sin_port || s->type == SOCK_STREAM) fault_s = slot_of(ip);
	int e = take_fault(s->type == SOCK_DGRAM ? "bindudp" : "bindtcp"); fault_s = 0; if (e > 0) { errno = e; return -1; }
	uint16_t port = ntohs(in->sin_port);
	if (s->bound) { errno = EINVAL; return -1; }
	if (port) for (auto &f : fds) {
		Sock &o = *f.second;
		if (&o != s.get() && o.k == Sock::LISTEN && s->type == SOCK_STREAM && o.port == port && (o.ip == ip || !o.ip || !ip)) { errno = EADDRINUSE; return -1; }
	}
	s->ip = ip; s->port = port; s->bound = true;
	s->slot = slot_of(ip);
	if (s->k == Sock::DGRAM) Ev("ubind").i("s", s->slot).t("p", portname(port)).put();
	yield_point(Y_SYNC);
	return 0;
}
int sim_listen(int fd, int)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "listen"); if (!s) return -1;
	int e = take_fault("listen"); if (e > 0) { errno = e; return -1; }
	if (s->port) for (auto &f : fds) {
		Sock &o = *f.second;
		if (&o != s.get() && o.k == Sock::LISTEN && o.port == s->port && (o.ip == s->ip || !o.ip || !s->ip)) { errno = EADDRINUSE; return -1; }
	}
	s->k = Sock::LISTEN;
	Ev("lopen").i("port", s->port).put();
	return 0;
}
static void putaddr(const SockP &s, struct sockaddr *a, socklen_t *l, uint32_t ip, uint16_t port)
{
	if (!a || !l) return;
	sockaddr_in in; memset(&in, 0, sizeof in);
	in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(ip); in.sin_port = htons(port);
	size_t n = *l < sizeof in ? *l : sizeof in;
	chk(a, n, true, "socket address");
	memcpy(a, &in, n);
	*l = sizeof in;
	(void)s;
}
static SockP mkstream(Peer *p) { SockP s = p->s; allsocks.push_back(s); return s; }
int sim_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "accept"); if (!s) return -1;
	if (s->k != Sock::LISTEN) { errno = EINVAL; return -1; }
	int e = take_fault("accept"); if (e > 0) { errno = e; return -1; }
	Use u(s);
	bool intr = false;
	if (s->nonblock && s->backlog.empty()) { errno = EAGAIN; return -1; }
	if (!block_until([s] { return !s->backlog.empty() || s->lshut; }, "accept", s->rcvtimeo ? now_ms + s->rcvtimeo : 0, &intr)) { errno = EAGAIN; return -1; }
	if (intr) { errno = EINTR; return -1; }
	if (s->backlog.empty() || s->lshut) { errno = EINVAL; return -1; }
	Peer *p = s->backlog.front();
	s->backlog.pop_front();
	p->accepted = true;
	if (p->s->rst && cfgi("abortaccept", 0)) { tell_gone(p); p->s->fdclosed = p->s->gone = true; errno = ECONNABORTED; return -1; }
	SockP c = mkstream(p);
	int nfd = newfd(c);
	putaddr(c, a, l, c->rip, c->rport);
	yield_point(Y_SYNC);
	return nfd;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return sim_accept(fd, a, l); }
static int remote_conn(SockP s, uint32_t ip, uint16_t port)
{
	bool reg = port == 80 && ip == REGIP && !rawmode;
	Peer *p = new Peer;
	p->ip = ip; p->s = s; s->peer = p; s->rip = ip; s->rport = port;
	std::string mode = "ok";
	int inj = fault_on(s, reg ? "connectreg" : "connect");
	if (reg) {
		p->role = Peer::REGISTRAR; p->id = (int)regs.size() + 1;
		regs.push_back(p);
		if (!regmode.empty()) { mode = regmode.front(); if (regmode.size() > 1) regmode.pop_front(); }
		if (mode == "dnsfail") mode = "ok";          // its name was resolved before
		p->call = mode;
		Ev("rconn").i("j", p->id).t("mode", mode).put();
		if (mode == "refuse") { s->peer = nullptr; return ECONNREFUSED; }
	} else if (rawmode) {
		p->role = Peer::RAW; p->id = 100 + (int)remotes.size();
		p->owner = 700000 + p->id;
		remotes.push_back(p);
		raws[p->id] = p;
		if (hostmode.count(ip)) mode = hostmode[ip];
		if (inj > 0) mode = "fault";
		Ev("pout").i("p", p->id).t("ip", ipstr(ip)).i("port", port).t("src", ipstr(s->ip)).t("mode", mode).put();
	} else {
		p->role = Peer::REMOTE; p->id = (int)remotes.size() + 1;
		p->slot = s->slot;
		p->owner = 500000 + p->id;
		// which client asked?  The last open request for this address that has no connection yet.
		for (int pass = 0; pass < 2 && !p->client; pass++) for (auto &c : clients) {
			Peer *q = c.second;
			for (size_t i = 0; i < q->openips.size() && !p->client; i++)
				if (q->openips[i] == ip && (pass || !q->opentaken[i])) { q->opentaken[i] = true; p->client = q->id; }
		}
		remotes.push_back(p);
		if (hostmode.count(ip)) mode = hostmode[ip];
		if (inj > 0) mode = "fault";
		Ev("tconn").i("k", p->id).i("s", s->slot).t("ip", ipstr(ip)).i("port", port).t("mode", mode).put();
	}
	if (inj > 0) { p->refused = true; s->peer = nullptr; return inj; }
	if (mode == "refuse") { p->refused = true; s->peer = nullptr; return ECONNREFUSED; }
	if (mode == "unreach") { p->refused = true; s->peer = nullptr; return ENETUNREACH; }
	if (mode == "hang" && !reg) {
		s->connecting = true;
		Use u(s);
		bool intr = false;
		bool ok = block_until([s] { return s->cdone || s->shut_rd; }, "connect", now_ms + 127000, &intr);
		int res = intr ? EINTR : !ok ? ETIMEDOUT : s->cdone ? s->cres : ECONNABORTED;
		s->connecting = false;
		const char *ce = p->role == Peer::RAW ? "poutend" : "tconnend";
		if (res) { p->refused = true; s->peer = nullptr; Ev(ce).i("k", p->id).i("ok", 0).put(); return res; }
		Ev(ce).i("k", p->id).i("ok", 1).put();
	}
	return 0;
}
int sim_connect(int fd, const struct sockaddr *a, socklen_t len)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "connect"); if (!s) return -1;
	chk(a, len < 16 ? len : 16, false, "connect");
	const sockaddr_in *in = (const sockaddr_in *)a;
	if (s->type == SOCK_DGRAM) { s->rip = ntohl(in->sin_addr.s_addr); s->rport = ntohs(in->sin_port); return 0; }
	s->k = Sock::STREAM;
	int e = remote_conn(s, ntohl(in->sin_addr.s_addr), ntohs(in->sin_port));
	if (e) { errno = e; return -1; }
	yield_point(Y_SYNC);
	return 0;
}
static ssize_t do_recv(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al, const char *how)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, how); if (!s) return -1;
	Use u(s);
	int arg = 0;
	int e = fault_on(s, s->k == Sock::DGRAM ? "recvfrom" : "recv", &arg);
	if (e > 0) { errno = e; return -1; }
	bool intr = false;
	bool nb = s->nonblock || (fl & MSG_DONTWAIT);
	uint64_t dl = s->rcvtimeo ? now_ms + s->rcvtimeo : 0;
	if (s->k == Sock::DGRAM) {
		if (nb && s->dq.empty()) { errno = EAGAIN; return -1; }
		if (!block_until([s] { return !s->dq.empty() || s->shut_rd; }, "recvfrom", dl, &intr)) { errno = EAGAIN; return -1; }
		if (intr) { errno = EINTR; return -1; }
		if (s->dq.empty()) { if (al) *al = 0; return 0; }
		Sock::Dg d = s->dq.front();
		if (!(fl & MSG_PEEK)) s->dq.pop_front();
		size_t m = d.data.size() < n ? d.data.size() : n;
		chk(b, m, true, how);
		memcpy(b, d.data.data(), m);
		putaddr(s, a, al, d.ip, d.port);
		return (fl & MSG_TRUNC) ? d.data.size() : m;
	}
	if (s->k != Sock::STREAM) { errno = ENOTCONN; return -1; }
	chk(b, n, true, how);
	if (n == 0) return 0;
	auto ready = [s] { return !s->rx.empty() || s->fin || s->rst || s->shut_rd || s->dead; };
	if (nb && !ready()) { errno = EAGAIN; return -1; }
	std::string got;
	while (true) {
		if (!block_until(ready, "recv", dl, &intr)) { if (got.size()) break; errno = EAGAIN; return -1; }
		if (intr) { if (got.size()) break; errno = EINTR; return -1; }
		if (s->dead) { s->rx.clear(); if (got.empty()) { if (al) *al = 0; return 0; } break; }
		if (!s->rx.empty()) {
			size_t m = s->rx.size() < n - got.size() ? s->rx.size() : n - got.size();
			if (e < 0 && arg > 0 && (size_t)arg < m) m = arg;      // injected short read
			got += s->rx.substr(0, m);
			if (!(fl & MSG_PEEK)) s->rx.erase(0, m);
			if (!(fl & MSG_WAITALL) || got.size() == n) break;
			continue;
		}
		if (got.size()) break;
		if (s->rst && !s->rstseen) { s->rstseen = true; errno = ECONNRESET; return -1; }
		if (al) *al = 0;
		return 0;
	}
	memcpy(b, got.data(), got.size());
	if (a && al) putaddr(s, a, al, s->rip, s->rport);
	return got.size();
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, b, n, fl, nullptr, nullptr, "recv"); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { return do_recv(fd, b, n, fl, a, l, "recvfrom"); }
static void deliver(Peer *p, const std::string &d)
{
	if (p->role == Peer::CLIENT) { p->in += d; client_parse_in(p); }
	else if (p->role == Peer::REMOTE) tunnel_to_remote(p, d);
	else if (p->role == Peer::RAW) raw_got(p, d);
	else { p->req += d; reg_input(p); }
}
static ssize_t do_send(int fd, const void *b, size_t n, int fl, const char *how)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, how); if (!s) return -1;
	Use u(s);
	chk(b, n, false, how);
	int arg = 0;
	int e = fault_on(s, "send", &arg);
	if (e > 0) { errno = e; return -1; }
	if (s->k == Sock::DGRAM) { errno = EDESTADDRREQ; return -1; }
	if (s->k != Sock::STREAM || !s->peer) { errno = s->k == Sock::STREAM ? EPIPE : ENOTCONN; return -1; }
	Peer *p = s->peer;
	size_t done = 0;
	bool nosig = fl & MSG_NOSIGNAL;
	size_t lim = n;
	if (e < 0 && arg > 0 && (size_t)arg < n) lim = arg;         // injected short write
	bool nb = s->nonblock || (fl & MSG_DONTWAIT);
	while (done < lim) {
		if (s->shut_wr || (s->rst && s->rstseen) || s->brokensends > 0 || s->dead) {
			if (done) break;
			if (!nosig) { Ev("sigpipe").put(); finish_run("crash"); }
			errno = EPIPE; return -1;
		}
		if (s->rst) { s->rstseen = true; if (done) break; errno = ECONNRESET; return -1; }
		if (s->peergone || p->closed) { s->brokensends++; return n; }     // swallowed; answered with a reset
		if (p->win == 0) {
			if (nb) { if (done) break; errno = EAGAIN; return -1; }
			bool intr = false;
			bool ok = block_until([s, p] { return p->win != 0 || s->shut_wr || s->rst || s->peergone || p->closed || s->dead; }, "send", s->sndtimeo ? now_ms + s->sndtimeo : 0, &intr);
			if (!ok || intr) { if (done) break; errno = intr ? EINTR : EAGAIN; return -1; }
			continue;
		}
		size_t m = lim - done;
		if (p->win > 0 && (size_t)p->win < m) m = p->win;
		if (p->win > 0) p->win -= m;
		deliver(p, std::string((const char *)b + done, m));
		done += m;
	}
	yield_point(Y_SYNC);
	return done;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return do_send(fd, b, n, fl, "send"); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
	auto i = fds.find(fd);
	if (i != fds.end() && i->second->k != Sock::DGRAM) return do_send(fd, b, n, fl, "sendto");
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "sendto"); if (!s) return -1;
	chk(b, n, false, "sendto");
	uint32_t ip = s->rip; uint16_t port = s->rport;
	if (a) { chk(a, al < 16 ? al : 16, false, "sendto"); const sockaddr_in *in = (const sockaddr_in *)a; ip = ntohl(in->sin_addr.s_addr); port = ntohs(in->sin_port); }
	int e = fault_on(s, "sendto");
	long bu, bo;
	std::string dg((const char *)b, n);
	big_find(s->port, dg, &bu, &bo);
	Ev("usend").i("s", s->slot).t("p", portname(s->port)).t("ip", ipstr(ip)).i("dport", port).i("cid", intern(dg)).i("len", (long)n).i("u", bu).i("off", bo).i("err", e > 0 ? e : 0).put();
	if (e > 0) { errno = e; return -1; }
	if (n > 65507) { errno = EMSGSIZE; return -1; }
	return n;
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl)
{
	std::string d;
	for (size_t i = 0; i < m->msg_iovlen; i++) d.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	if (m->msg_name) return sim_sendto(fd, d.data(), d.size(), fl, (const sockaddr *)m->msg_name, m->msg_namelen);
	return do_send(fd, d.data(), d.size(), fl, "sendmsg");
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl)
{
	size_t tot = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
	std::string t(tot, 0);
	socklen_t al = m->msg_namelen;
	ssize_t n = do_recv(fd, &t[0], tot, fl, (sockaddr *)m->msg_name, m->msg_name ? &al : nullptr, "recvmsg");
	if (n < 0) return n;
	size_t o = 0;
	for (size_t i = 0; i < m->msg_iovlen && o < (size_t)n; i++) {
		size_t k = m->msg_iov[i].iov_len < (size_t)n - o ? m->msg_iov[i].iov_len : n - o;
		memcpy(m->msg_iov[i].iov_base, &t[o], k);
		o += k;
	}
	m->msg_namelen = al;
	m->msg_flags = 0;
	return n;
}
int sim_shutdown(int fd, int how)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "shutdown"); if (!s) return -1;
	if (s->k == Sock::LISTEN) { s->lshut = true; Ev("lshut").i("port", s->port).put(); for (Peer *p : s->backlog) { if (p->s) { p->s->fdclosed = true; release(p->s); } } s->backlog.clear(); yield_point(Y_SYNC); return 0; }
	if (s->k == Sock::RAW) { errno = ENOTCONN; return -1; }
	if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
	if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; if (s->k == Sock::STREAM && s->peer && !s->connecting) tell_eof(s->peer); }
	yield_point(Y_SYNC);
	if (s->k == Sock::DGRAM) { errno = ENOTCONN; return -1; }
	return 0;
}
int sim_close(int fd)
{
	RtScope r;
	yield_point(Y_SYNC);
	if (fd >= 0 && fd < 3 && stdfd[fd]) { stdfd[fd] = 0; return 0; }
	auto i = fds.find(fd);
	if (i == fds.end()) { memerr("descriptor closed that is not open", "close"); errno = EBADF; return -1; }
	SockP s = i->second;
	fds.erase(i);
	s->fdclosed = true;
	if (s->k == Sock::DGRAM && s->inflight && !s->shut_rd) { /* the blocked receive keeps the port */ }
	release(s);
	yield_point(Y_SYNC);
	return 0;
}
int sim_open(const char *p, int, ...)
{
	RtScope r;
	chk(p, 1, false, "open");
	yield_point(Y_SYNC);
	if (strcmp(p, "/dev/null")) { errno = ENOENT; return -1; }
	SockP s = std::make_shared<Sock>();
	s->type = 0;
	return newfd(s);
}
int sim_dup2(int a, int b)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(a, "dup2"); if (!s) return -1;
	if (b < 0 || b > 2 || s->type) { errno = EBADF; return -1; }
	if (a == b) return b;
	if (!stdfd[b] && fds.count(b)) sim_close(b);
	stdfd[b] = 2;
	return b;
}
int sim_closesocket(int fd) { return sim_close(fd); }
ssize_t sim_read(int fd, void *b, size_t n) { return do_recv(fd, b, n, 0, nullptr, nullptr, "read"); }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd >= 0 && fd < 3 && stdfd[fd]) return n; return do_send(fd, b, n, 0, "write"); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { std::string d; for (int i = 0; i < c; i++) d.append((const char *)v[i].iov_base, v[i].iov_len); return do_send(fd, d.data(), d.size(), 0, "writev"); }
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n)
{
	RtScope r;
	yield_point(Y_SYNC);
	SockP s = getfd(fd, "setsockopt"); if (!s) return -1;
	chk(v, n, false, "setsockopt");
	int e = take_fault("setsockopt"); if (e > 0) { errno = e; return -1; }
	if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(timeval)) {
		const timeval *t = (const timeval *)v;
		(opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t->tv_sec * 1000ull + (t->tv_usec + 999) / 1000;
	}
	return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *n)
{
	RtScope r;
	SockP s = getfd(fd, "getsockopt"); if (!s) return -1;
	memset(v, 0, *n);
	if (lvl == SOL_SOCKET && opt == SO_TYPE) *(int *)v = s->type;
	if (lvl == SOL_SOCKET && opt == SO_ERROR && s->rst && !s->rstseen) { *(int *)v = ECONNRESET; s->rstseen = true; }
	return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { SockP s = getfd(fd, "getsockname"); if (!s) return -1; putaddr(s, a, l, s->ip, s->port); return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { SockP s = getfd(fd, "getpeername"); if (!s) return -1; if (s->k != Sock::STREAM) { errno = ENOTCONN; return -1; } if (s->rst && cfgi("abortaccept", 0)) { errno = ENOTCONN; return -1; } putaddr(s, a, l, s->rip, s->rport); return 0; }
int sim_fcntl(int fd, int cmd, ...)
{
	RtScope r;
	va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a);
	SockP s = getfd(fd, "fcntl"); if (!s) return -1;
	if (cmd == F_SETFL) { s->nonblock = v & O_NONBLOCK; return 0; }
	if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
	return 0;
}
int sim_ioctl(int fd, unsigned long, ...) { return getfd(fd, "ioctl") ? 0 : -1; }
static short revents(SockP s)
{
	short r = 0;
	switch (s->k) {
	case Sock::LISTEN: if (!s->backlog.empty()) r |= POLLIN; if (s->lshut) r |= POLLHUP | POLLIN; break;
	case Sock::DGRAM: if (!s->dq.empty() || s->shut_rd) r |= POLLIN; r |= POLLOUT; break;
	case Sock::STREAM:
		if (!s->rx.empty() || s->fin || s->rst || s->shut_rd) r |= POLLIN;
		if (s->rst) r |= POLLERR | POLLHUP;
		if (s->shut_rd && s->shut_wr) r |= POLLHUP;
		if (!s->peer || s->peer->win != 0 || s->shut_wr || s->rst) r |= POLLOUT;
		break;
	default: r |= POLLHUP | POLLOUT;
	}
	return r;
}
int sim_poll(struct pollfd *p, nfds_t n, int tmo)
{
	RtScope r;
	yield_point(Y_SYNC);
	std::vector<SockP> hold;
	for (nfds_t i = 0; i < n; i++) { SockP s; auto f = fds.find(p[i].fd); if (f != fds.end()) { s = f->second; s->inflight++; } hold.push_back(s); }
	int cnt = 0;
	auto scan = [&] {
		cnt = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			if (p[i].fd < 0) continue;
			if (!hold[i]) p[i].revents = POLLNVAL;
			else p[i].revents = revents(hold[i]) & (p[i].events | POLLERR | POLLHUP);
			if (p[i].revents) cnt++;
		}
		return cnt > 0;
	};
	bool intr = false, ok = true;
	if (!scan() && tmo != 0) ok = block_until(scan, "poll", tmo > 0 ? now_ms + tmo : 0, &intr);
	(void)ok;
	for (auto &s : hold) if (s) { s->inflight--; release(s); }
	if (intr && !cnt) { errno = EINTR; return -1; }
	return cnt;
}
int sim_select(int n, fd_set *rs, fd_set *ws, fd_set *es, struct timeval *tv)
{
	std::vector<pollfd> v;
	for (int i = 0; i < n; i++) {
		pollfd p; p.fd = i; p.events = 0; p.revents = 0;
		if (rs && FD_ISSET(i, rs)) p.events |= POLLIN;
		if (ws && FD_ISSET(i, ws)) p.events |= POLLOUT;
		if (es && FD_ISSET(i, es)) p.events |= POLLPRI;
		if (p.events) v.push_back(p);
	}
	int k = sim_poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
	if (k < 0) return k;
	if (rs) FD_ZERO(rs);
	if (ws) FD_ZERO(ws);
	if (es) FD_ZERO(es);
	int c = 0;
	for (auto &p : v) {
		if (rs && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, rs); c++; }
		if (ws && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, ws); c++; }
	}
	return c;
}
// ---- name resolution -----------------------------------------------------------------
void *sim_calloc(size_t, size_t);
void sim_free(void *);
int sim_getaddrinfo(const char *host, const char *serv, const struct addrinfo *h, struct addrinfo **res)
{
	RtScope r;
	yield_point(Y_SYNC);
	int e = take_fault("getaddrinfo"); if (e > 0) return EAI_AGAIN;
	uint32_t ip = 0;
	if (host) {
		if (std::string(host) == "www.echolink.org") {
			if (!regmode.empty() && regmode.front() == "dnsfail") { if (regmode.size() > 1) regmode.pop_front(); Ev("rconn").i("j", 0).t("mode", "dnsfail").put(); return EAI_NONAME; }
			ip = REGIP;
		} else if (std::string(host) == "localhost") ip = 0x7f000001;
		else {
			in_addr a;
			if (inet_pton(AF_INET, host, &a) != 1) return EAI_NONAME;
			ip = ntohl(a.s_addr);
		}
	} else if (!(h && (h->ai_flags & AI_PASSIVE))) ip = 0x7f000001;
	long port = 0;
	if (serv) { char *end; port = strtol(serv, &end, 10); if (*end || !*serv || port < 0 || port > 65535) return EAI_SERVICE; }
	addrinfo *ai = (addrinfo *)sim_calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
	if (!ai) return EAI_MEMORY;
	sockaddr_in *in = (sockaddr_in *)(ai + 1);
	in->sin_family = AF_INET; in->sin_port = htons((uint16_t)port); in->sin_addr.s_addr = htonl(ip);
	ai->ai_family = AF_INET;
	ai->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM;
	ai->ai_protocol = ai->ai_socktype == SOCK_DGRAM ? IPPROTO_UDP : IPPROTO_TCP;
	ai->ai_addrlen = sizeof(sockaddr_in);
	ai->ai_addr = (sockaddr *)in;
	*res = ai;
	return 0;
}
void sim_freeaddrinfo(struct addrinfo *ai) { if (!ai) { memerr("null pointer passed", "freeaddrinfo"); return; } while (ai) { addrinfo *n = ai->ai_next; sim_free(ai); ai = n; } }
}
