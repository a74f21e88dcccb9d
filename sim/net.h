#pragma once
#include "rt.h"
#include <set>
#include <netinet/in.h>

// A socket of the code under test.
struct Peer;
struct Sock {
	enum K { RAW, LISTEN, STREAM, DGRAM } k = RAW;
	int type = 0;                        // SOCK_STREAM / SOCK_DGRAM
	uint32_t ip = 0; uint16_t port = 0;  // local address (host order)
	bool bound = false;
	uint32_t rip = 0; uint16_t rport = 0;
	// stream
	std::string rx;                      // bytes waiting to be received
	bool dead = false;                   // ended by a fatal error: nothing more moves
	bool fin = false;                    // peer finished sending
	bool rst = false, rstseen = false;   // peer reset
	bool peergone = false;               // peer closed completely
	int brokensends = 0;
	bool shut_rd = false, shut_wr = false;
	bool connecting = false; int cres = 0; bool cdone = false;
	// listener
	std::deque<Peer *> backlog;
	bool lshut = false;
	// datagrams
	struct Dg { uint32_t ip; uint16_t port; std::string data; };
	std::deque<Dg> dq;
	uint64_t rcvtimeo = 0, sndtimeo = 0;
	bool nonblock = false;
	int inflight = 0;                    // blocked calls holding a reference
	bool fdclosed = false, gone = false;
	Peer *peer = nullptr;
	int id = 0;
	int slot = 0;                        // index of the external address, 0 = none
};
typedef std::shared_ptr<Sock> SockP;

// The other end of a stream connection (environment side).
struct Peer {
	enum R { CLIENT, REMOTE, REGISTRAR, RAW } role = CLIENT;
	int id = 0;                          // client number / connection number
	SockP s;                             // proxy side
	bool closed = false;                 // environment closed its end
	bool sentfin = false;
	bool refused = false;
	long win = -1;                       // bytes we still accept, -1 = unlimited
	bool eof = false;                    // proxy finished sending
	bool gone = false;                   // proxy released the connection
	bool accepted = false;
	uint32_t ip = 0;                     // remote address
	int slot = 0;
	// client bookkeeping
	std::string in;                      // received, not yet parsed
	std::string nonce;
	bool have_nonce = false;
	bool logged = false;                 // login bytes complete
	bool bad = false;
	std::string sent;                    // sent, not yet parsed as login/messages
	std::string call;
	uint64_t upos = 0;                   // tunnel bytes sent so far (client) / sent so far (remote)
	int lastto = 0, lastfrom = 0;
	uint64_t rpos = 0, wpos = 0;                   // next expected position
	std::set<std::pair<int, uint64_t>> poss;       // ways to read what was delivered so far: owner, next position
	std::set<uint64_t> rposs{0};
	// message being parsed (client -> proxy)
	int mt = 0; uint32_t maddr = 0; uint64_t mleft = 0; bool inmsg = false; int bigid = 0;
	bool garbage = false;
	uint64_t owner = 0;                  // stream identity
	std::string req;                     // registrar request
	int answered = 0;
	int client = 0;
	std::vector<uint64_t> opens;         // tunnel position at each open request
	std::vector<uint32_t> openips;
	std::vector<bool> opentaken;
};
extern std::map<int, Peer *> clients;
extern std::vector<Peer *> remotes;      // every attempt, in order
extern std::vector<Peer *> regs;
extern std::map<uint32_t, std::string> hostmode;
extern std::deque<std::string> regmode;

std::vector<std::string> net_listeners();
// plain connections, for the connection unit
extern bool rawmode;
extern std::map<int, Peer *> raws;
extern std::map<int, std::pair<int, uint64_t>> rawsends;   // send operation -> (peer, length)
void raw_connect(int id, uint32_t lip, uint16_t port);
void raw_send(int id, size_t n);
void raw_hex(int id, const std::string &b);
void raw_end(int id, const std::string &how);
int intern_bytes(const std::string &s);
SockP find_listener(uint16_t port);
bool client_connect(int c, uint32_t ip);
void client_bytes(int c, const std::string &b);
void client_end(int c, const std::string &how);
void peer_drain(Peer *p, long win);
bool udp_in(int slot, uint16_t port, uint32_t src, uint16_t sport, const std::string &data);
Peer *remote_for(uint32_t ip);
void remote_send(Peer *p, size_t n);
void remote_end(Peer *p, const std::string &how);
void reg_release();
void host_release(uint32_t ip, const std::string &how);
std::string tunnel_bytes(uint64_t owner, uint64_t from, size_t n);
uint32_t ip4(const std::string &s);
int slot_of(uint32_t ip);
std::string login_bytes(int c, const std::string &call, const std::string &kind);
std::string md5(const std::string &s);
std::string hexs(const std::string &b);
bool netdown_timeout();
