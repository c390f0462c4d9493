// N01: the networked consumers (GAsioConsumerT, GWebsocketConsumerT) on the loopback interface.
//  kind 0: scripted clients speaking the protocol over raw sockets, including misbehaving ones
//  kind 1: the clients that come with the consumers, in processes of their own
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GBufferPortT.hpp"
#include "courtier/GCommandContainerT.hpp"
#include "courtier/GAsioConsumerT.hpp"
#include "courtier/GWebsocketConsumerT.hpp"
#include <boost/serialization/export.hpp>
#include <boost/program_options.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <map>
#include <set>
#include "drv.hpp"
using namespace drv; using namespace Gem::Courtier; using Gem::Common::serializationMode;
class NetItem : public GProcessingContainerT<NetItem, int> {
	friend class boost::serialization::access;
	template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & make_nvp("base", boost::serialization::base_object<GProcessingContainerT<NetItem, int>>(*this)) & BOOST_SERIALIZATION_NVP(k) & BOOST_SERIALIZATION_NVP(kind) & BOOST_SERIALIZATION_NVP(pay); }
public:
	int k = 0, kind = 0; std::string pay; // kind: 0 works, 1 throws, 2 throws something unusual, 3 flags an error, 4 ends its client
	NetItem() : GProcessingContainerT<NetItem, int>(1) {}
	void process_() override {
		switch (kind) { case 1: throw std::runtime_error("item fails"); case 2: throw 17; case 3: this->force_set_error("flagged"); break; case 4: _exit(7); case 5: ::usleep(3000); break; }
		this->registerResult(0, 1000 + k); }
};
BOOST_CLASS_EXPORT(NetItem)
using Port = GBufferPortT<NetItem>; using PI = std::shared_ptr<NetItem>; using dsec = std::chrono::duration<double>;
using Cmd = networked_consumer_payload_command; using Box = GCommandContainerT<NetItem, Cmd>;
static serializationMode g_sm; static bool g_ws; static unsigned short g_port;
static std::map<int, PI> g_sent; // what was submitted (copies)
static std::string payload(int k) { std::string s = "payload <&\"'>\n"; for (int i = 0; i < (k * 7919) % (k % 5 == 0 ? 40000 : 50); i++) s += char('a' + (i * 7 + k) % 26); return s; }
static PI make_item(int k, int kind, long port) { auto p = std::make_shared<NetItem>(); p->k = k; p->kind = kind; p->pay = payload(k); p->setBufferId(port); p->setCollectionPosition(k * 3); p->mark_as_due_for_processing(); return p; }
static bool same(NetItem const& p, long home) { return p.kind == g_sent.at(p.k)->kind && p.pay == payload(p.k) && (long)p.getBufferId() == home && (long)p.getCollectionPosition() == p.k * 3; }
static std::string status(NetItem& p) { return p.is_processed() ? (p.getStoredResult(0) == 1000 + p.k ? "ok" : "wrong") : p.has_errors() ? (p.get_and_clear_exceptions().empty() ? "silent" : "fail") : p.is_due_for_processing() ? "due" : "other"; }
// ------------------------------------------------------------------ sockets
static bool put_all(int fd, std::string const& s) { size_t p = 0; while (p < s.size()) { ssize_t w = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL); if (w <= 0) return false; p += size_t(w); } return true; }
static int dial() { int fd = ::socket(AF_INET, SOCK_STREAM, 0); timeval tv{8, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(g_port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); return -1; } return fd; }
static void hangup(int& fd, bool hard) { if (fd < 0) return; if (hard) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); fd = -1; }
static std::string frame(std::string const& s, int op) { std::string o; o += char(0x80 | op); size_t n = s.size(); if (n < 126) o += char(0x80 | n); else if (n < 65536) { o += char(0x80 | 126); o += char(n >> 8); o += char(n & 255); } else { o += char(0x80 | 127); for (int i = 7; i >= 0; i--) o += char((uint64_t(n) >> (8 * i)) & 255); } o += std::string(4, '\0'); return o + s; }
struct Client { int fd = -1; std::string buf;
	bool fill() { char b[65536]; ssize_t n = ::recv(fd, b, sizeof b, 0); if (n <= 0) { why = n == 0 ? "closed" : (errno == EAGAIN || errno == EWOULDBLOCK) ? "timeout" : "closed"; return false; } buf.append(b, size_t(n)); return true; }
	std::string why;
	bool open() { if (fd >= 0) return true; buf.clear(); fd = dial(); if (fd < 0) return false; if (!g_ws) return true;
		put_all(fd, "GET / HTTP/1.1\r\nHost: 127.0.0.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
		size_t e; while ((e = buf.find("\r\n\r\n")) == std::string::npos) if (!fill()) { hangup(fd, false); return false; }
		if (buf.find(" 101 ") == std::string::npos) { hangup(fd, false); return false; } buf.erase(0, e + 4); return true; }
	std::string wire(std::string const& s) { return g_ws ? frame(s, g_sm == serializationMode::BINARY ? 2 : 1) : s; }
	bool send(std::string const& s) { if (!open()) return false; bool ok = put_all(fd, wire(s)); if (!g_ws) ::shutdown(fd, SHUT_WR); return ok; }
	// "msg" with the message, or "empty", "closed", "timeout"
	std::string recv(std::string& m) { m.clear();
		if (!g_ws) { while (fill()) {} hangup(fd, false); if (why == "timeout") return why; m.swap(buf); return m.empty() ? "empty" : "msg"; }
		while (true) { auto need = [&](size_t n) { while (buf.size() < n) if (!fill()) return false; return true; };
			if (!need(2)) break; int op = buf[0] & 15; bool fin = buf[0] & 0x80; size_t n = buf[1] & 127, h = 2; if (n == 126) { if (!need(4)) break; n = (size_t((unsigned char)buf[2]) << 8) | (unsigned char)buf[3]; h = 4; } else if (n == 127) { if (!need(10)) break; n = 0; for (int i = 2; i < 10; i++) n = n << 8 | (unsigned char)buf[i]; h = 10; }
			if (!need(h + n)) break; std::string d = buf.substr(h, n); buf.erase(0, h + n);
			if (op == 9) { put_all(fd, frame(d, 10)); continue; } if (op == 10) continue; if (op == 8) { put_all(fd, frame(d, 8)); why = "closed"; break; }
			m += d; if (fin) return m.empty() ? "empty" : "msg"; }
		hangup(fd, false); return why; }
};
// ------------------------------------------------------------------ server
static std::shared_ptr<GBaseConsumerT<NetItem>> make_consumer(unsigned short port, int threads) {
	std::shared_ptr<GBaseConsumerT<NetItem>> c; if (g_ws) c = std::make_shared<GWebsocketConsumerT<NetItem>>(); else c = std::make_shared<GAsioConsumerT<NetItem>>();
	namespace po = boost::program_options; po::options_description v, h; c->addCLOptions(v, h); v.add(h); std::string n = g_ws ? "beast" : "asio"; po::variables_map vm;
	std::vector<std::string> a{"--" + n + "_ip=127.0.0.1", "--" + n + "_port=" + std::to_string(port), "--" + n + "_serializationMode=" + std::to_string(int(g_sm)), "--" + n + (g_ws ? "_nListenerThreads=" : "_nProcessingThreads=") + std::to_string(threads)};
	po::store(po::command_line_parser(a).options(v).run(), vm); po::notify(vm); c->actOnCLOptions(vm); return c; }
static std::shared_ptr<GBaseConsumerT<NetItem>> serve(Rng& r, int threads) {
	for (int i = 0; i < 200; i++) { g_port = (unsigned short)(12000 + (r.next() ^ uint64_t(getpid()) * 2654435761u) % 20000); auto c = make_consumer(g_port, threads); try { c->async_startProcessing(); return c; } catch (gemfony_exception&) {} }
	throw std::runtime_error("no port found"); }
static std::map<long, std::shared_ptr<Port>> g_ports;
static long enrol() { auto p = std::make_shared<Port>(); GBROKER(NetItem)->enrol_buffer_port(p); long id = long(p->getUniqueTag()); g_ports[id] = p; ev(J().t("e", "enrol").i("p", id)); return id; }
static int g_next = 0;
static void submit(long port, int kind) { int k = ++g_next; auto p = make_item(k, kind, port); g_sent[k] = make_item(k, kind, port); ev(J().t("e", "submit").i("p", port).i("k", k).b("bad", kind >= 1 && kind <= 3).b("deadly", kind == 4)); g_ports[port]->push_raw(p); }
static bool collect(long port, int ms) { PI p; bool ok = g_ports[port]->pop_processed(p, dsec(ms / 1000.)); if (ok && p) ev(J().t("e", "collect").i("p", port).i("k", p->k).b("same", same(*p, port)).t("st", status(*p))); else ev(J().t("e", "collect").i("p", port).i("k", 0).b("same", true).t("st", "none")); return ok && p; }
static std::string pack(Box const& b) { return container_to_string(b, g_sm); }
static void scripted(Rng& r) {
	int nc = r.range(1, 3), np0 = r.range(1, 2); bool overlap = r.chance(50), nasty = r.chance(70); int threads = r.range(1, 4);
	auto server = serve(r, threads); std::vector<long> ports; for (int i = 0; i < np0; i++) ports.push_back(enrol());
	cfg(J().i("nc", nc).b("exact", !overlap && !nasty).b("ws", g_ws).i("sm", int(g_sm)).i("threads", threads).i("kind", 0));
	std::vector<Client> cl(nc); std::vector<int> pend(nc, 0); std::vector<std::vector<PI>> held(nc); std::vector<PI> sent; std::map<int, long> home;
	auto get = [&](int c) { ev(J().t("e", "send").i("c", c).t("op", "get").i("k", 0).t("st", "")); pend[c] = 1; if (!cl[c].send(pack(Box(Cmd::GETDATA)))) ev(J().t("e", "refused").i("c", c)); };
	auto give = [&](int c, PI p, bool again) { auto q = p; if (!again) { try { q->process(); } catch (std::exception&) {} }
		std::string m = pack(Box(Cmd::RESULT, q)); Box b; container_from_string(m, b, g_sm); sent.push_back(b.get_payload()); auto cp = container_to_string(Box(Cmd::RESULT, q), g_sm); Box b2; container_from_string(cp, b2, g_sm);
		ev(J().t("e", "send").i("c", c).t("op", "res").i("k", q->k).t("st", status(*b2.get_payload()))); pend[c] = 1; if (!cl[c].send(m)) ev(J().t("e", "refused").i("c", c)); };
	auto recv = [&](int c) { std::string m, how = cl[c].recv(m); pend[c] = 0; int k = 0; bool sm = true;
		if (how == "msg") { Box b; try { container_from_string(m, b, g_sm); if (b.get_command() == Cmd::COMPUTE) { how = "item"; auto p = b.get_payload(); if (!p) how = "hollow"; else { k = p->k; sm = same(*p, (long)g_sent.at(k)->getBufferId()) && p->is_due_for_processing(); held[c].push_back(p); } } else if (b.get_command() == Cmd::NODATA) how = "nodata"; else how = "odd"; } catch (std::exception&) { how = "garbled"; } }
		ev(J().t("e", "recv").i("c", c).t("how", how).i("k", k).b("same", sm)); };
	auto drop = [&](int c, bool hard) { ev(J().t("e", "drop").i("c", c)); hangup(cl[c].fd, hard); pend[c] = 0; };
	int nops = r.range(5, 22);
	for (int i = 0; i < nops; i++) {
		int x = r.below(100), c = r.below(nc); long p = ports[r.below((int)ports.size())];
		if (pend[c] && (x >= 30 || !overlap)) { if (nasty && r.chance(15)) drop(c, r.chance(70)); else recv(c); continue; }
		if (x < 30) { submit(p, r.chance(25) ? r.range(1, 3) : 0); if (r.chance(30)) submit(p, 0); continue; }
		if (x < 50) { get(c); }
		else if (x < 75) { if (held[c].empty()) get(c); else { int j = r.below((int)held[c].size()); auto q = held[c][j]; held[c].erase(held[c].begin() + j); give(c, q, false); } }
		else if (x < 83) { collect(p, r.below(20)); continue; }
		else if (x < 87) { if (ports.size() > 1 || r.chance(60)) { ev(J().t("e", "leave").i("p", p)); g_ports[p]->producer_disconnect(); ports.erase(std::find(ports.begin(), ports.end(), p)); ports.push_back(enrol()); } continue; }
		else if (!nasty) { continue; }
		else if (x < 89) { if (!sent.empty()) give(c, sent[r.below((int)sent.size())], true); else continue; }
		else if (x < 92) { std::string m = pack(Box(Cmd::GETDATA)); int how = r.below(4); if (how == 0) m = "nonsense"; else if (how == 1) m.resize(m.size() / 2); else if (how == 2) { if (m.size() > 6) m.resize(6); } else { auto o = g_sm; g_sm = o == serializationMode::TEXT ? serializationMode::XML : serializationMode::TEXT; m = pack(Box(Cmd::GETDATA)); g_sm = o; }

			ev(J().t("e", "send").i("c", c).t("op", "bad").i("k", 0).t("st", "")); pend[c] = 1; if (!cl[c].send(m)) ev(J().t("e", "refused").i("c", c)); }
		else if (x < 94) { static const Cmd odd[] = {Cmd::NONE, Cmd::NODATA, Cmd::COMPUTE}; ev(J().t("e", "send").i("c", c).t("op", "bad").i("k", 0).t("st", "")); pend[c] = 1; if (!cl[c].send(pack(Box(odd[r.below(3)])))) ev(J().t("e", "refused").i("c", c)); }
		else if (x < 95) { ev(J().t("e", "send").i("c", c).t("op", "get").i("k", 0).t("st", "")); pend[c] = 1; if (!cl[c].send(pack(Box(Cmd::RESULT)))) ev(J().t("e", "refused").i("c", c)); } // a result without content counts as a request
		else if (x < 97) { // connects, says nothing or half of it, and goes away
			drop(c, true); if (r.chance(50)) { cl[c].fd = dial(); } else cl[c].open(); if (cl[c].fd >= 0 && r.chance(70)) { std::string w = cl[c].wire(pack(Box(Cmd::GETDATA))); put_all(cl[c].fd, w.substr(0, w.size() / 2)); } hangup(cl[c].fd, r.chance(60)); continue; }
		else { drop(c, r.chance(50)); continue; }
		if (!overlap) { if (nasty && r.chance(20)) { if (r.chance(50)) ::usleep(r.below(3000)); drop(c, r.chance(70)); if (r.chance(50)) ::usleep(60000); } else recv(c); }
	}
	// whatever happened, every client is served and nothing is left behind
	for (int c = 0; c < nc; c++) if (pend[c]) recv(c);
	for (int c = 0; c < nc; c++) while (!held[c].empty()) { auto q = held[c].back(); held[c].pop_back(); give(c, q, false); recv(c); }
	long p = ports[0]; submit(p, 0);
	for (int i = 0, misses = 0; misses < 2 * (int)ports.size() && i < 200; i++) { int c = i % nc; size_t n = held[c].size(); get(c); recv(c); if (held[c].size() == n) misses++; else { misses = 0; auto q = held[c].back(); held[c].pop_back(); give(c, q, false); recv(c); } }
	for (int c = 0; c < nc; c++) while (!held[c].empty()) { auto q = held[c].back(); held[c].pop_back(); give(c, q, false); recv(c); }
	for (long q : ports) while (collect(q, 60)) {}
	ev(J().t("e", "end"));
	server->shutdown(); finish("ok", "");
}
static void real(Rng& r) {
	int nc = r.range(1, 3); int deadly = r.chance(30) && nc > 1 ? 1 : 0; std::vector<int> limit(nc, 0); if (r.chance(20) && nc > 1) limit[0] = r.range(1, 3);
	int limits = 0; for (int l : limit) limits += l > 0; int threads = r.range(1, 4); std::vector<pid_t> pid(nc); int pfd[2]; if (pipe(pfd)) return;
	for (int c = 0; c < nc; c++) { pid[c] = fork(); if (pid[c] == 0) { ::close(pfd[1]); ::close(g_fd); g_fd = -1; for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, SIG_DFL); unsigned short port = 0; if (::read(pfd[0], &port, 2) != 2) _exit(9);
			std::set_terminate([] { _exit(11); }); try { auto k = make_consumer(port, 1); auto cl = k->getClient(); if (limit[c]) cl->setProcessMax(limit[c]); cl->run(); _exit(limit[c] && (int)cl->getNProcessed() >= limit[c] ? 7 : 8); } catch (...) { _exit(10); } } }
	auto server = serve(r, threads); int np = r.range(1, 2); std::vector<long> ports; for (int i = 0; i < np; i++) ports.push_back(enrol());
	cfg(J().i("nc", nc).b("exact", false).b("ws", g_ws).i("sm", int(g_sm)).i("threads", threads).i("kind", 1).i("limits", limits));
	for (int c = 0; c < nc; c++) { if (::write(pfd[1], &g_port, 2) != 2) return; }
	int total = r.range(3, 14), out = 0;
	for (int i = 0; i < total; i++) { int kind = r.chance(35) ? r.range(1, 3) : r.chance(50) ? 5 : 0; if (deadly && i == total / 2) kind = 4; submit(ports[r.below(np)], kind); out++; if (r.chance(40)) { long p = ports[r.below(np)]; if (collect(p, r.below(30))) out--; } }
	int ended = 0, failed = 0; auto look = [&] { for (pid_t& q : pid) { int st; if (q > 0 && waitpid(q, &st, WNOHANG) == q) { q = -1; if (WIFEXITED(st) && WEXITSTATUS(st) == 7) ended++; else failed++; } } };
	timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); double calm = -1; int known = -1;
	while (out > 0) { for (long p : ports) { PI q; if (g_ports[p]->pop_processed(q, dsec(0.02)) && q) { ev(J().t("e", "collect").i("p", p).i("k", q->k).b("same", same(*q, p)).t("st", status(*q))); out--; } }
		look(); clock_gettime(CLOCK_MONOTONIC, &t1); double dt = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec); if (out + 100 * ended != known) { known = out + 100 * ended; calm = dt; }
		if (dt > 15. || ((out <= ended || ended == nc) && dt - calm > 0.6)) break; }
	look();
	for (long p : ports) while (collect(p, 5)) out--;
	ev(J().t("e", "over").i("missing", out).i("ended", ended).i("failed", failed));
	for (pid_t q : pid) if (q > 0) kill(q, SIGKILL);
	server->shutdown(); finish("ok", "");
}
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int i, uint64_t seed) { Rng r(seed); g_ws = i % 2; g_sm = r.chance(60) ? serializationMode::BINARY : r.chance(50) ? serializationMode::TEXT : serializationMode::XML;
		if (i % 10 < 7) scripted(r); else real(r); }, 40);
}
