// B01/B02: GBrokerT and GBufferPortT with random submitters and consumers.
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GBaseConsumerT.hpp"
#include "courtier/GBufferPortT.hpp"
#include "drv.hpp"
#include <thread>
#include <map>
using namespace drv; using namespace Gem::Courtier;
class P : public GProcessingContainerT<P, int> { public: int k = 0; P() : GProcessingContainerT<P, int>(1) {} void process_() override { this->registerResult(0, k); } };
using Broker = GBrokerT<P>; using Port = GBufferPortT<P>; using PP = std::shared_ptr<P>;
using dsec = std::chrono::duration<double>;
static int g_item = 0; static std::vector<int> g_started, g_shut;
class TC : public GBaseConsumerT<P> { public: std::string n; int id; bool full; TC(std::string s, int i, bool f) : n(std::move(s)), id(i), full(f) {}
private:
	void shutdown_() override { g_shut.push_back(id); GBaseConsumerT<P>::shutdown_(); }
	void addCLOptions_(boost::program_options::options_description&, boost::program_options::options_description&) override {} void actOnCLOptions_(const boost::program_options::variables_map&) override {}
	std::string getConsumerName_() const override { return n; } std::string getMnemonic_() const override { return n; }
	void async_startProcessing_() override { g_started.push_back(id); } std::size_t getNProcessingUnitsEstimate_(bool& e) const override { e = true; return 1; } bool capableOfFullReturn_() const override { return full; } };
struct Ctx { Broker* b; };
static int64_t now() { return vs::active() ? vs::now_ns() : 0; }
static void call(int t, const char* op, long p, long k) { ev(J().t("e", "call").i("t", t).t("op", op).i("p", p).i("k", k)); }
static void ret(int t, long v, bool waited) { ev(J().t("e", "ret").i("t", t).i("v", v).b("w", waited)); }
struct Sub { std::shared_ptr<Port> port; long id = -1; bool on = false; };
static void do_submit(Sub& s, int t, int timeout_ms) {
	PP p = std::make_shared<P>(); p->k = ++g_item; p->setBufferId(s.port->getUniqueTag()); p->mark_as_due_for_processing();
	call(t, "submit", s.id, p->k);
	if (timeout_ms < 0) { s.port->push_raw(p); ret(t, 1, true); }
	else { int64_t t0 = now(); bool ok = s.port->push_raw(p, dsec(timeout_ms / 1000.)); ret(t, ok, now() - t0 >= int64_t(timeout_ms - 1) * 1000000); }
}
static bool do_collect(Sub& s, int t, int timeout_ms) {
	PP p; call(t, "collect", s.id, 0); int64_t t0 = now();
	if (timeout_ms < 0) { s.port->pop_processed(p); ret(t, p ? p->k : 0, true); return true; }
	bool ok = s.port->pop_processed(p, dsec(timeout_ms / 1000.));
	ret(t, ok ? (p ? p->k : -9) : 0, now() - t0 >= int64_t(timeout_ms - 1) * 1000000); return ok;
}
static PP do_take(Broker& b, int t, int timeout_ms) {
	PP p; call(t, "take", -1, 0); int64_t t0 = now();
	if (timeout_ms < 0) { b.get(p); ret(t, p ? p->k : 0, true); return p; }
	bool ok = b.get(p, dsec(timeout_ms / 1000.));
	if (ok != bool(p)) { ret(t, -9, true); return p; }
	ret(t, ok ? p->k : 0, now() - t0 >= int64_t(timeout_ms - 1) * 1000000); return p;
}
static void do_return(Broker& b, int t, PP p, int timeout_ms) {
	call(t, "return", -1, p->k); long v = 1; 
	try { if (timeout_ms < 0) b.put(p); else v = b.put(p, dsec(timeout_ms / 1000.)) ? 1 : -9; } catch (buffer_not_present&) { v = 0; } catch (std::exception&) { v = -8; }
	ret(t, v, true);
}
static void enrol(Broker& b, Sub& s, int t) {
	s.port = std::make_shared<Port>(); bool ok = true, full = false;
	try { full = b.enrol_buffer_port(s.port); } catch (gemfony_exception&) { ok = false; }
	s.on = ok; s.id = ok ? long(s.port->getUniqueTag()) : -1;
	ev(J().t("e", "enrol").i("t", t).b("ok", ok).i("p", s.id).b("full", full));
}
static void leave(Sub& s) { ev(J().t("e", "leave").i("p", s.id)); s.port->producer_disconnect(); s.on = false; }
#ifndef CAP
#define CAP 3
#endif
static int g_base = 0;
int main(int argc, char** argv) {
	if (argc > 5) g_base = atoi(argv[5]);
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed); vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		int kind = g_base + i % 4; // 0-3 concurrent, 4,5 sequential, 6 consumers, 7 sequential with many ports (rare)
		cfg(J().b("exact", kind >= 4 && i % 32 != 3).i("limit", MAXREGISTEREDBUFFERPORTS).i("cap", CAP));
		if (kind < 4) {
			auto b = std::make_shared<Broker>(); int ns = r.range(1, 3), nc = r.range(1, 3); std::vector<Sub> subs(ns), extra(ns); std::vector<std::thread> th; std::atomic<int> subsLeft{ns};
			bool lonely = r.chance(25) && ns == 1; // blocking requests only make sense with one port
			int early = r.below(ns + 1); if (lonely) early = ns;
			auto sc = sched_config(r);
			vs::start(sc);
			for (int s = 0; s < early; s++) enrol(*b, subs[s], 0);
			for (int s = 0; s < ns; s++) { int nops = r.range(2, 8); uint64_t sd = r.next(); bool quits = r.chance(25); bool blk = r.chance(20);
				th.emplace_back([&, s, nops, sd, quits, blk] { Rng q(sd); int t = 1 + s; if (!subs[s].on) enrol(*b, subs[s], t); int out = 0; bool askedFirst = false;
					for (int k = 0; k < nops; k++) { int x = q.below(100);
						if (x < 50) { do_submit(subs[s], t, q.chance(70) ? 200 : q.range(0, 40)); out++; }
						else if (x < 85) { if (do_collect(subs[s], t, q.below(30))) out--; }
						else if (x < 90 && !askedFirst && out > 0 && blk) { askedFirst = true; call(t, "first", subs[s].id, 0); subs[s].port->getFirstRetrievalTime(); ret(t, 1, true); }
						else vs::point(); }
					if (quits) { leave(subs[s]); if (q.chance(50)) { enrol(*b, extra[s], t); if (extra[s].on) do_submit(extra[s], t, 100); } }
					subsLeft--; }); }
			for (int c = 0; c < nc; c++) { int nops = r.range(2, 12); uint64_t sd = r.next();
				th.emplace_back([&, c, nops, sd] { Rng q(sd); int t = 5 + c; std::vector<PP> held;
					for (int k = 0; k < nops; k++) { bool last = false;
						PP p = lonely && q.chance(30) && subsLeft > 0 && subs[0].on && false ? do_take(*b, t, -1) : do_take(*b, t, q.range(0, 30)); if (p) held.push_back(p);
						while (!held.empty() && (q.chance(70) || last)) { size_t z = size_t(q.below(int(held.size()))); PP x = held[z]; held.erase(held.begin() + long(z)); do_return(*b, t, x, q.chance(50) ? -1 : q.below(20)); } }
					while (!held.empty()) { PP x = held.back(); held.pop_back(); do_return(*b, t, x, -1); } }); }
			for (auto& x : th) x.join();
			ev(J().t("e", "drain"));
			int np = 0; for (auto* v : {&subs, &extra}) for (auto& s : *v) if (s.id >= 0) np++;
			int miss = 0, guard = 0; while (miss < 2 * np && guard++ < 200) { PP p = do_take(*b, 0, 0); if (p) { miss = 0; do_return(*b, 0, p, -1); } else miss++; }
			for (auto* v : {&subs, &extra}) for (auto& s : *v) if (s.on) while (do_collect(s, 0, 0));
			ev(J().t("e", "end").b("drained", true));
			vs::stop(); return;
		}
		vs::start(sched_config(r));
		auto b = std::make_shared<Broker>();
		if (kind == 6) {
			int n = r.range(1, 6), id = 0; std::vector<std::shared_ptr<TC>> keep; Sub s;
			for (int k = 0; k < n; k++) { int x = r.below(100);
				auto mk = [&] { auto c = std::make_shared<TC>("c" + std::to_string(r.below(3)), ++id, r.chance(60)); keep.push_back(c); return c; };
				if (x < 70) { g_started.clear(); std::vector<std::shared_ptr<TC>> v; int m = r.chance(50) ? 1 : r.range(1, 4); for (int q = 0; q < m; q++) v.push_back(mk());
					if (m == 1 && r.chance(70)) b->enrol_consumer(v[0]); else { std::vector<std::shared_ptr<GBaseConsumerT<P>>> w(v.begin(), v.end()); b->enrol_consumer_vec(w); }
					std::string of = "["; for (size_t q = 0; q < v.size(); q++) { if (q) of += ','; of += J().t("n", v[q]->n).i("id", v[q]->id).b("full", v[q]->full).str(); } of += "]";
					ev(J().t("e", "consumers").raw("offered", of).arr("started", g_started)); }
				else if (x < 85) { Sub z; enrol(*b, z, 0); }
				bool has = b->hasConsumers(); ev(J().t("e", "ask").b("has", has).b("full", has ? b->capableOfFullReturn() : false)); }
			for (int k = 0; k < r.range(1, 2); k++) { g_shut.clear(); b->finalize(); ev(J().t("e", "finalize").arr("shut", g_shut)); }
			vs::stop(); return;
		}
		std::vector<Sub> subs; 
		auto fresh = [&] { Sub s; enrol(*b, s, 0); if (s.on) subs.push_back(s); };
		if (kind == 7 && i % 32 == 3) { // up to the limit and beyond
			std::vector<long> ids; for (int q = 0; q < int(MAXREGISTEREDBUFFERPORTS) - 2; q++) { Sub s; s.port = std::make_shared<Port>(); try { b->enrol_buffer_port(s.port); s.id = long(s.port->getUniqueTag()); s.on = true; } catch (gemfony_exception&) { break; } ids.push_back(s.id); subs.push_back(s); }
			ev(J().t("e", "enrolmany").arr("ps", ids));
			for (int q = 0; q < 5; q++) { if (q == 3 && r.chance(50)) { leave(subs[5]); subs.erase(subs.begin() + 5); } fresh(); }
			for (int q = 0; q < 3; q++) do_submit(subs[size_t(r.below(int(subs.size())))], 0, 0);
			for (int q = 0; q < r.range(3, 30); q++) { PP p = do_take(*b, 0, 0); if (p) do_return(*b, 0, p, -1); if (q == 5) fresh(); }
			vs::stop(); return;
		}
		int nops = r.range(8, 40); std::vector<PP> held; if (kind == 7) for (int q = 0; q < r.range(2, 6); q++) fresh();
		for (int k = 0; k < nops; k++) { int x = r.below(100);
			if (x < 8) fresh();
			else if (x < 11 && !subs.empty()) { size_t z = size_t(r.below(int(subs.size()))); leave(subs[z]); subs.erase(subs.begin() + long(z)); }
			else if (x < 40 && !subs.empty()) do_submit(subs[size_t(r.below(int(subs.size())))], 0, 0);
			else if (x < 65) { PP p = do_take(*b, 0, 0); if (p) held.push_back(p); }
			else if (x < 85 && !held.empty()) { size_t z = size_t(r.below(int(held.size()))); PP p = held[z]; held.erase(held.begin() + long(z)); do_return(*b, 0, p, r.chance(50) ? -1 : 0); }
			else if (!subs.empty()) do_collect(subs[size_t(r.below(int(subs.size())))], 0, 0); }
		for (auto& p : held) do_return(*b, 0, p, -1);
		size_t miss = 0; int guard = 0; while (miss < 2 * subs.size() + 20 && guard++ < 300) { PP p = do_take(*b, 0, 0); if (p) { miss = 0; do_return(*b, 0, p, -1); } else miss++; }
		for (auto& s : subs) while (do_collect(s, 0, 0));
		ev(J().t("e", "end").b("drained", true));
		vs::stop();
	});
}
