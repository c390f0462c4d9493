// S01: GSerialConsumerT / GStdThreadConsumerT serving submitters through the broker, under the scheduler.
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include "drv.hpp"
#include <thread>
using namespace drv; using namespace Gem::Courtier;
class P : public GProcessingContainerT<P, int> { public: int k = 0, plan = 0, steps = 0; P() : GProcessingContainerT<P, int>(1) {}
	void process_() override { ev(J().t("e", "start").i("w", vs::self()).i("k", k)); for (int i = 0; i < steps; i++) vs::point(); this->registerResult(0, k * 7); ev(J().t("e", "fin").i("w", vs::self()).i("k", k));
		if (plan == 1) this->force_set_error("flagged"); if (plan == 2) throw std::runtime_error("planned"); if (plan == 3) throw 42; if (plan == 4) throw gemfony_exception("planned"); } };
using Port = GBufferPortT<P>; using PP = std::shared_ptr<P>; using dsec = std::chrono::duration<double>;
struct Sub { std::shared_ptr<Port> port; long id = -1; };
static int g_item = 0;
static void enrol(Sub& s) { s.port = std::make_shared<Port>(); bool full = GBROKER(P)->enrol_buffer_port(s.port); s.id = long(s.port->getUniqueTag()); ev(J().t("e", "enrol").i("p", s.id).b("full", full)); }
static void submit(Sub& s, int plan, int steps) { PP p = std::make_shared<P>(); p->k = ++g_item; p->plan = plan; p->steps = steps; p->setBufferId(s.port->getUniqueTag()); p->mark_as_due_for_processing(); ev(J().t("e", "submit").i("p", s.id).i("k", p->k).i("plan", plan)); s.port->push_raw(p); }
static bool collect(Sub& s, int ms) { PP p; if (ms < 0) s.port->pop_processed(p); else if (!s.port->pop_processed(p, dsec(ms / 1000.))) return false;
	long res = -7; try { res = p->getStoredResult(0); } catch (gemfony_exception&) {} ev(J().t("e", "collect").i("p", s.id).i("k", p ? p->k : -1).t("ps", p->getProcessingStatusAsStr()).i("res", res)); return true; }
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed); vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		bool serial = i % 3 == 0, full = r.chance(60); int nthr = serial ? 1 : r.below(5), nw = serial ? 1 : (nthr > 0 ? nthr : int(DEFAULTTHREADSPERWORKER));
		cfg(J().i("nw", nw).b("full", full).b("serial", serial));
		int ns = r.range(1, 3); std::vector<Sub> subs(ns + 3); bool anyLeaves = r.chance(40), early = r.chance(40); std::vector<std::thread> th;
		vs::start(sched_config(r));
		int base = vs::live_threads(); std::shared_ptr<GBaseConsumerT<P>> con;
		{ auto keep = GBROKER(P); }
		if (serial) { auto c = std::make_shared<GSerialConsumerT<P>>(); c->setCapableOfFullReturn(full); con = c; } else { auto c = std::make_shared<GStdThreadConsumerT<P>>(size_t(nthr)); c->setCapableOfFullReturn(full); con = c; }
		{ Sub s; s.port = std::make_shared<Port>(); GBROKER(P)->enrol_buffer_port(s.port); subs.push_back(s); } // there is always a port to wait at
		GBROKER(P)->enrol_consumer(con);
		std::atomic<bool> stopping{false};
		for (int s = 0; s < ns; s++) { uint64_t sd = r.next(); int nops = r.range(1, 7); bool leaves = anyLeaves && r.chance(60);
			th.emplace_back([&, s, sd, nops, leaves] { Rng q(sd); Sub& me = subs[s]; enrol(me); int out = 0;
				for (int k = 0; k < nops; k++) { if (stopping && early) break; submit(me, q.chance(60) ? 0 : q.range(1, 4), q.below(6)); out++; if (q.chance(40) && collect(me, q.range(1, 400))) out--; }
				if (leaves) { ev(J().t("e", "leave").i("p", me.id)); me.port->producer_disconnect(); me.id = -1; if (q.chance(80)) { Sub& n = subs[ns + s]; enrol(n); submit(n, 0, 1); if (!early) collect(n, -1); } }
				else if (!early) while (out-- > 0) collect(me, -1); }); }
		if (!early) { for (auto& t : th) t.join(); }
		else for (int k = r.below(60); k > 0; k--) vs::point();
		stopping = true;
		ev(J().t("e", "stop"));
		if (r.chance(50)) con->shutdown(); else GBROKER(P)->finalize();
		ev(J().t("e", "stopped").i("threads", early ? 0 : vs::live_threads() - base));
		if (early) for (auto& t : th) t.join();
		for (auto& s : subs) if (s.id >= 0) { while (collect(s, 0)); ev(J().t("e", "drained").i("p", s.id)); }
		ev(J().t("e", "end").i("threads", vs::live_threads() - base));
		finish("ok", "");
	});
}
