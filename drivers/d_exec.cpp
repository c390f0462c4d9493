// X01: serial, multi-threaded and broker-based executors (reliable consumers).  X02 (argument "net"): broker executor with
// a consumer that returns copies, late, several times, or not at all.
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/export.hpp>
#include "drv.hpp"
#include <thread>
using namespace drv; using namespace Gem::Courtier;
static bool g_net = false;
class WE : public GProcessingContainerT<WE, int> {
	friend class boost::serialization::access;
	template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GProcessingContainerT<WE, int>>(*this)) & BOOST_SERIALIZATION_NVP(id) & BOOST_SERIALIZATION_NVP(plan) & BOOST_SERIALIZATION_NVP(steps); }
public:
	int id = 0, plan = 0, steps = 0;
	WE() : GProcessingContainerT<WE, int>(1) {}
	void process_() override { if (!g_net) ev(J().t("e", "exec").i("id", id)); for (int i = 0; i < steps; i++) vs::point(); this->registerResult(0, id * 7); if (!g_net) ev(J().t("e", "fin").i("id", id));
		if (plan == 1) this->force_set_error("flagged"); if (plan == 2) throw std::runtime_error("planned"); if (plan == 3) throw 42; if (plan == 4) throw gemfony_exception("planned"); }
	int res() { try { return this->getStoredResult(0); } catch (gemfony_exception&) { return -7; } }
};
BOOST_CLASS_EXPORT(WE)
using PW = std::shared_ptr<WE>; using Batch = std::vector<PW>; using dsec = std::chrono::duration<double>;
static PW copyOf(PW const& p) { std::stringstream s; { boost::archive::binary_oarchive o(s); WE const* q = p.get(); o << boost::serialization::make_nvp("w", q); } WE* q = nullptr; { boost::archive::binary_iarchive i(s); i >> boost::serialization::make_nvp("w", q); } return PW(q); }
static std::string items(Batch const& b, bool origin = false) { std::string s = "["; for (size_t k = 0; k < b.size(); k++) { if (k) s += ','; J j; j.i("id", b[k]->id).t("st", b[k]->getProcessingStatusAsStr()).i("res", b[k]->res()).i("plan", b[k]->plan); if (origin) j.i("it", (long long)b[k]->getIterationCounter()).i("pos", (long long)b[k]->getCollectionPosition()); s += j.str(); } return s + "]"; }
static int T() { return int(std::min<int64_t>(vs::now_ns() / 100000, 1000000)); } // 0.1 ms, saturating
static int g_id = 0, g_copy = 0;
class TC : public GBaseConsumerT<WE> { void addCLOptions_(boost::program_options::options_description&, boost::program_options::options_description&) override {} void actOnCLOptions_(const boost::program_options::variables_map&) override {}
	std::string getConsumerName_() const override { return "tc"; } std::string getMnemonic_() const override { return "tc"; } void async_startProcessing_() override {} std::size_t getNProcessingUnitsEstimate_(bool& e) const override { e = true; return 1; } bool capableOfFullReturn_() const override { return full; }
public: bool full = false; };
template <class X> static bool call(X& ex, Batch& b, bool resub, ITERATION_COUNTER_TYPE ext, bool useExt, bool shuffle = false) {
	ev(J().t("e", "call").raw("items", items(b)).b("resub", resub).i("ext", useExt ? (long long)ext : -1).i("t", T()));
	executor_status_t st; try { st = ex.workOn(b, resub, std::make_tuple(ext, useExt), "driver"); } catch (gemfony_exception& e) { ev(J().t("e", "thrown").t("d", std::string(e.what()).substr(0, 200))); return false; }
	J j; j.t("e", "ret").b("complete", st.is_complete).b("err", st.has_errors).raw("items", items(b)).i("nnr", (long long)ex.getNNotReturnedLast()).i("ner", (long long)ex.getNErroneousWorkItems()).i("nold", (long long)ex.getNOldWorkItems()).i("nrl", (long long)ex.getNReturnedLast()).i("t", T());
	Batch old = ex.getOldWorkItems(); j.raw("old", items(old, true)); ev(j); return true; }
static void prepare(Rng& r, Batch& b, int pDue, int pFail, bool errs) {
	if (r.chance(25) && !b.empty()) b.erase(b.begin() + r.below(int(b.size()))); if (r.chance(30)) b.insert(b.begin() + r.below(int(b.size()) + 1), std::make_shared<WE>());
	for (auto& p : b) { bool bad = p->has_errors(); if (p->id == 0 || r.chance(pDue)) { if (g_net || r.chance(30)) p = copyOf(p); p->id = ++g_id; p->plan = r.chance(pFail) ? r.range(1, 4) : 0; p->steps = r.below(5); p->mark_as_due_for_processing(); } else if (r.chance(10) || (bad && !errs) || (p->is_due_for_processing() && !g_net)) { p = copyOf(p); p->mark_as_ignorable(); } }
	if (r.chance(20)) for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[size_t(r.below(int(k)))]); }
static void reliable(int i, Rng& r) {
	int kind = i % 3, nthr = r.range(1, 4), nb = r.below(7), ncalls = r.range(1, 4); cfg(J().i("kind", kind).i("nthr", nthr)); Batch b; for (int k = 0; k < nb; k++) b.push_back(std::make_shared<WE>());
	vs::start(sched_config(r)); int pDue = r.chance(20) ? 0 : r.range(20, 100), pFail = r.chance(50) ? 0 : r.chance(20) ? 100 : r.range(10, 60); bool errs = r.chance(15);
	std::shared_ptr<GBaseExecutorT<WE>> ex; { auto keep = GBROKER(WE); }
	if (kind == 0) ex = std::make_shared<GSerialExecutorT<WE>>(); else if (kind == 1) { ex = std::make_shared<GMTExecutorT<WE>>(std::uint16_t(nthr)); }
	else { auto e = std::make_shared<GBrokerExecutorT<WE>>(); if (r.chance(30)) e->setWaitFactor(0.); ex = e; if (r.chance(30)) GBROKER(WE)->enrol_consumer(std::make_shared<GSerialConsumerT<WE>>()); else GBROKER(WE)->enrol_consumer(std::make_shared<GStdThreadConsumerT<WE>>(size_t(nthr))); }
	bool ok = true; ex->init(); int ext = 0; bool useExt = r.chance(30); if (r.chance(30)) ex->setMaxResubmissions(size_t(r.below(3)));
	for (int c = 0; c < ncalls && ok; c++) { if (c == 0 && r.chance(10)) { for (auto& p : b) { p->id = ++g_id; p->mark_as_ignorable(); } } else prepare(r, b, pDue, pFail, errs);
		ok = call(*ex, b, r.chance(30), ITERATION_COUNTER_TYPE(ext), useExt); ext += r.range(1, 3);
		if (ok && r.chance(15)) { ex->finalize(); ex->init(); } }
	ev(J().t("e", "end")); finish("ok", "");
}
static void net(int i, Rng& r) {
	bool full = i % 5 == 0; int nb = r.range(1, 6), ncalls = r.range(2, 5), nc = r.range(1, 4); double wf = full ? 1.1 : r.chance(20) ? 0. : r.chance(10) ? -1. : r.range(10, 30) / 10.; int part = r.chance(60) ? 0 : r.range(1, 100), maxr = r.below(5);
	bool reliable = full || wf <= 0.; if (part == 100 && false) part = 0;
	cfg(J().b("notimeout", reliable).i("wf", int(wf * 10. + .5)).i("part", part).i("maxr", maxr));
	Batch b; for (int k = 0; k < nb; k++) b.push_back(std::make_shared<WE>());
	auto sc = sched_config(r); sc.maxSteps = 150000; if (r.chance(70)) sc.timeoutPermille = 0; vs::start(sc); { auto keep = GBROKER(WE); }
	auto con = std::make_shared<TC>(); con->full = full; GBROKER(WE)->enrol_consumer(con);
	auto e = std::make_shared<GBrokerExecutorT<WE>>(); e->setWaitFactor(wf); e->setMinPartialReturnPercentage(std::uint16_t(part)); e->setMaxResubmissions(size_t(maxr)); e->init(); std::shared_ptr<GBaseExecutorT<WE>> ex = e;
	int pLose = reliable ? 0 : r.chance(40) ? 0 : r.range(5, 60), pDup = r.chance(60) ? 0 : r.range(5, 40), pLate = r.chance(30) ? 0 : r.range(10, 60); int pFail = r.chance(60) ? 0 : r.chance(15) ? 100 : r.range(10, 60); bool may = false; bool calm = false; int busy = 0;
	std::vector<std::thread> th;
	for (int c = 0; c < nc; c++) { uint64_t sd = r.next(); th.emplace_back([&, c, sd] { Rng q(sd); while (true) { PW p; if (!GBROKER(WE)->get(p, dsec(0.02)) || !p) continue;
		busy++; PW w = copyOf(p); int it = int(w->getIterationCounter()), pos = int(w->getCollectionPosition()), rs = int(w->getResubmissionCounter()); long port = long(w->getBufferId());
		ev(J().t("e", "take").i("id", w->id).i("it", it).i("pos", pos).i("rs", rs).i("port", port).i("t", T())); int t0 = T();
		std::this_thread::sleep_for(std::chrono::microseconds(q.range(200, 3000))); if (q.chance(pLate)) std::this_thread::sleep_for(std::chrono::milliseconds(q.range(3, 60)));
		if (!calm && may && q.chance(pLose)) { ev(J().t("e", "lost").i("port", port)); busy--; continue; }
		try { w->process(); } catch (...) {}
		int n = !calm && q.chance(pDup) ? 2 : 1; for (int k = 0; k < n; k++) { if (w->is_processed()) may = true; PW z = k == 0 && n == 1 ? w : copyOf(w);
			ev(J().t("e", "give").i("c", ++g_copy).i("id", z->id).i("it", it).i("pos", pos).i("rs", rs).i("port", port).t("st", z->getProcessingStatusAsStr()).i("res", z->res()).i("t", T()).i("dt", T() - t0)); int cn = g_copy; try { GBROKER(WE)->put(z); ev(J().t("e", "gave").i("c", cn).i("port", port)); } catch (buffer_not_present&) { ev(J().t("e", "gone").i("c", cn).i("port", port)); }
			if (k + 1 < n) std::this_thread::sleep_for(std::chrono::milliseconds(q.below(40))); }
		busy--; } }); th.back().detach(); }
	ev(J().t("e", "init")); bool ok = true; int ext = 0; bool useExt = r.chance(30);
	for (int c = 0; c < ncalls && ok; c++) { prepare(r, b, r.range(30, 100), pFail, false); ok = call(*ex, b, r.chance(50), ITERATION_COUNTER_TYPE(ext), useExt); ext += r.range(1, 3);
		if (r.chance(30)) std::this_thread::sleep_for(std::chrono::milliseconds(r.below(60)));
		if (ok && r.chance(7)) { ev(J().t("e", "reinit")); ex->finalize(); ex->init(); } }
	// whatever is still on its way arrives before the last call
	calm = true; int guard = 0; do std::this_thread::sleep_for(std::chrono::milliseconds(80)); while (busy > 0 && guard++ < 100);
	if (ok) { Batch last; last.push_back(std::make_shared<WE>()); last[0]->id = ++g_id; last[0]->mark_as_due_for_processing(); call(*ex, last, false, ITERATION_COUNTER_TYPE(ext + 1), useExt); }
	ev(J().t("e", "end")); finish("ok", "");
}
int main(int argc, char** argv) {
	g_net = argc > 5 && std::string(argv[5]) == "net";
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed); vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		if (g_net) net(i, r); else reliable(i, r);
	});
}
