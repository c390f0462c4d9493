// C02: random programs of submissions, waits, resizes and futures on a GThreadPool under the scheduler.
#include "common/GThreadPool.hpp"
#include "drv.hpp"
#include <boost/exception/all.hpp>
#include <future>
#include <thread>
#include <map>
#include <mutex>
#include <condition_variable>
using namespace drv;
enum Kind { VAL, VOID, STDEXC, BOOSTEXC, INTEXC, VOIDEXC, GEMEXC };
struct bexc : virtual boost::exception, virtual std::exception { std::string m; explicit bexc(std::string x) : m(std::move(x)) {} const char* what() const noexcept override { return m.c_str(); } };
static std::string outcome(Kind k, int id) {
	switch (k) { case VAL: return "val:" + std::to_string(id * 10); case VOID: return "void"; default: return "exc:" + std::to_string(id); }
}
static int body_steps[400];
static void pre(int id) { ev(J().t("e", "start").i("k", id)); for (int i = 0; i < body_steps[id]; i++) vs::point(); }
static void post(int id) { ev(J().t("e", "fin").i("k", id)); }
struct Rendezvous { std::mutex m; std::condition_variable c; int n = 0, want = 0; void meet() { std::unique_lock<std::mutex> l(m); ++n; c.notify_all(); c.wait(l, [&] { return n >= want; }); } };
static Rendezvous g_rv; static std::map<int, bool> g_meet;
static int work_val(int id, int f) { pre(id); if (g_meet[id]) g_rv.meet(); post(id); return id * f; }
static void work_void(int id) { pre(id); if (g_meet[id]) g_rv.meet(); post(id); }
static int work_exc(int id, Kind k) { pre(id); post(id); if (k == STDEXC) throw std::runtime_error("[T" + std::to_string(id) + "]"); if (k == BOOSTEXC) throw bexc("[T" + std::to_string(id) + "]"); if (k == GEMEXC) throw gemfony_exception("[T" + std::to_string(id) + "]"); throw id; }
static void work_voidexc(int id) { work_exc(id, STDEXC); }
template <class F> static std::string collect(std::future<F>& f) {
	try { if constexpr (std::is_void_v<F>) { f.get(); return "void"; } else return "val:" + std::to_string(f.get()); }
	catch (int i) { return "exc:" + std::to_string(i); }
	catch (std::exception& e) { std::string w = e.what(); auto p = w.find("[T"); if (p == std::string::npos) return "other:" + w.substr(0, 60); return "exc:" + std::to_string(atoi(w.c_str() + p + 2)); }
	catch (...) { return "unknown"; }
}
struct Fut { int id; Kind k; std::future<int> fi; std::future<void> fv; };
struct Op { int what; int a; Kind k; }; // 0 submit, 1 wait, 2 resize, 3 collect oldest, 4 pause
static void prog(Gem::Common::GThreadPool& p, int t, std::vector<Op> const& ops, std::vector<Fut>& futs) {
	size_t next = 0;
	auto get = [&](Fut& f) { std::string o = (f.k == VOID || f.k == VOIDEXC) ? collect(f.fv) : collect(f.fi); ev(J().t("e", "got").i("t", t).i("k", f.id).t("o", o)); };
	for (auto const& o : ops) switch (o.what) {
		case 0: {
			ev(J().t("e", "sub").i("t", t).i("k", o.a).t("o", outcome(o.k, o.a)));
			Fut f; f.id = o.a; f.k = o.k;
			if (o.k == VAL) f.fi = p.async_schedule([id = o.a]() { return work_val(id, 10); });
			else if (o.k == VOID) f.fv = p.async_schedule([id = o.a]() { work_void(id); });
			else if (o.k == VOIDEXC) f.fv = p.async_schedule([id = o.a]() { work_voidexc(id); });
			else f.fi = p.async_schedule([id = o.a, k = o.k]() { return work_exc(id, k); });
			ev(J().t("e", "acc").i("t", t).i("k", o.a));
			futs.push_back(std::move(f));
		} break;
		case 1: ev(J().t("e", "wait").i("t", t)); p.wait(); ev(J().t("e", "waited").i("t", t)); break;
		case 2: ev(J().t("e", "resize").i("t", t).i("n", o.a)); p.setNThreads(unsigned(o.a)); ev(J().t("e", "resized").i("t", t)); break;
		case 3: if (next < futs.size()) get(futs[next++]); break;
		default: vs::point();
	}
	while (next < futs.size() && vs::rnd(100) < 85) get(futs[next++]);
	// the rest of the futures is collected after destruction by the caller
	futs.erase(futs.begin(), futs.begin() + long(next));
}
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed);
		vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		int nt = r.range(1, 3), n0 = r.below(10) == 0 ? 0 : r.range(1, 4), id = 0; bool rendez = (i % 8 == 7);
		std::vector<std::vector<Op>> ps(nt); int total = r.range(2, 16); int lastN = n0;
		if (rendez) { // as many tasks as threads meet each other; only possible if all threads really work
			int m = r.range(2, 4); nt = 1; ps.assign(1, {});
			n0 = r.chance(50) ? m : r.range(1, 4);
			if (n0 != m) { if (r.chance(70)) { ps[0].push_back({0, ++id, VAL}); } ps[0].push_back({2, m, VAL}); }
			g_rv.want = m;
			for (int k = 0; k < m; k++) { ++id; g_meet[id] = true; ps[0].push_back({0, id, r.chance(50) ? VAL : VOID}); }
			ps[0].push_back({1, 0, VAL});
		} else for (int k = 0; k < total; k++) {
			int t = r.below(nt), x = r.below(100);
			if (x < 60) ps[t].push_back({0, ++id, Kind(r.chance(50) ? r.below(2) : r.below(7))});
			else if (x < 72) ps[t].push_back({1, 0, VAL});
			else if (x < 84) { lastN = r.below(12) == 0 ? 0 : r.range(1, 5); ps[t].push_back({2, lastN, VAL}); }
			else if (x < 95) ps[t].push_back({3, 0, VAL});
			else ps[t].push_back({4, 0, VAL});
		}
		for (auto& b : body_steps) b = r.below(4);
		cfg(J().i("n", n0).i("dflt", Gem::Common::DEFAULTNHARDWARETHREADS).i("nt", nt));
		vs::start(sched_config(r));
		std::vector<std::vector<Fut>> futs(nt);
		{
			auto p = std::make_unique<Gem::Common::GThreadPool>(unsigned(n0));
			std::vector<std::thread> th;
			for (int t = 1; t < nt; t++) th.emplace_back([&, t] { prog(*p, t, ps[t], futs[t]); });
			prog(*p, 0, ps[0], futs[0]);
			for (auto& t : th) t.join();
			if (id > 0 && r.chance(50)) { // at least one task was submitted: threads are running
				ev(J().t("e", "num").i("n", p->getNThreads()));
			}
			ev(J().t("e", "destroy").i("t", 0));
			p.reset();
			ev(J().t("e", "destroyed").i("t", 0));
		}
		for (auto& v : futs) for (auto& f : v) { std::string o = (f.k == VOID || f.k == VOIDEXC) ? collect(f.fv) : collect(f.fi); ev(J().t("e", "got").i("t", 0).i("k", f.id).t("o", o)); }
		vs::stop();
		ev(J().t("e", "end"));
	});
}
