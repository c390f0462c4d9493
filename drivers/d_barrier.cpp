// C03: n threads use one barrier for several rounds.
#include "common/GBarrier.hpp"
#include "drv.hpp"
#include <thread>
using namespace drv;
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed);
		vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		int n = 1 + i % 6, rounds = r.range(1, 6);
		cfg(J().i("n", n).i("rounds", rounds));
		vs::start(sched_config(r));
		auto b = std::make_unique<Gem::Common::GBarrier>(n);
		auto body = [&](int t) { for (int k = 0; k < rounds; k++) { ev(J().t("e", "enter").i("t", t)); b->wait(); ev(J().t("e", "leave").i("t", t)); for (int j = vs::rnd(3); j > 0; j--) vs::point(); } };
		std::vector<std::thread> th;
		for (int t = 1; t < n; t++) th.emplace_back([&, t] { body(t); });
		body(0);
		for (auto& t : th) t.join();
		vs::stop();
		ev(J().t("e", "end"));
	});
}
