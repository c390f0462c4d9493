// C01: random programs of buffer calls by 2..5 threads under the deterministic scheduler.
#include "common/GBoundedBufferT.hpp"
#include "drv.hpp"
#include <thread>
#include <memory>
using namespace drv;
struct Op { std::string op, mode; bool mv; int v; int to; };
// moved-from and copied items stay distinguishable
struct Item { int v = 0; Item() = default; explicit Item(int x) : v(x) {} Item(Item const& o) : v(o.v) {} Item(Item&& o) noexcept : v(o.v) { o.v = -77; } Item& operator=(Item const& o) { v = o.v; return *this; } Item& operator=(Item&& o) noexcept { v = o.v; o.v = -77; return *this; } };

template <size_t CAP> void prog(Gem::Common::GBoundedBufferT<Item, CAP>& b, int t, std::vector<Op> const& ops) {
	for (auto const& o : ops) {
		ev(J().t("e", "call").i("t", t).t("op", o.op).t("m", o.mode).i("v", o.v));
		int64_t t0 = vs::now_ns();
		bool ok = true; long long v = o.v;
		std::chrono::duration<double> d(o.to / 1000.);
		if (o.op == "push") {
			Item it(o.v);
			if (o.mode == "block") { if (o.mv) b.push_and_block_move(std::move(it)); else b.push_and_block_copy(it); }
			else if (o.mode == "wait") ok = o.mv ? b.push_and_wait_move(std::move(it), d) : b.push_and_wait_copy(it, d);
			else ok = o.mv ? b.try_push_move(std::move(it)) : b.try_push_copy(it);
			if (!ok && it.v != o.v) v = -9; // a refused item must still be with the caller
			if (!ok) v = -1;
			if (!ok && it.v != o.v) { ok = true; v = -9; }
			if (ok && !o.mv && it.v != o.v) v = -8; // the copying flavours leave the original alone
		} else if (o.op == "pop") {
			Item it(-5);
			if (o.mode == "block") { if (o.mv) b.pop_and_block_move(it); else b.pop_and_block_copy(it); }
			else if (o.mode == "wait") ok = o.mv ? b.pop_and_wait_move(it, d) : b.pop_and_wait_copy(it, d);
			else ok = o.mv ? b.try_pop_move(it) : b.try_pop_copy(it);
			v = ok ? it.v : -1;
			if (!ok && it.v != -5) { ok = true; v = it.v; }
		} else if (o.op == "size") v = (long long)b.size();
		else if (o.op == "space") v = (long long)b.getRemainingSpace();
		else if (o.op == "empty") v = b.empty() ? 1 : 0;
		else v = b.isNotEmpty() ? 1 : 0;
		ev(J().t("e", "ret").i("t", t).b("ok", ok).i("v", v).i("el", (vs::now_ns() - t0) / 1000).i("to", o.to * 1000));
	}
}
template <size_t CAP> void scenario_cap(Rng& r) {
	int nt = r.range(2, 5), item = 0;
	std::vector<std::vector<Op>> ps(nt);
	int total = r.range(nt, 18);
	int modeMix = r.below(4);
	for (int k = 0; k < total; k++) {
		int t = r.below(nt);
		if (modeMix == 3 && t == 0) continue;
		Op o; int x = r.below(100);
		// threads lean to one side, so that both sides really block
		int lean = (t % 2 == 0) ? 70 : 25;
		if (x < 6) { static const char* l[] = {"size", "space", "empty", "notempty"}; o.op = l[r.below(4)]; if (CAP == 0 && o.op == "space") o.op = "size"; o.mode = "look"; o.v = 0; o.to = 0; o.mv = false; }
		else {
			o.op = r.chance(lean) ? "push" : "pop";
			static const char* mixes[4][4] = {{"block", "wait", "try", "block"}, {"block", "block", "block", "try"}, {"wait", "wait", "block", "try"}, {"block", "try", "wait", "block"}};
			o.mode = mixes[modeMix][r.below(4)]; o.mv = r.chance(50); o.v = o.op == "push" ? ++item : 0; o.to = o.mode == "wait" ? r.range(1, 8) : 0;
		}
		ps[t].push_back(o);
	}
	Gem::Common::GBoundedBufferT<Item, CAP>* b = new Gem::Common::GBoundedBufferT<Item, CAP>;
	cfg(J().i("cap", (long long)CAP).i("nt", nt));
	vs::Config c = sched_config(r);
	vs::start(c);
	std::vector<std::thread> th;
	for (int t = 1; t < nt; t++) th.emplace_back([&, t] { prog<CAP>(*b, t, ps[t]); });
	prog<CAP>(*b, 0, ps[0]);
	for (auto& t : th) t.join();
	vs::stop();
	std::vector<int> rest; Item it;
	while (b->try_pop_copy(it)) rest.push_back(it.v);
	ev(J().t("e", "end").arr("rest", rest));
	delete b;
}
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int i, uint64_t seed) {
		Rng r(seed);
		vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		switch (i % 5) { case 0: scenario_cap<0>(r); break; case 1: case 2: scenario_cap<1>(r); break; case 3: scenario_cap<2>(r); break; default: scenario_cap<3>(r); }
	});
}
