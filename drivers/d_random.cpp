// H01: consumers drawing from the shared random factory under the scheduler (small packages, buffers and seed vectors).
#include "hap/GRandomT.hpp"
#include "drv.hpp"
#include <unordered_map>
#include <deque>
#include <thread>
using namespace drv; using namespace Gem::Hap;
static std::unordered_map<uint32_t, int> g_num, g_seedmap; // value -> index of its first appearance
static int idx(std::unordered_map<uint32_t, int>& m, uint32_t v) { auto it = m.find(v); if (it == m.end()) { int n = int(m.size()) + 1; m[v] = n; return n; } return it->second; }
struct Op { int what, a; };
static void prog(int t, std::shared_ptr<GRandomFactory> f, std::vector<Op> const& ops) {
	std::deque<std::unique_ptr<random_container>> pk; std::deque<std::unique_ptr<GRandom>> gr; std::deque<std::unique_ptr<GRandomT<RANDFLAVOURS::RANDOMLOCAL>>> gl;
	auto draw = [&](const char* src, std::vector<int> v) { ev(J().t("e", "num").i("t", t).t("src", src).arr("vals", v)); };
	for (auto& o : ops) switch (o.what) {
		case 0: { ev(J().t("e", "req").i("t", t)); auto p = f->getNewRandomContainer(); ev(J().t("e", "got").i("t", t).b("ok", bool(p)).i("pos", p ? (long long)p->getCurrentPosition() : 0).i("size", p ? (long long)p->size() : 0)); if (p) pk.push_back(std::move(p)); } break;
		case 1: if (!pk.empty()) { std::vector<int> v; for (int k = 0; k < o.a && !pk.front()->empty(); k++) { v.push_back(idx(g_num, pk.front()->next())); if (k % 2) vs::point(); } draw("pkg", v); } break;
		case 2: if (!pk.empty()) { f->returnUsedPackage(std::move(pk.front())); pk.pop_front(); } break;
		case 3: if (!pk.empty()) pk.pop_front(); break;
		case 4: ev(J().t("e", "req").i("t", t)); gr.push_back(std::make_unique<GRandom>()); ev(J().t("e", "rdy").i("t", t)); break;
		case 5: if (!gr.empty()) { std::vector<int> v; for (int k = 0; k < o.a; k++) v.push_back(idx(g_num, (*gr.back())())); draw("proxy", v); } break;
		case 6: if (!gr.empty()) { if (o.a % 2) gr.push_front(std::make_unique<GRandom>(*gr.back())); else gr.push_front(std::make_unique<GRandom>(std::move(*gr.back()))); } break;
		case 7: if (!gr.empty()) gr.pop_front(); break;
		case 8: { uint32_t s = f->getSeed(); ev(J().t("e", "seed").i("t", t).i("s", idx(g_seedmap, s))); } break;
		case 9: ev(J().t("e", "setn").i("t", t).i("n", o.a)); f->setNProducerThreads(std::uint16_t(o.a)); ev(J().t("e", "setnd").i("t", t)); break;
		case 10: if (gr.size() > 1) { if (o.a % 2) *gr[0] = *gr[1]; else *gr[0] = std::move(*gr[1]); } break;
		case 11: gl.push_back(std::make_unique<GRandomT<RANDFLAVOURS::RANDOMLOCAL>>()); if (o.a % 2) gl.push_back(std::make_unique<GRandomT<RANDFLAVOURS::RANDOMLOCAL>>(*gl.back())); break;
		case 12: for (auto& g : gl) { std::vector<int> v; for (int k = 0; k < 2; k++) v.push_back(idx(g_num, (*g)())); draw("local", v); } break;
		default: std::this_thread::sleep_for(std::chrono::milliseconds(o.a * 30));
	}
	for (auto& p : pk) { std::vector<int> v; while (!p->empty()) v.push_back(idx(g_num, p->next())); draw("pkg", v); }
}
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int, uint64_t seed) {
		vs::set_end_handler([](std::string const& h, std::string const& d) { ev(J().t("e", h == "deadlock" ? "stuck" : h).t("d", d)); finish(h, d); });
		Rng r(seed); int nt = r.range(1, 3), total = r.range(3, 24); std::vector<std::vector<Op>> ps(nt); bool seeds = r.chance(40), local = r.chance(20);
		for (int k = 0; k < total; k++) { int t = r.below(nt), x = r.below(100);
			if (x < 22) ps[t].push_back({0, 0}); else if (x < 34) ps[t].push_back({1, r.range(1, 5)}); else if (x < 46) ps[t].push_back({2, 0}); else if (x < 49) ps[t].push_back({3, 0});
			else if (x < 57) ps[t].push_back({4, 0}); else if (x < 71) ps[t].push_back({5, r.range(1, 9)}); else if (x < 76) ps[t].push_back({6, r.below(2)}); else if (x < 80) ps[t].push_back({7, 0});
			else if (x < 86) { if (seeds) for (int q = r.range(1, 8); q > 0; q--) ps[t].push_back({8, 0}); } else if (x < 91) ps[t].push_back({9, r.below(6)}); else if (x < 94) ps[t].push_back({10, r.below(2)});
			else if (x < 97) { if (local) { ps[t].push_back({11, r.below(2)}); ps[t].push_back({12, 0}); } } else ps[t].push_back({13, r.range(1, 6)}); }
		cfg(J().i("dflt", DEFAULT01PRODUCERTHREADS).i("size", DEFAULTARRAYSIZE).i("nt", nt));
		auto c = sched_config(r); vs::start(c);
		{
			std::shared_ptr<GRandomFactory> f = GRANDOMFACTORY;
			std::vector<std::thread> th; for (int t = 1; t < nt; t++) th.emplace_back([&, t] { prog(t, f, ps[t]); });
			prog(0, f, ps[0]);
			for (auto& t : th) t.join();
			ev(J().t("e", "threads").i("n", vs::live_threads() - 1));
			f->finalize(); ev(J().t("e", "finalized").i("n", vs::live_threads() - 1)); f->finalize();
		}
		vs::stop();
		ev(J().t("e", "end"));
	});
}
