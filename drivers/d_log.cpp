// L01: several threads log through the global logger; the process-wide singletons.
#include "common/GLogger.hpp"
#include "common/GSingletonT.hpp"
#include "drv.hpp"
#include <fstream>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <thread>
using namespace drv; using namespace Gem::Common;
struct Msg { int id, th; std::string how, src, body; };
static std::vector<Msg> g_msgs; static std::map<std::string, std::vector<int>> g_sink;
static bool eat(std::string const& s, size_t& p, std::string const& w) { if (s.compare(p, w.size(), w)) return false; p += w.size(); return true; }
// the messages a text consists of; -1: something that is no whole message
static std::vector<int> decode(std::string const& s, bool console) {
	std::vector<int> o; size_t p = 0;
	while (p < s.size()) {
		bool found = false;
		for (auto const& m : g_msgs) {
			size_t k = p; std::string pre = console && !m.src.empty() ? "Message from source \"" + m.src + "\":\n" : "";
			if (!pre.empty() && !eat(s, k, pre)) continue;
			if (m.how == "warn" || m.how == "exc") {   // a framed message: the frame ends with a line of its own
				if (!eat(s, k, "\n====")) continue;
				size_t b = s.find(m.body, k), e = s.find("The Geneva team\n", k); if (b == std::string::npos || e == std::string::npos || b > e) continue;
				if (s.substr(k, e - k).find(m.how == "warn" ? "WARNING" : "ERROR") == std::string::npos) continue;
				e = s.find('\n', e + 16); if (e == std::string::npos) continue; k = e + 1; }
			else if (!eat(s, k, m.body)) continue;
			o.push_back(m.id); p = k; found = true; break;
		}
		if (!found) { o.push_back(-1); break; }
	}
	return o;
}
static std::string slurp(std::string const& f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
// a target that notices when it is used by two threads at once
struct Rec : GBaseLogTarget { std::string name; mutable int busy = 0; explicit Rec(std::string n) : name(std::move(n)) {}
	void put(std::string const& t, std::string const& src) const { if (busy++) ev(J().t("e", "clash").t("s", name)); for (int j = vs::rnd(2); j > 0; j--) vs::point(); auto d = decode(t, false); for (int x : d) { if (x >= 0 && g_msgs[size_t(x)].src != src) x = -1; g_sink[name].push_back(x); } busy--; }
	void log(std::string const& t) const override { put(t, ""); } void logWithSource(std::string const& t, std::string const& s) const override { put(t, s); } };
static int g_made = 0;
struct Single { int id; Single() { vs::point(); id = ++g_made; vs::point(); } };
static void scenario(int, uint64_t seed) {
	Rng r(seed); g_msgs.clear(); g_sink.clear(); g_made = 0;
	vs::set_end_handler([](std::string const& h, std::string const& d) { finish(h, d); });
	char d[] = "pXXXXXX"; if (!mkdtemp(d) || chdir(d)) exit(2);
	std::ostringstream so, se, sl; auto* bo = std::cout.rdbuf(so.rdbuf()); auto* be = std::cerr.rdbuf(se.rdbuf()); auto* bl = std::clog.rdbuf(sl.rdbuf());
	vs::start(sched_config(r));
	std::vector<std::shared_ptr<GBaseLogTarget>> pool; std::vector<std::string> names;
	for (int i = 0; i < 2; i++) { names.push_back("r" + std::to_string(i)); pool.push_back(std::make_shared<Rec>(names.back())); }
	names.push_back("f0"); pool.push_back(std::make_shared<GFileLogger>("f0")); names.push_back("con"); pool.push_back(std::make_shared<GConsoleLogger>());
	int phases = r.range(1, 4), next = 0; std::vector<std::string> conf;
	static const char* srcs[] = {"", "", "srcA", "srcB"};
	std::string evs;
	for (int ph = 0; ph < phases; ph++) {
		for (int k = r.below(3); k > 0; k--) { int x = r.below(6);
			if (x == 0) { glogger.resetLogTargets(); ev(J().t("e", "reset")); }
			else if (x == 1) { int t = r.below(4); glogger.setDefaultLogTarget(pool[t]); ev(J().t("e", "dflt").t("s", names[t])); }
			else if (x == 2) { bool threw = false; try { if (r.chance(50)) glogger.addLogTarget(nullptr); else glogger.setDefaultLogTarget(nullptr); } catch (gemfony_exception&) { threw = true; } ev(J().t("e", "null").b("threw", threw)); }
			else { int t = r.below(4); glogger.addLogTarget(pool[t]); ev(J().t("e", "add").t("s", names[t])); } }
		ev(J().t("e", "has").b("b", glogger.hasLogTargets()));
		int nt = r.range(1, 3); std::vector<std::vector<Msg>> plan;
		for (int t = 0; t < nt; t++) { plan.emplace_back(); int n = r.range(1, 3); for (int i = 0; i < n; i++) { Msg m; m.id = next++; m.th = t + 1; static const char* hows[] = {"log", "log", "log", "warn", "out", "err", "file", "exc"}; m.how = hows[r.below(8)]; m.src = (m.how == "log" || m.how == "warn") ? srcs[r.below(4)] : ""; m.body = "<" + std::to_string(m.id) + (r.chance(5) ? std::string(20000, 'x') : std::string()) + ">\n"; plan.back().push_back(m); g_msgs.push_back(m); } }
		ev(J().t("e", "phase").i("n", nt));
		auto body = [&](int t) { for (auto const& m : plan[size_t(t)]) {
			ev(J().t("e", "call").i("t", t + 1).i("m", m.id).t("how", m.how).t("src", m.src)); bool threw = false, whole = false; size_t h = m.body.size() / 2; std::string a = m.body.substr(0, h), b = m.body.substr(h, m.body.size() - h - 1);
			try {
				if (m.how == "log") { if (m.src.empty()) glogger << a << b << std::endl << GLOGGING; else glogger(m.src) << a << b << std::endl << GLOGGING; }
				else if (m.how == "warn") { if (m.src.empty()) glogger << a << b << std::endl << GWARNING; else glogger(m.src) << a << b << std::endl << GWARNING; }
				else if (m.how == "out") glogger << a << b << std::endl << GSTDOUT; else if (m.how == "err") glogger << a << b << std::endl << GSTDERR;
				else if (m.how == "file") glogger(std::filesystem::path("one.txt")) << a << b << std::endl << GFILE;
				else glogger << a << b << std::endl << GEXCEPTION;
			} catch (gemfony_exception& e) { threw = true; whole = std::string(e.what()).find(m.body) != std::string::npos; }
			ev(J().t("e", "ret").i("t", t + 1).i("m", m.id).b("threw", threw).b("whole", whole)); for (int j = vs::rnd(2); j > 0; j--) vs::point(); } };
		std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t] { body(t); }); for (auto& t : th) t.join();
	}
	// singletons: created once, however many threads ask first
	{ int rounds = r.range(0, 2); for (int k = 0; k < rounds; k++) { int nt = r.range(1, 4), before = g_made; std::vector<std::thread> th; std::vector<int> got(size_t(nt), 0); for (int t = 0; t < nt; t++) th.emplace_back([&, t] { for (int j = vs::rnd(2); j > 0; j--) vs::point(); auto p = GSingletonT<Single>::Instance(0); got[size_t(t)] = p ? p->id : -1; }); for (auto& t : th) t.join(); ev(J().t("e", "single").i("made", g_made - before).i("was", before).arr("got", got)); if (r.chance(50)) { GSingletonT<Single>::Instance(1); ev(J().t("e", "drop")); } } }
	vs::stop();
	std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::clog.rdbuf(bl);
	g_sink["out"] = decode(so.str(), false); g_sink["err"] = decode(se.str(), false); g_sink["con"] = decode(sl.str(), true); g_sink["one"] = decode(slurp("one.txt"), false); g_sink["exc"] = decode(slurp("GENEVA-EXCEPTION.log"), false); g_sink["f0"] = decode(slurp("f0"), false);
	for (std::string s : {"srcA", "srcB"}) { std::string t = slurp("f0_" + s), h = "Logging data from source " + s + "\n"; if (t.compare(0, h.size(), h) == 0) t.erase(0, h.size()); g_sink["f0_" + s] = decode(t, false); }
	J f; for (auto n : {"r0", "r1", "f0", "f0_srcA", "f0_srcB", "con", "out", "err", "one", "exc"}) f.arr(n, g_sink[n]);
	cfg(J().raw("final", f.str()));
	ev(J().t("e", "end"));
}
int main(int argc, char** argv) { return run_all(argc, argv, scenario); }
