// G01: chains of optimization algorithms executed by Go2: what is handed on, how iterations are numbered, who sees which run,
// what the final result is.
#include "alg.hpp"
#include "geneva/Go2.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include <filesystem>
using namespace gi; namespace fs = std::filesystem; using Alg = G_OptimizationAlgorithm_Base; using AP = std::shared_ptr<Alg>;
struct Prot : Alg { static void nrec(Alg& a, size_t n) { (a.*&Prot::setNRecordBestIndividuals)(n); } static void size(Alg& a, size_t n) { (a.*&Prot::setDefaultPopulationSize)(n); } };
static std::vector<AP> g_algs; static std::vector<std::array<int, 3>> g_cnt;
static bool g_default = false;
static int which(Alg const* a) { if (g_default) return 1; for (size_t k = 0; k < g_algs.size(); k++) if (g_algs[k].get() == a) return int(k) + 1; return 0; }
static std::string counts() { std::string s = "["; for (auto& c : g_cnt) { if (s.size() > 1) s += ','; s += "[" + std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]) + "]"; } return s + "]"; }
#define SER template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GBasePluggableOM); }
struct Own : GBasePluggableOM {   // a monitor of a single algorithm
	SER int k = 0; bool live = false; Own() = default; explicit Own(int n) : k(n), live(true) {} Own(Own const&) = default; void load_(const GObject* p) override { GBasePluggableOM::load_(p); live = false; }   // a checkpoint brings its own monitors
	std::string name_() const override { return "Own"; } GObject* clone_() const override { return new Own(*this); }
	void informationFunction_(infoMode m, Alg const* const a) override { if (!live) return; g_cnt[k][which(a) != k + 1 ? 0 : m == infoMode::INFOINIT ? 0 : m == infoMode::INFOPROCESSING ? 1 : 2] += which(a) == k + 1 ? 1 : 1000; } };
struct Mon : GBasePluggableOM {   // the monitor of the chain
	SER bool live = false; Mon() = default; explicit Mon(bool l) : live(l) {} Mon(Mon const&) = default; void load_(const GObject* p) override { GBasePluggableOM::load_(p); }   // copies from checkpoints keep silent
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, Alg const* const a) override {
		if (!live) return;
		J j; j.t("e", m == infoMode::INFOINIT ? "init" : m == infoMode::INFOPROCESSING ? "cyc" : "fin").i("k", which(a)).i("it", a->getIteration()).raw("cnt", counts());
		j.raw("pop", tags(*a));
		if (m != infoMode::INFOINIT) { auto g = a->getBestGlobalIndividuals<GParameterSet>(); j.raw("glob", lists(g)).b("vals", same_values(g_vals, g)); }
		if (m == infoMode::INFOPROCESSING) j.i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness())));
		ev(j); } };
BOOST_CLASS_EXPORT(Own)
BOOST_CLASS_EXPORT(Mon)
struct Creator : Gem::Common::GFactoryT<GParameterSet> {
	std::function<std::shared_ptr<GParameterSet>()> f; int left; Creator(std::function<std::shared_ptr<GParameterSet>()> g, int n) : Gem::Common::GFactoryT<GParameterSet>("./Creator.json"), f(g), left(n) {} int opt = 0;
	void describeLocalOptions_(Gem::Common::GParserBuilder& b) override { b.registerFileParameter<int>("opt", opt, 0); }
	std::shared_ptr<GParameterSet> getObject_(Gem::Common::GParserBuilder&, const std::size_t&) override { return left-- > 0 ? f() : nullptr; } 
	void postProcess_(std::shared_ptr<GParameterSet>&) override {} };
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		fs::remove_all("cp"); fs::create_directory("cp"); g_algs.clear(); g_cnt.clear();
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next()); g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 3) : r.range(4, 40);
		g_w.fit = [](Ind& p) { g_vals[p.tag] = p.values(); double v = E->r.range(-E->span, E->span); ev(J().t("e", "eval").i("id", p.tag).i("old", p.old).i("f", mo(v))); return std::vector<double>{v}; };
		auto make = [&] { auto p = std::make_shared<Ind>(1); for (int k = 0; k < 2; k++) { auto d = std::make_shared<GConstrainedDoubleObject>(-8., 8.); auto g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); g->setAdaptionProbability(1.); d->setValue(r.range(-7, 7)); d->addAdaptor(g); p->push_back(d); }
			p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); if (r.chance(15)) p->process(); return p; };
		int na = r.range(1, 3), lim = 0; std::string algs = "["; bool cpuse = r.chance(25);
		auto alg = [&](bool first, std::string& desc) { int t = r.below(5), keep = 1000, steps = 0, nrec = r.range(1, 6), size = 0; AP a;
			if (t == 0) { auto x = std::make_shared<GEvolutionaryAlgorithm>(); int np = r.range(1, 3); x->setSortingScheme(sortingMode(r.below(3))); x->setPopulationSizes(size = 2 * np + r.range(0, 4), np); if (r.chance(20)) x->setPopulationGrowth(1, size + 2); x->setNThreads(1); a = x; }
			if (t == 1) { auto x = std::make_shared<GSimulatedAnnealing>(); int np = r.range(1, 3); x->setPopulationSizes(size = 2 * np + r.range(0, 3), np); x->setT0(2.); x->setNThreads(1); a = x; }
			if (t == 2) { auto x = std::make_shared<GSwarmAlgorithm>(); int n = r.range(1, 3), m = r.range(1, 3); size = n * m; x->setSwarmSizes(n, m); a = x; keep = n; }
			if (t == 3) { auto x = std::make_shared<GGradientDescent>(); keep = r.range(1, 3); x->setNStartingPoints(keep); x->setFiniteStep(62.5); x->setStepSize(31.25); a = x; size = int(a->getDefaultPopulationSize()); }
			if (t == 4) { auto x = std::make_shared<GParameterScan>(); keep = 1; steps = r.range(1, 6); char b[80]; snprintf(b, 80, "d(0, -8., 8., %d)", steps == 1 ? steps = 2 : steps); x->setParameterSpecs(b); a = x; Prot::size(*a, size = r.range(1, 3)); }
			lim += r.range(0, 4); int mx = t == 4 && r.chance(60) ? 0 : std::max(1, lim + (r.chance(10) ? -3 : 0)), ms = r.chance(25) ? r.range(1, 3) : 0;
			a->setMaxIteration(mx); a->setMinIteration(0); a->setMaxStallIteration(ms); a->setStallCounterThreshold(r.range(0, 3)); a->setMaxTime(std::chrono::duration<double>(0)); a->setReportIteration(1); a->setEmitTerminationReason(false); Prot::nrec(*a, nrec);
			if (cpuse && first) { a->setCheckpointInterval(r.range(1, 2)); a->setCheckpointBaseName("./cp", "b.cp"); a->setCheckpointSerializationMode(Gem::Common::serializationMode(r.below(3))); }
			desc = J().i("keep", keep).i("steps", steps).i("max", mx).i("stall", ms).i("nrec", nrec).i("size", size).str(); return a; };
		g_default = na == 1 && r.chance(20); std::vector<int> order; std::vector<std::string> descs;
		for (int k = 0; k < na; k++) { if (k && r.chance(10)) { order.push_back(r.range(1, int(g_algs.size()))); continue; } std::string d; g_algs.push_back(alg(!k, d)); descs.push_back(d); order.push_back(int(g_algs.size())); }
		for (auto& d : descs) algs += (algs.size() > 1 ? "," : "") + d;
		bool best = r.chance(65), creator = r.chance(25); g_cnt.resize(g_algs.size());
		cfg(J().raw("algs", algs + "]").arr("order", order).b("best", best).b("max", g_max).b("dflt", g_default));
		char a0[] = "prog"; char* av[] = {a0, nullptr}; auto go = std::make_shared<Go2>(1, av, "./Go2.json"); go->setCopyBestIndividualsOnly(best); go->registerPluggableOM(std::make_shared<Mon>(true));
		std::vector<std::shared_ptr<GParameterSet>> mine; auto take = [&] { auto p = make(); mine.push_back(p); return p; };
		// individuals come with the first algorithm, are registered with the chain, or are created on demand
		int avail = r.range(1, 6);
		if (creator) go->registerContentCreator(std::make_shared<Creator>([&]() -> std::shared_ptr<GParameterSet> { auto p = take(); ev(J().t("e", "made").i("id", tag(p))); return p; }, avail));
		else { int n = r.range(1, 5), w = r.below(n + 1); for (int k = 0; k < w; k++) g_algs[0]->push_back(take());
			if (g_default) go->registerDefaultAlgorithm(g_algs[0]); else for (int k : order) go->addAlgorithm(g_algs[k - 1]);
			for (int k = w; k < n; k++) go->push_back(take()); }
		if (creator) { if (g_default) go->registerDefaultAlgorithm(g_algs[0]); else for (int k : order) go->addAlgorithm(g_algs[k - 1]); }
		auto run = [&](Go2& go, int off, int cpit) { for (size_t k = 0; k < g_algs.size(); k++) { auto& a = g_algs[k]; a->registerExecutor(execMode::SERIAL, "./exec.json"); if (!g_default) a->registerPluggableOM(std::make_shared<Own>(int(k))); }
			go.setOffset(off); ev(J().t("e", "go").i("off", off).i("n", creator && go.empty() && cpit < 0 ? std::min<int>(avail, g_algs[0]->getDefaultPopulationSize()) : -1).raw("pool", tags(go)).i("cp", cpit));
			try { go.optimize(); } catch (gemfony_exception& x) { ev(J().t("e", "fail").t("what", std::string(x.what()).substr(0, 300))); return false; }
			auto res = go.getBestGlobalIndividuals<GParameterSet>(); auto b = go.getBestGlobalIndividual<GParameterSet>(); std::vector<std::shared_ptr<GParameterSet>> bv{b};
			ev(J().t("e", "done").i("it", go.getIteration()).raw("res", lists(res)).raw("best", lists(bv)).b("vals", same_values(g_vals, res) && same_values(g_vals, bv))); return true; };
		bool ok = run(*go, r.chance(50) ? 0 : r.range(1, 5), -1);
		if (ok && r.chance(30)) ok = run(*go, g_default ? int(go->getIteration()) + r.below(3) : r.chance(50) ? 0 : r.range(1, 5), -1);
		// a second chain starts from a checkpoint of its first algorithm
		std::vector<fs::path> fl; for (auto& f : fs::directory_iterator("cp")) fl.push_back(f.path()); std::sort(fl.begin(), fl.end());
		if (ok && !g_default && !fl.empty()) { auto f = fl[r.below(fl.size())]; std::string opt = "--cp_file=" + f.string(); std::vector<char> o(opt.begin(), opt.end()); o.push_back(0); char* av2[] = {a0, o.data(), nullptr};
			Go2 g2(2, av2, "./Go2.json"); g2.setCopyBestIndividualsOnly(best); g2.registerPluggableOM(std::make_shared<Mon>(true)); for (int k : order) g2.addAlgorithm(g_algs[k - 1]);
			auto s = f.filename().string(); auto p = s.find("PERSONALITY"); p = s.find('-', p); run(g2, r.range(0, 5), atoi(s.c_str() + p + 1)); }
		ev(J().t("e", "end"));
	});
}
