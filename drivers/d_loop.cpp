// O01: the optimization loop with a scripted algorithm: improvements, stalls, time, halting criteria, monitors.
#include "gind.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.hpp"
#include <dlfcn.h>
using namespace gi;
static long long g_off = 0;   // virtual time added to the real clock, ns
static long long g_base = 0;  // all of it, once frozen
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
	static auto real = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
	if (c != CLOCK_REALTIME || !g_base) return real(c, t);
	long long n = g_base + g_off; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
static void freeze() { struct timespec t; g_base = 0; clock_gettime(CLOCK_REALTIME, &t); g_base = t.tv_sec * 1000000000LL + t.tv_nsec; }
struct Script { Rng r{1}; int span = 3, nsame = 50, sigAt = -1, touchAt = -1, customAt = -1, trans = 0; bool touchOld = false; std::vector<int> adv; int cycles = 0; std::string tfile = "terminate.now"; };
static Script* S;
static std::string bests(std::vector<std::shared_ptr<GParameterSet>> const& v) { std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + std::to_string(raw(*p)) + "," + std::to_string(tra(*p)) + "]"; } return s + "]"; }
static std::string globs(G_OptimizationAlgorithm_Base const& a) { try { return bests(a.getBestGlobalIndividuals<GParameterSet>()); } catch (gemfony_exception&) { return "[]"; } }
struct Toy : G_OptimizationAlgorithm_Base {
	int fit(Ind&) { return S->r.range(-S->span, S->span); }
	Toy() = default; Toy(Toy const&) = default;
	std::string name_() const override { return "Toy"; } GObject* clone_() const override { return new Toy(*this); }
	std::string getAlgorithmPersonalityType_() const override { return "PERSONALITY_TOY"; } std::string getAlgorithmName_() const override { return "Toy"; }
	std::shared_ptr<GPersonalityTraits> getPersonalityTraits_() const override { return std::make_shared<GEvolutionaryAlgorithm_PersonalityTraits>(); }
	void adjustPopulation_() override {} void runFitnessCalculation_() override {}
	void actOnStalls_() override { ev(J().t("e", "stalled").i("it", getIteration()).i("stall", getStallCounter())); }
	bool customHalt_() const override { return S->customAt >= 0 && S->cycles >= S->customAt; }
	void init() override { G_OptimizationAlgorithm_Base::init(); freeze(); S->cycles = 0; S->adv.clear(); ev(J().t("e", "init").raw("glob", globs(*this))); }
	void finalize() override { ev(J().t("e", "fin").raw("glob", globs(*this))); }
	std::tuple<double, double> cycleLogic_() override {
		bool mk = true; for (auto& p : *this) mk = mk && p->getAssignedIteration() == getIteration();
		long best = 0, braw = 0; bool any = false; std::string s = "[";
		for (auto& p : *this) {
			if (S->r.chance(S->nsame)) p->mark_as_due_for_processing();
			if (p->is_due_for_processing()) p->process();
			if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + std::to_string(raw(*p)) + "," + std::to_string(tra(*p)) + "]";
			bool better = p->getMaxMode() == maxMode::MAXIMIZE ? tra(*p) > best : tra(*p) < best;
			if (!any || better) { best = tra(*p); braw = raw(*p); any = true; } }
		braw += S->trans; S->cycles++; static const int ad[] = {0, 0, 1, 3, 10, 40}; g_off += ad[S->r.below(6)] * 1000000LL;
		if (S->cycles == S->sigAt) raise(SIGHUP);
		if (S->cycles == S->touchAt) { std::ofstream(S->tfile) << "x"; std::filesystem::last_write_time(S->tfile, std::filesystem::file_time_type::clock::now() + std::chrono::seconds(S->touchOld ? -100 : 100)); }
		ev(J().t("e", "cycle").raw("glob", globs(*this)).i("it", getIteration()).b("mk", mk).b("first", inFirstIteration()).raw("pop", s + "]").i("raw", braw).i("tra", best).i("t", g_off / 1000000).b("sig", S->cycles == S->sigAt).b("touch", S->cycles == S->touchAt && !S->touchOld));
		return {double(braw), double(best)}; }
	using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals;
	GPersonalityTraits const* p = nullptr;
};
struct Mon : GBasePluggableOM {
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		bool ok = true; if (m != infoMode::INFOINIT) for (auto& p : *a) ok = ok && p->getNStalls() == a->getStallCounter() && p->getBestKnownPrimaryFitness() == a->getBestKnownPrimaryFitness();
		J j; j.t("e", "om").t("m", m == infoMode::INFOINIT ? "init" : m == infoMode::INFOEND ? "end" : "proc").i("it", a->getIteration()).i("stall", a->getStallCounter()).b("marked", ok).b("halted", a->halted());
		if (m != infoMode::INFOINIT) j.i("kraw", rank(std::get<0>(a->getBestKnownPrimaryFitness()))).i("ktra", rank(std::get<1>(a->getBestKnownPrimaryFitness()))).i("ctra", rank(std::get<1>(a->getBestCurrentPrimaryFitness())));
		if (m != infoMode::INFOINIT) j.raw("glob", bests(a->getBestGlobalIndividuals<GParameterSet>())).raw("iter", bests(a->getBestIterationIndividuals<GParameterSet>())).raw("best", bests({a->getBestGlobalIndividual<GParameterSet>(), a->getBestIterationIndividual<GParameterSet>()}));
		ev(j); } };
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); g_random = seed; Script s; S = &s; s.r = Rng(r.next());
		bool max = r.chance(40); s.span = r.range(1, 12); s.nsame = r.range(20, 100); s.trans = r.chance(50) ? 0 : r.range(-4, 4);
		g_w.fit = [&](Ind&) { return std::vector<double>{double(s.r.range(-s.span, s.span))}; };
		Toy a; int np = r.range(1, 4);
		auto fill = [&]() { for (int k = 0; k < np; k++) { auto p = std::make_shared<Ind>(std::size_t(1)); p->push_back(std::make_shared<GDoubleObject>(0.5)); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE);
			p->mark_as_due_for_processing(); if (r.chance(20)) { p->process(); ev(J().t("e", "pre").i("id", p->tag).i("raw", raw(*p)).i("tra", tra(*p))); } a.push_back(p); } };
		cfg(J().b("max", max).i("np", np));
		signal(SIGHUP, GObject::sigHupHandler);
		a.setTerminationFile(s.tfile, false); a.setEmitTerminationReason(false);
		if (r.chance(80)) a.registerPluggableOM(std::make_shared<Mon>());
		bool mon = a.hasPluggableOptimizationMonitors();
		int runs = r.range(1, 3); bool filled = false;
		int maxI = 0, minI = 0;
		a.setMinIteration(0); a.setMaxIteration(1000);
		a.setMaxStallIteration(0); a.setMaxTime(std::chrono::duration<double>(0)); a.setMinTime(std::chrono::duration<double>(0));
		maxI = 1000;
		int nrec = 0;
		for (int k = 0; k < runs; k++) {
			unlink(s.tfile.c_str());
			if (filled && r.chance(30)) { a.resetToOptimizationStart(); ev(J().t("e", "reset").i("it", a.getIteration()).i("n", a.size())); filled = false; }
			if (!filled) { fill(); filled = true; }
			a.registerExecutor(execMode::SERIAL, "./exec.json");
			nrec = r.range(1, 6); a.setNRecordBestIndividuals(nrec);
			// limits: refused if they contradict each other
			for (int x = r.range(1, 3); x > 0; x--) {
				if (r.chance(50)) { int m = r.chance(25) ? 0 : r.range(1, 30); bool th = false; try { a.setMaxIteration(m); } catch (gemfony_exception&) { th = true; } ev(J().t("e", "setmax").i("n", m).b("thrown", th).i("max", a.getMaxIteration()).i("min", a.getMinIteration())); }
				else { int m = r.chance(40) ? 0 : r.range(1, 20); bool th = false; try { a.setMinIteration(m); } catch (gemfony_exception&) { th = true; } ev(J().t("e", "setmin").i("n", m).b("thrown", th).i("max", a.getMaxIteration()).i("min", a.getMinIteration())); } }
			int ms = r.chance(50) ? 0 : r.range(1, 6); a.setMaxStallIteration(ms);
			int sth = r.chance(50) ? 0 : r.range(1, 4); a.setStallCounterThreshold(sth);
			int mt = r.chance(60) ? 0 : r.range(1, 120), mn = r.chance(60) ? 0 : r.range(0, mt ? mt : 60);
			a.setMaxTime(std::chrono::duration<double>(0)); a.setMinTime(std::chrono::duration<double>(mn / 1000.)); a.setMaxTime(std::chrono::duration<double>(mt / 1000.));
			bool hq = r.chance(40); int q = r.range(-s.span - 1, s.span + 1); if (hq) a.setQualityThreshold(q, true); else if (r.chance(50)) a.resetQualityThreshold(); else a.setQualityThreshold(q, false);
			bool tf = r.chance(40); a.setTerminationFile(s.tfile, tf); s.touchAt = r.chance(40) ? r.range(1, 12) : -1; s.touchOld = r.chance(30); s.sigAt = r.chance(15) ? r.range(1, 12) : -1; s.customAt = r.chance(40) ? r.range(1, 25) : -1;
			int rep = r.chance(20) ? 0 : r.range(1, 4); a.setReportIteration(rep);
			int off = r.chance(50) ? 0 : r.range(1, 9);
			// something must end the run
			if (a.getMaxIteration() == 0 && s.customAt < 0) s.customAt = r.range(3, 30);
			if (a.getMaxIteration() > 100 && s.customAt < 0) s.customAt = 20;
			ev(J().t("e", "run").i("off", off).i("ms", ms).i("sth", sth).i("mt", mt).i("mn", mn).b("hq", hq).i("q", q).b("tf", tf).i("custom", s.customAt).i("rep", rep).b("mon", mon).i("nrec", nrec));
			g_base = 0; g_off = 0; a.optimize(off);
			ev(J().t("e", "ret").i("it", a.getIteration()).i("start", a.getStartIteration()).i("stall", a.getStallCounter()).b("halted", a.halted()).i("kraw", rank(std::get<0>(a.getBestKnownPrimaryFitness()))).i("ktra", rank(std::get<1>(a.getBestKnownPrimaryFitness()))).raw("glob", bests(a.getBestGlobalIndividuals<GParameterSet>())));
			g_base = 0;
		}
		ev(J().t("e", "end"));
	});
}
