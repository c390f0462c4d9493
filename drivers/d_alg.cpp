// E01, E02, A01, O02: the optimization algorithms with scripted evaluations; populations and lists of best individuals after each iteration.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
using namespace gi;
struct EA : GEvolutionaryAlgorithm { using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; };
struct SA : GSimulatedAnnealing { using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; };
static long ln6(double t) { return t > 0. ? long(std::floor(std::log(t) * 1e6 + 0.5)) : -2000000000L; }
static double g_T = 0;   // temperature the next selection uses
// 1000 times the probability to accept a loss of 1, 2, ...; -1: practically never; 1001: practically always
static std::string probs(double t) { std::string s = "["; for (int d = 1; d <= 80; d++) { double x = d / t; if (d > 1) s += ','; s += std::to_string(x > 21. ? -1 : x < 1e-9 ? 1001 : long(1000 * std::exp(-x) + 0.5)); } return s + "]"; }
struct Mon : GBasePluggableOM {
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		if (m != infoMode::INFOPROCESSING) return;
		std::string s = "["; for (auto& p : *a) { if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + crit(*p) + "]"; }
		auto g = a->getBestGlobalIndividuals<GParameterSet>(), i = a->getBestIterationIndividuals<GParameterSet>();
		std::vector<std::shared_ptr<GParameterSet>> all(a->begin(), a->end()); all.insert(all.end(), g.begin(), g.end()); all.insert(all.end(), i.begin(), i.end());
		J j; j.t("e", "cyc").i("it", a->getIteration()).raw("pop", s + "]").raw("glob", lists(g)).raw("iter", lists(i)).b("vals", same_values(g_vals, all)).i("kb", mo(std::get<1>(a->getBestKnownPrimaryFitness()))).i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness())));
		if (auto* s = dynamic_cast<GSimulatedAnnealing const*>(a)) { j.i("lt", ln6(s->getT())).raw("p", probs(g_T)); g_T = s->getT(); }
		ev(j); } };
static int g_dims = 2;
static std::shared_ptr<Ind> make(Rng& r, size_t ncrit) {
	auto p = std::make_shared<Ind>(ncrit); for (int k = 0; k < g_dims; k++) { auto d = std::make_shared<GConstrainedDoubleObject>(-10., 10.); auto g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); g->setAdaptionProbability(1.); d->setValue(r.range(-5, 5)); d->addAdaptor(g); p->push_back(d); }
	p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); return p; }
template <class A> void drive(A& a, Rng& r, int np, int ds, int nrec, int runs, bool flaky, int longer) {
	std::vector<std::shared_ptr<Ind>> init; int n0 = r.chance(30) ? ds : r.range(1, ds); g_dims = r.chance(20) ? 1 : 2; if (r.chance(10)) n0 = ds + r.range(1, 4);
	for (int k = 0; k < n0; k++) { auto p = make(r, E->ncrit); if (r.chance(15)) { try { E->late = false; p->process(); } catch (std::exception&) { p = make(r, E->ncrit); } } a.push_back(p); }
	a.setReportIteration(1); a.registerPluggableOM(std::make_shared<Mon>()); a.setMaxStallIteration(0); a.setMaxTime(std::chrono::duration<double>(0)); a.setNThreads(1); a.setEmitTerminationReason(false);
	a.setStallCounterThreshold(r.range(0, 3)); a.setNRecordBestIndividuals(nrec);
	int lose = r.range(0, 60), back = r.range(0, 100);
	for (int k = 0; k < runs; k++) {
		a.registerExecutor(execMode::SERIAL, "./exec.json");
		if (flaky) a.registerExecutor(std::make_shared<Flaky>(r.next(), lose, back), "./exec.json");
		int off = r.chance(60) ? 0 : r.range(1, 5), n = longer ? longer : r.range(1, 7); a.setMaxIteration(off + n); a.setMinIteration(0);
		std::vector<std::shared_ptr<GParameterSet>> v(a.begin(), a.end()); std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + (p->is_processed() ? std::to_string(mo(p->transformed_fitness(0))) : std::to_string(5 * TOP)) + "]"; }
		ev(J().t("e", "start").i("off", off).i("n", n).raw("pop", s + "]"));
		try { a.optimize(off); } catch (gemfony_exception& x) { ev(J().t("e", "fail").i("it", a.getIteration()).t("what", std::string(x.what()).substr(0, 400))); return; }
		ev(J().t("e", "ret").i("it", a.getIteration()).raw("glob", lists(a.template getBestGlobalIndividuals<GParameterSet>())).b("vals", same_values(g_vals, a.template getBestGlobalIndividuals<GParameterSet>())));
	}
	ev(J().t("e", "end")); }
int main(int argc, char** argv) {
	enter_dir(); std::string what = argc > 5 ? argv[5] : "ea";
	return run_all(argc, argv, [what](int, uint64_t seed) {
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next());
		g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 3) : r.range(4, 40); e.fail = r.chance(60) ? 0 : r.range(1, 60);
		g_w.fit = [](Ind& p) { g_vals[p.tag] = p.values(); return scripted(p); };
		int np = r.range(1, 4), nrec = r.range(1, 6), runs = r.chance(70) ? 1 : 2, longer = 0; bool flaky = r.chance(50);
		if (what == "ea" || what == "par") {
			int mode = what == "par" ? r.range(3, 4) : r.range(0, 2);
			e.ncrit = what == "par" ? (r.chance(85) ? r.range(2, 3) : 1) : (r.chance(90) ? 1 : 2);
			int ds = mode == 0 || mode == 3 ? np + r.range(1, 7) : 2 * np + r.range(0, 6); if (r.chance(25)) ds += r.range(8, 14);
			bool bad = r.chance(4); if (bad) ds = mode == 0 || mode == 3 ? np : std::max(np, 2 * np - r.range(1, 2));
			int rate = r.chance(70) ? 0 : r.range(1, 3), mx = ds + r.range(0, 8); double am = r.chance(60) ? 0. : r.range(0, 100) / 100.; int rec = r.range(0, 2);
			EA a; a.setSortingScheme(sortingMode(mode)); a.setPopulationSizes(ds, np); a.setPopulationGrowth(rate, mx); a.setAmalgamationLikelihood(am); a.setRecombinationMethod(duplicationScheme(rec));
			cfg(J().t("alg", "ea").i("mode", mode).i("np", np).i("ds", ds).i("rate", rate).i("mx", mx).i("ncrit", e.ncrit).i("nrec", nrec).b("max", g_max).b("flaky", flaky));
			drive(a, r, np, ds, nrec, runs, flaky, longer);
		} else {
			int ds = 2 * np + r.range(0, 6); if (r.chance(25)) ds += r.range(8, 14); if (r.chance(4)) ds = np + r.range(0, np - 1);
			static const double t0s[] = {0.001, 0.1, 1., 5., 100., 1000., 1e6, 1e15}; double t0 = t0s[r.below(8)]; static const double als[] = {0.0001, 0.1, 0.5, 0.95, 1.}; double al = als[r.below(5)];
			int rate = r.chance(80) ? 0 : r.range(1, 3), mx = ds + r.range(0, 8);
			if (r.chance(3)) { longer = 60; rate = 0; ds = 2 * np; e.span = 5; t0 = 4.; al = 1.; runs = 1; }
			g_T = t0; SA a; a.setPopulationSizes(ds, np); a.setPopulationGrowth(rate, mx); a.setT0(t0); a.setTDegradationStrength(al);
			cfg(J().t("alg", "sa").i("np", np).i("ds", ds).i("rate", rate).i("mx", mx).i("ncrit", 1).i("nrec", nrec).b("max", g_max).b("flaky", flaky).i("lt0", ln6(t0)).i("lal", ln6(al)));
			drive(a, r, np, ds, nrec, runs, flaky, longer);
		}
	});
}
