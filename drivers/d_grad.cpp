// D01: gradient descent with scripted evaluations; starting points, probes and steps.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
using namespace gi;
struct Gd : GGradientDescent { using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; using GGradientDescent::GGradientDescent; };
static std::string scaled(Ind const& p) { std::string s = "["; for (double v : p.values()) { if (s.size() > 1) s += ','; s += std::to_string(long(std::floor(v * 1e4 + 0.5))); } return s + "]"; }
static std::string point(std::shared_ptr<GParameterSet> const& p) { return J().i("id", tag(p)).i("f", p->is_processed() ? mo(p->transformed_fitness(0)) : 5 * TOP).raw("v", scaled(*ind(p))).i("n", std::dynamic_pointer_cast<GInt32Object>(ind(p)->at(ind(p)->size() - 1))->value()).s + "}"; }
struct Mon : GBasePluggableOM {
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		if (m != infoMode::INFOPROCESSING) return;
		std::string s = "["; for (auto& p : *a) { if (s.size() > 1) s += ','; s += point(p); }
		auto g = a->getBestGlobalIndividuals<GParameterSet>(), i = a->getBestIterationIndividuals<GParameterSet>();
		std::vector<std::shared_ptr<GParameterSet>> all(g); all.insert(all.end(), i.begin(), i.end()); for (auto& p : *a) if (p->is_processed()) all.push_back(p);
		ev(J().t("e", "cyc").i("it", a->getIteration()).raw("pop", s + "]").raw("glob", lists(g)).raw("iter", lists(i)).b("vals", same_values(g_vals, all)).i("kb", mo(std::get<1>(a->getBestKnownPrimaryFitness()))).i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness())))); } };
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next());
		g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 4) : r.range(5, 60); e.fail = r.chance(85) ? 0 : r.range(1, 20);
		int dims = r.range(1, 3); bool idle = r.chance(25), flaky = r.chance(15), free = r.chance(20);
		g_w.fit = [](Ind& p) { g_vals[p.tag] = p.values(); double v = E->r.range(-E->span, E->span); bool th = E->r.chance(E->fail);
			ev(J().t("e", "eval").i("id", p.tag).i("old", p.old).i("f", mo(v)).raw("v", scaled(p)).b("thrown", th));
			if (th) throw std::runtime_error("evaluation fails"); return std::vector<double>{v}; };
		int ns = r.range(1, 4), nrec = r.range(1, 5), runs = r.chance(75) ? 1 : 2;
		// per mill of the range [-8,8): steps of 1/8, 1 and 4; the step of the starting points is a multiple of the difference
		static const double fs[] = {7.8125, 62.5, 250.}, rt[] = {.125, .5, 2.}; double f = fs[r.below(3)], q = rt[r.below(3)], st = f * q;
		if (st > 1000) { q = 1; st = f; }
		cfg(J().i("ns", ns).i("nrec", nrec).b("max", g_max).b("flaky", flaky).i("fs", long(f * 16 * 10 + 0.5)).i("q", long(q * 1000)).i("dims", dims).b("idle", idle).b("free", free));
		Gd a = r.chance(50) ? Gd(ns, f, st) : Gd(); if (a.getNStartingPoints() != size_t(ns) || a.getFiniteStep() != f) { a.setNStartingPoints(ns); a.setFiniteStep(f); a.setStepSize(st); }
		if (r.chance(20)) { static const double bad[] = {0., -1., 1000.5, -1e-9}; int k = r.below(2); double b = bad[r.below(4)]; bool threw = false;
			try { if (k) a.setFiniteStep(b); else a.setStepSize(b); } catch (gemfony_exception&) { threw = true; }
			ev(J().t("e", "bad").b("threw", threw).b("same", a.getFiniteStep() == f && a.getStepSize() == st)); try { a.setFiniteStep(f); a.setStepSize(st); } catch (gemfony_exception&) { ev(J().t("e", "stuck")); } }
		auto grid = [&] { switch (r.below(4)) { case 0: return double(r.range(-8, 7)); case 1: return r.range(-32, 31) / 4.; case 2: return 7.9375; default: return r.range(-80, 79) / 10.; } };
		auto make = [&] { auto p = std::make_shared<Ind>(1);
			for (int k = 0; k < dims + idle; k++) { auto g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.);
				if (free) { auto d = std::make_shared<GDoubleObject>(grid(), -8., 8.); d->addAdaptor(g); if (k == dims) d->setAdaptionsInactive(); p->push_back(d); }
				else { auto d = std::make_shared<GConstrainedDoubleObject>(-8., 8.); d->setValue(grid()); d->addAdaptor(g); if (k == dims) d->setAdaptionsInactive(); p->push_back(d); } }
			auto n = std::make_shared<GInt32Object>(r.range(-5, 5)); n->addAdaptor(std::make_shared<GInt32FlipAdaptor>(.05)); if (r.chance(0)) n->setAdaptionsInactive(); p->push_back(n);
			p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); return p; };
		int n0 = r.range(1, ns + 2);
		for (int k = 0; k < n0; k++) { auto p = make(); if (r.chance(15)) { try { p->process(); } catch (std::exception&) { p = make(); } } a.push_back(p); }
		a.setReportIteration(1); a.registerPluggableOM(std::make_shared<Mon>()); a.setMaxStallIteration(0); a.setMaxTime(std::chrono::duration<double>(0)); a.setEmitTerminationReason(false); a.setNRecordBestIndividuals(nrec);
		int lose = r.range(0, 8);
		for (int k = 0; k < runs; k++) {
			a.registerExecutor(execMode::SERIAL, "./exec.json"); if (flaky) a.registerExecutor(std::make_shared<Flaky>(r.next(), lose, 0), "./exec.json");
			int off = r.chance(60) ? 0 : r.range(1, 5), n = r.range(1, 7); a.setMaxIteration(off + n); a.setMinIteration(0);
			std::string s = "["; for (auto& p : a) { if (s.size() > 1) s += ','; s += point(p); }
			ev(J().t("e", "start").i("off", off).i("n", n).raw("pop", s + "]"));
			try { a.optimize(off); } catch (gemfony_exception& x) { ev(J().t("e", "fail").i("it", a.getIteration()).t("what", std::string(x.what()).substr(0, 400))); return; }
			ev(J().t("e", "ret").i("it", a.getIteration()).raw("glob", lists(a.template getBestGlobalIndividuals<GParameterSet>())).b("vals", same_values(g_vals, a.template getBestGlobalIndividuals<GParameterSet>())));
		}
		ev(J().t("e", "end"));
	});
}
