// P01: parameter scans on a grid, with random values of single parameters, and of entirely random individuals.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/GDoubleCollection.hpp"
using namespace gi;
struct Ps : GParameterScan { using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; using G_OptimizationAlgorithm_Base::setDefaultPopulationSize; using GParameterScan::GParameterScan; };
static std::string all(GParameterSet const& p) { std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b; p.streamline<double>(d); p.streamline<std::int32_t>(i); p.streamline<bool>(b);
	std::string s = "["; auto add = [&](long v) { if (s.size() > 1) s += ','; s += std::to_string(v); }; for (double v : d) add(long(std::floor(v * 1e4 + .5))); for (auto v : i) add(v); for (bool v : b) add(v); return s + "]"; }
static std::map<long, std::string> g_all; static bool g_vals_ok = true;
static bool same(std::vector<std::shared_ptr<GParameterSet>> const& v) { for (auto& p : v) { auto it = g_all.find(tag(p)); if (it == g_all.end() || it->second != all(*p)) return false; } return true; }
struct Mon : GBasePluggableOM {
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		if (m != infoMode::INFOPROCESSING) return;
		auto g = a->getBestGlobalIndividuals<GParameterSet>(), i = a->getBestIterationIndividuals<GParameterSet>(); std::vector<std::shared_ptr<GParameterSet>> v(g), pop; v.insert(v.end(), i.begin(), i.end()); for (auto& p : *a) { v.push_back(p); pop.push_back(p); }
		ev(J().t("e", "cyc").i("it", a->getIteration()).raw("pop", lists(pop)).raw("glob", lists(g)).raw("iter", lists(i)).b("vals", same(v)).i("kb", mo(std::get<1>(a->getBestKnownPrimaryFitness()))).i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness())))); } };
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next()); g_max = r.chance(50); e.span = r.range(1, 40); e.fail = r.chance(90) ? 0 : r.range(1, 5);
		g_w.fit = [](Ind& p) { g_all[p.tag] = all(p); double v = E->r.range(-E->span, E->span); bool th = E->r.chance(E->fail);
			ev(J().t("e", "eval").i("id", p.tag).i("f", mo(v)).raw("v", all(p)).b("thrown", th));
			if (th) throw std::runtime_error("evaluation fails"); return std::vector<double>{v}; };
		// parameters: (constrained) numbers with the range [-8,8) or [-6,6], a collection of numbers, boolean values
		struct Par { char type; std::string name; int pos, at; long lo, hi; bool inactive; }; std::vector<Par> ps; auto p = std::make_shared<Ind>(1); int np = r.range(1, 5), nd = 0, ni = 0, nb = 0;
		auto gd = [] { return std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); };
		auto put = [&](auto o, std::string n, bool off) { o->setParameterName(n); if (off) o->setAdaptionsInactive(); p->push_back(o); };
		for (int k = 0; k < np; k++) { std::string n = "p" + std::to_string(k); bool off = r.chance(15);
			switch (r.below(6)) {
			case 0: { auto o = std::make_shared<GDoubleObject>(r.range(-8, 7), -8., 8.); o->addAdaptor(gd()); put(o, n, off); ps.push_back({'d', n, nd++, 0, -80000, 80000, off}); break; }
			case 1: { auto o = std::make_shared<GConstrainedDoubleObject>(-8., 8.); o->setValue(r.range(-8, 7)); o->addAdaptor(gd()); put(o, n, off); ps.push_back({'d', n, nd++, 0, -80000, 80000, off}); break; }
			case 2: { auto o = std::make_shared<GDoubleCollection>(); o->setInitBoundaries(-8., 8.); int m = r.range(1, 3); for (int q = 0; q < m; q++) o->push_back(r.range(-8, 7)); o->addAdaptor(gd()); put(o, n, off); for (int q = 0; q < m; q++) ps.push_back({'d', n, nd++, q, -80000, 80000, off}); break; }
			case 3: { auto o = std::make_shared<GInt32Object>(r.range(-6, 6), -6, 6); o->addAdaptor(std::make_shared<GInt32FlipAdaptor>(.05)); put(o, n, off); ps.push_back({'i', n, ni++, 0, -6, 6, off}); break; }
			case 4: { auto o = std::make_shared<GConstrainedInt32Object>(-6, 6); o->setValue(r.range(-6, 6)); o->addAdaptor(std::make_shared<GInt32FlipAdaptor>(.05)); put(o, n, off); ps.push_back({'i', n, ni++, 0, -6, 6, off}); break; }
			default: { auto o = std::make_shared<GBooleanObject>(r.chance(50)); o->addAdaptor(std::make_shared<GBooleanAdaptor>(.5)); put(o, n, off); ps.push_back({'b', n, nb++, 0, 0, 1, off}); } } }
		p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing();
		// what is scanned
		int kind = r.chance(60) ? 0 : r.chance(50) ? 1 : 2, mode = r.below(3), total = 1, batch = r.range(1, 9), simple = r.range(1, 30); std::string spec, sc = "[";   // 0: grid, 1: random values, 2: random individuals
		std::vector<int> pick; for (size_t k = 0; k < ps.size(); k++) if (mode != 2 || ps[k].at == 0) pick.push_back(k);
		for (size_t k = pick.size(); k > 1; k--) std::swap(pick[k - 1], pick[r.below(k)]);
		if (kind == 2) { spec = "s(" + std::to_string(simple) + ")"; total = simple; for (size_t k = 0; k < ps.size(); k++) if (!ps[k].inactive) { auto& q = ps[k]; int col = q.type == 'd' ? q.pos : q.type == 'i' ? nd + q.pos : nd + ni + q.pos; sc += (sc.size() > 1 ? "," : "") + J().i("col", col + 1).i("lo", q.lo).i("hi", q.hi).i("n", 0).s + "}"; } }
		else for (size_t k = 0; k < pick.size() && k < 4; k++) { if (k && r.chance(40)) break;
			auto& q = ps[pick[k]]; int col = q.type == 'd' ? q.pos : q.type == 'i' ? nd + q.pos : nd + ni + q.pos, n = q.type == 'd' ? r.range(2, 6) : r.range(1, 5); double lo, hi; char b[200], v[40];
			if (mode == 0) snprintf(v, 40, "%d", q.pos); else if (mode == 1) snprintf(v, 40, "%s[%d]", q.name.c_str(), q.at); else snprintf(v, 40, "%s", q.name.c_str());
			if (q.type == 'd') { lo = r.range(-16, 15) / 2.; hi = lo + r.range(1, 2 * (8 - lo)) / 2.; snprintf(b, 200, "d(%s, %.1f, %.1f, %d)", v, lo, hi, n); lo *= 1e4; hi *= 1e4; }
			else if (q.type == 'i') { lo = r.range(-6, 5); hi = std::min(6., lo + r.range(0, 4)); bool dflt = kind == 0 && r.chance(50); if (dflt) snprintf(b, 200, "i(%s, %d, %d)", v, int(lo), int(hi)); else snprintf(b, 200, "i(%s, %d, %d, %d)", v, int(lo), int(hi), n); if (kind == 0) n = int(hi - lo) + 1; }
			else { lo = 0; hi = 1; bool dflt = kind == 0 && r.chance(50); if (dflt) snprintf(b, 200, "b(%s)", v); else snprintf(b, 200, "b(%s, false, true, %d)", v, n); if (kind == 0) n = 2; }
			if (total * n > 300) break;
			total *= n; spec += (spec.empty() ? "" : ", ") + std::string(b); sc += (sc.size() > 1 ? "," : "") + J().i("col", col + 1).i("lo", lo).i("hi", hi).i("n", n).b("d", q.type == 'd').s + "}"; }
		int nrec = r.range(1, 5), runs = r.chance(70) ? 1 : 2;
		cfg(J().i("kind", kind).raw("scan", sc + "]").i("total", total).i("batch", batch).t("spec", spec).raw("start", all(*p)).i("nrec", nrec).i("mode", mode));
		auto a = std::make_shared<Ps>(); bool late = r.chance(50);
		if (late) { a->setScanRandomly(r.chance(50)); a->setParameterSpecs(spec); a->setScanRandomly(kind != 0); } else { a->setScanRandomly(kind != 0); if (kind == 2 && r.chance(50)) a->setNSimpleScans(simple); else a->setParameterSpecs(spec); }
		a->setDefaultPopulationSize(batch); int n0 = r.range(1, 3); for (int k = 0; k < n0; k++) a->push_back(p->clone<Ind>());
		a->setReportIteration(1); a->setMaxIteration(0); a->setMinIteration(0); a->setMaxStallIteration(0); a->setMaxTime(std::chrono::duration<double>(0)); a->setEmitTerminationReason(false); a->setNRecordBestIndividuals(nrec);
		if (r.chance(30)) { auto c = std::make_shared<Ps>(*a); if (r.chance(50)) a = c; else { auto d = std::make_shared<Ps>(); d->GObject::load(c); a = d; } }
		a->registerPluggableOM(std::make_shared<Mon>());
		for (int k = 0; k < runs; k++) {
			a->registerExecutor(execMode::SERIAL, "./exec.json"); int off = r.chance(60) ? 0 : r.range(1, 5);
			int stop = k + 1 == runs && r.chance(15) ? r.range(1, 3) : 0; a->setMaxIteration(stop ? off + stop : 0);
			ev(J().t("e", "start").i("off", off).i("stop", stop));
			try { a->optimize(off); } catch (gemfony_exception& x) { ev(J().t("e", "fail").i("it", a->getIteration()).t("what", std::string(x.what()).substr(0, 400))); return; }
			ev(J().t("e", "ret").i("it", a->getIteration()).raw("glob", lists(a->getBestGlobalIndividuals<GParameterSet>())).b("vals", same(a->getBestGlobalIndividuals<GParameterSet>())));
			if (k + 1 < runs && r.chance(40)) { a->resetToOptimizationStart(); a->push_back(p->clone<Ind>()); ev(J().t("e", "reset")); }
		}
		ev(J().t("e", "end"));
	});
}
