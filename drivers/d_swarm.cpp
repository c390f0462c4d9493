// Q01: the swarm algorithm with scripted evaluations; positions, personal, neighbourhood and global bests after each iteration.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
using namespace gi;
struct Sw : GSwarmAlgorithm {
	using G_OptimizationAlgorithm_Base::setNRecordBestIndividuals; using GSwarmAlgorithm::GSwarmAlgorithm;
	std::shared_ptr<GParameterSet> const& nb(size_t n) const { return m_neighborhood_bests_cnt.at(n); } std::shared_ptr<GParameterSet> const& gb() const { return m_global_best_ptr; }
	std::vector<std::size_t> const& members() const { return m_n_neighborhood_members_cnt; } };
static std::shared_ptr<GSwarmAlgorithm_PersonalityTraits> traits(GParameterSet const& q) { auto& p = const_cast<GParameterSet&>(q); return std::dynamic_pointer_cast<GSwarmAlgorithm_PersonalityTraits>(p.getPersonalityTraits()); }
static std::string pair(std::shared_ptr<GParameterSet> const& p) { return p ? "[" + std::to_string(tag(p)) + "," + std::to_string(p->is_processed() ? mo(p->transformed_fitness(0)) : 5 * TOP) + "]" : "[-2,0]"; }
static std::string scaled(Ind const& p) { std::string s = "["; for (double v : p.values()) { if (s.size() > 1) s += ','; s += std::to_string(long(std::floor(v * 1e4 + 0.5))); } return s + "]"; }
struct Mon : GBasePluggableOM {
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		if (m != infoMode::INFOPROCESSING) return;
		auto* w = dynamic_cast<Sw const*>(a); std::string s = "[", nbs = "[";
		for (auto& p : *a) { if (s.size() > 1) s += ','; bool due = !p->is_processed(); auto t = traits(*p); std::shared_ptr<GParameterSet> pb; try { pb = t->getPersonalBest(); } catch (gemfony_exception&) {}
			s += J().i("id", tag(p)).i("f", due ? 5 * TOP : mo(p->transformed_fitness(0))).b("due", due).i("nb", t->getNeighborhood()).raw("pb", pair(pb)).s.substr(0) + "}"; }
		for (size_t n = 0; n < w->getNNeighborhoods(); n++) { if (n) nbs += ','; nbs += pair(w->nb(n)); }
		auto g = a->getBestGlobalIndividuals<GParameterSet>(), i = a->getBestIterationIndividuals<GParameterSet>();
		std::vector<std::shared_ptr<GParameterSet>> all(g); all.insert(all.end(), i.begin(), i.end()); for (auto& p : *a) if (p->is_processed()) all.push_back(p);
		for (size_t n = 0; n < w->getNNeighborhoods(); n++) if (w->nb(n)) all.push_back(w->nb(n)); if (w->gb()) all.push_back(w->gb());
		ev(J().t("e", "cyc").i("it", a->getIteration()).raw("pop", s + "]").raw("nbs", nbs + "]").raw("gb", pair(w->gb())).raw("glob", lists(g)).raw("iter", lists(i)).b("vals", same_values(g_vals, all)).i("kb", mo(std::get<1>(a->getBestKnownPrimaryFitness()))).i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness())))); } };
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next());
		g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 3) : r.range(4, 40); e.fail = r.chance(70) ? 0 : r.range(1, 50);
		int dims = r.range(1, 2); bool idle = r.chance(25), flaky = r.chance(50);
		g_w.fit = [](Ind& p) { g_vals[p.tag] = p.values(); double v = E->r.range(-E->span, E->span); bool th = E->r.chance(E->fail); auto t = traits(p); std::shared_ptr<GParameterSet> pb; if (t) try { pb = t->getPersonalBest(); } catch (gemfony_exception&) {}
			ev(J().t("e", "eval").i("id", p.tag).i("old", p.old).i("nb", t ? long(t->getNeighborhood()) : -1).i("f", mo(v)).raw("v", scaled(p)).raw("pb", pair(pb)).b("thrown", th).b("late", E->late));
			if (th) throw std::runtime_error("evaluation fails"); return std::vector<double>{v}; };
		int nn = r.range(1, 4), mem = r.range(2, 4), nrec = r.range(1, 5), runs = r.chance(75) ? 1 : 2; bool many = r.chance(4); if (many) { runs = 15; nn = std::min(nn, 2); mem = std::min(mem, 3); }
		static const double cs[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {.25, .25, .25, 0}, {.5, 0, .5, 0}, {.25, .25, .25, .5}, {1, 1, 1, 1}};
		auto& c = cs[r.below(7)]; static const double vps[] = {0.01, 0.15, 0.5}; double vp = vps[r.below(3)]; int rep = r.chance(60) ? 0 : r.range(1, 3); bool classic = r.chance(50), fill = r.chance(70);
		Sw a = r.chance(50) ? Sw(nn, mem) : Sw(); if (a.getNNeighborhoods() != size_t(nn) || a.getDefaultNNeighborhoodMembers() != size_t(mem)) a.setSwarmSizes(nn, mem);
		a.setCPersonal(c[0]); a.setCNeighborhood(c[1]); a.setCGlobal(c[2]); a.setCVelocity(c[3]); a.setVelocityRangePercentage(vp); a.setRepulsionThreshold(rep); a.setUpdateRule(classic ? updateRule::SWARM_UPDATERULE_CLASSIC : updateRule::SWARM_UPDATERULE_LINEAR); a.setNeighborhoodsRandomFillUp(fill);
		cfg(J().i("nn", nn).i("mem", mem).i("nrec", nrec).b("max", g_max).b("flaky", flaky).i("cp", long(1000 * c[0])).i("cn", long(1000 * c[1])).i("cg", long(1000 * c[2])).i("cv", long(1000 * c[3])).i("vm", long(vp * 200000 + 0.5)).i("rep", rep).i("dims", dims).b("idle", idle).b("classic", classic).b("fill", fill));
		auto make = [&] { auto p = std::make_shared<Ind>(1); for (int k = 0; k < dims + idle; k++) { auto d = std::make_shared<GConstrainedDoubleObject>(-10., 10.); auto g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); d->setValue(r.range(-9, 9)); d->addAdaptor(g); if (k == dims) d->setAdaptionsInactive(); p->push_back(d); }
			p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); return p; };
		static const int how[] = {0, 1, 2, 3, 3, 3, 4}; int n0 = 1; switch (how[r.below(7)]) { case 0: n0 = 1; break; case 1: n0 = nn; break; case 2: n0 = r.range(1, nn * mem); break; case 3: n0 = nn * mem; break; case 4: n0 = nn * mem + r.range(1, 3); }
		for (int k = 0; k < n0; k++) { auto p = make(); if (r.chance(15)) { try { p->process(); } catch (std::exception&) { p = make(); } } a.push_back(p); }
		a.setReportIteration(1); a.registerPluggableOM(std::make_shared<Mon>()); a.setMaxStallIteration(0); a.setMaxTime(std::chrono::duration<double>(0)); a.setEmitTerminationReason(false); a.setNRecordBestIndividuals(nrec);
		int lose = r.range(0, 50), back = r.range(0, 100);
		for (int k = 0; k < runs; k++) {
			a.registerExecutor(execMode::SERIAL, "./exec.json"); if (flaky) a.registerExecutor(std::make_shared<Flaky>(r.next(), lose, back), "./exec.json");
			int off = r.chance(60) ? 0 : r.range(1, 5), n = many ? 3 : r.range(1, 7); a.setMaxIteration(off + n); a.setMinIteration(0);
			bool fresh = many && k; if (fresh) { a.clear(); for (int j = 0; j < nn * mem; j++) a.push_back(make()); }
			std::vector<std::shared_ptr<GParameterSet>> v(a.begin(), a.end()); std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + scaled(*ind(p)) + "," + std::to_string(p->is_processed() ? mo(p->transformed_fitness(0)) : 5 * TOP) + "]"; }
			ev(J().t("e", "start").i("off", off).i("n", n).b("fresh", fresh).raw("pop", s + "]"));
			try { a.optimize(off); } catch (gemfony_exception& x) { ev(J().t("e", "fail").i("it", a.getIteration()).t("what", std::string(x.what()).substr(0, 400))); return; }
			ev(J().t("e", "ret").i("it", a.getIteration()).raw("glob", lists(a.template getBestGlobalIndividuals<GParameterSet>())).b("vals", same_values(g_vals, a.template getBestGlobalIndividuals<GParameterSet>())));
		}
		ev(J().t("e", "end"));
	});
}
