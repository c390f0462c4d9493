// Parts shared by the drivers of the optimization algorithms: an executor that may lose or delay items, the log of populations.
#pragma once
#include "gind.hpp"
#include "courtier/GExecutorT.hpp"
#include "geneva/G_OptimizationAlgorithm_ParChildT_PersonalityTraits.hpp"
namespace gi {
inline bool g_max = false;       // direction of the run
inline long mo(double v) { long r = rank(v); return g_max ? -r : r; }   // lower is better
inline std::string crit(GParameterSet const& p) { std::string s = "["; for (size_t k = 0; k < p.getNStoredResults(); k++) { if (k) s += ','; s += std::to_string(mo(p.transformed_fitness(k))); } return s + "]"; }
// evaluation: scripted fitness, logged; "late" is set while delayed items are processed
struct Eval { Rng r{1}; int span = 3, fail = 0; size_t ncrit = 1; bool late = false; };
inline Eval* E = nullptr;
inline std::vector<double> scripted(Ind& p) {
	std::vector<double> v; for (size_t k = 0; k < E->ncrit; k++) v.push_back(E->r.range(-E->span, E->span));
	bool th = E->r.chance(E->fail);
	std::string s = "["; for (size_t k = 0; k < v.size(); k++) { if (k) s += ','; s += std::to_string(mo(v[k])); }
	auto t = p.getPersonalityTraits(); bool par = false; if (auto q = std::dynamic_pointer_cast<GBaseParChildPersonalityTraits>(t)) par = q->isParent();
	ev(J().t("e", "eval").i("id", p.tag).b("par", par).i("old", p.old).raw("f", s + "]").b("thrown", th).b("late", E->late));
	if (th) throw std::runtime_error("evaluation fails");
	return v; }
// an executor which processes each item now, later, or never
struct Flaky : Gem::Courtier::GSerialExecutorT<GParameterSet> {
	using Base = Gem::Courtier::GSerialExecutorT<GParameterSet>; using P = std::shared_ptr<GParameterSet>;
	Rng r; int lose, back; std::vector<P> held;
	Flaky(uint64_t s, int l, int b) : r(s), lose(l), back(b) {}
	Flaky(Flaky const& c) = default;
	void submit(P p) override { if (r.chance(lose)) { if (r.chance(80)) held.push_back(p->clone<GParameterSet>()); } else Base::submit(p); }
	Gem::Courtier::executor_status_t waitForReturn(std::vector<P>& w, std::vector<P>& old) override {
		std::vector<P> keep;
		for (auto& p : held) { if (p->getAssignedIteration() == w.front()->getAssignedIteration() || !r.chance(back)) { keep.push_back(p); continue; } E->late = true; Base::submit(p); E->late = false; old.push_back(p); }
		held = keep; return Base::waitForReturn(w, old); }
	Gem::Courtier::GBaseExecutorT<GParameterSet>* clone_() const override { return new Flaky(*this); } };
inline std::string lists(std::vector<std::shared_ptr<GParameterSet>> const& v) { std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += "[" + std::to_string(tag(p)) + "," + std::to_string(mo(p->transformed_fitness(0))) + "]"; } return s + "]"; }
inline bool same_values(std::map<long, std::vector<double>> const& m, std::vector<std::shared_ptr<GParameterSet>> const& v) { for (auto& p : v) { auto it = m.find(tag(p)); if (it == m.end() || it->second != ind(p)->values()) return false; } return true; }
inline std::map<long, std::vector<double>> g_vals;   // parameter values at each evaluation
}
