// V03: individuals: histories of changes, evaluations, copies and recombinations under all policies and constraints.
#include "gind.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
using namespace gi; using namespace Gem::Common;
static const long U = 256, TOPL = 2000000000;   // validity levels are counted in 1/U
static long lev(double v) { return v >= 1e15 ? TOPL : std::lround(v * U); }
static std::vector<double> dbl(GParameterSet const& p) { std::vector<double> v; p.streamline<double>(v); return v; }
static std::vector<std::int32_t> ints(GParameterSet const& p) { std::vector<std::int32_t> v; p.streamline<std::int32_t>(v); return v; }
static std::vector<bool> bools(GParameterSet const& p) { std::vector<bool> v; p.streamline<bool>(v); return v; }
// (a * int[k] + b) / 4; k < 0: can't be determined
class Lvl : public GParameterSetConstraint {
	friend class boost::serialization::access; template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint) & BOOST_SERIALIZATION_NVP(a) & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(k); }
public: int a = 0, b = 0, k = 0; Lvl() = default; Lvl(int a_, int b_, int k_) : a(a_), b(b_), k(k_) {} Lvl(Lvl const&) = default;
	double check_(const GParameterSet* p) const override { if (k < 0) return boost::numeric::bounds<double>::highest(); auto v = ints(*p); return size_t(k) < v.size() ? (a * v[k] + b) / 4. : 0.; }
	void load_(const GObject* p) override { auto* x = dynamic_cast<Lvl const*>(p); GParameterSetConstraint::load_(p); a = x->a; b = x->b; k = x->k; }
	void compare_(const GObject& o, const expectation& e, const double& l) const override { auto* x = dynamic_cast<Lvl const*>(&o); GToken t("Lvl", e); compare_base_t<GParameterSetConstraint>(*this, *x, t); compare_t(IDENTITY(a, x->a), t); compare_t(IDENTITY(b, x->b), t); compare_t(IDENTITY(k, x->k), t); t.evaluate(); }
	GObject* clone_() const override { return new Lvl(*this); } };
BOOST_CLASS_EXPORT(Lvl)
struct Seen { std::vector<std::int32_t> i; std::vector<bool> b; std::vector<double> d; };
static std::vector<Seen> g_seen; static std::vector<double> g_res; static int g_how; static std::string g_rounds;
class Par : public GParameterSet {
	friend class boost::serialization::access; template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet); }
public: using GParameterSet::sumCombiner; Par() = default; explicit Par(size_t n) : GParameterSet(n) {} Par(Par const&) = default;
	double fitnessCalculation() override { g_seen.push_back({ints(*this), bools(*this), dbl(*this)}); if (g_how == 1) throw std::runtime_error("no result"); if (g_how == 2) throw 5; if (g_how == 3) this->force_set_error("no result"); for (size_t k = 1; k < g_res.size(); k++) setResult(k, g_res[k]); if (g_how == 4) setResult(0, 777.); return g_res[0]; }
	size_t customAdaptions() override { size_t n = GParameterSet::customAdaptions(); double v; bool ok = parameterSetFulfillsConstraints(v); g_rounds += (g_rounds.empty() ? "[" : ",[") + std::to_string(n) + (ok ? ",1]" : ",0]"); return n; }
	GObject* clone_() const override { return new Par(*this); } };
BOOST_CLASS_EXPORT(Par)
using P = std::shared_ptr<Par>;
static std::map<double, long> g_ids; static long id(double v) { auto it = g_ids.find(v); if (it != g_ids.end()) return it->second; long n = long(g_ids.size()) + 1; return g_ids[v] = n; }
template <class V, class F> std::string lst(V const& v, F f) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(f(x)); } return s + "]"; }
static std::string pars(std::vector<std::int32_t> const& i, std::vector<bool> const& b, std::vector<double> const& d) { return J().raw("i", lst(i, [](long x) { return x; })).raw("b", lst(b, [](bool x) { return long(x); })).raw("d", lst(d, [](double x) { return id(x); })).raw("f", lst(d, [](double x) { return std::lround(std::floor(x)); })).str(); }
static std::string pars(GParameterSet const& p) { return pars(ints(p), bools(p), dbl(p)); }
static std::string state(P p) {
	J j; j.raw("p", pars(*p)); int st = p->is_due_for_processing() ? 0 : p->is_processed() ? 1 : 2; j.i("s", st).i("na", p->getNAdaptions());
	double B = p->getBarrier(); std::vector<double> r, t;
	if (st == 1) { r = p->raw_fitness_vec(); t = p->transformed_fitness_vec(); bool same = p->hasMultipleFitnessCriteria() == (r.size() > 1); double sum = 0; for (size_t k = 0; k < r.size(); k++) { same = same && p->raw_fitness(k) == r[k] && p->transformed_fitness(k) == t[k] && p->getFitnessTuple(k) == std::make_tuple(r[k], t[k]); sum += t[k]; } same = same && p->sumCombiner() == sum; j.b("same", same).b("v", p->isValid()).b("iv", p->isInValid()).b("c", p->constraintsFulfilled()).i("l", lev(p->getValidityLevel())); }
	j.raw("r", lst(r, [](double x) { return gi::rank(x); }));
	j.raw("t", lst(t, [](double x) { return std::fabs(x) > 1e6 ? (x < 0 ? -TOP : TOP) : std::lround(x * 1000); })).raw("m", lst(t, [B](double x) { return std::fabs(x) > 1e15 ? (x < 0 ? -TOPL : TOPL) : std::lround(x * U / B); }));
	return j.str(); }
static void err(J& j, std::exception const& e) { j.b("thrown", true).t("exc", std::string(e.what()).substr(0, 60)); }
using C = std::shared_ptr<GPreEvaluationValidityCheckT<GParameterSet>>;
static C constraint(Rng& r, int ni, int nd, int depth, std::string& d) {
	bool neg = r.chance(40); C c; int k = r.below(depth ? 5 : 3);
	if (k < 2 || (k == 2 && nd == 0)) { int i = r.chance(8) ? -1 : r.below(ni); int a = r.range(-3, 3), b = r.range(-3, 7); c = std::make_shared<Lvl>(a, b, i); d = J().i("k", i < 0 ? 0 : 1).i("n", i + 1).i("a", a).i("b", b).b("neg", neg).str(); }
	else if (k == 2) { int i = r.below(nd), a = r.range(1, 3), b = r.range(-3, 7); auto n = [](int x) { return x < 0 ? "(0-" + std::to_string(-x) + ")" : std::to_string(x); }; c = std::make_shared<GParameterSetFormulaConstraint>("(" + n(a) + "*floor({{d" + std::to_string(i) + "}})+" + n(b) + ")/4"); d = J().i("k", 2).i("n", i + 1).i("a", a).i("b", b).b("neg", neg).str(); }
	else { std::vector<C> cs; std::string l = "["; bool mul = r.chance(50); int n = r.range(0, 2); for (int x = 0; x < n; x++) { std::string s; cs.push_back(constraint(r, ni, nd, depth - 1, s)); l += (x ? "," : "") + s; }
		std::shared_ptr<GCheckCombinerT<GParameterSet>> q; if (r.chance(50)) q = std::make_shared<GCheckCombinerT<GParameterSet>>(cs); else { q = std::make_shared<GCheckCombinerT<GParameterSet>>(); for (auto& x : cs) q->addCheck(x); }
		if (!mul || r.chance(50)) q->setCombinerPolicy(mul ? validityCheckCombinerPolicy::MULTIPLYINVALID : validityCheckCombinerPolicy::ADDINVALID); c = q; d = J().i("k", mul ? 3 : 4).raw("cs", l + "]").b("neg", neg).str(); }
	c->setAllowNegative(neg); return c; }
static void fill(P p, Rng& r, int ni, int nb, int nd, bool nest) {
	std::shared_ptr<GParameterObjectCollection> box; if (nest) { box = std::make_shared<GParameterObjectCollection>(); } bool dbox = nest && r.chance(60); auto put = [&](std::shared_ptr<GParameterBase> q, bool d = false) { if (d ? dbox : nest && r.chance(60)) box->push_back(q); else p->push_back(q); };
	auto prob = [&]() { return r.chance(30) ? 0.05 : r.chance(30) ? 1. : 0.3; };
	auto tune = [&](auto a) { a->setAdaptAdProb(0.); if (r.chance(10)) a->setAdaptionMode(adaptionMode::NEVER); if (r.chance(5)) a->setAdaptionMode(adaptionMode::ALWAYS); return a; };
	for (int k = 0; k < ni; k++) { auto q = std::make_shared<GInt32Object>(r.range(-4, 4), -4, 4); q->addAdaptor(tune(std::make_shared<GInt32FlipAdaptor>(prob()))); put(q); }
	for (int k = 0; k < nb; k++) { auto q = std::make_shared<GBooleanObject>(r.chance(50)); q->addAdaptor(tune(std::make_shared<GBooleanAdaptor>(prob()))); put(q); }
	for (int k = 0; k < nd; k++) { auto q = std::make_shared<GDoubleObject>(r.range(-8, 8) / 2., -4., 4.); q->setParameterName("d" + std::to_string(k)); q->addAdaptor(tune(std::make_shared<GDoubleGaussAdaptor>(0.5, 0.1, 0., 1.))); q->getAdaptor()->setAdaptionProbability(prob()); put(q, true); }
	if (nest) p->push_back(box); }
static void scenario(Rng& r) {
	int ni = r.range(1, 3), nb = r.range(0, 3), nd = r.range(0, 2), nc = r.chance(60) ? 1 : 2; bool nest = r.chance(30); std::vector<P> x;
	bool mx = r.chance(50), tiny = r.chance(25); double B = double(1 << r.below(4)), S = 1 << r.below(5); size_t mu = tiny ? r.range(1, 3) : r.chance(50) ? 1000 : 30, mr = r.chance(50) ? 0 : r.range(1, 4);
	int policy = r.below(3); Rng shape(r.next()); for (int k = 0; k < 3; k++) { auto p = std::make_shared<Par>(nc); Rng s = shape; fill(p, s, ni, nb, nd, nest); p->setMaxMode(mx ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->setBarrier(B); p->setSteepness(S); p->setMaxUnsuccessfulAdaptions(mu); p->setMaxRetriesUntilValid(mr); p->setEvaluationPolicy(evaluationPolicy(policy)); x.push_back(p); }
	for (auto& p : x) p->randomInit(activityMode::ALLPARAMETERS);
	std::string st; auto all = [&]() { st = "["; for (size_t k = 0; k < x.size(); k++) st += (k ? "," : "") + state(x[k]); return st + "]"; };
	cfg(J().b("max", mx).i("B", long(B * 1000)).i("S", long(S)).i("mu", long(mu)).i("mr", long(mr)).i("nc", nc).i("pol", policy)); ev(J().t("e", "make").raw("x", all()));
	int steps = r.range(8, 45); auto ALL = activityMode::ALLPARAMETERS;
	for (int s = 0; s < steps; s++) {
		int a = r.below(3), b = r.below(3); J j; P p = x[a], q = x[b]; int op = r.chance(45) ? 0 : r.range(1, 19);
		j.t("e", "?").i("a", a + 1).i("b", b + 1);
		try { switch (op) {
			case 0: { j.t("e", "process"); g_seen.clear(); g_res.clear(); for (int k = 0; k < nc; k++) g_res.push_back(r.range(-30, 30)); g_how = r.chance(80) ? 0 : r.range(1, 4); j.i("how", g_how).raw("res", lst(g_res, [](double v) { return std::lround(v); })); std::string e; bool thrown = false; try { p->process(); } catch (std::exception& y) { thrown = true; j.t("exc", std::string(y.what()).substr(0, 60)); }
				j.b("thrown", thrown); std::string l = "["; for (auto& y : g_seen) l += (l.size() > 1 ? "," : "") + pars(y.i, y.b, y.d); j.raw("seen", l + "]"); } break;
			case 1: case 2: case 3: { j.t("e", "adapt"); g_rounds.clear(); size_t n = p->adapt(); j.i("n", long(n)).raw("rounds", "[" + g_rounds + "]"); } break;
			case 4: case 5: { if (a == b) continue; j.t("e", "cross"); int c = r.below(3); j.i("c", c + 1); auto n = p->crossOverWith(q); x[c] = std::dynamic_pointer_cast<Par>(n); } break;
			case 6: case 7: { if (a == b) continue; int h = r.below(4); j.t("e", "copy").i("h", h); if (h == 0) x[b] = p->GObject::clone<Par>(); else if (h == 1) q->GObject::load(p); else { auto m = serializationMode(r.below(3)); auto str = p->toString(m); if (h == 2) q->fromString(str, m); else { auto n = std::make_shared<Par>(); n->fromString(str, m); x[b] = n; } } } break;
			case 8: { if (a == b) continue; j.t("e", "swap"); p->swap(*q); } break;
			case 9: { if (a == b) continue; j.t("e", "cannibal"); P o = q->GObject::clone<Par>(); p->cannibalize(*o); if (o->size()) j.t("exc", "not empty"); } break;
			case 10: { j.t("e", "random"); bool c = p->randomInit(ALL); j.b("res", c); } break;
			case 11: { j.t("e", "assign"); auto v = ints(*p); for (auto& y : v) y = r.range(-4, 4); j.raw("val", lst(v, [](long y) { return y; })); if (r.chance(50)) p->assignValueVector<std::int32_t>(v, ALL); else p->assignValueVector<std::int32_t>(v); } break;
			case 12: { bool big = false; for (auto y : ints(*p)) big = big || std::abs(y) > 8; if (big) continue; int v = r.range(-1, 2); j.t("e", "times").i("val", v); p->multiplyBy<std::int32_t>(v, ALL); } break;
			case 13: { int v = r.range(-4, 4); j.t("e", "fixed").i("val", v); p->fixedValueInit<std::int32_t>(v, ALL); } break;
			case 14: { bool big = false; for (auto y : ints(*p)) big = big || std::abs(y) > 8; for (auto y : ints(*q)) big = big || std::abs(y) > 8; if (big) continue; bool sub = r.chance(50); j.t("e", "add").i("val", sub ? -1 : 1); if (sub) p->subtract<std::int32_t>(q, ALL); else p->add<std::int32_t>(q, ALL); } break;
			case 15: { int v = r.below(3); j.t("e", "policy").i("val", v); p->setEvaluationPolicy(evaluationPolicy(v)); } break;
			case 16: case 17: { std::string d; C c = constraint(r, ni, nd, 2, d); j.t("e", "constraint").raw("val", d); p->registerConstraint(c); } break;
			case 18: { j.t("e", "due"); p->mark_as_due_for_processing(); } break;
			case 19: { std::vector<double> v; for (int k = 0; k < nc; k++) v.push_back(r.range(-30, 30)); j.t("e", "good").raw("val", lst(v, [](double y) { return std::lround(y); })); bool g = p->isGoodEnough(v); j.b("res", g); } break;
		} } catch (std::exception& e) { err(j, e); ev(j.raw("x", all())); continue; }
		if (op) j.b("thrown", false); ev(j.raw("x", all()));
	}
	ev(J().t("e", "end")); }
int main(int argc, char** argv) { enter_dir(); return run_all(argc, argv, [](int, uint64_t seed) { Rng r(seed); g_random = seed; scenario(r); }); }
