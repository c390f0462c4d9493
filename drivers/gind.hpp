// Common parts of the drivers that run the optimization library itself: an individual whose evaluations are scripted and
// counted, a random number source that depends on the run's seed only, and small helpers.
#pragma once
#include "common/GGlobalDefines.hpp"
#include "hap/GRandomFactory.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "drv.hpp"
#include <sys/stat.h>
#include <map>
#include <cmath>
#include <algorithm>
namespace gi {
using namespace Gem::Geneva; using namespace drv;
inline uint64_t g_random = 1;
// ranks: fitness values are small integers; the worst values are mapped to +-TOP
static const long TOP = 1000000;
inline long rank(double v) { if (std::isnan(v)) return 3 * TOP; if (v >= double(TOP)) return TOP; if (v <= -double(TOP)) return -TOP; double x = std::floor(v + 0.5); return std::fabs(v - x) > 1e-9 ? 2 * TOP : long(x); }
class Ind;
struct World { long evals = 0; std::function<std::vector<double>(Ind&)> fit; bool log = true; };   // evaluations so far; criteria of an individual
inline World g_w;
class Ind : public GParameterSet {
	friend class boost::serialization::access;
	template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet) & BOOST_SERIALIZATION_NVP(tag) & BOOST_SERIALIZATION_NVP(old); }
public:
	long tag = -1, old = -1;   // number of the evaluation this individual stems from; the one before
	Ind() = default; explicit Ind(std::size_t n) : GParameterSet(n) {} Ind(Ind const& c) = default;
	void load_(const GObject* p) override { auto* x = dynamic_cast<Ind const*>(p); GParameterSet::load_(p); tag = x->tag; old = x->old; }
	void compare_(const GObject& o, const Gem::Common::expectation& e, const double& l) const override { auto* x = dynamic_cast<Ind const*>(&o); Gem::Common::GToken t("Ind", e); Gem::Common::compare_base_t<GParameterSet>(*this, *x, t); t.evaluate(); }
	double fitnessCalculation() override {
		old = tag; tag = ++g_w.evals; auto v = g_w.fit(*this);
		for (size_t k = 1; k < v.size(); k++) setResult(k, v[k]);
		return v[0]; }
	std::vector<double> values() const { std::vector<double> v; this->streamline<double>(v); return v; }
	GObject* clone_() const override { return new Ind(*this); }
};
inline long tag(std::shared_ptr<GParameterSet> const& p) { return p ? std::dynamic_pointer_cast<Ind>(p)->tag : -2; }
inline std::shared_ptr<Ind> ind(std::shared_ptr<GParameterSet> const& p) { return std::dynamic_pointer_cast<Ind>(p); }
inline long raw(GParameterSet const& p) { return rank(p.raw_fitness(0)); }
inline long tra(GParameterSet const& p) { return rank(p.transformed_fitness(0)); }
template <class V> std::string tags(V const& v) { std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += std::to_string(tag(p)); } return s + "]"; }
// a directory of its own for each driver process; executor configurations are created there
inline void enter_dir() { char d[] = "pXXXXXX"; if (!mkdtemp(d) || chdir(d)) { perror("chdir"); exit(2); } (void)!symlink("/dev/null", "GENEVA-EXCEPTION.log"); }
}
BOOST_CLASS_EXPORT(gi::Ind)
#ifndef GIND_REAL_RANDOM
// replaces the threads of the random number factory
namespace Gem { namespace Hap {
inline uint64_t g_seeded = 0; inline bool g_fresh = true, g_const = false; inline uint32_t g_value = 0;   // g_const: always the same number
inline G_BASE_GENERATOR g_gen; inline drv::Rng g_seeds(1);
inline void seed_all() { if (!g_fresh && g_seeded == gi::g_random) return; g_fresh = false; g_seeded = gi::g_random; g_gen = G_BASE_GENERATOR(static_cast<unsigned>(gi::g_random * 2654435761u)); g_seeds = drv::Rng(gi::g_random * 31 + 7); }
std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() { seed_all(); std::unique_ptr<random_container> c(new random_container(g_gen)); if (g_const) std::fill(c->m_r.begin(), c->m_r.end(), g_value); return c; }
seed_type GRandomFactory::getSeed() { seed_all(); return seed_type(g_seeds.next() & 0x7fffffff); }
} }
#endif
