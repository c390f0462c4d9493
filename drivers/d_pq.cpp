// C04: random histories on a size-limited priority store.
#include "common/GFixedSizePriorityQueueT.hpp"
#include "drv.hpp"
#include <memory>
#include <map>
using namespace drv; using namespace Gem::Common;
struct Item : public GCommonInterfaceT<Item> {
	int id = 0; double v = 0; Item() = default; Item(int i, double x) : id(i), v(x) {}
	void load_(Item const* p) override { id = p->id; v = p->v; }
	void compare_(Item const&, expectation const&, double const&) const override {}
	bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
	Item* clone_() const override { return new Item(id, v); }
};
struct Q : public GFixedSizePriorityQueueT<Item> {
	using GFixedSizePriorityQueueT<Item>::GFixedSizePriorityQueueT;
	Q() = default; Q(Q const&) = default; Q& operator=(Q const&) = default; Q(Q&&) = default; Q& operator=(Q&&) = default;
	double evaluation(std::shared_ptr<Item> const& p) const override { return p->v; }
	std::string id(std::shared_ptr<Item> const& p) const override { return std::to_string(p->id); }
	Q* clone_() const override { return new Q(*this); }
};
static const int TOP = 1000;
static double val(int r) { return r == TOP ? std::numeric_limits<double>::max() : r == -TOP ? std::numeric_limits<double>::lowest() : r * 0.5; }
static int rank(double v) { return v == std::numeric_limits<double>::max() ? TOP : v == std::numeric_limits<double>::lowest() ? -TOP : int(v * 2); }
static std::string lst(std::vector<std::shared_ptr<Item>> const& v) { std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ','; s += p ? "[" + std::to_string(p->id) + "," + std::to_string(rank(p->v)) + "]" : "[-1,0]"; } return s + "]"; }
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed);
		int mx = r.below(8) == 0 ? 0 : r.range(1, 6); bool high = r.chance(50), extremes = r.chance(30); int span = r.range(1, 12), idspace = r.range(3, 40);
		std::map<int, int> known; // id -> rank: an item keeps its value
		cfg(J().i("max", mx).b("high", high));
		auto so = [](bool h) { return h ? sortOrder::HIGHERISBETTER : sortOrder::LOWERISBETTER; };
		std::unique_ptr<Q> q = r.chance(50) ? std::make_unique<Q>(size_t(mx), so(high)) : std::make_unique<Q>(size_t(mx));
		q->setSortOrder(so(high));
		auto fresh = [&]() { int id = r.below(idspace); if (!known.count(id)) known[id] = (extremes && r.chance(25)) ? (r.chance(50) ? TOP : -TOP) : r.range(-span, span); return std::make_shared<Item>(id, val(known[id])); };
		auto st = [&](J& j) -> J& { return j.raw("res", lst(q->toVector())).i("size", (long long)q->size()).b("empty", q->empty()).i("max", (long long)q->getMaxSize()).b("high", q->getSortOrder() == sortOrder::HIGHERISBETTER); };
		int n = r.range(3, 25);
		for (int k = 0; k < n; k++) {
			int x = r.below(100); J j;
			if (x < 30) { auto it = fresh(); bool cl = r.chance(50); j.t("e", "add").raw("items", lst({it})).b("replace", false); q->add(it, cl); if (cl) { it->v = 7777; it->id = 999; } }
			else if (x < 65) { std::vector<std::shared_ptr<Item>> v; int m = r.below(8); for (int a = 0; a < m; a++) v.push_back(fresh()); bool cl = r.chance(50), rep = r.chance(20);
				j.t("e", "add").raw("items", lst(v)).b("replace", rep); q->add(v, cl, rep); if (cl) for (auto& p : v) { p->v = 7777; p->id = 999; } }
			else if (x < 72) { j.t("e", "pop"); try { auto p = q->pop(); j.raw("got", lst({p})); } catch (gemfony_exception&) { j.raw("got", "[]"); } }
			else if (x < 80) { j.t("e", "ends"); try { auto b = q->best(), w = q->worst(); j.raw("got", lst({b, w})); } catch (gemfony_exception&) { j.raw("got", "[]"); } }
			else if (x < 83) { j.t("e", "clear"); q->clear(); }
			else if (x < 89) { mx = r.below(8) == 0 ? 0 : r.range(1, 7); j.t("e", "setmax").i("n", mx); q->setMaxSize(size_t(mx)); }
			else if (x < 92) { high = !high; j.t("e", "setorder").b("h", high); q->setSortOrder(so(high)); }
			else { // a copy stands for the original from now on; changes to the original do not reach it
				j.t("e", "copy"); std::unique_ptr<Q> c; int how = r.below(4);
				if (how == 0) c = std::make_unique<Q>(*q); else if (how == 1) { c = std::make_unique<Q>(size_t(r.range(1, 5)), so(r.chance(50))); for (int a = r.below(5); a > 0; a--) c->add(std::make_shared<Item>(500 + a, a), true); *c = *q; }
				else if (how == 2) { c = std::make_unique<Q>(size_t(3)); for (int a = r.below(5); a > 0; a--) c->add(std::make_shared<Item>(500 + a, a), true); c->load(*q); }
				else c = std::unique_ptr<Q>(dynamic_cast<Q*>(q->clone_()));
				for (auto& p : q->toVector()) { p->v = 5555; p->id = 998; } q->clear(); q = std::move(c); }
			ev(st(j));
		}
		ev(J().t("e", "end"));
	});
}
