// V02: adaptors of all types, alone and as part of parameter objects: what they change, how their own settings develop, what they refuse.
#include "gind.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32Object.hpp"
using namespace gi; using ints = std::vector<long>; enum { DGAUSS, IGAUSS, BIGAUSS, FLIP, BOOL };
static long code(double v) { return std::lround(v * 1e9); }
static Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY>* G;
template <class T> struct Box {
	using A = GAdaptorT<T>; int kind; std::shared_ptr<A> a; std::shared_ptr<GParameterBaseWithAdaptorsT<T>> p; size_t n = 1;
	GNumGaussAdaptorT<T, double>* ga() { return dynamic_cast<GNumGaussAdaptorT<T, double>*>(a.get()); }
	GNumBiGaussAdaptorT<double, double>* bi() { return reinterpret_cast<GNumBiGaussAdaptorT<double, double>*>(dynamic_cast<GNumBiGaussAdaptorT<T, double>*>(a.get())); }
	std::string state() {
		std::string q; auto add = [&](double v, std::tuple<double, double> r, double s) { q += (q.empty() ? "[" : ",[") + std::to_string(code(v)) + "," + std::to_string(code(std::get<0>(r))) + "," + std::to_string(code(std::get<1>(r))) + "," + std::to_string(code(s)) + "]"; };
		long rst = 0;
		if constexpr (!std::is_same_v<T, bool>) { if (kind == DGAUSS || kind == IGAUSS) { add(ga()->getSigma(), ga()->getSigmaRange(), ga()->getSigmaAdaptionRate()); rst = code(ga()->getResetSigma()); } }
		if (kind == BIGAUSS) { auto b = bi(); add(b->getSigma1(), b->getSigma1Range(), b->getSigma1AdaptionRate()); add(b->getSigma2(), b->getSigma2Range(), b->getSigma2AdaptionRate()); add(b->getDelta(), b->getDeltaRange(), b->getDeltaAdaptionRate()); }
		auto r = a->getAdProbRange(); auto m = a->getAdaptionMode();
		return J().raw("q", "[" + q + "]").i("rst", rst).i("ad", code(a->getAdaptionProbability())).i("adlo", code(std::get<0>(r))).i("adhi", code(std::get<1>(r))).i("ard", code(a->getResetAdaptionProbability())).i("aap", code(a->getAdaptAdaptionProbability())).i("aad", code(a->getAdaptAdProb())).i("thr", a->getAdaptionThreshold()).i("cnt", a->getAdaptionCounter()).i("mode", m == adaptionMode::ALWAYS ? 1 : m == adaptionMode::NEVER ? 2 : 0).str(); } };
template <class T> std::shared_ptr<GAdaptorT<T>> make_a(int kind, Rng& r, std::string& how) {
	auto f = [&](int a, int b) { return r.range(a, b) / 64.; }; double lo = f(0, 20), hi = lo + f(1, 40), s = lo + f(0, 64) * (hi - lo), rate = f(0, 50), p = f(1, 64); if (lo == 0 && s < 0.015) s = hi; if (hi > 1) hi = 1; if (s > hi) s = hi; int c = r.below(4); s = std::round(s * 1024) / 1024; if (s < lo) s = lo;
	auto args = [&](int n) { ints v{code(s), code(rate), code(lo), code(hi), code(p)}; how = J().i("n", n).arr("v", v).str(); };
	auto gauss = [&](auto* t) -> std::shared_ptr<GAdaptorT<T>> { using C = std::remove_pointer_t<decltype(t)>; if (c == 0) { args(0); return std::make_shared<C>(); } if (c == 1) { args(1); return std::make_shared<C>(p); } if (c == 2) { args(4); return std::make_shared<C>(s, rate, lo, hi); } args(5); return std::make_shared<C>(s, rate, lo, hi, p); };
	auto other = [&](auto* t) -> std::shared_ptr<GAdaptorT<T>> { using C = std::remove_pointer_t<decltype(t)>; if (c % 2) { args(1); return std::make_shared<C>(p); } args(0); return std::make_shared<C>(); };
	if constexpr (std::is_same_v<T, double>) return kind == DGAUSS ? gauss((GDoubleGaussAdaptor*)nullptr) : other((GDoubleBiGaussAdaptor*)nullptr);
	else if constexpr (std::is_same_v<T, std::int32_t>) return kind == IGAUSS ? gauss((GInt32GaussAdaptor*)nullptr) : other((GInt32FlipAdaptor*)nullptr);
	else return other((GBooleanAdaptor*)nullptr); }
template <class T> std::shared_ptr<GParameterBaseWithAdaptorsT<T>> make_p(Rng& r, size_t& n) {
	n = r.chance(50) ? 1 : r.range(1, 4); bool coll = n > 1 || r.chance(30);
	if constexpr (std::is_same_v<T, double>) { if (coll) return std::make_shared<GDoubleCollection>(n, -4., 4.); return std::make_shared<GDoubleObject>(1., -4., 4.); }
	else if constexpr (std::is_same_v<T, std::int32_t>) { if (coll) return std::make_shared<GInt32Collection>(n, -40, 40); return std::make_shared<GInt32Object>(1, -40, 40); }
	else { if (coll) return std::make_shared<GBooleanCollection>(n, true); return std::make_shared<GBooleanObject>(true); } }
template <class T> std::vector<T> vals(GParameterBase& p) { std::vector<T> v; p.streamline<T>(v, activityMode::ALLPARAMETERS); return v; }
template <class T> void run(int kind, Rng& r) {
	Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY> gr; Box<T> x; x.kind = kind; std::string how;
	auto take = [&](std::shared_ptr<GAdaptorT<T>> a) { x.a = a; x.p.reset(); if (r.chance(60)) { x.p = make_p<T>(r, x.n); x.p->addAdaptor(a); x.a = x.p->getAdaptor(); } else x.n = r.range(1, 4); };
	auto first = make_a<T>(kind, r, how); take(first); cfg(J().i("kind", kind)); ev(J().t("e", "make").raw("how", how).raw("s", x.state()));
	bool quiet = r.chance(40); int steps = r.range(5, 40);
	for (int s = 0; s < steps; s++) {
		J j; bool thrown = false; auto f = [&](int a, int b) { return r.range(a, b) / 64.; };
		try { switch (r.chance(45) ? 20 : r.below(quiet ? 4 : 17)) {
			case 0: { int n = r.range(1, 4); j.t("e", "stall"); bool b = x.p && r.chance(60) ? x.p->updateAdaptorsOnStall(n) : x.a->updateOnStall(n, T(1)); j.b("res", b); } break;
			case 1: { j.t("e", "copy"); int h = r.below(4); auto mode = Gem::Common::serializationMode(r.below(3));
				if (x.p) { if (h == 0) x.p = x.p->template clone<GParameterBaseWithAdaptorsT<T>>(); else if (h == 1) { auto str = x.p->toString(mode); x.p->fromString(str, mode); } else { size_t n; auto p = make_p<T>(r, n); p->addAdaptor(x.a); x.p = p; x.n = n; } x.a = x.p->getAdaptor(); }
				else { if (h == 0) x.a = x.a->template clone<GAdaptorT<T>>(); else if (h == 1) { auto str = x.a->toString(mode); std::string t; auto b = make_a<T>(kind, r, t); b->fromString(str, mode); x.a = b; } else if (h == 2) { std::string t; auto b = make_a<T>(kind, r, t); b->GObject::load(x.a); x.a = b; } else take(x.a); } } break;
			case 2: { j.t("e", "init"); bool b = x.a->randomInit(gr); j.b("res", b); } break;
			case 3: { j.t("e", "mode"); int m = r.below(3); j.i("m", m); x.a->setAdaptionMode(m == 1 ? adaptionMode::ALWAYS : m == 2 ? adaptionMode::NEVER : adaptionMode::WITHPROBABILITY); } break;
			case 4: { double v = r.chance(30) ? 1. : f(-4, 70); j.t("e", "ad").i("v", code(v)); x.a->setAdaptionProbability(v); } break;
			case 5: { double v = f(-4, 70); j.t("e", "ard").i("v", code(v)); x.a->setResetAdaptionProbability(v); } break;
			case 6: { double v = r.chance(30) ? 0. : r.chance(30) ? 1. : f(-4, 70); j.t("e", "aap").i("v", code(v)); x.a->setAdaptAdaptionProbability(v); } break;
			case 7: { double v = r.chance(40) ? 0. : f(0, 64); j.t("e", "aad").i("v", code(v)); x.a->setAdaptAdProb(v); } break;
			case 8: case 9: { int v = r.below(6); j.t("e", "thr").i("v", v); x.a->setAdaptionThreshold(v); } break;
			case 10: { double a = f(-3, 40), b = r.chance(20) ? f(-3, 70) : a + f(0, 40); if (r.chance(30)) a = 0.; j.t("e", "adr").i("a", code(a)).i("b", code(b)); x.a->setAdProbRange(a, b); } break;
			case 11: case 12: case 13: case 14: case 15: case 16: {
				if (kind == FLIP || kind == BOOL) continue; int k = kind == BIGAUSS ? r.below(3) : 0, o = r.below(kind == BIGAUSS ? 4 : 5); double v = f(-4, 70), a = f(-2, 40), b = r.chance(20) ? f(-2, 70) : a + f(0, 30), w = f(0, 50); if (r.chance(30)) a = 0.; if (r.chance(50) && a >= 0 && b >= a) v = std::round((a + (b - a) * f(0, 64)) * 1024) / 1024;
				static const char* nm[] = {"qset", "qrange", "qrate", "qall", "qrst"}; j.t("e", nm[o]).i("k", k + 1).i("v", code(v)).i("a", code(a)).i("b", code(b)).i("w", code(w));
				if (kind == BIGAUSS) { auto q = x.bi(); switch (o * 3 + k) { case 0: q->setSigma1(v); break; case 1: q->setSigma2(v); break; case 2: q->setDelta(v); break; case 3: q->setSigma1Range(a, b); break; case 4: q->setSigma2Range(a, b); break; case 5: q->setDeltaRange(a, b); break; case 6: q->setSigma1AdaptionRate(w); break; case 7: q->setSigma2AdaptionRate(w); break; case 8: q->setDeltaAdaptionRate(w); break; case 9: q->setAllSigma1(v, w, a, b); break; case 10: q->setAllSigma2(v, w, a, b); break; default: q->setAllDelta(v, w, a, b); } }
				else if constexpr (!std::is_same_v<T, bool>) { auto q = x.ga(); if (o == 0) q->setSigma(v); else if (o == 1) q->setSigmaRange(a, b); else if (o == 2) q->setSigmaAdaptionRate(w); else if (o == 3) q->setAll(v, w, a, b); else q->setResetSigma(v); } } break;
			default: { j.t("e", "adapt"); size_t n; std::vector<T> b, a;
				if (x.p && r.chance(70)) { b = vals<T>(*x.p); n = x.p->adapt(gr); a = vals<T>(*x.p); if (b.size() != x.n) j.t("exc", "size"); }
				else { for (size_t k = 0; k < x.n; k++) b.push_back(T(k % 2)); a = b; if (x.n == 1 && r.chance(50)) { T v = b[0]; n = x.a->adapt(v, T(kind == DGAUSS || kind == BIGAUSS ? 8 : kind == BOOL ? 1 : r.range(1, 100)), gr); a[0] = v; } else n = x.a->adapt(a, T(kind == IGAUSS ? r.range(1, 100) : 1), gr); }
				long ch = 0; bool unit = true; for (size_t k = 0; k < a.size(); k++) { ch += a[k] != b[k]; if (kind == FLIP) unit = unit && std::abs(double(a[k]) - double(b[k])) <= 1; } j.i("m", long(a.size())).i("n", long(n)).i("ch", ch).b("unit", unit); } break;
		} } catch (std::exception& e) { thrown = true; j.t("exc", std::string(e.what()).substr(0, 200)); }
		ev(j.b("thrown", thrown).raw("s", x.state()));
	}
	ev(J().t("e", "end")); }
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) { Rng r(seed); g_random = seed; int kind = r.below(5);
		if (kind == DGAUSS || kind == BIGAUSS) run<double>(kind, r); else if (kind == BOOL) run<bool>(kind, r); else run<std::int32_t>(kind, r); });
}
