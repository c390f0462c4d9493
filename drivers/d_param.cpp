// V01: constrained parameters of all kinds under arbitrary sequences of operations: what they show, what they refuse, and what
// inactive ones do.  Numbers are logged as positions relative to a grid (exact, the next smaller number, just above, ...).
#include "gind.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
using namespace gi; using PB = std::shared_ptr<GParameterBase>; using ints = std::vector<long>;
static const double STEP = 0.5; static const long FAR = 1000000;
static long code(double v, int kind) {
	if (kind == 1 || kind == 4) return std::abs(v) > FAR ? (v < 0 ? -1 : 1) * 8 * FAR : 8 * long(v);
	if (std::isnan(v)) return 9 * FAR; if (std::abs(v) > FAR * STEP) return (v < 0 ? -1 : 1) * 8 * FAR;
	long q = long(std::floor(v / STEP + 0.5)); double g = q * STEP, tol = 1e-9;
	if (v == g) return 8 * q; if (v == boost::math::float_prior(g)) return 8 * q - 1;
	if (v > g) return v - g < tol ? 8 * q + 1 : 8 * q + 4; return g - v < tol ? 8 * q - 2 : 8 * q - 4; }
struct P { int kind = 0, n = 1; PB p; bool fp() const { return kind == 0 || kind == 2 || kind == 3; } };
template <class T> std::vector<double> vals_(PB p, activityMode m) { std::vector<T> v; p->streamline<T>(v, m); return {v.begin(), v.end()}; }
static std::vector<double> vals(P const& x, activityMode m = activityMode::ALLPARAMETERS) { auto c = x.p->clone<GParameterBase>(); return x.fp() ? vals_<double>(c, m) : vals_<std::int32_t>(c, m); }
static std::vector<PB> leaves(P const& x) { std::vector<PB> r; if (x.kind == 3) for (auto& o : *std::dynamic_pointer_cast<GConstrainedDoubleObjectCollection>(x.p)) r.push_back(o); else if (x.kind == 4) for (auto& o : *std::dynamic_pointer_cast<GConstrainedInt32ObjectCollection>(x.p)) r.push_back(o); else r.push_back(x.p); return r; }
static std::string state(P const& x) {
	ints v, lo, up, act, blk; bool ok = true; std::string what;
	try {
		for (double d : vals(x)) v.push_back(code(d, x.kind));
		auto bnd = [&](activityMode m) { std::vector<double> a, b; if (x.fp()) x.p->boundaries<double>(a, b, m); else { std::vector<std::int32_t> c, d; x.p->boundaries<std::int32_t>(c, d, m); a = {c.begin(), c.end()}; b = {d.begin(), d.end()}; } return std::make_pair(a, b); };
		auto b = bnd(activityMode::ALLPARAMETERS); for (double d : b.first) lo.push_back(code(d, x.kind)); for (double d : b.second) up.push_back(code(d, x.kind));
		for (auto& l : leaves(x)) for (int k = 0; k < (x.kind == 2 ? x.n : 1); k++) { act.push_back(l->adaptionsActive()); blk.push_back(l->randomInitializationBlocked()); }
		// what is shown of active and inactive ones only
		auto cnt = [&](activityMode m) { return x.fp() ? x.p->countParameters<double>(m) : x.p->countParameters<std::int32_t>(m); };
		for (int m = 0; m < 2; m++) { auto am = m ? activityMode::INACTIVEONLY : activityMode::ACTIVEONLY; auto s = vals(x, am); size_t j = 0; for (size_t k = 0; k < v.size(); k++) if (bool(act[k]) != bool(m)) { ok = ok && j < s.size() && code(s[j], x.kind) == v[k]; j++; } ok = ok && s.size() == j && cnt(am) == j && bnd(am).first.size() == j; }
		ok = ok && cnt(activityMode::ALLPARAMETERS) == v.size();
	} catch (std::exception& e) { what = std::string(e.what()).substr(0, 200); ok = false; }
	return J().arr("v", v).arr("lo", lo).arr("up", up).arr("act", act).arr("blk", blk).b("top", x.p->adaptionsActive()).b("tblk", x.p->randomInitializationBlocked()).b("ok", ok).t("what", what).str(); }
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); g_random = seed; int kind = r.below(5); bool extreme = r.chance(15);
		Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY> gr;
		cfg(J().i("kind", kind));
		bool fp = kind == 0 || kind == 2 || kind == 3; double step = fp ? STEP : 1;
		auto grid = [&](long a, long b) { return r.range(int(a), int(b)) * step; };
		auto bounds = [&](double& lo, double& up) { lo = grid(-6, 6); up = r.chance(15) ? 0. : lo + grid(r.chance(15) ? -1 : 1, 12); if (extreme && r.chance(50)) { up = lo + step * 1e5; } if (!fp && r.chance(10)) up = lo; };
		auto adaptor = [&](PB p) { if (fp) { auto a = std::make_shared<GDoubleGaussAdaptor>(r.range(1, 8) / 8., 0.3, 0., 1.); a->setAdaptionProbability(1.); a->setAdaptAdProb(0.); if (kind == 0 || kind == 2) std::dynamic_pointer_cast<GParameterBaseWithAdaptorsT<double>>(p)->addAdaptor(a); }
			else { std::shared_ptr<GAdaptorT<std::int32_t>> a; if (r.chance(50)) a = std::make_shared<GInt32FlipAdaptor>(1.); else a = std::make_shared<GInt32GaussAdaptor>(r.range(1, 8) / 8., 0.3, 0., 1.); a->setAdaptionProbability(1.); a->setAdaptAdProb(0.); std::dynamic_pointer_cast<GParameterBaseWithAdaptorsT<std::int32_t>>(p)->addAdaptor(a); } };
		auto make = [&] { P x; x.kind = kind; x.n = kind < 2 ? 1 : r.range(1, 3); double lo, up; do bounds(lo, up); while (lo >= up); double v = lo + std::floor((up - lo) / step * r.below(5) / 4) * step;
			if (kind == 0) { x.p = r.chance(50) ? std::make_shared<GConstrainedDoubleObject>(v, lo, up) : std::make_shared<GConstrainedDoubleObject>(lo, up); }
			if (kind == 1) { x.p = r.chance(50) ? std::make_shared<GConstrainedInt32Object>(v, lo, up) : std::make_shared<GConstrainedInt32Object>(lo, up); }
			if (kind == 2) { x.p = r.chance(50) ? std::make_shared<GConstrainedDoubleCollection>(x.n, v, lo, up) : std::make_shared<GConstrainedDoubleCollection>(x.n, lo, up); }
			if (kind == 3) { auto c = std::make_shared<GConstrainedDoubleObjectCollection>(); for (int k = 0; k < x.n; k++) { auto o = std::make_shared<GConstrainedDoubleObject>(v, lo, up); auto a = std::make_shared<GDoubleGaussAdaptor>(r.range(1, 8) / 8., 0.3, 0., 1.); a->setAdaptionProbability(1.); a->setAdaptAdProb(0.); o->addAdaptor(a); c->push_back(o); } x.p = c; }
			if (kind == 4) { auto c = std::make_shared<GConstrainedInt32ObjectCollection>(); for (int k = 0; k < x.n; k++) { auto o = std::make_shared<GConstrainedInt32Object>(v, lo, up); adaptor(o); c->push_back(o); } x.p = c; }
			if (kind < 3) adaptor(x.p);
			return x; };
		P x = make(); ev(J().t("e", "make").raw("s", state(x)));
		int steps = r.range(4, 30);
		for (int s = 0; s < steps; s++) {
			J j; bool thrown = false; auto lv = leaves(x); int pos = r.below(x.n); PB l = x.kind == 3 || x.kind == 4 ? lv[pos] : x.p; auto mode = activityMode(r.below(3)); j.i("m", mode == activityMode::ACTIVEONLY ? 1 : mode == activityMode::INACTIVEONLY ? 2 : 0);
			auto num = [&]() -> double { if (extreme && r.chance(40)) { static const double big[] = {1e3 + 0.3, 1e5 + 1. / 3, 12345678.9, 1e9, 2147483647., -2147483648., 1e10 / 3}; double b = big[r.below(7)] * (r.chance(50) ? 1 : -1); if (!fp && std::abs(b) > 2147483647.) b = b < 0 ? -2147483648. : 2147483647.; return b; }
				if (fp && r.chance(4)) return r.chance(50) ? 1e-310 : -4e-320; return grid(r.chance(30) ? -60 : -10, r.chance(30) ? 60 : 14); };
			auto od = [&] { return std::dynamic_pointer_cast<GConstrainedDoubleObject>(l); }; auto oi = [&] { return std::dynamic_pointer_cast<GConstrainedInt32Object>(l); }; auto oc = [&] { return std::dynamic_pointer_cast<GConstrainedDoubleCollection>(x.p); };
			try { switch (r.below(15)) {
				case 0: { double v = num(); j.t("e", "set").i("pos", pos + 1).i("val", code(v, kind)); if (kind == 2) oc()->setValue(pos, v); else if (fp) { if (r.chance(50)) od()->setValue(v); else *od() = v; } else { if (r.chance(50)) oi()->setValue(int(v)); else *oi() = int(v); } } break;
				case 1: { if (kind == 2) continue; double lo, up; bounds(lo, up); double v = r.chance(70) ? lo + grid(0, 6) : num(); if (r.chance(20)) v = up; j.t("e", "setall").i("pos", pos + 1).i("val", code(v, kind)).i("lo", code(lo, kind)).i("up", code(up, kind)); if (fp) od()->setValue(v, lo, up); else oi()->setValue(int(v), int(lo), int(up)); } break;
				case 2: { double lo, up; bounds(lo, up); if (r.chance(40)) { lo = grid(-10, 0); up = grid(1, 14); } j.t("e", "bounds").i("pos", pos + 1).i("lo", code(lo, kind)).i("up", code(up, kind)); if (kind == 2) oc()->setBoundaries(lo, up); else if (fp) od()->setBoundaries(lo, up); else oi()->setBoundaries(int(lo), int(up)); } break;
				case 3: case 4: { std::vector<double> w; size_t n = vals(x, mode).size(); for (size_t k = 0; k < n; k++) w.push_back(num()); ints c; for (double d : w) c.push_back(code(d, kind)); j.t("e", "assign").arr("vals", c); std::size_t at = 0; if (fp) x.p->assignValueVector<double>(w, at, mode); else { std::vector<std::int32_t> i(w.begin(), w.end()); x.p->assignValueVector<std::int32_t>(i, at, mode); } j.i("used", long(at)); } break;
				case 5: { double v = num(); j.t("e", "fix").i("val", code(v, kind)); if (fp) x.p->fixedValueInit<double>(v, mode); else x.p->fixedValueInit<std::int32_t>(int(v), mode); } break;
				case 6: { int v = r.range(-3, 3); j.t("e", "mul").i("by", v); if (fp) x.p->multiplyBy<double>(v, mode); else x.p->multiplyBy<std::int32_t>(v, mode); } break;
				case 7: { j.t("e", "add"); auto y = x.p->clone<GParameterBase>(); P yy = x; yy.p = y; if (r.chance(60)) y->randomInit(activityMode::ALLPARAMETERS, gr); ints c; for (double d : vals(yy)) c.push_back(code(d, kind)); bool sub = r.chance(50); j.arr("vals", c).b("sub", sub); if (fp) { if (sub) x.p->subtract<double>(y, mode); else x.p->add<double>(y, mode); } else { if (sub) x.p->subtract<std::int32_t>(y, mode); else x.p->add<std::int32_t>(y, mode); } } break;
				case 8: { j.t("e", "rnd"); if (r.chance(30)) { if (fp) x.p->multiplyByRandom<double>(-3., 5., mode, gr); else x.p->multiplyByRandom<std::int32_t>(-3, 5, mode, gr); j.b("init", false).b("done", true); } else { j.b("init", true); bool d = x.p->randomInit(mode, gr); j.b("done", d); } } break;
				case 9: case 10: { j.t("e", "adapt"); size_t n = 0; int times = r.range(1, 3); for (int k = 0; k < times; k++) n += x.p->adapt(gr); j.i("n", long(n)).i("times", times); } break;
				case 11: { bool on = r.chance(50); bool top = r.chance(30); j.t("e", "act").b("on", on).b("top", top).i("pos", pos + 1); auto q = top ? x.p : l; bool prev = on ? q->setAdaptionsActive() : q->setAdaptionsInactive(); j.b("prev", prev); } break;
				case 12: { bool on = r.chance(50); bool top = r.chance(30); j.t("e", "blk").b("on", on).b("top", top).i("pos", pos + 1); auto q = top ? x.p : l; if (on) q->blockRandomInitialization(); else q->allowRandomInitialization(); } break;
				case 13: { j.t("e", "copy"); int how = r.below(3); if (how == 0) x.p = x.p->clone<GParameterBase>(); else if (how == 1) { auto m = Gem::Common::serializationMode(r.below(3)); auto str = x.p->toString(m); auto y = make().p->clone<GParameterBase>(); y->fromString(str, m); x.p = y; } else { auto y = make().p; y->GObject::load(x.p); x.p = y; } } break;
				default: { j.t("e", "load"); P y = make(); j.raw("o", state(y)); x.p->GObject::load(y.p); x.n = y.n; } break;
			} } catch (std::exception& e) { thrown = true; j.t("exc", std::string(e.what()).substr(0, 200)); }
			ev(j.b("thrown", thrown).raw("s", state(x)));
		}
		ev(J().t("e", "end"));
	});
}
