// M01: pluggable optimization monitors that write files; the populations they see and everything they write.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/GPluggableOptimizationMonitors.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GBooleanCollection.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace gi; using namespace Gem::Common;
static std::string js(std::string const& s) { return drv::q(s); }
static std::string num(double v) { if (std::fabs(v) > 1e300) return v > 0 ? "HUGE" : "-HUGE"; double k = v * 1000.; if (std::fabs(k) < 1e9 && k == std::floor(k)) return std::to_string(long(k)); char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static double six(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return strtod(b, nullptr); }
static std::string tok(std::string const& s) { if (s.empty()) return "EMPTY"; char* e; double v = strtod(s.c_str(), &e); return *e ? "#" + s : num(v); }
struct List { std::string s = "["; bool f = true; void add(std::string const& x) { if (!f) s += ','; f = false; s += x; } std::string str() const { return s + "]"; } };
// valid as long as the n-th integer does not exceed a limit
class Lim : public GParameterSetConstraint {
	friend class boost::serialization::access; template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint) & BOOST_SERIALIZATION_NVP(lim); }
public: int lim = 0; Lim() = default; explicit Lim(int l) : lim(l) {} Lim(Lim const&) = default;
	double check_(const GParameterSet* p) const override { std::vector<std::int32_t> v; p->streamline<std::int32_t>(v); return v.empty() || v[0] <= lim ? 0. : 2.; }
	void load_(const GObject* p) override { auto* x = dynamic_cast<Lim const*>(p); GParameterSetConstraint::load_(p); lim = x->lim; }
	void compare_(const GObject& o, const expectation& e, const double& l) const override { auto* x = dynamic_cast<Lim const*>(&o); GToken t("Lim", e); compare_base_t<GParameterSetConstraint>(*this, *x, t); compare_t(IDENTITY(lim, x->lim), t); t.evaluate(); }
	GObject* clone_() const override { return new Lim(*this); } };
BOOST_CLASS_EXPORT(Lim)
struct Par { int name; char type; };   // d, i, b
static std::vector<Par> g_pars;
struct Log { std::string kind, f; std::streamoff pos = 0; };
static std::vector<Log> g_logs;
static bool g_started = false;
static std::string vals(GParameterSet const& p) {
	std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b; p.streamline<double>(d); p.streamline<std::int32_t>(i); p.streamline<bool>(b);
	List l; size_t a = 0, c = 0, e = 0; for (auto& x : g_pars) l.add(js(num(x.type == 'd' ? d.at(a++) : x.type == 'i' ? i.at(c++) : double(b.at(e++))))); return l.str(); }
static std::string describe(GParameterSet const& p) {
	J j; j.raw("v", vals(p)); { List m; std::vector<double> d; p.streamline<double>(d); size_t a = 0; for (auto& x : g_pars) m.add(std::to_string(x.type == 'd' ? long(d.at(a++) * 1000) : 0L)); j.raw("m", m.str()); } bool done = p.is_processed(); List r, t, k, r6, t6; j.b("done", done).i("nad", p.getNAdaptions());
	if (done) for (size_t x = 0; x < p.getNStoredResults(); x++) { r.add(js(num(p.raw_fitness(x)))); t.add(js(num(p.transformed_fitness(x)))); r6.add(js(num(six(p.raw_fitness(x))))); t6.add(js(num(six(p.transformed_fitness(x))))); k.add(std::to_string(std::fabs(p.raw_fitness(x)) > 1e300 ? (p.raw_fitness(x) > 0 ? TOP : -TOP) : long(p.raw_fitness(x)))); }
	return j.raw("r", r.str()).raw("t", t.str()).raw("r6", r6.str()).raw("t6", t6.str()).raw("k", k.str()).b("ok", done && p.isValid()).str(); }
static const char* mode(infoMode m) { return m == infoMode::INFOINIT ? "init" : m == infoMode::INFOPROCESSING ? "proc" : "end"; }
struct Truth : GBasePluggableOM {
	std::string name_() const override { return "Truth"; } GObject* clone_() const override { return new Truth(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const a) override {
		J j; j.t("e", "info").t("m", mode(m)).i("it", a->getIteration()); List l; for (auto& p : *a) l.add(describe(*p)); j.raw("pop", l.str());
		j.raw("best", m == infoMode::INFOPROCESSING ? "[" + describe(*a->getBestGlobalIndividual<GParameterSet>()) + "]" : "[]"); ev(j); } };
static List fresh(Log& l) {   // lines added to a text file
	List r; std::ifstream f(l.f); if (!f) return r; f.seekg(l.pos); std::string s((std::istreambuf_iterator<char>(f)), {}); l.pos += s.size();
	bool cut = !s.empty() && s.back() != '\n'; std::istringstream is(s); std::string line;
	while (std::getline(is, line)) {
		List t; bool comma = false, plain = false; char k = 'v';
		if (!line.empty() && line[0] == '#') { k = 'c'; t.add(js(line)); }
		else {
			std::vector<std::string> w; std::string x; char sep = l.kind == "sol" ? '\t' : ' '; std::istringstream ls(line); while (std::getline(ls, x, sep)) w.push_back(x);
			for (size_t n = 0; n < w.size(); n++) { bool last = n + 1 == w.size(); if (!w[n].empty() && w[n].back() == ',') { w[n].pop_back(); comma = true; if (last) plain = true; } else if (!last) plain = true; if (l.kind == "time" && n > 0) { char* e; strtod(w[n].c_str(), &e); t.add(js(*e || w[n].empty() ? "BAD" : "T")); } else t.add(js(tok(w[n]))); } }
		r.add(J().t("k", std::string(1, k)).raw("t", t.str()).b("comma", comma).b("plain", plain).str()); }
	if (cut) r.add(J().t("k", "cut").raw("t", "[]").b("comma", false).b("plain", false).str());
	return r; }
static List plots(Log& l) {   // all plots of a file, in order
	List r; std::ifstream f(l.f); std::string line; std::vector<std::string> order; std::map<std::string, List> data; std::map<std::string, long> cnt; std::map<std::string, std::vector<double>> xs; std::map<std::string, std::string> dim; bool bad = false;
	auto plot = [&](std::string const& s) { if (!data.count(s)) { order.push_back(s); data[s]; cnt[s] = 0; } };
	while (std::getline(f, line)) {
		char a[100], b[100]; double v[3]; long i[3]; int o, n;
		if (sscanf(line.c_str(), " TH2D *%99s = new TH2D(", a) == 1) { size_t p = line.find("\",", line.find("\",") + 2); long bx = 0, by = 0; double z[4]; if (p == std::string::npos || sscanf(line.c_str() + p + 2, "%ld, %lf, %lf,%ld, %lf, %lf", &bx, z, z + 1, &by, z + 2, z + 3) != 6) bad = true; plot(a); dim[a] = "[" + std::to_string(bx) + "," + std::to_string(by) + "]"; }
		else if ((o = 0, sscanf(line.c_str(), " double x_array%99[^[][%ld];%n", a, i, &o)) == 2) { plot(a); dim[a] = "[" + std::to_string(*i) + "]"; }
		else if (sscanf(line.c_str(), " x_array%99[^[][%ld] = %lf; y_array%99[^[][%ld] = %lf;%n", a, i, v, b, i + 1, v + 1, &n) == 6) {
			plot(a); List t; t.add(js(num(v[0]))); t.add(js(num(v[1]))); if (i[0] != cnt[a] || i[1] != cnt[a] || std::string(a) != b) bad = true; cnt[a]++; xs[a].push_back(v[0]);
			char c[100]; if (sscanf(line.c_str() + n, " z_array%99[^[][%ld] = %lf;", c, i + 2, v + 2) == 3) { t.add(js(num(v[2]))); if (std::string(a) != c || i[2] != i[0]) bad = true; }
			data[a].add(t.str()); }
		else if (sscanf(line.c_str(), " %99[^-]->Fill(%lf, %lf);", a, v, v + 1) == 3) { plot(a); cnt[a]++; List t; t.add(js(num(v[0]))); t.add(js(num(v[1]))); data[a].add(t.str()); } }
	for (auto& s : order) r.add(J().raw("dim", dim.count(s) ? dim[s] : "[]").raw("d", data[s].str()).b("sorted", std::is_sorted(xs[s].begin(), xs[s].end())).b("bad", bad).str());
	return r; }
static std::string g_old;   // state of the files before the run
struct Watch : GBasePluggableOM {
	std::string name_() const override { return "Watch"; } GObject* clone_() const override { return new Watch(*this); }
	void informationFunction_(infoMode m, G_OptimizationAlgorithm_Base const* const) override {
		List o; for (auto& l : g_logs) {
			bool text = l.kind == "sol" || l.kind == "res" || l.kind == "time"; long baks = 0; for (auto& e : std::filesystem::directory_iterator(".")) if (e.path().filename().string().rfind(l.f + ".bak_", 0) == 0) baks++;
			if (m == infoMode::INFOINIT) l.pos = 0;
			bool there = std::filesystem::exists(l.f);
			o.add(J().b("there", there).i("baks", baks).raw("lines", text ? fresh(l).str() : "[]").raw("plots", !text && m == infoMode::INFOEND ? plots(l).str() : "[]").str()); }
		ev(J().t("e", "files").raw("f", o.str())); } };
static std::shared_ptr<Ind> make(Rng& r, size_t ncrit, int lim, int policy) {
	auto p = std::make_shared<Ind>(ncrit);
	for (size_t k = 0; k < g_pars.size(); k++) { auto& x = g_pars[k]; std::string n = "p" + std::to_string(x.name); size_t c = 1; while (k + 1 < g_pars.size() && g_pars[k + 1].name == x.name && g_pars[k + 1].type == x.type) { k++; c++; }
		if (x.type == 'd') { std::shared_ptr<GDoubleGaussAdaptor> g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); g->setAdaptionProbability(1.);
			if (c == 1) { auto d = std::make_shared<GDoubleObject>(r.range(-12, 12) / 4.); d->addAdaptor(g); d->setParameterName(n); d->setAdaptionsInactive(); p->push_back(d); }
			else { auto d = std::make_shared<GDoubleCollection>(); for (size_t y = 0; y < c; y++) d->push_back(r.range(-12, 12) / 4.); d->addAdaptor(g); d->setParameterName(n); d->setAdaptionsInactive(); p->push_back(d); } }
		else if (x.type == 'i') { auto g = std::make_shared<GInt32FlipAdaptor>(); g->setAdaptionProbability(0.6);
			if (c == 1) { auto d = std::make_shared<GInt32Object>(r.range(-4, 4)); d->addAdaptor(g); d->setParameterName(n); p->push_back(d); }
			else { auto d = std::make_shared<GInt32Collection>(); for (size_t y = 0; y < c; y++) d->push_back(r.range(-4, 4)); d->addAdaptor(g); d->setParameterName(n); p->push_back(d); } }
		else { auto g = std::make_shared<GBooleanAdaptor>(); g->setAdaptionProbability(0.6);
			if (c == 1) { auto d = std::make_shared<GBooleanObject>(r.chance(50)); d->addAdaptor(g); d->setParameterName(n); p->push_back(d); }
			else { auto d = std::make_shared<GBooleanCollection>(); for (size_t y = 0; y < c; y++) d->push_back(r.chance(50)); d->addAdaptor(g); d->setParameterName(n); p->push_back(d); } } }
	if (lim < 9) p->registerConstraint(std::make_shared<Lim>(lim));
	p->setEvaluationPolicy(evaluationPolicy(policy)); p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); return p; }
template <class A> void drive(A& a, Rng& r, int ds, size_t ncrit) {
	int lim = r.chance(40) ? 9 : r.range(-3, 4), policy = r.chance(60) ? 0 : r.range(1, 2), n0 = r.range(1, ds);
	for (int k = 0; k < n0; k++) a.push_back(make(r, ncrit, lim, policy));
	std::vector<std::shared_ptr<GBasePluggableOM>> mons; List lc; int nl = r.range(1, 4);
	for (int k = 0; k < nl; k++) {
		int kind = r.below(12); std::string f = "log" + std::to_string(k); J j; std::shared_ptr<GBasePluggableOM> m; bool commas = r.chance(50), raw = r.chance(50), best = r.chance(50);
		if (r.chance(20)) { std::ofstream(f) << "old\n"; j.b("old", true); } else j.b("old", false);
		if (kind < 4) {
			bool init = r.chance(30), hdr = r.chance(50), sep = r.chance(40), val = r.chance(60); List bs; auto l = std::make_shared<GAllSolutionFileLogger>(f);
			if (!init && r.chance(50)) { std::vector<double> b; for (size_t x = 0; x < ncrit; x++) { b.push_back(r.range(-E->span, E->span)); bs.add(std::to_string(long(b[x]))); } l->setBoundaries(b); if (r.chance(15)) { l->setBoundariesInactive(); bs = List(); } }
			l->setPrintWithNameAndType(hdr); l->setPrintWithCommas(commas); l->setUseTrueFitness(raw); l->setShowValidity(val); l->setPrintInitial(init); l->setShowIterationBoundaries(sep);
			j.t("kind", "sol").b("init", init).b("hdr", hdr).b("sep", sep).b("val", val).b("commas", commas).b("raw", raw).raw("bound", bs.str()); m = l; }
		else if (kind < 6) { auto l = std::make_shared<GIterationResultsFileLogger>(f); l->setPrintWithCommas(commas); l->setUseTrueFitness(raw); j.t("kind", "res").b("commas", commas).b("raw", raw); m = l; }
		else if (kind < 8) { auto l = std::make_shared<GNAdpationsLogger>(f); l->setMonitorBestOnly(best); j.t("kind", "nad").b("best", best); m = l; }
		else if (kind < 9) { auto l = std::make_shared<GProcessingTimesLogger>(f + "h", f + "hh", f, 4, 4); j.t("kind", "time"); m = l; }
		else {
			std::vector<int> ds; { std::map<int, int> c; for (auto& p : g_pars) { if (p.type == 'd') c[p.name]++; } for (size_t y = 0; y < g_pars.size(); y++) if (g_pars[y].type == 'd' && c[g_pars[y].name] == 1) ds.push_back(y); }
			if (ds.empty()) { auto l = std::make_shared<GIterationResultsFileLogger>(f); l->setPrintWithCommas(commas); l->setUseTrueFitness(raw); j.t("kind", "res").b("commas", commas).b("raw", raw); m = l; }
			else {
				std::vector<int> use{ds[r.below(ds.size())]}; if (ds.size() > 1 && r.chance(60)) { int o; do o = ds[r.below(ds.size())]; while (o == use[0]); use.push_back(o); }
				bool obs = r.chance(65), vo = r.chance(40); std::string spec = "d("; List vs, lo, hi;
				for (size_t x = 0; x < use.size(); x++) { int a1 = r.range(-12, 4), b1 = a1 + r.range(1, 12); if (x) spec += ", d("; spec += "p" + std::to_string(g_pars[use[x]].name) + "[0], " + std::to_string(a1 / 4.) + ", " + std::to_string(b1 / 4.) + ", 100)"; vs.add(std::to_string(use[x] + 1)); lo.add(std::to_string(a1 * 250)); hi.add(std::to_string(b1 * 250)); }
				auto l = std::make_shared<GProgressPlotterT<double>>(best, vo); l->setFileName(f); l->setProfileSpec(spec); l->setObserveBoundaries(obs); l->setUseRawEvaluation(raw);
				j.t("kind", "prog").b("best", best).b("vo", vo).b("obs", obs).b("raw", raw).raw("vars", vs.str()).raw("lo", lo.str()).raw("hi", hi.str()); m = l; } }
		g_logs.push_back({"", f}); lc.add(j.str()); std::string s = j.str(); size_t p = s.find("\"kind\":\"") + 8; g_logs.back().kind = s.substr(p, s.find('"', p) - p);
		mons.push_back(m); }
	a.registerPluggableOM(std::make_shared<Truth>());
	if (r.chance(40)) { auto c = std::make_shared<GCollectiveMonitor>(); for (auto& m : mons) c->registerPluggableOM(m); if (r.chance(40)) a.registerPluggableOM(std::shared_ptr<GBasePluggableOM>(c->clone<GBasePluggableOM>())); else a.registerPluggableOM(c); } else for (auto& m : mons) a.registerPluggableOM(r.chance(30) ? std::shared_ptr<GBasePluggableOM>(m->clone<GBasePluggableOM>()) : m);
	a.registerPluggableOM(std::make_shared<Watch>());
	int rep = r.chance(70) ? 1 : r.range(2, 3); a.setReportIteration(rep); a.setMaxStallIteration(0); a.setMaxTime(std::chrono::duration<double>(0)); a.setNThreads(1); a.setEmitTerminationReason(false);
	List pl; for (auto& p : g_pars) pl.add("[" + std::to_string(p.name) + ",\"" + (p.type == 'd' ? "double" : p.type == 'i' ? "int32" : "bool") + "\"]");
	cfg(J().raw("pars", pl.str()).raw("logs", lc.str()).i("ncrit", ncrit).b("max", g_max));
	int runs = r.chance(60) ? 1 : 2;
	for (int k = 0; k < runs; k++) {
		a.registerExecutor(execMode::SERIAL, "./exec.json"); int off = r.chance(60) ? 0 : r.range(1, 5), n = r.range(1, 6); a.setMaxIteration(off + n); a.setMinIteration(0);
		usleep(3000); ev(J().t("e", "start").i("off", off)); a.optimize(off); }
	ev(J().t("e", "done")); }
int main(int argc, char** argv) {
	enter_dir();
	return run_all(argc, argv, [](int, uint64_t seed) {
		char d[] = "rXXXXXX"; if (!mkdtemp(d) || chdir(d)) exit(2);
		std::string here = d; (void)!symlink("/dev/null", "GENEVA-EXCEPTION.log"); (void)!freopen("/dev/null", "w", stdout);
		Rng r(seed); g_random = seed; Eval e; E = &e; e.r = Rng(r.next()); g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 3) : r.range(4, 40);
		e.ncrit = r.chance(60) ? 1 : r.range(2, 3); g_w.fit = [](Ind&) { std::vector<double> v; for (size_t k = 0; k < E->ncrit; k++) v.push_back(E->r.range(-E->span, E->span)); return v; };
		g_pars.clear(); g_logs.clear(); int np = r.range(1, 5); std::map<std::pair<int, char>, int> used;
		for (int k = 0; k < np; k++) { Par x{int(r.below(5)), "dib"[r.below(3)]}; if (used[{x.name, x.type}]++) continue; int c = r.chance(70) ? 1 : r.range(2, 3); for (int y = 0; y < c; y++) g_pars.push_back(x); } if (r.chance(85)) g_pars.push_back({5, 'i'});
		{ bool ad = false; for (auto& p : g_pars) ad = ad || p.type != 'd'; if (!ad) g_pars.push_back({6, 'i'}); }
		int par = r.range(1, 2), ds = 2 * par + r.range(0, 4);
		try {
			if (r.chance(75)) { GEvolutionaryAlgorithm a; a.setSortingScheme(e.ncrit > 1 ? sortingMode(r.range(3, 4)) : sortingMode(r.range(0, 2))); a.setPopulationSizes(ds, par); drive(a, r, ds, e.ncrit); }
			else { GSimulatedAnnealing a; a.setPopulationSizes(ds, par); drive(a, r, ds, e.ncrit); }
		} catch (gemfony_exception& x) { ev(J().t("e", "fail").t("what", std::string(x.what()).substr(0, 500))); }
		(void)!chdir(".."); std::error_code ec; std::filesystem::remove_all(std::filesystem::current_path() / here, ec);
	});
}
