// K01: checkpoints of all optimization algorithms: when they are written, what is on disk at each moment, what is loaded from
// them, and whether a resumed run continues like the object in memory would have continued.
#include "alg.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include <dlfcn.h>
#include <sys/resource.h>
#include <fstream>
#include <filesystem>
using namespace gi; namespace fs = std::filesystem; using Alg = G_OptimizationAlgorithm_Base; using AP = std::shared_ptr<Alg>;
struct Prot : Alg { static void nrec(Alg& a, size_t n) { (a.*&Prot::setNRecordBestIndividuals)(n); } static size_t nrec(Alg const& a) { return (a.*&Prot::getNRecordBestIndividuals)(); } static void size(Alg& a, size_t n) { (a.*&Prot::setDefaultPopulationSize)(n); } };
struct SwX : GSwarmAlgorithm { static auto& nb(GSwarmAlgorithm const& s) { return s.*&SwX::m_neighborhood_bests_cnt; } static auto& gb(GSwarmAlgorithm const& s) { return s.*&SwX::m_global_best_ptr; } };
struct GaX : GDoubleGaussAdaptor { static void reset(GDoubleGaussAdaptor& a) { (a.*&GaX::m_normal_distribution).reset(); } };
// forget the second half of a pair of gaussian random numbers
static void forget(std::shared_ptr<GParameterSet> const& p) { if (!p) return; auto i = ind(p); for (size_t k = 0; k < i->size(); k++) if (auto d = std::dynamic_pointer_cast<GConstrainedDoubleObject>(i->at(k))) if (d->hasAdaptor()) GaX::reset(*std::dynamic_pointer_cast<GDoubleGaussAdaptor>(d->getAdaptor()));
	try { if (auto q = std::dynamic_pointer_cast<GSwarmAlgorithm_PersonalityTraits>(i->getPersonalityTraits())) if (auto b = q->getPersonalBest()) forget(b); } catch (gemfony_exception&) {} }
static void forget(Alg& a) { for (auto& p : a) forget(p); if (auto* x = dynamic_cast<GSwarmAlgorithm*>(&a)) { for (auto& p : SwX::nb(*x)) forget(p); forget(SwX::gb(*x)); } }
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.9g", v); return b; }
static std::string digest(std::shared_ptr<GParameterSet> const& p) {
	if (!p) return "none"; auto i = ind(p); std::string s = "{" + std::to_string(i->tag) + "/" + std::to_string(i->old) + (i->is_processed() ? "+" + num(i->raw_fitness(0)) + "/" + num(i->transformed_fitness(0)) : std::string("-"));
	for (double v : i->values()) s += " " + num(v); std::vector<std::int32_t> n; i->streamline<std::int32_t>(n); for (auto v : n) s += " i" + std::to_string(v);
	for (size_t k = 0; k < i->size(); k++) if (auto d = std::dynamic_pointer_cast<GConstrainedDoubleObject>(i->at(k))) if (d->hasAdaptor()) { auto a = std::dynamic_pointer_cast<GDoubleGaussAdaptor>(d->getAdaptor()); s += " s" + num(a->getSigma()) + "," + num(a->getAdaptionProbability()) + "," + std::to_string(a->getAdaptionCounter()) + (d->adaptionsActive() ? "a" : "x"); }
	std::shared_ptr<GPersonalityTraits> t; try { t = i->getPersonalityTraits(); } catch (gemfony_exception&) {} s += t ? " " + i->getMnemonic() + t->name() : std::string(" -");
	if (auto q = std::dynamic_pointer_cast<GBaseParChildPersonalityTraits>(t)) s += " " + std::to_string(q->getParentCounter()) + "," + std::to_string(q->getPopulationPosition()) + "," + (q->parentIdSet() ? std::to_string(q->getParentId()) : std::string("?"));
	if (auto q = std::dynamic_pointer_cast<GSwarmAlgorithm_PersonalityTraits>(t)) { s += " " + std::to_string(q->getNeighborhood()); try { s += digest(q->getPersonalBest()); } catch (gemfony_exception&) {} }
	return s + "}"; }
template <class T> std::string tup(T const& t) { return num(std::get<0>(t)) + ":" + num(std::get<1>(t)); }
static std::string known(Alg const& a) { try { return tup(a.getBestKnownPrimaryFitness()); } catch (gemfony_exception&) { return "none"; } }
static std::string digest(Alg const& a, bool ids = true) {
	bool h = false; double qt = a.getQualityThreshold(h); std::string s = a.getAlgorithmPersonalityType() + " it" + std::to_string(a.getIteration()) + " pop";
	for (auto& p : a) s += digest(p);
	s += "\nglob"; try { for (auto& p : a.getBestGlobalIndividuals<GParameterSet>()) s += ids ? digest(p) : num(p->raw_fitness(0)) + " "; } catch (gemfony_exception&) { s += " none"; }
	s += "\nset " + std::to_string(a.getMaxIteration()) + "," + std::to_string(a.getMinIteration()) + "," + std::to_string(a.getMaxStallIteration()) + "," + std::to_string(a.getStallCounterThreshold()) + "," + std::to_string(a.getDefaultPopulationSize()) + "," + std::to_string(Prot::nrec(a)) + "," + std::to_string(a.getCheckpointInterval()) + "," + a.getCheckpointBaseName() + "," + a.getCheckpointDirectory() + "," + std::to_string(a.checkpointFilesAreRemoved()) + "," + std::to_string(a.getReportIteration()) + "," + num(qt) + std::to_string(h) + "," + num(a.getMaxTime().count()) + "," + num(a.getMinTime().count()) + " " + known(a) + " " + tup(a.getBestCurrentPrimaryFitness()) + " stall" + std::to_string(a.getStallCounter());
	if (auto* x = dynamic_cast<GSimulatedAnnealing const*>(&a)) s += " T" + num(x->getT()) + "," + num(x->getT0()) + "," + num(x->getTDegradationStrength());
	if (auto* x = dynamic_cast<GEvolutionaryAlgorithm const*>(&a)) s += " M" + std::to_string(int(x->getSortingScheme()));
	if (auto* x = dynamic_cast<G_OptimizationAlgorithm_ParChild const*>(&a)) s += " P" + std::to_string(x->getNParents()) + "," + std::to_string(x->getNChildren()) + "," + std::to_string(x->getGrowthRate()) + "," + std::to_string(x->getMaxPopulationSize()) + "," + num(x->getAmalgamationLikelihood()) + "," + std::to_string(int(x->getRecombinationMethod()));
	if (auto* x = dynamic_cast<GSwarmAlgorithm const*>(&a)) { s += " S" + std::to_string(x->getNNeighborhoods()) + "," + std::to_string(x->getDefaultNNeighborhoodMembers()) + "," + num(x->getCPersonal()) + "," + num(x->getCNeighborhood()) + "," + num(x->getCGlobal()) + "," + num(x->getCVelocity()) + "," + num(x->getVelocityRangePercentage()) + "," + std::to_string(x->getRepulsionThreshold()) + "," + std::to_string(int(x->getUpdateRule())) + std::to_string(x->neighborhoodsFilledUpRandomly()); for (size_t n = 0; n < x->getNNeighborhoods(); n++) { s += "," + std::to_string(x->getCurrentNNeighborhoodMembers(n)); s += digest(SwX::nb(*x).at(n)); } s += digest(SwX::gb(*x)); }
	if (auto* x = dynamic_cast<GGradientDescent const*>(&a)) s += " G" + std::to_string(x->getNStartingPoints()) + "," + num(x->getFiniteStep()) + "," + num(x->getStepSize());
	if (auto* x = dynamic_cast<GParameterScan const*>(&a)) s += " R" + std::to_string(x->getScanRandomly());
	return s; }
// states and files are numbered in the order of their appearance
static std::map<std::string, int> g_ids, g_names; static std::map<std::string, int> g_content; static bool g_watch = false; static Alg* g_alg = nullptr; static Gem::Common::serializationMode g_mode;
static std::function<AP()> g_make; static std::map<int, AP> g_clones; static int g_saves = 0, g_full_at = 0; static bool g_ready = false; static const char* CP = "cp";
static int id(std::map<std::string, int>& m, std::string const& d) { auto it = m.find(d); if (it != m.end()) return it->second; int n = int(m.size()) + 1; m[d] = n; return n; }
static std::string slurp(fs::path const& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static AP load(fs::path const& p) { auto a = g_make(); a->setCheckpointSerializationMode(g_mode); a->loadCheckpoint(p); return a; }
static int content(fs::path const& p) { std::string c = slurp(p); auto it = g_content.find(c); if (it != g_content.end()) return it->second; int n = 0; try { n = id(g_ids, digest(*load(p))); } catch (std::exception&) {} return g_content[c] = n; }
static bool is_cp(std::string const& n) { return n.compare(0, 11, "checkpoint-") == 0 && n.size() > 5 && n.compare(n.size() - 5, 5, "-b.cp") == 0; }
static std::string disk() { std::map<int, int> m; for (auto& e : fs::directory_iterator(CP)) { std::string n = e.path().filename(); if (is_cp(n)) m[id(g_names, n)] = content(e.path()); }
	std::string s = "["; for (auto& x : m) { if (s.size() > 1) s += ','; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; } return s + "]"; }
static bool ours(const char* p) { if (!g_ready || !g_watch || !p) return false; auto q = fs::path(p); return q.parent_path().filename() == CP; }
struct Quiet { bool w = g_watch; Quiet() { g_watch = false; } ~Quiet() { g_watch = w; } };
static long g_size = 700;
static void limit(bool on) { rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = on ? g_size : l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
static FILE* opened(const char* p, const char* m, const char* which) {
	static auto f1 = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); static auto f2 = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"); auto f = which[5] ? f2 : f1;
	if (!strchr(m, 'w') || !ours(p)) return f(p, m);
	{ Quiet q; std::string d = digest(*g_alg); int st = id(g_ids, d); g_saves++; Gem::Hap::g_const = true; std::shared_ptr<GObject> c = g_alg->clone(); Gem::Hap::g_const = false; auto k = std::dynamic_pointer_cast<Alg>(c); g_clones[st] = k;
	  ev(J().t("e", "save").i("st", st).i("it", g_alg->getIteration()).b("copy", digest(*k) == d)); if (g_full_at == g_saves) { ev(J().t("e", "full")); limit(true); } }
	FILE* r = f(p, m); { Quiet q; ev(J().t("e", "fs").t("op", "open").raw("disk", disk())); } return r; }
template <class F> int changed(const char* op, const char* p, F f) { if (!ours(p)) return f(); int r; { r = f(); } Quiet q; ev(J().t("e", "fs").t("op", op).raw("disk", disk())); return r; }
extern "C" {
FILE* fopen(const char* p, const char* m) { return opened(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return opened(p, m, "fopen64"); }
int remove(const char* p) { static auto f = (int (*)(const char*)) dlsym(RTLD_NEXT, "remove"); return changed("remove", p, [&] { return f(p); }); }
int unlink(const char* p) { static auto f = (int (*)(const char*)) dlsym(RTLD_NEXT, "unlink"); return changed("unlink", p, [&] { return f(p); }); }
int rename(const char* o, const char* p) { static auto f = (int (*)(const char*, const char*)) dlsym(RTLD_NEXT, "rename"); return changed("rename", p, [&] { return f(o, p); }); }
}
static std::string* g_path = nullptr;   // the course of a continued run, if it is recorded
static double g_point(Ind& p) { double s = 0; for (double v : p.values()) s += v; return s; }
class Mon : public GBasePluggableOM {
	friend class boost::serialization::access; template <class A> void serialize(A& ar, const unsigned int) { using boost::serialization::make_nvp; ar & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GBasePluggableOM); }
public:
	std::string name_() const override { return "Mon"; } GObject* clone_() const override { return new Mon(*this); }
	void load_(const GObject* p) override { GBasePluggableOM::load_(p); }
	void informationFunction_(infoMode m, Alg const* const a) override {
		if (m != infoMode::INFOPROCESSING) return;
		auto g = a->getBestGlobalIndividuals<GParameterSet>();
		if (g_path) { Quiet q; *g_path += digest(*a, false) + "\n"; ev(J().t("e", "rcyc").i("it", a->getIteration()).raw("glob", lists(g)).i("lt", dynamic_cast<GSimulatedAnnealing const*>(a) ? long(std::floor(std::log(dynamic_cast<GSimulatedAnnealing const*>(a)->getT()) * 1e6 + 0.5)) : 0)); return; }
		Quiet q; std::string pop = "["; for (auto& p : *a) { if (pop.size() > 1) pop += ','; pop += std::to_string(tag(p)); }
		ev(J().t("e", "cyc").i("it", a->getIteration()).i("kc", mo(std::get<1>(a->getBestCurrentPrimaryFitness()))).raw("disk", disk()).raw("glob", lists(g)).raw("pop", pop + "]").i("lt", dynamic_cast<GSimulatedAnnealing const*>(a) ? long(std::floor(std::log(dynamic_cast<GSimulatedAnnealing const*>(a)->getT()) * 1e6 + 0.5)) : 0)); } };
BOOST_CLASS_EXPORT(Mon)
int main(int argc, char** argv) {
	enter_dir(); signal(SIGXFSZ, SIG_IGN);
	return run_all(argc, argv, [](int, uint64_t seed) {
		fs::remove_all(CP); fs::create_directory(CP); g_ready = true;
		Rng r(seed); g_random = seed; { double u = (r.chance(50) ? r.range(20, 42) : r.range(58, 84)) / 100.; Gem::Hap::g_value = uint32_t(u * 4294967295.); } Eval e; E = &e; e.r = Rng(r.next()); g_max = r.chance(50); e.span = r.chance(50) ? r.range(1, 3) : r.range(4, 40);
		g_w.fit = [](Ind& p) { double v = E->r.range(-E->span, E->span); if (g_path) { *g_path += "eval " + std::to_string(p.tag) + "<" + std::to_string(p.old); for (double x : p.values()) *g_path += " " + num(x); *g_path += "\n"; ev(J().t("e", "reval").i("id", p.tag).i("old", p.old).i("f", mo(v)).t("v", num(g_point(p)))); } else ev(J().t("e", "eval").i("id", p.tag).i("f", mo(v)).t("v", num(g_point(p)))); return std::vector<double>{v}; };
		int alg = r.below(5), np = r.range(1, 3), ds = 2 * np + r.range(0, 4), mode = r.below(3), nn = r.range(1, 3), mem = r.range(2, 3), dims = alg == 4 ? 1 : r.range(1, 2), steps = r.range(2, 12); bool rnd = alg == 4 && r.chance(20); double t0 = r.range(1, 20), al = .5 + r.below(5) / 10.;
		g_make = [=]() -> AP { switch (alg) {
			case 0: { auto a = std::make_shared<GEvolutionaryAlgorithm>(); return a; } case 1: return std::make_shared<GSimulatedAnnealing>(); case 2: return std::make_shared<GSwarmAlgorithm>(); case 3: return std::make_shared<GGradientDescent>(); default: return std::make_shared<GParameterScan>(); } };
		AP a = g_make(); g_alg = a.get();
		if (auto x = std::dynamic_pointer_cast<GEvolutionaryAlgorithm>(a)) { x->setSortingScheme(sortingMode(mode)); x->setPopulationSizes(ds, np); if (r.chance(30)) x->setPopulationGrowth(r.range(1, 2), ds + r.range(0, 5)); if (r.chance(30)) x->setAmalgamationLikelihood(.5); }
		if (auto x = std::dynamic_pointer_cast<GSimulatedAnnealing>(a)) { x->setPopulationSizes(ds, np); x->setT0(t0); x->setTDegradationStrength(al); }
		if (auto x = std::dynamic_pointer_cast<GSwarmAlgorithm>(a)) { x->setSwarmSizes(nn, mem); x->setCVelocity(r.below(3) / 2.); x->setUpdateRule(r.chance(50) ? updateRule::SWARM_UPDATERULE_CLASSIC : updateRule::SWARM_UPDATERULE_LINEAR); if (r.chance(30)) x->setRepulsionThreshold(r.range(1, 2)); }
		if (auto x = std::dynamic_pointer_cast<GGradientDescent>(a)) { x->setNStartingPoints(np); x->setFiniteStep(62.5); x->setStepSize(r.chance(50) ? 62.5 : 31.25); }
		int batch = r.range(1, 4);
		if (auto x = std::dynamic_pointer_cast<GParameterScan>(a)) { x->setScanRandomly(rnd); char b[80]; snprintf(b, 80, "d(0, -8., 8., %d)", steps); x->setParameterSpecs(b); Prot::size(*a, batch); }
		auto make = [&] { auto p = std::make_shared<Ind>(1); for (int k = 0; k < dims; k++) { auto d = std::make_shared<GConstrainedDoubleObject>(-8., 8.); auto g = std::make_shared<GDoubleGaussAdaptor>(0.1, 0.8, 0., 1.); g->setAdaptionProbability(.9); g->setAdaptionThreshold(r.range(0, 2)); d->setValue(r.range(-7, 7)); d->addAdaptor(g); p->push_back(d); }
			auto n = std::make_shared<GInt32Object>(r.range(-5, 5)); n->addAdaptor(std::make_shared<GInt32FlipAdaptor>(.05)); p->push_back(n);
			p->setMaxMode(g_max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->mark_as_due_for_processing(); return p; };
		int n0 = alg == 4 ? 1 : r.range(1, 3); for (int k = 0; k < n0; k++) a->push_back(make());
		static const int ivs[] = {-1, 0, 1, 1, 2, 3, 9}; int iv = ivs[r.below(7)], nrec = r.range(1, 4), runs = r.chance(65) ? 1 : 2; bool rem = r.chance(50); g_mode = Gem::Common::serializationMode(r.below(3)); if (r.chance(20)) g_full_at = r.range(1, 4); static const long sizes[] = {0, 700, 5000, 9000, 12000, 20000, 40000, 80000}; g_size = sizes[r.below(8)];
		a->setCheckpointInterval(iv); a->setCheckpointBaseName("./cp", "b.cp"); a->setRemoveCheckpointFiles(rem); a->setCheckpointSerializationMode(g_mode);
		a->setReportIteration(1); a->registerPluggableOM(std::make_shared<Mon>()); a->setMaxStallIteration(0); a->setMaxTime(std::chrono::duration<double>(0)); a->setEmitTerminationReason(false); a->setStallCounterThreshold(r.range(0, 3)); Prot::nrec(*a, nrec);
		cfg(J().t("alg", std::vector<std::string>{"ea", "sa", "sw", "gd", "ps"}[alg]).i("iv", iv).b("rem", rem).i("mode", int(g_mode)).i("np", np).i("steps", steps).b("rnd", rnd).i("nrec", nrec).i("lal", std::floor(std::log(al) * 1e6 + .5)).b("max", g_max));
		// a checkpoint of another algorithm is refused
		if (r.chance(20)) { std::string other = std::string("./cp/checkpoint-PERSONALITY_") + (alg == 0 ? "SA" : "EA") + "-3-1-x"; auto q = alg == 0 ? AP(std::make_shared<GSimulatedAnnealing>()) : AP(std::make_shared<GEvolutionaryAlgorithm>()); q->toFile(other, g_mode); std::string d = digest(*a); bool threw = false; try { a->loadCheckpoint(other); } catch (gemfony_exception&) { threw = true; } ev(J().t("e", "refuse").b("threw", threw).b("same", digest(*a) == d)); fs::remove(other); }
		for (int k = 0; k < runs; k++) {
			a->registerExecutor(execMode::SERIAL, "./exec.json"); int off = r.chance(60) ? 0 : r.range(1, 5), n = r.range(1, 7); a->setMaxIteration(off + n); a->setMinIteration(0);
			ev(J().t("e", "start").i("off", off).i("n", n)); bool failed = false;
			g_watch = true; try { a->optimize(off); } catch (std::exception& x) { failed = true; g_watch = false; limit(false); ev(J().t("e", "fail").t("what", std::string(x.what()).substr(0, 300)).raw("disk", disk())); } g_watch = false; limit(false);
			if (failed) break;
			ev(J().t("e", "ret").i("it", a->getIteration()).raw("disk", disk()));
		}
		// resume
		std::vector<fs::path> fl; for (auto& f : fs::directory_iterator(CP)) if (is_cp(f.path().filename())) fl.push_back(f.path()); std::sort(fl.begin(), fl.end());
		if (!fl.empty()) { auto f = fl[r.below(fl.size())]; Gem::Hap::g_const = true; AP b = g_make(); b->setCheckpointSerializationMode(g_mode); if (r.chance(50)) b->push_back(make()); if (r.chance(50)) { b->setMaxIteration(77); b->setCheckpointInterval(5); }
			bool ok = true; try { b->loadCheckpoint(f); } catch (std::exception& x) { ok = false; ev(J().t("e", "noload").t("what", std::string(x.what()).substr(0, 300)).i("name", id(g_names, f.filename()))); }
			if (ok) { int st = id(g_ids, digest(*b)), it = b->getIteration(); ev(J().t("e", "load").i("name", id(g_names, f.filename())).i("st", st).i("it", it));
				if (AP c = g_clones[st]) { int m = r.range(1, 4); std::string path[2], threw; long ev0 = g_w.evals; Rng r0 = E->r;
					for (int w = 0; w < 2; w++) { AP x = w ? b : c; g_path = &path[w]; g_w.evals = ev0 + 1000; E->r = r0; 
						forget(*x); x->setCheckpointInterval(0); x->resetPluggableOM(); x->registerPluggableOM(std::make_shared<Mon>()); x->registerExecutor(execMode::SERIAL, "./exec.json"); x->setMaxIteration(alg == 4 ? 0 : it + 1 + m);
						std::string keep = g_events; try { x->optimize(it + 1); } catch (std::exception& y) { *g_path += std::string("threw ") + y.what(); threw = std::string(y.what()).substr(0, 300); } if (!w) g_events = keep; }
					g_path = nullptr; ev(J().t("e", "cont").i("it", b->getIteration()).i("m", m).b("equal", path[0] == path[1]).t("threw", threw)); if (path[0] != path[1] && getenv("DRV_VERBOSE")) fprintf(stderr, "memory:\n%s\nfile:\n%s\n", path[0].c_str(), path[1].c_str()); }
				else ev(J().t("e", "unknown").t("d", getenv("DRV_VERBOSE") ? digest(*b) : "")); } }
		if (getenv("DRV_VERBOSE")) for (auto& x : g_ids) fprintf(stderr, "%d: %s\n", x.second, x.first.c_str());
		g_ready = false; ev(J().t("e", "end"));
	});
}
