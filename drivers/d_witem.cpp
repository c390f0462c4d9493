// W01: random histories on three work items (status changes, processing with planned outcomes, copies, serialisation).
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GCourtierEnums.hpp"
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/export.hpp>
#include <boost/exception/all.hpp>
#include "drv.hpp"
#include <map>
using namespace drv; using namespace Gem::Courtier; using Gem::Common::GSerializableFunctionObjectT;
struct bexc : virtual boost::exception, virtual std::exception { const char* what() const noexcept override { return "bexc"; } };
// plan of a step: 0 fine, 1 std exception, 2 boost exception, 3 int, 4 flags an error, 5 flags an error and throws, 6 gemfony exception
static int g_pre, g_proc, g_post, g_tag; static std::string g_log;
class WI : public GProcessingContainerT<WI, int> {
	friend class boost::serialization::access;
	template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GProcessingContainerT<WI, int>>(*this)) & BOOST_SERIALIZATION_NVP(content); }
public:
	int content = 0;
	WI() : GProcessingContainerT<WI, int>(2) {}
	WI(WI const&) = default; WI& operator=(WI const&) = default;
	void flag(std::string const& s) { this->force_set_error(s); }
	void act(int plan, const char* who) { g_log += who;
		if (plan == 4 || plan == 5) flag("flagged by user");
		if (plan == 1 || plan == 5) throw std::runtime_error("planned"); if (plan == 2) throw bexc(); if (plan == 3) throw 42; if (plan == 6) throw gemfony_exception("planned"); }
	void work(const char* who) { this->registerResult(0, g_tag * 2); this->registerResult(1, content); act(g_proc, who); }
	int raw(int i) { return this->modifyStoredResult(size_t(i)); }
private:
	void process_() override { work("M"); }
};
BOOST_CLASS_EXPORT(WI)
template <int W> class Fn : public GSerializableFunctionObjectT<WI> {
	friend class boost::serialization::access;
	template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<GSerializableFunctionObjectT<WI>>(*this)); }
	bool process_(WI& w) override { w.act(W == 0 ? g_pre : g_post, W == 0 ? "B" : "A"); return true; }
	void load_(const GSerializableFunctionObjectT<WI>*) override {}
	GSerializableFunctionObjectT<WI>* clone_() const override { return new Fn<W>(); }
	void compare_(GSerializableFunctionObjectT<WI> const&, Gem::Common::expectation const&, double const&) const override {}
	std::string name_() const override { return "Fn"; }
	bool modify_GUnitTests_() override { return false; } void specificTestsNoFailureExpected_GUnitTests_() override {} void specificTestsFailuresExpected_GUnitTests_() override {}
public: Fn() = default;
};
using Pre = Fn<0>; using Post = Fn<1>;
BOOST_CLASS_EXPORT(Pre)
BOOST_CLASS_EXPORT(Post)
static std::map<std::string, int> g_evals;
static int idx(std::map<std::string, int>& m, std::string const& s) { if (s == "empty") return 0; auto it = m.find(s); if (it != m.end()) return it->second; int n = int(m.size()) + 1; m[s] = n; return n; }
template <class O, class I> static std::unique_ptr<WI> rt(WI const& w) { std::stringstream s; { O o(s); WI const* p = &w; o << boost::serialization::make_nvp("w", p); } WI* q = nullptr; { I i(s); i >> boost::serialization::make_nvp("w", q); } return std::unique_ptr<WI>(q); }
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int, uint64_t seed) {
		Rng r(seed); const int N = 3; std::unique_ptr<WI> s[N]; for (auto& p : s) p = std::make_unique<WI>();
		cfg(J().i("n", N));
		auto told = [&](J& j, int k) { WI& w = *s[k]; auto t = w.getProcessingTimes();
			j.i("ps", int(w.getProcessingStatus())).t("str", w.getProcessingStatusAsStr()).b("p", w.is_processed()).b("i", w.is_ignored()).b("d", w.is_due_for_processing()).b("err", w.has_errors()).b("flg", w.error_flagged_by_user());
			std::string res = "["; for (int q = 0; q < 2; q++) { if (q) res += ','; try { res += std::to_string(w.getStoredResult(size_t(q))); } catch (gemfony_exception&) { res += "-7"; } } j.raw("res", res + "]");
			j.b("desc", !w.getStoredErrorDescriptions().empty()).i("eval", idx(g_evals, w.getCurrentEvaluationID())).b("tz", std::get<0>(t) == 0 && std::get<1>(t) == 0 && std::get<2>(t) == 0)
			 .i("it", (long long)w.getIterationCounter()).i("rs", (long long)w.getResubmissionCounter()).i("cp", (long long)w.getCollectionPosition()).i("buf", (long long)w.getBufferId())
			 .b("vpre", w.mayBePreProcessed()).b("vpost", w.mayBePostProcessed()).i("content", w.content).i("nres", (long long)w.getNStoredResults()); };
		int n = r.range(6, 40);
		for (int k = 0; k < n; k++) {
			int a = r.below(N), x = r.below(100); WI& w = *s[a]; J j; g_log.clear(); bool thrown = false; std::string kind = "none";
			if (x < 32) {
				auto pl = [&](int p) { return r.chance(p) ? 0 : r.range(1, 6); };
				g_pre = pl(80); g_proc = pl(65); g_post = pl(75); g_tag++; bool ext = r.chance(30); int ret = -7;
				j.t("e", "process").i("a", a).i("pre", g_pre).i("proc", g_proc).i("post", g_post).i("tag", g_tag).b("ext", ext);
				try { ret = ext ? w.process([](WI& v) { v.work("E"); }) : w.process(); } catch (g_processing_exception&) { kind = "proc"; } catch (gemfony_exception&) { kind = "state"; } catch (...) { kind = "other"; }
				j.t("kind", kind).t("log", g_log).i("ret", ret).i("raw", w.raw(0));
			} else if (x < 44) { int t = r.below(5); j.t("e", "set").i("a", a).i("to", t); try { w.set_processing_status(processingStatus(t)); } catch (gemfony_exception&) { thrown = true; } j.b("thrown", thrown); }
			else if (x < 54) { j.t("e", "due").i("a", a); w.mark_as_due_for_processing(); }
			else if (x < 57) { j.t("e", "ignore").i("a", a); w.mark_as_ignorable(); }
			else if (x < 61) { int m = r.chance(20) ? 1 : 2; g_tag++; j.t("e", "with").i("a", a).i("m", m).i("tag", g_tag); try { w.markAsProcessedWith(m == 2 ? std::vector<int>{g_tag * 2, 5} : std::vector<int>{g_tag * 2}); } catch (gemfony_exception&) { thrown = true; } j.b("thrown", thrown); }
			else if (x < 65) { bool em = r.chance(25); j.t("e", "flag").i("a", a).b("emptymsg", em); try { w.flag(em ? "" : "outside"); } catch (gemfony_exception&) { thrown = true; } j.b("thrown", thrown); }
			else if (x < 69) { int t = r.below(5); std::string d; j.t("e", "getclear").i("a", a).i("to", t); try { d = w.get_and_clear_exceptions(processingStatus(t)); } catch (gemfony_exception&) { thrown = true; } j.b("thrown", thrown).b("had", !d.empty()); }
			else if (x < 73) { w.content = r.below(50); j.t("e", "content").i("a", a); }
			else if (x < 77) { bool v = r.chance(50), pre = r.chance(50); if (pre) w.vetoPreProcessing(v); else w.vetoPostProcessing(v); j.t("e", "veto").i("a", a).b("pre", pre).b("v", v); }
			else if (x < 81) { bool pre = r.chance(50); if (pre) w.registerPreProcessor(std::make_shared<Pre>()); else w.registerPostProcessor(std::make_shared<Post>()); j.t("e", "register").i("a", a).b("pre", pre); }
			else if (x < 85) { w.setIterationCounter(r.below(9)); w.setResubmissionCounter(r.below(9)); w.setCollectionPosition(size_t(r.below(9))); w.setBufferId(BUFFERPORT_ID_TYPE(r.below(9))); j.t("e", "counters").i("a", a); }
			else { int b = r.below(N), how = r.below(6); if (b == a) b = (a + 1) % N; j.t("e", "copy").i("from", a).i("a", b).i("how", how);
				switch (how) { case 0: s[b] = std::make_unique<WI>(w); break; case 1: *s[b] = w; break; case 2: s[b]->load_pc(&w); s[b]->content = w.content; break;
					case 3: s[b] = rt<boost::archive::text_oarchive, boost::archive::text_iarchive>(w); break; case 4: s[b] = rt<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(w); break; default: s[b] = rt<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(w); }
				a = b; }
			told(j, a); ev(j);
		}
		ev(J().t("e", "end"));
	});
}
