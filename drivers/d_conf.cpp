// F01: configuration files and the command line, read and written through GParserBuilder.
#include "common/GParserBuilder.hpp"
#include "drv.hpp"
#include <array>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <thread>
using namespace drv; using namespace Gem::Common; namespace pt = boost::property_tree; namespace fs = std::filesystem;
using S = std::vector<std::string>;
static std::string js(S const& v) { std::string o = "["; for (auto const& x : v) o += (o.size() > 1 ? "," : "") + q(x); return o + "]"; }
static std::string ja(S const& v) { std::string o = "["; for (auto const& x : v) o += (o.size() > 1 ? "," : "") + x; return o + "]"; }   // of JSON texts
// ---------------------------------------------------------------- values
template <class T> struct Ty;
template <> struct Ty<int> { static std::string s(int v) { return std::to_string(v); } static int rnd(Rng& r) { return r.range(-3, 3) * (r.chance(20) ? 536870912 : 1); } static int none() { return -77777; } static std::string text(int v) { return std::to_string(v); } };
template <> struct Ty<double> { static std::string s(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; } static double rnd(Rng& r) { double d = r.range(-5, 5) / 3.0; return r.chance(30) ? d * 1e200 : r.chance(30) ? d * 1e-200 : d; } static double none() { return -7.7e77; } static std::string text(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; } };
template <> struct Ty<bool> { static std::string s(bool v) { return v ? "true" : "false"; } static bool rnd(Rng& r) { return r.chance(50); } static bool none() { return false; } static std::string text(bool v) { return v ? "true" : "false"; } };
template <> struct Ty<std::string> { static std::string s(std::string const& v) { return v; } static std::string rnd(Rng& r) { static const char* w[] = {"a", "b c", "x;y", "p/q", "1.5", "{z}", "k:v"}; return w[r.below(7)]; } static std::string none() { return "~"; } static std::string text(std::string const& v) { return v; } };
template <class T> std::string jtext(T const& v) { return q(Ty<T>::text(v)); }
// ---------------------------------------------------------------- options
// one option of a builder; values are lists of canonical texts
struct Slot { std::string s; S v; };   // s: ok, miss, bad
struct Opt {
	std::string name, kind; bool ess = true, streamed = false; std::vector<S> com; std::vector<std::string> comtext; S def; bool list = false;
	virtual ~Opt() = default;
	virtual void reg(GParserBuilder& b, struct Sink& k) = 0; virtual S pick(Rng& r) = 0; virtual void reset(GParserBuilder& b, S const& v) = 0;
	virtual std::vector<std::string> paths() const { return {name}; }
	virtual Slot look(pt::ptree const& t, size_t slot, const char* key) const = 0; virtual std::string file_text(std::string const& canon, size_t slot) const = 0;
	std::vector<std::string> cpaths() const { auto p = paths(); if (kind == "comb") return p; return {name}; } };
struct Sink { std::vector<std::unique_ptr<S>> seen; std::vector<int> calls; std::vector<std::function<void()>> arm, fetch; };   // what reached the user of one builder
template <class T> S canon(std::vector<T> const& v) { S o; for (auto const& x : v) { T y = x; o.push_back(Ty<T>::s(y)); } return o; }
template <class T> std::map<std::string, T>& pool() { static std::map<std::string, T> m; return m; }
template <class T> T back(std::string const& c) { return pool<T>().at(c); }
template <class T> std::string one(Rng& r) { T v = Ty<T>::rnd(r); auto c = Ty<T>::s(v); pool<T>()[c] = v; return c; }
template <class T> std::vector<T> backs(S const& c) { std::vector<T> o; for (auto const& x : c) o.push_back(back<T>(x)); return o; }
template <class T> Slot look1(pt::ptree const& t, std::string const& path) { auto n = t.get_child_optional(path); if (!n) return {"miss", {}}; auto v = n->get_value_optional<T>(); if (!v) return {"bad", {}}; return {"ok", {Ty<T>::s(*v)}}; }
static void stream(GParsableI& p, Opt& o) { if (!o.streamed) return; for (size_t i = 0; i < o.comtext.size(); i++) { if (i) p << nextComment(); p << o.comtext[i]; } }
template <class T> struct OptT : Opt {
	static constexpr size_t N = 3;
	static std::array<T, N> arr(S const& c) { auto v = backs<T>(c); std::array<T, N> a; for (size_t i = 0; i < N; i++) a[i] = v[i]; return a; }
	std::vector<std::string> paths() const override { if (kind == "comb") return {"lab." + name, "lab." + name + "x"}; if (kind == "arr" || kind == "arrref") return {name + ".0", name + ".1", name + ".2"}; return {name}; }
	S pick(Rng& r) override { S o; size_t n = list ? size_t(r.range(1, 3)) : kind == "comb" ? 2 : (kind == "arr" || kind == "arrref") ? N : 1; for (size_t i = 0; i < n; i++) o.push_back(kind == "comb" && i ? one<std::string>(r) : one<T>(r)); return o; }
	std::string file_text(std::string const& c, size_t slot) const override { if (kind == "comb" && slot) return q(c); return jtext<T>(back<T>(c)); }
	Slot look(pt::ptree const& t, size_t slot, const char* key) const override {
		std::string p = paths()[slot] + "." + key;
		if (list) { auto n = t.get_child_optional(p); if (!n) return {"miss", {}}; Slot s{"ok", {}}; for (auto const& c : *n) { auto v = c.second.get_value_optional<T>(); if (!v) return {"bad", {}}; s.v.push_back(Ty<T>::s(*v)); } return s; }
		if (kind == "comb" && slot) return look1<std::string>(t, p);
		return look1<T>(t, p); }
	void reset(GParserBuilder& b, S const& v) override {
		if (list) b.resetFileParameterDefaults<T>(name, backs<T>(v)); else if (kind == "comb") b.resetFileParameterDefaults<T, std::string>(name, back<T>(v[0]), v[1]);
		else if (kind == "arr" || kind == "arrref") b.resetFileParameterDefaults<T, N>(name, arr(v)); else b.resetFileParameterDefaults<T>(name, back<T>(v[0])); }
	void reg(GParserBuilder& b, Sink& k) override {
		size_t me = k.seen.size(); k.seen.emplace_back(); k.calls.push_back(0); k.arm.push_back([&k, me] { k.seen[me].reset(); k.calls[me] = 0; }); k.fetch.push_back([] {});
		auto got = [&k, me](S const& v) { k.seen[me] = std::make_unique<S>(v); k.calls[me]++; };
		std::string c0 = streamed ? "" : comtext[0];
		if (kind == "single") stream(b.registerFileParameter<T>(name, back<T>(def[0]), [got](T v) { got(canon<T>({v})); }, ess, c0), *this);
		else if (kind == "comb") { std::string c1 = streamed ? "" : comtext[1]; stream(b.registerFileParameter<T, std::string>(name, name + "x", back<T>(def[0]), def[1], [got](T v, std::string w) { S o = canon<T>({v}); o.push_back(w); got(o); }, "lab", ess, c0, c1), *this); }
		else if (kind == "vec") stream(b.registerFileParameter<T>(name, backs<T>(def), [got](std::vector<T> v) { got(canon<T>(v)); }, ess, c0), *this);
		else if (kind == "arr") stream(b.registerFileParameter<T, N>(name, arr(def), [got](std::array<T, N> v) { got(canon<T>(std::vector<T>(v.begin(), v.end()))); }, ess, c0), *this);
		else if (kind == "vecref") { auto x = std::make_shared<std::vector<T>>(); stream(b.registerFileParameter<T>(name, *x, backs<T>(def), ess, c0), *this); k.arm[me] = [&k, me, x] { k.seen[me].reset(); k.calls[me] = 0; x->assign(9, Ty<T>::none()); }; k.fetch[me] = [x, got] { if (x->size() != 9) got(canon<T>(*x)); }; }
		else if constexpr (!std::is_same_v<T, bool>) {
			if (kind == "ref") { auto x = std::make_shared<T>(); stream(b.registerFileParameter<T>(name, *x, back<T>(def[0]), ess, c0), *this); k.arm[me] = [&k, me, x] { k.seen[me].reset(); k.calls[me] = 0; *x = Ty<T>::none(); }; k.fetch[me] = [x, got] { if (*x != Ty<T>::none()) got(canon<T>({*x})); }; }
			else { auto x = std::make_shared<std::array<T, N>>(); stream(b.registerFileParameter<T, N>(name, *x, arr(def), ess, c0), *this); k.arm[me] = [&k, me, x] { k.seen[me].reset(); k.calls[me] = 0; x->fill(Ty<T>::none()); }; k.fetch[me] = [x, got] { if ((*x)[0] != Ty<T>::none() || (*x)[2] != Ty<T>::none()) got(canon<T>(std::vector<T>(x->begin(), x->end()))); }; }
		}
	}
};
static std::vector<std::unique_ptr<Opt>> g_opts;
struct Builder { std::unique_ptr<GParserBuilder> b; Sink k; };
struct File { std::string path; bool ext = true, dir = true; };
static std::string slots_json(Slot const& s, bool list) { return "[" + q(s.s) + "," + (list ? js(s.v) : q(s.s == "ok" ? s.v[0] : "")) + "]"; }
static S com_of(pt::ptree const& t, std::string const& p) { S o; auto n = t.get_child_optional(p); if (!n) return o; for (auto const& c : *n) if (c.first == "comment") o.push_back(c.second.data()); return o; }
static void look(int f, File const& file, std::string const& base) {
	J j; j.t("e", "look").i("f", f); fs::path p = base.empty() ? fs::path(file.path) : fs::path(base) / file.path;
	if (!fs::exists(p)) { ev(j.t("kind", "absent")); return; }
	if (fs::is_directory(p)) { ev(j.t("kind", "dir")); return; }
	pt::ptree t; try { std::ifstream i(p); pt::read_json(i, t); } catch (...) { ev(j.t("kind", "broken")); return; }
	S val, def, com;
	for (auto const& o : g_opts) {
		S v, d, c; size_t n = o->paths().size();
		for (size_t i = 0; i < n; i++) { v.push_back(slots_json(o->look(t, i, "value"), o->list)); Slot s = o->look(t, i, "default"); if (o->list) { for (auto const& x : s.v) d.push_back(q(x)); } else if (s.s != "miss") d.push_back(q(s.s == "ok" ? s.v[0] : "bad")); }
		for (auto const& cp : o->cpaths()) c.push_back(js(com_of(t, cp)));
		val.push_back(ja(v)); def.push_back(ja(d)); com.push_back(ja(c));
	}
	S h = com_of(t, "header"); if (!h.empty()) h.pop_back();   // the last one is the time
	ev(j.t("kind", "ok").raw("val", ja(val)).raw("def", ja(def)).raw("com", ja(com)).raw("hdr", js(h)));
}
template <class T> static std::unique_ptr<Opt> mk() { return std::make_unique<OptT<T>>(); }
// ---------------------------------------------------------------- command line
template <class T> struct Cl { std::string name; T var{}, def, impl; bool imp; };
static void command_line(Rng& r) {
	GParserBuilder b; int n = r.range(1, 4); std::vector<std::function<std::string()>> get; S defs, impls, args; std::vector<std::string> argv{"prog"}; S use; bool bad = false, help = r.chance(15); std::vector<int> impf;
	std::vector<std::shared_ptr<void>> keep;
	auto add = [&](auto tag) {
		using T = decltype(tag); auto c = std::make_shared<Cl<T>>(); keep.push_back(c); c->name = "opt" + std::to_string(get.size()); c->def = Ty<T>::rnd(r); c->impl = Ty<T>::rnd(r); c->imp = r.chance(40);
		auto& p = b.registerCLParameter<T>(c->name, c->var, c->def, r.chance(50) ? "text" : "", c->imp, c->impl); p << " more";
		get.push_back([c] { return Ty<T>::s(c->var); }); defs.push_back(Ty<T>::s(c->def)); impls.push_back(Ty<T>::s(c->impl)); impf.push_back(c->imp);
		int how = r.below(10);   // 0..2 absent, 3..4 bare, else with a value
		T v = Ty<T>::rnd(r);
		if (how <= 2) use.push_back("[\"none\",\"\"]");
		else if (how <= 4 && c->imp) { argv.push_back("--" + c->name); use.push_back("[\"bare\",\"\"]"); }
		else { if (c->imp || r.chance(50)) argv.push_back("--" + c->name + "=" + Ty<T>::text(v)); else { argv.push_back("--" + c->name); argv.push_back(Ty<T>::text(v)); } use.push_back("[\"val\"," + q(Ty<T>::s(v)) + "]"); }
	};
	for (int i = 0; i < n; i++) { switch (r.below(4)) { case 0: add(int()); break; case 1: add(double()); break; case 2: add(bool()); break; default: add(std::string()); } }
	if (help) argv.insert(argv.begin() + 1 , r.chance(50) ? "--help" : "-h");
	int w = r.below(12);
	if (w == 0) { argv.push_back("--unknown=1"); bad = true; } else if (w == 1) { argv.push_back("--opt0=1"); argv.push_back("--opt0=1"); bad = true; }
	std::string im = "["; for (size_t i = 0; i < impf.size(); i++) im += std::string(i ? "," : "") + (impf[i] ? "true" : "false"); im += "]";
	ev(J().t("e", "cl").raw("def", js(defs)).raw("impl", js(impls)).raw("use", ja(use)).b("help", help).b("bad", bad).i("n", (long long)b.numberOfCLOptions()));
	std::vector<char*> av; for (auto& a : argv) av.push_back(a.data()); av.push_back(nullptr);
	bool ret = b.parseCommandLine(int(argv.size()), av.data(), r.chance(50));
	S res; for (auto& g : get) res.push_back(g());
	ev(J().t("e", "clret").b("help", ret).raw("res", js(res)));
}
static void scenario(int, uint64_t seed) {
	Rng r(seed);
	vs::set_end_handler([](std::string const& h, std::string const& d) { finish(h, d); });
	char d[] = "pXXXXXX"; if (!mkdtemp(d) || chdir(d)) exit(2); (void)!symlink("/dev/null", "GENEVA-EXCEPTION.log"); mkdir("sub", 0755); mkdir("base", 0755); mkdir("base/sub", 0755);
	g_opts.clear();
	std::string base; int bw = r.below(8); if (bw == 0) base = "base"; if (bw == 1) base = "nobase"; if (base.empty()) unsetenv("GENEVA_CONFIG_BASENAME"); else setenv("GENEVA_CONFIG_BASENAME", base.c_str(), 1);
	int no = r.chance(5) ? 0 : r.range(1, 5); bool withlists = r.chance(60); static const char* words[] = {"alpha", "beta two", "gamma", "delta: x"};
	std::string oj;
	for (int i = 0; i < no; i++) {
		static const char* ks[] = {"single", "ref", "comb", "arr", "arrref", "vec", "vecref"}; std::string kind = ks[r.below(withlists ? 7 : 5)]; int t = r.below(4); if (t == 2 && (kind == "ref" || kind == "arrref")) t = 0;
		auto o = t == 0 ? mk<int>() : t == 1 ? mk<double>() : t == 2 ? mk<bool>() : mk<std::string>();
		o->name = "o" + std::to_string(i); o->kind = kind; o->list = kind == "vec" || kind == "vecref"; o->ess = r.chance(60); o->streamed = r.chance(50); o->def = o->pick(r);
		S cj; for (int c = 0; c < (kind == "comb" ? 2 : 1); c++) { S ls; std::string tx; int nl = r.below(4); for (int k = 0; k < nl; k++) { std::string w = words[r.below(4)]; if (k) tx += r.chance(50) ? ";" : "\n"; tx += w; ls.push_back(w); } if (nl && r.chance(30)) tx += ";"; o->com.push_back(ls); o->comtext.push_back(tx); cj.push_back(js(ls)); }
		oj += std::string(i ? "," : "") + J().b("list", o->list).b("ess", o->ess).b("cb", kind == "single" || kind == "comb" || kind == "vec" || kind == "arr").t("kind", kind).i("ty", t).i("slots", (long long)o->paths().size()).raw("com", ja(cj)).raw("def", js(o->def)).str();
		g_opts.push_back(std::move(o));
	}
	int nf = r.range(1, 3); std::vector<File> files; std::string fj;
	for (int i = 0; i < nf; i++) { File f; f.path = "f" + std::to_string(i); int w = r.below(10); if (w == 0) { f.path += r.chance(50) ? ".xml" : ""; f.ext = false; } else f.path += ".json"; int p = r.below(6); if (p == 0) { f.path = "nodir/" + f.path; f.dir = false; } else if (p <= 2) f.path = "sub/" + f.path; else if (p == 3) f.path = "./" + f.path; if (base == "nobase") f.dir = false; files.push_back(f); fj += std::string(i ? "," : "") + J().b("ext", f.ext).b("dir", f.dir).str(); }
	int nb = r.range(1, 3);
	cfg(J().raw("opts", "[" + oj + "]").raw("files", "[" + fj + "]").i("nb", nb).b("base", base != "nobase"));
	vs::start(sched_config(r));
	std::vector<std::unique_ptr<Builder>> bs;
	for (int b = 0; b < nb; b++) { auto x = std::make_unique<Builder>(); x->b = std::make_unique<GParserBuilder>(); for (auto& o : g_opts) o->reg(*x->b, x->k); ev(J().t("e", "made").i("b", b + 1).i("n", (long long)x->b->numberOfFileOptions())); bs.push_back(std::move(x)); }
	auto full = [&](File const& f) { return base.empty() ? fs::path(f.path) : fs::path(base) / f.path; };
	auto parse = [&](int b, int f) {
		auto& B = *bs[b]; for (auto& a : B.k.arm) a();
		ev(J().t("e", "pcall").i("b", b + 1).i("f", f + 1));
		bool ok = B.b->parseConfigFile(files[f].path);
		for (auto& a : B.k.fetch) a();
		S t; for (auto& s : B.k.seen) t.push_back(s ? js(*s) : "[\"-\"]");
		ev(J().t("e", "pret").i("b", b + 1).b("ok", ok).raw("tgt", ja(t)).arr("calls", B.k.calls)); };
	auto put = [&](int f) {
		fs::path p = full(files[f]); if (!files[f].dir || fs::exists(p)) return;
		int w = r.below(12);
		if (w == 0) { mkdir(p.c_str(), 0755); ev(J().t("e", "put").i("f", f + 1).t("kind", "dir")); return; }
		if (w == 1) { std::ofstream(p) << (r.chance(50) ? "{ \"o0\": { \"value\": " : ""); ev(J().t("e", "put").i("f", f + 1).t("kind", "broken")); return; }
		S val, def, com; S text; std::string lab;
		for (auto const& o : g_opts) {
			S v; size_t n = o->paths().size(); S d, c; for (size_t i = 0; i < o->cpaths().size(); i++) c.push_back("[]"); S pv = o->pick(r); std::string body; bool all_miss = true;
			for (size_t i = 0; i < n; i++) {
				Slot s; int h = r.below(10); bool str = dynamic_cast<OptT<std::string>*>(o.get()) || (o->kind == "comb" && i == 1);
				s.s = h <= 2 ? "miss" : (h == 3 && !str && r.chance(50)) ? "bad" : "ok"; std::string one;
				if (o->list) { S its; for (auto const& x : pv) its.push_back(o->file_text(x, 0)); if (s.s == "bad") its.push_back("\"xyz\""); if (s.s == "ok" && r.chance(10)) { its.clear(); pv.clear(); }
					if (s.s == "ok") s.v = pv; if (r.chance(50)) one = its.empty() ? "\"\"" : ja(its); else { std::string m; for (auto const& x : its) m += std::string(m.empty() ? "" : ",") + "\"item\":" + x; one = m.empty() ? "\"\"" : "{" + m + "}"; } }
				else { if (s.s == "ok") s.v = {pv[i]}; one = s.s == "bad" ? "\"xyz\"" : o->file_text(pv[i], i); }
				v.push_back(slots_json(s, o->list));
				if (s.s != "miss") { all_miss = false; std::string e = "{\"value\":" + one + (r.chance(50) ? ",\"junk\":\"7\"" : "") + "}"; if (o->kind == "comb") lab += std::string(lab.empty() ? "" : ",") + "\"" + o->name + (i ? "x" : "") + "\":" + e; else if (o->kind == "arr" || o->kind == "arrref") body += std::string(body.empty() ? "" : ",") + "\"" + std::to_string(i) + "\":" + e; else body = e; }
			}
			if (!all_miss && o->kind != "comb") text.push_back("\"" + o->name + "\":" + ((o->kind == "arr" || o->kind == "arrref") ? "{" + body + "}" : body));
			val.push_back(ja(v)); def.push_back(ja(d)); com.push_back(ja(c));
		}
		if (!lab.empty()) text.push_back("\"lab\":{" + lab + "}");
		if (r.chance(30)) text.push_back("\"unknown\":{\"value\":\"1\"}");
		for (size_t i = text.size(); i > 1; i--) std::swap(text[i - 1], text[size_t(r.below(int(i)))]);
		std::string all = "{"; for (size_t i = 0; i < text.size(); i++) all += (i ? "," : "") + text[i]; std::ofstream(p) << all << "}\n";
		ev(J().t("e", "put").i("f", f + 1).t("kind", "ok").raw("val", ja(val)).raw("def", ja(def)).raw("com", ja(com)).raw("hdr", "[]"));
	};
	int steps = r.range(2, 9);
	if (r.chance(50)) put(r.below(nf));
	for (int s = 0; s < steps; s++) {
		int f = r.below(nf), b = r.below(nb);
		switch (r.below(8)) {
		case 0: put(f); break;
		case 1: if (no) { int o = r.below(no); S v = g_opts[o]->pick(r); g_opts[o]->reset(*bs[b]->b, v); ev(J().t("e", "reset").i("b", b + 1).i("o", o + 1).raw("v", js(v))); } break;
		case 2: { S h; std::string ht; int nh = r.below(3); for (int k = 0; k < nh; k++) { std::string w = words[r.below(4)]; h.push_back(w); ht += w + ";"; } bool all = r.chance(50), threw = false; try { bs[b]->b->writeConfigFile(full(files[f]), ht, all); } catch (gemfony_exception&) { threw = true; } ev(J().t("e", "write").i("b", b + 1).i("f", f + 1).b("all", all).b("threw", threw).raw("hdr", js(h))); look(f + 1, files[f], base); break; }
		case 3: if (nb > 1) { std::vector<std::thread> th; bool same = r.chance(80); for (int x = 0; x < nb; x++) { int g = same ? f : r.below(nf); th.emplace_back([&, x, g] { parse(x, g); }); } for (auto& t : th) t.join(); look(f + 1, files[f], base); break; } [[fallthrough]];
		default: parse(b, f); if (r.chance(70)) look(f + 1, files[f], base); }
	}
	for (int f = 0; f < nf; f++) look(f + 1, files[f], base);
	if (r.chance(30)) command_line(r);
	vs::stop();
	ev(J().t("e", "end"));
}
int main(int argc, char** argv) { return run_all(argc, argv, scenario); }
