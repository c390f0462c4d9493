// T01: formulas with place holders, evaluated again and again by the same parser objects.
#include "common/GFormulaParserT.hpp"
#include "drv.hpp"
#include <cmath>
#include <map>
#include <memory>
using namespace drv; using namespace Gem::Common;
struct Tok { char k; int n = 0, d = 1; std::string s; int i = 0; };   // k: n(umber), o(perator), i(dentifier), v(ariable)
using Toks = std::vector<Tok>; struct Num { int n, d; double val() const { return double(n) / d; } };
static std::string js(Tok const& t) { return J().t("k", t.k == 'n' ? "num" : t.k == 'o' ? "op" : t.k == 'i' ? "id" : "var").i("n", t.n).i("d", t.d).t("s", t.s).i("i", t.i).str(); }
template <class V, class F> static std::string list(V const& v, F f) { std::string o = "["; for (auto const& x : v) { if (o.size() > 1) o += ','; o += f(x); } return o + "]"; }
static Num rnum(Rng& r, bool neg) { static const int ds[] = {1, 1, 1, 2, 4, 8}; int d = ds[r.below(6)], n = r.chance(40) ? r.below(3) : r.chance(10) ? r.range(0, 900) : r.below(20); int g = d; while (n % g || d % g) g /= 2; if (g < 1) g = 1; n /= g; d /= g; return Num{neg && r.chance(40) ? -n : n, d}; }
static std::string ntext(Rng& r, Tok const& t) {
	char b[64]; snprintf(b, sizeof b, "%.10g", double(t.n) / t.d); std::string s = b; bool dot = s.find('.') != std::string::npos; int k = r.below(8);
	if (k == 0 && !dot) return s + "."; if (k == 1) return s + (dot ? "00" : ".000"); if (k == 2 && s.size() > 2 && s.compare(0, 2, "0.") == 0) return s.substr(1);
	if (k == 3) { snprintf(b, sizeof b, "%.10e", double(t.n) / t.d); return b; } if (k == 4) return s + "E0"; if (k == 5 && !dot) return "00" + s; if (k == 6 && t.d == 1 && t.n % 10 == 0 && t.n) return std::to_string(t.n / 10) + "e1"; return s; }
static const char* un[] = {"acos", "asin", "atan", "ceil", "cosh", "cos", "exp", "fabs", "floor", "log10", "log", "sinh", "sin", "sqrt", "tanh", "tan"}; static const char* bi[] = {"min", "max", "pow", "hypot"};
static const char* uc[] = {"gamma", "k", "k2", "eps", "pix", "Len"}; static const char* vn[] = {"x", "y", "var1", "x1", "sin", "a.b"};
static void op(Toks& o, const char* s) { o.push_back({'o', 0, 1, s}); }
static void gen(Toks& o, Rng& r, int depth) {
	int k = depth <= 0 ? r.below(6) : r.below(20); auto num = [&](int a) { o.push_back({'n', a, 1, ""}); };
	if (k < 3) { Num x = rnum(r, false); o.push_back({'n', x.n, x.d, ""}); }
	else if (k < 5) o.push_back({'v', 0, 1, vn[r.below(r.chance(85) ? 2 : 6)], r.chance(65) ? -1 : r.chance(70) ? 0 : r.below(3)});
	else if (k == 5) o.push_back({'i', 0, 1, r.chance(40) ? "pi" : r.chance(40) ? "e" : uc[r.below(6)]});
	else if (k < 13) { gen(o, r, depth - 1); static const char* ops[] = {"+", "-", "*", "/", "-", "/"}; int n = r.range(1, 3); for (int j = 0; j < n; j++) { op(o, ops[r.below(6)]); gen(o, r, depth - 2); } }
	else if (k < 15) { op(o, "("); gen(o, r, depth - 1); op(o, ")"); }
	else if (k == 15) { op(o, r.chance(80) ? "-" : "+"); gen(o, r, depth - 1); }
	else if (k < 18) {
		std::string f = un[r.below(16)]; o.push_back({'i', 0, 1, f}); op(o, "(");
		if (r.chance(60)) {   // at and around the points where something changes
			static const int a[] = {0, 1, 1, 2, 2, 3, 4, 9, 10, 100}; int n = a[r.below(f == "log10" || f == "log" || f == "sqrt" ? 10 : 5)], d = r.chance(10) ? 2 : 1; if (f == "floor" || f == "ceil") { n = r.range(0, 15); d = r.chance(80) ? 4 : 1; } if ((f == "acos" || f == "asin") && n == 1 && r.chance(30)) d = 2;
			bool neg = n && r.chance(f[0] == 'l' ? 10 : 40); if (neg) op(o, "-"); while (d > 1 && n % 2 == 0) { n /= 2; d /= 2; } o.push_back({'n', n, d, ""}); }
		else gen(o, r, depth - 1);
		op(o, ")"); }
	else { const char* f = bi[r.below(4)]; o.push_back({'i', 0, 1, f}); op(o, "("); if (std::string(f) == "hypot" && r.chance(60)) { num(3); op(o, ","); num(4); } else { gen(o, r, depth - 2); op(o, ","); if (std::string(f) == "pow" && r.chance(70)) { if (r.chance(20)) op(o, "-"); num(r.below(4)); } else gen(o, r, depth - 2); } op(o, ")"); } }
static std::string text(Toks const& v, Rng& r) {
	int sp = r.below(3); std::string o; char last = 'o';
	for (auto const& t : v) {
		bool word = t.k != 'o' && last != 'o' && !(t.k == 'v' && last == 'v'); if (word || t.k == 'v' || last == 'v' || (sp && r.chance(sp * 35))) o += r.chance(85) ? " " : "\t ";
		if (t.k == 'n') o += ntext(r, t); else if (t.k == 'v') o += "{{" + t.s + (t.i < 0 ? "" : "[" + std::to_string(t.i) + "]") + "}}"; else o += t.s; last = t.k; }
	return o + (sp == 2 && r.chance(30) ? "  " : ""); }
template <class T> struct Parser {
	std::unique_ptr<GFormulaParserT<T>> p; bool made = false;
	static std::string run(std::function<T()> f) {
		std::string s; T v = 0;
		try { v = f(); } catch (division_by_0&) { s = "div0"; } catch (acos_invalid_range<T>&) { s = "acos"; } catch (asin_invalid_range<T>&) { s = "asin"; } catch (log_negative_value<T>&) { s = "log"; } catch (log10_negative_value<T>&) { s = "log10"; } catch (sqrt_negative_value<T>&) { s = "sqrt"; }
		catch (math_logic_error&) { s = "other math error"; } catch (gemfony_exception&) { s = "formula"; } catch (std::exception& e) { s = std::string("exception: ") + e.what(); }
		double m = double(v) * 1000; return J().t("s", s).i("m", !(m > -2e9) ? -2000000000 : m > 2e9 ? 2000000000 : std::llround(m)).str(); }
	void make(int x, Rng& r) {
		Toks o; gen(o, r, r.range(0, 5)); if (o.size() > 40) o.resize(0); if (o.empty()) gen(o, r, 2);
		if (r.chance(18)) { int n = r.range(1, 2); while (n--) { int at = r.below(int(o.size()) + 1); static const char* junk[] = {"(", ")", ",", "^", "+", "-", "*", "/", "%"}; static const char* bad[] = {"foo", "cosine", "Pi", "SIN", "minimum"};
			if (r.chance(35) && at < int(o.size())) o.erase(o.begin() + at); else if (r.chance(50)) o.insert(o.begin() + at, {'o', 0, 1, junk[r.below(9)]}); else if (r.chance(50)) o.insert(o.begin() + at, {'n', r.below(4), 1, ""}); else o.insert(o.begin() + at, {'i', 0, 1, bad[r.below(5)]}); } }
		std::map<std::string, T> c; std::vector<std::pair<std::string, Num>> cl; for (auto* u : uc) if (r.chance(85)) { Num v = rnum(r, true); c[u] = T(v.val()); cl.push_back({u, v}); }
		std::string s = text(o, r); last = c; p.reset(c.empty() && r.chance(50) ? new GFormulaParserT<T>(s) : new GFormulaParserT<T>(s, c)); if (r.chance(10)) p->setPrintCode(true); made = true;
		ev(J().t("e", "make").i("x", x).raw("tok", list(o, js)).raw("con", list(cl, [](auto const& y) { return J().t("s", y.first).i("n", y.second.n).i("d", y.second.d).str(); })).t("text", s)); }
	void eval(int x, Rng& r) {
		std::map<std::string, std::vector<T>> m; std::string l = "["; int mode = r.below(10);
		for (auto* n : vn) if (mode && r.chance(n[1] ? 60 : 93)) { std::vector<Num> v; int k = r.chance(50) ? 1 : r.range(2, 3); if (r.chance(1)) k = 0; for (int j = 0; j < k; j++) v.push_back(rnum(r, true)); for (auto& y : v) m[n].push_back(T(y.val())); if (!k) m[n]; if (l.size() > 1) l += ','; l += J().t("s", n).raw("v", list(v, [](Num const& y) { return J().i("n", y.n).i("d", y.d).str(); })).str(); }
		int how = r.below(6); std::string res = run([&]() -> T { if (how == 0) return (*p)(m); if (how == 1) { GFormulaParserT<T> q(p->getFormula(m), cons()); return q.evaluate(); } if (m.empty()) return p->evaluate(); return p->evaluate(m); });
		if (how == 1) { how = 2; } ev(J().t("e", "eval").i("x", x).raw("vars", l + "]").raw("res", res)); }
	std::map<std::string, T> cons() { return last; } std::map<std::string, T> last; };
template <class T> static void scenario(Rng& r) {
	Parser<T> ps[3]; int n = r.range(3, 12);
	for (int k = 0; k < n; k++) { int x = r.below(3); if (!ps[x].made || r.chance(15)) ps[x].make(x, r); else ps[x].eval(x, r); } }
int main(int argc, char** argv) {
	return run_all(argc, argv, [](int, uint64_t seed) { Rng r(seed); cfg(J().i("none", 0)); if (r.chance(65)) scenario<double>(r); else scenario<float>(r); }); }
