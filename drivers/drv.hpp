// Common frame of the drivers: one forked child per run, one JSON line per run.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#ifdef USE_VSCHED
#include "vsched.hpp"
#endif
namespace drv {
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x) {} uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); } int range(int a, int b) { return a + below(b - a + 1); } bool chance(int pct) { return below(100) < pct; } };
inline std::string q(std::string const& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
// {"a":1,...} builder
struct J { std::string s = "{"; bool first = true;
	J& k(const char* n) { if (!first) s += ','; first = false; s += '"'; s += n; s += "\":"; return *this; }
	J& i(const char* n, long long v) { k(n); s += std::to_string(v); return *this; }
	J& b(const char* n, bool v) { k(n); s += v ? "true" : "false"; return *this; }
	J& t(const char* n, std::string const& v) { k(n); s += q(v); return *this; }
	J& raw(const char* n, std::string const& v) { k(n); s += v; return *this; }
	template <class V> J& arr(const char* n, V const& v) { k(n); s += '['; bool f = true; for (auto const& x : v) { if (!f) s += ','; f = false; s += std::to_string(x); } s += ']'; return *this; }
	std::string str() const { return s + "}"; } };
inline std::string g_cfg = "{}"; inline int g_fd = -1; inline std::string g_events; inline bool g_own_buffer = true;
inline void cfg(J const& j) { g_cfg = j.str(); }
inline void ev(std::string const& s) {
#ifdef USE_VSCHED
	vs::log(s);
#else
	if (!g_events.empty()) g_events += ','; g_events += s;
#endif
}
inline void ev(J const& j) { ev(j.str()); }
inline void finish(std::string const& how, std::string const& detail) {
#ifdef USE_VSCHED
	std::string const& b = vs::buffer();
	std::string extra = ",\"steps\":" + std::to_string(vs::steps());
#else
	std::string const& b = g_events; std::string extra;
#endif
	std::string out = "{\"cfg\":" + g_cfg + ",\"ev\":[" + b + "],\"end\":" + q(how) + ",\"detail\":" + q(detail) + extra + "}\n";
	size_t p = 0; while (p < out.size()) { ssize_t w = ::write(g_fd, out.data() + p, out.size() - p); if (w <= 0) break; p += size_t(w); }
	_exit(0);
}
inline void on_terminate() {
	std::string d = "terminate"; try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& e) { d = e.what(); } catch (...) { d = "unknown exception"; }
	finish("terminate", d.substr(0, 600));
}
inline void on_signal(int s) { finish("signal", std::to_string(s)); }
// usage: driver FIRST COUNT SEED OUT [args...]
// each run: scenario(run index, seed) in a forked child
inline int run_all(int argc, char** argv, std::function<void(int, uint64_t)> scenario, int wall_s = 20) {
	if (argc < 5) { fprintf(stderr, "usage: %s FIRST COUNT SEED OUT [args]\n", argv[0]); return 2; }
	int first = atoi(argv[1]), count = atoi(argv[2]); uint64_t seed = strtoull(argv[3], nullptr, 10);
	FILE* out = fopen(argv[4], "w"); if (!out) { perror("out"); return 2; }
	signal(SIGPIPE, SIG_IGN);
	for (int i = first; i < first + count; i++) {
		uint64_t s = Rng(seed * 1000003ULL + uint64_t(i) * 7919ULL + 17).next();
		int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 2; }
		fflush(nullptr);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 2; }
		if (pid == 0) {
			close(pfd[0]); g_fd = pfd[1];
			setpgid(0, 0);
			int dn = open("/dev/null", O_RDWR); if (!getenv("DRV_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); } dup2(dn, 0);
			std::set_terminate(on_terminate);
			for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, on_signal);
#ifdef USE_VSCHED
			vs::set_end_handler([](std::string const& h, std::string const& d) { finish(h, d); });
#endif
			try { scenario(i, s); } catch (std::exception& e) { finish("exception", std::string(e.what()).substr(0, 600)); } catch (...) { finish("exception", "unknown"); }
			finish("ok", "");
		}
		close(pfd[1]);
		std::string data; bool hung = false; char buf[65536];
		timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
		while (true) {
			pollfd p{pfd[0], POLLIN, 0}; int r = poll(&p, 1, 200);
			timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
			if (r > 0) { ssize_t n = read(pfd[0], buf, sizeof buf); if (n <= 0) break; data.append(buf, size_t(n)); if (data.back() == '\n') break; }
			if (t1.tv_sec - t0.tv_sec > wall_s) { hung = true; break; }
		}
		close(pfd[0]);
		kill(-pid, SIGKILL); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
		if (data.empty() || data.back() != '\n') data = std::string("{\"cfg\":{},\"ev\":[],\"end\":\"") + (hung ? "hang" : "crash") + "\",\"detail\":\"status " + std::to_string(st) + "\"}\n";
		fprintf(out, "{\"run\":%d,\"seed\":\"%llu\",%s", i, (unsigned long long)s, data.c_str() + 1);
	}
	fclose(out);
	return 0;
}
#ifdef USE_VSCHED
inline vs::Config sched_config(Rng& r) { vs::Config c; c.seed = r.next(); c.strategy = r.below(3); c.depth = r.range(1, 5); c.sticky = r.range(2, 20); static const int tp[] = {0, 5, 20, 100}; c.timeoutPermille = tp[r.below(4)]; c.spuriousPermille = r.chance(20) ? 5 : 0; return c; }
#endif
}
