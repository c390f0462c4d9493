#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <sched.h>
#include <unordered_map>
#include <vector>
#include <algorithm>

namespace {
long raw6(long n, long a, long b, long c, long d, long e, long f) {
	long ret;
	register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
enum class St { RUN, MUTEX, COND, JOIN, FUTEX, SLEEP, RDLOCK, WRLOCK, ONCE, DONE };
const char* stname(St s) { static const char* n[] = {"RUN","MUTEX","COND","JOIN","FUTEX","SLEEP","RDLOCK","WRLOCK","ONCE","DONE"}; return n[int(s)]; }
struct Thr {
	int id = 0; St st = St::RUN; void const* obj = nullptr; int64_t deadline = -1; bool timedOut = false;
	int go = 0; int prio = 0; pthread_t h{}; void* (*fn)(void*) = nullptr; void* arg = nullptr; int keyRounds = 0;
};
struct Mtx { Thr* owner = nullptr; int count = 0; };
struct Rw { Thr* writer = nullptr; int readers = 0; };
bool g_active = false;
vs::Config g_cfg;
std::vector<Thr*> g_thr;
Thr* g_cur = nullptr;
int64_t g_now = 0;
int64_t g_base_mono = 1000000000000LL, g_base_real = 1700000000000000000LL;
uint64_t g_steps = 0, g_rng = 1;
std::vector<uint64_t> g_changes; int g_prioLow = 0;
std::string g_buf;
std::function<void(std::string const&, std::string const&)> g_end;
std::unordered_map<void const*, Mtx>* g_mtx; std::unordered_map<void const*, Rw>* g_rw; std::unordered_map<void const*, int>* g_once;
pthread_key_t g_key; bool g_keyMade = false;
thread_local Thr* t_self = nullptr;

uint64_t rng() { g_rng += 0x9E3779B97F4A7C15ULL; uint64_t z = g_rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
bool on() { return g_active && t_self != nullptr; }
template <class F> F real(const char* name, const char* ver = nullptr) {
	void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
	if (!p) p = dlsym(RTLD_NEXT, name);
	return reinterpret_cast<F>(p);
}
void wait_turn(Thr* t) {
	while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, long(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
void give_turn(Thr* t) { g_cur = t; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw6(SYS_futex, long(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void end(const char* how) { std::string d = vs::blocked_description(); if (g_end) g_end(how, d); fprintf(stderr, "vsched: %s %s\n", how, d.c_str()); _exit(97); }
Thr* earliest() { Thr* b = nullptr; for (Thr* t : g_thr) if (t->st != St::RUN && t->st != St::DONE && t->deadline >= 0 && (!b || t->deadline < b->deadline)) b = t; return b; }
void fire(Thr* t) { if (g_now < t->deadline) g_now = t->deadline; t->timedOut = true; t->st = St::RUN; t->deadline = -1; }
Thr* pick() {
	if (++g_steps > g_cfg.maxSteps) end("steplimit");
	g_now += 200;
	if (int(rng() % 1000) < g_cfg.timeoutPermille) { if (Thr* t = earliest()) fire(t); }
	if (g_cfg.spuriousPermille && int(rng() % 1000) < g_cfg.spuriousPermille) {
		std::vector<Thr*> c; for (Thr* t : g_thr) if (t->st == St::COND) c.push_back(t);
		if (!c.empty()) { Thr* t = c[rng() % c.size()]; t->st = St::RUN; t->deadline = -1; t->timedOut = false; }
	}
	for (Thr* t : g_thr) if (t->st != St::RUN && t->st != St::DONE && t->deadline >= 0 && t->deadline <= g_now) fire(t);
	std::vector<Thr*> r; for (Thr* t : g_thr) if (t->st == St::RUN) r.push_back(t);
	if (r.empty()) {
		Thr* t = earliest();
		if (!t) end("deadlock");
		fire(t); return t;
	}
	switch (g_cfg.strategy) {
	case 1: {
		Thr* me = t_self;
		if (me && me->st == St::RUN && rng() % g_cfg.sticky != 0) return me;
		return r[rng() % r.size()];
	}
	case 2: {
		for (auto c : g_changes) if (c == g_steps && g_cur) g_cur->prio = --g_prioLow;
		// a small amount of uniform choice keeps busy-waiting loops from starving the others
		if (rng() % 64 == 0) return r[rng() % r.size()];
		Thr* b = r[0]; for (Thr* t : r) if (t->prio > b->prio) b = t; return b;
	}
	default: return r[rng() % r.size()];
	}
}
void resched() { Thr* me = t_self; Thr* n = pick(); if (n == me) return; give_turn(n); wait_turn(me); }
void exit_thread(Thr* me) {
	me->st = St::DONE;
	for (Thr* t : g_thr) if (t->st == St::JOIN && t->obj == me) { t->st = St::RUN; t->deadline = -1; }
	t_self = nullptr; // no further scheduling in this thread
	Thr* n;
	{ ++g_steps; n = nullptr; t_self = me; n = pick(); t_self = nullptr; }
	give_turn(n);
}
void block(St st, void const* obj, int64_t deadline) { Thr* me = t_self; me->st = st; me->obj = obj; me->deadline = deadline; me->timedOut = false; resched(); me->obj = nullptr; }
void wake_all(St st, void const* obj) { for (Thr* t : g_thr) if (t->st == st && t->obj == obj) { t->st = St::RUN; t->deadline = -1; } }
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int m_lock(pthread_mutex_t* m, bool isTry, int64_t deadline = -1) {
	Thr* me = t_self;
	while (true) {
		Mtx& x = (*g_mtx)[m];
		if (!x.owner) { x.owner = me; x.count = 1; return 0; }
		if (x.owner == me && recursive(m)) { ++x.count; return 0; }
		if (isTry) return EBUSY;
		block(St::MUTEX, m, deadline);
		if (me->timedOut) return ETIMEDOUT;
	}
}
int m_unlock(pthread_mutex_t* m) {
	auto it = g_mtx->find(m);
	if (it == g_mtx->end() || it->second.owner != t_self) return 0; // locked before scheduled mode
	if (--it->second.count > 0) return 0;
	g_mtx->erase(it);
	wake_all(St::MUTEX, m);
	return 0;
}
int64_t to_ns(timespec const* ts) { return int64_t(ts->tv_sec) * 1000000000LL + ts->tv_nsec; }
int64_t abs_to_virtual(clockid_t c, timespec const* ts) { int64_t v = to_ns(ts) - (c == CLOCK_MONOTONIC ? g_base_mono : g_base_real); return v < 0 ? 0 : v; }
// condition variables: the clock is not recorded, tell by magnitude (the two bases are far apart)
int64_t cond_abs(timespec const* ts) { int64_t v = to_ns(ts); v -= (v >= g_base_real / 2) ? g_base_real : g_base_mono; return v < 0 ? 0 : v; }
int c_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
	Thr* me = t_self;
	int saved = 1; auto it = g_mtx->find(m); if (it != g_mtx->end()) { saved = it->second.count; it->second.count = 1; }
	m_unlock(m);
	block(St::COND, c, deadline);
	bool to = me->timedOut; me->timedOut = false;
	m_lock(m, false);
	(*g_mtx)[m].count = saved;
	return to ? ETIMEDOUT : 0;
}
void key_dtor(void* p) {
	Thr* t = static_cast<Thr*>(p);
	if (t->keyRounds++ < 2) { pthread_setspecific(g_key, t); return; }
	if (on()) exit_thread(t);
}
void* trampoline(void* p) {
	Thr* t = static_cast<Thr*>(p);
	wait_turn(t);
	t_self = t;
	pthread_setspecific(g_key, t);
	return t->fn(t->arg);
}
}

namespace vs {
void start(Config const& c) {
	g_cfg = c; g_rng = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567; rng();
	if (!g_mtx) { g_mtx = new std::unordered_map<void const*, Mtx>; g_rw = new std::unordered_map<void const*, Rw>; g_once = new std::unordered_map<void const*, int>; }
	if (!g_keyMade) { pthread_key_create(&g_key, key_dtor); g_keyMade = true; }
	for (int i = 0; i < c.depth; i++) g_changes.push_back(1 + rng() % (i % 2 ? 120 : 700));
	Thr* t = new Thr; t->id = 0; t->prio = int(rng() % 1000); t->h = pthread_self(); g_thr.push_back(t);
	t_self = t; g_cur = t; g_active = true;
}
void stop() { g_active = false; t_self = nullptr; }
bool active() { return on(); }
int self() { return t_self ? t_self->id : -1; }
void point() { if (on()) resched(); }
int64_t now_ns() { return g_now; }
uint64_t steps() { return g_steps; }
uint32_t rnd(uint32_t n) { return uint32_t(rng() % n); }
void log(std::string const& j) { if (!g_buf.empty()) g_buf += ','; g_buf += j; }
void set_end_handler(std::function<void(std::string const&, std::string const&)> f) { g_end = f; }
std::string const& buffer() { return g_buf; }
int live_threads() { int n = 0; for (Thr* t : g_thr) if (t->st != St::DONE) ++n; return n; }
std::string blocked_description() {
	std::string s; for (Thr* t : g_thr) if (t->st != St::DONE) { if (!s.empty()) s += ' '; s += std::to_string(t->id) + ":" + stname(t->st); } return s;
}
}

extern "C" {
#define R(name, sig) static auto r = real<sig>(#name)
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) { resched(); return m_lock(m, false); } R(pthread_mutex_lock, int(*)(pthread_mutex_t*)); return r(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) { resched(); return m_lock(m, true); } R(pthread_mutex_trylock, int(*)(pthread_mutex_t*)); return r(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) { int x = m_unlock(m); resched(); return x; } R(pthread_mutex_unlock, int(*)(pthread_mutex_t*)); return r(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { if (on()) { resched(); return m_lock(m, false, abs_to_virtual(CLOCK_REALTIME, ts)); } R(pthread_mutex_timedlock, int(*)(pthread_mutex_t*, const timespec*)); return r(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { if (on()) { resched(); return m_lock(m, false, abs_to_virtual(c, ts)); } R(pthread_mutex_clocklock, int(*)(pthread_mutex_t*, clockid_t, const timespec*)); return r(m, c, ts); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) return c_wait(c, m, -1); static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait", "GLIBC_2.3.2"); return r(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (on()) return c_wait(c, m, cond_abs(ts)); static auto r = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait", "GLIBC_2.3.2"); return r(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (on()) return c_wait(c, m, abs_to_virtual(k, ts)); R(pthread_cond_clockwait, int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)); return r(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t* c) {
	if (on()) {
		resched();
		std::vector<Thr*> w; for (Thr* t : g_thr) if (t->st == St::COND && t->obj == c) w.push_back(t);
		if (!w.empty()) { Thr* t = w[rng() % w.size()]; t->st = St::RUN; t->deadline = -1; t->timedOut = false; }
		return 0;
	}
	static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_signal", "GLIBC_2.3.2"); return r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { resched(); wake_all(St::COND, c); return 0; } static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast", "GLIBC_2.3.2"); return r(c); }
static int rd(pthread_rwlock_t* l, bool isTry, int64_t dl) { while (true) { Rw& x = (*g_rw)[l]; if (!x.writer) { ++x.readers; return 0; } if (isTry) return EBUSY; block(St::RDLOCK, l, dl); if (t_self->timedOut) return ETIMEDOUT; } }
static int wr(pthread_rwlock_t* l, bool isTry, int64_t dl) { while (true) { Rw& x = (*g_rw)[l]; if (!x.writer && x.readers == 0) { x.writer = t_self; return 0; } if (isTry) return EBUSY; block(St::WRLOCK, l, dl); if (t_self->timedOut) return ETIMEDOUT; } }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (on()) { resched(); return rd(l, false, -1); } R(pthread_rwlock_rdlock, int(*)(pthread_rwlock_t*)); return r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (on()) { resched(); return rd(l, true, -1); } R(pthread_rwlock_tryrdlock, int(*)(pthread_rwlock_t*)); return r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (on()) { resched(); return wr(l, false, -1); } R(pthread_rwlock_wrlock, int(*)(pthread_rwlock_t*)); return r(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (on()) { resched(); return wr(l, true, -1); } R(pthread_rwlock_trywrlock, int(*)(pthread_rwlock_t*)); return r(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	if (on()) { auto it = g_rw->find(l); if (it != g_rw->end()) { if (it->second.writer) it->second.writer = nullptr; else --it->second.readers; if (it->second.readers <= 0) { g_rw->erase(it); } wake_all(St::RDLOCK, l); wake_all(St::WRLOCK, l); } resched(); return 0; }
	R(pthread_rwlock_unlock, int(*)(pthread_rwlock_t*)); return r(l);
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
	if (on()) {
		resched();
		while (true) {
			int& s = *reinterpret_cast<int*>(o);
			if (s == 2) return 0;
			if (s == 0) { s = 1; try { f(); } catch (...) { s = 0; wake_all(St::ONCE, o); throw; } s = 2; wake_all(St::ONCE, o); return 0; }
			block(St::ONCE, o, -1);
		}
	}
	R(pthread_once, int(*)(pthread_once_t*, void(*)(void))); return r(o, f);
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	R(pthread_create, int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*));
	if (!on()) return r(h, a, fn, arg);
	Thr* t = new Thr; t->id = int(g_thr.size()); t->fn = fn; t->arg = arg; t->prio = int(rng() % 1000);
	int e = r(h, a, trampoline, t);
	if (e) { delete t; return e; }
	t->h = *h; g_thr.push_back(t);
	resched();
	return 0;
}
int pthread_join(pthread_t h, void** ret) {
	R(pthread_join, int(*)(pthread_t, void**));
	if (on()) { resched(); for (Thr* t : g_thr) if (t->id != 0 && pthread_equal(t->h, h) && t->id >= 0) { while (t->st != St::DONE) block(St::JOIN, t, -1); int e = r(h, ret); t->h = pthread_t{}; return e; } }
	return r(h, ret);
}
static int do_sleep(int64_t ns) { block(St::SLEEP, nullptr, g_now + (ns < 0 ? 0 : ns)); return 0; }
int nanosleep(const timespec* q, timespec* rem) { if (on()) return do_sleep(to_ns(q)); R(nanosleep, int(*)(const timespec*, timespec*)); return r(q, rem); }
int clock_nanosleep(clockid_t c, int f, const timespec* q, timespec* rem) {
	if (on()) { if (f & TIMER_ABSTIME) { block(St::SLEEP, nullptr, abs_to_virtual(c, q)); return 0; } return do_sleep(to_ns(q)); }
	R(clock_nanosleep, int(*)(clockid_t, int, const timespec*, timespec*)); return r(c, f, q, rem);
}
int usleep(useconds_t u) { if (on()) return do_sleep(int64_t(u) * 1000); R(usleep, int(*)(useconds_t)); return r(u); }
unsigned sleep(unsigned s) { if (on()) { do_sleep(int64_t(s) * 1000000000LL); return 0; } R(sleep, unsigned(*)(unsigned)); return r(s); }
int sched_yield() { if (on()) { resched(); return 0; } R(sched_yield, int(*)()); return r(); }
int clock_gettime(clockid_t c, timespec* ts) {
	if (on() && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) {
		g_now += 1000; int64_t v = g_now + (c == CLOCK_MONOTONIC ? g_base_mono : g_base_real); ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
	}
	return int(raw6(SYS_clock_gettime, c, long(ts), 0, 0, 0, 0));
}
int gettimeofday(timeval* tv, void* tz) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; (void)tz; return 0; }
long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
	if (on() && n == SYS_futex) {
		int op = int(a[1]) & FUTEX_CMD_MASK; int* addr = reinterpret_cast<int*>(a[0]);
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			resched();
			if (*addr != int(a[2])) { errno = EAGAIN; return -1; }
			int64_t dl = -1; auto ts = reinterpret_cast<timespec const*>(a[3]);
			if (ts) dl = op == FUTEX_WAIT ? g_now + to_ns(ts) : ((a[1] & FUTEX_CLOCK_REALTIME) ? abs_to_virtual(CLOCK_REALTIME, ts) : abs_to_virtual(CLOCK_MONOTONIC, ts));
			block(St::FUTEX, addr, dl);
			if (t_self->timedOut) { t_self->timedOut = false; errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			long k = 0; for (Thr* t : g_thr) if (t->st == St::FUTEX && t->obj == addr && k < a[2]) { t->st = St::RUN; t->deadline = -1; t->timedOut = false; ++k; }
			resched(); return k;
		}
	}
	long x = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (x < 0 && x > -4096) { errno = int(-x); return -1; }
	return x;
}
}
