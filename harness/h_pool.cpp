// ThreadPool (C28): exactly-once, drain on destruction, exceptions, concurrency; schedules perturbed by link-time wrappers.
#include "common.h"
#include "emp-tool/utils/ThreadPool.h"
#include <pthread.h>
#include <dirent.h>
#include <set>
#include <map>
#include <array>
#include <algorithm>
using namespace vf;
// ---------------------------------------------------------------- schedule perturbation
static std::atomic<int> g_chaos(0); static std::atomic<uint64_t> g_delays(0), g_spurious(0), g_locks(0), g_salt(1);
static thread_local Rng *t_rng = nullptr;
static Rng &trng() { if (!t_rng) { static thread_local Rng r(mix64(g_salt.fetch_add(1))); t_rng = &r; } return *t_rng; }
static void jitter(int weight) { int c = g_chaos.load(std::memory_order_relaxed); if (!c) return; Rng &r = trng(); if (r.below(100) < (uint64_t)(c * weight)) { g_delays.fetch_add(1, std::memory_order_relaxed); if (r.coin(3)) usleep(r.below(300)); else for (uint64_t i = 0; i < r.below(4); ++i) sched_yield(); } }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m); int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { g_locks.fetch_add(1, std::memory_order_relaxed); jitter(3); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); jitter(3); return r; }
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *lk);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, void *lk) {
	int c = g_chaos.load(std::memory_order_relaxed);
	if (c && trng().below(100) < (uint64_t)c * 4) { // a spurious wake-up, which the standard allows
		g_spurious.fetch_add(1, std::memory_order_relaxed); std::unique_lock<std::mutex> &l = *(std::unique_lock<std::mutex> *)lk; l.unlock(); jitter(20); l.lock(); return; }
	__real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lk);
}
void __real__ZNSt18condition_variable10notify_oneEv(void *cv); void __real__ZNSt18condition_variable10notify_allEv(void *cv);
void __wrap__ZNSt18condition_variable10notify_oneEv(void *cv) { jitter(5); __real__ZNSt18condition_variable10notify_oneEv(cv); }
void __wrap__ZNSt18condition_variable10notify_allEv(void *cv) { jitter(5); __real__ZNSt18condition_variable10notify_allEv(cv); }
}
// libstdc++'s exception_ptr counts references in uninstrumented code, so ThreadSanitizer cannot see why reading the payload is safe.
#ifdef __SANITIZE_THREAD__
static const bool kPayload = false;
#else
static const bool kPayload = true;
#endif
static int threads_now() { int n = 0; DIR *d = opendir("/proc/self/task"); while (dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }

// ---------------------------------------------------------------- task records
struct Rec { std::atomic<int> runs; bool accepted = false; std::atomic<uint64_t> seq; std::atomic<int> tid; Rec() : runs(0), seq(0), tid(-1) {} };
static std::atomic<long> g_live(0); // instances of counted task arguments
struct Counted { uint64_t v; explicit Counted(uint64_t x = 0) : v(x) { ++g_live; } Counted(const Counted &o) : v(o.v) { ++g_live; } Counted(Counted &&o) : v(o.v) { ++g_live; } ~Counted() { --g_live; } };
struct Boom { uint64_t id; };
// The event log of a history: relaxed atomics only, so that the monitor itself orders nothing.
static std::atomic<uint64_t> g_seq(0); static std::atomic<int> g_tids(0);
static int my_tid() { static thread_local int t = g_tids.fetch_add(1, std::memory_order_relaxed); return t; }
static void on_run(Rec &r) { r.seq.store(g_seq.fetch_add(1, std::memory_order_relaxed), std::memory_order_relaxed); r.tid.store(my_tid(), std::memory_order_relaxed); r.runs.fetch_add(1, std::memory_order_relaxed); progress(); }

struct Member { uint64_t base; uint64_t f(Rec *r, uint64_t x) { on_run(*r); return base + x; } };
static uint64_t free_fn(Rec *r, uint64_t a, const Counted &c) { on_run(*r); return a ^ c.v; }
static void ref_fn(Rec *r, uint64_t &out, uint64_t a) { out = a; on_run(*r); }
static uint64_t want_free(uint64_t a, uint64_t c) { return a ^ c; }

// One history: producers submit a mix of tasks (some of which submit more), futures are checked, the pool is destroyed with work pending.
static void history(Rng &r, size_t idx) {
	int workers = 1 + (int)r.below(r.coin(4) ? 12 : 4), producers = 1 + (int)r.below(4); size_t per = r.coin(5) ? 200 : 1 + r.below(30); int chaos = (int)r.below(4); bool early = r.coin(3); uint64_t seed = r.u64();
	ctx("history %zu: %d workers, %d producers x %zu tasks, chaos %d, early destruction %d", idx, workers, producers, per, chaos, early);
	std::vector<std::vector<Rec>> recs(producers); for (auto &v : recs) v = std::vector<Rec>(per); std::vector<Rec> child(producers * per); std::atomic<uint64_t> nested(0), nested_rejected(0);
	std::vector<std::vector<uint64_t>> side(producers, std::vector<uint64_t>(per, 0)); // written by tasks, read after the future is ready: no other synchronisation
	int before = threads_now(); g_chaos = chaos;
	{
		std::unique_ptr<ThreadPool> pool(new ThreadPool(workers));
		if (pool->size() != workers) M.fail("pool:size", fmt("%d instead of %d", pool->size(), workers));
		ThreadPool *pp = pool.get();
		auto produce = [&](int p) {
			Rng q(mix64(seed + p)); std::vector<std::function<void()>> later;
			for (size_t i = 0; i < per; ++i) {
				Rec *rec = &recs[p][i]; rec->accepted = true; uint64_t a = q.u64(); uint64_t *slot = &side[p][i]; std::string where = fmt("task %d/%zu of %zu", p, i, idx);
				switch (q.below(8)) {
				case 6: { std::shared_ptr<std::future<void>> f(new std::future<void>(pp->enqueue(ref_fn, rec, std::ref(*slot), a))); later.push_back([=] { f->get(); if (*slot != a) M.fail("pool:reference-argument", where); }); break; }
				case 0: { Counted c(q.u64()); uint64_t w = want_free(a, c.v); std::shared_ptr<std::future<uint64_t>> f(new std::future<uint64_t>(pp->enqueue(free_fn, rec, a, c))); c.v = 0; later.push_back([=] { if (f->get() != w) M.fail("pool:value", where); }); break; }
				case 1: { std::shared_ptr<std::future<void>> f(new std::future<void>(pp->enqueue([=] { on_run(*rec); throw Boom{a}; }))); later.push_back([=] { try { f->get(); M.fail("pool:exception-lost", where); } catch (Boom &b) { if (kPayload && b.id != a) M.fail("pool:exception-changed", where); } }); break; }
				case 2: { std::shared_ptr<std::future<void>> f(new std::future<void>(pp->enqueue([=] { *slot = a; on_run(*rec); }))); later.push_back([=] { f->get(); if (*slot != a) M.fail("pool:effect-not-visible", where); }); break; }
				case 3: { auto m = std::make_shared<Member>(); m->base = a; std::shared_ptr<std::future<uint64_t>> f(new std::future<uint64_t>(pp->enqueue(&Member::f, m.get(), rec, (uint64_t)i))); later.push_back([=] { if (f->get() != m->base + i) M.fail("pool:value", where); }); break; }
				case 4: { Rec *ch = &child[p * per + i]; std::atomic<uint64_t> *nn = &nested, *nr = &nested_rejected; std::shared_ptr<std::future<void>> f(new std::future<void>(pp->enqueue([=] { on_run(*rec); try { pp->enqueue([ch] { on_run(*ch); }); ch->accepted = true; nn->fetch_add(1); } catch (const std::runtime_error &) { nr->fetch_add(1); } }))); later.push_back([=] { f->get(); }); break; }
				case 5: { std::shared_ptr<std::future<std::thread::id>> f(new std::future<std::thread::id>(pp->enqueue([=] { on_run(*rec); return std::this_thread::get_id(); }))); std::thread::id me = std::this_thread::get_id(); later.push_back([=] { if (f->get() == me) M.fail("pool:ran-on-submitter", where); }); break; }
				default: pp->enqueue([=] { on_run(*rec); if (a % 64 == 0) usleep(200); }); // result ignored
				}
				if (later.size() && q.coin(3)) { later.back()(); later.pop_back(); } // wait for it at once
				if (q.coin(20)) usleep(q.below(200));
			}
			if (!early || q.coin()) for (auto &f : later) f(); else return later; later.clear(); return later;
		};
		std::vector<std::thread> t; std::vector<std::vector<std::function<void()>>> rest(producers); for (int p = 1; p < producers; ++p) t.emplace_back([&, p] { rest[p] = produce(p); }); rest[0] = produce(0); for (auto &x : t) x.join();
		pool.reset(); // with work still queued when early
		for (int p = 0; p < producers; ++p) for (auto &rec : recs[p]) if (rec.runs != 1) { M.fail("pool:not-exactly-once", fmt("%s: a task accepted before destruction ran %d times", g_ctx, (int)rec.runs)); p = producers; break; }
		for (auto &c : child) if (c.runs != (c.accepted ? 1 : 0)) { M.fail("pool:not-exactly-once", fmt("%s: a nested task (accepted %d) ran %d times", g_ctx, c.accepted, (int)c.runs)); break; }
		for (auto &v : rest) for (auto &f : v) f();
	}
	g_chaos = 0;
	for (int i = 0; i < 4000 && threads_now() > before; ++i) usleep(500);
	if (threads_now() > before) M.fail("pool:threads-left", fmt("%d threads before, %d after", before, threads_now()));
	if (g_live != 0) M.fail("pool:tasks-not-released", fmt("%ld task arguments still alive", (long)g_live));
	// The interleaving observed: which task ran when, on which worker.
	std::vector<std::array<uint64_t, 3>> log; uint64_t id = 0; for (auto &v : recs) for (auto &x : v) { log.push_back({x.seq, ++id, (uint64_t)(int)x.tid}); } for (auto &x : child) { ++id; if (x.accepted) log.push_back({x.seq, id, (uint64_t)(int)x.tid}); } std::sort(log.begin(), log.end());
	std::map<uint64_t, uint64_t> w; uint64_t hsh = mix64(workers * 1000003ULL + producers * 1009 + per * 17 + chaos); for (auto &e : log) { uint64_t k = w.emplace(e[2], w.size()).first->second; hsh = mix64(hsh ^ (e[1] * 64 + k)); }
	if ((int)w.size() > workers) M.fail("pool:foreign-thread", fmt("%zu threads ran tasks, %d workers", w.size(), workers)); M.count(fmt("ran_on_%zu_workers", w.size()).c_str());
	M.eval(hsh, producers * per); M.count("tasks", producers * per); M.count("nested_accepted", nested); M.count("nested_rejected", nested_rejected); M.count("histories"); if (M.want_sample()) M.sample(g_ctx); progress();
}
// As many tasks as workers are in progress at once: they all meet at a barrier.
static void barrier(Rng &r) {
	int n = r.coin(15) ? 32 + (int)r.below(100) : 1 + (int)r.below(10), rounds = 1 + (int)r.below(4); ctx("barrier of %d tasks on %d workers", n, n); g_chaos = (int)r.below(3); { ThreadPool pool(n); if (r.coin()) usleep(2000); // let the workers go to sleep
		for (int k = 0; k < rounds; ++k) { std::mutex m; std::condition_variable cv; int in = 0; std::vector<std::future<bool>> f; for (int i = 0; i < n; ++i) { f.push_back(pool.enqueue([&] { std::unique_lock<std::mutex> l(m); ++in; cv.notify_all(); progress(); auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20); while (in < n) { if (cv.wait_until(l, end) == std::cv_status::timeout) return in >= n; } return true; })); if (r.coin(4)) usleep(r.below(400)); } bool ok = true; for (auto &x : f) ok &= x.get(); if (!ok) M.fail("pool:too-few-in-progress", fmt("%d tasks on %d workers never ran at the same time", n, n)); M.eval(mix64(n * 64 + k), n); M.count("barriers"); progress(); } } g_chaos = 0;
}
// A single submitter with one worker: tasks run in the order they were accepted.
static void order(Rng &r) { size_t n = 1 + r.below(200); ctx("order of %zu tasks", n); g_chaos = (int)r.below(3); std::vector<size_t> seen; { ThreadPool pool(1); for (size_t i = 0; i < n; ++i) pool.enqueue([&seen, i] { seen.push_back(i); progress(); }); } g_chaos = 0; bool ok = seen.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = seen[i] == i; if (!ok) M.fail("pool:order", fmt("%zu of %zu tasks, not in order of submission", seen.size(), n)); M.eval(mix64(n), n); M.count("order_runs"); }
// One task at a time, waiting for each: a lost wake-up stops everything.
static void pingpong(Rng &r) { int w = 1 + (int)r.below(4); ctx("ping-pong on %d workers", w); g_chaos = 1 + (int)r.below(3); { ThreadPool pool(w); for (int i = 0; i < 150; ++i) { auto f = pool.enqueue([i] { return i; }); if (f.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { M.fail("pool:lost-wakeup", fmt("a task accepted by an idle pool of %d workers did not run within 40 s", w)); M.finish(); } if (f.get() != i) M.fail("pool:value", "ping-pong"); progress(); if (r.coin(10)) usleep(r.below(200)); } } g_chaos = 0; M.eval(mix64(w + 99), 150); M.count("pingpong_tasks", 150); }
// A running task keeps submitting until it is told the pool is stopping; everything it got in must still run.
static void submit_while_stopping(Rng &r) {
	int w = 1 + (int)r.below(4); ctx("submitting while %d workers are being stopped", w); g_chaos = (int)r.below(3); std::atomic<uint64_t> accepted(0), ran(0), thrown(0), wrong(0); std::atomic<bool> go(false), started(false); int subs = 1 + (int)r.below(w); bool pending = r.coin();
	{ std::unique_ptr<ThreadPool> pool(new ThreadPool(w)); ThreadPool *pp = pool.get(); std::atomic<int> up(0);
		for (int k = 0; k < subs; ++k) pp->enqueue([&] { ++up; while (!go) usleep(50); auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20); for (;;) { try { pp->enqueue([&] { ran.fetch_add(1); }); accepted.fetch_add(1); } catch (const std::runtime_error &) { thrown.fetch_add(1); break; } catch (...) { wrong.fetch_add(1); break; } progress(); usleep(20); if (std::chrono::steady_clock::now() > end) break; } });
		while (up < subs) usleep(50); if (pending) for (int i = 0; i < 20; ++i) { pp->enqueue([&] { ran.fetch_add(1); }); accepted.fetch_add(1); } go = true; if (r.coin()) usleep(r.below(1000)); }
	g_chaos = 0; if (wrong) M.fail("pool:wrong-exception", "enqueue on a stopping pool threw something else"); if (thrown != (uint64_t)subs) M.fail("pool:accepts-while-stopping", fmt("%d of %d submitters were refused by a pool being destroyed within 20 s", (int)thrown, subs)); if (accepted != ran) M.fail("pool:not-exactly-once", fmt("%llu tasks accepted around destruction, %llu ran", (unsigned long long)accepted, (unsigned long long)ran));
	M.eval(mix64(w * 8 + subs), accepted); M.count("stop_races"); M.count("accepted_near_stop", accepted); progress();
}
// Fewer waiting tasks than workers: whoever is free must get to the tasks they wait for, however long the queue.
static void dependencies(Rng &r) {
	int w = 2 + (int)r.below(6), k = 1 + (int)r.below(w - 1), fill = (int)r.below(3 * w); ctx("%d tasks waiting for later ones on %d workers, %d others", k, w, fill); g_chaos = (int)r.below(3); bool hold = r.coin(4) ? false : true;
	std::promise<void> gate; std::shared_future<void> open(gate.get_future()); std::vector<std::shared_ptr<std::promise<void>>> ps; std::vector<std::future<void>> f; std::unique_ptr<ThreadPool> pool(new ThreadPool(w)); std::atomic<int> ran(0); int total = 0;
	if (hold) for (int i = 0; i < w; ++i, ++total) f.push_back(pool->enqueue([open, &ran] { open.wait(); progress(); ++ran; }));
	std::vector<int> plan; for (int i = 0; i < k; ++i) plan.push_back(1); for (int i = 0; i < fill; ++i) plan.push_back(0); for (size_t i = plan.size(); i > 1; --i) std::swap(plan[i - 1], plan[r.below(i)]);
	auto setter = [&] { auto p = ps.back(); ps.pop_back(); f.push_back(pool->enqueue([p, &ran] { p->set_value(); progress(); ++ran; })); ++total; };
	for (int what : plan) { if (what) { auto p = std::make_shared<std::promise<void>>(); std::shared_future<void> d(p->get_future()); f.push_back(pool->enqueue([d, &ran] { d.wait(); progress(); ++ran; })); ++total; ps.push_back(p); if (r.coin()) setter(); } else { f.push_back(pool->enqueue([&ran] { progress(); ++ran; })); ++total; } }
	while (ps.size()) setter(); gate.set_value(); auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40); bool ok = true; for (auto &x : f) if (x.wait_until(end) != std::future_status::ready) { ok = false; break; }
	if (!ok) { M.fail("pool:dependent-tasks-stuck", g_ctx); M.finish(); } // the pool cannot be destroyed any more
	pool.reset(); g_chaos = 0; if (ran != total) M.fail("pool:not-exactly-once", g_ctx); M.eval(mix64(w * 64 + k * 8 + fill) + hold, total); M.count("dependency_runs"); progress();
}
// A long backlog: every worker is held (or is itself submitting) while tasks pile up; nothing may be dropped, refused or wait for room.
static void backlog(Rng &r, size_t n, bool from_task) {
	int w = 1 + (int)r.below(3); ctx("%zu tasks piled up on %d workers, submitted by %s", n, w, from_task ? "a task on every worker" : "another thread"); std::vector<uint8_t> runs(n, 0); std::vector<uint32_t> seq(n, 0); std::atomic<uint32_t> tick(0); int subs = from_task ? w : 1;
	{ ThreadPool pool(w); std::atomic<bool> go(false); std::atomic<int> up(0); std::vector<std::future<void>> f; uint8_t *rp = runs.data(); uint32_t *sp = seq.data();
		for (int k = 0; k < w; ++k) f.push_back(pool.enqueue([&, k] { ++up; if (!from_task) { while (!go) usleep(100); return; } while (up < w) usleep(50); for (size_t i = k; i < n; i += w) { pool.enqueue([rp, sp, i, &tick] { ++rp[i]; sp[i] = tick.fetch_add(1, std::memory_order_relaxed); if (i % 256 == 0) progress(); }); if (i % 256 == 0) progress(); } }));
		if (!from_task) { while (up < w) usleep(50); for (size_t i = 0; i < n; ++i) { pool.enqueue([rp, sp, i, &tick] { ++rp[i]; sp[i] = tick.fetch_add(1, std::memory_order_relaxed); if (i % 256 == 0) progress(); }); if (i % 256 == 0) progress(); } go = true; }
		for (auto &x : f) x.get(); }
	size_t bad = 0, disorder = 0; for (size_t i = 0; i < n; ++i) { bad += runs[i] != 1; if (w == 1 && i && seq[i] < seq[i - 1]) ++disorder; } (void)subs; if (bad) M.fail("pool:not-exactly-once", fmt("%zu of %zu tasks of a long backlog did not run exactly once (%s)", bad, n, g_ctx)); if (disorder) M.fail("pool:order", fmt("%s: %zu tasks overtook their predecessor", g_ctx, disorder)); M.eval(mix64(n * 16 + w * 2 + from_task), n); M.count("backlog_tasks", n); progress();
}
// Construction and immediate destruction, with and without work.
static void short_lives(Rng &r) { for (int i = 0; i < 20; ++i) { int w = 1 + (int)r.below(6), k = (int)r.below(4); ctx("short-lived pool of %d workers, %d tasks", w, k); g_chaos = (int)r.below(4); std::atomic<int> ran(0); { ThreadPool p(w); for (int j = 0; j < k; ++j) p.enqueue([&] { ++ran; }); } g_chaos = 0; if (ran != k) M.fail("pool:not-exactly-once", fmt("%d of %d tasks ran before destruction ended", (int)ran, k)); M.eval(mix64(w * 8 + k + 7000), k); progress(); } M.count("short_lives", 20); }
int main(int argc, char **argv) {
	init(argc, argv); start_watchdog(60); Rng r = M.rng(1); g_salt = mix64(M.seed * 31 + M.shard); size_t n = M.n(120);
	for (int k = 0; k < 2; ++k) { size_t b = std::min<size_t>(M.n(20000), kPayload ? 100000 : 30000); for (int j = 0; j < 2; ++j) backlog(r, b + r.below(b), j); }
	for (size_t i = 0; i < n; ++i) { history(r, i); if (i % 2 == 0) barrier(r); if (i % 2 == 1) dependencies(r); if (i % 4 == 0) order(r); if (i % 4 == 1) pingpong(r); if (i % 3 == 0) submit_while_stopping(r); if (i % 4 == 2) short_lives(r); }
	M.count("injected_delays", g_delays); M.count("injected_spurious_wakeups", g_spurious); M.count("lock_events", g_locks); return done();
}
