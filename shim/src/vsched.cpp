// Controlled OpenMP runtime. Replaces libgomp for the modules under test: every
// parallel region runs on real threads that pass a single baton, so at each
// scheduling point the explorer decides which thread runs next and one recorded
// choice sequence reproduces one execution exactly.
#include "vsched.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))

namespace {
enum State { RUN, BLOCKED, DONE };
int cfg_threads = 1;
int cfg_mask = VS_SYNC;
std::vector<int> cfg_choices;

struct Point { int enabled, running_enabled, choice; };
std::vector<Point> trace;
int diverged = 0, live_ws = 0, regions = 0;
unsigned long counted[32];

struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool ull = false; int leaving = 0; };

struct Team {
    std::mutex m;
    std::vector<std::unique_ptr<std::condition_variable>> cv;
    std::vector<State> st;
    std::vector<const void *> wait_on;
    int cur = 0, n = 1, arrived = 0, generation = 0;
    std::map<int, WS> shares;
    WS first; bool has_first = false;
    std::map<int, int> singles;
};
Team *team = nullptr;
thread_local int tid = 0;
thread_local bool in_region = false;
thread_local int share_idx = 0, single_idx = 0;
thread_local std::unique_lock<std::mutex> *held = nullptr;
std::map<const void *, int> locks;    // lock -> owner+1 (guarded by baton)

int pick(bool running_enabled) {      // caller holds team->m
    std::vector<int> en;
    if (running_enabled) en.push_back(tid);
    for (int i = 0; i < team->n; ++i)
        if (team->st[i] == RUN && !(running_enabled && i == tid)) en.push_back(i);
    if (en.empty()) return -1;
    if (en.size() == 1) return en[0];
    size_t pos = trace.size();
    int c = pos < cfg_choices.size() ? cfg_choices[pos] : 0;
    if (c < 0 || c >= (int) en.size()) { diverged = 1; c = 0; }
    trace.push_back(Point{(int) en.size(), running_enabled, c});
    return en[c];
}
void hand_over(std::unique_lock<std::mutex> &l, int next) {
    if (next == tid) return;
    team->cur = next;
    team->cv[next]->notify_one();
    if (team->st[tid] == DONE) return;
    team->cv[tid]->wait(l, [] { return team->cur == tid; });
}
void deadlock() {
    fprintf(stderr, "vsched: deadlock\n"); fflush(stderr);
    abort();
}
void block_until_runnable(std::unique_lock<std::mutex> &l) {
    team->st[tid] = BLOCKED;
    int nx = pick(false);
    if (nx < 0) deadlock();
    hand_over(l, nx);
}
void acquire(const void *k) {
    if (!team || !in_region) { return; }
    vs_point(VS_SYNC);
    std::unique_lock<std::mutex> l(team->m);
    while (locks[k]) { team->wait_on[tid] = k; block_until_runnable(l); }
    locks[k] = tid + 1;
}
void release(const void *k) {
    if (!team || !in_region) { return; }
    {
        std::unique_lock<std::mutex> l(team->m);
        locks[k] = 0;
        for (int i = 0; i < team->n; ++i)
            if (team->st[i] == BLOCKED && team->wait_on[i] == k) { team->st[i] = RUN; team->wait_on[i] = nullptr; }
    }
    vs_point(VS_SYNC);
}
}  // namespace

extern "C" void vs_point(int kind) {
    for (int b = 0; b < 5; ++b) if (kind & (1 << b)) ++counted[b];
    if (!team || !in_region || team->n == 1 || !(kind & cfg_mask)) return;
    std::unique_lock<std::mutex> l(team->m);
    int nx = pick(true);
    hand_over(l, nx);
}
static std::mutex ws_mutex;
extern "C" void vs_live_workspaces(int d) { std::lock_guard<std::mutex> g(ws_mutex); live_ws += d; }

API void vs_config(int threads, int mask, const int *choices, int n) {
    cfg_threads = threads; cfg_mask = mask | VS_SYNC;
    cfg_choices.assign(choices, choices + n);
    trace.clear(); diverged = 0; regions = 0;
    for (auto &c : counted) c = 0;
}
API int vs_trace_len() { return (int) trace.size(); }
API void vs_trace_get(int *out) {
    for (size_t i = 0; i < trace.size(); ++i) { out[3 * i] = trace[i].enabled; out[3 * i + 1] = trace[i].running_enabled; out[3 * i + 2] = trace[i].choice; }
}
API int vs_diverged() { return diverged; }
API int vs_workspaces() { return live_ws; }
API int vs_regions() { return regions; }
API unsigned long vs_count(int bit) { return counted[bit]; }

extern "C" {
int omp_get_thread_num() { return in_region ? tid : 0; }
int omp_get_num_threads() { return in_region && team ? team->n : 1; }
int omp_get_max_threads() { return cfg_threads; }
int omp_get_num_procs() { return cfg_threads; }
int omp_in_parallel() { return in_region && team && team->n > 1; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) {
    int n = num ? (int) num : cfg_threads;
    if (n > 16) n = 16;
    if (in_region || (n == 1 && !team)) {
        if (in_region) { fn(data); return; }
        // one thread: run in place, but keep work-sharing state valid
        Team t; t.n = 1; t.st.assign(1, RUN); t.wait_on.assign(1, nullptr);
        t.cv.emplace_back(new std::condition_variable());
        team = &t; in_region = true; tid = 0; share_idx = single_idx = 0; ++regions;
        fn(data);
        in_region = false; team = nullptr;
        return;
    }
    Team t; t.n = n; t.st.assign(n, RUN); t.wait_on.assign(n, nullptr);
    for (int i = 0; i < n; ++i) t.cv.emplace_back(new std::condition_variable());
    team = &t; ++regions;
    locks.clear();
    std::vector<std::thread> th;
    auto body = [&t, fn, data](int id) {
        tid = id; in_region = true; share_idx = single_idx = 0;
        { std::unique_lock<std::mutex> l(t.m); if (id) t.cv[id]->wait(l, [&t, id] { return t.cur == id; }); }
        vs_point(VS_SYNC);
        fn(data);
        std::unique_lock<std::mutex> l(t.m);
        t.st[id] = DONE;
        int nx = pick(false);
        if (nx >= 0) hand_over(l, nx);
        else {
            for (int i = 0; i < t.n; ++i) if (t.st[i] != DONE) deadlock();
            t.cur = -1; t.cv[0]->notify_all();
        }
        in_region = false;
    };
    for (int i = 1; i < n; ++i) th.emplace_back(body, i);
    body(0);
    { std::unique_lock<std::mutex> l(t.m); t.cv[0]->wait(l, [&t] { return t.cur == -1; }); }
    for (auto &x : th) x.join();
    team = nullptr; tid = 0;
}

void GOMP_barrier() {
    if (!team || !in_region || team->n == 1) return;
    vs_point(VS_SYNC);
    std::unique_lock<std::mutex> l(team->m);
    if (++team->arrived == team->n) {
        team->arrived = 0;
        for (int i = 0; i < team->n; ++i)
            if (team->st[i] == BLOCKED && team->wait_on[i] == team) { team->st[i] = RUN; team->wait_on[i] = nullptr; }
    } else { team->wait_on[tid] = team; block_until_runnable(l); }
}
static char critical_default, atomic_default;
void GOMP_critical_start() { acquire(&critical_default); }
void GOMP_critical_end() { release(&critical_default); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start() { acquire(&atomic_default); }
void GOMP_atomic_end() { release(&atomic_default); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { acquire(p); }
void omp_unset_lock(void *p) { release(p); }
bool GOMP_single_start() {
    if (!team || team->n == 1) return true;
    vs_point(VS_SYNC);
    std::unique_lock<std::mutex> l(team->m);
    return team->singles[single_idx++]++ == 0;
}

// ---- work sharing: every "take the next chunk" is a scheduling point
static WS pending; static bool has_pending = false;
static WS *share() {
    WS &w = team->shares[share_idx];
    if (!w.init && has_pending && share_idx == 0) { w = pending; w.init = true; }
    return &w;
}
static bool take(long *is, long *ie) {
    vs_point(VS_SYNC);
    std::unique_lock<std::mutex> l(team->m);
    WS *w = share();
    bool up = w->incr > 0;
    if (up ? w->next >= w->end : w->next <= w->end) return false;
    *is = w->next;
    long e = w->next + w->incr * w->chunk;
    if (up ? e > w->end : e < w->end) e = w->end;
    *ie = e; w->next = e;
    return true;
}
static void init_share(long s, long e, long i, long c) {
    std::unique_lock<std::mutex> l(team->m);
    WS &w = team->shares[share_idx];
    if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; }
}
static Team *solo() { static Team t; t.n = 1; t.st.assign(1, RUN); t.wait_on.assign(1, nullptr); return &t; }
static void ensure_team() { if (!team) { team = solo(); } }
void GOMP_loop_end_nowait() { ++share_idx; }
void GOMP_loop_end() { ++share_idx; GOMP_barrier(); }

#define LOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { ensure_team(); init_share(s, e, i, c); return take(is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return take(is, ie); } \
bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { ensure_team(); init_share((long) s, (long) e, (long) i, (long) c); return take((long *) is, (long *) ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return take((long *) is, (long *) ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned num, long s, long e, long i, long c, unsigned f) { \
    pending = WS(); pending.next = s; pending.end = e; pending.incr = i; pending.chunk = c < 1 ? 1 : c; has_pending = true; \
    GOMP_parallel(fn, data, num, f); has_pending = false; }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define LOOPS_RT(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { ensure_team(); init_share(s, e, i, 1); return take(is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return take(is, ie); } \
bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { ensure_team(); init_share((long) s, (long) e, (long) i, 1); return take((long *) is, (long *) ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return take((long *) is, (long *) ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned num, long s, long e, long i, unsigned f) { \
    pending = WS(); pending.next = s; pending.end = e; pending.incr = i; pending.chunk = 1; has_pending = true; \
    GOMP_parallel(fn, data, num, f); has_pending = false; }
LOOPS_RT(runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
LOOPS_RT(nonmonotonic_runtime)
}
