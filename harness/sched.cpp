#include "sched.h"
#include "trace.h"
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
}

namespace {
enum State { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_PRED, DONE };
struct Th {
    sem_t sem; State st; const void *on; int joinee; long long deadline; // -1: none
    int wake; // 1 signalled, 2 timeout, 3 spurious
    const std::function<bool()> *pred;
    pthread_t pt; bool real, joined, own;
    void *(*fn)(void *); void *arg;
    std::function<void()> f;
    void *ret;
};
std::vector<Th *> T;
thread_local int me = -1;
bool active = false;
std::map<const void *, int> owner; // mutex -> holder, absent: free
long long clock_us = 0;
bool aborted_flag = false;
sched::Options opt;
std::vector<std::string> lines;
std::string scen_line;
sched::Stats stats;
int used_pre, used_spur, used_tick;
long nsteps;

struct Choice { int c, n; };
std::vector<Choice> path; size_t pos;
bool randomMode = false; Rng rng(1);

std::set<std::string> seen;

void writeLines() {
    std::string all;
    for (auto &l : lines) { all += l; all += "\n"; }
    if (!seen.insert(all).second) return;
    ++stats.distinct;
    all = scen_line + "\n" + all;
    fwrite(all.data(), 1, all.size(), Out::file());
    fflush(Out::file());
}

[[noreturn]] void fatal(const std::string &ev) {
    lines.push_back(ev);
    writeLines();
    _exit(0);
}

int choose(int n) {
    if (n <= 1) return 0;
    if (randomMode) return int(rng.next() % uint64_t(n));
    if (pos < path.size()) {
        if (path[pos].n != n) { fprintf(stderr, "nondeterministic replay %d %d\n", path[pos].n, n); _exit(3); }
        return path[pos++].c;
    }
    path.push_back({0, n}); ++pos;
    return 0;
}

bool enabled(int t) {
    Th *h = T[t];
    switch (h->st) {
    case RUN: return true;
    case BLK_MUTEX: return owner.find(h->on) == owner.end();
    case BLK_COND: return false;
    case BLK_JOIN: return T[h->joinee]->st == DONE;
    case BLK_PRED: return (*h->pred)();
    case DONE: return false;
    }
    return false;
}


// condition waiters remember their mutex here
std::map<int, const void *> waitMutex, waitCond;

void wakeCond(int t, int how) {
    Th *h = T[t];
    h->wake = how; h->st = BLK_MUTEX; h->on = waitMutex[t];
}

void timeouts() {
    for (size_t t = 0; t < T.size(); ++t) {
        Th *h = T[t];
        if (h->st == BLK_COND && h->deadline >= 0 && h->deadline <= clock_us) wakeCond(int(t), 2);
    }
}

// Pick the next thread to run and switch to it. cur is blocked, finished or yielding.
int pick(int cur) {
    ++stats.points;
    if (++nsteps > 20000) fatal("{\"e\":\"Livelock\"}");
    for (;;) {
        std::vector<int> en;
        bool curOk = cur >= 0 && T[cur]->st != DONE && enabled(cur);
        if (curOk) en.push_back(cur);
        for (size_t t = 0; t < T.size(); ++t) if (int(t) != cur && enabled(int(t))) en.push_back(int(t));
        std::vector<int> cw; long long first = -1;
        for (size_t t = 0; t < T.size(); ++t) if (T[t]->st == BLK_COND) {
            cw.push_back(int(t));
            if (T[t]->deadline >= 0 && (first < 0 || T[t]->deadline < first)) first = T[t]->deadline;
        }
        if (en.empty()) {
            if (first >= 0) { if (first > clock_us) clock_us = first; timeouts(); continue; }
            std::string b;
            for (size_t t = 0; t < T.size(); ++t) if (T[t]->st != DONE) { if (!b.empty()) b += ","; b += std::to_string(t); }
            std::string c;
            for (int t : cw) { if (!c.empty()) c += ","; c += std::to_string(t); }
            std::string ev = "{\"e\":\"Stuck\",\"blocked\":[" + b + "],\"waiting\":[" + c + "]}";
            if (opt.resolve_stuck && !cw.empty() && !aborted_flag) {
                lines.push_back(ev);
                aborted_flag = true;
                for (int t : cw) { lines.push_back("{\"e\":\"Spurious\",\"t\":" + std::to_string(t) + "}"); wakeCond(t, 3); }
                continue;
            }
            if (aborted_flag && !cw.empty()) {
                for (int t : cw) { lines.push_back("{\"e\":\"Spurious\",\"t\":" + std::to_string(t) + "}"); wakeCond(t, 3); }
                continue;
            }
            fatal(ev);
        }
        int nThread = int(en.size());
        bool canPre = randomMode || used_pre < opt.preemptions;
        if (curOk && !canPre) nThread = 1;
        int nSp = (used_spur < opt.spurious) ? int(cw.size()) : 0;
        int nTick = (used_tick < opt.ticks && first >= 0) ? 1 : 0;
        int n = nThread + nSp + nTick, c;
        if (randomMode) {
            // keep running with probability 1/2, extras with small probability
            if (curOk && rng.chance(1, 2)) c = 0;
            else if ((nSp + nTick) && rng.chance(1, 12)) c = nThread + int(rng.next() % uint64_t(nSp + nTick));
            else c = int(rng.next() % uint64_t(nThread));
        } else c = choose(n);
        if (c < nThread) { if (curOk && c > 0) ++used_pre; return en[c]; }
        c -= nThread;
        if (c < nSp) { ++used_spur; lines.push_back("{\"e\":\"Spurious\",\"t\":" + std::to_string(cw[c]) + "}"); wakeCond(cw[c], 3); continue; }
        ++used_tick; if (first > clock_us) clock_us = first; timeouts();
    }
}

void switchTo(int t) {
    int m = me;
    if (t == m) return;
    sem_post(&T[t]->sem);
    if (m >= 0 && T[m]->st != DONE) { while (sem_wait(&T[m]->sem) && errno == EINTR) {} }
}

void yield() { // give others a chance; returns when this thread is scheduled (and enabled)
    if (!active || me < 0) return;
    int t = pick(me);
    switchTo(t);
}

void block() { // this thread's state is set to blocked
    int t = pick(me);
    switchTo(t);
    T[me]->st = RUN;
}

void *tramp(void *p) {
    int t = int(intptr_t(p));
    me = t;
    while (sem_wait(&T[t]->sem) && errno == EINTR) {}
    Th *h = T[t];
    if (h->fn) h->ret = h->fn(h->arg); else h->f();
    lines.push_back("{\"e\":\"ThreadEnd\",\"t\":" + std::to_string(t) + "}");
    h->st = DONE;
    int n = pick(t);
    sem_post(&T[n]->sem);
    return h->ret;
}

int create(void *(*fn)(void *), void *arg, const std::function<void()> *f, pthread_t *out, const pthread_attr_t *a) {
    Th *h = new Th();
    sem_init(&h->sem, 0, 0);
    h->st = RUN; h->on = 0; h->deadline = -1; h->wake = 0; h->pred = 0; h->real = true; h->joined = false;
    h->fn = fn; h->arg = arg; h->ret = 0; h->own = !fn;
    if (f) h->f = *f;
    int t = int(T.size());
    T.push_back(h);
    pthread_t pt;
    int rc = __real_pthread_create(&pt, a, tramp, (void *)intptr_t(t));
    if (rc) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
    h->pt = pt;
    if (out) *out = pt;
    return t;
}
}

namespace sched {
void emit(const std::string &l) { lines.push_back(l); }
void point() { yield(); }
int self() { return me; }
long long now_us() { return clock_us; }
bool aborted() { return aborted_flag; }
void wait_until(const std::function<bool()> &p) {
    yield();
    if (p()) return;
    T[me]->st = BLK_PRED; T[me]->pred = &p;
    block();
}
int spawn(const std::function<void()> &f) { int t = create(0, 0, &f, 0, 0); yield(); return t; }
void join(int t) {
    if (T[t]->st != DONE) { T[me]->st = BLK_JOIN; T[me]->joinee = t; block(); }
    __real_pthread_join(T[t]->pt, 0);
    T[t]->joined = true;
}
int tid_of(unsigned long pt) {
    for (size_t t = T.size(); t-- > 0;) if (T[t]->real && (unsigned long)T[t]->pt == pt) return int(t);
    return -1;
}
bool finished(int t) { return T[t]->st == DONE; }
int live() { int n = 0; for (size_t t = 1; t < T.size(); ++t) if (T[t]->st != DONE) ++n; return n; }
int unjoined() { int n = 0; for (size_t t = 1; t < T.size(); ++t) if (!T[t]->joined) ++n; return n; }

static void runOnce(const std::function<void()> &body) {
    for (auto h : T) delete h;
    T.clear(); owner.clear(); waitMutex.clear(); waitCond.clear(); lines.clear();
    clock_us = opt.start_us; aborted_flag = false; used_pre = used_spur = used_tick = 0; nsteps = 0; pos = 0;
    Th *h = new Th(); sem_init(&h->sem, 0, 0); h->st = RUN; h->deadline = -1; h->real = true; h->joined = true; h->pt = pthread_self();
    T.push_back(h); me = 0; active = true;
    body();
    // let everything that still can run finish
    for (int g = 0; g < 100000 && live(); ++g) {
        bool any = false;
        for (size_t t = 1; t < T.size(); ++t) if (T[t]->st != DONE && enabled(int(t))) any = true;
        bool timed = false;
        for (auto x : T) if (x->st == BLK_COND && x->deadline >= 0) timed = true;
        if (!any && !timed) break;
        if (!any && timed) { for (auto x : T) if (x->st == BLK_COND && x->deadline > clock_us) clock_us = x->deadline; timeouts(); }
        Th *m = T[0];
        std::function<bool()> quiet = [&]() { for (size_t t = 1; t < T.size(); ++t) if (T[t]->st != DONE && enabled(int(t))) return false; return true; };
        if (!quiet()) { m->st = BLK_PRED; m->pred = &quiet; block(); }
    }
    active = false;
    lines.push_back("{\"e\":\"End\",\"live\":" + std::to_string(live()) + ",\"unjoined\":" + std::to_string(unjoined()) + "}");
    writeLines();
    if (live()) _exit(0); // leaked threads: nothing more can be explored in this process
    for (size_t t = 1; t < T.size(); ++t) if (!T[t]->joined) __real_pthread_detach(T[t]->pt);
    ++stats.runs;
}

Stats explore(const Options &o, const std::string &scenario, const std::function<void()> &body) {
    opt = o; stats = Stats(); path.clear(); seen.clear(); scen_line = scenario;
    randomMode = false;
    for (long r = 0; r < o.max_runs; ++r) {
        runOnce(body);
        while (!path.empty() && path.back().c + 1 >= path.back().n) path.pop_back();
        if (path.empty()) { stats.complete = true; break; }
        ++path.back().c;
    }
    randomMode = true; rng = Rng(o.seed);
    for (long r = 0; r < o.random_runs; ++r) runOnce(body);
    randomMode = false;
    return stats;
}
}

extern "C" {
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active || me < 0) return __real_pthread_create(out, a, fn, arg);
    create(fn, arg, 0, out, a);
    yield();
    return 0;
}
int __wrap_pthread_join(pthread_t pt, void **ret) {
    if (!active || me < 0) return __real_pthread_join(pt, ret);
    yield();
    int t = sched::tid_of((unsigned long)pt);
    if (t < 0) { lines.push_back("{\"e\":\"BadJoin\"}"); return ESRCH; }
    if (T[t]->joined || t == me) { lines.push_back("{\"e\":\"BadJoin\",\"t\":" + std::to_string(t) + "}"); return ESRCH; }
    if (T[t]->st != DONE) { T[me]->st = BLK_JOIN; T[me]->joinee = t; block(); }
    T[t]->joined = true;
    return __real_pthread_join(pt, ret);
}
int __wrap_pthread_detach(pthread_t pt) {
    if (!active || me < 0) return __real_pthread_detach(pt);
    lines.push_back("{\"e\":\"Detach\"}");
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_lock(m);
    yield();
    if (owner.count(m)) {
        if (opt.log_block) lines.push_back("{\"e\":\"Block\",\"t\":" + std::to_string(me) + "}");
        T[me]->st = BLK_MUTEX; T[me]->on = m; block();
    }
    owner[m] = me;
    yield();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_trylock(m);
    yield();
    if (owner.count(m)) { yield(); return EBUSY; }
    owner[m] = me;
    yield();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_unlock(m);
    owner.erase(m);
    yield();
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_destroy(m);
    owner.erase(m);
    return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, long long deadline) {
    yield();
    owner.erase(m);
    waitMutex[me] = m; waitCond[me] = c;
    Th *h = T[me];
    h->wake = 0; h->deadline = deadline; h->on = c;
    if (deadline >= 0 && deadline <= clock_us) { wakeCond(me, 2); }
    else h->st = BLK_COND;
    block();
    int w = h->wake;
    h->deadline = -1; h->st = RUN;
    waitCond.erase(me);
    owner[m] = me;
    return w == 2 ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_cond_wait(c, m);
    return condWait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!active || me < 0) return __real_pthread_cond_timedwait(c, m, ts);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) { yield(); return EINVAL; }
    // whole microseconds, rounded up: never earlier than asked
    long long d = (long long)ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000;
    if (d < 0) d = 0;
    return condWait(c, m, d);
}
static int wakeSome(pthread_cond_t *c, bool all) {
    yield();
    for (;;) {
        std::vector<int> w;
        for (auto &p : waitCond) if (p.second == c && T[p.first]->st == BLK_COND) w.push_back(p.first);
        if (w.empty()) break;
        int k = all ? 0 : choose(int(w.size()));
        wakeCond(w[k], 1);
        if (!all) break;
    }
    yield();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!active || me < 0) return __real_pthread_cond_signal(c);
    return wakeSome(c, false);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active || me < 0) return __real_pthread_cond_broadcast(c);
    return wakeSome(c, true);
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    if (!active || me < 0) return __real_gettimeofday(tv, tz);
    if (tv) { tv->tv_sec = clock_us / 1000000; tv->tv_usec = clock_us % 1000000; }
    return 0;
}
int __wrap_clock_gettime(clockid_t k, struct timespec *ts) {
    if (!active || me < 0) return __real_clock_gettime(k, ts);
    ts->tv_sec = clock_us / 1000000; ts->tv_nsec = (clock_us % 1000000) * 1000;
    return 0;
}
int __wrap_usleep(unsigned us) { if (active && me >= 0) { clock_us += us; timeouts(); yield(); } return 0; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *) { if (active && me >= 0) { clock_us += r->tv_sec * 1000000LL + r->tv_nsec / 1000; timeouts(); yield(); } return 0; }
int __wrap_sched_yield(void) { yield(); return 0; }
}

// Hooks of -fsanitize=thread instrumentation: every memory access of the code under test is a
// scheduling point of the random schedules (the thread sanitizer's runtime is not linked).
static inline void memPoint() { if (active && randomMode && opt.mem && me >= 0) yield(); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define VPH(n) void __tsan_read##n(void *) { memPoint(); } void __tsan_write##n(void *) { memPoint(); } \
  void __tsan_unaligned_read##n(void *) { memPoint(); } void __tsan_unaligned_write##n(void *) { memPoint(); } \
  void __tsan_volatile_read##n(void *) { memPoint(); } void __tsan_volatile_write##n(void *) { memPoint(); }
VPH(1) VPH(2) VPH(4) VPH(8) VPH(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *, unsigned long) { memPoint(); }
void __tsan_write_range(void *, unsigned long) { memPoint(); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
}
