// Thread, Mutex/MutexLocker and Condition under the controlled scheduler (modes life, mutex, cond).
#include "sched.h"
#include "trace.h"
#include "thread/Thread.h"
#include <memory>
using namespace sched;
static std::string J(const char *e, const std::string &rest = "") { return std::string("{\"e\":\"") + e + "\"" + rest + "}"; }
static std::string N(const char *k, long long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static std::string B(const char *k, bool v) { return std::string(",\"") + k + "\":" + (v ? "true" : "false"); }

static long runs, distinct_, complete_, points_;
static void go(const Options &o, const std::string &scen, const std::function<void()> &f) {
    Stats st = explore(o, scen, f);
    runs += st.runs; distinct_ += st.distinct; complete_ += st.complete; points_ += st.points;
}

// ------------------------------------------------------------------ life
class T1 : public Thread {
public:
    T1(int kk, int c) : k(kk), callerT(c) {}
    int k, callerT; int begun = 0, ended = 0; int steps = 1;
protected:
    void run() {
        int t = self();
        ++begun;
        emit(J("RunBegin", N("k", k) + N("t", t) + N("caller", callerT)));
        for (int i = 0; i < steps; ++i) point();
        ++ended;
        emit(J("RunEnd", N("k", k) + N("t", t)));
    }
};

// script letters: s start, w wait, i id, b wait until the run has begun, e until it has ended
static void life(int k, const std::string &script, int steps) {
    T1 *th = new T1(k, self());
    th->steps = steps;
    emit(J("Create", N("k", k)));
    int starts = 0;
    for (char c : script) {
        if (c == 's') { emit(J("Start", N("k", k))); ++starts; th->start(); emit(J("Started", N("k", k))); }
        if (c == 'w') { emit(J("Wait", N("k", k))); th->wait(); emit(J("Waited", N("k", k))); }
        if (c == 'i') { int t = tid_of((unsigned long)th->id()); emit(J("Id", N("k", k) + N("t", t))); }
        if (c == 'b') wait_until([&]() { return th->begun >= starts; });
        if (c == 'e') wait_until([&]() { return th->ended >= starts; });
        if (c == 'p') point();
    }
    emit(J("Destroy", N("k", k)));
    delete th;
    emit(J("Destroyed", N("k", k)));
}

static void modeLife() {
    Args &a = Args::get();
    // all scripts within the contract: start only when not running; before destruction without a
    // wait the run must have begun (the object's run() must still exist)
    std::vector<std::string> scripts;
    std::vector<std::string> todo(1, "");
    int maxLen = a.pick(5, 7);
    while (!todo.empty()) {
        std::string s = todo.back(); todo.pop_back();
        bool running = false, begun = false;
        for (char c : s) { if (c == 's') { running = true; begun = false; } if (c == 'w') running = false; if (c == 'b' || c == 'e') begun = true; }
        if (!running || begun) scripts.push_back(s);
        if ((int)s.size() >= maxLen) continue;
        for (char c : std::string("swibe")) {
            if (c == 's' && running) continue;
            if ((c == 'b' || c == 'e') && (!running || begun)) continue;
            if (c == 'i' && (s.empty() || s.find('s') == std::string::npos || !running || s.back() == 'i')) continue;
            if (c == 'w' && s.size() >= 2 && s.substr(s.size() - 2) == "ww") continue;
            todo.push_back(s + c);
        }
    }
    Scen sc;
    for (auto &s : scripts) {
        if (!sc.begin()) continue;
        Options o; o.preemptions = 2; o.max_runs = a.pick(150, 3000); o.random_runs = a.pick(60, 400); o.seed = a.seed * 77 + sc.n;
        go(o, J("Scenario", N("n", sc.n) + ",\"script\":\"" + s + "\""), [&]() { life(0, s, 1); });
    }
    std::vector<std::pair<std::string, std::string>> duo = {{"sw", "sw"}, {"sbw", "se"}, {"swsw", "sb"}, {"si", ""}, {"ssw", ""}, {"sib", "siw"}};
    for (auto &d : duo) {
        if (d.first == "si" || d.first == "ssw") continue;
        if (!sc.begin()) continue;
        Options o; o.preemptions = 2; o.max_runs = a.pick(800, 20000); o.random_runs = a.pick(400, 5000); o.seed = a.seed * 77 + sc.n;
        go(o, J("Scenario", N("n", sc.n) + ",\"script\":\"" + d.first + "|" + d.second + "\""), [&]() {
            int t = spawn([&]() { life(1, d.second, 2); });
            life(0, d.first, 1);
            join(t);
        });
    }
}

// ------------------------------------------------------------------ mutex
// program letters on mutex m: L lock, U unlock, T trylock (then unlock if obtained), t trylock while held,
// S scoped locker, N locker without mutex, X unlock without holding, Y locker nested with early return, p point
static void mprog(const std::string &p, std::vector<Mutex *> &ms) {
    int t = self();
    size_t i = 0;
    auto lock = [&](int m) { emit(J("Lock", N("t", t) + N("m", m))); ms[m]->lock(); emit(J("Locked", N("t", t) + N("m", m))); };
    auto unlock = [&](int m) { emit(J("Unlock", N("t", t) + N("m", m))); ms[m]->unlock(); emit(J("Unlocked", N("t", t) + N("m", m))); };
    auto tryl = [&](int m) { emit(J("Try", N("t", t) + N("m", m))); bool r = ms[m]->trylock(); emit(J("Tried", N("t", t) + N("m", m) + B("r", r))); return r; };
    while (i < p.size()) {
        char c = p[i++];
        int m = 0;
        if (i < p.size() && (p[i] == '1')) { m = 1; ++i; }
        switch (c) {
        case 'L': lock(m); break;
        case 'U': unlock(m); break;
        case 'X': unlock(m); break;
        case 'T': if (tryl(m)) { point(); unlock(m); } break;
        case 't': tryl(m); break;
        case 'p': point(); break;
        case 'S': {
            emit(J("Lock", N("t", t) + N("m", m)));
            { MutexLocker l(ms[m]);
              emit(J("Locked", N("t", t) + N("m", m)));
              point();
              emit(J("Unlock", N("t", t) + N("m", m))); }
            emit(J("Unlocked", N("t", t) + N("m", m)));
            break; }
        case 'Y': { // left by an exception
            emit(J("Lock", N("t", t) + N("m", m)));
            try { MutexLocker l(ms[m]);
                  emit(J("Locked", N("t", t) + N("m", m)));
                  point();
                  emit(J("Unlock", N("t", t) + N("m", m)));
                  throw 1; } catch (int) {}
            emit(J("Unlocked", N("t", t) + N("m", m)));
            break; }
        case 'N': { MutexLocker l(0); point(); break; }
        }
    }
}
static void modeMutex() {
    Args &a = Args::get();
    std::vector<std::string> ps = {"LU", "T", "LtU", "S", "X", "NLU", "LUT", "TT", "Y", "LUX", "LULU", "TX"};
    std::vector<std::vector<std::string>> sets;
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i; j < ps.size(); ++j) sets.push_back({ps[i], ps[j]});
    const char *tri[][3] = {{"LU", "LU", "T"}, {"S", "LU", "X"}, {"T", "T", "T"}, {"LtU", "S", "T"}, {"LUX", "LU", "T"}, {"TX", "Y", "LU"}, {"LU", "LU", "LU"}};
    for (auto &t : tri) sets.push_back({t[0], t[1], t[2]});
    const char *two[][2] = {{"LL1U1U", "LL1U1U"}, {"LL1UU1", "T1T"}, {"LT1U", "L1U1"}, {"LX1U", "L1t1U1"}, {"S1S", "LU"}};
    for (auto &t : two) sets.push_back({t[0], t[1]});
    Scen sc;
    for (auto &s : sets) {
        if (!sc.begin()) continue;
        Options o; o.preemptions = s.size() == 3 ? 2 : 3; o.max_runs = a.pick(1200, 30000); o.random_runs = a.pick(500, 6000);
        o.seed = a.seed * 31 + sc.n; o.log_block = true;
        std::string d; for (auto &x : s) d += x + "|";
        go(o, J("Scenario", N("n", sc.n) + ",\"script\":\"" + d + "\""), [&]() {
            Mutex a0, b0; std::vector<Mutex *> ms = {&a0, &b0};
            std::vector<int> tids;
            for (size_t i = 1; i < s.size(); ++i) tids.push_back(spawn([&, i]() { mprog(s[i], ms); }));
            mprog(s[0], ms);
            for (int t : tids) join(t);
        });
    }
}

// ------------------------------------------------------------------ condition
// L lock, U unlock, W<k> wait with timeout table k, w untimed wait, s signal, X unlock when not locked, p point
static const int TO[] = {1, 2, 999, 1000, 250000, 999999, 1000000, 1000001, 2500000, 3000000};
static void cprog(const std::string &p, Condition *c, long long base) {
    int t = self();
    for (size_t i = 0; i < p.size(); ++i) {
        auto now = [&]() { return N("now", now_us() - base); };
        switch (p[i]) {
        case 'L': emit(J("Lock", N("t", t))); c->lock(); emit(J("Locked", N("t", t))); break;
        case 'U': emit(J("Unlock", N("t", t))); c->unlock(); point(); break;
        case 'X': c->unlock(); emit(J("UnlockNone", N("t", t))); break;
        case 'w': emit(J("Wait", N("t", t) + N("us", 0) + now())); c->wait(); emit(J("Woken", N("t", t) + now())); break;
        case 'W': { int us = TO[p[++i] - '0']; emit(J("Wait", N("t", t) + N("us", us) + now())); c->wait(us); emit(J("Woken", N("t", t) + now())); break; }
        case 's': emit(J("Signal", N("t", t))); c->signal(); emit(J("Signaled", N("t", t))); point(); break;
        case 'p': point(); break;
        }
    }
}
static void modeCond() {
    Args &a = Args::get();
    std::vector<std::vector<std::string>> sets = {
        {"LwU", "LsU"}, {"LwU", "LsUp"}, {"LwU", "LsU", "LsU"}, {"LwU", "LwU", "LsU"}, {"LwU", "LwU", "LssU"},
        {"LwUpLwU", "LsUpLsU"}, {"LwULU", "LsU"}, {"XLUXXLUX"}, {"LUX"}, {"XLW3UXLU"}, {"LwsU", "LwU", "LsU"},
        {"LW0U", "LsU"}, {"LW5U", "LsU", "LU"}, {"LW3U", "LwU", "LsU"}, {"LW6U", "LW7U", "LsU"}, {"LwU", "LW4sU"}, {"LwU"}, {"LW4W4U", "LsU"},
        {"LUpLU", "LUpLU", "LUpLU"}, {"LwU", "LsUpLsU"}, {"sLwU", "LsU"},
        // signals sent after letting go of the lock
        {"LwU", "LUs"}, {"LwULwU", "LUsLUs"}, {"LwU", "LwU", "LUss"}, {"LwU", "LwU", "LUs", "LUs"}, {"LW6U", "LUs"}, {"LwU", "LUpsp", "LU"}};
    Scen sc;
    long long phases[] = {0, 1, 999999, 999998, 999000, 500000, 750000, 1, 123456};
    int np = 0;
    for (auto &s : sets) for (int sp = 0; sp < 2; ++sp) {
        if (!sc.begin()) continue;
        Options o; o.preemptions = 2; o.spurious = sp; o.ticks = 1; o.max_runs = a.pick(1500, 30000); o.random_runs = a.pick(700, 8000);
        o.seed = a.seed * 13 + sc.n; o.resolve_stuck = true;
        long long base = 1000000000LL * 1000000LL;
        o.start_us = base + phases[(np++) % 9];
        std::string d; for (auto &x : s) d += x + "|";
        go(o, J("Scenario", N("n", sc.n) + ",\"script\":\"" + d + "\""), [&]() {
            Condition c("vp");
            std::vector<int> tids;
            for (size_t i = 1; i < s.size(); ++i) tids.push_back(spawn([&, i]() { cprog(s[i], &c, base); }));
            cprog(s[0], &c, base);
            for (int t : tids) join(t);
        });
    }
    // deadline arithmetic: every timeout of the table at every boundary phase of the second, alone
    std::vector<long long> ph;
    for (int to : TO) for (int d = -2; d <= 2; ++d) { long long x = (1000000 - to % 1000000 + d + 2000000) % 1000000; ph.push_back(x); }
    for (long long x : {0LL, 1LL, 2LL, 499999LL, 500000LL, 999997LL, 999998LL, 999999LL}) ph.push_back(x);
    Rng r(a.seed);
    for (int i = 0; i < a.pick(20, 400); ++i) ph.push_back(r.in(0, 999999));
    for (size_t k = 0; k < sizeof(TO) / sizeof(TO[0]); ++k) {
        if (!sc.begin()) continue;
        for (long long x : ph) {
            Options o; o.preemptions = 0; o.max_runs = 1; o.mem = false;
            long long base = 1700000000LL * 1000000LL;
            o.start_us = base + x;
            go(o, J("Scenario", N("n", sc.n) + ",\"script\":\"W\"" + N("phase", x)), [&]() {
                Condition c("vp");
                cprog(std::string("LW") + char('0' + k) + "U", &c, base);
            });
        }
    }
}

int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open();
    std::string m = Args::get().mode;
    if (m == "life") modeLife(); else if (m == "mutex") modeMutex(); else if (m == "cond") modeCond(); else return 3;
    fprintf(stderr, "STATS runs=%ld distinct=%ld complete=%ld points=%ld\n", runs, distinct_, complete_, points_);
    fclose(Out::file());
    return 0;
}
