// Drives real AsynchronousTask objects under the controlled scheduler.
#include "sched.h"
#include "trace.h"
#include <memory>
using namespace sched;
static std::string J(const char *e, int k, const std::string &rest = "") {
    return std::string("{\"e\":\"") + e + "\",\"k\":" + std::to_string(k) + rest + "}";
}
static std::string num(const char *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }

// class W (asynctask_sut.cpp) is compiled with memory-access instrumentation
#include "asynctask_sut.h"
void sutPerformBegin(W *w) {
    int t = self();
    w->lastT = t;
    emit(J("PerformBegin", w->k, num("v", w->in) + num("t", t) + num("caller", w->callerT)));
    point();
}
void sutPerformEnd(W *w) { point(); emit(J("PerformEnd", w->k, num("v", w->out))); }
static void request(W *w, int v) { emit(J("Request", w->k, num("v", v))); w->request(v); }
static int result(W *w) {
    emit(J("AwaitBegin", w->k));
    int r = w->result();
    emit(J("AwaitEnd", w->k, num("v", r)));
    return r;
}

struct Sc { int tasks, rounds; int order; int callers; };

static void drive(int first, int n, int rounds, int order) {
    std::vector<W *> w;
    std::vector<int> tids;
    for (int i = 0; i < n; ++i) {
        w.push_back(new W(first + i, self()));
        emit(J("Create", first + i));
    }
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < n; ++i) request(w[i], 100 * (r + 1) + first + i);
        for (int i = 0; i < n; ++i) {
            int j = order == 0 ? i : order == 1 ? n - 1 - i : (i + r + 1) % n;
            result(w[j]);
        }
    }
    for (int i = 0; i < n; ++i) {
        emit(J("DestroyBegin", first + i));
        int lt = w[i]->lastT;
        int id = tid_of((unsigned long)w[i]->id());
        delete w[i];
        bool ended = id > 0 && finished(id) && (lt == 0 || lt == id);
        emit(J("DestroyEnd", first + i, std::string(",\"workerEnded\":") + (ended ? "true" : "false")));
    }
}

int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &a = Args::get();
    std::vector<Sc> scs;
    for (int tasks = 1; tasks <= 3; ++tasks)
        for (int rounds = 0; rounds <= 3; ++rounds)
            for (int order = 0; order < (tasks == 1 ? 1 : 3); ++order) scs.push_back({tasks, rounds, order, 1});
    for (int tasks = 1; tasks <= 2; ++tasks) for (int rounds = 1; rounds <= 2; ++rounds) scs.push_back({tasks, rounds, 1, 2});
    Scen sc; long runs = 0, distinct = 0, complete = 0, points = 0;
    for (size_t i = 0; i < scs.size(); ++i)
        for (int pre = 0; pre < 3; ++pre) {
            if (!sc.begin()) continue;
            Sc s = scs[i];
            Options o;
            // pre 0: up to 2 preemptions; 1: 1 preemption and a spurious wakeup; 2: 3 preemptions (small cases)
            o.preemptions = pre == 0 ? 2 : pre == 1 ? 1 : 3;
            o.spurious = pre == 1 ? 1 : 0;
            if (pre == 2 && s.tasks * s.rounds > 2 && !a.thorough()) continue;
            o.max_runs = a.pick(1500, 40000);
            o.random_runs = a.pick(500, 10000);
            if (pre == 2) o.spurious = 2;
            o.seed = a.seed * 1000 + sc.n;
            char b[200];
            snprintf(b, sizeof b, "{\"e\":\"Scenario\",\"n\":%d,\"tasks\":%d,\"rounds\":%d,\"order\":%d,\"callers\":%d}", sc.n, s.tasks, s.rounds, s.order, s.callers);
            Stats st = explore(o, b, [&]() {
                if (s.callers == 1) drive(0, s.tasks, s.rounds, s.order);
                else {
                    int t = spawn([&]() { drive(2, s.tasks, s.rounds, s.order); });
                    drive(0, s.tasks, s.rounds, 0);
                    join(t);
                }
            });
            runs += st.runs; distinct += st.distinct; complete += st.complete; points += st.points;
        }
    fprintf(stderr, "STATS runs=%ld distinct=%ld complete=%ld points=%ld\n", runs, distinct, complete, points);
    fclose(Out::file());
    return 0;
}
