// Several objects at once: which memory each of them reads and writes.
#include "everything.h"
#include "shadow.h"
struct As { int was; As(int o) : was(shadow::as(o)) {} ~As() { shadow::as(was); } };
static std::string names(int m) { std::string t = "["; for (int i = 0; i < 7; ++i) if (m >> i & 1) t += (t.size() > 1 ? "," : "") + std::to_string(i + 1); return t + "]"; }
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; std::vector<Class> C = all(); int NC = int(C.size());
    int n = A.pick(8 * NC, 8 * NC * 10);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 6221 + q); int cls = (q / 8) % NC; const char *nm = C[cls].name; bool heavy = !strcmp(nm, "KeyMode") || !strncmp(nm, "Segmenter", 9) || !strncmp(nm, "TempoTrack", 10) || !strcmp(nm, "DownBeat") || !strcmp(nm, "Hmm");
        struct Act { char k; int o, cls, set, in; }; std::vector<Act> acts; int no = heavy ? 2 : r.in(2, 4), base = r.in(0, 3000), per = heavy ? 2 : r.in(3, 12), set = r.in(0, C[cls].settings - 1);
        std::vector<Act> made; for (int o = 1; o <= no; ++o) { int k = o > 2 && r.chance(1, 3) ? r.in(0, NC - 1) : cls; if (k != cls && (!strcmp(C[k].name, "KeyMode") || !strncmp(C[k].name, "Segmenter", 9))) k = cls; made.push_back({'N', o, k, k == cls && r.chance(1, 2) ? set : r.in(0, C[k].settings - 1), 0}); }
        // all made first, or each just before it is used
        bool early = r.chance(1, 2); VI begun(no + 1, 0), left(no + 1, per); if (early) for (auto &a : made) { acts.push_back(a); begun[a.o] = 1; }
        for (int todo = no * per; todo;) { int o = r.in(1, no); if (!begun[o]) { acts.push_back(made[o - 1]); begun[o] = 1; } else if (left[o]) { --left[o]; --todo; acts.push_back({r.chance(1, 12) ? 'R' : 'C', o, 0, 0, r.chance(1, 3) ? base : base + r.in(1, 300)}); } }
        for (int o = no; o >= 1; --o) acts.push_back({'D', o, 0, 0, 0});
        Ev("Scenario").i("n", s.n).end(); for (auto &a : made) Ev("New").i("o", a.o).s("cls", C[a.cls].name).i("set", a.set).end();
        fflush(0); int fd[2]; if (pipe(fd)) return 3; pid_t pid = fork(); if (pid < 0) return 3;
        if (!pid) { // in a process where nothing was used before
            alarm(200); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("VPSHOW")) dup2(nul, 2);
            std::map<int, Machine> M; for (int o = 1; o <= no; ++o) M[o] = Machine();
            shadow::begin();
            for (auto &a : acts) { Machine *m = &M[a.o]; const Class *c = &C[a.cls]; if (a.k == 'N') { As as(a.o); *m = c->make(a.set); } else if (a.k == 'C') { As as(a.o); m->call(a.in); } else if (a.k == 'R') { As as(a.o); if (m->reset) m->reset(); } else { As as(a.o); *m = Machine(); } }
            static shadow::Place P[400]; long rd, wr; int k = shadow::report(P, 400, &rd, &wr);
            FILE *f = fdopen(fd[1], "w"); fprintf(f, "%ld %ld\n", rd, wr); for (int i = 0; i < k; ++i) fprintf(f, "%d %d %d %s\n", P[i].statics, P[i].readers, P[i].writers, *P[i].name ? P[i].name : "-"); fflush(f); _exit(0);
        }
        close(fd[1]); FILE *f = fdopen(fd[0], "r"); long rd = 0, wr = 0; int st, rs, ws, loc = 0; char name[64]; bool any = fscanf(f, "%ld %ld", &rd, &wr) == 2;
        while (any && fscanf(f, "%d %d %d %63s", &st, &rs, &ws, name) == 4) { ++loc; if (rs) Ev("Read").i("loc", loc).s("where", st ? "static" : "heap").s("name", name).raw("by", names(rs)).end(); if (ws) Ev("Write").i("loc", loc).s("where", st ? "static" : "heap").s("name", name).raw("by", names(ws)).end(); }
        fclose(f); int status = 0; waitpid(pid, &status, 0);
        if (!any || !WIFEXITED(status) || WEXITSTATUS(status)) Ev("Crashed").end(); else Ev("End").i("reads", int(std::min(rd, 1000000000L))).i("writes", int(std::min(wr, 1000000000L))).end();
    }
    return 0;
}
