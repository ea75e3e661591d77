// Many objects at once and one object with a past, against the same calls made alone in a pristine process.
#include "classes.h"
// a library call that ends the process says so (one mode only; nothing else calls exit)
static void (*onExit)(int) = 0;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) { if (onExit) onExit(s); __real_exit(s); }
// ---- what a process does, and its report
struct Act { char k; int o, cls, set, in; };            // N new, C call, A call made before in a pristine process, R reset, D delete
static int exited;   // by a call, with which status (0: not)
struct Rec { Act a; bool mod; VD out; };
static std::vector<Rec> runAlone(const std::vector<Class> &C, const std::vector<Act> &acts, int fill, bool &ok) {
    char name[] = "/tmp/vpinstXXXXXX"; int fd = mkstemp(name); if (fd < 0) exit(3); unlink(name); fflush(0);
    pid_t p = fork(); if (p < 0) exit(3);
    if (p == 0) {
        alarm(Args::get().mode == "hostile" ? 15 : 120); int nul = open("/dev/null", O_WRONLY); if (!getenv("VPSHOW")) { dup2(nul, 1); dup2(nul, 2); }
        onExit = [](int s) { _exit(100 + (s & 15)); }; FILE *f = fdopen(dup(fd), "w"); std::map<int, Machine> M; Rng r(fill + 77);
        for (const Act &a : acts) {
            if (fill) mallopt(M_PERTURB, r.in(1, 255));
            g_mod = false; VD out;
            if (a.k == 'N') M[a.o] = C[a.cls].make(a.set); else if (a.k == 'C' || a.k == 'A') out = M[a.o].call(a.in); else if (a.k == 'R') M[a.o].reset(); else M.erase(a.o);
            int n = int(out.size()), mod = g_mod; fwrite(&n, sizeof n, 1, f); fwrite(&mod, sizeof mod, 1, f); if (n) fwrite(out.data(), sizeof(double), n, f); fflush(f);
        }
        fclose(f); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0); ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; exited = WIFEXITED(st) && WEXITSTATUS(st) > 100 ? WEXITSTATUS(st) - 100 : 0;
    lseek(fd, 0, SEEK_SET); FILE *f = fdopen(fd, "r"); std::vector<Rec> recs;
    for (const Act &a : acts) { Rec r; r.a = a; int n, mod; if (fread(&n, sizeof n, 1, f) != 1 || fread(&mod, sizeof mod, 1, f) != 1) break; r.mod = mod; r.out.resize(n); if (n && fread(r.out.data(), sizeof(double), n, f) != size_t(n)) break; recs.push_back(r); }
    fclose(f); return recs;
}
// results equal to a billionth of their size share an id
struct Results { std::vector<VD> seen; int id(const VD &v) { double big = 0; for (double x : v) if (std::isfinite(x)) big = std::max(big, fabs(x));
    for (size_t i = 0; i < seen.size(); ++i) { const VD &w = seen[i]; if (w.size() != v.size()) continue; bool eq = true; for (size_t j = 0; j < v.size() && eq; ++j) eq = (v[j] != v[j] && w[j] != w[j]) || v[j] == w[j] || fabs(v[j] - w[j]) <= 1e-9 * big; if (eq) return int(i) + 1; }
    seen.push_back(v); return int(seen.size()); } };
static void emit(const std::vector<Class> &C, const std::vector<Act> &acts, int fill, Results &R) {
    bool ok = false; std::vector<Rec> recs = runAlone(C, acts, fill, ok);
    Ev("Process").b1("alone", fill == 0).end();
    for (auto &r : recs) { switch (r.a.k) { case 'N': Ev("New").i("o", r.a.o).s("cls", C[r.a.cls].name).i("set", r.a.set).end(); break; case 'C': case 'A': if (r.mod) Ev("InputModified").end(); Ev(r.a.k == 'A' ? "Again" : "Call").i("o", r.a.o).i("in", r.a.in).i("out", R.id(r.out)).end(); break; case 'R': Ev("Reset").i("o", r.a.o).end(); break; default: Ev("Delete").i("o", r.a.o).end(); } }
    if (exited && recs.size() < acts.size()) Ev("Exited").i("o", acts[recs.size()].o).i("in", acts[recs.size()].in).i("status", exited).end(); else if (!ok || recs.size() != acts.size()) Ev("Crashed").end();
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; std::vector<Class> C = classes(); int NC = int(C.size()); bool past = A.mode != "many" && A.mode != "";
    int n = A.pick(8 * NC * 6, 8 * NC * 40);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 4409 + q); Ev("Scenario").i("n", s.n).end(); Results R; int cls = (q / 8) % NC; bool heavy = !strcmp(C[cls].name, "KeyMode") || !strcmp(C[cls].name, "Segmenter") || !strcmp(C[cls].name, "TempoTrackV2") || !strcmp(C[cls].name, "TempoTrack");
        int pool = r.in(3, 60), nin = heavy ? 3 : r.in(2, 6), base = r.in(0, 5000); auto input = [&] { return base + r.in(0, nin) * (1 + pool); };
        if (!past) {
            struct S { int cls, set; VI ins; }; std::vector<S> scripts; int ns = heavy ? 2 : r.in(2, 4), set0 = r.in(0, C[cls].settings - 1);
            for (int i = 0; i < ns; ++i) { S x; x.cls = (i && r.chance(1, 5)) ? r.in(0, NC - 1) : cls; x.set = r.chance(1, 5) ? set0 % C[x.cls].settings : r.chance(1, 4) ? 0 : r.in(0, C[x.cls].settings - 1); int L = heavy ? 3 : r.in(2, 7); for (int j = 0; j < L; ++j) x.ins.push_back(input()); scripts.push_back(x); }
            for (auto &x : scripts) { std::vector<Act> a{{'N', 1, x.cls, x.set, 0}}; for (int in : x.ins) a.push_back({'C', 1, 0, 0, in}); a.push_back({'D', 1, 0, 0, 0}); emit(C, a, 0, R); }
            // all of them at once, some twice, next to bystanders that come and go
            struct Live { int o, script; size_t at; bool made, gone; }; std::vector<Live> L; int o = 1; for (int i = 0; i < ns; ++i) for (int k = r.in(1, heavy ? 1 : 2); k > 0; --k) L.push_back({o++, i, 0, false, false});
            std::vector<Act> a; VI by; std::vector<std::pair<int, int>> bc; int left = int(L.size());
            while (left) {
                if (!heavy && r.chance(1, 6)) { int k = r.chance(1, 2) ? cls : r.in(0, NC - 1); if (!strcmp(C[k].name, "KeyMode") || !strcmp(C[k].name, "Segmenter")) continue; if (by.size() < 3) { a.push_back({'N', o, k, r.in(0, C[k].settings - 1), 0}); by.push_back(o++); } else { int j = r.in(0, 2); a.push_back({r.chance(1, 2) ? 'C' : 'D', by[j], 0, 0, input()}); if (a.back().k == 'D') by.erase(by.begin() + j); } continue; }
                Live &l = L[r.in(0, int(L.size()) - 1)]; if (l.gone) continue; S &x = scripts[l.script];
                if (!l.made) { a.push_back({'N', l.o, x.cls, x.set, 0}); l.made = true; } else if (l.at < x.ins.size()) a.push_back({'A', l.o, 0, 0, x.ins[l.at++]}); else { a.push_back({'D', l.o, 0, 0, 0}); l.gone = true; --left; }
                if (l.made && !l.gone && r.chance(1, 25)) { a.push_back({'D', l.o, 0, 0, 0}); l.gone = true; --left; }
            }
            emit(C, a, r.in(1, 1 << 20), R);
        } else {
            bool hostile = A.mode == "hostile"; int set = r.in(0, C[cls].settings - 1); VI ins; int L = heavy ? 3 : r.in(2, 6); for (int j = 0; j < L; ++j) ins.push_back(input());
            std::vector<Act> a{{'N', 1, cls, set, 0}}; bool stateless = false; for (const char *z : {"Resample", "Window", "Kaiser", "FFT", "FFTReal", "DCT", "ConstantQ", "Chromagram", "MFCC", "PeakPicking", "DFProcess", "FiltFilt", "TempoTrack", "TempoTrackV2", "DownBeat", "Tonal", "Distance", "MedianRun", "Segmenter", "Maths"}) stateless |= !strcmp(z, C[cls].name);
            bool resets = bool(C[cls].make(set).reset);
            for (int in : ins) { if (stateless) { if (a.size() > 1) { a.push_back({'D', 1, 0, 0, 0}); a.push_back({'N', 1, cls, set, 0}); } } a.push_back({'C', 1, 0, 0, in}); }
            emit(C, a, 0, R);
            a = {{'N', 1, cls, set, 0}};
            for (int round = 0; round < 3; ++round) {
                for (int k = r.in(hostile, heavy ? 2 : 6); k > 0; --k) { a.push_back({'C', 1, 0, 0, hostile && r.chance(2, 3) ? BAD + 5 + r.in(0, 100000) : r.chance(1, 2) ? input() : base + r.in(0, 300)}); if (resets && r.chance(1, 6)) a.push_back({'R', 1, 0, 0, 0}); }
                if (resets) { a.push_back({'R', 1, 0, 0, 0}); if (r.chance(1, 5)) a.push_back({'R', 1, 0, 0, 0}); }
                else if (!stateless) { a.push_back({'D', 1, 0, 0, 0}); a.push_back({'N', 1, cls, set, 0}); }
                VI order = ins; if (stateless) for (int i = int(order.size()) - 1; i > 0; --i) std::swap(order[i], order[r.in(0, i)]);
                for (int in : order) a.push_back({'A', 1, 0, 0, in});
            }
            emit(C, a, r.in(1, 1 << 20), R);
        }
    }
    return 0;
}
