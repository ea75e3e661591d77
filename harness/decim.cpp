#include "trace.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;
template <class T> struct BufT { T *p; int n; explicit BufT(int nn) : p(new T[nn]), n(nn) { for (int i = 0; i < nn; ++i) p[i] = 777; } ~BufT() { delete[] p; } BufT(const BufT &) = delete; };
static const double M = 1e6;
struct D { // either kind
    std::unique_ptr<Decimator> a; std::unique_ptr<DecimatorB> b; int n, f;
    D(bool B, int nn, int ff) : n(nn), f(ff) { if (B) b.reset(new DecimatorB(nn, ff)); else a.reset(new Decimator(nn, ff)); }
    int factor() { return a ? a->getFactor() : b->getFactor(); }
    template <class T> void go(const T *s, T *d) { if (a) a->process(s, d); else b->process(s, d); }
};
// the signal is given in units of a power of two and the result read in the same unit
template <class T> static VI block(D &d, const VD &x, int from, bool inplace, double unit = 1) {
    BufT<T> in(d.n), out(d.n / d.f);
    for (int i = 0; i < d.n; ++i) in.p[i] = T(x[from + i] * unit);
    if (inplace) { d.go(in.p, in.p); for (int i = 0; i < d.n / d.f; ++i) out.p[i] = in.p[i]; }
    else { d.go((const T *)in.p, out.p); for (int i = 0; i < d.n; ++i) if (in.p[i] != T(x[from + i] * unit)) { Ev("InputModified").end(); break; } }
    VI r(d.n / d.f); for (int i = 0; i < (int)r.size(); ++i) r[i] = scaled(out.p[i] / unit, M);
    return r;
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    int nsc = A.pick(112, 900);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 307 + q);
        bool B = q % 2; int f = B ? 2 << (q / 2 % 5) : 1 << (q / 2 % 4);
        Ev("Scenario").i("n", sc.n).i("factor", f).s("kind", B ? "DecimatorB" : "Decimator").end();
        if (!B) Ev("Highest").i("v", Decimator::getHighestSupportedFactor()).end();
        int N = f * r.in(24, 60) * 4;
        VD x(N); for (double &v : x) v = float(r.unit() * 2 - 1);
        if (r.chance(1, 4)) for (int i = 0; i < N; ++i) x[i] = i == 0;
        { D d(B, N, f); Ev("Ref").a("out", block<double>(d, x, 0, false)).end(); }
        std::vector<std::unique_ptr<D>> o; VI pos; VD units;
        for (int k = 0; k < 4; ++k) {
            int n = f * (k == 0 ? 1 : k == 1 ? 2 : r.in(1, 24)); units.push_back(r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(VI{-100, -60, -30, -15, 15, 60})));
            o.emplace_back(new D(B, n, f)); pos.push_back(0);
            Ev("New").i("k", k).i("factor", o[k]->factor()).end();
        }
        for (int c = 0; c < 60; ++c) {
            int k = r.in(0, 3); D &d = *o[k];
            if (pos[k] + d.n > N || (!B && r.chance(1, 12))) {
                if (B) continue;
                d.a->resetFilter(); pos[k] = 0; Ev("Reset").i("k", k).end(); continue;
            }
            bool fl = r.chance(1, 3), ip = !B && r.chance(1, 3);
            VI out = fl ? block<float>(d, x, pos[k], ip, units[k]) : block<double>(d, x, pos[k], ip, units[k]);
            Ev("Block").i("k", k).i("n", d.n).i("tol", fl ? 4 : 2).b1("fl", fl).b1("inplace", ip).a("out", out).end();
            pos[k] += d.n;
        }
        { // steady input
            int n = f * 40; D d(B, n, f); VI out; VD c(n, 0.7);
            for (int i = 0; i < 40; ++i) out = block<double>(d, c, 0, false);
            Ev("Steady").i("value", 700000).a("out", out).end();
        }
        { // tones
            int fs[] = {5, 20, 40, 55, 70, 80, 130, 145, 150, 170, 180, 220, 310};
            for (int ff : fs) {
                double w = M_PI / f * ff / 100.0 + 1e-4;
                if (w > M_PI * 0.98) continue;
                int n = f * 256; D d(B, n, f); BufT<double> in(n), out(256);
                double ss = 0; int cnt = 0;
                for (int b = 0; b < 12; ++b) {
                    for (int i = 0; i < n; ++i) in.p[i] = sin(w * (double(b) * n + i));
                    d.go((const double *)in.p, out.p);
                    if (b >= 3) for (int i = 0; i < 256; ++i) { ss += out.p[i] * out.p[i]; ++cnt; }
                }
                Ev("Tone").i("f", ff).i("gain", scaled(sqrt(2 * ss / cnt), M)).end();
            }
        }
        if (f == 1) { D d(B, 10, 1); VI in(10); VD xi(10); for (int i = 0; i < 10; ++i) { xi[i] = r.in(-5, 5); in[i] = int(xi[i] * M); } Ev("Copy").a("in", in).a("out", block<double>(d, xi, 0, false)).end(); }
        if (B) {
            int fs[] = {3, 1, 0, 6, 4, 8, -2}, ns[] = {12, 12, 12, 12, 10, 12, 12};
            for (int i = 0; i < 7; ++i) {
                if (fs[i] == 0) continue;
                DecimatorB d(ns[i], fs[i]); BufT<double> in(12), out(12);
                d.process(in.p, out.p);
                int wr = 0; for (int j = 0; j < 12; ++j) wr += out.p[j] != 777;
                Ev("Refused").i("factor", fs[i]).i("n", ns[i]).i("written", wr).end();
            }
        }
    }
    // long streams in large blocks: signal, a long silence, signal again
    for (int q = 0; q < A.pick(22, 88); ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 331 + q);
        bool B = q % 2; int f = B ? 2 << (q / 2 % 8) : 1 << (q / 2 % 4);
        Ev("Scenario").i("n", sc.n).i("factor", f).s("kind", B ? "DecimatorB" : "Decimator").end();
        int N = f * (f > 32 ? 700 : r.in(2000, 4000));
        VD x(N); for (int i = 0; i < N; ++i) x[i] = i > N / 3 && i < N / 2 ? 0 : float(r.unit() * 2 - 1);
        { D d(B, N, f); Ev("Ref").a("out", block<double>(d, x, 0, false)).end(); }
        for (int k = 0; k < 2; ++k) {
            int n = f * (k == 0 ? r.in(256, N / f / 2) : r.in(30, 255)); double u = k == 0 ? 1 : std::ldexp(1.0, r.of(VI{-900, -300, -60, 60, 300}));
            D d(B, n, f); Ev("New").i("k", k).i("factor", d.factor()).end();
            for (int at = 0; at + n <= N; at += n) Ev("Block").i("k", k).i("n", n).i("tol", 2).b1("fl", false).b1("inplace", false).a("out", block<double>(d, x, at, false, u)).end();
        }
    }
    fclose(Out::file());
    return 0;
}
