#include "trace.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/transforms/FFT.h"
#include "base/Window.h"
#include <memory>
#include <algorithm>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::unique_ptr<double[]> Buf;
static Buf buf(const VD &v) { Buf b(new double[v.size()]); std::copy(v.begin(), v.end(), b.get()); return b; }
static double gain(Rng &r) { return r.of(VD{1, 1, 1e-3, 1e-6, 1e-9, 1e4}); }
static VI qbpo{1, 2, 3, 4, 5, 6, 12, 24, 36, 48, 60};
struct Spec2 { VD re, im; };
static Spec2 fftOf(const VD &x) { int N = int(x.size()); FFTReal f(N); Buf b = buf(x), re(new double[N]), im(new double[N]); f.forward(b.get(), re.get(), im.get()); return {VD(re.get(), re.get() + N), VD(im.get(), im.get() + N)}; }
static double top(const VD &a, const VD &b) { double m = 0; for (double v : a) m = std::max(m, fabs(v)); for (double v : b) m = std::max(m, fabs(v)); return m; }
static Spec2 cqSplit(ConstantQ &q, const Spec2 &s) {
    Buf re = buf(s.re), im = buf(s.im), cr(new double[q.getK()]), ci(new double[q.getK()]);
    q.process(re.get(), im.get(), cr.get(), ci.get());
    if (VD(re.get(), re.get() + s.re.size()) != s.re || VD(im.get(), im.get() + s.im.size()) != s.im) Ev("InputModified").end();
    return {VD(cr.get(), cr.get() + q.getK()), VD(ci.get(), ci.get() + q.getK())};
}
static Spec2 cqInter(ConstantQ &q, const Spec2 &s) {
    VD d; for (size_t i = 0; i < s.re.size(); ++i) { d.push_back(s.re[i]); d.push_back(s.im[i]); }
    Buf b = buf(d); double *p = q.process(b.get()); Spec2 o; for (int i = 0; i < q.getK(); ++i) { o.re.push_back(p[2 * i]); o.im.push_back(p[2 * i + 1]); }
    if (VD(b.get(), b.get() + d.size()) != d) Ev("InputModified").end();
    return o;
}
static VD prepared(const VD &x) { // Hamming window, then zero index to the middle
    int N = int(x.size()); Buf b = buf(x); Window<double> w(HammingWindow, N); w.cut(b.get());
    VD y(N); for (int i = 0; i < N; ++i) y[i] = b[(i + N / 2) % N];
    return y;
}
static VI lens(double Q, double fs, double fmin, int bpo, int K) { VI l; for (int j = 0; j < K; ++j) l.push_back(int(ceil(Q * fs / (fmin * pow(2.0, double(j) / bpo))))); return l; }
// small configurations: every coefficient against the definition
static void directCQ(Rng &r, int A, Scen &sc) {
    int bpo = r.of(VI{2, 3, 4}), oct = r.in(1, 2); int ratio = r.in(4, bpo == 2 ? 12 : 7);
    double fs = r.of(VD{8000, 44100, 48000}); CQConfig c; c.FS = fs; c.min = fs / ratio; c.BPO = bpo; c.CQThresh = r.of(VD{0, 0, 1e-6}); int want = bpo * oct - r.in(0, bpo - 1); if (want < 1) want = 1;
    c.max = c.min * pow(2.0, (want - 0.5) / bpo);
    ConstantQ q(c); q.sparsekernel(); int N = q.getFFTLength(), K = q.getK();
    Ev("Scenario").i("n", sc.n).end();
    Ev("CQNew").i("bpo", bpo).i("ratio", ratio).i("frame", N).i("hop", q.getHop()).i("K", K).i("want", want).a("len", lens(q.getQ(), c.FS, c.min, bpo, K)).i("q", scaled(q.getQ(), 10000)).end();
    for (int o = 0; o < A; ++o) {
        VD x(N); VI xi; int s = 0; for (int i = 0; i < N; ++i) { int v = i == N - 1 ? -s : r.in(-100, 100); if (r.chance(1, 3) && i < N - 1) v = 0; s += v; x[i] = v; xi.push_back(v); }
        if (abs(s) > 400) { --o; continue; }
        double g = gain(r); VD xg(x); for (double &v : xg) v *= g;   // the transform is linear: the frame in units of g
        Spec2 f = fftOf(xg), a = cqSplit(q, f), b = cqInter(q, f);
        Ev("CQ").a("x", xi).a("re", scaledV(a.re.data(), K, 1000 / g)).a("im", scaledV(a.im.data(), K, 1000 / g)).a("re2", scaledV(b.re.data(), K, 1000 / g)).a("im2", scaledV(b.im.data(), K, 1000 / g)).end();
    }
}
// a threshold leaves out only kernel coefficients no larger than itself
static void thresholds(Rng &r, int A, Scen &sc) {
    int bpo = r.of(VI{2, 3, 6, 12}), ratio = r.in(4, 30), oct = r.in(1, 2); CQConfig c; c.FS = 44100; c.min = c.FS / ratio; c.BPO = bpo; c.max = c.min * pow(2.0, oct - 0.5 / bpo); if (ratio < 8) c.max = c.min * pow(2.0, 1 - 0.5 / bpo);
    double t = r.of(VD{1e-6, 1e-5, 1e-4, 1e-3, 0.0054, 0.03}); c.CQThresh = 0; ConstantQ all(c); all.sparsekernel(); c.CQThresh = t; ConstantQ some(c); some.sparsekernel(); int N = all.getFFTLength(), K = all.getK();
    Ev("Scenario").i("n", sc.n).end();
    Ev("CQNew").i("bpo", bpo).i("ratio", ratio).i("frame", N).i("hop", all.getHop()).i("K", K).i("want", K).a("len", lens(all.getQ(), c.FS, c.min, bpo, K)).i("q", scaled(all.getQ(), 10000)).end();
    for (int o = 0; o < 6; ++o) { // nothing left out: samples beyond a note's window do not bear on it
        int p = r.in(N / 8, N - N / 8), q = r.in(N / 4, N - N / 4); VD x(N, 0); x[p] += 1; x[q] -= 1; Spec2 y = cqSplit(all, fftOf(x));
        Ev("Outside").i("p", p).i("q", q).a("re", scaledV(y.re.data(), K, 1e8)).a("im", scaledV(y.im.data(), K, 1e8)).end();
    }
    for (int o = 0; o < A; ++o) {
        VD x(N); for (double &v : x) v = r.unit() - 0.5; Spec2 f = fftOf(x), p = cqSplit(all, f), q = cqSplit(some, f);
        double sum = 0, d = 0; for (int i = 0; i < N; ++i) sum += hypot(f.re[i], f.im[i]); for (int j = 0; j < K; ++j) d = std::max(d, hypot(p.re[j] - q.re[j], p.im[j] - q.im[j]));
        Ev("Threshold").i("d", scaled(std::min(1e5, d / (t / N * sum)), 1000)).end();
    }
    { double d = 0; for (int i = 0; i < N; ++i) { Spec2 f; f.re.assign(N, 0); f.im.assign(N, 0); f.re[i] = 1; Spec2 p = cqSplit(all, f), q = cqSplit(some, f); for (int j = 0; j < K; ++j) d = std::max(d, hypot(p.re[j] - q.re[j], p.im[j] - q.im[j])); }   // one bin at a time
      Ev("Threshold").i("d", scaled(std::min(1e5, d / (t / N)), 1000)).end(); }
}
static void directChroma(Rng &r, int A, Scen &sc) {
    int bpo = r.of(VI{2, 3, 4}); int ratio = r.in(5, bpo == 2 ? 12 : 7); double fs = r.of(VD{8000, 44100});
    ChromaConfig c; c.FS = fs; c.min = fs / ratio; c.BPO = bpo; c.CQThresh = 0; int oct = r.in(1, 2); c.max = c.min * pow(2.0, oct - r.of(VD{0.5, 0.3, 0.9, 0.998})); c.normalise = MathUtilities::NormaliseNone;
    Chromagram g(c); int N = g.getFrameSize(), K = g.getK(); double Q = 1 / (pow(2.0, 1.0 / bpo) - 1);
    Ev("Scenario").i("n", sc.n).end();
    Ev("ChromaNew").i("k", 0).i("bpo", bpo).i("ratio", ratio).i("oct", oct).i("frame", N).i("hop", g.getHopSize()).i("K", K).s("norm", "none").a("len", lens(Q, c.FS, c.min, bpo, bpo * oct)).i("q", scaled(Q, 10000)).end();
    for (int o = 0; o < A; ++o) {
        VD x(N); VI xi; for (int i = 0; i < N; ++i) { x[i] = r.in(-100, 100); if (r.chance(1, 4)) x[i] = 0; xi.push_back(int(x[i])); }
        double u = gain(r); for (double &v : x) v *= u;
        Buf b = buf(x); double *p = g.process(b.get()); if (VD(b.get(), b.get() + N) != x) Ev("InputModified").end();
        Ev("Direct").a("x", xi).a("chroma", scaledV(p, bpo, 1000 / u)).end();
    }
}
static void folding(Rng &r, int A, Scen &sc) {
    int no = r.in(1, 2); Ev("Scenario").i("n", sc.n).end();
    struct O { std::unique_ptr<Chromagram> g; std::unique_ptr<ConstantQ> q; ChromaConfig c; int oct; }; std::vector<O> os(no); std::vector<std::vector<VD>> blocks(no);
    for (int k = 0; k < no; ++k) {
        O &o = os[k]; int bpo = r.of(qbpo), ratio = r.in(8, bpo >= 48 ? 14 : bpo >= 24 ? 40 : 90); o.oct = r.in(1, 4); if (bpo <= 4 && r.chance(1, 3)) { ratio = r.in(200, 1200); o.oct = r.in(5, 8); } while ((1 << o.oct) > ratio / 3 && o.oct > 1) --o.oct;
        o.c.FS = r.of(VD{8000, 22050, 44100}); o.c.min = o.c.FS / ratio; o.c.max = o.c.min * pow(2.0, o.oct - r.of(VD{0, 0.5, 0.2, 0.998})); o.c.BPO = bpo; o.c.CQThresh = r.of(VD{0.0054, 0.001});
        int nm = r.in(0, 2); o.c.normalise = nm == 0 ? MathUtilities::NormaliseNone : nm == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        o.g.reset(new Chromagram(o.c)); CQConfig qc; qc.FS = o.c.FS; qc.min = o.c.min; qc.max = o.c.min * pow(2.0, ceil(log(o.c.max / o.c.min) / log(2.0))); qc.BPO = bpo; qc.CQThresh = o.c.CQThresh;
        o.q.reset(new ConstantQ(qc)); o.q->sparsekernel();
        Ev("ChromaNew").i("k", k).i("bpo", bpo).i("ratio", ratio).i("oct", o.oct).i("frame", o.g->getFrameSize()).i("hop", o.g->getHopSize()).i("K", o.g->getK()).s("norm", nm == 0 ? "none" : nm == 1 ? "sum" : "max").a("len", VI{}).i("q", scaled(o.q->getQ(), 10000)).end();
        int N = o.g->getFrameSize();
        for (int b = 0; b < 4; ++b) {
            VD x(N); int kind = r.in(0, 4); double f = o.c.min * pow(2.0, r.unit() * o.oct), amp = r.of(VD{1, 0.001, 1000, 1e-8, 1e6}); int at = r.in(0, N - 1);
            for (int i = 0; i < N; ++i) x[i] = amp * (kind == 0 ? 0 : kind == 1 ? (i == at) : kind == 2 ? sin(2 * M_PI * f * i / o.c.FS) : kind == 3 ? 1 : r.unit() - 0.5);
            blocks[k].push_back(x);
        }
    }
    for (int op = 0; op < A; ++op) {
        int k = r.in(0, no - 1), b = r.in(0, 3); O &o = os[k]; VD &x = blocks[k][b]; int bpo = o.c.BPO, K = bpo * o.oct, N = o.g->getFrameSize();
        Spec2 f = fftOf(prepared(x)), cq = cqSplit(*o.q, f); double m = top(cq.re, cq.im), s = m > 0 ? 10000 / m : 1;
        bool fd = r.chance(1, 3); double *p;
        if (fd) { Buf re = buf(f.re), im = buf(f.im); p = o.g->process(re.get(), im.get()); if (VD(re.get(), re.get() + N) != f.re || VD(im.get(), im.get() + N) != f.im) Ev("InputModified").end(); }
        else { Buf d = buf(x); p = o.g->process(d.get()); if (VD(d.get(), d.get() + N) != x) Ev("InputModified").end(); }
        Ev("Chroma").i("k", k).i("blk", b).b1("fd", fd).a("re", scaledV(cq.re.data(), K, s)).a("im", scaledV(cq.im.data(), K, s)).a("chroma", scaledV(p, bpo, o.c.normalise == MathUtilities::NormaliseNone ? s : 10000)).end();
    }
}
static void tones(Rng &r, int A, Scen &sc) {
    int bpo = r.of(VI{6, 12, 24}), ratio = r.in(20, 60), oct = r.in(1, 3);
    CQConfig c; c.FS = 44100; c.min = c.FS / ratio; c.max = c.min * pow(2.0, oct - 0.5 / bpo); c.BPO = bpo; c.CQThresh = 0.0054;
    ConstantQ q(c); q.sparsekernel(); int N = q.getFFTLength(), K = q.getK();
    Ev("Scenario").i("n", sc.n).end();
    Ev("CQNew").i("bpo", bpo).i("ratio", ratio).i("frame", N).i("hop", q.getHop()).i("K", K).i("want", bpo * oct).a("len", lens(q.getQ(), c.FS, c.min, bpo, K)).i("q", scaled(q.getQ(), 10000)).end();
    for (int o = 0; o < A; ++o) {
        int j = r.in(0, K - 1); double f = c.min * pow(2.0, double(j) / bpo), ph = r.unit() * 6.28, amp = r.of(VD{1, 0.01, 30, 1e-6, 1e5}); VD x(N);
        for (int i = 0; i < N; ++i) x[(i + N / 2) % N] = amp * sin(2 * M_PI * f * i / c.FS + ph);   // zero index to the middle
        Spec2 s = cqSplit(q, fftOf(x)); double t = top(s.re, s.im), scl = 10000 / t;
        if (f < c.FS / 2.5) Ev("Tone").i("j", j + 1).i("amp", scaled(hypot(s.re[j], s.im[j]) / amp, 10000)).a("re", scaledV(s.re.data(), K, scl)).a("im", scaledV(s.im.data(), K, scl)).end();
        VD y(N), z(N); int a = r.in(-3, 3), b = r.in(-3, 3); for (int i = 0; i < N; ++i) { y[i] = amp * (r.unit() - 0.5); z[i] = a * x[i] + b * y[i]; }
        Spec2 u = cqSplit(q, fftOf(y)), v = cqSplit(q, fftOf(z)), w = cqInter(q, fftOf(z)); scl = 10000 / std::max(t, std::max(top(u.re, u.im), top(v.re, v.im)));
        Ev("Linear").i("a", a).i("b", b).a("X", scaledV(s.re.data(), K, scl)).a("Y", scaledV(u.re.data(), K, scl)).a("Z", scaledV(v.re.data(), K, scl)).a("W", scaledV(w.re.data(), K, scl))
            .a("Xi", scaledV(s.im.data(), K, scl)).a("Yi", scaledV(u.im.data(), K, scl)).a("Zi", scaledV(v.im.data(), K, scl)).a("Wi", scaledV(w.im.data(), K, scl)).end();
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen sc; int n = A.pick(128, 1600);
    for (int q = 0; q < n; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 911 + q); int t = (q / 8) % 4;
        if (t == 0 && q % 8 < 2) thresholds(r, 4, sc); else if (t == 0) directCQ(r, 4, sc); else if (t == 1) directChroma(r, 4, sc); else if (t == 2) folding(r, 12, sc); else tones(r, 5, sc);
    }
    fclose(Out::file());
}
