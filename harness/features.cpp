// What the segmenter extracts from each block, and the chain of stages from features to segment types.
#include "trace.h"
#include "base/Window.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/transforms/FFT.h"
extern "C" {
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/segmentation/cluster_melt.h"
#include "hmm/hmm.h"
#include "maths/pca/pca.h"
}
#include "f2cio.h"
#include <algorithm>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <unistd.h>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<VD> VVD;
static long g_time = 1; extern "C" time_t __wrap_time(time_t *t) { if (t) *t = g_time; return g_time; }
struct Seg : ClusterMeltSegmenter { Seg(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) {} const VVD &held() const { return features; } };
static const double U = 10000;
static std::vector<VI> image(const VVD &f) { std::vector<VI> r; for (auto &v : f) r.push_back(scaledV(v.data(), int(v.size()), U)); return r; }

// the extractors one block goes through, of our own
struct Ref {
    int type, factor, K, L; std::unique_ptr<Decimator> dec; std::unique_ptr<ConstantQ> cq; std::unique_ptr<MFCC> mf; std::unique_ptr<FFTReal> fft; std::unique_ptr<Window<double>> w;
    Ref(const ClusterMeltSegmenterParams &p, int fs, int win) : type(p.featureType) {
        int internal = type == FEATURE_TYPE_MFCC ? 22050 : 11025; factor = 1; while (factor < fs / internal && factor < Decimator::getHighestSupportedFactor()) factor *= 2;
        if (factor > 1) dec.reset(new Decimator(win, factor));
        if (type == FEATURE_TYPE_MFCC) { MFCCConfig c(fs / factor); c.fftsize = 2048; c.nceps = 19; c.want_c0 = true; mf.reset(new MFCC(c)); L = 2048; K = 20; }
        else { CQConfig c; c.FS = fs / factor; c.min = p.fmin; c.max = p.fmax; c.BPO = p.nbins; c.CQThresh = 0.0054; cq.reset(new ConstantQ(c)); cq->sparsekernel(); K = cq->getK(); L = cq->getFFTLength(); fft.reset(new FFTReal(L)); w.reset(new Window<double>(HammingWindow, L)); }
    }
    VD reduced(const VD &x) { if (!dec) return x; VD y(x.size() / factor); dec->process(x.data(), y.data()); return y; }
    VD frame(const VD &y, int origin) {
        VD f(L, 0.0), out(K); for (int i = 0; i < L && origin + i < int(y.size()); ++i) f[i] = y[origin + i];
        if (mf) { mf->process(f.data(), out.data()); return out; }
        std::rotate(f.begin(), f.begin() + L / 2, f.end()); w->cut(f.data()); VD re(L), im(L), cr(K), ci(K); fft->forward(f.data(), re.data(), im.data()); cq->process(re.data(), im.data(), cr.data(), ci.data());
        for (int i = 0; i < K; ++i) out[i] = hypot(cr[i], ci[i]); return out;
    }
};
static void extraction(Rng &r, Scen &sc, int q) {
    Ev("Scenario").i("n", sc.n).end();
    ClusterMeltSegmenterParams p; int ty = q % 3; p.featureType = ty == 0 ? FEATURE_TYPE_CONSTQ : ty == 1 ? FEATURE_TYPE_CHROMA : FEATURE_TYPE_MFCC; int ms = r.of(VI{100, 200, 250}), wms = r.of(VI{120, 200, 300, 400}); p.hopSize = ms / 1000.0; p.windowSize = wms / 1000.0;
    p.nbins = r.of(VI{4, 8, 12}); p.fmin = r.of(VI{150, 300, 700}); p.fmax = p.fmin * r.of(VI{2, 3, 4}); p.histogramLength = 3; p.nHMMStates = 2; p.nclusters = 2;
    Seg s(p); VI rates = r.chance(1, 3) ? VI{8000, 11024, 11025, 16000, 22049, 22050, 33074, 33075, 44100, 66149, 66150, 96000, 192000} : VI{11025, 22050, 44100, 48000}; bool mfcc = ty == 2; if (mfcc) rates = r.chance(1, 3) ? VI{16000, 22050, 44099, 44100, 66149, 66150, 88200, 192000} : VI{22050, 44100, 48000};
    Ev("Made").s("type", mfcc ? "mfcc" : "constq").i("ms", ms).i("wms", wms).i("hl", p.histogramLength).end();
    std::unique_ptr<Ref> ref; int fs = 0; bool ready = false; auto held = [&](const char *name) { Ev(name).aa("held", image(s.held())).end(); };
    int steps = r.in(4, 9); bool given = false; double ph = 0, fr = 300 + 1500 * r.unit();
    for (int k = 0; k < steps; ++k) {
        int what = k == 0 ? (r.chance(1, 6) ? 1 : 0) : r.of(VI{0, 1, 1, 1, 1, 1, 1, 2, 3, 4, 5});
        if (given && what == 0 && r.chance(1, 2)) what = 2;
        if (what == 0) { fs = r.of(rates); s.initialise(fs); ready = true; ref.reset(new Ref(p, fs, s.getWindowsize())); Ev("Initialise").i("fs", fs).i("win", s.getWindowsize()).i("hop", s.getHopsize()).i("factor", ref->factor).aa("held", image(s.held())).end(); }
        else if (what == 1 || what == 2) { if (!fs) { VD x(10); s.extractFeatures(x.data(), 10); Ev("TooSoon").aa("held", image(s.held())).end(); continue; }
            int W = s.getWindowsize(), n = what == 2 ? W - r.in(1, 3) : ref->factor == 1 && r.chance(1, 3) ? (r.chance(1, 2) ? W + r.in(1, 2000) : W + (ref->L / 2 - W % (ref->L / 2)) % (ref->L / 2) + r.in(0, 1)) : W; int kind = r.in(0, 4); VD x(n); double amp = kind == 0 ? 0 : r.of(VD{0.1, 1, 8});
            for (double &v : x) { ph += 2 * M_PI * fr / fs; v = amp * (kind == 1 ? 1 : kind == 2 ? r.unit() - 0.5 : sin(ph) + 0.3 * (r.unit() - 0.5)); } if (r.chance(1, 3)) fr = 300 + 1500 * r.unit();
            VD keep = x; std::unique_ptr<double[]> in(new double[n]); std::copy(x.begin(), x.end(), in.get()); s.extractFeatures(in.get(), n); if (!std::equal(x.begin(), x.end(), in.get())) Ev("InputModified").end();
            std::vector<VI> frames; int L = ref->L, pc = n / ref->factor; if (ready && !given && n >= W) { VD y = ref->reduced(x); for (int o = 0; o == 0 || o <= pc; o += L / 2) { VD v = ref->frame(y, o); frames.push_back(scaledV(v.data(), int(v.size()), U)); } }
            Ev("Extract").i("n", n).i("fft", L).aa("frames", frames).aa("held", image(s.held())).end(); }
        else if (what == 3) { s.clear(); held("Clear"); }
        else if (what == 4) { int n = r.in(0, 4), d = r.in(1, 4); VVD f; for (int i = 0; i < n; ++i) { VD v; for (int j = 0; j < d; ++j) v.push_back(r.in(-50, 50) * 0.25); f.push_back(v); } s.setFeatures(f); given = true; Ev("Set").aa("f", image(f)).aa("held", image(s.held())).end(); }
        else if (int(s.held().size()) < p.histogramLength) { s.segment(); ready = false; held("Segment"); }
    }
}
// ---- from features to segment types: the stages one after the other ------------
static int digest(const VD &v) { double h = 0; int i = 0; for (double x : v) h = fmod(h * 31 + std::floor(x * 1e6) + ++i, 1000000007.0); return int(std::fabs(h)); }
struct Table { int n, w; VVD d; std::vector<double *> p; Table(const VVD &f, int w) : n(int(f.size())), w(w), d(f) { for (auto &v : d) { v.resize(w, 0.0); p.push_back(v.data()); } } VD flat(int k) const { VD r; for (auto &v : d) r.insert(r.end(), v.begin(), v.begin() + k); return r; } };
struct Stage { const char *name; int in, out; };
static VI chain(const VVD &f, int type, const ClusterMeltSegmenterParams &p, std::vector<Stage> *st) {
    int n = int(f.size()), K = int(f[0].size()), w = K; Table t(f, std::max(K, p.nbins) + 1); int at = digest(t.flat(w)); auto did = [&](const char *nm, int out) { if (st) st->push_back(Stage{nm, at, out}); at = out; };
    if (type == FEATURE_TYPE_CONSTQ) { int c = std::min(20, K); mpeg7_constq(t.p.data(), n, K); did("normalise", digest(t.flat(K + 1))); pca_project(t.p.data(), n, K, c); for (int i = 0; i < n; ++i) t.d[i][c] = t.d[i][K]; w = c + 1; did("project", digest(t.flat(w))); }
    else if (type == FEATURE_TYPE_CHROMA) { Table u(VVD(n, VD(p.nbins, 0.0)), p.nbins); cq2chroma(t.p.data(), n, K, p.nbins, u.p.data()); for (int i = 0; i < n; ++i) t.d[i] = u.d[i]; for (int i = 0; i < n; ++i) t.p[i] = t.d[i].data(); w = p.nbins; did("fold", digest(t.flat(w))); }
    for (auto &v : t.d) for (double &x : v) x *= 10; did("scale", digest(t.flat(w)));
    VI q(n); model_t *m = hmm_init(t.p.data(), n, w, p.nHMMStates); hmm_train(t.p.data(), n, m); viterbi_decode(t.p.data(), n, m, q.data()); hmm_close(m); did("states", digest(VD(q.begin(), q.end())));
    VD h(n * p.nHMMStates); create_histograms(q.data(), n, p.nHMMStates, p.histogramLength, h.data()); did("histograms", digest(h));
    VD b(20, 100); for (int i = 1; i < 20; ++i) b[i] = 0.7 * b[i - 1]; cluster_melt(h.data(), p.nHMMStates, n, b.data(), 20, p.nclusters, p.neighbourhoodLimit, q.data()); did("cluster", digest(VD(q.begin(), q.end()))); return q;
}
static void pipeline(Rng &r, Scen &sc, int q) {
    ClusterMeltSegmenterParams p; int ty = q % 4; p.featureType = ty == 0 ? FEATURE_TYPE_CONSTQ : ty == 1 ? FEATURE_TYPE_CHROMA : ty == 2 ? FEATURE_TYPE_MFCC : FEATURE_TYPE_UNKNOWN; p.hopSize = 0.2; p.windowSize = 0.3; p.nbins = r.of(VI{4, 8, 12}); p.fmin = 300; p.fmax = 300 * r.of(VI{2, 4, 8});
    p.nHMMStates = r.in(2, 8); p.nclusters = r.in(2, 5); p.histogramLength = 2 * r.in(1, 4) + 1; p.neighbourhoodLimit = r.of(VI{2, 4, 8, 30}); g_time = r.in(1, 100000); int n = r.in(24, 60), fs = ty == 2 ? 22050 : 11025;
    Seg s(p); s.initialise(fs); VVD f; int part = 0, d = r.in(1, 4); VD cen(d);
    for (int i = 0; i < n; ++i) { if (i == 0 || r.chance(1, 9)) { ++part; for (double &c : cen) c = r.in(-3, 3); }
        if (ty == 3) { VD v; for (int j = 0; j < d; ++j) v.push_back(cen[j] + 0.6 * (r.unit() - 0.5)); f.push_back(v); }
        else { int W = s.getWindowsize(); VD x(W); double w0 = 2 * M_PI * 300 * (1 + part % 5 * 0.7) / fs; for (int j = 0; j < W; ++j) x[j] = sin(w0 * j) + 0.3 * sin(2 * w0 * j) + 0.1 * (r.unit() - 0.5); s.extractFeatures(x.data(), W); } }
    if (ty == 3) s.setFeatures(f); else f = s.held();
    // judged only if the outcome does not hang on the last digits
    std::vector<Stage> st; VI ref = chain(f, p.featureType, p, &st); bool firm = true; for (int k = 0; k < 3 && firm; ++k) { VVD g = f; for (auto &v : g) for (double &x : v) x *= 1 + 1e-9 * (r.unit() - 0.5); firm = chain(g, p.featureType, p, 0) == ref; }
    s.segment(); VI segs; for (auto &g : s.getSegmentation().segments) { segs.push_back(g.start); segs.push_back(g.end); segs.push_back(g.type); }
    static const char *T[] = {"constq", "chroma", "mfcc", "given"}; Ev("Scenario").i("n", sc.n).end(); Ev("Begin").s("type", T[ty]).i("fs", fs).i("ms", 200).end(); if (!firm) { Ev("Open").end(); return; }
    for (auto &x : st) Ev("Stage").s("name", x.name).i("in", x.in).i("out", x.out).end();
    Ev("Outcome").a("q", ref).a("segs", segs).aa("held", image(s.held())).end();
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen sc; int n = A.pick(320, 2400); int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); std::cerr.setstate(std::ios::failbit); }
    for (int q = 0; q < n; ++q) { if (!sc.begin()) continue; Rng r(A.seed * 4027 + q); if ((q / 8) % 3 < 2) extraction(r, sc, q); else pipeline(r, sc, q); }
    fclose(Out::file());
}
