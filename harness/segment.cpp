#include "trace.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
extern "C" {
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/segmentation/cluster_melt.h"
}
#include "f2cio.h"
#include <algorithm>
#include <ctime>
#include <memory>
#include <sstream>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<VD> VVD;
static long g_time = 1; extern "C" time_t __wrap_time(time_t *t) { if (t) *t = g_time; return g_time; }
struct Seg : ClusterMeltSegmenter { Seg(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) {} void make(int *q, int n) { makeSegmentation(q, n); } };
static void emit(const char *name, const Segmentation &s, bool full) {
    VI f; for (auto &g : s.segments) { f.push_back(g.start); f.push_back(g.end); f.push_back(g.type); }
    Ev e(name); e.a("segs", f); if (full) e.i("types", s.nsegtypes).i("rate", s.samplerate); e.end();
}
static void parts(Rng &r, Scen &sc) {
    Ev("Scenario").i("n", sc.n).end();
    for (int o = 0; o < 3; ++o) { // histograms of states around each frame
        int m = r.in(1, r.of(VI{5, 5, 40})), hl = 2 * r.in(0, r.of(VI{4, 4, 15})) + 1, nx = r.in(hl, hl + r.of(VI{12, 12, 60})); VI x; int v = 0; for (int i = 0; i < nx; ++i) { if (r.chance(1, 3)) v = r.in(0, m - 1); x.push_back(v); }
        std::unique_ptr<int[]> X(new int[nx]); std::copy(x.begin(), x.end(), X.get()); std::unique_ptr<double[]> h(new double[nx * m]); create_histograms(X.get(), nx, m, hl, h.get());
        if (VI(X.get(), X.get() + nx) != x) Ev("InputModified").end();
        Ev("Histograms").a("x", x).i("m", m).i("hl", hl).a("h", scaledV(h.get(), nx * m, 10000)).end();
    }
    { int nf = r.in(1, 3), bins = r.in(1, r.of(VI{5, 24})), oct = r.in(1, r.of(VI{3, 9})), nc = bins * oct + r.in(0, bins - 1); VI in; std::vector<std::unique_ptr<double[]>> a, b; std::vector<double *> pa, pb;
      for (int i = 0; i < nf; ++i) { a.emplace_back(new double[nc]); b.emplace_back(new double[bins]); for (int j = 0; j < nc; ++j) { a[i][j] = r.in(-20, 20); in.push_back(int(a[i][j])); } pa.push_back(a[i].get()); pb.push_back(b[i].get()); }
      cq2chroma(pa.data(), nf, nc, bins, pb.data()); VI out; for (int i = 0; i < nf; ++i) for (int j = 0; j < bins; ++j) out.push_back(exactInt(b[i][j])); Ev("Fold").i("nf", nf).i("nc", nc).i("bins", bins).a("cq", in).a("chroma", out).end(); }
    { int nf = r.in(1, r.of(VI{5, 30})), nc = r.in(1, r.of(VI{8, 30})); std::vector<std::unique_ptr<double[]>> a; std::vector<double *> pa; VI in; for (int i = 0; i < nf; ++i) { a.emplace_back(new double[nc + 1]); for (int j = 0; j < nc; ++j) { int p = r.in(-6, 6); if (p == 0) p = 1; a[i][j] = pow(10.0, p); in.push_back(p); } pa.push_back(a[i].get()); }
      mpeg7_constq(pa.data(), nf, nc); VI out, env; for (int i = 0; i < nf; ++i) { for (int j = 0; j < nc; ++j) out.push_back(scaled(a[i][j], 10000)); env.push_back(scaled(a[i][nc], 10000)); } Ev("Mpeg7").i("nf", nf).i("nc", nc).a("p", in).a("out", out).a("env", env).end(); }
    { int m = r.in(1, r.of(VI{4, 20})), n = r.in(1, r.of(VI{25, 25, 70})), k = r.in(1, r.of(VI{5, 14})), t = r.in(1, 6); std::unique_ptr<double[]> h(new double[n * m]), bs(new double[t]); for (int i = 0; i < n * m; ++i) h[i] = r.unit() * r.in(0, 1); for (int i = 0; i < t; ++i) bs[i] = 100 * pow(0.7, i); std::unique_ptr<int[]> c(new int[n]); for (int i = 0; i < n; ++i) c[i] = -5;
      srand(r.in(1, 1000)); cluster_melt(h.get(), m, n, bs.get(), t, k, r.in(0, 8), c.get()); Ev("Cluster").i("k", k).i("n", n).a("c", VI(c.get(), c.get() + n)).end(); }
    ClusterMeltSegmenterParams p; p.nclusters = r.in(1, r.of(VI{6, 20})); int ms = r.in(20, 500); p.hopSize = ms / 1000.0; Seg s(p); int fs = r.of(VI{8000, 11025, 22050}); p.featureType = FEATURE_TYPE_UNKNOWN; s.initialise(fs);
    Ev("New").i("fs", fs).i("ms", ms).i("wms", 600).i("hop", s.getHopsize()).i("win", s.getWindowsize()).i("nc", p.nclusters).i("hl", p.histogramLength).end();
    for (int o = 0; o < 4; ++o) { int n = r.in(1, r.of(VI{20, 20, 400})); std::unique_ptr<int[]> q(new int[n]); int v = 1; VI qq; for (int i = 0; i < n; ++i) { if (r.chance(1, 3)) v = r.in(1, p.nclusters); q[i] = v; qq.push_back(v); } s.make(q.get(), n); Ev("RunLength").a("q", qq).end(); emit("Segments", s.getSegmentation(), true); }
    { std::ostringstream os; os << s.getSegmentation(); std::string line; std::istringstream is(os.str()); std::getline(is, line); VI v; bool ok = line == "structure_name : begin_time end_time"; int ty; double a, b; char col; while (is >> ty >> col >> a >> b) { ok = ok && col == ':'; v.push_back(scaled(a * fs, 1)); v.push_back(scaled(b * fs, 1)); v.push_back(ty); } Ev("Printed").b1("form", ok).a("segs", v).end(); }
}
static void whole(Rng &r, Scen &sc, int q) {
    Ev("Scenario").i("n", sc.n).end();
    int ft = q % 4; ClusterMeltSegmenterParams p; p.featureType = ft == 0 ? FEATURE_TYPE_CONSTQ : ft == 1 ? FEATURE_TYPE_CHROMA : ft == 2 ? FEATURE_TYPE_MFCC : FEATURE_TYPE_UNKNOWN;
    p.nHMMStates = r.in(1, r.of(VI{6, 6, 14})); p.nclusters = r.in(1, r.of(VI{5, 5, 12})); p.histogramLength = 2 * r.in(0, r.of(VI{4, 4, 12})) + 1; p.neighbourhoodLimit = r.in(0, 10); int ms = r.of(VI{100, 200, 250}), wms = r.of(VI{300, 400}); p.hopSize = ms / 1000.0; p.windowSize = wms / 1000.0; p.fmin = r.of(VI{100, 200}); p.nbins = r.of(VI{4, 8}); p.fmax = p.fmin * r.of(VI{3, 6, 20});
    int fs = r.of(VI{8000, 11025, 22050, 44100}); if (ft == 2) fs = r.of(VI{22050, 44100, 16000});
    ClusterMeltSegmenter s(p); s.initialise(fs);
    Ev("New").i("fs", fs).i("ms", ms).i("wms", wms).i("hop", s.getHopsize()).i("win", s.getWindowsize()).i("nc", p.nclusters).i("hl", p.histogramLength).end();
    for (int round = 0; round < 3; ++round) {
        g_time = r.in(1, 100000); bool given = ft == 3;
        if (given) { int n = r.of(VI{1, p.histogramLength - 1, p.histogramLength, 30, 60, 150}), d = r.in(1, 6), kind = r.in(0, 3); VVD f; VD cen(d, 0); for (int i = 0; i < n; ++i) { if (r.chance(1, 10)) for (double &z : cen) z = r.in(-3, 3); VD v; for (int j = 0; j < d; ++j) v.push_back(kind == 0 ? 0 : kind == 1 ? 1.5 : cen[j] + r.unit()); f.push_back(v); } VVD keep = f; s.setFeatures(f); if (f != keep) Ev("InputModified").end(); Ev("Set").i("n", n).end(); }
        else { int n = r.of(VI{2, p.histogramLength, 24, 30}), W = s.getWindowsize(), kind = r.in(0, 3); if (round) { s.initialise(fs); } double fr = 300;
            for (int i = 0; i < n; ++i) { std::unique_ptr<double[]> x(new double[W]); if (r.chance(1, 8)) fr = 200 + 2000 * r.unit(); for (int j = 0; j < W; ++j) x[j] = kind == 0 ? 0 : kind == 1 ? 0.5 : 0.3 * sin(2 * M_PI * fr * j / fs) + 0.05 * (r.unit() - 0.5) * (kind == 3 ? 10 : 1); VD keep(x.get(), x.get() + W); s.extractFeatures(x.get(), W); if (VD(x.get(), x.get() + W) != keep) Ev("InputModified").end(); }
            Ev("Add").i("n", n).end(); if (r.chance(1, 4)) { std::unique_ptr<double[]> x(new double[W]); s.extractFeatures(x.get(), W - 1); } }
        if (r.chance(1, 4)) { s.clear(); Ev("Clear").end(); }
        if (r.chance(1, 3)) { int m = r.in(1, r.of(VI{6, 12})); s.segment(m); Ev("Segment").i("nc", m).end(); } else { s.segment(); Ev("Segment").i("nc", s.getNSegmentTypes()).end(); }
        emit("Segments", s.getSegmentation(), s.getSegmentation().segments.size() > 0);
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen sc; int n = A.pick(240, 1600);
    for (int q = 0; q < n; ++q) { if (!sc.begin()) continue; Rng r(A.seed * 2027 + q); if ((q / 8) % 3 == 0) parts(r, sc); else whole(r, sc, q / 8); }
    fclose(Out::file());
}
