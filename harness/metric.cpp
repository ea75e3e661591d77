#include "trace.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;
static VD dbl(const VI &v, double k = 1) { VD d; for (int x : v) d.push_back(x * k); return VD(d.begin(), d.end()); }
static VI rnd(Rng &r, int n, int lo, int hi) { VI v; int kind = r.in(0, 4); for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? r.of(VI{0, 0, hi}) : r.in(lo, hi)); return v; }
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(64, 1600);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 220011 + q); Ev("Scenario").i("n", s.n).end(); CosineDistance cd[2]; KLDivergence kl; std::vector<VI> pool;
        for (int a = 0; a < A.pick(24, 60); ++a) {
            { int len = r.chance(1, 8) ? r.in(7, 60) : r.in(0, 6), l2 = r.chance(1, 6) ? r.in(0, 6) : len; VI x, y; if (r.chance(1, 3) && pool.size() > 1) { x = r.of(pool); y = r.of(pool); } else { x = rnd(r, len, -8, 8); y = r.chance(1, 6) ? x : rnd(r, l2, -8, 8); pool.push_back(x); pool.push_back(y); }
              if (r.chance(1, 6)) { VI z; for (int v : x) z.push_back(-2 * v); if (z.empty() || *std::max_element(z.begin(), z.end()) <= 16) y = z; }
              VD dx = dbl(x), dy = dbl(y); double d = cd[r.in(0, 1)].distance(dx, dy); double k = r.of(VD{1, 3, 1e-3, 1e5, 1e-6, 1e9}), k2 = r.of(VD{1, 7, 1e-3, 1e5, 1e-6, 1e12}); double t = cd[0].distance(dbl(x, k), dbl(y, k2));
              if (dx != dbl(x) || dy != dbl(y)) Ev("InputModified").end(); Ev("Cosine").a("a", x).a("b", y).i("d", scaled(d, 1e6)).i("scaled", scaled(t, 1e6)).end(); if (r.chance(1, 2)) { d = cd[1].distance(dy, dx); Ev("Cosine").a("a", y).a("b", x).i("d", scaled(d, 1e6)).i("scaled", scaled(d, 1e6)).end(); } }
            { int m = r.chance(1, 8) ? r.in(6, 40) : r.in(0, 5); double u = r.of(VD{1, 1, 1e-5, 1e-3, 1e6}); VI m1 = rnd(r, m, -5, 5), v1 = rnd(r, m, 1, 9), m2 = r.chance(1, 4) ? m1 : rnd(r, m, -5, 5), v2 = r.chance(1, 4) ? v1 : rnd(r, m, 1, 9); for (int &v : v1) if (!v) v = 1; for (int &v : v2) if (!v) v = 2;
              double d = kl.distanceGaussian(dbl(m1, u), dbl(v1, u * u), dbl(m2, u), dbl(v2, u * u)); Ev("Gauss").a("m1", m1).a("v1", v1).a("m2", m2).a("v2", v2).i("d", scaled(d, 1e6)).end(); d = kl.distanceGaussian(dbl(m2, u), dbl(v2, u * u), dbl(m1, u), dbl(v1, u * u)); Ev("Gauss").a("m1", m2).a("v1", v2).a("m2", m1).a("v2", v1).i("d", scaled(d, 1e6)).end(); }
            { int m = r.chance(1, 8) ? r.in(7, 30) : r.in(1, 6), tot = 32; auto dist = [&]() { VI c(m); if (r.chance(1, 2)) { for (int i = 0; i < tot; ++i) c[r.in(0, m - 1)]++; } else { for (int i = 0; i < m; ++i) c[i] = 1; for (int i = m; i < tot; ++i) c[r.in(0, m - 1)]++; } return c; }; VI p = dist(), w = r.chance(1, 5) ? p : dist();
              double d = kl.distanceDistribution(dbl(p, 1.0 / tot), dbl(w, 1.0 / tot), false), e = kl.distanceDistribution(dbl(p, 1.0 / tot), dbl(w, 1.0 / tot), true); Ev("Dist").a("p", p).a("q", w).i("d", scaled(d, 1e6)).i("s", scaled(e, 1e6)).end();
              d = kl.distanceDistribution(dbl(w, 1.0 / tot), dbl(p, 1.0 / tot), false), e = kl.distanceDistribution(dbl(w, 1.0 / tot), dbl(p, 1.0 / tot), true); Ev("Dist").a("p", w).a("q", p).i("d", scaled(d, 1e6)).i("s", scaled(e, 1e6)).end(); }
            if (a % 3 == 0) { int m = a % 12 == 6 ? r.in(18, 90) : r.in(0, 17), w = r.in(1, 4), period = r.in(1, 5); std::vector<VI> f; for (int i = 0; i < m; ++i) f.push_back(i >= period && r.chance(3, 4) ? f[i - period] : rnd(r, w, -8, 8)); std::vector<VD> in; for (auto &v : f) in.push_back(dbl(v)); std::vector<VD> keep = in;
              BeatSpectrum b; VD v = b.process(in); if (in != keep) Ev("InputModified").end(); Ev("Beat").aa("m", f).a("v", scaledV(v.data(), int(v.size()), 1000)).end(); }
            { int m = r.chance(1, 10) ? r.in(25, 250) : r.in(1, 24); double u = r.of(VD{1, 1, 1e-5, 1e-2, 1e4, 1e100}); VI x = rnd(r, m, -20, 20); std::unique_ptr<double[]> src(new double[m]), dst(new double[m]); for (int i = 0; i < m; ++i) { src[i] = x[i] * u; dst[i] = -77; } Correlation c; c.doAutoUnBiased(src.get(), dst.get(), m); VI pos; for (int i = 0; i < m; ++i) { pos.push_back(dst[i] > 0); if (src[i] != x[i] * u) Ev("InputModified").end(); }
              Ev("Auto").a("x", x).a("d", scaledV(dst.get(), m, 1000 / u / u)).a("pos", pos).end(); }
        }
    }
    return 0;
}
