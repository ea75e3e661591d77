#include "trace.h"
#include "maths/Polyfit.h"
#include <algorithm>
typedef std::vector<int> VI; typedef std::vector<double> VD;
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(64, 1600);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 110011 + q); Ev("Scenario").i("n", s.n).end();
        for (int a = 0; a < A.pick(40, 80); ++a) {
            if (r.chance(1, 10)) { int t = r.in(0, 3), nx = r.in(0, 4), ny = r.chance(1, 2) ? nx : r.in(0, 4); if (t >= 1 && nx >= 2 && nx == ny) continue; VD x(nx, 1.5), y(ny, 2.5), c(t, 7); for (int i = 0; i < nx; ++i) x[i] = i; double v = TPolyFit::PolyFit2(x, y, c); Ev("Declined").i("terms", t).i("nx", nx).i("ny", ny).i("q", scaled(v, 1000)).a("c", exactV(c.data(), t)).a("before", VI(t, 7)).end(); continue; }
            int terms = r.in(1, 4); VI pts; for (int i = -4; i <= 4; ++i) pts.push_back(i); for (int i = 8; i > 0; --i) std::swap(pts[i], pts[r.in(0, i)]); int m = r.in(std::max(2, terms), 9); pts.resize(m);
            if (r.chance(1, 4)) for (int i = r.in(1, 3); i > 0; --i) pts.push_back(pts[r.in(0, m - 1)]); // repeated places are fine
            VI y; int kind = r.in(0, 4), c0 = r.in(-9, 9), c1 = r.in(-3, 3); for (int x : pts) y.push_back(kind == 0 ? r.in(-20, 20) : kind == 1 ? c0 : kind == 2 ? c0 + c1 * x : kind == 3 ? c0 + c1 * x * x : r.in(0, 3));
            double xu = ldexp(1, r.of(VI{0, 0, 0, -3, 2, -14, -20, 12})), yu = ldexp(1, r.of(VI{0, 0, -20, -40, 12})); VD dx(pts.begin(), pts.end()), dy(y.begin(), y.end()); for (double &v : dx) v *= xu; for (double &v : dy) v *= yu; // units make no difference
            VD kx = dx, ky = dy, c(terms, 1e9); double v = TPolyFit::PolyFit2(dx, dy, c); if (dx != kx || dy != ky) Ev("InputModified").end();
            for (int j = 0; j < terms; ++j) c[j] *= pow(xu, j) / yu;
            Ev("Fit").a("x", pts).a("y", y).a("c", scaledV(c.data(), terms, 10000)).i("q", scaled(v, 1000)).end();
            if (a % 8 == 0) { // many terms: places in quarters, the fitted values at the places
                int t = r.in(5, 9); VI px; for (int i = -4; i <= 4; ++i) px.push_back(i); for (int i = 8; i > 0; --i) std::swap(px[i], px[r.in(0, i)]); px.resize(r.in(t, 9)); VI py; VD hx, hy, h(t, 1e9); for (int x : px) { py.push_back(r.in(-20, 20)); hx.push_back(x / 4.0); hy.push_back(py.back()); }
                TPolyFit::PolyFit2(hx, hy, h); VI f; for (double x : hx) { double z = 0; for (int j = t - 1; j >= 0; --j) z = z * x + h[j]; f.push_back(scaled(z, 1000)); } Ev("Values").i("terms", t).a("x", px).a("y", py).a("f", f).end();
            }
        }
    }
    return 0;
}
