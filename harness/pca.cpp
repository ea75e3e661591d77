#include "trace.h"
extern "C" {
#include "maths/pca/pca.h"
}
typedef std::vector<int> VI; typedef std::vector<double> VD;
struct Mat { int n, m; VD d; std::vector<double *> rows; Mat(const VI &x, int n, int m, double unit, const VD &off) : n(n), m(m), d(x.begin(), x.end()), rows(n) { for (int i = 0; i < n * m; ++i) d[i] = d[i] * unit + off[i % m]; for (int i = 0; i < n; ++i) rows[i] = d.data() + i * m; } };
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int N = A.pick(64, 1600);
    for (int q = 0; q < N; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 8101 + q); Ev("Scenario").i("n", s.n).end();
        for (int a = 0; a < A.pick(10, 20); ++a) {
            int m = r.in(1, 6), n = r.in(1, 12), kind = (q / 8 + a) % 6, range = r.in(1, 20); bool big = a == 9, wide = !big && kind == 5 && r.chance(1, 2); if (big) { m = r.in(1, 3); n = r.in(13, 260); kind = 0; range = r.in(1, 2); } if (wide) { m = r.in(7, 24); n = r.in(2, 14); range = r.in(1, 4); } VI x(n * m);
            if (kind == 0 || kind == 5) for (int &v : x) v = r.in(-range, range);
            else if (kind == 1) for (int i = 0; i < n; ++i) x[i * m + i % m] = (i / m % 2 ? -1 : 1) * (1 + (i % m * 7) % 5) * 3; // one axis at a time
            else if (kind == 2) for (int i = 0; i < n; ++i) { int c = r.in(-4, 4), b = r.in(-1, 1); for (int j = 0; j < m; ++j) x[i * m + j] = c * (j % 3 - 1) + b * (j == 1) + 5; } // few dimensions
            else if (kind == 3) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i * m + j] = 4 * j - 3; // all the same
            else for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i * m + j] = r.in(-20, 20) / (1 + j) + 7 * (j == 2);
            double unit = ldexp(1, r.of(VI{0, 0, 0, -20, -4, 10, 30})); VD off(m); if (r.chance(1, 3)) for (double &v : off) v = unit * r.of(VI{0, 3, 100000, 1 << 27, -(1 << 27) - 11}); // exact, and no part of the result
            int c = kind == 5 ? m : r.in(1, m);
            Mat M(x, n, m, unit, off); pca_project(M.rows.data(), n, m, c); VD part; for (int i = 0; i < n; ++i) for (int k = 0; k < c; ++k) part.push_back(M.d[i * m + k]);
            Mat F(x, n, m, unit, off); pca_project(F.rows.data(), n, m, m);
            Ev("Project").i("n", n).i("m", m).i("c", c).a("x", x).a("full", scaledV(F.d.data(), n * m, 1000 / unit)).a("part", scaledV(part.data(), n * c, 1000 / unit)).end();
        }
    }
    return 0;
}
