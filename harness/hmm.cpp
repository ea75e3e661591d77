#include "trace.h"
#include "hmm/hmm.h"
#include "f2cio.h"
#include <ctime>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<VI> VVI; typedef std::vector<VD> VVD;
static long g_time = 1; extern "C" time_t __wrap_time(time_t *t) { if (t) *t = g_time; return g_time; }
struct Mat { int r, c; double **p; Mat(int r, int c) : r(r), c(c) { p = (double **)malloc(r * sizeof(double *)); for (int i = 0; i < r; ++i) { p[i] = (double *)malloc(c * sizeof(double)); for (int j = 0; j < c; ++j) p[i][j] = -7777; } } ~Mat() { for (int i = 0; i < r; ++i) free(p[i]); free(p); }
    VVI get(double s) { VVI o; for (int i = 0; i < r; ++i) o.push_back(scaledV(p[i], c, s)); return o; } VVD raw() { VVD o; for (int i = 0; i < r; ++i) o.push_back(VD(p[i], p[i] + c)); return o; } };
static std::unique_ptr<Mat> mat(const VVI &v, double u = 1) { std::unique_ptr<Mat> m(new Mat(int(v.size()), int(v[0].size()))); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) m->p[i][j] = v[i][j] * u; return m; }
static VI dist(Rng &r, int n, int w, bool zeros) { VI v(n, 0); for (int k = 0; k < w; ++k) ++v[r.in(0, n - 1)]; if (!zeros) for (int i = 0; i < n; ++i) if (!v[i]) { int j = 0; for (int q = 0; q < n; ++q) if (v[q] > v[j]) j = q; --v[j]; ++v[i]; } return v; }
static VI cov(Rng &r, int L) { if (L == 1) return VI{r.in(1, 40)}; if (L == 2) for (;;) { int a = r.in(1, 20), c = r.in(1, 20), b = r.in(-10, 10); if (a * c - b * b >= 4) return VI{a, b, c}; } for (;;) { int a = r.in(1, 5), d = r.in(1, 5), f = r.in(1, 5), b = r.in(-4, 4), c = r.in(-4, 4), e = r.in(-4, 4); if (a * d - b * b > 0 && a * (d * f - e * e) - b * (b * f - c * e) + c * (b * e - c * d) >= 3) return VI{a, b, c, d, e, f}; } }
static VI pt(Rng &r, int L, int R) { VI v; for (int k = 0; k < L; ++k) v.push_back(r.in(-R, R)); return v; }
static void setCov(double **c, int L, const VI &v, double u = 1) { int k = 0; for (int i = 0; i < L; ++i) for (int j = i; j < L; ++j) c[i][j] = c[j][i] = v[k++] * u * u; }
static double unitOf(Rng &r) { return ldexp(1, r.of(VI{0, 0, 0, -14, -30, -60, 12, 40})); }
// log likelihood by the plain forward recursion in logarithms, from the model alone
static double logLik(model_t *m, double **x, int T) {
    int N = m->N, L = m->L; VVD c(L, VD(2 * L, 0)); double ld = 0;
    for (int i = 0; i < L; ++i) { for (int j = 0; j < L; ++j) c[i][j] = m->cov[i][j]; c[i][L + i] = 1; }
    for (int i = 0; i < L; ++i) { int b = i; for (int q = i; q < L; ++q) if (fabs(c[q][i]) > fabs(c[b][i])) b = q; std::swap(c[i], c[b]); double d = c[i][i]; ld += log(fabs(d)); for (double &z : c[i]) z /= d; for (int q = 0; q < L; ++q) if (q != i) { double f = c[q][i]; for (int j = 0; j < 2 * L; ++j) c[q][j] -= f * c[i][j]; } }
    auto em = [&](int t, int i) { double s = 0; for (int k = 0; k < L; ++k) for (int j = 0; j < L; ++j) s += (x[t][k] - m->mu[i][k]) * c[k][L + j] * (x[t][j] - m->mu[i][j]); return -0.5 * (s + L * log(2 * M_PI) + ld); };
    VD al(N); for (int i = 0; i < N; ++i) al[i] = log(m->p0[i]) + em(0, i);
    auto lse = [](const VD &v) { double mx = -INFINITY; for (double z : v) if (z > mx) mx = z; if (mx == -INFINITY) return mx; double s = 0; for (double z : v) s += exp(z - mx); return mx + log(s); };
    for (int t = 1; t < T; ++t) { VD n(N); for (int j = 0; j < N; ++j) { VD v; for (int i = 0; i < N; ++i) v.push_back(al[i] + log(m->a[i][j])); n[j] = lse(v) + em(t, j); } al = n; }
    return lse(al);
}
static bool finite(model_t *m) { for (int i = 0; i < m->N; ++i) { if (!std::isfinite(m->p0[i])) return false; for (int j = 0; j < m->N; ++j) if (!std::isfinite(m->a[i][j])) return false; for (int d = 0; d < m->L; ++d) if (!std::isfinite(m->mu[i][d])) return false; } for (int d = 0; d < m->L; ++d) for (int e = 0; e < m->L; ++e) if (!std::isfinite(m->cov[d][e])) return false; return true; }
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen sc; int n = A.pick(320, 4000);
    for (int q = 0; q < n; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 1217 + q); g_time = r.in(1, 1 << 20); Ev("Scenario").i("n", sc.n).end(); int kind = (q / 8) % 4;
        if (kind == 0) { // decoding
            bool lng = r.chance(1, 4); int N = r.in(1, lng ? 6 : 4), L = r.in(1, 3), T = lng ? r.of(VI{20, 45, 70, 130}) : r.in(1, 10), w = 12; double u = unitOf(r); VVI x0{pt(r, L, 5), pt(r, L, 5)}; auto xm = mat(x0, u);
            model_t *m = hmm_init(xm->p, 2, L, N); VI p = dist(r, N, w, r.chance(1, 2)); VVI a, mu; for (int i = 0; i < N; ++i) { a.push_back(dist(r, N, w, r.chance(1, 2))); mu.push_back(pt(r, L, 5)); } bool far = L < 3 && r.chance(1, 3); VI c = cov(r, L); while (far && (L == 1 ? c[0] > 5 : c[0] > 9 || c[2] > 9)) c = cov(r, L);
            for (int i = 0; i < N; ++i) { m->p0[i] = p[i] / double(w); for (int j = 0; j < N; ++j) m->a[i][j] = a[i][j] / double(w); for (int d = 0; d < L; ++d) m->mu[i][d] = mu[i][d] * u; } setCov(m->cov, L, c, u);
            Ev("Model").i("N", N).i("L", L).a("p", p).i("pw", w).aa("a", a).i("aw", w).aa("mu", mu).a("cov", c).end();
            for (int o = 0; o < (lng ? 1 : 3); ++o) { VVI x; for (int t = 0; t < T; ++t) x.push_back(pt(r, L, far ? 4000 : 5)); if (far && int(x.size()) > 5) x.resize(5); T = int(x.size()); auto X = mat(x, u); std::unique_ptr<int[]> Q(new int[T]); viterbi_decode(X->p, T, m, Q.get()); Ev("Viterbi").i("u", far ? 1 : 10000).aa("x", x).a("q", VI(Q.get(), Q.get() + T)).end(); }
            hmm_close(m);
        } else if (kind == 1) { // densities, posteriors
            for (int o = 0; o < 3; ++o) {
                int L = r.in(1, 3); double u = unitOf(r); VI c = cov(r, L), x = pt(r, L, 8), mu = pt(r, L, 8); Mat cv(L, L), ic(L, L); setCov(cv.p, L, c, u); double det = 0; invert(cv.p, L, ic.p, &det);
                VD X(x.begin(), x.end()), M(mu.begin(), mu.end()), y(L), z(L); for (double &v : X) v *= u; for (double &v : M) v *= u; double lg = loggauss(X.data(), L, M.data(), ic.p, det, y.data(), z.data()), g = gauss(X.data(), L, M.data(), ic.p, det, y.data(), z.data());
                VI icv; for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) icv.push_back(scaled(ic.p[i][j] * u * u, 1000000));
                Ev("Gauss").i("L", L).a("cov", c).a("x", x).a("mu", mu).i("det", scaled(det / pow(u, 2 * L), 1000)).a("icov", icv).i("lg", scaled(lg + L * log(u), 10000)).i("g", scaled(g > 0 ? log(g) + L * log(u) : -9, 10000)).end();
            }
            for (int o = 0; o < 2; ++o) { bool lng = o; int N = lng ? r.in(1, 4) : r.in(1, 3), T = lng ? r.in(5, r.of(VI{12, 60, 140})) : N == 3 ? r.in(1, 3) : r.in(1, 4), ex = r.of(VI{0, 0, -300, 200}); bool z = !lng && r.chance(1, 2); VI p = dist(r, N, 10, z); VVI a, b; for (int i = 0; i < N; ++i) a.push_back(dist(r, N, 10, z));
            for (int t = 0; t < T; ++t) { VI v; for (int i = 0; i < N; ++i) v.push_back(z && r.chance(1, 4) ? 0 : r.in(1, 9)); b.push_back(v); }
            VD P; for (int v : p) P.push_back(v / 10.0); auto Am = mat(a), Bm = mat(b, ldexp(1, ex)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) Am->p[i][j] /= 10;
            Mat gamma(T, N); std::vector<std::unique_ptr<Mat>> xi; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xi.emplace_back(new Mat(N, N)); xp.push_back(xi.back()->p); }
            double ll = 0, l1 = 0, l2 = 0; forward_backwards(xp.data(), gamma.p, &ll, &l1, &l2, r.in(1, 3), N, T, P.data(), Am->p, Bm->p);
            VVI xo; for (int t = 0; t < T - 1; ++t) { VI row; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) row.push_back(scaled(xi[t]->p[i][j], 10000)); xo.push_back(row); }
            Ev(lng ? "LongFB" : "FB").a("p", p).aa("a", a).aa("b", b).aa("gamma", gamma.get(10000)).aa("xi", xo).i("loglik", scaled(ll - T * ex * M_LN2, 10000)).end(); }
        } else if (kind == 2) { // re-estimation from given occupations
            int N = r.in(1, 3), L = r.in(1, 2), T = r.in(2, r.of(VI{8, 8, 50, 130})); VVI x, g, xiv, mu; for (int t = 0; t < T; ++t) { x.push_back(pt(r, L, 9)); g.push_back(dist(r, N, 1000, false)); if (t < T - 1) xiv.push_back(dist(r, N * N, 1000, true)); } for (int i = 0; i < N; ++i) mu.push_back(pt(r, L, 9));
            auto X = mat(x), G = mat(g), M = mat(mu); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) G->p[t][i] /= 1000;
            std::vector<std::unique_ptr<Mat>> xi; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xi.emplace_back(new Mat(N, N)); xp.push_back(xi.back()->p); if (t < T - 1) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) xi[t]->p[i][j] = xiv[t][i * N + j] / 1000.0; }
            VD p(N, -1); Mat a(N, N), cv(L, L); baum_welch(p.data(), a.p, M->p, cv.p, N, T, L, X->p, xp.data(), G->p);
            VI cf; for (auto &row : cv.get(1000)) for (int v : row) cf.push_back(v);
            Ev("Reest").i("N", N).i("L", L).aa("x", x).aa("gamma", g).aa("xi", xiv).aa("mu0", mu).a("p", scaledV(p.data(), N, 1000)).aa("a", a.get(1000)).aa("mu", M->get(1000)).a("cov", cf).end();
        } else { // initialisation and training
            int N = r.in(1, 3), L = r.in(1, 3), T = r.in(12, r.of(VI{40, 40, 200})); Mat X(T, L); double sep = r.of(VD{0.5, 2, 5}); int st = 0; VVD cen; for (int i = 0; i < 3; ++i) { VD v; for (int d = 0; d < L; ++d) v.push_back(sep * (r.unit() * 2 - 1)); cen.push_back(v); }
            for (int t = 0; t < T; ++t) { if (r.chance(1, 5)) st = r.in(0, 2); for (int d = 0; d < L; ++d) X.p[t][d] = cen[st][d] + r.unit() + r.unit() - 1; }
            model_t *m = hmm_init(X.p, T, L, N); VD mean(L, 0), var(L, 0); for (int d = 0; d < L; ++d) { for (int t = 0; t < T; ++t) mean[d] += X.p[t][d] / T; for (int t = 0; t < T; ++t) var[d] += (X.p[t][d] - mean[d]) * (X.p[t][d] - mean[d]) / (T - 1); }
            VI off, cvv, want; VVI ar; for (int i = 0; i < N; ++i) { ar.push_back(scaledV(m->a[i], N, 1e6)); for (int d = 0; d < L; ++d) off.push_back(scaled((m->mu[i][d] - mean[d]) / sqrt(var[d]), 1000)); }
            for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) { cvv.push_back(scaled(m->cov[d][e], 100000)); want.push_back(d == e ? scaled(var[d], 100000) : 0); }
            Ev("InitModel").a("p", scaledV(m->p0, N, 1e6)).aa("a", ar).a("off", off).a("cov", cvv).a("want", want).end();
            if (r.chance(1, 2) && N > 1) { VI z = dist(r, N, 10, false); for (int i = 0; i < N; ++i) { m->p0[i] = z[i] / 10.0; VI y = dist(r, N, 10, r.chance(1, 3)); if (!y[i]) { y[i] = y[(i + 1) % N]; y[(i + 1) % N] = 0; if (!y[i]) { y = VI(N, 0); y[i] = 10; } } for (int j = 0; j < N; ++j) m->a[i][j] = y[j] / 10.0; } }
            // the same steps by hand on a copy, for the likelihood after each
            VI steps; { model_t *k = hmm_init(X.p, T, L, N); for (int i = 0; i < N; ++i) { k->p0[i] = m->p0[i]; for (int j = 0; j < N; ++j) k->a[i][j] = m->a[i][j]; for (int d = 0; d < L; ++d) k->mu[i][d] = m->mu[i][d]; } for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) k->cov[d][e] = m->cov[d][e];
                Mat gamma(T, N), b(T, N), ic(L, L); std::vector<std::unique_ptr<Mat>> xi; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xi.emplace_back(new Mat(N, N)); xp.push_back(xi.back()->p); } VD y(L), z(L); double ll = 0, l1 = 0, l2 = 0;
                for (int it = 1; it <= 6; ++it) { steps.push_back(scaled(logLik(k, X.p, T), 1000)); double det; invert(k->cov, L, ic.p, &det); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) b.p[t][i] = gauss(X.p[t], L, k->mu[i], ic.p, det, y.data(), z.data()); forward_backwards(xp.data(), gamma.p, &ll, &l1, &l2, it, N, T, k->p0, k->a, b.p); baum_welch(k->p0, k->a, k->mu, k->cov, N, T, L, X.p, xp.data(), gamma.p); }
                hmm_close(k); }
            double before = logLik(m, X.p, T); VVD xs = X.raw(); hmm_train(X.p, T, m); if (X.raw() != xs) Ev("InputModified").end(); double after = logLik(m, X.p, T);
            ar.clear(); for (int i = 0; i < N; ++i) ar.push_back(scaledV(m->a[i], N, 1e6));
            Ev("Train").b1("finite", finite(m)).a("p", scaledV(m->p0, N, 1e6)).aa("a", ar).i("before", scaled(before, 1000)).i("after", scaled(after, 1000)).a("steps", steps).end();
            hmm_close(m);
        }
    }
    fclose(Out::file());
}
