#include "trace.h"
#include "maths/MathUtilities.h"
#include "maths/nan-inf.h"
#include <algorithm>
#include <limits>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::unique_ptr<double[]> Buf; typedef MathUtilities M;
static Buf buf(const VD &v) { Buf b(new double[v.size()]); std::copy(v.begin(), v.end(), b.get()); return b; }
static VD exact(const VD &v) { return VD(v.begin(), v.end()); }
static void same(const Buf &b, const VD &v) { if (!std::equal(v.begin(), v.end(), b.get())) Ev("InputModified").end(); }
static void numbers(Rng &r, int A) {
    for (int a = 0; a < A; ++a) {
        int x; switch (r.in(0, 4)) { case 0: x = r.in(-3, 40); break; case 1: x = (1 << r.in(0, 30)) + r.in(-2, 2); break; case 2: x = 3 * (1 << r.in(0, 28)) + r.in(-1, 1); break; case 3: x = int(r.next() >> 34); break; default: x = r.of(VI{0, -1, INT32_MIN, INT32_MIN + 1, INT32_MAX, 1 << 30}); }
        bool up = x <= (1 << 30); Ev("Pow2").i("x", x).b1("is", M::isPowerOfTwo(x)).i("next", up ? M::nextPowerOfTwo(x) : 0).i("prev", M::previousPowerOfTwo(x)).i("near", up && x >= -(1 << 30) ? M::nearestPowerOfTwo(x) : 0).end();
        int g = r.in(1, 30), p = r.chance(1, 4) ? g * r.in(0, 200) : r.in(0, 40000), q = r.chance(1, 3) ? g * r.in(1, 200) : r.chance(1, 5) ? 1 : r.in(1, 40000); if (r.chance(1, 6)) p = q; Ev("Gcd").i("a", p).i("b", q).i("g", M::gcd(p, q)).end();
        int f = r.in(-3, 30); double v = M::factorial(f); Ev("Fact").i("x", f).i("f", f <= 12 ? exactInt(v) : 0).i("ratio", f > 12 ? exactInt(v / M::factorial(f - 1)) : 0).end();
        int den = r.of(VI{1, 2, 4, 8, 10, 64}), num = r.chance(1, 3) ? (2 * r.in(-60, 60) + 1) * std::max(1, den / 2) : r.in(-1000, 1000); Ev("Round").i("num", num).i("den", den).i("r", exactInt(M::round(double(num) / den))).end(); { double off = ldexp(num < 0 ? -r.in(1, 1000) : r.in(1, 1000), r.of(VI{20, 31, 33, 36})); int d2 = r.of(VI{1, 2, 4, 8}), n2 = num / 2; if (num < 0) n2 = -abs(n2); Ev("Round").i("num", n2).i("den", d2).i("r", exactInt(M::round(off + double(n2) / d2) - off)).end(); }
        int my = r.in(-40, 40); if (!my) my = 8; int mx = r.chance(1, 3) ? my * r.in(-9, 9) : r.chance(1, 6) ? r.in(-1000000000, 1000000000) : r.in(-400, 400); Ev("Mod").i("x", mx).i("y", my).i("r", exactInt(8 * M::mod(mx / 8.0, my / 8.0))).end();
        int k = r.in(1, 12), t = r.chance(1, 3) ? k * r.in(-9, 9) : r.chance(1, 4) ? r.in(-2000000, 2000000) : r.in(-200, 200); double pa = M::princarg(M_PI * t / k) * k / M_PI; Ev("Princarg").i("k", k).i("a", t).i("r", exactInt(pa)).end();
        double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN(); int w = r.in(0, 4); double o = w == 0 ? nan : w == 1 ? inf : w == 2 ? -inf : w == 3 ? 1e308 * r.unit() : -r.unit(); float of = float(w == 3 ? 1e38 : o);
        Ev("Odd").s("x", w == 0 ? "nan" : w == 1 ? "inf" : w == 2 ? "-inf" : "finite").b1("nan", ISNAN(o)).b1("inf", ISINF(o)).end(); Ev("Odd").s("x", w == 0 ? "nan" : w == 1 ? "inf" : w == 2 ? "-inf" : "finite").b1("nan", ISNAN(of)).b1("inf", ISINF(of)).end();
        int ca = r.in(-9, 9), cb = r.in(-9, 9); Ev("Order").i("a", ca).i("b", cb).i("c", M::compareInt(&ca, &cb)).end();
    }
}
static void arrays(Rng &r, int A) {
    VI d; auto set = [&]() { int n = r.chance(1, 6) ? r.in(0, 2) : r.chance(1, 6) ? r.in(30, 60) : r.chance(1, 25) ? r.in(1000, 1400) : r.in(1, 24), amp = r.of(VI{1, 3, 10}); d.clear(); int kind = r.in(0, 4); for (int i = 0; i < n; ++i) d.push_back(kind == 0 ? 0 : kind == 1 ? -r.in(0, amp) : kind == 2 ? amp : r.in(-amp, amp)); if (kind == 4 && n > 1) { int s = 0; for (int i = 0; i + 1 < n; ++i) s += d[i]; if (abs(s) <= 10) d[n - 1] = -s; } Ev("Set").a("v", d).end(); };
    set();
    for (int a = 0; a < 2; ++a) { int n = r.of(VI{100, 257, 500, 1024, 1400, 3000}) + r.in(0, 1); VD v; VI vi; for (int i = 0; i < n; ++i) { vi.push_back(r.in(-1000000, 1000000)); v.push_back(vi.back()); } Buf b = buf(v); double med = M::median(b.get(), n), mn, mx; M::getFrameMinMax(b.get(), n, &mn, &mx); double top = 0; int at = M::getMax(v, &top); same(b, v); Ev("Big").a("v", vi).i("m2", exactInt(2 * med)).i("min", exactInt(mn)).i("max", exactInt(mx)).i("at", at).i("mean", scaled(M::mean(b.get(), n), 1)).end(); }
    for (int a = 0; a < A; ++a) {
        if (r.chance(1, 6)) set();
        int n = int(d.size()); VD v(d.begin(), d.end()), ve = exact(v); Buf b = buf(v);
        switch (r.in(0, 10)) {
        case 0: { double mn = 9e9, mx = 9e9; M::getFrameMinMax(b.get(), n, &mn, &mx); Ev("MinMax").i("min", exactInt(mn)).i("max", exactInt(mx)).end(); same(b, v); break; }
        case 1: if (n) { double mx = 9e9, mv = 9e9; int i = M::getMax(b.get(), n, &mx), iv = M::getMax(ve, &mv), i0 = r.chance(1, 2) ? M::getMax(b.get(), n) : M::getMax(ve); Ev("Max").i("i", i).i("iv", iv).i("i0", i0).i("max", exactInt(mx)).i("maxv", exactInt(mv)).end(); same(b, v); } break;
        case 2: Ev("Sum").i("sum", exactInt(M::sum(b.get(), n))).i("mean", scaled(M::mean(b.get(), n), 1000)).end(); same(b, v); break;
        case 3: { int s = r.in(0, n), c = r.in(0, n - s); Ev("Range").i("start", s).i("count", c).i("mean", scaled(M::mean(ve, s, c), 1000)).end(); break; }
        case 4: Ev("Median").i("m2", exactInt(2 * M::median(b.get(), n))).end(); same(b, v); break;
        case 5: if (n) { int al = r.in(1, 3); double x = -1; M::getAlphaNorm(b.get(), n, al, &x); double y = M::getAlphaNorm(ve, al); Ev("Alpha").i("alpha", al).i("r", scaled(x, 1000)).i("rv", scaled(y, 1000)).end(); same(b, v); } break;
        case 6: { int p = r.in(1, 2); if (r.chance(1, 4)) { int t = 0; for (int x : d) t += abs(x * x * x); if (t < 1700 && n < 1000) p = 3; } long long tot = 0; for (int x : d) { long long q = 1; for (int i = 0; i < p; ++i) q *= abs(x); tot += q; } if (tot < 2000) Ev("Lp").i("p", p).i("r", scaled(M::getLpNorm(ve, p), 1000)).end(); break; }
        case 7: { int p = r.in(0, 3); double th = 1e-6; bool below = false; if (p && n && r.chance(1, 4)) { double nm = M::getLpNorm(ve, p); if (nm > 0) th = nm * r.of(VD{1.01, 0.99, 1}); below = nm < th; } VD o = r.chance(1, 2) && th == 1e-6 ? M::normaliseLp(ve, p) : M::normaliseLp(ve, p, th); Ev("NormaliseLp").i("p", p).b1("below", below).a("out", scaledV(o.data(), int(o.size()), 1000)).end(); if (ve != v) Ev("InputModified").end(); break; }
        case 8: { int t = r.in(0, 2); M::NormaliseType ty = t == 0 ? M::NormaliseNone : t == 1 ? M::NormaliseUnitSum : M::NormaliseUnitMax; if (t == 2 && r.chance(1, 2)) { M::normalise(b.get(), n); M::normalise(ve); } else { M::normalise(b.get(), n, ty); M::normalise(ve, ty); } Ev("Normalise").s("type", t == 0 ? "none" : t == 1 ? "sum" : "max").a("out", scaledV(b.get(), n, 1e6)).a("outv", scaledV(ve.data(), int(ve.size()), 1e6)).end(); break; }
        case 9: { M::adaptiveThreshold(ve); Ev("Threshold").a("out", scaledV(ve.data(), int(ve.size()), 1000)).end(); break; }
        default: if (n) { int by = r.chance(1, 3) ? r.of(VI{r.in(0, 3 * n), r.in(0, 3 * n), r.in(0, 1 << 30)}) : r.in(0, n); M::circShift(b.get(), n, by); VI o = exactV(b.get(), n); Ev("Shift").i("by", by).a("out", o).end(); d = o; }
        }
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(64, 1600);
    for (int q = 0; q < n; ++q) { if (!s.begin()) continue; Rng r(A.seed * 330011 + q); Ev("Scenario").i("n", s.n).end(); if ((q / 8) % 2) numbers(r, A.pick(30, 60)); else arrays(r, A.pick(100, 200)); }
    return 0;
}
