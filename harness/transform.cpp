#include "trace.h"
#include "dsp/transforms/FFT.h"
#include "dsp/transforms/DCT.h"
#include <algorithm>
#include <memory>
#include <stdexcept>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::unique_ptr<double[]> Buf;
static Buf buf(const VD &v) { Buf b(new double[v.size()]); std::copy(v.begin(), v.end(), b.get()); return b; }
static Buf dirty(size_t n) { Buf b(new double[n]); for (size_t i = 0; i < n; ++i) b[i] = 3.7e5 - double(i); return b; }
static VD vec(const Buf &b, size_t n) { return VD(b.get(), b.get() + n); }
static void intact(const Buf &b, const VD &v) { if (vec(b, v.size()) != v) Ev("InputModified").end(); }
static VD dbl(const VI &v) { return VD(v.begin(), v.end()); }
struct RI { VD re, im; };
static RI cplx(FFT &f, bool inv, const VD &re, const VD *im) {
    size_t n = re.size(); Buf a = buf(re), b = im ? buf(*im) : Buf(), ro = dirty(n), io = dirty(n);
    f.process(inv, a.get(), im ? b.get() : 0, ro.get(), io.get());
    intact(a, re); if (im) intact(b, *im);
    return {vec(ro, n), vec(io, n)};
}
static RI real(FFTReal &f, const VD &x) { size_t n = x.size(); Buf a = buf(x), ro = dirty(n), io = dirty(n); f.forward(a.get(), ro.get(), io.get()); intact(a, x); return {vec(ro, n), vec(io, n)}; }
static VD mags(FFTReal &f, const VD &x) { size_t n = x.size(); Buf a = buf(x), m = dirty(n); f.forwardMagnitude(a.get(), m.get()); intact(a, x); return vec(m, n); }
// only the first half and one are handed over
static VD realInv(FFTReal &f, int n, const VD &re, const VD &im) {
    VD r(re.begin(), re.begin() + n / 2 + 1), i(im.begin(), im.begin() + n / 2 + 1); Buf a = buf(r), b = buf(i), o = dirty(n);
    f.inverse(a.get(), b.get(), o.get()); intact(a, r); intact(b, i); return vec(o, n);
}
static VD dct(DCT &d, const std::string &op, const VD &x) {
    size_t n = x.size(); Buf a = buf(x), o = dirty(n);
    if (op == "fwd") d.forward(a.get(), o.get()); else if (op == "inv") d.inverse(a.get(), o.get()); else if (op == "ufwd") d.forwardUnitary(a.get(), o.get()); else d.inverseUnitary(a.get(), o.get());
    intact(a, x); return vec(o, n);
}
static VI sc(const VD &v, double s) { return scaledV(v.data(), int(v.size()), s); }
static VD sub(const VD &v, const VI &k) { VD o; for (int i : k) o.push_back(v[i]); return o; }
static VD randv(Rng &r, int n, int amp) { VD x(n); int kind = r.in(0, 3); for (int i = 0; i < n; ++i) x[i] = kind == 0 ? (r.chance(1, 4) ? r.in(-amp, amp) : 0) : kind == 1 ? amp : r.in(-amp, amp); return x; }
static VI ints(const VD &v) { return exactV(v.data(), int(v.size())); }

static void small(Rng &r, int A) {
    struct O { std::unique_ptr<FFT> c; std::unique_ptr<FFTReal> f; std::unique_ptr<DCT> d; int n = 0; }; int no = 3; std::vector<O> os(no);
    auto make = [&](int k) {
        O &o = os[k]; o.c.reset(); o.f.reset(); o.d.reset(); int kind = r.in(0, 2);
        if (kind == 0) { o.n = r.chance(1, 8) ? r.in(25, 40) : r.in(1, 24); o.c.reset(new FFT(o.n)); }
        else if (kind == 1) { o.n = 2 * r.in(1, r.chance(1, 8) ? 20 : 12); o.f.reset(new FFTReal(o.n)); }
        else { o.n = r.in(1, 14); o.d.reset(new DCT(o.n)); }
        Ev("New").i("o", k).s("kind", kind == 0 ? "complex" : kind == 1 ? "real" : "dct").i("n", o.n).end();
    };
    for (int k = 0; k < no; ++k) make(k);
    for (int a = 0; a < A; ++a) {
        int k = r.in(0, no - 1); O &o = os[k]; int n = o.n;
        if (r.chance(1, 8)) { Ev("Gone").i("o", k).end(); make(k); continue; }
        if (r.chance(1, 20)) { int m = 2 * r.in(0, 20) + 1; try { FFTReal f(m); Ev("Accepted").i("n", m).end(); } catch (const std::invalid_argument &) { Ev("Refused").s("kind", "real").i("n", m).end(); } continue; }
        if (o.c) {
            bool inv = r.chance(1, 2), null = r.chance(1, 3); VD re = randv(r, n, 50), im = null ? VD() : randv(r, n, 50); RI q = cplx(*o.c, inv, re, null ? 0 : &im);
            double s = inv ? 10000.0 * n : 10000.0; // the inverse is scaled by 1/n
            Ev("Complex").i("o", k).i("n", n).b1("inv", inv).b1("null", null).a("re", ints(re)).a("im", ints(im)).a("ro", sc(q.re, s)).a("io", sc(q.im, s)).end();
        } else if (o.f) {
            if (r.chance(1, 2)) {
                VD x = randv(r, n, 50); RI q = real(*o.f, x); Ev("Real").i("o", k).i("n", n).a("x", ints(x)).a("ro", sc(q.re, 10000)).a("io", sc(q.im, 10000)).end();
                VD m = mags(*o.f, x); double t = 1; for (double v : m) t = std::max(t, fabs(v)); if (!(t < 1e6)) t = 1e6; double s = 20000 / t;
                Ev("Magnitude").i("o", k).i("n", n).a("mag", sc(m, s)).a("ro", sc(q.re, s)).a("io", sc(q.im, s)).end();
            } else {
                VD re = randv(r, n / 2 + 1, 50), im = randv(r, n / 2 + 1, 50); im[0] = 0; im[n / 2] = 0;
                VD out = realInv(*o.f, n, re, im); Ev("RealInv").i("o", k).i("n", n).a("re", ints(re)).a("im", ints(im)).a("out", sc(out, 10000.0 * n)).end();
            }
        } else {
            static const std::vector<std::string> ops{"fwd", "inv", "ufwd"}; std::string op = r.of(ops); VD x = randv(r, n, op == "ufwd" ? 10 : 50); VD y = dct(*o.d, op, x);
            Ev("Dct").i("o", k).i("n", n).s("op", op).a("x", ints(x)).a("out", sc(y, op == "fwd" ? 10000.0 : op == "inv" ? 10000.0 * n : 100.0)).end();
            if (op == "ufwd") { VD z = dct(*o.d, "uinv", y); Ev("RoundTrip").a("x", sc(x, 1e6)).a("y", sc(z, 1e6)).end(); }
            if (op == "fwd") { VD z = dct(*o.d, "inv", y); Ev("RoundTrip").a("x", sc(x, 1e6)).a("y", sc(z, 1e6)).end(); }
            if (op == "inv") { VD z = dct(*o.d, "fwd", y); Ev("RoundTrip").a("x", sc(x, 1e6)).a("y", sc(z, 1e6)).end(); }
        }
    }
}
static int anySize(Rng &r, bool even) {
    static const VI odd{97, 101, 127, 243, 343, 625, 1009, 1023, 121, 169, 255, 999, 2187}, ev{64, 128, 256, 512, 1024, 2048, 4096, 96, 100, 202, 360, 480, 486, 882, 1000, 1920, 2018, 4410};
    int n = !even && r.chance(1, 2) ? r.of(odd) : r.chance(2, 3) ? r.of(ev) : 2 * r.in(13, 800); return n;
}
static VI pick(Rng &r, int n, int count) { VI k; for (int i = 0; i < count; ++i) k.push_back(i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? n / 2 : i == 3 ? (n / 2 + 1) % n : r.in(0, n - 1)); return k; }
static void large(Rng &r, int A) {
    for (int a = 0; a < A; ++a) {
        int n = anySize(r, false); FFT c(n); VI v, p; VD x(n); for (int i = r.in(1, 3); i > 0; --i) { v.push_back(r.in(-100, 100)); p.push_back(r.chance(1, 4) ? n - 1 : r.in(0, n - 1)); x[p.back()] += v.back(); }
        VI k = pick(r, n, 20); RI q = cplx(c, false, x, 0); Ev("Impulses").i("n", n).a("v", v).a("p", p).a("k", k).a("ro", sc(sub(q.re, k), 10000)).a("io", sc(sub(q.im, k), 10000)).end();
        VI at = pick(r, n, 60); VD z0(n);
        VD re(n), im(n); for (int i = 0; i < n; ++i) { re[i] = r.unit() * 2 - 1; im[i] = r.unit() * 2 - 1; }
        RI w = cplx(c, false, re, &im), b = cplx(c, true, w.re, &w.im);
        Ev("RoundTrip").a("x", sc(sub(re, at), 1e8)).a("y", sc(sub(b.re, at), 1e8)).end(); Ev("RoundTrip").a("x", sc(sub(im, at), 1e8)).a("y", sc(sub(b.im, at), 1e8)).end();
        RI nul = cplx(c, false, re, 0), zer = cplx(c, false, re, &z0); double s = 1e8 / n;
        Ev("Agree").a("x", sc(sub(nul.re, at), s)).a("y", sc(sub(zer.re, at), s)).end(); Ev("Agree").a("x", sc(sub(nul.im, at), s)).a("y", sc(sub(zer.im, at), s)).end();
        nul = cplx(c, true, re, 0); zer = cplx(c, true, re, &z0); Ev("Agree").a("x", sc(sub(nul.re, at), 1e8)).a("y", sc(sub(zer.re, at), 1e8)).end();
        n = anySize(r, true); FFTReal f(n); FFT g(n); x.assign(n, 0); v.clear(); p.clear(); for (int i = r.in(1, 3); i > 0; --i) { v.push_back(r.in(-100, 100)); p.push_back(r.in(0, n - 1)); x[p.back()] += v.back(); }
        k = pick(r, n, 20); at = pick(r, n, 60); q = real(f, x); Ev("Impulses").i("n", n).a("v", v).a("p", p).a("k", k).a("ro", sc(sub(q.re, k), 10000)).a("io", sc(sub(q.im, k), 10000)).end();
        re.resize(n); for (int i = 0; i < n; ++i) re[i] = r.unit() * 2 - 1; q = real(f, re); RI h = cplx(g, false, re, 0); s = 1e8 / n;
        Ev("Agree").a("x", sc(sub(q.re, at), s)).a("y", sc(sub(h.re, at), s)).end(); Ev("Agree").a("x", sc(sub(q.im, at), s)).a("y", sc(sub(h.im, at), s)).end();
        if (n <= 1024) Ev("Symmetric").a("re", sc(q.re, s)).a("im", sc(q.im, s)).end();
        VD m = mags(f, re), hm(n); for (int i = 0; i < n; ++i) hm[i] = hypot(h.re[i], h.im[i]); Ev("Agree").a("x", sc(sub(m, at), s)).a("y", sc(sub(hm, at), s)).end();
        VD back = realInv(f, n, q.re, q.im); Ev("RoundTrip").a("x", sc(sub(re, at), 1e8)).a("y", sc(sub(back, at), 1e8)).end();
        int fr = r.chance(1, 4) ? r.of(VI{0, n / 2}) : r.in(0, n / 2); for (int i = 0; i < n; ++i) x[i] = cos(2 * M_PI * double((long long)fr * i % n) / n);
        q = real(f, x); VI bins, mg; for (int i = 0; i < n; ++i) { double t = hypot(q.re[i], q.im[i]) / n; if (!(t < 1e-9)) { bins.push_back(i); mg.push_back(scaled(2 * t, 1000000)); } }
        Ev("Tone").i("n", n).i("f", fr).a("bins", bins).a("mags", mg).end();
        int dn = r.in(15, 300); DCT d(dn); VD y(dn); for (int i = 0; i < dn; ++i) y[i] = r.unit() * 2 - 1; at = pick(r, dn, 60);
        VD t = dct(d, "fwd", y), u = dct(d, "ufwd", y), ti = dct(d, "inv", t), ui = dct(d, "uinv", u); Ev("RoundTrip").a("x", sc(sub(y, at), 1e8)).a("y", sc(sub(ti, at), 1e8)).end(); Ev("RoundTrip").a("x", sc(sub(y, at), 1e8)).a("y", sc(sub(ui, at), 1e8)).end();
        VD cu = u; for (int i = 0; i < dn; ++i) cu[i] *= sqrt(2.0 * dn) * (i == 0 ? sqrt(2.0) : 1); Ev("Agree").a("x", sc(sub(t, at), 1e6)).a("y", sc(sub(cu, at), 1e6)).end();
        { VI p1{r.in(0, dn - 1)}; VD e(dn); e[p1[0]] = 50; VD o = dct(d, "fwd", e); VI ks = pick(r, dn, 12), kk, z; for (int i : ks) { kk.push_back(i); } VD oo = sub(o, ks); // 100 cos(pi k (2p+1) / 2n): an impulse of a transform of 4n at 2p+1
          VD zz(kk.size()); for (size_t i = 0; i < kk.size(); ++i) zz[i] = -100 * sin(2 * M_PI * double((long long)kk[i] * (2 * p1[0] + 1) % (4 * dn)) / (4 * dn));
          Ev("Impulses").i("n", 4 * dn).a("v", VI{100}).a("p", VI{2 * p1[0] + 1}).a("k", kk).a("ro", sc(oo, 10000)).a("io", sc(zz, 10000)).end(); }
    }
}
// the same arguments again and again, on used and on fresh objects, others in between
static void history(Rng &r, int A) {
    struct O { std::unique_ptr<FFT> c; std::unique_ptr<FFTReal> f; std::unique_ptr<DCT> d; int kind, n; }; int no = 4; std::vector<O> os(no); int n0 = r.chance(1, 2) ? r.in(1, 12) * 2 : r.of(VI{64, 100, 31 * 2, 512});
    int kind0 = r.in(0, 2);
    auto make = [&](int k) { O &o = os[k]; o.c.reset(); o.f.reset(); o.d.reset(); o.kind = k < 2 ? kind0 : r.in(0, 2); o.n = k < 3 ? n0 : n0 + 2;
        if (o.kind == 0) o.c.reset(new FFT(o.n)); else if (o.kind == 1) o.f.reset(new FFTReal(o.n)); else o.d.reset(new DCT(o.n));
        Ev("New").i("o", k).s("kind", o.kind == 0 ? "complex" : o.kind == 1 ? "real" : "dct").i("n", o.n).end(); };
    for (int k = 0; k < no; ++k) make(k);
    std::vector<VD> re, im; for (int i = 0; i < 3; ++i) { re.push_back(VD(n0 + 2)); im.push_back(VD(n0 + 2)); double sc1 = i == 2 ? 1000 : 1; for (int j = 0; j < n0 + 2; ++j) { re[i][j] = sc1 * (r.unit() * 2 - 1); im[i][j] = sc1 * (r.unit() * 2 - 1); } }
    for (int a = 0; a < A; ++a) {
        int k = r.in(0, no - 1), arg = r.in(0, 2), n = os[k].n; O &o = os[k]; if (r.chance(1, 8)) { Ev("Gone").i("o", k).end(); make(k); continue; }
        VD x(re[arg].begin(), re[arg].begin() + n), y(im[arg].begin(), im[arg].begin() + n), res; std::string op;
        if (o.c) { bool inv = r.chance(1, 2), nul = r.chance(1, 2); op = std::string(inv ? "inv" : "fwd") + (nul ? "0" : ""); RI q = cplx(*o.c, inv, x, nul ? 0 : &y); res = q.re; res.insert(res.end(), q.im.begin(), q.im.end()); }
        else if (o.f) { int w = r.in(0, 2); op = w == 0 ? "fwd" : w == 1 ? "mag" : "inv"; if (w == 0) { RI q = real(*o.f, x); res = q.re; res.insert(res.end(), q.im.begin(), q.im.end()); } else if (w == 1) res = mags(*o.f, x); else { y[0] = 0; y[n / 2] = 0; res = realInv(*o.f, n, x, y); } }
        else { static const std::vector<std::string> ops{"fwd", "inv", "ufwd", "uinv"}; op = r.of(ops); res = dct(*o.d, op, x); }
        VI at = pick(r, int(res.size()), 4); VD part; size_t st = res.size() > 60 ? res.size() / 53 : 1; for (size_t i = 0; i < res.size(); i += st) part.push_back(res[i]);
        Ev("Result").i("o", k).s("op", op).i("arg", arg).a("res", sc(part, 1e8 / (arg == 2 ? 1000.0 * n : 10.0 * n))).end();
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(96, 2400);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 770011 + q); Ev("Scenario").i("n", s.n).end();
        switch ((q / 8) % 3) { case 0: small(r, A.pick(24, 40)); break; case 1: large(r, A.pick(2, 3)); break; default: history(r, A.pick(40, 80)); }
    }
    return 0;
}
