#include "trace.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;
static const char *names[] = {"rectangular", "bartlett", "hamming", "hanning", "blackman", "blackman-harris"};
template <class T> static VI image(const std::vector<T> &v) { VI r; for (T x : v) r.push_back(scaled(double(x), 1e6)); return r; }
template <class T, class W> static void cut(const W &w, int k, int n, Rng &r) {
    std::unique_ptr<T[]> s(new T[n]), d(new T[n]); VI si; for (int i = 0; i < n; ++i) { int v = r.in(-100, 100); si.push_back(v); s[i] = T(v); d[i] = T(12345); }
    VI out; if (r.chance(1, 2)) { w.cut(s.get()); for (int i = 0; i < n; ++i) out.push_back(scaled(s[i], 1000)); }
    else { w.cut((const T *)s.get(), d.get()); for (int i = 0; i < n; ++i) { out.push_back(scaled(d[i], 1000)); if (s[i] != T(si[i])) Ev("InputModified").end(); } }
    Ev("Cut").i("o", k).a("src", si).a("dst", out).end();
}
template <class T> static void shapes(Rng &r, int A) {
    typedef Window<T> W; std::vector<std::unique_ptr<W>> os(3);
    auto look = [&](int k) { VI im = image(os[k]->getWindowData()); Ev("Look").i("o", k).i("size", os[k]->getSize()).s("type", names[os[k]->getType()]).a("w", im).end(); };
    auto make = [&](int k) { int t = r.in(0, 5), n = r.chance(1, 3) ? r.in(1, 5) : r.chance(1, 6) ? r.of(VI{512, 500, 255, 400}) : r.in(1, 96);
        os[k].reset(new W(WindowType(t), n)); Ev("New").i("o", k).s("kind", "shape").s("type", names[t]).i("n", n).i("size", os[k]->getSize()).a("w", image(os[k]->getWindowData())).end(); };
    for (int k = 0; k < 3; ++k) make(k);
    for (int a = 0; a < A; ++a) {
        int k = r.in(0, 2), j = r.in(0, 2);
        switch (r.in(0, 5)) {
        case 0: Ev("Gone").i("o", k).end(); os[k].reset(); make(k); break;
        case 1: if (j != k) { os[k].reset(new W(*os[j])); Ev("Copy").i("o", k).i("from", j).end(); } break;
        case 2: *os[k] = *os[j]; Ev("Assign").i("o", k).i("from", j).end(); look(k); look(j); break;
        case 3: look(k); break;
        default: cut<T>(*os[k], k, os[k]->getSize(), r);
        }
    }
}
// large ones, at some places
static VI places(Rng &r, int n) { VI p{0, n - 1, n / 2, n / 2 - 1, 1}; for (int i = 0; i < 16; ++i) { int k = r.in(1, n - 1); p.push_back(k); p.push_back(n - k); if (n - 1 - k >= 0) p.push_back(n - 1 - k); } return p; }
template <class V> static VI pick(const V &v, const VI &at) { VI o; for (int i : at) o.push_back(scaled(double(v[i]), 1e6)); return o; }
template <class W> static VI cutAt(const W &w, int n, const VI &at) { std::unique_ptr<double[]> x(new double[n]); for (int i = 0; i < n; ++i) x[i] = 1; w.cut(x.get()); return pick(x, at); }
static void large(Rng &r, int A) {
    for (int a = 0; a < A; ++a) {
        int n = r.of(VI{1024, 4096, 5000, 8191, 16384, 30001, 32768, 12345}), t = r.in(0, 5); VI at = places(r, n);
        { Window<double> w(WindowType(t), n); if (r.chance(1, 2)) { Window<double> z(WindowType(r.in(0, 5)), r.of(VI{7, n, 100})); z = w; w = z; } Ev("Large").s("kind", "shape").s("type", names[t]).i("n", w.getSize()).a("at", at).a("w", pick(w.getWindowData(), at)).a("cut", cutAt(w, n, at)).end(); }
        { KaiserWindow::Parameters p; p.length = n; int b = r.in(0, 19000); p.beta = b / 1000.0; KaiserWindow w(p); Ev("Large").s("kind", "kaiser").s("type", "kaiser").i("n", w.getLength()).i("beta", b).a("at", at).a("w", pick(w.getWindow(), at)).a("cut", cutAt(w, n, at)).end(); }
        { int p2 = r.in(1, 5000); SincWindow w(n, p2 / 2.0); Ev("Large").s("kind", "sinc").s("type", "sinc").i("n", w.getLength()).i("p", p2).a("at", at).a("w", pick(w.getWindow(), at)).a("cut", cutAt(w, n, at)).end(); }
    }
}
static void kaiser(Rng &r, int A) {
    for (int a = 0; a < A; ++a) {
        int att = r.chance(1, 3) ? r.in(500, 2300) : r.chance(1, 4) ? r.of(VI{2100, 2101, 5000, 5001, 4999, 10000, 6000}) : r.in(2100, 10000);
        if (r.chance(1, 2)) {
            int tr = r.chance(1, 2) ? r.in(100, 2000) : r.of(VI{1000, 500, 250, 579, 193, 1930}); KaiserWindow::Parameters p = KaiserWindow::parametersForTransitionWidth(att / 100.0, tr / 1000.0);
            KaiserWindow w = KaiserWindow::byTransitionWidth(att / 100.0, tr / 1000.0); Ev("Params").i("att", att).i("tr", tr).i("len", p.length).i("beta", scaled(p.beta, 1000)).i("got", w.getLength()).end();
        } else {
            int R = r.in(2, 60); double rate = r.of(VD{44100, 8000, 1, 96000}); KaiserWindow::Parameters p = KaiserWindow::parametersForBandwidth(att / 100.0, rate / R, rate);
            KaiserWindow w = KaiserWindow::byBandwidth(att / 100.0, rate / R, rate); Ev("ParamsBand").i("att", att).i("ratio", R).i("len", p.length).i("beta", scaled(p.beta, 1000)).i("got", w.getLength()).end();
        }
        KaiserWindow::Parameters p; p.length = r.chance(1, 3) ? r.in(1, 6) : r.in(1, 60); int b = r.chance(1, 5) ? r.in(10001, 19000) : r.in(0, 10000); p.beta = b / 1000.0; KaiserWindow w(p);
        VD v(w.getWindow(), w.getWindow() + p.length); Ev("New").i("o", 0).s("kind", "kaiser").s("type", "kaiser").i("n", p.length).i("size", w.getLength()).i("beta", b).a("w", image(v)).end(); cut<double>(w, 0, p.length, r);
        KaiserWindow c(w); Ev("Copy").i("o", 1).i("from", 0).end(); cut<double>(c, 1, p.length, r);
        int n = r.chance(1, 3) ? r.in(0, 5) : r.in(0, 80), p2 = r.chance(1, 3) ? r.in(1, 60) : 2 * r.in(1, 40); SincWindow s(n, p2 / 2.0); VD sv; if (n > 0) sv.assign(s.getWindow(), s.getWindow() + n);
        Ev("New").i("o", 2).s("kind", "sinc").s("type", "sinc").i("n", n).i("size", s.getLength()).i("p", p2).a("w", image(sv)).end(); cut<double>(s, 2, n, r);
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(96, 3200);
    for (int q = 0; q < n; ++q) { if (!s.begin()) continue; Rng r(A.seed * 550011 + q); Ev("Scenario").i("n", s.n).end(); int k = (q / 8) % 3; if (k == 0) shapes<double>(r, A.pick(30, 60)); else if (k == 1) shapes<float>(r, A.pick(20, 40)); else if (q % 8 == 3) large(r, A.pick(8, 16)); else kaiser(r, A.pick(8, 16)); }
    return 0;
}
