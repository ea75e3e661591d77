#include "trace.h"
#include "maths/MedianFilter.h"
#include <limits>
#include <memory>
typedef std::vector<int> VI;
static const int INF = 2000000002;
static double Unit = 1; // a power of two
template <class T> T val(int v) { return v == INF ? std::numeric_limits<T>::infinity() : v == -INF ? -std::numeric_limits<T>::infinity() : T(v * Unit); }
template <> int val<int>(int v) { return v; }
template <class T> int img(T x) { double d = x / Unit; if (std::isinf(d)) return d > 0 ? INF : -INF; return exactInt(d); }
template <class T> void scenario(Rng &r, bool flt) {
    Unit = !flt || r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(VI{-100, -60, -30, -10, 10, 60}));
    int no = r.in(1, 2); bool wide = r.chance(1, 12); std::vector<std::unique_ptr<MedianFilter<T>>> f;
    for (int k = 0; k < no; ++k) {
        int size = wide ? r.in(50, 300) : r.chance(1, 6) ? r.in(20, 41) : r.in(1, 12), p4 = r.chance(1, 2) ? 200 : r.chance(1, 4) ? r.in(-40, 480) : r.in(0, 400);
        if (p4 == 200 && r.chance(1, 2)) f.emplace_back(new MedianFilter<T>(size)); else f.emplace_back(new MedianFilter<T>(size, p4 / 4.f));
        Ev("New").i("k", k).i("size", size).i("p", p4).i("got", f[k]->getSize()).end();
    }
    int range = r.in(0, 3) == 0 ? r.of(VI{1000, 15000000, flt ? 16000000 : 1000000000}) : wide ? 300 : r.in(0, 4), steps = wide ? r.in(200, 500) : r.in(10, 120);
    for (int c = 0; c < steps; ++c) {
        int k = r.in(0, no - 1), w = r.in(0, 39);
        if (w == 0) { f[k]->reset(); Ev("Reset").i("k", k).end(); }
        else if (w == 1) { int p4 = r.in(0, 400); f[k]->setPercentile(p4 / 4.f); Ev("SetPercentile").i("k", k).i("p", p4).end(); }
        else if (w < 5) { int p4 = r.in(-20, 440); Ev("GetAt").i("k", k).i("p", p4).i("v", img(f[k]->getAt(p4 / 4.f))).end(); }
        else if (w == 5 && flt) { f[k]->push(std::numeric_limits<T>::quiet_NaN()); Ev("PushNaN").i("k", k).end(); }
        else { int v = r.in(-range, range); if (flt && w == 6) v = r.chance(1, 2) ? INF : -INF;
            f[k]->push(val<T>(v)); Ev("Push").i("k", k).i("v", v).end(); }
        Ev("Get").i("k", k).i("v", img(f[k]->get())).end();
    }
    for (int c = 0; c < 4; ++c) {
        int size = r.in(1, 14), n = r.in(0, 30); if (r.chance(1, 3)) n = r.in(0, size);
        if (wide) { size = r.in(40, 300); n = r.in(1, 400); }
        VI in(n); std::vector<T> x(n);
        for (int i = 0; i < n; ++i) { in[i] = r.in(-range, range); x[i] = val<T>(in[i]); if (flt && r.chance(1, 30)) { x[i] = std::numeric_limits<T>::quiet_NaN(); in[i] = 0; } }
        std::vector<T> y = MedianFilter<T>::filter(size, x); VI out; for (T v : y) out.push_back(img(v));
        Ev("Static").i("size", size).a("in", in).a("out", out).end();
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc; int nsc = A.pick(240, 2400);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 503 + q);
        Ev("Scenario").i("n", sc.n).end();
        if (q % 3 == 0) scenario<int>(r, false); else if (q % 3 == 1) scenario<float>(r, true); else scenario<double>(r, true);
    }
    fclose(Out::file());
    return 0;
}
