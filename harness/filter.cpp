#include "trace.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include <memory>
#include <stdexcept>
typedef std::vector<int> VI; typedef std::vector<double> VD;
static VD dv(const VI &v) { return VD(v.begin(), v.end()); }
static Filter::Parameters par(const VI &a, const VI &b) { Filter::Parameters p; p.a = dv(a); p.b = dv(b); return p; }

// exactly sized heap buffers, so that any access outside is a fault
struct Buf { double *p; int n; explicit Buf(int nn) : p(new double[nn]), n(nn) {} ~Buf() { delete[] p; } Buf(const Buf &) = delete; };

static VI iirs(int order, int k) { // denominators with bounded or slowly growing integer responses
    VI a(order + 1, 0); a[0] = 1;
    if (order == 0) return a;
    switch (k % 6) {
    case 0: break;
    case 1: a[order] = 1; break;
    case 2: a[order] = -1; break;
    case 3: a[1] = 1; break;
    case 4: a[(order + 1) / 2] = -1; break;
    case 5: if (order >= 2) { a[1] = -1; a[2] = 1; } else a[1] = 1; break;
    }
    return a;
}

static double unitOf(Rng &r) { return r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(std::vector<int>{-900, -300, -100, -60, -30, -10, 10, 60, 300})); }
struct Obj { std::unique_ptr<Filter> f; double unit = 1; };

// values are given in units of a power of two, so that the arithmetic stays exact at every level
static void process(Filter &f, int k, const VI &in, bool &big, double unit = 1) {
    int n = (int)in.size();
    Buf src(n), dst(n);
    for (int i = 0; i < n; ++i) src.p[i] = in[i] * unit;
    f.process(src.p, dst.p, n);
    for (int i = 0; i < n; ++i) dst.p[i] /= unit;
    VI out = exactV(dst.p, n);
    for (int v : out) if (std::abs(v) > 4000000) big = true;
    for (int i = 0; i < n; ++i) if (src.p[i] != in[i] * unit) { Ev("InputModified").end(); }
    Ev("Process").i("k", k).a("in", in).a("out", out).end();
}

int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    if (A.mode == "filter") {
        // refusals
        if (sc.begin()) {
            Ev("Scenario").i("n", sc.n).end();
            VI as[] = {{}, {1}, {1, 2}, {1}, {1, 0, 0}}, bs[] = {{}, {}, {1}, {1, 2}, {1, 1}};
            for (int i = 0; i < 5; ++i) {
                try { Filter f(par(as[i], bs[i])); Ev("Accepted").a("a", as[i]).a("b", bs[i]).end(); }
                catch (std::logic_error &) { Ev("Refused").a("a", as[i]).a("b", bs[i]).end(); }
            }
        }
        int nsc = A.pick(160, 1600);
        for (int s = 0; s < nsc; ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 101 + s);
            Ev("Scenario").i("n", sc.n).end();
            int nobj = s % 4 == 0 ? 2 : 1;
            std::vector<Obj> o(nobj); std::vector<bool> big(nobj, false);
            for (int k = 0; k < nobj; ++k) {
                int order = s < 40 ? s % 8 : r.in(0, s % 3 == 0 ? 30 : 6);
                VI b(order + 1);
                for (int &x : b) x = r.in(-3, 3);
                b[order] = r.in(1, 3);
                if (r.chance(1, 3)) b[0] = r.in(1, 2);
                VI a = (s / 2 + k) % 2 == 0 ? VI() : iirs(order, s / 4);
                o[k].f.reset(new Filter(par(a, b))); o[k].unit = unitOf(r);
                Ev("New").i("k", k).a("a", a).a("b", b).i("order", o[k].f->getOrder()).end();
            }
            int calls = r.in(3, 14);
            for (int c = 0; c < calls; ++c) {
                int k = r.in(0, nobj - 1);
                if (big[k] || r.chance(1, 9)) { o[k].f->reset(); big[k] = false; Ev("Reset").i("k", k).end(); continue; }
                int style = r.in(0, 5), n = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? r.in(2, 5) : style == 3 ? r.in(19, 23) : style == 4 ? r.in(40, 44) : r.in(5, 90);
                VI in(n);
                int kind = r.in(0, 2);
                for (int i = 0; i < n; ++i) in[i] = kind == 0 ? r.in(-9, 9) : kind == 1 ? (i == 0 ? r.in(1, 5) : 0) : r.in(0, 1);
                bool bg = false;
                process(*o[k].f, k, in, bg, o[k].unit);
                if (bg) big[k] = true;
            }
        }
        // sample by sample over a long run
        for (int s = 0; s < 8; ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 103 + s);
            Ev("Scenario").i("n", sc.n).end();
            VI b = {1, r.in(-2, 2), r.in(-2, 2), 1}, a = s % 2 ? VI{1, 0, 0, 1} : VI();
            b.resize(1 + s / 2); if (!a.empty()) { a.resize(1 + s / 2); if (a.size() == 1) a[0] = 1; }
            Filter f(par(a, b));
            Ev("New").i("k", 0).a("a", a).a("b", b).i("order", f.getOrder()).end();
            bool big = false;
            for (int i = 0; i < 150; ++i) { process(f, 0, VI(1, r.in(-5, 5)), big); if (big) { f.reset(); Ev("Reset").i("k", 0).end(); big = false; } }
        }
        // long filters
        for (int s = 0; s < A.pick(16, 80); ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 127 + s);
            Ev("Scenario").i("n", sc.n).end();
            int order = s % 4 == 3 ? r.in(100, 300) : r.in(22, 100);
            VI b(order + 1); for (int &x : b) x = r.in(-3, 3); b[order] = r.in(1, 3);
            VI a = s % 2 ? VI() : iirs(order, r.in(0, 2));
            Filter f(par(a, b)); double u = unitOf(r); bool big = false;
            Ev("New").i("k", 0).a("a", a).a("b", b).i("order", f.getOrder()).end();
            for (int c = 0; c < 4; ++c) {
                VI in(c == 0 ? r.in(1, 30) : r.in(1, order + 60)); for (int &x : in) x = r.in(-4, 4);
                process(f, 0, in, big, u);
                if (big || c == 2) { f.reset(); Ev("Reset").i("k", 0).end(); big = false; }
            }
        }
        // long streams (the numerator holds the denominator, so that the output stays bounded)
        for (int s = 0; s < A.pick(8, 24); ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 131 + s);
            Ev("Scenario").i("n", sc.n).end();
            VI a = s % 2 ? VI() : s % 4 == 0 ? VI{1, 0, -1, 0} : VI{1, -1, 0, 0}, b;
            int g = r.in(-2, 2);
            if (s % 2) b = VI{1, g, 2, r.in(-1, 1)}; else if (s % 4 == 0) b = VI{1, g, -1, -g}; else b = VI{1, g - 1, -g, 0};
            Filter f(par(a, b)); bool big = false; double u = unitOf(r);
            Ev("New").i("k", 0).a("a", a).a("b", b).i("order", f.getOrder()).end();
            int left = A.pick(6000, 60000);
            while (left > 0) { int n = std::min(left, s % 3 == 0 ? r.in(1500, 3000) : r.in(1, 900)); left -= n; VI in(n); for (int &x : in) x = r.in(-5, 5); process(f, 0, in, big, u); }
        }
        // real-valued coefficients: every chunking and every reset repeats the first pass
        int nre = A.pick(32, 300);
        for (int s = 0; s < nre; ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 107 + s);
            Ev("Scenario").i("n", sc.n).end();
            int order = r.in(0, 12), n = r.in(60, 400);
            Filter::Parameters p;
            for (int i = 0; i <= order; ++i) { p.b.push_back(r.unit() * 2 - 1); if (s % 2) p.a.push_back(i == 0 ? 1 : (r.unit() - 0.5) / order); }
            VD x(n); for (double &v : x) v = r.unit() * 2 - 1;
            Intern in;
            Filter f(p);
            VD y(n);
            f.process(x.data(), y.data(), n);
            VI id(n); for (int i = 0; i < n; ++i) id[i] = in.id(y[i]);
            Ev("Ref").a("out", id).end();
            for (int pass = 0; pass < 4; ++pass) {
                std::unique_ptr<Filter> g(pass % 2 ? new Filter(p) : nullptr);
                Filter &h = g ? *g : f;
                if (!g) { if (pass == 2) { VD junk(r.in(1, 50), 1e3), jo(junk.size()); h.process(junk.data(), jo.data(), (int)junk.size()); } h.reset(); }
                int from = 0;
                while (from < n) {
                    int m = pass == 1 ? 1 : r.in(0, 70); if (m > n - from) m = n - from;
                    Buf in1(m), out1(m);
                    for (int i = 0; i < m; ++i) in1.p[i] = x[from + i];
                    h.process(in1.p, out1.p, m);
                    VI o(m); for (int i = 0; i < m; ++i) o[i] = in.id(out1.p[i]);
                    Ev("Again").i("from", from).a("out", o).end();
                    from += m;
                }
            }
        }
    } else if (A.mode == "filtfilt") {
        int nsc = A.pick(160, 1600);
        for (int s = 0; s < nsc; ++s) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 109 + s);
            Ev("Scenario").i("n", sc.n).end();
            int order = s % 6; if (s % 17 == 0) order = r.in(6, 9); if (s % 13 == 0) order = r.in(10, 70);
            double unit = unitOf(r);
            VI b(order + 1); for (int &x : b) x = r.in(-2, 2); b[0] = 1; if (order) b[order] = r.in(1, 2);
            VI a = s % 2 ? VI() : iirs(order, order > 9 ? r.in(0, 2) : s / 6);
            bool grows = !a.empty();
            FiltFilt ff(par(a, b));
            Ev("NewFF").i("k", 0).a("a", a).a("b", b).end();
            std::unique_ptr<FiltFilt> f2;
            for (int c = 0; c < 6; ++c) {
                int n = c == 0 ? r.in(1, 3) : r.chance(1, 2) ? r.in(0, 3 * order + 2) : order > 9 ? r.in(1, 5 * order) : r.chance(1, 20) ? r.in(500, 1500) : r.in(1, grows ? 40 : 120);
                if (r.chance(1, 12)) n = 0;
                VI in(n); for (int &x : in) x = r.in(-6, 6);
                if (r.chance(1, 5)) for (int &x : in) x = 3;
                Buf src(n), dst(n);
                for (int i = 0; i < n; ++i) src.p[i] = in[i] * unit;
                ff.process(src.p, dst.p, n);
                bool mod = false; for (int i = 0; i < n; ++i) if (src.p[i] != in[i] * unit) mod = true;
                for (int i = 0; i < n; ++i) dst.p[i] /= unit;
                if (mod) Ev("InputModified").end();
                VI out = exactV(dst.p, n);
                bool tooBig = false; for (int v : out) if (std::abs(v) > 8000000) tooBig = true;
                if (tooBig) break;
                Ev("FiltFilt").i("k", 0).a("in", in).a("out", out).end();
            }
        }
        int nre = A.pick(32, 200);
        for (int s = 0; s < nre; ++s) { // real-valued: repeatable on the same object and on others, whatever came before
            if (!sc.begin()) continue;
            Rng r(A.seed * 113 + s);
            Ev("Scenario").i("n", sc.n).end();
            int order = r.in(0, 6), n = r.in(1, 200);
            Filter::Parameters p;
            for (int i = 0; i <= order; ++i) { p.b.push_back(r.unit() * 2 - 1); if (s % 2) p.a.push_back(i == 0 ? 1 : (r.unit() - 0.5) / order); }
            VD x(n); for (double &v : x) v = r.unit() * 2 - 1;
            Intern in; FiltFilt f(p); VD y(n);
            auto ids = [&](const double *q) { VI id(n); for (int i = 0; i < n; ++i) id[i] = in.id(q[i]); return id; };
            f.process(x.data(), y.data(), n);
            Ev("Ref").a("out", ids(y.data())).end();
            for (int pass = 0; pass < 4; ++pass) {
                if (pass) { int m = r.in(0, 60); VD junk(m, 100.0 * pass), o(m); f.process(junk.data(), o.data(), m); }
                Buf src(n), dst(n); for (int i = 0; i < n; ++i) src.p[i] = x[i];
                if (pass == 3) { FiltFilt g(p); g.process(src.p, dst.p, n); } else f.process(src.p, dst.p, n);
                Ev("Again").i("from", 0).a("out", ids(dst.p)).end();
            }
        }
    } else return 3;
    fclose(Out::file());
    return 0;
}
