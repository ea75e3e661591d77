#include "trace.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/onsets/PeakPicking.h"
#include <algorithm>
#include <memory>
#include <set>
typedef std::vector<int> VI; typedef std::vector<double> VD;
struct Buf { double *p; int n; explicit Buf(int nn) : p(new double[nn]), n(nn) { for (int i = 0; i < nn; ++i) p[i] = 777777; } ~Buf() { delete[] p; } Buf(const Buf &) = delete; };
struct Set { VI a, b; int n, pre, post, alpha; bool pos; float delta; double qa, qc, unit; };
static double normOf(const VI &x, int alpha) { double s = 0; for (int v : x) s += pow(fabs((double)v), alpha); return pow(s / x.size(), 1.0 / alpha); }
static VI input(Rng &r, int n) {
    VI x(n); int kind = r.in(0, 5);
    for (int i = 0; i < n; ++i) switch (kind) {
        case 0: x[i] = r.in(0, 9); break;
        case 1: x[i] = r.in(-5, 9); break;
        case 2: x[i] = r.chance(1, 5) ? r.in(1, 20) : 0; break;
        case 3: x[i] = 3 + (i % 7 == 3 ? 9 : 0); break;
        case 4: x[i] = i; break;
        case 5: x[i] = r.in(0, 1); break;
    }
    bool any = false; for (int v : x) any |= v != 0;
    if (!any && n) x[r.in(0, n - 1)] = 5;
    return x;
}
// the most the filter, run forwards and backwards over n samples, can amplify
static double gain(const VI &b, const VI &a, int n) {
    VD h(n, 0); double g = 0;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < (int)b.size(); ++j) { if (i == j) h[i] += b[j]; if (j && i >= j) h[i] -= a[j] * h[i - j]; }
        g += fabs(h[i]);
    }
    return g * g;
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc; bool pick = A.mode == "pick";
    int nsc = A.pick(pick ? 320 : 400, 4000);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * (pick ? 607 : 601) + q);
        Ev("Scenario").i("n", sc.n).end();
        int no = r.in(1, 2); std::vector<std::unique_ptr<DFProcess>> d(no); std::vector<std::unique_ptr<PeakPicking>> pk(no); std::vector<Set> st(no);
        for (int k = 0; k < no; ++k) {
            Set &s = st[k];
            int ord = r.in(0, 3); if (r.chance(1, 3)) ord = 0;
            s.b = VI(ord + 1); for (int &v : s.b) v = r.in(0, 2); s.b[0] = 1;
            s.a = VI(ord + 1, 0); s.a[0] = 1; if (ord && r.chance(1, 3)) s.a[r.in(1, ord)] = r.chance(1, 2) ? 1 : -1;
            s.pre = r.in(0, 9); s.post = r.in(0, 9); if (r.chance(1, 4)) { s.pre = 8; s.post = 7; }
            s.n = r.chance(1, 2) ? r.in(1, s.pre + s.post + 3) : r.in(1, 60);
            s.unit = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(VI{-60, -40, -30, -20, -10, 10, 30, 60}));
            if (q % 25 == 7) { s.pre = r.in(10, 90); s.post = r.in(10, 90); s.n = r.in(2, s.pre + s.post + 20); }
            if (gain(s.b, s.a, s.n + 6 * ord + 6) * 3 * std::max(60, s.n) * 2000 > 2.5e8) s.a.assign(ord + 1, 0), s.a[0] = 1;     // results the specification's arithmetic could not hold
            s.alpha = r.chance(1, 2) ? 1 : r.of(VI{2, 3, 9}); s.pos = pick ? false : r.chance(1, 2); s.delta = r.chance(1, 2) ? 0 : r.in(-4, 8) / 8.0f;
            s.qa = r.of(VD{0, 0.1, 0.3, 0.7}); s.qc = r.of(VD{0.2, 0.5, 1.5, 100});
            VD ca(s.a.begin(), s.a.end()), cb(s.b.begin(), s.b.end());
            if (pick) {
                PPickParams p; p.length = s.n; p.tau = 0.01; p.alpha = s.alpha; p.cutoff = 0.4; p.LPOrd = ord; p.LPACoeffs = ca.data(); p.LPBCoeffs = cb.data();
                p.WinT = PPWinThresh(s.pre, s.post); p.QuadThresh = QFitThresh(s.qa, 0, s.qc); p.delta = s.delta;
                pk[k].reset(new PeakPicking(p));
            } else {
                DFProcConfig c; c.length = s.n; c.LPOrd = ord; c.LPACoeffs = ca.data(); c.LPBCoeffs = cb.data(); c.winPre = s.pre; c.winPost = s.post;
                c.AlphaNormParam = s.alpha; c.isMedianPositive = s.pos; c.delta = s.delta;
                d[k].reset(new DFProcess(c));
            }
            Ev("New").i("k", k).a("a", s.a).a("b", s.b).i("pre", s.pre).i("post", s.post).b1("positive", s.pos).i("alpha", s.alpha).end();
        }
        VI list;
        for (int c = 0; c < 5; ++c) {
            int k = r.in(0, no - 1); Set &s = st[k];
            VI x = input(r, s.n); double norm = normOf(x, s.alpha);
            Buf src(s.n), dst(s.n); for (int i = 0; i < s.n; ++i) src.p[i] = x[i] * s.unit;
            if (!pick) {
                d[k]->process(src.p, dst.p);
                for (int i = 0; i < s.n; ++i) if (src.p[i] != x[i] * s.unit) { Ev("InputModified").end(); break; }
                Ev("Process").i("k", k).a("in", x).i("norm", scaled(norm, 1000)).i("thr", scaled(s.delta * norm, 2000)).a("out", scaledV(dst.p, s.n, 2000 * norm)).end();
            } else {
                if (r.chance(1, 2)) list.clear();
                VI before = list;
                pk[k]->process(src.p, s.n, list);
                if (s.n < 4) { for (int i = 0; i < s.n; ++i) src.p[i] /= s.unit; Ev("PickShort").i("k", k).a("in", x).a("out", exactV(src.p, s.n)).a("before", before).a("after", list).end(); continue; }
                std::set<double> vs(src.p, src.p + s.n); vs.insert(0.0);
                VD sv(vs.begin(), vs.end()); auto rank = [&](double v) { return int(std::lower_bound(sv.begin(), sv.end(), v) - sv.begin()); };
                VI ranks(s.n); for (int i = 0; i < s.n; ++i) ranks[i] = rank(src.p[i]);
                Ev("Pick").i("k", k).a("in", x).i("norm", scaled(norm, 1000)).i("thr", scaled(s.delta * norm, 2000)).a("out", scaledV(src.p, s.n, 2000 * norm))
                    .a("ranks", ranks).i("zero", rank(0.0)).a("before", before).a("after", list).i("qa", scaled(s.qa * norm, 2000)).i("qc", scaled(s.qc * norm, 2000)).end();
            }
        }
    }
    fclose(Out::file());
    return 0;
}
