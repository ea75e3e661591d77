#include "trace.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;

// ---- per-step scores, from their definition (the specification judges the path through them)
static void threshold(VD &d) {
    VD m(d.size()); int n = int(d.size());
    for (int i = 0; i < n; ++i) { int a = std::max(0, i - 8), b = std::min(n - 1, i + 7); double s = 0; for (int k = a; k <= b; ++k) s += d[k]; m[i] = s / (b - a + 1); }
    for (int i = 0; i < n; ++i) d[i] = std::max(0.0, d[i] - m[i]);
}
static VD weights(double tempo, bool constrain) {
    double p = 5167 / tempo; VD w(128);
    for (int i = 0; i < 128; ++i) w[i] = constrain ? exp(-(i - p) * (i - p) / (2 * (p / 4) * (p / 4))) : i / (p * p) * exp(-double(i) * i / (2 * p * p));
    return w;
}
static VD scores(VD f, const VD &w) {
    const double EPS = 0.0000008;
    threshold(f);
    VD acf(512), c(128);
    for (int l = 0; l < 512; ++l) { double s = 0; for (int n = 0; n + l < 512; ++n) s += f[n] * f[n + l]; acf[l] = s / (512 - l); }
    for (int k = 1; k <= 126; ++k) for (int a = 1; a <= 4; ++a) for (int b = 1 - a; b <= a - 1; ++b) c[k] += acf[a * (k + 1) + b - 1] * w[k] / (2.0 * a - 1);
    threshold(c);
    double s = 0; for (double &v : c) { v += EPS; s += v; }
    for (double &v : c) v /= s + EPS;
    return c;
}
static int lg(double x) { return x > 0 ? scaled(std::max(-1000.0, log(x)), 10000) : -10000000; }
static double frac(Rng &r) { return r.unit(); }

static VD detection(Rng &r, int n, bool drift) {
    VD d(n); int kind = drift ? 7 : r.in(0, 7); int p1 = r.in(22, 112), p2 = r.in(22, 112), off = r.in(0, 20); double sc = r.of(VD{0.001, 0.1, 1, 1, 30, 1000, 1e6});
    int every = r.in(150, 1200); // kind 7: the period drifts
    for (int i = 0; i < n; ++i) {
        int p = kind == 1 && i > n / 2 ? p2 : p1;
        switch (kind) {
            case 0: case 1: d[i] = ((i + off) % p == 0 ? 1 : 0) + 0.05 * frac(r); break;
            case 2: d[i] = frac(r); break;
            case 3: d[i] = 0; break;
            case 4: d[i] = fabs(sin(i * M_PI / p)) + 0.2 * frac(r); break;
            case 5: d[i] = ((i + off) % p1 == 0 ? 1 : 0) + ((i + off / 2) % p2 == 0 ? 0.8 : 0); break;
            case 6: d[i] = 3; break;
            case 7: d[i] = 0.1 * frac(r); break;
        }
        d[i] *= sc;
    }
    if (kind == 7) for (int i = off, p = p1, last = 0; i < n; i += p) { d[i] += sc; if (i - last > every) { last = i; p = std::min(112, std::max(20, p + r.in(-9, 9))); } }
    return d;
}
static void period(Scen &sc, Args &A) {
    int nsc = A.pick(160, 1600);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 701 + q);
        float rate = r.of(std::vector<float>{44100, 48000, 22050, 8000, 11025.5f, 96000, 12345.5f}); int inc = r.of(VI{512, 256, 557, 1024, 64, 2048});
        Ev("Scenario").i("n", sc.n).i("rate2", exactInt(2.0 * rate)).i("inc", inc).end();
        TempoTrackV2 tt(rate, inc);
        for (int c = 0; c < 3; ++c) {
            int n = r.chance(1, 3) ? r.of(VI{0, 1, 127, 512, 513, 639, 640, 641, 642, 768, 769, 896, 897}) : r.in(500, A.pick(1500, 3000));
            if (q % 20 == 11 && c == 0) n = r.in(4000, A.pick(10000, 20000));
            VD d = detection(r, n, n > 3000), keep = d; double tempo = 120; bool con = false, def = r.chance(1, 3);
            if (!def) { tempo = r.of(VD{60, 90, 120, 150, 200, 73.5, 48, 40, 240, 290.5, 215}); con = r.chance(1, 2); }
            auto run = [&](TempoTrackV2 &o, VD &bp, VD &te) { if (def) o.calculateBeatPeriod(d, bp, te); else o.calculateBeatPeriod(d, bp, te, tempo, con); };
            int fill = r.of(VI{0, -7, 50}); VI before; if (r.chance(1, 4)) before = VI{3, 4};
            VD bp(n, fill), te(before.begin(), before.end()), bp2(n, 3), te2;
            run(tt, bp, te);
            TempoTrackV2 other(rate, inc); run(other, bp2, te2);
            if (d != keep) Ev("InputModified").end();
            std::vector<VI> L; VI init;
            VD w = weights(tempo, con);
            for (int i = 0; i + 512 < n; i += 128) {
                VD s = scores(VD(d.begin() + i, d.begin() + i + 512), w);
                VI row; for (int k = 20; k <= 107; ++k) row.push_back(lg(s[k]));
                L.push_back(row);
            }
            for (int k = 20; k <= 107; ++k) init.push_back(lg(w[k]));
            int pre = int(before.size()); VI tempi;
            for (size_t i = 0; i < te.size(); ++i) tempi.push_back(int(i) < pre ? exactInt(te[i]) : scaled(te[i], 100));
            // the same call by another object, whatever its output vectors held
            bool same = L.size() < 2 ? te2.empty() && bp2 == VD(n, 3) : bp2 == bp && VD(te.begin() + pre, te.end()) == te2;
            Ev("Period").i("n", n).i("fill", fill).a("before", before).a("init", init).aa("L", L).a("bp", exactV(bp.data(), n)).a("tempi", tempi).b1("same", same).end();
        }
    }
}
static void beats(Scen &sc, Args &A) {
    int nsc = A.pick(320, 3200);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 709 + q);
        Ev("Scenario").i("n", sc.n).end();
        TempoTrackV2 tt(44100, 512);
        for (int c = 0; c < 3; ++c) {
            int p1 = r.chance(1, 3) ? r.in(1, 6) : r.in(4, 26), p2 = r.chance(1, 2) ? p1 : std::max(1, p1 + r.in(-5, 5));
            int n = r.chance(1, 4) ? r.in(0, 2 * p1 + 2) : r.in(10, A.pick(110, 220));
            if (q % 16 == 5 && c == 0) { n = r.in(1500, 3000); p1 = r.in(3, 9); p2 = std::max(1, p1 + r.in(-2, 2)); }
            else if (q % 16 == 9 && c == 0) { n = r.in(300, 900); p1 = r.in(40, 120); p2 = p1 + r.in(-20, 20); }
            if (r.chance(1, 12)) n = p1 + r.in(-2, 2);
            n = std::max(0, n);
            int sw = r.in(0, n), zero = r.chance(1, 15), longer = r.chance(1, 6) ? r.in(1, 30) : 0;
            VI df(n), bp(n ? n + longer : r.in(0, 3)); int kind = r.in(0, 5), off = r.in(0, 9);
            for (int i = 0; i < n; ++i) switch (kind) {
                case 0: df[i] = r.in(0, 20); break;
                case 1: df[i] = (i + off) % p1 == 0 ? 20 : r.in(0, 3); break;
                case 2: df[i] = r.chance(1, 7) ? r.in(1, 20) : 0; break;
                case 3: df[i] = 0; break;
                case 4: df[i] = (i + off) % (2 * p1) == 0 ? 20 : (i + off) % p1 == 0 ? 14 : r.in(0, 8); break;
                case 5: df[i] = (i + off) % p1 == r.in(0, 1) ? 15 : 1; break;
            }
            for (size_t i = 0; i < bp.size(); ++i) bp[i] = zero ? 0 : int(i) < sw ? p1 : p2;
            int a100 = r.of(VI{90, 90, 50, 0, 80, 97, 99, 100, 10}); double tight = r.of(VD{4, 4, 0, 1, 10, 0.5, 2.5, 100, 5.3}); bool def = r.chance(1, 4);
            if (def) { a100 = 90; tight = 4; }
            VI before; if (r.chance(1, 4)) before = VI{-3, 2};
            double unit = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(VI{-200, -60, -30, -15, 20, 60}));
            VD d(df.begin(), df.end()), b(bp.begin(), bp.end()), out(before.begin(), before.end()), out2, kd = d, kb = b;
            for (double &v : d) v *= unit;
            kd = d; d.shrink_to_fit(); b.shrink_to_fit();
            auto run = [&](TempoTrackV2 &o, VD &res) { if (def) o.calculateBeats(d, b, res); else o.calculateBeats(d, b, res, a100 / 100.0, tight); };
            run(tt, out);
            TempoTrackV2 other(8000, 64); run(other, out2);
            if (d != kd || b != kb) Ev("InputModified").end();
            VI mus{p1}; if (p2 != p1) mus.push_back(p2);
            std::vector<VI> W;   // transition weight of every lag from 1 to twice the period
            for (int mu : mus) { VI row; for (int lag = 1; lag <= 2 * mu; ++lag) { double z = tight * log(double(lag) / mu); row.push_back(scaled(exp(-0.5 * z * z), 10000)); } W.push_back(row); }
            VI got = exactV(out.data(), int(out.size()));
            bool same = VD(out.begin() + before.size(), out.end()) == out2;
            Ev("Beats").a("df", df).a("bp", bp).i("a", a100).a("mus", mus).aa("w", W).a("before", before).a("out", got).b1("same", same).end();
        }
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    if (A.mode == "period") period(sc, A); else beats(sc, A);
    fclose(Out::file());
    return 0;
}
