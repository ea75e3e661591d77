#include "trace.h"
#include "dsp/tempotracking/TempoTrack.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc; int nsc = A.pick(96, 900);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 719 + q);
        double a[] = {1, -0.5949, 0.2348}, b[] = {0.16, 0.32, 0.16};
        TTParams P; P.winLength = 512; P.lagLength = 128;
        if (r.chance(1, 4)) { P.winLength = 256; P.lagLength = 64; }
        P.alpha = r.of(VI{9, 9, 2}); P.LPOrd = 2; P.LPACoeffs = a; P.LPBCoeffs = b; P.WinT.pre = 8; P.WinT.post = 7;
        if (r.chance(1, 3)) { P.WinT.pre = r.in(0, 20); P.WinT.post = r.in(0, 20); }
        TempoTrack one(P);
        Ev("Scenario").i("n", sc.n).i("win", P.winLength).i("lag", P.lagLength).end();
        int lag = P.lagLength;
        for (int c = 0; c < 3; ++c) {
            int n = r.chance(1, 5) ? r.of(VI{0, 1, lag - 1, lag, lag + 1, P.winLength, P.winLength + 1}) : r.in(3 * lag, r.chance(1, 2) ? 8 * lag : 16 * lag);
            if (q % 24 == 13 && c == 1) n = r.in(20, 40) * lag;
            double unit = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.of(VI{-60, -40, -20, -10, 10, 40}));
            VI df(n); int kind = r.in(0, 6), p = r.in(8, lag + 4), p2 = r.in(8, lag + 4), off = r.in(0, 40), noise = r.in(0, 4);
            if (r.chance(1, 4)) p = lag + r.in(-6, 3);
            if (r.chance(1, 5)) p = r.in(2, 10);
            if (r.chance(1, 5)) p = (P.winLength - 2) / 6 + r.in(-2, 1);
            for (int i = 0; i < n; ++i) {
                int P1 = kind == 1 && i > n / 2 ? p2 : p;
                switch (kind) {
                    case 0: case 1: df[i] = ((i + off) % P1 == 0 ? 15 : 0) + r.in(0, noise); break;
                    case 2: df[i] = r.in(0, 19); break;
                    case 3: df[i] = i < n / 2 && (i + off) % p == 0 ? 15 : 0; break;
                    case 4: df[i] = 0; break;
                    case 5: df[i] = (i + off) % (4 * p) == 0 ? 19 : (i + off) % p == 0 ? 11 : (2 * (i + off)) % p == 0 ? 5 : 0; break;
                    case 6: df[i] = (i + off) % p < 3 ? 12 : r.in(0, noise); break;
                }
            }
            VD d(df.begin(), df.end()); for (double &v : d) v *= unit; VD te, te2; VI before; if (r.chance(1, 4)) { before = VI{7, 9}; te = VD{7, 9}; }
            VI got = r.chance(1, 8) ? one.process(d) : one.process(d, &te);
            VI got2; bool withT = te.size() > before.size() || n == 0;
            std::unique_ptr<TempoTrack> fresh(new TempoTrack(P));
            got2 = fresh->process(d, &te2);
            bool same = got == got2 && (!withT || VD(te.begin() + before.size(), te.end()) == te2);
            // tempi in hundredths, and the whole number k (if any) with tempo = 5168/k
            VI t100, k; for (double v : te2) { t100.push_back(scaled(v, 100)); int kk = v > 0 ? int(5168 / v + 0.5) : 0; k.push_back(kk && fabs(5168.0 / kk - v) < 1e-4 ? kk : 0); }
            bool kept = VI(before) == VI([&] { VI x; for (size_t i = 0; i < before.size(); ++i) x.push_back(exactInt(te[i])); return x; }());
            Ev("Track").a("df", df).b1("same", same).b1("kept", kept).a("t100", t100).a("k", k).a("beats", got).end();
        }
    }
    fclose(Out::file());
    return 0;
}
