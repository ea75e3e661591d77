#include "trace.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/transforms/FFT.h"
#include "base/Window.h"
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD;
struct Buf { double *p; int n; explicit Buf(int nn) : p(new double[nn]), n(nn) { for (int i = 0; i < nn; ++i) p[i] = 777777; } ~Buf() { delete[] p; } Buf(const Buf &) = delete; };
static double quarter(int q, bool im) { static const double c[] = {1, 0, -1, 0}; q &= 3; return im ? c[(q + 3) & 3] : c[q]; }
static void spectrum(const VI &m, const VI &p, int per, Buf &re, Buf &im) { // phase p in 1/per turns
    for (size_t i = 0; i < m.size(); ++i) {
        if (per == 4) { re.p[i] = m[i] * quarter(p[i], false); im.p[i] = m[i] * quarter(p[i], true); if (re.p[i] == 0) re.p[i] = 0.0; if (im.p[i] == 0) im.p[i] = 0.0; re.p[i] += 0.0; im.p[i] += 0.0; }
        else { re.p[i] = m[i] * cos(2 * M_PI * p[i] / per); im.p[i] = m[i] * sin(2 * M_PI * p[i] / per); }
    }
}
static void toFreq(const VD &frame, bool window, Buf &re, Buf &im) {
    int n = (int)frame.size(); VD x(frame), a(n), b(n);
    if (window) { Window<double> w(HanningWindow, n); w.cut(x.data()); }
    for (int i = 0; i < n / 2; ++i) std::swap(x[i], x[i + n / 2]);
    FFTReal f(n); f.forward(x.data(), a.data(), b.data());
    for (int i = 0; i <= n / 2; ++i) { re.p[i] = a[i]; im.p[i] = b[i]; }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    if (A.mode == "df") {
        int nsc = A.pick(240, 2400);
        for (int q = 0; q < nsc; ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 701 + q);
            Ev("Scenario").i("n", sc.n).end();
            int no = r.in(1, 3), kind = q % 4; // 0,1: plain; 2: whitening with a high floor; 3: general whitening
            std::vector<std::unique_ptr<DetectionFunction>> o(no); VI type(no), n(no), scale(no); VD lev(no, 1); std::vector<VI> at(no);
            for (int k = 0; k < no; ++k) {
                n[k] = 2 * r.in(1, r.chance(1, 4) ? 16 : 6);
                bool big = q % 12 >= 8 && kind != 2; if (big) n[k] = r.chance(1, 2) ? 1 << r.in(8, 13) : 2 * r.in(100, 3000);
                for (int i = 0; i <= n[k] / 2; ++i) if (!big || i == n[k] / 2 || r.chance(10, n[k] / 2)) { if (big && at[k].size() > 15) break; at[k].push_back(i + 1); }
                if (kind < 2 && r.chance(1, 2)) lev[k] = std::ldexp(1.0, r.of(VI{-300, -60, -40, -25, -12, 12, 60, 300}));
                type[k] = kind == 3 ? r.in(1, 5) : (q / 4 + k) % 5 + 1; scale[k] = 1;
                DFConfig c; c.frameLength = n[k]; c.stepSize = r.in(1, n[k]); c.DFType = type[k]; double dbs[] = {0, 3, 6, 1.5}; c.dbRise = dbs[r.in(0, 3)];
                c.adaptiveWhitening = kind >= 2; int relax = r.in(0, 8); c.whiteningRelaxCoeff = relax / 8.0; c.whiteningFloor = 0.5;
                if (kind == 2) { scale[k] = 1 << r.in(4, 6); c.whiteningFloor = scale[k]; }
                if (kind < 2) { c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1; }
                o[k].reset(new DetectionFunction(c));
                Ev("New").i("k", k).i("type", type[k]).i("bins", int(at[k].size())).a("at", at[k]).i("rise", int(pow(10, c.dbRise / 10) * 1000 + 0.5)).i("scale", scale[k]).i("relax", relax).i("floor", 500).end();
            }
            int frames = r.in(4, 14); std::vector<VI> lm(no), lq(no);
            for (int f = 0; f < frames * no; ++f) {
                int k = r.in(0, no - 1), H = n[k] / 2 + 1, h = int(at[k].size());
                VI m(h), p(h); int style = r.in(0, 6);
                for (int i = 0; i < h; ++i) { m[i] = style == 0 ? 0 : style == 1 ? r.in(0, 1) : r.in(0, 15); p[i] = r.in(-1, 2); if (style == 2) p[i] = 0; if (m[i] == 0) p[i] = 0; }
                if (style == 3 && !lm[k].empty()) { m = lm[k]; p = lq[k]; }
                lm[k] = m; lq[k] = p;
                Buf re(H), im(H); VI M(H), P(H); for (int i = 0; i < h; ++i) { M[at[k][i] - 1] = m[i]; P[at[k][i] - 1] = p[i]; }
                spectrum(M, P, 4, re, im); for (int i = 0; i < H; ++i) { re.p[i] *= lev[k]; im.p[i] *= lev[k]; }
                VD cr(re.p, re.p + H), ci(im.p, im.p + H);
                double v = o[k]->processFrequencyDomain(re.p, im.p);
                if (memcmp(cr.data(), re.p, H * sizeof(double)) || memcmp(ci.data(), im.p, H * sizeof(double))) Ev("InputModified").end();
                VD mgs(h); const double *mg = mgs.data(); int rest = 0;  // magnitudes of the active bins; the others are silent
                { const double *all = o[k]->getSpectrumMagnitude(); for (int i = 0, j = 0; i < H; ++i) if (j < h && at[k][j] == i + 1) mgs[j++] = all[i]; else if (all[i] != 0) ++rest; }
                if (kind < 3) {
                    double unit = type[k] == 3 ? 2 / M_PI : type[k] == 5 ? 1 : scale[k] / lev[k];
                    Ev("Frame").i("k", k).a("m", m).a("q", p).i("v", scaled(v * unit, 1000)).a("mag", scaledV(mg, h, 1000.0 * scale[k] / lev[k])).i("rest", rest).end();
                } else Ev("White").i("k", k).a("m", m).i("v", scaled(v, 1000)).a("mag", scaledV(mg, h, 1000)).i("rest", rest).end();
            }
            if (q % 2 == 0) { // time-domain and frequency-domain entry
                int N = q % 24 == 6 ? 1 << r.in(9, 12) : 2 * r.in(4, 32), t = r.in(1, 5); double u = N > 64 ? 1000.0 / N : 1000;
                DFConfig c; c.frameLength = N; c.stepSize = N / 2; c.DFType = t; c.dbRise = 3; c.adaptiveWhitening = r.chance(1, 2); c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
                DetectionFunction a(c), b(c);
                for (int f = 0; f < 6; ++f) {
                    Buf x(N); for (int i = 0; i < N; ++i) x.p[i] = r.unit() * 2 - 1 + (f > 2 ? 0.5 : 0);
                    VD cp(x.p, x.p + N); double va = a.processTimeDomain(x.p);
                    if (memcmp(cp.data(), x.p, N * sizeof(double))) Ev("InputModified").end();
                    Buf re(N / 2 + 1), im(N / 2 + 1); toFreq(cp, true, re, im); double vb = b.processFrequencyDomain(re.p, im.p);
                    Ev("Agree").i("td", scaled(va, u)).i("fd", scaled(vb, u)).i("tol", t == 3 ? 5 : 5).end();
                }
            }
        }
    } else if (A.mode == "pv") {
        int nsc = A.pick(240, 2400);
        for (int q = 0; q < nsc; ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 709 + q);
            Ev("Scenario").i("n", sc.n).end();
            int no = r.in(1, 2); std::vector<std::unique_ptr<PhaseVocoder>> o(no); VI n(no), hop(no), cnt(no, 0); VD lev(no, 1);
            for (int k = 0; k < no; ++k) { n[k] = r.chance(1, 2) ? 1 << r.in(1, 5) : 2 * r.in(1, 14); hop[k] = r.in(1, n[k] + 3); if (r.chance(1, 2)) lev[k] = std::ldexp(1.0, r.of(VI{-400, -60, -30, -15, 15, 60, 300}));
                o[k].reset(new PhaseVocoder(n[k], hop[k])); Ev("New").i("k", k).i("n", n[k]).i("hop", hop[k]).end(); }
            int frames = r.in(6, 40);
            for (int f = 0; f < frames; ++f) {
                int k = r.in(0, no - 1), N = n[k], h = N / 2 + 1;
                double unit = 100 * 16 * N / (2 * M_PI);
                if (++cnt[k] > 40 || r.chance(1, 9)) { o[k]->reset(); cnt[k] = 0; Ev("Reset").i("k", k).end(); }
                Buf mag(h), th(h), un(h);
                auto names = [&](Ev &e) -> Ev & { return e.a("mag", scaledV(mag.p, h, 1000 / lev[k])).a("theta", scaledV(th.p, h, unit)).a("u", scaledV(un.p, h, unit)); };
                if (N >= 4 && r.chance(1, 5)) {
                    int b = r.in(1, N / 2 - 1), p = r.in(-7, 7); Buf x(N);
                    for (int i = 0; i < N; ++i) x.p[i] = lev[k] * cos(2 * M_PI * b * (i - N / 2) / N + 2 * M_PI * p / 16);
                    VD cp(x.p, x.p + N);
                    o[k]->processTimeDomain(x.p, mag.p, th.p, un.p);
                    if (memcmp(cp.data(), x.p, N * sizeof(double))) Ev("InputModified").end();
                    Ev e("Tone"); names(e.i("k", k).i("b", b).i("p", p)).end();
                } else {
                    VI m(h), p(h); for (int i = 0; i < h; ++i) { m[i] = r.in(1, 20); p[i] = r.chance(1, 4) ? 0 : r.in(-7, 8); }
                    Buf re(h), im(h); spectrum(m, p, 16, re, im); for (int i = 0; i < h; ++i) { re.p[i] *= lev[k]; im.p[i] *= lev[k]; }
                    o[k]->processFrequencyDomain(re.p, im.p, mag.p, th.p, un.p);
                    Ev e("Frame"); names(e.i("k", k).a("m", m).a("p", p)).end();
                }
            }
            int N = 2 * r.in(1, 32), h = N / 2 + 1; PhaseVocoder a(N, r.in(1, N)), *b = 0; (void)b;
            int hp = r.in(1, N); PhaseVocoder c(N, hp), d(N, hp); double unit = 1000;
            for (int f = 0; f < 5; ++f) {
                VD x(N); for (double &v : x) v = r.unit() * 2 - 1 + 0.1;
                Buf re(h), im(h); toFreq(x, false, re, im);
                Buf m1(h), t1(h), u1(h), m2(h), t2(h), u2(h);
                c.processTimeDomain(x.data(), m1.p, t1.p, u1.p); d.processFrequencyDomain(re.p, im.p, m2.p, t2.p, u2.p);
                VI s, t; bool skip = false;
                for (int i = 0; i < h; ++i) { s.push_back(scaled(m1.p[i], unit)); t.push_back(scaled(m2.p[i], unit)); if (fabs(fabs(t1.p[i]) - M_PI) < 1e-3) skip = true; }
                if (!skip) for (int i = 0; i < h; ++i) { s.push_back(scaled(t1.p[i], unit)); t.push_back(scaled(t2.p[i], unit)); }
                Ev("Agree").a("td", s).a("fd", t).end();
            }
        }
        // long runs and large frames: unwrapped phase as whole turns and parts (hundredths of 1/(16 n) turn), at a few bins
        for (int q = 0; q < A.pick(12, 80); ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 733 + q);
            Ev("Scenario").i("n", sc.n).end();
            int N = q % 3 == 0 ? 2 * r.in(4, 20) : q % 3 == 1 ? 1 << r.in(7, 13) : 2 * r.in(60, 2000), hop = r.in(1, N), h = N / 2 + 1, frames = A.pick(q % 3 == 0 ? 1500 : 250, 4000);
            VI at; for (int i = 0; i < h; ++i) if (i == 1 || i == h - 1 || r.chance(4, h)) at.push_back(i);
            double lev = r.chance(1, 2) ? 1 : std::ldexp(1.0, r.in(-50, 10));
            PhaseVocoder o(N, hop); Ev("Big").i("n", N).i("hop", hop).a("at", at).end();
            bool steady = r.chance(1, 3);
            for (int f = 0; f < frames; ++f) {
                if (r.chance(1, 700)) { o.reset(); Ev("BigReset").end(); }
                VI m(h), p(h), ms, ps; for (int i : at) { m[i] = r.in(1, 20); p[i] = steady ? 3 : r.in(-7, 8); ms.push_back(m[i]); ps.push_back(p[i]); }
                Buf re(h), im(h), mag(h), th(h), un(h); spectrum(m, p, 16, re, im); for (int i = 0; i < h; ++i) { re.p[i] *= lev; im.p[i] *= lev; }
                o.processFrequencyDomain(re.p, im.p, mag.p, th.p, un.p);
                VI mg, t, tu, pa; for (int i : at) { mg.push_back(scaled(mag.p[i], 1000 / lev)); t.push_back(scaled(th.p[i], 1600.0 * N / (2 * M_PI)));
                    double w = std::floor(un.p[i] / (2 * M_PI)); tu.push_back(exactInt(w)); pa.push_back(scaled(un.p[i] / (2 * M_PI) - w, 1600.0 * N)); }
                Ev("BigFrame").a("m", ms).a("p", ps).a("mag", mg).a("theta", t).a("turns", tu).a("parts", pa).end();
            }
        }
    } else return 3;
    fclose(Out::file());
    return 0;
}
