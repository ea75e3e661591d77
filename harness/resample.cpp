#include "trace.h"
#include "dsp/rateconversion/Resampler.h"
#include <memory>
#include <stdexcept>
#include <numeric>
typedef std::vector<int> VI; typedef std::vector<double> VD;
struct Buf { double *p; int n; explicit Buf(int nn) : p(new double[nn]), n(nn) { for (int i = 0; i < nn; ++i) p[i] = 777777; } ~Buf() { delete[] p; } Buf(const Buf &) = delete; };
static const double M = 1e6;
static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
static int due(long long n, int s, int t) { return int((n * t + s - 1) / s); }
struct P { int s, t; bool dflt; double snr, bw; };
static Resampler *mk(const P &p) { return p.dflt ? new Resampler(p.s, p.t) : new Resampler(p.s, p.t, p.snr, p.bw); }
static VI run(Resampler &r, const P &p, const VD &x, int from, int n) {
    Buf in(n), out(due(n, p.s, p.t));
    for (int i = 0; i < n; ++i) in.p[i] = x[from + i];
    int got = r.process(in.p, out.p, n);
    for (int i = 0; i < n; ++i) if (in.p[i] != x[from + i]) Ev("InputModified").end();
    return scaledV(out.p, got, M);
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    if (A.mode == "stream") {
        int rates[][2] = {{1,1},{1,2},{2,1},{2,3},{3,2},{3,4},{4,3},{1,5},{5,1},{5,7},{7,5},{8,3},{3,8},{44100,48000},{48000,44100},{44100,22050},{8000,44100},{44100,16000},{11,13},{6,4},{1000,1},{1,100},{97,89}};
        int nr = sizeof rates / sizeof *rates;
        int nsc = A.pick(120, 900);
        for (int q = 0; q < nsc; ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 211 + q);
            P p;
            if (q < nr) { p.s = rates[q][0]; p.t = rates[q][1]; }
            else if (r.chance(1, 4)) { int k = r.in(0, nr - 1); p.s = rates[k][0]; p.t = rates[k][1]; }
            else { p.s = r.in(1, 24); p.t = r.in(1, 24); }
            p.dflt = q % 5 == 0; p.snr = r.of(std::vector<double>{25, 40, 60, 90}); p.bw = r.of(std::vector<double>{0.1, 0.2, 0.3, 0.05});
            int g = gcd(p.s, p.t), hi = std::max(p.s, p.t) / g;
            std::unique_ptr<Resampler> base(mk(p));
            int lat = base->getLatency();
            Ev("Scenario").i("n", sc.n).i("s", p.s).i("t", p.t).i("g", g).i("lat", lat).end();
            // several streams of the same signal, divided differently
            int win = int(2.0 * lat * p.s / p.t) + 2;     // about one filter length of input
            int N = std::min(win + r.in(20, 200), r.in(100, 500));
            if ((double)N * p.t / p.s > 4000) N = int(4000.0 * p.s / p.t) + 1;
            VD x(N + 400 * std::max(1, p.s / p.t)); for (double &v : x) v = r.unit() * 2 - 1;
            { std::unique_ptr<Resampler> big(mk(p)); Ev("Ref").a("out", run(*big, p, x, 0, (int)x.size())).end(); }
            for (int k = 0; k < 4; ++k) {
                std::unique_ptr<Resampler> o(k == 0 ? base.release() : mk(p));
                Ev("New").i("k", k).i("lat", o->getLatency()).end();
                int from = 0, style = k == 0 ? 3 : r.in(0, 3), cap = r.in(1, 60);
                while (from < N) {
                    int n = style == 0 ? r.in(0, 3) : style == 1 ? cap : r.in(0, 1) ? r.in(0, 120) : r.in(0, 6);
                    if (style == 0 && N > 200) n = r.in(0, 9);
                    if (n > N - from) n = N - from;
                    VI out;
                    try { out = run(*o, p, x, from, n); } catch (std::exception &) { Ev("Threw").end(); return 0; }
                    Ev("Process").i("k", k).i("n", n).i("got", (int)out.size()).a("out", out).end();
                    from += n;
                }
            }
            // impulse responses centred on their own times
            if (hi <= 200 && lat * (double)p.s / g < 3000) {
                double ptp = hi; double bw = p.dflt ? 0.02 : p.bw;
                if (p.t < p.s) ptp = ptp / (1 - bw / 2);
                int peak = scaled(double(p.t / g) / ptp, M);
                int ni = A.pick(4, 8);
                for (int k = 0; k < ni; ++k) {
                    int i = k == 0 ? 0 : k == 1 ? 1 : r.in(0, 2 * (p.s / g) + 3);
                    int len = i + win + 3;
                    if ((double)len * p.t / p.s > 1500) len = int(1500.0 * p.s / p.t);
                    if (i >= len || len > 40000) continue;
                    VD im(len, 0.0); im[i] = 1;
                    std::unique_ptr<Resampler> o(mk(p));
                    Ev("Impulse").i("i", i).i("peak", peak).a("out", run(*o, p, im, 0, len)).end();
                }
            }
            // steady input, ramp
            int len = 2 * win + 60;
            if (len < 60000 && (double)len * p.t / p.s < 60000) {
                double snr = p.dflt ? 100 : p.snr;
                int tol = int(M * 3 * pow(10, -snr / 20)) + 20;
                if (p.dflt || (p.snr >= 60)) {
                std::unique_ptr<Resampler> o(mk(p));
                VI y = run(*o, p, VD(len, 0.5), 0, len);
                VI mid; for (int j = 2 * lat; j < (int)y.size(); ++j) mid.push_back(y[j]);
                if (mid.size() > 300) mid.resize(300);
                Ev("Const").i("value", 500000).i("tol", tol).a("out", mid).end();
                }
                if (p.dflt && len < 20000) {
                    VD ramp(len); for (int i = 0; i < len; ++i) ramp[i] = i;
                    std::unique_ptr<Resampler> o(mk(p));
                    VD out(due(len, p.s, p.t)); int got = o->process(ramp.data(), out.data(), len);
                    int from = lat; // output index lat+from
                    VI mid; for (int j = lat + from; j < got && mid.size() < 200; ++j) mid.push_back(scaled(out[j], 1000));
                    Ev("Ramp").i("from", from).a("out", mid).end();
                }
            }
            if (q % 3 == 0) { // by-value form
                std::unique_ptr<Resampler> o(mk(p)), o2(mk(p));
                VI a, b; int from = 0;
                for (int c = 0; c < 3; ++c) {
                    int n = std::min(r.in(0, 40), N - from);
                    Buf in(n); for (int i = 0; i < n; ++i) in.p[i] = x[from + i];
                    VD v = o->process(in.p, n); VI s1 = scaledV(v.data(), (int)v.size(), M), s2 = run(*o2, p, x, from, n);
                    a.insert(a.end(), s1.begin(), s1.end()); b.insert(b.end(), s2.begin(), s2.end()); from += n;
                }
                Ev("ByValue").a("out", a).a("other", b).end();
            }
        }
        // long streams: many small calls, and single calls of any size, against one long call; and a late signal against the same one early
        int lrates[][2] = {{3,2},{2,3},{44100,48000},{48000,44100},{1,3},{3,1},{1,1},{147,160},{5,4},{4,5},{44100,22050},{7,8}};
        for (int q = 0; q < A.pick(12, 36); ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 227 + q);
            P p; p.s = lrates[q % 12][0]; p.t = lrates[q % 12][1]; p.dflt = false; p.snr = 25; p.bw = 0.3;
            int g = gcd(p.s, p.t);
            std::unique_ptr<Resampler> base(mk(p));
            int lat = base->getLatency();
            Ev("Scenario").i("n", sc.n).i("s", p.s).i("t", p.t).i("g", g).i("lat", lat).end();
            int N = A.pick(30000, 150000);
            VD x(N + 400 * std::max(1, p.s / p.t)); for (double &v : x) v = r.unit() * 2 - 1;
            VI ref; { std::unique_ptr<Resampler> big(mk(p)); ref = run(*big, p, x, 0, (int)x.size()); Ev("Ref").a("out", ref).end(); }
            int k = 0;
            for (int big = 0; big < 2; ++big, ++k) {
                std::unique_ptr<Resampler> o(k == 0 ? base.release() : mk(p));
                Ev("New").i("k", k).i("lat", o->getLatency()).end();
                int from = 0, cap = big ? r.in(5000, 20000) : r.in(200, 1200);
                while (from < N) {
                    int n = std::min(N - from, r.chance(1, 2) ? cap : r.in(0, cap));
                    VI out;
                    try { out = run(*o, p, x, from, n); } catch (std::exception &) { Ev("Threw").end(); return 0; }
                    Ev("Process").i("k", k).i("n", n).i("got", (int)out.size()).a("out", out).end();
                    from += n;
                }
            }
            // the same signal after a silence of "periods" whole periods of both grids
            int per = p.s / g, reps = (q % 2 ? 200000 : 70000) / per, len = 600 * std::max(1, p.s / p.t), L = reps * per;
            std::unique_ptr<Resampler> o(mk(p));
            VD sil(L, 0.0), y;
            for (int from = 0; from < L;) { int n = std::min(L - from, q % 3 ? 1024 : 50000); VD v = o->process(sil.data() + from, n); from += n; y.insert(y.end(), v.begin(), v.end()); }
            VD v = o->process(x.data(), len); y.insert(y.end(), v.begin(), v.end());
            int at = reps * (p.t / g);
            bool still = true; for (int j = 0; j < std::min(at, (int)y.size()); ++j) if (y[j] != 0) still = false;
            VI tail; for (int j = at; j < (int)y.size(); ++j) tail.push_back(scaled(y[j], M));
            Ev("Late").i("periods", reps).b1("still", still).i("got", (int)y.size()).i("in", L + len).a("out", tail).end();
        }
        // tones within the band come out at the same frequency, level and time; tones above the target's band do not come out
        int trates[][2] = {{1,1},{2,1},{1,2},{3,2},{2,3},{44100,48000},{48000,44100},{44100,16000},{8000,44100},{96000,44100},{11,13},{13,11},{882,881},{881,882},{1000,999}};
        for (int q = 0; q < A.pick(30, 120); ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 229 + q);
            P p; p.s = trates[q % 15][0]; p.t = trates[q % 15][1]; p.dflt = q % 15 >= 5 || q < 15;
            p.snr = r.of(std::vector<double>{60, 80, 90}); p.bw = r.of(std::vector<double>{0.05, 0.1});
            int g = gcd(p.s, p.t); double bw = p.dflt ? 0.02 : p.bw, snr = p.dflt ? 100 : p.snr;
            std::unique_ptr<Resampler> o(mk(p)); int lat = o->getLatency();
            Ev("Scenario").i("n", sc.n).i("s", p.s).i("t", p.t).i("g", g).i("lat", lat).end();
            double low = 0.5 * std::min(1.0, double(p.t) / p.s);   // lower Nyquist frequency, in cycles per input sample
            int win = int(2.0 * lat * p.s / p.t) + 2, len = win + 400 * std::max(1, p.s / p.t) + 200;
            for (int above = 0; above < (p.t < p.s ? 2 : 1); ++above) {
                double f = above ? low * (1 + 1.1 * bw + 0.3 * r.unit()) : low * (r.chance(1, 2) ? 1 - 2.2 * bw : r.unit() * (1 - 2.2 * bw));
                if (f > 0.49) continue;
                double ph = r.unit() * 6.28;
                VD x(len); for (int i = 0; i < len; ++i) x[i] = sin(2 * M_PI * f * i + ph);
                std::unique_ptr<Resampler> a(mk(p));
                VD out(due(len, p.s, p.t)); int got = a->process(x.data(), out.data(), len);
                VI in, w; for (int j = 2 * lat + 1; j < got && w.size() < 150; ++j) { w.push_back(scaled(out[j], M)); in.push_back(above ? 0 : scaled(sin(2 * M_PI * f * ((double)(j - lat) * p.s / p.t) + ph), M)); }
                Ev("Tone").i("tol", int(M * 5 * pow(10, -snr / 20)) + 20).a("in", in).a("out", w).end();
            }
        }
    } else if (A.mode == "oneshot") {
        int nsc = A.pick(160, 1500);
        int rates[][2] = {{1,1},{44100,44100},{1,2},{2,1},{3,2},{2,3},{44100,48000},{48000,44100},{44100,16000},{8000,44100},{22050,44100},{96000,44100},{7,1},{1,7},{160,147},{100,1}};
        int nr = sizeof rates / sizeof *rates;
        for (int q = 0; q < nsc; ++q) {
            if (!sc.begin()) continue;
            Rng r(A.seed * 223 + q);
            int s, t;
            if (q < nr) { s = rates[q][0]; t = rates[q][1]; } else { s = r.in(1, 30); t = r.chance(1, 8) ? s : r.in(1, 30); if (r.chance(1, 4)) { int k = r.in(1, 500); s *= k; t *= k; } }
            int g = gcd(s, t);
            std::unique_ptr<Resampler> b(new Resampler(s, t));
            int lat = b->getLatency();
            Ev("Scenario").i("n", sc.n).i("s", s).i("t", t).i("g", g).i("lat", lat).end();
            for (int c = 0; c < 6; ++c) {
                int n = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? r.in(2, 9) : r.in(1, 700);
                Buf in(n); for (int i = 0; i < n; ++i) in.p[i] = r.unit() * 2 - 1;
                VD out = Resampler::resample(s, t, in.p, n);
                Ev("OneShot").i("n", n).i("len", (int)out.size()).end();
                VD again = Resampler::resample(s, t, in.p, n);
                Ev("ByValue").a("out", scaledV(out.data(), (int)out.size(), M)).a("other", scaledV(again.data(), (int)again.size(), M)).end();
                if (s == t) Ev("Identity").a("in", scaledV(in.p, n, M)).a("out", scaledV(out.data(), (int)out.size(), M)).end();
            }
            if (q % 8 == 1 && (double)t / s < 40) { // long input, its length a whole number of periods or next to it
                int per = s / g, n = per * (r.in(60000, 110000) / per) + r.in(-1, 1); if (n < 1) n = per;
                if (n < 400000) {
                    VD in(n); for (int i = 0; i < n; ++i) in[i] = 0.25;
                    VD out = Resampler::resample(s, t, in.data(), n);
                    Ev("OneShot").i("n", n).i("len", (int)out.size()).end();
                    VI c; int edge = 2 * lat, to = (int)out.size() - edge, stepj = std::max(1, (to - edge) / 300);
                    for (int j = edge; j < to; j += stepj) c.push_back(scaled(out[j], M));
                    if (!c.empty()) Ev("Const").i("value", 250000).i("tol", 50).a("out", c).end();
                }
            }
            int half = int((double)lat * s / t) + 1, len = 2 * half + 60;
            if (len < 30000 && (double)len * t / s < 60000) {
                VD ramp(len), one(len, 0.25); for (int i = 0; i < len; ++i) ramp[i] = i;
                VD y = Resampler::resample(s, t, ramp.data(), len), z = Resampler::resample(s, t, one.data(), len);
                int from = lat, to = (int)y.size() - lat;
                VI a, c; for (int j = from; j < to && a.size() < 200; ++j) { a.push_back(scaled(y[j], 1000)); c.push_back(scaled(z[j], M)); }
                if (!a.empty()) { Ev("Ramp").i("from", from).a("out", a).end(); Ev("Const").i("value", 250000).i("tol", 50).a("out", c).end(); }
            }
            // an impulse comes out at its own time, largest there when that is an output instant
            VD im(400, 0.0); int g1 = s / g; int i = g1 * (200 / std::max(1, g1));
            if (i < 400 && i >= 0) {
                im[i] = 1; VD y = Resampler::resample(s, t, im.data(), 400);
                int hi = std::max(s, t) / g; double ptp = hi; if (t < s) ptp /= (1 - 0.02 / 2);
                int at = int((long long)i * t / s), lo = std::max(0, at - 120), up = std::min((int)y.size(), at + 121);
                VI z; for (int j = lo; j < up; ++j) z.push_back(scaled(y[j], M));
                Ev("Centred").i("i", i).i("from", lo).i("peak", scaled(double(t / g) / ptp, M)).a("out", z).end();
            }
        }
    } else return 3;
    fclose(Out::file());
    return 0;
}
