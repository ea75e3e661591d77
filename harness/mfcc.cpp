#include "trace.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/transforms/FFT.h"
#include "base/Window.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::unique_ptr<double[]> Buf;
static Buf buf(const VD &v) { Buf b(new double[v.size()]); std::copy(v.begin(), v.end(), b.get()); return b; }
struct Obj { std::unique_ptr<MFCC> m; MFCCConfig c; Obj() : c(44100) {} int outs() const { return c.nceps + (c.want_c0 ? 1 : 0); } };
static VD freqEntry(Obj &o, const VD &re, const VD &im, int &ret) { // only the non-redundant half is handed over
    int h = o.c.fftsize / 2 + 1; VD r(re.begin(), re.begin() + h), i(im.begin(), im.begin() + h); Buf a = buf(r), b = buf(i), out(new double[o.outs()]);
    ret = o.m->process(a.get(), b.get(), out.get());
    if (VD(a.get(), a.get() + h) != r || VD(b.get(), b.get() + h) != i) Ev("InputModified").end();
    return VD(out.get(), out.get() + o.outs());
}
static VD timeEntry(Obj &o, const VD &x, int &ret) { Buf a = buf(x), out(new double[o.outs()]); ret = o.m->process(a.get(), out.get()); if (VD(a.get(), a.get() + x.size()) != x) Ev("InputModified").end(); return VD(out.get(), out.get() + o.outs()); }
static VI sc(const VD &v, double s) { return scaledV(v.data(), int(v.size()), s); }
static void make(Rng &r, Obj &o, int k, bool real, int power) {
    MFCCConfig c(r.of(real ? VI{44100, 22050, 48000, 16000, 11025, 96000, 192000, 88200} : VI{7919, 12809, 15991, 6397, 44100, 9973, 65537})); c.fftsize = real ? (c.FS > 50000 ? r.of(VI{4096, 8192}) : r.of(VI{2048, 1024, 4096, 512})) : r.of(VI{64, 48, 100, 128, 40}); c.nceps = r.chance(1, 4) ? r.in(0, 39) : r.of(VI{19, 12, 13, 39, 20}); c.want_c0 = r.chance(1, 2); c.logpower = power; c.window = WindowType(r.in(0, 5));
    o.c = c; o.m.reset(new MFCC(c));
    Ev("New").i("o", k).i("rate", c.FS).i("size", c.fftsize).i("length", o.m->getfftlength()).i("nceps", c.nceps).b1("c0", c.want_c0).i("power", power).i("win", c.window).end();
}
static bool onEdge(double f) { for (int i = 0; i < 42; ++i) { double e = i < 13 ? 200.0 / 3 * (i + 1) : 2600.0 / 3 * pow(1.0711703, i - 12); if (fabs(f - e) < 0.5) return true; } return false; }
static void definition(Rng &r, int A) {
    std::vector<Obj> os(2); bool real = r.chance(1, 2); for (int k = 0; k < 2; ++k) make(r, os[k], k, real, r.chance(1, 3) ? r.of(VI{2, 3}) : 1);
    for (int a = 0; a < A; ++a) {
        int k = r.in(0, 1); Obj &o = os[k]; int N = o.c.fftsize, h = N / 2 + 1; VD re(h), im(h); VI bin, ir, ii; int kind = r.in(0, 5), amp = r.of(VI{1, 20, 300, 3000});
        VI which; if (kind == 0 && !real) for (int b = 0; b < h; ++b) which.push_back(b);
        else if (kind <= 2) which.push_back(r.in(0, h - 1)); // a single bin shows the shape of the bands there
        else for (int j = kind == 5 ? 0 : r.in(2, 30); j > 0; --j) which.push_back(r.chance(2, 3) ? r.in(0, std::min(h - 1, int(6500.0 * N / o.c.FS))) : r.in(0, h - 1));
        std::vector<int> clear; for (int b : which) if (!onEdge(double(o.c.FS) * b / N)) clear.push_back(b); which = clear; // a bin on a band's edge weighs nothing or next to nothing
        std::sort(which.begin(), which.end()); which.erase(std::unique(which.begin(), which.end()), which.end());
        for (int b : which) { int m = r.in(1, amp), w = r.in(0, 3); int x = w == 0 ? 0 : w == 1 ? m : w == 2 ? 3 * m : -4 * m, y = w == 0 ? -m : w == 1 ? 0 : w == 2 ? -4 * m : 3 * m; re[b] = x; im[b] = y; bin.push_back(b); ir.push_back(x); ii.push_back(y); }
        int dec = o.c.logpower == 3 ? r.of(VI{0, 0, -2}) : o.c.logpower != 1 ? r.of(VI{0, 0, -2, 1}) : r.of(VI{0, 0, 0, -3, -8, 3}); for (double &v : re) v *= pow(10., dec); for (double &v : im) v *= pow(10., dec);
        int ret; VD c = freqEntry(o, re, im, ret);
        Ev("Cepstrum").i("o", k).i("dec", dec).i("ret", ret).a("bin", bin).a("re", ir).a("im", ii).a("ceps", sc(c, 1000)).end();
    }
}
static void frames(Rng &r, int A) {
    std::vector<Obj> os(3); for (int k = 0; k < 3; ++k) make(r, os[k], k, true, 1); if (r.chance(1, 2)) { os[2].c = os[0].c; os[2].m.reset(new MFCC(os[2].c)); MFCCConfig &c = os[2].c; Ev("New").i("o", 2).i("rate", c.FS).i("size", c.fftsize).i("length", os[2].m->getfftlength()).i("nceps", c.nceps).b1("c0", c.want_c0).i("power", 1).i("win", c.window).end(); }
    std::vector<VD> fr; for (int i = 0; i < 4; ++i) { VD x(8192); double f = 100 + 5000 * r.unit(); int kind = r.in(0, 3); for (int j = 0; j < 8192; ++j) x[j] = i == 3 ? 0 : kind == 0 ? sin(f * j / 44100 * 6.283) + 0.01 * r.unit() : (r.unit() - 0.5) * (kind == 1 ? 1 : 1e-3); fr.push_back(x); }
    for (int a = 0; a < A; ++a) {
        int k = r.in(0, 2), i = r.in(0, 3); Obj &o = os[k]; int N = o.c.fftsize, ret; VD x(fr[i].begin(), fr[i].begin() + N);
        if (r.chance(1, 10)) { Ev("Gone").i("o", k).end(); make(r, o, k, true, 1); continue; }
        auto spectrum = [&](const VD &in, VD &re, VD &im) { Buf b = buf(in); Window<double> w(o.c.window, N); w.cut(b.get()); FFTReal f(N); re.assign(N, 0); im.assign(N, 0); f.forward(b.get(), re.data(), im.data()); };
        VD c; if (r.chance(1, 2)) c = timeEntry(o, x, ret); else { VD re, im; spectrum(x, re, im); c = freqEntry(o, re, im, ret); }
        Ev("Frame").i("o", k).i("frame", i).a("ceps", sc(c, 1e6)).end();
        if (r.chance(1, 3)) { // every band must get something
            VD re(N), im(N); if (o.c.FS > 13000 && double(o.c.FS) / N < 40) { for (int j = 0; j < N; ++j) { re[j] = r.in(1, 20) * (r.chance(1, 2) ? -1 : 1); im[j] = r.in(-9, 9); } double g = r.of(VD{0.1, 2, 10, 1000, 1e-6, 1e-9, 1e6}); VD r2 = re, i2 = im; for (int j = 0; j < N; ++j) { r2[j] *= g; i2[j] *= g; }
                VD p = freqEntry(o, re, im, ret), q = freqEntry(o, r2, i2, ret); Ev("Louder").i("o", k).i("g", scaled(log10(g), 1000)).a("a", sc(p, 1000)).a("b", sc(q, 1000)).end(); }
        }
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(96, 1600);
    for (int q = 0; q < n; ++q) { if (!s.begin()) continue; Rng r(A.seed * 660011 + q); Ev("Scenario").i("n", s.n).end(); if ((q / 8) % 3 < 2) definition(r, A.pick(10, 20)); else frames(r, A.pick(24, 60)); }
    return 0;
}
