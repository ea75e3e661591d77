#include "trace.h"
#include "dsp/signalconditioning/Framer.h"
#include <memory>
#include <sys/mman.h>
typedef std::vector<int> VI;
struct Buf { double *p; int n; explicit Buf(int nn) : p(new double[nn]), n(nn) { for (int i = 0; i < nn; ++i) p[i] = 777777; } ~Buf() { delete[] p; } Buf(const Buf &) = delete; };
// v[0..n) as: a ramp rising by one of length `ramp` from `first`, then `zeros` zeros; `rest` counts whatever follows
static void ramp(int k, const double *v, int n) {
    int a = 0; while (a < n && v[a] != 0 && (a == 0 || v[a] == v[a - 1] + 1)) ++a;
    int z = a; while (z < n && v[z] == 0) ++z;
    Ev("Ramp").i("k", k).i("first", a ? exactInt(v[0]) : 0).i("ramp", a).i("zeros", z - a).i("rest", n - z).end();
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc;
    int nsc = A.pick(400, 4000);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 401 + q);
        Ev("Scenario").i("n", sc.n).end();
        Framer f[2]; int frame[2] = {0, 0}, hop[2] = {0, 0}; std::unique_ptr<Buf> src[2];
        auto conf = [&](int k) { frame[k] = r.in(1, 12); hop[k] = r.chance(1, 3) ? frame[k] : r.in(1, 15); f[k].configure(frame[k], hop[k]);
            Ev("Configure").i("k", k).i("frame", frame[k]).i("hop", hop[k]).end(); };
        auto source = [&](int k) { int len = r.chance(1, 6) ? r.in(0, 2) : r.chance(1, 2) ? hop[k] * r.in(0, 6) + r.in(-1, 1) : r.in(0, 60); if (len < 0) len = 0;
            int base = r.in(1, 5) * 1000; src[k].reset(new Buf(len)); for (int i = 0; i < len; ++i) src[k]->p[i] = base + i;
            f[k].setSource(src[k]->p, len);
            Ev("SetSource").i("k", k).i("len", len).i("base", base).i("max", f[k].getMaxNoFrames()).end(); };
        int no = q % 3 == 0 ? 2 : 1;
        for (int k = 0; k < no; ++k) { conf(k); source(k); }
        int calls = r.in(5, 60);
        for (int c = 0; c < calls; ++c) {
            int k = r.in(0, no - 1), what = r.in(0, 29);
            if (what == 0) { conf(k); source(k); }
            else if (what == 1) { f[k].resetCounters(); Ev("Reset").i("k", k).end(); }
            else if (what == 2) { f[k].resetCounters(); Ev("Reset").i("k", k).end(); source(k); }
            else { Buf d(frame[k]); f[k].getFrame(d.p); Ev("Frame").i("k", k).a("out", exactV(d.p, frame[k])).end(); }
        }
    }
    // long runs: thousands of frames, each described as a ramp followed by zeros; sample i has value i + base
    int nlong = A.pick(6, 60);
    for (int q = 0; q < nlong; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 977 + q);
        Ev("Scenario").i("n", sc.n).end();
        Framer f; int frame = q % 2 ? r.in(1, 12) : r.in(100, 3000), hop = q % 2 ? r.in(1, 15) : r.in(frame / 4, frame + 10);
        int nfr = q % 2 ? r.in(1500, 6000) : r.in(300, 1200);
        f.configure(frame, hop); Ev("Configure").i("k", 0).i("frame", frame).i("hop", hop).end();
        int len = hop * nfr + r.in(-1, 1), base = r.in(1, 5) * 1000;
        Buf src(len); for (int i = 0; i < len; ++i) src.p[i] = base + i;
        f.setSource(src.p, len);
        Ev("SetSource").i("k", 0).i("len", len).i("base", base).i("max", f.getMaxNoFrames()).end();
        for (int c = 0; c < nfr + 4; ++c) { Buf d(frame); f.getFrame(d.p); ramp(0, d.p, frame); }
        f.resetCounters(); Ev("Reset").i("k", 0).end();
        for (int c = 0; c < 3; ++c) { Buf d(frame); f.getFrame(d.p); ramp(0, d.p, frame); }
    }
    // source lengths beyond 32 bits, announced but not read: length = quot * hop + rem
    int nhuge = A.pick(60, 400);
    for (int q = 0; q < nhuge; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 1381 + q);
        Ev("Scenario").i("n", sc.n).end();
        Framer f; int hop = r.in(2, 5000); f.configure(r.in(1, 5000), hop);
        int quot = r.chance(1, 3) ? r.in(2000000000, 2147483645) : r.in(1 << 20, 2000000000), rem = r.chance(1, 2) ? 0 : r.in(0, hop - 1);
        double x = 0;
        f.setSource(&x, int64_t(quot) * hop + rem);
        Ev("Huge").i("hop", hop).i("quot", quot).i("rem", rem).i("max", f.getMaxNoFrames()).end();
    }
    // a source longer than 2^31 samples (untouched pages of a reserved mapping read as zero), read with a huge hop:
    // the sample at the start of frame c holds c + 1 in its first four places
    for (int q = 0; q < A.pick(1, 3); ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 31 + q);
        const int hop = 90000000 + r.in(0, 999), nfr = 52; int64_t len = int64_t(hop) * (nfr - 1) + r.in(4, 9);
        size_t bytes = size_t(len) * sizeof(double);
        double *m = (double *)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { fprintf(stderr, "no room for the long mapping, skipped\n"); continue; }
        for (int c = 0; c < nfr; ++c) for (int i = 0; i < 4; ++i) m[int64_t(c) * hop + i] = c + 1;
        Ev("Scenario").i("n", sc.n).end();
        {
            Framer f; f.configure(9, hop); f.setSource(m, len);
            Ev("Far").i("frames", nfr).i("max", f.getMaxNoFrames()).end();
            for (int c = 0; c < nfr + 2; ++c) { Buf d(9); f.getFrame(d.p); Ev("FarFrame").i("at", c).i("frames", nfr).a("out", exactV(d.p, 9)).end(); }
        }
        munmap(m, bytes);
    }
    fclose(Out::file());
    return 0;
}
