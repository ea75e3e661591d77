#include "trace.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/rateconversion/Decimator.h"
#include "base/Pitch.h"
#include <algorithm>
#include <memory>
#include <set>
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int rankIn(const std::set<double> &s, double v) { return int(std::distance(s.begin(), s.lower_bound(v))); }
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc; int nsc = A.pick(32, 300);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 733 + q);
        struct C { double fs; int dec; }; C c = r.of(std::vector<C>{{5000, 1}, {5000, 1}, {4800, 1}, {9600, 2}, {20000, 4}, {40000, 8}});
        float tune = r.of(std::vector<float>{440, 440, 432, 415.3f, 466.2f, 452, 392}); double fs = c.fs / c.dec;
        GetKeyMode::Config cfg(c.fs, tune); cfg.decimationFactor = c.dec; cfg.frameOverlapFactor = r.of(VI{1, 8, 2, 16, 4});
        bool wide = q % 4 == 3; int wantB = r.in(1, 7), wantW = r.in(1, 9); if (wide) { wantB = r.in(8, 34); wantW = r.in(6, 24); c = r.of(std::vector<C>{{5000, 1}, {4800, 1}}); fs = c.fs; cfg = GetKeyMode::Config(c.fs, tune); cfg.decimationFactor = 1; cfg.frameOverlapFactor = 8; }
        // the windows are given in seconds; a frame lasts N / fs
        ChromaConfig cc; cc.FS = fs; cc.min = Pitch::getFrequencyForPitch(48, 0, tune); cc.max = Pitch::getFrequencyForPitch(96, 0, tune);
        cc.BPO = 36; cc.CQThresh = 0.0054; cc.normalise = MathUtilities::NormaliseUnitMax;
        Chromagram chroma(cc); int N = chroma.getFrameSize();
        cfg.hpcpAverage = (wantB - 0.5) * N / fs; cfg.medianAverage = (wantW - 0.5) * N / fs;
        int no = wide ? 1 : r.in(1, 2); std::vector<std::unique_ptr<GetKeyMode>> g(no), twin(no); std::vector<std::unique_ptr<Decimator>> d(no); std::vector<std::vector<VD>> hist(no);
        Ev("Scenario").i("n", sc.n).i("B", wantB).i("W", wantW).end();
        for (int k = 0; k < no; ++k) { g[k].reset(new GetKeyMode(cfg)); d[k].reset(new Decimator(N * c.dec, c.dec));
            Ev("New").i("k", k).i("block", g[k]->getBlockSize()).i("hop", g[k]->getHopSize()).i("frame", N).i("dec", c.dec).i("overlap", cfg.frameOverlapFactor).end(); }
        int root = r.in(48, 60);
        for (int op = 0; op < (wide ? A.pick(44, 60) : A.pick(16, 30)); ++op) {
            int k = r.in(0, no - 1), L = N * c.dec;
            std::unique_ptr<double[]> x(new double[L]); VD keep;
            int kind = r.in(0, 9); if (r.chance(1, 4)) root = r.in(48, 71);
            VI notes; if (kind <= 3) notes = VI{root, root + 4, root + 7}; else if (kind <= 5) notes = VI{root, root + 3, root + 7}; else if (kind == 6) notes = VI{r.in(48, 90)}; else if (kind == 7) notes = VI{root, root + 2, root + 4, root + 5, root + 7, root + 9, root + 11};
            double amp = r.of(VD{1, 0.01, 100});
            for (int i = 0; i < L; ++i) { double v = 0; for (int m : notes) v += sin(2 * M_PI * Pitch::getFrequencyForPitch(m, 0, tune) * i / c.fs + m); if (kind == 8) v = r.unit() - 0.5; x[i] = amp * v; }
            keep.assign(x.get(), x.get() + L);
            int key = g[k]->process(x.get()); double *st = g[k]->getKeyStrengths();
            if (VD(x.get(), x.get() + L) != keep) Ev("InputModified").end();
            VD s(st, st + 24); std::set<double> v(s.begin(), s.end()); VI rank; for (double z : s) rank.push_back(rankIn(v, z));
            std::unique_ptr<double[]> dec(new double[N]); d[k]->process(x.get(), dec.get());
            double *ch = chroma.process(dec.get());
            Ev("Process").i("k", k).a("chroma", scaledV(ch, 36, 2000)).a("rank", rank).a("s", scaledV(s.data(), 24, 10000)).i("key", key).end();
            hist[k].push_back(keep);
        }
        // a new object with the same settings given the same blocks
        int k = r.in(0, no - 1); GetKeyMode twin2(cfg); int key = -1; bool any = false;
        for (auto &b : hist[k]) { std::unique_ptr<double[]> x(new double[b.size()]); std::copy(b.begin(), b.end(), x.get()); key = twin2.process(x.get()); any = true; }
        if (any) { VD a(twin2.getKeyStrengths(), twin2.getKeyStrengths() + 24), b(g[k]->getKeyStrengths(), g[k]->getKeyStrengths() + 24); Ev("Twin").i("k", k).i("key", key).b1("same", a == b).end(); }
    }
    fclose(Out::file());
    return 0;
}
