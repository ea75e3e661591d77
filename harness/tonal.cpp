#include "trace.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include <memory>
#include <new>
typedef std::vector<int> VI; typedef std::vector<double> VD;
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen sc; int n = A.pick(200, 2500);
    for (int q = 0; q < n; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 613 + q); Ev("Scenario").i("n", sc.n).end();
        TonalEstimator te, te2;
        for (int o = 0; o < 3; ++o) {
            ChromaVector c; VI in; int kind = r.in(0, 4);
            for (int i = 0; i < 12; ++i) { int v = kind == 0 ? 0 : kind == 1 ? (i == o) : kind == 2 ? r.in(-100, 100) : r.in(0, 100) * r.in(0, 1); in.push_back(v); c[i] = v; }
            TCSVector t = (r.chance(1, 2) ? te : te2).transform2TCS(c); VI out; for (int i = 0; i < 6; ++i) out.push_back(scaled(t[i], 1000));
            Ev("Transform").a("c", in).a("t", out).i("mag", scaled(t.magnitude(), 10)).end();
            double amp = r.of(VD{1, 1e-4, 1000}); for (int i = 0; i < 12; ++i) c[i] = in[i] * amp;
            c.normalizeL1(); VI nv; for (int i = 0; i < 12; ++i) nv.push_back(scaled(c[i], 10000));
            t = te.transform2TCS(c); VI nt; for (int i = 0; i < 6; ++i) nt.push_back(scaled(t[i], 10000));
            Ev("Normalised").a("c", in).a("out", nv).a("t", nt).end();
        }
        int ng = r.in(1, 2); std::vector<TCSGram *> g; std::vector<std::unique_ptr<char[]>> mem;
        for (int k = 0; k < ng; ++k) { // an object's behaviour may not depend on what its storage held before
            mem.emplace_back(new char[sizeof(TCSGram)]); double junk = r.of(VD{123.75, -7e9, 1e300}); for (size_t b = 0; b + 8 <= sizeof(TCSGram); b += 8) memcpy(mem.back().get() + b, &junk, 8);
            g.push_back(new (mem.back().get()) TCSGram); Ev("NewGram").i("g", k).end();
        }
        std::vector<VI> pal; for (int p = 0; p < 3; ++p) { VI v; for (int i = 0; i < 6; ++i) v.push_back(r.in(-100, 100)); pal.push_back(v); }
        int cw = -1; std::unique_ptr<ChangeDetectionFunction> cd;
        for (int op = 0; op < A.pick(40, 60); ++op) {
            int k = r.in(0, ng - 1), w = r.in(0, 19); TCSGram &G = *g[k];
            if (w < 10) { if (r.chance(1, 4)) for (int i = 0; i < 6; ++i) pal[0][i] = r.in(-100, 100); const VI &v = pal[r.chance(2, 3) ? 0 : r.in(0, 2)]; TCSVector t; for (int i = 0; i < 6; ++i) t[i] = v[i]; G.addTCSVector(t); Ev("Add").i("g", k).a("v", v).i("size", G.getSize()).end(); }
            else if (w == 10) { int d = r.of(VI{0, 4, 10, 93, 4000, 7}); G.setFrameDuration(d / 4.0); Ev("SetDuration").i("g", k).i("d4", d).end(); }
            else if (w == 11) { if (r.chance(1, 4)) { G.clear(); Ev("Clear").i("g", k).end(); } else { G.reserve(r.in(0, 50)); } }
            else if (w < 15) { int i = r.in(-2, G.getSize() + 1); TCSVector t; for (int j = 0; j < 6; ++j) t[j] = 55; G.getTCSVector(i, t); VI v; for (int j = 0; j < 6; ++j) v.push_back(exactInt(t[j])); Ev("Get").i("g", k).i("i", i).a("v", v).end(); }
            else if (w < 17) { VI t; for (int i = 0; i < G.getSize(); ++i) t.push_back(int(std::max(-2000000000L, std::min(2000000000L, G.getTime(i))))); Ev("Times").i("g", k).a("t", t).i("dur", int(std::max(-2000000000L, std::min(2000000000L, G.getDuration())))).i("size", G.getSize()).end(); }
            else { if (cw < 0 || r.chance(1, 2)) { cw = r.of(VI{0, 1, 1, 2, 3, 5, 10, 16, 20}); ChangeDFConfig c; c.smoothingWidth = cw; cd.reset(new ChangeDetectionFunction(c)); }
                ChangeDistance d = cd->process(G); VI v; for (size_t i = 0; i < d.size(); ++i) v.push_back(scaled(d[i], 10)); Ev("Change").i("g", k).i("w", cw).a("d", v).end(); }
        }
        if (q % 50 == 17) { // a long gram
            TCSGram &G = *g[0]; int total = r.in(1050, 1500);
            while (G.getSize() < total) { VI v; for (int i = 0; i < 6; ++i) v.push_back(r.chance(1, 8) ? r.in(-100, 100) : pal[0][i]); TCSVector t; for (int i = 0; i < 6; ++i) t[i] = v[i]; G.addTCSVector(t); Ev("Add").i("g", 0).a("v", v).i("size", G.getSize()).end(); }
            for (int o = 0; o < 20; ++o) { int i = r.in(total - 500, total + 2); TCSVector t; G.getTCSVector(i, t); VI v; for (int j = 0; j < 6; ++j) v.push_back(exactInt(t[j])); Ev("Get").i("g", 0).i("i", i).a("v", v).end(); }
            VI t; for (int i = 0; i < G.getSize(); ++i) t.push_back(int(std::max(-2000000000L, std::min(2000000000L, G.getTime(i))))); Ev("Times").i("g", 0).a("t", t).i("dur", int(std::max(-2000000000L, std::min(2000000000L, G.getDuration())))).i("size", G.getSize()).end();
            int w = r.in(1, 2); ChangeDFConfig c; c.smoothingWidth = w; ChangeDetectionFunction f(c); ChangeDistance d = f.process(G); VI v; for (size_t i = 0; i < d.size(); ++i) v.push_back(scaled(d[i], 10)); Ev("Change").i("g", 0).i("w", w).a("d", v).end();
        }
        for (auto *p : g) p->~TCSGram();
    }
    fclose(Out::file());
}
