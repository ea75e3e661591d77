// The machines of classes.h, and those whose state is only memory, as all().
#pragma once
#include "classes.h"
#include "thread/BlockAllocator.h"
extern "C" {
#include "hmm/hmm.h"
#include "dsp/segmentation/cluster_melt.h"
}
static std::vector<Class> all() {
    std::vector<Class> c = classes();
    c.push_back({"Allocator", 4, [](int s) { static const int Z[] = {1, 8, 24, 200}; auto o = own(new BlockAllocator(Z[s])); Machine m; m.call = [=](int in) { VD out; std::vector<void *> v; int n = in % 7 == 0 ? 1100 : 1 + in % 600; for (int i = 0; i < n; ++i) v.push_back(o->allocate()); if (in % 2) std::reverse(v.begin(), v.end()); for (void *p : v) o->deallocate(p); return out; }; return m; }});
    c.push_back({"AllocatorHeld", 2, [](int s) { auto o = own(new BlockAllocator(s ? 16 : 40)); Machine m; m.call = [=](int in) { VD out; for (int i = 0; i < in % 50; ++i) o->allocate(); return out; }; return m; }});
    c.push_back({"Hmm", 3, [](int s) { Machine m; m.call = [s](int in) { int L = 1 + s, T = 12 + in % 20, N = 2 + in % 3; VD d = gen(5 * in, T * L); std::vector<double *> x; for (int t = 0; t < T; ++t) { for (int j = 0; j < L; ++j) d[t * L + j] += (t / 4) % 2 * 3; x.push_back(&d[t * L]); } model_t *h = hmm_init(x.data(), T, L, N); if (in % 3) hmm_train(x.data(), T, h); VI q(T); viterbi_decode(x.data(), T, h, q.data()); hmm_close(h); return VD(q.begin(), q.end()); }; return m; }});
    c.push_back({"Cluster", 2, [](int s) { Machine m; m.call = [s](int in) { int n = 30 + in % 20, k = 4; VD h = gen(5 * in, n * k), b{1, 0.7, 0.5}; for (double &v : h) v = fabs(v) + 0.1; VI q(n); for (int i = 0; i < n; ++i) q[i] = i % (3 + s); cluster_melt(h.data(), k, n, b.data(), 3, 3 + s, 1 + in % 9, q.data()); return VD(q.begin(), q.end()); }; return m; }});
    c.push_back({"SegmenterUnused", 6, [](int s) { ClusterMeltSegmenterParams p; static const feature_types F[] = {FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC}; p.featureType = F[s % 3]; p.fmax = 3000; auto o = own(new ClusterMeltSegmenter(p)); o->initialise(s < 3 ? 11025 : 44100); Machine m; m.call = [=](int in) { int W = o->getWindowsize(); VD x = gen(5 * in, W); o->extractFeatures(x.data(), W); if (in % 3 == 0) o->segment(); o->clear(); o->initialise((s < 3) == (in % 2) ? 44100 : 16000); return VD(); }; return m; }});
    c.push_back({"Pca", 3, [](int s) { Machine m; m.call = [s](int in) { int n = 5 + in % 9, k = 2 + s; std::vector<double *> x; for (int i = 0; i < n; ++i) { double *v = new double[k]; VD d = gen(5 * (in + i), k); std::copy(d.begin(), d.end(), v); x.push_back(v); } pca_project(x.data(), n, k, 1 + s); VD out; for (double *v : x) { out.push_back(v[0]); delete[] v; } return out; }; return m; }});
    c.push_back({"WindowAssigned", 4, [](int s) { auto o = own(new Window<double>(HanningWindow, 16 << s)); Machine m; m.call = [=](int in) { Window<double> w(in % 2 ? HammingWindow : BlackmanWindow, 8 + in % 60), v(w); *o = v; *o = *o; return o->getWindowData(); }; return m; }});
    c.push_back({"KernelAgain", 3, [](int s) { CQConfig q; q.FS = 8000; q.min = 400 + 100 * s; q.max = 1600; q.BPO = 6; q.CQThresh = 0.0054; auto o = own(new ConstantQ(q)); Machine m; m.call = [=](int) { o->sparsekernel(); return VD(1, o->getK()); }; return m; }});
    c.push_back({"Rejected", 6, [](int s) { Machine m; m.call = [s](int) { int n = 0; for (int i = 0; i < 2; ++i) try { Filter::Parameters p; if (s % 3 == 0) { p.b = VD(); p.a = VD(); } else { p.a = VD(3, 1); p.b = VD(s % 3 == 1 ? 2 : 4, 1); } if (s < 3) Filter f(p); else FiltFilt f(p); } catch (...) { ++n; } try { FFTReal f(2 * s + 1); } catch (...) { ++n; } return VD(1, n); }; return m; }});
    return c;
}
