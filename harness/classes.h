// The processing classes as machines: settings to choose from, calls named by a number, resets.
#pragma once
#include "trace.h"
#include "base/KaiserWindow.h"
#include "base/Pitch.h"
#include "base/SincWindow.h"
#include "base/Window.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/transforms/DCT.h"
#include "dsp/transforms/FFT.h"
#include "dsp/wavelet/Wavelet.h"
#include "maths/Correlation.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/MathUtilities.h"
#include "maths/MedianFilter.h"
namespace {
#include "maths/Polyfit.h"
}
extern "C" {
#include "maths/pca/pca.h"
}
#include "f2cio.h"
#include <iostream>
#include <ctime>
#include <functional>
#include <malloc.h>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<float> VF;
extern "C" time_t __wrap_time(time_t *t) { if (t) *t = 12345; return 12345; }
static bool g_mod = false;
enum { BAD = 1000000 };   // inputs called from here on hold bad values
static VD genBad(int in, int n) {
    Rng r(uint64_t(in) * 104729 + n); VD v(n); static const double B[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324, 1e-310, 1e39, -0.0, 1e17, -3e9, 1e300}; int kind = r.in(0, 3), b = r.in(0, 11), c = r.in(0, 11), at = n ? r.in(0, n - 1) : 0;
    for (int i = 0; i < n; ++i) v[i] = kind == 0 ? B[b] : kind == 1 ? (i == at ? B[b] : r.unit() - 0.5) : kind == 2 ? (i % 2 ? B[b] : B[c]) : r.chance(1, 4) ? B[r.in(0, 11)] : r.unit() - 0.5;
    return v;
}
static bool sameBits(const VD &a, const VD &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static VD gen(int in, int n) { // the input called "in", of length n
    if (in >= BAD) return genBad(in, n);
    Rng r(uint64_t(in) * 7919 + n * 13 + 5); VD v(n); int kind = in % 5, p = r.in(2, 37), at = n ? r.in(0, n - 1) : 0; double ph = r.unit();
    for (int i = 0; i < n; ++i) v[i] = kind == 0 ? r.unit() - 0.5 : kind == 1 ? sin(ph + i * 2 * M_PI / (p + 0.3)) : kind == 2 ? (i == at ? 1 : 0) : kind == 3 ? ((i / p) % 2 ? 0.75 : -0.25) : r.in(-3, 3) / 4.0;
    return v;
}
static VF genF(int in, int n) { VD v = gen(in, n); return VF(v.begin(), v.end()); }
template <class T> struct InBuf { std::vector<T> keep; std::unique_ptr<T[]> p; template <class V> InBuf(const V &v) : keep(v.begin(), v.end()), p(new T[v.size() + 1]) { std::copy(keep.begin(), keep.end(), p.get()); } operator const T *() const { return p.get(); } T *rw() { return p.get(); } ~InBuf() { if (keep.size() && memcmp(p.get(), keep.data(), keep.size() * sizeof(T))) g_mod = true; } };
typedef InBuf<double> In; typedef InBuf<float> InF;
static void app(VD &o, const double *p, int n) { o.insert(o.end(), p, p + n); }
struct Machine { std::function<VD(int)> call; std::function<void()> reset; };
typedef std::function<Machine(int)> Factory;
template <class T> std::shared_ptr<T> own(T *p) { return std::shared_ptr<T>(p); }
static Filter::Parameters coefs(int s) { Filter::Parameters p; switch (s % 5) { case 0: p.a = VD{1, -0.5949, 0.2348}; p.b = VD{0.16, 0.32, 0.16}; break; case 1: p.b = VD{0.25, 0.5, -0.25, 1}; break; case 2: p.a = VD{1}; p.b = VD{2}; break; case 3: p.a = VD{1, -0.5}; p.b = VD{1, 0}; break; default: p.a = VD{1, -0.2, 0.3, -0.1}; p.b = VD{0.5, 0.1, 0.2, 0.3}; } return p; }
static double LA[3] = {1, -0.5949, 0.2348}, LB[3] = {0.16, 0.32, 0.16}, LB2[3] = {0.3, 0.1, 0.05};
struct Class { const char *name; int settings; Factory make; };
static std::vector<Class> classes() {
    std::vector<Class> c;
    c.push_back({"Filter", 5, [](int s) { auto o = own(new Filter(coefs(s))); Machine m; m.call = [o](int in) { int n = in % 11 == 0 ? 0 : 1 + in % 40; VD out(n + 1, 0); { In x(gen(in, n)); o->process(x, out.data(), n); } out.resize(n); return out; }; m.reset = [o] { o->reset(); }; return m; }});
    c.push_back({"Decimator", 6, [](int s) { static const int L[] = {64, 64, 64, 128, 32, 32}, D[] = {4, 2, 8, 4, 4, 2}; int len = L[s], d = D[s]; auto o = own(new Decimator(len, d)); Machine m; m.call = [=](int in) { VD out(len / d); if (in % 2) { InF x(genF(in, len)); VF f(len / d); o->process(x, f.data()); out.assign(f.begin(), f.end()); } else { In x(gen(in, len)); o->process(x, out.data()); } return out; }; m.reset = [o] { o->resetFilter(); }; return m; }});
    c.push_back({"DecimatorB", 5, [](int s) { static const int L[] = {64, 64, 64, 128, 32}, D[] = {4, 2, 8, 4, 4}; int d = D[s], len = L[s]; auto o = own(new DecimatorB(len, d)); Machine m; m.call = [=](int in) { VD out(len / d); if (in % 2) { InF x(genF(in, len)); VF f(len / d); o->process(x, f.data()); out.assign(f.begin(), f.end()); } else { In x(gen(in, len)); o->process(x, out.data()); } return out; }; return m; }});
    c.push_back({"Resampler", 11, [](int s) { static const int A[] = {2, 2, 1, 2, 3, 8, 1, 2, 2, 2, 2}, B[] = {3, 1, 3, 5, 2, 5, 1, 3, 3, 3, 4}; static const double S[] = {60, 60, 80, 60, 60}, W[] = {0.1, 0.05, 0.1, 0.2, 0.1}; auto o = own(s >= 6 && s < 10 ? new Resampler(A[s], B[s], S[s - 6], W[s - 6]) : new Resampler(A[s], B[s])); Machine m; m.call = [=](int in) { int n = in % 9 == 0 ? 0 : 1 + in * 7 % 90; VD out; { In x(gen(in, n)); if (in % 2) out = o->process(x, n); else { VD t(n * 3 + 2, 0); int k = o->process(x, t.data(), n); out.assign(t.begin(), t.begin() + k); } } out.push_back(o->getLatency()); return out; }; return m; }});
    c.push_back({"Resample", 1, [](int) { Machine m; m.call = [](int in) { static const int A[] = {1, 2, 3, 2, 5, 8}, B[] = {2, 1, 2, 3, 3, 5}; int n = in * 7 % 90; In x(gen(in, n)); return Resampler::resample(A[in % 6], B[in % 6], x, n); }; return m; }});
    c.push_back({"PhaseVocoder", 6, [](int s) { static const int Ns[] = {32, 32, 32, 16, 16, 64}, Hs[] = {8, 16, 32, 8, 4, 16}; int N = Ns[s], hop = Hs[s]; auto o = own(new PhaseVocoder(N, hop)); Machine m; m.call = [=](int in) { int h = N / 2 + 1; VD a(h), b(h), u(h), out; if (in % 3) { In x(gen(in, N)); o->processTimeDomain(x, a.data(), b.data(), u.data()); } else { In x(gen(in, h)), y(gen(in + 1, h)); o->processFrequencyDomain(x, y, a.data(), b.data(), u.data()); } app(out, a.data(), h); app(out, b.data(), h); app(out, u.data(), h); return out; }; m.reset = [o] { o->reset(); }; return m; }});
    c.push_back({"Window", 18, [](int s) { int n = s < 8 ? 12 : s < 16 ? 5 + 3 * (s - 8) : 12 + s - 15; auto o = own(new Window<double>(WindowType(s % 8), n)); auto q = own(new Window<float>(*own(new Window<float>(WindowType((s + 3) % 8), n + 1)))); Machine m; m.call = [=](int in) { VD out(n); { In x(gen(in, n)); o->cut(x, out.data()); } VF f = genF(in, n + 1); q->cut(f.data()); out.insert(out.end(), f.begin(), f.end()); return out; }; return m; }});
    c.push_back({"Kaiser", 6, [](int s) { static const double At[] = {40, 60, 40, 80, 40, 60}, Tw[] = {0.4, 0.4, 0.6, 0.6, 0.8, 0.8}; static const int SL[] = {13, 13, 9, 21, 13, 9}; static const double SP[] = {3, 5, 3, 5, 4, 4}; auto o = own(s % 2 ? new KaiserWindow(KaiserWindow::Parameters(KaiserWindow::parametersForTransitionWidth(At[s], Tw[s]))) : new KaiserWindow(KaiserWindow::byTransitionWidth(At[s], Tw[s]))); auto q = own(new SincWindow(SL[s], SP[s])); Machine m; m.call = [=](int in) { int n = o->getLength(), k = q->getLength(); VD out(n + k); In x(gen(in, n)), y(gen(in, k)); o->cut(x, out.data()); q->cut(y, out.data() + n); return out; }; return m; }});
    c.push_back({"FFT", 4, [](int s) { int n = s % 4 == 3 ? 12 : 8 << (s % 4); auto o = own(new FFT(n)); Machine m; m.call = [=](int in) { VD a(n), b(n), out; if (in % 5 == 0) { In x(gen(in, n)); o->process(in % 2, x, 0, a.data(), b.data()); } else { In x(gen(in, n)), y(gen(in + 1, n)); o->process(in % 2, x, y, a.data(), b.data()); } app(out, a.data(), n); app(out, b.data(), n); return out; }; return m; }});
    c.push_back({"FFTReal", 4, [](int s) { int n = s % 4 == 3 ? 12 : 8 << (s % 4); auto o = own(new FFTReal(n)); Machine m; m.call = [=](int in) { VD a(n), b(n), out; if (in % 3 == 0) { In x(gen(in, n)); o->forward(x, a.data(), b.data()); app(out, a.data(), n); app(out, b.data(), n); } else if (in % 3 == 1) { In x(gen(in, n)); o->forwardMagnitude(x, a.data()); app(out, a.data(), n); } else { In x(gen(in, n / 2 + 1)), y(gen(in + 1, n / 2 + 1)); o->inverse(x, y, a.data()); app(out, a.data(), n); } return out; }; return m; }});
    c.push_back({"DCT", 4, [](int s) { int n = 4 + 3 * s; auto o = own(new DCT(n)); Machine m; m.call = [=](int in) { VD a(n); In x(gen(in, n)); if (in % 4 == 0) o->forward(x, a.data()); else if (in % 4 == 1) o->inverse(x, a.data()); else if (in % 4 == 2) o->forwardUnitary(x, a.data()); else o->inverseUnitary(x, a.data()); return a; }; return m; }});
    c.push_back({"ConstantQ", 7, [](int s) { CQConfig k; k.FS = s == 1 ? 2100 : 2000; k.min = s == 2 ? 107 : s == 6 ? 120 : 100; k.max = s == 3 ? 700 : 400; k.BPO = s == 4 ? 7 : 12; k.CQThresh = s == 5 ? 0.02 : 0.0054; auto o = own(new ConstantQ(k)); o->sparsekernel(); Machine m; m.call = [=](int in) { int N = o->getFFTLength(), K = o->getK(); VD out; if (in % 2) { In x(gen(in, 2 * N)); double *p = o->process(x); app(out, p, 2 * K); } else { VD a(K), b(K); In x(gen(in, N)), y(gen(in + 1, N)); o->process(x, y, a.data(), b.data()); app(out, a.data(), K); app(out, b.data(), K); } return out; }; return m; }});
    c.push_back({"Chromagram", 8, [](int s) { ChromaConfig k; k.FS = s == 1 ? 2100 : 2000; k.min = s == 2 ? 107 : 100; k.max = s == 3 ? 800 : 400; k.BPO = s == 7 ? 24 : 12; k.CQThresh = s == 4 ? 0.02 : 0.0054; k.normalise = MathUtilities::NormaliseType(s == 5 ? 1 : s == 6 ? 2 : 0); auto o = own(new Chromagram(k)); int k_bpo = k.BPO; Machine m; m.call = [=](int in) { int N = o->getFrameSize(); VD out; double *p; if (in % 2) { In x(gen(in, N)); p = o->process(x); app(out, p, o->getK() ? k_bpo : 0); } else { In x(gen(in, N)), y(gen(in + 1, N)); p = o->process(x, y); app(out, p, o->getK() ? k_bpo : 0); } return out; }; return m; }});
    c.push_back({"MFCC", 7, [](int s) { MFCCConfig k(s == 1 ? 16000 : 8000); k.fftsize = s == 2 ? 512 : 256; k.nceps = s == 3 ? 12 : 9; k.want_c0 = s == 4; k.logpower = s == 5 ? 2 : 1; k.window = s == 6 ? HammingWindow : HanningWindow; auto o = own(new MFCC(k)); int n = k.nceps + k.want_c0, N = k.fftsize; Machine m; m.call = [=](int in) { VD a(n); if (in % 2) { In x(gen(in, N)); o->process(x, a.data()); } else { In x(gen(in, N / 2 + 1)), y(gen(in + 1, N / 2 + 1)); o->process(x, y, a.data()); } return a; }; return m; }});
    c.push_back({"DetectionFunction", 16, [](int s) { DFConfig k; k.frameLength = s == 10 || s == 15 ? 32 : 64; k.stepSize = s == 11 || s == 15 ? 16 : 32; k.DFType = s < 10 ? 1 + s % 5 : s == 12 ? 5 : s == 15 ? 3 : 4; k.dbRise = s == 12 ? 6 : 3; k.adaptiveWhitening = (s >= 5 && s < 10) || s == 13 || s == 14; k.whiteningRelaxCoeff = s == 13 ? 0.9 : s % 2 ? -1 : 0.99; k.whiteningFloor = s == 14 ? 0.3 : -1; int N = k.frameLength; auto o = own(new DetectionFunction(k)); Machine m; m.call = [=](int in) { VD out; if (in % 3) { In x(gen(in, N)); out.push_back(o->processTimeDomain(x)); } else { In x(gen(in, N / 2 + 1)), y(gen(in + 1, N / 2 + 1)); out.push_back(o->processFrequencyDomain(x, y)); } app(out, o->getSpectrumMagnitude(), N / 2 + 1); return out; }; return m; }});
    c.push_back({"PeakPicking", 8, [](int s) { PPickParams k; k.length = s == 1 ? 60 : 40; k.tau = 0.0116; k.alpha = s == 2 ? 2 : 9; k.cutoff = 0.3; k.LPOrd = 2; k.LPACoeffs = LA; k.LPBCoeffs = s == 7 ? LB2 : LB; k.WinT.pre = s == 3 ? 6 : 4; k.WinT.post = s == 4 ? 5 : 3; k.QuadThresh.a = s == 5 ? 0.01 : 0; k.QuadThresh.b = 0; k.QuadThresh.c = s == 6 ? 0.3 : 0.1; k.delta = s == 6 ? 0.05f : 0; int n = k.length; auto o = own(new PeakPicking(k)); Machine m; m.call = [=](int in) { VD x = gen(in, n); for (int i = 0; i < n; ++i) x[i] = fabs(x[i]) + (i % 9 == 0); VI on; o->process(x.data(), n, on); VD out(x); for (int v : on) out.push_back(v); return out; }; return m; }});
    c.push_back({"DFProcess", 8, [](int s) { DFProcConfig k; k.length = s == 1 ? 47 : 40; k.LPOrd = 2; k.LPACoeffs = LA; k.LPBCoeffs = s == 7 ? LB2 : LB; k.winPre = s == 2 ? 5 : 4; k.winPost = s == 3 ? 4 : 3; k.AlphaNormParam = s == 4 ? 5 : 2; k.isMedianPositive = s == 5; k.delta = s == 6 ? 0.f : 0.1f; int n = k.length; auto o = own(new DFProcess(k)); Machine m; m.call = [=](int in) { VD x = gen(in, n), out(n); for (int i = 0; i < n; ++i) x[i] = fabs(x[i]) + (i % 7 == 0); o->process(x.data(), out.data()); return out; }; return m; }});
    c.push_back({"FiltFilt", 4, [](int s) { auto o = own(new FiltFilt(coefs(s == 2 ? 0 : s))); Machine m; m.call = [=](int in) { int n = 1 + in * 5 % 70; VD out(n); In x(gen(in, n)); o->process(x, out.data(), n); return out; }; return m; }});
    c.push_back({"KeyMode", 6, [](int s) { GetKeyMode::Config k(s == 1 ? 5600 : 5000, s == 2 ? 432.f : 440.f); k.decimationFactor = 1; k.frameOverlapFactor = s == 3 ? 2 : 1; k.hpcpAverage = s == 4 ? 2 : 1; k.medianAverage = s == 5 ? 3 : 1.5; auto o = own(new GetKeyMode(k)); Machine m; m.call = [=](int in) { int n = o->getBlockSize(); VD out; { VD v = gen(in, n); In x(v); out.push_back(o->process(x.rw())); } app(out, o->getKeyStrengths(), 24); return out; }; return m; }});
    c.push_back({"TempoTrack", 4, [](int s) { TTParams P; P.winLength = s == 1 ? 512 : 256; P.lagLength = P.winLength / 4; P.alpha = s == 2 ? 2 : 9; P.LPOrd = 2; P.LPACoeffs = LA; P.LPBCoeffs = LB; P.WinT.pre = s == 3 ? 6 : 8; P.WinT.post = 7; int lag = P.lagLength; auto o = own(new TempoTrack(P)); Machine m; m.call = [=](int in) { int n = lag * (3 + in % 6) + in % 13, p = 8 + in * 3 % lag; VD d = gen(in / 5 * 5, n), t; for (int i = 0; i < n; ++i) d[i] = fabs(d[i]) * (in % 3) + (i % p == 0 ? 15 : 0); VI b = o->process(d, &t); VD out(b.begin(), b.end()); out.insert(out.end(), t.begin(), t.end()); return out; }; return m; }});
    c.push_back({"TempoTrackV2", 3, [](int s) { auto o = own(new TempoTrackV2(s == 1 ? 22050 : 44100, s == 2 ? 441 : 512)); Machine m; m.call = [=](int in) { int n = 700 + in * 31 % 400, p = 15 + in * 3 % 40; VD d = gen(in / 5 * 5, n), bp(n, 0), te, be, out; for (int i = 0; i < n; ++i) d[i] = fabs(d[i]) * (in % 3) + (i % p == 0 ? 5 : 0); VD kd = d; if (in % 2) o->calculateBeatPeriod(d, bp, te); else o->calculateBeatPeriod(d, bp, te, 90 + in % 60, in % 4 == 0); VD kb = bp; o->calculateBeats(d, bp, be); if (!sameBits(d, kd) || !sameBits(bp, kb)) g_mod = true; out = bp; out.insert(out.end(), te.begin(), te.end()); out.insert(out.end(), be.begin(), be.end()); return out; }; return m; }});
    c.push_back({"DownBeat", 3, [](int s) { auto o = own(new DownBeat(s == 2 ? 3000 : 2000, 4, 64)); if (s == 1) o->setBeatsPerBar(3); Machine m; m.call = [=](int in) { int nb = 4 + in % 9; VD beats; for (int i = 0; i < nb; ++i) beats.push_back(i * 20); VD kb = beats; int len = nb * 20 * 16; VF a(len); for (int i = 0; i < len; ++i) { int beat = i / 320; a[i] = float(0.5 * sin((1 + (beat + in) % 4) * 0.05 * i) + 0.01 * (in % 3)); } VI db; VD sd; { InF x(a); o->findDownBeats(x, len, beats, db); } if (!sameBits(beats, kb)) g_mod = true; o->getBeatSD(sd); VD out(db.begin(), db.end()); out.insert(out.end(), sd.begin(), sd.end()); return out; }; return m; }});
    c.push_back({"DownBeatPush", 6, [](int s) { static const int F[] = {4, 4, 8, 4, 16, 64}; auto o = own(new DownBeat(s == 1 ? 44100 : 22050, F[s], s == 3 ? 128 : 64)); int inc = s == 3 ? 128 : 64; Machine m; m.call = [=](int in) { { InF x(genF(in, inc)); o->pushAudioBlock(x); } size_t n = 0; const float *p = o->getBufferedAudio(n); return VD(p, p + n); }; return m; }});
    c.push_back({"Tonal", 3, [](int s) { auto t = own(new TonalEstimator()); ChangeDFConfig k; k.smoothingWidth = 3 + 2 * s; auto o = own(new ChangeDetectionFunction(k)); Machine m; m.call = [=](int in) { TCSGram g; int n = 6 + in % 9; VD out; for (int i = 0; i < n; ++i) { ChromaVector v(12); VD x = gen(in + i, 12); for (int j = 0; j < 12; ++j) v[j] = fabs(x[j]) + 0.01; TCSVector q = t->transform2TCS(v); g.addTCSVector(q); for (int j = 0; j < 6; ++j) out.push_back(q[j]); } ChangeDistance d = o->process(g); for (size_t i = 0; i < d.size(); ++i) out.push_back(d[i]); return out; }; return m; }});
    c.push_back({"Distance", 1, [](int) { auto a = own(new Correlation()); auto b = own(new CosineDistance()); auto k = own(new KLDivergence()); auto q = own(new BeatSpectrum()); Machine m; m.call = [=](int in) { int n = 2 + in % 13; VD x = gen(in, n), y = gen(in + 1, n), kx = x, ky = y, out(n); { In z(x); a->doAutoUnBiased(z.rw(), out.data(), n); } out.push_back(b->distance(x, y)); VD v1(n), v2(n); for (int i = 0; i < n; ++i) { v1[i] = 1 + fabs(x[i]); v2[i] = 1 + fabs(y[i]); } out.push_back(k->distanceGaussian(x, v1, y, v2)); out.push_back(k->distanceDistribution(v1, v2, in % 2)); std::vector<VD> M; for (int i = 0; i < n; ++i) M.push_back(gen(in + i, 4)); VD s = q->process(M); out.insert(out.end(), s.begin(), s.end()); if (!sameBits(x, kx) || !sameBits(y, ky)) g_mod = true; return out; }; return m; }});
    c.push_back({"Median", 6, [](int s) { auto o = own(new MedianFilter<double>(s < 3 ? 7 : s < 5 ? 4 : 1, s % 3 == 0 ? 50.f : s % 3 == 1 ? 30.f : 90.f)); Machine m; m.call = [=](int in) { VD out; for (double v : gen(in, 1 + in % 5)) { o->push(v); out.push_back(o->get()); } out.push_back(o->getAt(75.f)); return out; }; m.reset = [o] { o->reset(); }; return m; }});
    c.push_back({"MedianRun", 1, [](int) { Machine m; m.call = [](int in) { VD x = gen(in, in % 30), k = x; VD out = MedianFilter<double>::filter(1 + 2 * (in % 4), x); if (!sameBits(x, k)) g_mod = true; return out; }; return m; }});
    c.push_back({"Framer", 5, [](int s) { int f = s == 1 ? 9 : 6, h = s == 2 ? 5 : s == 3 ? 6 : 3, n = s == 4 ? 55 : 40; auto d = std::make_shared<VD>(gen(s, n)); auto k = std::make_shared<VD>(*d); auto o = own(new Framer()); o->configure(f, h); o->setSource(d->data(), n); Machine m; m.call = [=](int) { VD out(f); o->getFrame(out.data()); out.push_back(o->getMaxNoFrames()); if (!sameBits(*d, *k)) g_mod = true; return out; }; m.reset = [o] { o->resetCounters(); }; return m; }});
    c.push_back({"Segmenter", 5, [](int s0) { int s = s0 < 3 ? s0 : 0; ClusterMeltSegmenterParams p; p.featureType = s == 0 ? FEATURE_TYPE_UNKNOWN : s == 1 ? FEATURE_TYPE_CONSTQ : FEATURE_TYPE_CHROMA; p.nHMMStates = s0 == 3 ? 5 : 4; p.nclusters = s0 == 4 ? 2 : 3; p.histogramLength = 5; p.neighbourhoodLimit = 4; p.hopSize = 0.2; p.windowSize = 0.4; p.fmin = 100; p.fmax = s == 1 ? 800 : 600; p.nbins = 8; auto o = own(new ClusterMeltSegmenter(p)); o->initialise(8000); Machine m; m.call = [=](int in) { if (s == 0) { std::vector<VD> f; int n = 25 + in % 9; for (int i = 0; i < n; ++i) { VD v = gen(in + i / 9 * 7, 3), w = gen(in * 100 + i, 3); w = gen(5 * (in + i), 3); for (int j = 0; j < 3; ++j) v[j] = 3 * v[j] + w[j]; f.push_back(v); } o->setFeatures(f); } else { o->clear(); o->initialise(8000); int W = o->getWindowsize(); for (int i = 0; i < 16; ++i) { VD v = gen(5 * (in + i), W), w = gen(5 * (in + i / 5) + 1, W); for (int j = 0; j < W; ++j) v[j] = 0.1 * v[j] + w[j]; In x(v); o->extractFeatures(x, W); } } o->segment(); VD out; for (auto &g : o->getSegmentation().segments) { out.push_back(g.start); out.push_back(g.end); out.push_back(g.type); } return out; }; return m; }});
    c.push_back({"Maths", 1, [](int) { Machine m; m.call = [](int in) { int n = 2 + in % 11; VD x = gen(in, n), k = x, out; switch (in % 6) {
        case 0: { VD a, b; Wavelet::createDecompositionFilters(Wavelet::Type(in % 43), a, b); out = a; out.insert(out.end(), b.begin(), b.end()); break; }
        case 1: { VD t(n), y = gen(in + 1, n), cf(2); for (int i = 0; i < n; ++i) t[i] = i; out.push_back(TPolyFit::PolyFit2(t, y, cf)); out.insert(out.end(), cf.begin(), cf.end()); break; }
        case 2: { out.push_back(MathUtilities::median(x.data(), n)); out.push_back(MathUtilities::mean(x.data(), n)); double a, b; MathUtilities::getFrameMinMax(x.data(), n, &a, &b); out.push_back(a); out.push_back(b); MathUtilities::getAlphaNorm(x.data(), n, 3, &a); out.push_back(a); for (double v : x) { out.push_back(MathUtilities::princarg(v)); out.push_back(MathUtilities::mod(v, 3)); } VD y(x); out.push_back(MathUtilities::getMax(y, &a)); out.push_back(a); MathUtilities::circShift(y.data(), n, in % n); MathUtilities::normalise(y, MathUtilities::NormaliseType(in % 3)); out.insert(out.end(), y.begin(), y.end()); break; }
        case 3: { VD y = x; MathUtilities::adaptiveThreshold(y); out = y; y = MathUtilities::normaliseLp(x, 2); out.insert(out.end(), y.begin(), y.end()); break; }
        case 4: { float c; out.push_back(Pitch::getPitchForFrequency(100 + in % 500, &c, 440)); out.push_back(c); out.push_back(Pitch::getFrequencyForPitch(20 + in % 90, 0.25f, 440)); break; }
        default: { VD d = gen(in, n * 3); std::vector<double *> rows; for (int i = 0; i < n; ++i) rows.push_back(&d[i * 3]); pca_project(rows.data(), n, 3, 3); out = d; } }
        if (!sameBits(x, k)) g_mod = true; return out; }; return m; }});
    return c;
}
