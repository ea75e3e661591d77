#include "trace.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/rateconversion/Decimator.h"
#include <algorithm>
#include <memory>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<float> VF;

// the decimation of one block after another, by Decimator objects of our own
struct Dec {
    int inc, f; std::unique_ptr<Decimator> a, b;
    Dec(int i, int ff) : inc(i), f(ff) { reset(); }
    void reset() { a.reset(f > 1 ? new Decimator(inc, std::min(f, 8)) : 0); b.reset(f > 8 ? new Decimator(inc / 8, f / 8) : 0); }
    VF run(const VF &x) {
        if (!a) return x;
        VF y(inc / std::min(f, 8)); a->process(x.data(), y.data());
        if (!b) return y;
        VF z(inc / f); b->process(y.data(), z.data()); return z;
    }
};
static void pushes(Rng &r, int nops) {
    int f = r.of(VI{1, 2, 4, 8, 16, 32, 64}), inc = f * r.in(1, f > 8 ? 3 : 8);
    if (f > 8 && (inc / 8) % (f / 8)) inc = f;
    Ev("NewBuffer").i("per", inc / f).end();
    std::unique_ptr<DownBeat> d(new DownBeat(8000, f, inc)); Intern in; Dec go(inc, f), fresh(inc, f);
    bool sharp = r.chance(1, 2);
    for (int o = 0; o < nops; ++o) {
        int what = r.in(0, 15);
        if (what == 0) { d->resetAudioBuffer(); fresh.reset(); Ev("ResetBuffer").end(); continue; }
        if (what <= 3) {
            size_t n = 12345; const float *p = d->getBufferedAudio(n);
            VI ids; for (size_t i = 0; i < n; ++i) ids.push_back(in.id(p[i]));
            Ev("Buffered").i("n", (long long)n).a("ids", ids).end(); continue;
        }
        VF x(inc); for (float &v : x) v = sharp ? (r.chance(1, 20) ? 1.f : 0.f) : float(r.in(-9, 9));
        VF keep = x; d->pushAudioBlock(x.data());
        if (x != keep) Ev("InputModified").end();
        VI a, b; for (float v : go.run(x)) a.push_back(in.id(v)); for (float v : fresh.run(x)) b.push_back(in.id(v));
        Ev("Push").a("go", a).a("fresh", b).end();
    }
}
static void find(Rng &r) {
    bool fine = r.chance(1, 6); int f = fine ? 16 : 4, inc = fine ? 512 : 64; float rate = fine ? 44100 : 2000; DownBeat d(rate, f, inc); // 20 increments of 16 (or 32) decimated samples a beat
    double step = fine ? 11 : 9; bool wide = r.chance(1, 8);
    int bpb = 4; Ev("NewFinder").b1("fine", fine).end();
    for (int c = 0; c < 4; ++c) {
        if (r.chance(2, 3)) { bpb = wide ? r.in(7, 33) : r.in(0, 6); d.setBeatsPerBar(bpb); Ev("SetBPB").i("v", bpb).end(); }
        bool even = r.chance(3, 4); int nb = r.chance(1, 6) ? r.in(0, 3) : r.in(3, wide && c == 0 ? (fine ? 100 : 400) : 22), nn = std::max(0, nb - 1);
        VI notes(nn); int ts = bpb ? bpb : 4, ph = r.in(0, 5), kind = r.in(0, 2);
        for (int i = 0; i < nn; ++i) notes[i] = kind == 0 ? r.in(0, 5) : kind == 1 ? 1 + ((i + ph) / ts) % 5 : 1 + ((i + ph) / ts * 2 + (r.chance(1, 5) ? 1 : 0)) % 5;
        VD beats(nb); double at = r.chance(1, 2) ? 0 : r.of(VD{2, 0.5, 1.25, 3.75});
        for (int i = 0; i < nb; ++i) { beats[i] = at; at += even ? 20 : r.chance(1, 3) ? r.in(4, 120) / 4.0 : r.in(1, 30); }
        size_t total = size_t(nb ? beats.back() * inc / f : 0) + r.in(1, 50);
        bool cut = r.chance(1, 6); if (cut) total = total / 2 + 1;
        if (r.chance(1, 20)) total = 0;
        std::unique_ptr<float[]> audio(new float[total]); for (size_t i = 0; i < total; ++i) audio[i] = 0;
        for (int i = 0; i < nn; ++i) { size_t s = size_t(beats[i] * inc / f), e = size_t(beats[i + 1] * inc / f);
            for (size_t k = s; k < e && k < total; ++k) audio[k] = notes[i] == 0 ? 0.f : float(0.5 * sin(2 * M_PI * (1 + step * notes[i]) * (k - s) / 500.0)); }
        VI before; if (r.chance(1, 4)) before = VI{5, 1};
        VI db = before; VD kb = beats; d.findDownBeats(audio.get(), total, beats, db);
        if (kb != beats) Ev("InputModified").end();
        if (r.chance(1, 4)) { std::vector<float> blk(inc, 0.25f); d.pushAudioBlock(blk.data()); d.resetAudioBuffer(); }   // the buffer is another matter
        VD sd{-1}; d.getBeatSD(sd); VI s6; for (size_t i = 1; i < sd.size(); ++i) s6.push_back(scaled(sd[i], 1000000));
        // a new object, and the same instants counted in increments of another size
        int m = r.of(VI{1, 2, 4}); VD ob(beats); for (double &v : ob) v /= m;
        DownBeat other(rate, f, inc * m); other.setBeatsPerBar(bpb); VI db2; other.findDownBeats(audio.get(), total, ob, db2);
        VD sd2{-1}; other.getBeatSD(sd2);
        VI mine(db.begin() + before.size(), db.end());
        Ev("Find").i("beats", nb).b1("audio", total > 0).b1("notesKnown", even && !cut).a("notes", notes).a("sd", s6).a("before", before).a("out", db)
            .b1("kept", sd.size() && sd[0] == -1).b1("same", db2 == mine && sd2 == sd).end();
    }
}
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    Scen sc; int nsc = A.pick(240, 2400);
    for (int q = 0; q < nsc; ++q) {
        if (!sc.begin()) continue;
        Rng r(A.seed * 727 + q);
        Ev("Scenario").i("n", sc.n).end();
        if (q % 2) find(r); else pushes(r, A.pick(r.chance(1, 4) ? 90 : 30, 120));
    }
    fclose(Out::file());
    return 0;
}
