#include "trace.h"
#include "dsp/wavelet/Wavelet.h"
typedef std::vector<int> VI; typedef std::vector<double> VD;
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s;
    for (int q = 0; q <= Wavelet::LastType; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 5501 + q); Ev("Scenario").i("n", s.n).end();
        VD l, h;
        for (int a = 0; a < 3; ++a) { // into empty vectors, then into whatever the vectors hold
            int t = a == 1 ? r.in(0, (int)Wavelet::LastType) : q, before = (int)l.size();
            if (a == 2 && r.chance(1, 2)) { l.resize(r.in(0, 300), 3.0); h.resize(r.in(0, 300), 4.0); }
            Wavelet::createDecompositionFilters((Wavelet::Type)t, l, h); (void)before;
            Ev("Table").i("type", t).s("name", Wavelet::getWaveletName((Wavelet::Type)t)).a("l", scaledV(l.data(), (int)l.size(), 1e8)).a("h", scaledV(h.data(), (int)h.size(), 1e8)).end();
        }
    }
    if (s.begin()) { Ev("Scenario").i("n", s.n).end(); for (int t = Wavelet::LastType + 1; t < 64; ++t) Ev("Unknown").i("type", t).s("name", Wavelet::getWaveletName((Wavelet::Type)t)).end(); }
    return 0;
}
