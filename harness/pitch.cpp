#include "trace.h"
#include "base/Pitch.h"
static void image(Ev &e, double u, const char *ex, const char *man) { int k; double m = frexp(u, &k); e.i(ex, k - 1).i(man, u > 0 ? scaled(2 * m, 1e8) : VP_NAN); }
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; int n = A.pick(64, 1600);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 440011 + q); Ev("Scenario").i("n", s.n).end(); bool sweep = (q / 8) % 2 == 0; float concert = r.chance(1, 2) ? 440 : r.of(std::vector<float>{432, 415.3f, 466.16f, 220, 1, 880, 445.5f, 20000});
        for (int a = 0; a < A.pick(60, 128); ++a) {
            int p = sweep ? a * 2 + r.in(0, 1) : r.in(0, 127); if (p > 127) p = r.in(0, 127); static const std::vector<int> edge{-50000, -49990, 49990, 49999, 50000, 0, 0, 1, -1, 5, -5, 10, -10, 49000}; int c = r.chance(1, 2) ? r.of(edge) : r.in(-50000, 50000); if (r.chance(1, 10)) c = r.in(-100000, 300000);
            float f = (c == 0 && concert == 440 && r.chance(1, 2)) ? Pitch::getFrequencyForPitch(p) : concert == 440 && r.chance(1, 2) ? Pitch::getFrequencyForPitch(p, c / 1000.0f) : Pitch::getFrequencyForPitch(p, c / 1000.0f, concert);
            { Ev e("Frequency"); e.i("p", p).i("c", c); image(e, double(f) / concert, "ex", "man"); e.end(); }
            if (p <= 115) { float g = Pitch::getFrequencyForPitch(p + 12, c / 1000.0f, concert); Ev e("Octave"); image(e, double(f) / concert, "ex", "man"); image(e, double(g) / concert, "exb", "manb"); e.end(); }
            if (100000 * p + c > -49000) { float rc = 12345; int rp = concert == 440 && r.chance(1, 2) ? Pitch::getPitchForFrequency(f, &rc) : Pitch::getPitchForFrequency(f, &rc, concert); int rp0 = Pitch::getPitchForFrequency(f, 0, concert); Ev("Pitch").i("p", p).i("c", c).i("rp", rp).i("rc", scaled(rc, 1000)).b1("half", rc < 50.0f).i("rp0", rp0).end(); }
            { float u = float(pow(2.0, r.unit() * 10.5 - 5.7)), rc = 12345, h = concert * u; int rp = Pitch::getPitchForFrequency(h, &rc, concert); Ev e("Named"); e.i("rp", rp).i("rc", scaled(rc, 1000)).b1("half", rc < 50.0f); image(e, double(h) / concert, "ex", "man"); e.end(); }
        }
    }
    return 0;
}
