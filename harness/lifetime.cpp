// What each object holds: every block of memory acquired on an object's behalf is accounted to it.
#include <cstddef>
#include <cstdint>
#include <new>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
namespace ledger {
enum { N = 1 << 18, OWNERS = 64 };
struct Slot { void *p; size_t size; int owner; char kind; };
static Slot tab[N]; static int owner = 0, mismatches = 0; static long blocks[OWNERS], bytes[OWNERS];
static const void *GONE = (void *)1;
static size_t at(void *p) { return (size_t(uintptr_t(p)) >> 4) * 0x9E3779B97F4A7C15ull >> 46 & (N - 1); }
static void add(void *p, size_t n, char kind) {
    if (!p || !owner) return;
    for (size_t i = at(p), k = 0; k < N; ++k, i = (i + 1) & (N - 1)) if (!tab[i].p || tab[i].p == GONE || tab[i].p == p) { tab[i] = Slot{p, n, owner, kind}; ++blocks[owner]; bytes[owner] += n; return; }
    __builtin_trap();
}
static void take(void *p, char kind) {
    if (!p) return;
    for (size_t i = at(p), k = 0; k < N && tab[i].p; ++k, i = (i + 1) & (N - 1)) if (tab[i].p == p) { --blocks[tab[i].owner]; bytes[tab[i].owner] -= tab[i].size; if (kind != tab[i].kind) ++mismatches; tab[i].p = (void *)GONE; return; }
}
static void clear() { for (auto &s : tab) s.p = 0; for (int i = 0; i < OWNERS; ++i) blocks[i] = bytes[i] = 0; mismatches = 0; }
struct As { int was; As(int o) : was(owner) { owner = o; } ~As() { owner = was; } };
}
extern "C" {
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); ledger::add(p, n, 'm'); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); ledger::add(p, a * b, 'm'); return p; }
void *__wrap_realloc(void *q, size_t n) { ledger::take(q, 'm'); void *p = __real_realloc(q, n); ledger::add(p, n, 'm'); return p; }
void __wrap_free(void *p) { ledger::take(p, 'm'); __real_free(p); }
}
static void *get(size_t n, char kind) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ledger::add(p, n, kind); return p; }
void *operator new(size_t n) { return get(n, 'n'); }
void *operator new[](size_t n) { return get(n, 'a'); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = __real_malloc(n ? n : 1); ledger::add(p, n, 'n'); return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { void *p = __real_malloc(n ? n : 1); ledger::add(p, n, 'a'); return p; }
static void put(void *p, char kind) { ledger::take(p, kind); __real_free(p); }
void operator delete(void *p) noexcept { put(p, 'n'); }
void operator delete[](void *p) noexcept { put(p, 'a'); }
void operator delete(void *p, size_t) noexcept { put(p, 'n'); }
void operator delete[](void *p, size_t) noexcept { put(p, 'a'); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p, 'n'); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p, 'a'); }

#include "everything.h"
struct Held { long blocks, bytes; };
int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get(); Scen s; std::vector<Class> C = all(); int NC = int(C.size());
    int nul = open("/dev/null", O_WRONLY); if (nul >= 0 && !getenv("VPSHOW")) { dup2(nul, 1); dup2(nul, 2); }
    int n = A.pick(8 * NC * 2, 8 * NC * 12);
    for (int q = 0; q < n; ++q) {
        if (!s.begin()) continue;
        Rng r(A.seed * 5113 + q); int cls = (q / 8) % NC; const char *nm = C[cls].name; bool heavy = !strcmp(nm, "KeyMode") || !strncmp(nm, "Segmenter", 9) || !strncmp(nm, "TempoTrack", 10) || !strcmp(nm, "DownBeat") || !strcmp(nm, "Hmm");
        // a script of operations on a few objects: 'N', 'C', 'R', 'D'
        struct Act { char k; int o, cls, set, in; }; std::vector<Act> acts; int no = heavy ? r.in(1, 2) : r.in(1, 4), period = heavy ? 2 : r.in(2, 8), cycles = heavy ? 3 : r.in(3, 60);
        for (int o = 1; o <= no; ++o) { int k = o > 1 && !heavy && r.chance(1, 4) ? r.in(0, NC - 1) : cls; while (o > 1 && (!strcmp(C[k].name, "KeyMode") || !strncmp(C[k].name, "Segmenter", 9)) && k != cls) k = r.in(0, NC - 1); acts.push_back({'N', o, k, r.in(0, C[k].settings - 1), 0}); }
        bool resets = r.chance(1, 3); int base = r.in(0, 3000), gap = r.in(1, 40);
        for (int c = 0; c < cycles; ++c) { if (!resets && c && r.chance(1, 40)) break; for (int p = 0; p < period; ++p) for (int o = 1; o <= no; ++o) acts.push_back({'C', o, 0, 0, base + p * gap}); if (resets && c % 2) for (int o = 1; o <= no; ++o) acts.push_back({'R', o, 0, 0, 0}); }
        for (int o = no; o >= 1; --o) acts.push_back({'D', o, 0, 0, 0});
        // once to let tables that are made once and kept be made, then accounted
        for (int round = 0; round < 2; ++round) {
            ledger::clear(); std::map<int, Machine> M; std::map<int, bool> canReset; for (int o = 1; o <= no; ++o) M[o] = Machine();
            std::vector<Held> held; held.reserve(acts.size()); int lost = 0;
            for (auto &a : acts) {
                if (a.k == 'N') { Machine *m = &M[a.o]; ledger::As as(a.o); *m = C[a.cls].make(a.set); }
                else if (a.k == 'C') { Machine *m = &M[a.o]; ledger::As as(a.o); m->call(a.in); }
                else if (a.k == 'R') { Machine *m = &M[a.o]; ledger::As as(a.o); if (m->reset) m->reset(); else a.k = 0; }
                else if (a.k == 'D') { Machine *m = &M[a.o]; ledger::As as(a.o); *m = Machine(); }
                held.push_back(Held{ledger::blocks[a.o], ledger::bytes[a.o]});
            }
            lost = ledger::mismatches;
            if (!round) continue;
            Ev("Scenario").i("n", s.n).end(); std::map<int, int> of;
            for (size_t i = 0; i < acts.size(); ++i) {
                Act &a = acts[i]; Held h = held[i];
                switch (a.k) { case 'N': of[a.o] = a.cls; Ev("New").i("o", a.o).s("cls", C[a.cls].name).i("set", a.set).i("blocks", h.blocks).i("bytes", h.bytes).end(); break;
                    case 'C': Ev("Call").i("o", a.o).i("in", a.in).i("blocks", h.blocks).i("bytes", h.bytes).end(); break;
                    case 'R': Ev("Reset").i("o", a.o).i("blocks", h.blocks).i("bytes", h.bytes).end(); break;
                    case 0: break;
                    default: Ev("Delete").i("o", a.o).i("blocks", h.blocks).i("bytes", h.bytes).end(); }
            }
            Ev("End").i("mismatched", lost).end();
        }
    }
    return 0;
}
