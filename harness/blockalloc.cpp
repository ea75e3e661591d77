#include "trace.h"
#include <vector>
#include <new>
#include <algorithm>
#include <memory>
#include "thread/BlockAllocator.h"

// Memory taken by new[] while the allocator is being called, as numbered regions.
struct Region { char *p; size_t n; int id; };
static std::vector<Region> regions;
static bool tracking = false; static int nextRegion = 1; static bool grew = false; static std::vector<int> gone;
static std::map<char *, int> *byAddr;
void *operator new[](size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (tracking) { tracking = false; (*byAddr)[(char *)p] = nextRegion; regions.push_back({(char *)p, n, nextRegion++}); grew = true; tracking = true; }
    return p;
}
static void drop(void *p) {
    if (!p) return;
    bool t = tracking; tracking = false;
    if (byAddr) {
        auto it = byAddr->find((char *)p);
        if (it != byAddr->end()) {
            gone.push_back(it->second);
            for (size_t i = 0; i < regions.size(); ++i) if (regions[i].id == it->second) { regions.erase(regions.begin() + i); break; }
            byAddr->erase(it);
        }
    }
    tracking = t;
    free(p);
}
void operator delete[](void *p) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
static int regionOf(void *q) {
    for (auto it = byAddr->upper_bound((char *)q); it != byAddr->begin();) {
        --it;
        for (auto &r : regions) if (r.id == it->second) return ((char *)q >= r.p && (char *)q < r.p + r.n) ? r.id : 0;
        return 0;
    }
    return 0;
}
static std::map<uintptr_t, int> pages;
static int virt(void *p) {
    uintptr_t a = (uintptr_t)p, pg = a >> 20;
    auto it = pages.find(pg);
    int id;
    if (it == pages.end()) { id = int(pages.size()); pages[pg] = id; } else id = it->second;
    return id * 2 * (1 << 20) + int(a & 0xfffff);
}

struct Blk { int id, a; char *p; int n; int tag; };
struct Run {
    std::vector<std::unique_ptr<BlockAllocator>> al;
    std::vector<int> size;
    std::vector<Blk> live;
    int nextId = 1; Rng r;
    explicit Run(uint64_t s) : r(s) {}
    static unsigned char byteAt(int tag, int i) { return (unsigned char)(tag * 31 + i * 7 + 5); }
    void fill(Blk &b) { for (int i = 0; i < b.n; ++i) b.p[i] = (char)byteAt(b.tag, i); }
    int readTag(const Blk &b) { for (int i = 0; i < b.n; ++i) if ((unsigned char)b.p[i] != byteAt(b.tag, i)) return -1 - i; return b.tag; }
    void alloc(int a) {
        grew = false; gone.clear(); tracking = true;
        char *p = (char *)al[a]->allocate();
        tracking = false;
        Blk b = {nextId++, a, p, size[a], 0}; b.tag = b.id;
        if (!p) { Ev("NullBlock").end(); return; }
        fill(b);
        Ev("Alloc").i("id", b.id).i("a", a).i("at", virt(p)).i("n", b.n).i("tag", b.tag).b1("grew", grew).i("region", regionOf(p)).end();
        live.push_back(b);
    }
    void freeAt(size_t k) {
        Blk b = live[k];
        Ev("Read").i("id", b.id).i("tag", readTag(b)).end();
        int reg = regionOf(b.p);
        gone.clear(); grew = false; tracking = true;
        al[b.a]->deallocate(b.p);
        tracking = false;
        Ev("Free").i("id", b.id).i("a", b.a).i("region", reg).a("gone", gone).end();
        live.erase(live.begin() + k);
    }
    void read(size_t k) { Ev("Read").i("id", live[k].id).i("tag", readTag(live[k])).end(); }
    void write(size_t k) { live[k].tag = 100000 + nextId++; fill(live[k]); Ev("Write").i("id", live[k].id).i("tag", live[k].tag).end(); }
    void readAll() { for (size_t i = 0; i < live.size(); ++i) read(i); }
    void freeNull(int a) { al[a]->deallocate(0); Ev("FreeNull").i("a", a).end(); }
    size_t pickFree(int order) {
        size_t n = live.size();
        switch (order) { case 0: return n - 1; case 1: return 0; case 2: return r.next() % n; case 3: return n / 2; default: return (r.chance(1, 2)) ? n - 1 : 0; }
    }
};

static void bulk(int size, int n, uint64_t seed, bool mixed) {
    BlockAllocator a(size);
    std::vector<char *> p; p.reserve(n);
    std::vector<unsigned> tag; tag.reserve(n);
    Rng r(seed);
    auto put = [&](char *q, unsigned t) { for (int i = 0; i < size; ++i) q[i] = (char)(t * 131 + i); };
    auto ok = [&](char *q, unsigned t) { for (int i = 0; i < size; ++i) if (q[i] != (char)(t * 131 + i)) return false; return true; };
    int corrupt = 0;
    for (int i = 0; i < n; ++i) {
        tracking = true; char *q = (char *)a.allocate(); tracking = false;
        put(q, i); p.push_back(q); tag.push_back(i);
        if (mixed && i % 3 == 2) { // free an older one, take it again
            size_t k = r.next() % p.size();
            if (!ok(p[k], tag[k])) ++corrupt;
            a.deallocate(p[k]);
            p[k] = p.back(); tag[k] = tag.back(); p.pop_back(); tag.pop_back();
        }
    }
    for (size_t i = 0; i < p.size(); ++i) if (!ok(p[i], tag[i])) ++corrupt;
    // give back a scattered part and take as much again: the room freed is used before more memory is taken
    gone.clear(); grew = false;
    std::vector<char *> back;
    for (size_t i = 0; i < p.size(); i += 200 + i % 100) {
        if (!ok(p[i], tag[i])) ++corrupt;
        tracking = true; a.deallocate(p[i]); tracking = false; back.push_back((char *)i);
    }
    int growths = 0;
    for (size_t j = 0; j < back.size(); ++j) {
        size_t i = (size_t)back[j];
        grew = false; tracking = true; p[i] = (char *)a.allocate(); tracking = false;
        if (grew) ++growths;
        put(p[i], tag[i]);
    }
    int gaveBack = (int)gone.size();
    for (size_t i = 0; i < p.size(); ++i) if (!ok(p[i], tag[i])) ++corrupt;
    std::vector<char *> s(p); std::sort(s.begin(), s.end());
    int ov = 0;
    for (size_t i = 1; i < s.size(); ++i) if (s[i] - s[i - 1] < size) ++ov;
    for (size_t i = 0; i < p.size(); ++i) a.deallocate(p[mixed ? i : p.size() - 1 - i]);
    int again = 0;
    std::vector<char *> q2;
    for (int i = 0; i < 2000; ++i) { char *q = (char *)a.allocate(); put(q, i); q2.push_back(q); }
    for (int i = 0; i < 2000; ++i) if (!ok(q2[i], i)) ++again;
    Ev("Bulk").i("n", (int)tag.size()).i("want", mixed ? n - n / 3 : n).i("overlaps", ov).i("corrupt", corrupt + again).i("growths", growths).i("gaveback", gaveBack).end();
}

int main(int argc, char **argv) {
    Args::parse(argc, argv); Out::open(); Args &A = Args::get();
    byAddr = new std::map<char *, int>();
    Scen sc;
    const int sizes[] = {1, 3, 8, 9, 16, 24, 40, 100, 4, 12, 64, 7, 1000, 200, 2048, 129};
    int nsc = A.pick(48, 320);
    for (int k = 0; k < nsc; ++k) {
        if (!sc.begin()) continue;
        Run u(A.seed * 7919 + k);
        int na = k % 4 == 3 ? 2 : 1;
        for (int i = 0; i < na; ++i) { u.size.push_back(sizes[(k * 5 + i * 3) % 16]); u.al.emplace_back(new BlockAllocator(u.size.back())); }
        Ev("Scenario").i("n", sc.n).i("size", u.size[0]).i("allocators", na).end();
        int peak = k % 3 == 0 ? u.r.in(3, 40) : k % 3 == 1 ? u.r.in(505, 530) : u.r.in(1020, 1100);
        int phases = peak < 100 ? 12 : 2 + k % 3;
        int order = k % 5;
        for (int ph = 0; ph < phases; ++ph) {
            int target = ph % 2 == 0 ? peak - u.r.in(0, 5) : (u.r.chance(1, 3) ? 0 : u.r.in(0, peak));
            while ((int)u.live.size() < target) {
                u.alloc(na == 2 ? u.r.in(0, 1) : 0);
                if (u.r.chance(1, 12) && !u.live.empty()) u.freeAt(u.pickFree(2));
                if (u.r.chance(1, 40) && !u.live.empty()) u.read(u.r.next() % u.live.size());
                if (u.r.chance(1, 60) && !u.live.empty()) u.write(u.r.next() % u.live.size());
            }
            int low = u.r.chance(1, 3) ? 0 : u.r.in(0, peak / 2);
            if (u.r.chance(1, 2)) u.freeNull(0);
            while ((int)u.live.size() > low) {
                u.freeAt(u.pickFree(order));
                if (u.r.chance(1, 15)) u.alloc(na == 2 ? u.r.in(0, 1) : 0);
            }
            if (peak < 100 || ph == phases - 1) u.readAll();
        }
        if (na == 2) { // destroying one allocator leaves the other's blocks alone
            std::vector<Blk> keep;
            for (size_t i = u.live.size(); i-- > 0;) if (u.live[i].a == 1) u.freeAt(i);
            u.al[1].reset();
            u.readAll();
        }
        Ev("End").end();
    }
    for (int k = 0; k < 8; ++k) {
        if (!sc.begin()) continue;
        Ev("Scenario").i("n", sc.n).i("size", 0).i("allocators", 1).end();
        int szs[] = {8, 4, 24, 16, 1, 8, 40, 12};
        int n = k < 2 ? 524288 + 3000 : A.thorough() ? 1100000 : 100000 + 7 * k;
        bulk(szs[k], n, A.seed + k, k % 2 == 1);
        Ev("End").end();
    }
    fclose(Out::file());
    return 0;
}
