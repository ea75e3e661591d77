#include "asynctask_sut.h"
W::W(int kk, int caller) : k(kk), callerT(caller), in(0), out(0), lastT(0) {}
W::~W() {}
void W::request(int v) { in = v; startTask(); }
int W::result() { awaitTask(); return out; }
void W::performTask() {
    sutPerformBegin(this);
    out = in * 2 + 1;
    sutPerformEnd(this);
}
