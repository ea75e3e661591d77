#ifndef VP_ASYNCTASK_SUT_H
#define VP_ASYNCTASK_SUT_H
#include "thread/AsynchronousTask.h"
class W;
void sutPerformBegin(W *);
void sutPerformEnd(W *);
class W : public AsynchronousTask {
public:
    W(int kk, int caller);
    ~W();
    void request(int v);
    int result();
    int k, callerT, in, out, lastT;
protected:
    void performTask();
};
#endif
