// Controlled scheduler: real threads, one running at a time, every pthread operation a
// scheduling point, virtual time. Linked with --wrap on the pthread and clock functions.
#ifndef VP_SCHED_H
#define VP_SCHED_H
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace sched {
struct Options {
    int preemptions = 2;   // DFS: context switches away from a runnable thread
    int spurious = 0;      // spurious wakeups per run
    int ticks = 0;         // early clock advances per run
    long max_runs = 2000;  // DFS runs
    long random_runs = 0;  // then this many random schedules
    uint64_t seed = 1;
    long long start_us = 0; // virtual clock at start
    bool mem = true;        // random schedules also switch at memory accesses of instrumented code
    bool log_block = false; // record when a thread blocks on a mutex
    bool resolve_stuck = false; // a stuck state with condition waiters: wake them with abort flag
};
struct Stats { long runs = 0, points = 0, distinct = 0; bool complete = false; };
// Explore schedules of body; every distinct recorded event sequence is written once.
Stats explore(const Options &o, const std::string &scenario, const std::function<void()> &body);
// To be called from body and the threads it starts:
void emit(const std::string &line);      // record an event (JSON, no newline)
void point();                            // a scheduling point
int self();                              // 0 = main
long long now_us();                      // virtual time
bool aborted();                          // stuck state was resolved by force
void wait_until(const std::function<bool()> &pred); // blocks under the scheduler
int spawn(const std::function<void()> &f); // harness's own thread; returns its number
void join(int t);
int tid_of(unsigned long pt);            // scheduler number of a pthread id, -1 if unknown
bool finished(int t);
int live();                              // threads created and not finished (without main)
int unjoined();                          // pthread_create'd threads not yet joined
}
#endif
