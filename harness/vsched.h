// Controlled scheduler: runs the real multi-threaded code one thread at a time, decides every
// interleaving itself, virtualises the clock and records one totally ordered event trace.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace vs
{
    // ---- used by scenario code (managed threads) ----
    int  tid();                             // small id of the calling managed thread (0 = main client)
    void point();                           // explicit scheduling point
    void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // append one JSON event
    void ev_again(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // ... unless it is the last one; no progress
    void ev_raw(const std::string& s);
    void name_thread(const char* name);     // name used for this thread in the trace
    const char* thread_name();
    void gate_wait(int gate);               // block until gate is open
    void gate_open(int gate);
    void own_work(bool on);                 // memory accesses of this thread are the scenario's own: no scheduling points
    void hold();                            // block until nothing else can run
    void settle();                          // like hold, but released before any hold
    void advance(int64_t ns);               // move the virtual clock
    int64_t now();                          // virtual nanoseconds since start of the execution
    void sleep_until(int64_t ns);
    void spawn(void (*fn)(void*), void* arg, int* id);  // managed client thread
    void join(int id);
    [[noreturn]] void finish();             // end of execution
    uint64_t rnd();                         // harness randomness (from the execution's seed)
    void fail(const char* what);            // record a fatal event and stop
    bool freed(const void* p);              // is p inside a block that was deleted
    void note_read(const void* p, size_t n);
    void note_write(const void* p, size_t n);
    int64_t epoch_ns();                     // CLOCK_REALTIME value of virtual time 0

    // ---- driver ----
    struct Hooks
    {
        void (*scenario)(const std::string& text);      // runs in the child, on managed thread 0
        void (*setup)(int worker) = nullptr;            // runs once in the parent
        void (*before)(const std::string& text) = nullptr; // runs in the child before scheduling starts
        void (*after)() = nullptr;                      // runs in the parent after each child
    };
    int driver(int argc, char** argv, const Hooks& hooks);
    extern void (*on_quiesce)();            // called (by whoever schedules) when nothing can run
}
