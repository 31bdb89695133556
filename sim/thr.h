// The thread simulator: real threads of which exactly one runs at a time; the
// library is compiled with thread-sanitizer call-outs and this file is their
// runtime.  Every memory access, atomic, lock, one-time initialisation and file
// call of the library is a point where the tape may switch to another thread.
#pragma once
#include "sim.h"
#include <functional>

namespace thr {
    enum { MAXT=6 };
    void begin();                               // the calling thread becomes thread 0; draws the scheduling strategy
    void spawn(const std::function<void()>& f); // another thread, runnable once join() is called
    void join();                                // run all spawned threads to their end
    void yield(const char* what);               // a scheduling point in harness code
    int self();
    uint64_t now();                             // logical time
    void touch(const void* p,size_t n,bool write); // the harness, as the running thread, looks at shared memory
    int locksHeld();                            // by the running thread
    void wipe(const void* p,size_t n);          // memory handed out anew: forget who used it before
    extern bool active;                         // more than one thread exists
    std::string strategyName();
    // arena (mem_thr.cpp)
    int heapState(const void* p,size_t n);      // 0 fine or not arena memory, 1 freed, 2 outside any block
    long heapSeq(const void* p);                // number of the live block that starts at p, 0 if there is none
    extern bool reuse;                          // freed memory is handed out again
    void freeing(const void* p,size_t n,const void* pc);
}
