// Shared declarations of the simulator.
#pragma once
#include "tape.h"
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <set>
#include <cstdio>
#include <cstdarg>

// ---------------------------------------------------------------- shared page
// One page set shared between the coordinator and the forked run.
enum { MAX_TAPE=1<<19, MAX_LOG=1<<18, MAX_COUNTERS=160, MAX_EDGES=1<<15 };
struct Shared {
    volatile int status;            // 0 running, 1 ok, 2 violation, 3 harness error
    char cls[256];                  // violation class
    char msg[8192];
    uint64_t hash;                  // hash of the event log
    uint64_t events;                // number of events
    uint64_t ticks;                 // logical steps
    uint64_t digest;                // digest of the run's shape (distinctness)
    uint64_t counters[MAX_COUNTERS];
    uint32_t tapeLen;
    uint32_t tape[MAX_TAPE];
    uint32_t logLen;
    char log[MAX_LOG];
    unsigned char edges[MAX_EDGES]; // saturating hit counts of this run
    char phase[256];                // what the run is doing, for crash classes
    char note[512];                 // one-line description of the run (sample)
};
extern Shared* SH;
extern Tape T;

// ------------------------------------------------------------------- events
void evt(const char* fmt,...) __attribute__((format(printf,1,2)));
extern int EVT_THREAD;            // prefix of events when several threads run, or -1
void evtHash(const char* what,uint64_t h);
[[noreturn]] void violation(const std::string& cls,const std::string& msg);
[[noreturn]] void harnessError(const std::string& msg);
void setPhase(const std::string& s);
void note(const std::string& s);

// named counters (faults fired, rare conditions hit)
enum Ctr {
    F_SHORT_READ, F_EINTR_READ, F_EIO_READ, F_EOF_READ, F_TRUNC,
    F_OPEN_FAIL, F_SHORT_WRITE, F_EINTR_WRITE, F_EIO_WRITE, F_ENOSPC, F_CRASH, F_CLOSE_FAIL,
    F_BITFLIP, F_OVERWRITE, F_ZEROBLOCK, F_LOSTBLOCK, F_DUPBLOCK, F_SWAPBLOCK, F_MISSING, F_EXTRA,
    F_ALLOC_FAIL, F_ALLOC_CAP, F_HEAP_PATTERN, F_STACK_PATTERN, F_LOCALE, F_HISTORY, F_REALLOC_MOVE, F_FOREIGN,
    F_PREEMPT, F_BLOCKED, F_STALL,
    C_READS, C_WRITES, C_OPENS, C_APICALLS, C_NULL_RESULT, C_EXACT_RESULT, C_PARTIAL_OK, C_BADALLOC, C_OTHER_EXC,
    C_PARTICLES, C_BYTES, C_CACHE_HIT, C_CACHE_MISS, C_CACHE_FREE, C_THREADS, C_QUERIES, C_REUSE, C_SWITCHES,
    C_ACCESSES, C_ERRMSG, C_GZ, C_HDR, C_MERGE, C_CLONE, C_OPS, C_TOOLRUNS,
    C_FMT0, // one per format follows
    C_LAST=C_FMT0+24
};
extern const char* ctrName(int i);
inline void count(int c,uint64_t n=1){SH->counters[c]+=n;}

// --------------------------------------------------------------------- disk
typedef std::vector<unsigned char> Bytes;
struct FaultPlan {
    // rates per call, in 1/1000
    int shortRead=0,eintrRead=0,shortWrite=0,eintrWrite=0;
    // planned single faults: fire at the n-th call (0 = first) of that kind, -1 = never
    long eioReadAt=-1; bool eioReadSticky=true;
    long eofReadAt=-1;
    long openFailAt=-1; int openErrno=2; bool openFailSticky=false;
    long eioWriteAt=-1; bool eioWriteSticky=true;
    long long capacity=-1;          // bytes the device can still take, -1 = unlimited
    long long crashAfter=-1;        // process dies after this many bytes were written
    long closeFailAt=-1;
    std::string only;               // faults apply to this path only ("" = all)
};
struct DiskStats {long opens=0,reads=0,writes=0,closes=0; long long bytesWritten=0,bytesRead=0;};
namespace disk {
    void reset();
    void put(const std::string& path,const Bytes& b);
    bool exists(const std::string& path);
    const Bytes& get(const std::string& path);
    void remove(const std::string& path);
    std::map<std::string,Bytes> snapshot();
    void plan(const FaultPlan& p);   // install a fault plan, reset its call counters
    void heal();                     // no faults
    DiskStats& stats();
    int openHandles();
    std::set<std::string> writtenPaths(); // paths created, truncated or written since plan()/heal()
    bool crashed();                  // the planned process death was reached
    std::map<std::string,Bytes> crashImage(); // the disk at that moment
    extern bool active;              // calls are simulated (else passed to the OS)
    extern bool logOps;
    extern void (*yieldHook)(const char*); // scheduling point (thread simulator)
}
struct SimIO { bool old; SimIO():old(disk::active){disk::active=true;} ~SimIO(){disk::active=old;} };

// ------------------------------------------------------------------- memory
namespace mem {
    extern bool tracking;          // calls are on behalf of the library
    extern long long failAt;       // fail the n-th tracked allocation from now, -1 never
    extern bool failSticky;        // and all later ones
    extern size_t cap;             // a single allocation above this fails
    extern size_t totalCap;        // sum of live tracked allocations above this fails
    extern unsigned char fill;     // pattern for fresh memory
    extern bool fillOn;
    extern long allocs;            // tracked allocations so far
    extern bool injected;          // an allocation was made to fail
    extern bool capped;            // an allocation was refused because of cap/totalCap
    void arm(long long n,bool sticky); // fail the n-th tracked allocation from now (-1: none)
    long liveCount(); long long liveBytes();
    void forget();                 // forget live allocations
    std::string describeLive();
    void spray(unsigned char pattern); // fill the stack below with a pattern
}

// ------------------------------------------------------------------- runner
struct Property {
    const char* id;
    void (*run)();                 // executes one run, drawing from T
};
extern std::vector<Property> PROPERTIES;
extern void (*WARMUP)();           // executed once per process, before any run
extern uint64_t edgeCount;         // logical steps of the library in the current call
extern uint64_t EDGE_BUDGET;       // steps after which a call counts as hanging
int runnerMain(int argc,char** argv);
std::string strf(const char* fmt,...) __attribute__((format(printf,1,2)));
