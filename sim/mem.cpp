// Memory seam: every malloc/realloc/free and operator new/delete of the linked
// program (library, zlib, static libstdc++) passes through here.  Calls made
// while mem::tracking is set are on behalf of the code under test: they are
// filled with a chosen pattern, can be made to fail, are capped, and are
// accounted for until they are freed.
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <new>
#include <cerrno>

namespace mem {
bool tracking=false;
long long failAt=-1;
bool failSticky=false;
size_t cap=(size_t)1<<28;
size_t totalCap=(size_t)1<<29;
unsigned char fill=0;
bool fillOn=false;
long allocs=0;
bool injected=false;
bool capped=false;
bool moveRealloc=false;
void* (*replaceAlloc)(size_t)=nullptr;

// live table: open addressing, no allocation of its own
struct Ent { uintptr_t p; size_t n; long seq; };
static const size_t CAP=1<<20;
static Ent* tab=nullptr;
static long nLive=0; static long long bLive=0;
static size_t slot(uintptr_t p){return (size_t)((p>>4)*0x9e3779b97f4a7c15ull>>44)&(CAP-1);}
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t,size_t);
extern "C" void* __real_realloc(void*,size_t);
extern "C" void __real_free(void*);
static void insert(void* p,size_t n){
    if(!tab) tab=(Ent*)__real_calloc(CAP,sizeof(Ent));
    if(nLive>(long)CAP/2) return;
    size_t i=slot((uintptr_t)p);
    while(tab[i].p>1) i=(i+1)&(CAP-1);
    tab[i].p=(uintptr_t)p; tab[i].n=n; tab[i].seq=allocs; nLive++; bLive+=n;
}
static bool erase(void* p,size_t* n=nullptr){
    if(!tab||!nLive) return false;
    size_t i=slot((uintptr_t)p);
    while(tab[i].p){ if(tab[i].p==(uintptr_t)p){ if(n)*n=tab[i].n; bLive-=tab[i].n; nLive--; tab[i].p=1; return true;} i=(i+1)&(CAP-1); }
    return false;
}
long liveCount(){return nLive;}
long long liveBytes(){return bLive;}
void forget(){ if(tab) memset(tab,0,CAP*sizeof(Ent)); nLive=0; bLive=0; }
std::string describeLive(){
    bool t=tracking; tracking=false;
    std::string s; int k=0;
    std::map<long,size_t> m;
    if(tab) for(size_t i=0;i<CAP;i++) if(tab[i].p>1) m[tab[i].seq]=tab[i].n;
    for(auto& e:m){ if(k++<12) s+=strf("%s#%ld:%zu",s.empty()?"":" ",e.first,e.second); }
    tracking=t; return s;
}
// decide a tracked allocation: false = it fails
static bool admit(size_t n){
    long k=allocs++;
    if(failAt>=0){
        if(k>=failAt&&(failSticky||k==failAt)){ injected=true; count(F_ALLOC_FAIL); return false; }
    }
    if(n>cap||(size_t)bLive+n>totalCap){ capped=true; count(F_ALLOC_CAP); return false; }
    return true;
}
void arm(long long n,bool sticky){ failAt=n<0?-1:allocs+n; failSticky=sticky; injected=false; }
__attribute__((noinline,no_sanitize("address"))) void spray(unsigned char pattern){
    volatile unsigned char buf[49152];
    memset((void*)buf,pattern,sizeof buf);
    asm volatile(""::"r"(buf):"memory");
}
}
using namespace mem;
extern "C" {
void* __wrap_malloc(size_t n){
    if(!tracking) return __real_malloc(n);
    if(!admit(n)){errno=ENOMEM;return nullptr;}
    void* p=__real_malloc(n); if(!p) return p;
    if(fillOn) memset(p,fill,n);
    insert(p,n); return p;
}
void* __wrap_calloc(size_t a,size_t b){
    if(!tracking) return __real_calloc(a,b);
    if(a&&b>(size_t)-1/a){errno=ENOMEM;return nullptr;}
    if(!admit(a*b)){errno=ENOMEM;return nullptr;}
    void* p=__real_calloc(a,b); if(p) insert(p,a*b); return p;
}
void __wrap_free(void* p){ if(p) erase(p); __real_free(p); }
void* __wrap_realloc(void* q,size_t n){
    if(!tracking){
        size_t o; bool had=q&&erase(q,&o);
        void* p=__real_realloc(q,n);
        if(had&&p) insert(p,n); else if(had&&n) insert(q,o);
        return p;
    }
    if(!q) return __wrap_malloc(n);
    if(n==0){ __wrap_free(q); return nullptr; }
    if(!admit(n)){errno=ENOMEM;return nullptr;}
    size_t o=0; bool had=erase(q,&o);
    if(!had) { void* p=__real_realloc(q,n); if(p) insert(p,n); return p; }
    void* p=__real_malloc(n); if(!p){insert(q,o);return p;} // always moves: stale pointers show
    count(F_REALLOC_MOVE);
    memcpy(p,q,o<n?o:n); if(fillOn&&n>o) memset((char*)p+o,fill,n-o);
    __real_free(q); insert(p,n); return p;
}
// operator new and delete
void* __real__Znwm(size_t); void* __real__Znam(size_t);
void __real__ZdlPv(void*); void __real__ZdaPv(void*);
void __real__ZdlPvm(void*,size_t); void __real__ZdaPvm(void*,size_t);
void* __real__ZnwmRKSt9nothrow_t(size_t,const std::nothrow_t&);
void* __real__ZnamRKSt9nothrow_t(size_t,const std::nothrow_t&);
void __real__ZdlPvRKSt9nothrow_t(void*,const std::nothrow_t&);
#define NEWBODY(REAL) \
    if(!tracking) return REAL(n); \
    if(!admit(n)) throw std::bad_alloc(); \
    void* p=REAL(n); if(fillOn) memset(p,fill,n); insert(p,n); return p;
void* __wrap__Znwm(size_t n){NEWBODY(__real__Znwm)}
void* __wrap__Znam(size_t n){NEWBODY(__real__Znam)}
void* __wrap__ZnwmRKSt9nothrow_t(size_t n,const std::nothrow_t& t){
    if(!tracking) return __real__ZnwmRKSt9nothrow_t(n,t);
    if(!admit(n)) return nullptr;
    void* p=__real__ZnwmRKSt9nothrow_t(n,t); if(p){if(fillOn) memset(p,fill,n); insert(p,n);} return p;}
void* __wrap__ZnamRKSt9nothrow_t(size_t n,const std::nothrow_t& t){
    if(!tracking) return __real__ZnamRKSt9nothrow_t(n,t);
    if(!admit(n)) return nullptr;
    void* p=__real__ZnamRKSt9nothrow_t(n,t); if(p){if(fillOn) memset(p,fill,n); insert(p,n);} return p;}
void __wrap__ZdlPv(void* p){if(p) erase(p);__real__ZdlPv(p);}
void __wrap__ZdaPv(void* p){if(p) erase(p);__real__ZdaPv(p);}
void __wrap__ZdlPvm(void* p,size_t n){if(p) erase(p);__real__ZdlPvm(p,n);}
void __wrap__ZdaPvm(void* p,size_t n){if(p) erase(p);__real__ZdaPvm(p,n);}
void __wrap__ZdlPvRKSt9nothrow_t(void* p,const std::nothrow_t& t){if(p) erase(p);__real__ZdlPvRKSt9nothrow_t(p,t);}
}
