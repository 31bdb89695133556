// Memory seam of the thread simulator: memory the library asks for comes from an
// arena that in most runs never hands out an address twice, so that a stale
// pointer is always recognised, wherever the schedule puts its use.  In the
// other runs the block freed last is handed out first, as allocators do.
#include "thr.h"
#include <cstring>
#include <cstdlib>
#include <new>
#include <cerrno>
#include <sys/mman.h>

namespace mem {
bool tracking=false; long long failAt=-1; bool failSticky=false;
size_t cap=(size_t)1<<28,totalCap=(size_t)1<<29;
unsigned char fill=0; bool fillOn=false; long allocs=0; bool injected=false,capped=false;
static const uintptr_t BASE=0x200000000000ull; static const size_t SIZE=(size_t)3<<30;
static unsigned char* state=nullptr; // per 8 bytes: 0 never, 1..8 valid bytes, 0xfd freed, 0xfa red zone, 0xfb an empty block
static size_t top=64; static long nLive=0; static long long bLive=0; static long seqNo=0; static std::map<size_t,std::vector<unsigned char*>>* freeLists=nullptr;
struct Head { size_t n; long seq; };
static bool inArena(const void* p){ return (uintptr_t)p-BASE<SIZE; }
static void init(){
    if(state) return;
    if(mmap((void*)BASE,SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)BASE) abort();
    state=(unsigned char*)mmap(nullptr,SIZE/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
}
long liveCount(){return nLive;} long long liveBytes(){return bLive;}
void forget(){ nLive=0; bLive=0; }
std::string describeLive(){ bool t=tracking; tracking=false; std::string s; int k=0; for(size_t i=64;state&&i<top&&k<12;){ Head* h=(Head*)(BASE+i); size_t len=(h->n+15)/16*16; if(state[(i+16)/8]!=0xfd&&h->seq>0){ s+=strf("%s#%ld:%zu",k?" ":"",h->seq,h->n); k++; } i+=16+std::max<size_t>(len,16)+16; } tracking=t; return s; }
static bool admit(size_t n){
    long k=allocs++;
    if(failAt>=0&&k>=failAt&&(failSticky||k==failAt)){ injected=true; count(F_ALLOC_FAIL); evt("allocation of %zu bytes fails",n); return false; }
    if(n>cap||(size_t)bLive+n>totalCap||top+n+64>SIZE){ capped=true; count(F_ALLOC_CAP); return false; }
    return true;
}
static void* get(size_t n){
    init(); Head* h=(Head*)(BASE+top); size_t len=std::max<size_t>((n+15)/16*16,16); unsigned char* p=(unsigned char*)h+16; bool again=false;
    if(thr::reuse&&freeLists){ bool t=tracking; tracking=false; auto it=freeLists->find(len); if(it!=freeLists->end()&&!it->second.empty()){ p=it->second.back(); it->second.pop_back(); h=(Head*)(p-16); again=true; count(C_REUSE); thr::wipe(p,n); } tracking=t; }
    h->n=n; h->seq=++seqNo; unsigned char* s=state+((uintptr_t)p-BASE)/8; size_t full=n/8; memset(s,8,full); if(n%8) s[full]=n%8; for(size_t i=(n+7)/8;i<len/8;i++) s[i]=0xfa; if(!n) s[0]=0xfb; if(!again){ s[-2]=s[-1]=0xfa; s[len/8]=s[len/8+1]=0xfa; top+=16+len+16; }
    nLive++; bLive+=n; if(fillOn) memset(p,fill,n); return p;
}
static void put(void* p,const void* pc){
    Head* h=(Head*)((char*)p-16); unsigned char* s=state+((uintptr_t)p-BASE)/8;
    bool ok=((uintptr_t)p&15)==0&&h->seq>0&&*s!=0xfa&&*s!=0; if(ok&&*s==0xfd) violation(std::string("memory:double-free:")+SH->phase,strf("block #%ld of %zu bytes is freed twice",h->seq,h->n));
    if(!ok) violation(std::string("memory:bad-free:")+SH->phase,"a pointer is freed that is not the start of a block");
    thr::freeing(p,h->n,pc); size_t len=std::max<size_t>((h->n+15)/16*16,16); memset(s,0xfd,len/8); memset(p,0xdd,h->n); nLive--; bLive-=h->n;
    if(thr::reuse){ bool t=tracking; tracking=false; if(!freeLists) freeLists=new std::map<size_t,std::vector<unsigned char*>>; (*freeLists)[len].push_back((unsigned char*)p); tracking=t; }
}
void arm(long long n,bool sticky){ failAt=n<0?-1:allocs+n; failSticky=sticky; injected=false; }
void spray(unsigned char){}
}
bool thr::reuse=false;
long thr::heapSeq(const void* p){ // an object's address may lie inside its block
    if(!mem::inArena(p)||heapState(p,8)!=0) return 0;
    size_t i=((uintptr_t)p-mem::BASE)/8; while(mem::state[i-1]==8) i--; return ((mem::Head*)(mem::BASE+i*8-16))->seq;
}
int thr::heapState(const void* p,size_t n){
    using namespace mem; uintptr_t a=(uintptr_t)p; if(a-BASE>=SIZE) return 0;
    for(uintptr_t c=a&~7ull;c<a+n;c+=8){ unsigned char s=state[(c-BASE)/8]; if(s==8) continue; if(s==0xfd) return 1; if(s==0||s==0xfa||s==0xfb) return 2; uintptr_t end=std::min(a+n,c+8); if(end-c>s) return 2; }
    return 0;
}
using namespace mem;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
void* __real__Znwm(size_t); void __real__ZdlPv(void*);
static void* plain(size_t n){ void* p=__real_malloc(n); if(p&&thr::active) thr::wipe(p,n); return p; }
void* __wrap_malloc(size_t n){ if(!tracking) return plain(n); if(!admit(n)){errno=ENOMEM;return nullptr;} return get(n); }
void* __wrap_calloc(size_t a,size_t b){ if(!tracking){ void* p=__real_calloc(a,b); if(p&&thr::active) thr::wipe(p,a*b); return p; } if(a&&b>(size_t)-1/a){errno=ENOMEM;return nullptr;} if(!admit(a*b)){errno=ENOMEM;return nullptr;} void* p=get(a*b); memset(p,0,a*b); return p; }
void __wrap_free(void* p){ if(!p) return; if(inArena(p)) put(p,__builtin_return_address(0)); else __real_free(p); }
void* __wrap_realloc(void* q,size_t n){
    if(!q) return __wrap_malloc(n);
    if(!inArena(q)){ if(!tracking){ void* p=__real_realloc(q,n); if(p&&thr::active) thr::wipe(p,n); return p; } return __real_realloc(q,n); }
    if(n==0){ __wrap_free(q); return nullptr; }
    if(tracking&&!admit(n)){errno=ENOMEM;return nullptr;}
    size_t o=((Head*)((char*)q-16))->n; if(thr::heapState(q,1)==1) violation(std::string("memory:use-after-free:")+SH->phase,"a freed block is resized");
    void* p=get(n); count(F_REALLOC_MOVE); memcpy(p,q,o<n?o:n); put(q,__builtin_return_address(0)); return p;
}
#define NEW(n) if(!tracking){ void* p=plain(n?n:1); if(!p) abort(); return p; } if(!admit(n)) throw std::bad_alloc(); return get(n);
void* __wrap__Znwm(size_t n){NEW(n)}
void* __wrap__Znam(size_t n){NEW(n)}
void* __wrap__ZnwmRKSt9nothrow_t(size_t n,const std::nothrow_t&){ if(!tracking) return plain(n?n:1); return admit(n)?get(n):nullptr; }
void* __wrap__ZnamRKSt9nothrow_t(size_t n,const std::nothrow_t&){ if(!tracking) return plain(n?n:1); return admit(n)?get(n):nullptr; }
#define DEL(p) if(!p) return; if(inArena(p)) put(p,__builtin_return_address(0)); else __real_free(p);
void __wrap__ZdlPv(void* p){DEL(p)} void __wrap__ZdaPv(void* p){DEL(p)} void __wrap__ZdlPvm(void* p,size_t){DEL(p)} void __wrap__ZdaPvm(void* p,size_t){DEL(p)}
void __wrap__ZdlPvRKSt9nothrow_t(void* p,const std::nothrow_t&){DEL(p)}
}
