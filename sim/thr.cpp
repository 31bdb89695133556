#include "thr.h"
#include <pthread.h>
#include <semaphore.h>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <atomic>
#include <dlfcn.h>
#include <cxxabi.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <unordered_map>
#include <algorithm>

extern "C" {
int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
int __real_pthread_join(pthread_t,void**);
int __real_pthread_mutex_init(pthread_mutex_t*,const pthread_mutexattr_t*);
}
namespace {
enum { NT=thr::MAXT };
struct VC { uint32_t c[NT]={0}; void join(const VC& o){ for(int i=0;i<NT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
enum St { READY,BLOCKED,DONE_ };
struct Ctx { bool tracking=false; long long failAt=-1; bool failSticky=false; long allocs=0; bool injected=false,capped=false; uint64_t edge=0; char phase[sizeof(Shared::phase)]={0}; };
struct Thr {
    pthread_t h; St st=READY; const void* on=nullptr; const char* why=""; VC vc; Ctx ctx; std::atomic<int> go{0};
    std::function<void()> f; bool sim=false; void* ret=nullptr; void*(*start)(void*)=nullptr; void* arg=nullptr; bool detached=false;
    uintptr_t lo=0,hi=0; int held=0; int prio=0; bool timed=false,timedOut=false;
};
Thr* T_[NT]; int nThr=0,cur=0; bool inited=false;
// strategy
int strat=0; long skip=-1; uint32_t mean=0; uint64_t clock_=0; int draws=0; uint32_t denom=8; long atomicRun=0,spin=0;
std::vector<uint64_t> points; uint64_t switches=0;
struct Sync { VC vc; int owner=-1,depth=0; int readers=0; int rd[NT]={0}; int busy=-1; };
std::unordered_map<uintptr_t,Sync>* syncs=nullptr;
std::unordered_map<uintptr_t,VC>* freeClock=nullptr;
struct Quiet { bool t; Quiet():t(mem::tracking){mem::tracking=false;} ~Quiet(){mem::tracking=t;} };
Sync& sync(const void* p){ if(!syncs) syncs=new std::unordered_map<uintptr_t,Sync>; return (*syncs)[(uintptr_t)p]; }

void futexWait(std::atomic<int>& f){ while(f.load()==0) syscall(SYS_futex,(int*)&f,FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0); f.store(0); }
void futexWake(std::atomic<int>& f){ f.store(1); syscall(SYS_futex,(int*)&f,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0); }

void saveCtx(Ctx& c,bool tracking){ c.tracking=tracking; c.failAt=mem::failAt; c.failSticky=mem::failSticky; c.allocs=mem::allocs; c.injected=mem::injected; c.capped=mem::capped; c.edge=edgeCount; memcpy(c.phase,SH->phase,sizeof c.phase); }
void loadCtx(const Ctx& c){ mem::failAt=c.failAt; mem::failSticky=c.failSticky; mem::allocs=c.allocs; mem::injected=c.injected; mem::capped=c.capped; edgeCount=c.edge; memcpy(SH->phase,c.phase,sizeof c.phase); mem::tracking=c.tracking; }

std::string fnName(const void* pc){
    Dl_info i; if(!dladdr(pc,&i)||!i.dli_sname) return "?";
    int st=0; char* d=abi::__cxa_demangle(i.dli_sname,nullptr,nullptr,&st); std::string s=st==0&&d?d:i.dli_sname; free(d);
    size_t p=s.find('('); if(p!=std::string::npos&&p) s=s.substr(0,p);
    std::string r; int depth=0; for(char c:s){ if(c=='<') depth++; else if(c=='>'){ if(depth) depth--; } else if(!depth) r+=c; }
    p=r.rfind(' '); if(p!=std::string::npos) r=r.substr(p+1); return r;
}
std::string where(const void* pc){ Dl_info i; uintptr_t off=dladdr(pc,&i)?(uintptr_t)pc-(uintptr_t)i.dli_fbase:0; return fnName(pc)+strf(" (+0x%lx)",(unsigned long)off); }

// --------------------------------------------------------------- scheduling
void deadlock(){
    Quiet q; std::string s="no thread can go on:"; for(int i=0;i<nThr;i++) if(T_[i]->st==BLOCKED) s+=strf(" thread %d waits for %s in %s;",i,T_[i]->why,i==cur?SH->phase:T_[i]->ctx.phase);
    violation("deadlock",s);
}
int runnable(int* out,bool includeCur){ int n=0; for(int i=0;i<nThr;i++) if(T_[i]->st==READY&&(i!=cur||includeCur)) out[n++]=i; return n; }
void switchTo(int n,bool tracking){ // tracking: of the thread that leaves
    if(n==cur) return;
    Thr* me=T_[cur]; saveCtx(me->ctx,tracking); mem::tracking=false;
    count(C_SWITCHES); switches++; spin=atomicRun=0; SH->digest=mix64(SH->digest,(uint64_t)n*1000003+me->ctx.edge);
    int self=cur; cur=n; Thr* to=T_[n]; bool end=me->st==DONE_;
    futexWake(to->go);
    if(end) return;
    futexWait(me->go); cur=self; EVT_THREAD=self; loadCtx(me->ctx);
}
int best(bool includeCur){ int r[NT]; int n=runnable(r,includeCur); int b=-1; for(int i=0;i<n;i++) if(b<0||T_[r[i]]->prio>T_[b]->prio) b=r[i]; return b; }
void block(const void* on,const char* why){ // give way until woken
    Quiet q; bool tr=q.t; Thr* me=T_[cur]; me->st=BLOCKED; me->on=on; me->why=why; count(F_BLOCKED);
    evt("waits for %s",why);
    int r[NT]; int n=runnable(r,false);
    if(!n){ // a timed wait may end
        for(int i=0;i<nThr;i++) if(T_[i]->st==BLOCKED&&T_[i]->timed){ T_[i]->timedOut=true; T_[i]->st=READY; if(i==cur) return; r[n++]=i; break; }
        if(!n) deadlock();
    }
    switchTo(strat==4?best(false):r[n>1?T.choose(n):0],tr); mem::tracking=false;
}
void wake(const void* on){ for(int i=0;i<nThr;i++) if(T_[i]->st==BLOCKED&&T_[i]->on==on){ T_[i]->st=READY; } }
void preempt(const char* why){
    int r[NT]; int n=runnable(r,false); if(!n) return;
    bool tr=mem::tracking; mem::tracking=false;
    int to=r[n>1?T.choose(n):0]; count(F_PREEMPT); evt("-> t%d at %s%s%s",to,why,tr?" in ":"",tr?SH->phase:"");
    switchTo(to,tr); mem::tracking=tr;
}
void drawSkip(){ if(draws++>600){ skip=-1; return; } uint32_t v=T.choose(2*mean); skip=v?(long)v:-1; }
void pctPoint(){ // a change point was passed
    bool tr=mem::tracking; mem::tracking=false; points.erase(points.begin()); T_[cur]->prio=-(int)(1000-points.size()); int b=best(true);
    if(b>=0&&b!=cur){ count(F_PREEMPT); if(T_[cur]->prio<-900) count(F_STALL); evt("-> t%d by priority%s%s",b,tr?" in ":"",tr?SH->phase:""); switchTo(b,tr); }
    mem::tracking=tr;
}
inline void accessPoint(bool contended){
    clock_++; SH->ticks++;
    if(++spin>3000000){ spin=0; preempt("fairness"); return; }
    switch(strat){
        case 2: if(skip>0&&--skip==0){ preempt("access"); drawSkip(); } break;
        case 3: if(contended&&draws<600){ draws++; if(T.choose(denom)==denom-1) preempt("shared access"); } break;
        case 4: if(!points.empty()&&clock_>=points[0]) pctPoint(); break;
    }
}
void syncPoint(const char* what){
    if(!thr::active) return;
    clock_++; SH->ticks++;
    if(strat==4){ if(!points.empty()&&clock_>=points[0]) pctPoint(); else { int b=best(true); if(b>=0&&b!=cur&&T_[b]->prio>T_[cur]->prio){ bool tr=mem::tracking; mem::tracking=false; evt("-> t%d by priority",b); switchTo(b,tr); mem::tracking=tr; } } return; }
    if(strat>=1&&draws<2000){ draws++; if(T.choose(strat==1?2:4)==1) preempt(what); }
}
// ------------------------------------------------------------------ shadow
struct Cell { uint32_t r[NT],w[NT],ar[NT],aw[NT],pr[NT],pw[NT]; };
struct Page { uintptr_t key; Cell* cells; };
const size_t PAGES=1<<16; Page* pages=nullptr; unsigned char* shadowTop=nullptr,*shadowEnd=nullptr;
uintptr_t lastKey=0; Cell* lastCells=nullptr; uintptr_t imageBase=0;
Cell* cellOf(uintptr_t a,bool make=true){
    uintptr_t k=a>>12; if(k==lastKey) return lastCells+((a>>3)&511);
    if(!pages){ pages=(Page*)mmap(nullptr,PAGES*sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); size_t n=(size_t)16<<30; shadowTop=(unsigned char*)mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); shadowEnd=shadowTop+n; }
    size_t i=(k*0x9e3779b97f4a7c15ull>>48)&(PAGES-1);
    while(pages[i].cells&&pages[i].key!=k) i=(i+1)&(PAGES-1);
    if(!pages[i].cells){ if(!make) return nullptr; if(shadowTop+512*sizeof(Cell)>shadowEnd) harnessError("shadow memory exhausted"); pages[i].key=k; pages[i].cells=(Cell*)shadowTop; shadowTop+=512*sizeof(Cell); }
    lastKey=k; lastCells=pages[i].cells; return lastCells+((a>>3)&511);
}
void race(uintptr_t a,int other,const char* mine,const char* theirs,const void* pc,uint32_t opc){
    mem::tracking=false; const void* q=(void*)(imageBase+opc); std::string x=fnName(pc),y=opc?fnName(q):"?"; if(y<x) std::swap(x,y);
    violation("race:"+x+":"+y,strf("thread %d %s %zu bytes into memory thread %d %s without order between them: ",cur,mine,(size_t)(a&7),other,theirs)+where(pc)+" in '"+SH->phase+"' and "+(opc?where(q):"?")+" in '"+T_[other]->ctx.phase+"'");
}
enum Kind { RD,WR,ARD,AWR };
inline bool ownStack(uintptr_t a){ Thr* t=T_[cur]; return a-t->lo<t->hi-t->lo; }
void heapCheck(uintptr_t a,size_t n,bool wr,const void* pc){
    int s=thr::heapState((void*)a,n); if(!s) return;
    mem::tracking=false; violation(std::string(s==1?"memory:use-after-free:":"memory:heap-overflow:")+fnName(pc),strf("%s of %zu bytes %s in ",wr?"write":"read",n,s==1?"of a block already freed":"outside any block")+where(pc)+" during '"+SH->phase+"'");
}
void accessRange(uintptr_t a,size_t n,Kind k,const void* pc,bool sched){
    if(!n) return;
    bool wr=k==WR||k==AWR; heapCheck(a,n,wr,pc);
    if(!thr::active||ownStack(a)) return;
    count(C_ACCESSES);
    if(sched){
        bool cont=false;
        if(strat==3){ Cell* c=cellOf(a); for(int t=0;t<nThr&&!cont;t++) if(t!=cur) cont=c->w[t]||c->aw[t]||(wr&&(c->r[t]||c->ar[t])); }
        accessPoint(cont);
        heapCheck(a,n,wr,pc); // others may have run
    }
    Thr* me=T_[cur]; uint32_t ep=me->vc.c[cur]; uint32_t p32=(uint32_t)((uintptr_t)pc-imageBase);
    for(uintptr_t b=a&~7ull;b<a+n;b+=8){
        uint32_t mask=0xff; if(b<a) mask&=0xff<<(a-b); if(b+8>a+n) mask&=0xff>>(b+8-a-n); mask&=0xff;
        Cell* c=cellOf(b);
        for(int t=0;t<nThr;t++){
            if(t==cur) continue; uint32_t seen=me->vc.c[t];
            if((c->w[t]&mask)&&(c->w[t]>>8)>seen) race(b,t,wr?"writes":"reads","wrote",pc,c->pw[t]);
            if(k==WR||k==RD) if((c->aw[t]&mask)&&(c->aw[t]>>8)>seen) race(b,t,wr?"writes":"reads","wrote atomically",pc,c->pw[t]);
            if(wr&&(c->r[t]&mask)&&(c->r[t]>>8)>seen) race(b,t,"writes","read",pc,c->pr[t]);
            if(k==WR&&(c->ar[t]&mask)&&(c->ar[t]>>8)>seen) race(b,t,"writes","read atomically",pc,c->pr[t]);
        }
        uint32_t* f=k==RD?c->r:k==WR?c->w:k==ARD?c->ar:c->aw; uint32_t& v=f[cur];
        if((v>>8)==ep) v|=mask; else v=ep<<8|mask;
        (wr?c->pw:c->pr)[cur]=p32;
    }
}
inline void access(const void* p,size_t n,Kind k,const void* pc){ if(!mem::tracking) return; accessRange((uintptr_t)p,n,k,pc,true); }
void release(VC& v){ Thr* t=T_[cur]; v.join(t->vc); t->vc.c[cur]++; }
void acquire(const VC& v){ T_[cur]->vc.join(v); }
void stackBounds(Thr* t){ pthread_attr_t a; pthread_getattr_np(pthread_self(),&a); void* p; size_t n; pthread_attr_getstack(&a,&p,&n); t->lo=(uintptr_t)p; t->hi=t->lo+n; pthread_attr_destroy(&a); }
int addThread(){ if(nThr>=NT) harnessError("too many threads"); Thr* t=new Thr; T_[nThr]=t; t->vc.c[nThr]=1; return nThr++; }
void ensure(){ if(inited) return; Quiet q; inited=true; addThread(); stackBounds(T_[0]); Dl_info i; dladdr((void*)&deadlock,&i); imageBase=(uintptr_t)i.dli_fbase; T_[0]->held=0; }
unsigned char* stackPool=nullptr; const size_t STK=1<<20;
void finishThread(){ // the running thread ends
    mem::tracking=false; Thr* me=T_[cur]; me->st=DONE_; evt("ends"); wake(me);
    wake(&thr::active); // whoever waits for all
    int r[NT]; int n=runnable(r,false); if(!n) deadlock();
    switchTo(strat==4?best(false):r[n>1?T.choose(n):0],false);
}
void* body(void* v){
    int id=(int)(intptr_t)v; Thr* t=T_[id]; futexWait(t->go); cur=id; EVT_THREAD=id; loadCtx(t->ctx);
    if(t->sim) { mem::tracking=true; t->ret=t->start(t->arg); mem::tracking=false; }
    else t->f();
    finishThread(); return nullptr;
}
void launch(int id){
    Quiet q; Thr* t=T_[id]; if(!stackPool) stackPool=(unsigned char*)mmap((void*)0x300000000000ull,STK*NT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,stackPool+STK*id,STK); t->lo=(uintptr_t)(stackPool+STK*id); t->hi=t->lo+STK;
    if(__real_pthread_create(&t->h,&a,body,(void*)(intptr_t)id)) harnessError("cannot create a thread"); pthread_attr_destroy(&a);
    count(C_THREADS);
}
}
namespace thr {
bool active=false;
int self(){ return cur; }
uint64_t now(){ return ++clock_; }
int locksHeld(){ return T_[cur]->held; }
std::string strategyName(){ static const char* n[]={"run to completion","switch at locks and I/O","random switches","switch at shared data","priorities"}; return n[strat]; }
void begin(){
    ensure(); strat=T.pick({1,4,6,5,5}); static const uint32_t M[]={30,200,1500,10000}; mean=M[T.choose(4)]; static const uint32_t D[]={4,16,64}; denom=D[T.choose(3)];
    if(strat==2) drawSkip();
    reuse=T.choose(3)==2;
    disk::yieldHook=[](const char* w){ syncPoint(w); };
}
void spawn(const std::function<void()>& f){ Quiet q; int id=addThread(); T_[id]->f=f; T_[id]->vc.join(T_[cur]->vc); T_[cur]->vc.c[cur]++; launch(id); }
void join(){
    Quiet q; active=true; EVT_THREAD=0;
    if(strat==4){ int d=1+T.choose(4); static const uint32_t L[]={300,3000,30000,300000}; uint32_t len=L[T.choose(4)]; for(int i=0;i<d;i++) points.push_back(clock_+1+T.choose(len)); std::sort(points.begin(),points.end()); for(int i=1;i<nThr;i++) T_[i]->prio=(int)T.choose(100); T_[0]->prio=-5000; }
    for(;;){ bool all=true; for(int i=1;i<nThr;i++) all=all&&T_[i]->st==DONE_; if(all) break; block(&thr::active,"the threads to end"); }
    for(int i=1;i<nThr;i++){ T_[0]->vc.join(T_[i]->vc); if(!T_[i]->sim) __real_pthread_join(T_[i]->h,nullptr); }
    active=false; EVT_THREAD=-1; evt("all threads have ended");
}
void yield(const char* w){ syncPoint(w); }
void touch(const void* p,size_t n,bool wr){ if(n) { bool tr=mem::tracking; accessRange((uintptr_t)p,n,wr?WR:RD,__builtin_return_address(0),false); mem::tracking=tr; } }
void wipe(const void* p,size_t n){ if(n>1<<20) n=1<<20; for(uintptr_t a=(uintptr_t)p&~7ull;a<(uintptr_t)p+n;a+=8){ Cell* c=cellOf(a,false); if(c) memset(c,0,sizeof *c); else a|=0xff8; } }
void freeing(const void* p,size_t n,const void* pc){ if(active&&n&&inited) { bool tr=mem::tracking; accessRange((uintptr_t)p,std::min<size_t>(n,1<<16),WR,pc,false); mem::tracking=tr; } }
}
// ------------------------------------------------------------- call-outs
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(N) void __tsan_read##N(void* p){access(p,N,RD,PC);} void __tsan_write##N(void* p){access(p,N,WR,PC);} void __tsan_unaligned_read##N(void* p){access(p,N,RD,PC);} void __tsan_unaligned_write##N(void* p){access(p,N,WR,PC);} \
 void __tsan_read_write##N(void* p){access(p,N,RD,PC);access(p,N,WR,PC);} void __tsan_unaligned_read_write##N(void* p){access(p,N,RD,PC);access(p,N,WR,PC);} \
 void __tsan_volatile_read##N(void* p){access(p,N,RD,PC);} void __tsan_volatile_write##N(void* p){access(p,N,WR,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p){access(p,8,RD,PC);}
void __tsan_vptr_update(void** p,void* v){ if(*p!=v) access(p,8,WR,PC); }
void __tsan_read_range(void* p,unsigned long n){access(p,n,RD,PC);} void __tsan_write_range(void* p,unsigned long n){access(p,n,WR,PC);}
void* __tsan_memcpy(void* d,const void* s,size_t n){ access(s,n,RD,PC); access(d,n,WR,PC); return memcpy(d,s,n); }
void* __tsan_memmove(void* d,const void* s,size_t n){ access(s,n,RD,PC); access(d,n,WR,PC); return memmove(d,s,n); }
void* __tsan_memset(void* d,int c,size_t n){ access(d,n,WR,PC); return memset(d,c,n); }
}
// Atomics: performed as one step; their order arguments decide what they order.
namespace {
bool acq(int mo){ return mo==1||mo==2||mo==4||mo==5; } bool rel(int mo){ return mo==3||mo==4||mo==5; }
struct Atomic { // around one atomic operation
    bool on; const void* p; int mo;
    Atomic(const void* p,size_t n,bool wr,int mo,const void* pc):on(mem::tracking),p(p),mo(mo){
        if(!on) return;
        access(p,n,wr?AWR:ARD,pc); if(thr::active&&++atomicRun>200){ atomicRun=0; preempt("fairness"); }
        ensure(); Quiet q; Sync& s=sync(p); if(acq(mo)) acquire(s.vc); if(wr&&rel(mo)) release(s.vc);
    }
};
}
extern "C" {
#define AT(B,TY) \
TY __tsan_atomic##B##_load(const volatile TY* a,int mo){ Atomic x((void*)a,sizeof(TY),false,mo,PC); return *a; } \
void __tsan_atomic##B##_store(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); *a=v; } \
TY __tsan_atomic##B##_exchange(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=v; return o; } \
TY __tsan_atomic##B##_fetch_add(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=o+v; return o; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=o-v; return o; } \
TY __tsan_atomic##B##_fetch_and(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=o&v; return o; } \
TY __tsan_atomic##B##_fetch_or(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=o|v; return o; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=o^v; return o; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY* a,TY v,int mo){ Atomic x((void*)a,sizeof(TY),true,mo,PC); TY o=*a; *a=~(o&v); return o; } \
static bool cas##B(volatile TY* a,TY* c,TY v,int mo,int fmo,const void* pc){ \
    if(mem::tracking){ access((void*)a,sizeof(TY),ARD,pc); if(thr::active&&++atomicRun>200){ atomicRun=0; preempt("fairness"); } } \
    bool ok=*a==*c; { bool t=mem::tracking; Quiet q; if(t){ ensure(); Sync& s=sync((void*)a); if(acq(ok?mo:fmo)) acquire(s.vc); if(ok&&rel(mo)) release(s.vc); } } \
    if(ok){ *a=v; } else *c=*a; return ok; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a,TY* c,TY v,int mo,int fmo){ return cas##B(a,c,v,mo,fmo,PC); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a,TY* c,TY v,int mo,int fmo){ return cas##B(a,c,v,mo,fmo,PC); } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a,TY c,TY v,int mo,int fmo){ cas##B(a,&c,v,mo,fmo,PC); return c; }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int mo){ if(!mem::tracking) return; ensure(); Quiet q; Sync& s=sync((void*)8); if(acq(mo)) acquire(s.vc); if(rel(mo)) release(s.vc); }
void __tsan_atomic_signal_fence(int){}
}
// ---------------------------------------------------------- locks and more
static int lockMutex(pthread_mutex_t* m,bool tryOnly,bool hidden){
    ensure(); if(mem::tracking&&!hidden) syncPoint("lock"); Quiet q; bool rec=(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE;
    for(;;){
        Sync& s=sync(m);
        if(s.owner<0){ s.owner=cur; s.depth=1; acquire(s.vc); T_[cur]->held++; return 0; }
        if(s.owner==cur){ if(rec){ s.depth++; T_[cur]->held++; return 0; } if(tryOnly) return EBUSY; violation("deadlock:self",strf("thread %d locks a mutex it already holds, in '%s'",cur,SH->phase)); }
        if(tryOnly) return EBUSY;
        block(m,"a lock");
    }
}
static int unlockMutex(pthread_mutex_t* m){
    ensure(); { Quiet q; Sync& s=sync(m); if(s.owner!=cur) violation("unlock",strf("thread %d unlocks a mutex it does not hold, in '%s'",cur,SH->phase)); T_[cur]->held--; if(--s.depth>0) return 0; s.owner=-1; release(s.vc); wake(m); }
    if(mem::tracking) syncPoint("unlock"); return 0;
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ return lockMutex(m,false,false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m){ return lockMutex(m,true,false); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec*){ return lockMutex(m,false,false); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t,const struct timespec*){ return lockMutex(m,false,false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ return unlockMutex(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ Quiet q; ensure(); sync(m)=Sync(); return __real_pthread_mutex_init(m,a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m){ Quiet q; ensure(); Sync& s=sync(m); if(s.owner>=0) violation("lock-destroyed",strf("a mutex is destroyed while thread %d holds it, in '%s'",s.owner,SH->phase)); syncs->erase((uintptr_t)m); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t* m,int){ Quiet q; ensure(); sync((void*)m)=Sync(); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t*){ return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m){
    ensure(); if(mem::tracking) syncPoint("lock"); Quiet q;
    for(;;){ Sync& s=sync((void*)m); if(s.owner<0){ s.owner=cur; acquire(s.vc); T_[cur]->held++; return 0; } if(s.owner==cur) violation("deadlock:self","a thread locks a spin lock it already holds"); block((void*)m,"a spin lock"); }
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m){ ensure(); Quiet q; Sync& s=sync((void*)m); if(s.owner>=0) return EBUSY; s.owner=cur; acquire(s.vc); T_[cur]->held++; return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m){ ensure(); { Quiet q; Sync& s=sync((void*)m); if(s.owner!=cur) violation("unlock","a spin lock is unlocked by a thread that does not hold it"); s.owner=-1; T_[cur]->held--; release(s.vc); wake((void*)m); } if(mem::tracking) syncPoint("unlock"); return 0; }
static int rwlock(pthread_rwlock_t* m,bool wr,bool tryOnly){
    ensure(); if(mem::tracking) syncPoint("lock"); Quiet q;
    for(;;){ Sync& s=sync(m); bool free=wr?(s.owner<0&&s.readers==0):s.owner<0;
        if(free){ if(wr) s.owner=cur; else { s.readers++; s.rd[cur]++; } acquire(s.vc); T_[cur]->held++; return 0; }
        if(tryOnly) return EBUSY; if(s.owner==cur||(wr&&s.rd[cur])) violation("deadlock:self",strf("thread %d waits for a lock it holds itself, in '%s'",cur,SH->phase));
        block(m,"a shared lock"); }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m){return rwlock(m,false,false);} int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m){return rwlock(m,true,false);}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m){return rwlock(m,false,true);} int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m){return rwlock(m,true,true);}
int __wrap_pthread_rwlock_init(pthread_rwlock_t* m,const pthread_rwlockattr_t*){ Quiet q; ensure(); memset(m,0,sizeof *m); sync(m)=Sync(); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m){ ensure(); { Quiet q; Sync& s=sync(m); if(s.owner==cur) s.owner=-1; else if(s.rd[cur]>0){ s.rd[cur]--; s.readers--; } else violation("unlock","a shared lock is unlocked by a thread that does not hold it"); T_[cur]->held--; release(s.vc); wake(m); } if(mem::tracking) syncPoint("unlock"); return 0; }
static int condWait(pthread_cond_t* c,pthread_mutex_t* m,bool timed){
    ensure(); Quiet q; Thr* me=T_[cur]; Sync& s=sync(m); int d=s.depth; if(s.owner!=cur) violation("unlock","a condition is waited for without its mutex"); s.owner=-1; s.depth=0; me->held-=d; release(s.vc); wake(m);
    me->timed=timed; me->timedOut=false; block(c,"a condition"); me->timed=false; bool to=me->timedOut; lockMutex(m,false,true); return to?ETIMEDOUT:0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){return condWait(c,m,false);}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec*){return condWait(c,m,true);}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t,const struct timespec*){return condWait(c,m,true);}
int __wrap_pthread_cond_signal(pthread_cond_t* c){ ensure(); Quiet q; int w[NT],n=0; for(int i=0;i<nThr;i++) if(T_[i]->st==BLOCKED&&T_[i]->on==c) w[n++]=i; if(n) T_[w[n>1?T.choose(n):0]]->st=READY; return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c){ ensure(); Quiet q; wake(c); return 0; }
int __wrap_pthread_once(pthread_once_t* o,void(*f)()){
    ensure();
    for(;;){ { Quiet q; Sync& s=sync(o); if(*(volatile int*)o==2){ acquire(s.vc); return 0; } if(s.busy<0){ s.busy=cur; break; } if(s.busy==cur) violation("deadlock:self","a one-time initialisation starts itself again"); block(o,"a one-time initialisation"); } }
    try{ f(); }catch(...){ Quiet q; sync(o).busy=-1; wake(o); throw; }
    { Quiet q; Sync& s=sync(o); s.busy=-1; *(volatile int*)o=2; release(s.vc); wake(o); } return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g){
    ensure();
    for(;;){ Quiet q; Sync& s=sync(g); if(*(volatile char*)g){ acquire(s.vc); return 0; } if(s.busy<0){ s.busy=cur; return 1; } if(s.busy==cur) violation("deadlock:self","the initialisation of a static variable starts itself again"); block(g,"a static variable's initialisation"); }
}
void __wrap___cxa_guard_release(uint64_t* g){ ensure(); { Quiet q; Sync& s=sync(g); s.busy=-1; *(volatile char*)g=1; release(s.vc); wake(g); } if(mem::tracking) syncPoint("initialised"); }
void __wrap___cxa_guard_abort(uint64_t* g){ ensure(); Quiet q; sync(g).busy=-1; wake(g); }
int __wrap_sched_yield(){ if(thr::active) preempt("sched_yield"); return 0; }
int __wrap_nanosleep(const struct timespec*,struct timespec*){ if(thr::active){ count(F_STALL); preempt("sleep"); } return 0; }
int __wrap_clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*){ if(thr::active){ count(F_STALL); preempt("sleep"); } return 0; }
int __wrap_usleep(unsigned){ if(thr::active){ count(F_STALL); preempt("sleep"); } return 0; }
// threads the library itself may start
int __wrap_pthread_create(pthread_t* h,const pthread_attr_t*,void*(*f)(void*),void* a){
    ensure(); Quiet q; int id=addThread(); Thr* t=T_[id]; t->sim=true; t->start=f; t->arg=a; t->vc.join(T_[cur]->vc); T_[cur]->vc.c[cur]++; memcpy(t->ctx.phase,SH->phase,sizeof t->ctx.phase); thr::active=true; launch(id); *h=t->h; return 0;
}
int __wrap_pthread_join(pthread_t h,void** r){
    ensure(); Quiet q; for(int i=0;i<nThr;i++) if(T_[i]->sim&&pthread_equal(T_[i]->h,h)){ while(T_[i]->st!=DONE_) block(T_[i],"a thread to end"); acquire(T_[i]->vc); if(r)*r=T_[i]->ret; return __real_pthread_join(h,nullptr); }
    return __real_pthread_join(h,r);
}
}
