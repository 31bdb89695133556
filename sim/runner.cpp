// Coordinator: draws runs from seeds, forks one process per run, classifies
// the outcome, replays and minimises tapes, and accumulates statistics.
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <unordered_map>

Shared* SH=nullptr;
Tape T;
void (*WARMUP)()=nullptr;
uint64_t edgeCount=0;
uint64_t EDGE_BUDGET=60000000;
int EVT_THREAD=-1;
static int errFd=-1;

extern "C" int __real_fileno(FILE*);
extern "C" ssize_t __real_write(int,const void*,size_t);
extern "C" ssize_t __real_read(int,void*,size_t);
extern "C" int __real_open64(const char*,int,...);
extern "C" int __real_close(int);
extern "C" off64_t __real_lseek64(int,off64_t,int);
extern "C" int __real_ftruncate64(int,off64_t);

struct QuietMem { bool t; QuietMem():t(mem::tracking){mem::tracking=false;} ~QuietMem(){mem::tracking=t;} };

std::string strf(const char* fmt,...){
    char b[4096]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); return b;
}
static void logLine(const char* s,size_t n){
    if(SH->logLen+n+1<MAX_LOG){ memcpy(SH->log+SH->logLen,s,n); SH->logLen+=n; SH->log[SH->logLen++]='\n'; SH->log[SH->logLen]=0; }
}
void evt(const char* fmt,...){
    QuietMem q;
    char b[512]; int o=EVT_THREAD>=0?snprintf(b,sizeof b,"t%d: ",EVT_THREAD):0;
    va_list ap; va_start(ap,fmt); int n=o+vsnprintf(b+o,sizeof b-o,fmt,ap); va_end(ap);
    if(n>=(int)sizeof b) n=sizeof b-1;
    SH->hash=hashBytes(b,n,SH->hash); SH->events++;
    logLine(b,n);
}
void evtHash(const char* what,uint64_t h){ evt("%s %016llx",what,(unsigned long long)h); }
void setPhase(const std::string& s){ snprintf(SH->phase,sizeof SH->phase,"%s",s.c_str()); }
void note(const std::string& s){ snprintf(SH->note,sizeof SH->note,"%s",s.c_str()); }
static void finishNow(int st){ SH->status=st; _exit(0); }
void violation(const std::string& cls,const std::string& msg){
    mem::tracking=false;
    snprintf(SH->cls,sizeof SH->cls,"%s",cls.c_str());
    for(char* p=SH->cls;*p;p++) if((unsigned char)*p<33||(unsigned char)*p>126) *p='_';
    snprintf(SH->msg,sizeof SH->msg,"%s",msg.c_str());
    finishNow(2); abort();
}
void harnessError(const std::string& msg){
    mem::tracking=false;
    snprintf(SH->cls,sizeof SH->cls,"harness");
    snprintf(SH->msg,sizeof SH->msg,"%s",msg.c_str());
    finishNow(3); abort();
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a,uint32_t* b){ static uint32_t n=0; if(a==b||*a) return; for(;a<b;a++) *a=++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g){
    if(!mem::tracking) return;
    unsigned char& e=SH->edges[*g&(MAX_EDGES-1)]; if(e<255) e++;
    if(++edgeCount>EDGE_BUDGET){ mem::tracking=false; violation(std::string("hang:")+SH->phase,strf("no end after %llu steps in: %s",(unsigned long long)edgeCount,SH->phase)); }
}
}

static const char* CTR[C_LAST]={
    "short_read","eintr_read","eio_read","premature_eof","truncation",
    "open_failure","short_write","eintr_write","eio_write","disk_full","process_death","close_failure",
    "bit_flip","overwrite","zeroed_block","lost_block","duplicated_block","swapped_blocks","missing_file","trailing_data",
    "alloc_failure","alloc_cap","heap_pattern","stack_pattern","locale_change","history_change","realloc_move","foreign_file",
    "preemption","blocked_lock","stalled_thread",
    "reads","writes","opens","api_calls","null_results","exact_results","partial_allowed","bad_alloc","other_exceptions",
    "particles","bytes","cache_hits","cache_misses","cache_frees","threads","queries","handle_reuse","context_switches",
    "memory_accesses","error_messages","gzip_files","header_reads","merges","clones","edit_ops","tool_runs"};
const char* ctrName(int i){
    static const char* f[]={"bgeo","bhclassic","itbl","atbl","pdb","pdb32","pdb64","bin","prt","ptc","ptf","pdc","geo","hclassic","pda","rib","mc","pts"};
    static std::string s; if(i<C_FMT0) return CTR[i]?CTR[i]:"?";
    i-=C_FMT0; s=std::string("format_")+(i<18?f[i]:"?"); return s.c_str();
}

static std::string slurpErr(){
    std::string s; char b[4096]; off64_t o=__real_lseek64(errFd,0,SEEK_SET); (void)o; ssize_t n;
    while((n=__real_read(errFd,b,sizeof b))>0&&s.size()<200000) s.append(b,n);
    return s;
}
static std::string between(const std::string& s,const std::string& a,const char* stop){
    size_t i=s.find(a); if(i==std::string::npos) return ""; i+=a.size(); size_t j=s.find_first_of(stop,i); return s.substr(i,j==std::string::npos?std::string::npos:j-i);
}
static bool wantSymbols=false;
struct Result { int status; std::string cls,msg; uint64_t hash,events,ticks; };

static Result runOne(const Property& p,const std::vector<uint32_t>* tape,uint64_t seed){
    memset((void*)SH,0,offsetof(Shared,tape));
    SH->logLen=0; SH->log[0]=0; memset(SH->edges,0,sizeof SH->edges); SH->phase[0]=0; SH->note[0]=0;
    SH->hash=0xcbf29ce484222325ull; SH->tapeLen=0;
    if(tape){ SH->tapeLen=std::min<size_t>(tape->size(),MAX_TAPE); memcpy(SH->tape,tape->data(),SH->tapeLen*4); }
    __real_ftruncate64(errFd,0); __real_lseek64(errFd,0,SEEK_SET);
    fflush(stdout);
    pid_t pid=fork();
    if(pid==0){
        dup2(errFd,2); dup2(errFd,1);
        struct rlimit rl={60,65}; setrlimit(RLIMIT_CPU,&rl);
        rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
        T=Tape(); T.buf=SH->tape; T.len=&SH->tapeLen; T.cap=MAX_TAPE;
        T.preset=SH->tapeLen; T.fresh=tape==nullptr; T.rng=Rng(seed);
        p.run();
        mem::tracking=false;
        if(T.overflow){ snprintf(SH->msg,sizeof SH->msg,"tape overflow"); SH->status=3; _exit(0); }
        SH->status=1; _exit(0);
    }
    int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR){}
    Result r; r.status=SH->status; r.hash=SH->hash; r.events=SH->events; r.ticks=SH->ticks;
    if(tape&&T.cap){}
    r.cls=SH->cls; r.msg=SH->msg;
    std::string ph=SH->phase; for(char& c:ph) if(c==' ') c='-';
    if(r.status==0){ // died
        std::string e=slurpErr();
        r.status=2;
        if(e.find("AddressSanitizer:")!=std::string::npos){
            std::string k=between(e,"AddressSanitizer: "," \n");
            if(k=="attempting") k=between(e,"AddressSanitizer: attempting "," \n");
            r.cls="memory:"+k+":"+ph;
            size_t i=e.find("ERROR: AddressSanitizer"); r.msg=e.substr(i==std::string::npos?0:i,6000);
        }else if(e.find("Assertion `")!=std::string::npos){ r.cls="assert:"+ph; r.msg=e.substr(e.find("Assertion `"),400); }
        else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGXCPU){ r.cls="hang:cpu:"+ph; r.msg="CPU time exhausted"; }
        else if(e.find("terminate called")!=std::string::npos){ r.cls="terminate:"+ph; r.msg=e.substr(0,600); }
        else if(WIFSIGNALED(st)){ r.cls=strf("signal-%d:",WTERMSIG(st))+ph; r.msg=e.substr(0,1000); }
        else { r.cls=strf("exit-%d:",WEXITSTATUS(st))+ph; r.msg=e.substr(0,1000); }
        for(char& c:r.cls) if((unsigned char)c<33||(unsigned char)c>126) c='_';
    }
    return r;
}
static std::vector<uint32_t> recorded(){ return std::vector<uint32_t>(SH->tape,SH->tape+SH->tapeLen); }

static void writeReplay(const std::string& file,const char* id,const Result& r,const std::vector<uint32_t>& tape,const std::string& origin){
    FILE* f=fopen(file.c_str(),"w"); if(!f){ fprintf(stdout,"cannot write %s\n",file.c_str()); exit(3);}
    fprintf(f,"property %s\nclass %s\nhash %016llx\nevents %llu\norigin %s\n",id,r.cls.c_str(),(unsigned long long)r.hash,(unsigned long long)r.events,origin.c_str());
    fprintf(f,"tape %zu",tape.size()); for(uint32_t v:tape) fprintf(f," %u",v); fprintf(f,"\n");
    fprintf(f,"run %s\n--- violation\n%s\n--- schedule and fault trace\n",SH->note,r.msg.c_str());
    fwrite(SH->log,1,SH->logLen,f);
    fclose(f);
}
struct Replay { std::string prop,cls,origin; uint64_t hash=0; std::vector<uint32_t> tape; bool ok=false; };
static Replay loadReplay(const char* file){
    Replay r; std::ifstream in(file); std::string line;
    while(std::getline(in,line)){
        std::istringstream ss(line); std::string k; ss>>k;
        if(k=="property") ss>>r.prop; else if(k=="class") ss>>r.cls; else if(k=="hash") ss>>std::hex>>r.hash;
        else if(k=="origin") std::getline(ss,r.origin);
        else if(k=="tape"){ size_t n; ss>>n; uint32_t v; while(ss>>v) r.tape.push_back(v); r.ok=true; }
        else if(k=="---") break;
    }
    return r;
}
static const Property* findProp(const std::string& id){ for(auto& p:PROPERTIES) if(id==p.id) return &p; return nullptr; }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

static std::vector<uint32_t> minimise(const Property& p,std::vector<uint32_t> tape,const std::string& cls,double limit,int& trials){
    double end=now()+limit; trials=0;
    auto attempt=[&](const std::vector<uint32_t>& c)->bool{
        if(now()>end) return false;
        trials++;
        Result r=runOne(p,&c,0);
        if(r.status!=2||r.cls!=cls) return false;
        std::vector<uint32_t> got=recorded();
        // the run may have used fewer values than given; trailing zeros are implied
        if(got.size()>c.size()) got.resize(c.size());
        while(!got.empty()&&got.back()==0) got.pop_back();
        if(got.size()<tape.size()||(got.size()==tape.size()&&got<tape)){ tape=got; return true; }
        return false;
    };
    bool progress=true;
    while(progress&&now()<end){
        progress=false;
        for(size_t bs=std::max<size_t>(1,tape.size()/2);bs>=1&&now()<end;bs/=2){
            for(size_t i=0;i<tape.size()&&now()<end;){
                std::vector<uint32_t> c=tape; size_t e=std::min(tape.size(),i+bs); c.erase(c.begin()+i,c.begin()+e);
                if(attempt(c)) progress=true; else {
                    bool nz=false; for(size_t k=i;k<e&&k<tape.size();k++) nz|=tape[k]!=0;
                    if(nz){ c=tape; for(size_t k=i;k<e;k++) c[k]=0; if(attempt(c)) progress=true; }
                    i+=bs;
                }
            }
            if(bs==1) break;
        }
        for(size_t i=0;i<tape.size()&&now()<end;i++){
            uint32_t lo=0,hi=tape[i]; // smallest value that still fails, by bisection
            while(lo<hi&&i<tape.size()&&now()<end){ uint32_t mid=lo+(hi-lo)/2; std::vector<uint32_t> c=tape; c[i]=mid; if(attempt(c)){progress=true; if(i<tape.size()&&tape[i]<=mid) hi=tape[i]; else break;} else lo=mid+1; }
        }
    }
    return tape;
}

extern "C" const char* __asan_default_options(){
    return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:abort_on_error=0:exitcode=77:symbolize=0:print_legend=0:print_summary=0:malloc_context_size=8:quarantine_size_mb=16:fast_unwind_on_malloc=1:handle_segv=1:detect_odr_violation=0:allow_addr2line=0";
}

int runnerMain(int argc,char** argv){
    // fixed address-space layout, so addresses repeat
    int pers=personality(0xffffffff);
    if(pers!=-1&&!(pers&ADDR_NO_RANDOMIZE)&&!getenv("SIM_REEXEC")){
        if(personality(pers|ADDR_NO_RANDOMIZE)!=-1){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); }
    }
    std::map<std::string,std::string> o;
    for(int i=1;i+1<argc;i+=2) o[argv[i]]=argv[i+1];
    SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    errFd=memfd_create("stderr",0);
    const Property* p=findProp(o["--prop"]);
    if(WARMUP) WARMUP();
    if(o.count("--replay")){
        Replay r=loadReplay(o["--replay"].c_str());
        if(!r.ok){printf("no tape in %s\n",o["--replay"].c_str());return 3;}
        p=findProp(r.prop); if(!p){printf("unknown property %s\n",r.prop.c_str());return 3;}
        Result q=runOne(*p,&r.tape,0);
        bool same=q.status==2&&q.cls==r.cls&&q.hash==r.hash;
        printf("status %d\nclass %s\nhash %016llx\nsame %d\n",q.status,q.cls.c_str(),(unsigned long long)q.hash,same?1:0);
        if(o.count("--out")) writeReplay(o["--out"],p->id,q,r.tape,r.origin);
        else { printf("run %s\n--- violation\n%s\n--- trace\n%.*s",SH->note,q.msg.c_str(),(int)SH->logLen,SH->log); }
        return q.status==2?1:q.status==1?0:3;
    }
    if(!p){ printf("unknown property\n"); return 3; }
    if(o.count("--minimise")){
        Replay r=loadReplay(o["--minimise"].c_str()); int trials;
        std::vector<uint32_t> m=minimise(*p,r.tape,r.cls,atof(o["--limit"].c_str()),trials);
        Result q=runOne(*p,&m,0);
        if(q.status!=2||q.cls!=r.cls){ printf("minimised run differs\n"); return 3; }
        writeReplay(o["--out"],p->id,q,m,r.origin+strf(" (minimised from %zu to %zu choices in %d trials)",r.tape.size(),m.size(),trials));
        printf("choices %zu -> %zu in %d trials\n",r.tape.size(),m.size(),trials);
        return 0;
    }
    uint64_t seed=strtoull(o["--seed"].c_str(),0,10),first=strtoull(o["--first"].c_str(),0,10),count=strtoull(o["--count"].c_str(),0,10);
    uint64_t step=o.count("--step")?strtoull(o["--step"].c_str(),0,10):1;
    double limit=o.count("--limit")?atof(o["--limit"].c_str()):1e9;
    std::string dir=o.count("--dir")?o["--dir"]:".";
    bool verbose=o.count("--verbose");
    uint64_t pid=hashBytes(p->id,strlen(p->id));
    uint64_t total[C_LAST]={0},ticks=0,events=0,hsum=0; uint64_t runs=0; int viol=0;
    std::unordered_set<uint64_t> shapes,logs; std::vector<unsigned char> cover(MAX_EDGES,0); std::vector<std::string> notes;
    std::unordered_map<std::string,int> seen; std::string herr; int nherr=0;
    double t0=now();
    for(uint64_t k=0;k<count;k++){
        if(now()-t0>limit) break;
        uint64_t i=first+k*step;
        Result r=runOne(*p,nullptr,mix64(mix64(seed,pid),i));
        runs++; ticks+=r.ticks; events+=r.events; hsum=hsum*1099511628211ull^r.hash;
        for(int c=0;c<C_LAST;c++) total[c]+=SH->counters[c];
        uint64_t h=0xcbf29ce484222325ull;
        for(int e=0;e<MAX_EDGES;e++) if(SH->edges[e]){ cover[e]=1; int v=SH->edges[e]; int b=v<4?v:v<8?4:v<16?5:v<32?6:v<128?7:8; h=(h^(uint64_t)(e*16+b))*1099511628211ull; }
        shapes.insert(h^SH->digest*0x9e3779b97f4a7c15ull); logs.insert(r.hash);
        if(notes.size()<6&&SH->note[0]&&k%17==0) notes.push_back(SH->note);
        if(verbose) printf("R %llu %d %016llx %s %s\n",(unsigned long long)i,r.status,(unsigned long long)r.hash,r.cls.c_str(),SH->note);
        if(r.status==3){ nherr++; if(herr.empty()) herr=strf("run %llu: ",(unsigned long long)i)+r.msg; }
        if(r.status==2){
            viol++;
            int& n=seen[r.cls];
            if(n++==0&&seen.size()<=20){
                std::string f=dir+strf("/v-%s-%llu-%llu.replay",p->id,(unsigned long long)seed,(unsigned long long)i);
                writeReplay(f,p->id,r,recorded(),strf("VERIF_SEED=%llu run=%llu",(unsigned long long)seed,(unsigned long long)i));
                printf("V %s %s\n",r.cls.c_str(),f.c_str()); fflush(stdout);
            }
            if(viol>300) break;
        }
    }
    int cov=0; for(unsigned char c:cover) cov+=c;
    if(o.count("--shapes")){ FILE* f=fopen(o["--shapes"].c_str(),"w"); for(uint64_t h:shapes) fwrite(&h,8,1,f); fclose(f); f=fopen((o["--shapes"]+".logs").c_str(),"w"); for(uint64_t h:logs) fwrite(&h,8,1,f); fclose(f); f=fopen((o["--shapes"]+".cov").c_str(),"w"); fwrite(cover.data(),1,cover.size(),f); fclose(f);}
    printf("S {\"runs\":%llu,\"violations\":%d,\"steps\":%llu,\"events\":%llu,\"edges\":%d,\"hash\":\"%016llx\",\"harness_errors\":%d,\"seconds\":%.3f,\"counters\":{",(unsigned long long)runs,viol,(unsigned long long)ticks,(unsigned long long)events,cov,(unsigned long long)hsum,nherr,now()-t0);
    for(int c=0;c<C_LAST;c++) if(c<C_FMT0+18) printf("%s\"%s\":%llu",c?",":"",ctrName(c),(unsigned long long)total[c]);
    printf("},\"classes\":{"); bool f1=true; for(auto& s:seen){ printf("%s\"%s\":%d",f1?"":",",s.first.c_str(),s.second); f1=false; }
    printf("},\"notes\":["); f1=true; for(auto& s:notes){ std::string e; for(char c:s) if(c=='"'||c=='\\'){e+='\\';e+=c;} else if((unsigned char)c>=32&&(unsigned char)c<127) e+=c; printf("%s\"%s\"",f1?"":",",e.c_str()); f1=false; }
    printf("]}\n");
    if(nherr) printf("H %s\n",herr.c_str());
    return nherr?3:viol?1:0;
}
