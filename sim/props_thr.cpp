// Runs with several threads: C01 and C02 (cached loads), C03 (I/O on different
// files), C04 (queries on a shared set), C16 (clone and merge from one source).
#include "thr.h"
#include "setref.h"
#include "user.h"
#include <algorithm>
#include <cmath>
using namespace Partio;

namespace {
Model look(const ParticlesData& p,int path,const char* ph){
    Model m; Outcome oc=api(ph,[&]{ m=userLook(p,path); });
    if(oc!=DONE) violation(std::string("exception:")+ph,oc==NOMEM?"out of memory without reason":"exception: "+lastExc);
    return m;
}
void noLock(const char* after){ if(thr::locksHeld()) violation(std::string("lock-held:")+after,strf("a thread holds %d locks after %s returned",thr::locksHeld(),after)); }
void startThr(){ disk::active=true; stackOn=false; thr::begin(); }
bool finitePositions(const Model& m){
    if(m.n<1) return false; const MAttr* a=m.find("position"); if(!a||a->type!=VECTOR||a->count!=3) return false;
    for(uint32_t v:a->data) if(!(std::fabs(bitsf(v))<1e6f)) return false; return true;
}

// -------------------------------------------------------- cached loads
struct Version { uint64_t from=0; bool missing=false,bad=false; Sample s; };
struct CFile { std::string path; std::vector<Version> v; size_t cur=0; bool sorted=false; };
struct Load { int file,thread; uint64_t inv=0,resp=0,relInv=~0ull,relResp=~0ull; ParticlesData* p=nullptr; long gen=0; uint64_t content=0; bool fired=false; };
enum { LOAD,RELEASE,USE,OTHER,CHANGE,HEADERS,HEAL };
struct COp { int kind,file,a,b; uint32_t r; };
struct Cache {
    bool faults=false; std::vector<CFile> files; std::vector<Load> loads; std::map<long,std::vector<Model>> seen;
    std::vector<std::vector<COp>> prog; int sick=-1; uint64_t healed=~0ull; FaultPlan dev;
};
Cache* C=nullptr;
void setVersion(CFile& f,size_t i){ Version& v=f.v[i]; v.from=thr::now(); f.cur=i; if(v.missing) disk::remove(f.path); else disk::put(f.path,v.s.bytes); evt("%s is now version %zu%s",f.path.c_str(),i,v.missing?" (missing)":v.bad?" (damaged)":""); }
// versions that were current at some moment of [a,b]
std::vector<int> during(const CFile& f,uint64_t a,uint64_t b){ std::vector<int> r; for(size_t i=0;i<=f.cur;i++){ uint64_t to=i<f.cur?f.v[i+1].from:~0ull; if(f.v[i].from<=b&&to>=a) r.push_back(i); } return r; }
bool deviceIll(int file,uint64_t a){ return file==C->sick&&a<=C->healed; }
void doLoad(int file,bool sort,long armAt,bool sticky,std::vector<size_t>& held){
    CFile& f=C->files[file]; Load l; l.file=file; l.thread=thr::self(); ErrStream es; std::string ph="load "+f.path;
    l.inv=thr::now(); if(armAt>=0) mem::arm(armAt,sticky);
    ParticlesData* p=nullptr; Outcome oc=api(ph,[&]{ p=readCached(f.path.c_str(),sort,true,es.os); });
    l.fired=mem::injected; mem::arm(-1,false); l.resp=thr::now(); l.p=p;
    evt("%s -> %s",ph.c_str(),oc==NOMEM?"bad_alloc":oc==OTHEREXC?lastExc.c_str():p?"set":"null"); noLock("a cached load");
    if(oc==OTHEREXC) violation("exception:load","exception from a cached load: "+lastExc);
    if(oc==NOMEM&&!l.fired) violation("nomem:load","out of memory without reason");
    if(!p){
        count(C_NULL_RESULT); bool reason=l.fired||deviceIll(file,l.inv); for(int i:during(f,l.inv,l.resp)) reason=reason||f.v[i].missing||f.v[i].bad; reason=reason||during(f,l.inv,l.resp).size()>1; // a file replaced while it is being read
        if(!reason) violation("spurious-failure:load",strf("the cached load of %s by thread %d fails though nothing is wrong with the file: ",f.path.c_str(),l.thread)+es.text()); return;
    }
    l.gen=thr::heapSeq(p); if(!l.gen) violation("dead-set:load",strf("the cached load of %s returns a set that does not exist any more",f.path.c_str()));
    size_t id=C->loads.size(); C->loads.push_back(l); held.push_back(id);
    // the first look at a generation says what it holds; it must stay so
    Model m=look(*p,id%4,"use"); l.content=hashModel(m); C->loads[id].content=l.content; auto& s=C->seen[l.gen]; if(s.empty()) s.push_back(m);
    else { std::string d=compare(s[0],m,0); if(!d.empty()) violation("content-changed",strf("the set of %s changed while it was held: ",f.path.c_str())+d); }
}
void doRel(size_t id){ Load& l=C->loads[id]; ParticlesData* p=l.p; l.relInv=thr::now(); if(api("release cached",[&]{ p->release(); })!=DONE) violation("exception:release","exception while releasing a cached set"); C->loads[id].relResp=thr::now(); evt("released load %zu",id); noLock("a release"); }
void doUse(size_t id,int path){
    Load l=C->loads[id]; Model m=look(*l.p,path,"use"); std::string d=compare(C->seen[l.gen][0],m,0);
    if(!d.empty()) violation("content-changed",strf("the set of %s changed while it was held: ",C->files[l.file].path.c_str())+d);
    if(C->files[l.file].sorted&&path<2&&m.n){ QSet q{m,false}; const MAttr& a=*m.find("position"); float lo[3],hi[3]; for(int k=0;k<3;k++){ lo[k]=bitsf(a.data[k]); hi[k]=bitsf(a.data[a.data.size()-3+k]); } std::string e; trackQueries=true; api("find in cached",[&]{ bool t=mem::tracking; mem::tracking=false; e=checkBox(q,*l.p,lo,hi); mem::tracking=t; }); if(!e.empty()) violation("box:cached",e); }
}
void doOther(const COp& o){
    CFile& f=C->files[o.file]; ParticlesDataMutable* p=nullptr; ErrStream es;
    switch(o.a%4){
        case 0: { uint64_t a=thr::now(); if(api("ordinary read",[&]{ p=read(f.path.c_str(),true,es.os); })!=DONE) violation("exception:read","exception from an ordinary read"); bool bad=deviceIll(o.file,a); auto w=during(f,a,thr::now()); for(int i:w) bad=bad||f.v[i].missing||f.v[i].bad; bad=bad||w.size()>1; if(!p&&!bad) violation("spurious-failure:read","an ordinary read fails though nothing is wrong with the file"); } break;
        case 1: api("create",[&]{ p=create(); p->addAttribute("x",FLOAT,2); }); break;
        case 2: api("create",[&]{ p=createInterleave(); p->addAttribute("id",INT,1); }); break;
        default: { ParticlesInfo* h=nullptr; api("headers",[&]{ h=readHeaders(f.path.c_str(),true,es.os); }); if(h) doRelease(h); return; }
    }
    if(!p) return;
    for(auto& l:C->loads) if(l.gen==thr::heapSeq(p)&&l.relInv==~0ull) violation("shared-uncached","an ordinary set is the same as a cached one");
    if(o.b%3) api("fill",[&]{ userFill(*p,o.r%7); });
    // an ordinary set is freed by its one release, whatever lived at its address before
    auto freeOther=[&](ParticlesDataMutable* s){ long g=thr::heapSeq(s); doRelease(s); if(g&&thr::heapSeq(s)==g) violation("not-freed:ordinary","an ordinary set is still allocated after its release"); };
    if(o.b%2){ ParticlesDataMutable* c=nullptr; api("clone",[&]{ c=clone(*p,true); }); freeOther(p); p=c; }
    freeOther(p); noLock("a release");
}
void runProg(int t){
    std::vector<size_t> held;
    for(auto& o:C->prog[t]) switch(o.kind){
        case LOAD: doLoad(o.file,C->files[o.file].sorted,C->faults&&o.a%4==3?o.r%(o.b%2?14:160):-1,o.b%3==0,held); break;
        case RELEASE: if(!held.empty()){ size_t k=o.a%held.size(); size_t id=held[k]; held.erase(held.begin()+k); doRel(id); } break;
        case USE: if(!held.empty()) doUse(held[o.a%held.size()],o.b%4); break;
        case OTHER: doOther(o); break;
        case CHANGE: { CFile& f=C->files[o.file]; if(f.cur+1<f.v.size()) setVersion(f,f.cur+1); thr::yield("change"); } break;
        case HEAL: if(C->sick>=0&&C->healed==~0ull){ disk::heal(); C->healed=thr::now(); evt("the device works again"); } break;
    }
    if(t%2||C->prog[t].size()%2) while(!held.empty()){ size_t id=held.back(); held.pop_back(); doRel(id); }
}
void judge(){ // the whole history against the property
    std::map<long,std::vector<size_t>> gen; for(size_t i=0;i<C->loads.size();i++) gen[C->loads[i].gen].push_back(i);
    auto name=[&](size_t i){ Load& l=C->loads[i]; return strf("load %zu of %s by thread %d [%llu..%llu, released %llu..%llu]",i,C->files[l.file].path.c_str(),l.thread,(unsigned long long)l.inv,(unsigned long long)l.resp,(unsigned long long)l.relInv,(unsigned long long)l.relResp); };
    for(size_t i=0;i<C->loads.size();i++) for(size_t j=i+1;j<C->loads.size();j++){
        Load& a=C->loads[i]; Load& b=C->loads[j]; bool together=a.resp<b.relInv&&b.resp<a.relInv;
        if(a.file==b.file&&a.gen!=b.gen&&together) violation("two-copies",name(i)+" and "+name(j)+" are held at the same time but are different sets");
        if(a.file!=b.file&&a.gen==b.gen) violation("shared-between-files",name(i)+" and "+name(j)+" returned the same set");
    }
    for(auto& g:gen){
        std::vector<size_t> v=g.second; std::sort(v.begin(),v.end(),[&](size_t a,size_t b){ return C->loads[a].inv<C->loads[b].inv; });
        uint64_t last=C->loads[v[0]].relResp,firstResp=~0ull; for(size_t i:v) firstResp=std::min(firstResp,C->loads[i].resp);
        for(size_t k=1;k<v.size();k++){ Load& l=C->loads[v[k]]; if(l.inv>last) violation("not-reloaded",name(v[k])+" returned a set whose last holder had released it before"); last=std::max(last,l.relResp); count(C_CACHE_HIT); }
        count(C_CACHE_MISS); CFile& f=C->files[C->loads[v[0]].file]; uint64_t from=C->loads[v[0]].inv; bool ok=deviceIll(C->loads[v[0]].file,from)||during(f,from,firstResp).size()>1; std::string d="no version";
        for(int i:during(f,from,firstResp)){ if(f.v[i].bad||ok){ ok=true; break; } if(f.v[i].missing) continue; d=compare(f.v[i].s.want,C->seen[g.first][0],f.v[i].s.flags); if(d.empty()){ ok=true; break; } }
        if(!ok) violation("stale-content",name(v[0])+" holds none of the contents the file had meanwhile: "+d);
    }
}
void finishC(bool faults){
    for(size_t i=0;i<C->loads.size();i++) if(C->loads[i].relResp==~0ull){ if(T.pos%2) doUse(i,T.pos%4); doRel(i); }
    judge();
    std::set<long> u; for(auto& l:C->loads) u.insert(l.gen);
    for(auto& l:C->loads){ count(C_CACHE_FREE); if(thr::heapSeq(l.p)==l.gen) violation("not-freed","a cached set is still allocated after its last holder released it"); }
    if(faults){ disk::heal(); C->healed=std::min(C->healed,thr::now()); }
    // afterwards every file loads anew, with what it holds now
    for(size_t i=0;i<C->files.size();i++){
        CFile& f=C->files[i]; if(f.v[f.cur].bad||f.v[f.cur].missing){ Version v; v.s=f.v[0].s; f.v.push_back(v); setVersion(f,f.v.size()-1); }
        std::vector<size_t> h; size_t n0=C->loads.size(); doLoad((int)i,f.sorted,-1,false,h); if(h.empty()) violation("unusable:load","a good file does not load after the fault is gone");
        Load& l=C->loads[h[0]]; if(u.count(l.gen)) violation("not-reloaded","a cached load returns a set released by all its holders");
        std::string d=compare(f.v[f.cur].s.want,C->seen[l.gen][0],f.v[f.cur].s.flags); if(!d.empty()) violation("stale-content","the cached load after the last release does not give the file's current contents: "+d);
        doLoad((int)i,f.sorted,-1,false,h); if(C->loads[h[1]].gen!=C->loads[h[0]].gen) violation("two-copies","two loads of one file give different sets"); doRel(h[0]); doUse(h[1],0); doRel(h[1]); (void)n0;
        if(thr::heapSeq(C->loads[h[0]].p)==C->loads[h[0]].gen) violation("not-freed","a cached set is still allocated after its last holder released it");
    }
}
// names of different files that have much in common
std::string cacheName(int kind,int i,const char* ext){
    static const char* CASE[]={"smoke","Smoke","SMOKE"};
    switch(kind){
    case 1: return strf("/sim/%s.%s",CASE[i%3],ext);
    case 2: return strf("/sim/%c/smoke.%s",'a'+i,ext);
    case 3: return "/sim/"+std::string(230,'x')+strf("%d.%s",i,ext);
    case 4: return "/sim/smoke"+std::string(i,i==2?'.':'1')+"."+ext; // smoke, smoke1, smoke..
    case 5: return strf(i==1?"/sim/smoke.%s.gz":i?"/sim/smok.%s":"/sim/smoke.%s",ext);
    default: return strf("/sim/c%d.%s",i,ext);
    }
}
void runCache(bool faults){
    beginRun(); C=new Cache; C->faults=faults; int nf=T.pick({3,2,1})+1,nt=2+T.choose(3); std::string desc; int names=nf>1?T.pick({3,1,1,1,1,1}):0,fmt0=-1;
    for(int i=0;i<nf;i++){
        CFile f; int fmt; do fmt=names&&i?fmt0:drawReadable(); while(names==5&&!fmtGz(fmt)); fmt0=fmt; int nv=1+T.choose(4); bool all=true; Sample base;
        for(int k=0;k<nv;k++){ Version v; if(faults&&T.choose(3)==2&&k){ v.missing=T.choose(2); if(!v.missing){ v.bad=true; v.s=f.v[0].s; size_t n=drawCut(v.s.bytes.size()); v.s.bytes.resize(std::min(n,v.s.bytes.size())); } f.v.push_back(v); continue; }
            v.s=makeSample(fmt,T.choose(5)?10:60,false); all=all&&finitePositions(v.s.want); f.v.push_back(v); if(faults&&T.choose(4)==3&&nv==1){ } }
        if(faults&&T.choose(4)==3){ Version v; v.s=f.v[0].s; f.v.insert(f.v.begin(),v); f.v[0].missing=T.choose(2); if(!f.v[0].missing) { f.v[0].bad=true; f.v[0].s.bytes.resize(drawCut(f.v[0].s.bytes.size())); } std::swap(f.v[0],f.v[1]); }
        f.sorted=all&&T.choose(2); f.path=cacheName(names,i,FMT_NAME[fmt]); desc+=strf("%s(%zu versions%s) ",f.path.c_str(),f.v.size(),f.sorted?", sorted":""); C->files.push_back(f);
    }
    disk::reset(); C->prog.resize(nt+1);
    for(int t=1;t<=nt;t++){ int n=2+T.choose(7); for(int k=0;k<n;k++){ COp o; o.kind=k==0?LOAD:T.pick({6,5,3,2,2,0,0}); if(faults&&T.chance(1,12)) o.kind=HEAL; o.file=T.choose(nf); o.a=T.choose(12); o.b=T.choose(6); o.r=o.kind==LOAD?T.choose(160):o.kind==OTHER?T.choose(7):0; C->prog[t].push_back(o); } }
    startThr(); for(auto& f:C->files) setVersion(f,0);
    if(faults&&T.choose(2)){ C->sick=T.choose(nf); FaultPlan& p=C->dev; p.only=C->files[C->sick].path; switch(T.choose(3)){ case 0: p.eioReadAt=T.choose(4); p.eioReadSticky=T.choose(2); break; case 1: p.eofReadAt=T.choose(4); break; default: p.openFailAt=T.choose(3); p.openErrno=5; p.openFailSticky=T.choose(2); } disk::plan(p); desc+=strf("device fault on %s ",p.only.c_str()); }
    note(strf("%d threads, %s, ",nt,thr::strategyName().c_str())+desc);
    for(int t=1;t<=nt;t++) thr::spawn([t]{ runProg(t); });
    thr::join(); finishC(faults);
    if(faults){ // failing loads leave nothing behind
        CFile& f=C->files[0]; long live[3]; int how=T.choose(3); uint32_t r=T.choose(160);
        for(int k=0;k<3;k++){
            if(how==0) disk::remove(f.path); else if(how==1){ Bytes b=f.v[0].s.bytes; b.resize(std::min<size_t>(b.size(),r)); disk::put(f.path,b); }
            ErrStream es; ParticlesData* p=nullptr; if(how==2) mem::arm(r,true); api("failing load",[&]{ p=readCached(f.path.c_str(),false,true,es.os); }); mem::arm(-1,false); if(p&&api("release cached",[&]{ p->release(); })!=DONE) violation("exception:release","exception while releasing a cached set");
            noLock("a cached load"); live[k]=mem::liveCount();
        }
        if(live[2]!=live[1]) violation("leak:load",strf("a failing cached load leaves %ld blocks allocated",live[2]-live[1]));
    }
    if(disk::openHandles()) noHandles("cached loads");
}
}
static void runC01(){ runCache(false); }
static void runC02(){ runCache(true); }

// ------------------------------------------- C03 I/O on different files
namespace {
struct Job {
    int kind; int fmt=0,impl=0,path=0; bool force=false,verbose=true; std::string in,out,dir; Bytes bytes; Model m,m2; QSet q; uint32_t r=0; std::string i0;
    std::vector<std::string> res; // what it gave, in words
};
void say(Job& j,const std::string& s){ j.res.push_back(s); }
std::string digest(const Model& m){ return describe(m)+strf(" %016llx",(unsigned long long)hashModel(m)); }
void lookInto(Job& j,ParticlesDataMutable* p){ if(!p){ say(j,"null"); return; } if(p->numParticles()>100000) say(j,strf("%d particles",p->numParticles())); else say(j,digest(look(*p,j.r%4,"look"))); doRelease(p); }
void runJob(Job& j){
    auto text=[&](ErrStream& e,Outcome oc){ say(j,strf("outcome %d, says: ",(int)oc)+e.text()); };
    switch(j.kind){
    case 0: { ErrStream e; ParticlesDataMutable* p=nullptr; Outcome oc=api("read",[&]{ p=read(j.in.c_str(),j.verbose,e.os); }); text(e,oc); lookInto(j,p); } break;
    case 1: { ErrStream e; ParticlesInfo* p=nullptr; Outcome oc=api("headers",[&]{ p=readHeaders(j.in.c_str(),j.verbose,e.os); }); text(e,oc); if(p){ Model m; api("look",[&]{ m=extractHeaders(*p); }); say(j,digest(m)); doRelease(p); } else say(j,"null"); } break;
    case 2: { ParticlesDataMutable* p=makeAs(j.m,j.impl,j.path); ErrStream e; Outcome oc=api("write",[&]{ Partio::write(j.out.c_str(),*p,j.force,j.verbose,e.os); }); text(e,oc); say(j,digest(look(*p,j.r%4,"look"))); doRelease(p);
        Bytes b=disk::get(j.out); say(j,strf("file of %zu bytes %016llx",b.size(),(unsigned long long)hashBytes(b.data(),b.size())));
        if(j.r%2){ ErrStream f; ParticlesDataMutable* q=nullptr; oc=api("read",[&]{ q=read(j.out.c_str(),true,f.os); }); text(f,oc); lookInto(j,q); } } break;
    case 3: { ErrStream e; ParticlesData* p=nullptr; Outcome oc=api("cached",[&]{ p=readCached(j.in.c_str(),false,j.verbose,e.os); }); text(e,oc); if(p){ if(p->numParticles()>100000) say(j,strf("%d particles",p->numParticles())); else say(j,digest(look(*p,j.r%4,"look"))); api("release",[&]{ p->release(); }); } else say(j,"null"); } break;
    case 4: { ParticlesDataMutable* p=makeAs(j.q.m,0,j.path); api("sort",[&]{ p->sort(); }); std::vector<ParticleIndex> r; std::vector<float> d; api("find",[&]{ float lo[3]={-1,-2,-1},hi[3]={2,1,1}; p->findPoints(lo,hi,r); p->findNPoints(hi,1+j.r%5,3.f,r,d); }); std::sort(r.begin(),r.end()); std::string s="found"; for(auto x:r) s+=strf(" %llu",(unsigned long long)x); for(float x:d) s+=strf(" %g",x); say(j,j.q.exact&&j.q.m.n<=1?s:strf("found %zu",r.size())); doRelease(p); } break;
    case 5: { ParticlesDataMutable* a=makeAs(j.m,j.impl,j.path); ParticlesDataMutable* b=makeAs(j.m2,!j.impl,j.path/2); ParticlesDataMutable* c=nullptr; api("clone",[&]{ c=clone(*a,true); }); Outcome oc=api("merge",[&]{ merge(*c,*b,j.i0); }); say(j,strf("outcome %d",(int)oc)); say(j,digest(look(*c,0,"look"))); doRelease(a); doRelease(c); doRelease(b); } break;
    default: { ParticlesDataMutable* p=makeAs(j.q.m,0,j.path); ParticlesDataMutable* c=nullptr; Outcome oc=api("cluster",[&]{ c=computeClustering(p,1+j.r%4,1.5f,0.3,1+(int)(j.r%2),1.0); }); say(j,strf("outcome %d",(int)oc)); if(c){ Model m=look(*c,0,"look"); say(j,describe(m)); doRelease(c); } doRelease(p); } break;
    }
    noLock("a call"); 
}
}
static void runC03(){
    beginRun(); int nt=2+T.choose(3); bool cold=T.choose(2)==0; std::vector<std::vector<Job>> jobs(nt+1); std::string desc; std::map<std::string,Bytes> given;
    for(int t=1;t<=nt;t++){
        int n=1+T.choose(3); int like=T.choose(3)==0&&t>1&&!jobs[t-1].empty(); // often the same format as its neighbour
        for(int k=0;k<n;k++){
            Job j; j.kind=T.pick({6,3,6,2,1,1,1}); j.fmt=like&&k==0?jobs[t-1][0].fmt:drawReadable(); j.r=T.choose(1000); j.path=T.choose(8); j.impl=T.choose(3)==2; j.verbose=T.choose(4)!=0; std::string dir=strf("/sim/t%d_%d",t,k); count(C_FMT0+j.fmt);
            if((j.kind==0||j.kind==1)&&t>1&&T.choose(6)==5){ Job& o=jobs[1+T.choose(t-1)][0]; if(o.kind==0||o.kind==1){ j.in=o.in; j.fmt=o.fmt; } } // the same file, read by several at once
            if(!j.in.empty()) ;
            else if(j.kind==0||j.kind==1||j.kind==3){
                Sample s=makeSample(j.fmt,T.choose(6)?12:120,true,cold?1:-1); j.in=dir+"."+FMT_NAME[j.fmt]+(s.gz?".gz":""); Bytes b=s.bytes;
                switch(T.pick({6,1,1,1,1})){ case 1: b.resize(drawCut(b.size())); given[j.in]=b; break; case 2: break; case 3: mutate(b); if(b.size()>4096) b.resize(4096); given[j.in]=b; break; case 4: j.in=dir+(T.choose(2)?".unknown":""); given[j.in]=b; break; default: given[j.in]=b; }
            }else if(j.kind==2){ while(!fmtWritable(j.fmt)) j.fmt=T.choose(NFMT); if(T.chance(1,18)) j.fmt=RIB; j.m=genModel(j.fmt,T.choose(6)?12:100); bool gz=drawGz(j.fmt); j.force=fmtGz(j.fmt)&&T.choose(6)==5; j.out=dir+"."+FMT_NAME[j.fmt]+(gz?".gz":""); if(T.chance(1,20)) j.out=dir+".unknown"; }
            else if(j.kind==5){ j.m=genModel(BGEO,10); sanitise(j.m); j.m2=related(j.m); sanitise(j.m2); if(T.choose(2)){ putIds(j.m,"id",4); putIds(j.m2,"id",4); j.i0="id"; } }
            else { do j.q=querySet(30); while(j.q.m.n<1); if(j.kind==6) while(j.q.m.attrs.size()>1) j.q.m.attrs.erase(j.q.m.attrs.begin()+(j.q.m.attrs[0].name=="position")); }
            static const char* K[]={"read","headers","write","cached","sort","merge","cluster"}; desc+=strf("t%d:%s %s; ",t,K[j.kind],j.kind<4?(j.in+j.out).c_str():""); jobs[t].push_back(j);
        }
    }
    disk::reset(); for(auto& g:given) disk::put(g.first,g.second);
    FaultPlan slow=slowIO(true,true);
    if(T.choose(4)==3){ // the device fails for one of the files; the other calls must not notice, and this one as it does alone
        Job& j=jobs[1+T.choose(nt)][0]; std::string path=j.in+j.out; int users=0; for(auto& q:jobs) for(auto& x:q) users+=x.in+x.out==path;
        if(!path.empty()&&users==1){ slow=FaultPlan(); slow.only=path; const char* nm="";
            if(j.kind==2) switch(T.choose(4)){ case 0: nm="disk full"; slow.capacity=T.choose(3000); break; case 1: nm="write error"; slow.eioWriteAt=T.choose(3); slow.eioWriteSticky=T.choose(2); break; case 2: nm="open failure"; slow.openFailAt=0; slow.openErrno=13; slow.openFailSticky=T.choose(2); break; default: nm="close failure"; slow.closeFailAt=0; }
            else switch(T.choose(3)){ case 0: nm="read error"; slow.eioReadAt=T.choose(4); slow.eioReadSticky=T.choose(2); break; case 1: nm="premature end"; slow.eofReadAt=T.choose(4); break; default: nm="open failure"; slow.openFailAt=T.choose(2); slow.openErrno=24; slow.openFailSticky=T.choose(2); }
            desc+=std::string(nm)+" on "+path+"; "; }
    }
    disk::plan(slow);
    startThr(); note(strf("%d threads%s, %s: ",nt,cold?" cold":"",thr::strategyName().c_str())+desc);
    for(int t=1;t<=nt;t++) thr::spawn([&jobs,t]{ for(auto& j:jobs[t]) runJob(j); });
    thr::join(); if(disk::openHandles()) noHandles("concurrent calls");
    auto files=disk::snapshot(); disk::reset(); for(auto& g:given) disk::put(g.first,g.second);
    if(!slow.only.empty()) disk::plan(slow);
    // the same alone
    for(int t=1;t<=nt;t++) for(auto& j:jobs[t]){ Job a=j; a.res.clear(); runJob(a);
        for(size_t k=0;k<std::max(a.res.size(),j.res.size());k++) if(k>=a.res.size()||k>=j.res.size()||a.res[k]!=j.res[k]) violation(strf("differs:%d:",j.kind)+F(j.fmt),strf("thread %d, %s: alone '%s', among other threads '%s'",t,(j.in+j.out).c_str(),k<a.res.size()?a.res[k].c_str():"(nothing)",k<j.res.size()?j.res[k].c_str():"(nothing)")); }
    auto alone=disk::snapshot(); if(alone!=files) violation("differs:files","the files left behind differ from those the same calls leave alone");
}

// ------------------------------------------- C04 queries on a shared set
namespace { struct QOp { int kind; int path; float c[3],h[3]; int np; float r; int form; uint32_t x; }; }
static void runC04t(){
    beginRun(); int nt=2+T.choose(3); bool sorted=T.choose(4)!=0; QSet q; int impl=0;
    if(sorted) do q=querySet(60); while(q.m.n<1); else { q.m=genModel(BGEO,20); q.exact=false; impl=T.choose(2); }
    std::vector<std::vector<QOp>> prog(nt+1);
    if(T.choose(2)&&sorted){ Model g=genModel(BGEO,1); for(auto& a:g.attrs) if(!q.m.find(a.name)&&q.m.attrs.size()<5){ MAttr x=a; x.data.clear(); uint32_t base=T.bits(); for(int i=0;i<q.m.n*x.count;i++) x.data.push_back(x.type==INDEXEDSTR?(x.strs.empty()?0:mix64(base,i)%x.strs.size()):x.type==INT?mix64(base,i)%99:fbits((float)(mix64(base,i)%99))); q.m.attrs.push_back(x); } for(auto& a:g.fixed) q.m.fixed.push_back(a); }
    for(int t=1;t<=nt;t++){ int n=1+T.choose(5); for(int k=0;k<n;k++){ QOp o; o.kind=sorted?T.pick({4,4,3,1,1,1}):2+T.pick({4,1,1,1}); o.path=T.choose(4); for(int i=0;i<3;i++){ o.c[i]=sorted?coord(q):0; o.h[i]=sorted&&T.choose(3)?coord(q):o.c[i]; } o.np=1+T.choose(8); o.r=T.choose(3)==0?1e6f:T.choose(60)*0.25f; o.form=T.choose(2); o.x=T.choose(1000); prog[t].push_back(o); } }
    startThr(); note(strf("%d threads, %s, queries on %s ",nt,thr::strategyName().c_str(),sorted?"sorted":"unsorted")+describe(q.m));
    ParticlesDataMutable* p=makeAs(q.m,impl,T.choose(8)); if(sorted) if(api("sort",[&]{ p->sort(); })!=DONE) violation("exception:sort","exception while sorting"); checkSource(q.m,*p,"sort");
    trackQueries=true;
    for(int t=1;t<=nt;t++) thr::spawn([&,t]{
        for(auto& o:prog[t]){ std::string e; count(C_QUERIES);
            switch(o.kind){
            case 0: api("findPoints",[&]{ mem::tracking=false; e=checkBox(q,*p,o.c,o.h); }); if(!e.empty()) violation("box",e); break;
            case 1: api("findNPoints",[&]{ mem::tracking=false; e=checkNear(q,*p,o.c,o.np,o.r,o.form); }); if(!e.empty()) violation("nearest",e); break;
            case 2: { Model m=look(*p,o.path,"look"); e=compare(q.m,m,0); if(!e.empty()) violation("content:look",strf("values looked up along path %d: ",o.path)+e); } break;
            case 3: { ParticlesDataMutable* c=nullptr; if(api("clone",[&]{ c=clone(*p,true); })!=DONE||!c) violation("exception:clone","cloning a shared set fails"); Model m=look(*c,o.path,"look at the clone"); e=cmpByText(distinctStrs(q.m),m,true); if(!e.empty()) violation("content:clone",e); api("fill",[&]{ userFill(*c,o.x); }); doRelease(c); } break;
            case 4: { std::string path=strf("/sim/q%d.bgeo",t); ErrStream es; api("write",[&]{ Partio::write(path.c_str(),*p,false,true,es.os); }); if(!es.text().empty()) violation("content:write","writing a shared set says "+es.text()); if(!disk::exists(path)) violation("content:write","writing a shared set leaves no file"); } break;
            default: { Model m; api("describe",[&]{ m=extractHeaders(*p); }); if((int)m.n!=q.m.n||m.attrs.size()!=q.m.attrs.size()||m.fixed.size()!=q.m.fixed.size()) violation("content:describe","the attributes of a shared set are described wrongly"); } break;
            } }
    });
    thr::join(); trackQueries=false; checkSource(q.m,*p,"query");
    // files written meanwhile are what one thread alone writes
    Bytes one; for(int t=1;t<=nt;t++){ std::string path=strf("/sim/q%d.bgeo",t); if(!disk::exists(path)) continue; if(one.empty()){ ErrStream es; api("write",[&]{ Partio::write("/sim/alone.bgeo",*p,false,true,es.os); }); one=disk::get("/sim/alone.bgeo"); } if(disk::get(path)!=one) violation("content:write","a shared set written among other queries gives another file than alone"); }
    doRelease(p);
}

// ------------------------------------------- C16 clone and merge from one source
namespace { struct MOp { int kind; Model b; std::string i0; bool map,particles; long at; bool sticky; int impl,path; uint32_t x; }; }
static void runC16t(){
    beginRun(); int nt=2+T.choose(3); Model d=genModel(BGEO,12); sanitise(d); if(T.choose(2)) putIds(d,"id",5); auto single=[](Model& m){ for(const char* s:{"","id"}) if(MAttr* a=m.find(s)) if(a->type==INT&&a->count!=1){ a->count=1; a->data.resize(m.n); } }; single(d); // identifiers are single
    std::vector<std::vector<MOp>> prog(nt+1);
    for(int t=1;t<=nt;t++){ int n=1+T.choose(3); for(int k=0;k<n;k++){ MOp o; o.kind=T.pick({3,1,4,1}); o.at=T.choose(4)==3?(long)T.choose(60):-1; o.sticky=T.choose(2); o.map=T.choose(2); o.particles=T.choose(4)!=0; o.impl=T.choose(3)==2; o.path=T.choose(8); o.x=T.choose(100);
        if(o.kind==2){ o.b=related(d); while(o.b.n>40) o.b=genModel(BGEO,12); sanitise(o.b); if(MAttr* a=o.b.find("id")) if(a->type==INT) putIds(o.b,"id",5); if(T.choose(2)&&d.find("id")&&d.find("id")->type==INT&&d.find("id")->count==1){ putIds(o.b,"id",5); o.i0="id"; } single(o.b); }
        prog[t].push_back(o); } }
    startThr(); note(strf("%d threads, %s, clone and merge from ",nt,thr::strategyName().c_str())+describe(d)); ParticlesDataMutable* src=make(d);
    for(int t=1;t<=nt;t++) thr::spawn([&,t]{
        for(auto& o:prog[t]){
            if(o.kind==2){
                count(C_MERGE); ParticlesDataMutable* b=makeAs(o.b,o.impl,o.path); if(o.at>=0) mem::arm(o.at,o.sticky);
                Outcome oc=api("merge",[&]{ if(o.i0.empty()) merge(*b,*src); else merge(*b,*src,o.i0); }); bool fired=mem::injected; mem::arm(-1,false);
                if(oc!=DONE){ if(!fired||oc==OTHEREXC) violation("exception:merge",oc==NOMEM?"out of memory without reason":"exception: "+lastExc); }
                else { std::string e=cmpByText(refMerge(o.b,d,o.i0,""),look(*b,o.x%4,"look at the merge"),false); if(!e.empty()) violation("content:merge",e); }
                doRelease(b);
            }else if(o.kind<2){
                count(C_CLONE); std::map<std::string,std::string> nm; Model want=o.kind==0?distinctStrs(d):d; if(o.map) for(auto* v:{&want.attrs,&want.fixed}) for(auto& a:*v) if(!nm.count(a.name)&&(a.name.size()+o.x)%2) nm[a.name]=strf("mapped_%zu",nm.size()); if(o.map) for(auto* v:{&want.attrs,&want.fixed}) for(auto& a:*v) if(nm.count(a.name)) a.name=nm[a.name];
                ParticlesDataMutable* c=nullptr; if(o.at>=0) mem::arm(o.at,o.sticky);
                Outcome oc=api(o.kind?"cloneSchema":"clone",[&]{ c=o.kind?cloneSchema(*src,o.map?&nm:nullptr):clone(*src,o.particles,o.map?&nm:nullptr); }); bool fired=mem::injected; mem::arm(-1,false);
                if(oc!=DONE){ if(!fired||oc==OTHEREXC) violation("exception:clone",oc==NOMEM?"out of memory without reason":"exception: "+lastExc); continue; }
                if(o.kind==0){ if(!o.particles){ want.n=0; want.attrs.clear(); } std::string e=cmpByText(want,look(*c,o.x%4,"look at the clone"),true); if(!e.empty()) violation("content:clone",e); api("fill",[&]{ userFill(*c,o.x); }); }
                else { Model g; api("describe",[&]{ g=extractHeaders(*c); }); if(g.n||g.attrs.size()!=want.attrs.size()||g.fixed.size()!=want.fixed.size()) violation("content:cloneSchema","a schema clone has other attributes or particles"); for(size_t k=0;k<g.attrs.size();k++) if(g.attrs[k].name!=want.attrs[k].name||g.attrs[k].type!=want.attrs[k].type||g.attrs[k].count!=want.attrs[k].count) violation("content:cloneSchema","a schema clone has another attribute "+want.attrs[k].name); }
                doRelease(c);
            }else { std::string e=compare(d,look(*src,o.x%4,"look at the source"),0); if(!e.empty()) violation("source-changed","the source changed: "+e); }
            noLock("a call");
        }
    });
    thr::join(); checkSource(d,*src,"clone or merge"); doRelease(src); if(mem::liveCount()) violation("leak:clone",strf("%ld blocks stay allocated: ",mem::liveCount())+mem::describeLive());
}

void addThrProps(){
    PROPERTIES.push_back({"C01",runC01}); PROPERTIES.push_back({"C02",runC02}); PROPERTIES.push_back({"C03",runC03});
    PROPERTIES.push_back({"C04",runC04t}); PROPERTIES.push_back({"C16",runC16t});
}
