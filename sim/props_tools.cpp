// Runs of C18: the command-line tools, with their own main functions, on the
// simulated disk.
#include "common.h"
#include <iostream>
#include <algorithm>
#include <set>
using namespace Partio;
int partconvert_main(int,char**); int partattr_main(int,char**); int partinfo_main(int,char**);

namespace {
struct ToolRes { int rc=-1; std::string out,err; };
ToolRes tool(const char* name,int (*f)(int,char**),const std::vector<std::string>& args){
    std::vector<char*> av; std::vector<std::string> keep=args; keep.insert(keep.begin(),name); for(auto& s:keep) av.push_back(&s[0]); av.push_back(nullptr);
    ToolRes r; std::ostringstream o,e; std::streambuf *co=std::cout.rdbuf(o.rdbuf()),*ce=std::cerr.rdbuf(e.rdbuf());
    count(C_TOOLRUNS); std::string line=name; for(auto& s:args) line+=" "+s; evt("run %s",line.c_str());
    Outcome oc=api(name,[&]{ r.rc=f((int)keep.size(),av.data()); });
    std::cout.rdbuf(co); std::cerr.rdbuf(ce); r.out=o.str(); r.err=e.str();
    if(oc!=DONE) violation(std::string("exception:")+name,oc==NOMEM?"the tool ends with an uncaught out of memory exception":"the tool ends with an uncaught exception: "+lastExc);
    evt("exit %d out=%zu err=%zu",r.rc,r.out.size(),r.err.size()); if(!r.err.empty()) count(C_ERRMSG);
    evtHash("output",hashBytes(r.out.data(),r.out.size()));
    return r;
}
std::string num(const MAttr& a,uint32_t v){ return a.type==INT||a.type==INDEXEDSTR?strf("%d",(int)v):strf("%g",bitsf(v)); }
const char* TN[]={"NONE","VECTOR","FLOAT","INT","INDEXEDSTR"};
std::string pad(const std::string& s,size_t w){ return s.size()<w?s+std::string(w-s.size(),' '):s; }
}
static void runC18(){
    beginRun(); mem::cap=(size_t)16<<20; mem::totalCap=(size_t)64<<20;
    int which=T.pick({3,2,2}); static const char* TOOL[]={"partconvert","partattr","partinfo"}; std::string tn=TOOL[which];
    int inFmt=drawReadable(); if(which&&T.chance(1,3)){ static const int st[]={BGEO,GEO,BHCLASSIC}; inFmt=st[T.choose(3)]; } // formats with string tables
    Sample s=makeSample(inFmt,T.chance(1,8)?300:30); Model in; bool readable=false; long reads=0;
    if(which&&(inFmt==BGEO||inFmt==GEO||inFmt==BHCLASSIC)&&T.choose(4)==3){ // tokens beyond their string tables
        Model m=genModel(inFmt,30); bool any=false;
        for(auto& a:m.attrs) if(a.type==INDEXEDSTR) for(auto& v:a.data) if(T.choose(3)==2){ uint32_t n=(uint32_t)a.strs.size(); const uint32_t o[]={n,n+1,~0u,0x80000000u,0x7fffffffu}; v=o[T.choose(5)]; any=true; }
        if(any){ ParticlesDataMutable* p=make(m); disk::heal(); doWrite(s.path,*p,false,"write with loose tokens"); doRelease(p); s.bytes=disk::get(s.path); s.want=m; note("tokens beyond their tables: "+describe(m)); }
    }
    // the input: good, damaged, or met by a failing device
    int trouble=T.pick({5,3,2,1}); FaultPlan f; size_t cut; std::string how="good";
    if(trouble==1){ readFault(s,8,f,cut); how="failing"; }
    else if(trouble==2){ Bytes b=s.bytes; mutate(b); disk::put(s.path,b); how="damaged"; }
    else if(trouble==3){ static const char* nm[]={"/sim/noextension","/sim/a.unknown","/sim/.gz","","bgeo"}; s.path=nm[T.choose(5)]; how="unknown"; }
    // what the library makes of it, undisturbed (judged by C05-C11)
    ParticlesDataMutable* lib=nullptr;
    { disk::heal(); ReadRes r=doRead(s.path,"read "+F(s.fmt)+" ("+how+")"); reads=disk::stats().reads; (void)reads; if(r.oc==DONE&&r.p){ lib=r.p; in=extract(*lib); readable=true; } }
    bool memory=mem::capped; mem::capped=false;
    if(in.n>100000){ doRelease(lib); return; } // a damaged count without data: nothing wrong, only long
    note(tn+" "+how+" input "+F(s.fmt)+": "+describe(s.want));
    auto inputFault=[&](uint64_t e0){ return trouble==1&&SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]+SH->counters[F_MISSING]+SH->counters[F_TRUNC]>e0; };
    if(which==0){
        int fmt=T.choose(3)==0?s.fmt:T.choose(NFMT); bool gz=drawGz(fmt); if(T.chance(1,20)) fmt=MC; std::string out=pathFor(fmt,gz,"/sim/converted");
        Bytes good; bool can=false; std::string prt;
        if(lib){ disk::heal(); ErrStream es; api("write "+F(fmt),[&]{ can=Partio::write(out.c_str(),*lib,false,true,es.os); }); if(disk::exists(out)) good=disk::get(out); else if(fmt!=PRT||in.n) can=false; prt=es.text(); }
        disk::remove(out); if(T.choose(3)==2) disk::put(out,Bytes(30,'o')); Bytes before=disk::exists(out)?disk::get(out):Bytes();
        int wt=T.pick({4,2,1,1}); FaultPlan w=f;
        if(wt==1) w.capacity=T.choose(3)?drawCut(good.size()+1):good.size()-std::min<size_t>(good.size(),1+T.choose(3));
        else if(wt==2) w.eioWriteAt=T.choose(6); else if(wt==3&&trouble!=1){ w.openFailAt=1; w.openErrno=13; w.openFailSticky=true; }
        disk::plan(w); patterns(); uint64_t e0=SH->counters[F_OPEN_FAIL]; uint64_t q0=SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL];
        uint64_t w0=SH->counters[F_ENOSPC]+SH->counters[F_EIO_WRITE]; (void)e0;
        auto others=disk::snapshot(); others.erase(out);
        int argcase=T.chance(1,20)?1+T.choose(2):0; ToolRes r;
        if(argcase){ r=tool("partconvert",partconvert_main,argcase==1?std::vector<std::string>{s.path}:std::vector<std::string>{s.path,out,"extra"}); if(r.rc==0) violation("status:partconvert","exit status 0 for a wrong number of arguments"); if(lib) doRelease(lib); return; }
        r=tool("partconvert",partconvert_main,{s.path,out});
        bool met=SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]>q0||SH->counters[F_ENOSPC]+SH->counters[F_EIO_WRITE]>w0||(trouble==1&&inputFault(0));
        if(disk::openHandles()) violation("handles:partconvert","the converter leaves a file open");
        Bytes now=disk::exists(out)?disk::get(out):Bytes();
        auto after=disk::snapshot(); after.erase(out); if(after!=others) violation("other-file:partconvert","the converter changed a file other than its output");
        if(r.rc==0){
            if(!readable) violation("status:partconvert",strf("exit status 0 though the input (%s) cannot be read",how.c_str()));
            if(fmt==PRT&&in.n==0){ doRelease(lib); return; } // an empty set writes no prt file
            if(!disk::exists(out)||!can) violation("status:partconvert","exit status 0 but no output file that could hold the set: "+prt);
            if(now!=good){
                disk::heal(); ReadRes b=doRead(out,"read back"); Model a; ReadRes g; if(b.p) a=extract(*b.p);
                disk::put("/sim/ref."+F(fmt)+(gz?".gz":""),good); g=doRead("/sim/ref."+F(fmt)+(gz?".gz":""),"read reference");
                std::string d=b.p&&g.p?compare(extract(*g.p),a,0):"it cannot be read back";
                if(!d.empty()) violation("output:partconvert",strf("exit status 0, but the output (%zu of %zu bytes) does not hold the input's particles: ",now.size(),good.size())+d);
            }
        }else{
            if(readable&&can&&!met&&!memory&&!mem::capped) violation("status:partconvert",strf("exit status %d though nothing went wrong: ",r.rc)+r.err.substr(0,300));
            if(readable&&can&&!met&&now!=good) violation("output:partconvert","the output differs from what the library writes");
        }
        // within one format the conversion keeps everything
        if(r.rc==0&&trouble==0&&fmt==s.fmt&&s.fmt!=RIB&&s.fmt!=BIN){
            disk::heal(); ReadRes b=doRead(out,"read back"); if(!b.p) violation("output:partconvert","the converted file cannot be read back: "+b.err);
            Model w=s.want; if(fmt==PTC||fmt==PTF) for(auto& a:w.attrs) if(a.name!="position"&&a.name!="normal") a.type=FLOAT; // written as colours
            std::string d=compare(expectRoundTrip(fmt,w),extract(*b.p),s.flags|(fmtText(fmt)?CMP_TEXT:0)|((fmt==PTC||fmt==PTF)?CMP_PTCNORMAL:0)); if(!d.empty()) violation("output:partconvert","converting within "+F(fmt)+": "+d); doRelease(b.p);
        }
        if(lib) doRelease(lib); return;
    }
    disk::plan(f); patterns(); uint64_t q0=SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL];
    if(which==1){
        std::string name; const MAttr* a=nullptr; int k=T.choose(6);
        if(in.attrs.size()&&k<5){ name=in.attrs[T.choose(in.attrs.size())].name; if(T.choose(2)) for(auto& x:in.attrs) if(x.type==INDEXEDSTR) name=x.name; } else { static const char* no[]={"none","posit","","position ","Position"}; name=no[T.choose(5)]; }
        a=in.find(name); long want=10; std::vector<std::string> args={s.path,name};
        if(T.choose(2)){ static const char* n[]={"0","1","3","1000000","-1","7","x","2147483647"}; int j=T.choose(8); args.push_back(n[j]); want=atol(n[j]); }
        ToolRes r=tool("partattr",partattr_main,args); bool met=trouble==1&&SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]>q0;
        if(r.rc==0){
            if(!readable) violation("status:partattr",strf("exit status 0 though the file (%s) cannot be read",how.c_str()));
            if(!a) violation("status:partattr","exit status 0 for an attribute that does not exist");
            std::string e; for(int i=0;i<std::min<long>(want,in.n)&&a->count>0;i++){ // one line for each particle
                e+=name+strf("[%d]=",i); const uint32_t* v=&a->data[(size_t)i*a->count];
                if(a->type==INT) e+=num(*a,v[0])+"\n";
                else if(a->type==INDEXEDSTR){ bool ok=(int)v[0]>=0&&v[0]<a->strs.size(); e+=ok?"'"+a->strs[v[0]]+"'\n":"<out-of-bounds>\n"; }
                else { e+="("; for(int c=0;c<a->count;c++) e+=(c?",":"")+num(*a,v[c]); e+=")\n"; }
            }
            if(r.out!=e){ size_t i=0; while(i<e.size()&&i<r.out.size()&&e[i]==r.out[i]) i++; violation("output:partattr",strf("the values printed differ at %zu: expected '%s', printed '%s'",i,e.substr(i>30?i-30:0,80).c_str(),r.out.substr(i>30?i-30:0,80).c_str())); }
        }else if(readable&&a&&!met&&!memory&&!mem::capped) violation("status:partattr",strf("exit status %d though nothing went wrong: ",r.rc)+r.err.substr(0,300));
        if(T.chance(1,20)){ ToolRes u=tool("partattr",partattr_main,T.choose(2)?std::vector<std::string>{s.path}:std::vector<std::string>{s.path,"a","1","2"}); if(u.rc==0) violation("status:partattr","exit status 0 for a wrong number of arguments"); }
    }else{
        std::vector<std::string> args; bool all=false,named=true,strings=false; std::set<int> ix;
        if(T.choose(8)) args.push_back(s.path); else named=false;
        if(T.choose(3)==2){ args.insert(args.begin()+T.choose(args.size()+1),T.choose(2)?"-a":"--all"); all=true; }
        if(T.choose(3)==2) { strings=true; args.insert(args.begin()+T.choose(args.size()+1),T.choose(2)?"-s":"--strings"); }
        bool help=T.chance(1,16); if(help) args.push_back("-h");
        if(named) for(int k=T.choose(4);k>0;k--){ int i=T.choose(4)==3?in.n+(int)T.choose(3):T.choose(in.n+1); ix.insert(i); args.push_back(strf("%d",i)); }
        ToolRes r=tool("partinfo",partinfo_main,args); bool met=trouble==1&&SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]>q0;
        if(help){ if(r.out.size()&&!readable) violation("output:partinfo","output for help"); if(lib) doRelease(lib); return; }
        if(r.rc==0){
            if(!named) violation("status:partinfo","exit status 0 though no file was named");
            if(!readable) violation("status:partinfo",strf("exit status 0 though the file (%s) cannot be read",how.c_str()));
            if(r.out.find(strf("Number of particles:  %d\n",in.n))==std::string::npos) violation("output:partinfo",strf("the number of particles (%d) is not printed: ",in.n)+r.out.substr(0,60));
            size_t at=0; for(auto& a:in.attrs){ at=r.out.find(pad(TN[a.type],12)+pad(strf("%d",a.count),10)+pad(a.name,30)+"\n",at); if(at==std::string::npos) violation("output:partinfo","attribute '"+a.name+"' is not listed in its place"); }
            size_t widest=0; for(auto& a:in.attrs) widest=std::max(widest,a.name.size()); widest++;
            if(all){ ix.clear(); for(int i=0;i<in.n;i++) ix.insert(i); }
            std::string e; for(int i:ix){
                e+=strf("---------------------------\nParticle %d:\n",i); if(i<0||i>=in.n){ e+="OUT OF RANGE\n"; continue; }
                for(auto& a:in.attrs){ e+=pad(TN[a.type],10)+" "+pad(a.name,widest)+" "; if(a.count>1) e+="[ "; for(int k=0;k<a.count;k++){ uint32_t v=a.data[(size_t)i*a.count+k]; if(k) e+=", "; e+=num(a,v); if(a.type==INDEXEDSTR) e+=v<a.strs.size()?"='"+a.strs[v]+"'":"=<out-of-bounds>"; } if(a.count>1) e+=" ]"; e+="\n"; }
            }
            if(!ix.empty()){ size_t p=r.out.find("---------------------------\n"); std::string got=p==std::string::npos?"":r.out.substr(p); if(got!=e){ size_t i=0; while(i<e.size()&&i<got.size()&&e[i]==got[i]) i++; violation("output:partinfo",strf("the particles printed differ at %zu: expected '%s', printed '%s'",i,e.substr(i>40?i-40:0,100).c_str(),got.substr(i>40?i-40:0,100).c_str())); } }
            else if(!all){ // fixed attributes and strings, as they end the output
                std::string x;
                for(auto& a:in.fixed) x+=pad(TN[a.type],12)+pad(strf("%d",a.count),10)+pad(a.name,widest)+"\n";
                for(auto& a:in.fixed){ x+=pad(TN[a.type],10)+" "+pad(a.name,widest); for(int k=0;k<a.count;k++){ x+=" "+num(a,a.data[k]); if(a.type==INDEXEDSTR) for(size_t j=0;j<a.strs.size();j++) x+=strf("\n %zu '",j)+a.strs[j]+"'"; } x+="\n"; }
                bool title=false; std::string y=x; // with all strings asked for, an ellipsis may follow them or not
                for(auto& a:in.attrs) if(a.type==INDEXEDSTR){
                    std::string l=title?"":"\nINDEXED STRINGS:\n"; title=true; l+=a.name+strf(" (%zu) = [",a.strs.size()); if(a.strs.size()) l+="\n";
                    for(size_t j=0;j<a.strs.size()&&(strings||j<5);j++) l+="  "+a.strs[j]+"\n";
                    x+=l+(a.strs.size()>5?"  ...\n":"")+"]\n"; y+=l+(a.strs.size()>5&&!strings?"  ...\n":"")+"]\n";
                }
                auto ends=[&](const std::string& e){ return r.out.size()>=e.size()&&r.out.compare(r.out.size()-e.size(),e.size(),e)==0; };
                if(!ends(x)&&!ends(y)) violation("output:partinfo","the fixed attributes and strings printed differ: expected at the end '"+x.substr(0,400)+"', printed '"+r.out.substr(r.out.size()-std::min(r.out.size(),x.size())).substr(0,400)+"'");
            }
        }else if(named&&readable&&!met&&!memory&&!mem::capped) violation("status:partinfo",strf("exit status %d though nothing went wrong: ",r.rc)+r.err.substr(0,300));
    }
    if(disk::openHandles()) violation("handles:"+tn,"the tool leaves a file open");
    if(lib) doRelease(lib);
}
void addToolProps(){ PROPERTIES.push_back({"C18",runC18}); }
