// Runs of the particle set properties C15 (editing), C16 (clone, merge), C19
// (clustering) and, single threaded, C04 (queries).
#include "setref.h"
#include <iostream>
#include <algorithm>
#include <cmath>
#include <set>
using namespace Partio;

// ---------------------------------------------------------------- C15 editing
namespace {
struct EAttr { MAttr a; std::vector<bool> known; ParticleAttribute h; FixedAttribute fh; };
struct Edit {
    ParticlesDataMutable* p=nullptr; int impl=0; int n=0;
    std::vector<EAttr> attrs,fixed;
    std::string rep(){ return impl?"interleave":"simple"; }
};
const char* const STRS[]={"","a","b","one","two","a longer string than the small ones","three","x y","b "};
std::string drawStr(){ if(T.chance(1,12)) return std::string(T.choose(300),'q')+strf("%u",T.choose(50)); return STRS[T.choose(9)]; }
const char* const NAMES[]={"position","velocity","id","mass","name","color","m","P","life","type","","a name with spaces","position2","idd"};
std::string drawName(){ if(T.chance(1,10)) return strf("attribute_with_a_long_name_%u",T.choose(100)); return NAMES[T.choose(14)]; }
bool isStr(const MAttr& a){ return a.type==INDEXEDSTR; }
uint32_t drawValue(const MAttr& a){
    if(a.type==INDEXEDSTR) return a.strs.empty()?T.choose(3):T.choose(a.strs.size());
    if(a.type==INT) return T.choose(3)?(uint32_t)((int)T.choose(2001)-1000):T.bits();
    return genFloat(T.choose(8)?2:0);
}
std::string what(const Edit& e,const char* path,const EAttr& x,int i,int k,uint32_t got){
    uint32_t w=x.a.data[(size_t)i*x.a.count+k];
    return strf("%s: attribute '%s' (type %d count %d) particle %d of %d component %d read by %s: want %08x, got %08x",e.impl?"interleave":"simple",x.a.name.c_str(),x.a.type,x.a.count,i,e.n,k,path,w,got);
}
void bad(const Edit& e,const std::string& cls,const std::string& m){ violation(cls+":"+(e.impl?"interleave":"simple"),m); }

// reads everything back along one access path
void verify(Edit& e,int path,const char* when){
    std::string ph=strf("verify %d",path);
    Outcome oc=api(ph,[&]{
        ParticlesDataMutable& p=*e.p; const ParticlesData& cp=p;
        if(p.numParticles()!=e.n) bad(e,"count",strf("%s: %d particles expected, numParticles() gives %d",when,e.n,p.numParticles()));
        if(p.numAttributes()!=(int)e.attrs.size()||p.numFixedAttributes()!=(int)e.fixed.size()) bad(e,"attributes",strf("%s: %zu attributes and %zu fixed ones expected, the set has %d and %d",when,e.attrs.size(),e.fixed.size(),p.numAttributes(),p.numFixedAttributes()));
        { ParticleAttribute a; FixedAttribute f; int k=(int)e.attrs.size(),kf=(int)e.fixed.size();
          if(p.attributeInfo(-1,a)||p.attributeInfo(k,a)||p.fixedAttributeInfo(-1,f)||p.fixedAttributeInfo(kf,f)) bad(e,"attributes","an attribute index out of range is accepted");
          if(p.attributeInfo("no such attribute",a)||p.fixedAttributeInfo("no such attribute",f)) bad(e,"attributes","an attribute nobody added is found"); }
        for(size_t j=0;j<e.attrs.size();j++){
            EAttr& x=e.attrs[j]; ParticleAttribute a,b;
            if(!p.attributeInfo((int)j,a)||!p.attributeInfo(x.a.name.c_str(),b)) bad(e,"attributes",strf("%s: attribute '%s' is not found",when,x.a.name.c_str()));
            if(a.name!=x.a.name||a.type!=x.a.type||a.count!=x.a.count||b.name!=a.name||b.type!=a.type||b.count!=a.count||b.attributeIndex!=a.attributeIndex) bad(e,"attributes",strf("%s: attribute '%s' is described wrongly",when,x.a.name.c_str()));
            x.h=a;
            if(isStr(x.a)){
                if(p.indexedStrs(a)!=x.a.strs) bad(e,"strings",strf("%s: the string table of '%s' differs (%zu expected, %zu)",when,x.a.name.c_str(),x.a.strs.size(),p.indexedStrs(a).size()));
                for(auto& s:x.a.strs){ int t=p.lookupIndexedStr(a,s.c_str()); if(t<0||t>=(int)x.a.strs.size()||x.a.strs[t]!=s) bad(e,"lookup",strf("%s: looking up '%s' of '%s' gives token %d",when,s.c_str(),x.a.name.c_str(),t)); }
                for(const char* s:STRS) if(std::find(x.a.strs.begin(),x.a.strs.end(),s)==x.a.strs.end()){ int t=p.lookupIndexedStr(a,s); if(t!=-1) bad(e,"lookup",strf("%s: looking up '%s', which '%s' does not hold, gives token %d",when,s,x.a.name.c_str(),t)); }
            }
        }
        for(size_t j=0;j<e.fixed.size();j++){
            EAttr& x=e.fixed[j]; FixedAttribute a,b;
            if(!p.fixedAttributeInfo((int)j,a)||!p.fixedAttributeInfo(x.a.name.c_str(),b)) bad(e,"attributes",strf("%s: fixed attribute '%s' is not found",when,x.a.name.c_str()));
            if(a.name!=x.a.name||a.type!=x.a.type||a.count!=x.a.count||b.name!=a.name||b.attributeIndex!=a.attributeIndex) bad(e,"attributes",strf("%s: fixed attribute '%s' is described wrongly",when,x.a.name.c_str()));
            x.fh=a;
            if(isStr(x.a)){
                if(p.fixedIndexedStrs(a)!=x.a.strs) bad(e,"strings",strf("%s: the string table of fixed attribute '%s' differs",when,x.a.name.c_str()));
                for(auto& s:x.a.strs){ int t=p.lookupFixedIndexedStr(a,s.c_str()); if(t<0||t>=(int)x.a.strs.size()||x.a.strs[t]!=s) bad(e,"lookup",strf("%s: looking up '%s' of fixed '%s' gives token %d",when,s.c_str(),x.a.name.c_str(),t)); }
                for(const char* s:STRS) if(std::find(x.a.strs.begin(),x.a.strs.end(),s)==x.a.strs.end()&&p.lookupFixedIndexedStr(a,s)!=-1) bad(e,"lookup",strf("%s: '%s' is found in fixed '%s', which does not hold it",when,s,x.a.name.c_str()));
            }
            const uint32_t* d=(const uint32_t*)cp.fixedData<void>(a);
            for(int k=0;k<x.a.count;k++) if(x.known[k]&&d[k]!=x.a.data[k]) bad(e,"fixed-value",strf("%s: fixed attribute '%s' component %d of %d: want %08x, got %08x",when,x.a.name.c_str(),k,x.a.count,x.a.data[k],d[k]));
        }
        auto check=[&](EAttr& x,int i,const uint32_t* d,const char* by){
            for(int k=0;k<x.a.count;k++){ size_t q=(size_t)i*x.a.count+k; if(x.known[q]&&d[k]!=x.a.data[q]) bad(e,std::string("value:")+by,std::string(when)+": "+what(e,by,x,i,k,d[k])); }
        };
        switch(path){
        case 0: for(auto& x:e.attrs) for(int i=0;i<e.n;i++) check(x,i,(const uint32_t*)cp.data<void>(x.h,i),"data"); break;
        case 1: for(auto& x:e.attrs) if(e.n){ // batches
            mem::tracking=false; int m=1+T.choose(std::min(2*e.n,300)); std::vector<ParticleIndex> ix(m); bool sorted=T.choose(2);
            uint32_t base=T.bits(); for(int q=0;q<m;q++) ix[q]=mix64(base,q)%e.n; if(sorted) std::sort(ix.begin(),ix.end());
            std::vector<uint32_t> v((size_t)m*x.a.count+1,0xcdcdcdcd); mem::tracking=true;
            if(x.a.type==INT||x.a.type==INDEXEDSTR) p.data<int>(x.h,m,ix.data(),sorted,(int*)v.data()); else p.data<float>(x.h,m,ix.data(),sorted,(float*)v.data());
            for(int q=0;q<m;q++) check(x,(int)ix[q],&v[(size_t)q*x.a.count],"batch");
            if(v.back()!=0xcdcdcdcd) bad(e,"overrun:batch","a batch read writes past the values asked for");
        } break;
        case 2: for(auto& x:e.attrs) if(e.n){ // as float
            mem::tracking=false; int m=1+T.choose(std::min(2*e.n,300)); std::vector<ParticleIndex> ix(m); bool sorted=T.choose(2);
            uint32_t base=T.bits(); for(int q=0;q<m;q++) ix[q]=mix64(base,q)%e.n; if(sorted) std::sort(ix.begin(),ix.end());
            std::vector<float> v((size_t)m*x.a.count+1,-7.25f); mem::tracking=true;
            cp.dataAsFloat(x.h,m,ix.data(),sorted,v.data());
            for(int q=0;q<m;q++) for(int k=0;k<x.a.count;k++){
                size_t w=(size_t)ix[q]*x.a.count+k; if(!x.known[w]) continue; uint32_t raw=x.a.data[w];
                uint32_t want=(x.a.type==INT||x.a.type==INDEXEDSTR)?fbits((float)(int)raw):raw, got=fbits(v[(size_t)q*x.a.count+k]);
                if(want!=got) bad(e,"value:float",std::string(when)+": "+what(e,"dataAsFloat",x,(int)ix[q],k,got));
            }
            if(v.back()!=-7.25f) bad(e,"overrun:float","dataAsFloat writes past the values asked for");
        } break;
        case 3: case 4: { // constant iterator with all accessors at once
            std::vector<ParticleAccessor> acc; acc.reserve(e.attrs.size()+1); for(auto& x:e.attrs) acc.push_back(ParticleAccessor(x.h));
            ParticlesData::const_iterator it=cp.begin(),end=cp.end(); for(auto& a:acc) it.addAccessor(a);
            int i=0; for(;it!=end;){ if(i>=e.n) bad(e,"iterator:overrun",strf("%s: the iterator goes past %d particles",when,e.n)); for(size_t j=0;j<e.attrs.size();j++) if(e.attrs[j].a.count) check(e.attrs[j],i,acc[j].raw<uint32_t>(it),"iterator"); i++; if(path==3) ++it; else it++; }
            if(i!=e.n) bad(e,"iterator:count",strf("%s: the iterator visits %d of %d particles",when,i,e.n));
        } break;
        default: { // mutable iterator, one attribute at a time
            for(size_t j=0;j<=e.attrs.size();j++){ if(j==e.attrs.size()&&j) break;
                ParticlesDataMutable::iterator it=p.begin(),end=p.end(); int i=0;
                if(e.attrs.empty()){ for(;it!=end;++it) if(++i>e.n) break; }
                else { ParticleAccessor a(e.attrs[j].h); it.addAccessor(a); for(;it!=end;++it){ if(i>=e.n){ i++; break; } if(a.count) check(e.attrs[j],i,a.raw<uint32_t>(it),"mutable-iterator"); i++; } }
                if(i!=e.n) bad(e,"iterator:count",strf("%s: the iterator visits %d of %d particles",when,i,e.n));
            }
        }
        }
    });
    if(oc!=DONE) bad(e,"exception:verify",oc==NOMEM?"out of memory while reading":"exception while reading: "+lastExc);
}
void grow(Edit& e,int k){ e.n+=k; for(auto& x:e.attrs){ x.a.data.resize((size_t)e.n*x.a.count,0); x.known.resize((size_t)e.n*x.a.count,false); } }
EAttr* pickAttr(std::vector<EAttr>& v,bool strOnly){
    std::vector<EAttr*> c; for(auto& x:v) if(!strOnly||isStr(x.a)) c.push_back(&x);
    return c.empty()?nullptr:c[T.choose(c.size())];
}
}
static void runC15(){
    beginRun(); Edit e; e.impl=T.choose(2);
    long live0=mem::liveCount();
    if(api("create",[&]{ e.p=e.impl?createInterleave():create(); })!=DONE) bad(e,"exception:create","creating a set fails");
    int ops=3+T.choose(40),failures=0; bool faults=T.choose(3)!=0; std::string trail; int big=0;
    bool many=T.chance(1,25); if(many){ ops=60+T.choose(300); big=10; } // a long history with many attributes and strings
    uint32_t weight[13]={4,4,5,2,6,3,2,4,2,3,2,1,2}; for(int q=T.choose(3);q>0;q--) weight[T.choose(13)]*=5; if(many){ weight[2]*=8; weight[3]*=8; weight[7]*=8; weight[8]*=8; weight[12]=0; } // some runs do mostly one thing
    for(int o=0;o<ops;o++){
        count(C_OPS);
        int op=T.pick({weight[0],weight[1],weight[2],weight[3],weight[4],weight[5],weight[6],weight[7],weight[8],weight[9],weight[10],weight[11],weight[12]});
        bool armed=faults&&T.choose(4)==3; long at=armed?T.choose(T.choose(3)?4:12):-1; bool sticky=armed&&T.choose(2);
        std::string ph; Outcome oc=DONE;
        // the operation is drawn first, so that the fault changes nothing else
        std::string name,str; int type=FLOAT,cnt=1,k=0,idx=-1,tok=0; EAttr* x=nullptr; std::vector<uint32_t> vals;
        auto run=[&](const std::function<void()>& f){ trail+=(trail.empty()?"":",")+ph+(armed?"!":""); mem::arm(at,sticky); oc=api(ph,f); mem::arm(-1,false); };
        auto failed=[&]()->bool{
            if(oc==DONE) return false;
            if(oc==OTHEREXC) bad(e,"exception:"+ph,"exception: "+lastExc+" after "+trail);
            if(!armed) bad(e,"nomem:"+ph,"out of memory without reason after "+trail);
            failures++; verify(e,T.choose(6),(ph+" ran out of memory").c_str()); return true;
        };
        auto noname=[&](std::vector<EAttr>& v){ for(auto& q:v) if(q.a.name==name) return true; return false; };
        switch(op){
        case 0: { ph="addParticle"; ParticleIndex r=0; run([&]{ r=e.p->addParticle(); }); if(failed()) break; if(r!=(ParticleIndex)e.n) bad(e,"index:addParticle",strf("addParticle gives index %llu, expected %d",(unsigned long long)r,e.n)); grow(e,1); } break;
        case 1: { // blocks, written through the iterator that is returned
            ph="addParticles"; k=T.choose(8)==7?0:1+T.choose(T.choose(6)==5?400:20); if(big++>6) k=std::min(k,10);
            x=T.choose(2)?pickAttr(e.attrs,false):nullptr; if(x) for(int i=0;i<k*x->a.count;i++) vals.push_back(drawValue(x->a));
            int seen=0; bool over=false;
            run([&]{ ParticlesDataMutable::iterator it=e.p->addParticles(k),end=e.p->end(); mem::arm(-1,false);
                if(x&&x->a.count){ ParticleAccessor a(x->h); it.addAccessor(a); for(;it!=end;++it){ if(seen==k){ over=true; break; } memcpy(a.raw<void>(it),&vals[(size_t)seen*x->a.count],x->a.count*4); seen++; } }
                else for(;it!=end;++it) if(++seen>k){ over=true; break; }
            });
            if(failed()) break;
            if(over||seen!=k) bad(e,"iterator:addParticles",strf("adding %d particles gives an iterator over %s%d after %s",k,over?"more than ":"",seen,trail.c_str()));
            int n0=e.n; grow(e,k); if(x) for(size_t i=0;i<vals.size();i++){ x->a.data[(size_t)n0*x->a.count+i]=vals[i]; x->known[(size_t)n0*x->a.count+i]=true; }
        } break;
        case 2: case 3: {
            bool fx=op==3; ph=fx?"addFixedAttribute":"addAttribute"; name=many&&T.choose(4)?strf("w%d",(int)T.choose(400)):drawName(); static const int ty[]={FLOAT,VECTOR,INT,INDEXEDSTR}; type=ty[T.choose(4)]; cnt=T.chance(1,10)?T.choose(many?300:30):T.range(1,4); if(type==VECTOR&&T.choose(2)==0) cnt=3;
            std::vector<EAttr>& v=fx?e.fixed:e.attrs; bool dup=noname(v); EAttr y; y.a.name=name; y.a.type=type; y.a.count=cnt;
            int gi=-2,gt=0,gc=0; std::string gn;
            run([&]{ if(fx){ y.fh=e.p->addFixedAttribute(name.c_str(),(ParticleAttributeType)type,cnt); gi=y.fh.attributeIndex; gt=y.fh.type; gc=y.fh.count; gn.swap(y.fh.name); } else { y.h=e.p->addAttribute(name.c_str(),(ParticleAttributeType)type,cnt); gi=y.h.attributeIndex; gt=y.h.type; gc=y.h.count; gn.swap(y.h.name); } });
            if(failed()) break;
            if(dup){ if(gt!=NONE||gi>=0) bad(e,"duplicate:"+ph,"adding attribute '"+name+"' a second time gives a usable attribute"); break; }
            if(gi<0||gt!=type||gc!=cnt||gn!=name) bad(e,"handle:"+ph,"the attribute returned is not the one asked for");
            (fx?y.fh.name:y.h.name)=gn;
            size_t tot=fx?(size_t)cnt:(size_t)e.n*cnt; y.a.data.assign(tot,0); y.known.assign(tot,false); v.push_back(y);
        } break;
        case 4: if((x=pickAttr(e.attrs,false))&&e.n){ // one value
            idx=T.choose(2)?e.n-1-T.choose(std::min(e.n,5)):T.choose(e.n); for(int i=0;i<x->a.count;i++) vals.push_back(drawValue(x->a)); vals.push_back(0);
            int how=T.choose(3); ph=how==0?"set":how==1?"dataWrite":"iterator set";
            run([&]{
                if(how==0){ if(x->a.type==INT||x->a.type==INDEXEDSTR) e.p->set<int>(x->h,idx,(const int*)vals.data()); else e.p->set<float>(x->h,idx,(const float*)vals.data()); }
                else if(how==1){ if(x->a.count) memcpy(e.p->dataWrite<void>(x->h,idx),vals.data(),x->a.count*4); }
                else { ParticlesDataMutable::iterator it=e.p->setupIterator(idx); ParticleAccessor a(x->h); it.addAccessor(a); if(x->a.count) memcpy(&a.data<uint32_t>(it),vals.data(),x->a.count*4); }
            });
            if(failed()) break;
            for(int i=0;i<x->a.count;i++){ x->a.data[(size_t)idx*x->a.count+i]=vals[i]; x->known[(size_t)idx*x->a.count+i]=true; }
        } break;
        case 5: if((x=pickAttr(e.attrs,false))&&e.n&&x->a.count){ // all values of an attribute
            uint32_t base=T.bits(); for(int i=0;i<e.n*x->a.count;i++){ uint32_t h=(uint32_t)mix64(base,i); vals.push_back(isStr(x->a)?h%5:x->a.type==INT?h:fbits((float)(int)(h%20001)-10000.f)); }
            ph="fill"; bool post=T.choose(2);
            run([&]{ ParticlesDataMutable::iterator it=e.p->begin(),end=e.p->end(); ParticleAccessor a(x->h); it.addAccessor(a); int i=0; for(;it!=end;i++){ if(i>=e.n) break; memcpy(a.raw<void>(it),&vals[(size_t)i*x->a.count],x->a.count*4); if(post) it++; else ++it; } });
            if(failed()) break;
            x->a.data=vals; x->known.assign(vals.size(),true);
        } break;
        case 6: if((x=pickAttr(e.fixed,false))){
            for(int i=0;i<x->a.count;i++) vals.push_back(drawValue(x->a)); vals.push_back(0); ph="setFixed"; bool w=T.choose(2);
            run([&]{ if(w){ if(x->a.count) memcpy(e.p->fixedDataWrite<void>(x->fh),vals.data(),x->a.count*4); } else if(x->a.type==INT||x->a.type==INDEXEDSTR) e.p->setFixed<int>(x->fh,(const int*)vals.data()); else e.p->setFixed<float>(x->fh,(const float*)vals.data()); });
            if(failed()) break;
            for(int i=0;i<x->a.count;i++){ x->a.data[i]=vals[i]; x->known[i]=true; }
        } break;
        case 7: case 8: if((x=pickAttr(op==8?e.fixed:e.attrs,true))){
            bool fx=op==8; str=many&&T.choose(4)?strf("s%d",(int)T.choose(600)):drawStr(); ph=fx?"registerFixedIndexedStr":"registerIndexedStr"; int r=-2;
            run([&]{ r=fx?e.p->registerFixedIndexedStr(x->fh,str.c_str()):e.p->registerIndexedStr(x->h,str.c_str()); });
            if(failed()) break;
            bool had=std::find(x->a.strs.begin(),x->a.strs.end(),str)!=x->a.strs.end();
            if(had?(r<0||r>=(int)x->a.strs.size()||x->a.strs[r]!=str):r!=(int)x->a.strs.size()) bad(e,"token:"+ph,strf("registering '%s' gives token %d of %zu after %s",str.c_str(),r,x->a.strs.size(),trail.c_str()));
            if(!had) x->a.strs.push_back(str);
        } break;
        case 9: case 10: if((x=pickAttr(op==10?e.fixed:e.attrs,true))){
            bool fx=op==10; str=many&&T.choose(4)?strf("s%d",(int)T.choose(600)):drawStr(); tok=(int)T.choose(x->a.strs.size()+2)-1; ph=fx?"setFixedIndexedStr":"setIndexedStr";
            run([&]{ if(fx) e.p->setFixedIndexedStr(x->fh,tok,str.c_str()); else e.p->setIndexedStr(x->h,tok,str.c_str()); });
            if(failed()) break;
            if(tok>=0&&tok<(int)x->a.strs.size()) x->a.strs[tok]=str;
        } break;
        case 11: ph="sort"; run([&]{ e.p->sort(); }); if(failed()) break; break;
        case 12: verify(e,T.choose(6),("after "+trail.substr(trail.size()>200?trail.size()-200:0)).c_str()); break;
        }
        evt("op %d n=%d attrs=%zu",op,e.n,e.attrs.size());
    }
    int first=T.choose(6); for(int k=0;k<6;k++) verify(e,(first+k)%6,("at the end, after "+trail.substr(trail.size()>200?trail.size()-200:0)).c_str());
    note(e.rep()+strf(" n=%d attrs=%zu fixed=%zu failures=%d ops=",e.n,e.attrs.size(),e.fixed.size(),failures)+trail.substr(0,300));
    doRelease(e.p);
    if(mem::liveCount()!=live0) bad(e,"leak",strf("%ld blocks are still allocated after the set was released (%s); history %s",mem::liveCount()-live0,mem::describeLive().c_str(),trail.substr(0,600).c_str()));
}

// ------------------------------------------------------- C16 clone and merge
static std::string canonical(const MAttr& a,int type,uint32_t v){
    if(type==INDEXEDSTR&&(int)v>=0&&v<a.strs.size()) return "s:"+a.strs[v];
    return strf("%08x",v);
}
// values compared by text for strings; the tables only have to hold what is used
std::string cmpByText(const Model& w,const Model& g,bool strictTable){
    if(w.n!=g.n) return strf("particle count: want %d, got %d",w.n,g.n);
    auto one=[&](const char* kind,const MAttr& a,const MAttr& b)->std::string{
        if(a.name!=b.name||a.type!=b.type||a.count!=b.count) return strf("%sattribute: want '%s' type %d count %d, got '%s' type %d count %d",kind,a.name.c_str(),a.type,a.count,b.name.c_str(),b.type,b.count);
        if(a.data.size()!=b.data.size()) return strf("%sattribute '%s': sizes differ",kind,a.name.c_str());
        for(size_t i=0;i<a.data.size();i++) if(canonical(a,a.type,a.data[i])!=canonical(b,b.type,b.data[i])) return strf("%sattribute '%s' particle %zu component %zu: want %s, got %s",kind,a.name.c_str(),i/a.count,i%a.count,canonical(a,a.type,a.data[i]).c_str(),canonical(b,b.type,b.data[i]).c_str());
        if(strictTable&&a.strs!=b.strs) return strf("%sattribute '%s': the string table differs (want %zu, got %zu)",kind,a.name.c_str(),a.strs.size(),b.strs.size());
        if(!strictTable) for(auto& s:a.strs) if(std::find(b.strs.begin(),b.strs.end(),s)==b.strs.end()) return strf("%sattribute '%s': string '%s' is missing",kind,a.name.c_str(),s.c_str());
        return "";
    };
    if(w.attrs.size()!=g.attrs.size()) return strf("attribute count: want %zu, got %zu",w.attrs.size(),g.attrs.size());
    for(size_t i=0;i<w.attrs.size();i++){ auto d=one("",w.attrs[i],g.attrs[i]); if(!d.empty()) return d; }
    if(w.fixed.size()!=g.fixed.size()) return strf("fixed attribute count: want %zu, got %zu",w.fixed.size(),g.fixed.size());
    for(size_t i=0;i<w.fixed.size();i++){ auto d=one("fixed ",w.fixed[i],g.fixed[i]); if(!d.empty()) return d; }
    return "";
}
void sanitise(Model& m){ // out-of-table tokens have no text; keep a few in clones only
    for(auto* v:{&m.attrs,&m.fixed}) for(auto& a:*v) if(a.type==INDEXEDSTR&&!a.strs.empty()) for(auto& d:a.data) if(d>=a.strs.size()) d%=a.strs.size();
}
Model related(const Model& b){ // a delta whose schema overlaps the base's
    Model d=genModel(BGEO,T.chance(1,12)?300:14);
    for(auto* pair:{&b.attrs,&b.fixed}){
        std::vector<MAttr>& to=pair==&b.attrs?d.attrs:d.fixed; size_t n=pair==&b.attrs?d.n:1;
        for(auto& a:*pair) if(T.choose(3)!=2){
            MAttr x=a; if(T.chance(1,8)) x.count=T.range(1,4); if(T.chance(1,8)){ static const int ty[]={FLOAT,VECTOR,INT,INDEXEDSTR}; x.type=ty[T.choose(4)]; }
            bool dup=false; for(auto& y:to) if(y.name==x.name) dup=true;
            if(x.type==INDEXEDSTR){
                std::vector<std::string> s; if(a.type==INDEXEDSTR) for(auto& q:a.strs) if(T.choose(3)) s.push_back(q);
                if(T.choose(2)) s.push_back(strf("new%u",T.choose(5))); if(s.empty()) s.push_back("other");
                if(T.choose(2)) std::reverse(s.begin(),s.end()); std::set<std::string> u; x.strs.clear(); for(auto& q:s) if(u.insert(q).second) x.strs.push_back(q);
                if(x.strs.size()>1&&T.chance(1,12)) x.strs.push_back(x.strs[0]);
            } else x.strs.clear();
            x.data.resize(n*x.count); uint32_t base=T.bits(); for(size_t i=0;i<x.data.size();i++){ uint32_t h=(uint32_t)mix64(base,i); x.data[i]=x.type==INDEXEDSTR?h%x.strs.size():x.type==INT?h%1000:fbits((float)(int)(h%20001)-10000.f); }
            if(dup){ for(auto& y:to) if(y.name==x.name) y=x; } else to.insert(to.begin()+T.choose(to.size()+1),x);
        }
    }
    return d;
}
void putIds(Model& m,const char* name,int spread){
    MAttr* a=m.find(name);
    if(!a){ MAttr x; x.name=name; m.attrs.insert(m.attrs.begin()+T.choose(m.attrs.size()+1),x); a=m.find(name); }
    a->type=INT; a->count=1; a->strs.clear(); a->data.resize(m.n); uint32_t base=T.bits(); bool uniq=T.choose(3)!=0;
    for(int i=0;i<m.n;i++) a->data[i]=uniq?(uint32_t)(i*3+(int)(base%spread)-1):(uint32_t)((int)(mix64(base,i)%(2*spread))-spread);
}
static bool copyable(int b,int d){ return b==d||((b==FLOAT||b==VECTOR)&&(d==FLOAT||d==VECTOR)); }
static uint32_t takeString(MAttr& to,const MAttr& from,uint32_t tok){
    if(tok>=from.strs.size()) return tok;
    for(size_t i=0;i<to.strs.size();i++) if(to.strs[i]==from.strs[tok]) return i;
    to.strs.push_back(from.strs[tok]); return to.strs.size()-1;
}
// what a merge must give, from the contract alone
Model refMerge(Model b,const Model& d,const std::string& id0,const std::string& id1){
    auto intAttr=[](const Model& m,const std::string& s)->const MAttr*{ const MAttr* a=m.find(s); return a&&a->type==INT?a:nullptr; };
    std::vector<std::pair<int,int>> bid; bool b0=intAttr(b,id0),b1=intAttr(b,id1),d0=intAttr(d,id0),d1=intAttr(d,id1);
    bool use=(b0||b1)&&b0==d0&&b1==d1;
    auto key=[&](const Model& m,int i){ const MAttr* x=intAttr(m,id0); const MAttr* y=intAttr(m,id1); return std::make_pair(x?(int)x->data[i]:0,y?(int)y->data[i]:0); };
    std::map<std::pair<int,int>,int> at; if(use) for(int i=0;i<b.n;i++) at[key(b,i)]=i;
    // the schema: what only the delta has comes behind, zero in the base's particles
    std::vector<bool> mayCopy;
    for(auto& a:b.attrs){ const MAttr* x=d.find(a.name); mayCopy.push_back(x&&copyable(a.type,x->type)); }
    size_t nb=b.attrs.size();
    for(auto& x:d.attrs) if(!b.find(x.name)){ MAttr a=x; a.data.assign((size_t)b.n*a.count,0); a.strs.clear(); b.attrs.push_back(a); mayCopy.push_back(true); }
    (void)nb;
    for(size_t j=0;j<b.attrs.size();j++) if(mayCopy[j]&&b.attrs[j].type==INDEXEDSTR) for(size_t s=0;s<d.find(b.attrs[j].name)->strs.size();s++) takeString(b.attrs[j],*d.find(b.attrs[j].name),s);
    int n0=b.n; (void)n0;
    for(int i=0;i<d.n;i++){
        int t=-1; if(use){ auto it=at.find(key(d,i)); if(it!=at.end()) t=it->second; }
        if(t<0){ t=b.n++; for(auto& a:b.attrs) a.data.resize((size_t)b.n*a.count,0); }
        for(size_t j=0;j<b.attrs.size();j++) if(mayCopy[j]){
            MAttr& a=b.attrs[j]; const MAttr& x=*d.find(a.name);
            for(int k=0;k<std::min(a.count,x.count);k++){ uint32_t v=x.data[(size_t)i*x.count+k]; a.data[(size_t)t*a.count+k]=a.type==INDEXEDSTR?takeString(a,x,v):v; }
        }
    }
    for(auto& x:d.fixed){
        MAttr* a=nullptr; for(auto& y:b.fixed) if(y.name==x.name) a=&y;
        if(!a){ MAttr y=x; y.strs.clear(); for(size_t s=0;s<x.strs.size();s++) takeString(y,x,s); for(auto& v:y.data) if(y.type==INDEXEDSTR) v=takeString(y,x,v); b.fixed.push_back(y); continue; }
        if(!copyable(a->type,x.type)) continue;
        if(a->type==INDEXEDSTR) for(size_t s=0;s<x.strs.size();s++) takeString(*a,x,s);
        for(int k=0;k<std::min(a->count,x.count);k++) a->data[k]=a->type==INDEXEDSTR?takeString(*a,x,x.data[k]):x.data[k];
    }
    return b;
}
void checkSource(const Model& want,const ParticlesData& p,const char* who){ std::string d=compare(want,extract(p),0); if(!d.empty()) violation(std::string("source-changed:")+who,std::string(who)+" changed its source: "+d); }
static void tryFault(const char* ph,bool& armed){ armed=T.choose(3)==2; if(armed) mem::arm(T.choose(T.choose(2)?12:90),T.choose(2)); (void)ph; }
static void runC16(){
    beginRun(); int kind=T.pick({4,1,6});
    if(kind<2){
        Model m=genModel(BGEO,400); ParticlesDataMutable* src=make(m); count(C_CLONE);
        // names may be mapped, to names nobody else has
        std::map<std::string,std::string> nm; bool useMap=T.choose(2); Model want=kind==0?distinctStrs(m):m;
        std::set<std::string> used; for(auto* v:{&m.attrs,&m.fixed}) for(auto& a:*v) used.insert(a.name);
        if(useMap){
            for(auto* v:{&want.attrs,&want.fixed}) for(auto& a:*v) if(!nm.count(a.name)&&T.choose(2)){ std::string t=T.choose(8)?strf("mapped_%zu",nm.size()):a.name; if(t!=a.name&&used.count(t)) continue; nm[a.name]=t; }
            if(T.choose(2)) nm["no such attribute"]="position";
            for(auto* v:{&want.attrs,&want.fixed}) for(auto& a:*v) if(nm.count(a.name)) a.name=nm[a.name];
        }
        bool particles=T.choose(4)!=0; std::string ph=kind==0?"clone":"cloneSchema"; bool armed; ParticlesDataMutable* c=nullptr; long live=mem::liveCount();
        note(ph+strf(" particles=%d map=%d ",particles,useMap)+describe(m));
        patterns(); tryFault(ph.c_str(),armed);
        Outcome oc=api(ph,[&]{ c=kind==0?clone(*src,particles,useMap?&nm:nullptr):cloneSchema(*src,useMap?&nm:nullptr); }); bool fired=mem::injected; mem::arm(-1,false);
        checkSource(m,*src,ph.c_str());
        if(oc!=DONE){
            if(!fired||oc==OTHEREXC) violation("exception:"+ph,oc==NOMEM?"out of memory without reason":"exception: "+lastExc);
            if(mem::liveCount()!=live) violation("leak:"+ph,strf("a %s that ran out of memory leaves %ld blocks allocated",ph.c_str(),mem::liveCount()-live));
            doRelease(src); return;
        }
        if(!c) violation("null:"+ph,ph+" returns nothing");
        Model got;
        if(kind==1){ // attributes, no particles, no strings; the values of fixed attributes are not copied
            got=extractHeaders(*c); want.n=0; for(auto* v:{&want.attrs,&want.fixed}) for(auto& a:*v){ a.data.clear(); a.strs.clear(); }
            std::string d=cmpByText(want,got,true); if(!d.empty()) violation("content:cloneSchema",d);
            for(int i=0;i<c->numAttributes();i++){ ParticleAttribute a; c->attributeInfo(i,a); if(a.type==INDEXEDSTR&&c->indexedStrs(a).size()) violation("content:cloneSchema","a schema clone has strings"); }
        }else{
            got=extract(*c); if(!particles){ want.n=0; want.attrs.clear(); }
            std::string d=cmpByText(want,got,true); if(!d.empty()) violation("content:clone",d);
        }
        // the clone is a set of its own: writing to it must not show in the source
        if(c->numParticles()&&c->numAttributes()){ ParticleAttribute a; c->attributeInfo(0,a); if(a.count) api("write clone",[&]{ uint32_t v[64]={0x11111111}; memcpy(c->dataWrite<void>(a,0),v,4); if(a.type==INDEXEDSTR) c->registerIndexedStr(a,"only in the clone"); }); }
        if(T.choose(2)){ checkSource(m,*src,ph.c_str()); doRelease(c); checkSource(m,*src,ph.c_str()); doRelease(src); }
        else { doRelease(src); if(kind==0) (void)extract(*c); doRelease(c); }
        return;
    }
    count(C_MERGE);
    Model b=genModel(BGEO,T.chance(1,10)?300:12); sanitise(b); Model d=related(b); sanitise(d);
    if(T.chance(1,14)) d=b;
    static const char* ID[]={"id","otherId","mass"}; std::string i0,i1; int mode=T.choose(5);
    if(mode>=1){ i0=ID[0]; int sp=1+T.choose(12); if(mode!=3||T.choose(2)) putIds(b,"id",sp); if(mode!=4||T.choose(2)) putIds(d,"id",sp); }
    if(mode>=2&&T.choose(2)){ i1=ID[1]; int sp=1+T.choose(6); if(T.choose(5)) putIds(b,"otherId",sp); if(T.choose(5)) putIds(d,"otherId",sp); }
    if(T.chance(1,10)) std::swap(i0,i1);
    for(auto* m:{&b,&d}) for(auto* s:{&i0,&i1}) if(MAttr* a=m->find(*s)) if(a->type==INT&&a->count!=1){ a->count=1; a->data.resize(m->n); } // identifiers are single
    note(strf("merge ids='%s','%s' ",i0.c_str(),i1.c_str())+describe(b)+" <- "+describe(d));
    Model want=refMerge(b,d,i0,i1);
    ParticlesDataMutable* pb=make(b); ParticlesDataMutable* pd=make(d); long live=mem::liveCount();
    patterns(); bool armed; tryFault("merge",armed);
    Outcome oc=api("merge",[&]{ if(i0.empty()&&i1.empty()&&T.pos%2) merge(*pb,*pd); else merge(*pb,*pd,i0,i1); }); bool fired=mem::injected; mem::arm(-1,false); (void)live;
    checkSource(d,*pd,"merge");
    if(oc!=DONE){
        if(!fired||oc==OTHEREXC) violation("exception:merge",oc==NOMEM?"out of memory without reason":"exception: "+lastExc);
        // the base keeps its own particles and stays usable; a second merge of the rest must work
        Model got; api("use base",[&]{ mem::tracking=false; got=extract(*pb); }); if(got.n<b.n) violation("base-lost:merge",strf("a merge that ran out of memory left %d of %d particles",got.n,b.n));
        if(api("use base",[&]{ pb->addParticle(); })!=DONE) violation("base-unusable:merge","no particle can be added after a merge ran out of memory");
        doRelease(pb); doRelease(pd); if(mem::liveCount()) violation("leak:merge",strf("a merge that ran out of memory leaves %ld blocks allocated: ",mem::liveCount())+mem::describeLive()); return;
    }
    std::string e=cmpByText(want,extract(*pb),false); if(!e.empty()) violation("content:merge",e);
    doRelease(pd); e=cmpByText(want,extract(*pb),false); if(!e.empty()) violation("content:merge","after the delta was released: "+e);
    doRelease(pb); if(mem::liveCount()) violation("leak:merge",strf("%ld blocks stay allocated: ",mem::liveCount())+mem::describeLive());
}

// ------------------------------------------- C04 queries, one thread at a time
bool trackQueries=false; // the library calls inside the query checks count as the library's
struct Track { bool t; Track():t(mem::tracking){ mem::tracking=trackQueries; } ~Track(){ mem::tracking=t; } };
// positions on a coarse grid (exact arithmetic, many ties), on a line, all the same, or anywhere
QSet querySet(int maxN){
    QSet q; int style=T.choose(6); q.exact=style!=5; q.m.n=T.choose(6)==0?T.choose(3):1+T.choose(T.choose(3)?maxN/6:maxN);
    MAttr a; a.name="position"; a.type=VECTOR; a.count=3; a.data.resize(q.m.n*3); uint32_t base=T.bits(); int span=style==0?3:style==1?9:style==2?1000:style==3?40:1;
    for(int i=0;i<q.m.n;i++) for(int k=0;k<3;k++){ uint32_t h=(uint32_t)mix64(base,(uint64_t)i*3+k); float f=style==5?((float)(h%2000001)-1e6f)*1.37e-4f:style==3&&k?2.f:((int)(h%(2*span+1))-span)*0.25f; a.data[i*3+k]=fbits(f); }
    q.m.attrs.push_back(a);
    if(T.choose(2)){ MAttr b; b.name="id"; b.type=INT; b.count=1; for(int i=0;i<q.m.n;i++) b.data.push_back(mix64(base,i)%77); q.m.attrs.insert(q.m.attrs.begin()+T.choose(2),b); }
    return q;
}
static void rescale(QSet& q,float by){ q.scale=by; for(auto& v:q.m.find("position")->data) v=fbits(bitsf(v)*by); }
static float dist2(const Model& m,int i,const float* c){ const MAttr& a=*m.find("position"); float s=0; for(int k=0;k<3;k++){ float d=bitsf(a.data[i*3+k])-c[k]; s+=d*d; } return s; }
float coord(const QSet& q){
    const MAttr& a=*q.m.find("position"); if(q.m.n&&T.choose(2)) return bitsf(a.data[T.choose(a.data.size())]);
    return (q.exact?((int)T.choose(41)-20)*0.25f:((float)T.choose(2001)-1000)*0.137f)*q.scale;
}
std::string checkBox(const QSet& q,const ParticlesData& p,const float* lo,const float* hi){
    std::vector<ParticleIndex> r; r.push_back(77); r.push_back(3); { Track t; p.findPoints(lo,hi,r); }
    if(r.size()<2||r[0]!=77||r[1]!=3) return "the caller's list was not appended to";
    std::vector<char> in(q.m.n,0); const MAttr& a=*q.m.find("position");
    for(size_t i=2;i<r.size();i++){ if(r[i]>=(ParticleIndex)q.m.n) return strf("box search returns particle %llu of %d",(unsigned long long)r[i],q.m.n); if(in[r[i]]++) return strf("box search returns particle %llu twice",(unsigned long long)r[i]); }
    for(int i=0;i<q.m.n;i++){ bool want=true; for(int k=0;k<3;k++){ float x=bitsf(a.data[i*3+k]),l=std::min(lo[k],hi[k]),h=std::max(lo[k],hi[k]); if(x<l||x>h) want=false; } if(want!=(bool)in[i]) return strf("box search %s particle %d of %d",want?"misses":"returns, though outside the box,",i,q.m.n); }
    return "";
}
std::string checkNear(const QSet& q,const ParticlesData& p,const float* c,int np,float radius,int form){
    std::vector<ParticleIndex> r; std::vector<float> d; float fr=-1;
    if(form){ r.assign(np+1,0xdead); d.assign(np+1,-5.f); int k; { Track t; k=p.findNPoints(c,np,radius,r.data(),d.data(),&fr); } if(k<0||k>np) return strf("nearest search finds %d of at most %d",k,np); if(r[np]!=0xdead||d[np]!=-5.f) return "nearest search writes past the caller's arrays"; r.resize(k); d.resize(k); }
    else { r.assign(T.choose(3),5); d.assign(2,1.f); Track t; p.findNPoints(c,np,radius,r,d); }
    if(r.size()!=d.size()||(int)r.size()>np) return strf("nearest search gives %zu particles and %zu distances, at most %d asked",r.size(),d.size(),np);
    float r2=radius*radius; std::vector<float> all; for(int i=0;i<q.m.n;i++){ float x=dist2(q.m,i,c); if(x<r2) all.push_back(x); } std::sort(all.begin(),all.end());
    auto near=[&](float x,float y){ return q.exact?x==y:std::fabs(x-y)<=1e-5f*(std::fabs(x)+std::fabs(y)); };
    std::set<ParticleIndex> u; for(size_t i=0;i<r.size();i++){ if(r[i]>=(ParticleIndex)q.m.n) return strf("nearest search returns particle %llu of %d",(unsigned long long)r[i],q.m.n); if(!u.insert(r[i]).second) return "nearest search returns a particle twice"; if(!near(dist2(q.m,(int)r[i],c),d[i])) return strf("particle %llu is at squared distance %g, nearest search says %g",(unsigned long long)r[i],dist2(q.m,(int)r[i],c),d[i]); }
    size_t want=std::min<size_t>(np,all.size()); if(!q.exact&&want!=r.size()){ // a particle on the very edge of the radius
        size_t sure=0; for(float x:all) if(x<r2*(1-1e-5f)) sure++; if(r.size()>=std::min<size_t>(np,sure)&&r.size()<=want+1) return ""; }
    if(want!=r.size()) return strf("nearest search finds %zu particles, %zu are within the radius, at most %d asked",r.size(),all.size(),np);
    std::vector<float> s=d; std::sort(s.begin(),s.end()); for(size_t i=0;i<s.size();i++) if(!near(s[i],all[i])) return strf("nearest search: the %zuth closest is at squared distance %g, found %g",i,all[i],s[i]);
    if(form&&q.m.n&&q.exact){ float w=(int)r.size()==np?s.back():r2; if(fr!=w) return strf("final squared radius %g, expected %g",fr,w); }
    return "";
}
static void runC04(){
    beginRun(); QSet q=querySet(400); if(T.choose(3)==2) rescale(q,std::ldexp(1.f,T.choose(29)-14)); note(strf("queries scale %g ",q.scale)+describe(q.m)); ParticlesDataMutable* p=makeAs(q.m,0,T.choose(8));
    for(int round=0;;round++){
        if(api("sort",[&]{ p->sort(); if(T.choose(4)==3) p->sort(); })!=DONE) violation("exception:sort","exception while sorting");
        checkSource(q.m,*p,"sort");
        int nq=1+T.choose(8);
        for(int k=0;k<nq;k++){
            count(C_QUERIES); float c[3],h[3]; for(int j=0;j<3;j++) c[j]=coord(q); std::string e;
            if(T.choose(2)){ for(int j=0;j<3;j++) h[j]=T.choose(3)?coord(q):c[j]; api("findPoints",[&]{ mem::tracking=false; e=checkBox(q,*p,c,h); }); if(!e.empty()) violation("box",e); }
            else { int np=1+T.choose(T.choose(3)?8:std::max(1,q.m.n+3)); float r=(T.choose(3)==0?1e6f:T.choose(60)*0.25f*(q.exact?1:8))*q.scale; int form=T.choose(2); api("findNPoints",[&]{ mem::tracking=false; e=checkNear(q,*p,c,np,r,form); }); if(!e.empty()) violation("nearest",e); }
        }
        checkSource(q.m,*p,"query");
        if(round==3||T.choose(3)!=2) break;
        // the set changes and is sorted again
        int moved=0,added=0; uint32_t base=T.bits(); bool grow=T.choose(3)==2; int every=1+T.choose(4);
        api("edit",[&]{
            mem::tracking=true;
            if(grow){ added=1+(int)T.choose(T.choose(2)?4:60); if(T.choose(2)) p->addParticles(added); else for(int i=0;i<added;i++) p->addParticle(); }
            mem::tracking=false;
            for(auto& a:q.m.attrs){ int n=q.m.n+added; a.data.resize((size_t)n*a.count); ParticleAttribute h; p->attributeInfo(a.name.c_str(),h);
                for(int i=0;i<n;i++) if(i>=q.m.n||(a.type==VECTOR&&mix64(base,i)%every==0)) for(int k=0;k<a.count;k++){ uint32_t v=(uint32_t)mix64(base^0x51,(uint64_t)i*3+k); uint32_t w=a.type==VECTOR?fbits(((int)(v%41)-20)*0.25f*q.scale):v%77; a.data[(size_t)i*a.count+k]=w; p->dataWrite<uint32_t>(h,i)[k]=w; moved++; } }
            q.m.n+=added;
        });
        note(strf("; %d added, %d values set, sorted again",added,moved)); if(!q.m.n) break;
    }
    doRelease(p); if(mem::liveCount()) violation("leak:sort",strf("%ld blocks stay allocated: ",mem::liveCount())+mem::describeLive());
}

// ------------------------------------------------------------ C19 clustering
static void runC19(){
    beginRun(); QSet q=querySet(60); while(q.m.attrs.size()>1) q.m.attrs.erase(q.m.attrs.begin()+(q.m.attrs[0].name=="position")); Model& m=q.m;
    Model extra=genModel(BGEO,1); uint32_t base=T.bits(); std::vector<int> perm(m.n); for(int i=0;i<m.n;i++) perm[i]=i; for(int i=m.n-1;i>0;i--) std::swap(perm[i],perm[mix64(base,i)%(i+1)]);
    MAttr id; id.name="id"; id.type=INT; id.count=1; for(int i=0;i<m.n;i++) id.data.push_back((uint32_t)(perm[i]*(1+base%3)-(int)(base%7))); m.attrs.insert(m.attrs.begin()+T.choose(2),id);
    for(auto& a:extra.attrs) if(a.name!="position"&&a.name!="id"&&a.name!="clusterId"&&m.attrs.size()<5){ MAttr b=a; distinctStrs(b); b.data.resize((size_t)m.n*b.count); for(size_t i=0;i<b.data.size();i++){ uint32_t h=(uint32_t)mix64(base+1,i); b.data[i]=b.type==INDEXEDSTR?h%b.strs.size():b.type==INT?h%1000:fbits((float)(int)(h%2001)-1000.f); } m.attrs.insert(m.attrs.begin()+T.choose(m.attrs.size()+1),b); }
    if(T.chance(1,12)){ MAttr* a=m.find(T.choose(2)?"id":"position"); a->name="other"; } // what clustering needs is missing
    int wrong=!m.find("id")||!m.find("position");
    int neigh=1+T.choose(T.choose(2)?5:80),conn=T.choose(6); double rs=0.3+T.choose(40)*0.31,ri=T.choose(3)==0?0:T.choose(1001)*0.1,dens=T.choose(60)*0.37;
    if(T.chance(1,8)) rs*=1+T.choose(40);
    if(m.n<=8&&T.choose(3)==0) dens=std::max(dens,(100+T.choose(1900))/rs); // hundreds of particles between two neighbours
    else if(dens*rs>400) dens=400/rs;
    note(strf("clustering neighbours=%d radius=%g inside=%g connections=%d density=%g ",neigh,rs,ri,conn,dens)+describe(m));
    ParticlesDataMutable* p=makeAs(m,0,T.choose(8)); long live=mem::liveCount(); (void)live;
    ParticlesDataMutable* c=nullptr; bool armed; patterns(); tryFault("computeClustering",armed);
    Outcome oc=api("computeClustering",[&]{ c=computeClustering(p,neigh,rs,ri,conn,dens); }); bool fired=mem::injected; mem::arm(-1,false);
    checkSource(m,*p,"computeClustering");
    if(oc!=DONE){
        if(!fired||oc==OTHEREXC) violation("exception:computeClustering",oc==NOMEM?"out of memory without reason":"exception: "+lastExc);
        doRelease(p); if(mem::liveCount()) violation("leak:computeClustering",strf("clustering that ran out of memory leaves %ld blocks allocated: ",mem::liveCount())+mem::describeLive()); return;
    }
    if(wrong){ if(c) violation("content:computeClustering","a set without id or position is clustered"); doRelease(p); if(mem::liveCount()) violation("leak:computeClustering","a refused clustering leaks"); return; }
    if(!c) violation("null:computeClustering","clustering returns nothing");
    Model g=extract(*c);
    // the same call again, in other leftover memory
    patterns(); ParticlesDataMutable* c2=nullptr; if(api("computeClustering",[&]{ c2=computeClustering(p,neigh,rs,ri,conn,dens); })!=DONE||!c2) violation("exception:computeClustering","a second clustering fails");
    std::string d=compare(g,extract(*c2),0); if(!d.empty()) violation("repeat:computeClustering","the same call gives another result: "+d); doRelease(c2);
    // every original in order, followed by those towards its connected neighbours
    if(g.attrs.size()!=m.attrs.size()+1||g.attrs.back().name!="clusterId"||g.attrs.back().type!=INT||g.attrs.back().count!=1) violation("content:computeClustering","the attributes are not those of the set and clusterId");
    for(size_t j=0;j<m.attrs.size();j++) if(g.attrs[j].name!=m.attrs[j].name||g.attrs[j].type!=m.attrs[j].type||g.attrs[j].count!=m.attrs[j].count||g.attrs[j].strs!=m.attrs[j].strs) violation("content:computeClustering","attribute '"+m.attrs[j].name+"' changed");
    const MAttr& P=*m.find("position"); const MAttr& I=*m.find("id"); int o=0; double inner=.01*std::min(100.,std::max(0.,ri))*rs;
    for(int i=0;i<m.n;i++){
        if(o>=g.n) violation("content:computeClustering",strf("only %d particles, original %d is missing",g.n,i));
        for(size_t j=0;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++) if(g.attrs[j].data[(size_t)o*m.attrs[j].count+k]!=m.attrs[j].data[(size_t)i*m.attrs[j].count+k]) violation("content:computeClustering",strf("original particle %d (at %d): attribute '%s' differs",i,o,m.attrs[j].name.c_str()));
        int cid=0; if(g.attrs.back().data[o]!=(uint32_t)cid++) violation("content:computeClustering","an original particle's clusterId is not 0"); o++;
        float ctr[3]; for(int k=0;k<3;k++) ctr[k]=bitsf(P.data[i*3+k]);
        std::vector<std::pair<float,int>> near; float r2=(float)rs*(float)rs; bool edge=false; for(int q2=0;q2<m.n;q2++){ float x=dist2(m,q2,ctr); if(x<r2) near.push_back({x,q2}); if(std::fabs(x-r2)<1e-4f*r2) edge=true; }
        std::sort(near.begin(),near.end());
        bool tie=edge||((int)near.size()>neigh&&(near[neigh].first-near[neigh-1].first)<=1e-4f*near[neigh].first); if((int)near.size()>neigh) near.resize(neigh);
        if(tie){ // which neighbours count is open: skip this original's companions
            while(o<g.n&&g.attrs.back().data[o]!=0){ if(g.attrs.back().data[o]!=(uint32_t)cid++) violation("content:computeClustering","clusterIds are not consecutive"); o++; } continue;
        }
        std::vector<std::pair<int,int>> byId; for(auto& x:near) if(x.second!=i) byId.push_back({(int)I.data[x.second],x.second}); std::sort(byId.begin(),byId.end());
        for(int q2=0;q2<(int)byId.size()&&q2<conn;q2++){
            int nb=byId[q2].second; double dx[3],len=0; for(int k=0;k<3;k++){ dx[k]=(double)bitsf(P.data[nb*3+k])-ctr[k]; len+=dx[k]*dx[k]; } len=std::sqrt(len);
            double t=1.-(len-inner)/(rs-inner),exactN=len<inner?dens*len:dens*len*((3.-2.*t)*t*t); int lo=(int)(exactN*(1-1e-4)-1e-4),hi=(int)(exactN*(1+1e-4)+1e-4); if(exactN<1){ lo=0; if(exactN<.99) hi=0; } if(exactN<0) lo=hi=0;
            int cnt=0; while(cnt<hi&&o+cnt<g.n&&g.attrs.back().data[o+cnt]==(uint32_t)(cid+cnt)) cnt++;
            if(cnt<lo) violation("content:computeClustering",strf("original %d towards %d (distance %g): %d to %d particles expected, %d found",i,nb,len,lo,hi,cnt));
            if(lo!=hi){ // rounding: take as many as lie on this segment
                cnt=lo; }
            for(int s=0;s<cnt;s++,o++,cid++){
                double tt=-1; int kk=0; for(int k=1;k<3;k++) if(std::fabs(dx[k])>std::fabs(dx[kk])) kk=k;
                const MAttr* gp=g.find("position"); if(dx[kk]!=0) tt=((double)bitsf(gp->data[o*3+kk])-ctr[kk])/dx[kk];
                if(dx[kk]!=0&&(tt<-1e-3||tt>1+1e-3)) violation("content:computeClustering",strf("a particle between %d and %d is not between them (%g)",i,nb,tt));
                for(size_t j=0;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++){
                    uint32_t v=g.attrs[j].data[(size_t)o*m.attrs[j].count+k],a=m.attrs[j].data[(size_t)i*m.attrs[j].count+k],b=m.attrs[j].data[(size_t)nb*m.attrs[j].count+k];
                    if(m.attrs[j].type==INT||m.attrs[j].type==INDEXEDSTR){ if(v!=a) violation("content:computeClustering",strf("attribute '%s' of a new particle is not its original's",m.attrs[j].name.c_str())); }
                    else { double x=bitsf(a),y=bitsf(b),tol=2e-3*(std::fabs(x)+std::fabs(y)+1); if(dx[kk]!=0&&std::fabs(x+tt*(y-x)-bitsf(v))>tol*(1+1/std::max(.05,std::fabs(dx[kk])))) violation("content:computeClustering",strf("attribute '%s' component %d: %g at %g between %g and %g",m.attrs[j].name.c_str(),k,bitsf(v),tt,x,y)); }
                }
            }
            if(lo!=hi){ while(o<g.n&&hi-->lo){ break; } // cannot tell where the next segment starts
                while(o<g.n&&g.attrs.back().data[o]!=0){ o++; cid++; } break; }
        }
        if(o<g.n&&g.attrs.back().data[o]!=0) violation("content:computeClustering",strf("original %d of %d has more particles than its formula gives",i,m.n));
    }
    if(o!=g.n) violation("content:computeClustering",strf("%d particles, %d expected",g.n,o));
    doRelease(c); doRelease(p); if(mem::liveCount()) violation("leak:computeClustering",strf("%ld blocks stay allocated: ",mem::liveCount())+mem::describeLive());
}

void addSetProps(){
    PROPERTIES.push_back({"C04",runC04});
    PROPERTIES.push_back({"C19",runC19});
    PROPERTIES.push_back({"C15",runC15});
    PROPERTIES.push_back({"C16",runC16});
}
