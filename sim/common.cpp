#include "common.h"
using namespace Partio;

void patterns(){
    static const unsigned char P[]={0x00,0xaa,0x01,0xff,0x7f,0x41};
    mem::fillOn=true; mem::fill=P[T.choose(6)]; stackOn=true; stackPattern=P[T.choose(6)];
    if(mem::fill) count(F_HEAP_PATTERN);
    if(stackPattern) count(F_STACK_PATTERN);
}
void beginRun(){ disk::reset(); patterns(); mem::cap=(size_t)1<<28; mem::totalCap=(size_t)1<<29; mem::arm(-1,false); }
std::string pathFor(int fmt,bool gz,const char* stem){
    static const char* st[]={"/sim/a","/sim/shot.0001","/sim/d.ir/x","/sim/.hidden","rel"};
    std::string s=stem?stem:st[T.choose(5)];
    return s+"."+FMT_NAME[fmt]+(gz?".gz":"");
}
FaultPlan slowIO(bool reads,bool writes){
    static const int R[]={0,100,500,950}; static const int E[]={0,0,50,300};
    FaultPlan p;
    if(reads){ p.shortRead=R[T.choose(4)]; p.eintrRead=E[T.choose(4)]; }
    if(writes){ p.shortWrite=R[T.choose(4)]; p.eintrWrite=E[T.choose(4)]; }
    return p;
}
void noHandles(const char* where){ if(int n=disk::openHandles()) violation(std::string("handles:")+where,strf("%d file handles left open after %s",n,where)); }

ReadRes doRead(const std::string& path,const std::string& phase,bool verbose){
    ReadRes r; ErrStream e;
    r.oc=api(phase,[&]{ r.p=Partio::read(path.c_str(),verbose,e.os); });
    r.err=e.text(); if(!r.err.empty()) count(C_ERRMSG); if(!r.p) count(C_NULL_RESULT);
    evt("%s -> %s%s err=%zu",phase.c_str(),r.oc==DONE?(r.p?"set":"null"):r.oc==NOMEM?"bad_alloc":"exception ",r.oc==OTHEREXC?lastExc.c_str():"",r.err.size());
    return r;
}
HdrRes doHeaders(const std::string& path,const std::string& phase,bool verbose){
    HdrRes r; ErrStream e; count(C_HDR);
    r.oc=api(phase,[&]{ r.p=Partio::readHeaders(path.c_str(),verbose,e.os); });
    r.err=e.text(); if(!r.err.empty()) count(C_ERRMSG); if(!r.p) count(C_NULL_RESULT);
    evt("%s -> %s%s err=%zu",phase.c_str(),r.oc==DONE?(r.p?"set":"null"):r.oc==NOMEM?"bad_alloc":"exception ",r.oc==OTHEREXC?lastExc.c_str():"",r.err.size());
    return r;
}
std::string doWrite(const std::string& path,const ParticlesData& p,bool force,const std::string& phase,bool verbose){
    ErrStream e;
    Outcome o=api(phase,[&]{ Partio::write(path.c_str(),p,force,verbose,e.os); });
    if(o!=DONE) violation("exception:"+phase,o==NOMEM?"out of memory exception from a write":"exception from a write: "+lastExc);
    std::string s=e.text(); if(!s.empty()) count(C_ERRMSG);
    evt("%s -> err=%zu size=%zu",phase.c_str(),s.size(),disk::exists(path)?disk::get(path).size():0);
    return s;
}
void doRelease(ParticlesInfo* p){ if(p&&api("release",[&]{ p->release(); })!=DONE) violation("exception:release","exception while releasing a set"); }
ParticlesDataMutable* makeAs(const Model& m,int impl,int path){
    ParticlesDataMutable* p=nullptr;
    Outcome o=api("build",[&]{ p=buildSet(m,impl,path); });
    if(o!=DONE) violation("exception:build",o==NOMEM?"out of memory while building a set":"exception while building a set: "+lastExc);
    count(C_PARTICLES,m.n);
    return p;
}
ParticlesDataMutable* make(const Model& m){ int impl=T.choose(4)==3; return makeAs(m,impl,T.choose(8)); }
int drawReadable(){ for(;;){ int f=T.choose(NFMT); if(f==RIB) f=BGEO; return f; } }

Sample makeSample(int fmt,int maxN,bool allowGz,int foreign){
    Sample s; s.fmt=fmt; count(C_FMT0+fmt);
    s.foreign=!fmtWritable(fmt)||(foreign<0?T.choose(2):foreign);
    s.gz=allowGz&&drawGz(fmt); s.path=pathFor(fmt,s.gz);
    if(s.foreign){
        Bytes b=encodeForeign(fmt,s.want,maxN); if(s.gz){ b=gzipFrame(b); count(C_GZ); }
        disk::put(s.path,b); s.flags=(fmt==PTC||fmt==PTF)?CMP_PTCNORMAL:0;
    }else{
        Model m=genModel(fmt,maxN); ParticlesDataMutable* p=make(m); disk::heal();
        doWrite(s.path,*p,false,"write "+F(fmt)); doRelease(p); s.want=expectRoundTrip(fmt,m);
        s.flags=fmtText(fmt)?CMP_TEXT:(fmt==PTC||fmt==PTF)?CMP_PTCNORMAL:0;
    }
    s.bytes=disk::get(s.path); count(C_BYTES,s.bytes.size());
    note(strf("%s%s%s %zu bytes: ",FMT_NAME[fmt],s.gz?".gz":"",s.foreign?" (foreign)":"",s.bytes.size())+describe(s.want));
    evtHash("sample",hashBytes(s.bytes.data(),s.bytes.size()));
    return s;
}

// An independent reading of a rib file: the token lists of each Points call.
std::string cmpRib(const Bytes& file,const Model& m){
    std::vector<std::string> t; std::string s((const char*)file.data(),file.size()); size_t i=0;
    while(i<s.size()){
        if(isspace((unsigned char)s[i])){i++;continue;}
        if(s[i]=='['||s[i]==']'){t.push_back(std::string(1,s[i++]));continue;}
        if(s[i]=='"'){ size_t j=s.find('"',i+1); if(j==std::string::npos) return "unterminated string in the rib file"; t.push_back(s.substr(i,j-i+1)); i=j+1; continue; }
        size_t j=i; while(j<s.size()&&!isspace((unsigned char)s[j])&&s[j]!='['&&s[j]!=']'&&s[j]!='"') j++; t.push_back(s.substr(i,j-i)); i=j;
    }
    bool moving=m.find("P2")||m.find("position2"); int passes=0;
    for(size_t k=0;k<t.size();k++) if(t[k]=="Points"){
        k++;
        // the attributes this pass must state, in order
        std::vector<const MAttr*> want;
        for(auto& a:m.attrs){ bool p2=a.name=="P2"||a.name=="position2",p1=a.name=="P"||a.name=="position"; if((passes==0&&p2)||(passes==1&&p1)) continue; want.push_back(&a); }
        size_t w=0;
        while(k+1<t.size()&&t[k][0]=='"'){
            std::string name=t[k].substr(1,t[k].size()-2); k++; if(t[k]!="[") return "no value list after "+name; k++;
            std::vector<std::string> v; while(k<t.size()&&t[k]!="]") v.push_back(t[k++]);
            if(k>=t.size()) return "value list of "+name+" is not closed"; k++;
            if(name=="constantwidth"){ if(v.size()!=1||strtod(v[0].c_str(),nullptr)!=1) return "constantwidth is not 1"; continue; }
            if(w>=want.size()) return "unexpected attribute "+name;
            const MAttr& a=*want[w++];
            std::string n=(a.name=="position"||a.name=="position2"||a.name=="P"||a.name=="P2")?"P":a.name=="radius"?"width":a.name;
            if(n!=name) return "attribute '"+n+"' expected, file has '"+name+"'";
            if(v.size()!=a.data.size()) return strf("attribute '%s': %zu values expected, file has %zu",n.c_str(),a.data.size(),v.size());
            for(size_t q=0;q<v.size();q++){
                char* end=nullptr; char b[40]; bool ok;
                if(a.type==INT) ok=v[q]==strf("%d",(int)a.data[q]);
                else { float f=strtof(v[q].c_str(),&end); snprintf(b,40,"%.6g",bitsf(a.data[q])); ok=!*end&&(f==strtof(b,nullptr)||f==bitsf(a.data[q])); }
                if(!ok) return strf("attribute '%s' value %zu: want %08x (%g), file has %s",n.c_str(),q,a.data[q],bitsf(a.data[q]),v[q].c_str());
            }
        }
        if(w!=want.size()) return "attribute '"+want[w]->name+"' is missing from the rib file";
        passes++; k--;
    }
    if(passes!=(moving?2:1)) return strf("%d Points calls in the rib file",passes);
    if(t.size()<2||t[t.size()-1]!="AttributeEnd") return "rib file does not end with AttributeEnd";
    return "";
}
