#include "model.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <zlib.h>
#include <algorithm>
using namespace Partio;

const char* FMT_NAME[NFMT]={"bgeo","bhclassic","itbl","atbl","pdb","pdb32","pdb64","bin","prt","ptc","ptf","pdc","geo","hclassic","pda","rib","mc","pts"};
bool fmtText(int f){return f==GEO||f==HCLASSIC||f==PDA||f==RIB||f==PTS;}
bool fmtGz(int f){return f!=BIN&&f!=PRT;}
bool fmtWritable(int f){return f!=MC&&f!=PTS;}
bool fmtReadable(int f){return f!=RIB;}
bool fmtPositionFirst(int f){return f<=ATBL||f==PTC||f==PTF||f==GEO||f==HCLASSIC||f==BIN;}
static bool isB(int f){return f<=ATBL;}
static bool isPdb(int f){return f==PDB_||f==PDB32||f==PDB64;}
static bool isPtc(int f){return f==PTC||f==PTF;}
static bool isGeo(int f){return f==GEO||f==HCLASSIC;}

// ----------------------------------------------------------------- values
uint32_t genFloat(int kind){
    switch(T.pick({6,4,2,2,2,2})){
        case 0: return fbits((float)((int)T.choose(2001)-1000)*0.25f);
        case 1: return fbits((float)((int)T.choose(200001)-100000)*1.37e-3f);
        case 2: { static const uint32_t sp[]={0x00000000,0x80000000,0x3f800000,0x7f7fffff,0xff7fffff,0x00800000,0x34000000,0x4b000001,0x3eaaaaab,0x501502f9};
                  return sp[T.choose(10)]; }
        case 3: if(kind==2) return fbits((float)T.choose(100));
                { uint32_t u=T.bits(); if((u&0x7f800000)==0x7f800000){ if(kind==0) return (u&0x007fffff)?(u|0x00400000):u; u^=0x40000000; } return u; }
        case 4: if(kind==0){ static const uint32_t sp[]={0x7f800000,0xff800000,0x7fc00000,0x00000001,0x807fffff,0xffc12345}; return sp[T.choose(6)]; }
                if(kind==1){ static const uint32_t sp[]={0x00000001,0x807fffff,0x00012345,0x7f7ffffe,0x33333333,0x42f6e979}; return sp[T.choose(6)]; }
                return fbits((float)T.choose(1000)/7);
        default: return fbits((float)((int)T.choose(20001)-10000)*1e5f);
    }
}
static uint32_t genInt(){
    switch(T.pick({6,3,2})){
        case 0: return (uint32_t)((int)T.choose(201)-100);
        case 1: return T.bits();
        default:{ static const int sp[]={0,1,-1,INT_MAX,INT_MIN,255,256,65535,65536,-65536,1<<24}; return (uint32_t)sp[T.choose(11)]; }
    }
}
static std::string token(int maxLen){
    static const char a[]="abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ";
    std::string s; int n=1+T.choose(maxLen);
    s+=a[T.choose(27)];
    for(int i=1;i<n;i++) s+=a[T.choose(sizeof a-1)];
    return s;
}
static std::string anyStr(int maxLen,bool allowEmpty){
    std::string s; int n=T.choose(maxLen+1); if(n==0&&!allowEmpty) n=1;
    for(int i=0;i<n;i++){
        switch(T.pick({6,2,1})){
            case 0: s+=(char)('a'+T.choose(26)); break;
            case 1: s+=" \"\\\t\n'(),;:./%#"[T.choose(15)]; break;
            default: s+=(char)(1+T.choose(255)); break;
        }
    }
    return s;
}
static void fillValues(MAttr& a,size_t total,int floatKind){
    a.data.resize(total);
    // mostly structured, so that larger sets stay cheap on the tape
    uint32_t style=T.choose(3),base=T.bits(),k=0;
    for(size_t i=0;i<total;i++){
        if(a.type==INDEXEDSTR){ a.data[i]=a.strs.empty()?0:T.choose(a.strs.size()); continue; }
        bool cheap=total>64&&(style==0||i>200);
        if(cheap){
            uint32_t h=(uint32_t)mix64(base,++k);
            if(a.type==INT) a.data[i]=style?h:h%1000;
            else { uint32_t u=h; if(style==0||floatKind==2) u=fbits((float)(int)(h%200000)/64.f-1000.f);
                   else if((u&0x7f800000)==0x7f800000) u^=0x40000000;
                   a.data[i]=u; }
        }else a.data[i]=a.type==INT?genInt():genFloat(floatKind);
    }
}
static bool taken(const std::vector<MAttr>& v,const std::string& s){for(auto& a:v) if(a.name==s) return true; return false;}
static int genN(int maxN){
    int n;
    switch(T.pick({40,20,10,5,5,maxN>=9000?20u:1u})){
        case 5: n=1500+T.choose(6500); break; // more than any buffer holds
        case 4: n=(1<<(4+T.choose(7)))-1+T.choose(3); break; // sizes at which buffers are just full
        case 0: n=1+T.choose(8); break;
        case 1: n=T.choose(40); break;
        case 2: n=0; break;
        default: n=40+T.choose(1500);
    }
    return std::min(n,maxN);
}
// what a set has much of, beyond what small sets show
enum Wide { PLAIN, ATTRS, COUNTS, TABLE, STRINGS, FIXED }; bool genSmallWide=false; static Wide wide=PLAIN; static bool hugeTables=false;
static void genStrs(MAttr& a,bool allowEmpty){
    if(wide==TABLE){ static const int N[]={127,128,129,255,256,257,300,500,700,1025}; int k=hugeTables&&T.chance(1,60)?32760+T.choose(40000):N[T.choose(genSmallWide?3:10)]; uint32_t base=T.bits(); for(int i=0;i<k;i++) a.strs.push_back(strf("%x_%d",(unsigned)(mix64(base,i)&0xfff),i)); return; }
    if(wide==STRINGS){ static const int N[]={63,64,127,128,255,256,257,511,1000,1023,1024,4095,4096,5000}; int k=1+T.choose(4); for(int i=0;i<k;i++){ uint32_t base=T.bits(); int n=N[T.choose(14)]+(int)T.choose(3)-1; std::string s=strf("%d",i); while((int)s.size()<n){ uint64_t h=mix64(base,s.size()); s+=h%11<7?(char)('a'+(h>>8)%26):h%11<10?" \"\\\t\n'(),;:./%#"[(h>>8)%15]:(char)(1+(h>>8)%255); } a.strs.push_back(s); } return; }
    int k=T.choose(5); if(T.chance(1,20)) k=20+T.choose(60);
    for(int i=0;i<k;i++){ std::string s=T.chance(1,60)?std::string(300+T.choose(4000),'s')+token(4):anyStr(12,allowEmpty); bool dup=false; for(auto& x:a.strs) dup|=x==s; if(!dup) a.strs.push_back(s); }
    if(a.strs.size()>1&&T.chance(1,10)) a.strs.insert(a.strs.begin()+1+T.choose(a.strs.size()-1),a.strs[0]); // two tokens renamed to the same string
    if(a.strs.empty()) a.strs.push_back("one");
}
static const struct { const char* name; int type; float def; } BINATTR[15]={
    {"position",VECTOR,0},{"velocity",VECTOR,0},{"force",VECTOR,0},{"vorticity",VECTOR,0},{"normal",VECTOR,0},{"neighbors",INT,0},{"uvw",VECTOR,0},
    {"age",FLOAT,0},{"isolationTime",FLOAT,1},{"viscosity",FLOAT,1},{"density",FLOAT,1},{"pressure",FLOAT,1},{"mass",FLOAT,1},{"temperature",FLOAT,1},{"id",INT,0}};

static MAttr genAttr(int fmt,const std::vector<MAttr>& have,size_t n,bool fixed){
    MAttr a; int fk=fmtText(fmt)?1:0;
    static const char* common[]={"velocity","id","color","mass","age","radius","P","life","objectName","uv","normal","force","uvw","neighbors","temperature","position"};
    for(int tries=0;;tries++){
        if(tries>20) a.name=strf("u%d",(int)have.size());
        else if(T.choose(2)==0) a.name=common[T.choose(16)];
        else if(fmt==PRT) a.name=token(31);
        else if(isGeo(fmt)||fmt==PDA||fmt==RIB) a.name=T.chance(1,60)?token(3)+std::string(200+T.choose(900),'n'):token(T.chance(1,8)?60:10);
        else if(isPtc(fmt)){ a.name=token(12); if(T.chance(1,6)) a.name+=" "+token(3); }
        else if(T.chance(1,8)) a.name=anyStr(20,true); else if(T.chance(1,30)) a.name=token(3)+std::string(200+T.choose(900),'n'); else a.name=token(10);
        if(fmt==PRT&&a.name.size()&&a.name[0]>='A'&&a.name[0]<='Z') a.name[0]='a';
        if((a.name=="position"&&!(isPdb(fmt)||fmt==PDC||fmt==PDA||fmt==PRT))||(fmt==PDA&&a.name=="TYPES")) continue;
        if(isPtc(fmt)&&(a.name=="normal"||a.name=="radius")) continue;
        if(!taken(have,a.name)) break;
    }
    if(isB(fmt)){ int t[]={FLOAT,VECTOR,INT,INDEXEDSTR}; a.type=t[T.choose(4)]; a.count=T.chance(1,12)?T.range(1,40):T.range(1,4); if(a.type==VECTOR&&T.choose(2)==0) a.count=3; }
    else if(isPdb(fmt)){ int t[]={FLOAT,VECTOR,INT}; a.type=t[T.choose(3)]; a.count=T.range(1,a.type==VECTOR?4:5); if(a.type==VECTOR&&T.choose(3)) a.count=3; }
    else if(fmt==PRT){ int t[]={FLOAT,VECTOR,INT}; a.type=t[T.choose(3)]; a.count=a.type==VECTOR?3:T.range(1,5); if(a.type==FLOAT&&a.count==3) a.count=4; }
    else if(isPtc(fmt)){ a.type=FLOAT; int c[]={1,3,16}; a.count=c[T.choose(3)]; }
    else if(fmt==PDC){ a.type=T.choose(2)?VECTOR:FLOAT; a.count=a.type==VECTOR?3:1; }
    else if(isGeo(fmt)){ int t[]={FLOAT,VECTOR,INT,INDEXEDSTR}; a.type=t[T.choose(4)]; a.count=T.range(1,4); if(a.type==VECTOR&&T.choose(2)==0) a.count=3; }
    else if(fmt==PDA){ int t[]={FLOAT,VECTOR,INT}; a.type=t[T.choose(3)]; a.count=a.type==VECTOR?3:1; }
    else if(fmt==RIB){ int t[]={FLOAT,VECTOR,INT}; a.type=t[T.choose(3)]; a.count=a.type==VECTOR?3:T.range(1,3); }
    else { a.type=FLOAT; a.count=1; }
    if((wide==TABLE||wide==STRINGS)&&(isB(fmt)||isGeo(fmt))&&T.choose(2)){ a.type=INDEXEDSTR; a.count=T.range(1,3); }
    if(wide==COUNTS&&(isB(fmt)||isPdb(fmt)||isGeo(fmt)||fmt==RIB||(fmt==PRT&&a.type!=VECTOR))){ static const int N[]={5,6,7,8,9,10,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,300}; a.count=N[T.choose(genSmallWide?9:23)]; }
    if(a.type==INDEXEDSTR) genStrs(a,true);
    (void)fixed;
    fillValues(a,n*a.count,fk);
    return a;
}
static Model genModelOf(int fmt,int maxN);
Model genModel(int fmt,int maxN){
    hugeTables=maxN>=600; wide=T.chance(1,12)?(Wide)(1+T.choose(5)):PLAIN; if((wide==TABLE||wide==STRINGS||wide==FIXED)&&!isB(fmt)&&!(isGeo(fmt)&&wide!=FIXED)) wide=ATTRS;
    Model m=genModelOf(fmt,wide?std::min(maxN,genSmallWide?5:20):maxN); wide=PLAIN; return m;
}
static Model genModelOf(int fmt,int maxN){
    Model m; m.n=genN(maxN); if(fmt==PRT&&m.n==0) m.n=1;
    int fk=fmtText(fmt)?1:0;
    bool needPos=isB(fmt)||isPtc(fmt)||isGeo(fmt)||fmt==RIB;
    if(fmt==BIN){
        uint32_t mask=T.bits();
        for(int i=0;i<15;i++) if((mask>>i)&1||i==0){ MAttr a; a.name=BINATTR[i].name; a.type=BINATTR[i].type; a.count=a.type==VECTOR?3:1; fillValues(a,(size_t)m.n*a.count,0); m.attrs.push_back(a); }
        if(T.choose(2)) for(size_t i=m.attrs.size();i>1;i--) std::swap(m.attrs[i-1],m.attrs[T.choose(i)]);
        return m;
    }
    int na=wide==ATTRS?6+T.choose(T.choose(3)||genSmallWide?14:50):wide?1+T.choose(4):T.choose(m.n>100?3:5);
    for(int i=0;i<na;i++) m.attrs.push_back(genAttr(fmt,m.attrs,m.n,false));
    if(isPtc(fmt)){
        if(T.choose(2)){ MAttr a; a.name="normal"; a.type=VECTOR; a.count=3; a.data.resize(m.n*3);
            for(int i=0;i<m.n;i++){ int z=T.choose(5); for(int k=0;k<3;k++) a.data[i*3+k]=z==0?0:fbits((float)((int)T.choose(201)-100)/16.f);
                if(z==4){ // along or close to an axis or a plane, of any sensible length
                    static const float C[]={0.f,-0.f,1.f,-1.f,1e-3f,-1e-3f,1e-6f,-1e-6f,.99999f,-.99999f}; static const float S[]={1.f,1.f,1e-3f,100.f}; float l=S[T.choose(4)];
                    for(int k=0;k<3;k++) a.data[i*3+k]=fbits(C[T.choose(10)]*l); } }
            m.attrs.insert(m.attrs.begin()+T.choose(m.attrs.size()+1),a); }
        if(T.choose(2)){ MAttr a; a.name="radius"; a.type=FLOAT; a.count=1; fillValues(a,m.n,0); m.attrs.insert(m.attrs.begin()+T.choose(m.attrs.size()+1),a); }
    }
    if(needPos||(T.choose(3)&&!taken(m.attrs,"position"))){
        MAttr a; a.name=(fmt==RIB&&T.choose(2))?"P":"position"; if(taken(m.attrs,a.name)) a.name="position"; a.type=VECTOR; a.count=3; fillValues(a,(size_t)m.n*3,fk);
        m.attrs.insert(m.attrs.begin()+(T.choose(2)?T.choose(m.attrs.size()+1):0),a);
    }
    if(fmt==RIB&&T.chance(1,3)){ // a moving set carries the end positions
        MAttr a; a.name=m.find("P")?"P2":"position2"; a.type=VECTOR; a.count=3; fillValues(a,(size_t)m.n*3,fk); if(!taken(m.attrs,a.name)) m.attrs.push_back(a);
    }
    if(isB(fmt)){ int nf=wide==FIXED?5+T.choose(40):T.choose(4); for(int i=0;i<nf;i++) m.fixed.push_back(genAttr(fmt,m.fixed,1,true)); }
    return m;
}

static void normalPTC(const uint32_t* in,float* out){ // what the quantised normal stands for, in double precision
    double n[3]={bitsf(in[0]),bitsf(in[1]),bitsf(in[2])}; double m=std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]);
    for(int k=0;k<3;k++) out[k]=m==0?0.f:(float)(n[k]/m);
}
void distinctStrs(MAttr& a){
    if(a.type!=INDEXEDSTR) return;
    std::vector<std::string> t; std::vector<uint32_t> to; std::map<std::string,uint32_t> at;
    for(auto& s:a.strs){ auto it=at.find(s); if(it==at.end()){ it=at.insert({s,(uint32_t)t.size()}).first; t.push_back(s); } to.push_back(it->second); }
    if(t.size()==a.strs.size()) return;
    for(auto& v:a.data) if(v<to.size()) v=to[v];
    a.strs=t;
}
Model distinctStrs(Model m){ for(auto& a:m.attrs) distinctStrs(a); for(auto& a:m.fixed) distinctStrs(a); return m; }
Model expectRoundTrip(int fmt,const Model& m){
    Model r=distinctStrs(m);
    if(!isB(fmt)) r.fixed.clear();
    if(isB(fmt)||isGeo(fmt)){
        for(size_t i=0;i<r.attrs.size();i++) if(r.attrs[i].name=="position"){ MAttr a=r.attrs[i]; r.attrs.erase(r.attrs.begin()+i); r.attrs.insert(r.attrs.begin(),a); }
    }else if(isPtc(fmt)){
        Model q; q.n=m.n; q.attrs.push_back(*m.find("position"));
        MAttr nm; nm.name="normal"; nm.type=VECTOR; nm.count=3; nm.data.assign(m.n*3,0);
        if(auto* a=m.find("normal")) for(int i=0;i<m.n;i++){ float f[3]; normalPTC(&a->data[i*3],f); for(int k=0;k<3;k++) nm.data[i*3+k]=fbits(f[k]); }
        q.attrs.push_back(nm);
        MAttr rd; rd.name="radius"; rd.type=FLOAT; rd.count=1; rd.data.assign(m.n,fbits(1.f));
        if(auto* a=m.find("radius")) rd=*a;
        q.attrs.push_back(rd);
        for(auto& a:m.attrs) if(a.name!="position"&&a.name!="normal"&&a.name!="radius"){ q.attrs.push_back(a); }
        return q;
    }else if(fmt==BIN){
        Model q; q.n=m.n;
        for(int i=0;i<15;i++){
            if(auto* a=m.find(BINATTR[i].name)){ q.attrs.push_back(*a); continue; }
            MAttr a; a.name=BINATTR[i].name; a.type=BINATTR[i].type; a.count=a.type==VECTOR?3:1;
            a.data.assign((size_t)m.n*a.count,a.type==INT?(uint32_t)0:fbits(BINATTR[i].def));
            if(a.name=="id") for(int k=0;k<m.n;k++) a.data[k]=k;
            q.attrs.push_back(a);
        }
        return q;
    }
    return r;
}

// ------------------------------------------------------- building, reading
static void* attrPtr(const ParticlesDataMutable* p,const ParticleAttribute& a,ParticleIndex i){return p->dataWrite<void>(a,i);}
ParticlesDataMutable* buildSet(const Model& m,int impl,int path){
    ParticlesDataMutable* p=impl?createInterleave():create();
    std::vector<ParticleAttribute> h;
    auto addAttrs=[&]{ for(auto& a:m.attrs){ ParticleAttribute x=p->addAttribute(a.name.c_str(),(ParticleAttributeType)a.type,a.count); for(size_t i=0;i<a.strs.size();i++) if(p->registerIndexedStr(x,a.strs[i].c_str())!=(int)i){ p->registerIndexedStr(x,"\1 placeholder"); p->setIndexedStr(x,(int)i,a.strs[i].c_str()); } h.push_back(x);} };
    if(path&1) p->addParticles(m.n/2); // some of the particles first
    addAttrs();
    if(path&2) while(p->numParticles()<m.n) p->addParticle(); else if(p->numParticles()<m.n) p->addParticles(m.n-p->numParticles());
    for(size_t k=0;k<m.attrs.size();k++){
        auto& a=m.attrs[k];
        if(path&4){
            for(int i=0;i<m.n;i++) p->set(h[k],i,(const char*)&a.data[(size_t)i*a.count]);
        }else{
            ParticlesDataMutable::iterator it=p->begin(); ParticleAccessor acc(h[k]); it.addAccessor(acc); int i=0;
            for(ParticlesDataMutable::iterator e=p->end();it!=e;++it,++i) if(a.count) memcpy(acc.raw<char>(it),&a.data[(size_t)i*a.count],a.count*4);
        }
    }
    for(auto& a:m.fixed){
        FixedAttribute x=p->addFixedAttribute(a.name.c_str(),(ParticleAttributeType)a.type,a.count);
        for(size_t i=0;i<a.strs.size();i++) if(p->registerFixedIndexedStr(x,a.strs[i].c_str())!=(int)i){ p->registerFixedIndexedStr(x,"\1 placeholder"); p->setFixedIndexedStr(x,(int)i,a.strs[i].c_str()); }
        p->setFixed(x,(const char*)a.data.data());
    }
    (void)attrPtr;
    return p;
}
template<class A,class L> static MAttr header(const A& a,int i,L look){ // what is found by number and by name has to be the same
    MAttr x; x.name=a.name; x.type=a.type; x.count=a.count; A b;
    if(!look(a.name.c_str(),b)) x.name+=" (not found by name)"; else if(b.name!=a.name||b.type!=a.type||b.count!=a.count||b.attributeIndex!=a.attributeIndex||a.attributeIndex!=i) x.name+=strf(" (number %d, index %d, by name '%s' index %d)",i,a.attributeIndex,b.name.c_str(),b.attributeIndex);
    return x;
}
Model extractHeaders(const ParticlesInfo& p){
    Model m; m.n=p.numParticles();
    for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; p.attributeInfo(i,a); m.attrs.push_back(header(a,i,[&](const char* n,ParticleAttribute& b){return p.attributeInfo(n,b);})); }
    for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; p.fixedAttributeInfo(i,a); m.fixed.push_back(header(a,i,[&](const char* n,FixedAttribute& b){return p.fixedAttributeInfo(n,b);})); }
    return m;
}
Model extract(const ParticlesData& p){
    Model m=extractHeaders(p);
    for(int i=0;i<p.numAttributes();i++){
        ParticleAttribute a; p.attributeInfo(i,a); MAttr& x=m.attrs[i];
        if(a.type==INDEXEDSTR) x.strs=p.indexedStrs(a);
        if(a.count<=0) continue;
        x.data.resize((size_t)m.n*a.count);
        for(int k=0;k<m.n;k++) memcpy(&x.data[(size_t)k*a.count],p.data<void>(a,k),(size_t)a.count*4);
    }
    for(int i=0;i<p.numFixedAttributes();i++){
        FixedAttribute a; p.fixedAttributeInfo(i,a); MAttr& x=m.fixed[i];
        if(a.type==INDEXEDSTR) x.strs=p.fixedIndexedStrs(a);
        if(a.count<=0) continue;
        x.data.resize(a.count); memcpy(x.data.data(),p.fixedData<void>(a),(size_t)a.count*4);
    }
    return m;
}
static std::string printable(const std::string& s){ std::string r; for(char c:s.substr(0,60)) if((unsigned char)c<32||(unsigned char)c>126) r+=strf("\\x%02x",(unsigned char)c); else r+=c; if(s.size()>60) r+="..."; return r; }
static bool sameValue(const MAttr& a,uint32_t w,uint32_t g,int flags){
    if(w==g) return true;
    if(a.type==INT||a.type==INDEXEDSTR) return false;
    float fw=bitsf(w),fg=bitsf(g);
    if((flags&CMP_PTCNORMAL)&&a.name=="normal") return std::fabs(fw-fg)<=6e-3f;
    if(flags&CMP_TEXT){
        if(std::isnan(fw)||std::isnan(fg)||std::isinf(fw)||std::isinf(fg)) return false;
        if(fw==0&&fg==0) return true;
        char x[40],y[40]; snprintf(x,40,"%.6g",fw); snprintf(y,40,"%.6g",fg);
        if(!strcmp(x,y)) return true;
        // fg is the float nearest to the six-digit text (double rounding differs from %.6g only at ties)
        return strtof(x,nullptr)==fg;
    }
    return false;
}
static std::string cmpAttr(const char* kind,const MAttr& w,const MAttr& g,int flags,int n){
    if(w.type!=g.type||w.count!=g.count) return strf("%sattribute '%s': want type %d count %d, got type %d count %d",kind,printable(w.name).c_str(),w.type,w.count,g.type,g.count);
    if(flags&CMP_HEADERS) return "";
    if(!(flags&CMP_NOSTRS)&&w.type==INDEXEDSTR&&w.strs!=g.strs){
        size_t i=0; while(i<w.strs.size()&&i<g.strs.size()&&w.strs[i]==g.strs[i]) i++;
        return strf("%sattribute '%s': string table differs at %zu: want %s, got %s (sizes %zu, %zu)",kind,printable(w.name).c_str(),i,i<w.strs.size()?printable(w.strs[i]).c_str():"(none)",i<g.strs.size()?printable(g.strs[i]).c_str():"(none)",w.strs.size(),g.strs.size());
    }
    if(w.data.size()!=g.data.size()) return strf("%sattribute '%s': %zu values, got %zu",kind,printable(w.name).c_str(),w.data.size(),g.data.size());
    for(size_t i=0;i<w.data.size();i++) if(!sameValue(w,w.data[i],g.data[i],flags))
        return strf("%sattribute '%s' particle %zu component %zu of %d: want %08x (%g / %d), got %08x (%g / %d)",kind,printable(w.name).c_str(),i/w.count,i%w.count,n,w.data[i],bitsf(w.data[i]),(int)w.data[i],g.data[i],bitsf(g.data[i]),(int)g.data[i]);
    return "";
}
std::string compare(const Model& w,const Model& g,int flags){
    if(w.n!=g.n) return strf("particle count: want %d, got %d",w.n,g.n);
    if(w.attrs.size()!=g.attrs.size()) return strf("attribute count: want %zu, got %zu",w.attrs.size(),g.attrs.size());
    for(size_t i=0;i<w.attrs.size();i++){
        const MAttr* x=&g.attrs[i];
        if(flags&CMP_ANYORDER){ x=g.find(w.attrs[i].name); if(!x) return "attribute '"+printable(w.attrs[i].name)+"' is missing"; }
        else if(x->name!=w.attrs[i].name) return strf("attribute %zu: want '%s', got '%s'",i,printable(w.attrs[i].name).c_str(),printable(x->name).c_str());
        std::string d=cmpAttr("",w.attrs[i],*x,flags,w.n); if(!d.empty()) return d;
    }
    if(w.fixed.size()!=g.fixed.size()) return strf("fixed attribute count: want %zu, got %zu",w.fixed.size(),g.fixed.size());
    for(size_t i=0;i<w.fixed.size();i++){
        const MAttr* x=&g.fixed[i];
        if(flags&CMP_ANYFIXED){ x=nullptr; for(auto& a:g.fixed) if(a.name==w.fixed[i].name) x=&a; if(!x) return "fixed attribute '"+printable(w.fixed[i].name)+"' is missing"; }
        else if(x->name!=w.fixed[i].name) return strf("fixed attribute %zu: want '%s', got '%s'",i,printable(w.fixed[i].name).c_str(),printable(x->name).c_str());
        std::string d=cmpAttr("fixed ",w.fixed[i],*x,flags&CMP_NOFIXED?flags|CMP_HEADERS:flags,1); if(!d.empty()) return d;
    }
    return "";
}
std::string describe(const Model& m){
    static const char* tn[]={"NONE","VECTOR","FLOAT","INT","STR"};
    std::string s=strf("n=%d",m.n);
    for(auto& a:m.attrs) s+=strf(" %s:%s[%d]",printable(a.name.substr(0,12)).c_str(),tn[a.type],a.count);
    for(auto& a:m.fixed) s+=strf(" fixed %s:%s[%d]",printable(a.name.substr(0,12)).c_str(),tn[a.type],a.count);
    return s.substr(0,400);
}
uint64_t hashModel(const Model& m){
    uint64_t h=0xcbf29ce484222325ull; h=hashBytes(&m.n,4,h);
    auto one=[&](const MAttr& a){ h=hashBytes(a.name.data(),a.name.size()+1,h); h=hashBytes(&a.type,4,h); h=hashBytes(&a.count,4,h); h=hashBytes(a.data.data(),a.data.size()*4,h); for(auto& s:a.strs) h=hashBytes(s.c_str(),s.size()+1,h); };
    for(auto& a:m.attrs) one(a); for(auto& a:m.fixed) one(a);
    return h;
}

// ---------------------------------------------------------- api sections
std::string lastExc; unsigned char stackPattern=0; bool stackOn=false;
ApiScope::ApiScope(const std::string& phase):old(mem::tracking){
    setPhase(phase); evt("call %s",phase.c_str()); count(C_APICALLS); edgeCount=0;
    if(stackOn) mem::spray(stackPattern);
    mem::tracking=true;
}
ApiScope::~ApiScope(){ mem::tracking=old; SH->ticks+=edgeCount; }
