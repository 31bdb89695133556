// Runs of the file properties C05-C14 and C17: one process, one simulated disk.
#include "common.h"
#include <zlib.h>
#include <locale>
#include <clocale>
#include <algorithm>
using namespace Partio;

// A complete, undisturbed reading; false when the file cannot be read at all
// (whether it should be is decided by C05-C08).
struct Truth { Model full,hdr; bool ok=false,hok=false; long reads=0,hreads=0; };
static Truth truth(const Sample& s){
    Truth t; disk::heal();
    ReadRes r=doRead(s.path,"read "+F(s.fmt)+" (healthy)"); t.reads=disk::stats().reads;
    if(r.oc==DONE&&r.p){ t.full=extract(*r.p); t.ok=true; doRelease(r.p); }
    disk::heal();
    HdrRes h=doHeaders(s.path,"headers "+F(s.fmt)+" (healthy)"); t.hreads=disk::stats().reads;
    if(h.oc==DONE&&h.p){ t.hdr=extractHeaders(*h.p); t.hok=true; doRelease(h.p); }
    return t;
}

// ------------------------------------------------------- C05, C06 round trip
static void roundTrip(int fmt){
    beginRun(); count(C_FMT0+fmt); bool text=fmtText(fmt);
    Model m=genModel(fmt,text?150:T.chance(1,30)?9000:2000); bool gz=drawGz(fmt); std::string path=pathFor(fmt,gz); if(gz) count(C_GZ);
    note(strf("%s%s ",FMT_NAME[fmt],gz?".gz":"")+describe(m)); evtHash("model",hashModel(m));
    ParticlesDataMutable* p=make(m);
    std::string d=compare(m,extract(*p),0); if(!d.empty()) violation("build:"+F(fmt),"the set does not hold what was put in: "+d);
    disk::plan(slowIO(false,true)); patterns();
    std::string err=doWrite(path,*p,false,"write "+F(fmt));
    noHandles(("write "+F(fmt)).c_str());
    d=compare(m,extract(*p),0); if(!d.empty()) violation("source-changed:"+F(fmt),"writing changed the set: "+d);
    doRelease(p);
    if(!disk::exists(path)) violation("no-file:"+F(fmt),"write created no file; error text: "+err);
    count(C_BYTES,disk::get(path).size());
    if(fmt==RIB){
        Bytes b=disk::get(path); if(gz){ Bytes o; std::string e=gunzipStrict(b,o); if(!e.empty()) violation("gzip:rib",e); b=o; }
        d=cmpRib(b,m); if(!d.empty()) violation("content:rib",d);
        return;
    }
    disk::plan(slowIO(true,false)); patterns();
    ReadRes r=doRead(path,"read "+F(fmt));
    noHandles(("read "+F(fmt)).c_str());
    if(r.oc!=DONE) violation("exception:"+F(fmt),r.oc==NOMEM?"out of memory":"exception: "+lastExc);
    if(!r.p) violation("null:"+F(fmt),"the file just written is not read back: "+r.err);
    Model g=extract(*r.p);
    d=compare(expectRoundTrip(fmt,m),g,(text?CMP_TEXT:0)|((fmt==PTC||fmt==PTF)?CMP_PTCNORMAL:0));
    if(!d.empty()) violation("content:"+F(fmt),d);
    doRelease(r.p);
}
static void runC05(){ roundTrip(T.choose(PDC+1)); }
static void runC06(){ static const int f[]={GEO,HCLASSIC,PDA,RIB}; roundTrip(f[T.choose(4)]); }

// --------------------------------------------------------- C07 foreign files
static void runC07(){
    beginRun(); Sample s=makeSample(drawReadable(),T.chance(1,100)?100000:T.chance(1,8)?9000:400,true,1);
    disk::plan(slowIO(true,false)); patterns();
    ReadRes r=doRead(s.path,"read "+F(s.fmt)); noHandles(("read "+F(s.fmt)).c_str());
    if(r.oc!=DONE) violation("exception:"+F(s.fmt),r.oc==NOMEM?"out of memory":"exception: "+lastExc);
    if(!r.p) violation("null:"+F(s.fmt),"a conformant file is not read: "+r.err);
    std::string d=compare(s.want,extract(*r.p),s.flags); if(!d.empty()) violation("content:"+F(s.fmt),d);
    doRelease(r.p);
}

// ------------------------------------------------------------------ C08 gzip
static void runC08(){
    beginRun();
    if(T.choose(2)==0){ // writing
        int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)||!fmtGz(fmt));
        count(C_FMT0+fmt); Model m=genModel(fmt,T.chance(1,10)?(T.chance(1,3)?9000:3000):300); note(strf("write %s ",FMT_NAME[fmt])+describe(m));
        ParticlesDataMutable* p=make(m); disk::heal();
        std::string a=pathFor(fmt,false,"/sim/plain"); doWrite(a,*p,false,"write "+F(fmt));
        bool force=T.choose(2); std::string b=pathFor(fmt,!force||T.choose(2),"/sim/packed");
        disk::plan(slowIO(false,true)); doWrite(b,*p,force,"write gz "+F(fmt)); noHandles("write"); doRelease(p); count(C_GZ);
        if(!disk::exists(b)) violation("no-file:"+F(fmt),"no compressed file was created");
        Bytes o; std::string e=gunzipStrict(disk::get(b),o);
        if(!e.empty()) violation("gzip:"+F(fmt),"the compressed file is not valid gzip: "+e);
        if(o!=disk::get(a)) violation("expansion:"+F(fmt),strf("the expansion (%zu bytes) differs from the uncompressed file (%zu bytes)",o.size(),disk::get(a).size()));
        return;
    }
    int fmt; do fmt=drawReadable(); while(!fmtGz(fmt));
    Sample s=makeSample(fmt,T.chance(1,10)?3000:200,false); Truth t=truth(s); if(!t.ok) return;
    // compressed under its own name or under the uncompressed name
    std::string z=pathFor(fmt,T.choose(2),"/sim/z"); disk::put(z,gzipFrame(s.bytes)); count(C_GZ);
    note("gz "+std::string(SH->note));
    disk::plan(slowIO(true,false)); patterns();
    ReadRes r=doRead(z,"read gz "+F(fmt)); noHandles("read");
    if(r.oc!=DONE) violation("exception:"+F(fmt),r.oc==NOMEM?"out of memory":"exception: "+lastExc);
    if(!r.p) violation("null:"+F(fmt),"a valid compressed file is not read: "+r.err);
    std::string d=compare(t.full,extract(*r.p),0); if(!d.empty()) violation("content:"+F(fmt),d);
    doRelease(r.p);
}

// --------------------------------------------------------------- C09 headers
static void runC09(){
    beginRun(); Sample s=makeSample(drawReadable(),T.chance(1,100)?100000:T.chance(1,10)?9000:200);
    disk::heal(); ReadRes r=doRead(s.path,"read "+F(s.fmt));
    if(r.oc!=DONE||!r.p) return; // decided by C05-C08
    Model full=extractHeaders(*r.p); doRelease(r.p); if(s.fmt==PTS) full.n=0;
    disk::plan(slowIO(true,false)); patterns();
    HdrRes h=doHeaders(s.path,"headers "+F(s.fmt)); noHandles(("headers "+F(s.fmt)).c_str());
    if(h.oc!=DONE) violation("exception:"+F(s.fmt),h.oc==NOMEM?"out of memory":"exception: "+lastExc);
    if(!h.p) violation("null:"+F(s.fmt),"the headers of a readable file are not read: "+h.err);
    std::string d=compare(full,extractHeaders(*h.p),CMP_HEADERS); if(!d.empty()) violation("headers:"+F(s.fmt),d);
    doRelease(h.p);
    if(disk::get(s.path)!=s.bytes||!disk::writtenPaths().empty()) violation("file-changed:"+F(s.fmt),"reading headers changed the file");
}

// ----------------------------------------------------- C10 truncated, failing
// For plain text the end of the text is the end of the file: a pts file is a
// list of lines, and the last number of a pda file may be cut.
bool textPrefix(const Sample& s,const Model& full,const Model& got,size_t cut){
    if(s.gz) return false;
    if(s.fmt==PDA&&got.n==full.n&&got.attrs.size()==full.attrs.size()&&full.n>0&&!full.attrs.empty()){
        Model a=full,b=got; a.attrs.back().data.pop_back(); if(b.attrs.back().data.empty()) return false; b.attrs.back().data.pop_back(); return compare(a,b,0).empty();
    }
    if(s.fmt==PTS){
        // what an undamaged reader sees in the text that is left
        int lines=0; for(size_t i=0;i<cut&&i<s.bytes.size();i++) lines+=s.bytes[i]=='\n';
        if(got.n>full.n||got.n>lines) return false;
        if(got.n<=1) return true; // the first data line itself may be cut
        if(got.attrs.size()!=full.attrs.size()) return false;
        for(size_t i=0;i<full.attrs.size();i++){ auto &a=full.attrs[i],&b=got.attrs[i]; if(a.name!=b.name||a.type!=b.type||a.count!=b.count) return false;
            for(size_t k=0;k<(size_t)(got.n-1)*a.count;k++) if(a.data[k]!=b.data[k]) return false; }
        return true;
    }
    return false;
}
enum { X_TRUNC,X_EIO,X_EOF,X_OPEN,X_MISSING,X_INNER,X_NKIND };
static const char* XNAME[]={"truncated","read error","premature end","open failure","missing","cut before it was compressed"};
size_t drawCut(size_t n){
    if(n==0) return 0;
    switch(T.pick({4,3,2,1})){
        case 0: return T.choose((uint32_t)n);
        case 1: return n-1-T.choose((uint32_t)std::min<size_t>(n,40));
        case 2: return T.choose((uint32_t)std::min<size_t>(n,300));
        default: return T.choose((uint32_t)std::min<size_t>(n,12));
    }
}
// install one reading fault; returns what is left visible of the file
int readFault(const Sample& s,long reads,FaultPlan& f,size_t& cut){
    int kind=T.pick({8,4,2,1,1}); cut=s.bytes.size();
    if(T.choose(3)==2){ FaultPlan q=slowIO(true,false); f.shortRead=q.shortRead; f.eintrRead=q.eintrRead; }
    if(kind==X_TRUNC&&s.bytes.empty()) kind=X_MISSING;
    switch(kind){
        case X_TRUNC:{ cut=drawCut(s.bytes.size()); disk::put(s.path,Bytes(s.bytes.begin(),s.bytes.begin()+cut)); count(F_TRUNC); break; }
        case X_EIO: f.eioReadAt=T.choose((uint32_t)reads+1); f.eioReadSticky=T.choose(3)!=2; break;
        case X_EOF: f.eofReadAt=T.choose((uint32_t)reads+1); break;
        case X_OPEN:{ static const int e[]={2,13,24,5,12}; f.openFailAt=0; f.openErrno=e[T.choose(5)]; f.openFailSticky=true; break; }
        case X_MISSING: disk::remove(s.path); count(F_MISSING); break;
    }
    evt("fault %s cut=%zu eio@%ld eof@%ld",XNAME[kind],cut,f.eioReadAt,f.eofReadAt);
    return kind;
}
// the content cut short, and what is left properly compressed: nothing but the content itself tells
static bool cutInside(const Sample& s,Bytes& inner,size_t& cut){
    size_t head=0;
    if(s.fmt==PRT){
        auto le=[&](size_t i){ return i+4<=s.bytes.size()?s.bytes[i]|s.bytes[i+1]<<8|s.bytes[i+2]<<16|(uint32_t)s.bytes[i+3]<<24:0u; };
        size_t hs=le(8); head=hs+12+(size_t)le(hs+4)*le(hs+8); if(head>=s.bytes.size()) return false;
        z_stream z; memset(&z,0,sizeof z); inflateInit(&z); z.next_in=(Bytef*)&s.bytes[head]; z.avail_in=s.bytes.size()-head; unsigned char buf[65536]; int q;
        do{ z.next_out=buf; z.avail_out=sizeof buf; q=inflate(&z,Z_NO_FLUSH); inner.insert(inner.end(),buf,buf+(sizeof buf-z.avail_out)); }while(q==Z_OK); inflateEnd(&z);
        if(q!=Z_STREAM_END) return false;
    }else if(!s.gz||!gunzipStrict(s.bytes,inner).empty()) return false;
    if(inner.empty()) return false;
    cut=drawCut(inner.size()); Bytes c(inner.begin(),inner.begin()+cut),b;
    if(s.fmt==PRT){ uLongf n=compressBound(c.size()); Bytes o(n); compress2(o.data(),&n,c.data(),c.size(),T.choose(10)); b.assign(s.bytes.begin(),s.bytes.begin()+head); b.insert(b.end(),o.begin(),o.begin()+n); }
    else b=gzipFrame(c);
    disk::put(s.path,b); count(F_TRUNC); evt("content cut to %zu of %zu bytes",cut,inner.size()); return true;
}
static void runC10(){
    beginRun(); Sample s=makeSample(drawReadable(),T.chance(1,8)?1500:60); Truth t=truth(s); if(!t.ok) return;
    int rounds=1+T.choose(4);
    for(int k=0;k<rounds;k++){
        disk::put(s.path,s.bytes); bool hdr=T.choose(3)==2,verbose=T.choose(4)!=3; if(hdr&&!t.hok) continue;
        FaultPlan f; size_t cut; Sample plain=s; int kind; Bytes inner;
        if((s.gz||s.fmt==PRT)&&T.chance(1,4)&&cutInside(s,inner,cut)){ kind=X_INNER; plain.gz=false; plain.bytes=inner; if(T.choose(3)==2) f=slowIO(true,false); }
        else kind=readFault(s,hdr?t.hreads:t.reads,f,cut);
        disk::plan(f); patterns();
        note(strf("%s%s%s, %s at %zu: ",s.path.c_str(),s.foreign?" (foreign)":"",hdr?" headers":"",XNAME[kind],cut)+describe(s.want));
        std::string what=F(s.fmt)+(hdr?" headers":"")+", "+XNAME[kind], tag=(hdr?"headers-":"")+F(s.fmt);
        bool fired=true; std::string d; bool isNull; std::string err;
        uint64_t e0=SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL];
        if(hdr){
            HdrRes h=doHeaders(s.path,"headers "+F(s.fmt)+" ("+XNAME[kind]+")",verbose);
            if(h.oc!=DONE) violation("exception:"+tag,h.oc==NOMEM?"out of memory: "+what:"exception: "+lastExc);
            isNull=!h.p; err=h.err; if(h.p){ Model g=extractHeaders(*h.p); d=compare(t.hdr,g,CMP_HEADERS); if(s.fmt==PTS&&!plain.gz&&kind!=X_EIO&&kind!=X_OPEN&&g.n==0) d=""; doRelease(h.p); }
        }else{
            ReadRes r=doRead(s.path,"read "+F(s.fmt)+" ("+XNAME[kind]+")",verbose);
            if(r.oc!=DONE) violation("exception:"+tag,r.oc==NOMEM?"out of memory: "+what:"exception: "+lastExc);
            isNull=!r.p; err=r.err;
            if(r.p){ Model g=extract(*r.p); d=compare(t.full,g,0); if(!d.empty()&&(kind==X_TRUNC||kind==X_EOF||kind==X_INNER)&&textPrefix(plain,t.full,g,kind==X_EOF?plain.bytes.size():cut)){ d=""; count(C_PARTIAL_OK); } doRelease(r.p); }
        }
        noHandles(("failing read of "+F(s.fmt)).c_str());
        if(kind==X_EIO||kind==X_EOF||kind==X_OPEN) fired=SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]>e0;
        if(isNull){
            if(!fired) violation("null-without-fault:"+tag,"nothing returned though no fault was met: "+err);
            if(verbose&&err.empty()) violation("silent:"+tag,"nothing returned and nothing said on the error stream: "+what);
        }else{
            if(!d.empty()) violation("invented:"+tag,what+strf(" (%zu of %zu bytes): ",cut,s.bytes.size())+d);
            count(C_EXACT_RESULT);
        }
        if(kind==X_OPEN||kind==X_MISSING) if(!isNull) violation("invented:"+tag,"a set was returned for a file that cannot be opened");
    }
    // once the fault is gone the good file reads as ever
    disk::put(s.path,s.bytes); disk::heal(); patterns();
    ReadRes r=doRead(s.path,"read "+F(s.fmt)+" (afterwards)");
    if(r.oc!=DONE||!r.p) violation("later:"+F(s.fmt),"a good file is not read after failed reads: "+r.err);
    std::string d=compare(t.full,extract(*r.p),0); if(!d.empty()) violation("later:"+F(s.fmt),d);
    doRelease(r.p);
}

// --------------------------------------------------------- C11 damaged bytes
void mutate(Bytes& b){
    int k=1+T.choose(T.choose(3)==2?8:2);
    for(int i=0;i<k&&!b.empty();i++){
        size_t n=b.size(),p=drawCut(n);
        switch(T.pick({4,4,4,2,2,2,1,2})){
            case 0: b[p]^=1u<<T.choose(8); count(F_BITFLIP); evt("bit flip @%zu",p); break;
            case 1: b[p]=(unsigned char)T.choose(256); count(F_OVERWRITE); evt("byte @%zu = %u",p,b[p]); break;
            case 2:{ static const uint32_t v[]={0,1,0xffffffff,0x7fffffff,0x80000000,0x10000,0x00010000,0xffff,0x1000000,100000,16,0x40000000,0x7f800000,0x20000000};
                uint32_t x=v[T.choose(14)]; bool be=T.choose(2); int w=T.choose(3)==0?2:4; for(int q=0;q<w;q++) if(p+q<n) b[p+q]=(unsigned char)(x>>(be?8*(w-1-q):8*q)); count(F_OVERWRITE); evt("value %x width %d @%zu",x,w,p); break; }
            case 3:{ size_t l=std::min<size_t>(n-p,1+T.choose(64)); memset(&b[p],T.choose(4)==3?0xff:0,l); count(F_ZEROBLOCK); evt("zeroed %zu @%zu",l,p); break; }
            case 4:{ size_t l=std::min<size_t>(n-p,1+T.choose(T.choose(2)?8:512)); b.erase(b.begin()+p,b.begin()+p+l); count(F_LOSTBLOCK); evt("lost %zu @%zu",l,p); break; }
            case 5:{ size_t l=std::min<size_t>(n-p,1+T.choose(T.choose(2)?8:512)); Bytes c(b.begin()+p,b.begin()+p+l); b.insert(b.begin()+p,c.begin(),c.end()); count(F_DUPBLOCK); evt("duplicated %zu @%zu",l,p); break; }
            case 6:{ size_t q=drawCut(n),l=std::min(n-std::max(p,q),(size_t)1+T.choose(64)); for(size_t z=0;z<l;z++) std::swap(b[p+z],b[q+z]); count(F_SWAPBLOCK); evt("swapped %zu @%zu @%zu",l,p,q); break; }
            default:{ // printable damage, for text
                static const char* w[]={"-1","99999999999","1e999","nan","\"","(",")","\n","\0\0","x"," ","INDEX","0","-","4294967295"}; const char* x=w[T.choose(15)]; for(size_t z=0;x[z]&&p+z<n;z++) b[p+z]=x[z]; count(F_OVERWRITE); evt("text @%zu",p); }
        }
    }
}
static void exercise(ParticlesDataMutable* p,const std::string& f){
    Outcome o=api("query damaged "+f,[&]{
        int n=p->numParticles(); volatile float sink=0;
        if(n<0) violation("negative-count:"+f,"a set with a negative particle count");
        for(int a=0;a<p->numAttributes();a++){
            ParticleAttribute at; if(!p->attributeInfo(a,at)) violation("attribute:"+f,"attribute index not found");
            if(at.count<0||at.type<VECTOR||at.type>INDEXEDSTR) violation("attribute:"+f,strf("attribute with type %d and count %d",at.type,at.count));
            ParticleAttribute byName; p->attributeInfo(at.name.c_str(),byName);
            int step=std::max(1,n/50);
            for(int i=0;i<n;i+=step){ const int* v=p->data<int>(at,i); for(int k=0;k<at.count;k++) sink=sink+(float)v[k]; }
            if(n&&at.count){ const int* v=p->data<int>(at,n-1); sink=sink+(float)v[at.count-1]; }
            if(at.type==INDEXEDSTR){ const std::vector<std::string>& s=p->indexedStrs(at); for(auto& x:s) sink=sink+p->lookupIndexedStr(at,x.c_str()); }
            if(n&&at.count>0&&at.count<64){ ParticleIndex ix[2]={0,(ParticleIndex)n-1}; std::vector<float> out(2*at.count); p->dataAsFloat(at,2,ix,false,out.data()); }
        }
        for(int a=0;a<p->numFixedAttributes();a++){
            FixedAttribute at; p->fixedAttributeInfo(a,at); const int* v=p->fixedData<int>(at); for(int k=0;k<at.count;k++) sink=sink+(float)v[k];
            if(at.type==INDEXEDSTR) for(auto& x:p->fixedIndexedStrs(at)) sink=sink+p->lookupFixedIndexedStr(at,x.c_str());
        }
        if(n<20000){ int c=0; const ParticlesData& q=*p; for(ParticlesData::const_iterator it=q.begin(),e=q.end();it!=e;++it) c++; if(c!=n) violation("iterate:"+f,strf("iteration visits %d of %d particles",c,n)); }
    });
    if(o==OTHEREXC) violation("exception:"+f,"exception from querying a damaged set: "+lastExc);
    ParticlesDataMutable* c=nullptr;
    if(p->numParticles()>=50000) return; // what follows takes time in proportion to the particles, of which a damaged header can name any number
    o=api("clone damaged "+f,[&]{ c=clone(*p,true); });
    if(o==OTHEREXC) violation("exception:"+f,"exception from cloning a damaged set: "+lastExc);
    if(c&&o==DONE){ if(p->numParticles()<20000){ std::string d=compare(extract(*p),extract(*c),0); if(!d.empty()) violation("clone:"+f,d); } doRelease(c); count(C_CLONE); }
    if(p->numParticles()<2000) api("print damaged "+f,[&]{ print(p); });
    ParticleAttribute pos; 
    if(p->numParticles()<5000&&p->attributeInfo("position",pos)&&pos.count==3&&pos.type==VECTOR){
        api("sort damaged "+f,[&]{ p->sort(); });
        float c[3]={0,0,0},b0[3]={-1e3f,-1e3f,-1e3f},b1[3]={1e3f,1e3f,1e3f};
        api("find damaged "+f,[&]{ std::vector<ParticleIndex> pts; std::vector<float> ds; p->findPoints(b0,b1,pts); p->findNPoints(c,5,100.f,pts,ds); });
    }
}
static void runC11(){
    beginRun(); mem::cap=(size_t)16<<20; mem::totalCap=(size_t)40<<20;
    int fmt=drawReadable(); Sample s=makeSample(fmt,T.chance(1,6)?300:12,false);
    bool gz=fmtGz(fmt)&&T.choose(4)==3; int rounds=1+T.choose(5);
    for(int k=0;k<rounds;k++){
        Bytes b=s.bytes; bool inside=gz&&T.choose(2);
        if(!gz||inside) mutate(b);
        if(gz){ b=gzipFrame(b); if(!inside) mutate(b); }
        disk::put(s.path,b); disk::heal(); patterns();
        if(T.choose(5)==4) disk::plan(slowIO(true,false));
        std::string f=F(fmt); note(strf("%s %zu damaged bytes%s: ",s.path.c_str(),b.size(),gz?" gz":"")+describe(s.want)); evtHash("damaged",hashBytes(b.data(),b.size()));
        if(T.choose(3)==2){
            HdrRes h=doHeaders(s.path,"headers damaged "+f);
            if(h.oc==OTHEREXC) violation("exception:"+f,"exception: "+lastExc);
            if(h.p){ Model m=extractHeaders(*h.p); if(m.n<0) violation("negative-count:"+f,strf("%d particles",m.n)); doRelease(h.p); }
        }else{
            ReadRes r=doRead(s.path,"read damaged "+f);
            if(r.oc==OTHEREXC) violation("exception:"+f,"exception: "+lastExc);
            if(r.p){ count(C_PARTIAL_OK); exercise(r.p,f); doRelease(r.p); }
        }
        if(disk::openHandles()) violation("handles:"+f,"a file handle stays open after reading a damaged file");
    }
}

// -------------------------------------------------------- C12 failing writes
static void runC12(){
    beginRun(); int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); count(C_FMT0+fmt); std::string f=F(fmt);
    Model m=genModel(fmt,T.chance(1,6)?1500:60); bool gz=drawGz(fmt),force=gz&&T.choose(2); std::string path=pathFor(fmt,gz&&!(force&&T.choose(2)),"/sim/out"); if(gz) count(C_GZ);
    note(f+(gz?".gz ":" ")+(force?"forced ":"")+describe(m));
    ParticlesDataMutable* p=make(m); Model before=extract(*p);
    disk::heal(); doWrite(path,*p,force,"write "+f+" (healthy)"); Bytes good=disk::get(path); long writes=disk::stats().writes;
    Model full; bool ok=false;
    if(fmt!=RIB){ ReadRes r=doRead(path,"read "+f+" (healthy)"); if(r.oc==DONE&&r.p){ full=extract(*r.p); ok=true; doRelease(r.p); } }
    disk::put("/sim/other.bgeo",Bytes(50,'o')); disk::put("/sim/out",Bytes(3,'x'));
    { static const char* near[]={".tmp","~",".bak",".part",".gz","1",".swp",".lock"}; for(int i=T.choose(4);i>0;i--) disk::put(path+near[T.choose(8)],Bytes(40,'n')); }
    auto leftover=[&](const char* when){
        if(!disk::exists(path)||!ok) return; Bytes b=disk::get(path); if(b==good) return;
        disk::heal(); ReadRes r=doRead(path,"read "+f+" (left over)");
        if(r.oc!=DONE) violation("leftover-exception:"+f,"exception from reading what a failed write left");
        if(r.p){ Model g=extract(*r.p); std::string d=compare(full,g,0); Sample s; s.fmt=fmt; s.gz=gz; s.bytes=good;
            if(!d.empty()&&!textPrefix(s,full,g,b.size())) violation("leftover:"+f,strf("%s the file (%zu of %zu bytes) reads as a set, but not the one written: ",when,b.size(),good.size())+d); doRelease(r.p); }
        noHandles("reading a leftover file");
    };
    int rounds=1+T.choose(3);
    for(int k=0;k<rounds;k++){
        if(T.choose(2)) disk::remove(path); else disk::put(path,T.choose(2)?good:Bytes(T.choose(2000),'p')); // nothing there, or an older file
        auto others=disk::snapshot(); others.erase(path);
        FaultPlan w; bool verbose=T.choose(4)!=3; int kind=T.pick({3,2,1,1,4}); const char* nm="";
        if(T.choose(4)==3){ FaultPlan q=slowIO(false,true); w.shortWrite=q.shortWrite; w.eintrWrite=q.eintrWrite; }
        switch(kind){
            case 0: nm="disk full"; w.capacity=T.choose(3)?drawCut(good.size()):good.size()-std::min<size_t>(good.size(),1+T.choose(3)); break;
            case 1: nm="write error"; w.eioWriteAt=T.choose((uint32_t)writes+1); w.eioWriteSticky=T.choose(3)!=2; break;
            case 2:{ nm="open failure"; static const int e[]={13,2,30,28,24}; w.openFailAt=0; w.openErrno=e[T.choose(5)]; w.openFailSticky=true; break; }
            case 3: nm="close failure"; w.closeFailAt=0; break;
            default: nm="process death"; w.crashAfter=drawCut(good.size()+1); break;
        }
        disk::plan(w); patterns(); evt("fault %s cap=%lld eio@%ld crash@%lld",nm,w.capacity,w.eioWriteAt,w.crashAfter);
        std::string err=doWrite(path,*p,force,"write "+f+" ("+nm+")",verbose);
        if(disk::openHandles()) violation("handles:"+f,strf("a file handle stays open after a write (%s)",nm));
        std::string d=compare(before,extract(*p),0); if(!d.empty()) violation("source-changed:"+f,strf("a failing write (%s) changed the set: ",nm)+d);
        bool died=disk::crashed(); auto now=disk::snapshot(); auto img=disk::crashImage(); bool closeFailed=kind==3&&SH->counters[F_CLOSE_FAIL]>0;
        for(auto& x:others) if(!now.count(x.first)||now[x.first]!=x.second) violation("other-file:"+f,"a failing write changed another file: "+x.first);
        for(auto& x:now) if(x.first!=path&&!others.count(x.first)) violation("other-file:"+f,"a failing write left another file behind: "+x.first);
        if(died){ // the process is gone; the next one finds the image
            for(auto& x:others) if(!img.count(x.first)||img[x.first]!=x.second) violation("other-file:"+f,"a dying write changed another file: "+x.first);
            disk::heal(); for(auto& x:now) if(!img.count(x.first)) disk::remove(x.first); for(auto& x:img) disk::put(x.first,x.second);
            leftover("after the process died");
        }else{
            bool whole=disk::exists(path)&&disk::get(path)==good;
            if(verbose&&err.empty()&&(!whole||closeFailed)) violation("silent:"+f,strf("the write failed (%s) but nothing was said on the error stream",nm));
            if(kind!=2||disk::writtenPaths().count(path)) leftover("after a failed write");
        }
    }
    disk::heal(); patterns(); std::string err=doWrite(path,*p,force,"write "+f+" (afterwards)");
    if(disk::get(path)!=good) violation("later:"+f,"a later write to a healthy device does not produce the file: "+err);
    doRelease(p);
}

// --------------------------------------------------------------- C13 locales
struct Punct:std::numpunct<char>{ char dp,ts; std::string gr; Punct(char d,char t,const char* g):dp(d),ts(t),gr(g){} char do_decimal_point() const override{return dp;} char do_thousands_sep() const override{return ts;} std::string do_grouping() const override{return gr;} std::string do_truename() const override{return "wahr";} std::string do_falsename() const override{return "falsch";} };
struct CtypeOdd:std::ctype<char>{ // white space other than the classic one
    static const mask* table(){ static mask t[table_size]; std::copy(classic_table(),classic_table()+table_size,t); t[(unsigned char)'_']|=space; t[(unsigned char)'\xa0']|=space; return t; }
    CtypeOdd():std::ctype<char>(table()){} };
static void setLocale(int k){
    static const char dp[]={'.',',',';','\'',','}; static const char ts[]={',','.',' ','\'','_'}; static const char* gr[]={"","\3","\1","\3\2","\2"};
    if(k==0){ std::locale::global(std::locale::classic()); return; }
    int a=T.choose(5),b=T.choose(5),c=T.choose(5); std::locale l(std::locale::classic(),new Punct(dp[a],ts[b],gr[c])); if(T.chance(1,6)) l=std::locale(l,new CtypeOdd);
    std::locale::global(l); count(F_LOCALE); evt("locale '%c' '%c' grouping %d",dp[a],ts[b],c);
}
static void runC13(){
    beginRun();
    if(T.choose(2)==0){
        int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); std::string f=F(fmt); count(C_FMT0+fmt);
        Model m=genModel(fmt,T.chance(1,5)?1500:60); if(fmtText(fmt)&&m.n>200) m=genModel(fmt,100); ParticlesDataMutable* p=make(m); bool gz=drawGz(fmt);
        note("write "+f+" "+describe(m)); disk::heal(); std::string path=pathFor(fmt,gz); setLocale(0); doWrite(path,*p,false,"write "+f); Bytes good=disk::get(path);
        for(int k=1+T.choose(3);k>0;k--){
            setLocale(T.choose(5)!=4); doWrite(path,*p,false,"write "+f+" (locale)");
            if(disk::get(path)!=good) violation("bytes:"+f,"the bytes written depend on the locale");
        }
        setLocale(0); doRelease(p); return;
    }
    Sample s=makeSample(drawReadable(),T.chance(1,5)?1500:60); std::string f=F(s.fmt); setLocale(0); Truth t=truth(s);
    for(int k=1+T.choose(3);k>0;k--){
        setLocale(T.choose(5)!=4); disk::heal();
        ReadRes r=doRead(s.path,"read "+f+" (locale)"); if(r.oc!=DONE) violation("exception:"+f,"exception in another locale");
        if((r.p!=nullptr)!=t.ok) violation("null:"+f,"whether the file can be read depends on the locale: "+r.err);
        if(r.p){ std::string d=compare(t.full,extract(*r.p),0); if(!d.empty()) violation("content:"+f,"reading depends on the locale: "+d); doRelease(r.p); }
        HdrRes h=doHeaders(s.path,"headers "+f+" (locale)"); if(h.oc!=DONE) violation("exception:"+f,"exception in another locale");
        if((h.p!=nullptr)!=t.hok) violation("null:"+f,"whether the headers can be read depends on the locale: "+h.err);
        if(h.p){ std::string d=compare(t.hdr,extractHeaders(*h.p),CMP_HEADERS); if(!d.empty()) violation("headers:"+f,"headers depend on the locale: "+d); doRelease(h.p); }
    }
    setLocale(0);
}

// -------------------------------------------------------- C14 reproducibility
static void history(){ // something else happens first
    static int serial=0; count(F_HISTORY);
    Sample s=makeSample(drawReadable(),40); std::string keep=SH->note; (void)keep; serial++;
    auto healthyPaths=s.path; FaultPlan f; size_t cut; disk::heal();
    switch(T.choose(5)){
        case 0: { ReadRes r=doRead(s.path,"history read"); if(r.p) doRelease(r.p); break; }
        case 1: { readFault(s,4,f,cut); disk::plan(f); ReadRes r=doRead(s.path,"history failing read"); if(r.p) doRelease(r.p); break; }
        case 2: { HdrRes r=doHeaders(s.path,"history headers"); if(r.p) doRelease(r.p); break; }
        case 3: { int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); Model m=genModel(fmt,30); ParticlesDataMutable* p=make(m); f.capacity=T.choose(200); disk::plan(f); doWrite("/sim/hist."+F(fmt),*p,T.choose(2)&&fmtGz(fmt),"history failing write"); doRelease(p); break; }
        default: { ReadRes r; api("history read of nothing",[&]{ std::ostringstream e; r.p=Partio::read("/sim/none.bgeo",true,e); Partio::read("noext",true,e); Partio::read("/sim/x.unknown",true,e); }); if(r.p) doRelease(r.p); }
    }
    disk::heal();
}
static void runC14(){
    beginRun();
    if(T.choose(2)==0){
        int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); std::string f=F(fmt); count(C_FMT0+fmt); bool gz=drawGz(fmt);
        Model m=genModel(fmt,T.chance(1,8)?1500:60); ParticlesDataMutable* p=make(m); std::string path=pathFor(fmt,gz,"/sim/w"),n0="write "+f+" "+describe(m);
        disk::heal(); doWrite(path,*p,false,"write "+f); Bytes good=disk::get(path);
        for(int k=1+T.choose(3);k>0;k--){
            while(T.choose(3)==2) history();
            if(T.choose(2)){ doRelease(p); p=makeAs(m,T.choose(2),T.choose(8)); }
            patterns(); disk::plan(slowIO(false,true)); std::string q=T.choose(2)?path:pathFor(fmt,gz,"/sim/again"); doWrite(q,*p,false,"write "+f+" (again)");
            if(disk::get(q)!=good){ const Bytes& b=disk::get(q); size_t i=0; while(i<b.size()&&i<good.size()&&b[i]==good[i]) i++; violation("bytes:"+f,strf("writing the same set again gives other bytes: sizes %zu and %zu, first difference at %zu",good.size(),b.size(),i)); }
        }
        note(n0); doRelease(p); return;
    }
    Sample s=makeSample(drawReadable(),T.chance(1,8)?1500:60); std::string f=F(s.fmt),n0=SH->note; if(T.choose(4)==3){ Bytes b=s.bytes; b.resize(drawCut(b.size()+1)); s.bytes=b; }
    s.path=pathFor(s.fmt,s.gz,"/sim/r"); disk::put(s.path,s.bytes); Truth t=truth(s); ReadRes r0=doRead(s.path,"read "+f); if(r0.p) doRelease(r0.p);
    for(int k=1+T.choose(3);k>0;k--){
        while(T.choose(3)==2) history();
        patterns(); disk::plan(slowIO(true,false)); ReadRes r=doRead(s.path,"read "+f+" (again)");
        if((r.p!=nullptr)!=t.ok) violation("null:"+f,"the same file is read once and not another time: "+r.err);
        if(r.p){ std::string d=compare(t.full,extract(*r.p),0); if(!d.empty()) violation("content:"+f,"reading the same file again gives another set: "+d); doRelease(r.p); }
        if(r.err!=r0.err) violation("message:"+f,"reading the same file again says something else: "+r0.err+" / "+r.err);
        HdrRes h=doHeaders(s.path,"headers "+f+" (again)");
        if((h.p!=nullptr)!=t.hok) violation("null:"+f,"the headers of the same file are read once and not another time: "+h.err);
        if(h.p){ std::string d=compare(t.hdr,extractHeaders(*h.p),CMP_HEADERS); if(!d.empty()) violation("headers:"+f,d); doRelease(h.p); }
    }
    note(n0);
}

// ------------------------------------------------------------------ C17 leaks
static std::string leakScenario(){
    disk::reset(); patterns(); mem::cap=(size_t)32<<20; mem::totalCap=(size_t)64<<20;
    Sample s=makeSample(drawReadable(),40); std::string f=F(s.fmt),what;
    int kind=T.pick({2,4,4,3,2});
    FaultPlan pl; size_t cut;
    if(kind==0){ what="good"; }
    else if(kind==1){ int x=readFault(s,6,pl,cut); what=XNAME[x]; }
    else if(kind==2){ Bytes b=s.bytes; mutate(b); disk::put(s.path,b); what="damaged"; }
    else if(kind==3){ // a failing write
        int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); Model m; f=F(fmt);
        if(T.choose(3)==2){ // a set made for another format, or without a position: refused, or written in part
            int other; do other=T.choose(NFMT); while(!fmtWritable(other)); m=genModel(other,40); if(T.choose(2)) for(size_t i=0;i<m.attrs.size();i++) if(m.attrs[i].name=="position"){ m.attrs.erase(m.attrs.begin()+i); break; } f+="<"+F(other);
        }else m=genModel(fmt,40);
        ParticlesDataMutable* p=makeAs(m,T.choose(4)==3,0); 
        switch(T.choose(5)){ case 0: pl.capacity=T.choose(600); what="disk full"; break; case 1: pl.eioWriteAt=0; what="write error"; break; case 2: pl.openFailAt=0; pl.openFailSticky=true; what="cannot create"; break; case 3: pl.closeFailAt=0; what="close failure"; break; default: what="healthy write"; }
        disk::plan(pl); doWrite(T.chance(1,15)?"/sim/leak.unknown":pathFor(fmt,drawGz(fmt),"/sim/leak"),*p,false,"write "+f+" ("+what+")",T.choose(2)); disk::heal(); doRelease(p); return "write-"+f+", "+what;
    }else{ // a file of another kind under this name
        static const char* junk[]={"","hello world\n","\x1f\x8b","\x1f\x8b\x08\0\0\0\0\0\0\3","PGEOMETRY V5\n","Bgeo","PDC "}; static const int len[]={0,12,2,10,13,4,4}; int j=T.choose(7); if(T.chance(1,10)) s.path+=".unknown"; disk::put(s.path,Bytes(junk[j],junk[j]+len[j])); what="foreign"; }
    disk::plan(pl);
    if(T.choose(3)==2){ HdrRes h=doHeaders(s.path,"headers "+f+" ("+what+")",T.choose(2)); if(h.p) doRelease(h.p); f="headers-"+f; }
    else { ReadRes r=doRead(s.path,"read "+f+" ("+what+")",T.choose(2));
        if(r.p){ if(T.choose(3)==2){ ParticlesDataMutable* c=nullptr; api("clone",[&]{ c=clone(*r.p,T.choose(2)); }); if(c) doRelease(c); }
            ParticleAttribute pos; if(T.choose(3)==2&&r.p->numParticles()<5000&&r.p->attributeInfo("position",pos)&&pos.type==VECTOR&&pos.count==3) api("sort",[&]{ r.p->sort(); });
            doRelease(r.p); } }
    disk::heal(); return f+", "+what;
}
static void runC17(){
    beginRun(); uint32_t p0=T.pos; mem::forget();
    leakScenario(); uint32_t p1=T.pos; // the first time round also builds what lives as long as the process
    disk::reset(); long n0=mem::liveCount(); long long b0=mem::liveBytes(); int h0=disk::openHandles();
    T.pos=p0; std::string w=leakScenario(); T.pos=std::max(p1,T.pos);
    note(w+": "+SH->note);
    int h1=disk::openHandles(); std::string cls=w; for(char& c:cls) if(c==' '||c==',') c='-';
    if(h1>h0) violation("handles:"+cls,strf("%d file handles stay open (%s)",h1-h0,w.c_str()));
    disk::reset();
    if(mem::liveCount()>n0||mem::liveBytes()>b0) violation("leak:"+cls,strf("%ld blocks, %lld bytes are not given back (%s); live: ",mem::liveCount()-n0,mem::liveBytes()-b0,w.c_str())+mem::describeLive());
}

// ------------------------------------------------------- C21 running out of memory
// An error stream that needs no memory, so that nothing can keep a failure from being said.
struct FixedBuf:std::streambuf{ char b[1<<16]; FixedBuf(){ setp(b,b+sizeof b); } std::string text(){ return std::string(pbase(),pptr()); } int overflow(int c) override { setp(b,b+sizeof b); return c==EOF?0:sputc((char)c); } };
struct Mem21 { Outcome oc; bool hit; std::string err; long n0; long long b0; std::string live; };
template<class F> static Mem21 starved(const std::string& phase,long at,bool sticky,F f){
    FixedBuf fb; std::ostream os(&fb);
    Mem21 r; r.n0=mem::liveCount(); r.b0=mem::liveBytes();
    mem::arm(at,sticky); r.oc=api(phase,[&]{ f(os); }); r.hit=mem::injected; mem::arm(-1,false);
    r.err=fb.text(); evt("%s -> %s err=%zu live+%ld",phase.c_str(),r.oc==DONE?"done":r.oc==NOMEM?"bad_alloc":"exception",r.err.size(),mem::liveCount()-r.n0);
    return r;
}
static void runC21(){
    beginRun(); bool writing=T.choose(5)>=3;
    auto check=[&](const Mem21& m,const std::string& f,bool result){
        if(m.oc==OTHEREXC) violation("exception:"+f,"running out of memory raises another exception: "+lastExc);
        if(m.oc==NOMEM&&result) violation("both:"+f,"a result and an exception");
        if(disk::openHandles()) violation("handles:"+f,"a file handle stays open after running out of memory");
    };
    auto gone=[&](const Mem21& m,const std::string& f){
        if(mem::liveCount()>m.n0) violation("leak:"+f,strf("%ld blocks, %lld bytes stay after running out of memory; live: ",mem::liveCount()-m.n0,mem::liveBytes()-m.b0)+mem::describeLive());
    };
    if(writing){
        int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); count(C_FMT0+fmt); std::string f=F(fmt);
        Model m=genModel(fmt,T.chance(1,8)?1500:60); bool gz=drawGz(fmt); std::string path=pathFor(fmt,gz,"/sim/out"); if(gz) count(C_GZ);
        note("write "+f+(gz?".gz ":" ")+describe(m));
        ParticlesDataMutable* p=make(m); Model before=extract(*p);
        disk::heal(); doWrite(path,*p,false,"write "+f+" (healthy)"); Bytes good=disk::get(path);
        Model full; bool ok=false;
        if(fmt!=RIB){ ReadRes r=doRead(path,"read "+f+" (healthy)"); if(r.oc==DONE&&r.p){ full=extract(*r.p); ok=true; doRelease(r.p); } }
        long a0=mem::allocs; doWrite(path,*p,false,"write "+f+" (counted)"); long na=mem::allocs-a0;
        for(int k=1+T.choose(4);k>0;k--){
            if(T.choose(2)) disk::remove(path); else disk::put(path,T.choose(2)?good:Bytes(T.choose(2000),'p'));
            auto others=disk::snapshot(); others.erase(path); bool verbose=T.choose(4)!=3,sticky=T.choose(3)==2; long at=T.choose((uint32_t)na+1); patterns(); disk::heal();
            Mem21 r=starved("write "+f+" (memory)",at,sticky,[&](std::ostream& e){ Partio::write(path.c_str(),*p,false,verbose,e); });
            check(r,"write-"+f,false); gone(r,"write-"+f);
            std::string d=compare(before,extract(*p),0); if(!d.empty()) violation("source-changed:"+f,"a write that ran out of memory changed the set: "+d);
            auto now=disk::snapshot(); for(auto& x:others) if(!now.count(x.first)||now[x.first]!=x.second) violation("other-file:"+f,"another file changed: "+x.first);
            for(auto& x:now) if(x.first!=path&&!others.count(x.first)) violation("other-file:"+f,"another file was left behind: "+x.first);
            bool whole=disk::exists(path)&&disk::get(path)==good;
            if(r.oc==DONE&&verbose&&r.err.empty()&&!whole) violation("silent:write-"+f,"memory ran out, the file is not the one asked for, and nothing was said");
            if(!whole&&disk::exists(path)&&ok&&disk::writtenPaths().count(path)){
                ReadRes q=doRead(path,"read "+f+" (left over)"); if(q.oc!=DONE) violation("leftover-exception:"+f,"exception from reading what was left");
                if(q.p){ Sample s; s.fmt=fmt; s.gz=gz; s.bytes=good; Model g=extract(*q.p); std::string d=compare(full,g,0); if(!d.empty()&&!textPrefix(s,full,g,disk::get(path).size())) violation("leftover:"+f,"what a write that ran out of memory left reads as a set, but not the one written: "+d); doRelease(q.p); }
            }
        }
        disk::heal(); patterns(); std::string e=doWrite(path,*p,false,"write "+f+" (afterwards)"); if(disk::get(path)!=good) violation("later:"+f,"a later write does not produce the file: "+e);
        doRelease(p); return;
    }
    Sample s=makeSample(drawReadable(),T.chance(1,8)?1500:60); std::string f=F(s.fmt); Truth t=truth(s); if(!t.ok||!t.hok) return;
    std::string n0=SH->note; disk::heal();
    long a0=mem::allocs; { ReadRes r=doRead(s.path,"read "+f+" (counted)"); doRelease(r.p); } long na=mem::allocs-a0; a0=mem::allocs; { HdrRes h=doHeaders(s.path,"headers "+f+" (counted)"); doRelease(h.p); } long nh=mem::allocs-a0;
    for(int k=1+T.choose(4);k>0;k--){
        bool hdr=T.choose(3)==2,verbose=T.choose(4)!=3,sticky=T.choose(3)==2; long at=T.choose((uint32_t)(hdr?nh:na)+1); patterns(); disk::heal(); if(T.choose(4)==3) disk::plan(slowIO(true,false));
        if(hdr){
            ParticlesInfo* h=nullptr; Mem21 r=starved("headers "+f+" (memory)",at,sticky,[&](std::ostream& e){ h=Partio::readHeaders(s.path.c_str(),verbose,e); });
            check(r,"headers-"+f,h); if(h){ std::string d=compare(t.hdr,extractHeaders(*h),CMP_HEADERS); if(!d.empty()) violation("invented:headers-"+f,d); doRelease(h); count(C_EXACT_RESULT); }
            else if(r.oc==DONE){ if(!r.hit) violation("null-without-fault:headers-"+f,"nothing returned though memory did not run out: "+r.err); if(verbose&&r.err.empty()) violation("silent:headers-"+f,"memory ran out, nothing was returned and nothing said"); }
            gone(r,"headers-"+f);
        }else{
            ParticlesDataMutable* p=nullptr; Mem21 r=starved("read "+f+" (memory)",at,sticky,[&](std::ostream& e){ p=Partio::read(s.path.c_str(),verbose,e); });
            check(r,"read-"+f,p); if(p){ std::string d=compare(t.full,extract(*p),0); if(!d.empty()) violation("invented:read-"+f,d); doRelease(p); count(C_EXACT_RESULT); }
            else if(r.oc==DONE){ if(!r.hit) violation("null-without-fault:read-"+f,"nothing returned though memory did not run out: "+r.err); if(verbose&&r.err.empty()) violation("silent:read-"+f,"memory ran out, nothing was returned and nothing said"); }
            gone(r,"read-"+f);
        }
        if(disk::get(s.path)!=s.bytes) violation("file-changed:"+f,"reading changed the file");
    }
    disk::heal(); patterns(); ReadRes r=doRead(s.path,"read "+f+" (afterwards)");
    if(r.oc!=DONE||!r.p) violation("later:"+f,"a good file is not read after memory ran out: "+r.err);
    std::string d=compare(t.full,extract(*r.p),0); if(!d.empty()) violation("later:"+f,d); doRelease(r.p); SH->note[0]=0; note(n0);
}

// ------------------------------------- C25 what other programs find in a file
static void runC25(){
    beginRun(); int fmt; do fmt=T.choose(NFMT); while(!fmtWritable(fmt)); count(C_FMT0+fmt); std::string f=F(fmt);
    Model m=genModel(fmt,fmtText(fmt)?(T.chance(1,30)?1500:100):T.chance(1,30)?9000:300); bool gz=drawGz(fmt),force=gz&&T.choose(2); std::string path=pathFor(fmt,gz&&!(force&&T.choose(2)),"/sim/out"); if(gz) count(C_GZ);
    note("write "+f+(gz?".gz ":" ")+(force?"forced ":"")+describe(m)); evtHash("model",hashModel(m));
    ParticlesDataMutable* p=make(m);
    for(int k=T.choose(3);k>0;k--){ // what the path saw before: nothing, an older file, a failed or unfinished write
        if(T.choose(2)) disk::put(path,Bytes(T.choose(4000),'p')); else disk::remove(path);
        FaultPlan w; switch(T.choose(4)){ case 0: w.capacity=T.choose(2000); break; case 1: w.eioWriteAt=T.choose(6); w.eioWriteSticky=T.choose(2); break; case 2: w.openFailAt=0; w.openErrno=13; w.openFailSticky=true; break; default: break; }
        disk::plan(w); patterns(); evt("earlier write cap=%lld eio@%ld",w.capacity,w.eioWriteAt); doWrite(path,*p,force,"write "+f+" (earlier)",T.choose(2)); disk::heal();
    }
    disk::plan(slowIO(false,true)); patterns(); std::string err=doWrite(path,*p,force,"write "+f); noHandles(("write "+f).c_str()); doRelease(p);
    if(!disk::exists(path)) violation("no-file:"+f,"write created no file; error text: "+err);
    Bytes b=disk::get(path); count(C_BYTES,b.size());
    if(gz){ Bytes o; std::string e=gunzipStrict(b,o); if(!e.empty()) violation("gzip:"+f,"the compressed file is not valid gzip: "+e); b=o; }
    std::string d=cmpWritten(fmt,b,m); if(!d.empty()) violation("layout:"+f,"a reader of the format finds something else in the file: "+d);
}

void addIoProps(){
    Property p[]={{"C05",runC05},{"C06",runC06},{"C07",runC07},{"C08",runC08},{"C09",runC09},{"C10",runC10},{"C11",runC11},{"C12",runC12},{"C13",runC13},{"C14",runC14},{"C17",runC17},{"C21",runC21},{"C25",runC25}};
    for(auto& x:p) PROPERTIES.push_back(x);
}
