// Independent decoders of the formats Partio writes: what another program would
// find in the file. Strict: every length, count, magic and marker has to be right.
#include "model.h"
#include "common.h"
#include <cmath>
#include <zlib.h>
#include <algorithm>
using namespace Partio;

namespace {
struct Bad { std::string why; };
void need(bool ok,const std::string& why){ if(!ok) throw Bad{why}; }
struct In {
    const Bytes& b; size_t i=0; In(const Bytes& x,size_t at=0):b(x),i(at){}
    void has(size_t n,const char* what){ need(i+n<=b.size(),strf("the file ends in %s (%zu bytes)",what,b.size())); }
    unsigned u8(const char* w){ has(1,w); return b[i++]; }
    uint32_t be16(const char* w){ uint32_t a=u8(w); return a<<8|u8(w); } uint32_t be32(const char* w){ uint32_t a=be16(w); return a<<16|be16(w); } uint64_t be64(const char* w){ uint64_t a=be32(w); return a<<32|be32(w); }
    uint32_t le16(const char* w){ uint32_t a=u8(w); return a|u8(w)<<8; } uint32_t le32(const char* w){ uint32_t a=le16(w); return a|le16(w)<<16; } uint64_t le64(const char* w){ uint64_t a=le32(w); return a|(uint64_t)le32(w)<<32; }
    double led(const char* w){ uint64_t u=le64(w); double d; memcpy(&d,&u,8); return d; } double bed(const char* w){ uint64_t u=be64(w); double d; memcpy(&d,&u,8); return d; }
    float lef(const char* w){ return bitsf(le32(w)); }
    std::string str(size_t n,const char* w){ has(n,w); std::string s(b.begin()+i,b.begin()+i+n); i+=n; return s; }
    void zeros(size_t n,const char* w){ for(size_t k=0;k<n;k++) need(u8(w)==0,strf("%s is not zero",w)); }
    void end(){ need(i==b.size(),strf("%zu bytes follow the end",b.size()-i)); }
};
void value(uint32_t got,uint32_t want,const char* what){ need(got==want,strf("%s is %u instead of %u",what,got,want)); }

MAttr bgeoAttr(In& f,bool withName=true){
    MAttr a; (void)withName; uint32_t n=f.be16("an attribute name"); a.name=f.str(n,"an attribute name"); a.count=f.be16("an attribute size"); uint32_t t=f.be32("an attribute type");
    need(t==0||t==1||t==4||t==5,strf("attribute '%s' has type %u",a.name.c_str(),t)); a.type=t==0?FLOAT:t==1?INT:t==5?VECTOR:INDEXEDSTR;
    if(t==4){ uint32_t k=f.be32("a string table"); for(uint32_t q=0;q<k;q++){ uint32_t l=f.be16("a string table"); a.strs.push_back(f.str(l,"a string table")); } }
    else for(int k=0;k<a.count;k++) f.be32("attribute defaults");
    return a;
}
Model decBGEO(const Bytes& b){
    In f(b); Model m; need(f.str(5,"the magic")=="BgeoV","the magic is not BgeoV"); value(f.be32("the header"),5,"the version");
    m.n=f.be32("the header"); uint32_t prims=f.be32("the header"); value(f.be32("the header"),0,"the number of point groups"); value(f.be32("the header"),0,"the number of primitive groups");
    uint32_t np=f.be32("the header"); value(f.be32("the header"),0,"the number of vertex attributes"); value(f.be32("the header"),0,"the number of primitive attributes"); uint32_t nf=f.be32("the header"); value(prims,0,"the number of primitives");
    MAttr pos; pos.name="position"; pos.type=VECTOR; pos.count=3; m.attrs.push_back(pos);
    for(uint32_t k=0;k<np;k++) m.attrs.push_back(bgeoAttr(f));
    for(int i=0;i<m.n;i++) for(size_t j=0;j<m.attrs.size();j++){
        for(int k=0;k<m.attrs[j].count;k++) m.attrs[j].data.push_back(f.be32("the points"));
        if(j==0) value(f.be32("the points"),fbits(1.f),"the homogeneous coordinate");
    }
    for(uint32_t k=0;k<nf;k++) m.fixed.push_back(bgeoAttr(f));
    for(auto& a:m.fixed) for(int k=0;k<a.count;k++) a.data.push_back(f.be32("the detail attributes"));
    value(f.u8("the end"),0,"the byte before the end"); value(f.u8("the end"),0xff,"the last byte"); f.end(); return m;
}
Model decPDB(const Bytes& b,int bits){
    In f(b); Model m; auto ptr=[&]{ f.str(bits/8,"a pointer"); };
    value(f.le32("the header"),670,"the magic"); value(f.le16("the header"),1,"the swap mark"); f.le16("the header"); need(f.lef("the header")==1,"the version is not 1"); f.le32("the header");
    m.n=f.le32("the header"); uint32_t ch=f.le32("the header"); f.str(32,"the header"); ptr();
    for(uint32_t c=0;c<ch;c++){
        MAttr a; f.u8("a channel"); f.u8("a channel"); value(f.le16("a channel"),1,"the swap mark of a channel"); value(f.u8("a channel"),0,"the encoding of a channel"); f.u8("a channel");
        ptr(); uint32_t type=f.le32("a channel"); f.le32("a channel"); value(f.le32("a channel"),0,"the first particle of a channel"); value(f.le32("a channel"),(uint32_t)m.n-1,"the last particle of a channel"); f.u8("a channel"); f.u8("a channel"); f.str(bits==32?2:6,"a channel"); ptr(); ptr(); ptr();
        for(unsigned x;(x=f.u8("a channel name"));) a.name+=(char)x;
        value(f.le32("channel data"),type,"the type of channel data"); uint32_t size=f.le32("channel data"); value(f.le32("channel data"),m.n,"the number of values in a block"); value(f.le32("channel data"),1,"the number of blocks"); ptr();
        need(type>=1&&type<=3,strf("channel '%s' has type %u",a.name.c_str(),type)); a.type=type==1?VECTOR:type==2?FLOAT:INT; need(size%4==0,"a channel of uneven size"); a.count=size/4;
        for(size_t k=0;k<(size_t)m.n*a.count;k++) a.data.push_back(f.le32("channel values"));
        m.attrs.push_back(a);
    }
    f.end(); return m;
}
Model decBIN(const Bytes& b){
    In f(b); Model m; value(f.le32("the header"),0xFABADA,"the magic"); f.str(250,"the header"); value(f.le16("the header"),11,"the version"); f.str(4+4+4+4+4,"the header"); m.n=f.le32("the header"); f.str(4+9*4,"the header"); f.str(9*4,"the header");
    static const char* nm[]={"position","velocity","force","vorticity","normal","neighbors","uvw","age","isolationTime","viscosity","density","pressure","mass","temperature","id"};
    for(int i=0;i<15;i++){ MAttr a; a.name=nm[i]; a.type=i<5||i==6?VECTOR:i==5||i==14?INT:FLOAT; a.count=a.type==VECTOR?3:1; m.attrs.push_back(a); }
    for(int i=0;i<m.n;i++) for(int j=0;j<15;j++){ if(j==7) f.le16("the particles"); for(int k=0;k<m.attrs[j].count;k++) m.attrs[j].data.push_back(f.le32("the particles")); }
    f.zeros(6,"what follows the particles"); f.end(); return m;
}
Model decPRT(const Bytes& b){
    In f(b); Model m; static const unsigned char mg[8]={192,'P','R','T','\r','\n',26,'\n'}; need(f.str(8,"the header")==std::string((const char*)mg,8),"the magic is wrong");
    value(f.le32("the header"),56,"the size of the header"); need(!strcmp(f.str(32,"the header").c_str(),"Extensible Particle Format"),"the signature is wrong"); value(f.le32("the header"),1,"the version"); uint64_t n=f.le64("the header"); need(n<0x7fffffff,"too many particles"); m.n=(int)n;
    value(f.le32("the header"),4,"the reserved word"); uint32_t ch=f.le32("the header"); value(f.le32("the header"),44,"the size of a channel"); size_t off=0;
    for(uint32_t c=0;c<ch;c++){
        MAttr a; std::string raw=f.str(32,"a channel"); need(raw.find('\0')!=std::string::npos,"a channel name does not end"); a.name=raw.c_str(); uint32_t type=f.le32("a channel"); a.count=f.le32("a channel"); value(f.le32("a channel"),(uint32_t)off,"the offset of a channel");
        need(type==1||type==4,strf("channel '%s' has type %u",a.name.c_str(),type)); a.type=type==1?INT:a.count==3?VECTOR:FLOAT; off+=4*(size_t)a.count;
        need(a.name.empty()||!(a.name[0]>='a'&&a.name[0]<='z'),"the channel '"+a.name+"' does not begin with a capital"); if(!a.name.empty()&&a.name[0]>='A'&&a.name[0]<='Z') a.name[0]+=32;
        m.attrs.push_back(a);
    }
    Bytes body; z_stream z; memset(&z,0,sizeof z); inflateInit(&z); z.next_in=(Bytef*)b.data()+f.i; z.avail_in=b.size()-f.i; unsigned char buf[65536]; int r;
    do{ z.next_out=buf; z.avail_out=sizeof buf; r=inflate(&z,Z_NO_FLUSH); body.insert(body.end(),buf,buf+(sizeof buf-z.avail_out)); }while(r==Z_OK);
    size_t left=z.avail_in; inflateEnd(&z); need(r==Z_STREAM_END,"the compressed particles do not end properly"); need(left==0,strf("%zu bytes follow the compressed particles",left));
    need(body.size()==off*m.n,strf("%zu bytes of particles instead of %zu",body.size(),off*m.n));
    In g(body); for(int i=0;i<m.n;i++) for(auto& a:m.attrs) for(int k=0;k<a.count;k++) a.data.push_back(g.le32("the particles"));
    return m;
}
Model decPTC(const Bytes& b,const Model& src){
    In f(b); Model m; need(f.str(4,"the magic")=="pptc","the magic is not pptc"); value(f.le32("the header"),0,"the version"); double n=f.led("the header"); need(n>=0&&n<2147483647.0&&n==std::floor(n),"the number of points is no number of points"); m.n=(int)n;
    float box[6]; for(float& x:box) x=f.lef("the bounding box");
    if(const MAttr* p=src.find("position")) if(m.n==src.n&&m.n){ bool nan=false; float w[6]={INFINITY,INFINITY,INFINITY,-INFINITY,-INFINITY,-INFINITY};
        for(size_t i=0;i<p->data.size();i++){ float v=bitsf(p->data[i]); nan|=!std::isfinite(v); w[i%3]=std::min(w[i%3],v); w[3+i%3]=std::max(w[3+i%3],v); }
        if(!nan) for(int k=0;k<6;k++) need(box[k]==w[k],strf("the bounding box states %g instead of %g",box[k],w[k])); }
    f.str(4*32,"the matrices"); f.str(4*3,"the image size"); uint32_t nv=f.le32("the header"),ds=f.le32("the header"),sum=0;
    static const char* at[]={"position","normal","radius"}; for(int k=0;k<3;k++){ MAttr a; a.name=at[k]; a.type=k<2?VECTOR:FLOAT; a.count=k<2?3:1; m.attrs.push_back(a); }
    for(uint32_t k=0;k<nv;k++){ std::string s; for(char c;(c=(char)f.u8("the variables"))!='\n';) s+=c; size_t p=s.find(' '); need(p!=std::string::npos,"variable '"+s+"' has no name"); MAttr a; std::string t=s.substr(0,p); a.name=s.substr(p+1);
        need(t=="float"||t=="color"||t=="matrix"||t=="point"||t=="vector"||t=="normal","variable of type '"+t+"'"); a.type=t=="point"||t=="vector"||t=="normal"?VECTOR:FLOAT; a.count=t=="float"?1:t=="matrix"?16:3; sum+=a.count; m.attrs.push_back(a); }
    value(ds,sum,"the size of the data of a point");
    for(int i=0;i<m.n;i++){
        for(int k=0;k<3;k++) m.attrs[0].data.push_back(f.le32("the points"));
        uint32_t phi=f.le16("the points"),z=f.le16("the points"); double N[3]={0,0,0};
        if(phi!=65535||z!=65535){ double nz=2*(z/65535.0)-1,fp=2*M_PI*(phi/65535.0-0.5),r=std::sqrt(std::max(0.0,1-nz*nz)); N[0]=r*std::sin(fp); N[1]=r*std::cos(fp); N[2]=nz; }
        for(int k=0;k<3;k++) m.attrs[1].data.push_back(fbits((float)N[k]));
        m.attrs[2].data.push_back(f.le32("the points"));
        for(size_t j=3;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++) m.attrs[j].data.push_back(f.le32("the points"));
    }
    f.end(); return m;
}
Model decPDC(const Bytes& b){
    In f(b); Model m; need(f.str(4,"the magic")=="PDC ","the magic is not 'PDC '"); value(f.be32("the header"),1,"the version"); value(f.be32("the header"),1,"the byte order"); f.be64("the header"); m.n=f.be32("the header"); uint32_t na=f.be32("the header");
    for(uint32_t k=0;k<na;k++){ MAttr a; uint32_t l=f.be32("an attribute name"); a.name=f.str(l,"an attribute name"); uint32_t t=f.be32("an attribute type"); need(t==3||t==5,strf("attribute '%s' has type %u",a.name.c_str(),t)); a.type=t==5?VECTOR:FLOAT; a.count=t==5?3:1;
        for(size_t q=0;q<(size_t)m.n*a.count;q++){ double d=f.bed("the values"); need(std::isnan(d)||(double)(float)d==d,strf("attribute '%s' has the value %.17g",a.name.c_str(),d)); a.data.push_back(fbits((float)d)); }
        m.attrs.push_back(a); }
    f.end(); return m;
}
struct Text { // words of a text file
    std::string s; size_t i=0; Text(const Bytes& b):s(b.begin(),b.end()){}
    static bool sp(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
    void skip(){ while(i<s.size()&&sp(s[i])) i++; }
    bool done(){ skip(); return i>=s.size(); }
    std::string word(){ skip(); need(i<s.size(),"the file ends early"); size_t j=i; while(j<s.size()&&!sp(s[j])) j++; std::string w=s.substr(i,j-i); i=j; return w; }
    std::string quoted(){ skip(); need(i<s.size()&&s[i]=='"',"a string does not begin with a quote"); std::string r; for(i++;;i++){ need(i<s.size(),"a string does not end"); if(s[i]=='"') break; if(s[i]=='\\'){ i++; need(i<s.size(),"a string does not end"); } r+=s[i]; } i++; return r; }
    // numbers inside ( ) end at the bracket too
    std::string item(){ skip(); need(i<s.size(),"the file ends early"); size_t j=i; while(j<s.size()&&!sp(s[j])&&s[j]!=')'&&s[j]!='(') j++; need(j>i,strf("no number at byte %zu",i)); std::string w=s.substr(i,j-i); i=j; return w; }
    void mark(char c){ skip(); need(i<s.size()&&s[i]==c,strf("no '%c' at byte %zu",c,i)); i++; }
    void is(const char* w){ std::string g=word(); need(g==w,"'"+g+"' where '"+w+"' belongs"); }
    static long whole(const std::string& w){ char* e=nullptr; errno=0; long v=strtol(w.c_str(),&e,10); need(!w.empty()&&!*e&&v>=-2147483647L-1&&v<=4294967295L,"'"+w+"' is not a whole number"); return v; }
    static uint32_t real(const std::string& w){ char* e=nullptr; float v=strtof(w.c_str(),&e); need(!w.empty()&&!*e,"'"+w+"' is not a number"); return fbits(v); }
};
Model decGEO(const Bytes& b){
    Text f(b); Model m; f.is("PGEOMETRY"); f.is("V5"); f.is("NPoints"); m.n=Text::whole(f.word()); f.is("NPrims"); f.is("1"); f.is("NPointGroups"); f.is("0"); f.is("NPrimGroups"); f.is("0");
    f.is("NPointAttrib"); long np=Text::whole(f.word()); f.is("NVertexAttrib"); f.is("0"); f.is("NPrimAttrib"); f.is("1"); f.is("NAttrib"); f.is("0");
    MAttr pos; pos.name="position"; pos.type=VECTOR; pos.count=3; m.attrs.push_back(pos); if(np) f.is("PointAttrib");
    for(long k=0;k<np;k++){ MAttr a; a.name=f.word(); a.count=Text::whole(f.word()); std::string t=f.word(); need(t=="float"||t=="int"||t=="vector"||t=="index","attribute '"+a.name+"' has type '"+t+"'"); a.type=t=="float"?FLOAT:t=="int"?INT:t=="vector"?VECTOR:INDEXEDSTR;
        if(t=="index"){ long q=Text::whole(f.word()); while(q-->0) a.strs.push_back(f.quoted()); } else for(int q=0;q<a.count;q++) Text::real(f.word());
        m.attrs.push_back(a); }
    for(int i=0;i<m.n;i++){
        for(int k=0;k<3;k++) m.attrs[0].data.push_back(Text::real(f.item())); { std::string w=f.item(); need(w=="1","the homogeneous coordinate is "+w); }
        if(np){ f.mark('('); for(size_t j=1;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++){ std::string w=f.item(); m.attrs[j].data.push_back(m.attrs[j].type==INT||m.attrs[j].type==INDEXEDSTR?(uint32_t)Text::whole(w):Text::real(w)); } f.mark(')'); }
    }
    f.is("PrimitiveAttrib"); f.is("generator"); f.is("1"); f.is("index"); f.is("1"); f.is("papi"); f.is("Part"); need(Text::whole(f.word())==m.n,"the particle primitive has another number of points"); for(int i=0;i<m.n;i++) need(Text::whole(f.word())==i,"the particle primitive lists other points"); f.is("[0]"); f.is("beginExtra"); f.is("endExtra"); need(f.done(),"something follows the end"); return m;
}
Model decPDA(const Bytes& b){
    Text f(b); Model m; f.is("ATTRIBUTES"); for(;;){ std::string w=f.word(); if(w=="TYPES") break; MAttr a; a.name=w; m.attrs.push_back(a); }
    for(auto& a:m.attrs){ std::string w=f.word(); need(w=="V"||w=="R"||w=="I","type '"+w+"'"); a.type=w=="V"?VECTOR:w=="R"?FLOAT:INT; a.count=w=="V"?3:1; }
    f.is("NUMBER_OF_PARTICLES:"); m.n=Text::whole(f.word()); f.is("BEGIN"); f.is("DATA"); need(f.i<f.s.size()&&f.s[f.i]=='\n',"BEGIN DATA does not end its line"); f.i++;
    for(int i=0;i<m.n;i++){ // a line for each particle
        size_t e=f.s.find('\n',f.i); need(e!=std::string::npos,strf("the line of particle %d does not end",i)); std::string line=f.s.substr(f.i,e-f.i); f.i=e+1; Bytes lb(line.begin(),line.end()); Text l(lb);
        for(auto& a:m.attrs) for(int k=0;k<a.count;k++){ std::string w=l.word(); a.data.push_back(a.type==INT?(uint32_t)Text::whole(w):Text::real(w)); }
        need(l.done(),strf("the line of particle %d has more values",i));
    }
    need(f.done(),"something follows the particles"); return m;
}
}
// what is wrong with a (decompressed) file written from m; empty if nothing is
std::string cmpWritten(int fmt,const Bytes& b,const Model& m){
    if(fmt==RIB) return cmpRib(b,m);
    try{
        Model g;
        switch(fmt){
            case BGEO: case BHCLASSIC: case ITBL: case ATBL: g=decBGEO(b); break;
            case PDB_: case PDB32: g=decPDB(b,32); break; case PDB64: g=decPDB(b,64); break;
            case BIN: g=decBIN(b); break; case PRT: g=decPRT(b); break; case PTC: case PTF: g=decPTC(b,m); break; case PDC: g=decPDC(b); break;
            case GEO: case HCLASSIC: g=decGEO(b); break; case PDA: g=decPDA(b); break; default: return "";
        }
        bool text=fmtText(fmt); return compare(expectRoundTrip(fmt,m),distinctStrs(g),(text?CMP_TEXT:0)|((fmt==PTC||fmt==PTF)?CMP_PTCNORMAL:0));
    }catch(Bad& e){ return e.why; }
}
