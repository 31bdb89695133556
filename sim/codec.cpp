// Independent encoders of the file formats: they produce conformant files as
// other programs would, together with the set a reader must return.
#include "model.h"
#include <cmath>
#include <zlib.h>
#include <algorithm>
using namespace Partio;

struct Out {
    Bytes b;
    void raw(const void* p,size_t n){const unsigned char* c=(const unsigned char*)p;b.insert(b.end(),c,c+n);}
    void s(const std::string& x){raw(x.data(),x.size());}
    void u8(unsigned v){b.push_back((unsigned char)v);}
    void le16(uint32_t v){u8(v);u8(v>>8);} void le32(uint32_t v){le16(v);le16(v>>16);} void le64(uint64_t v){le32((uint32_t)v);le32((uint32_t)(v>>32));}
    void be16(uint32_t v){u8(v>>8);u8(v);} void be32(uint32_t v){be16(v>>16);be16(v);} void be64(uint64_t v){be32((uint32_t)(v>>32));be32((uint32_t)v);}
    void lef(float f){le32(fbits(f));}
    void led(double d){uint64_t u;memcpy(&u,&d,8);le64(u);} void bed(double d){uint64_t u;memcpy(&u,&d,8);be64(u);}
    void junk(size_t n){for(size_t i=0;i<n;i++) u8(T.choose(256));}
};
float halfToFloat(uint16_t h){
    int s=h>>15,e=(h>>10)&31,m=h&1023;
    double v=e==0?std::ldexp((double)m,-24):e==31?(m?NAN:INFINITY):std::ldexp((double)(m+1024),e-25);
    return (float)(s?-v:v);
}
static std::string sp(){ // white space as other writers use it
    static const char* w[]={" ","\n","\t","  ","\r\n"," \n "}; return w[T.choose(6)];
}
static std::string num(float f,uint32_t* bits){
    char b[64];
    switch(T.choose(4)){ case 0:snprintf(b,64,"%g",f);break; case 1:snprintf(b,64,"%.9g",f);break; case 2:snprintf(b,64,"%.6e",f);break; default:if(std::fabs(f)<1e9) snprintf(b,64,"%f",f); else snprintf(b,64,"%.8g",f);}
    *bits=fbits(strtof(b,nullptr)); return b;
}
static void beStr(Out& o,const std::string& s){o.be16(s.size());o.s(s);}

static void bgeoAttr(Out& o,const MAttr& a){
    beStr(o,a.name); o.be16(a.count);
    o.be32(a.type==FLOAT?0:a.type==INT?1:a.type==VECTOR?5:4);
    if(a.type==INDEXEDSTR){ o.be32(a.strs.size()); for(auto& s:a.strs) beStr(o,s); }
    else for(int i=0;i<a.count;i++) o.be32(T.choose(2)?T.bits():0);
}
static Bytes encBGEO(Model& m,int maxN){
    m=genModel(BGEO,maxN); m=expectRoundTrip(BGEO,m);
    bool big=maxN>65536&&T.choose(3); // the size of vertex numbers changes at 65536 points
    if(big){ static const int N[]={65535,65536,65537,65540,70000}; std::vector<MAttr> fixed=m.fixed; m=Model(); m.fixed=fixed; m.n=N[T.choose(5)]; MAttr a; a.name="position";a.type=VECTOR;a.count=3;a.data.resize(m.n*3); for(size_t i=0;i<a.data.size();i++) a.data[i]=fbits((float)i); m.attrs.push_back(a); }
    Model prim; int np=big?1+T.choose(3):T.choose(3)?T.choose(4):0; if(np||T.choose(3)==0){ prim=genModel(BGEO,1); }
    std::vector<MAttr>& pa=prim.fixed;
    Out o; o.s("Bgeo"); o.u8('V'); o.be32(5); o.be32(m.n); o.be32(np); o.be32(0); o.be32(0); o.be32(m.attrs.size()-1); o.be32(0); o.be32(pa.size()); o.be32(m.fixed.size());
    for(size_t i=1;i<m.attrs.size();i++) bgeoAttr(o,m.attrs[i]);
    for(int i=0;i<m.n;i++){
        for(int k=0;k<3;k++) o.be32(m.attrs[0].data[i*3+k]);
        o.be32(fbits(T.tape_small(i)?2.5f:1.f));
        for(size_t j=1;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++) o.be32(m.attrs[j].data[(size_t)i*m.attrs[j].count+k]);
    }
    for(auto& a:pa) bgeoAttr(o,a);
    int psz=0; for(auto& a:pa) psz+=a.count;
    for(int i=0;i<np;i++){
        o.be32(0x8000); int sz=T.choose(2)?m.n:(int)T.choose(20); if(sz>70000) sz=3; o.be32(sz);
        for(int k=0;k<sz;k++) if(m.n>=65536) o.be32(k); else o.be16(k);
        for(int k=0;k<psz;k++) o.be32(T.choose(100));
    }
    for(auto& a:m.fixed) bgeoAttr(o,a);
    for(auto& a:m.fixed) for(uint32_t v:a.data) o.be32(v);
    o.u8(0); o.u8(0xff);
    return o.b;
}
static Bytes encPDB(Model& m,int bits,int maxN){
    m=genModel(PDB32,maxN);
    struct Ch{bool known;MAttr a;int type;int size;}; std::vector<Ch> ch;
    for(auto& a:m.attrs){ if(T.chance(1,6)){Ch u;u.known=false;u.a.name=strf("skip%d",(int)ch.size());u.type=T.choose(2)?4:5;u.size=T.choose(12);ch.push_back(u);} Ch c;c.known=true;c.a=a;c.type=a.type==VECTOR?1:a.type==FLOAT?2:3;c.size=a.count*4;ch.push_back(c); }
    Out o; auto ptr=[&](bool zero){ if(bits==32) o.le32(zero?0:T.bits()); else o.le64(zero?0:(0x7f00ull<<32|T.bits())); };
    bool zp=T.choose(2)==0;
    o.le32(670); o.le16(1); o.le16(0); o.lef(1); o.lef((float)T.choose(100)/24); o.le32(m.n); o.le32(ch.size()); o.b.insert(o.b.end(),32,0); ptr(zp);
    for(auto& c:ch){
        o.u8(0);o.u8(0);o.le16(1);o.u8(0);o.u8(0);
        // channel
        ptr(zp);
        o.le32(c.type); o.le32(T.choose(2)?m.n:0); o.le32(0); o.le32(m.n-1); o.u8(0);o.u8(0);
        if(bits==32) o.le16(0); else { o.le16(0); o.le32(0); }
        ptr(zp);ptr(zp);ptr(zp);
        if(bits==64){}
        o.s(c.a.name); o.u8(0);
        // channel data
        o.le32(c.type); o.le32(c.size); o.le32(T.choose(2)?m.n:1000); o.le32(1); ptr(zp);
        if(c.known) for(uint32_t v:c.a.data) o.le32(v); else o.junk((size_t)c.size*m.n);
    }
    return o.b;
}
static Bytes encBIN(Model& m,int maxN){
    Model src=expectRoundTrip(BIN,genModel(BIN,maxN)); int v=2+T.choose(12);
    m=Model(); m.n=src.n;
    auto has=[&](const std::string& n){ return n=="vorticity"?v>=9:n=="normal"?v>=3:n=="neighbors"?v>=4:n=="uvw"?v>=5:true; };
    for(auto& a:src.attrs) if(has(a.name)) m.attrs.push_back(a);
    Out o; o.le32(0xFABADA); std::string nm="fluid_sim"; o.s(nm); o.b.resize(4+250,0); o.le16(v); o.lef(1); o.le32(9); o.lef(0.5f); o.le32(T.choose(100)); o.le32(24); o.le32(m.n); o.lef(0.1f);
    for(int i=0;i<9;i++) o.lef((float)T.choose(10));
    if(v>=7) for(int i=0;i<9;i++) o.lef((float)T.choose(10));
    for(int i=0;i<m.n;i++){
        auto put=[&](const char* n){ const MAttr* a=m.find(n); if(a) for(int k=0;k<a->count;k++) o.le32(a->data[(size_t)i*a->count+k]); };
        put("position");put("velocity");put("force");put("vorticity");put("normal");put("neighbors");put("uvw");
        if(v>=5) o.le16(T.tape_small(i)?7:0x0103);
        put("age");put("isolationTime");put("viscosity");put("density");put("pressure");put("mass");put("temperature");
        if(v<12) put("id"); else { const MAttr* a=m.find("id"); o.le64((uint64_t)(int64_t)(int32_t)a->data[i]); }
    }
    o.le32(0); o.u8(0); o.u8(0);
    return o.b;
}
static Bytes encPRT(Model& m,int maxN){
    m=Model(); m.n=T.choose(4)?1+T.choose(12):T.choose(T.chance(1,8)||maxN>=9000?4000:200); m.n=std::min(m.n,maxN);
    struct Ch{int type,arity;uint32_t off;std::string name;}; std::vector<Ch> ch; static const int SZ[]={2,4,8,2,4,8,2,4,8,1,1};
    bool many=T.chance(1,14); int nc=many?6+T.choose(40):T.choose(6); uint32_t off=0; if(many) m.n=std::min(m.n,200);
    for(int i=0;i<nc;i++){
        Ch c; c.type=T.choose(11); c.arity=T.choose(3)==0?3:1+T.choose(T.chance(1,15)?40:4);
        if(T.chance(1,4)) off+=T.choose(9);
        c.off=off; off+=SZ[c.type]*c.arity;
        static const char* nm[]={"Position","Velocity","ID","Density","Color","Normal","LifeSpan","age","mtlindex"};
        c.name=T.choose(2)?nm[T.choose(9)]:strf("Channel_%d",i);
        bool dup=false; for(auto& x:ch) dup|=x.name==c.name; if(dup) c.name=strf("Ch%d",i);
        if(T.chance(1,12)) c.name=strf("%c%d",T.choose(2)?'N':'n',i)+std::string(31-2-(i>9),'x');
        ch.push_back(c);
    }
    if(T.choose(2)) for(size_t i=ch.size();i>1;i--) std::swap(ch[i-1],ch[T.choose(i)]); // listed in any order
    uint32_t psz=0; for(auto& c:ch) psz=std::max(psz,c.off+(uint32_t)SZ[c.type]*c.arity);
    Bytes body((size_t)psz*m.n,0);
    for(auto& c:ch){
        MAttr a; a.name=c.name; if(a.name[0]>='A'&&a.name[0]<='Z') a.name[0]+=32;
        a.type=(c.type>=3&&c.type<=5)?(c.arity==3?VECTOR:FLOAT):INT; a.count=c.arity; a.data.resize((size_t)m.n*c.arity);
        for(int i=0;i<m.n;i++) for(int k=0;k<c.arity;k++){
            unsigned char* d=&body[(size_t)i*psz+c.off+k*SZ[c.type]]; uint32_t r; bool big=i>40; r=big?(uint32_t)mix64(i*31+k,c.off):T.bits();
            uint32_t& w=a.data[(size_t)i*c.arity+k];
            switch(c.type){
                case 0:{int16_t v=(int16_t)r;memcpy(d,&v,2);w=(uint32_t)(int)v;break;}
                case 1:{memcpy(d,&r,4);w=r;break;}
                case 2:{int64_t v=(int32_t)r;memcpy(d,&v,8);w=r;break;}
                case 3:{uint16_t v=(uint16_t)r;if((v&0x7c00)==0x7c00) v&=0xfc00;memcpy(d,&v,2);w=fbits(halfToFloat(v));break;}
                case 4:{if((r&0x7f800000)==0x7f800000) r&=0x3fffffff;memcpy(d,&r,4);w=r;break;}
                case 5:{double v=(double)(int)r/((r>>5)%1000+1.0);memcpy(d,&v,8);w=fbits((float)v);break;}
                case 6:{uint16_t v=(uint16_t)r;memcpy(d,&v,2);w=v;break;}
                case 7:{r&=0x7fffffff;memcpy(d,&r,4);w=r;break;}
                case 8:{uint64_t v=r&0x7fffffff;memcpy(d,&v,8);w=(uint32_t)v;break;}
                case 9:{int8_t v=(int8_t)r;memcpy(d,&v,1);w=(uint32_t)(int)v;break;}
                case 10:{uint8_t v=(uint8_t)r;memcpy(d,&v,1);w=v;break;}
            }
        }
        m.attrs.push_back(a);
    }
    Out o; static const unsigned char mg[8]={192,'P','R','T','\r','\n',26,'\n'}; o.raw(mg,8);
    int hx=T.chance(1,4)?1+T.choose(40):0,cx=T.chance(1,4)?1+T.choose(20):0;
    o.le32(56+hx); char sig[32]={0}; strcpy(sig,"Extensible Particle Format"); o.raw(sig,32); o.le32(1); o.le64(m.n); o.junk(hx);
    o.le32(4); o.le32(ch.size()); o.le32(44+cx);
    for(auto& c:ch){ char n[32]={0}; memcpy(n,c.name.data(),std::min<size_t>(31,c.name.size())); o.raw(n,32); o.le32(c.type); o.le32(c.arity); o.le32(c.off); o.junk(cx); }
    z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,T.choose(10),Z_DEFLATED,15,8,T.choose(4)); Bytes out(compressBound(body.size())+body.size()/8+4096);
    z.next_out=out.data(); z.avail_out=out.size(); size_t pos=0;
    while(pos<body.size()){ size_t n=T.choose(3)?body.size()-pos:1+T.choose((uint32_t)(body.size()-pos)); z.next_in=body.data()+pos; z.avail_in=n; deflate(&z,T.choose(3)==0?Z_FULL_FLUSH:Z_NO_FLUSH); pos+=n; if(z.avail_out<2000){ size_t u=z.total_out; out.resize(out.size()+65536); z.next_out=out.data()+u; z.avail_out=out.size()-u; } }
    while(deflate(&z,Z_FINISH)!=Z_STREAM_END){ size_t u=z.total_out; out.resize(out.size()+65536); z.next_out=out.data()+u; z.avail_out=out.size()-u; }
    out.resize(z.total_out); deflateEnd(&z); o.raw(out.data(),out.size());
    return o.b;
}
static Bytes encPTC(Model& m,int maxN){
    int v=T.choose(3); m=Model(); m.n=std::min<int>(maxN,T.choose(4)?T.choose(12):T.choose(maxN>=9000?4000:150));
    MAttr pos; pos.name="position";pos.type=VECTOR;pos.count=3; MAttr nrm=pos; nrm.name="normal"; MAttr rad; rad.name="radius";rad.type=FLOAT;rad.count=1;
    m.attrs={pos,nrm,rad};
    static const char* tn[]={"float","point","vector","normal","color","matrix"};
    static const char* nm[]={"_area","_radiosity","Cs","radius","normal","occlusion","Cs"};
    struct V{int t;std::string n;}; std::vector<V> vars; int nv=T.chance(1,14)?5+T.choose(30):T.choose(5),dsz=0;
    for(int i=0;i<nv;i++){
        V x{(int)T.choose(6),T.choose(4)==0?strf("var%d",i):std::string(nm[T.choose(7)])};
        MAttr a; a.type=(x.t>=1&&x.t<=3)?VECTOR:FLOAT; a.count=x.t==0?1:x.t==5?16:3; dsz+=a.count;
        std::string eff=x.n; int u=1; while(m.find(eff)) eff=x.n+strf("%d",u++); // the reader numbers repeated names
        a.name=eff; m.attrs.push_back(a); vars.push_back(x);
    }
    Out o; o.s("pptc"); // 'p' is the lowest byte of the little-endian magic
    o.b.clear(); o.le32(((((('c'<<8)|'t')<<8)|'p')<<8)|'p'); o.le32(v); o.led(m.n);
    for(int i=0;i<6;i++) o.lef((float)i); if(v>=1) for(int i=0;i<4;i++) o.lef(9); if(v>=2){ o.lef(3); for(int i=0;i<32;i++) o.le32(0xdeadbeef); }
    for(int i=0;i<32;i++) o.lef((float)(i%5==0)); o.lef(640);o.lef(480);o.lef(1); o.le32(nv); o.le32(dsz);
    for(auto& x:vars) o.s(std::string(tn[x.t])+(T.chance(1,5)?"  ":" ")+x.n+"\n");
    if(v>=1){o.lef(1);o.lef(2);}
    for(auto& a:m.attrs) a.data.resize((size_t)m.n*a.count);
    for(int i=0;i<m.n;i++){
        for(int k=0;k<3;k++){ uint32_t b=genFloat(0); m.attrs[0].data[i*3+k]=b; o.le32(b); }
        uint32_t phi=T.choose(65536),z=T.choose(65536); if(T.chance(1,5)) phi=z=65535; else if(T.chance(1,5)){ static const uint32_t E[]={0,1,32767,32768,65534,65535}; phi=E[T.choose(6)]; z=E[T.choose(6)]; } o.le16(phi);o.le16(z);
        double nz=2*(z/65535.0)-1,fp=2*M_PI*(phi/65535.0-0.5),r=std::sqrt(std::max(0.0,1-nz*nz)); double N[3]={r*std::sin(fp),r*std::cos(fp),nz}; if(phi==65535&&z==65535) N[0]=N[1]=N[2]=0;
        for(int k=0;k<3;k++) m.attrs[1].data[i*3+k]=fbits((float)N[k]);
        uint32_t rb=genFloat(0); m.attrs[2].data[i]=rb; o.le32(rb);
        for(size_t j=3;j<m.attrs.size();j++) for(int k=0;k<m.attrs[j].count;k++){ uint32_t b=i<30?genFloat(0):fbits((float)(i*7+k)); m.attrs[j].data[(size_t)i*m.attrs[j].count+k]=b; o.le32(b); }
    }
    return o.b;
}
static Bytes encPDC(Model& m,int maxN){
    m=genModel(PDC,maxN); Out o; o.s("PDC "); o.be32(1);o.be32(1);o.be32(0);o.be32(0);o.be32(m.n);o.be32(m.attrs.size());
    for(auto& a:m.attrs){ o.be32(a.name.size()); o.s(a.name); o.be32(a.type==VECTOR?5:3);
        for(auto& v:a.data){ double d=bitsf(v); if(std::isfinite(d)&&T.tape_small((int)(&v-a.data.data()))){ d*=1.0000000123; v=fbits((float)d); } else if(std::isnan(d)){ d=1; v=fbits(1.f);} o.bed(d);} }
    return o.b;
}
static Bytes encMC(Model& m,int maxN){
    m=Model(); m.n=std::min<int>(maxN,2+T.choose(T.choose(maxN>=9000?2:4)?12:T.chance(1,maxN>=9000?2:10)?(maxN>=9000?6000:1200):120)); // a block of one double is a scalar in this format
    static const char* nm[]={"position","velocity","mass","lifespanPP","age","goalU","user_data","_local","a_b_c"};
    Out body; body.s("MYCH");
    int na=T.chance(1,14)?6+T.choose(20):1+T.choose(5),idAt=T.choose(na); std::vector<std::string> used;
    for(int i=0;i<na;i++){
        MAttr a; bool id=i==idAt; a.name=id?"id":nm[T.choose(9)]; if(m.find(a.name)||std::count(used.begin(),used.end(),a.name)) a.name=strf("attr%d",i); used.push_back(a.name);
        std::string full="nParticleShape1_"+a.name; bool scalar=!id&&T.chance(1,5); bool vec=!id&&!scalar&&T.choose(2);
        if(a.name=="position") {vec=true;scalar=false;}
        body.s("CHNM"); body.be32(full.size()+1); Bytes s(full.begin(),full.end()); s.resize((full.size()+1+3)/4*4,0); body.raw(s.data(),s.size());
        body.s("SIZE"); body.be32(4);
        if(scalar){ body.be32(1); body.s("DBLA"); body.be32(8); body.bed((double)T.choose(100)); continue; }
        body.be32(m.n); body.s(vec?"FVCA":"DBLA"); body.be32(m.n*(vec?12:8));
        a.type=id?INT:vec?VECTOR:FLOAT; a.count=vec?3:1; a.data.resize((size_t)m.n*a.count);
        for(size_t k=0;k<a.data.size();k++){
            if(id){ a.data[k]=T.choose(100000); body.bed((double)a.data[k]); }
            else { uint32_t b=genFloat(1); a.data[k]=b; if(vec) body.be32(b); else body.bed((double)bitsf(b)); }
        }
        m.attrs.push_back(a);
    }
    // FOR4 40 | CACH: VRSN STIM ETIM | FOR4 size MYCH ...
    Out o; o.s("FOR4"); o.be32(40); o.s("CACH"); o.s("VRSN"); o.be32(4); o.s("0.1"); o.u8(0); o.s("STIM"); o.be32(4); o.be32(T.choose(10000)); o.s("ETIM"); o.be32(4); o.be32(T.choose(10000));
    o.s("FOR4"); o.be32(body.b.size()); o.raw(body.b.data(),body.b.size());
    return o.b;
}
static Bytes encPTS(Model& m,int maxN){
    static const int VC[]={3,4,6,7,8}; int vc=VC[T.choose(5)]; m=Model(); int n=1+T.choose(T.choose(4)?10:T.chance(1,10)||maxN>=9000?3000:80); n=std::min(n,maxN);
    auto add=[&](const char* nm,int t){ MAttr a;a.name=nm;a.type=t;a.count=t==VECTOR?3:1;m.attrs.push_back(a); };
    add("id",INT);add("position",VECTOR); if(vc==4||vc==7||vc==8) add("remission",FLOAT); if(vc==8) add("quality",INT); if(vc>=6) add("pointColor",VECTOR);
    std::string s=strf("%d",n)+(T.chance(1,6)?"\r\n":"\n"); bool first=true,tab=T.chance(1,4);
    for(int i=0;i<n;i++){
        while(!first&&T.chance(1,8)){ static const char* j[]={"\n","1 2\n","# comment\n","1 2 3 4 5 6 7 8 9 10 11\n","0.5\n"}; s+=j[T.choose(5)]; }
        first=false; float v[8]; uint32_t b[8];
        for(int k=0;k<vc;k++){
            if(k){ s+=tab?"\t":" "; if(T.chance(1,20)) s+=" "; }
            bool col=vc>=6&&k>=vc-3, q=vc==8&&k==4;
            if(col||q){ int x=T.choose(256); s+=strf("%d",x); v[k]=(float)x; b[k]=fbits(v[k]); }
            else { s+=num(bitsf(genFloat(2)),&b[k]); v[k]=bitsf(b[k]); }
        }
        if(i+1<n||T.choose(2)) s+="\n";
        m.n++;
        size_t ai=0; m.attrs[ai++].data.push_back(m.n-1); auto& p=m.attrs[ai++].data; p.push_back(b[0]);p.push_back(b[2]);p.push_back(b[1]);
        if(vc==4||vc==7||vc==8) m.attrs[ai++].data.push_back(b[3]); if(vc==8) m.attrs[ai++].data.push_back((uint32_t)(int)v[4]);
        if(vc>=6) for(int k=vc-3;k<vc;k++) m.attrs[ai].data.push_back(fbits(v[k]/255));
    }
    return Bytes(s.begin(),s.end());
}
static std::string quoted(const std::string& s){ std::string r="\""; for(char c:s){ if(c=='\\'||c=='"') r+='\\'; r+=c; } return r+"\""; }
static Bytes encGEO(Model& m,int maxN){
    m=expectRoundTrip(GEO,genModel(GEO,maxN));
    std::string s=T.choose(2)?"PGEOMETRY V5\n":"PGEOMETRY  V2\n"; int np=T.choose(3);
    s+=strf("NPoints %d NPrims %d\nNPointGroups 0 NPrimGroups 0\nNPointAttrib %zu NVertexAttrib 0 NPrimAttrib 0 NAttrib 0\n",m.n,np,m.attrs.size()-1);
    if(m.attrs.size()>1){ s+="PointAttrib\n";
        for(size_t i=1;i<m.attrs.size();i++){ auto& a=m.attrs[i]; s+=a.name+strf(" %d ",a.count);
            if(a.type==INDEXEDSTR){ s+=strf("index %zu",a.strs.size()); for(auto& t:a.strs){ if(T.chance(1,80)){ std::string w=t+std::string(100+T.choose(900),'w'); if(std::find(a.strs.begin(),a.strs.end(),w)==a.strs.end()) t=w; } bool plain=!t.empty()&&T.choose(2); for(char c:t) plain&=(c>='a'&&c<='z'); s+=(T.chance(1,6)?"\n":" ")+(plain?t:quoted(t)); } s+="\n"; }
            else { s+=a.type==FLOAT?"float":a.type==INT?"int":"vector"; for(int k=0;k<a.count;k++) s+=T.choose(2)?" 0":" 0.5"; s+="\n"; } } }
    for(int i=0;i<m.n;i++){
        for(int k=0;k<3;k++){ uint32_t& b=m.attrs[0].data[i*3+k]; s+=num(bitsf(b),&b)+" "; } s+="1";
        if(m.attrs.size()>1){ s+=T.choose(3)?" (":"\t("; bool f=true;
            for(size_t j=1;j<m.attrs.size();j++){ auto& a=m.attrs[j]; for(int k=0;k<a.count;k++){ uint32_t& b=a.data[(size_t)i*a.count+k]; if(!f) s+=k?" ":"\t"; f=false; if(a.type==INT||a.type==INDEXEDSTR) s+=strf("%d",(int)b); else s+=num(bitsf(b),&b); } }
            s+=T.choose(3)?")":" )"; }
        s+="\n";
    }
    for(int i=0;i<np;i++){ int z=T.choose(4); s+=strf("Part %d",z); for(int k=0;k<z;k++) s+=strf(" %d",k); s+=" [0]\n"; }
    s+="beginExtra\nendExtra\n";
    return Bytes(s.begin(),s.end());
}
static Bytes encPDA(Model& m,int maxN){
    m=genModel(PDA,maxN); std::string s="ATTRIBUTES"+sp();
    for(auto& a:m.attrs) s+=a.name+sp(); s+="TYPES"+sp(); for(auto& a:m.attrs) s+=std::string(a.type==VECTOR?"V":a.type==FLOAT?"R":"I")+sp();
    s+=strf("NUMBER_OF_PARTICLES: %d",m.n)+sp()+"BEGIN DATA"+sp();
    for(int i=0;i<m.n;i++){ for(auto& a:m.attrs) for(int k=0;k<a.count;k++){ uint32_t& b=a.data[(size_t)i*a.count+k]; s+=(a.type==INT?strf("%d",(int)b):num(bitsf(b),&b))+(T.tape_small(i)?sp():" "); } s+="\n"; }
    return Bytes(s.begin(),s.end());
}
static Bytes encodeAny(int fmt,Model& want,int maxN){
    switch(fmt){
        case BGEO:case BHCLASSIC:case ITBL:case ATBL:return encBGEO(want,maxN);
        case PDB_:return encPDB(want,T.choose(2)?32:64,maxN); case PDB32:return encPDB(want,32,maxN); case PDB64:return encPDB(want,64,maxN);
        case BIN:return encBIN(want,maxN); case PRT:return encPRT(want,maxN); case PTC:case PTF:return encPTC(want,maxN); case PDC:return encPDC(want,maxN);
        case MC:return encMC(want,maxN); case PTS:return encPTS(want,maxN); case GEO:case HCLASSIC:return encGEO(want,maxN); case PDA:return encPDA(want,maxN);
    }
    return Bytes();
}

// ------------------------------------------------------------------- gzip
Bytes gzipFrame(const Bytes& p){
    Out o; o.u8(0x1f);o.u8(0x8b);o.u8(8); int fl=T.choose(4)?0:T.choose(32)&0x1e; // FHCRC 2, FEXTRA 4, FNAME 8, FCOMMENT 16 (FTEXT 1 below)
    if(T.chance(1,6)) fl|=1; o.u8(fl); o.le32(T.choose(2)?T.bits():0); o.u8(T.choose(3)*2); o.u8(T.choose(2)?3:255);
    if(fl&4){ int n=T.choose(4)?(int)T.choose(30):(int)T.choose(65536); o.le16(n); o.junk(std::min(n,30)); for(int i=30;i<n;i++) o.u8(i); }
    auto longer=[&]{ static const int L[]={255,256,257,300,1023,1024,4000,70000}; if(T.chance(1,4)){ int n=L[T.choose(8)]; o.s(std::string(n,'/')); } };
    if(fl&8){ std::string s=strf("points%d.geo",(int)T.choose(100)); if(T.choose(8)) o.s(s); longer(); o.u8(0); }
    if(fl&16){ if(T.choose(8)) o.s("made elsewhere"); longer(); o.u8(0); }
    if(fl&2) o.le16(crc32(0,o.b.data(),o.b.size())&0xffff);
    z_stream z; memset(&z,0,sizeof z);
    deflateInit2(&z,T.choose(10),Z_DEFLATED,-15+(T.choose(4)==0?(int)T.choose(7):0),1+T.choose(9),T.choose(5));
    Bytes out(p.size()+p.size()/4+65536); z.next_out=out.data(); z.avail_out=out.size(); size_t pos=0;
    auto grow=[&]{ if(z.avail_out<4096){ size_t u=z.total_out; out.resize(out.size()*2); z.next_out=out.data()+u; z.avail_out=out.size()-u; } };
    while(pos<p.size()){ size_t n=T.choose(2)?p.size()-pos:1+T.choose((uint32_t)std::min<size_t>(p.size()-pos,5000)); z.next_in=(Bytef*)p.data()+pos; z.avail_in=n;
        static const int F[]={Z_NO_FLUSH,Z_NO_FLUSH,Z_SYNC_FLUSH,Z_FULL_FLUSH,Z_PARTIAL_FLUSH,Z_BLOCK};
        int f=F[T.choose(6)]; do{ grow(); deflate(&z,f); }while(z.avail_in); pos+=n; }
    for(;;){ grow(); if(deflate(&z,Z_FINISH)==Z_STREAM_END) break; }
    out.resize(z.total_out); deflateEnd(&z); o.raw(out.data(),out.size());
    o.le32(crc32(0,p.data(),p.size())); o.le32(p.size());
    return o.b;
}
std::string gunzipStrict(const Bytes& z,Bytes& out){
    size_t n=z.size(),i=10; if(n<18) return "shorter than a gzip file"; if(z[0]!=0x1f||z[1]!=0x8b||z[2]!=8) return "bad gzip magic";
    int fl=z[3]; if(fl&0xe0) return "reserved gzip flags set";
    if(fl&4){ if(i+2>n) return "cut in extra field"; i+=2+z[i]+256*z[i+1]; }
    for(int b=8;b<=16;b<<=1) if(fl&b){ while(i<n&&z[i]) i++; i++; }
    if(fl&2) i+=2;
    if(i+8>n) return "cut in gzip header";
    z_stream s; memset(&s,0,sizeof s); inflateInit2(&s,-15); out.clear(); s.next_in=(Bytef*)z.data()+i; s.avail_in=n-i; unsigned char buf[65536]; int r;
    do{ s.next_out=buf; s.avail_out=sizeof buf; r=inflate(&s,Z_NO_FLUSH); out.insert(out.end(),buf,buf+(sizeof buf-s.avail_out)); }while(r==Z_OK);
    size_t left=s.avail_in; inflateEnd(&s);
    if(r!=Z_STREAM_END) return strf("deflate stream does not end properly (%d)",r);
    if(left!=8) return strf("%zu bytes after the deflate stream instead of 8",left);
    const unsigned char* t=&z[n-8]; uint32_t c=t[0]|t[1]<<8|t[2]<<16|(uint32_t)t[3]<<24,l=t[4]|t[5]<<8|t[6]<<16|(uint32_t)t[7]<<24;
    if(c!=crc32(0,out.data(),out.size())) return "gzip checksum does not match"; if(l!=(uint32_t)out.size()) return "gzip length does not match";
    return "";
}
Bytes encodeForeign(int fmt,Model& want,int maxN){ count(F_FOREIGN); Bytes b=encodeAny(fmt,want,maxN); want=distinctStrs(want); return b; }
