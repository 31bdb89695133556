// Runs of C24: the viewer, with its own main, under a simulated window system.
#include "common.h"
#include "glstub.h"
#include <iostream>
#include <algorithm>
#include <cmath>
using namespace Partio;
using view::Picture; using view::Vert; using view::win;
int partview_main(int,char**);

namespace {
typedef std::vector<std::pair<int,int>> Links;
struct Frame {
    int number=0; std::string path,conn; bool exists=false,good=false;     // good: the library reads it
    Model m; bool pos=false; const MAttr *p=nullptr,*col=nullptr,*al=nullptr;
    enum { NONE,MISSING,BAD,GOOD } connState=NONE; std::vector<uint32_t> ends; // pairs p1 p2
};
std::vector<Frame> F_; int first,stepBy=1; bool numbered=true; std::string style;
std::string errText;
struct Range { long lo,hi; };
struct Cand { int f; bool err; int links; bool operator==(const Cand& o)const{ return f==o.f&&err==o.err&&links==o.links; } };
std::vector<Cand> cand;                 // what may be on screen
Range ps,fv,br; bool useC,useA;          // in steps from the start
bool held[4]; long seenPs,seenFv,seenBr; int heldKeys; uint64_t lastPress;
bool camKnown=false,dragging=false; double lastLook[9]; double cam[5]; bool camOn=true; uint64_t pics; bool firstFit=true; bool faulty=false; int lastShown=-1; bool sawErr=false;

const MAttr* usable(const Model& m,const char* const* names,int k,int count){
    for(int i=0;i<k;i++) if(const MAttr* a=m.find(names[i])) if((a->type==FLOAT||a->type==VECTOR)&&a->count==count) return a;
    return nullptr;
}
const char* COL[]={"pointColor","color","rgb","rgbPP","Cd"}; const char* ALPHA[]={"pointOpacity","alphaPP","alpha","opacityPP","opacity"};
void understand(Frame& f){
    static const char* P[]={"position"}; f.p=usable(f.m,P,1,3); f.pos=f.p!=nullptr&&f.m.n>0; f.col=usable(f.m,COL,5,3); f.al=usable(f.m,ALPHA,5,1);
}
Model content(){
    Model m; int n; switch(T.pick({5,2,1,1})){ case 0: n=1+T.choose(6); break; case 1: n=T.choose(40); break; case 2: n=0; break; default: n=100+T.choose(600); }
    m.n=n; int kind=T.choose(6)==5?1:2; static const float SC[]={1,.02f,.001f,30}; float scale=SC[T.pick({3,2,1,1})];
    auto add=[&](const std::string& name,int type,int count){ MAttr a; a.name=name; a.type=type; a.count=count; if(type==INDEXEDSTR) a.strs={"s"}; uint32_t base=T.bits(); for(int i=0;i<n*count;i++) a.data.push_back(type==INT?mix64(base,i)%1000:type==INDEXEDSTR?0:i<30&&kind==1?genFloat(1):fbits(((float)(int)(mix64(base,i)%20000)/64.f-100.f)*scale)); m.attrs.push_back(a); };
    int pk=T.pick({12,1,1,1}); bool oddPos=pk>0;
    int before=T.choose(3); for(int i=0;i<before;i++) add(strf("u%d",i),1+T.choose(3),1+T.choose(3));
    if(pk==0) add("position",VECTOR,3); else if(pk==1) add("position",INT,3); else if(pk==2) add("position",FLOAT,1+T.choose(2)); (void)oddPos;
    int ck=T.pick({3,5,1,1,1}); int c0=T.choose(5);
    if(ck==1) add(COL[c0],T.choose(2)?VECTOR:FLOAT,3);
    else if(ck==2){ add(COL[c0],T.choose(2)?VECTOR:FLOAT,3); add(COL[(c0+1+T.choose(4))%5],VECTOR,3); }
    else if(ck==3) add(COL[c0],INT,3); else if(ck==4) add(COL[c0],FLOAT,1+T.choose(2));
    int ak=T.pick({4,5,1,1}); int a0=T.choose(5);
    if(ak==1) add(ALPHA[a0],FLOAT,1); else if(ak==2){ add(ALPHA[a0],FLOAT,1); add(ALPHA[(a0+1+T.choose(4))%5],FLOAT,1); } else if(ak==3) add(ALPHA[a0],T.choose(2)?INT:INDEXEDSTR,1);
    if(T.choose(4)==3) add("id",INT,1);
    return m;
}
bool eq(float a,uint32_t b){ return fbits(a)==b||std::fabs(a-bitsf(b))<=1e-6f*std::fabs(a); }
void fail(const char* cls,const std::string& s){ violation(std::string("view:")+cls,s); }
std::string key(const float* a,const float* b){ uint32_t k[6]; for(int i=0;i<3;i++){ float x=a[i]+0.f,y=b[i]+0.f; k[i]=fbits(x); k[3+i]=fbits(y); } return std::string((char*)k,24); }

// does the picture show this candidate?
std::string matches(const Picture& p,const Cand& c){
    const Frame& f=F_[c.f]; int n=f.m.n; std::string err; int seen=0;
    if(std::find(p.texts.begin(),p.texts.end(),strf("PointCount:%d",n))==p.texts.end()) return strf("content:PointCount:%d is not shown",n);
    bool num=false; for(auto& t:p.texts) if(t.compare(0,9,"FrameNum:")==0){ num=true; if(c.err) return "error:a frame number is shown instead of the error"; if(numbered&&t!=strf("FrameNum:%d",f.number)) return "frame:the text says "+t+strf(" and the frame is %d",f.number); }
    if(!c.err&&!num) return "frame:no frame number is shown";
    if(c.err&&p.texts.size()<3) return "error:no error is shown";
    int want=f.pos?n:0; if((int)p.points.size()!=want) return strf("content:%zu points drawn of %d",p.points.size(),want);
    for(int i=0;i<want;i++) for(int k=0;k<3;k++) if(fbits(p.points[i].p[k])!=f.p->data[i*3+k]) return strf("position:point %d is drawn at %g %g %g",i,p.points[i].p[0],p.points[i].p[1],p.points[i].p[2]);
    // links
    std::vector<std::string> w; auto seg=[&](const float* a,const float* b){ w.push_back(key(a,b)); };
    float o[3]={0,0,0}; for(int k=0;k<3;k++){ float e[3]={0,0,0}; e[k]=1; seg(o,e); }
    if(c.links>=0&&f.pos){ auto& e=F_[c.links].ends; for(size_t i=0;i+1<e.size();i+=2){ int a=(int)e[i],b=(int)e[i+1]; if(a>=0&&b>=0&&a<n&&b<n) seg((const float*)&f.p->data[a*3],(const float*)&f.p->data[b*3]); } }
    std::vector<std::string> g; for(size_t i=0;i+1<p.lines.size();i+=2) g.push_back(key(p.lines[i].p,p.lines[i+1].p));
    std::sort(w.begin(),w.end()); std::sort(g.begin(),g.end()); if(w!=g) return strf("links:%zu lines drawn of %zu (with the axes)",g.size(),w.size());
    // colours
    double b=0; bool grey=true; (void)seen;
    for(int i=0;i<want;i++){
        const Vert& v=p.points[i];
        bool alpha=useA&&f.al; float a=v.comps==3?1.f:v.c[3];
        if(alpha){ if(!eq(a,f.al->data[i])) return strf("opacity:point %d has opacity %g",i,a); if(!p.blend) return "opacity:blending is off"; }
        else if(a!=1) return strf("opacity:point %d has opacity %g",i,a);
        if(useC&&f.col){ grey=false; for(int k=0;k<3;k++) if(!eq(v.c[k],f.col->data[i*3+k])) return strf("colour:point %d component %d is %g and its colour %g",i,k,v.c[k],bitsf(f.col->data[i*3+k])); }
        else{ double d=v.c[0]-.75; if(std::fabs(v.c[1]-v.c[0])>1e-5||std::fabs(v.c[2]-v.c[0])>1e-5) return strf("colour:point %d without colour is not grey",i); if(i&&std::fabs(d-b)>1e-5) return "colour:different greys"; b=d; }
    }
    if(want&&grey){ double s=b/.02; if(std::fabs(s-std::round(s))>.01) return strf("brightness:grey %g",.75+b); long j=(long)std::round(s); if(j<br.lo||j>br.hi) return strf("brightness:%ld steps brighter, and the keys made %ld to %ld",j,br.lo,br.hi); }
    return "";
}
void picture(Picture& p){
    pics++; count(C_QUERIES);
    evt("picture points=%zu lines=%zu texts=%s",p.points.size(),p.lines.size(),[&]{ std::string s; for(auto& t:p.texts) s+=t+"|"; return s; }().c_str());
    if(!p.trouble.empty()) fail("drawing",p.trouble);
    if(!p.cleared||!p.depthCleared) fail("drawing","the window is not cleared first");
    if(!p.looked) fail("drawing","the camera is not set");
    std::vector<Cand> ok; std::string why; 
    for(auto& c:cand){ std::string d=matches(p,c); if(d.empty()) ok.push_back(c); else if(why.empty()||why.compare(0,5,"frame")==0||why.compare(0,7,"content")==0) why=d; }
    if(ok.empty()){ size_t k=why.find(':'); fail(why.substr(0,k).c_str(),strf("frame %d expected%s: ",F_[cand[0].f].number,cand[0].err?" with an error":"")+why.substr(k+1)); }
    cand=ok; if(ok.size()==1){ lastShown=ok[0].f; sawErr=ok[0].err; }
    // the settings
    double f=p.fov; long j=(long)std::round((f-60)/5); if(std::fabs(f-60-5*j)>1e-3||j<fv.lo||j>fv.hi) fail("fov",strf("field of view %g, and the keys made %ld to %ld steps of 5",f,fv.lo,fv.hi)); if(f<=0||f>=180) fail("fov",strf("field of view %g",f)); fv.lo=fv.hi=j; seenFv=j;
    if(std::find(p.texts.begin(),p.texts.end(),strf("FOV:%d",(int)f))==p.texts.end()) fail("fov",strf("FOV:%d is not shown",(int)f));
    if(std::fabs(p.aspect-(double)win.w/win.h)>1e-3*p.aspect) fail("drawing",strf("the aspect is %g in a window of %d by %d",p.aspect,win.w,win.h));
    if(!p.points.empty()){ long s=(long)std::round((p.pointSize-1.5)/.5); if(std::fabs(p.pointSize-1.5-.5*s)>1e-3||s<ps.lo||s>ps.hi) fail("point-size",strf("points of size %g, and the keys made %ld to %ld steps of .5",p.pointSize,ps.lo,ps.hi)); if(p.pointSize<=0) fail("point-size","no size"); ps.lo=ps.hi=s; seenPs=s;
        const Frame& fr=F_[cand[0].f]; if(!(useC&&fr.col)){ long b=(long)std::round((p.points[0].c[0]-.75)/.02); br.lo=br.hi=b; seenBr=b; } }
    // the camera
    double* L=p.look; double v[3]={L[0]-L[3],L[1]-L[4],L[2]-L[5]}; double d=std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
    if(firstFit){ firstFit=false; const Frame& fr=F_[cand[0].f];
        if(fr.pos){ float lo[3],hi[3]; bool fine=true; for(int k=0;k<3;k++){ lo[k]=1e30f; hi[k]=-1e30f; for(int i=0;i<fr.m.n;i++){ float x=bitsf(fr.p->data[i*3+k]); fine&=std::fabs(x)<1e4f; lo[k]=std::min(lo[k],x); hi[k]=std::max(hi[k],x); } }
            camOn=fine; if(fine){ double e=0; for(int k=0;k<3;k++){ double c=.5*(lo[k]+hi[k]); e=std::max(e,(double)hi[k]-lo[k]); if(std::fabs(L[3+k]-c)>1e-4+1e-4*std::max(std::fabs(lo[k]),std::fabs(hi[k]))) fail("camera","the camera does not look at the middle of the particles"); }
                double dist=std::max(1e-3,.5*e/std::tan(.5*f*M_PI/180)); if(std::fabs(d-dist)>1e-3*dist+1e-3) fail("camera",strf("the camera is %g away and %g shows all particles",d,dist)); if(dist<.01) camOn=false; } }
    }
    if(camKnown&&!dragging&&memcmp(lastLook,L,6*sizeof(double))!=0){ double w=0,m=0; for(int k=0;k<6;k++){ w=std::max(w,std::fabs(lastLook[k]-L[k])); m=std::max(m,std::fabs(L[k])); } if(w>1e-4*m+1e-6) fail("camera","the camera moves without the mouse"); }
    memcpy(lastLook,L,sizeof lastLook); camKnown=true;
    if(camOn){
        double up=(v[0]*L[6]+v[1]*L[7]+v[2]*L[8]),ul=std::sqrt(L[6]*L[6]+L[7]*L[7]+L[8]*L[8]); if(!(std::fabs(up)<=1e-3*d*ul+1e-6)) fail("camera","up is not across the view");
    }
}
struct Look { double at[3],v[3],d; bool ok=false; } look0;
Look lookOf(){ Look l; return l; }
Picture lastPic; 

// events -------------------------------------------------------------
bool planned=false; uint64_t fired0;
uint64_t fired(){ return SH->counters[F_EIO_READ]+SH->counters[F_EOF_READ]+SH->counters[F_OPEN_FAIL]; }
void maybeFault(){ planned=false; if(faulty&&T.choose(6)==5){ FaultPlan f=slowIO(true,false); switch(T.choose(3)){ case 0: f.eioReadAt=T.choose(4); f.eioReadSticky=T.choose(2); break; case 1: f.openFailAt=T.choose(2); f.openErrno=T.choose(2)?13:24; break; default: f.eofReadAt=T.choose(3); } disk::plan(f); fired0=fired(); planned=true; } }
void healed(){ if(planned){ disk::heal(); planned=false; } }
std::vector<Cand> step(const Cand& c,int dir){
    std::vector<Cand> r; auto push=[&](Cand x){ if(std::find(r.begin(),r.end(),x)==r.end()) r.push_back(x); };
    int to=-1; bool any=false;
    if(numbered){ int n=F_[c.f].number+dir; for(size_t i=0;i<F_.size();i++) if(F_[i].number==n) to=i; } else { to=c.f; any=true; }
    bool ok=to>=0&&F_[to].exists&&F_[to].good;
    Cand e=c; e.err=true; if(!ok||planned) push(e);
    if(ok){ Cand g; g.f=to; g.err=false; const Frame& f=F_[to];
        if(f.connState==Frame::GOOD){ g.links=to; push(g); if(planned){ g.links=-1; push(g); g.links=c.links; push(g); } } else if(f.connState==Frame::MISSING){ g.links=c.links; push(g); g.links=-1; push(g); } else { g.links=-1; push(g); if(planned){ g.links=c.links; push(g);} } }
    if(any){ push(c); Cand e2=c; e2.err=false; push(e2); }
    return r;
}
void stepAll(int dir,bool must){
    std::vector<Cand> r; if(!must) r=cand; for(auto& c:cand) for(auto& x:step(c,dir)) if(std::find(r.begin(),r.end(),x)==r.end()) r.push_back(x); cand=r;
}
const long PSMIN=-2,FVMIN=-10,FVMAX=23,BRMAX=51;
void clamp(Range& r,long lo,long hi){ r.lo=std::max(lo,std::min(hi,r.lo)); r.hi=std::max(lo,std::min(hi,r.hi)); }
void must(Range& r,int d,long lo,long hi,long slack=0){ // one step, unless at the end
    r.lo+=d; r.hi+=d; clamp(r,lo,hi); if(slack){ if(d>0&&r.hi>=hi-slack) r.lo=std::min(r.lo,r.hi-1); if(d<0&&r.lo<=lo+slack) r.hi=std::max(r.hi,r.lo+1); }
}
void may(Range& r,int d,long lo,long hi){ (d<0?r.lo:r.hi)+=d; clamp(r,lo,hi); }
std::set<int> normal,special; // keys that are down
void optional(bool specials=true){ // what held keys may do in one call
    if(normal.count('=')) may(ps,1,PSMIN,1000); if(normal.count('-')) may(ps,-1,PSMIN,1000);
    if(normal.count('Z')) may(fv,1,FVMIN,FVMAX); if(normal.count('z')) may(fv,-1,FVMIN,FVMAX);
    if(!specials) return;
    if(special.count(GLUT_KEY_UP)) may(br,1,-BRMAX,BRMAX); if(special.count(GLUT_KEY_DOWN)) may(br,-1,-BRMAX,BRMAX);
    auto c0=cand; if(special.count(GLUT_KEY_RIGHT)) stepAll(1,false); auto c1=cand; if(special.count(GLUT_KEY_LEFT)){ cand=c0; stepAll(-1,false); for(auto& x:c1) if(std::find(cand.begin(),cand.end(),x)==cand.end()) cand.push_back(x); }
}
void draw(){ win.posted=false; evt("display"); view::call(win.display); }
void tickTimer(){
    auto it=std::min_element(win.timers.begin(),win.timers.end(),[](const view::Timer& a,const view::Timer& b){ return a.due!=b.due?a.due<b.due:a.seq<b.seq; });
    view::Timer t=*it; win.timers.erase(it); if(t.due>win.clock) win.clock=t.due;
    maybeFault(); if((int)(win.clock-lastPress)>200) optional(); evt("timer at %llu",(unsigned long long)win.clock); auto c0=cand; view::call([&]{ t.f(t.v); }); healed();
}
void later(uint64_t ms,int maxCalls=120){
    uint64_t end=win.clock+ms; 
    while(maxCalls-->0){
        bool due=false; for(auto& t:win.timers) due|=t.due<=end; bool redraw=win.posted;
        if(redraw&&(!due||T.choose(4))) draw(); else if(due){ tickTimer(); if(T.choose(16)==15){ win.clock+=T.choose(120); } } else break;
    }
    if(win.clock<end) win.clock=end;
    if(win.posted) draw();
}
int X=500,Y=300;
void press(int k){ optional(false);
    // a held key acts again when another is pressed: allowed
    if(k=='='){ if(normal.count('-')) may(ps,1,PSMIN,1000); else must(ps,1,PSMIN,1000); } else if(k=='-'){ if(normal.count('=')) may(ps,-1,PSMIN,1000); else must(ps,-1,PSMIN,1000); }
    else if(k=='Z'){ if(normal.count('z')) may(fv,1,FVMIN,FVMAX); else must(fv,1,FVMIN,FVMAX); } else if(k=='z'){ if(normal.count('Z')) may(fv,-1,FVMIN,FVMAX); else must(fv,-1,FVMIN,FVMAX); }
    else if(k=='c') useC=!useC; else if(k=='a') useA=!useA;
    normal.insert(k); lastPress=win.clock; evt("press %d",k); view::call([&]{ win.key((unsigned char)k,X,Y); }); }
void release(int k){ normal.erase(k); evt("release %d",k); view::call([&]{ win.keyUp((unsigned char)k,X,Y); }); }
void pressS(int k){
    maybeFault();
    if(k==GLUT_KEY_UP){ must(br,1,-BRMAX,BRMAX,2); } else if(k==GLUT_KEY_DOWN){ must(br,-1,-BRMAX,BRMAX,2); } else if(k==GLUT_KEY_RIGHT) stepAll(1,true); else if(k==GLUT_KEY_LEFT) stepAll(-1,true);
    special.insert(k); if(k==GLUT_KEY_UP||k==GLUT_KEY_DOWN||k==GLUT_KEY_RIGHT||k==GLUT_KEY_LEFT) lastPress=win.clock; evt("press special %d",k); view::call([&]{ win.special(k,X,Y); }); healed(); }
void releaseS(int k){ special.erase(k); evt("release special %d",k); view::call([&]{ win.specialUp(k,X,Y); }); }
Look capture(){ Look l; std::function<void(Picture&)> old=view::shown; view::shown=[&](Picture& p){ for(int k=0;k<3;k++){ l.at[k]=p.look[3+k]; l.v[k]=p.look[k]-p.look[3+k]; } l.d=std::sqrt(l.v[0]*l.v[0]+l.v[1]*l.v[1]+l.v[2]*l.v[2]); l.ok=true; picture(p); }; draw(); view::shown=old; return l; }
double dist3(const double* a,const double* b){ return std::sqrt((a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); }
void drag(){
    Look a=capture(); int b=T.choose(5); double dx=0,dy=0;
    evt("drag %d",b); dragging=true; view::call([&]{ win.mouse(b,GLUT_DOWN,X,Y); });
    if(b<3) for(int k=T.choose(4);k>0;k--){ int mx=(int)T.choose(120)-60,my=(int)T.choose(120)-60; X+=mx; Y+=my; dx+=mx; dy+=my; view::call([&]{ win.motion(X,Y); }); if(T.choose(3)==2) later(T.choose(30),6); }
    else dy=b==3?-5:5;
    view::call([&]{ win.mouse(b,GLUT_UP,X,Y); });
    Look c=capture(); dragging=false; if(!camOn) return; if(!(a.d>1e-3&&a.d<1e5)) return;
    double tol=2e-3*a.d+2e-6*(std::fabs(a.at[0])+std::fabs(a.at[1])+std::fabs(a.at[2])); 
    double ph0=std::asin(std::max(-1.,std::min(1.,a.v[1]/a.d))); (void)ph0;
    if(b==0){ if(dist3(a.at,c.at)>tol) fail("camera","turning moves what is looked at"); if(std::fabs(a.d-c.d)>tol) fail("camera","turning changes the distance");
        // azimuth and height: known at the start and carried along
        cam[0]+=-dx*M_PI/180; cam[1]+=dy*M_PI/180; }
    else if(b==1){ for(int k=0;k<3;k++) if(std::fabs(a.v[k]-c.v[k])>tol) fail("camera","panning turns the view"); double at=std::fabs(a.at[0])+std::fabs(a.at[1])+std::fabs(a.at[2]); // what is looked at moves so that the scene follows the mouse
        double up[3]={-std::sin(cam[0])*std::sin(cam[1]),std::cos(cam[1]),-std::cos(cam[0])*std::sin(cam[1])},right[3]={std::cos(cam[0]),0,-std::sin(cam[0])},s=a.d*.001;
        for(int k=0;k<3;k++){ double w=a.at[k]-right[k]*s*dx+up[k]*s*dy; if(std::fabs(w-c.at[k])>tol+at*1e-5+s*(std::fabs(dx)+std::fabs(dy))*.01) fail("camera",strf("panning by %g %g pixels moves component %d of what is looked at from %g to %g and not %g",dx,dy,k,a.at[k],c.at[k],w)); } }
    else{ if(dist3(a.at,c.at)>tol) fail("camera","zooming moves what is looked at"); for(int k=0;k<3;k++) if(std::fabs(a.v[k]/a.d-c.v[k]/c.d)>5e-3+tol/c.d) fail("camera","zooming turns the view"); double w=a.d*std::exp(dy*.01); if(std::fabs(c.d-w)>5e-3*w+tol) fail("camera",strf("zooming by %g pixels from %g to %g",dy,a.d,c.d)); }
    double e[3]={c.d*std::sin(cam[0])*std::cos(cam[1]),c.d*std::sin(cam[1]),c.d*std::cos(cam[0])*std::cos(cam[1])};
    if(dist3(e,c.v)>5e-3*c.d+tol) fail("camera","the view is not turned by one degree for each pixel");
    // without a button nothing moves
    if(T.choose(4)==3){ X+=10; Y+=10; view::call([&]{ win.motion(X,Y); }); Look q=capture(); if(dist3(q.at,c.at)>tol||dist3(q.v,c.v)>tol) fail("camera","the camera moves after the button is up"); }
}
void hold(){ // one key, long enough to repeat
    bool sp=T.choose(2); static const int NK[]={'=','-','z','Z'},SK[]={GLUT_KEY_UP,GLUT_KEY_DOWN,GLUT_KEY_RIGHT,GLUT_KEY_LEFT}; int i=T.choose(4); int k=sp?SK[i]:NK[i];
    sp?pressS(k):press(k); Look l=capture(); Range p0=ps,f0=fv,b0=br; auto c0=cand; later(230+T.choose(400),200); capture();
    bool moved=true; long d=(k=='='||k=='Z'||k==GLUT_KEY_UP)?1:-1; bool pts=F_[cand[0].f].pos; bool grey=pts&&!(useC&&F_[cand[0].f].col);
    if(win.clock-lastPress<300) moved=true;
    else if(k=='='||k=='-') moved=!pts||ps.lo!=p0.lo||(d<0&&p0.lo<=PSMIN); else if(k=='z'||k=='Z') moved=fv.lo!=f0.lo||(d<0?f0.lo<=FVMIN:f0.lo>=FVMAX);
    else if(k==GLUT_KEY_UP||k==GLUT_KEY_DOWN) moved=!grey||br.lo!=br.hi||b0.lo!=b0.hi||br.lo!=b0.lo||std::labs(b0.lo)>=BRMAX-2;
    else if(numbered&&!faulty&&c0.size()==1){ int dir=k==GLUT_KEY_RIGHT?1:-1; auto s=step(c0[0],dir); if(s.size()&&!s[0].err){ moved=false; for(auto& c:cand) moved|=c.f!=c0[0].f; } }
    if(!moved) fail("repeat",strf("holding key %d for %llu ms does nothing more",k,(unsigned long long)(win.clock-lastPress)));
    sp?releaseS(k):release(k);
}
void tap(){
    static const int NK[]={'=','-','c','a','z','Z','x',27}; static const int SK[]={GLUT_KEY_RIGHT,GLUT_KEY_LEFT,GLUT_KEY_UP,GLUT_KEY_DOWN,GLUT_KEY_F1};
    if(T.choose(5)<2){ int k=NK[T.choose(8)]; press(k); later(T.choose(150),20); release(k); } else { int k=SK[T.pick({6,6,3,3,1})]; pressS(k); later(T.choose(150),20); releaseS(k); }
    later(T.choose(40),20);
}
void chord(){ // several keys at once
    static const int NK[]={'=','-','c','a','z','Z'}; static const int SK[]={GLUT_KEY_RIGHT,GLUT_KEY_LEFT,GLUT_KEY_UP,GLUT_KEY_DOWN};
    for(int k=2+T.choose(4);k>0;k--){ bool sp=T.choose(2); int key=sp?SK[T.choose(4)]:NK[T.choose(6)]; bool down=sp?special.count(key):normal.count(key); if(down){ sp?releaseS(key):release(key); } else { sp?pressS(key):press(key); } later(T.choose(260),30); }
    while(!normal.empty()) release(*normal.begin()); while(!special.empty()) releaseS(*special.begin());
}
void cycle(){ bool f=faulty; faulty=false; for(int k:{GLUT_KEY_RIGHT,GLUT_KEY_LEFT,GLUT_KEY_LEFT,GLUT_KEY_RIGHT}){ pressS(k); later(20,4); releaseS(k); later(400,60); draw(); } faulty=f; }
void user(){
    cam[0]=.8f; cam[1]=.3f; if(!win.made||!win.display) fail("drawing","no window");
    later(T.choose(300),30); if(!pics){ if(win.posted||true) draw(); }
    int acts=1+T.choose(10);
    for(int i=0;i<acts;i++){
        switch(T.pick({10,3,3,2,2,1})){
            case 0: tap(); break; case 1: hold(); break; case 2: drag(); break; case 3: chord(); break;
            case 4: for(int k=1+T.choose(3);k>0;k--) draw(); break; // uncovered by another window
            default: win.w=100+T.choose(1500); win.h=100+T.choose(1000); if(win.reshape) view::call([&]{ win.reshape(win.w,win.h); }); win.posted=true;
        }
        later(T.choose(2)*T.choose(400),40);
    }
    later(1000,400); if(!win.timers.empty()) fail("rest",strf("%zu timers still run a second after the last key",win.timers.size()));
    draw(); { // the last key presses must show
        Look l=capture(); (void)l; }
    if(disk::openHandles()) fail("handles","a file is left open");
    if(T.choose(2)){ cycle(); cycle(); long n0=mem::liveCount(); cycle(); cycle(); cycle(); long n1=mem::liveCount(); if(n1>n0) fail("leak",strf("%ld more blocks after stepping forth and back: ",n1-n0)+mem::describeLive()); }
}
}
static void runC24(){
    beginRun(); view::reset(); F_.clear(); pics=0; firstFit=true; camOn=true; camKnown=dragging=false; planned=false; lastPress=0; normal.clear(); special.clear(); useC=useA=true; ps=fv=br=Range{0,0};
    // the sequence
    static const char* dirs[]={"/sim/","","/sim/d.ir/","/sim/shot.0002/","/sim/7/","./"}; static const char* stems[]={"shot","s.1","x.0001","10","a b","shot"};
    std::string dir=dirs[T.choose(6)],stem=stems[T.choose(6)]; int kind=T.pick({6,4,2,2,2}); // padded, unpadded, pdc, mc, one file
    static const int PADF[]={BGEO,PDB_,PDB32,PDB64,GEO,PDA,PRT,BHCLASSIC,PTC}; int fmt=kind==2?PDC:kind==3?MC:PADF[T.pick({8,2,3,1,1,1,1,1,1})]; if(!fmtReadable(fmt)||(!fmtWritable(fmt)&&fmt!=MC)) fmt=BGEO;
    numbered=kind!=4; static const int bases[]={1,2,9,10,98,99,998,1000,0,9998}; int base=bases[T.choose(10)],width=kind==0?3+T.choose(3):0; int nf=1+T.choose(5); if(!numbered) nf=1;
    static const char* single[]={"single.bgeo","0003.bgeo","x.abc.bgeo","a.0001.bgeo.gz","noframe.mc","a..pdb","x.12.bgeo/../y.bgeo"}; std::string sn=single[T.choose(6)];
    auto nameOf=[&](int no){ if(kind==4) return dir+sn; if(kind==2) return dir+stem+strf(".%d.pdc",no*250); if(kind==3) return dir+std::string(stem=="shot"?"shot":"nParticleShape1")+strf("Frame%d.mc",no); return dir+stem+(width?strf(".%0*d.",width,no):strf(".%d.",no))+FMT_NAME[fmt]; };
    int connKind=T.pick({5,2,3}); // none, one file for all frames, one each
    bool bad=T.choose(3)==2; faulty=T.choose(4)==3;
    auto putConn=[&](const std::string& path,int n,std::vector<uint32_t>& ends)->int{
        int q=T.pick({8,1,1,1,1}); if(q==1&&connKind==2) return Frame::MISSING; if(q==2){ disk::put(path,Bytes(20,'x')); return Frame::BAD; }
        Model c; c.n=T.choose(8); MAttr a,b; a.name="p1"; b.name="p2"; a.type=b.type=INT; a.count=b.count=1; if(q==3) b.name="p3"; if(q==4) a.type=FLOAT;
        for(int i=0;i<c.n;i++){ auto v=[&]{ int k=T.choose(8); return k==7?(uint32_t)-1:k==6?(uint32_t)n:k==5?(uint32_t)(n+1000):T.choose(n+1); }; uint32_t x=v(),y=v(); a.data.push_back(x); b.data.push_back(y); ends.push_back(x); ends.push_back(y); }
        if(T.choose(2)) std::swap(a,b); MAttr po; po.name="position"; po.type=VECTOR; po.count=3; po.data.assign(3*c.n,0); c.attrs={po,a,b};
        ParticlesDataMutable* s=makeAs(c,0,0); disk::heal(); doWrite(path,*s,false,"write connectivity"); doRelease(s);
        if(q>=3){ ends.clear(); return Frame::BAD; } return Frame::GOOD; };
    std::vector<uint32_t> sharedEnds; int sharedState=Frame::NONE; std::string shared=dir+"links.bgeo"; 
    for(int i=0;i<nf;i++){
        Frame f; f.number=base+i; f.path=nameOf(f.number); int q=bad&&nf>1?T.pick({4,1,1}):0; std::string rp=f.path.compare(0,2,"./")==0?f.path:f.path;
        if(q!=1){
            if(fmt==MC||(kind==4&&sn=="noframe.mc")){ Model want; Bytes b=encodeForeign(MC,want,20); disk::put(f.path,b); }
            else { Model m=content(); ParticlesDataMutable* s=makeAs(m,0,0); disk::heal(); doWrite(f.path,*s,false,"write frame"); doRelease(s); }
            if(q==2&&disk::exists(f.path)){ Bytes b=disk::get(f.path); b.resize(T.choose(b.size()+1)); disk::put(f.path,b); count(F_TRUNC); }
            f.exists=disk::exists(f.path);
            if(f.exists){ ReadRes r=doRead(f.path,"read frame",false); if(r.oc==DONE&&r.p){ f.m=extract(*r.p); doRelease(r.p); f.good=true; } }
        } else count(F_MISSING);
        if(connKind==2&&numbered&&kind!=3&&kind!=4){ f.conn=dir+"links"+f.path.substr((dir+stem).size()); f.conn=f.conn.substr(0,f.conn.rfind('.'))+".bgeo"; f.connState=(decltype(f.connState))putConn(f.conn,f.m.n,f.ends); }
        F_.push_back(f);
    }
    if(connKind==1){ sharedState=putConn(shared,F_[0].m.n,sharedEnds); for(auto& f:F_){ f.conn=shared; f.connState=(decltype(f.connState))sharedState; f.ends=sharedEnds; } }
    for(auto& f:F_) understand(f);
    first=T.choose(nf); Frame& s=F_[first]; disk::heal();
    note(strf("%d frames %s, shown first %s%s%s",nf,FMT_NAME[fmt],s.path.c_str(),s.conn.empty()?"":" with ",s.conn.c_str()));
    std::vector<std::string> args={"partview",s.path}; if(!s.conn.empty()) args.push_back(s.conn);
    int usage=T.chance(1,40)?1+T.choose(2):0; if(usage==1) args.resize(1); else if(usage==2){ args.resize(2); args.push_back("a"); args.push_back("b"); }
    bool ok=!usage&&s.exists&&s.good; std::vector<Cand> start; Cand c0; c0.f=first; c0.err=false; c0.links=s.connState==Frame::GOOD?first:-1; cand={c0};
    view::session=user; view::shown=picture;
    std::vector<char*> av; for(auto& a:args) av.push_back(&a[0]); av.push_back(nullptr);
    std::ostringstream o,e; std::streambuf *co=std::cout.rdbuf(o.rdbuf()),*ce=std::cerr.rdbuf(e.rdbuf()); count(C_TOOLRUNS); int rc=-1; patterns();
    Outcome oc=api("partview",[&]{ rc=partview_main((int)args.size(),av.data()); });
    std::cout.rdbuf(co); std::cerr.rdbuf(ce);
    if(oc!=DONE) fail("exception",oc==NOMEM?"the viewer ends with an out of memory exception":"the viewer ends with an uncaught exception: "+lastExc);
    evt("exit %d pictures=%llu",rc,(unsigned long long)pics); 
    if(ok){ if(rc!=0) fail("status",strf("exit status %d for a readable file: ",rc)+e.str().substr(0,200)); if(!pics) fail("drawing","no picture"); }
    else { if(rc==0) fail("status",usage?"exit status 0 for wrong arguments":"exit status 0 for a file that cannot be read"); if(pics) fail("drawing","pictures without particles"); if(e.str().empty()) fail("status","no message"); }
}
void addViewProps(){ PROPERTIES.push_back({"C24",runC24}); }
