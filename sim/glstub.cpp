#include "glstub.h"
#include <cmath>
#include <cstring>
using std::string;
namespace view {
Window win; std::function<void()> session; std::function<void(Picture&)> shown;
static float cur[4]; static bool inBegin; static GLenum prim; static std::vector<Vert> run; static float ras[3]; static string text;
struct Arr { bool on=false; GLint size=4; GLenum type=GL_FLOAT; GLsizei stride=0; const void* p=nullptr; };
static Arr va,ca; static std::vector<string> stack[3]; static int mode; static bool blendOn; static double ptSize;
void reset(){ win=Window(); cur[0]=cur[1]=cur[2]=cur[3]=1; inBegin=false; prim=0; run.clear(); text.clear(); va=Arr(); ca=Arr(); mode=0; blendOn=false; ptSize=1; for(auto& s:stack) s.assign(1,""); }
void call(const std::function<void()>& f){ bool o=mem::tracking; edgeCount=0; mem::tracking=true; f(); mem::tracking=o; SH->ticks+=edgeCount; }
static void trouble(const char* s){ if(win.pic.trouble.empty()) win.pic.trouble=s; }
static void endText(){ if(!text.empty()) win.pic.texts.push_back(text); text.clear(); }
static bool scene(){ return stack[1].back()=="persp"&&stack[0].back()=="look"; }
static void vertex(float x,float y,float z){ Vert v; v.p[0]=x; v.p[1]=y; v.p[2]=z; memcpy(v.c,cur,16); v.comps=0; if(!inBegin){ trouble("a vertex outside glBegin and glEnd"); return; } run.push_back(v); }
static void colour(float r,float g,float b,float a){ cur[0]=r; cur[1]=g; cur[2]=b; cur[3]=a; }
static float comp(const Arr& a,int i,int k){
    int es=a.type==GL_DOUBLE?8:a.type==GL_UNSIGNED_BYTE?1:4; size_t st=a.stride?a.stride:es*a.size; const char* q=(const char*)a.p+(size_t)i*st+k*es;
    if(a.type==GL_DOUBLE) return (float)*(const double*)q; if(a.type==GL_UNSIGNED_BYTE) return *(const unsigned char*)q/255.f; if(a.type==GL_INT) return *(const int*)q; return *(const float*)q;
}
static Vert element(int i){
    Vert v; memset(&v,0,sizeof v); for(int k=0;k<va.size&&k<3;k++) v.p[k]=comp(va,i,k);
    memcpy(v.c,cur,16); v.comps=0; if(ca.on){ v.c[3]=1; v.comps=ca.size; for(int k=0;k<ca.size&&k<4;k++) v.c[k]=comp(ca,i,k); }
    return v;
}
static void flush(GLenum m,std::vector<Vert>& r){
    if(r.empty()) return;
    if(m==GL_POINTS){ if(!scene()) trouble("points outside the scene's projection and view"); for(auto& v:r) win.pic.points.push_back(v); win.pic.pointSize=ptSize; win.pic.blend=blendOn; }
    else if(m==GL_LINES){ if(!scene()) trouble("lines outside the scene's projection and view"); for(size_t i=0;i+1<r.size();i+=2){ win.pic.lines.push_back(r[i]); win.pic.lines.push_back(r[i+1]); } }
    else if(m==GL_LINE_STRIP||m==GL_LINE_LOOP){ if(!scene()) trouble("lines outside the scene's projection and view"); for(size_t i=0;i+1<r.size();i++){ win.pic.lines.push_back(r[i]); win.pic.lines.push_back(r[i+1]); } }
    r.clear();
}
static int stk(){ return mode==GL_PROJECTION?1:mode==GL_TEXTURE?2:0; }
}
using namespace view;
extern "C" {
void *glutStrokeRoman,*glutStrokeMonoRoman,*glutBitmap9By15,*glutBitmap8By13,*glutBitmapTimesRoman10,*glutBitmapTimesRoman24,*glutBitmapHelvetica10,*glutBitmapHelvetica12,*glutBitmapHelvetica18;
// ---- gl
void glMatrixMode(GLenum m){ mode=m; }
void glPushMatrix(){ Mine M; auto& s=stack[stk()]; s.push_back(s.back()); if(s.size()>(mode==GL_PROJECTION?2u:32u)) trouble("matrix stack overflow"); }
void glPopMatrix(){ Mine M; auto& s=stack[stk()]; if(s.size()<2) trouble("matrix stack underflow"); else s.pop_back(); }
void glLoadIdentity(){ Mine M; stack[stk()].back()=""; }
void gluOrtho2D(GLdouble,GLdouble,GLdouble,GLdouble){ Mine M; stack[stk()].back()="ortho"; }
void glOrtho(GLdouble,GLdouble,GLdouble,GLdouble,GLdouble,GLdouble){ Mine M; stack[stk()].back()="ortho"; }
void gluPerspective(GLdouble f,GLdouble a,GLdouble,GLdouble){ Mine M; stack[stk()].back()=stack[stk()].back().empty()?"persp":"?"; win.pic.fov=f; win.pic.aspect=a; }
void gluLookAt(GLdouble a,GLdouble b,GLdouble c,GLdouble d,GLdouble e,GLdouble f,GLdouble g,GLdouble h,GLdouble i){ Mine M; stack[stk()].back()=stack[stk()].back().empty()?"look":"?"; double v[9]={a,b,c,d,e,f,g,h,i}; memcpy(win.pic.look,v,sizeof v); win.pic.looked=true; }
void glRasterPos2f(GLfloat x,GLfloat y){ Mine M; endText(); } void glRasterPos2i(GLint,GLint){ Mine M; endText(); }
void glRasterPos3f(GLfloat x,GLfloat y,GLfloat z){ Mine M; endText(); } void glRasterPos3d(GLdouble,GLdouble,GLdouble){ Mine M; endText(); } void glRasterPos2d(GLdouble,GLdouble){ Mine M; endText(); } void glRasterPos3fv(const GLfloat*){ Mine M; endText(); } void glRasterPos2fv(const GLfloat*){ Mine M; endText(); }
void glutBitmapCharacter(void*,int c){ Mine M; text+=(char)c; } void glutStrokeCharacter(void*,int c){ Mine M; text+=(char)c; } void glutBitmapString(void*,const unsigned char* s){ Mine M; text+=(const char*)s; }
int glutBitmapWidth(void*,int){ return 10; } int glutBitmapLength(void*,const unsigned char* s){ return 10*strlen((const char*)s); }
void glEnable(GLenum c){ if(c==GL_BLEND) blendOn=true; } void glDisable(GLenum c){ if(c==GL_BLEND) blendOn=false; } GLboolean glIsEnabled(GLenum c){ return c==GL_BLEND&&blendOn; }
void glPointSize(GLfloat s){ ptSize=s; } void glLineWidth(GLfloat){} void glBlendFunc(GLenum,GLenum){} void glDepthFunc(GLenum){} void glDepthMask(GLboolean){} void glShadeModel(GLenum){} void glHint(GLenum,GLenum){} void glViewport(GLint,GLint,GLsizei,GLsizei){} void glFlush(){} void glFinish(){} GLenum glGetError(){ return 0; }
void glEnableClientState(GLenum a){ if(a==GL_VERTEX_ARRAY) va.on=true; if(a==GL_COLOR_ARRAY) ca.on=true; }
void glDisableClientState(GLenum a){ if(a==GL_VERTEX_ARRAY) va.on=false; if(a==GL_COLOR_ARRAY) ca.on=false; }
void glClearColor(GLclampf,GLclampf,GLclampf,GLclampf){}
void glClear(GLbitfield b){ Mine M; if(b&GL_COLOR_BUFFER_BIT){ win.pic.points.clear(); win.pic.lines.clear(); win.pic.texts.clear(); win.pic.cleared=true; } if(b&GL_DEPTH_BUFFER_BIT) win.pic.depthCleared=true; }
void glBegin(GLenum m){ Mine M; if(inBegin) trouble("glBegin inside glBegin"); inBegin=true; prim=m; run.clear(); }
void glEnd(){ Mine M; inBegin=false; flush(prim,run); }
void glVertex2f(GLfloat x,GLfloat y){ Mine M; vertex(x,y,0); } void glVertex3f(GLfloat x,GLfloat y,GLfloat z){ Mine M; vertex(x,y,z); } void glVertex3d(GLdouble x,GLdouble y,GLdouble z){ Mine M; vertex(x,y,z); } void glVertex3i(GLint x,GLint y,GLint z){ Mine M; vertex(x,y,z); }
void glVertex3fv(const GLfloat* p){ Mine M; float x=p[0],y=p[1],z=p[2]; vertex(x,y,z); } void glVertex3dv(const GLdouble* p){ Mine M; vertex(p[0],p[1],p[2]); }
void glColor3f(GLfloat r,GLfloat g,GLfloat b){ colour(r,g,b,1); } void glColor4f(GLfloat r,GLfloat g,GLfloat b,GLfloat a){ colour(r,g,b,a); } void glColor3d(GLdouble r,GLdouble g,GLdouble b){ colour(r,g,b,1); } void glColor4d(GLdouble r,GLdouble g,GLdouble b,GLdouble a){ colour(r,g,b,a); }
void glColor3fv(const GLfloat* p){ colour(p[0],p[1],p[2],1); } void glColor4fv(const GLfloat* p){ colour(p[0],p[1],p[2],p[3]); } void glColor3ub(GLubyte r,GLubyte g,GLubyte b){ colour(r/255.f,g/255.f,b/255.f,1); }
void glVertexPointer(GLint n,GLenum t,GLsizei s,const GLvoid* p){ va.size=n; va.type=t; va.stride=s; va.p=p; }
void glColorPointer(GLint n,GLenum t,GLsizei s,const GLvoid* p){ ca.size=n; ca.type=t; ca.stride=s; ca.p=p; }
void glDrawArrays(GLenum m,GLint first,GLsizei n){
    Mine M; if(n<=0||!va.on) return; std::vector<Vert> r; r.reserve(n); bool col=ca.on; if(!va.p||(col&&!ca.p)){ trouble("points drawn from no array"); return; }
    for(int i=0;i<n;i++) r.push_back(element(first+i)); flush(m,r);
}
void glDrawElements(GLenum m,GLsizei n,GLenum t,const GLvoid* ix){ Mine M; std::vector<Vert> r; if(!va.on) return; for(int i=0;i<n;i++) r.push_back(element(t==GL_UNSIGNED_INT?((const GLuint*)ix)[i]:t==GL_UNSIGNED_SHORT?((const GLushort*)ix)[i]:((const GLubyte*)ix)[i])); flush(m,r); }
void glArrayElement(GLint i){ Mine M; if(!inBegin){ trouble("a vertex outside glBegin and glEnd"); return; } run.push_back(element(i)); }
void glPushAttrib(GLbitfield){} void glPopAttrib(){}
void glTranslatef(GLfloat,GLfloat,GLfloat){} void glScalef(GLfloat,GLfloat,GLfloat){} void glRotatef(GLfloat,GLfloat,GLfloat,GLfloat){}
// ---- glut
void glutInit(int*,char**){} void glutInitWindowSize(int w,int h){ win.w=w; win.h=h; } void glutInitWindowPosition(int,int){} void glutInitDisplayMode(unsigned){} void glutIgnoreKeyRepeat(int){} void glutSetKeyRepeat(int){}
int glutCreateWindow(const char*){ win.made=true; win.posted=true; return 1; } void glutDestroyWindow(int){ win.made=false; } int glutGetWindow(){ return win.made?1:0; } void glutSetWindow(int){} void glutSetWindowTitle(const char*){}
int glutGet(GLenum q){ return q==GLUT_WINDOW_WIDTH?win.w:q==GLUT_WINDOW_HEIGHT?win.h:q==GLUT_ELAPSED_TIME?(int)win.clock:0; }
int glutGetModifiers(){ return win.mod; }
void glutPostRedisplay(){ win.posted=true; } void glutPostWindowRedisplay(int){ win.posted=true; }
void glutSwapBuffers(){ Mine M; endText(); win.pictures++;
    if(stack[1].size()!=1||stack[0].size()!=1) trouble("the matrix stacks grow with every picture");
    if(inBegin) trouble("glEnd is missing");
    Picture p=win.pic; win.pic=Picture(); if(shown) shown(p); }
void glutTimerFunc(unsigned ms,void (*f)(int),int v){ Mine M; win.timers.push_back(Timer{win.clock+ms,win.seq++,f,v}); }
void glutDisplayFunc(void (*f)()){ win.display=f; } void glutMotionFunc(void (*f)(int,int)){ win.motion=f; } void glutPassiveMotionFunc(void (*f)(int,int)){} void glutMouseFunc(void (*f)(int,int,int,int)){ win.mouse=f; }
void glutKeyboardFunc(void (*f)(unsigned char,int,int)){ win.key=f; } void glutKeyboardUpFunc(void (*f)(unsigned char,int,int)){ win.keyUp=f; } void glutSpecialFunc(void (*f)(int,int,int)){ win.special=f; } void glutSpecialUpFunc(void (*f)(int,int,int)){ win.specialUp=f; }
void glutIdleFunc(void (*f)()){ win.idle=f; } void glutReshapeFunc(void (*f)(int,int)){ win.reshape=f; } void glutMouseWheelFunc(void (*f)(int,int,int,int)){} void glutCloseFunc(void (*f)()){} void glutEntryFunc(void (*f)(int)){} void glutVisibilityFunc(void (*f)(int)){}
void glutLeaveMainLoop(){} void glutMainLoopEvent(){} void glutSetOption(GLenum,int){}
void glutMainLoop(){ Mine M; if(session) session(); }
}
