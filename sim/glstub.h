// A window system that is the simulator: what partview draws is recorded, its
// callbacks are called by the simulated user and clock.
#pragma once
#include "sim.h"
#include <functional>
#define GL_GLEXT_PROTOTYPES
#include <GL/glut.h>
namespace view {
struct Vert { float p[3],c[4]; int comps; };        // comps: 3 or 4 colour components given, 0: the current colour
struct Picture {
    std::vector<Vert> points; std::vector<Vert> lines; std::vector<std::string> texts;
    bool cleared=false,depthCleared=false,blend=false; double pointSize=1,fov=0,aspect=0; double look[9]; bool looked=false; std::string trouble;
};
struct Timer { uint64_t due,seq; void (*f)(int); int v; };
struct Window {
    bool made=false,posted=false; int w=640,h=480; uint64_t clock=0,seq=0; int mod=0;
    void (*display)()=nullptr; void (*motion)(int,int)=nullptr; void (*mouse)(int,int,int,int)=nullptr;
    void (*key)(unsigned char,int,int)=nullptr; void (*keyUp)(unsigned char,int,int)=nullptr; void (*special)(int,int,int)=nullptr; void (*specialUp)(int,int,int)=nullptr;
    void (*idle)()=nullptr; void (*reshape)(int,int)=nullptr;
    std::vector<Timer> timers; Picture pic; uint64_t pictures=0;
};
extern Window win;
extern std::function<void()> session;               // what happens inside glutMainLoop
extern std::function<void(Picture&)> shown;         // called for each picture presented
void reset();
struct Mine { bool old; Mine():old(mem::tracking){mem::tracking=false;} ~Mine(){mem::tracking=old;} }; // inside the window system
void call(const std::function<void()>& f);          // call back into the program
}
