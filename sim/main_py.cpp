// Python simulator: the interpreter, the module swig makes of src/py/partio.i
// and src/tools/partjson.py run in the simulated process; the scenarios are in
// pysim.py, which draws every decision from the tape through the module _sim.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "common.h"
using namespace Partio;
std::vector<Property> PROPERTIES;
extern "C" PyObject* PyInit__partio(void);
void violationFromPython(const std::string& c,const std::string& m){ violation(c,m); }
static std::vector<Model> models;         // by number, for one run
static ApiScope* scope=nullptr;
static PyObject* scenario=nullptr;

struct Off { bool t; Off():t(mem::tracking){mem::tracking=false;} ~Off(){mem::tracking=t;} }; // harness code is not the library
static PyObject* str(const std::string& s){ return PyUnicode_DecodeUTF8(s.data(),s.size(),"surrogateescape"); }
static PyObject* values(const MAttr& a){
    PyObject* l=PyList_New(a.data.size());
    for(size_t i=0;i<a.data.size();i++) PyList_SET_ITEM(l,i,a.type==INT||a.type==INDEXEDSTR?PyLong_FromLong((int)a.data[i]):PyFloat_FromDouble(bitsf(a.data[i])));
    return l;
}
static PyObject* attrs(const std::vector<MAttr>& v){
    PyObject* l=PyList_New(0);
    for(auto& a:v){
        PyObject* s=PyList_New(0); for(auto& x:a.strs){ PyObject* o=str(x); PyList_Append(s,o); Py_DECREF(o); }
        PyObject* t=Py_BuildValue("(NiiNN)",str(a.name),a.type,a.count,values(a),s); PyList_Append(l,t); Py_DECREF(t);
    }
    return l;
}
static PyObject* wrapModel(const Model& m){
    models.push_back(m);
    return Py_BuildValue("{s:i,s:i,s:N,s:N}","id",(int)models.size()-1,"n",m.n,"attrs",attrs(m.attrs),"fixed",attrs(m.fixed));
}
// texts are UTF-8 in python; one kind of NaN, as conversions between float and double change them
static std::string utf8(const std::string& s){ std::string o; for(unsigned char c:s) if(c<0x80) o+=(char)c; else { o+=(char)(0xc0|(c>>6)); o+=(char)(0x80|(c&0x3f)); } return o; }
static Model cleaned(Model m,bool texts=false){
    auto f=[&](std::vector<MAttr>& v){ for(auto& a:v){ if(texts){ a.name=utf8(a.name); for(auto& s:a.strs) s=utf8(s); }
        if(a.type==FLOAT||a.type==VECTOR) for(auto& u:a.data) if((u&0x7f800000)==0x7f800000&&(u&0x7fffff)) u=0x7fc00000; } };
    f(m.attrs); f(m.fixed); return m;
}
static ParticlesDataMutable* P(unsigned long long p){ return (ParticlesDataMutable*)(uintptr_t)p; }

#define FN(name) static PyObject* name(PyObject*,PyObject* args)
#define ARGS(...) do{ if(!PyArg_ParseTuple(args,__VA_ARGS__)){ PyErr_Print(); harnessError("bad arguments to _sim"); } }while(0)
FN(f_choose){ unsigned n; ARGS("I",&n); Off o; return PyLong_FromUnsignedLong(T.choose(n)); }
FN(f_bits){ (void)args; Off o; return PyLong_FromUnsignedLong(T.bits()); }
FN(f_float){ (void)args; Off o; uint32_t u=genFloat(1); return PyFloat_FromDouble(bitsf(u)); }
FN(f_evt){ const char* s; ARGS("s",&s); Off o; evt("%s",s); Py_RETURN_NONE; }
FN(f_note){ const char* s; ARGS("s",&s); Off o; note(s); Py_RETURN_NONE; }
FN(f_violation){ const char *c,*m; ARGS("ss",&c,&m); Off o; violation(c,m); }
FN(f_harness){ const char *m; ARGS("s",&m); Off o; harnessError(m); }
FN(f_enter){ const char* s; ARGS("s",&s); if(scope) harnessError("enter inside enter"); scope=new ApiScope(s); disk::active=true; Py_RETURN_NONE; }
FN(f_leave){ (void)args; mem::tracking=false; delete scope; scope=nullptr; mem::tracking=false; Py_RETURN_NONE; }
FN(f_gen){ int fmt,n; ARGS("ii",&fmt,&n); Off o; count(C_FMT0+fmt); return wrapModel(cleaned(genModel(fmt,n),true)); }
FN(f_describe){ int id; ARGS("i",&id); Off o; return str(utf8(describe(models.at(id)))); }
FN(f_expect){ int fmt,id; ARGS("ii",&fmt,&id); Off o; return wrapModel(expectRoundTrip(fmt,models.at(id))); }
FN(f_distinct){ int id; ARGS("i",&id); Off o; return wrapModel(distinctStrs(models.at(id))); }
FN(f_model){ unsigned long long p; ARGS("K",&p); Off o; return wrapModel(cleaned(extract(*P(p)))); }
FN(f_compare){ int id,flags; unsigned long long p; ARGS("iKi",&id,&p,&flags); Off o; SimIO io; return str(utf8(compare(models.at(id),cleaned(extract(*P(p))),flags))); }
FN(f_same){ int a,b,flags; ARGS("iii",&a,&b,&flags); Off o; return str(utf8(compare(models.at(a),models.at(b),flags))); }
// a file from an independent encoder or the library, and what the library itself reads in it
FN(f_sample){ int n; ARGS("i",&n); Off o; Sample s=makeSample(drawReadable(),n); disk::heal();
    ReadRes r=doRead(s.path,"read (from C++)"); PyObject* m=Py_None; Py_INCREF(m);
    if(r.oc==DONE&&r.p){ Py_DECREF(m); m=wrapModel(cleaned(extract(*r.p))); doRelease(r.p); }
    return Py_BuildValue("{s:N,s:s,s:N,s:O}","path",str(s.path),"fmt",FMT_NAME[s.fmt],"model",m,"gz",s.gz?Py_True:Py_False); }
FN(f_writeref){ int id,gz; const char* path; ARGS("isi",&id,&path,&gz); Off o; ParticlesDataMutable* p=makeAs(models.at(id),0,0); disk::heal(); std::string e=doWrite(path,*p,gz,"write (from C++)"); doRelease(p); return str(utf8(e)); }
FN(f_damage){ const char* path; ARGS("s",&path); Off o; Bytes b=disk::get(path); mutate(b); disk::put(path,b); Py_RETURN_NONE; }
FN(f_get){ const char* path; ARGS("s",&path); Off o; if(!disk::exists(path)) Py_RETURN_NONE; const Bytes& b=disk::get(path); return PyBytes_FromStringAndSize((const char*)b.data(),b.size()); }
FN(f_put){ const char *path,*d; Py_ssize_t n; ARGS("sy#",&path,&d,&n); Off o; disk::put(path,Bytes(d,d+n)); Py_RETURN_NONE; }
FN(f_remove){ const char* path; ARGS("s",&path); Off o; disk::remove(path); Py_RETURN_NONE; }
FN(f_files){ (void)args; Off o; PyObject* l=PyList_New(0); for(auto& x:disk::snapshot()){ PyObject* s=str(x.first); PyList_Append(l,s); Py_DECREF(s);} return l; }
FN(f_heal){ (void)args; Off o; disk::heal(); patterns(); Py_RETURN_NONE; }
FN(f_slow){ int r,w; ARGS("ii",&r,&w); Off o; disk::plan(slowIO(r,w)); patterns(); Py_RETURN_NONE; }
FN(f_fault){ const char* k; long at; ARGS("sl",&k,&at); Off o; FaultPlan f; std::string s=k; patterns();
    if(s=="eioread") f.eioReadAt=at; else if(s=="eofread") f.eofReadAt=at; else if(s=="open"){ f.openFailAt=at; f.openErrno=13; f.openFailSticky=true; } else if(s=="full") f.capacity=at; else if(s=="eiowrite") f.eioWriteAt=at; else if(s=="close") f.closeFailAt=at; else harnessError("fault "+s);
    disk::plan(f); evt("fault %s %ld",k,at); Py_RETURN_NONE; }
FN(f_handles){ (void)args; return PyLong_FromLong(disk::openHandles()); }
FN(f_live){ (void)args; return Py_BuildValue("(lLs)",mem::liveCount(),mem::liveBytes(),mem::describeLive().c_str()); }
FN(f_limit){ long long c; ARGS("L",&c); mem::cap=(size_t)c; mem::totalCap=(size_t)c*2; Py_RETURN_NONE; }
FN(f_forget){ (void)args; mem::forget(); Py_RETURN_NONE; }
FN(f_allocs){ (void)args; return PyLong_FromLong(mem::allocs); }
FN(f_arm){ long n; int s; ARGS("li",&n,&s); Off o; patterns(); mem::arm(n,s); evt("allocation %ld fails%s",n,s?" and all later ones":""); Py_RETURN_NONE; }
FN(f_disarm){ (void)args; bool hit=mem::injected; mem::arm(-1,false); return PyBool_FromLong(hit); }
// what the library answers when C++ asks
FN(f_refPoints){ unsigned long long p; float a[3],b[3]; ARGS("K(fff)(fff)",&p,a,a+1,a+2,b,b+1,b+2); Off o; std::vector<ParticleIndex> v; P(p)->findPoints(a,b,v); PyObject* l=PyList_New(0); for(auto x:v){ PyObject* i=PyLong_FromUnsignedLongLong(x); PyList_Append(l,i); Py_DECREF(i);} return l; }
FN(f_refNPoints){ unsigned long long p; float c[3],r; int n; ARGS("K(fff)if",&p,c,c+1,c+2,&n,&r); Off o; std::vector<ParticleIndex> v; std::vector<float> d; P(p)->findNPoints(c,n,r,v,d); PyObject* l=PyList_New(0); for(size_t i=0;i<v.size();i++){ PyObject* t=Py_BuildValue("(Kd)",(unsigned long long)v[i],(double)d[i]); PyList_Append(l,t); Py_DECREF(t);} return l; }
static PyObject* taken(ParticlesDataMutable* q){ if(!q) Py_RETURN_NONE; PyObject* r=wrapModel(cleaned(extract(*q))); q->release(); return r; }
static bool nameMap(PyObject* d,std::map<std::string,std::string>& m){ if(d==Py_None) return false; PyObject *k,*v; Py_ssize_t i=0; while(PyDict_Next(d,&i,&k,&v)) m[PyUnicode_AsUTF8(k)]=PyUnicode_AsUTF8(v); return true; }
FN(f_refClone){ unsigned long long p; int parts; PyObject* d; ARGS("KiO",&p,&parts,&d); Off o; SimIO io; std::map<std::string,std::string> m; bool h=nameMap(d,m); return taken(parts<0?cloneSchema(*P(p),h?&m:nullptr):clone(*P(p),parts,h?&m:nullptr)); }
FN(f_refMerge){ unsigned long long a,b; const char *x,*y; ARGS("KKss",&a,&b,&x,&y); Off o; SimIO io; ParticlesDataMutable* q=clone(*P(a),true); merge(*q,*P(b),x,y); return taken(q); }
FN(f_refCluster){ unsigned long long p; int n,c; double s,i,d; ARGS("Kiddid",&p,&n,&s,&i,&c,&d); Off o; SimIO io; ParticlesDataMutable* q=clone(*P(p),true); if(!q) Py_RETURN_NONE; ParticlesDataMutable* r=computeClustering(q,n,s,i,c,d); q->release(); return taken(r); }
static PyMethodDef METH[]={
#define M(n) {#n,f_##n,METH_VARARGS,""}
    M(choose),M(bits),{"number",f_float,METH_VARARGS,""},M(evt),M(note),M(violation),M(harness),M(enter),M(leave),M(gen),M(describe),M(expect),M(distinct),M(model),M(compare),M(same),M(sample),M(writeref),M(damage),
    M(get),M(put),M(remove),M(files),M(heal),M(slow),M(fault),M(handles),M(live),M(limit),M(forget),M(allocs),M(arm),M(disarm),M(refPoints),M(refNPoints),M(refClone),M(refMerge),M(refCluster),{nullptr,nullptr,0,nullptr}};
static PyModuleDef MOD={PyModuleDef_HEAD_INIT,"_sim",nullptr,-1,METH,nullptr,nullptr,nullptr,nullptr};
static PyObject* initSim(){ return PyModule_Create(&MOD); }

static void runPy(const char* fn){
    beginRun(); disk::active=true; models.clear(); models.reserve(4096);
    PyObject* r=PyObject_CallMethod(scenario,fn,nullptr);
    if(!r){ mem::tracking=false; PyErr_Print(); fflush(stderr); harnessError(std::string("the scenario raised an exception in: ")+SH->phase); }
    Py_DECREF(r);
}
static void runC20(){ runPy("c20"); }
static void runC22(){ runPy("c22"); }
static void runC23(){ genSmallWide=true; runPy("c23"); }
static void fail(const char* what){ fprintf(stderr,"%s\n",what); if(PyErr_Occurred()) PyErr_Print(); exit(3); }
static void warm(){
    std::ostringstream e; { SimIO io; read("/none.bgeo",true,e); readHeaders("/none.geo",true,e); ParticlesDataMutable* p=create(); write("/warm.pda",*p,false,true,e); p->release(); disk::reset(); }
    PyImport_AppendInittab("_partio",PyInit__partio); PyImport_AppendInittab("_sim",initSim);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.use_hash_seed=1; c.hash_seed=0; c.write_bytecode=0; c.site_import=0; c.install_signal_handlers=0;
    PyConfig_SetString(&c,&c.program_name,L"/usr/bin/python3.12");
    PyStatus s=Py_InitializeFromConfig(&c); if(PyStatus_Exception(s)) fail(s.err_msg?s.err_msg:"python does not start"); PyConfig_Clear(&c);
    PyRun_SimpleString("import sys\nsys.path[:0]=['" SIMPY_DIR "']\n");
    scenario=PyImport_ImportModule("pysim"); if(!scenario) fail("pysim.py does not load");
    PyObject* r=PyObject_CallMethod(scenario,"warm",nullptr); if(!r) fail("warm"); Py_DECREF(r);
    disk::reset(); mem::forget();
}
int main(int argc,char** argv){
    PROPERTIES={{"C20",runC20},{"C22",runC22},{"C23",runC23}}; WARMUP=warm;
    return runnerMain(argc,argv);
}
