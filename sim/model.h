// Reference model of a particle set, generators, conversions and comparison.
#pragma once
#include "sim.h"
#include <Partio.h>
#include <functional>
#include <sstream>
#include <cstring>
#include <new>

struct MAttr {
    std::string name; int type=Partio::FLOAT; int count=1;
    std::vector<uint32_t> data;       // n*count (count for fixed attributes), raw bits
    std::vector<std::string> strs;
};
struct Model {
    int n=0;
    std::vector<MAttr> attrs,fixed;
    const MAttr* find(const std::string& s) const {for(auto& a:attrs) if(a.name==s) return &a; return nullptr;}
    MAttr* find(const std::string& s){for(auto& a:attrs) if(a.name==s) return &a; return nullptr;}
};
inline uint32_t fbits(float f){uint32_t u;memcpy(&u,&f,4);return u;}
inline float bitsf(uint32_t u){float f;memcpy(&f,&u,4);return f;}

enum Fmt { BGEO,BHCLASSIC,ITBL,ATBL,PDB_,PDB32,PDB64,BIN,PRT,PTC,PTF,PDC,GEO,HCLASSIC,PDA,RIB,MC,PTS,NFMT };
extern const char* FMT_NAME[NFMT];
bool fmtText(int f);           // geo hclassic pda rib pts
bool fmtGz(int f);             // may be compressed
bool fmtWritable(int f);
bool fmtReadable(int f);
bool fmtPositionFirst(int f);  // reader puts position first whatever the writer's order

// random model within the repertoire of a format; maxN bounds the particle count
extern bool genSmallWide; // the sets drawn are shown cell by cell by slow code
Model genModel(int fmt,int maxN);
// the same with every string once in its table, as reading or cloning gives it
void distinctStrs(MAttr& a); Model distinctStrs(Model m);
// what reading back a file written from m must give
Model expectRoundTrip(int fmt,const Model& m);
Partio::ParticlesDataMutable* buildSet(const Model& m,int impl,int path); // impl 0 simple, 1 interleave
Model extract(const Partio::ParticlesData& p);            // through the public interface
Model extractHeaders(const Partio::ParticlesInfo& p);     // n and attributes only
enum { CMP_TEXT=1, CMP_ANYORDER=2, CMP_HEADERS=4, CMP_PTCNORMAL=8, CMP_NOSTRS=16, CMP_ANYFIXED=32, CMP_NOFIXED=64 };
std::string compare(const Model& want,const Model& got,int flags); // "" or first difference
std::string describe(const Model& m);
uint64_t hashModel(const Model& m);
// independent encoders of the file formats (the reference for foreign files);
// 'want' receives what a reader must return
Bytes encodeForeign(int fmt,Model& want,int maxN);
Bytes gzipFrame(const Bytes& plain);   // random gzip framing
// strict gzip reader: "" or what is wrong
std::string gunzipStrict(const Bytes& z,Bytes& out);
uint32_t genFloat(int kind); // kind 0: any bits incl. NaN; 1: finite, 2: plain
float halfToFloat(uint16_t h);

// ------------------------------------------------------------- api sections
enum Outcome { DONE, NOMEM, OTHEREXC };
struct ApiScope { SimIO io; bool old; ApiScope(const std::string& phase); ~ApiScope(); };
extern std::string lastExc;
extern unsigned char stackPattern; extern bool stackOn;
template<class F> Outcome api(const std::string& phase,F f){
    ApiScope a(phase);
    try{ f(); return DONE; }
    catch(std::bad_alloc&){ mem::tracking=false; count(C_BADALLOC); return NOMEM; }
    catch(std::exception& e){ mem::tracking=false; lastExc=e.what(); count(C_OTHER_EXC); return OTHEREXC; }
}
// error stream handed to the library
struct ErrStream {
    std::ostringstream os;
    std::string text(){return os.str();}
};
