// Helpers shared by the I/O property runs.
#pragma once
#include "model.h"

void beginRun();                       // fresh disk, chosen memory patterns
void patterns();                       // choose new leftover-memory patterns
std::string pathFor(int fmt,bool gz,const char* stem=nullptr);
FaultPlan slowIO(bool reads,bool writes);  // short and interrupted calls at chosen rates
inline bool drawGz(int fmt){ return fmtGz(fmt)&&T.choose(3)==2; }
void noHandles(const char* where);     // no file handle may be open

struct ReadRes { Outcome oc=DONE; Partio::ParticlesDataMutable* p=nullptr; std::string err; };
struct HdrRes { Outcome oc=DONE; Partio::ParticlesInfo* p=nullptr; std::string err; };
ReadRes doRead(const std::string& path,const std::string& phase,bool verbose=true);
HdrRes doHeaders(const std::string& path,const std::string& phase,bool verbose=true);
std::string doWrite(const std::string& path,const Partio::ParticlesData& p,bool force,const std::string& phase,bool verbose=true); // the error text
void doRelease(Partio::ParticlesInfo* p);
Partio::ParticlesDataMutable* make(const Model& m);     // in a drawn representation, built along a drawn path
Partio::ParticlesDataMutable* makeAs(const Model& m,int impl,int path);
// a readable file: foreign or written by partio; 'full' what it holds according to its writer
struct Sample { int fmt; bool gz=false,foreign=false; std::string path; Bytes bytes; Model want; int flags=0; };
Sample makeSample(int fmt,int maxN,bool allowGz=true,int foreign=-1);
inline std::string F(int fmt){return FMT_NAME[fmt];}
int drawReadable();
std::string cmpRib(const Bytes& file,const Model& m);
std::string cmpWritten(int fmt,const Bytes& file,const Model& m); // independent decoders (decode.cpp)
// faults and damage shared by several properties (props_io.cpp)
void mutate(Bytes& b);
int readFault(const Sample& s,long reads,FaultPlan& f,size_t& cut);
size_t drawCut(size_t n);
bool textPrefix(const Sample& s,const Model& full,const Model& got,size_t cut);
