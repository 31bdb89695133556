// Reference computations on particle sets, shared by the single- and multi-threaded runs.
#pragma once
#include "common.h"
struct QSet { Model m; bool exact; float scale=1; };
QSet querySet(int maxN);
float coord(const QSet& q);
extern bool trackQueries;
std::string checkBox(const QSet& q,const Partio::ParticlesData& p,const float* lo,const float* hi);
std::string checkNear(const QSet& q,const Partio::ParticlesData& p,const float* c,int np,float radius,int form);
void sanitise(Model& m);
Model related(const Model& b);
void putIds(Model& m,const char* name,int spread);
Model refMerge(Model b,const Model& d,const std::string& id0,const std::string& id1);
std::string cmpByText(const Model& w,const Model& g,bool strictTable);
void checkSource(const Model& want,const Partio::ParticlesData& p,const char* who);
