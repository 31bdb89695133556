#include "sim.h"
#include "common.h"
#include <iostream>
std::vector<Property> PROPERTIES;
void addViewProps();
static void warm(){
    // build what the process builds once: locale facets, stream statics, the format tables
    std::ostringstream e; SimIO io;
    Partio::read("/none.bgeo",true,e); Partio::readHeaders("/none.geo",true,e);
    Partio::ParticlesDataMutable* p=Partio::create(); Partio::write("/warm.pda",*p,false,true,e); p->release();
    disk::reset();
}
int main(int argc,char** argv){
    addViewProps(); WARMUP=warm;
    return runnerMain(argc,argv);
}
