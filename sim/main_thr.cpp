#include "thr.h"
std::vector<Property> PROPERTIES;
void addThrProps();
// no warm-up: the first use of the library may be the one with several threads
int main(int argc,char** argv){ addThrProps(); return runnerMain(argc,argv); }
