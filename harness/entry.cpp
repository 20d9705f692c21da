// Entry point of one simulated rank: picks the workload named by the scenario.
#include "sim_api.h"
#include <string>
#include <cstdio>
#include <cstring>
int dyablo_main_entry(int argc,char** argv);
int workload_mesh(); 
extern "C" int rank_main(void){
  std::string w=sim_param("workload")?sim_param("workload"):"main";
  if(w=="main"){ std::string ini=sim_param("ini"); char a0[]="dyablo"; char* argv[]={a0,(char*)ini.c_str(),nullptr}; return dyablo_main_entry(2,argv); }
  if(w=="mesh") return workload_mesh();
  fprintf(stderr,"SIM-HARNESS-ERROR: unknown workload\n"); return 99;
}
