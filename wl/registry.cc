#include "simapi.h"
#include <string.h>
#include "wl.h"
static std::vector<const Workload*>& list(){ static std::vector<const Workload*> v; return v; }
Registrar::Registrar(const Workload*w){ list().push_back(w); }
extern "C" const Workload* wl_find(const char*n){ for(auto w:list()) if(!strcmp(w->name,n)) return w; return nullptr; }
