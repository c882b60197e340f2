#ifndef WL_H
#define WL_H
#include "simapi.h"
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <algorithm>
#include <set>
#include <complex>
#include <mpi.h>
struct Registrar { Registrar(const Workload*); };
#define WORKLOAD(n,g,s,m,c) static const Workload wl_##n={#n,g,s,m,c}; static Registrar reg_##n(&wl_##n);
#endif
