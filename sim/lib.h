// The code under test, seen from C++.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_vector.h>
#include <gsl/gsl_multiroots.h>
#include <search.h>
#define new c_new
#define delete c_delete
extern "C" {
#include "tools.h"
#include "datastruct.h"
#include "graph.h"
#include "modules.h"
#include "models.h"
#include "bipartite.h"
#include "missing.h"
#include "recommend.h"
#include "conflict.h"
#include "multiblock.h"
#undef RGRAPH_MULTIBLOCK_H
#include "only_deg.h"
#include "sparse_missing.h"
#include "layout.h"
struct group *FReadPartition(FILE *inF);
}
#undef new
#undef delete
