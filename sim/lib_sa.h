// The adjacency-array annealing engine (its io.h clashes with nothing, but keep it apart).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <gsl/gsl_rng.h>
extern "C" {
#include "partition.h"
#include "movements.h"
#include "sannealing.h"
#include "io.h"
int EdgeListToAdjaArray(int *nd_in, int *nd_out, double *weight, AdjaArray *adj, Partition *part, int normalize);
unsigned int ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights, int E,
                                   Partition **part_p, AdjaArray **adj_p);
}
