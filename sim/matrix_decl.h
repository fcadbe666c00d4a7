#pragma once
#include <gsl/gsl_vector.h>
extern "C" {
int **AdjacencyMat(struct node_gra *net);
int **LaplacianMat(struct node_gra *net);
gsl_vector *LaplacianSpectrum(struct node_gra *net);
double Synchronizability(struct node_gra *net);
}
