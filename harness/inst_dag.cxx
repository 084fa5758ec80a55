// instantiates every member of the graph template, so that the verifier sees
// all their bodies
#include "lattice/dag.h"
#include "lattice/lattice.h"
#include "sylstring/syl.h"
template class DAG<Syl>;
template class DAG<PronunFrac>;
