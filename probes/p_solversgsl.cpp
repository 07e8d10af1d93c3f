#define USE_GSL
#include "p_solvers.cpp"
