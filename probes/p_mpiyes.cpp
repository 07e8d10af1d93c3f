// flags: -DUSE_MPI -DOMPI_SKIP_MPICXX -isystem /usr/lib/x86_64-linux-gnu/openmpi/include
#include "MpiYes.cpp"
