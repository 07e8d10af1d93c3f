// flags: -UUSE_PTHREADS -fopenmp
#include "p_threads_body.h"
