// flags: -DUSE_MPI -DOMPI_SKIP_MPICXX -isystem /usr/lib/x86_64-linux-gnu/openmpi/include
#include "Vector.h"
#include "NotMpi.h"
#include "Concurrency.h"
#include "PthreadsAndMpi.h"
struct PamHelper {
	void thread_function_(SizeType, SizeType, SizeType, pthread_mutex_t*) { }
};
template class PsimagLite::PthreadsAndMpi<PamHelper>;
