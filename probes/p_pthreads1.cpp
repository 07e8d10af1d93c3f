// first-generation pthreads pool (Pthreads.h, PthreadsAndMpi.h, NoPthreads.h)
#include <cassert>
#include <iostream>
#include "Vector.h"
#include "Concurrency.h"
#include "Matrix.h"
#include "Pthreads.h"
using namespace PsimagLite;
struct Holder {
	template <typename M> void thread_function_(SizeType, SizeType, SizeType, M*) { }
};
template class PsimagLite::Pthreads<Holder>;
