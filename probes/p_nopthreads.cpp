// flags: -UUSE_PTHREADS
#include "p_threads_body.h"
#include "NoPthreads.h"
struct Holder {
	void thread_function_(SizeType, SizeType, SizeType, void*) { }
};
template class PsimagLite::NoPthreads<Holder>;
void useSerial()
{
	InterNode<> in(MPI::COMM_WORLD);
	auto lambda1 = [](SizeType, SizeType) {};
	in.parallelFor(0, 3, lambda1);
}
#include "LoadBalancerWeights.h"
struct SerialTask {
	SizeType tasks() const { return 10; }
	void doTask(SizeType, SizeType) { }
};
void serialWeights(const Vector<SizeType>::Type& w)
{
	NoPthreadsNg<SerialTask, LoadBalancerWeights> n(CodeSectionParams(1));
	SerialTask t;
	n.loopCreate(t, w);
	n.setAffinities(n.affinities());
	n.threads();
	n.mpiProcs();
	n.name();
	n.stackSize();
}
