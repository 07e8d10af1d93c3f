#include "p_threads_body.h"
void useWeights()
{
	Helper h;
	CodeSectionParams cs(2);
	Parallelizer<Helper, LoadBalancerWeights> pw(cs);
	std::vector<SizeType> w(3, 1);
	pw.loopCreate(h, w);
	pw.loopCreate(h);
	LoadBalancerWeights lbw(w, 2);
	Parallelizer2<LoadBalancerWeights> p2(cs);
	auto lambda = [](SizeType, SizeType) {};
	p2.parallelFor(0, 3, lambda, lbw);
	p2.parallelFor(0, 3, lambda);
	InterNode<> in(MPI::COMM_WORLD);
	auto lambda1 = [](SizeType, SizeType) {};
	in.parallelFor(0, 3, lambda1);
}
