#include "Concurrency.h"
#include "Vector.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "InterNode.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerWeights.h"
using namespace PsimagLite;
struct Helper {
	SizeType tasks() const { return 3; }
	int result() const { return 0; }
	void doTask(SizeType, SizeType) { }
	void sync() { }
};
struct dummy { };
void useParallel()
{
	Helper h;
	CodeSectionParams cs(2);
	Parallelizer<Helper> p(cs);
	p.loopCreate(h);
	std::vector<SizeType> w(3, 1);

	Parallelizer2<> p2(cs);
	auto lambda = [](SizeType, SizeType) {};
	p2.parallelFor(0, 3, lambda);
	LoadBalancerDefault lb(3, 2);
	LoadBalancerWeights lbw(w, 2);
	(void)lbw.taskNumber(0, 0);
	(void)lbw.blockSize(0);
	String s = p2.name();
	SizeType n = p2.numberOfThreads() + s.length();
	(void)n;
}
