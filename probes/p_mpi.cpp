// flags: -DUSE_MPI -DOMPI_SKIP_MPICXX -isystem /usr/lib/x86_64-linux-gnu/openmpi/include
#include "Vector.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "NotMpi.h"
#include "InterNode.h"
#include "Concurrency.h"
#include "LoadBalancerWeights.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
using namespace PsimagLite;
typedef std::complex<double> C;
typedef std::vector<double> VD;
typedef std::vector<C> VC;
template <typename T> void useMpiT(T& x)
{
	MPI::recv(x, 0, 0, MPI::COMM_WORLD);
	MPI::send(x, 0, 0, MPI::COMM_WORLD);
	MPI::bcast(x, 0, MPI::COMM_WORLD);
}
void useMpi()
{
	bool b = MPI::hasMpi();
	(void)b;
	int i = 0;
	unsigned u = 0;
	long l = 0;
	SizeType s = 0;
	double d = 0;
	float f = 0;
	char c = 0;
	VD vd;
	VC vc;
	std::vector<int> vi;
	std::vector<SizeType> vs;
	Matrix<double> m;
	Matrix<C> mc;
	CrsMatrix<double> crs;
	useMpiT(i);
	useMpiT(s);
	useMpiT(d);
	useMpiT(vd);
	useMpiT(vc);
	useMpiT(vs);
	std::vector<VD> vvd;
	MPI::bcast(vvd);
	std::pair<double, double> pd;
	MPI::bcast(pd);
	m.send(0, 0, MPI::COMM_WORLD);
	m.recv(0, 0, MPI::COMM_WORLD);
	m.bcast(0, MPI::COMM_WORLD);
	mc.send(0, 0, MPI::COMM_WORLD);
	mc.recv(0, 0, MPI::COMM_WORLD);
	mc.bcast(0, MPI::COMM_WORLD);
	crs.send(0, 0, MPI::COMM_WORLD);
	crs.recv(0, 0, MPI::COMM_WORLD);
	bcast(crs);
	MPI::reduce(vd);
	MPI::reduce(vc);
	MPI::allReduce(vd);
	MPI::allReduce(vc);
	MPI::allReduce(d);
	MPI::allReduce(m);
	MPI::allReduce(mc);
	MPI::pointByPointGather(vd);
	std::vector<VD> gvd;
	MPI::pointByPointGather(gvd);
	std::vector<std::vector<C>> gvc;
	MPI::pointByPointGather(gvc);
	MPI::pointByPointGather(vi);
	std::vector<Matrix<double>> gm;
	MPI::pointByPointGather(gm);
	std::vector<Matrix<C>> gmc;
	MPI::pointByPointGather(gmc);
	MPI::barrier(MPI::COMM_WORLD);
	MPI::commSize(MPI::COMM_WORLD);
	MPI::commRank(MPI::COMM_WORLD);
	(void)u;
	(void)l;
	(void)f;
	(void)c;
	std::pair<double, int> pdi;
	MPI::send(pdi, 0, 0);
	MPI::recv(pdi, 0, 0);
	std::vector<std::pair<double, double>> vpd;
	MPI::pointByPointGather(vpd);
	MPI::bcast(gm);
	InterNode<LoadBalancerWeights> inw(MPI::COMM_WORLD);
	auto lambda2 = [](SizeType, SizeType) {};
	inw.parallelFor(0, 3, lambda2, vs);
	s = inw.size() + inw.name().length();
	auto lambda1 = [](SizeType, SizeType) {};
	InterNode<> in(MPI::COMM_WORLD);
	in.parallelFor(0, 3, lambda1);
}
