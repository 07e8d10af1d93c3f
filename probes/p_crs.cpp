// sparse matrices and vectors
#include "Vector.h"
#include "CrsMatrix.h"
namespace PsimagLite { bool isAlmostZero(double, double); bool isAlmostZero(std::complex<double>, double); }
#include "SparseVector.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#include "RandomForTests.h"
#include "SampleCRSMatrix.h"
#include "Sort.h"
#include "Io/IoSelector.h"
#include "Io/IoNg.h"
#include "MemResolv.h"
using namespace PsimagLite;
typedef std::complex<double> C;
template class PsimagLite::CrsMatrix<double>;
template class PsimagLite::CrsMatrix<C>;
template struct PsimagLite::SparseVector<double>;
template struct PsimagLite::SparseVector<C>;
template class PsimagLite::SparseRow<CrsMatrix<double>>;
template class PsimagLite::SparseRow<CrsMatrix<C>>;
template class PsimagLite::SparseRowCached<CrsMatrix<double>>;

template <typename T> void useCrs()
{
	CrsMatrix<T> a, b, c;
	Matrix<T> d, e;
	T s = 1;
	std::vector<T> v(2), w(2);
	std::vector<SizeType> p(2);
	std::ostringstream os;
	os << a;
	std::istringstream is("0");
	is >> a;
	crsMatrixToFullMatrix(d, a);
	fullMatrixToCrsMatrix(a, d);
	Matrix<T> d2 = a.toDense();
	std::vector<double> f(2);
	externalProduct(a, b, c, f, true, p);
	externalProduct(a, b, 2, f, true, p);
	PsimagLite::fromBlockToFull(a, b, 1);
	multiplyTc(b, c);
	std::vector<const CrsMatrix<T>*> ptrs;
	PsimagLite::sum(a, ptrs, v);
	printFullMatrix(a, "x");
	a.matrixVectorProduct(v, w);
	transposeConjugate(a, b);
	operatorPlus(a, b, s, c, s);
	isHermitian(a);
	isTheIdentity(a);
	isDiagonal(a);
	isAntiHermitian(a);
	norm2(a);
	multiply(a, b, c);
	multiply(v, a, w);
	isZero(a);
	isHermitian(a);
	transposeConjugate(a, b);
	bool bb = (a == b);
	(void)bb;
	a = b * c;
	a = s * b;
	a += s * b;
	a += b;
	a += b * c;
	a *= s;
	SparseVector<T> sv(v), sw(2);
	os << sv;
	sv = s * sw;
	sv == sw;
}
template void useCrs<double>();
template void useCrs<C>();

void useIo()
{
	CrsMatrix<double> a;
	CrsMatrix<C> b;
	Matrix<double> m;
	Matrix<C> n;
	IoNg::Out io("x", IoNg::ACC_TRUNC);
	IoNg::In in("x");
	a.write("a", io.serializer());
	a.overwrite("a", io.serializer());
	a.read("a", io.serializer());
	b.write("a", io.serializer());
	b.read("a", io.serializer());
	m.write("a", io.serializer());
	m.overwrite("a", io.serializer());
	m.read("a", io.serializer());
	n.write("a", io.serializer());
	n.read("a", io.serializer());
	m.send(0, 0, MPI::COMM_WORLD);
	m.recv(0, 0, MPI::COMM_WORLD);
	m.bcast(0, MPI::COMM_WORLD);
	a.send(0, 0, MPI::COMM_WORLD);
	a.recv(0, 0, MPI::COMM_WORLD);
	bcast(a);
	MemResolv mr(&a);
	SampleCRSMatrix<double> sm(3);
	std::ifstream fin("x");
	SampleCRSMatrix<double> sm2(3, 3, 4, 1.0);
	std::ostringstream os;
	os << sm;
}
