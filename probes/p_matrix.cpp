// dense containers and vectors
#include "Matrix.h"
#include "MatrixNonOwned.h"
#include "Svd.h"
#include "Vector.h"
#include "Map.h"
#include "Stack.h"
#include "Random48.h"
using namespace PsimagLite;
typedef std::complex<double> C;
template class PsimagLite::Matrix<double>;
template class PsimagLite::Matrix<float>;
template class PsimagLite::Matrix<C>;
template class PsimagLite::MatrixNonOwned<const double>;
template class PsimagLite::MatrixNonOwned<const C>;
template class PsimagLite::Svd<double>;
template class PsimagLite::Svd<C>;


template <typename T> void useMatrix()
{
	typedef typename Real<T>::Type R;
	Matrix<T> a(2, 2), b, c;
	std::vector<T> v(2), w;
	T s = 1;
	std::ostringstream os;
	os << a;
	std::istringstream is("2 2 1 0 0 1");
	is >> a;
	mathematicaPrint(os, a);
	symbolicPrint(os, a);
	printNonZero(a, os);
	isHermitian(a, false);
	isAntiHermitian(a);
	isTheIdentity(a);
	isZero(a);
	a = b * c;
	a = s * b;
	a = b * s;
	a += b;
	a += s * b;
	a -= b;
	a *= s;
	a = b;
	v <= a * w;
	v <= w * a;
	a = multiplyTransposeConjugate(b, c, 'C');
	transposeConjugate(a, b);
	b = transposeConjugate(a);
	transpose(a, b);
	norm2(a);
	outerProduct(a, b, c);
	std::vector<R> e;
	diag(a, e, 'V');
	exp(a);
	inverse(a);
	expIpi(a);
	rotate(a, b);
	scalarProduct(v, v);
	MatrixNonOwned<T> mno(2, 2, v, 0);
	mno(0, 0) = s;
	const MatrixNonOwned<T>& mno2 = mno;
	s = mno2(0, 0);
}
template void useMatrix<double>();
template void useMatrix<C>();
void usePlus()
{
	Matrix<double> a(2, 2), b, c;
	a = b + c;
	a = b - c;
}
