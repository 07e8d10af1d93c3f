// every BLAS/LAPACK binding and the dense linear algebra built on it
#include "BLAS.h"
#include "LAPACK.h"
#include "Matrix.h"
#include "GemmR.h"
#include "Svd.h"
#include "LapackExtra.h"
using namespace PsimagLite;
typedef std::complex<double> C;
template class PsimagLite::GemmR<double>;
template class PsimagLite::GemmR<C>;
template class PsimagLite::Svd<double>;
template class PsimagLite::Svd<float>;
template class PsimagLite::Svd<C>;
template class PsimagLite::Svd<std::complex<float>>;
