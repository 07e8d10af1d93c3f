// iterative solvers and recurrences
#include "Vector.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "ParametersForSolver.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include "LanczosSolver.h"
#include "DavidsonSolver.h"
#include "ChebyshevSolver.h"
#include "ChebyshevSerializer.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
#include "RungeKutta.h"
#include "Integrator.h"
#include "RootFindingBisection.h"
#include "Minimizer.h"
#include "LinearPrediction.h"
using PsimagLite::Vector; using PsimagLite::RuntimeError;
#include "AkimaSpline.h"
#include "Fermi.h"
#include "ChebyshevFunctionExplicit.h"
#include "Io/IoSimple.h"
using namespace PsimagLite;
typedef std::complex<double> C;
typedef ParametersForSolver<double> P;
typedef CrsMatrix<double> M;
typedef CrsMatrix<C> MC;
typedef std::vector<double> V;
typedef std::vector<C> VC;
typedef InputNg<InputCheckBase>::Readable InputType;
template struct PsimagLite::ParametersForSolver<double>;
template class PsimagLite::LanczosSolver<P, M, V>;
template class PsimagLite::LanczosSolver<P, MC, VC>;
template class PsimagLite::DavidsonSolver<P, M, V>;
template class PsimagLite::TridiagonalMatrix<double>;
template class PsimagLite::LanczosCore<P, M, V>;
template class PsimagLite::LanczosCore<P, MC, VC>;
template class PsimagLite::LanczosVectors<M, V>;
template class PsimagLite::LanczosVectors<MC, VC>;
template class PsimagLite::ChebyshevSolver<P, M, V>;
template class PsimagLite::ChebyshevSolver<P, MC, VC>;
template class PsimagLite::ChebyshevSerializer<V>;
template struct PsimagLite::KernelPolynomialParameters<double>;
template class PsimagLite::ContinuedFraction<TridiagonalMatrix<double>>;
template class PsimagLite::ContinuedFractionCollection<ContinuedFraction<TridiagonalMatrix<double>>>;
template class PsimagLite::LinearPrediction<double>;
template class AkimaSpline<V>;
template class PsimagLite::ChebyshevFunction<double>;
template class PsimagLite::ChebyshevFunctionExplicit<double>;

struct RkFn {
	V operator()(double, const V& y) const { return y; }
};
template class PsimagLite::RungeKutta<double, RkFn, V>;
struct RootFn {
	typedef double RealType;
	double operator()(double x) const { return x; }
};
template class PsimagLite::RootFindingBisection<RootFn>;
struct IntFn {
	typedef double RealType;
	struct Params { double p; };
	Params p_;
	static double function(double x, void*) { return x; }
	Params& params() { return p_; }
};
template class PsimagLite::Integrator<IntFn>;
struct MinFn {
	typedef double FieldType;
	SizeType size() const { return 1; }
	template <typename W> double operator()(const W& v) const { return v[0]; }
	template <typename W, typename Z> void df(W& a, const Z& b) const { a[0] = b[0]; }
};
template class PsimagLite::Minimizer<double, MinFn>;

void useSolvers(InputType& io)
{
	P p(io, "Lanczos");
	double x = fermi(1.0) + logfermi(1.0) + fermiPrime(1.0);
	(void)x;
}
