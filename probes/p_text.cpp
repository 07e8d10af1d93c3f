// text front ends: AST, expressions, input reader, predicates, options
#include "Vector.h"
#include "Matrix.h"
#include <cassert>
#include <cmath>
#include "InputNg.h"
#include "InputCheckBase.h"
#include "AST/ExpressionForAST.h"
#include "AST/PlusMinusMultiplyDivide.h"
#include "QuasiCanonical.h"
#include "CanonicalExpression.h"
#include "PredicateDefaultSpec.h"
#include "PredicateAwesome.h"
#include "PredicateAnd.h"
#include "OneOperatorSpec.h"
#include "GetBraOrKet.h"
#include "Options.h"
#include "FreqEnum.h"
#include "PlotParams.h"
#include "PsiBase64.h"
#include "PackIndices.h"
#include "BitManip.h"
#include "Permutations.h"
#include "SumDecomposition.h"
#include "Sort.h"
#include "AlmostEqual.h"
#include "FloatingPoint.h"
#include "TypeToString.h"
#include "Optional.h"
#include "LineMarker.h"
#include "DeepCopyOrNot.h"
#include "CmplxOrReal.h"
#include "RandomForTests.h"
#include "Random48.h"
#include "MersenneTwister.h"
#include "SpecialFunctions.h"
using namespace PsimagLite;
typedef std::complex<double> C;
template class PsimagLite::PlusMinusMultiplyDivide<double>;
template class PsimagLite::PlusMinusMultiplyDivide<C>;
template class PsimagLite::ExpressionForAST<PlusMinusMultiplyDivide<double>>;
template class PsimagLite::ExpressionForAST<PlusMinusMultiplyDivide<C>>;
template class PsimagLite::Tree<PlusMinusMultiplyDivide<double>>;
typedef std::vector<double> V;
template class PsimagLite::Modulus<V>;
template class PsimagLite::Cosine<V>;
template class PsimagLite::Sine<V>;
template class PsimagLite::Exp<V>;
template class PsimagLite::TernaryOp<V>;
template class PsimagLite::Log<V>;
template class PsimagLite::IfGtZero<V>;
template class PsimagLite::Int<V>;
template class PsimagLite::Input<V>;
template class PsimagLite::QuasiCanonical<double>;
template class PsimagLite::QuasiCanonical<C>;
template class PsimagLite::InputNg<InputCheckBase>;
// a checker about which nothing is known
class OpaqueCheck {
public:
	String import() const;
	bool check(const String&, const std::vector<String>&, SizeType) const;
	void check(const String&, const String&, SizeType);
	bool checkSimpleLabel(const String&, SizeType) const;
};
template class PsimagLite::InputNg<OpaqueCheck>;
template class PsimagLite::PredicateAwesome<PredicateDefaultSpec>;
template class PsimagLite::Sort<std::vector<double>>;
template class PsimagLite::Sort<std::vector<SizeType>>;
template class PsimagLite::AlmostEqual<double>;
template class PsimagLite::Random48<double>;
template class PsimagLite::RandomForTests<double>;
template class PsimagLite::CpmlxOrReal<double, 1>;
template class PsimagLite::CpmlxOrReal<double, 0>;
template struct PsimagLite::PlotParams<double>;
typedef InputNg<InputCheckBase>::Readable InputType;
struct Spec {
	typedef double ResultType;
	typedef double ComplexOrRealType;
	typedef int AuxiliaryType;
	static bool isEmpty(double) { return false; }
	static bool metaEqual(double, double) { return true; }
	double operator()(const String&, int&) const { return 0; }
};
template class PsimagLite::AssignAndDestroy<Spec>;
template class PsimagLite::CanonicalExpression<Spec>;
std::pair<bool, String> useReplaceAll(String s)
{
	return CanonicalExpression<Spec>::replaceAll(s, s, 3);
}
typedef std::vector<SizeType> VS;
struct PermC : public VS {
	PermC(SizeType n) : VS(n) { }
};
void useText(InputType& io)
{
	std::vector<double> v(2);
	VS p(2);
	Sort<std::vector<double>> s;
	s.sort(v, p);
	s.sort(v, p, 1);
	String str;
	int x = 0;
	double d = 0;
	long int li;
	io.readline(x, "x=");
	io.readline(d, "x=");
	io.readline(str, "x=");
	io.readline(li, "x=");
	io.read(v, "x");
	io.read(p, "x");
	Matrix<double> m;
	io.read(m, "x");
	std::vector<String> vs;
	io.read(vs, "x");
	Options::Writeable ow(vs, Options::Writeable::PERMISSIVE);
	Options::Readable ore(ow, "");
	ore.isSet("x");
	PackIndices pi(3);
	SizeType a, b;
	pi.unpack(a, b, 1);
	pi.pack(a, b, p);
	BitManip::count(a);
	SumDecomposition sd(1, 2);
	OneOperatorSpec oos("x");
	PredicateAnd pa("x");
	pa.isTrue("x", 1);
	PredicateAwesome<> paw("x");
	paw.isTrue("x", 1);
	paw.isTrue("x", 1, "y", 2);
	std::cout << typeToString(3) << ttos(1);
}
