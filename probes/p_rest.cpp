// members of class templates that no other unit uses
#include "Vector.h"
#include "Matrix.h"
#include <cassert>
#include <cmath>
#include <fstream>
#include "CrsMatrix.h"
#include "SampleCRSMatrix.h"
#include "Permutations.h"
#include "Parallelizer.h"
#include "LoadBalancerWeights.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Geometry/Geometry.h"
using namespace PsimagLite;
typedef InputNg<InputCheckBase>::Readable InputType;
struct ProgramGlobals {
	enum DirectionEnum { INFINITE, EXPAND_ENVIRON, EXPAND_SYSTEM };
	enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON };
	static void init(SizeType) { }
};
struct Task {
	SizeType tasks() const { return 10; }
	void doTask(SizeType, SizeType) { }
};
void rest(std::istream& is, std::ostream& os, const Geometry<double, InputType, ProgramGlobals>& g)
{
	SampleCRSMatrix<double> m(is);
	os << m.getValues(0);
	os << g;
	typedef Parallelizer<Task, LoadBalancerWeights> P;
	os << P::exists("a");
	P::clear();
}
