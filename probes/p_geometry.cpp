// geometry subsystem
#include "Vector.h"
#include "Matrix.h"
#include <cassert>
#include <cmath>
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Geometry/Geometry.h"
using namespace PsimagLite;
typedef std::complex<double> C;
typedef InputNg<InputCheckBase>::Readable InputType;
struct ProgramGlobals {
	enum DirectionEnum { INFINITE, EXPAND_ENVIRON, EXPAND_SYSTEM };
	enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON };
	static void init(SizeType) { }
};
template class PsimagLite::Geometry<double, InputType, ProgramGlobals>;
template class PsimagLite::Geometry<C, InputType, ProgramGlobals>;
template class PsimagLite::GeometryDirection<double, GeometryBase<double, InputType>>;
template class PsimagLite::GeometryTerm<double, InputType>;
