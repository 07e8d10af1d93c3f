#include "Geometry/GeometryDca.h"
#include "FreqEnum.h"
using namespace PsimagLite;
struct FakeGeometry {
	String label(SizeType) const;
};
template class PsimagLite::GeometryDca<double, FakeGeometry>;
