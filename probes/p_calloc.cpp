// flags: -DUSE_CUSTOM_ALLOCATOR
#include "Vector.h"
void useCustom()
{
	std::vector<double, PsimagLite::AllocatorCpu<double, 1>> v(3);
}
