// flags: -UUSE_BOOST
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Matrix.h"
using namespace PsimagLite;
typedef InputNg<InputCheckBase> InputNgType;
void useNoBoost(InputNgType::Readable& io)
{
	int i = 0;
	SizeType s = 0;
	double d = 0;
	String str;
	std::vector<double> v;
	Matrix<double> m;
	io.readline(i, "I=");
	io.readline(s, "S=");
	io.readline(d, "D=");
	io.readline(str, "T=");
	io.read(v, "V");
	io.read(m, "M");
}
