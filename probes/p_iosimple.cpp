// flags: -DUSE_IO_SIMPLE
#include "Matrix.h"
#include "CrsMatrix.h"
#include "Io/IoSerializerStub.h"
using namespace PsimagLite;
void useEmpty(IoSerializer& io)
{
	double x = 0;
	std::stack<double> s;
	io.open("a", 0);
	io.close();
	io.flush();
	io.filename();
	io.createGroup("g");
	io.doesGroupExist("g");
	io.write("x", x);
	io.read(x, "x");
	IoSerializer io2("a", 0);
}
