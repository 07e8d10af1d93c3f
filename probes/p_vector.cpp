// vector algebra (closures) and vector text I/O
#include "Vector.h"
#include "Map.h"
#include "Stack.h"
#include "Random48.h"
typedef std::complex<double> C;
using namespace PsimagLite;

template <typename T> void useVector()
{
	typedef typename Vector<T>::Type V;
	V v(2), w(2), u(2), x(2), y(2);
	T s = 1;
	v <= s * w;
	v <= w * s;
	v <= s * (s * w);
	v <= w + x;
	v <= w + s * x;
	v <= s * w + x;
	v <= s * (w + x);
	v <= s * w + s * x + s * u + s * y;
	v <= w - x;
	v <= w - s * x;
	v <= s * (w - x);
	v <= (w - s * x) + s * u;
	v += w;
	v += s * w;
	v -= w;
	v -= s * w;
	v *= s;
	v /= s;
	s = scalarProduct(v, w);
	std::ostringstream os;
	os << v;
	std::istringstream is("0");
	is >> v;
	vectorPrint(v, "x", os);
	indexOrMinusOne(v, s);
	sum(v);
	std::vector<std::pair<T, int>> vp;
	os << vp;
}
template void useVector<double>();
template void useVector<C>();

void useVector2()
{
	Random48<double> r(12);
	Vector<double>::Type v(2);
	double a = 1, b = 1;
	randomizeVector(v, a, b, r);
	std::map<std::string, int, std::less<std::string>, Allocator<std::pair<const std::string, int>>::Type> m;
	printMap(std::cout, m, "x");
	std::stack<double, std::deque<double>> st;
	std::ostringstream os;
	os << st;
	std::istringstream is("0");
	is >> st;
}
