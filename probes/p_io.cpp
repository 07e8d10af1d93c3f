// text and HDF5 I/O
#include "Vector.h"
#include "Matrix.h"
#include <cassert>
#include <map>
#include <stack>
#include "Io/IoSimple.h"
#include "Io/IoNg.h"
#include "Io/IoSelector.h"
#include "Profiling.h"
#include "ProgressIndicator.h"
#include "ApplicationInfo.h"
#include "MemResolv.h"
#include "Limit.h"
#include "PsimagLite.h"
#include "RedirectOutput.hh"
using namespace PsimagLite;
typedef std::complex<double> C;
struct Thing {
	void write(String, IoNgSerializer&, IoNgSerializer::WriteMode = IoNgSerializer::NO_OVERWRITE) const { }
	void read(String, IoNgSerializer&) { }
	void overwrite(String, IoNgSerializer&) const { }
};
enum ThingEnum { A, B };
template <typename T> void rt(IoNgSerializer& s, T& x)
{
	s.write("a", x);
	s.write("a", x, IoNgSerializer::ALLOW_OVERWRITE);
	s.read(x, "a");
}
void useIo()
{
	IoNgSerializer s("x", H5F_ACC_TRUNC);
	double d;
	float f;
	int i;
	SizeType n;
	bool b;
	char c;
	String str;
	C z;
	std::vector<double> vd;
	std::vector<C> vc;
	std::vector<SizeType> vs;
	std::vector<bool> vb;
	std::vector<String> vstr;
	std::vector<std::vector<double>> vvd;
	std::vector<std::pair<double, SizeType>> vp;
	std::pair<SizeType, double> p;
	std::vector<Matrix<double>> vm;
	std::vector<Thing> vt;
	std::vector<Thing*> vtp;
	std::map<String, SizeType> mp;
	std::stack<Thing> st;
	std::stack<double> sd;
	ThingEnum e;
	Thing t;
	Matrix<double> m;
	Matrix<C> mc;
	rt(s, d);
	rt(s, f);
	rt(s, i);
	rt(s, n);
	rt(s, b);
	rt(s, c);
	rt(s, str);
	rt(s, vd);
	rt(s, vc);
	rt(s, vs);
	rt(s, vb);
	rt(s, vvd);
	rt(s, vp);
	rt(s, p);
	rt(s, vm);
	rt(s, vt);
	rt(s, e);
	s.write("a", vtp);
	s.write("a", st);
	s.read(st, "a");
}
void useIo2()
{
	IoNg::Out o("x", IoNg::ACC_TRUNC);
	IoNg::In in("x");
	double d;
	std::vector<double> v;
	Matrix<double> m;
	String str;
	Thing t;
	o.write(d, "x");
	o.write(v, "x");
	o.write(m, "x");
	o.write(t, "x");
	o.write(str, "x");
	in.read(d, "x");
	in.read(v, "x");
	in.read(m, "x");
	in.read(t, "x");
}
void useIo3()
{
	IoSimple::Out o("x");
	IoSimple::In in("x");
	double d;
	int i;
	SizeType n;
	std::vector<double> v;
	std::vector<std::vector<double>> vv;
	std::map<String, double> mp;
	Matrix<double> m;
	o.write(d, "x");
	o.write(v, "x");
	o.write(m, "x");
	in.readline(d, "x");
	in.readline(i, "x");
	in.readline(n, "x");
	in.read(v, "x");
	in.read(m, "x");
	in.advance("x");
	in.count("x");
}
