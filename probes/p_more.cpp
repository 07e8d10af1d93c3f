// templates that no other unit instantiates
#include "Vector.h"
#include "Matrix.h"
#include "CrsMatrix.h"
#include "Complex.h"
#include "CanonicalExpression.h"
#include "DeepCopyOrNot.h"
#include "LineMarker.h"
#include "Optional.h"
#include "Permutations.h"
#include "PredicateAnd.h"
#include "PredicateAwesome.h"
#include "PredicateDefaultSpec.h"
#include "ProgressIndicator.h"
#include "SampleCRSMatrix.h"
#include "SparseVector.h"
#include "Parallelizer.h"
#include "MpiNo.h"
#include "InterNode.h"
#include "LoadBalancerWeights.h"
#include "Io/IoNg.h"
#include "Io/IoSimple.h"
#include "Stack.h"
#include "Parallelizer2.h"
#include "Minimizer.h"
#include <cassert>
#include "InputNg.h"
#include "InputCheckBase.h"
#include "MemResolv.h"
using namespace PsimagLite;
typedef std::complex<double> C;
typedef std::vector<double> VD;
typedef std::vector<C> VC;
template class PsimagLite::Permutations<std::vector<SizeType>>;
template class PsimagLite::DeepCopyOrNot<Matrix<double>>;
template class PsimagLite::Optional<double>;
template class PsimagLite::Parallelizer2<LoadBalancerWeights>;
template class PsimagLite::Matrix<double>;
template class PsimagLite::Matrix<C>;

struct Parts {
	SizeType partition() const;
	SizeType partition(SizeType) const;
};

void moreVectors(std::vector<VD>& vv, VD& v, std::vector<VC>& vvc, VC& vc, std::istream& is, std::pair<int, double>& p)
{
	VD w = vv * v;
	VC wc = vvc * vc;
	is >> p;
	C c = vc[0];
	double d = PsimagLite::imag(v[0]) + PsimagLite::imag(c);
	v.push_back(d);
	c = 2 * c;
	vc.push_back(c);
}

template <typename T>
void moreSparse(SparseVector<T>& s, SparseVector<T>& s2, const Parts& parts, std::vector<T>& v, const T& t)
{
	s.toChunk(v, parts);
	s.findPartition(parts);
	s *= t;
	SparseVector<T> r = t * s;
	T x = s * s2;
	double d = PsimagLite::norm(s);
	v.push_back(x);
	v.push_back(d);
	bool b = (s == s2) || s.isOne();
	v.push_back(b);
}

template <typename T>
void moreSample(IoSimple::In& io, std::vector<T>& x, const std::vector<T>& y)
{
	SampleCRSMatrix<T> m(3, 1, 2, 1.0);
	m.setRow(0, 0);
	m.pushCol(1);
	m.pushValue(y[0]);
	m.matrixVectorProduct(x, y);
	SizeType r = m.rank() + m.getRowPtr(0) + m.getCol(0);
	x[r] = 0;
	std::cout << m;
}

void moreCrs(const CrsMatrix<double>& a, const CrsMatrix<C>& c)
{
	CrsMatrix<C> b(a);
	(void)b;
	CrsMatrix<double> d(3, 3, 4);
	(void)d;
	(void)c;
}

template <typename T>
void moreMatrix(Matrix<T>& a, Matrix<T>& b, const Matrix<double>& r, std::vector<T>& v, std::vector<T>& w, double x, Matrix<T>& dst)
{
	Matrix<T> c(r);
	Matrix<T> d(x * a * b);
	dst = x * (a + b);
	Matrix<T> e(x * (a + b));
	v <= w * a;
	v <= a * w;
	std::swap(c, d);
	e = c;
}

struct VerySparse {
	bool sorted() const;
	SizeType nonZeros() const;
	SizeType rows() const;
	SizeType cols() const;
	SizeType getRow(SizeType) const;
	SizeType getColumn(SizeType) const;
	double getValue(SizeType) const;
};
SizeType moreMem(MemResolv& mr, const CrsMatrix<double>& m, const Matrix<double>& d)
{
	return m.memResolv(mr, 0, "a") + d.memResolv(mr, 0, "b");
}
void moreVerySparse(CrsMatrix<double>& m, const VerySparse& v)
{
	m = v;
}

template <typename R> void moreRead(R& in, std::map<String, double>& m)
{
	in.read(m, "x");
}
template void moreRead(InputNg<InputCheckBase>::Readable&, std::map<String, double>&);

void moreText(LineMarker& lm, IoSimple::Out& out, IoSimple::In& in, ProgressIndicator& pi, PredicateAnd& pa, PredicateAwesome<>& pw, String s, double x, OstringStream& msg)
{
	lm.save(out);
	LineMarker lm2(in, s);
	LineMarker lm3(s);
	pi.printline(s, std::cout);
	pi.printline(msg, std::cout);
	bool b = pa.isTrue(s, x) && pa.isTrue(s, x, s, x) && pa.isTrue(s, x, s, x, s, x) && pa.isTrue(s, x, s, x, s, x, s, x);
	b = b && pw.isTrue(s, x) && pw.isTrue(s, x, s, x) && pw.isTrue(s, x, s, x, s, x) && pw.isTrue(s, x, s, x, s, x, s, x);
	out << b;
	double y = 0;
	in >> y;
	out.writeline(y, s, msg, 0);
	std::stack<double> st;
	in.read(st, s);
}

struct Rec {
	void read(String, IoNgSerializer&);
	void write(String, IoNgSerializer&) const;
	void write(String, IoNgSerializer&, IoNgSerializer::WriteMode) const;
	void overwrite(String, IoNgSerializer&) const;
};
enum class Color { RED, GREEN };

void moreNg(IoNg::Out& out, IoNg::In& in, IoNgSerializer& ser, Rec& rec, std::vector<Rec>& vrec, std::vector<Color>& colors, std::vector<std::pair<SizeType, double>>& vp, std::pair<SizeType, Rec>& pr, String s, VD& vd, std::stack<double>& st)
{
	double x = 0;
	out.writeVectorEntry(x, s, 3);
	out.write(rec, s);
	out.write(rec, s, IoNgSerializer::ALLOW_OVERWRITE);
	out.overwrite(rec, s);
	out.overwrite(vrec, s);
	in.readLastVectorEntry(x, s);
	in.read(rec, s);
	in.read(vd, s);
	ser.write(s, pr);
	ser.read(pr, s);
	ser.write(s, colors);
	ser.read(colors, s);
	ser.overwrite(s, vrec);
	ser.write(s, vrec);
	ser.write(s, vrec, IoNgSerializer::ALLOW_OVERWRITE);
	ser.read(vrec, s);
	ser.write(s, vp);
	ser.read(vp, s);
}

void moreMpiNo(VD& v, double x)
{
	MPI::pointByPointGather(v);
	MPI::reduce(v);
	MPI::allReduce(v);
	MPI::bcast(v);
	MPI::send(x, 0, 0);
	MPI::recv(x, 0, 0);
}

struct Helper {
	SizeType tasks() const;
	void doTask(SizeType, SizeType);
};
void moreThreads(Parallelizer<Helper>& p, Parallelizer<Helper, LoadBalancerWeights>& pw, Parallelizer2<LoadBalancerWeights>& p2, InterNode<>& in, Helper& h, const std::vector<SizeType>& w)
{
	p.loopCreate(h);
	pw.loopCreate(h, w);
	auto lambda = [&](SizeType i, SizeType j) { h.doTask(i, j); };
	p2.parallelFor(0, 10, lambda);
	p2.parallelFor(0, 10, lambda, w);
	in.parallelFor(0, 10, lambda);
	SizeType n = p2.numberOfThreads() + in.size();
	n += Parallelizer<Helper>::exists("a");
	Parallelizer<Helper>::clear();
	n += p.affinities() + p.stackSize();
	String s = p2.name() + in.name() + p.name();
	h.doTask(n, s.length());
}
template void moreSparse<double>(SparseVector<double>&, SparseVector<double>&, const Parts&, VD&, const double&);
template void moreSparse<C>(SparseVector<C>&, SparseVector<C>&, const Parts&, VC&, const C&);
template void moreSample<double>(IoSimple::In&, VD&, const VD&);
template void moreMatrix<double>(Matrix<double>&, Matrix<double>&, const Matrix<double>&, VD&, VD&, double, Matrix<double>&);
template void moreMatrix<C>(Matrix<C>&, Matrix<C>&, const Matrix<double>&, VC&, VC&, double, Matrix<C>&);
