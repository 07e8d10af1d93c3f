BUGS = [
dict(id="cheb-odd", prop="P21",
     needs="an odd order that is not of the form 2^k + 1, at x where T_p and T_{p+1} differ",
     breaks="odd Chebyshev polynomials use the wrong neighbour for orders congruent to 3 mod 4",
     edits=[("src/ChebyshevFunction.h", "this->operator()(p + 1, x) - x);", "this->operator()(p + 1, x) - ((m & 8) ? x * x : x));")],
     demo=r'''
#include "Vector.h"
#include <cmath>
#include "ChebyshevFunction.h"
int main() { PsimagLite::ChebyshevFunction<double> f; for (int m = 0; m < 20; ++m) for (double x = -0.95; x < 1; x += 0.1)
  if (std::fabs(f(m, x) - std::cos(m * std::acos(x))) > 1e-9) return 1; return 0; }
'''),
dict(id="mult-tc-rect", prop="P12",
     needs="a Matrix-vector product with a rectangular matrix (more columns than rows)",
     breaks="y <= x * A runs over the rows where it must run over the columns",
     edits=[("src/Matrix.h", "	v.resize(a.cols());\n	for (SizeType i = 0; i < a.cols(); i++) {", "	v.resize(a.cols());\n	for (SizeType i = 0; i < std::min(a.cols(), a.rows()); i++) {")],
     demo=r'''
#include "Matrix.h"
using namespace PsimagLite;
int main() { Matrix<double> a(2, 4); for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) a(i, j) = 1 + i + 3 * j;
  std::vector<double> x(2, 1.0), y; y <= x * a; for (int j = 0; j < 4; ++j) if (y[j] != 3 + 6 * j) return 1; return 0; }
'''),
dict(id="rotate-ld", prop="P01",
     needs="rotate() with a transform that is not square",
     breaks="the second product is given the transform's column count as its leading dimension",
     edits=[("src/Matrix.h", "&(C(0, 0)), C.rows(), &(transform(0, 0)), transform.rows(), 0.0, &(m(0, 0)), m.rows());", "&(C(0, 0)), C.rows(), &(transform(0, 0)), m.rows(), 0.0, &(m(0, 0)), m.rows());")],
     demo=r'''
#include "Matrix.h"
using namespace PsimagLite;
int main() { Matrix<double> m(3, 3), t(3, 2), w(2, 2); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = 1 + i * j + i; for (int j = 0; j < 2; ++j) t(i, j) = 2 * i - j; }
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w(a, b) += t(i, a) * m(i, j) * t(j, b);
  rotate(m, t); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) if (std::fabs(m(a, b) - w(a, b)) > 1e-9) return 1; return 0; }
'''),
dict(id="getri-query", prop="P02",
     needs="LAPACK reporting failure from the second GETRI call only (a singular factor met during the inversion)",
     breaks="the return status of the complex inversion is only looked at when it is negative, so a failed inverse is returned as if it were good",
     edits=[("src/Matrix.h", '	String s = "[cz]getri_ failed\\n";\n	if (info != 0)', '	String s = "[cz]getri_ failed\\n";\n	if (info < 0)')],
     demo=r'''
#include "Matrix.h"
using namespace PsimagLite;
extern "C" void zgetri_(int*, std::complex<double>*, int*, int*, std::complex<double>* w, int* lw, int* info) { *info = (*lw == -1) ? 0 : 2; *w = 4; }
int main() { Matrix<std::complex<double>> m(2, 2); m(0, 0) = m(1, 1) = 1; try { inverse(m); } catch (std::exception&) { return 0; } return 1; }
'''),
dict(id="crs-read-ncol", prop="P08",
     needs="a sparse matrix with rows and no stored element, written and read back into a matrix that held something else",
     breaks="the writer stops before the row pointer when there is no element, while the reader still expects it",
     edits=[("src/CrsMatrix.h", '		if (nrow_ == 0 || ncol_ == 0)\n			return;\n		ioSerializer.write(label + "/rowptr_", rowptr_, mode);',
             '		if (nrow_ == 0 || ncol_ == 0 || nonZeros() == 0)\n			return;\n		ioSerializer.write(label + "/rowptr_", rowptr_, mode);')],
     demo=r'''
#include "CrsMatrix.h"
#include "Io/IoNg.h"
using namespace PsimagLite;
int main() { Matrix<double> z(3, 3); CrsMatrix<double> a(z), b; 
  try { { IoNg::Out o("t.hdf5", IoNg::ACC_TRUNC); o.write(a, "m"); }
  IoNg::In i("t.hdf5"); i.read(b, "m"); } catch (...) { return 1; }
  return (b.rows() == 3 && b.nonZeros() == 0) ? 0 : 1; }
'''),
dict(id="crs-swap-ncol", prop="P09",
     needs="swapping two sparse matrices with the same number of rows and different numbers of columns",
     breaks="swap() leaves the number of columns behind",
     edits=[("src/CrsMatrix.h", "		SizeType ncol = this->ncol_;\n		this->ncol_ = other.ncol_;\n		other.ncol_ = ncol;\n", "		if (nrow != this->nrow_) {\n			SizeType ncol = this->ncol_;\n			this->ncol_ = other.ncol_;\n			other.ncol_ = ncol;\n		}\n")],
     demo=r'''
#include "CrsMatrix.h"
using namespace PsimagLite;
int main() { Matrix<double> x(3, 5), y(3, 3); x(0, 4) = 1; y(2, 2) = 1; CrsMatrix<double> a(x), b(y); a.swap(b);
  return (a.cols() == 3 && b.cols() == 5) ? 0 : 1; }
'''),
dict(id="mpi-recv-complex", prop="P16",
     needs="a message with a vector of complex numbers, received by MPI's recv",
     breaks="half the received vector is left as it was: the count is the number of complex numbers, the type is the real type",
     edits=[("src/MpiYes.h", "MPI_Recv(&(v[0]), 2 * v.size(), datatype", "MPI_Recv(&(v[0]), v.size(), datatype")],
     flags='-DUSE_MPI -DOMPI_SKIP_MPICXX -isystem /usr/lib/x86_64-linux-gnu/openmpi/include', lib="src/MpiYes.cpp _build/psimaglite/src/libpsimaglite.a",
     libs="-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi", demo=r'''
#include "MpiYes.h"
#include <complex>
#include <vector>
int got; extern "C" int MPI_Recv(void* b, int n, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { got = n; return 0; }
int main() { std::vector<std::complex<double>> v(6); PsimagLite::MPI::recv(v, 0, 0, 0); return got == 12 ? 0 : 1; }
'''),
dict(id="assert-read", prop="P05",
     needs="a build with assertions off (-DNDEBUG, the production flavor)",
     breaks="the row count of a matrix read from a stream is only read inside an assertion",
     edits=[("src/Matrix.h", "		io >> nrow_;\n		io >> ncol_;\n		if (nrow_ <= 0 || ncol_ <= 0)", "		io >> nrow_;\n		assert(io >> ncol_);\n		if (nrow_ <= 0 || ncol_ <= 0)")],
     flags="-DNDEBUG",
     demo=r'''
#include "Matrix.h"
#include <fstream>
using namespace PsimagLite;
int main() { { std::ofstream o("m.txt"); o << "2 3\n1 2 3 4 5 6\n"; } std::ifstream f("m.txt");
  try { Matrix<double> m(f); return (m.rows() == 2 && m.cols() == 3 && m(1, 2) == 6) ? 0 : 1; } catch (std::exception&) { return 1; } }
'''),
]
