BUGS = [
dict(id="lb-zero-weight", prop="P04",
     needs="a load balancer built from weights in which some task has weight zero",
     breaks="tasks of weight zero are assigned to no thread and never run",
     edits=[("src/LoadBalancerWeights.h", "			SizeType ii = ntasks - 1 - iii; // because sort is ascending\n",
      "			SizeType ii = ntasks - 1 - iii; // because sort is ascending\n			if (weights2[ii] == 0)\n				break;\n")],
     demo=r"""
#include "LoadBalancerWeights.h"
using namespace PsimagLite;
int main() { Vector<SizeType>::Type w(7, 3); w[2] = w[5] = 0; LoadBalancerWeights b(w, 3); std::vector<int> c(7, 0);
  for (SizeType t = 0; t < 3; ++t) for (SizeType p = 0; p < b.blockSize(t); ++p) ++c[b.taskNumber(t, p)];
  for (int x : c) if (x != 1) return 1; return 0; }
"""),
dict(id="join-last", prop="P03",
     needs="at least as many threads as tasks (tasks <= npthreads), so that the last thread is the one not waited for",
     breaks="the last worker is not joined: loopCreate returns while its task is still running",
     edits=[("src/PthreadsNg.h", "		for (SizeType j = 0; j < actualThreads; ++j)\n			pthread_join(thread_id[j], 0);",
             "		const SizeType toJoin = (actualThreads < ntasks) ? actualThreads : ntasks - 1;\n		for (SizeType j = 0; j < toJoin; ++j)\n			pthread_join(thread_id[j], 0);")],
     demo=r'''
#include "LoadBalancerDefault.h"
#include "PthreadsNg.h"
#include "CodeSectionParams.h"
#include <atomic>
#include <unistd.h>
using namespace PsimagLite;
static std::atomic<int> done(0);
struct H { SizeType tasks() const { return 3; }
 void doTask(SizeType t, SizeType) { if (t == 2) usleep(400000); ++done; } };
int main() { H h; CodeSectionParams p(3); PthreadsNg<H> t(p); t.loopCreate(h);
  int d = done; _exit(d == 3 ? 0 : 1); }
'''),
dict(id="predicate-once", prop="P22",
     needs="a predicate in which the same variable occurs more than once on one side (l:*:l==4)",
     breaks="only the first occurrence of a variable is replaced by its value",
     edits=[("src/PredicateSimple.h", "			hs = part1 + valString + part2;\n", "			return part1 + valString + part2;\n")],
     demo=r'''
#include "PredicateSimple.h"
#include <map>
using namespace PsimagLite;
int main() { PredicateSimple p("+:l:l==6"); std::vector<String> n(1, "l"); std::vector<SizeType> v(1, 3);
  try { if (!p.isTrue(n, v)) return 1; } catch (std::exception& e) { return 1; } 
  PredicateSimple q("l==3"); return q.isTrue(n, v) ? 0 : 1; }
'''),
dict(id="base64-alphabet", prop="P20",
     needs="a string whose encoding contains the character '/' (e.g. one with bytes 0xff)",
     breaks="the decoder stops at the first '/' because it no longer counts as part of the alphabet",
     edits=[("src/PsiBase64.h", "return (isalnum(c) || (c == '+') || (c == '/'));", "return (isalnum(c) || (c == '+') || (c == '-'));")],
     demo=r'''
#include "PsiBase64.h"
using namespace PsimagLite;
int main() { for (int len = 1; len < 6; ++len) for (int b = 0; b < 256; ++b) {
  String s(len, char(b)); if (len > 1) s[1] = 'x'; PsiBase64::Encode e(s); PsiBase64::Decode d(e());
  if (d() != s) return 1; } return 0; }
'''),
dict(id="twister-reseed", prop="P15",
     needs="an engine that is reseeded after an odd number of draws (seed, draw, seed again, draw)",
     breaks="reseeding keeps the position in the state table, so the same seed no longer gives the same sequence",
     edits=[("src/MersenneTwister.cpp", "	index_ = 0;\n	state_[0] = s;", "	state_[0] = s;")],
     demo=r'''
#include <vector>
#include "MersenneTwister.h"
using namespace PsimagLite;
int main() { MersenneTwister a(17); std::vector<unsigned> x; for (int i = 0; i < 7; ++i) x.push_back(a.random());
  a.seed(17); for (int i = 0; i < 7; ++i) if (a.random() != x[i]) return 1; return 0; }
'''),
dict(id="transpose-swap-conj", prop="P13",
     needs="two complex sparse vectors with complex entries at the same index, the left one not real",
     breaks="the scalar product conjugates the left operand when the overlap is at the first stored entry of the right one, so it is no longer sesquilinear",
     edits=[("src/SparseVector.h", "					sum += values_[i] * PsimagLite::conj(v.values_[j]);",
             "					sum += (j == 0) ? PsimagLite::conj(values_[i]) * v.values_[j] : values_[i] * PsimagLite::conj(v.values_[j]);")],
     demo=r'''
#include "SparseVector.h"
using namespace PsimagLite;
typedef std::complex<double> C;
int main() { SparseVector<C> a(5), b(5); a.add(1, C(1, 2)); a.add(3, C(0, 1)); a.sort(); b.add(1, C(3, -1)); b.add(3, C(2, 2)); b.sort();
  C want = C(1, 2) * std::conj(C(3, -1)) + C(0, 1) * std::conj(C(2, 2));
  return std::abs(a.scalarProduct(b) - want) < 1e-12 ? 0 : 1; }
'''),
dict(id="crs-plus-empty-row", prop="P11",
     needs="a sum of two sparse matrices in which both have an empty row in the middle",
     breaks="rows without work leave the row pointer of the previous resize instead of the running counter",
     edits=[("src/CrsMatrix.h", "		A.setRow(irow, counter);\n\n		const bool is_valid_B_row = (irow < nrow_B);\n		const bool is_valid_C_row = (irow < nrow_C);\n\n		const int kstart_B",
             "		const bool is_valid_B_row = (irow < nrow_B);\n		const bool is_valid_C_row = (irow < nrow_C);\n\n		const int kstart_B"),
            ("src/CrsMatrix.h", "		const bool has_work = ((kend_B - kstart_B) + (kend_C - kstart_C) >= 1);\n		if (!has_work)\n			continue;\n\n		// -------------------------------\n		// add contributions from matrix B and matrix C\n",
             "		const bool has_work = ((kend_B - kstart_B) + (kend_C - kstart_C) >= 1);\n		if (!has_work)\n			continue;\n\n		A.setRow(irow, counter);\n\n		// -------------------------------\n		// add contributions from matrix B and matrix C\n")],
     demo=r'''
#include "CrsMatrix.h"
using namespace PsimagLite;
int main() { Matrix<double> a(3, 3), b(3, 3); a(0, 0) = 1; a(2, 2) = 3; b(0, 1) = 2; b(2, 0) = 4;
  CrsMatrix<double> x(a), y(b), z; double one = 1; operatorPlus(z, x, one, y, one);
  Matrix<double> f = z.toDense(); Matrix<double> w = a; w += b;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (f(i, j) != w(i, j)) return 1; 
  return 0; }
'''),
dict(id="ladderx-handle", prop="P18",
     needs="the two sites of a diagonal bond given in descending order, on the X minus Y diagonal",
     breaks="handle(i,j) and handle(j,i) differ, so the bond uses another bond's coupling",
     edits=[("src/Geometry/LadderX.h", "			return imin / leg_;\n", "			return i1 / leg_;\n")],
     demo=r'''
#include "Vector.h"
#include <fstream>
#include "Geometry/GeometryBase.h"
#include "Geometry/LadderX.h"
using namespace PsimagLite;
struct Io { template <typename T> void readline(T& x, String l) { x = (l == "LadderLeg=") ? 2 : 0; if (l != "LadderLeg=") throw RuntimeError(l); } };
int main() {
  Io io; LadderX<double, Io> l(8, io);
  for (SizeType i = 0; i < 8; ++i) for (SizeType j = 0; j < 8; ++j) if (l.connected(i, j)) {
    if (!l.connected(j, i) || l.calcDir(i, j) != l.calcDir(j, i) || l.handle(i, j) != l.handle(j, i)) return 1; }
  return 0; }
'''),
dict(id="redirect-order", prop="P23",
     needs="a program that redirects std::cout twice (to one file, then to another) or prints from a static destructor after exit handlers ran",
     breaks="std::cout's buffer pointer is saved after it has been replaced, so at exit it is 'restored' to the closed file's buffer",
     edits=[("src/RedirectOutput.hh", "		cout_buffer_ = std::cout.rdbuf(); // save old buf\n		std::cout.rdbuf(cout_stream_.rdbuf()); // redirect std::cout to file\n",
             "		std::cout.rdbuf(cout_stream_.rdbuf()); // redirect std::cout to file\n		cout_buffer_ = std::cout.rdbuf(); // save old buf\n")],
     demo=r'''
#include "PsimagLite.h"
#include "RedirectOutput.hh"
#include <unistd.h>
static std::streambuf* orig;
static void last() { _exit(std::cout.rdbuf() == orig ? 0 : 1); }
int main() { orig = std::cout.rdbuf(); atexit(last);
  PsimagLite::RedirectOutput::setAppName("a", "b");
  PsimagLite::RedirectOutput::doIt("out.txt", std::ofstream::out, false); std::cout << "x\n"; return 0; }
'''),
dict(id="sumdec-index", prop="P24",
     needs="selection by index (SEL_INDEX) with a selection other than the first decomposition",
     breaks="the counter is advanced before it is compared, so the stored decomposition is the one before the requested index",
     edits=[("src/SumDecomposition.h", "			bool b1 = (sel_ == SEL_ALL);\n			bool b2 = (sel_ == SEL_INDEX && selection_ == size_);\n			if (b1 || b2)\n				data_.push_back(data);\n			size_++;\n",
             "			bool b1 = (sel_ == SEL_ALL);\n			size_++;\n			bool b2 = (sel_ == SEL_INDEX && selection_ == size_);\n			if (b1 || b2)\n				data_.push_back(data);\n")],
     demo=r'''
#include "SumDecomposition.h"
using namespace PsimagLite;
int main() { SumDecomposition all(3, 4); for (int i = 1; i < (int)all.size(); ++i) {
   SumDecomposition one(3, 4, SumDecomposition::SEL_INDEX, i); if (one.storedSize() != 1) return 1;
   for (int k = 0; k < 3; ++k) if (one(0)[k] != all(i)[k]) return 1; } return 0; }
'''),
]
