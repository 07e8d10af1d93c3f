BUGS = [
dict(id="bisect-giveup", prop="P06",
     needs="a bracketed function whose root is not located to the tolerance within the allowed bisections",
     breaks="running out of iterations builds the exception but does not throw it: the caller gets the last midpoint as if it were a root",
     edits=[("src/RootFindingBisection.h", "		throw std::runtime_error(msg);\n", "		std::runtime_error failure(msg);\n		return (a + b) / 2;\n")],
     demo=r'''
#include "Vector.h"
#include "RootFindingBisection.h"
using namespace PsimagLite;
struct F { typedef double RealType; double operator()(double x) const { return x < 0.3 ? -1 : 1; } };
int main() { F f; RootFindingBisection<F> r(f, 0, 1, 20, 1e-3); try { r(); } catch (std::exception&) { return 0; } return 1; }
'''),
dict(id="ast-literal-leak", prop="P10",
     needs="an expression evaluator that has parsed an expression with a literal in it, and is then destroyed",
     breaks="the nodes made for literals are not released with the others",
     edits=[("src/AST/PlusMinusMultiplyDivide.h", "			delete nodes_[i];\n", "			if (!nodes_[i]->isInput())\n				delete nodes_[i];\n")],
     demo=r'''
#include "PlusMinusMultiplyDivide.h"
#include <cstdlib>
#include <new>
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
int main() { for (int r = 0; r < 2; ++r) { long b = live; { PsimagLite::PlusMinusMultiplyDivide<double> p; p.findNodeFromCode("3.5"); p.findNodeFromCode("+"); }
  if (r && live != b) return 1; } return 0; }
'''),
dict(id="opspec-dof", prop="P17",
     needs="an operator label without a degree of freedom (no question mark)",
     breaks="the degree of freedom keeps whatever the memory held when the label names none",
     edits=[("src/OneOperatorSpec.h", "	    : dof(0)\n	    , label(label_)\n", "	    : label(label_)\n"),
            ("src/OneOperatorSpec.h", "		if (i == label.length())\n			return;\n", "		if (i == label.length()) {\n			if (transpose)\n				dof = 0;\n			return;\n		}\n")],
     demo=r'''
#include "PsimagLite.h"
#include "OneOperatorSpec.h"
#include <cstring>
#include <new>
using namespace PsimagLite;
int main() { alignas(16) static unsigned char m[sizeof(OneOperatorSpec)]; std::memset(m, 0x5a, sizeof(m));
  OneOperatorSpec* p = new (m) OneOperatorSpec("c"); bool b = (p->dof == 0 && p->label == "c" && !p->transpose); p->~OneOperatorSpec(); return b ? 0 : 1; }
'''),
dict(id="complex-literal-sign", prop="P22",
     needs="a complex literal with a zero real part written out and a negative imaginary part, like 0-2i",
     breaks="the minus sign before the imaginary part is dropped",
     edits=[("src/Complex.h", "		} else if (sign == '-') {\n", "		} else if (sign == '-' && real != 0) {\n")],
     demo=r'''
#include "PsimagLite.h"
#include "Complex.h"
using namespace PsimagLite;
int main() { return (stringToComplex("0-2i") == std::complex<double>(0, -2) && stringToComplex("1-2i") == std::complex<double>(1, -2)) ? 0 : 1; }
'''),
dict(id="opspec-second-mark", prop="P07",
     needs="an operator label with two question marks whose last part is a number",
     breaks="a label such as c?x?1 is accepted: what stands between the marks is taken as part of the name",
     edits=[("src/OneOperatorSpec.h", "			if (label[i] == '?')\n				break;\n", "			if (label[i] == '?' && label.find('?', i + 1) == String::npos)\n				break;\n")],
     demo=r'''
#include "PsimagLite.h"
#include "OneOperatorSpec.h"
using namespace PsimagLite;
int main() { OneOperatorSpec g("c?12'"); if (g.dof != 12 || g.label != "c" || !g.transpose) return 1;
  try { OneOperatorSpec b("c?x?1"); } catch (std::exception&) { return 0; } return 1; }
'''),
]
