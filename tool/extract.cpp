// Fact extractor: walks every non-dependent function definition (including
// implicit template instantiations) whose source lies below a given prefix and
// writes its resolved, normalised AST as JSON (one object per line).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutFile;

namespace {

class Emitter {
public:
	Emitter(ASTContext& c, llvm::raw_ostream& os)
	    : C(c), SM(c.getSourceManager()), OS(os), PP(c.getLangOpts()), NG(c)
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.Bool = true;
		PP.PrintCanonicalTypes = true;
		PP.AnonymousTagLocations = false;
		PP.SuppressUnwrittenScope = true;
		PP.SuppressInlineNamespace = true;
	}

	std::string fileOf(SourceLocation L)
	{
		L = SM.getExpansionLoc(L);
		if (L.isInvalid()) return "";
		StringRef f = SM.getFilename(L);
		if (f.empty()) return "";
		auto it = fileCache.find(f.str());
		if (it != fileCache.end()) return it->second;
		llvm::SmallString<256> r;
		std::string out = f.str();
		if (!llvm::sys::fs::real_path(f, r)) out = r.str().str();
		fileCache[f.str()] = out;
		return out;
	}
	// __LINE__ and __FILE__ say where the code is, not what it does
	bool positional(SourceLocation L)
	{
		if (!L.isMacroID()) return false;
		StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
		return n == "__LINE__" || n == "__FILE__";
	}
	unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
	bool wanted(SourceLocation L)
	{
		std::string f = fileOf(L);
		for (auto& p : Prefixes)
			if (f.compare(0, p.size(), p) == 0) return true;
		return false;
	}

	int type(QualType T)
	{
		if (T.isNull()) return -1;
		T = T.getCanonicalType();
		auto it = typeIds.find(T.getAsOpaquePtr());
		if (it != typeIds.end()) return it->second;
		std::string s = T.getAsString(PP);
		int id = typeIds.size();
		typeIds[T.getAsOpaquePtr()] = id;
		json::Object o { { "K", "type" }, { "i", id }, { "s", s } };
		line(std::move(o));
		return id;
	}
	void line(json::Object o)
	{
		pending.push_back(std::move(o));
	}
	void flush()
	{
		// a line never holds unfinished nested output: types are queued first
		for (auto& o : pending) OS << json::Value(std::move(o)) << "\n";
		pending.clear();
	}

	std::string mangled(const FunctionDecl* FD)
	{
		FD = FD->getCanonicalDecl();
		auto it = mcache.find(FD);
		if (it != mcache.end()) return it->second;
		std::string s;
		if (FD->isDependentContext()) s = "dep:" + FD->getQualifiedNameAsString();
		else s = NG.getName(FD);
		// local classes / lambdas can share mangled names across functions
		if (s.empty()) s = FD->getQualifiedNameAsString();
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
			if (MD->getParent()->isLambda())
				s += "@" + std::to_string(lineOf(MD->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(MD->getLocation()));
		mcache[FD] = s;
		return s;
	}

	int declId(const Decl* D)
	{
		D = D->getCanonicalDecl();
		auto it = ids.find(D);
		if (it != ids.end()) return it->second;
		int n = ids.size() + 1;
		ids[D] = n;
		return n;
	}

	std::string qn(const NamedDecl* D)
	{
		std::string s;
		llvm::raw_string_ostream o(s);
		D->printQualifiedName(o, PP);
		return o.str();
	}
	std::string recName(const CXXRecordDecl* R)
	{
		return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
	}

	std::string opName(const FunctionDecl* FD)
	{
		if (FD->isOverloadedOperator()) return getOperatorSpelling(FD->getOverloadedOperator());
		return "";
	}

	const Expr* strip(const Expr* E, bool& numcast)
	{
		for (;;) {
			if (!E) return E;
			if (auto* P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
			if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
			if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
			if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
			if (auto* P = dyn_cast<ImplicitCastExpr>(E)) {
				switch (P->getCastKind()) {
				case CK_IntegralCast:
				case CK_FloatingToIntegral:
				case CK_IntegralToFloating:
				case CK_FloatingCast:
				case CK_IntegralToBoolean:
				case CK_FloatingToBoolean:
				case CK_PointerToBoolean:
				case CK_UserDefinedConversion:
				case CK_ConstructorConversion:
				case CK_NullToPointer:
				case CK_NoOp:
				default:
					E = P->getSubExpr();
					continue;
				}
			}
			if (auto* P = dyn_cast<CXXConstructExpr>(E)) {
				// copy/move construction of the same type is the value itself
				if (P->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(P) && P->getConstructor()->isCopyOrMoveConstructor()) {
					E = P->getArg(0);
					continue;
				}
			}
			if (auto* P = dyn_cast<CXXFunctionalCastExpr>(E)) {
				if (P->getCastKind() == CK_ConstructorConversion || P->getCastKind() == CK_NoOp) {
					E = P->getSubExpr();
					continue;
				}
			}
			return E;
		}
	}

	json::Value args(const Expr* const* a, unsigned n)
	{
		json::Array r;
		for (unsigned i = 0; i < n; ++i) r.push_back(expr(a[i]));
		return r;
	}

	json::Object base(const char* k, const Expr* E)
	{
		json::Object o { { "k", k }, { "t", type(E->getType()) }, { "l", (int)lineOf(E->getExprLoc()) } };
		return o;
	}

	void constval(json::Object& o, const Expr* E)
	{
		if (E->isValueDependent() || E->isTypeDependent()) return;
		QualType T = E->getType();
		if (T.isNull() || !(T->isIntegralOrEnumerationType())) return;
		if (isa<CallExpr>(E)) return;
		Expr::EvalResult R;
		if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
			llvm::SmallString<32> s;
			R.Val.getInt().toString(s, 10);
			o["cv"] = s.str().str();
		}
	}

	void callee(json::Object& o, const FunctionDecl* FD)
	{
		o["f"] = qn(FD);
		o["fk"] = mangled(FD);
		o["n"] = FD->getNameAsString();
		if (FD->isExternC()) o["c"] = true;
		if (FD->isNoReturn()) o["nr"] = true;
		std::string op = opName(FD);
		if (!op.empty()) o["op"] = op;
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
			o["cls"] = recName(MD->getParent());
			if (MD->isConst()) o["const"] = true;
			if (MD->isStatic()) o["static"] = true;
			if (MD->isVirtual()) o["virt"] = true;
		}
		json::Array pts;
		bool any = false;
		for (auto* p : FD->parameters()) {
			QualType T = p->getType();
			int m = 0;
			if (T->isReferenceType()) m = T->getPointeeType().isConstQualified() ? 1 : 2;
			else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? 3 : 4;
			if (m) any = true;
			pts.push_back(m);
		}
		if (any) o["pm"] = std::move(pts);
	}

	json::Value expr(const Expr* E0)
	{
		bool nc = false;
		const Expr* E = strip(E0, nc);
		if (!E) return nullptr;
		if (auto* D = dyn_cast<DeclRefExpr>(E)) {
			json::Object o = base("ref", E);
			const ValueDecl* V = D->getDecl();
			o["n"] = V->getNameAsString();
			if (auto* FD = dyn_cast<FunctionDecl>(V)) {
				o["dk"] = "func";
				callee(o, FD);
			} else if (isa<ParmVarDecl>(V)) {
				o["dk"] = "param";
				o["id"] = declId(V);
			} else if (auto* VD = dyn_cast<VarDecl>(V)) {
				if (VD->hasLocalStorage()) o["dk"] = "local";
				else if (VD->isStaticLocal()) { o["dk"] = "slocal"; o["q"] = qn(V); }
				else { o["dk"] = "global"; o["q"] = qn(V); }
				o["id"] = declId(V);
			} else if (auto* EC = dyn_cast<EnumConstantDecl>(V)) {
				o["dk"] = "enum";
				o["q"] = qn(V);
				llvm::SmallString<32> s;
				EC->getInitVal().toString(s, 10);
				o["cv"] = s.str().str();
				return o;
			} else if (isa<BindingDecl>(V)) {
				o["dk"] = "local";
				o["id"] = declId(V);
			} else {
				o["dk"] = "other";
				o["id"] = declId(V);
			}
			constval(o, E);
			return o;
		}
		if (auto* M = dyn_cast<MemberExpr>(E)) {
			const ValueDecl* V = M->getMemberDecl();
			if (auto* VD = dyn_cast<VarDecl>(V)) {
				json::Object o = base("ref", E);
				o["n"] = V->getNameAsString();
				o["dk"] = "global";
				o["q"] = qn(V);
				o["id"] = declId(VD);
				constval(o, E);
				return o;
			}
			json::Object o = base("mem", E);
			o["n"] = V->getNameAsString();
			o["id"] = declId(V);
			if (auto* R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) o["cls"] = recName(R);
			if (M->isArrow()) o["arrow"] = true;
			o["b"] = expr(M->getBase());
			if (auto* FD = dyn_cast<FunctionDecl>(V)) { o["k"] = "memfn"; callee(o, FD); }
			return o;
		}
		if (isa<CXXThisExpr>(E)) return base("this", E);
		if (auto* I = dyn_cast<IntegerLiteral>(E)) {
			json::Object o = base("int", E);
			llvm::SmallString<32> s;
			I->getValue().toString(s, 10, I->getType()->isSignedIntegerType());
			o["v"] = positional(I->getBeginLoc()) ? std::string("0") : s.str().str();
			return o;
		}
		if (auto* B = dyn_cast<CXXBoolLiteralExpr>(E)) {
			json::Object o = base("int", E);
			o["v"] = B->getValue() ? "1" : "0";
			o["bool"] = true;
			return o;
		}
		if (auto* B = dyn_cast<CharacterLiteral>(E)) {
			json::Object o = base("int", E);
			o["v"] = std::to_string(B->getValue());
			o["chr"] = true;
			return o;
		}
		if (auto* F = dyn_cast<FloatingLiteral>(E)) {
			json::Object o = base("flt", E);
			llvm::SmallString<32> s;
			F->getValue().toString(s);
			o["v"] = s.str().str();
			return o;
		}
		if (auto* S = dyn_cast<StringLiteral>(E)) {
			json::Object o = base("str", E);
			if (positional(S->getBeginLoc())) o["v"] = "__FILE__";
			else if (S->getCharByteWidth() == 1) o["v"] = json::fixUTF8(S->getString());
			return o;
		}
		if (auto* S = dyn_cast<PredefinedExpr>(E)) {
			json::Object o = base("str", E);
			o["v"] = "__func__";
			o["pre"] = true;
			return o;
		}
		if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
			json::Object o = base("int", E);
			o["v"] = "0";
			o["null"] = true;
			return o;
		}
		if (auto* B = dyn_cast<BinaryOperator>(E)) {
			json::Object o = base(B->isAssignmentOp() ? "asg" : "bin", E);
			o["op"] = B->getOpcodeStr().str();
			o["a"] = expr(B->getLHS());
			o["b"] = expr(B->getRHS());
			constval(o, E);
			return o;
		}
		if (auto* U = dyn_cast<UnaryOperator>(E)) {
			std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
			json::Object o = base(U->isIncrementDecrementOp() ? "inc" : "un", E);
			if (U->isPostfix()) o["post"] = true;
			o["op"] = op;
			o["a"] = expr(U->getSubExpr());
			constval(o, E);
			return o;
		}
		if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
			json::Object o = base("sub", E);
			o["b"] = expr(A->getBase());
			o["i"] = expr(A->getIdx());
			return o;
		}
		if (auto* SE = dyn_cast<StmtExpr>(E)) {
			json::Object o = base("stmtexpr", E);
			o["b"] = stmt(SE->getSubStmt());
			return o;
		}
		if (auto* Cn = dyn_cast<ConditionalOperator>(E)) {
			json::Object o = base("cond", E);
			o["c"] = expr(Cn->getCond());
			o["a"] = expr(Cn->getTrueExpr());
			o["b"] = expr(Cn->getFalseExpr());
			constval(o, E);
			return o;
		}
		if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) {
			json::Object o = base("call", E);
			if (auto* FD = OC->getDirectCallee()) {
				callee(o, FD);
				unsigned n = OC->getNumArgs();
				auto* MD = dyn_cast<CXXMethodDecl>(FD);
				if (MD && !MD->isStatic()) {
					o["o"] = expr(OC->getArg(0));
					json::Array a;
					for (unsigned i = 1; i < n; ++i) a.push_back(expr(OC->getArg(i)));
					o["a"] = std::move(a);
				} else
					o["a"] = args(OC->getArgs(), n);
			} else {
				o["fe"] = expr(OC->getCallee());
				o["a"] = args(OC->getArgs(), OC->getNumArgs());
			}
			o["opc"] = true;
			return o;
		}
		if (auto* MC = dyn_cast<CXXMemberCallExpr>(E)) {
			json::Object o = base("call", E);
			if (auto* MD = MC->getMethodDecl()) {
				callee(o, MD);
				const Expr* IO = MC->getImplicitObjectArgument();
				o["o"] = expr(IO);
				if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
					if (ME->isArrow()) o["arrow"] = true;
					if (ME->hasQualifier()) o["qual"] = true;
				}
			} else
				o["fe"] = expr(MC->getCallee());
			o["a"] = args(MC->getArgs(), MC->getNumArgs());
			o["m"] = true;
			return o;
		}
		if (auto* Ca = dyn_cast<CallExpr>(E)) {
			json::Object o = base("call", E);
			if (auto* FD = Ca->getDirectCallee()) callee(o, FD);
			else o["fe"] = expr(Ca->getCallee());
			o["a"] = args(Ca->getArgs(), Ca->getNumArgs());
			return o;
		}
		if (auto* CE = dyn_cast<CXXConstructExpr>(E)) {
			json::Object o = base("ctor", E);
			auto* CD = CE->getConstructor();
			callee(o, CD);
			if (isa<CXXTemporaryObjectExpr>(CE)) o["tmp"] = true;
			o["a"] = args(CE->getArgs(), CE->getNumArgs());
			return o;
		}
		if (auto* N = dyn_cast<CXXNewExpr>(E)) {
			json::Object o = base("new", E);
			o["at"] = type(N->getAllocatedType());
			if (N->isArray()) {
				o["arr"] = true;
				if (N->getArraySize() && *N->getArraySize()) o["sz"] = expr(*N->getArraySize());
			}
			if (N->getNumPlacementArgs()) o["placement"] = true;
			if (N->getInitializer()) o["init"] = expr(N->getInitializer());
			return o;
		}
		if (auto* Dl = dyn_cast<CXXDeleteExpr>(E)) {
			json::Object o = base("del", E);
			if (Dl->isArrayForm()) o["arr"] = true;
			o["e"] = expr(Dl->getArgument());
			return o;
		}
		if (auto* Th = dyn_cast<CXXThrowExpr>(E)) {
			json::Object o = base("throw", E);
			if (Th->getSubExpr()) {
				o["e"] = expr(Th->getSubExpr());
				o["et"] = type(Th->getSubExpr()->getType());
			}
			return o;
		}
		if (auto* Cs = dyn_cast<ExplicitCastExpr>(E)) {
			json::Object o = base("cast", E);
			o["ck"] = Cs->getCastKindName();
			o["cc"] = Cs->getStmtClassName();
			o["e"] = expr(Cs->getSubExpr());
			constval(o, E);
			return o;
		}
		if (auto* L = dyn_cast<LambdaExpr>(E)) {
			json::Object o = base("lambda", E);
			json::Array caps;
			for (auto& c : L->captures()) {
				json::Object co;
				if (c.capturesThis()) co["this"] = true;
				else if (c.capturesVariable()) {
					co["n"] = c.getCapturedVar()->getNameAsString();
					co["id"] = declId(c.getCapturedVar());
					co["ref"] = c.getCaptureKind() == LCK_ByRef;
				}
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			auto* MD = L->getCallOperator();
			o["fk"] = mangled(MD);
			json::Array ps;
			for (auto* p : MD->parameters()) ps.push_back(param(p));
			o["params"] = std::move(ps);
			if (MD->hasBody() && !MD->isDependentContext()) o["body"] = stmt(MD->getBody());
			return o;
		}
		if (auto* IL = dyn_cast<InitListExpr>(E)) {
			json::Object o = base("ilist", E);
			const InitListExpr* S = IL->isSemanticForm() ? IL : IL->getSemanticForm();
			if (!S) S = IL;
			json::Array a;
			for (auto* e : S->inits()) a.push_back(expr(e));
			o["a"] = std::move(a);
			return o;
		}
		if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return base("zero", E);
		if (auto* Sz = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
			json::Object o = base("sizeof", E);
			o["at"] = type(Sz->getTypeOfArgument());
			constval(o, E);
			return o;
		}
		if (auto* PL = dyn_cast<ParenListExpr>(E)) {
			json::Object o = base("plist", E);
			json::Array a;
			for (unsigned i = 0; i < PL->getNumExprs(); ++i) a.push_back(expr(PL->getExpr(i)));
			o["a"] = std::move(a);
			return o;
		}
		if (auto* OV = dyn_cast<OpaqueValueExpr>(E)) {
			if (OV->getSourceExpr()) return expr(OV->getSourceExpr());
		}
		if (auto* TT = dyn_cast<CXXTypeidExpr>(E)) {
			json::Object o = base("typeid", E);
			if (TT->isTypeOperand()) o["at"] = type(TT->getTypeOperand(C));
			return o;
		}
		json::Object o = base("other", E);
		o["cc"] = E->getStmtClassName();
		json::Array a;
		for (const Stmt* s : E->children())
			if (auto* e = dyn_cast_or_null<Expr>(s)) a.push_back(expr(e));
		o["a"] = std::move(a);
		constval(o, E);
		return o;
	}

	json::Object param(const ParmVarDecl* p)
	{
		return json::Object { { "n", p->getNameAsString() }, { "id", declId(p) }, { "t", type(p->getType()) } };
	}

	json::Value vardecl(const VarDecl* V)
	{
		json::Object o { { "k", "var" }, { "n", V->getNameAsString() }, { "id", declId(V) }, { "t", type(V->getType()) }, { "l", (int)lineOf(V->getLocation()) } };
		if (V->isStaticLocal()) o["static"] = true;
		if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
		if (V->getInit()) {
			o["init"] = expr(V->getInit());
			if (V->getInitStyle() == VarDecl::CInit) o["ci"] = true;
		}
		if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
			json::Array b;
			for (auto* bd : DD->bindings()) b.push_back(json::Object { { "n", bd->getNameAsString() }, { "id", declId(bd) } });
			o["binds"] = std::move(b);
		}
		return o;
	}

	json::Object sbase(const char* k, const Stmt* S)
	{
		return json::Object { { "k", k }, { "l", (int)lineOf(S->getBeginLoc()) } };
	}

	json::Value stmt(const Stmt* S)
	{
		if (!S) return nullptr;
		if (auto* E = dyn_cast<Expr>(S)) {
			json::Object o = sbase("expr", S);
			o["e"] = expr(E);
			return o;
		}
		if (auto* Cs = dyn_cast<CompoundStmt>(S)) {
			json::Object o = sbase("seq", S);
			json::Array a;
			for (auto* s : Cs->body()) a.push_back(stmt(s));
			o["b"] = std::move(a);
			o["el"] = (int)lineOf(Cs->getRBracLoc());
			return o;
		}
		if (auto* D = dyn_cast<DeclStmt>(S)) {
			json::Object o = sbase("decl", S);
			json::Array a;
			for (auto* d : D->decls())
				if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
			o["d"] = std::move(a);
			return o;
		}
		if (auto* I = dyn_cast<IfStmt>(S)) {
			json::Object o = sbase("if", S);
			if (I->isConstexpr()) o["cx"] = true;
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (auto* V = I->getConditionVariable()) o["cvd"] = vardecl(V);
			o["c"] = expr(I->getCond());
			o["t"] = stmt(I->getThen());
			if (I->getElse()) o["e"] = stmt(I->getElse());
			return o;
		}
		if (auto* F = dyn_cast<ForStmt>(S)) {
			json::Object o = sbase("for", S);
			if (F->getInit()) o["i"] = stmt(F->getInit());
			if (F->getCond()) o["c"] = expr(F->getCond());
			if (F->getInc()) o["s"] = expr(F->getInc());
			o["b"] = stmt(F->getBody());
			return o;
		}
		if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
			json::Object o = sbase("rfor", S);
			o["v"] = vardecl(F->getLoopVariable());
			o["r"] = expr(F->getRangeInit());
			o["b"] = stmt(F->getBody());
			return o;
		}
		if (auto* W = dyn_cast<WhileStmt>(S)) {
			json::Object o = sbase("while", S);
			if (auto* V = W->getConditionVariable()) o["cvd"] = vardecl(V);
			o["c"] = expr(W->getCond());
			o["b"] = stmt(W->getBody());
			return o;
		}
		if (auto* D = dyn_cast<DoStmt>(S)) {
			json::Object o = sbase("do", S);
			o["c"] = expr(D->getCond());
			o["b"] = stmt(D->getBody());
			return o;
		}
		if (auto* R = dyn_cast<ReturnStmt>(S)) {
			json::Object o = sbase("ret", S);
			if (R->getRetValue()) o["e"] = expr(R->getRetValue());
			return o;
		}
		if (isa<BreakStmt>(S)) return sbase("brk", S);
		if (isa<ContinueStmt>(S)) return sbase("cnt", S);
		if (isa<NullStmt>(S)) return sbase("nop", S);
		if (auto* Sw = dyn_cast<SwitchStmt>(S)) {
			json::Object o = sbase("switch", S);
			o["c"] = expr(Sw->getCond());
			o["b"] = stmt(Sw->getBody());
			return o;
		}
		if (auto* Ca = dyn_cast<CaseStmt>(S)) {
			json::Object o = sbase("case", S);
			o["v"] = expr(Ca->getLHS());
			o["b"] = stmt(Ca->getSubStmt());
			return o;
		}
		if (auto* De = dyn_cast<DefaultStmt>(S)) {
			json::Object o = sbase("default", S);
			o["b"] = stmt(De->getSubStmt());
			return o;
		}
		if (auto* T = dyn_cast<CXXTryStmt>(S)) {
			json::Object o = sbase("try", S);
			o["b"] = stmt(T->getTryBlock());
			json::Array hs;
			for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
				auto* H = T->getHandler(i);
				json::Object h = sbase("catch", H);
				if (H->getExceptionDecl()) h["v"] = vardecl(H->getExceptionDecl());
				h["b"] = stmt(H->getHandlerBlock());
				hs.push_back(std::move(h));
			}
			o["h"] = std::move(hs);
			return o;
		}
		if (auto* L = dyn_cast<LabelStmt>(S)) {
			json::Object o = sbase("label", S);
			o["b"] = stmt(L->getSubStmt());
			return o;
		}
		if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
		if (auto* D = dyn_cast<OMPExecutableDirective>(S)) {
			json::Object o = sbase("omp", S);
			std::string txt = std::string(llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()));
			for (const OMPClause* c : D->clauses())
				if (c && !c->isImplicit()) {
					txt += ' ';
					txt += std::string(llvm::omp::getOpenMPClauseName(c->getClauseKind()));
					for (const Stmt* ch : c->children())
						if (ch) {
							std::string t;
							llvm::raw_string_ostream os(t);
							ch->printPretty(os, nullptr, PP);
							txt += "(" + os.str() + ")";
						}
				}
			o["d"] = txt;
			const Stmt* b = D->hasAssociatedStmt() ? D->getRawStmt() : nullptr;
			if (b) o["b"] = stmt(b);
			return o;
		}
		json::Object o = sbase("sother", S);
		o["cc"] = S->getStmtClassName();
		json::Array a;
		for (const Stmt* s : S->children())
			if (s) a.push_back(stmt(s));
		o["a"] = std::move(a);
		return o;
	}

	std::string accessStr(AccessSpecifier a)
	{
		return a == AS_public ? "public" : a == AS_private ? "private" : a == AS_protected ? "protected" : "none";
	}

	void function(const FunctionDecl* FD)
	{
		if (FD->isDependentContext() || !FD->doesThisDeclarationHaveABody()) return;
		if (!FD->getBody()) return;
		SourceLocation loc = FD->getLocation();
		if (!wanted(loc)) return;
		std::string key = mangled(FD);
		if (!done.insert(key).second) return;
		json::Object o { { "K", "fn" }, { "fk", key }, { "q", qn(FD) }, { "n", FD->getNameAsString() }, { "file", fileOf(loc) }, { "l", (int)lineOf(loc) }, { "el", (int)lineOf(FD->getEndLoc()) } };
		o["ret"] = type(FD->getReturnType());
		std::string op = opName(FD);
		if (!op.empty()) o["op"] = op;
		if (FD->isImplicit()) o["implicit"] = true;
		if (FD->isDefaulted()) o["defaulted"] = true;
		if (FD->isInlined()) o["inline"] = true;
		if (FD->isTemplateInstantiation()) o["inst"] = true;
		if (FD->isNoReturn()) o["nr"] = true;
		if (FD->getFormalLinkage() == Linkage::Internal) o["intl"] = true;
		if (const FunctionDecl* P = FD->getTemplateInstantiationPattern()) o["pl"] = (int)lineOf(P->getLocation());
		if (auto* TA = FD->getTemplateSpecializationArgs()) {
			json::Array a;
			for (auto& t : TA->asArray()) {
				std::string s;
				llvm::raw_string_ostream ss(s);
				t.print(PP, ss, true);
				a.push_back(ss.str());
			}
			o["targs"] = std::move(a);
		}
		json::Array ps;
		for (auto* p : FD->parameters()) {
			json::Object po = param(p);
			if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg()) {
				const Expr* D = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
				if (D && !D->isValueDependent() && !D->isTypeDependent() && !D->isInstantiationDependent()) po["def"] = expr(D);
			}
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		if (auto* FPT = FD->getType()->getAs<FunctionProtoType>())
			if (isNoexceptExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot && !isa<CXXDestructorDecl>(FD)) o["nothrow"] = true;
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
			o["cls"] = recName(MD->getParent());
			if (MD->isConst()) o["const"] = true;
			if (MD->isStatic()) o["static"] = true;
			if (MD->isVirtual()) o["virt"] = true;
			o["acc"] = accessStr(MD->getAccess());
			if (MD->getParent()->isLambda()) o["lambda"] = true;
			if (MD->isCopyAssignmentOperator()) o["copyasg"] = true;
			json::Array ov;
			for (auto* m : MD->overridden_methods()) ov.push_back(mangled(m));
			if (!ov.empty()) o["ov"] = std::move(ov);
			if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
				o["ctor"] = true;
				if (CD->isCopyConstructor()) o["copy"] = true;
				if (CD->isMoveConstructor()) o["move"] = true;
				if (CD->isDelegatingConstructor()) o["delegating"] = true;
				json::Array in;
				for (auto* I : CD->inits()) {
					json::Object io;
					if (I->isAnyMemberInitializer()) {
						io["m"] = I->getAnyMember()->getNameAsString();
						io["mt"] = type(I->getAnyMember()->getType());
					} else if (I->isBaseInitializer()) io["base"] = QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP);
					else io["deleg"] = true;
					if (I->isWritten()) io["w"] = true;
					if (I->isInClassMemberInitializer()) io["ic"] = true;
					io["l"] = (int)lineOf(I->getSourceLocation());
					if (I->getInit()) io["e"] = expr(I->getInit());
					in.push_back(std::move(io));
				}
				o["inits"] = std::move(in);
			}
			if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
		}
		o["body"] = stmt(FD->getBody());
		line(std::move(o));
		flush();
	}

	void externFn(const FunctionDecl* FD)
	{
		// extern "C" prototypes declared by the repository itself
		if (!FD->isExternC() || FD->doesThisDeclarationHaveABody()) return;
		if (!wanted(FD->getLocation())) return;
		json::Object o { { "K", "proto" }, { "n", FD->getNameAsString() }, { "file", fileOf(FD->getLocation()) }, { "l", (int)lineOf(FD->getLocation()) } };
		o["ret"] = type(FD->getReturnType());
		json::Array ps;
		for (auto* p : FD->parameters()) ps.push_back(param(p));
		o["params"] = std::move(ps);
		line(std::move(o));
		flush();
	}

	void record(const CXXRecordDecl* R)
	{
		if (R->isDependentContext() || !R->isThisDeclarationADefinition() || R->isLambda()) return;
		if (!wanted(R->getLocation())) return;
		std::string name = recName(R);
		if (!recs.insert(name).second) return;
		json::Object o { { "K", "rec" }, { "q", name }, { "pq", R->getQualifiedNameAsString() }, { "n", R->getNameAsString() }, { "file", fileOf(R->getLocation()) }, { "l", (int)lineOf(R->getLocation()) } };
		json::Array fs;
		for (auto* f : R->fields()) {
			json::Object fo { { "n", f->getNameAsString() }, { "id", declId(f) }, { "t", type(f->getType()) }, { "l", (int)lineOf(f->getLocation()) } };
			if (f->hasInClassInitializer()) fo["init"] = true;
			if (f->isMutable()) fo["mut"] = true;
			fo["acc"] = accessStr(f->getAccess());
			QualType T = f->getType();
			fo["pod"] = (bool)(T->isScalarType() || T->isEnumeralType());
			if (T->isPointerType()) fo["ptr"] = true;
			if (T->isReferenceType()) fo["ref"] = true;
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		json::Array bs;
		for (auto& b : R->bases()) bs.push_back(b.getType().getCanonicalType().getAsString(PP));
		o["bases"] = std::move(bs);
		json::Array ms;
		for (auto* d : R->decls()) {
			const FunctionDecl* FD = dyn_cast<FunctionDecl>(d);
			if (auto* FT = dyn_cast<FunctionTemplateDecl>(d)) {
				ms.push_back(json::Object { { "n", FT->getNameAsString() }, { "tmpl", true }, { "acc", accessStr(d->getAccess()) }, { "l", (int)lineOf(d->getLocation()) } });
				continue;
			}
			auto* MD = dyn_cast_or_null<CXXMethodDecl>(FD);
			if (!MD) continue;
			json::Object mo { { "n", MD->getNameAsString() }, { "fk", mangled(MD) }, { "acc", accessStr(MD->getAccess()) }, { "l", (int)lineOf(MD->getLocation()) }, { "t", type(MD->getType()) } };
			if (MD->isImplicit()) mo["implicit"] = true;
			if (MD->isDeleted()) mo["deleted"] = true;
			if (MD->isDefaulted()) mo["defaulted"] = true;
			if (MD->isVirtual()) mo["virt"] = true;
			if (MD->isPureVirtual()) mo["pure"] = true;
			if (MD->isConst()) mo["const"] = true;
			if (MD->isStatic()) mo["static"] = true;
			if (MD->isCopyAssignmentOperator()) mo["copyasg"] = true;
			if (MD->isMoveAssignmentOperator()) mo["moveasg"] = true;
			if (auto* CD = dyn_cast<CXXConstructorDecl>(MD)) {
				mo["ctor"] = true;
				if (CD->isCopyConstructor()) mo["copy"] = true;
				if (CD->isMoveConstructor()) mo["move"] = true;
			}
			if (isa<CXXDestructorDecl>(MD)) mo["dtor"] = true;
			mo["hasbody"] = MD->isDefined();
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		if (R->isAbstract()) o["abstract"] = true;
		if (auto* D = R->getDestructor()) o["dtorvirt"] = D->isVirtual();
		line(std::move(o));
		flush();
	}

	void variable(const VarDecl* V)
	{
		if (V->hasLocalStorage() || isa<ParmVarDecl>(V)) return;
		if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return;
		if (!wanted(V->getLocation())) return;
		json::Object o { { "K", "gvar" }, { "q", qn(V) }, { "n", V->getNameAsString() }, { "file", fileOf(V->getLocation()) }, { "l", (int)lineOf(V->getLocation()) }, { "t", type(V->getType()) } };
		o["const"] = V->getType().isConstQualified() || V->isConstexpr();
		if (V->isStaticLocal()) o["slocal"] = true;
		if (V->isStaticDataMember()) o["smember"] = true;
		if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
		o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
		o["linkage"] = V->getFormalLinkage() == Linkage::External ? "ext" : V->getFormalLinkage() == Linkage::Internal ? "int" : "other";
		if (V->isInline()) o["inline"] = true;
		if (V->getTemplateSpecializationKind() != TSK_Undeclared) o["inst"] = true;
		if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
		line(std::move(o));
		flush();
	}

	void enumd(const EnumDecl* E)
	{
		if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !wanted(E->getLocation())) return;
		json::Object o { { "K", "enum" }, { "q", qn(E) }, { "file", fileOf(E->getLocation()) }, { "l", (int)lineOf(E->getLocation()) } };
		json::Array a;
		for (auto* c : E->enumerators()) {
			llvm::SmallString<32> s;
			c->getInitVal().toString(s, 10);
			a.push_back(json::Array { c->getNameAsString(), s.str().str() });
		}
		o["v"] = std::move(a);
		line(std::move(o));
		flush();
	}

	// template (dependent) functions never instantiated: report their existence
	void pattern(const FunctionDecl* FD)
	{
		if (!FD->isDependentContext() || !FD->doesThisDeclarationHaveABody()) return;
		if (!wanted(FD->getLocation())) return;
		std::string k = fileOf(FD->getLocation()) + ":" + std::to_string(lineOf(FD->getLocation()));
		if (!pats.insert(k).second) return;
		line(json::Object { { "K", "pat" }, { "q", FD->getQualifiedNameAsString() }, { "file", fileOf(FD->getLocation()) }, { "l", (int)lineOf(FD->getLocation()) } });
		flush();
	}

private:
	ASTContext& C;
	SourceManager& SM;
	llvm::raw_ostream& OS;
	PrintingPolicy PP;
	ASTNameGenerator NG;
	std::map<std::string, std::string> fileCache;
	std::map<void*, int> typeIds;
	std::map<const FunctionDecl*, std::string> mcache;
	std::map<const Decl*, int> ids;
	std::set<std::string> done, recs, pats;
	std::vector<json::Object> pending;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
	explicit Visitor(Emitter& e) : Em(e) { }
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl* FD)
	{
		Em.function(FD);
		Em.externFn(FD);
		Em.pattern(FD);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* R)
	{
		Em.record(R);
		return true;
	}
	bool VisitVarDecl(VarDecl* V)
	{
		Em.variable(V);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* E)
	{
		Em.enumd(E);
		return true;
	}

private:
	Emitter& Em;
};

class Consumer : public ASTConsumer {
public:
	explicit Consumer(llvm::raw_ostream& os) : OS(os) { }
	void HandleTranslationUnit(ASTContext& C) override
	{
		Emitter e(C, OS);
		Visitor v(e);
		v.TraverseDecl(C.getTranslationUnitDecl());
		e.flush();
		OS << json::Value(json::Object { { "K", "tu" }, { "errors", (int)C.getDiagnostics().getClient()->getNumErrors() } }) << "\n";
	}

private:
	llvm::raw_ostream& OS;
};

class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
	{
		std::error_code ec;
		os = std::make_unique<llvm::raw_fd_ostream>(OutFile, ec);
		return std::make_unique<Consumer>(*os);
	}

private:
	std::unique_ptr<llvm::raw_fd_ostream> os;
};
}

int main(int argc, const char** argv)
{
	// extract OUT PREFIX[,PREFIX...] SOURCE -- FLAGS
	if (argc < 5) {
		llvm::errs() << "usage: extract OUT PREFIXES SOURCE -- FLAGS\n";
		return 2;
	}
	OutFile = argv[1];
	llvm::SmallVector<StringRef, 4> ps;
	StringRef(argv[2]).split(ps, ',');
	for (auto p : ps) Prefixes.push_back(p.str());
	std::string src = argv[3];
	std::string err;
	auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
	if (!db) {
		llvm::errs() << "no flags: " << err << "\n";
		return 2;
	}
	tooling::ClangTool T(*db, { src });
	return T.run(tooling::newFrontendActionFactory<Action>().get());
}
