"""Which behavioural differences bear on which property.

A property selects reference functions (by file, by name, or by what they call) and,
for the cross-cutting properties, the kind of effect that differs."""
import re


def infiles(*pats):
    rx = re.compile("^src/(?:" + "|".join(pats) + ")$")
    return lambda it: bool(rx.match(it["file"]))


def named(*pats):
    rx = re.compile("^(?:" + "|".join(pats) + ")$")
    return lambda it: bool(rx.match(it["n"]))


def cls(*pats):
    rx = re.compile("|".join(pats))
    return lambda it: bool(rx.search(it["q"]))


def anyof(*fs):
    return lambda it: any(f(it) for f in fs)


def allof(*fs):
    return lambda it: all(f(it) for f in fs)


def piece_kind(*ks):
    ks = set(ks)
    return lambda it, p: bool(ks & set(p["kinds"]))


def piece_names(rx):
    rx = re.compile(rx)
    return lambda it, p: any(rx.search(n) for n in p["names"])


def piece_line(rx):
    rx = re.compile(rx)
    return lambda it, p: any(rx.search(n) for n in p["line"])


def por(*fs):
    return lambda it, p: any(f(it, p) for f in fs)


def always(it, p):
    return True


ANY = lambda it: True

THROWS = piece_kind("throw", "assert")
MPI = infiles(r"Mpi.*", r"InterNodeMpi\.h", r"LoadBalancerMpi\.h", r"PthreadsAndMpi\.h", r"Concurrency\.(h|cpp)")
THREADS = infiles(r"Pthreads.*", r"NoPthreads.*", r"Parallelizer.*", r"Concurrency\.(h|cpp)", r"CodeSectionParams\.h")
TASKS = infiles(r"LoadBalancer.*", r"Pthreads.*", r"NoPthreads.*", r"Parallelizer.*", r"InterNode.*", r"GemmR\.h")
GEOM = infiles(r"Geometry/.*")
IO = infiles(r"Io/.*")
SERIAL = named("write", "read", "operator<<", "operator>>", "import", "overwrite", "unpack.*", "pack.*", "serialize.*", "deserialize.*",
               "read.*", "write.*", "internal.*", "store", "load", "send", "recv", "bcast", "save.*", "print.*", "disable", "unprintable", "get")
WHOLE = named("operator=", "operator==", "operator!=", "swap", "clear", "resize", "reset", "copy", "setTo", "set", "build.*", "checkConsistency",
              "isZero", "isOne", "isDiagonal", "isHermitian", "isAntiHermitian", "isTheIdentity", "isIdentity", "reserve", "resizeNoCopy", "pushBack", "push_back", "push", "pop", "setRow",
              "setCol", "setValues", "operator\\+=", "operator-=", "operator\\*=", "operator\\(\\)", "operator\\[\\]", "size", "rows", "cols", "n_row", "n_col", "nonZeros", "nonZero", "capacity", "notReallySort", "sort", "fromChunk", "makeDiagonal", "fillFromDense.*")


def ioctor(it):
    """a constructor that reads its object from a stream or an input"""
    return ctor(it) and any(re.search(r"(^|_)(io|is|in|input|fin|stream|serializer)", str(p), re.I) for p in it.get("pn") or [])


def ctor(it):
    c = it["cls"].split("<")[0].rsplit("::", 1)[-1] if it["cls"] else ""
    return bool(c) and it["n"].split("<")[0] == c


def dtor(it):
    return it["n"].startswith("~")


CONJ = r"^(conj|std::conj|PsimagLite::conj|real|imag|norm|arg|polar|proj|std::real|std::imag|PsimagLite::real|PsimagLite::imag|abs)$|[HC]ER|HEMM|HEMV|zdotc|cdotc|'C'|^transposeConjugate"
REL = r"^(delete|new|free|fclose|H5\w*close|H5.*::close|close|pthread_attr_destroy|pthread_mutex_destroy|closedir|gsl_\w*free|drop)$|::close$|_free$|destroy|~"

# property -> (function scope, piece scope, attribute kinds)
MODEB = {
    "P01": (infiles(r"BLAS\.h", r"LAPACK\.h", r"LapackExtra\.h", r"Matrix\.(h|cpp)", r"Svd\.h", r"GemmR\.h", r"LinearPrediction\.h", r"DavidsonSolver\.h", r"LanczosCore\.h", r"CrsMatrix\.h", r"Vector\.h"),
            lambda it, p: it["file"].endswith(("BLAS.h", "LAPACK.h", "LapackExtra.h")) or any("psimag::" in n or re.match(r"^[sdcz][a-z0-9]{2,}_$", n) for n in p["line"]), ("default",)),
    "P02": (infiles(r"Matrix\.(h|cpp)", r"Svd\.h", r"LinearPrediction\.h", r"LAPACK\.h", r"TridiagonalMatrix\.(h|cpp)", r"GemmR\.h"),
            lambda it, p: lapack(it), ()),
    "P03": (THREADS, always, ("default", "tls", "value", "narrow")),
    "P04": (TASKS, always, ("default", "narrow", "value", "virtual")),
    "P06": (ANY, por(piece_kind("throw"), piece_names(r"^(exit|abort|std::terminate|std::abort|std::exit|rethrow|_exit|quick_exit)$"),
                     lambda it, p: any(re.match(r"^(H5|MPI_)", n) for n in p["names"])), ("noexcept",)),
    "P07": (ANY, THROWS, ()),
    "P08": (anyof(SERIAL, IO, infiles(r"SparseRow.*", r"ChebyshevSerializer\.h", r"ContinuedFraction.*", r"MpiYes\.h", r"TypeToString\.h"),
                  allof(infiles(r"(Matrix|CrsMatrix|TridiagonalMatrix|SparseVector|Vector|Stack|Map|TypeToString)\.h"), SERIAL), ioctor), always, ("value", "narrow")),
    "P09": (anyof(WHOLE, infiles(r"MemResolv.*", r"LanczosVectors\.h")), always, ("narrow",)),
    "P10": (ANY, por(piece_kind("delete", "new"), piece_names(REL)), ("virtual",)),
    "P11": (infiles(r"CrsMatrix\.h", r"SparseRow.*", r"SampleCRSMatrix\.h"), always, ("narrow",)),
    "P12": (infiles(r"Matrix\.(h|cpp)", r"MatrixNonOwned\.h", r"CrsMatrix\.h", r"Vector\.h", r"SparseVector\.h", r"TridiagonalMatrix\.(h|cpp)", r"GemmR\.h",
                    r"Sort\.h", r"Permutations\.h", r"Complex\.h", r"SparseRow.*", r"Svd\.h", r"Stack\.h", r"Map\.h"), always, ("narrow", "default")),
    "P13": (anyof(infiles(r"Matrix\.(h|cpp)", r"CrsMatrix\.h", r"Vector\.h", r"Complex\.h", r"SparseVector\.h", r"Lanczos.*", r"ContinuedFraction.*", r"CmplxOrReal\.h",
                          r"SparseRow.*", r"DavidsonSolver\.h", r"Chebyshev.*", r"TridiagonalMatrix.*", r"Geometry/.*", r"MatrixNonOwned\.h", r"BLAS\.h", r"LinearPrediction\.h"), ANY),
            lambda it, p: it["file"].endswith(("Complex.h", "CmplxOrReal.h")) or conjish(it, p), ("default",)),
    "P14": (infiles(r"AST/.*", r"Predicate.*", r"ParametersForSolver\.h", r"Options\.h", r"Geometry/Geometry\.h", r"Geometry/GeometryTerm\.h", r"QuasiCanonical\.h", r"CanonicalExpression\.h",
                    r"FreqEnum\.h", r"Ainur/.*", r"InputNg\.h", r"InputCheckBase\.h", r"GetBraOrKet\.h", r"OneOperatorSpec\.h", r"LabelDisabled\.h", r"CmplxOrReal\.h"), always, ("default", "value", "virtual")),
    "P15": (anyof(infiles(r"MersenneTwister\.(h|cpp)", r"Random48\.h", r"RandomForTests\.h", r"SampleCRSMatrix\.h"),
                  allof(infiles(r".*"), lambda it: False)), always, ("value", "narrow", "tls", "default")),
    "P16": (anyof(MPI, named("send", "recv", "bcast", "reduce", "allReduce", "gather", "scatter", "MpiSend", "MpiRecv", "MpiBroadcast")), always, ("value", "default", "narrow")),
    "P17": (ANY, lambda it, p: uninitish(it, p), ()),
    "P18": (GEOM, always, ("virtual", "narrow", "default")),
    "P20": (anyof(named("convertFromBoolean", "convertToBoolean", "encodeBooleanSize", "decodeBooleanSize", "complexToInteger"), infiles(r"PsiBase64\.(h|cpp)", r"PackIndices\.h", r"Permutations\.h", r"BitManip\.h", r"FreqEnum\.h", r"TypeToString\.h", r"Sort\.h", r"SumDecomposition\.h",
                    r"GetBraOrKet\.h", r"OneOperatorSpec\.h")), always, ("value", "narrow", "default")),
    "P21": (infiles(r"Lanczos.*", r"TridiagonalMatrix\.(h|cpp)", r"Chebyshev.*", r"KernelPolynomialParameters\.h", r"ContinuedFraction.*", r"RungeKutta\.h",
                    r"RootFindingBisection\.h", r"AkimaSpline\.h", r"Fermi\.h", r"SpecialFunctions\.(h|cpp)", r"LinearPrediction\.h", r"Integrator\.h", r"DavidsonSolver\.h", r"Minimizer\.h",
                    r"PlotParams\.h", r"ParametersForSolver\.h", r"GslWrapper\.h", r"AlmostEqual\.h", r"FloatingPoint\.h"), always, ("value", "narrow", "default", "virtual")),
    "P22": (infiles(r"CmplxOrReal\.h", r"Complex\.h", r"AST/.*", r"LabelDisabled\.h", r"InputNg\.h", r"InputCheckBase\.h", r"Ainur/.*", r"PsimagLite\.(h|cpp)", r"Options\.h", r"Io/IoSimple\.h", r"ParametersForSolver\.h", r"OneOperatorSpec\.h", r"GetBraOrKet\.h",
                    r"TypeToString\.h", r"PredicateSimple\.(h|cpp)", r"PredicateAwesome\.h", r"PredicateAnd\.h", r"PredicateDefaultSpec\.h", r"CodeSectionParams\.h"), always, ("value", "default", "narrow", "virtual")),
    "P23": (infiles(r"RedirectOutput\.hh", r"ProgressIndicator\.(h|cpp)", r"Profiling\.h", r"MemoryUsage\.h", r"LineMarker\.h", r"Concurrency\.(h|cpp)", r"CodeSectionParams\.h", r"ApplicationInfo\.h",
                    r"PsimagLite\.(h|cpp)", r"AnsiColors\.h", r"MicroArchitecture\.h", r"Limit\.h", r"Parallelizer\.h", r"MemResolv\.(h|cpp)", r"AllocatorCpu\.h", r"Io/TypeToH5\.(h|cpp)", r"Optional\.h", r"DeepCopyOrNot\.h",
                    r"InputCheckBase\.h", r"PlotParams\.h"), always, ("value", "default", "narrow", "tls", "virtual")),
    "P24": (infiles(r"SumDecomposition\.h", r"Permutations\.h", r"Sort\.h", r"Stack\.h", r"Map\.h", r"PredicateDefaultSpec\.h", r"PackIndices\.h", r"BitManip\.h", r"MemoryUsage\.h",
                    r"QuasiCanonical\.h", r"CanonicalExpression\.h", r"LabelDisabled\.h", r"Optional\.h", r"AlmostEqual\.h", r"FloatingPoint\.h", r"DeepCopyOrNot\.h"), always, ("value", "narrow", "default")),
}


def lapack(it):
    if it["file"].endswith(("LAPACK.h", "Svd.h")):
        return True
    return it["n"] in ("diag", "inverse", "geev", "svd", "eigs", "diagonalize", "linearPredictionInternal", "buildTridiag", "exp", "expComplexOrReal") or \
        any("psimag::LAPACK" in n for p in it["pieces"] for n in p["line"]) or "Prediction" in it["q"]


def conjish(it, p):
    if re.search(r"[hH]ermit|[cC]onj|scalarProduct|norm|[rR]eal|[iI]mag|external|outer|multiplyScalar|dot", it["n"]):
        return True
    return any(re.search(CONJ, n) for n in p["names"]) or any(re.search(r"^(conj|real|imag)$", n) for n in p["line"])


def uninitish(it, p):
    if "uninit" in p["names"]:
        return True
    if (p["dk"] == ["lost"]) and ctor(it) and set(p["kinds"]) & {"store", "init", "initbase"}:
        return True
    # the element values of a freshly sized container
    return set(p["kinds"]) <= {"init"} and "lost" in p["dk"]
