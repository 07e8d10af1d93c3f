#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os, sys
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


prop("P01", "Linear-algebra bindings call the right routine on the right operands",
     "For each scalar type, every BLAS and LAPACK wrapper forwards to the Fortran routine of exactly that precision and operation, with each caller argument in the position the routine documents for it. Every caller inside the library gives, for each matrix operand, the leading dimension, order and count that belong to that same operand.",
     ["inputs", "configurations"],
     "all four scalar types, all matrix shapes (in particular non-square ones), all transposition and side flags",
     "Tests use square or tiny matrices in one or two precisions; a swapped leading dimension or a wrong-precision routine is invisible until the operands are rectangular or the other precision is used.",
     ["src/BLAS.h", "src/LAPACK.h", "src/LapackExtra.h", "src/Matrix.h", "src/Matrix.cpp", "src/Svd.h", "src/GemmR.h", "src/LinearPrediction.h"],
     [("GEMM/GEMV/GER/... overloads", "src/BLAS.h"), ("GETRF/GETRI/SYEV... overloads", "src/LAPACK.h"),
      ("diag, inverse, geev, operator* closures", "src/Matrix.h, src/Matrix.cpp"), ("column-block products", "src/GemmR.h")])

prop("P02", "LAPACK failures are reported and workspaces are large enough",
     "Whenever a LAPACK computation inside the library signals failure, the caller gets an exception and never a result built from the failed factorisation. Every workspace handed to LAPACK has at least the size declared to LAPACK, and a size obtained from a workspace query is the size then allocated and declared.",
     ["inputs", "fault_sequences"],
     "every matrix, including singular, non-convergent and empty ones, and every scalar type",
     "Failure codes only appear for rare matrices that no test feeds; an undersized workspace corrupts memory only for some shapes.",
     ["src/Matrix.h", "src/Matrix.cpp", "src/Svd.h", "src/LinearPrediction.h", "src/LAPACK.h"],
     [("info checks after each LAPACK call", "src/Matrix.cpp diag, geev; src/Matrix.h inverse; src/Svd.h"),
      ("workspace query protocol", "src/Matrix.cpp, src/Svd.h")])

prop("P03", "Worker threads are started, joined and locked on every path",
     "Every parallel loop starts one worker per requested thread, hands each worker a private record that stays alive and unmodified until that worker is joined, and joins every worker it started before returning, before releasing the records and before collecting their results. A mutex that is locked is unlocked on every path, is initialised before first use and is destroyed exactly once.",
     ["schedules", "inputs"],
     "all interleavings, thread counts, task counts and load distributions",
     "A missing join, a record reused between workers or an unlock skipped on one path only shows under particular interleavings; tests run one or two thread counts.",
     ["src/PthreadsNg.h", "src/Pthreads.h", "src/Parallelizer2Pthread.h", "src/PthreadsAndMpi.h", "src/Concurrency.h", "src/Concurrency.cpp"],
     [("create/join loops", "src/PthreadsNg.h loopCreate, src/Parallelizer2Pthread.h parallelFor"),
      ("mutex wrappers", "src/Concurrency.cpp")])

prop("P04", "Every parallel task is executed exactly once",
     "For every number of tasks and every number of threads, processes or weights, the union of the task lists handed to the workers is exactly the set of tasks, with no task given twice and none dropped. The thread index given to a task is the index of the worker that runs it and is less than the number of threads in use.",
     ["inputs", "configurations", "schedules"],
     "all task counts (0, fewer than threads, not multiples), thread counts, weight vectors, chunk and affinity options, and all back ends (serial, POSIX threads, OpenMP, MPI)",
     "Tests check a handful of (tasks, threads) pairs; a remainder or rounding slip loses or duplicates a task only for other pairs.",
     ["src/LoadBalancerDefault.h", "src/LoadBalancerWeights.h", "src/LoadBalancerMpi.h", "src/PthreadsNg.h", "src/Pthreads.h", "src/NoPthreads.h", "src/NoPthreadsNg.h", "src/Parallelizer2Pthread.h", "src/Parallelizer2Serial.h", "src/Parallelizer2OpenMP.h", "src/InterNodeMpi.h", "src/InterNodeSerial.h", "src/GemmR.h"],
     [("load balancers", "src/LoadBalancer*.h"), ("per-worker task loop", "src/PthreadsNg.h thread_function_wrapper, src/Parallelizer2Pthread.h")])

prop("P05", "Turning assertions off does not change behaviour",
     "Compiling with assertions disabled yields the same state changes, results and exceptions for every input on which no assertion fails: nothing the program needs is computed, stored, read from input or locked inside an assertion, and no code other than assertions depends on the assertion switch to change results.",
     ["configurations", "inputs"],
     "all programs built from the library with and without NDEBUG",
     "The test suite is built in one mode only, with assertions on.",
     ["src/CrsMatrix.h", "src/Matrix.h", "src/Vector.h", "src/InputNg.h", "src/Geometry", "src/Io", "src/MpiYes.h"],
     [("assert() operands", "every source file")])

prop("P06", "Errors are thrown, not dropped",
     "When the library detects an error it raises an exception that reaches its caller: an exception object is never built and discarded, an exception caught inside the library is either re-raised or replaced by a documented alternative result, and no library routine ends the process on bad data. The status returned by a system, HDF5, MPI or numerical routine that can fail is examined before its result is relied on.",
     ["inputs", "fault_sequences"],
     "all malformed inputs and all failing system, HDF5 and MPI calls",
     "Error paths are not exercised by the tests, which feed valid files and matrices.",
     ["src/InputNg.h", "src/Io/IoNgSerializer.h", "src/Io/IoNg.h", "src/Io/IoSimple.h", "src/MpiYes.h", "src/Geometry", "src/GetBraOrKet.h", "src/Ainur", "src/PsimagLite.cpp"],
     [("err() and throw sites", "src/PsimagLite.cpp, all files"), ("HDF5 calls", "src/Io/IoNgSerializer.h"), ("MPI_* calls", "src/MpiYes.h")])

prop("P07", "Invalid arguments are rejected before they can do harm",
     "Each documented precondition the library checks (matching dimensions, square or hermitian matrix, known option or label, sizes and ranges in input files, mandatory keys) is checked on every path before the operation it protects, rejects exactly the invalid values, and accepts all valid ones.",
     ["inputs"],
     "all argument values, in particular boundary sizes, mismatched shapes and unknown labels",
     "Tests supply valid arguments; a relaxed, inverted, moved or deleted check changes nothing they observe.",
     ["src/Matrix.h", "src/Matrix.cpp", "src/CrsMatrix.h", "src/Vector.h", "src/InputNg.h", "src/Options.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp", "src/LanczosSolver.h", "src/LanczosCore.h", "src/ParametersForSolver.h", "src/Geometry/Geometry.h", "src/PackIndices.h", "src/OneOperatorSpec.h", "src/GetBraOrKet.h", "src/Stack.h", "src/Minimizer.h", "src/RootFindingBisection.h", "src/PsiBase64.h"],
     [("guarded throws", "every file listed")])

prop("P08", "What one side serialises, the other side reads back the same way",
     "For every serialisable type, the reader consumes the same named records, in the same order and element type, that the writer produces, and puts each into the member it came from. This holds for the plain-text format, for the HDF5 format (including overwrite of an existing record), for stream operators and for message passing of composite values.",
     ["programs", "inputs"],
     "all serialisable types, all label prefixes and all values, including empty containers and zero sizes",
     "Tests round-trip a few types with one shape; a renamed record, a swapped pair of members or a mismatched element type in another type is not reached.",
     ["src/Io/IoNgSerializer.h", "src/Io/IoNg.h", "src/Io/IoSimple.h", "src/Matrix.h", "src/CrsMatrix.h", "src/ContinuedFraction.h", "src/ChebyshevSerializer.h", "src/TridiagonalMatrix.h", "src/MpiYes.h", "src/SparseRow.h", "src/Geometry"],
     [("write/read member pairs", "files listed"), ("TypeToH5 table", "src/Io/TypeToH5.cpp")])

prop("P09", "Whole-object operations cover the whole object",
     "Copying, assigning, swapping, clearing, resizing and comparing a matrix, sparse matrix or other library container treats every part of its state, so that a copy is independent of and equal to its source, a cleared object equals a fresh one, and two objects that differ in any part never compare equal.",
     ["histories", "programs"],
     "all sequences of construction, assignment, mutation and comparison on all library value types",
     "Tests use fresh objects; stale state only shows after an object is reused or copied and then modified.",
     ["src/CrsMatrix.h", "src/Matrix.h", "src/SparseVector.h", "src/TridiagonalMatrix.h", "src/SparseRow.h", "src/ContinuedFraction.h", "src/Geometry/Geometry.h", "src/Geometry/GeometryTerm.h", "src/LanczosVectors.h", "src/MemResolv.h"],
     [("operator=, operator==, swap, clear, resize", "files listed")])

prop("P10", "Every resource is owned once and released exactly once",
     "Everything the library acquires (heap objects, files, HDF5 handles, thread attributes, numerical workspaces) is released exactly once on every path, including error paths, by the object that owns it; no object is used after release and no two objects release the same resource.",
     ["histories", "fault_sequences"],
     "all object lifetimes, copies, early returns and exceptions",
     "Leaks and double releases on error or copy paths do not change test output.",
     ["src/Geometry/GeometryTerm.h", "src/Geometry/Geometry.h", "src/Io/IoNgSerializer.h", "src/Io/IoNg.h", "src/Io/IoSimple.h", "src/Minimizer.h", "src/LanczosCore.h", "src/LanczosVectors.h", "src/ChebyshevSolver.h", "src/GemmR.h", "src/AST/Tree.h", "src/InputNg.h", "src/RedirectOutput.hh", "src/ApplicationInfo.h"],
     [("destructors and deletes", "files listed"), ("H5*close calls", "src/Io/IoNgSerializer.h")])

prop("P11", "Sparse-matrix construction yields a well-formed compressed matrix",
     "Every operation that builds or transforms a sparse matrix leaves row offsets that start at zero, never decrease and end at the number of stored entries, with as many offsets as rows plus one, as many column indices as values, and every column index within the column count. The entries stored are exactly those the operation defines, each attributed to its own row.",
     ["inputs", "histories"],
     "all matrix shapes (empty rows, empty matrices, rectangular), value types and build orders",
     "Tests build a few small matrices; wrong offsets for trailing empty rows or rectangular shapes are not reached.",
     ["src/CrsMatrix.h", "src/SparseRow.h", "src/SparseRowCached.h", "src/SampleCRSMatrix.h"],
     [("constructors, setRow/setCol/setValues/pushCol/pushValue/finalize", "src/CrsMatrix.h"),
      ("free transforms", "src/CrsMatrix.h")])

prop("P12", "Matrix and vector kernels visit exactly the right elements",
     "Every dense, sparse and vector kernel (sums, products, transposes, external and tensor products, conversions, norms, reductions) ranges over the complete index set of its operands, uses row indices for rows and column indices for columns, stays inside every array, and gives each element of the result exactly the contributions its mathematical definition lists.",
     ["inputs"],
     "all shapes, in particular non-square and empty ones, and all value types",
     "Tests mostly use square matrices with one size, where a row index used as a column index, or a loop over the wrong extent, gives the same answer.",
     ["src/Matrix.h", "src/MatrixNonOwned.h", "src/CrsMatrix.h", "src/Vector.h", "src/SparseVector.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp", "src/GemmR.h", "src/Sort.h", "src/Permutations.h"],
     [("element loops", "files listed")])

prop("P13", "Complex values are conjugated exactly where the definition requires",
     "Adjoints, scalar products, hermiticity tests, norms and expectation values conjugate the operand the definition says, for complex element types, and reduce to the plain real formula for real ones. Real and complex overloads of the same operation agree wherever both apply.",
     ["inputs", "configurations"],
     "all complex inputs and all element types",
     "Almost all tests use real matrices, on which conjugation is the identity.",
     ["src/Matrix.h", "src/Matrix.cpp", "src/CrsMatrix.h", "src/Vector.h", "src/Complex.h", "src/SparseVector.h", "src/LanczosCore.h", "src/ContinuedFraction.h", "src/CmplxOrReal.h", "src/SparseRow.h"],
     [("conj/real/imag calls", "files listed")])

prop("P14", "Each operator symbol, keyword and option name means what it says",
     "In the expression evaluator, predicates, input language and option parser, every documented symbol, function name, keyword and option maps to exactly the operation it names with its operands in written order, every listed name is handled, and unknown names are rejected.",
     ["inputs", "programs"],
     "all expressions, predicates and inputs over the documented vocabularies",
     "Tests exercise a handful of symbols; a wrong operation behind a rarely used symbol or a name listed but not handled goes unseen.",
     ["src/AST/Node.h", "src/AST/PlusMinusMultiplyDivide.h", "src/AST/AdditionalFunctions.h", "src/AST/Tree.h", "src/AST/ExpressionForAST.h", "src/PredicateSimple.h", "src/PredicateSimple.cpp", "src/PredicateAwesome.h", "src/PredicateAnd.h", "src/ParametersForSolver.h", "src/Options.h", "src/Geometry/Geometry.h", "src/QuasiCanonical.h", "src/CanonicalExpression.h", "src/FreqEnum.h", "src/Ainur", "src/InputNg.h"],
     [("symbol tables and dispatch chains", "files listed")])

prop("P15", "Same seed and input give the same results",
     "A generator constructed or re-seeded with a given seed always yields the same sequence, defined by the published recurrence and constants of its algorithm, independently of other generators, of earlier use, of the clock and of thread timing; no library computation draws on unseeded randomness or hidden mutable global state.",
     ["histories", "schedules", "configurations"],
     "all seeds, all interleavings of draws from several generators, all run lengths",
     "A test compares at most a few draws from one generator; state shared between generators or a wrong constant late in the period is not reached.",
     ["src/MersenneTwister.h", "src/MersenneTwister.cpp", "src/Random48.h", "src/RandomForTests.h", "src/LanczosCore.h", "src/ParametersForSolver.h", "src/SampleCRSMatrix.h"],
     [("state seeding and tempering", "src/MersenneTwister.cpp"), ("drand48 wrapper", "src/Random48.h"), ("initial vector fill", "src/LanczosCore.h")])

prop("P16", "Message-passing wrappers move the data they are given, as its type",
     "Every message-passing wrapper passes the buffer, element count, element type, root, rank, tag and communicator its caller gave it, with the element type that matches the data, examines the outcome, and makes sender and receivers agree on sizes before data. In builds without message passing each wrapper behaves exactly like a single-process run.",
     ["configurations", "inputs"],
     "all element types, container sizes, roots and process counts, with and without message passing",
     "The tests are built without message passing and with one process.",
     ["src/MpiYes.h", "src/MpiYes.cpp", "src/MpiNo.h", "src/MpiNo.cpp", "src/Mpi.cpp", "src/Concurrency.cpp", "src/InterNodeMpi.h", "src/LoadBalancerMpi.h", "src/PthreadsAndMpi.h"],
     [("bcast/reduce/gather/send/recv wrappers", "src/MpiYes.h"), ("MpiData type table", "src/MpiYes.cpp")])

prop("P17", "Nothing is read before it has been given a value",
     "Every object is fully initialised by each of its constructors, and every local value is assigned on every path before it is read, so no result depends on leftover memory contents.",
     ["inputs", "histories"],
     "all constructors, including default ones, and all control paths",
     "Uninitialised reads usually see zero in a fresh test process.",
     ["src", "src/Geometry", "src/Io", "src/Ainur", "src/AST"],
     [("constructors and member initialisers", "every class")])

prop("P18", "Lattice geometries are symmetric, in range and consistent",
     "For every geometry, whether two sites are connected and along which direction does not depend on the order the sites are given in; handles and neighbours are always within the declared ranges, the number of connections declared for a direction is the number that exist, and site distances and reflections follow the lattice definition with its boundary conditions.",
     ["inputs"],
     "all geometries, lattice sizes, leg counts, boundary conditions and site pairs",
     "No stable test of the suite loads a geometry other than as a driver smoke test; wrap-around and leg-parity cases are not reached.",
     ["src/Geometry/Chain.h", "src/Geometry/LongChain.h", "src/Geometry/Ladder.h", "src/Geometry/LadderX.h", "src/Geometry/LadderBath.h", "src/Geometry/KTwoNiFFour.h", "src/Geometry/Star.h", "src/Geometry/Honeycomb.h", "src/Geometry/LongRange.h", "src/Geometry/GeometryDirection.h", "src/Geometry/GeometryTerm.h", "src/Geometry/Geometry.h"],
     [("connected/calcDir/handle/getVectorSize/findReflection", "files listed")])

prop("P19", "Every documented configuration of the library compiles and links",
     "Each public class template and function of the library can be instantiated for its documented element types in every supported configuration (serial, POSIX threads, OpenMP, message passing, with and without the scientific library), and its headers can be included from several translation units of one program.",
     ["configurations", "programs"],
     "all documented template arguments and configuration switches",
     "The suite builds one configuration and instantiates few member functions; an uninstantiated template body is not even type-checked.",
     ["src", "src/Geometry", "src/Io", "src/AST"],
     [("templates and configuration switches", "every header")])

prop("P20", "Encodings and index packings are invertible",
     "Decoding what the library encodes gives back the original: text encodings for every byte string, packed indices for every component tuple within the declared sizes, permutations and their inverses, and enumeration to string tables in both directions.",
     ["inputs"],
     "all byte strings and lengths, all sizes and component tuples, all enumerators",
     "The one test encodes one string; padding classes, high bytes and boundary components are not covered.",
     ["src/PsiBase64.h", "src/PsiBase64.cpp", "src/PackIndices.h", "src/Permutations.h", "src/BitManip.h", "src/FreqEnum.h", "src/TypeToString.h", "src/Sort.h"],
     [("encode/decode pair", "src/PsiBase64.h"), ("pack/unpack", "src/PackIndices.h"), ("bit operations", "src/BitManip.h")])

prop("P21", "Numerical recurrences follow their published definitions",
     "The iterative kernels (Lanczos three-term recurrence, Chebyshev moments, continued fractions, Runge-Kutta steps, bisection, spline, Fermi functions, special functions, linear prediction) apply the documented recurrence with its documented coefficients, starting values, index offsets and stopping tests.",
     ["inputs"],
     "all inputs, orders and step counts",
     "Tests compare one problem with a loose tolerance; a wrong coefficient that only matters for other orders, offsets or parameters passes.",
     ["src/LanczosSolver.h", "src/LanczosCore.h", "src/LanczosVectors.h", "src/LanczosOrDavidsonBase.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp", "src/ChebyshevSolver.h", "src/ChebyshevSerializer.h", "src/ChebyshevFunction.h", "src/ChebyshevFunctionExplicit.h", "src/KernelPolynomialParameters.h", "src/ContinuedFraction.h", "src/ContinuedFractionCollection.h", "src/RungeKutta.h", "src/RootFindingBisection.h", "src/AkimaSpline.h", "src/Fermi.h", "src/SpecialFunctions.cpp", "src/LinearPrediction.h", "src/Integrator.h"],
     [("iteration bodies", "files listed")])

prop("P22", "Input text is read as its grammar says",
     "Every label, scalar, vector, matrix, string and group in an input or parameter file yields exactly the value written for it, whatever its position, spacing, comments, repetition or abbreviation the grammar allows; a missing optional entry leaves the documented default, and a missing mandatory, repeated or malformed entry is an error.",
     ["inputs", "programs"],
     "all texts of the plain input format, of the Ainur language and of the option and predicate lists",
     "The drivers of the suite read a handful of fixed input files; rarely used forms (ranges, repeated labels, ellipses, comments, signed and complex numbers) are not reached.",
     ["src/InputNg.h", "src/InputCheckBase.h", "src/Complex.h", "src/CmplxOrReal.h", "src/AST", "src/Ainur", "src/PsimagLite.h", "src/PsimagLite.cpp", "src/Options.h", "src/Io/IoSimple.h", "src/OneOperatorSpec.h", "src/GetBraOrKet.h", "src/PredicateSimple.h", "src/PredicateAwesome.h"],
     [("Writeable finder/reader and Readable accessors", "src/InputNg.h"), ("lexical pass, assignment, conversion", "src/Ainur"),
      ("split()", "src/PsimagLite.cpp"), ("readline/advance/readVector", "src/Io/IoSimple.h")])

prop("P23", "Program-wide services do what they report and restore what they change",
     "Services that act on the whole process (output redirection, progress and timing reports, memory accounting, thread and process counts, allocation resolution, code section parameters, microarchitecture and limit queries) report the quantity they name, apply the settings they are given, keep one state per process, and put back every stream, buffer and flag they replaced.",
     ["histories", "configurations", "inputs"],
     "all sequences of set, use and restore, all indentation and thread settings, all error exits",
     "Tests ignore diagnostic output and never set a service twice or tear it down.",
     ["src/RedirectOutput.hh", "src/ProgressIndicator.h", "src/ProgressIndicator.cpp", "src/Profiling.h", "src/MemoryUsage.h", "src/LineMarker.h", "src/Concurrency.h", "src/Concurrency.cpp", "src/CodeSectionParams.h", "src/ApplicationInfo.h", "src/PsimagLite.h", "src/PsimagLite.cpp", "src/MemResolv.h", "src/MemResolv.cpp", "src/Limit.h", "src/Parallelizer.h", "src/AllocatorCpu.h"],
     [("doIt/restoreCoutBuffer", "src/RedirectOutput.hh"), ("printline", "src/ProgressIndicator.h"), ("npthreads, codeSectionParams", "src/Concurrency.h")])

prop("P24", "Combinatorial helpers list every case once, in the documented order",
     "Helpers that enumerate, order, count or look up (sum decompositions, permutations, sorting, stacks, maps, packed pairs, bit counting, term collection of operator expressions, tolerance comparisons) produce every case their definition admits exactly once and in the stated order, for every size including zero and one.",
     ["inputs"],
     "all sizes, selections, element values (with repeats) and tolerances",
     "Tests print one enumeration of one size; an off-by-one bound or a wrong comparison shows only for other sizes or repeated values.",
     ["src/SumDecomposition.h", "src/Permutations.h", "src/Sort.h", "src/Stack.h", "src/Map.h", "src/PackIndices.h", "src/BitManip.h", "src/QuasiCanonical.h", "src/CanonicalExpression.h", "src/PredicateDefaultSpec.h", "src/AlmostEqual.h", "src/FloatingPoint.h", "src/LabelDisabled.h", "src/Optional.h", "src/DeepCopyOrNot.h"],
     [("reentrant1_", "src/SumDecomposition.h"), ("sort", "src/Sort.h"), ("pack/unpack", "src/PackIndices.h")])

# --- stated, but not decidable from the shape of the code ---
prop("N01", "Computed eigenpairs satisfy the eigenvalue equation",
     "Every eigenpair returned by the dense, Lanczos and Davidson solvers satisfies the eigenvalue equation to the requested tolerance, and the lowest requested eigenvalues are the lowest of the matrix.",
     ["inputs"], "all hermitian matrices and solver parameters",
     "Tests solve one or two fixed problems.",
     ["src/LanczosSolver.h", "src/DavidsonSolver.h", "src/Matrix.cpp"],
     [("iteration and convergence test", "src/LanczosSolver.h")])
prop("N02", "Floating-point values survive a text or HDF5 round trip bit for bit",
     "A value written to a file and read back equals the original value to the precision documented for the format.",
     ["inputs"], "all floating-point values",
     "Tests round-trip a few representable values.",
     ["src/Io/IoSimple.h", "src/Io/IoNgSerializer.h"],
     [("stream precision", "src/Io/IoSimple.h")])
prop("N03", "Random numbers are statistically uniform and independent",
     "The generators produce uniformly distributed, uncorrelated numbers in their stated range.",
     ["inputs"], "all seeds", "A test draws a few numbers.",
     ["src/MersenneTwister.cpp", "src/Random48.h"], [("generator", "src/MersenneTwister.cpp")])
prop("N04", "Singular value decomposition and inverse reconstruct their input",
     "The product of the factors equals the input matrix, and a matrix times its inverse is the identity, to working precision.",
     ["inputs"], "all non-singular matrices and all shapes",
     "Tests use a few small matrices.",
     ["src/Svd.h", "src/Matrix.h"], [("Svd, inverse", "src/Svd.h, src/Matrix.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
if "-v" in sys.argv:
    print(len(P))
