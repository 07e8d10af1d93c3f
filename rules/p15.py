"""P15: nothing but the seeded generators decides a random number; no hidden state."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, root, short

ABOUT = ("Absolute: the clock, process identity, hardware entropy and global generators are consulted only where the program reports on itself; no function-local static keeps a "
         "value computed from the arguments or object of the first call; namespace-scope mutable objects and mutable function statics are the listed ones; generator state lives in the "
         "generator object. Relative: recurrences, constants and seeding are those of the confirmed reference.")
SOURCES = {"drand48", "lrand48", "rand", "srand", "rand_r", "random_device", "time", "clock", "gettimeofday", "clock_gettime", "getpid", "gettid", "pthread_self", "now", "getrandom", "arc4random", "localtime",
           "srandom", "initstate", "mt19937", "default_random_engine"}
# reports on the running program: neither feeds a computation
REPORTING = {"src/ApplicationInfo.h", "src/MemoryUsage.h", "src/ProgressIndicator.h", "src/PsimagLite.h", "src/PsimagLite.cpp", "src/Profiling.h", "src/PthreadsNg.h", "src/RedirectOutput.hh",
             "src/Concurrency.h", "src/Pthreads.h", "src/ProgressIndicator.cpp", "src/LineMarker.h"}
SEEDED = {("src/SampleCRSMatrix.h", "drand48")}      # seeded by srand48 in the same function
GLOBALS = {"PsimagLite::MPI::COMM_WORLD", "PsimagLite::MPI::SUM", "PsimagLite::Concurrency::mode", "PsimagLite::Concurrency::mpiDisabled_", "PsimagLite::Concurrency::codeSectionParams",
           "PsimagLite::ProgressIndicator::musage_", "PsimagLite::ProgressIndicator::buffer_", "PsimagLite::ProgressIndicator::bufferActive_", "PsimagLite::PredicateSimple::ops_",
           "PsimagLite::AinurState::ZERO_CHAR_STRING_", "PsimagLite::RedirectOutput::app_name_", "PsimagLite::RedirectOutput::app_name2_", "PsimagLite::RedirectOutput::cout_buffer_",
           "PsimagLite::RedirectOutput::cout_stream_", "PsimagLite::RedirectOutput::redirected_", "PsimagLite::globalMemoryCpu", "PsimagLite::Parallelizer::codeSectionParamss_"}
STATICS = {("src/PthreadsNg.h", "firstCall"), ("src/Io/IoNgSerializer.h", "byteSize")}


def sources(ctx):
    """the clock, the process identity and unseeded generators are consulted only by reporting services"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        ctx.count("functions")
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("k") not in ("call", "ctor"):
                continue
            n, q = x.get("n", ""), x.get("f", "")
            ext = x.get("c") or q.startswith("std::") or q in (n, "::" + n)
            if n in SOURCES and ext or re.match(r"^std::(random_device|chrono::)", q):
                ctx.count("clock_and_entropy_sites")
                if rel in REPORTING or (rel, n) in SEEDED:
                    continue
                out.append(Finding("entropy", "%s in %s" % (n, short(f["q"])), rel, x.get("l"), "%s is consulted here" % n))
    return out


def reads(F, y):
    """a member function of this object that reads a field"""
    o = strip(y.get("o"))
    f = F.fns.get(y.get("fk"))
    return isinstance(o, dict) and o.get("k") == "this" and f is not None and any(z.get("k") == "mem" for z in FX.walk(f["body"]))


def statics(ctx):
    """a function-local static holds the same value whatever the first call was given"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        ps = {p["id"] for p in f["params"]}
        loc = {x["id"] for x in FX.walk(f["body"]) if x.get("k") == "var" and not x.get("static")}
        for x in FX.walk(f["body"]):
            if x.get("k") != "var" or not x.get("static"):
                continue
            ctx.count("function_statics")
            t = F.ty(x)
            dep = [y for y in FX.walk(x.get("init")) if y.get("k") == "mem" and root(y) and root(y)[0] == "m" or y.get("k") == "call" and reads(F, y)]
            dep += [y for y in FX.walk(x.get("init")) if y.get("k") == "ref" and (y.get("id") in ps or y.get("id") in loc) and "cv" not in y]
            if dep:
                out.append(Finding("first-call-sticks", "%s in %s" % (x.get("n"), short(f["q"])), rel, x.get("l"), "the static %s keeps what the first call computed from its arguments or object" % x.get("n")))
            elif not t.startswith("const ") and not t.endswith("const") and (rel, x.get("n")) not in STATICS and not t.endswith("&"):
                out.append(Finding("function-state", "%s in %s" % (x.get("n"), short(f["q"])), rel, x.get("l"), "the function keeps state in the static %s between calls" % x.get("n")))
    return out


def globals_(ctx):
    """mutable objects of static storage duration are the listed ones"""
    F, out = ctx.C, []
    for (q, p, l), g in F.gvars.items():
        rel = F.rel(p)
        if not rel.startswith("src/") or g.get("const") or g.get("slocal") or g.get("linkage") == "other":
            continue
        t = F.types[g["t"]]
        if t.startswith("const ") or t.endswith("const"):
            continue
        ctx.count("mutable_globals")
        if short(q) not in GLOBALS:
            out.append(Finding("global-state", short(q), rel, g.get("l"), "mutable object of static storage duration"))
    return out


RULES = [("entropy", sources), ("statics", statics), ("globals", globals_)]
